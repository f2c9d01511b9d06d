// ------------------------------------------------- consequences (C18, C19)
pub open spec fn neg(t: Terms) -> Terms { Terms { l: -t.l, c: -t.c, h: -t.h, rt: t.rt } }
proof fn mul_pos(a: real, b: real) requires a > 0real, b > 0real ensures a * b > 0real { assert(a * b > 0real) by(nonlinear_arith) requires a > 0real, b > 0real; }
proof fn neg_quot(x: real, d: real) requires d > 0real ensures (-x) / d == -(x / d) { assert((-x) / d == -(x / d)) by(nonlinear_arith) requires d > 0real; }
/// each weight turns a term of the other sign into one of the other sign
proof fn weights_neg(x: real, y: real, z: real, lm: real, a1: real, b1: real, a2: real, b2: real, hm: real, kl: real, kc: real, kh: real)
    requires kl > 0real, kc > 0real, kh > 0real
    ensures ({
        let cm = (norm2(a1, b1) + norm2(a2, b2)) / 2real;
        let sl = 1real + (0.015real * r_powi(lm - 50real, 2)) / r_sqrt(20real + r_powi(lm - 50real, 2));
        let sc = 1real + 0.045real * cm;
        let sh = 1real + 0.015real * cm * hue_t(hm);
        (-x) / (kl * sl) == -(x / (kl * sl)) && (-y) / (kc * sc) == -(y / (kc * sc)) && (-z) / (kh * sh) == -(z / (kh * sh))
    })
{
    s_l_ok(lm); norm2_ok(a1, b1); norm2_ok(a2, b2); hue_t_ok(hm);
    let cm = (norm2(a1, b1) + norm2(a2, b2)) / 2real;
    let ht = hue_t(hm);
    assert(0.015real * cm * ht >= 0real) by(nonlinear_arith) requires cm >= 0real, ht >= 0.07real;
    neg_over(x, kl, s_l(lm)); neg_over(y, kc, 1real + 0.045real * cm); neg_over(z, kh, 1real + 0.015real * cm * ht);
}
proof fn neg_over(x: real, k: real, s: real) requires k > 0real, s > 0real ensures (-x) / (k * s) == -(x / (k * s)) { mul_pos(k, s); neg_quot(x, k * s); }
proof fn neg_combine(t: Terms) ensures combine(neg(t)) == combine(t)
{
    square(t.l); square(t.c); square(t.h); square(-t.l); square(-t.c); square(-t.h);
    let (r, l, c, h) = (t.rt, t.l, t.c, t.h);
    assert((-l) * (-l) == l * l && (-c) * (-c) == c * c && (-h) * (-h) == h * h) by(nonlinear_arith);
    assert(r * (-c) == -(r * c)) by(nonlinear_arith);
    let m = r * c;
    assert((-m) * (-h) == m * h) by(nonlinear_arith);
}
proof fn neg_mul(s: real, x: real) ensures 2real * s * (-x) == -(2real * s * x) { assert(2real * s * (-x) == -(2real * s * x)) by(nonlinear_arith); }
proof fn hue_swap(c1: real, c2: real, h1: real, h2: real) ensures hue_diff(c2, c1, h2, h1) == -hue_diff(c1, c2, h1, h2), hue_mean(h2, h1) == hue_mean(h1, h2) { ax_pi(); }
/// C19: the order of two colors does not matter
pub proof fn de_swap(p: LabS, q: LabS, kl: real, kc: real, kh: real)
    requires kl > 0real, kc > 0real, kh > 0real
    ensures de00(q, p, kl, kc, kh) == de00(p, q, kl, kc, kh)
{
    de_ok(p, q, kl, kc, kh);
    let lm = (p.l + q.l) / 2real;
    let (c1, c2) = (norm2(p.a, p.b), norm2(q.a, q.b));
    assert((c1 + c2) / 2real == (c2 + c1) / 2real && (q.l + p.l) / 2real == lm);
    let g = 1real - chroma_7((c1 + c2) / 2real);
    let (a1, a2) = (p.a + p.a / 2real * g, q.a + q.a / 2real * g);
    let (d1, d2) = (norm2(a1, p.b), norm2(a2, q.b));
    let cm = (d1 + d2) / 2real;
    assert((d2 + d1) / 2real == cm);
    let (h1, h2) = (hue_angle(p.b, a1), hue_angle(q.b, a2));
    hue_swap(c1, c2, h1, h2);
    let hm = hue_mean(h1, h2);
    let sl = 1real + (0.015real * r_powi(lm - 50real, 2)) / r_sqrt(20real + r_powi(lm - 50real, 2));
    let sc = 1real + 0.045real * cm;
    let sh = 1real + 0.015real * cm * hue_t(hm);
    let x = hue_diff(c1, c2, h1, h2);
    assert((-x) / 2real == -(x / 2real));
    ax_sin(x / 2real);
    assert(d1 * d2 == d2 * d1) by(nonlinear_arith);
    let s = r_sqrt(d1 * d2);
    neg_mul(s, r_sin(x / 2real));
    weights_neg(q.l - p.l, d2 - d1, 2real * s * r_sin(x / 2real), lm, a1, p.b, a2, q.b, hm, kl, kc, kh);
    let (t, u) = (de_terms(p, q, kl, kc, kh), de_terms(q, p, kl, kc, kh));
    assert(u.l == -t.l);
    assert(u.c == -t.c);
    assert(u.h == -t.h);
    assert(u.rt == t.rt);
    neg_combine(t);
}
/// C19: a color does not differ from itself
pub proof fn de_same(p: LabS, kl: real, kc: real, kh: real)
    requires kl > 0real, kc > 0real, kh > 0real
    ensures de00(p, p, kl, kc, kh) == 0real
{
    de_ok(p, p, kl, kc, kh);
    let t = de_terms(p, p, kl, kc, kh);
    // each term is its own negative
    let lm = (p.l + p.l) / 2real;
    let c1 = norm2(p.a, p.b);
    let g = 1real - chroma_7((c1 + c1) / 2real);
    let a1 = p.a + p.a / 2real * g;
    let d1 = norm2(a1, p.b);
    let cm = (d1 + d1) / 2real;
    let h1 = hue_angle(p.b, a1);
    let hm = hue_mean(h1, h1);
    let sl = 1real + (0.015real * r_powi(lm - 50real, 2)) / r_sqrt(20real + r_powi(lm - 50real, 2));
    let sc = 1real + 0.045real * cm;
    let sh = 1real + 0.015real * cm * hue_t(hm);
    weights_neg(0real, 0real, 0real, lm, a1, p.b, a1, p.b, hm, kl, kc, kh);
    ax_pi(); ax_sin(0real);
    assert(hue_diff(c1, c1, h1, h1) == 0real);
    assert(r_sin(0real) == 0real);
    let s = r_sqrt(d1 * d1);
    neg_mul(s, 0real);
    assert(2real * s * 0real == 0real) by(nonlinear_arith);
    assert(t.l == 0real && t.c == 0real && t.h == 0real);
    square(0real);
    assert(t.rt * 0real * 0real == 0real) by(nonlinear_arith);
    ax_sqrt(0real);
    let z = r_sqrt(0real);
    assert(z == 0real) by(nonlinear_arith) requires z * z == 0real;
}
proof fn px_swap(y1: int, u1: int, v1: int, y2: int, u2: int, v2: int, b: int) ensures px_de(y1, u1, v1, y2, u2, v2, b) == px_de(y2, u2, v2, y1, u1, v1, b)
{ de_swap(lab_of_px(y1, u1, v1, b), lab_of_px(y2, u2, v2, b), 0.65real, 1real, 4real); }
proof fn px_same(y: int, u: int, v: int, b: int) ensures px_de(y, u, v, y, u, v, b) == 0real
{ de_same(lab_of_px(y, u, v, b), 0.65real, 1real, 4real); }
proof fn line_swap<T: Pixel>(f: &Frame<T>, g: &Frame<T>, y: int, c: ChromaSampling, b: int, k: int)
    ensures line_de(f, g, y, c, b, k) == line_de(g, f, y, c, b, k) decreases k
{
    if k > 0 {
        line_swap(f, g, y, c, b, k - 1);
        let (p, q) = (color_at(f, k - 1, y, c, b), color_at(g, k - 1, y, c, b));
        px_swap(p.0, p.1, p.2, q.0, q.1, q.2, b);
    }
}
proof fn lines_swap<T: Pixel>(f: &Frame<T>, g: &Frame<T>, c: ChromaSampling, b: int, k: int)
    requires f.planes[0].w() == g.planes[0].w()
    ensures lines_de(f, g, c, b, k) == lines_de(g, f, c, b, k) decreases k
{ if k > 0 { lines_swap(f, g, c, b, k - 1); line_swap(f, g, k - 1, c, b, f.planes[0].w()); } }
/// C19: the order of the frames does not matter
pub proof fn ciede_symmetric<T: Pixel>(f: &Frame<T>, g: &Frame<T>, b: int, c: ChromaSampling)
    requires f.fits(g)
    ensures ciede_score(f, g, c, b) == ciede_score(g, f, c, b)
{ lines_swap(f, g, c, b, f.planes[0].h()); }
/// the pixels of two frames with equal samples
proof fn colors<T: Pixel>(f: &Frame<T>, g: &Frame<T>, x: int, y: int, c: ChromaSampling, b: int)
    requires same_samples(f, g), chroma_ok(f, c), 0 <= x < f.planes[0].w(), 0 <= y < f.planes[0].h()
    ensures color_at(f, x, y, c, b) == color_at(g, x, y, c, b)
{
    assert(same_plane(&f.planes[0], &g.planes[0]) && same_plane(&f.planes[1], &g.planes[1]) && same_plane(&f.planes[2], &g.planes[2]));
    samples_px(&f.planes[0], &g.planes[0]); samples_px(&f.planes[1], &g.planes[1]); samples_px(&f.planes[2], &g.planes[2]);
    let (x2, y2) = (half(x, cdec(c).0), half(y, cdec(c).1));
    assert(f.planes[0].px(x, y) == g.planes[0].px(x, y));
    if f.planes[1].w() > 0 { assert(f.planes[1].px(x2, y2) == g.planes[1].px(x2, y2)); }
    if f.planes[2].w() > 0 { assert(f.planes[2].px(x2, y2) == g.planes[2].px(x2, y2)); }
}
proof fn line_same<T: Pixel>(f: &Frame<T>, g: &Frame<T>, y: int, c: ChromaSampling, b: int, k: int)
    requires same_samples(f, g), chroma_ok(f, c), k <= f.planes[0].w(), 0 <= y < f.planes[0].h()
    ensures line_de(f, g, y, c, b, k) == 0real decreases k
{
    if k > 0 {
        line_same(f, g, y, c, b, k - 1);
        colors(f, g, k - 1, y, c, b);
        let p = color_at(f, k - 1, y, c, b);
        px_same(p.0, p.1, p.2, b);
    }
}
proof fn lines_same<T: Pixel>(f: &Frame<T>, g: &Frame<T>, c: ChromaSampling, b: int, k: int)
    requires same_samples(f, g), chroma_ok(f, c), k <= f.planes[0].h()
    ensures lines_de(f, g, c, b, k) == 0real decreases k
{ if k > 0 { lines_same(f, g, c, b, k - 1); line_same(f, g, k - 1, c, b, f.planes[0].w()); } }
/// C19: identical frames score 100
pub proof fn ciede_identical<T: Pixel>(f: &Frame<T>, g: &Frame<T>, b: int, c: ChromaSampling)
    requires same_samples(f, g), chroma_ok(f, c), f.planes[0].w() > 0, f.planes[0].h() > 0
    ensures ciede_score(f, g, c, b) == 100real
{
    lines_same(f, g, c, b, f.planes[0].h());
    let (w, h) = (f.planes[0].w(), f.planes[0].h());
    assert(w * h > 0) by(nonlinear_arith) requires w > 0, h > 0;
    let d = (w * h) as real;
    assert(0real / d == 0real) by(nonlinear_arith) requires d > 0real;
}
proof fn line_layout<T: Pixel>(f: &Frame<T>, g: &Frame<T>, f2: &Frame<T>, g2: &Frame<T>, y: int, c: ChromaSampling, b: int, k: int)
    requires same_samples(f, f2), same_samples(g, g2), f.fits(g), chroma_ok(f, c), k <= f.planes[0].w(), 0 <= y < f.planes[0].h()
    ensures line_de(f, g, y, c, b, k) == line_de(f2, g2, y, c, b, k) decreases k
{
    if k > 0 {
        line_layout(f, g, f2, g2, y, c, b, k - 1);
        colors(f, f2, k - 1, y, c, b); colors(g, g2, k - 1, y, c, b);
    }
}
proof fn lines_layout<T: Pixel>(f: &Frame<T>, g: &Frame<T>, f2: &Frame<T>, g2: &Frame<T>, c: ChromaSampling, b: int, k: int)
    requires same_samples(f, f2), same_samples(g, g2), f.fits(g), chroma_ok(f, c), k <= f.planes[0].h()
    ensures lines_de(f, g, c, b, k) == lines_de(f2, g2, c, b, k) decreases k
{
    if k > 0 {
        assert(same_plane(&f.planes[0], &f2.planes[0]));
        lines_layout(f, g, f2, g2, c, b, k - 1); line_layout(f, g, f2, g2, k - 1, c, b, f.planes[0].w());
    }
}
/// C18: only the visible samples count
pub proof fn ciede_layout<T: Pixel>(f: &Frame<T>, g: &Frame<T>, f2: &Frame<T>, g2: &Frame<T>, b: int, c: ChromaSampling)
    requires same_samples(f, f2), same_samples(g, g2), f.fits(g), chroma_ok(f, c)
    ensures ciede_score(f, g, c, b) == ciede_score(f2, g2, c, b)
{
    assert(same_plane(&f.planes[0], &f2.planes[0]));
    lines_layout(f, g, f2, g2, c, b, f.planes[0].h());
}
