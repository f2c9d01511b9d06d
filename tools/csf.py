import re
t=open('/repo/av_metrics/src/video/psnr_hvs.rs').read()
print("// ------------------------- the contrast sensitivity tables (published values)")
for nm,sp in (("CSF_Y","csf_y"),("CSF_CB420","csf_cb"),("CSF_CR420","csf_cr")):
    b=t[t.index(f"const {nm}:"):]; b=b[b.index("= [")+2:b.index("\n];")]
    v=re.findall(r"\d+\.\d+",b); assert len(v)==64
    print(f"pub open spec fn {sp}(n: int) -> real {{")
    for r in range(8):
        print("    "+" ".join(f"if n == {8*r+j} {{ {v[8*r+j]}real }} else" for j in range(8)))
    print("    { 1real }\n}")
    print(f"pub open spec fn is_{sp}(m: [[Fl; 8]; 8]) -> bool {{")
    for r in range(8): print("    "+" ".join(f"&&& m[{r}][{j}]@ == {v[8*r+j]}real" for j in range(8)))
    print("}")
    print(f"pub proof fn at_{sp}(m: [[Fl; 8]; 8]) requires is_{sp}(m) ensures table(m, |n: int| {sp}(n))")
    print(f"{{\n    assert forall|i: int, j: int| 0 <= i < 8 && 0 <= j < 8 implies (#[trigger] m[i][j])@ == {sp}(8 * i + j) by {{")
    for r in range(8): print(f"        if i == {r} {{ "+" else ".join(f"if j == {j} {{}}" for j in range(8))+" }")
    print("    }\n}")
    print(f"pub proof fn pos_{sp}(n: int) ensures {sp}(n) > 0real {{}}")
print("""pub open spec fn table(m: [[Fl; 8]; 8], c: spec_fn(int) -> real) -> bool { forall|i: int, j: int| 0 <= i < 8 && 0 <= j < 8 ==> (#[trigger] m[i][j])@ == c(8 * i + j) }""")
