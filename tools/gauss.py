#!/usr/bin/env python3
"""Evaluates the one enumerated fact of contracts/ssim_kernel.rs, ax_gauss_centre:
twice the sum of the off-centre coefficients of the Gaussians in use is less than
the kernel weight (so the centre keeps a positive remainder).

The windows are those of SSIM (weight 256, deviation 1.5 h / 256 for every height h;
from 34860 lines on nothing but the centre is left) and of MSSSIM (1024, 1.5).
Every rounding and every length is decided with a margin: a value that comes
within 1e-9 of a step is evaluated again with 60 digits, and must then be clear."""
import math, sys
import mpmath
mpmath.mp.dps = 60


def step(f, exact):
    r = round(f)
    if abs(f - r) > 1e-9 * max(1, abs(f)):
        return math.floor(f)
    e = exact()
    assert abs(e - mpmath.nint(e)) > mpmath.mpf(10) ** -40, "a tie"
    return int(mpmath.floor(e))


def window(num, den, kw):
    sg = num / den
    S = lambda: mpmath.mpf(num) / den
    err = math.sqrt(0.5 * math.pi) * sg / kw
    if abs(err - 1) < 1e-9:
        err = float(1 + mpmath.sign(mpmath.sqrt(mpmath.pi / 2) * S() / kw - 1) * 0.5)
    if err >= 1:
        return 0, 0, 0
    reach = step(sg * math.sqrt(-2 * math.log(err)), lambda: S() * mpmath.sqrt(-2 * mpmath.log(mpmath.sqrt(mpmath.pi / 2) * S() / kw)))
    a, b = kw / (math.sqrt(2 * math.pi) * sg), -0.5 / (sg * sg)
    tot = 0
    for c in range(1, reach + 1):
        k = step(a * math.exp(b * c * c) + 0.5,
                 lambda: kw / (mpmath.sqrt(2 * mpmath.pi) * S()) * mpmath.exp(-c * c / (2 * S() ** 2)) + mpmath.mpf(1) / 2)
        assert k >= 0
        tot += k
    return reach, tot, err


def main():
    n = 0
    worst = 0
    h = 1
    while True:
        reach, tot, err = window(3 * h, 512, 256)
        if 2 * tot >= 256:
            print(f"height {h}: the sides of the window sum to {2 * tot} of 256")
            return 1
        worst = max(worst, 2 * tot)
        n += 1
        if reach == 0 and tot == 0 and err == 0:
            break
        h += 1
    # the deviation grows with the height: for all further ones the error exceeds 1, too
    reach, tot, _ = window(3, 2, 1024)
    if 2 * tot >= 1024:
        print("the sides of the MSSSIM window sum to", 2 * tot)
        return 1
    print(f"{n + 1} windows evaluated (heights 1 to {h}, none longer beyond), sides at most {worst} of 256 and {2 * tot} of 1024")
    return 0


sys.exit(main())
