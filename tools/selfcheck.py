#!/opt/veriftools/pyvenv/bin/python
"""Self-check of the specification's base: TLC checks the laws of
spec/MC_Base.tla (Java overrides against TLA+ definitions), and the numbers
TLC computed are compared with mpmath at 40 digits."""
import os
import sys
import mpmath as mp
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
import core  # noqa: E402

mp.mp.dps = 45
c = core.Check("SELF")
t = c.tlc("MC_Base", dict(NSess=int(sys.argv[1]) if len(sys.argv) > 1 else 400, Seed=c.seed * 7 + 1),
          invariants=["Field", "Elementary", "JetOps", "Arrays"])


def phi2(h, k, r):
    f = lambda s: mp.exp(-(h * h - 2 * s * h * k + k * k) / (2 * (1 - s * s))) / (2 * mp.pi * mp.sqrt(1 - s * s))
    return mp.ncdf(h) * mp.ncdf(k) + mp.quad(f, mp.linspace(0, r, 9))


bad = n = 0
for e in t:
    x, y, p, h, k, r = (mp.mpf(str(e[q])) for q in ("x", "y", "p", "h", "k", "r"))
    want = dict(sum=x + y, prod=x * y, quot=x / p, exp=mp.exp(x), ln=mp.log(p), sqrt=mp.sqrt(p), atan=mp.atan(x),
                lgamma=mp.loggamma(p), powi=x ** 3, pow=p ** y, pi=mp.pi, fact=mp.factorial(e["id"] % 30),
                floor=mp.floor(x), phi=mp.ncdf(h))
    tol = {"phi": 1e-28}
    if n < 3000:
        want["phi2"] = phi2(h, k, r)
        tol["phi2"] = 1e-10      # twelve-point panels, correlations up to 0.95
    for name, w in want.items():
        n += 1
        g = mp.mpf(str(e["out"][name]))
        if abs(g - w) > tol.get(name, 1e-31) * (1 + abs(w)):
            bad += 1
            print("%s at %s: TLC %s, mpmath %s" % (name, [str(v) for v in (x, y, p, h, k, r)], g, w))
print("%d states, %d numbers compared, %d differ" % (c.states, n, bad))
import shutil  # noqa: E402
shutil.rmtree(c.tmp)
sys.exit(bad > 0)
