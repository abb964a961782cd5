"""C21: joint tables of Copula.tla against the library's copulas."""
import numpy as np

from core import arr, close_arrays

def replayer(prop):
    return replay


def replay(t):
    from maxlike import copula
    from maxlike.tensor import Tensor
    rho = t["rho"] if isinstance(t["rho"], int) else float(t["rho"])
    what = "%s(%r) of margins %s and %s" % (t["fam"], rho, (t["x"]["sh"], t["x"]["v"]), (t["y"]["sh"], t["y"]["v"]))
    want = arr({"sh": t["sh"], "v": t["v"]})
    ops = {t["fam"]: 1}
    try:
        make = getattr(copula, t["fam"])
        usual = 0 if t["fam"] in ("Gaussian", "AkiMikhailHaq") else 1
        if rho == usual and t["id"] // 4 % 3:
            cop = make()                    # the documented default
            ops["default parameter"] = 1
        else:
            cop = make(rho=rho) if t["id"] % 5 == 0 else make(np.float64(rho)) if t["id"] % 5 == 1 else make(rho)

        def margin(m, how):
            a = arr(m)
            if how == 1:
                return Tensor(a, dim=1)
            if how == 2 and all(isinstance(x, int) for x in m["v"]):
                return a.astype(int)
            if how == 3:
                return np.asfortranarray(a) if t["id"] // 4 % 2 else a.tolist()
            return a
        for how in {0, 1 + t["id"] % 3}:
            x, y = margin(t["x"], how), margin(t["y"], how)
            before = np.array(x, copy=True), np.array(y, copy=True)
            res = cop([x, y])
            got = np.array(res.values, dtype=float)
            bad = close_arrays(got, want, 1e-8, 1.0)
            if bad:
                return {"fail": "%s: %s" % (what, bad)}
            if t["fam"] != "Gaussian" and not isinstance(res, Tensor):
                return {"fail": what + ": the result is a %s" % type(res).__name__}
            arr_ = np.asarray(res.toarray(), dtype=float)
            bad = close_arrays(arr_, want, 1e-8, 1.0)
            if bad:
                return {"fail": "%s: as an array, %s" % (what, bad)}
            if not (np.array_equal(before[0], np.array(x)) and np.array_equal(before[1], np.array(y))):
                return {"fail": what + ": the margins were changed"}
        # symmetry on the library itself: swapping the arguments transposes the table
        if len(t["sh"]) == 2:
            got = np.array(cop([arr(t["y"]), arr(t["x"])]).values, dtype=float)
            bad = close_arrays(got, want.T, 1e-8, 1.0)
            if bad:
                return {"fail": "%s with swapped arguments: %s" % (what, bad)}
    except Exception as e:
        return {"fail": "%s: raised %s: %s" % (what, type(e).__name__, e)}
    return {"ops": ops}


def copulas(c):
    t = c.tlc("Copula", dict(NSess=c.scale(1000, 9000), Seed=c.seed * 7 + 21, MaxAxis=c.scale(5, 8), Which="closed"),
              invariants=["NonNegative", "Margins", "Degenerate", "Symmetric", "FrankForms"])
    t += c.tlc("Copula", dict(NSess=c.scale(200, 1500), Seed=c.seed * 7 + 21, MaxAxis=c.scale(4, 6), Which="gauss"),
               invariants=["NonNegative", "Margins", "Degenerate", "Symmetric", "FrankForms"])
    c.replay(t, replay)
    return c.finish(samples=t[:1])


CHECKS = {"C21": copulas}
