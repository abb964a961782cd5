"""C25: Dist.tla's probabilities and derivatives against maxlike.skellam.
C26: targets of Dist.tla given to the root finders, whose answers are validated
by RootCheck.tla."""
import json
import os

import numpy as np

import core

LIMIT = 20


def rate(x, how=0):
    if isinstance(x, int):
        return (x, float(x), np.float64(x))[how % 3]
    return np.float64(x) if how % 2 else float(x)


def worst(got, want, tol):
    got, want = np.asarray(got, float), np.asarray(want, float)
    if got.shape != want.shape:
        return "shape %s instead of %s" % (got.shape, want.shape)
    d = np.abs(got - want)
    if not (d <= tol).all():
        return "got %s, expected %s" % (got.tolist() if got.size < 9 else "", want.tolist() if want.size < 9 else "")
    return None


def replay_cdf(t):
    from maxlike import skellam as S
    f = lambda v: np.array(v, dtype=float)
    q, n, tol, ops = t["q"], t["n"], float(t["tol"]), {}
    a, b = rate(t["a"], t["id"]), rate(t["b"], t["id"] // 3)
    m, size = abs(n), t["size"]
    slack = 3 * tol + 1e-11
    default = 3e-8
    cases = [
        ("poisson_vector(%r, %d)" % (a, t["sizev"]), lambda: S.poisson_vector(a, t["sizev"]), f(q["vec"]).T, 1e-11),
        ("skellam_frame(%r, %r, %d)" % (a, b, size), lambda: S.skellam_frame(a, b, size),
         f(q["frame"]).T.reshape(3, size, size), 1e-11),
        ("poisson_cdf(%r, %d)" % (a, m), lambda: S.poisson_cdf(a, m), f(q["pcdf"]), 1e-11),
        ("poisson_mid_cdf(%r, %d)" % (a, m), lambda: S.poisson_mid_cdf(a, m), f(q["pmid"]), 1e-11),
        ("skellam_cdf(%r, %r, %d, %g)" % (a, b, n, tol), lambda: S.skellam_cdf(a, b, n, tol), f(q["le"]), slack),
        ("skellam_cdf(%r, %r, %d, %g, inverse=True)" % (a, b, n, tol),
         lambda: S.skellam_cdf(a, b, n, tol, inverse=True), f(q["ge"]), slack),
        ("skellam_cdf(%r, %r, n=%d)" % (a, b, n), lambda: S.skellam_cdf(a, b, n=n), f(q["le"]), default),
        ("skellam_cdf_pair(%r, %r, %d, %g)" % (a, b, n, tol), lambda: S.skellam_cdf_pair(a, b, n, tol),
         np.array([f(q["lt"]), f(q["gt"])]), slack),
    ]
    if n == 0:
        cases.append(("skellam_cdf_pair(%r, %r)" % (a, b), lambda: S.skellam_cdf_pair(a, b),
                      np.array([f(q["lt"]), f(q["gt"])]), default))
    for what, call, want, eps in cases:
        try:
            bad = worst(call(), want, eps)
        except Exception as e:
            bad = "raised %s: %s" % (type(e).__name__, e)
        if bad:
            return {"fail": "%s: %s" % (what, bad)}
        name = what.split("(")[0]
        ops[name] = ops.get(name, 0) + 1
    return {"ops": ops}


def infeasible(t):
    """targets that no rates attain, and how they may be refused"""
    a, b, n, q = rate(t["a"]), rate(t["b"]), t["n"], t["q"]
    m = abs(n)
    p = float(q["pois"])
    bad = [("poisson_cdf_root", (x, m), True) for x in (0, 1, -p, 1 + p, -0.25, 1.5)]
    lt, gt = float(q["lt"]), float(q["gt"])
    bad += [("skellam_cdf_root", x + (n,), True) for x in
            ((0, gt), (lt, 0), (1 - gt / 2, gt), (-lt, gt), (0.5, 0.5), (1.2, 0.1), (lt, 1 - lt / 2))]
    bad += [("conditional_skellam_cdf_root", (b, x), True) for x in (0, 1, -p, 1 + p, 1.5)]
    # not excluded by the range of probabilities, but by the distribution
    bad += [("conditional_skellam_cdf_root", (b, float(q["low"]) * x), False) for x in (0.5, 0.9)
            if float(q["low"]) * (1 - x) > 1e-6]
    if n != 0:      # P(D = n) never exceeds the largest Poisson term for |n| events
        top = float(np.exp(-m + m * np.log(m) - sum(np.log(k) for k in range(1, m + 1))))
        rest = (1 - top) * (0.2 + 0.07 * (t["id"] % 8))
        cut = (0.2, 0.5, 0.8)[t["id"] % 3]
        bad += [("skellam_cdf_root", (rest * cut, rest * (1 - cut), n), False)]
    return bad


def replay_root(t):
    """calls the root finders; the answers are judged by RootCheck.tla"""
    from maxlike import skellam as S
    from maxlike.maxlike_base import ConvergenceError
    import time
    refusals = (ConvergenceError, ValueError, ArithmeticError, np.linalg.LinAlgError)
    q, n, tol = t["q"], t["n"], float(t["tol"])
    tol = min(tol, 1e-6)
    a, b = rate(t["a"], t["id"]), rate(t["b"], t["id"] // 3)
    p, lt, gt, cond = (float(q[x]) for x in ("pois", "lt", "gt", "cond"))
    answers, ops = [], {}

    def must(x, eps):
        return eps <= x <= 1 - eps
    calls = [("pois", "poisson_cdf_root", (p, abs(n)), must(p, 1e-3), 1e-12 < p < 1 - 1e-12),
             ("pair", "skellam_cdf_root", (lt, gt, n), min(lt, gt) >= 0.02 and lt + gt <= 0.99,
              min(lt, gt) > 1e-12 and lt + gt < 1 - 1e-12),
             ("cond", "conditional_skellam_cdf_root", (b, cond), must(cond, 1e-3), 1e-12 < cond < 1 - 1e-12)]
    for kind, name, args, sure, usable in calls:
        if not usable:
            continue
        for kw in ({"tol": tol}, {}):
            if not kw and t["id"] % 2:
                continue
            what = "%s%r" % (name, args + tuple(kw.values()))
            try:
                with_time = time.time()
                r = getattr(S, name)(*args, **kw)
                if time.time() - with_time > LIMIT:
                    return {"fail": what + ": needed %d s" % LIMIT}
            except refusals as e:
                ops[name + " refused"] = ops.get(name + " refused", 0) + 1
                if sure:
                    return {"fail": "%s: raised %s: %s for a target attained at %s" % (
                        what, type(e).__name__, e, (a, b))}
                continue
            except Exception as e:
                return {"fail": "%s: raised %s: %s" % (what, type(e).__name__, e)}
            got = r if kind == "pair" else (r,) if kind == "pois" else (r, b)
            try:
                got = [float(x) for x in got]
                ok = len(got) == (1 if kind == "pois" else 2) and all(np.isfinite(x) and x > 0 for x in got)
            except Exception:
                ok = False
            if not ok:
                return {"fail": "%s: returned %r" % (what, r)}
            if max(got) > 1e4:
                return {"fail": "%s: returned %r" % (what, r)}
            answers.append({"kind": kind, "what": what, "n": abs(n) if kind == "pois" else n,
                            "a": repr(got[0]), "b": repr(got[-1]), "tol": "%.3g" % kw.get("tol", 1e-8),
                            "t": [repr(x) for x in ((p,) if kind == "pois" else (lt, gt) if kind == "pair" else (cond,))]})
            ops[name] = ops.get(name, 0) + 1
    for name, args, strict in infeasible(t):
        what = "%s%r" % (name, args)
        try:
            r = getattr(S, name)(*args)
        except refusals as e:
            if strict and not isinstance(e, ValueError):
                return {"fail": "%s: raised %s instead of ValueError" % (what, type(e).__name__)}
            ops["refused infeasible"] = ops.get("refused infeasible", 0) + 1
            continue
        except Exception as e:
            return {"fail": "%s: raised %s: %s" % (what, type(e).__name__, e)}
        return {"fail": "%s: returned %r although no rates attain the target" % (what, r)}
    return {"ops": ops, "answers": answers}


def cdf(c):
    t = c.tlc("Dist", dict(NSess=c.scale(3000, 9000), Seed=c.seed * 7 + 25, Kind="cdf", MaxRate=c.scale(30, 60)),
              invariants=["Total", "Moves"])
    c.replay(t, replay_cdf)
    return c.finish(samples=t[:1])


def root(c):
    t = c.tlc("Dist", dict(NSess=c.scale(1000, 6000), Seed=c.seed * 7 + 26, Kind="root", MaxRate=c.scale(25, 40)),
              invariants=["Total"])
    out = c.replay(t, replay_root, limit=120)
    if not c.violations:
        recs = [dict(x, i=k) for k, r in enumerate(out) for x in r.get("answers", [])]
        path = os.path.join(c.tmp, "answers.ndjson")
        with open(path, "w") as f:
            for r in recs:
                f.write(json.dumps({k: v for k, v in r.items() if k != "what"}) + "\n")
        verdicts = c.tlc("RootCheck", dict(InFile=path))
        if len(verdicts) != len(recs):
            raise core.SpecError("%d verdicts for %d answers" % (len(verdicts), len(recs)))
        pos = {(v["i"], v["kind"]): v for v in verdicts if not v["ok"]}
        for (i, kind), v in list(pos.items())[:3]:
            r = [x for x in recs if x["i"] == i and x["kind"] == kind][0]
            c.report("%s returned (%s, %s), where the distribution misses the target by %s" % (
                r["what"], r["a"], r["b"], v["err"]), t[i])
    return c.finish(samples=t[:1], answers_validated=sum(len(r.get("answers", [])) for r in out))


CHECKS = {"C25": cdf, "C26": root}


def replayer(prop):
    return replay_cdf if prop == "C25" else replay_root
