"""C09, C10: rebuilds the models of LikeSession.tla, hands over the aggregated
data, and compares likelihood, gradient and Hessian with the exact jets."""
import numpy as np

from core import arr, close_arrays
import funcs
import ranges

DISTS = {"poisson": "Poisson", "zip": "ZeroInflatedPoisson", "logistic": "Logistic",
         "nb": "NegativeBinomial", "finite": "Finite", "nfinite": "NormalizedFinite"}


def make_model(trace, variant, given=lambda name, v: v):
    """the real model with its data, parameters and functions"""
    import maxlike
    from maxlike.maxlike_base import ConvergenceError
    dist = trace["dist"]
    cls = getattr(maxlike, DISTS[dist])
    c = funcs.simple(trace["c"], variant)
    m = cls(*[trace["d"]][:0 if trace["d"] == 1 and variant % 3 == 0 else 1]) if dist in ("finite", "nfinite") else \
        cls(c) if dist in ("zip", "nb") and (c != 1 or variant % 2) else cls()
    fs = []
    for i, node in enumerate(trace["nodes"]):
        fs.append(funcs.build(node, fs, variant + i))
    m.model = fs[trace["f"] - 1]
    masks = trace["mask"]
    for q, g in enumerate(trace["pm"]):
        a = given("the values of parameter %d" % q, arr(trace["gl"][g - 1]))
        mk = given("the mask of parameter %d" % q, np.array(masks[q], dtype=bool).reshape(a.shape))
        if mk.any():
            m.add_param(a, mk)
        elif (variant + q) % 3 == 0:
            m.add_param(a.tolist())
        elif (variant + q) % 3 == 1:
            m.add_param(a, False)
        else:
            m.add_param(a, mk)
    data = {"N": arr(trace["N"])}
    if dist not in ("finite", "nfinite"):
        data["X"] = arr(trace["X"])
    if dist == "zip":
        data["Z"] = arr(trace["Z"])
    for q, k in enumerate(sorted(data)):
        v = data[k]
        if v.size and np.all(v == np.round(v)) and (variant + q) % 3 == 1:     # whole counts
            v = v.astype(int)
        if (variant // 2 + q) % 4 == 2:
            v = v.tolist()
        elif (variant // 2 + q) % 4 == 3 and v.ndim:
            v = funcs.layout(v, variant)
        data[k] = given("the array %s" % k, v)
    try:                            # hands over the data without a step
        m.fit(max_steps=0, **data)
    except ConvergenceError:
        pass
    return m, fs


def exact_like(trace):
    return funcs.Exact({"n": 0, "d": 0, "sh": [], "jets": [trace["like"]]},
                       [tuple(trace["gl"][g - 1]["sh"]) for g in trace["pm"]])


def describe(trace):
    return "%s(c=%s) of %s, parameters %s (shapes %s), N=%s X=%s" % (
        trace["dist"], trace["c"], funcs.expr(trace["nodes"], trace["f"] - 1), trace["pm"],
        [trace["gl"][g - 1]["sh"] for g in trace["pm"]], trace["N"], trace["X"])


def replayer(prop):
    def compare(trace):
        variant = trace["id"]
        m, fs = make_model(trace, variant)
        ex = exact_like(trace)
        params = m.params
        if prop == "C09":
            y = m.model(params)
            return funcs.same(m.like(params, y), ex.v, 0, 0, 0, 0, ex.scale[0], "likelihood")
        y, der, hess = m.model.eval(params)
        n = len(params)
        dims = [p.values.ndim for p in params]
        G = m.grad_like(params, y, der)
        if len(G) != n:
            return "%d gradients for %d parameters" % (len(G), n)
        for i in range(n):
            bad = funcs.same(G[i], ex.grad(i), dims[i], 0, 0, 0, ex.scale[1], "gradient %d" % i)
            if bad:
                return bad
        Hs = m.hess_like(params, y, der, hess)
        for i in range(n):
            for j in range(i + 1):
                bad = funcs.same(Hs[i][j], ex.hess(i, j), dims[i], dims[j], 0, 0, ex.scale[2],
                                 "hessian %d %d" % (i, j))
                if bad:
                    return bad
        return None

    def replay(trace):
        if "part" in trace:
            return ranges.replay_one(prop, trace)
        try:
            bad = compare(trace)
        except NotImplementedError:
            if funcs.refusing(trace["nodes"], trace["f"] - 1):
                return {"ops": {"refused": 1}}
            bad = "raised NotImplementedError"
        except Exception as e:
            bad = "raised %s: %s" % (type(e).__name__, e)
        if bad:
            return {"fail": describe(trace) + ": " + bad}
        return {"ops": {trace["dist"]: 1}}
    return replay


def run(prop):
    def check(c):
        traces = c.tlc("LikeSession",
                       dict(NSess=c.scale(3000, 14000), Depth=c.scale(8, 11), Full=False,
                            Seed=c.seed * 11 + int(prop[1:]), MaxVars=8, MaxCells=24),
                       invariants=["Additive", "Normal", "NormalB"])
        c.replay(traces, replayer(prop))
        if not c.violations:        # longer parameters, more cells
            c.replay(c.tlc("LikeSession", dict(NSess=c.scale(200, 1200), Depth=9, Full=False,
                                               Seed=c.seed * 11 + 100 + int(prop[1:]), MaxVars=20, MaxCells=120),
                           invariants=["Additive", "Normal", "NormalB"], note="longer parameters"), replayer(prop))
        c.replay(ranges.sessions(c, "like", prop), replayer(prop))
        return c.finish(samples=[describe(traces[0])])
    return check


CHECKS = {p: run(p) for p in ("C09", "C10")}
