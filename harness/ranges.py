"""C05-C10: parts of a model over the whole range of floating point numbers,
against the sessions of Range.tla."""
import math

import numpy as np

INVARIANTS = ["Defined", "Laws", "Concave"]


def sessions(c, kind, prop):
    return c.tlc("Range", dict(NSess=c.scale(600, 6000), Seed=c.seed * 11 + int(prop[1:]), Kind=kind),
                 invariants=INVARIANTS)


def describe(t):
    return "%s(size=%s, c=%s) at %s" % (t["part"]["k"], t["part"]["size"], t["part"]["c"], t["pts"])


def part(t):
    from maxlike import func as F
    p = t["part"]
    k, size, c = p["k"], p["size"], float(p["c"])
    return {"exp": lambda: F.Exp(), "log": lambda: F.Log(), "logistic": lambda: F.Logistic(),
            "arctan": lambda: F.ArcTan(), "poisson": lambda: F.Poisson(size),
            "lnb": lambda: F.LogNegativeBinomial(size, c),
            "nb": lambda: F.NegativeBinomial(size, c)}[k]()


def far(what, got, want, rel, tiny):
    g = np.asarray(got.toarray() if hasattr(got, "toarray") else got, dtype=float)
    if g.ndim != want.ndim and not g.any():
        g = np.zeros(want.shape)
    if g.ndim != want.ndim or any(a not in (1, b) for a, b in zip(g.shape, want.shape)):
        return "%s: shape %s instead of %s" % (what, g.shape, want.shape)
    g = np.broadcast_to(g, want.shape)
    with np.errstate(all="ignore"):
        ok = np.abs(g - want) <= rel * np.abs(want) + tiny
    if ok.all():
        return None
    q = tuple(int(v) for v in np.argwhere(~ok)[0])
    return "%s: %r instead of %r at %s" % (what, float(g[q]), float(want[q]), q)


def func(prop, t):
    from maxlike import Param
    f = part(t)
    p = t["part"]
    jets = np.array([[[float(v) for v in j] for j in o] for o in t["out"]])    # [point, term, order]
    pts = np.array([float(x) for x in t["pts"]])
    if p["scalar"]:
        pts, jets = pts[0], jets[0]
    if p["k"] in ("exp", "log", "logistic", "arctan"):
        jets = jets[..., 0, :]
    # the rounding of logarithms and of lgamma before they are taken to a power
    base = max(1., float(np.max(np.abs(pts)))) if p["k"] == "nb" else 1.
    rel = 1e-9
    tiny = 1e-11 if p["k"] in ("lnb", "nb") else 1e-300 if p["k"] in ("exp", "poisson") else 1e-13
    with np.errstate(all="ignore"):
        params = [Param(pts)] if t["id"] % 2 and p["k"] not in ("log", "arctan") else [np.asarray(pts)]
        val, der, sec = jets[..., 0], jets[..., 1], jets[..., 2]

        def spread(a, times):
            if p["scalar"]:
                return a
            n = len(pts)
            out = np.zeros((n,) * (times + 1) + a.shape[1:])
            for q in range(n):
                out[(q,) * (times + 1)] = a[q]
            return out
        if prop == "C05":
            return far("value", f(params), val, rel, tiny * base)
        if prop == "C06":
            return far("gradient", f.grad(params, 0), spread(der, 1), rel, tiny * base)
        if prop == "C07":
            return far("hessian", f.hess(params, 0, 0), spread(sec, 2), rel, tiny * base)
        y, g, h = f.eval(params)
        return far("value of eval", y, val, rel, tiny * base) \
            or far("gradient of eval", g[0], spread(der, 1), rel, tiny * base) \
            or far("hessian of eval", h[0][0], spread(sec, 2), rel, tiny * base)


def like(prop, t):
    import maxlike
    from likes import DISTS
    from maxlike import func as F
    from maxlike.maxlike_base import ConvergenceError
    p, outs = t["part"], t["out"]
    k, c = p["k"], float(p["c"])
    pts = np.array([float(x) for x in t["pts"]])
    cls = getattr(maxlike, DISTS[k])
    m = cls(c) if k in ("zip", "nb") else cls()
    m.add_param(pts)
    with np.errstate(all="ignore"):
        if k in ("finite", "nfinite"):
            m.model = F.Poisson(p["size"])
            data = {"N": np.array([[float(w) for w in o["w"]] for o in outs])}
            size = data["N"].sum(1) * p["size"] * (1 + np.abs(np.log(pts)) + math.log(p["size"])) + pts
            scale = [size, size * (1 + 1 / pts), size * (1 + 1 / pts) ** 2]
        else:
            m.model = F.X()
            data = {"N": np.array([float(o["N"]) for o in outs]), "X": np.array([float(o["X"]) for o in outs])}
            size = data["N"] + data["X"]
            if k == "zip":
                data["Z"] = np.array([float(o["Z"]) for o in outs])
            size = size * (1 + np.abs(pts) + np.log1p(c) + abs(math.log(c)))
            if k in ("poisson", "zip"):
                size = size + data["N"] * np.exp(pts) * (1 if k == "poisson" else 1 + 1 / c)
            grad_scale = size
            size = size + np.array([abs(math.lgamma(v + 1)) + abs(math.lgamma(v + c)) + abs(math.lgamma(c))
                                    for v in data["X"]])
            if k == "zip":
                # (s - 1) + exp(e^y), its second derivative
                grad_scale = grad_scale * (1 + np.exp(pts)) * (1 + 1 / c)
            scale = [size, grad_scale, grad_scale]
        try:
            m.fit(max_steps=0, **data)
        except ConvergenceError:
            pass
        y, der, hess = m.model.eval(m.params)
        want = np.array([[float(v) for v in o["j"]] for o in outs])
        if prop == "C09":
            got = m.like(m.params, y)
            return far("likelihood", got, np.array(want[:, 0].sum()), 0, 1e-9 * scale[0].sum() + 1e-12)
        G = m.grad_like(m.params, y, der)[0]
        bad = far("gradient", G, want[:, 1], 0, 1e-9 * scale[1] + 1e-12)
        if bad:
            return bad
        return far("hessian", m.hess_like(m.params, y, der, hess)[0][0], np.diag(want[:, 2]), 0,
                   1e-9 * np.diag(scale[2]) + 1e-12)


def replay_one(prop, t):
    try:
        bad = (func if t["kind"] == "func" else like)(prop, t)
    except Exception as e:
        bad = "raised %s: %s" % (type(e).__name__, e)
    if bad:
        return {"fail": describe(t) + ": " + bad}
    return {"ops": {"range:" + t["part"]["k"]: 1}}


def replayer(prop):
    return lambda t: replay_one(prop, t)
