"""C01-C03: replays sessions of TensorSession.tla into maxlike.tensor and
compares every result with the dense result of the specification."""
import operator
from array import array

import numpy as np

from core import arr, close_arrays

OPS = {"add": operator.add, "sub": operator.sub, "mul": operator.mul, "div": operator.truediv}
UFUNC = {"add": np.add, "sub": np.subtract, "mul": np.multiply, "div": np.divide}
TOL = 1e-9


def keep(v, name):
    return v


def leaf(lay, variant=0, given=keep):
    from maxlike.tensor import Tensor
    sh = []
    for m, s in zip(lay["xm"] + lay["ym"], lay["xs"] + lay["ys"]):
        sh.append(1 if m >= 0 else s)
    sh += lay["ns"] + lay["ds"]
    v = np.array([float(x) for x in lay["v"]]).reshape(tuple(sh))
    v = relay(v, variant)
    given(v, "the array of a leaf")

    def mp(m):
        if not m or (all(k < 0 for k in m) and variant % 2 == 0):
            return None
        return tuple(m) if variant % 3 == 0 else given(array("b", m), "a mapping of a leaf")
    return Tensor(v, x_dim=len(lay["xs"]), y_dim=len(lay["ys"]), dim=len(lay["ds"]),
                  x_map=mp(lay["xm"]), y_map=mp(lay["ym"]))


def relay(v, variant):
    """the same values as another kind of array"""
    variant = variant * 7 % 11
    if variant == 1:
        return v.tolist()
    if variant == 2 and (v == np.round(v)).all():
        return v.astype(np.int64)
    if variant == 3 and (v * 8 == np.round(v * 8)).all():
        return v.astype(np.float32)
    if variant == 4 and v.ndim:
        return np.asfortranarray(v)
    if variant == 5 and v.ndim:
        return v[::-1].copy()[::-1]
    if variant == 6 and v.ndim:
        return np.stack([v, v + 1], -1)[..., 0]
    return v


def number(c, kind):
    from maxlike.tensor import Tensor
    c = float(c)
    if kind == "py":
        return int(c) if c == int(c) else c
    if kind == "np":
        return np.float64(c)
    if kind == "t0":
        return Tensor(c)
    if kind in ("i64", "i32") and c == int(c):
        return np.int64(c) if kind == "i64" else np.int32(c)
    if kind == "f32":
        return np.float32(c)
    if kind == "bool" and c in (0, 1):
        return bool(c)
    return np.array(c)


def special(name):
    import scipy.special
    return getattr(np, name, None) or getattr(scipy.special, name)


def apply(ev, pool, k, given=keep):
    """Performs one event on the real library."""
    op = ev["op"]
    if op == "leaf":
        return leaf(ev["lay"], k, given)
    if op == "gen":
        from maxlike.tensor.tensor import GenericTensor
        els = [pool[j - 1] for j in ev["els"]]
        r = ev["res"]
        if k % 2:
            els = tuple(els)
        return GenericTensor(r["x"], r["y"], r["n"], r["d"], els)
    a = pool[ev["a"] - 1]
    if op == "un":
        return special(ev["f"])(a)
    if op == "pow":
        return a ** number(ev["e"], "py" if k % 2 else "np")
    if op == "mm":
        o = arr(ev["arr"])
        if ev["with"] == "num":
            o = number(ev["c"], "py" if k % 2 else "np")
        elif ev["with"] == "ten":
            from maxlike.tensor import Tensor
            o = Tensor(o, dim=ev["d"])
        return special(ev["f"])(o, a) if ev["left"] else special(ev["f"])(a, o)
    if op == "bcast":
        return a.broadcast(ev["x"], ev["y"], ev["n"], ev["d"])
    if op == "float":
        from maxlike.tensor import Tensor
        return Tensor(float(a))
    if op in ("bin", "num", "arr"):
        if op == "bin":
            l, r = a, pool[ev["b"] - 1]
        else:
            o = number(ev["c"], ev["kind"]) if op == "num" else given(np.asarray(relay(arr(ev["arr"]), k)), "an array operand")
            l, r = (o, a) if ev["left"] else (a, o)
        if k % 3 == 0:
            return UFUNC[ev["f"]](l, r)
        return OPS[ev["f"]](l, r)
    if op == "neg":
        return -a
    if op == "sum":
        F = ev["F"]
        form = ev["form"]
        sv = True if form == "all" else False if form == "none" else \
            F[0] if form == "int" else tuple(F[::-1]) if k % 2 else given(list(F), "a list of axes")
        return a.sum(sv, ev["dd"])
    if op == "expand":
        return a.expand(given(list(ev["w"]), "a list of positions"), ev["m"], ev["dim"])
    if op == "flip":
        F = ev["F"]
        return a.flip(F[0] if len(F) == 1 and k % 2 else given(list(F), "a list of axes"), ev["dim"])
    if op == "trans":
        return a.transpose()
    if op == "drop":
        return a.drop_dim()
    b = pool[ev["b"] - 1]
    return a.dot(b) if op == "dot" else a.dot_left(b) if op == "dotl" else a.dot_right(b)


def compare(got, want, tol=TOL, zero=False):
    """None, or how the dense form of ``got`` differs from the specified one"""
    from maxlike.tensor import BaseTensor
    w = arr(want["a"])
    if not isinstance(got, BaseTensor):
        return "result is a %s, not a tensor" % type(got).__name__
    dims = (got.x_dim, got.y_dim, got.n, got.dim)
    exp = (want["x"], want["y"], want["n"], want["d"])
    g = np.asarray(got.toarray())
    if zero:
        if g.ndim == 0 and float(g) == 0:
            return None
    if dims != exp:
        return "(x_dim, y_dim, n, dim) = %s instead of %s" % (dims, exp)
    if g.ndim != w.ndim:
        return "dense array has %d axes instead of %d" % (g.ndim, w.ndim)
    if any(i not in (1, j) for i, j in zip(g.shape, w.shape)):
        return "dense shape %s instead of %s" % (g.shape, w.shape)
    return close_arrays(np.broadcast_to(g, w.shape), w, tol)


def describe(ev):
    return {k: v for k, v in ev.items() if k not in ("res", "lay")}


def replay(trace):
    pool, wants, ops = [], [], {}
    for k, ev in enumerate(trace["log"]):
        if ev["op"] == "poke":
            continue
        op = ev["op"]
        ops[op] = ops.get(op, 0) + 1
        if op == "bad":
            name = "refused " + ev["what"]
            ops[name] = ops.get(name, 0) + 1
            bad = refused(ev, pool, k + trace["id"]) or compare(pool[ev["a"] - 1], wants[ev["a"] - 1])
            if bad:
                return {"fail": "event %d %s: %s" % (k, describe(ev), bad), "step": k}
            continue
        if op == "dotz":
            bad = zero_contraction(pool[ev["a"] - 1], ev["how"])
            if bad:
                return {"fail": "event %d %s: %s" % (k, describe(ev), bad), "step": k}
            continue
        try:
            got = apply(ev, pool, k + trace["id"])
        except NotImplementedError:
            if ev.get("refuse"):
                continue
            raise
        except Exception as e:
            return {"fail": "event %d %s raised %s: %s" % (k, describe(ev), type(e).__name__, e),
                    "step": k}
        bad = compare(got, ev["res"], zero=ev.get("zero", False))
        if bad:
            return {"fail": "event %d %s: %s" % (k, describe(ev), bad), "step": k}
        if not (ev.get("refuse") or ev.get("zero") or op == "float"):
            pool.append(got)
            wants.append(ev["res"])
    return {"ops": ops}


def replayer(prop):
    return replay


def zero_contraction(a, how):
    """contracting with the number zero gives zero everywhere"""
    from maxlike.tensor import Tensor
    zero = Tensor(0)
    got = a.dot(zero) if how == "dot" else a.dot_right(zero) if how == "right" else zero.dot(a)
    dense = np.asarray(got.toarray() if hasattr(got, "toarray") else got, dtype=float)
    return None if dense.size and (dense == 0).all() else "not zero: %s" % repr(got)[:80]


def refused(ev, pool, k):
    """what a request without an answer gets: None when refused, or how the
    answer is wrong"""
    from maxlike.tensor import Tensor
    a, what = pool[ev["a"] - 1], ev["what"]
    left = ev.get("left")

    def two(o):
        l, r = (o, a) if left else (a, o)
        return (UFUNC if k % 3 == 0 and what != "type" else OPS)[ev["f"]](l, r)
    try:
        if what == "bin":
            got = two(pool[ev["b"] - 1])
        elif what == "arr":
            got = two(np.asarray(arr(ev["arr"])))
        elif what == "type":
            got = two({"none": None, "str": "2", "dict": {}, "object": object()}[ev["kind"]])
        elif what == "zero":
            got = a / number("0", ev["kind"])
        elif what == "genden":
            got = (2 if ev["num"] == "num" else pool[ev["b"] - 1]) / a
        elif what == "un":
            f = special(ev["f"])
            got = f(a) if f.nin == 1 else f(a, 0.5)
        elif what == "ufunc":
            f = special(ev["f"])
            got = f(a) if f.nin == 1 else f(a, 2 if ev["f"] == "power" else 0.5)
        elif what == "sum":
            F = ev["F"]
            got = a.sum(F[0] if len(F) == 1 and k % 2 else list(F), ev["dd"])
        elif what == "expand":
            got = a.expand(list(ev["w"]), ev["m"], ev["dim"])
        elif what == "map":
            lay = ev["lay"]
            sh = [1 if m >= 0 else s for m, s in zip(lay["xm"] + lay["ym"], lay["xs"] + lay["ys"])]
            v = np.array([float(x) for x in lay["v"]]).reshape(sh + lay["ns"] + lay["ds"])
            got = Tensor(v, x_dim=len(lay["xs"]), y_dim=len(lay["ys"]), dim=len(lay["ds"]),
                         x_map=list(lay["xm"]), y_map=list(lay["ym"]))
        elif what == "wrap":
            got = Tensor(a)
        elif what == "float":
            got = Tensor(float(a))
        elif what == "dottype":
            o = {"none": None, "num": 2.0, "list": [1.0], "arr": np.ones(a.toarray().shape[:a.x_dim] or 2)}[ev["kind"]]
            got = {"dot": a.dot, "dotl": a.dot_left, "dotr": a.dot_right}[ev["f"]](o)
            if got is None:
                return "answered None"
        else:
            b = pool[ev["b"] - 1]
            got = a.dot(b) if what == "dot" else a.dot_left(b) if what == "dotl" else a.dot_right(b)
        if hasattr(got, "toarray"):
            got.toarray()
    except Exception:
        return None
    if ev["must"]:
        return "answered %s%s" % (type(got).__name__,
                                  " (%s, %s, %s, %s)" % (got.x_dim, got.y_dim, got.n, got.dim)
                                  if hasattr(got, "x_dim") else "")
    bad = compare(got, ev["res"], zero=True)
    return "neither refused nor answered rightly: %s" % bad if bad else None


ALL = 10 ** 6
# scope, left operands in the quick and in the thorough run
SCOPES = {"arith": [("bin", ALL, 700), ("tri", 12, 60)], "reshape": [("un", ALL, 3000)], "dot": [("dot", ALL, ALL)]}


def run(mix):
    def check(c):
        traces = c.tlc("TensorSession",
                       dict(NSess=c.scale(4000, 16000), Depth=c.scale(9, 12), Seed=c.seed * 7 + 1,
                            MixName=mix, MaxCells=400),
                       invariants=["WellFormed", "Laws"], properties=["Immutable"])
        c.replay(traces, replay)
        ev = [describe(e) for e in traces[0]["log"]]
        if mix in SCOPES:       # tensors of up to some thousand cells
            big = c.tlc("TensorSession",
                        dict(NSess=c.scale(600, 2500), Depth=9, Seed=c.seed * 7 + 2, MixName=mix, MaxCells=6000),
                        invariants=["WellFormed"], properties=["Immutable"], note="large axes")
            c.replay(big, replay)
            del big
        for name, quick, thorough in SCOPES.get(mix, ()):
            # a small scope completely (or evenly thinned out left operands)
            scope = c.tlc("TensorScope",
                          dict(NSess=c.scale(quick, thorough), Depth=c.scale(1, 2), Seed=c.seed * 7 + 3,
                               MixName=name, MaxCells=4000),
                          invariants=["WellFormed", "Laws"], spec="ScopeSpec",
                          note="every %s of the frames" % {
                              "bin": "pair of stored layouts", "tri": "triple of stored layouts",
                              "un": "stored layout and argument", "dot": "contraction partner"}[name])
            c.replay(scope, replay)
            del scope
        return c.finish(samples=[{"session": ev}],
                        events_replayed=sum(c.ops.values()))
    return check


CHECKS = {"C01": run("arith"), "C02": run("reshape"), "C03": run("dot"), "C27": run("refuse")}
