"""C04: histories over growing pools of shared objects.  After every event of
TensorSession / StoreSession / Frame every object that exists, and every array
the caller handed over, is compared with what it was when it came to be."""
from array import array

import numpy as np

import core
import copulas
import funcs
import likes
import objective
import prep
import tensors
from core import arr


# -- snapshots --------------------------------------------------------------
def freeze(x):
    """the observable content of an object, by value"""
    from maxlike.maxlike_base import Param
    from maxlike.tensor import BaseTensor, Tensor
    if isinstance(x, Tensor):
        return ("T", x.x_dim, x.y_dim, x.n, x.dim, tuple(x.x_map), tuple(x.y_map),
                freeze(x.values), freeze(np.asarray(x.toarray())))
    if isinstance(x, BaseTensor):
        return ("G", x.x_dim, x.y_dim, x.n, x.dim, tuple(freeze(e) for e in x.elements))
    if isinstance(x, Param):
        return ("P", x.shape, freeze(x.values), freeze(x.mask), hash(x))
    if isinstance(x, np.ma.MaskedArray):
        return ("M", freeze(np.asarray(x.data)), freeze(np.ma.getmaskarray(x)))
    if isinstance(x, np.ndarray):
        return ("A", x.dtype.str, x.shape, x.tobytes())
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(freeze(e) for e in x))
    if isinstance(x, (int, float, np.generic)):
        return ("N", repr(float(x)))
    if isinstance(x, array):
        return ("B", x.tobytes())
    return ("?", id(x))


class Store:
    """all live objects with the content they had when they came to be"""

    def __init__(self):
        self.objs = []

    def add(self, name, x):
        self.objs.append((name, x, freeze(x)))
        return x

    def check(self, what):
        for name, x, was in self.objs:
            if freeze(x) != was:
                return "%s changed %s: now %s" % (what, name, show(x))
        return None


def show(x):
    try:
        return str(np.asarray(x.toarray() if hasattr(x, "toarray") else x)).replace("\n", "")[:160]
    except Exception:
        return repr(x)[:160]


# -- attempts to write --------------------------------------------------------
ATTR = {"T": ["values", "x_dim", "y_dim", "n", "dim", "x_map", "y_map", "values"],
        "G": ["elements", "x_dim", "y_dim", "n", "dim", "elements", "n", "dim"],
        "P": ["values", "mask", "shape", "hash", "values", "mask", "shape", "values"]}


def poke(x, how, attr):
    """Tries to change x through a public attribute; the answer is None if the
    attempt failed, or the attempt if it went through without an error."""
    kind = freeze(x)[0]
    if kind not in ATTR:
        return None
    name = attr if attr in ATTR[kind] else ATTR[kind][attr % 8 if isinstance(attr, int) else 0]
    cur = getattr(x, name)
    try:
        if how == "setattr":
            setattr(x, name, np.zeros(2) if name in ("values", "mask") else 0)
        elif how == "delattr":
            delattr(x, name)
        elif how == "newattr":
            x.note = 1
        elif how == "iadd" and name == "values":
            x.values += 1
        elif how == "iadd" and name in ("x_dim", "y_dim", "n", "dim"):
            setattr(x, name, cur + 1)
        elif how == "shown" and kind == "P":
            x.as_masked()[...] = np.ma.masked
        elif how in ("write", "item", "shown", "iadd"):
            if isinstance(cur, np.ndarray):
                if cur.size == 0:
                    return None
                if how == "item":
                    cur.itemset(0, 1 - cur.flat[0])
                else:
                    cur[...] = 1 - cur
            elif hasattr(cur, "__len__"):
                if len(cur) == 0:
                    return None
                cur[0] = -1 if cur[0] != -1 else 0
            else:
                setattr(x, name, 7)
        else:
            return None
    except Exception:
        return None
    return "%s of %s" % (how, name)


# -- tensors --------------------------------------------------------------------
def tensor_session(trace, st):
    pool, ops = [], {}

    def given(v, name):
        return st.add(name, v)
    keep = np.asarray
    for k, ev in enumerate(trace["log"]):
        op = ev["op"]
        ops[op] = ops.get(op, 0) + 1
        what = "event %d %s" % (k, tensors.describe(ev))
        if op == "poke":
            went = poke(pool[ev["a"] - 1], ev["how"], ev["attr"]) \
                if ev["a"] <= len(pool) and ev["how"] != "setflags" else None
            bad = "%s: the attempt %s went through" % (what, went) if went else st.check(what)
        elif op == "dotz":
            tensors.zero_contraction(pool[ev["a"] - 1], ev["how"])
            bad = st.check(what)
        else:
            try:
                got = tensors.apply(ev, pool, k + trace["id"], given)
            except NotImplementedError:
                if ev.get("refuse"):
                    continue
                raise
            bad = st.check(what)
            if not (ev.get("refuse") or ev.get("zero") or op == "float"):
                pool.append(st.add("tensor %d" % (len(pool) + 1), got))
        if bad:
            return {"fail": bad, "step": k}
    # every register still has the specified content
    regs = [e["res"] for e in trace["log"] if e["op"] not in ("poke", "float", "dotz") and not (e.get("refuse") or e.get("zero"))]
    for j, (t, r) in enumerate(zip(pool, regs)):
        bad = tensors.compare(t, r)
        if bad:
            return {"fail": "after the session, tensor %d: %s" % (j + 1, bad)}
    return {"ops": ops}


# -- functions and parameters ------------------------------------------------------
def store_session(trace, st):
    from maxlike.maxlike_base import Param
    ops, fs, nodes = {}, [], [f["node"] for f in trace["fs"]]
    args = {}
    for p in trace["params"]:
        v = st.add("the array of parameter %d" % p["of"],
                   np.array([float(x) for x in p["v"]]).reshape(tuple(p["sh"])))
        mk = st.add("the mask of parameter %d" % p["of"], np.array(p["mask"], dtype=bool).reshape(v.shape))
        if p["kind"] == "param":
            own = np.array(mk)          # the caller goes on using the array it handed over
            x = st.add("parameter %d at point %d" % (p["of"], p["pt"]), Param(v, own if mk.any() else None))
            np.logical_not(own, out=own)
        else:
            x = v
        args[p["pt"], p["of"]] = x
    objs = [args[p["pt"], p["of"]] for p in trace["params"]]
    seen = {}
    for k, ev in enumerate(trace["log"]):
        op = ev["op"]
        ops[op] = ops.get(op, 0) + 1
        if op == "poke":
            x = objs[ev["obj"] - 1]
            leaves = [y for y in flat(x) if freeze(y)[0] in ATTR]
            what = "event %d poke %s %s" % (k, ev["how"], ev["attr"])
            for y in leaves[:4]:
                went = poke(y, ev["how"], ev["attr"])
                if went:
                    return {"fail": "%s: the attempt %s went through" % (what, went)}
            bad = st.check(what)
            if bad:
                return {"fail": bad}
            continue
        i = ev["f"] - 1
        rec = trace["fs"][i]
        if op == "build":
            what = "building function %d = %s" % (i + 1, funcs.expr(nodes, i))
            before = len(st.objs)
            fs.append(funcs.build(nodes[i], fs, trace["id"] + i,
                                  given=lambda v: st.add("an array of function %d" % (i + 1), v)))
            bad = st.check(what)
            if bad:
                return {"fail": bad}
            continue
        raw = funcs.raw_args(nodes, i)
        a = [args[ev["pt"], g] for g in rec["pm"]]
        a = [x.values if raw and isinstance(x, Param) else x for x in a]
        P = tuple(a) if ev["as"] == "tuple" else list(a)
        st.add("the argument list of event %d" % k, P)
        what = "event %d %s of function %d = %s" % (k, ev["what"], i + 1, funcs.expr(nodes, i))
        f, w = fs[i], ev["what"]
        try:
            if w == "call":
                got = f(P)
            elif w == "grad":
                got = f.grad(P)
            elif w == "gradi":
                got = f.grad(P, ev["i"])
            elif w == "hess":
                got = f.hess(P)
            elif w == "hessij":
                got = f.hess(P, ev["i"], ev["j"])
            else:
                got = f.eval(P)
        except NotImplementedError:
            if not funcs.refusing(nodes, i):
                return {"fail": what + ": raised NotImplementedError"}
            got = None
        except Exception as e:
            if ev["pt"] == 1:
                return {"fail": what + ": raised %s: %s" % (type(e).__name__, e)}
            got = None                       # outside the domain at the second point
        objs.append(got)
        bad = st.check(what)
        if bad:
            return {"fail": bad}
        if got is None:
            continue
        st.add("the result of event %d" % k, got)
        # the same call gives the same result whatever happened in between
        key = (i, w, ev["i"], ev["j"], ev["pt"])
        now = [np.asarray(x.toarray() if hasattr(x, "toarray") else x, dtype=float) for x in flat(got)]
        if key in seen:
            old = seen[key]
            if len(old) != len(now) or any(a.shape != b.shape or not np.allclose(a, b, 1e-12, 1e-12, True)
                                           for a, b in zip(old, now)):
                return {"fail": "%s: another result than when called before" % what}
        seen[key] = now
        if ev["pt"] == 1:
            bad = exact(got, w, ev, rec, trace, a)
            if bad:
                return {"fail": "%s: %s" % (what, bad)}
    return {"ops": ops}


def flat(x):
    if isinstance(x, (list, tuple)):
        return [z for y in x for z in flat(y)]
    return [] if x is None else [x]


def exact(got, w, ev, rec, trace, a):
    """the specified content of a result at the first point"""
    ex = funcs.Exact(rec, [tuple(trace["gl"][g - 1]["sh"]) for g in rec["pm"]])
    d = [np.ndim(getattr(x, "values", x)) for x in a]

    def one(x, i=None, j=None):
        if i is None:
            return funcs.same(x, ex.v, 0, 0, ex.n, ex.d, ex.scale[0], "value")
        if j is None:
            return funcs.same(x, ex.grad(i), d[i], 0, ex.n, ex.d, ex.scale[1], "gradient %d" % i)
        return funcs.same(x, ex.hess(i, j), d[i], d[j], ex.n, ex.d, ex.scale[2], "hessian %d %d" % (i, j))

    def grads(G):
        return next((b for i, x in enumerate(G) for b in [one(x, i)] if b), None)

    def hesss(H):
        return next((b for i, r in enumerate(H) for j, x in enumerate(r) for b in [one(x, i, j)] if b), None)
    if w == "call":
        return one(got)
    if w == "grad":
        return grads(got)
    if w == "gradi":
        return one(got, ev["i"])
    if w == "hess":
        return hesss(got)
    if w == "hessij":
        return one(got, ev["i"], ev["j"])
    return one(got[0]) or grads(got[1]) or hesss(got[2])


# -- models ---------------------------------------------------------------------------
def model_session(trace, st):
    from maxlike.maxlike_base import ConvergenceError
    ops, t = {}, trace["model"]
    m, fs = objective.session(t, given=lambda name, v: st.add(name, v))
    params = m.params
    for q, p in enumerate(params):
        st.add("parameter %d" % q, p)
    y, der, hess = m.model.eval(params)
    st.add("the predictor", y)
    st.add("the gradients of the predictor", der)
    st.add("the Hessian of the predictor", hess)
    data = {k: v for k, v in m.__dict__.items() if k in ("N", "X", "Z")}
    for k, v in data.items():
        st.add("the data %s" % k, v)
    reg, con = list(m.reg), list(m.constraint)
    st.add("the penalties", [list(r[0]) for r in reg])
    st.add("the constraints", [list(r[0]) for r in con])
    want = {"g": float(t["obj"]), "fgrad": np.array([float(x) for x in t["fgrad"]]),
            "fhess": np.array([[float(x) for x in r] for r in t["fhess"]])}
    ex = likes.exact_like(t)
    last = None

    def exactly(op, got):
        if op == "like":
            return funcs.same(got, ex.v, 0, 0, 0, 0, ex.scale[0], "likelihood")
        if op == "grad":
            return next((b for i, x in enumerate(got) for b in [funcs.same(
                x, ex.grad(i), params[i].values.ndim, 0, 0, 0, ex.scale[1], "gradient %d" % i)] if b), None)
        if op == "hess":
            return next((b for i in range(len(params)) for j in range(i + 1) for b in [funcs.same(
                got[i][j], ex.hess(i, j), params[i].values.ndim, params[j].values.ndim, 0, 0, ex.scale[2],
                "hessian %d %d" % (i, j))] if b), None)
        bad = core.close_arrays(np.asarray(got, dtype=float), want[op], 1e-8)
        return bad and "%s: %s" % (op, bad)

    for k, op in enumerate(list(trace["hist"]) + ["like", "grad", "hess", "g", "fgrad", "fhess"]):
        ops[op] = ops.get(op, 0) + 1
        what = "operation %d (%s) of %s" % (k, op, trace["hist"])
        got, cur = None, m.params
        rebound = False
        if op == "like":
            got = m.like(params, y)
        elif op == "grad":
            got = m.grad_like(params, y, der)
        elif op == "hess":
            got = m.hess_like(params, y, der, hess)
        elif op == "g":
            got = m.g(params, y) if k % 2 else m.g(params)
        elif op == "fgrad":
            got = m.flat_grad(params, y, der)
        elif op == "fhess":
            got = m.flat_hess(params, y, der, hess)
        elif op == "crit":
            got = [m.akaine_information_criterion(), m.bayesian_information_criterion()]
        elif op == "shown":
            got = m.get_params()
        elif op == "step":
            try:
                got = list(m.newton_step(params))
            except np.linalg.LinAlgError:
                got = None
        elif op in ("newton", "broyden", "refuse"):
            kw = {} if op == "refuse" else {"method": op}
            try:
                m.fit(tol=1e-3, max_steps=0 if op == "refuse" else 3, **kw)
                rebound = True
            except Exception:
                pass
            if rebound:
                ops["converged"] = ops.get("converged", 0) + 1
                for q, p in enumerate(m.params):
                    st.add("parameter %d after operation %d" % (q, k), p)
                st.add("the Hessian after operation %d" % k, np.asarray(m.flat_hess_))
        else:
            x = {"pokeparam": lambda: params[k % len(params)], "pokedata": lambda: data["N"],
                 "pokeshown": lambda: None, "pokeresult": lambda: None}[op]()
            if op == "pokeshown":
                for s in m.get_params():
                    for v in (0.5, np.ma.masked):
                        try:
                            s[...] = v
                        except Exception:
                            pass
            if op == "pokeresult" and last is not None:
                x = next((z for z in flat(last) if freeze(z)[0] in ATTR), None)
            if x is not None:
                for how, attr in (("setattr", "values"), ("delattr", "values"), ("write", "values"),
                                  ("iadd", "values"), ("write", "mask"), ("shown", "mask"), ("newattr", "values"),
                                  ("setattr", "mask"), ("write", "x_map"), ("setattr", "dim")):
                    if attr not in ATTR[freeze(x)[0]]:
                        continue
                    went = poke(x, how, attr)
                    if went and how != "shown":
                        return {"fail": "%s: the attempt %s went through" % (what, went)}
        bad = st.check(what)
        if not bad and m.params is not cur and not rebound:
            if freeze(m.params) != freeze(cur):
                bad = what + " changed the parameters of the model"
        if not bad and (m.reg != reg or m.constraint != con):
            bad = what + " changed the penalties or constraints"
        if not bad and got is not None and op in ("like", "grad", "hess", "g", "fgrad", "fhess"):
            bad = exactly(op, got)
            bad = bad and what + ": no longer the specified result: " + bad
        if bad:
            return {"fail": likes.describe(t) + ": " + bad}
        if got is not None:
            st.add("the result of operation %d (%s)" % (k, op), got)
            last = got
    return {"ops": ops}


# -- the caller's data in preparations and copulas -----------------------------------
def inputs(trace):
    if "fam" in trace:
        r = copulas.replay(trace)
        bad = r.get("fail") if "margins were changed" in r.get("fail", "") else None
    else:
        bad = prep.counts(trace)[0] if "cs" in trace else \
            (prep.series if trace["kind"] == "series" else prep.frame)(trace)
        bad = bad if bad and "the caller's" in bad else None
    return {"fail": bad} if bad else {"ops": {"inputs": 1}}


def replay(trace):
    if "fam" in trace or "cs" in trace or "axes" in trace:
        return inputs(trace)
    st = Store()
    session = model_session if "model" in trace else store_session if "params" in trace else tensor_session
    try:
        return session(trace, st)
    except Exception as e:
        # a request that is refused, or answered with an error that other
        # properties are about: it must have left everything as it was, too
        if not isinstance(e, NotImplementedError) and not core.raised_inside(e):
            raise
        bad = st.check("a request answered with %s: %s" % (type(e).__name__, e))
        return {"fail": bad} if bad else {"ops": {"refused": 1}}


def replayer(prop):
    return replay


def run(c):
    t1 = c.tlc("TensorSession", dict(NSess=c.scale(500, 8000), Depth=c.scale(12, 18), Seed=c.seed * 7 + 4,
                                     MixName="pure", MaxCells=300),
               invariants=["WellFormed"], properties=["Immutable"])
    c.replay(t1, replay, limit=60)
    if not c.violations:
        t = c.tlc("StoreSession", dict(NSess=c.scale(250, 5000), Depth=c.scale(22, 34), Seed=c.seed * 11 + 4,
                                       MaxVars=9, MaxCells=40),
                  invariants=["Stable"], properties=["Immutable"])
        c.replay(t, replay, limit=60)
    if not c.violations:
        h = c.tlc("Frame", dict(MaxLen=c.scale(3, 4)), invariants=["Current"], properties=["Immutable"])
        ms = c.tlc("LikeSession", dict(NSess=c.scale(300, 4000), Depth=c.scale(7, 9), Full=True,
                                       Seed=c.seed * 11 + 4, MaxVars=7, MaxCells=16), invariants=["Additive"])
        h.sort(key=lambda x: x["hist"])
        ms.sort(key=lambda x: x["id"])
        h = [dict(hist=x["hist"], model=ms[(k * 7919 + c.seed) % len(ms)], id=k) for k, x in enumerate(h)]
        c.replay(h, replay, limit=60)
    if not c.violations:
        for kind, seed in (("series", 18), ("frame", 19)):
            for d in (1, 2):
                t = c.tlc("Prep", dict(NSess=c.scale(100, 2000), Exhaustive=False, MaxObs=12, Depth=d,
                                       Kind=kind, Seed=c.seed * 13 + seed))
                c.replay(t, replay)
        t = c.tlc("Count", dict(MaxLen=3, MaxSize=4, Counts=set(range(5))))
        c.replay(t, replay)
        t = c.tlc("Copula", dict(NSess=c.scale(120, 2000), Seed=c.seed * 7 + 4, MaxAxis=4, Which="closed"))
        c.replay(t, replay)
    return c.finish(samples=[{"session": [tensors.describe(e) for e in t1[0]["log"]]}],
                    events_replayed=sum(c.ops.values()))


CHECKS = {"C04": run}
