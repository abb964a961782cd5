"""C28: parts of a model with arguments inside and outside of their domain
(Domain.tla)."""
import numpy as np


def number(r, kind):
    x = float(r)
    if kind == "np":
        return np.float64(x)
    if kind == "f32":
        return np.float32(x)
    return int(x) if x == int(x) else x


def near(got, want, what):
    g = np.asarray(got.toarray() if hasattr(got, "toarray") else got, dtype=float)
    w = np.asarray(want, dtype=float)
    if g.shape != w.shape or not np.allclose(g, w, rtol=1e-12, atol=1e-12):
        return "%s: got %s, expected %s" % (what, g.tolist(), w.tolist())
    return None


def own():
    from maxlike.func.func_base import Func, grad_tensor, hess_tensor
    from maxlike.tensor import Tensor

    class Own(Func):
        def __call__(self, params):
            return Tensor(3 * np.asarray(params[0]))

        def grad(self, params, i):
            return grad_tensor(3 * np.ones(np.shape(params[0])), params, i, True)

        def hess(self, params, i, j):
            return Tensor(0)
    return Own()


def place(form, foo, param_map, feat_map, n_feat, dim_map=None, n_dim=0):
    from maxlike.func import FuncWrap, Sum, Product
    if form == "wrap":
        return FuncWrap(foo, param_map, feat_map, n_feat, dim_map, n_dim)
    return (Sum if form == "sum" else Product)(n_feat, n_dim).add(foo, param_map, feat_map, dim_map)


def evaluated(f, params):
    """the value, computed alone and together with the derivatives"""
    v = f(params)
    v.toarray()
    f.eval(params)[0].toarray()
    return v


def placed(got, dims, shape, vals):
    if (got.x_dim, got.y_dim, got.n, got.dim) != (0, 0) + dims:
        return "has %s features and %s value axes" % (got.n, got.dim)
    a = np.asarray(got.toarray())
    if a.shape != tuple(shape):
        return "has shape %s instead of %s" % (a.shape, tuple(shape))
    if not np.allclose(np.sort(a.ravel()), np.sort(np.ravel(vals))):
        return "has other values"
    return None


def ask(q):
    """carries out the request; what it returns (None: as it should be) counts
    only when the request is one to be granted"""
    import maxlike
    from maxlike import func as F
    what = q["what"]
    if what == "copula":
        from maxlike import copula
        c = getattr(copula, q["name"])(number(q["r"], q["kind"]))
        t = np.asarray(c([np.array([0.25, 0.75]), np.array([0.5, 0.25, 0.25])]).toarray(), dtype=float)
        ok = t.shape == (2, 3) and np.isfinite(t).all() and abs(t.sum() - 1) < 1e-3 and t.min() > -1e-3
        return None if ok else "joint table %s" % t.tolist()
    if what == "zip":
        maxlike.ZeroInflatedPoisson(number(q["r"], q["kind"]))
        return None
    if what == "sigmoid":
        f = F.Sigmoid(q["name"])
        x = np.array([float(x) for x in q["x"]])
        want = [float(v) for v in q["v"]]
        return near(f([x]), want, "value") or near(f.eval([x])[0], want, "value with derivatives")
    if what == "markov":
        f = (F.MarkovMatrix if q["form"] == "matrix" else F.MarkovVector)(3, q["steps"])
        args = [np.array(q["a"], dtype=float), np.array(q["b"], dtype=float)]
        calls = [lambda: f(args), lambda: f.eval(args)[0], lambda: f.grad(args, 0), lambda: f.hess(args, 1, 0)]
        done, bad = 0, None
        for call in calls:
            try:
                t = call()
            except Exception:
                continue
            done += 1
            if t.x_dim == 0:
                total = np.asarray(t.toarray()).reshape(len(q["a"]), -1).sum(1)
                if not np.allclose(total, 1):
                    bad = "probabilities add up to %s" % total.tolist()
        if not done:
            raise ValueError("all refused")
        return bad or (None if done == len(calls) or not q["ok"] else "only %d of %d forms answered" % (done, len(calls)))
    if what == "vectorsize":
        F.MarkovVector(q["n"], 8)
        return None
    if what == "linear":
        w = {"int": 2, "float": 2.0, "list": [2], "tuple": (2.0,), "none": None, "str": "2", "dict": {0: 2}, "set": {2}}
        f = F.Linear(w[q["kind"]])
        return near(f([np.array([1.0, 2.0])]), 6.0, "value")
    if what == "map":
        from maxlike.func.func_base import grad_tensor, hess_tensor
        m = {"none": None, "true": True, "list": [0], "tuple": (0,), "str": "0", "int": 0, "dict": {0: 0},
             "false": False}[q["kind"]]
        v, ps = np.array([1.0, 2.0, 3.0]), [np.zeros(3)]
        diag = np.diag(v)
        if q["form"] == "grad":
            t = grad_tensor(diag if m is None else v, ps, 0, m)
            return near(t, diag, "derivative")
        if m is None:
            hess_tensor(np.zeros((3, 3, 3)), ps, 0, 0)
            return None
        h = np.zeros((3, 3, 3))
        h[range(3), range(3), range(3)] = v
        xy = (m, True) if q["form"] == "hess" else (True, m)
        return near(hess_tensor(v, ps, 0, 0, *xy), h, "derivative")
    if what == "foo":
        foo = {"func": F.X(), "own": own(), "none": None, "num": 3.0, "lambda": lambda p: p[0], "class": F.X,
               "str": "X"}[q["kind"]]
        f = place(q["form"], foo, 0, 0, 1)
        p = np.array([1.0, 2.0])
        return placed(evaluated(f, [p]), (1, 0), (2,), p * (3 if q["kind"] == "own" else 1))
    if what == "series":
        import pandas as pd
        s = pd.Series([1.0, 2.0], index=["a", "b"])
        o = {"series": s, "list": [1.0, 2.0], "array": s.values, "frame": s.to_frame(), "dict": {"a": 1.0, "b": 2.0},
             "none": None, "num": 3.0}[q["kind"]]
        from maxlike.preprocessing import prepare_series
        data, axis = prepare_series(o, {"X": np.sum})
        return near(data["X"], [1.0, 2.0], "totals")
    if what == "place":
        p = 1.0 + np.arange(float(np.prod(q["sh"]))).reshape(q["sh"])
        f = place(q["form"], F.X(), 0, list(q["w"]), q["m"])
        return placed(evaluated(f, [p]), (q["m"], 0), q["out"], p)
    if what == "dim":
        foo = F.Poisson(4)
        p = np.array(0.3)
        f = place(q["form"], foo, 0, [], 0, list(q["w"]), q["m"])
        return placed(evaluated(f, [p]), (0, q["m"]), q["out"], foo([p]).toarray())
    if what == "arg":
        f = place(q["form"], F.X(), q["at"], 0, 1)
        ps = [np.array([1.0, 2.0]) + 10 * k for k in range(q["n"])]
        return placed(evaluated(f, ps), (1, 0), (2,), ps[q["at"]] if q["at"] < q["n"] else [])
    raise AssertionError(what)


def construct(trace):
    """a model under construction"""
    import maxlike
    model, want = maxlike.Poisson(), []

    def add(q, k):
        v = (k + 1) + 0.25 * np.arange(float(np.prod(q["sh"]))).reshape(q["sh"])
        m = q["mask"]
        if not m["has"]:
            mask = None if m["spelt"] == "none" else False
            fixed = np.zeros(q["sh"], bool)
        else:
            mask = (np.arange(int(np.prod(m["sh"]))) % 2 == (0 if m["sh"] == [] else 1)).reshape(m["sh"])
            fixed = mask.copy()
            if k % 2:
                mask = mask.astype(int)
            if m["spelt"] == "list":
                mask = mask.tolist()
        vals = v.tolist() if k % 2 else v
        if mask is None and k % 3 == 0:
            model.add_param(vals)
        else:
            model.add_param(vals, mask)
        return v, fixed

    ops = {}
    for k, q in enumerate(trace["hist"]):
        name = "add %s" % ("granted" if q["ok"] else "refused")
        ops[name] = ops.get(name, 0) + 1
        try:
            got = add(q, k)
            if not q["ok"]:
                return {"fail": "request %d: a mask of shape %s was accepted for values of shape %s"
                                % (k, q["mask"]["sh"], q["sh"])}
            want.append(got)
        except Exception as e:
            if q["ok"]:
                return {"fail": "request %d %s raised %s: %s" % (k, q, type(e).__name__, e)}
        if not want:
            continue
        shown = model.get_params()
        if len(shown) != len(want):
            return {"fail": "request %d: the model has %d parameters instead of %d" % (k, len(shown), len(want))}
        for j, (a, (v, fixed)) in enumerate(zip(shown, want)):
            if np.shape(a.data) != v.shape or not (a.data == v).all():
                return {"fail": "request %d: parameter %d has other values" % (k, j)}
            if not (np.broadcast_to(np.ma.getmaskarray(a), v.shape) == fixed).all():
                return {"fail": "request %d: parameter %d has other fixed entries" % (k, j)}
    return {"ops": ops}


def replay(trace):
    if "model" in trace:
        if len(trace["model"]) != sum(q["ok"] for q in trace["hist"]):
            return {"fail": "malformed behaviour"}
        return construct(trace)
    q = trace["hist"][0]
    name = "%s %s" % (q["what"], "granted" if q["ok"] else "refused")
    try:
        bad = ask(q)
    except Exception as e:
        if q["ok"]:
            return {"fail": "%s raised %s: %s" % (q, type(e).__name__, e)}
        return {"ops": {name: 1}}
    if not q["ok"]:
        return {"fail": "%s: accepted" % q}
    return {"fail": "%s: %s" % (q, bad)} if bad else {"ops": {name: 1}}


def replayer(prop):
    return replay


def run(c):
    traces = c.tlc("Domain", dict(MaxLen=c.scale(2, 3)), invariants=["Granted"], properties=["Untouched"])
    c.replay(traces, replay)
    return c.finish(samples=[traces[0], traces[-1]], exhaustive=True)


CHECKS = {"C28": run}
