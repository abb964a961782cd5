"""C05-C08: rebuilds the functions of FuncSession.tla with the real library
and compares value, gradient and Hessian with the jets of the specification."""
import numpy as np

from core import arr, close_arrays
import ranges

TOL = 1e-8
# primitives whose implementation does arithmetic on the raw argument, hence
# needs an array rather than a Param
RAW = {"log", "arctan", "markovm", "markovv", "set"}


def simple(x, variant):
    """a number as int or float"""
    f = float(x)
    return int(f) if f == int(f) and variant % 2 else f


def by_default(variant, *pairs):
    """the arguments, without trailing ones equal to what the signature promises"""
    args = [a for a, d in pairs]
    while variant % 2 and args and args[-1] == pairs[len(args) - 1][1]:
        args.pop()
    return args


def own(k, variant):
    """X or Exp written by a user of the library: no single-pass evaluation,
    derivatives stored along mappings given as lists, or densely"""
    from maxlike.func.func_base import Func, grad_tensor, hess_tensor
    from maxlike.tensor import Tensor

    def spread(v, times):
        v = np.asarray(v)
        sh = v.shape
        for q in range(times):
            v = v * np.eye(int(np.prod(sh))).reshape(sh + (1,) * (len(sh) * q) + sh)
        return v

    class Own(Func):
        def __call__(self, params):
            return Tensor(params[0]) if k == "x" else Tensor(np.exp(params[0]))

        def grad(self, params, i):
            f = self(params)
            v = np.ones(f.values.shape) if k == "x" else f.values
            axes = list(range(v.ndim))
            if variant % 3 == 0:
                return grad_tensor(spread(v, 1), params, i, None, dim=f.dim)
            return grad_tensor(v, params, i, axes if variant % 3 == 1 else tuple(axes), dim=f.dim)

        def hess(self, params, i, j):
            if k == "x":
                return Tensor(0)
            f = self(params)
            axes = list(range(f.values.ndim))
            if variant % 4 == 0:
                return hess_tensor(spread(f.values, 2), params, i, j, dim=f.dim)
            if variant % 4 == 1:
                return hess_tensor(spread(f.values, 1), params, i, j, axes, None, dim=f.dim)
            if variant % 4 == 2:
                return hess_tensor(spread(f.values, 1), params, i, j, None, tuple(axes), dim=f.dim)
            return hess_tensor(f.values, params, i, j, axes, axes, dim=f.dim)
    return Own()


def build(node, fs, variant=0, given=lambda v: v):
    """The real function for a node; fs: the functions of the earlier nodes."""
    from maxlike import func as F
    from maxlike.func.func_base import Affine, Compose
    from maxlike.func import tennis
    k = node["k"]
    if k in ("x", "exp") and variant % 4 == 2:
        return own(k, variant // 4)
    if k == "x":
        return F.X()
    if k == "scalar":
        return F.Scalar()
    if k == "vector":
        v = arr(node["c"])
        return F.Vector(given(v.tolist() if variant % 2 else v))
    if k == "const":
        v = arr(node["c"])
        return F.Constant(given(v.tolist() if variant % 2 else v))
    if k == "quad":
        u, s = float(node["u"]), float(node["s"])
        if variant % 2 and s == 1:          # what the signature promises
            return F.Quadratic() if u == 0 else F.Quadratic(u)
        return F.Quadratic(u, s)
    if k == "linear":
        ws = [float(w["v"][0]) if w["sh"] == [] else given(arr(w)) for w in node["ws"]]
        return F.Linear(ws[0] if len(ws) == 1 and isinstance(ws[0], float) and variant % 2 else given(ws))
    if k == "exp":
        return F.Exp()
    if k == "log":
        return F.Log()
    if k == "logistic":
        return F.Logistic() if variant % 3 else F.Sigmoid(("logistic", "Logistic")[variant % 2])
    if k == "arctan":
        return F.ArcTan()
    if k == "poisson":
        return F.Poisson(*by_default(variant, (node["size"], 10)))
    if k == "lnb":
        return F.LogNegativeBinomial(*by_default(variant, (node["size"], 10), (float(node["r"]), 1)))
    if k == "nb":
        return F.NegativeBinomial(*by_default(variant, (node["size"], 10), (float(node["r"]), 1)))
    if k in ("markovm", "markovv"):
        sk = given(np.array([float(x) for x in node["skew"]]))
        n = node["size"]
        dflt = np.all(sk == 1) and variant % 2
        cls, sk = (F.MarkovMatrix, sk.reshape(n, n)) if k == "markovm" else (F.MarkovVector, sk)
        if dflt:
            return cls(*by_default(variant, (n, 8), (node["steps"], 18), (None, None)))
        return cls(n, node["steps"], sk)
    if k == "colm":
        cs = [tuple(float(x) if isinstance(x, str) else x for x in c) for c in node["conds"]]
        if cs == [(1, -1, 0, 1), (1, -1, 0, 0), (1, -1, 0, -1)]:
            return F.CollapseMatrix()
        return F.CollapseMatrix(cs)
    if k == "game":
        return tennis.Game()
    if k == "tiebreak":
        return tennis.TieBreak()
    if k == "set":
        return tennis.Set()
    if k == "aff":
        f, c = fs[node["e"] - 1], simple(node["c"], variant)
        op = node["f"]
        return (f + c if op == "add" else c + f if op == "radd" else f - c if op == "sub"
                else c - f if op == "rsub" else f * c if op == "mul" else c * f if op == "rmul"
                else f / c if op == "div" else -f)
    if k == "affine":
        return Affine(fs[node["e"] - 1], simple(node["c"], variant), simple(node["b"], variant))
    if k == "compose":
        f, g = fs[node["f"] - 1], [fs[j - 1] for j in node["g"]]
        if len(g) == 1:
            return f @ g[0] if variant % 2 else Compose(f, g[0])
        return Compose(f, g if variant % 2 else tuple(g))
    if k == "wrap":
        kw = {} if node["dflt"] else {"dim_map": list(node["dm"])}
        pm, fm = given(list(node["pm"])), given(list(node["fm"]))
        if variant % 3 == 1:                # other ways of writing the same maps
            pm = pm[0] if len(pm) == 1 else pm or None
            fm = fm[0] if len(fm) == 1 else fm or None
        return F.FuncWrap(fs[node["e"] - 1], pm, fm, node["nf"],
                          n_dim=node["nd"], feat_flip=given(list(node["flip"])), **kw)
    if k == "collapse":
        sv = True if node["all"] else sorted(node["F"])
        if sv == [] and variant % 2:
            sv = False
        return F.Collapse(fs[node["e"] - 1], given(sv), node["dd"])
    if k in ("sum", "prod"):
        S = (F.Sum if k == "sum" else F.Product)(node["nf"], node["nd"])
        for q, at in enumerate(node["atoms"]):
            pm, fm, dm = given(list(at["pm"])), given(list(at["fm"])), given(list(at["dm"]))
            v = variant + q
            if len(pm) == 1 and v % 2:
                pm = pm[0]
            if len(fm) == 1 and v % 2:
                fm = fm[0]
            elif fm == [] and v % 2 and k == "sum":
                fm = None
            if dm == [] and v % 3:
                dm = None
            elif len(dm) == 1 and v % 2:
                dm = dm[0]
            kw = {}
            if k == "sum" and (float(at["w"]) != 1 or v % 2):
                kw["weight"] = simple(at["w"], v)
            S.add(fs[at["e"] - 1], pm, fm, dm, **kw)
        return S
    raise ValueError(k)


def raw_args(nodes, i):
    """whether node i feeds a raw argument into a RAW primitive"""
    e = nodes[i]
    k = e["k"]
    if k in RAW:
        return True
    if k in ("aff", "affine", "wrap", "collapse"):
        return raw_args(nodes, e["e"] - 1)
    if k == "compose":
        return any(raw_args(nodes, g - 1) for g in e["g"])
    if k in ("sum", "prod"):
        return any(raw_args(nodes, a["e"] - 1) for a in e["atoms"])
    return False


def refusing(nodes, i):
    """whether derivatives of node i may be refused: a flipped feature can
    carry a diagonal"""
    e = nodes[i]
    k = e["k"]
    if k == "wrap":
        return bool(e["flip"]) or refusing(nodes, e["e"] - 1)
    if k in ("aff", "affine", "collapse"):
        return refusing(nodes, e["e"] - 1)
    if k == "compose":
        return any(refusing(nodes, g - 1) for g in e["g"] + [e["f"]])
    if k in ("sum", "prod"):
        return any(refusing(nodes, a["e"] - 1) for a in e["atoms"])
    return False


class Exact:
    """value and derivatives of a function at its arguments, from the jets"""

    def __init__(self, rec, shapes):
        self.n, self.d = rec["n"], rec["d"]
        self.sh = tuple(rec["sh"])
        self.shapes = shapes
        sizes = [int(np.prod(s)) for s in shapes]
        self.off = np.concatenate([[0], np.cumsum(sizes)]).astype(int)
        p = int(self.off[-1])
        N = len(rec["jets"])
        J = np.zeros((N, 1 + p + p * (p + 1) // 2))
        for q, j in enumerate(rec["jets"]):
            J[q, :len(j)] = [float(x) for x in j]
        self.v = J[:, 0].reshape(self.sh)
        self.G = J[:, 1:1 + p]
        H = np.zeros((N, p, p))
        k = 1 + p
        for i in range(p):
            for j in range(i + 1):
                H[:, i, j] = H[:, j, i] = J[:, k]
                k += 1
        self.H = H
        self.scale = [1.0] * 3
        self.scale[0] = max(1.0, np.abs(self.v).max(initial=0))
        self.scale[1] = max(1.0, np.abs(self.G).max(initial=0))
        self.scale[2] = max(1.0, np.abs(self.H).max(initial=0))

    def grad(self, i):
        g = self.G[:, self.off[i]:self.off[i + 1]]
        return g.T.reshape(self.shapes[i] + self.sh)

    def hess(self, i, j):
        h = self.H[:, self.off[i]:self.off[i + 1], self.off[j]:self.off[j + 1]]
        return np.moveaxis(h, 0, -1).reshape(self.shapes[i] + self.shapes[j] + self.sh)


def same(got, want, x, y, n, d, scale, what):
    """compares a tensor (or a lazily scalar zero) with a dense array"""
    from maxlike.tensor import BaseTensor
    if isinstance(got, (int, float)) and got == 0 or \
            isinstance(got, BaseTensor) and np.ndim(got.toarray()) == 0 and float(got.toarray()) == 0:
        if np.all(np.abs(want) <= TOL * scale):
            return None
        return "%s: zero instead of %s" % (what, np.array2string(want, threshold=20))
    if not isinstance(got, BaseTensor):
        return "%s is a %s" % (what, type(got).__name__)
    dims, exp = (got.x_dim, got.y_dim, got.n, got.dim), (x, y, n, d)
    if dims != exp:
        return "%s: (x_dim, y_dim, n, dim) = %s instead of %s" % (what, dims, exp)
    g = np.asarray(got.toarray())
    if g.ndim != want.ndim or any(a not in (1, b) for a, b in zip(g.shape, want.shape)):
        return "%s: shape %s instead of %s" % (what, g.shape, want.shape)
    bad = close_arrays(np.broadcast_to(g, want.shape), want, TOL, scale)
    return "%s: %s" % (what, bad) if bad else None


def make_args(gl, pm, variant, raw):
    """the arguments of a call: arrays, floats for numbers, Params"""
    from maxlike.maxlike_base import Param
    res = []
    for q, g in enumerate(pm):
        a = arr(gl[g - 1])
        v = variant + q
        whole = v % 3 and a.size and np.all(a == np.round(a))
        if whole:                       # whole numbers given as integers
            a = a.astype(int)
        if not raw and v % 4 == 3:
            res.append(Param(a))
        elif a.ndim == 0:
            res.append(a.item() if v % 2 else a.dtype.type(a))
        else:
            res.append(layout(a, v // 4))
    return res


def layout(a, v):
    """the same array in another memory layout"""
    if v % 4 == 1:
        return np.asfortranarray(a)
    if v % 4 == 2:
        return a[::-1].copy()[::-1]
    if v % 4 == 3:
        return np.stack([a, a + 1], -1)[..., 0]
    return a


def conventions(args, variant):
    """all ways of passing the parameters"""
    res = [("tuple", tuple(args)), ("list", list(args))]
    if len(args) == 1:
        res.append(("bare", args[0]))
    if len(args) == 0:
        res.append(("none", None))
    return res


def check_entry(prop, f, ex, args, variant, ops):
    n, d = ex.n, ex.d
    na = len(args)
    dims = [np.asarray(a).ndim for a in args]
    ways = conventions(args, variant)
    name, params = ways[variant % len(ways)]

    def cmp(got, kind, i=None, j=None, tag=""):
        ops[kind] = ops.get(kind, 0) + 1
        if kind == "value":
            return same(got, ex.v, 0, 0, n, d, ex.scale[0], tag + "value")
        if kind == "gradient":
            return same(got, ex.grad(i), dims[i], 0, n, d, ex.scale[1], tag + "gradient %d" % i)
        return same(got, ex.hess(i, j), dims[i], dims[j], n, d, ex.scale[2], tag + "hessian %d %d" % (i, j))

    def lower(H, tag):
        if len(H) != na:
            return "%s: %d rows for %d parameters" % (tag, len(H), na)
        for i in range(na):
            if len(H[i]) != i + 1:
                return "%s: row %d has %d entries" % (tag, i, len(H[i]))
            for j in range(i + 1):
                bad = cmp(H[i][j], "hessian", i, j, tag)
                if bad:
                    return bad
        return None

    def full(G, tag):
        if len(G) != na:
            return "%s: %d gradients for %d parameters" % (tag, len(G), na)
        for i in range(na):
            bad = cmp(G[i], "gradient", i, None, tag)
            if bad:
                return bad
        return None

    if prop == "C05":
        return cmp(f(params), "value", tag="%s call: " % name) or \
            cmp(f.eval(params)[0], "value", tag="%s eval: " % name)
    if prop == "C06":
        for i in range(na):
            bad = cmp(f.grad(params, i), "gradient", i, None, "%s grad(i): " % name)
            if bad:
                return bad
        return full(f.grad(params), "%s grad: " % name)
    if prop == "C07":
        for i in range(na):
            for j in range(i + 1):
                bad = cmp(f.hess(params, i, j), "hessian", i, j, "%s hess(i,j): " % name)
                if bad:
                    return bad
        return lower(f.hess(params), "%s hess: " % name)
    for name, params in ways:
        bad = cmp(f(params), "value", tag="%s call: " % name)
        if bad:
            return bad
        val, grad, hess = f.eval(params)
        bad = cmp(val, "value", tag="%s eval: " % name) or \
            full(grad, "%s eval: " % name) or lower(hess, "%s eval: " % name) or \
            full(f.grad(params), "%s grad: " % name)
        if bad:
            return bad
    return None


def expr(nodes, i):
    """readable form of a node"""
    e = nodes[i]
    k = e["k"]
    sub = lambda j: expr(nodes, j - 1)
    if k == "aff":
        return "%s(%s, %s)" % (e["f"], sub(e["e"]), e["c"])
    if k == "affine":
        return "Affine(%s, %s, %s)" % (sub(e["e"]), e["c"], e["b"])
    if k == "compose":
        return "Compose(%s, [%s])" % (sub(e["f"]), ", ".join(map(sub, e["g"])))
    if k == "wrap":
        return "FuncWrap(%s, %s, %s, %d, dm=%s/%d%s, flip=%s)" % (
            sub(e["e"]), e["pm"], e["fm"], e["nf"], e["dm"], e["nd"], " default" if e["dflt"] else "", e["flip"])
    if k == "collapse":
        return "Collapse(%s, %s, %s)" % (sub(e["e"]), True if e["all"] else e["F"], e["dd"])
    if k in ("sum", "prod"):
        return "%s(%d,%d)[%s]" % (k, e["nf"], e["nd"], "; ".join(
            "%s*%s pm=%s fm=%s dm=%s" % (a["w"], sub(a["e"]), a["pm"], a["fm"], a["dm"]) for a in e["atoms"]))
    rest = {a: b for a, b in e.items() if a != "k"}
    return k + (str(rest) if rest else "")


def inside(e):
    """indices of the nodes a node is made of"""
    res = [e["e"]] if isinstance(e.get("e"), int) else []
    if e["k"] == "compose":
        res += [e["f"]] + list(e["g"])
    return set(j - 1 for j in res + [a["e"] for a in e.get("atoms", [])])


def replayer(prop):
    def replay(trace):
        if "part" in trace:
            return ranges.replay_one(prop, trace)
        nodes = [f["node"] for f in trace["fs"]]
        fs, ops = [], {}
        for i, rec in enumerate(trace["fs"]):
            variant = trace["id"] + i
            what = "function %d = %s of parameters %s (shapes %s)" % (
                i + 1, expr(nodes, i), rec["pm"], [trace["gl"][g - 1]["sh"] for g in rec["pm"]])
            try:
                fs.append(build(nodes[i], fs, variant))
                args = make_args(trace["gl"], rec["pm"], variant // 3, raw_args(nodes, i))
                ex = Exact(rec, [tuple(trace["gl"][g - 1]["sh"]) for g in rec["pm"]])
                bad = check_entry(prop, fs[i], ex, args, variant, ops)
            except NotImplementedError:
                if refusing(nodes, i):
                    ops["refused"] = ops.get("refused", 0) + 1
                    continue
                raise
            except Exception as e:
                bad = "raised %s: %s" % (type(e).__name__, e)
            if bad:
                return {"fail": what + ": " + bad, "step": i}
            for k in ["fn:" + nodes[i]["k"]] + ["fn:%s of %s" % (nodes[i]["k"], nodes[j]["k"])
                                                for j in sorted(inside(nodes[i]))]:
                ops[k] = ops.get(k, 0) + 1
        return {"ops": ops}
    return replay


def run(prop):
    def check(c):
        traces = c.tlc("FuncSession",
                       dict(NSess=c.scale(2000, 9000), Depth=c.scale(14, 18),
                            Seed=c.seed * 11 + int(prop[1:]), MaxCells=40, MaxVars=9),
                       invariants=["WellFormed", "ConstAgree", "Conserved"])
        c.replay(traces, replayer(prop), limit=60)
        if not c.violations:        # longer parameters, more cells
            c.replay(c.tlc("FuncSession", dict(NSess=c.scale(200, 1000), Depth=14, Seed=c.seed * 11 + 100 + int(prop[1:]),
                                               MaxCells=250, MaxVars=26),
                           invariants=["WellFormed", "ConstAgree", "Conserved"], note="longer parameters"),
                     replayer(prop), limit=60)
        c.replay(ranges.sessions(c, "func", prop), replayer(prop), limit=60)
        t = traces[0]
        nodes = [f["node"] for f in t["fs"]]
        return c.finish(samples=[{"function": expr(nodes, len(nodes) - 1), "parameters": t["fs"][-1]["pm"]}],
                        functions=sum(v for k, v in c.ops.items() if k.startswith("fn:")))
    return check


CHECKS = {p: run(p) for p in ("C05", "C06", "C07", "C08")}
