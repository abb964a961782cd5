"""C12-C14, C16: a model class that plays the oracle of FitMachine.tla.  Every
evaluation the library makes during a fit is matched against the points the
specification visits, in their order; outcomes, stored parameters, flags and
uncertainty outputs are compared after every fit."""
import numpy as np

import funcs

TOL = 1e-6


class Boom(Exception):
    """raised by the scripted model"""


class Deviates(BaseException):
    """the library left the specified behaviour"""


def vec(v):
    return np.array([float(x) for x in v], dtype=float)


def near(a, b, tol=TOL):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    return bool(np.all(np.abs(a - b) <= tol * (1.0 + np.max(np.abs(b)))))


class Oracle:
    """the scripted points and how many of them have been visited"""

    def __init__(self, trace):
        self.pts = [dict(x=vec(p["x"]), g=self.value(p["g"]), gr=vec(p["gr"]),
                         H=np.array([vec(r) for r in p["H0"]]), err=p["err"])
                    for p in trace["pts"]]
        self.seen = 0
        self.limit = 0                # points of the present fit's end
        self.params = []              # (shape, mask, fixed values) in force
        self.last = None

    @staticmethod
    def value(g):
        return {"nan": np.nan, "ninf": -np.inf}.get(g["k"]) if g["k"] != "num" else float(g["v"])

    def at(self, params):
        params = tuple(params)
        if len(params) != len(self.params):
            raise Deviates("structure: evaluated with %d parameters instead of %d"
                           % (len(params), len(self.params)))
        full = []
        for q, (p, (sh, mask, val)) in enumerate(zip(params, self.params)):
            v, m = np.asarray(p.values), np.asarray(p.mask)
            if v.shape != sh or m.shape != sh or tuple(p.shape) != sh:
                raise Deviates("structure: parameter %d evaluated with shape %s, mask shape %s instead of %s"
                               % (q, v.shape, m.shape, sh))
            if not np.array_equal(m, mask):
                raise Deviates("structure: parameter %d evaluated with mask %s instead of %s" % (q, m, mask))
            if not np.array_equal(np.asarray(v[mask], dtype=float), val[mask]):
                raise Deviates("structure: fixed entries of parameter %d evaluated at %s instead of %s"
                               % (q, v[mask], val[mask]))
            full.append(np.asarray(v, dtype=float).ravel())
        x = np.concatenate(full)
        cand = [(float(np.max(np.abs(x - self.pts[k]["x"]))), k) for k in range(self.seen)
                if self.pts[k]["x"].shape == x.shape]
        if cand:
            d, k = min(cand)
            if near(x, self.pts[k]["x"]):
                self.last = k
                return k
        if self.seen < self.limit:
            k = self.seen
            if near(x, self.pts[k]["x"]):
                self.seen += 1
                self.last = k
                return k
            self.scatter(x, self.pts[k]["x"])
            raise Deviates("visits %s instead of %s" % (x.tolist(), self.pts[k]["x"].tolist()))
        raise Deviates("visits %s after the last specified point" % x.tolist())

    def scatter(self, x, want):
        free = np.concatenate([~m.ravel() for _, m, _ in self.params])
        if near(np.sort(x[free]), np.sort(want[free])):
            raise Deviates("structure: free entries put back at other positions: %s instead of %s"
                           % (x[free].tolist(), want[free].tolist()))

    def stage(self, k, name):
        if self.pts[k]["err"] == name:
            self.boom = Boom(name)
            raise self.boom


class Token:
    def __init__(self, kind, k):
        self.kind = kind
        self.k = k


class Probe:
    """what the library sees as the model function"""

    def __init__(self, oracle):
        self.o = oracle

    def __call__(self, params):
        k = self.o.at(params)
        self.o.stage(k, "model")
        return Token("y", k)

    def grad(self, params, *_):
        k = self.o.at(params)
        self.o.stage(k, "der")
        return Token("der", k)

    def hess(self, params, *_):
        k = self.o.at(params)
        self.o.stage(k, "der")
        return Token("hess", k)

    def eval(self, params):
        y = self(params)
        return y, self.grad(params), self.hess(params)


def model_class():
    from maxlike.maxlike_base import MaxLike
    from maxlike.tensor import Tensor

    class Scripted(MaxLike):
        def __init__(self, oracle):
            MaxLike.__init__(self)
            self.oracle = oracle
            self.model = Probe(oracle)

        def same(self, k, *tokens):
            for t, kind in zip(tokens, ("y", "der", "hess")):
                if not isinstance(t, Token) or t.kind != kind:
                    raise Deviates("evaluates with something else than the model's own %s" % kind)
                if t.k != k:
                    raise Deviates("combines the parameters of one point with the model's %s at another" % kind)

        def like(self, params, y):
            k = self.oracle.at(params)
            self.same(k, y)
            self.oracle.stage(k, "like")
            return Tensor(self.oracle.pts[k]["g"] * float(np.sum(self.oracle.N)))

        def blocks(self, params):
            off = np.cumsum([0] + [int(np.prod(p.shape)) for p in params])
            return [slice(a, b) for a, b in zip(off, off[1:])]

        def grad_like(self, params, y, der):
            k = self.oracle.at(params)
            self.same(k, y, der)
            self.oracle.stage(k, "grad")
            g = self.oracle.pts[k]["gr"]
            return [Tensor(g[s].reshape(p.shape), x_dim=len(p.shape))
                    for s, p in zip(self.blocks(params), params)]

        def hess_like(self, params, y, der, hess):
            k = self.oracle.at(params)
            self.same(k, y, der, hess)
            self.oracle.stage(k, "hess")
            H, b = self.oracle.pts[k]["H"], self.blocks(params)
            return [[Tensor(H[b[i], b[j]].reshape(params[i].shape + params[j].shape),
                            x_dim=len(params[i].shape), y_dim=len(params[j].shape))
                     for j in range(i + 1)] for i in range(len(params))]
    return Scripted


class Session:
    def __init__(self, prop, trace):
        from maxlike.tensor import Tensor
        self.Tensor = Tensor
        self.prop = prop
        self.o = Oracle(trace)
        self.m = model_class()(self.o)
        self.variant = trace["id"]
        self.ops = {}

    def count(self, k):
        self.ops[k] = self.ops.get(k, 0) + 1

    def add(self, p):
        sh = tuple(p["sh"])
        ints = p["how"] == "int" and all(isinstance(x, int) for x in p["v"])
        v = np.array([int(x) if ints else float(x) for x in p["v"]]).reshape(sh)
        mask = np.array(p["mask"], dtype=bool).reshape(sh)
        if p["how"] in ("none", "int") and not mask.any():
            self.m.add_param(v.tolist() if ints or self.variant % 2 else v)
        elif p["how"] == "false" and not mask.any():
            self.m.add_param(v, False)
        else:
            listed = self.variant + len(self.o.params)
            own = mask.astype(int) if listed % 5 == 2 else mask.copy()      # 0 and 1 as well as False and True
            self.m.add_param(v.tolist() if listed % 2 else v, own.tolist() if listed % 3 == 1 else own)
            np.logical_not(own, out=own)        # the caller goes on using its array
        self.o.params.append((sh, mask, np.asarray(v, dtype=float)))

    def params(self, what):
        """structure of the stored parameters; returns the values in one row"""
        m, o = self.m, self.o
        ps = m.params
        if len(ps) != len(o.params):
            raise Deviates("structure: %d parameters instead of %d %s" % (len(ps), len(o.params), what))
        shown = m.get_params()
        if len(shown) != len(ps):
            raise Deviates("structure: get_params returns %d entries %s" % (len(shown), what))
        for q, (p, s, (sh, mask, val)) in enumerate(zip(ps, shown, o.params)):
            v = np.asarray(p.values, dtype=float)
            if v.shape != sh or tuple(p.shape) != sh or not np.array_equal(p.mask, mask):
                raise Deviates("structure: parameter %d has shape %s mask %s instead of %s %s, %s"
                               % (q, v.shape, np.asarray(p.mask).tolist(), sh, mask.tolist(), what))
            if not np.array_equal(v[mask], val[mask]):
                raise Deviates("structure: fixed entries of parameter %d are %s instead of %s, %s"
                               % (q, v[mask], val[mask], what))
            if int(p.count()) != int((~mask).sum()) or \
                    not np.array_equal(np.asarray(p.compressed(), dtype=float), v[~mask]):
                raise Deviates("structure: parameter %d counts / lists its free entries wrongly, %s" % (q, what))
            if not isinstance(s, np.ma.MaskedArray) or s.shape != sh or \
                    not np.array_equal(np.ma.getmaskarray(s), mask) or \
                    not np.array_equal(np.asarray(s.data, dtype=float), v):
                raise Deviates("structure: get_params shows parameter %d as %r, %s" % (q, s, what))
        return np.concatenate([np.asarray(p.values, dtype=float).ravel() for p in ps])

    def fit(self, e):
        from maxlike.maxlike_base import ConvergenceError
        opt, res, o, m = e["opt"], e["res"], self.o, self.m
        o.limit = e["npts"]
        o.boom = None
        o.N = vec(opt["N"])
        raw = [np.array(p.values) for p in m.params]
        kw = dict(verbose=int(opt["verb"]), N=o.N if self.variant % 2 else o.N.tolist())
        if float(opt["tol"]) != 1e-8 or self.variant % 3 == 0:         # what the signature promises by default
            kw["tol"] = float(opt["tol"])
        if int(opt["budget"]) != 20 or self.variant % 3 == 1:
            kw["max_steps"] = int(opt["budget"])
        if opt["name"] != "default":
            kw["method"] = opt["name"]
        what = "%s fit (tol %s, %s steps allowed)" % (opt["name"], opt["tol"], opt["budget"])
        got = exc = None
        try:
            got = m.fit(**kw)
        except Exception as x:
            exc = x
        after = self.params("after a " + what)
        if res["ok"]:
            if exc is not None:
                raise Deviates("%s raised %s: %s instead of succeeding" % (what, type(exc).__name__, exc))
            if got is not True and not (isinstance(got, (bool, np.bool_)) and got):
                raise Deviates("%s returned %r" % (what, got))
        else:
            if exc is None:
                raise Deviates("%s returned %r instead of failing (%s)" % (what, got, res["why"]))
            if res["why"] == "raised":
                if exc is not o.boom:
                    raise Deviates("%s: the evaluation error became %s: %s" % (what, type(exc).__name__, exc))
            elif res["why"] == "method":
                if not isinstance(exc, ValueError):
                    raise Deviates("unknown method %r raised %s" % (opt["name"], type(exc).__name__))
            else:
                if not isinstance(exc, ConvergenceError):
                    raise Deviates("%s raised %s: %s instead of a convergence error"
                                   % (what, type(exc).__name__, exc))
                if (exc.type == "step") != (res["why"] == "step"):
                    raise Deviates("%s: convergence error of type %r for failure %r" % (what, exc.type, res["why"]))
            for q, (p, r) in enumerate(zip(m.params, raw)):
                if not np.array_equal(p.values, r):
                    raise Deviates("failed %s changed parameter %d from %s to %s"
                                   % (what, q, r.tolist(), np.asarray(p.values).tolist()))
        if o.seen != e["npts"]:
            raise Deviates("%s visited %d new points instead of %d" % (what, o.seen, e["npts"]))
        if not near(after, vec(e["v"])):
            o.scatter(after, vec(e["v"]))
            raise Deviates("%s left parameters %s instead of %s" % (what, after.tolist(), e["v"]))
        if bool(m.converged) != e["conv"]:
            raise Deviates("%s (%s) left converged = %s instead of %s"
                           % (what, res["why"] or "success", m.converged, e["conv"]))
        if not isinstance(m.N, self.Tensor) or not near(m.N.toarray(), o.N):
            raise Deviates("the data handed to a %s is not the model's data" % what)
        self.count(opt["m"] + " " + (res["why"] or ("ok warm" if e["warm"] else "ok")))
        if e["pub"]["ok"] and self.prop == "C16":
            try:
                self.published(e["pub"], what)
            except Deviates as d:
                raise Deviates("uncertainty outputs: %s" % d)
            except Exception as x:
                raise Deviates("uncertainty outputs raised %s: %s" % (type(x).__name__, x))

    def published(self, pub, what):
        """C16: what is read off the model after a successful fit"""
        m, o = self.m, self.o

        def blocks(got, want, name):
            n = len(o.params)
            if len(got) != n or any(len(r) != n for r in got):
                raise Deviates("%s is not %d by %d blocks" % (name, n, n))
            scale = 1.0 + max(abs(float(x)) for r in want for b in r for x in b["v"] if x != "nan")
            for i in range(n):
                for j in range(n):
                    w = want[i][j]
                    g = np.ma.filled(np.ma.masked_invalid(got[i][j]).astype(float), np.nan)
                    if list(g.shape) != list(w["sh"]):
                        raise Deviates("%s block %d %d has shape %s instead of %s" % (name, i, j, g.shape, w["sh"]))
                    g = g.ravel()
                    x = np.array([np.nan if c == "nan" else float(c) for c in w["v"]])
                    if not np.array_equal(np.isfinite(g), np.isfinite(x)):
                        raise Deviates("%s block %d %d is finite at the wrong entries: %s instead of %s, after a %s"
                                       % (name, i, j, g.tolist(), w["v"], what))
                    f = np.isfinite(x)
                    if f.any() and np.max(np.abs(g[f] - x[f])) > TOL * scale:
                        raise Deviates("%s block %d %d is %s instead of %s, after a %s"
                                       % (name, i, j, g.tolist(), w["v"], what))
                    t = got[j][i]
                    di, dj = len(o.params[i][0]), len(o.params[j][0])
                    back = np.transpose(np.asarray(t, dtype=float),
                                        tuple(range(dj, dj + di)) + tuple(range(dj)))
                    if not np.allclose(np.asarray(got[i][j], dtype=float), back, rtol=1e-6,
                                       atol=1e-6 * scale, equal_nan=True):
                        raise Deviates("%s blocks %d %d and %d %d do not mirror" % (name, i, j, j, i))
        blocks(m.fisher_matrix(), pub["fisher"], "information matrix")
        blocks(m.error_matrix(), pub["error"], "error matrix")
        se = m.std_error()
        if len(se) != len(o.params):
            raise Deviates("%d standard error arrays" % len(se))
        for q, (s, w, (sh, mask, _)) in enumerate(zip(se, pub["std"], o.params)):
            if s.shape != sh or not np.array_equal(np.ma.getmaskarray(s) | ~np.isfinite(np.asarray(s.data, dtype=float)),
                                                   np.array([x == "nan" for x in w]).reshape(sh)):
                raise Deviates("standard errors of parameter %d are %r instead of %s, after a %s" % (q, s, w, what))
            d = np.asarray(s.data, dtype=float).ravel()
            for a, b, fx in zip(d, w, mask.ravel()):
                if b != "nan" and abs(a - float(b)) > TOL * (1 + abs(float(b))):
                    raise Deviates("standard errors of parameter %d are %s instead of %s, after a %s"
                                   % (q, d.tolist(), w, what))
                if fx and np.isfinite(a):
                    raise Deviates("a fixed entry of parameter %d has standard error %r" % (q, a))
        self.count("published")
        self.count("published with %d constraints" % len(m.constraint))

    def run(self, trace):
        import maxlike.func as F
        for e in trace["log"]:
            op = e["op"]
            if op == "init":
                for p in e["ps"]:
                    self.add(p)
            elif op == "param":
                self.add(e["p"])
            elif op == "reset":
                self.m.reset_params()
                del self.o.params[:]
                for p in e["ps"]:
                    self.add(p)
            elif op == "con":
                c = e["c"]
                ws = [vec(w).reshape(self.o.params[k - 1][0]) for w, k in zip(c["ws"], c["pm"])]
                g = F.Linear(ws) + float(c["b"])
                pm = [k - 1 for k in c["pm"]]
                self.m.add_constraint(pm[0] if len(pm) == 1 and self.variant % 2 else pm, g)
            else:
                self.fit(e)
            self.params("after %s" % op)
            self.count(op)


def describe(trace):
    ps = trace["log"][0]["ps"]
    out = ["parameters " + ", ".join("%s=%s fixed %s" % (p["sh"], p["v"], p["mask"]) for p in ps)]
    for e in trace["log"][1:]:
        if e["op"] == "fit":
            out.append("%s(tol %s, %s steps) -> %s after %d points" % (
                e["opt"]["name"], e["opt"]["tol"], e["opt"]["budget"],
                "success" if e["res"]["ok"] else e["res"]["why"] + " " + e["res"]["stage"], e["npts"]))
        else:
            out.append(e["op"])
    return "; ".join(out) + " | objective per point: " + ", ".join(
        (str(p["g"]["v"]) if p["g"]["k"] == "num" else p["g"]["k"]) + ("!" + p["err"] if p["err"] else "")
        for p in trace["pts"])


def mine(prop, msg):
    """C12 answers for the structure of the parameters only, C16 for what is
    read off after a fit"""
    if prop == "C12":
        return msg.startswith(("structure", "raised"))
    if prop == "C16":
        return msg.startswith("uncertainty")
    return True


def replayer(prop):
    def replay(trace):
        import contextlib
        import io
        s = Session(prop, trace)
        bad = None
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                s.run(trace)
        except Deviates as d:
            bad = str(d)
        except Exception as x:
            bad = "raised %s: %s" % (type(x).__name__, x)
        if bad and mine(prop, bad):
            return {"fail": describe(trace) + ": " + bad}
        if bad:
            s.count("deviated")
        return {"ops": s.ops}
    return replay


INV = ["Bounded", "InvOk", "MarkedOk"]
ACT = ["Structure", "OnSuccess", "Monotone", "Secant", "Feasible"]


def run(prop):
    def check(c):
        def go(**kw):
            kw = dict(dict(NFits=3, Exhaustive=False, Budget=1, Rich=True), **kw)
            t = c.tlc("FitMachine", dict(kw, Seed=c.seed * 17 + int(prop[1:])), invariants=INV, properties=ACT)
            c.replay(t, replayer(prop))
            return t
        if prop == "C12":
            t = go(NSess=c.scale(700, 6000), MixName="both")
        elif prop == "C13":
            t = go(NSess=c.scale(400, 3000), MixName="newton")
            if not c.violations:
                go(NSess=c.scale(1, 6), NFits=1, Exhaustive=True, MixName="newton", Budget=1)
            if not c.violations:
                go(NSess=c.scale(1, 4), NFits=1, Exhaustive=True, MixName="newton", Budget=c.scale(2, 2), Rich=False)
        elif prop == "C14":
            t = go(NSess=c.scale(500, 4000), NFits=4, MixName="broyden")
            if not c.violations:
                go(NSess=c.scale(3, 12), NFits=1, Exhaustive=True, MixName="broyden", Budget=c.scale(3, 4))
        else:
            t = go(NSess=c.scale(700, 6000), MixName="both")
        return c.finish(samples=[describe(x) for x in t[:3]])
    return check


CHECKS = {p: run(p) for p in ("C12", "C13", "C14", "C16")}
