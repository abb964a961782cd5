"""C22-C24: outcome distributions of Outcome.tla and collapses of Collapse.tla
against the library's functions, called directly and inside a composition."""
import numpy as np

from core import arr
import funcs

CALLS = ("C05", "C06", "C07", "C08")


def transposed(ex):
    """the exact function of the transposed arguments: features swapped"""
    import copy
    t = copy.copy(ex)
    a, b = ex.sh[0], ex.sh[1]
    t.sh = (b, a) + ex.sh[2:]
    perm = np.arange(int(np.prod(ex.sh))).reshape(ex.sh).swapaxes(0, 1).ravel()
    t.v = ex.v.swapaxes(0, 1)
    var = []
    t.shapes = []
    for i, s in enumerate(ex.shapes):
        var.append(ex.off[i] + np.arange(int(np.prod(s))).reshape(s).T.ravel())
        t.shapes.append((s[1], s[0]))
    var = np.concatenate(var)
    t.G = ex.G[perm][:, var]
    t.H = ex.H[perm][:, var][:, :, var]
    return t


def compare(f, ex, args, variant, ops):
    for prop in CALLS:
        bad = funcs.check_entry(prop, f, ex, args, variant, ops)
        if bad:
            return bad
    return None


def replayer(prop):
    def replay(trace):
        from maxlike import func as F
        from maxlike.func.func_base import Compose
        rec = trace["fs"][0]
        node, variant, ops = rec["node"], trace["id"], {}
        what = "%s of arrays %s" % (funcs.expr([node], 0), [(g["sh"], g["v"]) for g in trace["gl"]])
        shapes = [tuple(g["sh"]) for g in trace["gl"]]
        ex = funcs.Exact(rec, shapes)
        known = None
        try:
            f = funcs.build(node, [], variant)
            raw = node["k"] in funcs.RAW
            args = funcs.make_args(trace["gl"], rec["pm"], variant // 3, raw)
            bad = compare(f, ex, args, variant, ops)
            # inside a composition, where the arguments are tensors
            scalars = node["k"] in ("game", "tiebreak", "set", "markovm", "markovv", "colm")
            if not bad and scalars and all(n > 1 for s in shapes for n in s):
                inner = [F.FuncWrap(F.X(), [q], list(range(len(s))), len(s)) for q, s in enumerate(shapes)] \
                    if len(shapes) > 1 else [F.X()]
                bad = compare(Compose(f, inner), ex, [arr(g) for g in trace["gl"]], variant + 1, ops)
                bad = bad and "composed with its arguments: " + bad
            if bad and prop == "C24" and len(shapes[0]) == 2:
                # the listed finding: two feature axes come out transposed, and so
                # do the derivatives, which fit the parameters when these are square
                t = transposed(ex)
                flipped = [np.ascontiguousarray(arr(g).T) for g in trace["gl"]]
                tv = f([arr(g) for g in trace["gl"]])
                ok = funcs.same(tv, t.v, 0, 0, 2, 1, t.scale[0], "value") is None
                if ok:
                    # derivatives with the values laid out as the library does
                    n = len(shapes)
                    a, b = shapes[0]
                    for i in range(n):
                        g = np.asarray(f.grad([arr(x) for x in trace["gl"]], i).values)
                        d = np.array([t.G[k * rec["sh"][-1]:(k + 1) * rec["sh"][-1], t.off[i] + k]
                                      for k in range(a * b)]).reshape(b, a, -1)
                        ok = ok and np.allclose(g.reshape(b, a, -1), d, atol=1e-8 * t.scale[1])
                        for j in range(i + 1):
                            h = np.asarray(f.hess([arr(x) for x in trace["gl"]], i, j).values)
                            d = np.array([t.H[k * rec["sh"][-1]:(k + 1) * rec["sh"][-1], t.off[i] + k, t.off[j] + k]
                                          for k in range(a * b)]).reshape(b, a, -1)
                            ok = ok and np.allclose(h.reshape(b, a, -1), d, atol=1e-8 * t.scale[2])
                    del flipped
                if ok:
                    bad, known = None, "tennis two feature axes"
        except Exception as e:
            bad = "raised %s: %s" % (type(e).__name__, e)
        if bad:
            return {"fail": what + ": " + bad}
        ops[node["k"]] = 1
        return {"ops": ops, "known": [known] if known else []}
    return replay


WALK = ["Conserved", "NonNegative", "Swapped", "Free"]
TENNIS = ["Conserved", "NonNegative", "Decided", "Mirror", "SameFunc"]


def walk(c):
    t = c.tlc("Outcome", dict(NSess=c.scale(600, 8000), Seed=c.seed * 7 + 22, Group="walk", MaxSteps=c.scale(6, 14)),
              invariants=WALK)
    c.replay(t, replayer("C22"))
    return c.finish(samples=t[:1])


def tennis(c):
    t = c.tlc("Outcome", dict(NSess=c.scale(1000, 8000), Seed=c.seed * 7 + 24, Group="tennis", MaxSteps=1),
              invariants=TENNIS)
    c.replay(t, replayer("C24"))
    return c.finish(samples=t[:1])


def collapse(c):
    t = c.tlc("Collapse", dict(NSess=1, Seed=c.seed * 7 + 23, Exhaustive=True, MaxCells=12),
              invariants=["Partition", "Signs"])
    c.replay(t, replayer("C23"))
    if not c.violations:
        t = c.tlc("Collapse", dict(NSess=c.scale(1000, 6000), Seed=c.seed * 7 + 23, Exhaustive=False, MaxCells=24),
                  invariants=["Partition", "Signs"])
        c.replay(t, replayer("C23"))
    return c.finish(samples=t[:1])


CHECKS = {"C22": walk, "C23": collapse, "C24": tennis}
