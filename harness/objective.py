"""C11: objective, flat gradient and bordered flat Hessian of LikeSession.tla
models with penalties, constraints and fixed entries."""
import numpy as np

from core import arr, close_arrays
import funcs
import likes


def term(t, fs, variant):
    """the real function of a penalty or constraint"""
    if t["e"]:
        return fs[t["e"] - 1]
    return funcs.build(t["node"], fs, variant)


def pmap(pm, variant):
    return pm[0] if len(pm) == 1 and variant % 2 else list(pm)


def session(trace, given=lambda name, v: v):
    variant = trace["id"]
    m, fs = likes.make_model(trace, variant, given)
    for q, t in enumerate(trace["reg"]):
        m.add_regularization(pmap(t["pm"], variant + q), term(t, fs, variant + q))
    for q, t in enumerate(trace["con"]):
        m.add_constraint(pmap(t["pm"], variant + q), term(t, fs, variant + q))
    return m, fs


def criteria(trace):
    """C17"""
    m, _ = session(trace)
    c = trace["crit"]
    if not c["ok"]:
        return None, None
    known = None
    ways = [(), (c["extra"],)] if c["extra"] == 0 else [(c["extra"],)]
    for name, f in (("aic", m.akaine_information_criterion), ("bic", m.bayesian_information_criterion)):
        want = float(c[name])
        for a in ways:
            got = np.asarray(f(*a), dtype=float)
            if got.shape == () and abs(got - want) <= 1e-8 * (1 + abs(want)):
                continue
            also = float(c[name + "all"])
            if c["fixed"] and got.shape == () and abs(got - also) <= 1e-8 * (1 + abs(also)):
                known = "criteria count fixed entries"
                continue
            return "%s with %s extra parameters is %s instead of %s" % (name, c["extra"], got, want), None
    return None, known


def compare(trace):
    m, fs = session(trace)
    params = m.params
    want = float(trace["obj"])
    fg = np.array([float(x) for x in trace["fgrad"]])
    fh = np.array([[float(x) for x in r] for r in trace["fhess"]])

    def vec(got, exp, what):
        bad = close_arrays(np.asarray(got, dtype=float), exp, 1e-8)
        return what + ": " + bad if bad else None
    bad = vec(m.g(params), want, "objective")
    if bad:
        return bad
    y, der, hess = m.model.eval(params)
    bad = vec(m.g(params, y), want, "objective from the predictor") or \
        vec(m.flat_grad(params, y, der), fg, "flat gradient") or \
        vec(m.flat_hess(params, y, der, hess), fh, "flat Hessian")
    if bad:
        return bad
    # the multipliers a fit keeps beside its constraints
    cons = m.constraint
    if trace["con"] and isinstance(cons, list) and \
            all(isinstance(t, tuple) and len(t) == 3 and isinstance(t[1], (int, float)) for t in cons):
        try:
            m.constraint = [(pm, float(v), g) for (pm, _, g), v in zip(cons, trace["gam"])]
            bad = vec(m.flat_grad(params, y, der), np.array([float(x) for x in trace["lgrad"]]),
                      "flat gradient with multipliers %s" % trace["gam"]) or \
                vec(m.flat_hess(params, y, der, hess), np.array([[float(x) for x in r] for r in trace["lhess"]]),
                    "flat Hessian with multipliers %s" % trace["gam"])
        finally:
            m.constraint = cons
        if bad:
            return bad
    sv = np.linalg.svd(fh, compute_uv=False)
    if sv[-1] > 1e-2 and sv[0] < 1e5 * sv[-1]:
        step, g, lg, lh = m.newton_step(params)
        nf = len(fg) - len(trace["con"])
        return vec(g, want, "objective of the step") or vec(lg, fg, "gradient of the step") or \
            vec(lh, fh, "Hessian of the step") or \
            vec(step, np.linalg.solve(fh, fg)[:nf], "Newton step")
    return None


def replayer(prop):
    def replay(trace):
        known = None
        try:
            bad, known = criteria(trace) if prop == "C17" else (compare(trace), None)
        except NotImplementedError:
            if funcs.refusing(trace["nodes"], trace["f"] - 1) or \
                    any(t["e"] and funcs.refusing(trace["nodes"], t["e"] - 1) for t in trace["reg"] + trace["con"]):
                return {"ops": {"refused": 1}}
            bad = "raised NotImplementedError"
        except Exception as e:
            bad = "raised %s: %s" % (type(e).__name__, e)
        if bad:
            def tx(t):
                return "%s%s" % (funcs.expr(trace["nodes"], t["e"] - 1) if t["e"] else t["node"], t["pm"])
            return {"fail": "%s, penalties %s, constraints %s, fixed %s: %s" % (
                likes.describe(trace), list(map(tx, trace["reg"])), list(map(tx, trace["con"])),
                trace["mask"], bad)}
        return {"known": [known] if known else [], "ops": {"models": 1, "constraints": len(trace["con"]), "penalties": len(trace["reg"]),
                        "with fixed entries": int(any(any(x) for x in trace["mask"]))}}
    return replay


def longer(c, prop, key, law):
    """longer parameters, more cells"""
    if not c.violations:
        c.replay(c.tlc("LikeSession", dict(NSess=c.scale(200, 1200), Depth=9, Full=True, Seed=c.seed * 11 + key,
                                           MaxVars=20, MaxCells=120), invariants=[law], note="longer parameters"),
                 replayer(prop))


def run_criteria(c):
    traces = c.tlc("LikeSession",
                   dict(NSess=c.scale(2000, 10000), Depth=c.scale(7, 11), Full=True,
                        Seed=c.seed * 11 + 17, MaxVars=8, MaxCells=24),
                   invariants=["CritOk"])
    c.replay(traces, replayer("C17"))
    longer(c, "C17", 117, "CritOk")
    return c.finish(samples=[likes.describe(traces[0])])


def run(c):
    traces = c.tlc("LikeSession",
                   dict(NSess=c.scale(3000, 14000), Depth=c.scale(8, 11), Full=True,
                        Seed=c.seed * 11 + 11, MaxVars=8, MaxCells=24),
                   invariants=["Additive"])
    c.replay(traces, replayer("C11"))
    longer(c, "C11", 111, "Additive")
    return c.finish(samples=[likes.describe(traces[0])])


CHECKS = {"C11": run, "C17": run_criteria}
