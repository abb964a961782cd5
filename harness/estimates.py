"""C15: performs the fitting sessions of Estimate.tla through the preparation
helpers and the public model interface, and has EstimateCheck.tla decide the
estimates of every fit that reported success."""
import json
import os

import numpy as np
import pandas as pd

import core
import funcs
from likes import DISTS
from prep import LABELS

# on the correction of the estimates, on totals, on the constraints
TOL = {"newton": ("1e-5", "1e-4", "1e-8"), "broyden": ("5e-3", "5e-3", "1e-4")}


def series(ev, trace, lab, classes):
    """rows as observations of a Series, every weight one (or counts of classes)"""
    keys = [tuple(lab[k](z - 1) for k, z in enumerate(o["l"])) + ((o["x"],) if classes else ())
            for o in ev["rows"]]
    vals = [float(o["w"]) if classes else o["x"] for o in ev["rows"]]
    if len(keys[0]) == 1:
        return pd.Series(vals, index=pd.Index([q[0] for q in keys]))
    return pd.Series(vals, index=pd.MultiIndex.from_tuples(keys))


def prepared(ev, trace, variant):
    from maxlike.preprocessing import prepare_series, prepare_dataframe
    K = len(trace["sh"])
    lab = [LABELS[(variant + 3 * k) % len(LABELS)] for k in range(K)]
    classes = trace["dist"] in ("finite", "nfinite")
    if classes:
        res, axes = prepare_series(series(ev, trace, lab, True))
        shape = tuple(trace["sh"]) + (trace["m"],)
        if res["N"].shape == shape:
            return res
        # a class nobody fell into
        res, axes = prepare_series(series(ev, trace, lab, True).rename_axis(
            ["f%d" % k for k in range(K)] + ["u"]), add_axis={"u": list(range(trace["m"]))})
        return res
    if trace["frame"]:
        keys = [tuple(lab[k](z - 1) for k, z in enumerate(o["l"])) for o in ev["rows"]]
        df = pd.DataFrame({"r": [o["x"] for o in ev["rows"]], "w": [float(o["w"]) for o in ev["rows"]]},
                          index=pd.MultiIndex.from_tuples(keys))
        res, axes = prepare_dataframe(df, "w", "r", {"X": np.sum})
        return res
    tr = {"N": np.size, "X": np.sum}
    if trace["dist"] == "zip":
        tr["Z"] = lambda x: (x == 0).sum()
    res, axes = prepare_series(series(ev, trace, lab, False), tr)
    return res


def make(ev, trace, variant):
    import maxlike
    dist = trace["dist"]
    cls = getattr(maxlike, DISTS[dist])
    c = funcs.simple(trace["c"], variant)
    m = cls(1) if dist in ("finite", "nfinite") else cls(c) if dist in ("zip", "nb") else cls()
    fs = []
    for i, node in enumerate(trace["nodes"]):
        fs.append(funcs.build(node, fs, variant + i))
    m.model = fs[trace["f"] - 1]
    for p, sh in enumerate(trace["prm"]):
        a = np.array([float(x) for x in ev["start"][p]]).reshape(tuple(sh))
        mk = np.array(ev["mask"][p], dtype=bool).reshape(tuple(sh))
        if mk.any():
            m.add_param(a, mk)
        else:
            m.add_param(a.tolist() if variant % 2 else a)
    for t in ev["con"]:
        lin = funcs.build(t["nodes"][0], [], variant)
        g = lin if float(t["nodes"][1]["c"]) == 0 and variant % 2 else funcs.build(dict(t["nodes"][1], e=1), [lin], variant)
        pm = list(t["pm"])
        m.add_constraint(pm[0] if len(pm) == 1 and variant % 2 else pm, g)
    for t in trace["reg"]:
        h = funcs.build({"k": "quad", "u": t["u"], "s": t["sc"]}, [])
        m.add_regularization([t["p"] - 1] if variant % 2 else t["p"] - 1, h)
    return m


def session(trace):
    from maxlike.maxlike_base import ConvergenceError
    answers, ops = [], {}
    m = None
    for n, ev in enumerate(trace["fits"]):
        variant = trace["id"] * 5 + n
        # a fit that failed leaves a model that is not asked again
        if not (ev["reuse"] and m is not None):
            m = make(ev, trace, variant)
        kw = {"max_steps": 60, "tol": 1e-8} if ev["meth"] == "newton" else \
             {"max_steps": 100, "tol": 1e-10, "method": "broyden"}
        try:
            data = prepared(ev, trace, variant)
            ok = m.fit(**dict(kw, **data))
        except (ConvergenceError, np.linalg.LinAlgError, ValueError) as e:
            # an iteration that diverged may end in non-finite matrices
            if type(e) is ValueError and (ev["meth"] == "newton" or "infs or NaNs" not in str(e)):
                return {"fail": "%s: fit %d raised ValueError: %s" % (describe(trace), n, e)}
            ops[ev["meth"] + " refused"] = ops.get(ev["meth"] + " refused", 0) + 1
            m = None
            continue
        except Exception as e:
            return {"fail": "%s: fit %d raised %s: %s" % (describe(trace), n, type(e).__name__, e)}
        if ok is not True:
            return {"fail": "%s: fit %d returned %r" % (describe(trace), n, ok)}
        est = [np.asarray(p.data, dtype=float) for p in m.get_params()]
        if [list(p.shape) for p in est] != trace["prm"]:
            return {"fail": "%s: fit %d left parameters of shapes %s" % (describe(trace), n, [p.shape for p in est])}
        if not all(np.isfinite(p).all() for p in est):
            return {"fail": "%s: fit %d reported success with estimates %s" % (describe(trace), n, est)}
        ops[ev["meth"]] = ops.get(ev["meth"], 0) + 1
        answers.append({"n": n, "perm": ev["perm"], "meth": ev["meth"],
                        "est": [[repr(float(x)) for x in p.ravel()] for p in est], "start": ev["start"]})
    return {"answers": answers, "ops": ops}


def describe(trace):
    return "%s of %s, parameters %s, constraints %s, penalties %s, fixed %s, cells %s" % (
        trace["dist"], trace["atoms"], trace["prm"], [(t["ps"], [w["v"] for w in t["ws"]], t["c"]) for t in trace["con"]],
        trace["reg"], trace["mask"], trace["cells"]["v"])


BASE = ("prm", "ax", "dist", "c", "nodes", "f", "con", "reg", "mask", "atoms", "cells")


def verdicts(c, traces, out):
    recs = []
    for t, r in zip(traces, out):
        for a in r.get("answers", []):
            recs.append((t, a, dict({q: t[q] for q in BASE}, perm=a["perm"], est=a["est"], start=a["start"],
                                    i=len(recs), tol=TOL[a["meth"]][0], ttol=TOL[a["meth"]][1], ctol=TOL[a["meth"]][2])))
    path = os.path.join(c.tmp, "answers.ndjson")
    with open(path, "w") as f:
        for _, _, r in recs:
            f.write(json.dumps(r) + "\n")
    vs = c.tlc("EstimateCheck", dict(InFile=path))
    if len(vs) != len(recs):
        raise core.SpecError("%d verdicts for %d answers" % (len(vs), len(recs)))
    return [(v, recs[v["i"]]) for v in vs]


def estimates(c):
    t = c.tlc("Estimate", dict(NSess=c.scale(450, 4000), Seed=c.seed * 13 + 15, MaxFits=c.scale(5, 7),
                               MaxVars=8, MaxCells=24), invariants=["SameData", "Feasible"])
    out = c.replay(t, session, limit=60)
    if c.violations:
        return c.finish()
    vs = verdicts(c, t, out)
    for v, (trace, a, _) in vs:
        if not v["ok"]:
            c.report("%s: %s\n  the %s fit %d reported success at %s (%s)" % (
                v["why"], describe(trace), a["meth"], a["n"], a["est"], v), trace)
            if len(c.violations) >= 3:
                break
    if os.environ.get("VERIF_STATS"):
        for meth in ("newton", "broyden"):
            for q in ("dx", "cs", "tot"):
                x = np.array([float(v[q]) for v, (_, a, _) in vs if a["meth"] == meth and q in v])
                print(meth, q, len(x), np.quantile(x, [.5, .9, .99, 1]))
        print(sum(v["why"] == "singular" for v, _ in vs))
    return c.finish(samples=[describe(t[0])], answers_validated=len(vs),
                    undecided=sum(v["why"] in ("singular", "outside") for v, _ in vs))


CHECKS = {"C15": estimates}


def replayer(prop):
    def again(trace):
        c = core.Check(prop)
        try:
            r = session(trace)
            if "fail" in r:
                return r
            bad = [v for v, _ in verdicts(c, [trace], [r]) if not v["ok"]]
            return {"fail": str(bad)} if bad else r
        finally:
            c.close()
    return again
