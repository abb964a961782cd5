"""C18-C20: prepared grids of Prep.tla and encodings of Count.tla against the
library, with concrete label types, index layouts and row orders."""
import datetime

import numpy as np
import pandas as pd

FUNCS = {"size": np.size, "sum": np.sum, "max": np.max, "min": np.min, "mean": np.mean,
         "zeros": lambda x: (x == 0).sum()}
NAMES = ["size", "sum", "max", "min", "mean", "zeros", "weight"]
SPELL = {"size": ["size", "count"], "sum": ["sum"], "max": ["max"], "min": ["min"], "mean": ["mean"]}

LABELS = [
    lambda q: q,
    lambda q: 3 * q - 7,
    lambda q: "abcdefgh"[q],
    lambda q: ["B", "a", "ab", "b", "ba", "c", "z", "zz"][q],
    lambda q: q * 0.25 - 0.5,
    lambda q: datetime.datetime(2020, 1, 1) + datetime.timedelta(days=40 * q),
    lambda q: 10 ** q,
    lambda q: pd.Timestamp("2020-03-01", tz="UTC") + pd.Timedelta(hours=7 * q),
    lambda q: pd.Period("2019-11", "M") + q,
    lambda q: datetime.date(2021, 12, 29) + datetime.timedelta(days=q),
]


MANY = LABELS[:2] + [lambda q: "t%02d" % q] + LABELS[4:6] + LABELS[7:]


def pick(variant, k, seq):
    return seq[(variant * 7919 + k * 104729) % 1000003 % len(seq)]


def build(trace, variant):
    """index, labels per level, names"""
    depth = len(trace["shape"])
    many = max(trace["shape"]) > 8
    lab = [pick(variant, k, MANY if many else LABELS) for k in range(depth)]
    names = pick(variant, 20, [["h", "t1", "t2", "w"], ["z", "y", "x", "w"], [3, 1, 2, 0]])[:depth]
    if not any(trace["add"]) and variant % 5 == 0:
        names = [None] * depth
    rows = trace["obs"]
    multi = depth > 1 or trace["kind"] == "frame" or variant % 4 == 3
    if not multi:
        ix = pd.Index([lab[0](o["l"][0]) for o in rows], name=names[0])
        if variant % 9 == 2:
            ix = pd.CategoricalIndex(ix, categories=sorted(set(ix)), name=names[0])
        return ix, lab, names
    layout = pick(variant, 21, ["tuples", "levels", "levels", "arrays", "shuffled"])
    declared = [set(d) for d in trace["decl"]]
    used = [set(o["l"][k] for o in rows) for k in range(depth)]
    if any(d - u for d, u in zip(declared, used)) or layout in ("levels", "shuffled"):
        levels = []
        for k in range(depth):
            d = sorted(declared[k])
            if layout == "shuffled":
                d = d[::-1] if len(d) < 3 else d[1:] + d[:1]
            levels.append(d)
        codes = [[levels[k].index(o["l"][k]) for o in rows] for k in range(depth)]
        ix = pd.MultiIndex(levels=[[lab[k](q) for q in levels[k]] for k in range(depth)],
                           codes=codes, names=names)
    elif layout == "tuples":
        ix = pd.MultiIndex.from_tuples([tuple(lab[k](o["l"][k]) for k in range(depth)) for o in rows], names=names)
    else:
        ix = pd.MultiIndex.from_arrays([[lab[k](o["l"][k]) for o in rows] for k in range(depth)], names=names)
    return ix, lab, names


def added(trace, variant, lab, names, ix):
    depth = len(names)
    multi = isinstance(ix, pd.MultiIndex)
    if not any(trace["add"]):
        return pick(variant, 22, [None, None, {} if multi else []])
    seqs = []
    for k in range(depth):
        a = [lab[k](q) for q in trace["add"][k]]
        if (variant + k) % 3 == 0:
            a = a[::-1]
        if (variant + k) % 3 == 1:
            a = a + a[:1]
        seqs.append(pick(variant, 23 + k, [list, tuple, lambda x: pd.Index(x)])(a))
    if not multi:
        return seqs[0]
    return {n: s for n, s, a in zip(names, seqs, trace["add"]) if a or variant % 2}


def check_axes(axis, trace, lab, ix):
    want = [[lab[k](q) for q in trace["axes"][k]] for k in range(len(lab))]
    got = [list(axis)] if not isinstance(ix, pd.MultiIndex) else [list(a) for a in axis]
    if got != want:
        return "axes are %s instead of %s" % (got, want)
    return None


def check_grid(got, trace, name, key):
    want = np.array([float(x) for x in trace["aggs"][NAMES.index(name)]]).reshape(trace["shape"])
    got = np.asarray(got, dtype=float)
    if got.shape != want.shape or not np.allclose(got, want, rtol=1e-12, atol=1e-12):
        return "%s (%s) is %s instead of %s" % (key, name, got.tolist(), want.tolist())
    return None


def numbers(trace, key, variant):
    x = [float(o[key]) for o in trace["obs"]]
    if variant % 2 and all(v == int(v) for v in x):
        return np.array([int(v) for v in x], dtype=pick(variant, 26, [int, int, np.int32, np.int16]))
    return x


def transformations(trace, variant, drop=()):
    names = [n for n in NAMES[:-1] if n not in drop]
    sel = [n for k, n in enumerate(names) if (variant >> k) % 2] or ["sum"]
    if variant % 3 == 0:
        sel = sel[::-1]
    keys = {}
    for k, n in enumerate(sel):
        f = FUNCS[n]
        if n in SPELL and (variant + k) % 4 == 0:
            f = pick(variant, k, SPELL[n])
        keys[pick(variant, 30 + k, ["X%d" % k, n, n.upper(), "k" + n])] = (n, f)
    return keys


def series(trace):
    from maxlike.preprocessing import prepare_series
    variant = trace["id"] + len(trace["obs"]) * 31 + sum(o["v"] for o in trace["obs"])
    ix, lab, names = build(trace, variant)
    obs = pd.Series(numbers(trace, "v", variant), index=ix, name=pick(variant, 24, [None, "g"]))
    copy = obs.copy(deep=True)
    add = added(trace, variant, lab, names, ix)
    default = variant % 7 == 0
    sel = {"N": ("sum", None)} if default else transformations(trace, variant)
    args = [obs] + ([] if default else [{k: f for k, (_, f) in sel.items()}])
    kw = {} if add is None and variant % 2 else {"add_axis": add}
    what = "series %s index %s add %s, transformations %s" % (
        obs.values, list(ix), add, {k: n for k, (n, _) in sel.items()})
    try:
        res, axis = prepare_series(*args, **kw)
    except Exception as e:
        return what + ": raised %s: %s" % (type(e).__name__, e)
    bad = check_axes(axis, trace, lab, ix)
    if not bad and set(res) != set(sel):
        bad = "returned %s" % sorted(res)
    for k, (n, _) in sel.items():
        bad = bad or check_grid(res[k], trace, n, k)
    if not bad and not (obs.equals(copy) and obs.index.equals(copy.index)):
        bad = "the caller's series changed"
    return what + ": " + bad if bad else None


def frame(trace):
    from maxlike.preprocessing import prepare_dataframe
    variant = trace["id"] + len(trace["obs"]) * 31 + sum(o["v"] for o in trace["obs"])
    ix, lab, names = build(trace, variant)
    cols = pick(variant, 25, [("w", "g"), ("N", "X"), ("X", "N"), (0, 1), ("weight", "result")])
    data = {cols[0]: numbers(trace, "w", variant), cols[1]: numbers(trace, "v", variant // 2)}
    order = list(data)[::-1] if variant % 2 else list(data)
    df = pd.DataFrame({c: data[c] for c in order}, index=ix)
    if variant % 3 == 0:
        df["other"] = np.arange(len(df)) * 100.0
    copy = df.copy(deep=True)
    add = added(trace, variant, lab, names, ix)
    sel = transformations(trace, variant)
    args = [df, cols[0], cols[1], {k: f for k, (_, f) in sel.items()}]
    kw = {} if add is None and variant % 2 else {"add_axis": add}
    what = "frame %s index %s add %s, weight %s, transformations %s" % (
        df.values.tolist(), list(ix), add, cols[0], {k: n for k, (n, _) in sel.items()})
    try:
        res, axis = prepare_dataframe(*args, **kw)
    except Exception as e:
        return what + ": raised %s: %s" % (type(e).__name__, e)
    bad = check_axes(axis, trace, lab, ix)
    if not bad and set(res) != set(sel) | {"N"}:
        bad = "returned %s" % sorted(res)
    for k, (n, _) in sel.items():
        bad = bad or check_grid(res[k], trace, n, k)
    bad = bad or check_grid(res["N"], trace, "weight", "N")
    if not bad and not (df.equals(copy) and list(df.columns) == list(copy.columns) and df.index.equals(copy.index)):
        bad = "the caller's frame changed"
    return what + ": " + bad if bad else None


def counts(trace):
    """-> (disagreement, known finding)"""
    from maxlike.preprocessing import df_count
    n, cs = trace["n"], trace["cs"]
    variant = n * 13 + sum((k + 1) * c for k, c in enumerate(cs)) + 5 * len(cs)
    kind = pick(variant, 1, ["range", "labels", "multi", "dup"])
    L = len(cs)
    ix = {"range": pd.RangeIndex(L), "labels": pd.Index(list("qwertyuiop"[:L]), name="team"),
          "multi": pd.MultiIndex.from_tuples([(k // 2, "ab"[k % 2]) for k in range(L)], names=["i", "j"]),
          "dup": pd.Index([7] * L)}[kind]
    s = pd.Series(cs if variant % 2 else [float(c) for c in cs], index=ix)
    small = [d for d, top in (("int8", 127), ("uint8", 255), ("int16", 32767), ("uint16", 65535), ("int32", 2**31 - 1),
                              ("uint64", 2**31), ("float32", 2**24), ("object", 2**31)) if max(cs) <= top]
    if variant % 3 == 0:
        s = s.astype(pick(variant, 3, small))
    copy = s.copy(deep=True)
    name = pick(variant, 2, [None, "goals"])
    args = (s, n) if name is None and variant % 3 else (s, n, name)
    what = "counts %s into %d classes" % (cs, n)
    try:
        got = df_count(*args)
    except Exception as e:
        if n == 1 and isinstance(e, IndexError):
            return None, "count encoding overflow column"
        return what + ": raised %s: %s" % (type(e).__name__, e), None
    want = np.array(trace["rows"], dtype=bool)
    if got.shape != want.shape or not got.index.equals(ix) or list(got.index.names) != list(ix.names):
        return what + ": index or shape differs: %s" % (got,), None
    if got.columns.tolist() != list(range(n)) or got.columns.name != (name or "count"):
        return what + ": columns are %s named %s" % (got.columns.tolist(), got.columns.name), None
    if not s.equals(copy):
        return what + ": the caller's series changed", None
    v = got.values.astype(bool)
    if not np.array_equal(got.values.astype(float), v.astype(float)):
        return what + ": entries are not truth values", None
    if np.array_equal(v, want):
        return None, None
    if n >= 2:
        swapped = np.concatenate([want[:, :n - 2], want[:, n - 1:], want[:, n - 2:n - 1]], 1)
        if np.array_equal(v, swapped):
            return None, "count encoding overflow column"
    return what + ": is %s instead of %s" % (v.astype(int).tolist(), want.astype(int).tolist()), None


def replayer(prop):
    def replay(trace):
        known = None
        if prop == "C20":
            bad, known = counts(trace)
            n = 1
        else:
            bad = (series if prop == "C18" else frame)(trace)
        if bad:
            return {"fail": bad}
        return {"known": [known] if known else [], "ops": {"checked": 1}}
    return replay


INV = ["Conserved", "OrderFree", "Splits"]


def prep(prop, kind):
    def check(c):
        first = None
        seed = c.seed * 13 + int(prop[1:])

        def go(**kw):
            t = c.tlc("Prep", dict(kw, Kind=kind, Seed=seed), invariants=INV)
            c.replay(t, replayer(prop))
            return t
        go(NSess=1, Exhaustive=True, MaxObs=c.scale(4 if kind == "series" else 3, 5 if kind == "series" else 4), Depth=1)
        if not c.violations:
            go(NSess=1, Exhaustive=True, MaxObs=c.scale(2, 3 if kind == "series" else 2), Depth=2)
        for d in range(1, 4):
            if not c.violations:
                t = go(NSess=c.scale(700, 5000), Exhaustive=False, MaxObs=c.scale(14, 30), Depth=d)
                first = first or t[0]
            if not c.violations:            # many rows and labels
                go(NSess=c.scale(40, 200), Exhaustive=False, MaxObs=c.scale(200, 400), Depth=d)
        return c.finish(samples=[first] if first else [])
    return check


def count(c):
    t = c.tlc("Count", dict(MaxLen=c.scale(4, 5), MaxSize=6, Counts=set(range(c.scale(7, 8)))),
              invariants=["OneClass", "Exact"])
    c.replay(t, replayer("C20"))
    if not c.violations:            # counts beyond every class, up to the widths of the integer types
        big = {0, 1, 2, 10, 127, 128, 255, 256, 257, 32768, 65535, 65536, 65537, 2147483647}
        t2 = c.tlc("Count", dict(MaxLen=c.scale(2, 3), MaxSize=6, Counts=big), invariants=["OneClass", "Exact"])
        c.replay(t2, replayer("C20"))
    if not c.violations:            # many classes
        t2 = c.tlc("Count", dict(MaxLen=1, MaxSize=c.scale(40, 300), Counts=set(range(0, c.scale(45, 305)))),
                   invariants=["OneClass", "Exact"])
        c.replay(t2, replayer("C20"))
    return c.finish(samples=t[:2])


CHECKS = {"C18": prep("C18", "series"), "C19": prep("C19", "frame"), "C20": count}
