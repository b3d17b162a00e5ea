"""P23: R covariate preprocessing."""
import numpy as np
import pbt, rlink
from pbt import prop, Discard
from rlink import R, RError, Frame, Factor, Ints, S0
from common import close, same

pbt.PRE_FORK.append(rlink.before_fork)
WORDS = ["a", "b", "B", "level 1", "10", "2", "z z", "é", "0", "TRUE", "NA ", "x1", "c", "d", "-1", "1.5"]


def column(s, r, n, kind):
    """-> (spec used by the model, R value, text values or numbers)"""
    if kind == "double": v = np.round(r.normal(size=n) * s.pick([1, 1e-8, 1e6]), 12); return {"kind": "num", "rv": v, "v": v}
    if kind == "const": v = np.full(n, s.pick([0.0, 1.0, -2.5])); return {"kind": "num", "rv": v, "v": v}
    if kind == "int": v = r.integers(-5, 9, n); return {"kind": "num", "rv": v, "v": v.astype(float)}
    L = s.pick([1, 2, 2, 3, 3, 5]); words = [WORDS[i] for i in r.permutation(len(WORDS))[:L]]; v = [words[int(i)] for i in r.integers(0, L, n)]
    for i in range(min(L, n)): v[i] = words[i]
    r.shuffle(v)
    if kind == "char": return {"kind": "cat", "rv": v, "v": v}
    lv = list(words) + ([w for w in WORDS if w not in words][:s.range(1, 2)] if s.chance(1, 3) else [])       # some levels may not occur
    if kind == "factor": lv = [lv[int(i)] for i in r.permutation(len(lv))]
    else: lv = [lv[int(i)] for i in r.permutation(len(lv))]
    return {"kind": "ord" if kind == "ordered" else "cat", "rv": Factor([lv.index(x) + 1 for x in v], lv, kind == "ordered"), "v": v, "levels": lv}


def newcol(s, r, n, spec, kind, unseen):
    """new values for a trained column: any subset of levels, other level sets, possibly unseen values"""
    if spec["kind"] == "num":
        return (np.round(r.normal(size=n), 6), None) if kind != "int" or s.chance(1, 3) else (r.integers(-5, 9, n), None)
    seen = sorted(set(spec["v"])) if spec["kind"] == "cat" else list(spec["levels"]); pool = seen[:s.range(1, len(seen))] if s.chance(1, 3) else seen
    extra = [w for w in WORDS + ["new", "other"] if w not in seen]; v = [pool[int(i)] for i in r.integers(0, len(pool), n)]
    if unseen:
        for i in range(n):
            if s.chance(1, 3): v[i] = s.pick(extra[:2] + [None] if s.chance(1, 3) else extra[:2])
    forms = ["char", "factor", "ordered"] if spec["kind"] == "cat" else ["ordered", "factor", "char"]; f = s.pick(forms[:1] * 2 + forms)
    present = sorted({x for x in v if x is not None}); lv = present + ([x for x in seen if x not in present] if s.chance(1, 2) else [])
    lv = [lv[int(i)] for i in r.permutation(len(lv))]
    if f == "char": return (v if any(x is not None for x in v) else Factor([None] * n, ["q"]), v)
    return Factor([None if x is None else lv.index(x) + 1 for x in v], lv or ["q"], f == "ordered"), v


def expect(specs, values, n):
    """independent encoder: numeric columns, then ordered ranks, then indicators with a last column for unseen values"""
    out, types, orig = [], [], []
    for j, (sp, v) in enumerate(zip(specs, values)):
        if sp["kind"] == "num": out.append(np.asarray(v, dtype=float)); types.append(0); orig.append(j + 1)
    for j, (sp, v) in enumerate(zip(specs, values)):
        if sp["kind"] == "ord": out.append(np.array([sp["levels"].index(x) + 1 if x in sp["levels"] else len(sp["levels"]) + 1 for x in v], dtype=float)); types.append(1); orig.append(j + 1)
    for j, (sp, v) in enumerate(zip(specs, values)):
        if sp["kind"] == "cat":
            lv = sp["seen"]
            for w in lv: out.append(np.array([x == w for x in v], dtype=float))
            out.append(np.array([x not in lv for x in v], dtype=float))
            for _ in range(len(lv) + 1): types.append(1); orig.append(j + 1)
    return np.column_stack(out) if out else np.zeros((n, 0)), types, orig


def mat(x, n): return np.asarray(x, dtype=float).reshape(n, -1, order="F") if not (isinstance(x, np.ndarray) and x.ndim == 2) else np.asarray(x, dtype=float)


@prop("P23", "a frame with at least two column kinds, or new data with unseen or missing categories or fewer levels")
def P23(s, c):
    r = s.sub(); n = s.pick([1, 2, 3, 5, 8, 20]); p = s.range(1, 5)
    if s.chance(1, 8): return matrix_case(s, c, r, n, p)
    kinds = [s.pick(["double", "int", "char", "factor", "ordered", "const"]) for _ in range(p)]; names = [["x%d" % (i + 1) for i in range(p)], ["z", "a b", "é1", "x_factor", "X2"][:p]][s.raw(2)]; specs = [column(s, r, n, k) for k in kinds]
    c.note("n=%d %s" % (n, kinds)); df = Frame(zip(names, [sp["rv"] for sp in specs])); o = R("o <- preprocessTrainData(df); list(o$data, o$metadata$feature_types, o$metadata$original_var_indices, dim(o$data), typeof(o$data))", _reset=True, df=df)
    # the stored level order is the one of the indicator columns: read it back and check it lists each training category once
    ul = R("lapply(o$metadata$unordered_unique_levels, as.character)") or {}; k = 0
    for nm, sp in zip(names, specs):
        if sp["kind"] == "cat": sp["seen"] = list(ul[nm]); c.check(sorted(sp["seen"]) == sorted(set(sp["v"])), "levels", lambda: "column %s: stored levels %s, training categories %s" % (nm, sp["seen"], sorted(set(sp["v"]))))
    E, ty, og = expect(specs, [sp["v"] for sp in specs], n); got = o[0]
    c.check([int(x) for x in o[3]] == list(E.shape), "shape", lambda: "encoded training data is %s, expected %s" % (o[3], E.shape)); c.check(np.array_equal(mat(got, n), E), "train", lambda: "training data encoded as %s, expected %s" % (np.asarray(got).tolist(), E.tolist()))
    c.check([int(x) for x in np.atleast_1d(o[1])] == ty, "types", lambda: "feature types %s, expected %s" % (o[1], ty)); c.check([int(x) for x in np.atleast_1d(o[2])] == og, "origins", lambda: "original variables %s, expected %s" % (o[2], og))
    # the training rows, in any selection and column order, under the stored metadata
    m = s.pick([1, n, 3]); idx = r.integers(0, n, m); cols = [int(i) for i in r.permutation(p)]; extra = s.chance(1, 4)
    R("nd <- df[i, j, drop = FALSE]; if (x) nd$unrelated <- seq_along(i); NULL", i=Ints([int(i) + 1 for i in idx]), j=Ints([j + 1 for j in cols]), x=extra)
    g = R("preprocessPredictionData(nd, o$metadata)"); c.check(np.array_equal(mat(g, m), E[idx]), "rows", lambda: "rows %s of the training data encoded as %s, expected %s" % (idx.tolist(), np.asarray(g).tolist(), E[idx].tolist()))
    # new data
    m = s.pick([1, 2, 4, 7]); uns = s.chance(1, 2); nv = [newcol(s, r, m, sp, k, uns) for sp, k in zip(specs, kinds)]; nd = Frame(zip(names, [a for a, _ in nv])); E2, _, _ = expect(specs, [a if b is None else b for a, b in nv], m)
    if s.chance(1, 4) and len(nd) > 1: nd = Frame(reversed(list(nd.items())))
    g = R("suppressWarnings(preprocessPredictionData(nd, o$metadata))", nd=nd); c.check(np.array_equal(mat(g, m), E2), "new", lambda: "new data %s encoded as %s, expected %s" % ([b if b is not None else a.tolist() for a, b in nv], np.asarray(g).tolist(), E2.tolist()))
    # row by row: the encoding of a row does not depend on the other rows
    i = s.raw(m); g1 = R("suppressWarnings(preprocessPredictionData(nd[i, , drop = FALSE], o$metadata))", i=i + 1); c.check(np.array_equal(mat(g1, 1), E2[i:i + 1]), "row-by-row", lambda: "row %d alone is encoded as %s, expected %s" % (i, np.asarray(g1).tolist(), E2[i].tolist()))
    # metadata survives encoding
    g = R("preprocessPredictionData(df, o$metadata)"); c.check(np.array_equal(mat(g, n), E), "again", "encoding the training data again with the stored metadata gives something else")
    c.count("unseen", uns); c.nontrivial = len({sp["kind"] for sp in specs}) > 1 or uns


def matrix_case(s, c, r, n, p):
    X = r.integers(-3, 3, (n, p)) if s.chance(1, 3) else np.round(r.normal(size=(n, p)), 3); c.note("matrix %s %d x %d" % (X.dtype, n, p)); c.count("matrix")
    o = R("o <- preprocessTrainData(X); list(o$data, o$metadata$feature_types, o$metadata$original_var_indices)", _reset=True, X=X)
    c.check(np.array_equal(mat(o[0], n), X), "matrix", "matrix covariates changed"); c.check(list(np.atleast_1d(o[1])) == [0] * p and list(np.atleast_1d(o[2])) == list(range(1, p + 1)), "types", "types %s origins %s" % (o[1], o[2]))
    m = s.pick([1, 2, 5]); X2 = np.round(r.normal(size=(m, p)), 3); g = R("preprocessPredictionData(X2, o$metadata)", X2=X2); c.check(np.array_equal(mat(g, m), X2), "matrix", "new matrix covariates changed")
    try: R("preprocessPredictionData(X3, o$metadata)", X3=np.zeros((2, p + 1))); bad = True
    except RError: bad = False
    c.check(not bad, "matrix-width", "new data with another number of columns is accepted")
    d = R("d <- createForestDataset(o$data); c(d$num_observations(), d$num_covariates())"); c.check([int(x) for x in d] == [n, p], "dataset", "a dataset built from the encoded matrix has dimensions %s" % d)


@prop("P23cov", "ordered and unordered columns present")
def P23cov(s, c):
    """createForestCovariates / createForestCovariatesFromMetadata: caller names the categorical columns"""
    r = s.sub(); n = s.pick([2, 4, 9]); p = s.range(1, 4); asmat = s.chance(1, 2); kinds = [s.pick(["num", "ord", "cat"]) for _ in range(p)]; V = [np.round(r.normal(size=n), 2) if k == "num" else r.integers(0, s.pick([1, 2, 3, 4]), n).astype(float) * s.pick([1, 1, 5]) + s.pick([0, 1]) for k in kinds]
    names = ["x%d" % (i + 1) for i in range(p)]; oc = [names[i] for i in range(p) if kinds[i] == "ord"]; uc = [names[i] for i in range(p) if kinds[i] == "cat"]; byidx = asmat and s.chance(1, 2)
    D = np.column_stack(V) if asmat else Frame(zip(names, V)); f = lambda v: None if not v else Ints([names.index(x) + 1 for x in v]) if byidx else list(v)
    c.note("n=%d %s %s" % (n, kinds, "matrix" if asmat else "frame")); o = R("o <- createForestCovariates(D, oc, uc); list(o$data, o$metadata$feature_types)", _reset=True, D=D, oc=f(oc), uc=f(uc))
    lev = {nm: sorted(set(v)) for nm, v in zip(names, V)}

    def enc(vals, m):
        out = [vals[i] for i in range(p) if kinds[i] == "num"] + [np.array([lev[names[i]].index(x) + 1 if x in lev[names[i]] else len(lev[names[i]]) + 1 for x in vals[i]], dtype=float) for i in range(p) if kinds[i] == "ord"]; ty = [0] * kinds.count("num") + [1] * kinds.count("ord")
        for i in range(p):
            if kinds[i] != "cat": continue
            ls = sorted(set(V[i]), key=lambda x: x)
            out += [(vals[i] == w).astype(float) for w in ls] + [np.array([x not in ls for x in vals[i]], dtype=float)]; ty += [1] * (len(ls) + 1)
        return np.column_stack(out), ty
    E, ty = enc(V, n); c.check(np.array_equal(mat(o[0], n), E), "train", lambda: "encoded as %s, expected %s" % (np.asarray(o[0]).tolist(), E.tolist())); c.check([int(x) for x in np.atleast_1d(o[1])] == ty, "types", "feature types %s, expected %s" % (o[1], ty))
    m = s.pick([1, 3]); V2 = [np.round(r.normal(size=m), 2) if k == "num" else v[r.integers(0, n, m)] if s.chance(1, 2) else v[r.integers(0, n, m)] + s.pick([0, 0, 7]) for k, v in zip(kinds, V)]; D2 = np.column_stack(V2) if asmat else Frame(zip(names, V2)); E2, _ = enc(V2, m)
    g = R("suppressWarnings(createForestCovariatesFromMetadata(D2, o$metadata))", D2=D2); c.check(np.array_equal(mat(g, m), E2), "new", lambda: "new data %s encoded as %s, expected %s" % ([v.tolist() for v in V2], np.asarray(g).tolist(), E2.tolist())); c.nontrivial = bool(oc and uc)


if __name__ == "__main__": pbt.main()
