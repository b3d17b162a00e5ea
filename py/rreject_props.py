"""P27, R interface: inputs that disagree with each other or with the fitted model are rejected."""
import numpy as np
import pbt, rlink
from pbt import prop, Discard
from rmodel import *
import rbart_props, rbcf_props

if rlink.before_fork not in pbt.PRE_FORK: pbt.PRE_FORK.append(rlink.before_fork)


def nrows(a): return nrows(next(iter(a.values()))) if isinstance(a, Frame) else len(a.codes) if isinstance(a, Factor) else len(a)


def pick_rows(a, idx):
    if isinstance(a, Frame): return Frame({k: pick_rows(v, idx) for k, v in a.items()})
    if isinstance(a, Factor): return Factor([a.codes[i] for i in idx], a.levels, a.ordered)
    return type(a)([a[i] for i in idx]) if isinstance(a, list) else a[idx]


def rows(s, a):
    n = nrows(a); return pick_rows(a, list(range(n - 1))) if n > 1 and s.chance(1, 2) else pick_rows(a, list(range(n)) + list(range(s.range(1, min(3, n)))))


def cols(s, a):
    if isinstance(a, Frame): k = list(a)[s.raw(len(a))]; return Frame({q: v for q, v in a.items() if q != k}) if len(a) > 1 else Frame({"other": a[k]})      # columns a frame has in excess are ignored
    m = np.asarray(a).reshape(nrows(a), -1)
    if m.shape[1] > 1 and s.chance(2, 3): return m[:, :s.range(1, m.shape[1] - 1)]
    return np.column_stack([m] + [m[:, :1]] * s.range(1, 3))


def reject(c, code, what, **v):
    try: R(code, **v)
    except RError: c.count("raised"); return
    c.check(False, "accepted", "accepted although " + what)


@prop("P27r", "the mutated call differs from a valid call in exactly one argument and the valid call was run too", timeout=120)
def P27r(s, c):
    bcf = s.chance(1, 2); k = (rbcf_props if bcf else rbart_props).Case(s); fn = "bcf" if bcf else "bart"; base = k.args(); n = k.n
    if bcf: pred = k.pargs(k.cols.X, k.Z, k.pi, k.gr.g if k.rfx else None, k.B)
    else:
        pred = dict(X_test=k.cols.X)
        if k.W is not None: pred["W_test"] = k.basis(k.W)
        if k.rfx:
            pred["group_ids_test"] = k.gr.rv()
            if k.nc: pred["rfx_basis_test"] = k.rbasis(k.B)
    k.run(reset=True); P0 = R("do.call(predict, c(list(m), a))", a=pred)
    onpred = s.chance(1, 2); a = dict(pred if onpred else base); muts = []; add = lambda key, f, what: muts.append((key, f, what)); dat = [q for q in a if a[q] is not None]
    unseen = lambda v: Ints(list(v[:-1]) + [77777]) if k.gr.form == "int" else np.r_[v[:-1], 77777.0] if k.gr.form == "double" else Factor(list(v.codes[:-1]) + [len(v.levels) + 1], list(v.levels) + ["never"]) if k.gr.form == "factor" else list(v[:-1]) + ["never"]
    nice = {"W": "basis", "Z": "treatment", "pi": "propensities", "group_ids": "group labels", "rfx_basis": "random-effects basis"}
    def perrow(suffix, who):
        for stem, nm in nice.items():
            key = stem + suffix
            if key in a:
                add(key, lambda key=key: rows(s, a[key]), "%s and %s have different numbers of rows" % (nm, who))
                if suffix == "_test" and stem in ("W", "Z", "rfx_basis"): add(key, lambda key=key: cols(s, a[key]), "the %s has another number of columns than in training" % nm)
                if suffix == "_test" and not (stem == "group_ids" and not onpred) and (stem != "pi" or k.pc != "none"): add(key, lambda key=key: None, "no %s was given though the model has one" % nm)
        if "Z" + suffix in a:
            zv = [float(q) for q in np.asarray(a["Z" + suffix], dtype=float).ravel()]; lv = sorted(set(zv))
            add("Z" + suffix, lambda: s.pick([lambda: Factor([lv.index(q) + 1 for q in zv], ["%g" % q for q in lv]), lambda: ["%g" % q for q in zv]])(), "the treatment is not numeric")
            add("Z" + suffix, lambda: np.column_stack([zv, s.pick([zv, [1.0] * len(zv), zv[::-1]])]), "the treatment has two columns")
        if "group_ids" + suffix in a and suffix == "_test": add("group_ids_test", lambda: unseen(a["group_ids_test"]), "a group was never seen in training")
    if onpred or "X_test" in a:
        add("X_test", lambda: cols(s, a["X_test"]), "the covariates have another number of columns than in training"); add("X_test", lambda: s.pick([lambda: [1.0, 2.0, 3.0], lambda: "data", lambda: L([1.0, 2.0])])(), "the covariates are neither a matrix nor a data frame"); perrow("_test", "covariates")
    if not onpred:
        add("y_train", lambda: rows(s, a["y_train"]), "outcome and covariates have different numbers of rows"); add("X_train", lambda: rows(s, a["X_train"]), "covariates have another number of rows than the outcome"); perrow("_train", "covariates")
        add("X_train", lambda: s.pick([lambda: [1.0, 2.0, 3.0], lambda: "data", lambda: L([1.0, 2.0])])(), "the covariates are neither a matrix nor a data frame"); p = k.cols.p
        yv = [float(q) for q in np.asarray(a["y_train"], dtype=float).ravel()]; yl = sorted(set(yv))
        add("y_train", lambda: s.pick([lambda: Factor([yl.index(q) + 1 for q in yv], ["%r" % q for q in yl]), lambda: ["%r" % q for q in yv]])(), "the outcome is not numeric")
        add("variable_weights", lambda: np.where(np.arange(p) == s.raw(p), -1.0, 1.0), "a variable weight is negative")
        add("variable_weights", lambda: np.ones(p + s.pick([1, -1] if p > 1 else [1])), "the number of variable weights is not the number of covariates")
        if bcf:
            f = s.pick(["keep_vars_mu", "drop_vars_mu", "keep_vars_tau", "drop_vars_tau"])
            if not any(q.endswith(f[-4:]) and "_vars_" in q for q in a): add(f, lambda: s.pick([lambda: p + 1, lambda: Ints([1, p + 3]), lambda: "no such column", lambda: -1])(), f + " names variables that do not exist")
            add("propensity_covariate", lambda: s.pick(["Mu", "prognostic"]), "propensity_covariate is not one of the documented choices")
        elif k.nb > 1: add("sample_tau", lambda: True, "sampling the leaf scale is not supported for several basis columns")
    key, f, what = muts[s.raw(len(muts))]; v = f()
    if v is None: a.pop(key)
    else: a[key] = v
    c.note("%s %s: %s; %s" % ("predict." + fn if onpred else fn, key, what, k))
    reject(c, "do.call(predict, c(list(m), a))" if onpred else "do.call(%s, a)" % fn, "%s(%s): %s" % ("predict" if onpred else fn, key, what), a=a)
    P1 = R("do.call(predict, c(list(m), a))", a=pred); c.check(set(P0) == set(P1) and all(same(P0[q], P1[q]) for q in P0), "model-changed", "a rejected call changed the fitted model"); c.count("predict" if onpred else "sample"); c.count(fn); c.nontrivial = True


if __name__ == "__main__": pbt.main()
