"""P27: inputs that disagree with each other or with the fitted model are rejected."""
import numpy as np, pandas as pd
import pbt
from pbt import prop, Discard
from common import *
from stochtree import BARTModel, BCFModel, NotSampledError
import bart_props, bcf_props


def more_rows(a, k=1): return pd.concat([a, a.iloc[:k]], ignore_index=True) if isinstance(a, pd.DataFrame) else np.concatenate([a, a[:k]])
def fewer_rows(a): return a.iloc[:-1] if isinstance(a, pd.DataFrame) else a[:-1]
def rows(s, a): return fewer_rows(a) if len(a) > 1 and s.chance(1, 2) else more_rows(a, s.range(1, min(3, len(a))))


def ncol(a): return a.shape[1] if getattr(a, "ndim", 1) == 2 else 1
def cols(s, a):
    """one or more columns more or fewer"""
    if isinstance(a, pd.DataFrame):
        if a.shape[1] > 1 and s.chance(1, 2): return a.drop(columns=[a.columns[s.raw(a.shape[1])]])
        b = a.copy(); b["extra"] = np.arange(len(a), dtype=float); return b
    m = np.asarray(a).reshape(len(a), -1)
    if m.shape[1] > 1 and s.chance(2, 3): k = s.range(1, m.shape[1] - 1); m = m[:, :k]; return m[:, 0] if k == 1 and s.chance(1, 2) else m
    return np.column_stack([m] + [m[:, :1]] * s.range(1, 3))


def wrong_type(s, a): return s.pick([lambda: np.asarray(a).tolist(), lambda: pd.Series(np.asarray(a).reshape(len(a), -1)[:, 0]), lambda: "data"])()


POS, COUNT, UNIT = [0, -0.5, -3, "1", [1.0]], [-1, 1.5, "3"], [0.0, 1.0, -0.25, 1.5, "0.5"]
SCALARS = dict(alpha_mu=UNIT, alpha_tau=UNIT, q=UNIT + [1], beta_mu=[0.99, 0, -1.0, "2"], beta_tau=[0.5, 0, -2.0], nu=POS, lamb=POS, a_leaf_mu=POS, a_leaf_tau=POS, b_leaf_mu=POS, b_leaf_tau=POS, sigma2=POS, sigma_leaf_mu=[0.0, -1.0, "1"], sigma_leaf_tau=["1", [1.0]],
    num_trees_mu=COUNT + [0], num_trees_tau=COUNT + [0], min_samples_leaf_mu=COUNT + [0], min_samples_leaf_tau=COUNT + [0], cutpoint_grid_size=COUNT + [0], num_gfr=COUNT, num_burnin=COUNT, num_mcmc=COUNT, random_seed=[-2, 1.5, "7"], sample_sigma_leaf_mu=[1, "yes"], sample_sigma_leaf_tau=[0, "no"], keep_burnin=[1, "yes"], keep_gfr=[0, "no"], b_0=["a", [0.0]], b_1=["b", [1.0]])


def reject(c, fn, what):
    """the call must raise; a returned value or a crash of the process is a violation"""
    try: fn()
    except Exception as x: c.count("raised_" + type(x).__name__); return x
    c.check(False, "accepted", "accepted although " + what)


@prop("P27py", "the mutated call differs from a valid call in exactly one argument and the valid call was run too")
def P27py(s, c):
    bcf = s.chance(1, 2); k = (bcf_props if bcf else bart_props).Case(s)
    if not bcf: k.kw.update(num_trees=min(3, k.kw["num_trees"]))
    M = BCFModel if bcf else BARTModel
    if bcf: base = k.args(); pred = dict(X=k.X, Z=k.Z, **({} if k.pi is None else {"propensity": k.pi}))
    else:
        base = dict(X_train=k.X, y_train=k.y, **k.kw); pred = dict(covariates=k.X)
        if k.basis is not None: base["basis_train"] = k.basis; pred["basis"] = k.basis
        if k.Xt is not None:
            base["X_test"] = k.Xt
            if k.bt is not None: base["basis_test"] = k.bt
    m = M(); x = reject(c, lambda: m.predict(**pred), "predict() was called before sample()"); c.check(isinstance(x, NotSampledError), "unsampled", lambda: "predict() before sample() raises %s instead of NotSampledError" % type(x).__name__)
    fitted = s.chance(2, 3)
    if fitted:
        m.sample(**base); P0 = m.predict(**pred); c.count("fitted")
    onpred = fitted and s.chance(1, 2); a = dict(pred if onpred else base); muts = []; add = lambda key, f, what: muts.append((key, f, what))
    X = "X" if bcf else "covariates"
    if onpred:
        add(X, lambda: cols(s, k.X), "the covariates have another number of columns than in training")
        if not isinstance(k.X, pd.DataFrame) and ncol(k.X) > 1: add(X, lambda: np.asarray(k.X)[:, 0], "a single covariate was passed to a model trained on several")
        for key, nm in (("basis", "basis"), ("Z", "treatment"), ("propensity", "propensities")):
            if key in a:
                add(key, lambda key=key: rows(s, a[key]), "covariates and %s have different numbers of rows" % nm)
                if key != "propensity" and not (bcf and m.adaptive_coding): add(key, lambda key=key: cols(s, a[key]), "the %s has another number of columns than in training" % nm)
        if bcf and m.adaptive_coding: add("Z", lambda: np.column_stack([np.asarray(k.Z).reshape(k.n, -1)] * 2), "the treatment has another number of columns than in training")
        if "basis" in a: add("basis", lambda: None, "the model was trained with a leaf basis and none was passed")
        if "propensity" in a: add("propensity", lambda: None, "the model was trained with propensities and none were passed")
    else:
        add("y_train", lambda: rows(s, k.y), "outcome and covariates have different numbers of rows"); add("X_train", lambda: rows(s, k.X), "covariates have another number of rows than outcome")
        for key in ("X_train", "y_train", "basis_train", "Z_train", "pi_train", "X_test", "Z_test", "basis_test", "pi_test"):
            if key in a: add(key, lambda key=key: wrong_type(s, a[key]), key + " is not an array or data frame")
        for key, nm in (("basis_train", "basis"), ("Z_train", "treatment"), ("pi_train", "propensities")):
            if key in a: add(key, lambda key=key: rows(s, a[key]), "%s and covariates have different numbers of rows" % nm)
        if "X_test" in a:
            add("X_test", lambda: cols(s, k.Xt), "training and test covariates have different numbers of columns")
            for key, nm in (("basis_test", "basis"), ("Z_test", "treatment"), ("pi_test", "propensities")):
                if key in a:
                    add(key, lambda key=key: rows(s, a[key]), "test %s and test covariates have different numbers of rows" % nm)
                    add(key, lambda key=key: None, "a test set was given without its %s" % nm)
                    if key != "pi_test": add(key, lambda key=key: cols(s, a[key]), "training and test %s have different numbers of columns" % nm)
            if not bcf and "basis_test" not in a: add("basis_test", lambda: np.ones(len(k.Xt)), "a test basis was given without a training basis")
        if bcf:
            p = len(k.cols.cols); f = s.pick(["keep_vars_mu", "drop_vars_mu", "keep_vars_tau", "drop_vars_tau"])
            if not any(q.endswith(f[-4:]) and "_vars_" in q for q in a): add(f, lambda: s.pick([lambda: [p], lambda: [0, p + 2], lambda: np.array([0, p]), lambda: ["no such column"], lambda: np.array(["no such column"]), lambda: [-1], lambda: [0.5], lambda: 3, lambda: "x0"])(), f + " names variables that do not exist")
            add("propensity_covariate", lambda: s.pick(["Mu", "prognostic", ""]), "propensity_covariate is not one of the documented choices")
            bad = dict(SCALARS); q = sorted(bad)[s.raw(len(bad))]; add(q, lambda: s.pick(bad[q]), "%s is outside its documented range or type" % q)
            if k.zk == "multi": add("sigma_leaf_tau", lambda: s.pick([np.ones(2), np.eye(3), np.ones((2, 3)), np.ones((1, 2))]), "sigma_leaf_tau is not a square matrix with one row per treatment")
            add("variable_weights", lambda: np.where(np.arange(p) == s.raw(p), -1.0, 1.0), "a variable weight is negative")
    if not onpred and (not bcf or s.chance(1, 4)): add("draws", lambda: 0, "no draws were requested")
    key, f, what = muts[s.raw(len(muts))]; v = f()
    if v is None: a.pop(key)
    elif key == "draws": a.update(num_gfr=0, num_burnin=0, num_mcmc=0)
    else: a[key] = v
    shape = lambda v: "%s%s" % (type(v).__name__, getattr(v, "shape", "") or repr(v)[:40]); c.note("%s %s %s: %s (valid %s, passed %s)" % (M.__name__, "predict" if onpred else "resample" if fitted else "sample", key, what, shape((pred if onpred else base).get(key)), shape(v)))
    reject(c, lambda: (m.predict if onpred else m.sample)(**a), what)
    if onpred and bcf and "Z" in a and (key != "propensity" or v is not None or k.kw["propensity_covariate"] in ("tau", "both")): reject(c, lambda: m.predict_tau(**a), "(predict_tau) " + what)
    if fitted:
        P1 = m.predict(**pred); P0, P1 = (P0, P1) if bcf else ((P0,), (P1,)); c.check(all(same(u, v) for u, v in zip(P0, P1)), "model-changed", "a rejected call changed the fitted model")
    else:
        x = reject(c, lambda: m.predict(**pred), "sample() was rejected and the model has no draws"); c.check(not m.is_sampled(), "half-fitted", "a rejected sample() call leaves a model that calls itself sampled")
    c.count("predict" if onpred else "resample" if fitted else "sample"); c.count("bcf" if bcf else "bart"); c.nontrivial = True


if __name__ == "__main__": pbt.main()
