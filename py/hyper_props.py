"""P28 (Python): hyperparameters of BARTModel / BCFModel act as documented."""
import numpy as np, pandas as pd
from scipy import stats
import pbt
from pbt import prop, Discard
from common import *
from stochtree import BARTModel, BCFModel


def data(s, cont_only=False):
    n = s.pick([12, 20, 35, 60]); cols = Cols(s, pmax=3); r = s.sub(); X = np.round(r.normal(size=(n, s.range(1, 3))), 3) if cont_only or s.chance(1, 3) else cols.make(r, n, cover=True); y = outcome(s, r, X, n)
    if np.std(y) < 1e-3: raise Discard()
    return n, r, X, y


@prop("P28py", "some tree splits and some limit (leaf size above one, depth, grid) is in force", timeout=120)
def P28py(s, c):
    bcf = s.chance(1, 2); n, r, X, y = data(s); g, b, N = s.range(0, 4), s.range(0, 2), s.range(1, 6); grid = s.pick([1, 2, 3, 5, 100]); kw = dict(X_train=X, y_train=y, num_gfr=g, num_burnin=b, num_mcmc=N, cutpoint_grid_size=grid, random_seed=s.seed() % 100000, sigma2=s.pick([1.0, 0.5]), sample_sigma_global=False, lamb=0.5)
    if not bcf:
        kind, limit = s.pick(PRIORS); al, be = prior_kw(s, kind); T, ml = s.pick([1, 3, 10, 25]), s.pick([1, 2, 3, 5, 8]); kw.update(alpha=al, beta=be, num_trees=T, min_samples_leaf=ml); nb = s.pick([0, 0, 1, 2])
        if nb: kw["basis_train"] = np.round(r.normal(size=(n, nb)) + 1, 2)
        kw["sample_sigma_leaf"] = nb < 2 and s.chance(1, 2)
        if s.chance(1, 4): del kw["num_trees"]; T = 200; kw.update(num_gfr=min(g, 1), num_burnin=0, num_mcmc=1); g = kw["num_gfr"]
        if s.chance(1, 4): del kw["min_samples_leaf"]; ml = 5
        c.note("BART n=%d %s" % (n, {q: v for q, v in kw.items() if not isinstance(v, (np.ndarray, pd.DataFrame))})); m = BARTModel(); m.sample(**kw); parts = [(m.forest_container, T, ml, limit, kind, "the")]; c.check(not hasattr(m, "global_var_samples") or np.size(m.global_var_samples) == 0, "fixed", "an error variance trace exists although it was not sampled")
    else:
        (k1, l1), (k2, l2) = s.pick(PRIORS), s.pick(PRIORS); a1, b1 = prior_kw(s, k1); a2, b2 = prior_kw(s, k2); T1, T2, m1, m2 = s.pick([1, 3, 10]), s.pick([1, 2, 8]), s.pick([1, 2, 4, 7]), s.pick([1, 2, 4, 7]); Z = s.pick([lambda: r.integers(0, 2, n).astype(float), lambda: np.round(r.normal(size=n), 2), lambda: np.round(r.normal(size=(n, 2)), 2)])()
        if Z.ndim == 1: Z[:2] = [0, 1]
        kw.update(Z_train=Z, alpha_mu=a1, alpha_tau=a2, beta_mu=b1, beta_tau=b2, num_trees_mu=T1, num_trees_tau=T2, min_samples_leaf_mu=m1, min_samples_leaf_tau=m2, sample_sigma_leaf_mu=s.chance(1, 2), sample_sigma_leaf_tau=s.chance(1, 2), propensity_covariate=s.pick(["none", "mu", "tau", "both"]), adaptive_coding=s.chance(1, 2))
        if kw["propensity_covariate"] != "none": kw["pi_train"] = np.round(r.uniform(0.1, 0.9, n), 3)
        if s.chance(1, 5): del kw["num_trees_mu"]; T1 = 200; kw.update(num_gfr=min(g, 1), num_burnin=0, num_mcmc=1); g = kw["num_gfr"]
        if s.chance(1, 5): del kw["num_trees_tau"]; T2 = 50; kw.update(num_gfr=min(g, 1), num_burnin=0, num_mcmc=1); g = kw["num_gfr"]
        if s.chance(1, 4): del kw["min_samples_leaf_mu"]; m1 = 5
        if s.chance(1, 4): del kw["min_samples_leaf_tau"]; m2 = 5
        c.note("BCF n=%d %s" % (n, {q: v for q, v in kw.items() if not isinstance(v, (np.ndarray, pd.DataFrame))})); m = BCFModel(); m.sample(**kw); parts = [(m.forest_container_mu, T1, m1, l1, k1, "prognostic"), (m.forest_container_tau, T2, m2, l2, k2, "treatment")]
    E = m._covariate_transformer.transform(X); numeric = [int(q) == 0 for q in m._covariate_transformer._processed_feature_types] + [True]
    if bcf and kw["propensity_covariate"] != "none": E = np.c_[E, kw["pi_train"]]
    ns = 0
    for fc, T, ml, limit, kind, tag in parts:
        cont = container_json(fc); shape_check(c, cont, E, T, ml, limit, tag); k = grid_check(c, cont, range(g), grid, numeric, tag); c.count("grid_limit_reached", 0 < k and k == grid - 1); ns += num_splits(cont); c.count("prior_" + kind)
    c.count("bcf", bcf); c.count("splits", ns); c.nontrivial = ns > 0


DOC_BART = dict(cutpoint_grid_size=100, alpha=0.95, beta=2.0, min_samples_leaf=5, nu=3, a_leaf=3, q=0.9, num_trees=200, num_gfr=5, num_burnin=0, num_mcmc=100, sample_sigma_global=True, sample_sigma_leaf=True, keep_burnin=False, keep_gfr=False)
DOC_BCF = dict(cutpoint_grid_size=100, alpha_mu=0.95, alpha_tau=0.25, beta_mu=2.0, beta_tau=3.0, min_samples_leaf_mu=5, min_samples_leaf_tau=5, nu=3, a_leaf_mu=3, a_leaf_tau=3, q=0.9, num_trees_mu=200, num_trees_tau=50, num_gfr=5, num_burnin=0, num_mcmc=100, sample_sigma_global=True, sample_sigma_leaf_mu=True, sample_sigma_leaf_tau=False, propensity_covariate="mu", adaptive_coding=True, b_0=-0.5, b_1=0.5, keep_burnin=False, keep_gfr=False)


@prop("P28pyd", "the model has splits", timeout=120)
def P28pyd(s, c):
    """leaving an argument out is the same as passing its documented default; every other argument is free"""
    bcf = s.chance(1, 2); n, r, X, y = data(s, True); doc = DOC_BCF if bcf else DOC_BART; alt = dict(cutpoint_grid_size=[3, 10], alpha=[0.5], beta=[1.0], alpha_mu=[0.5], alpha_tau=[0.8], beta_mu=[1.0], beta_tau=[1.0], min_samples_leaf=[1, 2], min_samples_leaf_mu=[1, 2], min_samples_leaf_tau=[1, 2], nu=[1.5, 0.7], a_leaf=[1.5], a_leaf_mu=[1.5], a_leaf_tau=[1.5], q=[0.5], num_trees=[3, 8], num_trees_mu=[3, 8], num_trees_tau=[2, 4], num_gfr=[0, 2, 3], num_burnin=[1, 2], num_mcmc=[2, 4],
        sample_sigma_global=[False], sample_sigma_leaf=[False], sample_sigma_leaf_mu=[False], sample_sigma_leaf_tau=[True], propensity_covariate=["none", "both", "tau"], adaptive_coding=[False], b_0=[0.0], b_1=[1.0], keep_burnin=[True], keep_gfr=[True])
    test = s.pick(sorted(doc)); base = {}
    for q in sorted(doc):
        if q == test: continue
        if q in ("num_mcmc", "num_gfr", "num_trees", "num_trees_mu", "num_trees_tau") or s.chance(1, 3): base[q] = s.pick(alt[q])
    if test == "num_mcmc": base.update({q: 2 for q in base if q.startswith("num_trees")})
    base.update(X_train=X, y_train=y, random_seed=s.seed() % 100000)
    if bcf:
        base["Z_train"] = r.integers(0, 2, n).astype(float); base["Z_train"][:2] = [0, 1]
        if base.get("propensity_covariate", "mu") != "none": base["pi_train"] = np.round(r.uniform(0.1, 0.9, n), 3)
    elif s.chance(1, 3): base["basis_train"] = np.round(r.normal(size=n) + 1, 2)
    c.note("%s n=%d omitted %s %s" % ("BCF" if bcf else "BART", n, test, {q: v for q, v in base.items() if not isinstance(v, np.ndarray)})); out = []
    for kw in (base, dict(base, **{test: doc[test]})):
        m = (BCFModel if bcf else BARTModel)(); m.sample(**kw); out.append(m)
    m, m2 = out; c.check(m.y_hat_train.shape == m2.y_hat_train.shape and same(m.y_hat_train, m2.y_hat_train), "default", lambda: "leaving out %s is not the same as passing its documented default %s (shapes %s, %s)" % (test, doc[test], m.y_hat_train.shape, m2.y_hat_train.shape))
    for nm in ("global_var_samples", "leaf_scale_samples", "leaf_scale_mu_samples", "leaf_scale_tau_samples", "b0_samples", "b1_samples"):
        c.check(hasattr(m, nm) == hasattr(m2, nm), "default", "trace %s exists only with or without %s" % (nm, test))
        if hasattr(m, nm): c.check(same(getattr(m, nm), getattr(m2, nm)), "default", "trace %s differs when %s is left out or passed as its documented default" % (nm, test))
    c.count(test); c.count("bcf", bcf); c.nontrivial = bool(np.any(m.y_hat_train[0] != m.y_hat_train))


@prop("P28pyl", ">= 200 leaf draws tested and some tree splits", timeout=120)
def P28pyl(s, c):
    """given tree, other trees and variances, every leaf parameter is a draw from its Gaussian full conditional"""
    n = s.range(5, 16); r = s.sub(); p = s.range(1, 2); X = np.round(r.normal(size=(n, p)), 2); bcf = s.chance(1, 2); g, b, N = s.pick([0, 0, 2, 20]), s.pick([0, 2]), s.pick([60, 120]); s2 = s.pick([1.0, 0.1, 0.4]); y = s.pick([0.0, 2.0]) * (X[:, 0] > 0) + r.normal(size=n)
    kw = dict(X_train=X, y_train=y, num_gfr=g, num_burnin=b, num_mcmc=N, random_seed=s.seed() % 100000, lamb=s.pick([0.3, 1.0]), sigma2=s2, keep_gfr=False)
    wide = s.chance(1, 3)
    if wide: g, b, N = s.pick([0, 1, 2]), s.pick([0, 1, 2]), s.range(1, 3); s2 = s.pick([25.0, 1.0, 0.01]); kw.update(num_gfr=g, num_burnin=b, num_mcmc=N, sigma2=s2); tot = g + b + N
    if n >= p + 4 and s.chance(1, 2): del kw["lamb"]          # calibrated on a regression
    auto = n >= p + 4 and s.chance(1, 6)
    if auto: del kw["sigma2"]
    sd = np.std(y); e = (y - np.mean(y)) / sd; tot = g + b + N; ns = 0; res = {}
    trace = lambda v, init: (lambda i: init if i == 0 else v[i - 1])

    def start(e):
        A = np.c_[np.ones(n), X]; c.count("calibrated"); return float(np.mean((e - A @ np.linalg.lstsq(A, e, rcond=None)[0]) ** 2))
    if not bcf:
        if auto: s2 = start(e)
        nb = s.pick([0, 0, 1, 2, 3]); T = s.pick([40, 80]) if wide else s.pick([1, 2, 4]); kw.update(num_trees=T, min_samples_leaf=s.pick([1, 2]), sigma_leaf=s.pick([0.05, 0.3, 1.0]), sample_sigma_global=s.chance(3, 4) if wide else s.chance(1, 2), sample_sigma_leaf=nb < 2 and s.chance(1, 2), alpha=s.pick([0.95, 0.5])); W = None
        if wide and kw["sample_sigma_leaf"]: steer(s, kw, "")
        if nb: W = kw["basis_train"] = np.round(r.normal(size=(n, nb)) + s.pick([0, 1]), 2)
        c.note("BART n=%d basis=%d %s" % (n, nb, {q: v for q, v in kw.items() if not isinstance(v, np.ndarray)})); m = BARTModel(); m.sample(**kw); cont = container_json(m.forest_container); d = max(1, nb); ns = num_splits(cont)
        v = trace(m.global_var_samples / sd**2, s2) if kw["sample_sigma_global"] else lambda i: s2; S = trace(m.leaf_scale_samples, kw["sigma_leaf"]) if kw["sample_sigma_leaf"] else lambda i: kw["sigma_leaf"]
        res["the"] = leaf_law(cont, X, None if W is None else lambda i: W, np.repeat(e[:, None], tot, axis=1), v, lambda i: np.eye(d) * S(i))
    else:
        zk = s.pick(["binary", "binary", "cont", "multi"]); Z = r.integers(0, 2, n).astype(float) if zk == "binary" else np.round(r.normal(size=n), 1) if zk == "cont" else np.round(r.normal(size=(n, 2)), 1); d = 2 if zk == "multi" else 1
        if zk == "binary": Z[:2] = [0, 1]
        y = y + 1.5 * Z.reshape(n, -1)[:, 0]; sd = np.std(y); e = (y - np.mean(y)) / sd; lt = s.pick([0.05, 0.5])
        if auto: s2 = start(e)
        kw.update(y_train=y, Z_train=Z, num_trees_mu=s.pick([40, 80]) if wide else s.pick([1, 2, 4]), num_trees_tau=s.pick([40, 60]) if wide else s.pick([1, 2, 3]), min_samples_leaf_mu=s.pick([1, 2]), min_samples_leaf_tau=s.pick([1, 2]), sigma_leaf_mu=s.pick([0.05, 0.3, 1.0]), sigma_leaf_tau=lt, sample_sigma_global=s.chance(1, 3), sample_sigma_leaf_mu=s.chance(1, 2), sample_sigma_leaf_tau=d == 1 and s.chance(1, 2), alpha_tau=0.95, beta_tau=2.0, propensity_covariate="none", adaptive_coding=s.chance(2, 3), b_0=s.pick([-0.5, 0.0]), b_1=s.pick([0.5, 1.0]))
        for q in ("mu", "tau"):
            if wide and kw["sample_sigma_leaf_" + q]: steer(s, kw, "_" + q)
        St = np.eye(d) * lt
        if d == 2 and s.chance(1, 2): o = s.pick([0.3, 1.3, -1.3]); St = np.array([[lt, o * lt], [o * lt, 2 * lt]]); kw["sigma_leaf_tau"] = St.copy()
        c.note("BCF n=%d Z=%s %s" % (n, zk, {q: v for q, v in kw.items() if not isinstance(v, np.ndarray)})); m = BCFModel(); m.sample(**kw); cm, ct = container_json(m.forest_container_mu), container_json(m.forest_container_tau); ns = num_splits(cm) + num_splits(ct); zz = Z.reshape(n, -1)
        if m.adaptive_coding: q0, q1 = np.r_[kw["b_0"], m.b0_samples[:-1]], np.r_[kw["b_1"], m.b1_samples[:-1]]; B = lambda i: (1 - zz) * q0[i] + zz * q1[i]       # coding in force while the forests of draw i are sampled
        else: B = lambda i: zz
        mu = ref_forest(cm, X, None)[0]; raw = ref_forest(ct, X, np.ones((n, d)))[1]; fixed = not kw["sample_sigma_global"]
        # the prognostic forest of draw i is sampled against the treatment forest of draw i-1 under the coding of draw i-1 (in force at i)
        rm = np.column_stack([e - (np.sum(raw[:, i - 1] * B(i), axis=1) if i else 0.0) for i in range(tot)]); v = (lambda i: s2) if fixed else trace(m.global_var_samples / sd**2, s2)
        Sm = trace(m.leaf_scale_mu_samples, kw["sigma_leaf_mu"]) if kw["sample_sigma_leaf_mu"] else lambda i: kw["sigma_leaf_mu"]; res["prognostic"] = leaf_law(cm, X, None, rm, v, lambda i: np.eye(1) * Sm(i))
        if fixed:
            Tt = trace(m.leaf_scale_tau_samples, lt) if kw["sample_sigma_leaf_tau"] else None; res["treatment"] = leaf_law(ct, X, B, e[:, None] - mu, v, (lambda i: np.eye(1) * Tt(i)) if Tt else (lambda i: St))
        c.count("coded", bool(m.adaptive_coding))
    tested = sum(leaf_check(c, U, tag) for tag, U in res.items())
    c.count("bcf", bcf); c.nontrivial = ns > 0 and tested >= 200


@prop("P28pyt", "at least two frequencies tested", timeout=120)
def P28pyt(s, c):
    """with leaf values fixed near zero the posterior over trees is the split prior: frequencies of splits and of split variables"""
    bcf = s.chance(3, 4); n = 250; r = s.sub(); p = s.range(1, 4); factor = bcf and s.chance(1, 2); X = np.round(r.normal(size=(n, p)), 3); kinds = ["num"] * p
    if factor:
        kinds = [s.pick(["num", 2, 3, 4]) for _ in range(p)]; X = pd.DataFrame({"x%d" % j: X[:, j] if k == "num" else pd.Categorical(np.array(list("abcd"))[r.integers(0, k, n)], categories=list("abcd")[:k]) for j, k in enumerate(kinds)})
    owner = [j for j, k in enumerate(kinds) for _ in range(1 if k == "num" else k)]; pr = [(0.5, 6.0), (0.8, 7.0)] if factor else SPLIT; N = s.pick([1200, 2400]); g = s.pick([0, 100]); kw = dict(X_train=X, y_train=r.normal(size=n), num_gfr=g, num_mcmc=N, sample_sigma_global=s.chance(1, 4), sigma2=1.0, lamb=0.5, random_seed=s.seed() % 100000, keep_gfr=s.chance(1, 2)); D = range(g, g + N)
    if not bcf:
        a, b = s.pick(pr); kw.update(num_trees=s.pick([2, 4]), alpha=a, beta=b, min_samples_leaf=1, sigma_leaf=1e-12, sample_sigma_leaf=False)
        def go(kw): m = BARTModel(); m.sample(**kw); return prior_tests(container_json(m.forest_container), D, range(g), a, b, owner, {j: 1.0 for j in range(p)})
    else:
        a1, b1 = s.pick(pr); a2, b2 = s.pick(pr); w = {j: 1.0 for j in range(p)}; pc = s.pick(["none", "mu", "tau", "both"]); Z = r.integers(0, 2, n).astype(float) if s.chance(1, 2) else np.round(r.normal(size=n), 2)
        kw.update(Z_train=Z, num_trees_mu=s.pick([2, 4]), num_trees_tau=s.pick([2, 3]), alpha_mu=a1, beta_mu=b1, alpha_tau=a2, beta_tau=b2, min_samples_leaf_mu=1, min_samples_leaf_tau=1, sigma_leaf_mu=1e-12, sigma_leaf_tau=1e-12, sample_sigma_leaf_mu=False, sample_sigma_leaf_tau=False, propensity_covariate=pc, adaptive_coding=s.chance(1, 2))
        if s.chance(2, 3): v = np.array([s.pick([1.0, 2.0, 0.5, 5.0]) for _ in range(p)]); w = dict(enumerate(v)); kw["variable_weights"] = v
        wm, wt = dict(w), dict(w)
        for tag, ww in (("mu", wm), ("tau", wt)):
            if p > 1 and s.chance(1, 3):
                j = s.raw(p); kw["drop_vars_" + tag] = [j]; ww[j] = 0.0
        if pc != "none": kw["pi_train"] = np.round(r.uniform(0.1, 0.9, n), 3); owner = owner + [p]; wm[p] = wt[p] = None
        def go(kw): m = BCFModel(); m.sample(**kw); return {tag + " forest: " + q: v for tag, fc, a, b, ww in (("prognostic", m.forest_container_mu, a1, b1, wm), ("treatment", m.forest_container_tau, a2, b2, wt)) for q, v in prior_tests(container_json(fc), D, range(g), a, b, owner, ww).items()}
    c.note("%s n=%d %s kinds=%s" % ("BCF" if bcf else "BART", n, {q: v for q, v in kw.items() if q not in ("X_train", "y_train", "Z_train", "pi_train")}, kinds)); k = settle(c, go, kw); c.count("bcf", bcf); c.count("factor", factor); c.nontrivial = k >= 2


if __name__ == "__main__": pbt.main()
