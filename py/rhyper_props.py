"""P28 (R): hyperparameters of bart() / bcf() act as documented."""
import numpy as np
from scipy import stats
import pbt, rlink
from pbt import prop, Discard
from rmodel import *
from common import steer, normal_p, pit_p, ig_pit, leaf_law, leaf_check, shape_check, grid_check, prior_kw, PRIORS, SPLIT, settle, prior_tests

if rlink.before_fork not in pbt.PRE_FORK: pbt.PRE_FORK.append(rlink.before_fork)


def show(kw): return {q: v for q, v in kw.items() if not isinstance(v, np.ndarray) and not q.startswith("X_") and q != "group_ids_train"}


@prop("P28r", "some tree splits and some limit (leaf size above one, depth, grid) is in force", timeout=120)
def P28r(s, c):
    bcf = s.chance(1, 2); n = s.pick([12, 20, 35, 60]); r = s.sub(); cols = RCols(s, r, n, 3); V = cols.view(); y = s.pick([0.0, 2.0]) * (V[:, 0] > np.median(V[:, 0])) + r.normal(size=n) * s.pick([1.0, 0.3]); g, b, N = s.range(0, 4), s.range(0, 2), s.range(1, 6); grid = s.pick([1, 2, 3, 5, 100])
    kw = dict(X_train=cols.X, y_train=y, num_gfr=g, num_burnin=b, num_mcmc=N, cutpoint_grid_size=grid, random_seed=s.seed() % 100000); kw["lambda"] = 0.5
    if not bcf:
        kind, limit = s.pick(PRIORS); al, be = prior_kw(s, kind); T, ml = s.pick([1, 3, 10, 25]), s.pick([1, 2, 3, 5, 8]); nb = s.pick([0, 0, 1, 2]); kw.update(alpha=al, beta=be, num_trees=T, min_samples_leaf=ml, sigma2_init=s.pick([1.0, 0.5]), sample_sigma=False, sample_tau=nb < 2 and s.chance(1, 2))
        if nb: kw["W_train"] = np.round(r.normal(size=(n, nb)) + 1, 2)
        if s.chance(1, 4): del kw["num_trees"]; T = 200; kw.update(num_gfr=min(g, 1), num_burnin=0, num_mcmc=1); g = kw["num_gfr"]
        if s.chance(1, 4): del kw["min_samples_leaf"]; ml = 5
        c.note("bart n=%d X[%s] %s" % (n, cols, show(kw))); R("m <- do.call(bart, a); NULL", _reset=True, a=kw); parts = [("m$forests", T, ml, limit, kind, "the")]; c.check(R("is.null(m$sigma2_samples)")[0], "fixed", "an error variance trace exists although it was not sampled")
    else:
        (k1, l1), (k2, l2) = s.pick(PRIORS), s.pick(PRIORS); a1, b1 = prior_kw(s, k1); a2, b2 = prior_kw(s, k2); T1, T2, m1, m2 = s.pick([1, 3, 10]), s.pick([1, 2, 8]), s.pick([1, 2, 4, 7]), s.pick([1, 2, 4, 7]); Z = r.integers(0, 2, n).astype(float) if s.chance(1, 2) else np.round(r.normal(size=n), 2); Z[:2] = [0, 1]
        kw.update(Z_train=Z, sigma2=s.pick([1.0, 0.5]), sample_sigma_global=False, alpha_mu=a1, alpha_tau=a2, beta_mu=b1, beta_tau=b2, num_trees_mu=T1, num_trees_tau=T2, min_samples_leaf_mu=m1, min_samples_leaf_tau=m2, sample_sigma_leaf_mu=s.chance(1, 2), sample_sigma_leaf_tau=s.chance(1, 2), propensity_covariate=s.pick(["none", "mu", "tau", "both"]), adaptive_coding=s.chance(1, 2))
        if kw["propensity_covariate"] != "none": kw["pi_train"] = np.round(r.uniform(0.1, 0.9, n), 3)
        if s.chance(1, 5): del kw["num_trees_tau"]; T2 = 50; kw.update(num_gfr=min(g, 1), num_burnin=0, num_mcmc=1); g = kw["num_gfr"]
        if s.chance(1, 4): del kw["min_samples_leaf_mu"]; m1 = 5
        if s.chance(1, 4): del kw["min_samples_leaf_tau"]; m2 = 5
        c.note("bcf n=%d X[%s] %s" % (n, cols, show(kw))); R("m <- do.call(bcf, a); NULL", _reset=True, a=kw); parts = [("m$forests_mu", T1, m1, l1, k1, "prognostic"), ("m$forests_tau", T2, m2, l2, k2, "treatment")]; c.check(R("is.null(m$sigma2_samples)")[0], "fixed", "an error variance trace exists although it was not sampled")
    E = cols.E; num = [cols.kinds[o - 1] in ("double", "int", "normal", "binary", "grid") for o in cols.orig] + [True]
    if bcf and kw["propensity_covariate"] != "none": E = np.c_[E, kw["pi_train"]]
    ns = 0
    for ex, T, ml, limit, kind, tag in parts: cont = forest_json(ex); shape_check(c, cont, E, T, ml, limit, tag); k = grid_check(c, cont, range(g), grid, num, tag); c.count("grid_limit_reached", 0 < k and k == grid - 1); ns += num_splits(cont); c.count("prior_" + kind)
    c.count("bcf", bcf); c.count("splits", ns); c.nontrivial = ns > 0


DOC_BART = dict(cutpoint_grid_size=100, alpha=0.95, beta=2.0, min_samples_leaf=5, nu=3.0, a_leaf=3.0, q=0.9, num_trees=200, num_gfr=5, num_burnin=0, num_mcmc=100, sample_sigma=True, sample_tau=True, keep_burnin=False)
DOC_BCF = dict(cutpoint_grid_size=100, alpha_mu=0.95, alpha_tau=0.25, beta_mu=2.0, beta_tau=3.0, min_samples_leaf_mu=5, min_samples_leaf_tau=5, nu=3.0, a_leaf_mu=3.0, a_leaf_tau=3.0, q=0.9, num_trees_tau=50, num_gfr=5, num_burnin=0, num_mcmc=100, sample_sigma_global=True, sample_sigma_leaf_mu=True, propensity_covariate="mu", adaptive_coding=True, b_0=-0.5, b_1=0.5, keep_burnin=False)
ALT = dict(cutpoint_grid_size=[3, 10], alpha=[0.5], beta=[1.0], alpha_mu=[0.5], alpha_tau=[0.8], beta_mu=[1.0], beta_tau=[1.0], min_samples_leaf=[1, 2], min_samples_leaf_mu=[1, 2], min_samples_leaf_tau=[1, 2], nu=[1.5], a_leaf=[1.5], a_leaf_mu=[1.5], a_leaf_tau=[1.5], q=[0.5], num_trees=[3, 8], num_trees_mu=[3, 8], num_trees_tau=[2, 4], num_gfr=[0, 2, 3], num_burnin=[1, 2], num_mcmc=[2, 4],
    sample_sigma=[False], sample_tau=[False], sample_sigma_global=[False], sample_sigma_leaf_mu=[False], sample_sigma_leaf_tau=[True], propensity_covariate=["none", "both", "tau"], adaptive_coding=[False], b_0=[0.0], b_1=[1.0], keep_burnin=[True], keep_gfr=[True])


@prop("P28rd", "the model has splits", timeout=120)
def P28rd(s, c):
    """leaving an argument out is the same as passing its documented default"""
    bcf = s.chance(1, 2); n = s.pick([12, 20, 35]); r = s.sub(); X = np.round(r.normal(size=(n, s.range(1, 3))), 3); y = s.pick([0.0, 2.0]) * (X[:, 0] > 0) + r.normal(size=n); doc = DOC_BCF if bcf else DOC_BART; test = s.pick(sorted(doc)); base = {}
    for q in sorted(set(doc) | ({"num_trees_mu", "keep_gfr", "sample_sigma_leaf_tau"} if bcf else {"keep_gfr"})):
        if q == test: continue
        if q in ("num_mcmc", "num_gfr", "num_trees", "num_trees_mu", "num_trees_tau") or s.chance(1, 3): base[q] = s.pick(ALT[q])
    if test == "num_mcmc": base.update({q: 2 for q in base if q.startswith("num_trees")})
    base.update(X_train=X, y_train=y, random_seed=s.seed() % 100000)
    if bcf:
        base["Z_train"] = r.integers(0, 2, n).astype(float); base["Z_train"][:2] = [0, 1]
        if base.get("propensity_covariate", "mu") != "none": base["pi_train"] = np.round(r.uniform(0.1, 0.9, n), 3)
    elif s.chance(1, 3): base["W_train"] = np.round(r.normal(size=(n, 1)) + 1, 2)
    c.note("%s n=%d omitted %s %s" % ("bcf" if bcf else "bart", n, test, show(base))); get = "list(y = m$y_hat_train, tau = m$tau_hat_train, s2 = m$sigma2_samples, t = m$tau_samples, lm = m$sigma_leaf_mu_samples, lt = m$sigma_leaf_tau_samples, b0 = m$b_0_samples, b1 = m$b_1_samples)"
    o, o2 = (R("set.seed(rs); m <- do.call(%s, a); %s" % ("bcf" if bcf else "bart", get), _reset=True, a=kw, rs=17) for kw in (base, dict(base, **{test: doc[test]})))
    for nm in o: c.check((o[nm] is None) == (o2[nm] is None) and (o[nm] is None or same(np.asarray(o[nm], dtype=float), np.asarray(o2[nm], dtype=float))), "default", lambda: "leaving out %s is not the same as passing its documented default %s: %s differs" % (test, doc[test], nm))
    c.count(test); c.count("bcf", bcf); c.nontrivial = bool(np.any(np.asarray(o["y"])[0] != np.asarray(o["y"])))


@prop("P28rl", ">= 200 leaf draws tested and some tree splits", timeout=120)
def P28rl(s, c):
    """given tree, other trees, random effects and variances, every leaf parameter is a draw from its Gaussian full conditional"""
    n = s.range(6, 16); r = s.sub(); X = np.round(r.normal(size=(n, s.range(1, 2))), 2); bcf = s.chance(1, 2); g, b, N = s.pick([0, 0, 2, 20]), s.pick([0, 2]), s.pick([60, 120]); s2 = s.pick([1.0, 0.1, 0.4]); y = s.pick([0.0, 2.0]) * (X[:, 0] > 0) + r.normal(size=n); rfx = s.chance(1, 3); tot = g + b + N; res = {}
    kw = dict(X_train=X, y_train=y, num_gfr=g, num_burnin=b, num_mcmc=N, random_seed=s.seed() % 100000, keep_gfr=True, keep_burnin=True); kw["lambda"] = s.pick([0.3, 1.0]); lam = s.chance(1, 2); trace = lambda v, init: (lambda i: init if i == 0 else v[i - 1]); B = np.ones((n, 1))
    wide = s.chance(1, 3)
    if wide: g, b, N = s.pick([0, 1, 2]), s.pick([0, 1, 2]), s.range(1, 3); kw.update(num_gfr=g, num_burnin=b, num_mcmc=N); tot = g + b + N; s2 = s.pick([25.0, 1.0, 0.01])
    if rfx:
        gr = Groups(s, r, n); kw["group_ids_train"] = gr.rv()
        if s.chance(1, 2): B = np.column_stack([np.ones(n), np.round(r.normal(size=n), 2)]); kw["rfx_basis_train"] = B

    def effects():
        G = np.zeros((n, tot))
        if rfx: bb, mp, _ = rfx_params("m$rfx_samples"); G[:, 1:] = rfx_pred(bb, mp, gr.code(), B)[:, :-1]
        return G

    def order(keep): keep = [int(i) - 1 for i in np.atleast_1d(keep)]; c.check(sorted(keep) == list(range(tot)), "draw-count", "keep flags for all phases do not keep all draws"); return np.argsort(keep)
    if not bcf:
        nb = s.pick([0, 0, 1, 2, 3]); T = s.pick([40, 80]) if wide else s.pick([1, 2, 4]); d = max(1, nb); t0 = s.pick([0.05, 0.3, 1.0]); kw.update(num_trees=T, min_samples_leaf=s.pick([1, 2]), tau_init=t0, sigma2_init=s2, sample_sigma=s.chance(3, 4) if wide else s.chance(1, 2), sample_tau=nb < 2 and s.chance(1, 2), alpha=s.pick([0.95, 0.5])); W = None; S0 = np.eye(d) * t0
        if nb: W = kw["W_train"] = np.round(r.normal(size=(n, nb)) + s.pick([0, 1]), 2)
        if nb > 1 and s.chance(2, 3): S0 = np.eye(d) * t0 + s.pick([0.2, 5.0, -0.3]) * t0; S0[0, 0] *= 2; kw["tau_init"] = S0
        if wide and kw["sample_tau"]: steer(s, kw, "")
        auto = {q for q in ("tau_init", "sigma2_init") if s.chance(1, 6) and not (q == "tau_init" and nb > 1) and not (q == "sigma2_init" and n < 4 + X.shape[1] + nb)}
        for q in auto: del kw[q]
        if lam and n >= 4 + X.shape[1] + nb: del kw["lambda"]
        c.note("bart n=%d W=%d rfx=%s %s" % (n, nb, rfx, show(kw))); o = R("m <- do.call(bart, a); list(s2 = m$sigma2_samples, t = m$tau_samples, keep = m$keep_indices, mp = m$model_params)", _reset=True, a=kw); inv = order(o["keep"]); cont = forest_json("m$forests"); sd = np.std(y, ddof=1); e = (y - np.mean(y)) / sd; ns = num_splits(cont)
        if "sigma2_init" in auto: A = np.c_[np.ones(n), np.zeros((n, 0)) if W is None else W, X]; q, rk = np.linalg.lstsq(A, e, rcond=None)[0], np.linalg.matrix_rank(A); s2 = float(np.sum((e - A @ q) ** 2) / (n - rk)); c.count("calibrated")     # documented: calibrated on a linear regression
        if "tau_init" in auto: S0 = np.eye(d) / T; c.count("calibrated")       # documented: 1/num_trees
        v = trace(np.asarray(o["s2"])[inv] / sd**2, s2) if kw["sample_sigma"] else lambda i: s2; tr = trace(np.asarray(o["t"])[inv], None) if kw["sample_tau"] else lambda i: None
        res["the"] = leaf_law(cont, X, None if W is None else lambda i: W, e[:, None] - effects(), v, lambda i: S0 if tr(i) is None else np.eye(1) * tr(i))
    else:
        zk = s.pick(["binary", "binary", "cont"]); Z = r.integers(0, 2, n).astype(float) if zk == "binary" else np.round(r.normal(size=n), 1)
        if zk == "binary": Z[:2] = [0, 1]
        y = y + 1.5 * Z; sd = np.std(y, ddof=1); e = (y - np.mean(y)) / sd; coded = zk == "binary" and s.chance(2, 3); kw.update(y_train=y, Z_train=Z, sigma2=s2, num_trees_mu=s.pick([40, 80]) if wide else s.pick([1, 2, 4]), num_trees_tau=s.pick([40, 60]) if wide else s.pick([1, 2, 3]), min_samples_leaf_mu=s.pick([1, 2]), min_samples_leaf_tau=s.pick([1, 2]), sigma_leaf_mu=s.pick([0.05, 0.3, 1.0]), sigma_leaf_tau=s.pick([0.05, 0.5]), sample_sigma_global=s.chance(1, 3), sample_sigma_leaf_mu=s.chance(1, 2), sample_sigma_leaf_tau=s.chance(1, 2), alpha_tau=0.95, beta_tau=2.0, propensity_covariate="none", adaptive_coding=coded, b_0=s.pick([-0.5, 0.0]), b_1=s.pick([0.5, 1.0]))
        for q in ("mu", "tau"):
            if wide and kw["sample_sigma_leaf_" + q]: steer(s, kw, "_" + q)
        if lam and n >= 5 + X.shape[1]: del kw["lambda"]
        if n >= 5 + X.shape[1] and s.chance(1, 6): del kw["sigma2"]; A = np.c_[np.ones(n), X]; s2 = float(np.mean((e - A @ np.linalg.lstsq(A, e, rcond=None)[0]) ** 2)); c.count("calibrated")
        c.note("bcf n=%d Z=%s rfx=%s %s" % (n, zk, rfx, show(kw))); o = R("set.seed(rs); m <- do.call(bcf, a); list(s2 = m$sigma2_samples, lm = m$sigma_leaf_mu_samples, lt = m$sigma_leaf_tau_samples, b0 = m$b_0_samples, b1 = m$b_1_samples, keep = m$keep_indices)", _reset=True, a=kw, rs=s.seed() % 100000); inv = order(o["keep"]); cm, ct = forest_json("m$forests_mu"), forest_json("m$forests_tau"); ns = num_splits(cm) + num_splits(ct); zz = Z.reshape(n, 1)
        if coded: b0, b1 = np.asarray(o["b0"]), np.asarray(o["b1"]); q0, q1 = np.r_[kw["b_0"], b0[:-1]], np.r_[kw["b_1"], b1[:-1]]; BB = lambda i: (1 - zz) * q0[i] + zz * q1[i]
        else: BB = lambda i: zz
        mu = ref_forest(cm, X, None)[0]; raw = ref_forest(ct, X, np.ones((n, 1)))[1]; G = effects(); fixed = not kw["sample_sigma_global"]
        rm = np.column_stack([e - G[:, i] - (np.sum(raw[:, i - 1] * BB(i), axis=1) if i else 0.0) for i in range(tot)]); v = (lambda i: s2) if fixed else trace(np.asarray(o["s2"])[inv] / sd**2, s2); Sm = trace(np.asarray(o["lm"])[inv], kw["sigma_leaf_mu"]) if kw["sample_sigma_leaf_mu"] else lambda i: kw["sigma_leaf_mu"]
        res["prognostic"] = leaf_law(cm, X, None, rm, v, lambda i: np.eye(1) * Sm(i))
        if fixed: St = trace(np.asarray(o["lt"])[inv], kw["sigma_leaf_tau"]) if kw["sample_sigma_leaf_tau"] else lambda i: kw["sigma_leaf_tau"]; res["treatment"] = leaf_law(ct, X, BB, e[:, None] - mu - G, v, lambda i: np.eye(1) * St(i))
        c.count("coded", coded)
    tested = sum(leaf_check(c, U, tag) for tag, U in res.items())
    c.count("bcf", bcf); c.count("rfx", rfx); c.nontrivial = ns > 0 and tested >= 200


@prop("P14r", ">= 100 group-parameter draws tested in >= 2 groups", timeout=120)
def P14r(s, c):
    """random-effect draws of bart() and bcf() follow their full conditionals given forest fits, error variance and the draw before"""
    bcf = s.chance(1, 2); wide = s.chance(1, 2); r = s.sub(); G = s.pick([40, 80, 120]) if wide else s.range(1, 6); n = G * s.range(2, 3) if wide else s.range(max(G, 6), 24); d = s.range(1, 3); g, b, N = (s.pick([0, 1, 2]), s.pick([0, 1, 2]), s.range(1, 3)) if wide else (s.pick([0, 0, 2, 20]), s.pick([0, 2]), s.pick([60, 120])); tot = g + b + N
    X = np.round(r.normal(size=(n, s.range(1, 2))), 2); gi = r.integers(1, G + 1, n); gi[:G] = np.arange(1, G + 1); r.shuffle(gi); ids = gi * s.pick([1, 3]) + s.pick([0, 7]); B = np.round(r.normal(size=(n, d)), 2)
    if s.chance(2, 3): B[:, 0] = 1.0
    y = s.pick([0.0, 2.0]) * (X[:, 0] > 0) + s.pick([0.0, 1.0, 3.0]) * r.normal(size=G)[gi - 1] + r.normal(size=n); s2 = s.pick([1.0, 0.1, 25.0])
    kw = dict(X_train=X, y_train=y, num_gfr=g, num_burnin=b, num_mcmc=N, random_seed=s.seed() % 100000, keep_gfr=True, keep_burnin=True, group_ids_train=rlink.Ints([int(q) for q in ids])); kw["lambda"] = s.pick([0.3, 1.0]); S0 = np.ones(d); a0 = np.ones(d)
    if d > 1 or not np.all(B == 1) or s.chance(1, 2): kw["rfx_basis_train"] = B
    if bcf:
        Z = r.integers(0, 2, n).astype(float) if s.chance(1, 2) else np.round(r.normal(size=n), 1); Z[:2] = [0, 1]; coded = set(Z) <= {0.0, 1.0} and s.chance(2, 3); kw.update(Z_train=Z, sigma2=s2, num_trees_mu=s.pick([1, 4]), num_trees_tau=s.pick([1, 3]), sample_sigma_global=s.chance(1, 2), propensity_covariate="none", adaptive_coding=coded)
        if s.chance(3, 4): S0 = np.array([s.pick([0.01, 0.3, 1.0, 9.0]) for _ in range(d)]); kw["rfx_prior_var"] = S0
        on = kw["sample_sigma_global"]; get = "s2 = m$sigma2_samples, b0 = m$b_0_samples, b1 = m$b_1_samples, keep = m$keep_indices"
    else: kw.update(sigma2_init=s2, num_trees=s.pick([1, 4]), sample_sigma=s.chance(1, 2), tau_init=0.2); on = kw["sample_sigma"]; get = "s2 = m$sigma2_samples, keep = m$keep_indices"; a0[1:] = 0.0
    c.note("%s n=%d groups=%d components=%d %s" % ("bcf" if bcf else "bart", n, G, d, show(kw))); o = R("set.seed(rs); m <- do.call(%s, a); list(%s)" % ("bcf" if bcf else "bart", get), _reset=True, a=kw, rs=kw["random_seed"]); keep = [int(i) - 1 for i in np.atleast_1d(o["keep"])]; c.check(sorted(keep) == list(range(tot)), "draw-count", "keep flags for all phases do not keep all draws"); inv = np.argsort(keep)
    sd = np.std(y, ddof=1); e = ((y - np.mean(y)) / sd)[:, None]; M = ref_forest(forest_json("m$forests_mu" if bcf else "m$forests"), X, None)[0]; F = M
    if bcf:
        T = ref_forest(forest_json("m$forests_tau"), X, np.ones((n, 1)))[1][:, :, 0]; zz = Z[:, None]
        F = M + (((1 - zz) * np.asarray(o["b0"]) + zz * np.asarray(o["b1"])) * T if coded else zz * T)
    v = np.asarray(o["s2"])[inv] / sd**2 if on else np.full(tot, s2); raw = R("m$rfx_samples$extract_parameter_samples()"); _, mp, _ = rfx_params("m$rfx_samples"); al, sg = (np.asarray(raw[q], dtype=float).reshape(d, tot) for q in ("alpha_samples", "sigma_samples")); xi = np.asarray(raw["xi_samples"], dtype=float).reshape((d, G, tot)); be = np.asarray(raw["beta_samples"], dtype=float).reshape((d, G, tot))
    c.check(close(be, xi * al[:, None, :]), "rfx-beta", "coefficients are not working parameter times group parameter")
    pos = np.array([mp[int(q)] - 1 for q in gi]); U, A, V = [], [], []      # bart() and bcf() number the groups in the order of their labels
    for i in range(tot):
        rs = e[:, 0] - F[:, i]; a, S = (al[:, i - 1], sg[:, i - 1]) if i else (a0, S0); u = []
        for k in range(G):
            Q = B[pos == k] * a; L = np.linalg.cholesky(Q.T @ Q / v[i] + np.diag(1 / S)); mean = np.linalg.solve(L.T, np.linalg.solve(L, Q.T @ rs[pos == k] / v[i])); u.extend(L.T @ (xi[:, k, i] - mean))
        U.append(np.array(u)); Q = B * xi[:, pos, i].T; L = np.linalg.cholesky(Q.T @ Q / v[i] + np.eye(d)); A.append(L.T @ (al[:, i] - np.linalg.solve(L.T, np.linalg.solve(L, Q.T @ rs / v[i])))); V.append(ig_pit(sg[:, i], 1 + G / 2, 1 + np.sum(xi[:, :, i] ** 2, axis=1) / 2))
    for nm, z in (("group", U), ("working", A)):
        z = np.concatenate(z); p = normal_p(z) if len(z) >= 20 else 1.0; c.check(p > 1e-9, "rfx-%s-law" % nm, lambda: "%s parameters do not follow their full conditional given forest fits and error variance (p=%g over %d draws, mean %.3f, variance %.4f)" % (nm, p, len(z), np.mean(z), np.var(z)))
    for i, z in enumerate(U):
        if len(z) >= 20 and i < 12: p = normal_p(z); c.check(p > 1e-11, "rfx-group-law", lambda: "group parameters at draw %d of %d do not follow their full conditional (p=%g over %d values, mean %.3f, variance %.4f)" % (i, tot, p, len(z), np.mean(z), np.var(z))); c.count("single_draws")
    V = np.concatenate(V)
    if len(V) >= 20: p = pit_p(V); c.check(p > 1e-9, "rfx-variance-law", lambda: "variance components do not follow their full conditional (p=%g over %d draws)" % (p, len(V)))
    c.count("bcf", bcf); c.count("components_%d" % d); c.count("group_draws", sum(map(len, U))); c.nontrivial = G >= 2 and sum(map(len, U)) >= 100


@prop("P28rt", "at least two frequencies tested", timeout=120)
def P28rt(s, c):
    """with leaf values fixed near zero the posterior over trees is the split prior: frequencies of splits and of split variables"""
    bcf = s.chance(1, 2); n = 250; r = s.sub(); p = s.range(1, 4); factor = s.chance(1, 2); X = np.round(r.normal(size=(n, p)), 3); kinds = ["num"] * p
    if factor: kinds = [s.pick(["num", 2, 3, 4]) for _ in range(p)]; X = rlink.Frame(("x%d" % j, X[:, j] if k == "num" else rlink.Factor([int(q) + 1 for q in r.integers(0, k, n)], list("abcd")[:k], False)) for j, k in enumerate(kinds))
    owner = [j for j, k in enumerate(kinds) for _ in range(1 if k == "num" else k)]
    if factor: owner = [j for j, k in enumerate(kinds) if k == "num"] + [j for j, k in enumerate(kinds) if k != "num" for _ in range(k + 1)]       # numeric columns first; a factor also has a column for unseen levels, which no training row can split on
    pr = [(0.5, 6.0), (0.8, 7.0)] if factor else SPLIT; N = s.pick([1200, 2400]); g = s.pick([0, 60]); D = range(g, g + N); w = {j: 1.0 for j in range(p)}; kw = dict(X_train=X, y_train=r.normal(size=n), num_gfr=g, num_burnin=0, num_mcmc=N, random_seed=s.seed() % 100000, keep_gfr=True); kw["lambda"] = 0.5
    if s.chance(2, 3): v = np.array([s.pick([1.0, 2.0, 0.5, 5.0]) for _ in range(p)]); w = dict(enumerate(v)); kw["variable_weights"] = v
    w = {j: q * (1 if kinds[j] == "num" else kinds[j] / (kinds[j] + 1)) for j, q in w.items()}; some = any(k != "num" for k in kinds)
    if not bcf:
        a, b = s.pick(pr); kw.update(num_trees=s.pick([2, 4]), alpha=a, beta=b, min_samples_leaf=1, tau_init=1e-12, sample_tau=False, sample_sigma=s.chance(1, 4), sigma2_init=1.0)
        def go(kw): R("m <- do.call(bart, a); NULL", _reset=True, a=kw); return prior_tests(forest_json("m$forests"), D, range(g), a, b, owner, w, not some)
    else:
        a1, b1 = s.pick(pr); a2, b2 = s.pick(pr); pc = s.pick(["none", "mu", "tau", "both"]); Z = r.integers(0, 2, n).astype(float) if s.chance(1, 2) else np.round(r.normal(size=n), 2); wm, wt = dict(w), dict(w)
        kw.update(Z_train=Z, num_trees_mu=s.pick([2, 4]), num_trees_tau=s.pick([2, 3]), alpha_mu=a1, beta_mu=b1, alpha_tau=a2, beta_tau=b2, min_samples_leaf_mu=1, min_samples_leaf_tau=1, sigma_leaf_mu=1e-12, sigma_leaf_tau=1e-12, sample_sigma_leaf_mu=False, sample_sigma_leaf_tau=False, sample_sigma_global=s.chance(1, 4), sigma2=1.0, propensity_covariate=pc, adaptive_coding=s.chance(1, 2) and set(Z) <= {0.0, 1.0})
        for tag, ww in (("mu", wm), ("tau", wt)):
            if p > 1 and s.chance(1, 3): j = s.raw(p); kw["drop_vars_" + tag] = rlink.Ints([j + 1]); ww[j] = 0.0
        if pc != "none": kw["pi_train"] = np.round(r.uniform(0.1, 0.9, n), 3); owner = owner + [p]; wm[p] = wt[p] = None
        def go(kw): R("m <- do.call(bcf, a); NULL", _reset=True, a=kw); return {tag + " forest: " + q: v for tag, ex, a, b, ww in (("prognostic", "m$forests_mu", a1, b1, wm), ("treatment", "m$forests_tau", a2, b2, wt)) for q, v in prior_tests(forest_json(ex), D, range(g), a, b, owner, ww, not some).items()}
    c.note("%s n=%d %s kinds=%s" % ("bcf" if bcf else "bart", n, {q: v for q, v in kw.items() if q not in ("X_train", "y_train", "Z_train", "pi_train")}, kinds)); k = settle(c, go, kw); c.count("bcf", bcf); c.count("factor", factor); c.nontrivial = k >= 2


if __name__ == "__main__": pbt.main()
