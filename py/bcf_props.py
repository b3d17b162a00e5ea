"""P19: Python BCF."""
import inspect
import numpy as np, pandas as pd
import pbt
from pbt import prop, Discard
from common import *
import stochtree, stochtree.bcf as bcfmod
from stochtree import BCFModel, Dataset, RNG, GlobalVarianceModel


class Case:
    def __init__(self, s, small=False):
        self.n = n = s.pick([16, 10, 24, 40, 60]); self.cols = Cols(s, pmax=3, flat=True); r = s.sub(); self.X = self.cols.make(r, n, cover=True)
        self.zk = s.pick(["binary", "binary", "continuous", "multi"]); three = s.chance(1, 3); z = lambda m: r.integers(0, 2, m).astype(float) if self.zk == "binary" else (r.integers(0, 3, m) * 1.0 if three else np.round(r.normal(size=m), 2)) if self.zk == "continuous" else np.round(r.normal(size=(m, 2)), 2)
        self.Z = z(n)
        if self.zk == "binary": self.Z[0], self.Z[1] = 0.0, 1.0
        elif three and self.zk == "continuous": self.Z[:3] = [2.0, 0.0, 1.0]
        if self.Z.ndim == 1 and s.chance(1, 2): self.Z = self.Z.reshape(-1, 1)
        if self.zk == "binary" and s.chance(1, 3): self.Z = self.Z.astype(int)
        V = numeric_view(self.X); zz = self.Z.reshape(n, -1).astype(float); self.y = np.round((outcome(s, r, self.X, n) + zz[:, 0] * s.pick([0.0, 2.0, -4.0]) * (1 + s.pick([0.0, 1.0]) * (V[:, 0] > np.median(V[:, 0]))) + zz.sum(axis=1) * 0.5) * 8) / 8
        if np.std(self.y) < 1e-3: raise Discard()
        pc = s.pick(["mu", "none", "tau", "both"]); self.pi = self.pit = None
        if pc != "none" and (self.zk == "multi" or s.chance(2, 3)): self.pi = np.round(r.uniform(0.05, 0.95, n), 2).reshape((n, 1) if s.chance(1, 3) else n)
        self.kw = dict(num_trees_mu=s.pick([1, 2, 3, 6]), num_trees_tau=s.pick([1, 2, 4]), num_gfr=s.range(0, 3), num_burnin=s.range(0, 2), num_mcmc=s.range(0, 4), keep_burnin=s.chance(1, 3), keep_gfr=s.chance(1, 3),
                       propensity_covariate=pc, random_seed=s.seed() % 100000, adaptive_coding=s.chance(2, 3), min_samples_leaf_mu=s.range(1, 4), min_samples_leaf_tau=s.range(1, 4), sample_sigma_global=s.chance(3, 4), sample_sigma_leaf_mu=s.chance(2, 3), sample_sigma_leaf_tau=s.chance(1, 3))
        if self.kw["num_gfr"] + self.kw["num_burnin"] + self.kw["num_mcmc"] == 0: self.kw["num_mcmc"] = 1
        V = sum(1 if not c else len(c) for _, c in self.cols.cols)
        if n < V + 4 or s.chance(1, 3): self.kw["lamb"] = s.pick([0.5, 0.1])
        if "lamb" in self.kw and (n < V + 4 or s.chance(1, 2)): self.kw["sigma2"] = s.pick([1.0, 0.2])
        for nm, vals in (("b_0", [0.0, 0.25]), ("b_1", [1.0, 0.75]), ("alpha_tau", [0.95, 0.5]), ("beta_tau", [1.0, 2.0]), ("sigma_leaf_mu", [0.5]), ("sigma_leaf_tau", [0.5]), ("b_leaf_mu", [0.3]), ("b_leaf_tau", [0.2]), ("nu", [2.0, 0.7]), ("cutpoint_grid_size", [3, 10])):
            if s.chance(1, 4): self.kw[nm] = s.pick(vals)
        p = len(self.cols.cols); self.allow_mu = self.allow_tau = set(range(p))
        for f in ("mu", "tau"):
            if not s.chance(1, 4) or p < 2: continue
            keep = s.chance(1, 2); k = s.range(1, p - 1); sel = sorted(int(i) for i in r.choice(p, k, replace=False)); form = s.pick(["ints", "npints", "names", "npnames"] if self.cols.frame else ["ints", "npints"])
            val = {"ints": sel, "npints": np.array(sel), "names": ["x%d" % i for i in sel], "npnames": np.array(["x%d" % i for i in sel])}[form]; self.kw[("keep_vars_" if keep else "drop_vars_") + f] = val
            setattr(self, "allow_" + f, set(sel) if keep else set(range(p)) - set(sel))
        if s.chance(1, 4): self.kw["variable_weights"] = np.array([s.pick([1.0, 2.0, 0.5]) for _ in range(p)])
        k = s.range(0, 3); self.Xt = self.Zt = None; self.map = None
        if k == 1: self.map = r.integers(0, n, s.pick([1, 2, 7, n])); self.Xt = take(self.X, self.map); self.Zt = self.Z[self.map]; self.pit = None if self.pi is None else self.pi[self.map]
        elif k >= 2:
            m = s.pick([1, 3, 9]); self.Xt = self.cols.make(r, m); self.Zt = z(m).reshape((m,) + self.Z.shape[1:]); self.pit = None if self.pi is None else np.round(r.uniform(0.05, 0.95, m), 2).reshape((m,) + self.pi.shape[1:])

    def args(self, **over):
        a = dict(X_train=self.X, Z_train=self.Z, y_train=self.y, **dict(self.kw, **over))
        if self.pi is not None: a["pi_train"] = self.pi
        if self.Xt is not None:
            a["X_test"], a["Z_test"] = self.Xt, self.Zt
            if self.pit is not None: a["pi_test"] = self.pit
        return a

    def run(self, **over):
        m = BCFModel(); m.sample(**self.args(**over)); return m

    def __str__(self): return "n=%d X[%s] Z=%s pi=%s test=%s %s; " % (self.n, self.cols, self.zk, self.pi is not None, None if self.Xt is None else ("rows of train" if self.map is not None else "new") + " %d" % len(self.Xt), self.kw)


def kept(kw):
    g, b, m = kw["num_gfr"], kw["num_burnin"], kw["num_mcmc"]; G = list(range(g)); B = list(range(g, g + b)); M = list(range(g + b, g + b + m))
    if m == 0: return G if g > 0 else B
    return (G if kw["keep_gfr"] else B if kw["keep_burnin"] else []) + M


def treat(Z, tau):      # sum over treatments: Z (n x d), tau (n x S x d)
    return np.einsum("nd,nsd->ns", np.asarray(Z, dtype=float).reshape(len(tau), -1), tau)


def t3(tau, n, d): return np.asarray(tau, dtype=float).reshape(n, -1, d)


@prop("P19", "the model has >= 2 retained draws and splits in some tree")
def P19(s, c):
    k = Case(s); c.note(str(k)); m = k.run(); kw = k.kw; n = k.n; idx = kept(kw); S = len(idx); tot = kw["num_gfr"] + kw["num_burnin"] + kw["num_mcmc"]; d = 2 if k.zk == "multi" else 1
    c.check(m.mu_hat_train.shape == (n, S) and m.y_hat_train.shape == (n, S) and np.size(m.tau_hat_train) == n * S * d, "draw-count", lambda: "mu %s tau %s y %s, expected %d x %d" % (m.mu_hat_train.shape, m.tau_hat_train.shape, m.y_hat_train.shape, n, S))
    tau = t3(m.tau_hat_train, n, d); c.check(np.all(np.isfinite(m.y_hat_train)) and np.all(np.isfinite(tau)), "non-finite", "non-finite fit")
    c.check(close(m.y_hat_train, m.mu_hat_train + treat(k.Z, tau)), "decomposition", "y_hat_train is not mu_hat_train + Z * tau_hat_train")
    # reference: the sampled model evaluated on the stored forests
    cm, ct = container_json(m.forest_container_mu), container_json(m.forest_container_tau); c.check(cm["num_samples"] == tot and ct["num_samples"] == tot, "draw-count", "stored draws %d/%d, sampled %d" % (cm["num_samples"], ct["num_samples"], tot))
    Zx = m._covariate_transformer.transform(two(k.X)); mean, sd = np.mean(k.y), np.std(k.y)

    def refs(Zx, pi, Z):
        A = Zx if pi is None else np.c_[Zx, pi]; rm = ref_forest(cm, A, None)[0][:, idx]; raw = ref_forest(ct, A, np.ones((len(A), d)))[1][:, idx]
        zz = np.asarray(Z, dtype=float).reshape(len(A), -1)
        if m.adaptive_coding: b0, b1 = m.b0_samples[idx], m.b1_samples[idx]; fit = rm + ((1 - zz) * b0 + zz * b1) * raw[:, :, 0]; t = raw * (b1 - b0)[None, :, None]
        else: fit = rm + treat(Z, raw); t = raw
        return fit * sd + mean, t * sd
    if kw["propensity_covariate"] != "none" and k.pi is None:
        pi = np.mean(m.bart_propensity_model.y_hat_train, axis=1); pit = None if k.Xt is None else np.mean(m.bart_propensity_model.y_hat_test, axis=1)
        c.count("internal_propensity")
    else: pi, pit = (k.pi, k.pit) if kw["propensity_covariate"] != "none" else (None, None)
    # estimated propensities are means whose last bit depends on the summation order: rows within 1e-9 of a cutpoint on the propensity are left out of comparisons between separately computed propensities
    cuts = np.array([t["threshold"][v] for C in (cm, ct) for i in range(tot) for t in (C["forest_%d" % i]["tree_%d" % j] for j in range(C["forest_%d" % i]["num_trees"])) for v in t["internal_nodes"] if t["split_index"][v] == Zx.shape[1]]) if k.pi is None and pi is not None else np.zeros(0)

    def solid(pi, N): return np.ones(N, dtype=bool) if cuts.size == 0 or pi is None else np.all(np.abs(np.asarray(pi)[:, None] - cuts[None, :]) > 1e-9 * (1 + np.abs(cuts[None, :])), axis=1)
    fit, tt = refs(Zx, pi, k.Z); c.check(m.adaptive_coding == (kw["adaptive_coding"] and k.zk == "binary"), "coding", "adaptive coding is used for a non-binary treatment or not used for a binary one")
    ok = solid(pi, n); c.count("rows_compared", int(ok.sum())); c.count("rows_left_out", int((~ok).sum())); c.check(close(tau[ok], tt[ok], 1e-8, 1e-8), "retained-tau", "tau_hat_train is not the effect of the expected stored draws %s on the outcome scale" % idx)
    c.check(close(m.y_hat_train[ok], fit[ok], 1e-8, 1e-8), "fit", lambda: "y_hat_train is not the fit of the sampled outcome model (forests and treatment coding) at the retained draws: max difference %g" % np.max(np.abs(m.y_hat_train - fit)))
    # predict
    def agree(X, Z, pi, mu, ta, yy, tag, ok):
        P = m.predict(X, Z) if pi is None else m.predict(X, Z, pi); N = len(mu); c.check(len(P) == 3, "predict", "predict returns three arrays")
        c.check(close(P[1][ok], mu[ok]), "predict-mu" + tag, "predict() prognostic term differs from the cached one"); c.check(close(t3(P[0], N, d)[ok], t3(ta, N, d)[ok]), "predict-tau" + tag, "predict() effects differ from the cached ones")
        c.check(close(P[2][ok], yy[ok]), "predict-y" + tag, lambda: "predict() outcomes differ from the cached ones (shape %s vs %s)" % (np.shape(P[2]), np.shape(yy)))
        T = m.predict_tau(X, Z) if pi is None else m.predict_tau(X, Z, pi); c.check(close(t3(T, N, d)[ok], t3(ta, N, d)[ok]), "predict_tau" + tag, "predict_tau() differs from the cached effects")
    agree(k.X, k.Z, k.pi, m.mu_hat_train, m.tau_hat_train, m.y_hat_train, "-train", ok)
    if k.Xt is not None:
        N = len(k.Xt); okt = solid(pit, N); c.check(m.mu_hat_test.shape == (N, S) and m.y_hat_test.shape == (N, S), "draw-count", "test shapes"); tte = t3(m.tau_hat_test, N, d)
        c.check(close(m.y_hat_test, m.mu_hat_test + treat(k.Zt, tte)), "decomposition", "y_hat_test is not mu_hat_test + Z * tau_hat_test"); agree(k.Xt, k.Zt, k.pit, m.mu_hat_test, m.tau_hat_test, m.y_hat_test, "-test", okt)
        ft, tt2 = refs(m._covariate_transformer.transform(two(k.Xt)), pit, k.Zt); c.check(close(m.y_hat_test[okt], ft[okt], 1e-8, 1e-8) and close(tte[okt], tt2[okt], 1e-8, 1e-8), "fit", "test fits are not those of the stored draws")
        if k.map is not None: c.check(close(m.y_hat_test[okt], m.y_hat_train[k.map][okt]) and close(m.mu_hat_test[okt], m.mu_hat_train[k.map][okt]) and close(tte[okt], tau[k.map][okt]), "test-rows", "test rows copied from the training data have other fits than those rows")
    if d == 1 and k.zk == "binary" and s.chance(1, 2):     # effect = outcome at treatment one minus outcome at treatment zero
        a = m.predict(k.X, np.ones(n), k.pi)[2] - m.predict(k.X, np.zeros(n), k.pi)[2]; c.check(close(a[ok], tau[ok][:, :, 0]), "effect", "tau is not the difference of the fitted outcomes at Z=1 and Z=0")
    # variables and traces
    orig = m._covariate_transformer.fetch_original_feature_indices(); q = len(orig)
    for cont, allow, pcs, nm in ((cm, k.allow_mu, ("mu", "both"), "mu"), (ct, k.allow_tau, ("tau", "both"), "tau")):
        used = {cont["forest_%d" % i]["tree_%d" % j]["split_index"][v] for i in range(tot) for j in range(cont["forest_%d" % i]["num_trees"]) for v in cont["forest_%d" % i]["tree_%d" % j]["internal_nodes"]}
        bad = [f for f in used if (f < q and orig[f] not in allow) or (f >= q and kw["propensity_covariate"] not in pcs)]
        c.check(not bad, "variables", lambda: "the %s forest splits on excluded covariates %s (allowed originals %s, propensity %s)" % (nm, bad, allow, kw["propensity_covariate"]))
    for on, nm in ((kw["sample_sigma_global"], "global_var_samples"), (kw["sample_sigma_leaf_mu"], "leaf_scale_mu_samples"), (kw["sample_sigma_leaf_tau"] and d == 1, "leaf_scale_tau_samples"), (m.adaptive_coding, "b0_samples"), (m.adaptive_coding, "b1_samples")):
        if on: t = getattr(m, nm); c.check(len(t) == tot and np.all(np.isfinite(t)) and (nm[0] == "b" or np.all(t > 0)), "trace", lambda: "%s: %s" % (nm, t))
    rel = s.range(0, 2); c.count("relation_%d" % rel)
    if rel == 0: m2 = k.run(); c.check(same(m.y_hat_train, m2.y_hat_train) and same(m.tau_hat_train, m2.tau_hat_train), "seed", "two runs with the same seed differ")
    elif rel == 1:
        e = s.range(0, 2); o = dict(num_mcmc=kw["num_mcmc"] + e, keep_gfr=s.chance(1, 2), keep_burnin=s.chance(1, 2)); m2 = k.run(**o); idx2 = kept(dict(kw, **o)); both = [(idx.index(i), idx2.index(i)) for i in idx if i in idx2]; tau2 = t3(m2.tau_hat_train, n, d)
        c.check(all(same(m.y_hat_train[:, a], m2.y_hat_train[:, b]) and same(tau[:, a], tau2[:, b]) for a, b in both), "schedule", "the same draws differ between a run and a longer run with other keep flags")
        if kw["sample_sigma_global"]: c.check(same(m.global_var_samples, m2.global_var_samples[:tot]), "schedule", "the variance trace differs in a longer run")
    ns = num_splits(cm) + num_splits(ct); c.count("splits", ns); c.count("adaptive", m.adaptive_coding); c.count("multi", d > 1); c.count("test_set", k.Xt is not None); c.nontrivial = S >= 2 and ns > 0; c.note("%d splits" % ns)


@prop("P19r", "at least four forest steps of which one follows a change of the treatment coding or basis")
def P19r(s, c):
    """the residual each forest is sampled against is the outcome minus the current fit of both forests under the current treatment coding"""
    n = s.pick([12, 20, 40]); r = s.sub(); X = np.round(r.normal(size=(n, 2)), 2); Z = r.integers(0, 2, n).astype(float); Z[:2] = [0, 1]; multi = s.chance(1, 5)
    if multi: Z = np.round(r.normal(size=(n, 2)), 1)
    y = X[:, 0] + 2 * Z.reshape(n, -1)[:, 0] + r.normal(size=n); st = {"steps": 0, "d": None, "res": None, "s": {}}; e = (y - np.mean(y)) / np.std(y); base = GlobalVarianceModel().sample_one_iteration(stochtree.Residual(np.zeros(n)), RNG(7), 3, 1.0)
    kw = dict(num_trees_mu=s.pick([1, 3]), num_trees_tau=s.pick([1, 2]), num_gfr=s.range(0, 3), num_burnin=s.range(0, 2), num_mcmc=s.range(1, 4), adaptive_coding=s.chance(3, 4), propensity_covariate="none", lamb=0.5, sigma2=0.5, alpha_tau=0.9, min_samples_leaf_mu=1, min_samples_leaf_tau=1, random_seed=s.seed() % 10000); c.note("n=%d multi=%s %s" % (n, multi, kw))
    class Watch(bcfmod.ForestSampler):
        def sample_one_iteration(self, *args, **kws):
            b = inspect.signature(bcfmod_sampler.sample_one_iteration).bind(self, *args, **kws).arguments
            if not {"forest_container", "dataset", "residual", "leaf_model_int"} <= set(b): raise Discard()
            fc, ds, res, lm = b["forest_container"], b["dataset"], b["residual"], b["leaf_model_int"]
            name = "tau" if lm else "mu"; st["s"][name] = fc
            if len(st["s"]) == 2 and fc.forest_container_cpp.NumSamples() > 0 and st["steps"] > 1:
                fit = sum(f.forest_container_cpp.Predict(ds.dataset_cpp)[:, -1] for f in st["s"].values()); ssr = float(np.sum((e - fit) ** 2)); v = GlobalVarianceModel().sample_one_iteration(res, RNG(7), 3, 1.0); got = (v / base * 3.0) - 3.0
                c.check(abs(got - ssr) <= 1e-7 * (1 + ssr), "residual", lambda: "before step %d (%s forest) the residual has sum of squares %.12g, outcome minus current fit %.12g" % (st["steps"], name, got, ssr))
            out = bcfmod_sampler.sample_one_iteration(self, *args, **kws); st["steps"] += 1; return out
    bcfmod_sampler = bcfmod.ForestSampler; bcfmod.ForestSampler = Watch
    try: m = BCFModel(); m.sample(X_train=X, Z_train=Z, y_train=y, **kw)
    finally: bcfmod.ForestSampler = bcfmod_sampler
    c.nontrivial = st["steps"] >= 4 and (kw["adaptive_coding"] and not multi); c.count("steps", st["steps"])


@prop("P19v", "the traces hold >= 60 draws", timeout=120)
def P19v(s, c):
    """variance, leaf scale and coding draws follow their full conditionals given the forests of the same draw"""
    n = s.range(6, 14); r = s.sub(); X = np.round(r.normal(size=(n, 1)), 2); Z = r.integers(0, 2, n).astype(float); Z[:2] = [0, 1]; ad = s.chance(2, 3); g = s.pick([0, 3, 60]); bu = s.pick([0, 3]); N = 160; nu, lamb = s.pick([3, 2.0]), s.pick([0.3, 1.0])
    if not ad and s.chance(1, 2): Z = np.round(r.normal(size=n), 1)
    (am, bm), (at, bt) = (s.pick([(2.0, 0.4), (4.0, 5.0), (2.0, 0.02), (12.0, 1.0)]) for _ in range(2)); y = r.normal(size=n) + 1.5 * Z; kw = dict(num_trees_mu=s.pick([1, 2]), num_trees_tau=s.pick([1, 2]), num_gfr=g, num_burnin=bu, num_mcmc=N, adaptive_coding=ad, propensity_covariate="none", nu=nu, lamb=lamb, sigma2=1.0, a_leaf_mu=am, b_leaf_mu=bm, a_leaf_tau=at, b_leaf_tau=bt, sample_sigma_leaf_tau=True, min_samples_leaf_mu=1, min_samples_leaf_tau=1, random_seed=s.seed() % 100000)
    c.note("n=%d %s" % (n, kw)); m = BCFModel(); m.sample(X_train=X, Z_train=Z, y_train=y, **kw); T = g + bu + N; sd = np.std(y); e = (y - np.mean(y)) / sd
    cm, ct = container_json(m.forest_container_mu), container_json(m.forest_container_tau); mu = ref_forest(cm, X, None)[0]; tau = ref_forest(ct, X, np.ones(n))[0]; s2 = m.global_var_samples / sd**2; out, coding = {}, {}
    if m.adaptive_coding:
        pb0 = np.r_[-0.5, m.b0_samples[:-1]]; pb1 = np.r_[0.5, m.b1_samples[:-1]]; B = (1 - Z)[:, None] * pb0 + Z[:, None] * pb1       # coding in force while draw i's forests were sampled
        for b, tr in (("b0", 0), ("b1", 1)):
            w = (Z == tr)[:, None]; stt = np.sum(w * tau**2, axis=0); sty = np.sum(w * tau * (e[:, None] - mu), axis=0); x = getattr(m, b + "_samples"); coding[b] = (x - sty / (stt + 2 * s2)) / np.sqrt(s2 / (stt + 2 * s2))
    else: B = Z[:, None]
    ssr = np.sum((e[:, None] - mu - B * tau) ** 2, axis=0); out["sigma2"] = ig_pit(s2, (nu + n) / 2, (nu * lamb + ssr) / 2)
    for nm, cont, a, b in (("mu", cm, am, bm), ("tau", ct, at, bt)):
        K = np.array([sum(leaves_of(cont["forest_%d" % i])) for i in range(T)]); SS = np.array([sum(np.sum(leaf_values(t)[t["leaves"]] ** 2) for t in (cont["forest_%d" % i]["tree_%d" % q] for q in range(kw["num_trees_" + nm]))) for i in range(T)]); out["leaf_scale_" + nm] = ig_pit(getattr(m, "leaf_scale_%s_samples" % nm), (a + K) / 2, (b + SS) / 2)
    for nm, u in coding.items(): p = phase_p(u, g, normal_p); c.check(p > 1e-9, nm + "-trace", lambda: "%s draws do not follow their full conditional given the forests of the same draw (p=%g over %d draws, standardised mean %.3f, variance %.3f)" % (nm, p, len(u), np.mean(u), np.var(u)))
    for nm, u in out.items(): p = phase_p(u, g); c.check(p > 1e-9, nm + "-trace", lambda: "%s draws do not follow their full conditional given the forests of the same draw (KS p=%g over %d draws, mean PIT %.3f)" % (nm, p, len(u), np.mean(u)))
    c.nontrivial = True; c.count("draws", T)


if __name__ == "__main__": pbt.main()
