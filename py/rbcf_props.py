"""P21: R bcf()."""
import os, shutil, tempfile
import numpy as np
from scipy import stats
import pbt, rlink
from pbt import prop, Discard
from rmodel import *
from rbart_props import kept_set

if rlink.before_fork not in pbt.PRE_FORK: pbt.PRE_FORK.append(rlink.before_fork)
GET = """list(y = m$y_hat_train, mu = m$mu_hat_train, tau = m$tau_hat_train, yt = m$y_hat_test, mut = m$mu_hat_test, taut = m$tau_hat_test, rf = m$rfx_preds_train, rft = m$rfx_preds_test, s2 = m$sigma2_samples, lm = m$sigma_leaf_mu_samples, lt = m$sigma_leaf_tau_samples, b0 = m$b_0_samples, b1 = m$b_1_samples, keep = m$keep_indices, mp = m$model_params)"""


class Case:
    def __init__(self, s, n=None):
        r = s.sub(); self.n = n = n or s.pick([12, 16, 24, 40, 60]); self.cols = RCols(s, r, n, 3); V = self.cols.view(); self.zk = s.pick(["binary", "binary", "continuous", "binary12"])
        z = lambda m: r.integers(0, 2, m).astype(float) if self.zk == "binary" else r.integers(1, 3, m).astype(float) if self.zk == "binary12" else np.round(r.normal(size=m), 2)
        self.z = z; self.Z = z(n); self.Z[:2] = [0.0, 1.0] if self.zk == "binary" else [1.0, 2.0] if self.zk == "binary12" else self.Z[:2]; self.zf = s.pick(["vector", "matrix", "int"] if self.zk != "continuous" else ["vector", "matrix"])
        f = np.zeros(n)
        for j in range(V.shape[1]): f = f + s.pick([0.0, 1.0, -2.0, 0.5]) * (V[:, j] > np.median(V[:, j])) + s.pick([0.0, 0.3]) * V[:, j]
        f = f + self.Z * s.pick([0.0, 2.0, -4.0]) * (1 + s.pick([0.0, 1.0]) * (V[:, 0] > np.median(V[:, 0]))); self.rfx = s.chance(1, 2); self.nc = 0; self.B = None
        if self.rfx:
            self.gr = Groups(s, r, n); self.nc = s.pick([0, 0, 1, 2]); f = f + s.pick([0.0, 2.0]) * self.gr.g
            if self.nc: self.B = np.round(r.normal(size=(n, self.nc)), 3); self.B[:, 0] = 1 if s.chance(1, 2) else self.B[:, 0]
            self.bvec = self.nc == 1 and s.chance(1, 2)
        self.y = np.round((f * s.pick([1.0, 0.0, 3.0]) + r.normal(size=n) * s.pick([1.0, 0.2, 5.0])) * 8) / 8
        if np.std(self.y) < 1e-3: raise Discard()
        self.pc = s.pick(["mu", "none", "tau", "both"]); self.pi = self.pit = None
        if self.pc != "none" and s.chance(7, 8): self.pi = np.round(r.uniform(0.05, 0.95, n), 2)
        kw = self.kw = dict(num_trees_mu=s.pick([1, 2, 3, 6]), num_trees_tau=s.pick([1, 2, 4]), num_gfr=s.range(0, 3), num_burnin=s.range(0, 2), num_mcmc=s.range(0, 4), keep_burnin=s.chance(1, 3), keep_gfr=s.chance(1, 3), propensity_covariate=self.pc, random_seed=s.seed() % 100000, adaptive_coding=s.chance(2, 3),
                            min_samples_leaf_mu=s.range(1, 4), min_samples_leaf_tau=s.range(1, 4), sample_sigma_global=s.chance(3, 4), sample_sigma_leaf_mu=s.chance(2, 3), sample_sigma_leaf_tau=s.chance(1, 3))
        if kw["num_gfr"] + kw["num_burnin"] + kw["num_mcmc"] == 0: kw["num_mcmc"] = 1
        if n < self.cols.E.shape[1] + 5: kw["lambda"] = s.pick([0.5, 0.1]); kw["sigma2"] = s.pick([1.0, 0.2])
        for nm, vals in (("b_0", [0.0, 0.25]), ("b_1", [1.0, 0.75]), ("alpha_tau", [0.95, 0.5]), ("beta_tau", [1.0, 2.0]), ("sigma_leaf_mu", [0.5]), ("sigma_leaf_tau", [0.5]), ("b_leaf_mu", [0.3]), ("b_leaf_tau", [0.2]), ("nu", [2.0, 3.0]), ("cutpoint_grid_size", [3, 10]), ("q", [0.75, 0.5]), ("lambda", [0.5]), ("sigma2", [0.2])):
            if s.chance(1, 5): kw.setdefault(nm, s.pick(vals))
        if self.rfx and s.chance(1, 3): kw["rfx_prior_var"] = np.array([s.pick([1.0, 2.0, 0.5]) for _ in range(max(1, self.nc))])
        p = self.cols.p; self.allow = {"mu": set(range(p)), "tau": set(range(p))}
        for f in ("mu", "tau"):
            if not s.chance(1, 4) or p < 2: continue
            keep = s.chance(1, 2); sel = sorted(int(i) for i in r.choice(p, s.range(1, p - 1), replace=False)); kw[("keep_vars_" if keep else "drop_vars_") + f] = [self.cols.names[i] for i in sel] if self.cols.frame and s.chance(1, 2) else Ints([i + 1 for i in sel]); self.allow[f] = set(sel) if keep else set(range(p)) - set(sel)
        self.vw = None
        if s.chance(1, 4): self.vw = kw["variable_weights"] = np.array([s.pick([1.0, 2.0, 0.5]) for _ in range(p)])
        k = s.range(0, 3); self.test = k > 0; self.map = None; self.gt = self.Bt = None; self.rft = self.test and self.rfx and s.chance(5, 6)
        if k == 1: self.map = r.integers(0, n, s.pick([1, 2, 7])); self.m = len(self.map); self.Xt, self.Et = self.cols.take(self.map); self.Zt = self.Z[self.map]; self.pit = None if self.pi is None else self.pi[self.map]
        elif k: self.m = s.pick([1, 3, 9]); self.Xt, self.Et = self.cols.new(self.m); self.Zt = z(self.m); self.pit = None if self.pi is None else np.round(r.uniform(0.05, 0.95, self.m), 2)
        if self.rft:
            self.gt = self.gr.g[self.map] if k == 1 else r.integers(0, self.gr.G, self.m)
            if self.nc: self.Bt = self.B[self.map] if k == 1 else np.round(r.normal(size=(self.m, self.nc)), 3)
        self.rseed = s.seed() % 100000; self.yk = s.pick(["vector", "vector", "matrix", "int"])

    def zv(self, Z): return Z.reshape(-1, 1) if self.zf == "matrix" else Z.astype(int) if self.zf == "int" else Z
    def rbasis(self, B): return None if B is None else B[:, 0] if self.bvec else B

    def args(self, y=None, notest=False, **over):
        y = self.y if y is None else y; a = dict(X_train=self.cols.X, Z_train=self.zv(self.Z), y_train=y.reshape(-1, 1) if self.yk == "matrix" else y.astype(int) if self.yk == "int" and np.all(y == np.round(y)) else y, **dict(self.kw, **over))
        if self.pi is not None: a["pi_train"] = self.pi
        if self.rfx:
            a["group_ids_train"] = self.gr.rv()
            if self.nc: a["rfx_basis_train"] = self.rbasis(self.B)
        if self.test and not notest:
            a.update(X_test=self.Xt, Z_test=self.zv(self.Zt))
            if self.pit is not None: a["pi_test"] = self.pit
            if self.rft:
                a["group_ids_test"] = self.gr.rv(self.gt)
                if self.nc: a["rfx_basis_test"] = self.rbasis(self.Bt)
        return a

    def pargs(self, X, Z, pi, g, B):
        a = dict(X_test=X, Z_test=self.zv(Z))
        if pi is not None: a["pi_test"] = pi
        if self.rfx: a["group_ids_test"] = self.gr.rv(g)
        if self.rfx and self.nc: a["rfx_basis_test"] = self.rbasis(B)
        return a

    # the treatment coding is drawn with R's own generator
    def run(self, reset=False, var="m", **over): return R("set.seed(rs); %s <- do.call(bcf, a); with(list(m = %s), %s)" % (var, var, GET), _reset=reset, a=self.args(**over), rs=self.rseed)

    def __str__(self): return "n=%d X[%s] Z=%s %s pi=%s rfx=%s test=%s y=%s %s; " % (self.n, self.cols, self.zk, self.zf, self.pi is not None, (self.gr.form, self.gr.G, self.nc) if self.rfx else None, ("rows of train" if self.map is not None else "new") + " %d" % self.m if self.test else None, self.yk, self.kw)


class Ref:
    """the sampled model evaluated on its stored forests: prognostic fit, effect, outcome fit for every draw"""
    def __init__(self, k, o, var):
        self.cm, self.ct = forest_json(var + "$forests_mu"), forest_json(var + "$forests_tau"); self.sd, self.mean = np.std(k.y, ddof=1), np.mean(k.y); self.b0, self.b1 = o.get("b0"), o.get("b1"); self.k = k
        self.coded = k.kw["adaptive_coding"] and k.zk == "binary"
        if k.rfx: self.beta, self.mp, _ = rfx_params(var + "$rfx_samples")

    def at(self, E, pi, Z, codes=None, B=None):
        A = E if pi is None else np.c_[E, pi]; M = ref_forest(self.cm, A, None)[0]; T = ref_forest(self.ct, A, np.ones((len(A), 1)))[1][:, :, 0]; zz = np.asarray(Z, dtype=float)[:, None]
        if self.coded: b0, b1 = np.atleast_1d(self.b0), np.atleast_1d(self.b1); fit = M + ((1 - zz) * b0 + zz * b1) * T; eff = (b1 - b0) * T
        else: fit = M + zz * T; eff = T
        G = rfx_pred(self.beta, self.mp, codes, np.ones((len(codes), 1)) if B is None else B) if codes is not None else np.zeros_like(fit)
        return fit * self.sd + self.mean, eff * self.sd, G * self.sd


@prop("P21", "the model has >= 2 retained draws and splits in some tree", timeout=120)
def P21(s, c):
    k = Case(s); c.note(str(k)); o = k.run(reset=True); kw = k.kw; n = k.n; tot = kw["num_gfr"] + kw["num_burnin"] + kw["num_mcmc"]; idx = [int(i) - 1 for i in np.atleast_1d(o["keep"])]; want = kept_set(kw); S = len(want)
    c.check(sorted(idx) == want, "draw-count", lambda: "retained draws %s, requested %s" % (idx, want))
    for nm in ("y", "mu", "tau"): c.check(dims(o[nm]) == [n, S], "draw-count", lambda: "%s has dimensions %s, expected %d x %d" % (nm, dims(o[nm]), n, S))
    ref = Ref(k, o, "m"); c.check(ref.cm["num_samples"] == tot and ref.ct["num_samples"] == tot, "draw-count", "stored draws %d/%d, sampled %d" % (ref.cm["num_samples"], ref.ct["num_samples"], tot))
    c.check((o.get("b0") is not None) == ref.coded, "coding", "adaptive coding is used for a treatment that is not 0-1, or not used for one that is")
    Z = k.Z[:, None]; rf = 0.0
    if k.rfx: c.check(dims(o["rf"]) == [n, S], "draw-count", "rfx_preds_train has dimensions %s" % dims(o["rf"])); rf = o["rf"]
    c.check(np.all(np.isfinite(o["y"])) and np.all(np.isfinite(o["tau"])), "non-finite", "non-finite fit"); c.check(close(o["y"], o["mu"] + Z * o["tau"] + rf), "decomposition", "y_hat_train is not mu_hat_train + Z * tau_hat_train + random effects")
    internal = k.pc != "none" and k.pi is None; pi = pit = None
    if internal:
        c.count("internal_propensity"); pi = R("rowMeans(m$bart_propensity_model$y_hat_train[, 11:50, drop = FALSE])"); pi = np.atleast_1d(pi)
        if k.test: pit = np.atleast_1d(R("rowMeans(m$bart_propensity_model$y_hat_test[, 11:50, drop = FALSE])"))
    elif k.pc != "none": pi, pit = k.pi, k.pit
    # estimated propensities are means whose last bit depends on the summation order: rows within 1e-9 of a cutpoint on them are left out
    p1 = k.cols.E.shape[1]; cuts = np.array([t["threshold"][v] for C in (ref.cm, ref.ct) for i in range(tot) for t in (C["forest_%d" % i]["tree_%d" % j] for j in range(C["forest_%d" % i]["num_trees"])) for v in t["internal_nodes"] if t["split_index"][v] == p1]) if internal else np.zeros(0)
    solid = lambda pi, N: np.ones(N, dtype=bool) if cuts.size == 0 else np.all(np.abs(pi[:, None] - cuts[None, :]) > 1e-9 * (1 + np.abs(cuts[None, :])), axis=1)
    ok = solid(pi, n); fit, eff, G = ref.at(k.cols.E, pi, k.Z, k.gr.code() if k.rfx else None, k.B)
    if k.rfx: c.check(close(o["rf"], G[:, idx]), "rfx-fit", "rfx_preds_train is not the stored random effects applied to the training groups and basis"); scaled_rfx(c, ref.sd)
    c.check(close(o["tau"][ok], eff[:, idx][ok], 1e-8, 1e-8), "retained-tau", "tau_hat_train is not the effect of the stored draws %s on the outcome scale" % idx)
    c.check(close(o["y"][ok], (fit + G)[:, idx][ok], 1e-8, 1e-8), "fit", lambda: "y_hat_train is not the fit of the sampled outcome model at the retained draws: max difference %g" % np.max(np.abs(o["y"] - (fit + G)[:, idx])))

    def agree(a, terms, tag, ok):
        P = R("do.call(predict, c(list(m), a))", a=a)
        for nm, key in (("mu_hat", "mu"), ("tau_hat", "tau"), ("y_hat", "y"), ("rfx_predictions", "rf")):
            if terms.get(key) is None: continue
            c.check(dims(P[nm]) == dims(terms[key]) and close(P[nm][ok], terms[key][ok]), "predict-%s-%s" % (key, tag), lambda: "predict() %s on the %s inputs differs from the cached one (dimensions %s vs %s)" % (nm, tag, dims(P[nm]), dims(terms[key])))
    a = k.pargs(k.cols.X, k.Z, k.pi, k.gr.g if k.rfx else None, k.B); agree(a, dict(y=o["y"], mu=o["mu"], tau=o["tau"], rf=o.get("rf")), "train", ok)
    P = R("do.call(predict, c(list(m), a, list(predict_all = TRUE)))", a=a); c.check(dims(P["y_hat"]) == [n, tot] and close(P["y_hat"][ok], (fit + G)[ok], 1e-8, 1e-8) and close(P["tau_hat"][ok], eff[ok], 1e-8, 1e-8), "predict-all", "predict(predict_all = TRUE) is not the fit of every stored draw")
    if k.test:
        okt = solid(pit, k.m); ft, et, Gt = ref.at(k.Et, pit, k.Zt, k.gr.code(k.gt) if k.rft else None, k.Bt)
        for nm in ("yt", "mut", "taut"): c.check(dims(o[nm]) == [k.m, S], "draw-count", lambda: "%s has dimensions %s, expected %d x %d" % (nm, dims(o[nm]), k.m, S))
        c.check(close(o["yt"], o["mut"] + k.Zt[:, None] * o["taut"] + (o["rft"] if k.rft else 0.0)), "decomposition", "y_hat_test is not mu_hat_test + Z * tau_hat_test + random effects")
        c.check(close(o["yt"][okt], (ft + Gt)[:, idx][okt], 1e-8, 1e-8) and close(o["taut"][okt], et[:, idx][okt], 1e-8, 1e-8), "test-fit", "test fits are not those of the stored draws")
        if k.rft or not k.rfx: agree(k.pargs(k.Xt, k.Zt, k.pit, k.gt, k.Bt), dict(y=o["yt"], mu=o["mut"], tau=o["taut"], rf=o.get("rft")), "test", okt)
        if k.map is not None: c.check(close(o["mut"][okt], o["mu"][k.map][okt]) and close(o["taut"][okt], o["tau"][k.map][okt]) and (not (k.rft or not k.rfx) or close(o["yt"][okt], o["y"][k.map][okt])), "test-rows", "test rows copied from the training data have other fits than those rows")
    if k.zk == "binary" and s.chance(1, 2):
        one, zero = (R("do.call(predict, c(list(m), a))$y_hat", a=k.pargs(k.cols.X, np.full(n, v), k.pi, k.gr.g if k.rfx else None, k.B)) for v in (1.0, 0.0)); c.check(close((one - zero)[ok], o["tau"][ok]), "effect", "tau is not the difference of the fitted outcomes at Z=1 and Z=0")
    for on, nm in ((kw["sample_sigma_global"], "s2"), (kw["sample_sigma_leaf_mu"], "lm"), (kw["sample_sigma_leaf_tau"], "lt")):
        t = o.get(nm); c.check((t is not None) == on, "trace", "trace %s present: %s, requested %s" % (nm, t is not None, on))
        if on: c.check(np.size(t) == S and np.all(np.isfinite(t)) and np.all(np.asarray(t) > 0), "trace", lambda: "%s: length %d for %d retained draws" % (nm, np.size(t), S))
    if ref.coded: c.check(np.size(o["b0"]) == tot and np.size(o["b1"]) == tot, "trace", "coding traces have lengths %d/%d for %d draws" % (np.size(o["b0"]), np.size(o["b1"]), tot))
    g = {q: np.atleast_1d(v) for q, v in o["mp"].items()}
    if "lambda" not in kw and "sigma2" not in kw: nu = kw.get("nu", 3.0); w = float(g["initial_sigma2"][0]) * stats.gamma.ppf(1 - kw.get("q", 0.9), nu) / nu; c.check(close(float(g["lambda"][0]), w, 1e-7, 0), "calibration", lambda: "lambda %g, expected %g for q=%g, nu=%g" % (g["lambda"][0], w, kw.get("q", 0.9), nu))
    # allowed variables
    for cont, f, others in ((ref.cm, "mu", ("mu", "both")), (ref.ct, "tau", ("tau", "both"))):
        bad = [q for q in split_columns(cont) if (q >= p1 and k.pc not in others) or (q < p1 and k.cols.orig[q] - 1 not in k.allow[f])]; c.check(not bad, "variables", lambda: "%s forest splits on columns %s (allowed variables %s, propensity %s)" % (f, bad, sorted(k.allow[f]), k.pc))
    for cont in (ref.cm, ref.ct):
        for d in range(max(1, kw["num_gfr"]), tot): x, y = leaves_of(cont["forest_%d" % (d - 1)]), leaves_of(cont["forest_%d" % d]); c.check(all(abs(u - v) <= 1 for u, v in zip(x, y)), "mcmc-step", lambda: "draw %d changes a tree by more than one split (%s -> %s)" % (d, x, y))
    rel = s.range(0, 3); c.count("relation_%d" % rel)
    if rel == 0:
        e = s.range(0, 2); over = dict(num_mcmc=kw["num_mcmc"] + e, keep_gfr=s.chance(1, 2), keep_burnin=s.chance(1, 2)); o2 = k.run(var="m2", **over); idx2 = [int(i) - 1 for i in np.atleast_1d(o2["keep"])]
        for i in set(idx) & set(idx2):
            u, v = idx.index(i), idx2.index(i); c.check(same(o["y"][:, u], o2["y"][:, v]) and same(o["tau"][:, u], o2["tau"][:, v]), "schedule", "draw %d differs between a run and a longer run with other keep flags" % i)
            for nm in ("s2", "lm", "lt"):
                if o.get(nm) is not None: c.check(np.atleast_1d(o[nm])[u] == np.atleast_1d(o2[nm])[v], "schedule", "the %s trace differs between a run and a longer run" % nm)
    elif rel == 1: o2 = k.run(var="m2"); c.check(same(o["y"], o2["y"]) and same(o["tau"], o2["tau"]), "repeat", "two runs with the same seeds differ")
    elif rel == 2:
        f = s.pick([2.0, 0.25, 64.0]); sh = s.pick([0.0, 8.0, -16.0]) if n & (n - 1) == 0 else 0.0; o2 = k.run(var="m2", y=f * k.y + sh); c.check(close(o2["y"], f * o["y"] + sh, 1e-8, 1e-8 * f) and close(o2["tau"], f * o["tau"], 1e-8, 1e-8 * f), "units", "y -> %g y + %g does not map the fits the same way" % (f, sh))
    elif rel == 3 and k.test: o2 = k.run(var="m2", notest=True); c.check(same(o["y"], o2["y"]) and same(o["tau"], o2["tau"]), "test-influence", "training fits depend on the test set")
    ns = num_splits(ref.cm) + num_splits(ref.ct); c.count("splits", ns); c.count("rfx", k.rfx); c.count("frame", k.cols.frame); c.count("coded", ref.coded); c.count("test_set", k.test); c.nontrivial = S >= 2 and ns > 0


@prop("P21json", "the archived model has splits", timeout=120)
def P21json(s, c):
    """a bcf model written to JSON (in memory or in a file) and read back predicts the same"""
    k = Case(s); c.note(str(k)); o = k.run(reset=True)
    d = tempfile.mkdtemp(prefix="vpr")
    try:
        if s.chance(1, 2): R("m2 <- createBCFModelFromJson(convertBCFModelToJson(m)); NULL")
        else: R("saveBCFModelToJsonFile(m, f); m2 <- createBCFModelFromJsonFile(f); NULL", f=os.path.join(d, "m.json"))
    finally: shutil.rmtree(d, ignore_errors=True)
    pi = k.pi if k.pi is not None or k.pc == "none" else np.full(k.n, 0.5); a = k.pargs(k.cols.X, k.Z, pi, k.gr.g if k.rfx else None, k.B); P, Q = (R("do.call(predict, c(list(%s), a, list(predict_all = %s)))" % (v, "TRUE" if s.chance(1, 2) else "TRUE"), a=a) for v in ("m", "m2"))
    c.check(set(P) == set(Q) and all(same(P[q], Q[q]) for q in P), "predict", "the model read back from JSON predicts something else"); P, Q = (R("do.call(predict, c(list(%s), a))" % v, a=a) for v in ("m", "m2")); c.check(set(P) == set(Q) and all(same(P[q], Q[q]) for q in P), "predict-kept", "the model read back from JSON retains other draws")
    o2 = R("with(list(m = m2), %s)" % GET)
    for nm in ("s2", "lm", "lt", "b0", "b1", "keep"): c.check((o.get(nm) is None) == (o2.get(nm) is None) and (o.get(nm) is None or same(np.asarray(o[nm], dtype=float), np.asarray(o2[nm], dtype=float))), "trace", "%s differs after the JSON round trip" % nm)
    for q, v in (o2["mp"] or {}).items(): c.check(q in o["mp"] and (o["mp"][q] == v if isinstance(v, str) or isinstance(v, list) else close(np.atleast_1d(o["mp"][q]).astype(float), np.atleast_1d(v).astype(float), 0, 0)), "params", lambda: "model_params$%s is %s, was %s" % (q, v, o["mp"].get(q)))
    if k.test and (k.rft or not k.rfx) and (k.pit is not None or k.pc == "none"):
        a = k.pargs(k.Xt, k.Zt, k.pit, k.gt, k.Bt); P, Q = (R("do.call(predict, c(list(%s), a))" % v, a=a) for v in ("m", "m2")); c.check(all(same(P[q], Q[q]) for q in P), "predict-test", "the model read back from JSON predicts something else on new data")
    if k.rfx: P, Q = (R("x <- getRandomEffectSamples(m); if (is.null(m$model_params$has_rfx)) NULL else x".replace("(m)", "(%s)" % v).replace("m$", v + "$")) for v in ("m", "m2")); c.check(set(P) == set(Q) and all(same(P[q], Q[q]) for q in P), "rfx-samples", "random effect draws differ after the JSON round trip"); c.check(R("identical(m$rfx_unique_group_ids, m2$rfx_unique_group_ids)")[0], "rfx-labels", "group labels differ after the JSON round trip")
    ns = R("1"); c.count("rfx", k.rfx); c.count("frame", k.cols.frame); c.nontrivial = bool(np.any(np.asarray(o["mu"]) != np.asarray(o["mu"])[0]))


@prop("P21v", "all traces are sampled over >= 150 draws", timeout=120)
def P21v(s, c):
    """variance and coding draws follow their full conditionals given the stored forests, coding and random effects"""
    n = s.range(8, 16); r = s.sub(); Tm, Tt = s.pick([1, 2]), s.pick([1, 2]); X = np.round(r.normal(size=(n, s.range(1, 2))), 2); Z = r.integers(0, 2, n).astype(float); Z[:2] = [0, 1]; rfx = s.chance(1, 2); coded = s.chance(3, 4); fixed = coded and s.chance(1, 2)
    y = s.pick([0.0, 2.0]) * (X[:, 0] > 0) + s.pick([0.0, 1.5]) * Z + r.normal(size=n); g, b, N = s.pick([0, 2, 60]), s.pick([0, 3]), s.pick([160, 800]); nu, lam, s2 = s.pick([3.0, 1.5]), s.pick([0.3, 1.0]), s.pick([1.0, 0.3]); (am, bm), (at, bt) = (s.pick([(3.0, 0.2), (1.5, 1.0), (4.0, 5.0), (2.0, 0.02), (12.0, 1.0)]) for _ in range(2))
    a = dict(X_train=X, Z_train=Z, y_train=y, num_trees_mu=Tm, num_trees_tau=Tt, num_gfr=g, num_burnin=b, num_mcmc=N, nu=nu, sigma2=s2, a_leaf_mu=am, b_leaf_mu=bm, a_leaf_tau=at, b_leaf_tau=bt, min_samples_leaf_mu=1, min_samples_leaf_tau=1, alpha_tau=0.95, beta_tau=1.0, propensity_covariate="none", adaptive_coding=coded, sample_sigma_global=not fixed, sample_sigma_leaf_tau=True, random_seed=s.seed() % 100000, keep_gfr=True, keep_burnin=True, b_0=s.pick([-0.5, 0.0]), b_1=s.pick([0.5, 1.0])); a["lambda"] = lam
    B = np.ones((n, 1))
    if rfx:
        gr = Groups(s, r, n); a["group_ids_train"] = gr.rv()
        if s.chance(1, 2): B = np.column_stack([np.ones(n), np.round(r.normal(size=n), 2)]); a["rfx_basis_train"] = B
    c.note("n=%d rfx=%s %s" % (n, rfx, {q: v for q, v in a.items() if not isinstance(v, np.ndarray)})); o = R("set.seed(rs); m <- do.call(bcf, a); %s" % GET, _reset=True, a=a, rs=s.seed() % 100000); tot = g + b + N; keep = [int(i) - 1 for i in o["keep"]]; inv = np.argsort(keep)
    c.check(sorted(keep) == list(range(tot)), "draw-count", "keep flags for all phases do not keep all draws"); cm, ct = forest_json("m$forests_mu"), forest_json("m$forests_tau"); sd = np.std(y, ddof=1); e = (y - np.mean(y)) / sd
    M = ref_forest(cm, X, None)[0]; T = ref_forest(ct, X, np.ones((n, 1)))[1][:, :, 0]; b0, b1 = (np.asarray(o["b0"]), np.asarray(o["b1"])) if coded else (np.zeros(tot), np.ones(tot)); zz = Z[:, None]; G = np.zeros((n, tot))
    if rfx: bb, mp, _ = rfx_params("m$rfx_samples"); G[:, 1:] = rfx_pred(bb, mp, gr.code(), B)[:, :-1]
    ssr = np.sum((e[:, None] - M - ((1 - zz) * b0 + zz * b1) * T - G) ** 2, axis=0)
    if not fixed: u = ig_pit(np.asarray(o["s2"])[inv] / sd**2, (nu + n) / 2, (nu * lam + ssr) / 2); p = phase_p(u, g); c.check(p > 1e-9, "sigma2-trace", lambda: "error variance draws do not follow their full conditional given the fit of the same draw (KS p=%g, mean PIT %.3f)" % (p, np.mean(u)))
    if coded and not fixed:     # given the current fit, the variance draw does not depend on the coding of the draw before
        q0, q1 = np.r_[a["b_0"], b0[:-1]], np.r_[a["b_1"], b1[:-1]]; old = np.sum((e[:, None] - M - ((1 - zz) * q0 + zz * q1) * T - G) ** 2, axis=0); rho, p = stats.spearmanr(u, old / ssr); c.count("stale_checks"); c.check(not p <= 1e-9, "stale-coding", lambda: "error variance draws follow the fit under the coding of the draw before (rank correlation %.3f, p=%g over %d draws)" % (rho, p, len(u)))
    for cont, tr, A, Bb, nm in ((cm, "lm", am, bm, "prognostic"), (ct, "lt", at, bt, "treatment")):
        Tn = cont["forest_0"]["num_trees"]; K = np.array([sum(leaves_of(cont["forest_%d" % d])) for d in range(tot)]); SS = np.array([sum(np.sum(leaf_values(t)[t["leaves"]] ** 2) for t in (cont["forest_%d" % d]["tree_%d" % q] for q in range(Tn))) for d in range(tot)])
        u = ig_pit(np.asarray(o[tr])[inv], (A + K) / 2, (Bb + SS) / 2); p = phase_p(u, g); c.check(p > 1e-9, "leaf-scale-trace", lambda: "%s leaf scale draws do not follow their full conditional given the forest of the same draw (KS p=%g, mean PIT %.3f)" % (nm, p, np.mean(u)))
    if fixed:     # with a fixed error variance the coding draws have known moments; the first draw uses the initial random effects
        pr = e[:, None] - M - G; k0 = 1 if rfx else 0
        for zv, bb in ((0.0, b0), (1.0, b1)):
            w = (Z == zv)[:, None]; tt = np.sum(T * T * w, axis=0); ty = np.sum(T * pr * w, axis=0); u = ((bb - ty / (tt + 2 * s2)) / np.sqrt(s2 / (tt + 2 * s2)))[k0:]; p = phase_p(u, g - k0, normal_p); c.check(p > 1e-9, "coding-trace", lambda: "treatment coding draws for Z=%g do not follow their full conditional (p=%g, standardised mean %.3f, variance %.3f)" % (zv, p, np.mean(u), np.var(u)))
        c.count("coding")
    c.nontrivial = True; c.count("draws", tot); c.count("rfx", rfx)


if __name__ == "__main__": pbt.main()
