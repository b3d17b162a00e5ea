"""P20: R bart()."""
import numpy as np
from scipy import stats
import pbt, rlink
from pbt import prop, Discard
from rmodel import *

if rlink.before_fork not in pbt.PRE_FORK: pbt.PRE_FORK.append(rlink.before_fork)
GET = """list(y = m$y_hat_train, yt = m$y_hat_test, rf = m$rfx_preds_train, rft = m$rfx_preds_test, s2 = m$sigma2_samples, tau = m$tau_samples, keep = m$keep_indices, mp = m$model_params)"""


class Case:
    def __init__(self, s):
        r = s.sub(); self.n = n = s.pick([8, 16, 12, 20, 35, 60]); self.cols = RCols(s, r, n); V = self.cols.view()
        self.nb = s.pick([0, 0, 1, 1, 2, 3]); self.W = None if self.nb == 0 else np.round(r.normal(size=(n, self.nb)) + 0.5, 3); self.wk = s.pick(["matrix", "vector", "int"] if self.nb == 1 else ["matrix", "int"])
        if self.W is not None and self.wk == "int": self.W = r.integers(0, 3, (n, self.nb)); self.W[0] = 1; self.W[1] = 2
        f = np.zeros(n)
        for j in range(V.shape[1]): f = f + s.pick([0.0, 1.0, -2.0, 0.5]) * (V[:, j] > np.median(V[:, j])) + s.pick([0.0, 0.3]) * V[:, j]
        if self.nb: f = f * self.W[:, 0] + 0.3 * self.W.sum(axis=1)
        self.rfx = s.chance(1, 2); self.nc = 0; self.B = None
        if self.rfx:
            self.gr = Groups(s, r, n); self.nc = s.pick([0, 0, 1, 2]); f = f + s.pick([0.0, 2.0]) * self.gr.g
            if self.nc: self.B = np.round(r.normal(size=(n, self.nc)), 3); self.B[:, 0] = 1 if s.chance(1, 2) else self.B[:, 0]
            self.bvec = self.nc == 1 and s.chance(1, 2)
        self.y = np.round((f * s.pick([1.0, 0.0, 3.0]) + r.normal(size=n) * s.pick([1.0, 0.2, 5.0])) * 8) / 8
        if np.std(self.y) < 1e-3: raise Discard()
        kw = self.kw = dict(num_trees=s.pick([1, 2, 3, 5, 8, 15]), min_samples_leaf=s.range(1, 6), alpha=s.pick([0.95, 0.5, 0.999]), beta=s.pick([2.0, 0.5, 1.25]), cutpoint_grid_size=s.pick([100, 5, 2, 20]), num_gfr=s.range(0, 4), num_burnin=s.range(0, 3), num_mcmc=s.range(0, 5),
                            keep_burnin=s.chance(1, 3), keep_gfr=s.chance(1, 3), random_seed=s.seed() % 100000, sample_sigma=s.chance(3, 4), sample_tau=self.nb <= 1 and s.chance(3, 4))
        if kw["num_gfr"] + kw["num_burnin"] + kw["num_mcmc"] == 0: kw["num_mcmc"] = 1
        E = self.cols.E.shape[1] + self.nb
        if n < E + 4: kw["lambda"] = s.pick([0.5, 0.1]); kw["sigma2_init"] = s.pick([1.0, 0.2])
        for nm, vals in (("nu", [3.0, 1.0, 7.5]), ("tau_init", [0.5, 0.05]), ("a_leaf", [3.0, 1.5]), ("b_leaf", [0.3, 1.0]), ("q", [0.9, 0.75, 0.5]), ("lambda", [0.5, 0.1]), ("sigma2_init", [1.0, 0.2])):
            if s.chance(1, 5): kw.setdefault(nm, s.pick(vals))
        if "tau_init" in kw and self.nb > 1: kw["tau_init"] = np.diag([s.pick([0.5, 0.05]) for _ in range(self.nb)])
        self.vw = None
        if s.chance(1, 4): self.vw = np.array([s.pick([1.0, 2.0, 0.5, 0.0]) for _ in range(self.cols.p)])
        if self.vw is not None and self.vw.sum() == 0: self.vw[0] = 1.0
        k = s.range(0, 3); self.test = k > 0; self.map = None; self.Wt = self.gt = self.Bt = None
        if k == 1: self.map = r.integers(0, n, s.pick([1, 2, 7])); self.m = len(self.map); self.Xt, self.Et = self.cols.take(self.map); self.Wt = None if self.W is None else self.W[self.map]
        elif k: self.m = s.pick([1, 3, 11]); self.Xt, self.Et = self.cols.new(self.m); self.Wt = None if self.W is None else np.round(r.normal(size=(self.m, self.nb)), 3)
        self.rft = self.test and self.rfx and s.chance(5, 6)
        if self.rft:
            self.gt = self.gr.g[self.map] if k == 1 else r.integers(0, self.gr.G, self.m)
            if self.nc: self.Bt = self.B[self.map] if k == 1 else np.round(r.normal(size=(self.m, self.nc)), 3)
        self.yk = s.pick(["vector", "vector", "matrix", "int"])

    def basis(self, W): return None if W is None else W[:, 0] if self.wk == "vector" else W
    def rbasis(self, B): return None if B is None else B[:, 0] if self.bvec else B

    def args(self, y=None, notest=False, **over):
        y = self.y if y is None else y; a = dict(X_train=self.cols.X, y_train=y.reshape(-1, 1) if self.yk == "matrix" else y.astype(int) if self.yk == "int" and np.all(y == np.round(y)) else y, **dict(self.kw, **over))
        if self.W is not None: a["W_train"] = self.basis(self.W)
        if self.vw is not None: a["variable_weights"] = self.vw
        if self.rfx:
            a["group_ids_train"] = self.gr.rv()
            if self.nc: a["rfx_basis_train"] = self.rbasis(self.B)
        if self.test and not notest:
            a["X_test"] = self.Xt
            if self.W is not None: a["W_test"] = self.basis(self.Wt)
            if self.rft:
                a["group_ids_test"] = self.gr.rv(self.gt)
                if self.nc: a["rfx_basis_test"] = self.rbasis(self.Bt)
        return a

    def run(self, reset=False, var="m", **over): return R("%s <- do.call(bart, a); with(list(m = %s), %s)" % (var, var, GET), _reset=reset, a=self.args(**over))

    def __str__(self): return "n=%d X[%s] W=%d %s rfx=%s test=%s y=%s weights=%s %s; " % (self.n, self.cols, self.nb, self.wk, (self.gr.form, self.gr.G, self.nc) if self.rfx else None, ("rows of train" if self.map is not None else "new") + " %d" % self.m if self.test else None, self.yk, self.vw, self.kw)


def kept(kw):
    g, b, m = kw["num_gfr"], kw["num_burnin"], kw["num_mcmc"]; G = list(range(g)); B = list(range(g, g + b)); M = list(range(g + b, g + b + m))
    if m == 0: return G if g > 0 else B
    return M, G, B


def kept_set(kw):
    k = kept(kw)
    if isinstance(k, list): return k
    M, G, B = k; return sorted((G if kw["keep_gfr"] else []) + (B if kw["keep_burnin"] else []) + M)


@prop("P20", "the model has >= 2 retained draws and at least one split somewhere", timeout=120)
def P20(s, c):
    k = Case(s); c.note(str(k)); o = k.run(reset=True); kw = k.kw; n = k.n; tot = kw["num_gfr"] + kw["num_burnin"] + kw["num_mcmc"]
    idx = [int(i) - 1 for i in np.atleast_1d(o["keep"])]; want = kept_set(kw); S = len(want)
    c.check(sorted(idx) == want, "draw-count", lambda: "retained draws %s, requested %s" % (idx, want)); c.check(dims(o["y"]) == [n, S], "draw-count", lambda: "y_hat_train has dimensions %s, expected %d x %d" % (dims(o["y"]), n, S))
    cont = forest_json("m$forests"); c.check(cont["num_samples"] == tot, "draw-count", "stored draws %d, sampled %d" % (cont["num_samples"], tot))
    mean, sd = np.mean(k.y), np.std(k.y, ddof=1); Rf, _, _ = ref_forest(cont, k.cols.E, k.W); F = Rf * sd + mean
    c.check(np.all(np.isfinite(o["y"])), "non-finite", "non-finite training prediction")
    Gp = Gpt = 0.0
    if k.rfx:
        b, mp, raw = rfx_params("m$rfx_samples"); c.check(b.shape == (max(1, k.nc), k.gr.G, tot), "rfx-shape", lambda: "random effect draws have shape %s" % (b.shape,)); c.check(sorted(mp) == list(range(1, k.gr.G + 1)) and sorted(mp.values()) == sorted(mp), "rfx-labels", lambda: "label mapping %s" % mp)
        B = np.ones((n, 1)) if k.B is None else k.B; Gp = rfx_pred(b, mp, k.gr.code(), B) * sd; c.check(dims(o["rf"]) == [n, S] and close(o["rf"], Gp[:, idx]), "rfx-fit", "rfx_preds_train is not the stored random effects applied to the training groups and basis")
    c.check(close(o["y"], (F + Gp)[:, idx], 1e-8, 1e-8), "train-fit", lambda: "y_hat_train is not forest plus random effects on the outcome scale for draws %s (max difference %g)" % (idx, np.max(np.abs(o["y"] - (F + Gp)[:, idx]))))
    if k.test:
        c.check(dims(o["yt"]) == [k.m, S], "draw-count", lambda: "y_hat_test has dimensions %s, expected %d x %d" % (dims(o["yt"]), k.m, S)); Ft = ref_forest(cont, k.Et, k.Wt)[0] * sd + mean
        if k.rft: Gpt = rfx_pred(b, mp, k.gr.code(k.gt), np.ones((k.m, 1)) if k.Bt is None else k.Bt) * sd; c.check(dims(o["rft"]) == [k.m, S] and close(o["rft"], Gpt[:, idx]), "rfx-fit", "rfx_preds_test is not the stored random effects applied to the test groups and basis")
        c.check(close(o["yt"], (Ft + Gpt)[:, idx], 1e-8, 1e-8), "test-fit", "y_hat_test is not forest plus random effects on the outcome scale")
        if k.map is not None and (k.rft or not k.rfx): c.check(close(o["yt"], o["y"][k.map]), "test-rows", "test rows copied from the training data have other predictions than those training rows")
    # predict()
    a = dict(bart=None, X_test=k.cols.X, W_test=k.basis(k.W)); a.update(dict(group_ids_test=k.gr.rv(), rfx_basis_test=k.rbasis(k.B)) if k.rfx else {}); a.pop("bart")
    p = R("p <- do.call(predict, c(list(m), a)); p", a=a); c.check(close(p["y_hat"], o["y"]) and dims(p["y_hat"]) == [n, S], "predict-train", lambda: "predict() on the training inputs differs from y_hat_train (dimensions %s)" % dims(p["y_hat"]))
    if k.rfx: c.check(close(p["rfx_predictions"], o["rf"]) and close(p["forest_predictions"], F[:, idx], 1e-8, 1e-8), "predict-terms", "predict() terms differ from the training fit terms")
    p = R("do.call(predict, c(list(m), a, list(predict_all = TRUE)))$y_hat", a=a); c.check(dims(p) == [n, tot] and close(p, F + Gp, 1e-8, 1e-8), "predict-all", lambda: "predict(predict_all = TRUE) has dimensions %s or other values than the %d stored draws" % (dims(p), tot))
    if k.test and (k.rft or not k.rfx):
        a = dict(X_test=k.Xt, W_test=k.basis(k.Wt)); a.update(dict(group_ids_test=k.gr.rv(k.gt), rfx_basis_test=k.rbasis(k.Bt)) if k.rfx else {}); p = R("do.call(predict, c(list(m), a))$y_hat", a=a); c.check(dims(p) == [k.m, S] and close(p, o["yt"]), "predict-test", lambda: "predict() on the test inputs differs from y_hat_test (dimensions %s)" % dims(p))
    # traces
    for on, nm in ((kw["sample_sigma"], "s2"), (kw["sample_tau"], "tau")):
        t = o.get(nm); c.check((t is not None) == on, "trace", "trace %s present: %s, requested %s" % (nm, t is not None, on))
        if on: c.check(np.size(t) == S and np.all(np.isfinite(t)) and np.all(np.asarray(t) > 0), "trace", lambda: "%s: length %d for %d retained draws" % (nm, np.size(t), S))
    g = {q: np.atleast_1d(v) for q, v in o["mp"].items()}
    for q in ("num_gfr", "num_burnin", "num_mcmc", "sample_sigma", "sample_tau", "nu", "lambda", "sigma2_init"):
        if q in kw: c.check(float(g[q][0]) == float(kw[q]), "params", lambda: "model_params$%s is %s, requested %s" % (q, g[q], kw[q]))
    if "lambda" not in kw and "sigma2_init" not in kw: nu = kw.get("nu", 3.0); w = float(g["sigma2_init"][0]) * stats.gamma.ppf(1 - kw.get("q", 0.9), nu) / nu; c.check(close(float(g["lambda"][0]), w, 1e-7, 0), "calibration", lambda: "lambda %g, expected %g for q=%g, nu=%g" % (g["lambda"][0], w, kw.get("q", 0.9), nu))
    for d in range(max(1, kw["num_gfr"]), tot):
        x, y = leaves_of(cont["forest_%d" % (d - 1)]), leaves_of(cont["forest_%d" % d]); c.check(all(abs(u - v) <= 1 for u, v in zip(x, y)), "mcmc-step", lambda: "draw %d changes a tree by more than one split (%s -> %s)" % (d, x, y))
    if k.vw is not None: bad = [q for q in split_columns(cont) if k.vw[k.cols.orig[q] - 1] == 0]; c.check(not bad, "zero-weight", lambda: "splits on encoded columns %s whose variable has weight 0 (%s)" % (bad, k.vw))
    if k.rfx:
        scaled_rfx(c, sd)
    # relations between runs with the same seed
    rel = s.range(0, 4); c.count("relation_%d" % rel)
    if rel == 0:
        e = s.range(0, 2); over = dict(num_mcmc=kw["num_mcmc"] + e, keep_gfr=s.chance(1, 2), keep_burnin=s.chance(1, 2)); o2 = k.run(var="m2", **over); idx2 = [int(i) - 1 for i in np.atleast_1d(o2["keep"])]
        c.check(sorted(idx2) == kept_set(dict(kw, **over)), "draw-count", lambda: "retained draws %s for %s" % (idx2, over))
        for i in set(idx) & set(idx2):
            u, v = idx.index(i), idx2.index(i); c.check(same(o["y"][:, u], o2["y"][:, v]), "schedule", "draw %d differs between a run and a longer run with other keep flags" % i)
            for nm in ("s2", "tau"):
                if o.get(nm) is not None: c.check(np.atleast_1d(o[nm])[u] == np.atleast_1d(o2[nm])[v], "schedule", "the %s trace differs between a run and a longer run" % nm)
    elif rel == 1 and kw["num_gfr"] > 0 and tot > kw["num_gfr"]:
        k.run(var="m2", num_mcmc=0, num_burnin=0); R2 = ref_forest(forest_json("m2$forests"), k.cols.E, k.W)[0]; c.check(same(R2, Rf[:, :kw["num_gfr"]]), "schedule", "grow-from-root draws differ from those of a run without MCMC")
    elif rel == 2:
        f = s.pick([2.0, 0.25, 64.0]); sh = s.pick([0.0, 8.0, -16.0]) if n & (n - 1) == 0 else 0.0; o2 = k.run(var="m2", y=f * k.y + sh); c.check(close(o2["y"], f * o["y"] + sh, 1e-9, 1e-9 * f), "units", "y -> %g y + %g does not map the predictions the same way" % (f, sh))
        if kw["sample_sigma"]: c.check(close(np.asarray(o2["s2"]) / f**2, o["s2"]), "units", "error variances do not scale with the outcome")
    elif rel == 3 and k.test: o2 = k.run(var="m2", notest=True); c.check(same(o["y"], o2["y"]), "test-influence", "training fits depend on the test set")
    elif rel == 4: o2 = k.run(var="m2"); c.check(same(o["y"], o2["y"]) and same(np.asarray(o.get("s2", 0.0), dtype=float) if o.get("s2") is not None else np.zeros(1), np.asarray(o2.get("s2"), dtype=float) if o2.get("s2") is not None else np.zeros(1)), "repeat", "two runs with the same seed differ")
    ns = num_splits(cont); c.count("splits", ns); c.count("rfx", k.rfx); c.count("frame", k.cols.frame); c.count("multi_basis", k.nb > 1); c.count("test_set", k.test); c.nontrivial = S >= 2 and ns > 0


@prop("P20v", "both traces are sampled over >= 200 draws", timeout=120)
def P20v(s, c):
    """each variance draw follows its full conditional given the forest draw of the same index and the random effects of the draw before"""
    n = s.range(6, 16); r = s.sub(); T = s.pick([1, 2, 3]); X = np.round(r.normal(size=(n, s.range(1, 2))), 2); W = np.round(r.normal(size=(n, 1)) + 1, 2) if s.chance(1, 2) else None; rfx = s.chance(1, 2)
    y = s.pick([0.0, 2.0]) * (X[:, 0] > 0) + r.normal(size=n); g, b, N = s.pick([0, 2, 60]), s.pick([0, 3]), 220; nu, lam, al, bl = s.pick([3.0, 1.5]), s.pick([0.3, 1.0]), *s.pick([(3.0, 0.2), (1.5, 1.0), (4.0, 5.0), (2.0, 0.02), (12.0, 1.0)]); s2i = s.pick([1.0, 0.2])
    a = dict(X_train=X, y_train=y, num_trees=T, num_gfr=g, num_burnin=b, num_mcmc=N, nu=nu, sigma2_init=s2i, a_leaf=al, b_leaf=bl, min_samples_leaf=1, random_seed=s.seed() % 100000, keep_gfr=g > 0, keep_burnin=b > 0); a["lambda"] = lam
    if W is not None: a["W_train"] = W
    B = np.ones((n, 1))
    if rfx:
        gr = Groups(s, r, n); a["group_ids_train"] = gr.rv()
        if s.chance(1, 2): B = np.column_stack([np.ones(n), np.round(r.normal(size=n), 2)]); a["rfx_basis_train"] = B
    c.note("n=%d W=%s rfx=%s %s" % (n, W is not None, rfx, {q: v for q, v in a.items() if not isinstance(v, np.ndarray)})); o = R("m <- do.call(bart, a); list(s2 = m$sigma2_samples, tau = m$tau_samples, keep = m$keep_indices)", _reset=True, a=a); keep = [int(i) - 1 for i in o["keep"]]
    tot = g + b + N; c.check(sorted(keep) == list(range(tot)), "draw-count", "keep flags for all phases do not keep all draws"); inv = np.argsort(keep); s2 = np.asarray(o["s2"])[inv]; tau = np.asarray(o["tau"])[inv]; cont = forest_json("m$forests"); sd = np.std(y, ddof=1); e = (y - np.mean(y)) / sd
    F = ref_forest(cont, X, W)[0]; G = np.zeros((n, tot))
    if rfx: bb, mp, _ = rfx_params("m$rfx_samples"); G[:, 1:] = rfx_pred(bb, mp, gr.code(), B)[:, :-1]
    ssr = np.sum((e[:, None] - F - G) ** 2, axis=0); u = ig_pit(s2 / sd**2, (nu + n) / 2, (nu * lam + ssr) / 2); p = phase_p(u, g)
    c.check(p > 1e-9, "sigma2-trace", lambda: "error variance draws do not follow their full conditional given the forest draw of the same index (KS p=%g over %d draws, mean PIT %.3f)" % (p, len(u), np.mean(u)))
    K = np.array([sum(leaves_of(cont["forest_%d" % d])) for d in range(tot)]); SS = np.array([sum(np.sum(leaf_values(t)[t["leaves"]] ** 2) for t in (cont["forest_%d" % d]["tree_%d" % q] for q in range(T))) for d in range(tot)])
    u = ig_pit(tau, (al + K) / 2, (bl + SS) / 2); p = phase_p(u, g); c.check(p > 1e-9, "leaf-scale-trace", lambda: "leaf scale draws do not follow their full conditional given the forest draw of the same index (KS p=%g, mean PIT %.3f)" % (p, np.mean(u)))
    c.nontrivial = True; c.count("draws", tot); c.count("rfx", rfx)


if __name__ == "__main__": pbt.main()
