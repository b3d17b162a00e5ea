"""P18 (Python BART) and the Python part of P17."""
import os, subprocess, sys
import numpy as np, pandas as pd
import pbt
from pbt import prop, Discard
from common import *
from stochtree import BARTModel, Dataset


class Case:
    def __init__(self, s, long=False):
        self.n = n = s.pick([8, 16, 32, 12, 20, 35, 60, 6]); self.seed = s.seed() % 100000
        self.cols = Cols(s, flat=True); r = s.sub()
        self.X = self.cols.make(r, n, cover=True)
        self.nb = s.pick([0, 0, 1, 1, 2, 3])
        self.basis = None if self.nb == 0 else as_layout(np.round(r.normal(size=(n, self.nb)) + 0.5, 3), s.pick(["C", "F", "strided", "float32"]))
        if self.nb == 1 and s.chance(1, 3): self.basis = self.basis[:, 0]
        self.y = np.round(outcome(s, r, self.X, n, None if self.basis is None else np.asarray(self.basis, dtype=float)) * 8) / 8
        if np.std(self.y) < 1e-3: raise Discard()
        # the error variance prior is calibrated on a regression: leave it residual degrees of freedom
        self.kw = dict(num_trees=s.pick([1, 2, 3, 5, 8, 15]), min_samples_leaf=s.range(1, 6), alpha=s.pick([0.95, 0.5, 0.999]), beta=s.pick([2.0, 0.5, 1.25]), cutpoint_grid_size=s.pick([100, 5, 2, 20]),
                       num_gfr=s.range(0, 4), num_burnin=s.range(0, 3), num_mcmc=s.range(0, 5), keep_burnin=s.chance(1, 3), keep_gfr=s.chance(1, 3), random_seed=self.seed,
                       sample_sigma_global=s.chance(3, 4), sample_sigma_leaf=self.nb <= 1 and s.chance(3, 4))
        if self.kw["num_gfr"] + self.kw["num_burnin"] + self.kw["num_mcmc"] == 0: self.kw["num_mcmc"] = 1
        V = sum(1 if not c else len(c) for _, c in self.cols.cols)
        if n < V + 4 or s.chance(1, 3): self.kw["lamb"] = s.pick([0.5, 0.1, 2.0])
        if "lamb" in self.kw and (n < V + 4 or s.chance(1, 2)): self.kw["sigma2"] = s.pick([1.0, 0.2])
        elif s.chance(1, 5): self.kw["sigma2"] = s.pick([1.0, 0.2])
        for nm, vals in (("nu", [3, 1, 7.5, 0.6]), ("sigma_leaf", [0.5, 0.05]), ("a_leaf", [3, 1.5]), ("b_leaf", [0.3, 1.0]), ("q", [0.9, 0.75])):
            if s.chance(1, 4): self.kw[nm] = s.pick(vals)
        k = s.range(0, 3); self.Xt = self.bt = None; self.map = None
        if k == 1: self.map = r.integers(0, n, s.pick([1, 2, 7, n])); self.Xt = take(self.X, self.map); self.bt = None if self.basis is None else self.basis[self.map]
        elif k >= 2:
            m = s.pick([1, 3, 11]); self.Xt = self.cols.make(r, m); self.bt = None if self.basis is None else (np.round(r.normal(size=(m, self.nb)), 3) if self.basis.ndim == 2 else np.round(r.normal(size=m), 3))
        self.ylay = s.pick(["C", "col", "strided", "int"]) if np.all(self.y == np.round(self.y)) else s.pick(["C", "col", "strided"])

    def yarr(self, y):
        return y.reshape(-1, 1) if self.ylay == "col" else as_layout(y, "strided") if self.ylay == "strided" else y

    def run(self, y=None, **over):
        kw = dict(self.kw); kw.update(over); m = BARTModel()
        a = dict(X_train=self.X, y_train=self.yarr(self.y if y is None else y), **kw)
        if self.basis is not None: a["basis_train"] = self.basis
        if self.Xt is not None and not over.get("_notest"):
            a["X_test"] = self.Xt
            if self.bt is not None: a["basis_test"] = self.bt
        m.sample(**a); return m

    def __str__(self): return "n=%d X[%s] basis=%d test=%s y=%s %s; " % (self.n, self.cols, self.nb, None if self.Xt is None else ("rows of train" if self.map is not None else "new") + " %d" % len(self.Xt), self.ylay, {k: v for k, v in self.kw.items()})


def kept(kw):
    g, b, m = kw["num_gfr"], kw["num_burnin"], kw["num_mcmc"]; G = list(range(g)); B = list(range(g, g + b)); M = list(range(g + b, g + b + m))
    if m == 0: return G if g > 0 else B
    return (G if kw["keep_gfr"] else B if kw["keep_burnin"] else []) + M


@prop("P18", "the model has >= 2 retained draws and at least one split somewhere")
def P18(s, c):
    k = Case(s); c.note(str(k)); Xcopy = k.X.copy(); ycopy = k.y.copy()
    m = k.run(); kw = k.kw; idx = kept(kw); n = k.n; tot = kw["num_gfr"] + kw["num_burnin"] + kw["num_mcmc"]
    c.check(k.X.equals(Xcopy) if isinstance(k.X, pd.DataFrame) else same(k.X, Xcopy), "input-changed", "X_train was modified"); c.check(same(k.y, ycopy), "input-changed", "y_train was modified")
    c.check(m.y_hat_train.shape == (n, len(idx)), "draw-count", lambda: "y_hat_train has shape %s, expected %s retained draws" % (m.y_hat_train.shape, len(idx)))
    cont = container_json(m.forest_container); c.check(cont["num_samples"] == tot, "draw-count", "container holds %d draws, %d were sampled" % (cont["num_samples"], tot))
    c.check(np.all(np.isfinite(m.y_hat_train)), "non-finite", "non-finite training prediction")
    P = m.predict(k.X) if k.basis is None else m.predict(k.X, k.basis)
    c.check(close(P, m.y_hat_train), "predict-train", "predict() on the training inputs differs from y_hat_train")
    # independent evaluation of every stored draw on the documented encoding
    Z = m._covariate_transformer.transform(two(k.X)); R = ref_forest(cont, Z, k.basis)[0]
    mu, sd = np.mean(k.y), np.std(k.y)
    c.check(close(R[:, idx] * sd + mu, m.y_hat_train, 1e-8, 1e-8), "retained-draws", lambda: "y_hat_train is not the expected selection %s of the %d sampled draws on the outcome scale" % (idx, tot))
    if k.Xt is not None:
        c.check(m.y_hat_test.shape == (len(k.Xt), len(idx)), "draw-count", "y_hat_test has shape %s" % (m.y_hat_test.shape,))
        Pt = m.predict(k.Xt) if k.basis is None else m.predict(k.Xt, k.bt)
        c.check(close(Pt, m.y_hat_test), "predict-test", "predict() on the test inputs differs from y_hat_test")
        if k.map is not None: c.check(close(m.y_hat_test, m.y_hat_train[k.map]), "test-rows", "test rows copied from the training data have other predictions than those training rows")
        else: c.check(close(ref_forest(cont, m._covariate_transformer.transform(two(k.Xt)), k.bt)[0][:, idx] * sd + mu, m.y_hat_test, 1e-8, 1e-8), "retained-draws", "y_hat_test is not the selection of the sampled draws")
    for on, nm in ((kw["sample_sigma_global"], "global_var_samples"), (kw["sample_sigma_leaf"], "leaf_scale_samples")):
        if on:
            t = getattr(m, nm); c.check(len(t) == tot and np.all(np.isfinite(t)) and np.all(t > 0), "trace", lambda: "%s: length %d for %d draws, min %s" % (nm, len(t), tot, np.min(t) if len(t) else None))
    # MCMC draws continue from the previous draw: one grow or prune per tree
    for d in range(max(1, kw["num_gfr"]), tot):
        a, b = leaves_of(cont["forest_%d" % (d - 1)]), leaves_of(cont["forest_%d" % d])
        c.check(all(abs(x - y) <= 1 for x, y in zip(a, b)), "mcmc-step", lambda: "draw %d changes a tree by more than one split (%s -> %s)" % (d, a, b))
    # relations between runs with the same seed
    rel = s.range(0, 3); c.count("relation_%d" % rel)
    if rel == 0:      # a longer chain with other keep flags contains the same draws
        e = s.range(0, 2); kg, kb = s.chance(1, 2), s.chance(1, 2); m2 = k.run(num_mcmc=kw["num_mcmc"] + e, keep_gfr=kg, keep_burnin=kb)
        idx2 = kept(dict(kw, num_mcmc=kw["num_mcmc"] + e, keep_gfr=kg, keep_burnin=kb)); both = [(idx.index(i), idx2.index(i)) for i in idx if i in idx2]
        c.check(all(same(m.y_hat_train[:, a], m2.y_hat_train[:, b]) for a, b in both), "schedule", "the same draws differ between a run and a longer run with other keep flags")
        if kw["sample_sigma_global"]: c.check(same(m.global_var_samples, m2.global_var_samples[:tot]), "schedule", "the variance trace differs between a run and a longer run")
        if kw["sample_sigma_leaf"]: c.check(same(m.leaf_scale_samples, m2.leaf_scale_samples[:tot]), "schedule", "the leaf scale trace differs between a run and a longer run")
    elif rel == 1 and kw["num_gfr"] > 0 and tot > kw["num_gfr"]:     # the warm start is the run without MCMC
        m2 = k.run(num_mcmc=0, num_burnin=0); g = kw["num_gfr"]; R2 = ref_forest(container_json(m2.forest_container), Z, k.basis)[0]
        c.check(m2.y_hat_train.shape == (n, g) and same(R2, R[:, :g]), "schedule", "grow-from-root draws differ from those of a run without MCMC")
    elif rel == 2:    # outcome in other units: exact for powers of two and dyadic shifts
        a = s.pick([2.0, 0.25, 64.0]); shift = s.pick([0.0, 8.0, -16.0]) if n & (n - 1) == 0 else 0.0
        m2 = k.run(y=a * k.y + shift); c.check(close(m2.y_hat_train, a * m.y_hat_train + shift, 1e-9, 1e-9 * a), "units", lambda: "y -> %g y + %g does not map the predictions the same way: %s" % (a, shift, np.max(np.abs(m2.y_hat_train - a * m.y_hat_train - shift))))
        if kw["sample_sigma_global"]: c.check(close(m2.global_var_samples / a**2, m.global_var_samples), "units", "error variances do not scale with the outcome")
        if kw["sample_sigma_leaf"]: c.check(close(m2.leaf_scale_samples, m.leaf_scale_samples), "units", "leaf scales depend on the outcome units")
    elif rel == 3 and k.Xt is not None:      # the test set does not influence the fit
        X0 = k.Xt; k.Xt = None; m2 = k.run(); k.Xt = X0
        c.check(same(m.y_hat_train, m2.y_hat_train), "test-influence", "training fits depend on the test set")
    ns = num_splits(cont); c.count("splits", ns); c.count("frame", k.cols.frame); c.count("multi_basis", k.nb > 1); c.count("test_set", k.Xt is not None)
    c.nontrivial = len(idx) >= 2 and ns > 0
    c.note("relation %d, %d splits in %d draws" % (rel, ns, tot))


@prop("P18v", "both traces are sampled over >= 30 draws", timeout=120)
def P18v(s, c):
    """the variance traces line up with the draws: each value is a draw from its full conditional given that draw's forest"""
    n = s.range(4, 14); r = s.sub(); T = s.pick([1, 2, 3]); X = np.round(r.normal(size=(n, s.range(1, 2))), 2); basis = r.normal(size=n) + 1 if s.chance(1, 2) else None
    y = s.pick([0.0, 2.0]) * (X[:, 0] > 0) + r.normal(size=n)
    g, b, N = s.pick([0, 2, 60]), s.pick([0, 3]), 220; nu, lamb, al, bl = s.pick([3, 1.5]), s.pick([0.3, 1.0]), *s.pick([(3.0, 0.2), (1.5, 1.0), (4.0, 5.0), (2.0, 0.02), (12.0, 1.0)])
    kw = dict(num_trees=T, num_gfr=g, num_burnin=b, num_mcmc=N, nu=nu, lamb=lamb, sigma2=1.0, a_leaf=al, b_leaf=bl, min_samples_leaf=1, random_seed=s.seed() % 100000)
    c.note("n=%d basis=%s %s" % (n, basis is not None, kw)); m = BARTModel(); a = dict(X_train=X, y_train=y, **kw)
    if basis is not None: a["basis_train"] = basis
    m.sample(**a); cont = container_json(m.forest_container); sd = np.std(y); e = (y - np.mean(y)) / sd; R = ref_forest(cont, X, basis)[0]
    ssr = np.sum((e[:, None] - R) ** 2, axis=0); u = ig_pit(m.global_var_samples / sd**2, (nu + n) / 2, (nu * lamb + ssr) / 2)
    p = phase_p(u, g); c.check(p > 1e-9, "sigma2-trace", lambda: "error variance draws do not follow their full conditional given the forest draw of the same index (KS p=%g over %d draws, mean PIT %.3f)" % (p, len(u), np.mean(u)))
    K = np.array([sum(leaves_of(cont["forest_%d" % d])) for d in range(g + b + N)]); SS = np.array([sum(np.sum(leaf_values(t)[t["leaves"]] ** 2) for t in (cont["forest_%d" % d]["tree_%d" % q] for q in range(T))) for d in range(g + b + N)])
    u = ig_pit(m.leaf_scale_samples, (al + K) / 2, (bl + SS) / 2); p = phase_p(u, g)
    c.check(p > 1e-9, "leaf-scale-trace", lambda: "leaf scale draws do not follow their full conditional given the forest draw of the same index (KS p=%g, mean PIT %.3f)" % (p, np.mean(u)))
    c.nontrivial = True; c.count("draws", g + b + N)


if __name__ == "__main__": pbt.main()
