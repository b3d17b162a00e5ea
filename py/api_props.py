"""P06 through the low-level Python and R interfaces: residual + fits of all terms stays the outcome over histories of
sampling steps, basis refreshes and whole-forest additions, with the residual read back through the public calls."""
import os
import numpy as np
import pbt, rlink
from pbt import prop
from common import ref_forest, container_json, leaves_of
from rmodel import R, forest_json, rfx_params, rfx_pred
from stochtree import Dataset, Residual, RNG, ForestContainer, ForestSampler, GlobalVarianceModel

pbt.PRE_FORK[:] = [rlink.before_fork] if "VP_R_SO" in os.environ else []      # the Python half needs no R process


class Term:
    def __init__(self, s, r, n):
        self.p, self.T, self.nb = s.range(1, 3), s.range(1, 4), s.pick([0, 0, 1, 1, 2, 3]); p = self.p; self.X = np.round(r.normal(size=(n, p)), 1); self.ft = np.array([s.pick([0, 0, 1, 2]) for _ in range(p)])
        for k in range(p):
            if self.ft[k]: self.X[:, k] = r.integers(0, 4, n)
        self.B = self.basis(r, n) if self.nb else None; self.w = np.round(np.exp(r.normal(size=n)), 1) + .1 if s.chance(1, 3) else None
        self.alpha, self.beta, self.msl = s.pick([.95, .6]), s.pick([2., .5]), s.range(1, 3); self.vw = np.round(r.uniform(size=p) + .1, 2); self.vw /= self.vw.sum(); self.dim = max(self.nb, 1); self.sc = np.eye(self.dim) * s.pick([.4, 1.5, .05]); self.lm = min(self.nb, 2)
        if self.nb > 1 and s.chance(1, 2): a = np.round(r.normal(size=(self.nb, self.nb)), 2); self.sc = self.sc * .5 + .1 * a @ a.T
        self.root = None if self.nb < 2 and s.chance(1, 3) else np.round(r.normal(size=self.nb), 2) if self.nb > 1 else float(np.round(r.normal(), 2)); self.fit = np.zeros(n); self.last = -1

    def basis(self, r, n): return np.round(r.normal(size=(n, self.nb)) + .5 * r.integers(0, 2), 2) if r.integers(0, 3) else r.integers(0, 2, (n, self.nb)).astype(float)

    def value(self, cont): return ref_forest(cont, self.X, self.B)[0][:, -1]
    def root_value(self): return self.T * (float(self.root) * (self.B[:, 0] if self.nb else 1.0) if self.nb < 2 else self.B @ self.root) + np.zeros(len(self.X))

    def __str__(self): return "p=%d types=%s trees=%d basis=%d weights=%s root=%s" % (self.p, self.ft.tolist(), self.T, self.nb, self.w is not None, self.root)


class Py:
    def __init__(self, y, terms, seed):
        n = len(y); self.res, self.rng, self.gv = Residual(y), RNG(seed), GlobalVarianceModel(); self.o = []; self.n = n; self.base = None
        for t in terms:
            d = Dataset(); d.add_covariates(t.X)
            if t.nb: d.add_basis(t.B)
            if t.w is not None: d.add_variance_weights(t.w)
            self.o.append((d, ForestContainer(t.T, t.dim, t.nb == 0), ForestSampler(d, t.ft, t.T, n, t.alpha, t.beta, t.msl)))
        self.pd = Dataset(); self.pd.add_covariates(np.zeros((n, 1))); self.pd.add_basis(np.zeros((n, 1))); self.pf = ForestContainer(1, 1, False); self.pf.set_root_leaves(0, 1.0); self.ps = ForestSampler(self.pd, np.array([0]), 1, n, .9, 2., 1)
        self.base = self.gv.sample_one_iteration(Residual(np.zeros(n)), RNG(7), 3.0, 1.0)

    def root(self, j, t): self.o[j][1].set_root_leaves(0, t.root)
    def whole(self, j, t, k, add): d, fc, fs = self.o[j]; fs.update_residual(d, self.res, fc, t.nb > 0, k, add)
    def basis(self, j, B): self.o[j][0].update_basis(B)
    def step(self, j, t, gfr, grid, s2): d, fc, fs = self.o[j]; fs.sample_one_iteration(fc, d, self.res, self.rng, t.ft, grid, t.sc, t.vw, s2, t.lm, gfr, t.root is not None)
    def cont(self, j): return container_json(self.o[j][1])
    def variance(self): return self.gv.sample_one_iteration(self.res, self.rng, 3.0, 1.0)
    def ssr(self): return self.gv.sample_one_iteration(self.res, RNG(7), 3.0, 1.0) / self.base * 3 - 3
    def probe(self, u, add): self.pd.update_basis(u[:, None]); self.ps.update_residual(self.pd, self.res, self.pf, True, 0, add)
    def predict(self, j): return np.asarray(self.o[j][1].predict(self.o[j][0]))


class InR:
    def __init__(self, y, terms, seed):
        n = len(y); self.n = n; R("""res <- createOutcome(y); rng <- createRNG(seed); d <- list(); fc <- list(); fm <- list()
            pd <- createForestDataset(matrix(0, n, 1), matrix(0, n, 1)); pf <- createForestContainer(1, 1, FALSE); pf$set_root_leaves(0L, 1.0); pm <- createForestModel(pd, 0L, 1, n, .9, 2., 1L)
            base <- sample_sigma2_one_iteration(createOutcome(rep(0, n)), createRNG(7), 3, 1); 1""", _reset=True, y=y, seed=seed, n=n)
        for t in terms: R("k <- length(d) + 1; d[[k]] <- createForestDataset(X, B, w); fc[[k]] <- createForestContainer(T_, dim_, nb == 0); fm[[k]] <- createForestModel(d[[k]], ft, T_, nrow(X), al, be, msl); 1", X=t.X, B=t.B, w=t.w, T_=t.T, dim_=t.dim, nb=t.nb, ft=rlink.Ints(t.ft.tolist()), al=t.alpha, be=t.beta, msl=t.msl)

    def root(self, j, t): R("fc[[j]]$set_root_leaves(0L, v); 1", j=j + 1, v=t.root)
    def whole(self, j, t, k, add): R("fc[[j]]$update_residual(d[[j]], res, fm[[j]], rb, k, add); 1", j=j + 1, rb=t.nb > 0, k=rlink.Ints([k]), add=add)
    def basis(self, j, B): R("d[[j]]$update_basis(B); 1", j=j + 1, B=B)
    def step(self, j, t, gfr, grid, s2): R("fm[[j]]$sample_one_iteration(d[[j]], res, fc[[j]], rng, ft, lm_, sc, vw, s2, cutpoint_grid_size = grid, gfr = gfr, pre_initialized = pre); 1", j=j + 1, ft=rlink.Ints(t.ft.tolist()), lm_=t.lm, sc=t.sc, vw=t.vw, s2=s2, grid=grid, gfr=gfr, pre=t.root is not None)
    def cont(self, j): return forest_json("fc[[%d]]" % (j + 1))
    def variance(self): return float(np.atleast_1d(R("sample_sigma2_one_iteration(res, rng, 3, 1)"))[0])
    def ssr(self): return float(np.atleast_1d(R("sample_sigma2_one_iteration(res, createRNG(7), 3, 1) / base * 3 - 3"))[0])
    def probe(self, u, add): R("pd$update_basis(u); pf$update_residual(pd, res, pm, TRUE, 0L, add); 1", u=u[:, None], add=add)
    def predict(self, j): return np.asarray(R("fc[[j]]$predict(d[[j]])", j=j + 1), dtype=float).reshape(self.n, -1, order="F")

    def rfx(self, r, n, s):
        self.k, G = s.range(1, 2), s.range(1, 4); self.ids = np.array([3, 11, 7, 100][:G]); self.g = r.integers(0, G, n); self.g[:G] = np.arange(G); self.W = np.column_stack([np.ones(n)] + [np.round(r.normal(size=n), 2)] * (self.k - 1))
        R("""rd <- createRandomEffectsDataset(g, W); rt <- createRandomEffectsTracker(g); rm_ <- createRandomEffectsModel(k, G); rm_$set_working_parameter(rep(1.0, k)); rm_$set_group_parameters(matrix(xi, k, G))
             rm_$set_working_parameter_cov(diag(1.0, k, k)); rm_$set_group_parameter_cov(diag(1.0, k, k)); rm_$set_variance_prior_shape(1.0); rm_$set_variance_prior_scale(1.0); rs <- createRandomEffectSamples(k, G, rt); 1""", g=rlink.Ints([int(v) for v in self.ids[self.g]]), W=self.W, k=rlink.Ints([self.k]), G=rlink.Ints([G]), xi=.5 * float(s.range(0, 2)))

    def rfx_step(self, s2):
        R("rm_$sample_random_effect(rd, res, rt, rs, s2, rng); 1", s2=s2); b, mp, _ = rfx_params("rs"); a = rfx_pred(b, mp, self.ids[self.g], self.W)[:, -1]
        got = np.asarray(R("rs$predict(g, W)", g=rlink.Ints([int(v) for v in self.ids[self.g]]), W=self.W), dtype=float).reshape(self.n, -1, order="F")[:, -1]; cur = np.asarray(R("rm_$predict(rd, rt)"), dtype=float).ravel(); return a, got, cur


def history(s, c, backend, rfx):
    r = s.sub(); n = s.pick([5, 9, 16, 40]); y = np.round(r.normal(size=n) * s.pick([1., 3.]) + s.pick([0., 0., 4.]), 3); terms = [Term(s, r, n) for _ in range(s.pick([1, 2, 2]))]; seed = s.range(0, 10**6); log = []
    for t in terms: y = y + 2 * (t.X[:, 0] > 0)
    b = backend(y, terms, seed); off = np.zeros(n); rf = np.zeros(n); hasr = rfx and s.chance(1, 2)
    if hasr: b.rfx(r, n, s)
    c.note("n=%d %s%s:" % (n, "; ".join(map(str, terms)), " +rfx" if hasr else "")); steps = 0; splits = 0

    def verify(what):
        e = y + off - rf - sum(t.fit for t in terms); sc = float(e @ e) + 1.0; mag = float(max(np.abs(q).max() for q in [y, off, rf] + [t.fit for t in terms])) ** 2 * n + sc; tol = 1e-9 * mag; m = b.ssr()
        c.check(abs(m - e @ e) <= tol, "ssr", lambda: "after %s the residual's sum of squares is %.10g, outcome minus all fits gives %.10g" % (", ".join(log), m, e @ e))
        u = np.round(np.random.default_rng(len(log)).normal(size=n), 2) * max(1.0, np.sqrt(sc / n)); b.probe(u, True); q = (b.ssr() - m - u @ u) / 2; b.probe(u, False)
        c.check(abs(q - u @ e) <= 4 * tol + 1e-9 * float(u @ u), "rows", lambda: "after %s the residual's rows differ from outcome minus all fits: projection %.10g instead of %.10g" % (", ".join(log), q, u @ e))

    def move(j, t, add):      # a whole forest's fit goes into (out of) the residual and becomes the cached fit
        nonlocal off
        b.whole(j, t, t.last, add); v = t.value(b.cont(j)); off = off + (v if add else -v) + (v - t.fit); t.fit = v

    for j, t in enumerate(terms):
        if t.root is None: continue
        b.root(j, t)
        if s.chance(3, 4): b.whole(j, t, 0, False); t.fit = t.root_value(); log.append("root %d taken from the residual" % j)
        else: b.whole(j, t, 0, True); t.fit = t.root_value(); off = off + 2 * t.fit; log.append("root %d added" % j)      # residual = y + root, while the root is the cached fit
        verify("root")
    for _ in range(s.range(1, 8)):
        k = s.range(0, 11); j = s.raw(len(terms)); t = terms[j]; c.note(" %d@%d" % (k, j))
        if k <= 5 or (k <= 8 and t.last < 0):
            gfr = s.chance(1, 3); b.step(j, t, gfr, s.pick([100, 4, 1]), s.pick([1., .3, 2.])); t.last += 1; steps += 1; cont = b.cont(j); c.check(cont["num_samples"] == t.last + 1, "kept", "a step did not add one forest"); t.fit = t.value(cont); splits += sum(leaves_of(cont["forest_%d" % t.last])) - t.T
            log.append("%s step of forest %d" % ("grow-from-root" if gfr else "MCMC", j)); c.count("steps_gfr" if gfr else "steps_mcmc"); c.count("steps_leaf_%d" % t.lm)
        elif k == 6: move(j, t, True); log.append("forest %d added" % j); c.count("adds")
        elif k == 7: move(j, t, False); log.append("forest %d subtracted" % j); c.count("subtracts")
        elif k == 8 and t.nb:
            c.count("basis_changes"); mode = s.range(0, 2); B2 = t.basis(r, n)
            if mode == 0:      # the refresh both models use: remove, change, put back
                move(j, t, True); b.basis(j, B2); t.B = B2; move(j, t, False); log.append("basis of %d refreshed" % j)
            else: b.basis(j, B2); t.B = B2; log.append("basis of %d changed" % j)      # the cached fit stays until the next step
        elif k == 9 and hasr:
            e = y + off - sum(q.fit for q in terms); a, got, cur = b.rfx_step(s.pick([1., .4])); rf = a; log.append("random-effects step"); c.count("steps_rfx"); steps += 1
            c.check(np.allclose(got, a, atol=1e-9) and np.allclose(cur, a, atol=1e-9), "rfx-fit", "the random-effects term's current fit is not what its latest draw predicts for the training rows")
        elif k == 10: b.variance(); log.append("variance draw")
        else: continue
        verify("step")
    for j, t in enumerate(terms):
        if t.last >= 0: c.check(np.allclose(b.predict(j)[:, -1], t.value(b.cont(j)), atol=1e-8, rtol=1e-9), "predict", "a forest's training prediction is not the reference evaluation of its latest draw")
    c.nontrivial = steps >= 2 and splits > 0; c.count("splits", splits)


@prop("P06py", "at least two sampling steps and a tree with a split")
def P06py(s, c): history(s, c, Py, False)


@prop("P06r", "at least two sampling steps and a tree with a split")
def P06r(s, c): history(s, c, InR, True)


if __name__ == "__main__": pbt.main()
