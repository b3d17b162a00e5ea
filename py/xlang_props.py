"""P17: the same sequence of core calls through Python and through R gives the same draws; R models are reproducible."""
import json
import numpy as np
import pbt, rlink
from pbt import prop, Discard
from rmodel import *
import rbart_props, rbcf_props
from stochtree import Dataset, Residual, RNG, ForestContainer, ForestSampler, GlobalVarianceModel, LeafVarianceModel, JSONSerializer

if rlink.before_fork not in pbt.PRE_FORK: pbt.PRE_FORK.append(rlink.before_fork)


class Program:
    def __init__(self, s):
        self.n, self.p, self.nb, self.T = n, p, nb, T = s.pick([6, 12, 25, 60]), s.range(1, 4), s.pick([0, 0, 1, 2, 3]), s.range(1, 4); r = s.sub(); self.X = np.round(r.normal(size=(n, p)), 1); self.ft = np.array([s.pick([0, 0, 1, 2]) for _ in range(p)])
        for k in range(p):
            if self.ft[k] == 1: self.X[:, k] = r.integers(0, 5, n)
            if self.ft[k] == 2: self.X[:, k] = r.integers(0, 4, n)
        self.B = np.round(r.normal(size=(n, nb)), 2) + 0.5 if nb else None; self.w = np.round(np.exp(r.normal(size=n)), 1) + .1 if s.chance(1, 4) else None
        self.y = np.round(r.normal(size=n) + 2 * (self.X[:, 0] > 0), 3); self.seed = s.range(0, 2**31 - 1) if s.chance(1, 2) else s.range(0, 50); self.alpha, self.beta, self.msl = s.pick([.95, .5]), s.pick([2., 1.]), s.range(1, 3)
        self.lm = 0 if nb == 0 else s.pick([1]) if nb == 1 else 2; self.sc = np.eye(max(nb, 1)) * s.pick([.4, 1., .05]); self.vw = np.round(r.uniform(size=p) + .1, 2); self.vw /= self.vw.sum(); self.s2 = s.pick([1., .3, 2.5]); self.steps = []; kept = 0
        for _ in range(s.range(1, 6)):
            k = s.range(0, 9)
            if k <= 4: self.steps.append(("forest", s.chance(1, 2), s.pick([100, 5, 2]))); kept += 1
            elif k <= 6: self.steps.append(("sigma", s.pick([3., 1.5]), s.pick([.5, 2.])))
            elif k == 7 and kept and nb < 2: self.steps.append(("tau", s.pick([3., 1.5]), s.pick([.5, 2.]), s.raw(kept)))
            elif k == 8 and nb: self.steps.append(("basis", np.round(r.normal(size=(n, nb)), 2)))
            else: self.steps.append(("forest", True, 100)); kept += 1
        self.kept = kept

    def __str__(self): return "n=%d p=%d types=%s basis=%d trees=%d weights=%s seed=%d steps=%s" % (self.n, self.p, self.ft.tolist(), self.nb, self.T, self.w is not None, self.seed, [q[0] + (":gfr" if q[0] == "forest" and q[1] else "") for q in self.steps])


def in_python(P):
    d = Dataset(); d.add_covariates(P.X)
    if P.nb: d.add_basis(P.B)
    if P.w is not None: d.add_variance_weights(P.w)
    res, rng, fc = Residual(P.y), RNG(P.seed), ForestContainer(P.T, max(P.nb, 1), P.nb == 0); fs = ForestSampler(d, P.ft, P.T, P.n, P.alpha, P.beta, P.msl); gv, lv = GlobalVarianceModel(), LeafVarianceModel(); out = []; s2, sc = P.s2, P.sc
    fc.set_root_leaves(0, np.full(P.nb, .1) if P.nb > 1 else 0.1); fs.update_residual(d, res, fc, P.nb > 0, 0, False)
    for st in P.steps:
        if st[0] == "forest": fs.sample_one_iteration(fc, d, res, rng, P.ft, st[2], sc, P.vw, s2, P.lm, st[1], True)
        elif st[0] == "sigma": s2 = gv.sample_one_iteration(res, rng, st[1], st[2]); out.append(s2)
        elif st[0] == "tau": t = lv.sample_one_iteration(fc, rng, st[1], st[2], st[3]); out.append(t); sc = np.array([[t]])
        else: d.update_basis(st[1])
    j = JSONSerializer(); j.add_forest(fc); return out, json.loads(j.json_cpp.DumpJson())["forests"][j.forest_labels[0]], fc.predict(d) if P.kept else None


CODE = """
d <- createForestDataset(X, B, w); res <- createOutcome(y); rng <- createRNG(seed); fc <- createForestContainer(T_, max(nb, 1), nb == 0)
fm <- createForestModel(d, ft, T_, n, alpha, beta, msl); out <- c(); sc <- sc0; s2 <- s20
fc$set_root_leaves(0L, if (nb > 1) rep(.1, nb) else 0.1); fc$update_residual(d, res, fm, nb > 0, 0L, FALSE)
for (st in steps) {
  if (st[[1]] == "forest") fm$sample_one_iteration(d, res, fc, rng, ft, lm_, sc, vw, s2, cutpoint_grid_size = as.integer(st[[3]]), gfr = st[[2]], pre_initialized = TRUE)
  else if (st[[1]] == "sigma") { s2 <- sample_sigma2_one_iteration(res, rng, st[[2]], st[[3]]); out <- c(out, s2) }
  else if (st[[1]] == "tau") { t_ <- sample_tau_one_iteration(fc, rng, st[[2]], st[[3]], as.integer(st[[4]])); out <- c(out, t_); sc <- matrix(t_, 1, 1) }
  else d$update_basis(st[[2]])
}
list(out, if (fc$num_samples() > 0) fc$predict(d) else NULL)
"""


def jdiff(a, b, path=""):
    if isinstance(a, dict):
        if set(a) != set(b): return path + " keys"
        for k in a:
            q = jdiff(a[k], b[k], path + "/" + k)
            if q: return q
        return None
    return None if a == b else "%s: %s and %s" % (path, a, b)


@prop("P17x", "at least two forest steps and a tree with a split")
def P17x(s, c):
    P = Program(s); c.note(str(P)); out, cont, pred = in_python(P)
    g = R(CODE, _reset=True, X=P.X, B=P.B, w=P.w, y=P.y, seed=P.seed, T_=P.T, nb=P.nb, ft=rlink.Ints(P.ft.tolist()), n=P.n, alpha=P.alpha, beta=P.beta, msl=P.msl, sc0=P.sc, s20=P.s2, lm_=P.lm, vw=P.vw, steps=rlink.L([rlink.L(list(q)) for q in P.steps]))
    got = [] if g[0] is None else list(np.atleast_1d(g[0])); c.check(got == [float(v) for v in out], "variances", lambda: "variance draws %s in Python and %s in R" % (out, got))
    q = jdiff(cont, forest_json("fc")); c.check(q is None, "forests", lambda: "the same calls with the same seed give other forests in R than in Python at %s" % q)
    if P.kept: c.check(same(mat(g[1], P.n), pred), "predictions", "predictions of the same forests differ between Python and R")
    c.nontrivial = P.kept >= 2 and num_splits(cont) > 0; c.count("draws", P.kept); c.count("variance_draws", len(out))


SHOW = dict(bart="list(m$y_hat_train, m$y_hat_test, m$sigma2_samples, m$tau_samples, m$rfx_preds_train)", bcf="list(m$y_hat_train, m$mu_hat_train, m$tau_hat_train, m$y_hat_test, m$sigma2_samples, m$b_0_samples, m$b_1_samples, m$rfx_preds_train)")


def flat(v):
    if v is None: return [None]
    if isinstance(v, dict): return [q for k in v for q in [k] + flat(v[k])]
    if isinstance(v, (list, tuple)): return [q for e in v for q in flat(e)]
    return [np.asarray(v).tobytes()] if isinstance(v, np.ndarray) else [v]


@prop("P17r", "every case: another model is sampled in between")
def P17r(s, c):
    """bart() and bcf() called twice with the same seed (and R's own seed for the coding draws) around other uses of the library"""
    bcf = s.chance(1, 2); k = (rbcf_props if bcf else rbart_props).Case(s); fn = "bcf" if bcf else "bart"; ar = k.args(); c.note("%s %s" % (fn, k)); c.count(fn)

    def go(): return R("set.seed(7); m <- do.call(%s, args); %s" % (fn, SHOW[fn]), args=ar)
    other = [(w, (rbcf_props if w else rbart_props).Case(s).args() if w <= 1 else None) for w in [s.range(0, 3) for _ in range(s.range(1, 2))]]
    a = go(); R("keep <- m; 1")
    for w, oa in other:
        c.count("other_%d" % w)
        if w <= 1:
            R("o <- do.call(%s, oa); 1" % ("bcf" if w else "bart"), oa=oa)
        elif w == 2: R("x <- lapply(1:5, function(i) createRNG(i)); rnorm(3); x <- NULL; gc(); 1")
        else: R("o <- NULL; x <- lapply(1:50, function(i) rep(NaN, 500)); x <- NULL; gc(); 1")
    b = go(); c.check(flat(a) == flat(b), "seed", lambda: "the same %s() call with the same seed gave other draws: results %s differ" % (fn, [i for i, (p, q) in enumerate(zip(a, b)) if flat(p) != flat(q)]))
    again = R("m0 <- m; m <- keep; z <- %s; m <- m0; z" % SHOW[fn]); c.check(flat(a) == flat(again), "overwritten", "later models changed the results of an earlier one"); c.nontrivial = True
    # without a seed (omitted or -1) every fit draws fresh random numbers; another seed gives other draws
    if s.chance(1, 2):
        ar = dict(ar); old = ar.pop("random_seed", None); w = s.pick(["omitted", -1, "other"]); c.count("unseeded" if w != "other" else "other_seed")
        if w != "omitted": ar["random_seed"] = -1 if w == -1 else int(old) ^ 1
        u = [R("set.seed(7); m <- do.call(%s, args); m$y_hat_train" % fn, args=ar) for _ in range(2)] + [R("keep$y_hat_train")]
        if w == "other": u = u[1:]
        c.check(all(flat(u[i]) != flat(u[q]) for i in range(len(u)) for q in range(i)), "unseeded" if w != "other" else "seed-ignored", "two %s() fits %s gave the same draws" % (fn, "with different seeds" if w == "other" else "without a seed (random_seed %s)" % w))


if __name__ == "__main__": pbt.main()
