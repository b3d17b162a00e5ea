"""P16 (R side): matrices and vectors handed to R's data objects."""
import json, os, shutil, tempfile
import numpy as np
import pbt, rlink
from pbt import prop, Discard
from rmodel import *
from common import gen_container, gen_X

if rlink.before_fork not in pbt.PRE_FORK: pbt.PRE_FORK.append(rlink.before_fork)
KINDS = ["double", "double", "int", "logical", "transposed", "named", "sub"]


def lay(A, k, var):
    """sets the R variable; returns the values it stands for"""
    if k == "int": R("%s <- v; 1" % var, v=np.round(A).astype(int)); return np.round(A)
    if k == "logical": R("%s <- v; 1" % var, v=A > 0); return (A > 0).astype(float)
    if k == "transposed": R("%s <- t(v); 1" % var, v=A.T)
    elif k == "named": R("%s <- v; dimnames(%s) <- list(paste0('r', seq_len(nrow(v))), paste0('c', seq_len(ncol(v)))); 1" % (var, var), v=A)
    elif k == "sub": n, p = A.shape; big = np.full((n + 2, p + 1), 7.25); big[1:n + 1, 1:] = A; R("%s <- v[2:%d, 2:%d, drop = FALSE]; 1" % (var, n + 1, p + 1), v=big)
    else: R("%s <- v; 1" % var, v=A)
    return A


def load(c, var):
    d = tempfile.mkdtemp(prefix="vpr")
    try:
        f = os.path.join(d, "f.json"); json.dump(dict(forests={"forest_0": c}, num_forests=1, num_random_effects=0), open(f, "w")); R('%s <- loadForestContainerJson(createCppJsonFile(.f), "forest_0"); 1' % var, **{".f": f})
    finally: shutil.rmtree(d, ignore_errors=True)


@prop("P16r", "n >= 2 rows and some matrix is not a plain matrix of doubles")
def P16r(s, c):
    n, p = s.pick([1, 2, 3, 5, 9, 17]), s.range(1, 4); dim = s.range(1, 3); const = dim == 1 and s.chance(1, 2); cat = [s.chance(1, 4) for _ in range(p)]; r = s.sub(); cont = gen_container(s, p, dim, const, cat); R("1", _reset=True); load(cont, "fc")
    k = s.pick(KINDS); X = lay(gen_X(s, r, n, p, cat), k, "X"); odd = k != "double"; B = W = None; c.note("n=%d p=%d dim=%d X %s" % (n, p, dim, k)); c.count(k)
    if not const or s.chance(1, 4): k = s.pick(KINDS); B = lay(np.round(r.normal(size=(n, dim)), 2), k, "B"); odd |= k != "double"; c.note(" B %s" % k)
    else: R("B <- NULL; 1")
    if s.chance(1, 3): W = np.round(np.exp(r.normal(size=n)), 2) + .01; R("w <- v; 1", v=W)
    else: R("w <- NULL; 1")
    o = R("ds <- createForestDataset(X, B, w); list(ds$num_observations(), ds$num_covariates(), ds$has_basis(), if (ds$has_basis()) ds$num_basis() else 0, ds$has_variance_weights())")
    c.check([int(v[0]) for v in o] == [n, p, int(B is not None), dim if B is not None else 0, int(W is not None)], "shape", lambda: "the data set reports %s" % [int(v[0]) for v in o])

    def agree(tag):
        got = R("list(fc$predict(ds), fc$predict_raw(ds))"); e, raw, _ = ref_forest(cont, X, B); want = raw[:, :, 0] if dim == 1 else np.transpose(raw, (0, 2, 1))
        c.check(close(mat(got[0], n), e), "predict" + tag, lambda: "predictions differ from routing the rows given: %s vs %s" % (mat(got[0], n).tolist(), e.tolist())); c.check(close(got[1], want), "raw" + tag, "raw predictions differ")
    agree("")
    if s.chance(1, 2): R("X[] <- 1; if (!is.null(B)) B[] <- 2; w <- NULL; gc(); 1"); c.count("overwritten"); agree("-overwritten")
    for _ in range(s.range(0, 3)):
        if B is None: break
        k = s.pick(KINDS); B = lay(np.round(r.normal(size=(n, dim)), 2), k, "B"); odd |= k != "double"; R("ds$update_basis(B); 1"); c.count("basis_updates"); agree("-update")
        if s.chance(1, 3): R("B[] <- 9; 1"); agree("-update-overwritten")
    if s.chance(1, 3):
        k = s.range(1, 3); lay(np.round(r.normal(size=(n, k)), 2), s.pick(KINDS), "RB"); wk = s.pick([None, "double", "int"]); o = R("rd <- createRandomEffectsDataset(g, RB, wt); gc(); list(rd$num_observations(), rd$has_group_labels(), rd$has_basis(), rd$has_variance_weights())", g=rlink.Ints(r.integers(1, 3, n).tolist()), wt=None if wk is None else r.integers(1, 4, n) if wk == "int" else np.exp(r.normal(size=n)))
        c.check([int(v[0]) for v in o] == [n, 1, 1, int(wk is not None)], "rfx-shape", lambda: "the random effects data set reports %s" % [int(v[0]) for v in o]); c.count("rfx_data"); agree("-rfx")
    # a second data set leaves the first alone
    if s.chance(1, 3): lay(np.round(r.normal(size=(n + 1, p)), 2), "double", "X2"); R("ds2 <- createForestDataset(X2, matrix(1, %d, %d)); fc$predict(ds2); 1" % (n + 1, dim)); agree("-second")
    c.nontrivial = n >= 2 and odd


RUN = """
run <- function(X, y, B, w, g) {
  d <- createForestDataset(X, B, w); res <- createOutcome(y); rng <- createRNG(seed); fc <- createForestContainer(T_, max(nb, 1), nb == 0); fm <- createForestModel(d, ft, T_, n, .95, 2, 1L); out <- c()
  fc$set_root_leaves(0L, if (nb > 1) rep(.1, nb) else 0.1); fc$update_residual(d, res, fm, nb > 0, 0L, FALSE); s2 <- .7
  if (!is.null(g)) { rd <- createRandomEffectsDataset(g, G, NULL); rt <- createRandomEffectsTracker(g); rm <- createRandomEffectsModel(ncol(G), length(unique(g))); k <- ncol(G)
    rm$set_working_parameter(rep(1, k)); rm$set_group_parameters(matrix(.1, k, length(unique(g)))); rm$set_working_parameter_cov(diag(1, k)); rm$set_group_parameter_cov(diag(1, k)); rm$set_variance_prior_shape(1); rm$set_variance_prior_scale(1)
    rs <- createRandomEffectSamples(k, length(unique(g)), rt) }
  for (i in 1:3) { fm$sample_one_iteration(d, res, fc, rng, ft, if (nb > 1) 2L else nb, diag(.4, max(nb, 1)), rep(1 / ncol(X), ncol(X)), s2, cutpoint_grid_size = 20L, gfr = i == 2, pre_initialized = TRUE)
    s2 <- sample_sigma2_one_iteration(res, rng, 3, .5); out <- c(out, s2)
    if (!is.null(g)) { rm$sample_random_effect(rd, res, rt, rs, s2, rng); out <- c(out, unlist(rs$extract_parameter_samples())) } }
  c(out, fc$predict(d))
}
"""


@prop("P16rs", "some input is not a plain matrix or vector of doubles")
def P16rs(s, c):
    """outcome, weights and bases of any storage mode give the draws of their double copies, and none of R's objects is written to"""
    n, p, nb = s.pick([4, 7, 12, 25]), s.range(1, 3), s.pick([0, 1, 2]); r = s.sub(); R(RUN + "1", _reset=True); kx, ky, kb, kg = s.pick(KINDS), s.pick(["double", "int", "logical", "column"]), s.pick(KINDS), s.pick(KINDS)
    X = lay(np.round(r.normal(size=(n, p)), 2), kx, "X"); y = np.round(r.normal(size=n) * 2 + X[:, 0], 2); use_g = s.chance(1, 2); w = s.pick([None, "double", "int"]); c.note("n=%d p=%d X %s y %s basis %d %s weights %s rfx %s %s" % (n, p, kx, ky, nb, kb, w, use_g, kg))
    if ky == "int": y = np.round(y)
    if ky == "logical": y = (y > 0).astype(float)
    R("y <- v; 1", v=y.astype(int) if ky == "int" else y > 0 if ky == "logical" else y.reshape(-1, 1) if ky == "column" else y); B = lay(np.round(r.normal(size=(n, nb)), 2), kb, "B") if nb else None
    if B is None: R("B <- NULL; 1")
    Wv = None if w is None else r.integers(1, 4, n) if w == "int" else np.round(np.exp(r.normal(size=n)), 2) + .01; R("w <- v; 1", v=Wv)
    g = np.concatenate([np.arange(1, 4), r.integers(1, 4, n - 3)]) if use_g else None; G = lay(np.round(r.normal(size=(n, 2)), 2) + 1, kg, "G") if use_g else None; R("g <- v; 1", v=None if g is None else rlink.Ints(g.tolist()))
    R("seed <- sd; nb <- nb0; T_ <- 2; n <- n0; ft <- rep(0L, p0); 1", sd=s.seed() % 10000, nb0=nb, n0=n, p0=p); a = R("keep <- serialize(list(X, y, B, w, g), NULL); run(X, y, B, w, g)")
    c.check(bool(R("identical(keep, serialize(list(X, y, B, w, g), NULL))")[0]), "written", "sampling changed an R object of the caller")
    b = R("G <- Gd; run(Xd, yd, Bd, wd, g)", Xd=X.astype(float), yd=y.astype(float), Bd=None if B is None else B.astype(float), wd=None if Wv is None else Wv.astype(float), Gd=None if G is None else G.astype(float))
    c.check(same(np.asarray(a), np.asarray(b)), "storage", lambda: "draws differ from those of the double copies: %s and %s" % (np.asarray(a).tolist()[:6], np.asarray(b).tolist()[:6])); c.nontrivial = kx != "double" or ky != "double" or kb != "double" or w == "int" or (use_g and kg != "double")


if __name__ == "__main__": pbt.main()
