"""P24: leaf indices and kernels of R forests."""
import json, os, shutil, tempfile
import numpy as np
import pbt, rlink
from pbt import prop, Discard
from rmodel import *
from common import gen_container, gen_X

if rlink.before_fork not in pbt.PRE_FORK: pbt.PRE_FORK.append(rlink.before_fork)


def load(c):
    d = tempfile.mkdtemp(prefix="vpr")
    try:
        f = os.path.join(d, "f.json"); json.dump(dict(forests={"forest_0": c}, num_forests=1, num_random_effects=0), open(f, "w")); R('fc <- loadForestContainerJson(createCppJsonFile(.f), "forest_0"); 1', _reset=True, **{".f": f})
    finally: shutil.rmtree(d, ignore_errors=True)


def ids_of(c, X, draw):
    """n x trees leaf nodes"""
    return np.stack(ref_forest(c, X, np.zeros((X.shape[0], c["output_dimension"])))[2][draw], axis=1)


def check_indices(c, f, got, ids, tag):
    """got: reported vectors per data set, ids: reference leaf nodes per data set"""
    T = f["num_trees"]; off = 0
    for q in range(T):
        m = {}; L = len(f["tree_%d" % q]["leaves"])
        for v, node in zip(got, ids):
            n = node.shape[0]; v = np.atleast_1d(v); c.check(v.size == n * T, "length" + tag, lambda: "%d leaf indices for %d rows and %d trees" % (v.size, n, T))
            for i, k in enumerate(v[q * n:(q + 1) * n]):
                c.check(off <= k < off + L, "range" + tag, lambda: "tree %d (leaves %d to %d): index %d reported for row %d" % (q + 1, off, off + L - 1, k, i + 1))
                m.setdefault(int(node[i, q]), set()).add(int(k))
        flat = [k for v in m.values() for k in v]; c.check(len(flat) == len(set(flat)) and all(len(v) == 1 for v in m.values()), "partition" + tag, lambda: "tree %d: leaf node -> reported indices is %s" % (q + 1, m))
        off += L


def shared(a, b): return (a[:, None, :] == b[None, :, :]).mean(axis=2)


def check_kernels(c, got, tr, te, tag):
    want = [("kernel_train", tr, tr)] + ([] if te is None else [("kernel_test_train", te, tr), ("kernel_test", te, te)])
    c.check(list(got) == [w[0] for w in want], "names" + tag, "the list holds %s" % list(got))
    for nm, a, b in want:
        k = np.asarray(got[nm], dtype=float); e = shared(a, b); c.check(k.shape == e.shape, nm + "-shape" + tag, lambda: "%s is %s instead of %s" % (nm, k.shape, e.shape))
        c.check(close(k, e, 1e-12, 1e-12), nm + tag, lambda: "%s differs from the fraction of trees in which the rows share a leaf: %s instead of %s" % (nm, k.tolist(), e.tolist()))


@prop("P24", "some tree of the assessed draw has a split and both row sets have at least two rows")
def P24(s, c):
    r = s.sub(); p, dim = s.range(1, 4), s.range(1, 3); const = dim == 1 and s.chance(1, 2); cat = [s.chance(1, 3) for _ in range(p)]; cont = gen_container(s, p, dim, const, cat); load(cont)
    R("k <- createForestKernel(); 1"); c.note("p=%d dim=%d cat=%s draws=%d trees=%d:" % (p, dim, cat, cont["num_samples"], cont["num_trees"])); deep = False; one = s.chance(1, 2)

    def rows(n):
        X = gen_X(s, r, n, p, cat); form = s.pick(["double", "double", "int", "vector"])
        if s.chance(1, 6): X[r.integers(0, n), r.integers(0, p)] = np.nan
        if form == "int" and not np.isnan(X).any(): X = np.round(X); return X.astype(int), X
        if form == "vector" and p == 1: return X[:, 0], X
        return X, X
    for _ in range(s.range(1, 5)):
        d = s.raw(cont["num_samples"]); f = cont["forest_%d" % d]; n, m = s.pick([1, 2, 3, 8, 20]), s.pick([0, 1, 2, 5, 17]); A, Av = rows(n); B, Bv = rows(m) if m else (None, None)
        ia = ids_of(cont, Av, d); ib = ids_of(cont, Bv, d) if m else None; kern = s.chance(1, 2); c.note(" %s(n=%d,m=%d,draw %d)" % ("kernel" if kern else "leaf", n, m, d))
        if not one: R("k <- createForestKernel(); 1")
        if kern: check_kernels(c, R("k$compute_kernel(A, B, fc, d)", A=A, B=B, d=d), ia, ib, "")
        else:
            g = R("k$compute_leaf_indices(A, B, fc, d)", A=A, B=B, d=d); c.check(list(g) == ["leaf_indices_train", "leaf_indices_test"][:1 + (m > 0)], "names", "the list holds %s" % list(g)); check_indices(c, f, list(g.values()), [ia] + ([ib] if m else []), "")
        deep |= n >= 2 and m != 1 and any(f["tree_%d" % q]["internal_nodes"] for q in range(f["num_trees"])); c.count("kernel" if kern else "leaf")
    c.nontrivial = deep


@prop("P24m", "the model has splits")
def P24m(s, c):
    """the model-level functions on sampled bart() models"""
    r = s.sub(); n = s.pick([8, 15, 30]); cols = RCols(s, r, n); V = cols.view(); y = np.round(V[:, 0] * 2 - (V[:, -1] > np.median(V[:, -1])) + r.normal(size=n) * 0.3, 2)
    if np.std(y) < 1e-3: raise Discard()
    kw = dict(num_trees=s.pick([1, 2, 4, 8]), num_gfr=s.range(0, 2), num_burnin=s.range(0, 2), num_mcmc=s.range(1, 3), random_seed=s.seed() % 100000, min_samples_leaf=1, keep_gfr=s.chance(1, 3), keep_burnin=s.chance(1, 3), sigma2_init=0.5); kw["lambda"] = 0.5
    R("m <- do.call(bart, c(list(X_train = X, y_train = y), kw)); 1", _reset=True, X=cols.X, y=y, kw=kw); cont = forest_json("m$forests"); S = cont["num_samples"]; c.note("%s n=%d %s" % (cols, n, kw)); c.nontrivial = num_splits(cont) > 0
    c.check(S == int(R("m$model_params$num_samples")[0]), "draws", "%d stored forests" % S); form = "frame" if cols.frame else "matrix"
    for _ in range(s.range(1, 4)):
        m = s.pick([0, 1, 2, 9]); sub = s.chance(1, 2)
        if sub: A, Av = cols.take(r.integers(0, n, s.pick([1, 2, 6])))
        else: A, Av = cols.X, cols.E
        B, Bv = cols.new(m) if m else (None, None); d = None if s.chance(1, 3) else s.range(1, S); f = cont["forest_%d" % (S - 1 if d is None else d - 1)]; k = S - 1 if d is None else d - 1
        ia = ids_of(cont, Av, k); ib = ids_of(cont, Bv, k) if m else None; a = dict(A=A, B=B, d=d); c.note(" (rows %d, test %d, forest_num %s)" % (ia.shape[0], m, d)); explicit = m == 0 and s.chance(1, 2)
        if cols.frame: check_kernels(c, R("computeForestKernels(m, A, %sforest_num = d)" % ("" if explicit else "B, "), **a), ia, ib, "-model")
        g = R("computeForestLeafIndices(m, A, %sforest_num = d)" % ("" if explicit else "B, "), **a); c.check(list(g) == ["leaf_indices_train", "leaf_indices_test"][:1 + (m > 0)], "names-model", "the list holds %s" % list(g)); check_indices(c, f, list(g.values()), [ia] + ([ib] if m else []), "-model"); c.count(form)


if __name__ == "__main__": pbt.main()
