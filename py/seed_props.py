"""P17 (Python side): same seed and inputs give the same draws, whatever else the process does."""
import os, pickle, subprocess, sys, tempfile
import numpy as np
import pbt
from pbt import prop, Discard
from common import *
import bart_props, bcf_props
from stochtree import BARTModel, BCFModel, Dataset, Residual, RNG, ForestContainer, ForestSampler, GlobalVarianceModel, LeafVarianceModel, JSONSerializer

TRACES = {BARTModel: ["y_hat_train", "y_hat_test", "global_var_samples", "leaf_scale_samples"],
          BCFModel: ["y_hat_train", "mu_hat_train", "tau_hat_train", "y_hat_test", "mu_hat_test", "tau_hat_test", "global_var_samples", "leaf_scale_mu_samples", "leaf_scale_tau_samples", "b0_samples", "b1_samples"]}


def dump(fc): j = JSONSerializer(); j.add_forest(fc); return j.json_cpp.DumpJson()


def result(m):
    out = {t: np.asarray(getattr(m, t)).copy() for t in TRACES[type(m)] if hasattr(m, t)}
    for f in ("forest_container", "forest_container_mu", "forest_container_tau"):
        if hasattr(m, f): out[f] = dump(getattr(m, f))
    return out


def differ(a, b):
    if set(a) != set(b): return "the sets of results %s and %s" % (sorted(a), sorted(b))
    for k in sorted(a):
        if isinstance(a[k], str):
            if a[k] != b[k]: return "the stored forests (%s)" % k
        elif not same(a[k], b[k]): return k
    return None


def job(case): return (BARTModel if isinstance(case, bart_props.Case) else BCFModel), args(case)


def args(k):
    if isinstance(k, bcf_props.Case): return k.args()
    a = dict(X_train=k.X, y_train=k.yarr(k.y), **k.kw)
    if k.basis is not None: a["basis_train"] = k.basis
    if k.Xt is not None:
        a["X_test"] = k.Xt
        if k.bt is not None: a["basis_test"] = k.bt
    return a


def fresh(j, m=None):
    m = j[0]() if m is None else m; m.sample(**j[1]); return m


def gen(s): return bart_props.Case(s) if s.chance(1, 2) else bcf_props.Case(s)


def noise(s, c, live):
    """one arbitrary other use of the library in the same process"""
    k = s.range(0, 6); c.count("other_%d" % k)
    if k == 0: live.append(fresh(job(gen(s))))
    elif k == 1:
        other = gen(s); a = args(other); a["random_seed"] = s.pick([-1, None]); m = job(other)[0](); m.sample(**a); live.append(m)
    elif k == 2: np.random.seed(s.range(0, 1000)); np.random.normal(size=s.range(0, 5))
    elif k == 3: live.append([RNG(s.pick([-1, 1, 7])) for _ in range(s.range(1, 4))])
    elif k == 4: live.append([np.full(s.range(1, 5000), np.nan) for _ in range(20)])
    elif k == 5:
        n = 10; d = Dataset(); d.add_covariates(np.arange(n, dtype=float).reshape(-1, 1)); r = Residual(np.arange(n, dtype=float)); fs = ForestSampler(d, np.zeros(1, dtype=int), 2, n, .9, 1., 1); fc = ForestContainer(2, 1, True); fc.set_root_leaves(0, 0.)
        for i in range(3): fs.sample_one_iteration(fc, d, r, RNG(i), np.zeros(1, dtype=int), 5, np.eye(1), np.ones(1), 1., 0, i % 2 == 0, False)
        live.append((d, r, fs, fc))
    else: live.clear()


@prop("P17py", "the model sampled forests with splits and at least one other model was built in between")
def P17py(s, c):
    k = gen(s); j = job(k); c.note("%s %s" % (j[0].__name__, k)); live = []
    # the random_seed may be any non-negative integer, including the corner values
    if s.chance(1, 6): k.kw["random_seed"] = s.pick([0, 1, 2**31 - 1, 12345678]); j = job(k)
    keep = pickle.loads(pickle.dumps(j[1])); m1 = fresh(j); r1 = result(m1); st = np.random.get_state()[1].copy()
    for _ in range(s.range(1, 4)): noise(s, c, live)
    how = s.pick(["new object", "copied inputs", "used object"]); c.note(" [%s]" % how); c.count(how)
    if how == "used object":
        m = j[0](); o = gen(s)
        if job(o)[0] is j[0]: fresh(job(o), m)
        # a refit replaces every result of the first fit: only what the second call asked for is compared
        r2 = result(fresh(j, m)); r2 = {q: v for q, v in r2.items() if q in r1}
    elif how == "copied inputs": r2 = result(fresh((j[0], keep)))
    else: r2 = result(fresh(j))
    d = differ(r1, r2); c.check(d is None, "seed", lambda: "the same call with the same seed gave other draws after other use of the library: %s" % d)
    d = differ(r1, result(m1)); c.check(d is None, "overwritten", lambda: "later models changed the results of an earlier one: %s" % d)
    if hasattr(m1, "forest_container") and k.basis is None: c.check(same(m1.predict(k.X), r1["y_hat_train"]) or close(m1.predict(k.X), r1["y_hat_train"]), "overwritten", "predictions of the first model changed after later models were sampled")
    # another seed gives other draws (the error variance draw is continuous)
    if k.kw.get("sample_sigma_global", True) and s.chance(1, 2):
        a = dict(j[1]); a["random_seed"] = s.pick([k.kw["random_seed"] ^ 1, (k.kw["random_seed"] + 1000) % 2**31, -1 if k.kw["random_seed"] != -1 else 5]); m3 = j[0](); m3.sample(**a)
        c.check(not same(m3.global_var_samples, r1["global_var_samples"]), "seed-ignored", "two different seeds (%s, %s) gave the same error variance draws" % (k.kw["random_seed"], a["random_seed"])); c.count("other_seed")
    # without a seed (omitted, None or -1) every fit draws fresh random numbers
    if s.chance(1, 3):
        a = dict(j[1]); a.pop("random_seed", None); w = s.pick(["omitted", -1, "None"])
        if w != "omitted": a["random_seed"] = None if w == "None" else w
        u = [j[0]() for _ in range(2)]
        for q in u: q.sample(**a)
        c.check(not same(u[0].y_hat_train, u[1].y_hat_train) and not same(u[0].y_hat_train, r1["y_hat_train"]), "unseeded", "two fits without a seed (random_seed %s) gave the same draws" % w); c.count("unseeded")
    c.nontrivial = bool(live) and any("internal_nodes" in v for v in r1.values() if isinstance(v, str)); 


@prop("P17fresh", "every case: each is a model sampled here and in a fresh process with another memory history")
def P17fresh(s, c):
    jobs = [gen(s) for _ in range(10)]; c.note("; ".join("%s %s" % (job(k)[0].__name__, k) for k in jobs)[:1500]); rs = [result(fresh(job(k))) for k in jobs]
    order = [9, 3, 1, 0, 2, 5, 7, 4, 8, 6] if s.chance(1, 2) else [2, 0, 6, 4, 8]; d = tempfile.mkdtemp(dir=os.environ.get("TMPDIR"))
    try:
        with open(d + "/in", "wb") as f: pickle.dump([job(jobs[i]) for i in order], f)
        env = dict(os.environ, MALLOC_PERTURB_=str(s.range(1, 255)), PYTHONHASHSEED=str(s.range(1, 999)), OMP_NUM_THREADS="1")
        p = subprocess.run([sys.executable, os.path.abspath(__file__), "--child", d + "/in", d + "/out"], env=env, capture_output=True, text=True, timeout=100); c.check(p.returncode == 0, "child", "the same calls fail in a fresh process: " + p.stderr[-400:])
        with open(d + "/out", "rb") as f: got = pickle.load(f)
    finally:
        for f in ("/in", "/out"):
            if os.path.exists(d + f): os.unlink(d + f)
        os.rmdir(d)
    for i, g in zip(order, got): w = differ(rs[i], g); c.check(w is None, "process", lambda: "model %d (%s) has other draws in a fresh process: %s" % (i, job(jobs[i])[0].__name__, w))
    c.nontrivial = True; c.count("models", len(order))


class Chain:
    """a sampler assembled from the core classes, advanced one step at a time"""
    def __init__(self, s):
        self.n, self.p, self.nb, self.T = s.pick([6, 12, 25]), s.range(1, 3), s.pick([0, 0, 1, 2]), s.range(1, 3); r = s.sub(); self.X = np.round(r.normal(size=(self.n, self.p)), 1); self.ft = np.array([s.pick([0, 0, 1]) for _ in range(self.p)])
        for k in range(self.p):
            if self.ft[k] == 1: self.X[:, k] = r.integers(0, 4, self.n)
        self.B = np.round(r.normal(size=(self.n, max(1, self.nb))), 1) + 1; self.y = np.round(r.normal(size=self.n) + self.X[:, 0], 2); self.w = np.round(np.exp(r.normal(size=self.n)), 1) + .1 if s.chance(1, 3) else None
        self.seed = s.range(0, 9999); self.steps = [(s.chance(1, 2), s.chance(1, 3), s.chance(1, 3), s.pick([100, 3])) for _ in range(s.range(2, 6))]

    def start(self):
        d = self.d = Dataset(); d.add_covariates(self.X)
        if self.nb: d.add_basis(self.B)
        if self.w is not None: d.add_variance_weights(self.w)
        self.res = Residual(self.y); self.rng = RNG(self.seed); self.fc = ForestContainer(self.T, max(self.nb, 1), self.nb == 0); self.fs = ForestSampler(d, self.ft, self.T, self.n, .95, 1., 1); self.fc.set_root_leaves(0, np.zeros(self.nb) if self.nb > 1 else 0.)
        self.gv, self.lv, self.out, self.i, self.s2 = GlobalVarianceModel(), LeafVarianceModel(), [], 0, .8; self.sc = np.eye(max(self.nb, 1)) * .4

    def step(self):
        g, gv, lv, cut = self.steps[self.i]; self.fs.sample_one_iteration(self.fc, self.d, self.res, self.rng, self.ft, cut, self.sc, np.full(self.p, 1. / self.p), self.s2, min(self.nb, 2), g, True)
        if gv: self.s2 = self.gv.sample_one_iteration(self.res, self.rng, 3, .5)
        if lv and self.nb < 2: self.sc = np.array([[self.lv.sample_one_iteration(self.fc, self.rng, 3, .5, self.i)]])
        self.out += [self.s2, float(self.sc[0, 0])]; self.i += 1

    def digest(self): return self.out, dump(self.fc), self.fc.predict(self.d).tolist()


@prop("P17step", "at least two chains and a step of one between two steps of another")
def P17step(s, c):
    """chains advanced in any interleaving each draw what they draw when run alone"""
    ch = [Chain(s) for _ in range(s.range(2, 3))]; alone = []; c.note("chains " + ", ".join("n=%d p=%d basis=%d steps=%d" % (k.n, k.p, k.nb, len(k.steps)) for k in ch))
    for k in ch:
        k.start()
        for _ in k.steps: k.step()
        alone.append(k.digest())
    for k in ch: k.start()
    order = [i for i, k in enumerate(ch) for _ in k.steps]; perm = []
    while order: perm.append(order.pop(s.raw(len(order))))
    for i in perm: ch[i].step()
    c.note(" order %s" % perm)
    for i, k in enumerate(ch): c.check(repr(alone[i]) == repr(k.digest()), "interleave", lambda: "chain %d draws other forests, variances or predictions when its steps are interleaved with other chains" % i)
    # sampling the latest forest again without keeping it, or predicting, is part of the history of one chain only
    c.nontrivial = any(perm[i] != perm[i + 1] and perm[i] in perm[i + 2:] for i in range(len(perm) - 1)); c.count("steps", len(perm))


if __name__ == "__main__":
    if len(sys.argv) == 4 and sys.argv[1] == "--child":
        with open(sys.argv[2], "rb") as f: jobs = pickle.load(f)
        with open(sys.argv[3], "wb") as f: pickle.dump([result(fresh(j)) for j in jobs], f)
    else: pbt.main()
