"""P25 (R side): archives written and read through CppJson."""
import json, os, shutil, tempfile
import numpy as np
import pbt, rlink
from pbt import prop, Discard
from rlink import S0
from rmodel import *
from common import gen_container, gen_X

if rlink.before_fork not in pbt.PRE_FORK: pbt.PRE_FORK.append(rlink.before_fork)
NAMES = ["a", "b", "x 1", "é", "A", "a.b", "num_samples", "forest_0", "a/b", "quote\"d"]
STR = ["", "a", "two words", "naïve é", "line\nbreak\ttab", "quote\"s \\ back", "{\"json\": 1}", "日本", "NA", "0", "true"]
SUBS = [None, None, "sub", "other"]


def dbl(s): return s.pick([0.0, 1.0, -1.0, 0.1, 1 / 3, 1e300, -1e-300, 5e-324, 123456789.123456789, 2.0 ** 53, -2.5, s.normal(1e3)])


def gen_val(s):
    k = s.pick(["scalar", "boolean", "string", "vector", "string_vector"])
    if k == "scalar": return k, (s.range(-9, 9) if s.chance(1, 3) else dbl(s))
    if k == "boolean": return k, s.chance(1, 2)
    if k == "string": return k, s.pick(STR)
    m = s.pick([1, 0, 2, 3, 7])
    if k == "vector":
        if s.chance(1, 4): return k, np.array([s.range(-5, 5) for _ in range(m)], dtype=int)
        return k, np.array([dbl(s) for _ in range(m)], dtype=float)
    return k, [s.pick(STR) for _ in range(m)]


def wire(v): return S0 if isinstance(v, list) and not v else v


def equal(k, got, v):
    if k == "scalar": return isinstance(got, np.ndarray) and got.dtype.kind == "f" and got.shape == (1,) and float(got[0]) == float(v)
    if k == "boolean": return isinstance(got, np.ndarray) and got.dtype.kind == "b" and got.shape == (1,) and bool(got[0]) == v
    if k == "string": return got == [v]
    if k == "vector": return isinstance(got, np.ndarray) and got.dtype.kind == "f" and got.shape == np.shape(v) and bool(np.all(got == v))
    return isinstance(got, list) and got == list(v)


def gen_rfx(s, r):
    K, G, D = s.range(1, 2), s.range(1, 4), s.range(1, 3); keys = sorted(s.pick([[1, 2, 3, 4], [7, 3, 100, -2], [2, 1, 10, 5]])[:G]); f = lambda k: np.round(r.normal(size=k), 3).tolist()
    val = list(range(G)) if s.chance(1, 2) else [int(v) for v in r.permutation(G)]; xi, al = f(K * G * D), f(K * D)
    return dict(c=dict(num_samples=D, num_components=K, num_groups=G, beta_size=K * G * D, alpha_size=K * D, beta=f(K * G * D), xi=xi, alpha=al, sigma_xi=[abs(v) for v in f(K * D)]), m=dict(keys=keys, values=val), g=keys)


@prop("P25R", "at least three stored objects and an overwrite, a subfolder or a file round trip")
def P25R(s, c):
    r = s.sub(); d = tempfile.mkdtemp(prefix="vpr"); p = 2; Xq = np.round(np.random.default_rng(5).normal(size=(6, p)), 2); model, lists, forests, rfx, log = {}, {}, [], [], []; over = False
    R("j <- createCppJson(); 1", _reset=True)

    def load_external(c_, x):
        f = os.path.join(d, "in.json"); json.dump(dict(forests={"forest_0": c_} if c_ else {}, num_forests=int(bool(c_)), random_effects={} if x is None else {"random_effect_container_0": x["c"], "random_effect_label_mapper_0": x["m"], "random_effect_groupids_0": x["g"]}, num_random_effects=int(x is not None)), open(f, "w"))
        return f

    def verify():
        for (sub, nm), (k, v) in model.items():
            got = R("j$get_%s(nm, sub)" % k, nm=nm, sub=sub); c.check(equal(k, got, v), "field-" + k, lambda: "field %r%s: stored %r, read back %r after %s" % (nm, "" if sub is None else " in %r" % sub, v, got, log))
            if k in ("scalar", "vector"): got = R("%s(j, nm, sub)" % ("loadScalarJson" if k == "scalar" else "loadVectorJson"), nm=nm, sub=sub); c.check(equal(k, got, v), "load-" + k, lambda: "%s: stored %r, read back %r" % (k, v, got))
        for nm, (k, v) in lists.items():
            got = R("j$get_%s_list(nm, keys)" % ("numeric" if k == "vector" else "string"), nm=nm, keys=wire(list(v))); got = {} if isinstance(got, list) and not got else got
            c.check(list(got) == list(v) and all(equal(k, got[q], v[q]) for q in v), "list", lambda: "list %r: stored %r, read back %r" % (nm, v, got))
        for i, cont in enumerate(forests):
            dim = cont["output_dimension"]; B = None if cont["is_leaf_constant"] else np.ones((6, dim)) * 1.5; D = cont["num_samples"]
            got = R('fl <- loadForestContainerJson(j, paste0("forest_", i)); ds <- createForestDataset(X, B); list(fl$predict(ds), fl$predict_raw(ds), fl$num_samples(), fl$num_trees(), fl$output_dimension(), lapply(seq_len(fl$num_samples()) - 1, function(q) fl$predict_raw_single_forest(ds, q)))', i=i, X=Xq, B=B)
            e, raw, _ = ref_forest(cont, Xq, B); c.check(close(mat(got[0], 6), e), "forest", lambda: "forest %d of %d: predictions after reading it back differ" % (i, len(forests)))
            c.check([int(v[0]) for v in got[2:5]] == [D, cont["num_trees"], dim], "forest-shape", "draws, trees and dimension %s" % [int(v[0]) for v in got[2:5]])
            want = raw[:, :, 0] if dim == 1 else np.transpose(raw, (0, 2, 1)); c.check(close(got[1], want), "forest-raw", "raw predictions after reading back differ")
            for q in range(D): c.check(close(mat(got[5][q], 6), raw[:, q, :]), "forest-raw-single", "raw predictions of draw %d differ" % q)
        for i, x in enumerate(rfx):
            K, G, D = x["c"]["num_components"], x["c"]["num_groups"], x["c"]["num_samples"]; ids = [x["g"][q] for q in (np.arange(5) * 3 + i) % G]; W = np.round(np.random.default_rng(i).normal(size=(5, K)), 2)
            got = R("x <- loadRandomEffectSamplesJson(j, i); list(x$predict(g, W), x$extract_parameter_samples(), x$extract_label_mapping(), x$training_group_ids)", i=i, g=rlink.Ints(ids), W=W)
            beta = np.array(x["c"]["beta"]).reshape(D, G, K); pos = dict(zip(x["m"]["keys"], x["m"]["values"])); e = np.stack([np.sum(beta[q][[pos[g] for g in ids]] * W, axis=1) for q in range(D)], axis=1)
            c.check(close(mat(got[0], 5), e), "rfx", lambda: "random effects %d of %d: predictions after reading back differ" % (i, len(rfx)))
            c.check({int(a): int(np.atleast_1d(b)[0]) - 1 for a, b in got[2].items()} == pos and [int(v) for v in got[3]] == x["g"], "rfx-labels", lambda: "labels %s %s" % (got[2], got[3]))
            for nm, f in (("beta_samples", "beta"), ("xi_samples", "xi"), ("alpha_samples", "alpha"), ("sigma_samples", "sigma_xi")): c.check(same(np.asarray(got[1][nm]).ravel(order="F"), np.array(x["c"][f])), "rfx-" + f, "%s of random effects %d differ after reading back" % (f, i))
        o = R("list(j$num_forests, j$num_rfx)"); c.check(len(forests) == int(o[0][0]) and len(rfx) == int(o[1][0]) or "load" in log, "counters", "the object counts %s forests and %s random effects" % (o[0], o[1]))
    try:
        for _ in range(s.range(1, 8)):
            op = s.pick(["add", "add", "add", "list", "forest", "rfx", "save"])
            if op == "add":
                sub = s.pick(SUBS); nm = s.pick(NAMES); k, v = gen_val(s); log.append("%s %r/%r" % (k, sub, nm)); over |= (sub, nm) in model or sub is not None; R("j$add_%s(nm, v, sub); 1" % k, nm=nm, v=wire(v), sub=sub); model[(sub, nm)] = (k, v)
            elif op == "list":
                nm = s.pick(["list one", "list2"]); k = s.pick(["vector", "string_vector"])
                if nm in lists: continue
                v = {q: (np.array([dbl(s) for _ in range(s.pick([1, 2, 4]))]) if k == "vector" else [s.pick(STR) for _ in range(s.pick([1, 2, 4]))]) for q in ["k2", "k1", "é"][:s.range(0, 3)]}
                log.append("list %r %s" % (nm, sorted(v))); over = True; R("j$add_%slist(nm, v); 1" % ("" if k == "vector" else "string_"), nm=nm, v=v if v else rlink.L()); lists[nm] = (k, v)
            elif op == "forest":
                dim = s.range(1, 2); cont = gen_container(s, p, dim, dim == 1 and s.chance(1, 2), [False] * p); f = load_external(cont, None); log.append("forest"); c.count("forests")
                R('f0 <- loadForestContainerJson(createCppJsonFile(f), "forest_0"); 1', f=f); forests.append(cont)
                for _ in range(s.pick([0, 0, 1, 2])): R('f0$save_json(f); f0 <- createForestContainer(a, b, l); f0$load_json(f); 1', f=os.path.join(d, "fc.json"), a=s.range(0, 3), b=s.range(1, 2), l=s.chance(1, 2)); log[-1] += " by file"; c.count("forest_files")
                R('j$add_forest(f0); 1')
            elif op == "rfx":
                x = gen_rfx(s, r); f = load_external(None, x); log.append("rfx"); c.count("rfx"); R('r0 <- loadRandomEffectSamplesJson(createCppJsonFile(f), 0); j$add_random_effects(r0); 1', f=f); rfx.append(x)
            else:
                f = os.path.join(d, "m.json"); R("j$save_file(f); j0 <- j; j <- createCppJsonFile(f); 1", f=f); log.append("load"); c.count("file_round_trips"); over = True
                if s.chance(1, 2): R('j0$add_scalar("a", 77); 1'); log.append("(old archive changed)")
            if s.chance(1, 2): verify()
        verify()
    finally: shutil.rmtree(d, ignore_errors=True); c.note("%s" % log)
    c.nontrivial = len(model) + len(lists) + len(forests) + len(rfx) >= 3 and over


if __name__ == "__main__": pbt.main()
