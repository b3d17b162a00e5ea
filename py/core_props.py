"""P16 and P25 through the Python bindings: arrays of any layout, archives, and stored forests."""
import json, math, os, tempfile
import numpy as np
import pbt
from pbt import prop, Discard
from common import *
from stochtree import Dataset, Residual, ForestContainer, ForestSampler, RNG, GlobalVarianceModel, LeafVarianceModel, JSONSerializer

LAYOUTS = ["C", "F", "strided", "reversed", "float32", "int64", "int32", "uint8", "bool"]


def load(c, how="file"):
    fc = ForestContainer(c["num_trees"], c["output_dimension"], c["is_leaf_constant"]); d = tempfile.mkdtemp()
    try:
        fn = os.path.join(d, "f.json"); json.dump(c, open(fn, "w")); fc.load_from_json_file(fn)
    finally:
        for f in os.listdir(d): os.unlink(os.path.join(d, f))
        os.rmdir(d)
    return fc


def lay(A, kind):
    """(array handed to the library, the values it stands for)"""
    if kind in ("int64", "int32"): B = np.round(A).astype(kind)
    elif kind == "uint8": B = np.abs(np.round(A)).astype(kind)
    elif kind == "bool": B = A > 0
    else: B = as_layout(A, kind)
    return B, np.ascontiguousarray(B).astype(float)


@prop("P16py", "n >= 2 rows and some array is not a plain contiguous float64 one")
def P16py(s, c):
    n, p = s.pick([1, 2, 3, 5, 9, 17]), s.range(1, 4); dim = s.range(1, 3); const = dim == 1 and s.chance(1, 2); cat = [s.chance(1, 4) for _ in range(p)]; r = s.sub()
    cont = gen_container(s, p, dim, const, cat); fc = load(cont)
    lx = s.pick(LAYOUTS); X, Xv = lay(gen_X(s, r, n, p, cat), lx)
    if p == 1 and s.chance(1, 3): X = X[:, 0]
    d = Dataset(); d.add_covariates(X); c.note("n=%d p=%d dim=%d X %s" % (n, p, dim, lx)); B = None; odd = lx != "C"
    if not const:
        lb = s.pick(LAYOUTS); B, Bv = lay(np.round(r.normal(size=(n, dim)), 2), lb); odd |= lb != "C"
        if dim == 1 and s.chance(1, 2): B = B[:, 0]
        d.add_basis(B); c.note(" basis %s" % lb)
    c.check(d.dataset_cpp.NumRows() == n, "rows", "NumRows() = %d for %d rows" % (d.dataset_cpp.NumRows(), n))

    def agree(tag):
        e, eraw, _ = ref_forest(cont, Xv, None if const else Bv); got = fc.predict(d)
        c.check(got.shape == e.shape and close(got, e), "predict" + tag, lambda: "predictions differ from routing the rows of the array given: %s vs %s" % (got.tolist(), e.tolist()))
        raw = fc.predict_raw(d); c.check(raw.shape == eraw.shape and close(raw, eraw), "predict-raw" + tag, "raw predictions differ")
        k = s.raw(cont["num_samples"]); one = fc.predict_raw_single_forest(d, k); c.check(close(one, eraw[:, k, :]), "predict-raw-single" + tag, "raw predictions of one draw differ")
    agree("")
    if X.flags.writeable and s.chance(1, 2): X[...] = 1; c.count("overwritten"); agree("-overwritten")
    for _ in range(s.range(0, 3)):
        if const: break
        lb = s.pick(LAYOUTS); B, Bv = lay(np.round(r.normal(size=(n, dim)), 2), lb); odd |= lb != "C"
        if dim == 1 and s.chance(1, 2): B = B[:, 0]
        d.update_basis(B); c.count("basis_updates"); agree("-update")
    if s.chance(1, 3):
        lx = s.pick(LAYOUTS); odd |= lx != "C"; d2 = Dataset(); X, Xv = lay(gen_X(s, r, n, p, cat), lx); d2.add_covariates(X)
        if not const: d2.add_basis(B)
        d = d2; agree("-second")
    c.nontrivial = n >= 2 and odd; c.count(lx)


@prop("P16res", "residual or weights are not plain contiguous float64 arrays")
def P16res(s, c):
    """a residual, weights and data of any layout behave as their contiguous double copies: same draws from the same seed"""
    n, p = s.pick([4, 7, 12, 25]), s.range(1, 3); r = s.sub(); T = s.range(1, 3); nb = s.pick([0, 1, 2])
    X0 = np.round(r.normal(size=(n, p)), 2); y0 = np.round(r.normal(size=n) * 2 + X0[:, 0], 2); w0 = np.round(np.exp(r.normal(size=n)), 2) + 0.01; B0 = np.round(r.normal(size=(n, max(nb, 1))), 2) + 1
    lx, ly, lw, lb = (s.pick(LAYOUTS) for _ in range(4)); usew = s.chance(1, 2)
    X, Xv = lay(X0, lx); B, Bv = lay(B0, lb); ysh = s.chance(1, 3); y, yv = lay(y0.reshape(-1, 1) if ysh else y0, ly)
    if lw in ("bool", "int64", "int32", "uint8"): w = np.ones(n, dtype=lw); wv = np.ones(n)
    else: w, wv = lay(w0, lw)
    c.note("n=%d X %s y %s%s w %s basis %s %d" % (n, lx, ly, " col" if ysh else "", lw if usew else None, lb, nb)); sd = s.seed() % 10000; gfr = [s.chance(1, 2) for _ in range(3)]; mcut = s.pick([100, 3])

    def run(X, y, w, B):
        d = Dataset(); d.add_covariates(X)
        if nb: d.add_basis(B)
        if usew: d.add_variance_weights(w)
        res = Residual(y); rng = RNG(sd); ft = np.zeros(p, dtype=int); fc = ForestContainer(T, max(nb, 1), nb == 0); fs = ForestSampler(d, ft, T, n, 0.95, 1.25, 1); gv = GlobalVarianceModel(); lv = LeafVarianceModel(); out = [gv.sample_one_iteration(res, rng, 3, 0.5)]
        sc = np.eye(max(nb, 1)) * 0.5; fc.set_root_leaves(0, np.zeros(nb) if nb > 1 else 0.0)
        for i, g in enumerate(gfr):
            fs.sample_one_iteration(fc, d, res, rng, ft, mcut, sc, np.full(p, 1.0 / p), 0.7, min(nb, 2), g, True); out.append(gv.sample_one_iteration(res, rng, 3, 0.5)); out.append(lv.sample_one_iteration(fc, rng, 3, 0.5, i) if nb < 2 else 0)
        return np.array(out), fc.predict(d)
    y1 = np.array(y); a, pa = run(X, y, w, B); b, pb = run(Xv, np.ascontiguousarray(yv), wv, Bv)
    c.check(same(y1, y), "input-changed", "the outcome array was modified by sampling")
    c.check(same(a, b) and same(pa, pb), "layout", lambda: "draws differ from those of contiguous double copies of the same values: %s vs %s" % (a.tolist(), b.tolist()))
    # first variance draw: its posterior uses the sum of squares of exactly the values passed
    z, _ = run(Xv, np.zeros(n), wv, Bv); e = z[0] * (3 * 0.5 + float(np.sum(yv**2))) / (3 * 0.5)
    c.check(abs(a[0] - e) <= 1e-9 * e, "residual-values", "error variance draw is not the one for these residual values")
    c.nontrivial = ly != "C" or lx != "C" or (usew and lw != "C")


# ---- P25: archives ----
NAMES = ["a", "b", "sigma2", "y_bar", "num_samples", "é", "", "a/b", "x~0", "0", "with space", "forest"]
STR = ["", "a", "hello", "é ü 漢", "line\nbreak", "\"quoted\\\"", "null", "1.5", "\t", "x" * 300]


def gen_val(s, kinds):
    k = s.pick(kinds); num = lambda: s.pick([0.0, -0.0, 1.0, -1.5, 1e308, 5e-324, 0.1, 1 / 3, 1e-300, 123456789.123456789, -2.0**53, s.num(100), s.num()])
    if k == "scalar": return k, num()
    if k == "bool": return k, s.chance(1, 2)
    if k == "string": return k, s.pick(STR)
    if k == "vec": return k, np.array([num() for _ in range(s.pick([1, 2, 3, 1, 0, 7]))], dtype=float)
    return k, [s.pick(STR) for _ in range(s.pick([1, 2, 3, 0]))]


GET = {"scalar": "get_scalar", "bool": "get_boolean", "string": "get_string", "vec": "get_numeric_vector", "svec": "get_string_vector"}
ADD = {"scalar": "add_scalar", "bool": "add_boolean", "string": "add_string", "vec": "add_numeric_vector", "svec": "add_string_vector"}


def equal(k, got, v):
    if k == "vec": return isinstance(got, np.ndarray) and got.shape == v.shape and all(float(a) == float(b) for a, b in zip(got, v))
    if k == "scalar": return isinstance(got, float) and got == v
    return type(got) == type(v) and got == v


@prop("P25py", "at least three stores, one of them an overwrite, a vector or in a subfolder")
def P25py(s, c):
    js = JSONSerializer(); model = {}; forests = {}; ops = 0; over = False; log = []; d = tempfile.mkdtemp(); p = 2; r = s.sub(); Xq = np.round(r.normal(size=(6, p)), 1)

    def verify():
        for (sub, nm), (k, v) in model.items():
            got = getattr(js, GET[k])(nm, sub) if sub is not None else getattr(js, GET[k])(nm)
            c.check(equal(k, got, v), "field-" + k, lambda: "field %r%s: stored %r, read back %r after %s" % (nm, "" if sub is None else " in %r" % sub, v, got, log))
            c.check(js.json_cpp.ContainsField(nm) if sub is None else js.json_cpp.ContainsFieldSubfolder(sub, nm), "contains", lambda: "stored field %r is reported missing" % nm)
        c.check(not js.json_cpp.ContainsField("never stored"), "contains", "a field that was never stored is reported present")
        for lab, cont in forests.items():
            fc = js.get_forest_container(lab); ds = Dataset(); ds.add_covariates(Xq); dim = cont["output_dimension"]; Bq = np.ones((6, dim)) * 1.5
            if not cont["is_leaf_constant"]: ds.add_basis(Bq)
            got = fc.predict(ds); c.check(close(got, ref_forest(cont, Xq, Bq)[0]), "forest", lambda: "forest %s of %d: predictions after reading it back differ" % (lab, len(forests)))
            c.check(close(fc.predict_raw(ds), ref_forest(cont, Xq, Bq)[1]), "forest-raw", "raw predictions after reading back differ")
    try:
        for _ in range(s.range(1, 8)):
            op = s.pick(["add", "add", "add", "forest", "save"])
            if op == "add":
                sub = s.pick([None, None, "sub", "other"]); nm = s.pick(NAMES)
                if (sub is None and nm in ("sub", "other")): continue
                k, v = gen_val(s, ["scalar", "bool", "string", "vec", "svec"]); log.append((op, sub, nm, k))
                over |= (sub, nm) in model; f = getattr(js, ADD[k]); (f(nm, v) if sub is None else f(nm, v, sub)); model[(sub, nm)] = (k, v); ops += 1
                over |= sub is not None or k == "vec"
            elif op == "forest":
                dim = s.range(1, 2); cont = gen_container(s, p, dim, dim == 1 and s.chance(1, 2), [False] * p); fc = load(cont); log.append("forest")
                for _ in range(s.pick([0, 0, 1, 2])):     # by way of a file, into a container of another shape that may already hold forests
                    fn = os.path.join(d, "fc.json"); fc.save_to_json_file(fn); alt = s.range(1, 2); fc = load(gen_container(s, p, alt, alt == 1 and s.chance(1, 2), [False] * p)) if s.chance(1, 2) else ForestContainer(s.range(0, 3), alt, s.chance(1, 2)); fc.load_from_json_file(fn); log[-1] += " by file"; c.count("forest_files")
                    c.check(container_json(fc) == cont, "forest-file", "a stored forest differs after save_to_json_file and load_from_json_file")
                js.add_forest(fc); lab = js.forest_labels[-1]
                c.check(lab not in forests, "label", "label %r was given to two forests" % lab); forests[lab] = cont; ops += 1; c.count("forests")
                c.check(js.num_forests == len(forests), "label", "forest counter")
            else:
                fn = os.path.join(d, "m.json"); js.json_cpp.SaveFile(fn); j2 = JSONSerializer(); j2.json_cpp.LoadFile(fn); j2.num_forests = js.num_forests; j2.forest_labels = list(js.forest_labels); log.append("save+load")
                if s.chance(1, 2): js.add_scalar("after save", 1.0)
                js = j2; c.count("file_round_trips")
                c.check(not js.json_cpp.ContainsField("after save"), "file", "the file changed after it was written")
            if s.chance(1, 2): verify()
        verify()
    finally:
        for f in os.listdir(d): os.unlink(os.path.join(d, f))
        os.rmdir(d)
    c.nontrivial = ops >= 3 and over; c.note("%s" % log)


if __name__ == "__main__": pbt.main()
