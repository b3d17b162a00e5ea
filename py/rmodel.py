"""Generators and reference evaluation shared by the R bart()/bcf() properties."""
import json, os, shutil, tempfile
import numpy as np
from common import close, same, ref_forest, num_splits, leaves_of, leaf_values, ig_pit, uniform_p, normal_p, phase_p
from rlink import R, RError, Frame, Factor, Ints, L
from rprep_props import column, newcol, expect, WORDS


class RCols:
    """covariates of one case: training frame/matrix, an independent encoder and new rows"""
    def __init__(self, s, r, n, pmax=4):
        self.s, self.r = s, r; p = s.range(1, pmax); self.frame = s.chance(1, 2); self.p = p
        if self.frame:
            self.kinds = [s.pick(["double", "int", "char", "factor", "ordered", "double"]) for _ in range(p)]; self.names = ["x%d" % (i + 1) for i in range(p)]
            self.specs = [column(s, r, n, k) for k in self.kinds]
            for sp, k in zip(self.specs, self.kinds):
                if k == "double": sp["rv"] = sp["v"] = np.round(r.normal(size=n), 3)
            self.X = Frame(zip(self.names, [sp["rv"] for sp in self.specs])); ul = R("lapply(preprocessTrainData(df)$metadata$unordered_unique_levels, as.character)", _reset=True, df=self.X) or {}
            for nm, sp in zip(self.names, self.specs):
                if sp["kind"] == "cat": sp["seen"] = list(np.atleast_1d(ul[nm]))
            self.E, _, self.orig = expect(self.specs, [sp["v"] for sp in self.specs], n)
        else:
            self.kinds = [s.pick(["normal", "int", "binary", "grid"]) for _ in range(p)]; self.X = self.fresh(n); self.E = self.X.astype(float); self.orig = list(range(1, p + 1))

    def fresh(self, m):
        r = self.r; X = np.column_stack([{"normal": np.round(r.normal(size=m), 3), "int": r.integers(-4, 5, m), "binary": r.integers(0, 2, m), "grid": r.integers(0, 12, m) / 4}[k] for k in self.kinds])
        return X.astype(int) if all(k in ("int", "binary") for k in self.kinds) else X

    def new(self, m):
        if not self.frame: X = self.fresh(m); return X, X.astype(float)
        nv = [newcol(self.s, self.r, m, sp, k, False) for sp, k in zip(self.specs, self.kinds)]
        return Frame(zip(self.names, [a for a, _ in nv])), expect(self.specs, [a if b is None else b for a, b in nv], m)[0]

    def take(self, idx):
        if not self.frame: return self.X[idx], self.E[idx]
        d = {}
        for nm, sp in zip(self.names, self.specs):
            v = sp["rv"]; d[nm] = Factor([v.codes[i] for i in idx], v.levels, v.ordered) if isinstance(v, Factor) else [v[i] for i in idx] if isinstance(v, list) else v[idx]
        return Frame(d), self.E[idx]

    def view(self):      # numbers to build outcomes from
        if not self.frame: return self.E
        return np.column_stack([np.asarray(sp["v"], dtype=float) if sp["kind"] == "num" else np.array([(sp.get("seen") or sp["levels"]).index(x) for x in sp["v"]], dtype=float) for sp in self.specs])

    def __str__(self): return ("frame " if self.frame else "matrix ") + ",".join(self.kinds)


class Groups:
    """group labels in one of the accepted forms"""
    def __init__(self, s, r, n, need=1):
        self.form = s.pick(["int", "char", "factor", "double"]); G = s.range(1, 4); self.ids = [[3, 11, 7, 100], ["b", "a", "group 10", "group 9"], ["z", "y", "x", "é"], [2.0, 1.0, 10.0, 5.0]][["int", "char", "factor", "double"].index(self.form)][:G]
        if n >= 12 and s.chance(1, 8):   # many groups
            G = s.range(5, min(n - 2, 100)); k = r.permutation(G); self.ids = {"int": [int(7 * i - 20) for i in k], "char": ["g%d" % i for i in k], "factor": ["level %d" % i for i in k], "double": [float(3 * i - 10) for i in k]}[self.form]
        self.g = r.integers(0, G, n); self.g[:G] = np.arange(G); r.shuffle(self.g); self.G = G

    def rv(self, g=None):
        g = self.g if g is None else g; v = [self.ids[i] for i in g]
        return Ints(v) if self.form == "int" else np.array(v) if self.form == "double" else Factor([int(i) + 1 for i in g], self.ids) if self.form == "factor" else v

    # bart()/bcf() recode labels through factor(): the declared order for a factor, sorted otherwise
    def code(self, g=None):
        g = self.g if g is None else g
        if self.form == "factor": return np.asarray(g) + 1
        lv = R("levels(factor(v))", v=self.rv()); lv = [lv] if isinstance(lv, str) else list(lv); key = (lambda x: str(int(x))) if self.form in ("int", "double") else (lambda x: x)
        return np.array([lv.index(key(self.ids[i])) + 1 for i in g])


def forest_json(expr):
    """the archive JSON of a forest container, through a file in a scratch directory"""
    d = tempfile.mkdtemp(prefix="vpr")
    try:
        f = os.path.join(d, "f.json"); R(".j <- createCppJson(); .j$add_forest(%s); .j$save_file(.f)" % expr, **{".f": f}); j = json.load(open(f)); return j["forests"]["forest_0"]
    finally: shutil.rmtree(d, ignore_errors=True)


def split_columns(cont):
    out = set()
    for d in range(cont["num_samples"]):
        f = cont["forest_%d" % d]
        for q in range(f["num_trees"]): t = f["tree_%d" % q]; out |= {t["split_index"][i] for i in t["internal_nodes"]}
    return out


def rfx_params(expr):
    """beta as components x groups x draws, and the label -> position mapping"""
    o = R("list(%s$extract_parameter_samples(), %s$extract_label_mapping())" % (expr, expr)); b = np.asarray(o[0]["beta_samples"], dtype=float)
    if b.ndim == 2: b = b[None]
    return b, {int(k): int(np.atleast_1d(v)[0]) for k, v in o[1].items()}, o[0]


def rfx_pred(b, mp, codes, W):
    """n x draws"""
    pos = np.array([mp[int(c)] - 1 for c in codes]); return np.einsum("nk,kns->ns", np.asarray(W, dtype=float).reshape(len(codes), -1), b[:, pos, :])


def mat(v, n): return np.asarray(v, dtype=float).reshape(n, -1, order="F")


def dims(v): return list(v.shape) if isinstance(v, np.ndarray) else None


def scaled_rfx(c, sd, var="m"):
    """getRandomEffectSamples(): the stored draws with coefficients in outcome units and variances in squared outcome units"""
    a, b = R("suppressWarnings(getRandomEffectSamples(%s))" % var), R("%s$rfx_samples$extract_parameter_samples()" % var)
    for nm, f in (("beta_samples", sd), ("sigma_samples", sd * sd)):
        u, v = (np.asarray(x[nm], dtype=float) for x in (a, b)); c.check(u.shape == v.shape and close(u, v * f), "rfx-samples", "the %s of getRandomEffectSamples() are not the stored draws on the outcome scale" % nm)
