"""P22: covariate preprocessing in Python against the documented encoding, computed row by row."""
import warnings
import numpy as np, pandas as pd
import pbt
from pbt import prop, Discard
from common import *
from stochtree import CovariateTransformer

POOL = ["a", "b", "c", "é", "", "B", "10", "2", "long name", "None"]
KINDS = ["float", "float32", "Float64", "int", "int8", "int16", "uint32", "Int64", "UInt8", "bool", "boolean", "ordered", "unordered", "string", "ordered_int", "unordered_int", "object", "datetime", "timedelta", "period", "interval", "sparse"]


class Col:
    def __init__(self, s):
        self.k = s.pick(KINDS); self.cats = None
        if self.k in ("ordered", "unordered", "string"): self.cats = [POOL[(j * s.pick([1, 3, 7]) + s.raw(10)) % 10] for j in range(s.range(1, 5))]
        elif self.k in ("ordered_int", "unordered_int"): self.cats = [s.range(-3, 6) for _ in range(s.range(1, 4))]
        if self.cats: self.cats = list(dict.fromkeys(self.cats))
        self.used = None if not self.cats else list(self.cats)
        self.mag = s.range(0, 2)     # 0: small rounded numbers, otherwise full-precision ones

    def values(self, r, n, cover):
        """plain python values"""
        k = self.k
        if self.cats:
            v = [self.used[i] for i in r.integers(0, len(self.used), n)]
            if cover and k == "string":       # for strings the training values are the categories
                self.used = list(dict.fromkeys(v))
            return v
        if k == "float32": return [float(np.float32(x)) for x in np.round(r.normal(size=n) * 10, 1)]
        if k in ("float", "Float64"): return [float(x) for x in (np.round(r.normal(size=n) * 10, 1) if self.mag == 0 else r.normal(size=n) * 10.0 ** r.integers(-12, 13, n))]
        if k in ("int", "Int64"): return [int(x) for x in (r.integers(-1000, 1000, n) if self.mag == 0 else r.integers(-2 ** 53, 2 ** 53, n))]
        if k == "uint32": return [int(x) for x in r.integers(0, 2 ** 32, n)]
        if k == "int16": return [int(x) for x in r.integers(-2 ** 15, 2 ** 15, n)]
        if k == "int8": return [int(x) for x in r.integers(-128, 128, n)]
        if k == "UInt8": return [int(x) for x in r.integers(0, 256, n)]
        if k in ("bool", "boolean"): return [bool(x) for x in r.integers(0, 2, n)]
        return [int(x) for x in r.integers(0, 50, n)]

    def series(self, v, dtype_cats=None):
        k = self.k
        if k in ("ordered", "unordered", "ordered_int", "unordered_int"): return pd.Categorical(v, categories=dtype_cats or self.cats, ordered=k.startswith("ordered"))
        if k == "string": return pd.array(v, dtype="string")
        if k in ("float", "int", "bool"): return np.array(v, dtype={"float": float, "int": int, "bool": bool}[k])
        if k in ("float32", "int8", "int16", "uint32", "Float64", "Int64", "UInt8", "boolean"): return pd.array(v, dtype=k) if k[0].isupper() or k == "boolean" else np.array(v, dtype=k)
        if k == "object": return np.array(["o%d" % x for x in v], dtype=object)
        if k == "datetime": return pd.to_datetime(np.array(v), unit="D")
        if k == "timedelta": return pd.to_timedelta(np.array(v), unit="D")
        if k == "period": return pd.PeriodIndex(["20%02d-01" % x for x in v], freq="M")
        if k == "interval": return pd.arrays.IntervalArray.from_tuples([(x, x + 1) for x in v])
        return pd.arrays.SparseArray(np.array(v, dtype=float))

    def supported(self): return self.k not in ("object", "datetime", "timedelta", "period", "interval", "sparse")
    def onehot(self): return self.k in ("unordered", "unordered_int", "string")

    def width(self): return 0 if not self.supported() else len(sorted(self.used)) if self.k == "string" else len(self.cats) if self.onehot() else 1

    def encode(self, x):
        if not self.supported(): return []
        if self.k == "string": u = sorted(self.used); return [1.0 if x == q else 0.0 for q in u]
        if self.onehot(): return [1.0 if x == q else 0.0 for q in self.cats]
        if self.cats: return [float(self.cats.index(x))]
        return [float(x)]

    def ftype(self): return 1 if self.cats or self.k in ("bool", "boolean") else 0


def frame(cols, vals, s, names, subset):
    d = []
    for j, (q, v) in enumerate(zip(cols, vals)):
        dc = None
        if subset and q.cats and q.k != "string":
            dc = [x for x in q.cats if x in set(v)]
            if not q.k.startswith("ordered") and s.chance(1, 2): dc = dc[::-1]
        d.append(pd.Series(q.series(v, dc)))
    df = pd.concat(d, axis=1); df.columns = names
    return df


def check_fit(c, tr, cols, df, vals, tag):
    out = tr.transform(df); n = len(df); exp = np.array([[x for q, v in zip(cols, vals) for x in q.encode(v[i])] for i in range(n)], dtype=float).reshape(n, sum(q.width() for q in cols))
    c.check(out.shape == exp.shape, "shape", lambda: "%s: transformed shape %s, expected %s" % (tag, out.shape, exp.shape))
    c.check(np.array_equal(out, exp), "encoding", lambda: "%s: row %d is encoded as %s, expected %s" % (tag, int(np.argwhere(out != exp)[0][0]), out[np.argwhere(out != exp)[0][0]].tolist(), exp[np.argwhere(out != exp)[0][0]].tolist()))
    ft = [q.ftype() for q in cols for _ in range(q.width())]; c.check(list(tr._processed_feature_types) == ft, "feature-types", lambda: "%s: feature types %s, expected %s" % (tag, tr._processed_feature_types, ft))
    ix = [j for j, q in enumerate(cols) for _ in range(q.width())]; c.check(list(tr.fetch_original_feature_indices()) == ix, "original-indices", lambda: "%s: original indices %s, expected %s" % (tag, tr.fetch_original_feature_indices(), ix))
    return out


@prop("P22", "a categorical, string, boolean or unsupported column is present, or the transformer is refitted, or a numpy array is transformed")
def P22(s, c):
    tr = CovariateTransformer(); fits = s.pick([1, 1, 2, 3]); interesting = fits > 1
    for f in range(fits):
        if s.chance(1, 4): numpy_fit(s, c, tr); interesting = True; continue
        cols = [Col(s) for _ in range(s.range(1, 5))]; r = s.sub(); n = s.pick([1, 2, 3, 8, 20]); vals = [q.values(r, n, True) for q in cols]; unsup = [q for q in cols if not q.supported()]
        if len(unsup) == len(cols): cols.append(Col.__new__(Col)); cols[-1].k = "float"; cols[-1].mag = 0; cols[-1].cats = cols[-1].used = None; vals.append(cols[-1].values(r, n, True))
        names = ["v%d" % j for j in range(len(cols))]; df = frame(cols, vals, s, names, False)
        if s.chance(1, 4): df.index = np.arange(n)[::-1] * 3
        c.note("fit %d: %s, %d rows; " % (f, ",".join(q.k + (str(q.cats) if q.cats else "") for q in cols), n)); before = df.copy()
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            if s.chance(1, 2): out0 = tr.fit_transform(df)
            else: tr.fit(df); out0 = tr.transform(df)
        c.check((not unsup) or any("ignored" in str(x.message) for x in w), "warning", "columns of unsupported type were dropped without a warning")
        out = check_fit(c, tr, cols, df, vals, "training data"); c.check(same(out, out0), "repeat", "transforming the training data twice differs"); c.check(df.equals(before), "input-changed", "the data frame was modified")
        for _ in range(s.range(0, 2)):
            m = s.pick([1, 1, 2, 6]); v2 = [q.values(r, m, False) for q in cols]; sub = s.chance(1, 2); d2 = frame(cols, v2, s, names, sub); c.count("new_data"); c.count("category_subset", sub)
            o2 = check_fit(c, tr, cols, d2, v2, "new data")
            i = s.raw(m); c.check(np.array_equal(tr.transform(d2.iloc[[i]]), o2[[i]]), "row-wise", "a row alone is encoded differently than within its frame")
        cc = [j for j, q in enumerate(cols) if q.cats]
        if cc and s.chance(1, 3):       # values never declared as categories are not silently encoded
            j = s.pick(cc); v3 = [q.values(r, 1, False) for q in cols]; v3[j] = ["unseen!"] if isinstance(cols[j].cats[0], str) else [99]; q = cols[j]
            d3 = pd.concat([pd.Series(p.series(v, v if (p is q and p.k != "string") else None)) for p, v in zip(cols, v3)], axis=1); d3.columns = names; c.count("unseen")
            try: o3 = tr.transform(d3)
            except Exception: o3 = None
            if o3 is not None:
                a = sum(p.width() for p in cols[:j]); seg = o3[0, a:a + q.width()]; legal = [q.encode(x) for x in q.used]
                c.check(seg.tolist() not in legal, "unseen", lambda: "an unseen category is encoded like a training category: %s" % seg.tolist())
        interesting |= any(q.cats or q.k in ("bool", "boolean") or not q.supported() for q in cols)
    c.nontrivial = interesting


def numpy_fit(s, c, tr):
    n, p = s.pick([1, 2, 3, 9]), s.range(1, 4); r = s.sub(); X = np.round(r.normal(size=(n, p)), 1)
    for j in range(p):
        k = s.range(0, 4)
        if k == 1: X[:, j] = r.integers(0, 2, n)
        elif k == 2: X[:, j] = r.integers(0, 3, n)
        elif k == 3: X[:, j] = np.where(r.integers(0, 2, n) > 0, -1.5, 7.0)
        elif k == 4: X[:, j] = 4
    kind = s.pick(["C", "F", "strided", "int64", "float32"]); A = as_layout(np.round(X) if kind == "int64" else X, kind); B = A[:, 0] if p == 1 and s.chance(1, 2) else A
    c.note("numpy %dx%d %s; " % (n, p, kind)); tr.fit(B); out = tr.transform(B); c.count("numpy")
    c.check(out.shape == (n, p) and np.array_equal(out, A), "numpy-identity", "a numpy array is not passed through unchanged")
    ft = [1 if len(set(A[:, j].tolist())) == 2 else 0 for j in range(p)]; c.check(list(tr._processed_feature_types) == ft, "feature-types", lambda: "numpy: feature types %s, expected %s" % (tr._processed_feature_types, ft))
    c.check(list(tr.fetch_original_feature_indices()) == list(range(p)), "original-indices", "numpy original indices")
    m = s.range(1, 3); X2 = np.round(r.normal(size=(m, p)), 1); c.check(np.array_equal(tr.transform(X2), X2), "numpy-identity", "new numpy rows are not passed through unchanged")


if __name__ == "__main__": pbt.main()
