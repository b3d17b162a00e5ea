"""Shared generators and reference models for the Python-side properties."""
import json, math, os
import numpy as np, pandas as pd
from scipy import stats
from pbt import Discard, Failure


def close(a, b, rel=1e-9, ab=1e-9):
    a = np.asarray(a, dtype=float); b = np.asarray(b, dtype=float)
    if a.shape != b.shape: return False
    if a.size == 0: return True
    sc = max(1.0, float(np.nanmax(np.abs(b), initial=0.0)))
    return bool(np.all((np.abs(a - b) <= ab + rel * sc) | (a == b)))


def same(a, b):
    a = np.asarray(a); b = np.asarray(b)
    return a.shape == b.shape and bool(np.array_equal(a, b, equal_nan=a.dtype.kind == "f"))


# ---- reference evaluation of a serialized forest container ----
def ref_tree(t, X):
    """leaf node reached by every row"""
    n = X.shape[0]; node = np.zeros(n, dtype=int)
    left, right, typ, ft, th = t["left"], t["right"], t["node_type"], t["split_index"], t["threshold"]
    cb, ce, cl = t["category_list_begin"], t["category_list_end"], t["category_list"]
    stack = [(0, np.arange(n))]
    while stack:
        k, rows = stack.pop()
        if left[k] == -1: node[rows] = k; continue
        v = X[rows, ft[k]]
        if typ[k] == 2: go = np.array([bool(np.isnan(x)) or (x in cl[cb[k]:ce[k]]) for x in v], dtype=bool)
        else: go = np.isnan(v) | (v <= th[k])
        stack.append((left[k], rows[go])); stack.append((right[k], rows[~go]))
    return node


def leaf_values(t):
    d = t["output_dimension"]
    if d == 1: return np.array(t["leaf_value"], dtype=float)[:, None]
    out = np.zeros((t["num_nodes"], d))
    for k in t["leaves"]:
        b, e = t["leaf_vector_begin"][k], t["leaf_vector_end"][k]
        out[k] = t["leaf_vector"][b:e] if e - b == d else t["leaf_value"][k]
    return out


def ref_forest(cont, X, basis):
    """(predictions n x draws, raw n x draws x dim, leaf node ids n x draws x trees)"""
    X = np.asarray(X, dtype=float); n = X.shape[0]; S = cont["num_samples"]
    pred = np.zeros((n, S)); raws = []; ids = []
    for s in range(S):
        f = cont["forest_%d" % s]; raw = 0; idk = []
        for k in range(f["num_trees"]):
            t = f["tree_%d" % k]; nd = ref_tree(t, X); raw = raw + leaf_values(t)[nd]; idk.append(nd)
        raws.append(raw); ids.append(idk)
        pred[:, s] = raw[:, 0] if f["is_leaf_constant"] else np.sum(raw * np.asarray(basis, dtype=float).reshape(n, -1), axis=1)
    return pred, np.stack(raws, axis=1) if S else np.zeros((n, 0, 1)), ids


def container_json(fc):
    from stochtree import JSONSerializer
    s = JSONSerializer(); s.add_forest(fc); return json.loads(s.json_cpp.DumpJson())["forests"][s.forest_labels[0]]


def num_splits(cont): return sum(len(cont["forest_%d" % s]["tree_%d" % k]["internal_nodes"]) for s in range(cont["num_samples"]) for k in range(cont["forest_%d" % s]["num_trees"]))


def leaves_of(f): return [len(f["tree_%d" % k]["leaves"]) for k in range(f["num_trees"])]


# ---- forests written in the archive format ----
def gen_tree(s, p, dim, cat, depth=0, nodes=None):
    """random tree in the archive's own format"""
    nodes = [] if nodes is None else nodes; k = len(nodes); nodes.append(None)
    if depth >= 4 or s.chance(1, 2 if depth else 4): nodes[k] = ("leaf", [round(s.num(), 3) for _ in range(dim)])
    else:
        f = s.raw(p); rule = ("cat", sorted({s.range(0, 5) for _ in range(s.range(1, 3))})) if cat[f] else ("num", s.pick([0.0, 0.5, -1.25, round(s.num(), 2)]))
        a = len(nodes); gen_tree(s, p, dim, cat, depth + 1, nodes); b = len(nodes); gen_tree(s, p, dim, cat, depth + 1, nodes); nodes[k] = (f, rule, a, b)
    return nodes


def tree_json(nodes, dim):
    n = len(nodes); t = dict(num_nodes=n, num_deleted_nodes=0, has_categorical_split=any(v[0] != "leaf" and v[1][0] == "cat" for v in nodes), output_dimension=dim, deleted_nodes=[], parent=[-1] * n, left=[-1] * n, right=[-1] * n,
                             split_index=[-1] * n, leaf_value=[0.0] * n, threshold=[0.0] * n, node_type=[0] * n, leaf_vector_begin=[0] * n, leaf_vector_end=[0] * n, category_list_begin=[0] * n, category_list_end=[0] * n, leaf_vector=[], category_list=[])
    for k, v in enumerate(nodes):
        t["leaf_vector_begin"][k] = len(t["leaf_vector"]); t["category_list_begin"][k] = len(t["category_list"])
        if v[0] == "leaf":
            if dim == 1: t["leaf_value"][k] = float(v[1][0])
            else: t["leaf_vector"] += [float(x) for x in v[1]]
        else:
            f, rule, a, b = v; t["split_index"][k] = f; t["left"][k] = a; t["right"][k] = b; t["parent"][a] = k; t["parent"][b] = k
            if rule[0] == "num": t["node_type"][k] = 1; t["threshold"][k] = float(rule[1])
            else: t["node_type"][k] = 2; t["category_list"] += rule[1]
        t["leaf_vector_end"][k] = len(t["leaf_vector"]); t["category_list_end"][k] = len(t["category_list"])
    t["leaves"] = [k for k, v in enumerate(nodes) if v[0] == "leaf"]; t["internal_nodes"] = [k for k, v in enumerate(nodes) if v[0] != "leaf"]
    t["leaf_parents"] = [k for k in t["internal_nodes"] if nodes[t["left"][k]][0] == "leaf" and nodes[t["right"][k]][0] == "leaf"]
    return t


def gen_container(s, p, dim, constant, cat, S=None):
    T = s.range(1, 3); S = s.range(1, 3) if S is None else S; c = dict(num_samples=S, num_trees=T, output_dimension=dim, is_leaf_constant=constant, initialized=True)
    for i in range(S):
        f = dict(num_trees=T, output_dimension=dim, is_leaf_constant=constant)
        for j in range(T): f["tree_%d" % j] = tree_json(gen_tree(s, p, dim, cat), dim)
        c["forest_%d" % i] = f
    return c


def gen_X(s, r, n, p, cat, vals=None):
    X = np.round(r.normal(size=(n, p)), 2)
    for j in range(p):
        if cat[j]: X[:, j] = r.integers(0, 6, n)
        elif s.chance(1, 3): X[:, j] = r.integers(-2, 3, n)
    return X


# ---- covariates ----
class Cols:
    """column specification from which training and new rows are generated"""
    def __init__(self, s, pmax=4, frame=None, flat=False):
        self.frame = s.chance(1, 2) if frame is None else frame
        self.cols = []
        for _ in range(s.range(1, pmax)):
            if self.frame: k = s.pick(["float", "int", "bool", "ordered", "unordered", "float32", "string"])
            else: k = s.pick(["normal", "int", "binary", "grid", "const"])
            self.cols.append((k, [s.pick(["a", "b", "cat %d", "Z", "é"]).replace("%d", str(i)) + str(i) for i in range(s.range(1, 4))] if k in ("ordered", "unordered", "string") else None))
        self.npdtype = "float64" if self.frame else s.pick(["float64", "float64", "float32", "int64", "F", "strided", "int32"])
        self.flat = flat and not self.frame and len(self.cols) == 1 and s.chance(1, 2)      # a single covariate as a vector

    def __str__(self): return ("frame" if self.frame else self.npdtype) + " " + ",".join(k + (str(len(c)) if c else "") for k, c in self.cols)

    def make(self, r, n, cover=False):
        if self.frame:
            d = {}
            for j, (k, cats) in enumerate(self.cols):
                nm = "x%d" % j
                if k == "float": d[nm] = np.round(r.normal(size=n) * 2, 2)
                elif k == "float32": d[nm] = r.normal(size=n).astype(np.float32)
                elif k == "int": d[nm] = r.integers(-5, 6, n)
                elif k == "bool": d[nm] = r.integers(0, 2, n).astype(bool)
                else:
                    v = [cats[i] for i in r.integers(0, len(cats), n)]
                    if cover:
                        for i in range(min(n, len(cats))): v[i] = cats[i]
                    d[nm] = pd.Series(v, dtype="string") if k == "string" else pd.Categorical(v, categories=cats, ordered=k == "ordered")
            return pd.DataFrame(d)
        X = np.zeros((n, len(self.cols)))
        for j, (k, _) in enumerate(self.cols):
            X[:, j] = {"normal": lambda: np.round(r.normal(size=n), 3), "int": lambda: r.integers(-4, 5, n), "binary": lambda: r.integers(0, 2, n), "grid": lambda: r.integers(0, 12, n) / 4, "const": lambda: np.full(n, 2.0)}[k]()
        X = as_layout(X, self.npdtype); return X[:, 0] if self.flat else X


def two(X): return X.reshape(len(X), -1) if isinstance(X, np.ndarray) else X


def as_layout(X, kind):
    X = np.asarray(X)
    if kind == "F": return np.asfortranarray(X)
    if kind == "strided":
        big = np.full(tuple(2 * k + 1 for k in X.shape), 777.25); sl = tuple(slice(1, 2 * k + 1, 2) for k in X.shape); big[sl] = X; return big[sl]
    if kind == "reversed": return np.ascontiguousarray(X[::-1])[::-1]
    if kind in ("float64", "C"): return np.ascontiguousarray(X, dtype=float)
    return X.astype(kind)


def numeric_view(X, tr=None):
    """independent encoding of a generated frame: used only to build outcomes"""
    if isinstance(X, np.ndarray): return X.astype(float).reshape(X.shape[0], -1)
    out = []
    for c in X.columns:
        v = X[c]
        out.append(v.cat.codes.to_numpy().astype(float) if isinstance(v.dtype, pd.CategoricalDtype) else np.array([len(str(q)) + ord(str(q)[0]) % 7 for q in v], dtype=float) if v.dtype == "string" else v.to_numpy().astype(float))
    return np.stack(out, axis=1)


def outcome(s, r, X, n, basis=None):
    V = numeric_view(X); f = np.zeros(n)
    for j in range(V.shape[1]):
        f = f + s.pick([0.0, 1.0, -2.0, 0.5]) * (V[:, j] > np.median(V[:, j])) + s.pick([0.0, 0.3]) * V[:, j]
    if basis is not None: f = f * basis.reshape(n, -1)[:, 0] + 0.3 * basis.reshape(n, -1).sum(axis=1)
    return f * s.pick([1.0, 0.0, 3.0]) + r.normal(size=n) * s.pick([1.0, 0.2, 5.0])


def take(X, idx): return X.iloc[idx] if isinstance(X, pd.DataFrame) else X[idx]


def ig_pit(x, shape, scale): return stats.gamma.cdf(scale / x, shape)     # x ~ IG(shape, scale)  =>  scale/x ~ Gamma(shape, 1)


def uniform_p(u):
    u = np.asarray(u, dtype=float)
    if len(u) < 8 or not np.all(np.isfinite(u)): return 0.0 if len(u) and not np.all(np.isfinite(u)) else 1.0
    return float(stats.kstest(u, "uniform").pvalue)


def pit_p(u):
    """uniformity of probability transforms: shape (KS), location and spread of their normal scores"""
    u = np.asarray(u, dtype=float); return uniform_p(u) if len(u) < 8 or not np.all(np.isfinite(u)) else normal_p(stats.norm.ppf(np.clip(u, 1e-12, 1 - 1e-12)))


def phase_p(u, g, test=None):
    """uniformity of all draws, and of the first g and the rest alone (grow-from-root draws, MCMC draws)"""
    parts = [u] + ([u[:g], u[g:]] if g >= 20 and len(u) - g >= 20 else []); return min(1.0, len(parts) * min((test or pit_p)(q) for q in parts))


# ---- leaf draws ----
def leaf_law(cont, X, basis, resid, s2, S0, init=None):
    """every leaf parameter of a sampled chain standardised by its full conditional
    cont: stored draws; basis: None or f(draw) -> n x dim basis in force; resid: n x draws outcome minus everything but this forest;
    s2(draw), S0(draw) -> variance and prior leaf covariance in force; init: value of every leaf before the first draw"""
    n = len(X); tot, T = cont["num_samples"], cont["num_trees"]; d = cont["output_dimension"]; ids = [[ref_tree(cont["forest_%d" % i]["tree_%d" % j], X) for j in range(T)] for i in range(tot)]; vals = [[leaf_values(cont["forest_%d" % i]["tree_%d" % j]) for j in range(T)] for i in range(tot)]; res = []
    const = basis is None
    for i in range(tot):
        B = np.ones((n, 1)) if const else np.asarray(basis(i), dtype=float).reshape(n, -1); f = lambda q, j: np.sum(vals[q][j][ids[q][j]] * B, axis=1)
        prev = [f(i - 1, j) for j in range(T)] if i else [np.sum(np.broadcast_to(0.0 if init is None else init, (n, d)) * B, axis=1)] * T; r = resid[:, i] - sum(prev); v = float(s2(i)); P0 = np.linalg.inv(np.atleast_2d(S0(i))); out = []; res.append(out)
        for j in range(T):
            r = r + prev[j]
            for k in cont["forest_%d" % i]["tree_%d" % j]["leaves"]:
                rows = ids[i][j] == k; b = B[rows]; L = np.linalg.cholesky(b.T @ b / v + P0); mean = np.linalg.solve(L.T, np.linalg.solve(L, b.T @ r[rows] / v)); out.extend(L.T @ (vals[i][j][k] - mean))
            r = r - f(i, j)
    return [np.array(u) for u in res]


def normal_p(z):
    """p-value of independent standard normal values: shape, mean and spread"""
    n = len(z); q = float(np.sum(z * z)); return min(1.0, 3 * min(uniform_p(stats.norm.cdf(z)), 2 * stats.norm.sf(abs(np.sum(z)) / np.sqrt(n)), 2 * min(stats.chi2.sf(q, n), stats.chi2.cdf(q, n))))


def leaf_check(c, Z, tag):
    z = np.concatenate(Z); pv = normal_p(z); txt = "%s forest: leaf parameters do not follow their full conditional given trees, residual, error variance and leaf scale in force"
    c.check(pv > 1e-9, "leaf-law", lambda: (txt + " (p=%g over %d standardised leaf draws, mean %.3f, variance %.4f)") % (tag, pv, len(z), np.mean(z), np.var(z))); c.count("leaf_draws", len(z))
    for i, v in enumerate(Z):       # a value that is wrong at one draw only (first draw, change of phase)
        if len(v) < 20 or i > 12: continue
        pv = normal_p(v); c.check(pv > 1e-11, "leaf-law", lambda: (txt + " at draw %d of %d (p=%g over %d leaves, mean %.3f, variance %.4f)") % (tag, i, len(Z), pv, len(v), np.mean(v), np.var(v))); c.count("single_draws")
    return len(z)


def leaf_sizes(cont, X):
    """training rows in every leaf: list over draws, trees of dict leaf -> count"""
    return [[dict(zip(*np.unique(ref_tree(cont["forest_%d" % i]["tree_%d" % j], X), return_counts=True))) for j in range(cont["num_trees"])] for i in range(cont["num_samples"])]


def tree_depth(t):
    dep = {0: 0}; st = [0]
    while st:
        k = st.pop()
        if t["left"][k] == -1: continue
        for ch in (t["left"][k], t["right"][k]): dep[ch] = dep[k] + 1; st.append(ch)
    return max(dep.values())


def trees(cont): return [(i, j, cont["forest_%d" % i]["tree_%d" % j]) for i in range(cont["num_samples"]) for j in range(cont["forest_%d" % i]["num_trees"])]


def shape_check(c, cont, X, T, minleaf, limit, tag):
    """number of trees, leaf sizes, depth limits implied by the split prior"""
    c.check(all(cont["forest_%d" % i]["num_trees"] == T for i in range(cont["num_samples"])), "num-trees", lambda: "%s forest: %s trees, requested %d" % (tag, [cont["forest_%d" % i]["num_trees"] for i in range(cont["num_samples"])], T))
    for i, row in enumerate(leaf_sizes(cont, X)):
        for j, sz in enumerate(row):
            t = cont["forest_%d" % i]["tree_%d" % j]
            if len(t["leaves"]) > 1: c.check(all(sz.get(k, 0) >= minleaf for k in t["leaves"]), "min-samples", lambda: "%s forest draw %d tree %d has leaves with %s training rows, minimum %d" % (tag, i, j, [int(sz.get(k, 0)) for k in t["leaves"]], minleaf))
    if limit is not None:
        for i, j, t in trees(cont): c.check(tree_depth(t) <= limit, "split-prior", lambda: "%s forest draw %d tree %d has depth %d although the split prior rules out splits of nodes at depth %d" % (tag, i, j, tree_depth(t), limit))


def grid_check(c, cont, draws, grid, numeric, tag):
    """the root node sees the whole training sample: its cutpoints all come from one grid per feature"""
    seen = {}
    for i, j, t in trees(cont):
        if i in draws and t["left"][0] != -1 and numeric[t["split_index"][0]]: seen.setdefault(t["split_index"][0], set()).add(t["threshold"][0])
    for f, v in seen.items(): c.check(len(v) <= grid, "cutpoint-grid", lambda: "%s forest: %d different grow-from-root cutpoints at the root on covariate %d, grid size %d" % (tag, len(v), f, grid))
    return max([len(v) for v in seen.values()], default=0)


PRIORS = [("free", None), ("stump", 0), ("depth1", 1)]


def prior_kw(s, kind):
    """(alpha, beta) under which trees deeper than the limit have prior odds below 1e-20 per split"""
    return {"free": lambda: (s.pick([0.95, 0.5, 0.999]), s.pick([2.0, 1.25, 1.0])), "stump": lambda: (1e-40, s.pick([2.0, 1.0])), "depth1": lambda: (s.pick([0.95, 0.999]), 200.0)}[kind]()


# ---- the prior over trees, as seen when the data say nothing ----
def batch_p(x, margin=0.0, B=12):
    """two-sided p-value of mean zero (up to a margin) for a stationary series, by batch means"""
    x = np.asarray(x, dtype=float); L = x.shape[-1] // B; b = x[..., : L * B].reshape(-1, B, L).mean(axis=2).ravel(); k = len(b); se = max(np.std(b, ddof=1), np.std(x) / math.sqrt(L) * 0.5) / math.sqrt(k)
    if se == 0: return 1.0
    return float(2 * stats.t.sf(max(0.0, abs(np.mean(b)) - margin) / se, k - 1))


def prior_series(cont, draws, owner):
    """per tree and draw: root splits, root's original variable, splits one level down"""
    T = cont["num_trees"]; root = np.zeros((T, len(draws)), dtype=int); var = np.full((T, len(draws)), -1); child = np.zeros((T, len(draws)), dtype=int)
    for a, i in enumerate(draws):
        f = cont["forest_%d" % i]
        for j in range(T):
            t = f["tree_%d" % j]
            if t["left"][0] == -1: continue
            root[j, a] = 1; var[j, a] = owner[t["split_index"][0]]; child[j, a] = (t["left"][t["left"][0]] != -1) + (t["left"][t["right"][0]] != -1)
    return root, var, child


def prior_tests(cont, mcmc, gfr, alpha, beta, owner, weights, shape=True):
    """name -> p-value; weights: original variable -> relative weight (None: not stated); shape: every column can be split on"""
    out = {}; root, var, child = prior_series(cont, mcmc, owner); m2 = min(1.0, alpha * 2.0 ** -beta); n = root.size / 8
    if len(mcmc) >= 480:
        if shape and n * min(alpha, 1 - alpha) > 25: out["probability that the root splits under MCMC (split prior alpha)"] = batch_p(root - alpha, 0.015)
        if shape and n * alpha * 2 * min(m2, 1 - m2) > 25: out["probability that a child of the root splits under MCMC (split prior alpha and beta)"] = batch_p(child - 2 * m2 * root, (0.01 + 0.1 * m2) * alpha)
        tot = sum(w for w in weights.values() if w is not None)
        for v, w in weights.items():
            if w is None: continue
            known = np.isin(var, [q for q in weights if weights[q] is not None]).astype(float); q = w / tot
            if w == 0 or n * alpha * min(q, 1 - q) < 25: continue
            out["probability that the root splits on variable %d (variable weights)" % v] = batch_p((var == v) - q * known, 0.02 * alpha)
    if len(gfr) >= 40:
        root, var, child = prior_series(cont, gfr, owner); k = root.size
        for nm, x, mean, sd, need, mg in (("probability that the root splits under grow-from-root (split prior alpha)", root.sum() / k, alpha, math.sqrt(alpha * (1 - alpha) / k), k * min(alpha, 1 - alpha), 0.01), ("probability that a child of the root splits under grow-from-root (split prior alpha and beta)", child.sum() / max(1, 2 * root.sum()), m2, math.sqrt(m2 * (1 - m2) / max(1, 2 * root.sum())), 2 * root.sum() * min(m2, 1 - m2), 0.015)):
            if need > 15: out[nm] = float(2 * stats.norm.sf(max(0.0, abs(x - mean) - mg) / sd))
    return out


SPLIT = [(0.95, 2.0), (0.95, 3.0), (0.6, 2.0), (0.3, 1.5), (0.7, 3.0)]


def steer(s, kw, tag):
    """sometimes an informative prior moves the sampled leaf scale away from where it started"""
    if s.chance(2, 3): a = s.pick([200.0, 1000.0]); kw["a_leaf" + tag] = a; kw["b_leaf" + tag] = a * s.pick([0.005, 0.05, 1.0])


def settle(c, go, kw):
    """a small p-value is confirmed on fresh draws before it counts"""
    o = go(kw); low = {q: v for q, v in o.items() if v < 1e-4}; c.count("frequencies_tested", len(o))
    if low:
        o2 = go(dict(kw, random_seed=kw["random_seed"] + 1)); c.count("retested")
        for q, v in low.items(): c.check(o2.get(q, 1.0) > 1e-7, "split-prior-law", lambda: "with leaf values fixed near zero the data carry no information, yet the %s is off (p=%.2g, then %.2g on fresh draws)" % (q, v, o2.get(q, 1.0)))
    return len(o)
