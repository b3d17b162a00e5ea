// P08, P11, P12, P13, P14: laws of the draws, tested against exact reference distributions.
// Every statistical decision has two stages on independent draws (p < 1e-3, then p < 1e-8 on a
// larger fresh sample), so that a correct sampler alarms with probability below 1e-11 per case.
#include "world.h"
#include <boost/math/special_functions/gamma.hpp>
#include <boost/math/special_functions/erf.hpp>

struct Verdict { double p = 1; std::string what; int tests = 0; void add(double q, const std::string& w) { tests++; if (q < p) { p = q; what = w; } } double adj() const { return std::min(1., p * std::max(1, tests)); } };
static int big(uint32_t seed, int n) { return pbt::tier() ? n * (seed % 3 ? 2 : 8) : n * (seed % 5 ? 1 : 4); }   // some cases get a longer first stage
static double zp(double z) { return std::isfinite(z) ? std::erfc(std::fabs(z) / std::sqrt(2.)) : 0; }
static double ncdf(double z) { return 0.5 * std::erfc(-z / std::sqrt(2.)); }
static double igcdf(double x, double a, double b) { return x <= 0 ? 0 : boost::math::gamma_q(a, b / x); }
static double ks(std::vector<double> u) {   // u = probability transforms, uniform under the reference law
  int n = u.size(); std::sort(u.begin(), u.end()); double D = 0; for (int i = 0; i < n; i++) { if (!(u[i] >= 0 && u[i] <= 1)) return 0; D = std::max(D, std::max((i + 1.) / n - u[i], u[i] - (double)i / n)); }
  double l = (std::sqrt((double)n) + 0.12 + 0.11 / std::sqrt((double)n)) * D; if (l < 0.3) return 1; double p = 0; for (int k = 1; k < 60; k++) p += (k % 2 ? 2 : -2) * std::exp(-2. * k * k * l * l); return std::min(1., std::max(0., p));
}
static void std_normal_tests(Verdict& v, const std::vector<double>& z, const std::string& w) {
  int n = z.size(); double m = 0, q = 0; for (double x : z) { m += x; q += x * x; } std::ostringstream o; o << w << " (" << n << " draws: mean of z " << m / n << ", mean of z^2 " << q / n << ")";
  v.add(zp(m / std::sqrt((double)n)), o.str() + " mean"); v.add(zp((q - n) / std::sqrt(2. * n)), o.str() + " variance");
  std::vector<double> u(z); for (auto& x : u) x = ncdf(x); v.add(ks(u), o.str() + " shape");
}
static void corr_test(Verdict& v, const std::vector<double>& a, const std::vector<double>& b, const std::string& w) { double r = 0; int n = a.size(); for (int i = 0; i < n; i++) r += a[i] * b[i]; v.add(zp(r / std::sqrt((double)n)), w + " correlated"); }
static void decide(Ctx& c, const std::string& key, int n1, int n2, const std::function<Verdict(int, int)>& run) {
  Verdict a = run(n1, 0); c.count("reference-law tests", a.tests); if (a.adj() > 1e-3) return; c.count("second stages"); Verdict b = run(n2, 1);
  PBT_CHECK(c, b.adj() > 1e-8, key, b.what << ": p=" << b.adj() << " on " << n2 << " fresh draws (first stage " << a.what << " p=" << a.adj() << ")");
}

// ---------------------------------------------------------------- P08
static void p08(Src& s, Ctx& c) {
  int kind = (int)s.raw(3), n = s.range(1, 16); Node q = make_node(s, c, kind, n, DataOpt(), true); Term& t = *q.t; Data& d = t.d; LM& lm = t.lm; uint32_t seed = s.seed32(); int dim = lm.dim();
  if (s.chance(1, 5)) t.s2 = s.pick<double>({1e-3, 100}); int first = s.range(0, 1);
  if (c.describe) { c.desc << t.what() << " " << show(d) << " tree " << show(q.m); }
  // reference posterior of every leaf
  std::vector<int> ids = q.m.leaves(); std::vector<Vec> M; std::vector<Mat> Linv;
  for (int l : ids) { auto R = node_rows(q.m, d, l); Mat D = lm.design(d, R), P = lm.prior().inverse(); Vec h = Vec::Zero(dim); for (size_t i = 0; i < R.size(); i++) { P += D.row(i).transpose() * D.row(i) / (t.s2 * d.w(R[i])); h += D.row(i).transpose() * q.y[R[i]] / (t.s2 * d.w(R[i])); }
    Mat V = P.inverse(); V = (V + V.transpose()) / 2; M.push_back(V * h); Linv.push_back(Mat(V.llt().matrixL()).inverse()); }
  Tree* tree = q.e->GetTree(q.tree);
  decide(c, "leaf-law", big(seed, 2000), 40000, [&](int N, int stage) {
    std::mt19937 gen(seed + stage * 7919); std::vector<std::vector<double>> z(ids.size() * dim);
    for (int k = 0; k < N; k++) {
      lm.with([&](auto& m) { m.SampleLeafParameters(t.ds, *t.tr, *q.r, tree, q.tree, t.s2, gen); return 0; });
      for (size_t l = 0; l < ids.size(); l++) { Vec x(dim); for (int j = 0; j < dim; j++) x(j) = tree->LeafValue(ids[l], j); Vec w = Linv[l] * (x - M[l]); for (int j = 0; j < dim; j++) z[l * dim + j].push_back(w(j)); }
    }
    Verdict v; for (size_t i = 0; i < z.size(); i++) { std_normal_tests(v, z[i], "leaf " + std::to_string(ids[i / dim]) + " component " + std::to_string(i % dim)); for (size_t j = 0; j < i && j < 6; j++) corr_test(v, z[i], z[j], "leaf components"); std::vector<double> a(z[i].begin(), z[i].end() - 1), b(z[i].begin() + 1, z[i].end()); corr_test(v, a, b, "successive draws of a leaf"); }
    return v; });
  // changing the model's scale takes effect (the samplers re-set it every iteration)
  (void)first; c.nontrivial = n >= 2 && (ids.size() > 1 || dim > 1 || !d.W.empty()); c.count(kind == 0 ? "constant leaf" : kind == 1 ? "univariate regression leaf" : "multivariate regression leaf"); c.count("weighted", !d.W.empty()); c.count("several leaves", ids.size() > 1);
}
static pbt::Reg r08("P08", ">=2 rows and several leaves, a vector leaf or variance weights", p08);

// ---------------------------------------------------------------- exact enumeration of trees on tiny data
typedef uint32_t Mask;
struct ETree { int f = -1; Mask left = 0; bool cat = false; std::vector<uint32_t> cats; double lo = 0, hi = 0; double logw = 0; std::shared_ptr<ETree> l, r; Mask rows = 0; };
typedef std::shared_ptr<ETree> EP;
static std::string sig(const EP& e) { if (e->f < 0) return "."; std::ostringstream o; o << "(x" << e->f << ":" << e->left << " " << sig(e->l) << sig(e->r) << ")"; return o.str(); }
static int eleaves(const EP& e) { return e->f < 0 ? 1 : eleaves(e->l) + eleaves(e->r); }
static int edepth(const EP& e) { return e->f < 0 ? 0 : 1 + std::max(edepth(e->l), edepth(e->r)); }
static std::vector<int> mrows(Mask m) { std::vector<int> v; for (int i = 0; i < 20; i++) if (m >> i & 1) v.push_back(i); return v; }
static std::string sig_of(Tree& t, const Data& d, int node, Mask rows, int* leaves, int depth, int* maxd) {
  *maxd = std::max(*maxd, depth); if (t.IsLeaf(node)) { ++*leaves; return "."; } RTree m; RNode nd; nd.cat = t.NodeType(node) == TreeNodeType::kCategoricalSplitNode; if (nd.cat) nd.cats = t.CategoryList(node); else nd.thr = t.Threshold(node); int f = t.SplitIndex(node); Mask left = 0; for (int i : mrows(rows)) if (m.left_of(nd, d.x(i, f))) left |= 1u << i;
  std::ostringstream o; o << "(x" << f << ":" << left << " " << sig_of(t, d, t.LeftChild(node), left, leaves, depth + 1, maxd) << sig_of(t, d, t.RightChild(node), rows & ~left, leaves, depth + 1, maxd) << ")"; return o.str();
}
struct Enum {
  const Data& d; double alpha, beta; DV w; int minleaf; std::function<double(Mask)> ml; size_t cap; std::map<Mask, double> memo;
  double L(Mask m) { auto it = memo.find(m); if (it != memo.end()) return it->second; return memo[m] = ml ? ml(m) : 0.; }
  double psplit(int depth) { return alpha * std::pow(1. + depth, -beta); }
  // all trees below a node, weight = tree prior (uniform cutpoints, feature weights) x integrated likelihood
  std::vector<EP> mcmc(Mask rows, int depth) {
    std::vector<EP> out; EP leaf = std::make_shared<ETree>(); leaf->rows = rows; leaf->logw = std::log(1 - psplit(depth)) + L(rows); out.push_back(leaf); double wt = 0; for (double x : w) wt += x; auto R = mrows(rows);
    for (int f = 0; f < d.p; f++) { if (w[f] <= 0) continue; std::set<double> u; for (int i : R) u.insert(d.x(i, f)); if (u.size() < 2) continue; DV v(u.begin(), u.end()); double range = v.back() - v.front();
      for (size_t k = 0; k + 1 < v.size(); k++) { Mask lm = 0; for (int i : R) if (d.x(i, f) <= v[k]) lm |= 1u << i; if ((int)mrows(lm).size() < minleaf || (int)mrows(rows & ~lm).size() < minleaf) continue;
        auto A = mcmc(lm, depth + 1), B = mcmc(rows & ~lm, depth + 1); for (auto& a : A) for (auto& b : B) { EP e = std::make_shared<ETree>(); e->f = f; e->left = lm; e->rows = rows; e->lo = v[k]; e->hi = v[k + 1]; e->l = a; e->r = b; e->logw = std::log(psplit(depth)) + std::log(w[f] / wt) + std::log((v[k + 1] - v[k]) / range) + a->logw + b->logw; out.push_back(e); if (out.size() > cap) throw pbt::Discard(); } } }
    return out;
  }
  // all outcomes of the grow-from-root recursion with their probabilities (logw = log probability)
  std::vector<EP> gfr(Mask rows, int depth, const DV& y, const std::vector<FeatureType>& ft) {
    struct Cand { int f; Mask l; bool cat; double thr; std::vector<uint32_t> cats; double sc; }; std::vector<Cand> C; auto R = mrows(rows);
    for (int f = 0; f < d.p; f++) { if (w[f] <= 0) continue; std::set<double> u; for (int i : R) u.insert(d.x(i, f)); DV v(u.begin(), u.end());
      if (ft[f] == kUnorderedCategorical) { std::map<double, double> avg; for (double q : v) { double sum = 0; int m = 0; for (int i : R) if (d.x(i, f) == q) { sum += y[i]; m++; } avg[q] = sum / m; } std::stable_sort(v.begin(), v.end(), [&](double a, double b) { return avg[a] < avg[b]; }); for (size_t k = 1; k < v.size(); k++) if (std::fabs(avg[v[k]] - avg[v[k - 1]]) < 1e-9) throw pbt::Discard(); }
      Mask lm = 0; std::vector<uint32_t> cats; for (size_t k = 0; k + 1 < v.size(); k++) { for (int i : R) if (d.x(i, f) == v[k]) lm |= 1u << i; cats.push_back((uint32_t)v[k]); int nl = mrows(lm).size(), nr = R.size() - nl; if (nl < minleaf || nr < minleaf) continue; Cand q; q.f = f; q.l = lm; q.cat = ft[f] == kUnorderedCategorical; q.thr = v[k]; q.cats = cats; q.sc = L(lm) + L(rows & ~lm); C.push_back(q); } }
    EP leaf = std::make_shared<ETree>(); leaf->rows = rows; if (C.empty()) { leaf->logw = 0; return {leaf}; }
    double no = L(rows) + std::log((double)C.size()) + std::log(std::pow(1. + depth, beta) / alpha - 1); double mx = no; for (auto& q : C) mx = std::max(mx, q.sc); double tot = std::exp(no - mx); for (auto& q : C) tot += std::exp(q.sc - mx); double lt = std::log(tot) + mx;
    leaf->logw = no - lt; std::vector<EP> out{leaf};
    for (auto& q : C) { auto A = gfr(q.l, depth + 1, y, ft), B = gfr(rows & ~q.l, depth + 1, y, ft); for (auto& a : A) for (auto& b : B) { EP e = std::make_shared<ETree>(); e->f = q.f; e->left = q.l; e->rows = rows; e->l = a; e->r = b; e->logw = q.sc - lt + a->logw + b->logw; out.push_back(e); if (out.size() > cap) throw pbt::Discard(); } }
    return out;
  }
};
static Data tiny_data(Src& s, int n, int bd, bool cats) {
  Data d; d.n = n; d.bd = bd; d.p = s.range(1, 2); d.X.resize(n * d.p); d.ft.resize(d.p);
  for (int j = 0; j < d.p; j++) { int k = (int)s.raw(cats ? 5 : 3); d.ft[j] = k <= 2 ? kNumeric : k == 3 ? kOrderedCategorical : kUnorderedCategorical; for (int i = 0; i < n; i++) d.X[i * d.p + j] = k >= 3 ? s.range(0, 3) : k == 0 ? s.range(-2, 3) : k == 1 ? s.range(0, 40) / 8. - 9 : s.normal(); }
  d.B.resize(n * bd); for (auto& v : d.B) v = s.chance(1, 3) ? s.range(0, 1) : s.num(1);
  if (s.chance(1, 3)) { d.W.resize(n); for (auto& v : d.W) v = s.pick<double>({0.25, 0.5, 1, 2, 4}); }
  return d;
}
static DV tiny_weights(Src& s, int p) { DV w(p, 1. / p); if (p > 1 && s.chance(2, 3)) { for (auto& x : w) x = s.range(0, 4); double t = 0; for (double x : w) t += x; if (t == 0) w[0] = 1; } return w; }

// ---------------------------------------------------------------- P11
static void p11(Src& s, Ctx& c) {
  int kind = (int)s.raw(3), n = s.range(2, 5); LM lm = gen_lm(s, kind); Data d = tiny_data(s, n, lm.basis(), true); DV y(n); for (auto& v : y) v = 1.3 * s.normal(); double s2 = s.pick<double>({1, 0.3, 2}); bool deep = s.chance(1, 3);
  if (deep) {   // long chains of splits: one covariate, outcomes that shed one row per level
    n = s.range(5, 7); d = tiny_data(s, n, lm.basis(), false); DV x(n); bool up = s.chance(1, 2); double rate = s.pick<double>({2.2, 1.6, 3}), q = s.pick<double>({1, 0.4}), f = s.pick<double>({1, -1}); y.assign(n, 0.);
    DV X1(n); d.p = 1; d.ft = {kNumeric}; for (int i = 0; i < n; i++) { X1[i] = (up ? i : -i) + 0.25 * s.range(0, 2); y[i] = f * q * std::pow(rate, i) * (s.chance(1, 3) ? -1 : 1) + 0.3 * s.normal(); } d.X = X1; s2 = s.pick<double>({0.3, 1, 0.1});
  }
  double alpha = s.pick<double>({0.95, 0.5, 0.8, 0.3}), beta = s.pick<double>({1.25, 0.5, 2, 0}); int minleaf = s.chance(1, 3) ? 2 : 1; if (deep) { alpha = s.pick<double>({0.95, 0.99, 0.8}); beta = s.pick<double>({1.25, 2, 0.5, 1}); minleaf = 1; } DV w = tiny_weights(s, d.p); uint32_t seed = s.seed32(); int nt = s.range(1, 2), which = s.range(0, nt - 1);
  Enum E{d, alpha, beta, w, minleaf, [&](Mask m) { return log_ml(lm, d, y, s2, mrows(m)); }, 900}; auto all = E.gfr((1u << n) - 1, 0, y, d.ft);
  if (c.describe) { c.desc << "leaf model " << kind << " alpha=" << alpha << " beta=" << beta << " minleaf=" << minleaf << " s2=" << s2 << " weights="; for (double x : w) c.desc << x << ","; c.desc << " " << show(d) << " y="; for (double v : y) c.desc << v << ","; c.desc << " possible trees " << all.size(); }
  std::map<std::string, double> P; double tot = 0; for (auto& e : all) { P[sig(e)] += std::exp(e->logw); tot += std::exp(e->logw); } PBT_CHECK(c, std::fabs(tot - 1) < 1e-9, "oracle", "reference probabilities sum to " << tot);
  std::map<std::string, std::pair<int, int>> info; for (auto& e : all) info[sig(e)] = {eleaves(e), edepth(e)};
  ForestDataset ds; d.fill(ds); TreePrior pr(alpha, beta, minleaf);
  decide(c, "gfr-law", big(seed, 1500), 60000, [&](int N, int stage) {
    std::map<std::string, long> cnt; std::map<int, long> lcnt, dcnt; Verdict v; std::mt19937 gen(seed + 7919 * stage);
    for (int done = 0; done < N;) {   // several draws per container: each grows every tree afresh
      ForestTracker tr(ds.GetCovariates(), d.ft, nt, n); ForestContainer fc(nt, lm.dim(), kind == 0); ColumnVector r(y.data(), n);
      if (lm.dim() == 1) fc.InitializeRoot(0.); else { DV z(lm.dim(), 0.); fc.InitializeRoot(z); }
      lm.with([&](auto& m) { typedef std::decay_t<decltype(m)> T; GFRForestSampler<T> g(500);
        if (nt == 1) for (int k = 0; k < 50 && done < N; k++, done++) { g.SampleOneIter(tr, fc, m, ds, r, pr, gen, w, s2, d.ft, true); int lv = 0, md = 0; std::string q = sig_of(*fc.GetEnsemble(k)->GetTree(0), d, 0, (1u << n) - 1, &lv, 0, &md); cnt[q]++; lcnt[lv]++; dcnt[md]++; if (c.describe) continue; }
        else {  // the first tree of a forest whose other trees are zero sees y itself
          g.SampleOneIter(tr, fc, m, ds, r, pr, gen, w, s2, d.ft, true); int lv = 0, md = 0; std::string q = sig_of(*fc.GetEnsemble(0)->GetTree(0), d, 0, (1u << n) - 1, &lv, 0, &md); cnt[q]++; lcnt[lv]++; dcnt[md]++; done++; }
        return 0; });
    }
    std::map<int, double> lp, dp; for (auto& e : P) { lp[info[e.first].first] += e.second; dp[info[e.first].second] += e.second; }
    for (auto& e : cnt) if (!P.count(e.first)) { v.add(0, "tree " + e.first + " has probability zero but was drawn"); return v; }
    auto bin = [&](double p, long k, const std::string& what) { if (p * N < 25 || (1 - p) * N < 25) { double mu = p * N; if (k > mu + 60 + 10 * std::sqrt(mu + 1)) v.add(1e-12, what); return; } std::ostringstream o; o << what << " drawn " << k << " of " << N << " times, exact probability " << p; v.add(zp((k - N * p) / std::sqrt(N * p * (1 - p))), o.str()); };
    for (auto& e : P) bin(e.second, cnt.count(e.first) ? cnt[e.first] : 0, "tree " + e.first);
    for (auto& e : lp) bin(e.second, lcnt.count(e.first) ? lcnt[e.first] : 0, std::to_string(e.first) + "-leaf trees");
    for (auto& e : dp) bin(e.second, dcnt.count(e.first) ? dcnt[e.first] : 0, "trees of depth " + std::to_string(e.first));
    return v; });
  (void)which; c.nontrivial = all.size() >= 4; c.count("possible trees", all.size()); c.count("deep", deep); c.count("categorical", std::count(d.ft.begin(), d.ft.end(), kUnorderedCategorical) > 0);
}
static pbt::Reg r11("P11", "at least four trees possible", p11);

// ---------------------------------------------------------------- P12
// build a library tree from an enumerated one; thresholds uniform inside their gap
static void build(const EP& e, Tree& t, int node, int dim, ForestTracker* tr, ForestDataset& ds, int tree_num, std::mt19937_64& g) {
  if (e->f < 0) return; double thr = e->lo + (e->hi - e->lo) * std::uniform_real_distribution<double>(0, 1)(g); if (!(thr < e->hi)) thr = e->lo; TreeSplit ts(thr); DV z(dim, 0.); if (dim == 1) t.ExpandNode(node, e->f, ts, 0., 0.); else t.ExpandNode(node, e->f, ts, z, z); int l = t.LeftChild(node), r = t.RightChild(node); tr->AddSplit(ds.GetCovariates(), ts, e->f, tree_num, node, l, r, false);
  build(e->l, t, l, dim, tr, ds, tree_num, g); build(e->r, t, r, dim, tr, ds, tree_num, g);
}
struct Flow { std::map<std::string, std::pair<long, long>> m; void add(const std::string& a, const std::string& b) { if (a == b) return; m[a].second++; m[b].first++; }
  void test(Verdict& v, const std::string& w) { for (auto& e : m) { long in = e.second.first, out = e.second.second; if (in + out < 60) continue; std::ostringstream o; o << w << " " << e.first << ": entered " << in << ", left " << out << " times"; v.add(zp((in - out) / std::sqrt((double)(in + out))), o.str()); } } };
static EP pick_tree(const std::vector<EP>& all, std::discrete_distribution<int>& D, std::mt19937_64& g) { return all[D(g)]; }

static void p12(Src& s, Ctx& c) {
  int kind = (int)s.raw(3), n = s.range(2, 5); LM lm = gen_lm(s, kind); Data d = tiny_data(s, n, lm.basis(), true); DV y(n); for (auto& v : y) v = 1.3 * s.normal(); double s2 = s.pick<double>({1, 0.3, 2});
  double alpha = s.pick<double>({0.95, 0.5, 0.8, 0.3}), beta = s.pick<double>({1.25, 0.5, 2, 0}); int minleaf = s.chance(1, 2) ? 1 : 2; DV w = tiny_weights(s, d.p); uint32_t seed = s.seed32(); int steps = s.range(1, 3);
  Enum E{d, alpha, beta, w, minleaf, [&](Mask m) { return log_ml(lm, d, y, s2, mrows(m)); }, 900}; Mask full = (1u << n) - 1; auto all = E.mcmc(full, 0);
  if (c.describe) { c.desc << "leaf model " << kind << " alpha=" << alpha << " beta=" << beta << " minleaf=" << minleaf << " s2=" << s2 << " steps=" << steps << " weights="; for (double x : w) c.desc << x << ","; c.desc << " " << show(d) << " y="; for (double v : y) c.desc << v << ","; c.desc << " possible trees " << all.size(); }
  DV P; double mx = -1e300; for (auto& e : all) mx = std::max(mx, e->logw); std::set<std::string> known; for (auto& e : all) { P.push_back(std::exp(e->logw - mx)); known.insert(sig(e)); }
  ForestDataset ds; d.fill(ds); TreePrior pr(alpha, beta, minleaf);
  decide(c, "mcmc-invariance", big(seed, 3000), 120000, [&](int N, int stage) {
    std::mt19937 gen(seed + 7919 * stage); std::mt19937_64 g(seed * 31ULL + stage); std::discrete_distribution<int> D(P.begin(), P.end()); Flow F, FL, FD, FR; Verdict v;
    for (int k = 0; k < N; k++) {
      EP e = pick_tree(all, D, g); ForestTracker tr(ds.GetCovariates(), d.ft, 1, n); ForestContainer fc(1, lm.dim(), kind == 0); ColumnVector r(y.data(), n);
      if (lm.dim() == 1) fc.InitializeRoot(0.); else { DV z(lm.dim(), 0.); fc.InitializeRoot(z); } build(e, *fc.GetEnsemble(0)->GetTree(0), 0, lm.dim(), &tr, ds, 0, g);
      lm.with([&](auto& m) { typedef std::decay_t<decltype(m)> T; MCMCForestSampler<T> q; for (int i = 0; i < steps; i++) q.SampleOneIter(tr, fc, m, ds, r, pr, gen, w, s2, true); return 0; });
      int lv = 0, md = 0; std::string b = sig_of(*fc.GetEnsemble(steps - 1)->GetTree(0), d, 0, full, &lv, 0, &md); if (!known.count(b)) { v.add(0, "tree " + b + " has posterior probability zero but was reached"); return v; }
      F.add(sig(e), b); FL.add(std::to_string(eleaves(e)), std::to_string(lv)); FD.add(std::to_string(edepth(e)), std::to_string(md)); FR.add(e->f < 0 ? "none" : std::to_string(e->f), b == "." ? "none" : b.substr(2, b.find(':') - 2));
    }
    F.test(v, "tree"); FL.test(v, "leaf count"); FD.test(v, "depth"); FR.test(v, "root feature"); return v; });
  c.nontrivial = all.size() >= 4; c.count("possible trees", all.size()); c.count("minimum leaf size 2", minleaf == 2);
}
static pbt::Reg r12("P12", "at least four trees possible", p12);

// the whole sampler (several trees, leaf draws, residual bookkeeping, variances) preserves the prior
// when data are simulated from it
static void p12g(Src& s, Ctx& c) {
  int kind = (int)s.raw(3), n = s.range(2, 6), nt = s.range(1, 3); LM lm0 = gen_lm(s, kind); Data d = tiny_data(s, n, lm0.basis(), false); if (n > 4) d.p = 1; d.X.resize(n * d.p); d.ft.resize(d.p);
  double alpha = s.pick<double>({0.95, 0.5, 0.8}), beta = s.pick<double>({1.25, 0.5, 2}); int minleaf = s.chance(1, 2) ? 1 : 2; DV w = tiny_weights(s, d.p); uint32_t seed = s.seed32(); int steps = s.range(1, 3);
  bool vs = d.W.empty() && s.chance(1, 2), vt = kind != 2 && s.chance(1, 2); double nu = s.range(3, 8), lam = s.range(1, 4) / 2., a = s.range(3, 8), b = s.range(1, 4) / 2., s20 = s.pick<double>({1, 0.3, 2}); int dim = lm0.dim();
  Enum E{d, alpha, beta, w, minleaf, nullptr, 900}; Mask full = (1u << n) - 1; auto all = E.mcmc(full, 0); DV P; for (auto& e : all) P.push_back(std::exp(e->logw));
  if (c.describe) { c.desc << "leaf model " << kind << " trees=" << nt << " alpha=" << alpha << " beta=" << beta << " minleaf=" << minleaf << " steps=" << steps << (vs ? " error variance sampled" : "") << (vt ? " leaf scale sampled" : "") << " " << show(d) << " possible trees " << all.size(); }
  ForestDataset ds; d.fill(ds); TreePrior pr(alpha, beta, minleaf); Mat C = Mat(lm0.prior().llt().matrixL()), Ci = C.inverse();
  decide(c, "joint-law", big(seed, 3000), 100000, [&](int N, int stage) {
    std::mt19937 gen(seed + 7919 * stage); std::mt19937_64 g(seed * 31ULL + stage); std::normal_distribution<double> nd; std::discrete_distribution<int> D(P.begin(), P.end()); std::vector<Flow> F(nt), FL(nt); Verdict v;
    std::vector<std::vector<double>> lz(nt * dim), u2(2), prod(1);
    auto ig = [&](double sh, double sc) { return sc / std::gamma_distribution<double>(sh, 1.)(g); };
    for (int k = 0; k < N; k++) {
      LM lm = lm0; double s2 = vs ? ig(nu / 2, nu * lam / 2) : s20, tau = lm.tau; if (vt) { tau = ig(a / 2, b / 2); lm.tau = tau; lm.c.SetScale(tau); lm.u.SetScale(tau); }
      ForestTracker tr(ds.GetCovariates(), d.ft, nt, n); ForestContainer fc(nt, dim, kind == 0); if (dim == 1) fc.InitializeRoot(0.); else { DV z(dim, 0.); fc.InitializeRoot(z); } std::vector<EP> e0(nt); DV y(n, 0.);
      Mat Ck = kind == 2 ? C : Mat::Constant(1, 1, std::sqrt(tau));
      for (int j = 0; j < nt; j++) { e0[j] = pick_tree(all, D, g); Tree& t = *fc.GetEnsemble(0)->GetTree(j); build(e0[j], t, 0, dim, &tr, ds, j, g); for (int l : t.GetLeaves()) { Vec z(dim); for (int q = 0; q < dim; q++) z(q) = nd(g); z = Ck * z; if (dim == 1) t.SetLeaf(l, z(0)); else { DV zz(z.data(), z.data() + dim); t.SetLeafVector(l, zz); } } RTree m = read_tree(t); for (int i = 0; i < n; i++) y[i] += ref_pred(m, d, i, kind != 0); }
      for (int i = 0; i < n; i++) y[i] += nd(g) * std::sqrt(s2 * d.w(i)); ColumnVector r(y.data(), n); UpdateResidualEntireForest(tr, ds, r, fc.GetEnsemble(0), kind != 0, std::minus<double>());
      GlobalHomoskedasticVarianceModel gv; LeafNodeHomoskedasticVarianceModel lv;
      for (int i = 0; i < steps; i++) { lm.with([&](auto& m) { typedef std::decay_t<decltype(m)> T; MCMCForestSampler<T> q; q.SampleOneIter(tr, fc, m, ds, r, pr, gen, w, s2, true); return 0; });
        if (vs) s2 = gv.SampleVarianceParameter(r.GetData(), nu, lam, gen); if (vt) { tau = lv.SampleVarianceParameter(fc.GetEnsemble(i), a, b, gen); lm.c.SetScale(tau); lm.u.SetScale(tau); } }
      double pp = 1; for (int j = 0; j < nt; j++) { Tree& t = *fc.GetEnsemble(steps - 1)->GetTree(j); int nl = 0, md = 0; std::string q = sig_of(t, d, 0, full, &nl, 0, &md); F[j].add(sig(e0[j]), q); FL[j].add(std::to_string(eleaves(e0[j])), std::to_string(nl));
        int leaf = EvaluateTree(t, ds.GetCovariates(), k % n); Vec x(dim); for (int q2 = 0; q2 < dim; q2++) x(q2) = t.LeafValue(leaf, q2); Vec z = kind == 2 ? Vec(Ci * x) : Vec(x / std::sqrt(tau)); for (int q2 = 0; q2 < dim; q2++) lz[j * dim + q2].push_back(z(q2)); pp *= z(0); }
      prod[0].push_back(pp); if (vs) u2[0].push_back(igcdf(s2, nu / 2, nu * lam / 2)); if (vt) u2[1].push_back(igcdf(tau, a / 2, b / 2));
    }
    for (int j = 0; j < nt; j++) { F[j].test(v, "tree " + std::to_string(j) + " structure"); FL[j].test(v, "tree " + std::to_string(j) + " leaf count"); for (int q = 0; q < dim; q++) std_normal_tests(v, lz[j * dim + q], "leaf of tree " + std::to_string(j)); for (int q = 0; q < j; q++) corr_test(v, lz[j * dim], lz[q * dim], "leaves of two trees"); }
    if (vs) v.add(ks(u2[0]), "error variance"); if (vt) v.add(ks(u2[1]), "leaf scale"); return v; });
  c.nontrivial = all.size() >= 2 && (nt > 1 || vs || vt || all.size() >= 4);
}
static pbt::Reg r12g("P12g", "several trees, sampled variances or at least four possible trees", p12g);

// ---------------------------------------------------------------- P13
static void p13(Src& s, Ctx& c) {
  int n = s.chance(1, 4) ? s.range(1, 3) : s.range(1, 60); DV r(n); double sc = s.pick<double>({1, 0.01, 50}); for (auto& v : r) v = sc * s.normal(); double nu = s.range(1, 40) / 4., lam = s.range(1, 12) / 4. * sc * sc; uint32_t seed = s.seed32();
  // a forest with random leaves
  int dim = s.chance(1, 4) ? s.range(2, 3) : 1, nt = s.range(1, 5); ForestContainer fc(nt, dim, dim == 1 && s.chance(1, 2)); fc.AddSamples(2); int which = s.range(0, 1); GenCfg g; g.p = 2; g.leafscale = s.pick<double>({1, 0.1, 5}); int L = 0; double ss = 0; bool grown = false;
  for (int a = 0; a < 2; a++) for (int j = 0; j < nt; j++) { RTree m; m.init(dim); grow_random(*fc.GetEnsemble(a)->GetTree(j), m, s, g, c, s.range(0, 6)); if (a == which) { grown |= m.n.size() > 1; for (int l : m.leaves()) { L++; for (double v : m.n[l].leaf) ss += v * v; } } }
  double a = s.range(1, 20) / 2., b = s.range(1, 12) / 4. * g.leafscale;
  if (c.describe) c.desc << "n=" << n << " nu=" << nu << " lambda=" << lam << "; forest of " << nt << " trees, " << L << " leaves, dim " << dim << " a=" << a << " b=" << b;
  double rs = 0; for (double v : r) rs += v * v; Vec R = Eigen::Map<Vec>(r.data(), n);
  decide(c, "error-variance-law", big(seed, 2000), 60000, [&](int N, int st) { std::mt19937 gen(seed + st); GlobalHomoskedasticVarianceModel m; std::vector<double> u; for (int k = 0; k < N; k++) u.push_back(igcdf(m.SampleVarianceParameter(R, nu, lam, gen), (nu + n) / 2, (nu * lam + rs) / 2)); Verdict v; std::vector<double> z; v.add(ks(u), "error variance draws"); double mu = 0; for (double q : u) mu += q - 0.5; v.add(zp(mu / std::sqrt(N / 12.)), "error variance draws (location)"); std::vector<double> A, B; for (size_t i = 1; i < u.size(); i++) { A.push_back((u[i] - .5) * std::sqrt(12.)); B.push_back((u[i - 1] - .5) * std::sqrt(12.)); } corr_test(v, A, B, "successive variance draws"); return v; });
  decide(c, "leaf-scale-law", big(seed, 2000), 60000, [&](int N, int st) { std::mt19937 gen(seed + 5 + st); LeafNodeHomoskedasticVarianceModel m; std::vector<double> u; for (int k = 0; k < N; k++) u.push_back(igcdf(m.SampleVarianceParameter(fc.GetEnsemble(which), a, b, gen), (a + L) / 2, (b + ss) / 2)); Verdict v; v.add(ks(u), "leaf scale draws"); double mu = 0; for (double q : u) mu += q - 0.5; v.add(zp(mu / std::sqrt(N / 12.)), "leaf scale draws (location)"); return v; });
  PBT_CHECK(c, approx_sq(fc.GetEnsemble(which)->SumLeafSquared(), ss) && fc.GetEnsemble(which)->NumLeaves() == L, "leaf-sums", "SumLeafSquared / NumLeaves");
  c.nontrivial = n >= 2 && grown;
}
static pbt::Reg r13("P13", ">=2 residuals and a forest with at least one split", p13);

// ---------------------------------------------------------------- P14
struct RfxWorld { int n, nc, ng; std::vector<int32_t> lab; DV Z; RandomEffectsDataset ds; std::unique_ptr<RandomEffectsTracker> tr; std::vector<int> grp; std::map<int, int> idx; Mat Zm; };
static void gen_rfx(Src& s, RfxWorld& q) {
  q.n = s.range(1, 14); q.nc = s.range(1, 3); std::vector<int> pool; for (int k = 0; k < 5; k++) pool.push_back(s.range(-40, 40) * (k == 3 ? 100000 : 1)); q.lab.resize(q.n); int k = s.range(1, 5); for (auto& l : q.lab) l = pool[s.range(0, k - 1)];
  q.Z.resize(q.n * q.nc); for (auto& v : q.Z) v = s.chance(1, 3) ? 1 : s.num(1); bool rm = s.chance(1, 2); DV Zc(q.Z.size()); q.Zm = Mat(q.n, q.nc); for (int i = 0; i < q.n; i++) for (int j = 0; j < q.nc; j++) { Zc[j * q.n + i] = q.Z[i * q.nc + j]; q.Zm(i, j) = q.Z[i * q.nc + j]; }
  q.ds.AddBasis(rm ? q.Z.data() : Zc.data(), q.n, q.nc, rm); q.ds.AddGroupLabels(q.lab); q.tr = std::make_unique<RandomEffectsTracker>(q.lab); std::set<int> u(q.lab.begin(), q.lab.end()); q.ng = u.size();
  q.grp.resize(q.n); for (int i = 0; i < q.n; i++) { q.grp[i] = q.tr->CategoryNumber(q.lab[i]); q.idx[q.lab[i]] = q.grp[i]; }
}
static Mat gen_pd(Src& s, int d, bool diag) { Mat A = Mat::Zero(d, d); for (int i = 0; i < d; i++) { if (!diag) for (int j = 0; j < i; j++) A(i, j) = s.range(-3, 3) / 4.; A(i, i) = s.range(1, 6) / 4.; } return A * A.transpose(); }
static std::string show(const RfxWorld& q) { std::ostringstream o; o << "n=" << q.n << " components=" << q.nc << " groups=" << q.ng << " labels="; for (int l : q.lab) o << l << ","; return o.str(); }
static void p14(Src& s, Ctx& c) {
  RfxWorld q; gen_rfx(s, q); int nc = q.nc, ng = q.ng, n = q.n; uint32_t seed = s.seed32(); double s2 = s.pick<double>({1, 0.2, 3});
  Vec al(nc); for (int i = 0; i < nc; i++) al(i) = s.num(1); Mat xi(nc, ng); for (int i = 0; i < nc; i++) for (int j = 0; j < ng; j++) xi(i, j) = s.num(1); Mat Sa = gen_pd(s, nc, false), Sx = gen_pd(s, nc, s.chance(1, 2)); double sh = s.range(1, 8) / 2., scl = s.range(1, 8) / 2.; DV y(n); for (auto& v : y) v = 1.5 * s.normal(); ColumnVector r(y.data(), n);
  if (c.describe) c.desc << show(q);
  { std::set<int> u; for (auto& e : q.idx) u.insert(e.second); PBT_CHECK(c, (int)u.size() == ng && *u.begin() == 0 && *u.rbegin() == ng - 1, "group-index", "internal group numbers are not 0.." << ng - 1); }
  MultivariateRegressionRandomEffectsModel m(nc, ng); m.SetWorkingParameterCovariance(Sa); m.SetVariancePriorShape(sh); m.SetVariancePriorScale(scl);
  auto reset = [&]() { m.SetWorkingParameter(al); m.SetGroupParameters(xi); m.SetGroupParameterCovariance(Sx); };
  // group parameters
  std::vector<Vec> M(ng); std::vector<Mat> Li(ng); for (int g = 0; g < ng; g++) { Mat P = Sx.inverse(); Vec h = Vec::Zero(nc); for (int i = 0; i < n; i++) if (q.grp[i] == g) { Vec x = q.Zm.row(i).transpose().cwiseProduct(al); P += x * x.transpose() / s2; h += x * y[i] / s2; } Mat V = P.inverse(); V = (V + V.transpose()) / 2; M[g] = V * h; Li[g] = Mat(V.llt().matrixL()).inverse(); }
  decide(c, "group-law", big(seed, 1500), 40000, [&](int N, int st) { std::mt19937 gen(seed + st); std::vector<std::vector<double>> z(ng * nc); for (int k = 0; k < N; k++) { reset(); m.SampleGroupParameters(q.ds, r, *q.tr, s2, gen); for (int g = 0; g < ng; g++) { Vec w = Li[g] * (m.GetGroupParameters().col(g) - M[g]); for (int j = 0; j < nc; j++) z[g * nc + j].push_back(w(j)); } } Verdict v; for (size_t i = 0; i < z.size(); i++) { std_normal_tests(v, z[i], "group " + std::to_string(i / nc) + " component " + std::to_string(i % nc)); for (size_t j = 0; j < i && j < 5; j++) corr_test(v, z[i], z[j], "group parameters"); } return v; });
  // working parameter
  Mat P = Sa.inverse(); Vec h = Vec::Zero(nc); for (int i = 0; i < n; i++) { Vec x = q.Zm.row(i).transpose().cwiseProduct(xi.col(q.grp[i])); P += x * x.transpose() / s2; h += x * y[i] / s2; } Mat V = P.inverse(); V = (V + V.transpose()) / 2; Vec Mw = V * h; Mat Lw = Mat(V.llt().matrixL()).inverse();
  decide(c, "working-law", big(seed, 1500), 40000, [&](int N, int st) { std::mt19937 gen(seed + 3 + st); std::vector<std::vector<double>> z(nc); for (int k = 0; k < N; k++) { reset(); m.SampleWorkingParameter(q.ds, r, *q.tr, s2, gen); Vec w = Lw * (m.GetWorkingParameter() - Mw); for (int j = 0; j < nc; j++) z[j].push_back(w(j)); } Verdict v; for (int j = 0; j < nc; j++) { std_normal_tests(v, z[j], "working parameter " + std::to_string(j)); for (int i = 0; i < j; i++) corr_test(v, z[i], z[j], "working parameters"); } return v; });
  // variance components
  decide(c, "variance-law", big(seed, 1500), 40000, [&](int N, int st) { std::mt19937 gen(seed + 6 + st); std::vector<std::vector<double>> u(nc); for (int k = 0; k < N; k++) { reset(); m.SampleVarianceComponents(q.ds, r, *q.tr, s2, gen); for (int j = 0; j < nc; j++) u[j].push_back(igcdf(m.GetGroupParameterCovariance()(j, j), sh + ng / 2., scl + xi.row(j).squaredNorm() / 2)); } Verdict v; for (int j = 0; j < nc; j++) v.add(ks(u[j]), "variance component " + std::to_string(j)); return v; });
  c.nontrivial = n >= 3 && ng >= 2; c.count("several components", nc > 1);
}
static pbt::Reg r14("P14", ">=3 rows in >=2 groups", p14);
// one whole update preserves the prior when the data are simulated from it
static void p14g(Src& s, Ctx& c) {
  RfxWorld q; gen_rfx(s, q); int nc = q.nc, ng = q.ng, n = q.n; uint32_t seed = s.seed32(); double s2 = s.pick<double>({1, 0.2, 3}), sh = s.range(2, 8) / 2., scl = s.range(1, 8) / 2.; Mat Sa = gen_pd(s, nc, false), C = Mat(Sa.llt().matrixL()), Ci = C.inverse(); int steps = s.range(1, 3);
  if (c.describe) c.desc << show(q) << " steps=" << steps;
  decide(c, "joint-law", big(seed, 2500), 80000, [&](int N, int st) {
    std::mt19937 gen(seed + st); std::mt19937_64 g(seed * 31ULL + st); std::normal_distribution<double> nd; std::vector<std::vector<double>> a(nc), x(nc), u(nc), pr(nc); Verdict v;
    for (int k = 0; k < N; k++) {
      MultivariateRegressionRandomEffectsModel m(nc, ng); m.SetWorkingParameterCovariance(Sa); m.SetVariancePriorShape(sh); m.SetVariancePriorScale(scl); Vec z(nc); for (int j = 0; j < nc; j++) z(j) = nd(g); Vec al = C * z; m.SetWorkingParameter(al); Mat Sx = Mat::Zero(nc, nc), xi(nc, ng); for (int j = 0; j < nc; j++) { Sx(j, j) = scl / std::gamma_distribution<double>(sh, 1.)(g); for (int b = 0; b < ng; b++) xi(j, b) = nd(g) * std::sqrt(Sx(j, j)); } m.SetGroupParameters(xi); m.SetGroupParameterCovariance(Sx);
      DV y(n); for (int i = 0; i < n; i++) y[i] = q.Zm.row(i).dot(al.cwiseProduct(xi.col(q.grp[i]))) + nd(g) * std::sqrt(s2); ColumnVector r(y.data(), n); RandomEffectsTracker tr(q.lab); m.SubtractNewPredictionFromResidual(q.ds, tr, r); for (int i = 0; i < steps; i++) m.SampleRandomEffects(q.ds, r, tr, s2, gen);
      Vec za = Ci * m.GetWorkingParameter(); int b = k % ng; for (int j = 0; j < nc; j++) { double sg = m.GetGroupParameterCovariance()(j, j); a[j].push_back(za(j)); x[j].push_back(m.GetGroupParameters()(j, b) / std::sqrt(sg)); u[j].push_back(igcdf(sg, sh, scl)); }
    }
    for (int j = 0; j < nc; j++) { std_normal_tests(v, a[j], "working parameter " + std::to_string(j)); std_normal_tests(v, x[j], "group parameter " + std::to_string(j)); corr_test(v, a[j], x[j], "working and group parameter"); v.add(ks(u[j]), "variance component " + std::to_string(j)); }
    return v; });
  c.nontrivial = n >= 3 && ng >= 2;
}
static pbt::Reg r14g("P14g", ">=3 rows in >=2 groups", p14g);
PBT_MAIN
