// Generated data sets, leaf models and forest terms shared by the sampler harnesses.
#pragma once
#include "ref.h"
#include <stochtree/leaf_model.h>
#include <stochtree/partition_tracker.h>
#include <stochtree/random_effects.h>
#include <stochtree/tree_sampler.h>
#include <stochtree/variance_model.h>
typedef Eigen::MatrixXd Mat; typedef Eigen::VectorXd Vec;

struct Data {
  int n = 1, p = 1, bd = 0; DV X, B, W; std::vector<FeatureType> ft; bool ties = false, allconst = true;
  double x(int i, int j) const { return X[i * p + j]; }
  double b(int i, int k) const { return B[i * bd + k]; }
  double w(int i) const { return W.empty() ? 1. : W[i]; }
  void fill(ForestDataset& ds) { ds.AddCovariates(X.data(), n, p, true); if (bd) ds.AddBasis(B.data(), n, bd, true); if (!W.empty()) ds.AddVarianceWeights(W.data(), n); }
};
struct DataOpt { int pmax = 3; bool weights = true; bool cats = true; bool constant_ok = true; };
static Data gen_data(Src& s, int n, int bd, const DataOpt& o = DataOpt()) {
  Data d; d.n = n; d.bd = bd; d.p = s.chance(1, 30) ? s.range(o.pmax, 40) : s.range(1, o.pmax); d.X.resize(n * d.p); d.ft.resize(d.p);
  for (int j = 0; j < d.p; j++) {
    int k = (int)s.raw(o.cats ? 9 : 6); d.ft[j] = k <= 5 ? kNumeric : k <= 6 ? kOrderedCategorical : kUnorderedCategorical;
    if (k == 5 && !o.constant_ok) k = 0;
    double sh = k == 3 ? -20 : 0, sc = k == 4 ? 1000 : 1;
    int K = k == 8 ? 6 : 3; if (k == 8 && s.chance(1, 4)) K = s.pick<int>({20, 70, 300});   // now and then many distinct codes
    double olo = 0, ostep = 1; if (k == 6 && s.chance(1, 2)) { olo = s.pick<double>({-3, 0.2, -0.5, 1}); ostep = s.pick<double>({0.5, 0.25, 1, 2}); }   // ordered codes need not be 0,1,2,...
    for (int i = 0; i < n; i++) {
      double v = 0;
      if (k == 6) v = olo + ostep * s.range(0, 3);
      else if (k > 6) v = s.range(0, K);
      else if (k == 0 || k == 4) v = sc * s.normal();
      else if (k == 1) v = s.range(-2, 2);
      else if (k == 2) v = s.chance(1, 2) ? 0.5 : s.range(0, 12) / 4.;
      else if (k == 3) v = sh + s.range(0, 8) / 2.;
      else v = -1.5;     // constant column
      d.X[i * d.p + j] = v;
    }
    std::set<double> u; for (int i = 0; i < n; i++) u.insert(d.X[i * d.p + j]);
    d.ties |= (int)u.size() < n; d.allconst &= u.size() == 1;
  }
  d.B.resize(n * bd); for (auto& v : d.B) v = s.chance(1, 3) ? s.range(0, 1) : s.num(1);
  if (o.weights && s.chance(1, 3)) { d.W.resize(n); for (auto& v : d.W) v = s.chance(1, 2) ? s.pick<double>({0.25, 0.5, 1, 2, 4}) : 0.1 + 3 * s.unit(); }
  return d;
}
static std::string show(const Data& d, int rows = 6) {
  std::ostringstream o; o << "n=" << d.n << " p=" << d.p << " types="; for (auto t : d.ft) o << (t == kNumeric ? 'N' : t == kOrderedCategorical ? 'O' : 'U');
  if (d.bd) o << " basis=" << d.bd; if (!d.W.empty()) o << " weighted"; o << " X=["; for (int i = 0; i < std::min(rows, d.n); i++) { o << (i ? "; " : ""); for (int j = 0; j < d.p; j++) o << (j ? "," : "") << d.x(i, j); } o << (d.n > rows ? "; ...]" : "]"); return o.str();
}

struct LM {     // one of the three leaf models, with its prior covariance kept for the oracle
  int kind; double tau; Mat S; GaussianConstantLeafModel c; GaussianUnivariateRegressionLeafModel u; GaussianMultivariateRegressionLeafModel m;
  LM(int k, double t, Mat s) : kind(k), tau(t), S(s), c(t), u(t), m(s) {}
  int dim() const { return kind == 2 ? (int)S.rows() : 1; }
  int basis() const { return kind == 0 ? 0 : kind == 1 ? 1 : (int)S.rows(); }
  template <class F> auto with(F f) { return kind == 0 ? f(c) : kind == 1 ? f(u) : f(m); }
  Mat design(const Data& d, const std::vector<int>& r) const { Mat m((int)r.size(), dim()); for (size_t i = 0; i < r.size(); i++) for (int k = 0; k < dim(); k++) m(i, k) = kind == 0 ? 1. : d.b(r[i], k); return m; }
  Mat prior() const { if (kind == 2) return S; Mat q(1, 1); q(0, 0) = tau; return q; }
};
static LM gen_lm(Src& s, int kind) {
  double tau = s.pick<double>({0.5, 1, 0.05, 4, 0.3}); int d = kind == 2 ? s.range(2, 3) : 1; Mat A = Mat::Zero(d, d);
  for (int i = 0; i < d; i++) { for (int j = 0; j < i; j++) A(i, j) = s.range(-3, 3) / 4.; A(i, i) = s.range(1, 5) / 4.; }
  return LM(kind, tau, A * A.transpose());
}
// log N(y_rows; 0, diag(s2 w) + D Sigma0 D') without constants that do not depend on the partition
static double log_ml(const LM& lm, const Data& d, const DV& y, double s2, const std::vector<int>& rows) {
  int n = rows.size(); if (!n) return 0; Mat D = lm.design(d, rows); Mat V = D * lm.prior() * D.transpose(); Vec r(n); double base = 0;
  for (int i = 0; i < n; i++) { V(i, i) += s2 * d.w(rows[i]); r(i) = y[rows[i]]; base += 0.5 * std::log(s2 * d.w(rows[i])) + 0.5 * r(i) * r(i) / (s2 * d.w(rows[i])); }
  Eigen::LLT<Mat> L(V); Vec z = L.matrixL().solve(r); double ld = 0; for (int i = 0; i < n; i++) ld += std::log(L.matrixL()(i, i));
  return -ld - 0.5 * z.squaredNorm() + base;
}

// a forest term with everything a sampling step needs
struct Term {
  Data d; LM lm; int nt; double alpha, beta; int minleaf, grid; DV vw; ForestDataset ds; std::unique_ptr<ForestTracker> tr; std::unique_ptr<ForestContainer> fc; std::unique_ptr<TreePrior> pr;
  double s2; bool pre = false;
  Term(Data d_, LM lm_, Src& s) : d(d_), lm(lm_) {
    nt = s.range(1, 4); alpha = s.pick<double>({0.95, 0.5, 0.99, 0.8}); beta = s.pick<double>({1.25, 0.5, 2, 1}); minleaf = s.pick<int>({1, 1, 2, 3, 5, 8}); grid = s.pick<int>({500, 2, 4, 8, 1, 13});
    vw.assign(d.p, 1. / d.p); if (s.chance(1, 2)) for (auto& w : vw) w = s.range(0, 3); double t = 0; for (double w : vw) t += w; if (t == 0) vw[s.range(0, d.p - 1)] = 1;
    s2 = s.pick<double>({1, 0.1, 0.01, 3});
    d.fill(ds); tr = std::make_unique<ForestTracker>(ds.GetCovariates(), d.ft, nt, d.n); fc = std::make_unique<ForestContainer>(nt, lm.dim(), lm.kind == 0); pr = std::make_unique<TreePrior>(alpha, beta, minleaf);
  }
  void step(bool gfr, ColumnVector& r, std::mt19937& gen) {
    lm.with([&](auto& m) { typedef std::decay_t<decltype(m)> T;
      if (gfr) { GFRForestSampler<T> g(grid); g.SampleOneIter(*tr, *fc, m, ds, r, *pr, gen, vw, s2, d.ft, pre); }
      else { MCMCForestSampler<T> g; g.SampleOneIter(*tr, *fc, m, ds, r, *pr, gen, vw, s2, pre); }
      return 0; });
  }
  std::string what() const { std::ostringstream o; o << "leaf model " << lm.kind << " trees=" << nt << " minleaf=" << minleaf << " grid=" << grid << " s2=" << s2; return o.str(); }
};
// the reference reading of a library tree (structure and leaf values through the public accessors)
static RTree read_tree(Tree& t) {
  RTree m; m.dim = t.OutputDimension(); std::vector<int> st{0}; m.n[0] = RNode();
  while (!st.empty()) {
    int i = st.back(); st.pop_back();
    if (t.IsLeaf(i)) { for (int k = 0; k < m.dim; k++) m.n[i].leaf.push_back(t.LeafValue(i, k)); continue; }
    auto& nd = m.n[i]; nd.left = t.LeftChild(i); nd.right = t.RightChild(i); nd.feat = t.SplitIndex(i); nd.cat = t.NodeType(i) == TreeNodeType::kCategoricalSplitNode;
    if (nd.cat) nd.cats = t.CategoryList(i); else nd.thr = t.Threshold(i);
    int l = nd.left, r = nd.right; m.n[l].parent = i; m.n[r].parent = i; st.push_back(l); st.push_back(r);
  }
  return m;
}
static std::vector<std::vector<int>> leaf_rows(const RTree& m, const Data& d, std::vector<int>* ids = nullptr) {
  std::map<int, std::vector<int>> q; for (int l : m.leaves()) q[l]; for (int i = 0; i < d.n; i++) q[m.route([&](int f) { return d.x(i, f); })].push_back(i);
  std::vector<std::vector<int>> o; for (auto& e : q) { o.push_back(e.second); if (ids) ids->push_back(e.first); } return o;
}
static double ref_pred(const RTree& m, const Data& d, int i, bool basis) {
  auto& nd = m.n.at(m.route([&](int f) { return d.x(i, f); })); if (!basis) return nd.leaf[0]; double v = 0; for (int k = 0; k < m.dim; k++) v += nd.leaf[k] * d.b(i, k); return v;
}
static DV gen_y(Src& s, const Data& d) {
  DV y(d.n); double off = s.chance(1, 3) ? s.range(-5, 5) : 0, sig = s.chance(1, 2) ? 3 : 0; double cut = s.num(1); int f = s.range(0, d.p - 1);
  for (int i = 0; i < d.n; i++) y[i] = off + (d.x(i, f) > cut ? sig : 0) + s.normal(); return y;
}
// ---------------------------------------------------------------- node setup shared by P09 and P10
struct Node { std::unique_ptr<Term> t; DV y; std::unique_ptr<ColumnVector> r; TreeEnsemble* e = nullptr; std::unique_ptr<ForestContainer> fc; RTree m; int tree = 0, id = 0; std::vector<int> rows; };
static std::vector<int> node_rows(const RTree& m, const Data& d, int id) { std::vector<int> v; for (int i = 0; i < d.n; i++) if (m.passes(id, [&](int f) { return d.x(i, f); })) v.push_back(i); return v; }
static Node make_node(Src& s, Ctx& c, int kind, int n, const DataOpt& o, bool split_prior) {
  Node q; LM lm = gen_lm(s, kind); Data d = gen_data(s, n, lm.basis(), o); q.t = std::make_unique<Term>(d, lm, s); Term& t = *q.t;
  q.y = gen_y(s, d); if (s.chance(1, 6)) for (auto& v : q.y) v = s.range(0, 1); q.r = std::make_unique<ColumnVector>(q.y.data(), n); t.fc->AddSamples(1); q.e = t.fc->GetEnsemble(0); q.tree = s.range(0, t.nt - 1);
  if (s.chance(1, 3)) {  // earlier life of the tracker
    int u = s.range(0, t.nt - 1); t.tr->ResetRoot(t.ds.GetCovariates(), d.ft, u); TreeSplit ts(s.num(1)); if (n > 1) { Tree tmp; tmp.Init(1); t.tr->AddSplit(t.ds.GetCovariates(), ts, 0, u, 0, 1, 2, true); } if (u != q.tree) t.tr->ResetRoot(t.ds.GetCovariates(), d.ft, u);
  }
  q.e->ResetInitTree(q.tree); t.tr->ResetRoot(t.ds.GetCovariates(), d.ft, q.tree); q.m.init(lm.dim()); Tree& tr = *q.e->GetTree(q.tree);
  GenCfg g; g.p = d.p; for (auto f : d.ft) g.catcol.push_back(f == kUnorderedCategorical);
  for (int k = 0, K = split_prior ? s.range(0, 4) : 0; k < K; k++) {
    int nid = s.pick(q.m.leaves()); auto R = node_rows(q.m, d, nid); if (R.size() < 2) continue; Split x = gen_split(s, g); if (!x.cat) x.thr = d.x(R[s.range(0, R.size() - 1)], x.feat); else if (d.ft[x.feat] == kUnorderedCategorical && x.cats.empty()) x.cats = {(uint32_t)d.x(R[0], x.feat)};
    int left = 0; RNode nd; nd.cat = x.cat; nd.thr = x.thr; nd.cats = x.cats; for (int i : R) left += q.m.left_of(nd, d.x(i, x.feat)); if (left == 0 || left == (int)R.size()) continue;
    do_expand(tr, q.m, nid, x, DV(lm.dim(), 0.), DV(lm.dim(), 0.), true, c); TreeSplit ts = to_split(x); t.tr->AddSplit(t.ds.GetCovariates(), ts, x.feat, q.tree, nid, q.m.n[nid].left, q.m.n[nid].right, true);
  }
  q.id = s.pick(q.m.leaves()); q.rows = node_rows(q.m, d, q.id); return q;
}
template <class V> static std::vector<int> rows_where(const std::vector<int>& R, V f) { std::vector<int> v; for (int i : R) if (f(i)) v.push_back(i); return v; }
static std::vector<int> minus(const std::vector<int>& a, const std::vector<int>& b) { std::set<int> x(b.begin(), b.end()); std::vector<int> v; for (int i : a) if (!x.count(i)) v.push_back(i); return v; }

