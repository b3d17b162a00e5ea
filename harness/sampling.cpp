// P05, P06, P07: histories of sampling steps; P09, P10: split scores and cutpoint bins.
#include "world.h"
static DV ens_pred(TreeEnsemble* e, ForestDataset& d, int n) { DV o(n); e->PredictInplace(d, o, 0); return o; }
static DV ens_raw(TreeEnsemble* e, ForestDataset& d, int n) { DV o(n * e->OutputDimension()); e->PredictRawInplace(d, o, 0); return o; }

static int gen_n(Src& s) { if (s.chance(1, 50)) return s.range(41, 400); int k = (int)s.raw(6); return k == 0 ? s.range(1, 3) : k <= 3 ? s.range(3, 14) : s.range(10, pbt::tier() ? 80 : 40); }
// start a term from initialised roots, as the language wrappers do
static void pre_init(Term& t, Src& s, ColumnVector& r) {
  t.pre = true; double v = s.range(-4, 4) / 8.; if (t.lm.dim() == 1) t.fc->InitializeRoot(v); else { DV vv(t.lm.dim()); for (auto& q : vv) q = s.range(-4, 4) / 8.; t.fc->InitializeRoot(vv); }
  UpdateResidualEntireForest(*t.tr, t.ds, r, t.fc->GetEnsemble(0), t.lm.kind != 0, std::minus<double>());
}

struct RTerm {   // random-effects term
  std::vector<int32_t> lab; int nc, ng; DV Z; RandomEffectsDataset ds; std::unique_ptr<RandomEffectsTracker> tr; std::unique_ptr<MultivariateRegressionRandomEffectsModel> m; std::unique_ptr<RandomEffectsContainer> fc; bool drawn = false; int n; double s2 = 1;
  RTerm(Src& s, int n_) : n(n_) {
    nc = s.range(1, 2); std::vector<int> pool{7, -3, 0, 100, 2}; lab.resize(n); int k = s.range(1, 5); bool many = s.chance(1, 10); for (auto& l : lab) l = many ? s.range(-200, 200) : pool[s.range(0, k - 1)];
    Z.resize(n * nc); for (auto& v : Z) v = s.chance(1, 3) ? 1 : s.num(1);
    std::set<int> u(lab.begin(), lab.end()); ng = u.size();
    ds.AddBasis(Z.data(), n, nc, true); ds.AddGroupLabels(lab); tr = std::make_unique<RandomEffectsTracker>(lab);
    m = std::make_unique<MultivariateRegressionRandomEffectsModel>(nc, ng); fc = std::make_unique<RandomEffectsContainer>(nc, ng);
    Vec a(nc); for (int i = 0; i < nc; i++) a(i) = s.range(1, 3) / 2.; Mat g(nc, ng); for (int i = 0; i < nc; i++) for (int j = 0; j < ng; j++) g(i, j) = s.range(-2, 2) / 2.;
    Mat S1 = Mat::Identity(nc, nc) * s.range(1, 4) / 2., S2 = Mat::Identity(nc, nc) * s.range(1, 4) / 2.;
    m->SetWorkingParameter(a); m->SetGroupParameters(g); m->SetWorkingParameterCovariance(S1); m->SetGroupParameterCovariance(S2); m->SetVariancePriorShape(1); m->SetVariancePriorScale(1);
  }
  int gi(int lb) { std::set<int> u(lab.begin(), lab.end()); int k = 0; for (int x : u) { if (x == lb) return k; k++; } return -1; }
  void step(ColumnVector& r, std::mt19937& gen) { m->SampleRandomEffects(ds, r, *tr, s2, gen); fc->AddSample(*m); drawn = true; }
  double fit(int i) {
    if (!drawn) return 0; int g = tr->CategoryNumber(lab[i]); double v = 0; for (int k = 0; k < nc; k++) v += Z[i * nc + k] * m->GetWorkingParameter()(k) * m->GetGroupParameters()(k, g); return v;
  }
};

// ---------------------------------------------------------------- P06
static void p06(Src& s, Ctx& c) {
  int n = gen_n(s), nf = s.range(1, 3); std::vector<std::unique_ptr<Term>> T;
  for (int k = 0; k < nf; k++) { LM lm = gen_lm(s, (int)s.raw(3)); DataOpt o; Data d = gen_data(s, n, lm.basis(), o); T.push_back(std::make_unique<Term>(d, lm, s)); }
  std::unique_ptr<RTerm> R; if (s.chance(1, 3)) R = std::make_unique<RTerm>(s, n);
  DV y = gen_y(s, T[0]->d); ColumnVector r(y.data(), n); std::mt19937 gen(s.seed32()); double scale = 1; for (double v : y) scale = std::max(scale, std::fabs(v));
  std::string hist; bool split = false; int refreshed = 0; DV extra(n, 0.);   // contribution currently added back by hand
  if (c.describe) { for (auto& t : T) c.desc << t->what() << " " << show(t->d, 3) << "; "; if (R) c.desc << "rfx groups=" << R->ng << " comps=" << R->nc; }
  auto fit = [&](Term& t, int i, double* mag) {
    if (t.fc->NumSamples() == 0 && !t.pre) return 0.; TreeEnsemble* e = t.fc->GetEnsemble(std::max(0, t.fc->NumSamples() - 1)); double v = 0;
    for (int j = 0; j < t.nt; j++) { double q = ref_pred(read_tree(*e->GetTree(j)), t.d, i, t.lm.kind != 0); v += q; if (mag) *mag = std::max(*mag, std::fabs(q)); } return v; };
  auto verify = [&]() {
    double mag = scale; DV tot(n, 0.);
    for (auto& t : T) {
      if (t->fc->NumSamples() == 0 && !t->pre) continue; TreeEnsemble* e = t->fc->GetEnsemble(std::max(0, t->fc->NumSamples() - 1));
      for (int j = 0; j < t->nt; j++) { RTree m = read_tree(*e->GetTree(j)); split |= m.n.size() > 1;
        for (int i = 0; i < n; i++) { double q = ref_pred(m, t->d, i, t->lm.kind != 0); tot[i] += q; mag = std::max(mag, std::fabs(q));
          double got = t->tr->GetTreeSamplePrediction(i, j); PBT_CHECK(c, std::fabs(got - q) <= 1e-9 * (1 + std::fabs(q)), "cached-tree-fit", "cached fit of tree " << j << " row " << i << " is " << got << ", the latest draw predicts " << q << " after " << hist); } }
      if (t->fc->NumSamples()) { DV pr = ens_pred(t->fc->GetEnsemble(t->fc->NumSamples() - 1), t->ds, n); for (int i = 0; i < n; i++) { double q = fit(*t, i, &mag); PBT_CHECK(c, std::fabs(pr[i] - q) <= 1e-9 * (1 + std::fabs(mag)), "predict", "Predict of the latest draw, row " << i); } }
    }
    if (R) for (int i = 0; i < n; i++) { double q = R->fit(i), got = R->tr->GetPrediction(i); tot[i] += q; mag = std::max(mag, std::fabs(q)); if (R->drawn) PBT_CHECK(c, std::fabs(got - q) <= 1e-9 * (1 + std::fabs(q)), "cached-rfx-fit", "cached random effect of row " << i << " is " << got << ", current parameters give " << q << " after " << hist); }
    for (int i = 0; i < n; i++) PBT_CHECK(c, std::fabs(r.GetElement(i) + tot[i] - extra[i] - y[i]) <= 1e-8 * (1 + mag) , "residual", "row " << i << ": residual " << r.GetElement(i) << " + fit " << tot[i] << " = " << r.GetElement(i) + tot[i] << ", outcome " << y[i] << " after " << hist);
  };
  for (auto& t : T) if (t->lm.kind == 2 || s.chance(1, 3)) { pre_init(*t, s, r); hist += "init; "; verify(); }
  int ops = s.range(2, 10), kinds = 0, steps = 0;
  for (int k = 0; k < ops; k++) {
    int op = (int)s.raw(8); Term& t = *T[s.range(0, nf - 1)]; std::ostringstream h;
    if (R && op == 7) { R->s2 = s.pick<double>({1., 0.1, 3.}); R->step(r, gen); h << "rfx step; "; kinds |= 8; }
    else if (op <= 5 || t.fc->NumSamples() == 0) { bool g = s.chance(1, 2); t.step(g, r, gen); h << (g ? "gfr" : "mcmc") << " step; "; kinds |= g ? 1 : 2; steps++; }
    else {   // whole-forest add / subtract, around a basis change when there is a basis
      TreeEnsemble* e = t.fc->GetEnsemble(t.fc->NumSamples() - 1); DV f(n); double mag = 0; for (int i = 0; i < n; i++) f[i] = fit(t, i, &mag); bool rb = t.lm.kind != 0;
      DV before(n); for (int i = 0; i < n; i++) before[i] = r.GetElement(i);
      UpdateResidualEntireForest(*t.tr, t.ds, r, e, rb, std::plus<double>());
      for (int i = 0; i < n; i++) PBT_CHECK(c, std::fabs(r.GetElement(i) - before[i] - f[i]) <= 1e-9 * (1 + mag + std::fabs(before[i])), "entire-forest", "adding a forest changed row " << i << " by " << r.GetElement(i) - before[i] << ", its prediction is " << f[i]);
      extra = f; verify(); extra.assign(n, 0.);
      if (t.d.bd) { for (auto& v : t.d.B) if (s.chance(1, 2)) v = s.num(1); bool rm = s.chance(1, 2); DV Bc(t.d.B.size()); for (int i = 0; i < n; i++) for (int q = 0; q < t.d.bd; q++) Bc[q * n + i] = t.d.B[i * t.d.bd + q]; t.ds.UpdateBasis(rm ? t.d.B.data() : Bc.data(), n, t.d.bd, rm); refreshed++; }
      UpdateResidualEntireForest(*t.tr, t.ds, r, e, rb, std::minus<double>()); h << (t.d.bd ? "basis refresh; " : "add+subtract; ");
    }
    hist += h.str(); verify();
  }
  c.nontrivial = split && steps >= 2 && (nf > 1 || R || refreshed || kinds == 3);
  if (c.describe) c.desc << " history: " << hist;
}
static pbt::Reg r06("P06", "at least one split tree and two forest steps, with several terms, both algorithms or a basis refresh", p06);

// ---------------------------------------------------------------- P05
static int tree_moves(const RTree& a, int i, const RTree& b, int j) {    // number of single grow/prune moves, 99 = not related
  bool la = a.is_leaf(i), lb = b.is_leaf(j);
  if (la && lb) return 0;
  if (la) return b.is_lp(j) ? 1 : 99;
  if (lb) return a.is_lp(i) ? 1 : 99;
  auto &x = a.n.at(i), &y = b.n.at(j); if (x.feat != y.feat || x.cat != y.cat || x.cats != y.cats || x.thr != y.thr) return 99;
  return tree_moves(a, x.left, b, y.left) + tree_moves(a, x.right, b, y.right);
}
static bool bits(const DV& a, const DV& b) { return a.size() == b.size() && (a.empty() || memcmp(a.data(), b.data(), a.size() * 8) == 0); }
static void p05(Src& s, Ctx& c) {
  int n = gen_n(s); LM lm = gen_lm(s, (int)s.raw(3)); Data d = gen_data(s, n, lm.basis()); Term t(d, lm, s); t.grid = std::max(2, t.grid);
  DV y = gen_y(s, d); ColumnVector r(y.data(), n); std::mt19937 gen(s.seed32()); std::unique_ptr<RTerm> R; if (s.chance(1, 3)) R = std::make_unique<RTerm>(s, n);
  Data e = gen_data(s, s.range(1, 6), lm.basis()); e.p = d.p; e.X.resize(e.n * e.p); for (auto& v : e.X) v = s.num(2); for (int j = 0; j < e.p; j++) if (d.ft[j] != kNumeric) for (int i = 0; i < e.n; i++) e.X[i * e.p + j] = s.range(0, 4);
  ForestDataset test; e.fill(test);
  if (c.describe) c.desc << t.what() << " " << show(d, 4) << (R ? " +rfx" : "") << "; history: ";
  struct Snap { std::string js; DV a, b, raw; }; std::vector<Snap> S; std::vector<DV> RS;
  auto snap = [&](int i) { TreeEnsemble* q = t.fc->GetEnsemble(i); return Snap{q->to_json().dump(), ens_pred(q, t.ds, n), ens_pred(q, test, e.n), ens_raw(q, test, e.n)}; };
  auto rdraws = [&]() { std::vector<DV> v; auto& A = R->fc->GetAlpha(); auto& B = R->fc->GetBeta(); auto& X = R->fc->GetXi(); auto& G = R->fc->GetSigma(); DV out(n * R->fc->NumSamples()); LabelMapper lmap(R->tr->GetLabelMap()); R->fc->Predict(R->ds, lmap, out); int L = R->nc * R->ng;
    for (int i = 0; i < R->fc->NumSamples(); i++) { DV q(A.begin() + i * R->nc, A.begin() + (i + 1) * R->nc); q.insert(q.end(), B.begin() + i * L, B.begin() + (i + 1) * L); q.insert(q.end(), X.begin() + i * L, X.begin() + (i + 1) * L); q.insert(q.end(), G.begin() + i * R->nc, G.begin() + (i + 1) * R->nc); q.insert(q.end(), out.begin() + i * n, out.begin() + (i + 1) * n); v.push_back(q); } return v; };
  std::string hist;
  auto verify = [&]() {
    PBT_CHECK(c, t.fc->NumSamples() == (int)S.size(), "count", "container holds " << t.fc->NumSamples() << " draws, expected " << S.size() << " after " << hist);
    DV all = S.empty() ? DV() : t.fc->Predict(test);
    for (int i = 0; i < (int)S.size(); i++) { Snap q = snap(i);
      PBT_CHECK(c, q.js == S[i].js, "draw-changed", "trees of draw " << i << " changed after " << hist);
      PBT_CHECK(c, bits(q.a, S[i].a) && bits(q.b, S[i].b) && bits(q.raw, S[i].raw), "prediction-changed", "predictions of draw " << i << " changed after " << hist);
      PBT_CHECK(c, bits(DV(all.begin() + i * e.n, all.begin() + (i + 1) * e.n), S[i].b), "container-prediction", "container prediction of draw " << i << " differs after " << hist); }
    if (R) { auto v = rdraws(); PBT_CHECK(c, v.size() == RS.size(), "rfx-count", "random effect draws after " << hist); for (size_t i = 0; i < v.size(); i++) PBT_CHECK(c, bits(v[i], RS[i]), "rfx-draw-changed", "random-effect draw " << i << " changed after " << hist); }
  };
  bool pre = lm.kind == 2 || s.chance(1, 2); if (pre) { pre_init(t, s, r); hist += "init; "; }
  int ops = s.range(2, 12), steps = 0; bool split = false, other = false; GenCfg g; g.p = d.p; for (auto f : d.ft) g.catcol.push_back(f == kUnorderedCategorical);
  for (int k = 0; k < ops; k++) {
    int op = (int)s.raw(11); int ns = t.fc->NumSamples(); std::ostringstream h;
    if (op <= 4 || ns == 0) {
      bool gfr = s.chance(1, 2); std::vector<RTree> prev; if (ns) for (int j = 0; j < t.nt; j++) prev.push_back(read_tree(*t.fc->GetEnsemble(ns - 1)->GetTree(j))); else for (int j = 0; j < t.nt; j++) { RTree m; m.init(lm.dim()); prev.push_back(m); }
      t.step(gfr, r, gen); steps++; h << (gfr ? "gfr; " : "mcmc; ");
      PBT_CHECK(c, t.fc->NumSamples() == ns + 1, "count", "a step must append one draw");
      if (!gfr) for (int j = 0; j < t.nt; j++) { RTree m = read_tree(*t.fc->GetEnsemble(ns)->GetTree(j)); int mv = tree_moves(prev[j], 0, m, 0); PBT_CHECK(c, mv <= 1, "start-point", "new draw's tree " << j << " " << show(m) << " is not one grow/prune away from the previous draw's " << show(prev[j])); }
      split |= !t.fc->AllRoots(ns); S.push_back(snap(ns));
    } else if (op == 5 && ns > 1) {    // edit one retained draw (not the latest)
      int i = s.range(0, ns - 2), j = s.range(0, t.nt - 1); Tree& tr = *t.fc->GetEnsemble(i)->GetTree(j); RTree m = read_tree(tr); h << "edit draw " << i << " " << random_edit(tr, m, s, g, c) << "; "; S[i] = snap(i); other = true;
    } else if (op == 6 && ns > 2) {
      int to = s.range(0, ns - 2), from = s.range(0, ns - 1); if (to == from) continue; t.fc->CopyFromPreviousSample(to, from); h << "copy " << from << "->" << to << "; "; S[to] = S[from]; other = true;
    } else if (op == 7) {
      bool threw = false; try { if (lm.dim() == 1) t.fc->InitializeRoot(99.); else { DV v(lm.dim(), 99.); t.fc->InitializeRoot(v); } } catch (std::exception&) { threw = true; } h << "reinit attempt; "; other = true; (void)threw;
    } else if (op == 9) {    // room for further draws: new ones are empty, then sampling resumes from a copy of the latest draw
      int k2 = s.range(1, 3); t.fc->AddSamples(k2); h << "add " << k2 << "; "; other = true;
      PBT_CHECK(c, t.fc->NumSamples() == ns + k2, "count", "AddSamples(" << k2 << ") must append that many draws");
      for (int i = 0; i < k2; i++) PBT_CHECK(c, t.fc->GetEnsemble(ns + i)->AllRoots() && t.fc->GetEnsemble(ns + i)->SumLeafSquared() == 0, "new-draw", "an added draw must be empty");
      t.fc->CopyFromPreviousSample(ns + k2 - 1, ns - 1); for (int i = 0; i < k2; i++) S.push_back(snap(ns + i));
      PBT_CHECK(c, S.back().js == S[ns - 1].js, "copy", "copy of draw " << ns - 1 << " differs after " << hist);
    } else if (op == 8 && R) { R->step(r, gen); h << "rfx; "; RS.push_back(rdraws().back()); }
    else { (void)t.fc->Predict(t.ds); (void)t.fc->to_json(); h << "read; "; }
    hist += h.str(); verify();
  }
  c.nontrivial = steps >= 2 && split && (steps >= 3 || other); if (c.describe) c.desc << hist;
}
static pbt::Reg r05("P05", ">=2 sampling steps with at least one split tree, and a third step or an edit/copy/re-init attempt in between", p05);

// ---------------------------------------------------------------- P07
static void p07(Src& s, Ctx& c) {
  int n = gen_n(s); LM lm = gen_lm(s, (int)s.raw(3)); Data d = gen_data(s, n, lm.basis()); Term t(d, lm, s); if (s.chance(1, 4)) t.s2 = 0.001;
  DV y = gen_y(s, d); ColumnVector r(y.data(), n); std::mt19937 gen(s.seed32()); if (c.describe) { c.desc << t.what() << " weights="; for (double w : t.vw) c.desc << w << ","; c.desc << " " << show(d); }
  if (lm.kind == 2 || s.chance(1, 3)) pre_init(t, s, r);
  int steps = s.range(1, pbt::tier() ? 20 : 8), splits = 0, cons = 0; std::vector<std::vector<DV>> prevleaf; std::string hist;
  bool possible = false;   // is any root split allowed?
  for (int j = 0; j < d.p; j++) if (t.vw[j] > 0) { DV v; for (int i = 0; i < n; i++) v.push_back(d.x(i, j)); std::sort(v.begin(), v.end()); for (int i = 1; i < n; i++) if (v[i] > v[i - 1]) {
    if (d.ft[j] == kUnorderedCategorical) { if (n >= 2 * t.minleaf) possible = true; } else if (i >= t.minleaf && n - i >= t.minleaf) possible = true; } }
  for (int k = 0; k < steps; k++) {
    bool g = s.chance(1, 2); std::vector<RTree> prev; int ns = t.fc->NumSamples(); if (ns) for (int j = 0; j < t.nt; j++) prev.push_back(read_tree(*t.fc->GetEnsemble(ns - 1)->GetTree(j)));
    t.step(g, r, gen); hist += g ? "gfr;" : "mcmc;";
    for (int j = 0; j < t.nt; j++) {
      RTree m = read_tree(*t.fc->GetEnsemble(ns)->GetTree(j)); std::vector<int> ids; auto L = leaf_rows(m, d, &ids);
      for (int q : m.internals()) { auto& nd = m.n.at(q); splits++; PBT_CHECK(c, nd.feat >= 0 && nd.feat < d.p && t.vw[nd.feat] != 0, "zero-weight-split", "tree " << j << " splits on feature " << nd.feat << " whose selection weight is zero, after " << hist << " " << show(m));
        PBT_CHECK(c, !nd.cat || d.ft[nd.feat] == kUnorderedCategorical, "split-type", "categorical split on a numeric feature");
        for (int ch : {nd.left, nd.right}) { int cnt = 0; for (int i = 0; i < n; i++) cnt += m.passes(ch, [&](int f) { return d.x(i, f); }); PBT_CHECK(c, cnt > 0, "empty-side", "split of node " << q << " does not separate its rows, after " << hist << " " << show(m)); } }
      if (m.n.size() > 1) for (auto& rows : L) PBT_CHECK(c, (int)rows.size() >= t.minleaf, "min-leaf", "leaf with " << rows.size() << " rows, minimum is " << t.minleaf << ", after " << hist << " " << show(m));
      if (!possible) { cons++; PBT_CHECK(c, m.n.size() == 1, "impossible-split", "no split is possible but the tree is " << show(m) << " after " << hist); }
      for (size_t q = 0; q < L.size(); q++) { auto& lf = m.n.at(ids[q]).leaf; for (double v : lf) PBT_CHECK(c, std::isfinite(v), "finite", "leaf value not finite after " << hist);
        int node = t.tr->UnsortedNodeSize(j, ids[q]); PBT_CHECK(c, node == (int)L[q].size(), "node-size", "tracked size of leaf " << ids[q] << " is " << node << ", rows routed there " << L[q].size() << " after " << hist);
        // a leaf is re-drawn in every step (exact repetition has probability zero)
        if (!prev.empty() && prev[j].n.count(ids[q]) && prev[j].is_leaf(ids[q])) PBT_CHECK(c, prev[j].n.at(ids[q]).leaf != lf, "leaf-not-sampled", "leaf " << ids[q] << " kept its value " << lf[0] << " after " << hist);
        if (lf[0] == 0.) PBT_CHECK(c, false, "leaf-not-sampled", "leaf value left at zero after " << hist); }
    }
  }
  c.nontrivial = (splits >= 2 && (t.minleaf > 1 || d.ties || t.vw.size() > 1)) || (cons > 0);
  c.count("histories with splits", splits > 0); c.count("histories where no split is possible", cons > 0);
}
static pbt::Reg r07("P07", ">=2 splits with a minimum leaf size above 1, ties or several features; or data where no split is possible", p07);

// ---------------------------------------------------------------- P09
static void p09(Src& s, Ctx& c) {
  int kind = (int)s.raw(3); Node q = make_node(s, c, kind, s.range(1, pbt::tier() ? 40 : 24), DataOpt(), true); Term& t = *q.t; Data& d = t.d; LM& lm = t.lm; int nn = q.rows.size();
  if (c.describe) { c.desc << t.what() << " " << show(d) << " node rows " << nn << " of tree " << show(q.m); }
  auto L = [&](const std::vector<int>& r) { return log_ml(lm, d, q.y, t.s2, r); };
  double Ln = L(q.rows); double ymag = 0; for (double v : q.y) ymag += v * v; double tol = 1e-8 * (1 + ymag / t.s2);
  auto cmp = [&](double got, double want, const std::string& what) { PBT_CHECK(c, std::isfinite(got) && std::fabs(got - want) <= tol + 1e-7 * std::fabs(want), "score", what << ": score " << got << ", marginal likelihood ratio " << want); };
  // a proposed split of the node
  for (int k = 0; k < 2; k++) {
    int f = s.range(0, d.p - 1); std::vector<uint32_t> cats; double thr = 0; bool cat = d.ft[f] == kUnorderedCategorical; if (cat) { for (uint32_t v = 0; v < 7; v++) if (s.chance(1, 2)) cats.push_back(v); } else thr = s.chance(3, 4) ? d.x(q.rows[s.range(0, nn - 1)], f) : s.num(2);
    TreeSplit ts = cat ? TreeSplit(cats) : TreeSplit(thr); RNode nd; nd.cat = cat; nd.cats = cats; nd.thr = thr;
    auto l = rows_where(q.rows, [&](int i) { return q.m.left_of(nd, d.x(i, f)); }), r = minus(q.rows, l);
    auto e = lm.with([&](auto& m) { return m.EvaluateProposedSplit(t.ds, *t.tr, *q.r, ts, q.tree, q.id, f, t.s2); });
    PBT_CHECK(c, std::get<2>(e) == (int)l.size() && std::get<3>(e) == (int)r.size(), "proposed-counts", "proposed split counts " << std::get<2>(e) << "/" << std::get<3>(e) << " expected " << l.size() << "/" << r.size());
    cmp(std::get<0>(e) - std::get<1>(e), L(l) + L(r) - Ln, "proposed split on x" + std::to_string(f));
  }
  // every existing split whose children are leaves
  for (int p : q.m.leaf_parents()) {
    auto l = node_rows(q.m, d, q.m.n[p].left), r = node_rows(q.m, d, q.m.n[p].right), a = node_rows(q.m, d, p);
    auto e = lm.with([&](auto& m) { return m.EvaluateExistingSplit(t.ds, *t.tr, *q.r, t.s2, q.tree, p, q.m.n[p].left, q.m.n[p].right); });
    PBT_CHECK(c, std::get<2>(e) == (int)l.size() && std::get<3>(e) == (int)r.size(), "existing-counts", "existing split counts");
    cmp(std::get<0>(e) - std::get<1>(e), L(l) + L(r) - L(a), "existing split of node " + std::to_string(p));
  }
  // all candidates
  std::vector<double> ev, cv; std::vector<int> cf; std::vector<FeatureType> ct; data_size_t cnt = -1; CutpointGridContainer grid(t.ds.GetCovariates(), q.r->GetData(), t.grid);
  int b = t.tr->SortedNodeBegin(q.id, 0), en = t.tr->SortedNodeEnd(q.id, 0);
  lm.with([&](auto& m) { m.EvaluateAllPossibleSplits(t.ds, *t.tr, *q.r, *t.pr, t.s2, q.tree, q.id, ev, cf, cv, ct, cnt, grid, b, en, t.vw, d.ft); return 0; });
  PBT_CHECK(c, ev.size() == cf.size() && cf.size() == cv.size() && cv.size() == ct.size() && !ev.empty() && cnt == (int)ev.size() - 1, "candidate-count", "candidate vectors " << ev.size() << "," << cf.size() << "," << cv.size() << "," << ct.size() << " valid count " << cnt);
  PBT_CHECK(c, cf.back() == -1, "no-split-last", "last candidate is not the no-split option");
  std::map<int, std::set<int>> seen;   // feature -> bins
  for (int k = 0; k < cnt; k++) {
    int f = cf[k], bin = (int)cv[k]; PBT_CHECK(c, f >= 0 && f < d.p && ct[k] == d.ft[f] && bin == cv[k] && bin >= 0 && bin < grid.NumCutpoints(f), "candidate", "candidate " << k << " has invalid feature/type/bin");
    PBT_CHECK(c, t.vw[f] != 0, "zero-weight", "candidate on a feature with zero weight");
    PBT_CHECK(c, seen[f].insert(bin).second, "duplicate", "bin " << bin << " of x" << f << " reported twice");
    RNode nd; nd.cat = d.ft[f] == kUnorderedCategorical; if (nd.cat) nd.cats = grid.CutpointVector(bin, f); else nd.thr = grid.CutpointValue(bin, f);
    TreeSplit ts = nd.cat ? TreeSplit(nd.cats) : TreeSplit(nd.thr);
    auto l = rows_where(q.rows, [&](int i) { return ts.SplitTrue(d.x(i, f)); }), r = minus(q.rows, l); for (int i : q.rows) PBT_CHECK(c, ts.SplitTrue(d.x(i, f)) == q.m.left_of(nd, d.x(i, f)), "rule", "TreeSplit routes a value differently");
    PBT_CHECK(c, (int)l.size() >= t.minleaf && (int)r.size() >= t.minleaf, "min-leaf", "candidate leaves " << l.size() << "/" << r.size() << " rows, minimum " << t.minleaf);
    cmp(ev[k] - ev.back(), L(l) + L(r) - Ln, "candidate x" + std::to_string(f) + " bin " + std::to_string(bin));
  }
  int expected = 0;
  for (int f = 0; f < d.p; f++) {
    if (t.vw[f] == 0) { PBT_CHECK(c, !seen.count(f), "zero-weight", "candidate on a feature with zero weight"); continue; }
    bool full = d.ft[f] != kNumeric || nn <= t.grid; std::set<double> u; for (int i : q.rows) u.insert(d.x(i, f));
    if (full) {   // with full enumeration the candidates are known from the data alone
      PBT_CHECK(c, grid.NumCutpoints(f) == (int)u.size(), "bins", "feature x" << f << " has " << u.size() << " distinct values but " << grid.NumCutpoints(f) << " bins");
    }
    for (int k = 0; k + 1 < grid.NumCutpoints(f); k++) {
      RNode nd; nd.cat = d.ft[f] == kUnorderedCategorical; if (nd.cat) nd.cats = grid.CutpointVector(k, f); else nd.thr = grid.CutpointValue(k, f);
      int l = rows_where(q.rows, [&](int i) { return q.m.left_of(nd, d.x(i, f)); }).size(); bool ok = l >= t.minleaf && nn - l >= t.minleaf;
      PBT_CHECK(c, ok == (seen[f].count(k) > 0), "candidate-set", "x" << f << " bin " << k << " splits " << l << "/" << nn - l << " (minimum " << t.minleaf << ") but was " << (ok ? "not " : "") << "reported"); expected += ok;
    }
    if (d.ft[f] == kUnorderedCategorical && grid.NumCutpoints(f) > 1) { double last = -1e300; for (int k = 0; k < grid.NumCutpoints(f); k++) { double sum = 0; int m = 0; for (int i : q.rows) if (d.x(i, f) == grid.CutpointValue(k, f)) { sum += q.y[i]; m++; } PBT_CHECK(c, m > 0 && sum / m >= last - 1e-9 * (1 + std::fabs(last)), "fisher-order", "categories of x" << f << " not ordered by average outcome"); last = sum / m; } }
  }
  PBT_CHECK(c, expected == cnt, "candidate-count", "reported " << cnt << " candidates, data has " << expected);
  c.nontrivial = nn >= 3 && cnt >= 2; c.count(kind == 0 ? "constant leaf" : kind == 1 ? "univariate regression leaf" : "multivariate regression leaf"); c.count("below root", q.id != 0); c.count("thinned grid", nn > t.grid); c.count("weighted", !d.W.empty()); c.count("candidates scored", cnt);
}
static pbt::Reg r09("P09", "node with >=3 rows and >=2 candidates", p09);

// ---------------------------------------------------------------- P10
static void p10(Src& s, Ctx& c) {
  int n = s.chance(1, 3) ? s.range(1, 12) : s.range(5, pbt::tier() ? 400 : 90); DataOpt o; o.weights = false; Node q = make_node(s, c, 0, n, o, true); Term& t = *q.t; Data& d = t.d; int nn = q.rows.size();
  int gs = s.chance(1, 2) ? s.range(1, 12) : s.chance(1, 2) ? std::max(1, nn + s.range(-2, 2)) : s.range(1, 100); if (c.describe) c.desc << "grid=" << gs << " node rows " << nn << " " << show(d) << " tree " << show(q.m);
  CutpointGridContainer grid(t.ds.GetCovariates(), q.r->GetData(), gs); PBT_CHECK(c, grid.CutpointGridSize() == gs, "grid-size", "CutpointGridSize");
  int reuse = s.range(1, 2); if (s.chance(1, 4)) grid.Reset(t.ds.GetCovariates(), q.r->GetData(), gs);
  for (int rep = 0; rep < reuse; rep++) for (int f = 0; f < d.p; f++) {
    int b = t.tr->SortedNodeBegin(q.id, f), en = t.tr->SortedNodeEnd(q.id, f); PBT_CHECK(c, en - b == nn, "node-range", "sorted range of the node");
    grid.CalculateStrides(t.ds.GetCovariates(), q.r->GetData(), t.tr->GetSortedNodeSampleTracker(), q.id, b, en, f, d.ft);
    std::vector<int> so(t.tr->SortedNodeBeginIterator(q.id, f), t.tr->SortedNodeEndIterator(q.id, f)); int nb = grid.NumCutpoints(f);
    std::vector<int> owner(nn, -1); std::ostringstream bb; for (int k = 0; k < nb; k++) bb << "[" << grid.BinStartIndex(k, f) - b << "+" << grid.BinLength(k, f) << " <=" << grid.CutpointValue(k, f) << "]"; std::string B = bb.str();
    for (int k = 0; k < nb; k++) { int st = grid.BinStartIndex(k, f) - b, len = grid.BinLength(k, f); PBT_CHECK(c, grid.BinEndIndex(k, f) == grid.BinStartIndex(k, f) + len, "bin-end", "BinEndIndex");
      PBT_CHECK(c, len > 0 && st >= 0 && st + len <= nn, "bin-range", "bin " << k << " of x" << f << " outside the node: " << B);
      for (int i = st; i < st + len; i++) { PBT_CHECK(c, owner[i] < 0, "bin-overlap", "bins of x" << f << " overlap: " << B); owner[i] = k; } }
    for (int i = 0; i < nn; i++) PBT_CHECK(c, owner[i] >= 0, "bin-gap", "row at position " << i << " of x" << f << " is in no bin: " << B << " node rows " << nn);
    std::map<double, int> bin_of; for (int i = 0; i < nn; i++) { double v = d.x(so[i], f); auto it = bin_of.find(v); if (it == bin_of.end()) bin_of[v] = owner[i]; else PBT_CHECK(c, it->second == owner[i], "split-ties", "rows with x" << f << "=" << v << " fall in different bins: " << B); }
    bool un = d.ft[f] == kUnorderedCategorical;
    for (int k = 0; k < nb; k++) { RNode nd; nd.cat = un; if (un) nd.cats = grid.CutpointVector(k, f); else nd.thr = grid.CutpointValue(k, f);
      for (int i = 0; i < nn; i++) PBT_CHECK(c, q.m.left_of(nd, d.x(so[i], f)) == (owner[i] <= k), "cutpoint-value", "cutpoint " << k << " of x" << f << " does not send exactly bins 0.." << k << " left: " << B); }
    int distinct = bin_of.size();
    if (d.ft[f] != kNumeric || nn <= gs) PBT_CHECK(c, nb == distinct, "all-distinct", "x" << f << " has " << distinct << " distinct values in " << nn << " rows, grid " << gs << ", but " << nb << " bins: " << B);
    else { PBT_CHECK(c, nb <= gs, "too-many", nb << " bins of x" << f << " exceed the grid size " << gs << ": " << B);
      int step = (nn + gs - 1) / gs; for (int k = 0; k < nb; k++) { int st = grid.BinStartIndex(k, f) - b, len = grid.BinLength(k, f), lastrun = 0; for (int i = st; i < st + len; i++) lastrun += d.x(so[i], f) == d.x(so[st + len - 1], f); PBT_CHECK(c, len - lastrun < 2 * step, "swallowed", "bin " << k << " of x" << f << " holds " << len << " rows although it could have been closed after " << len - lastrun << " (step " << step << "): " << B); } }
    if (un && nb > 1) { double last = -1e300; for (int k = 0; k < nb; k++) { double sum = 0; int m = 0; for (int i = 0; i < nn; i++) if (owner[i] == k) { sum += q.y[so[i]]; m++; } PBT_CHECK(c, sum / m >= last - 1e-9 * (1 + std::fabs(last)), "fisher-order", "categories of x" << f << " not ordered by average outcome: " << B); last = sum / m; } }
    c.count("thinned numeric", d.ft[f] == kNumeric && nn > gs); c.count("categorical", d.ft[f] != kNumeric);
    if (nn >= 3 && distinct >= 2) c.nontrivial = true;
  }
}
static pbt::Reg r10("P10", "node with >=3 rows and a feature with >=2 distinct values", p10);
PBT_MAIN
