#include "ref.h"
#include <stochtree/kernel.h>
#include <stochtree/leaf_model.h>
#include <stochtree/partition_tracker.h>
#include <stochtree/tree_sampler.h>
#include <unistd.h>

typedef Eigen::Map<Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic, Eigen::ColMajor>> CMap;

static GenCfg gen_cfg(Src& s) { GenCfg g; g.p = s.chance(1, 24) ? s.range(5, 300) : s.range(1, 4); g.catcol.resize(g.p); for (int j = 0; j < g.p; j++) g.catcol[j] = s.chance(1, 3); return g; }

// ---------------------------------------------------------------- P01
static void p01(Src& s, Ctx& c) {
  GenCfg g = gen_cfg(s); g.bigcat = true;
  bool constant = s.chance(1, 2); int dim = constant ? 1 : s.range(1, 3);
  int nt = s.chance(1, 16) ? s.range(4, 150) : s.range(1, 3), ns = s.chance(1, 16) ? s.range(4, 300) : s.range(0, 3); if (nt > 3) ns = std::min(ns, 600 / nt);
  bool chain = nt * ns <= 9 && s.chance(1, 16), many = nt * ns > 9;
  ForestContainer fc = (ns > 0 && s.chance(1, 2)) ? ForestContainer(ns, nt, dim, constant) : ForestContainer(nt, dim, constant);
  if (fc.NumSamples() < ns) fc.AddSamples(ns);
  std::vector<std::vector<RTree>> m(ns, std::vector<RTree>(nt));
  std::vector<double> interesting; std::vector<uint32_t> listed; bool cat = false, deep = false;
  for (int a = 0; a < ns; a++) for (int j = 0; j < nt; j++) {
    m[a][j].init(dim); grow_random(*fc.GetEnsemble(a)->GetTree(j), m[a][j], s, g, c, s.range(0, many ? 2 : 7)); if (chain && s.chance(1, 2)) grow_chain(*fc.GetEnsemble(a)->GetTree(j), m[a][j], s, g, c, gen_chain_len(s));
    for (auto& q : m[a][j].n) if (!m[a][j].is_leaf(q.first) && !q.second.cat) interesting.push_back(q.second.thr);
    for (auto& q : m[a][j].n) if (!m[a][j].is_leaf(q.first)) { deep = true; cat |= q.second.cat; listed.insert(listed.end(), q.second.cats.begin(), q.second.cats.end()); }
  }
  int n = s.range(1, 8); DV X(n * g.p), B(n * dim); bool special = false;
  for (int i = 0; i < n; i++) for (int j = 0; j < g.p; j++) {
    double v; int k = (int)s.raw(9);
    if (k == 0) { v = s.pick<double>({NAN, INFINITY, -INFINITY, 1e308, -1e308, 4294967296.0, 4294967295.0}); special = true; }
    else if (k <= 3 && !interesting.empty()) { double t = s.pick(interesting); int e = (int)s.raw(3); v = e == 0 ? t : e == 1 ? std::nextafter(t, INFINITY) : std::nextafter(t, -INFINITY); special = true; }
    else v = s.num(2);
    if (g.catcol[j]) { if (!std::isnan(v) && std::fabs(v) < 1e9) v = s.range(-2, 5); if (s.chance(1, 12)) v = s.pick<double>({100, 70000, 4294967295.0, 2147483648.0, -4294967295.0});
      if (!listed.empty() && s.chance(1, 3)) v = (double)s.pick(listed) + s.pick<double>({0, 0, 0, 1, -1, 256, -256, 65536, -65536, 4294967296.0}); }
    X[i * g.p + j] = v;
  }
  for (auto& b : B) b = s.num(2);
  bool rm = s.chance(1, 2); DV Xc(X.size()), Bc(B.size());
  for (int i = 0; i < n; i++) { for (int j = 0; j < g.p; j++) Xc[j * n + i] = X[i * g.p + j]; for (int k = 0; k < dim; k++) Bc[k * n + i] = B[i * dim + k]; }
  ForestDataset ds; ds.AddCovariates(rm ? X.data() : Xc.data(), n, g.p, rm); if (!constant || s.chance(1, 4)) ds.AddBasis(rm ? B.data() : Bc.data(), n, dim, rm);
  c.nontrivial = ns > 0 && deep && n > 1 && (special || cat || ns > 1 || dim > 1);
  if (c.describe) { c.desc << "n=" << n << " p=" << g.p << " draws=" << ns << " trees=" << nt << " leafdim=" << dim << (constant ? " constant" : " regression") << "; "; if (ns) c.desc << "first tree " << show(m[0][0]); c.desc << "; row0"; for (int j = 0; j < g.p; j++) c.desc << " " << X[j]; }
  auto leafval = [&](int a, int j, int i, int k) { auto& t = m[a][j]; int r = t.route([&](int f) { return X[i * g.p + f]; }); return t.n.at(r).leaf[k]; };
  auto expect = [&](int a, int t0, int t1, int i, double& mag) { double v = 0; mag = 0; for (int j = t0; j < t1; j++) for (int k = 0; k < dim; k++) { double q = leafval(a, j, i, k) * (constant ? 1 : B[i * dim + k]); v += q; mag += std::fabs(q); } return v; };
  auto expect_raw = [&](int a, int t0, int t1, int i, int k, double& mag) { double v = 0; mag = 0; for (int j = t0; j < t1; j++) { double q = leafval(a, j, i, k); v += q; mag += std::fabs(q); } return v; };
  auto near = [](double a, double b, double mag) { return std::fabs(a - b) <= 1e-10 * (mag + 1e-12); };
  for (int a = 0; a < ns; a++) {
    TreeEnsemble* e = fc.GetEnsemble(a);
    PBT_CHECK(c, e->NumTrees() == nt && fc.NumTrees(a) == nt && e->OutputDimension() == dim && fc.IsLeafConstant(a) == constant, "dims", "ensemble dimensions");
    int leaves = 0; double ss = 0; bool allroot = true;
    for (int j = 0; j < nt; j++) { auto l = m[a][j].leaves(); leaves += l.size(); allroot &= l.size() == 1; for (int q : l) for (double v : m[a][j].n.at(q).leaf) ss += v * v; }
    PBT_CHECK(c, e->NumLeaves() == leaves && fc.NumLeaves(a) == leaves && e->AllRoots() == allroot && fc.AllRoots(a) == allroot, "leafcount", "NumLeaves/AllRoots of draw " << a);
    PBT_CHECK(c, approx_sq(e->SumLeafSquared(), ss), "sumsq", "SumLeafSquared");
    // every overload, with an offset and a sub-range
    int t0 = s.range(0, nt), t1 = s.range(t0, nt), off = s.range(0, 5), extra = s.range(0, 3);
    for (int variant = 0; variant < 6; variant++) {
      int b = (variant % 2) ? t0 : 0, f = (variant % 2) ? t1 : nt; DV out(n + off + extra, -12345.5);
      if (variant == 0) e->PredictInplace(ds, out, off);
      else if (variant == 1) e->PredictInplace(ds, out, t0, t1, off);
      else if (!constant) { if (variant == 2) e->PredictInplace(ds.GetCovariates(), ds.GetBasis(), out, off); else if (variant == 3) e->PredictInplace(ds.GetCovariates(), ds.GetBasis(), out, t0, t1, off); else continue; }
      else { if (variant == 4) e->PredictInplace(ds.GetCovariates(), out, off); else if (variant == 5) e->PredictInplace(ds.GetCovariates(), out, t0, t1, off); else continue; }
      for (int i = 0; i < (int)out.size(); i++) {
        if (i < off || i >= off + n) { PBT_CHECK(c, out[i] == -12345.5, "offset", "PredictInplace wrote outside its block at " << i << " (offset " << off << ", n " << n << ")"); continue; }
        double mag, w = expect(a, b, f, i - off, mag);
        PBT_CHECK(c, near(out[i], w, mag), "predict", "draw " << a << " row " << i - off << " trees [" << b << "," << f << ") predicted " << out[i] << " routed sum " << w << " (overload " << variant << ")");
      }
    }
    for (int variant = 0; variant < 2; variant++) {
      DV out(n * dim + off + extra, -12345.5); int b = variant ? t0 : 0, f = variant ? t1 : nt;
      if (variant) e->PredictRawInplace(ds, out, t0, t1, off); else e->PredictRawInplace(ds, out, off);
      for (int q = 0; q < (int)out.size(); q++) {
        if (q < off || q >= off + n * dim) { PBT_CHECK(c, out[q] == -12345.5, "offset", "PredictRawInplace wrote outside its block"); continue; }
        int i = (q - off) / dim, k = (q - off) % dim; double mag, w = expect_raw(a, b, f, i, k, mag);
        PBT_CHECK(c, near(out[q], w, mag), "predict-raw", "raw prediction draw " << a << " row " << i << " dim " << k << " = " << out[q] << " expected " << w);
      }
    }
    // leaf indices: position in the leaf list + leaf counts of the preceding trees
    std::vector<int32_t> li = e->PredictLeafIndices(&ds), li2(n * nt, -1), li3(n * nt, -1), li4(n * nt, -1);
    e->PredictLeafIndicesInplace(&ds, li2, nt, n); e->PredictLeafIndicesInplace(ds.GetCovariates(), li3, nt, n);
    CMap mp(Xc.data(), n, g.p); e->PredictLeafIndicesInplace(mp, li4, nt, n);
    PBT_CHECK(c, li == li2 && li == li3 && li == li4, "leafidx-overloads", "leaf index overloads disagree");
    int base = 0;
    for (int j = 0; j < nt; j++) {
      auto const& L = e->GetTree(j)->GetLeaves();
      for (int i = 0; i < n; i++) {
        int node = m[a][j].route([&](int f) { return X[i * g.p + f]; }); int pos = std::find(L.begin(), L.end(), node) - L.begin();
        PBT_CHECK(c, li[j * n + i] == base + pos, "leafidx", "leaf index of row " << i << " tree " << j << " is " << li[j * n + i] << " expected " << base + pos);
        PBT_CHECK(c, EvaluateTree(*e->GetTree(j), ds.GetCovariates(), i) == node && EvaluateTree(*e->GetTree(j), mp, i) == node, "route", "EvaluateTree row " << i << " tree " << j);
        if (dim == 1 || !constant) { double q = 0, mag = 0; for (int k = 0; k < dim; k++) { q += m[a][j].n.at(node).leaf[k] * B[i * dim + k]; mag += std::fabs(m[a][j].n.at(node).leaf[k] * B[i * dim + k]); }
          if (ds.HasBasis()) PBT_CHECK(c, near(e->GetTree(j)->PredictFromNode(node, ds.GetBasis(), i), q, mag), "predict-node", "PredictFromNode with basis"); }
      }
      base += L.size();
    }
    DV pr = fc.PredictRaw(ds, a);
    PBT_CHECK(c, (int)pr.size() == n * dim, "size", "PredictRaw(draw) size");
    for (int i = 0; i < n; i++) for (int k = 0; k < dim; k++) { double mag, w = expect_raw(a, 0, nt, i, k, mag); PBT_CHECK(c, near(pr[i * dim + k], w, mag), "predict-raw", "container PredictRaw(draw)"); }
  }
  DV all = fc.Predict(ds), raw = fc.PredictRaw(ds);
  PBT_CHECK(c, (int)all.size() == ns * n && (int)raw.size() == ns * n * dim, "size", "container prediction sizes " << all.size() << " " << raw.size());
  for (int a = 0; a < ns; a++) for (int i = 0; i < n; i++) {
    double mag, w = expect(a, 0, nt, i, mag);
    PBT_CHECK(c, near(all[a * n + i], w, mag), "container-predict", "container block " << a << " row " << i << " is " << all[a * n + i] << " expected " << w);
    for (int k = 0; k < dim; k++) { w = expect_raw(a, 0, nt, i, k, mag); PBT_CHECK(c, near(raw[(a * n + i) * dim + k], w, mag), "container-raw", "container raw block " << a << " row " << i << " dim " << k); }
  }
}
static pbt::Reg r01("P01", "at least one split tree, >1 row, and (special value on a threshold/NaN/inf, a categorical split, several draws, or vector leaves)", p01);

// ---------------------------------------------------------------- P02
static void p02(Src& s, Ctx& c) {
  GenCfg g = gen_cfg(s); g.bigcat = true; g.extreme = s.chance(1, 4); int dim = s.range(1, 3);
  auto t = std::make_unique<Tree>(); RTree m; t->Init(dim); m.init(dim); check_tree(*t, m, c, "init");
  std::vector<std::pair<std::unique_ptr<Tree>, RTree>> frozen;
  int ops = s.range(1, pbt::tier() ? 60 : 30), expands = 0, prunes = 0, after_prune = 0; std::string hist;
  if (s.chance(1, 40)) { grow_chain(*t, m, s, g, c, gen_chain_len(s)); hist = "chain; "; expands++; ops = std::min(ops, 8); }
  for (int i = 0; i < ops; i++) {
    int k = (int)s.raw(16); std::string lab;
    if (k < 12) {
      lab = random_edit(*t, m, s, g, c);
      if (lab[0] == 'e') { expands++; if (prunes) after_prune++; } if (lab[0] == 'p' || lab[0] == 'c') prunes++;
    } else if (k == 12) { auto q = std::make_unique<Tree>(); if (s.chance(1, 2)) { q->Init(s.range(1, 3)); }
      q->CloneFromTree(t.get()); lab = "clone"; bool keep = s.chance(1, 2); if (keep) std::swap(q, t); frozen.emplace_back(std::move(q), m); }
    else if (k == 13) { json j = json::parse(t->to_json().dump()); auto q = std::make_unique<Tree>(); if (s.chance(1, 2)) { q->Init(dim); RTree qm; qm.init(dim); grow_random(*q, qm, s, g, c, s.range(0, 4)); }
      q->from_json(j); lab = "reload"; bool keep = s.chance(1, 2); if (keep) std::swap(q, t); frozen.emplace_back(std::move(q), m); }
    else if (k == 14) { dim = s.range(1, 3); t->Reset(); t->Init(dim); m.init(dim); lab = "reset"; }
    else { dim = s.range(1, 3); t->Init(dim); m.init(dim); lab = "init"; }
    hist += lab + "; ";
    if (c.describe) { c.desc.str(""); c.desc << hist << " => " << show(m); }
    check_tree(*t, m, c, "after " + hist);
    if (frozen.size() > 3) frozen.erase(frozen.begin());
    for (auto& f : frozen) check_tree(*f.first, f.second, c, "copy made earlier, after " + hist);
  }
  c.nontrivial = expands >= 2 && prunes >= 1 && after_prune >= 1;
  // ensemble-level copies
  if (s.chance(1, 3)) {
    int nt = s.range(1, 3), d = s.range(1, 3); TreeEnsemble e(nt, d, d == 1); std::vector<RTree> em(nt);
    for (int j = 0; j < nt; j++) { em[j].init(d); grow_random(*e.GetTree(j), em[j], s, g, c, s.range(0, 5)); }
    TreeEnsemble f(e); std::vector<RTree> fm = em;
    for (int j = 0; j < nt; j++) { grow_random(*f.GetTree(j), fm[j], s, g, c, s.range(0, 4)); }
    for (int j = 0; j < nt; j++) { check_tree(*e.GetTree(j), em[j], c, "ensemble copied from"); check_tree(*f.GetTree(j), fm[j], c, "ensemble copy edited"); }
    int j = s.range(0, nt - 1); e.ResetInitTree(j); em[j].init(d);
    for (int q = 0; q < nt; q++) { check_tree(*e.GetTree(q), em[q], c, "ResetInitTree"); check_tree(*f.GetTree(q), fm[q], c, "copy after ResetInitTree of source"); }
    int a = s.range(0, nt - 1); e.CloneFromExistingTree(a, f.GetTree(j)); em[a] = fm[j]; check_tree(*e.GetTree(a), em[a], c, "CloneFromExistingTree");
    // constant root values for a whole ensemble; refused as soon as a tree has a split
    ForestContainer fc(nt, d, d == 1); fc.AddSamples(2); std::vector<RTree> cm(nt); int which = s.range(0, 1); DV v = gen_leafvec(s, g, d); for (auto& q : cm) { q.init(d); } auto cm0 = cm; for (auto& q : cm) q.n[0].leaf = v;
    if (d == 1) fc.SetLeafValue(which, v[0]); else fc.SetLeafVector(which, v);
    for (int q = 0; q < nt; q++) { check_tree(*fc.GetEnsemble(which)->GetTree(q), cm[q], c, "root values set for the draw"); check_tree(*fc.GetEnsemble(1 - which)->GetTree(q), cm0[q], c, "root values set for the other draw"); }
  }
}
static pbt::Reg r02("P02", "at least two expansions, one prune and one expansion after a prune (id recycling)", p02);

// ---------------------------------------------------------------- P03
static void p03(Src& s, Ctx& c) {
  GenCfg g = gen_cfg(s); int n = s.range(1, 14), nt = s.range(1, 3), p = g.p; bool nan_ok = s.chance(1, 5);
  DV X(n * p); bool ties = false;
  for (int j = 0; j < p; j++) { bool coarse = s.chance(1, 2); for (int i = 0; i < n; i++) { double v = g.catcol[j] ? s.range(-1, 4) : coarse ? s.range(0, 4) - 2 : s.num(2); if (nan_ok && s.chance(1, 8)) v = NAN; X[i * p + j] = v; ties |= coarse; } }
  ForestDataset ds; ds.AddCovariates(X.data(), n, p, true);
  std::vector<FeatureType> ft(p); for (int j = 0; j < p; j++) ft[j] = g.catcol[j] ? (s.chance(1, 2) ? kOrderedCategorical : kUnorderedCategorical) : kNumeric;
  ForestTracker tr(ds.GetCovariates(), ft, nt, n);
  tr.AssignAllSamplesToRoot();
  TreeEnsemble e(nt, 1, true); std::vector<RTree> m(nt); for (auto& t : m) t.init(1);
  int active = -1;   // tree currently grown with the sorted tracker
  auto X_ = [&](int i) { return [&X, i, p](int f) { return X[i * p + f]; }; };
  int ops = s.range(1, pbt::tier() ? 40 : 20), grows = 0, prunes = 0, regrow = 0; std::string hist;
  auto verify = [&]() {
    for (int t = 0; t < nt; t++) {
      for (int i = 0; i < n; i++) {
        int w = m[t].route(X_(i));
        PBT_CHECK(c, tr.GetNodeId(i, t) == w, std::isnan(X[i * p]) || nan_ok ? "node-id-nan" : "node-id", "row " << i << " tree " << t << " tracked in node " << tr.GetNodeId(i, t) << " but routes to " << w << " after " << hist);
        PBT_CHECK(c, EvaluateTree(*e.GetTree(t), ds.GetCovariates(), i) == w, "route", "EvaluateTree disagrees");
      }
      for (auto& q : m[t].n) {
        int nid = q.first; std::vector<int> want; for (int i = 0; i < n; i++) if (m[t].passes(nid, X_(i))) want.push_back(i);
        std::vector<int> got(tr.UnsortedNodeBeginIterator(t, nid), tr.UnsortedNodeEndIterator(t, nid));
        PBT_CHECK(c, same_set(got, want), "unsorted-rows", "row set of node " << nid << " tree " << t << " wrong after " << hist);
        PBT_CHECK(c, (int)tr.UnsortedNodeSize(t, nid) == (int)want.size() && (int)(tr.UnsortedNodeEnd(t, nid) - tr.UnsortedNodeBegin(t, nid)) == (int)want.size(), "unsorted-size", "size of node " << nid << " tree " << t << " after " << hist);
        auto* u = tr.GetUnsortedNodeSampleTracker();
        PBT_CHECK(c, u->IsValidNode(t, nid) && u->IsLeaf(t, nid) == m[t].is_leaf(nid) && u->Parent(t, nid) == q.second.parent && u->LeftNode(t, nid) == q.second.left && u->RightNode(t, nid) == q.second.right, "unsorted-links", "partition links of node " << nid << " tree " << t << " after " << hist);
        auto idx = u->TreeNodeIndices(t, nid); PBT_CHECK(c, same_set(idx, want), "unsorted-indices", "TreeNodeIndices");
        if (t == active && !nan_ok) for (int f = 0; f < p; f++) {
          std::vector<int> so(tr.SortedNodeBeginIterator(nid, f), tr.SortedNodeEndIterator(nid, f));
          PBT_CHECK(c, same_set(so, want) && (int)tr.SortedNodeSize(nid, f) == (int)want.size(), "sorted-rows", "sorted rows of node " << nid << " feature " << f << " wrong after " << hist);
          if (m[t].is_leaf(nid)) for (size_t k = 1; k < so.size(); k++) PBT_CHECK(c, X[so[k - 1] * p + f] <= X[so[k] * p + f], "sorted-order", "node " << nid << " feature " << f << " not ascending after " << hist);
          PBT_CHECK(c, same_set(tr.GetSortedNodeSampleTracker()->NodeIndices(nid, f), want), "sorted-indices", "sorted NodeIndices");
        }
      }
    }
  };
  verify();
  if (s.chance(1, 30)) {   // one deep tree: more than 16 levels, node ids beyond one byte
    int t = s.range(0, nt - 1); bool sorted = s.chance(1, 2); if (sorted) { e.ResetInitTree(t); tr.ResetRoot(ds.GetCovariates(), ft, t); active = t; }
    grow_chain(*e.GetTree(t), m[t], s, g, c, gen_chain_len(s), [&](int nid, Split& x, int l, int r) { TreeSplit ts = to_split(x); tr.AddSplit(ds.GetCovariates(), ts, x.feat, t, nid, l, r, sorted); });
    hist += "chain on tree " + std::to_string(t) + "; "; grows += 2; ops = std::min(ops, 6); verify();
  }
  for (int k = 0; k < ops; k++) {
    int t = active >= 0 && s.chance(1, 2) ? active : s.range(0, nt - 1); auto in = m[t].internals(); int op = (int)s.raw(10); std::ostringstream h;
    if (op == 9) { // start growing tree t from its root with the sorted tracker
      e.ResetInitTree(t); m[t].init(1); tr.ResetRoot(ds.GetCovariates(), ft, t); active = t; h << "reset tree " << t << "; ";
    } else if (op <= 5 || in.empty()) {
      int nid = s.pick(m[t].leaves()); Split x = gen_split(s, g);
      if (!x.cat && s.chance(2, 3)) { double v = X[s.range(0, n - 1) * p + x.feat]; if (!std::isnan(v)) x.thr = v; }
      do_expand(*e.GetTree(t), m[t], nid, x, {s.num()}, {s.num()}, true, c);
      int l = m[t].n[nid].left, r = m[t].n[nid].right; TreeSplit ts = to_split(x); bool sorted = t == active;
      if (s.chance(3, 4)) tr.AddSplit(ds.GetCovariates(), ts, x.feat, t, nid, l, r, sorted);
      else {  // the pieces AddSplit is made of, through the typed overloads
        tr.GetSampleNodeMapper()->AddSplit(ds.GetCovariates(), ts, x.feat, t, nid, l, r);
        if (x.cat) tr.GetUnsortedNodeSampleTracker()->PartitionTreeNode(ds.GetCovariates(), t, nid, l, r, x.feat, x.cats); else tr.GetUnsortedNodeSampleTracker()->PartitionTreeNode(ds.GetCovariates(), t, nid, l, r, x.feat, x.thr);
        if (sorted) { if (x.cat) tr.GetSortedNodeSampleTracker()->PartitionNode(ds.GetCovariates(), nid, x.feat, x.cats); else tr.GetSortedNodeSampleTracker()->PartitionNode(ds.GetCovariates(), nid, x.feat, x.thr); }
      }
      h << "tree " << t << " split node " << nid << " on x" << x.feat; if (x.cat) h << " (cat)"; else h << "<=" << x.thr; h << "; "; grows++; if (prunes) regrow++;
    } else {
      int nid = s.chance(2, 3) ? s.pick(m[t].leaf_parents()) : s.pick(in); int l = m[t].n[nid].left, r = m[t].n[nid].right;
      do_collapse(*e.GetTree(t), m[t], nid, {s.num()}, false);
      tr.RemoveSplit(ds.GetCovariates(), e.GetTree(t), t, nid, l, r, false); if (t == active) active = -1;
      h << "tree " << t << " prune node " << nid << "; "; prunes++;
    }
    hist += h.str(); if (c.describe) { c.desc.str(""); c.desc << "n=" << n << " p=" << p << " trees=" << nt << ": " << hist; }
    verify();
    if (s.chance(1, 6)) { for (int q = 0; q < nt; q++) tr.GetUnsortedNodeSampleTracker()->UpdateObservationMapping(e.GetTree(q), q, tr.GetSampleNodeMapper());
      if (active >= 0) for (int q : m[active].leaves()) tr.GetSortedNodeSampleTracker()->UpdateObservationMapping(q, active, tr.GetSampleNodeMapper(), s.range(0, p - 1));
      verify(); }
  }
  // cached predictions are per (row, tree)
  std::vector<DV> pm(nt, DV(n, 0.)); tr.AssignAllSamplesToConstantPrediction(1.25); for (auto& v : pm) v.assign(n, 1.25);
  for (int k = 0; k < 6; k++) { int t = s.range(0, nt - 1), i = s.range(0, n - 1); if (s.chance(1, 4)) { double v = s.num(); tr.AssignAllSamplesToConstantPrediction(t, v); pm[t].assign(n, v); } else { double v = s.num(); tr.SetTreeSamplePrediction(i, t, v); pm[t][i] = v; } }
  for (int t = 0; t < nt; t++) for (int i = 0; i < n; i++) PBT_CHECK(c, tr.GetTreeSamplePrediction(i, t) == pm[t][i], "cached-pred", "cached prediction row " << i << " tree " << t);
  c.nontrivial = n >= 3 && grows >= 2 && (prunes >= 1 || active >= 0) && (regrow || ties || nt > 1);
}
static pbt::Reg r03("P03", ">=3 rows, >=2 splits and a prune or a sorted grow, plus regrowth after a prune, ties, or several trees", p03);

// ---------------------------------------------------------------- P04
static std::string tmpdir() { static std::string d; if (d.empty()) { char t[] = "/tmp/vp_p04_XXXXXX"; d = mkdtemp(t); atexit([] {}); } return d; }
static bool bits(const DV& a, const DV& b) { return a.size() == b.size() && (a.empty() || memcmp(a.data(), b.data(), a.size() * 8) == 0); }
static void roundtrip(ForestContainer& src, ForestContainer& dst, Src& s, std::string& how) {
  if (s.chance(1, 4)) { char t[] = "/tmp/vp_p04_XXXXXX"; int fd = mkstemp(t); close(fd); src.SaveToJsonFile(t); dst.LoadFromJsonFile(t); unlink(t); how = "file"; }
  else { std::string txt = s.chance(1, 3) ? src.to_json().dump(2) : src.to_json().dump(); if (s.chance(1, 2)) dst.Reset(); dst.from_json(nlohmann::json::parse(txt)); how = "text"; }
}
static void p04(Src& s, Ctx& c) {
  GenCfg g = gen_cfg(s); g.bigcat = true; g.extreme = s.chance(1, 3);
  bool constant = s.chance(1, 2); int dim = constant ? 1 : s.range(1, 3), nt = s.chance(1, 16) ? s.range(4, 130) : s.range(1, 3), ns = s.chance(1, 16) ? s.range(4, 260) : s.range(0, 3), p = g.p, n = s.range(1, 8); if (nt > 3) ns = std::min(ns, 300 / nt);
  bool chain = nt * ns <= 9 && s.chance(1, 12), many = nt * ns > 9;
  ForestContainer a(nt, dim, constant); a.AddSamples(ns);
  std::vector<std::vector<RTree>> m(ns, std::vector<RTree>(nt)); bool split = false, pruned = false;
  for (int i = 0; i < ns; i++) for (int j = 0; j < nt; j++) { m[i][j].init(dim); grow_random(*a.GetEnsemble(i)->GetTree(j), m[i][j], s, g, c, s.range(0, many ? 3 : 8)); if (chain && s.chance(1, 2)) { grow_chain(*a.GetEnsemble(i)->GetTree(j), m[i][j], s, g, c, gen_chain_len(s)); grow_random(*a.GetEnsemble(i)->GetTree(j), m[i][j], s, g, c, s.range(0, 8)); } split |= m[i][j].n.size() > 1; pruned |= a.GetEnsemble(i)->GetTree(j)->NumDeletedNodes() > 0; }
  DV X(n * p), B(n * dim); for (auto& x : X) x = s.chance(1, 10) ? NAN : s.chance(1, 4) ? s.range(-1, 5) : s.num(2); for (auto& x : B) x = s.num(2);
  ForestDataset ds; ds.AddCovariates(X.data(), n, p, true); ds.AddBasis(B.data(), n, dim, true);
  // destination: fresh with arbitrary constructor arguments, or already used
  int d2 = s.range(1, 3); bool used = s.chance(1, 2); ForestContainer b(s.range(1, 4), d2, d2 == 1 && s.chance(1, 2));
  if (used) { b.AddSamples(s.range(1, 3)); for (int i = 0; i < b.NumSamples(); i++) { RTree q; q.init(d2); GenCfg g2 = g; grow_random(*b.GetEnsemble(i)->GetTree(0), q, s, g2, c, s.range(0, 4)); } }
  std::string how; roundtrip(a, b, s, how);
  if (s.chance(1, 4)) { ForestContainer mid(1, 1, true); std::string h2; roundtrip(b, mid, s, h2); roundtrip(mid, b, s, h2); how += " x3"; }
  c.nontrivial = ns > 0 && split;
  if (c.describe) { c.desc << how << (used ? " into used container" : " into fresh container") << " draws=" << ns << " trees=" << nt << " leafdim=" << dim << (pruned ? " with deleted nodes" : ""); if (ns) c.desc << "; " << show(m[0][0]); }
  auto cmp = [&](const std::string& when) {
    PBT_CHECK(c, b.NumSamples() == a.NumSamples() && b.NumTrees() == a.NumTrees() && b.OutputDimension() == a.OutputDimension() && b.IsLeafConstant() == a.IsLeafConstant(), "dims", when << ": container dimensions differ");
    PBT_CHECK(c, bits(a.Predict(ds), b.Predict(ds)), "predict", when << ": predictions differ after round trip through " << how);
    PBT_CHECK(c, bits(a.PredictRaw(ds), b.PredictRaw(ds)), "predict-raw", when << ": raw predictions differ after round trip");
    for (int i = 0; i < a.NumSamples(); i++) {
      PBT_CHECK(c, b.NumTrees(i) == a.NumTrees(i) && b.OutputDimension(i) == a.OutputDimension(i) && b.IsLeafConstant(i) == a.IsLeafConstant(i), "dims", when << ": dimensions of draw " << i);
      PBT_CHECK(c, a.GetEnsemble(i)->PredictLeafIndices(&ds) == b.GetEnsemble(i)->PredictLeafIndices(&ds), "leafidx", when << ": leaf indices differ");
      for (int j = 0; j < nt; j++) { check_tree(*a.GetEnsemble(i)->GetTree(j), m[i][j], c, when + " (original)"); check_tree(*b.GetEnsemble(i)->GetTree(j), m[i][j], c, when + " (restored)"); }
    }
  };
  cmp("after round trip");
  // continue with the same edits on both; the models track the original, the restored copy must follow
  if (ns > 0) {
    for (int k = 0, K = s.range(0, 6); k < K; k++) {
      int i = s.range(0, ns - 1), j = s.range(0, nt - 1); RTree mm = m[i][j];
      size_t p0 = s.pos; std::vector<uint64_t> keep; random_edit(*a.GetEnsemble(i)->GetTree(j), m[i][j], s, g, c);
      Src rep; rep.start_replay(std::vector<uint64_t>(s.tape.begin() + std::min(p0, s.tape.size()), s.tape.begin() + std::min(s.pos, s.tape.size())));
      random_edit(*b.GetEnsemble(i)->GetTree(j), mm, rep, g, c);
      PBT_CHECK(c, show(mm) == show(m[i][j]), "edit", "same edit gives a different tree");
      PBT_CHECK(c, a.GetEnsemble(i)->GetTree(j)->GetLeaves() == b.GetEnsemble(i)->GetTree(j)->GetLeaves(), "edit-ids", "node ids diverge after continuing to edit a restored tree");
    }
    if (s.chance(1, 3)) { int from = s.range(0, ns - 1), to = s.range(0, ns - 1); if (from != to) { a.CopyFromPreviousSample(to, from); b.CopyFromPreviousSample(to, from); m[to] = m[from]; } }
    if (s.chance(1, 3)) { a.AddSamples(1); b.AddSamples(1); m.emplace_back(nt); for (auto& q : m.back()) q.init(dim); }
    cmp("after identical further edits");
  }
}
static pbt::Reg r04("P04", "at least one draw with at least one split", p04);

// continued sampling after a reload (own entry so that both parts get generation time)
template <class LM> static void p04s_run(Src& s, Ctx& c, LM make, int leaf) {
  int n = s.range(4, 20), p = s.range(1, 3), nt = s.range(1, 4), steps1 = s.range(1, 5), steps2 = s.range(1, 5); int init = s.range(0, 3); if (init == 3) steps1 = 0; bool pre = init >= 2; int dim = leaf == 2 ? 2 : 1;
  DV X(n * p), B(n * dim), y(n); bool coarse = s.chance(1, 3); std::vector<FeatureType> ft(p);
  for (int j = 0; j < p; j++) { ft[j] = s.chance(1, 4) ? (s.chance(1, 2) ? kOrderedCategorical : kUnorderedCategorical) : kNumeric; for (int i = 0; i < n; i++) X[i * p + j] = ft[j] != kNumeric ? s.range(0, 3) : coarse ? s.range(0, 5) : s.normal(); }
  for (auto& v : B) v = s.num(1); for (auto& v : y) v = s.normal();
  if (leaf == 2) { double mu = 0; for (double v : y) mu += v / n; for (auto& v : y) v -= mu; }   // this leaf model insists on centred outcomes
  std::vector<int> plan; for (int k = 0; k < steps1 + steps2; k++) plan.push_back(s.chance(1, 3)); uint32_t seed = s.seed32(); DV w(p, 1. / p);
  std::string how; std::vector<std::string> txt; std::vector<DV> preds; std::vector<DV> res;
  for (int copy = 0; copy < 2; copy++) {
    ForestDataset ds; ds.AddCovariates(X.data(), n, p, true); if (leaf) ds.AddBasis(B.data(), n, dim, true);
    ColumnVector r(y.data(), n); ForestTracker tr(ds.GetCovariates(), ft, nt, n); TreePrior pr(0.95, 1.25, 1);
    auto fc = std::make_unique<ForestContainer>(nt, dim, leaf == 0); std::mt19937 gen(seed);
    auto model = make();
    MCMCForestSampler<decltype(model)> mc; GFRForestSampler<decltype(model)> gf(10);
    if (pre) { if (dim == 1) fc->InitializeRoot(0.25); else { DV v0(dim, 0.25); fc->InitializeRoot(v0); } }
    for (int k = 0; k < steps1 + steps2; k++) {
      if (k == steps1 && copy == 1) { auto f2 = std::make_unique<ForestContainer>(nt, dim, leaf == 0); roundtrip(*fc, *f2, s, how); fc = std::move(f2); }
      if (plan[k]) gf.SampleOneIter(tr, *fc, model, ds, r, pr, gen, w, 1.0, ft, pre); else mc.SampleOneIter(tr, *fc, model, ds, r, pr, gen, w, 1.0, pre);
    }
    preds.push_back(fc->Predict(ds)); res.push_back(DV(r.GetData().data(), r.GetData().data() + n));
    if (copy == 0) { bool sp = false; for (int i = 0; i < fc->NumSamples(); i++) sp |= !fc->AllRoots(i); c.nontrivial = sp; }
  }
  if (c.describe) c.desc << "leaf model " << leaf << " n=" << n << " p=" << p << " trees=" << nt << " steps " << steps1 << " + reload(" << how << ") + " << steps2;
  PBT_CHECK(c, bits(preds[0], preds[1]) && bits(res[0], res[1]), "resume", "sampling continued from a reloaded container differs from sampling continued without the reload");
}
static void p04s(Src& s, Ctx& c) {
  int leaf = s.range(0, 2);
  if (leaf == 0) p04s_run(s, c, [] { return GaussianConstantLeafModel(0.5); }, 0);
  else if (leaf == 1) p04s_run(s, c, [] { return GaussianUnivariateRegressionLeafModel(0.5); }, 1);
  else p04s_run(s, c, [] { Eigen::MatrixXd S(2, 2); S << 0.5, 0.1, 0.1, 0.4; return GaussianMultivariateRegressionLeafModel(S); }, 2);
}
static pbt::Reg r04s("P04s", "at least one draw with at least one split", p04s);
// ---------------------------------------------------------------- P24 (C++ interface)
static void p24c(Src& s, Ctx& c) {
  GenCfg g = gen_cfg(s); int dim = s.range(1, 2), nt = s.chance(1, 20) ? s.range(5, 80) : s.range(1, 4), ne = s.range(1, 2); std::vector<std::unique_ptr<TreeEnsemble>> es; std::vector<std::vector<RTree>> m(ne, std::vector<RTree>(nt)); bool split = false; std::string hist;
  for (int a = 0; a < ne; a++) { es.push_back(std::make_unique<TreeEnsemble>(nt, dim, dim == 1)); for (int j = 0; j < nt; j++) { m[a][j].init(dim); grow_random(*es[a]->GetTree(j), m[a][j], s, g, c, s.range(0, 8)); split |= m[a][j].leaves().size() > 1; } }
  ForestKernel k0; bool big = false;
  for (int step = s.range(1, 4); step > 0; step--) {
    int a = s.range(0, ne - 1), n = s.pick<int>({1, 2, 3, 7, 16}), q = s.pick<int>({0, 1, 2, 5, 12}); Eigen::MatrixXd A(n, g.p), B(q, g.p); ForestKernel k1; ForestKernel& k = s.chance(1, 2) ? k0 : k1;
    auto fill = [&](Eigen::MatrixXd& M) { for (int i = 0; i < M.rows(); i++) for (int j = 0; j < g.p; j++) M(i, j) = g.catcol[j] ? s.range(-1, 5) : s.chance(1, 12) ? NAN : s.num(2); };
    fill(A); fill(B); bool map = s.chance(1, 2), test = q > 0; int how = (int)s.raw(3); KernelMatrixType Am(A.data(), n, g.p), Bm(B.data(), q, g.p); auto& e = *es[a]; big |= n > 1 && (!test || q > 1);
    hist += std::string(how == 0 ? "indices" : how == 1 ? "kernel" : "external") + (map ? " map" : " matrix") + " n=" + std::to_string(n) + " m=" + std::to_string(q) + "; ";
    Eigen::MatrixXd K = Eigen::MatrixXd::Constant(n, n, -3), KT = Eigen::MatrixXd::Constant(q, n, -3), KQ = Eigen::MatrixXd::Constant(q, q, -3); KernelMatrixType Km(K.data(), n, n), KTm(KT.data(), q, n), KQm(KQ.data(), q, q);
    if (how == 0) { if (map) { if (test) k.ComputeLeafIndices(Am, Bm, e); else k.ComputeLeafIndices(Am, e); } else { if (test) k.ComputeLeafIndices(A, B, e); else k.ComputeLeafIndices(A, e); } }
    else if (how == 1) { if (map) { if (test) k.ComputeKernel(Am, Bm, e); else k.ComputeKernel(Am, e); } else { if (test) k.ComputeKernel(A, B, e); else k.ComputeKernel(A, e); }
      K = k.GetTrainKernel(); if (test) { KT = k.GetTestTrainKernel(); KQ = k.GetTestKernel(); } }
    else { if (map) { if (test) k.ComputeKernelExternal(Am, Bm, e, Km, KTm, KQm); else k.ComputeKernelExternal(Am, e, Km); } else { if (test) k.ComputeKernelExternal(A, B, e, Km, KTm, KQm); else k.ComputeKernelExternal(A, e, Km); } }
    auto nodes = [&](Eigen::MatrixXd& M, int j) { std::vector<int> v(M.rows()); for (int i = 0; i < M.rows(); i++) v[i] = m[a][j].route([&](int f) { return M(i, f); }); return v; };
    PBT_CHECK(c, k.HasTrainLeafIndices() && k.NumTrees() == nt && k.NumTrainObservations() == n, "sizes", "train sizes after " << hist);
    if (test) PBT_CHECK(c, k.HasTestLeafIndices() && k.NumTestObservations() == q, "sizes", "test sizes after " << hist);
    auto& ti = k.GetTrainLeafIndices(); PBT_CHECK(c, (int)ti.size() == n * nt, "sizes", ti.size() << " train leaf indices"); std::vector<int32_t> qi; if (test) { qi = k.GetTestLeafIndices(); PBT_CHECK(c, (int)qi.size() == q * nt, "sizes", qi.size() << " test leaf indices"); }
    Eigen::MatrixXd EK = Eigen::MatrixXd::Zero(n, n), EKT = Eigen::MatrixXd::Zero(q, n), EKQ = Eigen::MatrixXd::Zero(q, q); int off = 0;
    for (int j = 0; j < nt; j++) {
      auto va = nodes(A, j), vb = nodes(B, j); int L = m[a][j].leaves().size(); std::map<int, int> seen; std::set<int> used;
      auto one = [&](int node, int idx, const char* w, int i) {
        PBT_CHECK(c, idx >= off && idx < off + L, "range", w << " row " << i << " tree " << j << ": index " << idx << " outside [" << off << "," << off + L << ") after " << hist);
        auto f = seen.find(node); if (f == seen.end()) { PBT_CHECK(c, !used.count(idx), "partition", "tree " << j << ": two leaves share index " << idx << " after " << hist); used.insert(idx); seen[node] = idx; } else PBT_CHECK(c, f->second == idx, "partition", "tree " << j << ": one leaf has indices " << f->second << " and " << idx << " after " << hist); };
      for (int i = 0; i < n; i++) one(va[i], ti[j * n + i], "train", i);
      for (int i = 0; i < q && test; i++) one(vb[i], qi[j * q + i], "test", i);
      for (int i = 0; i < n; i++) for (int l = 0; l < n; l++) EK(i, l) += va[i] == va[l];
      for (int i = 0; i < q; i++) { for (int l = 0; l < n; l++) EKT(i, l) += vb[i] == va[l]; for (int l = 0; l < q; l++) EKQ(i, l) += vb[i] == vb[l]; }
      off += L;
    }
    if (how) { PBT_CHECK(c, K.rows() == n && K.cols() == n && K == EK, "kernel-train", "train kernel differs from the numbers of shared leaves after " << hist); if (test) { PBT_CHECK(c, KT.rows() == q && KT.cols() == n && KT == EKT, "kernel-test-train", "test/train kernel after " << hist); PBT_CHECK(c, KQ.rows() == q && KQ.cols() == q && KQ == EKQ, "kernel-test", "test kernel after " << hist); } }
    if (s.chance(1, 3)) { int b = s.range(0, ne - 1), j = s.range(0, nt - 1); random_edit(*es[b]->GetTree(j), m[b][j], s, g, c); hist += "edit; "; }
    // leaf indices straight from the ensemble
    if (s.chance(1, 2)) { ForestDataset ds; ds.AddCovariates(A.data(), n, g.p, false); auto v = es[a]->PredictLeafIndices(&ds); PBT_CHECK(c, (int)v.size() == n * nt, "sizes", "PredictLeafIndices size"); int o2 = 0;
      for (int j = 0; j < nt; j++) { auto w = nodes(A, j); int L = m[a][j].leaves().size(); for (int i = 0; i < n; i++) { PBT_CHECK(c, v[j * n + i] >= o2 && v[j * n + i] < o2 + L, "range", "PredictLeafIndices"); for (int l = 0; l < i; l++) PBT_CHECK(c, (w[i] == w[l]) == (v[j * n + i] == v[j * n + l]), "partition", "PredictLeafIndices tree " << j); } o2 += L; } }
  }
  c.nontrivial = split && big; if (c.describe) c.desc << hist << "first tree " << show(m[0][0]);
}
static pbt::Reg r24("P24c", "some tree has a split and a step has at least two rows in each set", p24c);
PBT_MAIN
