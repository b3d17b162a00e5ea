// Reference model of a tree / forest, independent of the library's storage.
#pragma once
#include "pbt.h"
#include <stochtree/container.h>
#include <stochtree/data.h>
#include <stochtree/ensemble.h>
#include <stochtree/tree.h>
#include <memory>
using namespace StochTree;
using pbt::Ctx; using pbt::Src;

typedef std::vector<double> DV;
struct RNode { int parent = -1, left = -1, right = -1; bool cat = false; int feat = -1; double thr = 0; std::vector<uint32_t> cats; DV leaf; };
struct RTree {
  std::map<int, RNode> n; int dim = 1;
  void init(int d) { n.clear(); dim = d; RNode r; r.leaf = DV(d, 0.); n[0] = r; }
  bool is_leaf(int i) const { return n.at(i).left < 0; }
  bool is_lp(int i) const { return !is_leaf(i) && is_leaf(n.at(i).left) && is_leaf(n.at(i).right); }
  std::vector<int> leaves() const { std::vector<int> v; for (auto& p : n) if (is_leaf(p.first)) v.push_back(p.first); return v; }
  std::vector<int> internals() const { std::vector<int> v; for (auto& p : n) if (!is_leaf(p.first)) v.push_back(p.first); return v; }
  std::vector<int> leaf_parents() const { std::vector<int> v; for (auto& p : n) if (is_lp(p.first)) v.push_back(p.first); return v; }
  int depth(int i) const { int d = 0; while (n.at(i).parent >= 0) { i = n.at(i).parent; d++; } return d; }
  bool left_of(const RNode& nd, double x) const {
    if (std::isnan(x)) return true;
    if (!nd.cat) return x <= nd.thr;
    if (x < 0 || x > 4294967295.0) return false;
    for (auto c : nd.cats) if ((double)c == std::floor(x)) return true;
    return false;
  }
  // rows whose path from the root enters node i (or the leaf reached)
  int route(const std::function<double(int)>& x) const { int i = 0; while (!is_leaf(i)) { auto& nd = n.at(i); i = left_of(nd, x(nd.feat)) ? nd.left : nd.right; } return i; }
  bool passes(int node, const std::function<double(int)>& x) const { int i = 0; for (;;) { if (i == node) return true; if (is_leaf(i)) return false; auto& nd = n.at(i); i = left_of(nd, x(nd.feat)) ? nd.left : nd.right; } }
  void drop(int i) { if (!is_leaf(i)) { int l = n[i].left, r = n[i].right; drop(l); drop(r); n.erase(l); n.erase(r); n[i].left = n[i].right = -1; } }
};

static std::string show(const RTree& t, int i = 0) {
  std::ostringstream o; auto& nd = t.n.at(i);
  if (t.is_leaf(i)) { o << "["; for (size_t k = 0; k < nd.leaf.size(); k++) o << (k ? "," : "") << nd.leaf[k]; o << "]"; return o.str(); }
  o << "(x" << nd.feat; if (nd.cat) { o << " in {"; for (auto c : nd.cats) o << c << " "; o << "}"; } else o << "<=" << nd.thr;
  o << " ? " << show(t, nd.left) << " : " << show(t, nd.right) << ")"; return o.str();
}
template <class A, class B> static bool same_set(const A& a, const B& b) { std::vector<int> x(a.begin(), a.end()), y(b.begin(), b.end()); std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end()); return x == y; }

static inline bool approx_sq(double got, double want) { return got == want || std::fabs(got - want) <= 1e-9 * (want + 1e-300); }   // == covers overflow to infinity
static void check_tree(Tree& t, const RTree& m, Ctx& c, const std::string& after) {
  auto lv = m.leaves(), in = m.internals(), lp = m.leaf_parents();
  PBT_CHECK(c, t.NumValidNodes() == (int)m.n.size(), "valid-nodes", after << ": NumValidNodes " << t.NumValidNodes() << " expected " << m.n.size());
  PBT_CHECK(c, same_set(t.GetLeaves(), lv), "leaf-list", after << ": leaf list wrong for " << show(m));
  PBT_CHECK(c, same_set(t.GetInternalNodes(), in), "internal-list", after << ": internal node list wrong for " << show(m));
  PBT_CHECK(c, same_set(t.GetLeafParents(), lp), "leafparent-list", after << ": leaf parent list wrong for " << show(m));
  PBT_CHECK(c, t.NumLeaves() == (int)lv.size() && t.NumLeafParents() == (int)lp.size() && t.NumSplitNodes() == (int)in.size(), "counts", after << ": leaf/leaf-parent/split counts wrong");
  PBT_CHECK(c, t.IsRoot() == (m.n.size() == 1), "isroot", after << ": IsRoot wrong");
  PBT_CHECK(c, t.OutputDimension() == m.dim && t.HasVectorOutput() == (m.dim > 1), "dim", after << ": output dimension");
  double ss = 0; bool anycat = false;
  for (auto& p : m.n) {
    int i = p.first; auto& nd = p.second;
    PBT_CHECK(c, t.IsLeaf(i) == (nd.left < 0), "isleaf", after << ": IsLeaf(" << i << ")");
    PBT_CHECK(c, t.Parent(i) == nd.parent && t.LeftChild(i) == nd.left && t.RightChild(i) == nd.right, "links", after << ": links of node " << i);
    PBT_CHECK(c, t.IsRoot(i) == (i == 0), "isroot", after << ": IsRoot(" << i << ")");
    PBT_CHECK(c, t.IsLeafParent(i) == m.is_lp(i), "isleafparent", after << ": IsLeafParent(" << i << ")");
    PBT_CHECK(c, t.GetDepth(i) == m.depth(i), "depth", after << ": depth of node " << i);
    if (nd.left < 0) {
      PBT_CHECK(c, t.NodeType(i) == TreeNodeType::kLeafNode, "nodetype", after << ": node type of leaf " << i);
      double q = 0;
      for (int k = 0; k < m.dim; k++) { PBT_CHECK(c, t.LeafValue(i, k) == nd.leaf[k], "leaf-value", after << ": leaf " << i << " dim " << k << " is " << t.LeafValue(i, k) << " expected " << nd.leaf[k]); q += nd.leaf[k] * nd.leaf[k]; }
      if (m.dim > 1) PBT_CHECK(c, t.LeafVector(i) == nd.leaf && t.HasLeafVector(i), "leaf-vector", after << ": leaf vector of " << i);
      if (m.dim == 1) PBT_CHECK(c, t.PredictFromNode(i) == nd.leaf[0], "predict-node", after << ": PredictFromNode(" << i << ")");
      PBT_CHECK(c, approx_sq(t.SumSquaredNodeValues(i), q), "sumsq", after << ": SumSquaredNodeValues(" << i << ")");
      ss += q;
    } else {
      PBT_CHECK(c, t.SplitIndex(i) == nd.feat, "split-feature", after << ": split feature of node " << i);
      PBT_CHECK(c, t.NodeType(i) == (nd.cat ? TreeNodeType::kCategoricalSplitNode : TreeNodeType::kNumericalSplitNode), "nodetype", after << ": node type of " << i);
      if (nd.cat) { anycat = true; PBT_CHECK(c, t.CategoryList(i) == nd.cats, "categories", after << ": category list of node " << i); }
      else PBT_CHECK(c, t.Threshold(i) == nd.thr, "threshold", after << ": threshold of node " << i);
    }
  }
  PBT_CHECK(c, approx_sq(t.SumSquaredLeafValues(), ss), "sumsq", after << ": SumSquaredLeafValues");
  if (anycat) PBT_CHECK(c, t.HasCategoricalSplit(), "has-cat", after << ": HasCategoricalSplit false");
  if (m.dim == 1) {
    std::vector<int32_t> idx(lv.begin(), lv.end()); DV want; for (int i : lv) want.push_back(m.n.at(i).leaf[0]);
    PBT_CHECK(c, t.PredictFromNodes(idx) == want, "predict-nodes", after << ": PredictFromNodes");
    DV got(idx.size(), -77.25); t.InplacePredictFromNodes(got, idx);
    PBT_CHECK(c, got == want, "predict-nodes-inplace", after << ": InplacePredictFromNodes left the result vector unchanged or wrong");
  }
}

struct GenCfg { int p = 3; std::vector<bool> catcol; double leafscale = 5; bool extreme = false; bool bigcat = false; };
static double gen_leaf(Src& s, const GenCfg& g) {
  if (g.extreme) switch (s.raw(6)) { case 0: return 1e300; case 1: return -4.9e-324; case 2: return 0.1 + 0.2; case 3: return -0.0; case 4: { uint64_t b = (s.raw(1ULL << 32) << 32) | s.raw(1ULL << 32); double d; memcpy(&d, &b, 8); return std::isfinite(d) ? d : 1.5; } default: break; }
  return s.num(g.leafscale);
}
static double gen_thr(Src& s, const GenCfg& g) {
  if (g.extreme) switch (s.raw(6)) { case 0: return std::numeric_limits<double>::max(); case 1: return std::numeric_limits<double>::denorm_min(); case 2: return 1. / 3; default: break; }
  return s.num(2);
}
static std::vector<uint32_t> gen_cats(Src& s, const GenCfg& g) {
  std::vector<uint32_t> v; for (uint32_t k = 0; k < 5; k++) if (s.chance(1, 2)) v.push_back(k);
  if (g.bigcat && s.chance(1, 6)) v.push_back(s.pick<uint32_t>({100u, 70000u, 4294967295u, 2147483648u}));
  if (g.bigcat && s.chance(1, 8)) { int k = s.chance(1, 5) ? s.range(31, 150) : s.range(1, 30); std::set<uint32_t> u; for (int i = 0; i < k; i++) u.insert((uint32_t)s.raw(s.pick<uint64_t>({12, 300, 70000, 1ULL << 32}))); v.assign(u.begin(), u.end()); if (s.chance(1, 3)) std::reverse(v.begin(), v.end()); }
  return v;
}
static DV gen_leafvec(Src& s, const GenCfg& g, int d) { DV v(d); for (auto& x : v) x = gen_leaf(s, g); return v; }

struct Split { bool cat = false; int feat = 0; double thr = 0; std::vector<uint32_t> cats; };
static Split gen_split(Src& s, const GenCfg& g) {
  Split x; x.feat = s.range(0, g.p - 1); x.cat = !g.catcol.empty() && g.catcol[x.feat];
  if (x.cat) x.cats = gen_cats(s, g); else x.thr = gen_thr(s, g);
  return x;
}
static TreeSplit to_split(Split& x) { return x.cat ? TreeSplit(x.cats) : TreeSplit(x.thr); }
// expand leaf nid of t and mirror it in the model; `via` selects the overload
static void do_expand(Tree& t, RTree& m, int nid, Split& x, const DV& a, const DV& b, bool via_treesplit, Ctx& c) {
  std::set<int> live; for (auto& p : m.n) live.insert(p.first);
  TreeSplit ts = to_split(x);
  if (m.dim == 1) { if (via_treesplit) t.ExpandNode(nid, x.feat, ts, a[0], b[0]); else if (x.cat) t.ExpandNode(nid, x.feat, x.cats, a[0], b[0]); else t.ExpandNode(nid, x.feat, x.thr, a[0], b[0]); }
  else { if (via_treesplit) t.ExpandNode(nid, x.feat, ts, a, b); else if (x.cat) t.ExpandNode(nid, x.feat, x.cats, a, b); else t.ExpandNode(nid, x.feat, x.thr, a, b); }
  int l = t.LeftChild(nid), r = t.RightChild(nid);
  PBT_CHECK(c, l >= 0 && r >= 0 && l != r && !live.count(l) && !live.count(r), "alias", "expand(" << nid << ") produced child ids " << l << "," << r << " that alias live nodes or are invalid");
  auto& nd = m.n[nid]; nd.left = l; nd.right = r; nd.cat = x.cat; nd.feat = x.feat; nd.thr = x.thr; nd.cats = x.cats;
  RNode L, R; L.parent = R.parent = nid; L.leaf = a; R.leaf = b; m.n[l] = L; m.n[r] = R;
}
static void do_collapse(Tree& t, RTree& m, int nid, const DV& v, bool change) {
  if (m.dim == 1) { if (change) t.ChangeToLeaf(nid, v[0]); else t.CollapseToLeaf(nid, v[0]); }
  else { if (change) t.ChangeToLeaf(nid, v); else t.CollapseToLeaf(nid, v); }
  m.drop(nid); m.n[nid].leaf = v;
}
static void do_setleaf(Tree& t, RTree& m, int nid, const DV& v) { if (m.dim == 1) t.SetLeaf(nid, v[0]); else t.SetLeafVector(nid, v); m.n[nid].leaf = v; }

// random edit of a tree/model pair; returns a label
static std::string random_edit(Tree& t, RTree& m, Src& s, const GenCfg& g, Ctx& c) {
  std::ostringstream o; auto in = m.internals(); int k = (int)s.raw(10);
  if (k <= 4 || in.empty()) {
    int nid = s.pick(m.leaves());
    if (k == 4 && s.chance(1, 2)) { do_setleaf(t, m, nid, gen_leafvec(s, g, m.dim)); o << "setleaf " << nid; return o.str(); }
    Split x = gen_split(s, g); DV a = gen_leafvec(s, g, m.dim), b = gen_leafvec(s, g, m.dim); bool via = s.chance(1, 2);
    do_expand(t, m, nid, x, a, b, via, c); o << "expand " << nid; return o.str();
  }
  if (k <= 6) { int nid = s.pick(m.leaf_parents()); do_collapse(t, m, nid, gen_leafvec(s, g, m.dim), s.chance(1, 2)); o << "prune " << nid; return o.str(); }
  if (k == 7) { int nid = s.pick(in); do_collapse(t, m, nid, gen_leafvec(s, g, m.dim), false); o << "collapse " << nid; return o.str(); }
  if (k == 8) { int nid = s.pick(m.leaves()); do_setleaf(t, m, nid, gen_leafvec(s, g, m.dim)); o << "setleaf " << nid; return o.str(); }
  int nid = s.pick(in); Split x = gen_split(s, g);
  if (x.cat) t.SetCategoricalSplit(nid, x.feat, x.cats); else t.SetNumericSplit(nid, x.feat, x.thr);
  auto& nd = m.n[nid]; nd.cat = x.cat; nd.feat = x.feat; nd.thr = x.thr; nd.cats = x.cats; o << "resplit " << nid; return o.str();
}
static void grow_random(Tree& t, RTree& m, Src& s, const GenCfg& g, Ctx& c, int edits) { for (int i = 0; i < edits; i++) random_edit(t, m, s, g, c); }
// a long comb: `len` splits, each on the child of the previous one that keeps receiving rows (deep trees, node ids beyond one byte)
static void grow_chain(Tree& t, RTree& m, Src& s, const GenCfg& g, Ctx& c, int len, const std::function<void(int, Split&, int, int)>& after = nullptr) {
  int nid = s.pick(m.leaves()); bool right = s.chance(1, 2); double top = s.num(1); GenCfg h = g; h.bigcat = false;
  for (int i = 0; i < len; i++) {
    Split x; x.feat = s.range(0, g.p - 1); x.cat = !g.catcol.empty() && g.catcol[x.feat];
    if (x.cat) { x.cats = right ? std::vector<uint32_t>{(uint32_t)s.range(0, 9)} : gen_cats(s, h); } else x.thr = (right ? top - 2 : top + 2) + (right ? 1 : -1) * 1.5 * i / len;
    do_expand(t, m, nid, x, gen_leafvec(s, g, m.dim), gen_leafvec(s, g, m.dim), s.chance(1, 2), c);
    int l = m.n[nid].left, r = m.n[nid].right; if (after) after(nid, x, l, r); nid = right ? r : l;
  }
}
static int gen_chain_len(Src& s) { return s.pick<int>({9, 18, 34, 70, 140}); }
