// P15 (random-effect bookkeeping), P16 (data containers), P26 (delimited files).
#include "world.h"
#include <stochtree/io.h>
#include <stochtree/random_effects.h>
#include <sys/stat.h>

typedef std::vector<int32_t> IV;
static std::string show(const IV& v) { std::ostringstream o; for (size_t i = 0; i < v.size() && i < 16; i++) o << v[i] << ","; return o.str(); }
template <class J> static J reparse(const J& j) { return J::parse(j.dump()); }

// ---------------------------------------------------------------- P15
static int32_t gen_label(Src& s) { switch (s.raw(5)) { case 0: return s.range(0, 4); case 1: return s.range(-6, 6); case 2: return s.range(-1000000, 1000000); case 3: return s.pick<int32_t>({INT32_MAX, INT32_MIN, INT32_MAX - 1, INT32_MIN + 1, 65536, -65536}); default: return 10 * s.range(1, 9); } }
struct RDraw { DV alpha, xi, sig; };
static void p15(Src& s, Ctx& c) {
  bool manyg = s.chance(1, 20); int k = manyg ? s.range(20, 300) : s.range(1, 7), n = manyg ? s.range(40, 400) : s.range(1, pbt::tier() ? 60 : 24), nc = s.range(1, 3); IV pool; for (int i = 0; i < k; i++) pool.push_back(gen_label(s)); IV lab(n); for (auto& l : lab) l = s.pick(pool); if (s.chance(1, 3)) lab.push_back(gen_label(s)); n = lab.size();
  std::set<int32_t> U(lab.begin(), lab.end()); int ng = U.size(); IV lab0 = lab; std::vector<std::string> hist;
  if (c.describe) c.desc << "n=" << n << " components=" << nc << " labels=" << show(lab) << " ";
  RandomEffectsTracker tr(lab); lab.assign(n, 77);   // the tracker keeps its own copy
  PBT_CHECK(c, tr.NumCategories() == ng, "categories", "NumCategories " << tr.NumCategories() << " for " << ng << " labels");
  std::map<int32_t, int> num; std::set<int> nums;
  CategorySampleTracker& ct = *tr.GetCategorySampleTracker(); PBT_CHECK(c, (int)ct.indices_.size() == n, "indices", "index vector size");
  auto check_groups = [&] {
    num.clear(); nums.clear(); std::vector<char> seen(n, 0);
    for (int32_t l : U) {
      int g = tr.CategoryNumber(l); PBT_CHECK(c, g >= 0 && g < ng && nums.insert(g).second, "number", "label " << l << " has internal number " << g << " of " << ng); num[l] = g;
      std::set<int> R; for (int i = 0; i < n; i++) if (lab0[i] == l) R.insert(i);
      auto same = [&](const std::vector<data_size_t>& v, const char* w) { PBT_CHECK(c, v.size() == R.size() && std::set<int>(v.begin(), v.end()) == R, "rows", w << " of label " << l << " has " << v.size() << " rows, expected " << R.size()); };
      same(tr.NodeIndices(l), "NodeIndices"); same(tr.NodeIndicesInternalIndex(g), "NodeIndicesInternalIndex"); same(ct.NodeIndices(l), "tracker NodeIndices");
      PBT_CHECK(c, tr.CategorySize(l) == (int)R.size() && tr.CategoryEnd(l) - tr.CategoryBegin(l) == (int)R.size(), "size", "label " << l << " size " << tr.CategorySize(l) << " begin " << tr.CategoryBegin(l) << " end " << tr.CategoryEnd(l) << " rows " << R.size());
      int b = tr.CategoryBegin(l), e = tr.CategoryEnd(l); PBT_CHECK(c, b >= 0 && e <= n, "range", "label " << l << " range " << b << ".." << e); same(std::vector<data_size_t>(ct.indices_.begin() + b, ct.indices_.begin() + e), "index slice");
      for (int i = b; i < e; i++) { PBT_CHECK(c, !seen[ct.indices_[i]], "overlap", "row in two groups"); seen[ct.indices_[i]] = 1; }
    }
    for (int i = 0; i < n; i++) PBT_CHECK(c, seen[i], "partition", "row " << i << " in no group");
    auto& m = tr.GetLabelMap(); PBT_CHECK(c, (int)m.size() == ng, "labelmap", "label map has " << m.size() << " entries"); for (auto& q : m) PBT_CHECK(c, num.count(q.first) && num[q.first] == q.second, "labelmap", "label map entry " << q.first);
    auto& u = tr.GetUniqueGroupIds(); PBT_CHECK(c, (int)u.size() == ng, "unique", "unique ids"); for (int g = 0; g < ng; g++) PBT_CHECK(c, num.count(u[g]) && num[u[g]] == g, "unique", "unique id " << g << " is " << u[g]);
  };
  check_groups();
  for (int i = 0; i < n; i++) PBT_CHECK(c, tr.GetCategoryId(i) == lab0[i], "rowlabel", "row " << i << " label " << tr.GetCategoryId(i));
  // mapper edits are local to the mapper's copy
  { SampleCategoryMapper cp(*tr.GetSampleCategoryMapper()); int i = s.range(0, n - 1), v = gen_label(s); cp.SetCategoryId(i, v); for (int j = 0; j < n; j++) PBT_CHECK(c, cp.GetCategoryId(j) == (j == i ? v : lab0[j]) && tr.GetCategoryId(j) == lab0[j], "setlabel", "SetCategoryId(" << i << "," << v << ") gives " << cp.GetCategoryId(j) << " at row " << j); PBT_CHECK(c, cp.NumObservations() == n, "setlabel", "size"); }
  // a model, draws, predictions, archives
  MultivariateRegressionRandomEffectsModel model(nc, ng); std::vector<RDraw> D; auto fc = std::make_unique<RandomEffectsContainer>(nc, ng); auto lm = std::make_unique<LabelMapper>(tr.GetLabelMap()); std::map<int32_t, int> frozen = num;
  std::mt19937 gen(s.seed32()); RandomEffectsDataset ds; DV Z(n * nc); for (auto& z : Z) z = s.num(2); ds.AddBasis(Z.data(), n, nc, true); IV labc = lab0; ds.AddGroupLabels(labc); labc.assign(n, 5); DV y0(n); for (auto& v : y0) v = s.num(2);
  ColumnVector resid(y0.data(), n); Mat Wm = Mat::Identity(nc, nc) * 2; model.SetWorkingParameterCovariance(Wm); model.SetVariancePriorShape(2); model.SetVariancePriorScale(1.5); bool sampled = false; DV fit(n, 0.);
  auto set_random = [&] { Vec a(nc); for (int i = 0; i < nc; i++) a(i) = s.num(2); Mat X(nc, ng); for (int i = 0; i < nc; i++) for (int g = 0; g < ng; g++) X(i, g) = s.num(2); Mat C = Mat::Zero(nc, nc); for (int i = 0; i < nc; i++) C(i, i) = s.range(1, 9) / 4.; model.SetWorkingParameter(a); model.SetGroupParameters(X); model.SetGroupParameterCovariance(C); };
  set_random();
  int ops = s.range(1, pbt::tier() ? 24 : 10), reloads = 0;
  auto predict_check = [&](RandomEffectsContainer& f, LabelMapper& L, const char* w) {
    int m = s.range(1, 6); IV tl(m); std::vector<int32_t> us(U.begin(), U.end()); for (auto& l : tl) l = s.pick(us); DV B(m * nc); for (auto& b : B) b = s.num(2); RandomEffectsDataset q; q.AddBasis(B.data(), m, nc, true); q.AddGroupLabels(tl);
    PBT_CHECK(c, f.NumSamples() == (int)D.size() && f.NumComponents() == nc && f.NumGroups() == ng, "container", w << ": counts"); DV out(m * D.size(), -7); f.Predict(q, L, out);
    for (size_t d = 0; d < D.size(); d++) for (int i = 0; i < m; i++) { double e = 0, mag = 0; for (int j = 0; j < nc; j++) { double t = B[i * nc + j] * D[d].alpha[j] * D[d].xi[frozen.at(tl[i]) * nc + j]; e += t; mag += std::fabs(t); } PBT_CHECK(c, std::fabs(out[d * m + i] - e) <= 1e-10 * (mag + 1e-9), "predict", w << ": draw " << d << " row " << i << " label " << tl[i] << " predicts " << out[d * m + i] << " expected " << e); }
    for (size_t d = 0; d < D.size(); d++) for (int j = 0; j < nc; j++) { PBT_CHECK(c, f.GetAlpha().at(d * nc + j) == D[d].alpha[j] && f.GetSigma().at(d * nc + j) == D[d].sig[j], "stored", w << ": working parameter or variance of draw " << d); for (int g = 0; g < ng; g++) { size_t o = d * ng * nc + g * nc + j; PBT_CHECK(c, f.GetXi().at(o) == D[d].xi[g * nc + j] && std::fabs(f.GetBeta().at(o) - D[d].xi[g * nc + j] * D[d].alpha[j]) <= 1e-12 * std::fabs(f.GetBeta()[o]), "stored", w << ": group parameter of draw " << d << " group " << g); } }
    PBT_CHECK(c, f.GetAlpha().size() == D.size() * nc && f.GetBeta().size() == D.size() * nc * ng && f.GetXi().size() == D.size() * nc * ng && f.GetSigma().size() == D.size() * nc, "stored", w << ": array sizes");
    for (int32_t l : U) PBT_CHECK(c, L.ContainsLabel(l) && L.CategoryNumber(l) == frozen.at(l), "label", w << ": label " << l); auto& K = L.Keys(); PBT_CHECK(c, std::set<int32_t>(K.begin(), K.end()) == U && K.size() == U.size() && L.Map().size() == U.size(), "label", w << ": key list");
    int32_t other = gen_label(s); PBT_CHECK(c, L.ContainsLabel(other) == (U.count(other) > 0), "label", w << ": ContainsLabel(" << other << ")");
  };
  for (int o = 0; o < ops; o++) switch (s.raw(6)) {
    case 0: case 1: { fc->AddSample(model); RDraw d; for (int j = 0; j < nc; j++) { d.alpha.push_back(model.GetWorkingParameter()(j)); d.sig.push_back(model.GetGroupParameterCovariance()(j, j)); } for (int g = 0; g < ng; g++) for (int j = 0; j < nc; j++) d.xi.push_back(model.GetGroupParameters()(j, g)); D.push_back(d); if (c.describe) c.desc << "store; "; break; }
    case 2: if (c.describe) c.desc << "set; "; if (!sampled) set_random(); else { int g = s.range(0, ng - 1); Vec v(nc); for (int j = 0; j < nc; j++) v(j) = s.num(2); model.SetGroupParameter(v, g); } break;
    case 3: { if (c.describe) c.desc << "sample; "; model.SampleRandomEffects(ds, resid, tr, 0.7, gen); sampled = true;
      DV p = model.Predict(ds, tr); for (int i = 0; i < n; i++) { double e = 0, mag = 0; for (int j = 0; j < nc; j++) { double t = Z[i * nc + j] * model.GetWorkingParameter()(j) * model.GetGroupParameters()(j, num.at(lab0[i])); e += t; mag += std::fabs(t); } PBT_CHECK(c, std::fabs(p[i] - e) <= 1e-10 * (mag + 1e-9) && std::fabs(tr.GetPrediction(i) - e) <= 1e-10 * (mag + 1e-9), "modelpred", "row " << i << " predicts " << p[i] << " / stored " << tr.GetPrediction(i) << " expected " << e); PBT_CHECK(c, std::fabs(resid.GetElement(i) + e - y0[i]) <= 1e-8 * (mag + std::fabs(y0[i]) + 1), "residual", "row " << i << " residual " << resid.GetElement(i) << " + random effect " << e << " is not the outcome " << y0[i]); } break; }
    case 4: { reloads++; bool used = s.chance(1, 2); if (c.describe) c.desc << (used ? "reload into used; " : "reload; "); auto j1 = reparse(fc->to_json()), j2 = reparse(lm->to_json()); auto f2 = std::make_unique<RandomEffectsContainer>(); auto l2 = std::make_unique<LabelMapper>();
      if (used) { int oc = s.range(1, 3), og = s.range(1, 4); f2 = std::make_unique<RandomEffectsContainer>(oc, og); MultivariateRegressionRandomEffectsModel om(oc, og); Vec a = Vec::Ones(oc); Mat X = Mat::Ones(oc, og); om.SetWorkingParameter(a); om.SetGroupParameters(X); om.SetGroupParameterCovariance(X = Mat::Identity(oc, oc)); for (int q = s.range(0, 3); q > 0; q--) f2->AddSample(om); std::map<int32_t, int32_t> mm; for (int q = 0; q < og; q++) mm[gen_label(s)] = q + 3; l2 = std::make_unique<LabelMapper>(mm); }
      f2->from_json(j1); l2->from_json(j2); fc = std::move(f2); lm = std::move(l2); predict_check(*fc, *lm, "after reload"); break; }
    case 5: if (s.chance(1, 6)) { if (c.describe) c.desc << "reset; "; fc->Reset(); PBT_CHECK(c, fc->NumSamples() == 0 && fc->GetBeta().empty() && fc->GetAlpha().empty() && fc->GetXi().empty() && fc->GetSigma().empty(), "reset", "Reset"); D.clear(); fc = std::make_unique<RandomEffectsContainer>(nc, ng); } else predict_check(*fc, *lm, "predict"); break;
  }
  predict_check(*fc, *lm, "final"); check_groups();
  c.nontrivial = ng >= 2 && n >= 3 && D.size() >= 2; c.count("reloads", reloads); c.count("sampled histories", sampled); c.count("singleton groups", std::any_of(U.begin(), U.end(), [&](int32_t l) { return std::count(lab0.begin(), lab0.end(), l) == 1; }));
}
static pbt::Reg r15("P15", ">=3 rows, >=2 groups and >=2 retained draws", p15);

// ---------------------------------------------------------------- P16
struct Block { int n, m; DV v; double at(int i, int j) const { return v[i * m + j]; } };
static Block gen_block(Src& s, int n, int m) { Block b{n, m, DV(n * m)}; for (auto& x : b.v) x = s.chance(1, 12) ? s.pick<double>({NAN, INFINITY, -INFINITY, -0.0, 5e-324, 1.7976931348623157e308}) : s.num(50); return b; }
static bool eqb(double a, double b) { return std::isnan(a) ? std::isnan(b) : a == b && std::signbit(a) == std::signbit(b); }
template <class F> static void feed(const Block& b, bool rm, F f) { DV buf(b.v.size()); for (int i = 0; i < b.n; i++) for (int j = 0; j < b.m; j++) buf[rm ? i * b.m + j : j * b.n + i] = b.at(i, j); f(buf.data()); for (auto& x : buf) x = -999.25; }
static void p16(Src& s, Ctx& c) {
  int n = s.chance(1, 50) ? s.range(100, 1100) : s.range(1, 12), p = s.chance(1, 40) ? s.range(30, 140) : s.range(1, 5), m = s.chance(1, 40) ? s.range(5, 40) : s.range(1, 4); if (n > 12) p = std::min(p, 5); std::vector<Block> bases; Block X = gen_block(s, n, p), B = gen_block(s, n, m), W = gen_block(s, n, 1), Y = gen_block(s, n, 1); bool hb = false, hw = false; ForestDataset ds; ColumnVector y; ColumnMatrix cm; RandomEffectsDataset rd;
  bool rm = s.chance(1, 2); feed(X, rm, [&](double* q) { ds.AddCovariates(q, n, p, rm); }); feed(X, !rm, [&](double* q) { cm = ColumnMatrix(q, n, p, !rm); }); feed(Y, true, [&](double* q) { y = ColumnVector(q, n); });
  if (c.describe) c.desc << "n=" << n << " p=" << p << " basis=" << m << (rm ? " row-major: " : " column-major: ");
  bool rb = false, rw = false; IV gl; int updates = 0, reloads = 0;
  auto verify = [&](const char* w) {
    PBT_CHECK(c, ds.NumObservations() == n && ds.NumCovariates() == p && ds.HasCovariates() && ds.HasBasis() == hb && ds.HasVarWeights() == hw && (!hb || ds.NumBasis() == m), "meta", w << ": counts and flags");
    PBT_CHECK(c, ds.GetCovariates().rows() == n && ds.GetCovariates().cols() == p && (!hb || (ds.GetBasis().rows() == n && ds.GetBasis().cols() == m)) && (!hw || ds.GetVarWeights().size() == n) && y.NumRows() == n && cm.NumRows() == n && cm.NumCols() == p, "shape", w << ": shapes");
    for (int i = 0; i < n; i++) { for (int j = 0; j < p; j++) PBT_CHECK(c, eqb(ds.CovariateValue(i, j), X.at(i, j)) && eqb(ds.GetCovariates()(i, j), X.at(i, j)) && eqb(cm.GetElement(i, j), X.at(i, j)) && eqb(cm.GetData()(i, j), X.at(i, j)), "covariate", w << ": covariate (" << i << "," << j << ") is " << ds.CovariateValue(i, j) << " / " << cm.GetElement(i, j) << ", given " << X.at(i, j));
      if (hb) for (int j = 0; j < m; j++) PBT_CHECK(c, eqb(ds.BasisValue(i, j), B.at(i, j)) && eqb(ds.GetBasis()(i, j), B.at(i, j)), "basis", w << ": basis (" << i << "," << j << ") is " << ds.BasisValue(i, j) << ", given " << B.at(i, j));
      if (hw) PBT_CHECK(c, eqb(ds.VarWeightValue(i), W.v[i]) && eqb(ds.GetVarWeights()(i), W.v[i]), "weight", w << ": weight " << i << " is " << ds.VarWeightValue(i) << ", given " << W.v[i]);
      PBT_CHECK(c, eqb(y.GetElement(i), Y.v[i]) && eqb(y.GetData()(i), Y.v[i]), "outcome", w << ": outcome " << i << " is " << y.GetElement(i) << ", given " << Y.v[i]);
      if (rb) for (int j = 0; j < m; j++) PBT_CHECK(c, eqb(rd.BasisValue(i, j), bases[0].at(i, j)) && eqb(rd.GetBasis()(i, j), bases[0].at(i, j)), "rfx-basis", w << ": random effects basis (" << i << "," << j << ")");
      if (rw) PBT_CHECK(c, eqb(rd.VarWeightValue(i), bases[1].v[i]), "rfx-weight", w << ": random effects weight");
      if (!gl.empty()) PBT_CHECK(c, rd.GroupId(i) == gl[i] && rd.GetGroupLabels()[i] == gl[i], "rfx-label", w << ": group label"); }
    PBT_CHECK(c, rd.HasBasis() == rb && rd.HasVarWeights() == rw && rd.HasGroupLabels() == !gl.empty() && (!rb || rd.NumObservations() == n), "rfx-meta", w << ": random effects flags");
  };
  bases.resize(2); verify("after construction"); int ops = s.range(1, 10);
  for (int o = 0; o < ops; o++) { std::string w; bool r = s.chance(1, 2); const char* lay = r ? " (row-major)" : " (column-major)"; switch (s.raw(9)) {
    case 0: case 1: if (!hb) { B = gen_block(s, n, m); feed(B, r, [&](double* q) { ds.AddBasis(q, n, m, r); }); hb = true; w = std::string("add basis") + lay; } else { B = gen_block(s, n, m); feed(B, r, [&](double* q) { ds.UpdateBasis(q, n, m, r); }); updates++; w = std::string("update basis") + lay; } break;
    case 2: W = gen_block(s, n, 1); feed(W, true, [&](double* q) { ds.AddVarianceWeights(q, n); }); hw = true; w = "weights"; break;
    case 3: n = s.chance(1, 2) ? n : s.range(1, 12); if (n != X.n) { hb = hw = rb = rw = false; gl.clear(); ds = ForestDataset(); rd = RandomEffectsDataset(); Y = gen_block(s, n, 1); feed(Y, true, [&](double* q) { y.LoadData(q, n); }); } X = gen_block(s, n, p); feed(X, r, [&](double* q) { ds.AddCovariates(q, n, p, r); }); feed(X, !r, [&](double* q) { cm.LoadData(q, n, p, !r); }); w = std::string("replace covariates") + lay; reloads++; break;
    case 4: Y = gen_block(s, n, 1); feed(Y, true, [&](double* q) { y.LoadData(q, n); }); w = "replace outcome"; break;
    case 5: { int i = s.range(0, n - 1), j = s.range(0, p - 1); double v = s.num(3); Y.v[i] = v; y.SetElement(i, v); double old = X.at(i, j); cm.SetElement(i, j, v); PBT_CHECK(c, eqb(cm.GetElement(i, j), v) && eqb(ds.CovariateValue(i, j), old), "set", "SetElement"); cm.SetElement(i, j, old); w = "set element"; break; }
    case 6: bases[0] = gen_block(s, n, m); feed(bases[0], r, [&](double* q) { rd.AddBasis(q, n, m, r); }); rb = true; w = std::string("random effects basis") + lay; break;
    case 7: bases[1] = gen_block(s, n, 1); feed(bases[1], true, [&](double* q) { rd.AddVarianceWeights(q, n); }); rw = true; w = "random effects weights"; break;
    case 8: { gl.resize(n); for (auto& l : gl) l = gen_label(s); IV t = gl; rd.AddGroupLabels(t); t.assign(n, 3); w = "group labels"; break; } }
    if (c.describe) c.desc << w << "; "; verify(w.c_str()); }
  c.nontrivial = n >= 2 && p + m >= 3 && (updates || reloads); c.count("basis updates", updates);
}
static pbt::Reg r16("P16", ">=2 rows, several columns and a basis update or replaced covariates", p16);

// ---------------------------------------------------------------- P26
static std::string num_text(Src& s, bool precise, double* v) {
  std::string t; switch (s.raw(precise ? 6 : 3)) {
    case 0: t = std::to_string(s.range(0, 20) - 10); break;
    case 1: { t = std::to_string(s.range(0, 2000) - 1000) + "." + std::to_string(s.raw(1000000)); break; }
    case 2: { char b[40]; snprintf(b, 40, "%.*e", s.range(0, 16), s.normal(3) * std::pow(10., s.range(-30, 30))); t = b; break; }
    case 3: { char b[60]; snprintf(b, 60, "%.17g", s.normal(2)); t = b; break; }
    case 4: t = s.pick<std::string>({"1.7976931348623157e308", "5e-324", "-0.0", "2.2250738585072014E-308", "123456789012345678901234567890", "0.1", "-1e-5", "9007199254740993", "inf", "nan"}); break;
    default: { uint64_t bits = (s.raw(1ULL << 32) << 32) | s.raw(1ULL << 32); double d; memcpy(&d, &bits, 8); if (!std::isfinite(d)) d = 1; char b[60]; snprintf(b, 60, "%.17g", d); t = b; } }
  *v = strtod(t.c_str(), nullptr); return t;
}
static void p26(Src& s, Ctx& c) {
  const size_t CH = 16u << 20; bool big = s.chance(1, pbt::tier() ? 12 : 30), precise = s.chance(2, 3), header = s.chance(1, 2), final_nl = s.chance(2, 3); std::string eol = s.chance(1, 2) ? "\n" : "\r\n"; int m = s.range(2, 6), n = s.range(1, pbt::tier() ? 120 : 40); bool wide = !big && s.chance(1, 40);
  std::string text, head; if (header) { for (int j = 0; j < m; j++) head += (j ? "," : "") + s.pick<std::string>({"y", "x1", "a long name", "x.2", ""}); if (head.size() < (size_t)m) head = "h" + head; text = head + eol; } size_t skip = text.size();
  std::vector<std::string> lines; std::vector<DV> vals; std::string where;
  auto row = [&](int mm) { std::string t; DV v(mm); for (int j = 0; j < mm; j++) t += (j ? "," : "") + num_text(s, precise, &v[j]); lines.push_back(t); vals.push_back(v); return t; };
  std::vector<size_t> check;
  if (wide) { m = s.range(3000, 6000); n = s.range(33, 60); if (header) { text = ""; for (int j = 0; j < m; j++) text += (j ? ",c" : "c") + std::to_string(j); head = text; text += eol; } std::string pat; DV pv(m); double v; std::string cell[7]; double cv[7]; for (int q = 0; q < 7; q++) cell[q] = num_text(s, precise, &cv[q]); for (int i = 0; i < n; i++) { std::string t; DV r(m); for (int j = 0; j < m; j++) { int q = (i * 3 + j) % 7; t += (j ? "," : "") + cell[q]; r[j] = cv[q]; } (void)v; lines.push_back(t); vals.push_back(r); text += t + (i + 1 < n || final_nl ? eol : ""); } where = "wide"; }
  else if (big) {
    // fixed filler lines until just before the reader's chunk end, then a line whose end falls at a chosen offset from it
    int chunks = s.chance(1, 8) ? 2 : 1, pre = s.range(0, 3), delta = s.range(0, 8) - 4, post = s.range(0, 3); size_t goal = skip + CH * chunks + delta; const int FL = 65536; std::string filler; DV fv; { while ((int)filler.size() < FL - 4) { filler += fv.empty() ? "7.5" : ",7.5"; fv.push_back(7.5); } m = fv.size(); }
    for (int i = 0; i < pre; i++) { lines.push_back(filler); vals.push_back(fv); text += filler + eol; }
    while (text.size() + filler.size() + eol.size() + 3 * FL < goal) { text += filler + eol; lines.push_back(filler); vals.push_back(fv); }
    size_t left = goal - text.size() - eol.size(); // two or more lines of exactly the remaining length
    while (left > 0) { size_t len = left > (size_t)(2 * FL) ? filler.size() : left; std::string t; if (len == filler.size()) t = filler; else { t = "1"; while (t.size() < len) t += "0"; DV v{0.}; if (t.size() > 300) { t = "0."; while (t.size() + 1 < len) t += "0"; t += "5"; t = t.substr(0, len); } } lines.push_back(t); vals.push_back(t == filler ? fv : DV{strtod(t.c_str(), nullptr)}); text += t; left -= std::min(left, len); if (left >= eol.size()) { text += eol; left -= eol.size(); if (left == 0) break; } else left = 0; }
    if (text.compare(text.size() - eol.size(), eol.size(), eol)) text += eol;
    for (int i = 0; i < post; i++) text += row(m < 6 ? m : 4) + eol; if (!final_nl) text.resize(text.size() - eol.size());
    where = "chunk end " + std::to_string((long)text.size() - (long)skip - (long)(CH * chunks)) + " bytes before the end of the data, line end at " + std::to_string(delta); c.count("files across the chunk boundary");
  } else for (int i = 0; i < n; i++) text += row(m) + (i + 1 < n || final_nl ? eol : "");
  n = lines.size(); if (c.describe) { c.desc << (big ? "big " : "") << n << " lines, " << m << " columns, " << text.size() << " bytes, " << (eol.size() == 1 ? "LF" : "CRLF") << (header ? ", header" : "") << (final_nl ? "" : ", no final newline") << (precise ? ", precise" : ", fast") << " " << where << "; first line " << lines[0].substr(0, 80); }
  std::string dir = getenv("TMPDIR") ? getenv("TMPDIR") : "/tmp", fn = dir + "/vp_csv_" + std::to_string(getpid()) + ".csv"; struct Rm { std::string f; ~Rm() { unlink(f.c_str()); } } rmf{fn};
  PBT_CHECK(c, !VirtualFileWriter::Exists(fn), "exists", "file exists before writing"); { auto w = VirtualFileWriter::Make(fn); PBT_CHECK(c, w->Init(), "writer", "Init"); size_t cut = text.size() ? s.raw(std::min<size_t>(text.size(), 1000)) : 0; if (cut) PBT_CHECK(c, w->Write(text.data(), cut) == cut, "writer", "Write"); PBT_CHECK(c, w->Write(text.data() + cut, text.size() - cut) == text.size() - cut, "writer", "Write"); }
  PBT_CHECK(c, VirtualFileWriter::Exists(fn), "exists", "file written");
  TextReader<data_size_t> rd(fn.c_str(), header); if (header) PBT_CHECK(c, rd.first_line() == head, "header", "header read as '" << rd.first_line().substr(0, 80) << "', written '" << head.substr(0, 80) << "'");
  PBT_CHECK(c, rd.CountLine() == n, "count", "CountLine " << rd.CountLine() << " of " << n); data_size_t got = rd.ReadAllLines(); PBT_CHECK(c, got == n && (int)rd.Lines().size() == n, "count", "ReadAllLines " << got << " of " << n << " lines");
  for (int i = 0; i < n; i++) PBT_CHECK(c, rd.Lines()[i] == lines[i], "line", "line " << i << " read as '" << rd.Lines()[i].substr(0, 80) << "' (" << rd.Lines()[i].size() << " bytes), written '" << lines[i].substr(0, 80) << "' (" << lines[i].size() << " bytes)");
  if (!big) { std::string j = rd.JoinedLines("|"), e; for (auto& l : lines) e += l + "|"; PBT_CHECK(c, j == e, "joined", "JoinedLines"); }
  { size_t len = 0; auto raw = rd.ReadContent(&len); PBT_CHECK(c, len == text.size() && std::string(raw.begin(), raw.end()) == text, "content", "ReadContent returns " << len << " bytes of " << text.size()); }
  rd.Clear(); PBT_CHECK(c, rd.Lines().empty(), "clear", "Clear");
  // filtered reads
  std::vector<data_size_t> used, sel; int mod = s.range(1, 4), ph = s.range(0, mod - 1); for (int i = 0; i < n; i++) if (i % mod == ph) sel.push_back(i);
  { TextReader<data_size_t> q(fn.c_str(), header); data_size_t t = q.ReadAndFilterLines([&](data_size_t i) { return i % mod == ph; }, &used); PBT_CHECK(c, t == n && used == sel && q.Lines().size() == sel.size(), "filter", "ReadAndFilterLines counts"); for (size_t k = 0; k < sel.size(); k++) PBT_CHECK(c, q.Lines()[k] == lines[sel[k]], "filter", "filtered line " << k); }
  { TextReader<data_size_t> q(fn.c_str(), header); std::vector<std::string> out; bool order = true; data_size_t t = q.ReadPartAndProcessParallel(sel, [&](data_size_t start, const std::vector<std::string>& L) { order &= start == (data_size_t)out.size(); out.insert(out.end(), L.begin(), L.end()); }); PBT_CHECK(c, t == n && order && out.size() == sel.size(), "part", "ReadPartAndProcessParallel delivered " << out.size() << " of " << sel.size() << " lines"); for (size_t k = 0; k < sel.size(); k++) PBT_CHECK(c, out[k] == lines[sel[k]], "part", "selected line " << k); }
  if (!big) { TextReader<data_size_t> q(fn.c_str(), header); Random r((int)s.raw(1000)); std::vector<std::string> out; int want = s.range(1, 10); data_size_t t = q.SampleFromFile(&r, want, &out); PBT_CHECK(c, t == n && (int)out.size() == std::min(want, n), "sample", "SampleFromFile returned " << out.size() << " lines"); std::multiset<std::string> all(lines.begin(), lines.end()); for (auto& l : out) { auto it = all.find(l); PBT_CHECK(c, it != all.end(), "sample", "sampled line not in the file or repeated"); all.erase(it); } }
  // parsing
  auto parse_check = [&](const Parser& P, int i) { std::vector<std::pair<int, double>> f; P.ParseOneLine(lines[i].c_str(), &f); PBT_CHECK(c, f.size() == vals[i].size(), "fields", "line " << i << " parsed into " << f.size() << " fields of " << vals[i].size()); for (size_t j = 0; j < f.size(); j++) { double a = f[j].second, b = vals[i][j]; PBT_CHECK(c, f[j].first == (int)j && (precise ? eqb(a, b) : std::fabs(a - b) <= 1e-13 * std::fabs(b)), "value", "line " << i << " field " << j << " parsed as " << a << ", written " << b); } };
  if (!big) { std::unique_ptr<Parser> P(Parser::CreateParser(fn.c_str(), header, 0, precise)); PBT_CHECK(c, P->NumFeatures() == m, "columns", "NumFeatures " << P->NumFeatures() << " of " << m); for (int i = 0; i < n; i += wide ? 7 : 1) parse_check(*P, i); }
  else { CSVParser P(m, precise ? (Parser::AtofFunc)Common::AtofPrecise : (Parser::AtofFunc)Common::Atof); if (precise) for (int i = std::max(0, n - 6); i < n; i++) parse_check(P, i); }
  c.nontrivial = n >= 2; c.count("CRLF", eol.size() == 2); c.count("no final newline", !final_nl); c.count("wide", wide);
}
static pbt::Reg r26("P26", ">=2 lines", p26);

PBT_MAIN
