// Executable contracts for group labels, random-effects storage and data loading: C17, C18, C19, C24.
#include "common.h"
#include <stochtree/category_tracker.h>
#include <stochtree/data.h>
#include <stochtree/random_effects.h>
#include <stochtree/variance_model.h>
using namespace StochTree; using H::Rng; using H::cat; using H::vs; using H::note;
using MX = Eigen::MatrixXd; using VX = Eigen::VectorXd; using json = nlohmann::json;
// defined in src/data.cpp without a header; weak, so that the harness links without them
namespace StochTree { void __attribute__((weak)) LoadData(double*, int, int, bool, Eigen::MatrixXd&); void __attribute__((weak)) LoadData(double*, int, Eigen::VectorXd&); }
using LoadM = void (*)(double*, int, int, bool, Eigen::MatrixXd&); using LoadV = void (*)(double*, int, Eigen::VectorXd&);

static std::vector<int32_t> labels(Rng& r, int n, int nlo = 0) {
  std::vector<int32_t> v; int style = r.in(0, 5);
  std::vector<int32_t> pool; int k = r.in(1, 8);
  for (int i = 0; i < k; i++) pool.push_back(style == 0 ? i : style == 1 ? r.in(-5, 5) : style == 2 ? (int32_t)(r.u() % 4000000000u - 2000000000u) : style == 3 ? 100 - 7 * i : r.in(0, 3));
  if (r.p(1, 10)) { pool.push_back(INT32_MAX); pool.push_back(INT32_MIN); }
  for (int i = 0; i < n; i++) v.push_back(style == 4 ? 50 - i : style == 5 ? i / 2 : r.pick(pool));
  if (r.p(1, 6)) std::sort(v.begin(), v.end());
  if (r.p(1, 6)) std::sort(v.rbegin(), v.rend());
  return v;
}
struct Groups { std::vector<int32_t> ids; std::map<int32_t, std::vector<int>> in; std::map<int32_t, int> num; };
static Groups ref_groups(const std::vector<int32_t>& l) {
  Groups g; for (int i = 0; i < (int)l.size(); i++) g.in[l[i]].push_back(i);
  for (auto& z : g.in) { g.num[z.first] = g.ids.size(); g.ids.push_back(z.first); } return g;
}
template <class V> static std::vector<int> sorted(const V& v) { std::vector<int> o(v.begin(), v.end()); std::sort(o.begin(), o.end()); return o; }

template <class T> static void check_groups(T& t, const Groups& g, std::vector<data_size_t>& idx) {
  REQ(t.NumCategories() == (int)g.ids.size(), "NumCategories ", t.NumCategories(), " expected ", g.ids.size());
  REQ(std::vector<int32_t>(t.GetUniqueGroupIds().begin(), t.GetUniqueGroupIds().end()) == g.ids, "group ids ", vs(t.GetUniqueGroupIds()), " expected ", vs(g.ids));
  REQ(t.GetLabelMap().size() == g.ids.size(), "label map has ", t.GetLabelMap().size(), " entries for ", g.ids.size(), " labels");
  int next = 0;
  for (auto& z : g.in) {
    int l = z.first, b = t.CategoryBegin(l), e = t.CategoryEnd(l), s = t.CategorySize(l);
    REQ(t.GetLabelMap().count(l) && t.GetLabelMap().at(l) == g.num.at(l), "label map of ", l);
    REQ(t.CategoryNumber(l) == g.num.at(l), "label ", l, " numbered ", t.CategoryNumber(l), " expected ", g.num.at(l));
    REQ(s == (int)z.second.size(), "label ", l, " size ", s, " expected ", z.second.size());
    REQ(b == next && e == b + s, "label ", l, " range [", b, ",", e, ") of size ", s, " expected to begin at ", next); next = e;
    REQ(e <= (int)idx.size() && sorted(std::vector<int>(idx.begin() + b, idx.begin() + e)) == z.second, "index range of label ", l, " does not hold its observations");
    REQ(sorted(t.NodeIndices(l)) == z.second, "observations of label ", l, " are ", vs(t.NodeIndices(l)), " expected ", vs(z.second));
    REQ(sorted(t.NodeIndicesInternalIndex(g.num.at(l))) == z.second, "observations of group ", g.num.at(l), " are ", vs(t.NodeIndicesInternalIndex(g.num.at(l))), " expected ", vs(z.second));
  }
  REQ(next == (int)idx.size(), "groups cover ", next, " of ", idx.size(), " observations");
  REQ(t.GetLabelMap().size() == g.ids.size(), "looking labels up changed the label map");
}
CASE(C17, tracker, 600) {
  int n = r.p(1, 20) ? r.in(200, 600) : r.in(1, 25); auto l = labels(r, n); note("labels " + vs(l)); auto l0 = l; Groups g = ref_groups(l); CategorySampleTracker t(l); REQ(l == l0, "constructor changed the labels"); check_groups(t, g, t.indices_); check_groups(t, g, t.indices_);
}
CASE(C17, rfx_tracker, 300) {
  int n = r.in(1, 25); auto l = labels(r, n); note("labels " + vs(l)); Groups g = ref_groups(l); RandomEffectsTracker t(l); check_groups(t, g, t.GetCategorySampleTracker()->indices_);
  for (int i = 0; i < n; i++) { REQ(t.GetCategoryId(i) == l[i], "category of observation ", i, " is ", t.GetCategoryId(i), " expected ", l[i]); REQ(t.GetSampleCategoryMapper()->GetCategoryId(i) == l[i], "mapper"); REQ(t.GetPrediction(i) == 0, "initial prediction"); }
}
CASE(C17, mapper, 400) {
  int n = r.in(1, 20); auto l = labels(r, n); note("labels " + vs(l)); SampleCategoryMapper m(l); auto want = l; if (r.p(1, 3)) l.assign(n, 77);
  std::unique_ptr<SampleCategoryMapper> copy; std::vector<int32_t> cwant; REQ(m.NumObservations() == n, "NumObservations");
  for (int st = r.in(0, 15); st > 0; st--) {
    int op = r.in(0, 4); int i = r.in(0, n - 1), v = r.p(1, 4) ? (int)r.u() : r.in(-4, 9);
    if (op == 0) { copy.reset(new SampleCategoryMapper(m)); cwant = want; note("copy"); }
    else if (op == 1 && copy) { copy->SetCategoryId(i, v); cwant[i] = v; note(cat("copy[", i, "]=", v)); }
    else { m.SetCategoryId(i, v); want[i] = v; note(cat("[", i, "]=", v)); }
    for (int k = 0; k < n; k++) { REQ(m.GetCategoryId(k) == want[k], "category of ", k, " is ", m.GetCategoryId(k), " expected ", want[k]); if (copy) REQ(copy->GetCategoryId(k) == cwant[k] && copy->NumObservations() == n, "copied category of ", k); }
  }
}

// ------------------------------------------------------------------ C18
struct RefS { VX al; MX xi; VX sg; };
static void check_store(RandomEffectsContainer& c, const std::vector<RefS>& s, int K, int G) {
  int S = s.size(); REQ(c.NumSamples() == S && c.NumComponents() == K && c.NumGroups() == G, "container says ", c.NumSamples(), " samples ", c.NumComponents(), " components ", c.NumGroups(), " groups, expected ", S, " ", K, " ", G);
  REQ((int)c.GetAlpha().size() == S * K && (int)c.GetSigma().size() == S * K && (int)c.GetXi().size() == S * K * G && (int)c.GetBeta().size() == S * K * G, "stored sizes");
  for (int a = 0; a < S; a++) for (int k = 0; k < K; k++) { REQ(c.GetAlpha()[a * K + k] == s[a].al(k), "alpha of sample ", a, " component ", k, " is ", c.GetAlpha()[a * K + k], " expected ", s[a].al(k)); REQ(c.GetSigma()[a * K + k] == s[a].sg(k), "sigma of sample ", a, " component ", k, " is ", c.GetSigma()[a * K + k], " expected ", s[a].sg(k));
    for (int g = 0; g < G; g++) { int q = a * K * G + g * K + k; REQ(c.GetXi()[q] == s[a].xi(k, g), "xi of sample ", a, " group ", g, " component ", k, " is ", c.GetXi()[q], " expected ", s[a].xi(k, g)); REQ(H::close(c.GetBeta()[q], s[a].xi(k, g) * s[a].al(k)), "beta of sample ", a, " group ", g, " component ", k, " is ", c.GetBeta()[q], " expected ", s[a].xi(k, g) * s[a].al(k)); } }
}
static void check_pred(Rng& r, RandomEffectsContainer& c, LabelMapper& m, const std::vector<RefS>& s, const std::vector<int32_t>& ids, int K) {
  int n = r.in(1, 12), S = s.size(); MX B(n, K); std::vector<int32_t> lab; std::vector<int> gi; for (int i = 0; i < n; i++) { gi.push_back(r.in(0, ids.size() - 1)); lab.push_back(ids[gi[i]]); for (int k = 0; k < K; k++) B(i, k) = r.real(-3, 3); }
  RandomEffectsDataset d; d.AddBasis(B.data(), n, K, false); d.AddGroupLabels(lab); std::vector<double> o(n * S, r.p(1, 2) ? NAN : 123.); c.Predict(d, m, o);
  for (int a = 0; a < S; a++) for (int i = 0; i < n; i++) { double v = 0; for (int k = 0; k < K; k++) v += B(i, k) * s[a].al(k) * s[a].xi(k, gi[i]); REQ(H::close(o[a * n + i], v), "prediction of sample ", a, " observation ", i, " (label ", lab[i], ") is ", o[a * n + i], " expected ", v); }
  int u; do { u = r.in(-300, 300); } while (std::find(ids.begin(), ids.end(), u) != ids.end());
  lab[r.in(0, n - 1)] = u; RandomEffectsDataset d2; d2.AddBasis(B.data(), n, K, false); d2.AddGroupLabels(lab); bool thrown = false; try { c.Predict(d2, m, o); } catch (const std::exception&) { thrown = true; } REQ(thrown, "predicting for unknown label ", u, " did not raise an error");
}
static void check_map(Rng& r, LabelMapper& m, const std::vector<int32_t>& ids) {
  REQ(sorted(m.Keys()) == sorted(ids), "label mapper keys ", vs(m.Keys()), " expected ", vs(ids)); REQ(m.Map().size() == ids.size(), "label mapper holds ", m.Map().size(), " labels");
  for (int i = 0; i < (int)ids.size(); i++) { REQ(m.ContainsLabel(ids[i]), "label ", ids[i], " not contained"); REQ(m.CategoryNumber(ids[i]) == i, "label ", ids[i], " maps to ", m.CategoryNumber(ids[i]), " expected ", i); REQ(m.Map().at(ids[i]) == i, "map"); }
  for (int t = 0; t < 4; t++) { int u = r.p(1, 2) ? r.in(-20, 20) : (int)r.u(); if (std::find(ids.begin(), ids.end(), u) != ids.end()) continue; REQ(!m.ContainsLabel(u), "unknown label ", u, " reported as contained"); bool thrown = false; int v = 0; try { v = m.CategoryNumber(u); } catch (const std::exception&) { thrown = true; } REQ(thrown, "unknown label ", u, " silently mapped to group ", v); REQ(!m.ContainsLabel(u) && m.Map().size() == ids.size(), "looking up unknown label ", u, " added it"); }
}
static RefS draw(Rng& r, MultivariateRegressionRandomEffectsModel& m, int K, int G) {
  RefS s; s.al.resize(K); s.xi.resize(K, G); s.sg.resize(K); MX C = MX::Zero(K, K); for (int k = 0; k < K; k++) { s.al(k) = r.real(-3, 3); s.sg(k) = r.real(0.1, 4); for (int g = 0; g < G; g++) s.xi(k, g) = r.real(-3, 3); for (int j = 0; j < K; j++) C(k, j) = j == k ? s.sg(k) : r.real(-.1, .1); }
  m.SetWorkingParameter(s.al);
  if (r.p(1, 2)) m.SetGroupParameters(s.xi); else for (int g = 0; g < G; g++) { VX v = s.xi.col(g); m.SetGroupParameter(v, g); }
  m.SetGroupParameterCovariance(C); if (r.p(1, 3)) { int k = r.in(0, K - 1); s.sg(k) = r.real(0.1, 4); m.SetGroupParameterVarianceComponent(s.sg(k), k); }
  REQ(m.GetWorkingParameter() == s.al && m.GetGroupParameters() == s.xi, "model parameters not as set"); return s;
}
static json rt(const json& j, int how) { return how == 0 ? j : json::parse(j.dump()); }
static std::vector<int32_t> ids_of(Rng& r, int G) { std::set<int32_t> u; while ((int)u.size() < G) u.insert(r.p(1, 5) ? (int32_t)r.u() : r.in(-9, 30)); return {u.begin(), u.end()}; }
CASE(C18, store, 500) {
  int K = r.in(1, 4), G = r.in(1, 6); auto ids = ids_of(r, G); std::map<int32_t, int32_t> mp; for (int i = 0; i < G; i++) mp[ids[i]] = i; LabelMapper m(mp); MultivariateRegressionRandomEffectsModel mod(K, G); RandomEffectsContainer c(K, G); std::vector<RefS> s; note(cat("components ", K, " groups ", G, " labels ", vs(ids)));
  check_map(r, m, ids);
  for (int t = r.in(1, 5); t > 0; t--) { s.push_back(draw(r, mod, K, G)); c.AddSample(mod); if (r.p(1, 3)) mod.SetGroupParameters(s.back().xi); check_store(c, s, K, G); }
  check_pred(r, c, m, s, ids, K); check_store(c, s, K, G); check_map(r, m, ids);
}
CASE(C18, json, 400) {
  int K = r.in(1, 4), G = r.in(1, 6); auto ids = ids_of(r, G); std::map<int32_t, int32_t> mp; for (int i = 0; i < G; i++) mp[ids[i]] = i; LabelMapper m(mp); MultivariateRegressionRandomEffectsModel mod(K, G); RandomEffectsContainer c(K, G); std::vector<RefS> s; for (int t = r.in(0, 4); t > 0; t--) { s.push_back(draw(r, mod, K, G)); c.AddSample(mod); }
  note(cat("components ", K, " groups ", G, " samples ", s.size(), " labels ", vs(ids)));
  int K2 = r.in(1, 4), G2 = r.in(1, 6); RandomEffectsContainer used(K2, G2), fresh; MultivariateRegressionRandomEffectsModel mod2(K2, G2); for (int t = r.in(1, 5); t > 0; t--) { draw(r, mod2, K2, G2); used.AddSample(mod2); }
  auto ids2 = ids_of(r, G2); std::map<int32_t, int32_t> mp2; for (int i = 0; i < G2; i++) mp2[ids2[i]] = i; LabelMapper mused(mp2), mfresh; int how = r.in(0, 1);
  json jc = rt(c.to_json(), how), jm = rt(m.to_json(), how); bool re = r.p(1, 2); if (re) used.Reset(); note(re ? "into a reset and a fresh object" : "into a used and a fresh object");
  used.from_json(jc); fresh.from_json(jc); mused.from_json(jm); mfresh.from_json(jm);
  check_store(c, s, K, G); check_store(used, s, K, G); check_store(fresh, s, K, G); check_map(r, m, ids); check_map(r, mused, ids); check_map(r, mfresh, ids);
  check_pred(r, used, mused, s, ids, K); check_pred(r, fresh, mfresh, s, ids, K); check_pred(r, c, m, s, ids, K);
  for (int t = r.in(0, 2); t > 0; t--) { RefS q = draw(r, mod, K, G); s.push_back(q); used.AddSample(mod); fresh.AddSample(mod); c.AddSample(mod); }
  check_store(used, s, K, G); check_store(fresh, s, K, G); check_store(c, s, K, G); check_pred(r, fresh, mfresh, s, ids, K);
  m.Reset(); check_map(r, m, {}); c.Reset(); check_store(c, {}, 0, 0);
}

// ------------------------------------------------------------------ C19
static double at(const std::vector<double>& b, int n, int p, bool rm, int i, int j) { return rm ? b[(size_t)i * p + j] : b[(size_t)j * n + i]; }
static std::vector<double> buf(Rng& r, int n, int p) { std::vector<double> b((size_t)n * p); for (auto& x : b) { x = r.p(1, 12) ? NAN : r.p(1, 12) ? -0.0 : r.p(1, 12) ? 1e300 * r.real(-1, 1) : r.p(1, 4) ? r.in(-5, 5) : r.real(-9, 9); } return b; }
static bool same(double a, double b) { return (std::isnan(a) && std::isnan(b)) || (a == b && std::signbit(a) == std::signbit(b)); }
static void check_mx(const char* what, const std::vector<double>& b, int n, int p, bool rm, const std::function<double(int, int)>& get) { for (int i = 0; i < n; i++) for (int j = 0; j < p; j++) REQ(same(get(i, j), at(b, n, p, rm, i, j)), what, " (", i, ",", j, ") of a ", n, "x", p, rm ? " row-major" : " column-major", " buffer is ", get(i, j), " expected ", at(b, n, p, rm, i, j)); }
static void scrub(Rng& r, std::vector<double>& b) { for (auto& x : b) x = 1e9 + r.in(0, 9); }
static int dim(Rng& r) { return r.p(1, 10) ? r.in(20, 80) : r.in(1, 8); }
CASE(C19, matrix, 500) {
  ColumnMatrix m; int uses = r.in(1, 3);
  for (int u = 0; u < uses; u++) { int n = dim(r), p = dim(r); bool rm = r.p(1, 2); auto b = buf(r, n, p), b0 = b; note(cat("load ", n, "x", p, rm ? " row" : " column"));
    if (r.p(1, 3)) m = ColumnMatrix(b.data(), n, p, rm); else m.LoadData(b.data(), n, p, rm); for (size_t i = 0; i < b.size(); i++) REQ(same(b[i], b0[i]), "caller buffer changed"); scrub(r, b);
    REQ(m.NumRows() == n && m.NumCols() == p, "dimensions ", m.NumRows(), "x", m.NumCols()); check_mx("element", b0, n, p, rm, [&](int i, int j) { return m.GetElement(i, j); }); check_mx("GetData", b0, n, p, rm, [&](int i, int j) { return m.GetData()(i, j); });
    for (int t = r.in(0, 4); t > 0; t--) { int i = r.in(0, n - 1), j = r.in(0, p - 1); double v = r.real(-3, 3); m.SetElement(i, j, v); (rm ? b0[(size_t)i * p + j] : b0[(size_t)j * n + i]) = v; check_mx("element after SetElement", b0, n, p, rm, [&](int a, int c) { return m.GetElement(a, c); }); }
    LoadM load = &LoadData; if (!load) continue; Eigen::MatrixXd e; load(b0.data(), n, p, rm, e); REQ(e.rows() == n && e.cols() == p, "LoadData dimensions"); check_mx("LoadData", b0, n, p, rm, [&](int i, int j) { return e(i, j); }); }
}
CASE(C19, vector, 400) {
  ColumnVector m;
  for (int u = r.in(1, 3); u > 0; u--) { int n = dim(r); auto b = buf(r, n, 1), b0 = b; if (r.p(1, 3)) m = ColumnVector(b.data(), n); else m.LoadData(b.data(), n); scrub(r, b); REQ(m.NumRows() == n, "rows ", m.NumRows());
    for (int t = r.in(0, 4); t > 0; t--) { int i = r.in(0, n - 1); double v = r.real(-3, 3); m.SetElement(i, v); b0[i] = v; }
    for (int i = 0; i < n; i++) REQ(same(m.GetElement(i), b0[i]) && same(m.GetData()(i), b0[i]), "element ", i, " is ", m.GetElement(i), " expected ", b0[i]); LoadV load = &LoadData; if (!load) continue; Eigen::VectorXd e; load(b0.data(), n, e); REQ(e.size() == n, "LoadData size"); for (int i = 0; i < n; i++) REQ(same(e(i), b0[i]), "LoadData element ", i); }
}
CASE(C19, dataset, 600) {
  ForestDataset d; int n = dim(r), p = 0, q = 0; std::vector<double> X, B, W; bool xr = false, br = false; REQ(!d.HasCovariates() && !d.HasBasis() && !d.HasVarWeights(), "flags of an empty dataset");
  for (int st = r.in(1, 8); st > 0; st--) {
    int op = r.in(0, 4);
    if (op == 0) { p = dim(r); xr = r.p(1, 2); auto b = buf(r, n, p); X = b; note(cat("covariates ", n, "x", p)); d.AddCovariates(b.data(), n, p, xr); scrub(r, b); }
    else if (op == 1) { q = r.in(1, 5); br = r.p(1, 2); auto b = buf(r, n, q); B = b; note(cat("basis ", n, "x", q)); d.AddBasis(b.data(), n, q, br); scrub(r, b); }
    else if (op == 2) { auto b = buf(r, n, 1); W = b; note("weights"); d.AddVarianceWeights(b.data(), n); scrub(r, b); }
    else if (op == 3 && q) { br = r.p(1, 2); auto b = buf(r, n, q); B = b; note(cat("update basis ", br ? "row" : "column")); d.UpdateBasis(b.data(), n, q, br); scrub(r, b); }
    else if (op == 4) { int dn = r.in(-2, 2), dq = r.in(-2, 2); if (q && !dn && !dq) dn = 1; int n2 = n + dn, q2 = q + dq; if (n2 < 1 || q2 < 1) continue; auto b = buf(r, n2, q2); bool rm = r.p(1, 2), thrown = false; note(cat("update basis with ", n2, "x", q2)); try { d.UpdateBasis(b.data(), n2, q2, rm); } catch (const std::exception&) { thrown = true; } REQ(thrown, "replacing a ", n, "x", q, " basis by ", n2, "x", q2, " was accepted"); }
    REQ(d.HasCovariates() == !X.empty() && d.HasBasis() == !B.empty() && d.HasVarWeights() == !W.empty(), "Has* flags");
    if (!X.empty()) { REQ(d.NumObservations() == n && d.NumCovariates() == p, "covariate dimensions ", d.NumObservations(), "x", d.NumCovariates()); REQ(d.GetCovariates().rows() == n && d.GetCovariates().cols() == p, "covariate matrix dimensions"); check_mx("covariate", X, n, p, xr, [&](int i, int j) { return d.CovariateValue(i, j); }); check_mx("GetCovariates", X, n, p, xr, [&](int i, int j) { return d.GetCovariates()(i, j); }); }
    if (!B.empty()) { REQ(d.NumBasis() == q && d.GetBasis().rows() == n && d.GetBasis().cols() == q, "basis dimensions"); check_mx("basis", B, n, q, br, [&](int i, int j) { return d.BasisValue(i, j); }); check_mx("GetBasis", B, n, q, br, [&](int i, int j) { return d.GetBasis()(i, j); }); }
    if (!W.empty()) { REQ(d.GetVarWeights().size() == n, "weight count"); for (int i = 0; i < n; i++) REQ(same(d.VarWeightValue(i), W[i]) && same(d.GetVarWeights()(i), W[i]), "weight ", i); }
  }
}
CASE(C19, rfx_dataset, 300) {
  RandomEffectsDataset d; int n = dim(r), q = r.in(1, 5); bool br = r.p(1, 2); REQ(!d.HasBasis() && !d.HasVarWeights() && !d.HasGroupLabels(), "flags of an empty dataset");
  for (int u = r.in(1, 2); u > 0; u--) {
    auto B = buf(r, n, q), b = B; d.AddBasis(b.data(), n, q, br); scrub(r, b); REQ(d.HasBasis() && d.NumObservations() == n && d.GetBasis().cols() == q, "basis dimensions"); check_mx("basis", B, n, q, br, [&](int i, int j) { return d.BasisValue(i, j); }); check_mx("GetBasis", B, n, q, br, [&](int i, int j) { return d.GetBasis()(i, j); });
    auto W = buf(r, n, 1); b = W; d.AddVarianceWeights(b.data(), n); scrub(r, b); REQ(d.HasVarWeights(), "flag"); for (int i = 0; i < n; i++) REQ(same(d.VarWeightValue(i), W[i]) && same(d.GetVarWeights()(i), W[i]), "weight ", i);
    auto l = labels(r, n), l0 = l; d.AddGroupLabels(l); REQ(l == l0, "caller labels changed"); l.assign(n, 1234567); REQ(d.HasGroupLabels() && d.GetGroupLabels() == l0, "labels"); for (int i = 0; i < n; i++) REQ(d.GroupId(i) == l0[i], "label ", i, " is ", d.GroupId(i), " expected ", l0[i]);
    check_mx("basis", B, n, q, br, [&](int i, int j) { return d.BasisValue(i, j); }); n = dim(r); q = r.in(1, 5); br = r.p(1, 2);
  }
}

// ------------------------------------------------------------------ C24
static bool near(const MX& a, const MX& b) { return a.rows() == b.rows() && a.cols() == b.cols() && (a - b).cwiseAbs().maxCoeff() <= 1e-7 * (1 + b.cwiseAbs().maxCoeff()); }
struct RW { int n, K, G; std::vector<int32_t> lab; std::vector<int> gi; MX B; VX y, al; MX xi, Sx, Sa; double s2; RandomEffectsDataset d; ColumnVector res; std::unique_ptr<RandomEffectsTracker> tr; std::unique_ptr<MultivariateRegressionRandomEffectsModel> m; };
static MX spd(Rng& r, int K) { MX A(K, K); for (int i = 0; i < K; i++) for (int j = 0; j < K; j++) A(i, j) = r.real(-1, 1); MX I = MX::Identity(K, K); return A * A.transpose() + 0.5 * I; }
static void make_rw(Rng& r, RW& w) {
  w.K = r.in(1, 3); w.n = r.in(1, 20); auto l = labels(r, w.n); w.lab = l; Groups g = ref_groups(l); w.G = g.ids.size(); for (int x : l) w.gi.push_back(g.num[x]);
  w.B.resize(w.n, w.K); w.y.resize(w.n); for (int i = 0; i < w.n; i++) { w.y(i) = r.real(-3, 3); for (int k = 0; k < w.K; k++) w.B(i, k) = k == 0 && r.p(1, 2) ? 1 : r.real(-2, 2); }
  w.al.resize(w.K); w.xi.resize(w.K, w.G); for (int k = 0; k < w.K; k++) { w.al(k) = r.real(-2, 2); for (int q = 0; q < w.G; q++) w.xi(k, q) = r.real(-2, 2); }
  w.Sx = spd(r, w.K); w.Sa = spd(r, w.K); w.s2 = r.p(1, 3) ? std::pow(10., r.real(-3, 2)) : r.real(0.1, 4); w.d.AddBasis(w.B.data(), w.n, w.K, false); w.d.AddGroupLabels(w.lab); w.res.LoadData(w.y.data(), w.n); w.tr.reset(new RandomEffectsTracker(l)); w.m.reset(new MultivariateRegressionRandomEffectsModel(w.K, w.G));
  w.m->SetWorkingParameter(w.al); w.m->SetGroupParameters(w.xi); w.m->SetGroupParameterCovariance(w.Sx); w.m->SetWorkingParameterCovariance(w.Sa); w.m->SetVariancePriorShape(1); w.m->SetVariancePriorScale(1); note(cat("components ", w.K, " labels ", vs(l), " global variance ", w.s2));
}
// posterior of a Gaussian regression y_i = z_i' theta + N(0, s2), theta ~ N(0, S), from its observations one at a time
static void post(const std::vector<VX>& z, const std::vector<double>& y, const MX& S, double s2, VX& mean, MX& var) { MX P = S.inverse(); VX b = VX::Zero(S.rows()); for (size_t i = 0; i < z.size(); i++) { P += z[i] * z[i].transpose() / s2; b += z[i] * y[i] / s2; } var = P.inverse(); mean = var * b; }
static void ref_group(const RW& w, int g, const VX& al, VX& mean, MX& var) { std::vector<VX> z; std::vector<double> y; for (int i = 0; i < w.n; i++) if (w.gi[i] == g) { z.push_back(VX(w.B.row(i).transpose().cwiseProduct(al))); y.push_back(w.y(i)); } post(z, y, w.Sx, w.s2, mean, var); }
static void ref_working(const RW& w, const MX& xi, VX& mean, MX& var) { std::vector<VX> z; std::vector<double> y; for (int i = 0; i < w.n; i++) { z.push_back(VX(w.B.row(i).transpose().cwiseProduct(xi.col(w.gi[i])))); y.push_back(w.y(i)); } post(z, y, w.Sa, w.s2, mean, var); }
CASE(C24, posterior, 500) {
  RW w; make_rw(r, w); VX mean; MX var;
  for (int g = 0; g < w.G; g++) { ref_group(w, g, w.al, mean, var); VX a = w.m->GroupParameterMean(w.d, w.res, *w.tr, w.s2, g); MX v = w.m->GroupParameterVariance(w.d, w.res, *w.tr, w.s2, g); REQ(near(a, mean), "mean of group ", g, " is ", a.transpose(), " expected ", mean.transpose()); REQ(near(v, var), "covariance of group ", g, " is ", v, " expected ", var); }
  ref_working(w, w.xi, mean, var); VX a = w.m->WorkingParameterMean(w.d, w.res, *w.tr, w.s2); MX v = w.m->WorkingParameterVariance(w.d, w.res, *w.tr, w.s2); REQ(near(a, mean), "mean of the working parameter is ", a.transpose(), " expected ", mean.transpose()); REQ(near(v, var), "covariance of the working parameter is ", v, " expected ", var);
  for (int i = 0; i < w.n; i++) REQ(w.res.GetElement(i) == w.y(i), "computing the posterior changed the residual");
}
CASE(C24, draws, 40) {
  RW w; make_rw(r, w); const int N = 600; std::mt19937 gen((unsigned)r.u()); VX mean; MX var; auto z = [&](double s, double m, double v) { return (s / N - m) / std::sqrt(v / N); };
  MX sum = MX::Zero(w.K, w.G), sq = sum; for (int t = 0; t < N; t++) { w.m->SampleGroupParameters(w.d, w.res, *w.tr, w.s2, gen); sum += w.m->GetGroupParameters(); sq += w.m->GetGroupParameters().cwiseProduct(w.m->GetGroupParameters()); REQ(w.m->GetWorkingParameter() == w.al, "sampling group parameters changed the working parameter"); }
  for (int g = 0; g < w.G; g++) { ref_group(w, g, w.al, mean, var); for (int k = 0; k < w.K; k++) { double a = z(sum(k, g), mean(k), var(k, k)), b = (sq(k, g) / N - mean(k) * mean(k) - var(k, k)) / std::sqrt((2 * var(k, k) * var(k, k) + 4 * mean(k) * mean(k) * var(k, k)) / N); REQ(std::fabs(a) < 7 && std::fabs(b) < 9, "draws of group ", g, " component ", k, " are off by ", a, " (first moment) and ", b, " (second moment) standard errors"); } }
  w.m->SetGroupParameters(w.xi); VX s1 = VX::Zero(w.K), s2 = s1; for (int t = 0; t < N; t++) { w.m->SampleWorkingParameter(w.d, w.res, *w.tr, w.s2, gen); s1 += w.m->GetWorkingParameter(); s2 += w.m->GetWorkingParameter().cwiseProduct(w.m->GetWorkingParameter()); REQ(w.m->GetGroupParameters() == w.xi, "sampling the working parameter changed the group parameters"); }
  ref_working(w, w.xi, mean, var); for (int k = 0; k < w.K; k++) { double a = z(s1(k), mean(k), var(k, k)), b = (s2(k) / N - mean(k) * mean(k) - var(k, k)) / std::sqrt((2 * var(k, k) * var(k, k) + 4 * mean(k) * mean(k) * var(k, k)) / N); REQ(std::fabs(a) < 7 && std::fabs(b) < 9, "draws of working parameter ", k, " are off by ", a, " and ", b, " standard errors"); }
  for (int i = 0; i < w.n; i++) REQ(w.res.GetElement(i) == w.y(i), "sampling changed the residual");
}
int main(int argc, char** argv) { return H::run(argc, argv); }
