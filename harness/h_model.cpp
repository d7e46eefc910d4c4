// Executable contracts for leaf models, residual bookkeeping, samplers and variance models (C10, C12-C16).
#include "world.h"
#include <stochtree/leaf_model.h>
#include <stochtree/random_effects.h>
#include <stochtree/variance_model.h>
typedef Eigen::MatrixXd MX; typedef Eigen::VectorXd VX;

// ---- dense reference: y ~ N(0, s2*diag(w) + B V B')
static MX sub(const MX& a, const std::vector<int>& o) { MX r(o.size(), a.cols()); for (size_t i = 0; i < o.size(); i++) r.row(i) = a.row(o[i]); return r; }
static VX subv(const VX& a, const std::vector<int>& o) { VX r(o.size()); for (size_t i = 0; i < o.size(); i++) r(i) = a(o[i]); return r; }
static double dense_ml(const World& w, const MX& B, const MX& V, const VX& y, double s2, const std::vector<int>& o) {
  if (o.empty()) return 0; MX b = sub(B, o); VX z = subv(y, o), wt = subv(w.W, o); MX S = MX(s2 * wt.asDiagonal()) + b * V * b.transpose();
  Eigen::LLT<MX> L(S); MX Lm = L.matrixL(); double ld = 0; for (int i = 0; i < Lm.rows(); i++) ld += std::log(Lm(i, i)); return -ld - 0.5 * z.dot(L.solve(z));   // without the (2 pi) constants
}
static double noise_ml(const World& w, const VX& y, double s2, const std::vector<int>& o) { double r = 0; for (int i : o) r += -0.5 * std::log(s2 * w.W(i)) - 0.5 * y(i) * y(i) / (s2 * w.W(i)); return r; }
static void post(const World& w, const MX& B, const MX& V, const VX& y, double s2, const std::vector<int>& o, VX& m, MX& C) {
  MX P = V.inverse(); VX q = VX::Zero(B.cols()); for (int i : o) { VX b = B.row(i).transpose(); P += b * b.transpose() / (s2 * w.W(i)); q += b * y(i) / (s2 * w.W(i)); } C = P.inverse(); m = C * q;
}
static bool closeE(double a, double b, double t = 1e-7) { return close(a, b, t); }
static bool closeS(double a, double b, double mag, double t) { return close(a, b, t) || std::fabs(a - b) <= t * mag; }   // mag: size of the cancelling terms

// ---- one adaptor per leaf model so that the same contract is checked for all three
struct Const { typedef GaussianConstantSuffStat S; typedef GaussianConstantLeafModel M; static const bool vec = false; static int nb(Rng&) { return 0; }
  static MX basis(const World& w) { return MX::Ones(w.n, 1); } static M model(MX& V) { return M(V(0, 0)); } static S stat(int) { return S(); }
  static void expect(const S& s, double n, const MX& xx, const MX& yx, const char* at) { REQ(s.n == n, at, ": n = ", s.n, " expected ", n); REQ(closeE(s.sum_w, xx(0, 0)), at, ": sum_w = ", s.sum_w, " expected ", xx(0, 0)); REQ(closeE(s.sum_yw, yx(0, 0)), at, ": sum_yw = ", s.sum_yw, " expected ", yx(0, 0)); } };
struct Uni { typedef GaussianUnivariateRegressionSuffStat S; typedef GaussianUnivariateRegressionLeafModel M; static const bool vec = false; static int nb(Rng&) { return 1; }
  static MX basis(const World& w) { return w.B; } static M model(MX& V) { return M(V(0, 0)); } static S stat(int) { return S(); }
  static void expect(const S& s, double n, const MX& xx, const MX& yx, const char* at) { REQ(s.n == n, at, ": n = ", s.n, " expected ", n); REQ(closeE(s.sum_xxw, xx(0, 0)), at, ": sum_xxw = ", s.sum_xxw, " expected ", xx(0, 0)); REQ(closeE(s.sum_yxw, yx(0, 0)), at, ": sum_yxw = ", s.sum_yxw, " expected ", yx(0, 0)); } };
struct Multi { typedef GaussianMultivariateRegressionSuffStat S; typedef GaussianMultivariateRegressionLeafModel M; static const bool vec = true; static int nb(Rng& r) { return r.in(2, 3); }
  static MX basis(const World& w) { return w.B; } static M model(MX& V) { return M(V); } static S stat(int d) { return S(d); }
  static void expect(const S& s, double n, const MX& xx, const MX& yx, const char* at) { REQ(s.n == n, at, ": n = ", s.n, " expected ", n); for (int i = 0; i < xx.rows(); i++) { REQ(closeE(s.ytWX(0, i), yx(0, i)), at, ": ytWX(", i, ") = ", s.ytWX(0, i), " expected ", yx(0, i)); for (int j = 0; j < xx.cols(); j++) REQ(closeE(s.XtWX(i, j), xx(i, j)), at, ": XtWX(", i, ",", j, ") = ", s.XtWX(i, j), " expected ", xx(i, j)); } } };
static MX spd(Rng& r, int d) { MX A(d, d); for (int i = 0; i < d; i++) for (int j = 0; j < d; j++) A(i, j) = r.real(-1, 1); MX V = A * A.transpose() + r.real(0.1, 1) * MX::Identity(d, d); return V; }
static void sums(const World& w, const MX& B, const VX& y, const std::vector<int>& o, MX& xx, MX& yx) { int d = B.cols(); xx = MX::Zero(d, d); yx = MX::Zero(1, d); for (int i : o) { xx += B.row(i).transpose() * B.row(i) / w.W(i); yx += y(i) * B.row(i) / w.W(i); } }
template <class A> static void load(typename A::S& s, World& w, const std::vector<int>& o) { for (int i : o) s.IncrementSuffStat(w.d, w.resid.GetData(), i); }

// ------------------------------------------------------------------ C12
template <class A> static void stats(Rng& r) {
  World w; make_world(r, w, 1, 25, 1, 3, A::nb(r)); note(show_world(w)); MX B = A::basis(w); int d = B.cols(); MX xx, yx, x2, y2;
  std::vector<int> L, R, N; for (int i = 0; i < w.n; i++) { if (r.p(1, 4)) continue; N.push_back(i); (r.p(1, 2) ? L : R).push_back(i); } std::shuffle(N.begin(), N.end(), r.g);
  auto n = A::stat(d), l = A::stat(d), q = A::stat(d); A::expect(n, 0, MX::Zero(d, d), MX::Zero(1, d), "new statistic");
  load<A>(n, w, N); load<A>(l, w, L); sums(w, B, w.y, N, xx, yx); A::expect(n, N.size(), xx, yx, "node"); sums(w, B, w.y, L, xx, yx); A::expect(l, L.size(), xx, yx, "left");
  if (r.p(1, 2)) load<A>(q, w, N);   // a statistic that already holds something
  q.SubtractSuffStat(n, l); sums(w, B, w.y, R, xx, yx); A::expect(q, R.size(), xx, yx, "node minus left");
  n.SubtractSuffStat(n, q); sums(w, B, w.y, L, xx, yx); A::expect(n, L.size(), xx, yx, "in-place subtraction");
  int th = r.in(0, w.n); REQ(l.SampleSize() == (int)L.size() && l.SampleGreaterThan(th) == ((int)L.size() > th) && l.SampleGreaterThanEqual(th) == ((int)L.size() >= th), "sample size queries");
  l.ResetSuffStat(); A::expect(l, 0, MX::Zero(d, d), MX::Zero(1, d), "reset statistic"); load<A>(l, w, R); sums(w, B, w.y, R, xx, yx); A::expect(l, R.size(), xx, yx, "after reset");
}
CASE(C12, constant, 400) { stats<Const>(r); }
CASE(C12, univariate, 400) { stats<Uni>(r); }
CASE(C12, multivariate, 300) { stats<Multi>(r); }

// a tracker with a random partition of tree 0 (both trackers kept in step)
struct Part { World w; std::unique_ptr<ForestTracker> tr; Tree tree; TState t; TreePrior prior{0.95, 2., 1}; std::mt19937 gen{3}; };
static void part_init(Rng& r, Part& p, int nb, int nlo, int nhi, int odim, int splits) {
  make_world(r, p.w, nlo, nhi, 1, 3, nb); note(show_world(p.w)); p.tr.reset(new ForestTracker(p.w.d.GetCovariates(), p.w.ft, 2, p.w.n)); p.tr->ResetRoot(p.w.d.GetCovariates(), p.w.ft, 1); p.tree.Init(odim); ts_root(p.t, p.w, odim);
  for (int m = r.in(0, splits); m > 0; m--) { int nid = r.pick(p.t.s.leaves()), var = r.in(0, p.w.p - 1); SNode k; TreeSplit sp = make_split(r, p.w, var, p.t.in[nid], k); note(cat("split node ", nid, " var ", var, k.cat ? " cats " + vs(k.cats) : cat(" thr ", k.thr)));
    AddSplitToModel(*p.tr, p.w.d, p.prior, sp, p.gen, &p.tree, 1, nid, var, true); ts_split(p.t, p.w, nid, k, p.tree.LeftChild(nid), p.tree.RightChild(nid)); }
}
// what the model reports for a split must be the value of its formula at the exact sums (C12) / the closed form (C13)
template <class A> static void proposals(Rng& r, bool closed) {
  Part p; int nb = A::nb(r); part_init(r, p, nb, 1, 25, 1, 5); World& w = p.w; MX B = A::basis(w); int d = B.cols(); MX V = spd(r, d); auto m = A::model(V); double s2 = pos_scale(r, 0.2, 3);
  auto val = [&](const std::vector<int>& o) { return closed ? dense_ml(w, B, V, w.y, s2, o) - noise_ml(w, w.y, s2, o) : [&] { auto s = A::stat(d); load<A>(s, w, o); return m.NoSplitLogMarginalLikelihood(s, s2); }(); };
  auto mag = [&](const std::vector<int>& o) { return std::fabs(val(o)) + std::fabs(noise_ml(w, w.y, s2, o)); };
  auto cmp = [&](std::tuple<double, double, data_size_t, data_size_t> z, const std::vector<int>& L, const std::vector<int>& R, const std::vector<int>& N, const std::string& at) {
    REQ(std::get<2>(z) == (int)L.size() && std::get<3>(z) == (int)R.size(), at, ": child sizes ", std::get<2>(z), ",", std::get<3>(z), " expected ", L.size(), ",", R.size());
    double got = std::get<0>(z) - std::get<1>(z), want = val(L) + val(R) - val(N), mg = mag(L) + mag(R) + mag(N); REQ(closeS(got, want, mg, 1e-6), at, ": split minus no-split log marginal likelihood ", got, " expected ", want); };
  for (int id : p.t.s.leaves()) { auto& o = p.t.in[id]; if (o.empty()) continue; int var = r.in(0, w.p - 1); SNode k; TreeSplit sp = make_split(r, w, var, o, k); std::vector<int> L, R; for (int i : o) (left_of(k, w.X(i, var)) ? L : R).push_back(i);
    cmp(m.EvaluateProposedSplit(w.d, *p.tr, w.resid, sp, 1, id, var, s2), L, R, o, cat("proposed split of leaf ", id)); }
  for (int id : p.t.s.leaf_parents()) { int l = p.tree.LeftChild(id), q = p.tree.RightChild(id); cmp(m.EvaluateExistingSplit(w.d, *p.tr, w.resid, s2, 1, id, l, q), p.t.in[l], p.t.in[q], p.t.in[id], cat("existing split of node ", id)); }
  // every candidate of the grow-from-root enumeration
  for (int id : p.t.s.leaves()) { auto& o = p.t.in[id]; if (o.empty()) continue; int minl = r.in(0, 4), grid = r.p(1, 2) ? 500 : r.in(2, 8); TreePrior pr(0.9, 1.5, minl); std::vector<double> ev, cv, vw(w.p, 1.0 / w.p); if (r.p(1, 4)) vw[r.in(0, w.p - 1)] = 0; std::vector<int> cf; std::vector<FeatureType> ct; data_size_t cnt = -5;
    CutpointGridContainer c(w.d.GetCovariates(), w.resid.GetData(), grid); int b = p.tr->SortedNodeBegin(id, 0), e = p.tr->SortedNodeEnd(id, 0);
    m.EvaluateAllPossibleSplits(w.d, *p.tr, w.resid, pr, s2, 1, id, ev, cf, cv, ct, cnt, c, b, e, vw, w.ft);
    REQ(cnt == (int)ev.size() - 1 && cf.size() == ev.size() && cv.size() == ev.size() && ct.size() == ev.size(), "candidate count ", cnt, " for ", ev.size(), " evaluations");
    std::set<std::pair<int, int>> offered;
    for (int k = 0; k < cnt; k++) { int j = cf[k], bi = (int)cv[k]; offered.insert({j, bi}); REQ(vw[j] != 0 && ct[k] == w.ft[j], "candidate uses feature ", j); std::vector<int> L, R; 
      if (w.ft[j] == FeatureType::kUnorderedCategorical) { auto cs = c.CutpointVector(bi, j); for (int i : o) (std::find(cs.begin(), cs.end(), (uint32_t)w.X(i, j)) != cs.end() ? L : R).push_back(i); } else { double th = c.CutpointValue(bi, j); for (int i : o) (w.X(i, j) <= th ? L : R).push_back(i); }
      double got = ev[k] - ev[cnt], want = val(L) + val(R) - val(o); REQ(closeS(got, want, mag(L) + mag(R) + mag(o), 1e-6), "leaf ", id, " candidate feature ", j, " bin ", bi, ": split minus no-split ", got, " expected ", want);
      REQ((int)L.size() >= minl && (int)R.size() >= minl, "leaf ", id, " candidate feature ", j, " bin ", bi, " leaves ", L.size(), " and ", R.size(), " observations, minimum ", minl); }
    for (int j = 0; j < w.p; j++) if (vw[j] != 0) { int left = 0; for (int bi = 0; bi + 1 < c.NumCutpoints(j); bi++) { left += c.BinLength(bi, j); bool ok = left >= minl && (int)o.size() - left >= minl; REQ(ok == (offered.count({j, bi}) > 0), "leaf ", id, " feature ", j, " bin ", bi, ok ? " should" : " should not", " be a candidate"); } } }
}
CASE(C12, nodes_constant, 150) { proposals<Const>(r, false); }
CASE(C12, nodes_univariate, 150) { proposals<Uni>(r, false); }
CASE(C12, nodes_multivariate, 80) { proposals<Multi>(r, false); }

// ------------------------------------------------------------------ C13
template <class A> static void formulas(Rng& r) {
  World w; make_world(r, w, 1, 15, 1, 2, A::nb(r)); MX B = A::basis(w); int d = B.cols(); MX V = spd(r, d); double s2 = r.p(1, 4) ? r.real(5, 50) : pos_scale(r, 0.05, 3); auto m = A::model(V);
  if (r.p(1, 3)) { V = MX(spd(r, d) * pos_scale(r, 0.5, 2)); if constexpr (A::vec) m.SetScale(V); else m.SetScale(V(0, 0)); }
  note(show_world(w)); { std::ostringstream o; o.precision(17); o << "y=" << w.y.transpose() << " basis=" << Eigen::Map<VX>(B.data(), B.size()).transpose() << " prior=" << Eigen::Map<VX>(V.data(), V.size()).transpose() << " error variance=" << s2; note(o.str()); }
  std::vector<int> L, R, N; for (int i = 0; i < w.n; i++) { N.push_back(i); (r.p(1, 2) ? L : R).push_back(i); }
  auto n = A::stat(d), l = A::stat(d), q = A::stat(d); load<A>(n, w, N); load<A>(l, w, L); load<A>(q, w, R);
  auto val = [&](const std::vector<int>& o) { return dense_ml(w, B, V, w.y, s2, o) - noise_ml(w, w.y, s2, o); };
  double got = m.SplitLogMarginalLikelihood(l, q, s2) - m.NoSplitLogMarginalLikelihood(n, s2), want = val(L) + val(R) - val(N); auto mag = [&](const std::vector<int>& o) { return std::fabs(val(o)) + std::fabs(noise_ml(w, w.y, s2, o)); }; REQ(closeS(got, want, mag(L) + mag(R) + mag(N), 1e-6), "split minus no-split log marginal likelihood = ", got, " expected ", want);
  double a = m.NoSplitLogMarginalLikelihood(l, s2) + m.NoSplitLogMarginalLikelihood(q, s2); REQ(closeE(m.SplitLogMarginalLikelihood(l, q, s2) - a, m.SplitLogMarginalLikelihood(q, l, s2) - a, 1e-8), "split value depends on the order of the children");
  VX pm; MX pc; post(w, B, V, w.y, s2, N, pm, pc);
  if constexpr (A::vec) { VX gm = m.PosteriorParameterMean(n, s2); MX gc = m.PosteriorParameterVariance(n, s2); for (int i = 0; i < d; i++) { REQ(closeE(gm(i), pm(i), 1e-6), "posterior mean(", i, ") = ", gm(i), " expected ", pm(i)); for (int j = 0; j < d; j++) REQ(closeE(gc(i, j), pc(i, j), 1e-6), "posterior variance(", i, ",", j, ") = ", gc(i, j), " expected ", pc(i, j)); } }
  else { double gm = m.PosteriorParameterMean(n, s2), gv = m.PosteriorParameterVariance(n, s2); REQ(closeE(gm, pm(0)), "posterior mean = ", gm, " expected ", pm(0)); REQ(closeE(gv, pc(0, 0)), "posterior variance = ", gv, " expected ", pc(0, 0)); }
}
CASE(C13, constant, 500) { formulas<Const>(r); }
CASE(C13, univariate, 500) { formulas<Uni>(r); }
CASE(C13, multivariate, 300) { formulas<Multi>(r); }
CASE(C13, nodes_constant, 80) { proposals<Const>(r, true); }
CASE(C13, nodes_univariate, 80) { proposals<Uni>(r, true); }
CASE(C13, nodes_multivariate, 50) { proposals<Multi>(r, true); }
// leaf draws: standardised draws over a fixed tree must have mean 0 and variance 1 (six-sigma bounds), and each leaf must use its own observations
template <class A> static void draws(Rng& r) {
  Part p; int nb = A::nb(r); part_init(r, p, nb, 6, 25, std::max(1, nb), 4); World& w = p.w; MX B = A::basis(w); int d = B.cols(); MX V = spd(r, d); auto m = A::model(V); double s2 = r.real(0.2, 2); std::mt19937 gen((unsigned)r.u());
  auto lv = p.t.s.leaves(); const int K = 1500; std::map<int, VX> mu; std::map<int, MX> Li; for (int l : lv) { VX pm; MX pc; post(w, B, V, w.y, s2, p.t.in[l], pm, pc); mu[l] = pm; MX c = pc.llt().matrixL(); Li[l] = c.inverse(); }
  std::map<int, VX> s1; std::map<int, MX> s22; for (int l : lv) { s1[l] = VX::Zero(d); s22[l] = MX::Zero(d, d); }
  for (int k = 0; k < K; k++) { m.SampleLeafParameters(w.d, *p.tr, w.resid, &p.tree, 1, s2, gen); for (int l : lv) { VX v(d); for (int i = 0; i < d; i++) v(i) = p.tree.LeafValue(l, i); VX z = Li[l] * (v - mu[l]); s1[l] += z; s22[l] += z * z.transpose(); } }
  for (int l : lv) for (int i = 0; i < d; i++) { double z = s1[l](i) / std::sqrt((double)K); REQ(std::fabs(z) < 6, "draws of leaf ", l, " output ", i, " are off their posterior mean by ", z, " standard errors"); for (int j = 0; j < d; j++) { double e = (s22[l](i, j) / K - (i == j)) / std::sqrt((i == j ? 2.0 : 1.0) / K); REQ(std::fabs(e) < 6.5, "draws of leaf ", l, ": covariance entry ", i, ",", j, " is off by ", e, " standard errors"); } }
  check_structure(p.tree, p.t.s);
}
CASE(C13, draw_constant, 6) { draws<Const>(r); }
CASE(C13, draw_univariate, 6) { draws<Uni>(r); }
CASE(C13, draw_multivariate, 4) { draws<Multi>(r); }

// ------------------------------------------------------------------ C14
static double leaf_pred(Tree* t, int leaf, const World& w, bool basis, int i) { if (!basis) return t->LeafValue(leaf); double x = 0; for (int k = 0; k < t->OutputDimension(); k++) x += t->LeafValue(leaf, k) * w.B(i, k); return x; }
CASE(C14, updates, 400) {
  int nb = r.in(0, 3); World w; make_world(r, w, 1, 15, 1, 2, nb); note(show_world(w)); bool basis = nb > 0; int od = std::max(1, nb), nt = r.in(1, 3);
  ForestTracker tr(w.d.GetCovariates(), w.ft, nt, w.n); TreeEnsemble e(nt, od, !basis); std::vector<TState> t(nt); for (auto& q : t) ts_root(q, w, od); TreePrior pr(0.9, 2, 1); std::mt19937 gen(5); std::vector<std::vector<double>> cache(nt, std::vector<double>(w.n, 0.)); std::vector<double> res(w.y.data(), w.y.data() + w.n);
  if (r.p(1, 2)) { double c = r.real(-1, 1); int k = r.in(0, nt - 1); if (r.p(1, 2)) { tr.AssignAllSamplesToConstantPrediction(k, c); cache[k].assign(w.n, c); } else { tr.AssignAllSamplesToConstantPrediction(c); for (auto& z : cache) z.assign(w.n, c); } }
  std::plus<double> plus; std::minus<double> minus; Gen g(r, w.p);
  for (int m = r.in(1, 12); m > 0; m--) {
    int k = r.in(0, nt - 1); Tree* tree = e.GetTree(k); int op = r.in(0, 5);
    if (op == 0 && t[k].s.n.size() < 12) { int nid = r.pick(t[k].s.leaves()), var = r.in(0, w.p - 1); SNode q; TreeSplit sp = make_split(r, w, var, t[k].in[nid], q); note(cat("tree ", k, " split ", nid)); AddSplitToModel(tr, w.d, pr, sp, gen, tree, k, nid, var, false); ts_split(t[k], w, nid, q, tree->LeftChild(nid), tree->RightChild(nid)); }
    else if (op == 1 && t[k].s.n.size() > 1) { int nid = r.pick(t[k].s.leaf_parents()); note(cat("tree ", k, " prune ", nid)); RemoveSplitFromModel(tr, w.d, pr, gen, tree, k, nid, tree->LeftChild(nid), tree->RightChild(nid), false); ts_prune(t[k], nid); }
    else if (op == 2) { for (int l : t[k].s.leaves()) { auto v = g.vals(od); if (od == 1) tree->SetLeaf(l, v[0]); else tree->SetLeafVector(l, v); } note(cat("tree ", k, " new leaf values")); }
    else if (op == 3) { bool add = r.p(1, 2); note(cat("whole forest ", add ? "+" : "-")); if (add) UpdateResidualEntireForest(tr, w.d, w.resid, &e, basis, plus); else UpdateResidualEntireForest(tr, w.d, w.resid, &e, basis, minus);
      for (int j = 0; j < nt; j++) for (auto& z : t[j].in) if (t[j].s.n.at(z.first).leaf()) for (int i : z.second) { double v = leaf_pred(e.GetTree(j), z.first, w, basis, i); cache[j][i] = v; res[i] += add ? v : -v; } }
    else { bool add = r.p(1, 2), nw = r.p(1, 2); note(cat("tree ", k, add ? " +" : " -", nw ? " new" : " cached")); if (add) UpdateResidualTree(tr, w.d, w.resid, tree, k, basis, plus, nw); else UpdateResidualTree(tr, w.d, w.resid, tree, k, basis, minus, nw);
      for (auto& z : t[k].in) if (t[k].s.n.at(z.first).leaf()) for (int i : z.second) { if (nw) cache[k][i] = leaf_pred(tree, z.first, w, basis, i); res[i] += add ? cache[k][i] : -cache[k][i]; } }
    for (int i = 0; i < w.n; i++) { REQ(closeE(w.resid.GetElement(i), res[i]), "residual of observation ", i, " is ", w.resid.GetElement(i), " expected ", res[i]); for (int j = 0; j < nt; j++) REQ(closeE(tr.GetTreeSamplePrediction(i, j), cache[j][i]), "cached prediction of tree ", j, " observation ", i, " is ", tr.GetTreeSamplePrediction(i, j), " expected ", cache[j][i]); }
  }
}
CASE(C14, random_effects, 300) {
  World w; int nb = r.in(1, 3); make_world(r, w, 1, 15, 1, 1, 0); std::vector<int32_t> lab; for (int i = 0; i < w.n; i++) lab.push_back(r.in(-2, 3)); std::set<int> u(lab.begin(), lab.end()); int ng = u.size(); MX B(w.n, nb); for (int i = 0; i < w.n; i++) for (int k = 0; k < nb; k++) B(i, k) = r.p(1, 5) ? 0. : r.real(-2, 2); note("labels " + vs(lab));
  RandomEffectsDataset d; d.AddBasis(B.data(), w.n, nb, false); d.AddGroupLabels(lab); RandomEffectsTracker tr(lab); MultivariateRegressionRandomEffectsModel m(nb, ng); std::vector<double> res(w.y.data(), w.y.data() + w.n), cache(w.n, 0.); auto num = [&](int l) { int c = 0; for (int x : u) { if (x == l) return c; c++; } return -1; };
  VX al(nb); MX xi(nb, ng); auto redraw = [&] { for (int k = 0; k < nb; k++) { al(k) = r.p(1, 6) ? 0. : r.real(-2, 2); for (int q = 0; q < ng; q++) xi(k, q) = r.p(1, 6) ? 0. : r.real(-2, 2); } m.SetWorkingParameter(al); m.SetGroupParameters(xi); }; redraw();
  for (int st = r.in(1, 8); st > 0; st--) { int op = r.in(0, 2); if (op == 0) redraw(); else if (op == 1) { note("add current"); m.AddCurrentPredictionToResidual(d, tr, w.resid); for (int i = 0; i < w.n; i++) res[i] += cache[i]; } else { note("subtract new"); m.SubtractNewPredictionFromResidual(d, tr, w.resid); for (int i = 0; i < w.n; i++) { double v = 0; for (int k = 0; k < nb; k++) v += B(i, k) * al(k) * xi(k, num(lab[i])); cache[i] = v; res[i] -= v; } }
    auto pr = m.Predict(d, tr); for (int i = 0; i < w.n; i++) { double v = 0; for (int k = 0; k < nb; k++) v += B(i, k) * al(k) * xi(k, num(lab[i])); REQ(closeE(pr[i], v), "random-effects prediction ", i, " is ", pr[i], " expected ", v); REQ(closeE(w.resid.GetElement(i), res[i]), "residual of observation ", i, " is ", w.resid.GetElement(i), " expected ", res[i]); REQ(closeE(tr.GetPrediction(i), cache[i]), "cached random-effects prediction ", i); } }
}

// ---- runs of the real samplers
template <class A, class Check> static void run_sampler(Rng& r, Check check, bool with_rfx) {
  World w; int nb = A::nb(r); int minl = r.p(1, 3) ? 1 : r.in(2, 6); int lo = std::max(2 * minl + 2, 5); make_world(r, w, lo, lo + 35, 1, 3, nb); 
  int od = std::max(1, nb), nt = r.in(1, 4); MX V = MX::Identity(od, od) * r.real(0.3, 2); auto m = A::model(V); note(show_world(w)); note(cat("trees ", nt, " min leaf ", minl));
  if (A::vec) { double s = 0; for (int i = 0; i + 1 < w.n; i++) { w.y(i) = std::round(w.y(i) * 64) / 64; s += w.y(i); } w.y(w.n - 1) = -s; w.resid.LoadData(w.y.data(), w.n); }   // the multivariate model asks for centred outcomes
  ForestTracker tr(w.d.GetCovariates(), w.ft, nt, w.n); ForestContainer f(nt, od, nb == 0); TreePrior pr(r.p(1, 2) ? 0.99 : 0.6, r.p(1, 2) ? 0.1 : 2., minl); std::mt19937 gen((unsigned)r.u()); std::vector<double> vw(w.p, 1. / w.p); double s2 = r.real(0.02, 1);
  MCMCForestSampler<typename A::M> mc; GFRForestSampler<typename A::M> gf(r.p(1, 2) ? 500 : r.in(2, 10)); bool pre = r.p(1, 3);
  if (pre) { std::vector<double> v(od); for (auto& x : v) x = r.real(-1, 1); if (od == 1) f.InitializeRoot(v[0]); else f.InitializeRoot(v); std::minus<double> minus; UpdateResidualEntireForest(tr, w.d, w.resid, f.GetEnsemble(0), nb > 0, minus); note("forest initialised before sampling"); }
  std::unique_ptr<RandomEffectsTracker> rt; std::unique_ptr<MultivariateRegressionRandomEffectsModel> rm; RandomEffectsDataset rd; std::vector<int32_t> lab;
  if (with_rfx) { for (int i = 0; i < w.n; i++) lab.push_back(i < 3 ? i : r.in(0, 2)); MX RB = MX::Ones(w.n, 2); for (int i = 0; i < w.n; i++) RB(i, 1) = r.real(-1, 1); rd.AddBasis(RB.data(), w.n, 2, false); rd.AddGroupLabels(lab); rt.reset(new RandomEffectsTracker(lab)); rm.reset(new MultivariateRegressionRandomEffectsModel(2, 3)); VX a = VX::Ones(2); MX x = MX::Ones(2, 3), I = MX::Identity(2, 2); rm->SetWorkingParameter(a); rm->SetGroupParameters(x); rm->SetWorkingParameterCovariance(I); rm->SetGroupParameterCovariance(I); rm->SetVariancePriorShape(1.); rm->SetVariancePriorScale(1.); }
  int burn = r.p(2, 3) ? r.in(1, 3) : 0, its = burn + r.in(1, 12);
  // MCMC refuses to run on a single-leaf tree that cannot be split, so it is only run when every tree can move
  for (int it = 0; it < its; it++) {
    bool g = it < burn || r.p(1, 12); note(cat(g ? "GFR sweep " : "MCMC sweep ", it));
    if (g) gf.SampleOneIter(tr, f, m, w.d, w.resid, pr, gen, vw, s2, w.ft, pre); else mc.SampleOneIter(tr, f, m, w.d, w.resid, pr, gen, vw, s2, pre);
    std::vector<double> rp(w.n, 0.); if (with_rfx) { rm->SampleRandomEffects(rd, w.resid, *rt, s2, gen); rp = rm->Predict(rd, *rt); }
    REQ(f.NumSamples() == it + 1, "NumSamples ", f.NumSamples(), " after ", it + 1, " sweeps"); check(w, tr, *f.GetEnsemble(it), minl, rp);
  }
}
template <class A> static void sweeps(Rng& r) {
  run_sampler<A>(r, [](World& w, ForestTracker& tr, TreeEnsemble& e, int, const std::vector<double>& rp) {
    for (int i = 0; i < w.n; i++) { double s = 0; for (int k = 0; k < e.NumTrees(); k++) { int l = EvaluateTree(*e.GetTree(k), w.d.GetCovariates(), i); double v = leaf_pred(e.GetTree(k), l, w, w.nb > 0, i); s += v; double c = tr.GetTreeSamplePrediction(i, k); REQ(closeE(c, v, 1e-6), "cached prediction of tree ", k, " observation ", i, " is ", c, " but the tree predicts ", v); }
      REQ(closeE(w.resid.GetElement(i) + s + rp[i], w.y(i), 1e-6), "observation ", i, ": residual ", w.resid.GetElement(i), " + fit ", s + rp[i], " differs from outcome ", w.y(i)); } }, r.p(1, 3));
}
CASE(C14, sweep_constant, 60) { sweeps<Const>(r); }
CASE(C14, sweep_univariate, 60) { sweeps<Uni>(r); }
CASE(C14, sweep_multivariate, 30) { sweeps<Multi>(r); }
// ------------------------------------------------------------------ C10 / C15 on real sampler runs
static void routed(World& w, ForestTracker& tr, TreeEnsemble& e, int, const std::vector<double>&) {
  for (int k = 0; k < e.NumTrees(); k++) for (int i = 0; i < w.n; i++) { int a = tr.GetNodeId(i, k), b = EvaluateTree(*e.GetTree(k), w.d.GetCovariates(), i); REQ(a == b, "tree ", k, " observation ", i, " tracked in ", a, " but routed to ", b); } }
CASE(C10, sampler_constant, 60) { run_sampler<Const>(r, routed, false); }
CASE(C10, sampler_multivariate, 20) { run_sampler<Multi>(r, routed, false); }
static void sized(World& w, ForestTracker& tr, TreeEnsemble& e, int minl, const std::vector<double>&) {
  for (int k = 0; k < e.NumTrees(); k++) { Tree* t = e.GetTree(k); std::map<int, int> c; for (int l : t->GetLeaves()) c[l] = 0; for (int i = 0; i < w.n; i++) c[EvaluateTree(*t, w.d.GetCovariates(), i)]++; if (t->NumLeaves() > 1) for (auto& z : c) REQ(z.second >= minl, "tree ", k, " leaf ", z.first, " holds ", z.second, " observations, minimum ", minl); } }
CASE(C15, constant, 150) { run_sampler<Const>(r, sized, false); }
CASE(C15, univariate, 120) { run_sampler<Uni>(r, sized, false); }
CASE(C15, multivariate, 60) { run_sampler<Multi>(r, sized, false); }
CASE(C15, candidates_constant, 100) { proposals<Const>(r, false); }
CASE(C15, candidates_univariate, 100) { proposals<Uni>(r, false); }
CASE(C15, candidates_multivariate, 50) { proposals<Multi>(r, false); }

// ------------------------------------------------------------------ C16
CASE(C16, global, 500) {
  int n = r.p(1, 4) ? r.in(50, 400) : r.in(1, 20); VX e(n); for (int i = 0; i < n; i++) e(i) = r.p(1, 3) ? r.in(-3, 3) : r.real(-5, 5); double nu = r.real(0.1, 20), la = r.real(0.01, 5), ss = 0; for (int i = 0; i < n; i++) ss += e(i) * e(i); GlobalHomoskedasticVarianceModel m; note(cat("n=", n, " nu=", nu, " lambda=", la));
  double a = m.PosteriorShape(e, nu, la), b = m.PosteriorScale(e, nu, la), wa = (nu + n) / 2, wb = (nu * la + ss) / 2; REQ(closeE(a, wa), "global shape ", a, " expected ", wa); REQ(closeE(b, wb), "global scale ", b, " expected ", wb);
  unsigned sd = (unsigned)r.u(); std::mt19937 g(sd), h(sd); double x = m.SampleVarianceParameter(e, nu, la, g); REQ(x > 0 && std::isfinite(x), "variance draw ", x); InverseGammaSampler ig; double y = ig.Sample(wa, wb, h); REQ(closeE(x, y, 1e-6), "global variance draw ", x, " is not an inverse gamma draw with the posterior shape and scale (", y, ")");
}
CASE(C16, leaf, 400) {
  int p = r.in(1, 2), od = rnd_odim(r), nt = r.in(1, 5); Gen g(r, p); TreeEnsemble e(nt, od, false); double ss = 0; int nl = 0; for (int k = 0; k < nt; k++) { Shadow s; note(cat("tree ", k)); sh_grow(*e.GetTree(k), s, g, od, r.in(0, 10)); ss += sum_sq(s); nl += s.leaves().size(); }
  double a0 = r.real(0.1, 10), b0 = r.real(0.1, 10); LeafNodeHomoskedasticVarianceModel m; double a = m.PosteriorShape(&e, a0, b0), b = m.PosteriorScale(&e, a0, b0); REQ(closeE(a, a0 / 2 + nl / 2.0), "leaf variance shape ", a, " expected ", a0 / 2 + nl / 2.0); REQ(closeE(b, b0 / 2 + ss / 2), "leaf variance scale ", b, " expected ", b0 / 2 + ss / 2);
  unsigned sd = (unsigned)r.u(); std::mt19937 q(sd), h(sd); double x = m.SampleVarianceParameter(&e, a0, b0, q); InverseGammaSampler ig; double y = ig.Sample(a0 / 2 + nl / 2.0, b0 / 2 + ss / 2, h); REQ(closeE(x, y, 1e-6), "leaf variance draw ", x, " is not an inverse gamma draw with the posterior shape and scale (", y, ")");
}
CASE(C16, random_effects, 300) {
  int nb = r.in(1, 4), ng = r.in(1, 6), n = ng + r.in(0, 8); std::vector<int32_t> lab; for (int i = 0; i < n; i++) lab.push_back(i % ng); MX B = MX::Ones(n, nb); RandomEffectsDataset d; d.AddBasis(B.data(), n, nb, false); d.AddGroupLabels(lab); VX y = VX::Ones(n); ColumnVector cv; cv.LoadData(y.data(), n); RandomEffectsTracker tr(lab);
  MultivariateRegressionRandomEffectsModel m(nb, ng); MX xi(nb, ng), I = MX::Identity(nb, nb); for (int k = 0; k < nb; k++) for (int q = 0; q < ng; q++) xi(k, q) = r.real(-3, 3); double a0 = r.real(0.1, 5), b0 = r.real(0.1, 5); VX al = VX::Ones(nb); m.SetWorkingParameter(al); m.SetGroupParameters(xi); m.SetGroupParameterCovariance(I); m.SetWorkingParameterCovariance(I); m.SetVariancePriorShape(a0); m.SetVariancePriorScale(b0);
  std::vector<double> wa(nb), wb(nb); for (int k = 0; k < nb; k++) { double ss = 0; for (int q = 0; q < ng; q++) ss += xi(k, q) * xi(k, q); wa[k] = a0 + ng / 2.0; wb[k] = b0 + ss / 2; double a = m.VarianceComponentShape(d, cv, tr, 1., k), b = m.VarianceComponentScale(d, cv, tr, 1., k); REQ(closeE(a, wa[k]), "component ", k, " shape ", a, " expected ", wa[k]); REQ(closeE(b, wb[k]), "component ", k, " scale ", b, " expected ", wb[k]); }
  // each variance component is drawn with its own posterior: over many draws the mean of 1/draw is shape/scale, variance shape/scale^2
  const int K = 400; std::vector<double> s(nb, 0.); std::mt19937 g((unsigned)r.u()); for (int t = 0; t < K; t++) { m.SampleVarianceComponents(d, cv, tr, 1., g); for (int k = 0; k < nb; k++) s[k] += 1 / m.GetGroupParameterCovariance()(k, k); for (int i = 0; i < nb; i++) for (int j = 0; j < nb; j++) if (i != j) REQ(m.GetGroupParameterCovariance()(i, j) == 0, "off-diagonal covariance changed"); }
  for (int k = 0; k < nb; k++) { double z = (s[k] / K - wa[k] / wb[k]) / (std::sqrt(wa[k]) / wb[k] / std::sqrt((double)K)); REQ(std::fabs(z) < 8, "draws of component ", k, " are off by ", z, " standard errors"); }
}
CASE(C16, draw, 12) {
  double a = r.real(0.8, 12), b = r.real(0.05, 8); InverseGammaSampler ig; std::mt19937 g((unsigned)r.u()); const int K = 4000; double s = 0, q = 0; note(cat("shape ", a, " scale ", b)); for (int t = 0; t < K; t++) { double x = 1 / ig.Sample(a, b, g); s += x; q += x * x; }   // 1/draw ~ Gamma(a, rate b)
  double mean = s / K, var = q / K - mean * mean, zm = (mean - a / b) / (std::sqrt(a) / b / std::sqrt((double)K)), zv = (var - a / b / b) / (a / b / b * std::sqrt((2 + 6 / a) / K)); REQ(std::fabs(zm) < 7 && std::fabs(zv) < 9, "inverse gamma draws do not have the requested shape and scale (mean off by ", zm, ", variance by ", zv, " standard errors)");
}
int main(int argc, char** argv) { return H::run(argc, argv); }
