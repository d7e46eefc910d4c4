// Executable contracts for trees, ensembles and forest containers (C01-C07).
#include "shadow.h"
#include <stochtree/kernel.h>
#include <stochtree/partition_tracker.h>

typedef Eigen::Map<Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic, Eigen::ColMajor>> MapX;

// ------------------------------------------------------------------ C01 / C03
static void history(Rng& r, bool structure, bool content) {
  int p = r.in(1, 3); Gen g(r, p); Tree t; Shadow s;
  if (r.p(1, 4)) { t.Reset(); note("Reset"); }
  sh_init(t, s, rnd_odim(r), p);
  int steps = r.p(1, 10) ? r.in(60, 150) : r.in(1, 30);
  for (int i = 0; i < steps; i++) {
    if (r.p(1, 25)) {
      bool rs = r.p(1, 2); if (rs) { t.Reset(); note("Reset"); REQ(t.NumNodes() == 0 && t.NumLeaves() == 0 && t.NumDeletedNodes() == 0, "Reset leaves nodes behind"); }
      sh_init(t, s, rnd_odim(r), p);
    } else sh_step(t, s, g, r.p(1, 3) ? 8 : 40);
    if (structure) check_structure(t, s);
    if (content) check_content(t, s);
  }
}
CASE(C01, history, 1500) { history(r, true, false); }
CASE(C03, history, 1500) { history(r, false, true); }
// a pruned node that is split, pruned and split again must forget its old role
CASE(C03, reuse, 500) {
  int p = 2; Gen g(r, p); Tree t; Shadow s; sh_init(t, s, rnd_odim(r), p);
  for (int i = 0; i < 6; i++) sh_split(t, s, g, r.pick(s.leaves()));
  for (int k = 0; k < 12; k++) {
    sh_collapse(t, s, g, r.pick(s.internals())); check_content(t, s); check_structure(t, s);
    int m = r.in(1, 4); for (int i = 0; i < m; i++) { sh_split(t, s, g, r.pick(s.leaves())); check_content(t, s); check_structure(t, s); }
    if (s.internals().empty()) break;
  }
}
// deep chains
CASE(C01, chain, 60) {
  Gen g(r, 2); Tree t; Shadow s; sh_init(t, s, rnd_odim(r), 2);
  int cur = 0, n = r.in(20, 120);
  for (int i = 0; i < n; i++) { sh_split(t, s, g, cur); cur = r.p(1, 2) ? t.LeftChild(cur) : t.RightChild(cur); }
  check_structure(t, s);
  sh_collapse(t, s, g, r.p(1, 2) ? 0 : r.pick(s.internals())); check_structure(t, s);
  for (int i = 0; i < 10; i++) { sh_split(t, s, g, r.pick(s.leaves())); check_structure(t, s); }
}

// ------------------------------------------------------------------ C02
static double odd_value(Rng& r, Gen& g, const Shadow& s, int j) {
  switch (r.in(0, 13)) {
    case 0: return std::numeric_limits<double>::quiet_NaN();
    case 1: return -r.real(0.0001, 5);
    case 2: return 4294967295.0; case 3: return 4294967296.0 + r.in(0, 9);
    case 4: return r.in(0, 6) + 0.5; case 5: return 1e300; case 6: return -1e300; case 7: return -0.0;
    case 8: { for (auto& k : s.n) if (!k.second.leaf() && !k.second.cat && k.second.var == j) return r.p(1, 2) ? k.second.thr : std::nextafter(k.second.thr, r.p(1, 2) ? 1e308 : -1e308); return 0.25; }
    case 9: return std::numeric_limits<double>::infinity();
    case 10: return -1.0 * r.in(1, 8);
    default: return g.x(j);
  }
}
CASE(C02, routing, 1200) {
  int p = r.in(1, 4); Gen g(r, p); Tree t; Shadow s; sh_grow(t, s, g, rnd_odim(r), r.in(0, 30));
  int n = 30; Eigen::MatrixXd X(n, p);
  for (int i = 0; i < n; i++) for (int j = 0; j < p; j++) X(i, j) = odd_value(r, g, s, j);
  std::vector<double> buf(X.data(), X.data() + n * p); MapX M(buf.data(), n, p);
  for (int i = 0; i < n; i++) {
    auto row = X.row(i); int want = s.route([&](int j) { return row(j); });
    int a = EvaluateTree(t, X, i), b = EvaluateTree(t, M, i);
    if (a != want || b != want) { std::ostringstream o; o.precision(17); o << row; note("row " + o.str()); }
    REQ(a == want, "EvaluateTree row ", i, " gives ", a, " expected ", want);
    REQ(b == want, "EvaluateTree (mapped data) row ", i, " gives ", b, " expected ", want);
  }
  // the free rule objects must agree with the node rules
  for (auto& kv : s.n) if (!kv.second.leaf()) {
    auto& k = kv.second; TreeSplit sp = k.cat ? TreeSplit(k.cats) : TreeSplit(k.thr);
    REQ(sp.SplitSet() && sp.NumericSplit() == !k.cat, "TreeSplit kind");
    for (int i = 0; i < n; i++) {
      double v = X(i, k.var); if (std::isnan(v)) continue;
      bool want = s.goes_left(kv.first, [&](int) { return v; });
      REQ(sp.SplitTrue(v) == want, "TreeSplit::SplitTrue(", v, ") = ", !want, k.cat ? " cats " + vs(k.cats) : cat(" threshold ", k.thr));
      if (k.cat) {
        REQ(SplitTrueCategorical(v, k.cats) == want, "SplitTrueCategorical(", v, ") cats ", vs(k.cats));
        REQ(RowSplitLeft(X, i, k.var, k.cats) == want, "RowSplitLeft(", v, ") cats ", vs(k.cats));
        REQ(NextNodeCategorical(v, k.cats, k.l, k.r) == (want ? k.l : k.r), "NextNodeCategorical(", v, ")");
      } else {
        REQ(SplitTrueNumeric(v, k.thr) == want, "SplitTrueNumeric(", v, ",", k.thr, ")");
        REQ(RowSplitLeft(X, i, k.var, k.thr) == want, "RowSplitLeft(", v, ",", k.thr, ")");
        REQ(NextNodeNumeric(v, k.thr, k.l, k.r) == (want ? k.l : k.r), "NextNodeNumeric(", v, ",", k.thr, ")");
      }
    }
  }
}

// ------------------------------------------------------------------ C04 / C05 helpers
static void same_tree(Tree& t, Tree& u, const char* what) {
  REQ(t.NumNodes() == u.NumNodes() && t.NumDeletedNodes() == u.NumDeletedNodes() && t.NumValidNodes() == u.NumValidNodes(), what, ": node counts differ: ", u.NumNodes(), "/", u.NumDeletedNodes(), " expected ", t.NumNodes(), "/", t.NumDeletedNodes());
  REQ(t == u, what, ": trees are not equal");
}
static void check_both(Tree& t, const Shadow& s) { check_structure(t, s); check_content(t, s); }
static void check_predict(Tree& t, const Shadow& s, Gen& g, int n) {
  auto X = g.X(n);
  for (int i = 0; i < n; i++) { auto row = X.row(i); int w = s.route([&](int j) { return row(j); }); int a = EvaluateTree(t, X, i); REQ(a == w, "routes a row to ", a, " expected ", w); }
}
// the same edits applied to both trees must give the same trees
static void edit_both(Tree& t, Tree& u, Shadow& s, Gen& g, int steps) {
  for (int i = 0; i < steps; i++) {
    uint64_t sd = g.r.u(); Shadow s2 = s;
    { Rng r2(sd); Gen g2(r2, 0); g2.catvar = g.catvar; sh_step(t, s, g2); }
    { Rng r2(sd); Gen g2(r2, 0); g2.catvar = g.catvar; sh_step(u, s2, g2); }
    check_both(t, s); check_both(u, s2); REQ(s.ids() == s2.ids(), "edits of the reloaded tree use different ids");
  }
}

CASE(C04, tree, 700) {
  int p = r.in(1, 3); Gen g(r, p); Tree t; Shadow s; sh_grow(t, s, g, rnd_odim(r), r.in(0, 30));
  json j = json::parse(t.to_json().dump());
  Tree u; if (r.p(1, 2)) { note("(load into a used tree)"); Shadow su; Tree tmp; sh_grow(u, su, g, rnd_odim(r), r.in(0, 15)); note("(end used tree)"); }
  u.from_json(j); note("load");
  same_tree(t, u, "reloaded tree"); check_both(u, s); check_predict(u, s, g, 10);
  REQ(json(u.to_json()) == json(t.to_json()), "saving the reloaded tree gives different JSON");
  edit_both(t, u, s, g, r.in(0, 8)); same_tree(t, u, "after equal edits");
}

struct FShadow { std::vector<Shadow> t; };
static void grow_ens(TreeEnsemble& e, FShadow& f, Gen& g, int maxsteps) {
  f.t.assign(e.NumTrees(), Shadow());
  for (int i = 0; i < e.NumTrees(); i++) { note(cat("tree ", i)); sh_grow(*e.GetTree(i), f.t[i], g, e.OutputDimension(), g.r.in(0, maxsteps)); }
}
static void check_ens(TreeEnsemble& e, FShadow& f, const char* what) {
  REQ(e.NumTrees() == (int)f.t.size(), what, ": NumTrees ", e.NumTrees(), " expected ", f.t.size());
  int nl = 0; bool ar = true; double sq = 0;
  for (size_t i = 0; i < f.t.size(); i++) {
    try { check_both(*e.GetTree(i), f.t[i]); } catch (H::Fail& x) { throw H::Fail(cat(what, ": tree ", i, ": ", x.what())); }
    nl += f.t[i].leaves().size(); ar = ar && f.t[i].n.size() == 1; sq += sum_sq(f.t[i]);
  }
  REQ(e.NumLeaves() == nl, what, ": NumLeaves ", e.NumLeaves(), " expected ", nl);
  REQ(e.AllRoots() == ar, what, ": AllRoots");
  REQ(close(e.SumLeafSquared(), sq), what, ": SumLeafSquared ", e.SumLeafSquared(), " expected ", sq);
}
static std::string tmpfile_name() { return cat(getenv("VERIF_SCRATCH") ? getenv("VERIF_SCRATCH") : "/tmp", "/h_tree_", getpid(), ".json"); }

CASE(C04, ensemble, 150) {
  int p = r.in(1, 3), od = rnd_odim(r); Gen g(r, p); FShadow f; bool lc = od == 1 && r.p(1, 2);
  TreeEnsemble e(r.in(1, 5), od, lc); grow_ens(e, f, g, 12);
  json j = json::parse(e.to_json().dump());
  TreeEnsemble u(r.in(1, 6), rnd_odim(r), r.p(1, 2)); FShadow fu; if (r.p(1, 2)) grow_ens(u, fu, g, 6);
  u.from_json(j);
  REQ(u.OutputDimension() == od && u.IsLeafConstant() == lc, "ensemble settings after load");
  check_ens(u, f, "reloaded ensemble");
  for (int i = 0; i < e.NumTrees(); i++) same_tree(*e.GetTree(i), *u.GetTree(i), "reloaded tree");
  u.ResetInitTree(0); REQ(u.GetTree(0)->OutputDimension() == od, "ResetInitTree output dimension");
}
CASE(C04, container, 120) {
  int p = r.in(1, 3), od = rnd_odim(r), nt = r.in(1, 4), ns = r.in(1, 4); Gen g(r, p); bool lc = od == 1 && r.p(1, 2);
  if (r.p(1, 30)) { ns = r.in(11, 13); nt = r.in(10, 12); }
  ForestContainer c(ns, nt, od, lc); std::vector<FShadow> f(ns);
  for (int k = 0; k < ns; k++) { note(cat("forest ", k)); grow_ens(*c.GetEnsemble(k), f[k], g, ns > 10 ? 3 : 10); }
  ForestContainer u(r.in(0, 3), r.in(1, 5), rnd_odim(r), r.p(1, 2));
  if (r.p(1, 2)) u.from_json(json::parse(c.to_json().dump()));
  else { auto fn = tmpfile_name(); c.SaveToJsonFile(fn); u.LoadFromJsonFile(fn); unlink(fn.c_str()); }
  REQ(u.NumSamples() == ns, "NumSamples ", u.NumSamples(), " expected ", ns);
  REQ(u.NumTrees() == nt && u.OutputDimension() == od && u.IsLeafConstant() == lc, "container settings after load");
  for (int k = 0; k < ns; k++) { REQ(u.OutputDimension(k) == od && u.NumTrees(k) == nt && u.IsLeafConstant(k) == lc, "ensemble settings"); check_ens(*u.GetEnsemble(k), f[k], "reloaded forest"); }
  ForestDataset d; auto X = g.X(7); d.AddCovariates(X.data(), 7, p, false);
  Eigen::MatrixXd B = Eigen::MatrixXd::Random(7, od); if (!lc) d.AddBasis(B.data(), 7, od, false);
  REQ(c.Predict(d) == u.Predict(d), "predictions differ after reload");
  REQ(c.PredictRaw(d) == u.PredictRaw(d), "raw predictions differ after reload");
  u.AddSamples(1); REQ(u.NumSamples() == ns + 1 && u.GetEnsemble(ns)->NumTrees() == nt && u.GetEnsemble(ns)->OutputDimension() == od, "AddSamples after reload");
  u.CopyFromPreviousSample(ns, ns - 1); check_ens(*u.GetEnsemble(ns), f[ns - 1], "copied forest after reload");
}

// ------------------------------------------------------------------ C05
CASE(C05, clone, 500) {
  int p = r.in(1, 3); Gen g(r, p); Tree t; Shadow s; sh_grow(t, s, g, rnd_odim(r), r.in(0, 25));
  Tree u; Shadow su; if (r.p(1, 2)) { note("(clone into a used tree)"); sh_grow(u, su, g, rnd_odim(r), r.in(0, 15)); }
  u.CloneFromTree(&t); note("clone"); su = s;
  same_tree(t, u, "clone"); check_both(u, su); check_predict(u, su, g, 5);
  for (int i = r.in(1, 8); i > 0; i--) { if (r.p(1, 2)) { note("edit source"); sh_step(t, s, g); } else { note("edit copy"); sh_step(u, su, g); } check_both(t, s); check_both(u, su); }
}
CASE(C05, ensemble, 200) {
  int p = r.in(1, 3), od = rnd_odim(r); Gen g(r, p); FShadow f; bool lc = od == 1 && r.p(1, 2);
  TreeEnsemble e(r.in(1, 5), od, lc); grow_ens(e, f, g, 10);
  TreeEnsemble u(e); FShadow fu = f;
  REQ(u.OutputDimension() == od && u.IsLeafConstant() == lc && u.NumTrees() == e.NumTrees(), "copied ensemble settings");
  check_ens(u, fu, "copied ensemble");
  for (int i = 0; i < 6; i++) { int k = r.in(0, e.NumTrees() - 1); if (r.p(1, 2)) sh_step(*e.GetTree(k), f.t[k], g); else sh_step(*u.GetTree(k), fu.t[k], g); }
  check_ens(e, f, "source ensemble after edits"); check_ens(u, fu, "copied ensemble after edits");
  int k = r.in(0, e.NumTrees() - 1), m = r.in(0, e.NumTrees() - 1);
  u.CloneFromExistingTree(k, e.GetTree(m)); fu.t[k] = f.t[m]; check_ens(u, fu, "after CloneFromExistingTree");
  u.ResetInitTree(k); note(cat("ResetInitTree ", k)); Shadow z; z.odim = od; z.p = p; z.ever = 1; z.n[0].vals.assign(od, 0.); fu.t[k] = z; check_ens(u, fu, "after ResetInitTree"); check_ens(e, f, "source after ResetInitTree of the copy");
}
CASE(C05, container, 200) {
  int p = r.in(1, 3), od = rnd_odim(r), nt = r.in(1, 4); Gen g(r, p); bool lc = od == 1 && r.p(1, 2);
  auto fresh = [&](std::vector<double> v) { FShadow f; for (int i = 0; i < nt; i++) { Shadow z; z.odim = od; z.p = p; z.ever = 1; z.n[0].vals = v; f.t.push_back(z); } return f; };
  std::vector<FShadow> f; std::unique_ptr<ForestContainer> c;
  if (r.p(1, 2)) {
    c.reset(new ForestContainer(nt, od, lc)); REQ(c->NumSamples() == 0, "new container NumSamples ", c->NumSamples());
    if (r.p(1, 2)) {
      auto v = g.vals(od); note(cat("InitializeRoot ", vs(v)));
      if (od == 1) c->InitializeRoot(v[0]); else c->InitializeRoot(v);
      REQ(c->NumSamples() == 0, "InitializeRoot changed NumSamples to ", c->NumSamples());
      FShadow q = fresh(v); check_ens(*c->GetEnsemble(0), q, "initialised forest");
      c->IncrementSampleCount(); f.push_back(q);
    }
  } else { int ns = r.in(1, 3); c.reset(new ForestContainer(ns, nt, od, lc)); for (int i = 0; i < ns; i++) f.push_back(fresh(std::vector<double>(od, 0.))); }
  for (int st = 0; st < 10; st++) {
    int op = r.in(0, 4), ns = f.size();
    if (op == 0 || ns == 0) { int k = r.in(0, 3); note(cat("AddSamples ", k)); c->AddSamples(k); for (int i = 0; i < k; i++) f.push_back(fresh(std::vector<double>(od, 0.))); }
    else if (op == 1) { int a = r.in(0, ns - 1), b = r.in(0, ns - 1); if (a != b) { note(cat("Copy sample ", b, " to ", a)); c->CopyFromPreviousSample(a, b); f[a] = f[b]; } }
    else if (op == 2) { int a = r.in(0, ns - 1), k = r.in(0, nt - 1); note(cat("edit forest ", a, " tree ", k)); sh_step(*c->GetEnsemble(a)->GetTree(k), f[a].t[k], g); }
    else if (op == 3) { int a = r.in(0, ns - 1); if (c->AllRoots(a)) { auto v = g.vals(od); note(cat("SetLeaf forest ", a, " ", vs(v))); if (od == 1) c->SetLeafValue(a, v[0]); else c->SetLeafVector(a, v); for (auto& q : f[a].t) q.n[0].vals = v; } }
    else { int a = r.in(0, ns - 1), b = r.in(0, nt - 1); note(cat("ResetInitTree forest ", a, " tree ", b)); c->GetEnsemble(a)->ResetInitTree(b); Shadow z; z.odim = od; z.p = p; z.ever = 1; z.n[0].vals.assign(od, 0.); f[a].t[b] = z; }
    REQ(c->NumSamples() == (int)f.size(), "NumSamples ", c->NumSamples(), " expected ", f.size());
    for (size_t k = 0; k < f.size(); k++) { check_ens(*c->GetEnsemble(k), f[k], cat("forest ", k).c_str()); REQ(c->NumTrees(k) == nt && c->OutputDimension(k) == od && c->IsLeafConstant(k) == lc, "settings of forest ", k); }
  }
}

// ------------------------------------------------------------------ C06
static double dot_leaf(const Shadow& s, int leaf, const Eigen::MatrixXd& B, int i) { double x = 0; for (int k = 0; k < s.odim; k++) x += s.n.at(leaf).vals[k] * B(i, k); return x; }
static int rt(const Shadow& s, const Eigen::MatrixXd& X, int i) { return s.route([&](int j) { return X(i, j); }); }
CASE(C06, tree, 500) {
  int p = r.in(1, 3); Gen g(r, p); Tree t; Shadow s; sh_grow(t, s, g, rnd_odim(r), r.in(0, 20));
  int n = r.in(1, 12); auto X = g.X(n); Eigen::MatrixXd B(n, s.odim); for (int i = 0; i < n; i++) for (int k = 0; k < s.odim; k++) B(i, k) = g.val();
  std::vector<int32_t> nodes; for (int i = 0; i < n; i++) nodes.push_back(rt(s, X, i));
  auto pb = t.PredictFromNodes(nodes, B); REQ((int)pb.size() == n, "PredictFromNodes size");
  for (int i = 0; i < n; i++) {
    double w = dot_leaf(s, nodes[i], B, i);
    REQ(close(pb[i], w), "PredictFromNodes(basis)[", i, "] = ", pb[i], " expected ", w);
    REQ(close(t.PredictFromNode(nodes[i], B, i), w), "PredictFromNode(", nodes[i], ",basis,", i, ")");
  }
  if (s.odim == 1) {
    auto pn = t.PredictFromNodes(nodes); std::vector<double> out(n, -77.); t.InplacePredictFromNodes(out, nodes);
    for (int i = 0; i < n; i++) { double w = s.n.at(nodes[i]).vals[0]; REQ(pn[i] == w && t.PredictFromNode(nodes[i]) == w, "PredictFromNodes[", i, "]"); REQ(out[i] == w, "InplacePredictFromNodes[", i, "] = ", out[i], " expected ", w); }
  }
  double q = 0; for (int l : s.leaves()) { double z = 0; for (double v : s.n.at(l).vals) z += v * v; REQ(close(t.SumSquaredNodeValues(l), z), "SumSquaredNodeValues(", l, ")"); q += z; }
  REQ(close(t.SumSquaredLeafValues(), q), "SumSquaredLeafValues ", t.SumSquaredLeafValues(), " expected ", q);
}
CASE(C06, ensemble, 400) {
  int p = r.in(1, 3), od = rnd_odim(r), nt = r.in(1, 5); Gen g(r, p); bool lc = od == 1 && r.p(1, 2);
  TreeEnsemble e(nt, od, lc); FShadow f; grow_ens(e, f, g, 10);
  int n = r.in(1, 8); auto X = g.X(n); Eigen::MatrixXd B(n, od); for (int i = 0; i < n; i++) for (int k = 0; k < od; k++) B(i, k) = g.val();
  ForestDataset d; d.AddCovariates(X.data(), n, p, false); if (!lc || r.p(1, 2)) d.AddBasis(B.data(), n, od, false);
  int b = r.in(0, nt), en = r.in(b, nt), off = r.p(1, 2) ? 0 : r.in(1, 9); if (r.p(1, 2)) b = 0, en = nt;
  auto want = [&](int i, bool basis) { double w = 0; for (int j = b; j < en; j++) { int l = rt(f.t[j], X, i); w += basis ? dot_leaf(f.t[j], l, B, i) : f.t[j].n.at(l).vals[0]; } return w; };
  auto chk = [&](std::vector<double>& o, bool basis, const char* nm) {
    for (size_t i = 0; i < o.size(); i++) {
      if ((int)i < off || (int)i >= off + n) REQ(o[i] == -77., nm, " wrote outside its slots at ", i);
      else REQ(close(o[i], want(i - off, basis), 1e-8), nm, "[", i, "] = ", o[i], " expected ", want(i - off, basis)); } };
  size_t sz = n + off + r.in(0, 4);
  { std::vector<double> o(sz, -77.); e.PredictInplace(d, o, b, en, off); chk(o, !lc, "PredictInplace(dataset)"); }
  if (b == 0 && en == nt) { std::vector<double> o(sz, -77.); e.PredictInplace(d, o, off); chk(o, !lc, "PredictInplace(dataset, all)"); }
  { std::vector<double> o(sz, -77.); e.PredictInplace(X, B, o, b, en, off); chk(o, true, "PredictInplace(covariates, basis)"); }
  if (od == 1) { std::vector<double> o(sz, -77.); e.PredictInplace(X, o, b, en, off); chk(o, false, "PredictInplace(covariates)"); }
  { std::vector<double> o(n * od + off + 3, -77.); e.PredictRawInplace(d, o, b, en, off);
    for (size_t q = 0; q < o.size(); q++) {
      if ((int)q < off || (int)q >= off + n * od) { REQ(o[q] == -77., "PredictRawInplace wrote outside its slots at ", q); continue; }
      int i = (q - off) / od, k = (q - off) % od; double w = 0; for (int j = b; j < en; j++) w += f.t[j].n.at(rt(f.t[j], X, i)).vals[k];
      REQ(close(o[q], w, 1e-8), "PredictRawInplace obs ", i, " output ", k, " = ", o[q], " expected ", w); } }
}
CASE(C06, container, 300) {
  int p = r.in(1, 2), od = rnd_odim(r), nt = r.in(1, 3), ns = r.in(1, 4); Gen g(r, p); bool lc = od == 1 && r.p(1, 2);
  ForestContainer c(ns, nt, od, lc); std::vector<FShadow> f(ns); for (int k = 0; k < ns; k++) grow_ens(*c.GetEnsemble(k), f[k], g, 6);
  int n = r.in(1, 6); auto X = g.X(n); Eigen::MatrixXd B(n, od); for (int i = 0; i < n; i++) for (int k = 0; k < od; k++) B(i, k) = g.val();
  ForestDataset d; d.AddCovariates(X.data(), n, p, false); if (!lc) d.AddBasis(B.data(), n, od, false);
  auto o = c.Predict(d); REQ((int)o.size() == n * ns, "Predict size ", o.size());
  for (int k = 0; k < ns; k++) for (int i = 0; i < n; i++) { double w = 0; for (int j = 0; j < nt; j++) { int l = rt(f[k].t[j], X, i); w += lc ? f[k].t[j].n.at(l).vals[0] : dot_leaf(f[k].t[j], l, B, i); }
    REQ(close(o[k * n + i], w, 1e-8), "Predict sample ", k, " obs ", i, " = ", o[k * n + i], " expected ", w); }
  auto raw = c.PredictRaw(d); REQ((int)raw.size() == n * ns * od, "PredictRaw size ", raw.size());
  for (int k = 0; k < ns; k++) {
    auto one = c.PredictRaw(d, k); REQ((int)one.size() == n * od, "PredictRaw(forest) size ", one.size());
    for (int i = 0; i < n; i++) for (int q = 0; q < od; q++) { double w = 0; for (int j = 0; j < nt; j++) w += f[k].t[j].n.at(rt(f[k].t[j], X, i)).vals[q];
      REQ(close(raw[(k * n + i) * od + q], w, 1e-8), "PredictRaw sample ", k, " obs ", i, " output ", q, " = ", raw[(k * n + i) * od + q], " expected ", w);
      REQ(close(one[i * od + q], w, 1e-8), "PredictRaw(forest ", k, ") obs ", i, " output ", q); } }
}

// ------------------------------------------------------------------ C07
template <class V> static void check_idx(const V& idx, std::vector<FShadow*> fs, const Eigen::MatrixXd& X, int n, int nt, int bound) {
  FShadow& f = *fs[0]; std::map<std::pair<int, int>, int> seen; std::map<int, std::pair<int, int>> inv;
  for (int j = 0; j < nt; j++) for (int i = 0; i < n; i++) {
    int v = idx[j * n + i], l = rt(f.t[j], X, i); std::pair<int, int> key(j, l);
    REQ(v >= 0 && v < bound, "leaf index ", v, " of tree ", j, " obs ", i, " outside [0,", bound, ")");
    REQ(!seen.count(key) || seen[key] == v, "tree ", j, " obs ", i, ": same leaf, different index ", v, " vs ", seen[key]);
    REQ(!inv.count(v) || inv[v] == key, "index ", v, " names two leaves (tree ", j, " leaf ", l, " and tree ", inv[v].first, " leaf ", inv[v].second, ")");
    seen[key] = v; inv[v] = key; }
}
CASE(C07, indices, 500) {
  int p = r.in(1, 3), od = rnd_odim(r), nt = r.in(1, 5); Gen g(r, p); TreeEnsemble e(nt, od, od == 1); FShadow f; grow_ens(e, f, g, 14);
  int n = r.in(1, 25); auto X = g.X(n); ForestDataset d; d.AddCovariates(X.data(), n, p, false);
  auto a = e.PredictLeafIndices(&d); REQ((int)a.size() == n * nt, "PredictLeafIndices size"); check_idx(a, {&f}, X, n, nt, e.NumLeaves());
  std::vector<int32_t> b(n * nt, -9); e.PredictLeafIndicesInplace(X, b, nt, n); REQ(a == b, "matrix and dataset leaf indices differ");
  std::vector<double> buf(X.data(), X.data() + n * p); MapX M(buf.data(), n, p); std::vector<int32_t> c(n * nt, -9); e.PredictLeafIndicesInplace(M, c, nt, n); REQ(a == c, "mapped and dataset leaf indices differ");
  std::vector<int32_t> h(n * nt, -9); e.PredictLeafIndicesInplace(&d, h, nt, n); REQ(a == h, "in-place leaf indices differ");
  int k = r.in(0, nt - 1), off = r.in(0, 5), ml = r.in(0, 50); std::vector<int32_t> o(n + off + 4, -9); e.GetTree(k)->PredictLeafIndexInplace(X, o, off, ml);
  std::map<int, int> m1, m2; for (int i = 0; i < (int)o.size(); i++) { if (i < off || i >= off + n) { REQ(o[i] == -9, "PredictLeafIndexInplace wrote slot ", i); continue; }
    int l = rt(f.t[k], X, i - off); REQ(o[i] >= ml && o[i] < ml + (int)f.t[k].leaves().size(), "leaf index ", o[i], " outside its block"); REQ((!m1.count(l) || m1[l] == o[i]) && (!m2.count(o[i]) || m2[o[i]] == l), "leaf index not one-to-one"); m1[l] = o[i]; m2[o[i]] = l; }
}
CASE(C07, kernel, 250) {
  int p = r.in(1, 3), nt = r.in(1, 6); Gen g(r, p); TreeEnsemble e(nt, 1, true); FShadow f; grow_ens(e, f, g, 12);
  int n = r.in(1, 12), m = r.in(1, 9); auto X = g.X(n), Z = g.X(m);
  auto share = [&](const Eigen::MatrixXd& A, int i, const Eigen::MatrixXd& C, int k) { int s = 0; for (int j = 0; j < nt; j++) s += rt(f.t[j], A, i) == rt(f.t[j], C, k); return s; };
  auto chk = [&](const Eigen::MatrixXd& K, const Eigen::MatrixXd& A, const Eigen::MatrixXd& C, const char* nm) {
    REQ(K.rows() == A.rows() && K.cols() == C.rows(), nm, " has shape ", K.rows(), "x", K.cols());
    for (int i = 0; i < K.rows(); i++) for (int k = 0; k < K.cols(); k++) REQ(K(i, k) == share(A, i, C, k), nm, "(", i, ",", k, ") = ", K(i, k), " expected ", share(A, i, C, k)); };
  std::vector<double> bx(X.data(), X.data() + n * p), bz(Z.data(), Z.data() + m * p); KernelMatrixType MX(bx.data(), n, p), MZ(bz.data(), m, p);
  ForestKernel K; bool map = r.p(1, 2);
  if (r.p(1, 2)) { Eigen::MatrixXd Y = g.X(r.in(1, 8)); note("(kernel object used before)"); K.ComputeKernel(Y, e); }
  if (r.p(1, 2)) {
    if (map) K.ComputeKernel(MX, MZ, e); else K.ComputeKernel(X, Z, e);
    chk(K.GetTrainKernel(), X, X, "train kernel"); chk(K.GetTestTrainKernel(), Z, X, "test-train kernel"); chk(K.GetTestKernel(), Z, Z, "test kernel");
    check_idx(K.GetTrainLeafIndices(), {&f}, X, n, nt, e.NumLeaves()); check_idx(K.GetTestLeafIndices(), {&f}, Z, m, nt, e.NumLeaves());
    REQ(K.HasTrainLeafIndices() && K.HasTestLeafIndices() && K.NumTrainObservations() == n && K.NumTestObservations() == m && K.NumTrees() == nt, "kernel bookkeeping");
  } else {
    if (map) K.ComputeKernel(MX, e); else K.ComputeKernel(X, e);
    chk(K.GetTrainKernel(), X, X, "train kernel"); check_idx(K.GetTrainLeafIndices(), {&f}, X, n, nt, e.NumLeaves());
  }
  std::vector<double> a(n * n, -1), b(m * n, -1), c(m * m, -1); KernelMatrixType A(a.data(), n, n), Bm(b.data(), m, n), C(c.data(), m, m);
  if (map) K.ComputeKernelExternal(MX, MZ, e, A, Bm, C); else K.ComputeKernelExternal(X, Z, e, A, Bm, C);
  chk(A, X, X, "external train kernel"); chk(Bm, Z, X, "external test-train kernel"); chk(C, Z, Z, "external test kernel");
  std::fill(a.begin(), a.end(), -1); if (map) K.ComputeKernelExternal(MX, e, A); else K.ComputeKernelExternal(X, e, A); chk(A, X, X, "external train-only kernel");
}

int main(int argc, char** argv) { return H::run(argc, argv); }
