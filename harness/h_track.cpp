// Executable contracts for the trackers and split helpers (C08-C11, C20).
#include "world.h"
#include <stochtree/cutpoint_candidates.h>

struct Sim {
  World w; int nt, odim; std::unique_ptr<ForestTracker> tr; std::unique_ptr<TreeEnsemble> e; std::vector<TState> t;
  TreePrior prior{0.95, 2.0, 1}; std::mt19937 gen{7};
};
static void sim_init(Rng& r, Sim& s, int nlo, int nhi) {
  make_world(r, s.w, nlo, nhi, 1, 3, 0); note(show_world(s.w));
  s.nt = r.in(1, 3); s.odim = r.p(1, 3) ? 2 : 1;
  s.tr.reset(new ForestTracker(s.w.d.GetCovariates(), s.w.ft, s.nt, s.w.n)); s.e.reset(new TreeEnsemble(s.nt, s.odim, s.odim == 1));
  s.t.resize(s.nt); for (auto& q : s.t) ts_root(q, s.w, s.odim);
}
static void sim_split(Rng& r, Sim& s, int k, int nid, bool sorted) {
  auto& t = s.t[k]; SNode q; int var = r.in(0, s.w.p - 1); TreeSplit sp = make_split(r, s.w, var, t.in[nid], q);
  note(cat("tree ", k, ": split node ", nid, " var ", var, q.cat ? " cats " + vs(q.cats) : cat(" thr ", q.thr)));
  Tree* tree = s.e->GetTree(k);
  AddSplitToModel(*s.tr, s.w.d, s.prior, sp, s.gen, tree, k, nid, var, sorted);
  ts_split(t, s.w, nid, q, tree->LeftChild(nid), tree->RightChild(nid));
}
static void sim_prune(Rng& r, Sim& s, int k, int nid) {
  auto& t = s.t[k]; Tree* tree = s.e->GetTree(k); note(cat("tree ", k, ": prune node ", nid));
  RemoveSplitFromModel(*s.tr, s.w.d, s.prior, s.gen, tree, k, nid, tree->LeftChild(nid), tree->RightChild(nid), false);
  ts_prune(t, nid);
}
static void sim_reset(Sim& s, int k) {
  note(cat("tree ", k, ": reset to root")); s.e->ResetInitTree(k); s.tr->ResetRoot(s.w.d.GetCovariates(), s.w.ft, k); ts_root(s.t[k], s.w, s.odim);
}
static void sim_step(Rng& r, Sim& s) {
  int k = r.in(0, s.nt - 1); auto& t = s.t[k]; int c = r.in(0, 19);
  if (c == 0) sim_reset(s, k);
  else if (c < 12 && t.s.n.size() < 30) sim_split(r, s, k, r.pick(t.s.leaves()), false);
  else if (t.s.n.size() > 1) sim_prune(r, s, k, r.p(3, 4) ? r.pick(t.s.leaf_parents()) : r.pick(t.s.internals()));
}
static void check_nodes(Sim& s) {
  for (int k = 0; k < s.nt; k++) {
    auto& t = s.t[k]; auto* u = s.tr->GetUnsortedNodeSampleTracker(); std::vector<int> seen(s.w.n, 0);
    for (auto& kv : t.s.n) {
      int id = kv.first; auto want = sorted(t.in.at(id));
      int b = s.tr->UnsortedNodeBegin(k, id), e = s.tr->UnsortedNodeEnd(k, id), z = s.tr->UnsortedNodeSize(k, id);
      REQ(b >= 0 && e <= s.w.n && z == e - b, "tree ", k, " node ", id, ": begin ", b, " end ", e, " size ", z);
      REQ(z == (int)want.size(), "tree ", k, " node ", id, ": size ", z, " expected ", want.size());
      std::vector<int> got(s.tr->UnsortedNodeBeginIterator(k, id), s.tr->UnsortedNodeEndIterator(k, id));
      REQ(sorted(got) == want, "tree ", k, " node ", id, " lists observations ", vs(sorted(got)), " expected ", vs(want));
      auto ni = u->TreeNodeIndices(k, id); REQ(std::vector<int>(ni.begin(), ni.end()) == got, "tree ", k, " node ", id, ": TreeNodeIndices differs from the node range");
      REQ(u->NodeBegin(k, id) == b && u->NodeEnd(k, id) == e && u->NodeSize(k, id) == z, "tree ", k, " node ", id, ": tracker range");
      auto& q = kv.second;
      REQ(u->IsLeaf(k, id) == q.leaf() && u->IsValidNode(k, id), "tree ", k, " node ", id, ": IsLeaf/IsValidNode");
      if (q.parent >= 0) REQ(u->Parent(k, id) == q.parent, "tree ", k, " node ", id, ": Parent");
      if (!q.leaf()) REQ(u->LeftNode(k, id) == q.l && u->RightNode(k, id) == q.r && u->LeftNodeIsLeaf(k, id) == t.s.n.at(q.l).leaf() && u->RightNodeIsLeaf(k, id) == t.s.n.at(q.r).leaf(), "tree ", k, " node ", id, ": children");
      if (q.leaf()) for (int i : got) { REQ(i >= 0 && i < s.w.n && !seen[i]++, "tree ", k, ": observation ", i, " is in two leaves"); REQ(s.tr->GetNodeId(i, k) == id, "tree ", k, ": observation ", i, " recorded in node ", s.tr->GetNodeId(i, k), " but listed in leaf ", id); }
    }
    for (int i = 0; i < s.w.n; i++) REQ(seen[i] == 1, "tree ", k, ": observation ", i, " is in no leaf");
    for (int id = 0; id < t.s.ever + 2; id++) if (!t.s.n.count(id)) REQ(!u->IsValidNode(k, id), "tree ", k, ": removed or unused node ", id, " is reported as valid");
  }
}
CASE(C08, history, 500) { Sim s; sim_init(r, s, 1, r.p(1, 5) ? 60 : 12); check_nodes(s); int m = r.in(1, 30); for (int i = 0; i < m; i++) { sim_step(r, s); check_nodes(s); } }
// rules given directly to the partition tracker
CASE(C08, direct, 400) {
  World w; make_world(r, w, 1, 20, 1, 3, 0); note(show_world(w)); TState t; ts_root(t, w, 1); UnsortedNodeSampleTracker u(w.n, 2); SampleNodeMapper m(2, w.n);
  m.AssignAllSamplesToRoot(0); m.AssignAllSamplesToRoot(1); std::vector<int> freeids; int next = 1;
  for (int st = r.in(1, 14); st > 0; st--) {
    if (r.p(2, 3) || t.s.n.size() == 1) {
      int nid = r.pick(t.s.leaves()), var = r.in(0, w.p - 1); SNode k; TreeSplit sp = make_split(r, w, var, t.in[nid], k); int l, rr;
      auto take = [&]() { if (!freeids.empty()) { int x = freeids.back(); freeids.pop_back(); return x; } return next++; }; l = take(); rr = take();
      note(cat("split ", nid, " into ", l, ",", rr, " var ", var, k.cat ? " cats " + vs(k.cats) : cat(" thr ", k.thr)));
      if (r.p(1, 2)) u.PartitionTreeNode(w.X, 1, nid, l, rr, var, sp); else if (k.cat) u.PartitionTreeNode(w.X, 1, nid, l, rr, var, k.cats); else u.PartitionTreeNode(w.X, 1, nid, l, rr, var, k.thr);
      m.AddSplit(w.X, sp, var, 1, nid, l, rr); ts_split(t, w, nid, k, l, rr);
    } else {
      auto nid = r.pick(t.s.internals()); note(cat("prune ", nid)); auto before = t.s.ids(); ts_prune(t, nid); for (int id : before) if (!t.s.n.count(id)) freeids.push_back(id);
      u.PruneTreeNodeToLeaf(1, nid); u.UpdateObservationMapping(nid, 1, &m);
    }
    for (auto& kv : t.s.n) { auto g = u.TreeNodeIndices(1, kv.first); REQ(sorted(std::vector<int>(g.begin(), g.end())) == sorted(t.in[kv.first]), "node ", kv.first, " lists ", vs(sorted(std::vector<int>(g.begin(), g.end()))), " expected ", vs(sorted(t.in[kv.first]))); REQ(u.NodeEnd(1, kv.first) - u.NodeBegin(1, kv.first) == (int)g.size() && u.NodeSize(1, kv.first) == (int)g.size(), "node ", kv.first, " size"); }
    for (int id = 0; id < next + 2; id++) REQ(u.IsValidNode(1, id) == (t.s.n.count(id) > 0), "node ", id, t.s.n.count(id) ? " is reported as removed" : " was removed but is reported as valid");
    for (int l : t.s.leaves()) for (int i : t.in[l]) { REQ(m.GetNodeId(i, 1) == l, "observation ", i, " recorded in ", m.GetNodeId(i, 1), " expected ", l); }
    for (int i = 0; i < w.n; i++) REQ(m.GetNodeId(i, 0) == 0 && u.NodeSize(0, 0) == w.n, "another tree's assignment changed");
  }
}

// ------------------------------------------------------------------ C09
static void check_sorted(Sim& s, int k) {
  auto& t = s.t[k]; auto* q = s.tr->GetSortedNodeSampleTracker();
  for (int id : t.s.leaves()) for (int j = 0; j < s.w.p; j++) {
    auto want = sorted(t.in.at(id)); std::stable_sort(want.begin(), want.end(), [&](int a, int b) { return s.w.X(a, j) < s.w.X(b, j); });
    int b = s.tr->SortedNodeBegin(id, j), e = s.tr->SortedNodeEnd(id, j), z = s.tr->SortedNodeSize(id, j);
    REQ(b >= 0 && e <= s.w.n && z == e - b && z == (int)want.size(), "feature ", j, " node ", id, ": begin ", b, " end ", e, " size ", z, " expected size ", want.size());
    REQ(b == s.tr->SortedNodeBegin(id, 0) && z == s.tr->SortedNodeSize(id, 0), "feature ", j, " node ", id, ": range differs from feature 0");
    std::vector<int> got(s.tr->SortedNodeBeginIterator(id, j), s.tr->SortedNodeEndIterator(id, j));
    REQ(got == want, "feature ", j, " node ", id, " lists ", vs(got), " expected ", vs(want));
    for (int i = 0; i < z; i++) REQ((int)q->SortIndex(b + i, j) == want[i], "feature ", j, " node ", id, ": SortIndex");
    auto ni = q->NodeIndices(id, j); REQ(std::vector<int>(ni.begin(), ni.end()) == want, "feature ", j, " node ", id, ": NodeIndices");
  }
}
CASE(C09, splits, 600) {
  Sim s; sim_init(r, s, 1, r.p(1, 5) ? 60 : 14); int k = r.in(0, s.nt - 1); s.tr->ResetRoot(s.w.d.GetCovariates(), s.w.ft, k);
  for (int rep = r.in(1, 2); rep > 0; rep--) {
    check_sorted(s, k); for (int m = r.in(1, 10); m > 0; m--) { sim_split(r, s, k, r.pick(s.t[k].s.leaves()), true); check_sorted(s, k); }
    if (rep > 1) { k = r.in(0, s.nt - 1); sim_reset(s, k); }
  }
}
CASE(C09, direct, 300) {
  World w; make_world(r, w, 1, 20, 1, 3, 0); note(show_world(w)); FeaturePresortRootContainer root(w.X, w.ft); SortedNodeSampleTracker q(&root, w.X, w.ft); TState t; ts_root(t, w, 1); int next = 1;
  for (int m = r.in(1, 8); m > 0; m--) {
    int nid = r.pick(t.s.leaves()), var = r.in(0, w.p - 1); SNode k; TreeSplit sp = make_split(r, w, var, t.in[nid], k); note(cat("split ", nid, " var ", var, k.cat ? " cats " + vs(k.cats) : cat(" thr ", k.thr)));
    if (r.p(1, 2)) q.PartitionNode(w.X, nid, var, sp); else if (k.cat) q.PartitionNode(w.X, nid, var, k.cats); else q.PartitionNode(w.X, nid, var, k.thr);
    ts_split(t, w, nid, k, next, next + 1); next += 2;
    for (int id : t.s.leaves()) for (int j = 0; j < w.p; j++) { auto want = sorted(t.in[id]); std::stable_sort(want.begin(), want.end(), [&](int a, int b) { return w.X(a, j) < w.X(b, j); });
      auto g = q.NodeIndices(id, j); REQ(std::vector<int>(g.begin(), g.end()) == want, "feature ", j, " node ", id, " lists ", vs(std::vector<int>(g.begin(), g.end())), " expected ", vs(want)); REQ(q.NodeBegin(id, j) == q.NodeBegin(id, 0) && (int)q.NodeSize(id, j) == (int)want.size(), "node ", id, " range"); }
  }
}

// ------------------------------------------------------------------ C10
static void check_routes(Sim& s) {
  for (int k = 0; k < s.nt; k++) for (int i = 0; i < s.w.n; i++) { int a = s.tr->GetNodeId(i, k), b = EvaluateTree(*s.e->GetTree(k), s.w.d.GetCovariates(), i); REQ(a == b, "tree ", k, " observation ", i, " tracked in ", a, " but routed to ", b); REQ(s.e->GetTree(k)->IsLeaf(a), "tree ", k, ": tracked node ", a, " is not a leaf");
    auto& x = s.t[k].s; int c = x.route([&](int j) { return s.w.X(i, j); }); REQ(a == c, "tree ", k, " observation ", i, " tracked in ", a, " but the split rules route it to ", c); }
}
CASE(C10, history, 500) { Sim s; sim_init(r, s, 1, r.p(1, 5) ? 60 : 12); for (int m = r.in(1, 30); m > 0; m--) { sim_step(r, s); check_routes(s); } }
CASE(C10, predict, 200) {
  Sim s; sim_init(r, s, 1, 15); for (int m = r.in(1, 20); m > 0; m--) sim_step(r, s);
  Gen g(r, s.w.p); for (int k = 0; k < s.nt; k++) for (int l : s.t[k].s.leaves()) { auto v = g.vals(s.odim); if (s.odim == 1) s.e->GetTree(k)->SetLeaf(l, v[0]); else s.e->GetTree(k)->SetLeafVector(l, v); }
  Eigen::MatrixXd B = Eigen::MatrixXd::Ones(s.w.n, s.odim); s.w.d.AddBasis(B.data(), s.w.n, s.odim, false);
  std::vector<double> p(s.w.n); s.e->PredictInplace(s.w.d, p, 0); for (int i = 0; i < s.w.n; i++) { double z = 0; for (int k = 0; k < s.nt; k++) z += s.odim == 1 ? s.e->GetTree(k)->PredictFromNode(s.tr->GetNodeId(i, k)) : s.e->GetTree(k)->PredictFromNode(s.tr->GetNodeId(i, k), B, i); REQ(close(z, p[i]), "observation ", i, ": tracked prediction ", z, " routed prediction ", p[i]); }
}

// ------------------------------------------------------------------ C11
static void check_bins(World& w, ForestTracker& tr, const std::vector<int>& members, int id, int j, int grid) {
  int b = tr.SortedNodeBegin(id, j), e = tr.SortedNodeEnd(id, j);
  std::vector<int> o(tr.SortedNodeBeginIterator(id, j), tr.SortedNodeEndIterator(id, j)); REQ((int)o.size() == (int)members.size(), "node size");
  CutpointGridContainer c(w.d.GetCovariates(), w.resid.GetData(), grid);
  c.CalculateStrides(w.d.GetCovariates(), w.resid.GetData(), tr.GetSortedNodeSampleTracker(), id, b, e, j, w.ft);
  std::string at = cat("node ", id, " feature ", j, " grid ", grid, ": ");
  std::set<double> dist; for (int i : o) dist.insert(w.X(i, j));
  int nb = c.NumCutpoints(j), pos = b; bool un = w.ft[j] == FeatureType::kUnorderedCategorical, num = w.ft[j] == FeatureType::kNumeric; std::ostringstream sh; for (int k = 0; k < nb; k++) sh << "[" << c.BinStartIndex(k, j) << "+" << c.BinLength(k, j) << " <= " << c.CutpointValue(k, j) << "]";
  note(at + "bins " + sh.str());
  REQ(nb >= 1 && nb <= (int)dist.size(), at, nb, " bins for ", dist.size(), " distinct values");
  if (num) REQ(nb <= grid, at, nb, " bins exceed the requested grid size");
  if (!num || (int)o.size() <= grid) REQ(nb == (int)dist.size(), at, nb, " bins but ", dist.size(), " distinct values need one each");
  std::vector<int> cover(w.n, 0);
  for (int k = 0; k < nb; k++) {
    int s = c.BinStartIndex(k, j), l = c.BinLength(k, j), f = c.BinEndIndex(k, j); REQ(l >= 1 && f == s + l && s >= b && f <= e, at, "bin ", k, " range ", s, "+", l);
    for (int q = s; q < f; q++) REQ(!cover[q]++, at, "position ", q, " is in two bins");
    if (!un) { REQ(s == pos, at, "bin ", k, " starts at ", s, " expected ", pos); pos = f; }
  }
  for (int q = b; q < e; q++) REQ(cover[q] == 1, at, "position ", q, " is in no bin");
  std::map<double, int> bin; for (int k = 0; k < nb; k++) for (int q = c.BinStartIndex(k, j); q < c.BinEndIndex(k, j); q++) { double v = w.X(o[q - b], j); REQ(!bin.count(v) || bin[v] == k, at, "value ", v, " is in two bins"); bin[v] = k; }
  if (!un) { for (int k = 0; k < nb; k++) for (auto& z : bin) REQ((z.first <= c.CutpointValue(k, j)) == (z.second <= k), at, "cutpoint ", c.CutpointValue(k, j), " of bin ", k, " misplaces value ", z.first, " of bin ", z.second); }
  else for (int k = 0; k < nb; k++) { auto cv = c.CutpointVector(k, j); REQ((int)cv.size() == k + 1, at, "category list of bin ", k, " has ", cv.size(), " entries"); for (auto& z : bin) { bool in = std::find(cv.begin(), cv.end(), (uint32_t)z.first) != cv.end(); REQ(in == (z.second <= k), at, "category ", z.first, " of bin ", z.second, in ? " is" : " is not", " in the list of bin ", k); } }
}
CASE(C11, bins, 500) {
  Sim s; sim_init(r, s, 1, r.p(1, 3) ? 80 : 15); s.tr->ResetRoot(s.w.d.GetCovariates(), s.w.ft, 0);
  for (int m = r.in(0, 5); m > 0; m--) sim_split(r, s, 0, r.pick(s.t[0].s.leaves()), true);
  for (int id : s.t[0].s.leaves()) if (!s.t[0].in[id].empty()) for (int j = 0; j < s.w.p; j++) for (int g : {r.in(1, 6), r.in(1, 40), (int)s.t[0].in[id].size(), std::max(1, (int)s.t[0].in[id].size() - 1), 500}) check_bins(s.w, *s.tr, s.t[0].in[id], id, j, g);
}
// reuse of one grid object for several nodes and features
CASE(C11, reuse, 150) {
  Sim s; sim_init(r, s, 4, 30); s.tr->ResetRoot(s.w.d.GetCovariates(), s.w.ft, 0); int g = r.in(2, 20); CutpointGridContainer c(s.w.d.GetCovariates(), s.w.resid.GetData(), g);
  for (int m = r.in(1, 4); m > 0; m--) {
    for (int id : s.t[0].s.leaves()) if (!s.t[0].in[id].empty()) for (int j = 0; j < s.w.p; j++) {
      int b = s.tr->SortedNodeBegin(id, j), e = s.tr->SortedNodeEnd(id, j); c.CalculateStrides(s.w.d.GetCovariates(), s.w.resid.GetData(), s.tr->GetSortedNodeSampleTracker(), id, b, e, j, s.w.ft);
      CutpointGridContainer f(s.w.d.GetCovariates(), s.w.resid.GetData(), g); f.CalculateStrides(s.w.d.GetCovariates(), s.w.resid.GetData(), s.tr->GetSortedNodeSampleTracker(), id, b, e, j, s.w.ft);
      REQ(c.NumCutpoints(j) == f.NumCutpoints(j), "reused grid has ", c.NumCutpoints(j), " bins, a fresh one ", f.NumCutpoints(j)); for (int k = 0; k < f.NumCutpoints(j); k++) REQ(c.BinStartIndex(k, j) == f.BinStartIndex(k, j) && c.BinLength(k, j) == f.BinLength(k, j) && c.CutpointValue(k, j) == f.CutpointValue(k, j), "reused grid bin ", k, " differs"); }
    sim_split(r, s, 0, r.pick(s.t[0].s.leaves()), true); }
}

// ------------------------------------------------------------------ C20
static bool varies(const World& w, const std::vector<int>& o, int j) { for (int i : o) if (w.X(i, j) != w.X(o[0], j)) return true; return false; }
CASE(C20, helpers, 600) {
  Sim s; sim_init(r, s, 1, r.p(1, 4) ? 50 : 10); for (int m = r.in(0, 10); m > 0; m--) sim_step(r, s);
  for (int k = 0; k < s.nt; k++) for (int id : s.t[k].s.leaves()) {
    auto& o = s.t[k].in[id]; std::string at = cat("tree ", k, " leaf ", id, " observations ", vs(o), ": ");
    bool any = false; for (int j = 0; j < s.w.p && !o.empty(); j++) {
      double lo, hi; lo = hi = 12345; VarSplitRange(*s.tr, s.w.d, k, id, j, lo, hi); double wl = s.w.X(o[0], j), wh = wl; for (int i : o) { wl = std::min(wl, s.w.X(i, j)); wh = std::max(wh, s.w.X(i, j)); }
      REQ(lo == wl && hi == wh, at, "VarSplitRange(feature ", j, ") = [", lo, ",", hi, "] expected [", wl, ",", wh, "]"); any = any || varies(s.w, o, j); }
    bool nn = NodeNonConstant(s.w.d, *s.tr, k, id); REQ(nn == any, at, "NodeNonConstant = ", nn, " expected ", any);
    for (int t = 0; t < 3; t++) { int var = r.in(0, s.w.p - 1); SNode q; TreeSplit sp = make_split(r, s.w, var, o, q); std::vector<int> L, R; for (int i : o) (left_of(q, s.w.X(i, var)) ? L : R).push_back(i);
      bool want = false; for (int j = 0; j < s.w.p; j++) want = want || (!L.empty() && !R.empty() && varies(s.w, L, j) && varies(s.w, R, j));
      bool got = NodesNonConstantAfterSplit(s.w.d, *s.tr, sp, k, id, var); REQ(got == want, at, "NodesNonConstantAfterSplit(var ", var, q.cat ? " cats " + vs(q.cats) : cat(" thr ", q.thr), ") = ", got, " expected ", want); }
  }
}
int main(int argc, char** argv) { return H::run(argc, argv); }
