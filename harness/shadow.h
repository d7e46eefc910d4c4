// Reference model of a tree and the edit-history generator shared by several harnesses.
#pragma once
#include "common.h"
#include <stochtree/tree.h>
#include <stochtree/ensemble.h>
#include <stochtree/container.h>
#include <stochtree/data.h>
using namespace StochTree;
using H::Rng; using H::cat; using H::vs; using H::note; using H::close;

struct SNode {
  int parent = -1, l = -1, r = -1;
  bool cat = false; int var = -1; double thr = 0; std::vector<uint32_t> cats;
  std::vector<double> vals;
  bool leaf() const { return l < 0; }
};

template <class T> std::vector<T> sorted(std::vector<T> v) { std::sort(v.begin(), v.end()); return v; }

struct Shadow {
  int odim = 1, p = 1;
  std::map<int, SNode> n;
  int ever = 0;               // ids handed out since the last Init are below this
  bool cats_used = false;

  std::vector<int> ids() const { std::vector<int> v; for (auto& k : n) v.push_back(k.first); return v; }
  std::vector<int> leaves() const { std::vector<int> v; for (auto& k : n) if (k.second.leaf()) v.push_back(k.first); return v; }
  std::vector<int> internals() const { std::vector<int> v; for (auto& k : n) if (!k.second.leaf()) v.push_back(k.first); return v; }
  bool lp(int i) const { auto& s = n.at(i); return !s.leaf() && n.at(s.l).leaf() && n.at(s.r).leaf(); }
  std::vector<int> leaf_parents() const { std::vector<int> v; for (auto& k : n) if (lp(k.first)) v.push_back(k.first); return v; }
  int depth(int i) const { int d = 0; while (n.at(i).parent >= 0) { i = n.at(i).parent; d++; } return d; }
  void erase_sub(int i) { auto& s = n.at(i); int l = s.l, rr = s.r; if (l >= 0) { erase_sub(l); n.erase(l); erase_sub(rr); n.erase(rr); } n.at(i).l = n.at(i).r = -1; }
  template <class Row> bool goes_left(int i, const Row& x) const {
    auto& s = n.at(i); double v = x(s.var);
    if (std::isnan(v)) return true;
    if (!s.cat) return v <= s.thr;
    if (v < 0 || v > 4294967295.0) return false;
    uint64_t c = (uint64_t)v;
    for (auto k : s.cats) if (k == c) return true;
    return false;
  }
  template <class Row> int route(const Row& x) const { int i = 0; while (!n.at(i).leaf()) i = goes_left(i, x) ? n.at(i).l : n.at(i).r; return i; }
};

// ---- structure (C01)
inline void check_structure(Tree& t, const Shadow& s) {
  auto ids = s.ids();
  REQ(t.NumValidNodes() == (int)ids.size(), "NumValidNodes ", t.NumValidNodes(), " but ", ids.size(), " live nodes");
  REQ(t.NumNodes() - t.NumDeletedNodes() == (int)ids.size(), "NumNodes-NumDeletedNodes");
  REQ(sorted(t.GetLeaves()) == s.leaves(), "GetLeaves ", vs(t.GetLeaves()), " expected ", vs(s.leaves()));
  REQ(sorted(t.GetInternalNodes()) == s.internals(), "GetInternalNodes ", vs(t.GetInternalNodes()), " expected ", vs(s.internals()));
  REQ(sorted(t.GetLeafParents()) == s.leaf_parents(), "GetLeafParents ", vs(t.GetLeafParents()), " expected ", vs(s.leaf_parents()));
  REQ(t.NumLeaves() == (int)s.leaves().size(), "NumLeaves ", t.NumLeaves());
  REQ(t.NumLeafParents() == (int)s.leaf_parents().size(), "NumLeafParents ", t.NumLeafParents());
  REQ(t.NumSplitNodes() == (int)s.internals().size(), "NumSplitNodes ", t.NumSplitNodes());
  REQ(t.IsRoot() == (ids.size() == 1), "IsRoot() ", t.IsRoot());
  std::vector<int> del = sorted(t.deleted_nodes_), want;
  for (int i = 0; i < s.ever; i++) if (!s.n.count(i)) want.push_back(i);
  REQ(t.NumNodes() == s.ever, "NumNodes ", t.NumNodes(), " but ", s.ever, " ids were ever used");
  REQ(del == want, "deleted nodes ", vs(del), " expected ", vs(want));
  REQ(t.NumDeletedNodes() == (int)want.size(), "NumDeletedNodes ", t.NumDeletedNodes());
  for (int i : ids) {
    auto& k = s.n.at(i);
    REQ(t.Parent(i) == k.parent, "parent of ", i, " is ", t.Parent(i), " expected ", k.parent);
    REQ(t.LeftChild(i) == k.l && t.RightChild(i) == k.r, "children of ", i, ": ", t.LeftChild(i), ",", t.RightChild(i), " expected ", k.l, ",", k.r);
    REQ(t.IsLeaf(i) == k.leaf(), "IsLeaf(", i, ")");
    REQ(t.IsRoot(i) == (k.parent < 0), "IsRoot(", i, ")");
    REQ(t.IsLeafParent(i) == s.lp(i), "IsLeafParent(", i, ")");
    REQ(t.GetDepth(i) == s.depth(i), "GetDepth(", i, ") = ", t.GetDepth(i), " expected ", s.depth(i));
    if (!k.leaf()) REQ(t.DefaultChild(i) == k.l, "DefaultChild(", i, ")");
  }
}

// ---- contents of every live node (C03)
inline void check_content(Tree& t, const Shadow& s) {
  REQ(t.OutputDimension() == s.odim, "OutputDimension ", t.OutputDimension(), " expected ", s.odim);
  REQ(t.HasVectorOutput() == (s.odim > 1), "HasVectorOutput");
  bool anycat = false;
  for (auto& kv : s.n) {
    int i = kv.first; auto& k = kv.second;
    if (k.leaf()) {
      REQ(t.IsLeaf(i) && t.NodeType(i) == kLeafNode, "node ", i, " should be a leaf node");
      for (int d = 0; d < s.odim; d++) REQ(t.LeafValue(i, d) == k.vals[d], "LeafValue(", i, ",", d, ") = ", t.LeafValue(i, d), " expected ", k.vals[d]);
      if (s.odim == 1) REQ(t.LeafValue(i) == k.vals[0], "LeafValue(", i, ") = ", t.LeafValue(i), " expected ", k.vals[0]);
      else REQ(t.LeafVector(i) == k.vals, "LeafVector(", i, ") = ", vs(t.LeafVector(i)), " expected ", vs(k.vals));
    } else {
      REQ(t.SplitIndex(i) == k.var, "SplitIndex(", i, ") = ", t.SplitIndex(i), " expected ", k.var);
      if (k.cat) {
        anycat = true;
        REQ(t.NodeType(i) == kCategoricalSplitNode, "node ", i, " should be a categorical split");
        REQ(sorted(t.CategoryList(i)) == sorted(k.cats), "CategoryList(", i, ") = ", vs(t.CategoryList(i)), " expected ", vs(k.cats));
      } else {
        REQ(t.NodeType(i) == kNumericalSplitNode, "node ", i, " should be a numeric split");
        REQ(t.Threshold(i) == k.thr, "Threshold(", i, ") = ", t.Threshold(i), " expected ", k.thr);
      }
    }
  }
  if (anycat) REQ(t.HasCategoricalSplit(), "HasCategoricalSplit is false but a categorical split exists");
}

inline double sum_sq(const Shadow& s) { double x = 0; for (auto& k : s.n) if (k.second.leaf()) for (double v : k.second.vals) x += v * v; return x; }

// ---- random edits
struct Gen {
  Rng& r;
  std::vector<bool> catvar;   // which variables hold categories
  int ncat = 6;
  Gen(Rng& r, int p) : r(r) { for (int j = 0; j < p; j++) catvar.push_back(r.p(2, 5)); }
  double thr() { switch (r.in(0, 5)) { case 0: return r.in(-3, 3); case 1: return r.real(-1e6, 1e6); case 2: return r.in(-4, 4) * 0.5; case 3: return 0.0; default: return r.real(-3, 3); } }
  double val() { switch (r.in(0, 4)) { case 0: return r.in(-5, 5); case 1: return r.real(-1e5, 1e5); case 2: return 0; default: return r.real(-2, 2); } }
  std::vector<double> vals(int d) { std::vector<double> v(d); for (auto& x : v) x = val(); return v; }
  std::vector<uint32_t> cats() {
    std::vector<uint32_t> c; for (int i = 0; i < ncat; i++) if (r.p(1, 2)) c.push_back(i);
    if (c.empty() && !r.p(1, 8)) c.push_back(r.in(0, ncat - 1));
    if (r.p(1, 10)) c.push_back(r.p(1, 2) ? 4294967295u : (uint32_t)r.in(7, 100000));
    std::shuffle(c.begin(), c.end(), r.g); return c; }
  double x(int j) {
    if (catvar[j]) { if (r.p(1, 12)) return r.p(1, 2) ? -1.0 * r.in(1, 3) : 5e9; return r.in(0, ncat); }
    return r.p(1, 2) ? r.in(-4, 4) * 0.5 : r.real(-3, 3);
  }
  Eigen::MatrixXd X(int n) { Eigen::MatrixXd m(n, catvar.size()); for (int i = 0; i < n; i++) for (size_t j = 0; j < catvar.size(); j++) m(i, j) = x(j); return m; }
};

inline void sh_init(Tree& t, Shadow& s, int odim, int p) {
  t.Init(odim);
  s.n.clear(); s.odim = odim; s.p = p; s.ever = 1; s.n[0] = SNode(); s.n[0].vals.assign(odim, 0.0);
  note(cat("Init(", odim, ")"));
}

inline void sh_split(Tree& t, Shadow& s, Gen& g, int nid) {
  Rng& r = g.r;
  int var = r.in(0, s.p - 1);
  bool c = g.catvar[var]; double th = g.thr(); auto cs = g.cats();
  auto lv = g.vals(s.odim), rv = g.vals(s.odim);
  bool via = r.p(1, 2);
  note(cat("split node ", nid, " var ", var, c ? " cats " + vs(cs) : cat(" thr ", th), " left ", vs(lv), " right ", vs(rv), via ? " (TreeSplit)" : ""));
  TreeSplit sp = c ? TreeSplit(cs) : TreeSplit(th);
  if (s.odim == 1) {
    if (via) t.ExpandNode(nid, var, sp, lv[0], rv[0]);
    else if (c) t.ExpandNode(nid, var, cs, lv[0], rv[0]);
    else t.ExpandNode(nid, var, th, lv[0], rv[0]);
  } else {
    if (via) t.ExpandNode(nid, var, sp, lv, rv);
    else if (c) t.ExpandNode(nid, var, cs, lv, rv);
    else t.ExpandNode(nid, var, th, lv, rv);
  }
  int l = t.LeftChild(nid), rr = t.RightChild(nid);
  REQ(l >= 0 && rr >= 0 && l != rr, "split of ", nid, " produced children ", l, ",", rr);
  REQ(!s.n.count(l) && !s.n.count(rr), "split of ", nid, " reused live id ", s.n.count(l) ? l : rr);
  int fresh = s.ever;
  for (int id : {std::min(l, rr), std::max(l, rr)}) if (id >= s.ever) { REQ(id == fresh, "new id ", id, " skips ", fresh); fresh++; }
  s.ever = fresh;
  auto& k = s.n[nid]; k.l = l; k.r = rr; k.var = var; k.cat = c; k.thr = th; k.cats = cs;
  SNode a; a.parent = nid; a.vals = lv; SNode b; b.parent = nid; b.vals = rv;
  s.n[l] = a; s.n[rr] = b;
}

inline void sh_collapse(Tree& t, Shadow& s, Gen& g, int nid) {
  auto v = g.vals(s.odim); bool leafpar = s.lp(nid) && g.r.p(1, 2);
  note(cat(leafpar ? "ChangeToLeaf " : "CollapseToLeaf ", nid, " value ", vs(v)));
  bool was_leaf = s.n.at(nid).leaf();
  if (s.odim == 1) { if (leafpar) t.ChangeToLeaf(nid, v[0]); else t.CollapseToLeaf(nid, v[0]); }
  else { if (leafpar) t.ChangeToLeaf(nid, v); else t.CollapseToLeaf(nid, v); }
  if (was_leaf) return;
  s.erase_sub(nid); s.n[nid].vals = v; s.n[nid].cat = false;
}

inline void sh_setleaf(Tree& t, Shadow& s, Gen& g, int nid) {
  auto v = g.vals(s.odim);
  note(cat("SetLeaf ", nid, " ", vs(v)));
  if (s.odim == 1) t.SetLeaf(nid, v[0]); else t.SetLeafVector(nid, v);
  s.n[nid].vals = v;
}

// one random edit; style biases towards growing (0), churning (1)
inline void sh_step(Tree& t, Shadow& s, Gen& g, int maxn = 40) {
  Rng& r = g.r; auto lv = s.leaves(); auto in = s.internals();
  int c = r.in(0, 9);
  if (c < 5 && (int)s.n.size() < maxn) sh_split(t, s, g, r.pick(lv));
  else if (c < 8 && !in.empty()) { auto lp = s.leaf_parents(); sh_collapse(t, s, g, r.p(2, 3) ? r.pick(lp) : r.pick(in)); }
  else sh_setleaf(t, s, g, r.pick(lv));
}

inline void sh_grow(Tree& t, Shadow& s, Gen& g, int odim, int steps) {
  sh_init(t, s, odim, g.catvar.size());
  for (int i = 0; i < steps; i++) sh_step(t, s, g);
}
inline int rnd_odim(Rng& r) { return r.p(1, 2) ? 1 : r.in(2, 4); }
