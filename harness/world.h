// Random training data, trackers and reference leaf membership shared by the sampler harnesses.
#pragma once
#include "shadow.h"
#include <stochtree/partition_tracker.h>
#include <stochtree/prior.h>
#include <stochtree/tree_sampler.h>

struct World {
  int n = 0, p = 0, nb = 0;
  std::vector<FeatureType> ft;
  Eigen::MatrixXd X, B; Eigen::VectorXd W, y;
  bool weights = false;
  ForestDataset d;
  ColumnVector resid;
};

inline double tie_value(Rng& r, int style) {
  switch (style) {
    case 0: return r.in(-3, 3);                 // many ties, both signs
    case 1: return r.real(-2, 2);               // continuous
    case 2: return -1.0 * r.in(1, 6) * 0.25;    // all negative with ties
    case 3: return 1e6 + r.in(0, 4);            // large
    case 4: return r.in(0, 1);                  // binary
    case 6: return 2.5 + r.in(0, 9) * 1e-8;     // nearly equal
    case 7: return r.in(-4, 4) * 1e-10;         // nearly zero
    case 8: return r.in(-2, 2) + r.in(0, 2) * 3e-7;  // clusters of nearly equal values
    case 9: return r.p(1, 2) ? 0. : r.real(-1, 1) * std::pow(10., r.in(-6, 6));  // many scales and exact zeros
    default: return 7.5;                        // constant
  }
}

inline void make_world(Rng& r, World& w, int nlo, int nhi, int plo, int phi, int nb, bool cats = true) {
  w.n = r.in(nlo, nhi); w.p = r.in(plo, phi); w.nb = nb;
  w.X.resize(w.n, w.p);
  for (int j = 0; j < w.p; j++) {
    int kind = cats ? r.in(0, 4) : 0;
    if (kind <= 2) {
      w.ft.push_back(FeatureType::kNumeric);
      int st = r.p(1, 12) ? 5 : r.p(1, 3) ? r.in(6, 9) : r.in(0, 4);
      for (int i = 0; i < w.n; i++) w.X(i, j) = tie_value(r, st);
    } else {
      w.ft.push_back(kind == 3 ? FeatureType::kOrderedCategorical : FeatureType::kUnorderedCategorical);
      int k = r.in(1, 6); for (int i = 0; i < w.n; i++) w.X(i, j) = r.in(0, k);
    }
    if (r.p(1, 8)) { for (int i = 1; i < w.n; i++) for (int k = i; k > 0 && w.X(k - 1, j) < w.X(k, j); k--) std::swap(w.X(k - 1, j), w.X(k, j)); }  // decreasing
  }
  w.d.AddCovariates(w.X.data(), w.n, w.p, false);
  if (nb > 0) { w.B.resize(w.n, nb); for (int i = 0; i < w.n; i++) for (int j = 0; j < nb; j++) w.B(i, j) = r.p(1, 4) ? r.in(-1, 1) : r.real(-2, 2); w.d.AddBasis(w.B.data(), w.n, nb, false); }
  w.weights = r.p(1, 3); w.W = Eigen::VectorXd::Ones(w.n);
  if (w.weights) { for (int i = 0; i < w.n; i++) w.W(i) = r.p(1, 8) ? std::pow(10., r.real(-2, 2)) : r.real(0.2, 4); w.d.AddVarianceWeights(w.W.data(), w.n); }
  w.y.resize(w.n); for (int i = 0; i < w.n; i++) w.y(i) = r.real(-2, 2) + (w.X(i, 0) > 0 ? 1.5 : -1.5);
  if (r.p(1, 6)) { for (int i = 0; i < w.n; i++) w.y(i) = r.in(-1, 1); }      // outcomes that cancel exactly
  else if (r.p(1, 10)) { double s = std::pow(10., r.in(-3, 3)); w.y *= s; }
  else if (r.p(1, 20)) w.y.setZero();
  w.resid.LoadData(w.y.data(), w.n);
}
// positive numbers over several orders of magnitude
inline double pos_scale(Rng& r, double lo = 0.1, double hi = 3) { return r.p(1, 3) ? std::pow(10., r.real(-4, 2)) : r.real(lo, hi); }
inline std::string show_world(const World& w) {
  std::ostringstream o; o.precision(17); o << "data n=" << w.n << " types=";
  for (auto t : w.ft) o << (t == FeatureType::kNumeric ? "N" : t == FeatureType::kOrderedCategorical ? "O" : "U");
  o << " X=[";
  for (int i = 0; i < w.n && i < 60; i++) { o << (i ? "; " : ""); for (int j = 0; j < w.p; j++) o << (j ? " " : "") << w.X(i, j); }
  o << "]"; if (w.weights) o << " var_weights=" << w.W.transpose();
  return o.str();
}

// reference tree plus reference membership of every live node
struct TState { Shadow s; std::map<int, std::vector<int>> in; };
inline void ts_root(TState& t, const World& w, int odim) {
  t.s = Shadow(); t.s.odim = odim; t.s.p = w.p; t.s.ever = 1; t.s.n[0].vals.assign(odim, 0.);
  t.in.clear(); for (int i = 0; i < w.n; i++) t.in[0].push_back(i);
}
inline TreeSplit make_split(Rng& r, const World& w, int var, const std::vector<int>& obs, SNode& k) {
  k.var = var; k.cat = w.ft[var] == FeatureType::kUnorderedCategorical;
  if (k.cat) { k.cats.clear(); for (int c = 0; c < 8; c++) if (r.p(1, 2)) k.cats.push_back(c); std::shuffle(k.cats.begin(), k.cats.end(), r.g); return TreeSplit(k.cats); }
  switch (r.in(0, 7)) {
    case 0: k.thr = -1e9; break;                 // empty left child
    case 1: k.thr = r.real(-3, 3); break;
    case 2: k.thr = 1e9; break;                  // empty right child
    case 3: { double a = obs.empty() ? 0 : w.X(obs[r.in(0, obs.size() - 1)], var), b = obs.empty() ? 1 : w.X(obs[r.in(0, obs.size() - 1)], var); k.thr = a + (b - a) / 2; break; }   // between two values
    default: k.thr = obs.empty() ? 0.5 : w.X(obs[r.in(0, obs.size() - 1)], var) + (r.p(1, 3) ? 0.125 : 0);
  }
  return TreeSplit(k.thr);
}
inline bool left_of(const SNode& k, double v) {
  if (!k.cat) return v <= k.thr;
  for (auto c : k.cats) if (v >= 0 && (double)c == std::floor(v)) return true;
  return false;
}
inline void ts_split(TState& t, const World& w, int nid, const SNode& k, int l, int rr) {
  auto& q = t.s.n[nid]; q.var = k.var; q.cat = k.cat; q.thr = k.thr; q.cats = k.cats; q.l = l; q.r = rr;
  SNode a; a.parent = nid; a.vals.assign(t.s.odim, 0.); t.s.n[l] = a; t.s.n[rr] = a;
  t.s.ever = std::max(t.s.ever, std::max(l, rr) + 1);
  t.in[l].clear(); t.in[rr].clear();
  for (int i : t.in[nid]) t.in[left_of(k, w.X(i, k.var)) ? l : rr].push_back(i);
}
inline void ts_prune(TState& t, int nid) {
  std::vector<int> gone; std::function<void(int)> f = [&](int i) { auto& s = t.s.n.at(i); if (s.leaf()) return; gone.push_back(s.l); gone.push_back(s.r); f(s.l); f(s.r); };
  f(nid); t.s.erase_sub(nid); t.s.n[nid].cat = false; t.s.n[nid].vals.assign(t.s.odim, 0.); for (int g : gone) t.in.erase(g);
}
