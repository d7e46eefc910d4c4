"""Contracts of leaf indices (C07): positions in a tree's leaf list, made distinct across trees."""
from .base import *
from .tree import *
from .routing import *
from .predict import filled, covs, forest, usable, QUO, REM, block

_pos = {}
def position(v, x):
    """position of x in a list in which it occurs once"""
    args = [v.e.a if hasattr(v.e, "a") else v.e, v.len]
    if "f" not in _pos: _pos["f"] = z3.Function("position_in_list", args[0].sort(), Int, Int, Int)
    return _pos["f"](args[0], args[1], x)
def position_def(v):
    x, i = V("x"), V("i")
    return [FA(x, Implies(v.cnt[x] == 1, And(rng(position(v, x), 0, v.len), v[position(v, x)] == x)), [position(v, x)]),
            FA(i, Implies(And(rng(i, 0, v.len), v.cnt[v[i]] == 1), position(v, v[i]) == i), [v[i]])]
def index(t, m, row): return position(t.leaves_, routed(t, m, row))

class IndexC(Contract):
    props = ("C07",)
    nan = True
@contract
class LeafIndex(IndexC):
    name = "Tree::PredictLeafIndexInplace"
    sig = ["mat", "Vi", "i", "i"]
    modifies = (1,)
    def requires(self, s): return inv(s.this) + columns(s.this, s.a(0)) + [("room", And(s.a(2) >= 0, s.a(2) + s.a(0).rows <= s.a(1).len))]
    def lemmas(self, s): return position_def(s.this.leaves_)
    def facts(self, s, L):
        v, x = s.this.leaves_, routed(s.this, s.a(0), L.iota)
        return [Implies(v.cnt[x] == 1, And(rng(position(v, x), 0, v.len), v[position(v, x)] == x))]
    def hints(self, s, L):
        out, lv = [], s.this.leaves_
        for v, _ in L.aggs:
            if not isinstance(v.t, TMap): continue
            i, x = V("i"), V("x")
            out += [("every leaf so far numbered", FA(i, Implies(rng(i, 0, L.iota), v.has[lv[i]]), [lv[i]])),
                    ("numbers are positions", FA(x, Implies(v.has[x], And(rng(v.val[x], 0, L.iota), lv[v.val[x]] == x)), [v.has[x]]))]
        if not L.changes("p1"): return out
        return out + [("so far: " + n, f) for n, f in self.post(s, L.iota)]
    def post(self, s, n):
        t, m = s.this, s.a(0)
        return filled(s.a(1), s.old.a(1), s.a(2), n, lambda i: s.a(3) + index(t, m, i))
    def ensures(self, s): return self.post(s, s.a(0).rows)
@contract
class LeafIndexData(IndexC):
    name = "Tree::PredictLeafIndexInplace"
    sig = ["*ForestDataset", "Vi", "i", "i"]
    modifies = (1,)
    def requires(self, s): return inv(s.this) + columns(s.this, covs(s.a(0))) + [("room", And(s.a(2) >= 0, s.a(2) + covs(s.a(0)).rows <= s.a(1).len))]
    def ensures(self, s):
        t, m = s.this, covs(s.a(0))
        return filled(s.a(1), s.old.a(1), s.a(2), m.rows, lambda i: s.a(3) + index(t, m, i))

# ---- ensembles: indices of different trees do not overlap
def base(e, j):
    k = V("k")
    return mk_sum(k, e.trees_[k].leaves_.len, z3.IntVal(0), j)
def indices(e, m, new, old, J, n):
    """entry j * n + i is the index of row i in tree j, for j < J"""
    q, p = V("q"), V("p")
    j, i = QUO(q, n), REM(q, n)
    return [("length kept", new.len == old.len), ("indices", FA(q, Implies(rng(q, 0, J * n), new[q] == base(e, j) + index(e.trees_[j], m, i)), [new[q]])),
            ("other positions kept", FA(p, Implies(And(rng(p, 0, old.len), p >= J * n), new[p] == old[p]), [new[p]]))]
class EnsIndexC(Unfold, IndexC): 
    def facts(self, s, L): return [block(s.a(3), L.iota)]
    def before_call(self, s, at, callee):
        out = Unfold.before_call(self, s, at, callee)
        if callee.name != "Tree::PredictLeafIndexInplace": return out
        return out + [("tree splits on columns of the data", splits_on(at.this, at.a(0)), [f for _, f in columns(at.this, at.a(0))])]
@contract
class EnsIndex(EnsIndexC):
    name = "TreeEnsemble::PredictLeafIndicesInplace"
    sig = ["mat", "Vi", "i", "i"]
    modifies = (1,)
    def requires(self, s):
        return forest(s.this) + usable(s.this, s.a(0)) + [("all trees", s.a(2) == s.this.num_trees_), ("all rows", s.a(3) == s.a(0).rows), ("room", s.a(2) * s.a(3) <= s.a(1).len)]
    def hints(self, s, L): return indices(s.this, s.a(0), s.a(1), s.old.a(1), L.iota, s.a(3))
    def ensures(self, s): return indices(s.this, s.a(0), s.a(1), s.old.a(1), s.this.num_trees_, s.a(3))
@contract
class EnsIndexData(IndexC):
    name = "TreeEnsemble::PredictLeafIndicesInplace"
    sig = ["*ForestDataset", "Vi", "i", "i"]
    modifies = (1,)
    def requires(self, s):
        m = covs(s.a(0))
        return forest(s.this) + usable(s.this, m) + [("all trees", s.a(2) == s.this.num_trees_), ("all rows", s.a(3) == m.rows), ("room", s.a(2) * s.a(3) <= s.a(1).len)]
    def ensures(self, s): return indices(s.this, covs(s.a(0)), s.a(1), s.old.a(1), s.this.num_trees_, s.a(3))
@contract
class EnsIndexNew(IndexC):
    name = "TreeEnsemble::PredictLeafIndices"
    modifies = ()
    def requires(self, s):
        d = s.a(0)
        return forest(s.this) + usable(s.this, covs(d)) + [("rows recorded", d.num_observations_ == covs(d).rows)]
    def ensures(self, s):
        m, e, q, n = covs(s.a(0)), s.this, V("q"), covs(s.a(0)).rows
        return [("one index per tree and row", s.ret.len == e.num_trees_ * n),
                ("indices", FA(q, Implies(rng(q, 0, e.num_trees_ * n), s.ret[q] == base(e, QUO(q, n)) + index(e.trees_[QUO(q, n)], m, REM(q, n))), [s.ret[q]]))]
