"""Contracts of the presorted feature lists (C09): per feature one index vector, a range of it per node."""
from .base import *
from .tree import *
from .routing import *
from .partition import rows_ok, split_range

class SortC(Contract):
    props = ("C09",)
def B(p, x): return p.node_offset_sizes_[x].node_begin_
def N(p, x): return p.node_offset_sizes_[x].node_size_
def E(p, x): return p.node_offset_sizes_[x].node_end_
def F(p): return p.feature_sort_indices_
def known(p, x): return rng(x, 0, p.node_offset_sizes_.len)
def rows_once(v, n):
    q, r = V("q"), V("r")
    return [("rows", FA(q, Implies(rng(q, 0, n), rng(v[q], 0, n)), [v[q]])),
            ("each row once", FA([q, r], Implies(And(rng(q, 0, n), rng(r, 0, n), q != r), v[q] != v[r]), [z3.MultiPattern(v[q], v[r])]))]
def sinv(p):
    x = V("x")
    n = p.num_obs_
    return [("sizes", And(n >= 0, F(p).len == n, p.node_offset_sizes_.len >= 1)), ("root holds everything", And(B(p, 0) == 0, N(p, 0) == n)),
            ("ranges", FA(x, Implies(known(p, x), And(B(p, x) >= 0, N(p, x) >= 0, E(p, x) == B(p, x) + N(p, x), E(p, x) <= n)), [B(p, x), N(p, x), E(p, x)]))] + rows_once(F(p), n)
def le(m, f, a, b):
    """row a comes before row b in the order of feature f (ties in original order)"""
    return And(m[a, f] <= m[b, f], Implies(m[a, f] == m[b, f], a < b))
def in_order(v, m, f, lo, hi):
    q, r = V("q"), V("r")
    return FA([q, r], Implies(And(lo <= q, q < r, r < hi), le(m, f, v[q], v[r])), [z3.MultiPattern(v[q], v[r])])
# a slice of a row list is in order of a feature (definition: sorted_def)
Sorted = z3.Function("in_order", ArrI, z3.ArraySort(Int, ArrR), Int, Int, Int, Bool)
def sorted_def():
    A, M = z3.Const("A~so", ArrI), z3.Const("M~so", z3.ArraySort(Int, ArrR))
    f, lo, hi, q, r = z3.Ints("f~so lo~so hi~so q~so r~so")
    val = lambda i: z3.Select(z3.Select(M, z3.Select(A, i)), f)
    body = z3.ForAll([q, r], Implies(And(lo <= q, q < r, r < hi), And(val(q) <= val(r), Implies(val(q) == val(r), z3.Select(A, q) < z3.Select(A, r)))), patterns=[z3.MultiPattern(z3.Select(A, q), z3.Select(A, r))])
    return z3.ForAll([A, M, f, lo, hi], Sorted(A, M, f, lo, hi) == body, patterns=[Sorted(A, M, f, lo, hi)])
def sorted_node(p, m, x): return Sorted(F(p).e, m.a, p.feature_index_, B(p, x), E(p, x))
@contract
class Offset(SortC):
    name = "NodeOffsetSize::NodeOffsetSize"
    sig = ["i", "i"]
    modifies = ("this",)
    inline_calls = True
    def ensures(self, s): return [("range", And(s.this.node_begin_ == s.a(0), s.this.node_size_ == s.a(1), s.this.node_end_ == s.a(0) + s.a(1)))]
@contract
class Argsort(SortC):
    name = "FeaturePresortRoot::ArgsortRoot"
    modifies = ("this",)
    def requires(self, s):
        m, f, i = s.a(0), s.this.feature_index_, V("i")
        return [("feature", rng(f, 0, m.cols)), ("data", m.rows >= 0), ("no missing values", FA(i, Implies(rng(i, 0, m.rows), Not(F_isnan(m[i, f]))), [m[i, f]]))]
    def ensures(self, s):
        m, p = s.a(0), s.this
        return [("every row listed", F(p).len == m.rows), ("feature kept", p.feature_index_ == s.old.this.feature_index_)] + rows_once(F(p), m.rows) + [("in order of the feature, ties in original order", in_order(F(p), m, p.feature_index_, z3.IntVal(0), m.rows))]
@contract
class RootCtor(SortC):
    name = "FeaturePresortRoot::FeaturePresortRoot"
    sig = ["mat", "i", "i"]
    modifies = ("this",)
    def requires(self, s):
        m, f, i = s.a(0), s.a(1), V("i")
        return [("feature", rng(f, 0, m.cols)), ("data", m.rows >= 0), ("new object", F(s.this).len == 0), ("no missing values", FA(i, Implies(rng(i, 0, m.rows), Not(F_isnan(m[i, f]))), [m[i, f]]))]
    def ensures(self, s):
        m, p = s.a(0), s.this
        return [("every row listed", F(p).len == m.rows), ("feature", p.feature_index_ == s.a(1))] + rows_once(F(p), m.rows) + [("in order of the feature, ties in original order", in_order(F(p), m, s.a(1), z3.IntVal(0), m.rows))]
@contract
class SortCtor(SortC):
    name = "FeaturePresortPartition::FeaturePresortPartition"
    sig = ["*FeaturePresortRoot", "mat", "i", "i"]
    modifies = ("this",)
    def requires(self, s):
        r, m = s.a(0), s.a(1)
        return [("new object", s.this.node_offset_sizes_.len == 0), ("as many rows", And(m.rows >= 0, F(r).len == m.rows))] + rows_once(F(r), m.rows)
    def ensures(self, s):
        p, r = s.this, s.a(0)
        q = V("q")
        return sinv(p) + [("one node with every row", And(p.node_offset_sizes_.len == 1, p.num_obs_ == s.a(1).rows)), ("feature", p.feature_index_ == s.a(2)), ("the presorted list", FA(q, Implies(rng(q, 0, p.num_obs_), F(p)[q] == F(r)[q]), [F(p)[q]]))]
class SAcc(SortC):
    modifies = ()
    inline_calls = True
    def requires(self, s): return sinv(s.this) + [("node", known(s.this, s.a(0)))]
def sacc(fn, val):
    contract(type("Sort" + fn, (SAcc,), {"name": "FeaturePresortPartition::" + fn, "ensures": lambda self, s: [("value", s.ret == val(s.this, s.a(0)))]}))
sacc("NodeBegin", B)
sacc("NodeEnd", E)
sacc("NodeSize", N)
@contract
class SortIndices(SortC):
    name = "FeaturePresortPartition::NodeIndices"
    modifies = ()
    def requires(self, s): return sinv(s.this) + [("node", known(s.this, s.a(0)))]
    def ensures(self, s):
        p, i = s.this, V("i")
        return [("as many as the node holds", s.ret.len == N(p, s.a(0))), ("the node's observations in order", FA(i, Implies(rng(i, 0, s.ret.len), s.ret[i] == F(p)[B(p, s.a(0)) + i]), [s.ret[i]]))]
def appended(p, o, k):
    y = V("y")
    return [("nodes added", p.node_offset_sizes_.len == o.node_offset_sizes_.len + k), ("other nodes kept", FA(y, Implies(known(o, y), And(B(p, y) == B(o, y), N(p, y) == N(o, y), E(p, y) == E(o, y))), [B(p, y), N(p, y), E(p, y)]))]
def kept_order(p, o, m):
    return ("feature kept", And(p.feature_index_ == o.feature_index_, p.num_obs_ == o.num_obs_))
@contract
class AddNodes(SortC):
    name = "FeaturePresortPartition::AddLeftRightNodes"
    inline_calls = True
    modifies = ("this",)
    def requires(self, s):
        n = s.this.num_obs_
        return sinv(s.this) + [("ranges", And(s.a(0) >= 0, s.a(1) >= 0, s.a(0) + s.a(1) <= n, s.a(2) >= 0, s.a(3) >= 0, s.a(2) + s.a(3) <= n))]
    def ensures(self, s):
        p, o = s.this, s.old.this
        k = o.node_offset_sizes_.len
        return sinv(p) + appended(p, o, 2) + [kept_order(p, o, None), ("list kept", And(F(p).len == F(o).len, F(p).e == F(o).e)), ("left", And(B(p, k) == s.a(0), N(p, k) == s.a(1))), ("right", And(B(p, k + 1) == s.a(2), N(p, k + 1) == s.a(3)))]
class Split(SortC):
    modifies = ("this",)
    def requires(self, s):
        p = s.this
        return sinv(p) + rows_ok(s.a(0), s.a(2), p.num_obs_) + [("node", known(p, s.a(1))), ("own feature", rng(p.feature_index_, 0, s.a(0).cols))]
    def lemmas(self, s): return [catdef(), sorted_def()]
    def rule(self, s): pass
    def ensures(self, s): return split_node(s.this, s.old.this, s.a(0), s.a(1), self.rule(s))
def split_node(p, o, m, x, rule):
    k, y = o.node_offset_sizes_.len, V("y")
    apart = Or(N(o, y) == 0, E(o, y) <= B(o, x), E(o, x) <= B(o, y))
    return sinv(p) + appended(p, o, 2) + [kept_order(p, o, None), ("children divide the node", And(B(p, k) == B(o, x), E(p, k) == B(p, k + 1), E(p, k + 1) == E(o, x)))] + split_range(F(p), F(o), B(o, x), E(o, x), E(p, k), rule, V("q")) + \
        [("a sorted node has a sorted left child", Implies(sorted_node(o, m, x), sorted_node(p, m, k))), ("a sorted node has a sorted right child", Implies(sorted_node(o, m, x), sorted_node(p, m, k + 1)))]
@contract
class SplitRuleS(Split):
    name = "FeaturePresortPartition::SplitFeature"
    def rule(self, s): return lambda row: split_true(s.a(3), s.a(0)[row, s.a(2)])
@contract
class SplitNumericS(Split):
    name = "FeaturePresortPartition::SplitFeatureNumeric"
    def rule(self, s): return lambda row: s.a(0)[row, s.a(2)] <= s.a(3)
@contract
class SplitCategoricalS(Split):
    name = "FeaturePresortPartition::SplitFeatureCategorical"
    def rule(self, s): return lambda row: matches(s.a(3).e, z3.IntVal(0), s.a(3).len, s.a(0)[row, s.a(2)])

# ---- all features
def SP(t, i): return t.feature_partitions_[i].v
def every(t, m, extra=()):
    """a partition per feature, each over every row, with the same nodes"""
    i = V("i")
    p = SP(t, i)
    ok = rng(i, 0, t.num_features_)
    return [("a partition per feature", And(t.num_features_ == m.cols, t.num_features_ >= 0, t.feature_partitions_.len == t.num_features_, FA(i, Implies(ok, Not(t.feature_partitions_[i].null)), [t.feature_partitions_[i].null])))] + \
        [("every feature: " + nm, lift(i, ok, f, p.num_obs_)) for nm, f in sinv(p) + [("own feature", And(p.feature_index_ == i, p.num_obs_ == m.rows))] + list(extra(p) if callable(extra) else extra)]
def complete(m):
    i, j = V("i"), V("j")
    return ("no missing values", FA([i, j], Implies(And(rng(i, 0, m.rows), rng(j, 0, m.cols)), Not(F_isnan(m[i, j]))), [m[i, j]]))
def roots(c, m):
    """presorted lists of every feature"""
    i = V("i")
    r = c.feature_presort_[i].v
    ok = rng(i, 0, m.cols)
    return [("a presorted list per feature", And(c.feature_presort_.len == m.cols, FA(i, Implies(ok, Not(c.feature_presort_[i].null)), [c.feature_presort_[i].null])))] + \
        [("every feature: " + nm, lift(i, ok, f, r.feature_index_)) for nm, f in [("every row listed", And(F(r).len == m.rows, r.feature_index_ == i))] + rows_once(F(r), m.rows) + [("in order of the feature, ties in original order", in_order(F(r), m, i, z3.IntVal(0), m.rows))]]
@contract
class RootsCtor(SortC):
    name = "FeaturePresortRootContainer::FeaturePresortRootContainer"
    sig = ["mat", "Vi"]
    modifies = ("this",)
    def requires(self, s):
        m = s.a(0)
        return [("data", And(m.rows >= 0, m.cols >= 0)), ("as many feature types", s.a(1).len == m.cols), ("new object", s.this.feature_presort_.len == 0), complete(m)]
    def hints(self, s, L):
        m, c = s.a(0), s.this
        out = []
        for x in L.ints:
            i = V("i")
            r = c.feature_presort_[i].v
            ok = rng(i, 0, x)
            fs = [And(F(r).len == m.rows, r.feature_index_ == i)] + [f for _, f in rows_once(F(r), m.rows)] + [in_order(F(r), m, i, z3.IntVal(0), m.rows)]
            out.append(And(FA(i, Implies(ok, Not(c.feature_presort_[i].null)), [c.feature_presort_[i].null]), *[lift(i, ok, f, r.feature_index_) for f in fs]))
        return out
    def ensures(self, s): return roots(s.this, s.a(0))
@contract
class SortedCtor(SortC):
    name = "SortedNodeSampleTracker::SortedNodeSampleTracker"
    sig = ["*FeaturePresortRootContainer", "mat", "Vi"]
    modifies = ("this",)
    def requires(self, s):
        m = s.a(1)
        return [("data", And(m.rows >= 0, m.cols >= 0)), ("as many feature types", s.a(2).len == m.cols), ("new object", s.this.feature_partitions_.len == 0)] + roots(s.a(0), m)
    def one(self, m):
        return lambda p: [("one node with every row, in order", And(p.node_offset_sizes_.len == 1, in_order(F(p), m, p.feature_index_, z3.IntVal(0), m.rows)))]
    def hints(self, s, L):
        m, t = s.a(1), s.this
        out = []
        for x in L.ints:
            i = V("i")
            p = SP(t, i)
            ok = rng(i, 0, x)
            fs = [f for _, f in sinv(p) + [("", And(p.feature_index_ == i, p.num_obs_ == m.rows))] + self.one(m)(p)]
            out.append(And(FA(i, Implies(ok, Not(t.feature_partitions_[i].null)), [t.feature_partitions_[i].null]), *[lift(i, ok, f, p.num_obs_) for f in fs]))
        return out
    def ensures(self, s): return every(s.this, s.a(1), self.one(s.a(1)))
def all_split(t, o, m, x, rule, n):
    """features below n: node x is split"""
    i = V("i")
    p, q = SP(t, i), SP(o, i)
    ok = rng(i, 0, n)
    return [("every feature: " + nm, lift(i, ok, f, p.num_obs_)) for nm, f in split_node(p, q, m, x, rule)]
def untouched(t, o, lo, hi):
    i, q, x = V("i"), V("q"), V("x")
    p, r = SP(t, i), SP(o, i)
    ok = rng(i, lo, hi)
    return [FA([i, q], Implies(ok, And(F(p)[q] == F(r)[q], F(p).len == F(r).len)), [F(p)[q]]),
            FA([i, x], Implies(ok, And(B(p, x) == B(r, x), N(p, x) == N(r, x), E(p, x) == E(r, x))), [B(p, x), N(p, x), E(p, x)]),
            FA(i, Implies(ok, And(p.num_obs_ == r.num_obs_, F(p).len == F(r).len, p.feature_index_ == r.feature_index_, p.node_offset_sizes_.len == r.node_offset_sizes_.len)), [p.num_obs_])]
class AllSplit(SortC):
    name = "SortedNodeSampleTracker::PartitionNode"
    modifies = ("this",)
    def requires(self, s):
        t, m = s.this, s.a(0)
        i = V("i")
        return every(t, m) + rows_ok(m, s.a(2), m.rows) + [("node", And(s.a(1) >= 0, FA(i, Implies(rng(i, 0, t.num_features_), known(SP(t, i), s.a(1))), [SP(t, i).num_obs_])))]
    def hints(self, s, L):
        t, o, m = s.this, s.old.this, s.a(0)
        out = []
        for x in L.ints:
            out += [f for _, f in all_split(t, o, m, s.a(1), self.rule(s), x)]
            out += untouched(t, o, x, t.num_features_)
        out += [f for _, f in every(t, m)]
        return out
    def ensures(self, s): return every(s.this, s.a(0)) + [("features kept", s.this.num_features_ == s.old.this.num_features_)] + all_split(s.this, s.old.this, s.a(0), s.a(1), self.rule(s), s.this.num_features_)
@contract
class AllSplitRule(AllSplit):
    sig = ["mat", "i", "i", "TreeSplit"]
    def rule(self, s): return lambda row: split_true(s.a(3), s.a(0)[row, s.a(2)])
@contract
class AllSplitNumeric(AllSplit):
    sig = ["mat", "i", "i", "r"]
    def rule(self, s): return lambda row: s.a(0)[row, s.a(2)] <= s.a(3)
@contract
class AllSplitCategorical(AllSplit):
    sig = ["mat", "i", "i", "Vi"]
    def rule(self, s): return lambda row: matches(s.a(3).e, z3.IntVal(0), s.a(3).len, s.a(0)[row, s.a(2)])
