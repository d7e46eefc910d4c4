"""Contracts of the feature ranges of a node (C20)."""
from .base import *
from .tree import *
from .routing import *
from .residual import tracked
from vc.lib import DBL_MAX

class RangeC(Contract):
    props = ("C20",)
    modifies = ()
    may_throw = True
def part(tr, j): return tr.unsorted_node_sample_tracker_.v.feature_partitions_[j].v
def listed(tr, j, node, m):
    """the node's observation list of tree j: a range of the tree's index vector holding row numbers of the data"""
    U = tr.unsorted_node_sample_tracker_
    p = part(tr, j)
    q = V("q")
    b, l = p.node_begin_[node], p.node_length_[node]
    return [("a list for the node", And(Not(U.null), rng(j, 0, U.v.feature_partitions_.len), Not(U.v.feature_partitions_[j].null), node >= 0, node < p.node_begin_.len, node < p.node_length_.len, b >= 0, l >= 0, b + l <= p.indices_.len)),
            ("rows of the data", FA(q, Implies(rng(q, b, b + l), rng(p.indices_[q], 0, m.rows)), [p.indices_[q]]))]
def finite(m):
    i, j = V("i"), V("j")
    return ("finite values", And(DBL_MAX > 0, FA([i, j], And(m[i, j] <= DBL_MAX, m[i, j] >= -DBL_MAX), [m[i, j]])))
def present(m):
    i, j = V("i"), V("j")
    return FA([i, j], Not(F_isnan(m[i, j])), [m[i, j]])
def value(tr, j, m, q, f): return m[part(tr, j).indices_[q], f]
def within(tr, j, node, q):
    p = part(tr, j)
    return rng(q, p.node_begin_[node], p.node_begin_[node] + p.node_length_[node])
def constant(tr, j, node, m, f, side=None):
    q, r = V("q"), V("r")
    g = lambda x: within(tr, j, node, x) if side is None else And(within(tr, j, node, x), side(x))
    p = part(tr, j)
    return FA([q, r], Implies(And(g(q), g(r)), value(tr, j, m, q, f) <= value(tr, j, m, r, f)), [z3.MultiPattern(p.indices_[q], p.indices_[r])])
def varies(tr, j, node, m, f, side=None):
    """feature f takes two different values among the node's observations (of one side)"""
    q, r = V("q"), V("r")
    g = lambda x: within(tr, j, node, x) if side is None else And(within(tr, j, node, x), side(x))
    return EX([q, r], And(g(q), g(r), value(tr, j, m, q, f) < value(tr, j, m, r, f)))
@contract
class Range(RangeC):
    name = "VarSplitRange"
    modifies = (5, 6)
    def requires(self, s):
        tr, m = s.a(0), s.a(1).covariates_.data_
        return listed(tr, s.a(2), s.a(3), m) + [finite(m), ("feature", rng(s.a(4), 0, m.cols)), ("observations", part(tr, s.a(2)).node_length_[s.a(3)] >= 1)]
    def ensures(self, s):
        tr, m, j, node, f = s.a(0), s.a(1).covariates_.data_, s.a(2), s.a(3), s.a(4)
        q = V("q")
        return [("no observation outside", FA(q, Implies(within(tr, j, node, q), And(s.a(5) <= value(tr, j, m, q, f), value(tr, j, m, q, f) <= s.a(6))), [part(tr, j).indices_[q]])),
                ("the minimum is a value of the node", EX(q, And(within(tr, j, node, q), value(tr, j, m, q, f) == s.a(5)))), ("the maximum is a value of the node", EX(q, And(within(tr, j, node, q), value(tr, j, m, q, f) == s.a(6))))]
@contract
class NonConst(RangeC):
    name = "NodeNonConstant"
    def requires(self, s):
        tr, m = s.a(0), s.a(0)
        m = s.a(0).covariates_.data_
        return listed(s.a(1), s.a(2), s.a(3), m) + [finite(m)]
    def hints(self, s, L):
        m, f = s.a(0).covariates_.data_, V("f")
        return [("no earlier feature varies", FA(f, Implies(rng(f, 0, L.iota), constant(s.a(1), s.a(2), s.a(3), m, f)))), ] if L.depth == 0 else []
    def ensures(self, s):
        m, f = s.a(0).covariates_.data_, V("f")
        return [("splittable exactly when a feature varies", s.ret == EX(f, And(rng(f, 0, m.cols), varies(s.a(1), s.a(2), s.a(3), m, f))))]
@contract
class NonConstSplit(RangeC):
    name = "NodesNonConstantAfterSplit"
    def requires(self, s):
        m = s.a(0).covariates_.data_
        return listed(s.a(1), s.a(3), s.a(4), m) + [finite(m), ("feature", rng(s.a(5), 0, m.cols)), ("not missing", present(m))]
    def hints(self, s, L):
        m, f, tr = s.a(0).covariates_.data_, V("f"), s.a(1)
        left = lambda q: split_true(s.a(2), value(tr, s.a(3), m, q, s.a(5)))
        return [("no earlier feature varies", FA(f, Implies(rng(f, 0, L.iota), Or(constant(tr, s.a(3), s.a(4), m, f, left), constant(tr, s.a(3), s.a(4), m, f, lambda q: Not(left(q)))))))] if L.depth == 0 else []
    def ensures(self, s):
        m, f, tr = s.a(0).covariates_.data_, V("f"), s.a(1)
        left = lambda q: split_true(s.a(2), value(tr, s.a(3), m, q, s.a(5)))
        return [("splittable children exactly when a feature varies in both", s.ret == EX(f, And(rng(f, 0, m.cols), varies(tr, s.a(3), s.a(4), m, f, left), varies(tr, s.a(3), s.a(4), m, f, lambda q: Not(left(q))))))]
