"""Contracts of prediction: single trees, ensembles, stored samples (C06)."""
from .base import *
from .tree import *
from .routing import *

def dot(t, n, m, row):
    """leaf n of tree t times a row of the basis"""
    k = V("k")
    return mk_sum(k, leafval(t, n, k) * m[row, k], z3.IntVal(0), t.output_dimension_)

class PredC(Contract):
    props = ("C06",)
    modifies = ()

@contract
class FromNode(PredC):
    name = "Tree::PredictFromNode"
    sig = ["i"]
    def requires(self, s): return inv(s.this) + [("live leaf", live_leaf(s.this, s.a(0))), ("scalar", s.this.output_dimension_ == 1)]
    def ensures(self, s): return [("value", s.ret == s.this.leaf_value_[s.a(0)])]
@contract
class FromNodeBasis(PredC):
    name = "Tree::PredictFromNode"
    sig = ["i", "mat", "i"]
    def requires(self, s): return inv(s.this) + [("live leaf", live_leaf(s.this, s.a(0))), ("basis", And(rng(s.a(2), 0, s.a(1).rows), s.this.output_dimension_ <= s.a(1).cols))]
    def ensures(self, s): return [("value", s.ret == dot(s.this, s.a(0), s.a(1), s.a(2)))]
def leaves_given(t, v):
    i = V("i")
    return FA(i, Implies(rng(i, 0, v.len), live_leaf(t, v[i])), [v[i]])
@contract
class FromNodes(PredC):
    name = "Tree::PredictFromNodes"
    sig = ["Vi"]
    def requires(self, s): return inv(s.this) + [("live leaves", leaves_given(s.this, s.a(0))), ("scalar", s.this.output_dimension_ == 1)]
    def ensures(self, s):
        i = V("i")
        return [("one value per node", s.ret.len == s.a(0).len), ("values", FA(i, Implies(rng(i, 0, s.ret.len), s.ret[i] == s.this.leaf_value_[s.a(0)[i]]), [s.ret[i]]))]
@contract
class FromNodesBasis(PredC):
    name = "Tree::PredictFromNodes"
    sig = ["Vi", "mat"]
    def requires(self, s): return inv(s.this) + [("live leaves", leaves_given(s.this, s.a(0))), ("basis", And(s.a(0).len <= s.a(1).rows, s.this.output_dimension_ <= s.a(1).cols))]
    def ensures(self, s):
        i = V("i")
        return [("one value per node", s.ret.len == s.a(0).len), ("values", FA(i, Implies(rng(i, 0, s.ret.len), s.ret[i] == dot(s.this, s.a(0)[i], s.a(1), i)), [s.ret[i]]))]
@contract
class InplaceNodes(PredC):
    name = "Tree::InplacePredictFromNodes"
    modifies = (0,)
    def requires(self, s): return inv(s.this) + [("live leaves", leaves_given(s.this, s.a(1))), ("scalar", s.this.output_dimension_ == 1), ("sizes", s.a(0).len == s.a(1).len)]
    def ensures(self, s):
        i, r = V("i"), s.a(0)
        return [("one value per node", r.len == s.a(1).len), ("values", FA(i, Implies(rng(i, 0, r.len), r[i] == s.this.leaf_value_[s.a(1)[i]]), [r[i]]))]

# ---- ensembles
def forest(e):
    """every tree of the ensemble is well formed and of the ensemble's output dimension"""
    T = e.trees_
    return [("tree count", And(e.num_trees_ >= 0, T.len == e.num_trees_, e.output_dimension_ >= 1))] + each_tree(e)
def each_tree(e):
    T, j = e.trees_, V("t")
    t = T[j]
    return [("every tree is well formed", FA(j, Implies(rng(j, 0, T.len), And(Not(t.null), t.output_dimension_ == e.output_dimension_, wf(t.v))), [t.num_nodes, t.null, t.output_dimension_]))]
def usable(e, m):
    """every row of the data can be routed through every tree"""
    T, j = e.trees_, V("t")
    t = T[j]
    return [("every tree splits on columns of the data", FA(j, Implies(rng(j, 0, T.len), splits_on(t.v, m)), [t.num_nodes]))]
def raw(e, m, row, d, lo, hi):
    k = V("k")
    t = e.trees_[k]
    return mk_sum(k, leafval(t, routed(t, m, row), d), lo, hi)
def scaled(e, m, B, row, lo, hi):
    k, d = V("k"), V("d")
    t = e.trees_[k]
    return mk_sum(k, mk_sum(d, leafval(t, routed(t, m, row), d) * B[row, d], z3.IntVal(0), e.output_dimension_), lo, hi)
def filled(new, old, off, n, val):
    """new[off + i] = val(i) for i < n, everything else kept"""
    q, p = V("q"), V("p")
    return [("length kept", new.len == old.len), ("predictions", FA(q, Implies(rng(q, off, off + n), new[q] == val(q - off)), [new[q]])),
            ("other positions kept", FA(p, Implies(And(rng(p, 0, old.len), Not(rng(p, off, off + n))), new[p] == old[p]), [new[p]]))]

class EnsC(Unfold, PredC):
    nan = True
    may_throw = True
@contract
class EnsPredict(EnsC):
    name = "TreeEnsemble::PredictInplace"
    sig = ["mat", "Vr", "i", "i", "i"]
    modifies = (1,)
    def requires(self, s): return forest(s.this) + usable(s.this, s.a(0)) + [("tree range", And(0 <= s.a(2), s.a(2) <= s.a(3), s.a(3) <= s.this.trees_.len)), ("offset", s.a(4) >= 0)]
    def ensures(self, s):
        e, m = s.this, s.a(0)
        return filled(s.a(1), s.old.a(1), s.a(4), m.rows, lambda i: raw(e, m, i, z3.IntVal(0), s.a(2), s.a(3)))

def R0(): return z3.IntVal(0)
@contract
class EnsPredictAll(EnsC):
    name = "TreeEnsemble::PredictInplace"
    sig = ["mat", "Vr", "i"]
    modifies = (1,)
    def requires(self, s): return forest(s.this) + usable(s.this, s.a(0)) + [("offset", s.a(2) >= 0)]
    def ensures(self, s):
        e, m = s.this, s.a(0)
        return filled(s.a(1), s.old.a(1), s.a(2), m.rows, lambda i: raw(e, m, i, R0(), R0(), e.trees_.len))
@contract
class EnsPredictBasis(EnsC):
    name = "TreeEnsemble::PredictInplace"
    sig = ["mat", "mat", "Vr", "i", "i", "i"]
    modifies = (2,)
    def requires(self, s): return forest(s.this) + usable(s.this, s.a(0)) + [("tree range", And(0 <= s.a(3), s.a(3) <= s.a(4), s.a(4) <= s.this.trees_.len)), ("offset", s.a(5) >= 0), ("a tree", s.this.trees_.len >= 1)]
    def ensures(self, s):
        e, m = s.this, s.a(0)
        return filled(s.a(2), s.old.a(2), s.a(5), m.rows, lambda i: scaled(e, m, s.a(1), i, s.a(3), s.a(4)))
@contract
class EnsPredictBasisAll(EnsC):
    name = "TreeEnsemble::PredictInplace"
    sig = ["mat", "mat", "Vr", "i"]
    modifies = (2,)
    def requires(self, s): return forest(s.this) + usable(s.this, s.a(0)) + [("offset", s.a(3) >= 0), ("a tree", s.this.trees_.len >= 1)]
    def ensures(self, s):
        e, m = s.this, s.a(0)
        return filled(s.a(2), s.old.a(2), s.a(3), m.rows, lambda i: scaled(e, m, s.a(1), i, R0(), e.trees_.len))

def covs(d): return d.covariates_.data_
def basis(d): return d.basis_.data_
def pred(e, d, i, lo, hi): return If(e.is_leaf_constant_, raw(e, covs(d), i, R0(), lo, hi), scaled(e, covs(d), basis(d), i, lo, hi))
@contract
class EnsPredictData(EnsC):
    name = "TreeEnsemble::PredictInplace"
    sig = ["ForestDataset", "Vr", "i", "i", "i"]
    modifies = (1,)
    def requires(self, s): return forest(s.this) + usable(s.this, covs(s.a(0))) + [("tree range", And(0 <= s.a(2), s.a(2) <= s.a(3), s.a(3) <= s.this.trees_.len)), ("offset", s.a(4) >= 0), ("a tree", s.this.trees_.len >= 1)]
    def ensures(self, s):
        e, d = s.this, s.a(0)
        return filled(s.a(1), s.old.a(1), s.a(4), covs(d).rows, lambda i: pred(e, d, i, s.a(2), s.a(3)))
@contract
class EnsPredictDataAll(EnsC):
    name = "TreeEnsemble::PredictInplace"
    sig = ["ForestDataset", "Vr", "i"]
    modifies = (1,)
    def requires(self, s): return forest(s.this) + usable(s.this, covs(s.a(0))) + [("offset", s.a(2) >= 0), ("a tree", s.this.trees_.len >= 1)]
    def ensures(self, s):
        e, d = s.this, s.a(0)
        return filled(s.a(1), s.old.a(1), s.a(2), covs(d).rows, lambda i: pred(e, d, i, R0(), e.trees_.len))

# quotient and remainder of positions by a block length; only the defining property below is given to the solver
QUO, REM = z3.Function("quotient", Int, Int, Int), z3.Function("remainder", Int, Int, Int)
def block(D, i):
    """integer arithmetic: positions of block i of length D"""
    q = V("q")
    return FA(q, Implies(And(D > 0, rng(q, i * D, i * D + D)), And(QUO(q, D) == i, REM(q, D) == q - i * D)), [QUO(q, D)])
def blocks(new, old, off, n, D, val):
    """new[off + i * D + k] = val(i, k) for i < n, k < D, everything else kept"""
    q, p = V("q"), V("p")
    return [("length kept", new.len == old.len), ("predictions", FA(q, Implies(rng(q, off, off + n * D), new[q] == val(QUO(q - off, D), REM(q - off, D))), [new[q]])),
            ("other positions kept", FA(p, Implies(And(rng(p, 0, old.len), Not(rng(p, off, off + n * D))), new[p] == old[p]), [new[p]]))]
@contract
class EnsPredictRaw(EnsC):
    name = "TreeEnsemble::PredictRawInplace"
    sig = ["ForestDataset", "Vr", "i", "i", "i"]
    modifies = (1,)
    def requires(self, s): return forest(s.this) + usable(s.this, covs(s.a(0))) + [("tree range", And(0 <= s.a(2), s.a(2) <= s.a(3), s.a(3) <= s.this.trees_.len)), ("offset", s.a(4) >= 0), ("a tree", s.this.trees_.len >= 1)]
    def post(self, s, n):
        e, d = s.this, s.a(0)
        return blocks(s.a(1), s.old.a(1), s.a(4), n, e.output_dimension_, lambda i, k: raw(e, covs(d), i, k, s.a(2), s.a(3)))
    def facts(self, s, L): return [block(s.this.output_dimension_, L.iota)] if L.depth == 0 else []
    def hints(self, s, L): return self.post(s, L.iota) if L.depth == 0 else []
    def ensures(self, s): return self.post(s, covs(s.a(0)).rows)
@contract
class EnsPredictRawAll(EnsC):
    name = "TreeEnsemble::PredictRawInplace"
    sig = ["ForestDataset", "Vr", "i"]
    modifies = (1,)
    def requires(self, s): return forest(s.this) + usable(s.this, covs(s.a(0))) + [("offset", s.a(2) >= 0), ("a tree", s.this.trees_.len >= 1)]
    def ensures(self, s):
        e, d = s.this, s.a(0)
        return blocks(s.a(1), s.old.a(1), s.a(2), covs(d).rows, e.output_dimension_, lambda i, k: raw(e, covs(d), i, k, R0(), e.trees_.len))

# ---- containers of stored samples
def wf_forest(e, m): return tree_pred("forest_usable_on_columns", e, [m.cols])
def value(F, f, d, i): return tree_fun("sample_prediction", F, [f, covs(d).a, covs(d).rows, basis(d).a, i], Real)
def rawvalue(F, f, d, i, k): return tree_fun("sample_raw_prediction", F, [f, covs(d).a, covs(d).rows, i, k], Real)
def value_def(F, f, d):
    i, k, e = V("i"), V("k"), F[f].v
    L = e.trees_.len
    return [FA(i, value(F, f, d, i) == pred(e, d, i, R0(), L), [value(F, f, d, i)]), FA([i, k], rawvalue(F, f, d, i, k) == raw(e, covs(d), i, k, R0(), L), [rawvalue(F, f, d, i, k)])]
def container(c, d):
    F, q = c.forests_, V("s")
    e = F[q]
    return [("sample count", And(c.num_samples_ >= 0, c.num_samples_ <= F.len, c.output_dimension_ >= 1)),
            ("every sample", FA(q, Implies(rng(q, 0, c.num_samples_), And(Not(e.null), e.num_trees_ >= 1, e.output_dimension_ == c.output_dimension_, wf_forest(e.v, covs(d)))), [e.num_trees_, e.output_dimension_, e.null])),
            ("rows recorded", d.num_observations_ == covs(d).rows), ("has covariates", d.has_covariates_)]
class ConC(PredC):
    nan = True
    may_throw = True
    def requires(self, s): return container(s.this, s.a(0))
    def before_call(self, s, at, callee):
        if not callee.name.startswith("TreeEnsemble::Predict"): return []
        e, d = at.this, at.a(0)
        return [("forest usable on the data", wf_forest(e, covs(d)), [f for _, f in forest(e) + usable(e, covs(d))])]
@contract
class ConPredictRawOne(ConC):
    name = "ForestContainer::PredictRaw"
    sig = ["ForestDataset", "i"]
    def requires(self, s): return container(s.this, s.a(0)) + [("sample", rng(s.a(1), 0, s.this.num_samples_))]
    def ensures(self, s):
        c, d, q, O = s.this, s.a(0), V("q"), s.this.output_dimension_
        D = covs(d).rows * O
        return [("one value per observation and dimension", s.ret.len == D), ("predictions", FA(q, Implies(rng(q, 0, D), s.ret[q] == rawvalue(c.forests_, s.a(1), d, QUO(q, O), REM(q, O))), [s.ret[q]]))]
    def lemmas(self, s): return value_def(s.this.forests_, s.a(1), s.a(0))
