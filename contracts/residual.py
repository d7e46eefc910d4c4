"""Contracts of the residual updates and the prediction cache (C14)."""
from .base import *
from .tree import *
from .predict import dot, forest, each_tree

OP = z3.Function("uf_op", Real, Real, Real)
class ResC(Contract):
    props = ("C14",)
    may_throw = True

# ---- the cache of predictions: one row per tree
def cache(p):
    """num_trees_ rows of num_observations_ predictions"""
    j = V("j")
    return [("rows", And(p.num_trees_ >= 0, p.num_observations_ >= 0, p.tree_preds_.len == p.num_trees_)), ("row sizes", FA(j, Implies(rng(j, 0, p.num_trees_), p.tree_preds_[j].len == p.num_observations_), [p.tree_preds_[j].len]))]
def nodes(p):
    j = V("j")
    T = p.tree_observation_indices_
    return [("node rows", And(p.num_trees_ >= 0, p.num_observations_ >= 0, T.len == p.num_trees_)), ("node row sizes", FA(j, Implies(rng(j, 0, p.num_trees_), T[j].len == p.num_observations_), [T[j].len]))]
def cell(p, i, j): return And(rng(i, 0, p.num_observations_), rng(j, 0, p.num_trees_))
def same_cells(p, q, but=None):
    """every cached prediction but those of (observation, tree) satisfying `but` is kept"""
    i, j = V("i"), V("j")
    g = rng(i, 0, p.num_observations_)
    ok = And(rng(j, 0, p.num_trees_), g) if but is None else And(rng(j, 0, p.num_trees_), g, Not(but(i, j)))
    return FA([i, j], Implies(ok, p.tree_preds_[j][i] == q.tree_preds_[j][i]), [p.tree_preds_[j][i]])
def sizes_kept(p, q): return ("sizes kept", And(p.num_trees_ == q.num_trees_, p.num_observations_ == q.num_observations_))
@contract
class CacheCtor(ResC):
    name = "SamplePredMapper::SamplePredMapper"
    sig = ["i", "i"]
    modifies = ("this",)
    def requires(self, s): return [("sizes", And(s.a(0) >= 0, s.a(1) >= 0))]
    def ensures(self, s):
        p = s.this
        return cache(p) + [("requested sizes", And(p.num_trees_ == s.a(0), p.num_observations_ == s.a(1)))]
@contract
class GetPred(ResC):
    inline_calls = True
    name = "SamplePredMapper::GetPred"
    modifies = ()
    def requires(self, s): return cache(s.this) + [("cell", cell(s.this, s.a(0), s.a(1)))]
    def ensures(self, s): return [("cached prediction", s.ret == s.this.tree_preds_[s.a(1)][s.a(0)])]
@contract
class SetPred(ResC):
    inline_calls = True
    name = "SamplePredMapper::SetPred"
    modifies = ("this",)
    def requires(self, s): return cache(s.this) + [("cell", cell(s.this, s.a(0), s.a(1)))]
    def ensures(self, s):
        p, q = s.this, s.old.this
        return cache(p) + [sizes_kept(p, q), ("the prediction is cached", p.tree_preds_[s.a(1)][s.a(0)] == s.a(2)), ("every other prediction kept", same_cells(p, q, lambda i, j: And(i == s.a(0), j == s.a(1))))]
@contract
class SetConst(ResC):
    inline_calls = True
    name = "SamplePredMapper::AssignAllSamplesToConstantPrediction"
    modifies = ("this",)
    def requires(self, s): return cache(s.this) + [("tree", rng(s.a(0), 0, s.this.num_trees_))]
    def ensures(self, s):
        p, q = s.this, s.old.this
        i = V("i")
        return cache(p) + [sizes_kept(p, q), ("every prediction of the tree is the value", FA(i, Implies(rng(i, 0, p.num_observations_), p.tree_preds_[s.a(0)][i] == s.a(1)), [p.tree_preds_[s.a(0)][i]])), ("predictions of other trees kept", same_cells(p, q, lambda i, j: j == s.a(0)))]

# ---- the tracker's view of both maps
def tracked(t):
    P, N = t.sample_pred_mapper_, t.sample_node_mapper_
    return [("maps exist", And(Not(P.null), Not(N.null), P.num_trees_ == N.num_trees_, P.num_observations_ == N.num_observations_))] + cache(P.v) + nodes(N.v)
def preds(t): return t.sample_pred_mapper_.v
def node_of(t, i, j): return t.sample_node_mapper_.v.tree_observation_indices_[j][i]
@contract
class TrGet(ResC):
    inline_calls = True
    name = "ForestTracker::GetTreeSamplePrediction"
    modifies = ()
    def requires(self, s): return tracked(s.this) + [("cell", cell(preds(s.this), s.a(0), s.a(1)))]
    def ensures(self, s): return [("cached prediction", s.ret == preds(s.this).tree_preds_[s.a(1)][s.a(0)])]
@contract
class TrSet(ResC):
    inline_calls = True
    name = "ForestTracker::SetTreeSamplePrediction"
    modifies = ("this",)
    def requires(self, s): return tracked(s.this) + [("cell", cell(preds(s.this), s.a(0), s.a(1)))]
    def ensures(self, s):
        p, q = preds(s.this), preds(s.old.this)
        return tracked(s.this) + [sizes_kept(p, q), ("the prediction is cached", p.tree_preds_[s.a(1)][s.a(0)] == s.a(2)), ("every other prediction kept", same_cells(p, q, lambda i, j: And(i == s.a(0), j == s.a(1)))),
                ("node assignment kept", same_nodes(s))]
def same_nodes(s):
    i, j = V("i"), V("j")
    N = preds(s.this)
    return FA([i, j], Implies(And(rng(j, 0, N.num_trees_), rng(i, 0, N.num_observations_)), node_of(s.this, i, j) == node_of(s.old.this, i, j)), [node_of(s.this, i, j)])
@contract
class TrNode(ResC):
    inline_calls = True
    name = "ForestTracker::GetNodeId"
    modifies = ()
    def requires(self, s): return tracked(s.this) + [("cell", cell(preds(s.this), s.a(0), s.a(1)))]
    def ensures(self, s): return [("assigned node", s.ret == node_of(s.this, s.a(0), s.a(1)))]
@contract
class MapNode(ResC):
    inline_calls = True
    name = "SampleNodeMapper::GetNodeId"
    modifies = ()
    def requires(self, s): return nodes(s.this) + [("cell", cell(s.this, s.a(0), s.a(1)))]
    def ensures(self, s): return [("assigned node", s.ret == s.this.tree_observation_indices_[s.a(1)][s.a(0)])]

# ---- residual updates
def contribution(t, node, ds, i, basis):
    return If(basis, dot(t, node, ds.basis_.data_, i), t.leaf_value_[node])
def assigned(s, t, j, n):
    """the tree's recorded leaf of each observation is a live leaf"""
    i = V("i")
    return ("each observation sits in a live leaf", FA(i, Implies(rng(i, 0, n), live_leaf(t, node_of(s.a(0), i, j))), [node_of(s.a(0), i, j)]))
@contract
class OneTree(ResC):
    name = "UpdateResidualTree"
    modifies = (0, 2)
    def requires(self, s):
        tr, ds, y, t, j, basis, new = s.a(0), s.a(1), s.a(2), s.a(3), s.a(4), s.a(5), s.a(7)
        n = ds.covariates_.data_.rows
        return tracked(tr) + inv(t) + [("tree", rng(j, 0, preds(tr).num_trees_)), ("as many observations", And(preds(tr).num_observations_ == n, y.data_.rows == n)),
            ("leaf kind", If(basis, And(ds.basis_.data_.rows == n, t.output_dimension_ <= ds.basis_.data_.cols), t.output_dimension_ == 1)), assigned(s, t, j, n)]
    def ensures(self, s):
        tr, ds, y, t, j, basis, new = s.a(0), s.a(1), s.a(2), s.a(3), s.a(4), s.a(5), s.a(7)
        n = ds.covariates_.data_.rows
        i = V("i")
        C, C0 = preds(tr).tree_preds_, preds(s.old.a(0)).tree_preds_
        val = lambda i: If(new, contribution(t, node_of(s.old.a(0), i, j), ds, i, basis), C0[j][i])
        return tracked(tr) + [sizes_kept(preds(tr), preds(s.old.a(0))), ("the cache holds what is applied to the residual", FA(i, Implies(rng(i, 0, n), C[j][i] == val(i)), [C[j][i]])),
            ("other trees' cached predictions kept", same_cells(preds(tr), preds(s.old.a(0)), lambda i, jj: jj == j)),
            ("one residual per observation", y.data_.rows == n),
            ("the contribution is applied to each residual once", FA(i, Implies(rng(i, 0, n), y.data_[i] == OP(s.old.a(2).data_[i], val(i))), [y.data_[i]]))]
def tree_of(e, j): return e.trees_[j]
@contract
class Whole(TreeUnfold, ResC):
    name = "UpdateResidualEntireForest"
    modifies = (0, 2)
    def requires(self, s):
        tr, ds, y, e, basis = s.a(0), s.a(1), s.a(2), s.a(3), s.a(4)
        n = ds.covariates_.data_.rows
        i, j = V("i"), V("j")
        return tracked(tr) + forest(e) + [("as many trees", e.num_trees_ == preds(tr).num_trees_), ("as many observations", And(preds(tr).num_observations_ == n, y.data_.rows == n)),
            ("leaf kind", If(basis, And(ds.basis_.data_.rows == n, e.output_dimension_ <= ds.basis_.data_.cols), e.output_dimension_ == 1)),
            ("each observation sits in a live leaf of each tree", FA([i, j], Implies(And(rng(i, 0, n), rng(j, 0, e.num_trees_)), live_leaf(e.trees_[j], node_of(tr, i, j))), [node_of(tr, i, j)]))]
    def ensures(self, s):
        tr, ds, y, e, basis = s.a(0), s.a(1), s.a(2), s.a(3), s.a(4)
        n = ds.covariates_.data_.rows
        i, j, k = V("i"), V("j"), V("k")
        C = preds(tr).tree_preds_
        val = lambda i, j: contribution(e.trees_[j], node_of(s.old.a(0), i, j), ds, i, basis)
        return tracked(tr) + [sizes_kept(preds(tr), preds(s.old.a(0))), ("the cache holds every tree's prediction", FA([i, j], Implies(And(rng(i, 0, n), rng(j, 0, e.num_trees_)), C[j][i] == val(i, j)), [C[j][i]])),
            ("one residual per observation", y.data_.rows == n),
            ("the forest's prediction is applied to each residual once", FA(i, Implies(rng(i, 0, n), y.data_[i] == OP(s.old.a(2).data_[i], mk_sum(k, val(i, k), z3.IntVal(0), e.num_trees_))), [y.data_[i]]))]
@contract
class TrConst(ResC):
    name = "ForestTracker::AssignAllSamplesToConstantPrediction"
    sig = ["i", "r"]
    modifies = ("this",)
    def requires(self, s): return tracked(s.this) + [("tree", rng(s.a(0), 0, preds(s.this).num_trees_))]
    def ensures(self, s):
        p, q = preds(s.this), preds(s.old.this)
        i = V("i")
        return tracked(s.this) + [sizes_kept(p, q), ("every prediction of the tree is the value", FA(i, Implies(rng(i, 0, p.num_observations_), p.tree_preds_[s.a(0)][i] == s.a(1)), [p.tree_preds_[s.a(0)][i]])), ("predictions of other trees kept", same_cells(p, q, lambda i, j: j == s.a(0)))]
@contract
class TrConstAll(ResC):
    name = "ForestTracker::AssignAllSamplesToConstantPrediction"
    sig = ["r"]
    modifies = ("this",)
    def requires(self, s): return tracked(s.this) + [("as many trees", s.this.num_trees_ == preds(s.this).num_trees_)]
    def ensures(self, s):
        p, q = preds(s.this), preds(s.old.this)
        i, j = V("i"), V("j")
        return tracked(s.this) + [sizes_kept(p, q), ("every prediction is the value", FA([i, j], Implies(And(rng(i, 0, p.num_observations_), rng(j, 0, p.num_trees_)), p.tree_preds_[j][i] == s.a(0)), [p.tree_preds_[j][i]]))]
# ---- random effects
@contract
class RfxAdd(ResC):
    name = "MultivariateRegressionRandomEffectsModel::AddCurrentPredictionToResidual"
    modifies = (2,)
    def requires(self, s):
        n = s.a(0).basis_.data_.rows
        return [("as many observations", And(n >= 0, s.a(2).data_.rows == n, s.a(1).rfx_predictions_.len == n))]
    def ensures(self, s):
        i, y = V("i"), s.a(2).data_
        return [("one residual per observation", y.rows == s.old.a(2).data_.rows), ("the cached prediction is added to each residual once", FA(i, Implies(rng(i, 0, y.rows), y[i] == s.old.a(2).data_[i] + s.a(1).rfx_predictions_[i]), [y[i]]))]
