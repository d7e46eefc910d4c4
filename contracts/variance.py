"""Contracts of the variance updates: shapes, scales, the inverse gamma draw (C16)."""
from .base import *
from .tree import *
from .predict import each_tree, forest
from vc.lib import is_draw, dist_param

def inverse_gamma(x, shape, scale):
    """x is one over a gamma draw with this shape and rate"""
    return And(x > 0, is_draw("gamma_distribution", 1 / x, shape, 1 / scale))
def squares(t, n):
    k = V("k")
    return If(t.output_dimension_ == 1, t.leaf_value_[n] * t.leaf_value_[n], mk_sum(k, t.leaf_vector_[k] * t.leaf_vector_[k], t.leaf_vector_begin_[n], t.leaf_vector_end_[n]))
def leaf_squares(t):
    k = V("k")
    return mk_sum(k, squares(t, t.leaves_[k]), z3.IntVal(0), t.leaves_.len)

def grows(L): return [("not negative", x >= 0) for x in L.reals]
class VarC(Contract):
    props = ("C16",)
    modifies = ()
@contract
class NodeSquares(VarC):
    name = "Tree::SumSquaredNodeValues"
    may_throw = True
    def requires(self, s): return inv(s.this) + [("live leaf", live_leaf(s.this, s.a(0)))]
    def ensures(self, s): return [("sum of squared leaf values", s.ret == squares(s.this, s.a(0))), ("not negative", s.ret >= 0)]
    def hints(self, s, L): return grows(L)
@contract
class LeafSquares(VarC):
    name = "Tree::SumSquaredLeafValues"
    may_throw = True
    def requires(self, s): return inv(s.this)
    def ensures(self, s): return [("sum over all leaves", s.ret == leaf_squares(s.this)), ("not negative", s.ret >= 0)]
    def hints(self, s, L): return grows(L)
@contract
class Draw(VarC):
    name = "InverseGammaSampler::Sample"
    modifies = ("this", 2)
    def requires(self, s): return [("proper parameters", And(s.a(0) > 0, s.a(1) > 0))]
    def ensures(self, s): return [("inverse gamma of this shape and scale", inverse_gamma(s.ret, s.a(0), s.a(1)))]
def rss(s):
    k = V("k")
    r = s.a(0)
    return mk_sum(k, r[k, 0] * r[k, 0], z3.IntVal(0), r.rows)
def nonneg(name, k, body):
    """sums of non-negative terms are not negative"""
    f = lambda n: mk_sum(k, body, z3.IntVal(0), n)
    return (name, lambda n: n >= 0, lambda n: f(n) >= 0, lambda n: n, lambda n: [f(n) == If(n <= 0, z3.RealVal(0) if body.sort() == Real else z3.IntVal(0), f(n - 1) + z3.substitute(body, (k, n - 1)))])
def half(x): return x / 2
def gshape(s): return (s.a(1) + z3.ToReal(s.a(0).rows)) / 2
def gscale(s): return (s.a(1) * s.a(2) + rss(s)) / 2
@contract
class GlobalShape(VarC):
    name = "GlobalHomoskedasticVarianceModel::PosteriorShape"
    def ensures(self, s): return [("half of prior degrees of freedom plus observations", s.ret == gshape(s))]
@contract
class GlobalScale(VarC):
    name = "GlobalHomoskedasticVarianceModel::PosteriorScale"
    def ensures(self, s): return [("half of prior sum of squares plus residual sum of squares", s.ret == gscale(s))]
@contract
class GlobalDraw(VarC):
    name = "GlobalHomoskedasticVarianceModel::SampleVarianceParameter"
    modifies = ("this", 3)
    def requires(self, s): return [("proper prior", And(s.a(1) > 0, s.a(2) > 0))]
    def inductions(self, s):
        k, r = V("k"), s.a(0)
        return [nonneg("the residual sum of squares is not negative", k, r[k, 0] * r[k, 0])]
    def ensures(self, s): return [("inverse gamma posterior", inverse_gamma(s.ret, gshape(s), gscale(s)))]

def every_tree(e): return forest(e)
def leaf_count(e):
    k = V("k")
    return z3.ToReal(mk_sum(k, e.trees_[k].leaves_.len, z3.IntVal(0), e.trees_.len))
def all_squares(e):
    k = V("k")
    return mk_sum(k, leaf_squares(e.trees_[k]), z3.IntVal(0), e.trees_.len)
class EnsVarC(TreeUnfold, VarC):
    may_throw = True
@contract
class EnsLeaves(EnsVarC):
    name = "TreeEnsemble::NumLeaves"
    def requires(self, s): return forest(s.this)
    def ensures(self, s): return [("number of leaves of all trees", z3.ToReal(s.ret) == leaf_count(s.this))]
@contract
class EnsSquares(EnsVarC):
    name = "TreeEnsemble::SumLeafSquared"
    def requires(self, s): return forest(s.this)
    def ensures(self, s): return [("squared leaf values of all trees", s.ret == all_squares(s.this)), ("not negative", s.ret >= 0)]
    def hints(self, s, L): return grows(L)
def lshape(s): return (s.a(1) + leaf_count(s.a(0))) / 2
def lscale(s): return (s.a(2) + all_squares(s.a(0))) / 2
class LeafC(EnsVarC):
    def requires(self, s): return forest(s.a(0))
@contract
class LeafShape(LeafC):
    name = "LeafNodeHomoskedasticVarianceModel::PosteriorShape"
    def ensures(self, s): return [("half of prior shape plus number of leaves", s.ret == lshape(s))]
@contract
class LeafScale(LeafC):
    name = "LeafNodeHomoskedasticVarianceModel::PosteriorScale"
    def ensures(self, s): return [("half of prior scale plus squared leaf values", s.ret == lscale(s)), ("at least half the prior scale", s.ret >= s.a(2) / 2)]
@contract
class LeafDraw(LeafC):
    name = "LeafNodeHomoskedasticVarianceModel::SampleVarianceParameter"
    modifies = ("this", 3)
    def requires(self, s): return forest(s.a(0)) + [("proper prior", And(s.a(1) > 0, s.a(2) > 0))]
    def inductions(self, s):
        k, T = V("k"), s.a(0).trees_
        return [nonneg("leaf counts add up to a non-negative number", k, T[k].leaves_.len)]
    def ensures(self, s): return [("inverse gamma posterior", inverse_gamma(s.ret, lshape(s), lscale(s)))]
class RfxC(VarC): pass
@contract
class RfxShape(RfxC):
    name = "MultivariateRegressionRandomEffectsModel::VarianceComponentShape"
    def ensures(self, s): return [("prior shape plus half the number of groups", s.ret == s.this.variance_prior_shape_ + z3.ToReal(s.this.num_groups_) / 2)]
@contract
class RfxScale(RfxC):
    name = "MultivariateRegressionRandomEffectsModel::VarianceComponentScale"
    def requires(self, s): return [("component", rng(s.a(4), 0, s.this.group_parameters_.rows)), ("one column per group", s.this.group_parameters_.cols == s.this.num_groups_)]
    def ensures(self, s):
        k, m = V("k"), s.this.group_parameters_
        return [("prior scale plus half the squared coefficients of all groups", s.ret == s.this.variance_prior_scale_ + mk_sum(k, m[s.a(4), k] * m[s.a(4), k] / 2, z3.IntVal(0), s.this.num_groups_)), ("at least the prior scale", s.ret >= s.this.variance_prior_scale_)]
    def hints(self, s, L): return [("at least the prior scale", x >= s.this.variance_prior_scale_) for x in L.reals]
def rscale(o, i):
    k, m = V("k"), o.group_parameters_
    return o.variance_prior_scale_ + mk_sum(k, m[i, k] * m[i, k] / 2, z3.IntVal(0), o.num_groups_)
@contract
class RfxDraw(RfxC):
    name = "MultivariateRegressionRandomEffectsModel::SampleVarianceComponents"
    modifies = ("this", 4)
    def requires(self, s):
        o = s.this
        return [("dimensions", And(o.num_components_ >= 0, o.num_groups_ >= 0, o.group_parameters_.rows == o.num_components_, o.group_parameters_.cols == o.num_groups_, o.group_parameter_covariance_.rows == o.num_components_, o.group_parameter_covariance_.cols == o.num_components_)),
                ("proper prior", And(o.variance_prior_shape_ > 0, o.variance_prior_scale_ > 0))]
    def post(self, s, n):
        o, u, i, j, k = s.this, s.old.this, V("i"), V("i"), V("j")
        c, c0 = o.group_parameter_covariance_, u.group_parameter_covariance_
        return [("drawn variances", FA(i, Implies(rng(i, 0, n), inverse_gamma(c[i, i], u.variance_prior_shape_ + z3.ToReal(u.num_groups_) / 2, rscale(u, i))), [c[i, i]])),
                ("other entries kept", FA([j, k], Implies(Or(j != k, j >= n), c[j, k] == c0[j, k]), [c[j, k]])), ("size kept", And(c.rows == c0.rows, c.cols == c0.cols))]
    def hints(self, s, L): return self.post(s, L.iota)
    def ensures(self, s): return self.post(s, s.old.this.num_components_)
