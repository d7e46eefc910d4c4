"""Contracts of the scalar Gaussian leaf models: formulas (C13) and sufficient statistics (C12, C15)."""
from .base import *
from vc.lib import F_log

def logml(tau, v, W, Y):
    """log marginal likelihood of a N(0, tau) leaf with precision weight W and weighted sum Y, up to the term common to all splits"""
    return -F_log(1 + tau * (W / v)) / 2 + (tau * Y * Y) / (2 * v * (tau * W + v))

class FormulaC(Contract):
    modifies = ()
    props = ("C13",)
    W = None; Y = None; prior = "tau_"
    inline_calls = True
    def st(self, x): return getattr(x, self.W), getattr(x, self.Y)
    def requires(self, s):
        k = 2 if "::SplitLog" in self.name else 1
        return [("positive variances", And(s.a(k) > 0, s.this.tau_ > 0))] + [("non-negative weight", self.st(s.a(i))[0] >= 0) for i in range(k)]

class SplitML(FormulaC):
    def ensures(self, s):
        return [("sum of the children's log marginal likelihoods", s.ret == logml(s.this.tau_, s.a(2), *self.st(s.a(0))) + logml(s.this.tau_, s.a(2), *self.st(s.a(1))))]
class NoSplitML(FormulaC):
    def ensures(self, s): return [("log marginal likelihood", s.ret == logml(s.this.tau_, s.a(1), *self.st(s.a(0))))]
class PostMean(FormulaC):
    def ensures(self, s):
        W, Y = self.st(s.a(0)); v = s.a(1); tau = s.this.tau_
        return [("posterior mean: precision (W/v + 1/tau) times mean is Y/v", s.ret * (W * tau + v) == tau * Y)]
class PostVar(FormulaC):
    def ensures(self, s):
        W, Y = self.st(s.a(0)); v = s.a(1); tau = s.this.tau_
        return [("posterior variance: 1 / (W/v + 1/tau)", s.ret * (W * tau + v) == tau * v)]

def formulas(model, W, Y):
    for base, fn in ((SplitML, "SplitLogMarginalLikelihood"), (NoSplitML, "NoSplitLogMarginalLikelihood"), (PostMean, "PosteriorParameterMean"), (PostVar, "PosteriorParameterVariance")):
        contract(type(model + fn, (base,), {"name": "%s::%s" % (model, fn), "W": W, "Y": Y}))
formulas("GaussianConstantLeafModel", "sum_w", "sum_yw")
formulas("GaussianUnivariateRegressionLeafModel", "sum_xxw", "sum_yxw")

# ---- sufficient statistics: what one observation contributes
def weight(ds, i): return If(ds.has_var_weights_, ds.var_weights_.data_[i], z3.RealVal(1))
def term_const(ds, y, i):
    w = weight(ds, i)
    return (1 / w, y[i] / w)
def term_reg(ds, y, i):
    w, x = weight(ds, i), ds.basis_.data_[i, z3.IntVal(0)]
    return (x * x / w, y[i] * x / w)
KIND = {"GaussianConstantSuffStat": (("sum_w", "sum_yw"), term_const), "GaussianUnivariateRegressionSuffStat": (("sum_xxw", "sum_yxw"), term_reg)}

def stat(x): return KIND[x.t.name]
def row_ok(ds, y, i):
    """row i can be read; with a basis the first column is read"""
    return And(rng(i, 0, y.rows), Implies(ds.has_var_weights_, i < ds.var_weights_.data_.rows))
def basis_ok(x, ds, i):
    return And(rng(i, 0, ds.basis_.data_.rows), ds.basis_.data_.cols >= 1) if x.t.name != "GaussianConstantSuffStat" else true

class StatC(Contract):
    modifies = ("this",)
    props = ("C12",)
    inline_calls = True

class Increment(StatC):
    def requires(self, s):
        ds, y, i = s.a(0), s.a(1), s.a(2)
        return [("row", And(row_ok(ds, y, i), basis_ok(s.this, ds, i)))]
    def ensures(self, s):
        t, u = s.this, s.old.this
        fs, term = stat(t)
        c = term(s.a(0), s.a(1), s.a(2))
        return [("count", t.n == u.n + 1)] + [(f, getattr(t, f) == getattr(u, f) + x) for f, x in zip(fs, c)]
class ResetStat(StatC):
    def ensures(self, s): return [("zero " + f, getattr(s.this, f) == 0) for f in ("n",) + stat(s.this)[0]]
class SubtractStat(StatC):
    def ensures(self, s): return [(f, getattr(s.this, f) == getattr(s.a(0), f) - getattr(s.a(1), f)) for f in ("n",) + stat(s.this)[0]]
class GreaterEq(StatC):
    modifies = ()
    props = ("C12", "C15")
    def ensures(self, s): return [("at least", s.ret == (s.this.n >= s.a(0)))]
class Greater(StatC):
    modifies = ()
    def ensures(self, s): return [("more than", s.ret == (s.this.n > s.a(0)))]
class StatSize(StatC):
    modifies = ()
    def ensures(self, s): return [("count", s.ret == s.this.n)]
class StatCtor(StatC):
    def ensures(self, s): return [("zero " + f, getattr(s.this, f) == 0) for f in ("n",) + stat(s.this)[0]]
for cls in KIND:
    for base, fn in ((Increment, "IncrementSuffStat"), (ResetStat, "ResetSuffStat"), (SubtractStat, "SubtractSuffStat"), (GreaterEq, "SampleGreaterThanEqual"), (Greater, "SampleGreaterThan"), (StatSize, "SampleSize")):
        contract(type(cls + fn, (base,), {"name": "%s::%s" % (cls, fn)}))
    contract(type(cls + "Ctor", (StatCtor,), {"name": "%s::%s" % (cls, cls), "sig": []}))
