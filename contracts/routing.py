"""Contracts of split rules and of routing an observation to a leaf (C02)."""
from .base import *
from .tree import *
from vc.engine import F_isnan

ArrI, ArrR = z3.ArraySort(Int, Int), z3.ArraySort(Int, Real)
MaxCat = 2 ** 32 - 1
def trunc(x): return If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))

# category membership in a slice of a category array, by definition "some position of the slice holds x"
CatIn = z3.Function("category_in", ArrI, Int, Int, Int, Bool)
def catdef():
    A = z3.Const("A~cd", ArrI); b, e, x, p = z3.Ints("b~cd e~cd x~cd p~cd")
    return z3.ForAll([A, b, e, x], CatIn(A, b, e, x) == EX(p, And(b <= p, p < e, z3.Select(A, p) == x)), patterns=[CatIn(A, b, e, x)])
def matches(arr, b, e, x): return And(x >= 0, x <= MaxCat, CatIn(arr, b, e, trunc(x)))
def split_true(sp, x): return If(sp.numeric_, x <= sp.split_value_, matches(sp.split_categories_.e, z3.IntVal(0), sp.split_categories_.len, x))

# routing: Go(tree, data, row, n) is the leaf reached from node n (recursion equation go_def)
Go = z3.Function("leaf_reached", ArrI, ArrI, ArrI, ArrI, ArrR, ArrI, ArrI, ArrI, z3.ArraySort(Int, ArrR), Int, Int, Int)
def targs(t): return [t.cleft_.e, t.cright_.e, t.node_type_.e, t.split_index_.e, t.threshold_.e, t.category_list_begin_.e, t.category_list_end_.e, t.category_list_.e]
def go(t, m, row, n): return Go(*(targs(t) + [m.a, row, n]))
def goes_left(t, m, row, n):
    x = m[row, t.split_index_[n]]
    return Or(F_isnan(x), If(t.node_type_[n] == CAT, matches(t.category_list_.e, t.category_list_begin_[n], t.category_list_end_[n], x), x <= t.threshold_[n]))
def go_def(t, m, row, n):
    return go(t, m, row, n) == If(leaf(t, n), n, go(t, m, row, If(goes_left(t, m, row, n), t.cleft_[n], t.cright_[n])))
def routed(t, m, row): return go(t, m, row, z3.IntVal(0))

def routable(t, m, row):
    """row and every split variable name an element of the data; thresholds are numbers"""
    return [("row", rng(row, 0, m.rows))] + columns(t, m)
def columns(t, m):
    i, j = V("i"), V("j")
    return [("split variables", FA(i, Implies(And(live(t, i), Not(leaf(t, i))), rng(t.split_index_[i], 0, m.cols)), [t.split_index_[i]])),
            ("thresholds", FA(j, Implies(And(live(t, j), Not(leaf(t, j))), Not(F_isnan(t.threshold_[j]))), [t.threshold_[j]]))]

class RuleC(Contract):
    props = ("C02", "C10")
    modifies = ()

@contract
class RuleNumeric(RuleC):
    name = "SplitTrueNumeric"
    inline_calls = True
    def ensures(self, s): return [("at most the threshold", s.ret == (s.a(0) <= s.a(1)))]
@contract
class RuleCategorical(RuleC):
    name = "SplitTrueCategorical"
    def requires(self, s): return [("not missing", Not(F_isnan(s.a(0))))]
    def lemmas(self, s): return [catdef()]
    def ensures(self, s): return [("integer part in the category set", s.ret == matches(s.a(1).e, z3.IntVal(0), s.a(1).len, s.a(0)))]
@contract
class NextNumeric(RuleC):
    name = "NextNodeNumeric"
    inline_calls = True
    def ensures(self, s): return [("child", s.ret == If(s.a(0) <= s.a(1), s.a(2), s.a(3)))]
@contract
class NextCategorical(RuleC):
    name = "NextNodeCategorical"
    inline_calls = True
    def requires(self, s): return [("not missing", Not(F_isnan(s.a(0))))]
    def ensures(self, s): return [("child", s.ret == If(matches(s.a(1).e, z3.IntVal(0), s.a(1).len, s.a(0)), s.a(2), s.a(3)))]
@contract
class RowLeftNumeric(RuleC):
    name = "RowSplitLeft"
    sig = ["mat", "i", "i", "r"]
    inline_calls = True
    def requires(self, s): return [("in range", And(rng(s.a(1), 0, s.a(0).rows), rng(s.a(2), 0, s.a(0).cols)))]
    def ensures(self, s): return [("rule on the row's value", s.ret == (s.a(0)[s.a(1), s.a(2)] <= s.a(3)))]
@contract
class RowLeftCategorical(RuleC):
    name = "RowSplitLeft"
    sig = ["mat", "i", "i", "Vi"]
    inline_calls = True
    def requires(self, s): return [("in range", And(rng(s.a(1), 0, s.a(0).rows), rng(s.a(2), 0, s.a(0).cols), Not(F_isnan(s.a(0)[s.a(1), s.a(2)]))))]
    def ensures(self, s): return [("rule on the row's value", s.ret == matches(s.a(3).e, z3.IntVal(0), s.a(3).len, s.a(0)[s.a(1), s.a(2)]))]
@contract
class SplitRule(RuleC):
    name = "TreeSplit::SplitTrue"
    def requires(self, s): return [("not missing", Not(F_isnan(s.a(0))))]
    def ensures(self, s): return [("rule", s.ret == split_true(s.this, s.a(0)))]

@contract
class Evaluate(Contract):
    name = "EvaluateTree"
    props = ("C02",)
    nan = True
    def requires(self, s): return inv(s.a(0)) + routable(s.a(0), s.a(1), s.a(2))
    def lemmas(self, s): return [catdef()]
    def facts(self, s, L): return [go_def(s.a(0), s.a(1), s.a(2), x) for x in L.ints]
    def hints(self, s, L):
        t, m, r = s.a(0), s.a(1), s.a(2)
        return [And(live(t, x), go(t, m, r, x) == routed(t, m, r)) for x in L.ints]
    def exit_facts(self, s): return [go_def(s.a(0), s.a(1), s.a(2), s.ret)]
    def ensures(self, s):
        t, m, r = s.a(0), s.a(1), s.a(2)
        return [("leaf", live_leaf(t, s.ret)), ("follows the split rules from the root", s.ret == routed(t, m, r))]

def splits_on(t, m): return tree_pred("splits_on_columns", t, [m.cols])
class Unfold(TreeUnfold):
    def before_call(self, s, at, callee):
        out = TreeUnfold.before_call(self, s, at, callee)
        if callee.name != "EvaluateTree": return out
        for t in self.trees_at(at):
            m = at.a(1)
            out.append(("tree splits on columns of the data", splits_on(t, m), [f for _, f in columns(t, m)]))
        return out
