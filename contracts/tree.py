"""Contracts of StochTree::Tree: the structural invariant and what each edit does."""
from .base import *

LEAF, NUM, CAT = 0, 1, 2
NODEVECS = ["node_type_", "parent_", "cleft_", "cright_", "split_index_", "leaf_value_", "threshold_",
            "leaf_vector_begin_", "leaf_vector_end_", "category_list_begin_", "category_list_end_"]

def live(t, i): return And(0 <= i, i < t.num_nodes, t.deleted_nodes_.cnt[i] == 0)
def leaf(t, i): return t.cleft_[i] == -1
def root_only(t): return t.leaves_.len == 1

def sizes(t):
    return And(t.num_nodes >= 1, *[getattr(t, v).len == t.num_nodes for v in NODEVECS])

def lists(t):
    """counts and list membership of every id"""
    i, j, k, l = V("i"), V("i"), V("i"), V("i")
    D, L, P, I = t.deleted_nodes_, t.leaves_, t.leaf_parents_, t.internal_nodes_
    return And(
        t.num_deleted_nodes == D.len,
        FA(i, And(0 <= D.cnt[i], D.cnt[i] <= 1, Implies(D.cnt[i] >= 1, And(1 <= i, i < t.num_nodes))), [D.cnt[i]]),
        FA(j, L.cnt[j] == If(And(live(t, j), leaf(t, j)), 1, 0), [L.cnt[j]]),
        FA(k, I.cnt[k] == If(And(live(t, k), Not(leaf(t, k))), 1, 0), [I.cnt[k]]),
        FA(l, P.cnt[l] == If(And(live(t, l), Not(leaf(t, l)), leaf(t, t.cleft_[l]), leaf(t, t.cright_[l])), 1, 0), [P.cnt[l]]))

def shape(t):
    i, j, k = V("i"), V("i"), V("i")
    d = t.g_depth
    p = t.parent_[j]
    return And(
        live(t, z3.IntVal(0)), t.parent_[0] == -1, z3.Select(d, 0) == 0,
        FA(i, Implies(And(live(t, i), Not(leaf(t, i))), And(
            live(t, t.cleft_[i]), live(t, t.cright_[i]), t.cleft_[i] != t.cright_[i], t.cleft_[i] >= 1, t.cright_[i] >= 1,
            t.parent_[t.cleft_[i]] == i, t.parent_[t.cright_[i]] == i)), [t.cleft_[i]]),
        FA(j, Implies(And(live(t, j), j != 0), And(
            live(t, p), Not(leaf(t, p)), Or(t.cleft_[p] == j, t.cright_[p] == j),
            z3.Select(d, j) == z3.Select(d, p) + 1)), [t.parent_[j]]),
        FA(k, Implies(live(t, k), And(z3.Select(d, k) >= 0, Implies(leaf(t, k), t.cright_[k] == -1),
            (t.node_type_[k] == LEAF) == leaf(t, k), t.node_type_[k] >= 0, t.node_type_[k] <= 2)), [t.node_type_[k], z3.Select(d, k)]),
    )

def slices(t):
    i = V("i")
    b, e = t.category_list_begin_, t.category_list_end_
    return FA(i, Implies(rng(i, 0, t.num_nodes), And(0 <= b[i], b[i] <= e[i], e[i] <= t.category_list_.len)), [b[i]])

def vectors(t):
    i, j, k = V("i"), V("i"), V("j")
    b, e = t.leaf_vector_begin_, t.leaf_vector_end_
    return And(t.output_dimension_ >= 1,
        FA(i, Implies(rng(i, 0, t.num_nodes), And(0 <= b[i], b[i] <= e[i], e[i] <= t.leaf_vector_.len,
            Or(e[i] == b[i], e[i] - b[i] == t.output_dimension_),
            Implies(t.output_dimension_ == 1, e[i] == b[i]),
            Implies(And(t.output_dimension_ > 1, live(t, i), leaf(t, i)), e[i] - b[i] == t.output_dimension_))), [b[i]]),
        FA([j, k], Implies(And(rng(j, 0, t.num_nodes), rng(k, 0, t.num_nodes), j != k, e[j] > b[j], e[k] > b[k]), Or(e[j] <= b[k], e[k] <= b[j])), [z3.MultiPattern(b[j], b[k])]))

def inv(t):
    return [("sizes", sizes(t)), ("node lists", lists(t)), ("shape", shape(t)), ("category slices", slices(t)), ("leaf vectors", vectors(t))]

def samevec(a, b): return veq(a, b)

def node_same(t, u, i):
    """live node i of tree u is described in t exactly as in u"""
    k, m = V("k"), V("k")
    return And(t.node_type_[i] == u.node_type_[i], t.parent_[i] == u.parent_[i], t.cleft_[i] == u.cleft_[i], t.cright_[i] == u.cright_[i],
               content_same(t, u, i))

def content_same(t, u, i):
    return And(Implies(u.node_type_[i] != LEAF, t.split_index_[i] == u.split_index_[i]),
               Implies(u.node_type_[i] == NUM, t.threshold_[i] == u.threshold_[i]),
               Implies(And(u.node_type_[i] == LEAF, u.output_dimension_ == 1), t.leaf_value_[i] == u.leaf_value_[i]),
               cats_same(t, u, i), Implies(u.node_type_[i] == LEAF, vec_same(t, u, i)))

def slice_same(lt, bt, et, lu, bu, eu):
    """lt[bt:et] == lu[bu:eu]"""
    p = V("p")
    return And(et - bt == eu - bu, FA(p, Implies(rng(p, bt, et), lt[p] == lu[bu + (p - bt)]), [lt[p]]))

def cats_same(t, u, i):
    return Implies(u.node_type_[i] == CAT, slice_same(t.category_list_, t.category_list_begin_[i], t.category_list_end_[i], u.category_list_, u.category_list_begin_[i], u.category_list_end_[i]))

def vec_same(t, u, i):
    return Implies(u.output_dimension_ > 1, slice_same(t.leaf_vector_, t.leaf_vector_begin_[i], t.leaf_vector_end_[i], u.leaf_vector_, u.leaf_vector_begin_[i], u.leaf_vector_end_[i]))

def has_leafval(t, i, v):
    """leaf i stores scalar v or vector v"""
    if z3.is_expr(v): return And(t.output_dimension_ == 1, t.leaf_value_[i] == v)
    return slice_same(t.leaf_vector_, t.leaf_vector_begin_[i], t.leaf_vector_end_[i], v, z3.IntVal(0), v.len)

def has_cats(t, i, v):
    return slice_same(t.category_list_, t.category_list_begin_[i], t.category_list_end_[i], v, z3.IntVal(0), v.len)

def live_leaf(t, i): return And(live(t, i), leaf(t, i))

class TreeC(Contract):
    modifies = ("this",)
    props = ("C01", "C03")

def single_root(t, odim):
    i = V("i")
    return [("one node", t.num_nodes == 1), ("none deleted", t.num_deleted_nodes == 0),
            ("root is leaf", leaf(t, z3.IntVal(0))), ("output dimension", t.output_dimension_ == odim),
            ("no categorical split", Not(t.has_categorical_split_))]

@contract
class Init(TreeC):
    name = "Tree::Init"
    def requires(self, s): return [("positive dimension", s.a(0) >= 1)]
    def ghost(self, eng, st, s): self.setghost(eng, st, s._this, "g_depth", z3.K(Int, z3.IntVal(0)))
    def ensures(self, s):
        t = s.this
        k = V("k")
        return inv(t) + single_root(t, s.a(0)) + [
            ("zero value", Implies(s.a(0) == 1, t.leaf_value_[0] == 0)),
            ("zero vector", Implies(s.a(0) > 1, FA(k, Implies(rng(k, 0, s.a(0)), t.leaf_vector_[t.leaf_vector_begin_[0] + k] == 0))))]

@contract
class Reset(TreeC):
    name = "Tree::Reset"
    def ensures(self, s):
        t = s.this
        vs = NODEVECS + ["leaves_", "leaf_parents_", "internal_nodes_", "deleted_nodes_", "leaf_vector_", "category_list_"]
        return [("empty " + v, getattr(t, v).len == 0) for v in vs] + [
            ("no nodes", And(t.num_nodes == 0, t.num_deleted_nodes == 0)), ("no categorical", Not(t.has_categorical_split_)), ("scalar output", t.output_dimension_ == 1)]

# ---- expanding a leaf
def expand_post(s, nid, var, rule, lv, rv):
    t, u = s.this, s.old.this
    l, r = t.cleft_[nid], t.cright_[nid]
    i, j, k = V("i"), V("j"), V("k")
    out = inv(t) + [
        ("new children", And(Not(live(u, l)), Not(live(u, r)), l != r)),
        ("live set", FA(i, live(t, i) == Or(live(u, i), i == l, i == r), [t.deleted_nodes_.cnt[i]])),
        ("other nodes keep links", FA(j, Implies(And(live(u, j), j != nid), And(t.node_type_[j] == u.node_type_[j], t.parent_[j] == u.parent_[j], t.cleft_[j] == u.cleft_[j], t.cright_[j] == u.cright_[j])), [t.parent_[j]])),
        ("other nodes keep content", FA(k, Implies(And(live(u, k), k != nid), content_same(t, u, k)), [t.node_type_[k]])),
        ("parent kept", t.parent_[nid] == u.parent_[nid]),
        ("split variable", t.split_index_[nid] == var),
        ("children leaves", And(leaf(t, l), leaf(t, r))),
        ("left value", has_leafval(t, l, lv)), ("right value", has_leafval(t, r, rv)),
        ("output dimension kept", t.output_dimension_ == u.output_dimension_),
        ("num nodes", And(t.num_nodes - t.num_deleted_nodes == u.num_nodes - u.num_deleted_nodes + 2, t.num_nodes >= u.num_nodes)),
        ("reuse only after deletion", And(*[Or(x >= u.num_nodes, u.deleted_nodes_.cnt[x] >= 1) for x in (l, r)])),
    ]
    if z3.is_expr(rule):
        out += [("numeric rule", And(t.node_type_[nid] == NUM, t.threshold_[nid] == rule)), ("categorical flag", t.has_categorical_split_ == u.has_categorical_split_)]
    else: out += [("categorical rule", And(t.node_type_[nid] == CAT, has_cats(t, nid, rule), t.has_categorical_split_))]
    return out

class Expand(TreeC):
    name = "Tree::ExpandNode"
    def requires(self, s):
        t = s.this
        out = inv(t) + [("live leaf", live_leaf(t, s.a(0))), ("room", t.num_nodes < 2**31 - 4)]
        if z3.is_expr(s.a(3)): out += [("scalar", t.output_dimension_ == 1)]
        else: out += [("vector", t.output_dimension_ > 1), ("sizes match", And(s.a(3).len == t.output_dimension_, s.a(4).len == t.output_dimension_))]
        return out
    def ensures(self, s):
        return expand_post(s, s.a(0), s.a(1), s.a(2), s.a(3), s.a(4))
    def ghost(self, eng, st, s):
        t = s.this
        d = t.g_depth
        nid = s.a(0)
        dd = z3.Store(z3.Store(d, t.cleft_[nid], z3.Select(d, nid) + 1), t.cright_[nid], z3.Select(d, nid) + 1)
        self.setghost(eng, st, s._this, "g_depth", dd)

@contract
class ExpandNumScalar(Expand): sig = ["i", "i", "r", "r", "r"]
@contract
class ExpandCatScalar(Expand): sig = ["i", "i", "Vi", "r", "r"]
@contract
class ExpandNumVector(Expand): sig = ["i", "i", "r", "Vr", "Vr"]
@contract
class ExpandCatVector(Expand): sig = ["i", "i", "Vi", "Vr", "Vr"]

@contract
class ExpandSplitScalar(Expand):
    sig = ["i", "i", "TreeSplit", "r", "r"]
    def ensures(self, s): return split_post(s)
    def ghost(self, eng, st, s): pass
@contract
class ExpandSplitVector(ExpandSplitScalar):
    sig = ["i", "i", "TreeSplit", "Vr", "Vr"]

def split_post(s):
    sp = s.a(2)
    num, cat = expand_post(s, s.a(0), s.a(1), sp.split_value_, s.a(3), s.a(4)), expand_post(s, s.a(0), s.a(1), sp.split_categories_, s.a(3), s.a(4))
    n = len(num) - 2
    return num[:n] + [(k, Implies(sp.numeric_, f)) for k, f in num[n:]] + [(k, Implies(Not(sp.numeric_), f)) for k, f in cat[n:]]

# ---- turning nodes back into leaves
class ToLeaf(TreeC):
    name = "Tree::ChangeToLeaf"
    def requires(self, s):
        t = s.this
        nid = s.a(0)
        return inv(t) + [("leaf parent", And(live(t, nid), Not(leaf(t, nid)), leaf(t, t.cleft_[nid]), leaf(t, t.cright_[nid])))] + valreq(s)
    def ensures(self, s):
        t, u = s.this, s.old.this
        nid = s.a(0)
        l, r = u.cleft_[nid], u.cright_[nid]
        i, j, k = V("i"), V("j"), V("k")
        return inv(t) + leafpost(s) + [
            ("live set", FA(i, live(t, i) == And(live(u, i), i != l, i != r), [t.deleted_nodes_.cnt[i]])),
            ("new leaf", And(leaf(t, nid), has_leafval(t, nid, s.a(1)))),
            ("num nodes", And(t.num_nodes == u.num_nodes, t.num_deleted_nodes == u.num_deleted_nodes + 2))]

def valreq(s):
    t = s.this
    if z3.is_expr(s.a(1)): return [("scalar", t.output_dimension_ == 1)]
    return [("vector", And(t.output_dimension_ > 1, s.a(1).len == t.output_dimension_))]

def leafpost(s):
    t, u, nid = s.this, s.old.this, s.a(0)
    j, k = V("j"), V("k")
    return [
        ("other nodes keep links", FA(j, Implies(And(live(t, j), j != nid), And(t.node_type_[j] == u.node_type_[j], t.parent_[j] == u.parent_[j], t.cleft_[j] == u.cleft_[j], t.cright_[j] == u.cright_[j])), [t.parent_[j]])),
        ("other nodes keep content", FA(k, Implies(And(live(t, k), k != nid), content_same(t, u, k)), [t.node_type_[k]])),
        ("parents kept", veq(t.parent_, u.parent_)), ("depths kept", t.g_depth == u.g_depth),
        ("output dimension kept", t.output_dimension_ == u.output_dimension_)]

@contract
class ChangeToLeafScalar(ToLeaf): sig = ["i", "r"]
@contract
class ChangeToLeafVector(ToLeaf): sig = ["i", "Vr"]

ArrI = z3.ArraySort(Int, Int)
Desc = z3.Function("descendant", ArrI, Int, Int, Bool)     # parent array, node, x: x is the node or below it
def unfold_desc(P, a, x): return Desc(P, a, x) == Or(x == a, And(z3.Select(P, x) >= 0, Desc(P, a, z3.Select(P, x))))

SeqS = z3.DeclareSort("Sequence")
SeqR = z3.Function("seq_real", z3.ArraySort(Int, z3.RealSort()), Int, Int, SeqS)
SeqI = z3.Function("seq_int", ArrI, Int, Int, SeqS)
def vseq(t, k): return SeqR(t.leaf_vector_.e, t.leaf_vector_begin_[k], t.leaf_vector_end_[k])
def cseq(t, k): return SeqI(t.category_list_.e, t.category_list_begin_[k], t.category_list_end_[k])
def seq_defs(t, u):
    k, m = V("k"), V("k")
    return [FA(k, (vseq(t, k) == vseq(u, k)) == slice_same(t.leaf_vector_, t.leaf_vector_begin_[k], t.leaf_vector_end_[k], u.leaf_vector_, u.leaf_vector_begin_[k], u.leaf_vector_end_[k]), [vseq(t, k), vseq(u, k)]),
            FA(m, (cseq(t, m) == cseq(u, m)) == slice_same(t.category_list_, t.category_list_begin_[m], t.category_list_end_[m], u.category_list_, u.category_list_begin_[m], u.category_list_end_[m]), [cseq(t, m), cseq(u, m)])]
def content_seq(t, u, i):
    return And(t.node_type_[i] == u.node_type_[i], Implies(u.node_type_[i] != LEAF, t.split_index_[i] == u.split_index_[i]),
               Implies(u.node_type_[i] == NUM, t.threshold_[i] == u.threshold_[i]),
               Implies(And(u.node_type_[i] == LEAF, u.output_dimension_ == 1), t.leaf_value_[i] == u.leaf_value_[i]),
               Implies(u.node_type_[i] == CAT, cseq(t, i) == cseq(u, i)), Implies(And(u.node_type_[i] == LEAF, u.output_dimension_ > 1), vseq(t, i) == vseq(u, i)))

class Collapse(TreeC):
    name = "Tree::CollapseToLeaf"
    def requires(self, s):
        return inv(s.this) + [("live node", live(s.this, s.a(0)))] + valreq(s)
    # the stored category set / leaf vector of a node as an abstract sequence: equal exactly when the slices are
    def after_call_facts(self, s, before, callee):
        return seq_defs(s.this, before.this if before._this is not None else s.old.this) if callee.name in ("Tree::CollapseToLeaf", "Tree::ChangeToLeaf") else []
    def exit_facts(self, s): return seq_defs(s.this, s.old.this)
    def after_call(self, s, callee):
        if callee.name not in ("Tree::CollapseToLeaf", "Tree::ChangeToLeaf"): return []
        t, u, nid = s.this, s.old.this, s.old.a(0)
        k = V("k")
        return [("untouched nodes so far", FA(k, Implies(And(live(t, k), k != nid, k != u.cleft_[nid], k != u.cright_[nid]), And(live(u, k), content_seq(t, u, k))), [t.node_type_[k], t.deleted_nodes_.cnt[k]]))]
    def lemmas(self, s):
        t, nid = s.this, s.a(0)
        P, l, r = t.parent_.e, t.cleft_[nid], t.cright_[nid]
        return [unfold_desc(P, l, r), unfold_desc(P, r, l), unfold_desc(P, nid, nid), unfold_desc(P, l, l), unfold_desc(P, r, r), unfold_desc(P, nid, l), unfold_desc(P, nid, r)]
    def inductions(self, s):
        t, nid = s.this, s.a(0)
        P, l, r = t.parent_.e, t.cleft_[nid], t.cright_[nid]
        d = lambda x: z3.Select(t.g_depth, x)
        out = []
        def defs(x):
            p = z3.Select(P, x)
            return [unfold_desc(P, a, y) for a in (nid, l, r) for y in (x, p)]
        for nm, a in (("node", nid), ("left child", l), ("right child", r)):
            out.append(("descendants are deeper (%s)" % nm, lambda x: live(t, x), lambda x, a=a: Implies(And(live(t, a), Desc(P, a, x)), d(x) >= d(a)), d, defs))
        for nm, a in (("node", nid), ("left child", l), ("right child", r)):
            out.append(("a leaf has no descendants (%s)" % nm, lambda x: live(t, x), lambda x, a=a: Implies(And(live(t, a), leaf(t, a), Desc(P, a, x)), x == a), d, defs))
        out.append(("descendants are the node and its children's", lambda x: live(t, x), lambda x: Implies(Not(leaf(t, nid)), Desc(P, nid, x) == Or(x == nid, Desc(P, l, x), Desc(P, r, x))), d, defs))
        return out
    def ensures(self, s):
        t, u = s.this, s.old.this
        nid = s.a(0)
        i = V("i")
        return inv(t) + leafpost(s) + [
            ("live set", FA(i, live(t, i) == And(live(u, i), Or(i == nid, Not(Desc(u.parent_.e, nid, i)))), [t.deleted_nodes_.cnt[i]])),
            ("is leaf", leaf(t, nid)),
            ("new value", Implies(Not(leaf(u, nid)), has_leafval(t, nid, s.a(1)))),
            ("leaf unchanged", Implies(leaf(u, nid), And(content_same(t, u, nid), t.num_deleted_nodes == u.num_deleted_nodes))),
            ("num nodes", t.num_nodes == u.num_nodes)]

@contract
class CollapseScalar(Collapse): sig = ["i", "r"]
@contract
class CollapseVector(Collapse):
    sig = ["i", "Vr"]
    bounded = "the obligation that other nodes keep their vectors is not discharged reliably; decided by the bounded check"

@contract
class GetDepth(TreeC):
    name = "Tree::GetDepth"
    modifies = ()
    def requires(self, s): return inv(s.this) + [("live node", live(s.this, s.a(0)))]
    def hints(self, s, L):
        d = self.depth_of(s)
        return [And(live(s.this, x), y + z3.Select(d, x) == z3.Select(d, s.old.a(0))) for x in L.ints for y in L.ints + [L.iota] if not x.eq(y)]
    def depth_of(self, s): return s.this.g_depth
    def ensures(self, s): return [("depth", s.ret == z3.Select(s.this.g_depth, s.a(0)))]

@contract
class IsLeafParent(TreeC):
    name = "Tree::IsLeafParent"
    modifies = ()
    def requires(self, s): return inv(s.this) + [("live node", live(s.this, s.a(0)))]
    def ensures(self, s):
        t, i = s.this, s.a(0)
        return [("leaf parent", s.ret == And(Not(leaf(t, i)), leaf(t, t.cleft_[i]), leaf(t, t.cright_[i]))), ("listed", s.ret == (t.leaf_parents_.cnt[i] == 1))]

@contract
class NumLeaves(TreeC):
    name = "Tree::NumLeaves"
    modifies = ()
    def ensures(self, s): return [("count", s.ret == s.this.leaves_.len)]
@contract
class NumLeafParents(TreeC):
    name = "Tree::NumLeafParents"
    modifies = ()
    def ensures(self, s): return [("count", s.ret == s.this.leaf_parents_.len)]
@contract
class NumValidNodes(TreeC):
    name = "Tree::NumValidNodes"
    modifies = ()
    def requires(self, s): return inv(s.this)
    def ensures(self, s): return [("count", s.ret == s.this.num_nodes - s.this.deleted_nodes_.len)]
@contract
class IsRootTree(TreeC):
    name = "Tree::IsRoot"
    sig = []
    modifies = ()
    def requires(self, s): return inv(s.this)
    def ensures(self, s): return [("single leaf", s.ret == (s.this.leaves_.len == 1))]

# ---- reading leaves
@contract
class LeafVectorC(TreeC):
    name = "Tree::LeafVector"
    modifies = ()
    def requires(self, s): return inv(s.this) + [("live leaf", live_leaf(s.this, s.a(0)))]
    def ensures(self, s): return [("leaf vector", Implies(s.this.output_dimension_ > 1, And(s.ret.len == s.this.output_dimension_, has_leafval(s.this, s.a(0), s.ret))))]
@contract
class CategoryListC(TreeC):
    name = "Tree::CategoryList"
    modifies = ()
    def requires(self, s): return inv(s.this) + [("node", rng(s.a(0), 0, s.this.num_nodes))]
    def ensures(self, s):
        t, p = s.this, V("p")
        return [("categories", has_cats(t, s.a(0), s.ret)), ("every category", FA(p, Implies(rng(p, 0, s.ret.len), s.ret[p] == t.category_list_[t.category_list_begin_[s.a(0)] + p]), [s.ret[p]]))]

def leafval(t, i, k):
    return If(t.output_dimension_ == 1, t.leaf_value_[i], t.leaf_vector_[t.leaf_vector_begin_[i] + k])

@contract
class LeafValueDim(TreeC):
    name = "Tree::LeafValue"
    sig = ["i", "i"]
    modifies = ()
    def requires(self, s): return inv(s.this) + [("live leaf", live_leaf(s.this, s.a(0))), ("dimension", rng(s.a(1), 0, s.this.output_dimension_))]
    def ensures(self, s): return [("value", s.ret == leafval(s.this, s.a(0), s.a(1)))]

@contract
class SetLeafC(TreeC):
    name = "Tree::SetLeaf"
    inline_calls = True
    def requires(self, s): return inv(s.this) + [("live leaf", live_leaf(s.this, s.a(0))), ("scalar", s.this.output_dimension_ == 1)]
    def ensures(self, s):
        t, u, i = s.this, s.old.this, s.a(0)
        j = V("j")
        return inv(t) + [("leaf value", t.leaf_value_[i] == s.a(1)),
            ("other nodes", FA(j, Implies(And(rng(j, 0, u.num_nodes), j != i), And(t.leaf_value_[j] == u.leaf_value_[j])), [t.leaf_value_[j]]))] + [
            ("unchanged " + v, veq(getattr(t, v), getattr(u, v))) for v in ("parent_", "cleft_", "cright_", "node_type_", "split_index_", "threshold_", "category_list_", "category_list_begin_", "category_list_end_", "leaf_vector_", "leaf_vector_begin_", "leaf_vector_end_",
            "leaves_", "leaf_parents_", "internal_nodes_", "deleted_nodes_", "num_nodes", "num_deleted_nodes", "output_dimension_", "has_categorical_split_")]
@contract
class SetLeafVectorC(TreeC):
    name = "Tree::SetLeafVector"
    inline_calls = True
    def requires(self, s): return inv(s.this) + [("live leaf", live_leaf(s.this, s.a(0))), ("vector", And(s.this.output_dimension_ > 1, s.a(1).len == s.this.output_dimension_))]
    def ensures(self, s):
        t, u, i = s.this, s.old.this, s.a(0)
        k = V("k")
        return inv(t) + [("leaf vector", has_leafval(t, i, s.a(1))),
            ("other nodes", FA(k, Implies(And(live(u, k), k != i), content_same(t, u, k)), [t.node_type_[k]]))] + [
            ("unchanged " + v, veq(getattr(t, v), getattr(u, v))) for v in ("parent_", "cleft_", "cright_", "node_type_", "threshold_", "category_list_", "category_list_begin_", "category_list_end_", "leaf_value_",
            "leaves_", "leaf_parents_", "internal_nodes_", "deleted_nodes_", "num_nodes", "num_deleted_nodes", "output_dimension_", "has_categorical_split_")]

# ---- the invariant as a predicate on whole trees, for collections of trees; Unfold gives its definition where a function on one tree is called
_wf = {}
def tree_pred(name, t, extra=()): return tree_fun(name, t, extra, Bool)
def tree_fun(name, t, extra, sort):
    args = [x for _, x in leaves(t)] + list(extra)
    key = (name,) + tuple(a.sort() for a in args)
    if key not in _wf: _wf[key] = z3.Function(name, *([a.sort() for a in args] + [sort]))
    return _wf[key](*args)
def wf(t): return tree_pred("well_formed_tree", t)
class TreeUnfold:
    def trees_at(self, at):
        out = []
        for get in [lambda: at.this] + [lambda i=i: at.a(i) for i in range(len(at.argpaths))]:
            try: v = get()
            except Exception: continue
            if isinstance(v, Agg) and isinstance(v.t, TRec) and v.t.name.endswith("Tree"): out.append(v)
        return out
    def before_call(self, s, at, callee): return [("well-formed tree", wf(t), [f for _, f in inv(t)]) for t in self.trees_at(at)]
