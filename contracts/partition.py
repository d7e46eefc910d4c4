"""Contracts of the observation lists: one index vector per tree, a range of it per node (C08)."""
from .base import *
from .tree import *
from .routing import *
from .leafindex import position, position_def
from .residual import nodes, cache, tracked, preds, node_of, cell

class PartC(Contract):
    props = ("C08",)
def gone(p, x): return p.deleted_nodes_.cnt[x] >= 1
def known(p, x): return rng(x, 0, p.num_nodes_)
def valid(p, x): return And(known(p, x), Not(gone(p, x)))
def is_leaf(p, x): return p.left_nodes_[x] == -1
def first(p, x): return p.node_begin_[x]
def size(p, x): return p.node_length_[x]
def last(p, x): return p.node_begin_[x] + p.node_length_[x]
def inside(p, x, q): return rng(q, first(p, x), last(p, x))
def pinv(p):
    x, q, r, y = V("x"), V("q"), V("r"), V("y")
    L, R = p.left_nodes_[x], p.right_nodes_[x]
    split = And(valid(p, x), Not(is_leaf(p, x)))
    n = p.indices_.len
    leaf_ = lambda x: And(valid(p, x), is_leaf(p, x))
    return [("leaves are disjoint", FA([x, y], Implies(And(leaf_(x), leaf_(y), x != y), Or(size(p, x) == 0, size(p, y) == 0, last(p, x) <= first(p, y), last(p, y) <= first(p, x))), [z3.MultiPattern(first(p, x), first(p, y))])),
            ("every observation in a leaf", FA(q, Implies(rng(q, 0, n), EX(y, And(leaf_(y), inside(p, y, q)))), [p.indices_[q]])),
            ("node vectors", And(p.num_nodes_ >= 1, p.node_begin_.len == p.num_nodes_, p.node_length_.len == p.num_nodes_, p.parent_nodes_.len == p.num_nodes_, p.left_nodes_.len == p.num_nodes_, p.right_nodes_.len == p.num_nodes_)),
            ("root holds everything", And(valid(p, z3.IntVal(0)), first(p, 0) == 0, size(p, 0) == n)),
            ("ranges", FA(x, Implies(valid(p, x), And(first(p, x) >= 0, size(p, x) >= 0, last(p, x) <= n)), [p.node_begin_[x]])),
            ("children are nodes", FA(x, Implies(split, And(valid(p, L), valid(p, R), L != 0, R != 0, L != x, R != x, L != R, p.parent_nodes_[L] == x, p.parent_nodes_[R] == x)), [p.left_nodes_[x]])),
            ("children divide the parent's range", FA(x, Implies(split, And(first(p, L) == first(p, x), first(p, R) == last(p, L), last(p, R) == last(p, x))), [p.left_nodes_[x]])),
            ("leaves have no right child", FA(x, Implies(known(p, x), (p.left_nodes_[x] == -1) == (p.right_nodes_[x] == -1)), [p.left_nodes_[x]])),
            ("deleted nodes", And(p.num_deleted_nodes_ == p.deleted_nodes_.len, FA(x, And(p.deleted_nodes_.cnt[x] <= 1, Implies(gone(p, x), And(known(p, x), x != 0))), [p.deleted_nodes_.cnt[x]]))),
            ("rows", FA(q, Implies(rng(q, 0, n), rng(p.indices_[q], 0, n)), [p.indices_[q]])),
            ("each row once", FA([q, r], Implies(And(rng(q, 0, n), rng(r, 0, n), q != r), p.indices_[q] != p.indices_[r]), [z3.MultiPattern(p.indices_[q], p.indices_[r])]))]
def kept(p, o, *fields):
    out = []
    for f in fields:
        a, b = getattr(p, f), getattr(o, f)
        out.append((f + " kept", And(a.len == b.len, a.e == b.e)))
    return out
@contract
class PartCtor(PartC):
    name = "FeatureUnsortedPartition::FeatureUnsortedPartition"
    sig = ["i"]
    modifies = ("this",)
    def requires(self, s): return [("size", s.a(0) >= 0), ("new object", And(s.this.deleted_nodes_.len == 0, s.this.deleted_nodes_.cnt == z3.K(Int, z3.IntVal(0))))]
    def ensures(self, s): return pinv(s.this) + [("a root with every observation", And(s.this.num_nodes_ == 1, is_leaf(s.this, 0), size(s.this, 0) == s.a(0), s.this.indices_.len == s.a(0)))]
class Acc(PartC):
    modifies = ()
    inline_calls = True
    def requires(self, s): return pinv(s.this) + [("node", known(s.this, s.a(0)))]
def acc(fn, val):
    contract(type("Part" + fn, (Acc,), {"name": "FeatureUnsortedPartition::" + fn, "ensures": lambda self, s: [("value", s.ret == val(s.this, s.a(0)))]}))
acc("NodeBegin", first)
acc("NodeEnd", last)
acc("NodeSize", size)
acc("Parent", lambda p, x: p.parent_nodes_[x])
acc("LeftNode", lambda p, x: p.left_nodes_[x])
acc("RightNode", lambda p, x: p.right_nodes_[x])
acc("IsLeaf", lambda p, x: is_leaf(p, x))
@contract
class PartValid(PartC):
    name = "FeatureUnsortedPartition::IsValidNode"
    modifies = ()
    def ensures(self, s): return [("a node that was not deleted", s.ret == valid(s.this, s.a(0)))]
@contract
class PartIndices(PartC):
    name = "FeatureUnsortedPartition::NodeIndices"
    modifies = ()
    may_throw = True
    def requires(self, s): return pinv(s.this) + [("node", valid(s.this, s.a(0)))]
    def ensures(self, s):
        p, i = s.this, V("i")
        return [("as many as the node holds", s.ret.len == size(p, s.a(0))), ("the node's observations", FA(i, Implies(rng(i, 0, s.ret.len), s.ret[i] == p.indices_[first(p, s.a(0)) + i]), [s.ret[i]]))]
def new_ids(p, l, r):
    """ids the tree hands out: reused deleted ones first, then the next ones"""
    return And(l != r, Or(gone(p, l), l == p.num_nodes_), If(l == p.num_nodes_, Or(gone(p, r), r == p.num_nodes_ + 1), Or(gone(p, r), r == p.num_nodes_)))
def grown(p, o, x, l, r):
    y = V("y")
    return [("children recorded", And(p.left_nodes_[x] == l, p.right_nodes_[x] == r, is_leaf(p, l), is_leaf(p, r), valid(p, l), valid(p, r))),
            ("other nodes kept", FA(y, Implies(And(known(o, y), y != l, y != r), And(first(p, y) == first(o, y), size(p, y) == size(o, y), p.parent_nodes_[y] == o.parent_nodes_[y], Or(y == x, And(p.left_nodes_[y] == o.left_nodes_[y], p.right_nodes_[y] == o.right_nodes_[y])))), [first(p, y)], )),
            ("other nodes stay valid or deleted", FA(y, Implies(And(y != l, y != r), p.deleted_nodes_.cnt[y] == o.deleted_nodes_.cnt[y]), [p.deleted_nodes_.cnt[y]])),
            ("node count", p.num_nodes_ == If(l >= o.num_nodes_, If(r >= o.num_nodes_, o.num_nodes_ + 2, o.num_nodes_ + 1), If(r >= o.num_nodes_, o.num_nodes_ + 1, o.num_nodes_)))]
@contract
class Expand(PartC):
    name = "FeatureUnsortedPartition::ExpandNodeTrackingVectors"
    modifies = ("this",)
    def requires(self, s):
        p, x, l, r = s.this, s.a(0), s.a(1), s.a(2)
        return pinv(p) + [("a leaf", And(valid(p, x), is_leaf(p, x))), ("new ids", new_ids(p, l, r)), ("sizes", And(s.a(3) == first(p, x), s.a(4) >= 0, s.a(5) >= 0, s.a(4) + s.a(5) == size(p, x)))]
    def ensures(self, s):
        p, o, x, l, r = s.this, s.old.this, s.a(0), s.a(1), s.a(2)
        return pinv(p) + grown(p, o, x, l, r) + kept(p, o, "indices_") + [("child ranges", And(first(p, l) == first(o, x), size(p, l) == s.a(4), first(p, r) == first(o, x) + s.a(4), size(p, r) == s.a(5)))]
@contract
class Merge(PartC):
    name = "FeatureUnsortedPartition::ConvertLeafParentToLeaf"
    modifies = ("this",)
    may_throw = False
    def requires(self, s):
        p, x = s.this, s.a(0)
        return pinv(p) + [("a parent of two leaves", And(valid(p, x), Not(is_leaf(p, x)), is_leaf(p, p.left_nodes_[x]), is_leaf(p, p.right_nodes_[x])))]
    def ensures(self, s):
        p, o, x = s.this, s.old.this, s.a(0)
        y = V("y")
        L, R = o.left_nodes_[x], o.right_nodes_[x]
        return pinv(p) + kept(p, o, "indices_", "node_begin_", "node_length_", "parent_nodes_") + [("a leaf now", is_leaf(p, x)), ("node count kept", p.num_nodes_ == o.num_nodes_), ("children of other nodes kept", FA(y, Implies(y != x, And(p.left_nodes_[y] == o.left_nodes_[y], p.right_nodes_[y] == o.right_nodes_[y])), [p.left_nodes_[y]])),
            ("exactly the children are deleted", FA(y, p.deleted_nodes_.cnt[y] == o.deleted_nodes_.cnt[y] + If(Or(y == L, y == R), z3.IntVal(1), z3.IntVal(0)), [p.deleted_nodes_.cnt[y]]))]
@contract
class Prune(PartC):
    """a leaf, or a parent of two leaves (the sampler prunes nothing else)"""
    name = "FeatureUnsortedPartition::PruneNodeToLeaf"
    modifies = ("this",)
    def requires(self, s):
        p, x = s.this, s.a(0)
        return pinv(p) + [("node", valid(p, x)), ("nothing below the children", Or(is_leaf(p, x), And(is_leaf(p, p.left_nodes_[x]), is_leaf(p, p.right_nodes_[x]))))]
    def ensures(self, s): return pruned(s.this, s.old.this, s.a(0))
def pruned(p, o, x):
    y = V("y")
    L, R = o.left_nodes_[x], o.right_nodes_[x]
    return pinv(p) + kept(p, o, "indices_", "node_begin_", "node_length_", "parent_nodes_") + [("a leaf now", And(valid(p, x), is_leaf(p, x))), ("node count kept", p.num_nodes_ == o.num_nodes_),
        ("children of other nodes kept", FA(y, Implies(y != x, And(p.left_nodes_[y] == o.left_nodes_[y], p.right_nodes_[y] == o.right_nodes_[y])), [p.left_nodes_[y]])),
        ("exactly the children are deleted", FA(y, p.deleted_nodes_.cnt[y] == o.deleted_nodes_.cnt[y] + If(And(Not(is_leaf(o, x)), Or(y == L, y == R)), z3.IntVal(1), z3.IntVal(0)), [p.deleted_nodes_.cnt[y]]))]
def split_range(new, old, b, e, mid, rule, q):
    """[b, e) is rearranged: rows satisfying the rule in [b, mid), the others in [mid, e); nothing else moves"""
    r, x = V("r"), V("x")
    return [("rows satisfying the rule on the left, the others on the right", FA(q, Implies(rng(q, b, e), (q < mid) == rule(new[q])), [new[q]])),
            ("exactly the node's rows", FA(q, Implies(rng(q, b, e), And(CatIn(old.e, b, e, new[q]), CatIn(new.e, b, e, old[q]))), [new[q], old[q]])),
            ("other rows kept in place", FA(q, Implies(And(rng(q, 0, old.len), Not(rng(q, b, e))), new[q] == old[q]), [new[q]])),
            ("as many rows", new.len == old.len)]
def rows_ok(m, f, n):
    i = V("i")
    return [("data", And(m.rows == n, rng(f, 0, m.cols))), ("no missing values", FA(i, Implies(rng(i, 0, n), Not(F_isnan(m[i, f]))), [m[i, f]]))]
class Partition(PartC):
    name = "FeatureUnsortedPartition::PartitionNode"
    modifies = ("this",)
    def requires(self, s):
        p, x, l, r = s.this, s.a(1), s.a(2), s.a(3)
        return pinv(p) + rows_ok(s.a(0), s.a(4), p.indices_.len) + [("a leaf", And(valid(p, x), is_leaf(p, x))), ("new ids", new_ids(p, l, r))]
    def lemmas(self, s): return [catdef()]
    def rule(self, s): pass
    def ensures(self, s):
        p, o, x, l, r = s.this, s.old.this, s.a(1), s.a(2), s.a(3)
        return pinv(p) + grown(p, o, x, l, r) + split_range(p.indices_, o.indices_, first(o, x), last(o, x), last(p, l), self.rule(s), V("q")) + [("child ranges", And(first(p, l) == first(o, x), first(p, r) == last(p, l), last(p, r) == last(o, x), size(p, l) >= 0, size(p, r) >= 0))]
@contract
class PartitionSplit(Partition):
    sig = ["mat", "i", "i", "i", "i", "TreeSplit"]
    def rule(self, s): return lambda row: split_true(s.a(5), s.a(0)[row, s.a(4)])
@contract
class PartitionNumeric(Partition):
    sig = ["mat", "i", "i", "i", "i", "r"]
    def rule(self, s): return lambda row: s.a(0)[row, s.a(4)] <= s.a(5)
@contract
class PartitionCategorical(Partition):
    sig = ["mat", "i", "i", "i", "i", "Vi"]
    def rule(self, s): return lambda row: matches(s.a(5).e, z3.IntVal(0), s.a(5).len, s.a(0)[row, s.a(4)])

# ---- the node of every observation
class NodeC(PartC):
    may_throw = True
def T(p): return p.tree_observation_indices_
def same_nodes_but(p, q, but):
    i, j = V("i"), V("j")
    return ("every other assignment kept", FA([i, j], Implies(And(rng(j, 0, p.num_trees_), rng(i, 0, p.num_observations_), Not(but(i, j))), T(p)[j][i] == T(q)[j][i]), [T(p)[j][i]]))
def shape_kept(p, q): return ("sizes kept", And(p.num_trees_ == q.num_trees_, p.num_observations_ == q.num_observations_))
@contract
class NodeMapCtor(NodeC):
    name = "SampleNodeMapper::SampleNodeMapper"
    sig = ["i", "i"]
    modifies = ("this",)
    def requires(self, s): return [("sizes", And(s.a(0) >= 0, s.a(1) >= 0)), ("new object", s.this.tree_observation_indices_.len == 0)]
    def hints(self, s, L):
        p, i, j, k = s.this, V("i"), V("j"), V("k")
        return [And(FA([i, j], Implies(And(rng(j, 0, x), rng(i, 0, s.a(1))), T(p)[j][i] == 0), [T(p)[j][i]]), FA(k, Implies(rng(k, x, s.a(0)), T(p)[k].len == 0), [T(p)[k].len])) for x in L.ints]
    def ensures(self, s):
        p = s.this
        i, j = V("i"), V("j")
        return nodes(p) + [("requested sizes", And(p.num_trees_ == s.a(0), p.num_observations_ == s.a(1))), ("everyone at the root", FA([i, j], Implies(cell(p, i, j), T(p)[j][i] == 0), [T(p)[j][i]]))]
@contract
class NodeMapRoot(NodeC):
    name = "SampleNodeMapper::AssignAllSamplesToRoot"
    modifies = ("this",)
    def requires(self, s): return nodes(s.this) + [("tree", rng(s.a(0), 0, s.this.num_trees_))]
    def ensures(self, s):
        p, i = s.this, V("i")
        return nodes(p) + [shape_kept(p, s.old.this), ("everyone at the root of the tree", FA(i, Implies(rng(i, 0, p.num_observations_), T(p)[s.a(0)][i] == 0), [T(p)[s.a(0)][i]])), same_nodes_but(p, s.old.this, lambda i, j: j == s.a(0))]
@contract
class NodeMapSet(NodeC):
    name = "SampleNodeMapper::SetNodeId"
    inline_calls = True
    modifies = ("this",)
    def requires(self, s): return nodes(s.this) + [("cell", cell(s.this, s.a(0), s.a(1)))]
    def ensures(self, s):
        p = s.this
        return nodes(p) + [shape_kept(p, s.old.this), ("assigned", T(p)[s.a(1)][s.a(0)] == s.a(2)), same_nodes_but(p, s.old.this, lambda i, j: And(j == s.a(1), i == s.a(0)))]
@contract
class NodeMapSplit(NodeC):
    name = "SampleNodeMapper::AddSplit"
    modifies = ("this",)
    def requires(self, s):
        p = s.this
        return nodes(p) + rows_ok(s.a(0), s.a(2), p.num_observations_) + [("tree", rng(s.a(3), 0, p.num_trees_))]
    def ensures(self, s):
        p, q, i, j = s.this, s.old.this, V("i"), s.a(3)
        go = If(split_true(s.a(1), s.a(0)[i, s.a(2)]), s.a(5), s.a(6))
        return nodes(p) + [shape_kept(p, q), ("observations of the node follow the rule, the others stay", FA(i, Implies(rng(i, 0, p.num_observations_), T(p)[j][i] == If(T(q)[j][i] == s.a(4), go, T(q)[j][i])), [T(p)[j][i]])), same_nodes_but(p, q, lambda i, j: j == s.a(3))]
@contract
class MapNodeRows(NodeC):
    name = "FeatureUnsortedPartition::UpdateObservationMapping"
    modifies = (2,)
    def requires(self, s):
        p, m = s.this, s.a(2)
        return pinv(p) + nodes(m) + [("node", valid(p, s.a(0))), ("tree", rng(s.a(1), 0, m.num_trees_)), ("as many observations", m.num_observations_ == p.indices_.len)]
    def ensures(self, s):
        p, m, o, q, q2 = s.this, s.a(2), s.old.a(2), V("q"), V("q")
        return nodes(m) + [shape_kept(m, o), ("every observation of the node is assigned to it", FA(q, Implies(inside(p, s.a(0), q), T(m)[s.a(1)][p.indices_[q]] == s.a(0)), [p.indices_[q]])),
            same_nodes_but(m, o, lambda i, j: And(j == s.a(1), EX(q2, And(inside(p, s.a(0), q2), p.indices_[q2] == i))))]

# ---- one partition per tree
def P(u, j): return u.feature_partitions_[j].v
def has_part(u, j): return And(rng(j, 0, u.feature_partitions_.len), Not(u.feature_partitions_[j].null))
def other_parts(u, o, j):
    k, x, q = V("k"), V("x"), V("q")
    ok = And(rng(k, 0, u.feature_partitions_.len), k != j)
    A, B = P(u, k), P(o, k)
    return [("as many trees", And(u.feature_partitions_.len == o.feature_partitions_.len, u.num_trees_ == o.num_trees_)),
            ("observations of other trees kept", FA([k, q], Implies(ok, And(A.indices_[q] == B.indices_[q], A.indices_.len == B.indices_.len)), [A.indices_[q]])),
            ("nodes of other trees kept", FA([k, x], Implies(ok, And(first(A, x) == first(B, x), size(A, x) == size(B, x), A.left_nodes_[x] == B.left_nodes_[x], A.right_nodes_[x] == B.right_nodes_[x], A.deleted_nodes_.cnt[x] == B.deleted_nodes_.cnt[x], A.num_nodes_ == B.num_nodes_)), [first(A, x)]))]
class TrackC(PartC):
    may_throw = True
@contract
class TrackCtor(TrackC):
    name = "UnsortedNodeSampleTracker::UnsortedNodeSampleTracker"
    sig = ["i", "i"]
    modifies = ("this",)
    def requires(self, s): return [("sizes", And(s.a(0) >= 0, s.a(1) >= 0)), ("new object", s.this.feature_partitions_.len == 0)]
    def hints(self, s, L):
        u = s.this
        out = []
        for x in L.ints:
            k = V("k")
            p = P(u, k)
            ok = rng(k, 0, x)
            out.append(And(FA(k, Implies(ok, Not(u.feature_partitions_[k].null)), [u.feature_partitions_[k].null]), *[lift(k, ok, f, p.num_nodes_) for f in [c for _, c in pinv(p)] + [And(p.num_nodes_ == 1, is_leaf(p, 0), p.indices_.len == s.a(0))]]))
        return out
    def ensures(self, s):
        u = s.this
        k = V("k")
        p = P(u, k)
        ok = rng(k, 0, s.a(1))
        return [("a partition per tree", And(u.num_trees_ == s.a(1), u.feature_partitions_.len == s.a(1), FA(k, Implies(ok, Not(u.feature_partitions_[k].null)), [u.feature_partitions_[k].null])))] + \
            [("every tree: " + nm, lift(k, ok, f, p.num_nodes_)) for nm, f in pinv(p) + [("a root with every observation", And(p.num_nodes_ == 1, is_leaf(p, 0), p.indices_.len == s.a(0)))]]
@contract
class TrackReset(TrackC):
    name = "UnsortedNodeSampleTracker::ResetTreeToRoot"
    modifies = ("this",)
    def requires(self, s): return [("tree", rng(s.a(0), 0, s.this.feature_partitions_.len)), ("size", s.a(1) >= 0)]
    def ensures(self, s):
        p = P(s.this, s.a(0))
        return [("partition", has_part(s.this, s.a(0)))] + pinv(p) + [("a root with every observation", And(p.num_nodes_ == 1, is_leaf(p, 0), p.indices_.len == s.a(1)))] + other_parts(s.this, s.old.this, s.a(0))
class TrackPartition(TrackC):
    name = "UnsortedNodeSampleTracker::PartitionTreeNode"
    modifies = ("this",)
    def requires(self, s):
        u, j, x, l, r = s.this, s.a(1), s.a(2), s.a(3), s.a(4)
        p = P(u, j)
        return [("tree", has_part(u, j))] + pinv(p) + rows_ok(s.a(0), s.a(5), p.indices_.len) + [("a leaf", And(valid(p, x), is_leaf(p, x))), ("new ids", new_ids(p, l, r))]
    def ensures(self, s):
        u, j, x, l, r = s.this, s.a(1), s.a(2), s.a(3), s.a(4)
        p, o = P(u, j), P(s.old.this, j)
        return [("partition", has_part(u, j))] + pinv(p) + grown(p, o, x, l, r) + split_range(p.indices_, o.indices_, first(o, x), last(o, x), last(p, l), self.rule(s), V("q")) + [("child ranges", And(first(p, l) == first(o, x), first(p, r) == last(p, l), last(p, r) == last(o, x), size(p, l) >= 0, size(p, r) >= 0))] + other_parts(u, s.old.this, j)
@contract
class TrackSplit(TrackPartition):
    sig = ["mat", "i", "i", "i", "i", "i", "TreeSplit"]
    def rule(self, s): return lambda row: split_true(s.a(6), s.a(0)[row, s.a(5)])
@contract
class TrackNumeric(TrackPartition):
    sig = ["mat", "i", "i", "i", "i", "i", "r"]
    def rule(self, s): return lambda row: s.a(0)[row, s.a(5)] <= s.a(6)
@contract
class TrackCategorical(TrackPartition):
    sig = ["mat", "i", "i", "i", "i", "i", "Vi"]
    def rule(self, s): return lambda row: matches(s.a(6).e, z3.IntVal(0), s.a(6).len, s.a(0)[row, s.a(5)])
@contract
class TrackPrune(TrackC):
    name = "UnsortedNodeSampleTracker::PruneTreeNodeToLeaf"
    modifies = ("this",)
    def requires(self, s):
        u, x = s.this, s.a(1)
        p = P(u, s.a(0))
        return [("tree", has_part(u, s.a(0)))] + pinv(p) + [("node", valid(p, x)), ("nothing below the children", Or(is_leaf(p, x), And(is_leaf(p, p.left_nodes_[x]), is_leaf(p, p.right_nodes_[x]))))]
    def ensures(self, s): return [("partition", has_part(s.this, s.a(0)))] + pruned(P(s.this, s.a(0)), P(s.old.this, s.a(0)), s.a(1)) + other_parts(s.this, s.old.this, s.a(0))
class TrackAcc(TrackC):
    modifies = ()
    inline_calls = True
    def requires(self, s): return [("tree", has_part(s.this, s.a(0)))] + pinv(P(s.this, s.a(0))) + [("node", known(P(s.this, s.a(0)), s.a(1)))]
def tacc(fn, val):
    contract(type("Track" + fn, (TrackAcc,), {"name": "UnsortedNodeSampleTracker::" + fn, "ensures": lambda self, s: [("value", s.ret == val(P(s.this, s.a(0)), s.a(1)))]}))
tacc("NodeBegin", first)
tacc("NodeEnd", last)
tacc("NodeSize", size)
tacc("Parent", lambda p, x: p.parent_nodes_[x])
tacc("LeftNode", lambda p, x: p.left_nodes_[x])
tacc("RightNode", lambda p, x: p.right_nodes_[x])
tacc("IsLeaf", lambda p, x: is_leaf(p, x))
tacc("IsValidNode", valid)
def all_there(u, m, j):
    p = P(u, j)
    return [("tree", And(has_part(u, j), rng(j, 0, m.num_trees_)))] + pinv(p) + nodes(m) + [("as many observations", m.num_observations_ == p.indices_.len)]
@contract
class TrackMapNode(TrackC):
    name = "UnsortedNodeSampleTracker::UpdateObservationMapping"
    sig = ["i", "i", "*SampleNodeMapper"]
    modifies = (2,)
    inline_calls = False
    def requires(self, s): return all_there(s.this, s.a(2), s.a(1)) + [("node", valid(P(s.this, s.a(1)), s.a(0)))]
    def ensures(self, s):
        p, m, o, q, q2 = P(s.this, s.a(1)), s.a(2), s.old.a(2), V("q"), V("q")
        return nodes(m) + [shape_kept(m, o), ("every observation of the node is assigned to it", FA(q, Implies(inside(p, s.a(0), q), T(m)[s.a(1)][p.indices_[q]] == s.a(0)), [p.indices_[q]])),
            same_nodes_but(m, o, lambda i, j: And(j == s.a(1), EX(q2, And(inside(p, s.a(0), q2), p.indices_[q2] == i))))]
def same_leaves(t, p):
    x = V("x")
    return ("the tree's leaves are the partition's", FA(x, live_leaf(t, x) == And(valid(p, x), is_leaf(p, x)), [p.left_nodes_[x], p.deleted_nodes_.cnt[x], t.leaves_.cnt[x]]))
def mapped(p, row, hi=None):
    """every position of a leaf's range is assigned to the leaf"""
    x, q = V("x"), V("q")
    return FA([x, q], Implies(And(valid(p, x), is_leaf(p, x), inside(p, x, q)), row[p.indices_[q]] == x), [z3.MultiPattern(p.deleted_nodes_.cnt[x], p.indices_[q])])
@contract
class TrackMapTree(TrackC):
    name = "UnsortedNodeSampleTracker::UpdateObservationMapping"
    sig = ["*Tree", "i", "*SampleNodeMapper"]
    modifies = (2,)
    def lemmas(self, s): return position_def(s.a(0).leaves_)
    def requires(self, s): return all_there(s.this, s.a(2), s.a(1)) + inv(s.a(0)) + [same_leaves(s.a(0), P(s.this, s.a(1)))]
    def hints(self, s, L):
        p, m, o = P(s.this, s.a(1)), s.a(2), s.old.a(2)
        out = []
        for i in L.ints:
            k, q = V("k"), V("q")
            lf = s.a(0).leaves_
            out.append(FA([k, q], Implies(And(rng(k, 0, i), inside(p, lf[k], q)), T(m)[s.a(1)][p.indices_[q]] == lf[k]), [z3.MultiPattern(lf[k], p.indices_[q])]))
        out.append(same_nodes_but(m, o, lambda i, j: j == s.a(1))[1])
        out.append(shape_kept(m, o)[1])
        return out
    def ensures(self, s):
        p, m, o = P(s.this, s.a(1)), s.a(2), s.old.a(2)
        return nodes(m) + [shape_kept(m, o), ("every observation is assigned to the leaf that lists it", mapped(p, T(m)[s.a(1)])), same_nodes_but(m, o, lambda i, j: j == s.a(1))]
