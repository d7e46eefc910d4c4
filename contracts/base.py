"""Helpers shared by the contract files."""
import z3
from vc.engine import Contract, Spec
from vc.types import *
from vc import solve
from vc.solve import mk_sum

And, Or, Not, Implies, If = z3.And, z3.Or, z3.Not, z3.Implies, z3.If
true = z3.BoolVal(True)

_c = [0]
def V(n="i"):
    _c[0] += 1
    return z3.Int("%s~%d" % (n, _c[0]))

def FA(vs, body, pats=None):
    if not isinstance(vs, (list, tuple)): vs = [vs]
    if pats is None: return z3.ForAll(list(vs), body)
    try: return z3.ForAll(list(vs), body, patterns=pats)
    except z3.Z3Exception: return z3.ForAll(list(vs), body)

def EX(vs, body):
    if not isinstance(vs, (list, tuple)): vs = [vs]
    return z3.Exists(list(vs), body)

def rng(i, lo, hi): return And(lo <= i, i < hi)

CONTRACTS = []
def contract(cls):
    CONTRACTS.append(cls())
    return cls

class Inl(Contract):
    inline = True

def lift(j, guard, f, pat):
    """for all j with guard: f, pushed through conjunctions and merged with f's own quantifiers; pat: pattern of the unquantified parts"""
    if z3.is_and(f): return And(*[lift(j, guard, c, pat) for c in f.children()])
    if z3.is_quantifier(f) and f.is_forall():
        vs = [z3.Const("%s~l%d" % (f.var_name(i), _c[0] * 100 + i), f.var_sort(i)) for i in range(f.num_vars())]
        _c[0] += 1
        body = z3.substitute_vars(f.body(), *reversed(vs))
        pats = []
        for i in range(f.num_patterns()):
            ps = [z3.substitute_vars(c, *reversed(vs)) for c in f.pattern(i).children()]
            pats.append(z3.MultiPattern(*ps) if len(ps) > 1 else ps[0])
        return FA([j] + vs, Implies(guard, body), pats or None)
    return FA(j, Implies(guard, f), [pat])

def each(v, lo, hi, clauses):
    """the named clauses of every element v[j], lo <= j < hi; clauses(element) gives (name, formula) pairs"""
    j = V("t")
    t = v[j]
    return [("every element: " + nm, lift(j, rng(j, lo, hi), f, t.pat)) for nm, f in clauses(t)]
