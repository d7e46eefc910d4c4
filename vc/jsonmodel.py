"""Uninterpreted model of the nlohmann::json operations the code uses (an assumed library contract)."""
import z3
from .types import *
from . import solve
J, S = JsonS, StrS
jset = z3.Function("jset", J, S, J, J)
jget = z3.Function("jget", J, S, J)
jhas = z3.Function("jhas", J, S, Bool)
jpush = z3.Function("jpush", J, J, J)
jsetat = z3.Function("jsetat", J, Int, J, J)
jat = z3.Function("jat", J, Int, J)
jlen = z3.Function("jlen", J, Int)
j_int = z3.Function("j_int", Int, J); as_int = z3.Function("as_int", J, Int)
j_real = z3.Function("j_real", Real, J); as_real = z3.Function("as_real", J, Real)
j_bool = z3.Function("j_bool", Bool, J); as_bool = z3.Function("as_bool", J, Bool)
j_str = z3.Function("j_str", S, J); as_str = z3.Function("as_str", J, S)
jarr0 = z3.Const("json_array", J)
jobj0 = z3.Const("json_object", J)
jnull = z3.Const("json_null", J)
strid = z3.Function("strid", S, Int)
concat = z3.Function("str_concat", S, S, S)
tostr = z3.Function("to_string", Int, S)
untostr = z3.Function("un_to_string", S, Int)
tail = z3.Function("str_tail", S, S)
_lits = {}

def strlit(s):
    if s not in _lits:
        _lits[s] = len(_lits)
        c = z3.Const("str_" + s, S)
        solve.BG.append(({"str_" + s}, strid(c) == _lits[s]))
    return z3.Const("str_" + s, S)
strlit("empty")

def _ax():
    a, b = z3.Consts("ja jb", J); k, l = z3.Consts("jk jl", S); i, m = z3.Ints("ji jm"); x = z3.Real("jx"); p = z3.Bool("jp")
    FA = z3.ForAll
    out = []
    def add(trig, *fs):
        for f in fs: out.append((set(trig), f))
    add(["jset"], FA([a, k, b, l], jget(jset(a, k, b), l) == z3.If(k == l, b, jget(a, l)), patterns=[jget(jset(a, k, b), l)]),
        FA([a, k, b, l], jhas(jset(a, k, b), l) == z3.Or(k == l, jhas(a, l)), patterns=[jhas(jset(a, k, b), l)]))
    add(["json_null"], FA([k], z3.Not(jhas(jnull, k)), patterns=[jhas(jnull, k)]), jlen(jnull) == 0)
    add(["json_object"], FA([k], z3.Not(jhas(jobj0, k)), patterns=[jhas(jobj0, k)]), jlen(jobj0) == 0)
    add(["json_array"], jlen(jarr0) == 0)
    add(["jpush"], FA([a, b], jlen(jpush(a, b)) == jlen(a) + 1, patterns=[jpush(a, b)]),
        FA([a, b, i], jat(jpush(a, b), i) == z3.If(i == jlen(a), b, jat(a, i)), patterns=[jat(jpush(a, b), i)]))
    add(["jlen"], FA([a], jlen(a) >= 0, patterns=[jlen(a)]))
    add(["j_int"], FA([i], as_int(j_int(i)) == i, patterns=[j_int(i)]), FA([i], as_real(j_int(i)) == z3.ToReal(i), patterns=[j_int(i)]))
    add(["j_real"], FA([x], as_real(j_real(x)) == x, patterns=[j_real(x)]))
    add(["j_bool"], FA([p], as_bool(j_bool(p)) == p, patterns=[j_bool(p)]))
    add(["j_str"], FA([k], as_str(j_str(k)) == k, patterns=[j_str(k)]))
    add(["to_string"], FA([i], untostr(tostr(i)) == i, patterns=[tostr(i)]))
    # concatenations of a literal prefix and a printed number differ from every literal key and are injective
    add(["str_concat"], FA([k, l], z3.And(strid(concat(k, l)) < 0, tail(concat(k, l)) == l), patterns=[concat(k, l)]))
    # different literal prefixes give different keys: identified by prefix id
    pf = z3.Function("str_prefix", S, S)
    add(["str_concat"], FA([k, l], pf(concat(k, l)) == k, patterns=[concat(k, l)]))
    return out
solve.BG.extend(_ax())

def of(v):
    if not z3.is_expr(v): raise Unsupported("json from aggregate")
    if v.sort() == J: return v
    if v.sort() == Int: return j_int(v)
    if v.sort() == Real: return j_real(v)
    if v.sort() == Bool: return j_bool(v)
    if v.sort() == S: return j_str(v)
    raise Unsupported("json from " + str(v.sort()))

def op(o, *a):
    if o == "get": return jget(*a)
    if o == "at": return jat(*a)
    if o == "set": return jset(a[0], a[1], of(a[2]))
    if o == "setat": return jsetat(a[0], a[1], of(a[2]))
    if o == "of": return of(a[0])
    if o == "as":
        v, t = a
        if t.sort == Int: return as_int(v)
        if t.sort == Real: return as_real(v)
        if t.sort == Bool: return as_bool(v)
        if t.sort == S: return as_str(v)
        if t.sort == J: return v
        raise Unsupported("json to " + str(t))
    raise Unsupported(o)
