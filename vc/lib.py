"""Assumed contracts of the standard library, Eigen and nlohmann::json operations."""
import z3, re
from .types import *
from . import solve, jsonmodel as jm
from .engine import LV, Dead, F_isnan, conj

F_log = z3.Function("log", Real, Real); F_exp = z3.Function("exp", Real, Real); F_sqrt = z3.Function("sqrt", Real, Real)
F_pow = z3.Function("pow", Real, Real, Real); F_floor = z3.Function("floor_", Real, Real)
F_lgamma = z3.Function("lgamma", Real, Real)

_x, _y = z3.Reals("lx ly")
solve.BG.append(({"sqrt"}, forall([_x], z3.Implies(_x >= 0, z3.And(F_sqrt(_x) * F_sqrt(_x) == _x, F_sqrt(_x) >= 0)), patterns=[F_sqrt(_x)])))

def newpath(p, *steps): return (p[0], p[1] + tuple(steps))
def sub(path, nm): return newpath(path, ("f", nm))

def setf(eng, st, path, **kw):
    v = eng.read(st, path)
    f = dict(v.f)
    for k, x in kw.items(): f[k] = x
    eng.write(st, path, Agg(v.t, f))

def strip(n):
    while n["kind"] in ("ImplicitCastExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ParenExpr") : n = n["inner"][0]
    return n

def construct(eng, st, n, t, args):
    args = [a for a in args if a.get("kind") != "CXXDefaultArgExpr"]
    if isinstance(t, (TIter, TFunc)):
        v = eng.ev(st, args[0]) if args else zero_of(t)
        if not args and isinstance(t, TFunc) and t.s.startswith("std::"): return Func("std", t.s)
        return v
    if isinstance(t, TVec):
        if not args: return zero_of(t)
        v0 = eng.ev(st, args[0])
        if isinstance(v0, Agg) and isinstance(v0.t, TVec): return Agg(t, v0.f) if not isinstance(v0, Undef) else v0
        if isinstance(v0, (Iter, Ptr)) and len(args) >= 2:
            v1 = eng.ev(st, args[1])
            return vec_from_range(eng, st, n, t, v0, v1)
        if z3.is_expr(v0) and v0.sort() == Int:
            x = None
            if len(args) >= 2:
                x = eng.ev(st, args[1])
                if t.e.scalar: x = eng.conv(x, t.e)
            return vec_fill(t, v0, x)
        raise Unsupported("vector constructor")
    if isinstance(t, TMat):
        vs = [eng.ev(st, a) for a in args]
        if len(vs) == 1 and isinstance(vs[0], Agg): return Agg(t, vs[0].f)
        if not vs: return zero_of(t)
        if isinstance(vs[0], Ptr):
            # Eigen::Map over a caller buffer: column-major unless the type says otherwise
            q = n["type"].get("desugaredQualType") or n["type"]["qualType"]
            rows = vs[1]; cols = vs[2] if len(vs) > 2 else z3.IntVal(1)
            m = re.search(r"Matrix<double,\s*-1,\s*-1,\s*(\d+)", q)
            rowmajor = bool(m and int(m.group(1)) & 1)
            buf, off = buffer_of(eng, st, vs[0])
            v = fresh(t, "map")
            i, j = z3.Ints("mi mj")
            idx = off + (i * cols + j if rowmajor else j * rows + i)
            a = z3.Lambda([i], z3.Lambda([j], simp_select(buf, idx)))
            f = dict(v.f); f["rows"], f["cols"] = rows, cols
            cell = z3.Select(z3.Select(f["a"], i), j)
            st.fact(forall([i, j], z3.Implies(z3.And(0 <= i, i < rows, 0 <= j, j < cols), cell == simp_select(buf, idx)), patterns=[cell]))
            return Agg(t, f)
        if all(z3.is_expr(v) and v.sort() == Int for v in vs):
            v = fresh(t, "mat"); f = dict(v.f)
            f["rows"] = vs[0]; f["cols"] = vs[1] if len(vs) > 1 else z3.IntVal(1)
            return Agg(t, f)
        raise Unsupported("matrix constructor")
    if isinstance(t, TUptr):
        if not args: return zero_of(t)
        v = eng.eval(st, args[0])
        v = eng.rv(st, v)
        if isinstance(v, Agg) and isinstance(v.t, TUptr): return v
        if isinstance(v, Ptr):
            if v.path is None: return zero_of(t)
            return Agg(t, {"null": z3.BoolVal(False), "v": eng.read(st, v.path)})
        raise Unsupported("unique_ptr constructor")
    if isinstance(t, TMap):
        if not args: return zero_of(t)
        v = eng.ev(st, args[0])
        if isinstance(v, Agg): return v
        raise Unsupported("map constructor")
    if isinstance(t, TRec):   # pair / tuple
        vs = [eng.ev(st, a) for a in args]
        if len(vs) == 1 and isinstance(vs[0], Agg) and isinstance(vs[0].t, TRec):
            src = vs[0]
            f = {}
            for (k, ft), (k2, x) in zip(t.fields.items(), src.f.items()):
                f[k] = eng.conv(x, ft) if ft.scalar and z3.is_expr(x) else x
            return Agg(t, f)
        f = {}
        for (k, ft), x in zip(t.fields.items(), vs): f[k] = eng.conv(x, ft) if ft.scalar and z3.is_expr(x) else x
        for k, ft in t.fields.items():
            if k not in f: f[k] = zero_of(ft)
        return Agg(t, f)
    if t.scalar and t.sort == JsonS:
        vs = [eng.ev(st, a) for a in args]
        if not vs: return jm.jnull
        if z3.is_expr(vs[0]): return jm.of(vs[0])
        if isinstance(vs[0], Agg): raise Unsupported("json from container")
    if t.scalar and t.sort == StrS:
        if not args: return eng.strlit("")
        v = eng.ev(st, args[0])
        if z3.is_expr(v) and v.sort() == StrS: return v
    if t.scalar and not isinstance(t, TOpaque):
        return eng.conv(eng.ev(st, args[0]), t) if args else zero_of(t)
    if isinstance(t, TOpaque):
        vs = [eng.eval(st, a) for a in args]
        r = fresh(t, "opaque")
        if "distribution" in t.name and args:      # a distribution remembers its parameters
            for i, a in enumerate(args):
                x = eng.ev(st, a)
                if z3.is_expr(x) and x.sort() in (Int, Real): st.fact(dist_param(r, i) == (z3.ToReal(x) if x.sort() == Int else x))
                elif z3.is_expr(x) and x.sort() == r.sort(): return x
        return r
    raise Unsupported("construct %r" % (t,))

def buffer_of(eng, st, p):
    root, steps = p.path
    if steps and steps[-1][0] == "e":
        v = eng.read(st, (root, steps[:-1]))
        return v.f["e"], steps[-1][1]
    raise Unsupported("buffer pointer")

def vec_fill(t, n, x=None):
    f = {"len": n}
    if x is None: x = zero_of(t.e)
    f["e"] = lift(x, 1) if not isinstance(x, Undef) else fresh(t.e, "vf", 1)
    if "cnt" in children(t):
        f["cnt"] = z3.Store(z3.K(Int, z3.IntVal(0)), x, n)
    return Agg(t, f)

def vec_from_range(eng, st, n, t, a, b):
    if isinstance(a, Ptr):
        (r1, s1), (r2, s2) = a.path, b.path
        p, i, j = (r1, s1[:-1]), s1[-1][1], s2[-1][1]
    else:
        p, i, j = a.path, a.idx, b.idx
    src = eng.read(st, p)
    v = fresh(t, "slice")
    f = dict(v.f); f["len"] = z3.simplify(j - i)
    r = Agg(t, f)
    k = z3.Int(fresh_name("sk_"))
    if z3.is_int_value(z3.simplify(i)) and z3.simplify(i).as_long() == 0 and j.eq(src.f["len"]):
        return Agg(t, src.f)
    def eqs(x, y):
        for (_, u), (_, w) in zip(leaves(x), leaves(y)):
            st.fact(forall([k], z3.Implies(z3.And(0 <= k, k < j - i), z3.Select(u, k) == z3.Select(w, i + k)), patterns=[z3.Select(u, k)]))
    eqs(f["e"], src.f["e"])
    for q in type_facts(t, r): st.fact(q)
    if "cnt" in src.f:
        x = z3.Int(fresh_name("qx"))
        # membership in the slice
        eng_member_facts(st, r)
    return r

def eng_member_facts(st, v):
    """cnt[x] >= 1 has a witness position"""
    pos = z3.Function(fresh_name("pos"), Int, Int)
    x = z3.Int(fresh_name("qx"))
    st.fact(forall([x], z3.Implies(z3.Select(v.f["cnt"], x) >= 1, z3.And(0 <= pos(x), pos(x) < v.f["len"], z3.Select(v.f["e"], pos(x)) == x)), patterns=[z3.Select(v.f["cnt"], x)]))

def push(eng, st, path, x):
    v = eng.read(st, path)
    if v.t.e.scalar and z3.is_expr(x): x = eng.conv(x, v.t.e)
    f = dict(v.f)
    f["e"] = sto(v.f["e"], v.f["len"], x)
    f["len"] = z3.simplify(v.f["len"] + 1)
    if "cnt" in f: f["cnt"] = z3.Store(f["cnt"], x, simp_select(f["cnt"], x) + 1)
    eng.write(st, path, Agg(v.t, f))

def method(eng, st, n, name, path, args):
    args = [a for a in args if a.get("kind") != "CXXDefaultArgExpr"]
    v = eng.read(st, path)
    if isinstance(v, Undef): raise Unsupported("method %s on undefined value" % name)
    if isinstance(v, Agg):
        t = v.t
        if isinstance(t, TVec): return m_vec(eng, st, n, name, path, v, args)
        if isinstance(t, TMat): return m_mat(eng, st, n, name, path, v, args)
        if isinstance(t, TUptr):
            if name == "get": return Ptr(sub(path, "v"))
            if name == "reset":
                if not args:
                    eng.write(st, path, zero_of(t)); return None
                p = eng.ev(st, args[0])
                if isinstance(p, Ptr) and p.path is not None:
                    eng.write(st, path, Agg(t, {"null": z3.BoolVal(False), "v": eng.read(st, p.path)}))
                    return None
            if name in ("operator bool",): return z3.Not(v.f["null"])
        if isinstance(t, TMap): return m_map(eng, st, n, name, path, v, args)
    if isinstance(v, Func) and v.kind == "std": pass
    if z3.is_expr(v):
        if v.sort() == JsonS: return m_json(eng, st, n, name, path, v, args)
        if isinstance(v.sort(), z3.SortRef) and str(v.sort()).startswith("Op_"):
            return m_opaque(eng, st, n, name, path, v, args)
    raise Unsupported("method %s on %r" % (name, getattr(v, "t", v)))

def m_opaque(eng, st, n, name, path, v, args):
    for a in args: eng.eval(st, a)
    t = eng.types.of(n)
    if isinstance(t, TVoid): return None
    if t.scalar: return fresh(t, "opq_" + name)
    raise Unsupported("method %s on opaque object" % name)

def m_vec(eng, st, n, name, path, v, args):
    L = v.f["len"]
    if name == "size": return L
    if name == "empty": return L == 0
    if name in ("push_back", "emplace_back", "push", "push_front"):
        if name == "emplace_back" and not (v.t.e.scalar or len(args) == 1):
            if not (isinstance(v.t.e, TRec) and getattr(v.t.e, "node", None) is not None): raise Unsupported("emplace_back with several arguments")
            x = eng.user_ctor(st, n, v.t.e, "", args)
        else: x = eng.ev(st, args[0])
        push(eng, st, path, x)
        nv = eng.read(st, path)
        return LV(newpath(path, ("e", L)))
    if name in ("at", "operator[]"):
        i = eng.ev(st, args[0])
        if eng.addrof == n.get("id"):
            eng.assumptions.add("&v[v.size()] forms the one-past-the-end pointer")
            eng.inb(st, n, i, L + 1, "address of element"); return LV(newpath(path, ("e", i)))
        eng.inb(st, n, i, L, name) if name != "at" or not eng.cur.may_throw else st.fact(z3.And(i >= 0, i < L))
        return LV(newpath(path, ("e", i)))
    if name in ("back", "top"):
        eng.inb(st, n, L - 1, L, "back")
        return LV(newpath(path, ("e", z3.simplify(L - 1))))
    if name == "front":
        eng.inb(st, n, z3.IntVal(0), L, "front")
        return LV(newpath(path, ("e", z3.IntVal(0))))
    if name in ("pop_back", "pop"):
        eng.inb(st, n, L - 1, L, "pop_back")
        f = dict(v.f); f["len"] = z3.simplify(L - 1)
        if "cnt" in f:
            x = simp_select(v.f["e"], L - 1)
            f["cnt"] = z3.Store(f["cnt"], x, simp_select(f["cnt"], x) - 1)
            r = eng.nameval(st, Agg(v.t, f))
            eng.write(st, path, r)
            for q in type_facts(v.t, r): st.fact(q)
            return None
        eng.write(st, path, Agg(v.t, f)); return None
    if name == "clear":
        z = zero_of(v.t); eng.write(st, path, z); return None
    if name in ("begin", "cbegin"): return Iter(path, z3.IntVal(0))
    if name in ("end", "cend"): return Iter(path, L)
    if name == "data": return Ptr(newpath(path, ("e", z3.IntVal(0))))
    if name in ("reserve", "shrink_to_fit"): return None
    if name == "resize":
        m = eng.ev(st, args[0])
        x = eng.ev(st, args[1]) if len(args) > 1 else zero_of(v.t.e)
        if z3.is_expr(x) and v.t.e.scalar: x = eng.conv(x, v.t.e)
        nv = fresh(v.t, "resized"); f = dict(nv.f); f["len"] = m
        k = z3.Int(fresh_name("rk"))
        ls = list(zip(leaves(f["e"]), leaves(v.f["e"]), leaves(x)))
        for (_, a), (_, b), (_, z) in ls:
            st.fact(forall([k], z3.And(z3.Implies(z3.And(0 <= k, k < L, k < m), z3.Select(a, k) == z3.Select(b, k)),
                                          z3.Implies(z3.And(L <= k, k < m), z3.Select(a, k) == z)), patterns=[z3.Select(a, k)]))
        r = Agg(v.t, f)
        for q in type_facts(v.t, r): st.fact(q)
        st.fact(m >= 0)
        eng.write(st, path, r); return None
    if name == "insert":
        it = eng.ev(st, args[0])
        if len(args) == 3 and it.idx.eq(L):
            a, b = eng.ev(st, args[1]), eng.ev(st, args[2])
            if isinstance(a, Iter):
                src = eng.read(st, a.path)
                i, j = a.idx, b.idx
                nv = fresh(v.t, "inserted"); f = dict(nv.f); f["len"] = z3.simplify(L + (j - i))
                k = z3.Int(fresh_name("ik"))
                for (_, u), (_, w), (_, s_) in zip(leaves(f["e"]), leaves(v.f["e"]), leaves(src.f["e"])):
                    st.fact(forall([k], z3.And(z3.Implies(z3.And(0 <= k, k < L), z3.Select(u, k) == z3.Select(w, k)),
                                                  z3.Implies(z3.And(L <= k, k < f["len"]), z3.Select(u, k) == z3.Select(s_, k - L + i))), patterns=[z3.Select(u, k)]))
                    st.fact(forall([k], z3.Implies(z3.And(0 <= k, k < L), z3.Select(u, k) == z3.Select(w, k)), patterns=[z3.Select(w, k)]))
                st.fact(j >= i)
                r = Agg(v.t, f)
                for q in type_facts(v.t, r): st.fact(q)
                eng.write(st, path, r)
                return Iter(path, L)
        raise Unsupported("vector insert form")
    if name == "erase":
        a = eng.ev(st, args[0])
        b = eng.ev(st, args[1]) if len(args) > 1 else None
        if isinstance(a, Iter) and a.kind == "removed" and b is not None and b.idx.eq(L):
            # erase(remove(begin,end,x), end)
            x, nl = a.path[2] if len(a.path) > 2 else None, a.idx
            f = dict(v.f); f["len"] = nl
            eng.write(st, path, Agg(v.t, f))
            pend = eng.pending_remove.pop(path_key(path))
            cur = eng.read(st, path); f = dict(cur.f); f["cnt"] = pend
            r = eng.nameval(st, Agg(v.t, f))
            eng.write(st, path, r)
            for q in type_facts(v.t, r): st.fact(q)
            return Iter(path, nl)
        if isinstance(a, Iter) and b is None:
            # erase one element
            nv = fresh(v.t, "erased"); f = dict(nv.f); f["len"] = z3.simplify(L - 1)
            eng.inb(st, n, a.idx, L, "erase")
            k = z3.Int(fresh_name("ek"))
            for (_, u), (_, w) in zip(leaves(f["e"]), leaves(v.f["e"])):
                st.fact(forall([k], z3.Implies(z3.And(0 <= k, k < L - 1), z3.Select(u, k) == z3.If(k < a.idx, z3.Select(w, k), z3.Select(w, k + 1))), patterns=[z3.Select(u, k)]))
            if "cnt" in f:
                x = simp_select(v.f["e"], a.idx)
                f["cnt"] = z3.Store(v.f["cnt"], x, simp_select(v.f["cnt"], x) - 1)
            r = Agg(v.t, f)
            for q in type_facts(v.t, r): st.fact(q)
            eng.write(st, path, r)
            return Iter(path, a.idx)
        raise Unsupported("vector erase form")
    if name == "swap":
        p2 = eng.lv(st, eng.eval(st, args[0])); w = eng.read(st, p2)
        eng.write(st, path, w); eng.write(st, p2, v); return None
    if name == "assign":
        a, b = eng.ev(st, args[0]), eng.ev(st, args[1])
        if z3.is_expr(a):
            eng.write(st, path, vec_fill(v.t, a, eng.conv(b, v.t.e) if v.t.e.scalar else b)); return None
        eng.write(st, path, vec_from_range(eng, st, n, v.t, a, b)); return None
    raise Unsupported("vector method " + name)

def path_key(p):
    return (p[0], tuple(tuple(str(x) for x in s) for s in p[1]))

def m_mat(eng, st, n, name, path, v, args):
    if name == "rows": return v.f["rows"]
    if name == "cols": return v.f["cols"]
    if name == "size": return v.f["rows"] if v.t.vector or z3.is_int_value(v.f["cols"]) and v.f["cols"].as_long() == 1 else v.f["rows"] * v.f["cols"]
    if name in ("operator()", "coeff", "coeffRef", "operator[]"):
        return mat_coeff(eng, st, n, path, v, [eng.ev(st, a) for a in args])
    if name == "resize" or name == "conservativeResize":
        vs = [eng.ev(st, a) for a in args]
        nv = fresh(v.t, "mres"); f = dict(nv.f)
        f["rows"] = vs[0]; f["cols"] = vs[1] if len(vs) > 1 else z3.IntVal(1)
        eng.write(st, path, Agg(v.t, f)); return None
    raise Unsupported("Eigen method " + name)

def mat_coeff(eng, st, n, path, v, idx):
    if len(idx) == 1:
        eng.inb(st, n, idx[0], v.f["rows"], "vector coefficient")
        return LV(newpath(path, ("m", idx[0], z3.IntVal(0))))
    eng.inb(st, n, idx[0], v.f["rows"], "matrix row")
    eng.inb(st, n, idx[1], v.f["cols"], "matrix column")
    return LV(newpath(path, ("m", idx[0], idx[1])))

def key_of(eng, x, t):
    return eng.conv(x, t.k) if t.k.scalar and z3.is_expr(x) else x

def m_map(eng, st, n, name, path, v, args):
    t = v.t
    if name in ("insert", "emplace"):
        if len(args) == 1:
            p = eng.ev(st, args[0])
            if not (isinstance(p, Agg) and len(p.f) == 2): raise Unsupported("map insert form")
            k, x = list(p.f.values())
        else:
            k, x = eng.ev(st, args[0]), eng.ev(st, args[1])
        k = key_of(eng, k, t)
        if z3.is_expr(x) and t.v.scalar: x = eng.conv(x, t.v)
        has = simp_select(v.f["has"], k)
        f = dict(v.f)
        old = vmap(lambda a: simp_select(a, k), v.f["val"])
        nx = vite(has, old, x) if not (z3.is_false(has)) else x
        f["val"] = vmap(lambda a, b: z3.Store(a, k, b), v.f["val"], nx)
        f["size"] = z3.If(has, v.f["size"], v.f["size"] + 1)
        f["has"] = z3.Store(v.f["has"], k, z3.BoolVal(True))
        eng.write(st, path, Agg(t, f))
        return Agg(TRec("insres", {"first": TIter(t), "second": BOOL}), {"first": Iter(newpath(path, ("k", k)), k, "mapelem"), "second": z3.Not(has)})
    if name == "at":
        k = key_of(eng, eng.ev(st, args[0]), t)
        h = simp_select(v.f["has"], k)
        if eng.cur.may_throw: st.fact(h)
        else: eng.oblige(st, h, "map key present", n)
        return LV(newpath(path, ("k", k)))
    if name == "operator[]":
        return map_index(eng, st, path, v, key_of(eng, eng.ev(st, args[0]), t))
    if name == "size": return v.f["size"]
    if name == "empty": return v.f["size"] == 0
    if name == "count":
        k = key_of(eng, eng.ev(st, args[0]), t)
        return z3.If(simp_select(v.f["has"], k), z3.IntVal(1), z3.IntVal(0))
    if name == "contains": return simp_select(v.f["has"], key_of(eng, eng.ev(st, args[0]), t))
    if name == "find":
        k = key_of(eng, eng.ev(st, args[0]), t)
        return Iter(path, k, "mapfind")
    if name == "end": return Iter(path, z3.IntVal(0), "mapend")
    if name == "begin": return Iter(path, z3.IntVal(0), "mapbegin")
    if name == "clear":
        eng.write(st, path, zero_of(t)); return None
    raise Unsupported("map method " + name)

def map_index(eng, st, path, v, k):
    h = simp_select(v.f["has"], k)
    if not z3.is_true(h):
        f = dict(v.f)
        old = vmap(lambda a: simp_select(a, k), v.f["val"])
        z = zero_of(v.t.v)
        f["val"] = vmap(lambda a, b: z3.Store(a, k, b), v.f["val"], vite(h, old, z))
        f["has"] = z3.Store(v.f["has"], k, z3.BoolVal(True))
        f["size"] = z3.If(h, v.f["size"], v.f["size"] + 1)
        eng.write(st, path, Agg(v.t, f))
    return LV(newpath(path, ("k", k)))

def m_json(eng, st, n, name, path, v, args):
    if name in ("emplace_back", "push_back"):
        x = jm.of(eng.ev(st, args[0]))
        eng.write(st, path, jm.jpush(z3.If(v == jm.jnull, jm.jarr0, v) if not v.eq(jm.jarr0) and v.eq(jm.jnull) else v, x)); return None
    if name in ("emplace",):
        if len(args) == 2:
            k, x = eng.ev(st, args[0]), eng.ev(st, args[1])
        else:
            p = eng.ev(st, args[0]); k, x = list(p.f.values())
        x = jm.of(x)
        h = jm.jhas(v, k)
        eng.write(st, path, z3.If(h, v, jm.jset(v, k, x))); return None
    if name in ("at", "operator[]"):
        k = eng.ev(st, args[0])
        if k.sort() == Int: return LV(newpath(path, ("ja", k)))
        return LV(newpath(path, ("jk", k)))
    if name == "size": return jm.jlen(v)
    if name == "get_to":
        p = eng.lv(st, eng.eval(st, args[0]))
        cur = eng.read(st, p)
        x = {Int: jm.as_int, Real: jm.as_real, Bool: jm.as_bool, StrS: jm.as_str}[cur.sort()](v)
        eng.write(st, p, x); return LV(p)
    if name.startswith("operator ") or name == "get":
        t = eng.types.of(n)
        if isinstance(t, TRef): t = t.e
        return jm.op("as", v, t)
    if name == "contains": return jm.jhas(v, eng.ev(st, args[0]))
    if name == "clear":
        eng.write(st, path, z3.If(z3.Const("jk", JsonS) == v, v, v)); raise Unsupported("json clear")
    raise Unsupported("json method " + name)

def operator(eng, st, n, name, a0, args):
    v = eng.rv(st, a0)
    if isinstance(v, Iter): return op_iter(eng, st, n, name, a0, v, args)
    if isinstance(v, Ptr): raise Unsupported("operator on pointer")
    if isinstance(v, Agg):
        t = v.t
        path = eng.lv(st, a0)
        if isinstance(t, TVec):
            if name == "operator[]": return m_vec(eng, st, n, "operator[]", path, v, args)
            if name == "operator=":
                x = eng.ev(st, args[0])
                if isinstance(x, Agg) and isinstance(x.t, TVec):
                    eng.write(st, path, Agg(t, x.f)); return LV(path)
            if name == "operator==":
                x = eng.ev(st, args[0]); return vec_eq(eng, st, v, x)
            if name == "operator!=":
                x = eng.ev(st, args[0]); return z3.Not(vec_eq(eng, st, v, x))
        if isinstance(t, TMat):
            if name in ("operator()", "operator[]"): return mat_coeff(eng, st, n, path, v, [eng.ev(st, a) for a in args])
            if name == "operator=":
                x = eng.ev(st, args[0])
                if isinstance(x, Agg): eng.write(st, path, Agg(t, x.f)); return LV(path)
        if isinstance(t, TUptr):
            if name == "operator->": return Ptr(sub(path, "v"))
            if name == "operator*": return LV(sub(path, "v"))
            if name == "operator=":
                x = eng.ev(st, args[0])
                if isinstance(x, Agg): eng.write(st, path, x); return LV(path)
                if isinstance(x, Ptr) and x.path is None: eng.write(st, path, zero_of(t)); return LV(path)
            if name in ("operator==", "operator!="):
                x = eng.ev(st, args[0])
                if isinstance(x, Ptr) and x.path is None:
                    return v.f["null"] if name == "operator==" else z3.Not(v.f["null"])
        if isinstance(t, TMap):
            if name == "operator[]": return map_index(eng, st, path, v, key_of(eng, eng.ev(st, args[0]), t))
            if name == "operator=":
                eng.write(st, path, eng.ev(st, args[0])); return LV(path)
        if isinstance(t, TRec) and name == "operator=":
            x = eng.ev(st, args[0]); eng.write(st, path, x if x.t == t else Agg(t, dict(zip(t.fields, x.f.values())))); return LV(path)
    if z3.is_expr(v):
        if v.sort() == JsonS:
            path = eng.lv(st, a0)
            if name == "operator[]":
                k = eng.ev(st, args[0])
                return LV(newpath(path, ("ja", k) if k.sort() == Int else ("jk", k)))
            if name == "operator=":
                eng.write(st, path, jm.of(eng.ev(st, args[0]))); return LV(path)
        if v.sort() == StrS:
            if name == "operator+":
                return jm.concat(v, eng.ev(st, args[0]))
            if name == "operator=":
                path = eng.lv(st, a0); eng.write(st, path, eng.ev(st, args[0])); return LV(path)
        if str(v.sort()).startswith("Op_"):
            if name in ("operator=",):
                path = eng.lv(st, a0); x = eng.ev(st, args[0])
                eng.write(st, path, x if z3.is_expr(x) and x.sort() == v.sort() else z3.Const(fresh_name("opq"), v.sort())); return LV(path)
            if name == "operator()":
                return opaque_call(eng, st, n, v, a0, args)
    if isinstance(v, Func) and name == "operator=":
        path = eng.lv(st, a0); eng.write(st, path, eng.ev(st, args[0])); return LV(path)
    raise Unsupported("operator %s on %r" % (name, getattr(v, "t", v)))

def dist_param(v, i): return z3.Function("%s.param%d" % (v.sort().name(), i), v.sort(), Real)(v)
# the largest finite double: a positive number; contracts state where values are within it
DBL_MAX = z3.Real("DBL_MAX")
def is_draw(kind, x, *params):
    """x is a draw from the named distribution with these parameters (uninterpreted: the library's generators are trusted)"""
    return z3.Function("is_draw_from_" + kind, *([Real] * (1 + len(params)) + [Bool]))(x, *params)
KINDS = (("gamma_distribution", 2), ("normal_distribution", 2))
def opaque_call(eng, st, n, v, a0, args):
    for a in args:
        p = eng.eval(st, a)
        if isinstance(p, LV):
            cur = eng.read(st, p.path)
            if z3.is_expr(cur) and str(cur.sort()).startswith("Op_"):
                eng.write(st, p.path, z3.Const(fresh_name("rng"), cur.sort()))
    t = eng.types.of(n)
    eng.assumptions.add("random draws are arbitrary values of their type; std::gamma_distribution and std::normal_distribution draw from the distribution with the parameters they were given")
    r = fresh(t, "draw")
    for kind, np in KINDS:
        if kind in v.sort().name() and r.sort() == Real:
            st.fact(is_draw(kind, r, *[dist_param(v, i) for i in range(np)]))
            if kind == "gamma_distribution": st.fact(r > 0)
    return r

def vec_eq(eng, st, a, b):
    k = z3.Int(fresh_name("vq"))
    cs = []
    for (p, u), (_, w) in zip(leaves(a.f["e"]), leaves(b.f["e"])):
        cs.append(forall([k], z3.Implies(z3.And(0 <= k, k < a.f["len"]), z3.Select(u, k) == z3.Select(w, k)), patterns=[z3.Select(u, k), z3.Select(w, k)]))
    return z3.And(a.f["len"] == b.f["len"], *cs)

def op_iter(eng, st, n, name, a0, v, args):
    if v.kind.startswith("map"):
        if name in ("operator==", "operator!="):
            w = eng.ev(st, args[0])
            f = v if v.kind == "mapfind" else w
            if f.kind == "mapfind" and (w.kind == "mapend" or v.kind == "mapend"):
                m = eng.read(st, f.path)
                h = simp_select(m.f["has"], f.idx)
                return z3.Not(h) if name == "operator==" else h
        if name in ("operator->", "operator*") and v.kind == "mapfind":
            m = eng.read(st, v.path)
            val = vmap(lambda a: simp_select(a, v.idx), m.f["val"])
            tmp = eng.alloc(st, "mapelem", Agg(TRec("pair", {"first": m.t.k, "second": m.t.v}), {"first": v.idx, "second": val}))
            return Ptr(tmp) if name == "operator->" else LV(tmp)
        raise Unsupported("map iterator " + name)
    if name in ("operator==", "operator!=", "operator<", "operator<=", "operator>", "operator>="):
        w = eng.ev(st, args[0])
        if not path_eq(v.path, w.path): raise Unsupported("iterators of different containers")
        r = {"==": v.idx == w.idx, "!=": v.idx != w.idx, "<": v.idx < w.idx, "<=": v.idx <= w.idx, ">": v.idx > w.idx, ">=": v.idx >= w.idx}[name[8:]]
        return r
    if name == "operator*": return LV(eng.iterpath(st, v, n))
    if name == "operator->": return Ptr(eng.iterpath(st, v, n))
    if name in ("operator++", "operator--"):
        d = 1 if name == "operator++" else -1
        p = eng.lv(st, a0)
        nv = Iter(v.path, z3.simplify(v.idx + d), v.kind)
        eng.write(st, p, nv)
        return v if args else LV(p)
    if name in ("operator+", "operator-"):
        w = eng.ev(st, args[0])
        if isinstance(w, Iter):
            if not path_eq(v.path, w.path): raise Unsupported("iterator difference")
            return z3.simplify(v.idx - w.idx)
        return Iter(v.path, z3.simplify(v.idx + w if name == "operator+" else v.idx - w), v.kind)
    if name in ("operator+=", "operator-="):
        w = eng.ev(st, args[0]); p = eng.lv(st, a0)
        eng.write(st, p, Iter(v.path, z3.simplify(v.idx + w if name == "operator+=" else v.idx - w), v.kind)); return LV(p)
    if name == "operator=":
        p = eng.lv(st, a0); eng.write(st, p, eng.ev(st, args[0])); return LV(p)
    if name == "operator[]":
        w = eng.ev(st, args[0])
        return LV(eng.iterpath(st, Iter(v.path, v.idx + w, v.kind), n))
    raise Unsupported("iterator " + name)

def real(eng, x):
    return eng.conv(x, REAL)

def call(eng, st, n, rd, args):
    nm = rd.get("name")
    A = [a for a in args if a.get("kind") != "CXXDefaultArgExpr"]
    if nm in ("move", "forward", "as_const", "ref", "cref", "static_pointer_cast") and len(A) == 1: return eng.eval(st, A[0])
    if nm == "isnan": 
        x = eng.ev(st, A[0])
        return F_isnan(x) if eng.nan() else z3.BoolVal(False)
    if nm in ("isinf",): eng.ev(st, A[0]); return z3.BoolVal(False)
    if nm in ("fabs", "abs"):
        x = eng.ev(st, A[0]); return z3.If(x >= 0, x, -x)
    if nm in ("max", "min") and len(A) == 0:
        t = eng.types.of(n)
        if isinstance(t, TRef): t = t.e
        q = rd["type"]["qualType"]
        return numeric_limit(eng, nm, n["type"].get("desugaredQualType") or n["type"]["qualType"])
    if nm in ("lowest", "infinity", "epsilon", "quiet_NaN") and len(A) == 0:
        return numeric_limit(eng, nm, n["type"].get("desugaredQualType") or n["type"]["qualType"])
    if nm in ("max", "min") and len(A) >= 2:
        x, y = eng.ev(st, A[0]), eng.ev(st, A[1])
        if x.sort() != y.sort(): x, y = real(eng, x), real(eng, y)
        return z3.If(x < y, y, x) if nm == "max" else z3.If(y < x, y, x)
    if nm == "pow":
        x, y = real(eng, eng.ev(st, A[0])), real(eng, eng.ev(st, A[1]))
        sy = z3.simplify(y)
        if z3.is_rational_value(sy) and sy.denominator_as_long() == 1 and 0 <= sy.numerator_as_long() <= 4:
            r = z3.RealVal(1)
            for _ in range(sy.numerator_as_long()): r = r * x
            return z3.simplify(r) if z3.is_rational_value(r) else r
        if z3.is_rational_value(sy) and sy.as_fraction() * 2 == 1: return F_sqrt(x)
        return F_pow(x, y)
    if nm in ("log", "exp", "sqrt", "lgamma"):
        return {"log": F_log, "exp": F_exp, "sqrt": F_sqrt, "lgamma": F_lgamma}[nm](real(eng, eng.ev(st, A[0])))
    if nm in ("floor", "ceil"):
        x = real(eng, eng.ev(st, A[0]))
        return z3.ToReal(z3.ToInt(x)) if nm == "floor" else z3.ToReal(-z3.ToInt(-x))
    if nm == "to_string":
        return jm.tostr(eng.ev(st, A[0]))
    if nm == "operator+" : pass
    if nm == "array" and not A: return jm.jarr0
    if nm == "object" and not A: return jm.jobj0
    if nm in ("make_unique", "make_shared"):
        t = eng.types.of(n)
        x = make_obj(eng, st, n, t.e, A)
        return Agg(t, {"null": z3.BoolVal(False), "v": x})
    if nm in ("make_pair", "pair", "make_tuple", "tie"):
        t = eng.types.of(n)
        vs = [eng.ev(st, a) for a in A]
        return Agg(t, {k: (eng.conv(x, ft) if ft.scalar and z3.is_expr(x) else x) for (k, ft), x in zip(t.fields.items(), vs)})
    if nm == "get" and len(A) == 1:
        b = eng.eval(st, A[0]); q = rd["type"]["qualType"]
        raise Unsupported("std::get")
    if nm in ("distance",):
        a, b = eng.ev(st, A[0]), eng.ev(st, A[1])
        return z3.simplify(b.idx - a.idx)
    if nm in ("next", "prev"):
        a = eng.ev(st, A[0]); d = eng.ev(st, A[1]) if len(A) > 1 else z3.IntVal(1)
        return Iter(a.path, z3.simplify(a.idx + (d if nm == "next" else -d)), a.kind)
    if nm in ("begin", "end"):
        p = eng.lv(st, eng.eval(st, A[0])); v = eng.read(st, p)
        return Iter(p, z3.IntVal(0) if nm == "begin" else v.f["len"])
    if nm == "size" and len(A) == 1:
        return eng.ev(st, A[0]).f["len"]
    if nm == "find":
        a, b, x = eng.ev(st, A[0]), eng.ev(st, A[1]), eng.ev(st, A[2])
        v = eng.read(st, a.path)
        if v.t.e.scalar: x = eng.conv(x, v.t.e)
        i = z3.Int(fresh_name("found"))
        k = z3.Int(fresh_name("fk"))
        e = v.f["e"]
        st.fact(z3.And(a.idx <= i, i <= b.idx))
        st.fact(z3.Implies(i < b.idx, z3.Select(e, i) == x))
        st.fact(forall([k], z3.Implies(z3.And(a.idx <= k, k < i), z3.Select(e, k) != x), patterns=[z3.Select(e, k)]))
        if "cnt" in v.f and z3.is_int_value(z3.simplify(a.idx)) and z3.simplify(a.idx).as_long() == 0 and b.idx.eq(v.f["len"]):
            st.fact((i < b.idx) == (simp_select(v.f["cnt"], x) >= 1))
        return Iter(a.path, i)
    if nm == "remove" and len(A) == 3:
        a, b, x = eng.ev(st, A[0]), eng.ev(st, A[1]), eng.ev(st, A[2])
        v = eng.read(st, a.path)
        if not (z3.is_int_value(z3.simplify(a.idx)) and b.idx.eq(v.f["len"]) and "cnt" in v.f): raise Unsupported("std::remove form")
        c = simp_select(v.f["cnt"], x)
        nl = v.f["len"] - c
        ne = z3.Const(fresh_name("removed"), v.f["e"].sort())
        k = z3.Int(fresh_name("mk"))
        # removing something absent leaves the sequence alone
        st.fact(z3.Implies(c == 0, ne == v.f["e"]))
        f = dict(v.f); f["e"] = ne
        f["cnt"] = z3.Const(fresh_name("cnt_unspec"), v.f["cnt"].sort())
        eng.write(st, a.path, Agg(v.t, f))
        if not hasattr(eng, "pending_remove"): eng.pending_remove = {}
        eng.pending_remove[path_key(a.path)] = z3.Store(v.f["cnt"], x, z3.IntVal(0))
        return Iter(a.path, nl, "removed")
    if nm == "fill":
        a, b, x = eng.ev(st, A[0]), eng.ev(st, A[1]), eng.ev(st, A[2])
        v = eng.read(st, a.path); x = eng.conv(x, v.t.e)
        if z3.is_int_value(z3.simplify(a.idx)) and b.idx.eq(v.f["len"]):
            nv = vec_fill(v.t, v.f["len"], x); eng.write(st, a.path, nv); return None
        raise Unsupported("std::fill form")
    if nm == "iota":
        a, b, x = eng.ev(st, A[0]), eng.ev(st, A[1]), eng.ev(st, A[2])
        v = eng.read(st, a.path)
        k = z3.Int(fresh_name("io"))
        ne = z3.Const(fresh_name("iota"), v.f["e"].sort())
        st.fact(forall([k], z3.Select(ne, k) == z3.If(z3.And(a.idx <= k, k < b.idx), x + k - a.idx, z3.Select(v.f["e"], k)), patterns=[z3.Select(ne, k)]))
        f = dict(v.f); f["e"] = ne
        if "cnt" in f:
            nc = z3.Const(fresh_name("iotac"), f["cnt"].sort())
            if z3.is_int_value(z3.simplify(a.idx)) and z3.simplify(a.idx).as_long() == 0 and b.idx.eq(v.f["len"]):
                st.fact(forall([k], z3.Select(nc, k) == z3.If(z3.And(x <= k, k < x + b.idx), z3.IntVal(1), z3.IntVal(0)), patterns=[z3.Select(nc, k)]))
            f["cnt"] = nc
        eng.write(st, a.path, Agg(v.t, f)); return None
    if nm == "accumulate":
        a, b, x = eng.ev(st, A[0]), eng.ev(st, A[1]), eng.ev(st, A[2])
        v = eng.read(st, a.path)
        k = z3.Int("acck")
        e = z3.Select(v.f["e"], k)
        if x.sort() == Int and e.sort() == Real: raise Unsupported("accumulate truncates to int")
        return x + solve.mk_sum(k, real(eng, e) if x.sort() == Real else e, a.idx, b.idx)
    if nm == "swap" and len(A) == 2:
        p, q = eng.lv(st, eng.eval(st, A[0])), eng.lv(st, eng.eval(st, A[1]))
        x, y = eng.read(st, p), eng.read(st, q)
        eng.write(st, p, y); eng.write(st, q, x); return None
    if nm == "stable_partition": return stable_partition(eng, st, n, A)
    if nm == "stable_sort" and len(A) == 3: return stable_sort(eng, st, n, A)
    if nm in ("stable_sort", "sort", "partition"): raise Unsupported("std::" + nm)
    if nm == "copy":
        a, b, d = eng.ev(st, A[0]), eng.ev(st, A[1]), eng.ev(st, A[2])
        src = eng.read(st, a.path); dst = eng.read(st, d.path)
        k = z3.Int(fresh_name("cp"))
        f = dict(dst.f)
        ne = fresh(dst.t.e, "copied", 1)
        for (_, u), (_, w), (_, o) in zip(leaves(ne), leaves(src.f["e"]), leaves(dst.f["e"])):
            st.fact(forall([k], z3.Select(u, k) == z3.If(z3.And(d.idx <= k, k < d.idx + b.idx - a.idx), z3.Select(w, k - d.idx + a.idx), z3.Select(o, k)), patterns=[z3.Select(u, k)]))
        f["e"] = ne
        nv = Agg(dst.t, f)
        if "cnt" in f:
            f["cnt"] = z3.Const(fresh_name("cnt"), f["cnt"].sort())
            for q in type_facts(dst.t, nv): st.fact(q)
        eng.inb(st, n, d.idx + b.idx - a.idx, dst.f["len"] + 1, "copy destination")
        eng.write(st, d.path, nv)
        return Iter(d.path, d.idx + b.idx - a.idx)
    raise Unsupported("call of %s" % nm)

def make_obj(eng, st, n, t, args):
    if isinstance(t, TRec) and getattr(t, "node", None) is not None:
        cands = [c for c in t.node.get("inner", []) if c.get("kind") == "CXXConstructorDecl"]
        cands += [m for c in t.node.get("inner", []) if c.get("kind") == "FunctionTemplateDecl" for m in c.get("inner", []) if m.get("kind") == "CXXConstructorDecl"]
        def ok(c):
            ps = eng.ast.params(c)
            if len(args) > len(ps): return False
            if len(args) < len(ps) and not ps[len(args)].get("inner") and not ps[len(args)].get("init"): return False
            for p, a in zip(ps, args):
                pt, at = eng.types.of(p), eng.types.of(a)
                if isinstance(pt, TRef): pt = pt.e
                if isinstance(at, TRef): at = at.e
                if eng.kt(pt) != eng.kt(at):
                    if not (pt.scalar and at.scalar and eng.kt(pt) in "irb" and eng.kt(at) in "irb"): return False
            return True
        good = [c for c in cands if ok(c)]
        exact = [c for c in good if not c.get("isImplicit")]
        if len(args) == 1 and good:
            at = eng.types.of(args[0])
            if isinstance(at, TRef): at = at.e
            if isinstance(at, TRec) and at.name == t.name:
                c0 = [c for c in good if not c.get("isImplicit") and eng.ast.definition(c["id"]) is not None]
                if not c0: return eng.ev(st, args[0])
        pick = (exact or good)
        if not pick: raise Unsupported("make_unique of " + t.name)
        d = eng.ast.definition(pick[0]["id"])
        path = eng.alloc(st, t.name, eng.uninit(t, t.name))
        if d is None:
            for k in t.finit: eng.write(st, (path[0], (("f", k),)), eng.finit(st, t, k))
            return eng.read(st, path)
        c = eng.bycid.get(d["id"])
        eng.invoke(st, d, path, args, n)
        return eng.read(st, path)
    return construct(eng, st, n, t, args)

def numeric_limit(eng, nm, tstr):
    t = eng.types.parse(tstr)
    if isinstance(t, TRef): t = t.e
    if t.sort == Real:
        mx = z3.Const("DBL_MAX", Real); mn = z3.Const("DBL_MIN", Real)
        if nm == "max": return mx
        if nm == "lowest": return -mx
        if nm == "min": return mn
        if nm == "infinity": return z3.Const("DBL_INF", Real)
        raise Unsupported("numeric limit " + nm)
    s = tstr.replace("const ", "")
    big = {"int": 2**31 - 1, "unsigned int": 2**32 - 1, "long": 2**63 - 1, "unsigned long": 2**64 - 1}.get(s)
    if big is None: big = 2**32 - 1 if t.unsigned else 2**31 - 1
    if nm == "max": return z3.IntVal(big)
    return z3.IntVal(0 if t.unsigned else -big - 1)
solve.BG.append(({"DBL_MAX", "DBL_MIN", "DBL_INF"}, z3.And(z3.Const("DBL_MIN", Real) > 0, z3.Const("DBL_MIN", Real) < 1, z3.Const("DBL_MAX", Real) > 1000000, z3.Const("DBL_INF", Real) > z3.Const("DBL_MAX", Real))))

def symbolic_call(eng, st, fv, args, n, facts):
    """value of a pure function value at symbolic arguments; its own obligations are checked under `facts`"""
    t = st.copy()
    for f in facts: t.fact(f)
    before = {k: v for k, v in t.store.items()}
    r = eng.call_func(t, fv, args, n)
    if not z3.is_expr(r): r = eng.rv(t, r)
    for k, v in before.items():
        if t.store.get(k) is not v: raise Unsupported("predicate with side effects")
    return r

def permuted(eng, st, v, lo, hi, what):
    """(new content, position map, its inverse): v with the elements of [lo, hi) rearranged"""
    if not v.t.e.scalar: raise Unsupported(what + " of non-scalars")
    e = v.f["e"]
    ne = z3.Const(fresh_name(what), e.sort())
    pi, ip = z3.Function(fresh_name("from"), Int, Int), z3.Function(fresh_name("to"), Int, Int)
    q = z3.Int(fresh_name("pq"))
    inr = z3.And(lo <= q, q < hi)
    st.fact(forall([q], z3.Implies(inr, z3.And(lo <= pi(q), pi(q) < hi, z3.Select(ne, q) == z3.Select(e, pi(q)), ip(pi(q)) == q)), patterns=[z3.Select(ne, q)]))
    st.fact(forall([q], z3.Implies(inr, z3.And(lo <= ip(q), ip(q) < hi, z3.Select(ne, ip(q)) == z3.Select(e, q), pi(ip(q)) == q)), patterns=[z3.Select(e, q)]))
    st.fact(forall([q], z3.Implies(z3.Not(inr), z3.Select(ne, q) == z3.Select(e, q)), patterns=[z3.Select(ne, q)]))
    return ne, pi, ip

def stable_partition(eng, st, n, A):
    """rearranges [first, last) so that the elements satisfying the predicate come first, both groups in their old order"""
    a, b, fv = eng.ev(st, A[0]), eng.ev(st, A[1]), eng.ev(st, A[2])
    v = eng.read(st, a.path)
    lo, hi = a.idx, b.idx
    eng.inb(st, n, lo, v.f["len"] + 1, "range begin"); eng.inb(st, n, hi, v.f["len"] + 1, "range end")
    eng.oblige(st, lo <= hi, "range begin before its end", n)
    q = z3.Int(fresh_name("el"))
    x = z3.Select(v.f["e"], q)
    pred = symbolic_call(eng, st, fv, [x], n, [lo <= q, q < hi])
    if occurs_other(pred, q, x): raise Unsupported("predicate depends on the position")
    y = z3.Const(fresh_name("y"), x.sort())
    pred = z3.substitute(pred, (x, y))
    ne, pi, ip = permuted(eng, st, v, lo, hi, "partitioned")
    mid = z3.Int(fresh_name("mid"))
    st.fact(z3.And(lo <= mid, mid <= hi))
    r, r2 = z3.Int(fresh_name("pr")), z3.Int(fresh_name("ps"))
    st.fact(forall([r], z3.Implies(z3.And(lo <= r, r < hi), (r < mid) == z3.substitute(pred, (y, z3.Select(ne, r)))), patterns=[z3.Select(ne, r)]))
    st.fact(forall([r, r2], z3.Implies(z3.And(lo <= r, r < r2, r2 < hi, (r < mid) == (r2 < mid)), z3.And(lo <= pi(r), pi(r) < pi(r2), pi(r2) < hi, z3.Select(ne, r) == z3.Select(v.f["e"], pi(r)), z3.Select(ne, r2) == z3.Select(v.f["e"], pi(r2)))), patterns=[z3.MultiPattern(z3.Select(ne, r), z3.Select(ne, r2))]))
    f = dict(v.f); f["e"] = ne
    eng.write(st, a.path, Agg(v.t, f))
    return Iter(a.path, mid)

def stable_sort(eng, st, n, A):
    """rearranges [first, last) into non-decreasing order of the comparison, equivalent elements in their old order"""
    a, b, fv = eng.ev(st, A[0]), eng.ev(st, A[1]), eng.ev(st, A[2])
    v = eng.read(st, a.path)
    lo, hi = a.idx, b.idx
    eng.inb(st, n, lo, v.f["len"] + 1, "range begin"); eng.inb(st, n, hi, v.f["len"] + 1, "range end")
    q, r = z3.Int(fresh_name("el")), z3.Int(fresh_name("el"))
    x, y = z3.Select(v.f["e"], q), z3.Select(v.f["e"], r)
    less = symbolic_call(eng, st, fv, [x, y], n, [lo <= q, q < hi, lo <= r, r < hi])
    X, Y = z3.Const(fresh_name("x"), x.sort()), z3.Const(fresh_name("y"), x.sort())
    less = z3.substitute(less, (x, X), (y, Y))
    if occurs_any(less, [q, r]): raise Unsupported("comparison depends on the position")
    ne, pi, ip = permuted(eng, st, v, lo, hi, "sorted")
    u, w = z3.Int(fresh_name("su")), z3.Int(fresh_name("sw"))
    eu, ew = z3.Select(ne, u), z3.Select(ne, w)
    lt = lambda s, t: z3.substitute(less, (X, s), (Y, t))
    st.fact(forall([u, w], z3.Implies(z3.And(lo <= u, u < w, w < hi), z3.And(z3.Not(lt(ew, eu)), z3.Or(lt(eu, ew), pi(u) < pi(w)))), patterns=[z3.MultiPattern(eu, ew)]))
    f = dict(v.f); f["e"] = ne
    eng.write(st, a.path, Agg(v.t, f))
    return None

def occurs_any(t, xs):
    seen, todo = set(), [t]
    while todo:
        u = todo.pop()
        if u.get_id() in seen: continue
        seen.add(u.get_id())
        if any(u.eq(x) for x in xs): return True
        if z3.is_quantifier(u): todo.append(u.body())
        else: todo.extend(u.children())
    return False
def occurs_other(t, q, x):
    return occurs_any(z3.substitute(t, (x, z3.Const("hole!pred", x.sort()))), [q])
