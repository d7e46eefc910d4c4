"""Loop rule: the set of modified locations is computed from the body, invariants are derived from the
body's transition (closed forms, range writes, bounds, guards) or offered by the contract, filtered by
a Houdini pass, and the survivors are emitted as obligations (initialisation and preservation)."""
import os, time, z3
from .types import *
from . import types as ty, solve
from .solve import mk_sum, prove, is_num

DEBUG = bool(os.environ.get("VC_DEBUG"))

# ---------------------------------------------------------------- leaves of a store
def st_leaves(st):
    out = {}
    for r, v in st.store.items():
        for p, t in leaves(v): out[(r,) + p] = t
    return out

def set_leaf(v, keys, x):
    if not keys: return x
    if keys == ("@idx",): return Iter(v.path, x, v.kind)
    f = dict(v.f); f[keys[0]] = set_leaf(v.f[keys[0]], keys[1:], x)
    return Agg(v.t, f)

def get_leaf(v, keys):
    for k in keys:
        if k == "@idx": return v.idx
        if not isinstance(v, Agg) or k not in v.f: return None
        v = v.f[k]
    return v

def put(st, leaf, x): st.store[leaf[0]] = set_leaf(st.store[leaf[0]], leaf[1:], x)
def get(st, leaf):
    if leaf[0] not in st.store: return None
    return get_leaf(st.store[leaf[0]], leaf[1:])

def changed_leaves(head, end):
    out = {}
    for r, v in head.store.items():
        if r not in end.store: continue
        diff(v, end.store[r], (r,), out)
    return out

def diff(a, b, pre, out):
    if a is b: return
    if z3.is_expr(a) and z3.is_expr(b):
        if not a.eq(b): out[pre] = "term"
        return
    if isinstance(a, Agg) and isinstance(b, Agg) and set(a.f) == set(b.f):
        for k in a.f: diff(a.f[k], b.f[k], pre + (k,), out)
        return
    if isinstance(a, Iter) and isinstance(b, Iter) and path_eq(a.path, b.path) and a.kind == b.kind:
        if not a.idx.eq(b.idx): out[pre + ("@idx",)] = "term"
        return
    if isinstance(a, Ptr) and isinstance(b, Ptr) and path_eq(a.path, b.path): return
    if isinstance(a, Undef) and isinstance(b, Undef): return
    if isinstance(a, Func) and isinstance(b, Func): return
    out[pre] = "opaque"

def symset(t, memo):
    i = t.get_id()
    if i in memo: return memo[i][1]
    if z3.is_quantifier(t): r = symset(t.body(), memo)
    elif z3.is_app(t):
        if t.num_args() == 0:
            r = frozenset([t.decl().name()]) if t.decl().kind() == z3.Z3_OP_UNINTERPRETED else frozenset()
        else:
            r = frozenset()
            for c in t.children(): r = r | symset(c, memo)
    else: r = frozenset()
    memo[i] = (t, r)      # keep t alive: ids are recycled otherwise
    return r

class Head:
    pass

def type_facts_of(st, mods):
    """facts of the type, for every modified aggregate"""
    roots = {m[0] for m in mods}
    names = set()
    for m in mods:
        t = get(st, m)
        if z3.is_expr(t): names |= symset(t, {})
    memo = {}
    for r in roots:
        v = st.store[r]
        if isinstance(v, Agg) and not isinstance(v.t, TRec) or isinstance(v, Agg) and getattr(v.t, "fields", None) is not None:
            for f in type_facts(v.t, v):
                if symset(f, memo) & names: yield f

def run(eng, st, node, cond, inc, body, pre=None):
    mode = eng.loopmode[-1] if eng.loopmode else "full"
    entry = st
    # ---- 1. modified locations
    mods = find_mods(eng, entry, cond, inc, body, pre)
    eng.nloops += 1
    H = build_head(eng, entry, mods, node, cond)
    if mode == "havoc":
        return finish(eng, entry, H, mods, node, cond, inc, body, pre, [], {}, emit=False)
    # ---- 2. derive candidates from the transition
    eng.quiet += 1; eng.loopmode.append("derive")
    try:
        info = analyse(eng, entry, H, mods, node, cond, inc, body, pre)
    finally:
        eng.quiet -= 1; eng.loopmode.pop()
    cands, closed = info
    if mode == "derive":
        return finish(eng, entry, H, mods, node, cond, inc, body, pre, cands, closed, emit=False)
    # ---- 3. Houdini
    key = (tuple(eng.callstack), node["id"], tuple(eng.loopctx))
    cache = eng.loopcache.get(key)
    if cache is not None:
        cands = [c for c in cands if c[0] in cache]
    else:
        cands = houdini(eng, entry, H, mods, node, cond, inc, body, pre, cands, closed)
        if not eng.quiet or eng.cachequiet: eng.loopcache[key] = {c[0] for c in cands}
    if DEBUG and not eng.quiet:
        print("LOOP %s:%s mods %s" % (node.get("_l", ("", ""))[0], node.get("_l", ("", ""))[1], [".".join(map(str, m)) for m in mods]))
        print("   kept", [c[0] for c in cands])
    # ---- 4. final pass
    return finish(eng, entry, H, mods, node, cond, inc, body, pre, cands, closed, emit=True)

def iterate(eng, s, cond, inc, body, pre):
    """one iteration from head state s -> (list of end states, exit states, other outcomes)"""
    from .engine import Outcome, Dead
    sx = []
    sc = s.copy()
    try:
        if cond is not None:
            c = eng.truth(eng.ev(sc, cond))
        else: c = z3.BoolVal(True)
    except Dead:
        return [], [], []
    sb = sc.copy(); sb.guard(c)
    ends, outs = [], []
    cs = z3.simplify(c)
    if not z3.is_true(cs):
        sx = sc.copy(); sx.guard(z3.Not(c)); sx = [sx]
    if z3.is_false(cs): return [], sx, []
    live = [sb]
    if pre is not None:
        live = [o.st for o in eng.exec(sb, pre)]
    eng.depth += 1
    try:
        for q in live:
            for o in eng.exec(q, body):
                if o.kind in ("normal", "continue"): ends.append(o.st)
                else: outs.append(o)
    finally: eng.depth -= 1
    fin = []
    for e in eng.join(ends):
        if inc is not None:
            try:
                eng.eval(e, inc)
            except Dead: continue
        fin.append(e)
    return fin, sx, outs

def havoc_leaf(leaf, old):
    if z3.is_expr(old): return z3.Const(fresh_name("L_" + str(leaf[-1] if leaf[-1] != "@idx" else leaf[0])), old.sort())
    return UNDEF

def find_mods(eng, entry, cond, inc, body, pre):
    mods = {}
    eng.quiet += 1; eng.loopmode.append("havoc")
    try:
        for _ in range(8):
            h = entry.copy()
            for m, kind in mods.items():
                if kind == "opaque": put(h, m, UNDEF)
                else: put(h, m, havoc_leaf(m, get(entry, m)))
            ends, sx, outs = iterate(eng, h, cond, inc, body, pre)
            new = {}
            for e in ends:
                for m, k in changed_leaves(h, e).items():
                    if m not in mods: new[m] = k
                    elif k == "opaque" and mods[m] != "opaque": new[m] = k
            # condition with side effects
            for e in sx:
                for m, k in changed_leaves(h, e).items():
                    if m not in mods: new[m] = k
            if not new: break
            mods.update(new)
            # an opaque change subsumes its descendants
            for m in [m for m in mods if mods[m] == "opaque"]:
                for q in list(mods):
                    if q != m and q[:len(m)] == m: del mods[q]
        else:
            raise Unsupported("loop modified set does not stabilise")
    finally:
        eng.quiet -= 1; eng.loopmode.pop()
    return mods

def build_head(eng, entry, mods, node, cond):
    H = Head()
    H.st = entry.copy()
    H.sym = {}       # leaf -> head term
    H.x0 = {}        # leaf -> entry term
    for m, k in mods.items():
        old = get(entry, m)
        if k == "opaque" or not z3.is_expr(old):
            put(H.st, m, UNDEF); continue
        H.x0[m] = old
        H.sym[m] = havoc_leaf(m, old)
        put(H.st, m, H.sym[m])
    H.symname = {t.decl().name(): m for m, t in H.sym.items()}
    for f in type_facts_of(H.st, list(H.sym)): H.st.fact(f)
    return H

def lin_delta(end, x):
    """end - x when that is free of x (through if-then-else), else None"""
    if end.eq(x): return z3.RealVal(0) if x.sort() == Real else z3.IntVal(0)
    if z3.is_app(end) and end.decl().kind() == z3.Z3_OP_ITE:
        c = end.arg(0)
        if occurs(c, x): return None
        a, b = lin_delta(end.arg(1), x), lin_delta(end.arg(2), x)
        if a is None or b is None: return None
        return z3.If(c, a, b)
    if z3.is_app(end) and end.decl().kind() == z3.Z3_OP_ADD:
        ch = end.children()
        hit = [c for c in ch if occurs(c, x)]
        if len(hit) == 1:
            d = lin_delta(hit[0], x)
            rest = [c for c in ch if not c.eq(hit[0])]
            if d is None or len(rest) != len(ch) - 1: return None
            if is_num(d) and z3.simplify(d == 0).eq(z3.BoolVal(True)): return rest[0] if len(rest) == 1 else z3.Sum(rest)
            return z3.Sum([d] + rest)
        return None
    if z3.is_app(end) and end.decl().kind() == z3.Z3_OP_SUB and end.num_args() == 2:
        a, b = end.children()
        if occurs(a, x) and not occurs(b, x):
            d = lin_delta(a, x)
            return None if d is None else d - b
        return None
    d = z3.simplify(end - x)
    return d if not occurs(d, x) else None

def occurs(t, x):
    return solve.contains(t, x, {})

def analyse(eng, entry, H, mods, node, cond, inc, body, pre):
    H.births = fresh_count()
    ends, sx, outs = iterate(eng, H.st, cond, inc, body, pre)
    cands, closed = [], {}
    H.iota = None
    memo = {}
    endt = {}
    for m in H.sym:
        ts = [get(e, m) for e in ends]
        if ts and all(z3.is_expr(t) for t in ts) and all(t.eq(ts[0]) for t in ts): endt[m] = eng.unname(ts[0], set(H.symname))
    # counters
    cnt = {}
    for m, x in H.sym.items():
        if m in endt and x.sort() == Int:
            d = z3.simplify(endt[m] - x)
            if z3.is_int_value(d) and d.as_long() != 0: cnt[m] = d.as_long()
    # the condition, evaluated at the head
    condt = None
    if cond is not None:
        sc = H.st.copy()
        try: condt = eng.truth(eng.ev(sc, cond))
        except Exception: condt = None
    csyms = symset(condt, memo) if condt is not None else frozenset()
    prim = None
    ups = [m for m, d in cnt.items() if d == 1]
    for m in ups:
        if H.sym[m].decl().name() in csyms: prim = m; break
    if prim is None and ups:
        real = [m for m in ups if m[-1] not in ("len",)]
        prim = (real or ups)[0]
    if prim is None:
        # ghost iteration counter
        r = fresh_name("ghost_iter")
        H.ghost = r
        H.iota = z3.Int(r); H.i0 = z3.IntVal(0)
        H.st.fact(H.iota >= 0)
        H.prim = None
    else:
        H.ghost = None
        H.iota, H.i0 = H.sym[prim], H.x0[prim]
        H.prim = prim
    it, i0 = H.iota, H.i0
    nit = it - i0
    isyms = {it.decl().name()}
    # closed: head symbol -> term over iota
    sub = []
    for m, d in cnt.items():
        if m == prim: continue
        y = H.sym[m]
        cf = H.x0[m] + (nit if d == 1 else d * nit)
        cf = z3.simplify(cf)
        closed[m] = cf
        sub.append((y, cf))
        cands.append(("counter:" + lname(m), y == cf, True))
    cands.append(("iter>=start", it >= i0, True))
    H.sub = sub
    H.bound = None
    # bound from the condition
    if condt is not None:
        ct = z3.substitute(condt, *sub) if sub else condt
        H.exact = not z3.is_and(ct)      # leaving the loop falsifies this very conjunct
        for c in (ct.children() if z3.is_and(ct) else [ct]):
            b = bound_of(c, it)
            if b is None: continue
            if symset(b, memo) & set(H.symname): continue
            H.bound = b
            cands.append(("bound", it <= b, True))
            sm = z3.simplify(z3.If(b >= i0, b, i0))
            cands.append(("boundmax", it <= z3.If(b >= i0, b, i0), True))
            break
    k = z3.Int(fresh_name("k"))
    todo = {m: z3.substitute(t, *sub) if sub else t for m, t in endt.items() if m != prim and m not in cnt}
    def isclosed(t):
        return not ((symset(t, memo) & set(H.symname)) - isyms)
    def at(t, kk): return z3.substitute(t, (it, kk))
    def closeup(t):
        s2 = [(H.sym[m], c) for m, c in closed.items()]
        t = z3.substitute(t, *s2) if s2 else t
        if H.arrdef and not isclosed(t):
            # reads of an array whose content is known in closed form
            names = {H.sym[m].decl().name(): d for m, d in H.arrdef.items()}
            if set(names) & set(symset(t, memo)):
                old = {n: eng.totaldef.get(n) for n in names}
                eng.totaldef.update(names)
                try: r = z3.simplify(expand_selects(eng, t))
                finally:
                    for n, d in old.items():
                        if d is None: eng.totaldef.pop(n, None)
                        else: eng.totaldef[n] = d
                if isclosed(r): t = r
        return t
    progress = True
    H.arrdef = {}
    while progress:
        progress = False
        for m in list(todo):
            x, x0, t = H.sym[m], H.x0[m], todo[m]
            if z3.is_array(x):
                r = array_def(eng, H, m, x, x0, expand(eng, t), it, i0, k, closeup, isclosed, at, cands)
                if r:
                    del todo[m]; progress = True
                continue
            if x.sort() in (Int, Real):
                d = lin_delta(t, x)
                if d is None: d = lin_delta(z3.simplify(t), x)
                if d is not None:
                    d = closeup(d)
                    if isclosed(d):
                        ds = z3.simplify(d)
                        if it.decl().name() not in symset(ds, memo):
                            n_ = z3.ToReal(nit) if x.sort() == Real else nit
                            cf = x0 + ds * n_
                        else:
                            z = z3.simplify(x0)
                            sm = mk_sum(k, at(d, k), i0, it)
                            cf = sm if is_num(z) and str(z) in ("0", "0.0") else x0 + sm
                        closed[m] = cf
                        cands.append(("accum:" + lname(m), x == cf, True))
                        del todo[m]; progress = True
                        continue
            if x.sort() == Bool or x.sort() in (Int, Real) or x.sort() in (StrS, JsonS):
                pass
    # flags / extrema / last-value
    for m in list(todo):
        x, x0, t = H.sym[m], H.x0[m], todo[m]
        if z3.is_array(x): continue
        scal_cands(eng, H, m, x, x0, t, it, i0, k, closeup, isclosed, at, cands)
    # guards on the normal path hold for all earlier iterations
    if ends:
        n0 = len(H.st.pc)
        gi = 0
        for e in ends[:1] if len(ends) == 1 else []:
            for tg, f in e.pc[n0:]:
                if tg != "g": continue
                f = eng.unname(f, set(H.symname))
                g = closeup(z3.substitute(f, *sub) if sub else f)
                for c in (g.children() if z3.is_and(g) else [g]):
                    if isclosed(c) and it.decl().name() in symset(c, memo) and not z3.is_true(z3.simplify(c)):
                        if condt is not None and c.eq(z3.substitute(condt, *sub) if sub else condt): continue
                        kk = z3.Int(fresh_name("k"))
                        cands.append(("guard%d" % gi, forall([kk], z3.Implies(z3.And(i0 <= kk, kk < it), at(c, kk))), False)); gi += 1
                    elif not (symset(c, memo) & (set(H.symname) | isyms)): pass
    # contract hints
    c = eng.cur
    if c is not None and eng.entry is not None:
        from .engine import Spec
        s = Spec(eng, H.st, eng.entry_this, eng.entry_paths, eng.entry)
        L = LoopView(eng, H, entry, it, i0)
        try:
            for i, f in enumerate(eng.named(c.hints(s, L))):
                cands.append(("hint:%s" % (f[0] if not f[0].startswith("#") else i), f[1], False))
        except Unsupported: pass
        try:
            for nm, f in eng.named(c.requires(s)):
                if symset(f, memo) & set(H.symname): cands.append(("pre:" + nm, f, False))
        except Unsupported: pass
        try:
            for f in c.facts(s, L): H.st.fact(f)
        except Unsupported: pass
    return cands, closed

class LoopView:
    """what contract hints may look at"""
    def __init__(self, eng, H, entry, it, i0):
        self.iota, self.i0, self.H, self.entry, self.eng = it, i0, H, entry, eng
        self.depth = eng.depth          # enclosing loops
        self.locals = {m[0].split("#")[0]: H.st.store[m[0]] for m in H.sym if "#" in m[0]}
        self.ints = [t for m, t in H.sym.items() if len(m) == 1 and t.sort() == Int]
        self.reals = [t for m, t in H.sym.items() if len(m) == 1 and t.sort() == Real]
        self.bools = [t for m, t in H.sym.items() if len(m) == 1 and t.sort() == Bool]
        self.idxs = [t for m, t in H.sym.items() if m[-1] == "@idx"]
        self.changes = lambda root: any(m[0] == root for m in H.sym)
        self.vecs = []
        for r in {m[0] for m in H.sym}:
            v = H.st.store[r]
            if isinstance(v, Agg) and isinstance(v.t, TVec) and r != "this": self.vecs.append((v, entry.store[r]))
        self.aggs = [(H.st.store[r], entry.store[r]) for r in {m[0] for m in H.sym} if isinstance(H.st.store[r], Agg)]
        self.jsons = [(t, H.x0[m]) for m, t in H.sym.items() if t.sort() == JsonS]
        self.entry_of = {t.decl().name(): H.x0[m] for m, t in H.sym.items()}

def lname(m):
    return ".".join(str(p).split("#")[0] for p in m)

def bound_of(c, it):
    """c is it < B / it != B / B > it -> B"""
    neg = False
    if z3.is_not(c):
        neg = True; c = c.arg(0)
    if not z3.is_app(c) or c.num_args() != 2: return None
    a, b = c.children()
    if a.sort() != Int: 
        return None
    k = c.decl().kind()
    if neg:
        k = {z3.Z3_OP_EQ: z3.Z3_OP_DISTINCT, z3.Z3_OP_GE: z3.Z3_OP_LT, z3.Z3_OP_LE: z3.Z3_OP_GT, z3.Z3_OP_LT: z3.Z3_OP_GE, z3.Z3_OP_GT: z3.Z3_OP_LE}.get(k)
    if k == z3.Z3_OP_LT or k == z3.Z3_OP_DISTINCT:
        r = solve_lin(a, it, b)
        if r is None and k == z3.Z3_OP_DISTINCT: r = solve_lin(b, it, a)
        return r
    if k == z3.Z3_OP_GT: return solve_lin(b, it, a)
    if k == z3.Z3_OP_LE:
        r = solve_lin(a, it, b)
        return None if r is None else z3.simplify(r + 1)
    if k == z3.Z3_OP_GE:
        r = solve_lin(b, it, a)
        return None if r is None else z3.simplify(r + 1)
    return None

def solve_lin(e, it, rhs):
    """e = it + d -> rhs - d"""
    if e.eq(it): return rhs if not occurs(rhs, it) else None
    d = z3.simplify(e - it)
    if occurs(d, it) or occurs(rhs, it): return None
    return z3.simplify(rhs - d)

def expand(eng, t): return t

def cell(eng, E, idx, leafsyms):
    """pointwise value of array term E at index terms idx"""
    if not idx: return E
    if z3.is_app(E):
        kd = E.decl().kind()
        if kd == z3.Z3_OP_STORE:
            a, i, v = E.children()
            hit = cell(eng, v, idx[1:], leafsyms)
            miss = cell(eng, a, idx, leafsyms)
            c = (idx[0] == i)
            if len(idx) > 1 and not idx[0].eq(i):      # a row rewritten in place: read the old row at idx[0] (= i here)
                hit = z3.substitute(hit, (cell(eng, a, [i] + idx[1:], leafsyms), miss))
            if z3.is_true(z3.simplify(c)): return hit
            if hit.eq(miss): return hit
            return z3.If(c, hit, miss)
        if kd == z3.Z3_OP_ITE:
            x, y = cell(eng, E.arg(1), idx, leafsyms), cell(eng, E.arg(2), idx, leafsyms)
            return x if x.eq(y) else z3.If(E.arg(0), x, y)
        if kd == z3.Z3_OP_CONST_ARRAY: return cell(eng, E.arg(0), idx[1:], leafsyms)
        if kd == z3.Z3_OP_SELECT and len(E.children()) == 2:
            # row of a matrix
            return cell(eng, E.arg(0), [E.arg(1)] + idx, leafsyms)
        if kd == z3.Z3_OP_UNINTERPRETED and E.num_args() == 0:
            d = eng.totaldef.get(E.decl().name())
            if d is not None and len(d[0]) <= len(idx):
                vs, bodyt = d
                r = z3.substitute(bodyt, *[(v, i) for v, i in zip(vs, idx)])
                if len(d[0]) < len(idx): r = cell(eng, r, idx[len(d[0]):], leafsyms)
                return pushcells(eng, r, leafsyms)
    r = E
    for i in idx: r = z3.Select(r, i)
    return r

def pushcells(eng, t, leafsyms, memo=None):
    """re-expand selects inside a substituted definition body"""
    return t

def dims(s):
    d = 0
    while isinstance(s, z3.ArraySortRef):
        d += 1; s = s.range()
    return d, s

def array_def(eng, H, m, x, x0, t, it, i0, k, closeup, isclosed, at, cands):
    if x.sort().domain() != Int: return False
    d, base = dims(x.sort())
    js = [z3.Int(fresh_name("j")) for _ in range(d)]
    P = cell(eng, t, js, None)
    cur = x
    for j in js: cur = z3.Select(cur, j)
    cur0 = cell(eng, x0, js, None)
    # remove reads of earlier versions: expand nested selects of totaldefs inside P
    P = expand_selects(eng, P)
    hole = z3.Const(fresh_name("hole"), base)
    Ph = z3.substitute(P, (cur, hole))
    if occurs(Ph, x): Ph = own_cell(Ph, x, js, hole)
    if occurs(Ph, x):
        # reads of the array at other positions
        return array_writes(eng, H, m, x, x0, t, it, i0, k, closeup, isclosed, at, cands)
    Ph = closeup(Ph)
    if not isclosed(Ph): return array_writes(eng, H, m, x, x0, t, it, i0, k, closeup, isclosed, at, cands)
    if born(H, Ph): return False
    # unchanged condition and solved index
    W = written(Ph, hole)
    sol = None
    if W is not None:
        sols = []
        for cse in W:
            s_ = None
            for c in conjuncts(cse):
                if z3.is_eq(c) and c.arg(0).sort() == Int:
                    for j in js:
                        for a, b in ((c.arg(0), c.arg(1)), (c.arg(1), c.arg(0))):
                            if a.eq(j):
                                e = solve_for(b, it, j)
                                if e is not None: s_ = e
                    if s_ is None:
                        pass
            sols.append(s_)
        if sols and all(s_ is not None for s_ in sols) and all(s_.eq(sols[0]) for s_ in sols): sol = sols[0]
    if sol is not None:
        v = z3.substitute(at(Ph, sol), (hole, cur0))
        inr = z3.And(i0 <= sol, sol < it)
        body = z3.If(inr, v, cur0)
        body = z3.simplify(body, elim_ite=False) if False else body
    else:
        dl = lin_delta(Ph, hole) if base in (Int, Real) else None
        if dl is None: return array_writes(eng, H, m, x, x0, t, it, i0, k, closeup, isclosed, at, cands)
        body = cur0 + mk_sum(k, at(dl, k), i0, it)
        if is_num(cur0) and str(cur0) in ("0", "0.0"): body = mk_sum(k, at(dl, k), i0, it)
    H.arrdef[m] = (js, body)
    cands.append(("array:" + lname(m), forall(js, cur == body, patterns=[cur]), True))
    return True

def born(H, t):
    """t mentions a value that exists only within one iteration (the unspecified result of a call, say)"""
    for n in symset(t, {}):
        n, _, k = n.rpartition("!")
        if k.isdigit() and int(k) > H.births and not n.startswith(("k", "j", "hole")): return True
    return False

def own_cell(Ph, x, js, hole):
    """reads of the very cell being written are reads of the old value of this cell"""
    Ph = z3.simplify(Ph)
    W = written(Ph, hole)
    if not W: return Ph
    idx = []
    for j in js:
        es = []
        for cse in W:
            e = next((b for c in conjuncts(cse) if z3.is_eq(c) for a, b in ((c.arg(0), c.arg(1)), (c.arg(1), c.arg(0))) if a.eq(j)), None)
            es.append(e)
        if any(e is None or not e.eq(es[0]) for e in es): return Ph
        idx.append(es[0])
    r = x
    for e in idx: r = z3.Select(r, e)
    return z3.substitute(Ph, (r, hole))

def expand_selects(eng, t):
    """rewrite Select(S, i..) for S with a total definition, bottom-up, once"""
    memo = {}
    def go(u):
        i = u.get_id()
        if i in memo: return memo[i][1]
        r = u
        if z3.is_app(u) and u.num_args() > 0:
            if u.decl().kind() == z3.Z3_OP_SELECT:
                idx, a = [], u
                while z3.is_app(a) and a.decl().kind() == z3.Z3_OP_SELECT:
                    idx.insert(0, a.arg(1)); a = a.arg(0)
                idx = [go(q) for q in idx]
                full = not z3.is_array(u)
                if full:
                    r = cell(eng, a, idx, None)
                    if not r.eq(u) and not (z3.is_app(r) and r.decl().kind() == z3.Z3_OP_SELECT): r = go(r)
                    memo[i] = (u, r); return r
            ch = [go(c) for c in u.children()]
            if any(not p.eq(q) for p, q in zip(ch, u.children())):
                try: r = u.decl()(*ch)
                except z3.Z3Exception: r = z3.substitute(u, *[(p, q) for p, q in zip(u.children(), ch)])
        memo[i] = (u, r)
        return r
    return go(t)

def conjuncts(c):
    if z3.is_and(c): return [q for x in c.children() for q in conjuncts(x)]
    return [c]

def written(P, hole):
    """list of path conditions under which P is not the hole"""
    out = []
    def go(t, path):
        if t.eq(hole): return
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE and len(path) < 14:
            go(t.arg(1), path + [t.arg(0)]); go(t.arg(2), path + [z3.Not(t.arg(0))]); return
        out.append(z3.And(*path) if path else z3.BoolVal(True))
    go(P, [])
    return out or None

def solve_for(b, it, j):
    """b = it + c -> it = j - c ; b = c - it -> it = c - j"""
    d = z3.simplify(b - it)
    if not occurs(d, it): return z3.simplify(j - d)
    d = z3.simplify(b + it)
    if not occurs(d, it): return z3.simplify(d - j)
    return None

def array_writes(eng, H, m, x, x0, t, it, i0, k, closeup, isclosed, at, cands):
    """range-write candidates for a chain of stores with non-invertible index"""
    ws = []
    def chain(u, g):
        if u.eq(x): return True
        if z3.is_app(u) and u.decl().kind() == z3.Z3_OP_STORE:
            if not chain(u.arg(0), g): return False
            ws.append((g, u.arg(1), u.arg(2))); return True
        if z3.is_app(u) and u.decl().kind() == z3.Z3_OP_ITE:
            if u.arg(1).eq(x): return chain(u.arg(2), g + [z3.Not(u.arg(0))])
            if u.arg(2).eq(x): return chain(u.arg(1), g + [u.arg(0)])
        return False
    if not chain(t, []): return False
    if len(ws) != 1: return False
    g, e, v = ws[0]
    g = closeup(z3.And(*g)) if g else z3.BoolVal(True)
    e, v = closeup(e), v
    if z3.is_array(v): return row_writes(x, x0, g, e, ws[0][2], it, i0, closeup, isclosed, at, cands, m)
    cur = z3.Select(x, e)
    v = closeup(v)
    v = z3.substitute(v, (z3.Select(x, e), z3.Select(x0, e)))
    if not (isclosed(g) and isclosed(e) and isclosed(v)): return False
    kk = z3.Int(fresh_name("k")); j = z3.Int(fresh_name("j"))
    rng = z3.And(i0 <= kk, kk < it)
    cands.append(("writes:" + lname(m), forall([kk], z3.Implies(z3.And(rng, at(g, kk)), z3.Select(x, at(e, kk)) == at(v, kk))), False))
    kk2 = z3.Int(fresh_name("k"))
    cands.append(("wframe:" + lname(m), forall([j], z3.Or(z3.Select(x, j) == z3.Select(x0, j), z3.Exists([kk2], z3.And(i0 <= kk2, kk2 < it, at(g, kk2), at(e, kk2) == j))), patterns=[z3.Select(x, j)]), False))
    return True

def row_writes(x, x0, g, r, v, it, i0, closeup, isclosed, at, cands, m):
    """the same for writes into one fixed row of an array of arrays"""
    if not (z3.is_app(v) and v.decl().kind() == z3.Z3_OP_STORE and v.arg(0).eq(z3.Select(x, r))): return False
    if occurs(r, it) or occurs(r, x): return False
    e, w = closeup(v.arg(1)), closeup(v.arg(2))
    if z3.is_array(w) or occurs(w, x) or not (isclosed(g) and isclosed(e) and isclosed(w)): return False
    kk, kk2, j, q = [z3.Int(fresh_name(a)) for a in ("k", "k", "j", "q")]
    cands.append(("writes:" + lname(m), forall([kk], z3.Implies(z3.And(i0 <= kk, kk < it, at(g, kk)), z3.Select(z3.Select(x, r), at(e, kk)) == at(w, kk))), False))
    cell = z3.Select(z3.Select(x, j), q)
    cands.append(("wframe:" + lname(m), forall([j, q], z3.Or(cell == z3.Select(z3.Select(x0, j), q), z3.And(j == r, z3.Exists([kk2], z3.And(i0 <= kk2, kk2 < it, at(g, kk2), at(e, kk2) == q)))), patterns=[cell]), False))
    return True

def scal_cands(eng, H, m, x, x0, t, it, i0, k, closeup, isclosed, at, cands):
    t = closeup(t)
    kk = z3.Int(fresh_name("k"))
    rng = z3.And(i0 <= kk, kk < it)
    nm = lname(m)
    # cases of the if-tree
    cases = []
    def go(u, path):
        if z3.is_app(u) and u.decl().kind() == z3.Z3_OP_ITE and len(path) < 6:
            go(u.arg(1), path + [u.arg(0)]); go(u.arg(2), path + [z3.Not(u.arg(0))]); return
        cases.append((z3.And(*path) if len(path) > 1 else (path[0] if path else z3.BoolVal(True)), u))
    if x.sort() == Bool and z3.is_app(t) and (z3.is_or(t) or z3.is_and(t)) and any(c.eq(x) for c in t.children()):
        rest = [c for c in t.children() if not c.eq(x)]
        if z3.is_or(t): t = z3.If(z3.Or(*rest), z3.BoolVal(True), x)
        else: t = z3.If(z3.And(*rest), x, z3.BoolVal(False))
    go(t, [])
    upd = [(c, v) for c, v in cases if not v.eq(x)]
    if not upd: return
    if all(isclosed(c) and isclosed(v) for c, v in upd):
        # value written does not depend on the variable itself
        consts = {v.sexpr() for c, v in upd}
        if len(consts) == 1 and (it.decl().name() not in symset(upd[0][1], {})):
            v = upd[0][1]
            g = z3.Or(*[c for c, _ in upd]) if len(upd) > 1 else upd[0][0]
            cands.append(("flag:" + nm, forall([kk], z3.Implies(z3.And(rng, at(g, kk)), x == v)), False))
            cands.append(("flagwhy:" + nm, z3.Or(x == x0, z3.And(x == v, z3.Exists([kk], z3.And(rng, at(g, kk))))), False))
            return
        ex = [z3.Exists([kk], z3.And(rng, at(c, kk), x == at(v, kk))) for c, v in upd]
        cands.append(("from:" + nm, z3.Or(x == x0, *ex), False))
        if len(upd) == len(cases):
            # always overwritten: last value
            w = None
            cands.append(("last:" + nm, z3.Implies(it > i0, x == at(t, it - 1)), False))
        return
    if x.sort() in (Int, Real):
        vals = []
        for c, v in upd:
            if isclosed(v) and all(not v.eq(w) for w in vals): vals.append(v)
        if not vals: return
        if len(upd) == len(cases) and not any(occurs(v, x) for v in vals): return
        # guards of the update that do not depend on the variable, and the direction of the comparison with it
        guards, dirs = [], set()
        for c, v in upd:
            cj = [q for q in conjuncts_n(c)]
            g = [q for q in cj if not occurs(q, x) and isclosed(q)]
            guards.append(z3.And(*g) if len(g) > 1 else (g[0] if g else z3.BoolVal(True)))
            d = {direction(q, x, v) for q in cj} - {None}
            dirs.add(d.pop() if len(d) == 1 else 0)
        up, down = 1 in dirs or 0 in dirs, -1 in dirs or 0 in dirs
        if up: cands.append(("max0:" + nm, x >= x0, False))
        if down: cands.append(("min0:" + nm, x <= x0, False))
        for i, v in enumerate(vals):
            g = next(gg for gg, (c, w) in zip(guards, upd) if w.eq(v))
            if up: cands.append(("max%d:%s" % (i + 1, nm), forall([kk], z3.Implies(z3.And(rng, at(g, kk)), x >= at(v, kk))), False))
            if down: cands.append(("min%d:%s" % (i + 1, nm), forall([kk], z3.Implies(z3.And(rng, at(g, kk)), x <= at(v, kk))), False))
        cands.append(("from:" + nm, z3.Or(x == x0, *[z3.Exists([kk], z3.And(rng, at(g, kk), x == at(v, kk))) for g, (c, v) in zip(guards, upd) if isclosed(v)]), False))

def conjuncts_n(c):
    """conjuncts, with negated disjunctions split"""
    if z3.is_and(c): return [q for x in c.children() for q in conjuncts_n(x)]
    if z3.is_not(c) and z3.is_or(c.arg(0)): return [q for x in c.arg(0).children() for q in conjuncts_n(z3.Not(x))]
    return [c]
def direction(q, x, v):
    """1: the guard says the new value is above the variable, -1: below"""
    neg = False
    while z3.is_not(q): q, neg = q.arg(0), not neg
    if not (z3.is_lt(q) or z3.is_le(q) or z3.is_gt(q) or z3.is_ge(q)): return None
    a, b = q.arg(0), q.arg(1)
    d = 1 if (z3.is_lt(q) or z3.is_le(q)) else -1
    if neg: d = -d
    if a.eq(x) and b.eq(v): return d
    if a.eq(v) and b.eq(x): return -d
    return None

# ---------------------------------------------------------------- Houdini and final pass
def start_state(H, cands, closed):
    """head state with candidates assumed; counters replaced by their closed forms"""
    s = H.st.copy()
    names = {c[0] for c in cands}
    for m, cf in closed.items():
        if "counter:" + lname(m) in names: put(s, m, cf)
    for nm, f, _ in cands:
        s.fact(f)
    return s

def subst_entry(H, f):
    s = [(H.sym[m], H.x0[m]) for m in H.sym]
    if H.ghost: s.append((H.iota, z3.IntVal(0)))
    return z3.substitute(f, *s)

def subst_end(H, e, f):
    s = []
    for m in H.sym:
        t = get(e, m)
        if t is None or not z3.is_expr(t): 
            if occurs(f, H.sym[m]): return None
            continue
        s.append((H.sym[m], t))
    if H.ghost: s.append((H.iota, H.iota + 1))
    return z3.substitute(f, *s)

def houdini(eng, entry, H, mods, node, cond, inc, body, pre, cands, closed):
    from .engine import Dead
    # initialisation filter first
    eh = entry.hyps()
    keep = []
    for c in cands:
        g = subst_entry(H, c[1])
        if prove(eh, g, eng.hrl, effort=0): keep.append(c)
        elif DEBUG: print("   init-drop", c[0], node.get("_l"))
    cands = keep
    rounds = 0
    while True:
        rounds += 1
        n0 = len(cands)
        eng.quiet += 1; eng.loopmode.append("full")
        eng.loopctx.append((node["id"], tuple(c[0] for c in cands)))
        eng.cachequiet += 1
        try:
            s = start_state(H, cands, closed)
            ends, sx, outs = iterate(eng, s, cond, inc, body, pre)
        finally:
            eng.quiet -= 1; eng.loopmode.pop(); eng.loopctx.pop(); eng.cachequiet -= 1
        while True:
            drop = []
            for c in cands:
                for e in ends:
                    g = subst_end(H, e, c[1])
                    if DEBUG: t0 = time.time()
                    r = g is not None and prove(e.hyps(), g, eng.hrl if not c[0].startswith("flag") else eng.hrl // 4, effort=0)
                    if DEBUG and time.time() - t0 > 2: print("   slow %.1f %s %s" % (time.time() - t0, c[0], r), node.get("_l"))
                    if DEBUG and not r and os.environ.get("VC_DUMP") == c[0] and g is not None:
                        sv = z3.Solver()
                        for i_, h_ in enumerate(e.hyps()): sv.add(h_)
                        sv.add(z3.Not(g)); open("/tmp/dump.smt2", "w").write(sv.to_smt2())
                    if not r:
                        drop.append(c); break
            if not drop: break
            if DEBUG: print("   pres-drop", [c[0] for c in drop], node.get("_l"))
            ids = {id(d) for d in drop}
            fids = {d[1].get_id() for d in drop}
            cands = [c for c in cands if id(c) not in ids]
            for e in ends: e.pc = [(t, f) for t, f in e.pc if not (t == "f" and f.get_id() in fids)]
        if len(cands) == n0 or rounds > 5 or not has_inner_loop(body): break
    return cands

def has_inner_loop(n):
    if not isinstance(n, dict): return False
    if n.get("kind") in ("ForStmt", "WhileStmt", "DoStmt", "CXXForRangeStmt"): return True
    if n.get("kind") in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr"): return True
    return any(has_inner_loop(c) for c in n.get("inner", []))

def finish(eng, entry, H, mods, node, cond, inc, body, pre, cands, closed, emit):
    from .engine import Outcome, Obligation
    line = node.get("_l", (None, None))
    if emit and not eng.quiet:
        for nm, f, _ in cands:
            g = subst_entry(H, f)
            eng.obls.append(Obligation("loop invariant holds initially: " + nm, entry.hyps(), g, line, "inv-init"))
    s = start_state(H, cands, closed) if cands else H.st.copy()
    if emit:
        eng.loopctx.append((node["id"], tuple(c[0] for c in cands)))
    try:
        ends, sx, outs = iterate(eng, s, cond, inc, body, pre)
    finally:
        if emit: eng.loopctx.pop()
    if emit and not eng.quiet:
        for e in ends:
            for nm, f, _ in cands:
                g = subst_end(H, e, f)
                eng.obls.append(Obligation("loop invariant preserved: " + nm, e.hyps(), g if g is not None else z3.BoolVal(False), line, "inv-pres"))
    names = {c[0] for c in cands}
    res = []
    for x in sx:
        if ("bound" in names or "boundmax" in names) and "iter>=start" in names and getattr(H, "exact", False):
            b = H.bound if "bound" in names else z3.simplify(z3.If(H.bound >= H.i0, H.bound, H.i0))
            x.fact(H.iota == b)
            sub = (H.iota, b)
            if H.prim is not None and get(x, H.prim) is not None and get(x, H.prim).eq(H.iota): put(x, H.prim, b)
            for m, cf in closed.items():
                t = get(x, m)
                if t is None or not z3.is_expr(t): continue
                nm = lname(m)
                if "counter:" + nm in names and t.eq(cf): put(x, m, z3.simplify(z3.substitute(cf, sub)))
                elif "accum:" + nm in names and t.eq(H.sym[m]): put(x, m, z3.substitute(cf, sub))
        else:
            b = getattr(H, "iota", None)
        for m, (js, bd) in getattr(H, "arrdef", {}).items():
            if "array:" + lname(m) in names:
                bb = bd if b.eq(H.iota) else z3.substitute(bd, (H.iota, b))
                eng.totaldef[H.sym[m].decl().name()] = (js, bd) if outs else (js, bb)
                if False: eng.totaldef[H.sym[m].decl().name()] = (js, bb)
                if not b.eq(H.iota):
                    cur = H.sym[m]
                    for j in js: cur = z3.Select(cur, j)
                    x.fact(forall(js, cur == bb, patterns=[cur]))
        x.env = dict(entry.env)
        res.append(Outcome("normal", x))
    for o in outs:
        if o.kind == "break":
            o.st.env = dict(entry.env)
            res.append(Outcome("normal", o.st))
        else: res.append(o)
    return res
