"""Discharging obligations: goal splitting, recursive-sum lemmas, z3 (back end 1) and cvc5 (back end 2)."""
import z3, os, time, itertools
from .types import Int, Real, Bool, fresh_name, Unsupported

# ------------------------------------------------------------------ sums
# mk_sum(k, body, lo, hi) is lambda-lifted to F_shape(params, lo, hi): two sums with the
# same summand shape are the same function symbol, so congruence does most of the work.
_shapes = {}      # key -> (decl, sort, placeholders, kvar, body)
_bydecl = {}      # decl name -> same tuple

class Sum:
    __slots__ = ("t", "names", "key", "q", "ng", "sums", "ints", "prods", "ite", "sz")
_sums = {}
_E = frozenset()

def _union(xs):
    xs = [x for x in xs if x]
    if not xs: return _E
    b = max(xs, key=len)
    for x in xs:
        if x is not b and not x <= b: return frozenset().union(*xs)
    return b

def _cat(xs):
    xs = [x for x in xs if x]
    if not xs: return ()
    if len(xs) == 1: return xs[0]
    out, seen = [], set()
    for x in xs:
        for y in x:
            if y.get_id() not in seen: seen.add(y.get_id()); out.append(y)
    return tuple(out)

def summary(t):
    """memoised bottom-up facts about a term"""
    r = _sums.get(t.get_id())
    if r is not None: return r
    stack = [t]
    while stack:
        x = stack[-1]
        i = x.get_id()
        if i in _sums: stack.pop(); continue
        quant = z3.is_quantifier(x)
        if quant: ch = [x.body()]
        elif z3.is_app(x): ch = x.children()
        else: ch = []
        todo = [c for c in ch if c.get_id() not in _sums]
        if todo: stack.extend(todo); continue
        stack.pop()
        cs = [_sums[c.get_id()] for c in ch]
        r = Sum()
        r.t = (x, ch)
        r.q = quant or any(c.q for c in cs)
        r.ng = quant or z3.is_var(x) or any(c.ng for c in cs)
        r.names = _union([c.names for c in cs]); r.key = _union([c.key for c in cs])
        r.prods = (); r.sums = _cat([c.sums for c in cs]); r.ints = _cat([c.ints for c in cs]); r.prods = _cat([c.prods for c in cs])
        r.sz = min(10**9, 1 + sum(c.sz for c in cs))
        best = None
        for c in cs:
            if c.ite is not None and (best is None or c.ite[0] < best[0]): best = c.ite
        r.ite = best
        if not quant and z3.is_app(x):
            d = x.decl(); k = d.kind()
            if k == z3.Z3_OP_UNINTERPRETED:
                nm = d.name()
                n = len(ch)
                if nm not in r.names: r.names = r.names | {nm}
                so = x.sort()
                if (n > 0 or isinstance(so, z3.ArraySortRef) or so.kind() == z3.Z3_UNINTERPRETED_SORT) and nm not in r.key: r.key = r.key | {nm}
                if nm in _bydecl and not r.ng: r.sums = _cat([r.sums, (x,)])
                if n == 0 and so == Int and nm.startswith(("g_", "sk")): r.ints = _cat([r.ints, (x,)])
            elif k == z3.Z3_OP_MUL and not r.ng and x.sort() == Int and sum(1 for c in ch if not z3.is_int_value(c)) > 1: r.prods = _cat([r.prods, (x,)])
            elif k == z3.Z3_OP_ITE and x.sort() != Bool and not cs[0].ng:
                if r.ite is None or cs[0].sz < r.ite[0]: r.ite = (cs[0].sz, ch[0])
        _sums[i] = r
    return _sums[t.get_id()]

def contains(t, k, memo):
    i = t.get_id()
    if i in memo: return memo[i]
    if t.eq(k): r = True
    elif z3.is_quantifier(t): r = contains(t.body(), k, memo)
    elif z3.is_app(t): r = any(contains(c, k, memo) for c in t.children())
    else: r = False
    memo[i] = r
    return r

def has_bound(t, memo=None): return summary(t).ng

def is_num(t):
    return z3.is_int_value(t) or z3.is_rational_value(t) or z3.is_true(t) or z3.is_false(t)

def mk_sum(k, body, lo, hi):
    body = z3.simplify(body, flat=False, som=False, local_ctx=False) if False else body
    memo = {}
    params, subs = [], []
    def walk(t):
        if is_num(t): return
        if not contains(t, k, memo):
            for p in params:
                if p.eq(t): return
            params.append(t)
            return
        if z3.is_app(t):
            for c in t.children(): walk(c)
    walk(body)
    phs = [z3.Const("ph%d_%s" % (i, str(p.sort()).replace(" ", "_")), p.sort()) for i, p in enumerate(params)]
    kk = z3.Int("kk")
    sh = z3.substitute(body, *([(k, kk)] + list(zip(params, phs)))) if True else None
    key = sh.sexpr() + "|" + ",".join(str(p.sort()) for p in params)
    if key not in _shapes:
        d = z3.Function("SUM%d" % len(_shapes), *([p.sort() for p in params] + [Int, Int, body.sort()]))
        _shapes[key] = (d, body.sort(), phs, kk, sh)
        _bydecl[d.name()] = _shapes[key]
    d = _shapes[key][0]
    return d(*(params + [lo, hi]))

def sum_parts(app):
    d, sort, phs, kk, sh = _bydecl[app.decl().name()]
    ch = app.children()
    return ch[:-2], ch[-2], ch[-1], (d, sort, phs, kk, sh)

def summand(app, k):
    ps, lo, hi, (d, sort, phs, kk, sh) = sum_parts(app)
    return z3.substitute(sh, *([(kk, k)] + list(zip(phs, ps))))

def is_sum(t):
    return z3.is_app(t) and t.decl().name() in _bydecl

def sum_lemmas(fs, limit=14):
    apps = list(_cat([summary(f).sums for f in fs]))
    if not apps: return []
    apps.sort(key=lambda a: a.get_id())
    out = []
    if len(apps) > limit: apps = apps[:limit]
    for a in apps:
        ps, lo, hi, info = sum_parts(a)
        zero = z3.RealVal(0) if info[1] == Real else z3.IntVal(0)
        out.append(z3.Implies(hi <= lo, a == zero))
        # positivity of a conditional 0/1 count is a consequence of ext + zero; unfold once at hi
    for a, b in itertools.permutations(apps, 2):
        pa, la, ha, ia = sum_parts(a)
        pb, lb, hb, ib = sum_parts(b)
        if ia[1] != ib[1]: continue
        d = z3.simplify(ha - hb)
        if ia[0].eq(ib[0]):
            eqs = [x == y for x, y in zip(pa, pb) if not x.eq(y)]
            # a over [lo,hb+1) = b over [lo,hb) + body(hb)
            if not (z3.is_int_value(d) and d.as_long() != 1):
                out.append(z3.Implies(z3.And(*(eqs + [la == lb, ha == hb + 1, lb <= hb])), a == b + summand(b, hb)))
        if a.get_id() < b.get_id():
            if ia[0].eq(ib[0]) and all(x.eq(y) for x, y in zip(pa, pb)): continue
            sk = z3.Int(fresh_name("sk"))
            sa, sb = summand(a, sk), summand(b, sk)
            out.append(z3.Implies(z3.And(la == lb, ha == hb), z3.Or(z3.And(la <= sk, sk < ha, sa != sb), a == b)))
    # unfold through the last term when lo<hi is needed but no partner exists
    return out

# ------------------------------------------------------------------ goal splitting
def split_goal(goal, hyps, depth=0):
    """yield (extra hyps, atomic goal)"""
    if z3.is_and(goal):
        for c in goal.children():
            yield from split_goal(c, hyps, depth)
        return
    if z3.is_implies(goal):
        yield from split_goal(goal.arg(1), hyps + [goal.arg(0)], depth)
        return
    if z3.is_quantifier(goal) and goal.is_forall():
        vs = [z3.Const(fresh_name("g_" + goal.var_name(i)), goal.var_sort(i)) for i in range(goal.num_vars())]
        body = z3.substitute_vars(goal.body(), *reversed(vs))
        yield from split_goal(body, hyps, depth)
        return
    if z3.is_not(goal) and z3.is_or(goal.arg(0)):
        for c in goal.arg(0).children():
            yield from split_goal(z3.Not(c), hyps, depth)
        return
    if z3.is_app(goal) and goal.decl().kind() == z3.Z3_OP_ITE and goal.sort() == Bool:
        yield from split_goal(goal.arg(1), hyps + [goal.arg(0)], depth)
        yield from split_goal(goal.arg(2), hyps + [z3.Not(goal.arg(0))], depth)
        return
    if z3.is_eq(goal) and goal.arg(0).sort() == Bool and not (is_num(goal.arg(0)) or is_num(goal.arg(1))):
        yield from split_goal(goal.arg(1), hyps + [goal.arg(0)], depth)
        yield from split_goal(goal.arg(0), hyps + [goal.arg(1)], depth)
        return
    yield hyps, goal

class Stats:
    def __init__(self):
        self.queries = 0; self.time = 0.0; self.z3 = 0; self.cvc5 = 0
STATS = Stats()
TIMEOUT = int(os.environ.get("VC_TIMEOUT", "20000"))
BG = []      # background axioms, added when relevant: (trigger decl names, axiom)

def decls_in(fs): return set().union(*[summary(f).names for f in fs]) if fs else set()

def background(fs):
    names = decls_in(fs)
    out, used = [], set()
    changed = True
    while changed:
        changed = False
        for i, (trig, ax) in enumerate(BG):
            if i not in used and trig & names:
                used.add(i); out.append(ax); changed = True
                names |= decls_in([ax])
    return out

_q1 = {}
def _guarded(h):
    """[(guards, one-variable forall)] at positive positions of h"""
    r = _q1.get(h.get_id())
    if r is None:
        out = []
        def go(t, gs):
            if not summary(t).q: return
            if z3.is_implies(t): go(t.arg(1), gs + [t.arg(0)])
            elif z3.is_and(t):
                for c in t.children(): go(c, gs)
            elif z3.is_quantifier(t) and t.is_forall() and t.num_vars() == 1 and t.var_sort(0) == Int: out.append((gs, t))
        go(h, [])
        r = (h, out)
        _q1[h.get_id()] = r
    return r[1]

def instantiate_at(hyps, consts, depth=2):
    """instantiate single-variable Int foralls of hyps at the given constants"""
    out = []
    for h in hyps:
        if not summary(h).q: continue
        for gs, c in _guarded(h):
            for k in consts:
                b = z3.substitute_vars(c.body(), k)
                f = z3.Implies(z3.And(*gs), b) if gs else b
                out.append(f)
                if depth > 1 and summary(b).q: out += instantiate_at([f], consts, depth - 1)
    return out

def int_consts(fs): return list(_cat([summary(f).ints for f in fs]))

def check_one(hyps, goal, rlimit, mbqi=False, seed=0, lemmas=(), auto=True, timeout=None):
    s = z3.Solver()
    s.set("auto_config", auto)
    s.set("smt.mbqi", mbqi)
    s.set("smt.random_seed", seed)
    s.set("rlimit", rlimit)
    s.set("timeout", timeout or TIMEOUT)
    fs = list(hyps) + [z3.Not(goal)]
    s.add(*fs)
    for l in lemmas: s.add(l)
    t0 = time.time()
    try:
        r = s.check()
    except z3.Z3Exception:
        r = z3.unknown
    STATS.queries += 1
    STATS.time += time.time() - t0
    return r, s

def cone(hyps, goal):
    return hyps

def prove(hyps, goal, rlimit=4000000, effort=2, info=None):
    """True iff hyps |= goal is established by a solver"""
    left = []
    if restated(hyps, goal): return True
    for extra, g in split_goal(goal, []):
        if z3.is_true(g) or z3.is_true(z3.simplify(g)): continue
        left.append((extra, g))
    left = [(x, g) for x, g in left if not plain(hyps + x, g, 60000)]
    if not left: return True
    budget = min(rlimit, 150000)
    if rlimit <= budget:
        for extra, g in left:
            if not quick(hyps + extra, g, budget, info): return note(info, extra, g)
        return True
    while True:
        left = [(x, g) for x, g in left if not quick(hyps + x, g, budget, info)]
        if not left: return True
        if budget <= 150000:
            left = [(x, g) for x, g in left if not plain(hyps + x, g)]
            if not left: return True
        sl = union_slice(hyps, left)
        left = by_cases(sl, left, budget, 5, info)
        if not left: return True
        if budget >= rlimit: break
        budget = min(rlimit, budget * 6)
    for extra, g in left:
        if effort == 0 or not hard(hyps + extra, g, rlimit, effort, info): return note(info, extra, g)
    return True

def plain(hyps, goal, rlimit=1000000):
    """the obligation as generated; tracked assertions keep the preprocessor from rewriting terms under quantifier patterns"""
    s = z3.Solver()
    s.set("rlimit", rlimit)
    s.set("timeout", 4000)
    s.set("mbqi", False)
    s.set("auto_config", False)
    for i, h in enumerate(hyps): s.assert_and_track(h, "h%d" % i)
    s.assert_and_track(z3.Not(goal), "goal")
    if s.check() != z3.unsat: return False
    STATS.z3 += 1
    return True

def restated(hyps, goal):
    """the quantified goal is a hypothesis up to the names of bound variables and patterns"""
    if not (z3.is_quantifier(goal) and goal.is_forall()): return False
    n, b = goal.num_vars(), goal.body()
    todo = list(hyps)
    while todo:
        h = todo.pop()
        if z3.is_and(h): todo.extend(h.children())
        elif z3.is_quantifier(h) and h.is_forall() and h.num_vars() == n and h.body().eq(b) and all(h.var_sort(i) == goal.var_sort(i) for i in range(n)): return True
    return False

def note(info, extra, g):
    if info is not None: info["atom"] = g; info["extra"] = extra
    return False

def union_slice(hyps, left):
    goal = z3.And(*[z3.Implies(z3.And(*x), g) if x else g for x, g in left])
    sls, full = slices(hyps, goal)
    return sls[-1]

def quick(hyps, goal, budget, info=None):
    sls, full = slices(hyps, goal)
    return ladder(sls, full, goal, budget, info)

_conjs = {}

def conj_split(h):
    """top-level conjuncts (through implications)"""
    c = _conjs.get(h.get_id())
    if c is not None: return c[1]
    if z3.is_and(h): out = [q for x in h.children() for q in conj_split(x)]
    elif z3.is_implies(h) and z3.is_and(h.arg(1)): out = [z3.Implies(h.arg(0), q) for q in conj_split(h.arg(1))]
    elif z3.is_not(h) and z3.is_or(h.arg(0)): out = [q for x in h.arg(0).children() for q in conj_split(z3.Not(x))]
    elif z3.is_not(h) and z3.is_not(h.arg(0)): out = conj_split(h.arg(0).arg(0))
    else: out = [h]
    _conjs[h.get_id()] = (h, out)
    return out

def keysyms(t):
    """array constants and uninterpreted function symbols of t; quantified?"""
    r = summary(t)
    return r.key, r.q

def defines(h):
    """nm == term with nm a name introduced for term"""
    if z3.is_eq(h) and z3.is_const(h.arg(0)) and h.arg(0).decl().name().startswith("nm!"): return h.arg(0).decl().name()
    return None

def slices(hyps, goal):
    """increasing relevance slices of the hypotheses"""
    hs, seen = [], set()
    for h in hyps:
        for c in conj_split(h):
            if c.get_id() not in seen:
                seen.add(c.get_id()); hs.append(c)
    defs, rest = {}, []
    for h in hs:
        d = defines(h)
        if d is not None: defs.setdefault(d, []).append(h)
        else: rest.append(h)
    def scal(h):
        return z3.is_array(h.arg(0)) is False
    G = set(keysyms(goal)[0])
    for h in rest:
        r = summary(h)
        if r.ints and not r.q: G |= r.key
    def close(G, extra):
        done = set()
        ch = True
        inc = []
        while ch:
            ch = False
            for d, fs in defs.items():
                if d in done: continue
                if d in G or not z3.is_array(fs[0].arg(0)):
                    done.add(d); inc += fs
                    if d in G:
                        for f in fs:
                            n = keysyms(f)[0] - G
                            if n: G |= n; ch = True
                        ch = True
        return inc
    out = []
    for level in range(3):
        inc = close(G, None)
        sel = []
        for h in rest:
            ns, q = keysyms(h)
            if not q or (ns & G): sel.append(h)
        out.append(inc + sel)
        G2 = set(G)
        for h in sel:
            ns, q = keysyms(h)
            if q: G2 |= ns
        if G2 == G: break
        G = G2
    return out, hs

def hard(hyps, goal, rlimit, effort, info=None):
    sls, full = slices(hyps, goal)
    for sl in [x for x in sls[:2] if len(x) != len(full)] + [full]:
        for auto, seed in ((True, 7), (False, 11)):
            if attempt(sl, goal, rlimit * 2, auto, seed=seed, info=info): return True
    if effort >= 2:
        for sl in [x for x in sls[:2] if len(x) != len(full)] + [full]:
            if limited(lambda: attempt(sl, goal, rlimit * 3, True, mbqi=True, seed=3), 30): return True
            fs, lem = prepare(sl, goal)
            if limited(lambda: cvc5_check(fs + lem, goal), 30):
                STATS.cvc5 += 1
                return True
    return False

def ladder(sls, full, goal, budget, info=None):
    tried = set()
    for sl in sls[:2] + [full]:
        if len(sl) in tried: continue
        tried.add(len(sl))
        for auto in (True, False):
            if attempt(sl, goal, budget, auto, info=info): return True
    return False

# ---- quantifier instantiation by syntactic matching, then a quantifier-free query
def ground_terms(fs, index, seen):
    """index ground selects by array and applications by symbol"""
    stack = list(fs)
    while stack:
        t = stack.pop()
        i = t.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_quantifier(t) or not z3.is_app(t): continue
        ch = t.children()
        if ch and not summary(t).ng:
            d = t.decl()
            if d.kind() == z3.Z3_OP_SELECT: index.setdefault(("s", ch[0].get_id()), []).append(t)
            elif d.kind() == z3.Z3_OP_UNINTERPRETED: index.setdefault(("f", d.name()), []).append(t)
        stack.extend(ch)

def pmatch(p, t, b):
    """match pattern p (with de Bruijn variables) against ground t"""
    if z3.is_var(p):
        i = z3.get_var_index(p)
        if i in b: return b[i].eq(t)
        if p.sort() != t.sort(): return False
        b[i] = t
        return True
    if not summary(p).ng: return p.eq(t)
    if not (z3.is_app(p) and z3.is_app(t)) or p.num_args() != t.num_args() or not p.decl().eq(t.decl()): return False
    return all(pmatch(x, y, b) for x, y in zip(p.children(), t.children()))

def qfree_insts(f, cap=1200, rounds=3):
    """ground formulas implied by the formulas f through matching"""
    out, quants, qseen, done = [], [], set(), set()
    def add(h, gs):
        if not summary(h).q:
            out.append(z3.Implies(z3.And(*gs), h) if gs else h); return
        if z3.is_implies(h) and not summary(h.arg(0)).q: add(h.arg(1), gs + [h.arg(0)])
        elif z3.is_and(h):
            for c in h.children(): add(c, gs)
        elif z3.is_quantifier(h) and h.is_forall(): quants.append((gs, h))
        elif z3.is_quantifier(h) and h.is_exists():
            vs = [z3.Const(fresh_name("g_ex"), h.var_sort(i)) for i in range(h.num_vars())]
            add(z3.substitute_vars(h.body(), *reversed(vs)), gs)
        elif z3.is_not(h) and z3.is_quantifier(h.arg(0)) and h.arg(0).is_forall():
            h = h.arg(0)
            vs = [z3.Const(fresh_name("g_ex"), h.var_sort(i)) for i in range(h.num_vars())]
            add(z3.Not(z3.substitute_vars(h.body(), *reversed(vs))), gs)
        elif z3.is_not(h) and z3.is_implies(h.arg(0)): add(h.arg(0).arg(0), gs); add(z3.Not(h.arg(0).arg(1)), gs)
        elif z3.is_not(h) and z3.is_or(h.arg(0)):
            for c in h.arg(0).children(): add(z3.Not(c), gs)
        elif z3.is_or(h):
            qs = [c for c in h.children() if summary(c).q]
            if len(qs) == 1: add(qs[0], gs + [z3.Not(c) for c in h.children() if not summary(c).q])
    for h in f: add(h, [])
    index, seen = {}, set()
    n = 0
    for r in range(rounds):
        ground_terms(out, index, seen)
        for gs, q in quants: ground_terms(gs, index, seen)
        todo = list(quants)
        n0 = len(out)
        for gs, q in todo:
            for pi in range(q.num_patterns()):
                pat = q.pattern(pi)
                parts = pat.children()
                binds = [dict()]
                for part in parts:
                    nb = []
                    d = part.decl()
                    if d.kind() == z3.Z3_OP_SELECT:
                        a = part.arg(0)
                        cands = index.get(("s", a.get_id()), []) if not summary(a).ng else [t for k, ts in index.items() if k[0] == "s" for t in ts]
                    else: cands = index.get(("f", d.name()), [])
                    for b in binds:
                        for t in cands:
                            b2 = dict(b)
                            if pmatch(part, t, b2): nb.append(b2)
                        if len(nb) > 300: break
                    binds = nb
                nv = q.num_vars()
                for b in binds:
                    if len(b) != nv: continue
                    key = (q.get_id(), tuple(b[i].get_id() for i in range(nv)), tuple(g.get_id() for g in gs))
                    if key in done: continue
                    done.add(key)
                    n += 1
                    if n > cap: return out
                    add(z3.substitute_vars(q.body(), *[b[i] for i in range(nv)]), gs)
        if len(out) == n0 and len(todo) == len(quants): break
    return out

def ground_attempt(hyps, goal, budget):
    ng = z3.Not(goal)
    fs = list(hyps) + [ng]
    sks = int_consts([goal] + [h for h in hyps if not summary(h).q])[:6]
    inst = instantiate_at(hyps, sks) if sks else []
    lem = sum_lemmas(fs + inst)
    bg = background(fs + lem)
    g = qfree_insts(fs + inst + lem + bg)
    s = z3.Solver()
    s.set("rlimit", budget * 2); s.set("timeout", TIMEOUT)
    s.add(*g)
    t0 = time.time()
    try: r = s.check()
    except z3.Z3Exception: r = z3.unknown
    STATS.queries += 1; STATS.time += time.time() - t0
    if r == z3.unsat:
        STATS.z3 += 1
        return True
    return False

def ite_cond(fs):
    """smallest ground condition of an if-then-else term"""
    best = None
    for f in fs:
        r = summary(f).ite
        if r is not None and (best is None or r[0] < best[0]): best = r
    return best[1] if best else None

def cases_simplify(fs, c, val):
    """fs under the assumption c == val"""
    while z3.is_not(c): c = c.arg(0); val = not val
    pairs = [(c, z3.BoolVal(val))]
    names = summary(c).names
    out = []
    for f in fs:
        if not names <= summary(f).names: out.append(f); continue
        g = z3.substitute(f, *pairs)
        if g.eq(f): out.append(f); continue
        g = peel(g)
        if z3.is_false(g): return None
        if not z3.is_true(g): out.append(g)
    out.append(c if val else z3.Not(c))
    return out

def peel(f):
    """simplify ground parts, keep quantified formulas as they are"""
    if not summary(f).q: return z3.simplify(f)
    if z3.is_implies(f):
        a = f.arg(0)
        if not summary(a).q:
            sa = z3.simplify(a)
            if z3.is_false(sa): return z3.BoolVal(True)
            if z3.is_true(sa): return peel(f.arg(1))
        b = peel(f.arg(1))
        return z3.BoolVal(True) if z3.is_true(b) else z3.Implies(a, b)
    if z3.is_and(f):
        cs = [peel(c) for c in f.children()]
        if any(z3.is_false(c) for c in cs): return z3.BoolVal(False)
        cs = [c for c in cs if not z3.is_true(c)]
        return z3.And(*cs) if len(cs) > 1 else (cs[0] if cs else z3.BoolVal(True))
    return f

def inline_names(fs, goal):
    """substitute names defined as constants or other names"""
    sub, par = [], {}
    def find(x):
        while x.get_id() in par: x = par[x.get_id()]
        return x
    for f in fs:
        if z3.is_eq(f) and z3.is_const(f.arg(0)) and z3.is_const(f.arg(1)):
            x, y = find(f.arg(0)), find(f.arg(1))
            if x.eq(y): continue
            if not isnm(x): x, y = y, x
            if isnm(x): par[x.get_id()] = y; sub.append(x)
    if not sub: return fs, goal
    pairs = [(x, find(x)) for x in sub]
    ns = {x.decl().name() for x in sub}
    out = []
    for f in fs:
        if ns & summary(f).names: f = z3.substitute(f, *pairs)
        if z3.is_eq(f) and f.arg(0).eq(f.arg(1)): continue
        out.append(f)
    return out, z3.substitute(goal, *pairs)

def isnm(x): return z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name().startswith("nm!")

def by_cases(hyps, left, rlimit, depth, info=None):
    """case split on the conditions of if-then-else terms; returns the goals not proved"""
    c = ite_cond(hyps + [g for _, g in left] + [h for x, _ in left for h in x]) if depth > 0 else None
    if c is None:
        out = []
        for item in left:
            h2, g2 = inline_names(hyps + item[0], item[1])
            if not quick(h2, g2, rlimit, info): out.append(item)
        return out
    bad = {}
    for val in (True, False):
        h = cases_simplify(hyps, c, val)
        if h is None: continue
        g = [x for x in h if not keysyms(x)[1]]
        s = z3.Solver(); s.set("rlimit", 100000); s.add(*g)
        if s.check() == z3.unsat: continue
        cc, v = c, val
        while z3.is_not(cc): cc = cc.arg(0); v = not v
        todo, src = [], []
        for j, (x, g) in enumerate(left):
            if j in bad: continue
            x2 = cases_simplify(x, c, val)
            if x2 is None: continue
            for extra, at in split_goal(peel(z3.substitute(g, (cc, z3.BoolVal(v)))), []):
                if z3.is_true(at): continue
                todo.append((x2 + extra, at)); src.append(j)
        for t in by_cases(h, todo, rlimit, depth - 1, info):
            bad[src[[u is t for u in todo].index(True)]] = True
    return [left[j] for j in sorted(bad)]

def limited(f, secs):
    """run f in a child process with a hard time limit"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            ok = bool(f())
            os.write(w, b"1" if ok else b"0")
        finally: os._exit(0)
    os.close(w)
    import select, signal
    ok = False
    if select.select([r], [], [], secs)[0]: ok = os.read(r, 1) == b"1"
    else: os.kill(pid, signal.SIGKILL)
    os.close(r); os.waitpid(pid, 0)
    return ok

def prepare(hyps, goal):
    fs = hyps + [goal]
    sks = int_consts([goal])[:4]
    inst = instantiate_at(hyps, sks) if sks else []
    lem = sum_lemmas(fs + inst)
    return list(hyps) + background(fs + lem), lem + inst

def attempt(hyps, goal, rlimit, auto, mbqi=False, seed=0, info=None):
    hs, lem = prepare(hyps, goal)
    pure = purify(hs + lem + [goal])
    if pure is not None:
        fs, more = pure
        r, s = check_one(fs[:-1], fs[-1], rlimit, mbqi=mbqi, seed=seed, lemmas=more, auto=auto)
        if r == z3.unsat:
            STATS.z3 += 1
            return True
    r, s = check_one(hs, goal, rlimit, mbqi=mbqi, seed=seed, lemmas=lem, auto=auto, timeout=None if pure is None else 4000)
    if r == z3.unsat:
        STATS.z3 += 1
        return True
    if info is not None:
        if r == z3.sat: info["model"] = s.model()
        info["reason"] = str(r) + " " + s.reason_unknown()
    return False

# ---- integer products as opaque terms
_nl = {}
def monomial(args):
    """the product of args (two or more) as an application of an uninterpreted function"""
    args = sorted(args, key=lambda a: a.get_id())
    f = _nl.get(len(args))
    if f is None: f = _nl[len(args)] = z3.Function("product!%d" % len(args), *([Int] * (len(args) + 1)))
    return f(*args)
def factors(t):
    if z3.is_mul(t): return [x for c in t.children() for x in factors(c)]
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_POWER and z3.is_int_value(t.arg(1)) and 0 < t.arg(1).as_long() < 5: return factors(t.arg(0)) * t.arg(1).as_long()
    return [t]
def purify(fs):
    """replace ground integer products by uninterpreted applications (after multiplying out); an abstraction, plus true facts about products; None if there are none"""
    prods = _cat([summary(f).prods for f in fs])
    if not prods: return None
    pairs, mons, par = [], {}, {}
    def find(x):
        while x.get_id() in par: x = par[x.get_id()]
        return x
    facs = {x.get_id() for p in prods for x in factors(p)}
    for f in fs[:-1]:        # factors equal by a hypothesis count as one
        for h in conj_split(f):
            if z3.is_eq(h) and h.arg(0).sort() == Int and (h.arg(0).get_id() in facs or h.arg(1).get_id() in facs) and not summary(h).ng and not summary(h).prods:
                x, y = find(h.arg(0)), find(h.arg(1))
                if not x.eq(y) and summary(x).sz < 8 and summary(y).sz < 8:
                    if z3.is_int_value(x) or (summary(x).sz < summary(y).sz and not z3.is_int_value(y)): x, y = y, x
                    if not contains(y, x, {}): par[x.get_id()] = y; mons[("k", x.get_id())] = x
    reps = [(x, find(x)) for k, x in mons.items()]
    mons = {}
    for p in prods:
        q = z3.simplify(z3.substitute(p, *reps), som=True) if reps else z3.simplify(p, som=True)
        out = []
        for m in (q.children() if z3.is_add(q) else [q]):
            fa = factors(m)
            c = [x for x in fa if z3.is_int_value(x)]
            v = [x for x in fa if not z3.is_int_value(x)]
            t = z3.IntVal(1) if not v else v[0] if len(v) == 1 else monomial(v)
            if len(v) > 1: mons[t.get_id()] = (t, v)
            for x in c: t = x * t
            out.append(t)
        pairs.append((p, z3.Sum(*out) if len(out) > 1 else out[0]))
    pairs.sort(key=lambda x: -summary(x[0]).sz)
    res = []
    for f in fs:
        if summary(f).prods:
            g = z3.substitute(f, *pairs)
            if summary(g).prods: g = z3.substitute(g, *pairs)
            f = g
        res.append(f)
    lem = []
    ms = list(mons.values())[:12]
    for t, v in ms:
        lem.append(z3.Implies(z3.And(*[x >= 0 for x in v]), t >= 0))
        lem.append(z3.Implies(z3.And(*[x > 0 for x in v]), z3.And(*[t >= x for x in v])))
        lem.append(z3.Implies(z3.Or(*[x == 0 for x in v]), t == 0))
        lem += [z3.Implies(x == 1, t == (monomial(r) if len(r) > 1 else r[0])) for i, x in enumerate(v) for r in [v[:i] + v[i + 1:]]]
    for i in range(len(ms)):
        for j in range(i):
            (t, v), (u, w) = ms[i], ms[j]
            if len(v) != len(w): continue
            rest, a = [], list(v)
            b = []
            for x in w:
                k = next((n for n, y in enumerate(a) if y.eq(x)), None)
                if k is None: b.append(x)
                else: rest.append(a.pop(k))
            if len(a) != 1 or len(b) != 1: continue
            r = monomial(rest) if len(rest) > 1 else rest[0]
            nn = z3.And(*[x >= 0 for x in rest])
            lem += [z3.Implies(z3.And(nn, a[0] < b[0]), t + r <= u), z3.Implies(z3.And(nn, b[0] < a[0]), u + r <= t), z3.Implies(a[0] == b[0], t == u)]
    return res, lem

def has_quant(fs):
    return any(True for _ in collect_q(fs))
def collect_q(fs):
    seen, stack = set(), list(fs)
    while stack:
        t = stack.pop()
        if t.get_id() in seen: continue
        seen.add(t.get_id())
        if z3.is_quantifier(t): yield t; return
        stack.extend(t.children())

def cvc5_check(hyps, goal, tlimit=8000):
    try:
        import cvc5
        s = z3.Solver(); s.add(*hyps); s.add(z3.Not(goal))
        txt = s.to_smt2()
        slv = cvc5.Solver()
        slv.setOption("tlimit", str(tlimit))
        slv.setOption("full-saturate-quant", "true")
        p = cvc5.InputParser(slv)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, "(set-logic ALL)\n" + txt.replace("(set-logic ALL)", ""), "q")
        sm = p.getSymbolManager()
        t0 = time.time()
        res = None
        while True:
            c = p.nextCommand()
            if c.isNull(): break
            o = c.invoke(slv, sm)
            if o.strip() in ("sat", "unsat", "unknown"): res = o.strip()
        STATS.time += time.time() - t0
        return res == "unsat"
    except Exception as e:
        return False
