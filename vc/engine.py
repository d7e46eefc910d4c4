"""Forward symbolic execution of clang ASTs against contracts: the VC generator."""
import re, z3, os, time
from .types import *
from .types import Types
from . import types as ty
from . import solve
from .solve import prove, mk_sum

F_isnan = z3.Function("isnan", Real, Bool)

class State:
    __slots__ = ("store", "env", "pc", "dead")
    def __init__(self):
        self.store, self.env, self.pc, self.dead = {}, {}, [], False
    def copy(self):
        s = State()
        s.store, s.env, s.pc, s.dead = dict(self.store), dict(self.env), list(self.pc), self.dead
        return s
    def set(self, o):
        self.store, self.env, self.pc, self.dead = o.store, o.env, o.pc, o.dead
    def fact(self, f):
        if z3.is_true(f): return
        self.pc.append(("f", f))
    def guard(self, g):
        self.pc.append(("g", g))
    def hyps(self):
        return [x for _, x in self.pc]

class Dead(Exception):
    pass

class LV:
    __slots__ = ("path",)
    def __init__(self, path): self.path = path

class Obligation:
    def __init__(self, name, hyps, goal, loc, kind):
        self.name, self.hyps, self.goal, self.loc, self.kind = name, hyps, goal, loc, kind

class Outcome:
    __slots__ = ("kind", "st", "val")
    def __init__(self, kind, st, val=None): self.kind, self.st, self.val = kind, st, val

def conj(xs):
    xs = [x for x in xs if not z3.is_true(x)]
    if not xs: return z3.BoolVal(True)
    return xs[0] if len(xs) == 1 else z3.And(*xs)

def merge(states, vals=None):
    """join states that share a common pc prefix; raises MergeFail"""
    if len(states) == 1: return states[0], (vals[0] if vals else None)
    n = min(len(s.pc) for s in states)
    k = 0
    p0 = states[0].pc
    while k < n and all(s.pc[k] is p0[k] or s.pc[k][1] is p0[k][1] for s in states): k += 1
    r = State()
    r.pc = list(p0[:k])
    gs = []
    for s in states:
        gs.append(conj([f for t, f in s.pc[k:] if t == "g"]))
    for s, g in zip(states, gs):
        for t, f in s.pc[k:]:
            if t == "f": r.pc.append(("f", f if z3.is_true(g) else z3.Implies(g, f)))
    # guards of facts may depend on each other; the disjunction is known
    dis = z3.simplify(z3.Or(*gs))
    if not z3.is_true(dis): r.pc.append(("g", dis))
    keys = set(states[0].store)
    for s in states[1:]: keys &= set(s.store)
    for key in keys:
        v = states[-1].store[key]
        for s, g in reversed(list(zip(states[:-1], gs[:-1]))):
            v = vite(g, s.store[key], v)
        r.store[key] = v
    env = {}
    for key in states[0].env:
        ps = [s.env.get(key) for s in states]
        if all(p is not None and (p is ps[0] or path_eq(p, ps[0])) for p in ps): env[key] = ps[0]
    r.env = env
    val = None
    if vals is not None:
        val = vals[-1]
        for v, g in reversed(list(zip(vals[:-1], gs[:-1]))):
            if isinstance(v, LV) or isinstance(val, LV):
                if not (isinstance(v, LV) and isinstance(val, LV) and path_eq(v.path, val.path)): raise MergeFail()
            elif v is None and val is None: pass
            else: val = vite(g, coerce(v, val) if z3.is_expr(v) else v, val)
    return r, val

class Spec:
    """what a contract sees"""
    def __init__(self, eng, st, this, args, old=None, ret=None):
        self.eng, self.st, self._this, self.argpaths, self._old, self._ret = eng, st, this, args, old, ret
    @property
    def this(self): return self.named(self.eng.read(self.st, self._this))
    def a(self, i):
        p = self.argpaths[i]
        v = self.eng.read(self.st, p)
        if isinstance(v, Ptr):
            if v.path is None or v.path == "undef": raise Unsupported("null pointer argument in contract")
            return self.named(self.eng.read(self.st, v.path))
        return self.named(v)
    def named(self, v): return self.eng.nameval(self.st, v)
    @property
    def old(self): return self._old
    @property
    def ret(self): return self._ret

class Contract:
    name = None; sig = None; modifies = (); inline = False; inline_calls = False
    may_throw = False; nan = False; bounds = True; pure = False
    def requires(self, s): return []
    def ensures(self, s): return []
    def hints(self, s, L): return []      # loop invariant candidates
    def facts(self, s, L): return []      # spec-function unfoldings at a loop head (definitional)
    def lemmas(self, s): return []        # definitional facts assumed at entry
    def exit_facts(self, s): return []    # definitional facts at exit
    def inductions(self, s): return []    # (name, guard(x), claim(x), measure(x), [definition instances](x)): proved by strong induction on the measure, then assumed
    def before_call_facts(self, s, at, callee): return []      # the same before a call; at: what the callee's contract sees
    def before_call(self, s, at, callee): return []            # (name, claim, consequences by definition) before a call
    def after_call_facts(self, s, before, callee): return []   # definitional facts about ghost functions at such a point
    def after_call(self, s, callee): return []   # ghost assertions after each call of a function under contract
    def setup(self, eng, st, s): pass
    def ghost(self, eng, st, s): pass     # assignments to ghost fields at the exits

    @staticmethod
    def setghost(eng, st, path, field, val):
        v = eng.read(st, path)
        f = dict(v.f); f[field] = val
        eng.write(st, path, Agg(v.t, f))

class LoopInfo:
    pass

class Engine:
    def __init__(self, ast, contracts, opts=None):
        self.ast = ast
        self.types = Types(ast)
        self.contracts = contracts          # list of Contract objects
        self.opts = opts or {}
        self.bycid = {}
        self.obls = []
        self.quiet = 0
        self.cur = None
        self.callstack = []
        self.nloops = 0
        self.assumptions = set()
        self.inlined = set()
        self.used_contracts = set()
        self.loopcache = {}
        self.loopmode = []
        self.loopctx = []
        self.cachequiet = 0
        self.totaldef = {}
        self.names = {}
        self.entry = None
        self.hrl = 3000000
        self._strs = {}
        self.resolve()

    # ------------------------------------------------------------ contracts
    def resolve(self):
        self.missing = []
        for c in self.contracts:
            cands = self.find(c.name, c.sig, getattr(c, "cls", None))
            if not cands:
                self.missing.append(c); continue
            c.nodes = cands
            for n in cands:
                self.bycid[n["id"]] = c

    def find(self, name, sig=None, inst=None):
        out = []
        for n in self.ast.funcs.get("StochTree::" + name, []):
            ps = self.ast.params(n)
            pts = []
            for p in ps:
                t = p["type"]
                pts.append((t.get("desugaredQualType") or t["qualType"]))
            if n.get("_parent", {}) and n["_parent"].get("kind") == "FunctionTemplateDecl" and not any(c.get("kind") == "TemplateArgument" for c in n.get("inner", [])):
                continue
            if sig is not None:
                ks = [self.kindof(p) for p in ps]
                if list(sig) != ks: continue
            out.append(n)
        # class template specialisations / explicit instantiations selection
        return out

    def kindof(self, p):
        t = self.types.of(p)
        return self.kt(t)
    def kt(self, t):
        if isinstance(t, TRef): return self.kt(t.e)
        if isinstance(t, TPtr): return "*" + self.kt(t.e)
        if isinstance(t, TVec): return "V" + self.kt(t.e)
        if isinstance(t, TMat): return "mat"
        if isinstance(t, TRec): return t.name
        if isinstance(t, TUptr): return "U" + self.kt(t.e)
        if isinstance(t, TFunc): return "func"
        if isinstance(t, TMap): return "map"
        if t.scalar:
            if isinstance(t, TOpaque): return "op"
            return {"Int": "i", "Real": "r", "Bool": "b"}.get(str(t.sort), str(t.sort))
        return repr(t)

    # ------------------------------------------------------------ memory
    def read(self, st, path):
        root, steps = path
        if root not in st.store: raise Unsupported("unknown root %s" % (root,))
        v = st.store[root]
        for s in steps: v = self.step(v, s)
        return v

    def step(self, v, s):
        k = s[0]
        if isinstance(v, Undef): raise Unsupported("read through undefined value")
        if k == "f":
            if isinstance(v, Agg) and s[1] in v.f: return v.f[s[1]]
            raise Unsupported("field %s of %r" % (s[1], v))
        if k == "e": return sel(v.f["e"], s[1])
        if k == "m": return simp_select(simp_select(v.f["a"], s[1]), s[2])
        if k == "k": return sel(v.f["val"], s[1]) if not z3.is_expr(v.f["val"]) else simp_select(v.f["val"], s[1])
        if k == "jk": return self.jget(v, s[1])
        if k == "ja": return self.jat(v, s[1])
        raise Unsupported("step %s" % k)

    def write(self, st, path, x):
        root, steps = path
        if not steps:
            cur = st.store.get(root)
            st.store[root] = self.fit(x, cur)
            return
        st.store[root] = self.upd(st.store[root], steps, x)

    def fit(self, x, cur):
        if cur is not None and z3.is_expr(x) and z3.is_expr(cur): return coerce(x, cur)
        return x

    def upd(self, v, steps, x):
        s = steps[0]
        old = self.step(v, s)
        new = self.upd(old, steps[1:], x) if len(steps) > 1 else self.fit(x, old)
        k = s[0]
        if k == "f":
            f = dict(v.f); f[s[1]] = new
            return Agg(v.t, f)
        if k == "e":
            f = dict(v.f); f["e"] = sto(v.f["e"], s[1], new)
            if "cnt" in f:
                c = f["cnt"]
                if not new.eq(old):
                    c = z3.Store(c, old, simp_select(c, old) - 1)
                    c = z3.Store(c, new, simp_select(c, new) + 1)
                f["cnt"] = c
            return Agg(v.t, f)
        if k == "m":
            f = dict(v.f)
            f["a"] = z3.Store(f["a"], s[1], z3.Store(simp_select(f["a"], s[1]), s[2], new))
            return Agg(v.t, f)
        if k == "k":
            f = dict(v.f)
            f["val"] = vmap(lambda a, b: z3.Store(a, s[1], b), f["val"], new)
            if not z3.is_true(simp_select(f["has"], s[1])):
                f["size"] = z3.If(simp_select(f["has"], s[1]), f["size"], f["size"] + 1)
                f["has"] = z3.Store(f["has"], s[1], z3.BoolVal(True))
            return Agg(v.t, f)
        if k == "jk": return self.J("set", v, s[1], new)
        if k == "ja": return self.J("setat", v, s[1], new)
        raise Unsupported("write step")

    # JSON terms
    def J(self, op, *a):
        from . import jsonmodel
        return jsonmodel.op(op, *a)
    def jget(self, j, k): return self.J("get", j, k)
    def jat(self, j, i): return self.J("at", j, i)
    def strlit(self, s):
        from . import jsonmodel
        return jsonmodel.strlit(s)

    def alloc(self, st, name, v):
        r = fresh_name(name)
        st.store[r] = v
        return (r, ())

    # ------------------------------------------------------------ obligations
    def oblige(self, st, goal, name, node=None, kind="safety"):
        if z3.is_true(goal): return
        if not self.quiet:
            loc = (node or {}).get("_l", (None, None))
            self.obls.append(Obligation(name, st.hyps(), goal, loc, kind))
        st.fact(goal)

    def inb(self, st, node, idx, n, what):
        if self.cur is not None and not self.cur.bounds: return
        g = z3.And(idx >= 0, idx < n)
        gs = z3.simplify(g)
        if z3.is_true(gs): return
        self.oblige(st, g, "index in range: " + what, node)

    # ------------------------------------------------------------ statements
    def exec(self, st, node):
        """returns list of Outcome"""
        k = node.get("kind")
        m = getattr(self, "s_" + k, None)
        if m is not None:
            return m(st, node)
        # expression statement
        try:
            self.eval(st, node)
        except Dead:
            return []
        return [Outcome("normal", st)]

    def exec_seq(self, st, nodes):
        live = [st]
        outs = []
        for n in nodes:
            nxt = []
            for s in live:
                for o in self.exec(s, n):
                    if o.kind == "normal": nxt.append(o.st)
                    else: outs.append(o)
            live = self.join(nxt)
            if not live: break
        return outs + [Outcome("normal", s) for s in live]

    def join(self, sts):
        if len(sts) <= 1: return sts
        try:
            return [merge(sts)[0]]
        except MergeFail:
            if len(sts) > 24: raise Unsupported("too many unmergeable paths")
            return sts

    def s_CompoundStmt(self, st, n): return self.exec_seq(st, n.get("inner", []))
    def s_NullStmt(self, st, n): return [Outcome("normal", st)]
    def s_ExprWithCleanups(self, st, n): return self.exec(st, n["inner"][0])
    def s_AttributedStmt(self, st, n): return self.exec(st, n["inner"][-1])

    def s_ReturnStmt(self, st, n):
        try:
            inner = [c for c in n.get("inner", []) if c]
            if not inner: return [Outcome("return", st, None)]
            v = self.eval(st, inner[0])
            if not self.retref[-1]: v = self.rv(st, v)
            return [Outcome("return", st, v)]
        except Dead:
            return []

    def s_BreakStmt(self, st, n): return [Outcome("break", st)]
    def s_ContinueStmt(self, st, n): return [Outcome("continue", st)]

    def s_DeclStmt(self, st, n):
        try:
            for d in n.get("inner", []):
                self.declare(st, d)
        except Dead:
            return []
        return [Outcome("normal", st)]

    def declare(self, st, d):
        k = d.get("kind")
        if k in ("TypedefDecl", "UsingDecl", "TypeAliasDecl", "StaticAssertDecl", "CXXRecordDecl", "UsingDirectiveDecl"): return
        if k == "DecompositionDecl":
            ini = [c for c in d.get("inner", []) if c.get("kind") != "BindingDecl"]
            v = self.eval(st, ini[0]) if ini else None
            if isinstance(v, LV): base = v.path
            else: base = self.alloc(st, "decomp", v)
            val = self.read(st, base)
            names = list(val.f.keys())
            for b, f in zip([c for c in d["inner"] if c.get("kind") == "BindingDecl"], names):
                st.env[b["id"]] = (base[0], base[1] + (("f", f),))
            return
        if k != "VarDecl": raise Unsupported("declaration " + str(k))
        t = self.types.of(d)
        ini = [c for c in d.get("inner", []) if c and not c.get("kind", "").endswith(("Attr", "Comment"))]
        if isinstance(t, TRef):
            v = self.eval(st, ini[0])
            if isinstance(v, LV): st.env[d["id"]] = v.path
            else: st.env[d["id"]] = self.alloc(st, d.get("name", "tmp"), v)
            return
        root = "%s#%s" % (d.get("name", "tmp"), d["id"])
        if ini:
            v = self.rv(st, self.eval(st, ini[0]))
            if z3.is_expr(v) and t.scalar: v = self.conv(v, t)
        else:
            v = self.uninit(t, d.get("name", "v"))
        st.store[root] = v
        st.env[d["id"]] = (root, ())

    def uninit(self, t, name):
        if t.scalar: return fresh(t, name) if t.sort != JsonS else zero_of(t)
        if isinstance(t, (TVec, TMat, TMap, TUptr)): return zero_of(t)
        if isinstance(t, TRec): return Agg(t, {k: self.uninit(v, name + "." + k) for k, v in t.fields.items()})
        if isinstance(t, TFunc): return zero_of(t)
        return UNDEF

    def conv(self, v, t):
        if not z3.is_expr(v): return v
        if t.sort == v.sort(): return v
        if t.sort == Real and v.sort() == Int: return z3.ToReal(v)
        if t.sort == Int and v.sort() == Real: return self.trunc(v)
        if t.sort == Bool and v.sort() == Int: return v != 0
        if t.sort == Bool and v.sort() == Real: return v != 0
        if t.sort == Int and v.sort() == Bool: return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        if t.sort == Real and v.sort() == Bool: return z3.If(v, z3.RealVal(1), z3.RealVal(0))
        if v.sort() == JsonS: return self.J("as", v, t)
        if t.sort == JsonS: return self.J("of", v)
        raise Unsupported("conversion %s -> %s" % (v.sort(), t.sort))

    def trunc(self, v):
        return z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))

    def truth(self, v):
        if v.sort() == Bool: return v
        return v != 0

    def s_IfStmt(self, st, n):
        inner = [c for c in n.get("inner", [])]
        idx = 0
        try:
            if n.get("hasInit"):
                raise Unsupported("if with init")
            if n.get("hasVar"):
                raise Unsupported("if with variable")
            c = self.truth(self.rv(st, self.eval(st, inner[0])))
        except Dead:
            return []
        cs = z3.simplify(c)
        if n.get("isConstexpr") or z3.is_true(cs) or z3.is_false(cs):
            if z3.is_true(cs): return self.exec(st, inner[1])
            if z3.is_false(cs):
                return self.exec(st, inner[2]) if len(inner) > 2 else [Outcome("normal", st)]
        # a failed check (macro) is an obligation: the throwing branch must be unreachable
        s1, s2 = st.copy(), st
        s1.guard(c); s2.guard(z3.Not(c))
        o1 = self.exec(s1, inner[1])
        o2 = self.exec(s2, inner[2]) if len(inner) > 2 else [Outcome("normal", s2)]
        outs = o1 + o2
        norm = [o.st for o in outs if o.kind == "normal"]
        rest = [o for o in outs if o.kind != "normal"]
        return rest + [Outcome("normal", s) for s in self.join(norm)]

    def s_SwitchStmt(self, st, n): raise Unsupported("switch")
    def s_CXXTryStmt(self, st, n): raise Unsupported("try")

    def throw(self, st, node, what):
        if self.cur is not None and self.cur.may_throw:
            raise Dead()
        self.oblige(st, z3.BoolVal(False), "no error raised: " + what, node, "nothrow")
        raise Dead()

    def s_CXXThrowExpr(self, st, n):
        try: self.throw(st, n, "throw")
        except Dead: return []

    # loops --------------------------------------------------------------
    def s_ForStmt(self, st, n):
        init, condvar, cond, inc, body = n["inner"][:5]
        live = [st]
        if init:
            live = [o.st for o in self.exec(st, init)]
        outs = []
        for s in live:
            outs += self.loop(s, n, cond or None, inc or None, body)
        return self.fold(outs)

    def s_WhileStmt(self, st, n):
        inner = n["inner"]
        return self.fold(self.loop(st, n, inner[-2], None, inner[-1]))

    def s_DoStmt(self, st, n):
        # body once, then a while loop
        body, cond = n["inner"]
        outs = []
        for o in self.exec(st, body):
            if o.kind in ("normal", "continue"):
                outs += self.loop(o.st, n, cond, None, body)
            elif o.kind == "break": outs.append(Outcome("normal", o.st))
            else: outs.append(o)
        return self.fold(outs)

    def s_CXXForRangeStmt(self, st, n):
        inner = n["inner"]
        init, rng, beg, end, cond, inc, var, body = (inner + [None] * 8)[:8]
        outs0 = [st]
        for d in (init, rng, beg, end):
            if d:
                nx = []
                for s in outs0:
                    nx += [o.st for o in self.exec(s, d)]
                outs0 = nx
        outs = []
        for s in outs0:
            outs += self.loop(s, n, cond, inc, body, pre=var)
        return self.fold(outs)

    def fold(self, outs):
        norm = [o.st for o in outs if o.kind == "normal"]
        rest = [o for o in outs if o.kind != "normal"]
        return rest + [Outcome("normal", s) for s in self.join(norm)]

    def loop(self, st, node, cond, inc, body, pre=None):
        from . import loops
        return loops.run(self, st, node, cond, inc, body, pre)

    # ------------------------------------------------------------ expressions
    def rv(self, st, x):
        if isinstance(x, LV): return self.read(st, x.path)
        return x

    def lv(self, st, x, name="tmp"):
        if isinstance(x, LV): return x.path
        return self.alloc(st, name, x)

    def eval(self, st, n):
        k = n["kind"]
        m = getattr(self, "e_" + k, None)
        if m is None: raise Unsupported("expression " + k + " at %s:%s" % n.get("_l", (None, None)))
        return m(st, n)

    def ev(self, st, n): return self.rv(st, self.eval(st, n))

    def pass1(self, st, n): return self.eval(st, n["inner"][0])
    e_ParenExpr = e_ExprWithCleanups = e_MaterializeTemporaryExpr = e_CXXBindTemporaryExpr = e_ConstantExpr = pass1
    e_SubstNonTypeTemplateParmExpr = lambda self, st, n: self.eval(st, n["inner"][-1])
    e_CXXStdInitializerListExpr = pass1

    def e_CXXThrowExpr(self, st, n): self.throw(st, n, "throw")
    def e_IntegerLiteral(self, st, n): return z3.IntVal(int(n["value"]))
    def e_CharacterLiteral(self, st, n): return z3.IntVal(int(n["value"]))
    def e_FloatingLiteral(self, st, n):
        from fractions import Fraction
        f = Fraction(float(n["value"])) if "e" in n["value"].lower() and abs(float(n["value"])) > 1e15 else Fraction(n["value"]) if "e" not in n["value"].lower() else Fraction(float(n["value"]))
        return z3.RealVal(str(f.numerator) + ("/" + str(f.denominator) if f.denominator != 1 else ""))
    def e_CXXBoolLiteralExpr(self, st, n): return z3.BoolVal(bool(n["value"]))
    def e_StringLiteral(self, st, n):
        import json as _j
        try: s = _j.loads(n["value"])
        except Exception: s = n["value"]
        return self.strlit(s)
    def e_CXXNullPtrLiteralExpr(self, st, n): return Ptr(None)
    def e_GNUNullExpr(self, st, n): return Ptr(None)
    def e_CXXThisExpr(self, st, n): return Ptr(st.env["this"])
    def e_ImplicitValueInitExpr(self, st, n): return zero_of(self.types.of(n))
    def e_CXXScalarValueInitExpr(self, st, n): return zero_of(self.types.of(n))
    def e_CXXDefaultInitExpr(self, st, n):
        raise Unsupported("default init expr")

    def e_DeclRefExpr(self, st, n):
        rd = n["referencedDecl"]
        if rd["id"] in st.env: return LV(st.env[rd["id"]])
        if rd["kind"] == "EnumConstantDecl":
            return z3.IntVal(self.enumval(rd))
        if rd["kind"] in ("FunctionDecl", "CXXMethodDecl"): return Func("decl", rd)
        if rd["kind"] == "VarDecl":
            v = self.globalconst(st, rd)
            if v is not None: return v
            m = re.match(r"^(?:std::)?numeric_limits\s*<\s*([\w: ]+?)\s*>\s*::\s*digits$", self.source(n) or "")
            if m and m.group(1) in self.DIGITS: return z3.IntVal(self.DIGITS[m.group(1)])
        raise Unsupported("reference to %s %s" % (rd["kind"], rd.get("name")))

    DIGITS = {"double": 53, "float": 24, "int": 31, "std::int32_t": 31, "int32_t": 31, "std::uint32_t": 32, "uint32_t": 32, "std::uint64_t": 64, "uint64_t": 64}
    def source(self, n):
        """source text of an expression"""
        f = (n.get("_l") or (None,))[0]
        r = n.get("range", {})
        b, e = r.get("begin", {}), r.get("end", {})
        if not f or "offset" not in b or "offset" not in e: return None
        try:
            with open(f, "rb") as fh: return fh.read()[b["offset"]:e["offset"] + e.get("tokLen", 0)].decode()
        except (OSError, UnicodeDecodeError): return None

    def enumval(self, rd):
        d = self.ast.enumconst.get(rd["id"])
        if d is None: raise Unsupported("enum constant " + rd.get("name", ""))
        par = d.get("_parent")
        val = -1
        for c in par.get("inner", []):
            if c.get("kind") != "EnumConstantDecl": continue
            ini = [x for x in c.get("inner", []) if x.get("kind", "").endswith(("Expr", "Literal"))]
            if ini:
                v = self.constval(ini[0])
                val = v
            else: val += 1
            if c["id"] == rd["id"]: return val
        raise Unsupported("enum value")

    def constval(self, e):
        if "value" in e and e["kind"] in ("ConstantExpr", "IntegerLiteral"): return int(e["value"])
        return self.constval(e["inner"][0])

    def globalconst(self, st, rd):
        d = self.ast.byid.get(rd["id"])
        tries = [d]
        if d is not None and d.get("previousDecl"): tries.append(self.ast.byid.get(d["previousDecl"]))
        for dd in tries:
            if dd is None: continue
            ini = [x for x in dd.get("inner", []) if x and x.get("kind", "").endswith(("Expr", "Literal", "Operator", "Cleanups"))]
            if ini:
                if "const" not in dd.get("type", {}).get("qualType", "") and not dd.get("constexpr"): return None
                return self.ev(st, ini[0])
        # another declaration of the same static member
        for dd in self.ast.byid.values():
            if dd.get("kind") == "VarDecl" and dd.get("name") == rd.get("name") and dd.get("previousDecl") == rd["id"]:
                ini = [x for x in dd.get("inner", []) if x.get("kind", "").endswith(("Expr", "Literal", "Operator"))]
                if ini: return self.ev(st, ini[0])
        return None

    def e_ImplicitCastExpr(self, st, n):
        ck = n.get("castKind")
        if ck == "LValueToRValue":
            return self.rv(st, self.eval(st, n["inner"][0]))
        x = self.eval(st, n["inner"][0])
        if ck in ("NoOp", "ArrayToPointerDecay", "FunctionToPointerDecay", "ConstructorConversion", "UserDefinedConversion", "BuiltinFnToFnPtr", "BitCast", "UncheckedDerivedToBase", "DerivedToBase"):
            return x
        if ck == "NullToPointer": return Ptr(None)
        if ck == "ToVoid": return None
        if ck in ("PointerToBoolean", "MemberPointerToBoolean"):
            v = self.rv(st, x)
            if isinstance(v, Ptr): return z3.BoolVal(v.path is not None)
            raise Unsupported("pointer to bool")
        v = self.rv(st, x)
        t = self.types.of(n)
        if isinstance(t, TRef): t = t.e
        if ck in ("IntegralCast", "IntegralToFloating", "FloatingToIntegral", "FloatingCast", "IntegralToBoolean", "FloatingToBoolean"):
            if ck == "FloatingToIntegral": self.assumptions.add("double-to-integer conversion is truncation toward zero (in range)")
            return self.conv(v, t)
        raise Unsupported("cast " + str(ck))

    def explicit_cast(self, st, n):
        x = self.eval(st, n["inner"][0])
        t = self.types.of(n)
        if isinstance(t, TRef) or isinstance(t, TPtr): return x
        v = self.rv(st, x)
        if z3.is_expr(v) and t.scalar: return self.conv(v, t)
        return v
    e_CXXStaticCastExpr = e_CXXFunctionalCastExpr = e_CStyleCastExpr = e_CXXConstCastExpr = explicit_cast
    e_CXXReinterpretCastExpr = lambda self, st, n: (_ for _ in ()).throw(Unsupported("reinterpret_cast"))

    def e_MemberExpr(self, st, n):
        base = self.eval(st, n["inner"][0])
        if n.get("isArrow"):
            p = self.rv(st, base)
            if isinstance(p, Ptr):
                if p.path is None or p.path == "undef": raise Unsupported("dereference of null/unknown pointer")
                path = p.path
            elif isinstance(p, Iter):
                path = self.iterpath(st, p, n)
            else: raise Unsupported("arrow on %r" % (p,))
        else:
            path = self.lv(st, base)
        nm = n["name"]
        d = self.ast.byid.get(n.get("referencedMemberDecl"))
        if d is not None and d.get("kind") == "VarDecl":
            v = self.globalconst(st, d)
            if v is not None: return v
        return LV((path[0], path[1] + (("f", nm),)))

    def iterpath(self, st, it, node=None, check=True):
        if it.kind == "map": return self.mapiter(st, it)
        v = self.read(st, it.path)
        if it.kind == "mat":
            return (it.path[0], it.path[1] + (("m", it.idx, z3.IntVal(0)),))
        if check: self.inb(st, node, it.idx, v.f["len"], "iterator dereference")
        return (it.path[0], it.path[1] + (("e", it.idx),))

    def mapiter(self, st, it):
        raise Unsupported("map iterator dereference")

    def e_ArraySubscriptExpr(self, st, n):
        b = self.ev(st, n["inner"][0]); i = self.ev(st, n["inner"][1])
        if isinstance(b, Ptr):
            # pointer into a buffer: path ends in an element step
            return LV(self.ptr_add(b.path, i))
        raise Unsupported("array subscript")

    def ptr_add(self, path, i):
        root, steps = path
        if steps and steps[-1][0] == "e":
            return (root, steps[:-1] + (("e", steps[-1][1] + i),))
        raise Unsupported("pointer arithmetic")

    def e_UnaryOperator(self, st, n):
        op = n["opcode"]
        if op in ("++", "--"):
            p = self.lv(st, self.eval(st, n["inner"][0]))
            v = self.read(st, p)
            if isinstance(v, Iter): nv = Iter(v.path, z3.simplify(v.idx + (1 if op == "++" else -1)), v.kind)
            elif isinstance(v, Ptr): nv = Ptr(self.ptr_add(v.path, z3.IntVal(1 if op == "++" else -1)))
            else: nv = z3.simplify(v + (1 if op == "++" else -1)) if v.sort() == Int else v + (1 if op == "++" else -1)
            self.write(st, p, nv)
            return v if n.get("isPostfix") else LV(p)
        if op == "&":
            self.addrof = self.addrnode(n["inner"][0])
        x = self.eval(st, n["inner"][0])
        if op == "*":
            v = self.rv(st, x)
            if isinstance(v, Ptr):
                if v.path is None or v.path == "undef": raise Unsupported("null dereference")
                return LV(v.path)
            if isinstance(v, Func): return v
            raise Unsupported("deref")
        if op == "&":
            if isinstance(x, LV): return Ptr(x.path)
            if isinstance(x, Func): return x
            raise Unsupported("address of temporary")
        v = self.rv(st, x)
        if op == "!": return z3.Not(self.truth(v))
        if op == "-": return -v
        if op == "+": return v
        raise Unsupported("unary " + op)

    addrof = None
    @staticmethod
    def addrnode(n):
        while n["kind"] in ("ParenExpr", "ImplicitCastExpr") and n.get("castKind", "NoOp") == "NoOp": n = n["inner"][0]
        return n.get("id")

    def merge_into(self, st, sts, vals):
        m, v = merge(sts, vals)
        st.set(m)
        return v

    def e_BinaryOperator(self, st, n):
        op = n["opcode"]
        a, b = n["inner"]
        if op == ",":
            self.eval(st, a); return self.eval(st, b)
        if op == "=":
            rvv = self.ev(st, b)
            p = self.lv(st, self.eval(st, a))
            t = self.types.of(n)
            if isinstance(t, TRef): t = t.e
            if z3.is_expr(rvv) and t.scalar: rvv = self.conv(rvv, t)
            self.write(st, p, rvv)
            return LV(p)
        if op in ("&&", "||"):
            x = self.truth(self.ev(st, a))
            sx = z3.simplify(x)
            if z3.is_true(sx): return self.truth(self.ev(st, b)) if op == "&&" else z3.BoolVal(True)
            if z3.is_false(sx): return z3.BoolVal(False) if op == "&&" else self.truth(self.ev(st, b))
            s1 = st.copy(); s2 = st.copy()
            s1.guard(x if op == "&&" else z3.Not(x)); s2.guard(z3.Not(x) if op == "&&" else x)
            try:
                y = self.truth(self.ev(s1, b))
            except Dead:
                st.set(s2); return z3.BoolVal(op == "||")
            other = z3.BoolVal(op == "||")
            if len(s1.pc) == len(st.pc) + 1 and all(s1.store.get(k) is v for k, v in st.store.items()):
                return z3.And(x, y) if op == "&&" else z3.Or(x, y)
            return self.merge_into(st, [s1, s2], [y, other])
        x, y = self.ev(st, a), self.ev(st, b)
        return self.binop(st, op, x, y, n)

    def binop(self, st, op, x, y, n):
        if isinstance(x, (Ptr,)) or isinstance(y, Ptr):
            if isinstance(x, Ptr) and isinstance(y, Ptr):
                if op in ("==", "!="):
                    if x.path == "undef" or y.path == "undef": raise Unsupported("pointer comparison")
                    if x.path is None or y.path is None or True:
                        eq = path_eq(x.path, y.path)
                        if not eq and x.path is not None and y.path is not None: raise Unsupported("pointer comparison")
                        return z3.BoolVal(eq if op == "==" else not eq)
            if isinstance(x, Ptr) and z3.is_expr(y) and op in "+-": return Ptr(self.ptr_add(x.path, y if op == "+" else -y))
            raise Unsupported("pointer operation " + op)
        if not (z3.is_expr(x) and z3.is_expr(y)): raise Unsupported("binary %s on aggregates" % op)
        if x.sort() == JsonS or y.sort() == JsonS: raise Unsupported("json arithmetic")
        if x.sort() == Bool and y.sort() != Bool: x = self.conv(x, INT)
        if y.sort() == Bool and x.sort() != Bool: y = self.conv(y, INT)
        if x.sort() == Bool and op not in ("==", "!=", "&", "|"): x, y = self.conv(x, INT), self.conv(y, INT)
        if x.sort() != y.sort():
            if x.sort() == Int: x = z3.ToReal(x)
            elif y.sort() == Int: y = z3.ToReal(y)
        if op in ("<", "<=", ">", ">=", "==", "!="):
            r = {"<": lambda: x < y, "<=": lambda: x <= y, ">": lambda: x > y, ">=": lambda: x >= y, "==": lambda: x == y, "!=": lambda: x != y}[op]()
            if x.sort() == Real and self.nan():
                nn = [z3.Not(F_isnan(t)) for t in (x, y) if not solve.is_num(t)]
                if op == "!=": return z3.Not(conj(nn + [x == y]))
                return conj(nn + [r])
            return r
        if op == "+": return x + y
        if op == "-": return x - y
        if op == "*": return x * y
        if op == "/":
            if x.sort() == Real:
                if self.opts.get("divcheck", False): self.oblige(st, y != 0, "divisor non-zero", n)
                return x / y
            self.oblige(st, y != 0, "integer divisor non-zero", n)
            return self.idiv(x, y)
        if op == "%":
            self.oblige(st, y != 0, "integer divisor non-zero", n)
            return x - y * self.idiv(x, y)
        if op == "&" and x.sort() == Bool: return z3.And(x, y)
        if op == "|" and x.sort() == Bool: return z3.Or(x, y)
        if op == "<<" and z3.is_int_value(z3.simplify(x)) and z3.is_int_value(z3.simplify(y)):
            return z3.IntVal(z3.simplify(x).as_long() << z3.simplify(y).as_long())
        raise Unsupported("operator " + op)

    def nan(self): return self.cur is not None and self.cur.nan

    def idiv(self, x, y):
        sx, sy = z3.simplify(x), z3.simplify(y)
        if z3.is_int_value(sy) and sy.as_long() > 0:
            return z3.If(x >= 0, x / y, -((-x) / y))
        return z3.If(z3.And(x >= 0, y > 0), x / y, z3.If(z3.And(x < 0, y > 0), -((-x) / y), z3.If(z3.And(x >= 0, y < 0), -(x / (-y)), (-x) / (-y))))

    def e_CompoundAssignOperator(self, st, n):
        op = n["opcode"][:-1]
        y = self.ev(st, n["inner"][1])
        p = self.lv(st, self.eval(st, n["inner"][0]))
        x = self.read(st, p)
        if isinstance(x, Ptr): r = Ptr(self.ptr_add(x.path, y if op == "+" else -y))
        else:
            t = x.sort()
            r = self.binop(st, op, x, y, n)
            if r.sort() != t: r = self.conv(r, INT if t == Int else REAL)
        self.write(st, p, r)
        return LV(p)

    def e_ConditionalOperator(self, st, n):
        c = self.truth(self.ev(st, n["inner"][0]))
        sc = z3.simplify(c)
        if z3.is_true(sc): return self.eval(st, n["inner"][1])
        if z3.is_false(sc): return self.eval(st, n["inner"][2])
        s1 = st.copy(); s2 = st.copy()
        s1.guard(c); s2.guard(z3.Not(c))
        d1 = d2 = False
        v1 = v2 = None
        try: v1 = self.ev(s1, n["inner"][1])
        except Dead: d1 = True
        try: v2 = self.ev(s2, n["inner"][2])
        except Dead: d2 = True
        if d1 and d2: raise Dead()
        if d1: st.set(s2); return v2
        if d2: st.set(s1); return v1
        if z3.is_expr(v1) and z3.is_expr(v2) and v1.sort() != v2.sort():
            v1, v2 = coerce(v1, v2), coerce(v2, v1)
        try:
            return self.merge_into(st, [s1, s2], [v1, v2])
        except MergeFail:
            raise Unsupported("conditional expression over distinct objects")

    def e_LambdaExpr(self, st, n):
        op = None
        for c in n["inner"]:
            if c.get("kind") == "CXXRecordDecl":
                for m in c.get("inner", []):
                    if m.get("kind") == "CXXMethodDecl" and m.get("name") == "operator()": op = m
        if op is None: raise Unsupported("lambda")
        return Func("lambda", (op, n))

    def e_InitListExpr(self, st, n):
        t = self.types.of(n)
        inner = n.get("inner", [])
        m = re.match(r"^(?:const )?(.*)\[(\d+)\]$", n["type"].get("desugaredQualType") or n["type"]["qualType"])
        if m and not isinstance(t, TVec): return self.veclit(TVec(self.types.parse(m.group(1))), [self.ev(st, c) for c in inner])
        if t.scalar and t.sort != JsonS:
            return self.conv(self.ev(st, inner[0]), t) if inner else zero_of(t)
        if isinstance(t, TRec):
            f = {}
            for (k, ft), c in zip(t.fields.items(), inner):
                v = self.ev(st, c)
                f[k] = self.conv(v, ft) if ft.scalar else v
            return Agg(t, f)
        if isinstance(t, TVec):
            return self.veclit(t, [self.ev(st, c) for c in inner])
        if isinstance(t, TFunc) and t.s.startswith("std::"): return zero_of(t)
        raise Unsupported("initialiser list of " + str(t))

    def veclit(self, t, vals):
        v = zero_of(t)
        f = dict(v.f)
        for i, x in enumerate(vals):
            if t.e.scalar: x = self.conv(x, t.e)
            f["e"] = sto(f["e"], z3.IntVal(i), x)
            if "cnt" in f: f["cnt"] = z3.Store(f["cnt"], x, simp_select(f["cnt"], x) + 1)
        f["len"] = z3.IntVal(len(vals))
        return Agg(t, f)

    def e_CXXNewExpr(self, st, n):
        t = self.types.of(n)
        inner = [c for c in n.get("inner", []) if c.get("kind") != "DeclRefExpr"]
        v = self.ev(st, inner[0]) if inner else self.uninit(t.e, "new")
        return Ptr(self.alloc(st, "heap", v))

    def e_UnaryExprOrTypeTraitExpr(self, st, n): return z3.IntVal(8)
    def e_CXXDefaultArgExpr(self, st, n): raise Unsupported("default argument out of call context")

    # constructors ---------------------------------------------------------
    def e_CXXConstructExpr(self, st, n):
        t = self.types.of(n)
        args = n.get("inner", [])
        return self.construct(st, n, t, args)
    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def construct(self, st, n, t, args):
        from . import lib
        ctor = (n.get("ctorType") or {}).get("qualType", "")
        if isinstance(t, TRec) and getattr(t, "node", None) is not None:
            if len(args) == 1:
                at = self.types.of(args[0])
                if isinstance(at, TRef): at = at.e
                if at == t or (isinstance(at, TRec) and at.name == t.name):
                    return self.ev(st, args[0])
            return self.user_ctor(st, n, t, ctor, args)
        return lib.construct(self, st, n, t, args)

    def user_ctor(self, st, n, t, ctor, args):
        node = t.node
        cands = [c for c in node.get("inner", []) if c.get("kind") == "CXXConstructorDecl"]
        cands += [m for c in node.get("inner", []) if c.get("kind") == "FunctionTemplateDecl" for m in c.get("inner", []) if m.get("kind") == "CXXConstructorDecl"]
        def norm(s): return re.sub(r"\s*noexcept.*$", "", s).replace(" ", "")
        pick = [c for c in cands if norm(c["type"]["qualType"]) == norm(ctor)]
        if not pick: pick = [c for c in cands if len(self.ast.params(c)) == len(args)]
        if not pick: raise Unsupported("constructor of " + t.name)
        d = self.ast.definition(pick[0]["id"])
        path = self.alloc(st, t.name, self.uninit(t, t.name))
        if d is None:
            if pick[0].get("isImplicit") or pick[0].get("explicitlyDefaulted"):
                for k, e in t.finit.items():
                    self.write(st, (path[0], (("f", k),)), self.finit(st, t, k))
                return self.read(st, path)
            raise Unsupported("constructor body of " + t.name)
        c = self.bycid.get(d["id"])
        self.invoke(st, d, path, args, n)
        return self.read(st, path)

    def finit(self, st, t, k):
        e = t.finit[k]
        v = self.ev(st, e)
        ft = t.fields[k]
        return self.conv(v, ft) if ft.scalar else v

    # calls -------------------------------------------------------------
    def e_CallExpr(self, st, n):
        from . import lib
        callee = n["inner"][0]
        args = n["inner"][1:]
        f = callee
        while f["kind"] in ("ImplicitCastExpr", "ParenExpr"): f = f["inner"][0]
        if f["kind"] == "DeclRefExpr":
            rd = f["referencedDecl"]
            if rd["id"] in st.env:
                fv = self.read(st, st.env[rd["id"]])
                if isinstance(fv, Func): return self.call_func(st, fv, args, n)
            d = self.ast.definition(rd["id"])
            if rd.get("name") in ("Fatal", "Warning", "Info", "Debug") and rd["kind"] == "CXXMethodDecl":
                if rd["name"] == "Fatal":
                    msg = self.msg(args)
                    self.throw(st, n, msg)
                return None
            if d is not None: return self.invoke(st, d, None, args, n)
            return lib.call(self, st, n, rd, args)
        if f["kind"] == "MemberExpr":
            # static member function called through an object
            d = self.ast.definition(f.get("referencedMemberDecl"))
            if d is not None: return self.invoke(st, d, None, args, n)
        raise Unsupported("indirect call")

    def msg(self, args):
        for a in args:
            x = a
            while x.get("inner") and x["kind"] != "StringLiteral": x = x["inner"][0]
            if x["kind"] == "StringLiteral": return x["value"][:60].strip('"')
        return "error"

    def call_func(self, st, fv, args, n):
        if fv.kind == "lambda":
            op, le = fv.data
            return self.invoke(st, op, st.env.get("this"), args, n)
        if fv.kind == "uf":
            vs = [self.ev(st, a) for a in args]
            return fv.data(*vs)
        if fv.kind == "std":
            vs = [self.ev(st, a) for a in args]
            b = fv.data.split("::")[-1]
            return {"plus": lambda: vs[0] + vs[1], "minus": lambda: vs[0] - vs[1], "multiplies": lambda: vs[0] * vs[1], "less": lambda: vs[0] < vs[1]}[b]()
        if fv.kind == "decl":
            d = self.ast.definition(fv.data["id"])
            if d is not None: return self.invoke(st, d, None, args, n)
        raise Unsupported("call of function value")

    def e_CXXMemberCallExpr(self, st, n):
        from . import lib
        me = n["inner"][0]
        while me["kind"] in ("ParenExpr", "ImplicitCastExpr"): me = me["inner"][0]
        args = n["inner"][1:]
        if me["kind"] != "MemberExpr": raise Unsupported("member call through " + me["kind"])
        base = self.eval(st, me["inner"][0])
        if me.get("isArrow"):
            p = self.rv(st, base)
            if isinstance(p, Iter): path = self.iterpath(st, p, n)
            elif isinstance(p, Ptr):
                if p.path is None or p.path == "undef": raise Unsupported("call through null/unknown pointer")
                path = p.path
            else: raise Unsupported("arrow call")
        else:
            path = self.lv(st, base, "recv")
        d = self.ast.definition(me.get("referencedMemberDecl"))
        if d is not None: return self.invoke(st, d, path, args, n)
        return lib.method(self, st, n, me["name"], path, args)

    def e_CXXOperatorCallExpr(self, st, n):
        from . import lib
        f = n["inner"][0]
        while f["kind"] in ("ImplicitCastExpr", "ParenExpr"): f = f["inner"][0]
        rd = f["referencedDecl"]
        args = n["inner"][1:]
        d = self.ast.definition(rd["id"])
        if rd["name"] == "operator()" or d is None or d.get("isImplicit") or d.get("explicitlyDefaulted"):
            a0 = self.eval(st, args[0])
            v0 = self.rv(st, a0)
            if rd["name"] == "operator()" and isinstance(v0, Func):
                return self.call_func(st, v0, args[1:], n)
            if rd["name"] == "operator=" and isinstance(v0, Agg) and isinstance(v0.t, TRec):
                x = self.ev(st, args[1])
                p = self.lv(st, a0)
                self.write(st, p, x)
                return LV(p)
            if d is not None and not d.get("isImplicit"):
                return self.invoke(st, d, self.lv(st, a0), args[1:], n)
            return lib.operator(self, st, n, rd["name"], a0, args[1:])
        if d["kind"] == "CXXMethodDecl":
            return self.invoke(st, d, self.lv(st, self.eval(st, args[0])), args[1:], n)
        return self.invoke(st, d, None, args, n)

    # invocation of a user function
    retref = [False]

    def bind_args(self, st, d, args, caller_env):
        ps = self.ast.params(d)
        paths = []
        for i, p in enumerate(ps):
            t = self.types.of(p)
            a = args[i] if i < len(args) else None
            if a is None or (isinstance(a, dict) and a.get("kind") == "CXXDefaultArgExpr"):
                ini = self.default_arg(d, i)
                v = self.eval(st, ini)
            elif isinstance(a, dict):
                v = self.eval(st, a)
            else:
                v = a
            if isinstance(t, TRef):
                paths.append(self.lv(st, v, p.get("name", "arg")))
            else:
                x = self.rv(st, v)
                if z3.is_expr(x) and t.scalar: x = self.conv(x, t)
                paths.append(self.alloc(st, p.get("name", "arg"), x))
        return paths

    def default_arg(self, d, i):
        cands = [d]
        if d.get("previousDecl"): cands.append(self.ast.byid.get(d["previousDecl"]))
        for c in cands:
            if not c: continue
            p = self.ast.params(c)[i]
            ini = [x for x in p.get("inner", []) if x.get("kind", "").endswith(("Expr", "Literal", "Operator", "Cleanups"))]
            if ini: return ini[0]
        raise Unsupported("default argument")

    def invoke(self, st, d, this, args, n):
        paths = self.bind_args(st, d, args, None)
        c = self.bycid.get(d["id"])
        if c is not None and not c.inline and not c.inline_calls:
            return self.call_contract(st, d, c, this, paths, n)
        if d["id"] in [x for x in self.callstack]:
            raise Unsupported("recursion without contract: " + d["name"])
        if len(self.callstack) > 12: raise Unsupported("call depth")
        self.inlined.add(d.get("_qn", d["name"]))
        return self.inline(st, d, this, paths, n)

    verifying = []

    def inline(self, st, d, this, paths, n):
        saved = st.env.get("this")
        islambda = "operator()" == d["name"] and "lambda" in d.get("_qn", "") or d.get("name") == "operator()"
        st.env = dict(st.env)
        if this is not None: st.env["this"] = this
        for p, path in zip(self.ast.params(d), paths): st.env[p["id"]] = path
        rt = d["type"]["qualType"]
        self.retref.append(self.returns_ref(d))
        self.callstack.append(d["id"])
        env0 = dict(st.env)
        try:
            if d["kind"] == "CXXConstructorDecl": self.ctor_inits(st, d, this)
            outs = self.exec(st, self.ast.body(d))
        finally:
            self.retref.pop(); self.callstack.pop()
        sts, vals = [], []
        for o in outs:
            if o.kind not in ("normal", "return"): raise Unsupported("stray " + o.kind)
            sts.append(o.st); vals.append(o.val)
        if not sts: raise Dead()
        try:
            m, v = merge(sts, vals)
        except MergeFail:
            raise Unsupported("function %s returns distinct objects on different paths" % d["name"])
        st.set(m)
        st.env = dict(st.env)
        if saved is not None: st.env["this"] = saved
        rty = self.ret_type(d)
        if z3.is_expr(v) and rty is not None and rty.scalar: v = self.conv(v, rty)
        return v

    def ctor_inits(self, st, d, this):
        t = self.read(st, this).t
        done = set()
        for ini in d.get("inner", []):
            if ini.get("kind") != "CXXCtorInitializer": continue
            if "anyInit" in ini:
                nm = ini["anyInit"].get("name")
                e = ini["inner"][0]
                if e["kind"] == "CXXDefaultInitExpr":
                    if nm in t.finit: self.write(st, (this[0], this[1] + (("f", nm),)), self.finit(st, t, nm))
                    done.add(nm); continue
                v = self.ev(st, e)
                ft = t.fields[nm]
                self.write(st, (this[0], this[1] + (("f", nm),)), self.conv(v, ft) if ft.scalar else v)
                done.add(nm)
        for k in t.finit:
            if k not in done: self.write(st, (this[0], this[1] + (("f", k),)), self.finit(st, t, k))

    def returns_ref(self, d):
        q = d["type"].get("desugaredQualType") or d["type"]["qualType"]
        head = self.rettype_str(q)
        return head.rstrip().endswith("&")

    def rettype_str(self, q):
        # text before the parameter list
        dpt = 0
        # find last top-level '(' group before trailing const/noexcept
        m = re.sub(r"\)\s*(const|noexcept|&|&&|\s|noexcept\([^)]*\))*$", ")", q)
        depth = 0
        for i in range(len(m) - 1, -1, -1):
            if m[i] == ")": depth += 1
            elif m[i] == "(":
                depth -= 1
                if depth == 0: return m[:i].strip()
        return q

    def ret_type(self, d):
        if d["kind"] == "CXXConstructorDecl": return VOID
        q = d["type"].get("desugaredQualType") or d["type"]["qualType"]
        h = self.rettype_str(q)
        if h in ("auto", "decltype(auto)"): return None
        return self.types.parse(h)

    def target(self, st, p):
        """path of the object an argument denotes (through pointers)"""
        v = self.read(st, p)
        if isinstance(v, Ptr): return v.path
        return p

    def call_contract(self, st, d, c, this, paths, n):
        self.used_contracts.add(c.name)
        s = Spec(self, st, this, paths)
        if this is not None: s.this
        for i in range(len(paths)):
            try: s.a(i)
            except Unsupported: pass
        if self.cur is not None and self.entry is not None:
            here = Spec(self, st, self.entry_this, self.entry_paths, self.entry)
            for f in self.cur.before_call_facts(here, s, c): st.fact(f)
            for nm, f, cons in self.cur.before_call(here, s, c):      # ghost assertion with what follows from it by definition
                self.oblige(st, f, "before %s: %s" % (d["name"], nm), n, "assert")
                st.fact(f)
                for x in cons: st.fact(x)
        for nm, f in self.named(c.requires(s)):
            self.oblige(st, f, "precondition of %s: %s" % (d["name"], nm), n, "pre")
        old = Spec(self, st.copy(), this, paths)
        # alias check between modified and other arguments
        mods = []
        for m in c.modifies:
            mods.append(this if m == "this" else self.target(st, paths[m]))
        allp = ([this] if this is not None else []) + [self.target(st, p) for p in paths if isinstance(self.types.of(self.ast.params(d)[paths.index(p)]), (TRef, TPtr))]
        for mp in mods:
            for q in allp:
                if q is mp or q is None: continue
                if q[0] == mp[0]:
                    k = 0
                    while k < min(len(q[1]), len(mp[1])) and q[1][k] == mp[1][k]: k += 1
                    if k == min(len(q[1]), len(mp[1])) and not path_eq(q, mp):
                        raise Unsupported("aliasing arguments in call of " + d["name"])
                    if path_eq(q, mp) and allp.count(q) > 1: raise Unsupported("aliasing arguments in call of " + d["name"])
        for mp in mods:
            cur = self.read(st, mp)
            nv = self.havoc(cur, d["name"])
            self.write(st, mp, nv)
            if isinstance(cur, Agg):
                for f in type_facts(cur.t, nv): st.fact(f)
        rt = self.ret_type(d)
        ret = None
        if isinstance(rt, TRef) or isinstance(rt, TPtr):
            ret = c.ret_path(s)
        elif rt is not None and not isinstance(rt, TVoid):
            ret = fresh(rt, "ret_" + d["name"])
            if isinstance(ret, Agg):
                for f in type_facts(rt, ret): st.fact(f)
            elif rt.scalar and rt.unsigned: st.fact(ret >= 0)
        s2 = Spec(self, st, this, paths, old, ret)
        ens = self.named(c.ensures(s2))
        if z3.is_expr(ret) and not z3.is_array(ret):      # a result given by an equation is replaced by its right-hand side
            for nm, f in ens:
                if z3.is_eq(f) and f.arg(0).eq(ret):
                    r2 = self.unname(f.arg(1))
                    if solve.contains(r2, ret, {}): continue
                    ens = [(q, z3.substitute(g, (ret, r2))) for q, g in ens]
                    ret = r2
                    break
        for nm, f in ens:
            st.fact(f)
        if self.cur is not None and self.entry is not None:
            here = Spec(self, st, self.entry_this, self.entry_paths, self.entry)
            here.at = s2
            for f in self.cur.after_call_facts(here, old, c): st.fact(f)
            for nm, f in self.named(self.cur.after_call(here, c)):     # ghost assertion: proved here, then used
                self.oblige(st, f, "after %s: %s" % (d["name"], nm), n, "assert")
                st.fact(f)
        return ret

    def nameval(self, st, v):
        """composite array terms get names (keeps quantifier patterns small)"""
        have = None
        def go(x):
            nonlocal have
            if z3.is_expr(x):
                if z3.is_array(x) and x.num_args() > 0 and x.decl().kind() != z3.Z3_OP_CONST_ARRAY or (z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE):
                    c = self.names.get(x.get_id())
                    if c is None:
                        c = (x, z3.Const(fresh_name("nm"), x.sort()))
                        self.names[x.get_id()] = c
                    f = c[1] == x
                    if have is None: have = {q.get_id() for _, q in st.pc}
                    if f.get_id() not in have:
                        have.add(f.get_id()); st.fact(f)
                    return c[1]
                return x
            if isinstance(x, Agg): return Agg(x.t, {k: go(y) for k, y in x.f.items()})
            return x
        return go(v)

    def unname(self, t, syms=None):
        """names of composite arrays replaced by what they stand for (only those that mention a symbol of syms, when given)"""
        memo = {}
        inv = {c.decl().name(): x for x, c in self.names.values()}
        def full(nm):
            if nm not in memo:
                memo[nm] = None
                x = inv[nm]
                memo[nm] = subst(x)
            return memo[nm]
        def subst(x):
            vs = {}
            todo, seen = [x], set()
            while todo:
                u = todo.pop()
                if u.get_id() in seen: continue
                seen.add(u.get_id())
                if z3.is_quantifier(u): todo.append(u.body()); continue
                if z3.is_const(u) and u.decl().kind() == z3.Z3_OP_UNINTERPRETED and u.decl().name() in inv: vs[u.decl().name()] = u
                elif z3.is_app(u): todo.extend(u.children())
            ps = []
            for nm, u in vs.items():
                y = full(nm)
                if y is None: continue
                if syms is not None:
                    from .loops import symset
                    if not (symset(y, {}) & syms): continue
                ps.append((u, y))
            return z3.substitute(x, *ps) if ps else x
        return subst(t)

    def havoc(self, v, nm):
        if z3.is_expr(v): return z3.Const(fresh_name("h_" + nm), v.sort())
        if isinstance(v, Agg): return Agg(v.t, {k: self.havoc(x, nm + "." + k) for k, x in v.f.items()})
        if isinstance(v, (Func,)): return v
        return UNDEF

    @staticmethod
    def named(fs):
        out = []
        for i, f in enumerate(fs):
            if isinstance(f, tuple): out.append(f)
            else: out.append(("#%d" % i, f))
        return out

    # ------------------------------------------------------------ verification of one function
    def verify(self, d, c):
        """generate the obligations of function d against contract c"""
        self.obls = []
        self.loopmode, self.loopctx, self.loopcache, self.totaldef = [], [], {}, {}
        self.depth = 0
        self.entry = None
        self.cur = c
        self.curdef = d
        self.verifying = [d["id"]]
        self.callstack = []
        self.retref = [self.returns_ref(d)]
        st = State()
        this = None
        if d["kind"] in ("CXXMethodDecl", "CXXConstructorDecl", "CXXConversionDecl") and d.get("storageClass") != "static":
            rec = d.get("_qn").split("::")[-2]
            t = self.types.parse(rec)
            if not isinstance(t, TRec): raise Unsupported("class " + rec)
            if d["kind"] == "CXXConstructorDecl": v = self.uninit(t, "this")
            else: v = fresh(t, "this")
            st.store["this"] = v
            this = ("this", ())
            st.env["this"] = this
            if d["kind"] != "CXXConstructorDecl":
                for f in type_facts(t, v): st.fact(f)
        paths = []
        for i, p in enumerate(self.ast.params(d)):
            t = self.types.of(p)
            nm = "p%d" % i
            base = t.e if isinstance(t, TRef) else t
            if isinstance(base, TPtr):
                tgt = self.param_value(base.e, nm + "_tgt", st, buf=True)
                if isinstance(tgt, tuple): ptr = Ptr((nm + "_tgt", tgt))
                else: ptr = Ptr((nm + "_tgt", ()))
                st.store[nm] = ptr
            else:
                st.store[nm] = self.param_value(base, nm, st)
            path = (nm, ())
            paths.append(path)
            st.env[p["id"]] = path
        s = Spec(self, st, this, paths)
        c.setup(self, st, s)
        for nm, f in self.named(c.requires(s)): st.fact(f)
        pre_hyps = st.hyps()
        for nm, f in self.named(c.lemmas(s)): st.fact(f)
        for nm, guard, claim, meas, defs in c.inductions(s):
            x, y, w = z3.Int(fresh_name("g_ind")), z3.Int(fresh_name("iy")), z3.Int(fresh_name("iw"))
            hy = st.hyps() + list(defs(x)) + [guard(x), forall(y, z3.Implies(z3.And(guard(y), meas(y) < meas(x)), claim(y)))]
            self.obls.append(Obligation("lemma %s: measure is non-negative" % nm, st.hyps() + [guard(x)], meas(x) >= 0, d.get("_l"), "lemma"))
            self.obls.append(Obligation("lemma %s" % nm, hy, claim(x), d.get("_l"), "lemma"))
            st.fact(forall(w, z3.Implies(guard(w), claim(w))))
        old = Spec(self, st.copy(), this, paths)
        self.entry = old
        self.entry_this, self.entry_paths = this, paths
        if d["kind"] == "CXXConstructorDecl": self.ctor_inits(st, d, this)
        outs = self.exec(st, self.ast.body(d))
        rets = [o for o in outs if o.kind in ("normal", "return")]
        self.covers = [("requires", pre_hyps)]
        sts, vals = [o.st for o in rets], [o.val for o in rets]
        self.n_exits = len(sts)
        if sts:
            try:
                m, v = merge(sts, vals); pairs = [(m, v)]
            except MergeFail:
                pairs = list(zip(sts, vals))
        else: pairs = []
        rt = self.ret_type(d)
        for (m, v) in pairs:
            self.covers.append(("exit", m.hyps()))
            if z3.is_expr(v) and rt is not None and rt.scalar: v = self.conv(v, rt)
            if isinstance(v, LV) and not isinstance(rt, (TRef,)): v = self.rv(m, v)
            for i, p in enumerate(self.ast.params(d)):     # a by-value parameter means its entry value in the postcondition
                if not isinstance(self.types.of(p), (TRef, TPtr)): m.store["p%d" % i] = old.st.store["p%d" % i]
            s2 = Spec(self, m, this, paths, old, v)
            c.ghost(self, m, s2)
            for nm, f in self.named(c.exit_facts(s2)): m.fact(f)
            n0 = len(m.pc)
            for nm, f in self.named(c.ensures(s2)):
                self.obls.append(Obligation("ensures " + nm, m.hyps(), f, d.get("_l"), "post"))
                if getattr(c, "cumulative", False): m.fact(f)
            # frame
            modset = set()
            for x in c.modifies: modset.add(x)
            if this is not None and "this" not in modset and d["kind"] != "CXXConstructorDecl":
                a, b = m.store["this"], old.st.store["this"]
                if not same(a, b): self.obls.append(Obligation("frame this", m.hyps(), veq(a, b), d.get("_l"), "frame"))
            for i, p in enumerate(self.ast.params(d)):
                t = self.types.of(p)
                if i in modset or not isinstance(t, (TRef, TPtr)): continue
                base = t.e if isinstance(t, TRef) else t
                r = "p%d_tgt" % i if isinstance(base, TPtr) else "p%d" % i
                if r in m.store and not same(m.store[r], old.st.store[r]):
                    self.obls.append(Obligation("frame arg %d" % i, m.hyps(), veq(m.store[r], old.st.store[r]), d.get("_l"), "frame"))
        return self.obls

    def param_value(self, t, nm, st, buf=False):
        if isinstance(t, TPtr): raise Unsupported("pointer to pointer parameter")
        if isinstance(t, TFunc):
            if t.s.startswith("double (double, double)"):
                return Func("uf", z3.Function("uf_op", Real, Real, Real))
            return UNDEF
        if buf and t.scalar:
            # pointer to scalar: a buffer
            v = fresh(TVec(t), nm)
            st.store[nm] = v
            return (("e", z3.IntVal(0)),)
        v = fresh(t, nm)
        if buf or True:
            st.store[nm] = v
        if isinstance(v, Agg):
            for f in type_facts(t, v): st.fact(f)
        elif t.scalar and t.unsigned: st.fact(v >= 0)
        return v
