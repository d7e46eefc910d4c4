"""C++ type strings -> semantic types, and symbolic values over those types.

Scalars are z3 terms; aggregates are immutable Python trees whose leaves are z3
terms.  A value "lifted" to depth d has every leaf turned into a d-fold array
(this is how vectors of records / vectors of vectors are represented)."""
import re, z3

z3.set_option(warning=False)
Int, Real, Bool = z3.IntSort(), z3.RealSort(), z3.BoolSort()
StrS = z3.DeclareSort("Str")
JsonS = z3.DeclareSort("Json")
_opaque = {}

class Unsupported(Exception):
    pass

class T:
    scalar = False
    def __eq__(self, o): return repr(self) == repr(o)
    def __hash__(self): return hash(repr(self))

class TScal(T):
    scalar = True
    def __init__(self, sort, name, unsigned=False, enum=None):
        self.sort, self.name, self.unsigned, self.enum = sort, name, unsigned, enum
    def __repr__(self): return self.name

INT = TScal(Int, "int"); UINT = TScal(Int, "uint", True); REAL = TScal(Real, "real"); BOOL = TScal(Bool, "bool")
STR = TScal(StrS, "str"); JSON = TScal(JsonS, "json")

GHOST = {"Tree": {"g_depth": TScal(z3.ArraySort(Int, Int), "ghost_map")}}   # ghost fields added to records

class TVoid(T):
    def __repr__(self): return "void"
VOID = TVoid()
class TRec(T):
    def __init__(self, name, fields=None):
        self.name, self._fields = name, fields
    def __repr__(self): return "rec:" + self.name
    @property
    def fields(self):
        return self._fields
class TVec(T):
    def __init__(self, e): self.e = e
    def __repr__(self): return "vec<%r>" % self.e
class TMat(T):
    def __init__(self, vector=False): self.vector = vector
    def __repr__(self): return "mat"
class TPtr(T):
    def __init__(self, e): self.e = e
    def __repr__(self): return "ptr<%r>" % self.e
class TUptr(T):
    def __init__(self, e): self.e = e
    def __repr__(self): return "uptr<%r>" % self.e
class TMap(T):
    def __init__(self, k, v): self.k, self.v = k, v
    def __repr__(self): return "map<%r,%r>" % (self.k, self.v)
class TIter(T):
    def __init__(self, c): self.c = c
    def __repr__(self): return "iter<%r>" % self.c
class TFunc(T):
    def __init__(self, s=""): self.s = s
    def __repr__(self): return "func"
class TOpaque(T):
    scalar = True
    def __init__(self, name):
        self.name = name
        if name not in _opaque: _opaque[name] = z3.DeclareSort("Op_" + re.sub(r"\W+", "_", name))
        self.sort = _opaque[name]
    unsigned = False; enum = None
    def __repr__(self): return "op:" + self.name
class TRef(T):
    def __init__(self, e, const): self.e, self.const = e, const
    def __repr__(self): return "ref<%r>" % self.e

INTNAMES = {"int", "long", "short", "char", "signed", "long long", "long int", "std::int32_t", "int32_t", "int64_t", "std::int64_t",
            "data_size_t", "node_t", "Index", "Eigen::Index", "ptrdiff_t", "difference_type", "std::ptrdiff_t", "comm_size_t", "__int128", "signed char", "int8_t", "std::int8_t"}
UINTNAMES = {"unsigned", "unsigned int", "unsigned long", "unsigned long long", "unsigned char", "unsigned short", "size_t", "std::size_t", "size_type",
             "uint32_t", "uint64_t", "uint8_t", "std::uint32_t", "std::uint64_t", "std::uint8_t", "result_type", "uint_fast32_t"}

def split_args(s):
    out, d, cur = [], 0, ""
    for ch in s:
        if ch in "<(": d += 1
        if ch in ">)": d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip()); cur = ""
        else:
            cur += ch
    if cur.strip(): out.append(cur.strip())
    return out

class Types:
    def __init__(self, ast):
        self.ast = ast
        self.cache = {}
        self.recs = {}

    def of(self, node):
        t = node.get("type", {})
        return self.parse(t.get("desugaredQualType") or t.get("qualType") or "void")

    def parse(self, s):
        s = s.strip()
        if s in self.cache: return self.cache[s]
        r = self._parse(s)
        self.cache[s] = r
        return r

    def _parse(self, s):
        s = re.sub(r"^(const|volatile|struct|class|enum|typename)\s+", "", s).strip()
        while re.match(r"^(const|volatile|struct|class|enum|typename)\s+", s):
            s = re.sub(r"^(const|volatile|struct|class|enum|typename)\s+", "", s).strip()
        if s.endswith("&&"): return TRef(self.parse(s[:-2]), False)
        if s.endswith("&"): return TRef(self.parse(s[:-1]), s[:-1].strip().startswith("const") or s[:-1].strip().endswith("const"))
        if s.endswith("const") and s[:-5].endswith((" ", "*", "&", ">")): return self.parse(s[:-5])
        if s.endswith("*"):
            return TPtr(self.parse(s[:-1]))
        if s == "void": return VOID
        if s in ("bool", "_Bool"): return BOOL
        if s in ("double", "float", "Scalar", "RealScalar", "CoeffReturnType", "long double"): return REAL
        if s in INTNAMES: return INT
        if s in UINTNAMES: return UINT
        if s in self.ast.enums or s.split("::")[-1] in self.ast.enums and "<" not in s:
            return TScal(Int, "int", False, s.split("::")[-1])
        m = re.match(r"^([\w:]+)\s*<(.*)>((?:::\w+)*)$", s)
        if m:
            base, args, tail = m.group(1), split_args(m.group(2)), m.group(3)
            b = base.split("::")[-1]
            if tail in ("::iterator", "::const_iterator"):
                return TIter(self.parse("%s<%s>" % (base, m.group(2))))
            if tail in ("::size_type",): return UINT
            if tail in ("::value_type", "::reference", "::const_reference"):
                c = self.parse("%s<%s>" % (base, m.group(2)))
                if isinstance(c, TVec): return c.e if tail == "::value_type" else TRef(c.e, False)
            if tail == "":
                if b == "vector" or b == "deque" or b == "stack" or b == "initializer_list": return TVec(self.parse(args[0]))
                if b in ("unique_ptr", "shared_ptr"): return TUptr(self.parse(args[0]))
                if b in ("map", "unordered_map"): return TMap(self.parse(args[0]), self.parse(args[1]))
                if b in ("set", "unordered_set"): return TMap(self.parse(args[0]), BOOL)
                if b == "pair": return self.pair(self.parse(args[0]), self.parse(args[1]))
                if b == "tuple": return TRec("tuple<%s>" % ",".join(args), {"_%d" % i: self.parse(a) for i, a in enumerate(args)})
                if b == "array": return TVec(self.parse(args[0]))
                if b == "basic_string": return STR
                if b == "basic_json" or b == "json_ref": return JSON
                if b == "function": return TFunc(args[0])
                if b in ("plus", "minus", "multiplies", "less", "greater"): return TFunc("std::" + b)
                if b == "__normal_iterator":
                    return TIter(self.parse(args[1]))
                if b in ("_Rb_tree_iterator", "_Rb_tree_const_iterator"): return TIter(TOpaque("maptree"))
                if b == "Matrix" : return TMat(len(args) > 2 and args[2] == "1")
                if b in ("Map", "Ref") and args and "Matrix" in args[0]:
                    inner = self.parse(args[0]); return inner
        if s in ("std::string", "string"): return STR
        if s in ("json", "nlohmann::json"): return JSON
        if s in ("Eigen::MatrixXd", "MatrixXd"): return TMat()
        if s in ("Eigen::VectorXd", "VectorXd"): return TMat(True)
        if "(lambda at" in s: return TFunc(s)
        nm = s.split("::")[-1]
        if "<" not in s and nm in self.ast.records:
            return self.record(nm)
        return TOpaque(s)

    def pair(self, a, b):
        return TRec("pair<%r,%r>" % (a, b), {"first": a, "second": b})

    def record(self, nm):
        if nm in self.recs: return self.recs[nm]
        t = TRec(nm, {})
        self.recs[nm] = t
        cands = self.ast.records[nm]
        node = cands[0]
        fields = {}
        t.node = node
        t.bases = []
        for b in node.get("bases", []):
            bt = self.parse(b["type"].get("desugaredQualType") or b["type"]["qualType"])
            if isinstance(bt, TRec):
                t.bases.append(bt)
                fields.update(bt.fields)
        t.finit = {}
        for c in node.get("inner", []):
            if c.get("kind") == "FieldDecl" and c.get("name"):
                fields[c["name"]] = self.of(c)
                ini = [x for x in c.get("inner", []) if x.get("kind", "").endswith(("Expr", "Literal", "Operator"))]
                if ini: t.finit[c["name"]] = ini[0]
        fields.update(GHOST.get(nm, {}))
        t._fields = fields
        return t

# ---------------------------------------------------------------- values
class Val:
    pass

class Agg(Val):
    """aggregate: t (type) and f (dict of leaf/aggregate children)"""
    __slots__ = ("t", "f")
    def __init__(self, t, f):
        object.__setattr__(self, "t", t); object.__setattr__(self, "f", f)
    def __getattr__(self, k):
        f = object.__getattribute__(self, "f")
        if k in f:
            v = f[k]
            return v
        # unique_ptr: transparent access to the pointee
        if isinstance(self.t, TUptr) and k not in ("null",):
            return getattr(f["v"], k)
        raise Unsupported("no field %s in %r" % (k, self.t))
    def __getitem__(self, i):
        if isinstance(self.t, TVec):
            return sel(self.f["e"], i if z3.is_expr(i) else z3.IntVal(i))
        if isinstance(self.t, TMat):
            if isinstance(i, tuple):
                return z3.Select(z3.Select(self.f["a"], toi(i[0])), toi(i[1]))
            return z3.Select(z3.Select(self.f["a"], toi(i)), z3.IntVal(0))
        if isinstance(self.t, TMap):
            return sel(self.f["val"], toi(i))
        raise Unsupported("index of %r" % self.t)
    def get(self, k):
        return self.f[k]
    def __repr__(self): return "Agg(%r)" % (self.t,)

def toi(i):
    return i if z3.is_expr(i) else z3.IntVal(i)

class Ptr(Val):
    """pointer to a path (None = null, "undef" = unknown)"""
    __slots__ = ("path",)
    def __init__(self, path): self.path = path
class Iter(Val):
    __slots__ = ("path", "idx", "kind")
    def __init__(self, path, idx, kind="vec"): self.path, self.idx, self.kind = path, idx, kind
class Func(Val):
    __slots__ = ("kind", "data")
    def __init__(self, kind, data): self.kind, self.data = kind, data
class Undef(Val):
    pass
UNDEF = Undef()

def children(t):
    """component types of aggregate type: name -> (type, extra depth)"""
    if isinstance(t, TRec): return {k: (v, 0) for k, v in t.fields.items()}
    if isinstance(t, TVec):
        d = {"len": (INT, 0), "e": (t.e, 1)}
        if t.e.scalar and t.e.sort == Int: d["cnt"] = (INT, 1)
        return d
    if isinstance(t, TMat): return {"rows": (INT, 0), "cols": (INT, 0), "a": (REAL, 2)}
    if isinstance(t, TUptr): return {"null": (BOOL, 0), "v": (t.e, 0)}
    if isinstance(t, TMap): return {"has": (BOOL, 1), "val": (t.v, 1), "size": (INT, 0)}
    return None

def arr_sort(s, d):
    for _ in range(d): s = z3.ArraySort(Int, s)
    return s

_n = [0]
def fresh_name(b):
    _n[0] += 1
    return "%s!%d" % (b, _n[0])

def fresh_count(): return _n[0]

def keysort(t):
    return t.sort if t.scalar else Int

def fresh(t, name, depth=0):
    if t.scalar:
        return z3.Const(fresh_name(name), arr_sort(t.sort, depth))
    if isinstance(t, (TPtr, TFunc, TIter)):
        return UNDEF
    if isinstance(t, TMap):
        ks = keysort(t.k)
        if ks != Int and depth == 0:
            return Agg(t, {"has": z3.Const(fresh_name(name + ".has"), z3.ArraySort(ks, Bool)),
                           "val": _fresh_map_val(t, name, ks), "size": z3.Const(fresh_name(name + ".size"), Int)})
    ch = children(t)
    if ch is None: raise Unsupported("fresh of %r" % t)
    return Agg(t, {k: fresh(ct, name + "." + k, depth + ed) for k, (ct, ed) in ch.items()})

def _fresh_map_val(t, name, ks):
    if t.v.scalar: return z3.Const(fresh_name(name + ".val"), z3.ArraySort(ks, t.v.sort))
    raise Unsupported("map value type %r with key %r" % (t.v, t.k))

_default_scal = {}
def zero_of(t, depth=0):
    """value-initialised"""
    if t.scalar:
        if t.sort == Int: b = z3.IntVal(0)
        elif t.sort == Real: b = z3.RealVal(0)
        elif t.sort == Bool: b = z3.BoolVal(False)
        elif t.sort == StrS: b = z3.Const("str_empty", StrS)
        elif t.sort == JsonS: b = z3.Const("json_null", JsonS)
        elif isinstance(t.sort, z3.ArraySortRef): b = z3.K(Int, z3.IntVal(0))
        else: b = z3.Const(fresh_name("opq"), t.sort)
        s = t.sort
        for _ in range(depth):
            b = z3.K(Int, b)
        return b
    if isinstance(t, (TPtr,)): return Ptr(None)
    if isinstance(t, (TFunc, TIter)): return Func("std", t.s) if isinstance(t, TFunc) and t.s.startswith("std::") else UNDEF
    if isinstance(t, TUptr):
        return Agg(t, {"null": zl(z3.BoolVal(True), depth), "v": fresh(t.e, "nullptr", depth)})
    if isinstance(t, TVec):
        d = {"len": zl(z3.IntVal(0), depth), "e": fresh(t.e, "emptyvec", depth + 1)}
        if "cnt" in children(t): d["cnt"] = zl(z3.IntVal(0), depth + 1)
        return Agg(t, d)
    if isinstance(t, TMat):
        return Agg(t, {"rows": zl(z3.IntVal(0), depth), "cols": zl(z3.IntVal(1 if t.vector else 0), depth), "a": fresh(REAL, "emptymat", depth + 2)})
    if isinstance(t, TMap):
        ks = keysort(t.k)
        v = fresh(t, "emptymap", depth)
        f = dict(v.f); f["size"] = zl(z3.IntVal(0), depth)
        if depth == 0: f["has"] = z3.K(ks, z3.BoolVal(False))
        else: f["has"] = zl(z3.BoolVal(False), depth + 1)
        return Agg(t, f)
    ch = children(t)
    return Agg(t, {k: zero_of(ct, depth + ed) for k, (ct, ed) in ch.items()})

def zl(b, depth):
    for _ in range(depth): b = z3.K(Int, b)
    return b

def lift(v, n):
    """constant lifting of a value: K(v)"""
    return vmap(lambda a: z3.K(Int, a), v)

def vmap(f, *vs):
    v = vs[0]
    if z3.is_expr(v): return f(*vs)
    if isinstance(v, Agg):
        return Agg(v.t, {k: vmap(f, *[w.f[k] for w in vs]) for k in v.f})
    if isinstance(v, (Undef, Func)): return v
    raise Unsupported("container of %s" % type(v).__name__)

def simp_select(a, i):
    # read-over-write at syntactically equal / distinct-literal indices
    while z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE and a.num_args() == 3:
        j = a.arg(1)
        if j.eq(i): return a.arg(2)
        if z3.is_int_value(i) and z3.is_int_value(j) and i.as_long() != j.as_long():
            a = a.arg(0); continue
        d = z3.simplify(i - j) if i.sort() == Int and j.sort() == Int else None
        if d is not None and z3.is_int_value(d):
            if d.as_long() == 0: return a.arg(2)
            a = a.arg(0); continue
        break
    if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_CONST_ARRAY: return a.arg(0)
    return z3.Select(a, i)

def sel(v, i): return vmap(lambda a: simp_select(a, i), v)
def sto(v, i, x): return vmap(lambda a, b: z3.Store(a, i, b), v, x)

def coerce(x, like):
    """int <-> real coercion so that z3 sorts agree"""
    if z3.is_expr(x) and z3.is_expr(like) and x.sort() != like.sort():
        if like.sort() == Real and x.sort() == Int: return z3.ToReal(x)
    return x

class MergeFail(Exception):
    pass

def vite(c, a, b):
    if a is b: return a
    if z3.is_expr(a) and z3.is_expr(b):
        if a.eq(b): return a
        return z3.If(c, a, b)
    if isinstance(a, Undef) or isinstance(b, Undef):
        return UNDEF
    if isinstance(a, Agg) and isinstance(b, Agg):
        return Agg(a.t, {k: vite(c, a.f[k], b.f[k]) for k in a.f})
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if path_eq(a.path, b.path): return a
        raise MergeFail()
    if isinstance(a, Iter) and isinstance(b, Iter):
        if path_eq(a.path, b.path): return Iter(a.path, vite(c, a.idx, b.idx), a.kind)
        raise MergeFail()
    if isinstance(a, Func) and isinstance(b, Func) and a.kind == b.kind and a.data is b.data: return a
    raise MergeFail()

def path_eq(p, q):
    if p is None or q is None: return p is q
    if p == "undef" or q == "undef": return False
    if p[0] != q[0] or len(p[1]) != len(q[1]): return False
    for a, b in zip(p[1], q[1]):
        if a[0] != b[0]: return False
        for x, y in zip(a[1:], b[1:]):
            if z3.is_expr(x):
                if not (z3.is_expr(y) and x.eq(y)): return False
            elif x != y: return False
    return True

def leaves(v, pre=()):
    """iterate (path, term) over z3 leaves"""
    if z3.is_expr(v): yield pre, v
    elif isinstance(v, Agg):
        for k in v.f: yield from leaves(v.f[k], pre + (k,))
    elif isinstance(v, Iter): yield pre + ("@idx",), v.idx
    else: yield pre, v

def veq(a, b):
    """extensional equality formula"""
    if z3.is_expr(a): return a == coerce(b, a)
    if isinstance(a, Agg):
        cs = [veq(a.f[k], b.f[k]) for k in a.f]
        cs = [c for c in cs if not z3.is_true(c)]
        return z3.And(*cs) if cs else z3.BoolVal(True)
    if isinstance(a, (Undef, Func)): return z3.BoolVal(True)
    if isinstance(a, Ptr): return z3.BoolVal(path_eq(a.path, b.path))
    if isinstance(a, Iter): return z3.And(z3.BoolVal(path_eq(a.path, b.path)), a.idx == b.idx)
    raise Unsupported("veq")

def same(a, b):
    """syntactic identity"""
    if a is b: return True
    if z3.is_expr(a): return z3.is_expr(b) and a.eq(b)
    if isinstance(a, Agg): return isinstance(b, Agg) and all(same(a.f[k], b.f[k]) for k in a.f)
    if isinstance(a, Ptr): return isinstance(b, Ptr) and path_eq(a.path, b.path)
    if isinstance(a, Iter): return isinstance(b, Iter) and path_eq(a.path, b.path) and a.idx.eq(b.idx)
    return a is b

_multi_pattern, _alive = z3.MultiPattern, []
def _keep(*ts):
    """z3's binding lets the terms of a pattern die before the quantifier is built"""
    m = _multi_pattern(*ts)
    _alive.append((ts, m))
    return m
z3.MultiPattern = _keep

def forall(vs, body, patterns=()):
    if not isinstance(vs, (list, tuple)): vs = [vs]
    try: return z3.ForAll(list(vs), body, patterns=list(patterns))
    except z3.Z3Exception: return z3.ForAll(list(vs), body)

def type_facts(t, v, depth=0):
    """facts every value of the type satisfies"""
    out = []
    def go(t, v, idx):
        if t.scalar or not isinstance(v, Agg): 
            if t.scalar and t.unsigned and z3.is_expr(v):
                e = app(v, idx)
                out.append(q(idx, e >= 0, e))
            return
        if isinstance(t, TVec):
            l = app(v.f["len"], idx)
            out.append(q(idx, l >= 0, l))
            if "cnt" in v.f:
                x = z3.Int(fresh_name("qx")); i = z3.Int(fresh_name("qi"))
                c = app(v.f["cnt"], idx); e = app(v.f["e"], idx)
                out.append(forall(idx + [x], z3.Select(c, x) >= 0, patterns=[z3.Select(c, x)]))
                out.append(forall(idx + [i], z3.Implies(z3.And(0 <= i, i < l), z3.Select(c, z3.Select(e, i)) >= 1), patterns=[z3.Select(e, i)]))
                out.append(forall(idx + [x], z3.Select(c, x) <= l, patterns=[z3.Select(c, x)]))
            j = z3.Int(fresh_name("qj"))
            go(t.e, v.f["e"], idx + [j])
            return
        if isinstance(t, TMat):
            out.append(q(idx, z3.And(app(v.f["rows"], idx) >= 0, app(v.f["cols"], idx) == 1 if t.vector else app(v.f["cols"], idx) >= 0), app(v.f["rows"], idx)))
            return
        if isinstance(t, TMap):
            return
        for k, (ct, ed) in children(t).items():
            go(ct, v.f[k], idx)
    def app(a, idx):
        for i in idx: a = simp_select(a, i)
        return a
    def q(idx, f, pat):
        if not idx: return f
        return forall(idx, f, patterns=[pat] if z3.is_app(pat) and pat.num_args() > 0 else [])
    go(t, v, [])
    return out
