"""Attribute documents (C13, C11, C16): nlohmann::json as ghost finite maps, JsonIO over the ghost file system, the public attribute functions."""
from effects import *
from encode import cache_off
import effects

# ------------------------------------------------------------------ ghost documents (trusted contract of nlohmann::json)
# a value is an opaque term; an object maps keys (integers standing for strings) to values
KID = z3.Function("json_key", OBJ, z3.IntSort())
STRK = z3.Function("json_key_str", z3.IntSort(), OBJ)
JH = z3.Function("json_has", OBJ, z3.IntSort(), z3.BoolSort())
JV = z3.Function("json_val", OBJ, z3.IntSort(), OBJ)
JK = z3.Function("json_kind", OBJ, z3.IntSort())          # 0 null, 1 object, others
JN = z3.Function("json_size", OBJ, z3.IntSort())
JNULL = z3.Const("json_null", OBJ)
TYERR = "_ZTIN8nlohmann16json_abi_v3_11_36detail10type_errorE"
ITERR = "_ZTIN8nlohmann16json_abi_v3_11_36detail16invalid_iteratorE"
PARSE = "_ZTIN8nlohmann16json_abi_v3_11_36detail11parse_errorE"
def kid(ex, st, s):
    """key number of a string term: injective"""
    if z3.is_app(s) and s.decl().eq(STRK): return s.arg(0)
    k = KID(s); st.assume(STRK(k) == s); st.ctx.term(k); return k
class J:
    """kind, membership and value of an object, as functions of the key number; n/key/idx enumerate it where known"""
    def __init__(self, t): self.t = t; self.kind = JK(t)
    def has(self, x): return JH(self.t, ival(x))
    def val(self, x): return JV(self.t, ival(x))
def jdef(ex, st, kind, has, val):
    """new value defined by its membership and value functions"""
    t = ex.fresh_obj("json"); st.assume(JK(t) == kind)
    st.ctx.forall(Forall(lambda x: z3.And(JH(t, x) == has(x), z3.Implies(JH(t, x), JV(t, x) == val(x))), 1, "document"))
    return t
def jget(ex, st, p):
    if p.reg in getattr(ex, "jprox", {}):
        par, k = ex.jprox[p.reg]; t = jget(ex, st, par); return JV(t, k)
    if ex.is_arr(st, p): raise Refuse("document inside an array")
    c = st.mem[p.reg].cells.get(p.idx)
    if c is None:
        t = ex.fresh_obj("json"); st.w(p.reg).cells[p.idx] = (16, Opq("json", t)); return t
    if not isinstance(c[1], Opq) or c[1].kind != "json": raise Refuse("document expected")
    return c[1].t
def jset(ex, st, p, t):
    if p.reg in getattr(ex, "jprox", {}):
        par, k = ex.jprox[p.reg]; d = jget(ex, st, par)
        jset(ex, st, par, jdef(ex, st, 1, lambda x: OR(x == k, JH(d, x)), lambda x: z3.If(x == k, t, JV(d, x)))); return
    ex.setcell(st, p.reg, p.idx, 16, Opq("json", t))
def proxy(ex, st, par, k):
    r = ex.new_struct(st, "member")
    if not hasattr(ex, "jprox"): ex.jprox = {}
    ex.jprox[r] = (par, k); return Ptr(r)
def keyarg(ex, st, a, dem):
    """key argument: a string object or a character array"""
    return kid(ex, st, cstr(ex, st, a) if re.search(r"char const", dem[dem.index("("):] if "char const (&)" not in dem else "char const") else sget(ex, st, a))
def lits(dem): return "char const" in dem
def akey(ex, st, a, dem): return kid(ex, st, cstr(ex, st, a) if lits(dem) else sget(ex, st, a))
def split(ex, st, cond, ty, out):
    """the call throws if cond; returns the state in which it does not"""
    cond = simpb(cond)
    if cond is not False and ex.feasible(st, cond):
        th = st.copy(); th.assume(cond); out.append(("throw", th, ty))
    if cond is not False: st.assume(NOT(cond))
def m_jcopy(ex, st, ins, args, dem): jset(ex, st, args[0], jget(ex, st, args[1])); return None
def m_jmove(ex, st, ins, args, dem): t = jget(ex, st, args[1]); jset(ex, st, args[0], t); jset(ex, st, args[1], JNULL); return None
def m_jnull(ex, st, ins, args, dem): st.assume(JK(JNULL) == 0); ex.setcell(st, args[0].reg, args[0].idx, 16, Opq("json", JNULL)); return None
def m_jscalar(ex, st, ins, args, dem):
    """a document holding a scalar or string: an unspecified value that is no object, the same for the same argument"""
    v = args[1]
    if isinstance(v, Ptr): v = sget(ex, st, v) if "string" in dem else cstr(ex, st, v) if "char" in dem else ex.load(st, v, Ty("int", 32)) if "int const&" in dem or "<int&" in dem else None
    t = ex.fresh_obj("scalar") if v is None else z3.Function("json_scalar_%s" % ("s" if isz(v) and v.sort() == OBJ else "i"), OBJ if isz(v) and v.sort() == OBJ else z3.IntSort(), OBJ)(v if isz(v) else ival(v))
    st.assume(JK(t) == 2); ex.setcell(st, args[0].reg, args[0].idx, 16, Opq("json", t)); return None
def m_jempty(ex, st, ins, args, dem):
    if args[2] not in (0,) : raise Refuse("object with initial members")
    ex.setcell(st, args[0].reg, args[0].idx, 16, Opq("json", jdef(ex, st, 1, lambda x: z3.BoolVal(False), lambda x: JNULL))); return None
def m_jassign(ex, st, ins, args, dem): jset(ex, st, args[0], jget(ex, st, args[1])); return args[0]
def m_jcontains(ex, st, ins, args, dem): t = jget(ex, st, args[0]); return z3.And(JK(t) == 1, JH(t, akey(ex, st, args[1], dem)))
def m_jindex(ex, st, ins, args, dem):
    """operator[] of a mutable document: null becomes an object, a missing key gets a null member"""
    k = akey(ex, st, args[1], dem); t = jget(ex, st, args[0]); out = Outcomes()
    split(ex, st, z3.And(JK(t) != 0, JK(t) != 1), TYERR, out)
    st.assume(JK(JNULL) == 0)
    n = jdef(ex, st, 1, lambda x: OR(x == k, z3.And(JK(t) == 1, JH(t, x))), lambda x: z3.If(z3.And(JK(t) == 1, JH(t, x)), JV(t, x), JNULL))
    jset(ex, st, args[0], n); out.append(("ret", st, proxy(ex, st, args[0], k))); return out
def m_jcindex(ex, st, ins, args, dem):
    k = akey(ex, st, args[1], dem); t = jget(ex, st, args[0]); out = Outcomes()
    split(ex, st, JK(t) != 1, TYERR, out)
    ex.oblige(st, "operator[] of a const document: the key exists", JH(t, k))
    out.append(("ret", st, proxy(ex, st, args[0], k))); return out
def m_jerase(ex, st, ins, args, dem):
    k = akey(ex, st, args[1], dem); t = jget(ex, st, args[0]); out = Outcomes()
    split(ex, st, JK(t) != 1, TYERR, out)
    n = jdef(ex, st, 1, lambda x: z3.And(x != k, JH(t, x)), lambda x: JV(t, x))
    c = ex.fresh_int(st, "nerased"); st.assume(c == z3.If(JH(t, k), 1, 0))
    jset(ex, st, args[0], n); out.append(("ret", st, c)); return out
# iterators: (document, position) pairs; an object has keys key(0..n-1), all distinct
def enum(ex, st, t):
    key = ("jenum", t.get_id()); e = st.ghost.get(key)
    if e is None:
        K = basefn("JKEY", 1, None, trig=False); X = basefn("JPOS", 1, None); n = JN(t)
        st.assume(z3.And(n >= 0, n < (1 << 40), z3.Implies(JK(t) == 0, n == 0)))
        st.ctx.forall(Forall(lambda i: z3.Implies(z3.And(JK(t) == 1, i >= 0, i < n), z3.And(JH(t, K(i)), X(K(i)) == i)), 1, "keys of a document", trig=[K.name()]))
        st.ctx.forall(Forall(lambda x: z3.Implies(z3.And(JK(t) == 1, JH(t, x)), z3.And(X(x) >= 0, X(x) < n, K(X(x)) == x)), 1, "every key has a position", trig=[X.name()]))
        e = st.ghost[key] = (n, K, X, t)
    return e
def docptr(ex, p): return p
def setit(ex, st, it, doc, pos):
    ex.setcell(st, it.reg, it.idx, 8, doc); ex.setcell(st, it.reg, it.idx + 8, 8, pos)
def getit(ex, st, it):
    d, p = st.mem[it.reg].cells[it.idx][1], st.mem[it.reg].cells[it.idx + 8][1]
    if not isinstance(d, Ptr): raise Refuse("iterator of an unknown document")
    return d, p
def m_jbegin(ex, st, ins, args, dem): enum(ex, st, jget(ex, st, args[1])); setit(ex, st, args[0], args[1], z3.IntVal(0)); return None
def m_jend(ex, st, ins, args, dem): n = enum(ex, st, jget(ex, st, args[1]))[0]; setit(ex, st, args[0], args[1], n); return None
def m_jfind(ex, st, ins, args, dem):
    t = jget(ex, st, args[1]); n, K, X, _ = enum(ex, st, t); k = akey(ex, st, args[2], dem)
    setit(ex, st, args[0], args[1], z3.If(z3.And(JK(t) == 1, JH(t, k)), X(k), n)); return None
def m_jiteq(ex, st, ins, args, dem):
    (a, p), (b, q) = getit(ex, st, args[0]), getit(ex, st, args[1])
    if not (a.reg == b.reg and a.idx == b.idx): raise Refuse("iterators of different documents")
    r = EQ(p, q); return NOT(r) if "operator!=" in dem else r
def m_jitinc(ex, st, ins, args, dem):
    d, p = getit(ex, st, args[0]); n = enum(ex, st, jget(ex, st, d))[0]
    ex.oblige(st, "iterator is advanced inside the document", z3.And(ival(p) >= 0, ival(p) < n)); setit(ex, st, args[0], d, simp(ival(p) + 1)); return args[0]
def m_jitkey(ex, st, ins, args, dem):
    d, p = getit(ex, st, args[0]); t = jget(ex, st, d); n, K, X, _ = enum(ex, st, t); out = Outcomes()
    ex.oblige(st, "iterator points at an element", z3.And(ival(p) >= 0, ival(p) < n))
    split(ex, st, JK(t) != 1, ITERR, out)
    r = ex.new_struct(st, "key"); k = K(ival(p)); st.ctx.term(k); ex.setcell(st, r, 0, 32, Opq("str", STRK(k))); out.append(("ret", st, Ptr(r))); return out
def m_jitval(ex, st, ins, args, dem):
    d, p = getit(ex, st, args[0]); t = jget(ex, st, d); n, K, X, _ = enum(ex, st, t)
    ex.oblige(st, "iterator points at an element", z3.And(ival(p) >= 0, ival(p) < n))
    return proxy(ex, st, d, K(ival(p)))
def m_jisnull(ex, st, ins, args, dem): return JK(jget(ex, st, args[0])) == 0
def m_jisobject(ex, st, ins, args, dem): return JK(jget(ex, st, args[0])) == 1
def m_jisother(ex, st, ins, args, dem):
    t = jget(ex, st, args[0]); r = z3.Function("json_" + re.search(r"::(is_\w+)\(", dem).group(1), OBJ, z3.BoolSort())(t); st.assume(z3.Implies(r, JK(t) >= 2)); return r
def m_jsize(ex, st, ins, args, dem):
    n = enum(ex, st, jget(ex, st, args[0]))[0]; return n == 0 if "empty()" in dem else n
def m_jcount(ex, st, ins, args, dem): return z3.If(m_jcontains(ex, st, ins, args, dem), z3.IntVal(1), z3.IntVal(0))
def m_jat(ex, st, ins, args, dem):
    k = akey(ex, st, args[1], dem); t = jget(ex, st, args[0]); out = Outcomes()
    split(ex, st, JK(t) != 1, TYERR, out); split(ex, st, z3.Not(JH(t, k)), "_ZTIN8nlohmann16json_abi_v3_11_36detail12out_of_rangeE", out)
    out.append(("ret", st, proxy(ex, st, args[0], k))); return out
def m_jupdate(ex, st, ins, args, dem):
    """update(document, merge_objects = false): the given members replace or extend those of this object"""
    if len(args) > 2 and args[2] not in (0, False): raise Refuse("recursive update")
    t, u = jget(ex, st, args[0]), jget(ex, st, args[1]); out = Outcomes()
    split(ex, st, z3.Or(JK(u) != 1, z3.And(JK(t) != 0, JK(t) != 1)), TYERR, out); h = lambda x: z3.And(JK(t) == 1, JH(t, x))
    jset(ex, st, args[0], jdef(ex, st, 1, lambda x: z3.Or(h(x), JH(u, x)), lambda x: z3.If(JH(u, x), JV(u, x), JV(t, x)))); out.append(("ret", st, None)); return out
# sets and vectors of strings built from literals
def strlist(ex, st, p, n):
    if isz(n): raise Refuse("string list of unknown length")
    return tuple(sget(ex, st, Ptr(p.reg, p.idx + 32 * k)) for k in range(n))
def m_sctor(ex, st, ins, args, dem):
    st.ghost[("strs", args[0].reg, args[0].idx)] = strlist(ex, st, args[1], args[2]); return None
def slist(ex, st, p):
    l = st.ghost.get(("strs", p.reg, p.idx))
    if l is None: raise Refuse("set of unknown origin")
    return l
def m_sbegin(ex, st, ins, args, dem): return sit(ex, st, args[0], 0)
def m_send(ex, st, ins, args, dem): return sit(ex, st, args[0], len(slist(ex, st, args[0])))
def sit(ex, st, s, k):
    key = ("sreg", s.reg, s.idx); r = st.ghost.get(key)
    if r is None:
        l = slist(ex, st, s); r = ex.new_struct(st, "strings"); st.ghost[key] = r
        for i, t in enumerate(l): st.w(r).cells[32 * i] = (32, Opq("str", t))
    return Ptr(r, 32 * k)
def m_sfind(ex, st, ins, args, dem):
    l = slist(ex, st, args[0]); s = sget(ex, st, args[1]); out = Outcomes()
    for k, t in enumerate(l):
        c = simpb(t == s)
        if c is False or not ex.feasible(st, c): continue
        h = st.copy(); h.assume(c); out.append(("ret", h, sit(ex, h, args[0], k)))
    st.assume(z3.And(*[t != s for t in l])); out.append(("ret", st, sit(ex, st, args[0], len(l)))); return out
def m_sit(ex, st, ins, args, dem):
    a = args[0]
    if "operator==" in dem or "operator!=" in dem:
        def p(x): return st.mem[x.reg].cells[x.idx][1]
        u, v = p(a), p(args[1]); r = u.reg == v.reg and u.idx == v.idx; return (not r) if "operator!=" in dem else r
    u = st.mem[a.reg].cells[a.idx][1]
    if "operator*" in dem: return u
    if "operator++" in dem: ex.setcell(st, a.reg, a.idx, 8, Ptr(u.reg, u.idx + 32)); return a
    raise Refuse(dem)
NL = r"nlohmann::json_abi_v3_11_3::"
JMODELS = FSMODELS + [
    (r"^json::basic_json\(decltype\(nullptr\)\)", m_jnull), (r"^json::basic_json\(json const&\)", m_jcopy), (r"^json::basic_json\(json&&\)", m_jmove), (r"^json::basic_json<", m_jscalar), (r"^json::~basic_json", m_nop),
    (r"^json::object\(", m_jempty), (r"^json::operator=\(json\)", m_jassign), (r"^bool json::contains<", m_jcontains), (r"^json::contains\(", m_jcontains),
    (r"^json const& json::operator\[\]<", m_jcindex), (r"^json& json::operator\[\]<", m_jindex), (r"^json::operator\[\]\(string", m_jindex),
    (r"^json::is_null\(\)", m_jisnull), (r"^json::is_object\(\)", m_jisobject), (r"^json::is_\w+\(\)", m_jisother), (r"^json::(size|empty)\(\)", m_jsize), (r"json::count[(<]", m_jcount), (r"json::at[(<]", m_jat), (r"^json::update\(json const&", m_jupdate),
    (r"^json::erase\(string const&\)|^u64 json::erase<", m_jerase), (r"^json::c?begin\(\)", m_jbegin), (r"^json::c?end\(\)", m_jend), (r"json::find(\(string|<)", m_jfind),
    (r"%sdetail::iter_impl<json( const)?>::operator[=!]=<" % NL, m_jiteq), (r"%sdetail::iter_impl<json( const)?>::operator\+\+\(\)" % NL, m_jitinc),
    (r"%sdetail::iter_impl<json( const)?>::key\(\)" % NL, m_jitkey), (r"%sdetail::iter_impl<json( const)?>::value\(\)" % NL, m_jitval),
    (r"^std::set<string.*>::set\(std::initializer_list", m_sctor), (r"^std::set<string.*>::~set", m_nop), (r"^std::set<string.*>::c?begin\(\) const", m_sbegin), (r"^std::set<string.*>::c?end\(\) const", m_send),
    (r"^std::set<string.*>::find\(", m_sfind), (r"^(bool )?std::(operator[=!]=\(std::_Rb_tree_const_iterator<string|_Rb_tree_const_iterator<string >::operator)", m_sit),
    (r"^vec<string>::vector\(std::initializer_list", m_sctor), (r"^vec<string>::~vector", m_nop), (r"^vec<string>::c?begin\(\) const", m_sbegin), (r"^vec<string>::c?end\(\) const", m_send),
]
def jput(ex, st, ins, args, dem):
    s = strm(ex, st, args[0]); t = jget(ex, st, args[1]); w = z3.Bool(fresh("written")); effect(ex, st, "write", s.path)
    out = Outcomes(); th = st.copy(); th.ghost[sk(args[0])] = s.but(ok=z3.BoolVal(False), synced=False); out.append(("throw", th, TYERR))
    st.ghost[sk(args[0])] = s.but(good=z3.And(s.good, w), ok=z3.And(s.ok, w), synced=False, writes=s.writes + (("json", t),)); out.append(("ret", st, args[0])); return out
def jparse(ex, st, ins, args, dem):
    """parses the file behind the stream: the document the file holds, or a parse error (also for a failed stream)"""
    s = strm(ex, st, args[0]); out = Outcomes(); th = st.copy(); jset(ex, th, args[1], ex.fresh_obj("partial")); out.append(("throw", th, PARSE))
    st.assume(s.good); jset(ex, st, args[1], FILEDOC(ver(st), s.path)); out.append(("ret", st, args[0])); return out
def FILEDOC(v, p): return z3.Function("filedoc_%d" % v, OBJ, OBJ)(p)
def m_manip(ex, st, ins, args, dem):
    s = strm(ex, st, args[0]); w = z3.Bool(fresh("put")); st.ghost[sk(args[0])] = s.but(good=z3.And(s.good, w), ok=z3.And(s.ok, w), synced=s.synced); return args[0]
JMODELS += [(r"^%soperator<<\(std::basic_ostream" % NL, jput), (r"^%soperator>>\(std::basic_istream" % NL, jparse),
            (r"^std::basic_ostream<char, .*>& std::operator<< <char", m_manip), (r"^std::basic_ostream<char, .*>::operator<<\(std::basic_ostream", m_manip), (r"^std::setw\(", lambda ex, st, ins, args, dem: args[0])]

# ------------------------------------------------------------------ JsonIO
IO = r"^z5::filesystem::attrs_detail::JsonIO::"
HAS = lambda t, x: z3.And(JK(t) == 1, JH(t, ival(x)))
def io_off(mod):
    """offset of the base path inside JsonIO: where its constructor puts it"""
    if ("io", id(mod)) in LAY: return LAY[("io", id(mod))]
    box = {}
    def setup(ex, st):
        box["r"] = ex.new_struct(st, "io"); p = ex.new_struct(st, "base"); st.w(p).cells[0] = (40, Opq("path", ex.fresh_obj("base"))); return [Ptr(box["r"]), Ptr(p)]
    ex, outs = run_concrete(mod, IO + r"JsonIO\(fspath const&\)", setup, fsmodels())
    o = [k for k, c in outs[0].mem[box["r"]].cells.items() if isinstance(c[1], Opq) and c[1].kind == "path"]
    if len(o) != 1: raise Refuse("layout of JsonIO")
    LAY[("io", id(mod))] = o[0]; return o[0]
def iopath(ex, st, io, name): return PJ(pget(ex, st, Ptr(io.reg, io.idx + io_off(ex.mod))), POF(sget(ex, st, name)))
class JBase(FsBase):
    models = JMODELS
    inline = FsBase.inline + [r"z5::attrs_detail|z5::generic::|filesystem::attrs_detail"]
    def doc(self, ex, st, name="json"):
        t = ex.fresh_obj(name); r = ex.new_struct(st, name); st.w(r).cells[0] = (16, Opq("json", t)); st.assume(JK(t) >= 0); return Ptr(r), t
    def io(self, ex, st):
        r = ex.new_struct(st, "io"); self.base = ex.fresh_obj("base"); st.w(r).cells[io_off(ex.mod)] = (40, Opq("path", self.base)); n = ex.new_struct(st, "name"); self.nm = ex.fresh_obj("name"); st.w(n).cells[0] = (32, Opq("str", self.nm))
        self.path = PJ(self.base, POF(self.nm)); return Ptr(r), Ptr(n)
class JWrite(JBase):
    name = "filesystem::attrs_detail::JsonIO::write"; pattern = IO + r"write\(string const&, json const&\) const"; callees = (); leaf = "write"
    desc = "returns normally only if the whole document was written to base/name and is on storage; touches no other path"
    def setup(self, ex, st):
        self.ready(ex); io, n = self.io(ex, st); self.jp, self.j = self.doc(ex, st)
        ex.fxguard = lambda ex, st, kind, path: [("only base/name is changed", path == self.path)]
        return [io, n, self.jp]
    def post(self, ex, st, st0, ret):
        ss = [s for k, s in st.ghost.items() if k[0] == "strm"]
        if len(ss) != 1: return [("exactly one stream is used", False)]
        s = ss[0]; w = [x for x in s.writes if x[0] == "json"]
        return [("the stream writes base/name", s.path == self.path), ("success is reported only if every byte reached storage", s.ok), ("closed or flushed before success is reported", s.synced),
                ("the document is written once", len(w) == 1 and len(s.writes) == 1), ("the document written is the argument", w[0][1] == self.j if w else False)]
    def exc(self, ex, st, st0, ty):
        ss = [s for k, s in st.ghost.items() if k[0] == "strm"]
        return [("an error is reported only if writing failed", z3.Or(*[z3.Not(s.ok) for s in ss]) if ss else False)]
    def apply(self, ex, st, ins, args):
        p = iopath(ex, st, args[0], args[1]); effect(ex, st, "doc", p, jget(ex, st, args[2])); out = Outcomes()
        for ty in ("_ZTISt13runtime_error", TYERR):
            th = st.copy(); th.ghost["iofail"] = True; out.append(("throw", th, ty))
        out.append(("ret", st, None)); return out
class JWritePretty(JWrite): name = "filesystem::attrs_detail::JsonIO::writePretty"; pattern = IO + r"writePretty\(string const&, json const&\) const"; leaf = "writePretty"
class JRead(JBase):
    name = "filesystem::attrs_detail::JsonIO::read"; pattern = IO + r"read\(string const&, json&\) const"; callees = ()
    desc = "false and document untouched iff base/name does not exist; otherwise the document holds what the file holds, or an error; changes no storage"
    def setup(self, ex, st):
        self.ready(ex); io, n = self.io(ex, st); self.jp, self.j = self.doc(ex, st)
        ex.fxguard = lambda ex, st, kind, path: [("a read changes no storage", False)]
        return [io, n, self.jp]
    def post(self, ex, st, st0, ret):
        r = ex.asbool(ret); r = z3.BoolVal(r) if isinstance(r, bool) else r; t = jget(ex, st, self.jp); e = EXISTS(0, self.path)
        return [("tells whether the document exists", r == e), ("existing: the document of the file", z3.Implies(e, t == FILEDOC(0, self.path))), ("missing: untouched", z3.Implies(z3.Not(e), t == self.j))]
    def exc(self, ex, st, st0, ty): return [("no effect", len(fx(st)) == 0)]
    def apply(self, ex, st, ins, args):
        p = iopath(ex, st, args[0], args[1]); e = EXISTS(ver(st), p); out = Outcomes()
        th = st.copy(); out.append(("throw", th, FSERR))
        if ex.feasible(st, z3.Not(e)): h = st.copy(); h.assume(z3.Not(e)); out.append(("ret", h, False))
        if ex.feasible(st, e):
            st.assume(e); th = st.copy(); jset(ex, th, args[2], ex.fresh_obj("partial")); out.append(("throw", th, PARSE))
            jset(ex, st, args[2], FILEDOC(ver(st), p)); st.ghost["readdocs"] = st.ghost.get("readdocs", ()) + (p,); out.append(("ret", st, True))
        return out
class JExists(JBase):
    name = "filesystem::attrs_detail::JsonIO::exists"; pattern = IO + r"exists\(string const&\) const"; callees = ()
    desc = "whether base/name exists; changes no storage"
    def setup(self, ex, st):
        self.ready(ex); io, n = self.io(ex, st); ex.fxguard = lambda ex, st, kind, path: [("a query changes no storage", False)]; return [io, n]
    def post(self, ex, st, st0, ret): r = ex.asbool(ret); return [("tells whether base/name exists", EQB(r, EXISTS(0, self.path)))]
    def exc(self, ex, st, st0, ty): return [("no effect", len(fx(st)) == 0)]
    def apply(self, ex, st, ins, args): return may_throw(ex, st, FSERR, EXISTS(ver(st), iopath(ex, st, args[0], args[1])))
class JNodeExists(JExists): name = "filesystem::attrs_detail::JsonIO::nodeExists"; pattern = IO + r"nodeExists\(string const&\) const"
JIO = (JExists, JRead, JWrite, JWritePretty)

# ------------------------------------------------------------------ public attribute functions
RESERVED = ("dimensions", "blockSize", "dataType", "compressionType", "compression")
class _Attr(JBase):
    kind = None; callees = JIO
    def node(self, ex, st):
        self.ready(ex); h = self.h = self.handle(ex, st, self.kind)
        zp = lambda n: PJ(h.path, POF(strconst(n))); self.zp = zp; v3 = EXISTS(0, zp("zarr.json"))
        if self.kind == "Dataset":
            off = cache_off(ex.mod); v = ex.fresh_int(st, "cached", 8); st.assume(z3.Or(v == 0, v == 1, v == 255)); st.w(h.p.reg).cells[h.p.idx + off] = (1, v)
            self.z = z3.If(v == 255, z3.Or(EXISTS(0, zp(".zarray")), v3), v == 1)
        else: self.z = z3.Or(EXISTS(0, zp(".zgroup")), v3)
        self.v3 = z3.And(self.z, v3); self.name_ = z3.If(self.v3, zp("zarr.json"), z3.If(self.z, zp(".zattrs"), zp("attributes.json")))
        self.ex0 = EXISTS(0, self.name_); self.D0 = FILEDOC(0, self.name_); self.A = kid(ex, st, strconst("attributes"))
        self.res = [kid(ex, st, strconst(s)) for s in (RESERVED if self.kind == "Dataset" else ("n5",) if self.kind == "File" else ())]
        st.assume(JK(JNULL) == 0); st.assume(z3.And(JK(self.D0) >= 0)); return h
    def writes(self, st): return [e for e in fx(st) if e[0] == "doc"]
    def guard(self): ex_ = self; return lambda ex, st, kind, path: [("attributes change only if the mode permits writing", canw(self.h.mode)), ("only the attribute document of this node is changed", path == self.name_)]
    def has0(self, x): return z3.And(self.ex0, HAS(self.D0, x))
class _WriteAttrs(_Attr):
    op = "write"
    desc = "rejects without effect if the mode forbids writing or a reserved key is given; otherwise merges exactly the given keys into the node's attributes and keeps everything else of the document"
    def setup(self, ex, st):
        h = self.node(ex, st); self.jp, self.j = self.doc(ex, st); ex.fxguard = self.guard(); return [h.p, self.jp]
    def post(self, ex, st, st0, ret):
        w = self.writes(st); x = z3.Int(fresh("key")); st.ctx.term(x); j = self.j; A = self.A
        out = [("returns normally only if the mode permits writing", canw(self.h.mode))] + [("reserved keys are never written", z3.Implies(z3.Not(self.z), z3.Not(HAS(j, k)))) for k in self.res]
        if len(w) != 1 or len(fx(st)) != 1: return out + [("the document is written exactly once", False)]
        D = w[0][2]; h0 = self.has0(x); v0 = JV(self.D0, x); v2 = z3.Not(self.v3)
        out += [("the keys are the old and the given ones", z3.Implies(v2, HAS(D, x) == z3.Or(h0, HAS(j, x)))), ("given keys get the given values", z3.Implies(z3.And(v2, HAS(j, x)), JV(D, x) == JV(j, x))),
                ("other keys keep their values", z3.Implies(z3.And(v2, h0, z3.Not(HAS(j, x))), JV(D, x) == v0))]
        T = JV(D, A); T0 = JV(self.D0, A); a0 = z3.And(self.has0(A), HAS(T0, x)); v3 = self.v3
        out += [("v3: the members other than attributes stay", z3.Implies(z3.And(v3, x != A), z3.And(HAS(D, x) == h0, z3.Implies(h0, JV(D, x) == v0)))), ("v3: attributes exist", z3.Implies(v3, HAS(D, A))),
                ("v3: the attribute keys are the old and the given ones", z3.Implies(v3, HAS(T, x) == z3.Or(a0, HAS(j, x)))), ("v3: given keys get the given values", z3.Implies(z3.And(v3, HAS(j, x)), JV(T, x) == JV(j, x))),
                ("v3: other attributes keep their values", z3.Implies(z3.And(v3, a0, z3.Not(HAS(j, x))), JV(T, x) == JV(T0, x)))]
        return out
    def exc(self, ex, st, st0, ty): return [("an error before the document was written leaves storage untouched", True if st.ghost.get("iofail") else len(fx(st)) == 0)]
    def cands(self, ex, ci):
        out = []; j = self.j; e = [v for k, v in ci.S.ghost.items() if isinstance(k, tuple) and k[0] == "jenum" and v[3].eq(j)]
        if not e: return out
        n, K, X, _ = e[0]
        for pr, po, psz, v in ci.int_cells():
            pos = ci.getter(pr, po); out.append(Cand("position is valid", lambda ex, st, pos=pos: z3.And(pos(st) >= 0, pos(st) <= n)))
            for r, o, s in ci.obj_cells("json"):
                E = s(ci.S); done = lambda st, x, pos=pos: z3.And(HAS(j, x), X(ival(x)) < pos(st))
                out.append(Cand("document is an object", lambda ex, st, s=s: JK(s(st)) == 1))
                out.append(Cand("document is null or an object", lambda ex, st, s=s, E=E: z3.Or(JK(s(st)) == JK(E), z3.And(JK(s(st)) == 1, JK(E) == 0))))
                out.append(Cand("keys merged so far", None, forall=lambda ex, st, s=s, E=E, done=done: (lambda t, st: lambda x: HAS(t, x) == z3.Or(HAS(E, x), done(st, x)))(s(st), st)))
                out.append(Cand("values merged so far", None, forall=lambda ex, st, s=s, E=E, done=done: (lambda t, st: lambda x: z3.Implies(HAS(t, x), JV(t, ival(x)) == z3.If(done(st, x), JV(j, ival(x)), JV(E, ival(x)))))(s(st), st)))
        return out
class _RemoveAttr(_Attr):
    op = "remove"
    desc = "rejects without effect if the mode forbids writing or the key is reserved; otherwise deletes exactly the given key from the node's attributes"
    def setup(self, ex, st):
        h = self.node(ex, st); k = ex.new_struct(st, "key"); self.ks = ex.fresh_obj("key"); st.w(k).cells[0] = (32, Opq("str", self.ks)); self.k = kid(ex, st, self.ks); ex.fxguard = self.guard(); return [h.p, Ptr(k)]
    def post(self, ex, st, st0, ret):
        w = self.writes(st); x = z3.Int(fresh("key")); st.ctx.term(x); A = self.A; k = self.k
        out = [("returns normally only if the mode permits writing", canw(self.h.mode))] + [("reserved keys are never removed", z3.Implies(z3.Not(self.z), k != r)) for r in self.res]
        v3 = self.v3; T0 = JV(self.D0, A); present = z3.If(v3, z3.And(self.has0(A), HAS(T0, k)), self.has0(k))
        if not fx(st): return out + [("nothing is done only if the attribute is absent", z3.Not(present))]
        if len(w) != 1 or len(fx(st)) != 1: return out + [("the document is written at most once", False)]
        D = w[0][2]; h0 = self.has0(x); v0 = JV(self.D0, x); v2 = z3.Not(v3); T = JV(D, A)
        return out + [("exactly the given key is deleted", z3.Implies(v2, HAS(D, x) == z3.And(h0, x != k))), ("other keys keep their values", z3.Implies(z3.And(v2, h0, x != k), JV(D, x) == v0)),
            ("v3: the other members stay", z3.Implies(z3.And(v3, x != A), z3.And(HAS(D, x) == h0, z3.Implies(h0, JV(D, x) == v0)))),
            ("v3: exactly the given attribute is deleted", z3.Implies(z3.And(v3, self.has0(A)), HAS(T, x) == z3.And(HAS(T0, x), x != k))), ("v3: other attributes keep their values", z3.Implies(z3.And(v3, self.has0(A), HAS(T0, x), x != k), JV(T, x) == JV(T0, x)))]
    def exc(self, ex, st, st0, ty): return [("an error before the document was written leaves storage untouched", True if st.ghost.get("iofail") else len(fx(st)) == 0)]
class _ReadAttrs(_Attr):
    op = "read"
    desc = "yields exactly the user attributes of the node (v3: the attributes member; n5 datasets: without the format's metadata); changes no storage"
    def setup(self, ex, st):
        h = self.node(ex, st); self.jp, self.j = self.doc(ex, st); st.assume(z3.Or(JK(self.j) == 0, JK(self.j) == 1)); ex.fxguard = lambda ex, st, kind, path: [("a read changes no storage", False)]; return [h.p, self.jp]
    def post(self, ex, st, st0, ret):
        t = jget(ex, st, self.jp); x = z3.Int(fresh("key")); st.ctx.term(x); v3 = self.v3; A = self.A; T0 = JV(self.D0, A); hid = z3.And(z3.Not(self.z), z3.Or(*[x == r for r in self.res])) if self.kind == "Dataset" else z3.BoolVal(False)
        has = lambda x: z3.If(v3, z3.And(self.has0(A), HAS(T0, x)), self.has0(x)); val = lambda x: z3.If(v3, JV(T0, x), JV(self.D0, x)); some = z3.If(v3, self.has0(A), self.ex0)
        out = [("format metadata is never exposed", z3.Not(z3.And(z3.Not(self.z), HAS(t, r)))) for r in (self.res if self.kind == "Dataset" else ())]
        return out + [("exactly the user's keys", z3.Implies(some, HAS(t, x) == z3.And(has(x), z3.Not(hid)))), ("values as stored", z3.Implies(z3.And(some, HAS(t, x)), JV(t, x) == val(x))), ("no attributes: untouched, or without format metadata", z3.Implies(z3.And(z3.Not(some), HAS(t, x)), z3.And(HAS(self.j, x), JV(t, x) == JV(self.j, x))))]
    def exc(self, ex, st, st0, ty): return [("no effect", len(fx(st)) == 0)]
def _mka(base, kind):
    op = {"write": "writeAttributes", "remove": "removeAttribute", "read": "readAttributes"}[base.op]; bt = "Group" if kind == "File" and base.op == "read" else kind
    return type(base.__name__[1:] + kind, (base,), dict(kind=kind, name="z5::%s(%s)" % (op, kind), pattern=r"^void z5::%s<z5::filesystem::handle::%s>\(z5::handle::%s<" % (op, kind, bt)))
for _b in (_WriteAttrs, _RemoveAttr, _ReadAttrs):
    for _k in ("Group", "File", "Dataset"):
        _c = _mka(_b, _k); globals()[_c.__name__] = _c
del _b, _k, _c
ATTRS = [globals()[b + k] for b in ("WriteAttrs", "RemoveAttr", "ReadAttrs") for k in ("Group", "File", "Dataset")]
