"""Dataset metadata (C12): DatasetMetadata and its documents, over the ghost documents of attrs.py."""
from attrs import *
import attrs
ELEM.setdefault("std::map", ("opq", "map", 48))
# kinds of documents: the numbering of nlohmann (integers signed or not are one kind: 5)
NULL_, OBJECT, ARRAY, STRING, BOOL, INT, FLT = 0, 1, 2, 3, 4, 5, 7
JSTR = z3.Function("json_str", OBJ, OBJ)
JNUM = z3.Function("json_num", OBJ, z3.IntSort())
JDBL = z3.Function("json_dbl", OBJ, z3.IntSort())       # the double a number converts to
JEL = z3.Function("json_elem", OBJ, z3.IntSort(), OBJ)
I2D = z3.Function("int_to_double", z3.IntSort(), z3.IntSort())
JBIT = z3.Function("json_unsigned", OBJ, z3.BoolSort())
def jput_(ex, st, p, t): ex.setcell(st, p.reg, p.idx, 16, Opq("json", t)); return None
def mk(ex, st, kind, *facts):
    t = ex.fresh_obj("json"); st.assume(JK(t) == kind)
    for f in facts: st.assume(f(t))
    return t
def jstr(ex, st, s): return mk(ex, st, STRING, lambda t: JSTR(t) == s)
def jint(ex, st, v): return mk(ex, st, INT, lambda t: JNUM(t) == v, lambda t: JDBL(t) == I2D(v if isz(v) else ival(v)))
def m_jvec(ex, st, ins, args, dem):
    n = N(ex, st, args[1]); f = V(ex, st, args[1]); t = mk(ex, st, ARRAY, lambda t: JN(t) == n)
    st.ctx.forall(Forall(lambda i: z3.Implies(z3.And(i >= 0, i < n), z3.And(JK(JEL(t, i)) == INT, JNUM(JEL(t, i)) == ival(f(i)))), 1, "document of a shape"))
    return jput_(ex, st, args[0], t)
def m_jval(ex, st, ins, args, dem):
    m = re.match(r"^json::basic_json<([^,]*?)( const)?( &|&|&&)?,", dem); a = m.group(1).strip(); a = re.sub(r" const&?$|&+$", "", a); v = args[1]
    if a.startswith("char"):
        if a.startswith("char const*"): v = ex.load(st, v, PTR)
        return jput_(ex, st, args[0], jstr(ex, st, cstr(ex, st, v)))
    if a == "string": return jput_(ex, st, args[0], jstr(ex, st, sget(ex, st, v)))
    if a == "double": d = ex.load(st, v, Ty("double")); return jput_(ex, st, args[0], mk(ex, st, FLT, lambda t: JDBL(t) == d))
    if a == "bool": b = ex.asbool(ex.load(st, v, Ty("int", 8))); return jput_(ex, st, args[0], mk(ex, st, BOOL, lambda t: JBIT(t) == b))
    w = {"int": 32, "long": 64, "u64": 64}.get(a)
    if w is None: raise Refuse("document from " + a)
    x = ex.load(st, v, Ty("int", w))
    if a != "u64": x = ex.to_signed(st, x, w)
    return jput_(ex, st, args[0], jint(ex, st, x))
def m_jnull2(ex, st, ins, args, dem): return m_jnull(ex, st, ins, args, dem)
def m_jtype(ex, st, ins, args, dem):
    t = jget(ex, st, args[0]); k = ex.fresh_int(st, "type", 8); st.assume(z3.And(k <= 9, z3.Or(k == JK(t), z3.And(k == 6, JK(t) == INT)))); return k
def m_jeqs(ex, st, ins, args, dem):
    t = jget(ex, st, args[0]); s = cstr(ex, st, args[1]); r = z3.And(JK(t) == STRING, JSTR(t) == s); return z3.Not(r) if "operator!=" in dem else r
def m_jeqi(ex, st, ins, args, dem):
    t = jget(ex, st, args[0]); v = ex.to_signed(st, args[1], 32); r = z3.If(JK(t) == INT, JNUM(t) == v, z3.If(JK(t) == FLT, JDBL(t) == I2D(ival(v)), False)); return z3.Not(r) if "operator!=" in dem else r
def num(ex, st, t, out):
    split(ex, st, z3.And(JK(t) != INT, JK(t) != FLT, JK(t) != BOOL), TYERR, out)
def m_jdouble(ex, st, ins, args, dem):
    t = jget(ex, st, args[0]); out = Outcomes(); split(ex, st, z3.And(JK(t) != INT, JK(t) != FLT), TYERR, out); st.assume(z3.Implies(JK(t) == INT, JDBL(t) == I2D(JNUM(t)))); out.append(("ret", st, JDBL(t))); return out
def m_jgetint(ex, st, ins, args, dem):
    t = jget(ex, st, args[0]); out = Outcomes(); num(ex, st, t, out); r = ex.fresh_int(st, "num", 32)
    st.assume(z3.Implies(JK(t) == INT, r == JNUM(t) % (1 << 32))); out.append(("ret", st, r)); return out
def m_jgetstr(ex, st, ins, args, dem):
    t = jget(ex, st, args[1]); out = Outcomes(); split(ex, st, JK(t) != STRING, TYERR, out); sset(ex, st, args[0], JSTR(t)); out.append(("ret", st, None)); return out
def m_jarray(ex, st, ins, args, dem):
    """json::array(list): the elements are copied from the references of the list"""
    n = args[2]; t = mk(ex, st, ARRAY, lambda t: JN(t) == n)
    if not isinstance(n, int) or n > 1: raise Refuse("array literal")
    if n == 1:
        r = st.ghost.get(("jref", args[1].reg, args[1].idx))
        if r is None: raise Refuse("array literal of unknown elements")
        st.assume(JEL(t, 0) == r)
    return jput_(ex, st, args[0], t)
def m_jref(ex, st, ins, args, dem): st.ghost[("jref", args[0].reg, args[0].idx)] = jget(ex, st, args[1]); return None
def m_jpush(ex, st, ins, args, dem):
    t = jget(ex, st, args[0]); v = jget(ex, st, args[1]); out = Outcomes(); split(ex, st, z3.And(JK(t) != NULL_, JK(t) != ARRAY), TYERR, out)
    st.assume(z3.Implies(JK(t) == NULL_, JN(t) == 0)); u = mk(ex, st, ARRAY, lambda u: JN(u) == JN(t) + 1, lambda u: JEL(u, JN(t)) == v)
    st.ctx.forall(Forall(lambda i: z3.Implies(z3.And(i >= 0, i < JN(t)), JEL(u, i) == JEL(t, i)), 1, "elements kept")); jset(ex, st, args[0], u); out.append(("ret", st, None)); return out
def size(st, t):
    n = JN(t); st.assume(z3.And(n >= 0, n < (1 << 40), z3.Implies(JK(t) == NULL_, n == 0), z3.Implies(JK(t) > 2, n == 1))); return n
def m_jsize2(ex, st, ins, args, dem): n = size(st, jget(ex, st, args[0])); return n == 0 if "empty()" in dem else n
def m_jrange(ex, st, ins, args, dem):
    """begin/end of a document: position 0 or the number of elements; reverse iterators count from the back"""
    n = size(st, jget(ex, st, args[1])); b = "begin() const" in dem or "begin()" in dem
    setit(ex, st, args[0], args[1], (z3.IntVal(0) if b else n)); return None
def m_jder(ex, st, ins, args, dem):
    d, p = getit(ex, st, args[0]); t = jget(ex, st, d); n = size(st, t); k = st.ghost.get(("found", args[0].reg, args[0].idx))
    ex.oblige(st, "iterator points at an element", z3.And(ival(p) >= 0, ival(p) < n)); r = ex.new_struct(st, "elem"); e = simp(ival(p))
    # the element of an object at an iterator position is the member of that position's key
    if ("jenum", t.get_id()) in st.ghost: K = st.ghost[("jenum", t.get_id())][1]; v = z3.If(JK(t) == OBJECT, JV(t, K(e)), z3.If(JK(t) == ARRAY, JEL(t, e), t))
    else: v = z3.If(JK(t) == ARRAY, JEL(t, e), JEL(t, e))
    st.w(r).cells[0] = (16, Opq("json", v)); return Ptr(r)
def m_jinc2(ex, st, ins, args, dem):
    d, p = getit(ex, st, args[0]); n = size(st, jget(ex, st, d)); ex.oblige(st, "iterator is advanced inside the document", z3.And(ival(p) >= 0, ival(p) < n)); setit(ex, st, args[0], d, simp(ival(p) + 1)); return args[0]
def m_vecjson(ex, st, ins, args, dem):
    """a vector of the numbers of an array (from the back for reverse iterators); other documents give unspecified contents or an error"""
    (d, p), (d2, q) = getit(ex, st, args[1]), getit(ex, st, args[2]); t = jget(ex, st, d); rev = "reverse_iterator" in dem; out = Outcomes(); n = size(st, t)
    if not (d.reg == d2.reg and d.idx == d2.idx): raise Refuse("iterators of different documents")
    ex.oblige(st, "the whole document is read", z3.And(ival(p) == 0, ival(q) == n))
    th = st.copy(); i = z3.Int(fresh("bad")); bad = z3.And(i >= 0, i < n, JK(JEL(t, i)) != INT, JK(JEL(t, i)) != FLT, JK(JEL(t, i)) != BOOL)
    th.assume(z3.Or(JK(t) != ARRAY, bad)); out.append(("throw", th, TYERR))
    f = basefn("NUM", 1, 64, trig=False); b = vnew(ex, st, args[0], EK(64), n, {(): FA(f, 1)}) if False else None
    vnew(ex, st, args[0], EK(64), n, {0: FA(lambda k: f(k))}) if False else None
    setvec(ex, st, args[0].reg, args[0].idx, "numbers", n); g = V(ex, st, args[0])
    st.ctx.forall(Forall(lambda k: z3.Implies(z3.And(JK(t) == ARRAY, k >= 0, k < n), (lambda e: z3.And(z3.Or(JK(e) == INT, JK(e) == FLT, JK(e) == BOOL), z3.Implies(JK(e) == INT, ival(g(k)) == JNUM(e) % (1 << 64))))(JEL(t, (n - 1 - k) if rev else k))), 1, "numbers of a document"))
    out.append(("ret", st, None)); return out
# ------------------------------------------------------------------ tables: std::map built from literals
def mkey(st, p): return ("map", p.reg, p.idx)
def m_pair(ex, st, ins, args, dem):
    """std::pair<A const, B>(a, b) with a or b a character array or an enumerator"""
    x = re.search(r"::pair<(.*)>\(", dem).group(1); out = []
    for k, a in enumerate(args[1:3]): out.append(a)
    vals = []
    sig = dem[dem.rindex("pair<"):]; params = re.split(r", (?=char const|z5::types)", sig[sig.index("(") + 1:sig.rindex(")")])
    for a, s in zip(args[1:3], params): vals.append(cstr(ex, st, a) if "char" in s else ex.load(st, a, Ty("int", 32)))
    st.ghost[("pair", args[0].reg, args[0].idx)] = tuple(vals); return None
def m_mapctor(ex, st, ins, args, dem):
    b, n = args[1], args[2]
    if len(args) < 5: n = ex.load(st, Ptr(b.reg, b.idx + 8), Ty("int", 64)); b = ex.load(st, b, PTR); args = [args[0], b, n]
    if not isinstance(n, int): raise Refuse("table of unknown size")
    es = sorted((k[2], v) for k, v in st.ghost.items() if isinstance(k, tuple) and k[0] == "pair" and k[1] == args[1].reg and k[2] >= args[1].idx)
    if len(es) < n: raise Refuse("table with unknown entries")
    es = [v for _, v in es[:n]]; st.ghost[mkey(st, args[0])] = tuple(es); return None
def m_mapmove(ex, st, ins, args, dem):
    t = st.ghost.get(mkey(st, args[1]))
    if t is None: raise Refuse("map of unknown origin")
    st.ghost[mkey(st, args[0])] = t; return None
def m_mapat(ex, st, ins, args, dem):
    t = st.ghost.get(mkey(st, args[0])); out = Outcomes()
    if t is None: raise Refuse("map of unknown origin")
    sk_ = not isinstance(t[0][0], int); k = sget(ex, st, args[1]) if sk_ else ex.load(st, args[1], Ty("int", 32)); eq = lambda e: (k == e[0]) if sk_ else EQ(k, e[0])
    split(ex, st, z3.Not(z3.Or(*[b for b in [eq(e) for e in t] if not isinstance(b, bool)] + [z3.BoolVal(True) for b in [eq(e) for e in t] if b is True])), "_ZTISt12out_of_range", out)
    r = ex.new_struct(st, "entry"); v = t[-1][1]
    for e in reversed(t[:-1]): v = z3.If(eq(e) if not isinstance(eq(e), bool) else z3.BoolVal(eq(e)), e[1] if isz(e[1]) else z3.IntVal(e[1]), v if isz(v) else z3.IntVal(v))
    if isz(v) and v.sort() == OBJ: st.w(r).cells[0] = (32, Opq("str", v))
    else: st.w(r).cells[0] = (4, simp(v) if isz(v) else v)
    out.append(("ret", st, Ptr(r))); return out
# ------------------------------------------------------------------ compression options: ghost finite maps from strings to int | bool | string
OH = z3.Function("opt_has", OBJ, z3.IntSort(), z3.BoolSort())
OT = z3.Function("opt_tag", OBJ, z3.IntSort(), z3.IntSort())
OI = z3.Function("opt_int", OBJ, z3.IntSort(), z3.IntSort())
OS = z3.Function("opt_str", OBJ, z3.IntSort(), OBJ)
OEMPTY = z3.Const("options_empty", OBJ)
BADV = "_ZTISt18bad_variant_access"
def oget(ex, st, p):
    c = st.mem[p.reg].cells.get(p.idx)
    if c is None: t = ex.fresh_obj("opts"); st.w(p.reg).cells[p.idx] = (48, Opq("opts", t)); return t
    if not isinstance(c[1], Opq) or c[1].kind != "opts": raise Refuse("options object expected")
    return c[1].t
def oset(ex, st, p, t): ex.setcell(st, p.reg, p.idx, 48, Opq("opts", t)); return None
def optset(ex, st, o, k, tag, iv=None, sv=None):
    t = ex.fresh_obj("opts"); iv = z3.IntVal(0) if iv is None else ival(iv); sv = strconst("") if sv is None else sv
    st.ctx.forall(Forall(lambda x: z3.And(OH(t, x) == z3.Or(x == k, OH(o, x)), OT(t, x) == z3.If(x == k, z3.IntVal(tag), OT(o, x)), OI(t, x) == z3.If(x == k, iv, OI(o, x)), OS(t, x) == z3.If(x == k, sv, OS(o, x))), 1, "options"))
    return t
def m_ocopy(ex, st, ins, args, dem): return oset(ex, st, args[0], oget(ex, st, args[1]))
def m_oassign(ex, st, ins, args, dem): oset(ex, st, args[0], oget(ex, st, args[1])); return args[0]
def m_oempty(ex, st, ins, args, dem):
    st.ctx.forall(Forall(lambda x: z3.Not(OH(OEMPTY, x)), 1, "no options")); return oset(ex, st, args[0], OEMPTY)
def m_ocount(ex, st, ins, args, dem): return z3.If(OH(oget(ex, st, args[0]), kid(ex, st, sget(ex, st, args[1]))), z3.IntVal(1), z3.IntVal(0))
def oref(ex, st, p, k): r = ex.new_struct(st, "option"); st.ghost[("optref", r)] = (p, k); return Ptr(r)
def m_oindex(ex, st, ins, args, dem):
    """operator[]: a missing option is created as the int 0"""
    k = kid(ex, st, sget(ex, st, args[1])); o = oget(ex, st, args[0])
    if ex.feasible(st, z3.Not(OH(o, k))):
        t = ex.fresh_obj("opts"); h = OH(o, k)
        st.ctx.forall(Forall(lambda x: z3.And(OH(t, x) == z3.Or(x == k, OH(o, x)), OT(t, x) == z3.If(z3.And(x == k, z3.Not(h)), z3.IntVal(0), OT(o, x)), OI(t, x) == z3.If(z3.And(x == k, z3.Not(h)), z3.IntVal(0), OI(o, x)), OS(t, x) == OS(o, x)), 1, "options"))
        oset(ex, st, args[0], t)
    return oref(ex, st, args[0], k)
def m_oat(ex, st, ins, args, dem):
    k = kid(ex, st, sget(ex, st, args[1])); o = oget(ex, st, args[0]); out = Outcomes(); split(ex, st, z3.Not(OH(o, k)), "_ZTISt12out_of_range", out); out.append(("ret", st, oref(ex, st, args[0], k))); return out
def m_ofind(ex, st, ins, args, dem): k = kid(ex, st, sget(ex, st, args[1])); return Ptr(args[0].reg, args[0].idx) if False else _oit(ex, st, args[0], k)
def _oit(ex, st, p, k):
    r = ex.new_struct(st, "optit"); st.ghost[("optit", r)] = (p, k); return Ptr(r)
def m_oend(ex, st, ins, args, dem): return _oit(ex, st, args[0], None)
def m_oiteq(ex, st, ins, args, dem):
    ps = [st.mem[a.reg].cells[a.idx][1] for a in args[:2]]; a, b = [st.ghost.get(("optit", p.reg)) for p in ps]
    if a is None or b is None or (a[1] is None) == (b[1] is None): raise Refuse("comparison of option iterators")
    p, k = a if a[1] is not None else b; r = z3.Not(OH(oget(ex, st, p), k)); return z3.Not(r) if "operator!=" in dem else r
def variant(ex, st, p):
    m = st.ghost.get(("optref", p.reg))
    if m is None: raise Refuse("option of unknown origin")
    return m
def m_vassign(ex, st, ins, args, dem):
    p, k = variant(ex, st, args[0]); a = re.search(r"__accepted_index<(\w+)", dem).group(1); o = oget(ex, st, p)
    if a == "string": t = optset(ex, st, o, k, 2, sv=sget(ex, st, args[1]))
    elif a == "bool": v = ex.asbool(ex.load(st, args[1], Ty("int", 8))); t = optset(ex, st, o, k, 1, iv=ex.boolint(v) if not isinstance(v, bool) else int(v))
    elif a == "int": t = optset(ex, st, o, k, 0, iv=ex.load(st, args[1], Ty("int", 32)))
    else: raise Refuse("option of type " + a)
    oset(ex, st, p, t); return args[0]
def m_vget(ex, st, ins, args, dem):
    p, k = variant(ex, st, args[0]); o = oget(ex, st, p); a = re.match(r"(\w+)", dem).group(1); tag = {"int": 0, "bool": 1, "string": 2}[a]; out = Outcomes()
    split(ex, st, OT(o, k) != tag, BADV, out); r = ex.new_struct(st, "alt"); c = st.w(r).cells
    if tag == 2: c[0] = (32, Opq("str", OS(o, k)))
    elif tag == 1: st.assume(z3.And(OI(o, k) >= 0, OI(o, k) <= 1)); c[0] = (1, OI(o, k))
    else: st.assume(z3.And(OI(o, k) >= 0, OI(o, k) < (1 << 32))); c[0] = (4, OI(o, k))
    out.append(("ret", st, Ptr(r))); return out
def m_jvalue(ex, st, ins, args, dem):
    """value(key, default) of an object"""
    sv = dem.startswith("string"); t = jget(ex, st, args[1 if sv else 0]); k = akey(ex, st, args[2 if sv else 1], dem); out = Outcomes(); split(ex, st, JK(t) != OBJECT, TYERR, out)
    d = args[3 if sv else 2]; h = JH(t, k); e = JV(t, k)
    if sv: split(ex, st, z3.And(h, JK(e) != STRING), TYERR, out); sset(ex, st, args[0], z3.If(h, JSTR(e), sget(ex, st, d))); out.append(("ret", st, None)); return out
    split(ex, st, z3.And(h, JK(e) != INT, JK(e) != FLT, JK(e) != BOOL), TYERR, out); r = ex.fresh_int(st, "value", 32)
    st.assume(z3.And(z3.Implies(z3.Not(h), r == ival(ex.load(st, d, Ty("int", 32)))), z3.Implies(z3.And(h, JK(e) == INT), r == JNUM(e) % (1 << 32)))); out.append(("ret", st, r)); return out
def m_inf(ex, st, ins, args, dem): return PINF
def m_nan(ex, st, ins, args, dem): st.assume(ISNAN(QNAN)); return QNAN
PINF, QNAN = z3.IntVal(0x7ff0000000000000), z3.IntVal(0x7ff8000000000000)
def m_isinf(ex, st, ins, args, dem):
    """infinite: one of the two infinities, told apart by their sign"""
    g = z3.Function("fcmp_ogt", z3.IntSort(), z3.IntSort(), z3.BoolSort()); n = z3.Function("fneg", z3.IntSort(), z3.IntSort())(PINF); x = ival(args[0])
    st.assume(z3.And(g(PINF, 0), z3.Not(g(n, 0)), n != PINF, ISINF(x) == z3.Or(x == PINF, x == n))); return ISINF(x)
def m_fpclass(kind):
    def f(ex, st, ins, args, dem): return z3.Function("dbl_" + kind, z3.IntSort(), z3.BoolSort())(ival(args[0]))
    return f
ISNAN, ISINF = (z3.Function("dbl_" + k, z3.IntSort(), z3.BoolSort()) for k in ("isnan", "isinf"))
OM = r"std::map<string, std::variant<int, bool, string >.*>::"
MAPT = r"^std::map<(string, z5::types::\w+|z5::types::\w+, string).*>::"
IT_ = r"%sdetail::iter_impl<json( const)?>::" % NL
RIT = r"%sjson_reverse_iterator<.*>::" % NL
MMODELS = [
    (r"^json::basic_json<Shape( const)?&", m_jvec), (r"^json::basic_json<", m_jval), (r"^json::type\(\) const", m_jtype), (r"^bool json::operator[=!]=<char const\*>", m_jeqs), (r"^bool json::operator[=!]=<int>", m_jeqi), (r"operator[=!]=<char const\*, 0>\(json", m_jeqs), (r"operator[=!]=<int, 0>\(json", m_jeqi),
    (r"^json::operator double<", m_jdouble), (r"^json::operator string<", m_jgetstr), (r"json::get<int, int>", m_jgetint), (r"json::get<string, string", m_jgetstr), (r"^json::array\(", m_jarray), (r"json_ref<json ?>::json_ref<json&", m_jref), (r"json_ref<json ?>::~json_ref", m_nop), (r"^json::push_back\(json", m_jpush),
    (r"^json::(size|empty)\(\)", m_jsize2), (r"^json::r?c?(begin|end)\(\)", m_jrange), (IT_ + r"operator(\*|->)\(\)", m_jder), (IT_ + r"operator\+\+\(\)", m_jinc2),
    (r"^Shape::vector<.*(iter_impl|json_reverse_iterator)", m_vecjson),
    (r"^std::pair<(string const, z5::types::\w+|z5::types::\w+ const, string) ?>::pair<", m_pair), (r"^std::pair<(string const, z5::types::\w+|z5::types::\w+ const, string) ?>::~pair", m_nop),
    (MAPT + r"map\(std::initializer_list", m_mapctor), (MAPT + r"map\(std::map<.*&&", m_mapmove), (MAPT + r"map\(std::map<.* const&", m_mapmove), (MAPT + r"at\(", m_mapat), (MAPT + r"~map", m_nop), (r"^__cxa_guard_(release|abort)$|^__cxa_atexit$", lambda ex, st, ins, args, dem: 0), (r"^__cxa_guard_acquire$", lambda ex, st, ins, args, dem: 1),
    (r"^" + OM + r"map\(\)", m_oempty), (r"^" + OM + r"map\(std::map", m_ocopy), (r"^" + OM + r"~map", m_nop), (r"^" + OM + r"operator=\(", m_oassign), (r"^" + OM + r"count\(", m_ocount), (r"^" + OM + r"operator\[\]\(", m_oindex), (r"^" + OM + r"at\(", m_oat),
    (r"^" + OM + r"find\(", m_ofind), (r"^" + OM + r"end\(", m_oend), (r"^std::operator[!=]=\(std::_Rb_tree_(const_)?iterator<std::pair<string const, std::variant", m_oiteq),
    (r"std::variant<int, bool, string ?>::operator=<|__accepted_index<.*variant<int, bool, string", m_vassign), (r"^(int|bool|string) const& std::get<", m_vget), (r"^(int|string) json::value<", m_jvalue),
    (r"^std::numeric_limits<double>::infinity\(\)", m_inf), (r"^std::numeric_limits<double>::quiet_NaN\(\)", m_nan), (r"^std::isinf\(double\)", m_isinf),
    (r"^std::isnan\(double\)", m_fpclass("isnan")),
] + JMODELS

# ------------------------------------------------------------------ DatasetMetadata
FIELDS = ("shape", "chunkShape", "shardShape", "dtype", "compressor", "compressionOptions", "fillValue", "zarrDelimiter", "chunkKeyEncoding", "isZarr", "zarrFormat")
def moff(mod):
    if ("meta", id(mod)) in LAY: return LAY[("meta", id(mod))]
    o = {}
    for k in FIELDS:
        box = {}
        def setup(ex, st): box["r"] = ex.new_struct(st, "m"); return [Ptr(box["r"])]
        ex, outs = run_concrete(mod, r"^at_%s\(" % k, setup)
        if len(outs) != 1 or not isinstance(outs[0].ret, Ptr) or outs[0].ret.reg != box["r"]: raise Refuse("member " + k)
        o[k] = outs[0].ret.idx
    LAY[("meta", id(mod))] = o; return o
class Meta:
    """the members of a DatasetMetadata object in a state"""
    def __init__(self, ex, p): self.ex, self.p, self.o = ex, p, moff(ex.mod)
    def at(self, k): return Ptr(self.p.reg, self.p.idx + self.o[k])
    def n(self, st, k): return N(self.ex, st, self.at(k))
    def v(self, st, k): return V(self.ex, st, self.at(k))
    def i(self, st, k): return self.ex.load(st, self.at(k), Ty("double") if k == "fillValue" else Ty("int", 8 if k == "isZarr" else 32))
    def s(self, st, k): return sget(self.ex, st, self.at(k))
    def opts(self, st): return oget(self.ex, st, self.at("compressionOptions"))
def same(a, na, b, nb): return None
class MBase(JBase):
    models = MMODELS; maxd = 1 << 16
    inline = JBase.inline + [r"^z5::DatasetMetadata::|^z5::Metadata::|^z5::types::"]
    def shape(self, ex, st, name, r=None, off=0, n=None):
        n = ex.fresh_int(st, "n_" + name) if n is None else n; st.assume(z3.And(n >= 0, n < self.maxd)) if isz(n) else None
        if r is None: r = ex.new_struct(st, name)
        setvec(ex, st, r, off, name, n); return Ptr(r, off)
    def meta(self, ex, st, name="m", valid=True):
        r = ex.new_struct(st, name); o = moff(ex.mod); m = Meta(ex, Ptr(r)); c = st.w(r).cells
        for k in ("shape", "chunkShape", "shardShape"): self.shape(ex, st, name + "." + k, r, o[k])
        for k in ("zarrDelimiter", "chunkKeyEncoding"): c[o[k]] = (32, Opq("str", ex.fresh_obj(k)))
        c[o["compressionOptions"]] = (48, Opq("opts", ex.fresh_obj("opts"))); c[o["fillValue"]] = (8, z3.Int(fresh("fill"))); z = ex.fresh_int(st, "isZarr", 8); st.assume(z <= 1); c[o["isZarr"]] = (1, z)
        for k, b in (("dtype", 13), ("compressor", 7), ("zarrFormat", None)):
            v = ex.fresh_int(st, k, 32); c[o[k]] = (4, v)
            if b: st.assume(v < b)
        return m
    def valid(self, st, m):
        """(conditions, quantified facts) of consistent shapes"""
        return [m.n(st, "shape") == m.n(st, "chunkShape"), OR(m.n(st, "shardShape") == 0, m.n(st, "shardShape") == m.n(st, "chunkShape"))]
    def eqvec(self, ex, st, a, na, b, nb, label):
        i = z3.Int(fresh("i")); st.ctx.term(i); return [(label + ": extent", EQ(na, nb)), (label, z3.Implies(z3.And(i >= 0, i < ival(na)), EQ(a(i), b(i))))]
    def cands(self, ex, ci): return []
class _CS:
    def apply(self, ex, st, ins, args):
        m = Meta(ex, args[0]); c, h = m.v(st, "chunkShape"), m.v(st, "shardShape"); n, s = ival(m.n(st, "chunkShape")), ival(m.n(st, "shardShape")); out = Outcomes(); q = ival(m.n(st, "shape"))
        ok = lambda i: z3.And(c(i) >= 1, z3.Implies(s > 0, z3.And(h(i) >= 1, umod(h(i), c(i)) == 0))); th = st.copy(); j = z3.Int(fresh("axis")); th.ctx.term(j)
        th.assume(z3.Or(q != n, z3.And(s > 0, s != n), z3.And(j >= 0, j < n, z3.Not(ok(j)))))
        if ex.feasible(th, z3.BoolVal(True)): out.append(("throw", th, "_ZTISt13runtime_error"))
        st.assume(z3.And(q == n, z3.Or(s == 0, s == n))); st.ctx.forall(Forall(lambda i: z3.Implies(z3.And(i >= 0, i < n), ok(i)), 1, "consistent axes")); out.append(("ret", st, None)); return out
class CheckShapes(_CS, MBase):
    name = "DatasetMetadata::checkShapes"; pattern = r"^z5::DatasetMetadata::checkShapes\(\)"; callees = (); opts = {"linear": True}
    desc = "returns iff shape and chunk shape have the same number of axes, no chunk extent is zero, and a shard shape is empty or a positive multiple of the chunk shape on every axis; rejects everything else; changes nothing"
    def setup(self, ex, st): self.m = self.meta(ex, st); return [self.m.p]
    def post(self, ex, st, st0, ret):
        m = self.m; i = z3.Int(fresh("axis")); st.ctx.term(i); c, h = m.v(st, "chunkShape"), m.v(st, "shardShape"); n, s = ival(m.n(st, "chunkShape")), ival(m.n(st, "shardShape"))
        ins = z3.And(i >= 0, i < n)
        return [("shape and chunk shape agree in length", EQ(m.n(st, "shape"), n)), ("no chunk extent is zero", z3.Implies(ins, c(i) >= 1)), ("a shard shape has as many axes", OR(s == 0, s == n)),
                ("a shard is a positive multiple of a chunk on every axis", z3.Implies(z3.And(ins, s > 0), z3.And(h(i) >= 1, umod(h(i), c(i)) == 0)))]
    def exc(self, ex, st, st0, ty):
        m = self.m; c, h = m.v(st, "chunkShape"), m.v(st, "shardShape"); n, s = ival(m.n(st, "chunkShape")), ival(m.n(st, "shardShape")); ok = z3.Bool(fresh("consistent"))
        st.ctx.forall(Forall(lambda i: z3.Implies(z3.And(ok, i >= 0, i < n), z3.And(c(i) >= 1, z3.Implies(s > 0, z3.And(h(i) >= 1, umod(h(i), c(i)) == 0)))), 1, "hypothesis: every axis is consistent"))
        return [("only inconsistent shapes are rejected", z3.Not(z3.And(ok, ival(m.n(st, "shape")) == n, z3.Or(s == 0, s == n))))]
    def cands(self, ex, ci):
        out = []; m = self.m; S = ci.S; c, h = m.v(S, "chunkShape"), m.v(S, "shardShape")
        for r, o, sz, v in ci.int_cells():
            g = ci.getter(r, o)
            out.append(Cand("position is valid", lambda ex, st, g=g: z3.And(ival(g(st)) >= 0, ival(g(st)) <= ival(m.n(st, "chunkShape")))))
            out.append(Cand("chunk extents so far are positive", None, forall=lambda ex, st, g=g: (lambda p: lambda i: z3.Implies(z3.And(i >= 0, i < p), c(i) >= 1))(ival(g(st)))))
            out.append(Cand("shard extents so far are multiples", None, forall=lambda ex, st, g=g: (lambda p: lambda i: z3.Implies(z3.And(i >= 0, i < p), z3.And(h(i) >= 1, umod(h(i), c(i)) == 0)))(ival(g(st)))))
        return out

ZNAMES = ("|i1", "<i2", "<i4", "<i8", "|u1", "<u2", "<u4", "<u8", "<f4", "<f8", "<c8", "<c16", "<c32")
N5NAMES = ("int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float32", "float64")
class _RoundTrip(MBase):
    opts = {"linear": True}
    pattern = r"^roundtrip\("; callees = (CheckShapes,); timeout = 600
    fmt = None
    desc = "metadata written by toJson and read back by fromJson has the same data type, shapes, codec with its options, fill value, separator and key encoding; writing may fail only for options the codec cannot use, reading never"
    def setup(self, ex, st):
        m = self.m = self.meta(ex, st); n = self.n = self.meta(ex, st, "n"); self.m0 = st.copy()
        z, f = m.i(st, "isZarr"), m.i(st, "zarrFormat"); st.assume({"n5": z == 0, "zarr": z3.And(z == 1, f == 2), "v3": z3.And(z == 1, f == 3)}[self.fmt])
        c, h = m.v(st, "chunkShape"), m.v(st, "shardShape"); nc, ns = ival(m.n(st, "chunkShape")), ival(m.n(st, "shardShape")); st.assume(z3.And(m.n(st, "shape") == nc, z3.Or(ns == 0, ns == nc)))
        if self.fmt != "v3": st.assume(ns == 0)
        st.ctx.forall(Forall(lambda i: z3.Implies(z3.And(i >= 0, i < nc), z3.And(c(i) >= 1, z3.Implies(ns > 0, z3.And(h(i) >= 1, umod(h(i), c(i)) == 0)))), 1, "consistent shapes"))
        if self.fmt == "n5": st.assume(m.i(st, "fillValue") == 0)
        return [m.p, n.p]
    def post(self, ex, st, st0, ret):
        m, n = self.m, self.n; s0 = self.m0; out = []
        for k in ("shape", "chunkShape") + (("shardShape",) if self.fmt == "v3" else ()): out += self.eqvec(ex, st, m.v(s0, k), m.n(s0, k), n.v(st, k), n.n(st, k), k + " survives")
        out += [("data type survives", EQ(m.i(s0, "dtype"), n.i(st, "dtype"))), ("codec survives", EQ(m.i(s0, "compressor"), n.i(st, "compressor")))]
        f0, f1 = m.i(s0, "fillValue"), n.i(st, "fillValue"); out.append(("fill value survives", z3.If(ISNAN(ival(f0)), ISNAN(ival(f1)), f0 == f1)))
        return out
for _f in ("n5", "zarr", "v3"): globals()["RoundTrip_" + _f] = type("RoundTrip_" + _f, (_RoundTrip,), dict(fmt=_f, name="toJson/fromJson round trip (%s)" % _f))
del _f
