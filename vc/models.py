"""Trusted call-level contracts of the standard library and C runtime (the verifier never looks inside them)."""
import re
from sym import *
from engine import *
from ir import *

ELEM = {"u64": EK(64), "long": EK(64), "u32": EK(32), "int": EK(32), "u16": EK(16), "short": EK(16), "u8": EK(8), "char": EK(8),
        "signed char": EK(8), "float": EK(32), "double": EK(64), "bool": EK(8), "Shape": ("vec", EK(64)), "vec<char>": ("vec", EK(8)),
        "z5::util::ShardEntry": ("struct", 16, ((0, 64), (8, 64)), "z5::util::ShardEntry"), "string": ("opq", "string", 32), "size_t": EK(64), "short const": EK(16)}

VECRE = re.compile(r"^(?:(?P<pre>[\w:&*<> ]*?) )?(?P<v>Shape|vec<(?P<e>.*?)>)::(?P<m>~?\w+(?:\[\]|=)?)(?P<rest>[<(].*)$")
def elem_of(dem):
    m = VECRE.match(dem)
    if not m: return None
    if m.group("v") == "Shape": return ELEM["u64"], m
    e = m.group("e")
    return ELEM.get(e), m

class Models:
    def __init__(self):
        self.rx = []          # (compiled regex, fn)
        self.exact = {}
        self.cache = {}
        self.inline_extra = []
        self.strict = True
        self.noinline = []
        self.pure = []
        for rx, fn in BASE_MODELS: self.add(rx, fn)
    def add(self, rx, fn, front=False):
        self.rx.insert(0, (re.compile(rx), fn)) if front else self.rx.append((re.compile(rx), fn))
        self.cache.clear()
    def lookup(self, name, dem):
        if name in self.cache: return self.cache[name]
        r = None
        for rx, fn in self.rx:
            if rx.search(dem): r = fn; break
        if r is None:
            m = elem_of(dem)
            if m and m[0] is not None: r = vec_model
        self.cache[name] = r
        return r
    STD_INLINE = re.compile(r"^(?:[\w:<>&*,\. ()]* )?(std::(min|max|move|forward|multiplies|plus|minus|less|get|addressof|as_const|exchange|swap|pair|tuple|__niter_base|numeric_limits|unique_ptr|__uniq_ptr|__uniq_ptr_impl|initializer_list|reverse_iterator|__shared_ptr|shared_ptr|optional|tie|equal_to|greater)\b|__gnu_cxx::)")
    def may_inline(self, ex, name, dem):
        for rx in self.noinline:
            if rx.search(dem): return False
        if is_z5(dem): return True
        if self.STD_INLINE.match(dem) or "__gnu_cxx::operator" in dem or "__gnu_cxx::__normal_iterator" in dem and elem_of(dem) is None and not dem.startswith("void std::") :
            f = ex.mod.func(name)
            n = sum(len(b) for b in f.blocks.values())
            return n < 120 and not ex.mod.loops(f)
        return any(r.search(dem) for r in self.inline_extra)
    def indirect(self, ex, st, ins, args):
        raise Refuse("indirect call")
    def havoc_call(self, ex, st, ins, args, name, dem):
        if self.strict: raise Refuse("no contract for external function " + dem[:150])
        return generic_havoc(ex, st, ins, args, name, dem)

def is_z5(dem):
    # the function itself (not only a template argument) is declared in z5
    d = strip_targs(dem)
    m = re.search(r"([~\w:$<>]+(?:::operator.*?)?)\(", d)
    q = d.split("(")[0].strip()
    q = q.split(" ")[-1] if "operator" not in q else q
    return "z5::" in q.split(" ")[-1] or q.startswith("z5::") or "$_" in q or "{lambda" in d.split(")::operator()")[0] and "z5::" in d
def strip_targs(d):
    out = []; depth = 0; i = 0
    while i < len(d):
        c = d[i]
        if c == "<" and not d[:i].endswith("operator") and not d[:i].endswith("operator<"): depth += 1
        elif c == ">" and depth > 0 and d[i - 1] != "-": depth -= 1
        elif depth == 0: out.append(c)
        i += 1
    return "".join(out)

# ---------------------------------------------------------------- vectors
def vbuf(ex, st, p, ek=None):
    """pointer to the first element of the vector object at p"""
    if ex.is_arr(st, p):
        e = ex.arr_ek(st, p)
        if e[0] == "vec" and isinstance(p.reg, int):
            ex.bounds(st, p, p.idx, "element access")
            return Ptr(("in", p.reg, p.idx), 0)
        raise Refuse("vector inside %r" % (e,))
    if p.reg not in st.mem: raise Refuse("vector at unknown address")
    c = st.mem[p.reg].cells.get(p.idx)
    if c is None:
        if ek is None: raise Refuse("uninitialised vector")
        n = ex.fresh_int(st, "len"); st.assume(n < (1 << 60))
        r = ex.new_arr(st, st.mem[p.reg].name + "+%s" % p.idx, ek, n); ex.vec_ek[r] = ek
        st.w(p.reg).cells[p.idx] = (24, VecVal(r))
        return Ptr(r, 0)
    if not isinstance(c[1], VecVal): raise Refuse("not a vector object")
    return Ptr(c[1].reg, 0)
def vnew(ex, st, p, ek, n, fields, name=None):
    """construct a vector object at p"""
    if ex.is_arr(st, p):
        b = vbuf(ex, st, p)
        vset(ex, st, b, n, fields); return b
    nm = (name or st.mem[p.reg].name)
    r = ex.new_arr(st, nm, ek, n, fields); ex.vec_ek[r] = ek
    ex.setcell(st, p.reg, p.idx, 24, VecVal(r))
    return Ptr(r, 0)
def vlen(ex, st, b): return ex.arr_len(st, b)
def vsetlen(ex, st, b, n):
    if isinstance(b.reg, tuple):
        o = st.w(b.reg[1]); o.f[("n", 0)] = o.f[("n", 0)].store((b.reg[2],), n); ex.wrote(st, ("a", b.reg[1], ("n", 0)))
    else:
        o = st.w(b.reg); o.n = n; ex.wrote(st, ("n", b.reg))
def vset(ex, st, b, n, fields):
    vsetlen(ex, st, b, n)
    if isinstance(b.reg, tuple):
        for sub, fa in fields.items(): ex.arr_set(st, b, sub, fa)
    else:
        o = st.w(b.reg)
        for k, fa in fields.items():
            o.f[k] = fa; ex.wrote(st, ("a", b.reg, k))
def vfields(ex, st, b):
    """content of a buffer as a dict of functional arrays"""
    if isinstance(b.reg, tuple):
        return {sub: FArr(ex.arr_fn(st, b, sub)) for sub, _ in ex.arr_fields(st, b)}
    return dict(st.mem[b.reg].f)
def default_of(ex, ek):
    """value-initialised object of a named struct type: executes its real default constructor"""
    d = ex.__dict__.setdefault("defaults", {})
    if ek not in d:
        ty = ek[3]; leaf = ty.split("::")[-1]
        ctor = [n for n in ex.mod.defs if ex.mod.dem(n) == "%s::%s()" % (ty, leaf)]
        if not ctor: d[ek] = {o: 0 for o, _ in ek[2]}
        else:
            sub = Executor(ex.mod, ex.models); s0 = St(); r = sub.new_struct(s0, "dflt"); sub.push(s0, ex.mod.func(ctor[0]), [Ptr(r)])
            outs = sub.run([s0])
            if len(outs) != 1 or outs[0].status != "ret": raise Refuse("default constructor of " + ty)
            d[ek] = {o: outs[0].mem[r].cells[o][1] if o in outs[0].mem[r].cells else None for o, _ in ek[2]}
            if any(v is None for v in d[ek].values()): raise Refuse("default constructor of " + ty)
    return d[ek]
def zero_fields(ek, ex=None):
    if ek[0] == "int": return {0: FArr.const(0)}
    if ek[0] == "struct":
        if len(ek) > 3:
            if ex is None: raise Refuse("default value of a struct")
            dv = default_of(ex, ek); return {o: FArr.const(dv[o]) for o, _ in ek[2]}
        return {o: FArr.const(0) for o, _ in ek[2]}
    if ek[0] == "vec":
        d = {("n", 0): FArr.const(0)}
        for s, b in ek_inner(ek[1]): d[("d", s)] = FArr.const(0)
        return d
    return {}
def vresize(ex, st, b, m, fill=0):
    n = vlen(ex, st, b); ek = ex.arr_ek(st, b)
    if (n is m) or (isz(n) and isz(m) and n.eq(m)) or (not isz(n) and not isz(m) and n == m): return
    if isinstance(b.reg, tuple):
        for sub, _ in ex.arr_fields(st, b):
            f = FArr(ex.arr_fn(st, b, sub)); ex.arr_set(st, b, sub, f.where(lambda i: GE(i, n), lambda i: fill))
    else:
        o = st.w(b.reg); z = zero_fields(ek, ex)
        for k in list(o.f):
            zf = z[k] if not (k == 0 and fill != 0) else FArr.const(fill)
            if isinstance(n, int) and n == 0: o.f[k] = zf
            else: o.f[k] = o.f[k].where(lambda i, *r: GE(i, n), lambda *ix, zf=zf: zf(*ix))
            ex.wrote(st, ("a", b.reg, k))
    vsetlen(ex, st, b, m)
def elem_ptr(ex, b, i): return Ptr(b.reg, i, 0)
def vpush(ex, st, b, load):
    """append one element; load(k) gives the content for field key k"""
    n = vlen(ex, st, b); ek = ex.arr_ek(st, b)
    if isinstance(b.reg, tuple):
        for sub, _ in ex.arr_fields(st, b): ex.arr_store(st, b, n, sub, load(sub))
    else:
        o = st.w(b.reg)
        for k in list(o.f):
            if ek[0] == "vec":
                if k[0] == "n": o.f[k] = o.f[k].store((n,), load(k))
                else:
                    src = load(k); o.f[k] = o.f[k].where(lambda i, j: EQ(i, n), lambda i, j, src=src: src(j))
            else: o.f[k] = o.f[k].store((n,), load(k))
            ex.wrote(st, ("a", b.reg, k))
    vsetlen(ex, st, b, simp(ival(n) + 1) if isz(n) else n + 1)
def push_value(ex, st, b, ek, p):
    """append a copy of the object at p"""
    if ek[0] == "int":
        v = ex.load(st, p, Ty("int", ek[1])); v = ex.boolint(v) if isinstance(v, bool) else v
        vpush(ex, st, b, lambda k: v)
    elif ek[0] == "struct":
        vs = {o: ex.load(st, ex.gepb(st, p, o), Ty("int", bt)) for o, bt in ek[2]}
        vpush(ex, st, b, lambda k: vs[k])
    elif ek[0] == "vec":
        sb = vbuf(ex, st, p, ek[1]); fl = vfields(ex, st, sb); n = vlen(ex, st, sb)
        vpush(ex, st, b, lambda k: n if k[0] == "n" else fl[k[1]])
    elif ek[0] == "opq":
        vpush(ex, st, b, lambda k: None)
    else: raise Refuse("push of %r" % (ek,))

def conv_bits(fa, frm, to):
    if to >= frm: return fa
    return FArr(lambda i: simp(ival(fa(i)) % (1 << to)) if isz(fa(i)) else fa(i) % (1 << to))

def vec_model(ex, st, ins, args, dem):
    ek, m = elem_of(dem); me = m.group("m"); rest = m.group("rest")
    sret = bool(ins.x["pattrs"] and "sret" in ins.x["pattrs"][0])
    this = args[0]
    sig = rest
    if me == "vector":
        nargs = re.sub(r"^<.*?>(?=\()", "", sig) if sig.startswith("<") else sig
        if sig == "()" : vnew(ex, st, this, ek, 0, zero_fields(ek, ex)); return None
        if sig.startswith("(std::initializer_list"):
            ptr, n = args[1], args[2]
            return vec_from_range(ex, st, this, ek, ptr, Ptr(ptr.reg, ptr.idx + n * ek_size(ek) if not ex.is_arr(st, ptr) else ptr.idx + n, ptr.sub))
        if re.match(r"\((Shape|vec<.*>) const&", sig):
            b = vbuf(ex, st, args[1], ek); vnew(ex, st, this, ek, vlen(ex, st, b), vfields(ex, st, b)); return None
        if re.match(r"\((Shape|vec<.*>)&&", sig):
            b = vbuf(ex, st, args[1], ek); vnew(ex, st, this, ek, vlen(ex, st, b), vfields(ex, st, b))
            vset(ex, st, b, 0, zero_fields(ek, ex)); return None
        if re.match(r"\(u64, std::allocator", sig):
            vnew(ex, st, this, ek, args[1], zero_fields(ek, ex)); return None
        if re.match(r"\(u64, ", sig):
            if ek[0] == "int":
                v = ex.load(st, args[2], Ty("int", ek[1]))
                vnew(ex, st, this, ek, args[1], {0: FArr.const(v)}); return None
            if ek[0] == "vec":
                sb = vbuf(ex, st, args[2], ek[1]); fl = vfields(ex, st, sb); n = vlen(ex, st, sb)
                d = {("n", 0): FArr.const(n)}
                for s, _ in ek_inner(ek[1]): d[("d", s)] = FArr(lambda i, j, s=s: fl[s](j))
                vnew(ex, st, this, ek, args[1], d); return None
        if sig.startswith("<"):
            return vec_from_range(ex, st, this, ek, args[1], args[2])
        if sig.startswith("(std::allocator"): vnew(ex, st, this, ek, 0, zero_fields(ek, ex)); return None
        raise Refuse("vector constructor " + sig)
    if me == "~vector": return None
    if sret and me in ("rbegin", "rend", "crbegin", "crend"):      # a reverse iterator holds the forward position
        b = vbuf(ex, st, args[1], ek); ex.setcell(st, args[0].reg, args[0].idx, 8, elem_ptr(ex, b, vlen(ex, st, b) if "begin" in me else 0)); return None
    if sret:       # member returning by value through memory is not expected
        raise Refuse("vector member " + dem)
    b = vbuf(ex, st, this, ek)
    n = vlen(ex, st, b)
    if me == "size": return n
    if me in ("capacity",):
        c = ex.fresh_int(st, "cap"); st.assume(GE(c, n)); return c
    if me == "empty": return simpb(EQ(n, 0))
    if me == "operator[]":
        i = args[1]
        ex.oblige(st, "index within vector", LT(i, n)); st.ctx.term(i)
        return elem_ptr(ex, b, i)
    if me == "at":
        i = args[1]; c = simpb(LT(i, n))
        if c is True: return elem_ptr(ex, b, i)
        out = Outcomes()
        if ex.feasible(st, c):
            s = st.copy(); s.assume(c); out.append(("ret", s, elem_ptr(ex, b, i)))
        if ex.feasible(st, NOT(c)):
            s = st.copy(); s.assume(NOT(c)); out.append(("throw", s, "_ZTISt12out_of_range"))
        return out
    if me in ("front",):
        ex.oblige(st, "front of non-empty vector", GT(n, 0)); return elem_ptr(ex, b, 0)
    if me == "back":
        ex.oblige(st, "back of non-empty vector", GT(n, 0)); return elem_ptr(ex, b, simp(ival(n) - 1) if isz(n) else n - 1)
    if me in ("data", "begin", "cbegin"): return elem_ptr(ex, b, 0)
    if me in ("end", "cend"): return elem_ptr(ex, b, n)
    if me == "resize":
        fill = 0
        if rest.startswith("(u64, "):
            if ek[0] != "int": raise Refuse("resize with value")
            fill = ex.load(st, args[2], Ty("int", ek[1]))
        vresize(ex, st, b, args[1], fill); return None
    if me in ("reserve", "shrink_to_fit"): return None
    if me == "clear": vset(ex, st, b, 0, zero_fields(ek, ex)); return None
    if me in ("push_back", "emplace_back"):
        v = args[1] if len(args) > 1 else None
        if v is None:
            z = zero_fields(ek, ex)
            raise Refuse("emplace_back()") if ek[0] not in ("int",) else None
        if me == "emplace_back" and ek[0] == "struct" and len(args) > 2:
            vals = {o: ex.load(st, args[1 + i], Ty("int", bt)) for i, (o, bt) in enumerate(ek[2])}
            vpush(ex, st, b, lambda k: vals[k])
        else:
            push_value(ex, st, b, ek, v)
        if ek[0] == "vec" and "&&" in rest: pass
        return elem_ptr(ex, b, n)
    if me == "pop_back":
        ex.oblige(st, "pop of non-empty vector", GT(n, 0)); vsetlen(ex, st, b, simp(ival(n) - 1) if isz(n) else n - 1); return None
    if me == "operator=":
        if "initializer_list" in rest: raise Refuse("vector = init list")
        o = vbuf(ex, st, args[1], ek); fl = vfields(ex, st, o); m_ = vlen(ex, st, o)
        if o.reg == b.reg: return this
        vset(ex, st, b, m_, fl)
        if "&&" in rest: vset(ex, st, o, 0, zero_fields(ek, ex))
        return this
    if me == "swap":
        o = vbuf(ex, st, args[1], ek); f1, n1 = vfields(ex, st, b), n; f2, n2 = vfields(ex, st, o), vlen(ex, st, o)
        vset(ex, st, b, n2, f2); vset(ex, st, o, n1, f1); return None
    if me == "assign":
        if rest.startswith("(u64"):
            v = ex.load(st, args[2], Ty("int", ek[1])) if ek[0] == "int" else None
            if v is None: raise Refuse("assign")
            vset(ex, st, b, args[1], {0: FArr.const(v)}); return None
        n2, fl = range_fields(ex, st, ek, args[1], args[2])
        vset(ex, st, b, n2, fl); return None
    if me in ("insert", "_M_range_insert"):
        # insert(pos, first, last) at the end only, or general position
        pos, first, last = args[1], args[2], args[3]
        cnt, fl = range_fields(ex, st, ek, first, last)
        p0 = pos.idx
        ex.oblige(st, "insert position within vector", LE(p0, n))
        for sub, _ in ex.arr_fields(st, b):
            old = FArr(ex.arr_fn(st, b, sub)); src = fl[sub]
            hi = simp(ival(p0) + cnt) if isz(p0) or isz(cnt) else p0 + cnt
            ex.arr_set(st, b, sub, old.where(lambda j: GE(j, hi), lambda j: old(simp(ival(j) - cnt))).where(
                lambda j: AND(LE(p0, j), LT(j, hi)), lambda j: src(simp(ival(j) - p0))))
        vsetlen(ex, st, b, simp(ival(n) + cnt) if isz(n) or isz(cnt) else n + cnt)
        return Ptr(b.reg, p0)
    if me in ("rbegin", "rend"): raise Refuse("vector " + me)
    raise Refuse("vector member " + dem[:100])
def range_fields(ex, st, ek, first, last):
    if isinstance(first, Ptr) and ex.is_arr(st, first):
        cnt = simp(ival(last.idx) - first.idx) if isz(last.idx) or isz(first.idx) else last.idx - first.idx
        ex.oblige(st, "range is ordered", GE(cnt, 0))
        ex.bounds(st, first, first.idx, "range", cnt)
        sek = ex.arr_ek(st, first); s0 = first.idx
        if ek[0] == "int" and sek[0] == "int":
            f = ex.arr_fn(st, first); fa = FArr(f) if not isz(s0) and s0 == 0 else FArr(lambda i: f(simp(ival(i) + s0) if isz(i) or isz(s0) else i + s0))
            if isinstance(f, FArr) and not isz(s0) and s0 == 0: fa = f
            return cnt, {0: conv_bits(fa, sek[1], ek[1])}
        if ek == sek and ek[0] == "struct":
            return cnt, {o: FArr(lambda i, g=ex.arr_fn(st, first, o): g(simp(ival(i) + s0) if isz(i) or isz(s0) else i + s0)) for o, _ in ek[2]}
    elif isinstance(first, Ptr) and ek[0] == "int":
        es = ek_size(ek); n = last.idx - first.idx
        if isz(n) or n % es: raise Refuse("range")
        vals = [ex.load(st, Ptr(first.reg, first.idx + k * es), Ty("int", ek[1])) for k in range(n // es)]
        def f(i):
            if not isz(i): return vals[i] if 0 <= i < len(vals) else 0
            r = z3.IntVal(0)
            for k, v in enumerate(vals): r = z3.If(i == k, ival(v), r)
            return r
        return n // es, {0: FArr(f)}
    raise Refuse("range construction of %r" % (ek,))
def vec_from_range(ex, st, this, ek, first, last):
    n, fl = range_fields(ex, st, ek, first, last)
    vnew(ex, st, this, ek, n, fl)
    return None

# ---------------------------------------------------------------- algorithms
def count(ex, a, b):
    return simp(ival(b.idx) - a.idx) if isz(a.idx) or isz(b.idx) else b.idx - a.idx
def m_copy(ex, st, ins, args, dem):
    first, last, out = args[0], args[1], args[2]
    n = count(ex, first, last)
    ex.oblige(st, "range is ordered", GE(n, 0))
    se, de = ex.arr_ek(st, first), ex.arr_ek(st, out)
    if se == de:
        ex.copy_range(st, out, first, n)
    elif se[0] == "int" and de[0] == "int":
        ex.bounds(st, first, first.idx, "copy source", n); ex.bounds(st, out, out.idx, "copy destination", n)
        sf = ex.arr_fn(st, first); s0, d0 = first.idx, out.idx
        g = conv_bits(FArr(lambda j: sf(simp(ival(j) - d0 + s0))), se[1], de[1])
        hi = simp(ival(d0) + n); df = FArr(ex.arr_fn(st, out))
        ex.arr_set(st, out, 0, df.where(lambda j: AND(LE(d0, j), LT(j, hi)), g))
    else: raise Refuse("copy between %r and %r" % (se, de))
    return Ptr(out.reg, simp(ival(out.idx) + n) if isz(n) or isz(out.idx) else out.idx + n, out.sub)
def m_fill(ex, st, ins, args, dem):
    first, last = args[0], args[1]; n = count(ex, first, last)
    ek = ex.arr_ek(st, first)
    if ek[0] != "int": raise Refuse("fill")
    v = ex.load(st, args[2], Ty("int", ek[1]))
    ex.oblige(st, "range is ordered", GE(n, 0))
    ex.fill_range(st, first, n, v)
    return None
def m_fill_n(ex, st, ins, args, dem):
    first, n = args[0], args[1]; ek = ex.arr_ek(st, first)
    v = ex.load(st, args[2], Ty("int", ek[1])); ex.fill_range(st, first, n, v)
    return Ptr(first.reg, simp(ival(first.idx) + n), first.sub)
def m_reverse(ex, st, ins, args, dem):
    a, b = args; n = count(ex, a, b)
    ex.oblige(st, "range is ordered", GE(n, 0)); ex.bounds(st, a, a.idx, "reverse", n)
    f = FArr(ex.arr_fn(st, a)); lo, hi = a.idx, b.idx
    ex.arr_set(st, a, 0, f.where(lambda j: AND(LE(lo, j), LT(j, hi)), lambda j: f(simp(ival(lo) + hi - 1 - j))))
    return None
def m_minmax(which):
    def f(ex, st, ins, args, dem):
        ta = re.search(r"(?:min|max)<(.*?)>", dem).group(1)
        ek = ELEM.get(ta)
        if ek is None: raise Refuse("min of " + ta)
        a = ex.load(st, args[0], Ty("int", ek[1])); b = ex.load(st, args[1], Ty("int", ek[1]))
        sa, sb = (ex.to_signed(st, a, ek[1]), ex.to_signed(st, b, ek[1])) if ta in ("int", "long", "short") else (a, b)
        c = simpb(LT(sb, sa)) if which == "min" else simpb(LT(sa, sb))
        r = ex.new_struct(st, which); st.w(r).cells[0] = (ek[1] // 8, ITE(c, b, a))
        return Ptr(r)
    return f
def prodfn(ex, st, p, sub=0):
    """ghost: exact prefix products of the content of p's region; PR(i) = prod_{k<i} A[k]"""
    f = ex.arr_fn(st, p, sub)
    key = ("prod", id(f)) if isinstance(f, FArr) else ("prod", p.reg[1], id(st.mem[p.reg[1]].f[("d", sub)]), p.reg[2].get_id() if isz(p.reg[2]) else p.reg[2])
    d = ex.ghosts = getattr(ex, "ghosts", {})
    if key not in d:
        PR = basefn("PROD", 1, None)
        d[key] = (PR, f)
    PR = d[key][0]
    gk = ("prodax", PR.name())
    if gk not in st.ghost:
        st.ghost[gk] = True
        st.assume(PR(0) == 1)
        st.ctx.forall(Forall(lambda k: IMP(k >= 0, PR(k + 1) == PR(k) * f(k)), 1, "prefix product"))
        st.ctx.forall(Forall(lambda k: IMP(k >= 1, PR(k) == PR(k - 1) * f(simp(k - 1))), 1, "prefix product", trig=[PR.name()]))
        st.ctx.forall(Forall(lambda k: IMP(k >= 0, PR(k) >= 0), 1, "prefix product", trig=[PR.name()]))
    return PR
def m_accumulate(ex, st, ins, args, dem):
    first, last, init = args[0], args[1], args[2]
    n = count(ex, first, last)
    if "multiplies" not in dem and "plus" not in dem:
        if "{lambda" in dem or "$_" in dem: raise Refuse("accumulate with lambda")
    op = "mul" if "multiplies" in dem else "add"
    if not isz(n):
        acc = init
        for k in range(n):
            i = simp(ival(first.idx) + k) if isz(first.idx) else first.idx + k
            ex.bounds(st, first, i, "accumulate")
            acc = ex.binop(st, op, acc, ex.arr_sel(st, first, i, 0), 64, ins)
        return acc
    if op == "mul" and first.idx == 0 and init == 1:
        ex.bounds(st, first, 0, "accumulate", n)
        PR = prodfn(ex, st, first)
        return ex.wrap(st, PR(ival(n)), 64)
    raise Refuse("accumulate over a range of unknown length")

# ---------------------------------------------------------------- strings (ghost terms)
def sset(ex, st, p, t):
    ex.setcell(st, p.reg, p.idx, 32, Opq("str", t)) if not ex.is_arr(st, p) else None
def sget(ex, st, p):
    if ex.is_arr(st, p): return ex.fresh_obj("selem")
    c = st.mem[p.reg].cells.get(p.idx)
    if c is None:
        t = ex.fresh_obj("s"); st.w(p.reg).cells[p.idx] = (32, Opq("str", t)); return t
    if not isinstance(c[1], Opq): raise Refuse("string object expected")
    return c[1].t
def cstr(ex, st, p):
    if isinstance(p, Ptr) and p.reg in st.mem and st.mem[p.reg].kind == "s" and isinstance(st.mem[p.reg].ty, tuple) and st.mem[p.reg].ty[0] == "cstr":
        return strconst(st.mem[p.reg].ty[1].split(b"\0")[0].decode("latin1"))
    if isinstance(p, Ptr) and ("cstr", p.reg) in st.ghost: return st.ghost[("cstr", p.reg)]
    return ex.fresh_obj("cstr")
def cat(a, b):
    e = strconst("")
    if a.eq(e): return b
    if b.eq(e): return a
    ka, kb = z3.is_const(a) and a.decl().name().startswith("str:"), z3.is_const(b) and b.decl().name().startswith("str:")
    if ka and kb: return strconst(eval(a.decl().name()[4:]) + eval(b.decl().name()[4:]))
    # right-associate
    if z3.is_app(a) and a.decl().name() == "cat": return CAT(a.arg(0), cat(a.arg(1), b))
    return CAT(a, b)
def m_str_ctor(ex, st, ins, args, dem):
    sig = dem[dem.index("basic_string") + 12:]
    if sig.startswith("()"): t = strconst("")
    elif "string const&" in sig or "string&&" in sig: t = sget(ex, st, args[1])
    elif "char const*" in sig: t = cstr(ex, st, args[1])
    else: t = ex.fresh_obj("str")
    sset(ex, st, args[0], t); return None
def m_str_plus(ex, st, ins, args, dem):
    sig = dem[dem.rindex("(") + 1:-1].split(", ")
    def arg(k, a):
        if "char const*" in k: return cstr(ex, st, a)
        if k == "char": return charstr(a)
        return sget(ex, st, a)
    sset(ex, st, args[0], cat(arg(sig[0], args[1]), arg(sig[1], args[2]))); return None
CHR = z3.Function("chr", z3.IntSort(), OBJ)
def charstr(a):
    if isinstance(a, int): return strconst(chr(a))
    return CHR(ival(a))
def m_str_append(ex, st, ins, args, dem):
    t = sget(ex, st, args[0])
    s = cstr(ex, st, args[1]) if "char const*" in dem else charstr(args[1]) if "(char)" in dem else sget(ex, st, args[1])
    sset(ex, st, args[0], cat(t, s)); return args[0]
def m_str_assign(ex, st, ins, args, dem):
    s = cstr(ex, st, args[1]) if "char const*" in dem else charstr(args[1]) if "(char)" in dem else sget(ex, st, args[1])
    sset(ex, st, args[0], s); return args[0]
def m_to_string(ex, st, ins, args, dem):
    v = args[1]
    if "(int)" in dem: v = ex.to_signed(st, v, 32)
    sset(ex, st, args[0], DEC(ival(v))); return None
def m_str_empty(ex, st, ins, args, dem):
    t = sget(ex, st, args[0])
    return simpb(str_is_empty(t))
def str_is_empty(t):
    if t.eq(strconst("")): return True
    n = t.decl().name()
    if n == "dec" or n == "chr": return False
    if n.startswith("str:"): return False
    if n == "cat": return AND(str_is_empty(t.arg(0)), str_is_empty(t.arg(1)))
    return t == strconst("")
def m_str_eq(ex, st, ins, args, dem):
    a = sget(ex, st, args[0])
    b = cstr(ex, st, args[1]) if "char const*" in dem.split("(")[-1] else sget(ex, st, args[1])
    return simpb(EQ(a, b)) if not "operator!=" in dem else simpb(NOT(EQ(a, b)))
def m_str_misc(ex, st, ins, args, dem):
    if "size()" in dem or "length()" in dem:
        t = sget(ex, st, args[0]); f = z3.Function("strlen", OBJ, z3.IntSort())
        st.assume(z3.And(f(t) >= 0, f(t) < (1 << 62)))
        st.assume((f(t) == 0) == (t == strconst("")))
        return f(t)
    if "c_str()" in dem or "data()" in dem:
        t = sget(ex, st, args[0]); r = ex.new_struct(st, "cstr"); st.ghost[("cstr", r)] = t; return Ptr(r)
    if ins.x["pattrs"] and "sret" in ins.x["pattrs"][0]:
        sset(ex, st, args[0], ex.fresh_obj("str")); return None
    if ins.ty.k == "ptr": return args[0]
    return ex.fresh_val(st, ins.ty, "str") if ins.ty.k != "void" else None

# ---------------------------------------------------------------- runtime
def m_throw(ex, st, ins, args, dem):
    t = args[1]
    ty = None
    v = ins.args[1][1]
    if v[0] == "glob": ty = v[1]
    return Outcomes([("throw", st, ty, args[0])])
def m_alloc_exc(ex, st, ins, args, dem): return Ptr(ex.new_struct(st, "exception"))
def m_nop(ex, st, ins, args, dem): return None
def m_rethrow(ex, st, ins, args, dem):
    if not st.caught: raise Refuse("rethrow")
    p, t = st.caught[-1]
    return Outcomes([("throw", st, t, p)])
def m_begin_catch(ex, st, ins, args, dem):
    st.caught = st.caught + [st.exc]; return args[0]
def m_end_catch(ex, st, ins, args, dem):
    st.caught = st.caught[:-1]; return None
def m_terminate(ex, st, ins, args, dem):
    st.status = "terminate"; return Outcomes([("state", st)])
def m_memcpy(ex, st, ins, args, dem):
    ex.copy_mem(st, args[0], args[1], args[2]); return args[0] if ins.ty.k == "ptr" else None
def m_memset(ex, st, ins, args, dem):
    p, v, n = args[0], args[1], args[2]
    if ex.is_arr(st, p) and ex.arr_es(st, p) == 1: ex.fill_range(st, p, n, v)
    elif not isz(n) and not ex.is_arr(st, p):
        if v != 0: raise Refuse("memset")
        ty = st.mem[p.reg].ty
        for k in [o for o in st.mem[p.reg].cells if p.idx <= o < p.idx + n]: st.w(p.reg).cells.pop(k)
        for k in range(n): ex.setcell(st, p.reg, p.idx + k, 1, 0)
    else: raise Refuse("memset")
    return args[0] if ins.ty.k == "ptr" else None
def m_typeid_for(ex, st, ins, args, dem):
    v = ins.args[0][1]
    if v[0] != "glob": raise Refuse("eh.typeid.for")
    return ex.typeid(v[1])
def m_new(ex, st, ins, args, dem):
    n = args[0]
    r = ex.new_struct(st, "heap") if not isz(n) else None
    if r is None: raise Refuse("symbolic allocation")
    return Ptr(r)
def m_exc_ctor(ex, st, ins, args, dem): return None
def m_fdiv_overflow(ex, st, ins, args, dem):
    a, b = args; bits = ins.args[0][0].a
    exact = ival(a) * b if "mul" in dem else ival(a) + b if "add" in dem else ival(a) - b
    exact = simp(exact)
    if "llvm.s" in dem: raise Refuse("signed overflow intrinsic")
    return (ex.wrap(st, exact, bits), simpb(OR(GE(exact, 1 << bits), LT(exact, 0))))
def m_umax(ex, st, ins, args, dem):
    a, b = args; return ITE(simpb(LT(a, b)), b, a) if "max" in dem else ITE(simpb(LT(a, b)), a, b)
def m_array_at(ex, st, ins, args, dem):
    n = int(re.search(r"std::array<.*?, (\d+)[a-zA-Z]*>::", dem).group(1)); i = args[1]
    ex.oblige(st, "index within array", LT(i, n))
    p = args[0]
    if ex.is_arr(st, p): return Ptr(p.reg, simp(ival(p.idx) + i) if isz(i) or isz(p.idx) else p.idx + i)
    if isz(i): raise Refuse("symbolic index into a small array")
    m = re.search(r"std::array<(.*?), \d+", dem); ek = ELEM.get(m.group(1))
    if ek is None: raise Refuse("array of " + m.group(1))
    return ex.gepb(st, p, i * ek_size(ek))
def m_count_if(*a): raise Refuse("count")
def m_all_of(ex, st, ins, args, dem):
    return pred_loop(ex, st, ins, args, dem)
def m_abs(ex, st, ins, args, dem): raise Refuse("abs")

def generic_havoc(ex, st, ins, args, name, dem):
    """unknown external function: everything reachable through non-const arguments may change, any value may be returned"""
    ex.havocked.add(dem)
    st.approx.append(dem[:80])
    params = dem[dem.rfind("(") + 1:-1] if "(" in dem else ""
    for (ty, _), a, at in zip(ins.args, args, ins.x["pattrs"]):
        if "sret" in at and isinstance(a, Ptr) and a.reg in st.mem and st.mem[a.reg].kind == "s":
            st.w(a.reg).cells = {}; ex.wrote(st, ("c", a.reg, 0, 0))
    if ins.ty.k == "void": return None
    return ex.fresh_val(st, ins.ty, "ext")

BASE_MODELS = [
    (r"^llvm\.(dbg|lifetime|assume|experimental|donothing|prefetch|invariant|stacksave|stackrestore)", m_nop),
    (r"^llvm\.mem(cpy|move)", m_memcpy), (r"^(memcpy|memmove|std::memcpy)$", m_memcpy), (r"^llvm\.memset|^memset$", m_memset),
    (r"^llvm\.eh\.typeid\.for", m_typeid_for), (r"^llvm\.(u|s)(mul|add|sub)\.with\.overflow", m_fdiv_overflow),
    (r"^llvm\.u(max|min)\.", m_umax),
    (r"^__cxa_throw$", m_throw), (r"^__cxa_allocate_exception$", m_alloc_exc), (r"^__cxa_free_exception$", m_nop), (r"^__cxa_rethrow$", m_rethrow),
    (r"^__cxa_begin_catch$", m_begin_catch), (r"^__cxa_end_catch$", m_end_catch), (r"^__clang_call_terminate$|^std::terminate\(\)$", m_terminate),
    (r"^std::\w+::(runtime_error|logic_error|invalid_argument|out_of_range|length_error|domain_error)\(|^std::(runtime_error|logic_error|invalid_argument|out_of_range|length_error|domain_error|exception|overflow_error|range_error)::~?\w+\(", m_exc_ctor),
    (r"^operator new\(|^operator new\[\]\(", m_new), (r"^operator delete", m_nop),
    (r"^std::array<.*>::operator\[\]\(", m_array_at),
    (r"std::accumulate<", m_accumulate),
    (r"^u64 const& std::(min)<|^\w+ const& std::min<", m_minmax("min")), (r"^\w+ const& std::max<", m_minmax("max")),
    (r"(^|[ *&])std::copy<", m_copy), (r"^void std::fill<", m_fill), (r"std::fill_n<", m_fill_n), (r"^void std::reverse<", m_reverse),
    (r"^string::basic_string(<.*>)?\(", m_str_ctor), (r"^string::~basic_string", m_nop), (r"^string std::operator\+<", m_str_plus),
    (r"^string::(append|operator\+=|push_back)\(", m_str_append), (r"^string::(operator=|assign)\(", m_str_assign),
    (r"^std::__cxx11::to_string\(", m_to_string), (r"^string::empty\(\)", m_str_empty), (r"^bool std::operator(==|!=)<char", m_str_eq),
    (r"^string::", m_str_misc), (r"^std::allocator<.*>::~?allocator", m_nop), (r"^std::__new_allocator", m_nop),
    (r"^vec<string>::", lambda ex, st, ins, args, dem: vec_model(ex, st, ins, args, dem)),
]
