"""Encoding of chunks: util/format_data.hxx over an abstract codec (C06, C07, C14, C18)."""
from effects import *
import format as fm

RT = "_ZTISt13runtime_error"
TN = {2: "u16", 1: "u8", 8: "double"}
MANG = {2: "t", 1: "h", 8: "d"}
# ------------------------------------------------------------------ abstract codec (contract of CompressorBase; each codec is verified against it separately)
def compressor(ex, st, w, name="compressor"):
    """an object of unknown dynamic type below CompressorBase<T>: every virtual call goes to the interface contract"""
    c = ex.new_struct(st, name); v = ex.new_struct(st, "vtable:codec")
    src = ex.mod.globs.get("_ZTVN2z511compression13RawCompressorI%sEE" % MANG[w])
    if src is None: raise Refuse("codec interface not found")
    vt = ex.globptr(st, "_ZTVN2z511compression13RawCompressorI%sEE" % MANG[w])
    for off, (sz, x) in st.mem[vt.reg].cells.items():
        if off >= 16 and isinstance(x, FnPtr):
            d = ex.mod.dem(x.name); m = re.search(r"::(~?\w+)\(", d)
            st.w(v).cells[off - 16] = (8, ("vslot", w, m.group(1) if m else d))
    st.w(c).cells[0] = (8, Ptr(v))
    u = ex.new_struct(st, name + ".ptr"); st.w(u).cells[0] = (8, Ptr(c))
    st.ghost["ctype"] = ex.fresh_int(st, "ctype", 32)
    return Ptr(u), Ptr(c)
def snap(ex, st, p):
    f, i0 = ex.arr_fn(st, p), p.idx
    return lambda k: f(simp(ival(i0) + k))
def m_ctype(ex, st, ins, args, dem): return st.ghost["ctype"]
def bytelen(n, w): return simp(ival(n) * w)
def codec_compress(ex, st, data, n, buf, w):
    ex.bounds(st, data, data.idx, "codec input", n)
    if ex.arr_es(st, data) != w: raise Refuse("codec input of another type")
    s = snap(ex, st, data); out = Outcomes(); th = st.copy()
    junk(ex, th, buf); out.append(("throw", th, RT))
    b = vbuf(ex, st, buf, EK(8)); m = ex.fresh_int(st, "enclen"); st.assume(m < (1 << 60)); e = FArr.sym("ENC", 1, 8)
    vset(ex, st, b, m, {0: e})
    st.ghost["codec"] = st.ghost.get("codec", ()) + (("compress", s, n, e, m),)
    out.append(("ret", st, None)); return out
def junk(ex, st, buf):
    b = vbuf(ex, st, buf, EK(8)); n = ex.fresh_int(st, "junk"); st.assume(n < (1 << 60)); vset(ex, st, b, n, {0: FArr.sym("JUNK", 1, 8)})
def m_ccompress(ex, st, ins, args, dem): return codec_compress(ex, st, args[1], args[3], args[2], int(re.search(r"\((\d+),", dem).group(1)))
def m_cdecompress(ex, st, ins, args, dem):
    w = int(re.search(r"\((\d+),", dem).group(1)); src, nb, dst, n = args[1:5]
    ex.bounds(st, src, src.idx, "codec input", nb); ex.bounds(st, dst, dst.idx, "codec output", n)
    if ex.arr_es(st, src) != 1 or ex.arr_es(st, dst) != w: raise Refuse("codec argument of another type")
    s = snap(ex, st, src); lo = ival(dst.idx); hi = simp(lo + n); out = Outcomes(); th = st.copy()
    jk = FArr.sym("PARTIAL", 1, 8 * w); df = FArr(ex.arr_fn(th, dst)); ex.arr_set(th, dst, 0, df.where(lambda j: AND(LE(lo, j), LT(j, hi)), jk)); out.append(("throw", th, RT))
    d = FArr.sym("DECODED", 1, 8 * w); df2 = FArr(ex.arr_fn(st, dst)); ex.arr_set(st, dst, 0, df2.where(lambda j: AND(LE(lo, j), LT(j, hi)), lambda j: d(simp(ival(j) - lo))))
    st.ghost["codec"] = st.ghost.get("codec", ()) + (("decompress", s, nb, d, n),)
    out.append(("ret", st, None)); return out
CODECMODELS = [(r"^virtual:.*'type'", m_ctype), (r"^virtual:.*'compress'", m_ccompress), (r"^virtual:.*'decompress'", m_cdecompress)]

def m_all_of(ex, st, ins, args, dem):
    """std::all_of over an array: the predicate is executed once on a symbolic element"""
    first, last, clo = args[0], args[1], args[2]; n = count(ex, first, last)
    ek = ex.arr_ek(st, first)
    if ek[0] != "int": raise Refuse("all_of over %r" % (ek,))
    ex.oblige(st, "range is ordered", GE(n, 0)); ex.bounds(st, first, first.idx, "all_of", n)
    fn = lambda_of(ex, dem)
    s = st.copy(); s.frames = []; r = ex.new_struct(s, "closure")
    if not isinstance(clo, Ptr): s.w(r).cells[0] = (max(1, ins.args[2][0].a // 8) if ins.args[2][0].k == "int" else 8, clo); obj = Ptr(r)
    else: obj = clo
    e = z3.Int(fresh("elem")); s.assume(z3.And(e >= 0, e < (1 << ek[1])))
    f = ex.mod.func(fn); byptr = f.params[1][0].k == "ptr"
    if byptr: q = ex.new_struct(s, "elem"); s.w(q).cells[0] = (ek[1] // 8, e); ex.push(s, f, [obj, Ptr(q)])
    else: ex.push(s, f, [obj, e])
    outs = ex.run([s]); outs = [o for o in outs if not isinstance(o, tuple)]
    if len(outs) != 1 or outs[0].status != "ret": raise Refuse("predicate with several outcomes")
    p = ex.asbool(outs[0].ret); p = z3.BoolVal(p) if isinstance(p, bool) else p
    el = ex.arr_fn(st, first); i0 = first.idx
    P = lambda k: z3.substitute(p, (e, ival(el(simp(ival(i0) + k)))))
    b = z3.Bool(fresh("all_of")); w = z3.Int(fresh("wit"))
    st.ctx.forall(Forall(lambda k: IMP(AND(b, k >= 0, LT(k, n)), P(k)), 1, "all_of"))
    st.assume(z3.Implies(z3.Not(b), AND(w >= 0, LT(w, n), NOT(P(w)))))
    return b
def lambda_of(ex, dem):
    """the call operator of the lambda passed to an algorithm (from the algorithm's demangled template arguments)"""
    c = []
    for n in ex.mod.defs:
        d = ex.mod.dem(n)
        if "{lambda" in d and "}::operator()(" in d:
            i = d.rindex("}::operator()("); lam = d[:i + 1]
            for k in (0, d.find(" ") + 1):
                if k >= 0 and lam[k:] and ", %s>(" % lam[k:] in dem: c.append(n); break
    if len(c) != 1: raise Refuse("predicate not found")
    return c[0]
ENCMODELS = FSMODELS + CODECMODELS + [(r"std::all_of<", m_all_of)]

class EncBase(FsBase):
    models = ENCMODELS; w = 2
    def data(self, ex, st, n, name="data"):
        f = basefn(name, 1, 8 * self.w); r = ex.new_arr(st, name, EK(8 * self.w), n, {0: FArr(f)}); return Ptr(r), f
    def size(self, ex, st, name, lim=1 << 56):
        n = self.conc if self.conc is not None else ex.fresh_int(st, name); st.assume(z3.And(n >= 1, n < lim)) if isz(n) else None; return n
def byte_of(f, k, w):
    """byte k of the little-endian memory image of f's elements"""
    return simp((ival(f(simp(k / w))) / POW256(k % w, w)) % 256)

class Compress(EncBase):
    name = "util::compress<uint16_t>"; w = 2; callees = ()
    pattern = property(lambda s: r"^void z5::util::compress<%s, std::unique_ptr" % TN[s.w])
    desc = "the buffer holds the bytes of the data (raw) or the codec's output for exactly the given elements"
    def setup(self, ex, st):
        self.ready(ex); n = self.n = self.size(ex, st, "n"); self.d, self.f = self.data(ex, st, n)
        self.buf = mkvec(ex, st, "buffer", ex.fresh_int(st, "oldsize"), ek=EK(8)); u, c = compressor(ex, st, self.w)
        return [self.d, n, self.buf, u]
    def post(self, ex, st, st0, ret):
        f, n, w = self.f, self.n, self.w; k = z3.Int(fresh("k")); raw = st.ghost["ctype"] == 0; B, m = V(ex, st, self.buf), N(ex, st, self.buf); c = st.ghost.get("codec", ())
        if not c: return [("only raw data bypasses the codec", raw), ("raw: size of the data in bytes", EQ(m, bytelen(n, w)))] + \
            [("raw: the bytes of the data", IMP(AND(k >= 0, LT(k, n)), EQ(B(simp(k * w + j)), fm.BY(f(k), j)))) for j in range(w)]
        if len(c) > 1 or c[0][0] != "compress": return [("the codec runs once", False)]
        _, s, cn, e, em = c[0]
        return [("the codec gets every element", EQ(cn, n)), ("the codec gets the data", IMP(AND(k >= 0, LT(k, n)), EQ(s(k), f(k)))),
                ("the buffer is the codec's output", AND(EQ(m, em), IMP(AND(k >= 0, LT(k, em)), EQ(B(k), e(k)))))]
    def exc(self, ex, st, st0, ty): return [("only the codec fails", st.ghost["ctype"] != 0)]
    def apply(self, ex, st, ins, args):
        data, n, buf = args[0], args[1], args[2]; w = self.w; ct = st.ghost["ctype"]; out = Outcomes()
        if ex.arr_es(st, data) != w: raise Refuse("compress of another type")
        ex.oblige(st, "at least one element is compressed", GE(n, 1)); ex.bounds(st, data, data.idx, "data to compress", n)
        if ex.feasible(st, ct == 0):
            s = st.copy(); s.assume(ct == 0); f = snap(ex, s, data); b = vbuf(ex, s, buf, EK(8)); e = FArr.sym("RAWB", 1, 8)
            for j in range(w): s.ctx.forall(Forall(lambda k, j=j: IMP(AND(k >= 0, LT(k, n)), EQ(e(simp(k * w + j)), fm.BY(f(k), j))), 1, "raw bytes"))
            vset(ex, s, b, bytelen(n, w), {0: e}); s.ghost["codec"] = s.ghost.get("codec", ()) + (("raw", f, n, e, bytelen(n, w)),); out.append(("ret", s, None))
        if ex.feasible(st, ct != 0):
            st.assume(ct != 0)
            for o in codec_compress(ex, st, data, n, buf, w): out.append(o)
        return out
class Compress8(Compress): name = "util::compress<uint8_t>"; w = 1

class DataToN5(EncBase):
    name = "util::data_to_n5_format<uint16_t>"; w = 2; callees = (fm.WriteHeader, Compress) + fm.REVS
    pattern = property(lambda s: r"^void z5::util::data_to_n5_format<%s, std::unique_ptr" % TN[s.w])
    desc = "the buffer is the n5 header followed by the encoding of exactly the given elements with their bytes reversed; the caller's data is not changed"
    def setup(self, ex, st):
        self.ready(ex); n = self.n = self.size(ex, st, "n", 1 << 32); self.d, self.f = self.data(ex, st, n); nd = self.nd = self.ndim(ex, st, 0); st.assume(ival(nd) < (1 << 15))
        self.shape = self.vecin(ex, st, "shape", nd); S = V(ex, st, self.shape); st.ctx.forall(Forall(lambda k: IMP(AND(k >= 0, LT(k, nd)), S(k) < (1 << 32)), 1, "extents fit 32 bits"))
        self.buf = mkvec(ex, st, "buffer", ex.fresh_int(st, "oldsize"), ek=EK(8)); u, c = compressor(ex, st, self.w); self.vl = z3.Bool(fresh("isVarlen"))
        return [self.d, n, self.shape, self.buf, u, self.vl]
    def post(self, ex, st, st0, ret):
        f, n, w, nd = self.f, self.n, self.w, ival(self.nd); k = z3.Int(fresh("k")); B, m = V(ex, st, self.buf), N(ex, st, self.buf); c = st.ghost.get("codec", ()); S = V(ex, st0, self.shape)
        if len(c) != 1 or c[0][0] not in ("raw", "compress"): return [("the codec runs once", False)]
        _, s, cn, e, em = c[0]; hl = simp(4 * (nd + 1) + z3.If(self.vl, z3.IntVal(4), z3.IntVal(0))); R = fm.REVF(ex, st, w) if w > 1 else (lambda v: v)
        return [("the codec gets every element", EQ(cn, n)), ("the codec gets the elements in big-endian byte order", IMP(AND(k >= 0, LT(k, n)), EQ(s(k), R(f(k))))),
                ("length: header plus encoded data", EQ(m, simp(hl + em))), ("the buffer starts with the header", IMP(z3.And(k >= 0, k < hl), EQ(B(k), fm.hdr_byte(k, nd, S, self.vl, ival(n) % (1 << 32), None)))),
                ("the encoded data follows the header", IMP(z3.And(k >= 0, LT(k, em)), EQ(B(simp(hl + k)), e(k)))),
                ("the caller's data is unchanged", IMP(z3.And(k >= 0, LT(k, n)), EQ(st.mem[self.d.reg].f[0](k), f(k))))]
    def exc(self, ex, st, st0, ty): return [("only the codec fails", st.ghost["ctype"] != 0)]
    def apply(self, ex, st, ins, args):
        data, n, shape, buf, u, vl = args; w = self.w; nd = ival(N(ex, st, shape)); S = V(ex, st, shape); vl = ex.asbool(vl)
        ex.oblige(st, "at least one element is encoded", GE(n, 1)); ex.bounds(st, data, data.idx, "data to encode", n)
        if ex.arr_es(st, data) != w: raise Refuse("data of another type")
        R = fm.REVF(ex, st, w) if w > 1 else (lambda v: v); f = snap(ex, st, data); out = Outcomes(); th = st.copy(); th.assume(st.ghost["ctype"] != 0); junk(ex, th, buf); out.append(("throw", th, RT))
        hl = simp(4 * (nd + 1) + ITE(vl, z3.IntVal(4), z3.IntVal(0))); e = FArr.sym("ENC", 1, 8); em = ex.fresh_int(st, "enclen"); st.assume(em < (1 << 60))
        b = vbuf(ex, st, buf, EK(8)); vset(ex, st, b, simp(hl + em), {0: FArr(lambda k: z3.If(ival(k) < hl, fm.hdr_byte(ival(k), nd, S, vl, ival(n) % (1 << 32), None), e(simp(ival(k) - hl))))})
        st.ghost["codec"] = st.ghost.get("codec", ()) + (("n5", f, n, e, em),)
        out.append(("ret", st, None)); return out
class DataToN58(DataToN5): name = "util::data_to_n5_format<uint8_t>"; w = 1; callees = (fm.WriteHeader, Compress8) + fm.REVS

class ChunkObj:
    """a filesystem chunk handle with a symbolic geometry (bounded shape below the default shape, sizes as exact products)"""
    def __init__(self, con, ex, st, nd, small=True):
        mod = ex.mod; reg = self.reg = ex.new_struct(st, "chunk"); h = self.h = con.handle(ex, st, "Chunk", reg=reg)
        self.dsh = con.handle(ex, st, "Dataset", name="dshandle")
        st.w(reg).cells[read_off(mod, r"^z5::filesystem::handle::Chunk::datasetHandle\(\) const", "dsh")] = (8, self.dsh.p)
        co = lambda leaf: acc_off(mod, r"^z5::handle::Chunk<z5::filesystem::handle::Chunk>::%s\(\) const" % leaf, "chunk." + leaf)
        self.oi, self.ob, self.od = co("chunkIndices"), co("shape"), co("defaultShape")
        for o, nm in ((self.oi, "indices"), (self.ob, "bounded"), (self.od, "default")): setvec(ex, st, reg, o, nm, nd)
        self.p = Ptr(reg); self.I, self.B, self.D = [V(ex, st, Ptr(reg, o)) for o in (self.oi, self.ob, self.od)]
        B, D = self.B, self.D
        st.ctx.forall(Forall(lambda k: IMP(AND(k >= 0, LT(k, nd)), z3.And(D(k) >= 1, B(k) <= D(k), D(k) < (1 << 32))), 1, "chunk geometry"))
        self.zarr = self.iszarr(ex, st, con)
        self.PB, self.PD = prodfn(ex, st, vbuf(ex, st, Ptr(reg, self.ob))), prodfn(ex, st, vbuf(ex, st, Ptr(reg, self.od)))
        self.nb, self.ndf = self.PB(ival(nd)), self.PD(ival(nd))
        st.assume(z3.And(self.nb >= 0, self.nb <= self.ndf, self.ndf >= 1, self.ndf < (1 << 56)))      # sizes of chunks
    def iszarr(self, ex, st, con):
        """the cached format flag of the dataset handle, found by executing the real accessor"""
        off = cache_off(ex.mod); v = z3.Int(fresh("fmt")); st.assume(z3.And(v >= 0, v <= 1)); st.w(self.dsh.p.reg).cells[self.dsh.p.idx + off] = (1, v); return v == 1
def read_off(mod, pat, key):
    """offset of the only member read by a real accessor"""
    if ("rd", id(mod), key) in LAY: return LAY[("rd", id(mod), key)]
    box = {}
    def setup(ex, st):
        box["r"] = ex.new_struct(st, "obj"); return [Ptr(box["r"])]
    ex, outs = run_concrete(mod, pat, setup, fsmodels())
    c = list(outs[0].mem[box["r"]].cells)
    if len(outs) != 1 or len(c) != 1: raise Refuse("accessor " + pat)
    LAY[("rd", id(mod), key)] = c[0]; return c[0]
def cache_off(mod):
    """offset of the cached zarr flag: the byte written by setIsZarr"""
    if ("cache", id(mod)) in LAY: return LAY[("cache", id(mod))]
    box = {}
    def setup(ex, st):
        ex.models.inline_extra += [re.compile(r) for r in FsBase.inline]; box["r"] = ex.new_struct(st, "obj"); return [Ptr(box["r"]), True]
    ex, outs = run_concrete(mod, r"^z5::filesystem::handle::Dataset::setIsZarr\(bool\) const", setup, fsmodels())
    c = list(outs[0].mem[box["r"]].cells.items())
    if len(c) != 1 or c[0][1][0] != 1: raise Refuse("format flag of the dataset handle")
    LAY[("cache", id(mod))] = c[0][0]; return c[0][0]

class DataToBuffer(EncBase):
    name = "util::data_to_buffer<uint16_t>"; w = 2; callees = (Compress, DataToN5)
    pattern = property(lambda s: r"^bool z5::util::data_to_buffer<z5::filesystem::handle::Chunk, %s, std::unique_ptr" % TN[s.w])
    desc = "false iff every element of the chunk equals the fill value (or the varlen size is 0); otherwise the buffer encodes exactly the chunk's elements (default shape for zarr, clipped shape for n5)"
    def setup(self, ex, st):
        self.ready(ex); nd = self.nd = self.ndim(ex, st); st.assume(ival(nd) < (1 << 15)); c = self.c = ChunkObj(self, ex, st, nd)
        self.vl = z3.Bool(fresh("isVarlen")); self.vs = self.intin(ex, st, "varSize"); st.assume(self.vs < (1 << 32)); self.fill = self.intin(ex, st, "fillValue", 8 * self.w)
        self.n = z3.If(c.zarr, c.ndf, c.nb); self.m = z3.If(self.vl, self.vs, self.n)
        L = ex.fresh_int(st, "capacity"); st.assume(L == self.m); self.d, self.f = self.data(ex, st, L)
        self.buf = mkvec(ex, st, "buffer", ex.fresh_int(st, "oldsize"), ek=EK(8)); u, cc = compressor(ex, st, self.w)
        return [c.p, self.d, self.buf, u, self.fill, self.vl, self.vs]
    def post(self, ex, st, st0, ret):
        r = ex.asbool(ret); c = self.c; k = z3.Int(fresh("k")); f, n, fill = self.f, self.n, self.fill; log = st.ghost.get("codec", ())
        allfill = z3.Bool("ghost:all elements equal the fill value")
        st.ctx.forall(Forall(lambda k: IMP(AND(allfill, k >= 0, LT(k, n)), EQ(f(k), fill)), 1))
        out = [("a chunk is elided only if it is all fill value (or an empty varlen chunk)", IMP(z3.Not(r), z3.If(self.vl, self.vs == 0, IMP(AND(k >= 0, k < n), EQ(f(k), fill))))),
               ("an all-fill chunk is elided", IMP(AND(r, z3.Not(self.vl)), z3.Not(allfill))), ("an empty varlen chunk is elided", IMP(AND(r, self.vl), self.vs != 0)), ("varlen chunks are n5 only", z3.Not(z3.And(self.vl, c.zarr)))]
        rr = z3.simplify(r) if isz(r) else z3.BoolVal(r)
        if not log: return out + [("nothing is encoded only if the chunk is elided", z3.Not(rr))]
        if len(log) != 1: return out + [("the data is encoded once", False)]
        kind, s, cn, e, em = log[0]; B, m = V(ex, st, self.buf), N(ex, st, self.buf); nd = ival(self.nd)
        out += [("exactly the chunk's elements are encoded", EQ(cn, self.m)), ("the chunk's data is encoded", IMP(AND(k >= 0, LT(k, self.m)), EQ(s(k), f(k))))]
        if kind == "n5":
            hl = simp(4 * (nd + 1) + z3.If(self.vl, z3.IntVal(4), z3.IntVal(0)))
            return out + [("the n5 encoding is used for n5 only", z3.Not(c.zarr)), ("length of the n5 file", EQ(m, simp(hl + em))), ("n5 header with the clipped shape", IMP(z3.And(k >= 0, k < hl), EQ(B(k), fm.hdr_byte(k, nd, c.B, self.vl, self.m % (1 << 32), None)))),
                          ("n5 data", IMP(AND(k >= 0, LT(k, em)), EQ(B(simp(hl + k)), e(k))))]
        return out + [("the zarr encoding is used for zarr only", c.zarr), ("the buffer is the encoded data", AND(EQ(m, em), IMP(AND(k >= 0, LT(k, em)), EQ(B(k), e(k)))))]
    def exc(self, ex, st, st0, ty): return [("rejects varlen zarr chunks; only the codec fails otherwise", z3.Or(z3.And(self.vl, self.c.zarr), st.ghost["ctype"] != 0))]
    def cands(self, ex, ci):
        """an explicit loop over the elements"""
        out = []
        for r, o, g in ci.ptr_cells():
            out.append(Cand("elements before the position equal the fill value", None, forall=lambda ex, st, g=g: (lambda k: IMP(AND(k >= 0, LT(k, g(st))), EQ(self.f(k), self.fill)))))
        for r, o, sz, v in ci.int_cells():
            g = ci.getter(r, o); out.append(Cand("elements below the counter equal the fill value", None, forall=lambda ex, st, g=g: (lambda k: IMP(AND(k >= 0, LT(k, g(st))), EQ(self.f(k), self.fill)))))
        return out
class DataToBuffer8(DataToBuffer): name = "util::data_to_buffer<uint8_t>"; w = 1; callees = (Compress8, DataToN58)

# ------------------------------------------------------------------ decoding
def LEV(f, i, w): return simp(sum([f(simp(ival(i) + j)) * (1 << (8 * j)) for j in range(1, w)], f(simp(ival(i)))))
class Decompress(EncBase):
    name = "util::decompress<uint16_t>"; w = 2; callees = ()
    pattern = property(lambda s: r"^void z5::util::decompress<%s, std::unique_ptr.*\(char const\*, u64" % TN[s.w])
    desc = "raw: accepts exactly n elements' worth of bytes and assigns every element its bytes; otherwise the codec gets exactly the given bytes and a capacity of exactly n elements; nothing else is written"
    def setup(self, ex, st):
        self.ready(ex); nb = self.nb = self.intin(ex, st, "nBytes"); st.assume(nb < (1 << 60)); self.cap = ex.fresh_int(st, "bytes")
        self.f = basefn("stored", 1, 8); r = ex.new_arr(st, "stored", EK(8), nb, {0: FArr(self.f)})
        n = self.n = self.intin(ex, st, "n"); st.assume(n < (1 << 56)); self.out, self.g = self.data(ex, st, n, "out"); u, c = compressor(ex, st, self.w)
        return [Ptr(r), nb, self.out, n, u]
    def post(self, ex, st, st0, ret):
        k = z3.Int(fresh("k")); c = st.ghost.get("codec", ()); o = st.mem[self.out.reg].f[0]; raw = st.ghost["ctype"] == 0
        if not c: return [("only raw data bypasses the codec", raw), ("raw data has exactly the expected size", EQ(self.nb, bytelen(self.n, self.w))), ("every element is assigned its bytes", IMP(AND(k >= 0, LT(k, self.n)), EQ(o(k), LEV(self.f, simp(k * self.w), self.w))))]
        if len(c) != 1 or c[0][0] != "decompress": return [("the codec runs once", False)]
        _, s, nb, d, n = c[0]
        return [("only compressed data reaches the codec", z3.Not(raw)), ("the codec gets every stored byte", EQ(nb, self.nb)), ("the codec gets the stored bytes", IMP(AND(k >= 0, LT(k, self.nb)), EQ(s(k), self.f(k)))),
                ("the codec is told the expected number of elements", EQ(n, self.n)), ("the output is what the codec decoded", IMP(AND(k >= 0, LT(k, self.n)), EQ(o(k), d(k))))]
    def exc(self, ex, st, st0, ty): return [("rejects raw data of the wrong size only; otherwise only the codec fails", z3.Or(st.ghost["ctype"] != 0, self.nb != self.n * self.w))]
    def apply(self, ex, st, ins, args):
        src, nb, dst, n = args[:4]; w = self.w; out = Outcomes(); ct = st.ghost["ctype"]
        ex.bounds(st, src, src.idx, "bytes to decode", nb); ex.bounds(st, dst, dst.idx, "decoded elements", n)
        if ex.arr_es(st, dst) != w or ex.arr_es(st, src) != 1: raise Refuse("decompress of another type")
        s = snap(ex, st, src); lo = ival(dst.idx); hi = simp(lo + n); m = simp(ival(n) * w); ok = ival(nb) == m
        if ex.feasible(st, AND(ct == 0, NOT(ok))):
            t = st.copy(); t.assume(AND(ct == 0, NOT(ok))); out.append(("throw", t, RT))
        if ex.feasible(st, AND(ct == 0, ok)):
            t = st.copy(); t.assume(AND(ct == 0, ok)); dr = lambda k: LEV(s, simp(ival(k) * w), w)
            df = FArr(ex.arr_fn(t, dst)); ex.arr_set(t, dst, 0, df.where(lambda j: AND(LE(lo, j), LT(j, hi)), lambda j: dr(simp(ival(j) - lo))))
            t.ghost["codec"] = t.ghost.get("codec", ()) + (("rawd", s, nb, dr, n),); out.append(("ret", t, None))
        if ex.feasible(st, ct != 0):
            t = st.copy(); t.assume(ct != 0); th = t.copy(); jk = FArr.sym("PARTIAL", 1, 8 * w); df = FArr(ex.arr_fn(th, dst)); ex.arr_set(th, dst, 0, df.where(lambda j: AND(LE(lo, j), LT(j, hi)), jk)); out.append(("throw", th, RT))
            d = FArr.sym("DECODED", 1, 8 * w); df2 = FArr(ex.arr_fn(t, dst)); ex.arr_set(t, dst, 0, df2.where(lambda j: AND(LE(lo, j), LT(j, hi)), lambda j: d(simp(ival(j) - lo))))
            t.ghost["codec"] = t.ghost.get("codec", ()) + (("decompress", s, nb, d, n),); out.append(("ret", t, None))
        return out
class Decompress8(Decompress): name = "util::decompress<uint8_t>"; w = 1

class BufferToData(EncBase):
    name = "util::buffer_to_data<uint16_t>"; w = 2; callees = (Decompress, fm.ReadHeader) + fm.REVS
    pattern = property(lambda s: r"^bool z5::util::buffer_to_data<%s, z5::filesystem::handle::Chunk, std::unique_ptr" % TN[s.w])
    desc = "for arbitrary stored bytes: decodes exactly the bytes after the header into exactly the elements the format announces (the full chunk for zarr, the header's count for n5), in host byte order, never outside an output with room for a full chunk (or the announced varlen size); otherwise throws"
    def setup(self, ex, st):
        self.ready(ex); nd = self.nd = self.ndim(ex, st); c = self.c = ChunkObj(self, ex, st, nd); n = self.bn = ex.fresh_int(st, "stored"); st.assume(n < (1 << 60))
        self.buf = mkvec(ex, st, "buffer", n, ek=EK(8)); f = self.f = V(ex, st, self.buf)
        R2, R4 = fm.REVF(ex, st, 2), fm.REVF(ex, st, 4)
        self.vl = z3.And(z3.Not(c.zarr), n >= 4, R2(simp(f(z3.IntVal(0)) + 256 * f(z3.IntVal(1)))) == 1); hn = R2(simp(f(z3.IntVal(2)) + 256 * f(z3.IntVal(3))))
        self.vcount = R4(fm.LE32(f, simp(4 * (hn + 1)))); L = ex.fresh_int(st, "capacity"); st.assume(z3.And(L < (1 << 56), L >= c.ndf, z3.Implies(z3.And(self.vl, n >= 4 * (hn + 1) + 4), L >= self.vcount)))
        self.out, self.g = self.data(ex, st, L, "out"); u, cc = compressor(ex, st, self.w); self.L = L
        return [c.p, self.buf, self.out, u]
    def post(self, ex, st, st0, ret):
        r = ex.asbool(ret); k = z3.Int(fresh("k")); log = st.ghost.get("codec", ()); h = st.ghost.get("n5hdr"); o = st.mem[self.out.reg].f[0]; c = self.c
        if len(log) != 1: return [("the data is decoded once", False)]
        kind, s, nb, d, n = log[0]; R = fm.REVF(ex, st, self.w) if self.w > 1 else (lambda v: v)
        if h is None:
            return [("zarr chunks have no header", c.zarr), ("never varlen", NOT(r)), ("the full chunk is decoded", EQ(n, c.ndf)), ("every stored byte is decoded", AND(EQ(nb, self.bn), IMP(AND(k >= 0, LT(k, self.bn)), EQ(s(k), self.f(k))))),
                    ("the output is what was decoded", IMP(AND(k >= 0, LT(k, n)), EQ(o(k), d(k)))), ("nothing else is written", IMP(AND(k >= 0, GE(k, n), LT(k, self.L)), EQ(o(k), self.g(k))))]
        vl, ds, hl = h
        return [("n5 chunks only", z3.Not(c.zarr)), ("varlen iff the header says so", EQB(r, vl)), ("the announced elements are decoded", EQ(n, ds)), ("a chunk larger than its slot is never decoded", IMP(NOT(r), LE(ds, c.ndf))),
                ("the bytes after the header are decoded", AND(EQ(nb, simp(self.bn - hl)), IMP(AND(k >= 0, LT(k, nb)), EQ(s(k), self.f(simp(k + hl)))))),
                ("elements are in host byte order", IMP(AND(k >= 0, LT(k, n)), EQ(o(k), R(d(k))))), ("nothing else is written", IMP(AND(k >= 0, GE(k, n), LT(k, self.L)), EQ(o(k), self.g(k))))]
    def exc(self, ex, st, st0, ty):
        c = self.c; h = st.ghost.get("n5hdr"); raw = st.ghost["ctype"] == 0
        if h is None: return [("zarr: only raw data of the wrong size or codec failures are rejected", z3.Or(z3.Not(c.zarr), z3.Not(raw), self.bn != c.ndf * self.w))]
        vl, ds, hl = h
        return [("n5: only oversized chunks, raw data of the wrong size or codec failures are rejected", z3.Or(z3.Not(raw), NOT(EQ(self.bn, simp(hl + ds * self.w))), AND(NOT(vl), ds > c.ndf)))]
class BufferToData8(BufferToData): name = "util::buffer_to_data<uint8_t>"; w = 1; callees = (Decompress8, fm.ReadHeader)
