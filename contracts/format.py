"""Contracts on the chunk encoding: util/util.hxx, util/format_data.hxx (C06, C07, C18)."""
from common import *
from views import symtrig

def BY(v, j):
    """byte j (least significant first)"""
    v = ival(v); return simp((v / (1 << (8 * j))) % 256 if j else v % 256)
def REV(v, w):
    """value with its w bytes in reverse order"""
    return simp(sum([BY(v, w - 1 - j) * (1 << (8 * j)) for j in range(1, w)], BY(v, w - 1)))
def BYS(v, j):
    """byte j of a 32-bit value, j symbolic"""
    return z3.If(j == 0, BY(v, 0), z3.If(j == 1, BY(v, 1), z3.If(j == 2, BY(v, 2), BY(v, 3))))

def byte_defs(st, js):
    """definition of the opaque byte names"""
    for j in js:
        LBYTE(st, 0, j)
        st.ctx.forall(Forall(lambda v, j=j: IMP(v >= 0, LBYTE(st, v, j) == (v / (1 << (8 * j))) % 256), 1, "definition of a byte", trig=[LBF[j].name()]))
def REVF(ex, st, w):
    """opaque name for the reversed value, with its bytes as axioms (each follows from REV, see lemma_rev)"""
    f = basefn_once("rev%d" % (8 * w), 8 * w)
    if ("rev", w) not in st.ghost:
        st.ghost[("rev", w)] = True
        st.ctx.forall(Forall(lambda v: z3.And([LBYTE(st, f(v), j) == LBYTE(st, v, w - 1 - j) for j in range(w)]), 1, "bytes of a reversed value", trig=[f.name()]))
    return f
_rev = {}
def basefn_once(name, bits):
    if name not in _rev: _rev[name] = basefn(name, 1, bits, trig=False)
    return _rev[name]

class RevRange(Base):
    desc = "every element of the range is replaced by the value with its bytes reversed; nothing else changes"
    def setup(self, ex, st):
        n = ex.fresh_int(st, "n"); lo = ex.fresh_int(st, "lo"); hi = ex.fresh_int(st, "hi"); st.assume(z3.And(n < (1 << 60), lo <= hi, hi <= n))
        if self.conc is not None: st.assume(z3.And(lo == 0, n == self.conc, hi == n))
        self.r = ex.new_arr(st, "data", EK(8 * self.w), n); self.lo, self.hi, self.n = lo, hi, n
        return [Ptr(self.r, lo), Ptr(self.r, hi)]
    def post(self, ex, st, st0, ret):
        k = z3.Int(fresh("k")); f0, f = st0.mem[self.r].f[0], st.mem[self.r].f[0]
        return [("every element in the range has its bytes reversed", IMP(z3.And(self.lo <= k, k < self.hi), EQ(f(k), REV(f0(k), self.w)))),
                ("no element outside the range changes", IMP(z3.And(k >= 0, k < self.n, z3.Or(k < self.lo, k >= self.hi)), EQ(f(k), f0(k))))]
    def cands(self, ex, ci):
        f0 = ci.S.mem[self.r].f[0]; lo, hi, r, w = self.lo, self.hi, self.r, self.w; out = []
        cs = [(g, False) for _, _, g in ci.ptr_cells()] + [(ci.getter(a, b), True) for a, b, sz, v in ci.int_cells()]
        for g, rel in cs:
            pos = (lambda st, g=g, rel=rel: simp(ival(g(st)) + lo) if rel else g(st))
            out.append(Cand("elements before the position are reversed", None, forall=lambda ex, st, pos=pos: (lambda k: IMP(z3.And(k >= lo, k < pos(st), k < hi), EQ(st.mem[r].f[0](k), REV(f0(k), w))))))
            out.append(Cand("elements from the position on are unchanged", None, forall=lambda ex, st, pos=pos: (lambda k: IMP(z3.And(k >= 0, k < self.n, z3.Or(k < lo, k >= pos(st))), EQ(st.mem[r].f[0](k), f0(k))))))
        return out
    def apply(self, ex, st, ins, args):
        a, b = args; n = count(ex, a, b)
        ex.oblige(st, "range is ordered", GE(n, 0)); ex.bounds(st, a, a.idx, "byte reversal", n)
        if ex.arr_es(st, a) != self.w: raise Refuse("byte reversal of another element size")
        f = FArr(ex.arr_fn(st, a)); lo, hi = a.idx, b.idx; R = REVF(ex, st, self.w)
        ex.arr_set(st, a, 0, f.where(lambda j: AND(LE(lo, j), LT(j, hi)), lambda j: R(ival(f(j)))))
        return None
class RevRange32(RevRange): name = "reverseEndiannessInplace<uint32_t> (range)"; pattern = r"^void z5::util::reverseEndiannessInplace<u32, __gnu_cxx"; w = 4
class RevRange16(RevRange): name = "reverseEndiannessInplace<uint16_t> (range)"; pattern = r"^void z5::util::reverseEndiannessInplace<u16, u16\*>"; w = 2
class RevRange16v(RevRange): name = "reverseEndiannessInplace<uint16_t> (vector range)"; pattern = r"^void z5::util::reverseEndiannessInplace<u16, __gnu_cxx"; w = 2
class RevRange64(RevRange): name = "reverseEndiannessInplace<int64_t> (range)"; pattern = r"^void z5::util::reverseEndiannessInplace<(long|u64|i64), \w+\*>"; w = 8

class RevOne(Base):
    desc = "the value's bytes are reversed"
    def setup(self, ex, st):
        v = self.v = self.intin(ex, st, "val", 8 * self.w); r = ex.new_struct(st, "val"); st.w(r).cells[0] = (self.w, v); self.r = r
        return [Ptr(r)]
    def post(self, ex, st, st0, ret):
        v = ex.load(st, Ptr(self.r), Ty("int", 8 * self.w))
        return [("bytes reversed", EQ(v, REV(self.v, self.w)))]
    def apply(self, ex, st, ins, args):
        t = Ty("int", 8 * self.w); v = ex.load(st, args[0], t); ex.store(st, args[0], t, REVF(ex, st, self.w)(v) if isz(v) else int.from_bytes(v.to_bytes(self.w, "little"), "big")); return None
class RevOne32(RevOne): name = "reverseEndiannessInplace<uint32_t>"; pattern = r"^void z5::util::reverseEndiannessInplace<u32>\("; w = 4
class RevOne16(RevOne): name = "reverseEndiannessInplace<uint16_t>"; pattern = r"^void z5::util::reverseEndiannessInplace<u16>\("; w = 2

REVS = (RevRange32, RevRange16, RevRange16v, RevOne32, RevOne16)

def hdr_byte(k, nd, shape, varlen, count, n):
    """byte k of an n5 chunk header (mode, number of dimensions, reversed shape, varlen count; all big-endian)"""
    i = (k - 4) / 4
    return z3.If(k == 0, z3.IntVal(0), z3.If(k == 1, ITE(varlen, z3.IntVal(1), z3.IntVal(0)), z3.If(k == 2, (ival(nd) / 256) % 256, z3.If(k == 3, ival(nd) % 256,
           z3.If(k < 4 * (ival(nd) + 1), BYS(shape(simp(ival(nd) - 1 - i)), 3 - (k - 4) % 4), BYS(count, 3 - (k - 4) % 4))))))

class WriteHeader(Base):
    name = "util::write_n5_header"; pattern = r"^z5::util::write_n5_header\("; desc = "the buffer is exactly the n5 header: mode (2 bytes), number of dimensions (2), reversed shape (4 each), element count if varlen (4), all big-endian"
    callees = REVS; opts = {"iteload": True, "opaquebytes": True}
    def setup(self, ex, st):
        nd = self.nd = self.ndim(ex, st, 0); self.shape = self.vecin(ex, st, "shape", nd); S = V(ex, st, self.shape)
        byte_defs(st, (0, 1))
        st.ctx.forall(Forall(lambda k: IMP(AND(k >= 0, LT(k, nd)), S(k) < (1 << 32)), 1, "extents fit 32 bits (the format cannot represent others)")); n0 = ex.fresh_int(st, "n0"); st.assume(n0 < (1 << 60)); self.buf = mkvec(ex, st, "buffer", n0, ek=EK(8))
        self.vl = z3.Bool(fresh("isVarlen")); self.cnt = self.intin(ex, st, "varlen", 32)
        return [self.buf, self.shape, self.vl, self.cnt]
    def hlen(self): return simp(4 * (ival(self.nd) + 1) + z3.If(self.vl, z3.IntVal(4), z3.IntVal(0)))
    def post(self, ex, st, st0, ret):
        i = z3.Int(fresh("i")); f = V(ex, st, self.buf); S = V(ex, st0, self.shape); nd = ival(self.nd)
        lab = ["mode is 1 for varlen chunks and 0 otherwise", "number of dimensions, big-endian", "extents in reversed axis order, 32 bit big-endian", "varlen element count, 32 bit big-endian"]
        return [("length of the header", EQ(N(ex, st, self.buf), self.hlen())), (lab[0], AND(EQ(f(z3.IntVal(0)), 0), EQ(f(z3.IntVal(1)), ITE(self.vl, z3.IntVal(1), z3.IntVal(0))))),
                (lab[1], AND(EQ(f(z3.IntVal(2)), (nd / 256) % 256), EQ(f(z3.IntVal(3)), nd % 256)))] + \
               [(lab[2], IMP(z3.And(i >= 0, i < nd), EQ(f(simp(4 + 4 * i + j)), LBYTE(ex, S(simp(nd - 1 - i)), 3 - j)))) for j in range(4)] + \
               [(lab[3], IMP(self.vl, EQ(f(simp(4 + 4 * nd + j)), LBYTE(ex, self.cnt, 3 - j)))) for j in range(4)]
    def cands(self, ex, ci):
        S = V(ex, ci.S, self.shape); nd = ival(self.nd); out = [Cand("first four bytes of the header", lambda ex, st: AND([EQ(V(ex, st, self.buf)(k), hdr_byte(z3.IntVal(k), nd, S, self.vl, self.cnt, None)) for k in range(4)]))]
        for r, o, sz, v in ci.int_cells():
            g = ci.getter(r, o)
            out.append(Cand("extents written below %s" % ci.S.mem[r].name, None, forall=lambda ex, st, g=g: (lambda i: IMP(z3.And(i >= 0, i < g(st), i < nd), AND([EQ(V(ex, st, self.buf)(simp(4 + 4 * i + j)), LBYTE(ex, S(simp(nd - 1 - i)), 3 - j)) for j in range(4)])))))
        return out
    def apply(self, ex, st, ins, args):
        nd = N(ex, st, args[1]); S = V(ex, st, args[1]); vl = ex.asbool(args[2]); cnt = args[3]
        b = vbuf(ex, st, args[0], EK(8)); ex.oblige(st, "number of dimensions fits the header", LT(nd, 1 << 16))
        vset(ex, st, b, simp(4 * (ival(nd) + 1) + ITE(vl, z3.IntVal(4), z3.IntVal(0))), {0: FArr(lambda k: hdr_byte(ival(k), nd, S, vl, cnt, None))})
        return None

def lemma_rev():
    """the axioms used for reversed values follow from the definition (bit-vectors)"""
    ok = 0; n = 0
    for w in (2, 4, 8):
        v = z3.BitVec("v", 8 * w); by = lambda x, j: z3.Extract(8 * j + 7, 8 * j, x)
        r = z3.Concat(*[by(v, j) for j in range(w)])
        s = z3.Solver(); s.add(z3.Not(z3.And([by(r, j) == by(v, w - 1 - j) for j in range(w)] + [z3.Concat(*[by(r, j) for j in range(w)]) == v]))); n += 1; ok += s.check() == z3.unsat
    return dict(name="byte reversal", proved=ok == n, n=n, discharged=ok)

def LE32(f, i): return simp(sum([f(simp(ival(i) + k)) * (1 << (8 * k)) for k in range(1, 4)], f(simp(ival(i)))))
class ReadHeader(Base):
    name = "util::read_n5_header"; pattern = r"^z5::util::read_n5_header\("; callees = REVS; opts = {"iteload": True, "linear": True, "cutterms": True}
    desc = "for arbitrary bytes: reads only inside the buffer; returns the mode, the header's length and the exact number of elements (big-endian extents, or the varlen count), or throws; never rejects a well-formed header"
    g = z3.Bool("allpositive")
    def setup(self, ex, st):
        n = self.n = ex.fresh_int(st, "n"); st.assume(n < (1 << 60)); self.buf = mkvec(ex, st, "buffer", n, ek=EK(8), fa=FArr(basefn("buffer", 1, 8, trig=False))); f = self.f = V(ex, st, self.buf)
        st.mem[vbuf(ex, st, self.buf).reg].name = "buffer.data"
        R2, R4 = REVF(ex, st, 2), REVF(ex, st, 4)
        self.mode = R2(simp(f(z3.IntVal(0)) + 256 * f(z3.IntVal(1)))); self.nd = R2(simp(f(z3.IntVal(2)) + 256 * f(z3.IntVal(3))))
        if self.conc is not None: st.assume(self.nd == self.conc)
        D = self.D = basefn("DIM", 1, 32, trig=False)          # the extents as stored (reversed axis order), a name for big-endian words
        st.ctx.forall(Forall(lambda k: IMP(z3.And(k >= 0, k < self.nd), D(k) == R4(LE32(f, simp(4 + 4 * k)))), 1, "stored extents", trig=[D.name()]))
        nd = self.nd; PR = self.PR = basefn("PRG", 1, None, trig=False)
        st.assume(PR(0) == 1)
        st.ctx.forall(Forall(lambda k: IMP(z3.And(k >= 0, k < nd), PR(simp(k + 1)) == PR(k) * D(simp(nd - 1 - k))), 1, "prefix products of the extents"))
        st.ctx.forall(Forall(lambda k: IMP(z3.And(self.g, k >= 0, k < nd), D(k) >= 1), 1, "ghost: positive extents", trig=[D.name()]))
        s = st.copy(); k = z3.Int(fresh("k")); s.assume(z3.And(self.g, k >= 0, k < nd, PR(simp(k + 1)) <= PR(nd), PR(k) >= 1)); s.ctx.term(simp(nd - 1 - k))
        ex.oblige(s, "prefix products grow (step)", z3.And(PR(k) <= PR(nd), PR(simp(k + 1)) >= 1))
        st.ctx.forall(Forall(lambda k: IMP(z3.And(self.g, k >= 0, k <= nd), z3.And(PR(k) <= PR(nd), PR(k) >= 1)), 1, "prefix products grow", trig=[PR.name()]))
        r1, r2 = ex.new_struct(st, "data_size"), ex.new_struct(st, "header_length"); self.o = (r1, r2)
        return [self.buf, Ptr(r1), Ptr(r2)]
    def post(self, ex, st, st0, ret):
        vl = self.mode == 1; nd = self.nd; f = self.f; ds, hl = [st.mem[r].cells[0][1] for r in self.o]; full = 4 * (nd + 1) + z3.If(vl, z3.IntVal(4), z3.IntVal(0))
        R4 = REVF(ex, st, 4)
        return [("varlen is reported iff the mode is 1", EQB(ex.asbool(ret), vl)), ("header length", EQ(hl, full)), ("the header lies inside the buffer", full <= self.n),
                ("element count of a varlen chunk", IMP(vl, EQ(ds, R4(LE32(f, simp(4 * (nd + 1))))))), ("element count is the exact product of the extents", IMP(z3.Not(vl), EQ(ds, self.PR(nd))))]
    def exc(self, ex, st, st0, ty):
        vl = self.mode == 1; nd = self.nd
        return [("a well-formed header is never rejected", z3.Not(z3.And(self.n >= 4, self.n >= 4 * (nd + 1) + z3.If(vl, z3.IntVal(4), z3.IntVal(0)), z3.Or(vl, z3.And(self.g, self.PR(nd) < U64)))))]
    def cands(self, ex, ci):
        out = []
        for an, af, reg in arrays_modified(ci):
            for r2, o2, sz, v in ci.int_cells():
                g2 = ci.getter(r2, o2)
                out.append(Cand("%s[k] = little-endian word for k < %s" % (an, ci.S.mem[r2].name), None, trig=symtrig(af), forall=lambda ex, st, af=af, g2=g2: (lambda k: IMP(z3.And(k >= 0, LT(k, g2(st))), EQ(af(st)(k), LE32(self.f, simp(4 + 4 * k)))))))
        for r, o, g in ci.ptr_cells():
            for r2, o2, sz, v in ci.int_cells():
                g2 = ci.getter(r2, o2)
                out.append(Cand("%s is the prefix product" % ci.S.mem[r2].name, lambda ex, st, g=g, g2=g2: EQ(g2(st), self.PR(ival(g(st))))))
        return out
    def apply(self, ex, st, ins, args):
        buf, r1, r2 = args[:3]; b = vbuf(ex, st, buf, EK(8)); n = vlen(ex, st, b); f = V(ex, st, buf); out = Outcomes(); th = st.copy()
        for t in (th, st):
            for r in (r1, r2): ex.setcell(t, r.reg, r.idx, 8, ex.fresh_int(t, "hdr"))
        out.append(("throw", th, "_ZTISt13runtime_error"))
        R2, R4 = REVF(ex, st, 2), REVF(ex, st, 4); mode = R2(simp(f(z3.IntVal(0)) + 256 * f(z3.IntVal(1)))); nd = R2(simp(f(z3.IntVal(2)) + 256 * f(z3.IntVal(3)))); vl = mode == 1
        ds = st.mem[r1.reg].cells[r1.idx][1]; hl = simp(4 * (nd + 1) + z3.If(vl, z3.IntVal(4), z3.IntVal(0))); st.assume(z3.And(n >= 4, nd >= 0, nd < 65536, hl <= n, z3.Implies(vl, ds == R4(LE32(f, simp(4 * (nd + 1)))))))
        ex.setcell(st, r2.reg, r2.idx, 8, hl); st.ghost["n5hdr"] = (vl, ds, hl); out.append(("ret", st, vl)); return out
