"""Contracts on util/sharding.hxx (C07, C08, C09)."""
from common import *

SHENTRY = ELEM["z5::util::ShardEntry"]
EMPTY = U64 - 1

def le(bytes_): return sum([b * (1 << (8 * k)) for k, b in enumerate(bytes_)][1:], bytes_[0])

class ElemDiv(Base):
    """result[k] = a[k] / b[k]"""
    def setup(self, ex, st):
        nd = self.nd = self.ndim(ex, st, 0); r = ex.new_struct(st, "result")
        self.a, self.b = self.vecin(ex, st, self.names[0], nd), self.vecin(ex, st, self.names[1], nd); self.r = Ptr(r)
        B = V(ex, st, self.b)
        st.ctx.forall(Forall(lambda k: IMP(AND(k >= 0, LT(k, nd)), B(k) >= 1), 1, "extents are positive"))
        return [self.r, self.a, self.b]
    def specs(self, ex, st0):
        a, b = V(ex, st0, self.a), V(ex, st0, self.b)
        return [("quotient", lambda ex, st, k, v: v == udiv(a(k), b(k)))]
    def post(self, ex, st, st0, ret):
        k = z3.Int(fresh("k"))
        return [("length of the result", EQ(N(ex, st, self.r), self.nd)), ("every entry is the exact quotient", IMP(AND(k >= 0, LT(k, self.nd)), self.specs(ex, st0)[0][1](ex, st, k, V(ex, st, self.r)(k))))]
    def cands(self, ex, ci): return elementwise(ci, self.specs(ex, ci.S))
    def apply(self, ex, st, ins, args):
        na, nb = N(ex, st, args[1]), N(ex, st, args[2]); a, b = V(ex, st, args[1]), V(ex, st, args[2])
        ex.oblige(st, "dimensions match", EQ(na, nb)); k = z3.Int(fresh("k"))
        ex.oblige(st, "extents are positive", IMP(AND(k >= 0, LT(k, na)), b(k) >= 1))
        vnew(ex, st, args[0], EK(64), na, {0: FArr(lambda i: udiv(a(i), b(i)))})
        return None
class ChunksPerShard(ElemDiv):
    name = "util::chunksPerShard"; pattern = r"^z5::util::chunksPerShard\("; names = ("shardShape", "innerShape"); desc = "chunks per shard = shard extent / chunk extent in every axis"
class ShardId(ElemDiv):
    name = "util::shardId"; pattern = r"^z5::util::shardId\("; names = ("innerId", "cps"); desc = "shard coordinate = inner chunk coordinate / chunks per shard in every axis"

def LEV(ex, f, w):
    """ghost: little-endian value of the w bytes of f at a position (its definition is what ReadLE proves)"""
    d = ex.__dict__.setdefault("lememo", {})
    if (id(f), w) not in d: d[(id(f), w)] = (basefn("LE%d" % (8 * w), 1, 8 * w, trig=False), f)
    return d[(id(f), w)][0]
class ReadLE(Base):
    must_reach = "ret"
    def setup(self, ex, st):
        n = ex.fresh_int(st, "n"); i = ex.fresh_int(st, "i"); st.assume(z3.And(n < (1 << 60), i + self.w <= n))
        self.r = ex.new_arr(st, "p", EK(8), n); self.i = i
        return [Ptr(self.r, i)]
    def spec(self, f, i): return le([f(simp(ival(i) + k)) for k in range(self.w)])
    def post(self, ex, st, st0, ret): return [("the value of the bytes in little-endian order", EQ(ret, self.spec(st0.mem[self.r].f[0], self.i)))]
    def apply(self, ex, st, ins, args):
        p = args[0]; ex.bounds(st, p, p.idx, "little-endian read", self.w)
        return LEV(ex, ex.arr_fn(st, p), self.w)(ival(p.idx))
class ReadLE64(ReadLE):
    name = "util::readLE64"; pattern = r"^z5::util::readLE64\("; w = 8; desc = "value of 8 bytes, little-endian, nothing else read"
class ReadLE32(ReadLE):
    name = "util::readLE32"; pattern = r"^z5::util::readLE32\("; w = 4; desc = "value of 4 bytes, little-endian, nothing else read"

def LB(v, j):
    """byte j of the little-endian representation: an opaque name for (v / 256^j) % 256 in callers"""
    return z3.Function("lebyte%d" % j, z3.IntSort(), z3.IntSort())(ival(v))
class WriteLE(Base):
    def setup(self, ex, st):
        n = ex.fresh_int(st, "n"); st.assume(n < (1 << 60)); self.n = n
        self.o = mkvec(ex, st, "out", n, ek=EK(8)); self.v = ex.fresh_int(st, "v", 8 * self.w)
        return [self.o, self.v]
    def post(self, ex, st, st0, ret):
        k = z3.Int(fresh("k")); f, g = V(ex, st, self.o), V(ex, st0, self.o)
        return [("exactly %d bytes are appended" % self.w, EQ(N(ex, st, self.o), self.n + self.w)), ("the bytes before are kept", IMP(AND(k >= 0, k < self.n), f(k) == g(k)))] + \
               [("byte %d is the little-endian byte of the value" % j, EQ(f(simp(self.n + j)), (self.v / (1 << 8 * j)) % 256)) for j in range(self.w)]
    def apply(self, ex, st, ins, args):
        b = vbuf(ex, st, args[0], EK(8)); v = args[1]
        for j in range(self.w):
            x = LB(v, j)
            vpush(ex, st, b, lambda k: x)
        return None
class WriteLE64(WriteLE):
    name = "util::writeLE64"; pattern = r"^z5::util::writeLE64\("; w = 8; desc = "appends the 8 little-endian bytes of the value"
class WriteLE32(WriteLE):
    name = "util::writeLE32"; pattern = r"^z5::util::writeLE32\("; w = 4; desc = "appends the 4 little-endian bytes of the value"

# ---------------------------------------------------------------- slots
def horner(ex, st, a, c):
    """ghost: SL(d) = slot of the first d axes; PR(d) = product of the first d chunks-per-shard"""
    SL, PR = basefn("SLOT", 1, None), basefn("SPROD", 1, None)
    st.assume(z3.And(SL(0) == 0, PR(0) == 1))
    dig = lambda k: umod(a(k), c(k))
    for f in (lambda k: IMP(k >= 0, z3.And(SL(k + 1) == SL(k) * c(k) + dig(k), PR(k + 1) == PR(k) * c(k))),):
        st.ctx.forall(Forall(f, 1, "slot recursion"))
    return SL, PR
class ShardSlot(Base):
    name = "util::shardSlot"; pattern = r"^z5::util::shardSlot\("; desc = "C-order position of the chunk inside its shard: the Horner value of the digits innerId % cps; below the number of slots"
    def setup(self, ex, st):
        nd = self.nd = self.ndim(ex, st, 0)
        self.a, self.c = self.vecin(ex, st, "innerId", nd), self.vecin(ex, st, "cps", nd)
        a, c = V(ex, st, self.a), V(ex, st, self.c); inr = lambda k: AND(k >= 0, LT(k, nd))
        st.ctx.forall(Forall(lambda k: IMP(inr(k), c(k) >= 1), 1, "chunks per shard are positive"))
        self.SL, self.PR = horner(ex, st, a, c)
        # lemma products_monotone (proved separately)
        st.ctx.forall(Forall(lambda k: IMP(AND(k >= 0, LE(k, nd)), z3.And(self.PR(k) >= 1, self.PR(k) <= self.PR(ival(nd)))), 1, "lemma: prefix products grow"))
        st.assume(self.PR(ival(nd)) < U64)
        return [self.a, self.c]
    def post(self, ex, st, st0, ret):
        n = ival(self.nd)
        return [("the slot is the C-order position of the chunk in its shard", EQ(ret, self.SL(n))), ("the slot is below the number of slots", LT(ret, self.PR(n)))]
    def cands(self, ex, ci):
        out = []; ic = [(ci.S.mem[r].name, ci.getter(r, o)) for r, o, sz, v in ci.int_cells()]
        for n1, g1 in ic:
            for n2, g2 in ic:
                if n1 == n2: continue
                out.append(Cand("%s = slot of the first %s axes" % (n1, n2), lambda ex, st, g1=g1, g2=g2: EQ(g1(st), self.SL(ival(g2(st))))))
                out.append(Cand("%s < product of the first %s axes" % (n1, n2), lambda ex, st, g1=g1, g2=g2: LT(g1(st), self.PR(ival(g2(st))))))
        return out

class NumSlots(Base):
    name = "util::numShardSlots"; pattern = r"^z5::util::numShardSlots\("; desc = "the product of the chunks per shard"
    def setup(self, ex, st):
        self.nd = self.ndim(ex, st, 0); self.c = self.vecin(ex, st, "cps", self.nd); return [self.c]
    def post(self, ex, st, st0, ret):
        b = vbuf(ex, st0, self.c); PR = prodfn(ex, st, b)
        return [("the number of slots is the product of the chunks per shard", IMP(PR(ival(self.nd)) < U64, EQ(ret, PR(ival(self.nd)))))]

# ---------------------------------------------------------------- CRC-32C
def crc_table():
    t = []
    for i in range(256):
        c = i
        for _ in range(8): c = (c >> 1) ^ 0x82F63B78 if c & 1 else c >> 1
        t.append(c)
    return t
def STEP(c, b):
    T = const_table(32, crc_table())
    return BXOR(T(simp(BXOR(c, b) % 256)), simp(c / 256))
def crcfold(ex, st, f, start, seed):
    """ghost: F(i) = CRC register after i bytes of f from start, initial value ~seed"""
    d = ex.__dict__.setdefault("crcmemo", {}); k = (id(f), simp(ival(start)).get_id() if isz(start) else start, seed if not isz(seed) else ("t", seed.get_id()))
    if k not in d: d[k] = (basefn("CRC", 1, 32), f, start, seed)
    F = d[k][0]; NOTRIG.add(F.name())
    if ("crc", F.name()) not in st.ghost:
        st.ghost[("crc", F.name())] = True
        st.assume(F(0) == simp(0xFFFFFFFF - ival(seed)))
        st.ctx.forall(Forall(lambda i: IMP(i >= 0, F(simp(ival(i) + 1)) == STEP(F(i), f(simp(ival(start) + i)))), 1, "CRC recursion", trig=[F.name()]))
    return F
class Crc32c(Base):
    name = "util::crc32c"; pattern = r"^z5::util::crc32c\("; desc = "complement of the CRC-32C register after all n bytes (table-driven step, proved equal to the bitwise definition by a separate lemma), reads exactly the n bytes"
    def setup(self, ex, st):
        N_, n, i = ex.fresh_int(st, "size"), self.intin(ex, st, "n"), ex.fresh_int(st, "start"); st.assume(z3.And(N_ < (1 << 60), i + n <= N_))
        self.seed = self.intin(ex, st, "seed", 32); self.n = n
        r = ex.new_arr(st, "data", EK(8), N_); self.F = crcfold(ex, st, ex.arr_fn(st, Ptr(r)), i, self.seed)
        return [Ptr(r, i), n, self.seed]
    def post(self, ex, st, st0, ret): return [("the result is the complement of the CRC register after n bytes", EQ(ret, 0xFFFFFFFF - self.F(self.n)))]
    def cands(self, ex, ci):
        out = []; ic = [(ci.S.mem[r].name, ci.getter(r, o), sz) for r, o, sz, v in ci.int_cells()]
        for n1, g1, s1 in ic:
            if s1 != 4: continue
            for n2, g2, s2 in ic:
                if n1 != n2: out.append(Cand("%s = CRC register after %s bytes" % (n1, n2), lambda ex, st, g1=g1, g2=g2: EQ(g1(st), self.F(ival(g2(st))))))
        return out
    def apply(self, ex, st, ins, args):
        p, n, seed = args; ex.bounds(st, p, p.idx, "checksummed bytes", n)
        F = crcfold(ex, st, ex.arr_fn(st, p), p.idx, seed)
        return simp(0xFFFFFFFF - F(ival(n)))
def lemma_crc():
    """the table-driven step is eight steps of the bitwise definition of CRC-32C (reflected polynomial 0x82F63B78)"""
    c, b = z3.BitVec("c", 32), z3.BitVec("b", 8)
    x = c ^ z3.ZeroExt(24, b)
    def bits(x):
        for _ in range(8): x = z3.If(z3.Extract(0, 0, x) == 1, z3.LShR(x, 1) ^ 0x82F63B78, z3.LShR(x, 1))
        return x
    # linearity: bitwise(x) = bitwise(x & 0xff) ^ (x >> 8); the table holds bitwise(i) for i < 256 (checked by evaluation)
    s = z3.Solver(); s.set("timeout", 60000); s.add(bits(x) != bits(x & 0xFF) ^ z3.LShR(c, 8)); r1 = s.check() == z3.unsat
    ok = all(z3.simplify(bits(z3.BitVecVal(i, 32))).as_long() == v for i, v in enumerate(crc_table()))
    return dict(name="CRC-32C table step equals eight bitwise steps", proved=r1 and ok, n=2, discharged=int(r1) + int(ok))

# ---------------------------------------------------------------- shard index
class ParseIndex(Base):
    name = "util::parseShardIndex"; pattern = r"^z5::util::parseShardIndex\("; callees = (ReadLE64, ReadLE32, Crc32c)
    desc = "true iff the object holds index and checksum, the checksum is the CRC-32C of the index bytes and every non-empty entry lies before the index; then the entries are the little-endian values of the index; reads only the object"
    def setup(self, ex, st):
        n, k = self.intin(ex, st, "size"), self.intin(ex, st, "nSlots"); st.assume(z3.And(n < (1 << 60), k < (1 << 59)))
        self.n, self.k = n, k
        self.sh = mkvec(ex, st, "shard", n, ek=EK(8)); self.en = mkvec(ex, st, "entries", ex.fresh_int(st, "n0"), ek=SHENTRY)
        self.f = V(ex, st, self.sh); self.L8, self.L4 = LEV(ex, self.f, 8), LEV(ex, self.f, 4); self.is_ = n - 16 * k - 4
        self.F = crcfold(ex, st, self.f, simp(self.is_), 0)
        st.ctx.forall(Forall(lambda s: IMP(AND(self.g, s >= 0, s < k), self.ok(s)), 1, "ghost: all entries valid"))
        return [self.sh, k, self.en]
    g = z3.Bool("allentries")
    def off(self, s): return self.L8(simp(self.is_ + 16 * s))
    def nb(self, s): return self.L8(simp(self.is_ + 16 * s + 8))
    def ok(self, s): return z3.Or(self.off(s) == EMPTY, self.nb(s) == EMPTY, z3.And(self.off(s) <= self.is_, self.off(s) + self.nb(s) <= self.is_))
    def hdr(self): return z3.And(self.n >= 16 * self.k + 4, self.L4(simp(self.n - 4)) == 0xFFFFFFFF - self.F(16 * self.k))
    def post(self, ex, st, st0, ret):
        s = z3.Int(fresh("s")); r = ex.asbool(ret); inr = AND(s >= 0, s < self.k)
        o, b = V(ex, st, self.en, 0)(s), V(ex, st, self.en, 8)(s)
        return [("an accepted shard is long enough and its checksum matches", IMP(r, self.hdr())), ("number of entries", IMP(r, EQ(N(ex, st, self.en), self.k))),
                ("the entries are the little-endian values of the index", IMP(AND(r, inr), z3.And(o == self.off(s), b == self.nb(s)))),
                ("every accepted entry is empty or lies inside the data region", IMP(AND(r, inr), z3.Or(o == EMPTY, b == EMPTY, z3.And(o <= self.is_, o + b <= self.is_)))),
                ("a shard with valid index is never rejected", IMP(AND(self.g, self.hdr()), r))]
    def cands(self, ex, ci):
        out = []
        for reg, off, sz, v in ci.int_cells():
            g = ci.getter(reg, off); nm = ci.S.mem[reg].name
            def fa(ex, st, g=g):
                fo, fb = V(ex, st, self.en, 0), V(ex, st, self.en, 8); lim = g(st)
                return lambda s: IMP(AND(s >= 0, LT(s, lim)), z3.And(fo(s) == self.off(s), fb(s) == self.nb(s), self.ok(s)))
            out.append(Cand("entries below %s are parsed and valid" % nm, None, forall=fa))
        return out

# ---------------------------------------------------------------- blobs of a shard
BLOBS = ("vec", EK(8))
def nest(ex, st, p):
    """(lengths, contents) of a vector of vectors"""
    b = vbuf(ex, st, p); o = st.mem[b.reg]
    return o.f[("n", 0)], o.f[("d", 0)]
def emp(o, b): return z3.Or(o == EMPTY, b == EMPTY)
class Extract(Base):
    name = "util::extractShardBlobs"; pattern = r"^z5::util::extractShardBlobs\("
    desc = "one blob per entry: empty for an empty entry, otherwise exactly the bytes [offset, offset + nbytes) of the object; reads only the object"
    def setup(self, ex, st):
        n, k = self.intin(ex, st, "size"), self.intin(ex, st, "nEntries"); st.assume(z3.And(n < (1 << 60), k < (1 << 59)))
        self.n, self.k = n, k
        self.sh = mkvec(ex, st, "shard", n, ek=EK(8)); self.en = mkvec(ex, st, "entries", k, ek=SHENTRY)
        self.bl = mkvec(ex, st, "blobs", ex.fresh_int(st, "n0"), ek=BLOBS)
        self.f, self.o, self.b = V(ex, st, self.sh), V(ex, st, self.en, 0), V(ex, st, self.en, 8)
        st.ctx.forall(Forall(lambda s: IMP(AND(s >= 0, s < k), z3.Or(emp(self.o(s), self.b(s)), self.o(s) + self.b(s) <= n)), 1, "entries lie inside the object"))
        return [self.sh, self.en, self.bl]
    def lens(self, s, v): return v == z3.If(emp(self.o(s), self.b(s)), z3.IntVal(0), self.b(s))
    def byte(self, s, j, v): return IMP(NOT(emp(self.o(s), self.b(s))), v == self.f(simp(self.o(s) + j)))
    def post(self, ex, st, st0, ret):
        s, j = z3.Int(fresh("s")), z3.Int(fresh("j")); ln, d = nest(ex, st, self.bl); inr = AND(s >= 0, s < self.k)
        return [("one blob per slot", EQ(N(ex, st, self.bl), self.k)), ("the blob of an empty slot is empty, otherwise it has the recorded length", IMP(inr, self.lens(s, ln(s)))),
                ("the blob holds the recorded bytes", IMP(AND(inr, j >= 0, j < ln(s)), self.byte(s, j, d(s, j))))]
    def cands(self, ex, ci):
        out = []
        for reg, off, sz, v in ci.int_cells() :
            g = ci.getter(reg, off); nm = ci.S.mem[reg].name
            def lim(st, g=g): return g(st)
            self.pair(ex, out, nm, lim)
        for fr in ci.S.frames[-1:]:
            for r in fr.allocas.values():
                c = ci.S.mem[r].cells.get(0)
                if c and isinstance(c[1], Ptr) and ex.is_arr(ci.S, c[1]) and ex.arr_ek(ci.S, c[1]) == BLOBS:
                    out.append(Cand("blobs before %s are empty" % ci.S.mem[r].name, None, forall=lambda ex, st, r=r: (lambda ln, lim: (lambda s: IMP(AND(s >= 0, LT(s, lim)), ln(s) == 0)))(nest(ex, st, self.bl)[0], st.mem[r].cells[0][1].idx)))
        return out
    def pair(self, ex, out, nm, lim):
        out.append(Cand("lengths below %s" % nm, None, forall=lambda ex, st: (lambda ln, l: (lambda s: IMP(AND(s >= 0, LT(s, l)), self.lens(s, ln(s)))))(nest(ex, st, self.bl)[0], lim(st))))
        out.append(Cand("lengths from %s on are zero" % nm, None, forall=lambda ex, st: (lambda ln, l: (lambda s: IMP(AND(GE(s, l), LT(s, self.k)), ln(s) == 0)))(nest(ex, st, self.bl)[0], lim(st))))
        out.append(Cand("bytes below %s" % nm, None, arity=2, forall=lambda ex, st: (lambda ln, d, l: (lambda s, j: IMP(AND(s >= 0, LT(s, l), j >= 0, LT(j, ln(s))), self.byte(s, j, d(s, j)))))(*nest(ex, st, self.bl), lim(st))))
class AllEmpty(Base):
    name = "util::allSlotsEmpty"; pattern = r"^z5::util::allSlotsEmpty\("; desc = "true iff every blob is empty"
    g = z3.Bool("allempty")
    def setup(self, ex, st):
        self.k = self.intin(ex, st, "nSlots"); st.assume(self.k < (1 << 59)); self.bl = mkvec(ex, st, "blobs", self.k, ek=BLOBS); self.ln = nest(ex, st, self.bl)[0]
        st.ctx.forall(Forall(lambda s: IMP(AND(self.g, s >= 0, s < self.k), self.ln(s) == 0), 1)); return [self.bl]
    def post(self, ex, st, st0, ret):
        s = z3.Int(fresh("s")); r = ex.asbool(ret)
        return [("true only if every blob is empty", IMP(AND(r, s >= 0, s < self.k), self.ln(s) == 0)), ("true if every blob is empty", IMP(self.g, r)),
                ("the blobs are not modified", IMP(AND(s >= 0, s < self.k), nest(ex, st, self.bl)[0](s) == self.ln(s)))]
    def cands(self, ex, ci):
        out = []
        def fa(get): return lambda ex, st: (lambda l: (lambda s: IMP(AND(s >= 0, LT(s, l)), self.ln(s) == 0)))(get(st))
        for reg, off, sz, v in ci.int_cells(): out.append(Cand("blobs below %s are empty" % ci.S.mem[reg].name, None, forall=fa(ci.getter(reg, off))))
        for fr in ci.S.frames[-1:]:
            for r in fr.allocas.values():
                c = ci.S.mem[r].cells.get(0)
                if c and isinstance(c[1], Ptr) and ex.is_arr(ci.S, c[1]): out.append(Cand("blobs before %s are empty" % ci.S.mem[r].name, None, forall=fa(lambda st, r=r: st.mem[r].cells[0][1].idx)))
        return out

class Build(Base):
    name = "util::buildShard"; pattern = r"^z5::util::buildShard\("; callees = (WriteLE64, WriteLE32, Crc32c)
    desc = "the blobs in slot order without gaps, then per slot the little-endian offset and length (all ones for an empty blob), then the little-endian CRC-32C of exactly those index bytes; nothing else"
    def setup(self, ex, st):
        k = self.k = self.intin(ex, st, "nSlots"); st.assume(k < (1 << 50))
        self.bl = mkvec(ex, st, "blobs", k, ek=BLOBS); self.ln, self.d = nest(ex, st, self.bl)
        self.out = mkvec(ex, st, "out", ex.fresh_int(st, "n0"), ek=EK(8))
        OFF = self.OFF = basefn("OFF", 1, None); st.assume(OFF(0) == 0)
        st.ctx.forall(Forall(lambda s: IMP(s >= 0, OFF(simp(s + 1)) == OFF(s) + self.ln(s)), 1, "prefix sums", trig=[OFF.name()]))
        st.assume(OFF(k) < (1 << 58))        # the shard fits into memory
        st.ctx.forall(Forall(lambda s: IMP(AND(s >= 0, s <= k), AND(OFF(s) >= 0, OFF(s) <= OFF(k))), 1, "lemma: prefix sums grow", trig=[OFF.name()]))
        return [self.bl, self.out]
    def ent(self, s):
        e = self.ln(s) == 0
        return z3.If(e, z3.IntVal(EMPTY), self.OFF(s)), z3.If(e, z3.IntVal(EMPTY), ival(self.ln(s)))
    def ibytes(self, f, base, s):
        o, b = self.ent(s)
        return z3.And(*[f(simp(base + 16 * s + j)) == LB(o, j) for j in range(8)] + [f(simp(base + 16 * s + 8 + j)) == LB(b, j) for j in range(8)])
    def post(self, ex, st, st0, ret):
        s, j = z3.Int(fresh("s")), z3.Int(fresh("j")); f = V(ex, st, self.out); inr = AND(s >= 0, s < self.k); D = self.OFF(self.k)
        res = [("the shard consists of the blobs, the index and the checksum", EQ(N(ex, st, self.out), D + 16 * self.k + 4)),
               ("the blobs follow each other in slot order", IMP(AND(inr, j >= 0, j < self.ln(s)), f(simp(self.OFF(s) + j)) == self.d(s, j))),
               ] + [("the index holds offset and length of every slot, all ones for an empty one (byte %d)" % q, IMP(AND(inr, self.OFF(s) >= 0), g)) for q, g in enumerate(self.ibytes(f, D, s).children())]
        Fo = crcfold(ex, st, f, simp(D), 0); ok = None
        for F, g, start, seed in list(ex.crcmemo.values()):
            if F.name() == Fo.name() or isz(seed) or seed != 0: continue
            c = induct(ex, st, lambda i: IMP(LE(i, 16 * self.k), F(i) == Fo(i)), 16 * self.k, "checksummed bytes are the index bytes of the shard")
            st.assume(c)
        crc = 0xFFFFFFFF - Fo(16 * self.k)
        res.append(("the checksum is the CRC-32C of the index bytes, little-endian", z3.And(*[f(simp(D + 16 * self.k + b)) == LB(crc, b) for b in range(4)])))
        return res
    def cands(self, ex, ci):
        out = []; S = ci.S; names = {}
        for fr in S.frames[-1:]:
            for r in fr.allocas.values():
                for off, (sz, v) in S.mem[r].cells.items():
                    if isinstance(v, VecVal) and v.reg in S.mem:
                        if S.mem[v.reg].ek == SHENTRY: names.setdefault("en", []).append(Ptr(r, off))
                        elif S.mem[v.reg].ek == EK(8): names.setdefault("ix", []).append(Ptr(r, off))
        T = [self.OFF.name()]
        for reg, off, sz, v in ci.int_cells():
            g = ci.getter(reg, off); nm = S.mem[reg].name
            out.append(Cand("length of the shard = bytes of the blobs below %s" % nm, lambda ex, st, g=g: EQ(N(ex, st, self.out), self.OFF(ival(g(st))))))
            out.append(Cand("blobs below %s are inside the shard" % nm, None, trig=T, forall=lambda ex, st, g=g: (lambda l, n: (lambda s: IMP(AND(s >= 0, LT(s, l)), AND(self.OFF(s) >= 0, self.OFF(s) + self.ln(s) <= n))))(g(st), N(ex, st, self.out))))
            out.append(Cand("blobs below %s are copied" % nm, None, arity=2, forall=lambda ex, st, g=g: (lambda l, f: (lambda s, j: IMP(AND(s >= 0, LT(s, l), j >= 0, LT(j, self.ln(s))), f(simp(self.OFF(s) + j)) == self.d(s, j))))(g(st), V(ex, st, self.out))))
            for p in names.get("en", []):
                out.append(Cand("entries below %s" % nm, None, trig=T, forall=lambda ex, st, g=g, p=p: (lambda l, a, b: (lambda s: IMP(AND(s >= 0, LT(s, l)), AND(EQ(a(s), self.ent(s)[0]), EQ(b(s), self.ent(s)[1])))))(g(st), V(ex, st, p, 0), V(ex, st, p, 8))))
            for p in names.get("ix", []):
                out.append(Cand("index has 16 bytes per slot below %s" % nm, lambda ex, st, g=g, p=p: EQ(N(ex, st, p), 16 * ival(g(st)))))
                out.append(Cand("index bytes below %s" % nm, None, trig=T, forall=lambda ex, st, g=g, p=p: (lambda l, f: (lambda s: IMP(AND(s >= 0, LT(s, l)), AND(self.OFF(s) >= 0, self.ibytes(f, ival(0), s)))))(g(st), V(ex, st, p))))
        return out

# ---------------------------------------------------------------- lemmas over the contracts
def prove_all(name, goals, timeout=30000):
    ok = 0; bad = []
    for lbl, hyp, g in goals:
        r = None
        for opt in ({}, {"smt.arith.solver": 2}, {"smt.random_seed": 5}):
            s = z3.Solver(); s.set("timeout", timeout // 3)
            for k, v in opt.items(): s.set(k, v)
            s.add(*hyp); s.add(z3.Not(g)); r = s.check()
            if r != z3.unknown: break
        if r == z3.unsat: ok += 1
        else: bad.append("%s: %s" % (lbl, r))
    return dict(name=name, proved=not bad, n=len(goals), discharged=ok, failed=bad)
def lemma_slots():
    """(shard, slot) <-> chunk coordinate is a bijection: the steps of the inductions over the axes"""
    I = z3.Int; A, B, a, b, c, q, P, s, i, j = [I(x) for x in "A B a b c q P s i j".split()]
    dig = z3.And(0 <= a, a < c, 0 <= b, b < c)
    d = z3.Int("d")
    return prove_all("slot numbering is a bijection", [
        ("Horner step is injective", [dig, A - B == d, d * c == b - a], z3.And(d == 0, a == b)),
        ("Horner step stays below the product", [z3.And(0 <= A, A < P, 0 <= a, a < c), P - A - 1 == d, d * c >= 0], A * c + a < P * c),
        ("every slot below the product is hit", [z3.And(0 <= s, s < P * c, c >= 1), s == q * c + a, 0 <= a, a < c, P >= 1], z3.And(q >= 0, q < P)),
        ("prefix products grow", [P >= 1, c >= 1], z3.And(P * c >= P, P * c >= 1)),
        ("a chunk coordinate is determined by its shard coordinate and its digit", [c >= 1, i >= 0, j >= 0, q * c <= i, i < q * c + c, q * c <= j, j < q * c + c, i - q * c == j - q * c], i == j)])
def lemma_roundtrip():
    """parseShardIndex and extractShardBlobs on what buildShard produced give back exactly the blobs (from the three contracts)"""
    f = z3.Function("f", z3.IntSort(), z3.IntSort()); s, j, D, k, crc, off, ln, x, d = [z3.Int(v) for v in "s j D k crc off ln x d".split()]
    n = D + 16 * k + 4; emp0 = ln == 0
    eo, eb = z3.If(emp0, z3.IntVal(EMPTY), off), z3.If(emp0, z3.IntVal(EMPTY), ln)
    byte = lambda v, q: (v / (1 << 8 * q)) % 256
    base = [0 <= s, s < k, k < (1 << 50), 0 <= ln, 0 <= off, off + ln <= D, D < (1 << 58), 0 <= crc, crc < (1 << 32)]
    v = z3.Int("v")
    o8, b8 = z3.Int("o8"), z3.Int("b8")
    goals = [("four little-endian bytes give the value back", [0 <= v, v < (1 << 32)], le([byte(v, q) for q in range(4)]) == v),
             ("eight little-endian bytes give the value back", [0 <= v, v < (1 << 64)], le([byte(v, q) for q in range(8)]) == v),
             ("values in the index fit 64 bits", base, z3.And(eo >= 0, eo < (1 << 64), eb >= 0, eb < (1 << 64))),
             ("a built shard is long enough", base, n >= 16 * k + 4),
             ("the parser looks for the index where it was written", base, n - 16 * k - 4 == D),
             ("entries of a built shard are accepted", base + [o8 == eo, b8 == eb], z3.Or(o8 == EMPTY, b8 == EMPTY, z3.And(o8 <= D, o8 + b8 <= D))),
             ("a slot is marked absent iff its blob is empty", base + [o8 == eo, b8 == eb], z3.Or(o8 == EMPTY, b8 == EMPTY) == emp0),
             ("length and bytes of an extracted blob", base + [o8 == eo, b8 == eb, z3.Not(emp0), 0 <= j, j < b8, x == o8 + j], z3.And(b8 == ln, x == off + j))]
    return prove_all("shard round trip", goals)
