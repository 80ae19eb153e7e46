"""Chunk handles: storage keys, clipped shapes and paths (C10, C01, C05)."""
from effects import *
from encode import ChunkObj, cache_off, read_off
import prover

def keyfn(ex, st, base, delim, I, nd, rev=False):
    """ghost prefixes of a chunk key: K(0) = base, K(k+1) = K(k) . delim . decimal(index); no delimiter in front of the first index of a key without prefix"""
    K = basefn("KEY", 1, None, sort=OBJ, trig=False); e = strconst("")
    J = (lambda k: I(simp(ival(nd) - 1 - k))) if rev else I
    st.assume(K(z3.IntVal(0)) == base)
    if base.eq(e):
        st.assume(z3.Implies(GT(nd, 0) if isz(nd) else z3.BoolVal(nd > 0), K(z3.IntVal(1)) == DEC(ival(J(z3.IntVal(0))))))
        st.ctx.forall(Forall(lambda k: IMP(AND(k >= 1, LT(k, nd)), K(simp(k + 1)) == CAT(K(k), CAT(delim, DEC(ival(J(k)))))), 1, "key prefixes", trig=[K.name()]))
    else:
        st.ctx.forall(Forall(lambda k: IMP(AND(k >= 0, LT(k, nd)), K(simp(k + 1)) == CAT(K(k), CAT(delim, DEC(ival(J(k)))))), 1, "key prefixes", trig=[K.name()]))
    st.ctx.forall(Forall(lambda k: IMP(k >= 1, K(k) != e), 1, "a key with an index is not empty", trig=[K.name()]))
    if not isz(nd):                       # bounded stand-in: the same prefixes as flat terms
        t = base
        for k in range(nd):
            t = cat(cat(t, delim), DEC(ival(J(z3.IntVal(k))))) if k or not base.eq(e) else DEC(ival(J(z3.IntVal(0))))
            st.assume(K(z3.IntVal(k + 1)) == t)
        return K
    st.assume(z3.And(K(z3.IntVal(1)) != e) if not base.eq(e) else z3.BoolVal(True))
    return K
class GetChunkKey(FsBase):
    name = "handle::Chunk::getChunkKey"; pattern = r"^z5::handle::Chunk<z5::filesystem::handle::Chunk>::getChunkKey\("; callees = ()
    desc = "the key the format prescribes: zarr v3 'c' + (separator index)*, zarr v2 indices joined by the separator, n5 indices in reversed order joined by '/'"
    def setup(self, ex, st):
        self.ready(ex); nd = self.nd = self.ndim(ex, st); c = self.c = ChunkObj(self, ex, st, nd)
        self.z = z3.Bool(fresh("isZarr")); self.fmt = ex.fresh_int(st, "zarrFormat", 32)
        d, e = ex.new_struct(st, "delimiter"), ex.new_struct(st, "encoding"); self.d, self.e = ex.fresh_obj("delim"), ex.fresh_obj("enc")
        sset(ex, st, Ptr(d), self.d); sset(ex, st, Ptr(e), self.e)
        I = c.I; self.K3 = keyfn(ex, st, strconst("c"), self.d, I, nd); self.K2 = keyfn(ex, st, strconst(""), self.d, I, nd); self.KN = keyfn(ex, st, strconst(""), strconst("/"), I, nd, rev=True)
        self.ret = ex.new_struct(st, "key"); return [Ptr(self.ret), c.p, self.z, Ptr(d), self.fmt, Ptr(e)]
    def v3(self): return z3.And(self.z, self.fmt == 3, self.e == strconst("default"))
    def post(self, ex, st, st0, ret):
        k = sget(ex, st, Ptr(self.ret)); n = ival(self.nd); v3 = self.v3()
        return [("zarr v3 default key", IMP(v3, k == self.K3(n))), ("zarr v2 key", IMP(z3.And(self.z, z3.Not(v3)), k == self.K2(n))), ("n5 key", IMP(z3.Not(self.z), k == self.KN(n)))]
    def exc(self, ex, st, st0, ty): return [("never throws", False)]
    def cands(self, ex, ci):
        out = []; nd = ival(self.nd)
        pos = [ci.getter(r, o) for r, o, sz, v in ci.int_cells()] + [g for r, o, g in ci.ptr_cells()]
        for r, o, s in ci.obj_cells():
            for g in pos:
                for K in (self.K3, self.K2, self.KN):
                    out.append(Cand("%s is the key prefix" % ci.S.mem[r].name, lambda ex, st, s=s, g=g, K=K: s(st) == K(ival(g(st)))))
                    out.append(Cand("%s is the key prefix (downwards)" % ci.S.mem[r].name, lambda ex, st, s=s, g=g, K=K: s(st) == K(simp(nd - g(st)))))
        return out
    def apply(self, ex, st, ins, args):
        r, c, z, d, f, e = args; co = acc_off(ex.mod, r"^z5::handle::Chunk<z5::filesystem::handle::Chunk>::chunkIndices\(\) const", "chunk.chunkIndices")
        I = V(ex, st, Ptr(c.reg, c.idx + co)); n = N(ex, st, Ptr(c.reg, c.idx + co)); k = ex.fresh_obj("chunkkey"); ex.setcell(st, r.reg, r.idx, 32, Opq("str", k))
        st.ghost["key"] = (k, ex.asbool(z), sget(ex, st, d), f, sget(ex, st, e), I, n); return None

class ChunkCtor(FsBase):
    name = "filesystem::handle::Chunk::Chunk"; pattern = r"^z5::filesystem::handle::Chunk::Chunk\(z5::filesystem::handle::Dataset const&, Shape"; callees = (GetChunkKey,)
    desc = "rejects a coordinate of another dimension; otherwise keeps indices and chunk shape, clips the shape at the dataset's end and addresses the dataset's path joined with the key of exactly this dataset's format"
    models = FSMODELS
    def setup(self, ex, st):
        self.ready(ex); nd = self.nd = self.ndim(ex, st); h = self.h = self.handle(ex, st, "Dataset", name="dshandle"); mod = ex.mod
        off = cache_off(mod); v = z3.Int(fresh("fmt")); st.assume(z3.And(v >= 0, v <= 1)); st.w(h.p.reg).cells[h.p.idx + off] = (1, v); self.z = v == 1
        ao = lambda leaf: acc_off(mod, r"^z5::handle::Dataset<z5::filesystem::handle::Dataset>::%s\(\) const" % leaf, "ds." + leaf)
        self.so, self.eo = ao("zarrDelimiter"), ao("chunkKeyEncoding"); self.fo = read_off(mod, r"^z5::handle::Dataset<z5::filesystem::handle::Dataset>::zarrFormat\(\) const", "ds.zarrFormat")
        b = h.p.reg; self.d, self.e = ex.fresh_obj("delim"), ex.fresh_obj("enc"); self.f = ex.fresh_int(st, "zarrFormat", 32)
        st.w(b).cells[h.p.idx + self.so] = (32, Opq("str", self.d)); st.w(b).cells[h.p.idx + self.eo] = (32, Opq("str", self.e)); st.w(b).cells[h.p.idx + self.fo] = (4, self.f)
        self.ni = self.ndim(ex, st, 0) if self.conc is None else ex.fresh_int(st, "nidx"); st.assume(self.ni < 9) if self.conc is not None else None
        self.i, self.c, self.s = self.vecin(ex, st, "indices", self.ni), self.vecin(ex, st, "chunk", nd), self.vecin(ex, st, "shape", nd)
        self.I, self.C, self.S = [V(ex, st, x) for x in (self.i, self.c, self.s)]; C, S = self.C, self.S
        st.ctx.forall(Forall(lambda k: IMP(AND(k >= 0, LT(k, nd)), C(k) >= 1), 1, "chunk extents are positive"))
        self.r = ex.new_struct(st, "chunk"); ex.fxguard = lambda ex, st, kind, path: [("a handle is built without touching storage", False)]
        return [Ptr(self.r), h.p, self.i, self.c, self.s]
    def inside(self, k):
        return AND(k >= 0, LT(k, self.nd), self.S(k) + self.C(k) < U64, self.I(k) * self.C(k) < self.S(k))
    def post(self, ex, st, st0, ret):
        mod = ex.mod; r = self.r; h = self.h; nd = self.nd; k = z3.Int(fresh("k")); g = st.ghost.get("key")
        co = lambda leaf: acc_off(mod, r"^z5::handle::Chunk<z5::filesystem::handle::Chunk>::%s\(\) const" % leaf, "chunk." + leaf)
        same = lambda p, n, F: AND(EQ(N(ex, st, p), n), IMP(AND(k >= 0, LT(k, n)), EQ(V(ex, st, p)(k), F(k))))
        B = V(ex, st, Ptr(r, co("shape"))); C, S, I = self.C, self.S, self.I
        out = [("the coordinate has the dataset's dimension", EQ(self.ni, nd)), ("keeps the indices", same(Ptr(r, co("chunkIndices")), nd, I)), ("keeps the chunk shape", same(Ptr(r, co("defaultShape")), nd, C)),
               ("shape: dimension", EQ(N(ex, st, Ptr(r, co("shape"))), nd)), ("shape: the chunk clipped at the end of the dataset", IMP(self.inside(k), B(k) == z3.If(I(k) * C(k) + C(k) <= S(k), C(k), S(k) - I(k) * C(k))))]
        mo = acc_off(mod, r"^z5::handle::Handle::mode\(\) const", "mode"); out.append(("keeps the mode", EQ(st.mem[r].cells[mo][1], h.mode)))
        dr = st.mem[r].cells.get(read_off(mod, r"^z5::filesystem::handle::Chunk::datasetHandle\(\) const", "dsh"))
        out.append(("refers to the dataset's handle", dr is not None and isinstance(dr[1], Ptr) and dr[1].reg == h.p.reg and (dr[1].idx == h.p.idx)))
        if g is None: return out + [("the key is computed", False)]
        kk, z, d, f, e, GI, gn = g
        p = pget(ex, st, Ptr(r, acc_off(mod, r"^%s::path\(\) const" % HND["Chunk"], "Chunkpath")))
        return out + [("path: dataset path joined with the key", p == PJ(h.path, POF(kk))), ("the key has this dataset's format", z3.And(EQB(z, self.z), d == self.d, EQ(f, self.f), e == self.e)),
                      ("the key is that of the given indices", AND(EQ(gn, nd), IMP(AND(k >= 0, LT(k, nd)), EQ(GI(k), I(k)))))]
    def exc(self, ex, st, st0, ty): return [("rejects only coordinates of another dimension", NOT(EQ(self.ni, self.nd)))]
    def cands(self, ex, ci):
        C, S, I = self.C, self.S, self.I
        sp = lambda ex, st, k, v: IMP(self.inside(k), v == z3.If(I(k) * C(k) + C(k) <= S(k), C(k), S(k) - I(k) * C(k)))
        return elementwise(ci, [("clipped extent", sp)], down=True)

def lemma_keys():
    """distinct coordinates have distinct keys: one step of the induction over the indices, characters as integers.
    A key is prefix . separator . decimal; decimals are non-empty digit strings and the separator ends in a non-digit. For two equal keys the decimals
    and the prefixes (with the separator) agree, so by induction (and injectivity of decimals) so do the coordinates."""
    s = z3.Function("s", z3.IntSort(), z3.IntSort()); n, l1, l2, i = z3.Ints("n l1 l2 i"); dig = lambda c: z3.And(c >= 48, c <= 57); t = z3.Int("t")
    hyp = []
    for l in (l1, l2): hyp += [l >= 1, l < n, z3.ForAll([t], z3.Implies(z3.And(t >= n - l, t < n), dig(s(t)))), z3.Not(dig(s(n - l - 1)))]
    goals = [("the decimals have the same length", hyp, l1 == l2)]
    # DEC is injective: decimal expansion without leading zeros. Equal last digits and equal quotients give equal numbers
    a, b = z3.Ints("a b"); goals.append(("decimals: equal quotient and last digit", [a >= 0, b >= 0, a / 10 == b / 10, a % 10 == b % 10], a == b))
    # first index of a key without prefix: the key is the decimal itself; with 'c' as prefix the separator follows
    ok = 0
    for nm, h, g in goals:
        sv = z3.Solver(); sv.set("timeout", 20000); sv.add(*h); sv.add(z3.Not(g)); ok += sv.check() == z3.unsat
    return dict(name="chunk keys are injective", proved=ok == len(goals), n=len(goals), discharged=ok)
