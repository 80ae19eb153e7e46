"""Sharded datasets over the shard container (C03, C04, C05, C07, C08, C11, C16, C18)."""
from dataset import *
import sharding as sh
from sharding import SHENTRY, BLOBS, nest, emp

# ------------------------------------------------------------------ contracts of the container functions at calls
def slot_apply(self, ex, st, ins, args):
    a, c = args; na, nc = N(ex, st, a), N(ex, st, c); A, C = V(ex, st, a), V(ex, st, c); k = z3.Int(fresh("k"))
    ex.oblige(st, "dimensions match", EQ(na, nc)); ex.oblige(st, "chunks per shard are positive", IMP(AND(k >= 0, LT(k, nc)), C(k) >= 1))
    PR = prodfn(ex, st, vbuf(ex, st, c)); s = ex.fresh_int(st, "slot"); st.assume(LT(s, PR(ival(nc))))
    st.ghost["slots"] = st.ghost.get("slots", ()) + ((s, A, na, C),); return s
sh.ShardSlot.apply = slot_apply
def parse_apply(self, ex, st, ins, args):
    buf, k, en_ = args; b = vbuf(ex, st, buf, EK(8)); n = vlen(ex, st, b); f = V(ex, st, buf); out = Outcomes(); bad = st.copy()
    eb = vbuf(ex, bad, en_, SHENTRY); vset(ex, bad, eb, ex.fresh_int(bad, "junk"), {0: FArr.sym("JO", 1, 64), 8: FArr.sym("JN", 1, 64)}); bad.assume(N(ex, bad, en_) < (1 << 59)); out.append(("ret", bad, False))
    o, l = FArr.sym("ENTOFF", 1, 64), FArr.sym("ENTLEN", 1, 64); e = vbuf(ex, st, en_, SHENTRY); vset(ex, st, e, k, {0: o, 8: l}); is_ = simp(n - 16 * ival(k) - 4)
    st.assume(GE(is_, 0)); st.ctx.forall(Forall(lambda s: IMP(AND(s >= 0, LT(s, k)), z3.Or(emp(o(s), l(s)), z3.And(o(s) <= is_, o(s) + l(s) <= is_))), 1, "accepted entries lie inside the object"))
    st.ghost["parsed"] = (o, l, f, n, k); out.append(("ret", st, True)); return out
sh.ParseIndex.apply = parse_apply
def extract_apply(self, ex, st, ins, args):
    buf, en_, bl = args; n = vlen(ex, st, vbuf(ex, st, buf, EK(8))); f = V(ex, st, buf); eb = vbuf(ex, st, en_, SHENTRY); k = vlen(ex, st, eb); o, l = V(ex, st, en_, 0), V(ex, st, en_, 8); s = z3.Int(fresh("s"))
    ex.oblige(st, "entries lie inside the object", IMP(AND(s >= 0, LT(s, k)), OR(emp(o(s), l(s)), o(s) + l(s) <= n)))
    b = vbuf(ex, st, bl, BLOBS); vset(ex, st, b, k, {("n", 0): FArr(lambda s: z3.If(emp(o(s), l(s)), z3.IntVal(0), ival(l(s)))), ("d", 0): FArr(lambda s, j: f(simp(ival(o(s)) + j)))}); return None
sh.Extract.apply = extract_apply
def allempty_apply(self, ex, st, ins, args):
    ln = nest(ex, st, args[0])[0]; k = N(ex, st, args[0]); r = z3.Bool(fresh("allempty")); w = z3.Int(fresh("wit"))
    st.ctx.forall(Forall(lambda s: IMP(AND(r, s >= 0, LT(s, k)), EQ(ln(s), 0)), 1, "all blobs are empty")); st.assume(IMP(z3.Not(r), AND(w >= 0, LT(w, k), GT(ln(w), 0)))); return r
sh.AllEmpty.apply = allempty_apply
def build_apply(self, ex, st, ins, args):
    ln, d = nest(ex, st, args[0]); k = N(ex, st, args[0]); b = vbuf(ex, st, args[1], EK(8)); e = FArr.sym("SHARD", 1, 8); n = ex.fresh_int(st, "shardlen"); st.assume(n < (1 << 60)); vset(ex, st, b, n, {0: e})
    st.ghost["built"] = (ln, d, k, e, n); return None
sh.Build.apply = build_apply

def m_lock(ex, st, ins, args, dem):
    if not isinstance(args[1], Ptr): raise Refuse("mutex")
    st.ghost["locks"] = st.ghost.get("locks", ()) + ((args[0].reg, args[1].reg, args[1].idx),); return None
def m_unlock(ex, st, ins, args, dem):
    st.ghost["locks"] = tuple(l for l in st.ghost.get("locks", ()) if l[0] != args[0].reg); return None
LOCKMODELS = [(r"^std::(lock_guard|unique_lock|scoped_lock)<std::mutex>::(lock_guard|unique_lock|scoped_lock)\(", m_lock), (r"^std::(lock_guard|unique_lock|scoped_lock)<std::mutex>::~", m_unlock)]

def elided(ex, st, r, f, n, fill, ret_f):
    pass
class ShBase(DsBase):
    cls = "ShardedDataset"; models = LOCKMODELS + ENCMODELS
    def dataset(self, ex, st):
        p = DsBase.dataset(self, ex, st); mod = ex.mod; T = TN[self.w]; nd = self.nd; lay = layout_dataset(mod); r = self.r; S, C = self.S, self.C
        st.assume(self.z)
        so = touched(mod, self.pat("shardShape"), lambda ex, st, reg: [Ptr(ex.new_struct(st, "ret")), Ptr(reg)], T + "shs")
        co = touched(mod, self.pat("readShard"), lambda ex, st, reg: [Ptr(reg), mkvec(ex, st, "c", 2), mkvec(ex, st, "b", 0, ek=EK(8)), Ptr(ex.new_struct(st, "e"))], T + "cps")
        no = touched(mod, self.pat("readShardBlobs"), lambda ex, st, reg: [Ptr(reg), mkvec(ex, st, "c", 2), mkvec(ex, st, "b", 0, ek=BLOBS)], T + "nsl")
        so = [o for o, s in so if s == 24]; co = [o for o, s in co if s == 24 and o not in so and o not in (lay["shape"], lay["chunk"])]; no = [o for o, s in no if s == 8]
        if len(so) != 1 or len(co) != 1 or len(no) != 1: raise Refuse("layout of the sharded dataset")
        setvec(ex, st, r, so[0], "shardShape", nd); setvec(ex, st, r, co[0], "cps", nd); self.SS, self.CP = V(ex, st, Ptr(r, so[0])), V(ex, st, Ptr(r, co[0])); SS, CP = self.SS, self.CP
        st.ctx.forall(Forall(lambda k: IMP(AND(k >= 0, LT(k, nd)), z3.And(CP(k) >= 1, SS(k) == CP(k) * C(k), SS(k) < (1 << 32))), 1, "sharded dataset invariant: shards of whole chunks"))
        self.PRC = prodfn(ex, st, vbuf(ex, st, Ptr(r, co[0]))); k = self.k = ex.fresh_int(st, "nSlots"); st.assume(z3.And(k == self.PRC(ival(nd)), k >= 1, k < (1 << 50))); st.w(r).cells[no[0]] = (8, k)
        PD = prodfn(ex, st, vbuf(ex, st, Ptr(r, lay["chunk"]))); self.size_ = ex.fresh_int(st, "chunkSize"); st.assume(z3.And(self.size_ == PD(ival(nd)), self.size_ >= 1, self.size_ < (1 << 56))); st.w(r).cells[lay["size"]] = (8, self.size_)
        vt = ex.globptr(st, [n for n in ex.mod.globs if n.startswith("_ZTVN2z57generic14ShardedDatasetI%s" % en.MANG[self.w])][0]); st.w(r).cells[0] = (8, Ptr(vt.reg, 16))
        return p
    def shcoord(self, ex, st):
        n = self.ni = self.nd; self.idx = self.vecin(ex, st, "shardCoord", n); self.I = V(ex, st, self.idx); return self.idx
    def pathof(self, st): return [(PJ(self.h.path, POF(kk)), AND(self.sameI(I, n))) for kk, ds, I, n in st.ghost.get("keys", ()) if ds.reg == self.r]
    def isdiv(self, C, n):
        """C is the coordinate of the shard of the chunk"""
        k = z3.Int(fresh("k")); return AND(EQ(n, self.nd), IMP(AND(k >= 0, LT(k, self.nd)), EQ(C(k), udiv(self.I(k), self.CP(k)))))
    def slotok(self, st, s): return OR(*[AND(EQ(s, v), self.sameI(A, n), self.samecps(C)) for v, A, n, C in st.ghost.get("slots", ())])
    def samecps(self, C): k = z3.Int(fresh("k")); return IMP(AND(k >= 0, LT(k, self.nd)), EQ(C(k), self.CP(k)))
NOFX = lambda ex, st, kind, path: [("a read changes no storage", False)]

class ReadShardBlobs(ShBase):
    name = "generic::ShardedDataset<uint16_t>::readShardBlobs"; pattern = property(lambda s: s.pat("readShardBlobs")); callees = (ky.ChunkCtor, StoreRead, sh.ParseIndex, sh.Extract)
    desc = "one blob per slot: all empty for a missing shard, otherwise the bytes its index records; a present but corrupt shard is an error; changes no storage"
    def setup(self, ex, st):
        ds = self.dataset(ex, st); c = self.shcoord(ex, st); self.bl = mkvec(ex, st, "blobs", ex.fresh_int(st, "n0"), ek=BLOBS); ex.fxguard = NOFX; return [ds, c, self.bl]
    def post(self, ex, st, st0, ret):
        rd, pa = st.ghost.get("read"), st.ghost.get("parsed"); s, j = z3.Int(fresh("s")), z3.Int(fresh("j")); ln, d = nest(ex, st, self.bl); inr = AND(s >= 0, LT(s, self.k)); out = [("one blob per slot", EQ(N(ex, st, self.bl), self.k))]
        if rd is None: return out + [("only a missing shard has no chunks", OR(*[AND(z3.Not(EXISTS(0, p)), same) for p, same in self.pathof(st)])), ("missing: every blob is empty", IMP(inr, EQ(ln(s), 0)))]
        p, f, n = rd
        if pa is None: return out + [("the index is parsed", False)]
        o, l, pf, pn, pk = pa
        return out + [("the addressed shard is read", OR(*[AND(p == q, same) for q, same in self.pathof(st)])), ("the whole shard is parsed with its number of slots", AND(EQ(pn, n), EQ(pk, self.k), IMP(AND(j >= 0, LT(j, n)), EQ(pf(j), f(j))))),
                      ("empty entries give empty blobs", IMP(inr, EQ(ln(s), z3.If(emp(o(s), l(s)), z3.IntVal(0), ival(l(s)))))), ("the blobs are the recorded bytes", IMP(AND(inr, j >= 0, LT(j, ln(s)), NOT(emp(o(s), l(s)))), EQ(d(s, j), f(simp(o(s) + j)))))]
    def exc(self, ex, st, st0, ty): return [("only a failing read or a corrupt index is an error", OR(bool(st.ghost.get("iofail")), st.ghost.get("read") is not None and st.ghost.get("parsed") is None))]
    def cands(self, ex, ci):
        out = []; bl = self.bl
        def fa(get): return lambda ex, st: (lambda l, ln: (lambda s: IMP(AND(s >= 0, LT(s, l)), EQ(ln(s), 0))))(get(st), nest(ex, st, bl)[0])
        for reg, off, sz, v in ci.int_cells(): out.append(Cand("blobs below %s are empty" % ci.S.mem[reg].name, None, forall=fa(ci.getter(reg, off))))
        for r, o, g in ci.ptr_cells(): out.append(Cand("blobs before %s are empty" % ci.S.mem[r].name, None, forall=fa(g)))
        return out
    def apply(self, ex, st, ins, args):
        ds, c, bl = args; th = st.copy(); th.ghost["iofail"] = True; n = ex.fresh_int(st, "k"); lay = self
        ln, d = FArr.sym("RLEN", 1, 60), FArr.sym("RBLOB", 2, 8); b = vbuf(ex, st, bl, BLOBS); k = ex.nslots; vset(ex, st, b, k, {("n", 0): ln, ("d", 0): d})
        st.ghost["rsb"] = st.ghost.get("rsb", ()) + (dict(C=V(ex, st, c), n=N(ex, st, c), ln=ln, d=d, locks=st.ghost.get("locks", ()), ds=ds),)
        return Outcomes([("throw", th, RT), ("ret", st, None)])
class ReadShardRaw(ShBase):
    name = "generic::ShardedDataset<uint16_t>::readShardRaw"; pattern = property(lambda s: s.pat("readShardRaw")); callees = (ky.ChunkCtor, StoreRead, sh.ParseIndex)
    desc = "false iff the shard is missing; otherwise the shard's bytes with offset and length of every slot inside them (length 0 for an empty slot); a corrupt index is an error"
    def setup(self, ex, st):
        ds = self.dataset(ex, st); c = self.shcoord(ex, st); self.buf = mkvec(ex, st, "buffer", ex.fresh_int(st, "n0"), ek=EK(8)); self.o, self.n = mkvec(ex, st, "offsets", ex.fresh_int(st, "n1")), mkvec(ex, st, "nbytes", ex.fresh_int(st, "n2")); ex.fxguard = NOFX
        return [ds, c, self.buf, self.o, self.n]
    def spec(self, st, s): o, l = st.ghost["parsed"][:2]; return (z3.If(emp(o(s), l(s)), z3.IntVal(0), ival(o(s))), z3.If(emp(o(s), l(s)), z3.IntVal(0), ival(l(s))))
    def post(self, ex, st, st0, ret):
        rd, pa = st.ghost.get("read"), st.ghost.get("parsed"); r = ex.asbool(ret); s, j = z3.Int(fresh("s")), z3.Int(fresh("j"))
        if rd is None: return [("false only for a missing shard", AND(NOT(r), OR(*[AND(z3.Not(EXISTS(0, p)), same) for p, same in self.pathof(st)])))]
        p, f, n = rd; out = [("true for a present shard", r), ("the addressed shard is read", OR(*[AND(p == q, same) for q, same in self.pathof(st)]))]
        if pa is None: return out + [("the index is parsed", False)]
        o, l, pf, pn, pk = pa; O, L, B = V(ex, st, self.o), V(ex, st, self.n), V(ex, st, self.buf); so, sl = self.spec(st, s); inr = AND(s >= 0, LT(s, self.k))
        return out + [("the shard's bytes are returned", AND(EQ(N(ex, st, self.buf), n), IMP(AND(j >= 0, LT(j, n)), EQ(B(j), f(j))))), ("the whole shard is parsed with its number of slots", AND(EQ(pn, n), EQ(pk, self.k), IMP(AND(j >= 0, LT(j, n)), EQ(pf(j), f(j))))),
                      ("one offset and length per slot", AND(EQ(N(ex, st, self.o), self.k), EQ(N(ex, st, self.n), self.k))), ("offsets of the index", IMP(inr, EQ(O(s), so))), ("lengths of the index", IMP(inr, EQ(L(s), sl))), ("every slot lies inside the shard's bytes", IMP(inr, O(s) + L(s) <= n))]
    def exc(self, ex, st, st0, ty): return [("only a failing read or a corrupt index is an error", OR(bool(st.ghost.get("iofail")), st.ghost.get("read") is not None and st.ghost.get("parsed") is None))]
    def cands(self, ex, ci):
        if "parsed" not in ci.S.ghost: return []
        return elementwise(ci, [("offset", lambda ex, st, k, v: EQ(v, self.spec(st, k)[0])), ("length", lambda ex, st, k, v: EQ(v, self.spec(st, k)[1]))])
class WriteShardBlobs(ShBase):
    name = "generic::ShardedDataset<uint16_t>::writeShardBlobs"; pattern = property(lambda s: s.pat("writeShardBlobs")); callees = (ky.ChunkCtor, StoreWrite, StoreErase, sh.AllEmpty, sh.Build)
    desc = "only with a writable mode and only the object of the given shard: removes it iff every blob is empty, otherwise stores exactly the shard built from the blobs"
    def guard(self, ex, st, kind, path): return [("storage is changed only if the mode permits writing", canw(self.h.mode)), ("only the object of the given shard is touched", OR(*[AND(path == p, same) for p, same in self.pathof(st)]))]
    def setup(self, ex, st):
        ds = self.dataset(ex, st); c = self.shcoord(ex, st); self.bl = mkvec(ex, st, "blobs", self.k, ek=BLOBS); self.ln, self.d = nest(ex, st, self.bl); return [ds, c, self.bl]
    def post(self, ex, st, st0, ret):
        F = fx(st); s, j = z3.Int(fresh("s")), z3.Int(fresh("j")); bu = st.ghost.get("built"); inr = AND(s >= 0, LT(s, self.k))
        if len(F) != 1: return [("the shard is stored or removed once", False)]
        if F[0][0] == "erase": return [("removed only if every chunk is empty", IMP(inr, EQ(self.ln(s), 0)))]
        if F[0][0] != "file" or bu is None: return [("the built shard is stored", False)]
        ln, d, k, e, n = bu; g = z3.Bool("ghost:all blobs empty"); st.ctx.forall(Forall(lambda s: IMP(AND(g, s >= 0, LT(s, self.k)), EQ(self.ln(s), 0)), 1))
        return [("a shard without chunks is removed", z3.Not(g)), ("built from the given blobs", AND(EQ(k, self.k), IMP(inr, EQ(ln(s), self.ln(s))), IMP(AND(inr, j >= 0, LT(j, self.ln(s))), EQ(d(s, j), self.d(s, j))))),
                ("exactly the built shard is stored", AND(EQ(F[0][3], n), IMP(AND(j >= 0, LT(j, n)), EQ(F[0][2](j), e(j)))))]
    def exc(self, ex, st, st0, ty):
        io = bool(st.ghost.get("iofail")); return [("a rejected write has no effect", True if io else len(fx(st)) == 0), ("rejects only read-only handles", OR(io, z3.Not(canw(self.h.mode))))]
    def apply(self, ex, st, ins, args):
        ds, c, bl = args; ln, d = nest(ex, st, bl); n = N(ex, st, bl); ex.oblige(st, "one blob per slot is written", EQ(n, ex.nslots)); out = Outcomes(); cw = canw(ex.mode)
        if ex.feasible(st, z3.Not(cw)): th = st.copy(); th.assume(z3.Not(cw)); out.append(("throw", th, INV))
        st.assume(cw); lo = {r: o.f.copy() for r, o in ()} if False else None
        # snapshot of the blobs at the time of the call
        st.ghost["wsb"] = st.ghost.get("wsb", ()) + (dict(C=V(ex, st, c), n=N(ex, st, c), ln=ln, d=d, locks=st.ghost.get("locks", ()), ds=ds),)
        effect(ex, st, "shard", None); th = st.copy(); th.ghost["iofail"] = True; out.append(("throw", th, RT)); out.append(("ret", st, None)); return out
class MakeChunkBlob(ShBase):
    name = "generic::ShardedDataset<uint16_t>::makeChunkBlob"; pattern = property(lambda s: s.pat("makeChunkBlob")); callees = (ky.ChunkCtor, en.DataToBuffer)
    desc = "false iff the chunk is all fill value (of the dataset); otherwise the blob is the encoding of exactly the given chunk's data; changes no storage"
    def setup(self, ex, st):
        ds = self.dataset(ex, st); i = self.coords(ex, st); L = ex.fresh_int(st, "capacity"); st.assume(L < (1 << 60)); self.d, self.f = self.data(ex, st, L); ex.trustcap = (self.d.reg,); self.bl = mkvec(ex, st, "blob", ex.fresh_int(st, "n0"), ek=EK(8)); ex.fxguard = NOFX
        k = z3.Int(fresh("k")); self.inside = True; st.ctx.forall(Forall(lambda k: IMP(AND(k >= 0, LT(k, self.nd)), self.I(k) * self.C(k) < self.S(k)), 1, "precondition: chunk inside the grid"))
        return [ds, i, self.d, self.bl]
    def post(self, ex, st, st0, ret):
        E = st.ghost.get("encoded", ()); r = ex.asbool(ret); k = z3.Int(fresh("k"))
        if len(E) != 1: return [("the chunk is encoded once", False)]
        e = E[0]; B = V(ex, st, self.bl)
        return [("the fill value is the dataset's", EQ(e["fill"], self.fill)), ("the given data is encoded", AND(e["data"].reg == self.d.reg, EQ(e["data"].idx, 0))), ("never varlen", NOT(e["vl"])), ("the addressed chunk is encoded", self.sameI(e["I"], self.ni)), ("with the dataset's chunk shape", IMP(AND(k >= 0, LT(k, self.nd)), EQ(e["D"](k), self.C(k)))),
                ("false iff all fill value", EQB(r, e["r"])), ("the blob is the encoding", IMP(r, AND(EQ(N(ex, st, self.bl), e["em"]), IMP(AND(k >= 0, LT(k, e["em"])), EQ(B(k), e["e"](k))))))]
    def exc(self, ex, st, st0, ty): return [("only a wrong dimension or the codec fails", OR(NOT(EQ(self.ni, self.nd)), st.ghost.get("codecfail") is not None))]
    def apply(self, ex, st, ins, args):
        ds, i, data, bl = args; w = self.w; th = st.copy(); en.junk(ex, th, bl); th.ghost["codecfail"] = True; I = V(ex, st, i); n = N(ex, st, i); r = z3.Bool(fresh("stored")); e = FArr.sym("ENC", 1, 8); em = ex.fresh_int(st, "enclen"); st.assume(em < (1 << 60))
        jn = ex.fresh_int(st, "junk"); st.assume(jn < (1 << 60)); jk = FArr.sym("JUNK", 1, 8)
        b = vbuf(ex, st, bl, EK(8)); vset(ex, st, b, z3.If(r, em, jn), {0: FArr(lambda k: z3.If(r, ival(e(k)), ival(jk(k))))}); st.ghost["blob"] = st.ghost.get("blob", ()) + (dict(I=I, n=n, r=r, e=e, em=em, data=data, ds=ds),)
        return Outcomes([("throw", th, RT), ("ret", st, r)])
class WriteInnerBlob(ShBase):
    name = "generic::ShardedDataset<uint16_t>::writeInnerBlob"; pattern = property(lambda s: s.pat("writeInnerBlob")); callees = (sh.ShardId, sh.ShardSlot, ReadShardBlobs, WriteShardBlobs)
    desc = "under the dataset's lock: rewrites the chunk's own shard with exactly the chunk's slot replaced (by the blob, or emptied) and every other slot as read"
    def guard(self, ex, st, kind, path): return [("storage is changed only if the mode permits writing", canw(self.h.mode)), ("the shard is rewritten under the lock", len(st.ghost.get("locks", ())) > 0)]
    def setup(self, ex, st):
        ds = self.dataset(ex, st); ex.nslots = self.k; ex.mode = self.h.mode; self.ni = self.nd; self.idx = self.vecin(ex, st, "chunkId", self.nd); self.I = V(ex, st, self.idx); m = self.m = ex.fresh_int(st, "bloblen"); st.assume(m < (1 << 60))
        self.blob = mkvec(ex, st, "blob", m, ek=EK(8)); self.bf = V(ex, st, self.blob); self.ne = z3.Bool(fresh("nonEmpty")); return [ds, self.idx, self.blob, self.ne]
    def post(self, ex, st, st0, ret):
        R, W = st.ghost.get("rsb", ()), st.ghost.get("wsb", ())
        if len(R) != 1 or len(W) != 1: return [("the shard is read once and written once", False)]
        R, W = R[0], W[0]; s, j = z3.Int(fresh("s")), z3.Int(fresh("j")); inr = AND(s >= 0, LT(s, self.k)); sl = st.ghost.get("slots", ())
        if not sl: return [("the slot is computed", False)]
        v = sl[-1][0]
        return [("the shard of the chunk is read", self.isdiv(R["C"], R["n"])), ("the shard of the chunk is written", self.isdiv(W["C"], W["n"])), ("the slot is that of the chunk", self.slotok(st, v)),
                ("read and write happen under one lock", len(R["locks"]) > 0 and R["locks"] == W["locks"]), ("the lock is released", len(st.ghost.get("locks", ())) == 0),
                ("all other slots are written as read", IMP(AND(inr, NOT(EQ(s, v))), AND(EQ(W["ln"](s), R["ln"](s)), IMP(AND(j >= 0, LT(j, R["ln"](s))), EQ(W["d"](s, j), R["d"](s, j)))))),
                ("the chunk's slot holds the blob, or nothing", AND(EQ(W["ln"](v), ITE(self.ne, ival(self.m), z3.IntVal(0))), IMP(AND(self.ne, j >= 0, LT(j, self.m)), EQ(W["d"](v, j), self.bf(j)))))]
    def exc(self, ex, st, st0, ty): return [("only a read-only mode or failing storage is an error", OR(bool(st.ghost.get("iofail")), z3.Not(canw(self.h.mode)))), ("the lock is released", len(st.ghost.get("locks", ())) == 0)]
    def apply(self, ex, st, ins, args):
        ds, i, blob, ne = args; I = V(ex, st, i); n = N(ex, st, i); ex.oblige(st, "the coordinate has the dataset's dimension", EQ(n, ex.nd_)); cw = canw(ex.mode); out = Outcomes()
        if ex.feasible(st, z3.Not(cw)): th = st.copy(); th.assume(z3.Not(cw)); th.ghost["mayread"] = True; out.append(("throw", th, INV))
        rd = st.copy(); rd.ghost["iofail"] = True; out.append(("throw", rd, RT)); st.assume(cw)
        st.ghost["inner"] = st.ghost.get("inner", ()) + (dict(I=I, n=n, b=V(ex, st, blob), m=N(ex, st, blob), ne=ex.asbool(ne), ds=ds),); effect(ex, st, "shard", None); th = st.copy(); th.ghost["iofail"] = True; out.append(("throw", th, RT)); out.append(("ret", st, None)); return out
class ShWriteChunk(ShBase):
    name = "generic::ShardedDataset<uint16_t>::writeChunk"; pattern = property(lambda s: s.pat("writeChunk")); callees = (ky.ChunkCtor, CheckBlock, MakeChunkBlob, WriteInnerBlob)
    desc = "only with a writable mode and a coordinate inside the grid: replaces exactly this chunk's slot by the encoding of the given data, or empties it iff the data is all fill value; a valid write is never rejected"
    def guard(self, ex, st, kind, path):
        g = st.ghost.get("ingrid", ()); return [("storage is changed only if the mode permits writing", canw(self.h.mode)), ("storage is changed only after the coordinate was checked", OR(*[AND(r, self.sameI(C, n)) for r, C, n in g]) if g else False)]
    def setup(self, ex, st):
        ds = self.dataset(ex, st); ex.nslots = self.k; ex.mode = self.h.mode; ex.nd_ = self.nd; i = self.coords(ex, st); L = ex.fresh_int(st, "capacity"); st.assume(L < (1 << 60)); self.d, self.f = self.data(ex, st, L); self.vl = z3.Bool(fresh("isVarlen")); return [ds, i, self.d, self.vl, self.intin(ex, st, "varSize")]
    def post(self, ex, st, st0, ret):
        B, W = st.ghost.get("blob", ()), st.ghost.get("inner", ()); k = z3.Int(fresh("k"))
        if len(B) != 1 or len(W) != 1: return [("the chunk is encoded once and its slot replaced once", False)]
        b, w = B[0], W[0]
        return [("only with a writable mode", canw(self.h.mode)), ("never varlen", z3.Not(self.vl)), ("the given data of the addressed chunk is encoded", AND(b["data"].reg == self.d.reg, EQ(b["data"].idx, 0), self.sameI(b["I"], b["n"]))), ("the addressed chunk's slot is replaced", self.sameI(w["I"], w["n"])),
                ("the slot is emptied iff the data is all fill value", EQB(w["ne"], b["r"])), ("the slot holds the encoding", IMP(w["ne"], AND(EQ(w["m"], b["em"]), IMP(AND(k >= 0, LT(k, b["em"])), EQ(w["b"](k), b["e"](k))))))]
    def exc(self, ex, st, st0, ty):
        io = bool(st.ghost.get("iofail")); return [("a rejected write has no effect", True if io else len(fx(st)) == 0), ("a valid write is never rejected", self.rejected(ex, st, z3.Not(canw(self.h.mode)), self.vl, st.ghost.get("codecfail") is not None))]
class ShRemoveChunk(ShBase):
    name = "generic::ShardedDataset<uint16_t>::removeChunk"; pattern = property(lambda s: s.pat("removeChunk")); callees = (ky.ChunkCtor, CheckBlock, WriteInnerBlob); guard = ShWriteChunk.guard
    desc = "only with a writable mode and a coordinate inside the grid: empties exactly this chunk's slot"
    def setup(self, ex, st): ds = self.dataset(ex, st); ex.nslots = self.k; ex.mode = self.h.mode; ex.nd_ = self.nd; return [ds, self.coords(ex, st)]
    def post(self, ex, st, st0, ret):
        W = st.ghost.get("inner", ())
        if len(W) != 1: return [("the slot is replaced once", False)]
        return [("only with a writable mode", canw(self.h.mode)), ("the addressed chunk's slot is emptied", AND(self.sameI(W[0]["I"], W[0]["n"]), OR(NOT(W[0]["ne"]), EQ(W[0]["m"], 0))))]
    def exc(self, ex, st, st0, ty):
        io = bool(st.ghost.get("iofail")); return [("a rejected removal has no effect", True if io else len(fx(st)) == 0), ("a valid removal is never rejected", self.rejected(ex, st, z3.Not(canw(self.h.mode))))]
class ShReadRawChunk(ShBase):
    name = "generic::ShardedDataset<uint16_t>::readRawChunk"; pattern = property(lambda s: s.pat("readRawChunk")); callees = (ky.ChunkCtor, StoreRead, sh.ParseIndex, sh.ShardId, sh.ShardSlot)
    desc = "exactly the bytes the shard's index records for the chunk's slot, nothing for an empty slot or missing shard; changes no storage"
    def setup(self, ex, st):
        ds = self.dataset(ex, st); i = self.coords(ex, st); self.buf = mkvec(ex, st, "buffer", ex.fresh_int(st, "n0"), ek=EK(8)); ex.fxguard = NOFX; return [ds, i, self.buf]
    def shpath(self, st): return [(PJ(self.h.path, POF(kk)), self.isdiv(I, n)) for kk, ds, I, n in st.ghost.get("keys", ()) if ds.reg == self.r]
    def found(self, ex, st):
        """(present, offset, length) of the chunk's slot, and the obligations that identify it"""
        rd, pa, sl = st.ghost.get("read"), st.ghost.get("parsed"), st.ghost.get("slots", ())
        if rd is None: return None, [("only a missing shard has no index", OR(*[AND(z3.Not(EXISTS(0, p)), same) for p, same in self.shpath(st)]))]
        if pa is None or not sl: return None, [("index and slot are determined", False)]
        p, f, n = rd; o, l, pf, pn, pk = pa; v = sl[-1][0]; j = z3.Int(fresh("j"))
        return (v, o, l, f), [("the shard of the chunk is read", OR(*[AND(p == q, same) for q, same in self.shpath(st)])), ("the slot is that of the chunk", self.slotok(st, v)), ("the whole shard is parsed with its number of slots", AND(EQ(pn, n), EQ(pk, self.k), IMP(AND(j >= 0, LT(j, n)), EQ(pf(j), f(j)))))]
    def post(self, ex, st, st0, ret):
        F, out = self.found(ex, st); n = N(ex, st, self.buf); B = V(ex, st, self.buf); j = z3.Int(fresh("j"))
        if F is None: return out + [("missing: nothing is returned", EQ(n, 0))]
        v, o, l, f = F
        return out + [("length of the slot", EQ(n, z3.If(emp(o(v), l(v)), z3.IntVal(0), ival(l(v))))), ("bytes of the slot", IMP(AND(NOT(emp(o(v), l(v))), j >= 0, LT(j, n)), EQ(B(j), f(simp(o(v) + j)))))]
    def exc(self, ex, st, st0, ty): return [("only a wrong dimension, a failing read or a corrupt index is an error", OR(NOT(EQ(self.ni, self.nd)), bool(st.ghost.get("iofail")), st.ghost.get("read") is not None and st.ghost.get("parsed") is None))]
    def apply(self, ex, st, ins, args):
        ds, i, buf = args; th = st.copy(); th.ghost["iofail"] = True; n = ex.fresh_int(st, "rawlen"); st.assume(n < (1 << 60)); f = FArr.sym("RAWCHUNK", 1, 8); b = vbuf(ex, st, buf, EK(8)); vset(ex, st, b, n, {0: f}); st.ghost["rawread"] = dict(I=V(ex, st, i), n=N(ex, st, i), f=f, m=n); return Outcomes([("throw", th, RT), ("ret", st, None)])
class ShChunkExists(ShReadRawChunk):
    name = "generic::ShardedDataset<uint16_t>::chunkExists"; pattern = property(lambda s: s.pat("chunkExists")); desc = "true iff the shard exists and its index records the chunk's slot as non-empty; changes no storage"
    def setup(self, ex, st): ds = self.dataset(ex, st); i = self.coords(ex, st); ex.fxguard = NOFX; return [ds, i]
    def post(self, ex, st, st0, ret):
        F, out = self.found(ex, st); r = ex.asbool(ret)
        if F is None: return out + [("missing: false", NOT(r))]
        v, o, l, f = F; return out + [("true iff the slot is not empty", EQB(r, NOT(emp(o(v), l(v)))))]
class ShReadChunk(ShBase):
    name = "generic::ShardedDataset<uint16_t>::readChunk"; pattern = property(lambda s: s.pat("readChunk")); callees = (ky.ChunkCtor, CheckBlock, ShReadRawChunk, en.Decompress)
    desc = "decodes exactly the chunk's stored bytes into a full chunk; rejects coordinates outside the grid and missing chunks before the output is touched; changes no storage"
    def setup(self, ex, st):
        ds = self.dataset(ex, st); i = self.coords(ex, st); L = ex.fresh_int(st, "capacity"); st.assume(z3.And(L < (1 << 60), L >= self.size_)); self.o, self.g = self.data(ex, st, L, "out"); ex.fxguard = NOFX; return [ds, i, self.o]
    def post(self, ex, st, st0, ret):
        log, rr, g = st.ghost.get("codec", ()), st.ghost.get("rawread"), st.ghost.get("ingrid", ()); k = z3.Int(fresh("k")); o = st.mem[self.o.reg].f[0]
        if len(log) != 1 or rr is None: return [("the chunk is read and decoded once", False)]
        kind, s, nb, d, n = log[0]
        return [("only inside the grid", OR(*[AND(r, self.sameI(C, m)) for r, C, m in g]) if g else False), ("the addressed chunk is read", self.sameI(rr["I"], rr["n"])), ("every stored byte is decoded", AND(EQ(nb, rr["m"]), IMP(AND(k >= 0, LT(k, nb)), EQ(s(k), rr["f"](k))))), ("a full chunk is decoded", EQ(n, self.size_)),
                ("the output is what was decoded", IMP(AND(k >= 0, LT(k, n)), EQ(o(k), d(k)))), ("nothing else is written", IMP(AND(k >= 0, GE(k, n), LT(k, st.mem[self.o.reg].n)), EQ(o(k), self.g(k)))), ("never varlen", NOT(ex.asbool(ret)))]
    def exc(self, ex, st, st0, ty):
        rr = st.ghost.get("rawread"); ct = st.ghost["ctype"]
        return [("a valid read is never rejected", self.rejected(ex, st, False if rr is None else OR(EQ(rr["m"], 0), ct != 0, NOT(EQ(rr["m"], simp(self.size_ * self.w))))))]
