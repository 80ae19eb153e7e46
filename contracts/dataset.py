"""Store policy and plain datasets: one stored object per chunk (C03, C04, C05, C11, C16, C18)."""
from effects import *
import encode as en, keys as ky
from encode import EncBase, ENCMODELS, compressor, snap, cache_off, read_off, RT, TN
from blocking import CheckBlock

INV = "_ZTISt16invalid_argument"
CH = r"^z5::handle::Chunk<z5::filesystem::handle::Chunk>::%s\(\) const"
def chunk_offs(mod):
    co = lambda leaf: acc_off(mod, CH % leaf, "chunk." + leaf)
    return dict(I=co("chunkIndices"), B=co("shape"), D=co("defaultShape"), path=acc_off(mod, r"^%s::path\(\) const" % HND["Chunk"], "Chunkpath"),
                mode=acc_off(mod, r"^z5::handle::Handle::mode\(\) const", "mode"), dsh=read_off(mod, r"^z5::filesystem::handle::Chunk::datasetHandle\(\) const", "dsh"))
def ds_offs(mod):
    ao = lambda leaf: acc_off(mod, r"^z5::handle::Dataset<z5::filesystem::handle::Dataset>::%s\(\) const" % leaf, "ds." + leaf)
    return dict(delim=ao("zarrDelimiter"), enc=ao("chunkKeyEncoding"), fmt=read_off(mod, r"^z5::handle::Dataset<z5::filesystem::handle::Dataset>::zarrFormat\(\) const", "ds.zarrFormat"), cache=cache_off(mod),
                path=acc_off(mod, r"^%s::path\(\) const" % HND["Dataset"], "Datasetpath"), mode=acc_off(mod, r"^z5::handle::Handle::mode\(\) const", "mode"))
def cell(st, p, off): return st.mem[p.reg].cells[p.idx + off][1]
def vat(ex, st, p, off): return V(ex, st, Ptr(p.reg, p.idx + off))
def nat(ex, st, p, off): return N(ex, st, Ptr(p.reg, p.idx + off))

# ------------------------------------------------------------------ contracts used at calls
def chunk_apply(self, ex, st, ins, args):
    """a chunk handle: indices and shapes copied, shape clipped, path derived from the dataset's path, format and the indices"""
    c, ds, i, s, t = args; mod = ex.mod; co, do = chunk_offs(mod), ds_offs(mod); out = Outcomes()
    ni, nd, ns = N(ex, st, i), N(ex, st, s), N(ex, st, t); I, C, S = V(ex, st, i), V(ex, st, s), V(ex, st, t)
    ok = AND(EQ(ni, nd), EQ(ns, nd)); k = z3.Int(fresh("k"))
    if ok is not True and ex.feasible(st, NOT(ok)):
        th = st.copy(); th.assume(NOT(ok)); out.append(("throw", th, RT))
    if ok is not True: st.assume(ok)
    ex.oblige(st, "chunk extents are positive", IMP(AND(k >= 0, LT(k, nd)), C(k) >= 1))
    vt = ex.globptr(st, "_ZTVN2z510filesystem6handle5ChunkE"); w = st.w(c.reg).cells; b = c.idx
    w[b] = (8, Ptr(vt.reg, 16)); w[b + co["mode"]] = (4, cell(st, ds, do["mode"])); w[b + co["dsh"]] = (8, ds)
    key = ex.fresh_obj("chunkkey"); w[b + co["path"]] = (40, Opq("path", PJ(pget(ex, st, Ptr(ds.reg, ds.idx + do["path"])), POF(key))))
    bs = basefn("bounded", 1, 64); inside = lambda k: AND(k >= 0, LT(k, nd), S(k) + C(k) < U64, I(k) * C(k) < S(k))
    st.ctx.forall(Forall(lambda k: IMP(inside(k), bs(k) == z3.If(I(k) * C(k) + C(k) <= S(k), C(k), S(k) - I(k) * C(k))), 1, "clipped shape", trig=[bs.name()]))
    for nm, f in (("I", I), ("D", C), ("B", bs)):
        r = ex.new_arr(st, "chunk." + nm, EK(64), nd, {0: FArr(f)}); ex.vec_ek[r] = EK(64); st.w(c.reg).cells[b + co[nm]] = (24, VecVal(r))
    st.ghost["keys"] = st.ghost.get("keys", ()) + ((key, ds, I, nd),)
    out.append(("ret", st, None)); return out
ky.ChunkCtor.apply = chunk_apply
def check_apply(self, ex, st, ins, args):
    b, c = args; lay = layout_blocking(ex.mod); nd = nat(ex, st, b, lay["per"]); P = vat(ex, st, b, lay["per"]); nc = N(ex, st, c); C = V(ex, st, c)
    r = z3.Bool(fresh("ingrid")); w = z3.Int(fresh("axis"))
    st.ctx.forall(Forall(lambda k: IMP(AND(r, k >= 0, LT(k, nd)), C(k) < P(k)), 1, "coordinate in the grid")); st.assume(IMP(r, EQ(nc, nd)))
    st.assume(IMP(z3.Not(r), OR(NOT(EQ(nc, nd)), AND(w >= 0, LT(w, nd), C(w) >= P(w)))))
    st.ghost["ingrid"] = st.ghost.get("ingrid", ()) + ((r, C, nc),)
    return r
CheckBlock.apply = check_apply
def chunk_sizes(ex, st, c):
    co = chunk_offs(ex.mod); nd = nat(ex, st, c, co["D"]); B, D = vat(ex, st, c, co["B"]), vat(ex, st, c, co["D"]); k = z3.Int(fresh("k"))
    ex.oblige(st, "the chunk lies in the dataset", IMP(AND(k >= 0, LT(k, nd)), z3.And(D(k) >= 1, B(k) <= D(k), D(k) < (1 << 32))))
    PB, PD = prodfn(ex, st, vbuf(ex, st, Ptr(c.reg, c.idx + co["B"]))), prodfn(ex, st, vbuf(ex, st, Ptr(c.reg, c.idx + co["D"])))
    nb, ndf = PB(ival(nd)), PD(ival(nd)); st.assume(z3.And(nb >= 0, nb <= ndf, ndf >= 1, ndf < (1 << 56)))
    ds = cell(st, c, co["dsh"]); z = ival(cell(st, ds, cache_off(ex.mod))) == 1
    return z, nb, ndf
def trusted_cap(ex, st, data, m):
    """caller-provided memory: its size is the precondition of the function under verification"""
    if data.reg in getattr(ex, "trustcap", ()): st.assume(LE(ival(data.idx) + ival(m), st.mem[data.reg].n))
def d2b_apply(self, ex, st, ins, args):
    c, data, buf, comp, fill, vl, vs = args; w = self.w; z, nb, ndf = chunk_sizes(ex, st, c); vl = ex.asbool(vl); out = Outcomes(); n = z3.If(z, ndf, nb); m = ITE(vl, ival(vs), n)
    trusted_cap(ex, st, data, m); ex.bounds(st, data, data.idx, "chunk data", m)
    if ex.arr_es(st, data) != w: raise Refuse("chunk data of another type")
    f = snap(ex, st, data); ct = st.ghost["ctype"]; bad = AND(vl, z)
    if ex.feasible(st, OR(bad, ct != 0)):
        th = st.copy(); th.assume(OR(bad, ct != 0)); en.junk(ex, th, buf); th.ghost["codecfail"] = bad; out.append(("throw", th, RT))
    st.assume(NOT(bad)) if bad is not False else None
    r = z3.Bool(fresh("stored")); wi = z3.Int(fresh("wit")); e = FArr.sym("ENC", 1, 8); em = ex.fresh_int(st, "enclen"); st.assume(em < (1 << 60))
    b = vbuf(ex, st, buf, EK(8)); jn = ex.fresh_int(st, "junk"); st.assume(jn < (1 << 60)); jk = FArr.sym("JUNK", 1, 8)
    vset(ex, st, b, z3.If(r, em, jn), {0: FArr(lambda k: z3.If(r, ival(e(k)), ival(jk(k))))})
    # elided iff all fill value (varlen: iff empty)
    st.ctx.forall(Forall(lambda k: IMP(AND(NOT(r), NOT(vl), k >= 0, k < n), EQ(f(k), fill)), 1, "elided: all fill value"))
    st.assume(z3.Implies(AND(r, NOT(vl)), AND(wi >= 0, wi < n, NOT(EQ(f(wi), fill))))); st.assume(IMP(vl, EQB(r, NOT(EQ(vs, 0)))))
    co = chunk_offs(ex.mod)
    st.ghost["encoded"] = st.ghost.get("encoded", ()) + (dict(r=r, f=f, fill=fill, e=e, em=em, vl=vl, vs=vs, data=data, wit=wi, n=n, I=vat(ex, st, c, co["I"]), D=vat(ex, st, c, co["D"]), B=vat(ex, st, c, co["B"]), path=pget(ex, st, Ptr(c.reg, c.idx + co["path"]))),)
    out.append(("ret", st, r)); return out
en.DataToBuffer.apply = d2b_apply
def b2d_apply(self, ex, st, ins, args):
    c, buf, dst, comp = args; w = self.w; z, nb, ndf = chunk_sizes(ex, st, c); out = Outcomes(); b = vbuf(ex, st, buf, EK(8)); bn = vlen(ex, st, b); B = V(ex, st, buf)
    trusted_cap(ex, st, dst, ndf)
    if ex.arr_es(st, dst) != w: raise Refuse("output of another type")
    ex.bounds(st, dst, dst.idx, "chunk output", ndf); lo = ival(dst.idx)
    cnt = ex.fresh_int(st, "decoded"); vl = z3.Bool(fresh("varlen")); st.assume(z3.And(z3.Implies(z, z3.And(z3.Not(vl), cnt == ndf)), z3.Implies(z3.Not(vl), cnt <= ndf)))
    for t, nm in ((st.copy(), "PARTIAL"), (st, "DECODED")):
        d = FArr.sym(nm, 1, 8 * w); df = FArr(ex.arr_fn(t, dst)); ex.arr_set(t, dst, 0, df.where(lambda j: AND(LE(lo, j), LT(j, simp(lo + cnt))), (lambda d: lambda j: d(simp(ival(j) - lo)))(d)))
        if nm == "PARTIAL": t.ghost["codecfail"] = True; out.append(("throw", t, RT))
        else: t.ghost["decoded"] = t.ghost.get("decoded", ()) + (dict(d=d, cnt=cnt, vl=vl, bn=bn, B=B, dst=dst),); out.append(("ret", t, vl))
    return out
en.BufferToData.apply = b2d_apply

# ------------------------------------------------------------------ store policy
class StoreBase(FsBase):
    def chunkobj(self, ex, st):
        mod = ex.mod; reg = ex.new_struct(st, "chunk"); h = self.h = self.handle(ex, st, "Chunk", reg=reg); self.dsh = self.handle(ex, st, "Dataset", name="dshandle"); do, co = ds_offs(mod), chunk_offs(mod)
        v = z3.Int(fresh("fmt")); st.assume(z3.And(v >= 0, v <= 1)); w = st.w(self.dsh.p.reg).cells; w[do["cache"]] = (1, v); w[do["delim"]] = (32, Opq("str", ex.fresh_obj("delim")))
        st.w(reg).cells[co["dsh"]] = (8, self.dsh.p); self.z = v == 1; self.delim = w[do["delim"]][1].t; return Ptr(reg)
def files(st): return [e for e in fx(st) if e[0] == "file"]
def cap(self, ex, st, c): return pget(ex, st, Ptr(c.reg, c.idx + chunk_offs(ex.mod)["path"]))
class StoreWrite(StoreBase):
    name = "filesystem::ChunkStore::write"; pattern = r"^z5::filesystem::ChunkStore::write\("; callees = (WriteFile,)
    desc = "writes the whole buffer to the chunk's path, creating parent directories for nested keys first; touches nothing else; returns normally only if the write was complete"
    def setup(self, ex, st):
        self.ready(ex); c = self.chunkobj(ex, st); n = self.n = self.intin(ex, st, "size"); st.assume(n < (1 << 60)); self.buf = mkvec(ex, st, "buffer", n, ek=EK(8)); p = self.h.path
        ex.fxguard = lambda ex, st, kind, path: [("only the chunk's own path or its parent directory is touched", path == p if kind != "mkdir" else path == PARENT(p))]
        return [c, self.buf, Ptr(ex.new_struct(st, "what"))]
    def post(self, ex, st, st0, ret):
        F = files(st); k = z3.Int(fresh("k")); B = V(ex, st0, self.buf)
        if len(F) != 1 or fx(st)[-1] is not F[0]: return [("the chunk is written once, last", False)]
        nested = z3.Not(z3.And(self.z, self.delim != strconst("/")))
        mk = any(e[0] == "mkdir" for e in fx(st))
        return [("the whole buffer is written", EQ(F[0][3], self.n)), ("the buffer's bytes are written", IMP(AND(k >= 0, k < self.n), F[0][2](k) == B(k))),
                ("nested keys: missing parent directories are created first", True if mk else IMP(nested, EXISTS(0, PARENT(self.h.path))))]
    def exc(self, ex, st, st0, ty): return [("throws only if the file system fails", True if ty == FSERR else bool(st.ghost.get("iofail")))]
    def apply(self, ex, st, ins, args):
        c, buf = args[:2]; p = cap(self, ex, st, c); b = vbuf(ex, st, buf, EK(8)); f, n = ex.arr_fn(st, b), vlen(ex, st, b); effect(ex, st, "file", p, f, n)
        th = st.copy(); th.ghost["iofail"] = True; return Outcomes([("throw", th, RT), ("ret", st, None)])
class StoreErase(StoreBase):
    name = "filesystem::ChunkStore::erase"; pattern = r"^z5::filesystem::ChunkStore::erase\("; callees = ()
    desc = "removes the chunk's object if it exists and touches nothing else"
    def setup(self, ex, st):
        self.ready(ex); c = self.chunkobj(ex, st); p = self.h.path; ex.fxguard = lambda ex, st, kind, path: [("only the chunk's own path is removed", AND(kind == "remove", path == p))]; return [c]
    def post(self, ex, st, st0, ret): return [("an existing object is removed", True if len(fx(st)) == 1 else IMP(EXISTS(0, self.h.path), len(fx(st)) == 1))]
    def exc(self, ex, st, st0, ty): return [("throws only if the file system fails", ty == FSERR)]
    def apply(self, ex, st, ins, args):
        effect(ex, st, "erase", cap(self, ex, st, args[0])); th = st.copy(); th.ghost["iofail"] = True; return Outcomes([("throw", th, FSERR), ("ret", st, None)])
class StoreRead(StoreBase):
    name = "filesystem::ChunkStore::read"; pattern = r"^z5::filesystem::ChunkStore::read\("; callees = (ReadFile,)
    desc = "false iff the chunk's object does not exist; true only with the buffer holding the object's bytes; changes no storage"
    def setup(self, ex, st):
        self.ready(ex); c = self.chunkobj(ex, st); self.buf = mkvec(ex, st, "buffer", ex.fresh_int(st, "oldsize"), ek=EK(8)); ex.fxguard = lambda ex, st, kind, path: [("a read changes no storage", False)]
        return [c, self.buf, Ptr(ex.new_struct(st, "what"))]
    def post(self, ex, st, st0, ret):
        r = ex.asbool(ret); rd = st.ghost.get("read"); out = [("true iff the object exists", EQB(r, EXISTS(0, self.h.path)))]; k = z3.Int(fresh("k"))
        if rd is None: return out + [("true only after reading the object", NOT(r))]
        p, f, n = rd; B = V(ex, st, self.buf)
        return out + [("the chunk's own object is read", p == self.h.path), ("the buffer holds the object", AND(EQ(N(ex, st, self.buf), n), IMP(AND(k >= 0, LT(k, n)), EQ(B(k), f(k)))))]
    def exc(self, ex, st, st0, ty): return [("throws only if the file system fails", True if ty == FSERR else bool(st.ghost.get("iofail")))]
    def apply(self, ex, st, ins, args):
        c, buf = args[:2]; p = cap(self, ex, st, c); out = Outcomes(); th = st.copy(); en.junk(ex, th, buf); th.ghost["iofail"] = True; out.append(("throw", th, RT))
        x = EXISTS(ver(st), p)
        if ex.feasible(st, z3.Not(x)): s = st.copy(); s.assume(z3.Not(x)); out.append(("ret", s, False))
        if ex.feasible(st, x):
            st.assume(x); b = vbuf(ex, st, buf, EK(8)); n = ex.fresh_int(st, "stored"); st.assume(n < (1 << 60)); f = FArr.sym("STORED", 1, 8); vset(ex, st, b, n, {0: f}); st.ghost["read"] = (p, f, n); out.append(("ret", st, True))
        return out
_rf = ReadFile.apply
def rf_apply(self, ex, st, ins, args):
    out = _rf(self, ex, st, ins, args)
    for kind, s, v in out:
        if kind == "throw": s.ghost["iofail"] = True
        if kind == "ret": b = vbuf(ex, s, args[1], EK(8)); s.ghost["read"] = (pget(ex, s, args[0]), ex.arr_fn(s, b), vlen(ex, s, b))
    return out
ReadFile.apply = rf_apply

# ------------------------------------------------------------------ datasets
def touched(mod, pattern, args, key):
    """cells of an object first read by a real member function"""
    if (key, id(mod)) in LAY: return LAY[(key, id(mod))]
    ex = Executor(mod, fsmodels()); ex.vec_ek = {}; ex.models.inline_extra += [re.compile(r) for r in FsBase.inline]; st = St(); reg = ex.new_struct(st, "obj"); a = args(ex, st, reg)
    try:
        ex.push(st, mod.func(find(mod, pattern)), a); ex.run([st])
    except (Refuse, KeyError, AssertionError): pass
    r = LAY[(key, id(mod))] = sorted((o, c[0]) for o, c in st.mem[reg].cells.items()); return r
class DsBase(EncBase):
    w = 2; cls = "Dataset"; callees = (ky.ChunkCtor, CheckBlock, en.DataToBuffer, en.BufferToData, StoreWrite, StoreErase, StoreRead)
    def pat(self, leaf): return r"^z5::generic::%s<%s, z5::filesystem::ChunkStore>::%s\(" % (self.cls, TN[self.w], leaf)
    def dataset(self, ex, st):
        self.ready(ex); mod = ex.mod; nd = self.nd = self.ndim(ex, st); st.assume(ival(nd) < (1 << 15)); lay = layout_dataset(mod); r = self.r = ex.new_struct(st, "dataset"); T = TN[self.w]
        ho = acc_off(mod, self.pat("mode"), self.cls + T + "mode") - acc_off(mod, r"^z5::handle::Handle::mode\(\) const", "mode"); do = ds_offs(mod)
        h = self.h = self.handle(ex, st, "Dataset", reg=r, base=ho); self.ho = ho
        f = z3.Int(fresh("isZarr")); st.assume(z3.And(f >= 0, f <= 1)); st.w(r).cells[lay["isZarr"]] = (1, f); st.w(r).cells[ho + do["cache"]] = (1, f); self.z = f == 1
        for k in ("delim", "enc"): st.w(r).cells[ho + do[k]] = (32, Opq("str", ex.fresh_obj(k)))
        st.w(r).cells[ho + do["fmt"]] = (4, ex.fresh_int(st, "zarrFormat", 32))
        setvec(ex, st, r, lay["shape"], "ds.shape", nd); setvec(ex, st, r, lay["chunk"], "ds.chunk", nd); self.b = Blk(ex, st, Ptr(r, lay["chunking"]), nd, name="chunking")
        self.S, self.C = V(ex, st, Ptr(r, lay["shape"])), V(ex, st, Ptr(r, lay["chunk"])); S, C, b = self.S, self.C, self.b
        st.ctx.forall(Forall(lambda k: IMP(AND(k >= 0, LT(k, nd)), z3.And(b.S(k) == S(k), b.B(k) == C(k), C(k) >= 1, C(k) < (1 << 32), S(k) >= 1)), 1, "dataset invariant: grid of the dataset's shape and chunk shape"))
        fo = touched(mod, self.pat("getFillValue"), lambda ex, st, reg: [Ptr(reg), Ptr(ex.new_struct(st, "out"))], self.cls + T + "fill")
        cmo = touched(mod, r"^z5::generic::%s<%s, z5::filesystem::ChunkStore>::getCompressor\(\) const" % (self.cls, T), lambda ex, st, reg: [Ptr(reg)], self.cls + T + "comp")
        if len(fo) != 1 or len(cmo) != 1: raise Refuse("layout of the dataset")
        self.fill = self.intin(ex, st, "fillValue", 8 * self.w); st.w(r).cells[fo[0][0]] = (self.w, self.fill)
        u, c = compressor(ex, st, self.w); st.w(r).cells[cmo[0][0]] = (8, c)
        ex.fxguard = self.guard; return Ptr(r)
    def guard(self, ex, st, kind, path):
        g = st.ghost.get("ingrid", ()); k = st.ghost.get("keys", ())
        return [("storage is changed only if the mode permits writing", canw(self.h.mode)), ("storage is changed only after the coordinate was checked", OR(*[AND(r, self.sameI(C, n)) for r, C, n in g]) if g else False),
                ("only the object of the requested chunk is touched", OR(*[AND(path == PJ(self.h.path, POF(kk)), self.sameI(I, n)) for kk, ds, I, n in k if ds.reg == self.r]) if k else False)]
    def coords(self, ex, st):
        n = self.ni = self.ndim(ex, st, 0) if self.conc is None else ex.fresh_int(st, "nidx"); st.assume(n < 9) if self.conc is not None else None
        self.idx = self.vecin(ex, st, "chunkId", n); self.I = V(ex, st, self.idx); return self.idx
    def sameI(self, C, n): k = z3.Int(fresh("k")); return AND(EQ(n, self.ni), IMP(AND(k >= 0, LT(k, self.ni)), EQ(C(k), self.I(k))))
    def valid(self, ex, st):
        """ghost: the coordinate is valid (for 'never rejected')"""
        return AND(EQ(self.ni, self.nd), *[r for r, C, n in st.ghost.get("ingrid", ())])
    def rejected(self, ex, st, *more):
        """the reasons for which the function may throw"""
        g = st.ghost.get("ingrid", ()); return OR(NOT(EQ(self.ni, self.nd)), bool(st.ghost.get("iofail")), st.ghost.get("codecfail", False), *[z3.Not(r) for r, C, n in g], *more)
class WriteChunk(DsBase):
    name = "generic::Dataset<uint16_t>::writeChunk"; pattern = property(lambda s: s.pat("writeChunk"))
    desc = "writes only with a writable mode and a coordinate inside the grid, only the object of that chunk; stores the encoding of exactly the given data or, iff the data is all fill value, removes the object; a valid write is never rejected and a failed one never reported as success"
    def setup(self, ex, st):
        ds = self.dataset(ex, st); i = self.coords(ex, st); L = ex.fresh_int(st, "capacity"); st.assume(L < (1 << 60)); self.d, self.f = self.data(ex, st, L); ex.trustcap = (self.d.reg,)
        self.vl = z3.Bool(fresh("isVarlen")); self.vs = self.intin(ex, st, "varSize"); st.assume(self.vs < (1 << 32)); return [ds, i, self.d, self.vl, self.vs]
    def post(self, ex, st, st0, ret):
        E = st.ghost.get("encoded", ()); F = fx(st); k = z3.Int(fresh("k"))
        if len(E) != 1 or len(F) != 1: return [("the chunk is encoded once and stored or removed once", False)]
        e = E[0]; C, S, I = self.C, self.S, self.I
        out = [("only with a writable mode", canw(self.h.mode)), ("varlen chunks are n5 only", z3.Not(z3.And(self.vl, self.z))), ("the fill value is the dataset's", EQ(e["fill"], self.fill)), ("the given data is encoded", AND(e["data"].reg == self.d.reg, EQ(e["data"].idx, 0))),
               ("varlen flag and size are passed on", AND(EQB(e["vl"], self.vl), EQ(e["vs"], self.vs))), ("the addressed chunk is encoded", self.sameI(e["I"], self.ni)), ("with the dataset's chunk shape", IMP(AND(k >= 0, LT(k, self.nd)), EQ(e["D"](k), C(k)))),
               ("clipped at the dataset's end", IMP(AND(k >= 0, LT(k, self.nd)), e["B"](k) == z3.If(I(k) * C(k) + C(k) <= S(k), C(k), S(k) - I(k) * C(k)))), ("the encoded chunk is the one stored", F[0][1] == e["path"])]
        if F[0][0] == "erase": return out + [("a chunk is removed only if it is all fill value (or an empty varlen chunk)", NOT(e["r"]))]
        if F[0][0] != "file": return out + [("the chunk is stored or removed", False)]
        return out + [("a chunk that is all fill value is not stored", e["r"]), ("the stored bytes are the encoding", AND(EQ(F[0][3], e["em"]), IMP(AND(k >= 0, LT(k, e["em"])), EQ(F[0][2](k), e["e"](k)))))]
    def exc(self, ex, st, st0, ty):
        io = bool(st.ghost.get("iofail")); 
        return [("a rejected write has no effect", True if io else len(fx(st)) == 0), ("a valid write is never rejected", self.rejected(ex, st, z3.Not(canw(self.h.mode)), z3.And(self.vl, self.z), st.ghost.get("codecfail") is not None))]
class ReadChunk(DsBase):
    name = "generic::Dataset<uint16_t>::readChunk"; pattern = property(lambda s: s.pat("readChunk"))
    desc = "decodes the stored object of exactly the given chunk into an output with room for a full chunk; rejects coordinates outside the grid and missing chunks before the output is touched; changes no storage"
    def setup(self, ex, st):
        ds = self.dataset(ex, st); i = self.coords(ex, st); L = ex.fresh_int(st, "capacity"); st.assume(L < (1 << 60)); self.o, self.g = self.data(ex, st, L, "out"); ex.trustcap = (self.o.reg,)
        ex.fxguard = lambda ex, st, kind, path: [("a read changes no storage", False)]; return [ds, i, self.o]
    def keyok(self, p, st): return OR(*[AND(p == PJ(self.h.path, POF(kk)), self.sameI(I, n)) for kk, ds, I, n in st.ghost.get("keys", ()) if ds.reg == self.r])
    def post(self, ex, st, st0, ret):
        rd, D = st.ghost.get("read"), st.ghost.get("decoded", ()); k = z3.Int(fresh("k"))
        if rd is None or len(D) != 1: return [("one stored object is read and decoded", False)]
        p, f, n = rd; d = D[0]; g = st.ghost.get("ingrid", ())
        return [("only inside the grid", OR(*[AND(r, self.sameI(C, m)) for r, C, m in g]) if g else False), ("the addressed chunk is read", self.keyok(p, st)), ("all its bytes are decoded", AND(EQ(d["bn"], n), IMP(AND(k >= 0, LT(k, n)), EQ(d["B"](k), f(k))))),
                ("into the caller's output", AND(d["dst"].reg == self.o.reg, EQ(d["dst"].idx, 0))), ("varlen is reported as decoded", EQB(ex.asbool(ret), d["vl"]))]
    def exc(self, ex, st, st0, ty):
        k = z3.Int(fresh("k")); o = st.mem[self.o.reg].f[0]; missing = OR(*[z3.Not(EXISTS(0, PJ(self.h.path, POF(kk)))) for kk, ds, I, n in st.ghost.get("keys", ())])
        return [("a rejected read leaves the output untouched", True if st.ghost.get("codecfail") else EQ(o(k), self.g(k))), ("a valid read is never rejected", self.rejected(ex, st, missing))]
class ReadRawChunk(DsBase):
    name = "generic::Dataset<uint16_t>::readRawChunk"; pattern = property(lambda s: s.pat("readRawChunk"))
    desc = "returns the stored bytes of exactly the given chunk, or nothing if it is missing; changes no storage"
    def setup(self, ex, st):
        ds = self.dataset(ex, st); i = self.coords(ex, st); self.buf = mkvec(ex, st, "buffer", ex.fresh_int(st, "oldsize"), ek=EK(8)); ex.fxguard = lambda ex, st, kind, path: [("a read changes no storage", False)]; return [ds, i, self.buf]
    def post(self, ex, st, st0, ret):
        rd = st.ghost.get("read"); k = z3.Int(fresh("k")); n = N(ex, st, self.buf); B = V(ex, st, self.buf)
        if rd is None: return [("a missing chunk yields nothing", EQ(n, 0)), ("nothing only for a missing chunk", OR(*[AND(z3.Not(EXISTS(0, PJ(self.h.path, POF(kk)))), self.sameI(I, m)) for kk, ds, I, m in st.ghost.get("keys", ())]))]
        p, f, m = rd
        return [("the addressed chunk is read", ReadChunk.keyok(self, p, st)), ("the stored bytes are returned", AND(EQ(n, m), IMP(AND(k >= 0, LT(k, m)), EQ(B(k), f(k)))))]
    def exc(self, ex, st, st0, ty): return [("a valid read is never rejected", self.rejected(ex, st))]
class ChunkExists(DsBase):
    name = "generic::Dataset<uint16_t>::chunkExists"; pattern = property(lambda s: s.pat("chunkExists"))
    desc = "true iff the object of exactly the given chunk exists; changes no storage"
    def setup(self, ex, st):
        ds = self.dataset(ex, st); i = self.coords(ex, st); ex.fxguard = lambda ex, st, kind, path: [("a query changes no storage", False)]; return [ds, i]
    def post(self, ex, st, st0, ret):
        r = ex.asbool(ret); K = st.ghost.get("keys", ()); 
        return [("true iff the addressed chunk's object exists", OR(*[AND(EQB(r, EXISTS(0, PJ(self.h.path, POF(kk)))), self.sameI(I, m)) for kk, ds, I, m in K]) if K else False)]
    def exc(self, ex, st, st0, ty): return [("a valid query is never rejected", True if ty == FSERR else self.rejected(ex, st))]
class RemoveChunk(DsBase):
    name = "generic::Dataset<uint16_t>::removeChunk"; pattern = property(lambda s: s.pat("removeChunk")); callees = DsBase.callees
    desc = "removes the object of exactly the given chunk, only with a writable mode and a coordinate inside the grid"
    def setup(self, ex, st): ds = self.dataset(ex, st); return [ds, self.coords(ex, st)]
    def post(self, ex, st, st0, ret): return [("the chunk's object is removed", AND(len(fx(st)) == 1 and fx(st)[0][0] in ("remove", "erase"))), ("only with a writable mode", canw(self.h.mode))]
    def exc(self, ex, st, st0, ty): return [("a rejected removal has no effect", True if ty == FSERR else len(fx(st)) == 0), ("a valid removal is never rejected", True if ty == FSERR else self.rejected(ex, st, z3.Not(canw(self.h.mode))))]
class RemoveDs(DsBase):
    name = "generic::Dataset<uint16_t>::remove"; pattern = property(lambda s: s.pat("remove"))
    desc = "removes only the dataset's own path and only with a writable mode"
    def setup(self, ex, st):
        ds = self.dataset(ex, st); ex.fxguard = lambda ex, st, kind, path: [("only with a writable mode", canw(self.h.mode)), ("only the dataset's own path", path == self.h.path)]; return [ds]
    def post(self, ex, st, st0, ret): return [("the dataset is removed", len(fx(st)) == 1)]
    def exc(self, ex, st, st0, ty): return [("a rejected removal has no effect", True if ty == FSERR else len(fx(st)) == 0)]
