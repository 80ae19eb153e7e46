"""Storage effects: ghost log of file system operations, contracts on the filesystem backend and on the generic datasets (C05, C11, C16, C18)."""
from common import *
from blocking import CheckBlock
import sharding as sh
import format as fm

# ------------------------------------------------------------------ ghost file system (trusted contracts of std::filesystem and streams)
PJ = z3.Function("path_join", OBJ, OBJ, OBJ)
POF = z3.Function("path_of", OBJ, OBJ)
PARENT = z3.Function("path_parent", OBJ, OBJ)
PSTR = z3.Function("path_str", OBJ, OBJ)
FSERR = "_ZTINSt10filesystem7__cxx1116filesystem_errorE"

def fx(st): return st.ghost.get("fx", ())
def ver(st): return len(fx(st))
def effect(ex, st, kind, path, *more):
    """a change of storage: logged, and checked against the guard of the contract under verification"""
    g = getattr(ex, "fxguard", None)
    if g is not None:
        for label, f in g(ex, st, kind, path): ex.oblige(st, label, f)
    st.ghost["fx"] = fx(st) + ((kind, path) + more,)
def pset(ex, st, p, t): ex.setcell(st, p.reg, p.idx, 40, Opq("path", t))
def pget(ex, st, p):
    if ex.is_arr(st, p): raise Refuse("path inside an array")
    c = st.mem[p.reg].cells.get(p.idx)
    if c is None:
        t = ex.fresh_obj("path"); st.w(p.reg).cells[p.idx] = (40, Opq("path", t)); return t
    if not isinstance(c[1], Opq) or c[1].kind != "path": raise Refuse("path object expected")
    return c[1].t
def may_throw(ex, st, ty, ret):
    """outcomes of a library call that may fail with an exception"""
    out = Outcomes(); t = st.copy()
    out.append(("throw", t, ty)); out.append(("ret", st, ret)); return out
def m_path_ctor(ex, st, ins, args, dem):
    if "path(string" in dem or "basic_string" in dem or re.search(r"path<string", dem): t = POF(sget(ex, st, args[1]))
    elif re.search(r"\((fspath const&|fspath&&)\)$", dem): t = pget(ex, st, args[1])
    elif "char" in dem: t = POF(cstr(ex, st, args[1]))
    elif dem.endswith("path()"): t = POF(strconst(""))
    else: raise Refuse("path constructor " + dem)
    pset(ex, st, args[0], t); return None
def m_path_join(ex, st, ins, args, dem):
    pset(ex, st, args[0], PJ(pget(ex, st, args[1]), pget(ex, st, args[2]))); return None
def m_path_assign(ex, st, ins, args, dem):
    pset(ex, st, args[0], pget(ex, st, args[1])); return args[0]
def m_path_parent(ex, st, ins, args, dem):
    pset(ex, st, args[0], PARENT(pget(ex, st, args[1]))); return None
def m_path_string(ex, st, ins, args, dem):
    sset(ex, st, args[0], PSTR(pget(ex, st, args[1]))); return None
def EXISTS(ver, p): return z3.Function("exists_%d" % ver, OBJ, z3.BoolSort())(p)
def m_exists(ex, st, ins, args, dem):
    return may_throw(ex, st, FSERR, EXISTS(ver(st), pget(ex, st, args[0])))
def m_isdir(ex, st, ins, args, dem):
    return may_throw(ex, st, FSERR, z3.Bool(fresh("isdir")))
def m_mkdir(ex, st, ins, args, dem):
    effect(ex, st, "mkdir", pget(ex, st, args[0])); return may_throw(ex, st, FSERR, z3.Bool(fresh("created")))
def m_rm(ex, st, ins, args, dem):
    effect(ex, st, "remove" if "remove(" in dem else "remove_all", pget(ex, st, args[0]))
    return may_throw(ex, st, FSERR, z3.Bool(fresh("removed")) if ins.ty.k == "int" and ins.ty.a == 1 else ex.fresh_int(st, "nremoved"))

# streams: ghost record per object; 'good' is the state of the stream, 'ok' that everything written so far reached storage
class Strm:
    def __init__(self, **k): self.__dict__.update(k)
    def but(self, **k): d = dict(self.__dict__); d.update(k); return Strm(**d)
def sk(p): return ("strm", p.reg)
def strm(ex, st, p):
    s = st.ghost.get(sk(p))
    if s is None: raise Refuse("stream of unknown origin")
    return s
def vptr_obj(ex, st, p, off):
    v = ex.new_struct(st, "vtable:stream"); st.w(v).cells[0] = (8, off)
    ex.setcell(st, p.reg, p.idx, 8, Ptr(v, 24))
def m_ofstream(ex, st, ins, args, dem):
    vptr_obj(ex, st, args[0], 248)
    path = pget(ex, st, args[1]); o = z3.Bool(fresh("open"))
    mode = args[2] if len(args) > 2 else None
    app = not isz(mode) and mode is not None and bool(mode & 1)
    effect(ex, st, "append" if app else "truncate", path)
    st.ghost[sk(args[0])] = Strm(path=path, out=True, open=o, good=o, writes=(), ok=o, closed=False, synced=True)
    return None
def m_ofstream_close(ex, st, ins, args, dem):
    s = strm(ex, st, args[0]); c = z3.Bool(fresh("closed"))
    # close reports a failure (buffered bytes that cannot be written) by setting failbit; afterwards all bytes are on storage
    st.ghost[sk(args[0])] = s.but(good=z3.And(s.good, c) if s.out else s.good, ok=z3.And(s.ok, c), closed=True, synced=True)
    return None
def m_flush(ex, st, ins, args, dem):
    s = strm(ex, st, args[0]); c = z3.Bool(fresh("flushed"))
    st.ghost[sk(args[0])] = s.but(good=z3.And(s.good, c), ok=z3.And(s.ok, c), synced=True); return args[0]
def m_stream_dtor(ex, st, ins, args, dem):
    return None
def m_is_open(ex, st, ins, args, dem):
    s = strm(ex, st, args[0]); return False if s.closed else s.open
def m_good(ex, st, ins, args, dem): return strm(ex, st, args[0]).good
def m_fail(ex, st, ins, args, dem): return z3.Not(strm(ex, st, args[0]).good)
def m_bool(ex, st, ins, args, dem): return strm(ex, st, args[0]).good
def m_write(ex, st, ins, args, dem):
    p, n = args[1], args[2]; s = strm(ex, st, args[0]); w = z3.Bool(fresh("written"))
    ex.bounds(st, p, p.idx, "stream write", n)
    f = ex.arr_fn(st, p)
    snap = (lambda f, i0: lambda k: f(simp(ival(i0) + k)))(f, p.idx)
    effect(ex, st, "write", s.path)
    st.ghost[sk(args[0])] = s.but(good=z3.And(s.good, w), ok=z3.And(s.ok, w), synced=False, writes=s.writes + ((snap, n),)); return args[0]
def m_put(ex, st, ins, args, dem):
    """formatted output of a document, manipulators"""
    s = strm(ex, st, args[0]); w = z3.Bool(fresh("written"))
    what = None
    if "json" in dem or "basic_json" in dem: what = ("json", jget(ex, st, args[1])); effect(ex, st, "write", s.path)
    st.ghost[sk(args[0])] = s.but(good=z3.And(s.good, w), ok=z3.And(s.ok, w), synced=False, writes=s.writes + ((what,) if what else ()))
    out = Outcomes(); t = st.copy()
    if what: out.append(("throw", t, "_ZTIN8nlohmann16json_abi_v3_11_36detail10type_errorE"))
    out.append(("ret", st, args[0])); return out
def jget(ex, st, p): return None

# input streams: a file has a size and a content; both are fixed while the stream is open
def m_ifstream(ex, st, ins, args, dem):
    vptr_obj(ex, st, args[0], 256)
    path = pget(ex, st, args[1]); o = z3.Bool(fresh("open"))
    n = z3.Int(fresh("fsize")); st.assume(z3.And(n >= 0, n < (1 << 60)))
    st.ghost[sk(args[0])] = Strm(path=path, out=False, open=o, good=o, size=n, content=basefn("FILE", 1, 8), pos=z3.IntVal(0), gcount=z3.IntVal(0), closed=False, ok=o)
    return None
def m_seek(ex, st, ins, args, dem):
    s = strm(ex, st, args[0]); g = z3.Bool(fresh("seek"))
    if len(args) == 3:
        way = args[2]
        if isz(way): raise Refuse("seek direction")
        off = ex.to_signed(st, args[1], 64); base = {0: 0, 1: s.pos, 2: s.size}[way]
        pos = simp(ival(base) + off)
    else: pos = ival(args[1][0] if isinstance(args[1], tuple) else args[1])
    ok = z3.And(s.good, g, pos >= 0)
    st.ghost[sk(args[0])] = s.but(good=simp(ok), pos=z3.If(ok, pos, s.pos)); return args[0]
def m_tell(ex, st, ins, args, dem):
    s = strm(ex, st, args[0])
    return (ITE(s.good, s.pos, ival(U64 - 1)), ex.fresh_int(st, "mbstate"))
def m_read(ex, st, ins, args, dem):
    s = strm(ex, st, args[0]); p, n = args[1], args[2]
    if not ex.is_arr(st, p):
        # a read into a small object: all bytes arrive, or the stream fails and the object is unspecified
        if isz(n): raise Refuse("read of unknown size into an object")
        ok = z3.Bool(fresh("read")); 
        for k in range(n): ex.setcell(st, p.reg, p.idx + k, 1, ex.fresh_int(st, "rd", 8))
        cells = [(st.mem[p.reg].cells[p.idx + k][1]) for k in range(n)]
        for k in range(n): st.assume(z3.Implies(z3.And(s.good, ok), cells[k] == s.content(simp(s.pos + k))))
        st.assume(z3.Implies(ok, s.pos + n <= s.size))
        st.ghost[sk(args[0])] = s.but(good=z3.And(s.good, ok), pos=simp(s.pos + n), gcount=ex.fresh_int(st, "gc")); return args[0]
    sn = ex.to_signed(st, n, 64)
    ex.oblige(st, "read length is not negative", GE(sn, 0))
    ex.bounds(st, p, p.idx, "stream read", n)
    c = ex.fresh_int(st, "gcount"); st.assume(z3.And(c <= ival(n), z3.Implies(c > 0, z3.And(s.good, s.pos + c <= s.size))))
    f = FArr(ex.arr_fn(st, p)); lo = ival(p.idx); cont = s.content; pos = s.pos
    ex.arr_set(st, p, 0, f.where(lambda j: z3.And(lo <= ival(j), ival(j) < lo + c), lambda j: cont(simp(ival(j) - lo + pos))))
    st.ghost[sk(args[0])] = s.but(good=z3.And(s.good, c == ival(n)), pos=simp(pos + c), gcount=c); return args[0]
def m_gcount(ex, st, ins, args, dem): return strm(ex, st, args[0]).gcount
def m_resize_throw(ex, st, ins, args, dem):
    """vector::resize refuses sizes above PTRDIFF_MAX"""
    b = vbuf(ex, st, args[0], EK(8)); n = args[1]; out = Outcomes()
    c = simpb(LT(n, 1 << 63))
    if ex.feasible(st, NOT(c)):
        t = st.copy(); t.assume(NOT(c)); out.append(("throw", t, "_ZTISt12length_error"))
    st.assume(c) if c is not True else None
    vresize(ex, st, b, n); out.append(("ret", st, None)); return out
def m_memorder(ex, st, ins, args, dem):
    a, b = args
    return a & b if not isz(a) and not isz(b) else ex.fresh_int(st, "mo", 32)

FSMODELS = [
    (r"^fspath::(path|basic_path)(<.*>)?\(", m_path_ctor), (r"^fspath::~path", m_nop), (r"^std::filesystem::__cxx11::operator/\(", m_path_join),
    (r"^fspath::operator=\(", m_path_assign), (r"^fspath::parent_path\(", m_path_parent), (r"^fspath::(string|generic_string|u8string)\(", m_path_string),
    (r"^std::filesystem::exists\(fspath", m_exists), (r"^std::filesystem::is_directory\(fspath", m_isdir), (r"^std::filesystem::create_director(y|ies)\(", m_mkdir),
    (r"^std::filesystem::remove(_all)?\(fspath const&\)", m_rm),
    (r"^std::basic_ofstream<.*>::basic_ofstream<", m_ofstream), (r"^std::basic_(o|i)fstream<char, .*>::close\(\)", m_ofstream_close), (r"^std::basic_(o|i)fstream<.*>::~", m_stream_dtor),
    (r"^std::basic_(o|i)fstream<char, .*>::is_open\(\)", m_is_open), (r"^std::basic_ios<char, .*>::good\(\) const", m_good), (r"^std::basic_ios<char, .*>::(fail|operator!)\(\) const", m_fail),
    (r"^std::basic_ios<char, .*>::operator bool\(\) const", m_bool), (r"^std::basic_ostream<char, .*>::write\(", m_write), (r"^std::basic_ostream<char, .*>::flush\(\)", m_flush),
    (r"^std::basic_ifstream<.*>::basic_ifstream<", m_ifstream), (r"^std::basic_istream<char, .*>::seekg\(", m_seek), (r"^std::basic_istream<char, .*>::tellg\(", m_tell),
    (r"^std::basic_istream<char, .*>::read\(", m_read), (r"^std::basic_istream<char, .*>::gcount\(", m_gcount),
    (r"^std::operator&\(std::memory_order", m_memorder), (r"^vec<char>::resize\(u64\)", m_resize_throw),
]

# ------------------------------------------------------------------ handles
HND = {"Group": "z5::filesystem::handle::Group", "File": "z5::filesystem::handle::File", "Dataset": "z5::filesystem::handle::Dataset", "Chunk": "z5::filesystem::handle::Chunk"}
def acc_off(mod, pat, key):
    """offset of the member returned by reference by a real accessor"""
    if ("acc", id(mod), key) in LAY: return LAY[("acc", id(mod), key)]
    box = {}
    def setup(ex, st):
        box["r"] = ex.new_struct(st, "obj"); return [Ptr(box["r"])]
    ex, outs = run_concrete(mod, pat, setup, fsmodels())
    outs = [s for s in outs if s.status == "ret"]
    if len(outs) != 1 or not isinstance(outs[0].ret, Ptr) or outs[0].ret.reg != box["r"]: raise Refuse("accessor " + pat)
    LAY[("acc", id(mod), key)] = outs[0].ret.idx
    return outs[0].ret.idx
LAY = {}
def fsmodels():
    m = Models()
    for rx, fn in FSMODELS: m.add(rx, fn, front=True)
    m.inline_extra += [re.compile(r"__get_helper"), re.compile(r"std::atomic<|std::__atomic_base<"), re.compile(r"std::fpos<"), re.compile(r"std::lock_guard")]
    return m
class FsBase(Base):
    """contract executed with the ghost file system"""
    inline = [r"__get_helper", r"^(?:[\w ]+ )?std::(atomic|__atomic_base)<", r"^std::fpos<", r"std::unique_ptr", r"^std::lock_guard", r"std::__uniq_ptr", r"std::_(Tuple_impl|Head_base)<"]
    models = FSMODELS
    must_reach = "ret"
    def ready(self, ex): ex.models.inline_extra += [re.compile(r) for r in self.inline]
    def handle(self, ex, st, kind, reg=None, base=0, name=None):
        """an object of a filesystem handle class: exact vtable, symbolic mode and path"""
        mod = ex.mod; reg = ex.new_struct(st, name or kind) if reg is None else reg
        zt = {"Group": "_ZTVN2z510filesystem6handle5GroupE", "File": "_ZTVN2z510filesystem6handle4FileE", "Dataset": "_ZTVN2z510filesystem6handle7DatasetE", "Chunk": "_ZTVN2z510filesystem6handle5ChunkE"}[kind]
        vt = ex.globptr(st, zt); st.w(reg).cells[base] = (8, Ptr(vt.reg, 16))
        mo = acc_off(mod, r"^z5::handle::Handle::mode\(\) const", "mode"); m = ex.fresh_int(st, "mode", 32)
        st.assume(z3.Or(*[m == v for v in (0, 1, 3, 7, 11)]))
        st.w(reg).cells[base + mo] = (4, m)
        po = acc_off(mod, r"^%s::path\(\) const" % HND[kind], kind + "path"); t = ex.fresh_obj("hpath"); st.w(reg).cells[base + po] = (40, Opq("path", t))
        return H(Ptr(reg, base), m, t, po, mo)
class H:
    def __init__(self, p, mode, path, po, mo): self.p, self.mode, self.path, self.po, self.mo = p, mode, path, po, mo
def canw(m): return ival(m) % 2 == 1
def cancreate(m): return (ival(m) / 2) % 2 == 1

class _HandleOp(FsBase):
    """create/remove of a handle: effects only under the required permission and only on the handle's own path"""
    kind = None; op = None
    def perm(self, m): return canw(m) if self.op == "remove" or self.kind == "Chunk" else cancreate(m) if self.kind == "File" else m != 0
    def setup(self, ex, st):
        self.ready(ex); h = self.h = self.handle(ex, st, self.kind)
        def guard(ex, st, kind, path):
            return [("storage changes only if the mode permits it", self.perm(h.mode)), ("only the handle's own path is changed", path == h.path)]
        ex.fxguard = guard
        return [h.p]
    def post(self, ex, st, st0, ret):
        h = self.h
        return [("returns normally only if the mode permits the operation", self.perm(h.mode)), ("the operation has its effect", len(fx(st)) == 1)] + (
            [("an existing node is never created over", z3.Not(EXISTS(0, h.path)))] if self.op == "create" else [("only an existing node is removed", EXISTS(0, h.path))] if self.kind != "Chunk" else [])
    def exc(self, ex, st, st0, ty):
        return [("a rejected operation has no effect, a failed one only its own", len(fx(st)) <= 1),
                ("a rejection leaves storage untouched", True if ty == FSERR else len(fx(st)) == 0)]
def _mk(kind, op):
    return type(kind + op.capitalize(), (_HandleOp,), dict(kind=kind, op=op, name="filesystem::handle::%s::%s" % (kind, op), pattern=r"^z5::filesystem::handle::%s::%s\(\) const$" % (kind, op),
        desc="changes storage only if the handle's mode permits it, only at the handle's own path; %s" % ("never on an existing node" if op == "create" else "never on a missing node"), callees=()))
GroupCreate, GroupRemove, FileCreate, FileRemove, DatasetCreate, DatasetRemove, ChunkRemove = (_mk("Group", "create"), _mk("Group", "remove"), _mk("File", "create"), _mk("File", "remove"), _mk("Dataset", "create"), _mk("Dataset", "remove"), _mk("Chunk", "remove"))

class WriteFile(FsBase):
    name = "filesystem::store_detail::writeFile"; pattern = r"^z5::filesystem::store_detail::writeFile\("; callees = ()
    desc = "returns normally only if the whole buffer was written to the given path and the stream was still good after it was closed; touches no other path"
    def setup(self, ex, st):
        self.ready(ex); self.path = ex.new_struct(st, "path"); self.t = ex.fresh_obj("p"); st.w(self.path).cells[0] = (40, Opq("path", self.t))
        self.n = self.intin(ex, st, "size"); st.assume(self.n < (1 << 60)); self.buf = mkvec(ex, st, "buffer", self.n, ek=EK(8))
        ex.fxguard = lambda ex, st, kind, path: [("only the given path is changed", path == self.t)]
        return [Ptr(self.path), self.buf, Ptr(ex.new_struct(st, "what"))]
    def post(self, ex, st, st0, ret):
        ss = [s for k, s in st.ghost.items() if k[0] == "strm"]; k = z3.Int(fresh("k")); B = V(ex, st0, self.buf)
        if len(ss) != 1: return [("exactly one stream is used", False)]
        s = ss[0]
        out = [("the stream writes the given path", s.path == self.t), ("success is reported only if every byte reached storage", s.ok), ("buffered bytes are closed or flushed before success is reported", s.synced)]
        if len(s.writes) != 1: return out + [("the buffer is written exactly once", False)]
        f, n = s.writes[0]
        return out + [("the whole buffer is written", EQ(n, self.n)), ("the written bytes are the buffer", IMP(AND(k >= 0, k < self.n), f(k) == B(k)))]
    def exc(self, ex, st, st0, ty):
        ss = [s for k, s in st.ghost.items() if k[0] == "strm"]
        return [("an error is reported only if writing failed", z3.Or(*[z3.Not(s.ok) for s in ss]) if ss else False)]
    def apply(self, ex, st, ins, args):
        t = pget(ex, st, args[0]); b = vbuf(ex, st, args[1], EK(8)); f = ex.arr_fn(st, b); n = vlen(ex, st, b)
        effect(ex, st, "file", t, f, n); out = Outcomes(); th = st.copy(); th.ghost["iofail"] = True
        out.append(("throw", th, "_ZTISt13runtime_error")); out.append(("ret", st, None)); return out

class ReadFile(FsBase):
    name = "filesystem::store_detail::readFile"; pattern = r"^z5::filesystem::store_detail::readFile\("; callees = ()
    desc = "returns normally only with the buffer holding exactly the bytes of the file; changes no storage"
    def setup(self, ex, st):
        self.ready(ex); self.path = ex.new_struct(st, "path"); self.t = ex.fresh_obj("p"); st.w(self.path).cells[0] = (40, Opq("path", self.t))
        n = ex.fresh_int(st, "oldsize"); self.buf = mkvec(ex, st, "buffer", n, ek=EK(8))
        ex.fxguard = lambda ex, st, kind, path: [("a read changes no storage", False)]
        return [Ptr(self.path), self.buf, Ptr(ex.new_struct(st, "what"))]
    def post(self, ex, st, st0, ret):
        ss = [s for k, s in st.ghost.items() if k[0] == "strm"]; k = z3.Int(fresh("k")); B = V(ex, st, self.buf)
        if len(ss) != 1: return [("exactly one stream is used", False)]
        s = ss[0]
        return [("the given path is read", s.path == self.t), ("the buffer has the size of the file", EQ(N(ex, st, self.buf), s.size)), ("the buffer holds the bytes of the file", IMP(AND(k >= 0, k < s.size), B(k) == s.content(k)))]
    def exc(self, ex, st, st0, ty): return [("no effect", len(fx(st)) == 0)]
    def apply(self, ex, st, ins, args):
        t = pget(ex, st, args[0]); b = vbuf(ex, st, args[1], EK(8)); n = ex.fresh_int(st, "filesize"); st.assume(n < (1 << 60))
        out = Outcomes(); th = st.copy(); tb = vbuf(ex, th, args[1], EK(8))
        vset(ex, th, tb, ex.fresh_int(th, "junk"), {0: FArr.sym("JUNK", 1, 8)}); out.append(("throw", th, "_ZTISt13runtime_error"))
        vset(ex, st, b, n, {0: FArr.sym("STORED", 1, 8)}); out.append(("ret", st, None)); return out
