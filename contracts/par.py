"""Contracts on the parallel iteration helpers: every item is handed to the function object exactly once (C15)."""
from grid import *
ELEM.setdefault("std::future<void>", ("opq", "future", 16)); ELEM.setdefault("std::thread", ("opq", "thread", 8))
IT = r"__gnu_cxx::__normal_iterator<long\*, vec<long> >"

def gcell(ex, st, name):
    """a ghost counter in memory (havocked and constrained at loop cuts like a program variable)"""
    r = ex.new_struct(st, name); st.w(r).cells[0] = (8, 0); return r
def gget(st, r): return st.mem[r].cells[0][1]
def gset(ex, st, r, v): ex.setcell(st, r, 0, 8, simp(ival(v)) if isz(v) else v)
def m_item(ex, st, ins, args, dem):
    """the caller's function object: called with the next item of the range"""
    f, tid, v = args; p = ex.par; n = gget(st, p["calls"])
    ex.oblige(st, "the caller's function object is called", isinstance(f, Ptr) and f.reg == p["f"].reg and f.idx == p["f"].idx)
    ex.oblige(st, "the item handed over is the next item of the range", EQ(v, p["val"](ival(p["first"]) + ival(n)))); ex.oblige(st, "no item beyond the range", LT(n, p["count"]))
    if p.get("tid") is not None: ex.oblige(st, "the thread id is passed on", EQ(tid, p["tid"]))
    out = Outcomes()
    if p.get("throws", True): out.append(("throw", st.copy(), "_ZTISt9exception"))
    gset(ex, st, p["calls"], ival(n) + 1); out.append(("ret", st, None)); return out
def m_nthreads(ex, st, ins, args, dem):
    if "nthreads" not in ex.par: ex.par["nthreads"] = ex.fresh_int(st, "nThreads")
    return ex.par["nthreads"]
def m_enqueue(ex, st, ins, args, dem):
    """a task is handed to the pool: it must cover the items that follow those already handed over"""
    fut, pool, lam = args; p = ex.par; cells = {o - lam.idx: c for o, c in st.mem[lam.reg].cells.items() if lam.idx <= o < lam.idx + 24}
    its = [c[1] for c in cells.values() if isinstance(c[1], Ptr) and c[1].reg == p["arr"]]; fs = [c[1] for c in cells.values() if isinstance(c[1], Ptr) and c[1].reg == p["f"].reg]; ns = [c[1] for c in cells.values() if not isinstance(c[1], Ptr) and c[0] == 8]
    if len(its) != 1 or len(fs) != 1 or len(ns) != 1: raise Refuse("task object of unknown layout")
    it, n = its[0], ns[0]; c = gget(st, p["cover"])
    ex.oblige(st, "the task begins where the previous one ends", EQ(it.idx, ival(p["first"]) + ival(c))); ex.oblige(st, "the task ends inside the range", AND(GE(n, 0), LE(ival(c) + ival(n), p["count"])))
    ex.oblige(st, "the task runs the caller's function object", fs[0].idx == p["f"].idx)
    gset(ex, st, p["cover"], ival(c) + ival(n)); st.ghost["waited"] = False; return None
def m_getfutures(ex, st, ins, args, dem):
    a, b = st, st.copy(); a.ghost["waited"] = True; b.ghost["waited"] = True
    return Outcomes([("throw", b, "_ZTISt9exception"), ("ret", a, None)])
def m_pool_ctor(ex, st, ins, args, dem): ex.par["poolnt"] = args[1]; return None
PARM = [(r"^ItemFn::operator\(\)\(", m_item), (r"^z5::util::ThreadPool::nThreads\(\)", m_nthreads), (r"^(std::future<void> )?z5::util::ThreadPool::enqueue<", m_enqueue), (r"^z5::util::getFutures\(", m_getfutures),
        (r"^z5::util::ThreadPool::ThreadPool\(", m_pool_ctor), (r"^z5::util::ThreadPool::~ThreadPool\(", m_nop), (r"^std::future<void>::~?future\(", m_nop)]

class ParBase(Base):
    models = PARM; timeout = 300
    def rng(self, ex, st, lam=False):
        n = ex.fresh_int(st, "n"); i = ex.fresh_int(st, "first"); m = ex.fresh_int(st, "mem"); st.assume(z3.And(m < (1 << 60), i + n <= m)); self.n = n
        arr = ex.new_arr(st, "items", EK(64), m); f = Ptr(ex.new_struct(st, "f")); A = st.mem[arr].f[0]
        ex.par = dict(arr=arr, f=f, first=i, count=n, val=lambda k: A(simp(k)), calls=gcell(ex, st, "calls"), cover=gcell(ex, st, "cover")); self.f = f; self.arr = arr; self.i = i
        return Ptr(arr, i), Ptr(arr, simp(ival(i) + n))
    def counters(self, ex, ci, tot):
        out = []; S = ci.S; ic = [(S.mem[r].name, ci.getter(r, o), sz) for r, o, sz, v in ci.int_cells()]
        pc = [(S.mem[r].name, ci.getter(r, o)) for r, o, v in [(x[0], x[1], x[-1]) for x in ci.ptr_cells()] if isinstance(v, Ptr) and v.reg == self.arr] if hasattr(ci, "ptr_cells") else []
        for g, nm in ((ex.par["calls"], "calls"), (ex.par["cover"], "cover")):
            gg = lambda st, g=g: gget(st, g)
            out.append(Cand("%s <= %s" % (nm, tot[0]), lambda ex, st, gg=gg: AND(GE(gg(st), 0), LE(gg(st), tot[1]))))
            for n1, g1 in pc: out.append(Cand("%s stands behind the items %s" % (n1, nm), lambda ex, st, gg=gg, g1=g1: EQ(g1(st).idx, ival(self.i) + ival(gg(st)))))
            for n1, g1, sz in ic:
                if n1 in ("calls", "cover"): continue
                out.append(Cand("%s = %s" % (n1, nm), lambda ex, st, gg=gg, g1=g1: EQ(g1(st), gg(st)))); out.append(Cand("%s + %s = %s" % (n1, nm, tot[0]), lambda ex, st, gg=gg, g1=g1: EQ(ival(g1(st)) + ival(gg(st)), tot[1])))
        return out
    def cands(self, ex, ci): return self.counters(ex, ci, ("items", ex.par["count"]))
class SingleThread(ParBase):
    name = "util::parallel_foreach_single_thread"; pattern = r"^void z5::util::parallel_foreach_single_thread<" + IT + r", ItemFn const&>\("
    desc = "calls the function object once for every item of the range, in order, in the calling thread"
    def setup(self, ex, st):
        a, b = self.rng(ex, st); ex.par["tid"] = 0; return [a, b, self.f, ex.fresh_int(st, "nItems")]
    def post(self, ex, st, st0, ret): return [("every item is handed over exactly once", EQ(gget(st, ex.par["calls"]), self.n))]
    def exc(self, ex, st, st0, ty): return [("an exception of the function object is passed on", True)]
    def apply(self, ex, st, ins, args): return foreach_apply(ex, st, args[0], args[1], args[2])
class Task(ParBase):
    name = "util::parallel_foreach_impl (task)"; pattern = r"^z5::util::parallel_foreach_impl<" + IT + r", ItemFn const&>\(z5::util::ThreadPool&, long, " + IT + ", " + IT + r", ItemFn const&, std::random_access_iterator_tag\)::\{lambda\(int\)#1\}::operator\(\)\(int\) const"
    desc = "a task calls the function object once for each of its items"
    def setup(self, ex, st):
        a, b = self.rng(ex, st); tid = ex.fresh_int(st, "tid", 32); ex.par["tid"] = tid; lam = ex.new_struct(st, "task"); w = st.w(lam).cells
        for o, v in ((0, self.f), (8, a), (16, self.n)): w[o] = (8, v)
        return [Ptr(lam), tid]
    post = SingleThread.post; exc = SingleThread.exc
class Impl(ParBase):
    name = "util::parallel_foreach_impl"; pattern = r"^void z5::util::parallel_foreach_impl<" + IT + r", ItemFn const&>\(z5::util::ThreadPool&, long, " + IT + ", " + IT + r", ItemFn const&, std::random_access_iterator_tag\)$"
    desc = "splits the range into consecutive, disjoint tasks that together cover it, hands each to the pool once, and waits for all of them before returning or throwing"
    def setup(self, ex, st):
        a, b = self.rng(ex, st); st.ghost["waited"] = True; return [Ptr(ex.new_struct(st, "pool")), ex.fresh_int(st, "nItems"), a, b, self.f]
    def post(self, ex, st, st0, ret): return [("the tasks cover the whole range", EQ(gget(st, ex.par["cover"]), self.n)), ("every task has finished before the call returns", OR(st.ghost.get("waited", False), EQ(gget(st, ex.par["cover"]), 0)))]
    def exc(self, ex, st, st0, ty): return [("every task has finished before an exception is passed on", st.ghost.get("waited", False)), ("all tasks have been started before an exception is passed on", EQ(gget(st, ex.par["cover"]), self.n))]
    def apply(self, ex, st, ins, args): return foreach_apply(ex, st, args[2], args[3], args[4])
def foreach_apply(ex, st, a, b, f):
    """at calls: the items of [a, b) are handed to f exactly once each; all calls have finished afterwards"""
    if not (isinstance(a, Ptr) and isinstance(b, Ptr) and a.reg == b.reg): raise Refuse("range of items")
    ex.oblige(st, "the range is ordered", LE(a.idx, b.idx)); ex.bounds(st, a, a.idx, "items", simp(ival(b.idx) - ival(a.idx)))
    th = st.copy()
    for s in (st, th): s.ghost["foreach"] = s.ghost.get("foreach", ()) + ((ex.arr_fn(s, a), a, b, f),)
    return Outcomes([("throw", th, "_ZTISt9exception"), ("ret", st, None)])
class Dispatch(ParBase):
    name = "util::parallel_foreach (pool)"; pattern = r"^void z5::util::parallel_foreach<" + IT + r", ItemFn const&>\(z5::util::ThreadPool&, "
    desc = "hands every item of the range to the function object exactly once, whatever the number of threads"
    callees = [SingleThread, Impl]
    def setup(self, ex, st):
        a, b = self.rng(ex, st); self.a, self.b = a, b; return [Ptr(ex.new_struct(st, "pool")), a, b, self.f, ex.fresh_int(st, "nItems")]
    def post(self, ex, st, st0, ret):
        fe = st.ghost.get("foreach", ()); ok = len(fe) == 1
        return [("the range is traversed exactly once", ok)] + ([("the whole range is traversed", AND(EQ(fe[0][1].idx, self.a.idx), EQ(fe[0][2].idx, self.b.idx))), ("the caller's function object is used", isinstance(fe[0][3], Ptr) and fe[0][3].reg == self.f.reg)] if ok else [])
    def exc(self, ex, st, st0, ty): return [("exceptions come from the traversal", len(st.ghost.get("foreach", ())) == 1)]
    def apply(self, ex, st, ins, args): return foreach_apply(ex, st, args[1], args[2], args[3])
class DispatchN(Dispatch):
    name = "util::parallel_foreach (threads)"; pattern = r"^void z5::util::parallel_foreach<" + IT + r", ItemFn const&>\(long, "
    callees = [Dispatch]
    def setup(self, ex, st):
        a, b = self.rng(ex, st); self.a, self.b = a, b; return [ex.fresh_int(st, "nThreads"), a, b, self.f, ex.fresh_int(st, "nItems")]
class Items(Dispatch):
    name = "util::parallel_foreach (count)"; pattern = r"^void z5::util::parallel_foreach<ItemFn const&>\(long, long, ItemFn const&\)"
    desc = "hands each of the numbers 0 .. n-1 to the function object exactly once"
    callees = [DispatchN]
    def setup(self, ex, st):
        self.rng(ex, st); nt = ex.fresh_int(st, "nThreads"); n = self.cnt = ex.fresh_int(st, "count"); st.assume(n < (1 << 59)); return [nt, n, self.f]
    def post(self, ex, st, st0, ret):
        fe = st.ghost.get("foreach", ()); ok = len(fe) == 1; k = z3.Int(fresh("k"))
        return [("the numbers are traversed exactly once", ok)] + ([("as many items as requested", EQ(simp(ival(fe[0][2].idx) - ival(fe[0][1].idx)), self.cnt)), ("item k is the number k", IMP(AND(k >= 0, LT(k, self.cnt)), EQ(fe[0][0](simp(ival(fe[0][1].idx) + k)), k))),
                ("the caller's function object is used", isinstance(fe[0][3], Ptr) and fe[0][3].reg == self.f.reg)] if ok else [])
def m_iota(ex, st, ins, args, dem):
    a, b, v = args; n = simp(ival(b.idx) - ival(a.idx)); ex.bounds(st, a, a.idx, "iota", n); lo, hi = ival(a.idx), ival(b.idx)
    f = ex.arr_fn(st, a); ex.arr_set(st, a, 0, FArr(f).where(lambda i: AND(GE(i, lo), LT(i, hi)), lambda i: simp(ival(v) + ival(i) - lo))); return None
PARM.append((r"^void std::iota<", m_iota))
def m_3way(ex, st, ins, args, dem):
    a, b = [ex.load(st, x, Ty("ptr")) for x in args[1:3]]
    if not (isinstance(a, Ptr) and isinstance(b, Ptr) and a.reg == b.reg): raise Refuse("order of pointers")
    return ITE(simpb(LT(a.idx, b.idx)), 255, ITE(simpb(EQ(a.idx, b.idx)), 0, 1))
PARM.append((r"std::__detail::_Synth3way::operator\(\)<long\*, long\*>", m_3way))
def m_ordlit(ex, st, ins, args, dem):
    v = sgn(args[0], 8); op = re.search(r"operator(<=|>=|<|>|==|!=)", dem).group(1)
    return simpb({"<": LT(v, 0), ">": GT(v, 0), "<=": LE(v, 0), ">=": GE(v, 0), "==": EQ(v, 0), "!=": NOT(EQ(v, 0))}[op])
PARM.append((r"^std::operator(<|>|<=|>=|==|!=)\(std::strong_ordering, std::__cmp_cat", m_ordlit))
PAR = [SingleThread, Task, Impl, Dispatch, DispatchN, Items]
def m_fget(ex, st, ins, args, dem):
    p = ex.par; ex.oblige(st, "the next future is waited for", isinstance(args[0], Ptr) and args[0].reg == p["arr"] and EQ(args[0].idx, gget(st, p["calls"])))
    gset(ex, st, p["calls"], ival(gget(st, p["calls"])) + 1); th = st.copy(); gset(ex, th, p["cover"], ival(gget(th, p["cover"])) + 1)
    return Outcomes([("throw", th, "_ZTISt9exception"), ("ret", st, None)])
def epset(ex, st, p, v): ex.setcell(st, p.reg, p.idx, 8, v)
def epget(st, p): return st.mem[p.reg].cells[p.idx][1]
def m_ep(ex, st, ins, args, dem):
    if re.search(r"exception_ptr::exception_ptr\((decltype\(nullptr\)|std::nullptr_t)?\)", dem): epset(ex, st, args[0], 0); return None
    if "exception_ptr::exception_ptr(" in dem or "::operator=(" in dem: epset(ex, st, args[0], epget(st, args[1])); return args[0] if ins.ty.k == "ptr" else None
    if "operator bool" in dem: return simpb(NOT(EQ(epget(st, args[0]), 0)))
    if "~exception_ptr" in dem: return None
    raise Refuse("exception_ptr: " + dem)
def m_curexc(ex, st, ins, args, dem): epset(ex, st, args[0], 1); return None
def m_rethrow_ep(ex, st, ins, args, dem): return Outcomes([("throw", st, "_ZTISt9exception")])
PARM += [(r"^std::future<void>::get\(\)", m_fget), (r"^std::__exception_ptr::exception_ptr::", m_ep), (r"^std::current_exception\(\)", m_curexc), (r"^std::rethrow_exception\(", m_rethrow_ep)]
class GetFutures(ParBase):
    name = "util::getFutures"; pattern = r"^z5::util::getFutures\("; desc = "waits for every future exactly once; throws afterwards iff at least one of them carried an exception"
    models = [m for m in PARM if "getFutures" not in m[0]]
    def setup(self, ex, st):
        n = self.n = ex.fresh_int(st, "n"); v = mkvec(ex, st, "futures", n, ek=ELEM["std::future<void>"], fa=FArr.const(0)); b = vbuf(ex, st, v)
        ex.par = dict(arr=b.reg, f=Ptr(ex.new_struct(st, "f")), first=0, count=n, calls=gcell(ex, st, "calls"), cover=gcell(ex, st, "failures")); self.arr = b.reg; self.i = 0; return [v]
    def post(self, ex, st, st0, ret): return [("every future has been waited for", EQ(gget(st, ex.par["calls"]), self.n)), ("an exception is never swallowed", EQ(gget(st, ex.par["cover"]), 0))]
    def exc(self, ex, st, st0, ty): return [("every future has been waited for before the exception is passed on", EQ(gget(st, ex.par["calls"]), self.n)), ("an exception is passed on only if a task failed", GT(gget(st, ex.par["cover"]), 0))]
    def cands(self, ex, ci):
        out = self.counters(ex, ci, ("futures", self.n)); S = ci.S
        out.append(Cand("failures >= 0", lambda ex, st: GE(gget(st, ex.par["cover"]), 0)))
        for r, o, sz, v in ci.int_cells():
            if r in (ex.par["calls"], ex.par["cover"]): continue
            g = ci.getter(r, o); out.append(Cand("%s set iff a failure was seen" % S.mem[r].name, lambda ex, st, g=g: EQB(EQ(g(st), 0), EQ(gget(st, ex.par["cover"]), 0))))
        return out
PAR.append(GetFutures)

# ---------------------------------------------------------------- iteration over the chunks or blocks of a dataset
def m_user(ex, st, ins, args, dem):
    """the caller's function object for chunks or blocks: receives the dataset and the coordinate (or begin and extent) of the item"""
    f, tid, ds, v = args[:4]; p = ex.par; k = z3.Int(fresh("k")); st.ctx.term(k); inr = AND(k >= 0, LT(k, p["nd"]))
    ex.oblige(st, "the caller's function object is called", isinstance(f, Ptr) and f.reg == p["f"].reg); ex.oblige(st, "the thread id is passed on", EQ(tid, p["tid"])); ex.oblige(st, "the dataset is passed on", isinstance(ds, Ptr) and ds.reg == p["ds"].reg)
    for lab, a, sp in zip(("coordinate",) if len(args) == 4 else ("block begin", "block extent"), args[3:], p["spec"](ex, st)):
        ex.oblige(st, "the %s has one value per axis" % lab, EQ(N(ex, st, a), p["nd"])); ex.oblige(st, "the %s is that of the item" % lab, IMP(inr, EQ(V(ex, st, a)(k), sp(k))))
    gset(ex, st, p["calls"], ival(gget(st, p["calls"])) + 1); th = st.copy(); return Outcomes([("throw", th, "_ZTISt9exception"), ("ret", st, None)])
def m_pfe(ex, st, ins, args, dem):
    """parallel_foreach(n): the task is executed for an arbitrary item below n, here symbolically on the real code of the task"""
    nt, n, lam = args; p = ex.par; s = st.copy(); s.frames = []; i = ex.fresh_int(s, "item"); tid = ex.fresh_int(s, "tid", 32); s.assume(AND(i >= 0, LT(i, n))); p["tid"] = tid; p["item"] = i; p["n"] = n; gset(ex, s, p["calls"], 0)
    op = [q for q in ex.mod.defs if re.match(re.escape(re.match(r"^void z5::util::parallel_foreach<(.*)>\(long, long, ", dem).group(1)) + r"::operator\(\)\(", ex.mod.dem(q))]
    if len(op) != 1: raise Refuse("task of parallel_foreach")
    ex.oblige(st, "the number of items is not negative", GE(n, 0)); ex.push(s, ex.mod.func(op[0]), [lam, tid, i])
    for o in ex.run([s]):
        if o.status in ("ret", "throw"): ex.oblige(o, "the function object is called exactly once for an item", EQ(gget(o, p["calls"]), 1))
        elif o.status not in ("unreachable", "infeasible"): raise Refuse("outcome of the task")
    a, b = st, st.copy()
    for x in (a, b): x.ghost["pfe"] = x.ghost.get("pfe", ()) + ((nt, n),)
    return Outcomes([("throw", b, "_ZTISt9exception"), ("ret", a, None)])
class EachBase(Base):
    timeout = 300; models = PARM + [(r"^(ChunkFn|BlockFn)::operator\(\)\(", m_user), (r"^void z5::util::parallel_foreach<z5::util::parallel_for_each", m_pfe)]
    callees = [IdToCoord, BeginShape, Overlap, BlockingInit]; desc = "the function object is called exactly once for every chunk"
    def world(self, ex, st):
        lay = layout_dataset(ex.mod); nd = self.nd = self.ndim(ex, st); ds = ex.new_struct(st, "ds"); self.ds = Ptr(ds); b = self.b = Blk(ex, st, Ptr(ds, lay["chunking"]), nd); setvec(ex, st, ds, lay["shape"], "ds.shape", nd); self.S = V(ex, st, Ptr(ds, lay["shape"]))
        st.ctx.forall(Forall(lambda k: IMP(AND(k >= 0, LT(k, nd)), z3.And(b.S(k) == self.S(k), self.S(k) >= 1)), 1, "the grid is that of the dataset")); st.assume(b.numt < (1 << 62))
        self.f = Ptr(ex.new_struct(st, "f")); self.lay = lay; ex.par = dict(f=self.f, ds=self.ds, nd=nd, calls=gcell(ex, st, "calls"), spec=self.spec); self.nt = ex.fresh_int(st, "nThreads", 32)
        self.box = (Ptr(ds, lay["chunking"]).reg, lay["chunking"])
    def roi(self, ex, st):
        self.rb, self.re = self.vecin(ex, st, "roiBegin", self.nd), self.vecin(ex, st, "roiEnd", self.nd); r, e = self.RB, self.RE = V(ex, st, self.rb), V(ex, st, self.re)
        st.ctx.forall(Forall(lambda k: IMP(AND(k >= 0, LT(k, self.nd)), z3.And(r(k) < e(k), e(k) <= self.S(k))), 1, "the region lies in the dataset"))
    def bshape(self, ex, st):
        self.bs = self.vecin(ex, st, "blockShape", self.nd); B = self.BS = V(ex, st, self.bs)
        st.ctx.forall(Forall(lambda k: IMP(AND(k >= 0, LT(k, self.nd)), z3.And(B(k) >= 1, self.S(k) + B(k) < U64)), 1, "positive block extents"))
    def total(self, ex, st): raise NotImplementedError
    def post(self, ex, st, st0, ret):
        c = st.ghost.get("pfe", ())
        return [("the items are distributed exactly once", len(c) == 1)] + ([("every item is distributed", EQ(c[0][1], self.total(ex, st))), ("the number of threads is passed on", EQ(sgn(c[0][0], 64), sgn(self.nt, 32)))] if len(c) == 1 else []) + self.more(ex, st)
    def more(self, ex, st): return []
    def exc(self, ex, st, st0, ty): return [("exceptions come from the function object", len(st.ghost.get("pfe", ())) == 1)]
    def roimore(self, ex, st):
        o = st.ghost.get("overlap", ()); k = z3.Int(fresh("k")); st.ctx.term(k); inr = AND(k >= 0, LT(k, self.nd))
        if len(o) != 1: return [("the items of the region are enumerated once", False)]
        return [("the region begins where requested", IMP(inr, EQ(o[0][1](k), self.RB(k)))), ("the region ends where requested", IMP(inr, EQ(simp(ival(o[0][1](k)) + ival(o[0][2](k))), self.RE(k))))]
    def cands(self, ex, ci):
        return elementwise(ci, [("extent of the region", lambda ex, st, k, v: IMP(LT(k, self.nd), EQ(v, simp(self.RE(k) - self.RB(k)))))]) + ([Cand("rest", None, forall=lambda ex, st, af=af, g=g: (lambda k: IMP(AND(k >= 0, GE(k, g(st)), LT(k, self.nd)), EQ(af(st)(k), self.RE(k))))) for an, af, reg in arrays_modified(ci) for g in [ci.getter(r, o) for r, o, sz, v in ci.int_cells()]] if hasattr(self, "RE") else [])
class EachChunk(EachBase):
    name = "util::parallel_for_each_chunk"; pattern = r"^void z5::util::parallel_for_each_chunk<ChunkFn const&>\("
    def setup(self, ex, st): self.world(ex, st); return [self.ds, self.nt, self.f]
    def spec(self, ex, st): D = DIG(ex, self.box); return [lambda k: D(ival(ex.par["item"]), ival(k))]
    def total(self, ex, st): return self.b.numt
class EachChunkRoi(EachBase):
    name = "util::parallel_for_each_chunk_in_roi"; pattern = r"^void z5::util::parallel_for_each_chunk_in_roi<ChunkFn const&>\("; desc = "the function object is called exactly once for every chunk that intersects the region"
    def setup(self, ex, st): self.world(ex, st); self.roi(ex, st); return [self.ds, self.rb, self.re, self.nt, self.f]
    def spec(self, ex, st): D = st.ghost["overlap"][0][3]; return [lambda k: D(ival(ex.par["item"]), ival(k))]
    def total(self, ex, st): return st.ghost["overlap"][0][4]
    def more(self, ex, st): return self.roimore(ex, st) + [("the grid of the dataset is used", (st.ghost["overlap"][0][0].reg, st.ghost["overlap"][0][0].idx) == self.box)]
def geo(B, S, C): return [lambda k: C(k) * B(k), lambda k: MINZ(B(k), S(k) - C(k) * B(k))]
class EachBlock(EachBase):
    name = "util::parallel_for_each_block"; pattern = r"^void z5::util::parallel_for_each_block<BlockFn const&>\("; desc = "the function object is called exactly once for every block of the given extent, with its begin and extent clipped to the dataset"
    def setup(self, ex, st): self.world(ex, st); self.bshape(ex, st); return [self.ds, self.bs, self.nt, self.f]
    def blocking(self, st): c = st.ghost.get("blockings", ()); return c[0][0] if len(c) == 1 else None
    def digits(self, ex, st): p = self.blocking(st); D = DIG(ex, (p.reg, p.idx)); return lambda k: D(ival(ex.par["item"]), ival(k))
    def spec(self, ex, st): return geo(self.BS, self.S, self.digits(ex, st))
    def total(self, ex, st): p = self.blocking(st); return st.ghost["blocknum"] if "blocknum" in st.ghost else None
    def more(self, ex, st):
        c = st.ghost.get("blockings", ()); k = z3.Int(fresh("k")); st.ctx.term(k); inr = AND(k >= 0, LT(k, self.nd))
        return [("one grid of blocks", len(c) == 1)] + ([("the grid of blocks covers the dataset", IMP(inr, EQ(c[0][1](k), self.S(k)))), ("the grid has the requested blocks", IMP(inr, EQ(c[0][2](k), self.BS(k))))] if len(c) == 1 else [])
class EachBlockRoi(EachBlock):
    name = "util::parallel_for_each_block_in_roi"; pattern = r"^void z5::util::parallel_for_each_block_in_roi<BlockFn const&>\("; desc = "the function object is called exactly once for every block that intersects the region"
    def setup(self, ex, st): self.world(ex, st); self.bshape(ex, st); self.roi(ex, st); return [self.ds, self.bs, self.rb, self.re, self.nt, self.f]
    def digits(self, ex, st): D = st.ghost["overlap"][0][3]; return lambda k: D(ival(ex.par["item"]), ival(k))
    def total(self, ex, st): return st.ghost["overlap"][0][4]
    def more(self, ex, st):
        p = self.blocking(st); q = st.ghost["overlap"][0][0]
        return EachBlock.more(self, ex, st) + self.roimore(ex, st) + [("the grid of blocks is the one enumerated", p is not None and (p.reg, p.idx) == (q.reg, q.idx))]
EACH = [EachChunk, EachChunkRoi, EachBlock, EachBlockRoi]
