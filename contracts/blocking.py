"""Contracts on util::Blocking, the request checks and chunk geometry (C01, C05, C15)."""
from common import *

class CheckRequest(Base):
    name = "Dataset::checkRequestShape"; pattern = r"^z5::Dataset::checkRequestShape\("
    desc = "returns iff dimensions match and, in every axis, extent >= 1 and offset + extent <= shape in exact arithmetic; otherwise throws; modifies nothing"
    def setup(self, ex, st):
        lay = layout_dataset(ex.mod); nd = self.nd = self.ndim(ex, st)
        ds = ex.new_struct(st, "ds"); setvec(ex, st, ds, lay["shape"], "shape_", nd); self.shape = Ptr(ds, lay["shape"])
        no = self.no = self.conc if self.conc is not None else ex.fresh_int(st, "no")
        ns = self.ns = self.conc if self.conc is not None else ex.fresh_int(st, "ns")
        self.note("shape", V(ex, st, self.shape), nd)
        self.offset = self.vecin(ex, st, "offset", no); self.req = self.vecin(ex, st, "request", ns)
        return [Ptr(ds), self.offset, self.req]
    def ok(self, ex, st0, k):
        o, s, S = V(ex, st0, self.offset)(k), V(ex, st0, self.req)(k), V(ex, st0, self.shape)(k)
        return z3.And(o + s <= S, s > 0)
    def post(self, ex, st, st0, ret):
        k = z3.Int(fresh("k"))
        return [("a request is accepted only if the dimensions match", AND(EQ(self.no, self.nd), EQ(self.ns, self.nd))),
                ("an accepted request lies inside the dataset in every axis", IMP(AND(k >= 0, LT(k, self.nd)), self.ok(ex, st0, k)))]
    def exc(self, ex, st, st0, ty):
        st.ctx.forall(Forall(lambda k: IMP(AND(k >= 0, LT(k, self.nd)), self.ok(ex, st0, k)), 1))
        return [("a valid request is never rejected", OR(NOT(EQ(self.no, self.nd)), NOT(EQ(self.ns, self.nd))))]
    def cands(self, ex, ci):
        out = []
        for reg, off, sz, v0 in ci.int_cells():
            g = ci.getter(reg, off)
            out.append(Cand("axes below %s are in range" % ci.S.mem[reg].name, None, forall=lambda ex, st, g=g: (lambda k: IMP(AND(k >= 0, LT(k, g(st))), self.ok(ex, st, k)))))
        return out

class CheckBlock(Base):
    name = "Blocking::checkBlockCoordinate"; pattern = r"^z5::util::Blocking::checkBlockCoordinate\("
    desc = "true iff the number of coordinates equals the dimension and every coordinate is below the number of blocks of its axis"
    def setup(self, ex, st):
        nd = self.ndim(ex, st); b = ex.new_struct(st, "blk"); self.b = Blk(ex, st, Ptr(b), nd)
        self.nc = self.conc if self.conc is not None else ex.fresh_int(st, "nc")
        self.note("shape", self.b.S, nd); self.note("block", self.b.B, nd)
        self.c = self.vecin(ex, st, "coord", self.nc)
        return [Ptr(b), self.c]
    def post(self, ex, st, st0, ret):
        b = self.b; c = V(ex, st0, self.c); k = z3.Int(fresh("k")); r = ex.asbool(ret)
        ok = lambda k: IMP(AND(k >= 0, LT(k, b.nd)), c(k) < b.P(k))
        s2 = ("a coordinate inside the grid is never rejected", None)
        out = [("an accepted coordinate has the right dimension", IMP(r, EQ(self.nc, b.nd))), ("an accepted coordinate lies in the grid", IMP(r, ok(k)))]
        st.ctx.forall(Forall(lambda k: IMP(self.g, ok(k)), 1))
        out.append(("a coordinate inside the grid is never rejected", IMP(AND(self.g, EQ(self.nc, b.nd)), r)))
        return out
    g = z3.Bool("allvalid")
    def cands(self, ex, ci):
        out = []; c = V(ex, ci.S, self.c)
        for reg, off, sz, v0 in ci.int_cells():
            g = ci.getter(reg, off)
            out.append(Cand("coordinates below %s are in the grid" % ci.S.mem[reg].name, None, forall=lambda ex, st, g=g: (lambda k: IMP(AND(k >= 0, LT(k, g(st)), LT(k, self.b.nd)), c(k) < self.b.P(k)))))
        return out

class BlkBase(Base):
    def blk(self, ex, st):
        nd = self.nd = self.ndim(ex, st); r = ex.new_struct(st, "blk"); self.b = Blk(ex, st, Ptr(r), nd)
        self.note("shape", self.b.S, nd); self.note("block", self.b.B, nd); self.bp = Ptr(r)
    def coord(self, ex, st):
        p = self.vecin(ex, st, "coord", self.nd); c = V(ex, st, p)
        st.ctx.forall(Forall(self.b.valid(c), 1, "coordinate in grid")); self.c = p; return p
    def outvec(self, ex, st, name):
        n = ex.fresh_int(st, name + ".len"); return mkvec(ex, st, name, n)
    def inr(self, k): return AND(k >= 0, LT(k, self.nd))

class BeginShape(BlkBase):
    name = "Blocking::getBlockBeginAndShape"; pattern = r"^z5::util::Blocking::getBlockBeginAndShape\(Shape const&, Shape&, Shape&\)"
    desc = "begin = coordinate * block shape; extent = block shape clipped to the dataset"
    second = "shape"
    def setup(self, ex, st):
        self.blk(ex, st); self.coord(ex, st); self.o1, self.o2 = self.outvec(ex, st, "begin"), self.outvec(ex, st, "out2")
        return [self.bp, self.c, self.o1, self.o2]
    def specs(self, ex, st0):
        b = self.b; c = V(ex, st0, self.c)
        return [("begin", lambda ex, st, k, v: v == c(k) * b.B(k)), ("extent", lambda ex, st, k, v: v == MINZ(b.B(k), b.S(k) - c(k) * b.B(k))),
                ("end", lambda ex, st, k, v: v == MINZ(c(k) * b.B(k) + b.B(k), b.S(k)))]
    def post(self, ex, st, st0, ret):
        k = z3.Int(fresh("k")); sp = dict(self.specs(ex, st0)); two = "extent" if self.second == "shape" else "end"
        return [("length of the results", AND(EQ(N(ex, st, self.o1), self.nd), EQ(N(ex, st, self.o2), self.nd))),
                ("block begin is coordinate times block shape", IMP(self.inr(k), sp["begin"](ex, st, k, V(ex, st, self.o1)(k)))),
                ("block %s is the block clipped to the dataset" % two, IMP(self.inr(k), sp[two](ex, st, k, V(ex, st, self.o2)(k))))]
    def cands(self, ex, ci): return elementwise(ci, self.specs(ex, ci.S))
class BeginEnd(BeginShape):
    name = "Blocking::getBlockBeginAndEnd"; pattern = r"^z5::util::Blocking::getBlockBeginAndEnd\(Shape const&, Shape&, Shape&\)"
    desc = "begin = coordinate * block shape; end = end of the block clipped to the dataset"
    second = "end"
def MINZ(a, b): return z3.If(b < a, b, a)
def MAXZ(a, b): return z3.If(b > a, b, a)

class CoordsInRoi(BlkBase):
    name = "Blocking::getCoordinatesInRoi"; pattern = r"^z5::util::Blocking::getCoordinatesInRoi\("
    desc = "for a chunk that intersects the region: position in request, extent and position in chunk are the exact intersection; result is true iff the region contains the whole (clipped) chunk"
    def setup(self, ex, st):
        self.blk(ex, st); self.coord(ex, st); nd = self.nd; b = self.b
        self.rb, self.rs = self.vecin(ex, st, "roiBegin", nd), self.vecin(ex, st, "roiShape", nd)
        r, s, c = V(ex, st, self.rb), V(ex, st, self.rs), V(ex, st, self.c)
        st.ctx.forall(Forall(lambda k: IMP(self.inr(k), z3.And(s(k) >= 1, r(k) + s(k) <= b.S(k), c(k) * b.B(k) < r(k) + s(k), r(k) < c(k) * b.B(k) + b.B(k))), 1, "request in range and chunk intersects it"))
        self.o = [self.outvec(ex, st, n) for n in ("beginInRoi", "shapeInRoi", "beginInBlock")]
        S0 = st.copy()      # ghost g stands for: the region contains the chunk in every axis
        st.ctx.forall(Forall(lambda k: IMP(AND(self.g, self.inr(k)), self.contains(ex, S0, k)), 1, "ghost containment"))
        return [self.bp, self.c, self.rb, self.rs] + self.o
    def geo(self, ex, st0, k):
        b = self.b; c, r, s = V(ex, st0, self.c), V(ex, st0, self.rb), V(ex, st0, self.rs)
        cb = c(k) * b.B(k); ce = MINZ(cb + b.B(k), b.S(k)); lo = MAXZ(cb, r(k)); hi = MINZ(ce, r(k) + s(k))
        return cb, ce, lo, hi, r(k), s(k)
    def specs(self, ex, st0):
        def mk(w):
            def f(ex, st, k, v):
                cb, ce, lo, hi, r, s = self.geo(ex, st0, k)
                return v == {"position in request": lo - r, "extent": hi - lo, "position in chunk": lo - cb, "chunk begin": cb, "chunk extent": ce - cb}[w]
            return (w, f)
        return [mk(w) for w in ("position in request", "extent", "position in chunk", "chunk begin", "chunk extent")]
    def contains(self, ex, st0, k):
        cb, ce, lo, hi, r, s = self.geo(ex, st0, k)
        return z3.And(r <= cb, ce <= r + s)
    def post(self, ex, st, st0, ret):
        k = z3.Int(fresh("k")); sp = self.specs(ex, st0); r = ex.asbool(ret); out = [("length of the results", AND([EQ(N(ex, st, o), self.nd) for o in self.o]))]
        for (l, f), o in zip(sp, self.o): out.append((l + " is that of the exact intersection", IMP(self.inr(k), f(ex, st, k, V(ex, st, o)(k)))))
        out.append(("complete overlap is reported only if the region contains the chunk", IMP(AND(r, self.inr(k)), self.contains(ex, st0, k))))
        out.append(("a completely covered chunk is reported as such", IMP(self.g, r)))
        return out
    g = z3.Bool("contained")
    def cands(self, ex, ci):
        out = elementwise(ci, self.specs(ex, ci.S)); S = ci.S
        fl = [(ci.S.mem[r].name, ci.getter(r, o)) for r, o, sz, v in ci.flag_cells()]
        for fn, fg in fl:
            out.append(Cand("containment implies %s" % fn, lambda ex, st, fg=fg: IMP(self.g, ex.asbool(fg(st)))))
        for reg, off, sz, v0 in ci.int_cells():
            gt = ci.getter(reg, off)
            for fn, fg in fl:
                out.append(Cand("%s implies containment below %s" % (fn, ci.S.mem[reg].name), None, forall=lambda ex, st, gt=gt, fg=fg: (lambda k: IMP(AND(k >= 0, LT(k, gt(st)), LT(k, self.nd), ex.asbool(fg(st))), self.contains(ex, S, k)))))
        return out
    def exc(self, ex, st, st0, ty): return [("no exception on a valid request", False)]
