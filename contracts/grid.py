"""Contracts on util::Blocking construction, block numbering, and the enumeration of the blocks of a region (C01, C15)."""
from blocking import *

def suffix(ex, st, nd, P, total=U64):
    """ghost: Q(k) = product of P(k), .., P(nd - 1); Q(nd) = 1; every Q(k) is between 1 and Q(0) (lemma_suffix), which fits 64 bits"""
    Q = basefn("SUFPROD", 1, None)
    st.assume(z3.And(Q(ival(nd)) == 1, Q(0) >= 1, Q(0) < total))
    st.ctx.forall(Forall(lambda k: IMP(AND(k >= 0, LT(k, nd)), z3.And(Q(k) == P(k) * Q(simp(ival(k) + 1)), Q(k) >= 1, Q(k) <= Q(0))), 1, "suffix products", trig=[Q.name()]))
    st.ctx.forall(Forall(lambda k: IMP(AND(k >= 0, LT(k, nd)), z3.And(Q(k) == P(k) * Q(simp(ival(k) + 1)), Q(simp(ival(k) + 1)) >= 1, Q(simp(ival(k) + 1)) <= Q(0))), 1, "suffix products"))
    return Q
def lemma_suffix():
    from sharding import prove_all
    I = z3.Int; p, q, t, Q, Z, a, b, u, v, c, w, r, PR = [I(x) for x in "p q t Q Z a b u v c w r PR".split()]
    return prove_all("suffix", [
        ("suffix products grow towards the front (extents >= 1)", [p >= 1, q >= 1], z3.And(p * q >= q, p * q >= 1)),
        ("prefix and suffix products meet: the product of all extents is the same either way", [Q == p * q, PR * Q == Z], (PR * p) * q == Z),
        ("division leaves the remainder", [q >= 1, 0 <= r, r < p * q, c * q + w == r, 0 <= w, w < q, t == c - p, z3.Implies(t >= 0, t * q >= 0)], z3.And(c < p, r - c * q == w)),
        ("the quotient is a coordinate of the axis", [q >= 1, 0 <= r, c * q + w == r, 0 <= w, w < q, z3.Implies(c <= -1, c * q <= -q)], c >= 0),
        ("two coordinates with the same number agree in the leading axis and in the rest", [q >= 1, c * q + u == b * q + v, 0 <= u, u < q, 0 <= v, v < q, t == c - b, t * q == v - u, z3.Implies(t >= 1, t * q >= q), z3.Implies(t <= -1, t * q <= -q)], z3.And(c == b, u == v)),
        ("numbers of the trailing axes stay below their product", [q >= 1, 0 <= c, c < p, 0 <= u, u < q, t == p - 1 - c, t * q >= 0], z3.And(c * q + u < p * q))])

class BlockingInit(Base):
    name = "Blocking::Blocking"; pattern = r"^z5::util::Blocking::Blocking\(Shape const&, Shape const&\)"
    desc = "the number of blocks per axis is the exact ceiling of the quotient, the number of blocks is their product, a block's stride is the product of the blocks of all later axes; throws only for zero dimensions"
    opts = {}
    def setup(self, ex, st):
        nd = self.nd = self.ndim(ex, st, 0); r = ex.new_struct(st, "blk"); self.r = r; self.lay = layout_blocking(ex.mod)
        self.s, self.bs = self.vecin(ex, st, "shape", nd), self.vecin(ex, st, "block", nd); S, B = self.S, self.B = V(ex, st, self.s), V(ex, st, self.bs)
        P = self.P = basefn("PER", 1, None, trig=False); self.inr = lambda k: AND(k >= 0, LT(k, nd))
        st.ctx.forall(Forall(lambda k: IMP(self.inr(k), z3.And(S(k) >= 1, B(k) >= 1, S(k) + B(k) < U64, CEIL(P(k), S(k), B(k)))), 1, "extents are positive; ghost: exact ceiling"))
        self.Q = suffix(ex, st, nd, P)
        return [Ptr(r), self.s, self.bs]
    def at(self, w): return Ptr(self.r, self.lay[w])
    def post(self, ex, st, st0, ret):
        k = z3.Int(fresh("k")); st.ctx.term(k); st.ctx.term(simp(ival(k) + 1)); inr = self.inr(k); out = [("only non-empty shapes are accepted", GT(self.nd, 0))]
        for w, f in (("shape", self.S), ("block", self.B)): out += [("the %s is kept" % w, AND(EQ(N(ex, st, self.at(w)), self.nd), IMP(inr, EQ(V(ex, st, self.at(w))(k), f(k)))))]
        b = vbuf(ex, st, self.at("per")); PR = prodfn(ex, st, b); n = ival(self.nd)
        out += [("one block count and stride per axis", EQ(N(ex, st, self.at("per")), self.nd)), ("the block count of an axis is the exact ceiling", IMP(inr, V(ex, st, self.at("per"))(k) == self.P(k)))]
        if "strides" in self.lay: out += [("one stride per axis", EQ(N(ex, st, self.at("strides")), self.nd)), ("the stride of an axis is the product of the later block counts", IMP(inr, V(ex, st, self.at("strides"))(k) == self.Q(simp(ival(k) + 1))))]
        c = st.mem[self.r].cells[self.lay["num"]][1]
        P2, Q = self.P, self.Q; per = V(ex, st, self.at("per")); st.ctx.forall(Forall(lambda k: IMP(self.inr(k), per(k) == P2(k)), 1, "block counts (just proved)"))
        g = induct(ex, st, lambda i: IMP(AND(i >= 0, LE(i, n)), PR(i) * Q(i) == Q(0)), n, "prefix and suffix products meet")
        out += [("the number of blocks is the product of the block counts", IMP(g, EQ(c, PR(n))))]
        return out + [("the number of blocks is the first suffix product", IMP(g, EQ(c, Q(0))))]
    def exc(self, ex, st, st0, ty): return [("only a shape without dimensions is rejected", EQ(self.nd, 0))]
    def cands(self, ex, ci):
        out = elementwise(ci, [("ceiling", lambda ex, st, k, v: IMP(LT(k, self.nd), v == self.P(k)))])
        for reg, off, sz, v0 in ci.int_cells():
            g = ci.getter(reg, off); nm = ci.S.mem[reg].name
            for an, af, r in arrays_modified(ci):
                def fb(ex, st, g=g, af=af, sz=sz):
                    c = sgn(g(st), 8 * sz); f = af(st); return lambda k: IMP(AND(k > c, k >= 0, LT(k, self.nd)), f(k) == self.Q(simp(ival(k) + 1)))
                out.append(Cand("%s: strides above %s" % (an, nm), None, forall=fb))
        return out

def numbering(ex, st, b):
    """representation invariant: stride of an axis = product of the later block counts; number of blocks = product of all"""
    if b.T is None: raise Refuse("no block strides")
    Q = suffix(ex, st, b.nd, b.P); T = b.T
    st.ctx.forall(Forall(lambda k: IMP(AND(k >= 0, LT(k, b.nd)), z3.And(b.P(k) >= 1, T(k) == Q(simp(ival(k) + 1)))), 1, "strides are suffix products")); st.assume(b.numt == Q(0))
    return Q
class IdToCoord(BlkBase):
    name = "Blocking::blockIdToBlockCoordinate"; pattern = r"^z5::util::Blocking::blockIdToBlockCoordinate\("
    desc = "the coordinate lies in the grid and is the mixed-radix representation of the block's number: the numbers below the number of blocks and the coordinates of the grid correspond one to one"
    opts = {"linear": True}
    def setup(self, ex, st):
        self.blk(ex, st); Q = self.Q = numbering(ex, st, self.b); id_ = self.id = self.intin(ex, st, "id"); st.assume(id_ < self.b.numt)
        R = self.R = basefn("REST", 1, None); C = self.C = basefn("DIGIT", 1, None, trig=False); st.assume(R(0) == id_)
        ax = lambda k: IMP(AND(k >= 0, LT(k, self.nd)), z3.And(R(k) == C(k) * Q(simp(ival(k) + 1)) + R(simp(ival(k) + 1)), R(simp(ival(k) + 1)) >= 0, R(simp(ival(k) + 1)) < Q(simp(ival(k) + 1)), C(k) >= 0, C(k) < self.b.P(k), R(k) >= 0, R(k) < U64, udiv(R(k), Q(simp(ival(k) + 1))) == C(k)))
        st.ctx.forall(Forall(ax, 1, "mixed-radix digits of the number (lemma_suffix)"))
        self.o = self.outvec(ex, st, "coord"); return [self.bp, self.id, self.o]
    def post(self, ex, st, st0, ret):
        k = z3.Int(fresh("k")); v = V(ex, st, self.o)(k)
        return [("length of the coordinate", EQ(N(ex, st, self.o), self.nd)), ("the coordinate holds the digits of the number", IMP(self.inr(k), v == self.C(k))), ("the coordinate lies in the grid", IMP(self.inr(k), AND(v >= 0, v < self.b.P(k))))]
    def cands(self, ex, ci):
        out = elementwise(ci, [("digit of the number", lambda ex, st, k, v: IMP(LT(k, self.nd), v == self.C(k)))])
        ic = [(ci.S.mem[r].name, ci.getter(r, o)) for r, o, sz, v in ci.int_cells()]
        for n1, g1 in ic:
            for n2, g2 in ic:
                if n1 != n2: out.append(Cand("%s = rest after the first %s axes" % (n1, n2), lambda ex, st, g1=g1, g2=g2: EQ(g1(st), self.R(ival(g2(st))))))
        return out
    def exc(self, ex, st, st0, ty): return [("no exception", False)]
class CoordToId(BlkBase):
    name = "Blocking::blockCoordinatesToBlockId"; pattern = r"^z5::util::Blocking::blockCoordinatesToBlockId\("
    desc = "the number of a block is the mixed-radix value of its coordinate and is below the number of blocks"
    opts = {"linear": True}
    def setup(self, ex, st):
        self.blk(ex, st); self.coord(ex, st); Q = self.Q = numbering(ex, st, self.b); c = V(ex, st, self.c)
        W = self.W = basefn("VALUE", 1, None); U = basefn("REST", 1, None); self.U = U; st.assume(z3.And(W(0) == 0, U(ival(self.nd)) == 0, W(ival(self.nd)) == U(0), U(0) < Q(0), U(0) >= 0))
        st.ctx.forall(Forall(lambda k: IMP(AND(k >= 0, LT(k, self.nd)), z3.And(W(simp(ival(k) + 1)) == W(k) + c(k) * Q(simp(ival(k) + 1)), U(k) == c(k) * Q(simp(ival(k) + 1)) + U(simp(ival(k) + 1)), U(k) >= 0, U(k) < Q(k), U(simp(ival(k) + 1)) >= 0, c(k) * Q(simp(ival(k) + 1)) >= 0, W(k) >= 0, W(simp(ival(k) + 1)) + U(simp(ival(k) + 1)) == U(0))), 1, "partial values of the coordinate (lemma_suffix)"))
        return [self.bp, self.c]
    def post(self, ex, st, st0, ret):
        return [("the number is the mixed-radix value of the coordinate", EQ(ret, self.U(0))), ("the number is below the number of blocks", LT(ret, self.b.numt))]
    def cands(self, ex, ci):
        out = []; ic = [(ci.S.mem[r].name, ci.getter(r, o)) for r, o, sz, v in ci.int_cells()]
        for n1, g1 in ic:
            for n2, g2 in ic:
                if n1 != n2: out.append(Cand("%s = value over the first %s axes" % (n1, n2), lambda ex, st, g1=g1, g2=g2: EQ(g1(st), self.W(ival(g2(st))))))
        return out
    def exc(self, ex, st, st0, ty): return [("no exception", False)]
class CoordToBlock(BlkBase):
    name = "Blocking::coordinateToBlockCoordinate"; pattern = r"^z5::util::Blocking::coordinateToBlockCoordinate\("; desc = "the block of an element: block begin <= coordinate < block begin + block extent in every axis"
    def setup(self, ex, st):
        self.blk(ex, st); self.x = self.vecin(ex, st, "position", self.nd); x = self.X = V(ex, st, self.x); b = self.b
        st.ctx.forall(Forall(lambda k: IMP(self.inr(k), x(k) < b.S(k)), 1, "the position lies in the dataset")); self.o = self.outvec(ex, st, "coord"); return [self.bp, self.x, self.o]
    def sp(self, k, v): b = self.b; return z3.And(v * b.B(k) <= self.X(k), self.X(k) < v * b.B(k) + b.B(k))
    def post(self, ex, st, st0, ret):
        k = z3.Int(fresh("k")); v = V(ex, st, self.o)(k)
        return [("length", EQ(N(ex, st, self.o), self.nd)), ("the element lies in the block", IMP(self.inr(k), self.sp(k, v)))]
    def cands(self, ex, ci): return elementwise(ci, [("block of the position", lambda ex, st, k, v: IMP(LT(k, self.nd), self.sp(k, v)))])
    def exc(self, ex, st, st0, ty): return [("no exception", False)]

# ---------------------------------------------------------------- enumeration of a box of coordinates
class RegularGrid(Base):
    name = "util::makeRegularGrid"; pattern = r"^z5::util::makeRegularGrid\("
    desc = "appends every coordinate of the box [min, max] exactly once, in C order: entry r holds min plus the digits of r"
    opts = {"linear": True}; ROW = ("vec", EK(64))
    def setup(self, ex, st):
        nd = self.nd = self.ndim(ex, st); self.mn, self.mx = self.vecin(ex, st, "min", nd), self.vecin(ex, st, "max", nd); mn, mx = V(ex, st, self.mn), V(ex, st, self.mx); self.m = mn; self.mmx = mx
        st.ctx.forall(Forall(lambda k: IMP(AND(k >= 0, LT(k, nd)), z3.And(mn(k) <= mx(k), mx(k) + 1 < U64)), 1, "min <= max"))
        self.n0 = ex.fresh_int(st, "before"); st.assume(self.n0 < (1 << 40)); g = ex.new_struct(st, "grid"); self.g = Ptr(g); vnew(ex, st, self.g, self.ROW, 0 if self.kw.get("empty", True) else self.n0, zero_fields(self.ROW), "grid"); self.n0 = 0
        D = self.D = basefn("DGT", 2, None); BP = self.BP = basefn("CARRY", 1, None, trig=False); self.nR = ex.fresh_int(st, "boxes"); st.assume(z3.And(self.nR >= 1, self.nR < (1 << 58)))
        S = lambda e: mx(e) - mn(e) + 1; self.S = S; T2 = [D.name()]
        st.ctx.forall(Forall(lambda r, e: IMP(AND(e >= 0, LT(e, nd), r == 0), D(r, e) == 0), 2, "the first entry is the minimum", trig=T2))
        st.ctx.forall(Forall(lambda r, e: IMP(AND(r >= 0, e >= 0, LT(e, nd)), z3.And(D(r, e) >= 0, D(r, e) < S(e), BP(r) >= -1, BP(r) < nd,
            z3.Implies(e > BP(r), z3.And(D(r, e) + 1 == S(e), D(simp(ival(r) + 1), e) == 0)), z3.Implies(e == BP(r), z3.And(D(r, e) + 1 < S(e), D(simp(ival(r) + 1), e) == D(r, e) + 1)),
            z3.Implies(e < BP(r), D(simp(ival(r) + 1), e) == D(r, e)))), 2, "odometer step (lemma_odometer)", trig=T2))
        st.ctx.forall(Forall(lambda r: IMP(AND(r >= 0, LT(r, self.nR)), z3.And(BP(r) >= -1, BP(r) < nd, (BP(r) == -1) == (r == self.nR - 1))), 1, "the odometer wraps around after the last entry only", trig=[BP.name()]))
        return [self.mn, self.mx, self.g]
    def rows(self, ex, st):
        b = vbuf(ex, st, self.g); return st.mem[b.reg].f[("n", 0)], st.mem[b.reg].f[("d", 0)]
    def post(self, ex, st, st0, ret):
        r, e = z3.Int(fresh("r")), z3.Int(fresh("e")); n, d = self.rows(ex, st); inr = AND(r >= 0, LT(r, self.nR)); ine = AND(e >= 0, LT(e, self.nd))
        st.ctx.term(r); st.ctx.term(e)
        return [("one entry per coordinate of the box", EQ(N(ex, st, self.g), self.nR)), ("every entry has one value per axis", IMP(inr, EQ(n(r), self.nd))), ("entry r is min plus the digits of r", IMP(AND(inr, ine), EQ(d(r, e), self.m(e) + self.D(r, e)))),
                ("every entry lies in the box", IMP(AND(inr, ine), AND(d(r, e) >= self.m(e), d(r, e) <= self.mmx(e), self.D(r, e) >= 0)))]
    def cands(self, ex, ci):
        out = []; S0 = ci.S
        def upto(ex, st):
            n, d = self.rows(ex, st); L = N(ex, st, self.g); return lambda r, e: IMP(AND(r >= 0, LT(r, L), e >= 0, LT(e, self.nd)), z3.And(ival(n(r)) == self.nd, ival(d(r, e)) == self.m(e) + self.D(r, e)))
        out.append(Cand("the entries so far are the first coordinates of the box", None, forall=upto, arity=2, trig=[self.D.name()]))
        def lens(ex, st):
            n, d = self.rows(ex, st); L = N(ex, st, self.g); return lambda r: IMP(AND(r >= 0, LT(r, L)), ival(n(r)) == self.nd)
        out.append(Cand("every entry so far has one value per axis", None, forall=lens))
        out.append(Cand("entries <= boxes", lambda ex, st: AND(LE(N(ex, st, self.g), self.nR), GE(N(ex, st, self.g), 0)))); out.append(Cand("entries >= 1", lambda ex, st: GE(N(ex, st, self.g), 1)))
        out.append(Cand("entries < boxes", lambda ex, st: LT(N(ex, st, self.g), self.nR)))
        for reg, off, sz, v0 in ci.int_cells():
            g = ci.getter(reg, off); nm = S0.mem[reg].name
            out.append(Cand("the enumeration continues while %s >= 0" % nm, lambda ex, st, g=g, sz=sz: z3.And(z3.Implies(sgn(g(st), 8 * sz) >= 0, ival(N(ex, st, self.g)) < self.nR), z3.Implies(sgn(g(st), 8 * sz) < 0, ival(N(ex, st, self.g)) == self.nR), sgn(g(st), 8 * sz) >= -1)))
            out.append(Cand("signed %s >= carry position" % nm, lambda ex, st, g=g, sz=sz: z3.And(sgn(g(st), 8 * sz) >= self.BP(simp(ival(N(ex, st, self.g)) - 1)), sgn(g(st), 8 * sz) < self.nd)))
        for r, off, nm in ci.vec_cells(64):
            p = Ptr(r, off); b = vbuf(ex, S0, p)
            if b.reg not in {k[1] for k in ci.M if k[0] == "a"}: continue
            out.append(Cand("%s = the next coordinate" % nm, None, forall=lambda ex, st, p=p: (lambda f, L: (lambda e: IMP(AND(e >= 0, LT(e, self.nd)), ival(f(e)) == self.m(e) + self.D(L, e))))(V(ex, st, p), ival(N(ex, st, self.g)))))
            for reg, o2, sz, v0 in ci.int_cells():
                g = ci.getter(reg, o2)
                def fa(ex, st, p=p, g=g, sz=sz):
                    f, c, L = V(ex, st, p), sgn(g(st), 8 * sz), simp(ival(N(ex, st, self.g)) - 1)
                    return lambda e: IMP(AND(e >= 0, LT(e, self.nd)), z3.If(e > c, z3.And(ival(f(e)) == self.m(e), self.D(L, e) + 1 == self.S(e)), ival(f(e)) == self.m(e) + self.D(L, e)))
                out.append(Cand("%s: wrapped above %s, last coordinate otherwise" % (nm, S0.mem[reg].name), None, forall=fa))
        return out
    def exc(self, ex, st, st0, ty): return [("no exception", False)]
    def apply(self, ex, st, ins, args):
        mn, mx = V(ex, st, args[0]), V(ex, st, args[1]); n = N(ex, st, args[0]); k = z3.Int(fresh("k"))
        ex.oblige(st, "dimensions match", EQ(n, N(ex, st, args[1]))); ex.oblige(st, "the box is not empty", IMP(AND(k >= 0, LT(k, n)), z3.And(mn(k) <= mx(k), mx(k) + 1 < U64)))
        st.ghost["box"] = (mn, mx, n); nR = ex.fresh_int(st, "boxes"); st.assume(nR < (1 << 58))
        D = basefn("DGT", 2, None); vnew(ex, st, args[2], self.ROW, nR, {("n", 0): FArr(lambda r: n), ("d", 0): FArr(lambda r, e: simp(ival(mn(e)) + D(ival(r), ival(e))))})
        return None
class Overlap(BlkBase):
    name = "Blocking::getBlocksOverlappingRoi"; pattern = r"^z5::util::Blocking::getBlocksOverlappingRoi\("
    desc = "enumerates the box from the block of the first element of the region to the block of its last element, i.e. exactly the blocks that intersect it"
    callees = [RegularGrid]
    def setup(self, ex, st):
        self.blk(ex, st); b = self.b; self.rb, self.rs = self.vecin(ex, st, "roiBegin", self.nd), self.vecin(ex, st, "roiShape", self.nd); r, s = self.r, self.s = V(ex, st, self.rb), V(ex, st, self.rs)
        st.ctx.forall(Forall(lambda k: IMP(self.inr(k), z3.And(s(k) >= 1, r(k) + s(k) <= b.S(k))), 1, "request in range"))
        g = ex.new_struct(st, "list"); self.g = Ptr(g); vnew(ex, st, self.g, ("vec", EK(64)), 0, zero_fields(("vec", EK(64))), "list"); return [self.bp, self.rb, self.rs, self.g]
    def first(self, k, v): b = self.b; return z3.And(v * b.B(k) <= self.r(k), self.r(k) < v * b.B(k) + b.B(k))
    def last(self, k, v): b = self.b; e = self.r(k) + self.s(k) - 1; return z3.And(v * b.B(k) <= e, e < v * b.B(k) + b.B(k), v < b.P(k))
    def post(self, ex, st, st0, ret):
        k = z3.Int(fresh("k")); bx = st.ghost.get("box")
        if bx is None: return [("the box of blocks is enumerated", False)]
        mn, mx, n = bx
        return [("dimensions", EQ(n, self.nd)), ("the first block holds the first element of the region", IMP(self.inr(k), self.first(k, ival(mn(k))))), ("the last block holds the last element of the region", IMP(self.inr(k), self.last(k, ival(mx(k)))))]
    def cands(self, ex, ci): return elementwise(ci, [("block of the first element", lambda ex, st, k, v: IMP(LT(k, self.nd), self.first(k, ival(v)))), ("block of the last element", lambda ex, st, k, v: IMP(LT(k, self.nd), z3.And(self.last(k, ival(v)), v < U64 - 1)))])
    def exc(self, ex, st, st0, ty): return [("no exception", False)]

# ---------------------------------------------------------------- the contracts at calls
def DIG(ex, reg):
    """ghost: digit k of a block's number in the numbering of the blocking object"""
    d = ex.__dict__.setdefault("digf", {})
    if reg not in d: d[reg] = basefn("DIGIT%s" % len(d), 2, None)
    return d[reg]
def binv(ex, st, p):
    lay = layout_blocking(ex.mod); at = lambda w: Ptr(p.reg, p.idx + lay[w])
    return N(ex, st, at("shape")), V(ex, st, at("shape")), V(ex, st, at("block")), V(ex, st, at("per")), st.mem[p.reg].cells[p.idx + lay["num"]][1]
def id_apply(self, ex, st, ins, args):
    b, id_, o = args; nd, S, B, P, num = binv(ex, st, b); ex.oblige(st, "the block number is below the number of blocks", LT(id_, num)); D = DIG(ex, (b.reg, b.idx))
    st.ctx.forall(Forall(lambda i, k: IMP(AND(i >= 0, LT(i, num), k >= 0, LT(k, nd)), AND(D(i, k) >= 0, LT(D(i, k), P(k)))), 2, "coordinate in the grid", trig=[D.name()]))
    vset(ex, st, vbuf(ex, st, o, EK(64)) if o.idx in st.mem[o.reg].cells else vnew(ex, st, o, EK(64), 0, {0: FArr.const(0)}), nd, {0: FArr(lambda k: D(ival(id_), ival(k)))}); return None
IdToCoord.apply = id_apply
def bs_apply(self, ex, st, ins, args):
    b, c, o1, o2 = args; nd, S, B, P, num = binv(ex, st, b); C = V(ex, st, c); k = z3.Int(fresh("k")); st.ctx.term(k)
    ex.oblige(st, "the coordinate has one value per axis", EQ(N(ex, st, c), nd)); ex.oblige(st, "the coordinate lies in the grid", IMP(AND(k >= 0, LT(k, nd)), LT(C(k), P(k))))
    two = (lambda k: MINZ(B(k), S(k) - C(k) * B(k))) if self.second == "shape" else (lambda k: MINZ(C(k) * B(k) + B(k), S(k)))
    for o, f in ((o1, lambda k: C(k) * B(k)), (o2, two)): vset(ex, st, vbuf(ex, st, o, EK(64)), nd, {0: FArr(f)})
    return None
BeginShape.apply = bs_apply; BeginEnd.apply = bs_apply
def ovl_apply(self, ex, st, ins, args):
    b, rb, rs, o = args; nd, S, B, P, num = binv(ex, st, b); r, s = V(ex, st, rb), V(ex, st, rs); k = z3.Int(fresh("k")); st.ctx.term(k)
    ex.oblige(st, "dimensions match", AND(EQ(N(ex, st, rb), nd), EQ(N(ex, st, rs), nd))); ex.oblige(st, "the region lies in the grid", IMP(AND(k >= 0, LT(k, nd)), AND(s(k) >= 1, ival(r(k)) + ival(s(k)) <= S(k))))
    mn, mx = basefn("FIRST", 1, 64), basefn("LAST", 1, 64); D = basefn("DGT", 2, None); nR = ex.fresh_int(st, "boxes"); st.assume(z3.And(nR >= 1, nR < (1 << 58)))
    st.ctx.forall(Forall(lambda k: IMP(AND(k >= 0, LT(k, nd)), z3.And(mn(k) <= mx(k), mx(k) < P(k), mn(k) * B(k) <= r(k), r(k) < mn(k) * B(k) + B(k), mx(k) * B(k) <= r(k) + s(k) - 1, r(k) + s(k) - 1 < mx(k) * B(k) + B(k))), 1, "first and last block of the region"))
    st.ctx.forall(Forall(lambda q, e: IMP(AND(q >= 0, LT(q, nR), e >= 0, LT(e, nd)), z3.And(D(q, e) >= mn(e), D(q, e) <= mx(e), D(q, e) < P(e))), 2, "entries lie in the box", trig=[D.name()]))
    st.ghost["overlap"] = st.ghost.get("overlap", ()) + ((b, r, s, D, nR),)
    vnew(ex, st, o, ("vec", EK(64)), nR, {("n", 0): FArr(lambda q: nd), ("d", 0): FArr(lambda q, e: D(ival(q), ival(e)))}); return None
Overlap.apply = ovl_apply
def init_apply(self, ex, st, ins, args):
    p, s, b = args; n = N(ex, st, s); S, B = V(ex, st, s), V(ex, st, b); k = z3.Int(fresh("k")); st.ctx.term(k); lay = layout_blocking(ex.mod); out = Outcomes()
    ex.oblige(st, "dimensions match", EQ(n, N(ex, st, b))); ex.oblige(st, "extents are positive", IMP(AND(k >= 0, LT(k, n)), AND(S(k) >= 1, B(k) >= 1, ival(S(k)) + ival(B(k)) < U64)))
    if ex.feasible(st, EQ(n, 0)): th = st.copy(); th.assume(EQ(n, 0)); out.append(("throw", th, "_ZTISt16invalid_argument")); st.assume(NOT(EQ(n, 0)))
    P = basefn("PER", 1, 64); num = ex.fresh_int(st, "nblocks"); st.ctx.forall(Forall(lambda k: IMP(AND(k >= 0, LT(k, n)), z3.And(P(k) >= 1, CEIL(P(k), S(k), B(k)))), 1, "block counts", trig=[P.name()]))
    T = FArr.sym("STRIDE", 1, 64)
    for w, f in (("shape", FArr(S)), ("block", FArr(B)), ("per", FArr(P)), ("strides", T)):
        if w in lay: vnew(ex, st, Ptr(p.reg, p.idx + lay[w]), EK(64), n, {0: f}, "blocking." + w)
    st.w(p.reg).cells[p.idx + lay["num"]] = (8, num); ex.wrote(st, ("c", p.reg, p.idx + lay["num"], 8)); st.assume(z3.And(num >= 1))
    st.ghost["blocknum"] = num; st.ghost["blockings"] = st.ghost.get("blockings", ()) + ((p, S, B),); out.append(("ret", st, None)); return out
BlockingInit.apply = init_apply
