"""Contracts on multiarray: strided copy and fill, sub-views, strides (C02)."""
from common import *

def layout_view(mod, ty="short"):
    key = ("v", id(mod), ty)
    if key in _l: return _l[key]
    out = {}
    for nm, pt in (("ArrayView", ty + "*"), ("ConstArrayView", ty + " const*")):
        box = {}
        def setup(ex, st):
            box["r"] = ex.new_struct(st, "view"); box["d"] = ex.new_arr(st, "d", EK(16), 4)
            return [Ptr(box["r"]), Ptr(box["d"]), cvec(ex, st, "s", [2, 2]), cvec(ex, st, "t", [7, 5])]
        ex, outs = run_concrete(mod, r"^z5::multiarray::%s<%s>::%s\(%s, Shape, Shape\)" % (nm, ty, nm, re.escape(pt)), setup)
        if len(outs) != 1 or outs[0].status != "ret": raise Refuse("constructor of " + nm)
        lay = {}
        for off, (sz, v) in outs[0].mem[box["r"]].cells.items():
            if isinstance(v, Ptr) and v.reg == box["d"]: lay["data"] = off
            elif isinstance(v, VecVal): lay[{(2, 2): "shape", (7, 5): "strides"}[tuple(conc_list(ex, outs[0], v))]] = off
        out[nm] = lay
    _l[key] = out
    return out
_l = {}

def symtrig(get):
    """trigger on the reads of an array whose content is unknown at the loop head"""
    def f(ex, H):
        t = get(H).tag
        return [t.name()] if t is not None and not isinstance(t, tuple) else None
    return f

class View:
    """a view object over its own memory; ghost position of element (run, k): POS(run, all outer axes) + k * last stride"""
    def __init__(self, ex, st, kind, name, dim, shape=None, bits=16, ty="short"):
        lay = layout_view(ex.mod, ty)[kind]; self.reg = ex.new_struct(st, name); self.name = name; self.dim = dim
        self.N = ex.fresh_int(st, name + ".mem"); st.assume(self.N < (1 << 60)); self.base = ex.fresh_int(st, name + ".base")
        self.arr = ex.new_arr(st, name + ".data", EK(bits), self.N); self.p = Ptr(self.reg)
        st.w(self.reg).cells[lay["data"]] = (8, Ptr(self.arr, self.base))
        setvec(ex, st, self.reg, lay["shape"], name + ".shape", dim); setvec(ex, st, self.reg, lay["strides"], name + ".strides", dim)
        self.shp, self.str_ = Ptr(self.reg, lay["shape"]), Ptr(self.reg, lay["strides"])
        self.S, self.T = V(ex, st, self.shp), V(ex, st, self.str_)
        if shape is not None:
            b = vbuf(ex, st, self.shp); st.w(b.reg).f[0] = shape; self.S = shape
    def data(self, st): return st.mem[self.arr].f[0]

class ViewOp(Base):
    timeout = 460
    opts = {"cutterms": True, "linear": True}
    bits = 16
    lemmas_doc = "odometer digits and prefix sums of positions are ghost sequences; the odometer enumerates every index vector once (lemma_odometer)"
    def ghosts(self, ex, st, views):
        dim = self.dim; P = self.P = simp(ival(dim) - 1); S = self.S; last = self.last = S(P) if isz(P) else S(dim - 1)
        DG = self.DG = basefn("DG", 2, None); BP = basefn("BP", 1, None, trig=False); self.BP = BP
        PR = self.PR = basefn("RUNS", 1, None, trig=False)
        st.assume(PR(0) == 1)
        st.ctx.forall(Forall(lambda k: IMP(AND(k >= 0, LT(k, P)), z3.And(PR(simp(ival(k) + 1)) == PR(k) * S(k), S(k) >= 1, PR(k) >= 1, PR(simp(ival(k) + 1)) <= PR(P))), 1, "lemma: prefix products grow (extents >= 1)", trig=[PR.name()]))
        self.nR = PR(P); st.assume(z3.And(self.nR >= 1, self.nR < (1 << 60), last >= self.minlast))
        T2 = [DG.name()]
        st.ctx.forall(Forall(lambda r, e: IMP(AND(e >= 0, LT(e, P), r == 0), DG(r, e) == 0), 2, "odometer starts at zero", trig=T2))
        def nxt(r, e):
            return IMP(AND(r >= 0, e >= 0, LT(e, P)), z3.And(DG(r, e) >= 0, DG(r, e) < S(e), BP(r) >= -1, BP(r) < P,
                z3.Implies(e > BP(r), z3.And(DG(r, e) + 1 == S(e), DG(simp(ival(r) + 1), e) == 0)),
                z3.Implies(e == BP(r), z3.And(DG(r, e) + 1 < S(e), DG(simp(ival(r) + 1), e) == DG(r, e) + 1)),
                z3.Implies(e < BP(r), DG(simp(ival(r) + 1), e) == DG(r, e))))
        st.ctx.forall(Forall(nxt, 2, "odometer step", trig=T2))
        st.ctx.forall(Forall(lambda r: IMP(r >= 0, z3.And(BP(r) >= -1, BP(r) < P)), 1, "odometer position", trig=[BP.name()]))
        for v in views:
            v.POS = POS = basefn("POS_" + v.name, 2, None); v.AD = AD = basefn("ADDR_" + v.name, 2, None, trig=False); T = v.T
            st.assume(v.base <= v.N)
            st.ctx.forall(Forall(lambda r, e, POS=POS, T=T: IMP(AND(r >= 0, e >= 0, LE(e, P)), z3.And(z3.Implies(z3.Or(e == 0, r == 0), POS(r, e) == 0), POS(r, e) >= 0, POS(r, e) <= POS(r, P))), 2, "lemma: positions grow", trig=[POS.name()]))
            st.ctx.forall(Forall(lambda r, e, POS=POS, T=T: IMP(AND(r >= 0, e >= 0, LT(e, P)), z3.And(POS(r, simp(ival(e) + 1)) == POS(r, e) + DG(r, e) * T(e), DG(r, e) * T(e) >= 0, POS(r, e) + DG(r, e) * T(e) <= POS(r, P))), 2, "prefix sums of positions", trig=[POS.name()]))
            tl = T(P) if isz(P) else T(dim - 1); v.tl = tl
            st.ctx.forall(Forall(lambda r, k, v=v: IMP(AND(r >= 0, LT(r, self.nR), k >= 0, LT(k, last)), z3.And(v.AD(r, k) == v.POS(r, P) + k * v.tl, k * v.tl >= 0, v.POS(r, P) >= 0, v.AD(r, k) >= 0, v.base + v.AD(r, k) < v.N)), 2, "every element lies in the memory of the view", trig=[v.AD.name()]))
            # memory of a whole run (used for contiguous runs): last element of the run
            st.ctx.forall(Forall(lambda r, e, v=v: IMP(AND(r >= 0, LT(r, self.nR), LE(0, e), LE(e, P)), z3.Implies(last >= 1, z3.And(v.POS(r, P) + (last - 1) * v.tl >= 0, (last - 1) * v.tl >= 0, v.base + v.POS(r, P) + (last - 1) * v.tl < v.N))), 2, "the last element of a run lies in the memory of the view", trig=[v.POS.name()]))
    minlast = 1
    def inject(self, ex, st, d):
        IN, RN, KO = [basefn(x, 1, None, trig=False) for x in ("INVIEW", "RUNOF", "KOF")]; self.IN, self.RN, self.KO = IN, RN, KO; self.d = d
        st.ctx.forall(Forall(lambda r, k: IMP(AND(r >= 0, LT(r, self.nR), k >= 0, LT(k, self.last)), z3.And(IN(d.base + d.AD(r, k)) == 1, RN(d.base + d.AD(r, k)) == r, KO(d.base + d.AD(r, k)) == k)), 2, "distinct elements of the destination have distinct positions", trig=[d.AD.name()]))
        st.ctx.forall(Forall(lambda x: IMP(IN(x) == 1, z3.And(RN(x) >= 0, RN(x) < self.nR, KO(x) >= 0, KO(x) < self.last, x == d.base + d.AD(RN(x), KO(x)))), 1, "positions of the view", trig=[IN.name()]))
        self.D0 = d.data(st)
    def want(self, x): raise NotImplementedError
    def content(self, x, run, k=None):
        done = self.RN(x) < run if k is None else z3.Or(self.RN(x) < run, z3.And(self.RN(x) == run, self.KO(x) < k))
        return z3.If(z3.And(self.IN(x) == 1, done), ival(self.want(x)), ival(self.D0(x)))
    def post(self, ex, st, st0, ret):
        x = z3.Int(fresh("x")); d = self.d
        return [("every element of the view is assigned, nothing else is written", IMP(AND(x >= 0, x < d.N), d.data(st)(x) == z3.If(self.IN(x) == 1, ival(self.want(x)), ival(self.D0(x)))))] + self.frame(ex, st, st0)
    def frame(self, ex, st, st0):
        out = []
        for v in self.views:
            k = z3.Int(fresh("k"))
            out.append(("the %s view object is not modified" % v.name, AND(IMP(AND(k >= 0, LT(k, self.dim)), AND(EQ(V(ex, st, v.shp)(k), v.S(k)), EQ(V(ex, st, v.str_)(k), v.T(k)))))))
            if v is not self.d:
                x = z3.Int(fresh("x")); out.append(("the source elements are not modified", EQ(v.data(st)(x), v.data(st0)(x))))
        return out
    def cands(self, ex, ci):
        out = []; S = ci.S; mod = [(S.mem[r].name, ci.getter(r, o)) for r, o, sz, v in ci.int_cells(8)]; modset = {(r, o) for r, o, sz, v in ci.int_cells(8)}
        fix = []
        for fr in S.frames[-1:]:
            for r in fr.allocas.values():
                c = S.mem[r].cells.get(0) if S.mem[r].kind == "s" else None
                if c and c[0] == 8 and isz(c[1]) and z3.is_const(c[1]) and c[1].decl().name().startswith('h_') and z3.is_int(c[1]) and (r, 0) not in modset: fix.append((S.mem[r].name, (lambda v: lambda st: v)(c[1])))
        runs = {f.label for f in S.ctx.foralls}; fix = [(n, g) for n, g in fix if "contents after run %s" % n in runs or any(l.endswith("holds the digits of run %s" % n) for l in runs)]
        d = self.d; P = self.P
        for n1, g1 in mod: out.append(Cand("%s <= number of outer axes" % n1, lambda ex, st, g1=g1: LE(ival(g1(st)), P)))
        for n1, g1 in mod:
            for n2, g2 in mod:
                if n1 == n2: continue
                out.append(Cand("%s = number of runs over the first %s axes" % (n1, n2), lambda ex, st, g1=g1, g2=g2: EQ(g1(st), self.PR(ival(g2(st))))))
                for n3, g3 in fix:
                    for v in self.views:
                        out.append(Cand("%s = position in %s of run %s over the first %s axes" % (n1, v.name, n3, n2), lambda ex, st, g1=g1, g2=g2, g3=g3, v=v: EQ(g1(st), v.POS(ival(g3(st)), ival(g2(st))))))
        idx = [(nm, Ptr(r, off)) for r, off, nm in ci.vec_cells(64)]
        arrs = {k[1] for k in ci.M if k[0] == "a"}
        for nm, p in idx:
            b = vbuf(ex, S, p)
            if b.reg not in arrs: continue
            for n1, g1 in mod:
                out.append(Cand("%s holds the digits of run %s" % (nm, n1), None, trig=symtrig(lambda H, p=p: V(ex, H, p)), forall=lambda ex, st, p=p, g1=g1: (lambda f, r: (lambda e: IMP(AND(e >= 0, LT(e, P)), f(e) == self.DG(ival(r), e))))(V(ex, st, p), g1(st))))
                for n3, g3 in fix:
                    def fa(ex, st, p=p, g1=g1, g3=g3):
                        f, c, r = V(ex, st, p), sgn(g1(st), 64), ival(g3(st))
                        return lambda e: IMP(AND(e >= 0, LT(e, P)), z3.If(e > c, z3.And(f(e) == 0, self.DG(r, e) + 1 == self.S(e)), f(e) == self.DG(r, e)))
                    out.append(Cand("%s: digits above %s wrapped, others those of run %s" % (nm, n1, n3), None, trig=symtrig(lambda H, p=p: V(ex, H, p)), forall=fa))
        for n1, g1 in mod:
            for n3, g3 in fix:
                out.append(Cand("signed %s >= odometer position of run %s" % (n1, n3), lambda ex, st, g1=g1, g3=g3: sgn(g1(st), 64) >= self.BP(ival(g3(st)))))
        if d.arr in arrs:
            for n1, g1 in mod:
                out.append(Cand("positions of run %s are used first" % n1, lambda ex, st, g1=g1: z3.And(ival(g1(st)) >= 0, ival(g1(st)) <= self.nR)))
                out.append(Cand("contents after run %s" % n1, None, trig=symtrig(d.data), forall=lambda ex, st, g1=g1: (lambda f, r: (lambda x: IMP(AND(x >= 0, x < d.N), f(x) == self.content(x, r))))(d.data(st), ival(g1(st)))))
                def contig(ex, st, g1=g1):
                    r = ival(g1(st)); q = lambda x: simp(x - d.base - d.POS(r, P))
                    return lambda x: IMP(AND(d.tl == 1, r >= 0, r < self.nR, x - d.base - d.POS(r, P) >= 0, x - d.base - d.POS(r, P) < self.last),
                                         z3.And(d.base + d.AD(r, q(x)) == x, self.IN(x) == 1, self.RN(x) == r, self.KO(x) == q(x)))
                out.append(Cand("positions of run %s (contiguous)" % n1, None, forall=contig))
                for n3, g3 in fix:
                    for v in self.views:
                        out.append(Cand("position of element %s of run %s in %s" % (n1, n3, v.name), lambda ex, st, g1=g1, g3=g3, v=v: IMP(AND(ival(g3(st)) >= 0, ival(g3(st)) < self.nR, ival(g1(st)) < self.last), v.AD(ival(g3(st)), ival(g1(st))) >= 0)))
                    out.append(Cand("contents after run %s and %s elements of the next" % (n3, n1), None, trig=symtrig(d.data), forall=lambda ex, st, g1=g1, g3=g3: (lambda f, k, r: (lambda x: IMP(AND(x >= 0, x < d.N), f(x) == self.content(x, r, k))))(d.data(st), ival(g1(st)), ival(g3(st)))))
        return out

class FillView(ViewOp):
    name = "multiarray::fillView"; pattern = r"^void z5::multiarray::fillView<short>\("; desc = "every element of the view gets the value; nothing else is written; no access outside the memory of the view"
    def setup(self, ex, st):
        self.dim = self.ndim(ex, st, 1); d = View(ex, st, "ArrayView", "dst", self.dim); self.S = d.S; self.views = [d]
        self.val = ex.fresh_int(st, "val", 16)
        self.ghosts(ex, st, [d]); self.inject(ex, st, d)
        return [d.p, self.val]
    def want(self, x): return self.val
class CopyView(ViewOp):
    name = "multiarray::copyView"; pattern = r"^void z5::multiarray::copyView<short>\(z5::multiarray::ConstArrayView"; desc = "every element of the destination gets the source element of the same index; nothing else is written; no access outside the memory of either view"
    def setup(self, ex, st):
        self.dim = self.ndim(ex, st, 1); d = View(ex, st, "ArrayView", "dst", self.dim); self.S = d.S
        s = self.s = View(ex, st, "ConstArrayView", "src", self.dim, shape=d.S); self.views = [d, s]
        self.ghosts(ex, st, [d, s]); self.inject(ex, st, d); self.src = s.data(st)
        return [s.p, d.p]
    def want(self, x): return self.src(simp(self.s.base + self.s.AD(self.RN(x), self.KO(x))))

class CStrides(Base):
    name = "multiarray::cOrderStrides"; pattern = r"^z5::multiarray::cOrderStrides\("; desc = "stride of an axis = product of the extents of all later axes (exact while the products fit 64 bits)"
    opts = {"linear": True}
    def setup(self, ex, st):
        nd = self.nd = self.ndim(ex, st); self.s = self.vecin(ex, st, "shape", nd); S = self.S = V(ex, st, self.s)
        SUF = self.SUF = basefn("SUFFIX", 1, None, trig=False); st.assume(SUF(simp(ival(nd) - 1)) == 1)
        st.ctx.forall(Forall(lambda d: IMP(AND(d >= 0, LT(d, nd)), AND(SUF(d) >= 0, SUF(d) < U64, IMP(LT(d, simp(ival(nd) - 1)), SUF(d) == SUF(simp(ival(d) + 1)) * S(simp(ival(d) + 1))))), 1, "suffix products fit 64 bits"))
        self.out = Ptr(ex.new_struct(st, "ret")); return [self.out, self.s]
    def post(self, ex, st, st0, ret):
        k = z3.Int(fresh("k"))
        return [("one stride per axis", EQ(N(ex, st, self.out), self.nd)), ("every stride is the product of the later extents", IMP(AND(k >= 0, LT(k, self.nd)), V(ex, st, self.out)(k) == self.SUF(k)))]
    def cands(self, ex, ci):
        out = []
        for reg, off, sz, v in ci.int_cells(8):
            g = ci.getter(reg, off); nm = ci.S.mem[reg].name
            for an, af, r in arrays_modified(ci):
                def fa(ex, st, g=g, af=af):
                    c = sgn(g(st), 64); f = af(st); return lambda k: IMP(AND(k >= 0, LT(k, self.nd)), z3.If(z3.Or(k > c, ival(k) == ival(self.nd) - 1), f(k) == self.SUF(k), ival(f(k)) == 1))
                out.append(Cand("%s: strides above %s" % (an, nm), None, forall=fa))
                def fb(ex, st, g=g, af=af):
                    c = sgn(g(st), 64); f = af(st); return lambda k: IMP(AND(k > c, LT(k, self.nd)), f(k) == self.SUF(k))
                out.append(Cand("%s: strides above %s only" % (an, nm), None, forall=fb))
        return out

class SubviewBase(Base):
    opts = {"linear": True}
    kind = "ArrayView"
    def setup(self, ex, st):
        self.dim = self.ndim(ex, st); v = self.v = View(ex, st, self.kind, "view", self.dim); lay = layout_view(ex.mod)[self.kind]; self.lay = lay
        self.o, self.s = self.vecin(ex, st, "offset", self.dim), self.vecin(ex, st, "shape", self.dim); O = V(ex, st, self.o); self.O = O; self.Q = V(ex, st, self.s)
        POS = self.POS = basefn("POSN", 1, None); st.assume(POS(0) == 0); T = v.T
        st.ctx.forall(Forall(lambda e: IMP(AND(e >= 0, LT(e, self.dim)), z3.And(POS(simp(ival(e) + 1)) == POS(e) + O(e) * T(e), O(e) * T(e) >= 0, POS(e) >= 0, POS(simp(ival(e) + 1)) <= POS(self.dim))), 1, "prefix sums of positions", trig=[POS.name()]))
        st.assume(z3.And(v.base + POS(self.dim) <= v.N, POS(self.dim) >= 0))
        self.out = Ptr(ex.new_struct(st, "ret")); return [self.out, v.p, self.o, self.s]
    def post(self, ex, st, st0, ret):
        k = z3.Int(fresh("k")); c = st.mem[self.out.reg].cells; d = c.get(self.lay["data"]); v = self.v; inr = AND(k >= 0, LT(k, self.dim))
        at = lambda w: Ptr(self.out.reg, self.lay[w])
        ok = d is not None and isinstance(d[1], Ptr) and d[1].reg == v.arr
        return [("the sub-view addresses the memory of the view", ok), ("the sub-view starts at the addressed element", EQ(d[1].idx, v.base + self.POS(self.dim)) if ok else False),
                ("dimensions", AND(EQ(N(ex, st, at("shape")), self.dim), EQ(N(ex, st, at("strides")), self.dim))),
                ("the sub-view has the requested shape", IMP(inr, EQ(V(ex, st, at("shape"))(k), self.Q(k)))), ("the sub-view has the strides of the view", IMP(inr, EQ(V(ex, st, at("strides"))(k), v.T(k)))),
                ("the elements are not modified", IMP(AND(k >= 0, k < v.N), EQ(v.data(st)(k), v.data(st0)(k))))]
    def cands(self, ex, ci):
        out = []
        cs = [(ci.S.mem[r].name, ci.getter(r, o)) for r, o, sz, v in ci.int_cells()]
        for n1, g1 in cs:
            for n2, g2 in cs:
                if n1 != n2: out.append(Cand("%s = position over the first %s axes" % (n1, n2), lambda ex, st, g1=g1, g2=g2: EQ(g1(st), self.POS(ival(g2(st))))))
        return out
class Subview(SubviewBase):
    name = "multiarray::subview"; pattern = r"^z5::multiarray::ArrayView<short> z5::multiarray::subview<short>\(z5::multiarray::ArrayView<short> const&"; desc = "a view of the requested shape on the same memory, starting at the addressed element, with the same strides"
class SubviewConst(SubviewBase):
    kind = "ConstArrayView"
    name = "multiarray::subview (const)"; pattern = r"^z5::multiarray::ConstArrayView<short> z5::multiarray::subview<short>\(z5::multiarray::ConstArrayView<short> const&"; desc = Subview.desc

# ---------------------------------------------------------------- the ghost sequences used above exist and enumerate every index once
def lemma_odometer():
    """induction steps behind the ghost odometer: run number r = mixed-radix value of its digits, so the digits of r + 1 follow from those of r by one carry,
    r < product of the extents stays inside the digits' ranges, and two runs with the same digits are the same run"""
    from sharding import prove_all
    I = z3.Int; r, q, d, s, v, w, P, B, t, a, b = [I(x) for x in "r q d s v w P B t a b".split()]
    return prove_all("odometer", [
        ("a number splits uniquely into leading value and last digit", [s >= 1, q * s + d == v * s + w, 0 <= d, d < s, 0 <= w, w < s, q - v == t, t * s == w - d], z3.And(q == v, d == w)),
        ("incrementing without carry changes the last digit only", [s >= 1, r == q * s + d, 0 <= d, d + 1 < s], z3.And(r + 1 == q * s + (d + 1), d + 1 < s)),
        ("incrementing with carry resets the last digit and increments the leading value", [s >= 1, r == q * s + d, d + 1 == s], r + 1 == (q + 1) * s),
        ("leading value stays below the leading product", [s >= 1, r == q * s + d, 0 <= d, r < P * s, q - P == t, z3.Implies(t >= 0, t * s >= 0)], q < P),
        ("run 0 has all digits zero", [s >= 1, q * s + d == 0, 0 <= d, d < s, z3.Implies(q >= 1, q * s >= s), z3.Implies(q <= -1, q * s <= -s)], z3.And(q == 0, d == 0)),
        ("prefix products grow", [P >= 1, s >= 1], z3.And(P * s >= P, P * s >= 1)),
        ("prefix positions grow", [a >= 0, d >= 0, t >= 0, B == a + d * t], z3.And(B >= a, B >= 0)),
        ("element positions inside a run", [0 <= v, v < w, t >= 0, a >= 0], z3.And(v * t >= 0, a + v * t <= a + (w - 1) * t))])
