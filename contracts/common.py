"""Shared pieces of the contracts: object layouts discovered by executing the real constructors/accessors, object builders, driver hooks."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "vc"))
import z3
from sym import *
from contract import *
from engine import *
from models import *
import prover

U64 = 1 << 64

def run_concrete(mod, pattern, setup, models=None):
    """execute a real function on given arguments; returns (executor, final states)"""
    ex = Executor(mod, models or Models()); st = St(); ex.vec_ek = {}
    args = setup(ex, st)
    ex.push(st, mod.func(find(mod, pattern)), args)
    return ex, ex.run([st])
def cvec(ex, st, name, vals, ek=EK(64)):
    return mkvec(ex, st, name, len(vals), ek=ek, fa=FArr(lambda i: vals[i] if not isz(i) and 0 <= i < len(vals) else z3.IntVal(0)))
def conc_list(ex, st, v):
    n = st.mem[v.reg].n
    if isz(n): return None
    l = [ex.arr_sel(st, Ptr(v.reg), i, 0) for i in range(n)]
    return None if any(isz(x) for x in l) else l

_lay = {}
def layout_blocking(mod):
    """member offsets of util::Blocking, found by executing its real constructor on distinguishable values"""
    if ("b", id(mod)) in _lay: return _lay[("b", id(mod))]
    box = {}
    def setup(ex, st):
        box["r"] = ex.new_struct(st, "blk")
        return [Ptr(box["r"]), cvec(ex, st, "s", [10, 70, 9]), cvec(ex, st, "b", [3, 11, 5])]
    ex, outs = run_concrete(mod, r"^z5::util::Blocking::Blocking\(Shape const&, Shape const&\)", setup)
    outs = [s for s in outs if s.status == "ret"]
    if len(outs) != 1: raise Refuse("Blocking constructor does not return on a valid shape")
    s = outs[0]; lay = {"other": []}
    want = {(10, 70, 9): "shape", (3, 11, 5): "block", (4, 7, 2): "per", (14, 2, 1): "strides"}
    for off, (sz, v) in s.mem[box["r"]].cells.items():
        if isinstance(v, VecVal):
            k = want.get(tuple(conc_list(ex, s, v) or ()))
            if k and k not in lay: lay[k] = off
            else: lay["other"].append((off, sz))
        elif v == 56 and "num" not in lay: lay["num"] = off
        else: lay["other"].append((off, sz))
    for k in ("shape", "block", "per", "num"):
        if k not in lay: raise Refuse("member of Blocking not found: " + k)
    _lay[("b", id(mod))] = lay
    return lay
def layout_dataset(mod):
    """member offsets of z5::Dataset, found by executing its real accessors"""
    if ("d", id(mod)) in _lay: return _lay[("d", id(mod))]
    lay = {}
    for k, pat in (("shape", r"^z5::Dataset::shape\(\) const"), ("chunk", r"^z5::Dataset::defaultChunkShape\(\) const"), ("chunking", r"^z5::Dataset::chunking\(\) const")):
        box = {}
        def setup(ex, st):
            box["r"] = ex.new_struct(st, "ds"); return [Ptr(box["r"])]
        ex, outs = run_concrete(mod, pat, setup)
        if len(outs) != 1 or outs[0].status != "ret" or not isinstance(outs[0].ret, Ptr) or outs[0].ret.reg != box["r"]: raise Refuse("accessor of Dataset: " + k)
        lay[k] = outs[0].ret.idx
    for k, pat in (("size", r"^z5::Dataset::defaultChunkSize\(\) const"), ("isZarr", r"^z5::Dataset::isZarr\(\) const")):
        box = {}
        def setup(ex, st):
            box["r"] = ex.new_struct(st, "ds"); return [Ptr(box["r"])]
        ex, outs = run_concrete(mod, pat, setup)
        if len(outs) != 1 or outs[0].status != "ret": raise Refuse("accessor of Dataset: " + k)
        cells = list(outs[0].mem[box["r"]].cells)
        if len(cells) != 1: raise Refuse("accessor of Dataset: " + k)
        lay[k] = cells[0]
    _lay[("d", id(mod))] = lay
    return lay

def CEIL(P, S, B):
    """P is the ceiling of S / B"""
    return AND(P >= 0, P <= S, IMP(S == 0, P == 0), IMP(S > 0, z3.And(P >= 1, (P - 1) * B < S)), S <= P * B)

class Blk:
    """a util::Blocking object satisfying its representation invariant"""
    def __init__(self, ex, st, p, nd, name="blk", assume=True):
        lay = layout_blocking(ex.mod); self.p, self.nd, self.lay = p, nd, lay
        for k in ("shape", "block", "per", "strides"):
            if k in lay: setvec(ex, st, p.reg, p.idx + lay[k], name + "." + k, nd)
        self.numt = ex.fresh_int(st, name + ".num"); st.w(p.reg).cells[p.idx + lay["num"]] = (8, self.numt)
        self.S, self.B, self.P = [V(ex, st, Ptr(p.reg, p.idx + lay[k])) for k in ("shape", "block", "per")]
        self.T = V(ex, st, Ptr(p.reg, p.idx + lay["strides"])) if "strides" in lay else None
        S, B, P, T = self.S, self.B, self.P, self.T
        inr = lambda k: AND(k >= 0, LT(k, nd))
        if assume:
            st.ctx.forall(Forall(lambda k: IMP(inr(k), z3.And(B(k) >= 1, S(k) + B(k) < U64, CEIL(P(k), S(k), B(k)))), 1, "blocking invariant"))
    def vec(self, k): return Ptr(self.p.reg, self.p.idx + self.lay[k])
    def valid(self, c):
        """block coordinate c (function) lies in the grid, per axis"""
        return lambda k: IMP(AND(k >= 0, LT(k, self.nd)), AND(c(k) >= 0, c(k) < self.P(k)))

class Base(Contract):
    """contracts with an optional concrete number of dimensions (bounded stand-in) and named inputs for replay"""
    desc = ""
    def __init__(self, nd=None, **kw):
        self.conc = nd; self.kw = kw; self.ins = {}
        for k, v in kw.items(): setattr(self, k, v)
    def ndim(self, ex, st, lo=1):
        if self.conc is not None: return self.conc
        nd = ex.fresh_int(st, "ndim"); st.assume(z3.And(nd >= lo, nd < (1 << 16))); return nd
    def vecin(self, ex, st, name, n, ek=EK(64)):
        p = mkvec(ex, st, name, n, ek=ek); self.ins[name] = ("vec", V(ex, st, p), n); return p
    def intin(self, ex, st, name, bits=64):
        v = ex.fresh_int(st, name, bits); self.ins[name] = ("int", v); return v
    def note(self, name, f, n): self.ins[name] = ("vec", f, n)

def arrays_modified(ci):
    """integer array regions modified by the loop: list of (label, getter(st)->content function, region)"""
    out = []
    for k in ci.M:
        if k[0] == "a" and isinstance(k[1], int) and k[2] == 0 and k[1] in ci.S.mem and ci.S.mem[k[1]].kind == "a" and ci.S.mem[k[1]].ek[0] == "int":
            out.append((ci.S.mem[k[1]].name, (lambda reg: lambda st: st.mem[reg].f[0])(k[1]), k[1]))
    return out
def elementwise(ci, specs, up=True, down=False):
    """candidates: forall k below (or above) some counter, a modified array holds spec(k)"""
    out = []
    cs = [(ci.S.mem[r].name, ci.getter(r, o), sz) for r, o, sz, v in ci.int_cells()]
    for an, af, reg in arrays_modified(ci):
        for sl, sp in specs:
            for cn, g, sz in cs:
                if up:
                    out.append(Cand("%s[k] = %s for k < %s" % (an, sl, cn), None,
                                    forall=lambda ex, st, af=af, g=g, sp=sp: (lambda k: IMP(AND(k >= 0, LT(k, g(st))), sp(ex, st, k, af(st)(k))))))
                if down:
                    def fa(ex, st, af=af, g=g, sp=sp, reg=reg, sz=sz):
                        c = ex.to_signed(st, g(st), 8 * sz)
                        return lambda k: IMP(AND(GT(k, c), LT(k, st.mem[reg].n), k >= 0), sp(ex, st, k, af(st)(k)))
                    out.append(Cand("%s[k] = %s for k > %s" % (an, sl, cn), None, forall=fa))
    return out

def induct(ex, st, P, n, label):
    """induction over 0..n: emits base and step as obligations, then makes the conclusion available"""
    i = z3.Int(fresh("ind"))
    ex.oblige(st, label + " (base)", P(ival(0)))
    s = st.copy(); s.assume(z3.And(i >= 0, LT(i, n))); s.assume(P(i)); ex.oblige(s, label + " (step)", P(simp(i + 1)))
    return P(ival(n))
