"""Contracts on the real functions and the verification driver."""
import re, time, z3
from sym import *
from engine import *
from models import *
import prover

class Contract:
    """specification of one real function.
       setup(ex, st)  -> argument list (assumes the precondition)
       post(ex, st, st0, ret) -> list of (label, formula) for normal return
       exc(ex, st, st0, ty) -> list of (label, formula) obligations for exceptional exit
       apply(ex, st, ins, args) -> use at a call site"""
    name = None; pattern = None; is_target = False
    cands = None; force_cut = None; must_reach = 'ret'
    def matches(self, name, dem): return re.search(self.pattern, dem) is not None
    def setup(self, ex, st): raise NotImplementedError
    def post(self, ex, st, st0, ret): return []
    def exc(self, ex, st, st0, ty): return [("no exception is thrown", False)]
    def apply(self, ex, st, ins, args): raise Refuse("contract %s cannot be applied" % self.name)

class Result:
    def __init__(self, name):
        self.name = name; self.obls = []; self.error = None; self.paths = 0; self.outcomes = {}; self.cuts = 0; self.wall = 0
        self.inlined = []; self.used = []; self.models = []; self.invs = []; self.vacuous = False; self.havocked = []
    @property
    def proved(self): return self.error is None and not self.vacuous and all(o.status == "proved" for o in self.obls)
    def failed(self): return [o for o in self.obls if o.status != "proved"]

def find(mod, pattern):
    l = [n for n in mod.defs if re.search(pattern, mod.dem(n))]
    if not l: raise Refuse("function not found: " + pattern)
    return sorted(l, key=lambda n: len(mod.dem(n)))[0]

def verify(mod, contract, contracts=(), models=None, opts=None, timeout=240, obl_timeout=15000, only=None):
    t0 = time.time(); res = Result(contract.name)
    models = models or Models()
    if getattr(contract, "models", None):
        for rx, fn in contract.models: models.add(rx, fn, front=True)
    ex = Executor(mod, models, list(contracts), dict(opts or {}, **(getattr(contract, "opts", None) or {})))
    ex.deadline = t0 + timeout
    ex.vec_ek = {}
    try:
        target = find(mod, contract.pattern); ex.under = target
        for c in ex.contracts: c.is_target = c is contract
        if contract.cands: ex.cands.append(contract.cands)
        ex.force_cut = contract.force_cut
        st = St(); args = contract.setup(ex, st)
        # vacuity: the precondition must be satisfiable
        r, _ = prover.check(st.ctx, [], 8000)
        if r == "unsat": res.vacuous = True
        st0 = st.copy()
        fn = mod.func(target)
        ex.push(st, fn, args)
        ex.obls = []
        outs = ex.run([st]); reached = False
        for s in outs:
            if s.status == "ret":
                posts = contract.post(ex, s, st0, s.ret)
                kind = "ret"
            elif s.status == "throw":
                posts = contract.exc(ex, s, st0, s.exc[1]); kind = "throw"
            elif s.status in ("unreachable", "infeasible"): continue
            elif s.status == "terminate": posts = [("no abnormal termination", False)]; kind = "terminate"
            else: raise Refuse("outcome %r" % (s.status,))
            res.outcomes[kind] = res.outcomes.get(kind, 0) + 1
            if kind == contract.must_reach and not reached:
                reached = prover.check(s.ctx, [], 5000)[0] != "unsat"      # vacuity: the outcome is possible
            for label, g in posts:
                g0 = g
                if g is True: g = z3.BoolVal(True)
                if g is False: g = z3.BoolVal(False)
                o = Obl(label, s.ctx.copy(), g, "postcondition of %s" % contract.name, list(s.approx)); o.st = s
                ex.obls.append(o)
        if contract.must_reach and not reached: res.vacuous = True
        res.paths = len(outs); res.cuts = ex.stats["cuts"]
        for o in ex.obls:
            if time.time() > ex.deadline + 60: o.status = "unknown"; continue
            t1 = time.time()
            g = z3.simplify(o.goal)
            if z3.is_true(g): o.status = "proved"
            else:
                r, m = prover.check(o.ctx, [z3.Not(g)], obl_timeout, model=True)
                o.status = {"unsat": "proved", "sat": "refuted", "unknown": "unknown"}[r]; o.model = m
            o.time = time.time() - t1
        res.obls = ex.obls
    except Refuse as e:
        res.error = str(e)
    except (KeyError, IndexError, TypeError, AttributeError, z3.Z3Exception) as e:
        import traceback
        res.error = "internal: %r" % (e,)
        res.tb = traceback.format_exc()
    res.inlined = sorted(ex.inlined); res.used = sorted(ex.used_contracts); res.models = sorted(ex.used_models); res.invs = ex.inv_report
    res.havocked = sorted(ex.havocked)
    res.wall = time.time() - t0; res.ex = ex
    return res

# ------------------------------------------------------------------ helpers for writing contracts
def mkvec(ex, st, name, n, ek=EK(64), fa=None, maxn=None):
    """a vector object in its own memory; returns pointer to the vector object"""
    r = ex.new_struct(st, name)
    b = ex.new_arr(st, name, ek, n, None if fa is None else {0: fa}); ex.vec_ek[b] = ek
    st.w(r).cells[0] = (24, VecVal(b))
    if isz(n): st.assume(z3.And(n >= 0, n < (1 << 31)))
    return Ptr(r)
def setvec(ex, st, reg, off, name, n, ek=EK(64)):
    b = ex.new_arr(st, name, ek, n); ex.vec_ek[b] = ek
    st.w(reg).cells[off] = (24, VecVal(b))
    return b
def V(ex, st, p, sub=0):
    """content function of the vector object at p"""
    b = vbuf(ex, st, p); return ex.arr_fn(st, b, sub)
def N(ex, st, p): return vlen(ex, st, vbuf(ex, st, p))
def same_vec(ex, st, st0, p, n):
    """pointwise equality of a vector with its initial value, at a fresh index"""
    k = z3.Int(fresh("fr"))
    return AND(EQ(N(ex, st, p), N(ex, st0, p)), IMP(AND(k >= 0, LT(k, n)), EQ(V(ex, st, p)(k), V(ex, st0, p)(k))))
