"""Ground query construction (explicit instantiation) and solver dispatch."""
import z3, time, subprocess, os, tempfile
from sym import *
import sym

class Stats:
    def __init__(self):
        self.queries = 0; self.time = 0.0; self.by = {"z3": 0, "cvc5": 0}; self.unknown = 0; self.maxq = 0.0
STATS = Stats()

_apps_cache = {}
_keep = []
def apps(t):
    """set of (decl name, tuple of arg terms) of base functions and DIV inside t, memoised over the DAG"""
    tid = t.get_id()
    r = _apps_cache.get(tid)
    if r is not None: return r
    # iterative post-order
    stack = [t]
    while stack:
        x = stack[-1]; xid = x.get_id()
        if xid in _apps_cache: stack.pop(); continue
        if z3.is_quantifier(x):
            _apps_cache[xid] = {}; _keep.append(x); stack.pop(); continue
        ch = x.children()
        todo = [c for c in ch if c.get_id() not in _apps_cache]
        if todo: stack += todo; continue
        stack.pop()
        out = None
        for c in ch:
            a = _apps_cache[c.get_id()]
            if a:
                if out is None: out = dict(a)
                else: out.update(a)
        if z3.is_app(x):
            d = x.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED:
                n = d.name()
                if n in BASE or n in SPECIAL:
                    if out is None: out = {}
                    else: out = dict(out)
                    out[xid] = (n, tuple(ch), x)
                elif d.arity() == 0 and n.startswith("str:"):
                    out = dict(out or {}); out[xid] = ("str", (), x)
        _apps_cache[xid] = out or {}
        _keep.append(x)
    return _apps_cache[tid]

def _div_ax(ch, x):
    a, b = ch
    l = [z3.Implies(b > 0, z3.And(b * x <= a, a < b * x + b)),
         z3.Implies(z3.And(b > 0, a >= 0), z3.And(x >= 0, x <= a))]
    return l
def _cat_ax(ch, x):
    """concatenation: the empty string is neutral, and only empty strings concatenate to the empty string"""
    e = strconst(""); a, b = ch
    return [z3.Implies(a == e, x == b), z3.Implies(b == e, x == a), (x == e) == z3.And(a == e, b == e)]
SPECIAL = {"udiv": _div_ax, "cat": _cat_ax, "dec": lambda ch, x: [x != strconst("")], "chr": lambda ch, x: [x != strconst("")]}          # name -> axiom instances for an application
PAIRAX = {"udiv": lambda x, y: []}

class Ctx:
    """logical context: ground facts + quantified hypotheses"""
    __slots__ = ("facts", "foralls", "_ids", "terms")
    def __init__(self):
        self.facts = []; self.foralls = []; self._ids = set(); self.terms = []
    def copy(self):
        c = Ctx(); c.facts = list(self.facts); c.foralls = list(self.foralls); c._ids = set(self._ids); c.terms = list(self.terms)
        return c
    def add(self, f):
        if f is True: return
        if f is False: f = z3.BoolVal(False)
        if z3.is_and(f):
            for c in f.children(): self.add(c)
            return
        i = f.get_id()
        if i in self._ids: return
        self._ids.add(i); self.facts.append(f)
    def key(self): return (tuple(f.get_id() for f in self.facts), tuple(id(f) for f in self.foralls), tuple(t.get_id() for t in self.terms))
    def forall(self, fa): self.foralls.append(fa)
    def term(self, t):
        if isz(t): self.terms.append(t)

MAXINST = 6000
class Exp:
    """instantiation state: seen applications, index terms, emitted assertions"""
    __slots__ = ("seen", "one", "two", "byfn", "out", "ninst", "strs", "key")
    def copy(self):
        e = Exp(); e.seen = set(self.seen); e.one = dict(self.one); e.two = dict(self.two); e.byfn = {n: dict(d) for n, d in self.byfn.items()}
        e.out = list(self.out); e.ninst = self.ninst; e.strs = list(self.strs); return e
def _grow(e, foralls, frontier, newone, rounds, use_forall, fresh_from=0):
    e.out += frontier
    newone = dict(newone)
    for r in range(rounds + 1):
        newtwo = {}; newby = {}
        nxt = []
        for f in frontier:
            for k, (n, ch, x) in apps(f).items():
                if k in e.seen: continue
                e.seen.add(k)
                if n == "str": e.strs.append(x); continue
                if n in SPECIAL:
                    nxt += SPECIAL[n](ch, x)
                    if n not in BASE: continue
                ar, bits = BASE[n]
                if bits: nxt.append(z3.And(x >= 0, x < z3.IntVal(1 << bits)))
                if ar == 1:
                    i = ch[0].get_id()
                    if n not in NOTRIG and i not in e.one: e.one[i] = newone[i] = ch[0]
                    d = e.byfn.setdefault(n, {})
                    if i not in d: d[i] = (ch[0],); newby.setdefault(n, {})[i] = (ch[0],)
                elif ar == 2:
                    k2 = (ch[0].get_id(), ch[1].get_id())
                    if n not in NOTRIG:
                        if k2 not in e.two: e.two[k2] = newtwo[k2] = ch
                        if k2[0] not in e.one: e.one[k2[0]] = newone[k2[0]] = ch[0]
                    d = e.byfn.setdefault(n, {})
                    if k2 not in d: d[k2] = ch; newby.setdefault(n, {})[k2] = ch
        if use_forall and r < rounds:
            for fa in foralls:
                if fa.trig is not None:
                    items = {}
                    for n in fa.trig: items.update((k, v) for k, v in newby.get(n, {}).items() if len(v) == fa.arity)
                elif fa.arity == 1: items = {k: (v,) for k, v in newone.items()}
                else: items = newtwo
                for k, ix in items.items():
                    e.ninst += 1
                    if e.ninst > MAXINST: break
                    b = fa.at(k, ix)
                    if b is True: continue
                    nxt.append(b)
        newone = {}
        e.out += nxt; frontier = nxt
        if not frontier: break
_expc = {}
def expand(ctx, goal_neg, rounds=3, use_forall=True):
    """ground assertion list for pc /\\ goal_neg: the path condition is saturated once per context, then the goal"""
    key = (ctx.key(), use_forall)
    e = _expc.get(key)
    if e is None:
        e = Exp(); e.seen = set(); e.one = {t.get_id(): t for t in ctx.terms}; e.two = {}; e.byfn = {}; e.out = []; e.ninst = 0; e.strs = []
        _grow(e, ctx.foralls, list(ctx.facts), e.one, rounds, use_forall)
        if len(_expc) > 400: _expc.clear()
        _expc[key] = e; _keep.append((list(ctx.facts), list(ctx.foralls), list(ctx.terms)))
    if goal_neg:
        e = e.copy(); e.ninst = min(e.ninst, MAXINST // 2)
        _grow(e, ctx.foralls, list(goal_neg), {}, rounds, use_forall)
    out = list(e.out)
    for x in e.strs: out.append(STRID(x) == strid(x))
    return out

_strids = {}
def strid(x):
    n = x.decl().name()
    return _strids.setdefault(n, len(_strids))

TIMEOUT = 8000
_cache = {}
_MUL = z3.Function("MUL", z3.IntSort(), z3.IntSort(), z3.IntSort())
_lin = {}; _linf = {}
def _linear1(f):
    stack = [f]; memo = _lin
    while stack:
        t = stack[-1]; i = t.get_id()
        if i in memo: stack.pop(); continue
        ch = t.children(); todo = [c for c in ch if c.get_id() not in memo]
        if todo: stack += todo; continue
        stack.pop()
        n = [memo[c.get_id()] for c in ch]
        if z3.is_mul(t) and sum(1 for c in n if not z3.is_int_value(c)) > 1:
            k = [c for c in n if z3.is_int_value(c)]; u = sorted([z3.simplify(c) for c in n if not z3.is_int_value(c)], key=lambda c: c.get_id()); _keep.append(u)
            r = u[0]
            for c in u[1:]: r = _MUL(r, c)
            for c in k: r = c * r
        elif any(not a.eq(b) for a, b in zip(ch, n)): r = t.decl()(*n)
        else: r = t
        memo[i] = r; _keep.append(t)
    return memo[f.get_id()]
def linear(fs):
    """products of two unknowns become applications of an uninterpreted commutative function (weaker: unsat remains unsat)"""
    out = []; ex = {}; divs = {}
    for f in fs:
        r = _linf.get(f.get_id())
        if r is None:
            g = _linear1(f); muls = {}; seen = set(); st = [g]
            while st:
                t = st.pop(); i = t.get_id()
                if i in seen: continue
                seen.add(i)
                if z3.is_app(t):
                    if t.decl().name() == "udiv" and not z3.is_int_value(t.arg(1)): muls[("d", i)] = z3.BoolVal(True); _divs[i] = t
                    if t.decl().eq(_MUL): a, b = t.arg(0), t.arg(1); _mulv[i] = t; muls[i] = z3.And(t == _MUL(b, a), z3.Implies(a == 1, t == b), z3.Implies(b == 1, t == a), z3.Implies(z3.Or(a == 0, b == 0), t == 0), z3.Implies(z3.And(a >= 0, b >= 0), t >= 0))
                    st += t.children()
            r = _linf[f.get_id()] = (g, muls); _keep.append(f)
        out.append(r[0]); ex.update(r[1])
    for k in [k for k in ex if isinstance(k, tuple)]:       # x <= a div b  implies  x * b <= a, for the products present
        d = _divs[k[1]]; del ex[k]; a, b = d.arg(0), d.arg(1)
        for i in list(ex):
            if isinstance(i, tuple) or i not in _mulv: continue
            m = _mulv[i]
            for x, y in ((m.arg(0), m.arg(1)), (m.arg(1), m.arg(0))):
                if y.eq(b): out.append(z3.Implies(z3.And(b >= 1, a >= 0, x >= 0), (x <= d) == (m <= a)))
    return out + list(ex.values())
_divs = {}; _mulv = {}
def check_linear(ctx, goal_neg, timeout):
    a = linear(expand(ctx, goal_neg))
    s = z3.Solver(); s.set("timeout", timeout); s.add(*a); r = s.check(); STATS.queries += 1
    if r == z3.unsat: STATS.by["z3"] += 1
    return str(r)

def check(ctx, goal_neg, timeout=None, stage0=True, model=False):
    """'unsat' | 'sat' | 'unknown' (and model)"""
    goal_neg = [g for g in goal_neg if g is not True]
    if any(g is False for g in goal_neg): return ("unsat", None)
    key = (tuple(sorted(f.get_id() for f in ctx.facts)), tuple(sorted({t.get_id() for t in ctx.terms})), len(ctx.foralls) and tuple(id(f) for f in ctx.foralls), tuple(g.get_id() for g in goal_neg))
    if not model and key in _cache: return (_cache[key], None)
    t0 = time.time()
    res = "unknown"; mdl = None
    for stage in ((0, 1) if stage0 and ctx.foralls else (1,)):
        a = expand(ctx, goal_neg, use_forall=(stage == 1))
        T = (timeout or TIMEOUT) if stage == 1 else 1500
        plan = [(T, {})] if T < 3000 else [(T // 5, {}), (T // 5, {"smt.arith.solver": 2}), (T // 5, {"smt.random_seed": 3}), (T // 2, {"smt.random_seed": 17, "smt.phase_selection": 0})]
        for t, o in plan:          # the same query under different search strategies
            s = z3.Solver(); s.set("timeout", t)
            for k, v in o.items(): s.set(k, v)
            s.add(*a)
            r = s.check()
            STATS.queries += 1
            res = str(r)
            if r != z3.unknown: break
        if r == z3.unsat: STATS.by["z3"] += 1; break
        if r == z3.sat and stage == 1:
            mdl = s.model()
    if res == "unknown" and (timeout or TIMEOUT) >= 8000:
        res = _fallback(a, timeout)
    dt = time.time() - t0
    STATS.time += dt; STATS.maxq = max(STATS.maxq, dt)
    if res == "unknown": STATS.unknown += 1
    _keep.extend(goal_neg); _keep.extend(ctx.foralls)
    if res != "unknown" or timeout is None: _cache[key] = res
    return (res, mdl)

CVC5 = os.environ.get("CVC5", "cvc5")
def _fallback(a, timeout):
    s = z3.Solver(); s.add(*a)
    txt = "(set-logic ALL)\n" + s.to_smt2()
    try:
        p = subprocess.run([CVC5, "--tlimit=%d" % ((timeout or TIMEOUT)), "--lang=smt2", "-"], input=txt, capture_output=True, text=True, timeout=(timeout or TIMEOUT) / 1000 + 5)
        o = p.stdout.strip().split("\n")[0] if p.stdout else "unknown"
        if o == "unsat": STATS.by["cvc5"] += 1; return "unsat"
        if o == "sat": return "sat"
    except Exception:
        pass
    return "unknown"

def valid(ctx, goal, timeout=None, lin=False):
    if goal is True: return True
    if goal is False: return check(ctx, [], timeout)[0] == "unsat"
    g = z3.simplify(goal)
    if z3.is_true(g): return True
    if lin:
        t0 = time.time(); r = check_linear(ctx, [z3.Not(g)], timeout or TIMEOUT); STATS.time += time.time() - t0
        return r == "unsat"
    return check(ctx, [z3.Not(g)], timeout)[0] == "unsat"
