"""Symbolic values, memory and the proof context (queries).

Machine integers are exact: an iN value is a z3 Int term known to lie in
[0, 2^N); every IR operation that could wrap is either shown not to (under the
path condition) or encoded with its exact wrap-around.
"""
import z3, time, itertools, os

ID = itertools.count(1)
def fresh(name):
    return "%s!%d" % (name, next(ID))

def isz(x): return isinstance(x, z3.ExprRef)
def ival(x): return z3.IntVal(x) if isinstance(x, int) and not isinstance(x, bool) else x
def simp(x):
    if not isz(x): return x
    r = z3.simplify(x)
    return pyval(r)
def pyval(r):
    if z3.is_int_value(r): return r.as_long()
    if z3.is_true(r): return True
    if z3.is_false(r): return False
    return r
def AND(*a):
    l = []
    for x in a:
        if isinstance(x, (list, tuple)): l += list(x)
        else: l.append(x)
    l = [x for x in l if x is not True]
    if any(x is False for x in l): return False
    if not l: return True
    return z3.And(*l) if len(l) > 1 else l[0]
def OR(*a):
    l = []
    for x in a:
        if isinstance(x, (list, tuple)): l += list(x)
        else: l.append(x)
    l = [x for x in l if x is not False]
    if any(x is True for x in l): return True
    if not l: return False
    return z3.Or(*l) if len(l) > 1 else l[0]
def NOT(a):
    if isinstance(a, bool): return not a
    return z3.Not(a)
def IMP(a, b):
    if a is True: return b
    if a is False or b is True: return True
    if b is False: return NOT(a)
    return z3.Implies(a, b)
def ITE(c, a, b):
    if c is True: return a
    if c is False: return b
    if a is b: return a
    if isinstance(a, bool) or z3.is_bool(a) if isz(a) else isinstance(a, bool):
        if isinstance(a, bool) and isinstance(b, bool):
            if a == b: return a
            return c if a else NOT(c)
        return z3.If(c, z3.BoolVal(a) if isinstance(a, bool) else a, z3.BoolVal(b) if isinstance(b, bool) else b)
    if isinstance(a, int) and isinstance(b, int) and a == b: return a
    return z3.If(c, ival(a), ival(b))
def EQ(a, b):
    if isinstance(a, (int, bool)) and isinstance(b, (int, bool)): return a == b
    if isz(a) and isz(b) and a.eq(b): return True
    return a == b if isz(a) else b == a
def LE(a, b): return (a <= b) if not isz(a) and not isz(b) else ival(a) <= ival(b)
def LT(a, b): return (a < b) if not isz(a) and not isz(b) else ival(a) < ival(b)
def GE(a, b): return LE(b, a)
def GT(a, b): return LT(b, a)

# exact division of naturals as an uninterpreted function with its defining axiom (ground instances)
DIV = z3.Function("udiv", z3.IntSort(), z3.IntSort(), z3.IntSort())
def udiv(a, b):
    if not isz(a) and not isz(b):
        return a // b if b else 0
    if not isz(b) and b > 0: return ival(a) / b
    return DIV(ival(a), ival(b))
def umod(a, b):
    if not isz(a) and not isz(b):
        return a % b if b else a
    if not isz(b) and b > 0: return ival(a) % b
    return ival(a) - DIV(ival(a), ival(b)) * ival(b)

# ------------------------------------------------------------------ opaque objects (strings, json, paths ...)
OBJ = z3.DeclareSort("Obj")
CAT = z3.Function("cat", OBJ, OBJ, OBJ)
DEC = z3.Function("dec", z3.IntSort(), OBJ)
_strs = {}
def strconst(s):
    if s not in _strs: _strs[s] = z3.Const("str:%r" % s, OBJ)
    return _strs[s]
STRID = z3.Function("strid", OBJ, z3.IntSort())
_rev = {}

# ------------------------------------------------------------------ base functions (array contents)
BASE = {}         # decl name -> (arity, bits or None)
NOTRIG = set()    # functions whose arguments do not instantiate general quantified facts
def basefn(name, arity=1, bits=64, sort=None, trig=True):
    n = fresh(name)
    if not trig: NOTRIG.add(n)
    f = z3.Function(n, *([z3.IntSort()] * arity), sort if sort is not None else z3.IntSort())
    BASE[n] = (arity, bits)
    return f

class FArr:
    """functional array: index tuple -> term"""
    __slots__ = ("fn", "cache", "tag")
    def __init__(self, fn, tag=None):
        self.fn, self.cache, self.tag = fn, {}, tag
    def __call__(self, *ix):
        k = tuple(i.get_id() if isz(i) else ("c", i) for i in ix)
        r = self.cache.get(k)
        if r is None:
            r = (self.fn(*ix), ix); self.cache[k] = r
        return r[0]
    @staticmethod
    def sym(name, arity=1, bits=64):
        f = basefn(name, arity, bits)
        return FArr(lambda *ix: f(*[ival(i) for i in ix]), tag=f)
    @staticmethod
    def const(v): return FArr(lambda *ix: v, tag=("const", v))
    def store(self, ix, v):
        base = self
        ix = tuple(ix)
        return FArr(lambda *jx: ITE(simpb(AND([EQ(a, b) for a, b in zip(jx, ix)])), v, base(*jx)))
    def where(self, cond, fn):
        base = self
        def g(*jx):
            c = simpb(cond(*jx))
            if c is True: return fn(*jx)
            if c is False: return base(*jx)
            return ITE(c, fn(*jx), base(*jx))
        return FArr(g)

def simpb(c):
    if isinstance(c, bool): return c
    r = z3.simplify(c)
    if z3.is_true(r): return True
    if z3.is_false(r): return False
    return c

class Forall:
    """universally quantified hypothesis, instantiated explicitly at index terms.
       body(*ix) -> Bool ; arity 1 or 2; fns: optional set of base function names restricting triggers"""
    __slots__ = ("arity", "body", "label", "trig", "memo")
    def __init__(self, body, arity=1, label="", trig=None):
        self.body, self.arity, self.label, self.trig = body, arity, label, trig
        self.memo = {}
    def at(self, k, ix):
        r = self.memo.get(k)
        if r is None:
            b = self.body(*ix)
            if b is False: b = z3.BoolVal(False)
            r = self.memo[k] = (b, ix)            # the terms are kept alive: ids stay unique
        return r[0]

# ------------------------------------------------------------------ pointers
class Ptr:
    __slots__ = ("reg", "idx", "sub")
    def __init__(self, reg, idx=0, sub=0):
        self.reg, self.idx, self.sub = reg, idx, sub
    def __repr__(self): return "Ptr(%s,%s,%s)" % (self.reg, self.idx, self.sub)
    def same(self, o):
        return isinstance(o, Ptr) and self.reg == o.reg and self.sub == o.sub and (self.idx is o.idx or (isz(self.idx) and isz(o.idx) and self.idx.eq(o.idx)) or (not isz(self.idx) and not isz(o.idx) and self.idx == o.idx))
NULL = Ptr(0)
class FnPtr:
    __slots__ = ("name",)
    def __init__(self, n): self.name = n
    def __repr__(self): return "&" + self.name
class PInt:
    """ptrtoint of a pointer"""
    __slots__ = ("p",)
    def __init__(self, p): self.p = p
class VecVal:
    __slots__ = ("reg",)
    def __init__(self, reg): self.reg = reg
    def __repr__(self): return "Vec(r%s)" % self.reg
class Opq:
    """opaque C++ object with a ghost term"""
    __slots__ = ("kind", "t", "x")
    def __init__(self, kind, t, x=None): self.kind, self.t, self.x = kind, t, x
    def __repr__(self): return "Opq(%s,%s)" % (self.kind, self.t)

# element kinds of array regions: dict sub -> bits ; nested vectors: sub -> ('vec', elemkind)
class Struct:
    kind = "s"
    __slots__ = ("cells", "name", "size", "live", "ty", "lazy")
    def __init__(self, name, size=None, ty=None):
        self.cells, self.name, self.size, self.live, self.ty = {}, name, size, True, ty
        self.lazy = None
    def copy(self):
        r = Struct(self.name, self.size, self.ty); r.cells = dict(self.cells); r.live = self.live; r.lazy = self.lazy
        return r
class Arr:
    kind = "a"
    __slots__ = ("name", "es", "n", "f", "ek", "live", "ro")
    def __init__(self, name, es, n, f, ek):
        self.name, self.es, self.n, self.f, self.ek, self.live = name, es, n, f, ek, True
        self.ro = False
    def copy(self):
        r = Arr(self.name, self.es, self.n, dict(self.f), self.ek); r.live = self.live; r.ro = self.ro
        return r

# element kind descriptors
def EK(bits): return ("int", bits)
def ek_size(ek):
    if ek[0] == "int": return max(1, ek[1] // 8)
    if ek[0] == "vec": return 24
    if ek[0] == "struct": return ek[1]
    if ek[0] == "opq": return ek[2]
    raise KeyError(ek)
def ek_fields(ek, name, sym=True):
    """fresh contents"""
    if ek[0] == "int": return {0: FArr.sym(name, 1, ek[1])}
    if ek[0] == "struct": return {o: FArr.sym(name + "." + str(o), 1, b) for o, b in ek[2]}
    if ek[0] == "vec":
        inner = ek[1]
        d = {("n", 0): FArr.sym(name + ".n", 1, 64)}
        for s, b in ek_inner(inner): d[("d", s)] = FArr.sym(name + ".d%d" % s, 2, b)
        return d
    if ek[0] == "opq": return {}
    raise KeyError(ek)
def ek_inner(ek):
    if ek[0] == "int": return [(0, ek[1])]
    if ek[0] == "struct": return list(ek[2])
    raise KeyError(ek)
