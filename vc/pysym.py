"""Contract verification of the Python functions of z5py: the real functions (compiled from /repo's source on every run) are executed on symbolic
integers, every feasible path is explored, and on each path the postcondition is an obligation for z3 (Python integers are mathematical: exact)."""
import z3, types, os, sys, time, builtins
class Unsupported(Exception): pass
class Path:
    """one run: decisions taken so far, path condition"""
    def __init__(s, prefix): s.prefix, s.taken, s.pc, s.todo = list(prefix), [], [], []
CUR = None
STAT = dict(queries=0, time=0.0, paths=0)
def _sat(fs, timeout=20000):
    s = z3.Solver(); s.set("timeout", timeout); s.add(*fs); t = time.time(); r = s.check(); STAT["queries"] += 1; STAT["time"] += time.time() - t
    return r, (s.model() if r == z3.sat else None)
class SymBool:
    def __init__(s, e): s.e = e
    def __bool__(s):
        e = z3.simplify(s.e)
        if z3.is_true(e): return True
        if z3.is_false(e): return False
        p = CUR; i = len(p.taken)
        if i < len(p.prefix): d = p.prefix[i]
        else:
            t = _sat(p.pc + [e])[0] != z3.unsat; f = _sat(p.pc + [z3.Not(e)])[0] != z3.unsat
            d = t
            if t and f: p.todo.append(p.taken + [False])
        p.taken.append(d); p.pc.append(e if d else z3.Not(e)); return d
    def __eq__(s, o): return SymBool(s.e == _b(o))
    def __and__(s, o): return SymBool(z3.And(s.e, _b(o)))
    def __or__(s, o): return SymBool(z3.Or(s.e, _b(o)))
    __rand__, __ror__ = __and__, __or__
    __hash__ = None
def _b(o):
    if isinstance(o, SymBool): return o.e
    if isinstance(o, bool): return z3.BoolVal(o)
    raise Unsupported("boolean operation with %r" % (o,))
def _i(o):
    if isinstance(o, SymInt): return o.e
    if isinstance(o, builtins.int): return z3.IntVal(builtins.int(o))
    return None
class SymInt(builtins.int):
    def __new__(c, e): x = builtins.int.__new__(c, 0); x.e = e; return x
    def _un(n):
        def f(s, *a): raise Unsupported("operation %s on a symbolic integer" % n)
        return f
    for _n in "__mod__ __rmod__ __floordiv__ __rfloordiv__ __truediv__ __rtruediv__ __divmod__ __pow__ __rpow__ __lshift__ __rshift__ __and__ __or__ __xor__ __invert__ __index__ __hash__ __float__ __round__ __int__".split(): locals()[_n] = _un(_n)
    def _bin(f):
        def g(s, o):
            o = _i(o)
            return NotImplemented if o is None else SymInt(f(s.e, o))
        return g
    def _cmp(f, eq=None):
        def g(s, o):
            o = _i(o)
            if o is None: return NotImplemented
            return SymBool(f(s.e, o))
        return g
    __add__ = _bin(lambda a, b: a + b); __radd__ = _bin(lambda a, b: b + a); __sub__ = _bin(lambda a, b: a - b); __rsub__ = _bin(lambda a, b: b - a); __mul__ = _bin(lambda a, b: a * b); __rmul__ = __mul__
    __lt__ = _cmp(lambda a, b: a < b); __le__ = _cmp(lambda a, b: a <= b); __gt__ = _cmp(lambda a, b: a > b); __ge__ = _cmp(lambda a, b: a >= b); __eq__ = _cmp(lambda a, b: a == b); __ne__ = _cmp(lambda a, b: a != b)
    def __neg__(s): return SymInt(-s.e)
    def __pos__(s): return s
    def __abs__(s): return SymInt(z3.If(s.e < 0, -s.e, s.e))
    def __bool__(s): return bool(SymBool(s.e != 0))
    def __repr__(s): return "<%s>" % s.e
    __str__ = __repr__
    def __format__(s, f): return repr(s)
class _IntMeta(type):
    def __instancecheck__(c, x): return isinstance(x, builtins.int)
    def __subclasscheck__(c, x): return issubclass(x, builtins.int)
class Int(metaclass=_IntMeta):
    """stands for the name int in the module under verification: int(symbolic) is the symbolic integer"""
    def __new__(c, x=0, *a): return x if isinstance(x, SymInt) else builtins.int(x, *a)
def load(path, name="z5py_shape_utils"):
    m = types.ModuleType(name); m.__dict__["int"] = Int
    exec(compile(open(path).read(), path, "exec"), m.__dict__); return m
def explore(run, post, pre=(), limit=20000, deadline=120):
    """run() on every path; post(outcome) -> [(label, formula)] with outcome = ('ret', value) or ('raise', exception)"""
    global CUR
    todo = [[]]; obls = []; t0 = time.time(); npaths = 0
    while todo:
        if npaths >= limit or time.time() - t0 > deadline: raise Unsupported("more than %d paths" % npaths)
        CUR = p = Path(todo.pop()); p.pc = list(pre); npaths += 1; STAT["paths"] += 1
        try: out = ("ret", run())
        except Unsupported: raise
        except Exception as e: out = ("raise", e)
        todo += p.todo
        for label, f in post(out):
            if isinstance(f, bool): f = z3.BoolVal(f)
            r, m = _sat(p.pc + [z3.Not(f)])
            obls.append((label, "proved" if r == z3.unsat else "refuted" if r == z3.sat else "unknown", m))
    return npaths, obls
