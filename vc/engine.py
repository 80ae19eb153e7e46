"""Modular symbolic executor over LLVM IR: the verification-condition generator."""
import re, z3, time, sys
from ir import *
from sym import *
import prover
from prover import Ctx, valid, check, check_linear

class Refuse(Exception):
    """the verifier cannot process this code (undecided, never a violation by itself)"""

class Frame:
    __slots__ = ("fn", "blk", "ip", "loc", "prev", "loops", "allocas", "tag")
    def __init__(self, fn):
        self.fn = fn; self.blk = fn.order[0]; self.ip = 0; self.loc = {}; self.prev = None; self.loops = []; self.allocas = {}; self.tag = None
    def copy(self):
        f = Frame.__new__(Frame)
        f.fn, f.blk, f.ip, f.loc, f.prev = self.fn, self.blk, self.ip, dict(self.loc), self.prev
        f.loops = [dict(l) for l in self.loops]; f.allocas = dict(self.allocas); f.tag = self.tag
        return f
    def cur(self): return self.fn.blocks[self.blk][self.ip]

class St:
    __slots__ = ("mem", "own", "ctx", "frames", "writes", "trace", "ghost", "exc", "status", "ret", "approx", "path", "caught")
    def __init__(self):
        self.mem = {}; self.own = set(); self.ctx = Ctx(); self.frames = []; self.writes = {}; self.trace = []
        self.ghost = {}; self.exc = None; self.status = "run"; self.ret = None; self.approx = []; self.path = []; self.caught = []
    def copy(self):
        s = St.__new__(St)
        s.mem = dict(self.mem); s.own = set(); self.own = set(); s.ctx = self.ctx.copy()
        s.frames = [f.copy() for f in self.frames]; s.writes = dict(self.writes); s.trace = list(self.trace)
        s.ghost = dict(self.ghost); s.exc = self.exc; s.status = self.status; s.ret = self.ret; s.approx = list(self.approx); s.path = list(self.path)
        s.caught = list(self.caught)
        return s
    def w(self, reg):
        r = self.mem[reg]
        if reg not in self.own:
            r = r.copy(); self.mem[reg] = r; self.own.add(reg)
        return r
    def assume(self, f): self.ctx.add(f)
    @property
    def fr(self): return self.frames[-1]

class Obl:
    __slots__ = ("label", "ctx", "goal", "status", "time", "model", "approx", "where", "st")
    def __init__(self, label, ctx, goal, where, approx):
        self.label, self.ctx, self.goal, self.where, self.approx = label, ctx, goal, where, approx
        self.status = None; self.model = None; self.time = 0; self.st = None

class Outcomes(list):
    pass

M64 = 1 << 64

HIER = {"_ZTISt13runtime_error": "_ZTISt9exception", "_ZTISt11logic_error": "_ZTISt9exception", "_ZTISt12out_of_range": "_ZTISt11logic_error",
        "_ZTISt16invalid_argument": "_ZTISt11logic_error", "_ZTISt12length_error": "_ZTISt11logic_error", "_ZTISt12domain_error": "_ZTISt11logic_error",
        "_ZTISt9bad_alloc": "_ZTISt9exception", "_ZTISt14overflow_error": "_ZTISt13runtime_error", "_ZTISt11range_error": "_ZTISt13runtime_error",
        "_ZTINSt10filesystem7__cxx1116filesystem_errorE": "_ZTISt12system_error", "_ZTISt12system_error": "_ZTISt13runtime_error",
        "_ZTISt17bad_function_call": "_ZTISt9exception", "_ZTISt8bad_cast": "_ZTISt9exception", "_ZTISt18bad_variant_access": "_ZTISt9exception"}
def is_sub(t, base):
    while t:
        if t == base: return True
        if t not in HIER and ("detail" in t and "nlohmann" in t): t = "_ZTISt9exception"; continue
        t = HIER.get(t)
    return False

class Executor:
    def __init__(self, mod, models, contracts=None, opts=None):
        self.mod = mod; self.models = models; self.contracts = contracts or []
        self.opts = opts or {}
        self.obls = []; self.mute = 0; self.light = 0
        self.nextreg = 1
        self.globreg = {}
        self.under = None                 # name of function under verification (never replaced by its contract)
        self.cands = []                   # candidate-invariant providers: f(ex, cutinfo) -> list of (label, fn(st)->Bool or Forall-list)
        self.force_cut = None
        self.stats = {"paths": 0, "cuts": 0, "insts": 0}
        self.inlined = set(); self.used_contracts = set(); self.used_models = set(); self.havocked = set()
        self.deadline = None
        self.tid = {}
        self.cutmemo = {}
        self.inv_report = []

    # ------------------------------------------------------------ regions
    def newreg(self, st, obj):
        r = self.nextreg; self.nextreg += 1
        st.mem[r] = obj; st.own.add(r)
        return r
    def new_struct(self, st, name, size=None, ty=None):
        return self.newreg(st, Struct(name, size, ty))
    def new_arr(self, st, name, ek, n, fields=None):
        return self.newreg(st, Arr(name, ek_size(ek), n, fields if fields is not None else ek_fields(ek, name), ek))
    def fresh_int(self, st, name, bits=64):
        v = z3.Int(fresh(name)); st.assume(z3.And(v >= 0, v < z3.IntVal(1 << bits)))
        return v
    def fresh_obj(self, name): return z3.Const(fresh(name), OBJ)
    def fresh_val(self, st, ty, name):
        t = self.mod.resolve(ty)
        if t.k == "int":
            if t.a == 1: return z3.Bool(fresh(name))
            return self.fresh_int(st, name, t.a)
        if t.k in ("float", "double", "x86_fp80"): return z3.Int(fresh(name))
        if t.k == "struct": return tuple(self.fresh_val(st, e, name) for e in t.a)
        if t.k == "array": return tuple(self.fresh_val(st, t.b, name) for _ in range(t.a))
        if t.k == "ptr":
            r = self.new_struct(st, "unk:" + name); return Ptr(r)
        raise Refuse("fresh value of %r" % t)

    # ------------------------------------------------------------ obligations
    def where(self, st):
        if not st.frames: return ""
        f = st.fr; ln = f.cur().line if f.blk in f.fn.blocks and f.ip < len(f.fn.blocks[f.blk]) else 0
        return "%s:%d" % (self.mod.dem(f.fn.name)[:90], ln)
    def oblige(self, st, label, goal):
        if goal is True: return
        g = goal
        if isz(g):
            s = z3.simplify(g)
            if z3.is_true(s): return
        else: g = z3.BoolVal(False)
        if self.mute == 0:
            self.obls.append(Obl(label, st.ctx.copy(), g, self.where(st), list(st.approx)))
        st.assume(g)

    # ------------------------------------------------------------ integer helpers
    def known(self, st, c, timeout=1500):
        """is c valid under the path condition (quick)"""
        if c is True or c is False: return c
        s = z3.simplify(c)
        if z3.is_true(s): return True
        if z3.is_false(s): return False
        return valid(st.ctx, s, timeout, lin=self.opts.get("linear"))
    def feasible(self, st, c):
        if c is True: return True
        if c is False: return False
        s = z3.simplify(c)
        if z3.is_true(s): return True
        if z3.is_false(s): return False
        if self.opts.get("linear"): return check_linear(st.ctx, [s], 1500) != "unsat"
        return check(st.ctx, [s], 1500)[0] != "unsat"
    def wrap(self, st, v, bits):
        """v: exact integer in (-2^b, 2^2b) -> canonical"""
        M = 1 << bits
        if not isz(v): return v % M
        v = simp(v)
        if not isz(v): return v % M
        if self.known(st, AND(v >= 0, v < M)): return v
        return v % M
    def to_signed(self, st, v, bits):
        M = 1 << bits; H = M >> 1
        if not isz(v): return v - M if v >= H else v
        if self.known(st, v < H): return v
        if self.known(st, v >= H): return v - M
        return z3.If(v < H, v, v - M)
    def from_signed(self, st, v, bits):
        """exact v in [-2^(b-1), 2^(b-1)) to canonical"""
        M = 1 << bits
        if not isz(v): return v % M
        if self.known(st, v >= 0): return v
        if self.known(st, v < 0): return simp(v + M)
        return z3.If(v >= 0, v, v + M)
    def boolint(self, b):
        if isinstance(b, bool): return int(b)
        return z3.If(b, z3.IntVal(1), z3.IntVal(0))
    def asbool(self, v):
        if isinstance(v, bool): return v
        if isz(v) and z3.is_bool(v): return v
        if not isz(v): return v != 0
        if z3.is_app_of(v, z3.Z3_OP_ITE):
            c, a, b = v.children()
            if z3.is_int_value(a) and z3.is_int_value(b) and a.as_long() == 1 and b.as_long() == 0: return c
        return pyval(z3.simplify(v % 2 == 1)) if False else (v % 2 == 1)

    def binop(self, st, op, a, b, bits, ins):
        if bits == 1:
            a, b = self.asbool(a), self.asbool(b)
            if op == "and": return AND(a, b)
            if op == "or": return OR(a, b)
            if op == "xor":
                if b is True: return NOT(a)
                if b is False: return a
                if a is True: return NOT(b)
                if a is False: return b
                return z3.Xor(a, b)
            raise Refuse("i1 " + op)
        if isinstance(a, PInt) or isinstance(b, PInt):
            if op == "sub" and isinstance(a, PInt) and isinstance(b, PInt):
                return self.wrap(st, self.ptrdiff(st, a.p, b.p), bits)
            raise Refuse("arithmetic on pointer integer")
        if not isinstance(a, int) and not isz(a) or not isinstance(b, int) and not isz(b):
            raise Refuse("binop on %r %r" % (a, b))
        sym = isz(a) or isz(b)
        M = 1 << bits
        if op == "add":
            # adding a negative constant
            if isinstance(b, int) and b >= M // 2 and isz(a):
                if self.known(st, a >= M - b): return simp(a - (M - b))
            return self.wrap(st, simp(ival(a) + ival(b)) if sym else a + b, bits)
        if op == "sub":
            if sym and isinstance(b, int) and b >= M // 2:      # x - (-c)
                v = simp(ival(a) + (M - b))
                return self.wrap(st, v, bits)
            return self.wrap(st, simp(ival(a) - ival(b)) if sym else a - b, bits)
        if op == "mul": return self.wrap(st, simp(ival(a) * ival(b)) if sym else a * b, bits)
        if op in ("udiv", "urem"):
            self.oblige(st, "division by zero", NOT(EQ(b, 0)) if isz(b) else b != 0)
            return simp(udiv(a, b)) if op == "udiv" else simp(umod(a, b))
        if op in ("sdiv", "srem"):
            self.oblige(st, "division by zero", NOT(EQ(b, 0)) if isz(b) else b != 0)
            sa, sb = self.to_signed(st, a, bits), self.to_signed(st, b, bits)
            if not isz(sa) and not isz(sb):
                q = abs(sa) // abs(sb); q = q if (sa < 0) == (sb < 0) else -q
                return (q if op == "sdiv" else sa - q * sb) % M
            if self.known(st, AND(GE(sa, 0), GT(sb, 0))):
                return simp(udiv(sa, sb)) if op == "sdiv" else simp(umod(sa, sb))
            raise Refuse("signed division of possibly negative values")
        if op == "shl":
            if isz(b):
                if not isz(a) and bits <= 64 and self.known(st, LT(b, bits)):
                    r = 0
                    for k in range(bits): r = z3.If(b == k, z3.IntVal((a << k) % M), ival(r))
                    return r
                raise Refuse("symbolic shift")
            return self.wrap(st, simp(ival(a) * (1 << b)) if sym else a << b, bits)
        if op == "lshr":
            if isz(b): raise Refuse("symbolic shift")
            return simp(ival(a) / (1 << b)) if sym else a >> b
        if op == "ashr":
            if isz(b): raise Refuse("symbolic shift")
            sa = self.to_signed(st, a, bits)
            if not isz(sa): return (sa >> b) % M
            return self.from_signed(st, sa / (1 << b), bits)
        if op == "and":
            if isinstance(a, int): a, b = b, a
            if not isz(a) and not isz(b): return a & b
            if isinstance(b, int):
                if b == 0: return 0
                if (b & (b + 1)) == 0: return simp(a % (b + 1))
                # contiguous mask
                lo = (b & -b).bit_length() - 1; w = b >> lo
                if (w & (w + 1)) == 0: return simp(((a / (1 << lo)) % (w + 1)) * (1 << lo))
            return self.bitop(st, op, a, b, bits)
        if op in ("or", "xor"):
            if not isz(a) and not isz(b): return a | b if op == "or" else a ^ b
            if isinstance(b, int) and b == 0: return a
            if isinstance(a, int) and a == 0: return b
            if op == "xor" and isinstance(b, int) and b == M - 1: return simp(M - 1 - a)
            if op == "or": 
                r = self.disjoint_or(st, a, b)
                if r is not None: return r
            return self.bitop(st, op, a, b, bits)
        raise Refuse("binop " + op)
    def disjoint_or(self, st, a, b):
        """a | b where one operand is a multiple of 2^k and the other < 2^k"""
        for k in (8, 16, 24, 32, 40, 48, 56, 1, 2, 4):
            for x, y in ((a, b), (b, a)):
                c = AND(LT(y, 1 << k), EQ(umod(x, 1 << k), 0))
                if c is True or (isz(c) and self.known(st, c, 500)): return simp(ival(x) + ival(y))
        return None
    def bitop(self, st, op, a, b, bits):
        if op == "xor":          # exclusive or as a function symbol, bounded
            r = BXOR(ival(a), ival(b))
            st.assume(z3.And(r >= 0, r < (1 << bits)))
            return r
        A, B = z3.Int2BV(ival(a), bits), z3.Int2BV(ival(b), bits)
        r = {"and": A & B, "or": A | B, "xor": A ^ B}[op]
        v = self.fresh_int(st, op, bits)
        if op == "and": st.assume(z3.And(v <= ival(a), v <= ival(b)))
        if op == "or": st.assume(z3.And(v >= ival(a), v >= ival(b), v <= ival(a) + ival(b)))
        st.assume(v == z3.BV2Int(r))
        return v
    def icmp(self, st, pr, a, b, ty):
        if isinstance(a, bool) or (isz(a) and z3.is_bool(a)) : a = self.boolint(a)
        if isinstance(b, bool) or (isz(b) and z3.is_bool(b)) : b = self.boolint(b)
        if isinstance(a, PInt): a = a.p
        if isinstance(b, PInt): b = b.p
        if isinstance(a, (Ptr, FnPtr)) or isinstance(b, (Ptr, FnPtr)):
            return self.ptrcmp(st, pr, a, b)
        if pr == "eq": return simpb(EQ(a, b))
        if pr == "ne": return simpb(NOT(EQ(a, b)))
        bits = ty.a
        if pr[0] == "s": a, b = self.to_signed(st, a, bits), self.to_signed(st, b, bits)
        o = pr[1:]
        return simpb({"lt": LT, "le": LE, "gt": GT, "ge": GE}[o](a, b))
    def byteoff(self, st, p):
        r = st.mem.get(p.reg)
        if self.is_arr(st, p):
            es = self.arr_es(st, p)
            return ival(p.idx) * es + p.sub if isz(p.idx) else p.idx * es + p.sub
        return p.idx
    def ptrdiff(self, st, p, q):
        if p.reg != q.reg: raise Refuse("difference of unrelated pointers")
        a, b = self.byteoff(st, p), self.byteoff(st, q)
        return simp(ival(a) - ival(b)) if isz(a) or isz(b) else a - b
    def ptrcmp(self, st, pr, a, b):
        if isinstance(a, FnPtr) or isinstance(b, FnPtr):
            eq = isinstance(a, FnPtr) and isinstance(b, FnPtr) and a.name == b.name
            return eq if pr == "eq" else not eq
        if not isinstance(a, Ptr) or not isinstance(b, Ptr): raise Refuse("pointer compare %r %r" % (a, b))
        if a.reg != b.reg:
            mn = lambda p: self.maybe_null(st, p)
            na, nb = (a.reg == 0), (b.reg == 0)
            if na or nb:
                o = b if na else a
                m = mn(o)
                if m is not None: return m if pr == "eq" else NOT(m)
            if pr == "eq": return False
            if pr == "ne": return True
            raise Refuse("order of unrelated pointers")
        if a.reg == 0: return pr in ("eq", "ule", "uge")
        x, y = self.byteoff(st, a), self.byteoff(st, b)
        d = {"eq": EQ, "ne": lambda p, q: NOT(EQ(p, q)), "ult": LT, "ule": LE, "ugt": GT, "uge": GE, "slt": LT, "sgt": GT, "sle": LE, "sge": GE}[pr]
        return simpb(d(x, y))
    def maybe_null(self, st, p):
        return st.ghost.get(("null", p.reg))

    # ------------------------------------------------------------ arrays (including elements of nested vectors)
    def is_arr(self, st, p):
        return isinstance(p.reg, tuple) or (p.reg in st.mem and st.mem[p.reg].kind == "a")
    def arr_es(self, st, p):
        if isinstance(p.reg, tuple):
            o = st.mem[p.reg[1]]; return ek_size(o.ek[1])
        return st.mem[p.reg].es
    def arr_ek(self, st, p):
        if isinstance(p.reg, tuple): return st.mem[p.reg[1]].ek[1]
        return st.mem[p.reg].ek
    def arr_len(self, st, p):
        if isinstance(p.reg, tuple):
            o = st.mem[p.reg[1]]; return o.f[("n", 0)](p.reg[2])
        return st.mem[p.reg].n
    def arr_sel(self, st, p, i, sub):
        """element field read (no bounds obligation)"""
        if isinstance(p.reg, tuple):
            o = st.mem[p.reg[1]]; return o.f[("d", sub)](p.reg[2], i)
        return st.mem[p.reg].f[sub](i)
    def arr_fn(self, st, p, sub=0):
        """content as a function of the element index, relative to the region start"""
        if isinstance(p.reg, tuple):
            o = st.mem[p.reg[1]]; row = p.reg[2]; f = o.f[("d", sub)]
            return lambda i: f(row, i)
        return st.mem[p.reg].f[sub]
    def arr_fields(self, st, p):
        ek = self.arr_ek(st, p)
        if ek[0] == "int": return [(0, ek[1])]
        if ek[0] == "struct": return list(ek[2])
        raise Refuse("fields of " + repr(ek))
    def arr_set(self, st, p, sub, fa):
        """replace the whole content function of a field"""
        if isinstance(p.reg, tuple):
            o = st.w(p.reg[1]); row = p.reg[2]; f = o.f[("d", sub)]
            o.f[("d", sub)] = f.where(lambda i, j: EQ(i, row), lambda i, j: fa(j))
            self.wrote(st, ("a", p.reg[1], ("d", sub)))
        else:
            o = st.w(p.reg); o.f[sub] = fa if isinstance(fa, FArr) else FArr(fa)
            self.wrote(st, ("a", p.reg, sub))
    def arr_store(self, st, p, i, sub, v):
        if isinstance(p.reg, tuple):
            o = st.w(p.reg[1]); o.f[("d", sub)] = o.f[("d", sub)].store((p.reg[2], i), v)
            self.wrote(st, ("a", p.reg[1], ("d", sub)))
        else:
            o = st.w(p.reg); o.f[sub] = o.f[sub].store((i,), v)
            self.wrote(st, ("a", p.reg, sub))
        if isinstance(p.reg, int) and st.mem[p.reg].ro: self.oblige(st, "write to read-only memory " + st.mem[p.reg].name, False)
    def wrote(self, st, key, val=None):
        st.writes.setdefault(key, [])
        if val is not None:
            l = list(st.writes[key])
            if not any(v is val for v in l): l.append(val)
            st.writes[key] = l
    def bounds(self, st, p, i, what, n=1):
        L = self.arr_len(st, p)
        self.oblige(st, "%s within bounds" % what, AND(LE(0, i), LE(ival(i) + n if isz(i) or isz(n) else i + n, L)))

    # ------------------------------------------------------------ load / store
    def load(self, st, p, ty, what="read"):
        t = self.mod.resolve(ty)
        if t.k == "struct":
            out = []
            for j in range(len(t.a)):
                o, e = self.mod.field_off(t, j)
                out.append(self.load(st, self.gepb(st, p, o), e, what))
            return tuple(out)
        if t.k == "array":
            es = self.mod.size(t.b)
            return tuple(self.load(st, self.gepb(st, p, j * es), t.b, what) for j in range(t.a))
        if not isinstance(p, Ptr): raise Refuse("load through %r" % (p,))
        if p.reg == 0:
            self.oblige(st, "null dereference", False); return self.fresh_val(st, ty, "nul")
        if self.is_arr(st, p):
            return self.load_arr(st, p, t, what)
        r = st.mem[p.reg]
        if not r.live: self.oblige(st, "use after free", False)
        off = p.idx
        if isz(off): off = simp(off)
        if isz(off): raise Refuse("symbolic offset into object " + r.name)
        sz = self.mod.size(t)
        c = r.cells.get(off)
        if c is not None and c[0] == sz:
            return self.convload(st, c[1], t, p, off)
        if c is None or c[0] != sz:
            # overlapping cells?
            ov = [(o, s, v) for o, (s, v) in r.cells.items() if o < off + sz and off < o + s]
            if not ov:
                if r.lazy is not None:
                    v = r.lazy(self, st, p.reg, off, t)
                    if v is not None: return v
                v = self.fresh_val(st, t, "%s+%d" % (r.name, off))
                st.w(p.reg).cells[off] = (sz, v)
                return v
            bs = []
            for k in range(sz):
                bs.append(self.cell_byte(st, p.reg, off + k))
            return self.frombytes(bs, t)
    def convload(self, st, v, t, p=None, off=None):
        if t.k == "int":
            if t.a == 1: return self.asbool(v)
            if isinstance(v, bool) or (isz(v) and z3.is_bool(v)): return self.boolint(v)
            if isinstance(v, Ptr) and v.reg == 0: return 0
            if isinstance(v, (Ptr,)): return PInt(v)
            if isinstance(v, (VecVal, Opq)): raise Refuse("raw integer read of a library object")
        if t.k == "ptr":
            if isinstance(v, PInt): return v.p
            if v == 0 and not isz(v): return NULL
            if isinstance(v, (VecVal, Opq)): raise Refuse("raw pointer read of a library object")
            if not isinstance(v, (Ptr, FnPtr)) and not (isinstance(v, tuple) and v and v[0] == "vslot"): raise Refuse("pointer read of %r" % (v,))
        return v
    def cell_byte(self, st, reg, off):
        r = st.mem[reg]
        for o, (s, v) in r.cells.items():
            if o <= off < o + s:
                if isinstance(v, (int, bool)) or isz(v):
                    if isz(v) and z3.is_bool(v) or isinstance(v, bool): v = self.boolint(v)
                    k = off - o
                    if s == 1: return v
                    return (v >> (8 * k)) & 255 if not isz(v) else simp((v / (1 << (8 * k))) % 256 if k else v % 256)
                raise Refuse("byte of non-integer cell")
        v = self.fresh_int(st, "byte", 8)
        st.w(reg).cells[off] = (1, v)
        return v
    def frombytes(self, bs, t):
        v = 0
        for k, b in enumerate(bs):
            v = v + (ival(b) * (1 << (8 * k)) if isz(b) else b << (8 * k))
        v = simp(v) if isz(v) else v
        if t.k == "int" and t.a == 1: return self.asbool(v)
        return v
    def load_arr(self, st, p, t, what):
        sz = self.mod.size(t); es = self.arr_es(st, p); ek = self.arr_ek(st, p)
        if ek[0] == "int" and es == sz and p.sub == 0:
            self.bounds(st, p, p.idx, what)
            v = self.arr_sel(st, p, p.idx, 0)
            if self.opts.get("iteload"): v = self.resolve_ite(st, v)
            return v
        if ek[0] == "int" and es == 1:
            self.bounds(st, p, p.idx, what, sz)
            bs = [self.arr_sel(st, p, simp(ival(p.idx) + k) if isz(p.idx) else p.idx + k, 0) for k in range(sz)]
            return self.frombytes(bs, t)
        if ek[0] == "int" and sz < es:
            self.bounds(st, p, p.idx, what)
            v = self.arr_sel(st, p, p.idx, 0); k = p.sub
            return simp((ival(v) / (1 << (8 * k))) % (1 << (8 * sz)))
        if ek[0] == "struct":
            self.bounds(st, p, p.idx, what)
            if any(o == p.sub and b == 8 * sz for o, b in ek[2]): return self.arr_sel(st, p, p.idx, p.sub)
        raise Refuse("load %r from array of %r at sub %r" % (t, ek, p.sub))
    def resolve_ite(self, st, v):
        while isz(v) and z3.is_app_of(v, z3.Z3_OP_ITE):
            c, a, b = v.children()
            if self.known(st, c): v = a
            elif self.known(st, NOT(c)): v = b
            else: break
        return v
    def store(self, st, p, ty, v, what="write"):
        t = self.mod.resolve(ty)
        if t.k == "struct":
            for j in range(len(t.a)):
                o, e = self.mod.field_off(t, j)
                self.store(st, self.gepb(st, p, o), e, v[j], what)
            return
        if t.k == "array":
            es = self.mod.size(t.b)
            for j in range(t.a): self.store(st, self.gepb(st, p, j * es), t.b, v[j], what)
            return
        if not isinstance(p, Ptr): raise Refuse("store through %r" % (p,))
        if p.reg == 0:
            self.oblige(st, "null dereference", False); return
        if isinstance(v, bool) or (isz(v) and z3.is_bool(v)):
            pass
        if self.is_arr(st, p):
            sz = self.mod.size(t); es = self.arr_es(st, p); ek = self.arr_ek(st, p)
            if isinstance(v, bool) or (isz(v) and z3.is_bool(v)): v = self.boolint(v)
            if isinstance(v, (Ptr, PInt, FnPtr, VecVal, Opq)): raise Refuse("pointer stored into scalar array")
            if ek[0] == "int" and es == sz and p.sub == 0:
                self.bounds(st, p, p.idx, what); self.arr_store(st, p, p.idx, 0, v); return
            if ek[0] == "int" and es == 1:
                self.bounds(st, p, p.idx, what, sz)
                for k in range(sz):
                    b = (v >> (8 * k)) & 255 if not isz(v) else LBYTE(st, v, k) if self.opts.get("opaquebytes") and sz > 1 else simp((v / (1 << (8 * k))) % 256)
                    self.arr_store(st, p, simp(ival(p.idx) + k) if isz(p.idx) else p.idx + k, 0, b)
                return
            if ek[0] == "int" and sz < es:
                self.bounds(st, p, p.idx, what)
                old = self.arr_sel(st, p, p.idx, 0); k = p.sub
                B = 1 << (8 * k); S = 1 << (8 * sz)
                nv = simp(ival(old) % B + ival(v) * B + (ival(old) / (B * S)) * (B * S))
                self.arr_store(st, p, p.idx, 0, nv); return
            if ek[0] == "struct" and any(o == p.sub and b == 8 * sz for o, b in ek[2]):
                self.bounds(st, p, p.idx, what); self.arr_store(st, p, p.idx, p.sub, v); return
            raise Refuse("store %r into array of %r" % (t, ek))
        off = p.idx
        if isz(off): off = simp(off)
        if isz(off): raise Refuse("symbolic offset into object " + st.mem[p.reg].name)
        r = st.w(p.reg)
        if not r.live: self.oblige(st, "use after free", False)
        self.setcell(st, p.reg, off, self.mod.size(t), v)
    def setcell(self, st, reg, off, sz, v):
        r = st.w(reg)
        for o in [o for o, (s, _) in r.cells.items() if o < off + sz and off < o + s and not (o == off and s == sz)]:
            s, ov = r.cells[o]
            if isinstance(ov, (int,)) or isz(ov):
                keep = [(k, self.cell_byte(st, reg, k)) for k in range(o, o + s) if not (off <= k < off + sz)]
                del r.cells[o]
                for k, b in keep: r.cells[k] = (1, b)
            else:
                del r.cells[o]
        r.cells[off] = (sz, v)
        self.wrote(st, ("c", reg, off, sz), v)

    # ------------------------------------------------------------ GEP
    def gepb(self, st, p, nbytes):
        """advance by nbytes (int or term)"""
        if not isz(nbytes) and nbytes == 0: return p
        if not isinstance(p, Ptr): raise Refuse("gep on %r" % (p,))
        if p.reg == 0: return Ptr(0, 0, 0) if False else Ptr(0, nbytes)
        if self.is_arr(st, p):
            es = self.arr_es(st, p)
            if es == 1:
                return Ptr(p.reg, simp(ival(p.idx) + nbytes) if isz(p.idx) or isz(nbytes) else p.idx + nbytes, 0)
            if not isz(nbytes):
                tot = p.sub + nbytes; q, s = divmod(tot, es)
                return Ptr(p.reg, simp(ival(p.idx) + q) if isz(p.idx) else p.idx + q, s)
            raise Refuse("symbolic byte offset into array of wider elements")
        off = simp(ival(p.idx) + nbytes) if isz(p.idx) or isz(nbytes) else p.idx + nbytes
        return Ptr(p.reg, off)
    def gep(self, st, bt, p, idx):
        """idx: list of (ty, signed value)"""
        if isinstance(p, FnPtr): raise Refuse("gep on function")
        ty = bt
        for j, (v,) in enumerate(idx):
            if j == 0: sz = self.mod.size(ty); p = self.gepn(st, p, v, sz); continue
            t = self.mod.resolve(ty)
            if t.k == "struct":
                o, ty = self.mod.field_off(t, v); p = self.gepb(st, p, o)
            elif t.k == "array":
                ty = t.b; p = self.gepn(st, p, v, self.mod.size(ty))
            else: raise Refuse("gep into %r" % t)
        return p
    def gepn(self, st, p, n, sz):
        if not isz(n): return self.gepb(st, p, n * sz)
        if p.reg == 0: raise Refuse("gep on null")
        if self.is_arr(st, p):
            es = self.arr_es(st, p)
            if sz % es == 0:
                return Ptr(p.reg, simp(ival(p.idx) + n * (sz // es)), p.sub)
            if es % sz == 0:   # bytes of wider elements: only if n is concrete
                raise Refuse("symbolic byte index into wider elements")
        return self.gepb(st, p, simp(n * sz))

    # ------------------------------------------------------------ operands
    def val(self, st, ty, v):
        k = v[0]
        if k == "loc":
            l = st.fr.loc
            if v[1] not in l: raise Refuse("undefined local " + v[1])
            return l[v[1]]
        if k == "int": return (bool(v[1]) if v[2] == 1 else v[1])
        if k == "null": return NULL
        if k == "glob": return self.globptr(st, v[1])
        if k == "undef":
            return self.fresh_val(st, ty, "undef") if ty.k != "ptr" else NULL
        if k == "zero": return self.zeroval(ty)
        if k == "fp":
            return fpconst(v[1])
        if k == "cgep":
            p = self.val(st, PTR, v[2][1]); return self.gep(st, v[1], p, [(self.sidx(st, t, x),) for t, x in v[3]])
        if k == "ccast":
            x = self.val(st, v[2][0], v[2][1])
            if v[1] in ("bitcast", "addrspacecast"): return x
            if v[1] == "ptrtoint": return PInt(x)
            if v[1] == "inttoptr" and isinstance(x, int): return NULL if x == 0 else Ptr(-x)
        if k == "agg": return tuple(self.val(st, t, x) for t, x in v[2])
        raise Refuse("operand %r" % (v,))
    def zeroval(self, ty):
        t = self.mod.resolve(ty)
        if t.k == "int": return False if t.a == 1 else 0
        if t.k in ("float", "double"): return 0
        if t.k == "ptr": return NULL
        if t.k == "struct": return tuple(self.zeroval(e) for e in t.a)
        if t.k == "array": return tuple(self.zeroval(t.b) for _ in range(t.a))
        raise Refuse("zero of %r" % t)
    def sidx(self, st, ty, x):
        v = self.val(st, ty, x)
        if ty.k == "int" and (isinstance(v, int) or isz(v)): return self.to_signed(st, v, ty.a)
        return v
    def globptr(self, st, name):
        if name in self.mod.defs or name in self.mod.decls: return FnPtr(name)
        r = self.globreg.get(name)
        if r is None:
            r = self.nextreg; self.nextreg += 1; self.globreg[name] = r
        if r not in st.mem:
            st.mem[r] = self.make_glob(st, name)
        return Ptr(r)
    def make_glob(self, st, name):
        src = self.mod.globs.get(name, "")
        m = re.search(r'constant (\[\d+ x i8\]) (c"(?:[^"\\]|\\.)*"|zeroinitializer)', src)
        if m:
            s = Struct("glob:" + name); raw = m.group(2)
            if raw.startswith("c"): data = cstring(raw[2:-1])
            else: data = b"\0"
            s.lazy = None; s.ty = ("cstr", data)
            for i, b in enumerate(data): s.cells[i] = (1, b)
            return s
        if name.startswith("_ZTV"):
            m = re.search(r"constant \{[^{}]*\} \{ \[\d+ x ptr\] \[([^\]]*)\]", src)
            if m:
                s = Struct("glob:" + name)
                for i, e in enumerate(m.group(1).split(", ")):
                    e = e.split(" ")[-1]
                    s.cells[8 * i] = (8, FnPtr(e.strip('@"')) if e.startswith("@") and e[1:].strip('"') not in self.mod.globs else NULL)
                return s
        m = re.search(r"constant (?:%\S+ \{ )?(\[(\d+) x i(\d+)\]) (\[[^\]]*\])", src)
        if m:
            a = P(self.mod, tokenize(m.group(1) + " " + m.group(4)))
            t, v = a.typed(); bits = t.b.a
            vals = [x[1][1] % (1 << bits) for x in v[2]]
            return self.const_arr("glob:" + name, bits, vals)
        m = re.search(r"(?:constant|global) (i\d+|double|float) (-?[\w.+]+)", src)
        s = Struct("glob:" + name)
        if m and re.fullmatch(r"i\d+", m.group(1)) and re.fullmatch(r"-?\d+|true|false", m.group(2)) and "constant" in src:
            b = int(m.group(1)[1:]); x = {"true": 1, "false": 0}.get(m.group(2)); x = int(m.group(2)) if x is None else x
            s.cells[0] = (max(1, b // 8), x % (1 << b))
        return s
    def const_arr(self, name, bits, vals):
        f = const_table(bits, vals)
        def sel(i):
            if not isz(i): return vals[i] if 0 <= i < len(vals) else f(ival(i))
            r = f(i)
            if len(vals) > 64: return r          # uninterpreted beyond its identity (the lemmas about the table are separate)
            for k in range(len(vals) - 1, -1, -1): r = z3.If(i == k, z3.IntVal(vals[k]), r)
            return r
        o = Arr(name, max(1, bits // 8), len(vals), {0: FArr(sel)}, EK(bits)); o.ro = True
        return o

    # ------------------------------------------------------------ main loop
    def run(self, states, cid=None):
        """explore until every state is terminal (returned / thrown / left the cut loop cid / back edge of cid)"""
        out = []
        work = list(states)
        while work:
            if self.deadline and time.time() > self.deadline: raise Refuse("time limit")
            st = work.pop()
            if st.status != "run":
                out.append(st); continue
            if cid is not None and not any(l["id"] == cid for f in st.frames for l in f.loops):
                st.path.append("exit"); out.append(("exit", st)); continue
            try:
                nxt = self.step(st, cid)
            except Unsupported as e:
                raise Refuse("unsupported IR: %s" % e)
            work.extend(reversed(nxt))
        return out

    def step(self, st, cid):
        """execute straight-line code until control may fork or leave a block"""
        while True:
            f = st.fr
            ins = f.fn.blocks[f.blk][f.ip]
            self.stats["insts"] += 1
            op = ins.op
            h = getattr(self, "i_" + op, None)
            if h is None: raise Refuse("instruction " + op)
            r = h(st, ins, f)
            if r is None:
                f.ip += 1
                continue
            return r

    # --- simple instructions
    def i_alloca(self, st, ins, f):
        n = 1
        if ins.x is not None:
            n = self.val(st, *ins.x)
        name = "%s/%s" % (short_fn(self.mod.dem(f.fn.name)), ins.dst)
        r = self.new_struct(st, name, None, ins.ty)
        t = self.mod.resolve(ins.ty)
        if t.k == "array" and t.a > 64 and t.b.k == "int":
            st.mem[r] = Arr(name, self.mod.size(t.b), t.a, ek_fields(EK(t.b.a), name), EK(t.b.a))
        f.loc[ins.dst] = Ptr(r); f.allocas[ins.dst] = r
    def i_load(self, st, ins, f):
        p = self.val(st, *ins.args[0])
        f.loc[ins.dst] = self.load(st, p, ins.ty)
    def i_store(self, st, ins, f):
        (ty, v), pv = ins.args
        val = self.val(st, ty, v); p = self.val(st, *pv)
        self.store(st, p, ty, val)
    def i_getelementptr(self, st, ins, f):
        p = self.val(st, *ins.args[0])
        f.loc[ins.dst] = self.gep(st, ins.ty, p, [(self.sidx(st, t, x),) for t, x in ins.args[1:]])
    def _bin(self, st, ins, f):
        a = self.val(st, ins.ty, ins.args[0]); b = self.val(st, ins.ty, ins.args[1])
        if ins.ty.k != "int": raise Refuse("vector op")
        f.loc[ins.dst] = self.binop(st, ins.op, a, b, ins.ty.a, ins)
    i_add = i_sub = i_mul = i_udiv = i_sdiv = i_urem = i_srem = i_and = i_or = i_xor = i_shl = i_lshr = i_ashr = _bin
    def _fbin(self, st, ins, f):
        a = self.val(st, ins.ty, ins.args[0]); b = self.val(st, ins.ty, ins.args[1])
        g = z3.Function(ins.op, z3.IntSort(), z3.IntSort(), z3.IntSort())
        f.loc[ins.dst] = g(ival(a), ival(b))
    i_fadd = i_fsub = i_fmul = i_fdiv = _fbin
    def i_fneg(self, st, ins, f):
        f.loc[ins.dst] = z3.Function("fneg", z3.IntSort(), z3.IntSort())(ival(self.val(st, ins.ty, ins.args[0])))
    def i_icmp(self, st, ins, f):
        a = self.val(st, ins.ty, ins.args[0]); b = self.val(st, ins.ty, ins.args[1])
        f.loc[ins.dst] = self.icmp(st, ins.x, a, b, ins.ty)
    def i_fcmp(self, st, ins, f):
        a = self.val(st, ins.ty, ins.args[0]); b = self.val(st, ins.ty, ins.args[1])
        g = z3.Function("fcmp_" + ins.x, z3.IntSort(), z3.IntSort(), z3.BoolSort())
        f.loc[ins.dst] = g(ival(a), ival(b))
    def _cast(self, st, ins, f):
        sty, sv = ins.args[0]; v = self.val(st, sty, sv); t = ins.ty; op = ins.op
        if op == "trunc":
            if isinstance(v, PInt): raise Refuse("trunc of pointer")
            if t.a == 1: r = self.asbool(v)
            elif not isz(v): r = v % (1 << t.a)
            else: r = self.wrap(st, v, t.a)
        elif op == "zext":
            r = self.boolint(v) if sty.a == 1 else v
        elif op == "sext":
            if sty.a == 1: r = ITE(v, (1 << t.a) - 1, 0)
            else: r = self.from_signed(st, self.to_signed(st, v, sty.a), t.a)
        elif op == "bitcast":
            r = v
        elif op == "ptrtoint": r = PInt(v) if not (isinstance(v, Ptr) and v.reg == 0) else 0
        elif op == "inttoptr": r = v.p if isinstance(v, PInt) else (NULL if v == 0 else Ptr(0, v))
        else:
            # float conversions: uninterpreted, exact on nothing
            if sty.k == "int" and (isinstance(v, bool) or z3.is_bool(v) if isz(v) else isinstance(v, bool)): v = self.boolint(v)
            g = z3.Function("%s_%r_%r" % (op, sty, t), z3.IntSort(), z3.IntSort())
            r = g(ival(v))
            if t.k == "int": st.assume(z3.And(r >= 0, r < (1 << t.a)))
        f.loc[ins.dst] = r
    i_trunc = i_zext = i_sext = i_bitcast = i_ptrtoint = i_inttoptr = i_uitofp = i_sitofp = i_fptoui = i_fptosi = i_fpext = i_fptrunc = _cast
    def i_select(self, st, ins, f):
        c = self.asbool(self.val(st, *ins.args[0])); a = self.val(st, *ins.args[1]); b = self.val(st, *ins.args[2])
        if isinstance(c, bool): f.loc[ins.dst] = a if c else b; return
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.reg == b.reg and a.sub == b.sub:
                f.loc[ins.dst] = Ptr(a.reg, ITE(c, a.idx, b.idx), a.sub); return
            res = []
            for cond, v in ((c, a), (NOT(c), b)):
                if self.feasible(st, cond):
                    s = st.copy(); s.assume(cond); s.fr.loc[ins.dst] = v; s.fr.ip += 1; res.append(s)
            return res
        f.loc[ins.dst] = ITE(c, a, b)
    def i_freeze(self, st, ins, f):
        f.loc[ins.dst] = self.val(st, *ins.args[0])
    def i_extractvalue(self, st, ins, f):
        v = self.val(st, *ins.args[0])
        for i in ins.x: v = v[i]
        f.loc[ins.dst] = v
    def i_insertvalue(self, st, ins, f):
        v = self.val(st, *ins.args[0]); w = self.val(st, *ins.args[1])
        def ins_(v, ix):
            l = list(v)
            l[ix[0]] = w if len(ix) == 1 else ins_(l[ix[0]], ix[1:])
            return tuple(l)
        if not isinstance(v, tuple): v = (NULL, 0)
        f.loc[ins.dst] = ins_(v, ins.x)
    def i_phi(self, st, ins, f):
        blk = f.fn.blocks[f.blk]; vals = []
        i = f.ip
        while blk[i].op == "phi":
            for v, b in blk[i].x:
                if b == f.prev: vals.append((blk[i].dst, self.val(st, blk[i].ty, v))); break
            else: raise Refuse("phi without incoming edge")
            i += 1
        for d, v in vals: f.loc[d] = v
        f.ip = i - 1
    def i_fence(self, st, ins, f): pass
    def i_unreachable(self, st, ins, f):
        st.status = "unreachable"; return [st]

    # --- control
    def goto(self, st, target):
        """returns list of states; handles loop entry / back edges"""
        f = st.fr; fn = f.fn
        loops = self.mod.loops(fn)
        while f.loops and target not in loops[f.loops[-1]["h"]]:
            f.loops.pop()
        f.prev = f.blk; f.blk = target; f.ip = 0
        if target in loops:
            if f.loops and f.loops[-1]["h"] == target:
                l = f.loops[-1]
                if l["mode"] == "cut":
                    st.status = ("back", l["id"]); return [st]
                l["count"] += 1; l["decided"] = False
                if l["count"] > self.opts.get("unroll", 70): raise Refuse("loop in %s does not terminate within the unrolling limit and has no invariant" % self.mod.dem(fn.name))
            else:
                fc = self.force_cut(self, st, fn, target) if self.force_cut else None
                snap = st.copy()
                f = st.fr
                l = {"id": next(ID), "h": target, "mode": "probe", "count": 0, "snap": snap, "decided": False}
                f.loops.append(l)
                if fc: return self.cut(snap, target)
        return [st]
    def i_br(self, st, ins, f):
        if not ins.args: return self.goto(st, ins.x[0])
        c = self.asbool(self.val(st, *ins.args[0]))
        return self.branch(st, [(c, ins.x[0]), (NOT(c), ins.x[1])], f)
    def i_switch(self, st, ins, f):
        ty, v = ins.args[0]; x = self.val(st, ty, v)
        dflt, cs = ins.x
        if not isz(x):
            for (ct, cv), lab in cs:
                if self.val(st, ct, cv) == x: return self.goto(st, lab)
            return self.goto(st, dflt)
        alts = []; neg = []
        for (ct, cv), lab in cs:
            k = self.val(st, ct, cv); alts.append((x == k, lab)); neg.append(x != k)
        alts.append((AND(neg), dflt))
        return self.branch(st, alts, f)
    def branch(self, st, alts, f):
        """alts: list of (cond, label)"""
        feas = []
        for c, lab in alts:
            c = simpb(c)
            if c is False: continue
            if c is True: feas = [(c, lab)]; break
            feas.append((c, lab))
        symbolic = len(feas) > 1
        l = f.loops[-1] if f.loops else None
        if symbolic and l is not None and l["mode"] == "probe" and not l["decided"] and l["count"] == 0:
            body = self.mod.loops(f.fn)[l["h"]]
            if any(lab not in body and not self.is_eh(f.fn, lab) for _, lab in alts):
                return self.cut(l["snap"], l["h"])
        if symbolic:
            feas = [(c, lab) for c, lab in feas if self.feasible(st, c)]
            if not feas:
                st.status = "infeasible"; return [st]
            if len(feas) == 1:
                st.assume(feas[0][0]); symbolic = False
        if l is not None and l["mode"] == "probe" and not l["decided"]:
            body = self.mod.loops(f.fn)[l["h"]]
            exits = any(lab not in body and not self.is_eh(f.fn, lab) for _, lab in alts)
            if exits:
                if symbolic and l["count"] == 0:
                    return self.cut(l["snap"], l["h"])
                l["decided"] = True
        res = []
        for i, (c, lab) in enumerate(feas):
            s = st if i == len(feas) - 1 else st.copy()
            if symbolic: s.assume(c)
            if len(feas) > 1: s.path.append((f.blk, lab))
            res += self.goto(s, lab)
        if len(res) > 1: self.stats["paths"] += len(res) - 1
        return res
    def is_eh(self, fn, lab):
        b = fn.blocks[lab]
        return b[0].op == "landingpad" or b[-1].op in ("resume", "unreachable")

    # ------------------------------------------------------------ loop cut: invariant inference (Houdini) and preservation
    def havoc_key(self, H, S, key, vals):
        k = key[0]
        if k == "a":
            _, reg, fld = key
            if reg not in H.mem: return
            o = H.w(reg)
            if isinstance(fld, tuple):
                bits = 64
                if fld[0] == "d":
                    bits = dict(ek_inner(o.ek[1]))[fld[1]]; o.f[fld] = FArr.sym("h_" + o.name, 2, bits)
                else: o.f[fld] = FArr.sym("h_" + o.name + ".n", 1, 64)
            else:
                bits = o.ek[1] if o.ek[0] == "int" else dict(o.ek[2])[fld]
                o.f[fld] = FArr.sym("h_" + o.name, 1, bits)
        elif k == "n":
            reg = key[1]
            if reg not in H.mem: return
            o = H.w(reg); o.n = self.fresh_int(H, "hn_" + o.name)
            H.assume(o.n < (1 << 60))
        elif k == "g":
            H.ghost[key[1]] = self.havoc_ghost(H, key[1], H.ghost.get(key[1]))
        else:
            _, reg, off, sz = key
            if reg not in H.mem or not (H.mem[reg].kind == "s"): return
            r = H.w(reg)
            old = r.cells.get(off)
            allv = ([old[1]] if old is not None and old[0] == sz else []) + list(vals)
            samples = [v for v in allv if v is not None]
            if old is not None and old[0] != sz: del r.cells[off]
            for o in [o for o, (s, _) in r.cells.items() if o < off + sz and off < o + s and o != off]: del r.cells[o]
            nm = "h_" + r.name.split("/")[-1]
            if any(isinstance(v, VecVal) for v in samples):
                v0 = [v for v in samples if isinstance(v, VecVal)][0]
                ek = None
                for s_ in (H, S):
                    for v in samples:
                        if isinstance(v, VecVal) and v.reg in s_.mem: ek = s_.mem[v.reg].ek
                if ek is None: ek = self.vec_ek.get(v0.reg)
                n = self.fresh_int(H, "hn"); H.assume(n < (1 << 60))
                nr = self.new_arr(H, nm, ek, n); self.vec_ek[nr] = ek
                r.cells[off] = (sz, VecVal(nr)); return
            ptrs = [v for v in samples if isinstance(v, (Ptr, FnPtr))]
            if ptrs:
                if all(isinstance(v, Ptr) and v.reg == ptrs[0].reg and v.sub == ptrs[0].sub for v in ptrs) and len(ptrs) == len(samples):
                    r.cells[off] = (sz, Ptr(ptrs[0].reg, z3.Int(fresh(nm)) if any(not v.same(ptrs[0]) for v in ptrs) else ptrs[0].idx, ptrs[0].sub))
                    if self.opts.get("cutterms") and isz(r.cells[off][1].idx): H.ctx.term(r.cells[off][1].idx)
                    return
                if all(p.reg not in S.mem for p in ptrs if isinstance(p, Ptr) and p.reg != 0) and not any(isinstance(p, FnPtr) for p in ptrs):
                    r.cells.pop(off, None); return       # iteration-local object
                # pointer temporaries that are always rewritten before use: leave undefined
                r.cells.pop(off, None)
                H.ghost[("undefptr", reg, off)] = True
                return
            if any(isinstance(v, Opq) for v in samples):
                o = [v for v in samples if isinstance(v, Opq)][0]
                r.cells[off] = (sz, Opq(o.kind, self.fresh_obj(nm))); return
            if any((isz(v) and z3.is_bool(v)) or isinstance(v, bool) for v in samples) and all((isz(v) and z3.is_bool(v)) or isinstance(v, bool) for v in samples):
                r.cells[off] = (sz, z3.Bool(fresh(nm))); return
            if isz(samples[0]) and samples[0].sort() == OBJ if samples else False:
                r.cells[off] = (sz, self.fresh_obj(nm)); return
            isflag = samples and sz == 1 and all((isinstance(v, int) and v in (0, 1)) or is_flag(v) for v in samples)
            if isflag:
                r.cells[off] = (sz, z3.If(z3.Bool(fresh(nm)), z3.IntVal(1), z3.IntVal(0))); return
            v = self.fresh_int(H, nm, 8 * sz); r.cells[off] = (sz, v)
            if self.opts.get("cutterms"): H.ctx.term(v)
    vec_ek = {}
    def havoc_ghost(self, H, name, old):
        if isz(old): return z3.Const(fresh("hg"), old.sort())
        if isinstance(old, int): return z3.Int(fresh("hg"))
        if isinstance(old, FArr): return FArr.sym("hg")
        raise Refuse("ghost havoc %s" % (name,))

    def cut(self, S, header):
        """S: state positioned at the loop header (before executing it), loop entry not pushed"""
        self.stats["cuts"] += 1
        fn = S.fr.fn
        key = (fn.name, header, len(S.frames))
        lid = next(ID)
        def mkH(M):
            H = S.copy()
            H.writes = {}; H.path = []
            for k in sorted(M, key=repr): self.havoc_key(H, S, k, M[k])
            H.fr.loops.append({"id": lid, "h": header, "mode": "cut", "count": 0, "snap": None, "decided": True})
            return H
        # 1. modified set
        M = {k: [] for k in self.cutmemo.get((key, "M"), ()) if k[0] == "g" or k[1] in S.mem}
        self.mute += 1; self.light += 1
        try:
            for rnd in range(12):
                H = mkH(M); base = set(H.mem)
                res = self.run([H], lid)
                new = {}
                for r in res:
                    st = r[1] if isinstance(r, tuple) else r
                    for k, v in st.writes.items():
                        if (k[0] == "g") or (k[1] in S.mem):
                            new.setdefault(k, []).extend(v)
                ch = False
                for k, v in new.items():
                    if k not in M: M[k] = list(v); ch = True
                    else:
                        for x in v:
                            if not any(x is y for y in M[k]):
                                loc = lambda q: isinstance(q, Ptr) and isinstance(q.reg, int) and q.reg != 0 and q.reg not in S.mem      # object of one iteration
                                if loc(x) and len([1 for y in M[k] if loc(y)]) >= 2: continue
                                if shape_new(M[k], x): ch = True
                                M[k].append(x)
                if self.opts.get("traceM"): print("   M", rnd, [(k, [str(x)[:40] for x in M[k]]) for k in M], file=sys.stderr)
                if not ch: break
            else: raise Refuse("modified set does not converge")
        finally:
            self.mute -= 1; self.light -= 1
        # 2. candidates
        H = mkH(M)
        cutinfo = CutInfo(self, S, M, fn, header)
        cands = []
        if not self.light:           # inside the search for the modified set no invariants are needed (any over-approximation will do)
            cands = self.default_cands(cutinfo)
            for c in cands: c.quick = True
            for prov in self.cands: cands += prov(self, cutinfo) or []
            dead = self.cutmemo.setdefault((key, tuple(S.path), "dead"), set()) if any(l["mode"] == "cut" for fr in S.frames for l in fr.loops) else set()
            cands = [c for c in cands if c.label not in dead]
        live = []
        for c in cands:
            try: ok = c.entry(self, S)
            except (KeyError, Refuse, IndexError, AttributeError, TypeError): ok = False
            if ok: live.append(c)
            elif not self.light: dead.add(c.label)
        # 3. Houdini
        for rnd in range(25):
            H = mkH(M)
            ok_live = []
            for c in live:
                try: c.assume(self, H); ok_live.append(c)
                except (KeyError, Refuse, IndexError, AttributeError, TypeError): pass
            live = ok_live
            if self.opts.get("trace"): print("  %.0f cut %s %s round %d: %d cands, %d modified" % (time.time() % 10000, short_fn(self.mod.dem(fn.name)), header, rnd, len(live), len(M)), file=sys.stderr)
            saved = self.obls; self.obls = []
            start_terms = None
            res = self.run([H], lid)
            backs = [r for r in res if not isinstance(r, tuple) and isinstance(r.status, tuple) and r.status == ("back", lid)]
            drop = set()
            for b in backs:
                if self.deadline and time.time() > self.deadline: raise Refuse("time limit")
                for c in live:
                    if c in drop: continue
                    try: ok = c.holds(self, b)
                    except (KeyError, Refuse, IndexError, AttributeError, TypeError): ok = False
                    if not ok: drop.add(c)
                    if self.opts.get("tracedrop") and not ok and not c.quick: print("     drop [%s] %s on %s" % (header, c.label.replace(short_fn(self.mod.dem(fn.name)), ""), getattr(b, "path", "")), file=sys.stderr)
            if not drop:
                self.obls = saved + self.obls
                break
            self.obls = saved
            live = [c for c in live if c not in drop]
            if not self.light: dead |= {c.label for c in drop}
        else: raise Refuse("invariant inference does not converge")
        self.cutmemo[(key, "M")] = list(M)
        if not self.light: self.inv_report.append((short_fn(self.mod.dem(fn.name)), header, [c.label for c in live]))
        out = []
        for r in res:
            if isinstance(r, tuple):
                st = r[1]
                w = dict(S.writes)
                for k, v in M.items(): w[k] = w.get(k, []) + [x for x in v if not any(x is y for y in w.get(k, []))]
                for k, v in st.writes.items(): w[k] = w.get(k, []) + [x for x in v if not any(x is y for y in w.get(k, []))]
                st.writes = w
                out.append(st)
            elif isinstance(r.status, tuple) and r.status == ("back", lid): pass
            elif r.status in ("unreachable", "infeasible"): pass
            else: out.append(r)
        return out

    def default_cands(self, ci):
        out = []
        S, M = ci.S, ci.M
        ints = []; ptrs = []
        for k in M:
            if k[0] != "c": continue
            _, reg, off, sz = k
            if S.mem[reg].kind != "s": continue
            c = S.mem[reg].cells.get(off)
            if c is None or c[0] != sz: continue
            v = c[1]
            if (isinstance(v, int) and not isinstance(v, bool)) or (isz(v) and z3.is_int(v)):
                if is_flag(v) : continue
                ints.append((reg, off, sz, v))
            elif isinstance(v, Ptr) and v.reg != 0: ptrs.append((reg, off, sz, v))
        terms = ci.bounds_terms()
        for reg, off, sz, v0 in ints:
            b = 8 * sz
            get = (lambda reg, off: lambda st: st.mem[reg].cells[off][1])(reg, off)
            nm = S.mem[reg].name
            out.append(Cand("%s >= its entry value" % nm, lambda ex, st, g=get, v0=v0: GE(g(st), v0)))
            out.append(Cand("%s <= its entry value" % nm, lambda ex, st, g=get, v0=v0: LE(g(st), v0)))
            if sz >= 4:
                out.append(Cand("signed %s <= its entry value" % nm, lambda ex, st, g=get, v0=v0, b=b: LE(sgn(g(st), b), sgn(v0, b))))
                out.append(Cand("signed %s >= -1" % nm, lambda ex, st, g=get, b=b: GE(sgn(g(st), b), -1)))
                out.append(Cand("signed %s >= 0" % nm, lambda ex, st, g=get, b=b: GE(sgn(g(st), b), 0)))
                for tl, t in terms:
                    out.append(Cand("%s <= %s" % (nm, tl), lambda ex, st, g=get, t=t: LE(g(st), t)))
                    out.append(Cand("signed %s <= %s" % (nm, tl), lambda ex, st, g=get, t=t, b=b: LE(sgn(g(st), b), t)))
        for reg, off, sz, v0 in ptrs:
            get = (lambda reg, off: lambda st: st.mem[reg].cells[off][1])(reg, off)
            nm = S.mem[reg].name
            out.append(Cand("%s >= start" % nm, lambda ex, st, g=get, v0=v0: GE(g(st).idx, v0.idx) if g(st).reg == v0.reg else False))
            if self.is_arr(S, v0):
                if isz(v0.idx) or v0.idx != 0: out.append(Cand("%s >= begin" % nm, lambda ex, st, g=get, v0=v0: GE(g(st).idx, 0) if g(st).reg == v0.reg else False))
                out.append(Cand("%s <= end" % nm, lambda ex, st, g=get, v0=v0: LE(g(st).idx, ex.arr_len(st, v0))))
                for tl, t in terms:
                    out.append(Cand("%s <= %s" % (nm, tl), lambda ex, st, g=get, t=t: LE(g(st).idx, t)))
                # pointers advancing in step with counters / other pointers
            for r2, o2, s2, w0 in ints:
                g2 = (lambda reg, off: lambda st: st.mem[reg].cells[off][1])(r2, o2)
                out.append(Cand("%s in step with %s" % (nm, S.mem[r2].name), lambda ex, st, g=get, g2=g2, v0=v0, w0=w0: EQ(ival(g(st).idx) - v0.idx, ival(g2(st)) - w0)))
            for r2, o2, s2, w0 in ptrs:
                if (r2, o2) <= (reg, off): continue
                g2 = (lambda reg, off: lambda st: st.mem[reg].cells[off][1])(r2, o2)
                out.append(Cand("%s in step with %s" % (nm, S.mem[r2].name), lambda ex, st, g=get, g2=g2, v0=v0, w0=w0: EQ(ival(g(st).idx) - v0.idx, ival(g2(st).idx) - w0.idx)))
        for i in range(len(ints)):
            for j in range(len(ints)):
                if i == j: continue
                r1, o1, s1, v1 = ints[i]; r2, o2, s2, v2 = ints[j]
                g1 = (lambda reg, off: lambda st: st.mem[reg].cells[off][1])(r1, o1)
                g2 = (lambda reg, off: lambda st: st.mem[reg].cells[off][1])(r2, o2)
                if i < j:
                    out.append(Cand("%s - %s constant" % (S.mem[r1].name, S.mem[r2].name), lambda ex, st, g1=g1, g2=g2, v1=v1, v2=v2: EQ(ival(g1(st)) - v1, ival(g2(st)) - v2)))
                    out.append(Cand("%s + %s constant" % (S.mem[r1].name, S.mem[r2].name), lambda ex, st, g1=g1, g2=g2, v1=v1, v2=v2: EQ(ival(g1(st)) + ival(g2(st)), ival(v1) + v2)))
        # lengths that change in the loop
        for k in M:
            if k[0] == "n" and k[1] in S.mem:
                reg = k[1]; n0 = S.mem[reg].n
                out.append(Cand("length of %s unchanged" % S.mem[reg].name, lambda ex, st, reg=reg, n0=n0: EQ(st.mem[reg].n, n0)))
                out.append(Cand("length of %s grows" % S.mem[reg].name, lambda ex, st, reg=reg, n0=n0: GE(st.mem[reg].n, n0)))
                for r2, o2, s2, w0 in ints:
                    g2 = (lambda reg, off: lambda st: st.mem[reg].cells[off][1])(r2, o2)
                    out.append(Cand("length of %s in step with %s" % (S.mem[reg].name, S.mem[r2].name), lambda ex, st, reg=reg, g2=g2, n0=n0, w0=w0: EQ(ival(st.mem[reg].n) - n0, ival(g2(st)) - w0)))
        # flags
        for k in M:
            if k[0] != "c": continue
            _, reg, off, sz = k
            c = S.mem[reg].cells.get(off)
            if c is None or c[0] != sz: continue
            v = c[1]
            if isinstance(v, bool) or v in (0, 1) and isinstance(v, int) and sz == 1:
                get = (lambda reg, off: lambda st: st.mem[reg].cells[off][1])(reg, off)
                out.append(Cand("%s unchanged" % S.mem[reg].name, lambda ex, st, g=get, v=v: EQB(ex.asbool(g(st)), bool(v))))
            if isinstance(v, VecVal):
                n0 = S.mem[v.reg].n
                out.append(Cand("length of %s unchanged" % S.mem[reg].name, lambda ex, st, reg=reg, off=off, n0=n0: EQ(st.mem[st.mem[reg].cells[off][1].reg].n, n0)))
        return out

    # ------------------------------------------------------------ calls, exceptions
    def i_call(self, st, ins, f): return self.do_call(st, ins, f)
    def i_invoke(self, st, ins, f): return self.do_call(st, ins, f)
    def resolve_callee(self, st, ins):
        c = ins.x["callee"]
        if c[0] == "glob": return c[1]
        if c[0] == "loc":
            v = st.fr.loc[c[1]]
            if isinstance(v, FnPtr): return v.name
            if isinstance(v, tuple) and v and v[0] == "vslot": return v
            return None
        return None
    def do_call(self, st, ins, f):
        name = self.resolve_callee(st, ins)
        if name is not None and isinstance(name, str) and name.startswith("llvm.dbg"): return self.finish(st, ins, None)
        args = []
        for (ty, v) in ins.args:
            args.append(None if v is None else self.val(st, ty, v))
        return self.call(st, ins, name, args)
    def call(self, st, ins, name, args):
        if name is None:
            r = self.models.indirect(self, st, ins, args)
            return self.outcomes(st, ins, r)
        dem = self.mod.dem(name) if isinstance(name, str) else "virtual:%s" % (name[1:],)
        for c in self.contracts:
            if c.matches(name, dem) and not (self.under is not None and name == self.under and len(st.frames) == 1 and False):
                if name == self.under and c.is_target: break
                self.used_contracts.add(c.name)
                r = c.apply(self, st, ins, args)
                return self.outcomes(st, ins, r)
        m = self.models.lookup(name, dem)
        if m is not None:
            self.used_models.add(dem)
            r = m(self, st, ins, args, dem)
            return self.outcomes(st, ins, r)
        if isinstance(name, str) and name in self.mod.defs and self.models.may_inline(self, name, dem):
            if len(st.frames) > 40: raise Refuse("recursion")
            if any(fr.fn.name == name for fr in st.frames) and sum(fr.fn.name == name for fr in st.frames) > 2: raise Refuse("recursive call of " + dem)
            self.inlined.add(dem)
            fn = self.mod.func(name)
            self.push(st, fn, args, ins)
            return [st]
        r = self.models.havoc_call(self, st, ins, args, name, dem)
        return self.outcomes(st, ins, r)
    def push(self, st, fn, args, ins=None):
        fr = Frame(fn)
        for i, (ty, nm, at) in enumerate(fn.params):
            v = args[i]
            if "byval" in at:
                t = at["byval"]; r = self.new_struct(st, "byval:%s" % nm); p = Ptr(r)
                self.copy_mem(st, p, v, self.mod.size(t)); v = p
            fr.loc[nm if nm is not None else str(i)] = v
        st.frames.append(fr)
    def outcomes(self, st, ins, r):
        if isinstance(r, Outcomes):
            res = []
            for o in r:
                if o[0] == "ret": res += self.finish(o[1], ins, o[2])
                elif o[0] == "throw": res += self.throw(o[1], o[2], o[3] if len(o) > 3 else None)
                elif o[0] == "state": res.append(o[1])
                elif o[0] == "stop": o[1].status = "unreachable"; res.append(o[1])
            return res
        return self.finish(st, ins, r)
    def finish(self, st, ins, ret):
        f = st.fr
        if ins.dst is not None:
            if ret is None and ins.ty.k != "void": ret = self.fresh_val(st, ins.ty, "ret")
            f.loc[ins.dst] = ret
        if ins.op == "invoke": return self.goto(st, ins.x["normal"])
        f.ip += 1
        return [st]
    def i_ret(self, st, ins, f):
        v = None
        if ins.args: v = self.val(st, *ins.args[0])
        return self.do_ret(st, v)
    def do_ret(self, st, v):
        fr = st.frames.pop()
        for r in fr.allocas.values():
            if r in st.mem and st.mem[r].kind == "s": pass
        if not st.frames or st.fr.tag == "stop":
            st.status = "ret"; st.ret = v; return [st]
        if fr.tag is not None: return fr.tag(self, st, v)
        return self.finish(st, st.fr.cur(), v)
    def throw(self, st, ty, ptr=None):
        """raise: ty = typeinfo symbol name or None (unknown type)"""
        if ptr is None: ptr = Ptr(self.new_struct(st, "exc"))
        st.exc = (ptr, ty)
        return self.unwind(st)
    def unwind(self, st):
        while st.frames:
            f = st.fr
            if f.tag == "stop": break
            ins = f.cur()
            if ins.op == "invoke":
                lp = self.landing(f.fn, ins.x["unwind"])
                if lp is None: raise Refuse("landing pad")
                return self.goto(st, ins.x["unwind"])
            st.frames.pop()
        st.status = "throw"
        return [st]
    def landing(self, fn, lab):
        for i in fn.blocks[lab]:
            if i.op == "landingpad": return i
        return None
    def i_landingpad(self, st, ins, f):
        ptr, ty = st.exc
        alts = []
        matched = False
        for c in ins.x:
            if c[0] == "catch":
                if c[1][0] == "null": alts.append(("hit", 1)); matched = True; break
                tn = c[1][1]
                if ty is None: alts.append(("hit", self.typeid(tn)))
                elif is_sub(ty, tn): alts.append(("hit", self.typeid(tn))); matched = True; break
        cleanup = any(c[0] == "cleanup" for c in ins.x)
        res = []
        if not matched:
            alts.append(("cleanup" if cleanup else "pass", 0))
        for i, (k, sel) in enumerate(alts):
            s = st if i == len(alts) - 1 else st.copy()
            if k == "pass":
                s.frames.pop(); res += self.unwind(s)
            else:
                s.fr.loc[ins.dst] = (ptr, sel); s.fr.ip += 1; res.append(s)
        return res
    def typeid(self, name): return self.tid.setdefault(name, len(self.tid) + 10)
    def i_resume(self, st, ins, f):
        st.frames.pop()
        return self.unwind(st)

    # ------------------------------------------------------------ memory copies
    def copy_mem(self, st, dst, src, n):
        """memcpy of n bytes (n may be symbolic)"""
        if not isz(n) and n == 0: return
        if not isz(n) and dst.reg in st.mem and src.reg in st.mem and not self.is_arr(st, dst) and not self.is_arr(st, src):
            s = st.mem[src.reg]; items = [(o, sz, v) for o, (sz, v) in s.cells.items() if src.idx <= o < src.idx + n]
            d = st.w(dst.reg)
            for o in [o for o in d.cells if dst.idx <= o < dst.idx + n]: del d.cells[o]
            for o, sz, v in items:
                if o + sz <= src.idx + n: self.setcell(st, dst.reg, dst.idx + o - src.idx, sz, v)
                else: raise Refuse("partial copy")
            return
        da, sa = self.is_arr(st, dst), self.is_arr(st, src)
        for x, y in ((dst, src), (src, dst)):          # one struct element against an object
            if self.is_arr(st, x) and not self.is_arr(st, y) and not isz(n) and self.arr_ek(st, x)[0] == "struct" and n == self.arr_es(st, x) and x.sub == 0:
                for o, b in self.arr_ek(st, x)[2]:
                    t = Ty("int", b); self.store(st, self.gepb(st, dst, o), t, self.load(st, self.gepb(st, src, o), t, "memcpy source"), "memcpy destination")
                return
        if not da and not isz(n) and sa:
            es = self.arr_es(st, src)
            if es == 1:
                self.bounds(st, src, src.idx, "memcpy source", n)
                bs = [self.arr_sel(st, src, simp(ival(src.idx) + k) if isz(src.idx) else src.idx + k, 0) for k in range(n)]
                self.setcell(st, dst.reg, dst.idx, n, self.frombytes(bs, Ty("int", 8 * n))); return
            if es == n:
                v = self.load_arr(st, src, Ty("int", 8 * n), "memcpy source")
                self.setcell(st, dst.reg, dst.idx, n, v); return
        if da and not isz(n) and not sa:
            es = self.arr_es(st, dst)
            v = self.load(st, src, Ty("int", 8 * n))
            if isinstance(v, (int,)) or isz(v):
                self.store(st, dst, Ty("int", 8 * n), v, "memcpy destination"); return
        if da and sa:
            es, ss = self.arr_es(st, dst), self.arr_es(st, src)
            if es == ss:
                if isz(n):
                    cnt = None
                    if es == 1: cnt = n
                    else:
                        cnt = simp(udiv(n, es))
                        if not self.known(st, EQ(ival(cnt) * es, n)): raise Refuse("memcpy size")
                else:
                    if n % es: raise Refuse("memcpy size")
                    cnt = n // es
                self.copy_range(st, dst, src, cnt); return
            if not isz(n) and n <= 16:
                v = self.load_arr(st, src, Ty("int", 8 * n), "memcpy source")
                self.store(st, dst, Ty("int", 8 * n), v, "memcpy destination"); return
            ek_d, ek_s = self.arr_ek(st, dst), self.arr_ek(st, src)
            if ek_d[0] == "int" and ek_s[0] == "int" and (es == 1 or ss == 1):
                # reinterpretation between element and byte view
                w = max(es, ss)
                cnt = simp(udiv(n, w)) if isz(n) else n // w
                if not self.known(st, EQ(ival(cnt) * w, n)): raise Refuse("memcpy size is not a multiple of the element size")
                self.bounds(st, src, src.idx, "memcpy source", simp(ival(cnt) * (w // ss)))
                self.bounds(st, dst, dst.idx, "memcpy destination", simp(ival(cnt) * (w // es)))
                sf = self.arr_fn(st, src); df = FArr(self.arr_fn(st, dst)); s0, d0 = src.idx, dst.idx
                if es == 1:
                    def get(j):
                        k = ival(j) - d0
                        return (ival(sf(simp(ival(s0) + k / w))) / POW256(k % w, w)) % 256
                    self.arr_set(st, dst, 0, df.where(lambda j: AND(LE(d0, j), LT(j, simp(ival(d0) + ival(cnt) * w))), get))
                else:
                    def get(j):
                        k = (ival(j) - d0) * w
                        return self.frombytes([sf(simp(ival(s0) + k + b)) for b in range(w)], Ty("int", 8 * w))
                    self.arr_set(st, dst, 0, df.where(lambda j: AND(LE(d0, j), LT(j, simp(ival(d0) + cnt))), get))
                return
        raise Refuse("memcpy %r <- %r (%s)" % (dst, src, n))
    def copy_range(self, st, dst, src, cnt, what="copy"):
        """element-wise copy of cnt elements between arrays of the same element kind (non-overlapping or forward)"""
        self.bounds(st, src, src.idx, what + " source", cnt)
        self.bounds(st, dst, dst.idx, what + " destination", cnt)
        for sub, bits in self.arr_fields(st, src):
            sf = self.arr_fn(st, src, sub); df = FArr(self.arr_fn(st, dst, sub)); s0, d0 = src.idx, dst.idx
            hi = simp(ival(d0) + cnt) if isz(d0) or isz(cnt) else d0 + cnt
            self.arr_set(st, dst, sub, df.where(lambda j: AND(LE(d0, j), LT(j, hi)),
                                                lambda j: sf(simp(ival(j) - d0 + s0) if isz(j) or isz(d0) or isz(s0) else j - d0 + s0)))
    def fill_range(self, st, dst, cnt, v, what="fill"):
        self.bounds(st, dst, dst.idx, what, cnt)
        df = FArr(self.arr_fn(st, dst, 0)); d0 = dst.idx
        hi = simp(ival(d0) + cnt) if isz(d0) or isz(cnt) else d0 + cnt
        self.arr_set(st, dst, 0, df.where(lambda j: AND(LE(d0, j), LT(j, hi)), lambda j: v))

_tables = {}
LBF = {}
def LBYTE(st, v, k):
    """opaque name for byte k of v (little-endian)"""
    f = LBF.setdefault(k, basefn("lebyte%d" % k, 1, 8, trig=False))
    return f(ival(v))
def const_table(bits, vals):
    """one function symbol per distinct constant table"""
    k = (bits, tuple(vals))
    if k not in _tables: _tables[k] = basefn("table", 1, bits)
    return _tables[k]
BXOR = z3.Function("bxor", z3.IntSort(), z3.IntSort(), z3.IntSort())
def POW256(k, w):
    r = z3.IntVal(1)
    for b in range(1, w): r = z3.If(k == b, z3.IntVal(1 << (8 * b)), r)
    return r
def EQB(a, b):
    if isinstance(a, bool) and isinstance(b, bool): return a == b
    if isinstance(b, bool): return a if b else NOT(a)
    if isinstance(a, bool): return b if a else NOT(b)
    return a == b
def is_flag(v):
    if isinstance(v, bool): return True
    if isz(v):
        if z3.is_bool(v): return True
        if z3.is_app_of(v, z3.Z3_OP_ITE):
            _, a, b = v.children()
            return z3.is_int_value(a) and z3.is_int_value(b) and a.as_long() == 1 and b.as_long() == 0
    return False
def shape_new(old, x):
    """does x add a new shape (pointer region, kind) to the sampled values"""
    for y in old:
        if type(x) is type(y):
            if isinstance(x, Ptr):
                if x.same(y): return False
                if isinstance(x.reg, tuple) and len([1 for z in old if isinstance(z, Ptr) and isinstance(z.reg, tuple) and z.reg[1] == x.reg[1]]) >= 2: return False
                if x.reg == y.reg and len([1 for z in old if isinstance(z, Ptr) and z.reg == x.reg]) >= 2: return False
                continue
            return False
        if (isinstance(x, int) or isz(x)) and (isinstance(y, int) or isz(y)): return False
    return True
def fpconst(tok):
    if tok.startswith("0x"): return int(re.sub("0x[KLMHR]?", "", tok), 16)
    import struct
    return struct.unpack(">Q", struct.pack(">d", float(tok)))[0]
def cstring(s):
    out = bytearray(); i = 0
    while i < len(s):
        if s[i] == "\\":
            out.append(int(s[i + 1:i + 3], 16)); i += 3
        else: out.append(ord(s[i])); i += 1
    return bytes(out)
def short_fn(d):
    d = re.sub(r"\(.*$", "", d)
    return d[-60:]

def sgn(v, bits):
    """two's-complement reading of an exact unsigned value, without asking the solver"""
    M = 1 << bits; H = M >> 1
    if not isz(v): return v - M if v >= H else v
    return z3.If(v >= H, v - M, v)

class Cand:
    """candidate invariant: either a ground formula of the state or a quantified one"""
    quick = False
    def __init__(self, label, f, forall=None, arity=1, trig=None):
        self.label, self.f, self.fa, self.arity, self.trig = label, f, forall, arity, trig
    def goal(self, ex, st):
        if self.fa is None: return self.f(ex, st)
        sk = [z3.Int(fresh("sk")) for _ in range(self.arity)]
        for s in sk: pass
        return self.fa(ex, st)(*sk)
    def entry(self, ex, S):
        g = self.goal(ex, S)
        return valid(S.ctx, g, 800 if self.quick else 3000, lin=ex.opts.get("linear"))
    def holds(self, ex, b):
        g = self.goal(ex, b)
        return valid(b.ctx, g, 800 if self.quick else ex.opts.get("cand_timeout", 5000), lin=ex.opts.get("linear"))
    def assume(self, ex, H):
        if self.fa is None: H.assume(self.f(ex, H))
        else: H.ctx.forall(Forall(self.fa(ex, H.copy()), self.arity, self.label, self.trig(ex, H) if callable(self.trig) else self.trig))     # snapshot: the body is instantiated later

class CutInfo:
    def __init__(self, ex, S, M, fn, header):
        self.ex, self.S, self.M, self.fn, self.header = ex, S, M, fn, header
        self.dem = ex.mod.dem(fn.name)
    def int_cells(self, minsz=4):
        """modified integer cells: (reg, off, sz, entry value)"""
        out = []
        for k in self.M:
            if k[0] != "c": continue
            _, reg, off, sz = k
            c = self.S.mem[reg].cells.get(off) if self.S.mem[reg].kind == "s" else None
            if c is None or c[0] != sz or sz < minsz: continue
            v = c[1]
            if (isinstance(v, int) and not isinstance(v, bool)) or (isz(v) and z3.is_int(v)):
                out.append((reg, off, sz, v))
        return out
    def getter(self, reg, off):
        return lambda st: st.mem[reg].cells[off][1]
    def obj_cells(self, kind="str"):
        """modified library objects held as ghost terms: (reg, off, getter)"""
        out = []
        for k in self.M:
            if k[0] != "c": continue
            _, reg, off, sz = k
            c = self.S.mem[reg].cells.get(off) if reg in self.S.mem and self.S.mem[reg].kind == "s" else None
            if c is not None and isinstance(c[1], Opq) and c[1].kind == kind: out.append((reg, off, lambda st, reg=reg, off=off: st.mem[reg].cells[off][1].t))
        return out
    def flag_cells(self):
        out = []
        for k in self.M:
            if k[0] != "c" or k[3] != 1: continue
            _, reg, off, sz = k
            c = self.S.mem[reg].cells.get(off)
            if c is not None and c[0] == 1: out.append((reg, off, sz, c[1]))
        return out
    def vec_cells(self, bits=64):
        """all vector objects (scalar elements of given width) in the current frames: (reg, off, name)"""
        out = []
        for fr in self.S.frames[-1:]:
            for nm, r in fr.allocas.items():
                o = self.S.mem[r]
                if o.kind != "s": continue
                for off, (sz, v) in o.cells.items():
                    if isinstance(v, VecVal) and v.reg in self.S.mem and self.S.mem[v.reg].ek == EK(bits): out.append((r, off, o.name))
        return out
    def bounds_terms(self):
        """loop-invariant integer terms that may bound counters"""
        S = self.S; out = []; seen = set()
        def add(lbl, t):
            if not isz(t):
                if not isinstance(t, int): return
                key = ("c", t)
            else: key = t.get_id()
            if key in seen: return
            seen.add(key); out.append((lbl, t))
        mod_n = {k[1] for k in self.M if k[0] == "n"}
        mod_c = {(k[1], k[2]) for k in self.M if k[0] == "c"}
        for fr in S.frames[-1:]:
            for nm, r in fr.allocas.items():
                o = S.mem[r]
                if o.kind != "s": continue
                for off, (sz, v) in o.cells.items():
                    if (r, off) in mod_c: continue
                    if isinstance(v, VecVal) and v.reg in S.mem and v.reg not in mod_n: add("len " + o.name, S.mem[v.reg].n)
                    elif isz(v) and z3.is_int(v) and sz >= 4: add(o.name, v)
                    elif isinstance(v, Ptr) and v.reg in S.mem:
                        if S.mem[v.reg].kind == "a":
                            if v.reg not in mod_n: add("len *" + o.name, S.mem[v.reg].n)
                            if isz(v.idx): add(o.name, v.idx)
                        else:
                            t = S.mem[v.reg]
                            for o2, (s2, v2) in list(t.cells.items()):
                                if (v.reg, o2) in mod_c: continue
                                if isinstance(v2, VecVal) and v2.reg in S.mem and v2.reg not in mod_n: add("len %s+%d" % (t.name, o2), S.mem[v2.reg].n)
                                elif isz(v2) and z3.is_int(v2) and s2 >= 4: add("%s+%d" % (t.name, o2), v2)
                                elif isinstance(v2, Ptr) and v2.reg in S.mem and S.mem[v2.reg].kind == "s":
                                    for o3, (s3, v3) in list(S.mem[v2.reg].cells.items()):
                                        if (v2.reg, o3) in mod_c: continue
                                        if isinstance(v3, VecVal) and v3.reg in S.mem and v3.reg not in mod_n: add("len %s+%d" % (S.mem[v2.reg].name, o3), S.mem[v3.reg].n)
        return out[:14]
def _ptr_cells(self):
    """modified cells that hold a pointer into an array: (reg, off, getter of its index)"""
    out = []
    for k in self.M:
        if k[0] != "c": continue
        _, reg, off, sz = k
        c = self.S.mem[reg].cells.get(off) if reg in self.S.mem and self.S.mem[reg].kind == "s" else None
        if c is None or c[0] != sz or not isinstance(c[1], Ptr) or c[1].reg not in self.S.mem or self.S.mem[c[1].reg].kind != "a": continue
        out.append((reg, off, (lambda r, o: lambda st: st.mem[r].cells[o][1].idx)(reg, off)))
    return out
CutInfo.ptr_cells = _ptr_cells
