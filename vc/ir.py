"""Textual LLVM-18 IR reader (lazy, function by function).

Only what clang -O0 emits for the /repo translation units is supported; anything
else raises Unsupported, which the driver reports as an undecided obligation.
"""
import re, subprocess, bisect

class Unsupported(Exception):
    pass

# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ("k", "a", "b", "_sz", "_al")
    def __init__(self, k, a=None, b=None):
        self.k, self.a, self.b = k, a, b
        self._sz = None; self._al = None
    def __repr__(self):
        if self.k == "int": return "i%d" % self.a
        if self.k == "struct": return "{%s}" % ",".join(map(repr, self.a))
        if self.k == "array": return "[%d x %r]" % (self.a, self.b)
        if self.k == "named": return "%" + self.a
        return self.k

PTR = Ty("ptr"); VOID = Ty("void"); FLOAT = Ty("float"); DOUBLE = Ty("double")
I1 = Ty("int", 1); I8 = Ty("int", 8); I16 = Ty("int", 16); I32 = Ty("int", 32); I64 = Ty("int", 64)
_INTS = {1: I1, 8: I8, 16: I16, 32: I32, 64: I64}

TOK = re.compile(r'''
   [%@](?:"[^"]*"|[\w.$\-]+)
 | c?"(?:[^"\\]|\\.)*"
 | \#\d+ | !"[^"]*" | ![\w.]+ | !
 | -?0x[KLMHR]?[0-9A-Fa-f]+
 | -?\d+\.\d+(?:e[+-]?\d+)?
 | -?\d+
 | [A-Za-z_][\w.]*
 | \.\.\. | [\[\]{}()<>,=*]
''', re.X)

def tokenize(s):
    return TOK.findall(s)

class Instr:
    __slots__ = ("op", "dst", "ty", "args", "x", "line", "raw")
    def __init__(self, op, dst=None, ty=None, args=(), x=None, line=0, raw=""):
        self.op, self.dst, self.ty, self.args, self.x, self.line, self.raw = op, dst, ty, args, x, line, raw
    def __repr__(self):
        return self.raw.strip()

class Func:
    def __init__(self, name, ret, params, attrs):
        self.name, self.ret, self.params, self.attrs = name, ret, params, attrs   # params: [(ty, name, attrset)]
        self.blocks = {}          # label -> [Instr]
        self.order = []
        self.loops = None
        self.dbg = None

class P:
    """recursive descent over a token list"""
    def __init__(self, mod, toks):
        self.m, self.t, self.i = mod, toks, 0
    def peek(self, n=0):
        j = self.i + n
        return self.t[j] if j < len(self.t) else None
    def next(self):
        x = self.t[self.i]; self.i += 1; return x
    def accept(self, x):
        if self.peek() == x:
            self.i += 1; return True
        return False
    def expect(self, x):
        y = self.next()
        if y != x: raise Unsupported("parse: expected %s got %s in %s" % (x, y, " ".join(self.t)[:200]))

    def type(self):
        t = self.next()
        if t == "ptr": r = PTR
        elif t == "void": r = VOID
        elif t == "float": r = FLOAT
        elif t == "double": r = DOUBLE
        elif t in ("label", "metadata", "token", "x86_fp80", "fp128", "half"): r = Ty(t)
        elif re.fullmatch(r"i\d+", t):
            n = int(t[1:]); r = _INTS.get(n) or Ty("int", n)
        elif t.startswith("%"):
            r = Ty("named", t[1:].strip('"'))
        elif t == "[":
            n = int(self.next()); self.expect("x"); e = self.type(); self.expect("]"); r = Ty("array", n, e)
        elif t == "{":
            r = Ty("struct", self._elems("}"))
        elif t == "<":
            if self.peek() == "{":
                self.next(); r = Ty("struct", self._elems("}"), "packed"); self.expect(">")
            else:
                n = int(self.next()); self.expect("x"); e = self.type(); self.expect(">"); r = Ty("vector", n, e)
        else:
            raise Unsupported("type token %r in %s" % (t, " ".join(self.t)[:160]))
        # function type suffix  "ret (args...)"
        if self.peek() == "(" and self._looks_fnty():
            d = 0
            while True:
                x = self.next()
                if x == "(": d += 1
                if x == ")":
                    d -= 1
                    if d == 0: break
            return r
        if self.peek() == "addrspace":
            self.i += 4
        return r
    def _looks_fnty(self):
        # used in call instrs of variadic functions: "call i32 (ptr, ...) @f(...)"
        j = self.i; d = 0
        while j < len(self.t):
            if self.t[j] == "(": d += 1
            if self.t[j] == ")":
                d -= 1
                if d == 0:
                    nx = self.t[j + 1] if j + 1 < len(self.t) else None
                    return nx is not None and (nx.startswith("@") or nx.startswith("%"))
            j += 1
        return False
    def _elems(self, close):
        out = []
        if self.accept(close): return out
        while True:
            out.append(self.type())
            if self.accept(close): return out
            self.expect(",")

    ATTRW = {"noundef", "nonnull", "noalias", "nocapture", "readonly", "readnone", "writeonly", "signext", "zeroext",
             "immarg", "returned", "writable", "dead_on_unwind", "inreg", "nofree", "swiftself", "allocptr", "nest", "allocalign"}
    def attrs(self):
        out = {}
        while True:
            t = self.peek()
            if t in self.ATTRW: self.next(); out[t] = True
            elif t in ("align",):
                self.next()
                if self.accept("("): self.next(); self.expect(")")
                else: self.next()
            elif t in ("dereferenceable", "dereferenceable_or_null"):
                self.next(); self.expect("("); out["deref"] = int(self.next()); self.expect(")")
            elif t in ("sret", "byval", "byref", "elementtype", "inalloca", "preallocated"):
                self.next(); self.expect("("); out[t] = self.type(); self.expect(")")
            else: return out

    def value(self, ty):
        """operand of a known type -> tagged tuple"""
        t = self.next()
        if t.startswith("%"): return ("loc", t[1:].strip('"'))
        if t.startswith("@"): return ("glob", t[1:].strip('"'))
        if t == "true": return ("int", 1, 1)
        if t == "false": return ("int", 0, 1)
        if t == "null": return ("null",)
        if t in ("undef", "poison"): return ("undef", ty)
        if t == "zeroinitializer": return ("zero", ty)
        if t == "none": return ("undef", ty)
        if re.fullmatch(r"-?\d+", t) and ty.k == "int":
            return ("int", int(t) % (1 << ty.a), ty.a)
        if ty.k in ("float", "double", "x86_fp80"):
            return ("fp", t, ty.k)
        if t == "getelementptr":
            while self.peek() in ("inbounds", "nuw", "nusw"): self.next()
            self.expect("("); bt = self.type(); self.expect(",")
            p = self.typed(); idx = []
            while self.accept(","):
                self.accept("inrange"); idx.append(self.typed())
            self.expect(")")
            return ("cgep", bt, p, idx)
        if t in ("inttoptr", "ptrtoint", "bitcast", "trunc", "zext", "addrspacecast"):
            self.expect("("); v = self.typed(); self.expect("to"); t2 = self.type(); self.expect(")")
            return ("ccast", t, v, t2)
        if t == "{" or t == "[" or t == "<":
            close = {"{": "}", "[": "]", "<": ">"}[t]
            vs = []
            if t == "<" and self.peek() == "{":
                self.next()
                while not self.accept("}"):
                    vs.append(self.typed()); self.accept(",")
                self.expect(">")
                return ("agg", ty, vs)
            while not self.accept(close):
                vs.append(self.typed()); self.accept(",")
            return ("agg", ty, vs)
        if t.startswith('c"'):
            return ("cstr", t[2:-1])
        if t in ("sub", "add", "mul", "icmp", "select"):
            raise Unsupported("constexpr " + t)
        raise Unsupported("value token %r in %s" % (t, " ".join(self.t)[:160]))
    def typed(self):
        ty = self.type(); self.attrs()
        return (ty, self.value(ty))

class Module:
    def __init__(self, path):
        self.lines = open(path, errors="replace").read().split("\n")
        self.types = {}; self.globs = {}; self.defs = {}; self.decls = {}
        self.fcache = {}; self.attrgroups = {}
        self.dbgline = {}
        L = self.lines
        for n, s in enumerate(L):
            if not s: continue
            c = s[0]
            if c == "d":
                if s.startswith("define "):
                    self.defs[self._fname(s)] = n
                elif s.startswith("declare "):
                    self.decls[self._fname(s)] = n
            elif c == "%":
                i = s.find(" = type ")
                if i > 0: self.types[s[1:i].strip('"')] = (s[i + 8:], None)
            elif c == "@":
                i = s.find(" = ")
                self.globs[s[1:i].strip('"')] = s[i + 3:]
            elif c == "a" and s.startswith("attributes #"):
                i = s.find(" = ")
                self.attrgroups[s[11:i]] = s[i + 3:]
            elif c == "!" and "DILocation(line:" in s:
                m = re.match(r"!(\d+) = .*DILocation\(line: (\d+)", s)
                if m: self.dbgline[m.group(1)] = int(m.group(2))
        self._tycache = {}
        self.demangled = {}
        self._demangle_all()

    def _fname(self, s):
        i = s.find("@")
        m = re.match(r'@("[^"]*"|[\w.$\-]+)', s[i:])
        return m.group(1).strip('"')

    def _demangle_all(self):
        names = list(self.defs) + list(self.decls)
        out = subprocess.run(["c++filt"], input="\n".join(names), capture_output=True, text=True).stdout.split("\n")
        bad = [i for i, (n, d) in enumerate(zip(names, out)) if n == d and n.startswith("_Z")]
        if bad:       # C++20 constraints in the mangled name: LLVM's demangler knows them
            o2 = subprocess.run(["/usr/lib/llvm-18/bin/llvm-cxxfilt"], input="\n".join(names[i] for i in bad), capture_output=True, text=True).stdout.split("\n")
            for i, d in zip(bad, o2):
                d = d.split(" requires ")[0]
                while ">>" in d and "operator>>" not in d: d = d.replace(">>", "> >")
                out[i] = d
        for n, d in zip(names, out):
            self.demangled[n] = shorten(d)

    def dem(self, name):
        return self.demangled.get(name, name)

    # ---- type layout
    def resolve(self, ty):
        if ty.k != "named": return ty
        r = self._tycache.get(ty.a)
        if r is None:
            if ty.a not in self.types: raise Unsupported("type " + ty.a)
            src = self.types[ty.a][0]
            if src.strip() == "opaque": raise Unsupported("opaque type " + ty.a)
            r = P(self, tokenize(src)).type()
            self._tycache[ty.a] = r
        return r
    def align(self, ty):
        t = self.resolve(ty)
        if t.k == "int": return 1 if t.a <= 8 else 2 if t.a <= 16 else 4 if t.a <= 32 else 8 if t.a <= 64 else 16
        if t.k == "ptr" or t.k == "double": return 8
        if t.k == "float": return 4
        if t.k == "x86_fp80": return 16
        if t.k == "array": return self.align(t.b)
        if t.k == "struct":
            if t.b == "packed": return 1
            return max([self.align(e) for e in t.a] or [1])
        raise Unsupported("align %r" % t)
    def size(self, ty):
        t = self.resolve(ty)
        if t.k == "int": return 1 if t.a <= 8 else 2 if t.a <= 16 else 4 if t.a <= 32 else 8 if t.a <= 64 else (t.a + 127) // 128 * 16
        if t.k == "ptr" or t.k == "double": return 8
        if t.k == "float": return 4
        if t.k == "x86_fp80": return 16
        if t.k == "array": return t.a * self.size(t.b)
        if t.k == "struct":
            o = 0
            for e in t.a:
                al = 1 if t.b == "packed" else self.align(e)
                o = (o + al - 1) // al * al + self.size(e)
            al = self.align(t)
            return (o + al - 1) // al * al
        raise Unsupported("size %r" % t)
    def field_off(self, ty, i):
        t = self.resolve(ty); o = 0
        for j, e in enumerate(t.a):
            al = 1 if t.b == "packed" else self.align(e)
            o = (o + al - 1) // al * al
            if j == i: return o, e
            o += self.size(e)
        raise Unsupported("field")

    # ---- functions
    def func(self, name):
        f = self.fcache.get(name)
        if f is None:
            f = self._parse_func(name); self.fcache[name] = f
        return f
    def _sig(self, s):
        p = P(self, tokenize(s)); p.next()
        while True:
            t = p.peek()
            if t in ("linkonce_odr", "dso_local", "internal", "weak_odr", "private", "external", "hidden", "available_externally",
                     "unnamed_addr", "local_unnamed_addr", "weak", "fastcc", "dllexport", "protected", "default", "extern_weak", "linkonce", "ccc"): p.next()
            else: break
        rattrs = p.attrs(); ret = p.type(); name = p.next()[1:].strip('"')
        p.expect("("); params = []
        while not p.accept(")"):
            if p.accept("..."): continue
            ty = p.type(); at = p.attrs(); nm = None
            if p.peek() and p.peek().startswith("%"): nm = p.next()[1:].strip('"')
            params.append((ty, nm, at)); p.accept(",")
        rest = p.t[p.i:]
        return Func(name, ret, params, rest)
    def sig(self, name):
        if name in self.fcache: return self.fcache[name]
        if name in self.defs: return self._sig(self.lines[self.defs[name]])
        if name in self.decls: return self._sig(self.lines[self.decls[name]])
        return None
    def nounwind(self, f):
        for t in f.attrs:
            if t.startswith("#") and "nounwind" in self.attrgroups.get(t, ""): return True
        return False
    def _parse_func(self, name):
        n = self.defs[name]; L = self.lines
        f = self._sig(L[n])
        cur = None; buf = []
        n += 1
        def flush():
            nonlocal buf
            if buf:
                f.blocks[cur].append(self._instr(" ".join(buf))); buf = []
        while L[n] != "}":
            s = L[n]; n += 1
            if not s.strip(): continue
            if s[0] != " ":
                if s[0] == ";": continue
                flush()
                lab = re.match(r'("[^"]*"|[\w.$\-]+):', s).group(1).strip('"')
                cur = lab; f.blocks[cur] = []; f.order.append(cur)
                continue
            if s.startswith("    ") or s.startswith("  ]"):
                buf.append(s.strip()); continue
            flush(); buf = [s]
        flush()
        return f
    def _instr(self, s):
        raw = s
        line = 0
        m = re.search(r", !dbg !(\d+)", s)
        if m: line = self.dbgline.get(m.group(1), 0)
        k = s.find(", !")
        if k >= 0:
            s = s[:k]
        s = re.sub(r"\s;.*$", "", s)
        t = tokenize(s)
        p = P(self, t); dst = None
        if len(t) > 1 and t[1] == "=":
            dst = t[0][1:].strip('"'); p.i = 2
        op = p.next()
        if op in ("tail", "notail", "musttail"): op = p.next()
        I = lambda **k: Instr(op, dst, line=line, raw=raw, **k)
        if op == "alloca":
            p.accept("inalloca"); ty = p.type(); cnt = None
            if p.accept(","):
                if p.peek() != "align": cnt = p.typed()
            return I(ty=ty, x=cnt)
        if op == "load":
            p.accept("volatile"); at = p.accept("atomic"); ty = p.type(); p.expect(","); return I(ty=ty, args=[p.typed()])
        if op == "store":
            p.accept("volatile"); p.accept("atomic"); v = p.typed(); p.expect(","); return I(args=[v, p.typed()])
        if op == "getelementptr":
            while p.peek() in ("inbounds", "nuw", "nusw"): p.next()
            bt = p.type(); p.expect(","); a = [p.typed()]
            while p.accept(","): a.append(p.typed())
            return I(ty=bt, args=a)
        if op in ("add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr", "fadd", "fsub", "fmul", "fdiv", "frem"):
            fl = []
            while p.peek() in ("nuw", "nsw", "exact", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "reassoc", "afn", "disjoint"): fl.append(p.next())
            ty = p.type(); a = p.value(ty); p.expect(","); b = p.value(ty)
            return I(ty=ty, args=[a, b], x=fl)
        if op == "fneg":
            ty = p.type(); return I(ty=ty, args=[p.value(ty)])
        if op in ("icmp", "fcmp"):
            pr = p.next()
            while pr in ("fast", "nnan"): pr = p.next()
            ty = p.type(); a = p.value(ty); p.expect(","); b = p.value(ty)
            return I(ty=ty, args=[a, b], x=pr)
        if op in ("zext", "sext", "trunc", "bitcast", "ptrtoint", "inttoptr", "uitofp", "sitofp", "fptoui", "fptosi", "fpext", "fptrunc", "addrspacecast"):
            while p.peek() in ("nneg", "nuw", "nsw"): p.next()
            v = p.typed(); p.expect("to"); return I(ty=p.type(), args=[v])
        if op == "br":
            if p.peek() == "label":
                p.next(); return I(x=[p.next()[1:].strip('"')])
            c = p.typed(); p.expect(","); p.expect("label"); a = p.next()[1:].strip('"'); p.expect(","); p.expect("label"); b = p.next()[1:].strip('"')
            return I(args=[c], x=[a, b])
        if op == "switch":
            c = p.typed(); p.expect(","); p.expect("label"); d = p.next()[1:].strip('"'); p.expect("["); cs = []
            while not p.accept("]"):
                v = p.typed(); p.expect(","); p.expect("label"); cs.append((v, p.next()[1:].strip('"')))
            return I(args=[c], x=(d, cs))
        if op == "ret":
            if p.peek() == "void": return I(args=[])
            return I(args=[p.typed()])
        if op in ("call", "invoke"):
            while p.peek() in ("fastcc", "ccc", "fast", "nnan"): p.next()
            p.attrs(); ty = p.type()
            callee = p.value(PTR); p.expect("("); a = []; pat = []
            while not p.accept(")"):
                at = p.type()
                if at.k == "metadata":
                    d = 0
                    while not (p.peek() in (",", ")") and d == 0):
                        x = p.next(); d += x == "("; d -= x == ")"
                    a.append((at, None)); pat.append({})
                else:
                    ats = p.attrs(); a.append((at, p.value(at))); pat.append(ats)
                p.accept(",")
            x = {"callee": callee, "pattrs": pat, "attrs": []}
            while p.peek() and p.peek().startswith("#"): x["attrs"].append(p.next())
            if op == "invoke":
                while p.peek() != "to": p.next()
                p.expect("to"); p.expect("label"); x["normal"] = p.next()[1:].strip('"'); p.expect("unwind"); p.expect("label"); x["unwind"] = p.next()[1:].strip('"')
            return I(ty=ty, args=a, x=x)
        if op == "landingpad":
            ty = p.type(); cl = []
            while p.peek():
                c = p.next()
                if c == "cleanup": cl.append(("cleanup",))
                elif c == "catch": cl.append(("catch", p.typed()[1]))
                elif c == "filter": p.typed(); cl.append(("filter",))
            return I(ty=ty, x=cl)
        if op == "resume": return I(args=[p.typed()])
        if op == "unreachable": return I()
        if op == "extractvalue":
            v = p.typed(); ix = []
            while p.accept(","): ix.append(int(p.next()))
            return I(args=[v], x=ix)
        if op == "insertvalue":
            v = p.typed(); p.expect(","); w = p.typed(); ix = []
            while p.accept(","): ix.append(int(p.next()))
            return I(args=[v, w], x=ix)
        if op == "phi":
            ty = p.type(); inc = []
            while True:
                p.expect("["); v = p.value(ty); p.expect(","); b = p.next()[1:].strip('"'); p.expect("]"); inc.append((v, b))
                if not p.accept(","): break
            return I(ty=ty, x=inc)
        if op == "select":
            c = p.typed(); p.expect(","); a = p.typed(); p.expect(","); b = p.typed()
            return I(ty=a[0], args=[c, a, b])
        if op == "freeze":
            v = p.typed(); return I(ty=v[0], args=[v])
        if op in ("fence", "cmpxchg", "atomicrmw", "va_arg", "extractelement", "insertelement", "shufflevector", "catchpad"):
            return I(x=s)
        raise Unsupported("instr " + s.strip()[:120])

    # ---- CFG: natural loops
    def loops(self, f):
        """returns {header: set(blocks)} for natural loops (exception edges included)"""
        if f.loops is not None: return f.loops
        succ = {}
        for b, ins in f.blocks.items():
            t = ins[-1]
            if t.op == "br": succ[b] = list(t.x)
            elif t.op == "switch": succ[b] = [t.x[0]] + [c[1] for c in t.x[1]]
            elif t.op == "invoke": succ[b] = [t.x["normal"], t.x["unwind"]]
            else: succ[b] = []
        entry = f.order[0]
        # iterative dominators via DFS order + simple dataflow
        order = []; seen = set(); st = [(entry, iter(succ[entry]))]; seen.add(entry)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); st.append((s, iter(succ[s]))); break
            else:
                order.append(b); st.pop()
        order.reverse(); idx = {b: i for i, b in enumerate(order)}
        pred = {b: [] for b in order}
        for b in order:
            for s in succ[b]: pred[s].append(b)
        idom = {entry: entry}; ch = True
        while ch:
            ch = False
            for b in order[1:]:
                ps = [p for p in pred[b] if p in idom]
                n = ps[0]
                for p in ps[1:]:
                    a = p
                    while a != n:
                        while idx[a] > idx[n]: a = idom[a]
                        while idx[n] > idx[a]: n = idom[n]
                if idom.get(b) != n: idom[b] = n; ch = True
        def dom(a, b):
            while True:
                if a == b: return True
                if b == entry: return False
                b = idom[b]
        loops = {}
        for b in order:
            for s in succ[b]:
                if dom(s, b):
                    body = loops.setdefault(s, {s}); work = [b]
                    while work:
                        x = work.pop()
                        if x not in body:
                            body.add(x); work += pred[x]
        f.loops = loops; f.succ = succ
        return loops

def shorten(d):
    """normalise a demangled C++ name"""
    d = d.replace("std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >", "string")
    d = d.replace("std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>", "string")
    d = re.sub(r"nlohmann::json_abi_v\w+::basic_json<std::map, std::vector, string, bool, long, unsigned long, double, std::allocator, nlohmann::json_abi_v\w+::adl_serializer, std::vector<unsigned char, std::allocator<unsigned char> >, void>", "json", d)
    d = d.replace("[abi:cxx11]", "")
    d = d.replace("std::filesystem::__cxx11::path", "fspath")
    for _ in range(4):
        d = re.sub(r"std::vector<([^<>]*?(?:<[^<>]*>)?[^<>]*?), std::allocator<\1 ?> ?>", r"vec<\1>", d)
    d = d.replace("vec<unsigned long>", "Shape").replace("unsigned long", "u64").replace("unsigned int", "u32").replace("unsigned char", "u8").replace("unsigned short", "u16")
    for _ in range(2):
        d = re.sub(r"std::vector<(vec<[^<>]*>|Shape), std::allocator<\1 ?> ?>", r"vec<\1>", d)
    d = d.replace("std::vector<z5::util::ShardEntry, std::allocator<z5::util::ShardEntry> >", "vec<z5::util::ShardEntry>")
    return d
