"""C17: contracts on the index normalisation of z5py (src/python/module/z5py/shape_utils.py, dataset.py)."""
import os, itertools, time, types, numbers, sys
import z3, build, pysym
from pysym import SymInt, SymBool, explore, Unsupported
SRC = os.path.join(build.REPO, "src/python/module/z5py")
def observe(idx, shape):
    """what the real, unmodified Dataset.index_to_roi selects for a concrete index, against numpy's rule; returns a description of the difference or None"""
    ds, su = load_dataset()
    class D: pass
    D.shape, D.ndim = tuple(shape), len(shape)
    t = list(idx) if isinstance(idx, tuple) else [idx]; ne = sum(1 for x in t if x is not Ellipsis); reject = ne > len(shape) or len(t) - ne > 1; full = []
    if not reject:
        if len(t) == ne: t.append(Ellipsis)
        for x in t: full += [slice(None)] * (len(shape) - ne) if x is Ellipsis else [x]
        for x, n in zip(full, shape):
            if isinstance(x, slice): reject = reject or x.step not in (None, 1)
            else: reject = reject or not (-n <= x < n)
    try: off, ext, sq = ds.Dataset.index_to_roi(D, idx)
    except (ValueError, TypeError, IndexError) as e: return None if reject else "index %r on shape %r raises %r" % (idx, tuple(shape), e)
    except Exception as e: return "index %r on shape %r raises %r" % (idx, tuple(shape), e)
    got = "index %r on shape %r selects offset %r extent %r squeezing %r" % (idx, tuple(shape), off, ext, sq)
    if reject: return got + ", numpy rejects it (or the step is unsupported)"
    if len(off) != len(shape) or len(ext) != len(shape): return got
    if tuple(sorted(sq)) != tuple(d for d, x in enumerate(full) if not isinstance(x, slice)): return got
    for x, n, o, e in zip(full, shape, off, ext):
        if not isinstance(x, slice): w = range(x % n, x % n + 1)
        elif x.start is not None and x.start < -n: w = range(0, 0)
        else: w = range(*x.indices(n))
        k = max(0, w.stop - w.start)
        if e != k or (k and o != w.start): return got + ", numpy selects %r" % (w,)
    return None
def ev(m, x): return m.eval(x, model_completion=True).as_long()
def finish(name, desc, obls, npaths, cex=None, bounded=None, err=None):
    bad = [o for o in obls if o[1] != "proved"]
    return dict(name=name, desc=desc, proved=not bad and not err, n=len(obls), discharged=len(obls) - len(bad), paths=npaths, failed=[(o[0], o[1]) for o in bad][:5], cex=cex, bounded=bounded, error=err)
def np_slice(a, b, n, ha, hb):
    """numpy's start and stop of slice(a, b) on an axis of extent n; the first component says whether z5py's documented exception (nothing is selected) applies"""
    s = z3.If(a < 0, z3.If(a + n < 0, z3.IntVal(0), a + n), z3.If(a > n, n, a)) if ha else z3.IntVal(0)
    e = z3.If(b < 0, z3.If(b + n < 0, z3.IntVal(0), b + n), z3.If(b > n, n, b)) if hb else n
    return (a < -n if ha else z3.BoolVal(False)), s, e
def sel_ok(r, exc, s, e, n):
    """the slice object r denotes exactly the selection [s, e) (nothing if e <= s)"""
    if not isinstance(r, slice) or r.step not in (None, 1): raise Unsupported("the result is not a plain slice")
    empty = z3.Or(exc, e <= s)
    if r.start is None: return empty          # index_to_roi turns this into extent 0
    rs, re = pysym._i(r.start), pysym._i(r.stop)
    if rs is None or re is None: raise Unsupported("the result is not a plain slice")
    return z3.If(empty, rs == re, z3.And(rs == s, re == e))
def slices():
    name, desc = "z5py.shape_utils.slice_to_start_stop", "for every integer start, stop (or none) and extent >= 1: the selection is numpy's (nothing if start < -size); any step but 1 is refused with ValueError"
    mod = pysym.load(SRC + "/shape_utils.py"); f = mod.slice_to_start_stop
    a, b, n, st = z3.Ints("start stop size step"); obls = []; cex = None; paths = 0
    for ha, hb, hs in itertools.product((0, 1), (0, 1), (0, 1)):
        def run(): return f(slice(SymInt(a) if ha else None, SymInt(b) if hb else None, SymInt(st) if hs else None), SymInt(n))
        def post(o):
            bad = st != 1 if hs else z3.BoolVal(False)
            if o[0] == "raise": return [("rejected only for an unsupported step", z3.And(z3.BoolVal(isinstance(o[1], ValueError)), bad))]
            x, s, e = np_slice(a, b, n, ha, hb)
            return [("an unsupported step is refused", z3.Not(bad)), ("selects what numpy selects", sel_ok(o[1], x, s, e, n))]
        p, ob = explore(run, post, [n >= 1]); paths += p
        for o in ob:
            if o[1] == "refuted" and cex is None:
                A, B, S, N = (ev(o[2], a) if ha else None), (ev(o[2], b) if hb else None), (ev(o[2], st) if hs else None), ev(o[2], n)
                cex = observe(slice(A, B, S), (N,))
        obls += ob
    return finish(name, desc, obls, paths, cex)
def ints():
    name, desc = "z5py.shape_utils.int_to_start_stop", "for every integer index and extent >= 1: accepted iff -size <= i < size (else ValueError), and then selects the one element numpy selects"
    mod = pysym.load(SRC + "/shape_utils.py"); f = mod.int_to_start_stop
    i, n = z3.Ints("i size")
    ok = z3.And(-n <= i, i < n)
    def post(o):
        if o[0] == "raise": return [("rejected only if out of range", z3.And(z3.BoolVal(isinstance(o[1], ValueError)), z3.Not(ok)))]
        r = o[1]
        if not isinstance(r, slice) or r.start is None or r.stop is None or r.step not in (None, 1): raise Unsupported("the result is not a plain slice")
        j = z3.If(i < 0, i + n, i)
        return [("out-of-range indices are rejected", ok), ("selects numpy's element", z3.And(pysym._i(r.start) == j, pysym._i(r.stop) == j + 1))]
    p, ob = explore(lambda: f(SymInt(i), SymInt(n)), post, [n >= 1]); cex = None
    for o in ob:
        if o[1] == "refuted" and cex is None:
            I, N = ev(o[2], i), ev(o[2], n)
            cex = observe(I, (N,))
    return finish(name, desc, ob, p, cex)
class Ext(types.ModuleType):
    def __getattr__(self, k):
        if k.startswith("__"): raise AttributeError(k)
        return lambda *x, **y: {}
def load_dataset():
    import collections, importlib
    for k in [k for k in sys.modules if k == "z5py" or k.startswith("z5py.")]: del sys.modules[k]
    ext = Ext("z5py._z5py"); ext.get_available_codecs = lambda: collections.defaultdict(lambda: True)
    pkg = types.ModuleType("z5py"); pkg.__path__ = [SRC]; sys.modules["z5py"] = pkg; sys.modules["z5py._z5py"] = ext; pkg._z5py = ext
    return importlib.import_module("z5py.dataset"), importlib.import_module("z5py.shape_utils")
def norm(maxnd=4):
    """Dataset.index_to_roi / normalize_slices: every sequence of item kinds up to rank maxnd, symbolic integers, callees by contract"""
    name = "z5py.Dataset.index_to_roi"; desc = "every sequence of integers, slices and ellipses: item k is applied to the axis numpy applies it to, missing axes are selected fully, integer axes (and only those) are squeezed, too many items or a second ellipsis are rejected"
    ds, su = load_dataset(); su.__dict__["int"] = pysym.Int
    P = z3.Function("nothing", z3.IntSort(), z3.IntSort(), z3.BoolSort())
    def cslice(s, n):          # contracts of the two callees (proved above)
        if not isinstance(s, slice) or not isinstance(n, SymInt): raise Unsupported("callee called with %r" % (s,))
        if bool(SymBool(P(s.start.e, n.e))): return slice(None, 0)     # nothing selected
        return slice(SymInt(z3.Function("S", z3.IntSort(), z3.IntSort(), z3.IntSort())(s.start.e, n.e)), SymInt(z3.Function("E", z3.IntSort(), z3.IntSort(), z3.IntSort())(s.start.e, n.e)))
    def cint(i, n):
        if not isinstance(i, SymInt) or not isinstance(n, SymInt): raise Unsupported("callee called with %r" % (i,))
        if bool(SymBool(z3.Not(z3.And(-n.e <= i.e, i.e < n.e)))): raise ValueError("out of range")
        j = z3.If(i.e < 0, i.e + n.e, i.e); return slice(SymInt(j), SymInt(j + 1))
    if not (hasattr(su, "slice_to_start_stop") and hasattr(su, "int_to_start_stop")): raise Unsupported("callees are gone")
    su.slice_to_start_stop, su.int_to_start_stop = cslice, cint
    for m in (su, ds):
        for k in ("slice_to_start_stop", "int_to_start_stop"):
            if k in m.__dict__: m.__dict__[k] = getattr(su, k)
    S = z3.Function("S", z3.IntSort(), z3.IntSort(), z3.IntSort()); E = z3.Function("E", z3.IntSort(), z3.IntSort(), z3.IntSort())
    obls = []; paths = 0; cex = None
    for nd in range(1, maxnd + 1):
        sh = [z3.Int("n%d" % d) for d in range(nd)]
        class D:
            shape = tuple(SymInt(x) for x in sh); ndim = nd
        for m in range(0, nd + 3):
            for kinds in itertools.product("is.", repeat=m):
                if kinds.count(".") > 2 or m - kinds.count(".") > nd + 1: continue
                it = []; sym = []
                for k, c in enumerate(kinds):
                    v = z3.Int("x%d" % k); sym.append(v)
                    it.append(SymInt(v) if c == "i" else slice(SymInt(v), None) if c == "s" else Ellipsis)
                for scalar in ((False, True) if m == 1 else (False,)):
                    idx = it[0] if scalar else tuple(it)
                    ne = m - kinds.count("."); reject = ne > nd or kinds.count(".") > 1
                    # axis of each item, numpy's rule
                    ax = {}; d = 0
                    for k, c in enumerate(kinds):
                        if c == ".": d += nd - ne
                        else: ax[d] = k; d += 1
                    rng = [z3.And(-sh[d] <= sym[k], sym[k] < sh[d]) for d, k in ax.items() if kinds[k] == "i" and d < nd]
                    def run(): return ds.Dataset.index_to_roi(D, idx)
                    def post(o):
                        if o[0] == "raise": return [("rejected only if numpy rejects it", z3.And(z3.BoolVal(isinstance(o[1], (ValueError, TypeError, IndexError))), z3.Or(z3.BoolVal(reject), z3.Not(z3.And(*rng)))))]
                        if reject: return [("too many items or ellipses are rejected", False)]
                        off, ext, sq = o[1]; r = [("out-of-range integers are rejected", z3.And(*rng))]
                        if len(off) != nd or len(ext) != nd: return [("one extent per axis", False)]
                        r.append(("exactly the integer axes are squeezed", tuple(sq) == tuple(d for d in sorted(ax) if kinds[ax[d]] == "i")))
                        fs = []
                        for d in range(nd):
                            if d not in ax: s, e = z3.IntVal(0), sh[d]
                            elif kinds[ax[d]] == "i": s = z3.If(sym[ax[d]] < 0, sym[ax[d]] + sh[d], sym[ax[d]]); e = s + 1
                            else: s, e = S(sym[ax[d]], sh[d]), E(sym[ax[d]], sh[d])
                            a, b = pysym._i(off[d]), pysym._i(ext[d]); nothing = P(sym[ax[d]], sh[d]) if d in ax and kinds[ax[d]] == "s" else z3.BoolVal(False)
                            if b is None: raise Unsupported("extent is no integer")
                            fs.append(z3.If(nothing, b == 0, z3.BoolVal(False) if a is None else z3.And(a == s, b == e - s)))
                        r.append(("every axis gets numpy's selection", z3.And(*fs))); return r
                    p, ob = explore(run, post, [x >= 1 for x in sh]); paths += p; obls += ob
                    for o in ob:
                        if o[1] == "refuted" and cex is None:
                            cand = [[ev(o[2], v) for v in sym], [1] * m, list(range(m))]; shp = [ev(o[2], x) for x in sh]
                            for vs in cand:
                                for sp in (shp, [7 + x for x in range(nd)]):
                                    ci = [vs[k] if c == "i" else slice(vs[k], None) if c == "s" else Ellipsis for k, c in enumerate(kinds)]
                                    cex = cex or observe(ci[0] if scalar else tuple(ci), sp)
    r = finish(name, desc, obls, paths, cex, bounded="rank <= %d; all integers symbolic" % maxnd)
    return r
