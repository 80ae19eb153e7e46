"""C17: the real z5py index handling (shape_utils.py, Dataset.__getitem__/__setitem__/index_to_roi) on random index expressions against numpy.
The compiled extension is replaced by a stand-in that reads and writes a numpy array and refuses any region outside it."""
import sys, os, json, random, types, argparse, time
sys.dont_write_bytecode = True
import numpy as np
ap = argparse.ArgumentParser()
for x in ("prop", "scratch", "case"): ap.add_argument("--" + x)
for x in ("seed", "n"): ap.add_argument("--" + x, type=int, default=1)
ap.add_argument("--time", type=float, default=60)
a = ap.parse_args()
src = os.path.join(os.environ.get("Z5_REPO", "/repo"), "src/python/module/z5py")
class Ext(types.ModuleType):
    def __getattr__(self, k):
        if k.startswith("__"): raise AttributeError(k)
        return lambda *x, **y: {}
ext = Ext("z5py._z5py"); import collections; ext.get_available_codecs = lambda: collections.defaultdict(lambda: True)
def region(ds, start, shape):
    assert len(start) == len(shape) == ds.arr.ndim, "region of dimension %d/%d for a dataset of dimension %d" % (len(start), len(shape), ds.arr.ndim)
    for s, e, n in zip(start, shape, ds.arr.shape):
        assert 0 <= s and e > 0 and s + e <= n, "region start %r extent %r leaves the dataset of shape %r" % (tuple(start), tuple(shape), ds.arr.shape)
    return tuple(slice(int(s), int(s) + int(e)) for s, e in zip(start, shape))
def read_subarray(ds, out, start, n_threads=1): out[...] = ds.arr[region(ds, start, out.shape)]
def write_subarray(ds, data, start, n_threads=1): ds.arr[region(ds, start, data.shape)] = data
def write_scalar(ds, start, shape, v, dtype, n_threads=1): ds.arr[region(ds, start, shape)] = v
ext.read_subarray, ext.write_subarray, ext.write_scalar = read_subarray, write_subarray, write_scalar
pkg = types.ModuleType("z5py"); pkg.__path__ = [src]; sys.modules["z5py"] = pkg; sys.modules["z5py._z5py"] = ext; pkg._z5py = ext
import importlib
dsmod = importlib.import_module("z5py.dataset")
class Impl:
    def __init__(self, arr): self.arr = arr
    shape = property(lambda s: list(s.arr.shape)); ndim = property(lambda s: s.arr.ndim); dtype = property(lambda s: str(s.arr.dtype)); size = property(lambda s: s.arr.size); len = property(lambda s: s.arr.shape[0]); is_zarr = True
def mk(arr):
    d = dsmod.Dataset.__new__(dsmod.Dataset); d._impl = Impl(arr); d.n_threads = 1; return d
def bound(r, n, opt=True):
    k = r.random()
    if opt and k < .2: return None
    if k < .3: return r.choice([0, n, -n, n - 1, -n - 1, n + 1, 1, -1])
    if k < .33: return r.choice([2 ** 63, -2 ** 63, 2 ** 31, 10 ** 30, -10 ** 30])
    return r.randint(-n - 3, n + 3)
def item(r, n):
    k = r.random()
    if k < .35:
        i = bound(r, n, False)
        return np.int64(i) if r.random() < .3 and abs(i) < 2 ** 62 else i
    return slice(bound(r, n), bound(r, n), r.choice([None, None, None, 1]))
def oracle(idx, shape):
    """index with slices that start before -size replaced by empty ones"""
    t = list(idx) if isinstance(idx, tuple) else [idx]
    ne = sum(1 for x in t if x is not Ellipsis); nel = len(t) - ne
    if ne > len(shape) or nel > 1: return "reject"
    if not nel: t.append(Ellipsis)
    full = []
    for x in t:
        if x is Ellipsis: full += [slice(None)] * (len(shape) - ne)
        else: full.append(x)
    for x, n in zip(full, shape):
        if not isinstance(x, slice) and not (-n <= x < n): return "reject"
        if isinstance(x, slice) and x.step not in (None, 1): return "reject"
    return tuple(slice(0, 0) if isinstance(x, slice) and x.start is not None and x.start < -n else x for x, n in zip(full, shape))
def one(seed, k, state):
    r = random.Random("%d/%d" % (seed, k)); nd = r.choice([1, 1, 2, 2, 3, 4, 5]); big = r.random() < .15
    shape = tuple(r.choice([1, 2, 3, 5, 7]) for _ in range(nd))
    arr = np.arange(1, 1 + int(np.prod(shape)), dtype=r.choice(["int32", "float64", "uint8", "int64"])).reshape(shape)
    m = r.choice([nd, nd, r.randint(0, nd), nd + (r.random() < .2)])
    it = [item(r, shape[min(i, nd - 1)]) for i in range(m)]
    if r.random() < .1 and it:
        it[r.randrange(len(it))] = slice(None, None, r.choice([2, -1, 3]))
    for _ in range(r.choice([0, 0, 1, 1, 2] if r.random() < .4 else [0, 1])): it.insert(r.randint(0, len(it)), Ellipsis)
    if any(isinstance(x, slice) and x.step not in (None, 1) for x in it): pass
    idx = it[0] if len(it) == 1 and r.random() < .7 else tuple(it)
    # assign the axes of items after the ellipsis relative to the end
    state["desc"] = "shape %r index %r" % (shape, idx); state["nt"] = len(it) > 0 and any(x is not Ellipsis and x != slice(None) for x in it)
    want = oracle(idx, shape); d = mk(arr.copy())
    if isinstance(want, str):
        try: d[idx]
        except (ValueError, TypeError, IndexError): pass
        else: raise AssertionError("an index that numpy rejects, or an unsupported step, is accepted")
        try: d[idx] = 0
        except (ValueError, TypeError, IndexError): pass
        else: raise AssertionError("an index that numpy rejects, or an unsupported step, is accepted for writing")
        assert (d._impl.arr == arr).all(), "a rejected write changed the data"
        return
    ref = arr[want]; got = d[idx]
    if np.isscalar(ref) or ref.ndim == 0:
        assert np.ndim(got) == 0 and got == ref, "selects %r instead of %r" % (got, ref)
    else: assert got.shape == ref.shape and (np.asarray(got) == ref).all(), "selects shape %r instead of %r (or other elements)" % (got.shape, ref.shape)
    exp = arr.copy()
    if r.random() < .5: v = 77; exp[want] = v
    else:
        sel = np.arange(int(np.prod(np.shape(ref)))) + 3; full = []
        # value of the full (unsqueezed) region
        for x, n in zip(want, shape): full.append(len(range(*x.indices(n))) if isinstance(x, slice) else 1)
        v = sel.astype(arr.dtype).reshape(full); exp[want] = v.reshape(np.shape(ref))
    d[idx] = v
    assert (d._impl.arr == exp).all(), "assignment changes other elements than numpy's"
    # huge datasets: only the region is compared
    if big:
        n = r.choice([2 ** 31, 2 ** 40, 2 ** 63 - 1, 10 ** 6]); x = item(r, n); w = oracle(x, (n,))
        state["desc"] = "shape %r index %r" % ((n,), x)
        if isinstance(w, str):
            try: dsmod.normalize_slices(x, (n,))
            except (ValueError, TypeError, IndexError): return
            raise AssertionError("an out-of-range index is accepted")
        (s,), sq = dsmod.normalize_slices(x, (n,)); w = w[0]
        rg = range(*w.indices(n)) if isinstance(w, slice) else range(int(w) % n, int(w) % n + 1)
        st = s.start if s.start is not None else 0; sp = s.stop
        assert (max(0, sp - st) == len(rg) if False else (sp - st if s.start is not None else 0) == rg.stop - rg.start if rg.stop > rg.start else (s.start is None or sp <= st)), "selects %r" % (s,)
        if rg.stop > rg.start: assert st == rg.start and sp == rg.stop, "selects %r instead of %r" % (s, rg)
        assert tuple(sq) == (() if isinstance(w, slice) else (0,)), "squeezes %r" % (sq,)
t0 = time.time(); ev = 0; seen = set(); samples = []; fail = None
rng = [int(a.case)] if a.case is not None else range(a.n)
for k in rng:
    st = {}
    try: one(a.seed, k, st)
    except AssertionError as e: fail = dict(case=k, id="", msg="%s: %s" % (st.get("desc"), e)); 
    except Exception as e: fail = dict(case=k, id="", msg="%s: raises %r" % (st.get("desc"), e))
    ev += 1
    if st.get("nt"): seen.add(hash(st["desc"]))
    if 20 <= k < 24: samples.append(st["desc"])
    if fail or time.time() - t0 > a.time: break
print(json.dumps(dict(evaluations=ev, distinct=len(seen), samples=samples, fail=fail)))
