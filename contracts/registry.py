"""Which contracts, lemmas and bounded stand-ins decide each property."""
from blocking import *
import indexing, sharding as sh, views as vw, format as fm, effects as fe, encode as en, keys as ky, dataset as ds, sharded as shd, attrs as at, grid as gr, par as pa

TRUSTED = ["clang++ 18 front end (C++ to LLVM IR at -O0)", "the VC generator in /verif/vc (symbolic execution, loop-invariant inference checked by induction, contracts at calls)",
           "z3 / cvc5", "contracts of std:: containers, algorithms and strings in vc/models.py (assumed, not verified)"]
ASSUME = ["allocation never fails (std::bad_alloc is not modelled)", "vector sizes are below 2^60 and container dimensions below 2^16",
          "machine integers are exact (wrap-around is encoded, never assumed away); floating point operations are uninterpreted"]
ASANF = ("-O1", "-g0", "-fsanitize=address,undefined", "-fno-sanitize=vptr,pointer-overflow,alignment,float-cast-overflow,shift", "-fno-sanitize-recover=undefined")

def E2E(n, t=(70, 400)): return dict(driver="d_e2e", flags=ASANF, cxx="g++", n=n, time=t, rule="random dataset configurations (format, dtype, shape, chunk/shard shape, codec, fill value, separator) and operation histories against an in-memory model; a case is non-trivial if the dataset has more than one chunk and at least one operation had an effect")
def GEOM(n, t=(60, 300)): return dict(driver="d_geom", flags=("-O2",), n=n, time=t, rule="random and exhaustive small geometries plus 64-bit boundary values against a 128-bit oracle; non-trivial: more than one chunk")

def VIEW(n, t=(60, 300)): return dict(driver="d_view", flags=ASANF, cxx="g++", n=n, time=t, rule="random shapes, strides (negative, padded, permuted) and element types against an element-by-element oracle, guard zones around both views; non-trivial: more than one element")
def FUZZ(n, t=(60, 400)): return dict(driver="d_fuzz", flags=ASANF, cxx="g++", n=n, time=t, rule="chunks and shards corrupted, truncated, re-encoded or built by an independent encoder, read through every reader under ASAN with guarded outputs; non-trivial: the stored bytes differ from what z5 wrote, or the chunk has more than one element")
def CODEC(n, t=(60, 300)): return dict(driver="d_codec", flags=ASANF, cxx="g++", n=n, time=t, rule="every codec and option over random contents and sizes, library calls interposed: input range, capacity, produced length and injected failures; non-trivial: non-empty chunk")
def META(n, t=(60, 300)): return dict(driver="d_meta", flags=ASANF, cxx="g++", n=n, time=t, rule="random stores, handles, modes, metadata documents, attribute histories and storage failures against an independent oracle of the expected documents; non-trivial: at least one operation with an expected effect or rejection")

SHGEO = [("shard", c) for c in (sh.ChunksPerShard, sh.ShardId, sh.ShardSlot, sh.NumSlots)]
SHLE = [("shard", c) for c in (sh.ReadLE64, sh.ReadLE32, sh.WriteLE64, sh.WriteLE32)]
FMT = [("store", c) for c in (fm.WriteHeader, fm.ReadHeader, fm.RevRange32, fm.RevRange16, fm.RevOne32, fm.RevOne16)]
HOPS = [("store", c) for c in (fe.GroupCreate, fe.GroupRemove, fe.FileCreate, fe.FileRemove, fe.DatasetCreate, fe.DatasetRemove, fe.ChunkRemove)]
ENC = [("store", c) for c in (en.DataToBuffer, en.DataToBuffer8, en.Compress, en.Compress8, en.DataToN5, en.DataToN58)]
def ST(*cs): return [("store", c) for c in cs]
DEC = ST(en.BufferToData, en.BufferToData8, en.Decompress, en.Decompress8)
RD = ST(ds.ReadChunk, ds.ReadRawChunk, ds.ChunkExists, ds.StoreRead, shd.ReadShardRaw, shd.ShReadRawChunk, shd.ShChunkExists, shd.ShReadChunk)
WR = ST(ds.WriteChunk, ds.StoreWrite, shd.ReadShardBlobs, shd.WriteShardBlobs, shd.MakeChunkBlob, shd.WriteInnerBlob, shd.ShWriteChunk)
RM = ST(ds.RemoveChunk, ds.RemoveDs, ds.StoreErase, shd.ShRemoveChunk)
KEY = ST(ky.GetChunkKey, ky.ChunkCtor)
ATT = [("attrs", c) for c in at.ATTRS]
JIO = [("attrs", c) for c in at.JIO]
JSA = ["nlohmann::json documents behave as the ghost finite maps in contracts/attrs.py (operator[], at, contains, find, erase, iteration, copy); parsing a file yields the document the file holds"]
FSA = ["std::filesystem and the standard streams behave as their ghost contracts in contracts/effects.py say (a stream's state after close or flush tells whether every byte reached the file; a call that throws may or may not have had its effect)"]
ENCA = ["chunks have at least one element and fewer than 2^56 bytes; n5 extents are below 2^32 and there are at most 2^15 dimensions", "the codec is any object that honours the interface contract (CompressorBase) in contracts/encode.py",
        "instantiations for 1 and 2 byte elements are verified; all types run in the bounded stand-in"]
DSA = ["dataset invariants established at construction: the grid matches shape and chunk shape, a shard's extent is a whole number of chunks, the handle's cached format is the dataset's", "chunk memory passed by the caller is as large as the chunk",
       "the dataset members are verified for 16-bit elements; all types run in the bounded stand-in"]
FITS = ["the number of slots of a shard is below 2^50 and its size below 2^58"]
GRID = [("core", c) for c in (gr.BlockingInit, gr.Overlap, gr.RegularGrid)]
NUMB = [("core", c) for c in (gr.IdToCoord, gr.CoordToId, gr.CoordToBlock)]
GASS = ["shapes have at least one element and chunk shapes positive extents; the number of blocks is below 2^64 (2^58 entries for an enumerated list)", "the digits of a number in a mixed-radix system are ghost sequences whose recursion and uniqueness are the lemmas suffix and odometer"]
ITER = [("par", c) for c in pa.PAR + pa.EACH]
PASS = ["the thread pool runs every task handed to it exactly once, and waiting for a future returns after its task (schedules of threads are outside the verifier)", "the parallel helpers are verified for the functors of harness/par.cpp; the floating point split of the work is uninterpreted (any split); termination is not proved"]
PROPS = {
 "C01": dict(contracts=[("core", CoordsInRoi), ("core", BeginShape), ("core", BeginEnd)] + GRID, lemmas=[gr.lemma_suffix, vw.lemma_odometer], assumptions=GASS, native=[GEOM((20000, 400000)), E2E((1500, 20000))]),
 "C02": dict(contracts=[("core", c) for c in (vw.CopyView, vw.FillView, vw.Subview, vw.SubviewConst, vw.CStrides)], lemmas=[vw.lemma_odometer], assumptions=["view contracts: extents >= 1, non-negative strides, addressed elements inside the view's memory (< 2^60 elements), distinct destination elements at distinct positions; views with zero extents or negative strides are covered by the bounded stand-in only",
   "instantiation with 16-bit elements is verified (the code does not depend on the element type; all types run in the bounded stand-in)"], native=[VIEW((60000, 1000000))]),
 "C03": dict(contracts=RD + DEC + [("core", CoordsInRoi)] + GRID, assumptions=ENCA + FSA + DSA + FITS, native=[E2E((5000, 60000))]),
 "C04": dict(contracts=WR + ENC[:1], assumptions=ENCA + FSA + DSA + FITS, native=[E2E((5000, 60000))]),
 "C05": dict(contracts=RM[:1] + ST(ds.WriteChunk, ds.ReadChunk, shd.ShWriteChunk, shd.ShReadChunk, shd.ShRemoveChunk, ky.ChunkCtor) + [("core", CheckRequest), ("core", CheckBlock)], assumptions=ENCA + FSA + DSA + FITS, native=[GEOM((20000, 400000)), E2E((5000, 60000))]),
 "C06": dict(contracts=DEC + FMT + ENC[2:], lemmas=[fm.lemma_rev], assumptions=["n5 header: extents below 2^32 (the header field is 32 bits wide) and at most 2^15 dimensions"] + ENCA, native=[FUZZ((20000, 300000)), E2E((3000, 60000))]),
 "C07": dict(contracts=DEC + ST(shd.ReadShardRaw, shd.ReadShardBlobs, shd.ShReadRawChunk) + [("shard", c) for c in (sh.ParseIndex, sh.Extract, sh.ReadLE64, sh.ReadLE32, sh.Crc32c)] + [("store", fm.ReadHeader), ("store", fm.RevOne32), ("store", fm.RevOne16)], assumptions=ENCA + FSA + DSA + FITS, native=[FUZZ((20000, 300000))]),
 "C08": dict(contracts=ST(shd.ReadShardBlobs, shd.WriteShardBlobs, shd.WriteInnerBlob) + SHGEO + SHLE + [("shard", c) for c in (sh.Build, sh.ParseIndex, sh.Extract, sh.AllEmpty)], lemmas=[sh.lemma_slots, sh.lemma_roundtrip], assumptions=FSA + DSA + FITS, native=[GEOM((20000, 400000)), E2E((5000, 60000))]),
 "C09": dict(contracts=[("shard", c) for c in (sh.Crc32c, sh.Build, sh.ParseIndex, sh.WriteLE32, sh.ReadLE32)], lemmas=[sh.lemma_crc], assumptions=FITS, native=[GEOM((20000, 400000)), E2E((3000, 60000))]),
 "C10": dict(contracts=KEY, lemmas=[ky.lemma_keys], assumptions=FSA, native=[E2E((5000, 60000))]),
 "C11": dict(contracts=ATT[:6] + RM + ST(ds.WriteChunk, ds.StoreWrite, shd.ShWriteChunk, shd.WriteShardBlobs) + HOPS, assumptions=DSA + ENCA + FITS + FSA, native=[META((20000, 200000)), E2E((3000, 60000))]),
 "C12": dict(contracts=[], native=[META((20000, 200000)), E2E((3000, 60000))]),
 "C13": dict(contracts=ATT + JIO, assumptions=FSA + JSA, native=[META((20000, 200000))]),
 "C14": dict(contracts=DEC[2:] + ENC[2:4], assumptions=ENCA, native=[CODEC((20000, 300000)), E2E((3000, 60000))]),
 "C15": dict(contracts=[("core", BeginShape), ("core", BeginEnd)] + GRID + NUMB + ITER, lemmas=[gr.lemma_suffix, vw.lemma_odometer], assumptions=GASS + PASS, native=[GEOM((20000, 400000)), E2E((5000, 60000))]),
 "C16": dict(contracts=JIO[2:] + ATT[:6] + ST(ds.StoreWrite, ds.WriteChunk, shd.WriteShardBlobs, shd.WriteInnerBlob, shd.ShWriteChunk) + [("store", fe.WriteFile), ("store", fe.ReadFile)], assumptions=DSA + ENCA + FITS + FSA, native=[META((15000, 200000))]),
 "C17": dict(contracts=[], pycontracts=[indexing.slices, indexing.ints, indexing.norm], native=[dict(driver="d_py.py", python="/opt/z5env/bin/python", n=(40000, 600000), time=(60, 300), rule="random shapes and index expressions against numpy; non-trivial: at least one item that is neither an ellipsis nor a full slice")],
   trusted=["CPython executes the verified function on symbolic integers (vc/pysym.py); every feasible path is explored"], assumptions=["the C extension behaves as a numpy array that refuses regions outside it (its own properties: C01-C05)"]),
 "C18": dict(contracts=ST(ds.WriteChunk, shd.MakeChunkBlob, shd.ShWriteChunk, shd.WriteShardBlobs, ds.StoreErase) + ENC + [("store", fm.WriteHeader)] + [("store", c) for c in fm.REVS if c is not fm.RevRange16v], assumptions=DSA + FSA + FITS + ENCA, native=[E2E((5000, 60000))]),
}
