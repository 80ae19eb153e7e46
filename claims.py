"""Texts of MANIFEST.json."""
TECH = "contract-based deductive verification: contracts on the real functions, VC generation over the LLVM IR of /repo's current sources, z3/cvc5"
NOTES = "Level 'proof' refers to the obligations listed in the evidence file of each run; labelled bounded stand-ins run the real code next to it and are not counted as proved. See DESIGN.md."
GEN = " Trusted: clang front end, the VC generator in vc/, z3/cvc5, contracts of the standard library models. Labelled bounded stand-ins (native runs of the real code against an oracle) cover what the contracts do not reach."
CLAIMS = {
 "C01": (TECH, "proof", "Unbounded proof of the grid construction, the enumeration of a request's chunks and the per-chunk geometry functions for every dimension and 64-bit extent; the assembly of the chunks into the caller's buffer is composed from C02/C03 and additionally run against an oracle." + GEN),
 "C02": (TECH, "proof", "Unbounded proof (every dimension, extent and stride) that the strided copy and fill write exactly the addressed elements with the addressed values; the odometer addressing lemma is proved by induction." + GEN),
 "C03": (TECH, "proof", "Unbounded proof, function by function, of the path from a stored object to the caller's memory: which object is read for a chunk, when it counts as missing, header and length checks, decompression, endianness, slot of the shard; piece of the request attributed to the chunk. The composition over a region (readSubarray) runs in the bounded stand-in." + GEN),
 "C04": (TECH, "proof", "Unbounded proof of the path from chunk memory to the stored object (encoding, elision, key, shard slot replacement with all other slots kept, lock held during read-modify-write). The composition over a region (writeSubarray, writeScalar) runs in the bounded stand-in." + GEN),
 "C05": (TECH, "proof", "Unbounded proof of the request and grid checks, and that the chunk operations reject before any storage effect." + GEN),
 "C06": (TECH, "proof", "Unbounded proof that the n5 chunk header is written and read as specified, that the endianness conversion reverses every element's bytes and is an involution, and that chunk files are assembled from and taken apart into header, codec stream and elements accordingly; bounded stand-ins use independent encoders and decoders." + GEN),
 "C07": (TECH, "proof", "Unbounded proof that the shard index parser and the shard blob extraction read only inside the stored bytes for arbitrary contents and reject every inconsistent entry, and that chunk decoding around the codec never leaves the stored bytes or the output; codec libraries run in bounded stand-ins under ASAN." + GEN),
 "C08": (TECH, "proof", "Unbounded proof of the shard geometry, of buildShard, parseShardIndex and extractShardBlobs, and of their round trip; the dataset operations that use them (read, replace, delete of a slot) are under contract too." + GEN),
 "C09": (TECH, "proof", "Unbounded proof that crc32c is the CRC-32C fold (table step proved equal to the bitwise definition) and that the shard writer and reader apply it to exactly the index bytes." + GEN),
 "C10": (TECH, "proof", "Unbounded proof that the chunk key is the formatted coordinate (separator, axis order, prefix) and lemma that this map is injective for the separators '.' and '/'; how std::to_string renders numbers is assumed. Reopening runs in the bounded stand-in." + GEN),
 "C11": (TECH, "proof", "Unbounded proof that the handle operations and the chunk writes and removals have no storage effect, and raise, without permission; the public attribute functions are under contract too; metadata writers run in the bounded stand-in." + GEN),
 "C13": (TECH, "proof", "Unbounded proof over ghost documents that writing attributes sets exactly the given keys, removing deletes exactly one, reading yields exactly the user's keys, reserved keys are refused or hidden, and everything else in the document is kept, for every document." + GEN),
 "C14": (TECH, "proof", "Unbounded proof that the callers of the codecs hand over exactly the chunk's elements, check the produced length and pass failures on; the codec wrappers around their libraries run in the bounded stand-in with interposed library calls." + GEN),
 "C15": (TECH, "proof", "Unbounded proof that the grid is the rounded-up quotient, that chunk numbers and coordinates are inverse mixed-radix conversions, that the enumerations yield every grid point exactly once, and that every iteration helper hands each item of its range to the callback exactly once for every thread count and split of the work (the pool's schedules are assumed: every enqueued task runs once)." + GEN),
 "C16": (TECH, "proof", "Unbounded proof over a ghost model of streams that a chunk or shard object reported as written is completely on disk, and that failures pass through every caller as errors; attribute documents are covered by contracts on JsonIO and its callers; bounded stand-ins inject failures." + GEN),
 "C17": (TECH.replace("LLVM IR of /repo's current sources", "real Python functions on symbolic integers (all paths)"), "proof", "Unbounded proof of slice and integer normalisation; index_to_roi is decided for ranks up to 4 with symbolic integers (bounded, not counted as proved)." + GEN),
 "C18": (TECH, "proof", "Unbounded proof that a chunk is elided exactly if all its elements equal the fill value, and that every caller stores a non-elided chunk and removes the stored object of an elided one." + GEN),
}
NA = []
_all = ["C%02d" % i for i in range(1, 22)]
_why = {"C19": "schedules of threads: the verifier is sequential; contracts over the pool's interleavings are outside its reach (no separation-logic verifier for C++ is installed)",
        "C20": "the S3 backend needs the AWS SDK headers, which are not installed: the code cannot be compiled, hence not be put under contract",
        "C21": "crash points: no contract on function results speaks about the file system state between two system calls; the code makes no atomicity claim either"}
NA = [(p, _why.get(p, "not yet built")) for p in _all if p not in CLAIMS]
