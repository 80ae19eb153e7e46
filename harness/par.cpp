// IR harness: nothing but instantiation requests for the repository's own templates (no look-alike code)
#include <cstdint>
#include "z5/util/for_each.hxx"
// the caller's function objects: declared only
struct ItemFn { void operator()(int, std::ptrdiff_t) const; };
struct ChunkFn { void operator()(int, const z5::Dataset &, const z5::types::ShapeType &) const; };
struct BlockFn { void operator()(int, const z5::Dataset &, const z5::types::ShapeType &, const z5::types::ShapeType &) const; };
template void z5::util::parallel_foreach<const ItemFn &>(int64_t, std::ptrdiff_t, const ItemFn &);
template void z5::util::parallel_for_each_chunk<const ChunkFn &>(const z5::Dataset &, const int, const ChunkFn &);
template void z5::util::parallel_for_each_chunk_in_roi<const ChunkFn &>(const z5::Dataset &, const z5::types::ShapeType &, const z5::types::ShapeType &, const int, const ChunkFn &);
template void z5::util::parallel_for_each_block<const BlockFn &>(const z5::Dataset &, const z5::types::ShapeType &, const int, const BlockFn &);
template void z5::util::parallel_for_each_block_in_roi<const BlockFn &>(const z5::Dataset &, const z5::types::ShapeType &, const z5::types::ShapeType &, const z5::types::ShapeType &, const int, const BlockFn &);
