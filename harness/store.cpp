// IR harness: nothing but instantiation requests for the repository's own templates (no look-alike code)
#include <cstdint>
#include "z5/generic/dataset.hxx"
#include "z5/generic/sharded_dataset.hxx"
#include "z5/filesystem/store.hxx"
#include "z5/filesystem/handle.hxx"
#include "z5/multiarray/array_access.hxx"
#define INST(T) \
template class z5::generic::Dataset<T, z5::filesystem::ChunkStore>; \
template class z5::generic::ShardedDataset<T, z5::filesystem::ChunkStore>; \
template void z5::util::reverseEndiannessInplace<T>(T*, T*);
INST(uint16_t) INST(uint8_t) INST(double)
// taking addresses makes clang emit these members
typedef const z5::filesystem::handle::Dataset & (z5::filesystem::handle::Chunk::*DsH)() const;
DsH z5v_dsh = &z5::filesystem::handle::Chunk::datasetHandle;
