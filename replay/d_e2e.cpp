#include "e2e.hxx"
using namespace z5v;
// PARTS=7: one translation unit per element type (compiled in parallel), part 0 is the runner
namespace z5v { void e0(Rng &, Case &); void e1(Rng &, Case &); void e2(Rng &, Case &); void e3(Rng &, Case &); void e4(Rng &, Case &); void e5(Rng &, Case &);
#if PART == 1
void e0(Rng & r, Case & c) { one<uint8_t>(r, c); }
#elif PART == 2
void e1(Rng & r, Case & c) { one<int16_t>(r, c); }
#elif PART == 3
void e2(Rng & r, Case & c) { one<uint32_t>(r, c); }
#elif PART == 4
void e3(Rng & r, Case & c) { one<int64_t>(r, c); }
#elif PART == 5
void e4(Rng & r, Case & c) { one<float>(r, c); }
#elif PART == 6
void e5(Rng & r, Case & c) { one<double>(r, c); }
#endif
}
#if PART == 0
#include "z5/factory.hxx"
namespace z5v {
std::unique_ptr<z5::Dataset> opends(const zfs::handle::File & f) { return z5::openDataset(f, "ds"); }
std::unique_ptr<z5::Dataset> mkds(const zfs::handle::File & f, const std::string & dtype, const Sh & shape, const Sh & chunk, const std::string & comp, const z5::types::CompressionOptions & o, double fill, const std::string & delim, int fmt, const std::string & enc, const Sh & shard) { return z5::createDataset(f, "ds", dtype, shape, chunk, comp, o, fill, delim, fmt, enc, shard); }
void mkfile(const zfs::handle::File & f, bool zarr, int fmt) { z5::createFile(f, zarr, fmt); }
}
int main(int argc, char ** argv) {
    return run(argc, argv, [](Rng & r, Case & c) { static void (*f[])(Rng &, Case &) = {e0, e1, e2, e3, e4, e5}; f[r.below(6)](r, c); });
}
#endif
