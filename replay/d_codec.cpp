// Codec wrappers on real libraries; the library entry points are interposed (LINK) so that each call's input range and
// announced output capacity are touched completely under the address sanitizer, and failures can be injected.
// LINK=-Wl,--wrap=blosc_compress_ctx -Wl,--wrap=blosc_decompress_ctx -Wl,--wrap=blosc_cbuffer_validate -Wl,--wrap=BZ2_bzCompressInit -Wl,--wrap=BZ2_bzCompress -Wl,--wrap=BZ2_bzDecompressInit -Wl,--wrap=BZ2_bzDecompress -Wl,--wrap=LZ4_compress_default -Wl,--wrap=LZ4_decompress_safe -Wl,--wrap=lzma_easy_encoder -Wl,--wrap=lzma_stream_decoder -Wl,--wrap=lzma_code -Wl,--wrap=libdeflate_alloc_compressor -Wl,--wrap=libdeflate_alloc_decompressor -Wl,--wrap=libdeflate_zlib_compress -Wl,--wrap=libdeflate_gzip_compress -Wl,--wrap=libdeflate_zlib_decompress -Wl,--wrap=libdeflate_gzip_decompress -Wl,--wrap=ZSTD_compress -Wl,--wrap=ZSTD_decompress
#include "z5v.hxx"
#include "z5/dataset.hxx"
#include "z5/util/format_data.hxx"
using namespace z5v;
static int inject = -1, ncall = 0; static bool injected = false; static volatile unsigned sink; static const char * lib_msg = nullptr;
static bool hit() { bool h = inject >= 0 && ncall == inject; ++ncall; if(h) injected = true; return h; }
static void rd(const void * p, size_t n) { unsigned s = 0; const volatile char * q = (const volatile char *)p; for(size_t i = 0; i < n; ++i) s += q[i]; sink = s; }
static void wr(void * p, size_t n) { volatile char * q = (volatile char *)p; for(size_t i = 0; i < n; ++i) q[i] = (char)0xA5; }
extern "C" {
int __real_blosc_compress_ctx(int, int, size_t, size_t, const void *, void *, size_t, const char *, size_t, int);
int __wrap_blosc_compress_ctx(int l, int s, size_t ts, size_t nb, const void * src, void * dst, size_t ds, const char * c, size_t bs, int nt) { rd(src, nb); wr(dst, ds); if(hit()) return sink % 2 ? 0 : -1; return __real_blosc_compress_ctx(l, s, ts, nb, src, dst, ds, c, bs, nt); }
int __real_blosc_decompress_ctx(const void *, void *, size_t, int);
int __wrap_blosc_decompress_ctx(const void * src, void * dst, size_t ds, int nt) { wr(dst, ds); if(hit()) return sink % 2 ? 0 : -1; return __real_blosc_decompress_ctx(src, dst, ds, nt); }
int __real_blosc_cbuffer_validate(const void *, size_t, size_t *);
int __wrap_blosc_cbuffer_validate(const void * p, size_t n, size_t * o) { rd(p, n); if(hit()) { *o = 0; return -1; } return __real_blosc_cbuffer_validate(p, n, o); }
int __real_BZ2_bzCompressInit(bz_stream *, int, int, int);
int __wrap_BZ2_bzCompressInit(bz_stream * b, int l, int v, int w) { if(hit()) return BZ_MEM_ERROR; return __real_BZ2_bzCompressInit(b, l, v, w); }
int __real_BZ2_bzCompress(bz_stream *, int);
int __wrap_BZ2_bzCompress(bz_stream * b, int a) { rd(b->next_in, b->avail_in); wr(b->next_out, b->avail_out); if(hit()) return BZ_FINISH_OK; return __real_BZ2_bzCompress(b, a); }
int __real_BZ2_bzDecompressInit(bz_stream *, int, int);
int __wrap_BZ2_bzDecompressInit(bz_stream * b, int v, int s) { if(hit()) return BZ_MEM_ERROR; return __real_BZ2_bzDecompressInit(b, v, s); }
int __real_BZ2_bzDecompress(bz_stream *);
int __wrap_BZ2_bzDecompress(bz_stream * b) { rd(b->next_in, b->avail_in); wr(b->next_out, b->avail_out); if(hit()) return sink % 2 ? BZ_DATA_ERROR : BZ_OK; return __real_BZ2_bzDecompress(b); }
int __real_LZ4_compress_default(const char *, char *, int, int);
int __wrap_LZ4_compress_default(const char * s, char * d, int n, int c) { rd(s, n); wr(d, c); if(hit()) return 0; return __real_LZ4_compress_default(s, d, n, c); }
int __real_LZ4_decompress_safe(const char *, char *, int, int);
int __wrap_LZ4_decompress_safe(const char * s, char * d, int n, int c) { rd(s, n); wr(d, c); if(hit()) return -1 - (int)(sink % 50); return __real_LZ4_decompress_safe(s, d, n, c); }
lzma_ret __real_lzma_easy_encoder(lzma_stream *, uint32_t, lzma_check);
lzma_ret __wrap_lzma_easy_encoder(lzma_stream * s, uint32_t p, lzma_check k) { if(hit()) return LZMA_MEM_ERROR; return __real_lzma_easy_encoder(s, p, k); }
lzma_ret __real_lzma_stream_decoder(lzma_stream *, uint64_t, uint32_t);
lzma_ret __wrap_lzma_stream_decoder(lzma_stream * s, uint64_t m, uint32_t f) { if(hit()) return LZMA_MEM_ERROR; return __real_lzma_stream_decoder(s, m, f); }
lzma_ret __real_lzma_code(lzma_stream *, lzma_action);
lzma_ret __wrap_lzma_code(lzma_stream * s, lzma_action a) { rd(s->next_in, s->avail_in); wr(s->next_out, s->avail_out); if(hit()) return sink % 2 ? LZMA_DATA_ERROR : LZMA_BUF_ERROR; return __real_lzma_code(s, a); }
libdeflate_compressor * __real_libdeflate_alloc_compressor(int); libdeflate_compressor * __wrap_libdeflate_alloc_compressor(int l) { if(hit()) return nullptr; return __real_libdeflate_alloc_compressor(l); }
libdeflate_decompressor * __real_libdeflate_alloc_decompressor(); libdeflate_decompressor * __wrap_libdeflate_alloc_decompressor() { if(hit()) return nullptr; return __real_libdeflate_alloc_decompressor(); }
#define DEFC(N) size_t __real_libdeflate_##N##_compress(libdeflate_compressor *, const void *, size_t, void *, size_t); \
size_t __wrap_libdeflate_##N##_compress(libdeflate_compressor * c, const void * s, size_t n, void * d, size_t k) { rd(s, n); wr(d, k); if(hit()) return 0; return __real_libdeflate_##N##_compress(c, s, n, d, k); } \
libdeflate_result __real_libdeflate_##N##_decompress(libdeflate_decompressor *, const void *, size_t, void *, size_t, size_t *); \
libdeflate_result __wrap_libdeflate_##N##_decompress(libdeflate_decompressor * c, const void * s, size_t n, void * d, size_t k, size_t * a) { rd(s, n); wr(d, k); if(inject == 1000) { injected = true; return sink % 2 ? LIBDEFLATE_BAD_DATA : LIBDEFLATE_INSUFFICIENT_SPACE; } ++ncall; return __real_libdeflate_##N##_decompress(c, s, n, d, k, a); }
DEFC(zlib) DEFC(gzip)
size_t __real_ZSTD_compress(void *, size_t, const void *, size_t, int);
size_t __wrap_ZSTD_compress(void * d, size_t k, const void * s, size_t n, int l) { rd(s, n); wr(d, k); if(hit()) return (size_t)-70; return __real_ZSTD_compress(d, k, s, n, l); }
size_t __real_ZSTD_decompress(void *, size_t, const void *, size_t);
size_t __wrap_ZSTD_decompress(void * d, size_t k, const void * s, size_t n) { rd(s, n); wr(d, k); if(hit()) return (size_t)-(ssize_t)(sink % 2 ? 70 : 20); return __real_ZSTD_decompress(d, k, s, n); }
}
template<class T> struct Mix : public z5::MixinTyped<T> { Mix(const z5::DatasetMetadata & m) : z5::MixinTyped<T>(m) {} auto & codec() { return this->compressor_; } };
template<class T> void one(Rng & r, Case & c) {
    static const z5::types::Compressor comps[] = {z5::types::raw, z5::types::blosc, z5::types::zlib, z5::types::zlib, z5::types::bzip2, z5::types::lz4, z5::types::xz, z5::types::zstd};
    auto comp = comps[r.below(8)]; bool zarr = r.chance(1, 2) && comp != z5::types::xz; z5::types::CompressionOptions o; z5::types::defaultCompressionOptions(comp, o, zarr);
    if(comp == z5::types::blosc) { static const char * cd[] = {"lz4", "lz4hc", "blosclz", "zlib", "zstd"}; o["codec"] = std::string(cd[r.below(5)]); o["level"] = (int)r.below(10); o["shuffle"] = (int)r.below(3); if(r.chance(1, 4)) o["blocksize"] = (int)(64 << r.below(6)); if(r.chance(1, 6)) o["nthreads"] = (int)(1 + r.below(3)); }
    else if(comp == z5::types::zlib) { o["useZlib"] = r.chance(1, 2); o["level"] = (int)(1 + r.below(9)); } else if(comp == z5::types::xz) o["level"] = (int)r.below(r.chance(1, 20) ? 7 : 2); else if(comp != z5::types::raw) o["level"] = (int)(1 + r.below(9));
    size_t n = r.chance(1, 12) ? 1 + r.below(200000 / sizeof(T)) : r.chance(1, 2) ? 1 + r.below(40) : 1 + r.below(4000); int mode = r.below(4); if((comp == z5::types::bzip2 || comp == z5::types::xz) && n > 20000) n = 20000; if(comp == z5::types::xz && mode == 0 && r.chance(1, 15)) n = 300000 / sizeof(T);
    std::vector<T> data(n); T one = (T)r.next(); for(auto & x : data) { if(mode == 0) { uint64_t w = r.next(); memcpy(&x, &w, sizeof(T)); } else x = mode == 1 ? one : mode == 2 ? (T)r.below(3) : (r.chance(1, 10) ? (T)r.next() : one); } data.shrink_to_fit();
    std::string on; for(auto & kv : o) { on += " " + kv.first + "="; if(auto p = std::get_if<int>(&kv.second)) on += std::to_string(*p); else if(auto b = std::get_if<bool>(&kv.second)) on += *b ? "true" : "false"; else on += std::get<std::string>(kv.second); }
    c.desc << "codec " << (int)comp << on << " element size " << sizeof(T) << " n=" << n << " pattern " << mode; c.nontrivial = comp != z5::types::raw;
    z5::types::Datatype dt = sizeof(T) == 1 ? z5::types::uint8 : sizeof(T) == 2 ? z5::types::int16 : z5::types::int64;
    z5::DatasetMetadata md(dt, Sh{n}, Sh{n}, zarr, comp, o); Mix<T> m(md); auto & k = m.codec(); Z5V_CHECK(k && k->type() == comp, "the codec of the metadata was not created");
    z5::types::CompressionOptions o2; k->getOptions(o2); for(auto & kv : o2) if(o.count(kv.first)) Z5V_CHECK(o[kv.first] == kv.second, "option " << kv.first << " is not reported as configured");
    auto stale = [&] { std::vector<char> b; if(r.chance(1, 2)) { b.resize(r.below(3 * n * sizeof(T) + 10), 'x'); } return b; };
    auto bytes = [&](const void * p) { return std::string((const char *)p, n * sizeof(T)); };
    std::string orig = bytes(data.data()); int op = r.below(5); inject = -1; injected = false; ncall = 0;
    std::vector<char> b = stale();
    if(op == 0) {        // a failure reported while compressing becomes an error
        inject = r.below(3); bool th = false; c.desc << " fail compress call " << inject; try { z5::util::compress(data.data(), n, b, k); } catch(const std::bad_alloc &) { throw; } catch(const std::exception &) { th = true; }
        Z5V_CHECK(th || !injected, "a failure reported by the library while compressing was not turned into an error"); inject = -1; if(th) return;
    } else z5::util::compress(data.data(), n, b, k);
    Z5V_CHECK(bytes(data.data()) == orig, "compressing modified the input");
    if(comp == z5::types::raw) Z5V_CHECK(b.size() == n * sizeof(T) && memcmp(b.data(), data.data(), b.size()) == 0, "raw codec changes the bytes");
    { std::vector<char> b2; z5::util::compress(data.data(), n, b2, k); Z5V_CHECK(b2.size() == b.size() && (comp == z5::types::blosc || b2 == b), "the compressed bytes depend on the previous content of the buffer"); }
    b.shrink_to_fit(); const size_t guard = 128, nb = n * sizeof(T);
    auto dec = [&](const char * p, size_t np, size_t nout, std::string & got) {      // false: error
        std::vector<char> in(p, p + np); in.shrink_to_fit(); bool g = r.chance(1, 2); std::vector<char> out(nout * sizeof(T) + (g ? guard : 0), (char)0x77); out.shrink_to_fit(); T dummy; void * q = out.empty() ? (void *)&dummy : (void *)out.data(); bool ok = true;
        try { z5::util::decompress<T>(in.data(), np, q, nout, k); } catch(const std::bad_alloc &) { throw; } catch(const std::exception &) { ok = false; }
        if(g) for(size_t i = 0; i < guard; ++i) Z5V_CHECK(out[nout * sizeof(T) + i] == (char)0x77, "decompression wrote beyond the output");
        got.assign(out.data(), nout * sizeof(T)); return ok;
    };
    std::string got;
    if(op <= 1) { Z5V_CHECK(dec(b.data(), b.size(), n, got), "decompressing what was compressed fails"); Z5V_CHECK(got == orig, "decompressing does not return the original elements"); if(r.chance(1, 3)) { std::vector<T> out(n); z5::util::decompress<T>(b, out.data(), n, k); Z5V_CHECK(bytes(out.data()) == orig, "decompressing (buffer overload) does not return the original elements"); } }
    else if(op == 2) { inject = comp == z5::types::zlib ? (r.chance(1, 2) ? 1000 : 0) : r.below(3); ncall = 0; injected = false; c.desc << " fail decompress call " << inject; bool ok = dec(b.data(), b.size(), n, got); int i = inject; inject = -1; Z5V_CHECK(!(ok && injected), "a failure reported by the library while decompressing was not turned into an error"); (void)i; }
    else if(op == 3) { size_t small = r.below(n); if(comp == z5::types::raw || r.chance(1, 2)) small = n - 1; c.desc << " into " << small; bool ok = dec(b.data(), b.size(), small, got); Z5V_CHECK(!ok, "a stream longer than the output was accepted"); }
    else { size_t cut = r.chance(1, 2) ? b.size() - 1 - r.below(std::min<size_t>(b.size(), 8)) : r.below(b.size()); c.desc << " truncated to " << cut << " of " << b.size(); bool ok = dec(b.data(), cut, n, got);
        if(comp == z5::types::zlib || comp == z5::types::bzip2 || comp == z5::types::xz || comp == z5::types::raw || comp == z5::types::blosc) Z5V_CHECK(!ok || (cut > 0 && got == orig && comp == z5::types::zlib), "a truncated stream was accepted"); }
    (void)nb;
}
int main(int argc, char ** argv) {
    return run(argc, argv, [](Rng & r, Case & c) { switch(r.below(3)) { case 0: one<uint8_t>(r, c); break; case 1: one<int16_t>(r, c); break; default: one<int64_t>(r, c); } });
}
