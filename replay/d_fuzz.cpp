// Stored bytes under mutation (C07) and the N5 chunk encoding incl. variable-length chunks (C06), address sanitizer
// PARTS=4
#include "e2e.hxx"
using namespace z5v;
namespace z5v { void f1(Rng &, Case &); void f2(Rng &, Case &); void f3(Rng &, Case &);
template<class F> bool err(F && f) { try { f(); } catch(const std::bad_alloc &) { throw; } catch(const Fail &) { throw; } catch(const std::exception &) { return true; } return false; }
inline void be(std::string & o, uint64_t v, int n) { for(int k = n - 1; k >= 0; --k) o += (char)(v >> (8 * k)); }

// --- header functions alone
inline void header(Rng & r, Case & c) {
    size_t nd = r.below(7); if(r.chance(1, 30)) nd = r.below(300); Sh s; for(size_t d = 0; d < nd; ++d) s.push_back(r.chance(1, 6) ? (uint32_t)r.next() : r.chance(1, 10) ? 0 : 1 + r.below(300)); bool var = r.chance(1, 3); uint32_t vl = r.chance(1, 3) ? (uint32_t)r.next() : r.below(1000);
    c.desc << "header " << str(s) << " varlen " << var << " " << vl; c.nontrivial = nd > 1;
    std::string want; be(want, var, 2); be(want, nd, 2); for(size_t d = nd; d-- > 0;) be(want, s[d], 4); if(var) be(want, vl, 4);
    std::vector<char> b; if(r.chance(1, 2)) b.assign(r.below(100), 'z'); z5::util::write_n5_header(b, s, var, vl);
    Z5V_CHECK(std::string(b.begin(), b.end()) == want, "the header is not the one the format prescribes");
    size_t pay = r.below(20); for(size_t i = 0; i < pay; ++i) b.push_back((char)r.next()); b.shrink_to_fit();
    size_t ds = 77, hl = 77; bool v = false; bool ovf = false; size_t p = 1; if(!var) for(auto x : s) { if(x && p > ~(size_t)0 / x) ovf = true; p *= x; }
    bool e = err([&] { v = z5::util::read_n5_header(b, ds, hl); }); if(ovf) return;
    Z5V_CHECK(!e, "a valid header is rejected"); Z5V_CHECK(v == var && hl == want.size() && ds == (var ? vl : p), "the header reads back as varlen " << v << " size " << ds << " length " << hl << ", expected " << var << " " << (var ? vl : p) << " " << want.size());
}
inline void header_fuzz(Rng & r, Case & c) {
    std::vector<char> b(r.below(40)); for(auto & x : b) x = r.chance(2, 3) ? (char)r.below(4) : (char)r.next(); if(b.size() > 3 && r.chance(2, 3)) { b[0] = 0; b[1] = r.below(2); b[2] = 0; b[3] = r.below(9); } b.shrink_to_fit();
    c.desc << "header bytes "; for(unsigned char x : b) c.desc << (int)x << " "; c.nontrivial = true; size_t ds = 0, hl = 0; bool v = false;
    bool e = err([&] { v = z5::util::read_n5_header(b, ds, hl); });
    auto u = [&](size_t p, int n) { uint64_t x = 0; for(int i = 0; i < n; ++i) x = x << 8 | (unsigned char)b[p + i]; return x; };
    if(b.size() < 4) { Z5V_CHECK(e, "a truncated header is accepted"); return; } size_t nd = u(2, 2); bool var = u(0, 2) == 1; size_t len = 4 + 4 * nd + (var ? 4 : 0);
    if(b.size() < len) { Z5V_CHECK(e, "a truncated header is accepted"); return; } if(e) return;
    Z5V_CHECK(v == var && hl == len, "header parsed as varlen " << v << " length " << hl); size_t p = 1; if(var) p = u(4 + 4 * nd, 4); else for(size_t d = 0; d < nd; ++d) p *= u(4 + 4 * d, 4); Z5V_CHECK(ds == p, "header parsed with element count " << ds << ", expected " << p);
}
template<class T> void rev(Rng & r, Case & c) {
    size_t n = r.below(50); std::vector<T> a(n); for(auto & x : a) { uint64_t w = r.next(); memcpy(&x, &w, sizeof(T)); } a.shrink_to_fit(); auto b = a; c.desc << "byte order of " << n << " elements of " << sizeof(T); c.nontrivial = n > 1;
    auto eq = [&](const T * x, const T * y, bool flip) { const char * p = (const char *)x, * q = (const char *)y; for(size_t i = 0; i < n; ++i) for(size_t k = 0; k < sizeof(T); ++k) if(p[i * sizeof(T) + k] != q[i * sizeof(T) + (flip ? sizeof(T) - 1 - k : k)]) return false; return true; };
    z5::util::reverseEndiannessInplace<T>(b.begin(), b.end()); Z5V_CHECK(eq(a.data(), b.data(), true), "bytes are not reversed within each element");
    z5::util::reverseEndiannessInplace<T>(b.data(), b.data() + n); Z5V_CHECK(eq(a.data(), b.data(), false), "reversing twice does not restore the elements");
    if(n) { T x = a[0]; z5::util::reverseEndiannessInplace<T>(x); char p[sizeof(T)]; memcpy(p, &a[0], sizeof(T)); std::reverse(p, p + sizeof(T)); Z5V_CHECK(memcmp(p, &x, sizeof(T)) == 0, "single value is not reversed"); }
}
// --- shard index alone
inline void index_fuzz(Rng & r, Case & c) {
    size_t n = r.below(9); if(r.chance(1, 20)) n = r.below(200); size_t data = r.below(60); std::string b; for(size_t i = 0; i < data; ++i) b += (char)r.next(); std::string idx; auto le = [](std::string & o, uint64_t v, int k) { for(int i = 0; i < k; ++i) o += (char)(v >> (8 * i)); };
    bool ok = true, amb = false; std::vector<std::pair<uint64_t, uint64_t>> e;
    for(size_t s = 0; s < n; ++s) { uint64_t o, l; int k = r.below(12); if(k < 3) o = l = ~0ull; else { o = r.below(data + 1); l = r.below(data - o + 1); if(k == 4) l = data - o; if(k == 5 && r.chance(1, 3)) l = data - o + 1 + r.below(30); if(k == 6 && r.chance(1, 3)) o = data + 1 + r.below(30); if(k == 7 && r.chance(1, 4)) { o = ~0ull - r.below(40); l = 1 + r.below(200); } if(k == 8 && r.chance(1, 4)) l = ~0ull - r.below(80); if(k == 9 && r.chance(1, 6)) o = ~0ull; if(k == 10 && r.chance(1, 6)) { o = 1 + r.below(data + 1); l = 0 - o; } }
        bool half = (o == ~0ull) != (l == ~0ull); if(half) amb = true; else if(o != ~0ull && (o > data || l > data - o)) ok = false; e.push_back({o, l}); le(idx, o, 8); le(idx, l, 8); }
    uint32_t crc = crc_bits(idx.data(), idx.size()); b += idx; le(b, crc, 4); int mut = r.below(5); if(mut == 0) { size_t cut = 1 + r.below(b.size()); if(r.chance(1, 2)) b.resize(b.size() - cut); else b.erase(0, cut); ok = true; amb = true; if(b.size() < 16 * n + 4) { ok = false; amb = false; } }
    else if(mut == 1) { size_t p = data + r.below(b.size() - data); b[p] ^= (char)(1 << r.below(8)); ok = false; amb = false; }
    std::vector<char> v(b.begin(), b.end()); v.shrink_to_fit(); std::vector<z5::util::ShardEntry> out; if(r.chance(1, 2)) out.resize(r.below(20)); c.desc << "index of " << n << " slots over " << data << " bytes, mutation " << mut; c.nontrivial = n > 1;
    bool got = z5::util::parseShardIndex(v, n, out); if(!amb) Z5V_CHECK(got == ok, "a shard index is " << (got ? "accepted" : "rejected") << " although it is " << (ok ? "valid" : "invalid"));
    if(got) { Z5V_CHECK(out.size() == n, "number of entries"); for(size_t s = 0; s < n; ++s) { if(mut > 1) { Z5V_CHECK(out[s].offset == e[s].first && out[s].nbytes == e[s].second, "entry " << s << " is not the stored one"); } if(!out[s].empty()) Z5V_CHECK(out[s].offset <= v.size() && out[s].nbytes <= v.size() - out[s].offset, "accepted entry " << s << " lies outside the object"); }
        std::vector<std::vector<char>> bl; if(r.chance(1, 2)) bl.resize(r.below(12), std::vector<char>(3, 'q')); z5::util::extractShardBlobs(v, out, bl); Z5V_CHECK(bl.size() == n, "number of blobs"); for(size_t s = 0; s < n; ++s) { std::string want = out[s].empty() ? std::string() : std::string(v.begin() + out[s].offset, v.begin() + out[s].offset + out[s].nbytes); Z5V_CHECK(std::string(bl[s].begin(), bl[s].end()) == want, "blob " << s << " is not the bytes its entry describes"); } }
}
template<class T> struct Fuzz : World<T> {
    using W = World<T>; using W::r; using W::c; using W::g; using W::ds; using W::root; using W::P; using W::M;
    Fuzz(Rng & r_, Case & c_, Cfg g_) : W(r_, c_, g_) {}
    std::string mutate(std::string b) {
        int k = r.below(10); size_t foot = g.sharded() ? 16 * W::nslots() + 4 : 0; c.desc << "; mutation " << k;
        if(k == 0) { b.resize(r.below(b.size() + 1)); }
        else if(k == 1) { size_t n = 1 + r.below(30); for(size_t i = 0; i < n; ++i) b += (char)r.next(); }
        else if(k == 2) { size_t n = 1 + r.below(4); for(size_t i = 0; i < n && b.size(); ++i) b[r.below(b.size())] = (char)r.next(); }
        else if(k == 3) { size_t n = std::min<size_t>(b.size(), 20); for(size_t i = 0; i < n; ++i) if(r.chance(1, 4)) b[i] = r.chance(1, 2) ? (char)r.next() : (char)(r.chance(1, 2) ? 0 : 0xff); }
        else if(k == 4) { b.clear(); size_t n = r.below(80); for(size_t i = 0; i < n; ++i) b += (char)r.next(); }
        else if(k == 5 && g.kind == 0 && b.size() >= 4) {      // header fields
            int w = r.below(4); if(w == 0) { b[1] = (char)r.below(3); } else if(w == 1) { b[2] = r.chance(1, 3) ? (char)r.next() : 0; b[3] = (char)r.below(8); } else { size_t d = r.below(P.size()); if(b.size() >= 8 + 4 * d) { std::string f; uint64_t cs = g.chunk[P.size() - 1 - d]; be(f, r.chance(1, 2) ? cs + r.below(4) : r.chance(1, 2) ? r.next() : r.below(cs + 1), 4); b.replace(4 + 4 * d, 4, f); } if(w == 3) { b[1] = 1; } }
        }
        else if(k == 6 && g.kind == 0 && b.size() >= 4) {      // a variable-length chunk
            size_t n = r.below(60); std::string h; be(h, 1, 2); be(h, P.size(), 2); for(size_t d = P.size(); d-- > 0;) be(h, g.chunk[d], 4); be(h, n, 4); std::string pay; for(size_t i = 0; i < n * sizeof(T); ++i) pay += (char)r.next(); if(r.chance(1, 3) && pay.size()) pay.resize(pay.size() - 1); b = h + pay; }
        else if(k >= 5 && g.sharded() && b.size() >= foot) {   // index entries with a correct checksum
            size_t st = b.size() - foot; size_t n = 1 + r.below(2); for(size_t i = 0; i < n; ++i) { size_t p = st + 16 * r.below(W::nslots()) + (r.chance(1, 2) ? 8 : 0); int w = r.below(5); uint64_t v = w == 0 ? r.next() : w == 1 ? ~0ull - r.below(200) : w == 2 ? st + r.below(40) : w == 3 ? r.below(st + 2) : 0; for(int q = 0; q < 8; ++q) b[p + q] = (char)(v >> (8 * q)); }
            if(r.chance(5, 6)) { uint32_t crc = crc_bits(b.data() + st, foot - 4); for(int q = 0; q < 4; ++q) b[b.size() - 4 + q] = (char)(crc >> (8 * q)); }
        }
        else if(b.size() > 1) { size_t p = r.below(b.size()), n = 1 + r.below(std::min<size_t>(8, b.size() - p)); b.erase(p, n); }
        return b;
    }
    void corrupt() {
        size_t w = 1 + r.below(3); for(size_t i = 0; i < w; ++i) { int k = r.below(3); if(k == 0) W::write_chunk(); else if(k == 1) W::write_region(); else { Sh off(g.shape.size(), 0); ma::writeScalar<T>(*ds, off.begin(), g.shape.begin(), (T)(1 + (W::fill == (T)1)), 1); grid(g.shape, [&](const Sh & x) { M[W::at(x)] = (T)(1 + (W::fill == (T)1)); }); } }
        std::map<std::string, Sh> files; for(auto & ch : W::all()) { std::string f = W::file_of(ch); if(std::filesystem::exists(f)) files[f] = ch; } if(files.empty()) return;
        std::set<std::string> bad; std::vector<std::pair<std::string, Sh>> fl(files.begin(), files.end()); size_t nm = 1 + r.below(2); for(size_t i = 0; i < nm; ++i) { auto & f = fl[r.below(fl.size())]; c.desc << "; file of chunk " << str(f.second); spit(f.first, mutate(slurp(f.first))); bad.insert(f.first); }
        int nops = 3 + r.below(4);
        for(int i = 0; i < nops; ++i) {
            auto & f = fl[r.below(fl.size())]; Sh ch = f.second; if(g.sharded()) { auto a = W::all(); ch = r.pick(a); if(!files.count(W::file_of(ch))) continue; } std::string file = W::file_of(ch), bytes = std::filesystem::exists(file) ? slurp(file) : ""; if(!std::filesystem::exists(file)) continue; int op = r.below(9); std::map<size_t, std::string> m; bool idx = !g.sharded() || W::parse_shard(bytes, m);
            bool half = false; if(g.sharded() && !idx && bytes.size() >= 16 * W::nslots() + 4) { size_t st = bytes.size() - 16 * W::nslots() - 4; for(size_t s = 0; s < W::nslots(); ++s) { bool a = true, b = true; for(int q = 0; q < 8; ++q) { a = a && (unsigned char)bytes[st + 16 * s + q] == 255; b = b && (unsigned char)bytes[st + 16 * s + 8 + q] == 255; } half = half || a != b; } }
            c.desc << "; op " << op;
            if(op == 0) {
                size_t vs = 0, cap = g.zarr() ? prod(g.chunk) : prod(g.chunk); bool var = false; bool e0 = err([&] { var = ds->checkVarlenChunk(ch, vs); }); if(!e0 && var) { if(vs > (1u << 20)) continue; cap = std::max(cap, vs); }
                std::vector<T> out(cap, (T)91); out.shrink_to_fit(); bool e = err([&] { ds->readChunk(ch, out.data()); }); if(!idx && !half) CHK("C07", e, "a chunk of a shard with an invalid index is read without an error");
                if(g.comp == "raw" && g.kind == 1) CHK("C07", e == (bytes.size() != prod(g.chunk) * sizeof(T)), "a raw chunk of " << bytes.size() << " bytes is " << (e ? "rejected" : "accepted")); if(g.comp == "raw" && g.kind == 1 && !e) CHK("C07", memcmp(out.data(), bytes.data(), bytes.size()) == 0, "a raw chunk is not read back");
                if(g.comp == "raw" && g.sharded() && idx && m.count(W::slot_of(ch))) CHK("C07", e == (m[W::slot_of(ch)].size() != prod(g.chunk) * sizeof(T)), "an inner chunk of " << m[W::slot_of(ch)].size() << " bytes is " << (e ? "rejected" : "accepted"));
            }
            else if(op == 1 || op == 2) { Sh off, s = W::region(off); Strided<T> v(r, s); bool e = err([&] { ma::readSubarray<T>(*ds, v.view(), off.begin(), r.chance(3, 4) ? 1 : 2); }); CHK("C07", v.untouched_outside(), "reading a corrupt dataset wrote outside the output"); bool touch = false; for(auto & x : W::chunks_of(off, s)) touch = touch || W::file_of(x) == file; if(!idx && !half && touch) CHK("C07", e, "a region of a shard with an invalid index is read without an error"); if(g.kind == 1 && g.comp == "raw" && touch && bytes.size() != prod(g.chunk) * sizeof(T)) CHK("C07", e, "a region with a chunk of a wrong size is read without an error"); }
            else if(op == 3) { std::vector<char> b; bool e = err([&] { ds->readRawChunk(ch, b); }); if(!idx && !half) CHK("C07", e, "the raw chunk of a shard with an invalid index is read without an error"); if(!e && !g.sharded()) CHK("C07", std::string(b.begin(), b.end()) == bytes, "the raw chunk is not the stored bytes"); if(!e && idx && g.sharded()) CHK("C07", std::string(b.begin(), b.end()) == (m.count(W::slot_of(ch)) ? m[W::slot_of(ch)] : ""), "the raw inner chunk is not the stored bytes"); if(!e && b.size()) { b.shrink_to_fit(); std::vector<T> out(prod(g.chunk)); err([&] { ds->decompress(b, out.data(), out.size()); }); } }
            else if(op == 4) { bool x = false; bool e = err([&] { x = ds->chunkExists(ch); }); if(!idx && !half) CHK("C07", e, "chunkExists answers for a shard with an invalid index"); }
            else if(op == 5) { size_t vs = 0; bool v = false; err([&] { v = ds->checkVarlenChunk(ch, vs); }); }
            else if(op == 6) { Sh s; bool e = err([&] { ds->getChunkShape(ch, s, true); }); if(!e) CHK("C07", s.size() == P.size(), "chunk shape from the header has " << s.size() << " axes"); err([&] { ds->getChunkShape(ch, 0u, true); }); }
            else if(op == 7) { Sh off, s = W::region(off); err([&] { ma::writeScalar<T>(*ds, off.begin(), s.begin(), W::val(), 1); }); }
            else { std::vector<T> b(prod(g.chunk), W::val()); err([&] { if(r.chance(1, 2)) ds->writeChunk(ch, b.data()); else ds->removeChunk(ch); }); if(!idx && !half && std::filesystem::exists(file)) CHK("C07", slurp(file) == bytes, "a shard with an invalid index was replaced, dropping its other chunks"); }
        }
    }
    void varlen() {       // variable-length chunks of an n5 dataset
        Sh ch = W::chunk(); size_t n = r.below(80); std::vector<T> d(n); for(auto & x : d) x = W::val(); d.shrink_to_fit(); T one; c.desc << "; varlen chunk " << str(ch) << " n=" << n; c.nontrivial = true; ds->writeChunk(ch, n ? d.data() : &one, true, n); std::string f = W::file_of(ch);
        if(n == 0) { CHK("C06", !std::filesystem::exists(f), "an empty variable-length chunk is stored"); return; }
        std::string want, b = slurp(f); be(want, 1, 2); be(want, P.size(), 2); Sh s = W::clipped(ch); for(size_t k = s.size(); k-- > 0;) be(want, s[k], 4); be(want, n, 4); if(g.comp == "raw") for(auto x : d) { char t[sizeof(T)]; memcpy(t, &x, sizeof(T)); std::reverse(t, t + sizeof(T)); want.append(t, sizeof(T)); }
        CHK("C06", g.comp == "raw" ? b == want : b.substr(0, want.size()) == want, "the stored variable-length chunk is not what the format prescribes"); size_t vs = 0; bool v = ds->checkVarlenChunk(ch, vs); CHK("C06", v && vs == n, "variable-length chunk of " << n << " elements reported as " << v << " " << vs);
        std::vector<T> out(n, (T)91); out.shrink_to_fit(); v = ds->readChunk(ch, out.data()); CHK("C06", v, "a variable-length chunk is read as a regular one"); for(size_t i = 0; i < n; ++i) CHK("C06", same(out[i], d[i]), "element " << i << " of a variable-length chunk reads " << +out[i] << ", expected " << +d[i]);
        Sh h; ds->getChunkShape(ch, h, true); CHK("C06", h == s, "the shape in the header reads as " << str(h) << ", expected " << str(s)); for(unsigned k = 0; k < s.size(); ++k) CHK("C06", ds->getChunkShape(ch, k, true) == s[k], "axis of the shape in the header");
        size_t v2 = 0; for(auto & o : W::all()) if(o != ch && W::ds->chunkExists(o) && !W::touched.count(o)) { bool q = ds->checkVarlenChunk(o, v2); (void)q; }
    }
    void regular() { W::write_chunk(); Sh ch = W::chunk(); size_t vs = 0; if(!ds->chunkExists(ch)) return; c.nontrivial = true; bool v = ds->checkVarlenChunk(ch, vs); CHK("C06", !v && vs == prod(W::clipped(ch)), "a regular chunk is reported as varlen " << v << " with " << vs << " elements"); Sh h; ds->getChunkShape(ch, h, true); CHK("C06", h == W::clipped(ch), "the shape in the header reads as " << str(h)); W::audit(); W::read_chunk("C06"); }
};
template<class T> void fz(Rng & r, Case & c) {
    const std::string & p = c.prop; int k = r.below(10);
    if(p == "C06") { if(k < 3) { header(r, c); return; } if(k == 3) { header_fuzz(r, c); return; } if(k < 6) { rev<T>(r, c); return; } Cfg g = random_cfg(r, c, 0); try { Fuzz<T> w(r, c, g); for(int i = 0; i < 3; ++i) if(k < 8) w.varlen(); else w.regular(); } catch(const Abandon &) {} return; }
    if(k < 2) { header_fuzz(r, c); return; } if(k < 5) { index_fuzz(r, c); return; }
    Cfg g = random_cfg(r, c, k == 5 ? 3 : -1); if(g.comp == "raw") c.nontrivial = true; try { Fuzz<T> w(r, c, g); w.corrupt(); } catch(const Abandon &) {}
}
#if PART == 1
void f1(Rng & r, Case & c) { fz<uint8_t>(r, c); }
#elif PART == 2
void f2(Rng & r, Case & c) { fz<int16_t>(r, c); }
#elif PART == 3
void f3(Rng & r, Case & c) { fz<double>(r, c); }
#endif
}
#if PART == 0
#include "z5/factory.hxx"
namespace z5v {
std::unique_ptr<z5::Dataset> opends(const zfs::handle::File & f) { return z5::openDataset(f, "ds"); }
std::unique_ptr<z5::Dataset> mkds(const zfs::handle::File & f, const std::string & dtype, const Sh & shape, const Sh & chunk, const std::string & comp, const z5::types::CompressionOptions & o, double fill, const std::string & delim, int fmt, const std::string & enc, const Sh & shard) { return z5::createDataset(f, "ds", dtype, shape, chunk, comp, o, fill, delim, fmt, enc, shard); }
void mkfile(const zfs::handle::File & f, bool zarr, int fmt) { z5::createFile(f, zarr, fmt); }
}
int main(int argc, char ** argv) { return run(argc, argv, [](Rng & r, Case & c) { static void (*f[])(Rng &, Case &) = {f1, f2, f3}; f[r.below(3)](r, c); }, 8, 60, 0); }
#endif
