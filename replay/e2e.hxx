// Random dataset configurations and operation histories against an in-memory model (shared by the end-to-end stand-ins).
#pragma once
#include "z5v.hxx"
#include <cmath>
#include <mutex>
#include "z5/dataset.hxx"
#include "z5/filesystem/handle.hxx"
#include "z5/multiarray/array_access.hxx"
#include "z5/multiarray/broadcast.hxx"
#include "z5/attributes.hxx"
#include "z5/util/for_each.hxx"
namespace z5v {
namespace zfs = z5::filesystem;
namespace ma = z5::multiarray;
struct Abandon {};
// the factory functions are instantiated in one translation unit (d_e2e.cpp part 0)
std::unique_ptr<z5::Dataset> opends(const zfs::handle::File & f);
std::unique_ptr<z5::Dataset> mkds(const zfs::handle::File & f, const std::string & dtype, const Sh & shape, const Sh & chunk, const std::string & comp, const z5::types::CompressionOptions & o, double fill, const std::string & delim, int fmt, const std::string & enc, const Sh & shard);
void mkfile(const zfs::handle::File & f, bool zarr, int fmt);
// an assertion that belongs to the listed properties; for any other property the case is abandoned without a verdict
#define CHK(props, cond, m) do { if(!(cond)) { if(strstr(props, c.prop.c_str())) { std::ostringstream o_; o_ << m; ::z5v::fail(o_.str()); } throw ::z5v::Abandon(); } } while(0)

inline size_t prod(const Sh & s) { size_t p = 1; for(auto x : s) p *= x; return p; }
template<class F> void grid(const Sh & n, F && f) { for(auto x : n) if(x == 0) return; Sh i(n.size(), 0); for(;;) { f(i); int d = (int)n.size() - 1; for(; d >= 0; --d) { if(++i[d] < n[d]) break; i[d] = 0; } if(d < 0) break; } }
template<class T> bool same(T a, T b) { return a == b || memcmp(&a, &b, sizeof(T)) == 0 || (a != a && b != b); }
inline uint32_t crc_bits(const char * p, size_t n) { uint32_t r = 0xFFFFFFFFu; for(size_t i = 0; i < n; ++i) { r ^= (unsigned char)p[i]; for(int k = 0; k < 8; ++k) r = (r >> 1) ^ (0x82F63B78u & (0u - (r & 1u))); } return ~r; }
inline std::map<std::string, std::string> tree(const std::string & root) {
    std::map<std::string, std::string> t; namespace fs = std::filesystem;
    if(fs::exists(root)) for(auto & e : fs::recursive_directory_iterator(root)) {
        std::string k = fs::relative(e.path(), root).string();
        if(e.is_directory()) t[k + "/"] = ""; else { std::ifstream f(e.path(), std::ios::binary); t[k] = std::string(std::istreambuf_iterator<char>(f), {}); }
    }
    return t;
}
inline std::string slurp(const std::string & p) { std::ifstream f(p, std::ios::binary); return std::string(std::istreambuf_iterator<char>(f), {}); }
inline void spit(const std::string & p, const std::string & b) { std::filesystem::create_directories(std::filesystem::path(p).parent_path()); std::ofstream f(p, std::ios::binary); f.write(b.data(), b.size()); }

// a strided view with gaps, random axis order and canary elements between and around the addressed elements
template<class T> struct Strided {
    std::vector<T> buf; Sh shape, strides; size_t off; std::vector<char> hit;
    static T canary(size_t i) { return (T)(37 + (i * 11) % 83); }
    Strided(Rng & r, const Sh & sh) : shape(sh), strides(sh.size(), 1) {
        std::vector<size_t> ord(sh.size()); for(size_t i = 0; i < ord.size(); ++i) ord[i] = ord.size() - 1 - i;
        bool plain = r.chance(1, 3); if(!plain && r.chance(1, 2)) for(size_t i = ord.size(); i > 1; --i) std::swap(ord[i - 1], ord[r.below(i)]);
        size_t s = plain ? 1 : 1 + (r.chance(1, 3) ? r.below(3) : 0);
        for(auto d : ord) { strides[d] = s; s *= sh[d]; if(!plain && r.chance(1, 3)) s += r.below(4); }
        size_t ext = 1; for(size_t d = 0; d < sh.size(); ++d) ext += (sh[d] - 1) * strides[d];
        size_t pre = r.below(5), post = r.below(5);
        off = pre; buf.resize(pre + ext + post); for(size_t i = 0; i < buf.size(); ++i) buf[i] = canary(i);
        buf.shrink_to_fit(); hit.assign(buf.size(), 0); grid(sh, [&](const Sh & i) { hit[pos(i)] = 1; });
    }
    size_t pos(const Sh & i) const { size_t p = off; for(size_t d = 0; d < i.size(); ++d) p += i[d] * strides[d]; return p; }
    ma::ArrayView<T> view() { return ma::ArrayView<T>(buf.data() + off, shape, strides); }
    bool untouched_outside() const { for(size_t i = 0; i < buf.size(); ++i) if(!hit[i] && memcmp(&buf[i], std::vector<T>{canary(i)}.data(), sizeof(T))) return false; return true; }
    bool untouched() const { for(size_t i = 0; i < buf.size(); ++i) if(memcmp(&buf[i], std::vector<T>{canary(i)}.data(), sizeof(T))) return false; return true; }
};

struct Cfg {
    int kind = 0; Sh shape, chunk, shard; std::string dtype, comp = "raw", delim = ".", enc = "default"; double fill = 0; z5::types::CompressionOptions opts; int level = -1;
    bool zarr() const { return kind > 0; } bool sharded() const { return kind == 3; } int fmt() const { return kind >= 2 ? 3 : 2; }
    std::string str() const {
        std::ostringstream o; const char * k[] = {"n5", "zarr2", "zarr3", "zarr3-sharded"};
        o << k[kind] << " " << dtype << " shape=" << z5v::str(shape) << " chunk=" << z5v::str(chunk); if(sharded()) o << " shard=" << z5v::str(shard);
        o << " " << comp << " fill=" << fill << " sep='" << delim << "' enc=" << enc; return o.str();
    }
};
template<class T> struct Name;
template<> struct Name<int8_t> { static const char * s() { return "int8"; } };   template<> struct Name<uint8_t> { static const char * s() { return "uint8"; } };
template<> struct Name<int16_t> { static const char * s() { return "int16"; } }; template<> struct Name<uint16_t> { static const char * s() { return "uint16"; } };
template<> struct Name<int32_t> { static const char * s() { return "int32"; } }; template<> struct Name<uint32_t> { static const char * s() { return "uint32"; } };
template<> struct Name<int64_t> { static const char * s() { return "int64"; } }; template<> struct Name<uint64_t> { static const char * s() { return "uint64"; } };
template<> struct Name<float> { static const char * s() { return "float32"; } }; template<> struct Name<double> { static const char * s() { return "float64"; } };

inline Cfg random_cfg(Rng & r, const Case & c, int forcekind = -1) {
    Cfg g; g.kind = forcekind >= 0 ? forcekind : (int)r.below(4);
    size_t nd = 1 + r.below(4); if(r.chance(1, 12)) nd = 5; size_t budget = 3000;
    for(size_t d = 0; d < nd; ++d) {
        size_t lim = nd == 1 ? 60 : nd == 2 ? 24 : nd == 3 ? 11 : nd == 4 ? 6 : 4; size_t s = 1 + r.below(std::min(lim, std::max<size_t>(1, budget))); budget = std::max<size_t>(1, budget / s);
        size_t ch = r.chance(1, 6) ? s : r.chance(1, 8) ? s + r.below(3) : 1 + r.below(std::min<size_t>(s, nd <= 2 ? 10 : 5));
        if(s / ch > 12) ch = s / 8 + 1;
        g.shape.push_back(s); g.chunk.push_back(ch);
    }
    if(g.sharded()) for(size_t d = 0; d < nd; ++d) g.shard.push_back(g.chunk[d] * (1 + r.below(nd <= 2 ? 4 : 3)));
    if(r.chance(1, 40)) {          // large chunks: element counts around powers of two
        nd = 1 + r.below(3); g.shape.clear(); g.chunk.clear(); g.shard.clear(); size_t t = ((size_t)1 << (8 + r.below(r.chance(1, 4) ? 9 : 6))) + r.below(3) - 1;
        for(size_t d = 0; d < nd; ++d) { size_t ch = d + 1 == nd ? t : 1 + r.below(2); g.chunk.push_back(ch); g.shape.push_back(d + 1 == nd ? (r.chance(1, 2) ? ch : ch + 1 + r.below(ch)) : ch + r.below(2)); }
        if(g.sharded()) for(size_t d = 0; d < nd; ++d) g.shard.push_back(g.chunk[d] * (1 + r.below(2)));
    }
    std::vector<std::string> comps = {"raw", "raw", "blosc", "zlib", "zstd"};
    if(g.kind == 0) { comps = {"raw", "raw", "blosc", "gzip", "zstd", "bzip2", "lz4", "xz"}; }
    if(g.kind == 1) { comps = {"raw", "raw", "blosc", "zlib", "gzip", "zstd", "bzip2", "lz4"}; }
    g.comp = r.pick(comps); if(c.prop == "C06" || c.prop == "C10" || c.prop == "C09") if(r.chance(2, 3)) g.comp = "raw";
    if(g.kind >= 2 && g.comp == "zlib" && r.chance(1, 2)) g.comp = "gzip";
    if(g.zarr() && r.chance(1, 2)) g.delim = "/";
    if(g.kind >= 2 && r.chance(1, 3)) g.enc = "v2";
    if(g.comp == "zlib" || g.comp == "gzip") { if(g.kind == 1) { g.opts["useZlib"] = g.comp == "zlib"; g.comp = "zlib"; } }
    if(r.chance(1, 2) && g.comp != "raw") g.opts["level"] = (int)(g.comp == "bzip2" || g.comp == "lz4" ? 1 + r.below(9) : 1 + r.below(6));
    if(g.comp == "blosc" && r.chance(1, 2)) { g.opts["shuffle"] = (int)r.below(3); std::vector<std::string> cd = {"lz4", "lz4hc", "blosclz", "zlib", "zstd"}; g.opts["codec"] = r.pick(cd); }
    return g;
}

template<class T> struct World {
    Rng & r; Case & c; Cfg g; std::string root; std::unique_ptr<z5::Dataset> ds; zfs::handle::File file;
    Sh P, padded; std::vector<T> M; T fill; std::vector<std::set<size_t>> dummy; std::set<Sh> written; std::vector<T> vals;
    std::map<Sh, char> touched; std::set<Sh> full;      // n5 edge chunks another writer stored at full size
    World(Rng & r_, Case & c_, Cfg g_) : r(r_), c(c_), g(g_), root(c_.scratch + "/f"), file(c_.scratch + "/f", z5::FileMode(z5::FileMode::a)) {
        g.dtype = Name<T>::s();
        pick_fill(); c.desc << g.str();
        mkfile(file, g.zarr(), g.fmt());
        ds = mkds(file, g.dtype, g.shape, g.chunk, g.comp, g.opts, g.fill, g.delim, g.fmt(), g.enc, g.shard);
        for(size_t d = 0; d < g.shape.size(); ++d) { P.push_back((g.shape[d] + g.chunk[d] - 1) / g.chunk[d]); padded.push_back(P[d] * g.chunk[d]); }
        M.assign(prod(padded), fill);
        c.nontrivial = prod(P) > 1;
        vals = {fill, (T)0, (T)1, (T)7, std::numeric_limits<T>::max(), std::numeric_limits<T>::lowest()};
        if constexpr(std::is_floating_point<T>::value) { vals.push_back((T)-0.5); vals.push_back(std::numeric_limits<T>::infinity()); vals.push_back(std::numeric_limits<T>::quiet_NaN()); }
    }
    void pick_fill() {
        g.fill = 0; if(g.zarr() && r.chance(1, 2)) {
            g.fill = (double)(T)(1 + r.below(100));
            if constexpr(std::is_floating_point<T>::value) { int k = r.below(6); if(k == 0) g.fill = std::numeric_limits<double>::quiet_NaN(); if(k == 1) g.fill = std::numeric_limits<double>::infinity(); if(k == 2) g.fill = -std::numeric_limits<double>::infinity(); if(k == 3) g.fill = -0.25; }
            else if(std::is_signed<T>::value && r.chance(1, 2)) g.fill = -g.fill;
            else if(sizeof(T) <= 4 && r.chance(1, 4)) g.fill = (double)std::numeric_limits<T>::max();
        }
        fill = static_cast<T>(g.fill);
        if(!g.zarr() && r.chance(1, 3)) g.fill = 5;      // the format has no fill value: readers substitute 0
    }
    T val() { if(r.chance(1, 4)) return r.pick(vals); if constexpr(std::is_floating_point<T>::value) return (T)((int64_t)r.below(2000) - 1000) / 8; else return (T)r.next(); }
    size_t at(const Sh & i) const { size_t p = 0; for(size_t d = 0; d < i.size(); ++d) p = p * padded[d] + i[d]; return p; }
    Sh clipped(const Sh & ch) const { Sh s; for(size_t d = 0; d < ch.size(); ++d) s.push_back(std::min(g.chunk[d], g.shape[d] - ch[d] * g.chunk[d])); return s; }
    Sh stored(const Sh & ch) const { return g.zarr() || full.count(ch) ? g.chunk : clipped(ch); }
    void rewritten(const Sh & ch) { touched[ch] = 1; full.erase(ch); }      // z5 has stored the chunk
    Sh abs(const Sh & ch, const Sh & i) const { Sh a(i); for(size_t d = 0; d < i.size(); ++d) a[d] += ch[d] * g.chunk[d]; return a; }
    bool allfill(const Sh & ch) const { bool e = true; grid(stored(ch), [&](const Sh & i) { if(!same(M[at(abs(ch, i))], fill)) e = false; }); return e; }
    std::string key(const Sh & ch) const {
        std::string k; size_t n = ch.size();
        if(g.kind == 0) { for(size_t d = n; d-- > 0;) k += std::to_string(ch[d]) + (d ? "/" : ""); return k; }
        if(g.kind >= 2 && g.enc == "default") k = "c" + g.delim;
        for(size_t d = 0; d < n; ++d) k += (d ? g.delim : "") + std::to_string(ch[d]);
        return k;
    }
    std::string file_of(const Sh & ch) const { Sh s(ch); if(g.sharded()) for(size_t d = 0; d < s.size(); ++d) s[d] /= g.shard[d] / g.chunk[d]; return root + "/ds/" + key(s); }
    size_t slot_of(const Sh & ch) const { size_t s = 0; for(size_t d = 0; d < ch.size(); ++d) { size_t k = g.shard[d] / g.chunk[d]; s = s * k + ch[d] % k; } return s; }
    size_t nslots() const { size_t n = 1; for(size_t d = 0; d < g.shape.size(); ++d) n *= g.shard[d] / g.chunk[d]; return n; }
    std::string raw_bytes(const Sh & ch) const {      // what the format prescribes for an uncompressed chunk
        std::string b; Sh s = stored(ch); bool be = g.kind == 0;
        if(be) { auto u = [&](uint32_t v, int n) { for(int k = n - 1; k >= 0; --k) b += (char)(v >> (8 * k)); }; u(0, 2); u(s.size(), 2); for(size_t d = s.size(); d-- > 0;) u(s[d], 4); }
        grid(s, [&](const Sh & i) { T v = M[at(abs(ch, i))]; char t[sizeof(T)]; memcpy(t, &v, sizeof(T)); if(be) std::reverse(t, t + sizeof(T)); b.append(t, sizeof(T)); });
        return b;
    }
    // independent reading of a shard container: slot -> blob (empty optional if absent); false if malformed
    bool parse_shard(const std::string & b, std::map<size_t, std::string> & out) const {
        size_t n = nslots(), foot = 16 * n + 4; if(b.size() < foot) return false; size_t st = b.size() - foot;
        auto le = [&](size_t p, int k) { uint64_t v = 0; for(int i = 0; i < k; ++i) v |= (uint64_t)(unsigned char)b[p + i] << (8 * i); return v; };
        if(crc_bits(b.data() + st, 16 * n) != le(b.size() - 4, 4)) return false;
        for(size_t s = 0; s < n; ++s) { uint64_t o = le(st + 16 * s, 8), l = le(st + 16 * s + 8, 8); if(o == ~0ull && l == ~0ull) continue; if(o > st || l > st - o) return false; out[s] = b.substr(o, l); }
        return true;
    }
    Sh region(Sh & off) { Sh s(g.shape.size()); off.resize(s.size()); for(size_t d = 0; d < s.size(); ++d) { int k = r.below(5); if(k == 0) { off[d] = 0; s[d] = g.shape[d]; } else if(k == 1) { off[d] = (r.below(P[d])) * g.chunk[d]; s[d] = std::min(g.chunk[d] * (1 + r.below(2)), g.shape[d] - off[d]); } else { off[d] = r.below(g.shape[d]); s[d] = 1 + r.below(g.shape[d] - off[d]); } } return s; }
    Sh chunk() { Sh ch(P.size()); for(size_t d = 0; d < ch.size(); ++d) ch[d] = r.below(P[d]); return ch; }
    int threads() { static const int t[] = {1, 1, 1, 2, 4, 8, 3, 0}; return t[r.below(8)]; }
    std::set<Sh> chunks_of(const Sh & off, const Sh & s) { std::set<Sh> o; grid(P, [&](const Sh & ch) { bool in = true; for(size_t d = 0; d < ch.size(); ++d) in = in && ch[d] * g.chunk[d] < off[d] + s[d] && off[d] < (ch[d] + 1) * g.chunk[d]; if(in) o.insert(ch); }); return o; }

    void write_region() {
        Sh off, s = region(off); int th = threads(); bool fillish = r.chance(1, 5);
        Strided<T> v(r, s); grid(s, [&](const Sh & i) { v.buf[v.pos(i)] = fillish ? fill : val(); });
        c.desc << "; write " << str(off) << "+" << str(s) << " strides " << str(v.strides) << " t" << th << (fillish ? " fill" : "");
        auto copy = v.buf;
        if(r.chance(1, 2)) ma::writeSubarray<T>(*ds, ma::ConstArrayView<T>(v.view()), off.begin(), th); else ma::writeSubarray<T>(ds, ma::ConstArrayView<T>(v.view()), off.begin(), th);
        CHK("C02 C04", memcmp(copy.data(), v.buf.data(), copy.size() * sizeof(T)) == 0, "the source array was modified");
        grid(s, [&](const Sh & i) { Sh a(i); for(size_t d = 0; d < a.size(); ++d) a[d] += off[d]; M[at(a)] = v.buf[v.pos(i)]; });
        for(auto & ch : chunks_of(off, s)) rewritten(ch);
    }
    void write_scalar() {
        Sh off, s = region(off); int th = threads(); T x = r.chance(1, 3) ? fill : val();
        c.desc << "; scalar " << str(off) << "+" << str(s) << " = " << +x << " t" << th;
        ma::writeScalar<T>(*ds, off.begin(), s.begin(), x, th);
        grid(s, [&](const Sh & i) { Sh a(i); for(size_t d = 0; d < a.size(); ++d) a[d] += off[d]; M[at(a)] = x; });
        for(auto & ch : chunks_of(off, s)) rewritten(ch);
    }
    void write_chunk() {
        Sh ch = chunk(); full.erase(ch); Sh s = stored(ch); std::vector<T> b(prod(s)); int mode = r.below(4); T one = val();
        bool pad = r.chance(1, 3); size_t n = 0; Sh cl = clipped(ch);
        grid(s, [&](const Sh & i) { bool in = true; for(size_t d = 0; d < i.size(); ++d) in = in && i[d] < cl[d]; b[n++] = (!in && !pad) ? fill : mode == 0 ? fill : mode == 1 ? one : val(); });
        if(mode == 0 && r.chance(1, 2)) b[r.below(b.size())] = one;      // one element differs from fill
        c.desc << "; chunk " << str(ch) << " mode" << mode << (pad ? " padding" : "");
        ds->writeChunk(ch, b.data()); n = 0;
        grid(s, [&](const Sh & i) { M[at(abs(ch, i))] = b[n++]; }); touched[ch] = 1;
    }
    void remove_chunk() { Sh ch = chunk(); if(!ds->chunkExists(ch)) return; c.desc << "; remove " << str(ch); ds->removeChunk(ch); grid(stored(ch), [&](const Sh & i) { M[at(abs(ch, i))] = fill; }); rewritten(ch); }
    void plant_file() {       // storage produced by another implementation (uncompressed formats only)
        if(g.comp != "raw") return;
        Sh ch = chunk(); std::set<Sh> group;
        if(g.sharded()) grid(P, [&](const Sh & o) { if(file_of(o) == file_of(ch)) group.insert(o); }); else group.insert(ch);
        std::map<size_t, std::string> blobs;
        for(auto & o : group) {
            bool absent = g.sharded() && r.chance(1, 3); if(!g.zarr() && r.chance(1, 2)) full.insert(o); else full.erase(o);
            grid(stored(o), [&](const Sh & i) { M[at(abs(o, i))] = absent ? fill : val(); });
            if(!absent) { if(g.sharded()) blobs[slot_of(o)] = raw_bytes(o); else spit(file_of(o), raw_bytes(o)); }
            touched[o] = 1;
        }
        if(g.sharded()) {
            std::string b, idx; std::map<size_t, std::pair<uint64_t, uint64_t>> e; std::vector<size_t> ord; for(auto & x : blobs) ord.push_back(x.first);
            for(size_t i = ord.size(); i > 1; --i) std::swap(ord[i - 1], ord[r.below(i)]);      // blobs may lie in any order
            for(auto s : ord) { e[s] = {b.size(), blobs[s].size()}; b += blobs[s]; if(r.chance(1, 4)) b += "??"; }
            auto le = [](std::string & o, uint64_t v, int n) { for(int k = 0; k < n; ++k) o += (char)(v >> (8 * k)); };
            for(size_t s = 0; s < nslots(); ++s) { auto v = e.count(s) ? e[s] : std::make_pair(~(uint64_t)0, ~(uint64_t)0); le(idx, v.first, 8); le(idx, v.second, 8); }
            if(blobs.empty()) { std::filesystem::remove(file_of(ch)); c.desc << "; absent " << str(ch); return; }
            uint32_t crc = crc_bits(idx.data(), idx.size()); b += idx; le(b, crc, 4); spit(file_of(ch), b);
        }
        c.desc << "; foreign " << str(ch);
    }
    void read_region(const char * props, bool whole = false, int th = -1) {
        Sh off(g.shape.size(), 0), s = g.shape; if(!whole) s = region(off); if(th < 0) th = threads();
        Strided<T> v(r, s); if(!whole) c.desc << "; read " << str(off) << "+" << str(s) << " strides " << str(v.strides) << " t" << th;
        ma::readSubarray<T>(*ds, v.view(), off.begin(), th);
        CHK("C02 C03", v.untouched_outside(), "reading " << str(off) << "+" << str(s) << " wrote outside the output view");
        grid(s, [&](const Sh & i) { Sh a(i); for(size_t d = 0; d < a.size(); ++d) a[d] += off[d];
            CHK(props, same(v.buf[v.pos(i)], M[at(a)]), "position " << str(a) << " reads " << +v.buf[v.pos(i)] << ", expected " << +M[at(a)]); });
    }
    void read_chunk(const char * props) {
        Sh ch = chunk(), s = stored(ch); size_t cap = prod(g.chunk);
        if(!ds->chunkExists(ch)) return;
        std::vector<T> b(cap, (T)91); b.shrink_to_fit(); bool var = ds->readChunk(ch, b.data()); size_t n = 0;
        CHK(props, !var, "chunk " << str(ch) << " reported as variable-length");
        grid(s, [&](const Sh & i) { T x = b[n++]; CHK(props, same(x, M[at(abs(ch, i))]), "chunk " << str(ch) << " element " << str(i) << " reads " << +x << ", expected " << +M[at(abs(ch, i))]); });
    }
    void geometry(const char * props) {
        grid(P, [&](const Sh & ch) { Sh q, q2; ds->getChunkShape(ch, q); CHK(props, q == clipped(ch), "shape of chunk " << str(ch) << " is " << str(q) << ", expected " << str(clipped(ch)));
            CHK(props, ds->getChunkSize(ch) == prod(clipped(ch)), "size of chunk " << str(ch));
            ds->getChunkOffset(ch, q2); Sh z(ch); for(size_t d = 0; d < z.size(); ++d) z[d] *= g.chunk[d]; CHK(props, q2 == z, "offset of chunk " << str(ch));
            for(size_t d = 0; d < ch.size(); ++d) CHK(props, ds->getChunkShape(ch, (unsigned)d) == clipped(ch)[d], "shape of chunk along one axis"); });
        CHK(props, ds->numberOfChunks() == prod(P), "number of chunks is " << ds->numberOfChunks() << ", expected " << prod(P));
        CHK(props, ds->chunksPerDimension() == P, "chunks per dimension " << str(ds->chunksPerDimension()) << ", expected " << str(P));
    }
    // state of the store: presence, key and (uncompressed) content of every chunk
    void audit() {
        std::map<std::string, std::map<size_t, std::string>> shards; std::set<std::string> expect;
        grid(P, [&](const Sh & ch) {
            bool ex = ds->chunkExists(ch); std::string f = file_of(ch); std::filesystem::path p; ds->chunkPath(ch, p);
            CHK("C10", p.string() == f, "chunk " << str(ch) << " is stored at " << p.string() << ", expected " << f);
            if(!allfill(ch)) CHK("C18 C04", ex, "chunk " << str(ch) << " holds non-fill values but is not stored");
            bool here = std::filesystem::exists(f);
            if(!g.sharded()) CHK("C10", ex == here, "chunk " << str(ch) << " exists=" << ex << " but its file " << f << " exists=" << here);
            if(!ex) return;
            expect.insert(f);
            CHK("C10 C08", here, "chunk " << str(ch) << " exists but the object " << f << " does not");
            if(g.sharded()) {
                if(!shards.count(f)) { auto b = slurp(f); std::map<size_t, std::string> m; CHK("C08 C09", parse_shard(b, m), "shard object " << f << " is malformed or has a wrong checksum"); shards[f] = m; }
                auto & m = shards[f]; CHK("C08", m.count(slot_of(ch)), "chunk " << str(ch) << " is reported as stored but slot " << slot_of(ch) << " of its shard is empty");
                if(g.comp == "raw") CHK("C08 C04", m[slot_of(ch)] == raw_bytes(ch), "slot " << slot_of(ch) << " of shard " << f << " does not hold the bytes of chunk " << str(ch));
            } else {
                std::string b = slurp(f);
                if(g.comp == "raw") CHK("C04 C06", b == raw_bytes(ch), "stored bytes of chunk " << str(ch) << " are not those the format prescribes");
                else if(g.kind == 0) CHK("C06", b.substr(0, 4 + 4 * P.size()) == raw_bytes(ch).substr(0, 4 + 4 * P.size()), "header of chunk " << str(ch) << " is not the one the format prescribes");
            }
        });
        if(c.prop == "C10" || c.prop == "C18") for(auto & e : tree(root + "/ds")) {
            if(e.first.back() == '/' || e.first == ".zarray" || e.first == "zarr.json" || e.first == "attributes.json" || e.first == ".zattrs") continue;
            CHK("C10", expect.count(root + "/ds/" + e.first), "unexpected object " << e.first << " in the dataset");
        }
    }
    void reopen() {
        c.desc << "; reopen"; zfs::handle::File f2(root, z5::FileMode(r.chance(1, 2) ? z5::FileMode::a : z5::FileMode::r_p)); auto d2 = opends(f2);
        CHK("C12", d2->getDtype() == ds->getDtype() && d2->isZarr() == ds->isZarr(), "type changes when reopened");
        CHK("C12", d2->shape() == ds->shape() && d2->shape() == g.shape, "shape changes when reopened");
        CHK("C12", d2->defaultChunkShape() == ds->defaultChunkShape() && d2->defaultChunkShape() == g.chunk, "chunk shape changes when reopened");
        CHK("C12", d2->isSharded() == ds->isSharded() && d2->isSharded() == g.sharded() && d2->shardShape() == ds->shardShape() && d2->shardShape() == g.shard, "shard shape changes when reopened");
        T f1, f3; ds->getFillValue(&f1); d2->getFillValue(&f3); CHK("C12 C18", same(f1, f3) && same(f1, fill), "fill value " << +f1 << " becomes " << +f3 << " when reopened");
        CHK("C12", d2->getCompressor() == ds->getCompressor(), "compressor changes when reopened");
        std::string n1, n2; ds->getCompressor(n1); d2->getCompressor(n2); CHK("C12", n1 == n2, "compressor name changes when reopened");
        z5::types::CompressionOptions o1, o2; ds->getCompressionOptions(o1); d2->getCompressionOptions(o2);
        for(auto & kv : o1) if(kv.first != "nthreads") CHK("C12", o2.count(kv.first) && o2[kv.first] == kv.second, "compression option '" << kv.first << "' changes when reopened");
        grid(P, [&](const Sh & ch) { std::filesystem::path p1, p2; ds->chunkPath(ch, p1); d2->chunkPath(ch, p2); CHK("C10 C12", p1 == p2, "chunk " << str(ch) << " addressed as " << p1.string() << " when created, " << p2.string() << " when reopened"); });
        ds = std::move(d2);
    }
    template<class F> bool throws(F && f) { try { f(); } catch(const std::bad_alloc &) { throw; } catch(const std::exception &) { return true; } return false; }
    // requests that must be refused without any effect
    void invalid() {
        auto before = tree(root); int k = r.below(14); Sh off, s = region(off); size_t nd = s.size(), d = r.below(nd); std::string what; bool thrown = true; bool same_out = true; int th = r.chance(3, 4) ? 1 : 2;
        Sh ch = chunk(); std::vector<T> cb(prod(g.chunk), (T)3);
        auto req = [&](Sh o, Sh e, int op) {
            if(op == 2) { size_t m = std::max(o.size(), nd); Sh oo(o), ee(e); oo.resize(m, 0); ee.resize(m, 1); thrown = throws([&] { ma::writeScalar<T>(*ds, oo.begin(), ee.begin(), (T)5, th); }); return; }
            Sh pos(e); for(auto & x : pos) x = x == 0 ? 1 : std::min<size_t>(x, 8); Strided<T> v(r, pos); v.shape = e; if(e != pos) { Sh st(e.size(), 0); v.strides = st; }
            if(op == 0) { thrown = throws([&] { ma::readSubarray<T>(*ds, v.view(), o.begin(), th); }); same_out = v.untouched(); }
            else thrown = throws([&] { ma::writeSubarray<T>(*ds, ma::ConstArrayView<T>(v.view()), o.begin(), th); });
        };
        int op = r.below(3); const char * on[] = {"readSubarray", "writeSubarray", "writeScalar"};
        switch(k) {
            case 0: { what = "request beyond the end"; s[d] = g.shape[d] - off[d] + 1 + r.below(3); req(off, s, op); break; }
            case 1: { what = "offset beyond the end"; off[d] = g.shape[d] + r.below(3); req(off, s, op); break; }
            case 2: { what = "zero extent"; s[d] = 0; req(off, s, op); break; }
            case 3: { what = "offset + extent wraps around"; off[d] = ~(size_t)0 - r.below(3); s[d] = 1 + r.below(g.shape[d] + 4); req(off, s, op); break; }
            case 4: { what = "too many dimensions"; if(op == 2) op = r.below(2); off.push_back(0); s.push_back(1); req(off, s, op); break; }
            case 5: { what = "too few dimensions"; if(op == 2) op = r.below(2); if(nd < 2) return; off.pop_back(); s.pop_back(); req(off, s, op); break; }
            case 6: case 7: { what = "wrong element type"; std::vector<char> raw(prod(s) * 16 + 16, 0x5a); Sh st = ma::cOrderStrides(s);
                auto go = [&](auto tag) { using U = decltype(tag); auto b0 = raw;
                    if(op == 0) { thrown = throws([&] { ma::readSubarray<U>(*ds, ma::ArrayView<U>((U *)raw.data(), s, st), off.begin(), th); }); same_out = b0 == raw; }
                    else if(op == 1) thrown = throws([&] { ma::writeSubarray<U>(*ds, ma::ConstArrayView<U>((U *)raw.data(), s, st), off.begin(), th); });
                    else thrown = throws([&] { ma::writeScalar<U>(*ds, off.begin(), s.begin(), (U)1, th); }); };
                if(std::is_same<T, uint16_t>::value || (k == 6 && !std::is_same<T, int16_t>::value)) go(int16_t()); else go(uint16_t());
                break; }
            case 8: { what = "chunk coordinate outside the grid (write)"; ch[d] = P[d] + r.below(2); op = 3; thrown = throws([&] { ds->writeChunk(ch, cb.data()); }); break; }
            case 9: { what = "chunk coordinate outside the grid (read)"; ch[d] = P[d] + r.below(2); op = 3; auto b0 = cb; thrown = throws([&] { ds->readChunk(ch, cb.data()); }); same_out = b0 == cb; break; }
            case 10: { what = "huge chunk coordinate"; ch[d] = (~(size_t)0) / (1 + r.below(3)); op = 3; thrown = throws([&] { ds->writeChunk(ch, cb.data()); }); break; }
            case 11: { what = "chunk coordinate with extra axis"; ch.push_back(0); op = 3; thrown = r.chance(1, 2) ? throws([&] { ds->writeChunk(ch, cb.data()); }) : throws([&] { ds->readChunk(ch, cb.data()); }); break; }
            case 12: { if(!g.zarr()) return; what = "variable-length chunk in a zarr dataset"; op = 3; thrown = throws([&] { ds->writeChunk(ch, cb.data(), true, 2); }); break; }
            case 13: { what = "extent much beyond the end"; s[d] = (~(size_t)0) / 2 + r.below(5); if(op != 2) op = 2; req(off, s, op); break; }
        }
        c.desc << "; invalid: " << what << (op < 3 ? std::string(" ") + on[op] : "");
        CHK("C05", thrown, what << " is accepted" << (op < 3 ? std::string(" by ") + on[op] : ""));
        CHK("C05", same_out, what << ": the output was modified although the request was rejected");
        CHK("C05", tree(root) == before, what << ": storage was modified although the request was rejected");
    }
    void readonly() {
        auto before = tree(root); zfs::handle::File fr(root, z5::FileMode(z5::FileMode::r)); auto dr = opends(fr); int k = r.below(8); std::string what; bool thrown = true; Sh off, s = region(off); Sh ch = chunk(); std::vector<T> cb(prod(g.chunk)); bool af = r.chance(1, 4);
        for(auto & x : cb) x = af ? fill : val(); Strided<T> v(r, s); grid(s, [&](const Sh & i) { v.buf[v.pos(i)] = af ? fill : val(); });
        switch(k) {
            case 0: case 1: what = "writeSubarray"; thrown = throws([&] { ma::writeSubarray<T>(*dr, ma::ConstArrayView<T>(v.view()), off.begin(), threads()); }); break;
            case 2: what = "writeScalar"; thrown = throws([&] { ma::writeScalar<T>(*dr, off.begin(), s.begin(), af ? fill : val(), threads()); }); break;
            case 3: case 4: what = "writeChunk"; thrown = throws([&] { dr->writeChunk(ch, cb.data()); }); break;
            case 5: what = "removeChunk"; thrown = throws([&] { dr->removeChunk(ch); }); break;
            case 6: what = "Dataset::remove"; thrown = throws([&] { dr->remove(); }); break;
            case 7: what = "writeAttributes"; { zfs::handle::Dataset h(fr, "ds"); nlohmann::json j; j["k"] = 1; thrown = throws([&] { z5::writeAttributes(h, j); }); } break;
        }
        c.desc << "; read-only " << what;
        CHK("C11", tree(root) == before, what << " through a read-only handle modified storage");
        CHK("C11", thrown, what << " through a read-only handle reported success");
    }
    void visits() {
        int th = threads(); std::mutex mu; int kind = r.below(4); std::map<Sh, int> seen; std::map<Sh, int> want; std::string what; Sh off, s = region(off), end(off), bs(s); for(size_t d = 0; d < end.size(); ++d) { end[d] += s[d]; bs[d] = 1 + r.below(g.shape[d]); }
        bool shape_ok = true; const z5::Dataset * same_ds = ds.get(); bool tid_ok = true;
        auto boxes = [&](const Sh & b, bool roi) { Sh n; for(size_t d = 0; d < b.size(); ++d) n.push_back((g.shape[d] + b[d] - 1) / b[d]); grid(n, [&](const Sh & i) { bool in = true; Sh x(i); for(size_t d = 0; d < i.size(); ++d) { x[d] = i[d] * b[d]; in = in && (!roi || (x[d] < end[d] && off[d] < x[d] + b[d])); } if(in) want[x] = 1; }); };
        auto blockcb = [&](int t, const z5::Dataset & q, const Sh & b, const Sh & e) { std::lock_guard<std::mutex> l(mu); seen[b]++; if(&q != same_ds) shape_ok = false; for(size_t d = 0; d < b.size(); ++d) if(e[d] != std::min(bs[d], g.shape[d] - b[d])) shape_ok = false; };
        switch(kind) {
            case 0: what = "parallel_for_each_chunk"; grid(P, [&](const Sh & i) { want[i] = 1; }); z5::util::parallel_for_each_chunk(*ds, th, [&](int t, const z5::Dataset & q, const Sh & ch) { std::lock_guard<std::mutex> l(mu); seen[ch]++; if(&q != same_ds) shape_ok = false; }); break;
            case 1: what = "parallel_for_each_chunk_in_roi"; for(auto & i : chunks_of(off, s)) want[i] = 1; z5::util::parallel_for_each_chunk_in_roi(*ds, off, end, th, [&](int t, const z5::Dataset & q, const Sh & ch) { std::lock_guard<std::mutex> l(mu); seen[ch]++; }); break;
            case 2: what = "parallel_for_each_block"; boxes(bs, false); z5::util::parallel_for_each_block(*ds, bs, th, blockcb); break;
            case 3: what = "parallel_for_each_block_in_roi"; boxes(bs, true); z5::util::parallel_for_each_block_in_roi(*ds, bs, off, end, th, blockcb); break;
        }
        c.desc << "; " << what << " t" << th;
        for(auto & w : want) CHK("C15", seen[w.first] == 1, what << " with " << th << " threads visits " << str(w.first) << " " << seen[w.first] << " times");
        CHK("C15", seen.size() == want.size(), what << " visits " << seen.size() << " items instead of " << want.size());
        CHK("C15", shape_ok, what << " hands over a wrong block extent");
    }
    void write_keep_others() {     // replacing one inner chunk leaves the other slots byte-identical
        if(!g.sharded()) { write_chunk(); return; }
        std::map<std::string, std::map<size_t, std::string>> before; for(auto & ch : all()) { std::string f = file_of(ch); if(std::filesystem::exists(f) && !before.count(f)) { std::map<size_t, std::string> m; CHK("C08 C09", parse_shard(slurp(f), m), "shard object malformed"); before[f] = m; } }
        touched.clear(); int k = r.below(4); if(k < 2) write_chunk(); else if(k == 2) remove_chunk(); else write_scalar();
        for(auto & ch : all()) if(!touched.count(ch)) { std::string f = file_of(ch); std::map<size_t, std::string> m; if(std::filesystem::exists(f)) CHK("C08 C09", parse_shard(slurp(f), m), "shard object " << f << " malformed"); size_t sl = slot_of(ch);
            CHK("C08", before[f].count(sl) == m.count(sl) && before[f][sl] == m[sl], "slot " << sl << " of " << f << " (chunk " << str(ch) << ") changed although another chunk was written"); }
    }
    std::vector<Sh> all() { std::vector<Sh> v; grid(P, [&](const Sh & i) { v.push_back(i); }); return v; }

    void run() {
        const std::string & p = c.prop; int ops = 3 + r.below(c.thorough ? 8 : 5);
        if(p == "C15" || p == "C01") geometry("C01 C15");
        for(int i = 0; i < ops; ++i) {
            int k = r.below(20);
            if(p == "C05" && r.chance(2, 3)) { invalid(); continue; }
            if(p == "C11" && r.chance(1, 2)) { readonly(); continue; }
            if(p == "C15" && r.chance(3, 4)) { visits(); continue; }
            if(p == "C12" && r.chance(1, 2)) { reopen(); continue; }
            if(p == "C08" && r.chance(1, 2)) { write_keep_others(); audit(); continue; }
            if(p == "C03") { if(k < 6) write_chunk(); else if(k < 12) plant_file(); else if(k < 14) remove_chunk(); else if(k < 16) write_region(); }
            else if(k < 8) write_region(); else if(k < 12) write_scalar(); else if(k < 15) write_chunk(); else if(k < 16) remove_chunk(); else if(k < 18) { if(p != "C18") plant_file(); else write_chunk(); } else if(k == 18) reopen();
            else readback();
            audit();
            if(p == "C03") { read_region("C03"); read_region("C03", true, 1); read_chunk("C03"); }
            else if(p == "C04" || p == "C18") { read_region("C04 C18", true, 1); read_chunk("C04"); }
            else if(p == "C06" || p == "C14") { read_chunk("C06 C14"); }
            else if(p == "C08") read_region("C08", true, 1);
        }
        if(p == "C05" || p == "C12" || p == "C10" || p == "C08" || p == "C14" || p == "C06") read_region("C08 C14 C06 C10 C12", true, threads());
    }
    void readback() { read_region("C03"); }
};
template<class T> void one(Rng & r, Case & c) {
    int kind = -1; if(c.prop == "C06") kind = 0; if(c.prop == "C08" || c.prop == "C09") kind = r.chance(4, 5) ? 3 : -1;
    Cfg g = random_cfg(r, c, kind);
    try { World<T> w(r, c, g); w.run(); } catch(const Abandon &) {}
    catch(const Fail &) { throw; } catch(const std::bad_alloc &) { throw; }
    catch(const std::exception & e) { static const std::string own = "C03 C04 C05 C06 C08 C10 C12 C14 C15 C18 C11"; if(own.find(c.prop) != std::string::npos) throw; }
}
} // namespace z5v
