// bounded stand-in for C01, C08 (index maps), C15, C09: real geometry code against brute force and a 128-bit oracle
#include "z5v.hxx"
#include <mutex>
#include "z5/util/blocking.hxx"
#include "z5/util/sharding.hxx"
#include "z5/util/threadpool.hxx"
using namespace z5v;
typedef unsigned __int128 u128;

static Sh unravel(size_t i, const Sh & s) { Sh r(s.size()); for(int d = (int)s.size() - 1; d >= 0; --d) { r[d] = i % s[d]; i /= s[d]; } return r; }
static size_t prod(const Sh & s) { size_t p = 1; for(auto x : s) p *= x; return p; }

// exact intersection in one axis, 128 bit
static void oracle(u128 c, u128 B, u128 S, u128 r, u128 s, u128 & inReq, u128 & ext, u128 & inCh, bool & cont) {
    u128 cb = c * B, ce = cb + B < S ? cb + B : S, lo = cb > r ? cb : r, hi = ce < r + s ? ce : r + s;
    inReq = lo - r; ext = hi - lo; inCh = lo - cb; cont = r <= cb && ce <= r + s;
}
static void check_roi(const z5::util::Blocking & b, const Sh & S, const Sh & B, const Sh & c, const Sh & r, const Sh & s, Case & cs) {
    Sh o1, o2, o3; bool f = b.getCoordinatesInRoi(c, r, s, o1, o2, o3); bool want = true; size_t nd = S.size();
    Z5V_CHECK(o1.size() == nd && o2.size() == nd && o3.size() == nd, "wrong dimension of the intersection");
    for(size_t d = 0; d < nd; ++d) {
        u128 a, e, i; bool ct; oracle(c[d], B[d], S[d], r[d], s[d], a, e, i, ct); want = want && ct;
        Z5V_CHECK(o1[d] == a && o2[d] == e && o3[d] == i, "getCoordinatesInRoi: shape " << str(S) << " chunk shape " << str(B) << " chunk " << str(c) << " roi " << str(r) << "+" << str(s) << " axis " << d
                  << ": got (" << o1[d] << "," << o2[d] << "," << o3[d] << ") expected (" << (uint64_t)a << "," << (uint64_t)e << "," << (uint64_t)i << ")");
    }
    Z5V_CHECK(f == want, "getCoordinatesInRoi: complete overlap reported as " << f << " expected " << want << ": shape " << str(S) << " chunk shape " << str(B) << " chunk " << str(c) << " roi " << str(r) << "+" << str(s));
}
static void check_block(const z5::util::Blocking & b, const Sh & S, const Sh & B, const Sh & c) {
    Sh o, e, e2, o2; b.getBlockBeginAndShape(c, o, e); b.getBlockBeginAndEnd(c, o2, e2); size_t nd = S.size();
    Z5V_CHECK(o.size() == nd && e.size() == nd && o2.size() == nd && e2.size() == nd, "wrong dimension of block");
    for(size_t d = 0; d < nd; ++d) {
        u128 cb = (u128)c[d] * B[d], ce = cb + B[d] < S[d] ? cb + B[d] : (u128)S[d];
        Z5V_CHECK(o[d] == cb && e[d] == ce - cb && o2[d] == cb && e2[d] == ce, "extent of block " << str(c) << " shape " << str(S) << " block " << str(B) << " axis " << d);
    }
}
static void small(Rng & R, Case & cs) {
    size_t nd = R.in(1, 5); Sh S(nd), B(nd), r(nd), s(nd);
    for(size_t d = 0; d < nd; ++d) { S[d] = R.in(1, nd > 3 ? 5 : 13); B[d] = R.in(1, S[d] + 2); s[d] = R.in(1, S[d]); r[d] = R.in(0, S[d] - s[d]); }
    if(R.chance(1, 4)) for(size_t d = 0; d < nd; ++d) { r[d] = r[d] / B[d] * B[d]; if(r[d] + s[d] > S[d]) s[d] = S[d] - r[d]; }
    cs.desc << "shape " << str(S) << " block " << str(B) << " roi " << str(r) << "+" << str(s);
    z5::util::Blocking b(S, B);
    Sh per(nd); for(size_t d = 0; d < nd; ++d) per[d] = (S[d] + B[d] - 1) / B[d];
    size_t n = prod(per); cs.nontrivial = n > 1;
    Z5V_CHECK(b.numberOfBlocks() == n, "number of blocks " << b.numberOfBlocks() << " expected " << n);
    Z5V_CHECK(b.blocksPerDimension() == per, "blocks per dimension " << str(b.blocksPerDimension()) << " expected " << str(per));
    std::set<Sh> seen, inter; uint64_t covered = 0;
    for(size_t i = 0; i < n; ++i) {
        Sh c; b.blockIdToBlockCoordinate(i, c);
        Z5V_CHECK(c == unravel(i, per), "block " << i << " has coordinate " << str(c) << " expected " << str(unravel(i, per)));
        Z5V_CHECK(b.blockCoordinatesToBlockId(c) == i, "block coordinate " << str(c) << " maps to " << b.blockCoordinatesToBlockId(c));
        Z5V_CHECK(b.checkBlockCoordinate(c), "valid block coordinate rejected " << str(c));
        check_block(b, S, B, c); seen.insert(c);
        Sh o, e; b.getBlockBeginAndShape(i, o, e); for(size_t d = 0; d < nd; ++d) Z5V_CHECK(o[d] == c[d] * B[d], "block begin by id");
        bool is = true; for(size_t d = 0; d < nd; ++d) is = is && c[d] * B[d] < r[d] + s[d] && r[d] < std::min(c[d] * B[d] + B[d], S[d]);
        if(is) inter.insert(c);
        Sh g(nd), gc; for(size_t d = 0; d < nd; ++d) g[d] = o[d] + R.below(e[d]);
        b.coordinateToBlockCoordinate(g, gc); Z5V_CHECK(gc == c, "coordinate " << str(g) << " maps to block " << str(gc));
    }
    for(size_t d = 0; d < nd; ++d) { Sh c = unravel(R.below(n), per); c[d] = per[d] + R.below(3); Z5V_CHECK(!b.checkBlockCoordinate(c), "block coordinate outside the grid accepted " << str(c)); }
    { Sh c(nd + 1, 0); Z5V_CHECK(!b.checkBlockCoordinate(c), "block coordinate of wrong dimension accepted"); }
    std::vector<Sh> got; b.getBlocksOverlappingRoi(r, s, got);
    std::set<Sh> gs(got.begin(), got.end());
    Z5V_CHECK(gs.size() == got.size(), "a chunk is selected twice for the region");
    Z5V_CHECK(gs == inter, "selected chunks are not those that intersect the region: " << got.size() << " selected, " << inter.size() << " intersect");
    std::vector<char> hit(prod(s), 0);
    for(auto & c : got) {
        check_roi(b, S, B, c, r, s, cs);
        Sh o1, o2, o3; b.getCoordinatesInRoi(c, r, s, o1, o2, o3);
        for(size_t i = 0; i < prod(o2); ++i) { Sh q = unravel(i, o2); size_t k = 0; for(size_t d = 0; d < nd; ++d) k = k * s[d] + q[d] + o1[d]; Z5V_CHECK(k < hit.size() && !hit[k], "pieces of the region overlap"); hit[k] = 1; }
    }
    for(auto h : hit) Z5V_CHECK(h, "pieces do not cover the region");
}
static uint64_t big(Rng & R) {
    switch(R.below(6)) {
        case 0: return R.in(1, 40); case 1: return (1ull << R.in(1, 62)) + R.in(-2, 2) * (R.chance(1, 2)); case 2: return 0x7fffffffull + R.in(-3, 3); case 3: return 0xffffffffull + R.in(-3, 3);
        case 4: return (R.next() >> R.in(2, 60)) | 1; default: return (1ull << 62) - R.below(5);
    }
}
static void huge(Rng & R, Case & cs) {
    size_t nd = R.in(1, 4); Sh S(nd), B(nd), r(nd), s(nd), c(nd); bool small_total = true;
    u128 tot = 1;
    for(size_t d = 0; d < nd; ++d) {
        do { S[d] = big(R); B[d] = big(R); if(R.chance(1, 3)) B[d] = S[d] / R.in(1, 9) + R.below(3) + 1; } while(S[d] == 0 || B[d] == 0 || (u128)S[d] + B[d] >= (u128)1 << 63);
        u128 p = ((u128)S[d] + B[d] - 1) / B[d]; tot *= p;
        if(tot >> 62) { B[d] = S[d]; tot /= p; }
    }
    for(size_t d = 0; d < nd; ++d) {
        u128 p = ((u128)S[d] + B[d] - 1) / B[d];
        c[d] = R.chance(1, 3) ? (uint64_t)p - 1 : R.below((uint64_t)p);
        u128 cb = (u128)c[d] * B[d], ce = cb + B[d] < S[d] ? cb + B[d] : (u128)S[d];
        uint64_t beg, end;      // [beg, end) intersects [cb, ce)
        switch(R.below(4)) { case 0: beg = 0; break; case 1: beg = (uint64_t)cb; break; case 2: beg = (uint64_t)cb + R.below((uint64_t)(ce - cb)); break; default: beg = R.below((uint64_t)ce); }
        uint64_t lo = std::max<uint64_t>(beg, (uint64_t)cb) + 1;
        switch(R.below(4)) { case 0: end = S[d]; break; case 1: end = (uint64_t)ce; break; case 2: end = lo; break; default: end = lo + R.below(S[d] - lo + 1); }
        if(end < lo) end = lo;
        r[d] = beg; s[d] = end - beg;
    }
    cs.desc << "shape " << str(S) << " block " << str(B) << " chunk " << str(c) << " roi " << str(r) << "+" << str(s); cs.nontrivial = true;
    z5::util::Blocking b(S, B);
    u128 n = 1; for(size_t d = 0; d < nd; ++d) { u128 p = ((u128)S[d] + B[d] - 1) / B[d]; n *= p; Z5V_CHECK(b.blocksPerDimension()[d] == p, "blocks per dimension in axis " << d); }
    Z5V_CHECK(b.numberOfBlocks() == n, "number of blocks");
    check_roi(b, S, B, c, r, s, cs); check_block(b, S, B, c);
    size_t id = b.blockCoordinatesToBlockId(c); u128 want = 0; for(size_t d = 0; d < nd; ++d) want = want * b.blocksPerDimension()[d] + c[d];
    Z5V_CHECK(id == want, "block id"); Sh c2; b.blockIdToBlockCoordinate(id, c2); Z5V_CHECK(c2 == c, "block coordinate of id");
    u128 cnt = 1; for(size_t d = 0; d < nd; ++d) cnt *= (u128)(r[d] + s[d] - 1) / B[d] - r[d] / B[d] + 1;
    if(cnt <= 3000) {
        std::vector<Sh> got; b.getBlocksOverlappingRoi(r, s, got); std::set<Sh> gs(got.begin(), got.end());
        Z5V_CHECK(got.size() == cnt && gs.size() == cnt, "number of chunks selected: " << got.size() << " expected " << (uint64_t)cnt);
        for(auto & g : got) for(size_t d = 0; d < nd; ++d) Z5V_CHECK(g[d] >= r[d] / B[d] && g[d] <= (r[d] + s[d] - 1) / B[d], "selected chunk does not intersect");
    }
}
static void shard(Rng & R, Case & cs) {
    size_t nd = R.in(1, 4); Sh in(nd), sh(nd), g(nd), cps(nd); bool bigv = R.chance(1, 3);
    for(size_t d = 0; d < nd; ++d) { in[d] = R.in(1, 9); cps[d] = bigv ? R.in(1, 100000 / (nd * nd * nd)) : R.in(1, 4); sh[d] = in[d] * cps[d]; g[d] = cps[d] * R.in(1, 3); }
    cs.desc << "inner " << str(in) << " shard " << str(sh) << " grid " << str(g); cs.nontrivial = true;
    auto c = z5::util::chunksPerShard(sh, in); Z5V_CHECK(c == cps, "chunks per shard");
    size_t n = z5::util::numShardSlots(cps); Z5V_CHECK(n == prod(cps), "number of slots");
    std::map<std::pair<Sh, size_t>, Sh> m; size_t lim = std::min<size_t>(prod(g), 400);
    for(size_t i = 0; i < lim; ++i) {
        Sh id = unravel(lim == prod(g) ? i : R.below(prod(g)), g); auto sid = z5::util::shardId(id, cps); size_t sl = z5::util::shardSlot(id, cps);
        Z5V_CHECK(sl < n, "slot " << sl << " of chunk " << str(id) << " outside the shard");
        size_t w = 0; for(size_t d = 0; d < nd; ++d) { Z5V_CHECK(sid[d] == id[d] / cps[d], "shard of chunk " << str(id)); w = w * cps[d] + id[d] % cps[d]; }
        Z5V_CHECK(sl == w, "slot of chunk " << str(id) << " is " << sl << ", C order position is " << w);
        auto ins = m.insert({{sid, sl}, id}); Z5V_CHECK(ins.second || ins.first->second == id, "two chunks share a slot");
    }
}
static uint32_t crc_bitwise(const unsigned char * p, size_t n) {
    uint32_t c = 0xffffffffu; for(size_t i = 0; i < n; ++i) { c ^= p[i]; for(int k = 0; k < 8; ++k) c = (c >> 1) ^ ((c & 1) ? 0x82F63B78u : 0); } return ~c;
}
static void crc(Rng & R, Case & cs) {
    size_t n = R.chance(1, 3) ? R.below(40) : R.chance(1, 6) ? R.below(70000) : R.below(3000);
    if(cs.index < 300) n = cs.index;
    std::vector<char> d(n + 8); for(auto & x : d) x = R.chance(1, 20) ? 0 : (char)R.next();
    if(R.chance(1, 10)) std::fill(d.begin(), d.end(), R.chance(1, 2) ? 0 : (char)0xff);
    size_t off = R.below(8); cs.desc << "length " << n << " alignment " << off; cs.nontrivial = n > 0; cs.sig = R.next();
    uint32_t a = z5::util::crc32c(d.data() + off, n), b = crc_bitwise((unsigned char *)d.data() + off, n);
    Z5V_CHECK(a == b, "crc32c of " << n << " bytes is " << a << ", CRC-32C is " << b);
    if(cs.index == 0) { const char * t = "123456789"; Z5V_CHECK(z5::util::crc32c(t, 9) == 0xE3069283u, "check value of CRC-32C"); }
    if(n) { size_t k = off + R.below(n); char o = d[k]; d[k] ^= (char)(1 + R.below(255)); Z5V_CHECK(z5::util::crc32c(d.data() + off, n) != a, "single corrupted byte not detected"); d[k] = o; }
    if(n >= 16 && n < 3000) {      // through the container: the stored checksum, and rejection of every corrupted byte of the index
        std::vector<std::vector<char>> blobs(R.in(1, 6)); for(auto & x : blobs) { x.resize(R.below(9)); for(auto & y : x) y = (char)R.next(); }
        std::vector<char> out; z5::util::buildShard(blobs, out); size_t fl = 16 * blobs.size() + 4;
        Z5V_CHECK(out.size() >= fl, "shard too short");
        uint32_t want = crc_bitwise((unsigned char *)out.data() + out.size() - fl, fl - 4), st = z5::util::readLE32(out.data() + out.size() - 4);
        unsigned char * q = (unsigned char *)out.data() + out.size() - 4; uint32_t le = q[0] | q[1] << 8 | q[2] << 16 | (uint32_t)q[3] << 24;
        Z5V_CHECK(st == le && le == want, "stored index checksum is not the CRC-32C of the index");
        std::vector<z5::util::ShardEntry> e; Z5V_CHECK(z5::util::parseShardIndex(out, blobs.size(), e), "valid shard rejected");
        for(size_t k = out.size() - fl; k < out.size(); ++k) { out[k] ^= 1 << R.below(8); Z5V_CHECK(!z5::util::parseShardIndex(out, blobs.size(), e), "corrupted index byte not detected"); out[k] = out[k]; out[k] ^= 0; break; }
        z5::util::buildShard(blobs, out); size_t k = out.size() - fl + R.below(fl); out[k] ^= 1 + R.below(255); Z5V_CHECK(!z5::util::parseShardIndex(out, blobs.size(), e), "corrupted index byte not detected");
    }
}
static void threads(Rng & R, Case & cs) {
    int nt = R.chance(1, 8) ? -1 : (int)R.in(0, 9); size_t n = R.chance(1, 4) ? R.below(4) : R.below(400);
    cs.desc << "parallel_foreach over " << n << " items with " << nt << " threads"; cs.nontrivial = n > 1; cs.sig = R.next();
    std::vector<std::atomic<int>> cnt(n + 1); for(auto & x : cnt) x = 0;
    z5::util::ParallelOptions po(nt); std::atomic<int> badtid{0};
    if(R.chance(1, 2)) z5::util::parallel_foreach(nt, n, [&](const int tid, const size_t i) { if(i < n) ++cnt[i]; else ++cnt[n]; if(tid < 0) ++badtid; });
    else { z5::util::ThreadPool tp(nt); int lim = std::max<int>(1, tp.nThreads()); z5::util::parallel_foreach(tp, n, [&](const int tid, const size_t i) { if(i < n) ++cnt[i]; else ++cnt[n]; if(tid < 0 || tid >= lim) ++badtid; }); }
    for(size_t i = 0; i < n; ++i) Z5V_CHECK(cnt[i] == 1, "item " << i << " of " << n << " visited " << cnt[i] << " times with " << nt << " threads");
    Z5V_CHECK(cnt[n] == 0, "item outside the range visited"); Z5V_CHECK(!badtid, "thread id out of range");
    if(R.chance(1, 3) && n) {   // an exception in a task reaches the caller
        bool thrown = false; size_t k = R.below(n);
        try { z5::util::parallel_foreach(nt, n, [&](const int, const size_t i) { if(i == k) throw std::runtime_error("x"); }); } catch(const std::runtime_error &) { thrown = true; }
        Z5V_CHECK(thrown, "exception of a task is lost with " << nt << " threads");
    }
}
int main(int argc, char ** argv) {
    return run(argc, argv, [](Rng & R, Case & c) {
        if(c.prop == "C01") { if(c.index % 3) small(R, c); else huge(R, c); }
        else if(c.prop == "C15") { switch(c.index % 4) { case 0: small(R, c); break; case 1: huge(R, c); break; default: threads(R, c); } }
        else if(c.prop == "C08") shard(R, c);
        else if(c.prop == "C09") crc(R, c);
        else if(c.prop == "C05") small(R, c);
    });
}
