// Metadata documents (C12), attributes (C13), modes (C11), failing writes (C16): plain nodes on the filesystem, JSON oracle
#include "z5v.hxx"
#include "z5/factory.hxx"
#include "z5/attributes.hxx"
#include "z5/multiarray/array_access.hxx"
#include "z5/util/functions.hxx"
#include "z5/multiarray/broadcast.hxx"
using namespace z5v; using nlohmann::json; namespace zfs = z5::filesystem; namespace fs = std::filesystem; namespace ma = z5::multiarray;
typedef z5::FileMode FM;
static std::map<std::string, std::string> tree(const std::string & root) { std::map<std::string, std::string> t; if(fs::exists(root)) { t["."] = ""; for(auto & e : fs::recursive_directory_iterator(root)) { std::string k = fs::relative(e.path(), root).string(); if(e.is_directory()) t[k + "/"] = ""; else { std::ifstream f(e.path(), std::ios::binary); t[k] = std::string(std::istreambuf_iterator<char>(f), {}); } } } return t; }
static std::string slurp(const std::string & p) { std::ifstream f(p, std::ios::binary); return std::string(std::istreambuf_iterator<char>(f), {}); }
static void spit(const std::string & p, const std::string & b) { fs::create_directories(fs::path(p).parent_path()); std::ofstream f(p, std::ios::binary); f.write(b.data(), b.size()); }
template<class F> static bool throws(F && f) { try { f(); } catch(const Fail &) { throw; } catch(const std::bad_alloc &) { throw; } catch(const std::exception &) { return true; } return false; }
static std::string key(Rng & r) { static const std::vector<std::string> k = {"a", "b", "resolution", "units", "n5x", "shape", "zarr_format", "node_type", "attributes", "dimension", "blocksize", "codecs", "", "x.y", "u\xc3\xbc", "long key with spaces", "fill_value", "chunks", "dtype", "Dimensions"}; return k[r.below(k.size())]; }
static json value(Rng & r, int depth = 0) { switch(r.below(depth < 2 ? 9 : 6)) { case 0: return (int64_t)r.next(); case 1: return (double)(int64_t)r.below(100000) / 64; case 2: return "s" + std::to_string(r.below(1000)) + (r.chance(1, 4) ? "\"\\\n\t/" : ""); case 3: return r.chance(1, 2); case 4: return nullptr; case 5: return r.next(); case 6: { json a = json::array(); for(size_t i = r.below(4); i > 0; --i) a.push_back(value(r, depth + 1)); return a; } case 7: { json o = json::object(); for(size_t i = r.below(4); i > 0; --i) o[key(r)] = value(r, depth + 1); return o; } default: return json::object(); } }
static const char * KN[] = {"n5", "zarr2", "zarr3", "zarr3-sharded"};
struct DS { std::string dtype = "int32", comp = "raw", delim = ".", enc = "default"; Sh shape{7, 5}, chunk{3, 2}, shard; double fill = 0; z5::types::CompressionOptions o; };
static std::unique_ptr<z5::Dataset> mk(const zfs::handle::File & f, const std::string & k, int kind, const DS & d = DS()) { Sh sh = d.shard; if(kind == 3 && sh.empty()) { sh = d.chunk; for(auto & x : sh) x *= 2; } return z5::createDataset(f, k, d.dtype, d.shape, d.chunk, d.comp, d.o, d.fill, d.delim, kind >= 2 ? 3 : 2, d.enc, sh); }
static std::string attr_doc(int kind) { return kind == 0 ? "attributes.json" : kind == 1 ? ".zattrs" : "zarr.json"; }

// ---------------------------------------------------------------- C13
static void attributes(Rng & r, Case & c) {
    int kind = r.below(4); int node = r.below(3); std::string root = c.scratch + "/f"; zfs::handle::File f(root, FM(FM::a)); z5::createFile(f, kind > 0, kind >= 2 ? 3 : 2); std::string dir = root; const char * NN[] = {"file", "group", "dataset"};
    c.desc << KN[kind] << " " << NN[node]; c.nontrivial = true;
    if(node == 1) { z5::createGroup(f, "g", kind >= 2 ? 3 : 2); dir += "/g"; } std::unique_ptr<z5::Dataset> ds; if(node == 2) { ds = mk(f, "d", kind); dir += "/d"; std::vector<int32_t> b(6, 4); ds->writeChunk(Sh{0, 0}, b.data()); }
    else { if(r.chance(1, 2)) mk(f, "other", kind); }
    std::string doc = dir + "/" + attr_doc(kind); json extra; if(kind >= 2 && r.chance(1, 2)) { json j = json::parse(slurp(doc)); j["foreign"] = value(r); if(r.chance(1, 2)) j.erase("attributes"); spit(doc, j.dump()); c.desc << " foreign key"; }
    auto rest = [&]() { if(!fs::exists(doc)) return json(json::object()); json j = json::parse(slurp(doc)); if(kind >= 2) { j.erase("attributes"); return j; } if(kind == 1) return json(json::object()); json k = json::object(); static const std::vector<std::string> own = {"n5", "dimensions", "blockSize", "dataType", "compression", "compressionType"}; for(auto & x : own) { if(x == "n5" && node != 0) continue; if(x != "n5" && node != 2) continue; if(j.contains(x)) k[x] = j[x]; } return k; };
    json base = rest(); std::map<std::string, json> model; auto others = [&] { auto t = tree(root); t.erase(fs::relative(doc, root).string()); return t; }; auto side = others();
    zfs::handle::File hf(root, FM(FM::a)); zfs::handle::Group hg(f, "g"); zfs::handle::Dataset hd(f, "d");
    auto W = [&](const json & j) { if(node == 0) z5::writeAttributes(hf, j); else if(node == 1) z5::writeAttributes(hg, j); else z5::writeAttributes(hd, j); };
    auto R = [&](json & j) { if(node == 0) z5::readAttributes(hf, j); else if(node == 1) z5::readAttributes(hg, j); else z5::readAttributes(hd, j); };
    auto X = [&](const std::string & k) { if(node == 0) z5::removeAttribute(hf, k); else if(node == 1) z5::removeAttribute(hg, k); else z5::removeAttribute(hd, k); };
    if(kind == 0 && r.chance(1, 5) && node == 2) { json j = json::parse(slurp(doc)); j.erase("compression"); j["compressionType"] = "raw"; spit(doc, j.dump()); base = rest(); c.desc << " old compressionType"; }
    for(int i = 0, n = 2 + r.below(6); i < n; ++i) {
        int op = r.below(6);
        if(op < 3) { json j = json::object(); for(size_t k = r.below(4); k > 0; --k) j[key(r)] = value(r); c.desc << "; write " << j.dump(); W(j); for(auto it = j.begin(); it != j.end(); ++it) model[it.key()] = it.value(); if(kind == 1 && false) {} }
        else if(op == 3) { std::string k = r.chance(1, 2) || model.empty() ? key(r) : std::next(model.begin(), r.below(model.size()))->first; c.desc << "; remove " << k; X(k); model.erase(k); }
        else if(op == 4 && kind == 0 && node != 1) {      // the format's own keys
            static const std::vector<std::string> pr = {"dimensions", "blockSize", "dataType", "compressionType", "compression"}; std::string k = node == 0 ? "n5" : pr[r.below(pr.size())]; bool wr = r.chance(1, 2); auto before = tree(root); bool t; c.desc << "; " << (wr ? "write " : "remove ") << k;
            if(wr) { json j = json::object(); if(r.chance(1, 2)) j[key(r)] = value(r); j[k] = value(r); t = throws([&] { W(j); }); } else t = throws([&] { X(k); });
            Z5V_CHECK(t, "the format's own key '" << k << "' can be " << (wr ? "written" : "removed") << " as an attribute"); Z5V_CHECK(tree(root) == before, "a refused attribute call modified storage"); continue; }
        json j; R(j); if(j.is_null()) j = json::object(); if(kind == 0 && node == 0) j.erase("n5"); json want = json::object(); for(auto & m : model) want[m.first] = m.second;
        Z5V_CHECK(j == want, "attributes read " << j.dump().substr(0, 300) << ", expected " << want.dump().substr(0, 300));
        Z5V_CHECK(rest() == base, "the metadata in the document changed: " << rest().dump().substr(0, 400) << ", before " << base.dump().substr(0, 400)); auto now = others(); Z5V_CHECK(now == side, "an attribute call modified other files");
    }
    if(node == 2) { auto d2 = z5::openDataset(f, "d"); Z5V_CHECK(d2->shape() == ds->shape() && d2->defaultChunkShape() == ds->defaultChunkShape() && d2->getDtype() == ds->getDtype() && d2->isSharded() == ds->isSharded(), "the dataset opens differently after attribute calls"); std::vector<int32_t> b(6); d2->readChunk(Sh{0, 0}, b.data()); Z5V_CHECK(b == std::vector<int32_t>(6, 4), "the data reads differently after attribute calls"); }
    Z5V_CHECK(f.isZarr() == (kind > 0), "the file changes its format"); if(node == 1) Z5V_CHECK(z5::isSubGroup(f, "g"), "a group is no longer one after attribute calls"); if(node == 2) Z5V_CHECK(!z5::isSubGroup(f, "d"), "a dataset is taken for a group");
}
// ---------------------------------------------------------------- C11
static void modes(Rng & r, Case & c) {
    int kind = r.below(4); static const FM::modes ms[] = {FM::r, FM::r, FM::r_p, FM::w, FM::w_m, FM::a}; FM::modes m = ms[r.below(6)]; FM mode(m); std::string root = c.scratch + "/f"; int fmt = kind >= 2 ? 3 : 2; int op = r.below(18); c.desc << KN[kind] << " mode " << mode.printMode() << " op " << op; c.nontrivial = true;
    if(op == 0) { zfs::handle::File f(root, mode); bool there = r.chance(1, 2); if(there) fs::create_directories(root); auto b = tree(root); bool t = throws([&] { z5::createFile(f, kind > 0, fmt); }); bool must = m == FM::r || m == FM::r_p || there; Z5V_CHECK(t == must, "creating a file in mode " << mode.printMode() << (there ? " over an existing one" : "") << (t ? " is rejected" : " is accepted")); if(must) Z5V_CHECK(tree(root) == b, "a rejected creation modified storage"); return; }
    { zfs::handle::File f(root, FM(FM::a)); z5::createFile(f, kind > 0, fmt); z5::createGroup(f, "g", fmt); DS d; d.delim = r.chance(1, 2) ? "/" : "."; auto ds = mk(f, "d", kind, d); std::vector<int32_t> b(6, 4); ds->writeChunk(Sh{0, 0}, b.data()); for(auto & x : b) x = 1 + r.below(9); ds->writeChunk(Sh{1, 1}, b.data()); json j; j["k"] = 1; z5::writeAttributes(f, j); zfs::handle::Group g(f, "g"); z5::writeAttributes(g, j); zfs::handle::Dataset hd(f, "d"); z5::writeAttributes(hd, j); }
    zfs::handle::File f(root, mode); zfs::handle::Group g(f, "g"); zfs::handle::Dataset hd(f, "d"); auto b = tree(root); bool ro = m == FM::r, t = true; std::string what; auto ds = z5::openDataset(f, "d"); json j; j["k"] = r.below(100); j["q"] = 1; bool exists = false; std::vector<int32_t> v(42, 7);
    switch(op) {
        case 1: what = "Group::create"; t = throws([&] { z5::createGroup(f, "g2", fmt); }); break;
        case 2: what = "createGroup over an existing one"; exists = true; t = throws([&] { z5::createGroup(f, r.chance(1, 2) ? "g" : "d", fmt); }); break;
        case 3: what = "createDataset"; t = throws([&] { mk(f, "d2", kind); }); break;
        case 4: what = "createDataset over an existing node"; exists = true; t = throws([&] { mk(f, r.chance(1, 2) ? "d" : "g", kind); }); break;
        case 5: what = "Group::remove"; t = throws([&] { g.remove(); }); break;
        case 6: what = "File::remove"; t = throws([&] { f.remove(); }); break;
        case 7: what = "Dataset::remove (handle)"; t = throws([&] { hd.remove(); }); break;
        case 8: what = "writeAttributes(file)"; t = throws([&] { z5::writeAttributes(f, j); }); break;
        case 9: what = "writeAttributes(group)"; t = throws([&] { z5::writeAttributes(g, j); }); break;
        case 10: what = "writeAttributes(dataset)"; t = throws([&] { z5::writeAttributes(hd, j); }); break;
        case 11: what = "removeAttribute(file)"; t = throws([&] { z5::removeAttribute(f, "k"); }); break;
        case 12: what = "removeAttribute(group)"; t = throws([&] { z5::removeAttribute(g, "k"); }); break;
        case 13: what = "removeAttribute(dataset)"; t = throws([&] { z5::removeAttribute(hd, "k"); }); break;
        case 14: what = "removeTrivialChunks"; t = throws([&] { z5::util::removeTrivialChunks<int32_t>(*ds, kind == 3 ? 1 : 1 + r.below(2)); }); break;
        case 15: what = "removeDataset"; t = throws([&] { z5::util::removeDataset(*ds, kind == 3 ? 1 : 1 + r.below(2)); }); break;
        case 16: what = "chunk handle remove"; { if(kind == 3) return; Sh sh{7, 5}, cs{3, 2}, id{0, 0}; hd.setIsZarr(kind > 0); zfs::handle::Dataset h2(f, "d", "/", fmt, "default"); zfs::handle::Chunk ch(h2, id, cs, sh); zfs::handle::Dataset h3(f, "d", ".", fmt, "default"); zfs::handle::Chunk ch3(h3, id, cs, sh); t = throws([&] { if(ch.exists()) ch.remove(); else ch3.remove(); }); } break;
        case 17: what = "writeSubarray"; { Sh off{0, 0}, s{7, 5}, st{5, 1}; int32_t fill = 0; for(int i = 0; i < 35; ++i) v[i] = r.chance(1, 3) ? 0 : i; bool all0 = r.chance(1, 4); if(all0) std::fill(v.begin(), v.end(), 0); t = throws([&] { if(r.chance(1, 3)) ma::writeScalar<int32_t>(*ds, off.begin(), s.begin(), all0 ? fill : 5, 1); else ma::writeSubarray<int32_t>(*ds, ma::ConstArrayView<int32_t>(v.data(), s, st), off.begin(), 1 + r.below(2)); }); } break;
    }
    if(ro || exists) { Z5V_CHECK(tree(root) == b, what << " in mode " << mode.printMode() << " modified storage"); Z5V_CHECK(t, what << " in mode " << mode.printMode() << " reports success"); }
    else if(op != 16) Z5V_CHECK(!t, what << " in mode " << mode.printMode() << " is rejected");
}
// ---------------------------------------------------------------- C12
struct Want { std::string dtype; Sh shape, chunk, shard; z5::types::Compressor comp; std::map<std::string, json> opts; double fill = 0; std::string delim = "."; bool v2key = false; };
static json doc(Rng & r, int kind, Want & w) {       // a valid metadata document, not written by z5
    static const std::vector<std::string> dts = {"int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float32", "float64"}; static const std::vector<std::string> z2 = {"|i1", "<i2", "<i4", "<i8", "|u1", "<u2", "<u4", "<u8", "<f4", "<f8"};
    size_t t = r.below(10), nd = 1 + r.below(4); w.dtype = dts[t]; for(size_t d = 0; d < nd; ++d) { w.shape.push_back(1 + r.below(30)); w.chunk.push_back(1 + r.below(8)); if(kind == 3) w.shard.push_back(w.chunk[d] * (1 + r.below(3))); }
    bool fl = t >= 8; json j, fv; int k = r.below(6); w.fill = fl ? (double)(int)r.below(50) / 4 - 3 : (double)r.below(100); if(t < 4 && r.chance(1, 2)) w.fill = -w.fill; if(fl) fv = w.fill; else fv = (int64_t)w.fill; if(!fl && r.chance(1, 5)) fv = w.fill;
    if(fl && k == 0) { fv = "NaN"; w.fill = NAN; } if(fl && k == 1) { fv = "Infinity"; w.fill = INFINITY; } if(fl && k == 2) { fv = "-Infinity"; w.fill = -INFINITY; } if(k == 3) { fv = nullptr; w.fill = kind == 1 && fl ? NAN : 0; }
    using namespace z5::types; int lv = 1 + r.below(9); std::string cname = std::vector<std::string>{"lz4", "zstd", "blosclz", "lz4hc", "zlib"}[r.below(5)]; int shuf = r.below(3); int bsz = r.chance(1, 2) ? 0 : 256;
    auto opt = [&](const char * n, json v) { w.opts[n] = v; };
    if(kind == 0) {
        w.fill = 0; j["dataType"] = w.dtype; j["dimensions"] = Sh(w.shape.rbegin(), w.shape.rend()); j["blockSize"] = Sh(w.chunk.rbegin(), w.chunk.rend()); json o; int q = r.below(8);
        switch(q) { case 0: w.comp = raw; o["type"] = "raw"; break; case 1: w.comp = zlib; o["type"] = "gzip"; o["level"] = lv; opt("level", lv); opt("useZlib", false); break; case 2: w.comp = bzip2; o["type"] = "bzip2"; o["blockSize"] = lv; opt("level", lv); break; case 3: w.comp = xz; o["type"] = "xz"; o["preset"] = lv; opt("level", lv); break; case 4: w.comp = lz4; o["type"] = "lz4"; o["blockSize"] = 65536; opt("level", 65536); break; case 5: w.comp = zstd; o["type"] = "zstd"; o["level"] = lv; opt("level", lv); break; case 6: w.comp = blosc; o["type"] = "blosc"; o["cname"] = cname; o["clevel"] = lv; o["shuffle"] = shuf; opt("codec", cname); opt("level", lv); opt("shuffle", shuf); if(r.chance(1, 2)) { o["blocksize"] = bsz; opt("blocksize", bsz); } else opt("blocksize", 0); if(r.chance(1, 2)) o["nthreads"] = 2; break; default: break; }
        if(q == 7) { if(r.chance(1, 2)) { j["compressionType"] = "gzip"; w.comp = zlib; opt("useZlib", false); } else { j["compressionType"] = "raw"; w.comp = raw; } } else j["compression"] = o;
        if(r.chance(1, 2)) j["resolution"] = json::array({1, 2}); return j;
    }
    if(kind == 1) {
        j["dtype"] = z2[t]; j["shape"] = w.shape; j["chunks"] = w.chunk; j["zarr_format"] = 2; j["order"] = "C"; j["filters"] = r.chance(1, 4) ? json(json::array()) : json(nullptr); j["fill_value"] = fv; if(r.chance(2, 3)) { w.delim = r.chance(1, 2) ? "/" : "."; j["dimension_separator"] = w.delim; }
        json o; switch(r.below(7)) { case 0: w.comp = raw; o = nullptr; break; case 1: w.comp = zlib; o["id"] = "zlib"; o["level"] = lv; opt("level", lv); opt("useZlib", true); break; case 2: w.comp = zlib; o["id"] = "gzip"; o["level"] = lv; opt("level", lv); opt("useZlib", false); break; case 3: w.comp = bzip2; o["id"] = "bz2"; o["level"] = lv; opt("level", lv); break; case 4: w.comp = lz4; o["id"] = "lz4"; o["acceleration"] = lv; opt("level", lv); break; case 5: w.comp = zstd; o["id"] = "zstd"; o["level"] = lv; opt("level", lv); break; default: w.comp = blosc; o["id"] = "blosc"; o["cname"] = cname; o["clevel"] = lv; o["shuffle"] = shuf; opt("codec", cname); opt("level", lv); opt("shuffle", shuf); if(r.chance(1, 2)) { o["blocksize"] = bsz; opt("blocksize", bsz); } else opt("blocksize", 0); }
        j["compressor"] = o; return j;
    }
    j["zarr_format"] = 3; j["node_type"] = "array"; j["data_type"] = w.dtype; j["shape"] = w.shape; j["fill_value"] = fv; j["chunk_grid"]["name"] = "regular"; j["chunk_grid"]["configuration"]["chunk_shape"] = kind == 3 ? w.shard : w.chunk; w.v2key = r.chance(1, 3); j["chunk_key_encoding"]["name"] = w.v2key ? "v2" : "default";
    w.delim = w.v2key ? "." : "/"; if(r.chance(2, 3)) { w.delim = r.chance(1, 2) ? "/" : "."; j["chunk_key_encoding"]["configuration"]["separator"] = w.delim; }
    json cs = json::array(), b; b["name"] = "bytes"; if(t != 0 && t != 4) b["configuration"]["endian"] = "little"; else if(r.chance(1, 2)) b["configuration"]["endian"] = "little"; cs.push_back(b); json o; static const char * sn[] = {"noshuffle", "shuffle", "bitshuffle"};
    switch(r.below(4)) { case 0: w.comp = raw; break; case 1: w.comp = zlib; o["name"] = "gzip"; o["configuration"]["level"] = lv; opt("level", lv); opt("useZlib", false); cs.push_back(o); break; case 2: w.comp = zstd; o["name"] = "zstd"; o["configuration"]["level"] = lv; o["configuration"]["checksum"] = false; opt("level", lv); cs.push_back(o); break; default: w.comp = blosc; o["name"] = "blosc"; o["configuration"] = {{"cname", cname}, {"clevel", lv}, {"shuffle", sn[shuf]}, {"typesize", 4}, {"blocksize", bsz}}; opt("codec", cname); opt("level", lv); opt("shuffle", shuf); opt("blocksize", bsz); cs.push_back(o); }
    if(kind == 3) { json s; s["name"] = "sharding_indexed"; s["configuration"]["chunk_shape"] = w.chunk; s["configuration"]["codecs"] = cs; s["configuration"]["index_codecs"] = json::array({{{"name", "bytes"}, {"configuration", {{"endian", "little"}}}}, {{"name", "crc32c"}}}); if(r.chance(2, 3)) s["configuration"]["index_location"] = "end"; j["codecs"] = json::array({s}); } else j["codecs"] = cs;
    if(r.chance(1, 2)) j["attributes"] = {{"a", 1}}; return j;
}
static void check_open(const std::string & root, const Want & w, int kind, Rng & r) {
    zfs::handle::File f(root, FM(FM::a)); auto d = z5::openDataset(f, "d"); Z5V_CHECK((bool)d, "no dataset"); Z5V_CHECK(z5::types::Datatypes::dtypeToN5().at(d->getDtype()) == w.dtype, "data type " << w.dtype << " opens as " << z5::types::Datatypes::dtypeToN5().at(d->getDtype()));
    Z5V_CHECK(d->shape() == w.shape, "shape " << str(w.shape) << " opens as " << str(d->shape())); Z5V_CHECK(d->defaultChunkShape() == w.chunk, "chunk shape " << str(w.chunk) << " opens as " << str(d->defaultChunkShape())); Z5V_CHECK(d->isSharded() == !w.shard.empty() && d->shardShape() == w.shard, "shard shape " << str(w.shard) << " opens as " << str(d->shardShape())); Z5V_CHECK(d->isZarr() == (kind > 0), "format"); Z5V_CHECK(d->getCompressor() == w.comp, "compressor opens as " << d->getCompressor() << ", expected " << w.comp);
    z5::types::CompressionOptions o; d->getCompressionOptions(o); json jo; z5::types::compressionTypeToJson(o, jo); for(auto & kv : w.opts) Z5V_CHECK(jo.contains(kv.first) && jo[kv.first] == kv.second, "compression option " << kv.first << "=" << kv.second.dump() << " opens as " << (jo.contains(kv.first) ? jo[kv.first].dump() : "nothing"));
    alignas(16) char fv[64] = {0}; d->getFillValue(fv); double got = 0; auto g = [&](auto t) { decltype(t) x; memcpy(&x, fv, sizeof x); got = (double)x; }; using namespace z5::types;
    switch(d->getDtype()) { case int8: g(int8_t()); break; case int16: g(int16_t()); break; case int32: g(int32_t()); break; case int64: g(int64_t()); break; case uint8: g(uint8_t()); break; case uint16: g(uint16_t()); break; case uint32: g(uint32_t()); break; case uint64: g(uint64_t()); break; case float32: g(float()); break; default: g(double()); }
    Z5V_CHECK(got == w.fill || (got != got && w.fill != w.fill), "fill value " << w.fill << " opens as " << got);
    Sh ch; for(size_t k = 0; k < w.shape.size(); ++k) ch.push_back(r.below((w.shape[k] + w.chunk[k] - 1) / w.chunk[k])); std::filesystem::path p; d->chunkPath(ch, p); Sh id(ch); if(!w.shard.empty()) for(size_t k = 0; k < id.size(); ++k) id[k] /= w.shard[k] / w.chunk[k]; std::string key; if(kind == 0) { for(size_t k = id.size(); k-- > 0;) key += std::to_string(id[k]) + (k ? "/" : ""); } else { if(kind >= 2 && !w.v2key) key = "c" + w.delim; for(size_t k = 0; k < id.size(); ++k) key += (k ? w.delim : "") + std::to_string(id[k]); }
    Z5V_CHECK(p.string() == root + "/d/" + key, "chunk " << str(ch) << " is addressed as " << p.string() << ", expected " << key);
}
static void metadata(Rng & r, Case & c) {
    int kind = r.below(4); std::string root = c.scratch + "/f"; zfs::handle::File f(root, FM(FM::a)); z5::createFile(f, kind > 0, kind >= 2 ? 3 : 2); Want w; json j = doc(r, kind, w); std::string path = root + "/d/" + (kind == 0 ? "attributes.json" : kind == 1 ? ".zarray" : "zarr.json"); c.nontrivial = true;
    if(r.chance(1, 2)) { c.desc << KN[kind] << " " << j.dump(); spit(path, j.dump()); check_open(root, w, kind, r); return; }
    if(r.chance(1, 2)) {       // the document z5 writes says what was asked for
        DS d; d.dtype = w.dtype; d.shape = w.shape; d.chunk = w.chunk; d.shard = w.shard; d.delim = kind == 0 ? "." : w.delim; d.enc = w.v2key && kind >= 2 ? "v2" : "default"; d.fill = w.fill; if(!(w.dtype[0] == 'f') && d.fill != d.fill) d.fill = w.fill = 0; static const std::map<z5::types::Compressor, std::string> nm = {{z5::types::raw, "raw"}, {z5::types::zlib, "zlib"}, {z5::types::bzip2, "bzip2"}, {z5::types::lz4, "lz4"}, {z5::types::xz, "xz"}, {z5::types::zstd, "zstd"}, {z5::types::blosc, "blosc"}}; d.comp = nm.at(w.comp); for(auto & kv : w.opts) { if(kv.second.is_boolean()) d.o[kv.first] = kv.second.get<bool>(); else if(kv.second.is_number()) d.o[kv.first] = kv.second.get<int>(); else d.o[kv.first] = kv.second.get<std::string>(); }
        c.desc << "create " << KN[kind] << " " << j.dump(); auto ds = mk(f, "d", kind, d); json m = json::parse(slurp(path)); auto has = [&](const json & a, const char * k, const json & v) { Z5V_CHECK(a.contains(k) && a[k] == v, "metadata field '" << k << "' is " << (a.contains(k) ? a[k].dump() : "missing") << ", expected " << v.dump()); };
        json fv = w.fill != w.fill ? json("NaN") : std::isinf(w.fill) ? json(w.fill > 0 ? "Infinity" : "-Infinity") : json(w.fill);
        if(kind == 0) { has(m, "dimensions", Sh(w.shape.rbegin(), w.shape.rend())); has(m, "blockSize", Sh(w.chunk.rbegin(), w.chunk.rend())); has(m, "dataType", w.dtype); if(j.contains("compression")) for(auto it = j["compression"].begin(); it != j["compression"].end(); ++it) if(it.key() != "nthreads") has(m["compression"], it.key().c_str(), it.value()); }
        else if(kind == 1) { has(m, "shape", w.shape); has(m, "chunks", w.chunk); has(m, "dtype", j["dtype"]); has(m, "order", "C"); has(m, "zarr_format", 2); has(m, "fill_value", fv); has(m, "filters", nullptr); if(w.delim != ".") has(m, "dimension_separator", w.delim); if(j["compressor"].is_null()) has(m, "compressor", nullptr); else for(auto it = j["compressor"].begin(); it != j["compressor"].end(); ++it) has(m["compressor"], it.key().c_str(), it.value()); }
        else { has(m, "shape", w.shape); has(m, "data_type", w.dtype); has(m, "node_type", "array"); has(m, "zarr_format", 3); has(m, "fill_value", fv); if(!(w.dtype[0] == 'f')) Z5V_CHECK(m["fill_value"].is_number_integer(), "the fill value of an integer array is written as " << m["fill_value"].dump()); has(m["chunk_grid"], "name", "regular"); has(m["chunk_grid"]["configuration"], "chunk_shape", kind == 3 ? w.shard : w.chunk); has(m["chunk_key_encoding"], "name", d.enc); has(m["chunk_key_encoding"]["configuration"], "separator", w.delim); json cs = m["codecs"]; if(kind == 3) { Z5V_CHECK(cs.size() == 1 && cs[0]["name"] == "sharding_indexed", "codecs of a sharded array are " << cs.dump()); has(cs[0]["configuration"], "chunk_shape", w.chunk); if(cs[0]["configuration"].contains("index_location")) has(cs[0]["configuration"], "index_location", "end"); json ic = cs[0]["configuration"]["index_codecs"]; Z5V_CHECK(ic.size() == 2 && ic[0]["name"] == "bytes" && ic[0]["configuration"]["endian"] == "little" && ic[1]["name"] == "crc32c", "index codecs " << ic.dump()); cs = cs[0]["configuration"]["codecs"]; } Z5V_CHECK(cs.size() >= 1 && cs[0]["name"] == "bytes" && cs[0]["configuration"]["endian"] == "little", "codecs " << cs.dump());
            static const std::map<z5::types::Compressor, std::string> cn = {{z5::types::zlib, "gzip"}, {z5::types::zstd, "zstd"}, {z5::types::blosc, "blosc"}}; if(w.comp == z5::types::raw) Z5V_CHECK(cs.size() == 1, "codecs " << cs.dump()); else { Z5V_CHECK(cs.size() == 2, "codecs " << cs.dump()); has(cs[1], "name", cn.at(w.comp)); auto & q = cs[1]["configuration"]; static const char * sn[] = {"noshuffle", "shuffle", "bitshuffle"}; if(w.comp == z5::types::blosc) { has(q, "cname", w.opts["codec"]); has(q, "clevel", w.opts["level"]); has(q, "shuffle", sn[w.opts["shuffle"].get<int>()]); has(q, "blocksize", w.opts["blocksize"]); static const std::map<char, int> none; has(q, "typesize", (int)z5::types::datatypeSize(ds->getDtype())); } else has(q, "level", w.opts["level"]); } }
        if(kind == 0) { w.fill = 0; w.delim = "."; } check_open(root, w, kind, r); return;
    }
    // documents that must be rejected
    std::string what; auto at = [&](std::vector<std::string> p, json v, const char * n) { json * q = &j; for(auto & x : p) q = x == "0" && q->is_array() ? &(*q)[0] : &(*q)[x]; *q = v; what = n; };
    auto drop = [&](std::vector<std::string> ks) { std::string k = ks[r.below(ks.size())]; j.erase(k); what = "no " + k; };
    auto other = [&](json x) { return x; }; (void)other; Sh zc(w.chunk); zc[r.below(zc.size())] = 0; Sh lc(w.chunk); lc.push_back(1);
    static const char * seps[] = {"", "1", "-", "0", "//", "_", ".."}; std::string sep = seps[r.below(7)];
    if(kind >= 1 && r.chance(1, 10)) { if(kind == 1) j["dimension_separator"] = sep; else j["chunk_key_encoding"]["configuration"]["separator"] = sep; what = "separator"; }
    else if(kind == 0) switch(r.below(6)) { case 0: drop({"dimensions", "blockSize", "dataType"}); break; case 1: at({"dataType"}, "string", "data type"); break; case 2: at({"blockSize"}, zc, "zero block size"); break; case 3: at({"blockSize"}, lc, "dimension mismatch"); break; case 4: if(j.contains("compression")) at({"compression"}, {{"type", "snappy"}}, "unknown compression"); else at({"compressionType"}, "snappy", "unknown compression"); break; case 5: if(j.contains("compression")) j.erase("compression"); else j.erase("compressionType"); what = "no compression"; break; }
    else if(kind == 1) switch(r.below(12)) { case 0: drop({"shape", "chunks", "dtype", "compressor", "fill_value"}); break; case 1: at({"dtype"}, r.chance(1, 2) ? ">i4" : "|S5", "data type"); break; case 2: at({"chunks"}, zc, "zero chunk"); break; case 3: at({"chunks"}, lc, "dimension mismatch"); break; case 4: at({"order"}, "F", "order"); break; case 5: at({"filters"}, json::array({{{"id", "delta"}}}), "filters"); break; case 6: at({"zarr_format"}, 1, "zarr format"); break; case 7: at({"compressor"}, {{"id", "snappy"}, {"level", 1}}, "unknown compressor"); break; case 8: at({"fill_value"}, "garbage", "fill value"); break; case 9: at({"compressor"}, {{"level", 1}}, "compressor without id"); break; case 10: at({"compressor"}, {{"id", "zlib"}}, "compressor without level"); break; case 11: at({"compressor"}, {{"id", "lzma"}}, "unknown compressor"); break; }
    else { bool s = kind == 3; json & cs = s ? j["codecs"][0]["configuration"]["codecs"] : j["codecs"];
        switch(r.below(s ? 17 : 13)) { case 0: drop({"shape", "chunk_grid", "data_type", "codecs", "fill_value", "chunk_key_encoding", "node_type"}); break; case 1: at({"data_type"}, "string", "data type"); break; case 2: if(s) at({"codecs", "0", "configuration", "chunk_shape"}, zc, "zero chunk"); else at({"chunk_grid", "configuration", "chunk_shape"}, zc, "zero chunk"); break; case 3: at({"chunk_grid", "configuration", "chunk_shape"}, lc, "dimension mismatch"); break; case 4: at({"node_type"}, "group", "node type"); break; case 5: at({"chunk_grid", "name"}, "rectangular", "grid"); break; case 6: at({"chunk_key_encoding", "name"}, "fancy", "key encoding"); break; case 7: at({"fill_value"}, "garbage", "fill value"); break; case 8: cs.push_back({{"name", "crc32c"}}); what = "crc32c codec"; break; case 9: cs.insert(cs.begin(), {{"name", "transpose"}, {"configuration", {{"order", {1, 0}}}}}); what = "transpose codec"; break; case 10: if(w.dtype == "int8" || w.dtype == "uint8") return; cs[0]["configuration"]["endian"] = "big"; what = "big endian"; break; case 11: cs.push_back({{"name", "gzip"}, {"configuration", {{"level", 1}}}}); cs.push_back({{"name", "zstd"}, {"configuration", {{"level", 1}}}}); what = "two compressors"; break; case 12: cs.push_back({{"name", "lz4"}}); what = "unknown codec"; break;
            case 13: at({"codecs", "0", "configuration", "index_location"}, "start", "index at start"); break; case 14: { Sh x(w.shard); size_t d = r.below(x.size()); x[d] = w.chunk[d] > 1 ? x[d] + 1 : 0; at({"chunk_grid", "configuration", "chunk_shape"}, x, "shard is no multiple"); break; } case 15: j["codecs"].push_back({{"name", "gzip"}, {"configuration", {{"level", 1}}}}); what = "codec around sharding"; break; case 16: { Sh x(w.chunk); x.push_back(1); at({"codecs", "0", "configuration", "chunk_shape"}, x, "dimension mismatch"); break; } } }
    c.desc << KN[kind] << " invalid: " << what << " " << j.dump(); spit(path, j.dump()); bool t = throws([&] { z5::openDataset(f, "d"); }); Z5V_CHECK(t, "metadata with an unsupported or inconsistent value (" << what << ") is accepted");
}
static void bad_create(Rng & r, Case & c) {
    int kind = r.below(4); std::string root = c.scratch + "/f"; zfs::handle::File f(root, FM(FM::a)); z5::createFile(f, kind > 0, kind >= 2 ? 3 : 2); DS d; std::string what; c.nontrivial = true;
    if(kind >= 1 && r.chance(1, 8)) { static const char * seps[] = {"", "1", "-", "0", "//", "_", ".."}; d.delim = seps[r.below(7)]; what = "separator"; } else if(kind >= 2 && r.chance(1, 8)) { d.enc = r.chance(1, 2) ? "v3" : ""; what = "key encoding"; }
    else switch(r.below(8)) { case 0: d.dtype = "string"; what = "data type"; break; case 1: d.comp = "snappy"; what = "compressor"; break; case 2: d.chunk[r.below(2)] = 0; d.shard = {6, 4}; if(kind != 3) d.shard.clear(); what = "zero chunk"; break; case 3: d.chunk.push_back(1); what = "dimension mismatch"; break; case 4: if(kind != 3) { d.shard = {6, 4}; kind = kind == 2 ? 3 : kind; if(kind == 3) return; what = "shards in a format without"; } else { d.shard = {6, 5}; what = "shard is no multiple"; } break; case 5: if(kind == 0) return; d.comp = "xz"; what = "xz in zarr"; break; case 6: if(kind < 2) return; d.comp = r.chance(1, 2) ? "bzip2" : "lz4"; what = "codec unknown to zarr v3"; break; case 7: if(kind != 3) return; d.shard = {6}; what = "shard dimension"; break; }
    c.desc << KN[kind] << " create with bad " << what; bool t = throws([&] { mk(f, "d", kind, d); }); Z5V_CHECK(t, "creating a dataset with " << what << " is accepted"); bool t2 = throws([&] { z5::openDataset(f, "d"); }); Z5V_CHECK(t2, "a rejected creation leaves a dataset that opens");
}
// ---------------------------------------------------------------- C16
static void failing(Rng & r, Case & c) {
    int kind = r.below(4); int fmt = kind >= 2 ? 3 : 2; int op = r.below(10); DS d; d.delim = r.chance(1, 2) ? "/" : "."; if(r.chance(1, 3)) d.comp = "zstd"; d.dtype = "int32"; if(r.chance(1, 4)) { d.shape = {90, 80}; d.chunk = {60, 70}; } c.nontrivial = true; uint64_t dseed = r.next(); int th = r.chance(2, 3) ? 1 : 2;
    size_t n = d.chunk[0] * d.chunk[1]; Sh sh = d.shape; json attr = json::object(); for(int i = 0; i < 4; ++i) attr[key(r) + std::to_string(i)] = value(r); if(r.chance(1, 6)) attr["long"] = std::string(1 + r.below(20000), 'x');
    auto setup = [&](const std::string & root) { Rng q(dseed); zfs::handle::File f(root, FM(FM::a)); z5::createFile(f, kind > 0, fmt); z5::createGroup(f, "g", fmt); auto ds = mk(f, "d", kind, d); std::vector<int32_t> b(n); for(auto & x : b) x = q.below(1000); ds->writeChunk(Sh{0, 0}, b.data()); json j; j["k"] = 1; zfs::handle::Group g(f, "g"); zfs::handle::Dataset hd(f, "d"); z5::writeAttributes(f, j); z5::writeAttributes(g, j); z5::writeAttributes(hd, j); };
    auto act = [&](const std::string & root, std::function<void()> arm) { Rng q(dseed + 1); zfs::handle::File f(root, FM(FM::a)); auto ds = z5::openDataset(f, "d"); zfs::handle::Group g(f, "g"); zfs::handle::Dataset hd(f, "d"); std::vector<int32_t> b(sh[0] * sh[1]); for(auto & x : b) x = 1 + q.below(100000); Sh off{0, 0}, st{sh[1], 1}; arm();
        switch(op) { case 0: case 1: ds->writeChunk(Sh{q.below(2), q.below(2)}, b.data()); break; case 2: case 3: ma::writeSubarray<int32_t>(*ds, ma::ConstArrayView<int32_t>(b.data(), sh, st), off.begin(), th); break; case 4: ma::writeScalar<int32_t>(*ds, off.begin(), sh.begin(), 77, th); break; case 5: z5::writeAttributes(f, attr); break; case 6: z5::writeAttributes(g, attr); break; case 7: if(q.below(2)) z5::writeAttributes(hd, attr); else z5::removeAttribute(hd, "k"); break; case 8: mk(f, "d2", kind, d); break; case 9: if(q.below(2)) z5::createGroup(f, "g2", fmt); else { zfs::handle::File f2(root + "/sub", FM(FM::a)); z5::createFile(f2, kind > 0, fmt); } break; } };
    std::string A = c.scratch + "/a", B = c.scratch + "/b"; setup(A); setup(B); act(A, [] {}); auto want = tree(A); size_t big = 0; for(auto & e : want) big = std::max(big, e.second.size());
    int how = r.below(4); rlimit old; getrlimit(RLIMIT_FSIZE, &old); signal(SIGXFSZ, SIG_IGN);
    if(how < 3) { size_t lim = r.chance(1, 3) ? r.below(30) : r.below(big + 20); c.desc << KN[kind] << " " << d.comp << " op " << op << " no file can grow beyond " << lim << " bytes"; bool t = throws([&] { act(B, [&] { rlimit l = old; l.rlim_cur = lim; setrlimit(RLIMIT_FSIZE, &l); }); }); setrlimit(RLIMIT_FSIZE, &old); if(!t) Z5V_CHECK(tree(B) == want, "an operation whose data could not be written completely reports success"); return; }
    // the target cannot be opened
    std::vector<std::string> ch; for(auto & e : want) if(e.first.back() != '/' && e.first != "." && slurp(B + "/" + e.first) != e.second) ch.push_back(e.first); if(ch.empty()) return; std::string victim = ch[r.below(ch.size())]; c.desc << KN[kind] << " op " << op << " " << victim << " cannot be opened for writing"; fs::path p = B + "/" + victim; bool isdir = r.chance(1, 2) || fs::exists(p) || fs::exists(p.parent_path());
    if(op >= 8) return; if(isdir) { if(op >= 5) { std::string keep = slurp(p.string()); fs::remove(p); fs::create_symlink("/dev/full", p); } else { fs::remove(p); { fs::create_directories(p.parent_path()); fs::create_symlink("/dev/full", p); } } } else { fs::create_directories(p.parent_path().parent_path()); if(!fs::exists(p.parent_path())) spit(p.parent_path().string(), "x"); }
    bool t = throws([&] { act(B, [] {}); }); Z5V_CHECK(t, "an operation reports success although " << victim << " could not be written");
}
int main(int argc, char ** argv) {
    return run(argc, argv, [](Rng & r, Case & c) { if(c.prop == "C13") attributes(r, c); else if(c.prop == "C11") modes(r, c); else if(c.prop == "C12") { if(r.chance(1, 6)) bad_create(r, c); else metadata(r, c); } else failing(r, c); });
}
