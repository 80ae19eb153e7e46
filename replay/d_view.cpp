// strided copy / fill / subview against index arithmetic; buffers are exact-size heap blocks (address sanitizer)
#include "z5v.hxx"
#include "z5/multiarray/array_util.hxx"
#include "z5/util/util.hxx"
using namespace z5v;
namespace ma = z5::multiarray;
template<class F> static void grid(const Sh & n, F && f) { for(auto x : n) if(x == 0) return; Sh i(n.size(), 0); for(;;) { f(i); int d = (int)n.size() - 1; for(; d >= 0; --d) { if(++i[d] < n[d]) break; i[d] = 0; } if(d < 0) break; } }
template<class T> struct Buf {
    std::vector<T> b; Sh shape, strides; size_t off;
    static T val(size_t i, unsigned salt) { return (T)((i * 2654435761u + salt * 97 + 3) % 251); }
    Buf(Rng & r, const Sh & sh, bool src, unsigned salt) : shape(sh), strides(sh.size(), 1) {
        std::vector<size_t> ord(sh.size()); for(size_t i = 0; i < ord.size(); ++i) ord[i] = ord.size() - 1 - i;
        int mode = r.below(4);      // 0: C order, 1: gaps, 2: permuted axes with gaps, 3: wide gaps
        if(mode == 2) for(size_t i = ord.size(); i > 1; --i) std::swap(ord[i - 1], ord[r.below(i)]);
        size_t s = mode == 0 ? 1 : 1 + (r.chance(1, 3) ? r.below(3) : 0);
        for(auto d : ord) { strides[d] = s; s *= std::max<size_t>(1, sh[d]); if(mode && r.chance(1, mode == 3 ? 1 : 3)) s += r.below(5); }
        if(src && r.chance(1, 8) && sh.size()) strides[r.below(sh.size())] = 0;      // a source may be broadcast
        size_t ext = 1; for(size_t d = 0; d < sh.size(); ++d) { if(sh[d] == 0) ext = 0; } if(ext) for(size_t d = 0; d < sh.size(); ++d) ext += (sh[d] - 1) * strides[d];
        size_t pre = r.below(4), post = r.below(4); off = pre; b.resize(pre + ext + post); b.shrink_to_fit(); for(size_t i = 0; i < b.size(); ++i) b[i] = val(i, salt);
    }
    size_t pos(const Sh & i) const { size_t p = off; for(size_t d = 0; d < i.size(); ++d) p += i[d] * strides[d]; return p; }
};
template<class T> void one(Rng & r, Case & c) {
    size_t nd = r.below(6); if(r.chance(1, 20)) nd = 6 + r.below(3); Sh sh; size_t lim = nd <= 1 ? 40 : nd == 2 ? 12 : nd == 3 ? 7 : nd == 4 ? 5 : 3;
    for(size_t d = 0; d < nd; ++d) sh.push_back(1 + r.below(r.chance(1, 3) ? 2 : lim)); if(nd && r.chance(1, 25)) sh[r.below(nd)] = 0;
    Buf<T> a(r, sh, true, 1), b(r, sh, false, 2); int op = r.below(4); c.nontrivial = nd >= 2; c.evals = 1;
    c.desc << "op" << op << " T" << sizeof(T) << " shape " << str(sh) << " src strides " << str(a.strides) << " dst strides " << str(b.strides);
    auto want = b.b; auto src0 = a.b;
    if(op == 0) { grid(sh, [&](const Sh & i) { want[b.pos(i)] = a.b[a.pos(i)]; }); ma::copyView<T>(ma::ConstArrayView<T>(a.b.data() + a.off, sh, a.strides), ma::ArrayView<T>(b.b.data() + b.off, sh, b.strides)); }
    else if(op == 1) { T v = (T)r.below(200); grid(sh, [&](const Sh & i) { want[b.pos(i)] = v; }); ma::fillView<T>(ma::ArrayView<T>(b.b.data() + b.off, sh, b.strides), v); }
    else if(nd) {        // sub-views on both sides
        Sh o1, o2, s; for(size_t d = 0; d < nd; ++d) { if(sh[d] == 0) return; size_t k = 1 + r.below(sh[d]); s.push_back(k); o1.push_back(r.below(sh[d] - k + 1)); o2.push_back(r.below(sh[d] - k + 1)); }
        c.desc << " sub " << str(o1) << str(o2) << "+" << str(s); T v = (T)r.below(200);
        grid(s, [&](const Sh & i) { Sh p(i), q(i); for(size_t d = 0; d < nd; ++d) { p[d] += o1[d]; q[d] += o2[d]; } want[b.pos(q)] = op == 2 ? a.b[a.pos(p)] : v; });
        auto dv = ma::subview(ma::ArrayView<T>(b.b.data() + b.off, sh, b.strides), o2, s);
        Z5V_CHECK(dv.shape == s && dv.strides == b.strides, "sub-view has a wrong shape or strides");
        if(op == 2) ma::copyView<T>(ma::subview(ma::ConstArrayView<T>(a.b.data() + a.off, sh, a.strides), o1, s), dv); else ma::fillView<T>(dv, v);
    }
    for(size_t i = 0; i < want.size(); ++i) Z5V_CHECK(memcmp(&want[i], &b.b[i], sizeof(T)) == 0, "destination element " << i << " is " << +b.b[i] << ", expected " << +want[i]);
    Z5V_CHECK(src0.empty() || memcmp(src0.data(), a.b.data(), src0.size() * sizeof(T)) == 0, "the source was modified");
    // row-major strides
    Sh cs = ma::cOrderStrides(sh); size_t p = 1; for(size_t d = nd; d-- > 0;) { Z5V_CHECK(cs[d] == p, "row-major stride of axis " << d << " of " << str(sh) << " is " << cs[d]); p *= sh[d]; }
}
int main(int argc, char ** argv) {
    return run(argc, argv, [](Rng & r, Case & c) { switch(r.below(4)) { case 0: one<uint8_t>(r, c); break; case 1: one<int16_t>(r, c); break; case 2: one<int64_t>(r, c); break; default: one<double>(r, c); } });
}
