// Bulk generation (engine.generate(first, last)) of library engines and of engines with prescribed values.
#include "eng.hpp"
#include "tree.hpp"
#include <list>
#include <deque>
using namespace tr;

// an iterator that counts the writes of every element
template<class El> struct Buf { std::vector<El> v; std::vector<int> cnt; size_t n; Buf(size_t k) : v(k + 8, El(0x55)), cnt(k + 8, 0), n(k) {} };
template<class El> struct CountIt {
    typedef std::forward_iterator_tag iterator_category; typedef El value_type; typedef std::ptrdiff_t difference_type; typedef El* pointer; typedef El& reference;
    struct Ref { Buf<El>* b; size_t i; template<class V> const Ref& operator=(V x) const { if (i >= b->v.size()) { throw std::runtime_error("wrote far outside the range"); } b->v[i] = (El)x; ++b->cnt[i]; return *this; } };
    Buf<El>* b; size_t i;
    Ref operator*() const { return Ref{b, i}; }
    CountIt& operator++() { ++i; return *this; } CountIt operator++(int) { CountIt t(*this); ++i; return t; }
    bool operator==(const CountIt& o) const { return i == o.i; } bool operator!=(const CountIt& o) const { return i != o.i; }
};
// fill n elements through iterators of kind k; the elements, and whether each was written once and no other
template<class El, class E> void fill(E& e, int kind, size_t n, std::vector<u64>& out, bool& once) {
    out.clear(); once = true; typedef typename std::make_unsigned<El>::type U;
    if (kind == 0) { Buf<El> b(n); e.generate(CountIt<El>{&b, 0}, CountIt<El>{&b, n}); for (size_t i = 0; i < b.v.size(); ++i) { if (b.cnt[i] != (i < n)) once = false; if (i < n) out.push_back((U)b.v[i]); } }
    else if (kind == 1) { std::vector<El> v(n + 8, El(0x5a)); e.generate(v.data() + 4, v.data() + 4 + n); for (size_t i = 0; i < v.size(); ++i) { if (i < 4 || i >= n + 4) { if (v[i] != El(0x5a)) once = false; } else out.push_back((U)v[i]); } }
    else if (kind == 2) { std::list<El> v(n + 1, El(0x5a)); auto last = v.end(); --last; e.generate(v.begin(), last); if (*last != El(0x5a)) once = false; for (auto i = v.begin(); i != last; ++i) out.push_back((U)*i); }
    else { std::deque<El> v(n + 3, El(0x5a)); e.generate(v.begin() + 1, v.begin() + 1 + n); if (v[0] != El(0x5a) || v[n + 1] != El(0x5a)) once = false; for (size_t i = 0; i < n; ++i) out.push_back((U)v[i + 1]); }
}
template<class E> bool fill_as(int el, E& e, int kind, size_t n, std::vector<u64>& out) {
    bool once;
    switch (el) { case 8: fill<std::uint8_t>(e, kind, n, out, once); break; case 16: fill<std::uint16_t>(e, kind, n, out, once); break; case 32: fill<std::uint32_t>(e, kind, n, out, once); break;
        case 63: fill<std::int64_t>(e, kind, n, out, once); break; default: fill<std::uint64_t>(e, kind, n, out, once); }
    return once;
}
static const int ELS[] = {32, 64, 32, 63, 16, 32, 8};

#ifndef SCRIPTED
// ---- library engines: the values to come are those of a copy, the position reached is found by comparing ----
template<class E> void lib(EngInfo I) {
    typedef typename E::result_type R; E e; E* two[2];
    section(I.name, [=] {
        bool whole = I.sb == 64 && std::string(I.name) == "splitmix64" || std::string(I.name) == "rand48";     // these hand out their values whole
        u64 range = I.real ? ((u64)1 << I.real) - 1 : (u64)(E::max)() - (u64)(E::min)();
        Ev("engine").w("range", range).b("whole", whole).b("real", I.real != 0);
        Rng rng(seed() * 31 + I.buf); E e; if (seed() > 1) e.seed((unsigned char)(seed() + 3));
        int bits = 0; while (bits < 64 && (range >> bits)) ++bits;
        std::vector<size_t> ns = {1, 0, 2, 3, 1, 5, 4, 7, 10}; if (thorough()) for (size_t k = 0; k < 40; ++k) ns.push_back(rng.next() % 12); if (thorough()) ns.push_back(40);
        size_t turn = 0;
        for (size_t n : ns) {
            if (I.tag("big") && turn > 4) break;
            int el = ELS[turn % 7], kind = (turn + I.buf) % 4; ++turn;
            
            size_t need = (n * 32 / std::max(1, bits - 5) + 2) * 3 + 8; if (bits <= 6) need = (n * 32 + 8) * 3;
            E c(e); std::vector<u64> u; for (size_t i = 0; i < need; ++i) u.push_back(as_int<R>(c(), I.real) - (I.real ? 0 : (u64)(E::min)()));
            E before(e), twin(e); std::vector<u64> o, o2; bool once = fill_as(el, e, kind, n, o), once2 = fill_as(el, twin, 3 - kind, n, o2);
            E p(before); std::vector<long> used; for (size_t i = 0; i <= need; ++i) { if (p == e) used.push_back(i); p(); }
            bool follows = true; { E x(e), y(twin); for (int i = 0; i < 5; ++i) if (!(x() == y())) follows = false; }
            Ev("fill").i("n", (long)n).i("el", el == 63 ? 64 : el).ws("u", u).ws("out", o).b("once", once && once2).is("used", used).b("twin", twin == e && o == o2 && follows);
            for (size_t k = rng.next() % 3; k--;) e();
        }
    });
}
#define ENGINE(nm, sb, real, buf, tags, ...) lib<__VA_ARGS__>(EngInfo{#nm, sb, real, buf, tags});
int main(int argc, char** argv) {
#include "engines.inc"
    return run(argc, argv);
}
#else
// ---- engines of any range with prescribed values ----
template<class R> void scripted(u64 B, int salt) {       // values 0..B-1 (B = 0: the whole type)
    typedef SE<R> S; typedef boost::random::discard_block_engine<S, 1, 1> E; typedef typename std::make_unsigned<R>::type U;
    u64 range = B - 1, full = (u64)std::numeric_limits<U>::max(); if (B == 0) range = full;
    R lo = std::numeric_limits<R>::min(); u64 room = full - range; Rng rng(seed() * 131 + range * 7 + salt + sizeof(R));
    if (salt % 3 == 1 && room) lo = (R)(U)((U)lo + (U)(room > 1 ? rng.next() % room : 1)); if (salt % 3 == 2) lo = (R)(U)((U)lo + (U)room);
    S::bounds(lo, range);
    Ev("engine").w("range", range).b("whole", false).b("real", false);
    int bits = 0; while (bits < 64 && (range >> bits)) ++bits;
    std::vector<size_t> ns = {1, 0, 2, 3, 5}; if (bits <= 3) ns = {1, 0, 2}; if (bits >= 16) ns.push_back(9); if (thorough()) { ns.push_back(4); ns.push_back(7); }
    for (size_t q = 0; q < ns.size(); ++q) for (int style = 0; style < (bits <= 3 ? 2 : 3); ++style) {
        size_t n = ns[q]; size_t need = (n * 32 / std::max(1, bits - 6) + 4) * 4 + 4; if (bits <= 7) need = (n * 32 + 8) * 2 + 8;
        if (bits <= 3 && n > 1 && style) continue;
        std::vector<u64> d; for (size_t i = 0; i < need; ++i) { u64 x = range == ~0ull ? rng.next() : rng.next() % (range + 1); u64 z = rng.next() % 8;
            if (style == 0 && z < 3) x = z == 0 ? range : z == 1 ? 0 : range - (range > 1 ? rng.next() % 2 : 0);     // extremes, also rejected ones
            if (style == 1 && i < 3) x = range; d.push_back(x); }
        if (style == 1) for (size_t i = 3; i < d.size(); ++i) d[i] = i % 2 ? range / 2 : range - d[i] / 2;
        for (size_t i = need / 2; i < need; ++i) d[i] = d[i] % ((u64)1 << (bits - 1));
        S::script(d.data(), d.size()); E e; std::vector<u64> o; int el = ELS[(q + style + salt) % 7];
        bool once = fill_as(el, e, (int)(q + style) % 4, n, o);
        size_t used = S::pos;
        Ev("fill").i("n", (long)n).i("el", el == 63 ? 64 : el).ws("u", d).ws("out", o).b("once", once).is("used", std::vector<long>{(long)used}).b("twin", true);
    }
}
template<class R> void type(const char* nm) {
    int w = sizeof(R) * 8; std::vector<u64> Bs; Rng rng(seed() * 7 + w);
    for (u64 b = 2; b <= 40; ++b) if (w > 8 || b < 256) Bs.push_back(b);
    for (int k = 6; k < w; ++k) { u64 p = (u64)1 << k; u64 c[] = {p - 1, p, p + 1, p + (p >> 1), p + (p >> 2), p + (p >> 3), p - (p >> 4), p + p / 3, p + (p >> 1) + 1}; for (u64 x : c) if (x >= 2 && (w == 64 || x <= ((u64)1 << w))) Bs.push_back(x); }
    u64 top = w == 64 ? 0 : (u64)1 << w; Bs.push_back(top == 0 ? 0 : top); Bs.push_back(top - 1); Bs.push_back(top - 2); Bs.push_back(top - 31); Bs.push_back(top - 256 + (w == 8 ? 100 : 0));
    if (w == 8) { Bs.clear(); for (u64 b = 2; b <= 256; ++b) Bs.push_back(b); }
    for (int i = 0; i < (thorough() ? 200 : 20); ++i) Bs.push_back(2 + (rng.next() >> (64 - w)) / 2);
    int salt = 0;
    for (size_t k = 0; k < Bs.size(); ++k) { u64 B = Bs[k]; int s = salt++; if (!thorough() && w <= 8 && k % 3 != (size_t)std::is_signed<R>::value && (B & (B - 1)) && B > 40) continue;
        section(std::string(nm) + "/" + std::to_string(k) + "/" + std::to_string(B), [=] { scripted<R>(B == ((u64)1 << (w & 63)) && w < 64 ? 0 : B, s); }); }
}
// ---- real engines: values k / 2^bits, bits the digits of the type ----
template<class R> void reals(const char* nm) {
    section(nm, [] {
        typedef SR<R> S; typedef boost::random::discard_block_engine<S, 1, 1> E; const int bits = std::numeric_limits<R>::digits; S::bits = bits; Rng rng(seed() * 17 + bits);
        u64 range = bits == 64 ? ~0ull : ((u64)1 << bits) - 1;
        Ev("engine").w("range", range).b("whole", false).b("real", true);
        for (size_t n : {1, 0, 2, 3, 4, 5, 7, 9}) for (int style = 0; style < (thorough() ? 24 : 6); ++style) {
            std::vector<u64> d; for (size_t i = 0; i < n * 2 + 6; ++i) { u64 x = rng.next() & range; u64 z = rng.next() % 6; if (style % 2 && z < 3) x = z == 0 ? 0 : z == 1 ? range : (u64)1 << (rng.next() % bits); d.push_back(x); }
            S::script(d.data(), d.size()); E e; std::vector<u64> o; int el = ELS[(n + style) % 7]; bool once = fill_as(el, e, (int)(n + style) % 4, n, o);
            Ev("fill").i("n", (long)n).i("el", el == 63 ? 64 : el).ws("u", d).ws("out", o).b("once", once).is("used", std::vector<long>{(long)S::pos}).b("twin", true);
        }
    });
}
int main(int argc, char** argv) {
    type<std::uint8_t>("u8"); type<std::int8_t>("i8"); type<std::uint16_t>("u16"); type<std::int16_t>("i16"); type<std::uint32_t>("u32"); type<std::int32_t>("i32"); type<std::uint64_t>("u64"); type<std::int64_t>("i64");
    reals<float>("float"); reals<double>("double"); reals<long double>("long double");
    return run(argc, argv);
}
#endif
