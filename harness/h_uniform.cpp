// Decision trees and single draws of the uniform integer distributions.
#ifdef MULTI
#include <boost/multiprecision/cpp_int.hpp>
#endif
#include "tree.hpp"
#include <cmath>
#include <boost/random/uniform_int_distribution.hpp>
#include <boost/random/uniform_int.hpp>
#include <boost/random/uniform_smallint.hpp>
#include <boost/random/random_number_generator.hpp>
using namespace tr;

#define PICK(a) typename std::make_unsigned<a>::type
// offsets from a, as the unsigned type of T; an out-of-range value shows as an offset above r
template<class T> u64 off(T v, T a) { typedef typename std::make_unsigned<T>::type U; return (u64)(U)((U)v - (U)a); }

// forms of use: all must be uniform on [a,b] (smallint: approximately, as documented)
template<class T, class Eng> T use(int via, Eng& eng, T a, T b) {
    namespace r = boost::random;
    switch (via) {
    case 0: return r::uniform_int_distribution<T>(a, b)(eng);
    case 1: { typedef r::uniform_int_distribution<T> D; D d; return d(eng, typename D::param_type(a, b)); }
    case 2: { r::uniform_int_distribution<T> d; d.param(typename r::uniform_int_distribution<T>::param_type(a, b)); return d(eng); }
    case 3: return boost::uniform_int<T>(a, b)(eng);
    case 4: { typedef boost::uniform_int<T> D; D d; return d(eng, typename D::param_type(a, b)); }
    case 5: { boost::uniform_int<T> d; return d(eng, (T)(b + 1)); }                       // [0, n)
    case 6: { r::random_number_generator<Eng, T> g(eng); return g((T)(b + 1)); }         // [0, n)
    case 7: return r::uniform_smallint<T>(a, b)(eng);
    case 8: { typedef r::uniform_smallint<T> D; D d; return d(eng, typename D::param_type(a, b)); }
    }
    abort();
}
const int NVIA = 9;

template<class T> struct Nm {};
#define NM(t, s) template<> struct Nm<t> { static const char* n() { return s; } };
NM(std::uint8_t, "u8") NM(std::int8_t, "i8") NM(std::uint16_t, "u16") NM(std::int16_t, "i16") NM(std::uint32_t, "u32") NM(std::int32_t, "i32") NM(std::uint64_t, "u64") NM(std::int64_t, "i64")

template<class T> std::vector<T> starts(u64 r) {
    typedef std::numeric_limits<T> L; typedef typename std::make_unsigned<T>::type U;
    std::vector<T> a; a.push_back(0);
    if (off<T>(L::max(), 0) < r) a.clear();
    a.push_back(L::min());
    a.push_back((T)((U)L::max() - (U)r));
    if (L::is_signed && r >= 1) a.push_back((T)((U)0 - (U)(r / 2 + 1)));
    std::vector<T> ok;
    for (T x : a) { T b = (T)((U)x + (U)r); if (b >= x && off<T>(b, x) == r) ok.push_back(x); }
    return ok;
}
template<class T> u64 umax() { return (u64)std::numeric_limits<typename std::make_unsigned<T>::type>::max(); }

template<class R, class T> void trees() {
    typedef SE<R> E; E eng; Rng rng(seed() * 77 + sizeof(R) * 8 + sizeof(T));
    u64 budget = thorough() ? 60000 : 10000;
    std::vector<u64> Bs = {2, 3, 4, 5, 6, 7, 8, 10, 13, 16, 17, 30, 64, 100, 255, 256};
    std::vector<u64> Rs = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 14, 15, 16, 17, 23, 24, 25, 26, 31, 34, 35, 47, 48, 63, 64, 79, 80, 81, 99, 100, 124, 127, 128, 170, 200, 215, 216, 253, 254, 255};
    if (thorough()) for (u64 i = 0; i < 256; ++i) Rs.push_back(i);
    if (sizeof(T) > 1) { Rs.push_back(256); Rs.push_back(624); Rs.push_back(1023); Rs.push_back(1024); }
    if (sizeof(T) == 2) { Rs.push_back(65535); Rs.push_back(65534); }
    if (sizeof(R) == 2 && (thorough() || std::is_signed<T>::value == std::is_signed<R>::value)) Bs.push_back(65536);
    int turn = 0;
    for (u64 B : Bs) for (u64 r : Rs) {
        if (B - 1 > umax<R>() || r > umax<T>()) continue;
        if (!thorough() && B < 255 && B != 2 && (B + r + sizeof(R) + 3 * sizeof(T) + 5 * std::is_signed<R>::value + 7 * std::is_signed<T>::value) % 8) continue;
        std::vector<R> ls; ls.push_back(0); ls.push_back(std::numeric_limits<R>::min()); ls.push_back((R)(std::numeric_limits<R>::max() - (R)0 - (R)(typename std::make_unsigned<R>::type)(B - 1)));
        std::vector<T> as = starts<T>(r);
        size_t depth = depth_for(B, B == 65536 ? 65536 : budget);
        if (depth == 0) continue;
        // every (B, r) with uniform_int_distribution, in turn with another form; quick: one start each
        for (int q = 0; q < 2; ++q) {
            ++turn;
            T a = as[turn % as.size()]; R l = ls[(turn / 3) % ls.size()];
            int via = q == 0 ? 0 : 1 + turn % (NVIA - 1);
            if (std::is_signed<R>::value && B - 1 > off<R>(std::numeric_limits<R>::max(), 0)) l = std::numeric_limits<R>::min();
            typedef typename std::make_unsigned<R>::type UR;
            if (off<R>((R)((UR)l + (UR)(B - 1)), l) != B - 1 || (R)((UR)l + (UR)(B - 1)) < l) l = std::numeric_limits<R>::min();
            if (via == 5 || via == 6) { a = 0; if (r >= off<T>(std::numeric_limits<T>::max(), 0)) continue; }
            T b = (T)((typename std::make_unsigned<T>::type)a + (typename std::make_unsigned<T>::type)r);
            E::bounds(l, B - 1);
            Tree t;
            // a value outside [a,b] in T is an offset above r, except for wrap-around which off() undoes; so compare too
            t.explore<E>(B, depth, [&] { T v = use<T>(via, eng, a, b); return (v < a || v > b) ? ~0ull : off<T>(v, a); });
            Ev e("tree"); e.str("fam", via >= 7 ? "small" : "uniform").i("via", via).i("b", (long)B).w("r", r).i("depth", (long)depth); t.emit(e);
        }
    }
}
// single draws with prescribed engine values, where the tree is too big
template<class Eng, class T> void draw1(Eng& eng, int via, u64 br, T a, u64 r, const std::vector<u64>& us) {
    T b = (T)((typename std::make_unsigned<T>::type)a + (typename std::make_unsigned<T>::type)r);
    Eng::script(us.data(), us.size());
    bool done = true; T v = 0;
    try { v = use<T>(via, eng, a, b); } catch (Exhausted&) { done = false; }
    Ev e("one"); e.str("fam", via >= 7 ? "small" : "uniform").w("br", br).w("r", r).ws("us", std::vector<u64>(us.begin(), us.begin() + Eng::pos)).b("done", done).i("used", (long)Eng::pos).b("in", !done || (a <= v && v <= b)).w("v", done ? off<T>(v, a) : 0);
}
template<class R, class T> void ones() {
    typedef SE<R> E; E eng; Rng rng(seed() * 177 + sizeof(R) * 8 + sizeof(T) + 31 * std::is_signed<R>::value + 57 * std::is_signed<T>::value);
    std::vector<u64> brs, rs; u64 mR = umax<R>(), mT = umax<T>();
    for (u64 x : {(u64)1, (u64)2, (u64)9, (u64)255, (u64)999, (u64)65535, (u64)0x7ffffffd, (u64)0x7ffffffe, (u64)0xffffffff, (u64)0xfffffffe, (u64)0x1fffffffffffffff, mR - 1, mR, mR / 2, mR / 2 + 1, mR / 3, mR / 3 + 1}) if (x >= 1 && x <= mR) brs.push_back(x);
    for (u64 x : {(u64)0, (u64)1, (u64)2, (u64)9, (u64)99, (u64)254, (u64)255, (u64)256, (u64)65535, (u64)999999, (u64)0x7ffffffe, (u64)0x7fffffff, (u64)0xffffffff, (u64)0xfffffffe, (u64)0x100000000, (u64)0xde0b6b3a7640000, mT, mT - 1, mT / 2, mT / 2 + 1, mT / 3, mT / 3 + 1, mT - mT / 3}) if (x <= mT) rs.push_back(x);
    for (u64 x : brs) { for (u64 y : {x - 1, x, x + 1, x * 2, x * 2 + 1, (x + 1) / 2, x / 2, (x + 1) * (x + 1) - 1, (x + 1) * (x + 1)}) if (y <= mT) rs.push_back(y); }
    int k = thorough() ? 40 : 6;
    size_t n = 0;
    for (u64 br : brs) for (u64 r : rs) {
        if (!thorough() && rng.below(12) && !(br >= mR - 1 && r >= mT - 1)) continue;
        std::vector<T> as = starts<T>(r);
        R l = std::numeric_limits<R>::min(); if ((br & 1) && (u64)off<R>(std::numeric_limits<R>::max(), 0) >= br) l = 0;
        E::bounds(l, br);
        for (int i = 0; i < k; ++i) {
            std::vector<u64> us;
            for (int j = 0; j < 80; ++j) {
                u64 x; u64 z = rng.below(8);
                if (z == 0 || i == 0) x = 0; else if (z == 1 || i == 1) x = br; else if (z == 2 && br) x = br - rng.below(br < 5 ? br : 5); else x = br == ~0ull ? rng.next() : rng.below(br + 1);
                // around bucket borders
                if (i >= 2 && i <= 3 && r < br) { u64 s = (u64)(((u128)br + 1) / ((u128)r + 1)); u128 q = (u128)s * (rng.below(2) ? (u128)r + 1 : 1 + rng.below(r + 1)); x = q > br ? br : (u64)q; if (rng.below(2) && x) --x; }
                us.push_back(x);
            }
            int via = (i & 1) ? (int)rng.below(5) : 0;
            draw1(eng, via, br, as[rng.below(as.size())], r, us);
            if (i < 2) draw1(eng, 7 + i, br, as[rng.below(as.size())], r, us);
        }
    }
}
template<class T> void reals() {
    Rng rng(seed() * 277 + sizeof(T)); u64 mT = umax<T>();
    std::vector<u64> rs;
    for (u64 x : {(u64)0, (u64)1, (u64)2, (u64)9, (u64)99, (u64)254, (u64)255, (u64)65535, (u64)999999, (u64)0x7fffffff, (u64)0xffffff, (u64)0xfffffe, (u64)0x1000000, (u64)0xffffffff, (u64)0xfffffffe, (u64)0x100000000, (u64)0x1fffffffffffff, (u64)0x1ffffffffffffe, mT, mT - 1, mT / 3}) if (x <= mT) rs.push_back(x);
    for (u64 r : rs) for (int i = 0; i < (thorough() ? 60 : 12); ++i) {
        std::vector<T> as = starts<T>(r); T a = as[rng.below(as.size())];
        for (int f = 0; f < 2; ++f) {
            int bits = f ? 53 : 24; u64 br = (1ull << bits) - 1; std::vector<u64> us;
            for (int j = 0; j < 60; ++j) { u64 z = rng.below(6); us.push_back(z == 0 || i == 0 ? 0 : z == 1 || i == 1 ? br : rng.below(br + 1)); }
            int via = (i % 3 == 2 && br >= r) ? 7 : (i % 5);
            if (f) { typedef SR<double> E; E::bits = 53; E e; draw1(e, via, br, a, r, us); }
            else { typedef SR<float> E; E::bits = 24; E e; draw1(e, via, br, a, r, us); }
        }
    }
}
template<class R, class T> void both() {
    std::string n = std::string(Nm<R>::n()) + "_" + Nm<T>::n();
    section("tree/" + n, [] { trees<R, T>(); }, 600);
    section("one/" + n, [] { ones<R, T>(); }, 300);
}
template<class T> void all() {
    both<std::uint8_t, T>(); both<std::int8_t, T>(); both<std::uint16_t, T>(); both<std::int16_t, T>();
    both<std::uint32_t, T>(); both<std::int32_t, T>(); both<std::uint64_t, T>(); both<std::int64_t, T>();
    section(std::string("real/") + Nm<T>::n(), [] { reals<T>(); }, 300);
}
#ifdef MULTI
// integers that are not built in, as results and as values of the engine
namespace mp = boost::multiprecision;
template<class T> struct Big { static T at(int i) { return i == 0 ? T(0) : i == 1 ? T(T(1) << 100) - 3 : i == 2 ? T(T(12345) << 64) : T(T(1) << 126); } };
template<> struct Big<mp::cpp_int> { static mp::cpp_int at(int i) { return i == 0 ? mp::cpp_int(-3) : i == 1 ? -(mp::cpp_int(1) << 300) : i == 2 ? mp::cpp_int(-200000) : mp::cpp_int(1) << 129; } };
template<> struct Big<__int128> { static __int128 at(int i) { return i == 0 ? (__int128)-3 : i == 1 ? std::numeric_limits<__int128>::min() : i == 2 ? -((__int128)1 << 100) : (__int128)1 << 126; } };
template<> struct Big<std::int32_t> { static std::int32_t at(int i) { return i == 0 ? -3 : i == 1 ? std::numeric_limits<std::int32_t>::min() : i == 2 ? -500 : std::numeric_limits<std::int32_t>::max() - 1023; } };
template<> struct Big<std::uint64_t> { static std::uint64_t at(int i) { return i == 0 ? 0 : i == 1 ? ~0ull - 1023 : i == 2 ? 1ull << 63 : 77; } };
template<class R, class T> void bigtrees(R base) {
    struct E {
        typedef R result_type; static R& lo() { static R x; return x; } static R& hi() { static R x; return x; }
        static R min() { return lo(); } static R max() { return hi(); }
        R operator()() { if (SE<u64>::pos == SE<u64>::n) throw Exhausted(); return R(lo() + R(SE<u64>::d[SE<u64>::pos++])); }
    };
    typedef SE<u64> S; E eng; Rng rng(seed() * 707 + sizeof(R) + 3 * sizeof(T)); int turn = rng.below(12);
    for (u64 B : {2, 3, 5, 7, 10, 16, 30, 64, 255, 256}) for (u64 r : {0, 1, 2, 3, 4, 5, 6, 9, 15, 16, 24, 26, 63, 80, 99, 127, 215, 254, 255, 256, 624, 1023}) {
        ++turn; if (!thorough() && turn % 4 && B < 255) continue;
        if (B == 256 && sizeof(R) == 1 && base != R(0)) continue;
        size_t depth = depth_for(B, thorough() ? 60000 : 8000); if (!depth) continue;
        T a = Big<T>::at(turn % 4), b = a + T(r); int via = turn % 3;   // uniform_smallint is for built-in integers only
        E::lo() = base; E::hi() = base + R(B - 1);
        Tree t;
        auto draw = [&]() -> u64 {
            namespace d = boost::random; T v = 0;
            switch (via) {
            case 0: v = d::uniform_int_distribution<T>(a, b)(eng); break;
            case 1: { typedef d::uniform_int_distribution<T> D; D x; v = x(eng, typename D::param_type(a, b)); break; }
            case 2: { d::uniform_int_distribution<T> x; x.param(typename d::uniform_int_distribution<T>::param_type(a, b)); v = x(eng); break; }
            }
            return v < a || v > b ? ~0ull : (u64)static_cast<u64>(T(v - a));
        };
        t.explore<S>(B, depth, draw);
        Ev e("tree"); e.str("fam", "uniform").i("via", via).i("b", (long)B).w("r", r).i("depth", (long)depth); t.emit(e);
    }
}
// the engine's values and the results may need more than 64 bits
inline u128 wide(Rng& g) { return (u128)g.next() << 64 | g.next(); }
template<class T> T big(u128 x) { T t((u64)(x >> 64)); t *= T(0x100000000ull); t *= T(0x100000000ull); t += T((u64)x); return t; }
template<class T> u128 small(const T& v) { T h = v / T(0x100000000ull); h /= T(0x100000000ull); T l = v - big<T>((u128)static_cast<u64>(h) << 64); return (u128)static_cast<u64>(h) << 64 | static_cast<u64>(l); }
template<class R> R engine_value(u128 x) { return (R)(u64)x; }
template<> mp::uint128_t engine_value<mp::uint128_t>(u128 x) { return big<mp::uint128_t>(x); }
template<> mp::cpp_int engine_value<mp::cpp_int>(u128 x) { return big<mp::cpp_int>(x); }
template<class R, class T> void bigones() {
    struct E {
        typedef R result_type; static u128& br() { static u128 x; return x; } static std::vector<u128>& us() { static std::vector<u128> v; return v; } static size_t& pos() { static size_t p; return p; }
        static R min() { return R(0); } static R max() { return engine_value<R>(br()); }
        R operator()() { if (pos() == us().size()) throw Exhausted(); return engine_value<R>(us()[pos()++]); }
    };
    E eng; Rng rng(seed() * 807 + sizeof(R) + 3 * sizeof(T));
    const u128 all = ~(u128)0, k = 1; u128 mR = sizeof(R) == 4 ? 0xffffffffull : sizeof(R) == 8 ? ~0ull : all, mT = std::numeric_limits<T>::is_signed && std::numeric_limits<T>::is_bounded ? all >> 1 : all;
    std::vector<u128> brs; for (u128 x : {k, 9 * k, 255 * k, (u128)65535, (u128)0x7ffffffd, (u128)0xfffffffe, (u128)0xffffffff, (u128)0x100000000, (u128)0x1fffffffffffffff, (u128)~(u64)1, (u128)~(u64)0, k << 64, (k << 100) - 1, (k << 100) + 12345, all - 1, all}) if (x <= mR) brs.push_back(x);
    for (u128 br : brs) for (u128 r : {k, 99 * k, 255 * k, (u128)999999, (u128)0xfffffffe, (u128)0xffffffff, (u128)0x8ac7230489e7ffff, (u128)~(u64)0, k << 64, (k << 64) + 1, (k << 96) - 1, (k << 80) + 77, all / 3, all / 2, all / 2 + 1, all - all / 3, all - 1, all, br - 1, br, br + 1, (br + 1) * (br + 1) - 1, (br + 1) * (br + 1)}) {
        if (r > mT || (!thorough() && rng.below(4))) continue;
        for (int i = 0; i < (thorough() ? 8 : 2); ++i) {
            std::vector<u128> us; size_t n = br < 256 ? 200 : 60;
            for (size_t j = 0; j < n; ++j) { u64 z = rng.below(8); u128 w = wide(rng); us.push_back(z == 0 ? 0 : z == 1 ? br : z == 2 ? br - rng.below(br < 5 ? (u64)br : 5) : br == all ? w : w % (br + 1)); }
            T a = Big<T>::at(rng.below(4)), top = std::numeric_limits<T>::max(); if (std::numeric_limits<T>::is_bounded && top - big<T>(r) < a) a = 0;
            T b = a + big<T>(r), v = 0;
            E::br() = br; E::us() = us; E::pos() = 0; bool done = true; int via = rng.below(3);
            try {
                if (via == 0) v = boost::random::uniform_int_distribution<T>(a, b)(eng);
                else if (via == 1) { typedef boost::random::uniform_int_distribution<T> D; D x; v = x(eng, typename D::param_type(a, b)); }
                else v = boost::uniform_int<T>(a, b)(eng);
            } catch (Exhausted&) { done = false; }
            bool in = !done || (a <= v && v <= b); T o = T(v - a);
            Ev e("one"); e.str("fam", "big").w("br", br).w("r", r).ws("us", std::vector<u128>(us.begin(), us.begin() + E::pos())).b("done", done).i("used", (long)E::pos()).b("in", in).w("v", done && in ? small<T>(o) : 0);
        }
    }
}
template<class T> void bigs(const char* n) {
    std::string s = std::string("big/") + n;
    if (sizeof(T) > 8) {
        section(s + "/one/u32", [] { bigones<std::uint32_t, T>(); }, 300);
        section(s + "/one/u64", [] { bigones<std::uint64_t, T>(); }, 300);
        section(s + "/one/uint128_t", [] { bigones<mp::uint128_t, T>(); }, 300);
        section(s + "/one/cpp_int", [] { bigones<mp::cpp_int, T>(); }, 300);
    }
    section(s + "/u8", [] { bigtrees<std::uint8_t, T>(0); }, 300);
    section(s + "/i16", [] { bigtrees<std::int16_t, T>(-300); }, 300);
    section(s + "/u32", [] { bigtrees<std::uint32_t, T>(1000000); }, 300);
    section(s + "/u64", [] { bigtrees<std::uint64_t, T>(~0ull - 255); }, 300);
    section(s + "/uint128_t", [] { bigtrees<mp::uint128_t, T>(mp::uint128_t(1) << 100); }, 300);
    section(s + "/cpp_int", [] { bigtrees<mp::cpp_int, T>(mp::cpp_int(-7)); }, 300);
}
int main(int argc, char** argv) {
    bigs<mp::uint128_t>("uint128_t"); bigs<mp::uint1024_t>("uint1024_t"); bigs<mp::cpp_int>("cpp_int"); bigs<__int128>("int128"); bigs<unsigned __int128>("uint128");
    bigs<std::int32_t>("i32"); bigs<std::uint64_t>("u64");
    return run(argc, argv);
}
#else
int main(int argc, char** argv) {
    all<TYPE>();
    return run(argc, argv);
}
#endif
