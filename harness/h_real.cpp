// The real-valued uniform distributions on ordered lists of engine values, extremes included.
#include "tree.hpp"
#include <algorithm>
#include <set>
#include <cfloat>
#include <boost/random/uniform_01.hpp>
#include <boost/random/uniform_real_distribution.hpp>
#include <boost/random/uniform_real.hpp>
#include <boost/random/generate_canonical.hpp>
using namespace tr;
namespace r = boost::random;

// an integer key in the order of the real numbers (-0 and +0 get one key); NaN gets the greatest key
inline u64 key(double d) {
    if (d != d) return ~0ull;
    if (d == 0) d = 0;
    u64 b; memcpy(&b, &d, 8);
    return (b >> 63) ? ~b : b | 0x8000000000000000ull;
}
// where v lies between lo and hi, in 2^24ths
inline long frac(long double v, long double lo, long double hi) { long double q = (v - lo) / (hi - lo) * 16777216.0L; return q < -9 ? -9 : q > 16777300.0L ? 16777300 : (long)floorl(q); }

// engine values in increasing order: extremes, powers of two, neighbours of what rounds, a random sample
std::vector<u64> points(u64 top, int digits, Rng& rng) {
    std::set<u64> s; auto add = [&](u128 x) { if (x <= top) s.insert((u64)x); };
    for (int i = 0; i < 4; ++i) { add(i); add((u128)top - i); add(top / 2 + i); add(top / 2 - i); add(top / 3 + i); }
    for (int i = 2; i < 64; ++i) { add((u128)1 << i); add(((u128)1 << i) - 1); if (((u128)1 << i) <= top) { add((u128)top - ((u64)1 << i)); add((u128)top - ((u64)1 << i) + 1); add((u128)top - ((u64)1 << i) - 1); } }
    for (int i = 0; i < (thorough() ? 300 : 24); ++i) { u64 x = rng.next(); add(top == ~0ull ? x : x % (top + 1)); u64 near = top >> (digits - 2 < 63 ? digits - 2 : 63); add((u128)top - (near ? rng.below(near) : 0)); }
    if (!thorough()) {     // a sample that keeps both ends
        std::vector<u64> all(s.begin(), s.end()); s.clear();
        for (size_t i = 0; i < all.size(); ++i) if (i < 6 || i + 12 > all.size() || rng.below(all.size()) < 50) s.insert(all[i]);
    }
    return std::vector<u64>(s.begin(), s.end());
}

template<class Eng, class T, class F> void rec(const char* fam, Eng&, u64 top, const std::vector<u64>& pts, int k, u64 low, T lo, T hi, bool linear, int slack, bool wide, F draw) {
    std::vector<u64> v; std::vector<int> used; std::vector<long> fr, ub;
    for (u64 u : pts) {
        std::vector<u64> us(k - 1, low); us.push_back(u); for (int i = 0; i < k; ++i) us.push_back(0);
        Eng::script(us.data(), us.size());
        T x = 0; try { x = draw(); } catch (Exhausted&) { x = NAN; }
        v.push_back(key((double)x)); used.push_back((int)Eng::pos);
        fr.push_back(linear ? frac(x, lo, hi) : 0);
        // u / (top + 1) in 2^24ths
        ub.push_back((long)(((u128)u << 24) / ((u128)top + 1)));
    }
    Ev("real").str("fam", fam).w("top", top).i("k", k).b("low0", low == 0).ws("us", pts).ws("v", v).is("used", used).w("lo", key((double)lo)).w("hi", key((double)hi)).b("lin", linear).is("fr", fr).is("ub", ub).i("slack", slack).b("wide", wide);
}
template<class T> std::vector<std::pair<T, T>> ranges(Rng& rng) {
    typedef std::numeric_limits<T> L; T mx = L::max(), dn = L::denorm_min(), mn = L::min(), e = L::epsilon();
    std::vector<std::pair<T, T>> v = {{0, 1}, {-1, 1}, {1, 1 + e}, {1 - e / 2, 1}, {-1, -1 + e / 2}, {0, dn}, {-dn, dn}, {0, mn}, {-mx, mx}, {0, mx}, {-mx, 0}, {mx / 2, mx}, {-mx, -mx / 2}, {mx * (1 - e), mx}, {-mx / 2, mx}, {-mx, mx / 3}, {1, 2}, {2, 3}, {-3, 7}, {1000000, 1000001}, {(T)0.1, (T)0.3}, {-5, (T)-4.9}, {(T)1e-20, (T)1e20}, {16777216, 16777218}, {3, 3 + 4 * e}, {-dn, 1}, {-1, dn}, {1, mx}};
    for (int i = 0; i < (thorough() ? 200 : 12); ++i) {
        T a = std::ldexp((T)(rng.next() >> 11) / (T)9007199254740992.0 - (T)0.5, (int)rng.below(60) - 30), b = std::ldexp((T)(rng.next() >> 11) / (T)9007199254740992.0 - (T)0.5, (int)rng.below(60) - 30);
        if (a == b) continue; if (a > b) std::swap(a, b); v.push_back({a, b});
    }
    if (!thorough()) { std::vector<std::pair<T, T>> w; for (auto& p : v) if (rng.below(3) == 0) w.push_back(p); v = w; }
    return v;
}
template<class T> int slackof(T lo, T hi, u64 top, bool unit) {
    // rounding of the result: an ulp of the larger bound, in 2^24ths of the width; -1: too coarse to say anything
    long double w = (long double)hi - (long double)lo; long double ulp = std::max(std::abs((long double)lo), std::abs((long double)hi)) * std::numeric_limits<T>::epsilon() + std::numeric_limits<T>::denorm_min();
    long double s = ulp / w * 16777216.0L * 4 + 3; return s > 1e6L ? -1 : (int)s;
}
template<class Eng, class T> void all(Eng& e, u64 top, bool real_engine) {
    Rng rng(seed() * 13 + sizeof(T)); std::vector<u64> pts = points(top, std::numeric_limits<T>::digits, rng); bool wide = true;
    { r::uniform_01<T> d; rec(real_engine ? "01r" : "01", e, top, pts, 1, 0, (T)0, (T)1, true, slackof<T>(0, 1, top, true), wide, [&] { return d(e); }); }
    { rec(real_engine ? "01r" : "01", e, top, pts, 1, 0, (T)0, (T)1, true, slackof<T>(0, 1, top, true), wide, [&] { r::uniform_01<Eng&, T> a(e); return a(); }); }
    { r::uniform_01<Eng, T> a(e); rec(real_engine ? "01r" : "01", e, top, pts, 1, 0, (T)0, (T)1, true, slackof<T>(0, 1, top, true), wide, [&] { return a(); }); }
    int n = 0;
    for (auto& p : ranges<T>(rng)) {
        T a = p.first, b = p.second; int s = slackof(a, b, top, false); ++n;
        switch (n % 4) {
        case 0: { r::uniform_real_distribution<T> d(a, b); rec("real", e, top, pts, 1, 0, a, b, s >= 0, s, wide, [&] { return d(e); }); break; }
        case 1: { typedef r::uniform_real_distribution<T> D; D d; typename D::param_type q(a, b); rec("real", e, top, pts, 1, 0, a, b, s >= 0, s, wide, [&] { return d(e, q); }); break; }
        case 2: { boost::uniform_real<T> d(a, b); rec("real", e, top, pts, 1, 0, a, b, s >= 0, s, wide, [&] { return d(e); }); break; }
        case 3: { typedef r::uniform_real_distribution<T> D; D d; d.param(typename D::param_type(a, b)); rec("real", e, top, pts, 1, 0, a, b, s >= 0, s, wide, [&] { return d(e); }); break; }
        }
    }
}
// how many engine values generate_canonical<T, bits> needs, as the standard says
inline int need(long double R, int bits, int digits) { int b = std::min(bits, digits); int k = 1; long double m = R, lim = ldexpl(1, b); while (m < lim) { m *= R; ++k; } return k; }
template<class Eng, class T, int bits> void canon(Eng& e, u64 top, bool real_engine) {
    Rng rng(seed() * 17 + bits); std::vector<u64> pts = points(top, std::numeric_limits<T>::digits, rng);
    int k = need((long double)top + 1, bits, std::numeric_limits<T>::digits);
    if (k > 64) return;
    // the low digits vary the value by less than one step of the last digit
    for (u64 low : {(u64)0, top, top / 2})
        rec(real_engine ? "canonr" : "canon", e, top, pts, k, low, (T)0, (T)1, true, slackof<T>(0, 1, top, true), true, [&] { return r::generate_canonical<T, bits>(e); });
}
template<class Eng, class T> void canons(Eng& e, u64 top, bool re) { canon<Eng, T, 1>(e, top, re); canon<Eng, T, 8>(e, top, re); canon<Eng, T, 24>(e, top, re); canon<Eng, T, 32>(e, top, re); canon<Eng, T, 53>(e, top, re); canon<Eng, T, 64>(e, top, re); }
// small engines: generate_canonical is a bijection onto the multiples of b^-k
template<class T, int bits> void ctree(u64 B) {
    typedef SE<std::uint32_t> E; E e; E::bounds(5, B - 1); int k = need(B, bits, std::numeric_limits<T>::digits); long double R = powl(B, k);
    if (R > (thorough() ? 70000 : 5000)) return;
    Tree t; t.explore<E>(B, k, [&] { long double v = r::generate_canonical<T, bits>(e); return v < 0 || v >= 1 ? ~0ull : (u64)floorl(v * R + 0.5L); });
    Ev ev("tree"); ev.str("fam", "uniform").i("b", (long)B).w("r", (u64)R - 1).i("depth", k); t.emit(ev);
}
template<class R> void intengine(const char* nm) {
    typedef typename std::make_unsigned<R>::type U; u64 um = (u64)std::numeric_limits<U>::max();
    std::vector<std::pair<R, u64>> bs = {{std::numeric_limits<R>::min(), um}, {0, (u64)std::numeric_limits<R>::max()}, {1, 9}, {0, 1}, {std::numeric_limits<R>::min(), um - 1}, {std::numeric_limits<R>::min(), um / 3}, {1, (u64)std::numeric_limits<R>::max() - 2}};
    if (sizeof(R) >= 4) { bs.push_back({1, 0x7ffffffd}); bs.push_back({0, 999999}); bs.push_back({0, 0x3ffffff}); }
    if (sizeof(R) >= 8) { bs.push_back({0, 0xffffffffffffull}); bs.push_back({0, 0x1fffffffffffffull}); bs.push_back({0, 0x3fffffffffffffull}); bs.push_back({-1, 0xffffffffull}); }
    for (size_t i = 0; i < bs.size(); ++i) {
        R lo = bs[i].first; u64 top = bs[i].second;
        if ((R)((U)lo + (U)top) < lo) continue;
        std::string n = std::string(nm) + "/" + std::to_string(i);
        section("uni/" + n, [=] { typedef SE<R> E; E e; E::bounds(lo, top); all<E, double>(e, top, false); all<E, float>(e, top, false); });
        section("canon/" + n, [=] { typedef SE<R> E; E e; E::bounds(lo, top); canons<E, double>(e, top, false); canons<E, float>(e, top, false); });
    }
}
template<class F> void realengine(const char* nm) {
    int bits = std::numeric_limits<F>::digits;
    section(std::string("uni/") + nm, [=] { typedef SR<F> E; E e; E::bits = bits; u64 top = (1ull << bits) - 1; all<E, double>(e, top, true); all<E, float>(e, top, true); });
    section(std::string("canon/") + nm, [=] { typedef SR<F> E; E e; E::bits = bits; u64 top = (1ull << bits) - 1; canons<E, double>(e, top, true); canons<E, float>(e, top, true); });
}
int main(int argc, char** argv) {
    intengine<std::uint8_t>("u8"); intengine<std::int16_t>("i16"); intengine<std::uint32_t>("u32"); intengine<std::int32_t>("i32"); intengine<std::uint64_t>("u64"); intengine<std::int64_t>("i64");
    realengine<float>("float"); realengine<double>("double");
    section("ctree", [] { for (u64 B : {2, 3, 4, 5, 7, 10, 16, 17, 64, 256, 1000}) { ctree<double, 1>(B); ctree<double, 3>(B); ctree<double, 6>(B); ctree<double, 9>(B); ctree<double, 12>(B); ctree<float, 6>(B); ctree<float, 11>(B); } });
    return run(argc, argv);
}
