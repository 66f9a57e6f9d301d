// What the quasi-random engines deliver: columns of the base-2 engines, blocks, Faure vectors.
#include "trace.hpp"
#include <boost/random/sobol.hpp>
#include <boost/random/niederreiter_base2.hpp>
#include <boost/random/faure.hpp>
#include <cmath>
#include <algorithm>
using namespace tr;
struct Mix { u64 s; u64 operator()() { s += 0x9e3779b97f4a7c15ULL; u64 z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); } };
// columns [dim][r], read off the vectors number 2^r - 1
template<class E> static std::vector<std::vector<u64>> columns(unsigned D, unsigned w) {
    typedef typename E::result_type T; E e(D);
    std::vector<std::vector<u64>> c(D, std::vector<u64>(w));
    for (unsigned r = 0; r < w; ++r) { e.seed((T)((u64(1) << r) - 1)); for (unsigned d = 0; d < D; ++d) { u64 v = e(); c[d][r] = r ? v ^ c[d][r - 1] : v; } }
    return c;
}
template<class E> static void cols(const char* fam, unsigned D, unsigned w, unsigned from, unsigned to, unsigned first = 0) {
    auto c = columns<E>(D, w); bool wide = w > 30;
    for (unsigned a = std::max(from, first); a < to; a += 20) {
        std::string s = "["; unsigned b = std::min(to, a + 20);
        for (unsigned d = a; d < b; ++d) { if (d > a) s += ','; s += '['; for (unsigned r = 0; r < w; ++r) { if (r) s += ','; if (wide) limbs(s, c[d][r]); else s += std::to_string(c[d][r]); } s += ']'; }
        Ev x(wide ? "wide" : "cols"); x.str("fam", fam).i("w", w).i("from", a).raw("dims", s + "]");
    }
}
template<class E> static void full(const char* fam, unsigned D, unsigned w, unsigned from, unsigned to) {
    std::vector<std::vector<unsigned>> v(D); E e(D);
    for (unsigned n = 0; n + 1 < (1u << w); ++n) for (unsigned d = 0; d < D; ++d) v[d].push_back((unsigned)e());
    for (unsigned d = from; d < to; ++d) { Ev x("full"); x.str("fam", fam).i("w", w).i("d", d).is("vals", v[d]); }
}
// position the engine at vector n by different ways
template<class E, class N> static void go(E& e, N n, unsigned way, unsigned D) {
    switch (way % 4) {
    case 0: e.seed(n); break;
    case 1: { N m = n < 7 ? n : n - 7; e.seed(m); for (N k = m; k != n; ++k) for (unsigned d = 0; d < D; ++d) e(); break; }
    case 2: { N m = n / 3 * 2; e.seed(m); u64 z = (u64)(n - m); if (D > 1) e(); while (z > ~u64(0) / D / 2) { e.discard((~u64(0) / D / 2) * D); z -= ~u64(0) / D / 2; } if (z * D) e.discard(z * D - (D > 1 ? 1 : 0)); else if (D > 1) e.seed(n); break; }
    default: { e.seed(n); std::ostringstream os; os << e; for (int i = 0; i < 5; ++i) e(); E f(D > 1 ? D - 1 : 2); std::istringstream is(os.str()); is >> f; e = f; break; }
    }
}
template<class E> static void blocks(const char* fam, unsigned D, unsigned w, Mix& g, int count, unsigned (*step)(unsigned)) {
    typedef typename E::result_type T;
    for (int c = 0; c < count; ++c) {
        unsigned d = g() % D, st = step(d), k = st * (1 + g() % 6); if (k > 8) k = st; if (k > 8) continue;
        u64 B = 1 + g() % ((w - k >= 63 ? ~u64(0) >> 1 : (u64(1) << (w - k))) - 1); if (g() % 3 == 0) B >>= g() % (w - k); if (!B) B = 1;
        E e(D); go(e, (T)((B << k) - 1), c, D);
        std::vector<unsigned> v; for (unsigned i = 0; i < (1u << k); ++i) for (unsigned j = 0; j < D; ++j) { T x = e(); if (j == d) v.push_back((unsigned)((u64)x >> (w - k))); }
        Ev x("block"); x.str("fam", fam).i("w", w).i("d", d).i("k", k).i("way", c % 4).w("B", B).is("vals", v);
    }
}
static unsigned base(unsigned d) { for (unsigned q = d < 2 ? 2 : d;; ++q) { bool p = true; for (unsigned k = 2; k * k <= q; ++k) if (q % k == 0) p = false; if (p) return q; } }
int main(int argc, char** argv) {
    using namespace boost::random; typedef std::uint16_t u16; typedef std::uint32_t u32;
    bool th = thorough(); unsigned S = 1 + seed() % 7;
    const unsigned MS = 3667, MN = 4720;
    for (unsigned a = 0; a < MS; a += 500) section("sobol30/" + std::to_string(a), [=] { cols<sobol_engine<u32, 30> >("sobol", MS, 30, a, std::min(a + 500, MS)); });
    for (unsigned a = 0; a < MN; a += 300) section("nied30/" + std::to_string(a), [=] { cols<niederreiter_base2_engine<u32, 30> >("nied", MN, 30, a, std::min(a + 300, MN)); });
    for (unsigned a = 0; a < MS; a += 460) section("sobol64/" + std::to_string(a), [=] { unsigned n = th ? 460 : a ? 40 : 80, f = th || !a ? a : a + S * 60; cols<sobol>("sobol", std::min(MS, f + n), 64, f, std::min(MS, f + n)); });
    for (unsigned a = 0; a < MN; a += th ? 240 : 590) section("nied64/" + std::to_string(a), [=] { unsigned n = th ? 240 : a ? 20 : 60, f = th || !a ? a : a + S * 60; cols<niederreiter_base2>("nied", std::min(MN, f + n), 64, f, std::min(MN, f + n)); });
    section("widths", [=] {
        cols<sobol_engine<u32, 5> >("sobol", 200, 5, 0, 200); cols<niederreiter_base2_engine<u32, 5> >("nied", 200, 5, 0, 200);
        cols<sobol_engine<u16, 16> >("sobol", 300, 16, 0, 300); cols<niederreiter_base2_engine<u16, 16> >("nied", 300, 16, 0, 300);
        cols<sobol_engine<u64, 13> >("sobol", 100, 13, 0, 100); cols<niederreiter_base2_engine<u64, 13> >("nied", 100, 13, 0, 100);
        cols<sobol_engine<u64, 1> >("sobol", 9, 1, 0, 9); cols<niederreiter_base2_engine<u64, 1> >("nied", 9, 1, 0, 9);
    });
    section("widths2", [=] {
        cols<sobol_engine<u32, 32> >("sobol", 40, 32, 0, 40); cols<niederreiter_base2_engine<u32, 32> >("nied", 40, 32, 0, 40);
        cols<sobol_engine<u64, 33> >("sobol", 40, 33, 0, 40); cols<niederreiter_base2_engine<u64, 47> >("nied", 40, 47, 0, 40);
    });
    for (unsigned a = 0; a < 160; a += 40) section("full/" + std::to_string(a), [=] {
        full<sobol_engine<u16, 10> >("sobol", 160, 10, a, a + 40); full<niederreiter_base2_engine<u32, 10> >("nied", 160, 10, a, a + 40); });
    section("full3", [=] { full<sobol_engine<std::uint8_t, 8> >("sobol", 18, 8, 0, 18); full<niederreiter_base2_engine<std::uint8_t, 8> >("nied", 18, 8, 0, 18);
        full<sobol_engine<u32, 3> >("sobol", 30, 3, 0, 30); full<niederreiter_base2_engine<u16, 3> >("nied", 10, 3, 0, 10); });
    static Mix g{seed() * 12345};
    static unsigned (*one)(unsigned) = [](unsigned) -> unsigned { return 1; };
    static unsigned (*nd)(unsigned) = [](unsigned d) -> unsigned { unsigned e = 1, n = 0; for (unsigned c : {2, 1, 2, 3, 6, 9, 18}) { n += c; if (d < n) break; ++e; } return e; };   // number of irreducible polynomials of each degree
    section("blocks", [=] {
        int n = th ? 1500 : 150;
        blocks<sobol>("sobol", 11, 64, g, n, one); blocks<sobol_engine<u32, 32> >("sobol", 30, 32, g, n, one);
        blocks<niederreiter_base2>("nied", 11, 64, g, n, nd); blocks<niederreiter_base2_engine<u32, 32> >("nied", 30, 32, g, n, nd);
    });
    section("fblocks", [=] {
        for (unsigned D : {1u, 2u, 3u, 4u, 5u, 6u, 7u, 11u, 12u, 19u, 30u}) for (unsigned c = 0; c < (th ? 40 : 6); ++c) {
            unsigned q = base(D), k = 1; u64 n = q; while (n * q < 700 && g() % 4) { n *= q; ++k; }
            u64 B = g() % (c % 3 ? 50 : 5000); faure_engine<double, u64> e(D); go(e, (u64)(B * n), c, D);
            std::vector<std::vector<unsigned>> v(D);
            for (u64 i = 0; i < n; ++i) for (unsigned d = 0; d < D; ++d) v[d].push_back((unsigned)std::floor(e() * n + 1e-7));
            for (unsigned d = 0; d < D; ++d) { Ev x("fblock"); x.i("dim", D).i("q", q).i("k", k).i("way", c % 4).i("d", d).w("B", B).is("vals", v[d]); }
        }
    });
    for (unsigned a = 0; a < 8; ++a) section("fvec/" + std::to_string(a), [=] {
        Mix g{seed() * 77 + a};
        for (unsigned D = 1 + a; D <= 1117; D += 8) for (int c = 0; c < (th ? 12 : 2); ++c) {
            unsigned q = base(D); u64 n = g() >> (24 + g() % 40), m = n; unsigned h = 1; long double sc = q; while (m >= q) { m /= q; ++h; sc *= q; }
            if (sc > 3e13L) { n %= q * q; m = n; h = 1; sc = q; while (m >= q) { m /= q; ++h; sc *= q; } }
            faure_engine<double, u64> e(D); go(e, n, c + D, D);
            std::vector<double> x(D); for (auto& y : x) y = e();
            std::vector<unsigned> js{0, D - 1, (unsigned)(g() % D), (unsigned)(g() % D)}; std::string vs = "[", nr = "[";
            for (unsigned i = 0; i < 4; ++i) { long double y = (long double)x[js[i]] * sc, r = std::floor(y + 0.5L); if (i) { vs += ','; nr += ','; }
                if (!(r >= 0 && r <= sc)) { vs += "[1,1,1,1,1]"; } else limbs(vs, (u128)r); nr += std::fabs(y - r) < 0.2L ? "true" : "false"; }
            Ev v("fvec"); v.i("dim", D).i("q", q).i("h", h).w("n", n).is("js", js).raw("vals", vs + "]").raw("near", nr + "]");
        }
    });
    return run(argc, argv);
}
