// Counts how many of N draws fall below given points, for every family and branch (C20).
// The engine is stratified: over one run the leading and trailing bits of the first value of a draw
// and the leading bits of the second take all their combinations equally often (a scrambled net), so
// that draws made from one or two values have far less spread than independent ones.
#include "trace.hpp"
#include <cmath>
#include <limits>
#include <functional>
#include <boost/random.hpp>
#include <boost/random/hyperexponential_distribution.hpp>
#include <boost/random/non_central_chi_squared_distribution.hpp>
#include <boost/random/beta_distribution.hpp>
#include <boost/random/laplace_distribution.hpp>
#include <boost/random/piecewise_constant_distribution.hpp>
#include <boost/random/piecewise_linear_distribution.hpp>
#include <boost/random/uniform_on_sphere.hpp>
using namespace tr;
namespace r = boost::random;
#ifndef PART
#define PART 0
#endif
static inline u64 mix64(u64 z) { z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
static inline u64 bitrev(u64 x) { x = ((x >> 1) & 0x5555555555555555ull) | ((x & 0x5555555555555555ull) << 1); x = ((x >> 2) & 0x3333333333333333ull) | ((x & 0x3333333333333333ull) << 2);
    x = ((x >> 4) & 0x0f0f0f0f0f0f0f0full) | ((x & 0x0f0f0f0f0f0f0f0full) << 4); return __builtin_bswap64(x); }
// values as 64-bit words, v1 and v2 from the net, the others independent
struct Source {
    int nb; u64 key; u64 v[2]; unsigned used; u64 s; u64 scr1[256], scr2[256];
    Source(int n, u64 k) : nb(n), key(k), used(0), s(0) { for (int i = 0; i < 256; ++i) { scr1[i] = mix64(k * 512 + i * 2 + 1); scr2[i] = mix64(k * 512 + i * 2 + 2); } }
    void set(u64 idx) {
        u64 low = idx & 255, top = idx >> 8; int m = nb - 8;
        s = mix64(idx * 0x9E3779B97F4A7C15ull + key); u64 h = mix64(s + 0x1234567);
        // leading m bits from the net, scrambled for each low byte; then random bits; the low byte as it is
        v[0] = ((((top << (64 - m)) ^ (scr1[low] >> (64 - m) << (64 - m))) | (s >> m)) & ~255ull) | low;
        v[1] = (bitrev(top) ^ (scr2[low] >> (64 - m) << (64 - m))) | (h >> m);
        used = 0;
    }
    u64 next() { unsigned k = used++; if (k < 2) return v[k]; s += 0x9E3779B97F4A7C15ull; return mix64(s); }
};
struct E64 { typedef std::uint64_t result_type; Source* s; static constexpr result_type min() { return 0; } static constexpr result_type max() { return ~0ull; } result_type operator()() { return s->next(); } };
// 24 leading bits and the low byte
struct E32 { typedef std::uint32_t result_type; Source* s; static constexpr result_type min() { return 0; } static constexpr result_type max() { return 0xffffffffu; }
    result_type operator()() { u64 x = s->next(); return (result_type)((x >> 40 << 8) | (x & 255)); } };
template<unsigned N, int LO> struct ERange { typedef std::int32_t result_type; Source* s; static constexpr result_type min() { return LO; } static constexpr result_type max() { return (result_type)(LO + (long)N - 1); }
    result_type operator()() { return (result_type)(LO + (long)(((u128)s->next() * N) >> 64)); } };
typedef ERange<2147483646u, 1> E31;
// without the nets, whose pairs of bits are no use to engines that give few bits at a time
template<unsigned N, int LO> struct EFew : ERange<N, LO> { std::int32_t operator()() { if (this->s->used < 2) this->s->used = 2; return ERange<N, LO>::operator()(); } };
typedef EFew<8, 0> E3; typedef EFew<128, -64> E7; typedef EFew<1000, 5> E1000; typedef EFew<2, 0> E1; typedef EFew<16, 3> E4; typedef EFew<256, -1> E8; typedef EFew<65536, 0> E16;
// the same as unsigned char
struct EC { typedef unsigned char result_type; Source* s; static constexpr result_type min() { return 0; } static constexpr result_type max() { return 255; } result_type operator()() { if (s->used < 2) s->used = 2; return (result_type)(s->next() >> 56); } };
struct ED { typedef double result_type; Source* s; static constexpr result_type min() { return 0; } static constexpr result_type max() { return 1; } result_type operator()() { return (s->next() >> 11) * (1.0 / 9007199254740992.0); } };

static std::string ints(const std::vector<long>& v) { std::string s = "["; for (size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + std::to_string(v[i]); return s + "]"; }
static int scale_bits(int nb) { return thorough() ? std::min(nb + 3, 30) : nb; }

// the counts of one family with one parameter set; f(engine) gives the value in standard units.
// The draws come in 32 batches, each on a net of its own; the spread of the batches tells the
// standard deviation of the sum.
template<class E, class F> void measure(const std::string& fam, const std::vector<long>& p, int nb, bool disc, F f) {
    const long LIM = disc ? 65536 : 3000; const int R = 32; const size_t H = 2 * LIM + 2; u64 N = 1ull << nb;
    std::vector<std::vector<unsigned>> hist(R, std::vector<unsigned>(H)); long bad = 0;
    for (int b = 0; b < R; ++b) {
        Source src(nb - 5, (seed() * 7919 + fam.size() * 131 + p.size()) * 64 + b); E e; e.s = &src; unsigned* h = hist[b].data();
        for (u64 i = 0; i < N / R; ++i) {
            src.set(i); double x = f(e);
            if (!(x == x)) { ++bad; continue; }
            // the smallest k with x <= k, or x <= (2k + 1)/128
            double y = std::ceil(disc ? x : x * 64 - 0.5); long k = y >= LIM ? LIM : y <= -LIM ? -LIM : (long)y; ++h[k + LIM];
        }
    }
    for (int b = 0; b < R; ++b) for (size_t k = 1; k < H; ++k) hist[b][k] += hist[b][k - 1];
    std::vector<u64> cum(H); for (size_t k = 0; k < H; ++k) for (int b = 0; b < R; ++b) cum[k] += hist[b][k];
    // points at evenly spaced counts and in both tails
    std::vector<double> at; for (int k = 1; k < 16; ++k) at.push_back(k / 16.0); for (double t = 0.03; t > 4e-6; t /= 6) { at.push_back(t); at.push_back(1 - t); }
    std::vector<char> take(H);
    for (double a : at) { size_t k = std::lower_bound(cum.begin(), cum.end(), (u64)(a * N)) - cum.begin(); if (k < H - 2) take[k] = 1; if (k && (disc || a < 0.01)) take[k - 1] = 1; }
    std::vector<long> js, cs, sd;
    for (size_t k = 1; k < H; ++k) if (take[k]) {
        long v = (long)k - LIM; if (disc && v < 0) continue; js.push_back(disc ? v : 2 * v + 1); cs.push_back(cum[k]);
        double m = (double)cum[k] / R, q = 0; for (int b = 0; b < R; ++b) q += (hist[b][k] - m) * (hist[b][k] - m);
        sd.push_back((long)std::ceil(std::sqrt(q * R / (R - 1))));
    }
    if (disc) bad += cum[LIM - 1];
    Ev("law").str("fam", fam).raw("p", ints(p)).i("nb", nb).b("disc", disc).i("bad", bad).raw("j", ints(js)).raw("c", ints(cs)).raw("sd", ints(sd));
}
template<class E, class F> void law(const std::string& tag, const std::string& fam, std::vector<long> p, int nb, F f, bool disc = false) {
    std::string nm = fam + "/" + tag + "/"; for (long x : p) nm += std::to_string(x) + ",";
    nb = scale_bits(nb);
    section(nm, [=] { measure<E>(fam, p, nb, disc, f); }, 900);
}
// a distribution under several engines: big for the 64-bit one, less for the others
template<class D, class G> void each(const std::string& tag, const std::string& fam, const std::vector<long>& p, D d, G g, int nb, int small, bool disc = false) {
    law<E64>(tag + "/u64", fam, p, nb, [=](auto& e) mutable { return (double)g(d(e)); }, disc);
    if (small) {
        law<E32>(tag + "/u32", fam, p, small, [=](auto& e) mutable { return (double)g(d(e)); }, disc);
        law<E31>(tag + "/31", fam, p, small, [=](auto& e) mutable { typename D::param_type q = d.param(); return (double)g(d(e, q)); }, disc);
        law<ED>(tag + "/real", fam, p, small, [=](auto& e) mutable { return (double)g(d(e)); }, disc);
    }
}
static double id(double x) { return x; }
static double q(long a) { return a / 64.0; }

// parameter sets beyond the chosen ones, for every branch and its borders
static std::vector<std::vector<long>> more(const char* fam, std::vector<std::pair<long, long>> range) {
    std::vector<std::vector<long>> v; u64 h = seed(); for (const char* c = fam; *c; ++c) h = h * 131 + *c; Rng g(h);
    for (int i = 0; i < (thorough() ? 60 : 6); ++i) { v.emplace_back(); for (auto& x : range) { // small values as likely as large ones
        double lo = std::log((double)x.first), hi = std::log((double)x.second + 1); v.back().push_back(std::min(x.second, std::max(x.first, (long)std::exp(lo + (hi - lo) * (g.below(1 << 20) / 1048576.0))))); } }
    return v;
}
template<class R> void parts(const char* rn, bool main) {
    std::string t = rn; int big = main ? 28 : 26, mid = main ? 26 : 24, slow = main ? 26 : 24, sm = main ? 23 : 0;
#if PART == 0
    each(t, "exponential", {}, r::exponential_distribution<R>(1), id, big, sm);
    each(t + "*", "exponential", {}, r::exponential_distribution<R>(R(0.75)), [](double x) { return x * 0.75; }, mid, 0);
    each(t, "normal", {}, r::normal_distribution<R>(0, 1), id, big, sm);
    each(t + "*", "normal", {}, r::normal_distribution<R>(-3, R(0.25)), [](double x) { return (x + 3) * 4; }, mid, 0);
    // engines of few values: acceptance tests see no finer than one value of the engine, so that the law
    // holds up to about 1/1000 of the number of values; no more draws than that can be told from
    auto few = [&](auto e, const char* nm, int nb) { typedef decltype(e) E; if (thorough()) nb -= 3;
        law<E>(t + nm, "normal", {}, nb, [d = r::normal_distribution<R>(0, 1)](auto& e) mutable { return (double)d(e); });
        law<E>(t + nm, "exponential", {}, nb, [d = r::exponential_distribution<R>()](auto& e) mutable { return (double)d(e); }); };
    few(E1(), "/2", 16); few(E3(), "/8", 18); few(E4(), "/16", 18); few(E7(), "/128", 20); few(E8(), "/256", 20); few(EC(), "/char", 20); few(E1000(), "/1000", 20); few(E16(), "/65536", 23);
    // two draws of one object
    law<E64>(t + "/sum", "normal", {}, slow, [d = r::normal_distribution<R>()](auto& e) mutable { double a = d(e); return (a + d(e)) * std::sqrt(0.5); });
    law<E64>(t + "/sum", "gamma", {128}, slow, [d = r::exponential_distribution<R>()](auto& e) mutable { double a = d(e); return a + d(e); });
#elif PART == 1
    each(t, "lognormal", {0, 64}, r::lognormal_distribution<R>(0, 1), id, slow, sm);
    each(t, "lognormal", {32, 48}, r::lognormal_distribution<R>(R(0.5), R(0.75)), id, mid, 0);
    each(t, "cauchy", {}, r::cauchy_distribution<R>(0, 1), id, mid, sm);
    each(t + "*", "cauchy", {}, r::cauchy_distribution<R>(5, R(0.5)), [](double x) { return (x - 5) * 2; }, slow, 0);
    for (long a : {32, 64, 160}) each(t, "weibull", {a}, r::weibull_distribution<R>(R(q(a)), 1), id, mid, a == 160 ? sm : 0);
    each(t + "*", "weibull", {96}, r::weibull_distribution<R>(R(1.5), 4), [](double x) { return x / 4; }, slow, 0);
    each(t, "extreme_value", {}, r::extreme_value_distribution<R>(0, 1), id, mid, sm);
    each(t + "*", "extreme_value", {}, r::extreme_value_distribution<R>(-2, R(0.5)), [](double x) { return (x + 2) * 2; }, slow, 0);
    each(t, "laplace", {}, r::laplace_distribution<R>(0, 1), id, mid, sm);
    each(t + "*", "laplace", {}, r::laplace_distribution<R>(3, 4), [](double x) { return (x - 3) / 4; }, slow, 0);
    for (auto& p : std::vector<std::vector<long>>{{-64, 32, 192}, {0, 0, 64}, {-64, 128, 128}, {0, 8, 640}}) each(t, "triangle", p, r::triangle_distribution<R>(R(q(p[0])), R(q(p[1])), R(q(p[2]))), id, mid, p[0] ? 0 : sm);
    for (auto& p : more("weibull", {{16, 640}})) each(t + "?", "weibull", p, r::weibull_distribution<R>(R(q(p[0])), 1), id, 22, 0);
    for (auto& p : more("lognormal", {{1, 128}, {16, 128}})) each(t + "?", "lognormal", p, r::lognormal_distribution<R>(R(q(p[0])), R(q(p[1]))), id, 22, 0);
    for (auto& p : more("triangle", {{1, 64}, {65, 200}, {201, 700}})) each(t + "?", "triangle", p, r::triangle_distribution<R>(R(q(p[0])), R(q(p[1])), R(q(p[2]))), id, 22, 0);
#elif PART == 2
    for (long a : {8, 32, 60, 64, 65, 96, 160, 640, 1920}) each(t, "gamma", {a}, r::gamma_distribution<R>(R(q(a)), 1), id, slow, a == 32 || a == 160 ? sm : 0);
    each(t + "*", "gamma", {144}, r::gamma_distribution<R>(R(q(144)), R(0.25)), [](double x) { return x * 4; }, slow, 0);
    each(t + "*", "gamma", {40}, r::gamma_distribution<R>(R(q(40)), 8), [](double x) { return x / 8; }, slow, 0);
    for (long a : {32, 64, 128, 320, 1024}) each(t, "chi_squared", {a}, r::chi_squared_distribution<R>(R(q(a))), id, slow, 0);
    for (auto& p : more("gamma", {{16, 1900}})) each(t + "?", "gamma", p, r::gamma_distribution<R>(R(q(p[0])), 1), id, 22, 0);
    for (auto& p : more("chi", {{32, 1900}})) each(t + "?", "chi_squared", p, r::chi_squared_distribution<R>(R(q(p[0]))), id, 22, 0);
#elif PART == 3
    for (auto& p : std::vector<std::vector<long>>{{64, 64}, {32, 32}, {32, 160}, {160, 96}, {320, 64}, {64, 192}, {16, 16}}) each(t, "beta", p, r::beta_distribution<R>(R(q(p[0])), R(q(p[1]))), id, slow, 0);
    for (auto& p : std::vector<std::vector<long>>{{64, 64}, {320, 448}, {128, 192}, {96, 640}}) each(t, "fisher_f", p, r::fisher_f_distribution<R>(R(q(p[0])), R(q(p[1]))), id, slow, 0);
    for (long a : {64, 96, 192, 640}) each(t, "student_t", {a}, r::student_t_distribution<R>(R(q(a))), id, slow, a == 192 ? sm : 0);
    for (auto& p : std::vector<std::vector<long>>{{64, 64}, {192, 128}, {96, 320}, {128, 32}, {32, 128}, {640, 640}}) each(t, "non_central_chi_squared", p, r::non_central_chi_squared_distribution<R>(R(q(p[0])), R(q(p[1]))), id, slow, 0);
    for (auto& p : more("beta", {{16, 700}, {16, 700}})) each(t + "?", "beta", p, r::beta_distribution<R>(R(q(p[0])), R(q(p[1]))), id, 22, 0);
    for (auto& p : more("fisher", {{32, 700}, {32, 700}})) each(t + "?", "fisher_f", p, r::fisher_f_distribution<R>(R(q(p[0])), R(q(p[1]))), id, 22, 0);
    for (auto& p : more("student", {{32, 900}})) each(t + "?", "student_t", p, r::student_t_distribution<R>(R(q(p[0]))), id, 22, 0);
    for (auto& p : more("ncchi", {{32, 700}, {8, 700}})) each(t + "?", "non_central_chi_squared", p, r::non_central_chi_squared_distribution<R>(R(q(p[0])), R(q(p[1]))), id, 22, 0);
#elif PART == 4
    for (int d : {1, 2, 3, 4, 5, 8}) for (int c = 0; c < d && c < 4; ++c) {
        r::uniform_on_sphere<R> u(d); law<E64>(t + "/x" + std::to_string(c), "sphere", {d}, slow, [=](auto& e) mutable { return (double)u(e)[c]; });
        if (c) law<E64>(t + "/mix" + std::to_string(c), "sphere", {d}, slow, [=](auto& e) mutable { auto& v = u(e); return 0.6 * v[0] + 0.8 * v[c]; });
        if (sm && d < 5 && !c) { law<E32>(t + "/32", "sphere", {d}, sm, [=](auto& e) mutable { return (double)u(e)[c]; }); law<ED>(t + "/real", "sphere", {d}, sm, [=](auto& e) mutable { return (double)u(e)[c]; }); }
    }
    { std::vector<R> w{1, 2, 1}, l{1, 2, R(0.5)}; each(t, "hyperexponential", {1, 2, 1, 64, 128, 32}, r::hyperexponential_distribution<R>(w, l), id, mid, sm); }
    { std::vector<R> w{3, 1}, l{R(0.25), 4}; each(t, "hyperexponential", {3, 1, 16, 256}, r::hyperexponential_distribution<R>(w, l), id, mid, 0); }
    { std::vector<R> w{5}, l{1}; each(t, "hyperexponential", {5, 64}, r::hyperexponential_distribution<R>(w, l), id, slow, 0); }
    { std::vector<R> b{-1, 0, R(0.5), 2}, w{1, 3, 2}; each(t, "piecewise_constant", {-64, 0, 32, 128, 1, 3, 2}, r::piecewise_constant_distribution<R, R>(b.begin(), b.end(), w.begin()), id, mid, sm); }
    { std::vector<R> b{0, 1, 4, 5, 7}, w{0, 5, 0, 1}; each(t, "piecewise_constant", {0, 64, 256, 320, 448, 0, 5, 0, 1}, r::piecewise_constant_distribution<R, R>(b.begin(), b.end(), w.begin()), id, mid, 0); }
    { std::vector<R> b{-1, 0, R(0.5), 2}, w{1, 3, 0, 2}; each(t, "piecewise_linear", {-64, 0, 32, 128, 1, 3, 0, 2}, r::piecewise_linear_distribution<R>(b.begin(), b.end(), w.begin()), id, mid, sm); }
    { std::vector<R> b{0, 1, 3}, w{0, 4, 0}; each(t, "piecewise_linear", {0, 64, 192, 0, 4, 0}, r::piecewise_linear_distribution<R>(b.begin(), b.end(), w.begin()), id, mid, 0); }
    { std::vector<R> b{0, 2}, w{5, 2}; each(t, "piecewise_linear", {0, 128, 5, 2}, r::piecewise_linear_distribution<R>(b.begin(), b.end(), w.begin()), id, slow, 0); }
#elif PART == 5
    for (long m : {1, 16, 64, 200, 639, 640, 641, 704, 1920, 6400}) each(t, "poisson", {m}, r::poisson_distribution<int, R>(R(q(m))), id, slow, m == 200 || m == 641 ? sm : 0, true);
    for (auto& p : std::vector<std::vector<long>>{{1, 1, 4}, {1, 7, 1024}, {1, 15, 16}, {1, 1, 2}}) each(t, "geometric", {p[1], p[2]}, r::geometric_distribution<int, R>(R(p[1]) / R(p[2])), id, mid, p[2] == 4 ? sm : 0, true);
    for (auto& p : std::vector<std::vector<long>>{{1, 1, 4}, {3, 1, 2}, {20, 3, 4}, {5, 1, 8}, {40, 1, 4}}) each(t, "negative_binomial", p, r::negative_binomial_distribution<int, R>((int)p[0], R(p[1]) / R(p[2])), id, slow, p[0] == 5 ? sm : 0, true);
    // the old class: failures counted from 1, the parameter is the probability of going on
    for (auto& p : std::vector<std::vector<long>>{{3, 4}, {1, 16}}) law<E64>(t + "/old", "geometric", {p[1] - p[0], p[1]}, mid, [d = boost::geometric_distribution<int, R>(R(p[0]) / R(p[1]))](auto& e) mutable { return (double)d(e) - 1; }, true);
    law<E64>(t + "/sum", "poisson", {128}, slow, [d = r::poisson_distribution<int, R>(1)](auto& e) mutable { int a = d(e); return (double)(a + d(e)); }, true);
    law<E64>(t + "/sum", "poisson", {1600}, slow, [d = r::poisson_distribution<int, R>(R(12.5))](auto& e) mutable { int a = d(e); return (double)(a + d(e)); }, true);
    for (auto& p : more("poisson", {{8, 640}})) each(t + "?", "poisson", p, r::poisson_distribution<int, R>(R(q(p[0]))), id, 22, 0, true);
    for (auto& p : more("poissonbig", {{600, 12000}})) each(t + "?", "poisson", p, r::poisson_distribution<int, R>(R(q(p[0]))), id, 22, 0, true);
    for (auto& p : more("nb", {{1, 30}, {128, 1000}})) each(t + "?", "negative_binomial", {p[0], p[1], 1024}, r::negative_binomial_distribution<int, R>((int)p[0], R(p[1]) / 1024), id, 22, 0, true);
#elif PART == 6
    for (auto& p : std::vector<std::vector<long>>{{1, 1, 4}, {9, 3, 8}, {20, 1, 2}, {21, 1, 2}, {22, 1, 2}, {22, 3, 4}, {40, 1, 4}, {44, 1, 4}, {100, 1, 8}, {100, 7, 8}, {100, 1, 2}, {1000, 1, 512}, {1000, 11, 1024}, {1000, 3, 4}, {1000, 1000, 1024},
             {4000, 1, 2}, {10000, 1, 64}, {12, 0, 1}, {12, 1, 1}, {7, 511, 1024}, {300, 1, 16}})
        each(t, "binomial", p, r::binomial_distribution<int, R>((int)p[0], R(p[1]) / R(p[2])), id, slow, p[0] == 40 || p[0] == 9 ? sm : 0, true);
    law<E64>(t + "/sum", "binomial", {18, 3, 8}, slow, [d = r::binomial_distribution<int, R>(9, R(0.375))](auto& e) mutable { int a = d(e); return (double)(a + d(e)); }, true);
    law<E64>(t + "/sum", "binomial", {160, 3, 8}, slow, [d = r::binomial_distribution<int, R>(80, R(0.375))](auto& e) mutable { int a = d(e); return (double)(a + d(e)); }, true);
    for (auto& p : more("binomial", {{1, 100}, {1, 1023}})) each(t + "?", "binomial", {p[0], p[1], 1024}, r::binomial_distribution<int, R>((int)p[0], R(p[1]) / 1024), id, 22, 0, true);
    for (auto& p : more("binomialbig", {{50, 3000}, {200, 900}})) each(t + "?", "binomial", {p[0], p[1], 1024}, r::binomial_distribution<int, R>((int)p[0], R(p[1]) / 1024), id, 22, 0, true);
#endif
}
int main(int argc, char** argv) { parts<double>("double", true); parts<float>("float", false); if (thorough()) parts<long double>("long double", false); return run(argc, argv); }
