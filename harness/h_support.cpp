// Draws from every distribution with engines that hand out chosen extreme values
// first and ordinary ones after them (C19).
#include "dists.hpp"
#include <fstream>
#include <set>
#include <boost/random/uniform_01.hpp>
#ifndef PART
#define PART 0
#endif
// runs of value classes: "class*length ..."
typedef std::vector<int> Seq;
static std::vector<Seq> seqs;
static void load(const char* f) { std::ifstream in(f); std::string ln; while (std::getline(in, ln)) { std::stringstream ss(ln); std::string t; Seq s; while (ss >> t) { int c = atoi(t.c_str()), n = atoi(t.c_str() + t.find('*') + 1); while (n--) s.push_back(c); } seqs.push_back(s); } }
template<int K> struct RangeOf;
template<> struct RangeOf<0> { typedef std::uint32_t T; static constexpr T lo = 0, hi = 0xffffffffu; };
template<> struct RangeOf<1> { typedef std::uint64_t T; static constexpr T lo = 0, hi = ~0ull; };
template<> struct RangeOf<2> { typedef std::int32_t T; static constexpr T lo = -1000, hi = 1 << 20; };
template<> struct RangeOf<3> { typedef double T; static constexpr T lo = 0, hi = 1; };
template<> struct RangeOf<4> { typedef std::uint8_t T; static constexpr T lo = 0, hi = 255; };
template<> struct RangeOf<5> { typedef std::uint32_t T; static constexpr T lo = 1, hi = 0x7ffffffeu; };
template<> struct RangeOf<6> { typedef std::uint32_t T; static constexpr T lo = 0, hi = 1; };
struct Stuck {};
static const int CLASSES = 10;
template<int K> struct XE {
    typedef typename RangeOf<K>::T result_type; const Seq* q; long p; Rng g;
    XE(const Seq* s, u64 x) : q(s), p(0), g(x) {}
    static constexpr result_type min() { return RangeOf<K>::lo; } static constexpr result_type max() { return RangeOf<K>::hi; }
    result_type operator()() { long i = p++; if (i > (long)q->size() + 20000) throw Stuck(); if (i < (long)q->size()) return cls((*q)[i], std::is_integral<result_type>()); return ord(g.next(), std::is_integral<result_type>()); }
    static result_type cls(int c, std::true_type) {
        u64 lo = (u64)(long)RangeOf<K>::lo, w = (u64)(long)RangeOf<K>::hi - lo, b = w < 255 ? w : 255;
        u64 t[CLASSES] = {0, 1, w, w - 1, w / 2, w / 2 + 1, b, w - b, w >> 8, w - (w >> 8)}; return (result_type)(lo + t[c]);
    }
    static result_type cls(int c, std::false_type) { double e = 1.0 / 9007199254740992.0, t[CLASSES] = {0, e, 1 - e, 1 - 2 * e, 0.5, 0.5 - e, 1.0 / 256, 255.0 / 256, 255 * e, 1 - 256 * e}; return t[c]; }
    static result_type ord(u64 x, std::true_type) { u64 w = (u64)(long)RangeOf<K>::hi - (u64)(long)RangeOf<K>::lo; return (result_type)((u64)(long)RangeOf<K>::lo + (w == ~0ull ? x : x % (w + 1))); }
    static result_type ord(u64 x, std::false_type) { return (result_type)((x >> 11) / 9007199254740992.0); }
};
// place in the order of the floating-point numbers
static std::string place(LD v) {
    if (v != v) return "[]";
    if (v == 0) return "[0,0,0,0]";
    int sg = v < 0 ? -1 : 1; LD x = sg * v; long ex, m1 = 0, m2 = 0, m3 = 0;
    if (x > std::numeric_limits<LD>::max()) ex = 32767;
    else { int e; LD f = std::frexp(x, &e); u64 m = (u64)std::ldexp(f, 64); if (e - 1 + 16383 <= 0) { ex = 0; m >>= 1; m1 = 1; } else ex = e - 1 + 16383; m &= ~(1ull << 63); m1 += m >> 42; m2 = (m >> 21) & 0x1fffff; m3 = m & 0x1fffff; }
    return "[" + std::to_string(sg * ex) + "," + std::to_string(sg * m1) + "," + std::to_string(sg * m2) + "," + std::to_string(sg * m3) + "]";
}
static std::string places(const VL& v) { std::string s = "["; for (size_t i = 0; i < v.size(); ++i) { if (i) s += ','; s += place(v[i]); } return s + "]"; }
template<class T> void note(std::set<std::string>& s, const T& v) { s.insert(place((LD)v)); }
static void note_index(std::set<std::string>& s, LD v) { s.insert(v >= -1e9L && v <= 1e9L ? std::to_string((long)v) : "-1"); }
template<class T> void note(std::set<std::string>& s, const std::vector<T>& v) { std::string t = "["; for (size_t i = 0; i < v.size(); ++i) { if (i) t += ','; T x = v[i]; t += !(x > -1.25 && x < 1.25) ? std::string("20000") : std::to_string((long)std::floor(x * 16384 + T(0.5))); } s.insert(t + "]"); }

template<int K, class MK> void draws(const std::string& fam, const VL& args, long n, LD mx, MK mk) {
    std::set<std::string> vals; long most = 0; bool stuck = false; int kind = fam == "discrete" ? 1 : fam == "sphere" ? 2 : 0; Seq bad;
    for (size_t k = 0; k < seqs.size(); ++k) {
        XE<K> e(&seqs[k], seed() * 100003 + k); auto d = mk();
        try {
            do { auto v = d(e); if (kind == 1) { if constexpr (std::is_arithmetic<decltype(v)>::value) note_index(vals, (LD)v); } else note(vals, v); } while (e.p && e.p < (long)seqs[k].size() && vals.size() < 100000);
            most = std::max(most, e.p - (long)seqs[k].size());
        } catch (Stuck&) { stuck = true; bad = seqs[k]; break; }
    }
    std::string s = "["; bool f = true; size_t cnt = 0; auto flush = [&] { s += ']'; Ev("draws").str("fam", fam).i("kind", kind).raw("a", places(args)).i("n", n).raw("mx", place(mx)).i("eng", K).raw("vals", s).i("most", most).b("stuck", stuck); s = "["; f = true; cnt = 0; };
    for (auto& v : vals) { if (!f) s += ','; f = false; s += v; if (++cnt == 400) flush(); }
    if (cnt || vals.empty()) flush();
    if (stuck) Ev("stuckon").is("seq", bad);
}
template<class MK> void all_engines(const std::string& nm, const std::string& fam, const VL& args, long n, LD mx, MK mk) {
    section(nm, [=] { draws<0>(fam, args, n, mx, mk); draws<1>(fam, args, n, mx, mk); draws<2>(fam, args, n, mx, mk); draws<3>(fam, args, n, mx, mk); draws<4>(fam, args, n, mx, mk); draws<5>(fam, args, n, mx, mk); draws<6>(fam, args, n, mx, mk); });
}
static std::string rn;
template<class D, class A> void one_(const char* fam, std::vector<A> as) {
    for (size_t i = 0; i < as.size(); ++i) { A a = as[i]; all_engines(std::string(fam) + rn + std::to_string(i), fam, VL{(LD)a}, 1, std::is_integral<typename D::result_type>::value ? (LD)std::numeric_limits<typename D::result_type>::max() : 0, [=] { return D(a); }); }
}
template<class D, class A, class B> void two_(const char* fam, std::vector<std::pair<A, B>> as) {
    for (size_t i = 0; i < as.size(); ++i) { A a = as[i].first; B b = as[i].second; all_engines(std::string(fam) + rn + std::to_string(i), fam, VL{(LD)a, (LD)b}, 2, std::is_integral<typename D::result_type>::value ? (LD)std::numeric_limits<typename D::result_type>::max() : 0, [=] { return D(a, b); }); }
}
template<class R> struct Sphere : r::uniform_on_sphere<R> { explicit Sphere(int n) : r::uniform_on_sphere<R>(n) {} typedef LD result_type_; };
template<int H, class R> void reals(const char* t) {
    rn = std::string("<") + t + ">"; typedef std::vector<std::pair<R, R>> P; typedef std::vector<R> V; R eps = std::numeric_limits<R>::epsilon(), big = R(1e9), small = R(1e-9), x3 = R(1) / 3;
    if constexpr (H == 0) {
    P loc = {{0, 1}, {x3, small}, {-big, big}, {1, 1000}, {big, small}};
    two_<r::normal_distribution<R>>("normal", loc); two_<r::cauchy_distribution<R>>("cauchy", loc); two_<r::laplace_distribution<R>>("laplace", loc); two_<r::extreme_value_distribution<R>>("extreme_value", loc);
    two_<r::lognormal_distribution<R>>("lognormal", P{{0, 1}, {x3, small}, {-10, 2}, {5, R(0.25)}});
    two_<boost::lognormal_distribution<R>>("lognormal", P{{1, 1}, {x3, small}, {10, 2}});
    one_<r::exponential_distribution<R>>("exponential", V{1, small, big, 3}); one_<boost::exponential_distribution<R>>("exponential", V{2});
    } else if constexpr (H == 1) {
    two_<r::weibull_distribution<R>>("weibull", P{{1, 1}, {R(0.25), 7}, {50, small}, {2, big}});
    P ab = {{1, 1}, {R(0.5), R(0.5)}, {2, R(0.25)}, {7, 3}, {1, 2}, {3, 1}, {R(0.125), R(0.125)}, {50, 80}};
    two_<r::beta_distribution<R>>("beta", ab); two_<r::gamma_distribution<R>>("gamma", P{{1, 1}, {R(0.5), 2}, {7, small}, {R(0.125), big}, {1, 1000}, {200, 1}, {1 + eps, 1}, {1 - eps, 1}});
    two_<boost::gamma_distribution<R>>("gamma", P{{2, 1}});
    two_<r::fisher_f_distribution<R>>("fisher_f", P{{1, 1}, {2, 2}, {5, 2}, {2, 7}, {30, 40}, {4, R(0.5)}});
    two_<r::non_central_chi_squared_distribution<R>>("non_central", P{{1, 1}, {R(0.5), 3}, {5, 2}, {2, 100}, {3, small}, {1, small}, {1, 50}});
    } else if constexpr (H == 2) {
    one_<r::chi_squared_distribution<R>>("chi_squared", V{1, 2, 3, R(0.25), 100}); one_<r::student_t_distribution<R>>("student_t", V{1, 2, 3, R(0.5), 100});
    one_<r::bernoulli_distribution<R>>("bernoulli", V{0, 1, R(0.5), small, 1 - eps / 2}); one_<boost::bernoulli_distribution<R>>("bernoulli", V{0, 1, x3});
    R mx = std::numeric_limits<R>::max(), mn = std::numeric_limits<R>::min();
    P ur = {{0, 1}, {-1, 1}, {0, mx}, {-mx / 2, mx / 2}, {1, 1 + eps}, {1, 1 + 3 * eps}, {-1, -1 + eps}, {0, mn}, {-mn, mn}, {0, std::numeric_limits<R>::denorm_min()}, {big, big * 2}, {-big, small}, {-mx, -mx / 2}, {-3, 0}, {-mx, mx}};
    two_<r::uniform_real_distribution<R>>("uniform_real", ur); two_<boost::uniform_real<R>>("uniform_real", ur);
    all_engines("unit" + rn, "unit", VL(), 0, 0, [] { return r::uniform_01<R>(); });
    std::vector<std::vector<R>> ts = {{0, R(0.5), 1}, {-1, -1, 1}, {-1, 1, 1}, {x3, 22 / R(7), big}, {-big, 0, small}, {1, 1 + eps, 1 + 2 * eps}, {-5, -4, 100}, {R(0.1), R(0.2), R(0.7)}, {-R(0.7), -R(0.2), -R(0.1)}, {R(0.1), R(0.6), R(0.7)}, {big, big + 1, big * 3}, {R(-0.3), R(0.1), R(0.1)}};
    for (size_t i = 0; i < ts.size(); ++i) { auto p = ts[i]; all_engines("triangle" + rn + std::to_string(i), "triangle", VL(p.begin(), p.end()), 3, 0, [=] { return r::triangle_distribution<R>(p[0], p[1], p[2]); }); }
    } else {
    for (int n : {0, 1, 2, 3, 4, 5, 9}) { int m = n; all_engines("sphere" + rn + std::to_string(n), "sphere", VL{(LD)n}, n, 0, [=] { return r::uniform_on_sphere<R>(m); }); }
    std::vector<V> ws = {{1}, {1, 3, 2, 2}, {0, R(0.125), 0, R(0.375)}, {1, 1, 0, 0, 1, 3, 2, 0}, {small, big, 0, 1}, {0, 0, 0, 1}, {1, 0, 0, 0}, {x3, x3, x3}, {R(0.1), R(0.2), R(0.3), R(0.4)}, V(255, R(0.1)), V(7, R(0.7))};
    for (size_t i = 0; i < ws.size(); ++i) { auto w = ws[i]; all_engines("discrete" + rn + std::to_string(i), "discrete", VL(w.begin(), w.end()), w.size(), 0, [=] { return r::discrete_distribution<int, R>(w); }); }
    std::vector<std::pair<V, V>> pc = {{{0, 1}, {1}}, {{-1, 0, 2, 3, 4}, {R(0.125), 0, R(0.25), R(0.25)}}, {{x3, x3 + 2, x3 + 4}, {0, 1}}, {{0, 1, 3}, {1, 0}}, {{1, 1 + eps, 1 + 2 * eps, 2}, {1, 1, 1}}, {{-big, -small, small, big}, {0, 3, 0}}};
    for (size_t i = 0; i < pc.size(); ++i) { auto x = pc[i].first, w = pc[i].second; VL a(x.begin(), x.end()); a.insert(a.end(), w.begin(), w.end()); all_engines("pconst" + rn + std::to_string(i), "piecewise_constant", a, x.size(), 0, [=] { return r::piecewise_constant_distribution<R, R>(x.begin(), x.end(), w.begin()); }); }
    std::vector<std::pair<V, V>> pl = {{{0, 1}, {1, 1}}, {{-1, 0, 2, 3, 4}, {1, 0, 0, R(0.25), 7}}, {{x3, x3 + 2}, {0, 1}}, {{0, 1, 3}, {1, 0, 0}}, {{1, 1 + eps, 1 + 2 * eps, 2}, {1, 2, 1, 3}}, {{-big, -small, small, big}, {0, 3, 3, 0}}, {{0, 1, 2, 3}, {0, 0, 0, 1}}};
    for (size_t i = 0; i < pl.size(); ++i) { auto x = pl[i].first, w = pl[i].second; VL a(x.begin(), x.end()); a.insert(a.end(), w.begin(), w.end()); all_engines("plin" + rn + std::to_string(i), "piecewise_linear", a, x.size(), 0, [=] { return r::piecewise_linear_distribution<R>(x.begin(), x.end(), w.begin()); }); }
    std::vector<std::pair<V, V>> hy = {{{1}, {1}}, {{1, 0}, {x3, 2}}, {{1, 1, 2}, {big, small, 3}}};
    for (size_t i = 0; i < hy.size(); ++i) { auto p = hy[i].first, q = hy[i].second; VL a(q.begin(), q.end()); all_engines("hyper" + rn + std::to_string(i), "hyperexponential", a, a.size(), 0, [=] { return r::hyperexponential_distribution<R>(p, q); }); }
    }
}
template<class I, class R> void ints(const char* t) {
    rn = std::string("<") + t + ">"; typedef std::vector<std::pair<I, R>> P; typedef std::vector<R> V; R eps = std::numeric_limits<R>::epsilon(); I mx = std::numeric_limits<I>::max();
    two_<r::binomial_distribution<I, R>>("binomial", P{{1, R(0.5)}, {0, R(0.3)}, {100, 0}, {70, 1}, {9, R(0.3)}, {100, R(0.7)}, {100, R(0.02)}, {100, R(0.98)}, {22, R(0.5)}, {21, R(0.5)}, {120, R(0.1)}, {120, eps}, {50, 1 - eps}, {127, R(0.5)}, {11, 1 - eps / 2}});
    if (mx > 1000) two_<r::binomial_distribution<I, R>>("binomial", P{{1000, R(0.7)}, {30000, R(0.02)}, {I(mx / 2), R(0.0001)}, {I(mx / 2), R(0.4)}});
    if (mx > 1000) {
    two_<r::negative_binomial_distribution<I, R>>("negative_binomial", P{{1, R(0.5)}, {3, R(0.3)}, {20, R(0.7)}, {1, 1}, {5, 1 - eps}, {2, R(0.05)}});
    one_<r::poisson_distribution<I, R>>("poisson", V{1, R(0.3), R(1e-6), 9, R(9.9999), 10, 11, 50, 500});
    one_<r::geometric_distribution<I, R>>("geometric", V{R(0.5), R(0.9), R(0.02), 1 - eps}); one_<boost::geometric_distribution<I, R>>("geometric1", V{R(0.5), R(0.02)});
    }
    if (mx > 100000000) one_<r::geometric_distribution<I, R>>("geometric", V{R(0.0001)});
}
template<class I> void uniforms(const char* t) {
    rn = std::string("<") + t + ">"; typedef std::vector<std::pair<I, I>> P; I mn = std::numeric_limits<I>::min(), mx = std::numeric_limits<I>::max();
    P p = {{0, 1}, {mn, mx}, {mx, mx}, {mn, mn}, {mn, I(mn + 1)}, {I(mx - 1), mx}, {0, mx}, {I(mn + 1), mx}, {mn, I(mx - 1)}, {3, 100}, {I(mn / 2), I(mx / 2)}};
    two_<r::uniform_int_distribution<I>>("uniform_int", p); two_<boost::uniform_int<I>>("uniform_int", p);
    two_<r::uniform_smallint<I>>("uniform_int", P{{0, 1}, {3, 3}, {mn, I(mn + 9)}, {I(mx - 5), mx}, {0, 100}});
}
template<class I, class W> void weights(const char* t) {
    rn = std::string("<") + t + ">"; typedef std::vector<W> V; W mx = std::numeric_limits<W>::max();
    std::vector<V> ws = {{1}, {3, 0, 7, 1, 5}, {0, 0, W(mx / 5), W(mx / 7), 1}, {7, 7, 7}, {0, 0, 1}, {1, 0, 0}, {W(mx / 2), 0, W(mx / 3)}, V(100, 1)};
    for (size_t i = 0; i < ws.size(); ++i) { V w = ws[i]; all_engines("discrete" + rn + std::to_string(i), "discrete", VL(w.begin(), w.end()), w.size(), 0, [=] { return r::discrete_distribution<I, W>(w); }); }
}
int main(int argc, char** argv) {
    if (getenv("VERIF_SCRIPTS")) load(getenv("VERIF_SCRIPTS"));
#if PART < 4
    reals<PART, double>("double");
#elif PART < 8
    reals<PART - 4, float>("float");
#elif PART < 12
    reals<PART - 8, long double>("long double");
#elif PART == 12
    ints<int, double>("int"); ints<short, float>("short"); 
#elif PART == 13
    ints<long, float>("long");
#else
    uniforms<int>("int"); uniforms<std::uint64_t>("u64"); uniforms<signed char>("i8"); uniforms<std::int64_t>("i64"); uniforms<unsigned short>("u16");
    weights<int, int>("int,int"); weights<unsigned char, std::uint64_t>("uchar,u64"); weights<long, unsigned short>("long,ushort");
#endif
    return run(argc, argv);
}
