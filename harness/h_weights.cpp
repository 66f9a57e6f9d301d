// Decision trees of discrete_distribution and bernoulli_distribution.
#include "tree.hpp"
#include <boost/random/discrete_distribution.hpp>
#include <boost/random/bernoulli_distribution.hpp>
#include <numeric>
using namespace tr;
namespace r = boost::random;

struct Gen { const std::vector<u64>* w; template<class X> double operator()(X x) const { return (double)(*w)[(size_t)x]; } };
template<class W> struct GenI { const std::vector<W>* w; W operator()(double x) const { return (*w)[(size_t)x]; } };

template<class I, class W> r::discrete_distribution<I, W> make(int via, const std::vector<W>& w) {
    typedef r::discrete_distribution<I, W> D; typedef typename D::param_type P;
    switch (via) {
    case 0: return D(w.begin(), w.end());
    case 1: return D(w);                                          // a range
    case 2: return D(P(w));
    case 3: { D d; d.param(P(w.begin(), w.end())); return d; }
    case 4: return D(w.size(), 0.0, (double)w.size(), GenI<W>{&w});
    case 5: return D(P(w.size(), 0.0, (double)w.size(), GenI<W>{&w}));
    case 6: { D d(w.rbegin(), w.rend()); D e(w); d = e; return d; }
    case 7: if (sizeof(W) == 1 && std::is_integral<W>::value) return D(w);   // characters to a stream
        { std::stringstream s; D a(w), d; s << a; s >> d; return d; }
    case 8: { std::istringstream s; std::stringstream t; t << w.size(); for (auto x : w) t << ' ' << (long long)x; (void)s; D a(w); D d(a.param()); return d; }
    case 9: if (w.size() == 3) { D d = {w[0], w[1], w[2]}; return d; } return D(w);
    }
    abort();
}
const int NMAKE = 10;

template<class I, class W> void emit_tree(const char* how, u64 B, size_t depth, const std::vector<W>& w, const Tree& t) {
    // the law only depends on the ratios
    u64 g = 0; for (W x : w) g = std::__gcd(g, (u64)x);
    std::vector<u64> q; for (W x : w) q.push_back((u64)x / g);
    for (u64 x : q) if (x > 1000000) return;
    Ev e("tree"); e.str("fam", "weights").str("how", how).i("b", (long)B).i("depth", (long)depth).is("w", q); t.emit(e);
}
template<class I, class W> void weights(const std::vector<std::vector<W>>& vs) {
    typedef SE<std::uint32_t> E; E eng; int turn = 0;
    u64 budget = thorough() ? 60000 : 6000;
    for (const std::vector<W>& w : vs) {
        {   // what is reported back
            typedef r::discrete_distribution<I, W> D;
            for (int via = 0; via < NMAKE; ++via) {
                D d = make<I, W>(via, w); std::vector<W> p = d.probabilities(), q = d.param().probabilities(), pp = typename D::param_type(w).probabilities();
                Ev("probs").ws("given", w).ws("got", p).ws("par", q).ws("pp", pp).i("min", (long)d.min()).i("max", (long)d.max()).i("via", via);
            }
        }
        u64 ws = 0; for (W x : w) ws += (u64)x;
        std::vector<u64> Bs = {2, 3, 4, 6, 7};
        if (w.size() <= 256) Bs.push_back(w.size() < 2 ? 5 : w.size());
        for (u64 B : Bs) {
            ++turn;
            if (!thorough() && turn % 3) continue;
            size_t depth = depth_for(B, budget);
            for (int q = 0; q < 2; ++q) {
                E::bounds(turn % 2 ? 0 : 0xffffffffu - (std::uint32_t)(B - 1), B - 1);
                Tree t; typedef r::discrete_distribution<I, W> D; typedef typename D::param_type P;
                if (q == 0) { D d = make<I, W>((turn / 3) % NMAKE, w); t.explore<E>(B, depth, [&] { return (u64)d(eng); }); emit_tree<I, W>("stored", B, depth, w, t); }
                else { D d; P p(w); t.explore<E>(B, depth, [&] { return (u64)d(eng, p); }); emit_tree<I, W>("param", B, depth, w, t); }
            }
        }
    }
}
template<class W> std::vector<std::vector<W>> vecs(int nrand, u64 big) {
    std::vector<std::vector<W>> v = {{1}, {3}, {1, 1}, {1, 2}, {2, 1}, {0, 1}, {1, 0}, {5, 0, 0}, {0, 0, 5}, {0, 5, 0}, {1, 2, 3}, {3, 2, 1}, {1, 1, 1}, {1, 0, 1}, {4, 1, 1}, {1, 4, 1}, {1, 1, 4}, {1, 1, 1, 1}, {7, 0, 1, 0}, {0, 3, 3, 0}, {1, 2, 3, 4}, {4, 3, 2, 1},
        {2, 7, 1, 8, 2, 8}, {1, 0, 0, 0, 0, 6}, {6, 0, 0, 0, 0, 1}, {1, 1, 1, 1, 1, 1, 1, 2}, {2, 1, 1, 1, 1, 1, 1, 1}, {0, 0, 9, 0, 0, 9, 0}, {5, 5, 5, 5, 1}, {3, 9, 27, 1}};
    // every vector of up to three weights below 4 with a positive sum
    for (int a = 0; a < 4; ++a) for (int b = 0; b < 4; ++b) for (int c = 0; c < 4; ++c) if (a + b + c) v.push_back({(W)a, (W)b, (W)c});
    Rng rng(seed() * 91 + sizeof(W));
    for (int k = 0; k < nrand; ++k) {
        size_t n = 2 + rng.below(7); std::vector<W> w; u64 s = 0;
        for (size_t i = 0; i < n; ++i) { u64 x = rng.below(3) == 0 ? 0 : rng.below(12); w.push_back((W)x); s += x; }
        if (s) v.push_back(w);
    }
    // sums and partial sums that leave the type; all multiples of big, so that the law has small ratios
    W m = (W)big;
    for (auto& w : std::vector<std::vector<W>>{{m}, {m, m}, {m, m, m}, {m, 0}, {0, m}, {m, m, 0}, {m, (W)(m / 4), (W)(m / 4 * 3)}, {(W)(m / 4), m, m, 0, (W)(m / 4)}, {0, 0, m, 0}, {m, m, m, m, m, m, m}}) v.push_back(w);
    return v;
}
template<class W> void real_weights(const char* nm) {
    // zero weights are never returned, also at the extremes of the engine
    typedef SE<std::uint32_t> E; E eng; Rng rng(seed() + 5);
    std::vector<std::vector<W>> v = {{1}, {0, 1}, {1, 0}, {(W)0.1, (W)0.1, (W)0.1, (W)0.1, (W)0.1, (W)0.1, (W)0.1, (W)0.1, (W)0.1, (W)0.1, 0}, {0, (W)0.3, 0, (W)0.7, 0}, {(W)1e-30, 1, 0}, {0, (W)1e30, 1, 0}, {(W)(1 / 3.0), (W)(1 / 3.0), (W)(1 / 3.0), 0}, {(W)0.7, (W)0.2, (W)0.1, 0, 0}};
    for (int k = 0; k < (thorough() ? 400 : 40); ++k) { std::vector<W> w; size_t n = 2 + rng.below(12); for (size_t i = 0; i < n; ++i) w.push_back((W)(rng.below(3) ? rng.below(1000) / (W)997 : 0)); w[rng.below(n - 1)] = (W)1 / 3; w[n - 1] = 0; v.push_back(w); }
    E::bounds(0, 0xffffffffu);
    for (auto& w : v) {
        typedef r::discrete_distribution<int, W> D; D d(w); typename D::param_type p(w);
        std::vector<int> zero; for (size_t i = 0; i < w.size(); ++i) if (w[i] == 0) zero.push_back((int)i);
        std::vector<int> got, used;
        for (int k = 0; k < 60; ++k) {
            std::vector<u64> us; for (int j = 0; j < 12; ++j) { u64 z = rng.below(4); us.push_back(k < 1 ? 0 : z == 0 ? 0xffffffffu - rng.below(300) : z == 1 ? rng.below(3) : rng.below(0x100000000ull)); }
            if (k == 1) { us[0] = 0xffffffffu - 128; us[1] = us[0]; } if (k == 2) { us[0] = us[1] = 0xffffffffu; }
            E::script(us.data(), us.size());
            int x = -99; try { x = (k & 1) ? d(eng, p) : d(eng); } catch (Exhausted&) {}
            got.push_back(x);
        }
        typename D::param_type q = d.param(); std::vector<W> pr = d.probabilities(); std::vector<int> close;
        W s = 0; for (W x : w) s += x; for (size_t i = 0; i < w.size(); ++i) close.push_back(i < pr.size() && std::abs((long double)(pr[i] - w[i] / s)) < 1e-5);
        Ev("rdisc").is("zero", zero).i("n", (long)w.size()).is("got", got).is("close", close).i("size", (long)pr.size()).i("min", d.min()).i("max", d.max());
    }
}
template<class I, class W> void empties() {
    typedef r::discrete_distribution<I, W> D; typedef typename D::param_type P; typedef SE<std::uint32_t> E; E eng; E::bounds(0, 6);
    std::vector<W> e; P p(e.begin(), e.end()), p2(e), p3; P p4(std::initializer_list<W>{}); std::vector<D> ds = {D(), D(e.begin(), e.end()), D(e), D(p), D(p2), D(p3), D(p4), D(std::initializer_list<W>{})};
    std::vector<P> ps = {p, p2, p3, p4};
    std::vector<u64> us = {3, 6, 0, 0, 1, 2};
    std::vector<int> got, sz, eq;
    for (auto& d : ds) { E::script(us.data(), us.size()); got.push_back((int)d(eng)); sz.push_back((int)d.probabilities().size()); eq.push_back(d == D()); }
    for (auto& q : ps) { D d; E::script(us.data(), us.size()); got.push_back((int)d(eng, q)); sz.push_back((int)q.probabilities().size()); eq.push_back(q == P()); }
    Ev("empty").is("got", got).is("size", sz).is("eq", eq);
}
template<class R, class F> void bern() {
    typedef SE<R> E; E eng; typedef r::bernoulli_distribution<F> D; typedef typename D::param_type P;
    typedef typename std::make_unsigned<R>::type U;
    for (u64 B : {2, 3, 4, 5, 7, 8, 10, 16, 100, 255, 256}) {
        if (B - 1 > (u64)std::numeric_limits<U>::max()) continue;
        for (int li = 0; li < 3; ++li) {
            R lo = li == 0 ? 0 : li == 1 ? std::numeric_limits<R>::min() : (R)((U)std::numeric_limits<R>::max() - (U)(B - 1));
            if ((R)((U)lo + (U)(B - 1)) < lo) continue;
            E::bounds(lo, B - 1);
            for (int den : {1, 2, 3, 4, 5, 7, 8, 10, 16, 64, 100, 255, 256, 1000}) for (int num = 0; num <= den; num += 1 + den / (thorough() ? 20 : 5)) {
                F p = (F)num / (F)den; D d(p), d2; std::vector<int> s;
                for (u64 u = 0; u < B; ++u) for (int f = 0; f < 2; ++f) { u64 us[2] = {u, u}; E::script(us, 2); bool x = f ? d2(eng, P(p)) : d(eng); if (f == 0 && x) s.push_back((int)u); if (f == 1 && x != (!s.empty() && s.back() == (int)u)) s.push_back(-1); if (E::pos > 1) s.push_back(-2); }
                Ev("bern").i("b", (long)B).i("num", num).i("den", den).is("succ", s);
            }
        }
    }
    // wide engines: only both sides of the fraction
    u64 top = (u64)std::numeric_limits<U>::max();
    if (top > 65535) {
        E::bounds(std::numeric_limits<R>::min(), top);
        for (int den : {1, 2, 3, 4, 8, 1000}) for (int num = 0; num <= den; num += den > 8 ? 333 : 1) {
            F p = (F)num / (F)den; D d(p);
            u64 t = (u64)((u128)top * num / den), m = top >> (sizeof(F) == 4 ? 20 : 28);
            std::vector<int> below, above;
            for (u64 k : {0, 1, 2, 3}) { u64 us[1]; if (t > m + k) { us[0] = t - m - k; E::script(us, 1); below.push_back(d(eng)); us[0] = k; E::script(us, 1); below.push_back(d(eng)); }
                if (top - t > m + k) { us[0] = t + m + k; E::script(us, 1); above.push_back(d(eng)); us[0] = top - k; E::script(us, 1); above.push_back(d(eng)); } }
            Ev("bernw").is("below", below).is("above", above).i("num", num).i("den", den);
        }
    }
}
template<class I, class W> void dsec(const char* n, u64 big) {
    section(std::string("disc/") + n, [=] { weights<I, W>(vecs<W>(thorough() ? 150 : 25, big)); }, 600);
    section(std::string("empty/") + n, [=] { empties<I, W>(); });
}
int main(int argc, char** argv) {
#if PART == 0
    dsec<int, std::int32_t>("i32", 2147483644); dsec<int, std::uint8_t>("u8", 252); dsec<long, std::int8_t>("i8", 124);
#elif PART == 1
    dsec<unsigned, std::uint64_t>("u64", 0xfffffffffffffffcull); dsec<int, std::int64_t>("i64", 0x7ffffffffffffffcull); dsec<short, std::int16_t>("i16", 32764);
#elif PART == 2
    dsec<std::uint8_t, std::uint32_t>("u32", 0xfffffffcull); dsec<unsigned long, std::uint16_t>("u16", 65532);
    section("rdisc/double", [] { real_weights<double>("double"); }); section("rdisc/float", [] { real_weights<float>("float"); });
    section("empty/double", [] { empties<int, double>(); });
#else
#define BN(R) section("bern/" #R "/d", [] { bern<R, double>(); }); section("bern/" #R "/f", [] { bern<R, float>(); });
    BN(std::uint8_t) BN(std::int8_t) BN(std::uint16_t) BN(std::int16_t) BN(std::uint32_t) BN(std::int32_t) BN(std::uint64_t) BN(std::int64_t)
#endif
    return run(argc, argv);
}
