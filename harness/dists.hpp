// The catalogue of distributions: four parameter sets of each (0: the default), how to make them and
// what the accessors must say.
#ifndef VERIF_DISTS_HPP
#define VERIF_DISTS_HPP
#include "trace.hpp"
#include <cmath>
#include <limits>
#include <functional>
#include <iomanip>
#include <boost/random.hpp>
#include <boost/random/piecewise_constant_distribution.hpp>
#include <boost/random/piecewise_linear_distribution.hpp>
#include <boost/random/hyperexponential_distribution.hpp>
#include <boost/random/non_central_chi_squared_distribution.hpp>
#include <boost/random/beta_distribution.hpp>
#include <boost/random/laplace_distribution.hpp>
#include <boost/random/uniform_smallint.hpp>
#include <boost/random/uniform_int.hpp>
#include <boost/random/uniform_real.hpp>
#include <boost/random/uniform_on_sphere.hpp>
using namespace tr;
namespace r = boost::random;
typedef long double LD;
typedef std::vector<LD> VL;
static const LD INF = std::numeric_limits<LD>::infinity();

// digest of a list of numbers, 31 bits (only equality of digests is used)
inline void mix(u64& h, const std::string& s) { for (unsigned char c : s) { h ^= c; h *= 0x100000001b3ull; } h ^= 0x2c; h *= 0x100000001b3ull; }
inline void mixn(u64& h, LD v) { if (v == 0) v = 0; char b[64]; snprintf(b, sizeof b, "%La", v); mix(h, b); }
inline long fold(u64 h) { h ^= h >> 29; h *= 0x9E3779B97F4A7C15ull; return (long)(h >> 33); }
inline long digest(const VL& v) { u64 h = 0xcbf29ce484222325ull; for (LD x : v) mixn(h, x); return fold(h); }
template<class T> VL vals(const T& v) { return VL(1, (LD)v); }
template<class T> VL vals(const std::vector<T>& v) { return VL(v.begin(), v.end()); }
inline VL operator+(VL a, const VL& b) { a.insert(a.end(), b.begin(), b.end()); return a; }
inline VL sized(const VL& v) { return VL(1, (LD)v.size()) + v; }

template<class D> struct Ent {
    typedef typename D::param_type P;
    std::string name;
    std::vector<std::function<D()>> mk;      // from the arguments
    std::vector<std::function<P()>> mkp;
    std::vector<VL> want;                    // what the accessors must say, for param_type
    std::vector<VL> lim;                     // min(), max()
    std::function<VL(const D&)> acc;
    std::function<VL(const P&)> accp;
    std::vector<std::string> bad;            // texts that name no valid set
    std::vector<std::pair<std::string, int>> named;   // other texts that name a set
    bool percall = true;                     // d(eng, param) is the draw of a distribution with that param
    int digits = 21;
    VL all(int v) const { return want[v] + lim[v]; }
};
template<class D> VL limits_of(const D& d) { return vals((d.min)()) + vals((d.max)()); }

// distributions with two, one or three arguments
template<class D, class A, class B, class FA, class FB, class ML>
Ent<D> two(const char* nm, std::vector<std::pair<A, B>> ps, FA fa, FB fb, ML ml) {
    typedef typename D::param_type P; Ent<D> e; e.name = nm;
    for (size_t i = 0; i < ps.size(); ++i) {
        A a = ps[i].first; B b = ps[i].second;
        if (i == 0) { e.mk.push_back([] { return D(); }); e.mkp.push_back([] { return P(); }); }
        else { e.mk.push_back([=] { return D(a, b); }); e.mkp.push_back([=] { return P(a, b); }); }
        e.want.push_back(vals(a) + vals(b)); e.lim.push_back(ml(a, b));
    }
    e.acc = [=](const D& d) { return vals(fa(d)) + vals(fb(d)) + limits_of(d); };
    e.accp = [=](const P& p) { return vals(fa(p)) + vals(fb(p)); };
    return e;
}
template<class D, class A, class FA, class ML>
Ent<D> one(const char* nm, std::vector<A> ps, FA fa, ML ml) {
    typedef typename D::param_type P; Ent<D> e; e.name = nm;
    for (size_t i = 0; i < ps.size(); ++i) {
        A a = ps[i];
        if (i == 0) { e.mk.push_back([] { return D(); }); e.mkp.push_back([] { return P(); }); }
        else { e.mk.push_back([=] { return D(a); }); e.mkp.push_back([=] { return P(a); }); }
        e.want.push_back(vals(a)); e.lim.push_back(ml(a));
    }
    e.acc = [=](const D& d) { return vals(fa(d)) + limits_of(d); };
    e.accp = [=](const P& p) { return vals(fa(p)); };
    return e;
}
#define GET(f) [](const auto& x) { return x.f(); }
#define BOTH(lo, hi) [](auto, auto) { return VL{(LD)(lo), (LD)(hi)}; }
#define SOLE(lo, hi) [](auto) { return VL{(LD)(lo), (LD)(hi)}; }

// the deprecated classes of namespace boost have no param_type of their own
template<class R> struct OldLog : boost::lognormal_distribution<R> {
    typedef boost::lognormal_distribution<R> B;
    struct param_type { R m, s; param_type(R a = 1, R b = 1) : m(a), s(b) {} R mean() const { return m; } R sigma() const { return s; }
        friend bool operator==(const param_type& x, const param_type& y) { return x.m == y.m && x.s == y.s; } friend bool operator!=(const param_type& x, const param_type& y) { return !(x == y); }
        template<class C> friend std::basic_ostream<C>& operator<<(std::basic_ostream<C>& o, const param_type& p) { return o << p.m << ' ' << p.s; }
        template<class C> friend std::basic_istream<C>& operator>>(std::basic_istream<C>& i, param_type& p) { return i >> p.m >> std::ws >> p.s; } };
    OldLog(R a = 1, R b = 1) : B(a, b) {} explicit OldLog(const param_type& p) : B(p.m, p.s) {}
    param_type param() const { return param_type(this->mean(), this->sigma()); } void param(const param_type& p) { *this = OldLog(p); }
    R min() const { return 0; } R max() const { return (R)INF; }
    template<class E> R operator()(E& e) { return B::operator()(e); } template<class E> R operator()(E& e, const param_type& p) { return OldLog(p)(e); }
    friend bool operator==(const OldLog& x, const OldLog& y) { return x.param() == y.param(); } friend bool operator!=(const OldLog& x, const OldLog& y) { return !(x == y); }
};
template<class I, class R> struct OldGeo : boost::geometric_distribution<I, R> {
    typedef boost::geometric_distribution<I, R> B;
    struct param_type { R q; param_type(R a = R(0.5)) : q(a) {} R p() const { return q; }
        friend bool operator==(const param_type& x, const param_type& y) { return x.q == y.q; } friend bool operator!=(const param_type& x, const param_type& y) { return !(x == y); }
        template<class C> friend std::basic_ostream<C>& operator<<(std::basic_ostream<C>& o, const param_type& p) { return o << p.q; }
        template<class C> friend std::basic_istream<C>& operator>>(std::basic_istream<C>& i, param_type& p) { R v; if (i >> v) { if (v > 0 && v < 1) p.q = v; else i.setstate(std::ios_base::failbit); } return i; } };
    OldGeo(R a = R(0.5)) : B(a) {} explicit OldGeo(const param_type& p) : B(p.q) {}
    param_type param() const { return param_type(this->p()); } void param(const param_type& p) { *this = OldGeo(p); }
    I min() const { return 1; } I max() const { return std::numeric_limits<I>::max(); }
    template<class E> I operator()(E& e) { return B::operator()(e); } template<class E> I operator()(E& e, const param_type& p) { return OldGeo(p)(e); }
    friend bool operator==(const OldGeo& x, const OldGeo& y) { return x.param() == y.param(); } friend bool operator!=(const OldGeo& x, const OldGeo& y) { return !(x == y); }
};

#define UP(D) template<class F> void each_##D(F f)
template<class R> using PR = std::vector<std::pair<R, R>>;
// the families over a real type R; f is called with every entry
template<int H, class R, class F> void real_families(const char* rn, F f) {
    std::string t = std::string("<") + rn + ">"; int dg = std::numeric_limits<R>::max_digits10;
    auto put = [&](auto e) { e.name += t; e.digits = dg; f(e); };
    // next to each family with two parameters: the four sets that share one or both of two values
#define PUT2(D, nm, ps, ...) do { auto q_ = ps; put(two<D>(nm, q_, __VA_ARGS__)); \
        put(two<D>(nm "_near", decltype(q_){q_[0], {q_[0].first, q_[1].second}, {q_[1].first, q_[0].second}, q_[1]}, __VA_ARGS__)); } while (0)
    R x3 = R(1) / 3, x7 = R(22) / 7, big = R(1e6) / 3, tiny = R(1) / 777777;
    if constexpr (H == 0) {
    PUT2(r::normal_distribution<R>, "normal", (PR<R>{{0, 1}, {x3, x7}, {-big, tiny}, {1, 1}}), GET(mean), GET(sigma), BOTH(-INF, INF));
    PUT2(r::cauchy_distribution<R>, "cauchy", (PR<R>{{0, 1}, {x3, x7}, {-big, tiny}, {1, 1}}), GET(median), GET(sigma), BOTH(-INF, INF));
    PUT2(r::laplace_distribution<R>, "laplace", (PR<R>{{0, 1}, {x3, x7}, {-big, tiny}, {1, 1}}), GET(mean), GET(beta), BOTH(-INF, INF));
    PUT2(r::extreme_value_distribution<R>, "extreme_value", (PR<R>{{1, 1}, {x3, x7}, {-big, tiny}, {0, 1}}), GET(a), GET(b), BOTH(-INF, INF));
    PUT2(r::lognormal_distribution<R>, "lognormal", (PR<R>{{0, 1}, {x3, x7}, {-x7, tiny}, {1, 1}}), GET(m), GET(s), BOTH(0, INF));
    PUT2(OldLog<R>, "old_lognormal", (PR<R>{{1, 1}, {x3, x7}, {x7, tiny}, {1, 2}}), GET(mean), GET(sigma), BOTH(0, INF));
    PUT2(r::weibull_distribution<R>, "weibull", (PR<R>{{1, 1}, {x3, x7}, {x7, tiny}, {2, 1}}), GET(a), GET(b), BOTH(0, INF));
    PUT2(r::beta_distribution<R>, "beta", (PR<R>{{1, 1}, {x3, x7}, {x7, x3}, {2, 1}}), GET(alpha), GET(beta), BOTH(0, 1));
    PUT2(r::gamma_distribution<R>, "gamma", (PR<R>{{1, 1}, {x3, x7}, {big, tiny}, {2, 1}}), GET(alpha), GET(beta), BOTH(0, INF));
    PUT2(r::fisher_f_distribution<R>, "fisher_f", (PR<R>{{1, 1}, {x3, x7}, {x7, x3}, {2, 1}}), GET(m), GET(n), BOTH(0, INF));
    PUT2(r::non_central_chi_squared_distribution<R>, "non_central", (PR<R>{{1, 1}, {x3, x7}, {x7, x3}, {2, 1}}), GET(k), GET(lambda), BOTH(0, INF));
    } else if constexpr (H == 1) {
    put(one<r::chi_squared_distribution<R>>("chi_squared", std::vector<R>{1, x3, x7, 2}, GET(n), SOLE(0, INF)));
    put(one<r::student_t_distribution<R>>("student_t", std::vector<R>{1, x3, x7, 2}, GET(n), SOLE(-INF, INF)));
    put(one<r::exponential_distribution<R>>("exponential", std::vector<R>{1, x3, big, 2}, GET(lambda), SOLE(0, INF)));
    put(one<r::bernoulli_distribution<R>>("bernoulli", std::vector<R>{R(0.5), x3, 0, 1}, GET(p), SOLE(0, 1)));
    { auto e = two<r::uniform_real_distribution<R>>("uniform_real", PR<R>{{0, 1}, {x3, x7}, {-big, tiny}, {1, 2}}, GET(a), GET(b), [](R a, R b) { return VL{(LD)a, (LD)b}; });
      e.bad = {"2 1", "0.5 0.25"}; put(e); }
    put(two<r::uniform_real_distribution<R>>("uniform_real_near", PR<R>{{0, 1}, {0, x7}, {x3, 1}, {x3, x7}}, GET(a), GET(b), [](R a, R b) { return VL{(LD)a, (LD)b}; }));
    { auto e = two<boost::uniform_real<R>>("old_uniform_real", PR<R>{{0, 1}, {x3, x7}, {-big, tiny}, {1, 2}}, GET(a), GET(b), [](R a, R b) { return VL{(LD)a, (LD)b}; });
      e.bad = {"2 1"}; put(e); }
    { typedef r::triangle_distribution<R> D; typedef typename D::param_type P; Ent<D> e; e.name = "triangle"; std::vector<std::vector<R>> ps = {{0, R(0.5), 1}, {x3, x7, big}, {-1, -1, 1}, {-1, 1, 1}};
      for (size_t i = 0; i < 4; ++i) { auto p = ps[i]; if (!i) { e.mk.push_back([] { return D(); }); e.mkp.push_back([] { return P(); }); } else { e.mk.push_back([=] { return D(p[0], p[1], p[2]); }); e.mkp.push_back([=] { return P(p[0], p[1], p[2]); }); }
        e.want.push_back(vals(p)); e.lim.push_back(VL{(LD)p[0], (LD)p[2]}); }
      e.acc = [](const D& d) { return VL{(LD)d.a(), (LD)d.b(), (LD)d.c(), (LD)(d.min)(), (LD)(d.max)()}; }; e.accp = [](const P& d) { return VL{(LD)d.a(), (LD)d.b(), (LD)d.c()}; };
      e.bad = {"2 1 3", "0 4 3", "3 2 1"}; put(e); }
    { typedef r::triangle_distribution<R> D; typedef typename D::param_type P; Ent<D> e; e.name = "triangle_near"; std::vector<std::vector<R>> ps = {{0, R(0.5), 1}, {0, R(0.5), 2}, {0, R(0.25), 1}, {-1, R(0.5), 1}};
      for (size_t i = 0; i < 4; ++i) { auto p = ps[i]; if (!i) { e.mk.push_back([] { return D(); }); e.mkp.push_back([] { return P(); }); } else { e.mk.push_back([=] { return D(p[0], p[1], p[2]); }); e.mkp.push_back([=] { return P(p[0], p[1], p[2]); }); }
        e.want.push_back(vals(p)); e.lim.push_back(VL{(LD)p[0], (LD)p[2]}); }
      e.acc = [](const D& d) { return VL{(LD)d.a(), (LD)d.b(), (LD)d.c(), (LD)(d.min)(), (LD)(d.max)()}; }; e.accp = [](const P& d) { return VL{(LD)d.a(), (LD)d.b(), (LD)d.c()}; };
      e.bad = {"2 1 3", "0 4 3", "3 2 1"}; put(e); }
    { typedef r::uniform_on_sphere<R> D; auto e = one<D>("sphere", std::vector<int>{2, 1, 3, 5}, GET(dim), [](int n) { VL v(2 * n); v[0] = -1; v[n] = 1; return v; }); put(e); }
    { typedef r::uniform_on_sphere<R> D; auto e = one<D>("sphere0", std::vector<int>{2, 0, 4, 9}, GET(dim), [](int n) { VL v(2 * n); if (n) { v[0] = -1; v[n] = 1; } return v; }); put(e); }
    } else {
    // real weights: sets whose normalized weights are exact
    typedef std::vector<R> V;
    { typedef r::discrete_distribution<int, R> D; typedef typename D::param_type P; Ent<D> e; e.name = "discrete"; std::vector<V> ws = {{1}, {1, 3, 2, 2}, {0, R(0.125), 0, R(0.375)}, {1, 1, 0, 0, 1, 3, 2, 0}};
      for (size_t i = 0; i < 4; ++i) { V w = ws[i]; if (!i) { e.mk.push_back([] { return D(); }); e.mkp.push_back([] { return P(); }); } else { e.mk.push_back([=] { return D(w); }); e.mkp.push_back([=] { return P(w.begin(), w.end()); }); }
        R s = 0; for (R x : w) s += x; VL q; for (R x : w) q.push_back(x / s); e.want.push_back(sized(q)); e.lim.push_back(VL{0, (LD)w.size() - 1}); }
      e.acc = [](const D& d) { return sized(vals(d.probabilities())) + limits_of(d); }; e.accp = [](const P& d) { return sized(vals(d.probabilities())); }; e.percall = false; e.named = {{"[]", 0}, {"[ ]", 0}, {"\t[0.125 0.375  0.25\n0.25 ]", 1}}; put(e); }
    { typedef r::discrete_distribution<int, R> D; typedef typename D::param_type P; Ent<D> e; e.name = "discrete_near"; std::vector<V> ws = {{1}, {1, 3}, {3, 1}, {1, 1}};
      for (size_t i = 0; i < 4; ++i) { V w = ws[i]; if (!i) { e.mk.push_back([] { return D(); }); e.mkp.push_back([] { return P(); }); } else { e.mk.push_back([=] { return D(w); }); e.mkp.push_back([=] { return P(w.begin(), w.end()); }); }
        R s = 0; for (R x : w) s += x; VL q; for (R x : w) q.push_back(x / s); e.want.push_back(sized(q)); e.lim.push_back(VL{0, (LD)w.size() - 1}); }
      e.acc = [](const D& d) { return sized(vals(d.probabilities())) + limits_of(d); }; e.accp = [](const P& d) { return sized(vals(d.probabilities())); }; e.percall = false; e.named = {{"[]", 0}, {"[ ]", 0}, {"\t[0.125 0.375  0.25\n0.25 ]", 1}}; put(e); }
    { typedef r::hyperexponential_distribution<R> D; typedef typename D::param_type P; Ent<D> e; e.name = "hyperexponential"; std::vector<std::pair<V, V>> ws = {{{1}, {1}}, {{1, 3}, {x3, x7}}, {{R(0.25), R(0.25), R(0.5)}, {big, 1, tiny}}, {{1, 1, 1, 1}, {1, 2, 3, 4}}};
      for (size_t i = 0; i < 4; ++i) { V w = ws[i].first, q = ws[i].second; if (!i) { e.mk.push_back([] { return D(); }); e.mkp.push_back([] { return P(); }); }
        else if (i == 3) { e.mk.push_back([=] { return D(q); }); e.mkp.push_back([=] { return P(q.begin(), q.end()); }); }
        else { e.mk.push_back([=] { return D(w, q); }); e.mkp.push_back([=] { return P(w.begin(), w.end(), q.begin(), q.end()); }); }
        R s = 0; for (R x : w) s += x; VL n; for (R x : w) n.push_back(x / s); e.want.push_back(sized(n) + sized(vals(q))); e.lim.push_back(VL{0, INF}); }
      e.acc = [](const D& d) { return sized(vals(d.probabilities())) + sized(vals(d.rates())) + limits_of(d); }; e.accp = [](const P& d) { return sized(vals(d.probabilities())) + sized(vals(d.rates())); }; put(e); }
    { typedef r::hyperexponential_distribution<R> D; typedef typename D::param_type P; Ent<D> e; e.name = "hyperexponential_near"; std::vector<std::pair<V, V>> ws = {{{1}, {1}}, {{1, 3}, {1, 2}}, {{3, 1}, {1, 2}}, {{1, 1}, {1, 4}}};
      for (size_t i = 0; i < 4; ++i) { V w = ws[i].first, q = ws[i].second; if (!i) { e.mk.push_back([] { return D(); }); e.mkp.push_back([] { return P(); }); }
        else if (i == 3) { e.mk.push_back([=] { return D(q); }); e.mkp.push_back([=] { return P(q.begin(), q.end()); }); }
        else { e.mk.push_back([=] { return D(w, q); }); e.mkp.push_back([=] { return P(w.begin(), w.end(), q.begin(), q.end()); }); }
        R s = 0; for (R x : w) s += x; VL n; for (R x : w) n.push_back(x / s); e.want.push_back(sized(n) + sized(vals(q))); e.lim.push_back(VL{0, INF}); }
      e.acc = [](const D& d) { return sized(vals(d.probabilities())) + sized(vals(d.rates())) + limits_of(d); }; e.accp = [](const P& d) { return sized(vals(d.probabilities())) + sized(vals(d.rates())); }; put(e); }
    { typedef r::piecewise_constant_distribution<R, R> D; typedef typename D::param_type P; Ent<D> e; e.name = "piecewise_constant"; std::vector<std::pair<V, V>> ws = {{{0, 1}, {1}}, {{-1, 0, 2, 3, 4}, {R(0.125), R(0.375), R(0.25), R(0.25)}}, {{x3, x3 + 2, x3 + 4}, {R(0.5), R(0.5)}}, {{0, 1, 3}, {R(0.25), R(0.75)}}};
      for (size_t i = 0; i < 4; ++i) { V x = ws[i].first, w = ws[i].second; if (!i) { e.mk.push_back([] { return D(); }); e.mkp.push_back([] { return P(); }); } else { e.mk.push_back([=] { return D(x.begin(), x.end(), w.begin()); }); e.mkp.push_back([=] { return P(x, w); }); }
        VL n; for (size_t k = 0; k < w.size(); ++k) n.push_back(R(w[k] / (x[k + 1] - x[k]))); e.want.push_back(sized(vals(x)) + sized(n)); e.lim.push_back(VL{(LD)x.front(), (LD)x.back()}); }
      e.acc = [](const D& d) { return sized(vals(d.intervals())) + sized(vals(d.densities())) + limits_of(d); }; e.accp = [](const P& d) { return sized(vals(d.intervals())) + sized(vals(d.densities())); };
      e.bad = {"[0 1 2] [1]", "[0 1] [1 1]", "[] []", "[0] []"}; put(e); }
    { typedef r::piecewise_constant_distribution<R, R> D; typedef typename D::param_type P; Ent<D> e; e.name = "piecewise_constant_near"; std::vector<std::pair<V, V>> ws = {{{0, 1}, {1}}, {{0, 1, 2}, {R(0.25), R(0.75)}}, {{0, 1, 2}, {R(0.75), R(0.25)}}, {{0, 1, 3}, {R(0.25), R(0.75)}}};
      for (size_t i = 0; i < 4; ++i) { V x = ws[i].first, w = ws[i].second; if (!i) { e.mk.push_back([] { return D(); }); e.mkp.push_back([] { return P(); }); } else { e.mk.push_back([=] { return D(x.begin(), x.end(), w.begin()); }); e.mkp.push_back([=] { return P(x, w); }); }
        VL n; for (size_t k = 0; k < w.size(); ++k) n.push_back(R(w[k] / (x[k + 1] - x[k]))); e.want.push_back(sized(vals(x)) + sized(n)); e.lim.push_back(VL{(LD)x.front(), (LD)x.back()}); }
      e.acc = [](const D& d) { return sized(vals(d.intervals())) + sized(vals(d.densities())) + limits_of(d); }; e.accp = [](const P& d) { return sized(vals(d.intervals())) + sized(vals(d.densities())); };
      e.bad = {"[0 1 2] [1]", "[0 1] [1 1]", "[] []", "[0] []"}; put(e); }
    { typedef r::piecewise_linear_distribution<R> D; typedef typename D::param_type P; Ent<D> e; e.name = "piecewise_linear"; std::vector<std::pair<V, V>> ws = {{{0, 1}, {1, 1}}, {{-1, 0, 2, 3}, {1, 2, R(0.5), R(0.25)}}, {{x3, x3 + 2}, {0, 1}}, {{0, 1, 3}, {1, 3, 1}}};
      for (size_t i = 0; i < 4; ++i) { V x = ws[i].first, w = ws[i].second; if (!i) { e.mk.push_back([] { return D(); }); e.mkp.push_back([] { return P(); }); } else { e.mk.push_back([=] { return D(x.begin(), x.end(), w.begin()); }); e.mkp.push_back([=] { return P(x, w); }); }
        R s = 0; for (size_t k = 0; k + 1 < x.size(); ++k) s += (w[k] + w[k + 1]) * R(x[k + 1] - x[k]) / 2; VL n; for (R y : w) n.push_back(R(y / s)); e.want.push_back(sized(vals(x)) + sized(n)); e.lim.push_back(VL{(LD)x.front(), (LD)x.back()}); }
      e.acc = [](const D& d) { return sized(vals(d.intervals())) + sized(vals(d.densities())) + limits_of(d); }; e.accp = [](const P& d) { return sized(vals(d.intervals())) + sized(vals(d.densities())); };
      e.bad = {"[0 1 2] [1 1]", "[0 1] [1]", "[] []", "[0] [1]"}; put(e); }
    { typedef r::piecewise_linear_distribution<R> D; typedef typename D::param_type P; Ent<D> e; e.name = "piecewise_linear_near"; std::vector<std::pair<V, V>> ws = {{{0, 1}, {1, 1}}, {{0, 1, 2}, {1, 2, 3}}, {{0, 1, 2}, {3, 2, 1}}, {{0, 1, 5}, {1, 2, 3}}};
      for (size_t i = 0; i < 4; ++i) { V x = ws[i].first, w = ws[i].second; if (!i) { e.mk.push_back([] { return D(); }); e.mkp.push_back([] { return P(); }); } else { e.mk.push_back([=] { return D(x.begin(), x.end(), w.begin()); }); e.mkp.push_back([=] { return P(x, w); }); }
        R s = 0; for (size_t k = 0; k + 1 < x.size(); ++k) s += (w[k] + w[k + 1]) * R(x[k + 1] - x[k]) / 2; VL n; for (R y : w) n.push_back(R(y / s)); e.want.push_back(sized(vals(x)) + sized(n)); e.lim.push_back(VL{(LD)x.front(), (LD)x.back()}); }
      e.acc = [](const D& d) { return sized(vals(d.intervals())) + sized(vals(d.densities())) + limits_of(d); }; e.accp = [](const P& d) { return sized(vals(d.intervals())) + sized(vals(d.densities())); };
      e.bad = {"[0 1 2] [1 1]", "[0 1] [1]", "[] []", "[0] [1]"}; put(e); }
    }
}
template<class I, class F> void uniform_ints(const char* in, F f) {
    std::string t = std::string("<") + in + ">"; typedef std::vector<std::pair<I, I>> PI; I mn = std::numeric_limits<I>::min(), mx = std::numeric_limits<I>::max(); bool sg = mn < 0;
    auto put = [&](auto e) { e.name += t; f(e); };
    auto ml = [](I a, I b) { return VL{(LD)a, (LD)b}; };
    { auto e = two<r::uniform_int_distribution<I>>("uniform_int", PI{{0, mx}, {mn, I(mx / 3)}, {5, 5}, {I(sg ? -9 : 9), 12345}}, GET(a), GET(b), ml); e.bad = {"3 2", "5 4"}; put(e); }
    { auto e = two<boost::uniform_int<I>>("old_uniform_int", PI{{0, 9}, {mn, mx}, {5, 5}, {3, I(mx / 3)}}, GET(a), GET(b), ml); e.bad = {"3 2"}; put(e); }
    put(two<r::uniform_int_distribution<I>>("uniform_int_near", PI{{0, mx}, {0, I(mx / 3)}, {7, mx}, {7, I(mx / 3)}}, GET(a), GET(b), ml));
    put(two<r::uniform_smallint<I>>("uniform_smallint_near", PI{{0, 9}, {0, 100}, {7, 9}, {7, 100}}, GET(a), GET(b), ml));
    { auto e = two<r::uniform_smallint<I>>("uniform_smallint", PI{{0, 9}, {I(sg ? -20 : 20), 100}, {5, 5}, {3, 1000}}, GET(a), GET(b), ml); put(e); }
}
template<class I, class R, class F> void int_families(const char* in, F f) {
    std::string t = std::string("<") + in + ">"; int dg = std::numeric_limits<R>::max_digits10; auto put = [&](auto e) { e.name += t; e.digits = dg; f(e); };
    typedef std::vector<std::pair<I, R>> PI; typedef r::binomial_distribution<I, R> BINO; typedef r::negative_binomial_distribution<I, R> NEGB; LD mx = std::numeric_limits<I>::max(); R x3 = R(1) / 3;
    PUT2(BINO, "binomial", (PI{{1, R(0.5)}, {9, x3}, {1000, R(0.7)}, {1000, R(0.02)}}), GET(t), GET(p), [](I t, R) { return VL{0, (LD)t}; });
    PUT2(BINO, "binomial_edges", (PI{{1, R(0.5)}, {100, 0}, {0, x3}, {70, 1}}), GET(t), GET(p), [](I t, R) { return VL{0, (LD)t}; });
    PUT2(NEGB, "negative_binomial", (PI{{1, R(0.5)}, {3, x3}, {20, R(0.7)}, {1, R(0.25)}}), GET(k), GET(p), [=](I, R) { return VL{0, mx}; });
    put(one<r::poisson_distribution<I, R>>("poisson", std::vector<R>{1, x3, R(1000) / 7, 12}, GET(mean), [=](R) { return VL{0, mx}; }));
    { auto e = one<r::geometric_distribution<I, R>>("geometric", std::vector<R>{R(0.5), x3, R(0.01), R(0.75)}, GET(p), [=](R) { return VL{0, mx}; }); e.bad = {"2", "-0.5", "0", "1"}; put(e); }
    { auto e = one<OldGeo<I, R>>("old_geometric", std::vector<R>{R(0.5), R(0.25), R(0.03125), R(0.75)}, GET(p), [=](R) { return VL{1, mx}; }); e.bad = {"2", "-0.5", "0", "1"}; put(e); }
}
template<class I, class W, class F> void int_weights(const char* in, F f) {
    typedef r::discrete_distribution<I, W> D; typedef typename D::param_type P; typedef std::vector<W> V; Ent<D> e; e.name = std::string("discrete<") + in + ">"; W mx = std::numeric_limits<W>::max();
    std::vector<V> ws = {{1}, {3, 0, 7, 1, 5}, {0, 0, W(mx / 5), W(mx / 7), 1}, {7, 7, 7}};
    for (size_t i = 0; i < 4; ++i) { V w = ws[i]; if (!i) { e.mk.push_back([] { return D(); }); e.mkp.push_back([] { return P(); }); } else { e.mk.push_back([=] { return D(w.begin(), w.end()); }); e.mkp.push_back([=] { return P(w); }); }
        e.want.push_back(sized(vals(w))); e.lim.push_back(VL{0, (LD)w.size() - 1}); }
    e.acc = [](const D& d) { return sized(vals(d.probabilities())) + limits_of(d); }; e.accp = [](const P& d) { return sized(vals(d.probabilities())); }; e.percall = false; e.named = {{"[]", 0}, {"[3 0  7 1\n5]", 1}}; f(e);
}
static const int PARTS = 14;
template<int K, class F> void part(F f) {
    if constexpr (K < 3) real_families<K, double>("double", f);
    else if constexpr (K < 6) real_families<K - 3, float>("float", f);
    else if constexpr (K < 9) real_families<K - 6, long double>("long double", f);
    else if constexpr (K == 9) { uniform_ints<int>("int", f); uniform_ints<std::uint64_t>("u64", f); }
    else if constexpr (K == 10) { uniform_ints<short>("short", f); uniform_ints<std::int64_t>("i64", f); }
    else if constexpr (K == 11) int_families<int, double>("int", f);
    else if constexpr (K == 12) int_families<long, float>("long", f);
    else { int_weights<int, int>("int,int", f); int_weights<unsigned char, std::uint64_t>("uchar,u64", f); int_weights<long, unsigned short>("long,ushort", f); }
}
#endif
