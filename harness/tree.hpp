// Engines that hand out prescribed values, and the exhaustive decision tree of a draw.
#ifndef VERIF_TREE_HPP
#define VERIF_TREE_HPP
#include "trace.hpp"
#include <map>
#include <cmath>
#include <limits>
#include <type_traits>
namespace tr {
struct Exhausted {};
// an engine of result type R whose values are lo + digit, for a digit string set by the harness;
// asking for more than the string holds throws Exhausted
template<class R, int TAG = 0>
struct SE {
    typedef R result_type;
    static R lo, hi;
    static const u64* d; static size_t n, pos;
    static R min() { return lo; }
    static R max() { return hi; }
    R operator()() {
        if (pos == n) throw Exhausted();
        return from(d[pos++]);
    }
    static R from(u64 x) { typedef typename std::make_unsigned<R>::type U; return (R)(U)((U)lo + (U)x); }
    static void script(const u64* p, size_t k) { d = p; n = k; pos = 0; }
    static void bounds(R l, u64 brange) { lo = l; hi = from(brange); }
};
template<class R, int T> R SE<R, T>::lo; template<class R, int T> R SE<R, T>::hi;
template<class R, int T> const u64* SE<R, T>::d; template<class R, int T> size_t SE<R, T>::n; template<class R, int T> size_t SE<R, T>::pos;

// a real engine on [0,1): the values are digit / 2^bits (or the prescribed values themselves)
template<class R>
struct SR {
    typedef R result_type;
    static const u64* d; static size_t n, pos; static int bits;
    static R min() { return 0; }
    static R max() { return 1; }
    R operator()() { if (pos == n) throw Exhausted(); return std::ldexp((R)d[pos++], -bits); }
    static void script(const u64* p, size_t k) { d = p; n = k; pos = 0; }
};
template<class R> const u64* SR<R>::d; template<class R> size_t SR<R>::n; template<class R> size_t SR<R>::pos; template<class R> int SR<R>::bits;

// the decision tree of draw() (a value as u64) over all digit strings of at most depth digits below B
struct Tree {
    std::vector<std::map<u64, u64>> lev;      // lev[k][v]: number of strings of length k that end in value v
    u64 open = 0; bool nondet = false;
    template<class Eng, class F> void explore(u64 B, size_t depth, F draw) {
        lev.assign(depth + 1, {}); open = 0;
        std::vector<u64> s;
        step<Eng>(B, depth, draw, s);
    }
    template<class Eng, class F> void step(u64 B, size_t depth, F& draw, std::vector<u64>& s) {
        Eng::script(s.data(), s.size());
        u64 v = 0; bool done = true;
        try { v = draw(); } catch (Exhausted&) { done = false; }
        if (done) {
            if (Eng::pos != s.size()) nondet = true;
            ++lev[s.size()][v];
        } else if (s.size() == depth) ++open;
        else for (u64 x = 0; x < B; ++x) { s.push_back(x); step<Eng>(B, depth, draw, s); s.pop_back(); }
    }
    void emit(Ev& e) const {
        std::string t = "[";
        for (size_t k = 0; k < lev.size(); ++k) {
            if (k) t += ",";
            u64 mn = ~0ull, mx = 0, vmax = 0, tot = 0; 
            for (auto& p : lev[k]) { mn = std::min(mn, p.second); mx = std::max(mx, p.second); vmax = std::max(vmax, p.first); tot += p.second; }
            if (lev[k].empty()) mn = 0;
            t += "{\"d\":" + std::to_string(lev[k].size()) + ",\"mn\":" + std::to_string(mn) + ",\"mx\":" + std::to_string(mx) + ",\"tot\":" + std::to_string(tot) + ",\"top\":" + limbs(vmax);
            if (lev[k].size() <= 300) {
                t += ",\"v\":["; bool f = true;
                for (auto& p : lev[k]) { if (!f) t += ","; f = false; t += limbs(p.first); }
                t += "],\"c\":["; f = true;
                for (auto& p : lev[k]) { if (!f) t += ","; f = false; t += std::to_string(p.second); }
                t += "]";
            }
            t += "}";
        }
        e.raw("lev", t + "]").i("open", (long)open).b("nondet", nondet);
    }
};
inline size_t depth_for(u64 B, u64 budget) { size_t d = 0; u64 p = 1; while (p <= budget / B) { p *= B; ++d; } return d; }
}
#endif
