// Generic access to engines: types from engines.inc, values as exact integers.
#ifndef VERIF_ENG_HPP
#define VERIF_ENG_HPP
#include "trace.hpp"
#include <boost/random/linear_congruential.hpp>
#include <boost/random/mersenne_twister.hpp>
#include <boost/random/subtract_with_carry.hpp>
#include <boost/random/lagged_fibonacci.hpp>
#include <boost/random/linear_feedback_shift.hpp>
#include <boost/random/inversive_congruential.hpp>
#include <boost/random/mixmax.hpp>
#include <boost/random/splitmix64.hpp>
#include <boost/random/discard_block.hpp>
#include <boost/random/shuffle_order.hpp>
#include <boost/random/shuffle_output.hpp>
#include <boost/random/xor_combine.hpp>
#include <boost/random/additive_combine.hpp>
#include <boost/random/independent_bits.hpp>
#include <boost/random/ranlux.hpp>
#include <boost/random/taus88.hpp>
#include <boost/random/seed_seq.hpp>
#include <cmath>
#include <type_traits>
using namespace tr;

#ifndef NPARTS
#define NPARTS 1
#define THISPART 0
#endif
#define PART(i) ((i) % NPARTS == THISPART)

// a value of an engine as an integer; real engines give k / 2^real
template<class T> u64 as_int(T v, int real, std::true_type) { (void)real; return (u64)v; }
template<class T> u64 as_int(T v, int real, std::false_type) {
    long double x = std::ldexp((long double)v, real);
    if (!(x >= 0) || x != std::floor(x) || x >= 18446744073709551616.0L) return ~0ull - 1;   // not of the right form: no specification value matches
    return (u64)x;
}
template<class T> u64 as_int(T v, int real) { return as_int(v, real, std::integral_constant<bool, std::is_integral<T>::value>()); }

template<class E> auto has_iter_(int) -> decltype(std::declval<E&>().seed(std::declval<std::vector<std::uint32_t>::const_iterator&>(), std::declval<std::vector<std::uint32_t>::const_iterator>()), std::true_type());
template<class E> std::false_type has_iter_(...);
template<class E> struct has_iter : decltype(has_iter_<E>(0)) {};

// a seed sequence handing out given words / the arithmetic words of the specification
struct WordSeq {
    typedef std::uint32_t result_type;
    std::vector<std::uint32_t> w;
    template<class It> void generate(It f, It l) { size_t i = 0; for (; f != l; ++f) *f = i < w.size() ? w[i++] : 0; }
};
struct ArithSeq {
    typedef std::uint32_t result_type;
    std::uint32_t s;
    static std::uint32_t at(std::uint32_t s, std::uint32_t j) { return j * 2654435769u + s; }   // j from 1
    template<class It> void generate(It f, It l) { std::uint32_t j = 1; for (; f != l; ++f) *f = at(s, j++); }
};

struct EngInfo { const char* name; int sb, real, buf; const char* tags;
    std::vector<u64> nums(const char* t) const {      // tag "t:1,2,3"
        std::string a = std::string(" ") + tags, k = std::string(" ") + t + ":"; std::vector<u64> v; size_t p = a.find(k); if (p == std::string::npos) return v;
        p += k.size(); while (p < a.size() && a[p] != ' ') { v.push_back(strtoull(a.c_str() + p, 0, 10)); while (p < a.size() && a[p] != ',' && a[p] != ' ') ++p; if (p < a.size() && a[p] == ',') ++p; }
        return v; }
    bool tag(const char* t) const { std::string a = std::string(" ") + tags + " "; return a.find(std::string(" ") + t + " ") != std::string::npos; } };

// the words an iterator range holds
template<class E> void seed_iter(E& e, const std::vector<std::uint32_t>& w, size_t& used, bool ctor) {
    auto f = w.begin(); auto l = w.end();
    if (ctor) { E t(f, l); e = t; } else e.seed(f, l);
    used = f - w.begin();
}
#endif
