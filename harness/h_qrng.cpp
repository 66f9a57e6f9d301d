// Replays the histories of QrngGen on the quasi-random engines.
#include "trace.hpp"
#include <boost/random/sobol.hpp>
#include <boost/random/niederreiter_base2.hpp>
#include <boost/random/faure.hpp>
#include <map>
#include <deque>
#include <fstream>
#include <cmath>
using namespace tr;
struct Op { std::string k; int o; std::string a; };
static std::vector<std::vector<Op>> scripts() {
    std::vector<std::vector<Op>> r; std::ifstream f(getenv("VERIF_SCRIPTS")); std::string ln;
    while (std::getline(f, ln)) {
        r.emplace_back(); std::istringstream is(ln); std::string x;
        while (std::getline(is, x, ';')) { std::istringstream y(x); Op p; y >> p.k >> p.o >> p.a; if (p.k != "end") r.back().push_back(p); }
    }
    return r;
}
// values as the specification reads them
template<class E> struct Fam;
struct B2 {
    static const char* fam() { return "b2"; }
    template<class T> static void put(std::string& s, T v, unsigned, unsigned) { limbs(s, v); }
    static unsigned h(unsigned, int) { return 0; }
};
struct Fa {
    static const char* fam() { return "faure"; }
    static unsigned base(unsigned d) { for (unsigned q = d < 2 ? 2 : d;; ++q) { bool p = true; for (unsigned k = 2; k * k <= q; ++k) if (q % k == 0) p = false; if (p) return q; } }
    static unsigned h(unsigned d, int bits) { unsigned q = base(d), n = 1; double x = q; while (x * q < std::ldexp(1.0, bits)) { x *= q; ++n; } return n; }
    template<class T> static void put(std::string& s, T v, unsigned d, unsigned hh) {
        long double x = v; for (unsigned i = 0; i < hh; ++i) x *= base(d);
        long double fl = std::floor(x + 0.001L);
        s += "{\"v\":"; if (!(fl >= 0 && fl < 1e18L)) { s += "[1,1,1,1,1]"; } else limbs(s, (u128)fl); s += ",\"near\":"; s += std::fabs(x - std::floor(x + 0.5L)) < 0.001L ? "true" : "false"; s += "}";
    }
};
template<class E, class F, class SizeT> struct Run {
    unsigned maxd; u128 len; std::map<int, unsigned> dims; int bits, w;
    std::vector<E> e; std::vector<unsigned> d; std::vector<u128> n; std::vector<unsigned> j;   // objects and where they should stand
    int fmt = 0; struct Saved { std::string t; unsigned d; u128 n; unsigned j; int f; }; std::deque<Saved> text;
    static const bool chars = sizeof(SizeT) == 1;       // such numbers are streamed as characters

    typedef typename E::result_type R;
    unsigned hh(unsigned dd) { return F::h(dd, bits); }
    void put_vals(Ev& v, const std::vector<R>& x, unsigned dd) {
        std::string s = "["; for (size_t i = 0; i < x.size(); ++i) { if (i) s += ','; F::put(s, x[i], dd, hh(dd)); } s += "]";
        v.raw("vals", s); if (hh(dd)) v.i("h", hh(dd));
    }
    void go(int o, u128 z) { u128 k = j[o] + z; n[o] += k / d[o]; j[o] = (unsigned)(k % d[o]); }
    bool inseq(int o, u128 z) { u128 k = j[o] + z, nn = n[o] + k / d[o]; return nn < len || (nn == len && k % d[o] == 0); }
    u128 rest(int o) { return (len - n[o]) * d[o] - j[o]; }
    void peek(int o) {
        E c(e[o]); std::vector<R> v; unsigned z = d[o] < 8 ? d[o] + 1 : 8; bool threw = false;
        try { for (unsigned i = 0; i < z; ++i) v.push_back(c()); } catch (std::range_error&) { threw = true; }
        Ev x("peek"); x.i("o", o + 1).i("z", z).i("dim", (long)e[o].dimension()); put_vals(x, v, d[o]);
    }
    void obs(int o) {
        std::string a = "[", b = "["; const int P[3][2] = {{0, 1}, {0, 2}, {1, 2}};
        for (int i = 0; i < 3; ++i) { if (i) { a += ','; b += ','; } a += (e[P[i][0]] == e[P[i][1]]) ? "true" : "false"; b += (e[P[i][1]] != e[P[i][0]]) ? "true" : "false"; }
        { Ev x("obs"); x.raw("eq", a + "]").raw("ne", b + "]"); }
        peek(o);
    }
    u128 dist(const std::string& s, int o) {
        u128 r = rest(o); 
        if (s == "z0") return 0; if (s == "z1") return 1; if (s == "z2") return 2; if (s == "D-") return d[o] - 1; if (s == "D") return d[o]; if (s == "D+") return d[o] + 1;
        if (s == "2D") return 2 * d[o]; if (s == "m") return r / 2; if (s == "E") return r; if (s == "E-") return r ? r - 1 : 0; if (s == "E+") return r + 1;
        return ~(u64)0;
    }
    u128 seedv(const std::string& s, int o) {
        if (s == "s0") return 0; if (s == "s1") return 1; if (s == "sm") return len / 2; if (s == "L-2") return len - 2; if (s == "L-1") return len - 1; if (s == "L") return len; if (s == "L+") return len + 1;
        if (s == "same") return n[o]; if (s == "next") return n[o] + 1;
        return (SizeT)~(SizeT)0;
    }
    void read(int o, const std::string& t, bool cut, u128 rd, u128 rn, u128 rz) {
        E before(e[o]); bool fail = false, right = true;
        std::istringstream is(t);
        try { is >> e[o]; fail = !is; } catch (std::range_error&) { fail = true; } catch (std::invalid_argument&) { fail = true; } catch (std::ios_base::failure&) { fail = true; }
        { Ev x("read"); x.i("o", o + 1).b("cut", cut).i("d", (long)rd).w("n", rn).w("z", rz).b("fail", fail).b("same", before == e[o] && before.dimension() == e[o].dimension()).str("t", t); }
        if (!fail) { d[o] = (unsigned)rd; n[o] = rn; j[o] = 0; go(o, rz); }
        obs(o);
    }
    void run(std::vector<Op> sc) {
        // moments every history should see: almost 2^64 values skipped right after a draw, the exact end reached in several ways
        for (const Op& p : {Op{"new", 1, "1"}, Op{"draw", 1, "z1"}, Op{"disc", 1, "huge"}, Op{"disc", 1, "E-"}, Op{"draw", 1, "D+"}, Op{"disc", 1, "z1"}, Op{"seed", 1, "sm"},
                            Op{"new", 2, "5"}, Op{"disc", 2, "E"}, Op{"draw", 2, "z1"}, Op{"copy", 2, "3"}, Op{"seed", 3, "L-1"}, Op{"draw", 3, "D"}, Op{"disc", 3, "z0"}, Op{"save", 3, ""}, Op{"seed", 2, "s0"}, Op{"load", 2, ""},
                            Op{"new", 3, "1"}, Op{"disc", 3, "D"}, Op{"seed", 3, "same"}, Op{"draw", 3, "D"}}) sc.push_back(p);
        unsigned d0 = dims.rbegin()->second;
        for (int o = 0; o < 3; ++o) { e.push_back(E(d0)); d.push_back(d0); n.push_back(0); j.push_back(0); }
        std::string dv = "[";
        if constexpr (std::is_integral<R>::value) {
            std::vector<R> prev(d0); E f(d0);
            for (int r = 0; r < w; ++r) {
                f.seed((SizeT)((((u128)1) << r) - 1)); if (r) dv += ','; dv += '[';
                for (unsigned k = 0; k < d0; ++k) { R v = (R)(f() ^ prev[k]); prev[k] = v; if (k) dv += ','; limbs(dv, v); }
                dv += ']';
            }
        }
        { Ev x("cfg"); x.str("fam", F::fam()).w("len", len).i("maxd", maxd).i("d", d0).raw("dirs", dv + "]"); }
        for (auto& p : sc) {
            int o = p.o - 1;
            if (p.k == "new") { unsigned dd = dims[atoi(p.a.c_str())]; e[o] = E(dd); d[o] = dd; n[o] = 0; j[o] = 0; Ev("new").i("o", p.o).i("d", dd); }
            else if (p.k == "bad") { unsigned dd = p.a == "0" ? 0 : maxd + 1; bool right = false; try { E x(dd); } catch (std::invalid_argument&) { right = true; } Ev("bad").i("o", p.o).i("d", dd).b("right", right); }
            else if (p.k == "seed0") { e[o].seed(); n[o] = 0; j[o] = 0; Ev("seed0").i("o", p.o); }
            else if (p.k == "seed") {
                u128 s = seedv(p.a, o); if (s > (SizeT)~(SizeT)0) s = (SizeT)~(SizeT)0;
                E before(e[o]); bool threw = false, right = false;
                try { e[o].seed((SizeT)s); } catch (std::range_error&) { threw = right = true; } catch (std::exception&) { threw = true; }
                Ev("seed").i("o", p.o).w("n", s).b("threw", threw).b("right", right).b("same", before == e[o]);
                if (!threw) { n[o] = s; j[o] = 0; }
            }
            else if (p.k == "disc") {
                u128 z = dist(p.a, o); if (z > ~(u64)0) z = ~(u64)0;
                E before(e[o]); bool threw = false, right = false;
                try { e[o].discard((boost::uintmax_t)z); } catch (std::range_error&) { threw = right = true; } catch (std::exception&) { threw = true; }
                Ev("disc").i("o", p.o).w("z", z).b("threw", threw).b("right", right).b("same", before == e[o]);
                if (!threw) go(o, z);
            }
            else if (p.k == "draw" || p.k == "gen") {
                unsigned z = (unsigned)dist(p.a, o); if (z > 600) z = 600;
                std::vector<R> v; bool threw = false, right = false; E end(e[o]);
                if (p.k == "draw") { try { for (unsigned i = 0; i < z; ++i) v.push_back(e[o]()); } catch (std::range_error&) { threw = right = true; } catch (std::exception&) { threw = true; } }
                else {
                    std::vector<R> buf(z); struct It { std::vector<R>* b; size_t* i; R& operator*() { return (*b)[*i]; } It& operator++() { ++*i; return *this; } bool operator!=(const It& x) const { return *i != *x.i; } bool operator==(const It& x) const { return *i == *x.i; } };
                    size_t a = 0, b = z; It f = {&buf, &a}, l = {&buf, &b};
                    try { e[o].generate(f, l); } catch (std::range_error&) { threw = right = true; } catch (std::exception&) { threw = true; }
                    v.assign(buf.begin(), buf.begin() + a);
                }
                bool same = true;
                if (threw) { for (size_t i = 0; i < v.size(); ++i) end(); same = end == e[o]; }
                { Ev x("draw"); x.i("o", p.o).i("z", z).b("threw", threw).b("right", right).b("same", same); put_vals(x, v, d[o]); }
                go(o, v.size());
            }
            else if (p.k == "copy" || p.k == "assign") {
                int b = atoi(p.a.c_str()) - 1;
                if (p.k == "copy") { E c(e[o]); e[b].~E(); new (&e[b]) E(c); } else e[b] = e[o];
                d[b] = d[o]; n[b] = n[o]; j[b] = j[o]; Ev("copy").i("a", p.o).i("b", b + 1);
            }
            else if (p.k == "swap") { int b = atoi(p.a.c_str()) - 1; std::swap(e[o], e[b]); std::swap(d[o], d[b]); std::swap(n[o], n[b]); std::swap(j[o], j[b]); Ev("swap").i("a", p.o).i("b", b + 1); }
            else if (p.k == "save") { if (chars) continue; std::ostringstream os; Fmt<std::ostringstream> fm(os); fm.set(fmt); fm.writing(); os << e[o]; text.push_back({os.str(), d[o], n[o], j[o], fmt}); Ev("save").i("o", p.o).b("kept", os.good() && fm.kept()); }
            else if (p.k == "load") {
                if (chars || text.empty()) continue;
                std::ostringstream tail; Fmt<std::ostringstream> ft(tail); ft.set(text[0].f); tail << text[0].t << " " << 77; std::istringstream is(tail.str()); Fmt<std::istringstream> fm(is); fm.set(text[0].f); fm.reading();
                int after = 0; is >> e[o]; bool fail = !is, kept = fm.kept(); fm.reading(); is >> after; fmt = (fmt + 1) % FMT_KINDS;
                Ev("load").i("o", p.o).b("fail", fail || after != 77).b("kept", kept);
                d[o] = text[0].d; n[o] = text[0].n; j[o] = text[0].j; text.pop_front();
            }
            obs(o);
        }
        if (chars) return;
        // texts: too short, not numbers, dimensions and positions that do not exist, and some unusual ones that do
        for (const char* t : {"", "3", "3 1", "x 1 0", "3 x 0", "3 1 x"}) read(0, t, true, 0, 0, 0);
        auto S = [](u128 v) { std::string s; do { s.insert(s.begin(), char('0' + (int)(v % 10))); v /= 10; } while (v); return s; };
        unsigned a = dims.begin()->second;
        u128 D[] = {0, maxd + 1u, a, dims.rbegin()->second}, N[] = {0, 3, len - 1, len, len + 1}, Z[] = {0, 1, a, a + 1, ~(u64)0};
        for (u128 x : D) for (u128 y : N) for (u128 z : Z) read(1, S(x) + " " + S(y) + " " + S(z), false, x, y, z);
    }
};
template<class E, class F, class SizeT> static void add(const std::string& name, unsigned maxd, u128 len, int bits, int w, std::map<int, unsigned> dims, size_t from, size_t count) {
    static std::vector<std::vector<Op>> sc = scripts();
    for (size_t k = from; k < from + count && k < sc.size(); ++k) {
        auto s = sc[k];
        section(name + "/" + std::to_string(k), [=] { Run<E, F, SizeT> r; r.maxd = maxd; r.len = len; r.bits = bits; r.w = w; r.dims = dims; r.fmt = (int)(k % FMT_KINDS); r.run(s); });
    }
}
int main(int argc, char** argv) {
    using namespace boost::random;
    std::map<int, unsigned> d1{{1, 1}, {2, 2}, {3, 3}, {5, 5}}, d2{{1, 1}, {2, 4}, {3, 13}, {5, 30}}, d3{{1, 7}, {2, 2}, {3, 100}, {5, 128}};
    size_t N = thorough() ? 24 : 4, k = 0;
    auto next = [&] { size_t r = k; k = (k + N) % 24; return r; };
    // Sobol and Niederreiter: 2^w - 1 vectors
#define B2ENGINES(T, w, dm) \
    add<sobol_engine<T, w>, B2, T>("sobol_" #T "_" #w, 3667, (((u128)1) << w) - 1, 0, w, dm, next(), N); \
    add<niederreiter_base2_engine<T, w>, B2, T>("nied_" #T "_" #w, 4720, (((u128)1) << w) - 1, 0, w, dm, next(), N);
    using std::uint8_t; using std::uint16_t; using std::uint32_t; using std::uint64_t;
#if PART == 0
    B2ENGINES(uint8_t, 3, d1) B2ENGINES(uint8_t, 5, d2) B2ENGINES(uint8_t, 8, d1) B2ENGINES(uint16_t, 5, d1)
#elif PART == 1
    B2ENGINES(uint16_t, 16, d3) B2ENGINES(uint32_t, 7, d2) B2ENGINES(uint32_t, 32, d1)
#elif PART == 2
    B2ENGINES(uint64_t, 4, d1) B2ENGINES(uint64_t, 33, d2) B2ENGINES(uint64_t, 64, d3) B2ENGINES(uint64_t, 64, d1)
#else
    std::map<int, unsigned> f2{{1, 1}, {2, 4}, {3, 7}, {5, 12}}, f3{{1, 2}, {2, 30}, {3, 3}, {5, 101}};
    add<faure_engine<double, uint64_t>, Fa, uint64_t>("faure_double_64", 1117, ((u128)1) << 64, 36, 0, d1, next(), N);
    add<faure_engine<double, uint64_t>, Fa, uint64_t>("faure_double_64b", 1117, ((u128)1) << 64, 36, 0, f2, next(), N);
    add<faure_engine<double, uint32_t>, Fa, uint32_t>("faure_double_32", 1117, ((u128)1) << 32, 36, 0, d1, next(), N);
    add<faure_engine<double, uint32_t>, Fa, uint32_t>("faure_double_32b", 1117, ((u128)1) << 32, 36, 0, f3, next(), N);
    add<faure_engine<float, uint16_t>, Fa, uint16_t>("faure_float_16", 1117, ((u128)1) << 16, 12, 0, d1, next(), N);
    add<faure_engine<double, uint8_t>, Fa, uint8_t>("faure_double_8", 1117, ((u128)1) << 8, 30, 0, f2, next(), N);
    add<faure_engine<long double, uint64_t>, Fa, uint64_t>("faure_long_64", 1117, ((u128)1) << 64, 36, 0, d1, next(), N);
#endif
    return run(argc, argv);
}
