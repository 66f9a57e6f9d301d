// C13: seed_seq::generate on many stored sequences, lengths and element types
#include "trace.hpp"
#include <boost/random/seed_seq.hpp>
#include <list>
#include <deque>
using namespace tr;
typedef std::vector<u64> V;

template<class T> void gen1(const V& in, size_t n, const char* ty, int ctor) {
    std::vector<T> src(in.begin(), in.end());
    boost::random::seed_seq* s;
    if (ctor == 0) s = new boost::random::seed_seq(src.begin(), src.end());
    else if (ctor == 1) s = new boost::random::seed_seq(src);
    else { std::list<T> l(src.begin(), src.end()); s = new boost::random::seed_seq(l.begin(), l.end()); }
    std::vector<T> buf(n + 8, (T)0x5A5A5A5A);
    s->generate(buf.begin() + 4, buf.begin() + 4 + n);
    bool guard = true;
    for (int k = 0; k < 4; ++k) guard = guard && buf[k] == (T)0x5A5A5A5A && buf[n + 4 + k] == (T)0x5A5A5A5A;
    V par; s->param(std::back_inserter(par));
    V outv(buf.begin() + 4, buf.begin() + 4 + n);
    V in32; for (auto x : in) in32.push_back((u64)(T)x);
    // once more into another container: the object must not have changed
    std::deque<T> d(n, (T)7); s->generate(d.begin(), d.end());
    bool again = true; for (size_t k = 0; k < n; ++k) again = again && (u64)d[k] == outv[k];
    Ev("gen").str("ty", ty).ws("v", in32).i("n", n).ws("out", outv).b("guard", guard).i("size", s->size()).ws("param", par).b("again", again);
    delete s;
}
static V mk(Rng& r, size_t k, bool wide) { V v; for (size_t i = 0; i < k; ++i) { u64 x = r.next();
    switch (r.below(6)) { case 0: x = 0; break; case 1: x = 0xffffffffull; break; case 2: x &= 0xff; break; default: ; }
    v.push_back(wide ? x : (x & 0xffffffffull)); } return v; }

int main(int argc, char** argv) {
    std::vector<int> S = {0, 1, 2, 3, 5, 6, 7, 8, 12, 20, 38, 39, 40, 66, 67, 68, 90};
    int maxn = thorough() ? 80 : 72;
    // 32-bit elements, every length
    for (int s : S) section("u32/" + std::to_string(s), [=] { Rng r(seed() * 1000 + s);
        for (int n = 0; n <= maxn; n += 1) { if (!thorough() && s > 20 && n > 8 && n % 7 && n != 38 && n != 39 && n != 67 && n != 68) continue;
            gen1<std::uint32_t>(mk(r, s, false), n, "uint32", n % 3); } });
    for (int s : {0, 1, 4, 9, 50}) section("u64/" + std::to_string(s), [=] { Rng r(seed() * 2000 + s);
        for (int n : {0, 1, 2, 3, 5, 6, 7, 8, 9, 20, 38, 39, 40, 67, 68, 69}) { gen1<std::uint64_t>(mk(r, s, true), n, "uint64", n % 3); gen1<unsigned long long>(mk(r, s, true), n, "ull", n % 2); } });
    std::vector<int> big = {622, 623, 624}; if (thorough()) for (int n : {100, 150, 200, 300, 400, 500, 600, 620, 621, 625, 626, 700, 1000}) big.push_back(n);
    for (int n : big) section("big/" + std::to_string(n), [=] { Rng r(seed() * 3000 + n); for (int s : {0, 3, 12}) gen1<std::uint32_t>(mk(r, s, false), n, "uint32", 0);
        if (n == 623 || thorough()) { gen1<std::uint64_t>(mk(r, 700, true), n, "uint64", 1); gen1<std::uint32_t>(mk(r, 622, false), n, "uint32", 1); gen1<std::uint32_t>(mk(r, 650, false), 5, "uint32", 1); } });
    // the default constructor and initializer lists
    section("ctor", [] {
        for (int n : {0, 1, 4, 7, 12}) {
            boost::random::seed_seq a; boost::random::seed_seq b({1u, 2u, 0xffffffffu, 7u});
            std::vector<std::uint32_t> o(n); V par; a.generate(o.begin(), o.end()); a.param(std::back_inserter(par));
            Ev("gen").str("ty", "uint32").ws("v", V()).i("n", n).ws("out", o).b("guard", true).i("size", a.size()).ws("param", par).b("again", true);
            par.clear(); b.generate(o.begin(), o.end()); b.param(std::back_inserter(par));
            Ev("gen").str("ty", "uint32").ws("v", V{1, 2, 0xffffffffu, 7}).i("n", n).ws("out", o).b("guard", true).i("size", b.size()).ws("param", par).b("again", true);
            std::vector<int> sg = {-1, -2147483647 - 1, 5, 0}; boost::random::seed_seq c(sg.begin(), sg.end()); par.clear(); c.generate(o.begin(), o.end()); c.param(std::back_inserter(par));
            Ev("gen").str("ty", "uint32").ws("v", V{0xffffffffu, 0x80000000u, 5, 0}).i("n", n).ws("out", o).b("guard", true).i("size", c.size()).ws("param", par).b("again", true);
        } });
    return run(argc, argv);
}
