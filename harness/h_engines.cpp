// Exact behaviour of every engine in the catalog (C01, C05, C06, C07, part of C02).
#include "eng.hpp"
static std::string mode;
static std::vector<std::uint32_t> arith(std::uint32_t s, size_t n) { std::vector<std::uint32_t> v(n); for (size_t j = 0; j < n; ++j) v[j] = ArithSeq::at(s, j + 1); return v; }

template<class E> struct H {
    EngInfo I; E* e; bool fresh;
    H(const EngInfo& i) : I(i), e(0) {}
    ~H() { delete e; }
    // place the object: either constructed anew or re-seeded after some history
    void draw(int n) { std::vector<u64> v; v.reserve(n); for (int i = 0; i < n; ++i) v.push_back(as_int((*e)(), I.real)); Ev("draw").ws("vals", v); }
    void skip(int n) { for (int i = 0; i < n; ++i) (*e)(); Ev("skip").i("n", n); }
    void dirty() { if (e) for (int i = 0; i < 3; ++i) (*e)(); }
    void discard(u64 z) { e->discard(z); Ev("discard").w("z", z); }
    void replace(E* n) { delete e; e = n; }
    void sdefault(bool ctor) {
        if (ctor || !e) replace(new E()); else { dirty(); e->seed(); }
        Ev("seed").str("eng", I.name).str("route", "default");
    }
    template<class T> void sint(T v, bool ctor) {
        if (ctor || !e) replace(new E(v)); else { dirty(); e->seed(v); }
        long long ll = (long long)v; if (v > T(0) && (long double)v >= 9223372036854775808.0L) { Ev("seed").str("eng", I.name).str("route", "int").w("v", (u64)v); return; }
        Ev("seed").str("eng", I.name).str("route", "int").w("v", (u64)ll);
    }
    // one seed for each component of a combined engine (additive_combine takes the seeds, xor_combine the components)
    void stwo(u64 a, u64 b, bool ctor) { stwo_<E>(a, b, ctor, 0, 0); }
    template<class F> auto stwo_(u64 a, u64 b, bool ctor, int, int) -> decltype(F(std::declval<const typename F::base1_type&>(), std::declval<const typename F::base2_type&>()), void()) {
        replace(new E(typename F::base1_type((typename F::base1_type::result_type)a), typename F::base2_type((typename F::base2_type::result_type)b)));
        Ev("seed").str("eng", I.name).str("route", "two").w("v", a).w("v2", b); }
    template<class F> auto stwo_(u64 a, u64 b, bool ctor, int, int) -> decltype(std::declval<F&>().seed(typename F::first_base::result_type(), typename F::second_base::result_type()), void()) {
        typename F::first_base::result_type x = a; typename F::second_base::result_type y = b;
        if (ctor || !e) replace(new E(x, y)); else { dirty(); e->seed(x, y); }
        Ev("seed").str("eng", I.name).str("route", "two").w("v", a).w("v2", b); }
    template<class F> void stwo_(u64, u64, bool, ...) {}
    // an adaptor built around an existing engine: as if it had been seeded itself
    void sbase(u64 v) { sbase_<E>(v, 0); }
    template<class F> auto sbase_(u64 v, int) -> decltype(F(std::declval<const typename F::base_type&>()), std::declval<const F&>().base(), void()) {
        typename F::base_type b(v); const typename F::base_type& cb = b;
        if (v % 3 == 0) replace(new E(cb)); else if (v % 3 == 1) replace(new E(b)); else { typename F::base_type b2(cb); replace(new E(std::move(b2))); }
        Ev("seed").str("eng", I.name).str("route", "int").w("v", v); base(); }
    template<class F> void sbase_(u64, ...) {}
    void base() { base_<E>(0); }
    template<class F> auto base_(int) -> decltype(std::declval<const F&>().base(), void()) {
        typename F::base_type c(const_cast<const F*>(e)->base()); std::vector<u64> v; for (int i = 0; i < 5; ++i) v.push_back(as_int(c(), I.real)); Ev("base").ws("vals", v); }
    template<class F> void base_(...) {}
    template<class Q> void sseq(Q& q, bool ctor) { if (ctor || !e) replace(new E(q)); else { dirty(); e->seed(q); } }
    void sq(const std::vector<std::uint32_t>& v, bool ctor) { boost::random::seed_seq q(v.begin(), v.end()); sseq(q, ctor);
        Ev("seed").str("eng", I.name).str("route", "seq").str("t", "seq").ws("v", v); }
    void sarith(std::uint32_t s, bool ctor) { ArithSeq q; q.s = s; sseq(q, ctor);
        Ev("seed").str("eng", I.name).str("route", "seq").str("t", "arith").w("s", s); }
    // iterator seeding; n words available, more than enough
    void siter(const std::vector<std::uint32_t>& w, bool ctor, const char* t, std::uint32_t s) { siter_(w, ctor, t, s, has_iter<E>()); }
    void siter_(const std::vector<std::uint32_t>&, bool, const char*, std::uint32_t, std::false_type) { sdefault(true); }
    void siter_(const std::vector<std::uint32_t>& w, bool ctor, const char* t, std::uint32_t s, std::true_type) {
        size_t used = 0; auto f = w.begin(); auto l = w.end();
        if (ctor || !e) { replace(new E(f, l)); } else { dirty(); e->seed(f, l); }
        used = f - w.begin();
        Ev ev("seed"); ev.str("eng", I.name).str("route", "iter").str("t", t).i("used", used);
        if (std::string(t) == "arith") ev.w("s", s); else ev.ws("v", std::vector<std::uint32_t>(w.begin(), w.begin() + used));
    }
    void shortr(size_t have) { short_(have, has_iter<E>()); }
    void short_(size_t, std::false_type) {}
    void short_(size_t have, std::true_type) {
        auto w = arith(5, have); auto f = w.cbegin(); auto l = w.cend(); std::string x = "none";
        try { if (have % 2) { E t(f, l); } else { E t; t.seed(f, l); } } catch (std::invalid_argument&) { x = "invalid_argument"; } catch (std::exception&) { x = "other"; }
        Ev("short").str("eng", I.name).i("have", have).str("exc", x);
    }
    size_t need() { return need_(has_iter<E>()); }
    size_t need_(std::false_type) { return 0; }
    size_t need_(std::true_type) { auto w = arith(77, 100000); auto f = w.cbegin(); auto l = w.cend(); E t(f, l); return f - w.cbegin(); }
    void bounds() { Ev("bounds").str("eng", I.name).w("min", as_int((E::min)(), I.real)).w("max", I.real ? (((u128)1) << I.real) - ((E::max)() == 1 ? 1 : 0) : (u128)(u64)(E::max)()); }
    void range(long n) {
        typedef typename E::result_type R; R lo = (*e)(), hi = lo; for (long i = 1; i < n; ++i) { R v = (*e)(); if (v < lo) lo = v; if (v > hi) hi = v; }
        bool unit = !I.real || (lo >= R(0) && hi < R(1));
        Ev("range").str("eng", I.name).w("lo", as_int(lo, I.real)).w("hi", as_int(hi, I.real)).b("inunit", unit);
    }
};
static std::vector<std::uint32_t> rnd(Rng& r, size_t n) { std::vector<std::uint32_t> v(n); for (auto& x : v) { x = r.next() >> 32; switch (r.below(8)) { case 0: x = 0; break; case 1: x = 0xffffffffu; break; } } return v; }

static bool h_seqstate(const std::string& nm) { return nm.find("swc") != std::string::npos || nm.find("_lf_") != std::string::npos || nm.find("_lf01") != std::string::npos || nm.find("ranlux") == 0 || nm.find("s_mt") == 0; }
// C01: long exact histories
template<class E> void m_values(const EngInfo& I) {
    bool big = I.tag("big"), small = I.tag("small"), nw = I.tag("nowords"), adaptor = I.tag("adaptor");
    std::string nm = I.name;
    int B = I.buf; bool th = thorough();
    bool words = has_iter<E>::value && !nw;
    unsigned sz = nm.size() ? (unsigned char)nm[nm.size() / 2] + nm.size() * 7 : 0;
    bool heavy = nm.find("disc_1000") != std::string::npos || nm.find("ranlux") == 0 && nm.find("base") == std::string::npos || nm.find("_ind_64") != std::string::npos;
    int N = th ? (heavy ? 6 * B + 10 : B > 1 ? 4 * B + 7 : 600) : (heavy ? 3 * B + 2 : B > 1 ? 2 * B + 7 : 120);
    if (nm == "mixmax") N = th ? 400 : 60;
    if (small) N = th ? 120 : 40;
    if (big && !th) {
        // one exact pass over two refills for the larger lags
        if (B > 10000) return;
        section(nm + "/arith", [=] { H<E> h(I); h.siter(arith(1234567 + seed(), 100000), true, "arith", 1234567 + seed()); h.draw(B + 50); h.skip(B - 60); h.draw(30); }, 60);
        return;
    }
    if (big) {
        section(nm + "/arith", [=] { H<E> h(I); h.siter(arith(1234567 + seed(), 100000), true, "arith", 1234567 + seed()); h.draw(B); h.draw(B + 20); }, 60);
        section(nm + "/seqarith", [=] { H<E> h(I); h.sarith(99 + seed(), true); h.draw(B + 3); }, 60);
        section(nm + "/default", [=] { H<E> h(I); h.sdefault(true); h.draw(B + 20); }, 60);
        return;
    }
    section(nm + "/default", [=] { H<E> h(I); h.sdefault(true); int left = N; int c = 1; while (left > 0) { int k = c < left ? c : left; h.draw(k); left -= k; c = c * 3 + 1; } }, 60);
    section(nm + "/seeds", [=] { Rng r(seed() * 77 + sz); H<E> h(I);
        for (int i = 0; i < (th ? 6 : 2); ++i) { u64 v = r.next() >> (i == 0 ? 40 : 0); if (i == 1) v = ~0ull; h.template sint<u64>(I.sb < 64 ? (v & ((1ull << I.sb) - 1)) : v, i % 2); h.draw(N / 2 + 3); if (B > 1) { h.skip(B / 2 + 1); h.draw(3); h.skip(B - 1); h.draw(4); } }
        if (words) for (int i = 0; i < (th ? 4 : 1); ++i) { size_t n = h.need(); h.siter(rnd(r, n + 5), i % 2, "words", 0); h.draw(N / 2 + 3); }
    }, 60);
    if (words && !heavy) section(nm + "/far", [=] { H<E> h(I); h.siter(arith(4321 + seed(), 100000), true, "arith", 4321 + seed()); int far = small ? 100 : (th ? 8 : 3) * B + (B > 1 ? 0 : th ? 1500 : 300); h.skip(far); h.draw(B > 1 ? B / 2 + 2 : 20); }, 60);
    // states at which the arithmetic takes another path
    std::vector<u64> ds = I.nums("d"), dd = I.nums("dd");
    if (ds.size()) section(nm + "/directed", [=] { H<E> h(I); for (size_t i = 0; i < ds.size(); ++i) { h.template sint<u64>(ds[i], i % 2); h.draw(B > 1 ? B + 4 : 5); } });
    if (dd.size()) section(nm + "/directed2", [=] { H<E> h(I); for (size_t i = 0; i + 1 < dd.size(); i += 2) { h.stwo(dd[i], dd[i + 1], i % 4); h.draw(5); } });
    if (words && !adaptor && h_seqstate(nm)) section(nm + "/edges", [=] { Rng r(seed() * 31 + sz); H<E> h(I); size_t n = h.need(); u64 mx = I.real ? (I.real < 64 ? (1ull << I.real) - 1 : ~0ull) : (u64)(E::max)();
        for (int k = 0; k < (th ? 40 : n > 40 ? 2 : 8); ++k) { std::vector<std::uint32_t> w(n + 1); int few = k % 3; for (size_t j = 0; j < n; ++j) { std::uint32_t a[] = {0, (std::uint32_t)mx, 1, (std::uint32_t)(mx - 1), (std::uint32_t)(mx >> 32), 0xffffffffu}; w[j] = a[r.below(few == 0 ? 2 : few == 1 ? 4 : 6)]; }
            h.siter(w, k % 2, "words", 0); h.draw(B + 6); } });
    if (adaptor || ds.size() || I.tag("prod")) section(nm + "/base", [=] { Rng r(seed() * 41 + sz); H<E> h(I);
        for (int k = 0; k < 4; ++k) { u64 v = r.below(I.sb < 32 ? 200 : 2000000000); h.sbase(v); if (!h.e) break; h.draw(k == 0 ? 1 : B / 2 + 1); h.base(); h.draw(B > 1 ? B / 2 + 2 : 7); h.base(); }
        for (int k = 0; k < 3; ++k) { h.stwo(1 + r.below(I.sb < 32 ? 200 : 2000000000), 1 + r.below(I.sb < 32 ? 200 : 2000000000), k % 2); if (!h.e) break; h.draw(4); } });
}
// all states of a small engine: every possible seed word, followed by enough values to determine the state
template<class E> void m_all(const EngInfo& I, int lim) {
    std::string nm = I.name;
    if (!I.tag("small") || I.tag("nowords")) return;
    section(nm + "/all", [=] { H<E> h(I); size_t n = h.need(); int w = 0;
        // the number of significant bits per word is found from max()
        u64 mx = (u64)(E::max)(); bool lcgish = n == 1;
        while ((1ull << w) <= mx) ++w;
        if (lcgish) { u64 lim2 = I.tag("adaptor") ? 64 : mx + 3; for (u64 v = 0; v < lim2; ++v) { h.siter(std::vector<std::uint32_t>{(std::uint32_t)v, 0u}, v % 2, "words", 0); h.draw(I.buf > 1 ? 2 * I.buf + 3 : 6); } return; }
        if (I.tag("adaptor")) w = 2;
        int bits = w * (int)n; u64 tot = bits >= 20 ? 1ull << 20 : 1ull << bits; u64 step = 1; while (tot / step > (u64)lim) step += 2;
        for (u64 s = 0; s < tot; s += step) { std::vector<std::uint32_t> v; u64 t = s; for (size_t i = 0; i < n; ++i) { v.push_back(t & ((1u << w) - 1)); t >>= w; } v.push_back(1);
            h.siter(v, s % 2, "words", 0); h.draw(n + 3); }
    }, 120);
}
// C05: every way of seeding, dirty objects, short ranges, degenerate words
template<class E> void m_seed(const EngInfo& I) {
    bool big = I.tag("big"), nw = I.tag("nowords"); std::string nm = I.name; bool th = thorough();
    bool words = has_iter<E>::value && !nw;
    bool heavy = nm.find("disc_1000") != std::string::npos || I.buf > 1000;
    int K = nm == "mixmax" ? 20 : heavy ? 2 : 4;
    unsigned sz = (unsigned char)nm[nm.size() / 2] + nm.size() * 7;
    if (big && !th && I.buf > 5000) {
        section(nm + "/words", [=] { H<E> h(I); size_t n = h.need(); h.shortr(0); h.shortr(n - 1); h.shortr(n / 2); });
        return;
    }
    section(nm + "/ints", [=] { Rng r(seed() * 99 + sz); H<E> h(I);
        h.sdefault(true); h.draw(K); h.sdefault(false); h.draw(K);
        std::vector<u64> vs = {0, 1, 2, 0x7fffffffull, 0x80000000ull, 0xffffffffull, 2147483563ull, 5489};
        if (heavy) vs = {0, 0xffffffffull};
        if (I.sb == 64) { vs.push_back(0x100000000ull); vs.push_back(~0ull); vs.push_back(r.next()); }
        for (int i = 0; i < (th ? 8 : 1); ++i) vs.push_back(r.next() >> 33);
        int i = 0; for (u64 v : vs) { u64 x = I.sb < 64 ? (v & ((1ull << I.sb) - 1)) : v;
            ++i;
            if (heavy) { h.template sint<u64>(x, i % 2 == 0); h.draw(K); continue; }
            h.template sint<u64>(x, false); h.draw(K); h.template sint<u64>(x, true); h.draw(K); }
        if (!heavy) {
            h.template sint<int>(77, false); h.draw(K); h.template sint<int>(-5, true); h.draw(K); h.template sint<long>(-1, false); h.draw(K); h.template sint<short>(-300, true); h.draw(1);
            h.template sint<unsigned char>(200, false); h.draw(K); h.template sint<double>(I.sb < 16 ? 45.0 : 12345.0, true); h.draw(K); h.template sint<float>(77.0f, false); h.draw(K); h.template sint<long long>(-123456789012ll, false); h.draw(1); h.template sint<unsigned long>(4000000000ul, true); h.draw(1);
            h.template sint<bool>(true, false); h.draw(1); h.template sint<char>('a', true); h.draw(1); }
    }, 60);
    if (!nw) section(nm + "/seqs", [=] { Rng r(seed() * 98 + sz); H<E> h(I);
        h.sarith(0, true); h.draw(K); h.sarith(0x1234567, false); h.draw(K);
        if (h.need() > 1300) return;
        int L = h.need() > 100 ? 1 : 4;
        for (int k = 0; k < L; ++k) { h.sq(rnd(r, k * 3), k % 2); h.draw(K); }
        WordSeq z; h.sseq(z, true); Ev("seed").str("eng", I.name).str("route", "seq").str("t", "words").ws("v", std::vector<std::uint32_t>(h.need() + 4, 0u)); h.draw(K);
        WordSeq o; o.w.assign(h.need() + 4, 0xffffffffu); h.sseq(o, false); Ev("seed").str("eng", I.name).str("route", "seq").str("t", "words").ws("v", o.w); h.draw(K);
    }, 60);
    if (words) section(nm + "/words", [=] { Rng r(seed() * 97 + sz); H<E> h(I);
        size_t n = h.need();
        for (int k = 0; k < (heavy ? 1 : th ? 6 : 2); ++k) { h.siter(rnd(r, n + k), k % 2, "words", 0); h.draw(K); }
        // degenerate words: zeros, ones, a single bit at either end, words around the modulus
        std::vector<std::uint32_t> z(n + 2, 0u); h.siter(z, true, "words", 0); h.draw(K); h.siter(z, false, "words", 0); h.draw(K);
        z.assign(n + 2, 0xffffffffu); h.siter(z, true, "words", 0); h.draw(K);
        if (!heavy) { z.assign(n + 2, 0u); z[n - 1] = 1; h.siter(z, false, "words", 0); h.draw(K); z[n - 1] = 0; z[0] = 0x80000000u; h.siter(z, true, "words", 0); h.draw(K); z[0] = 1; h.siter(z, true, "words", 0); h.draw(K);
            z.assign(n + 2, 0x80000000u); h.siter(z, false, "words", 0); h.draw(K); z.assign(n + 2, 0x01000000u); h.siter(z, false, "words", 0); h.draw(K); z.assign(n + 2, 0x7fffffffu); h.siter(z, true, "words", 0); h.draw(K); }
        size_t stp = n > 64 ? n / 24 + 1 : 1; for (size_t k = 0; k < n; k += stp) h.shortr(k); h.shortr(n - 1);
        if (!heavy) { z.assign(n, 9u); h.siter(z, true, "words", 0); h.draw(1); }      // exactly enough
    }, 60);
}
// C06: advertised bounds and long runs
template<class E> void m_bounds(const EngInfo& I) {
    if (I.tag("nobounds")) return;
    std::string nm = I.name; bool th = thorough();
    section(nm + "/bounds", [=] { H<E> h(I); h.bounds(); h.replace(new E()); long n = th ? 3000000 : 200000; if (nm.find("disc_1000") != std::string::npos) n /= 100; h.range(n);
        Rng r(seed() + nm.size()); for (int k = 0; k < (th ? 40 : 8); ++k) { u64 v = r.next(); h.replace(new E(I.sb < 64 ? (v & ((1ull << I.sb) - 1)) : v)); h.range(n / 10); }
        h.bounds(); }, 120);
    if (has_iter<E>::value && !I.tag("nowords") && !I.tag("big")) section(nm + "/words", [=] { H<E> h(I); size_t n = h.need(); Rng r(seed() + 5);
        for (int k = 0; k < (th ? 300 : 60); ++k) { std::vector<std::uint32_t> w(n + 1); std::uint32_t pat[] = {0u, 0xffffffffu, 1u, 0x80000000u, 0x7fffffffu, 0x00ffffffu, 0xff000000u, 2u}; int mixk = r.below(3);
            for (auto& x : w) x = mixk == 0 ? pat[r.below(8)] : mixk == 1 ? pat[r.below(2)] : (std::uint32_t)(r.next() >> 32);
            auto f = w.cbegin(); wseed(h, w, has_iter<E>()); h.range(I.buf * 2 + 300); } });
}
template<class E> void wseed(H<E>& h, const std::vector<std::uint32_t>& w, std::true_type) { auto f = w.cbegin(); h.replace(new E(f, w.cend())); }
template<class E> void wseed(H<E>& h, const std::vector<std::uint32_t>&, std::false_type) { h.replace(new E()); }

// C02: discards of any length, where the specification has a closed form
template<class E> void m_jump(const EngInfo& I) {
    if (!I.tag("jump")) return;
    std::string nm = I.name; bool th = thorough(); int B = I.buf; u64 mx = (u64)(E::max)();
    bool ismt = nm.find("s_mt") == 0;
    section(nm + "/jump", [=] { Rng r(seed() * 53 + nm.size()); H<E> h(I);
        std::vector<u64> zs = {0, 1, 2, 3, mx - 1, mx, mx + 1, mx + 2, 2 * mx + 2, (u64)1 << 31, ((u64)1 << 32) - 1, (u64)1 << 32, ((u64)1 << 32) + 1, (u64)1 << 63, ~0ull, ~0ull - 1, 10000000, 10000001, 10000000 + r.below(100000)};
        if (ismt) for (int k = 1; k <= 2 * B + 2; ++k) zs.push_back(10000000 + k);
        for (int k = 0; k < (th ? 60 : 8); ++k) zs.push_back(r.next() >> r.below(60));
        for (u64 d : I.nums("d")) if (d) zs.push_back(d);
        int c = 0;
        for (u64 z : zs) {
            if (c++ % 3 == 0) { std::vector<u64> d = I.nums("d"); u64 v = d.size() && c % 2 ? d[r.below(d.size())] : I.sb < 64 ? r.next() >> (64 - I.sb) : r.next(); h.template sint<u64>(v, c % 2); }
            int k = r.below(B > 1 ? 2 * B + 1 : 3); if (k) h.draw(k);
            h.discard(z); h.draw(B > 1 ? B + 1 : 3);
        } }, 120);
}
template<class E> void go(const EngInfo& I) {
    bool ad = I.tag("adaptor") || std::string(I.name).find("ranlux") == 0 && std::string(I.name).find("_base") == std::string::npos || I.tag("prod") && (!strcmp(I.name, "taus88") || !strcmp(I.name, "ecuyer1988") || !strcmp(I.name, "kreutzer1986") || !strcmp(I.name, "knuth_b"));
    if (mode == "c01" && !(I.tag("adaptor"))) { m_values<E>(I); m_all<E>(I, thorough() ? 4096 : 400); }
    if (mode == "c07" && ad) { m_values<E>(I); m_all<E>(I, thorough() ? 1000 : 200); }
    if (mode == "c02") m_jump<E>(I);
    if (mode == "c05") m_seed<E>(I);
    if (mode == "c06") m_bounds<E>(I);
}
int main(int argc, char** argv) {
    mode = getenv("VERIF_MODE") ? getenv("VERIF_MODE") : "c01";
#define ENGINE(n, sb, real, buf, tags, ...) { EngInfo I = {#n, sb, real, buf, tags}; go<__VA_ARGS__ >(I); }
#include "engines.inc"
    return run(argc, argv);
}
