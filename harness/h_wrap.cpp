// Replays histories generated from the specification Wrappers on variate_generator,
// uniform_01 with an engine inside, and random_number_generator (C18).
#include "dists.hpp"
#include <boost/random/uniform_01.hpp>
#include <boost/random/random_number_generator.hpp>
#include <boost/random/variate_generator.hpp>
#include <fstream>
#include <memory>
#ifndef PART
#define PART 0
#endif
struct Op { std::string k; int a; std::string b; int n(size_t i = 0) const { std::stringstream s(b); std::string x; for (size_t j = 0; j <= i; ++j) std::getline(s, x, ','); return atoi(x.c_str()); } };
typedef std::vector<Op> Script;
static std::vector<Script> scripts;
static void load_scripts(const char* f) {
    std::ifstream in(f); std::string ln;
    while (std::getline(in, ln)) { Script s; std::stringstream ss(ln); std::string it; while (std::getline(ss, it, ';')) { std::stringstream t(it); Op o; o.a = 0; t >> o.k >> o.a >> o.b; if (o.k.size()) s.push_back(o); } if (s.size()) scripts.push_back(s); }
}
// an engine with values below zero, of this harness
struct Own { typedef std::int32_t result_type; u64 s, p; Own() : s(1), p(0) {} void seed(std::uint32_t x) { s = x; p = 0; }
    static constexpr result_type min() { return -1000; } static constexpr result_type max() { return 1 << 20; }
    result_type operator()() { Rng g(s * 7919 + ::seed()); g.s += p++ * 0xD1B54A32D192ED03ull; return (result_type)(g.next() % (1000 + (1u << 20) + 1)) - 1000; }
    friend bool operator==(const Own& a, const Own& b) { return a.s == b.s && a.p == b.p; } };
template<class E> E engine_at(int s, long p) { E e; e.seed((std::uint32_t)(s * 40503u + 17)); for (long i = 0; i < p; ++i) e(); return e; }
template<class E> long peek(const E& e) { E c(e); u64 h = 1; for (int i = 0; i < 2; ++i) mixn(h, (LD)c()); return fold(h); }
template<class E> long apart(const E& before, const E& after) { E c(before); for (long k = 0; k < 3000; ++k) { if (c == after) return k; c(); } return -1; }
template<class T> long val1(const T& v) { u64 h = 1; mixn(h, (LD)v); return fold(h); }
template<class T> long val1(const std::vector<T>& v) { u64 h = 1; for (auto& x : v) mixn(h, (LD)x); mix(h, "/"); return fold(h); }
template<class P> long ptext(const P& p) { std::stringstream s; s << std::setprecision(17) << p; u64 h = 1; mix(h, s.str()); return fold(h); }
template<class D> long lims(const D& d) { u64 h = 1; mixn(h, (LD)(d.min)()); mixn(h, (LD)(d.max)()); return fold(h); }
// a distribution and three of its parameter sets
template<class D> struct DI { typedef D type; std::vector<typename D::param_type> ps; };
static const long TABLE = 1500;

// what a history does with a wrapper
template<class E, class D> struct Wrap {
    typedef typename D::param_type P;
    virtual ~Wrap() {}
    virtual long draw(const P& own) = 0;          // own: the set it should have, for wrappers without parameters
    virtual long arg(const P& p) = 0;
    virtual long ref(E& f, const P& p) const = 0; // the value a fresh distribution gives
    virtual E* engine() = 0;                      // null: no access
    virtual const E* cengine() const = 0;
    virtual void setp(const P&) {}
    virtual bool has_par() const { return false; }
    virtual long par() { return 0; }
    virtual long cpar() const { return 0; }
    virtual long lim() const { return 0; }
    virtual Wrap* copy() const = 0;
    virtual void assign(const Wrap&) { abort(); }
};
template<class E, class D, class H> struct Vg : Wrap<E, D> {
    typedef typename D::param_type P; typedef r::variate_generator<H, D> G; G g;
    Vg(H e, const D& d) : g(e, d) {}
    Vg(const Vg& o) : g(o.g) {}
    long draw(const P&) { return val1(g()); }
    long arg(const P& p) { return val1(g(p)); }
    long ref(E& f, const P& p) const { D d(p); return val1(d(f)); }
    E* engine() { return &g.engine(); } const E* cengine() const { return &g.engine(); }
    void setp(const P& p) { g.distribution().param(p); }
    bool has_par() const { return true; }
    long par() { return ptext(g.distribution().param()); } long cpar() const { return ptext(g.distribution().param()); }
    long lim() const { u64 h = 1; mixn(h, (LD)(g.min)()); mixn(h, (LD)(g.max)()); return fold(h); }
    Wrap<E, D>* copy() const { return new Vg(*this); }
    void assign(const Wrap<E, D>& o) { if constexpr (!std::is_reference<H>::value) g = dynamic_cast<const Vg&>(o).g; }
};
template<class E, class D, class H> struct U01 : Wrap<E, D> {
    typedef typename D::param_type P; typedef r::uniform_01<H> G; G g;
    template<class A> explicit U01(A&& a, int) : g(a) {}
    U01(const U01& o) : g(o.g) {}
    long draw(const P&) { g.reset(); return val1(g()); }
    long arg(const P& p) { return draw(p); }
    long ref(E& f, const P&) const { r::uniform_01<double> d; return val1(d(f)); }
    E* engine() { return &g.base(); } const E* cengine() const { return &g.base(); }
    long lim() const { u64 h = 1; mixn(h, (LD)(g.min)()); mixn(h, (LD)(g.max)()); return fold(h); }
    Wrap<E, D>* copy() const { return new U01(*this); }
    void assign(const Wrap<E, D>& o) { if constexpr (!std::is_reference<H>::value) g = dynamic_cast<const U01&>(o).g; }
};
template<class I, class E, class D> struct Rn : Wrap<E, D> {
    typedef typename D::param_type P; r::random_number_generator<E, I> g;
    explicit Rn(E& e) : g(e) {}
    Rn(const Rn& o) : g(o.g) {}
    static I n(const P& p) { static const I t[] = {1, 6, 1000, 25, 100}; return t[(unsigned long)ptext(p) % 5]; }
    long draw(const P& own) { return val1(g(n(own))); }
    long arg(const P& p) { return val1(g(n(p))); }
    long ref(E& f, const P& p) const { r::uniform_int_distribution<I> d(0, n(p) - 1); return val1(d(f)); }
    E* engine() { return 0; } const E* cengine() const { return 0; }
    Wrap<E, D>* copy() const { return new Rn(*this); }
};
template<class E, class D> struct Player {
    typedef typename D::param_type P; typedef Wrap<E, D> W;
    const DI<D>& T; E e[3]; W* w[4]; std::string kind[4]; int on[4], par[4];   // on: 1, 2 or 11.. for the wrapper's own
    int cs[4][2]; std::string tag;
    struct Cell { int s; long p; }; Cell ce[3], cw[4];
    Player(const DI<D>& t) : T(t) {
        for (int i = 0; i < 4; ++i) { w[i] = 0; on[i] = 0; par[i] = 0; cw[i] = {0, 0}; }
        for (int i = 1; i <= 2; ++i) { e[i] = engine_at<E>(i, 0); ce[i] = {i, 0}; }
        std::string raw = "["; for (int s = 1; s <= 3; ++s) { E x = engine_at<E>(s, 0); raw += s > 1 ? ",[" : "["; for (long p = 0; p < TABLE; ++p) { if (p) raw += ','; raw += std::to_string(peek(x)); x(); } raw += "]"; } raw += "]";
        std::vector<long> a, b; for (auto& p : T.ps) { a.push_back(ptext(p)); b.push_back(lims(D(p))); }
        u64 h = 1; mixn(h, 0); mixn(h, 1);
        Ev("table").raw("raw", raw).is("par", a).is("lim", b).i("unit", fold(h));
    }
    ~Player() { for (int i = 1; i <= 3; ++i) delete w[i]; }
    Cell& cell(int i) { return on[i] > 10 ? cw[on[i] - 10] : ce[on[i]]; }
    E* eng(int i) { E* x = w[i]->engine(); return x ? x : &e[on[i]]; }
    void set(int i, W* n) { delete w[i]; w[i] = n; }
    void obs() {
        std::vector<long> pe, pw, pc, same, pa, pb, li, known;
        for (int i = 1; i <= 2; ++i) pe.push_back(peek(e[i]));
        for (int i = 1; i <= 3; ++i) {
            if (!w[i] || !w[i]->engine()) { pw.push_back(-1); pc.push_back(-1); same.push_back(0); } 
            else { const W* c = w[i]; E* x = w[i]->engine(); pw.push_back(peek(*x)); pc.push_back(peek(*c->cengine())); int s = x == &e[1] ? 1 : x == &e[2] ? 2 : 10 + i; if (x != c->cengine()) s = -1; for (int k = 1; k <= 3; ++k) if (k != i && s > 10 && w[k] && w[k]->engine() == x) s = -2; same.push_back(s); }
            bool hp = w[i] && w[i]->has_par(); pa.push_back(hp ? w[i]->par() : -1); pb.push_back(hp ? const_cast<const W*>(w[i])->cpar() : -1);
            li.push_back(w[i] ? const_cast<const W*>(w[i])->lim() : -1);
        }
        Ev("obs").is("en", pe).is("w", pw).is("c", pc).is("at", same).is("par", pa).is("cpar", pb).is("lim", li);
    }
    void draw(int i, int v) {   // v: -1 or the argument
        Cell& c = cell(i); int s = c.s; long p = c.p; int u = v < 0 ? par[i] : v; E f = engine_at<E>(s, p), f0 = f, b = *eng(i);
        long got = v < 0 ? w[i]->draw(T.ps[par[i]]) : w[i]->arg(T.ps[v]); long ref = w[i]->ref(f, T.ps[u]);
        long used = apart(b, *eng(i)), rused = apart(f0, f);
        Ev("draw").i("w", 10 + i).i("s", s).i("p", p).i("par", par[i]).i("val", got).i("ref", ref).i("used", used).i("rused", rused); c.p += used;
    }
    void op(const Op& o) {
        int a = o.a, i = a - 10;
        if (o.k == "seed") { e[a].seed((std::uint32_t)(o.n() * 40503u + 17)); ce[a] = {o.n(), 0}; Ev("seed").i("x", a).i("s", o.n()); }
        else if (o.k == "raw") { for (int k = 0; k < o.n(); ++k) e[a](); ce[a].p += o.n(); Ev("raw").i("x", a).i("k", o.n()); }
        else if (o.k == "easg") { e[o.n()] = e[a]; ce[o.n()] = ce[a]; Ev("easg").i("x", a).i("y", o.n()); }
        else if (o.k == "make") {
            std::string k = o.b.substr(0, o.b.find(',')); int x = o.n(1), v = o.n(2); D d(T.ps[v]);
            if (k == "vgval") set(i, new Vg<E, D, E>(e[x], d)); else if (k == "vgref") set(i, new Vg<E, D, E&>(e[x], d)); else if (k == "vgptr") set(i, new Vg<E, D, E*>(&e[x], d));
            else if (k == "u01val") set(i, new U01<E, D, E>(e[x], 0)); else if (k == "u01ref") set(i, new U01<E, D, E&>(e[x], 0));
            else if (k == "u01ptr") set(i, new U01<E, D, E*>(&e[x], 0));
            else if (k == "rng") { if ((v + x) % 2) set(i, new Rn<long, E, D>(e[x])); else set(i, new Rn<int, E, D>(e[x])); } else abort();
            kind[i] = k; par[i] = v; bool val = k == "vgval" || k == "u01val"; on[i] = val ? a : x; if (val) cw[i] = ce[x];
            Ev("make").i("w", a).i("x", x).i("v", v).b("val", val).str("kind", k);
        }
        else if (o.k == "draw") draw(i, -1);
        else if (o.k == "arg") draw(i, o.n());
        else if (o.k == "wraw") { for (int k = 0; k < o.n(); ++k) (*eng(i))(); cell(i).p += o.n(); Ev("wraw").i("w", a).i("k", o.n()); }
        else if (o.k == "wseed") { eng(i)->seed((std::uint32_t)(o.n() * 40503u + 17)); cell(i) = {o.n(), 0}; Ev("wseed").i("w", a).i("s", o.n()); }
        else if (o.k == "setp") { w[i]->setp(T.ps[o.n()]); par[i] = o.n(); Ev("setp").i("w", a).i("v", o.n()); }
        else if (o.k == "copy" || o.k == "wasg") {
            int j = o.n() - 10; if (o.k == "copy") { W* n = w[i]->copy(); set(j, n); } else w[j]->assign(*w[i]);
            kind[j] = kind[i]; par[j] = par[i]; if (on[i] == a) { on[j] = j + 10; cw[j] = cw[i]; } else on[j] = on[i];
            Ev("copy").i("a", a).i("b", j + 10).str("how", o.k);
        } else abort();
        obs();
    }
};
template<class E, class D> void entry(const char* nm, std::vector<typename D::param_type> ps) {
    DI<D>* t = new DI<D>{ps};
    for (size_t k = 0; k < scripts.size(); ++k) { const Script s = scripts[k]; section(std::string(nm) + "/" + std::to_string(k), [=] { Player<E, D> p(*t); p.obs(); for (auto& o : s) p.op(o); }); }
}
template<class E> void engine(std::string n) {
    typedef std::int32_t I;
    { typedef r::uniform_int_distribution<I> D; typedef D::param_type P; entry<E, D>((n + "/uniform_int").c_str(), {P(0, 9), P(-5, 1000000000), P(3, 3)}); }
    { typedef r::uniform_real_distribution<double> D; typedef D::param_type P; entry<E, D>((n + "/uniform_real").c_str(), {P(0, 1), P(-3, 10), P(100, 1e9)}); }
    { typedef r::normal_distribution<double> D; typedef D::param_type P; entry<E, D>((n + "/normal").c_str(), {P(0, 1), P(-3, 10), P(100, 0.5)}); }
    { typedef r::exponential_distribution<float> D; typedef D::param_type P; entry<E, D>((n + "/exponential").c_str(), {P(1), P(3), P(0.1f)}); }
    { typedef r::poisson_distribution<int> D; typedef D::param_type P; entry<E, D>((n + "/poisson").c_str(), {P(1), P(33), P(0.1)}); }
    { typedef r::bernoulli_distribution<> D; typedef D::param_type P; entry<E, D>((n + "/bernoulli").c_str(), {P(0.5), P(0.9), P(0.1)}); }
    { typedef r::uniform_smallint<int> D; typedef D::param_type P; entry<E, D>((n + "/uniform_smallint").c_str(), {P(0, 9), P(-3, 10), P(1, 1000)}); }
    { typedef r::gamma_distribution<> D; typedef D::param_type P; entry<E, D>((n + "/gamma").c_str(), {P(1, 1), P(0.3, 2), P(7, 1)}); }
}
int main(int argc, char** argv) {
    if (getenv("VERIF_SCRIPTS")) load_scripts(getenv("VERIF_SCRIPTS"));
#if PART == 0
    engine<r::mt19937>("mt19937");
#elif PART == 1
    engine<r::minstd_rand>("minstd_rand");
#elif PART == 2
    engine<r::lagged_fibonacci607>("lagged_fibonacci607");
#elif PART == 3
    engine<Own>("own");
#else
    engine<r::ranlux3>("ranlux3"); engine<r::mt19937_64>("mt19937_64");
#endif
    return run(argc, argv);
}
