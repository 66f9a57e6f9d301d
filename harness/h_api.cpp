// Replays scripts generated from the specification EngineAPI on every engine of the catalog
// (C02: draws and discards, C03: copies and comparisons, C04: text round trips).
#include "eng.hpp"
#include <fstream>
static std::string mode;
struct Op { std::string k; int a; std::string z; int b; };
typedef std::vector<Op> Script;
static std::vector<Script> scripts;
static void load_scripts(const char* f) {   // lines: "op a z;op a z;..."
    std::ifstream in(f); std::string ln;
    while (std::getline(in, ln)) {
        Script s; std::stringstream ss(ln); std::string it;
        while (std::getline(ss, it, ';')) { std::stringstream t(it); Op o; t >> o.k >> o.a >> o.z; o.b = atoi(o.z.c_str()); if (o.k.size()) s.push_back(o); }
        if (s.size()) scripts.push_back(s);
    }
}
static long sym(const std::string& z, long B) {
    long b = B;
    if (z == "z0") return 0; if (z == "z1") return 1; if (z == "z2") return 2; if (z == "z3") return 3;
    if (b == 1) return z == "zh" ? 5 : z == "zm" ? 7 : z == "zB" ? 17 : z == "zp" ? 64 : z == "zd" ? 100 : z == "zD" ? 255 : 1000;
    return z == "zh" ? b / 2 : z == "zm" ? b - 1 : z == "zB" ? b : z == "zp" ? b + 1 : z == "zd" ? 2 * b : z == "zD" ? 2 * b + 1 : 3 * b - 1;
}
// digest of a value: 31 bits (only equality of digests is used)
template<class T> long dig(T v) {
    u64 x; if (std::is_integral<T>::value) x = (u64)v; else { long double y = v; int ex = 0; y = std::frexp(y, &ex); x = (u64)std::ldexp(y, 63) ^ ((u64)(unsigned)ex << 1); }
    x ^= x >> 31; x *= 0x9E3779B97F4A7C15ull; return (long)(x >> 33);
}
template<class E> E* fresh(int s, const EngInfo& I) {
    if (s == 1) return new E();
    if (s == 2) return new E((unsigned char)(101 + seed()));
    if (I.tag("nowords")) return new E((unsigned char)(77 + seed()));
    boost::random::seed_seq q{1u, 2u, (unsigned)(3 + seed())}; return new E(q);
}
template<class E> void reseed(E& e, int s, const EngInfo& I) {
    if (s == 1) { e.seed(); return; }
    if (s == 2) { e.seed((unsigned char)(101 + seed())); return; }
    if (I.tag("nowords")) { e.seed((unsigned char)(77 + seed())); return; }
    boost::random::seed_seq q{1u, 2u, (unsigned)(3 + seed())}; e.seed(q);
}
template<class E> long future(const E& e, int W) { E c(e); u64 h = 1; for (int i = 0; i < W; ++i) { h = h * 6364136223846793005ull + (u64)dig(c()) + 1442695040888963407ull; } return (long)(h >> 33); }

template<class E, class Ch> struct Player {
    EngInfo I; E* o[4]; int s[4]; long p[4];
    struct Ref { E* e; std::vector<long> v; Ref() : e(0) {} };
    Ref ref[4];
    std::basic_stringstream<Ch> ss; tr::Fmt<std::basic_stringstream<Ch> > fm; std::vector<std::pair<int, long> > q; int W;
    Player(const EngInfo& i) : I(i), fm(ss) { for (int k = 1; k <= 3; ++k) { o[k] = fresh<E>(1, I); s[k] = 1; p[k] = 0; } W = 2 * I.buf + 5; }
    long at(int st, long pos) { Ref& r = ref[st]; if (!r.e) r.e = fresh<E>(st, I); while ((long)r.v.size() <= pos) r.v.push_back(dig((*r.e)())); return r.v[pos]; }
    void eqs() {
        for (int a = 1; a <= 3; ++a) for (int b = a + 1; b <= 3; ++b) {
            const E& x = *o[a]; const E& y = *o[b];
            bool eq = x == y, ne = x != y, rev = y == x;
            long fa = 0, fb = 0; if (eq) { fa = future(x, W); fb = future(y, W); }
            Ev("eq").i("a", a).i("b", b).b("eq", eq).b("ne", ne).b("rev", rev).i("fa", fa).i("fb", fb);
        }
    }
    void drained() { if (q.empty()) { ss.str(std::basic_string<Ch>()); ss.clear(); } }
    void sep() { if (!q.empty()) ss << (q.size() % 2 ? Ch(' ') : Ch('\n')); }
    void draw(int a, long n) {
        std::vector<long> vals, rf; Ev e("draw"); e.i("o", a).i("s", s[a]).w("p", p[a]).w("n", n);
        for (long i = 0; i < n; ++i) { long v = dig((*o[a])()); if (i < 3 || i >= n - 3) { vals.push_back(v); rf.push_back(at(s[a], p[a] + i)); } }
        p[a] += n; e.is("vals", vals).is("ref", rf);
    }
    void op(const Op& x) {
        int a = x.a, b = x.b;
        if (x.k == "draw") draw(a, sym(x.z, I.buf));
        else if (x.k == "discard") { long z = sym(x.z, I.buf); o[a]->discard(z); p[a] += z; Ev("discard").i("o", a).w("z", z); }
        else if (x.k == "seed") { reseed(*o[a], b, I); s[a] = b; p[a] = 0; Ev("seed").i("o", a).i("s", b); }
        else if (x.k == "ctor") { delete o[a]; o[a] = fresh<E>(b, I); s[a] = b; p[a] = 0; Ev("seed").i("o", a).i("s", b); }
        else if (x.k == "copy") { E* n = new E(const_cast<const E&>(*o[a])); delete o[b]; o[b] = n; s[b] = s[a]; p[b] = p[a]; Ev("copy").i("a", a).i("b", b); }
        else if (x.k == "assign") { *o[b] = const_cast<const E&>(*o[a]); s[b] = s[a]; p[b] = p[a]; Ev("copy").i("a", a).i("b", b); }
        else if (x.k == "move") { E t(*o[a]); E* n = new E(std::move(t)); delete o[b]; o[b] = n; s[b] = s[a]; p[b] = p[a]; Ev("copy").i("a", a).i("b", b); }
        else if (x.k == "swap") { std::swap(*o[a], *o[b]); std::swap(s[a], s[b]); std::swap(p[a], p[b]); Ev("swap").i("a", a).i("b", b); }
        else if (x.k == "save") { sep(); fm.writing(); ss << const_cast<const E&>(*o[a]); q.push_back({s[a], p[a]}); Ev("save").i("a", a).b("good", ss.good()).b("kept", fm.kept()); }
        else if (x.k == "mark") { sep(); ss << 4242; q.push_back({0, 0}); Ev("mark"); }
        else if (x.k == "load") { fm.reading(); ss >> *o[a]; s[a] = q[0].first; p[a] = q[0].second; q.erase(q.begin()); Ev("load").i("b", a).b("fail", ss.fail()).b("kept", fm.kept()); drained(); }
        else if (x.k == "readmark") { int v = 0; fm.reading(); ss >> v; q.erase(q.begin()); Ev("readmark").b("fail", ss.fail()).b("right", v == 4242); drained(); }
        else abort();
        eqs();
    }
    ~Player() { for (int k = 1; k <= 3; ++k) delete o[k]; for (auto& r : ref) delete r.e; }
};
template<class E, class Ch> void play(const EngInfo& I, const Script& s, int fmt = 0) {
    Player<E, Ch> P(I); P.fm.set(fmt); for (auto& o : s) P.op(o);
    for (int k = 1; k <= 3; ++k) P.draw(k, I.buf > 1 ? I.buf + 1 : 4);
}

// ---- damaged and mixed texts --------------------------------------------
static std::vector<std::string> toks(const std::string& t) { std::stringstream ss(t); std::vector<std::string> v; std::string x; while (ss >> x) v.push_back(x); return v; }
static std::string join(const std::vector<std::string>& v, size_t k) { std::string r; for (size_t i = 0; i < k && i < v.size(); ++i) { if (i) r += ' '; r += v[i]; } return r; }
template<class E> std::string text(const E& e) { std::stringstream ss; ss << e; return ss.str(); }
static std::vector<size_t> pick(size_t n, size_t m, Rng& r) {
    std::vector<size_t> v; for (size_t k = 0; k < n; ++k) if (n <= m || k < 3 || k + 4 >= n || r.below(n) < m) v.push_back(k);
    return v;
}
template<class E> void damaged(const EngInfo& I) {
    Rng r(seed() + 5); int B = I.buf; long ps[] = {0, 1, B - 1, B, 2 * B + 1};
    for (int x = 0; x < 5; ++x) {
        E e; reseed(e, x % 2 + 1, I); for (long i = 0; i < ps[x]; ++i) e();
        std::vector<std::string> t = toks(text(e)); int n = t.size();
        auto tryread = [&](const std::string& s, int k) {
            std::stringstream ss(s); E f; f.discard(x); bool thrown = false; try { ss >> f; } catch (std::exception&) { thrown = true; }
            Ev("damaged").i("k", k).i("n", n).b("fail", ss.fail() && !thrown); };
        for (size_t k : pick(n, x == 0 ? 12 : 4, r)) {
            tryread(join(t, k), k);
            if (k) tryread(join(t, k) + "\n", k);
            std::vector<std::string> u = t; u[k] = "x"; tryread(join(u, n), k);
            if (t[k].size() > 1) tryread((k ? join(t, k) + " " : std::string()) + t[k].substr(0, t[k].size() / 2), k + 1);
        }
        tryread("", 0); tryread(" \n", 0); tryread(join(t, n), n);
    }
}
template<class E> void mixed(const EngInfo& I) {
    Rng r(seed() + 6); int B = I.buf; int W = 3 * B + 40;
    for (int x = 0; x < 4; ++x) {
        E a, b; reseed(a, 2, I); b = a;
        long p = r.below(2 * B + 2); for (long i = 0; i < p; ++i) { a(); b(); }
        if (x == 0) b(); else if (x == 1) { for (int i = 0; i < B; ++i) b(); } else if (x == 2) reseed(b, 3, I); else { for (int i = 0; i < 2; ++i) b(); }
        std::vector<std::string> ta = toks(text(a)), tb = toks(text(b)); if (ta.size() != tb.size()) continue;
        for (size_t k : pick(ta.size(), B > 2000 ? 3 : 24, r)) {
            if (ta[k] == tb[k]) continue;
            std::vector<std::string> u = ta; u[k] = tb[k]; std::stringstream ss(join(u, u.size())); E c; ss >> c; if (ss.fail()) continue;
            bool eq = c == a, fb = c == b; Ev("mixed").b("eq", eq).i("fa", eq ? future(a, W) : 0).i("fb", eq ? future(c, W) : 0);
            if (fb) Ev("mixed").b("eq", fb).i("fa", future(b, W)).i("fb", future(c, W));
        }
    }
}
// ---- discards too long to be compared with drawing: only the position counts
template<class E> void far(const EngInfo& I) {
    typedef Player<E, char> PL; PL P(I); Rng r(seed() + 11); bool th = thorough();
    auto fardraw = [&](int a) { std::vector<long> v; for (int i = 0; i < 3; ++i) v.push_back(dig((*P.o[a])())); Ev("far").i("o", a).w("n", 3).is("vals", v); };
    auto skip = [&](int a, u64 z) { P.o[a]->discard(z); Ev("discard").i("o", a).w("z", z); };
    auto plain = [&](int a, u64 n) { for (u64 i = 0; i < n; ++i) (*P.o[a])(); Ev("discard").i("o", a).w("z", n); };
    auto sd = [&](int a, int s) { reseed(*P.o[a], s, I); P.s[a] = s; P.p[a] = 0; Ev("seed").i("o", a).i("s", s); };
    std::vector<u64> zs = {10000001, 10000002, 20000000, 4294967295ull, 4294967296ull, 4294967297ull, 1ull << 62, 1ull << 63, ~0ull};
    for (int k = 0; k < (th ? 30 : 4); ++k) zs.push_back((r.next() >> r.below(40)) | (1 << 24));
    int c = 0;
    for (u64 z : zs) {
        int s = c++ % 3 + 1, B = I.buf; u64 x = r.next() % z, y = r.below(2 * B + 1), t = r.below(2 * B + 1); if (y > z) y = z;
        sd(1, s); skip(1, z); fardraw(1);
        sd(2, s); skip(2, x); if (z - x > 0) skip(2, z - x); fardraw(2);
        sd(3, s); plain(3, y); skip(3, z - y); plain(3, t); fardraw(3);
        skip(1, t); { const E& a = *P.o[1]; const E& b = *P.o[3]; bool eq = a == b; long fa = future(a, 40), fb = future(b, 40);
            Ev("eq").i("a", 1).i("b", 3).b("eq", eq).b("ne", a != b).b("rev", b == a).i("fa", fa).i("fb", fb); }
    }
    // where plain drawing is still feasible: both sides of the threshold
    for (u64 z : {9999999ull, 10000000ull, 10000001ull, 10000000ull + r.below(2000)}) {
        sd(1, 2); plain(1, r.below(I.buf + 1)); sd(2, 2); skip(2, z); sd(3, 2); plain(3, z); fardraw(2); fardraw(3);
    }
}
template<class E> void go(const EngInfo& I) {
    std::string nm = I.name; bool th = thorough();
#ifdef ALWAYS_JUMP
    if (nm.find("mt") == std::string::npos) return;
#endif
    size_t n = scripts.size(), use = I.buf > 5000 ? (th ? 6 : 1) : I.buf > 2000 ? 2 : n; if (use > n) use = n;
    unsigned h = 0; for (char c : nm) h = h * 31 + (unsigned char)c;
    for (size_t k = 0; k < use; ++k) {
        const Script s = scripts[use == n ? k : (h + k) % n];
        int fmt = mode == "c04" ? (h / 7 + k) % tr::FMT_KINDS : 0; std::string tail = (mode == "c04" ? "f" + std::to_string(fmt) + "." : "") + std::to_string(k);
        if (mode == "c04" && k % 3 == 2) section(nm + "/w" + tail, [=] { play<E, wchar_t>(I, s, fmt); }, 120);
        else section(nm + "/" + tail, [=] { play<E, char>(I, s, fmt); }, 120);
    }
    if (mode == "c02" && I.tag("fast")) section(nm + "/far", [=] { far<E>(I); }, 120);
    if (mode == "c04" && (I.buf <= 5000 || th)) section(nm + "/damaged", [=] { damaged<E>(I); }, 120);
    if (mode == "c03" && (I.buf <= 5000 || th)) section(nm + "/mixed", [=] { mixed<E>(I); }, 120);
}
int main(int argc, char** argv) {
    mode = getenv("VERIF_MODE") ? getenv("VERIF_MODE") : "c02";
    if (getenv("VERIF_SCRIPTS")) load_scripts(getenv("VERIF_SCRIPTS"));
#define ENGINE(n, sb, real, buf, tags, ...) { EngInfo I = {#n, sb, real, buf, tags}; go<__VA_ARGS__ >(I); }
#include "engines.inc"
    return run(argc, argv);
}
