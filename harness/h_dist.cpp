// Replays histories generated from the specification DistAPI on every distribution
// (C11: draws, parameters, copies; C12: text round trips and damaged texts).
#include "dists.hpp"
#include <fstream>
#ifndef PART
#define PART 0
#endif
static std::string mode;
struct Op { std::string k; int a; int b; };
typedef std::vector<Op> Script;
static std::vector<Script> scripts;
static void load_scripts(const char* f) {
    std::ifstream in(f); std::string ln;
    while (std::getline(in, ln)) { Script s; std::stringstream ss(ln); std::string it; while (std::getline(ss, it, ';')) { std::stringstream t(it); Op o; t >> o.k >> o.a >> o.b; if (o.k.size()) s.push_back(o); } if (s.size()) scripts.push_back(s); }
}
// from every parameter set to every other one, by each way there is, with draws before and after
static Script all_pairs() {
    Script s; auto op = [&](const char* k, int a, int b = 0) { s.push_back(Op{k, a, b}); };
    for (int v = 0; v < 4; ++v) for (int w = 0; w < 4; ++w) if (v != w) {
        op("new", 1, v); op("draw", 1, 1); op("mkp", 1, w); op("param", 1, 1); op("draw", 1, 1);
        op("new", 2, w); if (mode == "c12") { op("save", 2); op("new", 3, v); op("draw", 3, 2); op("load", 3); op("draw", 3, 2); }
        else { op("draw", 2, 2); op("new", 3, v); op("draw", 3, 2); op("assign", 2, 3); op("draw", 3, 2); op("new", 3, v); op("drawp", 3, 11); op("draw", 3, 1); }
    }
    return s;
}
// an engine whose n-th value is a function of its seed and n, over several ranges
template<int K> struct RangeOf;
template<> struct RangeOf<0> { typedef std::uint32_t T; static constexpr T lo = 0, hi = 0xffffffffu; };
template<> struct RangeOf<1> { typedef std::uint64_t T; static constexpr T lo = 0, hi = ~0ull; };
template<> struct RangeOf<2> { typedef std::int32_t T; static constexpr T lo = -1000, hi = 1 << 20; };
template<> struct RangeOf<3> { typedef double T; static constexpr T lo = 0, hi = 1; };
template<> struct RangeOf<4> { typedef std::uint8_t T; static constexpr T lo = 0, hi = 255; };
template<> struct RangeOf<5> { typedef std::uint32_t T; static constexpr T lo = 1, hi = 0x7ffffffeu; };
struct Fault {};
template<int K> struct CE {
    typedef typename RangeOf<K>::T result_type; int s; long p, lim;      // values given so far; values to give before throwing (-1: no end)
    CE(int s_ = 1, long p_ = 0) : s(s_), p(p_), lim(-1) {}
    static constexpr result_type min() { return RangeOf<K>::lo; } static constexpr result_type max() { return RangeOf<K>::hi; }
    result_type operator()() { if (lim == 0) throw Fault(); if (lim > 0) --lim; Rng g(s * 1000003ull + seed() * 77); g.s += 0xD1B54A32D192ED03ull * (u64)p++; u64 x = g.next(); return conv(x, std::is_integral<result_type>()); }
    static result_type conv(u64 x, std::true_type) { u64 w = (u64)(long)RangeOf<K>::hi - (u64)(long)RangeOf<K>::lo; return (result_type)((u64)RangeOf<K>::lo + (w == ~0ull ? x : x % (w + 1))); }
    static result_type conv(u64 x, std::false_type) { return (result_type)((x >> 11) / 9007199254740992.0); }
};
template<class T> void mixv(u64& h, const T& v) { mixn(h, (LD)v); }
template<class T> void mixv(u64& h, const std::vector<T>& v) { for (auto& x : v) mixn(h, (LD)x); mix(h, "/"); }
static const int NDRAW = 3;

template<class D, class Eng, class Ch> struct Player {
    typedef typename D::param_type P;
    const Ent<D>& T; D* d[4]; P* q[3]; int dv[4], qv[3]; Eng e[3];
    std::basic_stringstream<Ch> ss; tr::Fmt<std::basic_stringstream<Ch> > fm; struct It { int v; }; std::vector<int> queue;
    Player(const Ent<D>& t) : T(t), fm(ss) {
        for (int i = 1; i <= 3; ++i) { d[i] = new D(T.mk[0]()); dv[i] = 0; } for (int i = 1; i <= 2; ++i) { q[i] = new P(T.mkp[0]()); qv[i] = 0; e[i] = Eng(i, 0); }
        std::vector<long> a, b; for (int i = 0; i < 4; ++i) { a.push_back(digest(T.all(i))); b.push_back(digest(T.want[i])); }
        Ev("table").is("d", a).is("p", b); ss << std::setprecision(T.digits); fm.note();
    }
    ~Player() { for (int i = 1; i <= 3; ++i) delete d[i]; for (int i = 1; i <= 2; ++i) delete q[i]; }
    void obs() {
        bool eq[4] = {*d[1] == *d[2], *d[1] == *d[3], *d[2] == *d[3], *q[1] == *q[2]}, ne[4] = {*d[1] != *d[2], *d[1] != *d[3], *d[2] != *d[3], *q[1] != *q[2]};
        std::vector<long> a, b; for (int i = 1; i <= 3; ++i) a.push_back(digest(T.acc(*d[i]))); for (int i = 1; i <= 2; ++i) b.push_back(digest(T.accp(*q[i])));
        auto bl = [](bool* x) { std::string s = "["; for (int i = 0; i < 4; ++i) s += std::string(i ? "," : "") + (x[i] ? "true" : "false"); return s + "]"; };
        Ev("obs").raw("eq", bl(eq)).raw("ne", bl(ne)).is("acc", a).is("accp", b);
    }
    void draw(int i, int x, int k) {      // k: param object, or 0
        int v = k ? qv[k] : dv[i]; Eng f(e[x].s, e[x].p); int s = e[x].s; long p = e[x].p; u64 h = 1, g = 1;
        for (int n = 0; n < NDRAW; ++n) { if (k) mixv(h, (*d[i])(e[x], *q[k])); else mixv(h, (*d[i])(e[x])); }
        // every value of the reference comes from an object of its own
        for (int n = 0; n < NDRAW; ++n) { if (k && !T.percall) { D o; P pp(T.mkp[v]()); mixv(g, o(f, pp)); } else { D o(T.mk[v]()); mixv(g, o(f)); } }
        Ev("draw").i("d", i).i("x", x).i("q", k).i("v", v).i("s", s).i("p", p).i("vals", fold(h)).i("ref", fold(g)).i("used", e[x].p - p).i("rused", f.p - p);
    }
    void fault(int i, int x, int k) {
        Eng f(e[x].s, e[x].p); int s = e[x].s; long p = e[x].p; u64 h = 1, g = 1; bool t = false, u = false; e[x].lim = f.lim = k;
        try { mixv(h, (*d[i])(e[x])); } catch (Fault&) { t = true; }
        try { D o(T.mk[dv[i]]()); mixv(g, o(f)); } catch (Fault&) { u = true; }
        e[x].lim = -1;
        Ev("fault").i("d", i).i("x", x).i("k", k).i("v", dv[i]).i("s", s).i("p", p).b("threw", t).b("rthrew", u).i("val", fold(h)).i("rval", fold(g)).i("used", e[x].p - p).i("rused", f.p - p);
    }
    void sep() { if (!queue.empty()) ss << (queue.size() % 2 ? Ch(' ') : Ch('\n')); }
    void drained() { if (queue.empty()) { ss.str(std::basic_string<Ch>()); ss.clear(); } }
    void op(const Op& o) {
        int a = o.a, b = o.b;
        if (o.k == "new") { delete d[a]; d[a] = new D(T.mk[b]()); dv[a] = b; Ev("new").i("d", a).i("v", b); }
        else if (o.k == "newp") { delete d[a]; d[a] = new D(T.mkp[b]()); dv[a] = b; Ev("new").i("d", a).i("v", b); }
        else if (o.k == "mkp") { *q[a] = T.mkp[b](); qv[a] = b; Ev("mkp").i("q", a).i("v", b); }
        else if (o.k == "param") { d[a]->param(*q[b]); dv[a] = qv[b]; Ev("param").i("d", a).i("q", b); }
        else if (o.k == "getp") { *q[a] = const_cast<const D*>(d[b])->param(); qv[a] = dv[b]; Ev("getp").i("q", a).i("d", b); }
        else if (o.k == "reset") { d[a]->reset(); Ev("reset").i("d", a); }
        else if (o.k == "copy") { D* n = new D(const_cast<const D&>(*d[a])); delete d[b]; d[b] = n; dv[b] = dv[a]; Ev("copy").i("a", a).i("b", b); }
        else if (o.k == "assign") { *d[b] = const_cast<const D&>(*d[a]); dv[b] = dv[a]; Ev("copy").i("a", a).i("b", b); }
        else if (o.k == "move") { D t(*d[a]); D* n = new D(std::move(t)); delete d[b]; d[b] = n; dv[b] = dv[a]; Ev("copy").i("a", a).i("b", b); }
        else if (o.k == "swap") { std::swap(*d[a], *d[b]); std::swap(dv[a], dv[b]); Ev("swap").i("a", a).i("b", b); }
        else if (o.k == "draw") draw(a, b, 0);
        else if (o.k == "drawp") draw(a, b % 10, b / 10);
        else if (o.k == "fault") fault(a, b % 10, b / 10);
        else if (o.k == "reseed") { e[a] = Eng(b, 0); Ev("reseed").i("x", a).i("s", b); }
        else if (o.k == "ecopy") { e[b] = e[a]; Ev("ecopy").i("x", a).i("y", b); }
        else if (o.k == "save") { sep(); fm.writing(); ss << const_cast<const D&>(*d[a]); queue.push_back(dv[a]); Ev("save").i("d", a).b("good", ss.good()).b("kept", fm.kept()); }
        else if (o.k == "savep") { sep(); fm.writing(); ss << const_cast<const P&>(*q[a]); queue.push_back(qv[a]); Ev("savep").i("q", a).b("good", ss.good()).b("kept", fm.kept()); }
        else if (o.k == "mark") { sep(); ss << 4242; queue.push_back(0); Ev("mark"); }
        else if (o.k == "load") { fm.reading(); ss >> *d[a]; dv[a] = queue[0]; queue.erase(queue.begin()); Ev("load").i("d", a).b("fail", ss.fail()).b("kept", fm.kept()); drained(); }
        else if (o.k == "loadp") { fm.reading(); ss >> *q[a]; qv[a] = queue[0]; queue.erase(queue.begin()); Ev("loadp").i("q", a).b("fail", ss.fail()).b("kept", fm.kept()); drained(); }
        else if (o.k == "readmark") { int v = 0; fm.reading(); ss >> v; queue.erase(queue.begin()); Ev("readmark").b("fail", ss.fail()).b("right", v == 4242); drained(); }
        else abort();
        obs();
    }
};
template<class D, class Eng, class Ch> void play(const Ent<D>& T, const Script& s, int fmt = 0) {
    Player<D, Eng, Ch> p(T); p.fm.set(fmt); for (auto& o : s) p.op(o);
    for (int i = 1; i <= 3; ++i) p.draw(i, i % 2 + 1, 0); p.draw(1, 2, 2);
}
// ---- damaged texts ----
static std::vector<std::string> toks(const std::string& t) { std::string u; for (char c : t) { if (c == '[' || c == ']') { u += ' '; u += c; u += ' '; } else u += c; } std::stringstream ss(u); std::vector<std::string> v; std::string x; while (ss >> x) v.push_back(x); return v; }
static std::string join(const std::vector<std::string>& v, size_t k) { std::string s; for (size_t i = 0; i < k && i < v.size(); ++i) { if (i) s += ' '; s += v[i]; } return s; }
template<class D> void damaged(const Ent<D>& T) {
    typedef typename D::param_type P;
    for (int v = 0; v < 4; ++v) {
        std::stringstream o; o << std::setprecision(T.digits) << T.mk[v](); std::vector<std::string> t = toks(o.str()); int n = t.size();
        std::stringstream op; op << std::setprecision(T.digits) << T.mkp[v](); std::vector<std::string> tp = toks(op.str());
        auto attempt = [&](const std::string& s, int k, int n, bool bad, bool dist) {
            int w = (v + 1) % 4; D x(T.mk[w]()), before(x); P y(T.mkp[w]()); std::stringstream ss(s); bool thrown = false;
            try { if (dist) ss >> x; else ss >> y; } catch (std::exception&) { thrown = true; }
            bool same = true;
            if (dist && ss.fail()) { CE<0> a(7, 0), b(7, 0); u64 h = 1, g = 1; same = x == before && digest(T.acc(x)) == digest(T.acc(before)); if (same) { for (int i = 0; i < 3; ++i) { mixv(h, x(a)); mixv(g, before(b)); } same = h == g && a.p == b.p; } }
            Ev("damaged").i("k", k).i("n", n).b("bad", bad).b("dist", dist).b("fail", ss.fail() && !thrown).b("same", same).str("text", s);
        };
        for (int dist = 0; dist < 2; ++dist) {
            std::vector<std::string>& u = dist ? t : tp; int m = u.size();
            for (int k = 0; k < m; ++k) {
                attempt(join(u, k), k, m, false, dist); if (k) attempt(join(u, k) + " \n", k, m, false, dist);
                std::vector<std::string> w = u; w[k] = "x"; attempt(join(w, m), k, m, false, dist);
                if (u[k].size() > 1) attempt((k ? join(u, k) + " " : std::string()) + u[k].substr(0, u[k].size() / 2), k + 1, m, false, dist);
            }
            attempt("", 0, m, false, dist); attempt("\n ", 0, m, false, dist);
            for (auto& b : T.bad) attempt(b, m, m, true, dist);
        }
    }
}
template<class D> void entry(const Ent<D>& T0) {
    static std::vector<Ent<D>*> keep; Ent<D>* T = new Ent<D>(T0); keep.push_back(T);
    bool near = T->name.find("_near") != std::string::npos;
    section(T->name + "/pairs", [=] { play<D, CE<1>, char>(*T, all_pairs()); });
    for (size_t k = 0; k < scripts.size() && !near; ++k) {
        const Script s = scripts[k]; std::string nm = T->name + "/" + std::to_string(k);
        // no hexadecimal or octal here: such a stream cannot read back the negative
        // integers it writes
        static const int kinds[] = {tr::FMT_PLAIN, tr::FMT_NOSKIPWS, tr::FMT_WIDTH, tr::FMT_SCI, tr::FMT_GROUP, tr::FMT_SIGN, tr::FMT_LEFT, tr::FMT_THROW};
        int fmt = mode == "c12" ? kinds[k % 8] : 0; if (fmt) nm += "f" + std::to_string(fmt);
        switch (k % 6) {
        case 0: section(nm, [=] { play<D, CE<0>, char>(*T, s, fmt); }); break;
        case 1: if (mode == "c12") section(nm + "w", [=] { play<D, CE<1>, wchar_t>(*T, s, fmt); }); else section(nm, [=] { play<D, CE<1>, char>(*T, s, fmt); }); break;
        case 2: section(nm, [=] { play<D, CE<2>, char>(*T, s, fmt); }); break;
        case 3: section(nm, [=] { play<D, CE<3>, char>(*T, s, fmt); }); break;
        case 4: section(nm, [=] { play<D, CE<4>, char>(*T, s, fmt); }); break;
        case 5: section(nm, [=] { play<D, CE<5>, char>(*T, s, fmt); }); break;
        }
    }
    if (mode == "c12" && !near && !T->named.empty()) section(T->name + "/named", [=] {
        Player<D, CE<0>, char> p(*T);
        for (auto& n : T->named) { D d(T->mk[2]()); std::stringstream s(n.first); s >> d; Ev("named").i("v", n.second).b("fail", s.fail()).i("acc", digest(T->acc(d))); typename D::param_type q(T->mkp[2]()); std::stringstream t(n.first); t >> q; Ev("namedp").i("v", n.second).b("fail", t.fail()).i("acc", digest(T->accp(q))); D z(q); Ev("named").i("v", n.second).b("fail", false).i("acc", digest(T->acc(z))); } });
    if (mode == "c12" && !near) section(T->name + "/damaged", [=] { damaged<D>(*T); });
}
int main(int argc, char** argv) {
    mode = getenv("VERIF_MODE") ? getenv("VERIF_MODE") : "c11";
    if (getenv("VERIF_SCRIPTS")) load_scripts(getenv("VERIF_SCRIPTS"));
    part<PART>([](auto e) { entry(e); });
    return run(argc, argv);
}
