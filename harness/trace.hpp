// Trace writer and forked sections shared by all conformance harnesses.
// Every section runs in a child process of its own; a child that dies or runs
// out of time leaves a "crash" event, which no specification action accepts.
#ifndef VERIF_TRACE_HPP
#define VERIF_TRACE_HPP
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <functional>
#include <sstream>
#include <iostream>
#include <locale>
#include <stdexcept>
#include <unistd.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <signal.h>

namespace tr {
// the formatting state (and exception mask) a user may have left on the stream that objects are
// saved to and read from: 0 is the default
enum { FMT_PLAIN, FMT_HEX, FMT_NOSKIPWS, FMT_GROUP, FMT_WIDTH, FMT_SCI, FMT_SIGN, FMT_OCT, FMT_LEFT, FMT_HEXBASE, FMT_THROW, FMT_KINDS };
template<class Ch> struct Grouped : std::numpunct<Ch> { Ch do_thousands_sep() const { return Ch(','); } std::string do_grouping() const { return "\3"; } Ch do_decimal_point() const { return Ch('.'); } };
template<class S> struct Fmt {
    S& s; int k; std::ios_base::fmtflags f; std::streamsize p; typename S::char_type c; std::ios_base::iostate x;
    Fmt(S& st) : s(st), k(0) { note(); }
    void note() { f = s.flags(); p = s.precision(); c = s.fill(); x = s.exceptions(); }
    void set(int kind) {
        typedef typename S::char_type Ch; k = kind;
        switch (k) {
        case FMT_HEX: s.setf(std::ios_base::hex, std::ios_base::basefield); break;
        case FMT_OCT: s.setf(std::ios_base::oct, std::ios_base::basefield); break;
        case FMT_HEXBASE: s.setf(std::ios_base::hex, std::ios_base::basefield); s.setf(std::ios_base::showbase | std::ios_base::uppercase); break;
        case FMT_NOSKIPWS: s.unsetf(std::ios_base::skipws); break;
        case FMT_GROUP: s.imbue(std::locale(s.getloc(), new Grouped<Ch>)); break;
        case FMT_SCI: s.setf(std::ios_base::scientific, std::ios_base::floatfield); s.setf(std::ios_base::uppercase); break;
        case FMT_SIGN: s.setf(std::ios_base::showpos | std::ios_base::unitbuf | std::ios_base::boolalpha); break;
        case FMT_THROW: s.exceptions(std::ios_base::failbit | std::ios_base::badbit); break;
        case FMT_LEFT: s.setf(std::ios_base::left, std::ios_base::adjustfield); break;
        }
        note();
    }
    void writing() { if (k == FMT_WIDTH || k == FMT_LEFT) s.width(26); }
    void reading() { if (k == FMT_NOSKIPWS) s >> std::ws; }
    bool kept() { return s.flags() == f && s.precision() == p && s.fill() == c && s.exceptions() == x; }
};
typedef unsigned __int128 u128;
typedef std::uint64_t u64;

inline FILE*& out() { static FILE* f = stdout; return f; }
inline bool thorough() { const char* t = getenv("VERIF_TIER"); return t && std::string(t) == "thorough"; }
inline unsigned long seed() { const char* t = getenv("VERIF_SEED"); return t ? strtoul(t, 0, 10) : 1; }

// words are written as little-endian 15-bit limbs without trailing zero limbs
inline void limbs(std::string& s, u128 v) {
    s += '[';
    bool first = true;
    while (v) { if (!first) s += ','; first = false; s += std::to_string((unsigned)(v & 32767)); v >>= 15; }
    s += ']';
}
inline std::string limbs(u128 v) { std::string s; limbs(s, v); return s; }

struct Ev {
    std::string s;
    explicit Ev(const char* e) { s = "{\"e\":\""; s += e; s += '"'; }
    Ev& key(const char* k) { s += ",\""; s += k; s += "\":"; return *this; }
    Ev& i(const char* k, long v) {
        if (v > 2147483647L || v < -2147483647L) { fprintf(stderr, "trace int too big: %s %ld\n", k, v); abort(); }
        key(k); s += std::to_string(v); return *this; }
    Ev& b(const char* k, bool v) { key(k); s += v ? "true" : "false"; return *this; }
    Ev& w(const char* k, u128 v) { key(k); limbs(s, v); return *this; }
    Ev& str(const char* k, const std::string& v) {
        key(k); s += '"';
        for (char c : v) { if (c == '"' || c == '\\') { s += '\\'; s += c; } else if ((unsigned char)c < 32 || (unsigned char)c > 126) s += '?'; else s += c; }
        s += '"'; return *this; }
    template<class C> Ev& ws(const char* k, const C& v) {
        key(k); s += '['; bool f = true;
        for (auto& x : v) { if (!f) s += ','; f = false; limbs(s, (u128)x); }
        s += ']'; return *this; }
    template<class C> Ev& is(const char* k, const C& v) {
        key(k); s += '['; bool f = true;
        for (auto x : v) { if (!f) s += ','; f = false; long y = (long)x;
            if (y > 2147483647L || y < -2147483647L) { fprintf(stderr, "trace int too big: %s %ld\n", k, y); abort(); }
            s += std::to_string(y); }
        s += ']'; return *this; }
    Ev& raw(const char* k, const std::string& v) { key(k); s += v; return *this; }
    ~Ev() {
        s += "}\n"; static unsigned long total = 0; total += s.size();
        // a section that never stops recording is a hang, not a trace
        if (total > 200ul << 20) { fputs("{\"e\":\"crash\",\"why\":\"runaway\"}\n", out()); fflush(out()); _exit(0); }
        fwrite(s.data(), 1, s.size(), out()); fflush(out()); }
};

struct Section { std::string name; std::function<void()> fn; unsigned tmo; };
inline std::vector<Section>& sections() { static std::vector<Section> v; return v; }
inline void section(const std::string& name, std::function<void()> fn, unsigned tmo = 60) { sections().push_back({name, fn, tmo}); }

// usage: harness OUTDIR [only-section-substring]; writes OUTDIR/<n>.ndjson
inline int run(int argc, char** argv) {
    if (argc < 2) { fprintf(stderr, "usage: %s outdir [section]\n", argv[0]); return 2; }
    std::string dir = argv[1], only = argc > 2 ? argv[2] : "";
    const char* pj = getenv("VERIF_J"); int J = pj ? atoi(pj) : 8; if (J < 1) J = 1;
    struct Job { pid_t pid; size_t idx; };
    std::vector<Job> live;
    auto path = [&](size_t i) { return dir + "/" + std::to_string(i) + ".ndjson"; };
    auto reap = [&]() {
        int st; pid_t p = wait(&st); if (p < 0) return;
        for (size_t k = 0; k < live.size(); ++k) if (live[k].pid == p) {
            size_t i = live[k].idx;
            if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
                FILE* f = fopen(path(i).c_str(), "r+"); long end = 0;
                if (f) {   // cut a half-written last line
                    fseek(f, 0, SEEK_END); long n = ftell(f); end = n;
                    while (end > 0) { fseek(f, end - 1, SEEK_SET); if (fgetc(f) == '\n') break; --end; }
                    fclose(f); if (truncate(path(i).c_str(), end)) {}
                }
                f = fopen(path(i).c_str(), "a");
                if (f) {
                    std::string why = WIFSIGNALED(st) ? (WTERMSIG(st) == SIGALRM || WTERMSIG(st) == SIGXCPU ? "timeout" : "signal " + std::to_string(WTERMSIG(st)))
                                                      : "exit " + std::to_string(WEXITSTATUS(st));
                    fprintf(f, "{\"e\":\"crash\",\"sec\":\"%s\",\"why\":\"%s\"}\n", sections()[i].name.c_str(), why.c_str());
                    fclose(f);
                }
            }
            live.erase(live.begin() + k); break;
        }
    };
    for (size_t i = 0; i < sections().size(); ++i) {
        if (!only.empty() && sections()[i].name != only) continue;
        while ((int)live.size() >= J) reap();
        fflush(stdout);
        pid_t p = fork();
        if (p < 0) { perror("fork"); return 2; }
        if (p == 0) {
            out() = fopen(path(i).c_str(), "w");
            if (!out()) _exit(2);
            // CPU time, not wall time: a busy machine must not look like a hang
            struct rlimit rl; rl.rlim_cur = sections()[i].tmo; rl.rlim_max = sections()[i].tmo + 5; setrlimit(RLIMIT_CPU, &rl);
            alarm(sections()[i].tmo * 6);
            struct rlimit co; co.rlim_cur = co.rlim_max = 0; setrlimit(RLIMIT_CORE, &co);
            { Ev e("begin"); e.str("sec", sections()[i].name); }
            try { sections()[i].fn(); }
            catch (std::exception& x) { Ev("crash").str("sec", sections()[i].name).str("why", std::string("exception ") + x.what()); }
            catch (...) { Ev("crash").str("sec", sections()[i].name).str("why", "unknown exception"); }
            fclose(out());
            _exit(0);
        }
        live.push_back({p, i});
    }
    while (!live.empty()) reap();
    return 0;
}
// a small generator of its own, so that inputs do not depend on the code under test
struct Rng { u64 s; explicit Rng(u64 x) : s(x * 0x9E3779B97F4A7C15ull + 0x1234567) {}
    u64 next() { s += 0x9E3779B97F4A7C15ull; u64 z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    u64 below(u64 n) { return next() % n; } };
}
#endif
