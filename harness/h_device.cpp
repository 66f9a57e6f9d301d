// random_device on a source whose answers are scripted (system calls of src/random_device.cpp
// are intercepted with --wrap), and on real pipes.
#include "trace.hpp"
#include <boost/random/random_device.hpp>
#include <fstream>
#include <thread>
#include <atomic>
#include <limits>
#include <cerrno>
#include <fcntl.h>
#include <stdarg.h>
#include <sys/stat.h>
using namespace tr;
static bool g_on = false, g_script = false;       // inside a call of the library; scripted source
static std::string g_path; static int g_fd = -1; static std::vector<std::string> g_ans; static size_t g_next = 0; static unsigned long g_pos = 0; static unsigned g_reads = 0;   // reads since the device was opened
static unsigned char byte_at(unsigned long i) { return (unsigned char)((i * 37 + 11 + (i / 7) * 101 + i / 256) % 256); }
extern "C" {
int __real_open(const char*, int, ...); ssize_t __real_read(int, void*, size_t); int __real_close(int);
int __wrap_open(const char* p, int fl, ...) {
    if (!g_on) { va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); return __real_open(p, fl, m); }
    bool ok; int r;
    g_reads = 0;
    if (g_script) { ok = !(g_next < g_ans.size() && g_ans[g_next] == "nofile"); ++g_next; r = ok ? 1234 : -1; if (!ok) errno = ENOENT; }
    else { r = __real_open(p, fl); ok = r >= 0; }
    int e = errno; if (ok) g_fd = r;
    Ev("open").str("path", p).b("ok", ok); errno = e; return r;
}
ssize_t __wrap_read(int fd, void* buf, size_t n) {
    if (!g_on) return __real_read(fd, buf, n);
    ssize_t k; const char* f = "ok"; int e = errno;
    if (++g_reads > 400) { Ev("crash").str("why", "reads without end"); fflush(tr::out()); _exit(0); }
    if (g_script) {
        std::string a = g_next < g_ans.size() ? g_ans[g_next] : "16"; ++g_next;
        if (a == "eof") { k = 0; f = "eof"; } else if (a == "intr") { k = -1; f = "intr"; e = EINTR; } else if (a == "err") { k = -1; f = "err"; e = EIO; }
        else { k = atoi(a.c_str()); if ((size_t)k > n) k = n; for (ssize_t i = 0; i < k; ++i) ((unsigned char*)buf)[i] = byte_at(g_pos++); }
    } else { k = __real_read(fd, buf, n); e = errno; f = k == 0 ? "eof" : k < 0 ? (e == EINTR ? "intr" : "err") : "ok"; }
    { Ev x("read"); x.i("n", n).i("k", k).str("f", f).b("right", fd == g_fd); }
    errno = e; return k;
}
int __wrap_close(int fd) {
    if (!g_on) return __real_close(fd);
    Ev("close").b("right", fd == g_fd); return g_script ? 0 : __real_close(fd);
}
}
struct On { On() { g_on = true; } ~On() { g_on = false; } };
static std::string bytes(const std::vector<unsigned>& v) {
    std::string s = "["; for (size_t i = 0; i < v.size(); ++i) { unsigned char b[4]; memcpy(b, &v[i], 4); if (i) s += ','; s += "[" + std::to_string(b[0]) + "," + std::to_string(b[1]) + "," + std::to_string(b[2]) + "," + std::to_string(b[3]) + "]"; }
    return s + "]";
}
static void device(const std::string& path, const std::vector<unsigned>& plan, bool deflt = false) {
    g_path = path; g_fd = -1; g_pos = 0; g_next = 0;
    Ev("device").str("path", path);
    boost::random::random_device* d = 0;
    Ev("call").str("c", "ctor");
    try { On o; d = deflt ? new boost::random::random_device() : new boost::random::random_device(path); } catch (std::exception&) {} catch (...) { Ev("throw").b("right", false); return; }
    if (!d) { Ev("throw").b("right", true); return; }
    Ev("done");
    for (unsigned n : plan) {                   // 1: a single value, otherwise generate()
        std::vector<unsigned> v; bool threw = false, right = true;
        Ev("call").str("c", "value");
        if (n == 1) { try { On o; v.push_back((*d)()); } catch (std::exception&) { threw = true; } catch (...) { threw = true; right = false; } }
        else {
            std::vector<unsigned> buf(n + 2, 0xabcdabcd); size_t k = 0;
            struct It { unsigned* p; size_t* k; struct Ref { unsigned* p; size_t* k; void operator=(unsigned x) { *p = x; ++*k; } }; Ref operator*() { return Ref{p, k}; } It& operator++() { ++p; return *this; } bool operator!=(const It& o) const { return p != o.p; } bool operator==(const It& o) const { return p == o.p; } };
            try { On o; d->generate(It{&buf[1], &k}, It{&buf[1 + n], &k}); } catch (std::exception&) { threw = true; } catch (...) { threw = true; right = false; }
            v.assign(buf.begin() + 1, buf.begin() + 1 + k); if (buf[0] != 0xabcdabcd || buf[n + 1] != 0xabcdabcd) right = false, threw = true;
        }
        Ev x("values"); x.i("n", n).b("threw", threw).b("right", right).raw("bs", bytes(v));
    }
    Ev("call").str("c", "dtor");
    { On o; delete d; }
    Ev("done");
}
static std::string scratch() { char b[] = "/tmp/verif_rdXXXXXX"; return mkdtemp(b); }
int main(int argc, char** argv) {
    std::vector<std::vector<std::string>> sc; std::ifstream f(getenv("VERIF_SCRIPTS")); std::string ln;
    while (std::getline(f, ln)) { sc.emplace_back(); std::istringstream is(ln); std::string x; while (is >> x) sc.back().push_back(x); }
    for (size_t a = 0; a < sc.size(); a += 400) section("scripts/" + std::to_string(a), [=] {
        g_script = true;
        for (size_t i = a; i < a + 400 && i < sc.size(); ++i) {
            g_ans = sc[i]; const unsigned plans[4][4] = {{1, 1, 1, 1}, {2, 1, 0, 3}, {1, 2, 1, 0}, {0, 3, 1, 1}};
            std::vector<unsigned> p(plans[i % 4], plans[i % 4] + 4);
            device(i % 3 ? "some source" : "/dev/other", p);
        }
    });
    section("default", [=] { g_script = true; g_ans.clear(); device("/dev/urandom", {1, 3, 1}, true); g_ans = {"nofile"}; device("/dev/urandom", {1}, true); 
        Ev("facts").b("min0", (boost::random::random_device::min)() == 0).b("max32", (boost::random::random_device::max)() == 0xffffffffu).i("entropy", (long)[] { g_script = false; boost::random::random_device d; return d.entropy(); }()); });
    // a real pipe that delivers pieces of 1 to 7 bytes, then ends
    for (int t = 0; t < 6; ++t) section("pipe/" + std::to_string(t), [=] {
        g_script = false; std::string dir = scratch(), p = dir + "/p"; mkfifo(p.c_str(), 0600);
        pid_t w = fork();
        if (w == 0) { int fd = __real_open(p.c_str(), O_WRONLY); unsigned long pos = 0; unsigned s = t * 7 + 1; unsigned char b[8];
            while (pos < 41u + t) { s = s * 1103515245 + 12345; unsigned k = 1 + (s >> 16) % 7; for (unsigned i = 0; i < k; ++i) b[i] = byte_at(pos + i); if (write(fd, b, k) < 0) break; pos += k; usleep(3000); }
            _exit(0); }
        device(p, {1, 1, 3, 1, 2, 1, 1, 1, 1});
        int st; waitpid(w, &st, 0); unlink(p.c_str()); rmdir(dir.c_str());
    });
    section("real", [=] {
        g_script = false; std::string dir = scratch(), p = dir + "/f";
        { std::ofstream o(p, std::ios::binary); for (unsigned long i = 0; i < 4 * 9 + 2; ++i) o.put((char)byte_at(i)); }
        device(p, {1, 4, 1, 3, 1, 1});                     // ends in the middle of a value
        device(dir, {1, 1});                                // a directory cannot be read
        unlink(p.c_str()); device(p, {1}); rmdir(dir.c_str());
    });
    return run(argc, argv);
}
