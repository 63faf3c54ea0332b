// Common support for the monitors: seeded case generation, violation reporting, evidence counters,
// forked execution of hostile cases.  See DESIGN.md.
#ifndef VT_HPP
#define VT_HPP
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstring>
#include <cstdarg>
#include <cmath>
#include <cfloat>
#include <string>
#include <vector>
#include <map>
#include <unordered_set>
#include <functional>
#include <algorithm>
#include <mutex>
#include <limits>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <dirent.h>
#include <time.h>

extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));

namespace vt
{
struct Rng
{
    uint64_t s[2];
    static uint64_t mix(uint64_t& x)
    {
        uint64_t z = (x += 0x9E3779B97F4A7C15ULL);
        z = (z^(z >> 30))*0xBF58476D1CE4E5B9ULL;
        z = (z^(z >> 27))*0x94D049BB133111EBULL;
        return z^(z >> 31);
    }
    explicit Rng(uint64_t seed = 1) { s[0] = mix(seed); s[1] = mix(seed); }
    uint64_t next()
    {
        uint64_t a = s[0], b = s[1];
        s[0] = b; a ^= a << 23;
        s[1] = a^b^(a >> 18)^(b >> 5);
        return s[1]+b;
    }
    double u() { return (next() >> 11)*(1.0/9007199254740992.0); }      // [0,1)
    float uf() { float f = (float)u(); return f<1.f?f:0.99999994f; }    // [0,1)
    double range(double a, double b) { return a+(b-a)*u(); }
    float rangef(float a, float b) { return (float)range(a, b); }
    int irange(int a, int b) { return a+(int)(next()%(uint64_t)((int64_t)b-a+1)); } // inclusive
    bool chance(double p) { return u()<p; }
    double normal()
    {
        double a = u(), b = u();
        if(a<1e-300) a = 1e-300;
        return std::sqrt(-2*std::log(a))*std::cos(6.283185307179586*b);
    }
    template<class T> const T& pick(const std::vector<T>& v) { return v[next()%v.size()]; }
    // log-uniform magnitude
    double logrange(double a, double b) { return std::exp(range(std::log(a), std::log(b))); }
};

#ifndef VT_SLACK
#define VT_SLACK 1 // tolerances are multiplied by this; larger when the Release build is monitored, which rounds more freely
#endif
inline uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 1469598103934665603ULL)
{
    const unsigned char* c = (const unsigned char*)p;
    for(size_t i = 0; i<n; i++) { h ^= c[i]; h *= 1099511628211ULL; }
    return h;
}
inline uint64_t hash_str(const std::string& s) { return hash_bytes(s.data(), s.size()); }

struct State
{
    uint64_t seed = 1;
    bool thorough = false;
    int shard = 0, shards = 1;
    std::string only_section;
    long only_idx = -1;
    std::string scratch = "/tmp";
    std::map<std::string, long long> counters;
    std::map<std::string, double> maxima;
    std::unordered_set<uint64_t> distinct;
    std::vector<std::string> samples;
    std::map<std::string, int> viol_count;
    long long evals = 0;
    std::string rule;
    std::mutex mtx;
    char cur[256] = {0};
    struct timespec start;
};
inline State& S() { static State* s = new State; return *s; }
inline bool thorough() { return S().thorough; }
// number of cases: quick / thorough
inline long n(long quick, long thorough_) { return S().thorough?thorough_:quick; }

inline std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char* f, ...)
{
    char buf[4096];
    va_list ap;
    va_start(ap, f);
    vsnprintf(buf, sizeof buf, f, ap);
    va_end(ap);
    return buf;
}
inline void one_line(std::string& s)
{
    for(char& c : s) if(c == '\n' || c == '\r' || c == '\t') c = ' ';
}
inline void death()
{
    // async-signal-ish: plain write
    char b[400];
    int k = snprintf(b, sizeof b, "\nCRASHCASE\t%s\n", S().cur);
    if(k>0 && write(1, b, k)) {}
}
// a case which does not end is a violation of its own (the code under test hangs)
inline void on_alarm(int)
{
    char b[500];
    int k = snprintf(b, sizeof b, "\nVIOL\thang\t%s\tthe case did not end within 150 s\n", S().cur);
    if(k>0 && write(1, b, k)) {}
    _exit(3);
}
inline void on_signal(int sig)
{
    death();
    signal(sig, SIG_DFL);
    raise(sig);
}
inline void init(int argc, char** argv, const char* rule)
{
    State& s = S();
    s.rule = rule;
    clock_gettime(CLOCK_MONOTONIC, &s.start);
    for(int i = 1; i<argc; i++)
    {
        std::string a = argv[i];
        if(a == "--seed") s.seed = strtoull(argv[++i], 0, 10);
        else if(a == "--thorough") s.thorough = true;
        else if(a == "--shard") sscanf(argv[++i], "%d/%d", &s.shard, &s.shards);
        else if(a == "--scratch") s.scratch = argv[++i];
        else if(a == "--only")
        {
            std::string o = argv[++i];
            size_t p = o.rfind(':');
            s.only_section = o.substr(0, p);
            s.only_idx = p == std::string::npos?-1:atol(o.c_str()+p+1);
        }
    }
    signal(SIGALRM, on_alarm);
    setvbuf(stdout, NULL, _IOLBF, 1 << 16);
    if(__sanitizer_set_death_callback)
        __sanitizer_set_death_callback(death);
    else
        for(int sg : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL}) signal(sg, on_signal);
}
inline void violation(const std::string& sig, const char* f, ...) __attribute__((format(printf, 2, 3)));
inline void violation(const std::string& sig, const char* f, ...)
{
    char buf[3000];
    va_list ap;
    va_start(ap, f);
    vsnprintf(buf, sizeof buf, f, ap);
    va_end(ap);
    std::lock_guard<std::mutex> g(S().mtx);
    if(S().viol_count[sig]++<3)
    {
        std::string d = buf;
        one_line(d);
        printf("VIOL\t%s\t%s\t%s\n", sig.c_str(), S().cur, d.c_str());
        fflush(stdout);
    }
}
// one evaluated case. h identifies it, nontrivial says whether it counts by the harness's rule
inline void eval(uint64_t h, bool nontrivial = true)
{
    S().evals++;
    if(nontrivial && S().distinct.size()<4000000) S().distinct.insert(h);
}
inline void count(const std::string& k, long long d = 1) { S().counters[k] += d; }
inline void maxi(const std::string& k, double v) { double& m = S().maxima[k]; if(v>m) m = v; }
inline void sample(const std::string& s, size_t cap = 4) { if(S().samples.size()<cap) S().samples.push_back(s); }
// runs body for every case index of the section that belongs to this shard
inline void cases(const char* section, long count_, const std::function<void(Rng&, long)>& body)
{
    State& s = S();
    if(!s.only_section.empty() && s.only_section != section) return;
    struct timespec now;
    for(long i = 0; i<count_; i++)
    {
        if(s.only_idx>=0 ? i != s.only_idx : i%s.shards != s.shard) continue;
        // once something is wrong there is no need to sit through a slow tree
        if(!s.viol_count.empty() && !s.thorough && (clock_gettime(CLOCK_MONOTONIC, &now), now.tv_sec-s.start.tv_sec>90)) break;
        snprintf(s.cur, sizeof s.cur, "%s:%ld", section, i);
        Rng r(s.seed*0x9E3779B97F4A7C15ULL^hash_str(section)^((uint64_t)i*0xD1B54A32D192ED03ULL));
        alarm(150);
        body(r, i);
        alarm(0);
    }
    snprintf(s.cur, sizeof s.cur, "after-%s:0", section);
}
inline std::string jesc(const std::string& s)
{
    std::string o;
    for(unsigned char c : s)
    {
        if(c == '"' || c == '\\') { o += '\\'; o += (char)c; }
        else if(c<32 || c>126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
        else o += (char)c;
    }
    return o;
}
inline int finish()
{
    State& s = S();
    int nv = 0;
    for(auto& v : s.viol_count) nv += v.second;
    std::string o = "EVID\t{\"evaluations\":"+std::to_string(s.evals)+
                    ",\"distinct_nontrivial\":"+std::to_string(s.distinct.size())+
                    ",\"rule\":\""+jesc(s.rule)+"\",\"counters\":{";
    bool first = true;
    for(auto& c : s.counters) { o += fmt("%s\"%s\":%lld", first?"":",", jesc(c.first).c_str(), c.second); first = false; }
    o += "},\"maxima\":{";
    first = true;
    for(auto& c : s.maxima)
    {
        double v = std::isfinite(c.second)?c.second:1e308;
        o += fmt("%s\"%s\":%.6g", first?"":",", jesc(c.first).c_str(), v); first = false;
    }
    o += "},\"samples\":[";
    first = true;
    for(auto& c : s.samples) { o += (first?"\"":",\"")+jesc(c)+"\""; first = false; }
    o += "]}\n";
    fflush(stdout);
    fputs(o.c_str(), stdout);
    fflush(stdout);
    return nv?3:0;
}

// ---------------------------------------------------------------- forked execution of one case
struct Outcome
{
    bool exited = false, timeout = false;
    int code = -1, sig = 0;
    std::string err;       // what the child wrote to stderr (first 16 kB)
    bool sanitizer() const
    {
        return err.find("ERROR: AddressSanitizer") != std::string::npos ||
               err.find("runtime error:") != std::string::npos ||
               err.find("ERROR: LeakSanitizer") != std::string::npos ||
               err.find("WARNING: ThreadSanitizer") != std::string::npos ||
               err.find("WARNING: MemorySanitizer") != std::string::npos;
    }
    // a stable, one line description of what went wrong
    std::string what() const
    {
        if(timeout) return "timeout";
        size_t p = err.find("ERROR: AddressSanitizer: ");
        if(p != std::string::npos)
        {
            size_t e = err.find_first_of(" \n", p+25);
            std::string k = err.substr(p+25, e-p-25);
            return "asan:"+k+frame();
        }
        p = err.find("runtime error: ");
        if(p != std::string::npos) return "ubsan:"+frame();
        if(!exited) return fmt("signal:%d", sig);
        return fmt("exit:%d", code);
    }
    std::string frame() const  // innermost frame inside the repository's sources
    {
        size_t p = 0;
        while((p = err.find("/src/", p)) != std::string::npos)
        {
            size_t ls = err.rfind('\n', p);
            ls = ls == std::string::npos?0:ls+1;
            size_t in = err.find(" in ", ls);
            if(in != std::string::npos && in<p && err.find("compiler-rt", ls) > p)
            {
                std::string f = err.substr(in+4, p-in-4);
                size_t c = f.find_first_of("( ");
                return ":"+f.substr(0, c);
            }
            p += 5;
        }
        return "";
    }
};
template<class F> Outcome forked(F&& fn, double timeout_s = 20)
{
    Outcome o;
    fflush(stdout);
    fflush(stderr);
    char tmpl[512];
    snprintf(tmpl, sizeof tmpl, "%s/err.XXXXXX", S().scratch.c_str());
    int fd = mkstemp(tmpl);
    unlink(tmpl);
    pid_t pid = fork();
    if(pid == 0)
    {
        dup2(fd, 2);
        int dn = open("/dev/null", O_WRONLY);
        dup2(dn, 1);
        if(__sanitizer_set_death_callback) __sanitizer_set_death_callback([] {});
        for(int sg : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL})
            if(!__sanitizer_set_death_callback) signal(sg, SIG_DFL);
        int rc = fn();
        _exit(rc);
    }
    struct timespec t0, t1;
    clock_gettime(CLOCK_MONOTONIC, &t0);
    int st = 0;
    int spins = 0;
    while(true)
    {
        pid_t r = waitpid(pid, &st, WNOHANG);
        if(r == pid) break;
        clock_gettime(CLOCK_MONOTONIC, &t1);
        if((t1.tv_sec-t0.tv_sec)+(t1.tv_nsec-t0.tv_nsec)*1e-9>timeout_s)
        {
            kill(pid, SIGKILL);
            waitpid(pid, &st, 0);
            o.timeout = true;
            break;
        }
        usleep(spins++<50?200:2000);
    }
    if(!o.timeout)
    {
        o.exited = WIFEXITED(st);
        if(o.exited) o.code = WEXITSTATUS(st); else o.sig = WTERMSIG(st);
    }
    char buf[16384];
    ssize_t k = pread(fd, buf, sizeof buf, 0);
    if(k>0) o.err.assign(buf, k);
    close(fd);
    return o;
}
// shared memory visible to a forked child
template<class T> T* shared(size_t n_ = 1)
{
    void* p = mmap(NULL, sizeof(T)*n_, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    return (T*)p;
}
inline bool write_file(const std::string& p, const std::string& d)
{
    FILE* f = fopen(p.c_str(), "wb");
    if(!f) return false;
    size_t w = fwrite(d.data(), 1, d.size(), f);
    fclose(f);
    return w == d.size();
}
inline std::string read_file(const std::string& p)
{
    std::string o;
    FILE* f = fopen(p.c_str(), "rb");
    if(!f) return o;
    char b[65536];
    size_t k;
    while((k = fread(b, 1, sizeof b, f))>0) o.append(b, k);
    fclose(f);
    return o;
}
// ---- statistics helpers
// upper bound z-test helper: |x-mu| in units of sigma
inline double zscore(double observed, double expected, double sigma)
{
    return sigma>0?std::fabs(observed-expected)/sigma:(observed == expected?0:1e9);
}
// chi-square statistic turned into an approximate normal deviate (Wilson-Hilferty)
inline double chi2_z(double chi2, double dof)
{
    double t = std::pow(chi2/dof, 1.0/3.0);
    double m = 1-2.0/(9*dof);
    return (t-m)/std::sqrt(2.0/(9*dof));
}
}
#endif
