// C34: what the program says: messages, durations and the progress shown while rendering, observed on the standard streams of a child process.
#include "vt.hpp"
#include "scenes.hpp"
#include "renderer.hpp"
#include "utility/utility.hpp"
#include "utility/console.hpp"
#include "cameras/camera_orthographic.hpp"
#include "samplers/filter_box.hpp"
#include <thread>
#include <mutex>
#include <set>
#include <iostream>
#include <memory>
using namespace gen; using std::string;
static string plain(const string& s) { string o; for(size_t i = 0; i<s.size(); i++) { if(s[i] == 27) { while(i<s.size() && !isalpha((unsigned char)s[i])) i++; continue; } o += s[i]; } return o; }
static string slurp(const string& p) { string o; FILE* f = fopen(p.c_str(), "rb"); if(!f) return o; char b[65536]; size_t n; while((n = fread(b, 1, sizeof b, f))>0) o.append(b, n); fclose(f); return o; }
static void redirect(int fd, const string& p) { int f = open(p.c_str(), O_CREAT|O_TRUNC|O_WRONLY, 0600); dup2(f, fd); close(f); }
struct Msg { int kind; string a, b; int n; double x; string want; };
enum { LOG, LOGV, NOTICE_, WARNING_, SEVERE_, CRITICAL_ };
static const char* SEV[] = {"", "", "NOTICE", "WARNING", "ERROR", "CRITICAL"};
static string text(Rng& r) { static const char A[] = "abc XYZ0123456789_/.-:%\\\"'()[]{}\t\xC3\xA9"; int n = r.chance(.1)?r.irange(2000, 60000):r.chance(.2)?0:r.irange(1, 90); string s; for(int i = 0; i<n; i++) s += A[r.irange(0, (int)sizeof A-2)]; return s; }
static void say(const Msg& m)
{
    switch(m.kind)
    {
        case LOG: Console.log(m.a.c_str(), NULL); break; case LOGV: Console.log(m.b.c_str(), m.a.c_str()); break;
        case NOTICE_: Console.notice("%s|%d|%s|%.4f", m.a.c_str(), m.n, m.b.c_str(), m.x); break; case WARNING_: Console.warning("%s|%d|%s|%.4f", m.a.c_str(), m.n, m.b.c_str(), m.x); break;
        case SEVERE_: Console.severe("%s|%d|%s|%.4f", m.a.c_str(), m.n, m.b.c_str(), m.x); break; default: Console.critical("%s|%d|%s|%.4f", m.a.c_str(), m.n, m.b.c_str(), m.x);
    }
}
static long long seconds_of(const char* s, bool& ok)
{
    long long tot = 0; int last = 0; ok = true; if(!*s) ok = false;
    while(*s) { char* e; if(!isdigit((unsigned char)*s)) { ok = false; return 0; } long v = strtol(s, &e, 10); int o = *e == 'd'?1:*e == 'h'?2:*e == 'm'?3:*e == 's'?4:0; if(!o || o<=last || v == 0 || (o == 2 && v>23) || (o>2 && v>59)) { ok = false; return 0; } last = o; tot += v*(o == 1?86400:o == 2?3600:o == 3?60:1); s = e+1; while(*s == ' ') s++; }
    return tot;
}
struct Prog { std::atomic<long long> begun; std::atomic<int> finished, threads; double wall; };
static Prog* PR;
struct Slow : public LightIntegrator
{
    mutable std::mutex m; mutable std::set<std::thread::id> ids;
    double us; Slow(double u):us(u) {}
    Spectrum radiance(const Scene*, const HitPoint*, const Ray*, Sampler*, OcclusionTester*) const override { { std::lock_guard<std::mutex> g(m); if(ids.insert(std::this_thread::get_id()).second) PR->threads++; } long long n = PR->begun++; if(n%64 == 63) usleep((useconds_t)(us*64)); return SPECTRUM_ONE; }
};
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec+t.tv_nsec*1e-9; }
int main(int argc, char** argv)
{
    vt::init(argc, argv, "sequences of 1..40 messages of every severity with arguments of 0..60000 characters (also with percent signs and escapes) in a child process whose streams are read back; durations 0..100 days (all below a day's worth of boundaries, random and limit values) into a buffer of the documented size; progress bars for every fraction; and renders of 3 to 5 seconds on 1..8 threads whose progress is read while the samples are counted. Distinct states: message sequences, durations, fractions");
    string dir = vt::S().scratch;
    vt::cases("messages", vt::n(240, 4000), [&](Rng& r, long i) {
        std::vector<Msg> ms; int n = r.irange(1, 40); for(int k = 0; k<n; k++) { Msg m; m.kind = r.irange(LOG, SEVERE_); m.a = text(r); m.b = text(r); m.n = (int)r.next(); m.x = r.range(-1e6, 1e6); ms.push_back(m); } bool crit = r.chance(.3); if(crit) { Msg m = ms.back(); m.kind = CRITICAL_; ms.insert(ms.begin()+r.irange(0, n), m); }
        string so, se; bool stop = false; uint64_t hh = 0;
        for(auto& m : ms) { if(stop) break; hh = vt::hash_str(m.a+m.b)^(hh*31+m.kind); string t = m.kind<=LOGV?m.a:vt::fmt("[%s] ", SEV[m.kind])+m.a+vt::fmt("|%d|", m.n)+m.b+vt::fmt("|%.4f", m.x); (m.kind<=NOTICE_?so:se) += t+"\n"; if(m.kind == CRITICAL_) stop = true; }
        string fo = dir+"/out", fe = dir+"/err"; vt::eval(hh); fflush(NULL);
        vt::Outcome o = vt::forked([&]() { redirect(1, fo); redirect(2, fe); for(auto& m : ms) say(m); fflush(NULL); return 0; });
        string go = plain(slurp(fo)), ge = plain(slurp(fe)); if(ge.find("Sanitizer")!=string::npos || ge.find("runtime error") != string::npos) { vt::violation("messages-crash", "%s", ge.substr(0, 800).c_str()); return; }
        if(o.timeout || !o.exited) { vt::violation("messages-died", "printing messages ended with signal %d", o.sig); return; }
        if((o.code == 0) == stop) { vt::violation("exit-status", "%s: exit status %d", stop?"a critical message":"no critical message", o.code); return; }
        vt::count("messages", (long long)ms.size()); if(stop) vt::count("critical messages");
        for(int w = 0; w<2; w++) { const string& g = w?ge:go; const string& e = w?se:so; if(g != e) { size_t k = 0; while(k<g.size() && k<e.size() && g[k] == e[k]) k++; size_t b = k>20?k-20:0; vt::violation(w?"standard-error":"standard-output", "%s has \"%s\" where \"%s\" was to be printed (byte %zu of %zu)", w?"standard error":"standard output", g.substr(b, 60).c_str(), e.substr(b, 60).c_str(), k, e.size()); return; } }
    });
    vt::cases("durations", vt::n(400, 6000), [&](Rng& r, long i) {
        for(int k = 0; k<200; k++)
        {
            unsigned s; switch(r.irange(0, 5)) { case 0: s = (unsigned)r.irange(0, 7300); break; case 1: s = (unsigned)(r.irange(0, 100)*86400+r.irange(-2, 2)); if((int)s<0) s = 0; break; case 2: s = (unsigned)(r.irange(0, 2400)*3600+r.irange(-2, 2)); if((int)s<0) s = 0; break; case 3: s = (unsigned)r.next(); break; default: s = (unsigned)r.irange(0, 8640000); }
            std::unique_ptr<char[]> b(new char[MAX_TIME_FORMAT_LENGTH]); memset(b.get(), 'x', MAX_TIME_FORMAT_LENGTH); format_seconds(s, b.get()); vt::eval(s); if(!memchr(b.get(), 0, MAX_TIME_FORMAT_LENGTH)) { vt::violation("duration-unterminated", "%u seconds", s); return; }
            bool ok; long long v = seconds_of(b.get(), ok); if(s == 0 || s>=8640000) { if(ok && v != s) { vt::violation("duration-limit", "%u seconds are shown as \"%s\"", s, b.get()); return; } if(!ok && !strstr(b.get(), s?"100":"1")) { vt::violation("duration-limit", "%u seconds are shown as \"%s\"", s, b.get()); return; } } else if(!ok || v != s) { vt::violation("duration", "%u seconds are shown as \"%s\"", s, b.get()); return; }
            vt::count("durations");
        }
    });
    vt::cases("bars", vt::n(80, 1500), [&](Rng& r, long i) {
        std::vector<std::pair<float, float>> v; for(int k = 0; k<40; k++) { float d; switch(r.irange(0, 4)) { case 0: d = r.irange(0, 20)/20.f; break; case 1: d = r.irange(0, 100)/100.f; break; case 2: d = r.chance(.5)?0.f:1.f; break; default: d = r.uf(); } v.push_back({d, (float)r.irange(1, 90000)}); vt::eval(vt::hash_bytes(&v.back(), 8)); }
        string fo = dir+"/bar"; vt::Outcome o = vt::forked([&]() { redirect(1, fo); for(auto& p : v) { Console.progress_bar(p.first, p.second); } Console.progress_bar_done(); std::cout.flush(); fflush(NULL); return 0; }); if(o.sanitizer() || !o.exited || o.code) { vt::violation("bar-crash", "%s", o.what().c_str()); return; }
        string g = plain(slurp(fo)); std::vector<string> L; size_t p = 0; while((p = g.find('(', p)) != string::npos) { size_t e = g.find('(', p+1); L.push_back(g.substr(p, (e == string::npos?g.size():e)-p)); p++; }
        if(L.size() != v.size()+1) { vt::violation("bar-count", "%zu bars shown for %zu reports", L.size(), v.size()+1); return; }
        for(size_t k = 0; k<L.size(); k++)
        {
            bool last = k == v.size(); double d = last?1:v[k].first; size_t c = L[k].find(')'); int full = 0, rest = 0; for(size_t q = 1; c != string::npos && q<c; q++) { if(L[k][q] == '#' && !rest) full++; else rest++; } const char* q = c == string::npos?"":L[k].c_str()+c+1; int pc = -1; sscanf(q, " %d%%", &pc); vt::count("bars");
            if(full+rest != 20 || full<std::floor(d*20-1e-4) || full>std::floor(d*20+1e-4)) { vt::violation("bar-length", "%g done is drawn as \"%s\"", d, L[k].substr(0, 40).c_str()); return; }
            if(pc<std::floor(d*100-1e-3) || pc>std::ceil(d*100+1e-3)) { vt::violation("bar-percentage", "%g done is reported as \"%s\"", d, L[k].substr(0, 60).c_str()); return; }
            const char* et = strstr(q, "ETA:"); if(!last) { double x = et?atof(et+4):-1; if(!(std::fabs(x-v[k].second)<=1e-5*v[k].second)) { vt::violation("bar-eta", "%g s left are reported as \"%s\"", v[k].second, L[k].substr(0, 60).c_str()); return; } }
        }
    });
    PR = vt::shared<Prog>(1);
    vt::cases("progress", vt::n(8, 64), [&](Rng& r, long i) {
        int nt = r.irange(1, 8), w = 32*r.irange(3, 5), h = 32*r.irange(3, 6), tiles = w*h/1024; long long total = (long long)w*h; double secs = r.range(3.2, 5); string fo = dir+"/prog", img = dir+"/prog.ppm"; PR->begun = 0; PR->finished = 0; PR->threads = 0; PR->wall = 0; remove(fo.c_str()); vt::eval(r.next());
        // the reader runs beside the forked render
        std::vector<std::pair<int, double>> seen; string bad; std::atomic<bool> stop(false); size_t done_at = string::npos; double t0 = now();
        std::thread reader([&]() {
            size_t used = 0; long long before = 0; int last = -1; double told = 0; std::vector<std::pair<double, long long>> log;
            while(!stop)
            {
                long long b0 = PR->begun; log.push_back({now(), b0}); usleep(20000); string g = plain(slurp(fo)); long long b1 = PR->begun; size_t p;
                while((p = g.find('(', used)) != string::npos) { size_t e = g.find('%', p); if(e == string::npos) break; size_t c = g.find(')', p); int pc = c<e?atoi(g.c_str()+c+1):-1; bool fin = g.compare(e, 7, "% Done!") == 0; used = e+1; if(c != p+21) continue;
                    // tiles already taken: all begun samples belong to them; at most one unfinished tile per worker
                    double lo = 0, t = now(); for(auto& x : log) if(x.first<t-2) lo = 100.0*x.second/total; double hi = 100.0*(b1+nt*32.0*32)/total; if(!fin) { if(pc<0 || pc>100 || pc<last) bad = vt::fmt("progress goes from %d to %d %%", last, pc); else if(pc>hi+1) bad = vt::fmt("%d %% reported when at most %.1f %% were started", pc, hi); else if(pc<lo-2) bad = vt::fmt("%d %% reported when %.1f %% were started long before", pc, lo); double el = t-t0, f0 = (100-pc-1.01)/(pc+1.01), f1 = pc>1?(100-pc)/(double)pc:1e9; const char* et = strstr(g.c_str()+e, "ETA:"); double eta = et?atof(et+4):-1; if(pc>=0 && !(eta>=std::max(0.0, (el-2.3)*f0)-1.01 && eta<=(el+1.2)*f1+1)) bad = vt::fmt("after %.1f s and at %d %% another %g s are announced", el, pc, eta); last = pc; seen.push_back({pc, t-t0}); } else if(pc != 100) bad = vt::fmt("done at %d %%", pc); else if(b1<total) bad = vt::fmt("done reported after %lld of %lld samples", b1, total); }
                (void)before; (void)told;
            }
        });
        vt::Outcome o = vt::forked([&]() {
            redirect(1, fo); Scene* s = new Scene; const Shape* q = own(s, quad(2)); s->inherit_asset(new Asset(q, fm(trs(D3(0, 0, 2), 0, 0, 0, D3(50, 50, 50))), 1)); Point3 P(0, 0, 0), T(0, 0, 1); Vec3 U(0, 1, 0); Renderer* R = new Renderer(w, h, 1, img.c_str(), nt); R->inherit_camera(new CameraOrthographic(&P, &T, &U, w, h)); R->inherit_filter(new FilterBox); R->inherit_integrator(new Slow(secs*1e6*nt/total)); R->set_sampler(SPECTRE_SAMPLER_RANDOM);
            double a = now(); int rc = R->render(s); PR->wall = now()-a; std::cout.flush(); fflush(NULL); usleep(100000); return rc; }, 120);
        stop = true; reader.join(); if(o.timeout) { vt::violation("progress-hangs", "the render did not end"); return; } if(o.sanitizer() || !o.exited || o.code) { vt::violation("progress-crash", "%s", o.what().c_str()); return; }
        if(!bad.empty()) { vt::violation("progress", "%d threads, %dx%d, %.1f s: %s", nt, w, h, (double)PR->wall, bad.c_str()); return; }
        string g = plain(slurp(fo)); done_at = g.find("100% Done!"); if(done_at == string::npos) { vt::violation("never-done", "the render ended without reporting 100 %%"); return; } if(seen.empty() && PR->wall>3 && tiles>=4*nt) { vt::violation("no-progress", "no progress was reported in %.1f s", (double)PR->wall); return; }
        if(g.find("100% Done!", done_at+1) != string::npos) { vt::violation("done-twice", "100 %% reported more than once"); return; }
        size_t p = g.find('(', done_at); bool ok = false; long long v = -1; while(p != string::npos && !ok) { size_t e = g.find(')', p); if(e == string::npos) break; string in = g.substr(p+1, e-p-1); v = seconds_of(in.c_str(), ok); p = g.find('(', p+1); }
        if(!ok || std::fabs(v-PR->wall)>1.6) { vt::violation("render-time", "the render took %.1f s and reported \"%s\"", (double)PR->wall, g.substr(done_at, 80).c_str()); return; }
        { size_t u = g.find("Using "); int said = u == string::npos?-1:atoi(g.c_str()+u+6); while(u != string::npos && g.compare(u, 6, "Using ") == 0 && !isdigit((unsigned char)g[u+6])) { u = g.find("Using ", u+1); said = u == string::npos?-1:atoi(g.c_str()+u+6); } if(said>=0 && said != nt) { vt::violation("threads-announced", "%d threads asked for, %d announced", nt, said); return; } if(PR->threads>nt || (tiles>=4*nt && PR->threads<nt)) { vt::violation("threads-used", "%d threads asked for, %d worked", nt, (int)PR->threads); return; } }
        vt::count("renders watched"); vt::count("progress reports seen", (long long)seen.size());
    });
    return vt::finish();
}
