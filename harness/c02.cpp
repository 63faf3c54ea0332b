// C02: no data race, no deadlock, no thread left behind while rendering. Real scenes of every kind are rendered under ThreadSanitizer with 1 to 16 workers.
#include "conf.hpp"
#include <thread>
#include <mutex>
#include <atomic>
#include <chrono>
#include <stack>
#include <queue>
#include <sstream>
#include <set>
#include <map>
#include <dirent.h>
#include <sched.h>
#include <sys/time.h>
#include "parsers/config_driver.hpp"
#include "lights/area_light.hpp"
#include "materials/material_library.hpp"
using namespace conf;
// the number of processors the renderer believes in (it starts one worker for each)
static int PROCESSORS;
extern "C" int get_nprocs(void) { if(PROCESSORS) return PROCESSORS; cpu_set_t c; return sched_getaffinity(0, sizeof c, &c)?1:CPU_COUNT(&c); }
static long long* CNT; static int* IDS;
enum { N_RENDER, N_THREAD, N_TILE, N_SAMPLE, N_AGAIN, N_ALIGHT, N_TEX, N_MASK, N_CNT };
static const char* CN[] = {"renders finished", "worker threads joined", "tiles rendered", "samples in those tiles", "renders repeated on one renderer", "renders lit by lights", "renders with textures", "renders with masks"};
static std::set<int> tasks() { std::set<int> s; DIR* p = opendir("/proc/self/task"); if(p) { while(dirent* e = readdir(p)) if(isdigit((unsigned char)e->d_name[0])) s.insert(atoi(e->d_name)); closedir(p); } return s; }
int main(int argc, char** argv)
{
    vt::init(argc, argv, "renders under ThreadSanitizer of scenes built from random configurations (all cameras, samplers, filters, materials, textures, masks, lights, duals) with 1 to 16 workers on 1 to 8 processors, disturbed by signals at random intervals, some of them repeated on the same renderer; each in a child process. Distinct states: scene, workers, processors");
    CNT = vt::shared<long long>(N_CNT); IDS = vt::shared<int>(64); string dir = vt::S().scratch+"/conf";
    vt::cases("renders", vt::n(64, 900), [&](Rng& r, long) {
        conf::Opt op; op.maxw = r.chance(.3)?32:160; op.maxh = r.chance(.2)?40:130; op.maxspp = r.chance(.5)?1:4; op.tidy = true; op.missing = false; op.min_place = 1; conf::Conf c = conf::make(r, dir, op); string t = c.files[0].second, extra; int nl = r.irange(0, 3), nw = r.irange(0, 5);
        auto near_ = [&]() { float p[3]; for(int k = 0; k<3; k++) p[k] = (float)(c.t.pos[k]+(c.t.tar[k]-c.t.pos[k])*r.range(.2, 2)+r.range(-3, 3)); return vt::fmt("position:[%f,%f,%f] scale:%f", p[0], p[1], p[2], r.range(.3, 2)); };
        for(int i = 0; i<nl; i++) extra += "\nlight:{name:\"Sphere\" "+near_()+"}\n"; for(int i = 0; i<nw; i++) { string m; if(!c.t.mat.empty() && r.chance(.7)) m = " material:\""+r.pick(c.t.mat).name+"\""; if(!c.t.dual.empty() && r.chance(.3)) m = " material:\""+r.pick(c.t.dual).name+"\""; extra += "\nworld:{name:\"Sphere\""+m+" "+near_()+"}\n"; }
        string p = c.main[0] == '/'?c.main:dir+"/"+c.main; vt::write_file(p, t+"\n"+extra); int workers = r.chance(.15)?1:r.irange(2, 16), cpus = r.chance(.3)?1:r.irange(1, 8), again = r.chance(.2)?1:0; bool disturb = r.chance(.5); uint64_t seed = r.next(); vt::eval(vt::hash_str(t+extra)^workers*16+cpus);
        memset(CNT, 0, sizeof(long long)*N_CNT); IDS[0] = 0;
        vt::Outcome o = vt::forked([&]() {
            cpu_set_t cs; CPU_ZERO(&cs); for(int i = 0; i<cpus; i++) CPU_SET((int)((seed+i)%8), &cs); sched_setaffinity(0, sizeof cs, &cs);
            Scene* s = new Scene; PROCESSORS = workers; ConfigDriver* d = new ConfigDriver; Renderer* R = d->parse(p, s); PROCESSORS = 0; delete d; int started = R->monitor_threads();
            std::thread([]() {}).join(); std::set<int> before = tasks(); for(int q = 0; q<20; q++) { usleep(500); before = tasks(); } if(disturb) { struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = [](int) { for(volatile int i = 0; i<2000; i++) ; }; sa.sa_flags = SA_RESTART; sigaction(SIGALRM, &sa, NULL); struct itimerval it = {{0, 700}, {0, 700}}; setitimer(ITIMER_REAL, &it, NULL); }
            for(int k = 0; k<=again; k++) { R->render(s); CNT[N_RENDER]++; CNT[N_THREAD] += started; CNT[N_TILE] += ((R->monitor_width()+31)/32)*(long long)((R->monitor_height()+31)/32); CNT[N_SAMPLE] += (long long)R->monitor_width()*R->monitor_height()*R->monitor_spp(); if(k) CNT[N_AGAIN]++; if(R->monitor_pending()) return 9; }
            struct itimerval z = {{0, 0}, {0, 0}}; setitimer(ITIMER_REAL, &z, NULL); std::set<int> after = tasks(); for(int q = 0; q<20 && after.size()>before.size(); q++) { usleep(20000); after = tasks(); } for(int i : after) if(!before.count(i)) { IDS[0] = 1; return 8; } if(s->size_lights()) CNT[N_ALIGHT]++; if(!c.t.tex.empty()) CNT[N_TEX]++; for(auto& q : c.t.place) if(!q.mask.tex.empty()) { CNT[N_MASK]++; break; } delete R; delete s; return 0; }, 120);
        for(int i = 0; i<N_CNT; i++) vt::count(CN[i], CNT[i]); string what = vt::fmt("%d workers on %d processors%s :: ", workers, cpus, disturb?", disturbed":"");
        size_t at = o.err.find("WARNING: ThreadSanitizer"); if(at != string::npos) { size_t e = o.err.find("SUMMARY", at); string sum = e == string::npos?o.err.substr(at, 300):o.err.substr(e, o.err.find('\n', e)-e); vt::violation("race", "%s%s", what.c_str(), sum.c_str()); if(getenv("VT_HEX")) fprintf(stderr, "%s\n", o.err.substr(at, 4000).c_str()); return; }
        if(o.timeout) { vt::violation("deadlock", "%sthe rendering did not end within 120 s: %s", what.c_str(), t.substr(0, 600).c_str()); return; } if(IDS[0]) { vt::violation("thread-left", "%sa thread started by the rendering is still there after it", what.c_str()); return; } if(o.exited && o.code == 9) { vt::violation("jobs-left", "%stiles were left over", what.c_str()); return; }
        if(o.exited && o.code == 1) return; if(!o.exited || o.code) { vt::violation("died", "%s%s", what.c_str(), o.what().c_str()); if(getenv("VT_HEX")) fprintf(stderr, "%s\n", o.err.c_str()); } });
    return vt::finish();
}
