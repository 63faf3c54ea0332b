// C30: the program itself, run as a process of its own, honours its contract: what it writes, where, and how it ends.
#include "conf.hpp"
#include "codec.hpp"
#include <thread>
#include <mutex>
#include <atomic>
#include <chrono>
#include <stack>
#include <queue>
#include <sstream>
#include <set>
#include <map>
#include <dirent.h>
#include <sched.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <csignal>
#include "cameras/camera_perspective.hpp"
#include "cameras/camera_orthographic.hpp"
#include "cameras/camera360.hpp"
#define main spectre_main
#include "main.cpp"
#undef main
using namespace conf;
struct Run { bool exited = false, timeout = false; int code = -1, sig = 0; string out, err; string all() const { return out+err; } };
struct How { string cwd; int cpus = 8; long limit = -1; std::function<bool()> meanwhile; bool* met = NULL; };
static Run run(const std::vector<string>& args, const How& w)
{
    Run R; string fo = vt::S().scratch+"/stdout", fe = vt::S().scratch+"/stderr"; pid_t pid = fork(); if(pid == 0)
    {
        int a = open(fo.c_str(), O_CREAT|O_TRUNC|O_WRONLY, 0644), b = open(fe.c_str(), O_CREAT|O_TRUNC|O_WRONLY, 0644); dup2(a, 1); dup2(b, 2); if(chdir(w.cwd.c_str())) _exit(99); cpu_set_t cs; CPU_ZERO(&cs); for(int i = 0; i<w.cpus; i++) CPU_SET(i, &cs); sched_setaffinity(0, sizeof cs, &cs); if(w.limit>=0) { signal(SIGXFSZ, SIG_IGN); struct rlimit l = {(rlim_t)w.limit, (rlim_t)w.limit}; setrlimit(RLIMIT_FSIZE, &l); }
        std::vector<char*> v; string flag = "--spectre"; v.push_back((char*)"spectre"); v.push_back((char*)flag.c_str()); for(auto& s : args) v.push_back((char*)s.c_str()); v.push_back(NULL); execv("/proc/self/exe", v.data()); _exit(98);
    }
    int st = 0, spins = 0; bool done = false; while(true) { if(waitpid(pid, &st, WNOHANG) == pid) break; if(!done && w.meanwhile && spins>100) { bool ok = w.meanwhile(); if(w.met) *w.met = ok; done = true; } if(++spins>60000) { kill(pid, SIGKILL); waitpid(pid, &st, 0); R.timeout = true; break; } usleep(2000); }
    R.exited = WIFEXITED(st); if(R.exited) R.code = WEXITSTATUS(st); else R.sig = WTERMSIG(st); R.out = vt::read_file(fo); R.err = vt::read_file(fe); return R;
}
static string tail(const string& s) { string o; for(char c : s.size()>300?s.substr(s.size()-300):s) o += c == '\n'?'|':c<32?' ':c; return o; }
static bool sane(const Run& R, const string& what) { if(R.timeout) { vt::violation("hang", "the program did not end: %s", what.c_str()); return false; } if(!R.exited || R.all().find("Sanitizer") != string::npos || R.all().find("runtime error:") != string::npos) { vt::violation("crash", "signal %d: %s: %s", R.sig, tail(R.all()).c_str(), what.c_str()); return false; } return true; }
static void wipe(const string& d) { DIR* p = opendir(d.c_str()); if(!p) return; while(dirent* e = readdir(p)) { string n = e->d_name; if(n == "." || n == "..") continue; string f = d+"/"+n; struct stat s; if(lstat(f.c_str(), &s) == 0 && S_ISDIR(s.st_mode)) { wipe(f); rmdir(f.c_str()); } else unlink(f.c_str()); } closedir(p); }
static std::map<string, string> files(const string& d, string pre = "") { std::map<string, string> m; DIR* p = opendir(d.c_str()); if(!p) return m; while(dirent* e = readdir(p)) { string n = e->d_name; if(n == "." || n == "..") continue; string f = d+"/"+n; struct stat s; if(lstat(f.c_str(), &s)) continue; if(S_ISDIR(s.st_mode)) { for(auto& q : files(f, pre+n+"/")) m.insert(q); } else m[pre+n] = S_ISREG(s.st_mode)?vt::fmt("%016llx", (unsigned long long)vt::hash_str(vt::read_file(f))):"special"; } closedir(p); return m; }
// balls of light in the dark, somewhere before the camera
struct Ball { D3 at; double R; int col; };
static const char* COL[] = {"[255,255,255]", "[255,0,0]", "[0,255,0]", "[0,0,255]"};
int main(int argc, char** argv)
{
    if(argc>1 && string(argv[1]) == "--spectre") { argv[1] = argv[0]; return spectre_main(argc-1, argv+1); }
    vt::init(argc, argv, "runs of the program as a process: scenes of coloured lights whose silhouettes are known, written in every image format, on 1 to 8 processors, from other working directories, with absolute and relative paths; arbitrary valid configurations; and unusable command lines, configurations and destinations, including destinations which fail while writing. Distinct states: configurations and circumstances");
    string base = vt::S().scratch+"/run"; mkdir(base.c_str(), 0755); string elsewhere = vt::S().scratch+"/elsewhere"; mkdir(elsewhere.c_str(), 0755);
    auto circumstances = [&](Rng& r, const string& main_abs, const string& dir, std::vector<string>& args, How& h) { h.cpus = r.irange(1, 8); int k = r.irange(0, 3); string file = main_abs.substr(dir.size()+1); if(k == 0) { h.cwd = dir; args = {file}; } else if(k == 1) { h.cwd = elsewhere; args = {main_abs}; } else if(k == 2) { h.cwd = elsewhere; args = {"../run/"+file}; } else { h.cwd = "/"; args = {main_abs}; } };
    vt::cases("lights", vt::n(64, 700), [&](Rng& r, long) {
        wipe(base); wipe(elsewhere); int W = 32*r.irange(1, 5), H = r.irange(20, 120), spp = r.irange(1, 9); bool strat = r.chance(.5); int cam = r.irange(0, 1); D3 pos = rand_in(r, -20, 20), fw = unit(rand_dir(r, false)), up0 = unit(rand_dir(r, false)); while(std::fabs(dot(fw, up0))>.9) up0 = unit(rand_dir(r, false)); D3 tar = pos+fw*r.range(1, 10); float fov = (float)r.range(25, 90);
        static const char* FL[] = {"box", "tent", "gaussian", "mitchell", "lanczos"}; string ext = r.pick(std::vector<string>{"ppm", "bmp", "tga", "png", "jpg", "jpeg", "tif", "tiff", "PNG", "none", "xyz"}); string stem = r.chance(.3)?"a b":"out", sub = r.chance(.3)?"sub/":r.chance(.2)?"sub/../":""; string outp = sub+stem+(ext == "none"?"":"."+ext); mkdir((base+"/sub").c_str(), 0755);
        auto v3 = [&](D3 q) { return vt::fmt("[%.9g,%.9g,%.9g]", (float)q.x, (float)q.y, (float)q.z); };
        Point3 P = pt(pos), Q = pt(tar); Vec3 U = vec(up0); Camera* C; if(cam == 0) C = new CameraPerspective(&P, &Q, &U, W, H, fov*3.14159265f/180); else C = new CameraOrthographic(&P, &Q, &U, W, H);
        auto ray = [&](double x, double y, D3& o, D3& dd) { Sample s; memset(&s, 0, sizeof s); s.posx = (float)x; s.posy = (float)y; Ray q; C->create_ray(&s, &q); o = d(q.origin); dd = unit(d(q.direction)); };
        std::vector<Ball> balls; int nb = r.irange(1, 4), one = r.chance(.6)?r.irange(0, 3):-1; bool pure = nb == 1 || one>=0; for(int i = 0; i<nb; i++) { D3 o, dd; ray(r.range(0, W), r.range(0, H), o, dd); double D = cam == 0?r.range(6, 12):r.range(3, 9), R = cam == 0?D*r.range(.1, .35):r.range(.15, .6); Ball b; b.at = o+dd*D; b.R = R; b.col = one>=0?one:r.irange(0, 3); bool ok = cam == 1 || len(b.at-pos)>b.R*1.3; for(auto& q : balls) if(len(q.at-b.at)<q.R+b.R+.05) ok = false; if(ok) balls.push_back(b); }
        int fl = r.irange(0, 4); string t = vt::fmt("out:\"%s\"\nresolution:{width:%d height:%d}\nspp:%d\nsampler:%s\nfilter:{type:%s}\n", outp.c_str(), W, H, spp, strat?"stratified":"random", FL[fl]); if(r.chance(.3)) { }
        t += "camera:{type:"+string(cam == 0?"perspective":"orthographic")+" position:"+v3(pos)+" target:"+v3(tar)+" up:"+v3(up0)+vt::fmt(" fov:%.9g}\n", fov); for(auto& b : balls) t += "light:{name:\"Sphere\" position:"+v3(b.at)+vt::fmt(" scale:%.9g color:%s}\n", (float)b.R, COL[b.col]);
        vt::write_file(base+"/scene.txt", t); vt::eval(vt::hash_str(t)); std::vector<string> args; How how; circumstances(r, base+"/scene.txt", base, args, how); if(r.chance(.3) && ext != "PNG") { vt::write_file(base+"/"+(sub == "sub/"?"sub/":"")+stem+(ext == "none"?".ppm":ext == "xyz"?".xyz.ppm":"."+ext), string(r.irange(0, 90000), '#')); vt::count("outputs which existed before"); } auto before = files(base); Run R = run(args, how); vt::count("programs run"); vt::count(vt::fmt("runs on %d processors", how.cpus)); string what = vt::fmt("from %s, %d processors: ", how.cwd.c_str(), how.cpus)+t; delete C; C = NULL; if(cam == 0) C = new CameraPerspective(&P, &Q, &U, W, H, fov*3.14159265f/180); else C = new CameraOrthographic(&P, &Q, &U, W, H);
        if(!sane(R, what)) return; if(R.code != 0) { vt::violation("failed", "exit code %d: %s: %s", R.code, tail(R.all()).c_str(), what.c_str()); return; }
        bool supported = ext != "none" && ext != "xyz" && (ext != "PNG" || files(base).count((sub == "sub/"?"sub/":"")+stem+".PNG")); string real = (sub == "sub/"?"sub/":"")+stem+(ext == "none"?".ppm":supported?"."+ext:"."+ext+".ppm"), dext = supported?ext:"ppm"; for(char& c : dext) c = (char)tolower((unsigned char)c);
        auto after = files(base); for(auto& f : files(elsewhere)) { vt::violation("stray-file", "%s appeared in the working directory: %s", f.first.c_str(), what.c_str()); return; } if(!after.count(real)) { string l; for(auto& f : after) l += f.first+" "; vt::violation("no-image", "%s was not written, there is %s: %s", real.c_str(), l.c_str(), what.c_str()); return; } for(auto& f : after) if(f.first != real && before[f.first] != f.second) { vt::violation("stray-file", "%s appeared or changed: %s", f.first.c_str(), what.c_str()); return; }
        codec::Image m; string why; if(!codec::decode(dext == "jpeg"?"jpg":dext == "tiff"?"tif":dext, vt::read_file(base+"/"+real), m, why)) { vt::violation("bad-image", "%s cannot be decoded, %s: %s", real.c_str(), why.c_str(), what.c_str()); return; } if(m.w != W || m.h != H) { vt::violation("resolution", "%dx%d instead of %dx%d: %s", m.w, m.h, W, H, what.c_str()); return; }
        // every pixel whose surroundings lie wholly inside one ball, or wholly in the dark
        bool jpg = dext == "jpg" || dext == "jpeg"; static const double REACH[] = {1.7, 3.1, 3.1, 3.1, 6}; double margin = REACH[fl]+(jpg?8:0); long in = 0, dark = 0; auto which = [&](double x, double y) { D3 o, dd; ray(x, y, o, dd); int w = -1; double best = 1e30; for(size_t i = 0; i<balls.size(); i++) { D3 q = balls[i].at-o; double b = dot(q, dd), c = dot(q, q)-balls[i].R*balls[i].R, e = b*b-c; if(e>0 && b-std::sqrt(e)>0 && b-std::sqrt(e)<best) { best = b-std::sqrt(e); w = (int)i; } } return w; };
        for(int y = 0; y<H; y++) for(int x = 0; x<W; x++)
        {
            int w = which(x+.5, y+.5); bool clear = true; for(int a = 0; a<32 && clear; a++) for(double rr : {.25, .5, .75, 1.}) { double px = x+.5+rr*margin*cos(a*.19634954085), py = y+.5+rr*margin*sin(a*.19634954085); if(which(px, py) != w) { clear = false; break; } } if(!clear) continue; codec::Px p = m.at(x, y); int lim = jpg?40:8;
            if(w<0) { dark++; if(p.r>lim || p.g>lim || p.b>lim) { vt::violation("image-content", "pixel %d %d is (%d %d %d) where nothing is: %s", x, y, p.r, p.g, p.b, what.c_str()); return; } }
            else if(fl>=3 && nb>1) continue;   // lights reflect each other, and the negative weights of these filters amplify that
            else { in++; int c = balls[w].col; bool ok = c == 0?p.r>200 && p.g>200 && p.b>200:pure?(c == 1?p.r>p.g+60 && p.r>p.b+60 && p.r>120:c == 2?p.g>p.r+60 && p.g>p.b+60 && p.g>120:p.b>p.r+60 && p.b>p.g+60 && p.b>120):(c == 1?p.r:c == 2?p.g:p.b)>120 /* lights also reflect the others */; if(!ok) { vt::violation("image-content", "pixel %d %d is (%d %d %d) on a light of colour %s: %s", x, y, p.r, p.g, p.b, COL[c], what.c_str()); return; } }
        }
        vt::count("pixels on lights", in); vt::count("pixels in the dark", dark); vt::count("images written as "+dext); delete C; });
    vt::cases("configurations", vt::n(40, 420), [&](Rng& r, long) {
        wipe(base); wipe(elsewhere); conf::Opt op; op.maxw = 100; op.maxh = 80; op.maxspp = 3; conf::Conf c = conf::make(r, base, op); string main_abs = c.main[0] == '/'?c.main:base+"/"+c.main; int W = (c.t.w+31)/32*32; std::vector<string> args; How how; circumstances(r, main_abs, base, args, how); auto before = files(base); Run R = run(args, how); vt::count("programs run"); vt::count("arbitrary configurations run"); string what = c.files[0].second.substr(0, 900); vt::eval(vt::hash_str(what)); if(!sane(R, what)) return; if(R.code != 0) { vt::violation("failed", "exit code %d: %s: %s", R.code, tail(R.all()).c_str(), what.c_str()); return; }
        auto after = files(base); std::vector<string> changed; for(auto& f : after) if(!before.count(f.first) || before[f.first] != f.second) changed.push_back(f.first); for(auto& f : files(elsewhere)) { vt::violation("stray-file", "%s appeared in the working directory: %s", f.first.c_str(), what.c_str()); return; } if(changed.size() != 1) { string l; for(auto& f : changed) l += f+" "; vt::violation("no-image", "the files written are: %s(out is %s): %s", l.c_str(), c.t.out.c_str(), what.c_str()); return; }
        string e = changed[0].substr(changed[0].rfind('.')+1); for(char& q : e) q = (char)tolower((unsigned char)q); codec::Image m; string why; if(!codec::decode(e == "jpeg"?"jpg":e == "tiff"?"tif":e, vt::read_file(base+"/"+changed[0]), m, why)) { vt::violation("bad-image", "%s cannot be decoded, %s: %s", changed[0].c_str(), why.c_str(), what.c_str()); return; } if(m.w != W) vt::violation("resolution", "%dx%d, the configured width is %d: %s", m.w, m.h, c.t.w, what.c_str()); });
    vt::cases("unusable", vt::n(160, 1600), [&](Rng& r, long k) {
        wipe(base); wipe(elsewhere); How how; how.cwd = r.chance(.5)?base:elsewhere; how.cpus = r.irange(1, 8); int kind = (int)(k%16); bool met = false; string ext = r.pick(std::vector<string>{"ppm", "bmp", "tga", "png", "jpg", "tif"}); string out = "o."+ext, pre = "resolution:{width:32 height:20}\nspp:1\n", t = "light:{name:\"Sphere\" position:[0,0,6]}\n", name; std::vector<string> args = {base+"/s.txt"}; bool late = false;
        switch(kind)
        {
            case 0: args.clear(); name = "no argument"; break; case 1: args = {base+"/nothing.txt"}; name = "missing file"; break; case 2: args = {base}; name = "a folder"; break;
            case 3: { static const char* RS[] = {"width:0 height:10", "width:32 height:0", "width:0 height:0", "width:70000 height:4", "width:32 height:70000"}; int q = r.irange(0, 4); t += string("resolution:{")+RS[q]+"}\n"; name = string("resolution ")+RS[q]; break; } case 4: t += "spp:0\n"; name = "no samples"; break; case 5: t += "spp: 1 }\n"; name = "stray brace"; break; case 6: t += "nonsense\n"; name = "unknown word"; break; case 7: t += "world:{name:\"Sphere\" position:[1,2]}\n"; name = "short vector"; break; case 8: t += "out:\"x\n"; name = "open string"; break;
            case 9: out = "none/o."+ext; name = "missing output folder"; break; case 10: if(r.chance(.4)) { out = r.chance(.5)?"o":"o.xyz"; mkdir((base+"/"+out+".ppm").c_str(), 0755); name = "completed output is a folder"; break; } mkdir((base+"/o."+ext).c_str(), 0755); name = "output is a folder"; break; case 11: vt::write_file(base+"/plain", "x"); out = "plain/o."+ext; name = "output folder is a file"; break;
            case 12: if(symlink("/dev/full", (base+"/o."+ext).c_str())) return; late = true; name = "full device"; break; case 13: how.limit = r.irange(0, 60); late = true; name = "write limit"; break; case 14: { mkdir((base+"/gone").c_str(), 0755); out = "gone/o."+ext; string g = base+"/gone"; how.meanwhile = [g]() { return rmdir(g.c_str()) == 0; }; how.met = &met; pre = "resolution:{width:320 height:200}\nspp:64\n"; late = true; name = "output folder vanishes"; break; }
            default: t += "spp:99999999999999\n"; name = "number out of range"; break;
        }
        vt::write_file(base+"/s.txt", "out:\""+out+"\"\n"+pre+t); vt::eval(vt::hash_str(name+ext)*31+k); auto before = files(base); Run R = run(args, how); if(kind == 14 && !met) { vt::count("folders which did not vanish in time"); return; } vt::count("programs run"); string what = name+" ("+ext+")"; if(!sane(R, what)) return; vt::count(late?"failures to write provoked":"unusable inputs refused"); (void)late;
        if(R.code == 0) { vt::violation("success-claimed", "exit code 0: %s: %s", what.c_str(), tail(R.all()).c_str()); return; } string msg = how.limit>=0?"x":R.err; bool text = false; for(char ch : msg) text |= isalpha((unsigned char)ch) != 0; if(!text) { vt::violation("no-message", "exit code %d without a message: %s", R.code, what.c_str()); return; }
        auto after = files(base); if(how.limit>=0 || kind == 12) return; for(auto& f : after) if(!before.count(f.first) || before[f.first] != f.second) { vt::violation("image-despite-failure", "%s was written: %s", f.first.c_str(), what.c_str()); return; } for(auto& f : files(elsewhere)) { vt::violation("stray-file", "%s: %s", f.first.c_str(), what.c_str()); return; } });
    return vt::finish();
}
