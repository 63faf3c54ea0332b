// C26: hostile OBJ models and configurations. Each text is read in a child process under the sanitizers (and, in the plain build, twice with different
// garbage in fresh memory, so that a result which depends on unset data shows as a difference).
#include "conf.hpp"
#include "obj.hpp"
#include <sstream>
#include <thread>
#include <mutex>
#include <atomic>
#include <chrono>
#include <stack>
#include <queue>
#include <set>
#include <map>
#include <malloc.h>
#include "parsers/config_driver.hpp"
#include "parsers/parser_obj.hpp"
#include "materials/material_library.hpp"
using namespace gen; using std::string;
static void garbage(int fill) { volatile char s[30000]; for(size_t i = 0; i<sizeof s; i++) s[i] = (char)fill; mallopt(M_PERTURB, fill); }
static const char* const NUMS[] = {"0", "1", "-1", "2", "-2", "999999", "-999999", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "99999999999999999999999", "1e38", "1e39", "-1e39", "1e-45", "1e-50", "1e999", "nan", "inf", "-inf", "0x10", "1.", ".", "-", "+", "1e", "1e+", "--1", "00000000000000000000000000000000001", "1.7976931348623157e308", "3.4e38", "1e30", "1e20", "0.00000000000000000000000000000000000000000001", "/", "//", "1/", "1//", "/1", "//1", "1/2/3/4", "1/1/1", "-1/-1/-1", "1,2"};
static const char* const OBJT[] = {"v", "vt", "vn", "vp", "f", "o", "g", "s", "usemtl", "mtllib", "l", "p", "#", "\\", "call", "\t", "\r", "v ", "f 1 1 1", "f 1 2 3", "f -1 -2 -3", "f 1 2", "f 1", "f", "o", "usemtl", "v 0 0 0", "vt 0 0", "vn 0 0 1", "vn 0 0 0", "\xef\xbb\xbf", "f 1 2 3 4 5 6 7 8 9 1 2 3 4 5 6 7 8"};
static const char* const CONFT[] = {"out", "integrator", "path", "resolution", "spp", "width", "height", "value0", "value1", "sampler", "random", "stratified", "filter", "type", "box", "tent", "triangle", "gauss", "gaussian", "mitchell", "lanczos", "unfiltered", "trilinear", "ewa", "camera", "perspective", "panorama", "orthographic", "position", "target", "up", "fov", "shape", "world", "light", "name", "rotation", "scale", "shift", "temperature", "material", "dualmaterial", "texture", "src", "matte", "glossy", "metal", "glass", "ior", "roughness", "anisotropy", "distribution", "diffuse", "specular", "bump", "normal", "blinn", "beckmann", "ggx", "color", "element", "using channel R", "using channel", "inverted", "mask", "first", "second", ":", "[", "]", "{", "}", ",", "\"", "'", "#", "\\", "\"\"", "''", "\"a\\\"", "Ag", "pt", "w", "[0,0,0]", "[1e30,-1e30,0]", "[1,1,1]", "\"main.txt\"", "\"Sphere\"", "scale:0", "scale:[0,1,1]", "scale:1e-30", "position:[1e38,1e38,1e38]", "target:[0,0,0]", "up:[0,0,0]", "up:[0,0,1]", "fov:0", "fov:180", "fov:-10", "fov:1e30", "temperature:0", "temperature:1", "temperature:2147483647", "roughness:-1", "roughness:1e-30", "roughness:1e30", "anisotropy:0", "ior:0", "ior:-1", "ior:1e30", "ior:[1,1e30]", "value0:0", "value0:-1", "value0:1e30", "value0:1e-30", "value1:1e30", "spp:0", "spp:1", "width:0", "height:0", "spp:2147483647", "resolution:{width:1}", "resolution:{width:99999}", "resolution:{width:2147483647 height:2147483647}", "out:\"\"", "out:'/'", "out:'.'", "out:'..'", "out:'nonexistent/x.png'", "out:'tex'", "shape:''", "shape:'/'", "shape:'tex'", "shape:'main.txt'", "shape:'x.obj'", "shape:'dir.obj'", "material:'tex'", "material:''", "texture:{src:''}", "texture:{src:'tex'}", "diffuse:''", "mask:''"};
template<size_t N> static string any(Rng& r, const char* const (&a)[N]) { return a[r.next()%N]; }
static string mutate(Rng& r, string t, bool obj)
{
    int n = r.chance(.5)?1:r.irange(1, 12);
    auto tokens = [&](size_t from) { size_t a = t.find_first_not_of(" \t\r\n", from); if(a == string::npos) return std::make_pair((size_t)0, std::min<size_t>(t.size(), 3)); size_t b = a; if(obj) { b = t.find_first_of(" \t\r\n", a); if(b == string::npos) b = t.size(); } else { if(isalnum((unsigned char)t[a]) || t[a] == '.' || t[a] == '-') while(b<t.size() && (isalnum((unsigned char)t[b]) || strchr(".-+", t[b]))) b++; else b = a+1; } return std::make_pair(a, b); };
    for(int k = 0; k<n && !t.empty(); k++)
    {
        size_t at = r.next()%t.size(); auto tk = tokens(at); switch(r.irange(0, 13))
        {
            case 0: t.resize(at); break;
            case 1: t[at] = (char)r.irange(0, 255); break;
            case 2: t.insert(at, string(1, (char)r.irange(0, 255))); break;
            case 3: case 4: t.replace(tk.first, tk.second-tk.first, any(r, NUMS)); break;
            case 5: case 6: t.insert(tk.first, (obj?any(r, OBJT):any(r, CONFT))+(r.chance(.7)?" ":r.chance(.5)?"\n":"")); break;
            case 7: t.replace(tk.first, tk.second-tk.first, obj?any(r, OBJT):any(r, CONFT)); break;
            case 8: t.erase(tk.first, tk.second-tk.first); break;
            case 9: { auto b = tokens(r.next()%t.size()); string x = t.substr(b.first, b.second-b.first); t.insert(tk.first, x+" "); break; }
            case 10: { size_t l = 1+r.next()%std::min<size_t>(t.size(), 200), s = r.next()%t.size(); string x = t.substr(s, l); t.insert(at, x); break; }
            case 11: t.erase(at, 1+r.next()%40); break;
            case 12: { static const char* U[] = {"x", "9", "/", " ", "\n", "-1 ", "(", "\xff", "[", "{", "\"", "1/1/1 ", ".", "#", "\\", "'"}; string u = U[r.irange(0, 15)]; int m = r.chance(.8)?r.irange(1, 300):r.irange(2000, 12000); string x; for(int i = 0; i<m; i++) x += u; t.insert(at, x); break; }
            default: { size_t e = t.find('\n', at); size_t b = t.rfind('\n', at); if(b == string::npos) b = 0; if(e == string::npos) e = t.size(); string x = t.substr(b, e-b); if(r.chance(.5)) t.erase(b, e-b); else t.insert(r.next()%t.size(), x); }
        }
    }
    return t;
}
static void narrow(string& t);
// images of many megapixels are legal but too large to be made here by the thousand
static void tame(string& t) { for(size_t i = 0; i<t.size();) { if(!isdigit((unsigned char)t[i])) { i++; continue; } size_t e = i; while(e<t.size() && isdigit((unsigned char)t[e])) e++; size_t z = i; while(z<e && t[z] == '0') z++; size_t l = e-z; if(l == 4 || (l == 5 && t.compare(z, 5, "40000")<=0)) { t.erase(z+3, e-z-3); e = z+3; } i = e; } narrow(t); }
// nor are very narrow ones, which are widened in proportion
static void narrow(string& t) { for(size_t p = t.find("width"); p != string::npos; p = t.find("width", p+5)) { size_t i = p+5; auto skip = [&]() { while(i<t.size()) { if(isspace((unsigned char)t[i])) i++; else if(t[i] == '#') { while(i<t.size() && t[i] != '\n') i++; } else break; } }; skip(); if(i<t.size() && t[i] == ':') i++; skip(); if(i<t.size() && t[i] == '+') i++; size_t e = i; while(e<t.size() && isdigit((unsigned char)t[e])) e++; if(e>i && e-i<9 && atoi(t.substr(i, e-i).c_str())<64 && atoi(t.substr(i, e-i).c_str())>0) t.replace(i, e-i, "64"); } }
static string printable(const string& t, size_t n = 600) { string s; for(char c : t.substr(0, n)) { if(c == '\n') s += "\\n"; else if((unsigned char)c<32 || (unsigned char)c>126) s += vt::fmt("\\x%02x", (unsigned char)c); else s += c; } return s; }
struct Msg { int idx; int kind; char text[400]; };
static long long* cnt; static Msg* msg;
enum { MESHES, TRIS, EMPTYF, ACCEPT, REJECT, RAYS, HITS };
static const char* CN[] = {"meshes read", "triangles read", "model files without meshes", "configurations accepted", "configurations rejected with a message", "rays cast into what was read", "rays that hit"};
static uint64_t mix(uint64_t h, const void* p, size_t n) { return h*1099511628211ULL^vt::hash_bytes(p, n); }
static uint64_t cast_rays(uint64_t seed, std::function<bool(const Ray&, HitPoint*, float*)> f, AABB bb, uint64_t h)
{
    Rng r(seed); D3 lo = gen::d(bb.bounds[0]), hi = gen::d(bb.bounds[1]); bool fin = std::isfinite(lo.x+lo.y+lo.z+hi.x+hi.y+hi.z) && len(hi-lo)<1e15; if(!fin) { lo = D3(-1, -1, -1); hi = D3(1, 1, 1); }
    for(int i = 0; i<12; i++) { D3 tg(r.range(lo.x, hi.x), r.range(lo.y, hi.y), r.range(lo.z, hi.z)), dir = rand_dir(r); Ray ray(pt(tg-dir*(len(hi-lo)+1)), vec(dir)); HitPoint q = blank_hit(); float t = FLT_MAX; bool g = f(ray, &q, &t); cnt[RAYS]++; cnt[HITS] += g; if(g) { h = mix(h, &t, 4); h = mix(h, &q.index, 4); } } return h;
}
int main(int argc, char** argv)
{
    vt::init(argc, argv, "OBJ models and configurations generated with a meaning and then mutated (bytes, tokens, numbers at and beyond every limit, repeated, cut, very long tokens, keywords out of place, degenerate values), random bytes, and texts grown from the grammar at random; read by the real parsers in child processes, with rays cast into whatever was accepted. Distinct states: texts");
    cnt = vt::shared<long long>(32); msg = vt::shared<Msg>(1); string path = vt::S().scratch+"/h.obj"; for(int i = 0; i<8; i++) { MtlLib.add_inherit(vt::fmt("mat%d", i), new SingleBRDF(new Lambertian())); }
    auto done = [&](const char* fam, const string& text, const vt::Outcome& o, const string& extra) { for(int i = 0; i<7; i++) if(cnt[i]) vt::count(CN[i], cnt[i]); if(msg->kind) { vt::violation(string(msg->kind == 1?"unset-data-":msg->kind == 2?"no-message-":"result-")+fam, "%s: %s %s", msg->text, extra.c_str(), printable(text).c_str()); return; } string w = o.what(); vt::violation((o.timeout?"hang-":"crash-")+string(fam), "%s: %s %s", w.c_str(), extra.c_str(), printable(text).c_str()); if(getenv("VT_HEX")) { fprintf(stderr, "%s\n", o.err.c_str()); vt::write_file("/tmp/dbgs/last", text); } };
    auto models = [&](std::vector<string>& ts) {
        memset((void*)msg, 0, sizeof *msg); memset(cnt, 0, 32*8); msg->idx = -1;
        vt::Outcome o = vt::forked([&]() {
            for(size_t i = 0; i<ts.size(); i++)
            {
                msg->idx = (int)i; vt::write_file(path, ts[i]); uint64_t h[2] = {1, 1};
                for(int k = 0; k<2; k++)
                {
                    garbage(k?0x35:0xca); ParserObj p; p.start_parsing(path.c_str()); garbage(k?0x53:0xac); Mesh* m = new Mesh(1); int n = 0; Scene* sc = new Scene;
                    while(p.get_next_mesh(m))
                    {
                        unsigned f = p.get_face_no(); unsigned nm = p.get_material_no(); std::vector<const Bsdf*> ms(nm); p.get_materials(ms.data()); std::vector<unsigned char> as(f); p.get_material_association(as.data()); string name = p.get_mesh_name(); if(k == 0) { cnt[MESHES]++; cnt[TRIS] += f; }
                        if((int)f != m->get_faces_number()) { msg->kind = 3; snprintf(msg->text, 400, "%u faces reported, %d in the mesh", f, m->get_faces_number()); return 0; } for(unsigned q = 0; q<f; q++) if(as[q]>=nm) { msg->kind = 3; snprintf(msg->text, 400, "face %u has material %u of %u", q, as[q], nm); return 0; }
                        h[k] = mix(h[k], name.data(), name.size()); h[k] = mix(h[k], &f, 4); h[k] = mix(h[k], as.data(), as.size()); float s = m->surface(); AABB bb = m->compute_AABB(); h[k] = mix(h[k], &s, 4); MaskBoolean nomask; Mesh* mm = m; h[k] = cast_rays(i*77+n, [&](const Ray& r, HitPoint* q, float* t) { return mm->intersect(&r, t, q, &nomask); }, bb, h[k]);
                        Matrix4 id; id.set_identity(); sc->inherit_shape(m); Asset* a = new Asset(m, id, (unsigned char)nm); a->set_materials(ms.data(), (unsigned char)nm, as.data()); sc->inherit_asset(a); for(unsigned q = 0; q<f; q++) if(a->get_material(q) == NULL) { msg->kind = 3; snprintf(msg->text, 400, "face %u without a material", q); return 0; }
                        m = new Mesh(1); if(++n>3000) { msg->kind = 3; snprintf(msg->text, 400, "endless meshes"); return 0; }
                    }
                    if(n == 0 && k == 0) cnt[EMPTYF]++; delete m; p.end_parsing(); garbage(k?0x11:0xee); sc->k.buildTree(); delete sc;
                }
                if(h[0] != h[1]) { msg->kind = 1; snprintf(msg->text, 400, "the result depends on unset memory"); return 0; }
            }
            msg->idx = -1; return 0; }, 30);
        for(auto& t : ts) vt::eval(vt::hash_str(t)); if(msg->idx<0 && o.exited && !o.sanitizer() && o.code == 0) { for(int i = 0; i<7; i++) if(cnt[i]) vt::count(CN[i], cnt[i]); return; } done("obj", msg->idx>=0?ts[msg->idx]:"", o, ""); };
    vt::cases("models", vt::n(700, 5000), [&](Rng& r, long) { std::vector<string> ts; for(int i = 0; i<12; i++) { objm::Opt op; op.max_tris = r.irange(4, 60); op.names = {"mat0", "mat1", "mat2"}; ts.push_back(mutate(r, objm::make(r, op).text, true)); } models(ts); });
    vt::cases("grown", vt::n(150, 1000), [&](Rng& r, long) { std::vector<string> ts; for(int i = 0; i<20; i++) { string t; int n = r.irange(0, 60); for(int k = 0; k<n; k++) { if(r.chance(.55)) { switch(r.irange(0, 5)) { case 0: case 1: t += vt::fmt("v %d %d %d\n", r.irange(-3, 3), r.irange(-3, 3), r.irange(-3, 3)); break; case 2: t += vt::fmt("f %d %d %d\n", r.irange(-4, 9), r.irange(-4, 9), r.irange(-4, 9)); break; case 3: t += vt::fmt("f %d/%d/%d %d//%d %d/%d\n", r.irange(-4, 9), r.irange(-4, 9), r.irange(-4, 9), r.irange(-4, 9), r.irange(-4, 9), r.irange(-4, 9), r.irange(-4, 9)); break; case 4: t += vt::fmt("vt %d %d\nvn 0 %d 1\n", r.irange(-1, 2), r.irange(-1, 2), r.irange(-1, 1)); break; default: t += "v "+any(r, NUMS)+" "+any(r, NUMS)+" "+any(r, NUMS)+"\n"; } } else { t += r.chance(.5)?any(r, OBJT):any(r, NUMS); t += r.chance(.6)?" ":r.chance(.8)?"\n":""; } } if(r.chance(.05)) { t.clear(); int m = r.irange(0, 3000); for(int k = 0; k<m; k++) t += (char)r.irange(0, 255); } ts.push_back(t); } models(ts); });
    // configurations
    string dir = vt::S().scratch+"/conf", dot = dir+"/dir.obj"; auto config = [&](Rng& r, conf::Conf& c, size_t f, const string& text) {
        vt::write_file(dir+"/"+c.files[f].first, text); ::mkdir(dot.c_str(), 0777); uint64_t seed = r.next(); memset((void*)msg, 0, sizeof *msg); memset(cnt, 0, 32*8); uint64_t* hh = (uint64_t*)(cnt+16); vt::Outcome o[2];
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
        int runs = 1;
#else
        int runs = 2;
#endif
#else
        int runs = 2;
#endif
        for(int k = 0; k<runs; k++) o[k] = vt::forked([&]() { garbage(k?0x35:0xca); Scene* s = new Scene; ConfigDriver* d = new ConfigDriver; garbage(k?0x53:0xac); Renderer* R = d->parse(c.main, s); garbage(k?0x11:0xee); s->k.buildTree(); cnt[ACCEPT] = 1; uint64_t h = 1; int v[] = {R->monitor_width(), R->monitor_height(), R->monitor_spp(), R->monitor_sampler(), (int)s->size_assets(), (int)s->size_lights(), (int)s->size_shapes()}; h = mix(h, v, sizeof v); h = mix(h, R->monitor_film().monitor_output().absolute_path(), strlen(R->monitor_film().monitor_output().absolute_path())); float cam[16] = {}; Sample sm; memset(&sm, 0, sizeof sm); sm.posx = 3; sm.posy = 4; Ray ray; R->monitor_camera()->create_ray(&sm, &ray); cam[0] = ray.origin.x; cam[1] = ray.origin.y; cam[2] = ray.origin.z; cam[3] = ray.direction.x; cam[4] = ray.direction.y; cam[5] = ray.direction.z; cam[6] = R->monitor_filter()->range_x; cam[7] = R->monitor_filter()->weight(.2f, .3f); for(float& x : cam) if(std::isnan(x)) x = 0; h = mix(h, cam, sizeof cam); std::function<bool(const Ray&, HitPoint*, float*)> ff = [&](const Ray& q, HitPoint* hp, float* t) { bool g = s->k.intersect(&q, hp); *t = g?(float)len(gen::d(hp->point_h)-gen::d(q.origin)):0; if(g && hp->asset_h->get_material(hp->index) == NULL) { msg->kind = 3; snprintf(msg->text, 400, "a surface without a material"); } return g; }; h = cast_rays(seed, ff, AABB(Point3(-70, -70, -3), Point3(70, 70, 3)), h); hh[k] = h; if(runs == 2) { delete R; delete d; delete s; } return 0; }, 30);
        vt::eval(vt::hash_str(text)); const vt::Outcome& a = o[0]; if(!a.exited || a.sanitizer() || (a.code != 0 && a.code != 1)) { if(a.exited && a.code == 2 && a.err.find("flex scanner") != string::npos) return; done("conf", text, a, c.files[f].first); return; } if(msg->kind) { done("conf", text, a, c.files[f].first); return; }
        if(a.code == 1) { cnt[REJECT] = 1; if(a.err.find("[\x1b[1;31mERROR") == string::npos && a.err.find("CRITICAL") == string::npos && a.err.size()<8) { msg->kind = 2; snprintf(msg->text, 400, "exit without a message"); done("conf", text, a, ""); return; } if(a.err.find("syntax error") != string::npos || a.err.find("unexpected") != string::npos) { bool place = false; for(auto& ff : c.files) { size_t p = a.err.find(dir+"/"+ff.first+":"); if(p != string::npos && isdigit((unsigned char)a.err[p+dir.size()+ff.first.size()+2])) place = true; } if(!place) { msg->kind = 2; snprintf(msg->text, 400, "an error without its place: %.200s", a.err.c_str()); done("conf", text, a, ""); return; } } }
        if(runs == 2 && (o[1].code != a.code || o[1].err != a.err || hh[0] != hh[1])) { msg->kind = 1; snprintf(msg->text, 400, "two runs differ: codes %d %d, %s; %.100s | %.100s", a.code, o[1].code, hh[0] == hh[1]?"same scene":"different scenes", a.err.c_str(), o[1].err.c_str()); done("conf", text, a, ""); return; }
        for(int i = 0; i<7; i++) if(cnt[i]) vt::count(CN[i], cnt[i]); };
    vt::cases("configurations", vt::n(5000, 32000), [&](Rng& r, long) { conf::Opt op; op.tidy = r.chance(.3); conf::Conf c = conf::make(r, dir, op); size_t f = r.chance(.7)?0:(size_t)r.irange(0, (int)c.files.size()-1); string t = mutate(r, c.files[f].second, false); tame(t); config(r, c, f, t); });
    vt::cases("extremes", vt::n(2500, 16000), [&](Rng& r, long) { conf::Opt op; op.children = false; conf::Conf c = conf::make(r, dir, op); string t = c.files[0].second;      // a well formed configuration with numbers at the limits
        int n = r.irange(1, 4); for(int k = 0; k<n; k++) { std::vector<std::pair<size_t, size_t>> num; bool in = false; char q = 0; for(size_t i = 0; i<t.size(); i++) { if(q) { if(t[i] == q) q = 0; continue; } if(t[i] == '"' || t[i] == '\'') { q = t[i]; continue; } if(t[i] == '#') { while(i<t.size() && t[i] != '\n') i++; continue; } if(isdigit((unsigned char)t[i]) && i && !isalnum((unsigned char)t[i-1]) && t[i-1] != '.') { size_t e = i; while(e<t.size() && (isalnum((unsigned char)t[e]) || strchr(".+-", t[e]))) e++; num.push_back({i, e-i}); i = e; } } (void)in; if(num.empty()) break; static const char* V[] = {"0", "1", "2", "1e-30", "1e-20", "1e-10", "1e10", "1e18", "1e19", "1e20", "1e30", "3e38", "0.0", "180", "90", "360", "2147483647", "1000000", "32768", "32769", "65535", "0.5", "1e-45"}; auto p = r.pick(num); t.replace(p.first, p.second, V[r.irange(0, 22)]); } tame(t); config(r, c, 0, t); });
    vt::cases("fragments", vt::n(1500, 10000), [&](Rng& r, long) { conf::Opt op; op.max_place = 2; conf::Conf c = conf::make(r, dir, op); string t; int n = r.irange(0, 40); for(int k = 0; k<n; k++) { double u = r.u(); t += u<.6?any(r, CONFT):u<.8?any(r, NUMS):u<.9?":":"\"x\""; t += r.chance(.6)?" ":r.chance(.3)?"\n":""; } if(r.chance(.1)) { t.clear(); int m = r.irange(0, 2000); for(int k = 0; k<m; k++) t += (char)r.irange(0, 255); } tame(t); config(r, c, 0, t); });
    return vt::finish();
}
