// C29: everything created is released exactly once. Every case is a history carried out several times over in a child process under AddressSanitizer: it may not
// touch or release anything already released, and from the second repetition on it must give back every byte, descriptor and thread it took.
#include "conf.hpp"
#include "codec.hpp"
#include "obj.hpp"
#include <thread>
#include <mutex>
#include <atomic>
#include <chrono>
#include <stack>
#include <queue>
#include <sstream>
#include <set>
#include <map>
#include <dirent.h>
#include <cstdarg>
#include "parsers/config_driver.hpp"
#include "textures/image_map.hpp"
#include "textures/texture_normal.hpp"
#include "textures/texture_height.hpp"
#include "lights/area_light.hpp"
#include "materials/material_library.hpp"
#include "materials/dual.hpp"
#include "integrators/path_tracer.hpp"

#include "primitives/sphere.hpp"
#include "cameras/camera_perspective.hpp"
extern "C" size_t __sanitizer_get_current_allocated_bytes() __attribute__((weak));
extern "C" int __lsan_do_recoverable_leak_check() __attribute__((weak));
using namespace conf;
static char* G; static long long* CNT;
enum { N_ROUND, N_SCENE, N_OP, N_IMG, N_REND, N_DUP, N_DROP, N_CNT };
static const char* CN[] = {"repetitions balanced", "scenes built from configurations and destroyed", "operations on public objects", "image files read or written", "renders", "names inserted twice", "lights beyond the limit"};
static int entries(const char* d) { DIR* p = opendir(d); int n = 0; if(p) { while(readdir(p)) n++; closedir(p); } return n; }
struct Held { size_t bytes; int fds, threads; };
static Held held() { Held h; h.bytes = __sanitizer_get_current_allocated_bytes?__sanitizer_get_current_allocated_bytes():0; h.fds = entries("/proc/self/fd"); h.threads = entries("/proc/self/task"); return h; }
// the history is repeated: the first time may fill caches
static void balance(const char* fam, std::function<void()> f, std::function<string()> what)
{
    G[0] = 0; vt::Outcome o = vt::forked([&]() {
        f(); Held a = held(); for(int k = 0; k<2; k++) { f(); Held b = held(); CNT[N_ROUND]++; if(b.bytes != a.bytes || b.fds != a.fds || b.threads != a.threads) { snprintf(G, 500, "%s\n%lld bytes, %d descriptors, %d threads kept by each repetition", b.fds != a.fds?"descriptors-":b.threads != a.threads?"threads-":"leak-", (long long)b.bytes-(long long)a.bytes, b.fds-a.fds, b.threads-a.threads); if(getenv("VT_HEX") && __lsan_do_recoverable_leak_check) __lsan_do_recoverable_leak_check(); return 7; } } return 0; }, 100);
    if(G[0]) { string s(G); size_t p = s.find('\n'); vt::violation(s.substr(0, p)+fam, "%s: %s", s.c_str()+p+1, what().c_str()); if(getenv("VT_HEX")) fprintf(stderr, "%s\n%s\n", o.err.c_str(), what().c_str()); return; }
    if(o.exited && o.code == 1 && !o.sanitizer()) return;          // a configuration which is refused ends the program
    if(!o.exited || o.code || o.sanitizer()) { vt::violation(string(o.timeout?"hang-":"lifetime-")+fam, "%s: %s", o.what().c_str(), what().c_str()); if(getenv("VT_HEX")) fprintf(stderr, "%s\n%s\n", o.err.c_str(), what().c_str()); }
}
static void libs_clear(Rng& r) { if(r.chance(.5)) { MtlLib.clear(); TexLib.clear(); } else { TexLib.clear(); MtlLib.clear(); } }
static const Texture* some_tex(Rng& r, std::vector<const TextureImage*>& t) { int k = r.irange(0, 3); if(k == 0) return NULL; if(k == 1 && !t.empty()) return r.pick(t); TextureUniform* u = new TextureUniform(Spectrum(ColorRGB((unsigned char)r.irange(0, 255), 20, 30), false)); TexLib.inherit_texture(u); return u; }
static MicrofacetDist* some_dist(Rng& r) { switch(r.irange(0, 3)) { case 0: return new Blinn(20); case 1: return new Beckmann(.3f); case 2: return new GGXiso(.2f); default: return new GGXaniso(.1f, .3f); } }
static Fresnel* some_fresnel(Rng& r) { if(r.chance(.5)) return new Dielectric(cauchy(1, 0), cauchy(1.5f, 0)); return new Conductor(Spectrum(METALS[0].n), Spectrum(METALS[0].k)); }
static Bdf* some_bdf(Rng& r) { Spectrum a = cauchy(1, 0), b = cauchy(1.5f, 0); switch(r.irange(0, 6)) { case 0: return new Lambertian(); case 1: return new OrenNayar(20); case 2: return new MicrofacetR(some_dist(r), some_fresnel(r)); case 3: return new MicrofacetT(some_dist(r), a, b); case 4: return new Refraction(a, b); case 5: return new DielectricReflection(a, b); default: return new ConductorReflection(Spectrum(METALS[0].n), Spectrum(METALS[0].k)); } }
static Bsdf* some_mat(Rng& r, std::vector<const TextureImage*>& t)
{
    Bsdf* b; if(r.chance(.5)) b = new SingleBRDF(some_bdf(r), some_tex(r, t)); else { MultiBSDF* m = new MultiBSDF(); int n = r.irange(0, _MAX_BDF_); for(int i = 0; i<n; i++) m->inherit_bdf(some_bdf(r), some_tex(r, t)); b = m; }
    int n = r.irange(0, 2); for(int i = 0; i<n; i++) { if(!t.empty() && r.chance(.7)) { if(r.chance(.5)) b->inherit_bump(new TextureNormal(r.pick(t))); else b->inherit_bump(new TextureHeight(r.pick(t), RED)); } else b->inherit_bump(new Bump()); } return b;
}
// materials, textures and their libraries; what is refused because its name is used stays with the caller
static void libraries(Rng r, const std::vector<string>& images)
{
    std::vector<const TextureImage*> tex; std::set<string> mats, texn, mapn; int n = r.irange(1, 60); bool used = false;
    for(int i = 0; i<n; i++)
    {
        CNT[N_OP]++; string nm = vt::fmt("n%d", r.irange(0, 12)); switch(r.irange(0, 11))
        {
            case 0: case 1: if(mats.count(nm)) CNT[N_DUP]++; { Bsdf* b = some_mat(r, tex); MtlLib.add_inherit(nm, b); if(MtlLib.get(nm) != b) delete b; mats.insert(nm); } break;
            case 2: if(!used) { MtlLib.erase(nm); mats.erase(nm); } break;
            case 3: if(r.chance(.3)) { MtlLib.clear(); mats.clear(); used = false; } else MtlLib.erase("Default"); break;
            case 4: if(mats.size()) { string a = *mats.begin(), b = *mats.rbegin(); if(mats.count(nm)) CNT[N_DUP]++; const TextureImage* m = tex.empty()?NULL:r.pick(tex); Bsdf* u = new DualBsdf(MtlLib.get(a), MtlLib.get(b), MaskBoolean(m, ALPHA, false)); MtlLib.add_inherit(nm, u); if(MtlLib.get(nm) != u) delete u; mats.insert(nm); used = true; } break;
            case 5: case 6: { if(texn.count(nm)) { CNT[N_DUP]++; } Vec2 s(0, 0), c(1, 1); TextureImage* t = images.empty() || r.chance(.3)?new TextureImage(TexLib.get_dflt_map(), s, c, true):new TextureImage(File(r.pick(images).c_str()), s, c, (TextureFilter_t)r.irange(0, 2)); TexLib.inherit_texture(nm, t); if(TexLib.get_texture(nm) == t) tex.push_back(t); else delete t; texn.insert(nm); break; }
            case 7: { if(mapn.count(nm)) CNT[N_DUP]++; std::vector<pixBGRA> px(r.chance(.5)?64:16384, 0x80402010); uint16_t side = (uint16_t)std::sqrt((double)px.size()); ImageMap* m = r.chance(.3)?(ImageMap*)new ImageMapUnfiltered(px.data(), side):r.chance(.5)?(ImageMap*)new ImageMapTrilinear(px.data(), side):(ImageMap*)new ImageMapEWA(px.data(), side); TexLib.inherit_map(nm, m); if(TexLib.get_map(nm) != m) delete m; mapn.insert(nm); break; }
            case 8: TexLib.inherit_texture(new TextureUniform(SPECTRUM_ONE)); break;
            case 9: if(mapn.count(nm)) { TexLib.erase_map(nm); mapn.erase(nm); } else TexLib.erase_map("never"); break;
            case 10: if(mats.empty() && texn.count(nm)) { const TextureImage* t = TexLib.get_texture(nm); TexLib.erase_texture(nm); texn.erase(nm); for(size_t k = 0; k<tex.size(); k++) if(tex[k] == t) { tex.erase(tex.begin()+k); break; } } break;
            default: if(mats.empty() && r.chance(.3)) { TexLib.clear(); tex.clear(); texn.clear(); mapn.clear(); } break;
        }
    }
    // materials may refer to textures: they go first
    MtlLib.clear(); TexLib.clear();
}
static Mesh* some_mesh(Rng& r)
{
    Mesh* m = new Mesh((unsigned)r.irange(0, 20)); int rounds = r.irange(1, 3); for(int k = 0; k<rounds; k++) { int n = r.chance(.1)?r.irange(0, 2):r.irange(1, 300); for(int i = 0; i<n; i++) { D3 p = rand_in(r, -5, 5); m->add_triangle(pt(p), pt(p+rand_in(r, -1, 1)), pt(p+rand_in(r, -1, 1)), Normal(0, 0, 1)); } if(m->get_faces_number() || r.chance(.5)) m->finalize(); } return m;
}
// scenes: shapes, assets, lights, acceleration structures
static void scenes_(Rng r)
{
    Scene* s = new Scene(); std::vector<const Shape*> sh; std::vector<const AreaLight*> li; int n = r.irange(1, 60); bool many = r.chance(.25); if(many) n = r.irange(40, 120); std::vector<const Bsdf*> mm = {MtlLib.get_default()};
    for(int i = 0; i<n; i++)
    {
        CNT[N_OP]++; Matrix4 M = fm(rand_place(r, false)); switch(many?r.irange(3, 5):r.irange(0, 6))
        {
            case 0: { const Shape* x = some_mesh(r); sh.push_back(x); s->inherit_shape(x); break; }
            case 1: { const Shape* x = new Sphere(); sh.push_back(x); s->inherit_shape(x); if(r.chance(.3)) s->inherit_shape(x); break; }
            case 2: { if(sh.empty()) break; const Shape* x = r.pick(sh); if(x->get_faces_number() == 0) break; int k = r.irange(1, 4); Asset* a = new Asset(x, M, k); std::vector<const Bsdf*> b(k, mm[0]); std::vector<unsigned char> as(x->get_faces_number(), (unsigned char)(k-1)); int w = r.irange(0, 3); for(int q = 0; q<w; q++) a->set_materials(b.data(), k, as.data()); s->inherit_asset(a); break; }
            case 3: case 4: { if(sh.empty()) { Sphere* x = new Sphere(); s->inherit_shape(x); sh.push_back(x); } const Shape* x = r.pick(sh); if(x->get_faces_number() == 0) break; AreaLight* a = r.chance(.5)?new AreaLight(x, M, 3000.f):new AreaLight(x, M, SPECTRUM_ONE); if(r.chance(.3)) { const Bsdf* b[1] = {mm[0]}; std::vector<unsigned char> as(x->get_faces_number(), 0); a->set_materials(b, 1, as.data()); } if(s->size_lights()>=_MAX_LIGHTS_) CNT[N_DROP]++; else li.push_back(a); s->inherit_light(a); break; }
            case 5: if(!li.empty()) s->inherit_light(r.pick(li)); break;         // one already there
            default: s->k.buildTree(); break;
        }
    }
    int k = r.irange(0, 3); for(int i = 0; i<k; i++) s->k.buildTree(); delete s;
}
template<class T> static void arrays_(Rng& r)
{
    std::vector<Array2D<T>*> a; int n = r.irange(1, 20); for(int i = 0; i<n; i++) { CNT[N_OP]++; switch(a.empty()?0:r.irange(0, 4)) { case 0: a.push_back(new Array2D<T>(r.irange(1, 100))); a.back()->zero_out(); break; case 1: a.push_back(new Array2D<T>(*r.pick(a))); break; case 2: *r.pick(a) = *r.pick(a); break; case 3: { Array2D<T> c = *r.pick(a); c = *r.pick(a); break; } default: delete a.back(); a.pop_back(); } } for(auto p : a) delete p;
}
static void objects(Rng r, const string& dir, const std::vector<string>& models)
{
    int n = r.irange(1, 8); for(int q = 0; q<n; q++) switch(r.irange(0, 5))
    {
        case 0: arrays_<uint32_t>(r); break;
        case 1: { Mesh* m = some_mesh(r); Mesh* e = r.chance(.5)?some_mesh(r):NULL; delete m; delete e; CNT[N_OP]++; break; }
        case 2: { File f((dir+"/a/b.c").c_str()); std::vector<File> v; for(int i = 0; i<10; i++) { File g = f; v.push_back(g); v.push_back(f.get_parent()); v.back().append("x"); v[r.next()%v.size()] = v[r.next()%v.size()]; f = v[0]; CNT[N_OP]++; } v.clear(); if(r.chance(.5)) f.exists(); f.filename(); f.extension(); break; }
        case 3: { if(models.empty()) break; ParserObj* p = new ParserObj(); int k = r.irange(1, 4); for(int i = 0; i<k; i++) { CNT[N_OP]++; p->start_parsing(r.chance(.1)?"/nonexistent.obj":r.pick(models).c_str()); int w = r.irange(0, 4); for(int j = 0; j<w; j++) { Mesh m(1); if(!p->get_next_mesh(&m)) break; } if(r.chance(.3)) p->end_parsing(); if(r.chance(.1)) p->end_parsing(); } delete p; break; }
        case 4: { ImageFilm* f = new ImageFilm(r.irange(1, 80), r.irange(1, 80), (dir+"/o.ppm").c_str()); Filter* fl = new FilterBox(); f->set_filter(fl); ExecutorData e; e.startx = 0; e.endx = 1; e.starty = 0; e.endy = 1; Sample s; memset(&s, 0, sizeof s); for(int i = 0; i<20; i++) { s.posx = (float)r.range(0, 2); s.posy = (float)r.range(0, 2); f->add_pixel(&s, ColorXYZ(1, 1, 1), &e); } if(r.chance(.7)) f->add_pixel_deferred(&e); if(r.chance(.7)) f->add_pixel_forced(&e); if(r.chance(.5)) f->save_image(); delete f; delete fl; CNT[N_OP]++; break; }
        default: { Renderer* R = new Renderer(r.irange(1, 4)*32, r.irange(1, 40), 1, (dir+"/o.png").c_str(), r.irange(0, 9)); Point3 p(0, 0, 0), t(0, 0, 1); Vec3 u(0, 1, 0); int k = r.irange(0, 4); for(int i = 0; i<k; i++) { CNT[N_OP]++; switch(r.irange(0, 2)) { case 0: R->inherit_camera(new CameraPerspective(&p, &t, &u, 32, 32, 1)); break; case 1: R->inherit_filter(new FilterTent()); break; default: R->inherit_integrator(new PathTracer()); } } delete R; }
    }
}
static void images(Rng r, const string& dir)
{
    int n = r.irange(1, 10); for(int i = 0; i<n; i++)
    {
        CNT[N_IMG]++; codec::File_ f = codec::any(r, dir); string b = f.data; int k = r.irange(0, 6); if(k == 1 && b.size()) b.resize(r.next()%b.size()); else if(k == 2 && b.size()) for(int q = r.irange(1, 6); q>0; q--) b[r.next()%b.size()] = (char)r.irange(0, 255); else if(k == 3 && b.size()) for(int q = r.irange(1, 6); q>0; q--) b[r.next()%std::min<size_t>(b.size(), 60)] = (char)r.irange(0, 255);
        string p = dir+"/i."+f.ext; vt::write_file(p, b); const char* ext = f.ext.c_str(); int w = 0, h = 0; if(r.chance(.1)) p += "x"; img_valid(p.c_str(), ext); if(img_dimensions(p.c_str(), ext, &w, &h) && w>0 && h>0 && (long)w*h<4000000) { uint32_t* px = (uint32_t*)malloc((size_t)w*h*4); img_read8(p.c_str(), ext, px); string o = dir+(r.chance(.2)?"/no/o.":"/o.")+f.ext; img_write(o.c_str(), ext, w, h, px); free(px); }
        if(r.chance(.3)) { Vec2 s(0, 0), c(1, 1); TextureImage* t = new TextureImage(File(p.c_str()), s, c, (TextureFilter_t)r.irange(0, 2)); delete t; }
        if(r.chance(.5)) TexLib.clear();
    }
    TexLib.clear();
}
static void world(Rng r, const string& main, bool twice, bool render)
{
    Scene* s = new Scene, *s2 = NULL; ConfigDriver* d = new ConfigDriver; Renderer* R = d->parse(main, s), *R2 = NULL; CNT[N_SCENE]++; if(twice) { if(r.chance(.5)) { delete R; R = NULL; delete s; s = new Scene; R = d->parse(main, s); } else { s2 = new Scene; R2 = d->parse(main, s2); } CNT[N_SCENE]++; }
    int e = r.irange(0, 2); if(e == 0) delete d; if(render) { R->render(s); CNT[N_REND]++; } else if(r.chance(.5)) { s->k.buildTree(); Ray ray; ray.origin = Point3(0, 0, -10); ray.direction = Vec3(0, 0, 1); HitPoint h = blank_hit(); s->k.intersect(&ray, &h); }
    if(e == 1) delete d; if(r.chance(.5)) { delete R; delete s; } else { delete s; delete R; } if(e == 2) delete d; delete R2; delete s2; libs_clear(r);
}
int main(int argc, char** argv)
{
    vt::init(argc, argv, "histories of building, using, replacing, clearing and destroying, each carried out three times in a child process under AddressSanitizer with heap bytes, descriptors and threads balanced after every repetition: configurations (repeated statements, duplicate names, too many lights, missing files, broken models, drivers used twice), the material and texture libraries, scenes, meshes, arrays, films, files, parsers, renderers, valid and damaged images, small renders. Distinct states: histories");
    G = vt::shared<char>(4096); CNT = vt::shared<long long>(N_CNT); string dir = vt::S().scratch+"/conf";
    auto fold = [&]() { for(int i = 0; i<N_CNT; i++) { vt::count(CN[i], CNT[i]); CNT[i] = 0; } };
    auto conf_case = [&](Rng& r, bool render) {
        conf::Opt op; op.maxw = 96; op.maxh = 64; op.maxspp = render?2:300; op.tidy = true; conf::Conf c = conf::make(r, dir, op); string t = c.files[0].second; const std::vector<size_t>& g = c.gaps[0]; string extra, note; int rep = r.irange(0, 4);
        for(int i = 0; i<rep && g.size()>1; i++) { size_t k = r.next()%(g.size()-1); string st = t.substr(g[k], g[k+1]-g[k]); int m = r.chance(.1)?r.irange(20, 60):r.irange(1, 2); if(st.find("children") != string::npos) m = 0; for(int q = 0; q<m; q++) extra += st+"\n"; note += " | "+std::to_string(m)+"x "+st.substr(0, 80); }
        if(r.chance(.2)) { int m = r.irange(25, 50); for(int q = 0; q<m; q++) extra += "\nlight:{name:\"Sphere\" scale:2 position:["+std::to_string(10*q)+",0,50]}\n"; note += " | many lights"; }
        if(r.chance(.3)) for(int q = r.irange(1, 3); q>0; q--) extra += string("\nworld:{name:\"Sphere\" scale:")+(r.chance(.2)?"0":"1.5")+" position:[0,0,9]}\n"; if(r.chance(.1)) extra += "\nobj:\"missing.obj\"\n"; if(r.chance(.1)) extra += "\ndualmaterial:{name:\"D\" first:\"none\" second:\"none2\"}\ndualmaterial:{name:\"D\" first:\"Default\" second:\"none2\"}\n";
        if(r.chance(.2) && c.files.size()) for(auto& f : c.t.obj) { string p = dir+"/"+f.path, b = vt::read_file(p); if(b.empty()) continue; if(r.chance(.5)) b += b; else b.resize(r.next()%b.size()); vt::write_file(p, b); note += " | model changed"; }
        t += "\n"+extra; string p = dir+"/"+c.main; if(c.main[0] == '/') p = c.main; vt::write_file(p, t); vt::eval(vt::hash_str(t)); bool twice = !render && r.chance(.25); uint64_t seed = r.next();
        balance(render?"render":twice?"configuration-twice":"configuration", [&]() { world(Rng(seed), p, twice, render); }, [&]() { return note+" :: "+t.substr(0, 1500); }); fold(); };
    vt::cases("configurations", vt::n(700, 9000), [&](Rng& r, long) { conf_case(r, false); });
    vt::cases("renders", vt::n(16, 120), [&](Rng& r, long) { conf_case(r, true); });
    std::vector<string> imgs, models; { Rng r(7); for(int i = 0; i<4; i++) { conf::Img m; m.side = 1 << (i+1); m.px.assign(m.side*m.side, 0x11223344u*(i+1)); string p = vt::S().scratch+vt::fmt("/t%d.tga", i); conf::write_tga(p, m); imgs.push_back(p); } imgs.push_back(vt::S().scratch+"/missing.tga"); objm::Opt o; o.max_tris = 60; for(int i = 0; i<4; i++) { string p = vt::S().scratch+vt::fmt("/m%d.obj", i), t = objm::make(r, o).text; if(i == 3) t += "f 1 2\nf 90000 1 2\n"; vt::write_file(p, t); models.push_back(p); } }
    vt::cases("libraries", vt::n(1500, 20000), [&](Rng& r, long) { uint64_t s = r.next(); vt::eval(s); balance("libraries", [&]() { libraries(Rng(s), imgs); }, [&]() { return vt::fmt("seed %llu", (unsigned long long)s); }); fold(); });
    vt::cases("scenes", vt::n(800, 10000), [&](Rng& r, long) { uint64_t s = r.next(); vt::eval(s); balance("scenes", [&]() { scenes_(Rng(s)); }, [&]() { return vt::fmt("seed %llu", (unsigned long long)s); }); fold(); });
    vt::cases("objects", vt::n(1200, 15000), [&](Rng& r, long) { uint64_t s = r.next(); vt::eval(s); balance("objects", [&]() { objects(Rng(s), vt::S().scratch, models); }, [&]() { return vt::fmt("seed %llu", (unsigned long long)s); }); fold(); });
    vt::cases("images", vt::n(1200, 15000), [&](Rng& r, long) { uint64_t s = r.next(); vt::eval(s); balance("images", [&]() { images(Rng(s), vt::S().scratch); }, [&]() { return vt::fmt("seed %llu", (unsigned long long)s); }); fold(); });
    return vt::finish();
}
