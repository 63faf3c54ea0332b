// C27: the scene, camera, film, sampler, filters, materials, textures, masks and lights built from a configuration are those it describes.
#include "conf.hpp"
#include <thread>
#include <mutex>
#include <atomic>
#include <chrono>
#include <stack>
#include <queue>
#include <sstream>
#include <set>
#include <map>
#include <cstdarg>
#include "parsers/config_driver.hpp"
#include "textures/image_map.hpp"
#include "textures/texture_normal.hpp"
#include "lights/area_light.hpp"
#include "materials/material_library.hpp"
using namespace conf;
static char* G;            // text of the violation, shared with the child
static long long* CNT;
enum { N_MAT, N_VAL, N_RAYS, N_MASKED, N_LIGHT, N_TEX, N_CAM, N_SPHERE, N_DUAL, N_SKIP, N_MISS };
static const char* CN[] = {"materials compared", "scattering values compared", "surface points hit as described", "points cut away by a mask", "points on lights", "texture lookups compared", "camera rays compared", "points on spheres", "dual materials compared", "placements of unknown shapes", "points of masked edges skipped"};
static void bad(const char* sig, const char* f, ...) { va_list a; va_start(a, f); char* p = G+snprintf(G, 100, "%s\n", sig); vsnprintf(p, 3000, f, a); va_end(a); _exit(7); }
static const metal_t ELEM[] = {METAL_SILVER, METAL_ALUMINIUM, METAL_GOLD, METAL_COPPER, METAL_IRON, METAL_MERCURY, METAL_LEAD, METAL_PLATINUM, METAL_TUNGSTEN, METAL_BERYLLIUM, METAL_BISMUTH, METAL_COBALT, METAL_CHROMIUM, METAL_GERMANIUM, METAL_POTASSIUM, METAL_LITHIUM, METAL_MAGNESIUM, METAL_MANGANESE, METAL_MOLYBDENUM, METAL_SODIUM, METAL_NIOBIUM, METAL_NICKEL, METAL_PALLADIUM, METAL_RHODIUM, METAL_TANTALUM, METAL_TITANIUM, METAL_VANADIUM, METAL_ZINC, METAL_ZIRCONIUM};
// reflectance at normal incidence in a short, a middle and a long band (of the spectral build), as tabulated when this check was written: which data belongs to which metal
static const double REFL[][3] = {{.979, .987, .993}, {.920, .912, .899}, {.405, .895, .969}, {.554, .769, .952}, {.501, .521, .540}, {.779, .780, .782}, {.929, .911, .909}, {.877, .945, .959}, {.751, .887, .940}, {.533, .536, .544}, {.887, .956, .970}, {.827, .924, .949}, {.559, .551, .561}, {.477, .521, .452}, {.928, .942, .961}, {.850, .919, .942}, {.951, .955, .953}, {.551, .588, .614}, {.954, .959, .958}, {.938, .974, .983}, {.558, .571, .594}, {.788, .876, .894}, {.811, .942, .972}, {.743, .781, .805}, {.780, .864, .904}, {.859, .954, .970}, {.808, .921, .959}, {.860, .872, .877}, {.547, .579, .581}};
struct Ref     // what the configuration describes, built from the pieces directly
{
    const Truth& T; std::map<std::pair<string, int>, TextureImage*> cache; std::vector<ImageMap*> maps; TextureImage* white; std::map<string, Bsdf*> mats;
    Ref(const Truth& t):T(t) { for(auto& m : t.img) { const uint32_t* p = m.px.data(); maps.push_back(t.texf == 0?(ImageMap*)new ImageMapUnfiltered(p, (uint16_t)m.side):t.texf == 1?(ImageMap*)new ImageMapTrilinear(p, (uint16_t)m.side):(ImageMap*)new ImageMapEWA(p, (uint16_t)m.side)); } white = NULL; }
    TextureImage* make(int img, const float* sc, const float* sh) { Vec2 s(sh[0], sh[1]), c(sc[0], sc[1]); return new TextureImage(maps[img], s, c, T.texf == 0); }
    static string tidy(string s, const string& dir) { for(char& c : s) if(c == '\\') c = '/'; return s; }
    TextureImage* tex(const string& n)      // NULL: not to be found
    {
        for(auto& t : T.tex) if(t.name == n) return make(t.img, t.sc, t.sh); float one[2] = {1, 1}, z[2] = {0, 0}; for(size_t i = 0; i<T.img.size(); i++) if(T.img[i].path == n) return make((int)i, one, z); return NULL;
    }
    const Texture* source(const Source& s)
    {
        if(s.m == UNIFORM) { int c[3]; for(int i = 0; i<3; i++) c[i] = (int)std::min(255.f, std::max(0.f, s.col[i])); return new TextureUniform(Spectrum(ColorRGB((unsigned char)c[0], (unsigned char)c[1], (unsigned char)c[2]), false)); }
        if(s.m == TEXTURE) { TextureImage* t = tex(s.tex); if(t) return t; } return new TextureUniform(Spectrum(ColorRGB((unsigned char)255, (unsigned char)255, (unsigned char)255), false));
    }
    MaskBoolean mask(const MaskS& m) { static const ImageChannel CH[] = {ALPHA, RED, GREEN, BLUE}; if(m.tex.empty()) return MaskBoolean(); TextureImage* t = tex(m.tex); if(!t) return MaskBoolean(); return MaskBoolean(t, CH[m.chn], m.inv); }
    MicrofacetDist* dist(const MatS& m, float x, float y) { if(y>=0) return new GGXaniso(x, y); if(m.dist == 1) return new Blinn(2.f/(x*x)-2); if(m.dist == 0) return new Beckmann(x); return new GGXiso(x); }
    Bsdf* build(const MatS& m)
    {
        float x = std::min(1.f, std::max(0.f, m.rough)), y = m.aniso; if(y == x) y = -1; if(y>=0) { x = std::max(x, .001f); y = std::min(1.f, std::max(y, .001f)); } if(m.type == 1 && x == 0) x = .001f;
        Bsdf* b = NULL; const Texture* d = source(m.dif), * s = source(m.spe); Spectrum air = cauchy(1, 0), ior = m.iorn<=1?cauchy(m.ior[0], 0):m.iorn == 2?cauchy(m.ior[0], m.ior[1]):m.iorn == 3?cauchy(m.ior[0], m.ior[1], m.ior[2]):sellmeier(m.ior[0], m.ior[1], m.ior[2], m.ior[3], m.ior[4], m.ior[5]);
        if(m.type == 0) b = x == 0?new SingleBRDF(new Lambertian(), d):new SingleBRDF(new OrenNayar(100*x), d);
        else if(m.type == 1) { MultiBSDF* u = new MultiBSDF(); u->inherit_bdf(new Lambertian(), d); u->inherit_bdf(new MicrofacetR(dist(m, x, y), new Dielectric(air, cauchy(1.5f, 0))), s); b = u; }
        else if(m.type == 2) { int e = 0; for(int i = 0; i<NSYM; i++) if(m.elem == SYM[i]) e = i; Spectrum n(METALS[ELEM[e]].n), k(METALS[ELEM[e]].k); b = x == 0 && y<0?new SingleBRDF(new ConductorReflection(n, k)):new SingleBRDF(new MicrofacetR(dist(m, x, y), new Conductor(n, k))); }
        else { MultiBSDF* u = new MultiBSDF(); if(x == 0 && y<0) { u->inherit_bdf(new Refraction(air, ior), d); u->inherit_bdf(new DielectricReflection(air, ior), s); } else { u->inherit_bdf(new MicrofacetT(dist(m, x, y), air, ior), d); u->inherit_bdf(new MicrofacetR(dist(m, x, y), new Dielectric(air, ior)), s); } b = u; }
        if(!m.normal.empty()) { TextureImage* t = tex(m.normal); if(t) b->inherit_bump(new TextureNormal(t)); } return b;
    }
};
static bool same(float a, float b) { return a == b || (std::isnan(a) && std::isnan(b)) || std::fabs(a-b)<=1e-4f*(std::fabs(a)+std::fabs(b))+1e-6f; }
static bool same(const Spectrum& a, const Spectrum& b) { for(size_t i = 0; i<sizeof a.w/sizeof(float); i++) if(!same(a.w[i], b.w[i])) return false; return true; }
static string sp(const Spectrum& a) { return vt::fmt("(%g %g %g)", a.w[0], a.w[1], a.w[2]); }
static void compare(Rng& r, const Bsdf* got, const Bsdf* ref, const char* what, const char* sig)
{
    for(int k = 0; k<25; k++)
    {
        HitPoint h = blank_hit(); h.uv = Point2((float)r.range(-1, 2), (float)r.range(-1, 2)); h.normal_h = Normal(0, 0, 1); h.dpdu = Vec3(1, 0, 0); h.dpdv = Vec3(0, 1, 0); if(r.chance(.3)) { h.differentials = true; h.du = Vec2((float)r.range(0, .3), (float)r.range(0, .1)); h.dv = Vec2((float)r.range(0, .1), (float)r.range(0, .3)); }
        D3 a = rand_dir(r, false), b = rand_dir(r, false); Vec3 wo = vec(a), wi = vec(b); ShadingSpace A, B; Normal na(0, 0, 1), nb(0, 0, 1); got->gen_shading_matrix(&h, &A, &na); ref->gen_shading_matrix(&h, &B, &nb);
        if(!same(na.x, nb.x) || !same(na.y, nb.y) || !same(na.z, nb.z)) bad("normal-map", "%s: shading normal (%g %g %g) instead of (%g %g %g)", what, na.x, na.y, na.z, nb.x, nb.y, nb.z);
        Spectrum va = got->value(&wo, &h, &wi, &A, false), vb = ref->value(&wo, &h, &wi, &B, false); float pa = got->pdf(&wo, &h, &A, &wi, false), pb = ref->pdf(&wo, &h, &B, &wi, false);
        if(!same(va, vb) || !same(pa, pb)) bad(sig, "%s: value %s density %g instead of %s %g", what, sp(va).c_str(), pa, sp(vb).c_str(), pb);
        float u[3] = {(float)r.u(), (float)r.u(), (float)r.u()}; Vec3 wa, wb; bool ma = false, mb = false; pa = pb = 0; va = got->sample_value(u[0], u[1], u[2], &wo, &h, &A, &wa, &pa, true, &ma); vb = ref->sample_value(u[0], u[1], u[2], &wo, &h, &B, &wb, &pb, true, &mb);
        if(!same(va, vb) || !same(pa, pb) || (pa>0 && (ma != mb || !same(wa.x, wb.x) || !same(wa.y, wb.y) || !same(wa.z, wb.z)))) bad(sig, "%s: sample %s density %g instead of %s %g", what, sp(va).c_str(), pa, sp(vb).c_str(), pb); CNT[N_VAL]++;
    }
}
// sigma: the sampled reflectances at normal incidence identify the metals (average over the tabulated bands)
static int child(const Conf& C, uint64_t seed)
{
    Rng r(seed); const Truth& T = C.t; Scene scene; ConfigDriver drv; Renderer* R = drv.parse(C.main, &scene);
    // image
    int ew = (T.w+31)/32*32; if(R->monitor_width() != ew || R->monitor_film().monitor_width() != ew) bad("width", "width %d instead of %d", R->monitor_width(), ew); double eh = (double)T.h*ew/T.w; if(ew == T.w?R->monitor_height() != T.h:(std::fabs(R->monitor_height()-eh)>2.01 || R->monitor_height()%2)) bad("height", "height %d instead of %g (%dx%d)", R->monitor_height(), eh, T.w, T.h); if(R->monitor_film().monitor_height() != R->monitor_height()) bad("height", "film of %d lines", R->monitor_film().monitor_height());
    if(!T.stratified) { if(R->monitor_spp() != T.spp) bad("spp", "%d samples instead of %d", R->monitor_spp(), T.spp); } else { int q = (int)(std::sqrt((double)R->monitor_spp())+.5); if(q*q != R->monitor_spp() || std::fabs(q-std::sqrt((double)T.spp))>.5001) bad("spp", "%d samples for %d", R->monitor_spp(), T.spp); }
    if(R->monitor_sampler() != (T.stratified?SPECTRE_SAMPLER_STRATIFIED:SPECTRE_SAMPLER_RANDOM)) bad("sampler", "sampler %d", R->monitor_sampler());
    string eo = C.dir+"/"+T.out; for(char& c : eo) if(c == '\\') c = '/'; if(eo != R->monitor_film().monitor_output().absolute_path()) bad("out", "output '%s' instead of '%s'", R->monitor_film().monitor_output().absolute_path(), eo.c_str());
    if(!dynamic_cast<PathTracer*>(R->monitor_integrator())) bad("integrator", "no path tracer");
    // pixel filter
    { Filter* f; switch(T.filter) { case 0: f = new FilterBox(); break; case 1: f = new FilterTent(); break; case 2: f = new FilterGaussian(T.v0); break; case 3: f = new FilterMitchell(T.v0, T.v1); break; default: f = new FilterLanczos(T.v0); } if(!same(f->range_x, R->monitor_filter()->range_x) || !same(f->range_y, R->monitor_filter()->range_y)) bad("filter", "filter range"); for(int k = 0; k<50; k++) { float x = (float)r.range(-f->range_x, f->range_x), y = (float)r.range(-f->range_y, f->range_y); if(!same(f->weight(x, y), R->monitor_filter()->weight(x, y))) bad("filter", "pixel filter %d: weight %g instead of %g at (%g %g)", T.filter, R->monitor_filter()->weight(x, y), f->weight(x, y), x, y); } if(R->monitor_film().monitor_filter() != R->monitor_filter()) bad("filter", "film without filter"); }
    // camera
    { Point3 p(T.pos[0], T.pos[1], T.pos[2]), q(T.tar[0], T.tar[1], T.tar[2]); Vec3 u(T.up[0], T.up[1], T.up[2]); Camera* c; float fov = (float)(T.fov*M_PI/180); if(T.cam == 0) c = new CameraPerspective(&p, &q, &u, ew, R->monitor_height(), fov); else if(T.cam == 1) c = new CameraOrthographic(&p, &q, &u, ew, R->monitor_height()); else c = new Camera360(&p, &q, &u, ew, R->monitor_height());
        for(int k = 0; k<40; k++) { Sample s; memset(&s, 0, sizeof s); s.posx = (float)(r.u()*ew); s.posy = (float)(r.u()*R->monitor_height()); Ray a, b; R->monitor_camera()->create_ray(&s, &a); c->create_ray(&s, &b); for(int i = 0; i<3; i++) { float x[2] = {i == 0?a.origin.x:i == 1?a.origin.y:a.origin.z, i == 0?b.origin.x:i == 1?b.origin.y:b.origin.z}, y[2] = {i == 0?a.direction.x:i == 1?a.direction.y:a.direction.z, i == 0?b.direction.x:i == 1?b.direction.y:b.direction.z}; if(!same(x[0], x[1]) || std::fabs(y[0]-y[1])>1e-4) bad("camera", "camera %d: ray differs", T.cam); } CNT[N_CAM]++; } }
    // textures and materials
    Ref ref(T);
    for(auto& t : T.tex) { if(!TexLib.contains_texture(t.name)) bad("texture-missing", "texture '%s' is not in the library", t.name.c_str()); const TextureImage* g = TexLib.get_texture(t.name), * e = ref.tex(t.name); for(int k = 0; k<40; k++) { HitPoint h = blank_hit(); h.uv = Point2((float)r.range(-1, 2), (float)r.range(-1, 2)); if(k&1) { h.differentials = true; h.du = Vec2((float)r.range(0, .3), (float)r.range(0, .1)); h.dv = Vec2((float)r.range(0, .1), (float)r.range(0, .3)); } uint32_t a = g->map_value(&h).bgra_value, b = e->map_value(&h).bgra_value; if(a != b) bad("texture", "texture '%s' (filter %d) is %08x instead of %08x at (%g %g)", t.name.c_str(), T.texf, a, b, h.uv.x, h.uv.y); CNT[N_TEX]++; } }
    for(auto& m : T.mat) { const Bsdf* g = MtlLib.get(m.name); if(!g) bad("material-missing", "material '%s' is not in the library", m.name.c_str()); Bsdf* e = ref.build(m); ref.mats[m.name] = e; compare(r, g, e, vt::fmt("material '%s' type %d", m.name.c_str(), m.type).c_str(), m.type == 0?"matte":m.type == 1?"glossy":m.type == 2?"metal":"glass"); CNT[N_MAT]++; }
    Bsdf* dflt = new SingleBRDF(new Lambertian());
    for(auto& m : T.dual) { const Bsdf* g = MtlLib.get(m.name); if(!g) bad("material-missing", "dual material '%s' is not in the library", m.name.c_str()); auto part = [&](const string& n) -> const Bsdf* { return ref.mats.count(n)?ref.mats[n]:dflt; }; DualBsdf* e = new DualBsdf(part(m.first), part(m.second), ref.mask(m.mask)); compare(r, g, e, vt::fmt("dual material '%s'", m.name.c_str()).c_str(), "dual"); CNT[N_DUAL]++; }
    // the scene
    size_t na = 0, nl = 0; std::set<string> used; for(auto& p : T.place) { if(p.shape != "Sphere" && !T.shape(p.shape)) { CNT[N_SKIP]++; continue; } na++; nl += p.light; if(p.shape != "Sphere") used.insert(p.shape); }
    if(scene.size_lights() != nl) bad("lights", "%u lights instead of %zu", scene.size_lights(), nl); if(scene.size_assets() != na && scene.size_assets() != na-nl) bad("assets", "%u objects instead of %zu with %zu lights", scene.size_assets(), na, nl); if(scene.size_shapes() != used.size()+1) bad("shapes", "%u shapes instead of %zu", scene.size_shapes(), used.size()+1);
    scene.k.buildTree(); DM I = trs(D3(0, 0, 0), 0, 0, 0, D3(1, 1, 1)); (void)I;
    for(auto& p : T.place)
    {
        const Shape_* s = T.shape(p.shape); if(p.shape != "Sphere" && !s) continue; const double K = M_PI/180; DM m = trs(D3(p.pos[0], p.pos[1], p.pos[2]), p.rot[0]*K, p.rot[1]*K, p.rot[2]*K, D3(p.sc[0], p.sc[1], p.sc[2])), inv = m.inv();
        for(int k = 0; k<(s?8*(int)s->q.size():10); k++)
        {
            D3 lp, ln; double u = 0, v = 0; string mtl = "Default"; int half = 0;
            if(s) { const Quad& q = s->q[k%s->q.size()]; u = r.chance(.5)?r.range(.08, .42):r.range(.58, .92); v = r.chance(.5)?r.range(.08, .42):r.range(.58, .92); lp = D3(q.x0+u*(q.x1-q.x0), q.y0+v*(q.y1-q.y0), s->z); ln = D3(0, 0, r.chance(.5)?1:-1); mtl = q.mtl.substr(0, q.mtl.find(' ')); if(std::fabs(u-v)<.02) continue; }
            else { lp = rand_dir(r, false); ln = lp; }
            (void)half; D3 P = m.p(lp), N = unit(inv.tv(ln)); double away = 2; D3 o = P+N*away; Ray ray(pt(o), vec(N*-1)); HitPoint h = blank_hit(); bool hit = scene.k.intersect(&ray, &h); float dist = (float)len(gen::d(h.point_h)-o);
            // where the mask says so there is nothing
            bool visible = true; if(!p.mask.tex.empty()) { if(!s) { continue; } MaskBoolean mk = ref.mask(p.mask); int n = 0; for(int i = -1; i<=1; i++) for(int j = -1; j<=1; j++) { HitPoint q = blank_hit(); q.uv = Point2((float)(u+i*1e-3), (float)(v+j*1e-3)); n += mk.is_visible(&q); } if(n != 0 && n != 9) { CNT[N_MISS]++; continue; } visible = n == 9; }
            double tol = 1e-3*(1+len(P)*.1); bool at = hit && std::fabs(dist-away)<tol;
            if(visible != at) bad(visible?"placement":"mask", "object '%s' (%s): a ray towards its point (%g %g %g) meets %s at %g, expected %s at %g; mask '%s' %d %d", p.shape.c_str(), p.light?"light":"world", P.x, P.y, P.z, hit?"something":"nothing", hit?dist:0., visible?"it":"nothing", away, p.mask.tex.c_str(), p.mask.chn, p.mask.inv);
            if(!visible) { CNT[N_MASKED]++; continue; } CNT[s?N_RAYS:N_SPHERE]++; if(s && (std::fabs(h.uv.x-u)>5e-3 || std::fabs(h.uv.y-v)>5e-3)) bad("uv", "texture coordinates (%g %g) instead of (%g %g)", h.uv.x, h.uv.y, u, v);
            const Asset* a = h.asset_h; if(a->is_light() != p.light) bad("light", "object '%s' %s a light", p.shape.c_str(), p.light?"is not":"is");
            if(p.light)
            {
                CNT[N_LIGHT]++; Spectrum e; if(p.temp>=0) e = Spectrum(p.temp); else { int c[3]; for(int i = 0; i<3; i++) c[i] = (int)std::min(255.f, std::max(0.f, p.col[i])); e = Spectrum(ColorRGB((unsigned char)c[0], (unsigned char)c[1], (unsigned char)c[2]), true); }
                Spectrum g = ((const AreaLight*)a)->emissive_spectrum(); if(!same(g, e)) bad("light-colour", "light of temperature %d colour (%g %g %g) emits %s instead of %s", p.temp, p.col[0], p.col[1], p.col[2], sp(g).c_str(), sp(e).c_str()); bool found = false; for(unsigned i = 0; i<scene.size_lights(); i++) found |= scene.get_light((int)i) == a; if(!found) bad("lights", "a light is not in the list of lights");
            }
            else { string want = p.mat.empty()?mtl:p.mat; const Bsdf* e = MtlLib.get(want); if(!e) e = MtlLib.get_default(); const Bsdf* g = a->get_material(h.index); if(g != e) bad("material", "object '%s' has another material than '%s' (%s)", p.shape.c_str(), want.c_str(), p.mat.empty()?"from the model":"override"); }
        }
    }
    return 0;
}
int main(int argc, char** argv)
{
    vt::init(argc, argv, "random configurations in the documented grammar (sections in any order and split over child files, keys in any order and repeated, blanks, comments, CRLF, number and string forms, relative and absolute paths, missing textures, materials, shapes and children), each read by the real parser in its own process and compared with the scene built directly from the description: image size, samples, sampler, output path, filter weights, camera rays, textures, materials, masks, placed surfaces, lights; and errors planted in a known file and line");
    G = vt::shared<char>(8192); CNT = vt::shared<long long>(32);
    vt::cases("scenes", vt::n(4000, 60000), [&](Rng& r, long) {
        string dir = vt::S().scratch+"/conf"; Opt o; Conf c = make(r, dir, o); G[0] = 0; memset(CNT, 0, 8*32); uint64_t seed = r.next(); vt::Outcome out = vt::forked([&]() { return child(c, seed); }, 30);
        string all; for(auto& f : c.files) all += f.second; vt::eval(vt::hash_str(all)); vt::count("files", (long long)c.files.size()); vt::count("statements", [&] { size_t n = 0; for(auto& g : c.gaps) n += g.size()-1; return (long long)n; }()); for(int i = 0; i<11; i++) if(CNT[i]) vt::count(CN[i], CNT[i]);
        if(G[0]) { char* nl = strchr(G, '\n'); string sig(G, nl-G); vt::violation(sig, "%s in %s", nl+1, dump(c).c_str()); } else if(!out.exited || out.code || out.sanitizer()) { string w = out.what(); vt::violation(out.exited && out.code == 1 && !out.sanitizer()?"rejected":"crash", "%s: %s", w.c_str(), dump(c).c_str()); if(getenv("VT_HEX")) fprintf(stderr, "%s\n", out.err.c_str()); } });
    vt::cases("errors", vt::n(2500, 30000), [&](Rng& r, long) {
        string dir = vt::S().scratch+"/conf"; Opt o; Conf c = make(r, dir, o); size_t f = (size_t)r.irange(0, (int)c.files.size()-1); if(c.files.size()>1 && r.chance(.6)) f = 1+(size_t)r.irange(0, (int)c.files.size()-2); string t = c.files[f].second; size_t at = c.gaps[f][(size_t)r.irange(0, (int)c.gaps[f].size()-1)];
        static const char* E[] = {"@", "12", "width", "spp: -3", "out: 1", "camera: {fov: \"x\"}", "world: {scale: 1}", "}", "nonsense", "resolution: {}", "texture: {name: 'x'}", "material: {type: matte}", "spp: 99999999999999999999", "camera: {fov: 1e99}", "%s%n", "filter: {value0: .}"}; static const int TOK[] = {0, 0, 0, 5, 5, 14, 8, 0, 0, 13, 16, 21, 5, 14, 0, 17}; int k = r.irange(0, 15); string pre = r.chance(.5)?"\n\n":" ", e = E[k]; if(r.chance(.3)) e = "material: {name: \"two\nlines\"} "+e;
        if(at == t.size()) pre = "\n"+pre; if(r.chance(.3)) pre += string(r.irange(50, 400), ' ');
        bool long_tok = r.chance(.15); if(long_tok) { e = string("12")+string(r.irange(1, 200), '3')+"."; }
        t.insert(at, pre+e+(r.chance(.5)?"\n":" ")); size_t pos = at+pre.size()+(long_tok?0:e.size()-strlen(E[k])+(size_t)TOK[k]); long line = 1+(long)std::count(t.begin(), t.begin()+(long)pos, '\n'); string path = dir+"/"+c.files[f].first; vt::write_file(path, t); vt::Outcome out = vt::forked([&]() { Scene s; ConfigDriver d; Renderer* x = d.parse(c.main, &s); (void)x; return 0; }, 30);
        vt::eval(vt::hash_str(t)); if(!out.exited || out.sanitizer()) { string w = out.what(); vt::violation("crash", "%s, '%s' put at %zu of %s", w.c_str(), e.c_str(), at, dump(c).c_str()); return; }
        if(out.code == 0) { vt::violation("accepted", "'%s' put in line %ld of %s is accepted: %s", e.c_str(), line, path.c_str(), dump(c).c_str()); return; }
        string want = path+vt::fmt(":%ld.", line); vt::count("errors reported"); if(f) vt::count("errors in child files"); if(out.err.find(want) == string::npos) { size_t q = out.err.find("[\x1b[1;31m"); vt::violation(f?"line-child":"line", "an error ('%s') in line %ld of %s is reported as: %s | %s", e.c_str(), line, path.c_str(), out.err.substr(0, 300).c_str(), dump(c).c_str()); (void)q; } });
    if(sizeof(Spectrum::w)/sizeof(float) == 16) vt::cases("metals", NSYM, [&](Rng&, long i) { Spectrum n(METALS[ELEM[i]].n), k(METALS[ELEM[i]].k); for(int b = 0; b<3; b++) { int at = b == 0?3:b == 1?9:14; double a = n.w[at], c = k.w[at], v = ((a-1)*(a-1)+c*c)/((a+1)*(a+1)+c*c); vt::eval(vt::hash_str(SYM[i])+b); if(std::fabs(v-REFL[i][b])>.002) vt::violation("metal-data", "%s reflects %g at normal incidence, tabulated %g", SYM[i], v, REFL[i][b]); } });
    return vt::finish();
}
