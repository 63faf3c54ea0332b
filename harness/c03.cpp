// C03: every camera sample of a render is taken exactly once and reaches the saved image.
#include "film.hpp"
#include "renderer.hpp"
#include "primitives/mesh.hpp"
#include "primitives/asset.hpp"
#include <thread>
#include <atomic>
#include <map>
#include <set>
#include "samplers/sampler_random.hpp"
#include "samplers/sampler_stratified.hpp"
using namespace gen;
struct Log { std::mutex m; std::vector<Sample> s; std::atomic<long> rad{0}, odd{0}; };
static bool misses(int mode, float x, float y) { return mode == 2 && (((int)x/5+(int)y/7)%4 == 0); }
static double col(int mode, double x, double y) { if(mode == 0) return .3; return .02+.9*std::fabs(std::sin(x*12.9898+y*78.233)); }
struct Cam : public Camera
{
    Log* l; int mode;
    Cam(Point3* p, Point3* t, Vec3* u, int w, int h, Log* l_, int m) : Camera(p, t, u, w, h), l(l_), mode(m) {}
    void ray(const Sample* s, Ray* r) const { r->origin = Point3(s->posx, s->posy, misses(mode, s->posx, s->posy)?2.f:-1.f); r->direction = Vec3(0, 0, 1); r->ricochet = 0; }
    void create_ray(const Sample* s, Ray* r, Ray* rx, Ray* ry) const override { { std::lock_guard<std::mutex> g(l->m); l->s.push_back(*s); } ray(s, r); Sample a = *s; a.posx++; ray(&a, rx); a = *s; a.posy++; ray(&a, ry); }
    void create_single_ray(const Sample* s, Point3* o, Vec3* d_) const override { Ray r; ray(s, &r); *o = r.origin; *d_ = r.direction; }
};
struct Integ : public LightIntegrator
{
    Log* l; int mode; Integ(Log* l_, int m) : l(l_), mode(m) {}
    Spectrum radiance(const Scene*, const HitPoint* h, const Ray* r, Sampler*, OcclusionTester*) const override
    {
        l->rad++; if(!h->asset_h || std::fabs(h->point_h.x-r->origin.x)>1e-2 || std::fabs(h->point_h.y-r->origin.y)>1e-2) l->odd++;
        return Spectrum(ColorRGB((float)col(mode, r->origin.x, r->origin.y)), false);
    }
};
static void one(uint64_t seed, long id, bool alone = false)
{
    Rng r(seed); int w = 32*r.irange(1, 5), h = r.chance(.2)?32*r.irange(1, 4):r.irange(1, 150); bool strat = r.chance(.5); int root = r.irange(1, 3), spp = strat?root*root:r.irange(1, 7); int nt = r.chance(.1)?0:r.irange(1, 16), mode = r.irange(0, 2);
    std::string fn; Filter* f = film::make_filter(r, r.irange(0, 4), &fn); std::string out = vt::S().scratch+vt::fmt("/c03_%ld.ppm", id); Log L; auto bad = [&](const char* sg, const std::string& t) { vt::violation(sg, "%dx%d, %s sampler, %d spp, %d threads, %s filter: %s", w, h, strat?"stratified":"random", spp, nt, fn.c_str(), t.c_str()); };
    Scene sc; Mesh* m = new Mesh(2); Vertex v[4]; for(int k = 0; k<4; k++) v[k] = vert(D3(k == 1 || k == 2?1000:-100, k>1?1000:-100, 0)); m->add_triangle(&v[0], &v[1], &v[2]); m->add_triangle(&v[0], &v[2], &v[3]); m->finalize(); sc.inherit_shape(m); Matrix4 I; I.set_identity(); sc.inherit_asset(new Asset(m, I, 1));
    Point3 p(0, 0, 0), t(0, 0, 1); Vec3 u(0, 1, 0);
    Integ* in = new Integ(&L, mode);
    std::vector<film::Acc> A((size_t)w*h); std::vector<char> amb((size_t)w*h);
    {
        Renderer rd(w, h, spp, out.c_str(), nt); rd.inherit_camera(new Cam(&p, &t, &u, w, h, &L, mode)); rd.inherit_filter(f); rd.inherit_integrator(in); rd.set_sampler(strat?SPECTRE_SAMPLER_STRATIFIED:SPECTRE_SAMPLER_RANDOM); rd.render(&sc);
        double rx = f->range_x, ry = f->range_y;
        for(auto& s : L.s)
        {
            double c = misses(mode, s.posx, s.posy)?0:col(mode, s.posx, s.posy); double cx = (double)s.posx-.5, cy = (double)s.posy-.5; ColorXYZ xyz = Spectrum(ColorRGB((float)c), false).to_xyz(); double cc[3] = {c == 0?0:xyz.r, c == 0?0:xyz.g, c == 0?0:xyz.b};
            for(int py = std::max(0, (int)(cy-ry)-1); py<std::min(h, (int)(cy+ry)+2); py++) for(int px = std::max(0, (int)(cx-rx)-1); px<std::min(w, (int)(cx+rx)+2); px++)
            {
                double dx = std::fabs(px-cx), dy = std::fabs(py-cy); if(dx>rx+1e-4 || dy>ry+1e-4) continue; film::Acc& q = A[(size_t)py*w+px];
                if((std::fabs(dx-rx)<1e-4 || std::fabs(dy-ry)<1e-4)) { if(std::fabs(f->weight((float)std::min(dx, rx), (float)std::min(dy, ry)))>1e-7) amb[(size_t)py*w+px] = 1; q.n++; continue; }
                double wt = f->weight((float)(px-cx), (float)(py-cy)); q.w += wt; q.a += std::fabs(wt); q.n++; for(int a = 0; a<3; a++) q.c[a] += wt*cc[a];
            }
        }
    }
    // exactly spp samples in every pixel, none elsewhere
    std::vector<int> cnt((size_t)w*h); std::vector<int> cell(strat?(size_t)w*h*spp:0); bool ok = true; long edge = 0, n = (long)L.s.size();
    if(n != (long)w*h*spp) bad("sample-count", vt::fmt("%ld camera samples for %ld wanted", n, (long)w*h*spp)), ok = false;
    if(L.odd) bad("wrong-hit", "the integrator got a hit that is not the one of its ray");
    // a coordinate rounded up to the next pixel's border still belongs to the pixel before; such samples are set aside and only counted
    for(auto& s : L.s)
    {
        if(!(s.posx>=0 && s.posx<=w && s.posy>=0 && s.posy<=h)) { bad("outside", vt::fmt("sample at %g %g", s.posx, s.posy)); ok = false; break; }
        if(s.posx == std::floor(s.posx) || s.posy == std::floor(s.posy)) { edge++; continue; }
        int x = (int)s.posx, y = (int)s.posy; cnt[(size_t)y*w+x]++;
        if(strat) { double fx = (s.posx-x)*root, fy = (s.posy-y)*root; int cx = (int)fx, cy = (int)fy; if(std::fabs(fx-std::round(fx))<1e-4 || std::fabs(fy-std::round(fy))<1e-4) { edge++; cnt[(size_t)y*w+x]--; continue; } cell[((size_t)y*w+x)*spp+cy*root+cx]++; }
        uint64_t hs = vt::hash_bytes(&s, sizeof s, id); { static std::mutex mm; std::lock_guard<std::mutex> g(mm); vt::eval(hs); }
    }
    long less = 0; for(size_t k = 0; k<cnt.size() && ok; k++) { if(cnt[k]>spp) { bad("pixel-count", vt::fmt("pixel %zu %zu got %d samples", k%w, k/w, cnt[k])); ok = false; } less += spp-cnt[k]; }
    if(ok && less != edge) bad("pixel-count", vt::fmt("%ld samples missing from their pixels, %ld on pixel borders", less, edge)), ok = false;
    if(strat && ok) { long miss = 0; for(size_t k = 0; k<cell.size(); k++) { if(cell[k]>1) { bad("cell", vt::fmt("pixel %zu %zu: %d samples in one cell", k/spp%w, k/spp/w, cell[k])); ok = false; break; } miss += 1-cell[k]; } if(ok && miss != edge) bad("cell", vt::fmt("%ld cells without a sample, %ld samples on borders", miss, edge)); }
    // every tile draws its own random offsets: the offsets of two tiles (in the order they were taken) are never the same sequence.
    // Only judged when no other render of this process seeds the shared generator at the same time
    if(alone)
    {
        std::map<long, std::vector<float>> seq; for(auto& s : L.s) { int tx = std::min((int)s.posx, w-1)/32, ty = std::min((int)s.posy, h-1)/32; auto& q = seq[(long)ty*1000+tx]; if(q.size()>=64) continue; double g = strat?root:1; double a = s.posx*g, b = s.posy*g; q.push_back((float)(a-std::floor(a))); q.push_back((float)(b-std::floor(b))); }
        std::vector<std::vector<float>*> L2; for(auto& q : seq) if(q.second.size() == 64) L2.push_back(&q.second);
        for(size_t i = 0; i<L2.size(); i++) for(size_t j = 0; j<i; j++) { int same = 0; for(int k = 0; k<64; k++) { float d = std::fabs((*L2[i])[k]-(*L2[j])[k]); if(d<1e-3f || d>1-1e-3f) same++; } if(same>=60) { bad("repeated-offsets", vt::fmt("two tiles were sampled with the same sequence of random offsets (%d of 64 equal)", same)); i = L2.size(); break; } }
        static std::mutex mm; std::lock_guard<std::mutex> g(mm); vt::count("pairs of tiles whose offsets differ", (long)(L2.size()*(L2.size()-1)/2));
    }
    film::Img im = film::read_ppm(out); unlink(out.c_str()); if(!im.ok || im.w != w || im.h != h) { bad("not-an-image", "saved image unreadable or of another size"); return; }
    long judged = 0, skipped = 0;
    for(size_t k = 0; k<A.size(); k++)
    {
        film::Acc& q = A[k]; if(amb[k] && mode) { skipped++; continue; } if(std::fabs(q.w)<.1*q.a+1e-3) { skipped++; continue; }
        double v[3], o[3], o2[3], sl[3] = {0, 0, 0}; for(int a = 0; a<3; a++) v[a] = q.c[a]/q.w; film::srgb(v, o); for(int s = -1; s<2; s += 2) { double z[3]; for(int a = 0; a<3; a++) z[a] = v[a]+s*(3e-5*(q.n+q.a)/std::fabs(q.w)); film::srgb(z, o2); for(int a = 0; a<3; a++) sl[a] += std::fabs(o2[a]-o[a])*255; } judged++;
        for(int a = 0; a<3; a++) if(!(std::fabs(im.px[k*3+a]+.5-std::min(o[a]*255+.5, 255.5))<=1.01+sl[a])) { bad(mode == 0?"constant-image":"pixel-value", vt::fmt("pixel %zu %zu is %d, the samples taken average to %.2f (mode %d, weights %g of %g, %d samples, sum %g)", k%w, k/w, im.px[k*3+a], o[a]*255, mode, q.w, q.a, q.n, q.c[1])); k = A.size(); break; }
    }
    static std::mutex mm; std::lock_guard<std::mutex> g(mm); vt::count("renders"); vt::count("pixels compared", judged); vt::count("pixels skipped", skipped); vt::count("samples logged", n); vt::count("samples exactly on a border", edge); vt::count("radiance queries", L.rad); if(mode == 0) vt::count("constant radiance renders"); if(mode == 2) vt::count("renders with missing rays");
}
//the samplers alone: every pixel of the region once, in every call the requested number of samples, one for each stratum, at its centre when not random
static void samplers(Rng& r)
{
    int x0 = r.irange(0, 3000), y0 = r.irange(0, 3000), w = r.irange(1, 40), h = r.irange(1, 40), side = r.irange(1, 6), mode = r.irange(0, 2), spp = mode == 0?r.irange(1, 40):side*side; unsigned seed[32]; for(unsigned& s : seed) s = (unsigned)r.next();
    std::unique_ptr<Sampler> S; if(mode == 0) S.reset(new SamplerRandom(x0, x0+w, y0, y0+h, spp, seed)); else S.reset(new SamplerStratified(x0, x0+w, y0, y0+h, spp, seed, mode == 1));
    std::vector<int> seen(w*h, 0); std::vector<Sample> buf(spp+1); std::set<std::pair<float,float>> offs; long calls = 0, edge = 0, lost = 0; const char* nm[] = {"random", "stratified", "stratified, not random"};
    auto where = [&]() { return vt::fmt("%s sampler, %d samples, region (%d,%d)+(%d,%d)", nm[mode], spp, x0, y0, w, h); };
    for(;;)
    {
        for(Sample& s : buf) s.posx = s.posy = -7; if(!S->get_samples(buf.data())) break; if(++calls > w*h) { vt::violation("every sample once", "%s: more than %d pixels", where().c_str(), w*h); return; }
        if(buf[spp].posx != -7 || buf[spp].posy != -7) { vt::violation("every sample once", "%s: more samples than asked", where().c_str()); return; }
        double mx = 0, my = 0; for(int k = 0; k<spp; k++) { mx += buf[k].posx; my += buf[k].posy; }
        int px = (int)std::floor(mx/spp), py = (int)std::floor(my/spp); std::vector<int> cell(spp, 0); bool clear = mode != 0;
        double ex = mx/spp-px, ey = my/spp-py; if(ex<4e-4 || ey<4e-4 || ex>1-4e-4 || ey>1-4e-4) { edge++; continue; } //rounded onto the next pixel
        if(px<x0 || py<y0 || px >= x0+w || py >= y0+h) { vt::violation("every sample once", "%s: samples around pixel (%d,%d)", where().c_str(), px, py); return; }
        for(int k = 0; k<spp; k++)
        {
            double X = buf[k].posx, Y = buf[k].posy, e = 5e-4; if(X<px || Y<py || X>px+1+e || Y>py+1+e) { vt::violation("every sample once", "%s: sample %.9g %.9g is outside its pixel (%d,%d)", where().c_str(), X, Y, px, py); return; }
            double fx = (X-px)*side, fy = (Y-py)*side; int cx = (int)fx, cy = (int)fy; fx -= cx; fy -= cy;
            if(mode == 2 && (std::fabs(fx-.5)>.01 || std::fabs(fy-.5)>.01)) { vt::violation("stratification", "%s: sample %.9g %.9g is not the centre of a stratum", where().c_str(), X, Y); return; }
            if(fx<.01 || fx>.99 || fy<.01 || fy>.99) clear = false; else if(mode) cell[cy*side+cx]++;
            if(mode != 2) offs.insert({(float)(X-px), (float)(Y-py)}); float xy[2] = {buf[k].posx, buf[k].posy}; vt::eval(vt::hash_bytes(xy, sizeof xy));
        }
        if(clear) for(int j = 0; j<spp; j++) if(cell[j] != 1) { vt::violation("stratification", "%s: stratum %d of pixel (%d,%d) holds %d samples", where().c_str(), j, px, py, cell[j]); return; }
        seen[(py-y0)*w+px-x0]++;
    }
    for(int i = 0; i<w*h; i++) if(seen[i] != 1 && (seen[i] || ++lost>edge)) { vt::violation("every sample once", "%s: pixel (%d,%d) was given %d times", where().c_str(), x0+i%w, y0+i/w, seen[i]); return; }
    if(lost != edge) vt::violation("every sample once", "%s: %ld calls", where().c_str(), calls);
    if(S->get_samples(buf.data())) vt::violation("every sample once", "%s: starts again after its end", where().c_str());
    if(mode != 2 && (long)w*h*spp > 60 && (long)offs.size()*4 < (long)w*h*spp*3 && (long)w*h*spp<20000 && x0<512 && y0<512) vt::violation("offsets", "%s: only %zu different offsets for %ld samples", where().c_str(), offs.size(), (long)w*h*spp);
    vt::count("sampler regions", 1);
}
int main(int argc, char** argv)
{
    vt::init(argc, argv, "whole renders through Renderer::render with a camera and an integrator that log every sample and radiance query: 32..160 x 1..150 pixels, both samplers, 1 to 9 samples per pixel, five filters, 1 to 16 worker threads, constant radiance, radiance that changes at every sample, rays that miss; several renders at once to disturb the schedule");
    vt::cases("render", vt::n(32, 200), [](Rng& r, long i) {
        std::vector<std::thread> T; int n = r.irange(3, 8); for(int k = 0; k<n; k++) { uint64_t s = r.next(); T.emplace_back([=]() { one(s, i*16+k); }); } for(auto& t : T) t.join();
    });
    vt::cases("render alone", vt::n(24, 200), [](Rng& r, long i) { one(r.next(), 100000+i, true); });
    vt::cases("sampler", vt::n(600, 6000), [](Rng& r, long) { samplers(r); });
    return vt::finish();
}
