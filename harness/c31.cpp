// C31: shading frames are orthonormal, point their pole along the (possibly bumped) normal, and bump maps tilt them by the amount and in the direction stored.
#include "gen.hpp"
#include "materials/single_brdf.hpp"
#include "materials/multi_bsdf.hpp"
#include "materials/dual.hpp"
#include "materials/lambertian.hpp"
#include "materials/microfacet.hpp"
#include "materials/microfacet_distributions.hpp"
#include "materials/fresnel_conditions.hpp"
#include "materials/shading_space.hpp"
#include "materials/refraction.hpp"
#include "textures/texture_normal.hpp"
#include "textures/texture_height.hpp"
#include "textures/texture_uniform.hpp"
#include "textures/texture_image.hpp"
#include "textures/image_map.hpp"
#include "primitives/sphere.hpp"
#include "primitives/mesh.hpp"
#include "primitives/asset.hpp"
using namespace gen;
using std::string;
static D3 nd(const Normal& n) { return D3(n.x, n.y, n.z); }
static bool fin(D3 a) { return std::isfinite(a.x) && std::isfinite(a.y) && std::isfinite(a.z); }
static string st(D3 a) { return vt::fmt("(%.7g %.7g %.7g)", a.x, a.y, a.z); }
static string hs(const HitPoint& h) { return "n "+st(nd(h.normal_h))+" dpdu "+st(d(h.dpdu))+" dpdv "+st(d(h.dpdv))+vt::fmt(" uv (%.6g %.6g)", h.uv.x, h.uv.y); }
static const double TOL = 2e-4;
// what every frame has to be, whatever the surface; the pole is along n
static bool frame_ok(Rng& r, const HitPoint& h, const ShadingSpace& m, const Normal& nn, const string& what)
{
    D3 s = d(m.s), t = d(m.t), n = nd(m.n), o = nd(nn), N = nd(h.normal_h);
    if(!fin(s) || !fin(t) || !fin(n) || !fin(o)) { vt::violation("frame-not-finite", "%s: s %s t %s n %s for %s", what.c_str(), st(s).c_str(), st(t).c_str(), st(n).c_str(), hs(h).c_str()); return false; }
    if(std::fabs(len(s)-1)>TOL || std::fabs(len(t)-1)>TOL || std::fabs(len(n)-1)>TOL || std::fabs(dot(s, t))>TOL || std::fabs(dot(s, n))>TOL || std::fabs(dot(t, n))>TOL) { vt::violation("frame-not-orthonormal", "%s: s %s t %s n %s for %s", what.c_str(), st(s).c_str(), st(t).c_str(), st(n).c_str(), hs(h).c_str()); return false; }
    if(std::fabs(std::fabs(dot(o, n))-1)>TOL || dot(o, N)<-TOL) { vt::violation("normal-mismatch", "%s: normal %s, pole %s for %s", what.c_str(), st(o).c_str(), st(n).c_str(), hs(h).c_str()); return false; }
    for(int k = 0; k<4; k++)
    {
        D3 v = k == 3?n:rand_dir(r); D3 q = d(m.to_shading(vec(v))), b = d(m.to_world(vec(q))); if(!(len(b-v)<=6*TOL)) { vt::violation("round-trip", "%s: %s became %s and then %s for %s", what.c_str(), st(v).c_str(), st(q).c_str(), st(b).c_str(), hs(h).c_str()); return false; }
        if(std::fabs(q.z-dot(v, n))>6*TOL) { vt::violation("pole", "%s: %s has %g along the normal %s but %g in the frame", what.c_str(), st(v).c_str(), dot(v, n), st(n).c_str(), q.z); return false; }
        D3 c = d(m.to_world(vec(v))); double want = v.z; if(std::fabs(dot(c, n)-want)>6*TOL) { vt::violation("pole", "%s: %s maps to %s, %g along the normal", what.c_str(), st(v).c_str(), st(c).c_str(), dot(c, n)); return false; }
    }
    return true;
}
static HitPoint base_hit(Rng& r) { HitPoint h = blank_hit(); h.uv = Point2((float)r.u(), (float)r.u()); h.du = Vec2(0, 0); h.dv = Vec2(0, 0); h.point_h = pt(rand_in(r, -3, 3)); return h; }
struct Kit { std::vector<Bsdf*> all; };
static Bsdf* mat_of(Rng& r, const Bump* b, int kind, const TextureImage* mask, std::vector<Bsdf*>& own)
{
    auto plain = [&](int k) -> Bsdf* { if(k == 0) return new SingleBRDF(new Lambertian()); if(k == 1) return new SingleBRDF(new MicrofacetR(new GGXiso(.3f), new Dielectric(cauchy(1, 0), cauchy(1.5f, 0)))); MultiBSDF* m = new MultiBSDF(); m->inherit_bdf(new Lambertian(), NULL); m->inherit_bdf(new MicrofacetR(new Beckmann(.4f), new Dielectric(cauchy(1, 0), cauchy(1.5f, 0))), NULL); return m; };
    Bsdf* m = plain(kind == 3?r.irange(0, 2):kind); m->inherit_bump(b); own.push_back(m); if(kind != 3) return m;
    Bsdf* other = plain(0); own.push_back(other); bool first = r.chance(.5); Bsdf* u = new DualBsdf(first?m:other, first?other:m, MaskBoolean(mask, RED, !first)); own.push_back(u); return u;      // the mask is white: visible, the first; inverted, the second
}
static void release(std::vector<Bsdf*>& v) { for(size_t i = v.size(); i-->0;) delete v[i]; v.clear(); }
static TextureImage* flat(uint32_t rgb, std::vector<ImageMap*>& maps, int flt = 0) { std::vector<pixBGRA> px(16, rgb); ImageMap* m = flt == 0?(ImageMap*)new ImageMapUnfiltered(px.data(), 4):flt == 1?(ImageMap*)new ImageMapTrilinear(px.data(), 4):(ImageMap*)new ImageMapEWA(px.data(), 4); maps.push_back(m); Vec2 s(0, 0), c(1, 1); return new TextureImage(m, s, c, flt == 0); }
static uint32_t bgra(int r, int g, int b) { return (uint32_t)b << 24|(uint32_t)g << 16|(uint32_t)r << 8|255u; }
// tangents given a normal; kind tells how well behaved they are
static const char* TK[] = {"orthogonal", "skewed", "oblique to the normal", "any length", "mirrored", "u along the normal", "zero u", "undefined", "infinite", "tiny", "parallel"};
static int tangents(Rng& r, HitPoint& h, int kind)
{
    D3 n = unit(nd(h.normal_h)), a = cross(n, std::fabs(n.x)>.7?D3(0, 1, 0):D3(1, 0, 0)); a = unit(a); D3 b = cross(n, a); double ph = r.range(0, 6.2832); D3 T = a*cos(ph)+b*sin(ph), B = cross(n, T); float nan = std::numeric_limits<float>::quiet_NaN(), inf = std::numeric_limits<float>::infinity();
    auto set = [&](D3 u, D3 v) { h.dpdu = vec(u); h.dpdv = vec(v); };
    switch(kind)
    {
        case 0: set(T, B); break; case 1: set(T, unit(B+T*r.range(-2, 2))); break; case 2: set(unit(T+n*r.range(-2, 2)), unit(B+n*r.range(-2, 2)+T*r.range(-1, 1))); break; case 3: set(T*std::exp(r.range(-10, 10)), B*std::exp(r.range(-10, 10))); break; case 4: set(T, unit(B*-1+T*r.range(-1, 1))); break;
        case 5: set(n*(r.chance(.5)?1:-1), B); break; case 6: set(D3(0, 0, 0), B); break; case 7: h.dpdu = Vec3(nan, nan, nan); h.dpdv = Vec3(nan, nan, nan); break; case 8: h.dpdu = Vec3(inf, -inf, 0); h.dpdv = Vec3(0, inf, inf); break; case 9: set(T*1e-25, B*1e-25); break; default: set(T, T); break;
    }
    return kind;
}
int main(int argc, char** argv)
{
    vt::init(argc, argv, "frames made by materials of every kind, without bump map, with normal maps and with height maps, for surface points with regular, skewed, oblique, mirrored, degenerate and undefined tangents and for points really hit on placed meshes (smooth normals, mirrored and degenerate texture coordinates) and spheres (poles included). Distinct states: surface points");
    std::vector<ImageMap*> keep; TextureImage* white = flat(0xFFFFFFFF, keep), * flatn = flat(bgra(128, 128, 255), keep), * flath = flat(bgra(90, 90, 90), keep);
    auto values = [&](Rng& r, const Bsdf* m, const HitPoint& h, const ShadingSpace& sp, const string& what) { for(int k = 0; k<3; k++) { Vec3 wo = vec(unit(nd(h.normal_h)+rand_dir(r, false)*.9)), wi = vec(unit(nd(h.normal_h)+rand_dir(r, false)*.9)); Spectrum v = m->value(&wo, &h, &wi, &sp, false); Vec3 ws; float p = 0; bool ms = false; Spectrum q = m->sample_value((float)r.u(), (float)r.u(), (float)r.u(), &wo, &h, &sp, &ws, &p, false, &ms); bool f = std::isfinite(p); for(float x : v.w) f &= std::isfinite(x); for(float x : q.w) f &= std::isfinite(x); if(!f) { vt::violation("value-not-finite", "%s for %s", what.c_str(), hs(h).c_str()); return; } vt::count("scattering values at those points"); } };
    vt::cases("frames", vt::n(200000, 8000000), [&](Rng& r, long) {
        HitPoint h = base_hit(r); h.normal_h = Normal(vec(unit(rand_dir(r)))); int tk = tangents(r, h, r.irange(0, 10)), bk = r.irange(0, 2), mk = r.irange(0, 3); std::vector<Bsdf*> own; const Bump* b = bk == 0?new Bump():bk == 1?(const Bump*)new TextureNormal(flatn):(const Bump*)new TextureHeight(flath, RED); Bsdf* m = mat_of(r, b, mk, white, own); ShadingSpace sp; Normal nn(0, 0, 0); m->gen_shading_matrix(&h, &sp, &nn);
        string what = vt::fmt("%s, %s tangents", bk == 0?"no bump":bk == 1?"flat normal map":"flat height map", TK[tk]); vt::eval(vt::hash_bytes(&h.normal_h, 12)^tk*77+bk*7+mk); vt::count("frames");
        if(frame_ok(r, h, sp, nn, what)) { if(len(nd(sp.n)-nd(h.normal_h))>(bk == 1?.012:1e-3)) vt::violation("flat-map-tilts", "%s: pole %s for %s", what.c_str(), st(nd(sp.n)).c_str(), hs(h).c_str()); D3 T = d(h.dpdu), N = nd(h.normal_h); D3 P = T-N*dot(T, N); if(tk<=4 && bk == 0 && dot(d(sp.s), unit(P))<.999) vt::violation("tangent", "%s: s %s does not follow dpdu for %s", what.c_str(), st(d(sp.s)).c_str(), hs(h).c_str()); values(r, m, h, sp, what); }
        release(own); });
    vt::cases("normal maps", vt::n(200000, 8000000), [&](Rng& r, long) {
        HitPoint h = base_hit(r); h.normal_h = Normal(vec(unit(rand_dir(r)))); int tk = tangents(r, h, r.irange(0, 4)); D3 e = unit(D3(r.range(-1, 1), r.range(-1, 1), r.range(.25, 1.2))); const bool below = r.chance(.15); if(below) e.z = -e.z; int R = (int)std::lround((e.x*.5+.5)*255), Gc = (int)std::lround((e.y*.5+.5)*255), Bc = (int)std::lround((e.z*.5+.5)*255); e = unit(D3(R/255.*2-1, Gc/255.*2-1, Bc/255.*2-1));
        std::vector<ImageMap*> maps; TextureImage* t = flat(bgra(R, Gc, Bc), maps, r.irange(0, 2)); std::vector<Bsdf*> own; Bsdf* m = mat_of(r, new TextureNormal(t), r.irange(0, 3), white, own); ShadingSpace sp; Normal nn(0, 0, 0); m->gen_shading_matrix(&h, &sp, &nn); vt::eval(vt::hash_bytes(&h.normal_h, 12)^R*65536+Gc*256+Bc); vt::count("normal maps applied"); string what = vt::fmt("normal map (%d %d %d), %s tangents", R, Gc, Bc, TK[tk]);
        if(below) //a texel that points inside the surface: the normal stays outside
        {
            D3 N = nd(h.normal_h), T = d(h.dpdu); T = unit(T-N*dot(T, N)); D3 B = cross(N, T); if(dot(B, d(h.dpdv))>0) B = B*-1; D3 want = unit(T*e.x+B*e.y+N*e.z)*-1; vt::count("texels that point inside the surface");
            if(dot(N, want)>.02 && !(len(nd(nn)-want)<=.004)) vt::violation("normal-map-below", "%s: normal %s instead of %s for %s", what.c_str(), st(nd(nn)).c_str(), st(want).c_str(), hs(h).c_str());
        }
        else if(frame_ok(r, h, sp, nn, what)) { D3 N = nd(h.normal_h), T = d(h.dpdu); T = unit(T-N*dot(T, N)); D3 B = cross(N, T); if(dot(B, d(h.dpdv))>0) B = B*-1; D3 want = unit(T*e.x+B*e.y+N*e.z); if(len(nd(nn)-want)>.004 || len(nd(sp.n)-want)>.004) vt::violation("normal-map", "%s: normal %s, pole %s instead of %s for %s", what.c_str(), st(nd(nn)).c_str(), st(nd(sp.n)).c_str(), st(want).c_str(), hs(h).c_str()); else values(r, m, h, sp, what); }
        release(own); delete t; for(auto p : maps) delete p; });
    vt::cases("height maps", vt::n(4000, 150000), [&](Rng& r, long) {
        const int S = 64; double gx = r.range(-1.2, 1.2), gy = r.range(-1.2, 1.2), c = r.range(110, 140); ImageChannel ch = (ImageChannel)r.irange(0, 3); std::vector<pixBGRA> px(S*S); for(int y = 0; y<S; y++) for(int x = 0; x<S; x++) { int v = (int)std::lround(std::min(255., std::max(0., c+gx*(x-S/2)+gy*(y-S/2)))); uint32_t w = 0; uint8_t q[4]; for(int k = 0; k<4; k++) q[k] = (uint8_t)r.irange(0, 255); int pos = ch == ALPHA?0:ch == RED?1:ch == GREEN?2:3; q[pos] = (uint8_t)v; w = (uint32_t)q[3] << 24|(uint32_t)q[2] << 16|(uint32_t)q[1] << 8|q[0]; px[y*S+x] = w; }
        ImageMap* im = new ImageMapTrilinear(px.data(), S); Vec2 s0(0, 0), c1(1, 1); TextureImage t(im, s0, c1, false); TextureHeight th(&t, ch); for(int k = 0; k<20; k++) {
            HitPoint h = base_hit(r); h.normal_h = Normal(vec(unit(rand_dir(r)))); int tk = tangents(r, h, r.chance(.5)?0:4); if(tk == 4) { D3 B = cross(nd(h.normal_h), d(h.dpdu)); h.dpdv = vec(B*-1); } h.uv = Point2((float)r.range(.3, .5), (float)r.range(.3, .5)); float e = .25f; h.du = Vec2(e, 0); h.dv = Vec2(0, e); h.differentials = true; ShadingSpace sp; Normal nn(0, 0, 0); th.bump(&h, &sp, &nn); vt::eval(vt::hash_bytes(&h.normal_h, 12)); vt::count("height maps applied");
            if(frame_ok(r, h, sp, nn, vt::fmt("height map, %s tangents", TK[tk]))) { double gu = gx*S/255, gv = gy*S/255; D3 N = nd(h.normal_h), want = unit(N-d(h.dpdu)*gu-d(h.dpdv)*gv); if(len(nd(nn)-want)>.09) { vt::violation("height-map", "slope (%g %g): normal %s instead of %s for %s", gu, gv, st(nd(nn)).c_str(), st(want).c_str(), hs(h).c_str()); break; } } }
        delete im; });
    // hits without a footprint (mirrored ones, say) are tilted by a height map all the same; slopes steep enough to outweigh the 256 levels
    vt::cases("height maps without a footprint", vt::n(3000, 60000), [&](Rng& r, long) {
        const int S = 64; double gx = r.range(5, 15)*(r.chance(.5)?1:-1), gy = r.range(5, 15)*(r.chance(.5)?1:-1); std::vector<pixBGRA> px(S*S); for(int y = 0; y<S; y++) for(int x = 0; x<S; x++) { int v = (int)std::lround(std::min(255., std::max(0., 128+gx*(x-S/2)+gy*(y-S/2)))); px[y*S+x] = (uint32_t)v*0x01010101u; }
        int kind = r.irange(0, 1); ImageMap* im = kind?(ImageMap*)new ImageMapEWA(px.data(), S):(ImageMap*)new ImageMapTrilinear(px.data(), S); Vec2 s0(0, 0), c1(1, 1); TextureImage t(im, s0, c1, false); TextureHeight th(&t, (ImageChannel)r.irange(0, 3));
        for(int k = 0; k<10; k++)
        {
            HitPoint h = base_hit(r); h.normal_h = Normal(vec(unit(rand_dir(r)))); tangents(r, h, 4); { D3 B = cross(nd(h.normal_h), d(h.dpdu)); h.dpdv = vec(B*-1); } h.uv = Point2((float)(.5+r.range(-.02, .02)), (float)(.5+r.range(-.02, .02))); h.differentials = false; ShadingSpace sp; Normal nn(0, 0, 0); th.bump(&h, &sp, &nn); vt::eval(vt::hash_bytes(&h.normal_h, 12)); vt::count("height maps without a footprint applied");
            if(!frame_ok(r, h, sp, nn, "height map without a footprint")) break;
            double gu = gx*S/255, gv = gy*S/255, worst = 0; D3 N = nd(h.normal_h); auto tilt = [&](double a, double b) { return unit(N-d(h.dpdu)*a-d(h.dpdv)*b); }; D3 want = tilt(gu, gv); for(int a = -1; a<2; a++) for(int b = -1; b<2; b++) worst = std::max(worst, len(tilt(gu+.8*a, gv+.8*b)-want));
            vt::maxi("error over tolerance, no footprint", len(nd(nn)-want)/(worst+.02)); if(!(len(nd(nn)-want)<=worst+.02)) { vt::violation("height-map-no-footprint", "slope (%g %g): normal %s instead of %s for %s", gu, gv, st(nd(nn)).c_str(), st(want).c_str(), hs(h).c_str()); break; }
        }
        delete im; });
    // footprints that are longer one way than the other, or slanted: each slope is still that of the map
    vt::cases("height maps with uneven footprints", vt::n(2000, 40000), [&](Rng& r, long) {
        const int S = 64; double gx = r.range(1.5, 3.5)*(r.chance(.5)?1:-1), gy = r.range(1.5, 3.5)*(r.chance(.5)?1:-1); std::vector<pixBGRA> px(S*S); for(int y = 0; y<S; y++) for(int x = 0; x<S; x++) { int v = (int)std::lround(std::min(255., std::max(0., 128+gx*(x-S/2)+gy*(y-S/2)))); px[y*S+x] = (uint32_t)v*0x01010101u; }
        int kind = r.irange(0, 1); ImageMap* im = kind?(ImageMap*)new ImageMapEWA(px.data(), S):(ImageMap*)new ImageMapTrilinear(px.data(), S); Vec2 s0(0, 0), c1(1, 1); TextureImage t(im, s0, c1, false); TextureHeight th(&t, (ImageChannel)r.irange(0, 3));
        for(int k = 0; k<10; k++)
        {
            HitPoint h = base_hit(r); h.normal_h = Normal(vec(unit(rand_dir(r)))); tangents(r, h, 4); { D3 B = cross(nd(h.normal_h), d(h.dpdu)); h.dpdv = vec(B*-1); } h.uv = Point2((float)(.5+r.range(-.02, .02)), (float)(.5+r.range(-.02, .02))); h.differentials = true;
            double eu = r.logrange(.015, .06), ev = r.logrange(.015, .06); auto foot = [&](double e) { double a = r.chance(.4)?1:r.chance(.5)?0:r.range(0, 1); return Vec2((float)(2*e*a*(r.chance(.5)?1:-1)), (float)(2*e*(1-a)*(r.chance(.5)?1:-1))); }; h.du = foot(eu); h.dv = foot(ev);
            ShadingSpace sp; Normal nn(0, 0, 0); th.bump(&h, &sp, &nn); vt::eval(vt::hash_bytes(&h.normal_h, 12)); vt::count("height maps with uneven footprints applied");
            if(!frame_ok(r, h, sp, nn, "height map with an uneven footprint")) break;
            double gu = gx*S/255, gv = gy*S/255, worst = 0; D3 N = nd(h.normal_h); auto tilt = [&](double a, double b) { return unit(N-d(h.dpdu)*a-d(h.dpdv)*b); }; D3 want = tilt(gu, gv); const double L = 2.4/255; for(int a = -1; a<2; a++) for(int b = -1; b<2; b++) worst = std::max(worst, len(tilt(gu+L/eu*a, gv+L/ev*b)-want));
            vt::maxi("error over tolerance, uneven footprints", len(nd(nn)-want)/(worst+.02)); if(!(len(nd(nn)-want)<=worst+.02)) { vt::violation("height-map-uneven-footprint", "slope (%g %g), steps %g %g: normal %s instead of %s for %s", gu, gv, eu, ev, st(nd(nn)).c_str(), st(want).c_str(), hs(h).c_str()); break; }
        }
        delete im; });
    vt::cases("hits", vt::n(20000, 1000000), [&](Rng& r, long) {
        int n = r.chance(.3)?1:r.irange(1, 40), uvk = r.irange(0, 4); std::vector<Tri> T; for(int i = 0; i<n; i++) { Tri t = tri(rand_in(r, -4, 4), rand_in(r, -4, 4), rand_in(r, -4, 4)); D3 g = tri_n(t); double L = std::max(len(d(t.v[1].p)-d(t.v[0].p)), std::max(len(d(t.v[2].p)-d(t.v[0].p)), len(d(t.v[2].p)-d(t.v[1].p)))); if(len(g)<.5 || len(g)<.35*L) { i--; continue; } g = unit(g); if(r.chance(.5)) g = g*-1; for(int k = 0; k<3; k++) { D3 v = unit(g+rand_dir(r, false)*(r.chance(.3)?0:.7)); t.v[k].n = Normal(vec(v)); t.v[k].t = Point2((float)r.range(-2, 2), (float)r.range(-2, 2)); if(uvk == 1) t.v[k].t = Point2(.5f, .25f); if(uvk == 2) t.v[k].t = Point2((float)k*.25f, (float)k*.5f); if(uvk == 3) t.v[k].t = Point2(k == 1, k == 2); if(uvk == 4 && k<2) t.v[k].t = Point2(.125f, .75f); } T.push_back(t); }
        bool ball = r.chance(.25); Mesh* mesh = ball?NULL:make_mesh(T); Sphere sph; DM M = rand_place(r, r.chance(.4), .2, 5, 20); Asset as(ball?(const Shape*)&sph:mesh, fm(M), 1); DM inv = dm(fm(M));
        std::vector<Bsdf*> own; int bk = r.irange(0, 2); Bsdf* m = mat_of(r, bk == 0?new Bump():bk == 1?(const Bump*)new TextureNormal(flatn):(const Bump*)new TextureHeight(flath, RED), r.irange(0, 3), white, own); Matrix4 W; if(!fm(M).inverse(&W)) return; DM Wi = dm(W); (void)inv;
        for(int k = 0; k<8; k++)
        {
            D3 po, No, Go; if(ball) { po = r.chance(.1)?D3(0, 0, r.chance(.5)?1:-1):rand_dir(r); No = Go = po; } else { const Tri& t = r.pick(T); double a = r.range(.02, .98), b = r.range(.02, .98); if(a+b>.98) { a = 1-a; b = 1-b; } if(a+b>.99 || a<.01 || b<.01) continue; D3 A = d(t.v[0].p), B = d(t.v[1].p), C = d(t.v[2].p); po = A+(B-A)*a+(C-A)*b; No = nd(t.v[0].n)*(1-a-b)+nd(t.v[1].n)*a+nd(t.v[2].n)*b; if(len(No)<.3) continue; D3 g = unit(tri_n(t)); if(dot(g, No)<0) g = g*-1; if(dot(unit(No), g)<.2) continue; Go = g; }
            D3 pw = M.p(po), Nw = unit(Wi.tv(No));
            D3 dir = unit(Nw+rand_dir(r, false)*.5)*-1; if(std::fabs(dot(dir, unit(Wi.tv(Go))))<.15) { vt::count("aimed points seen too obliquely"); continue; } Ray ray(pt(pw-dir*3.), vec(dir)); HitPoint h = blank_hit(); h.du = Vec2(0, 0); h.dv = Vec2(0, 0); float dist = FLT_MAX; if(!as.intersect(&ray, &dist, &h)) { vt::count("aimed points missed"); continue; } bool near_ = false; if(!ball) { D3 a = Wi.p(pw-dir*3.)*1., dd = Wi.v(dir); int crossed = 0; for(const Tri& t : T) { D3 A = d(t.v[0].p), e1 = d(t.v[1].p)-A, e2 = d(t.v[2].p)-A, q = cross(dd, e2); double det = dot(e1, q); if(std::fabs(det)<1e-12) { near_ = true; break; } D3 s = a-A; double u = dot(s, q)/det; D3 w = cross(s, e1); double v = dot(dd, w)/det, tt = dot(e2, w)/det; if(u>-.01 && v>-.01 && u+v<1.01 && std::fabs(tt-3)<.1) crossed++; } near_ |= crossed != 1; } if(near_) { vt::count("aimed points beside another surface"); continue; } if(std::fabs(dist-3)>.01) { vt::count("aimed points behind another surface"); continue; }
            vt::eval(vt::hash_bytes(&h.point_h, 12)); vt::count(ball?"points on spheres":"points on meshes"); string what = vt::fmt("%s, %s", ball?"sphere":"mesh", bk == 0?"no bump":bk == 1?"flat normal map":"flat height map")+(ball?"":vt::fmt(", texture coordinates %d", uvk)); if(len(nd(h.normal_h)-Nw)>.02) { vt::violation("interpolated-normal", "%s: normal %s instead of %s at %s", what.c_str(), st(nd(h.normal_h)).c_str(), st(Nw).c_str(), st(pw).c_str()); break; }
            ShadingSpace sp; Normal nn(0, 0, 0); m->gen_shading_matrix(&h, &sp, &nn); if(!frame_ok(r, h, sp, nn, what)) break; D3 N = nd(h.normal_h), pu = d(h.dpdu)-N*dot(N, d(h.dpdu)), pv = d(h.dpdv)-N*dot(N, d(h.dpdv)); double cond = len(cross(pu, pv))/(len(d(h.dpdu))*len(d(h.dpdv))); /*nearly parallel tangents*/ double lim = bk == 1?.012:VT_SLACK*2e-3+(bk == 2 && cond>0?std::min(.3, 2e-6/cond):0); if(len(nd(sp.n)-N)>lim) { vt::violation("flat-map-tilts", "%s: pole %s for %s", what.c_str(), st(nd(sp.n)).c_str(), hs(h).c_str()); break; } values(r, m, h, sp, what);
        }
        release(own); delete mesh; });
    return vt::finish();
}
