// C33: tangents of the parametrisation and texture footprints at a hit, against the placed parametrisation in double precision; and that no hit depends on the previous one.
#include "gen.hpp"
#include "scenes.hpp"
#include "cameras/camera_perspective.hpp"
#include "cameras/camera_orthographic.hpp"
#include "renderer.hpp"
#include "samplers/filter_tent.hpp"
#include "textures/image_map.hpp"
#include "textures/texture_image.hpp"
#include "textures/mask_boolean.hpp"
#include <memory>
using namespace gen;
using std::string;
static string st(D3 v) { return vt::fmt("(%.6g %.6g %.6g)", v.x, v.y, v.z); }
static bool fin(const Vec2& v) { return std::isfinite(v.x) && std::isfinite(v.y); }
// smaller singular value of the matrix with columns a, b
static double smin(D3 a, D3 b) { double A = dot(a, a), B = dot(b, b), C = dot(a, b), h = (A+B)/2, g = std::sqrt((A-B)*(A-B)/4+C*C); return std::sqrt(std::max(0.0, h-g)); }
struct Shp { std::unique_ptr<Shape> s; std::vector<Tri> t; bool sphere; };
static Shp shape(Rng& r, bool bad_uv)
{
    Shp q; q.sphere = r.chance(.4); if(q.sphere) { q.s.reset(new Sphere); return q; }
    int n = r.irange(1, 12); double k = r.logrange(.01, 30);
    for(int i = 0; i<n; i++)
    {
        D3 c = rand_in(r, -1, 1)*k; D3 a = c+rand_dir(r)*(k*r.range(.2, 1)), b = c+rand_dir(r)*(k*r.range(.2, 1)), e = c+rand_dir(r)*(k*r.range(.2, 1)); Tri T = tri(a, b, e); double us = r.logrange(.01, 20), ox = r.chance(.5)?0:r.range(-3, 3);
        for(int j = 0; j<3; j++) T.v[j].t = Point2((float)(ox+us*r.range(0, 1)), (float)(us*r.range(0, 1)));
        if(bad_uv) { int w = r.irange(0, 3); if(w == 0) for(int j = 0; j<3; j++) T.v[j].t = Point2(0, 0); else if(w == 1) T.v[1].t = T.v[0].t; else if(w == 2) T.v[2].t = Point2(2*T.v[1].t.x-T.v[0].t.x, 2*T.v[1].t.y-T.v[0].t.y); }
        q.t.push_back(T);
    }
    q.s.reset(make_mesh(q.t)); return q;
}
// the parametrisation at a hit: false where it is (nearly) degenerate or the triangle cannot be told
static bool truth(const Shp& q, const DM& M, const DM& I, const Ray& ray, const HitPoint& h, double t, D3& du, D3& dv, D3& n, double& cond, double uv[2], double& uvscale)
{
    if(q.sphere)
    {
        D3 p = unit(I.p(d(h.point_h))); double rho = std::sqrt(p.x*p.x+p.y*p.y); if(rho<.05) return false; cond = 1/rho;
        du = M.v(D3(-p.y, p.x, 0)*(2*M_PI)); dv = M.v(D3(p.z*p.x/rho, p.z*p.y/rho, -rho)*-M_PI); n = unit(I.tv(p)); uv[0] = std::atan2(p.y, p.x)/(2*M_PI); uv[1] = 1-std::acos(std::max(-1., std::min(1., p.z)))/M_PI; uvscale = cond; return true;
    }
    D3 o = I.p(d(ray.origin)), di = I.v(d(ray.direction)); int best = -1; double bd = 1e300; for(size_t i = 0; i<q.t.size(); i++) { TriHit x = tri_hit(o, di, q.t[i]); double e = std::fabs(x.t-t); if(e<1e-3*(std::fabs(t)+len(o)*1e-2)) { if(best>=0 && (x.margin<2 || x.hit)) { if(x.hit && x.margin>1 && bd<1e299) return false; } if(x.hit && x.margin>1) { best = (int)i; bd = e; } else if(x.margin<=1) return false; } }
    if(best<0) return false;
    if((size_t)h.index<q.t.size() && (int)h.index != best) { TriHit x = tri_hit(o, di, q.t[h.index]); if(std::fabs(x.t-t)<1e-3*(std::fabs(t)+len(o)*1e-2)) return false; } // two triangles within rounding of each other
    const Tri& T = q.t[best]; D3 a = M.p(d(T.v[0].p)), e1 = M.p(d(T.v[1].p))-a, e2 = M.p(d(T.v[2].p))-a; double u1 = (double)T.v[1].t.x-T.v[0].t.x, v1 = (double)T.v[1].t.y-T.v[0].t.y, u2 = (double)T.v[2].t.x-T.v[0].t.x, v2 = (double)T.v[2].t.y-T.v[0].t.y, D = u1*v2-u2*v1, sz = std::sqrt((u1*u1+v1*v1)*(u2*u2+v2*v2));
    if(std::fabs(D)<.03*sz || sz == 0) return false; cond = sz/std::fabs(D)*(1+(std::fabs(T.v[0].t.x)+std::fabs(T.v[0].t.y))/std::sqrt(sz)); du = (e1*v2-e2*v1)*(1/D); dv = (e2*u1-e1*u2)*(1/D); n = unit(cross(e1, e2));
    { D3 q_ = d(h.point_h)-a; double A = dot(e1, e1), B = dot(e2, e2), C = dot(e1, e2), x = dot(q_, e1), y = dot(q_, e2), G = A*B-C*C, b1 = (x*B-y*C)/G, b2 = (y*A-x*C)/G; uv[0] = T.v[0].t.x+b1*u1+b2*u2; uv[1] = T.v[0].t.y+b1*v1+b2*v2; uvscale = std::sqrt(u1*u1+v1*v1)+std::sqrt(u2*u2+v2*v2)+.001*(std::fabs(T.v[0].t.x)+std::fabs(T.v[0].t.y)); uvscale *= std::max(1., A*B/G*.2); }
    return true;
}
static thread_local const HitPoint* EXPECT; static thread_local HitPoint STORE; static thread_local bool PENDING;
struct Shared { char msg[2048]; std::atomic<int> bad; std::atomic<long long> rays, hits, withdiff; };
static Shared* SH; static const Scene* SC;
static void report(const string& m) { if(!SH->bad.exchange(1)) snprintf(SH->msg, sizeof SH->msg, "%s", m.c_str()); }
static string hs(const HitPoint& h) { return vt::fmt("asset %p uv %.7g %.7g du %.5g %.5g dv %.5g %.5g %d at ", (const void*)h.asset_h, h.uv.x, h.uv.y, h.du.x, h.du.y, h.dv.x, h.dv.y, (int)h.differentials)+st(d(h.point_h)); }
template<class B> struct RecCam : public B
{
    using B::B;
    void create_ray(const Sample* s, Ray* r, Ray* rx, Ray* ry) const override
    {
        B::create_ray(s, r, rx, ry); SH->rays++; if(PENDING) report("a hit of the previous sample was never shaded: "+hs(STORE));
        HitPoint f; Ray q = *r, qx = *rx, qy = *ry; PENDING = false; if(SC->k.intersect(&q, &f)) { calculate_differentials(&f, &qx, &qy); STORE = f; PENDING = true; }
    }
};
struct Integ : public LightIntegrator
{
    Spectrum radiance(const Scene*, const HitPoint* h, const Ray*, Sampler*, OcclusionTester*) const override
    {
        SH->hits++; if(h->differentials) SH->withdiff++;
        if(!PENDING) report("a hit was shaded where a fresh search finds none: "+hs(*h));
        else { const HitPoint& f = STORE; auto e = [](float a, float b) { return a == b || (a != a && b != b); };
            if(f.asset_h != h->asset_h || f.differentials != h->differentials || !e(f.uv.x, h->uv.x) || !e(f.uv.y, h->uv.y) || !e(f.point_h.x, h->point_h.x) || !e(f.point_h.y, h->point_h.y) || !e(f.point_h.z, h->point_h.z) || (f.differentials && (!e(f.du.x, h->du.x) || !e(f.du.y, h->du.y) || !e(f.dv.x, h->dv.x) || !e(f.dv.y, h->dv.y)))) report("shaded "+hs(*h)+", a fresh search finds "+hs(f)); }
        PENDING = false; return SPECTRUM_ONE;
    }
};
int main(int argc, char** argv)
{
    vt::init(argc, argv, "rays of perspective and orthographic cameras hitting spheres and meshes with random, also degenerate, texture coordinates at random (non uniform) placements: partial derivatives and screen footprint at the hit against the placed parametrisation in double precision, also for companions parallel to the surface; and whole renders (1..8 threads) of scenes cut by filtered masks, where every shaded hit must equal the one of a fresh search for the same sample. Distinct states: shape, placement, ray");
    vt::cases("hits", vt::n(6000, 90000), [](Rng& r, long i) {
        bool bad = r.chance(.1); Shp q = shape(r, bad); DM M = dm(fm(rand_place(r, false, .01, 100, 60))), I = M.inv(); Asset as(q.s.get(), fm(M), 1); const AABB* b = as.get_AABB(); D3 lo = d(b->bounds[0]), hi = d(b->bounds[1]), mid = (lo+hi)*.5; double sz = len(hi-lo);
        D3 fd = rand_dir(r); D3 pos = mid+fd*(sz*r.logrange(.6, 8)); Point3 P = pt(pos); D3 ud; do ud = rand_dir(r, false); while(len(cross(unit(ud), fd))<.2); Vec3 U = vec(ud); int w = 32*r.irange(1, 40), hgt = r.irange(20, 1500);
        for(int k = 0; k<20; k++)
        {
            D3 tar = mid+rand_in(r, -.4, .4)*(sz*.5); if(q.sphere?false:r.chance(.9)) { const Tri& T = r.pick(q.t); double a = r.range(.05, .6), c = r.range(.05, .35); D3 x = d(T.v[0].p); tar = M.p(x+(d(T.v[1].p)-x)*a+(d(T.v[2].p)-x)*c); }
            Point3 T = pt(tar); bool ortho = r.chance(.25); std::unique_ptr<Camera> cam; if(ortho) cam.reset(new CameraOrthographic(&P, &T, &U, w, hgt)); else cam.reset(new CameraPerspective(&P, &T, &U, w, hgt, (float)r.range(.05, 2.4)));
            Sample s; double spread = r.logrange(.001, 1); s.posx = (float)(w*(.5+.5*spread*r.range(-1, 1))); s.posy = (float)(hgt*(.5+.5*spread*r.range(-1, 1))); Ray ray, rx, ry; cam->create_ray(&s, &ray, &rx, &ry);
            HitPoint h; bool stale = r.chance(.5); if(stale) { h.du = Vec2(r.rangef(-9, 9), r.rangef(-9, 9)); h.dv = Vec2(r.rangef(-9, 9), r.rangef(-9, 9)); h.differentials = true; } float t = FLT_MAX; if(!as.intersect(&ray, &t, &h)) { vt::count("rays that miss"); continue; }
            bool hostile = r.chance(.1); if(hostile) { D3 n = d(h.normal_h), side = unit(cross(n, rand_dir(r, false))); rx.direction = vec(side); if(r.chance(.5)) { rx.origin = h.point_h; } if(r.chance(.3)) ry.direction = Vec3(0, 0, 0); }
            HitPoint g = h; calculate_differentials(&g, &rx, &ry); vt::eval(vt::hash_bytes(&h.point_h, 12, i*32+k)); string what = vt::fmt("%s, %s camera %dx%d, sample %g %g: ", q.sphere?"sphere":"mesh", ortho?"orthographic":"perspective", w, hgt, s.posx, s.posy);
            if(g.differentials && !(fin(g.du) && fin(g.dv))) { vt::violation("not-finite", "%sfootprint du %g %g dv %g %g", what.c_str(), g.du.x, g.du.y, g.dv.x, g.dv.y); return; }
            if(hostile) { vt::count("companions parallel to the surface"); continue; }
            D3 du, dv, n; double cond, uv[2], us; if(!truth(q, M, I, ray, h, t, du, dv, n, cond, uv, us)) { vt::count("degenerate or ambiguous parametrisations"); continue; }
            D3 gu = d(h.dpdu), gv = d(h.dpdv); double rel = VT_SLACK*(2e-3+1e-5*cond*(q.sphere?1+(len(d(h.point_h))+t)/(sz/25):1));
            if(rel>.2) { vt::count("imprecise placements, skipped"); continue; }
            vt::maxi("tangent error over tolerance", std::max(len(gu-du)/len(du), len(gv-dv)/len(dv))/rel);
            if(!(len(gu-du)<=rel*len(du)+rel*.02*len(dv)) || !(len(gv-dv)<=rel*len(dv)+rel*.02*len(du))) { vt::violation("tangents", "%spartial derivatives %s and %s, the placed parametrisation has %s and %s", what.c_str(), st(gu).c_str(), st(gv).c_str(), st(du).c_str(), st(dv).c_str()); return; } vt::count("tangents compared");
            { double cs = std::fabs(dot(n, unit(d(ray.direction)))), tol = us*(rel+1e-6*(len(d(ray.origin))+len(d(h.point_h)))/(sz*cs+1e-12)*20), a = h.uv.x-uv[0], b = h.uv.y-uv[1]; if(q.sphere) a -= std::round(a); if(tol<.1*us) { vt::count("texture coordinates compared"); vt::maxi("texture coordinate error over tolerance", std::max(std::fabs(a), std::fabs(b))/tol); if(!(std::fabs(a)<=tol && std::fabs(b)<=tol)) { vt::violation("coordinates", "%stexture coordinates %.6g %.6g, the parametrisation has %.6g %.6g there (tolerance %.2g)", what.c_str(), h.uv.x, h.uv.y, uv[0], uv[1], tol); return; } } }
            double sm = smin(du, dv), sx = std::max(len(du), len(dv)); if(sm<.03*sx) { vt::count("nearly parallel tangents, skipped"); continue; }
            D3 pl = d(h.point_h); double want[2][2], tol[2]; bool skip = false; for(int c = 0; c<2; c++) { const Ray& e = c?ry:rx; D3 o = d(e.origin), di = unit(d(e.direction)); double cs = dot(n, di); if(std::fabs(cs)<.08) { skip = true; break; } double tt = dot(n, pl-o)/cs; D3 v = o+di*tt-pl; double A = dot(du, du), B = dot(dv, dv), C = dot(du, dv), D = A*B-C*C, x = dot(v, du), y = dot(v, dv); want[c][0] = (x*B-y*C)/D; want[c][1] = (y*A-x*C)/D; double ep = 3e-7*(len(o)+len(pl)+2*std::fabs(tt)); tol[c] = .01*std::hypot(want[c][0], want[c][1])*(1+rel*100)+4*ep/std::fabs(cs)/sm+1e-7; }
            if(skip) { vt::count("grazing rays, skipped"); continue; }
            double size = std::max(std::hypot(want[0][0], want[0][1]), std::hypot(want[1][0], want[1][1])); if(!g.differentials) { vt::violation("no-footprint", "%sno footprint computed, the pixel covers %g in texture coordinates (tangents %s %s)", what.c_str(), size, st(du).c_str(), st(dv).c_str()); return; }
            if(std::max(tol[0], tol[1])>.3*size) { vt::count("imprecise footprints, skipped"); continue; }
            vt::count("footprints compared"); double e0 = std::hypot(g.du.x-want[0][0], g.dv.x-want[0][1]), e1 = std::hypot(g.du.y-want[1][0], g.dv.y-want[1][1]); vt::maxi("footprint error over tolerance", std::max(e0/tol[0], e1/tol[1]));
            if(!(e0<=tol[0]) || !(e1<=tol[1])) { vt::violation("footprint", "%sdudx %g dvdx %g dudy %g dvdy %g, the neighbouring pixels are at %g %g and %g %g", what.c_str(), g.du.x, g.dv.x, g.du.y, g.dv.y, want[0][0], want[0][1], want[1][0], want[1][1]); return; }
        }
    });
    SH = vt::shared<Shared>(1);
    vt::cases("renders", vt::n(48, 900), [](Rng& r, long i) {
        SH->bad = 0; SH->rays = SH->hits = SH->withdiff = 0; uint64_t seed = r.next(); int nt = r.irange(1, 8); vt::eval(seed);
        vt::Outcome o = vt::forked([&]() {
            Rng q(seed); Scene* s = new Scene; std::vector<const Shape*> sh; sh.push_back(own(s, new Sphere)); for(int k = 0; k<3; k++) { Mesh* m = quad(k); sh.push_back(own(s, m)); } sh.push_back(own(s, make_mesh(rand_tris(q, q.irange(1, 20), SOUP))));
            std::vector<uint32_t> px; int n = q.irange(2, 30);
            for(int k = 0; k<n; k++)
            {
                double z = q.logrange(.2, 2); Asset* a = new Asset(q.pick(sh), fm(trs(rand_in(q, -3, 3), q.range(-3, 3), q.range(-3, 3), 0, D3(z, z, z))), 1);
                if(q.chance(.85)) { int S = 1 << q.irange(3, 6); px.assign(S*S, 0); for(auto& v : px) v = q.chance(.5)?0xFFFFFFFF:0; ImageMap* im = q.chance(.5)?(ImageMap*)new ImageMapTrilinear(px.data(), (uint16_t)S):(ImageMap*)new ImageMapEWA(px.data(), (uint16_t)S); Vec2 sf(0, 0), sc(q.rangef(.5, 4), q.rangef(.5, 4)); a->set_mask(MaskBoolean(new TextureImage(im, sf, sc, false), ALPHA, q.chance(.5))); }
                s->inherit_asset(a);
            }
            s->k.buildTree(); SC = s; int w = 32*q.irange(1, 3), h = q.irange(10, 80); Point3 P = pt(rand_dir(q)*9), T(0, 0, 0); Vec3 U(.3f, .9f, .2f); string out = vt::S().scratch+"/o.ppm";
            Renderer* rd = new Renderer(w, h, q.irange(1, 2), out.c_str(), nt); if(q.chance(.7)) rd->inherit_camera(new RecCam<CameraPerspective>(&P, &T, &U, w, h, .8f)); else rd->inherit_camera(new RecCam<CameraOrthographic>(&P, &T, &U, w, h)); rd->inherit_filter(new FilterTent); rd->inherit_integrator(new Integ); rd->set_sampler(SPECTRE_SAMPLER_RANDOM); rd->render(s); fflush(NULL); _exit(0); return 0;
        }, 120);
        if(o.timeout) { vt::violation("render-hangs", "a render of the scene did not end"); return; } if(o.sanitizer() || !o.exited || o.code) { vt::violation("render-crash", "%s", o.what().c_str()); return; }
        vt::count("samples traced", SH->rays); vt::count("hits shaded", SH->hits); vt::count("of them with a footprint", SH->withdiff); if(SH->bad) vt::violation("history", "%d threads: %s", nt, SH->msg);
    });
    return vt::finish();
}
