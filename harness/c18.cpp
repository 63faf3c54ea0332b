// C18: path traced radiance against an independent brute force solution of light transport.
#include "mats.hpp"
#include "utility/scene.hpp"
#include "utility/occlusion_tester.hpp"
#include "lights/area_light.hpp"
#include "integrators/path_tracer.hpp"
#include "samplers/sampler_random.hpp"
#include "primitives/sphere.hpp"
#include "primitives/mesh.hpp"
#include <map>
using namespace mats;
static const int LAST = 5; // vertices 0..5 of a path scatter (settings.h: DEFAULT_BOUNCES)
struct Light { D3 c, u, v, n; double area; Sp le; };                       // a quad c+au+bv, a, b in [-1,1]
struct Obj { int mat; int light; };
struct W
{
    Scene* s = new Scene; std::vector<std::unique_ptr<Mat>> mats; std::map<unsigned, Obj> objs; std::vector<Light> lights; std::string what; bool stat = true;
    ~W() { delete s; }
    int put(const Shape* sh, const DM& m, int mat, const Light* l, const Spectrum& le)
    {
        s->inherit_shape(sh); Asset* a; if(l) { AreaLight* al = new AreaLight(sh, fm(m), le); a = al; } else a = new Asset(sh, fm(m), 1);
        std::vector<unsigned char> ix(sh->get_faces_number(), 0); const Bsdf* b = mats[mat]->b.get(); a->set_materials(&b, 1, ix.data());
        Obj o; o.mat = mat; o.light = -1; if(l) { o.light = (int)lights.size(); lights.push_back(*l); lights.back().le = sp(le); } objs[a->get_id()] = o;
        if(l) s->inherit_light((AreaLight*)a); else s->inherit_asset(a); return (int)a->get_id();
    }
};
static Mesh* quad_at(D3 c, D3 u, D3 v) { return make_mesh({tri(c-u-v, c+u-v, c-u+v), tri(c+u-v, c+u+v, c-u+v)}); }
static std::unique_ptr<Mat> pick(Rng& r, bool solid, bool stat)
{
    for(;;)
    {
        int k = r.irange(0, MKINDS-1); if(r.chance(.5)) k = r.chance(.7)?MATTE_L:MATTE_O; if(!solid && stat && (k == METAL_S || k == METAL_R || k == GLASS_S || k == MIXED)) continue; if(stat && k == GLASS_R) continue;
        std::unique_ptr<Mat> m(new Mat(rand_mat(r, stat?.1:.01, k, true))); bool ok = true; if(stat) for(auto& x : m->l) if(x.k != LAMB && x.k != OREN && !x.spec() && x.d_.k != GGX) ok = false;
        if(ok) return m;
    }
}
static Spectrum light_colour(Rng& r) { Spectrum s = SPECTRUM_BLACK; bool white = r.chance(.4); float p = r.rangef(1, 20); for(int a = 0; a<NW; a++) s.w[a] = p*(white?1:r.rangef(.2f, 1)); return s; }
static Spectrum one(double c) { Spectrum s = SPECTRUM_BLACK; for(int a = 0; a<NW; a++) s.w[a] = (float)c; return s; }
static int matte(W& w, double albedo) { std::unique_ptr<Mat> m(new Mat); TextureUniform* t = new TextureUniform(one(albedo)); m->tex.emplace_back(t); Lobe l; l.k = LAMB; l.tex = t; l.col = Sp(NW, (double)(float)albedo); SingleBRDF* b = new SingleBRDF(new Lambertian, t); b->inherit_bump(new Bump); m->b.reset(b); m->l.push_back(l); m->name = "matte"; w.mats.push_back(std::move(m)); return (int)w.mats.size()-1; }
// a room with a few objects; lights away from everything they shine on
static void build(W& w, Rng& r, bool stat, int nlights)
{
    w.stat = stat; auto M = [&](bool solid) { w.mats.push_back(pick(r, solid, stat)); w.what += " "+w.mats.back()->name; return (int)w.mats.size()-1; }; Spectrum no = SPECTRUM_BLACK; DM I = trs(D3(0, 0, 0), 0, 0, 0, D3(1, 1, 1));
    int room = r.irange(0, 3); D3 X(1, 0, 0), Y(0, 1, 0), Z(0, 0, 1); auto wall = [&](D3 c, D3 u, D3 v) { int m = r.chance(.6)?matte(w, r.range(.1, .9)):M(false); if(r.chance(.3)) std::swap(u, v); w.put(quad_at(c, u, v), I, m, NULL, no); };
    wall(D3(0, -10, 0), X*12, Z*12); if(room>0) { wall(D3(0, 0, 12), X*12, Y*11); wall(D3(-12, 0, 0), Y*11, Z*12); } if(room>1) { wall(D3(12, 0, 0), Y*11, Z*12); wall(D3(0, 10.5, 0), X*12, Z*12); } if(room>2) wall(D3(0, 0, -12), X*12, Y*11);
    int n = r.irange(1, 5); std::vector<std::pair<D3, double>> pl; for(int k = 0; k<n*4 && (int)pl.size()<n; k++) { double R = r.range(1, 3.2); D3 c(r.range(-7, 7), r.range(-6, 2), r.range(-7, 7)); bool free_ = true; for(auto& p : pl) if(len(p.first-c)<p.second+R+.5) free_ = false; if(!free_) continue; pl.push_back({c, R}); if(r.chance(.65)) w.put(new Sphere, trs(c, r.range(-3, 3), r.range(-3, 3), 0, D3(R, R, R)), M(true), NULL, no); else { D3 a = unit(rand_dir(r, false)), b = unit(cross(a, D3(.3, .5, .81))); w.put(quad_at(c, a*(R*.7), b*(R*.7)), I, M(false), NULL, no); } }
    for(int k = 0; k<nlights; k++)
    {
        Light l; double a = r.range(1.2, 4.5), b = r.range(1.2, 4.5); l.c = D3(r.range(-6, 6), 7+.3*k+r.range(0, .2), r.range(-6, 6)); double th = r.chance(.5)?0:r.range(-.4, .4); l.u = D3(std::cos(th), std::sin(th), 0)*a; l.v = D3(0, 0, 1)*b; if(r.chance(.15)) std::swap(l.u, l.v); /* shines up */ l.n = unit(cross(l.u, l.v)); if(l.n.y>0 && r.chance(.8)) { std::swap(l.u, l.v); l.n = l.n*-1; }
        l.area = 4*len(cross(l.u, l.v)); int m = r.chance(.5)?matte(w, 0):matte(w, r.range(0, .8)); w.put(quad_at(l.c, l.u, l.v), I, m, &l, light_colour(r));
    }
    w.s->k.buildTree();
}
static bool trace(const W& w, D3 p, D3 dir, HitPoint& h, Vec3* out = NULL) { Ray r(pt(p), vec(dir)); h = blank_hit(); h.differentials = false; if(out) *out = r.direction; return w.s->k.intersect(&r, &h); }
// one path, brute force: only matte components aim at the lights, the others find them by chance
static void ref_path(const W& w, Rng& r, HitPoint h, D3 wo, Sp& out)
{
    Sp thr(NW, 1.); bool emit = true;
    for(int depth = 0; ; depth++)
    {
        auto it = w.objs.find(h.asset_h->get_id()); if(it == w.objs.end()) { vt::violation("unknown-object", "id %u", h.asset_h->get_id()); return; } const Obj& ob = it->second; D3 n = unit(d(h.normal_h)), p = d(h.point_h);
        if(emit && ob.light>=0 && dot(wo, n)>0) for(int a = 0; a<NW; a++) out[a] += thr[a]*w.lights[ob.light].le[a];
        if(depth>LAST) return;
        const Mat& m = *w.mats[ob.mat]; double nl = m.l.size(); const Lobe& lb = m.l[r.next()%m.l.size()]; D3 s = unit(std::fabs(n.x)>.7?cross(n, D3(0, 1, 0)):cross(n, D3(1, 0, 0))), t = cross(n, s); auto L = [&](D3 v) { return D3(dot(v, s), dot(v, t), dot(v, n)); }; auto G = [&](D3 v) { return s*v.x+t*v.y+n*v.z; };
        D3 o = unit(L(wo)), i; if(std::fabs(o.z)<1e-7) return; int q = lb.quirks(); double e = o.z>0?lb.ei/lb.et:lb.et/lb.ei; emit = true;
        if(lb.spec())
        {
            if(depth == LAST) return; double c = std::fabs(o.z);
            if(lb.trans()) { double s2 = e*e*(1-c*c); if(s2>=1) return; i = D3(-o.x*e, -o.y*e, -std::copysign(std::sqrt(1-s2), o.z)); double f = (1-fr_diel(c, o.z>0?lb.ei:lb.et, o.z>0?lb.et:lb.ei))*e*e; for(int a = 0; a<NW; a++) thr[a] *= nl*f*lb.col[a]; }
            else { i = D3(-o.x, -o.y, o.z); for(int a = 0; a<NW; a++) thr[a] *= nl*lb.col[a]*(lb.k == SPEC_C?fr_cond(o.z, lb.n[a], lb.kk[a]):fr_diel(c, o.z>0?lb.ei:lb.et, o.z>0?lb.et:lb.ei)); }
        }
        else
        {
            bool mt = lb.k == LAMB || lb.k == OREN;
            if(mt && !w.lights.empty())
            {
                const Light& l = w.lights[r.next()%w.lights.size()]; D3 lp = l.c+l.u*r.range(-1, 1)+l.v*r.range(-1, 1), v = lp-p; double dist = len(v); v = v*(1/dist); double cl = -dot(v, l.n), x = 0; D3 iv = L(v); HitPoint lh;
                if(cl>0 && lb.value(o, iv, 0, q)>0 && trace(w, p, v, lh)) { auto li = w.objs.find(lh.asset_h->get_id()); if(li != w.objs.end() && li->second.light>=0 && &w.lights[li->second.light] == &l && std::fabs(len(d(lh.point_h)-p)-dist)<.05) x = nl*(double)w.lights.size()*std::fabs(iv.z)*cl*l.area/(dist*dist); }
                if(x>0) for(int a = 0; a<NW; a++) out[a] += thr[a]*x*lb.value(o, iv, a, q)*lb.col[a]*l.le[a];
            }
            if(mt) { if(depth == LAST) return; emit = false; }
            if(!lb.sample(r, o, i)) return; double pdf = lb.pdf(o, i, 0); if(!(pdf>0)) return; for(int a = 0; a<NW; a++) thr[a] *= nl*lb.value(o, i, a, q)*lb.col[a]*std::fabs(i.z)/pdf;
        }
        bool any = false; for(double x : thr) if(x>0) any = true; if(!any) return; D3 wi = G(i); Vec3 dir; if(!trace(w, p, wi, h, &dir)) return; wo = unit(d(dir))*-1;
    }
}
struct Acc { long n = 0; Sp m, q; Acc():m(NW, 0.), q(NW, 0.) {} void add(const Sp& x) { n++; for(int a = 0; a<NW; a++) { m[a] += x[a]; q[a] += x[a]*x[a]; } } double mean(int a) const { return m[a]/n; } double var(int a) const { return std::max(0., q[a]/n-mean(a)*mean(a))/n; } };
struct Real
{
    const W& w; PathTracer pt_; OcclusionTester ot; std::unique_ptr<SamplerRandom> sam;
    Real(const W& w, Rng& r):w(w), ot(w.s) { unsigned seed[WELL_R]; for(unsigned& x : seed) x = (unsigned)r.next(); sam.reset(new SamplerRandom(0, 1, 0, 1, 1, seed)); }
    // one sample; false: not a radiance
    bool sample(const HitPoint& h, const Ray& ray, Sp& out) { Spectrum s = ((const LightIntegrator&)pt_).radiance(w.s, &h, &ray, sam.get(), &ot); bool ok = true; for(int a = 0; a<NW; a++) { out[a] = s.w[a]; if(!(std::isfinite(s.w[a]) && s.w[a]>=0)) ok = false; } return ok; }
};
static bool first_hit(const W& w, Rng& r, Ray& ray, HitPoint& h)
{
    for(int k = 0; k<30; k++) { D3 o(r.range(-8, 8), r.range(-6, 5.5), r.range(-9, 9)), dir = unit(rand_dir(r, false)); if(!w.lights.empty() && r.chance(.1)) dir = unit(w.lights[r.next()%w.lights.size()].c-o); bool inside = false; for(double x : {1., -1.}) for(int ax = 0; ax<3; ax++) { D3 t; t.at(ax) = x; HitPoint g; if(trace(w, o, t, g) && dot(d(g.normal_h), t)>0) inside = true; } if(inside && k<25 && w.stat) continue; ray = Ray(pt(o), vec(dir)); h = blank_hit(); h.differentials = false; if(w.s->k.intersect(&ray, &h)) return true; }
    return false;
}
int main(int argc, char** argv)
{
    vt::init(argc, argv, "rooms open or closed with spheres and quads of every material kind and 1 to 4 quad lights, camera rays from random places; mean radiance of the path tracer and of an independent brute force path tracer with its own scattering laws and light sampling, cut at the same path length; closed-form scenes exactly; counted by scene and camera ray");
    vt::cases("transport", vt::n(96, 800), [](Rng& r, long idx) {
        W w; build(w, r, true, r.irange(1, 4)); Real real(w, r);
        for(int k = 0; k<3; k++)
        {
            Ray ray; HitPoint h; if(!first_hit(w, r, ray, h)) continue; D3 wo = unit(d(ray.direction))*-1; vt::eval(vt::hash_bytes(&ray.direction, sizeof(Vec3), idx)); long n = vt::n(12000, 40000); std::string bad;
            for(int round = 0; round<2; round++)
            {
                Acc A, B; Sp x(NW); bool fin = true; for(long c = 0; c<n; c++) { if(!real.sample(h, ray, x)) { vt::violation("bad-radiance", "radiance %g %g %g; materials%s", x[0], x[1], x[2], w.what.c_str()); fin = false; break; } A.add(x); } if(!fin) break; for(long c = 0; c<n; c++) { Sp y(NW, 0.); ref_path(w, r, h, wo, y); B.add(y); }
                bad.clear(); vt::count("path tracer samples", n); vt::count("reference paths", n);
                for(int a = 0; a<NW; a += NW>3?5:1) { double ma = A.mean(a), mb = B.mean(a), s = std::sqrt(A.var(a)+B.var(a)); if(round == 0 && mb>0) { vt::maxi("largest relative standard error", s/std::max(mb, 1e-9)); if(s<.02*mb) vt::count("means known to 2%"); } if(std::fabs(ma-mb)>6*s+.012*std::max(ma, mb)) bad = vt::fmt("radiance %.6g, reference %.6g (standard error %.2g, band %d), seen object %s, %d lights, materials%s", ma, mb, s, a, w.mats[w.objs[h.asset_h->get_id()].mat]->name.c_str(), (int)w.lights.size(), w.what.c_str()); }
                if(bad.empty()) break; n *= 8; vt::count("means measured again");
            }
            vt::count("camera rays compared"); if(w.objs[h.asset_h->get_id()].light>=0) vt::count("camera rays to a light"); if(!bad.empty()) vt::violation("wrong-radiance", "%s", bad.c_str());
        } });
    // whatever the materials, radiance stays finite and non negative; without lights it is exactly zero
    vt::cases("range", vt::n(160, 1600), [](Rng& r, long idx) {
        bool dark = r.chance(.25); W w; build(w, r, false, dark?0:r.irange(1, 6)); Real real(w, r); Sp x(NW);
        for(int k = 0; k<40; k++) { Ray ray; HitPoint h; if(!first_hit(w, r, ray, h)) continue; vt::eval(vt::hash_bytes(&ray.direction, sizeof(Vec3), idx)); vt::count(dark?"rays in unlit scenes":"rays in lit scenes"); for(int c = 0; c<25; c++) { if(!real.sample(h, ray, x)) { vt::violation("bad-radiance", "radiance %g %g %g; materials%s", x[0], x[1], x[2], w.what.c_str()); break; } if(dark) for(double v : x) if(v != 0) { vt::violation("light-from-nowhere", "radiance %g in an unlit scene; materials%s", v, w.what.c_str()); break; } } } });
    // closed forms
    vt::cases("closed form", vt::n(160, 1200), [](Rng& r, long idx) {
        W w; int kind = r.irange(0, 3); Spectrum le = light_colour(r), no = SPECTRUM_BLACK; DM I = trs(D3(0, 0, 0), 0, 0, 0, D3(1, 1, 1)); double alb = kind == 0?0:r.range(.05, .95); Light l; l.c = D3(0, 0, 0); vt::eval(idx); long n = vt::n(6000, 40000); Sp x(NW);
        if(kind <= 1)
        {
            // 0: a black emitter shows its emission from its front and nothing from behind; 1: a matte emitter alone, likewise, since nothing comes back
            l.u = unit(rand_dir(r, false))*r.range(.5, 4); l.v = cross(l.u, unit(rand_dir(r, false))); if(len(l.v)<.3) return; l.n = unit(cross(l.u, l.v)); l.area = 4*len(cross(l.u, l.v)); int nl = r.irange(1, 4); for(int k = 0; k<nl; k++) { Light q = l; q.c = l.n*(-30.*k); w.put(quad_at(q.c, q.u, q.v), I, matte(w, alb), &q, le); } w.s->k.buildTree(); Real real(w, r); vt::count("lone emitters");
            for(int k = 0; k<50; k++) { bool front = r.chance(.7); D3 tgt = l.u*r.range(-.95, .95)+l.v*r.range(-.95, .95), o = tgt+unit(unit(rand_dir(r, false))+l.n*1.05)*r.range(2, 20); if(dot(o, l.n)<.3) continue; if(!front) o = o-l.n*(2*dot(o, l.n)); Ray ray(pt(o), vec(unit(tgt-o))); HitPoint h = blank_hit(); h.differentials = false; if(!w.s->k.intersect(&ray, &h) || std::fabs(dot(d(h.point_h), l.n))>.1) continue; if(!front && nl>1) continue; if(!real.sample(h, ray, x)) { vt::violation("bad-radiance", "%g", x[0]); break; } vt::count("emitter seen"); for(int a = 0; a<NW; a++) { double want = front?le.w[a]:0; if(std::fabs(x[a]-want)>1e-5*le.w[a]) { vt::violation("wrong-emission", "radiance %.7g, emission %.7g, %s of %d emitters", x[a], want, front?"front":"back", nl); break; } } }
            return;
        }
        if(kind == 2)
        {
            // matte floor under a parallel square light, on the axis: irradiance = pi*Le*F with the exact form factor of a rectangle
            double h = r.range(2, 12), a = r.range(.5, 8), b = r.range(.5, 8); l.c = D3(0, h, 0); l.u = D3(a, 0, 0); l.v = D3(0, 0, b); l.n = D3(0, -1, 0); l.area = 4*a*b; w.put(quad_at(l.c, l.u, l.v), I, matte(w, 0), &l, le); w.put(quad_at(D3(0, 0, 0), D3(40, 0, 0), D3(0, 0, 40)), I, matte(w, alb), NULL, no); w.s->k.buildTree();
            double X = a/h, Y = b/h, F = 4/(2*PI)*(X/std::sqrt(1+X*X)*std::atan(Y/std::sqrt(1+X*X))+Y/std::sqrt(1+Y*Y)*std::atan(X/std::sqrt(1+Y*Y))); Real real(w, r); D3 o = unit(D3(r.range(1, 2), r.range(.2, 1), 0))*r.range(5, 20); if(h-o.y<.5 && o.x<a+1) o = D3(30, h*.5, 0); Ray ray(pt(o), vec(unit(o*-1))); HitPoint hp = blank_hit(); hp.differentials = false; if(!w.s->k.intersect(&ray, &hp) || len(d(hp.point_h))>.01) { vt::count("floor not seen"); return; } Acc A; for(long c = 0; c<n; c++) { real.sample(hp, ray, x); A.add(x); }
            vt::count("lit floors"); for(int q = 0; q<NW; q++) { double want = alb*le.w[q]*F; if(std::fabs(A.mean(q)-want)>6*std::sqrt(A.var(q))+.006*want) { vt::violation("wrong-irradiance", "floor albedo %g under a %g x %g light at %g: radiance %.6g, closed form %.6g (standard error %.2g)", alb, 2*a, 2*b, h, A.mean(q), want, std::sqrt(A.var(q))); break; } } return;
        }
        // furnace: six emitting matte walls facing inwards; radiance = Le (1+rho+...+rho^6), the longest path has 6 scattering vertices
        double S = r.range(5, 15); for(int ax = 0; ax<3; ax++) for(int sd = -1; sd<=1; sd += 2) { D3 c, u, v; c.at(ax) = sd*S; u.at((ax+1)%3) = S; v.at((ax+2)%3) = S; Light q; q.c = c; q.u = u; q.v = v; if(sd>0) std::swap(q.u, q.v); q.n = unit(cross(q.u, q.v)); q.area = 4*S*S; w.put(quad_at(q.c, q.u, q.v), I, matte(w, alb), &q, le); } w.s->k.buildTree(); Real real(w, r); Ray ray; HitPoint hp; auto corner = [&]() { D3 p = d(hp.point_h); int c = 0; for(int ax = 0; ax<3; ax++) c += std::fabs(p[ax])>S-.4; return c>1; };
        do { ray = Ray(pt(rand_in(r, -S*.8, S*.8)), vec(unit(rand_dir(r, false)))); hp = blank_hit(); hp.differentials = false; if(!w.s->k.intersect(&ray, &hp)) { vt::violation("furnace-leak", "a ray left a closed room"); return; } } while(corner()); // next to an edge the self intersection distance hides the other wall
        Acc A; for(long c = 0; c<n; c++) { real.sample(hp, ray, x); A.add(x); }
        double want = 0, t = 1; for(int k = 0; k<=LAST+1; k++) { want += t; t *= (double)(float)alb; } vt::count("furnaces"); for(int q = 0; q<NW; q++) if(std::fabs(A.mean(q)-want*le.w[q])>6*std::sqrt(A.var(q))+.01*want*le.w[q]) { vt::violation("wrong-furnace", "room of half side %g seen at %.5g %.5g %.5g, albedo %g emitting %g: radiance %.6g, closed form %.6g (standard error %.2g)", S, hp.point_h.x, hp.point_h.y, hp.point_h.z, alb, le.w[q], A.mean(q), want*le.w[q], std::sqrt(A.var(q))); break; } });
    return vt::finish();
}
