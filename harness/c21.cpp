// C21: masks and dual materials against a model which knows the surfaces and asks the mask at each crossing.
#include "scenes.hpp"
#include "mats.hpp"
#include "textures/mask_boolean.hpp"
#include "textures/image_map.hpp"
#include "materials/dual.hpp"
#include "textures/texture_normal.hpp"
#include <memory>
#include "utility/occlusion_tester.hpp"
using namespace gen; using mats::Mat; using mats::Frame; using mats::rand_mat; using mats::MKINDS; using mats::PI;
static std::vector<uint32_t> pixels(Rng& r, int s, int kind)
{
    std::vector<uint32_t> p(s*s); for(int i = 0; i<s*s; i++) { uint32_t v = 0; for(int c = 0; c<4; c++) { int b; switch(kind) { case 0: b = r.chance(.5)?255:0; break; case 1: b = r.chance(.5)?128:127; break; case 2: b = r.irange(0, 255); break; default: b = ((i%s*4/std::max(1, s))+(i/s*4/std::max(1, s)))&1?255:0; } v = v << 8|(uint32_t)b; } p[i] = v; }
    return p;
}
struct Img { std::unique_ptr<ImageMap> m; std::unique_ptr<TextureImage> t; int s, f; std::vector<uint32_t> px; };
static Img* image(Rng& r, bool plain = false)
{
    Img* g = new Img; g->s = 1 << r.irange(plain?1:0, 4); g->f = plain?0:r.irange(0, 2); g->px = pixels(r, g->s, r.irange(0, 3));
    if(g->f == 0) g->m.reset(new ImageMapUnfiltered(g->px.data(), (uint16_t)g->s)); else if(g->f == 1) g->m.reset(new ImageMapTrilinear(g->px.data(), (uint16_t)g->s)); else g->m.reset(new ImageMapEWA(g->px.data(), (uint16_t)g->s));
    Vec2 sh(r.chance(.6)?0.f:(float)r.range(-2, 2), r.chance(.6)?0.f:(float)r.range(-2, 2)), sc(r.chance(.6)?1.f:(float)r.range(-3, 3), r.chance(.6)?1.f:(float)r.range(-3, 3));
    g->t.reset(new TextureImage(g->m.get(), sh, sc, g->f == 0)); return g;
}
static const ImageChannel CH[] = {ALPHA, RED, GREEN, BLUE};
static double channel(uint32_t v, ImageChannel c) { return c == ALPHA?v&255:c == RED?(v >> 8)&255:c == GREEN?(v >> 16)&255:v >> 24; }
// the mask as specified: visible where the channel reaches the threshold, complemented when inverted
struct Cut { const TextureImage* t; ImageChannel c; bool inv; Cut():t(NULL), c(ALPHA), inv(false) {} MaskBoolean mask() const { return t?MaskBoolean(t, c, inv):MaskBoolean(); }
    bool at(const HitPoint& q) const { if(!t) return true; return (channel(t->map_value(&q).bgra_value, c)>=128) != inv; }
    // 1 visible, 0 cut, -1 too close to an edge to say
    int around(double u, double v, double eu, double ev, const HitPoint& like) const
    {
        if(!t) return 1; int n = 0; HitPoint q = like; for(int i = -1; i<=1; i++) for(int j = -1; j<=1; j++) { q.uv = Point2((float)(u+i*eu), (float)(v+j*ev)); n += at(q); } return n == 0?0:n == 9?1:-1;
    } };
static Cut rand_cut(Rng& r, const std::vector<Img*>& im, double none) { Cut c; if(r.chance(none)) return c; c.t = r.pick(im)->t.get(); c.c = CH[r.irange(0, 3)]; c.inv = r.chance(.5); return c; }
struct Cross { double t; D3 p, n; double u, v, eu, ev, et = 0; };        // one crossing of the ray with a surface, local space
struct Obj { int kind; std::vector<Tri> T; DM m, inv; Cut cut; Asset* a; };     // 0 sphere, 1 triangles
static double UEPS = 1;
// crossings of a local ray with one object, sorted; false when the arithmetic decides
static bool crossings(const Obj& o, D3 ro, D3 rd, std::vector<Cross>& out)
{
    double L = len(rd);
    if(o.kind == 0)
    {
        double a = dot(rd, rd), b = dot(ro, rd), c = dot(ro, ro)-1, D = b*b-a*c; double off2 = dot(ro, ro)-b*b/a; if(std::fabs(1-off2)<1e-3*(1+dot(ro, ro)*1e-3)) return false; if(D<=0) return true;
        for(int k = 0; k<2; k++) { Cross x; x.t = (-b+(k?1:-1)*std::sqrt(D))/a; x.p = ro+rd*x.t; x.p = unit(x.p); x.n = x.p; double ci = std::fabs(dot(x.p, rd))/L, st = std::hypot(x.p.x, x.p.y), ep = UEPS*1e-6*(1+len(ro))*(1+len(ro))/ci; double ph = std::atan2(x.p.y, x.p.x); if(ph<0) ph += 2*PI; x.u = ph/(2*PI); x.v = 1-std::acos(x.p.z)/PI; x.eu = ep/std::max(st, 1e-6); x.ev = ep/std::max(st, 1e-3); if(st<.02 || x.eu>.02 || x.u<x.eu || x.u>1-x.eu) x.eu = 9; out.push_back(x); }
        return true;
    }
    for(auto& T : o.T) { TriHit h = tri_hit(ro, rd, T); if(h.margin<2) { if(h.margin == 0) return false; D3 n = tri_n(T); double pd = std::fabs(dot(ro-d(T.v[0].p), n)); (void)pd; return false; } if(!h.hit) continue; Cross x; x.t = h.t; x.p = ro+rd*h.t; x.n = unit(tri_n(T)); D3 e1 = d(T.v[1].p)-d(T.v[0].p), e2 = d(T.v[2].p)-d(T.v[0].p); double det = std::fabs(dot(cross(rd, e2), e1)), err = UEPS*3e-6*(len(ro-d(T.v[0].p))*L*std::max(len(e1), len(e2))/det+1); double w = 1-h.u-h.v; x.u = w*T.v[0].t.x+h.u*T.v[1].t.x+h.v*T.v[2].t.x; x.v = w*T.v[0].t.y+h.u*T.v[1].t.y+h.v*T.v[2].t.y; x.et = 5e-6*(len(ro)+1+len(d(T.v[0].p)))/(std::fabs(dot(x.n, rd))); double mx = 0; for(auto& q : T.v) mx = std::max(mx, (double)std::max(std::fabs(q.t.x), std::fabs(q.t.y))); x.eu = x.ev = 3*err*mx+1e-6; if(x.eu>.02) x.eu = 9; out.push_back(x); }
    return true;
}
// nearest visible crossing within the limit. 0 none, 1 found, -1 undecided
static int nearest(const Obj& o, const Ray& w, double limit, const HitPoint& like, Cross& best)
{
    D3 ro = o.inv.p(d(w.origin)), rd = o.inv.v(d(w.direction)); std::vector<Cross> c; if(!crossings(o, ro, rd, c)) return -1; std::sort(c.begin(), c.end(), [](const Cross& a, const Cross& b) { return a.t<b.t; });
    double et = 3e-5*(len(ro)+1)/len(rd)+1e-5;
    for(auto& x : c)
    {
        et = std::max(et, x.et); if(x.t<1e-2-et) continue; if(x.t>limit+et) return 0; if(x.t<1e-2+et || std::fabs(x.t-limit)<et) return -1; if(o.cut.t && x.eu>1) return -1;
        int v = o.cut.around(x.u, x.v, x.eu, x.ev, like); vt::count(v == 0?"cut crossings passed through":v == 1?"visible crossings":"crossings too close to an edge of the mask"); if(v<0) return -1; if(v) { best = x; return 1; }
    }
    return 0;
}
static std::vector<Tri> sheet(Rng& r)       // a few textured triangles: crossed quads or a soup
{
    std::vector<Tri> T; int n = r.irange(1, 8); auto uv = [&](Vertex& v) { v.t = Point2((float)r.range(-2, 2), (float)r.range(-2, 2)); };
    for(int i = 0; i<n; i++) { if(r.chance(.5)) { double z = r.range(-1, 1); int ax = r.irange(0, 2); auto P = [&](double u, double v) { D3 q; q.at(ax) = z; q.at((ax+1)%3) = u; q.at((ax+2)%3) = v; return q; }; Tri a = tri(P(-1, -1), P(1, -1), P(-1, 1)), b = tri(P(1, -1), P(1, 1), P(-1, 1)); a.v[0].t = Point2(0, 0); a.v[1].t = b.v[0].t = Point2(1, 0); a.v[2].t = b.v[2].t = Point2(0, 1); b.v[1].t = Point2(1, 1); T.push_back(a); T.push_back(b); } else { Tri a = tri(rand_in(r, -1, 1), rand_in(r, -1, 1), rand_in(r, -1, 1)); for(auto& v : a.v) uv(v); if(len(tri_n(a))>.05) T.push_back(a); } }
    if(T.empty()) { Tri a = tri(D3(-1, -1, 0), D3(1, -1, 0), D3(0, 1, 0)); for(auto& v : a.v) uv(v); T.push_back(a); } return T;
}
static Obj* make_obj(Rng& r, const std::vector<Img*>& im, const DM& m, double none, std::vector<std::unique_ptr<Shape>>& sh)
{
    Obj* o = new Obj; o->kind = r.irange(0, 1); Shape* s; if(o->kind == 0) s = new Sphere; else { o->T = sheet(r); if(o->T.size() == 1 && r.chance(.5)) s = new Triangle(o->T[0].v[0], o->T[0].v[1], o->T[0].v[2]); else s = make_mesh(o->T); } sh.emplace_back(s);
    Matrix4 M = fm(m); o->m = dm(M); o->inv = o->m.inv(); o->cut = rand_cut(r, im, none); o->a = new Asset(s, M, 1); unsigned char* z = (unsigned char*)calloc(64, 1); const Bsdf* b = NULL; o->a->set_materials(&b, 1, z); free(z); if(o->cut.t || r.chance(.5)) o->a->set_mask(o->cut.mask()); return o;
}
static Ray ray_at(Rng& r, D3 c, double k) { D3 dir = rand_dir(r), tg = c+rand_in(r, -1, 1)*k, o = r.chance(.3)?c+rand_in(r, -1, 1)*k:tg-dir*r.logrange(.5, 8)*k; return Ray(pt(o), vec(dir)); }
static std::string desc(const Ray& w) { return vt::fmt("ray (%.9g %.9g %.9g) + t (%.9g %.9g %.9g)", w.origin.x, w.origin.y, w.origin.z, w.direction.x, w.direction.y, w.direction.z); }
int main(int argc, char** argv)
{
    vt::init(argc, argv, "random masks (two-level, at the threshold, noise; each channel and inversion; each texture filter with shifts and scales) on spheres, triangles and meshes under random placements, single rays with limits and scenes of up to 12 objects traced and shadow tested in random order, and dual materials of two random materials. Distinct states: rays decided by the model");
    vt::cases("mask values", vt::n(4000, 40000), [](Rng& r, long idx) {
        std::unique_ptr<Img> g(image(r, true)); for(int k = 0; k<40; k++) { ImageChannel c = CH[r.irange(0, 3)]; int x = r.irange(0, g->s-1), y = r.irange(0, g->s-1); HitPoint h = blank_hit(); Vec2 sc(1, 1), sh(0, 0); TextureImage t(g->m.get(), sh, sc, true); h.uv = Point2((x+.5f)/g->s, (y+.5f)/g->s); bool inv = r.chance(.5); MaskBoolean m(&t, c, inv), copy; copy = m; bool want = (channel(g->px[y*g->s+x], c)>=128) != inv; vt::eval(vt::hash_bytes(&g->px[y*g->s+x], 4, c*2+inv)); vt::count("mask values"); if(m.is_visible(&h) != want || m.is_masked(&h) == want || copy.is_visible(&h) != want) { vt::violation("mask-value", "texel %08x channel %d inverted %d: visible %d masked %d", g->px[y*g->s+x], (int)c, (int)inv, (int)m.is_visible(&h), (int)m.is_masked(&h)); return; } MaskBoolean none; if(!none.is_visible(&h) || none.is_masked(&h)) vt::violation("mask-value", "the empty mask hides a point"); } });
    vt::cases("objects", vt::n(12000, 120000), [](Rng& r, long idx) {
        std::vector<std::unique_ptr<Img>> keep; std::vector<Img*> im; for(int i = 0; i<2; i++) { im.push_back(image(r)); keep.emplace_back(im.back()); } std::vector<std::unique_ptr<Shape>> sh; DM m = rand_place(r, false, .2, 10, 10); std::unique_ptr<Obj> o(make_obj(r, im, m, .05, sh)); D3 c = o->m.p(D3(0, 0, 0)); double k = 0; for(int i = 0; i<3; i++) { D3 e; e.at(i) = 1; k = std::max(k, len(o->m.v(e))); }
        for(int q = 0; q<40; q++)
        {
            Ray w = ray_at(r, c, k); HitPoint h = blank_hit(); h.differentials = r.chance(.4); h.du = Vec2((float)r.range(-.3, .3), (float)r.range(-.3, .3)); h.dv = Vec2((float)r.range(-.3, .3), (float)r.range(-.3, .3)); HitPoint before = h; float lim = r.chance(.5)?FLT_MAX:(float)r.range(.02, 10)*(float)k, dist = lim; Cross x; int e = nearest(*o, w, lim, before, x); if(e<0) { vt::count("undecided rays"); continue; }
            bool got = o->a->intersect(&w, &dist, &h); vt::eval(vt::hash_bytes(&w, sizeof w, idx)); vt::count("rays on single objects"); std::string what = vt::fmt("%s, %s mask, limit %g", o->kind?"triangles":"sphere", o->cut.t?o->cut.inv?"inverted":"plain":"no", lim)+", "+desc(w);
            if(got != (e == 1)) { vt::violation("wrong-visibility", "%s: %s, expected %s (crossing at %g)", what.c_str(), got?"hit":"miss", e?"hit":"miss", e?x.t:0.0); break; }
            if(!got) { if(dist != lim || h.uv.x != before.uv.x || h.differentials != before.differentials) { vt::violation("miss-touches-record", "%s: a miss changed the distance or record", what.c_str()); break; } continue; }
            double et = std::max(1e-4*(x.t+1)*(1+len(o->inv.p(d(w.origin)))), x.et); D3 n = unit(o->inv.tv(x.n)), g = unit(d(h.normal_h)); bool nok = o->kind?true:dot(n, g)>.999;
            if(std::fabs(dist-x.t)>et) { vt::violation("wrong-crossing", "%s: distance %.9g, expected %.9g", what.c_str(), dist, x.t); break; }
            if(len(d(h.point_h)-(d(w.origin)+d(w.direction)*x.t))>et*2 || !nok) { vt::violation("wrong-record", "%s: point or normal is of another crossing (distance %.9g)", what.c_str(), dist); break; }
            if(o->cut.t && (std::fabs(h.uv.x-x.u)>x.eu*2+1e-4 || std::fabs(h.uv.y-x.v)>x.ev*2+1e-4)) { vt::violation("wrong-record", "%s: texture coordinates %.7g %.7g, expected %.7g %.7g", what.c_str(), h.uv.x, h.uv.y, x.u, x.v); break; }
        } });
    vt::cases("scenes", vt::n(4000, 40000), [](Rng& r, long idx) {
        std::vector<std::unique_ptr<Img>> keep; std::vector<Img*> im; for(int i = 0; i<3; i++) { im.push_back(image(r)); keep.emplace_back(im.back()); } std::vector<std::unique_ptr<Shape>> sh; std::vector<std::unique_ptr<Obj>> ob; int n = r.irange(1, 12); Scene s; for(int i = 0; i<n; i++) { ob.emplace_back(make_obj(r, im, rand_place(r, true, .5, 4, 5), .2, sh)); s.inherit_asset(ob.back()->a); } s.k.buildTree(); OcclusionTester oc(&s);
        for(int q = 0; q<60; q++)
        {
            Ray w = ray_at(r, r.pick(ob)->m.p(D3(0, 0, 0)), 4); w.ricochet = (unsigned char)r.irange(0, 4); int best = -1; double bt = 1e30; bool sure = true; HitPoint like = blank_hit(); Cross bx; for(int i = 0; i<n && sure; i++) { Cross x; int e = nearest(*ob[i], w, 1e30, like, x); if(e<0) sure = false; else if(e && x.t<bt) { if(best>=0 && bt-x.t<1e-3) sure = false; bt = x.t; best = i; bx = x; } else if(e && x.t-bt<1e-3) sure = false; } if(!sure) { vt::count("undecided rays"); continue; }
            vt::eval(vt::hash_bytes(&w, sizeof w, idx)); std::string what = vt::fmt("%d objects, ", n)+desc(w);
            if(r.chance(.5)) { HitPoint h = blank_hit(); bool got = s.k.intersect(&w, &h); vt::count("rays in scenes"); if(got != (best>=0)) { vt::violation("scene-visibility", "%s: %s, expected %s (at %g)", what.c_str(), got?"hit":"miss", best>=0?"hit":"miss", bt); break; } if(got && h.asset_h != ob[best]->a) { vt::violation("scene-visibility", "%s: another object than the visible one at %g", what.c_str(), bt); break; } if(got && len(d(h.point_h)-(d(w.origin)+d(w.direction)*bt))>1e-2) { vt::violation("scene-visibility", "%s: point not at the visible crossing %g", what.c_str(), bt); break; } }
            else { double D = best>=0 && r.chance(.7)?bt*r.range(.5, 1.5):r.range(.1, 30); if(best>=0 && std::fabs(D-bt)<5e-3+1e-3*bt) continue; bool want = best>=0 && bt<D, got = oc.is_occluded(&w, (float)D); vt::count("shadow rays"); if(want) vt::count("shadow rays blocked"); if(got != want) { vt::violation("shadow", "%s: occluded %d within %g, visible crossing at %g", what.c_str(), (int)got, D, best>=0?bt:-1.0); break; } }
        } });
    vt::cases("dual materials", vt::n(4000, 40000), [](Rng& r, long idx) {
        std::unique_ptr<Img> g(image(r)), nm(image(r)); std::vector<Img*> im = {g.get()}; Cut c = rand_cut(r, im, .02); Mat a = rand_mat(r, .1, r.irange(0, MKINDS-1), false), b = rand_mat(r, .1, r.irange(0, MKINDS-1), false); if(r.chance(.5)) (r.chance(.5)?a:b).b->inherit_bump(new TextureNormal(nm->t.get())); DualBsdf dual(a.b.get(), b.b.get(), c.mask());
        for(int k = 0; k<30; k++)
        {
            Frame f(r, true); f.h.uv = Point2((float)r.range(-2, 2), (float)r.range(-2, 2)); f.h.differentials = r.chance(.3); f.h.du = Vec2(.1f, 0); f.h.dv = Vec2(0, .2f); bool vis = c.at(f.h); const Bsdf* e = vis?a.b.get():b.b.get(); vt::count(vis?"dual points of the first material":"dual points of the second material"); vt::eval(vt::hash_bytes(&f.h.uv, 8, idx));
            ShadingSpace s1, s2; Normal n1(0, 0, 0), n2(0, 0, 0); memset((void*)&s1, 0, sizeof s1); memset((void*)&s2, 0, sizeof s2); dual.gen_shading_matrix(&f.h, &s1, &n1); e->gen_shading_matrix(&f.h, &s2, &n2); bool same = !memcmp(&s1, &s2, sizeof s1) && !memcmp(&n1, &n2, sizeof n1);
            Vec3 wo = vec(rand_dir(r)), wi = vec(rand_dir(r)); bool ms = r.chance(.5); Spectrum v1 = dual.value(&wo, &f.h, &wi, &s2, ms), v2 = e->value(&wo, &f.h, &wi, &s2, ms); float p1 = dual.pdf(&wo, &f.h, &s2, &wi, ms), p2 = e->pdf(&wo, &f.h, &s2, &wi, ms); same = same && !memcmp(&v1, &v2, sizeof v1) && !memcmp(&p1, &p2, 4);
            float r0 = r.uf(), r1 = r.uf(), r2 = r.uf(); Vec3 i1(0, 0, 0), i2(0, 0, 0); bool m1 = false, m2 = false; v1 = dual.sample_value(r0, r1, r2, &wo, &f.h, &s2, &i1, &p1, ms, &m1); v2 = e->sample_value(r0, r1, r2, &wo, &f.h, &s2, &i2, &p2, ms, &m2); same = same && !memcmp(&v1, &v2, sizeof v1) && !memcmp(&p1, &p2, 4) && !memcmp(&i1, &i2, sizeof i1) && m1 == m2;
            if(!same) { vt::violation("dual", "%s with %s at uv %.9g %.9g (%s): differs from the selected material", a.name.c_str(), b.name.c_str(), f.h.uv.x, f.h.uv.y, vis?"visible":"masked"); break; }
        } });
    vt::cases("boxes", vt::n(200, 1000), [](Rng& r, long idx) {      // nothing a box is hit by should change with what the record held before
        std::unique_ptr<Img> g(image(r, true)); Box bx; Matrix4 M; M.set_identity(); Asset a(&bx, M, 1); MaskBoolean m(g->t.get(), CH[r.irange(0, 3)], false); a.set_mask(m); Ray w(Point3(.5f, .5f, -2), Vec3(0, 0, 1)); bool first = false;
        for(int k = 0; k<10; k++) { HitPoint h = blank_hit(); h.uv = Point2(r.uf(), r.uf()); float dist = FLT_MAX; bool hit = a.intersect(&w, &dist, &h); vt::count("box rays"); vt::eval(vt::hash_bytes(&h.uv, 8, idx)); if(k == 0) first = hit; else if(hit != first) { vt::violation("box-stale-uv", "the same ray hits or misses the same masked box depending on the coordinates the hit record held before"); break; } } });
    return vt::finish();
}
