// Random scenes and rays shared by the scene-level monitors.
#ifndef SCENES_HPP
#define SCENES_HPP
#include "gen.hpp"
namespace gen
{
struct World
{
    Scene* s; std::vector<const Asset*> as; double scale; std::string kind;
};
inline const Shape* own(Scene* s, Shape* p) { s->inherit_shape(p); return p; }
// axis aligned quad made of two triangles
inline Mesh* quad(int ax)
{
    auto P = [&](double u, double v) { D3 q; q.at(ax) = 0; q.at((ax+1)%3) = u; q.at((ax+2)%3) = v; return q; };
    return make_mesh({tri(P(-1, -1), P(1, -1), P(-1, 1)), tri(P(1, -1), P(1, 1), P(-1, 1))});
}
inline void add(World& w, const Shape* sh, const DM& m)
{
    Asset* a = new Asset(sh, fm(m), 1); w.as.push_back(a); w.s->inherit_asset(a);
}
inline World make_world(Rng& r, int n, int kind)
{
    World w; w.s = new Scene; w.scale = 10;
    const Shape* sp = own(w.s, new Sphere); const Shape* bx = own(w.s, new Box); const Shape* q[3]; for(int i = 0; i<3; i++) q[i] = own(w.s, quad(i));
    const Shape* ms = own(w.s, make_mesh(rand_tris(r, r.irange(1, 60), r.irange(0, MESH_KINDS-1))));
    auto S = [&](D3 c, double k) { add(w, sp, trs(c, 0, 0, 0, D3(k, k, k))); };
    auto any = [&](D3 c, double k) {
        switch(r.irange(0, 4))
        {
            case 0: add(w, sp, trs(c, 0, 0, 0, D3(k, k, k))); break;
            case 1: add(w, bx, trs(c, r.chance(.5)?0:r.range(-3, 3), r.chance(.5)?0:r.range(-3, 3), 0, D3(k, k*r.logrange(.3, 3), k))); break;
            case 2: add(w, ms, trs(c, r.range(-3, 3), 0, r.range(-3, 3), D3(k, k, k)*.1)); break;
            case 3: { int a = r.irange(0, 2); add(w, q[a], trs(c, 0, 0, 0, D3(k, k, k))); break; }
            default: { int a = r.irange(0, 2); add(w, q[a], trs(c, r.range(-3, 3), r.range(-3, 3), 0, D3(k, k, k))); }
        } };
    switch(kind)
    {
        case 0: w.kind = "scattered"; for(int i = 0; i<n; i++) any(rand_in(r, -10, 10), r.logrange(.1, 2)); break;
        case 1: w.kind = "overlapping"; for(int i = 0; i<n; i++) any(rand_in(r, -3, 3), r.logrange(.5, 6)); break;
        case 2: w.kind = "nested spheres"; { D3 c = rand_in(r, -2, 2); for(int i = 0; i<n; i++) S(c, .1+i*.3*10/n*r.range(.9, 1.1)); } break;
        case 3: w.kind = "grid of flat quads"; for(int i = 0; i<n; i++) { int a = r.irange(0, 2); D3 c(rint(r.range(-5, 5)), rint(r.range(-5, 5)), rint(r.range(-5, 5))); add(w, q[a], trs(c, 0, 0, 0, D3(.5, .5, .5))); } break;
        case 4: w.kind = "parallel planes"; { int a = r.irange(0, 2); for(int i = 0; i<n; i++) { D3 c; c.at(a) = r.chance(.3)?rint(r.range(-9, 9)):r.range(-9, 9); add(w, q[a], trs(c, 0, 0, 0, D3(3, 3, 3))); } } break;
        case 5: w.kind = "coplanar tiles"; { int a = r.irange(0, 2); int side = std::max(1, (int)std::sqrt((double)n)); for(int i = 0; i<n; i++) { D3 c; c.at((a+1)%3) = i%side*2-side; c.at((a+2)%3) = i/side*2-side; add(w, q[a], trs(c, 0, 0, 0, D3(1, 1, 1))); } w.scale = side*2; } break;
        case 6: w.kind = "box grid sharing faces"; { int side = std::max(1, (int)std::cbrt((double)n)); for(int i = 0; i<n; i++) add(w, bx, trs(D3(i%side, i/side%side, i/side/side), 0, 0, 0, D3(1, 1, 1))); w.scale = side+1; } break;
        case 7: w.kind = "clusters far apart"; { D3 c[3]; for(D3& x : c) x = rand_in(r, -200, 200); for(int i = 0; i<n; i++) any(c[r.irange(0, 2)]+rand_in(r, -2, 2), r.logrange(.05, .8)); w.scale = 250; } break;
        case 8: w.kind = "copies at one place"; { D3 c = rand_in(r, -5, 5); DM m = trs(c, r.range(-3, 3), 0, 0, D3(1, 1, 1)); const Shape* k = r.chance(.5)?bx:ms; for(int i = 0; i<n; i++) if(r.chance(.7)) add(w, k, m); else any(rand_in(r, -5, 5), .7); } break;
        case 10: w.kind = "stack of thin layers"; { int a = r.irange(0, 2); double x = r.range(-.5, .5); for(int i = 0; i<n; i++) { D3 c = rand_in(r, -.1, .1); x += r.logrange(5e-5, 1e-2); c.at(a) = x; double k = r.range(.2, 1); DM m = r.chance(.5)?trs(c, 0, 0, 0, D3(k, k, k)):trs(c, r.range(-1e-3, 1e-3), r.range(-1e-3, 1e-3), 0, D3(k, k, k)); if(r.chance(.8)) add(w, q[a], m); else add(w, sp, trs(c, 0, 0, 0, D3(k, k, k)*.3)); } w.scale = .5; } break;
        default: w.kind = "row"; { int a = r.irange(0, 2); for(int i = 0; i<n; i++) { D3 c; c.at(a) = i*.5; if(r.chance(.5)) S(c, .25); else any(c, .25); } w.scale = n*.5+1; }
    }
    return w;
}
struct Res { const Asset* a; float t; HitPoint h; };
inline Res brute(const World& w, const Ray& ray)
{
    Res b; b.a = NULL; b.t = FLT_MAX; b.h = blank_hit();
    for(const Asset* a : w.as) if(a->intersect(&ray, &b.t, &b.h)) b.a = a;
    if(b.a) b.h.asset_h = b.a;
    return b;
}
inline Ray rand_ray(Rng& r, const World& w)
{
    D3 o, dir = rand_dir(r);
    int k = r.irange(0, 9);
    if(w.as.empty()) return Ray(pt(rand_in(r, -10, 10)), vec(dir));
    const AABB* bb = w.as[r.next()%w.as.size()]->get_AABB();
    auto inbox = [&](const AABB* b) { D3 l = d(b->bounds[0]), h = d(b->bounds[1]); return D3(r.range(l.x, h.x), r.range(l.y, h.y), r.range(l.z, h.z)); };
    D3 tg = inbox(bb);
    if(k<4) { o = tg-dir*r.logrange(.01, 3)*w.scale; }
    else if(k<6) { const AABB* b2 = w.as[r.next()%w.as.size()]->get_AABB(); o = inbox(b2); if(len(tg-o)>1e-3) dir = unit(tg-o); }
    else if(k<7) { o = rand_in(r, -2, 2)*w.scale; }
    else if(k<8) { o = D3(rint(tg.x), rint(tg.y), rint(tg.z)); if(r.chance(.5)) o = o-dir*rint(r.range(1, 10)); }
    else { int a = r.irange(0, 2); dir = D3(0, 0, 0); dir.at(a) = r.chance(.5)?1:-1; o = tg-dir*r.logrange(.01, 3)*w.scale; }
    return Ray(pt(o), vec(dir));
}
}
#endif
