// C11: bounding boxes enclose what they bound; box queries and box/ray tests are exact.
#include "gen.hpp"
using namespace gen;
static bool near1(double a, double b, double mag) { return a == b || std::fabs(a-b)<=2e-6*mag+1e-30; }
static void boxops(Rng& r)
{
    auto rp = [&]() { return r.chance(.2)?D3(r.irange(-2, 2), r.irange(-2, 2), r.irange(-2, 2)):rand_in(r, -50, 50); };
    AABB b; D3 lo(1e300, 1e300, 1e300), hi(-1e300, -1e300, -1e300);
    int n = r.irange(1, 6);
    for(int i = 0; i<n; i++)
    {
        Point3 p = pt(rp()); D3 P = d(p);
        AABB other = AABB(p); D3 P2 = P;
        int how = r.irange(0, 6);
        if(how>=4) { Point3 q = pt(rp()); P2 = d(q); other.engulf(q); }
        D3 olo(std::min(P.x, P2.x), std::min(P.y, P2.y), std::min(P.z, P2.z)), ohi(std::max(P.x, P2.x), std::max(P.y, P2.y), std::max(P.z, P2.z));
        switch(how)
        {
            case 0: b.engulf(p); break;
            case 1: b.engulf(&p); break;
            case 2: b += p; break;
            case 3: b = b+p; break;
            case 4: b.engulf(other); break;
            case 5: b.engulf(&other); break;
            default: if(r.chance(.5)) b += other; else b = b+other;
        }
        for(int k = 0; k<3; k++) { lo.at(k) = std::min(lo[k], olo[k]); hi.at(k) = std::max(hi[k], ohi[k]); }
        for(int k = 0; k<3; k++)
            if(b.bounds[0][k] != (float)lo[k] || b.bounds[1][k] != (float)hi[k])
            { vt::violation(vt::fmt("engulf-%d", how), "axis %d [%g %g] expected [%g %g]", k, b.bounds[0][k], b.bounds[1][k], lo[k], hi[k]); break; }
        if(!b.inside(&p)) vt::violation("inside-engulfed", "engulfed point not inside");
        if(!b.inside(&other.bounds[0]) || !b.inside(&other.bounds[1])) vt::violation("inside-engulfed", "engulfed box not inside");
    }
    D3 e = hi-lo;
    double S = 2*(e.x*e.y+e.x*e.z+e.y*e.z), V = e.x*e.y*e.z, m = 60*100;
    if(!near1(b.surface(), S, S+m*1e-1)) vt::violation("surface", "surface %g expected %g", b.surface(), S);
    if(!near1(b.volume(), V, V+m)) vt::violation("volume", "volume %g expected %g", b.volume(), V);
    Point3 c = b.center();
    for(int k = 0; k<3; k++) if(!near1(c[k], (lo[k]+hi[k])/2, 100)) vt::violation("center", "axis %d %g", k, c[k]);
    int la = b.longest_axis();
    if(la<0 || la>2 || e[la]<std::max(e.x, std::max(e.y, e.z))-1e-4) vt::violation("longest-axis", "axis %d of extents %g %g %g", la, e.x, e.y, e.z);
    for(int k = 0; k<4; k++)
    {
        Point3 q = pt(rp()); bool in = true; for(int a = 0; a<3; a++) in = in && q[a]>=lo[a] && q[a]<=hi[a];
        if(r.chance(.3)) { for(int a = 0; a<3; a++) q[a] = (float)(r.chance(.3)?lo[a]:r.chance(.5)?hi[a]:lo[a]+(hi[a]-lo[a])*r.u()); in = true; for(int a = 0; a<3; a++) in = in && q[a]>=(float)lo[a] && q[a]<=(float)hi[a]; }
        if(b.inside(&q) != in) vt::violation("inside", "inside=%d expected %d", !in, in);
    }
    AABB x = b; float ex = r.rangef(0, 3); x.expand(ex);
    for(int k = 0; k<3; k++) if(!near1(x.bounds[0][k], lo[k]-ex, 60) || !near1(x.bounds[1][k], hi[k]+ex, 60)) vt::violation("expand", "axis %d", k);
    AABB y(pt(rp())); y.engulf(pt(rp()));
    double sy = y.surface(), sb = b.surface();
    if((b<y) != (sb<sy) || (b>y) != (sb>sy) || (b<=y) != (sb<=sy) || (b>=y) != (sb>=sy) || (b == y) != (sb == sy) || (b != y) != (sb != sy))
        vt::violation("compare", "comparison by surface %g vs %g", sb, sy);
    AABB c2(pt(lo), pt(hi)); Point3 pl = pt(lo), ph = pt(hi); AABB c3(&pl, &ph);
    if(c2.bounds[0].x != b.bounds[0].x || c3.bounds[1].z != b.bounds[1].z) vt::violation("ctor", "constructor");
    vt::eval(vt::hash_bytes(&b, sizeof b));
}
static void boxray(Rng& r)
{
    D3 a = rand_in(r, -5, 5), e(r.logrange(.01, 10), r.logrange(.01, 10), r.logrange(.01, 10));
    if(r.chance(.15)) e.at(r.irange(0, 2)) = 0;           // flat box
    AABB b(pt(a), pt(a+e)); D3 lo = d(b.bounds[0]), hi = d(b.bounds[1]);
    D3 tg(lo.x+(hi.x-lo.x)*r.range(-.1, 1.1), lo.y+(hi.y-lo.y)*r.range(-.1, 1.1), lo.z+(hi.z-lo.z)*r.range(-.1, 1.1));
    D3 dir = rand_dir(r); if(r.chance(.3)) dir = dir*r.logrange(.01, 100);
    D3 o = r.chance(.2)?tg:tg-dir*r.range(-5, 20);
    Ray ray(pt(o), vec(dir)); o = d(ray.origin); dir = d(ray.direction);
    double t0 = -INFINITY, t1 = INFINITY, tol = 0; bool edge = false, miss = false;
    for(int k = 0; k<3; k++)
    {
        if(dir[k] == 0) { double s = 1e-5*(std::fabs(o[k])+std::fabs(lo[k])+std::fabs(hi[k])); if(std::fabs(o[k]-lo[k])<=s || std::fabs(o[k]-hi[k])<=s) edge = true; if(o[k]<lo[k] || o[k]>hi[k]) miss = true; continue; }
        double n = (lo[k]-o[k])/dir[k], f = (hi[k]-o[k])/dir[k]; if(n>f) std::swap(n, f);
        tol = std::max(tol, 2e-6*(std::fabs(o[k])+std::fabs(lo[k])+std::fabs(hi[k]))/std::fabs(dir[k]));
        t0 = std::max(t0, n); t1 = std::min(t1, f);
    }
    bool flat = hi.x == lo.x || hi.y == lo.y || hi.z == lo.z;
    if(!edge && !miss && std::fabs(t1-t0)<2*tol && !flat) edge = true;
    if(flat && !miss)   // a flat box is entered and left at the same instant: decided on the two other axes
    {
        double s0 = -INFINITY, s1 = INFINITY, f0 = 0; bool par = false;
        for(int k = 0; k<3; k++) { if(dir[k] == 0) { if(hi[k] == lo[k]) par = true; continue; } double n = (lo[k]-o[k])/dir[k], f = (hi[k]-o[k])/dir[k]; if(n>f) std::swap(n, f); if(hi[k] == lo[k]) f0 = n; else { s0 = std::max(s0, n); s1 = std::min(s1, f); } }
        if(par || std::fabs(f0-s0)<2*tol || std::fabs(f0-s1)<2*tol) edge = true;
    }
    bool want = !miss && t0<=t1;
    RayProperties rp(ray);
    for(int v = 0; v<2; v++)
    {
        float p1 = -777, p2 = -777;
        bool got = v?b.intersect(&ray, &rp, &p1, &p2):b.intersect(&ray, &p1, &p2);
        vt::count(got?"box-ray hits":"box-ray misses");
        if(edge) { vt::count("box-ray edges"); continue; }
        if(got != want) vt::violation(vt::fmt("ray-%d", v), "ray test says %d expected %d: box (%.9g %.9g %.9g)-(%.9g %.9g %.9g) o (%.9g %.9g %.9g) d (%.9g %.9g %.9g)", got, want, lo.x, lo.y, lo.z, hi.x, hi.y, hi.z, o.x, o.y, o.z, dir.x, dir.y, dir.z);
        else if(got && (!(std::fabs(p1-t0)<=tol+2e-6*std::fabs(t0)) || !(std::fabs(p2-t1)<=tol+2e-6*std::fabs(t1))))
            vt::violation(vt::fmt("ray-t-%d", v), "entry/exit %g %g expected %g %g", p1, p2, t0, t1);
        if(!got && (p1 != -777 || p2 != -777)) vt::count("outputs written on a miss");
    }
    vt::eval(vt::hash_bytes(&ray, 24), !edge);
}
static void contains(const char* what, const AABB& b, D3 p, double slack)
{
    for(int k = 0; k<3; k++)
        if(!(p[k]>=b.bounds[0][k]-slack && p[k]<=b.bounds[1][k]+slack))
        { vt::violation(std::string("enclose-")+what, "point (%.7g %.7g %.7g) outside [%.7g %.7g] on axis %d by more than %.3g", p.x, p.y, p.z, b.bounds[0][k], b.bounds[1][k], k, slack); return; }
}
static void tight(const char* what, const AABB& b, D3 lo, D3 hi, double slack)
{
    for(int k = 0; k<3; k++)
        if(!(b.bounds[0][k]>=lo[k]-slack) || !(b.bounds[1][k]<=hi[k]+slack))
        { vt::violation(std::string("loose-")+what, "box [%.7g %.7g] larger than needed [%.7g %.7g] on axis %d", b.bounds[0][k], b.bounds[1][k], lo[k], hi[k], k); return; }
}
static void shapes(Rng& r, long idx)
{
    Sphere sp; Box bx; Mesh* m = NULL; Triangle* t = NULL; const Shape* s; const char* name; std::vector<Tri> T;
    int kind = idx%4; D3 llo(-1, -1, -1), lhi(1, 1, 1);
    if(kind == 0) { s = &sp; name = "sphere"; }
    else if(kind == 1) { s = &bx; name = "box"; llo = D3(0, 0, 0); }
    else if(kind == 2) { T = rand_tris(r, 1, SOUP); t = new Triangle(T[0].v[0], T[0].v[1], T[0].v[2]); s = t; name = "triangle"; }
    else { T = rand_tris(r, r.irange(1, 40), r.irange(0, MESH_KINDS-1)); m = make_mesh(T); s = m; name = "mesh"; }
    if(kind>=2)
    {
        llo = D3(1e300, 1e300, 1e300); lhi = D3(-1e300, -1e300, -1e300);
        for(auto& q : T) for(auto& v : q.v) for(int k = 0; k<3; k++) { llo.at(k) = std::min(llo[k], (double)v.p[k]); lhi.at(k) = std::max(lhi[k], (double)v.p[k]); }
    }
    auto surf = [&]() -> D3 {
        if(kind == 0) { D3 u = rand_dir(r); return u; }
        if(kind == 1) { D3 u(r.u(), r.u(), r.u()); u.at(r.irange(0, 2)) = r.irange(0, 1); if(r.chance(.3)) u = D3(r.irange(0, 1), r.irange(0, 1), r.irange(0, 1)); return u; }
        const Tri& q = T[r.irange(0, (int)T.size()-1)]; if(r.chance(.4)) return d(q.v[r.irange(0, 2)].p);
        double a = r.u(), b = r.u(); if(a+b>1) { a = 1-a; b = 1-b; } return d(q.v[0].p)+(d(q.v[1].p)-d(q.v[0].p))*a+(d(q.v[2].p)-d(q.v[0].p))*b; };
    double L = std::max(len(llo), len(lhi));
    AABB local = s->compute_AABB();
    for(int i = 0; i<12; i++) contains(name, local, surf(), 1e-6*L);
    tight(name, local, llo, lhi, 1e-6*L);
    DM p = rand_place(r, false); Matrix4 M = fm(p); p = dm(M);
    AABB w = s->compute_AABB(&M); Asset as(s, M, 1);
    double W = 4e-6*(L*len(D3(len(p.v(D3(1, 0, 0))), len(p.v(D3(0, 1, 0))), len(p.v(D3(0, 0, 1)))))+len(D3(p.a[0][3], p.a[1][3], p.a[2][3])));
    for(int i = 0; i<24; i++) { D3 q = p.p(surf()); contains(name, w, q, W); contains("asset", *as.get_AABB(), q, W); }
    D3 wlo(1e300, 1e300, 1e300), whi(-1e300, -1e300, -1e300);
    for(int i = 0; i<8; i++) { D3 q = p.p(D3(i&1?lhi.x:llo.x, i&2?lhi.y:llo.y, i&4?lhi.z:llo.z)); for(int k = 0; k<3; k++) { wlo.at(k) = std::min(wlo[k], q[k]); whi.at(k) = std::max(whi[k], q[k]); } }
    tight(name, w, wlo, whi, W); tight("asset", *as.get_AABB(), wlo, whi, W);
    // a ray through a surface point must pass the placed object's box test
    for(int i = 0; i<4; i++)
    {
        D3 q = p.p(surf()), dir = rand_dir(r); double size = len(whi-wlo);
        AABB in = *as.get_AABB(); bool deep = true; for(int k = 0; k<3; k++) if(q[k]<in.bounds[0][k]+1e-3*size || q[k]>in.bounds[1][k]-1e-3*size) deep = false;
        if(!deep) continue;
        Ray ray(pt(q-dir*(size*2)), vec(dir)); RayProperties rp(ray); float a, b;
        vt::count("rays through an interior surface point");
        if(!as.intersect_AABB(&ray, &rp, &a, &b)) vt::violation("asset-ray", "ray through a point of the object misses its box");
        else if(!(a<=size*2*1.001 && b>=size*2*.999)) vt::violation("asset-ray-t", "box entry/exit %g %g do not bracket the surface at %g", a, b, size*2);
    }
    vt::eval(vt::hash_bytes(&M, sizeof M, idx));
    if(idx<4) vt::sample(vt::fmt("%s placed in [%.4g %.4g %.4g]-[%.4g %.4g %.4g]", name, w.bounds[0].x, w.bounds[0].y, w.bounds[0].z, w.bounds[1].x, w.bounds[1].y, w.bounds[1].z));
    delete m; delete t;
}
int main(int argc, char** argv)
{
    vt::init(argc, argv, "random unions of points and boxes; rays (axis-parallel, flat boxes, origins inside) against boxes; surface points of spheres, boxes, triangles and meshes of nine layouts under random placements; non-trivial: decided cases, distinct by data bits");
    vt::cases("box", vt::n(100000, 3000000), [](Rng& r, long) { boxops(r); });
    vt::cases("ray", vt::n(300000, 8000000), [](Rng& r, long) { boxray(r); });
    vt::cases("shape", vt::n(24000, 600000), [](Rng& r, long i) { shapes(r, i); });
    return vt::finish();
}
