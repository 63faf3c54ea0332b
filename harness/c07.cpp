// C07: sphere, box, triangle intersections against double precision, at shape and placed-object level.
#include "gen.hpp"
using namespace gen;

struct Want { int hit; double t; D3 n; double tolt, toln; };   // hit: 0/1, -1 undecidable in float
static const double EPS0 = 1e-2;      // documented self-intersection distance

// candidates sorted; pick nearest >= EPS0 and <= limit; undecidable when near a boundary
static Want choose(double t1, D3 n1, double tol1, double t2, D3 n2, double tol2, bool two, double limit)
{
    Want w{0, 0, D3(), 0, 0};
    double ts[2] = {t1, t2}, tol[2] = {tol1, tol2}; D3 ns[2] = {n1, n2};
    for(int i = 0; i<(two?2:1); i++)
    {
        if(std::fabs(ts[i]-EPS0)<tol[i]+1e-6) { w.hit = -1; return w; }
        if(ts[i]<EPS0) continue;
        if(std::fabs(ts[i]-limit)<tol[i]+1e-6*std::fabs(limit)) { w.hit = -1; return w; }
        if(ts[i]>limit) return w;
        w.hit = 1; w.t = ts[i]; w.n = ns[i]; w.tolt = tol[i];
        return w;
    }
    return w;
}
static Want want_sphere(D3 o, D3 dir, double limit)
{
    double a = dot(dir, dir), b = dot(o, dir), c = dot(o, o)-1, D = b*b-a*c;
    double dist = std::sqrt(dot(o, o))+1, rel = D/a;          // = half chord squared
    Want w{-1, 0, D3(), 0, 0};
    double errrel = 2e-6*(dist*dist+1);
    if(std::fabs(rel)<4*errrel+1e-5) return w;
    if(D<0) { w.hit = 0; return w; }
    double s = std::sqrt(D), t1 = (-b-s)/a, t2 = (-b+s)/a;
    double tol = (errrel/std::sqrt(rel)+1e-6*dist)/std::sqrt(a);
    D3 n1 = o+dir*t1, n2 = o+dir*t2;
    Want r = choose(t1, n1, tol, t2, n2, tol, true, limit);
    r.toln = 3*tol*std::sqrt(a)+1e-5;
    return r;
}
static Want want_box(D3 o, D3 dir, double limit)
{
    double lo = -1e300, hi = 1e300; int alo = 0, ahi = 0; Want w{-1, 0, D3(), 0, 0};
    double second_lo = -1e300, second_hi = 1e300, tol = 0;
    for(int i = 0; i<3; i++)
    {
        double p = o[i], q = dir[i];
        if(q == 0) { if(std::fabs(p)<1e-4 || std::fabs(p-1)<1e-4) return w; if(p<0 || p>1) { w.hit = 0; return w; } continue; }
        if(std::fabs(q)<1e-5*len(dir)) return w;
        double n = -p/q, f = (1-p)/q; if(n>f) std::swap(n, f);
        tol = std::max(tol, 4e-6*(std::fabs(p)+1)/std::fabs(q));
        if(n>lo) { second_lo = lo; lo = n; alo = i; } else if(n>second_lo) second_lo = n;
        if(f<hi) { second_hi = hi; hi = f; ahi = i; } else if(f<second_hi) second_hi = f;
    }
    if(std::fabs(hi-lo)<2*tol) return w;
    if(lo>hi) { w.hit = 0; return w; }
    D3 n1, n2; n1.at(alo) = dir[alo]>0?-1:1; n2.at(ahi) = dir[ahi]>0?1:-1;
    Want r = choose(lo, n1, tol, hi, n2, tol, true, limit);
    r.toln = 1e-4;
    // on an edge the face is ambiguous
    if(r.hit == 1 && r.t == lo && lo-second_lo<2*tol) r.n = D3();
    if(r.hit == 1 && r.t == hi && second_hi-hi<2*tol) r.n = D3();
    return r;
}
static double mingraze = 1e-6;
static Want want_tri(D3 o, D3 dir, const Tri& T, double limit, bool shading = true)
{
    TriHit h = tri_hit(o, dir, T);
    Want w{-1, 0, D3(), 0, 0};
    D3 gn = tri_n(T);
    if(!(std::fabs(dot(gn, dir))>mingraze*len(gn)*len(dir))) return w;   // grazing: not decidable in float

    if(h.margin<4) return w;
    if(!h.hit) { w.hit = 0; return w; }
    D3 a = d(T.v[0].p), e1 = d(T.v[1].p)-a, e2 = d(T.v[2].p)-a;
    double det = std::fabs(dot(cross(dir, e2), e1));
    double tol = 3e-6*(len(o-a)*len(e1)*len(e2)/det+std::fabs(h.t))+1e-7;
    double k = 1-h.u-h.v;
    D3 n = d(T.v[0].n)*k+d(T.v[1].n)*h.u+d(T.v[2].n)*h.v;
    Want r = choose(h.t, n, tol, 0, n, tol, false, limit);
    double uverr = 3e-6*(len(o-a)*len(dir)*std::max(len(e1), len(e2))/det+1);
    r.toln = 10*uverr;
    return r;
}
static int kindstats[3][3];
static void judge(const char* kind, const char* level, const Shape* s, const Asset* as, Ray ray, D3 o, D3 dir, Want w, float limit, const DM* m, const DM* inv, bool norm)
{
    HitPoint h = blank_hit(); h.index = 4711; h.uv = Point2(.25f, .75f);
    HitPoint before = h;
    float dist = limit; Ray rcopy = ray;
    MaskBoolean none;
    bool got = as?as->intersect(&ray, &dist, &h):s->intersect(&ray, &dist, &h, &none);
    std::string sg = std::string(kind)+"-"+level+"-";
    if(memcmp(&rcopy.origin, &ray.origin, sizeof ray.origin) || memcmp(&rcopy.direction, &ray.direction, sizeof ray.direction)) vt::violation(sg+"ray-changed", "ray modified");
    vt::count(std::string(kind)+"-"+level+(got?":hits":":misses"));
    if(!got && (dist != limit)) vt::violation(sg+"miss-changes-distance", "miss changed distance %g -> %g", limit, dist);
    if(!got && !same_hit(before, h)) vt::violation(sg+"miss-changes-record", "miss changed the hit record");
    if(got && !(dist>=0.0099f && dist<=limit)) vt::violation(sg+"bad-distance", "distance %.9g outside [%.3g, %.9g]", dist, EPS0, limit);
    if(w.hit<0) { vt::count("undecidable"); return; }
    if(got != (w.hit == 1))
    {
        vt::violation(sg+(got?"false-hit":"missed"), "%s at %.9g, expected %s at %.9g; o=(%.9g %.9g %.9g) d=(%.9g %.9g %.9g) limit %g", got?"hit":"no hit", dist, w.hit?"hit":"none", w.t, o.x, o.y, o.z, dir.x, dir.y, dir.z, limit);
        return;
    }
    if(!got) return;
    if(!(std::fabs(dist-w.t)<=w.tolt+2e-6*w.t))
        vt::violation(sg+"distance", "distance %.9g expected %.9g (tolerance %.3g); o=(%.9g %.9g %.9g) d=(%.9g %.9g %.9g)", dist, w.t, w.tolt, o.x, o.y, o.z, dir.x, dir.y, dir.z);
    D3 hp = d(h.point_h), expect = d(ray.origin)+d(ray.direction)*w.t;
    double scale = len(d(ray.direction))*(w.tolt)+1e-5*(len(d(ray.origin))+w.t*len(d(ray.direction)))+1e-6;
    if(m) scale += 1e-5*std::sqrt(m->a[0][3]*m->a[0][3]+m->a[1][3]*m->a[1][3]+m->a[2][3]*m->a[2][3]);
    // the sphere's poles are nudged by the self-intersection distance so that a tangent exists
    if(!strcmp(kind, "sphere")) { double z = m?len(m->v(D3(1, 0, 0))):1; D3 loc = m?inv->p(hp):hp; if(std::fabs(loc.x)<.011 && std::fabs(loc.y)<1e-6) scale += 0.0101*z; }
    if(len(hp-expect)>20*scale) vt::violation(sg+"point", "point off the ray by %.3g (allowed %.3g)", len(hp-expect), 20*scale);
    if(len(w.n)>0)
    {
        D3 n = d(h.normal_h); double tol = w.toln+1e-4;
        if(m) // placed: unit world normal by inverse transpose
        {
            if(std::fabs(len(n)-1)>1e-4) vt::violation(sg+"normal-length", "placed normal has length %.9g", len(n));
            D3 e = unit(inv->tv(w.n)); tol = 3*w.toln*3+2e-4;
            if(!(len(n-e)<=tol)) vt::violation(sg+"normal", "normal (%.6g %.6g %.6g) expected (%.6g %.6g %.6g)", n.x, n.y, n.z, e.x, e.y, e.z);
        }
        else if(!(len(n-w.n)<=tol)) vt::violation(sg+"normal", "normal (%.6g %.6g %.6g) expected (%.6g %.6g %.6g); o=(%.9g %.9g %.9g) d=(%.9g %.9g %.9g)", n.x, n.y, n.z, w.n.x, w.n.y, w.n.z, o.x, o.y, o.z, dir.x, dir.y, dir.z);
        if(!(std::isfinite(n.x) && std::isfinite(n.y) && std::isfinite(n.z))) vt::violation(sg+"normal-nan", "normal not finite");
    }
    if(!strcmp(kind, "sphere") || !strcmp(kind, "box"))
        if(h.index != 0) vt::violation(sg+"index", "face index %u", h.index);
}
// object-space ray aimed at something interesting
static void aim(Rng& r, const std::function<D3(Rng&)>& target, D3& o, D3& dir)
{
    int k = r.irange(0, 6);
    D3 tg = target(r);
    dir = rand_dir(r);
    if(k == 0) o = rand_in(r, -1, 1);                              // likely inside / near
    else if(k == 1) o = tg-dir*r.logrange(.02, 2);
    else if(k == 2) o = tg+dir*r.logrange(.02, 5);                  // target behind
    else if(k == 3) o = rand_in(r, -3, 3);
    else o = tg-dir*r.logrange(.5, 30);
}
static float rlimit(Rng& r, double t)
{
    switch(r.irange(0, 4))
    {
        case 0: return FLT_MAX;
        case 1: return INFINITY;
        case 2: return (float)std::max(0.02, t*r.range(.2, .98));
        case 3: return (float)std::max(0.02, t*r.range(1.02, 2));
        default: return (float)r.logrange(.02, 100);
    }
}
int main(int argc, char** argv)
{
    vt::init(argc, argv, "rays aimed at, past, into and away from a primitive (axis aligned, zero components, origins inside and on the surface, tangents), with finite and infinite limits, at object level and under random placements (scale 0.02..1000); non-trivial: decided case, distinct by ray bits");
    Sphere* sp = new Sphere; Box* bx = new Box;
    long n = vt::n(400000, 8000000);
    auto run = [&](Rng& r, int kind) {
        const char* name = kind == 0?"sphere":kind == 1?"box":"triangle";
        Tri T;
        if(kind == 2)
        {
            double s = r.logrange(.1, 5);
            T = tri(rand_in(r, -s, s), rand_in(r, -s, s), rand_in(r, -s, s));
            if(r.chance(.3)) { int ax = r.irange(0, 2); for(int i = 0; i<3; i++) T.v[i].p[ax] = 0.5f; }
            for(int i = 0; i<3; i++) { D3 q = unit(unit(tri_n(T))+rand_in(r, -.5, .5)); T.v[i].n = Normal((float)q.x, (float)q.y, (float)q.z); T.v[i].t = Point2(r.rangef(-2, 2), r.rangef(-2, 2)); }
        }
        auto target = [&](Rng& q) -> D3 {
            if(kind == 0) { D3 u = rand_dir(q); if(q.chance(.2)) u = u*q.range(.95, 1.05); if(q.chance(.1)) u = D3(0, 0, q.chance(.5)?1:-1); return u; }
            if(kind == 1) { D3 u(q.u(), q.u(), q.u()); if(q.chance(.7)) u.at(q.irange(0, 2)) = q.irange(0, 1); if(q.chance(.1)) u = u*1.1; return u; }
            double a = q.range(-.1, 1.1), b = q.range(-.1, 1.1); if(q.chance(.6)) { a = q.u(); b = q.u(); if(a+b>1) { a = 1-a; b = 1-b; } }
            return d(T.v[0].p)+(d(T.v[1].p)-d(T.v[0].p))*a+(d(T.v[2].p)-d(T.v[0].p))*b; };
        auto want = [&](D3 o, D3 dd_, double lim) { return kind == 0?want_sphere(o, dd_, lim):kind == 1?want_box(o, dd_, lim):want_tri(o, dd_, T, lim); };
        Triangle* tr = kind == 2?new Triangle(T.v[0], T.v[1], T.v[2]):NULL;
        const Shape* s = kind == 0?(Shape*)sp:kind == 1?(Shape*)bx:tr;
        D3 o, dir; aim(r, target, o, dir);
        // object level
        {
            double k = r.chance(.5)?1:r.logrange(.05, 20);
            Ray ray(pt(o), vec(dir*k));
            D3 fo = d(ray.origin), fd = d(ray.direction);
            Want w0 = want(fo, fd, 1e30); float lim = rlimit(r, w0.hit == 1?w0.t:1);
            judge(name, "local", s, NULL, ray, fo, fd, want(fo, fd, lim), lim, NULL, NULL, false);
            vt::eval(vt::hash_bytes(&ray, 24), true);
        }
        // placed level
        {
            mingraze = 1e-3;
            DM pm = rand_place(r, false, kind == 0?.02:.05, r.chance(.3)?1000:20, 20);
            Matrix4 M = fm(pm); pm = dm(M); DM inv = pm.inv();
            Asset a(s, M, 1);
            D3 wo = pm.p(o), wd = unit(pm.v(dir));
            Ray ray(pt(wo), vec(wd));
            D3 lo = inv.p(d(ray.origin)), ld = inv.v(d(ray.direction));
            auto w0_t = [&](D3 q, D3 e) { Want z = want(q, e, 1e30); return z.hit == 1?z.t*len(e):3+len(q); };
            // rounding of the inverse transform moves the ray in object space; keep only well separated cases
            double spread = 2e-6*(len(d(ray.origin))+len(D3(pm.a[0][3], pm.a[1][3], pm.a[2][3])))*len(ld);
            spread += 2e-6*(len(lo)+(w0_t(lo, ld)));
            Want w0 = want(lo, ld, 1e30); float lim = rlimit(r, w0.hit == 1?w0.t:1);
            Want w = want(lo, ld, lim);
            if(w.hit>=0 && spread>0)
            {
                // perturb: decision must be stable, otherwise undecidable
                for(int kk = 0; kk<14*4 && w.hit>=0; kk++)
                {
                    int k = kk%14; double mag[] = {6, 2, .5, .1}; double sp2 = spread*mag[kk/14];
                    D3 q = lo; if(k<6) q.at(k/2) += (k&1?1:-1)*sp2; else q = q+D3(k&1?1:-1, k&2?1:-1, k&4?1:-1)*sp2;
                    Want w2 = want(q, ld, lim); if(w2.hit != w.hit || (w.hit == 1 && len(w2.n-w.n)>0.05)) w.hit = -1;
                    else if(w.hit == 1) { w.tolt = std::max(w.tolt, std::fabs(w2.t-w.t)); w.toln = std::max(w.toln, len(w2.n-w.n)); }
                }
                w.tolt += 1e-6*w.t+spread/len(ld); w.toln *= 3;
            }
            judge(name, "placed", NULL, &a, ray, lo, ld, w, lim, &pm, &inv, true);
            vt::eval(vt::hash_bytes(&ray, 24), w.hit>=0);
            mingraze = 1e-6;
            vt::sample(vt::fmt("%s placed: o=(%.4g %.4g %.4g) d=(%.4g %.4g %.4g) limit %g -> %s t=%.5g", name, wo.x, wo.y, wo.z, wd.x, wd.y, wd.z, lim, w.hit == 1?"hit":w.hit == 0?"miss":"borderline", w.t));
        }
        delete tr;
    };
    vt::cases("sphere", n, [&](Rng& r, long) { run(r, 0); });
    vt::cases("box", n, [&](Rng& r, long) { run(r, 1); });
    vt::cases("triangle", n, [&](Rng& r, long) { run(r, 2); });
    // (nearly) coplanar rays: whatever is decided, a reported hit must be a real one, a finite distance in range
    vt::cases("grazing", n/4, [&](Rng& r, long) {
        int ax = r.irange(0, 2); Tri T; D3 q[3];
        for(D3& p : q) { p = rand_in(r, -1, 1); p.at(ax) = r.chance(.5)?.5:r.range(.4999, .5001); }
        T = tri(q[0], q[1], q[2]); Triangle t(T.v[0], T.v[1], T.v[2]);
        D3 dir = rand_dir(r, false); dir.at(ax) = r.chance(.3)?0:(r.chance(.5)?1:-1)*std::exp(-r.range(5, 100)); dir = unit(dir);
        D3 o = rand_in(r, -2, 2); o.at(ax) = r.chance(.5)?.5:r.range(.4999, .5001);
        if(r.chance(.3)) { o.at((ax+1)%3) = q[0][(ax+1)%3]; o.at((ax+2)%3) = q[0][(ax+2)%3]; }
        Ray ray(pt(o), vec(dir)); HitPoint h = blank_hit(); float di = FLT_MAX; MaskBoolean none;
        if(t.intersect(&ray, &di, &h, &none))
        {
            vt::count("grazing hits");
            if(!(di>=0.0099f && di<=10)) vt::violation("grazing-distance", "grazing ray reports distance %g", di);
            if(!std::isfinite(h.point_h.x+h.point_h.y+h.point_h.z+h.normal_h.x+h.normal_h.y+h.normal_h.z)) vt::violation("grazing-nan", "grazing hit with non-finite point or normal");
        }
        vt::eval(vt::hash_bytes(&ray, 24));
    });
    // hostile: zero, infinite, NaN rays must stay within memory and terminate
    vt::cases("hostile", vt::n(4000, 100000), [&](Rng& r, long) {
        float sp_[] = {0.f, -0.f, 1.f, 1e-38f, 1e38f, INFINITY, -INFINITY, NAN, 1e-45f};
        auto g = [&]() { return r.chance(.5)?sp_[r.irange(0, 8)]:r.rangef(-2, 2); };
        Ray ray(g(), g(), g(), g(), g(), g()); MaskBoolean none;
        Vertex a = vert(D3(g(), g(), g())), b = vert(D3(g(), g(), g())), c = vert(D3(g(), g(), g())); Triangle t(a, b, c);
        for(const Shape* s : {(const Shape*)sp, (const Shape*)bx, (const Shape*)&t}) { HitPoint h = blank_hit(); float di = FLT_MAX; s->intersect(&ray, &di, &h, &none); s->compute_AABB(); }
        vt::eval(vt::hash_bytes(&ray, 24));
    });
    return vt::finish();
}
