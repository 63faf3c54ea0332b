// C12: vector, point, ray and matrix algebra against double precision.
#include "vt.hpp"
#include "geometry/vec3.hpp"
#include "geometry/vec2.hpp"
#include "geometry/point2.hpp"
#include "geometry/point3.hpp"
#include "geometry/matrix4.hpp"
#include "geometry/ray.hpp"
using vt::Rng;
static const double EPSF = 1.2e-7;

struct D3 { double x, y, z; };
static D3 d3(double x, double y, double z) { return D3{x, y, z}; }
template<class T> static D3 dd(const T& v) { return D3{v.x, v.y, v.z}; }
static double dotd(D3 a, D3 b) { return a.x*b.x+a.y*b.y+a.z*b.z; }
static double len(D3 a) { return std::sqrt(dotd(a, a)); }
static D3 crossd(D3 a, D3 b) { return D3{a.y*b.z-a.z*b.y, a.z*b.x-a.x*b.z, a.x*b.y-a.y*b.x}; }

static bool close1(double got, double want, double mag)
{
    if(got == want) return true;
    return std::fabs(got-want)<=16*EPSF*mag+1e-37;
}
static void chk(const char* what, double got, double want, double mag)
{
    vt::count(std::string("compared:")+what);
    if(!close1(got, want, mag))
        vt::violation(std::string("vec-")+what, "%s got %.9g want %.9g (magnitude %.3g)", what, got, want, mag);
}
template<class T> static void chk3(const char* what, const T& g, D3 w, D3 m)
{
    chk(what, g.x, w.x, m.x); chk(what, g.y, w.y, m.y); chk(what, g.z, w.z, m.z);
}
static float rf(Rng& r)
{
    switch(r.irange(0, 9))
    {
        case 0: return 0.f;
        case 1: return 1.f;
        case 2: return -1.f;
        case 3: return (float)(r.logrange(1e-4, 1e5)*(r.chance(.5)?1:-1));
        default: return r.rangef(-10, 10);
    }
}
static float rnz(Rng& r) { float f; do f = rf(r); while(f == 0); return f; }
static D3 ab(D3 a) { return d3(std::fabs(a.x), std::fabs(a.y), std::fabs(a.z)); }

template<class V> static void vec_common(Rng& r)
{
    V a(rf(r), rf(r), rf(r)), b(rf(r), rf(r), rf(r)), nzv(rnz(r), rnz(r), rnz(r));
    float f = rf(r), nz = rnz(r);
    D3 A = dd(a), B = dd(b), N = dd(nzv);
    D3 M = d3(std::fabs(A.x)+std::fabs(B.x), std::fabs(A.y)+std::fabs(B.y), std::fabs(A.z)+std::fabs(B.z));
    D3 MF = d3(std::fabs(A.x)+std::fabs(f), std::fabs(A.y)+std::fabs(f), std::fabs(A.z)+std::fabs(f));
    D3 W;
    V c = a;
    W = d3(A.x+B.x, A.y+B.y, A.z+B.z); chk3("add", a+b, W, M); c = a; c += b; chk3("add=", c, W, M);
    W = d3(A.x-B.x, A.y-B.y, A.z-B.z); chk3("sub", a-b, W, M); c = a; c -= b; chk3("sub=", c, W, M);
    W = d3(A.x*B.x, A.y*B.y, A.z*B.z); chk3("mul", a*b, W, ab(W)); c = a; c *= b; chk3("mul=", c, W, ab(W));
    W = d3(A.x/N.x, A.y/N.y, A.z/N.z); chk3("div", a/nzv, W, ab(W)); c = a; c /= nzv; chk3("div=", c, W, ab(W));
    W = d3(A.x+f, A.y+f, A.z+f); chk3("addf", a+f, W, MF); c = a; c += f; chk3("addf=", c, W, MF);
    W = d3(A.x-f, A.y-f, A.z-f); chk3("subf", a-f, W, MF); c = a; c -= f; chk3("subf=", c, W, MF);
    W = d3(A.x*f, A.y*f, A.z*f); chk3("mulf", a*f, W, ab(W)); c = a; c *= f; chk3("mulf=", c, W, ab(W));
    W = d3(A.x/nz, A.y/nz, A.z/nz); chk3("divf", a/nz, W, ab(W)); c = a; c /= nz; chk3("divf=", c, W, ab(W));
    W = d3(-A.x, -A.y, -A.z); chk3("neg", -a, W, ab(W)); chk3("not", !a, W, ab(W));
    double mag = std::fabs(A.x*B.x)+std::fabs(A.y*B.y)+std::fabs(A.z*B.z);
    chk("dot", a.dot(b), dotd(A, B), mag); chk("dot-free", dot(a, b), dotd(A, B), mag);
    chk("absdot", absdot(a, b), std::fabs(dotd(A, B)), mag);
    chk("length", a.length(), len(A), len(A)); chk("length2", a.length2(), dotd(A, A), dotd(A, A));
    D3 dff = d3(A.x-B.x, A.y-B.y, A.z-B.z);
    chk("distance", a.distance(b), len(dff), len(A)+len(B)); chk("distance-free", distance(a, b), len(dff), len(A)+len(B));
    for(int k = 0; k<3; k++)
    {
        double v = k == 0?A.x:k == 1?A.y:A.z;
        chk("index", a[k], v, 0);
        const V& ca = a; chk("cindex", ca[k], v, 0);
        V w = a; w[k] = 42.f; chk("index=", k == 0?w.x:k == 1?w.y:w.z, 42, 0);
    }
    if(!(a == a)) vt::violation("vec-eq", "a==a false");
    if(a != a) vt::violation("vec-neq", "a!=a true");
    int ax = r.irange(0, 2);
    V d = a; d[ax] += std::max(1e-2f, std::fabs(d[ax])*1e-2f);
    if(a == d || !(a != d)) vt::violation("vec-eq2", "vectors differing in axis %d compare equal", ax);
    if(len(A)>1e-3)
    {
        V n = a; n.normalize();
        D3 w = d3(A.x/len(A), A.y/len(A), A.z/len(A));
        // within 1e-5 of unit length squared counts as normalised already
        double tol = 60;   // *16 EPSF  ~ 1e-4 only for the "already normalised" band
        bool band = std::fabs(dotd(A, A)-1)<1.1e-5;
        chk3("normalize", n, w, d3(band?tol:1, band?tol:1, band?tol:1));
        chk3("normalize-free", normalize(a), w, d3(band?tol:1, band?tol:1, band?tol:1));
        if(!n.is_normalized()) vt::violation("vec-isnorm", "normalised vector of length %.9g is not is_normalized()", n.length());
        if(len(A)>1.01 && a.is_normalized()) vt::violation("vec-isnorm2", "length %.6g is_normalized()", len(A));
        if(len(A)<0.99 && a.is_normalized()) vt::violation("vec-isnorm2", "length %.6g is_normalized()", len(A));
    }
    float arr[3];
    a.to_array(arr);
    chk3("to_array", V(arr[0], arr[1], arr[2]), A, d3(0, 0, 0));
    chk3("from_array", V(arr), A, d3(0, 0, 0));
    chk3("splat", V(f), d3(f, f, f), d3(0, 0, 0));
    W = d3(std::min(A.x, B.x), std::min(A.y, B.y), std::min(A.z, B.z)); c = a; c.min(b);
    chk3("min", c, W, d3(0, 0, 0)); chk3("min-free", min(a, b), W, d3(0, 0, 0));
    W = d3(std::max(A.x, B.x), std::max(A.y, B.y), std::max(A.z, B.z)); c = a; c.max(b);
    chk3("max", c, W, d3(0, 0, 0)); chk3("max-free", max(a, b), W, d3(0, 0, 0));
    auto cl = [](double v, double l, double h) { return v<l?l:v>h?h:v; };
    Vec3 lo(rf(r), rf(r), rf(r)), hi(lo.x+std::fabs(rf(r)), lo.y+std::fabs(rf(r)), lo.z+std::fabs(rf(r)));
    W = d3(cl(A.x, lo.x, hi.x), cl(A.y, lo.y, hi.y), cl(A.z, lo.z, hi.z)); c = a; c.clamp(lo, hi);
    chk3("clamp", c, W, d3(0, 0, 0)); chk3("clamp-free", clamp(a, lo, hi), W, d3(0, 0, 0));
    W = d3(cl(A.x, 0, 1), cl(A.y, 0, 1), cl(A.z, 0, 1)); c = a; c.saturate();
    chk3("saturate", c, W, d3(0, 0, 0)); chk3("saturate-free", saturate(a), W, d3(0, 0, 0));
    vt::eval(vt::hash_bytes(&a, sizeof a, vt::hash_bytes(&b, sizeof b)));
}
static void vec3_only(Rng& r)
{
    Vec3 a(rf(r), rf(r), rf(r)), b(rf(r), rf(r), rf(r));
    D3 A = dd(a), B = dd(b), C = crossd(A, B);
    D3 M = d3(std::fabs(A.y*B.z)+std::fabs(A.z*B.y), std::fabs(A.z*B.x)+std::fabs(A.x*B.z), std::fabs(A.x*B.y)+std::fabs(A.y*B.x));
    chk3("cross", a.cross(b), C, M);
    chk3("cross-free", cross(a, b), C, M);
    Vec3 o; a.cross(b, &o); chk3("cross-out", o, C, M);
    Vec3 n(rf(r), rf(r), rf(r));
    while(n.length()<1e-2) n = Vec3(rf(r), rf(r), rf(r));
    n.normalize();
    Normal nn(n);
    D3 Nn = dd(n);
    double dn = dotd(A, Nn), m = 4*(len(A)+1e-6);
    D3 W = d3(A.x-2*dn*Nn.x, A.y-2*dn*Nn.y, A.z-2*dn*Nn.z);
    chk3("reflect", reflect(a, n), W, d3(m, m, m));
    chk3("reflect-n", reflect(a, nn), W, d3(m, m, m));
    Vec3 q = a; q.reflect(n); chk3("reflect=", q, W, d3(m, m, m));
    q = a; q.reflect(nn); chk3("reflect=n", q, W, d3(m, m, m));
    // refraction of a unit vector a on the same side as n
    Vec3 i(rf(r), rf(r), rf(r));
    while(i.length()<1e-2) i = Vec3(rf(r), rf(r), rf(r));
    i.normalize();
    if(i.dot(n)<0) i = -i;
    float eta = r.chance(.5)?r.rangef(0.3f, 1.f):r.rangef(1.f, 3.f);
    double ci = dotd(dd(i), Nn), s2t = std::max(0., 1-ci*ci)*eta*eta;
    Vec3 t1 = refract(i, n, eta), t2 = refract(i, nn, eta), t3 = i, t4 = i;
    bool r3 = t3.refract(n, eta), r4 = t4.refract(nn, eta);
    if(std::fabs(s2t-1)>1e-3)
    {
        if(s2t>1)
        {
            if(t1.length()>0 || t2.length()>0 || r3 || r4)
                vt::violation("vec-refract-tir", "total internal reflection refracts: cos %.6g eta %.6g", ci, eta);
            vt::count("tir");
        }
        else
        {
            double ct = std::sqrt(1-s2t), k = ci*eta-ct;
            D3 w = d3(-i.x*eta+Nn.x*k, -i.y*eta+Nn.y*k, -i.z*eta+Nn.z*k);
            double tol = 30/std::min(1., std::max(0.03, ct));
            chk3("refract", t1, w, d3(tol, tol, tol)); chk3("refract-n", t2, w, d3(tol, tol, tol));
            chk3("refract=", t3, w, d3(tol, tol, tol)); chk3("refract=n", t4, w, d3(tol, tol, tol));
            if(!r3 || !r4) vt::violation("vec-refract-ret", "refraction possible but reported as total reflection");
            if(t1.dot(n)>1e-4) vt::violation("vec-refract-side", "refracted direction on the incident side");
        }
    }
    vt::eval(vt::hash_bytes(&a, sizeof a, vt::hash_bytes(&i, sizeof i)));
}
static void small(Rng& r)
{
    Vec2 a(rf(r), rf(r)), b(rf(r), rf(r)), z(rnz(r), rnz(r));
    float f = rf(r), nz = rnz(r);
    auto c2 = [](const char* w, Vec2 g, double x, double y, double mx, double my) { chk(w, g.x, x, mx); chk(w, g.y, y, my); };
    double mx = std::fabs(a.x)+std::fabs(b.x), my = std::fabs(a.y)+std::fabs(b.y);
    double fx = std::fabs(a.x)+std::fabs(f), fy = std::fabs(a.y)+std::fabs(f);
    Vec2 c = a;
    c2("2add", a+b, (double)a.x+b.x, (double)a.y+b.y, mx, my); c = a; c += b; c2("2add=", c, (double)a.x+b.x, (double)a.y+b.y, mx, my);
    c2("2sub", a-b, (double)a.x-b.x, (double)a.y-b.y, mx, my); c = a; c -= b; c2("2sub=", c, (double)a.x-b.x, (double)a.y-b.y, mx, my);
    c2("2mul", a*b, (double)a.x*b.x, (double)a.y*b.y, std::fabs((double)a.x*b.x), std::fabs((double)a.y*b.y));
    c = a; c *= b; c2("2mul=", c, (double)a.x*b.x, (double)a.y*b.y, std::fabs((double)a.x*b.x), std::fabs((double)a.y*b.y));
    c2("2div", a/z, (double)a.x/z.x, (double)a.y/z.y, std::fabs((double)a.x/z.x), std::fabs((double)a.y/z.y));
    c = a; c /= z; c2("2div=", c, (double)a.x/z.x, (double)a.y/z.y, std::fabs((double)a.x/z.x), std::fabs((double)a.y/z.y));
    c2("2addf", a+f, (double)a.x+f, (double)a.y+f, fx, fy); c = a; c += f; c2("2addf=", c, (double)a.x+f, (double)a.y+f, fx, fy);
    c2("2subf", a-f, (double)a.x-f, (double)a.y-f, fx, fy); c = a; c -= f; c2("2subf=", c, (double)a.x-f, (double)a.y-f, fx, fy);
    c2("2mulf", a*f, (double)a.x*f, (double)a.y*f, std::fabs((double)a.x*f), std::fabs((double)a.y*f));
    c = a; c *= f; c2("2mulf=", c, (double)a.x*f, (double)a.y*f, std::fabs((double)a.x*f), std::fabs((double)a.y*f));
    c2("2divf", a/nz, (double)a.x/nz, (double)a.y/nz, std::fabs((double)a.x/nz), std::fabs((double)a.y/nz));
    c = a; c /= nz; c2("2divf=", c, (double)a.x/nz, (double)a.y/nz, std::fabs((double)a.x/nz), std::fabs((double)a.y/nz));
    c2("2neg", -a, -a.x, -a.y, 0, 0);
    double L = std::sqrt((double)a.x*a.x+(double)a.y*a.y);
    chk("2len", a.length(), L, L); chk("2len2", a.length2(), L*L, L*L); chk("2lenf", length(a), L, L); chk("2len2f", lengthSquared(a), L*L, L*L);
    double dm = std::fabs((double)a.x*b.x)+std::fabs((double)a.y*b.y);
    chk("2dot", a.dot(b), (double)a.x*b.x+(double)a.y*b.y, dm); chk("2dotf", dot(a, b), (double)a.x*b.x+(double)a.y*b.y, dm);
    double D = std::hypot((double)a.x-b.x, (double)a.y-b.y);
    chk("2dist", a.distance(b), D, mx+my); chk("2distf", distance(a, b), D, mx+my);
    c2("2min", min(a, b), std::min(a.x, b.x), std::min(a.y, b.y), 0, 0); c2("2max", max(a, b), std::max(a.x, b.x), std::max(a.y, b.y), 0, 0);
    c = a; c.min(b); c2("2min=", c, std::min(a.x, b.x), std::min(a.y, b.y), 0, 0);
    c = a; c.max(b); c2("2max=", c, std::max(a.x, b.x), std::max(a.y, b.y), 0, 0);
    if(L>1e-3) { c = a; c.normalize(); c2("2norm", c, a.x/L, a.y/L, 10, 10); c = normalize(a); c2("2normf", c, a.x/L, a.y/L, 10, 10); }
    if(!(a == a) || a != a) vt::violation("vec-2eq", "a==a");
    Vec2 e = a; e.y += std::max(1e-2f, std::fabs(e.y)*1e-2f); if(e == a || !(e != a)) vt::violation("vec-2eq", "differs in y but equal");
    e = a; e.x += std::max(1e-2f, std::fabs(e.x)*1e-2f); if(e == a || !(e != a)) vt::violation("vec-2eq", "differs in x but equal");
    // points
    Point3 p(rf(r), rf(r), rf(r)), q(rf(r), rf(r), rf(r));
    Vec3 v(rf(r), rf(r), rf(r));
    D3 P = dd(p), Q = dd(q), V = dd(v);
    D3 pv = d3(std::fabs(P.x)+std::fabs(V.x), std::fabs(P.y)+std::fabs(V.y), std::fabs(P.z)+std::fabs(V.z));
    D3 pq = d3(std::fabs(P.x)+std::fabs(Q.x), std::fabs(P.y)+std::fabs(Q.y), std::fabs(P.z)+std::fabs(Q.z));
    Point3 s = p;
    chk3("p+v", p+v, d3(P.x+V.x, P.y+V.y, P.z+V.z), pv); s += v; chk3("p+=v", s, d3(P.x+V.x, P.y+V.y, P.z+V.z), pv);
    s = p; chk3("p-v", p-v, d3(P.x-V.x, P.y-V.y, P.z-V.z), pv); s -= v; chk3("p-=v", s, d3(P.x-V.x, P.y-V.y, P.z-V.z), pv);
    chk3("p-q", p-q, d3(P.x-Q.x, P.y-Q.y, P.z-Q.z), pq);
    D3 df = d3(P.x-Q.x, P.y-Q.y, P.z-Q.z);
    chk("pdist", p.distance(q), len(df), len(P)+len(Q)); chk("pdistf", distance(p, q), len(df), len(P)+len(Q));
    chk3("pmin", min(p, q), d3(std::min(P.x, Q.x), std::min(P.y, Q.y), std::min(P.z, Q.z)), d3(0, 0, 0));
    chk3("pmax", max(p, q), d3(std::max(P.x, Q.x), std::max(P.y, Q.y), std::max(P.z, Q.z)), d3(0, 0, 0));
    s = p; s.min(q); chk3("pmin=", s, d3(std::min(P.x, Q.x), std::min(P.y, Q.y), std::min(P.z, Q.z)), d3(0, 0, 0));
    s = p; s.max(q); chk3("pmax=", s, d3(std::max(P.x, Q.x), std::max(P.y, Q.y), std::max(P.z, Q.z)), d3(0, 0, 0));
    for(int k = 0; k<3; k++) { chk("pidx", p[k], k == 0?P.x:k == 1?P.y:P.z, 0); s = p; s[k] = 7; chk("pidx=", k == 0?s.x:k == 1?s.y:s.z, 7, 0); }
    Point2 u(rf(r), rf(r)), w(rf(r), rf(r));
    double ux = std::fabs(u.x)+std::fabs(a.x), uy = std::fabs(u.y)+std::fabs(a.y);
    Point2 o = u+a; chk("q+v", o.x, (double)u.x+a.x, ux); chk("q+v", o.y, (double)u.y+a.y, uy);
    o = u-a; chk("q-v", o.x, (double)u.x-a.x, ux); chk("q-v", o.y, (double)u.y-a.y, uy);
    o = u; o += a; chk("q+=v", o.x, (double)u.x+a.x, ux); chk("q+=v", o.y, (double)u.y+a.y, uy);
    o = u; o -= a; chk("q-=v", o.x, (double)u.x-a.x, ux); chk("q-=v", o.y, (double)u.y-a.y, uy);
    Vec2 dv = u-w; double wx = std::fabs(u.x)+std::fabs(w.x), wy = std::fabs(u.y)+std::fabs(w.y);
    chk("q-q", dv.x, (double)u.x-w.x, wx); chk("q-q", dv.y, (double)u.y-w.y, wy);
    chk("qdist", u.distance(w), std::hypot((double)u.x-w.x, (double)u.y-w.y), wx+wy); chk("qdistf", distance(u, w), std::hypot((double)u.x-w.x, (double)u.y-w.y), wx+wy);
    o = min(u, w); chk("qmin", o.x, std::min(u.x, w.x), 0); chk("qmin", o.y, std::min(u.y, w.y), 0);
    o = max(u, w); chk("qmax", o.x, std::max(u.x, w.x), 0); chk("qmax", o.y, std::max(u.y, w.y), 0);
    // ray
    float t = rf(r);
    Ray ray(p, v);
    chk3("apply", ray.apply(t), d3(P.x+V.x*t, P.y+V.y*t, P.z+V.z*t), d3(std::fabs(P.x)+std::fabs(V.x*t), std::fabs(P.y)+std::fabs(V.y*t), std::fabs(P.z)+std::fabs(V.z*t)));
    vt::eval(vt::hash_bytes(&p, sizeof p, vt::hash_bytes(&a, sizeof a)));
}
// ---- matrices
struct M { double a[4][4]; };
static M mm(const Matrix4& m)
{
    float v[16]; m.to_array(v);
    M r; for(int i = 0; i<16; i++) r.a[i/4][i%4] = v[i];
    const float* f = &m.m00; (void)f;
    r.a[0][0] = m.m00; r.a[0][1] = m.m01; r.a[0][2] = m.m02; r.a[0][3] = m.m03;
    r.a[1][0] = m.m10; r.a[1][1] = m.m11; r.a[1][2] = m.m12; r.a[1][3] = m.m13;
    r.a[2][0] = m.m20; r.a[2][1] = m.m21; r.a[2][2] = m.m22; r.a[2][3] = m.m23;
    r.a[3][0] = m.m30; r.a[3][1] = m.m31; r.a[3][2] = m.m32; r.a[3][3] = m.m33;
    for(int i = 0; i<16; i++) if(v[i] != r.a[i/4][i%4]) vt::violation("mat-to_array", "element %d", i);
    return r;
}
static M mul(const M& x, const M& y)
{
    M r;
    for(int i = 0; i<4; i++) for(int j = 0; j<4; j++) { r.a[i][j] = 0; for(int k = 0; k<4; k++) r.a[i][j] += x.a[i][k]*y.a[k][j]; }
    return r;
}
static M absm(M x) { for(auto& r : x.a) for(auto& v : r) v = std::fabs(v); return x; }
static void chkm(const char* what, const M& g, const M& w, const M& mag, double k = 1)
{
    vt::count(std::string("compared:")+what);
    for(int i = 0; i<4; i++)
        for(int j = 0; j<4; j++)
            if(!close1(g.a[i][j], w.a[i][j], k*mag.a[i][j]))
            {
                vt::violation(std::string("mat-")+what, "%s element %d%d got %.9g want %.9g", what, i, j, g.a[i][j], w.a[i][j]);
                return;
            }
}
static M ident() { M m; memset(&m, 0, sizeof m); for(int i = 0; i<4; i++) m.a[i][i] = 1; return m; }
static M rotd(int axis, double v)
{
    M m = ident(); double s = std::sin(v), c = std::cos(v); int i = (axis+1)%3, j = (axis+2)%3;
    m.a[i][i] = c; m.a[i][j] = -s; m.a[j][i] = s; m.a[j][j] = c; return m;
}
static void matrices(Rng& r)
{
    float v1[16], v2[16];
    for(int i = 0; i<16; i++) { v1[i] = rf(r); v2[i] = rf(r); }
    Matrix4 a(v1), b(v2);
    M A = mm(a), B = mm(b);
    for(int i = 0; i<16; i++) if(A.a[i/4][i%4] != v1[i]) vt::violation("mat-ctor", "element %d", i);
    M S = A, Dm = A, mag = absm(A), AB = absm(B);
    for(int i = 0; i<4; i++) for(int j = 0; j<4; j++) { S.a[i][j] += B.a[i][j]; Dm.a[i][j] -= B.a[i][j]; mag.a[i][j] += AB.a[i][j]; }
    Matrix4 c;
    chkm("add", mm(a+b), S, mag); c = a; c += b; chkm("add=", mm(c), S, mag); ::sum(&a, &b, &c); chkm("add-free", mm(c), S, mag);
    chkm("sub", mm(a-b), Dm, mag); c = a; c -= b; chkm("sub=", mm(c), Dm, mag); ::sub(&a, &b, &c); chkm("sub-free", mm(c), Dm, mag);
    M P = mul(A, B), PM = mul(absm(A), absm(B));
    chkm("mul", mm(a*b), P, PM); c = a; c *= b; chkm("mul=", mm(c), P, PM); ::mul(&a, &b, &c); chkm("mul-free", mm(c), P, PM);
    Matrix4 t; a.transpose(&t); M T; for(int i = 0; i<4; i++) for(int j = 0; j<4; j++) T.a[i][j] = A.a[j][i];
    chkm("transpose", mm(t), T, ident(), 0);
    if(!(a == a) || a != a) vt::violation("mat-eq", "a==a");
    float v3[16]; memcpy(v3, v1, sizeof v3); int k = r.irange(0, 15); v3[k] += std::max(1e-2f, std::fabs(v3[k])*1e-2f);
    Matrix4 d(v3); if(a == d || !(a != d)) vt::violation("mat-eq2", "matrices differing in element %d compare equal", k);
    // constructors of placements
    Vec3 tr(rf(r), rf(r), rf(r)), sc((float)r.logrange(1e-3, 1e4)*(r.chance(.2)?-1:1), (float)r.logrange(1e-3, 1e4), (float)r.logrange(1e-3, 1e4));
    if(r.chance(.5)) sc = Vec3(sc.y, sc.y, sc.y);
    else if(r.chance(.6)) sc = Vec3(r.rangef(.1f, 10), r.rangef(.1f, 10), r.rangef(-10, -.1f));
    float ax = r.rangef(-7, 7), ay = r.rangef(-7, 7), az = r.rangef(-7, 7);
    Matrix4 mt, ms, mx, my, mz, mi, mu;
    mt.set_translation(tr); ms.set_scale(sc); mx.set_rotate_x(ax); my.set_rotate_y(ay); mz.set_rotate_z(az); mi.set_identity(); mu.set_scale(sc.y);
    M wt = ident(); wt.a[0][3] = tr.x; wt.a[1][3] = tr.y; wt.a[2][3] = tr.z; chkm("translation", mm(mt), wt, ident(), 0);
    M ws = ident(); ws.a[0][0] = sc.x; ws.a[1][1] = sc.y; ws.a[2][2] = sc.z; chkm("scale", mm(ms), ws, ident(), 0);
    M wu = ident(); wu.a[0][0] = wu.a[1][1] = wu.a[2][2] = sc.y; chkm("uscale", mm(mu), wu, ident(), 0);
    chkm("identity", mm(mi), ident(), ident(), 0);
    M one; for(auto& q : one.a) for(auto& w : q) w = 1;
    chkm("rotx", mm(mx), rotd(0, ax), one, 4); chkm("roty", mm(my), rotd(1, ay), one, 4); chkm("rotz", mm(mz), rotd(2, az), one, 4);
    Vec3 gt = mt.get_translation(); chk3("get_translation", gt, dd(tr), d3(0, 0, 0));
    Matrix4 full = mt*mz*my*mx*ms;
    Vec3 gs = full.get_scale();
    chk3("get_scale", gs, d3(std::fabs(sc.x), std::fabs(sc.y), std::fabs(sc.z)), d3(4*std::fabs(sc.x), 4*std::fabs(sc.y), 4*std::fabs(sc.z)));
    M F = mm(full);
    // inverse
    Matrix4 inv; memset((void*)&inv, 0x7f, sizeof inv);
    bool ok = full.inverse(&inv);
    double smin = std::min(std::fabs(sc.x), std::min(std::fabs(sc.y), std::fabs(sc.z)));
    double smax = std::max(std::fabs(sc.x), std::max(std::fabs(sc.y), std::fabs(sc.z)));
    bool small = smin<0.03;
    if(small) vt::count("small-scale inverses");
    if(!ok)
        vt::violation(small?"inverse-refused-small":"inverse-refused", "inverse() refuses an invertible placement, scale (%g %g %g)", sc.x, sc.y, sc.z);
    else
    {
        vt::count("inverses");
        M I = mm(inv);
        // condition: rotation part conditioned smax/smin; only judge well conditioned ones tightly
        double cond = smax/smin;
        if(cond<1e3)
        {
            M LI = mul(I, F), RM = mul(absm(I), absm(F));
            chkm("inverse-left", LI, ident(), RM, 40*cond);
            // direction part exactly
            for(int i = 0; i<3; i++)
                for(int j = 0; j<3; j++)
                    if(std::fabs(LI.a[i][j]-(i == j))>2e-5*cond)
                        vt::violation("mat-inverse-3x3", "inverse*matrix element %d%d is %.9g", i, j, LI.a[i][j]);
        }
        // normals transform as covectors
        Normal n(r.rangef(-1, 1), r.rangef(-1, 1), r.rangef(-1, 1));
        Normal tn = transform_normal(n, &inv);
        D3 W = d3(I.a[0][0]*n.x+I.a[1][0]*n.y+I.a[2][0]*n.z, I.a[0][1]*n.x+I.a[1][1]*n.y+I.a[2][1]*n.z, I.a[0][2]*n.x+I.a[1][2]*n.y+I.a[2][2]*n.z);
        double mg = 3/smin; chk3("transform_normal", tn, W, d3(mg, mg, mg));
    }
    // general 4x4 (projective) inverse, well conditioned: diagonally dominant
    {
        float g[16]; for(int i = 0; i<16; i++) g[i] = r.rangef(-1, 1)+(i%5 == 0?(r.chance(.5)?4:-4):0);
        Matrix4 G(g), GI; if(!G.inverse(&GI)) vt::violation("inverse-refused", "general matrix refused");
        else { M one4; for(auto& q : one4.a) for(auto& w : q) w = 1; chkm("inverse-general", mul(mm(GI), mm(G)), ident(), one4, 20);
            chkm("inverse-general-r", mul(mm(G), mm(GI)), ident(), one4, 20); }
        float z[16]; for(int i = 0; i<16; i++) z[i] = (float)r.irange(-3, 3);
        int row = r.irange(0, 3); for(int i = 0; i<4; i++) z[row*4+i] = 0;
        Matrix4 Z(z), ZI; if(Z.inverse(&ZI)) vt::violation("inverse-singular", "a matrix with a zero row was inverted");
    }
    // applied to points, directions, rays
    Point3 p(rf(r), rf(r), rf(r)); Vec3 v(rf(r), rf(r), rf(r));
    auto app = [&](double x, double y, double z, double w, D3* mg) {
        D3 o = d3(F.a[0][0]*x+F.a[0][1]*y+F.a[0][2]*z+F.a[0][3]*w, F.a[1][0]*x+F.a[1][1]*y+F.a[1][2]*z+F.a[1][3]*w, F.a[2][0]*x+F.a[2][1]*y+F.a[2][2]*z+F.a[2][3]*w);
        M Q = absm(F); x = std::fabs(x); y = std::fabs(y); z = std::fabs(z);
        *mg = d3(Q.a[0][0]*x+Q.a[0][1]*y+Q.a[0][2]*z+Q.a[0][3]*w, Q.a[1][0]*x+Q.a[1][1]*y+Q.a[1][2]*z+Q.a[1][3]*w, Q.a[2][0]*x+Q.a[2][1]*y+Q.a[2][2]*z+Q.a[2][3]*w);
        return o; };
    D3 mg, w = app(p.x, p.y, p.z, 1, &mg); chk3("m*point", full*p, w, mg);
    D3 mg2, w2 = app(v.x, v.y, v.z, 0, &mg2); chk3("m*vec", full*v, w2, mg2);
    Ray tray = full*Ray(p, v); chk3("m*ray.o", tray.origin, w, mg); chk3("m*ray.d", tray.direction, w2, mg2);
    // projective division
    {
        float g[16]; for(int i = 0; i<16; i++) g[i] = r.rangef(-2, 2);
        Matrix4 G(g); M GM = mm(G);
        double ww = GM.a[3][0]*p.x+GM.a[3][1]*p.y+GM.a[3][2]*p.z+GM.a[3][3];
        double wm = std::fabs(GM.a[3][0]*p.x)+std::fabs(GM.a[3][1]*p.y)+std::fabs(GM.a[3][2]*p.z)+std::fabs(GM.a[3][3]);
        if(std::fabs(ww)>0.05*wm && std::fabs(ww)>0.05)
        {
            Point3 o = G*p;
            D3 g3 = d3((GM.a[0][0]*p.x+GM.a[0][1]*p.y+GM.a[0][2]*p.z+GM.a[0][3])/ww, (GM.a[1][0]*p.x+GM.a[1][1]*p.y+GM.a[1][2]*p.z+GM.a[1][3])/ww, (GM.a[2][0]*p.x+GM.a[2][1]*p.y+GM.a[2][2]*p.z+GM.a[2][3])/ww);
            double s = 40*(std::fabs(p.x)+std::fabs(p.y)+std::fabs(p.z)+1)*2/std::fabs(ww);
            chk3("m*point-proj", o, g3, d3(s, s, s));
        }
    }
    // look-at
    Point3 pos(r.rangef(-50, 50), r.rangef(-50, 50), r.rangef(-50, 50)), tgt(r.rangef(-50, 50), r.rangef(-50, 50), r.rangef(-50, 50));
    Vec3 up(r.rangef(-1, 1), r.rangef(-1, 1), r.rangef(-1, 1));
    D3 dir = d3((double)tgt.x-pos.x, (double)tgt.y-pos.y, (double)tgt.z-pos.z);
    if(up.length()>0.1f && len(dir)>1)
    {
        up.normalize();
        D3 U = dd(up); double l = len(dir); dir = d3(dir.x/l, dir.y/l, dir.z/l);
        D3 left = crossd(U, dir); double ll = len(left);
        if(ll>0.05)
        {
            left = d3(left.x/ll, left.y/ll, left.z/ll); D3 nu = crossd(dir, left);
            Matrix4 la; la.set_lookAt_inverse(pos, tgt, up);
            M w4 = ident(); double* cols[3] = {&left.x, &nu.x, &dir.x};
            for(int j = 0; j<3; j++) for(int i = 0; i<3; i++) w4.a[i][j] = cols[j][i];
            w4.a[0][3] = pos.x; w4.a[1][3] = pos.y; w4.a[2][3] = pos.z;
            M mg4; for(auto& q : mg4.a) for(auto& z : q) z = 30/ll;
            for(int i = 0; i<3; i++) mg4.a[i][3] = 1; chkm("lookat", mm(la), w4, mg4);
        }
    }
    vt::eval(vt::hash_bytes(v1, sizeof v1, vt::hash_bytes(&full, sizeof full)));
}
int main(int argc, char** argv)
{
    vt::init(argc, argv, "random vectors/points/rays/matrices (zeros, units, log-uniform magnitudes); every operation compared with its double-precision definition; placements with scales 1e-3..1e4; every case is non-trivial, distinct by its operand bits");
    long n = vt::n(40000, 1500000);
    vt::cases("vec3", n, [](Rng& r, long) { vec_common<Vec3>(r); vec3_only(r); });
    vt::cases("normal", n, [](Rng& r, long) { vec_common<Normal>(r); });
    vt::cases("vec2-points", n, [](Rng& r, long) { small(r); });
    vt::cases("matrix", n, [](Rng& r, long i) { matrices(r); if(i<8) vt::sample(vt::fmt("matrix case %ld", i)); });
    return vt::finish();
}
