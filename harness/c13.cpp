// C13: surface area and uniform surface sampling of shapes.
#include "gen.hpp"
using namespace gen;

static double tri_area(D3 a, D3 b, D3 c) { return .5*len(cross(b-a, c-a)); }
static double wtri_area(const DM& m, const Tri& t) { return tri_area(m.p(d(t.v[0].p)), m.p(d(t.v[1].p)), m.p(d(t.v[2].p))); }
static float rnd01(Rng& r)
{
    int k = r.irange(0, 40);
    if(k == 0) return 0.f;
    if(k == 1) return 0.99999994f;
    if(k == 2) return 1e-7f;
    if(k == 3) return 0.5f;
    return r.uf();
}
static bool fin(const Point3& p) { return std::isfinite(p.x) && std::isfinite(p.y) && std::isfinite(p.z); }
static double chi2z(const std::vector<double>& exp_, const std::vector<long>& obs)
{
    // cells with small expectation are merged
    double c = 0, e = 0; long o = 0; int dof = -1; double n = 0;
    for(long x : obs) n += x;
    for(size_t i = 0; i<exp_.size(); i++)
    {
        if(exp_[i] == 0 && obs[i]>0) return 1e6;
        e += exp_[i]*n; o += obs[i];
        if(e>=15) { c += (o-e)*(o-e)/e; dof++; e = 0; o = 0; }
    }
    if(e>5) { c += (o-e)*(o-e)/e; dof++; }
    return dof<1?0:vt::chi2_z(c, dof);
}
// barycentric coordinates of p in the plane of T; returns distance to the plane
static double bary(D3 p, D3 a, D3 b, D3 c, double& u, double& v, double& w)
{
    D3 n = cross(b-a, c-a); double A = dot(n, n);
    if(!(A>0)) return 1e30;
    u = dot(cross(c-b, p-b), n)/A; v = dot(cross(a-c, p-c), n)/A; w = 1-u-v;
    return std::fabs(dot(p-a, n))/std::sqrt(A);
}
static int quarter(double u, double v, double w) { return u>.5?0:v>.5?1:w>.5?2:3; } // four equal-area quarters
static void area_check(const char* what, double got, double want, double rel, double abs_ = 1e-12)
{
    if(!(std::fabs(got-want)<=rel*want+abs_)) vt::violation(std::string("area-")+what, "surface %.9g, true area %.9g", got, want);
}
static void mesh_case(Rng& r, long i, int n, long samples, bool stats)
{
    int kind = (int)(i%MESH_KINDS);
    std::vector<Tri> T = rand_tris(r, n, kind);
    if(r.chance(.4)) for(auto& t : T) { double k = r.logrange(.02, 5); D3 c = d(t.v[0].p); for(int j = 1; j<3; j++) t.v[j].p = pt(c+(d(t.v[j].p)-c)*k); }
    double tot = 0; for(auto& t : T) tot += wtri_area(trs(D3(), 0, 0, 0, D3(1, 1, 1)), t);
    if(tot<=0) return;
    Mesh* m = make_mesh(T);
    bool uni = r.chance(.6); DM pm = rand_place(r, uni, .1, 10, 20); Matrix4 M; if(r.chance(.3)) { M.set_identity(); } else M = fm(pm); pm = dm(M);
    std::vector<double> A; double W = 0; for(auto& t : T) { A.push_back(wtri_area(pm, t)); W += A.back(); }
    if(m->get_faces_number() != T.size()) vt::violation("faces", "%u faces of %zu", m->get_faces_number(), T.size());
    double relt = 1e-3;
    double ext = 0; for(auto& t : T) for(auto& v : t.v) ext = std::max(ext, len(d(v.p))); double wk = W/tot; area_check("mesh-local", m->surface(), tot, relt, 1e-6*ext*std::sqrt(tot)*T.size()); area_check("mesh-world", m->surface(&M), W, relt, wk*1e-6*ext*std::sqrt(tot)*T.size());
    // exactly as many entries as faces: anything past them is a memory error
    float* dens = (float*)malloc(sizeof(float)*m->get_faces_number()); m->get_densities_array(&M, dens);
    std::vector<long> obs(T.size()*4, 0); std::vector<double> ex; for(double a : A) for(int k = 0; k<4; k++) ex.push_back(a/4/W);
    double sc = 1; for(auto& t : T) for(auto& v : t.v) sc = std::max(sc, len(d(v.p)));
    bool dup = kind == DUPLICATES || kind == GRID_PLANE;
    long located = 0;
    for(long k = 0; k<samples; k++)
    {
        float r0 = stats?r.uf():rnd01(r), r1 = stats?r.uf():rnd01(r);
        Point3 p(NAN, NAN, NAN); Normal nn(NAN, NAN, NAN); m->sample_point(r0, r1, dens, &p, &nn);
        if(!stats) vt::eval(vt::hash_bytes(&r0, 4, vt::hash_bytes(&r1, 4, i)));
        if(!fin(p)) { vt::violation("mesh-nan", "sample (%.9g, %.9g) of a mesh of %zu faces is not a point", r0, r1, T.size()); break; }
        D3 q = d(p); int best = -1; double bd = 1e30, bu = 0, bv = 0, bw = 0; bool nok = false; D3 N(nn.x, nn.y, nn.z);
        for(size_t t = 0; t<T.size(); t++)
        {
            double u, v, w; double dist = bary(q, d(T[t].v[0].p), d(T[t].v[1].p), d(T[t].v[2].p), u, v, w);
            double size = std::sqrt(len(tri_n(T[t]))); double tol = 1e-5*sc+1e-4*size;
            D3 e = tri_n(T[t]); double lmax = std::max(len(d(T[t].v[1].p)-d(T[t].v[0].p)), std::max(len(d(T[t].v[2].p)-d(T[t].v[0].p)), len(d(T[t].v[2].p)-d(T[t].v[1].p)))); double hmin = len(e)/std::max(lmax, 1e-30);
            if(!(dist<tol)) continue;
            double m_ = std::min(std::min(u, v), w);
            if(m_<-(tol/std::max(hmin, 1e-12))-1e-4) continue;
            double score = -m_; // most interior wins
            if(score<bd) { bd = score; best = (int)t; bu = u; bv = v; bw = w; }
            if(len(N-unit(e))<2e-2) nok = true;
            if(hmin<1e-3*sc) nok = true;    // slivers: the computed normal is not reliable
        }
        if(best<0) { vt::violation("mesh-off-surface", "sample (%.9g, %.9g) = (%g %g %g) lies on no face (%s, %zu faces)", r0, r1, p.x, p.y, p.z, mesh_kind_name(kind), T.size()); break; }
        if(!nok) { vt::violation("mesh-normal", "normal (%g %g %g) is not that of a face at the sampled point", nn.x, nn.y, nn.z); break; }
        if(stats && !dup) { obs[best*4+quarter(bu, bv, bw)]++; located++; }
    }
    free(dens);
    if(stats && !dup)
    {
        vt::eval(i+n*100000); vt::count("mesh distributions");
        double z = chi2z(ex, obs); vt::maxi("mesh chi2 z", z);
        if(z>6.5) vt::violation("mesh-uniformity", "chi-square deviate %.1f: %zu faces (%s), %ld samples", z, T.size(), mesh_kind_name(kind), located);
    }
    if(i<2) vt::sample(vt::fmt("%s mesh, %zu faces, area %g, %ld samples", mesh_kind_name(kind), T.size(), W, samples));
    delete m;
}
int main(int argc, char** argv)
{
    vt::init(argc, argv, "sampled points of spheres, boxes, triangles and meshes (1..300 faces of very unequal areas), local and placed, random numbers include 0 and the largest float below 1; distribution cases count once each, distinct by shape");
    vt::cases("triangle", vt::n(300, 3000), [](Rng& r, long i) {
        Tri T = rand_tris(r, 1, SOUP)[0]; Triangle t(T.v[0], T.v[1], T.v[2]);
        D3 a = d(T.v[0].p), b = d(T.v[1].p), c = d(T.v[2].p); double A = tri_area(a, b, c);
        if(A<1e-4) return;
        area_check("triangle", t.surface(), A, 1e-4);
        DM pm = rand_place(r, r.chance(.6), .1, 10, 20); Matrix4 M = fm(pm); pm = dm(M);
        area_check("triangle-world", t.surface(&M), wtri_area(pm, T), 2e-4);
        if(t.get_faces_number() != 1) vt::violation("faces", "a triangle has %u faces", t.get_faces_number());
        float dens[1]; t.get_densities_array(&M, dens);
        std::vector<long> obs(16, 0); std::vector<double> ex(16, 1/16.0);
        for(int k = 0; k<4000; k++)
        {
            float r0 = k<400?rnd01(r):r.uf(), r1 = k<400?rnd01(r):r.uf(); Point3 p; Normal n; t.sample_point(r0, r1, dens, &p, &n);
            double u, v, w, dist = bary(d(p), a, b, c, u, v, w);
            double m_ = std::min(std::min(u, v), w), sz = len(b-a)+len(c-a), tol = 1e-5*(sz+len(a)); double hmin = 2*A/std::max(std::max(len(b-a), len(c-a)), len(c-b));
            if(!(dist<tol) || !(m_>-tol/hmin-1e-4)) { vt::violation("triangle-off", "(%g, %g): barycentric %g %g %g, %g off the plane", r0, r1, u, v, w, dist); break; }
            if(len(d(n)-unit(tri_n(T)))>1e-2 && hmin>1e-3*sz) { vt::violation("triangle-normal", "normal %g %g %g", n.x, n.y, n.z); break; }
            int q = quarter(u, v, w); double uu = u, vv = v, ww = w;
            if(q == 0) uu = 2*u-1, vv = 2*v, ww = 2*w; else if(q == 1) uu = 2*u, vv = 2*v-1, ww = 2*w; else if(q == 2) uu = 2*u, vv = 2*v, ww = 2*w-1; else uu = 1-2*u, vv = 1-2*v, ww = 1-2*w;
            if(k>=400) obs[q*4+quarter(uu, vv, ww)]++;
        }
        double z = chi2z(ex, obs); vt::maxi("triangle chi2 z", z); vt::eval(i);
        if(z>6.5) vt::violation("triangle-uniformity", "chi-square deviate %.1f", z);
    });
    vt::cases("sphere", vt::n(100, 1000), [](Rng& r, long i) {
        Sphere s; double k = r.logrange(.05, 20); DM pm = trs(rand_in(r, -5, 5), r.range(-3, 3), r.range(-3, 3), r.range(-3, 3), D3(k, k, k)); Matrix4 M = fm(pm);
        area_check("sphere", s.surface(), 4*M_PI, 1e-5); area_check("sphere-world", s.surface(&M), 4*M_PI*k*k, 1e-4);
        float dens[4]; s.get_densities_array(&M, dens); std::vector<long> obs(64, 0), obs2(64, 0); std::vector<double> ex(64, 1/64.0);
        for(int q = 0; q<8000; q++)
        {
            float r0 = q<400?rnd01(r):r.uf(), r1 = q<400?rnd01(r):r.uf(); Point3 p; Normal n; s.sample_point(r0, r1, dens, &p, &n);
            if(!(std::fabs(len(d(p))-1)<1e-4) || !(len(d(n)-d(p))<1e-4)) { vt::violation("sphere-off", "(%.9g, %.9g) -> (%g %g %g), normal (%g %g %g)", r0, r1, p.x, p.y, p.z, n.x, n.y, n.z); break; }
            if(q<400) continue;
            auto cell = [](double z, double a, double b) { int x = std::min(7, (int)((z+1)*4)), y = std::min(7, (int)((atan2(a, b)/M_PI+1)*4)); return x*8+y; };
            obs[cell(p.z, p.x, p.y)]++; obs2[cell(p.x, p.y, p.z)]++;
        }
        double z = std::max(chi2z(ex, obs), chi2z(ex, obs2)); vt::maxi("sphere chi2 z", z); vt::eval(i);
        if(z>6.5) vt::violation("sphere-uniformity", "chi-square deviate %.1f", z);
    });
    vt::cases("box", vt::n(200, 2000), [](Rng& r, long i) {
        Box b; D3 s(r.logrange(.1, 10), r.logrange(.1, 10), r.logrange(.1, 10)); if(r.chance(.3)) s = D3(1, 1, 1)*s.x;
        DM pm = trs(rand_in(r, -5, 5), r.range(-3, 3), r.range(-3, 3), r.range(-3, 3), s); Matrix4 M = fm(pm);
        area_check("box", b.surface(), 6, 1e-5); double W = 2*(s.x*s.y+s.y*s.z+s.x*s.z); area_check("box-world", b.surface(&M), W, 1e-4);
        unsigned nf = b.get_faces_number(); float* dens = (float*)malloc(sizeof(float)*nf); b.get_densities_array(&M, dens);
        double fa[6] = {s.y*s.z, s.y*s.z, s.x*s.z, s.x*s.z, s.x*s.y, s.x*s.y}; std::vector<double> ex; for(double a : fa) for(int k = 0; k<4; k++) ex.push_back(a/4/W);
        std::vector<long> obs(24, 0);
        for(int q = 0; q<8000; q++)
        {
            float r0 = q<400?rnd01(r):r.uf(), r1 = q<400?rnd01(r):r.uf(); Point3 p; Normal n; b.sample_point(r0, r1, dens, &p, &n);
            D3 P = d(p), N = d(n); int f = -1; bool in = true;
            for(int a = 0; a<3; a++) { if(!(P[a]>-1e-4 && P[a]<1+1e-4)) in = false; }
            for(int a = 0; a<3; a++) { D3 e; e.at(a) = 1; if(std::fabs(P[a]-1)<1e-4 && len(N-e)<1e-4) f = a*2+1; e.at(a) = -1; if(std::fabs(P[a])<1e-4 && len(N-e)<1e-4) f = a*2; }
            if(!in || f<0) { vt::violation("box-off", "(%.9g, %.9g) -> (%g %g %g), normal (%g %g %g)", r0, r1, p.x, p.y, p.z, n.x, n.y, n.z); break; }
            if(q>=400) { int a = f/2, x = P[(a+1)%3]>.5, y = P[(a+2)%3]>.5; obs[f*4+x*2+y]++; }
        }
        free(dens);
        double z = chi2z(ex, obs); vt::maxi("box chi2 z", z); vt::eval(i);
        if(z>6.5) vt::violation("box-uniformity", "chi-square deviate %.1f (sides %g %g %g)", z, s.x, s.y, s.z);
    });
    vt::cases("mesh", vt::n(600, 8000), [](Rng& r, long i) { mesh_case(r, i, i%7 == 0?r.irange(1, 3):r.irange(1, 120), 200, false); });
    vt::cases("mesh-distribution", vt::n(160, 2000), [](Rng& r, long i) { int n = i%3 == 0?r.irange(1, 4):r.irange(2, 40); mesh_case(r, i, n, 4000+n*200, true); });
    vt::cases("mesh-large", vt::n(4, 40), [](Rng& r, long i) { mesh_case(r, i, r.irange(2000, 20000), 300, false); });
    // no area at all: sampling cannot be uniform, but has to come back
    vt::cases("no-area", vt::n(24, 60), [](Rng& r, long i) {
        int n = r.irange(1, 9); float r0 = rnd01(r), r1 = rnd01(r);
        vt::Outcome o = vt::forked([&]() { std::vector<Tri> T(n, tri(D3(1, 1, 1), D3(1, 1, 1), D3(1, 1, 1))); Mesh* m = make_mesh(T); Matrix4 M; M.set_identity(); float* f = (float*)malloc(4*n); m->get_densities_array(&M, f); Point3 p(0, 0, 0); Normal q; m->sample_point(r0, r1, f, &p, &q); free(f); delete m; return 0; }, 10);
        vt::eval(i); if(!o.exited || o.code) vt::violation("no-area-"+o.what(), "mesh of %d faces without area: %s %.800s", n, o.what().c_str(), o.err.c_str());
    });
    return vt::finish();
}
