// C14: area light sampling: density, distance, emission, unbiasedness against exact solid angles.
#include "gen.hpp"
#include "lights/area_light.hpp"
using namespace gen;

static double tri_solid(D3 p, D3 a, D3 b, D3 c)
{
    a = a-p; b = b-p; c = c-p; double la = len(a), lb = len(b), lc = len(c);
    double num = std::fabs(dot(a, cross(b, c))), den = la*lb*lc+dot(a, b)*lc+dot(a, c)*lb+dot(b, c)*la;
    double v = 2*std::atan2(num, den); return v<0?v+4*M_PI:v;
}
struct Surf { double t; D3 n; };      // n: outward (front) unit normal
struct Light
{
    Shape* sh; Matrix4 M; DM m; AreaLight* l; Spectrum c; double area; std::string kind; bool closed;
    std::vector<Tri> T; D3 ctr; double rad; DM inv;
    // distance of a ray that misses a flat light from its nearest edge
    double gap(D3 o, D3 dir) const
    {
        double best = 1e300;
        for(auto& t : T) for(int e = 0; e<3; e++)
        {
            D3 a = m.p(d(t.v[e].p)), b = m.p(d(t.v[(e+1)%3].p)), s = b-a, w = o-a;
            double ss = dot(s, s), ds = dot(dir, s), dw = dot(dir, w), sw = dot(s, w), den = ss-ds*ds;
            double u = den>1e-12*ss?(sw-ds*dw)/den:0; u = u<0?0:u>1?1:u;
            for(double uu : {u, 0.0, 1.0}) { D3 q = a+s*uu; double k = std::max(0.0, dot(q-o, dir)); best = std::min(best, len(o+dir*k-q)); }
        }
        return best;
    }
    // all intersections with a ray, double precision
    std::vector<Surf> hits(D3 o, D3 dir) const
    {
        std::vector<Surf> h;
        if(kind == "sphere") { D3 q = o-ctr; double b = dot(q, dir), c2 = dot(q, q)-rad*rad, D = b*b-c2; if(D>0) { D = std::sqrt(D); for(double t : {-b-D, -b+D}) h.push_back({t, unit(o+dir*t-ctr)}); } }
        else if(kind == "box")
        {
            D3 p = inv.p(o), v = inv.v(dir); double t0 = -1e30, t1 = 1e30; int a0 = 0, a1 = 0;
            for(int a = 0; a<3; a++) { double x = (0-p[a])/v[a], y = (1-p[a])/v[a]; if(x>y) std::swap(x, y); if(x>t0) t0 = x, a0 = a; if(y<t1) t1 = y, a1 = a; }
            if(t0<t1) { D3 n0, n1; n0.at(a0) = v[a0]>0?-1:1; n1.at(a1) = v[a1]>0?1:-1; h.push_back({t0, unit(inv.tv(n0))}); h.push_back({t1, unit(inv.tv(n1))}); }
        }
        else for(auto& t : T)
        {
            Tri w; for(int k = 0; k<3; k++) { w.v[k] = t.v[k]; }
            D3 a = m.p(d(t.v[0].p)), b = m.p(d(t.v[1].p)), c_ = m.p(d(t.v[2].p)); D3 e1 = b-a, e2 = c_-a, P = cross(dir, e2); double det = dot(P, e1); if(det == 0) continue;
            D3 tv = o-a; double u = dot(P, tv)/det; D3 Q = cross(tv, e1); double v = dot(dir, Q)/det; if(u<0 || v<0 || u+v>1) continue;
            h.push_back({dot(e2, Q)/det, unit(inv.tv(tri_n(t)))});
        }
        std::sort(h.begin(), h.end(), [](const Surf& x, const Surf& y) { return x.t<y.t; });
        while(!h.empty() && h[0].t<=0) h.erase(h.begin());
        return h;
    }
    double pd(const Surf& s, D3 dir) const { return s.t*s.t/(std::fabs(dot(s.n, dir))*area); }
};
static Light make_light(Rng& r, int kind)
{
    Light L; double k = r.chance(.3)?1:r.logrange(.05, 20); D3 sc(k, k, k); if(kind != 3 && kind != 4 && r.chance(.6)) sc = D3(k*r.logrange(.25, 4), k*r.logrange(.25, 4), k*r.logrange(.25, 4));
    L.m = trs(r.chance(.2)?D3():rand_in(r, -10, 10), r.range(-3, 3), r.range(-3, 3), r.range(-3, 3), sc); L.M = fm(L.m); L.m = dm(L.M); L.inv = L.m.inv(); L.closed = false;
    switch(kind)
    {
        case 0: { L.kind = "triangle"; Tri t; do t = tri(rand_in(r, -1, 1), rand_in(r, -1, 1), rand_in(r, -1, 1)); while(len(tri_n(t))<.3); L.T.push_back(t); L.sh = new Triangle(t.v[0], t.v[1], t.v[2]); break; }
        case 1: { L.kind = "quad"; double a = r.range(.3, 2), b = r.range(.3, 2); L.T = {tri(D3(-a, -b, 0), D3(a, -b, 0), D3(a, b, 0)), tri(D3(-a, -b, 0), D3(a, b, 0), D3(-a, b, 0))}; L.sh = make_mesh(L.T); break; }
        case 2: { L.kind = "panel"; int n = r.irange(2, 6); for(int x = 0; x<n; x++) { double h = r.range(.1, 1); L.T.push_back(tri(D3(x, 0, 0), D3(x+1, 0, 0), D3(x+.5, h, 0))); } L.sh = make_mesh(L.T); break; }
        case 5: { L.kind = "bent"; int n = r.irange(2, 5); D3 top(r.range(-.3, .3), r.range(.2, 1.5), r.range(-.3, .3)); double a0 = r.range(0, 6); for(int x = 0; x<n; x++) { double a = a0+x*1.25, b = a+1.25; L.T.push_back(tri(top, D3(cos(b), 0, sin(b)), D3(cos(a), 0, sin(a)))); } L.sh = make_mesh(L.T); break; }
        case 3: L.kind = "sphere"; L.sh = new Sphere; L.closed = true; L.ctr = L.m.p(D3()); L.rad = k; break;
        default: L.kind = "box"; L.sh = new Box; L.closed = true; break;
    }
    L.area = 0; for(auto& t : L.T) { D3 a = L.m.p(d(t.v[0].p)), b = L.m.p(d(t.v[1].p)), c = L.m.p(d(t.v[2].p)); L.area += .5*len(cross(b-a, c-a)); }
    if(kind == 3) L.area = 4*M_PI*k*k;
    if(kind == 4) L.area = 6*k*k;
    L.c = Spectrum(r.rangef(.1f, 10));
    L.l = new AreaLight(L.sh, L.M, L.c);
    return L;
}
static void drop(Light& L) { delete L.l; delete L.sh; }
static D3 near_point(Rng& r, const Light& L)
{
    double s = std::sqrt(L.area); D3 c = L.m.p(D3(.3, .3, 0));
    return c+rand_dir(r, false)*s*r.logrange(.3, 8);
}
int main(int argc, char** argv)
{
    vt::init(argc, argv, "area lights (triangle, quad, panel, sphere, box; any rotation, translation and uniform scale .05..20) sampled from points at .3 to 8 light sizes, in front and behind; each sample counts, distinct by random numbers and light");
    vt::cases("samples", vt::n(2000, 20000), [](Rng& r, long i) {
        Light L = make_light(r, (int)(i%5));
        for(int k = 0; k<80; k++)
        {
            D3 P = near_point(r, L); Point3 p = pt(P); P = d(p); float r0 = r.chance(.05)?0:r.uf(), r1 = r.chance(.05)?0:r.uf(); Vec3 wi(NAN, NAN, NAN); float pdf = NAN, dist = NAN;
            Spectrum s = L.l->sample_visible_surface(r0, r1, &p, &wi, &pdf, &dist);
            vt::eval(vt::hash_bytes(&r0, 4, vt::hash_bytes(&p, 12, i)));
            if(pdf == 0) { if(!s.is_black()) vt::violation("zero-pdf-emission", "%s light: pdf 0 with emission", L.kind.c_str()); vt::count("pdf 0"); continue; }
            if(!std::isfinite(pdf) || pdf<0 || !(std::fabs(len(d(wi))-1)<1e-3)) { vt::violation("not-finite", "%s light: pdf %g wi %g %g %g", L.kind.c_str(), pdf, wi.x, wi.y, wi.z); continue; }
            std::vector<Surf> h = L.hits(P, unit(d(wi)));
            if(h.empty())
            {
                // a direction to a point on the very border may miss by rounding; a real miss stays away from every edge
                vt::count("sampled past the edge"); bool near = false;
                if(!L.T.empty()) { double g = L.gap(P, unit(d(wi))); near = g<5e-3*(std::sqrt(L.area)+len(L.m.p(D3(.3, .3, 0))-P)); }
                else for(int j = 0; j<200 && !near; j++) near = !L.hits(P, unit(d(wi)+rand_in(r, -4e-3, 4e-3))).empty();
                if(!near) vt::violation("not-towards-light", "%s light: sampled direction misses the light", L.kind.c_str());
                continue;
            }
            double cs = std::fabs(dot(h[0].n, unit(d(wi)))); bool front = dot(h[0].n, d(wi))<0;
            if(cs<.02) { vt::count("grazing"); continue; }
            // close to an edge, the float intersection may see the next surface: only judge clear directions
            bool clear = true; for(int j = 0; j<24 && clear; j++) { auto h2 = L.hits(P, unit(d(wi)+rand_in(r, -2e-3, 2e-3))); clear = h2.size() == h.size() && std::fabs(h2[0].t/h[0].t-1)<.1 && len(h2[0].n-h[0].n)<.2; }
            if(!clear || h[0].t<std::max(.02, .05*std::sqrt(L.area))) { vt::count("edge"); continue; }
            double want = L.pd(h[0], unit(d(wi)));
            if(!(std::fabs(dist/h[0].t-1)<5e-3)) vt::violation("distance", "%s light (area %g): distance %g, the light is at %g", L.kind.c_str(), L.area, dist, h[0].t);
            if(!(std::fabs(pdf/want-1)<.02+1e-3/cs)) vt::violation("density", "%s light (area %g): density %g, distance^2/(cos area) is %g (distance %g, cos %g)", L.kind.c_str(), L.area, pdf, want, h[0].t, cs);
            float q = L.l->pdf(&p, &wi);
            if(!(std::fabs(q/pdf-1)<.02+2e-3/cs)) vt::violation("density-query", "%s light: sampling says %g, query says %g", L.kind.c_str(), pdf, q);
            double e = front?L.c.w[0]:0;
            for(int a = 0; a<3; a++) if(!(std::fabs(s.w[a]-e)<=1e-5*e)) { vt::violation(front?"front-dark":"back-emits", "%s light: emission %g on its %s", L.kind.c_str(), s.w[a], front?"front":"back"); break; }
            vt::count(front?"front samples":"back samples");
        }
        // density query in arbitrary directions
        for(int k = 0; k<40; k++)
        {
            D3 P = near_point(r, L); D3 tg = L.m.p(rand_in(r, -1, 1)), dir = unit(tg-P); Point3 p = pt(P); Vec3 wi = vec(dir); P = d(p); dir = unit(d(wi));
            float q = L.l->pdf(&p, &wi); std::vector<Surf> h = L.hits(P, dir);
            bool clear = true; for(int j = 0; j<24 && clear; j++) { auto h2 = L.hits(P, unit(dir+rand_in(r, -2e-3, 2e-3))); clear = h2.size() == h.size() && (h.empty() || (std::fabs(h2[0].t/h[0].t-1)<.1 && len(h2[0].n-h[0].n)<.2)); }
            vt::eval(vt::hash_bytes(&p, 12, vt::hash_bytes(&wi, 12)));
            if(!clear || (!h.empty() && (h[0].t<std::max(.02, .05*std::sqrt(L.area)) || std::fabs(dot(h[0].n, dir))<.02))) continue;
            double want = h.empty()?0:L.pd(h[0], dir);
            if(!(std::fabs(q-want)<=(.02+(h.empty()?0:2e-3/std::fabs(dot(h[0].n, dir))))*want)) vt::violation("query", "%s light: density %g, expected %g, t=%g cos=%g area=%g", L.kind.c_str(), q, want, h.empty()?0:h[0].t, h.empty()?0:dot(h[0].n, dir), L.area);
            vt::count(h.empty()?"queries past the light":"queries at the light");
        }
        drop(L);
    });
    vt::cases("unbiased", vt::n(300, 3000), [](Rng& r, long i) {
        Light L = make_light(r, (int)(i%6)); D3 P = near_point(r, L); Point3 p = pt(P); P = d(p);
        double sz = std::sqrt(L.area);
        // stay away from the light's own plane and surface: finite variance
        auto exact = [&]() -> double {
            if(L.kind == "sphere") { double D = len(P-L.ctr); return D<=L.rad?0:2*M_PI*(1-std::sqrt(1-L.rad*L.rad/D/D)); }
            if(L.kind == "box") return -1;
            double o = 0; for(auto& t : L.T) { D3 a = L.m.p(d(t.v[0].p)); if(dot(unit(L.inv.tv(tri_n(t))), P-a)>0) o += tri_solid(P, a, L.m.p(d(t.v[1].p)), L.m.p(d(t.v[2].p))); } return o; };
        if(L.kind == "bent") { bool out = true; double closest = 1e9; for(int tries = 0; tries<40; tries++) { out = true; closest = 1e9; for(auto& t : L.T) { double h = dot(unit(L.inv.tv(tri_n(t))), P-L.m.p(d(t.v[0].p))); if(h<=0) out = false; closest = std::min(closest, h/sz); } if(out && closest>.15) break; P = near_point(r, L); p = pt(P); P = d(p); out = false; } if(!out) { drop(L); return; } vt::count("irradiance integrals, bent lamps"); }
        double W = exact(); const long N = 6000;
        double pl = 1; if(!L.closed) pl = std::fabs(dot(unit(L.inv.tv(tri_n(L.T[0]))), P-L.m.p(d(L.T[0].v[0].p))))/sz;
        if((L.kind == "sphere" && (std::fabs(len(P-L.ctr)-L.rad)<.2*L.rad || L.rad<.2)) || pl<.25 || L.area<.05) { drop(L); return; }
        if(L.kind == "box") { D3 q = L.inv.p(P)-D3(.5, .5, .5); if(std::max(std::fabs(q.x), std::max(std::fabs(q.y), std::fabs(q.z)))<.8 || L.area<.5) { drop(L); return; } }
        double sum = 0, s2 = 0;
        for(long k = 0; k<N; k++)
        {
            Vec3 wi; float pdf = 0, dist; Spectrum s = L.l->sample_visible_surface(r.uf(), r.uf(), &p, &wi, &pdf, &dist);
            double v = pdf>0?s.w[0]/L.c.w[0]/pdf:0; sum += v; s2 += v*v;
        }
        double mean = sum/N, sd = std::sqrt(std::max(0.0, s2/N-mean*mean)/N);
        // what the directions and the nearest-surface density give in exact arithmetic, over the whole light
        double theory = 0, omega = 0;
        if(L.closed)
        {
            D3 c = L.kind == "sphere"?L.ctr:L.m.p(D3(.5, .5, .5)); double R = L.kind == "sphere"?L.rad:std::sqrt(L.area/6*3)/2, D = len(P-c);
            if(D<1.1*R) { drop(L); return; } { double cm = std::sqrt(1-R*R/D/D); D3 z = unit(c-P), x = unit(std::fabs(z.x)<.8?cross(z, D3(1, 0, 0)):cross(z, D3(0, 1, 0))), y = cross(z, x); int G = 300;
                for(int a = 0; a<G; a++) for(int b = 0; b<G; b++) { double cz = cm+(1-cm)*(a+.5)/G, sz_ = std::sqrt(1-cz*cz), ph = 2*M_PI*(b+.5)/G; D3 w = z*cz+x*(sz_*cos(ph))+y*(sz_*sin(ph)); auto h = L.hits(P, w); double dw = 2*M_PI*(1-cm)/G/G; if(h.empty()) continue; omega += dw; } }
            // the reported density is the nearest surface's, whichever point was drawn: average its inverse over the whole surface
            const int G = L.kind == "sphere"?150:60; const int F = L.kind == "sphere"?1:6;
            for(int f = 0; f<F; f++) for(int a = 0; a<G; a++) for(int b = 0; b<G; b++)
            {
                double u = (a+.5)/G, v = (b+.5)/G; D3 q;
                if(F == 1) { double z = 1-2*u, s = std::sqrt(1-z*z); q = D3(s*cos(2*M_PI*v), s*sin(2*M_PI*v), z); }
                else { q.at(f>>1) = f&1; q.at(((f>>1)+1)%3) = u; q.at(((f>>1)+2)%3) = v; }
                D3 w = unit(L.m.p(q)-P); auto h = L.hits(P, w); if(!h.empty()) theory += 1/L.pd(h[0], w)/(double(F)*G*G);
            }
            if(L.kind == "box") W = omega;
        }
        vt::eval(i); vt::count(W>0?"irradiance integrals":"irradiance integrals, behind");
        double tol = 6*sd+2e-3*W+1e-9;
        if(std::fabs(mean-W)<=tol+(L.kind == "box"?.01*W:0)) { vt::maxi("largest |z|, unbiased", sd>0?std::fabs(mean-W)/sd:0); return; }
        if(L.closed && std::fabs(mean-theory)<=tol+.02*theory) { vt::violation("closed-light-counted-twice", "%s light seen from %g radii: average of emission/density is %.5g +- %.2g, true solid angle %.5g: directions of hidden surface points are drawn too but not in the reported density (predicts %.5g)", L.kind.c_str(), len(P-L.m.p(D3()))/std::sqrt(L.area), mean, sd, W, theory); return; }
        vt::violation("biased", "%s light: average of emission/density %.6g +- %.2g, true solid angle %.6g", L.kind.c_str(), mean, sd, W);
    });
    // rays leaving the light
    vt::cases("emit", vt::n(200, 2000), [](Rng& r, long i) {
        Light L = make_light(r, (int)(i%5)); std::vector<long> obs(32, 0); long n = 0;
        for(int k = 0; k<3000; k++)
        {
            Ray o; float pdf = NAN; Spectrum s = L.l->sample_surface(r.uf(), r.uf(), r.uf(), r.uf(), &o, &pdf);
            D3 P = d(o.origin), w = unit(d(o.direction)); D3 N; double off = 1e30, sz = std::sqrt(L.area);
            if(L.kind == "sphere") { off = std::fabs(len(P-L.ctr)-L.rad); N = unit(P-L.ctr); }
            else if(L.kind == "box") { D3 q = L.inv.p(P); for(int a = 0; a<3; a++) for(int e = 0; e<2; e++) if(std::fabs(q[a]-e)<off) { bool in = true; for(int b = 0; b<3; b++) if(q[b]<-1e-3 || q[b]>1+1e-3) in = false; if(in) { off = std::fabs(q[a]-e); N = D3(); N.at(a) = e?1:-1; N = unit(L.inv.tv(N)); } } off *= sz; }
            else { N = unit(L.inv.tv(tri_n(L.T[0]))); off = std::fabs(dot(N, P-L.m.p(d(L.T[0].v[0].p)))); }
            if(!(off<1e-3*sz+1e-4)) { vt::violation("emit-off", "%s light: ray starts %g off the surface", L.kind.c_str(), off); break; }
            double cs = dot(N, w); if(L.kind == "box" && cs<0) { D3 q = L.inv.p(P); int faces = 0; for(int a = 0; a<3; a++) if(std::fabs(q[a])<1e-3 || std::fabs(q[a]-1)<1e-3) faces++; if(faces>1) continue; }
            if(!(cs>-1e-3)) { vt::violation("emit-inwards", "%s light: ray leaves through the back (cos %g)", L.kind.c_str(), cs); break; }
            if(!(std::fabs(pdf*L.area*2*M_PI-1)<1e-3) || !(std::fabs(L.l->pdf(&o)/pdf-1)<1e-4)) { vt::violation("emit-pdf", "%s light: pdf %g, area %g", L.kind.c_str(), pdf, L.area); break; }
            if(s.w[0] != L.c.w[0]) { vt::violation("emit-radiance", "emits %g instead of %g", s.w[0], L.c.w[0]); break; }
            obs[std::min(31, (int)(cs*32))]++; n++;
        }
        double c = 0; for(long x : obs) c += (x-n/32.0)*(x-n/32.0)/(n/32.0); double z = vt::chi2_z(c, 31); vt::eval(i); vt::maxi("emitted direction chi2 z", z);
        if(n>2900 && z>6.5) vt::violation("emit-distribution", "%s light: emitted directions not uniform over the hemisphere (%.1f)", L.kind.c_str(), z);
        if(!(L.l->emissive_spectrum().w[0] == L.c.w[0])) vt::violation("emission", "emission not kept");
        if(!L.l->is_light()) vt::violation("is-light", "a light says it is none");
        drop(L);
    });
    return vt::finish();
}
