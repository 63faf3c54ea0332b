// C17: microfacet distributions, Fresnel terms, specular directions and dispersion formulas, against their published definitions.
#include "mats.hpp"
using namespace mats;
static Vec3 fv(D3 v) { return Vec3((float)v.x, (float)v.y, (float)v.z); }
static D3 local(Rng& r) { int k = r.irange(0, 9); D3 v = unit(rand_dir(r, false)); if(k == 0) return D3(0, 0, r.chance(.5)?1:-1); if(k == 1) { v.z *= .03; return unit(v); } if(k == 2) { v.x *= .05; v.y *= .05; return unit(v); } if(k == 3) { double s = r.chance(.5)?1:-1; return r.chance(.5)?D3(s, 0, 0):unit(D3(.1*s, 0, 1)); } return v; }
static float rnd(Rng& r) { int k = r.irange(0, 29); return k == 0?0.f:k == 1?0.99999994f:k == 2?.5f:k == 3?1e-7f:k == 4?.25f:r.uf(); }
static double cosine(Rng& r) { int k = r.irange(0, 11); return k == 0?0.:k == 1?1.:k == 2?r.logrange(1e-6, 1e-2):k == 3?1-r.logrange(1e-6, 1e-2):r.u(); }
static double index(Rng& r) { int k = r.irange(0, 4); return k == 0?1.:k == 1?1.5:k == 2?1+r.logrange(1e-4, 1e-1):r.range(1, 3); }
// reflectance as far as single precision sines decide it
static void frband(double c, double eo, double en, double& lo, double& hi)
{
    lo = 2; hi = -1; double s0 = std::sqrt(std::max(0., 1-c*c)); for(double e : {-4e-7, -2e-7, -1e-7, 0., 1e-7, 2e-7, 4e-7}) for(double g : {-1e-7, 0., 1e-7}) { double s = eo/en*(s0*(1+g)+(s0<.01?e:e*s0)), x = 1; if(s<1) { double ct = std::sqrt(1-s*s), a = (eo*c-en*ct)/(eo*c+en*ct), b = (en*c-eo*ct)/(en*c+eo*ct); x = (a*a+b*b)/2; } lo = std::min(lo, x); hi = std::max(hi, x); } lo -= 2e-5; hi += 2e-5;
}
int main(int argc, char** argv)
{
    vt::init(argc, argv, "microfacet distributions of all four kinds, roughness .001 to 1, half vectors and directions from normal to grazing on both sides, random numbers including 0, 1/2 and the largest below 1; refractive indices 1 to 3 either way, cosines 0 to 1 both inclusive, all metals; counted by distribution and direction");
    // density of microfacets, masking, sampled half vectors: pointwise
    vt::cases("microfacets", vt::n(8000, 80000), [](Rng& r, long idx) {
        Dist ds = rand_dist(r, .001); std::unique_ptr<MicrofacetDist> m(ds.make()); std::string nm = ds.str(); double ro = ds.rough(); int PQ = ds.k == BECKMANN?Q_BECK:ds.k == ANISO?Q_ANISO0:ds.k == BLINN?Q_BLINNPDF:0, GQ = ds.k == GGX?Q_GGXG:ds.k == ANISO?(Q_ANISO_O | Q_ANISO_I):0;
        for(int k = 0; k<24; k++)
        {
            D3 h = r.chance(.5)?local(r):ds.sample(r)*(r.chance(.5)?1:-1); D3 o = local(r), i = local(r); if(i.z*o.z<0 && r.chance(.7)) i.z = -i.z; Vec3 hv = fv(h), ov = fv(o), iv = fv(i); h = d(hv); Vec3 hm(-hv.x, -hv.y, -hv.z), hr(-hv.x, -hv.y, hv.z);
            vt::eval(vt::hash_bytes(&hv, sizeof hv, idx)); vt::count("microfacet densities");
            double D = m->D(&hv), Dm = m->D(&hm), Dr = m->D(&hr); if(!(std::isfinite(D) && D>=0)) { vt::violation("bad-microfacet-density", "%s h %.7g %.7g %.7g: %g", nm.c_str(), h.x, h.y, h.z, D); continue; }
            if(std::fabs(D-Dm)>1e-5*D || std::fabs(D-Dr)>1e-5*D) vt::violation("microfacet-density-asymmetric", "%s h %.7g %.7g %.7g: %g, mirrored %g and %g", nm.c_str(), h.x, h.y, h.z, D, Dm, Dr);
            auto band = [&](auto fn, double& lo, double& hi) { lo = 1e300; hi = -1e300; for(double e : {-4e-7, -2e-7, -1e-7, 0., 1e-7, 2e-7, 4e-7}) { double z = std::fabs(h.z)+e*std::max(std::fabs(h.z), 1e-3); if(z>1) z = 1; if(z<0) z = 0; double s = std::sqrt(std::max(0., 1-z*z)), t = std::hypot(h.x, h.y); D3 x = t>0?D3(h.x*s/t, h.y*s/t, z):D3(s, 0, z); if(t == 0 || s<1e-4) { for(int a = 0; a<4; a++) { double v = fn(D3(s*std::cos(a*PI/4), s*std::sin(a*PI/4), z)); lo = std::min(lo, v); hi = std::max(hi, v); } } double v = fn(x); lo = std::min(lo, v); hi = std::max(hi, v); } lo -= 1e-4*std::fabs(lo)+1e-30; hi += 1e-4*std::fabs(hi)+1e-30; if(ds.k == BLINN) { double e = ds.n*3e-7; lo *= 1-e; hi *= 1+e; } };
            double lo, hi; int q = std::fabs(h.z)<1e-4?0:explain(PQ, [&](int q) { band([&](D3 x) { return ds.D(x, q); }, lo, hi); return D>=lo-1e-30 && D<=hi; });
            if(q<0) vt::violation("wrong-microfacet-density", "%s h %.7g %.7g %.7g: %.8g, published %.8g (%.8g with known deviations)", nm.c_str(), h.x, h.y, h.z, D, ds.D(h), ds.D(h, PQ)); else if(q) report_quirks(q, nm+vt::fmt(" h %.6g %.6g %.6g: D %.7g, published %.7g", h.x, h.y, h.z, D, ds.D(h)));
            if(std::fabs(h.z)>1e-4)
            {
                Vec3 w = h.z*1>0?Vec3(0, 0, 1):Vec3(0, 0, -1); double p = m->pdf(&w, &hv); if(!(std::isfinite(p) && p>=0)) vt::violation("bad-half-vector-density", "%s: %g", nm.c_str(), p);
                q = explain(PQ, [&](int q) { band([&](D3 x) { return ds.pdf(x, q); }, lo, hi); return p>=lo-1e-30 && p<=hi; });
                if(q<0) vt::violation("wrong-half-vector-density", "%s h %.7g %.7g %.7g: %.8g, law %.8g", nm.c_str(), h.x, h.y, h.z, p, ds.pdf(h)); else if(q) report_quirks(q, nm+vt::fmt(" h %.6g %.6g %.6g: density %.7g, law %.7g", h.x, h.y, h.z, p, ds.pdf(h)));
            }
            double G = m->G(&ov, &iv), G2 = m->G(&iv, &ov); vt::count("masking values");
            if(!(G>=0 && G<=1.00013)) { vt::violation("masking-out-of-range", "%s o %.6g %.6g %.6g i %.6g %.6g %.6g: %g", nm.c_str(), o.x, o.y, o.z, i.x, i.y, i.z, G); continue; }
            if(std::fabs(G-G2)>1e-6) vt::violation("masking-asymmetric", "%s: %g and %g", nm.c_str(), G, G2);
            if(std::fabs(o.z)<1e-4 || std::fabs(i.z)<1e-4) continue; double sl = 1e-5+4e-7/(std::min(std::fabs(o.z), std::fabs(i.z)))+(std::min(std::hypot(o.x, o.y), std::hypot(i.x, i.y))<1e-3?1e-4+ro*1e-3:0);
            q = explain(GQ, [&](int q) { return std::fabs(G-ds.G(o, i, q))<=sl; });
            if(q<0) vt::violation("wrong-masking", "%s o %.6g %.6g %.6g i %.6g %.6g %.6g: %.7g, published %.7g (%.7g with known deviations)", nm.c_str(), o.x, o.y, o.z, i.x, i.y, i.z, G, ds.G(o, i), ds.G(o, i, GQ)); else if(q) report_quirks(q, nm+vt::fmt(" o %.6g %.6g %.6g i %.6g %.6g %.6g: masking %.7g, published %.7g", o.x, o.y, o.z, i.x, i.y, i.z, G, ds.G(o, i)));
        }
        for(int k = 0; k<12; k++)
        {
            D3 o = local(r); if(std::fabs(o.z)<1e-6) continue; Vec3 ov = fv(o), wh(9, 9, 9); float a = rnd(r), b = rnd(r); m->sample_wh(&ov, a, b, &wh); double L = len(d(wh)); vt::count("half vectors sampled"); vt::eval(vt::hash_bytes(&wh, sizeof wh, idx));
            if(!(std::fabs(L-1)<2e-5)) vt::violation("half-vector-not-unit", "%s random numbers %.8g %.8g: length %g", nm.c_str(), a, b, L); else if(wh.z*o.z<0) vt::violation("half-vector-wrong-side", "%s wo.z %g wh.z %g", nm.c_str(), o.z, wh.z);
        } });
    // normalised over projected area: quadrature of the code's own density
    vt::cases("normalisation", vt::n(160, 1600), [](Rng& r, long idx) {
        Dist ds = rand_dist(r, .05); if(ds.k == BLINN && ds.n>2000) return; std::unique_ptr<MicrofacetDist> m(ds.make()); const int NT = 600, NP = ds.k == ANISO?720:4; double S = 0, P = 0; double a = ds.k == BLINN?std::sqrt(2/(ds.n+2)):std::sqrt(ds.ax*ds.ay); Vec3 up(0, 0, 1);
        // tan(theta) = a x/(1-x), midpoint rule
        for(int t = 0; t<NT; t++) for(int p = 0; p<NP; p++) { double x = (t+.5)/NT, tn = a*x/(1-x), dtn = a/((1-x)*(1-x)), c = 1/std::sqrt(1+tn*tn), s = tn*c, ph = 2*PI*(p+.37)/NP; Vec3 h((float)(s*std::cos(ph)), (float)(s*std::sin(ph)), (float)c); double dw = s*c*c*dtn/NT*2*PI/NP; S += m->D(&h)*c*dw; P += m->pdf(&up, &h)*dw; }
        vt::eval(idx); vt::count("densities integrated"); vt::maxi("worst departure from 1", ds.k == BECKMANN || ds.k == BLINN?0:std::fabs(S-1));
        if(std::fabs(S-1)>.015) { if(ds.k == BECKMANN && std::fabs(S-.5)<.015) vt::violation(quirk_name(0), "%s: projected area %.4f", ds.str().c_str(), S); else vt::violation("not-normalised", "%s: projected area of the microfacets %.4f", ds.str().c_str(), S); }
        if(std::fabs(P-1)>.015) { if(ds.k == BECKMANN && std::fabs(P-.5)<.015) vt::violation(quirk_name(0), "%s: half vector density integrates to %.4f", ds.str().c_str(), P); else if(ds.k == BLINN && std::fabs(P-(ds.n+2)/(ds.n+1))<.015) vt::violation(quirk_name(5), "%s: half vector density integrates to %.4f", ds.str().c_str(), P); else vt::violation("not-normalised", "%s: half vector density integrates to %.4f", ds.str().c_str(), P); } });
    // sampled half vectors follow the distribution: two samples compared, radius and angle
    vt::cases("half vectors", vt::n(240, 2000), [](Rng& r, long idx) {
        Dist ds = rand_dist(r, .03); std::unique_ptr<MicrofacetDist> m(ds.make()); double sg = r.chance(.5)?1:-1; D3 o = local(r); o.z = std::fabs(o.z)*sg; if(std::fabs(o.z)<1e-4) return; Vec3 ov = fv(o); int n = (int)vt::n(20000, 100000); const int K = 12; std::vector<std::pair<double, double>> A, B;
        for(int k = 0; k<n; k++) { Vec3 h; m->sample_wh(&ov, r.uf(), r.uf(), &h); A.push_back({h.x*sg, h.y*sg}); D3 g = ds.sample(r); B.push_back({g.x, g.y}); }
        vt::eval(idx); vt::count("half vector distributions compared"); auto ang = [&](std::pair<double, double> p) { return std::atan2(p.second, p.first); }; auto rad = [&](std::pair<double, double> p) { return std::hypot(p.first/ds.ax, p.second/ds.ay); };
        std::vector<double> qr, qa; for(auto& p : B) { qr.push_back(rad(p)); qa.push_back(ang(p)); } std::sort(qr.begin(), qr.end()); std::sort(qa.begin(), qa.end()); std::vector<double> cr, ca; for(int k = 1; k<K; k++) { cr.push_back(qr[n*(size_t)k/K]); ca.push_back(qa[n*(size_t)k/K]); }
        std::vector<double> x(K*K), y(K*K); auto cell = [&](std::pair<double, double> p) { return (std::upper_bound(cr.begin(), cr.end(), rad(p))-cr.begin())*K+(std::upper_bound(ca.begin(), ca.end(), ang(p))-ca.begin()); }; for(auto& p : A) x[cell(p)]++; for(auto& p : B) y[cell(p)]++;
        double chi = 0; int dof = -1; for(int k = 0; k<K*K; k++) if(x[k]+y[k]>10) { chi += (x[k]-y[k])*(x[k]-y[k])/(x[k]+y[k]); dof++; } double z = vt::chi2_z(chi, dof); vt::maxi("largest deviate", z); if(z>7) vt::violation("wrong-half-vectors", "%s: sampled half vectors do not follow the distribution (chi2 %.0f with %d degrees)", ds.str().c_str(), chi, dof); });
    // Fresnel
    vt::cases("fresnel", vt::n(20000, 200000), [](Rng& r, long idx) {
        double ei = index(r), et = index(r); Spectrum a((float)ei), b((float)et); ei = avg_eta(a); et = avg_eta(b); Dielectric f(a, b); double c = (float)cosine(r), sg = r.chance(.5)?1:-1; double eo = sg>0?ei:et, en = sg>0?et:ei, got = f.eval((float)(c*sg)).w[0], want = fr_diel(c, eo, en); vt::eval(vt::hash_bytes(&c, 8, idx)); vt::count("dielectric reflectances");
        if(!(got>=0 && got<=1)) vt::violation("reflectance-out-of-range", "indices %g to %g cosine %g: %g", eo, en, c, got);
        double s = eo/en*std::sqrt(1-c*c), lo, hi; frband(c, eo, en, lo, hi);
        if(got<lo || got>hi) vt::violation("wrong-dielectric-reflectance", "indices %g to %g cosine %.7g: %.7g, exact %.7g", eo, en, c, got, want); if(s>1.0001) { vt::count("total internal reflections"); if(got != 1) vt::violation("total-reflection-not-one", "indices %g to %g cosine %g: %g", eo, en, c, got); }
        // the specular components use the same physics; what is not reflected is transmitted
        double L = std::sqrt(1-c*c), ph = 2*PI*r.u(); D3 o(L*std::cos(ph), L*std::sin(ph), c*sg); Vec3 ov = fv(o); o = d(ov); c = std::fabs(o.z); if(c<1e-4) return; Vec3 wr(7, 7, 7), wt(7, 7, 7); float pr = -1, pt = -1; DielectricReflection R(a, b); Refraction T(a, b); double rv = R.sample_value(&ov, &wr, r.uf(), r.uf(), &pr).w[0]*std::fabs(wr.z), tv = T.sample_value(&ov, &wt, r.uf(), r.uf(), &pt).w[0]; want = fr_diel(c, eo, en); frband(c, eo, en, lo, hi); s = eo/en*std::sqrt(std::max(0., 1-c*c));
        if(!(pr == 0 && o.z == 0) && (pr != 1 || len(d(wr)-D3(-o.x, -o.y, o.z))>1e-6)) vt::violation("mirror-direction", "wo %.7g %.7g %.7g: density %g, wi %.7g %.7g %.7g", o.x, o.y, o.z, pr, wr.x, wr.y, wr.z);
        if(rv<lo-1e-5 || rv>hi+1e-5) vt::violation("mirror-weight", "indices %g to %g wo.z %.7g: reflected %.7g, exact %.7g", eo, en, o.z, rv, want);
        if(s>1.0001) { if(pt != 0 || tv != 0) vt::violation("transmitted-beyond-critical-angle", "indices %g to %g wo.z %.7g: density %g value %g", eo, en, o.z, pt, tv); return; } if(s>.9999) return;
        if(pt != 1) { vt::violation("not-transmitted", "indices %g to %g wo.z %.7g: density %g", eo, en, o.z, pt); return; }
        double e = eo/en, ct = std::sqrt(1-s*s); D3 w(-o.x*e, -o.y*e, -sg*ct); vt::count("refracted directions"); if(len(d(wt)-w)>1e-6+2e-6/ct || std::fabs(len(d(wt))-1)>1e-6+2e-6/ct) { vt::violation("snell", "indices %g to %g wo %.7g %.7g %.7g: wi %.7g %.7g %.7g, Snell %.7g %.7g %.7g", eo, en, o.x, o.y, o.z, wt.x, wt.y, wt.z, w.x, w.y, w.z); return; }
        double T0 = tv*std::fabs(wt.z)/(e*e); if(1-T0<lo-1e-5 || 1-T0>hi+1e-5) vt::violation("transmitted-weight", "indices %g to %g wo.z %.7g: transmitted %.7g, exact %.7g", eo, en, o.z, T0, 1-want); if(std::fabs(T0+rv-1)>(hi-lo)+2e-5) vt::violation("reflected-plus-transmitted", "indices %g to %g wo.z %.7g: %.7g", eo, en, o.z, T0+rv); });
    // metals
    vt::cases("metals", vt::n(4000, 40000), [](Rng& r, long idx) {
        bool rnd_ = r.chance(.3); Spectrum n(1), k(1); int el = r.irange(0, (int)METAL_MAX-1); if(rnd_) { n = Spectrum(r.rangef(.03, 5)); k = Spectrum(r.rangef(0, 8)); } else { n = METALS[el].n; k = METALS[el].k; } double c = (float)cosine(r); Conductor f(n, k); Spectrum s = f.eval((float)c); vt::eval(vt::hash_bytes(&c, 8, idx*64+el)); vt::count("conductor reflectances"); std::string nm = rnd_?vt::fmt("n %g k %g", n.w[0], k.w[0]):vt::fmt("metal %d", el);
        Vec3 o((float)std::sqrt(1-c*c), 0, (float)c), wi(7, 7, 7); float pdf = -1; ConductorReflection R(n, k); Spectrum v = R.sample_value(&o, &wi, r.uf(), r.uf(), &pdf); if(!(pdf == 0 && o.z == 0) && (pdf != 1 || wi.x != -o.x || wi.y != -o.y || wi.z != o.z)) vt::violation("mirror-direction", "%s wo.z %.7g: density %g wi %.7g %.7g %.7g", nm.c_str(), c, pdf, wi.x, wi.y, wi.z);
        for(int a = 0; a<NW; a++)
        {
            if(!(n.w[a]>0 && k.w[a]>=0)) vt::violation("metal-data", "%s: n %g k %g at wavelength %d", nm.c_str(), n.w[a], k.w[a], a); double want = fr_cond(c, n.w[a], k.w[a]); if(!(s.w[a]>=0 && s.w[a]<=1+1e-6)) vt::violation("reflectance-out-of-range", "%s cosine %g: %g", nm.c_str(), c, s.w[a]); double tol = 1e-5+2e-5*(n.w[a]*n.w[a]+k.w[a]*k.w[a])/(n.w[a]*n.w[a]+k.w[a]*k.w[a]+1)+(k.w[a] == 0?1e-4:0);
            if(std::fabs(s.w[a]-want)>tol) { vt::violation("wrong-conductor-reflectance", "%s cosine %.7g: %.7g, law %.7g", nm.c_str(), c, s.w[a], want); break; }
            if(c>1e-3 && std::fabs(v.w[a]*c-want)>tol) { vt::violation("mirror-weight", "%s wo.z %.7g: %.7g, law %.7g", nm.c_str(), c, v.w[a]*c, want); break; }
        } });
    // mirror and refraction of vectors about any normal
    vt::cases("vectors", vt::n(20000, 200000), [](Rng& r, long idx) {
        Vec3 v = vec(unit(rand_dir(r, true))), n = vec(unit(rand_dir(r, true))); if(dot(d(v), d(n))<0) n = -n; double e = r.chance(.1)?1:r.range(.35, 2.8); e = (float)e; D3 V = d(v), N = d(n); vt::eval(vt::hash_bytes(&v, sizeof v, idx)); vt::count("vectors mirrored and refracted"); Normal nn(n.x, n.y, n.z);
        D3 m = V-N*(2*dot(V, N)); Vec3 a = reflect(v, n), b = reflect(v, nn), c = v, c2 = v; c.reflect(n); c2.reflect(nn); for(Vec3* x : {&a, &b, &c, &c2}) if(len(d(*x)-m)>2e-6) { vt::violation("vector-mirror", "%.7g %.7g %.7g about %.7g %.7g %.7g: %.7g %.7g %.7g", V.x, V.y, V.z, N.x, N.y, N.z, x->x, x->y, x->z); break; }
        double ci = dot(V, N), s2 = std::max(0., 1-ci*ci)*e*e; a = refract(v, n, (float)e); b = refract(v, nn, (float)e); c = v; bool ok = c.refract(n, (float)e); c2 = v; bool ok2 = c2.refract(nn, (float)e);
        if(s2>1+1e-5) { if(ok || ok2 || a.x != 0 || a.y != 0 || a.z != 0 || b.x != 0 || b.y != 0 || b.z != 0) vt::violation("vector-refraction-beyond-critical", "%.7g %.7g %.7g about %.7g %.7g %.7g ratio %g", V.x, V.y, V.z, N.x, N.y, N.z, e); return; } if(s2>1-1e-4) return;
        if(!ok || !ok2) { vt::violation("vector-not-refracted", "%.7g %.7g %.7g about %.7g %.7g %.7g ratio %g", V.x, V.y, V.z, N.x, N.y, N.z, e); return; }
        double ct = std::sqrt(1-s2); D3 w = V*(-e)+N*(ci*e-ct); for(Vec3* x : {&a, &b, &c, &c2}) if(len(d(*x)-w)>4e-6/ct) { vt::violation("vector-snell", "%.7g %.7g %.7g about %.7g %.7g %.7g ratio %g: %.7g %.7g %.7g, Snell %.7g %.7g %.7g", V.x, V.y, V.z, N.x, N.y, N.z, e, x->x, x->y, x->z, w.x, w.y, w.z); break; } });
    // dispersion
    vt::cases("dispersion", vt::n(4000, 20000), [](Rng& r, long idx) {
        bool ca = r.chance(.5); float B[6]; Spectrum s(1); double want[16]; if(ca) { B[0] = r.rangef(1, 2.5); B[1] = r.chance(.2)?0:r.rangef(0, .05); B[2] = r.chance(.4)?0:r.rangef(0, .003); s = r.chance(.2) && B[2] == 0?cauchy(B[0], B[1]):cauchy(B[0], B[1], B[2]); } else { for(int k = 0; k<3; k++) { B[k] = r.rangef(0, 1.2); B[3+k] = k == 2?r.rangef(60, 150):r.rangef(0, .03); } s = sellmeier(B[0], B[1], B[2], B[3], B[4], B[5]); }
        double avg = 0; for(int w = 0; w<16; w++) { double l = .4+.02*w, l2 = l*l; want[w] = ca?B[0]+B[1]/l2+B[2]/(l2*l2):std::sqrt(1+B[0]*l2/(l2-B[3])+B[1]*l2/(l2-B[4])+B[2]*l2/(l2-B[5])); avg += want[w]/16; }
        vt::eval(vt::hash_bytes(B, sizeof B, idx)); vt::count(ca?"Cauchy formulas":"Sellmeier formulas"); for(int w = 0; w<NW; w++) { double x = NW == 16?want[w]:avg; if(!(std::fabs(s.w[w]-x)<2e-5*x)) { vt::violation("dispersion", "%s %g %g %g %g %g %g: index %.7g, formula %.7g (wavelength %d)", ca?"Cauchy":"Sellmeier", B[0], B[1], B[2], B[3], B[4], B[5], s.w[w], x, w); break; } } });
    return vt::finish();
}
