// Random materials built the way the configuration front end builds them, each with a double precision
// model of its scattering law and of its sampling density, and an independent sampler of that density.
//
// Defects which the repository's own unit tests pin are part of the model as switches ("quirks"): a value
// has to agree with the published law, or with the law changed by a set of quirks, each of which is then
// reported under its own signature (known_findings.txt); anything else is a violation.
#ifndef MATS_HPP
#define MATS_HPP
#include "gen.hpp"
#include "materials/single_brdf.hpp"
#include "materials/multi_bsdf.hpp"
#include "materials/lambertian.hpp"
#include "materials/oren_nayar.hpp"
#include "materials/microfacet.hpp"
#include "materials/reflection.hpp"
#include "materials/refraction.hpp"
#include "materials/metals.hpp"
#include "materials/bump.hpp"
#include "textures/texture_uniform.hpp"
#include <memory>
namespace mats
{
using namespace gen;
static const double PI = 3.14159265358979323846;
static const int NW = (int)(sizeof(Spectrum::w)/sizeof(float));
typedef std::vector<double> Sp;
inline Sp sp(const Spectrum& s) { Sp o(NW); for(int i = 0; i<NW; i++) o[i] = s.w[i]; return o; }

enum Quirk { Q_BECK = 1, Q_GGXG = 2, Q_ANISO0 = 4, Q_INSIDE = 8, Q_BACKFACE = 16, Q_BLINNPDF = 32, Q_TJAC = 64, Q_METALBACK = 128, Q_ANISO_O = 256, Q_ANISO_I = 512, Q_COUNT = 10 };
inline const char* quirk_name(int b)
{
    static const char* n[] = {"beckmann-exponential-squared", "ggx-masking-cos4", "anisotropic-at-normal-incidence", "glass-inside-fresnel", "rough-glass-backfacing-microfacets", "blinn-density-normalisation", "rough-glass-density-jacobian", "metal-from-behind", "anisotropic-at-normal-incidence", "anisotropic-at-normal-incidence"};
    return n[b];
}

enum DK { BLINN, BECKMANN, GGX, ANISO };
struct Dist
{
    DK k = GGX; double ax = .1, ay = .1, n = 0;
    double D(D3 h, int q = 0) const
    {
        double c2 = h.z*h.z, s2 = h.x*h.x+h.y*h.y; if(c2 == 0) return 0; double t2 = s2/c2;
        switch(k)
        {
            case BLINN: return (n+2)/(2*PI)*std::pow(std::fabs(h.z), n);
            case BECKMANN: { double e = std::exp(-t2/(ax*ax)); return e/(PI*c2*c2*ax*ax)*((q & Q_BECK)?e:1); }
            case GGX: { double u = ax*ax+t2; return ax*ax/(PI*c2*c2*u*u); }
            default: if((q & Q_ANISO0) && s2<5e-7) return 1; { double u = 1+(h.x*h.x/(ax*ax)+h.y*h.y/(ay*ay))/c2; return 1/(PI*ax*ay*c2*c2*u*u); }
        }
    }
    static double poly(double c) { return c>=1.6?1:(3.535*c+2.181*c*c)/(1+2.276*c+2.577*c*c); }
    double G1(D3 v, int q = 0) const
    {
        double c = std::fabs(v.z), s = std::sqrt(v.x*v.x+v.y*v.y); if(c == 0) return 0;
        switch(k)
        {
            case BLINN: return s == 0?1:poly(std::sqrt(.5*n+1)*c/s);
            case BECKMANN: return s == 0?1:poly(c/(s*ax));
            case GGX: { double s2 = (q & Q_GGXG)?std::max(0., 1-c*c*c*c):s*s; return 2/(1+std::sqrt(1+ax*ax*s2/(c*c))); }
            default: return 1/(1+lambda(v, 0));
        }
    }
    double lambda(D3 v, int q) const
    {
        if(q && v.x*v.x+v.y*v.y<5e-7) return 1;
        double a2t2 = (v.x*v.x*ax*ax+v.y*v.y*ay*ay)/(v.z*v.z); return (-1+std::sqrt(1+a2t2))/2;
    }
    double G(D3 a, D3 b, int q = 0) const { if(a.z == 0 || b.z == 0) return 0; if(k == ANISO) return 1/(1+lambda(a, q & Q_ANISO_O)+lambda(b, q & Q_ANISO_I)); return G1(a, q)*G1(b, q); }
    // solid angle density of half vectors, either as sampled (q without density quirks) or as reported
    double pdf(D3 h, int q = 0) const
    {
        if(k == BLINN) return (n+((q & Q_BLINNPDF)?2:1))/(2*PI)*std::pow(std::fabs(h.z), n);
        return D(h, q)*std::fabs(h.z);
    }
    D3 sample(Rng& r) const // upper half space
    {
        double u = r.u(), phi = 2*PI*r.u(), t2;
        switch(k)
        {
            case BLINN: { double c = std::pow(1-u, 1/(n+1)), s = std::sqrt(std::max(0., 1-c*c)); return D3(s*std::cos(phi), s*std::sin(phi), c); }
            case BECKMANN: t2 = -ax*ax*std::log(1-u); break;
            case GGX: t2 = ax*ax*u/(1-u); break;
            default: // stretched: a GGX slope of unit roughness, scaled by the two roughnesses
            { double m = std::sqrt(u/(1-u)); return unit(D3(-ax*m*std::cos(phi), -ay*m*std::sin(phi), 1)); }
        }
        double t = std::sqrt(t2), c = 1/std::sqrt(1+t2); return D3(t*c*std::cos(phi), t*c*std::sin(phi), c);
    }
    MicrofacetDist* make() const
    {
        switch(k) { case BLINN: return new Blinn((float)n); case BECKMANN: return new Beckmann((float)ax); case GGX: return new GGXiso((float)ax); default: return new GGXaniso((float)ax, (float)ay); }
    }
    std::string str() const { static const char* nm[] = {"Blinn", "Beckmann", "GGX", "GGXaniso"}; return k == BLINN?vt::fmt("Blinn(%g)", n):k == ANISO?vt::fmt("GGXaniso(%g,%g)", ax, ay):vt::fmt("%s(%g)", nm[k], ax); }
    double rough() const { return k == BLINN?std::sqrt(2/(n+2)):k == ANISO?std::min(ax, ay):ax; }
};
inline Dist rand_dist(Rng& r, double lo, int kind = -1)
{
    Dist d_; d_.k = (DK)(kind>=0?kind:r.irange(0, 3)); auto pick = [&]() { int k = r.irange(0, 5); return (double)(float)(k == 0?1.:k == 1?lo:k == 2?.2:r.logrange(lo, 1)); };
    d_.ax = d_.ay = pick();
    if(d_.k == ANISO) { do d_.ay = pick(); while(d_.ay == d_.ax); }
    if(d_.k == BLINN) { float e = 2.f/((float)d_.ax*(float)d_.ax)-2; d_.n = e<0?0:e>100000.f?100000.f:e; }
    return d_;
}
// reflectance of a dielectric for a direction with cosine c>=0 in the medium of index ei
inline double fr_diel(double c, double ei, double et)
{
    double s = ei/et*std::sqrt(std::max(0., 1-c*c)); if(s>=1) return 1; double ct = std::sqrt(1-s*s); double a = (ei*c-et*ct)/(ei*c+et*ct), b = (et*c-ei*ct)/(et*c+ei*ct); return (a*a+b*b)/2;
}
// the usual approximation for conductors
inline double fr_cond(double c, double n, double k)
{
    double t = n*n+k*k; double a = (t-2*n*c+c*c)/(t+2*n*c+c*c), b = (t*c*c-2*n*c+1)/(t*c*c+2*n*c+1); return (a+b)/2;
}
enum LK { LAMB, OREN, MR_D, MR_C, MT, SPEC_C, SPEC_D, SPEC_T };
struct Lobe
{
    LK k = LAMB; Dist d_; double ei = 1, et = 1.5; Sp n, kk; double sigma = 0; Sp col; const Texture* tex = NULL;
    bool spec() const { return k>=SPEC_C; }
    bool trans() const { return k == MT || k == SPEC_T; }
    // scattering value, without colour, local frame
    double value(D3 o, D3 i, int w, int q) const
    {
        if(spec()) return 0;
        if(trans() != (o.z*i.z<0)) return 0;
        switch(k)
        {
            case LAMB: return 1/PI;
            case OREN:
            {
                double s2 = sigma*sigma, A = 1-s2/(2*(s2+.33)), B = .45*s2/(s2+.09), so = std::hypot(o.x, o.y), si = std::hypot(i.x, i.y), co = std::fabs(o.z), ci = std::fabs(i.z);
                if(so<=0 || si<=0) return A/PI;
                double cs = (o.x*i.x+o.y*i.y)/(so*si), sa = ci>co?so:si, tb = ci>co?si/ci:so/co; return (A+B*std::max(0., cs)*sa*tb)/PI;
            }
            case MR_D: case MR_C:
            {
                D3 h = o+i; if(len(h) == 0 || o.z == 0 || i.z == 0) return 0; h = unit(h); double c = std::fabs(dot(i, h)); double f = k == MR_C?fr_cond(c, n[w], kk[w]):(o.z<0 && !(q & Q_INSIDE))?fr_diel(c, et, ei):fr_diel(c, ei, et);
                return f*d_.D(h, q)*d_.G(o, i, q)/(4*std::fabs(o.z*i.z));
            }
            case MT:
            {
                double eo = o.z>0?ei:et, en = o.z>0?et:ei; D3 h = o*(-eo)-i*en; if(len(h) == 0) return 0; h = unit(h); if(h.z<0) h = h*-1; double a = dot(o, h), b = dot(i, h);
                if((a*o.z<=0 || b*i.z<=0) && !(q & Q_BACKFACE)) return 0;
                double den = eo*a+en*b; double f = b<0?fr_diel(-b, et, ei):fr_diel(b, ei, et); // the side the light comes from
                return (1-f)*std::fabs(a*b/(o.z*i.z))*eo*eo*d_.D(h, q)*d_.G(o, i, q)/(den*den);
            }
            default: return 0;
        }
    }
    double pdf(D3 o, D3 i, int q) const
    {
        if(spec() || trans() != (o.z*i.z<0)) return 0;
        if(k == LAMB || k == OREN) return std::fabs(i.z)/PI;
        if(k != MT) { D3 h = o+i; if(len(h) == 0) return 0; h = unit(h); double a = std::fabs(dot(o, h)); return d_.pdf(h, q)/(4*a); }
        double eo = o.z>0?ei:et, en = o.z>0?et:ei; D3 h = o*(-eo)-i*en; if(len(h) == 0) return 0; h = unit(h); if(h.z*o.z<0) h = h*-1; double a = dot(o, h), b = dot(i, h);
        if((a<=0 || b>=0) && !(q & Q_BACKFACE)) return 0;
        double den = eo*a+en*b; if(d_.k == BLINN && (q & Q_BLINNPDF) && a<=0) return 0;
        return d_.pdf(h, q)*((q & Q_TJAC)?eo*eo*std::fabs(a):en*en*std::fabs(b))/(den*den);
    }
    // independent sampler of the density; false: no direction
    bool sample(Rng& r, D3 o, D3& i) const
    {
        double sg = o.z<0?-1:1;
        if(k == LAMB || k == OREN) { double u = r.u(), p = 2*PI*r.u(), s = std::sqrt(u); i = D3(s*std::cos(p), s*std::sin(p), sg*std::sqrt(1-u)); return true; }
        D3 h = d_.sample(r)*sg; double a = dot(o, h);
        if(k != MT) { i = h*(2*a)-o; return i.z*o.z>0; }
        if(a<=0) return false;
        double e = o.z>0?ei/et:et/ei, s2 = (1-a*a)*e*e; if(s2>=1) return false; i = o*(-e)+h*(a*e-std::sqrt(1-s2)); return i.z*o.z<0;
    }
    double up(D3 o, D3 i, int q) const // the quantity the code compares with EPSILON
    {
        if(k != MT) return 1; double eo = o.z>0?ei:et, en = o.z>0?et:ei; D3 h = o*(-eo)-i*en; if(len(h) == 0) return 0; h = unit(h); return std::fabs(eo*eo*d_.D(h, q)*d_.G(o, i, q)*dot(o, h)*dot(i, h));
    }
    int quirks() const
    {
        int q = 0; if(k == LAMB || k == OREN) return 0; if(k == SPEC_C) return Q_METALBACK; if(spec()) return 0;
        if(d_.k == BECKMANN) q |= Q_BECK; if(d_.k == GGX) q |= Q_GGXG; if(d_.k == ANISO) q |= Q_ANISO0 | Q_ANISO_O | Q_ANISO_I; if(d_.k == BLINN) q |= Q_BLINNPDF;
        if(k == MR_D) q |= Q_INSIDE; if(k == MT) q |= Q_BACKFACE | Q_TJAC; return q;
    }
};
struct Mat
{
    std::vector<Lobe> l; std::string name; std::unique_ptr<Bsdf> b; std::vector<std::unique_ptr<Texture>> tex; bool single = false;
    double value(D3 o, D3 i, int w, int q) const { double s = 0; for(auto& x : l) s += x.value(o, i, w, q)*x.col[w]; return s; }
    int eligible(bool ms) const { int c = 0; for(auto& x : l) if(ms || !x.spec()) c++; return c; }
    double pdf(D3 o, D3 i, bool ms, int q) const { int c = eligible(ms); if(!c) return 0; double s = 0; for(auto& x : l) if(ms || !x.spec()) s += x.pdf(o, i, q); return s/c; }
    int quirks() const { int q = 0; for(auto& x : l) q |= x.quirks(); return q; }
    bool has_spec() const { for(auto& x : l) if(x.spec()) return true; return false; }
    bool trans() const { for(auto& x : l) if(x.trans()) return true; return false; }
    double rough() const { double m = 1; for(auto& x : l) if(x.k != LAMB && x.k != OREN && !x.spec()) m = std::min(m, x.d_.rough()); return m; }
};
enum MK { MATTE_L, MATTE_O, GLOSSY_, GLASS_S, GLASS_R, METAL_S, METAL_R, MIXED, MKINDS };
inline Spectrum colour(Rng& r, double maxv) // per band, what the material may scatter there
{
    Spectrum s = SPECTRUM_BLACK; int k = r.irange(0, 2); for(int a = 0; a<NW; a++) s.w[a] = (float)(k == 0?maxv:r.range(0, maxv)); return s;
}
inline void add_lobe(Mat& m, Bdf* b, Lobe l, Rng& r, double maxcol, MultiBSDF* mb)
{
    if(maxcol>0) { Spectrum c = colour(r, maxcol); TextureUniform* t = new TextureUniform(c); m.tex.emplace_back(t); l.tex = t; l.col = sp(c); } else { l.tex = NULL; l.col = Sp(NW, 1.); }
    if(mb) mb->inherit_bdf(b, l.tex); else m.b.reset(new SingleBRDF(b, l.tex));
    m.l.push_back(l);
}
inline double avg_eta(const Spectrum& s) { double a = 0; for(int i = 0; i<NW; i++) a += s.w[i]; return a/NW; }
inline Mat rand_mat(Rng& r, double lo_rough, int kind, bool sumone, bool nogap = false)
{
    Mat m; float ior = nogap && r.chance(.2)?1.01f:r.chance(.2)?1.33f:r.rangef(1.1f, 2.8f); double mc = r.chance(.3)?0:1; MultiBSDF* mb = NULL; auto multi = [&]() { mb = new MultiBSDF; m.b.reset(mb); };
    Spectrum e1 = cauchy(1.f, 0.f), e2 = cauchy(ior, r.chance(.5)?0.f:.02f*r.uf()); double ei = avg_eta(e1), et = avg_eta(e2); int el = r.irange(0, (int)METAL_MAX-1);
    auto L = [&](LK k) { Lobe l; l.k = k; l.ei = ei; l.et = et; l.d_ = rand_dist(r, lo_rough); l.n = sp(METALS[el].n); l.kk = sp(METALS[el].k); return l; };
    switch(kind)
    {
        case MATTE_L: m.single = true; add_lobe(m, new Lambertian, L(LAMB), r, mc, NULL); m.name = "matte"; break;
        case MATTE_O: { m.single = true; Lobe l = L(OREN); l.sigma = (float)(r.chance(.5)?r.range(0, 1.5):r.logrange(.05, 100)); add_lobe(m, new OrenNayar((float)l.sigma), l, r, mc, NULL); m.name = vt::fmt("matte rough %g", l.sigma); break; }
        case GLOSSY_: { multi(); double kd = sumone?r.range(.05, .95):1; add_lobe(m, new Lambertian, L(LAMB), r, kd, mb); Lobe l = L(MR_D); l.et = avg_eta(cauchy(1.5f, 0.f)); add_lobe(m, new MicrofacetR(l.d_.make(), new Dielectric(e1, cauchy(1.5f, 0.f))), l, r, sumone?1-kd:1, mb); m.name = "glossy "+l.d_.str(); break; }
        case GLASS_S: multi(); add_lobe(m, new Refraction(e1, e2), L(SPEC_T), r, mc, mb); add_lobe(m, new DielectricReflection(e1, e2), L(SPEC_D), r, mc, mb); m.name = vt::fmt("glass %g", et); break;
        case GLASS_R: { multi(); Lobe t = L(MT), q = L(MR_D); q.d_ = t.d_; add_lobe(m, new MicrofacetT(t.d_.make(), e1, e2), t, r, mc, mb); add_lobe(m, new MicrofacetR(q.d_.make(), new Dielectric(e1, e2)), q, r, mc, mb); m.name = vt::fmt("rough glass %g %s", et, t.d_.str().c_str()); break; }
        case METAL_S: m.single = true; add_lobe(m, new ConductorReflection(METALS[el].n, METALS[el].k), L(SPEC_C), r, mc, NULL); m.name = vt::fmt("metal %d", el); break;
        case METAL_R: { m.single = true; Lobe l = L(MR_C); add_lobe(m, new MicrofacetR(l.d_.make(), new Conductor(METALS[el].n, METALS[el].k)), l, r, mc, NULL); m.name = vt::fmt("rough metal %d %s", el, l.d_.str().c_str()); break; }
        default: // specular and non specular components together
        { multi(); add_lobe(m, new DielectricReflection(e1, e2), L(SPEC_D), r, sumone?.3:1, mb); add_lobe(m, new Lambertian, L(LAMB), r, sumone?.3:1, mb); Lobe l = L(MR_D); add_lobe(m, new MicrofacetR(l.d_.make(), new Dielectric(e1, e2)), l, r, sumone?.3:1, mb); m.name = "mixed "+l.d_.str(); break; }
    }
    m.b->inherit_bump(new Bump);
    return m;
}
// a surface point with a random frame
struct Frame
{
    HitPoint h; D3 s, t, n;
    explicit Frame(Rng& r, bool aligned)
    {
        n = aligned?D3(0, 0, 1):unit(rand_dir(r, false)); D3 a = aligned?D3(1, 0, 0):unit(rand_dir(r, false)); while(std::fabs(dot(a, n))>.9) a = unit(rand_dir(r, false));
        s = unit(a-n*dot(a, n)); h = blank_hit(); h.normal_h = Normal((float)n.x, (float)n.y, (float)n.z); h.dpdu = vec(s); h.uv = Point2(.3f, .4f); h.point_h = Point3(1, 2, 3);
        n = unit(d(h.normal_h)); s = d(h.dpdu); s = unit(s-n*dot(s, n)); t = cross(n, s); h.dpdv = vec(t);
    }
    D3 local(D3 w) const { return D3(dot(w, s), dot(w, t), dot(w, n)); }
    D3 world(D3 l) const { return s*l.x+t*l.y+n*l.z; }
};
inline D3 jitter(Rng& r, D3 v, double e) { return v+D3(r.range(-e, e), r.range(-e, e), r.range(-e, e)); } // not normalised: neither are float directions
// spread of f over directions that differ by rounding from o and i
template<class F> void spread(Rng& r, D3 o, D3 i, double rough, F f, double& lo, double& hi)
{
    lo = hi = f(o, i);
    for(int k = 0; k<24; k++)
    {
        double e = k<16?4e-7:1.5e-7; double v = f(jitter(r, o, e), jitter(r, i, e)); lo = std::min(lo, v); hi = std::max(hi, v);
    }
    double m = hi-lo; double t = 2e-4+2e-6/(rough*rough); lo -= 2*m+t*std::fabs(lo)+1e-7; hi += 2*m+t*std::fabs(hi)+1e-7;
}
// which quirks explain "ok(q)"; -1: none does
template<class F> int explain(int avail, F ok)
{
    if(ok(0)) return 0;
    std::vector<int> bits; for(int b = 0; b<Q_COUNT; b++) if(avail >> b & 1) bits.push_back(b);
    int n = 1 << bits.size(), best = -1, bc = 99;
    for(int s = 1; s<n; s++) { int q = 0, c = 0; for(size_t k = 0; k<bits.size(); k++) if(s >> k & 1) { q |= 1 << bits[k]; c++; } if(c<bc && ok(q)) { best = q; bc = c; } }
    return best;
}
inline void report_quirks(int q, const std::string& what) { for(int b = 0; b<Q_COUNT; b++) if(q >> b & 1) vt::violation(quirk_name(b), "%s", what.c_str()); }
}
#endif
