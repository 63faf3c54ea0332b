// C19: colours and spectra against element-wise arithmetic, the sRGB standard, CIE 1931 and Planck's law.
#include "gen.hpp"
#include "utility/spectrum.hpp"
#include "utility/color.hpp"
#include "utility/imageio/imageio.h"
using namespace gen;
static const int NW = (int)(sizeof(Spectrum::w)/sizeof(float));
static double enc(double v) { return v>.0031308?1.055*std::pow(v, 1/2.4)-.055:12.92*v; }
static double dec(double v) { return v>.04045?std::pow((v+.055)/1.055, 2.4):v/12.92; }
// IEC 61966-2-1, D65
static const double M[3][3] = {{.4124564, .3575761, .1804375}, {.2126729, .7151522, .0721750}, {.0193339, .1191920, .9503041}};
static void inv3(const double a[3][3], double o[3][3]) { double t = a[0][0]*(a[1][1]*a[2][2]-a[1][2]*a[2][1])-a[0][1]*(a[1][0]*a[2][2]-a[1][2]*a[2][0])+a[0][2]*(a[1][0]*a[2][1]-a[1][1]*a[2][0]); for(int i = 0; i<3; i++) for(int j = 0; j<3; j++) { int r0 = (j+1)%3, r1 = (j+2)%3, c0 = (i+1)%3, c1 = (i+2)%3; o[i][j] = (a[r0][c0]*a[r1][c1]-a[r0][c1]*a[r1][c0])/t; } }
static void to_lin(const double x[3], double o[3]) { double I[3][3]; inv3(M, I); for(int i = 0; i<3; i++) o[i] = I[i][0]*x[0]+I[i][1]*x[1]+I[i][2]*x[2]; }
// CIE 1931 colour matching functions, fit by Wyman, Sloan and Shirley (2013)
static double cie(int k, double l)
{
    auto g = [&](double m, double s1, double s2) { double t = (l-m)/(l<m?s1:s2); return std::exp(-.5*t*t); };
    return k == 0?1.056*g(599.8, 37.9, 31.0)+.362*g(442.0, 16.0, 26.7)-.065*g(501.1, 20.4, 26.2):k == 1?.821*g(568.8, 46.9, 40.5)+.286*g(530.9, 16.3, 31.1):1.217*g(437.0, 11.8, 36.0)+.681*g(459.0, 26.0, 13.8);
}
// mean over the k-th of 16 equal bins of 400..700 nm: the tables of the repository
static double bin(int q, int k) { double a = 0; for(int i = 0; i<50; i++) a += cie(q, 400+18.75*(k+(i+.5)/50))/50; return a; }
static double planck(double l, double t) { return 1/(std::pow(l, 5)*std::expm1(6.62606957e-34*299792458./(1.38064852e-23*l*t))); }
static double planck_plus(double l, double t) { return 1/(std::pow(l, 5)*(std::exp(6.62606957e-34*299792458./(1.38064852e-23*l*t))+1)); }
static float val(Rng& r) { int k = r.irange(0, 11); return k == 0?0.f:k == 1?1.f:k == 2?-1.f:k<6?r.rangef(0, 1):k<9?r.rangef(-10, 10):(float)r.logrange(1e-6, 1e6)*(r.chance(.3)?-1:1); }
static Spectrum rs(Rng& r) { Spectrum s; for(int a = 0; a<NW; a++) s.w[a] = val(r); return s; }
static bool same(float a, double b) { return a == (float)b || std::fabs(a-b)<=2e-7*std::fabs(b) || (std::isnan(a) && std::isnan(b)); }
static double comp(Rng& r) { int k = r.irange(0, 11); return k == 0?0:k == 1?1:k == 2?.04045:k == 3?r.range(0, .06):k == 4?r.irange(0, 255)/255.:r.u(); }
template<class T, class F> static void arith(Rng& r, const char* nm, int n, F get, T a, T b, float f)
{
    auto chk = [&](const char* op, const T& got, double (*fn)(double, double), bool scalar) { for(int k = 0; k<n; k++) { double w = fn(get(a, k), scalar?f:get(b, k)); if(!same(get(got, k), w)) { vt::violation("arithmetic", "%s %s component %d: %.8g %s %.8g gives %.9g, not %.9g", nm, op, k, get(a, k), op, scalar?f:get(b, k), get(got, k), w); return; } } };
    auto A = [](double x, double y) { return (double)((float)x+(float)y); }; auto S = [](double x, double y) { return (double)((float)x-(float)y); }; auto P = [](double x, double y) { return (double)((float)x*(float)y); }; auto Q = [](double x, double y) { return (double)((float)x/(float)y); };
    chk("+", a+b, A, false); chk("-", a-b, S, false); chk("*", a*b, P, false); chk("/", a/b, Q, false); chk("+", a+f, A, true); chk("-", a-f, S, true); chk("*", a*f, P, true); chk("/", a/f, Q, true);
    T t = a; t += b; chk("+=", t, A, false); t = a; t -= b; chk("-=", t, S, false); t = a; t *= b; chk("*=", t, P, false); t = a; t /= b; chk("/=", t, Q, false); t = a; t += f; chk("+=", t, A, true); t = a; t -= f; chk("-=", t, S, true); t = a; t *= f; chk("*=", t, P, true); t = a; t /= f; chk("/=", t, Q, true);
    t = a; t += t; chk("+= itself", t, [](double x, double) { return (double)((float)x+(float)x); }, false); t = a; t *= t; chk("*= itself", t, [](double x, double) { return (double)((float)x*(float)x); }, false);
}
static double B(int q, int k) { static double t[3][16]; static bool done = false; if(!done) { for(int a = 0; a<3; a++) for(int b = 0; b<16; b++) t[a][b] = bin(a, b); done = true; } return t[q][k]; }
int main(int argc, char** argv)
{
    vt::init(argc, argv, "random spectra and colours including 0, 1, negative, huge and tiny components; sRGB colours over the whole cube, its edges, gray and the bend of the transfer curve; XYZ inside and outside the gamut; every temperature class from 1 to 1e6 K; single wavelengths; counted by input");
    vt::cases("arithmetic", vt::n(20000, 200000), [](Rng& r, long idx) {
        Spectrum a = rs(r), b = rs(r); float f = val(r); for(int k = 0; k<NW; k++) if(b.w[k] == 0 && r.chance(.7)) b.w[k] = .5f; vt::eval(vt::hash_bytes(&a, sizeof a, idx)); vt::count("operand pairs");
        arith(r, "spectrum", NW, [](const Spectrum& s, int k) { return (double)s.w[k]; }, a, b, f); auto cg = [](const Color& c, int k) { return (double)(k == 0?c.r:k == 1?c.g:c.b); }; arith(r, "colour", 3, cg, Color(a.w[0], a.w[1], a.w[2]), Color(b.w[0], b.w[1], b.w[2]), f);
        Spectrum z(0); bool bl = true; if(r.chance(.3)) a = z; if(r.chance(.5)) a.w[r.irange(0, NW-1)] = r.chance(.5)?(float)r.logrange(1e-40, 1):-1.f; for(int k = 0; k<NW; k++) if(a.w[k] != 0) bl = false; if(a.is_black() != bl) vt::violation("is-black", "is_black %d", a.is_black()); Color c(a.w[0], a.w[1], a.w[2]); if(c.is_black() != (a.w[0] == 0 && a.w[1] == 0 && a.w[2] == 0)) vt::violation("is-black", "colour %g %g %g: %d", c.r, c.g, c.b, c.is_black());
        bool ok = true; Spectrum q = rs(r); int bad = r.irange(0, 3); if(bad == 1) { q.w[r.irange(0, NW-1)] = NAN; ok = false; } if(bad == 2) { q.w[r.irange(0, NW-1)] = INFINITY; ok = false; } if(bad == 3) { q.w[r.irange(0, NW-1)] = -INFINITY; ok = false; } if(idx%8 == 0 && q.is_valid() != ok) vt::violation("is-valid", "is_valid %d for %s", q.is_valid(), ok?"finite values":"a value that is not finite");
        Spectrum u(f); for(int k = 0; k<NW; k++) if(u.w[k] != f) { vt::violation("constant-spectrum", "component %d of %g: %g", k, f, u.w[k]); break; } if(!z.is_black()) vt::violation("is-black", "Spectrum(0)");
        double lum = q.luminance(), y = q.to_xyz().g; if(ok && !(std::fabs(lum-y)<=1e-4*(1+std::fabs(y)))) { double m = 0; for(int k = 0; k<NW; k++) m = std::max(m, (double)std::fabs(q.w[k])); if(std::fabs(lum-y)>1e-5*m) vt::violation("luminance", "luminance %g, Y %g", lum, y); } });
    vt::cases("srgb", vt::n(40000, 400000), [](Rng& r, long idx) {
        double c[3]; for(double& x : c) x = (float)comp(r); if(r.chance(.1)) c[1] = c[2] = c[0]; ColorRGB rgb((float)c[0], (float)c[1], (float)c[2]); vt::eval(vt::hash_bytes(c, sizeof c, idx)); vt::count("sRGB colours"); ColorXYZ x = rgb.to_XYZ(); double w[3]; for(int k = 0; k<3; k++) w[k] = M[k][0]*dec(c[0])+M[k][1]*dec(c[1])+M[k][2]*dec(c[2]); double g[3] = {x.r, x.g, x.b};
        for(int k = 0; k<3; k++) if(!(std::fabs(g[k]-w[k])<2e-4*std::max(w[k], .02))) { vt::violation("srgb-to-xyz", "%g %g %g: %.7g %.7g %.7g, standard %.7g %.7g %.7g", c[0], c[1], c[2], g[0], g[1], g[2], w[0], w[1], w[2]); break; }
        ColorRGB b = x.to_sRGB(); double bb[3] = {b.r, b.g, b.b}; for(int k = 0; k<3; k++) if(!(std::fabs(bb[k]-c[k])<3e-4)) { vt::violation("srgb-roundtrip", "%g %g %g comes back as %.7g %.7g %.7g", c[0], c[1], c[2], bb[0], bb[1], bb[2]); break; }
        // any XYZ, in or out of the gamut
        double X[3]; for(double& v : X) v = (float)(r.chance(.1)?0:r.chance(.2)?r.range(0, 10):r.range(0, 1.1)); if(r.chance(.1)) for(double& v : X) v *= 1e-3; for(double& v : X) v = (float)v; ColorXYZ cx((float)X[0], (float)X[1], (float)X[2]); ColorRGB s = cx.to_sRGB(), ad = cx.to_AdobeRGB(); double lin[3], gs[3] = {s.r, s.g, s.b}, ga[3] = {ad.r, ad.g, ad.b}; to_lin(X, lin); vt::count("XYZ colours"); double mag = X[0]+X[1]+X[2];
        for(int k = 0; k<3; k++) { double e = lin[k]-2e-5*mag-1e-7, h = lin[k]+2e-5*mag+1e-7, lo = std::min({enc(e), enc(lin[k]), enc(h)}), hi = std::max({enc(e), enc(lin[k]), enc(h)}); if(!(gs[k]>=lo-2e-4-1e-5*std::fabs(lo) && gs[k]<=hi+2e-4+1e-5*std::fabs(hi))) { vt::violation("xyz-to-srgb", "%g %g %g: %.7g %.7g %.7g, standard component %d %.7g", X[0], X[1], X[2], gs[0], gs[1], gs[2], k, enc(lin[k])); break; } }
        static const double A[3][3] = {{2.04159, -.56501, -.34473}, {-.96924, 1.87597, .03342}, {.01344, -.11836, 1.34926}}; for(int k = 0; k<3; k++) { double v = A[k][0]*X[0]+A[k][1]*X[1]+A[k][2]*X[2]; if(!std::isfinite(ga[k])) { vt::violation("adobe-not-finite", "%g %g %g: %g", X[0], X[1], X[2], ga[k]); break; } double t = 1/2.19921875; if(v>.01*mag && std::fabs(ga[k]-std::pow(v, t))>2e-3*std::pow(v, t)) { vt::violation("xyz-to-adobe", "%g %g %g component %d: %.7g, standard %.7g", X[0], X[1], X[2], k, ga[k], std::pow(v, t)); break; } }
        // 8 bit constructors
        unsigned char q[4] = {(unsigned char)r.irange(0, 255), (unsigned char)r.irange(0, 255), (unsigned char)r.irange(0, 255), (unsigned char)r.irange(0, 255)}; ColorRGB e(q[0], q[1], q[2]), f((pixBGRA)(((uint32_t)q[2] << 24) | ((uint32_t)q[1] << 16) | ((uint32_t)q[0] << 8) | q[3])); for(auto* z : {&e, &f}) if(std::fabs(z->r-q[0]/255.)>1e-6 || std::fabs(z->g-q[1]/255.)>1e-6 || std::fabs(z->b-q[2]/255.)>1e-6) vt::violation("byte-colour", "%d %d %d: %g %g %g", q[0], q[1], q[2], z->r, z->g, z->b);
        // through a spectrum and back
        for(int l = 0; l<2; l++)
        {
            Spectrum sp(rgb, l); ColorRGB o = sp.to_xyz().to_sRGB(); double oo[3] = {o.r, o.g, o.b}; bool fin = true; for(int k = 0; k<NW; k++) if(!(std::isfinite(sp.w[k]) && sp.w[k]>=0 && sp.w[k]<=1.1)) fin = false; if(!fin) { vt::violation("bad-colour-spectrum", "%g %g %g: spectrum out of range", c[0], c[1], c[2]); break; } vt::count("colours through a spectrum"); double worst = 0; for(int k = 0; k<3; k++) worst = std::max(worst, std::fabs(oo[k]-c[k]));
            double lin_err = 0, gl[3], xs[3] = {sp.to_xyz().r, sp.to_xyz().g, sp.to_xyz().b}; to_lin(xs, gl); for(int k = 0; k<3; k++) lin_err = std::max(lin_err, std::fabs(gl[k]-dec(c[k])));
            vt::maxi(l?"worst component error, lights":"worst component error, surfaces", worst); vt::maxi(l?"worst linear error, lights":"worst linear error, surfaces", lin_err); if(NW == 3?worst>4e-4:lin_err>.25) { vt::violation("colour-roundtrip", "%s %g %g %g comes back as %.5g %.5g %.5g", l?"light":"surface", c[0], c[1], c[2], oo[0], oo[1], oo[2]); break; }
            double k = r.range(.2, .9); if(NW == 16) { Spectrum s2(ColorRGB((float)enc(dec(c[0])*k), (float)enc(dec(c[1])*k), (float)enc(dec(c[2])*k)), l); for(int a = 0; a<NW; a++) if(sp.w[a]<.99 && std::fabs(s2.w[a]-k*sp.w[a])>2e-4) { vt::violation("colour-not-linear", "%g %g %g dimmed to %g: %g instead of %g", c[0], c[1], c[2], k, s2.w[a], k*sp.w[a]); break; } }
        } });
    vt::cases("blackbody", vt::n(8000, 60000), [](Rng& r, long idx) {
        int t = idx<2000?(int)idx+1:r.chance(.1)?2147483647:(int)r.logrange(1, 2e6); Spectrum s(t); vt::eval(t); vt::count("temperatures"); double mx = 0, mp = 0; for(int k = 0; k<16; k++) { mx = std::max(mx, planck((400+20*k)*1e-9, t)); mp = std::max(mp, planck_plus((400+20*k)*1e-9, t)); }
        for(int k = 0; k<NW; k++) if(!(std::isfinite(s.w[k]) && s.w[k]>=0)) { vt::violation("bad-blackbody", "%d K: %g", t, s.w[k]); return; } if(t<250) { vt::count("too cold to shine"); return; }
        double e1 = 0, e2 = 0; if(NW == 16) for(int k = 0; k<16; k++) { e1 = std::max(e1, std::fabs(s.w[k]-planck((400+20*k)*1e-9, t)/mx)); e2 = std::max(e2, std::fabs(s.w[k]-planck_plus((400+20*k)*1e-9, t)/mp)); }
        else { double a[3] = {0, 0, 0}, b[3] = {0, 0, 0}, y = 0; for(int k = 0; k<16; k++) { double l = 400+20*k; y += B(1, k); for(int q = 0; q<3; q++) { a[q] += B(q, k)*planck(l*1e-9, t)/mx; b[q] += B(q, k)*planck_plus(l*1e-9, t)/mp; } } for(int q = 0; q<3; q++) { e1 = std::max(e1, std::fabs(s.w[q]-a[q]/y)/std::max(1., 1.)); e2 = std::max(e2, std::fabs(s.w[q]-b[q]/y)); } }
        double tol = NW == 16?2e-3:.03; if(e1<tol) { vt::maxi("largest departure from Planck", e1); return; } if(e2<tol) vt::violation("blackbody-plus-one", "%d K: off by %.4f of the peak", t, e1); else vt::violation("wrong-blackbody", "%d K: off by %.4f of the peak (%.4f with exp(x)+1)", t, e1, e2); });
    vt::cases("basis", 64, [](Rng& r, long idx) {
        vt::eval(idx); vt::count("constants"); float v[16]; for(int k = 0; k<16; k++) v[k] = idx<16?(k == idx):r.rangef(0, 2); Spectrum s({v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15]}); double ys = 0; for(int k = 0; k<16; k++) ys += B(1, k);
        if(NW == 16) { for(int k = 0; k<16; k++) if(s.w[k] != v[k]) vt::violation("spectrum-list", "sample %d: %g instead of %g", k, s.w[k], v[k]); ColorXYZ x = s.to_xyz(); double g[3] = {x.r, x.g, x.b}; for(int q = 0; q<3; q++) { double w = 0; for(int k = 0; k<16; k++) w += v[k]*B(q, k)/ys; if(std::fabs(g[q]-w)>(idx<16?.04/ys+.02*w:.02*w+.01)) vt::violation("cie", "spectrum %ld: component %d of XYZ %.5g, CIE 1931 %.5g", idx, q, g[q], w); } ColorXYZ one = Spectrum(1.f).to_xyz(); if(std::fabs(one.g-1)>2e-3) vt::violation("white-luminance", "%.7g", one.g); }
        else
        {
            double a = 0, b = 0, c = 0; for(int k = 0; k<16; k++) (k<5?a:k<11?b:c) += v[k]/(k<5 || k>10?5:6); bool rev = std::fabs(s.w[0]-a)<1e-5 && std::fabs(s.w[1]-b)<1e-5 && std::fabs(s.w[2]-c)<1e-5, ok = std::fabs(s.w[0]-c)<1e-5 && std::fabs(s.w[1]-b)<1e-5 && std::fabs(s.w[2]-a)<1e-5; // X belongs to the long wavelengths, Z to the short ones
            if(!ok) vt::violation(rev?"bands-reversed":"spectrum-list", "averages of the short, middle and long wavelengths %.5g %.5g %.5g become X %.5g Y %.5g Z %.5g", a, b, c, s.w[0], s.w[1], s.w[2]);
        }
        try { Spectrum bad({1.f, 2.f}); vt::violation("spectrum-list", "two samples accepted"); } catch(const char*) { vt::count("short lists refused"); }
        if(!SPECTRUM_BLACK.is_black() || SPECTRUM_BLACK.luminance() != 0) vt::violation("constants", "black"); for(int k = 0; k<NW; k++) if(SPECTRUM_ONE.w[k] != 1) vt::violation("constants", "one"); if(NW == 3 && std::fabs(SPECTRUM_WHITE.luminance()-1)>.02) vt::violation("constants", "luminance of white %g", SPECTRUM_WHITE.luminance()); });
    return vt::finish();
}
