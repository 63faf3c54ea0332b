// C20: image texture lookups against an interval model of the mip pyramid and of the three filters.
#include "vt.hpp"
#include "textures/image_map.hpp"
#include "textures/texture_image.hpp"
#include "textures/texture_library.hpp"
#include "primitives/hit_point.hpp"
#include <memory>
using vt::Rng;
struct Iv { double lo[4], hi[4]; };
static void chan(uint32_t p, double* o) { o[0] = p >> 24; o[1] = (p >> 16)&255; o[2] = (p >> 8)&255; o[3] = p&255; }
// every level as an interval: averages of four rounded down or up, at every step
struct Pyr
{
    std::vector<int> side; std::vector<std::vector<Iv>> l;
    Pyr(const std::vector<uint32_t>& px, int s)
    {
        std::vector<Iv> a(px.size()); for(size_t i = 0; i<px.size(); i++) { chan(px[i], a[i].lo); chan(px[i], a[i].hi); }
        side.push_back(s); l.push_back(a);
        while(s>1) { int h = s/2; std::vector<Iv> b(h*h); for(int y = 0; y<h; y++) for(int x = 0; x<h; x++) for(int c = 0; c<4; c++) { double lo = 0, hi = 0; for(int k = 0; k<4; k++) { const Iv& t = l.back()[(2*y+k/2)*s+2*x+k%2]; lo += t.lo[c]; hi += t.hi[c]; } b[y*h+x].lo[c] = std::floor(lo/4); b[y*h+x].hi[c] = std::ceil(hi/4); } side.push_back(h); l.push_back(b); s = h; }
    }
    static int wrap(long i, int s) { long m = i%s; return (int)(m<0?m+s:m); }
    const Iv& at(int lev, long x, long y) const { int s = side[lev]; return l[lev][wrap(y, s)*s+wrap(x, s)]; }
    Iv bilinear(double u, double v, int lev) const
    {
        double x = u*side[lev]-.5, y = v*side[lev]-.5, fx = std::floor(x), fy = std::floor(y), dx = x-fx, dy = y-fy; Iv r;
        for(int c = 0; c<4; c++) { r.lo[c] = r.hi[c] = 0; for(int k = 0; k<4; k++) { double w = (k%2?dx:1-dx)*(k/2?dy:1-dy); const Iv& t = at(lev, (long)fx+k%2, (long)fy+k/2); r.lo[c] += w*t.lo[c]; r.hi[c] += w*t.hi[c]; } }
        return r;
    }
    static Iv mix(const Iv& a, const Iv& b, double t) { Iv r; for(int c = 0; c<4; c++) { r.lo[c] = a.lo[c]*(1-t)+b.lo[c]*t; r.hi[c] = a.hi[c]*(1-t)+b.hi[c]*t; } return r; }
    Iv trilinear(double u, double v, double dudx, double dvdx, double dudy, double dvdy) const
    {
        double w = std::max(std::max(std::fabs(dudx), std::fabs(dvdx)), std::max(std::fabs(dudy), std::fabs(dvdy))); int n = (int)side.size(); double lev = w>0?n-1+std::log2(w):0;
        if(lev<=0) return bilinear(u, v, 0); if(lev>=n-1) return l[n-1][0];
        int k = (int)lev; return mix(bilinear(u, v, k), bilinear(u, v, k+1), lev-k);
    }
    Iv ewa1(double u, double v, double ax, double ay, double bx, double by, int lev) const       // a, b: the axes
    {
        int s = side[lev]; double x = u*s-.5, y = v*s-.5; ax *= s; ay *= s; bx *= s; by *= s;
        double A = ay*ay+by*by+1, B = -2*(ax*ay+bx*by), C = ax*ax+bx*bx+1, F = A*C-B*B/4; double rx = std::sqrt(C), ry = std::sqrt(A);
        Iv r; double W = 0; for(int c = 0; c<4; c++) r.lo[c] = r.hi[c] = 0;
        for(long j = (long)std::ceil(y-ry); j<=std::floor(y+ry); j++) for(long i = (long)std::ceil(x-rx); i<=std::floor(x+rx); i++)
        {
            double p = i-x, q = j-y, r2 = (A*p*p+B*p*q+C*q*q)/F; if(r2>=1) continue;
            double w = std::exp(-2*r2)-std::exp(-2.0); W += w; const Iv& t = at(lev, i, j); for(int c = 0; c<4; c++) { r.lo[c] += w*t.lo[c]; r.hi[c] += w*t.hi[c]; }
        }
        for(int c = 0; c<4; c++) { r.lo[c] /= W; r.hi[c] /= W; } return r;
    }
    Iv ewa(double u, double v, double ax, double ay, double bx, double by, bool& sure) const
    {
        double la = std::hypot(ax, ay), lb = std::hypot(bx, by); if(la<lb) { std::swap(la, lb); std::swap(ax, bx); std::swap(ay, by); }
        if(lb == 0) return bilinear(u, v, 0); if(lb<1e-18) { sure = false; return bilinear(u, v, 0); }
        if(lb*30<la) { double k = la/(lb*30); bx *= k; by *= k; lb *= k; }
        int n = (int)side.size(); double lev = std::max(0.0, n-1+std::log2(lb)); if(lev>=n-1) return l[n-1][0];
        int k = (int)lev; return mix(ewa1(u, v, ax, ay, bx, by, k), ewa1(u, v, ax, ay, bx, by, k+1), lev-k);
    }
};
enum { UNF, TRI, EW };
static ImageMap* make(int f, const std::vector<uint32_t>& px, int s) { if(f == UNF) return new ImageMapUnfiltered(px.data(), (uint16_t)s); if(f == TRI) return new ImageMapTrilinear(px.data(), (uint16_t)s); return new ImageMapEWA(px.data(), (uint16_t)s); }
static const char* FN[] = {"unfiltered", "trilinear", "EWA"};
static std::vector<uint32_t> image(Rng& r, int s, int kind)
{
    std::vector<uint32_t> p(s*s); uint32_t c = (uint32_t)r.next();
    for(int i = 0; i<s*s; i++) switch(kind) { case 0: p[i] = (uint32_t)r.next(); break; case 1: p[i] = c; break; case 2: p[i] = ((i%s+i/s)&1)?0xFFFFFFFFu:0; break; case 3: p[i] = (uint32_t)(i%s*255/std::max(1, s-1)) << 24|(uint32_t)(i/s*255/std::max(1, s-1)) << 16|(i%s?0:0xFF00)|(i/s?0:0xFF); break; default: p[i] = i == (int)(c%(s*s))?0xFFFFFFFFu:0; }
    return p;
}
static float coord(Rng& r, int s)
{
    switch(r.irange(0, 9)) { case 0: return 0; case 1: return 1; case 2: return (r.irange(0, s))/(float)s; case 3: return (r.irange(0, s-1)+.5f)/s; case 4: return (float)(r.u()*.6/s); case 5: return 1-(float)(r.u()*.6/s); case 6: return std::nextafter(r.irange(0, s)/(float)s, r.chance(.5)?2.f:-1.f); default: return r.uf(); }
}
static double deriv(Rng& r, int s) { double d; switch(r.irange(0, 7)) { case 0: return 0; case 1: d = std::ldexp(1.0, -r.irange(0, 9)); break; case 2: d = r.logrange(1e-6, 1e-2); break; case 3: d = r.logrange(1, 1e4); break; case 4: d = r.logrange(1e4, 1e38); break; default: d = r.logrange(.2/s, 1); } return (float)(r.chance(.5)?d:-d); }
static std::string show(uint32_t p) { double c[4]; chan(p, c); return vt::fmt("b%g g%g r%g a%g", c[0], c[1], c[2], c[3]); }
static std::string show(const Iv& v) { return vt::fmt("b%.2f..%.2f g%.2f..%.2f r%.2f..%.2f a%.2f..%.2f", v.lo[0], v.hi[0], v.lo[1], v.hi[1], v.lo[2], v.hi[2], v.lo[3], v.hi[3]); }
// eu, ev: how far the float coordinates may be from u, v
static bool half(const Pyr& P, double u, double v, uint32_t got, double eps)      // texel of the known half texel shift
{
    int s = P.side[0]; double g[4]; chan(got, g);
    for(int sx = -1; sx<=1; sx++) for(int sy = -1; sy<=1; sy++) { auto tx = [&](double w, int sg) { if(w*s<eps && sg<0) return (long)s-1; if(w*s>s-eps && sg>0) return 0l; return (long)std::max(0.0, std::floor(w*s-.5+sg*eps)); }; const Iv& t = P.at(0, tx(u, sx), tx(v, sy)); bool same = true; for(int c = 0; c<4; c++) if(g[c] != t.lo[c]) same = false; if(same) return true; }
    return false;
}
static bool check(const Pyr& P, int f, double u, double v, const double* d, uint32_t got, double eu, double ev, std::string& why)
{
    int s = P.side[0]; double g[4]; chan(got, g);
    if(f == UNF)
    {
        double eps = 1e-5+std::max(eu, ev)*s; if(eps>.3) return true;
        for(int sx = -1; sx<=1; sx++) for(int sy = -1; sy<=1; sy++)
        {
            long x = (long)std::floor(u*s+sx*eps), y = (long)std::floor(v*s+sy*eps); const Iv& t = P.at(0, x, y); bool same = true; for(int c = 0; c<4; c++) if(g[c] != t.lo[c]) same = false; if(same) return true;
        }
        why = (half(P, u, v, got, eps)?"half":"texel ")+show(P.at(0, (long)std::floor(u*s), (long)std::floor(v*s))); return false;
    }
    bool sure = true; Iv e = f == TRI?P.trilinear(u, v, d[0], d[1], d[2], d[3]):P.ewa(u, v, d[0], d[1], d[2], d[3], sure);
    double tol = (f == TRI?2.05:5.5)+255*4*std::max(eu, ev)*s; if(!sure) return true;
    for(int c = 0; c<4; c++) { vt::maxi(f == TRI?"trilinear distance from model":"EWA distance from model", std::max(e.lo[c]-g[c], g[c]-e.hi[c])-255*4*std::max(eu, ev)*s); if(g[c]<e.lo[c]-tol || g[c]>e.hi[c]+tol) { why = "model "+show(e); return false; } }
    return true;
}
static bool convex(const std::vector<uint32_t>& px, uint32_t got, std::string& why)
{
    double lo[4] = {255, 255, 255, 255}, hi[4] = {0, 0, 0, 0}, t[4], g[4]; for(uint32_t p : px) { chan(p, t); for(int c = 0; c<4; c++) { lo[c] = std::min(lo[c], t[c]); hi[c] = std::max(hi[c], t[c]); } }
    chan(got, g); for(int c = 0; c<4; c++) if(g[c]<lo[c] || g[c]>hi[c]) { why = "outside the range of the image's texels"; return false; } return true;
}
int main(int argc, char** argv)
{
    vt::init(argc, argv, "image maps of side 1..128 (noise, constant, chequer, ramps, single texel) with each filter at interior, border, texel centre, texel edge and corner coordinates and derivatives from 0 to 1e38 (exact powers of two included), and textures over them with random shift and scale at coordinates in -1e6..1e6 with and without differentials; images given in memory and from files. Distinct states: distinct lookups");
    vt::cases("image map", vt::n(6000, 60000), [](Rng& r, long i) {
        int f = i%3, s = 1 << r.irange(0, r.chance(.1)?7:5), kind = r.irange(0, 4); std::vector<uint32_t> px = image(r, s, kind); std::unique_ptr<ImageMap> m(make(f, px, s)); Pyr P(px, s);
        for(int k = 0; k<60; k++)
        {
            float u = coord(r, s), v = coord(r, s); if(u<0) u = 0; if(v<0) v = 0; if(u>1) u = 1; if(v>1) v = 1; double d[4]; for(double& x : d) x = deriv(r, s); int z = r.irange(0, 9); if(z == 0) d[0] = d[1] = d[2] = d[3] = 0; if(z == 1) d[0] = d[1] = 0; if(z == 2) d[2] = d[3] = 0; if(z == 3) { d[2] = d[0]; d[3] = d[1]; } if(z == 4) { d[0] = d[3]; d[1] = d[2] = 0; }
            uint32_t got = m->filter(u, v, (float)d[0], (float)d[1], (float)d[2], (float)d[3]).bgra_value; struct { float u, v; double d[4]; uint32_t h; } key = {u, v, {d[0], d[1], d[2], d[3]}, px[0]}; vt::eval(vt::hash_bytes(&key, sizeof key, f*100+s)); vt::count(std::string(FN[f])+" lookups"); std::string why;
            if(kind == 1 && got != px[0]) { vt::violation("constant", "%s of a constant %dx%d image (%s) at %.9g,%.9g derivatives %g %g %g %g: %s", FN[f], s, s, show(px[0]).c_str(), u, v, d[0], d[1], d[2], d[3], show(got).c_str()); return; }
            if(!convex(px, got, why) && kind != 1 && f == UNF) { vt::violation("not-convex", "%s of %dx%d at %.9g,%.9g: %s, %s", FN[f], s, s, u, v, show(got).c_str(), why.c_str()); return; }
            if(!check(P, f, u, v, d, got, 6e-8, 6e-8, why)) { vt::violation(why.substr(0, 4) == "half"?std::string("unfiltered-half-texel"):std::string("wrong-")+FN[f], "%s of %dx%d (kind %d) at %.9g,%.9g derivatives %.9g %.9g %.9g %.9g: %s, %s", FN[f], s, s, kind, u, v, d[0], d[1], d[2], d[3], show(got).c_str(), why.c_str()); if(why.substr(0, 4) != "half") return; }
        } });
    vt::cases("texture", vt::n(4000, 40000), [](Rng& r, long i) {
        int f = i%3, s = 1 << r.irange(0, 5), kind = r.irange(0, 4); std::vector<uint32_t> px = image(r, s, kind); std::unique_ptr<ImageMap> m; Pyr P(px, s); std::unique_ptr<TextureImage> t; bool exact = r.chance(.5);
        auto num = [&](bool sc) { double x = r.irange(0, 4); if(x == 0) return sc?1.f:0.f; if(x == 1) return (float)r.irange(-6, 6); if(exact) return r.irange(-64, 64)/16.f; return (float)r.range(-5, 5); };
        Vec2 shift(num(false), num(false)), scale(num(true), num(true)); bool file = r.chance(.3); std::string path;
        if(file)
        {
            path = vt::S().scratch+vt::fmt("/t%ld.tga", i); std::string o(18, 0); o[2] = 2; o[12] = (char)(s&255); o[13] = (char)(s >> 8); o[14] = (char)(s&255); o[15] = (char)(s >> 8); o[16] = 32; o[17] = 0x28; for(uint32_t p : px) { o += (char)(p >> 24); o += (char)(p >> 16); o += (char)(p >> 8); o += (char)p; }
            vt::write_file(path, o); TexLib.clear(); t.reset(new TextureImage(File(path.c_str()), shift, scale, f == UNF?UNFILTERED:f == TRI?TRILINEAR:EWA)); vt::count("textures from files"); if(r.chance(.5)) { std::unique_ptr<TextureImage> t2(new TextureImage(File(path.c_str()), shift, scale, f == UNF?UNFILTERED:f == TRI?TRILINEAR:EWA)); t = std::move(t2); }
        }
        else { m.reset(make(f, px, s)); t.reset(new TextureImage(m.get(), shift, scale, f == UNF)); }
        for(int k = 0; k<40; k++)
        {
            HitPoint h; double big = r.chance(.1)?1e6:r.chance(.5)?8:1; float a[2]; for(float& x : a) { switch(r.irange(0, 3)) { case 0: x = r.irange(-8*64, 8*64)/64.f; break; case 1: x = coord(r, s); break; default: x = (float)r.range(-big, big); } if(exact) x = std::floor(x*256)/256; } h.uv = Point2(a[0], a[1]); h.differentials = r.chance(.6); double q[4]; for(double& x : q) x = deriv(r, s); h.du = Vec2((float)q[0], (float)q[1]); h.dv = Vec2((float)q[2], (float)q[3]);
            double u = (double)a[0]*scale.x+shift.x, v = (double)a[1]*scale.y+shift.y, mu = std::max(1.0, std::fabs((double)a[0]*scale.x)+std::fabs(shift.x)), mv = std::max(1.0, std::fabs((double)a[1]*scale.y)+std::fabs(shift.y));
            double d[4] = {0, 0, 0, 0}; if(h.differentials) { d[0] = (float)q[0]*scale.x; d[2] = (float)q[1]*scale.x; d[1] = (float)q[2]*scale.y; d[3] = (float)q[3]*scale.y; }
            uint32_t got = t->map_value(&h).bgra_value; struct { float u, v; double d[4]; uint32_t h; } key = {a[0], a[1], {d[0], d[1], d[2], d[3]}, px[0]}; vt::eval(vt::hash_bytes(&key, sizeof key, f*100+s)); vt::count("texture lookups"); if(u<0 || v<0) vt::count("texture lookups at negative coordinates"); std::string why;
            std::string at = vt::fmt("%s texture%s of %dx%d (kind %d) scale %.9g,%.9g shift %.9g,%.9g at %.9g,%.9g (texture space %.9g,%.9g) du %g %g dv %g %g%s", FN[f], file?" from a file":"", s, s, kind, scale.x, scale.y, shift.x, shift.y, a[0], a[1], u, v, q[0], q[1], q[2], q[3], h.differentials?"":" unused");
            if(kind == 1 && got != px[0]) { vt::violation("constant", "%s: %s instead of %s", at.c_str(), show(got).c_str(), show(px[0]).c_str()); break; }
            double eu = 1.5e-7*mu, ev = 1.5e-7*mv; if(std::max(eu, ev)*s<.05 && !check(P, f, u-std::floor(u), v-std::floor(v), d, got, eu, ev, why)) { vt::violation(why.substr(0, 4) == "half"?std::string("unfiltered-half-texel"):std::string("wrong-texture-")+FN[f], "%s: %s, %s", at.c_str(), show(got).c_str(), why.c_str()); if(why.substr(0, 4) != "half") break; }
            Spectrum sp = t->map(&h), want(got, false); bool same = true; for(int w = 0; w<(int)(sizeof(sp.w)/sizeof(sp.w[0])); w++) if(!(sp.w[w] == want.w[w]) || !std::isfinite(sp.w[w])) same = false; if(!same) { vt::violation("map-value", "%s: map() is not the colour of map_value()", at.c_str()); break; }
            // whole repeats; exact arithmetic needed
            if(exact && scale.x == 1 && scale.y == 1 && big<100)
            {
                HitPoint h2 = h; h2.uv.x += r.irange(-9, 9); h2.uv.y += r.irange(-9, 9); bool seam = f == UNF && (u == std::floor(u) || v == std::floor(v)); uint32_t g2 = t->map_value(&h2).bgra_value; vt::count("whole repeats compared"); if(!seam && g2 != got) { vt::violation("repeat", "%s: %s, but %s at %.9g,%.9g", at.c_str(), show(got).c_str(), show(g2).c_str(), h2.uv.x, h2.uv.y); break; }
            }
            if(exact && k%4 == 0) { Vec2 s2(shift.x+r.irange(-5, 5), shift.y+r.irange(-5, 5)); if(!file) { TextureImage t2(m.get(), s2, scale, f == UNF); uint32_t g2 = t2.map_value(&h).bgra_value; bool seam = f == UNF && (u == std::floor(u) || v == std::floor(v)); vt::count("whole repeats compared"); if(!seam && mu<1e3 && mv<1e3 && g2 != got) { vt::violation("repeat", "%s: %s, but %s with shift %g,%g", at.c_str(), show(got).c_str(), show(g2).c_str(), s2.x, s2.y); break; } } }
        }
        if(file) { t.reset(); TexLib.clear(); unlink(path.c_str()); } });
    return vt::finish();
}
