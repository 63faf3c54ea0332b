// C05: reconstruction filters against their published definitions in double precision.
#include "vt.hpp"
#include "samplers/filter_box.hpp"
#include "samplers/filter_tent.hpp"
#include "samplers/filter_gaussian.hpp"
#include "samplers/filter_mitchell.hpp"
#include "samplers/filter_lanczos.hpp"
#include <functional>
#include <memory>
typedef std::function<double(double)> F1;
static double tent(double x, double w) { return std::max(0.0, 1-std::fabs(x)/w); }
static double gauss(double x, double w, double a) { return std::max(0.0, std::exp(-a*x*x)-std::exp(-a*w*w)); }
static double mitchell(double x, double w, double b, double c)      // x scaled so that the support is 2
{
    x = std::fabs(2*x/w); if(x>2) return 0;
    if(x>1) return ((-b-6*c)*x*x*x+(6*b+30*c)*x*x+(-12*b-48*c)*x+(8*b+24*c))/6;
    return ((12-9*b-6*c)*x*x*x+(-18+12*b+6*c)*x*x+(6-2*b))/6;
}
static double sinc(double x) { x *= M_PI; return std::fabs(x)<1e-9?1:std::sin(x)/x; }
static double lanczos(double x, double w, double tau) { x = std::fabs(x/w); if(x>1) return 0; return sinc(x*tau)*sinc(x); }
int main(int argc, char** argv)
{
    vt::init(argc, argv, "every filter with random parameters (falloff .05..20, B and C in 0..1, tau .5..10) at random, zero, tiny, border and mirrored offsets within its extent, plus offsets up to four extents for those that define their value there");
    vt::cases("weights", vt::n(3000, 40000), [](vt::Rng& r, long i) {
        std::unique_ptr<Filter> f; F1 fx, fy; std::string nm; bool nonneg = false, zero_out = true; double scale = 1, par[2] = {0, 0};
        switch(i%5)
        {
            case 0: f.reset(new FilterBox); nm = "box"; fx = fy = [](double) { return 1.0; }; nonneg = true; zero_out = false; break;
            case 1: { f.reset(new FilterTent); nm = "tent"; double w = f->range_x, h = f->range_y; fx = [w](double x) { return tent(x, w); }; fy = [h](double x) { return tent(x, h); }; nonneg = true; break; }
            case 2: { double a = (float)r.logrange(.05, 20); par[0] = a; f.reset(new FilterGaussian((float)a)); nm = "gaussian"; double w = f->range_x, h = f->range_y; fx = [=](double x) { return gauss(x, w, a); }; fy = [=](double x) { return gauss(x, h, a); }; nonneg = true; scale = (1-std::exp(-a*w*w))*(1-std::exp(-a*h*h)); break; }
            case 3: { double b = r.chance(.2)?1/3.f:r.rangef(0, 1), c = r.chance(.2)?1/3.f:r.rangef(0, 1); par[0] = b; par[1] = c; f.reset(new FilterMitchell((float)b, (float)c)); nm = "mitchell"; double w = f->range_x, h = f->range_y; fx = [=](double x) { return mitchell(x, w, b, c); }; fy = [=](double x) { return mitchell(x, h, b, c); }; zero_out = false; break; }
            default: { double t = r.chance(.3)?3:(float)r.range(.5, 10); par[0] = t; f.reset(new FilterLanczos((float)t)); nm = "lanczos"; double w = f->range_x, h = f->range_y; fx = [=](double x) { return lanczos(x, w, t); }; fy = [=](double x) { return lanczos(x, h, t); }; break; }
        }
        if(!(f->range_x>0 && f->range_y>0)) vt::violation("extent", "%s: extent %g x %g", nm.c_str(), f->range_x, f->range_y);
        for(int k = 0; k<300; k++)
        {
            auto off = [&](float w) { float v; switch(r.irange(0, 9)) { case 0: v = 0; break; case 1: v = (float)r.logrange(1e-12, 1e-2); break; case 2: v = w*(1-(float)r.logrange(1e-7, 1e-2)); break; case 3: v = w*.5f; break; case 4: v = w; break; case 5: v = zero_out?w*r.rangef(1.001f, 4):w*r.uf(); break; default: v = w*r.uf(); } return r.chance(.5)?-v:v; };
            float x = off(f->range_x), y = off(f->range_y), g = f->weight(x, y); double e = fx(x)*fy(y), tol = 2e-5*std::max(1.0, 0.0)*(nm == "gaussian"?std::max(scale, 1e-3):1)+1e-5*std::fabs(e)+2e-7;
            vt::eval(vt::hash_bytes(&x, 4, vt::hash_bytes(&y, 4, vt::hash_bytes(par, 16, i%5))), e != 0);
            if(!std::isfinite(g)) { vt::violation("not-finite", "%s(%g,%g) at %g %g: %g", nm.c_str(), par[0], par[1], x, y, g); break; }
            vt::maxi("error "+nm, std::fabs(g-e));
            if(!(std::fabs(g-e)<=tol)) { vt::violation("shape-"+nm, "%s(%g,%g) at offset (%g,%g) gives %.8g, its definition is %.8g", nm.c_str(), par[0], par[1], x, y, g, e); break; }
            if(nonneg && g<0) vt::violation("negative", "%s at %g %g: %g", nm.c_str(), x, y, g);
            if(f->weight(-x, y) != g || f->weight(x, -y) != g || f->weight(-x, -y) != g)
                if(std::fabs(f->weight(-x, y)-g)+std::fabs(f->weight(x, -y)-g)+std::fabs(f->weight(-x, -y)-g)>1e-6*std::max(1.f, std::fabs(g))) vt::violation("asymmetric", "%s at %g %g", nm.c_str(), x, y);
            if(f->range_x == f->range_y) { float t = f->weight(y, x); if(std::fabs(t-g)>1e-6+1e-5*std::fabs(g)) vt::violation("axes-differ", "%s: (%g,%g) %g but (%g,%g) %g", nm.c_str(), x, y, g, y, x, t); }
        }
        vt::count(nm, 300);
    });
    return vt::finish();
}
