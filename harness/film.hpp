// Shared by the film and renderer monitors: reading the saved image, sRGB of the standard.
#ifndef VF_FILM_HPP
#define VF_FILM_HPP
#include "gen.hpp"
#include "cameras/image_film.hpp"
#include "samplers/filter_box.hpp"
#include "samplers/filter_tent.hpp"
#include "samplers/filter_gaussian.hpp"
#include "samplers/filter_mitchell.hpp"
#include "samplers/filter_lanczos.hpp"
#include <memory>
#include <unistd.h>
namespace film
{
struct Img { int w = 0, h = 0; std::vector<unsigned char> px; bool ok = false; };
inline Img read_ppm(const std::string& p)
{
    Img i; std::string d = vt::read_file(p); size_t k = 0; auto num = [&]() { while(k<d.size() && isspace((unsigned char)d[k])) k++; int v = 0; bool any = false; while(k<d.size() && isdigit((unsigned char)d[k])) { v = v*10+d[k++]-'0'; any = true; } return any?v:-1; };
    if(d.compare(0, 2, "P6")) return i;
    k = 2; i.w = num(); i.h = num(); int mx = num(); k++;
    if(i.w<=0 || i.h<=0 || mx != 255 || d.size()-k != (size_t)i.w*i.h*3) return i;
    i.px.assign(d.begin()+k, d.end()); i.ok = true; return i;
}
inline void srgb(const double xyz[3], double out[3])
{
    static const double M[3][3] = {{3.2404542, -1.5371385, -.4985314}, {-.9692660, 1.8760108, .0415560}, {.0556434, -.2040259, 1.0572252}};
    for(int a = 0; a<3; a++) { double v = M[a][0]*xyz[0]+M[a][1]*xyz[1]+M[a][2]*xyz[2]; v = v<=.0031308?12.92*v:1.055*std::pow(v, 1/2.4)-.055; out[a] = v<0?0:v>1?1:v; }
}
// a filter of someone else's: its two ranges differ
struct Oblong : public Filter
{
    Oblong(float rx, float ry):Filter(rx, ry) {}
    float weight(float x, float y) const { return (1.2f-fabsf(x)/range_x)*(1.f-.8f*fabsf(y)/range_y); }
};
inline Filter* make_filter(vt::Rng& r, int k, std::string* nm = NULL)
{
    static const char* N[] = {"box", "tent", "gaussian", "mitchell", "lanczos", "oblong"}; if(nm) *nm = N[k%6];
    switch(k%6) { case 0: return new FilterBox; case 1: return new FilterTent; case 2: return new FilterGaussian(r.rangef(.3f, 4)); case 3: return new FilterMitchell(r.chance(.5)?.33333f:r.uf(), r.chance(.5)?.33333f:r.uf()); case 5: { static const float R[] = {.5f, 1.f, 1.25f, 2.f, 3.f, 4.5f}; int a = r.irange(0, 5), b = r.irange(0, 5); return new Oblong(R[a], R[b]); } default: return new FilterLanczos(r.chance(.5)?3:r.rangef(1, 5)); }
}
struct Acc { double c[3] = {0, 0, 0}, w = 0, a = 0, s = 0; int n = 0; };
}
#endif
