// C23: files made by independent encoders are read by the repository.
#include "codec.hpp"
using namespace codec;
int main(int argc, char** argv)
{
    vt::init(argc, argv, "files of every supported variant made by encoders of our own (BMP 24/32 bits both row orders and header sizes, PPM text/binary any maximum and comments, TGA 15/16/24/32 bits raw and run length packets, PNG every colour type, depth, interlacing, palette and transparency, JPEG gray/colour/progressive/subsampled, TIFF strips/tiles/compressions/byte orders/planar/orientations), read through img_valid, img_dimensions and img_read8 into a buffer of exactly that size. Distinct states: file contents");
    vt::cases("read", vt::n(30000, 300000), [](Rng& r, long idx) {
        File_ f = any(r, vt::S().scratch); std::string path = vt::S().scratch+"/r."+f.ext; if(f.truth.p.empty()) return; vt::write_file(path, f.data); const Image& m = f.truth; std::string what = vt::fmt("%s %dx%d", f.what.c_str(), m.w, m.h); vt::eval(vt::hash_str(f.data)); std::string fam = f.ext.substr(0, 3); if(fam == "jpe") fam = "jpg"; vt::count("files read: "+fam);
        { std::string k = f.what.substr(0, 40); for(char& c : k) if(c == ',') c = ' '; if(fam != "jpg" && fam != "ppm") { size_t p = k.find(" gap"); if(p == std::string::npos) p = k.find(" id"); vt::count("variant: "+k.substr(0, p)); } }
        if(!img_valid(path.c_str(), f.ext.c_str())) { vt::violation("not-valid-"+fam, "%s: img_valid refuses it", what.c_str()); return; } int w = -1, h = -1; if(!img_dimensions(path.c_str(), f.ext.c_str(), &w, &h) || w != m.w || h != m.h) { vt::violation("dimensions-"+fam, "%s: dimensions read as %dx%d", what.c_str(), w, h); return; }
        std::vector<uint32_t> v(m.p.size(), 0x5a5a5a5a); if(!img_read8(path.c_str(), f.ext.c_str(), v.data())) { vt::violation("refused-"+fam, "%s: img_read8 refuses it", what.c_str()); return; }
        for(size_t i = 0; i<v.size(); i++) { Px p = unpack(v[i]), q = m.p[i]; int e = std::max(std::max(std::abs(p.r-q.r), std::abs(p.g-q.g)), std::abs(p.b-q.b)), ea = std::abs(p.a-q.a); vt::maxi("largest error "+fam, e); if(e>f.tol || ea>(f.tol == 1?1:0)) { bool ua = f.what.find("extra 2") != std::string::npos; vt::violation(std::string(ea?"wrong-alpha-":"wrong-colour-")+fam, "%s: pixel %d %d is read as %d %d %d %d, encoded %d %d %d %d", what.c_str(), (int)(i%m.w), (int)(i/m.w), p.r, p.g, p.b, p.a, q.r, q.g, q.b, q.a); return; } }
        unlink(path.c_str()); });
    vt::cases("pixel conversion", vt::n(400, 4000), [](Rng& r, long) { int n = r.irange(1, 300); std::vector<uint8_t> in(n*3), back(n*3+3, 7); std::vector<uint32_t> out(n, 0); for(auto& c : in) c = (uint8_t)r.irange(0, 255); RGBtoBGRA(out.data(), in.data(), in.size()); for(int i = 0; i<n; i++) if(out[i] != pack(Px{in[i*3], in[i*3+1], in[i*3+2], 255})) { vt::violation("conversion", "pixel %d of %d: %08x", i, n, out[i]); return; } for(auto& o : out) o = (o&0xffffff00)|(uint32_t)r.irange(0, 255); BGRAtoRGB(back.data(), out.data(), n); vt::eval(vt::hash_bytes(in.data(), in.size())); vt::count("pixel arrays converted"); if(memcmp(back.data(), in.data(), in.size()) || back[n*3] != 7) vt::violation("conversion", "%d pixels do not convert back", n); });
    return vt::finish();
}
