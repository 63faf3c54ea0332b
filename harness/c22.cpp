// C22: image files written by the repository are decoded by independent decoders; writes which cannot succeed must be reported.
#include "codec.hpp"
#include <sys/resource.h>
#include <errno.h>
using namespace codec;
static std::vector<uint32_t> packed(const Image& m) { std::vector<uint32_t> v; for(auto& q : m.p) v.push_back(pack(q)); return v; }
static double luma(const Px& q) { return .299*q.r+.587*q.g+.114*q.b; }
static void compare(const std::string& ext, const Image& a, const Image& b, const std::string& what, int kind)
{
    if(a.w != b.w || a.h != b.h) { vt::violation("wrong-size-"+ext, "%s: decodes as %dx%d", what.c_str(), b.w, b.h); return; }
    bool jpeg = ext[0] == 'j'; double tol = jpeg?kind == 2?4:10:0; for(int y = 0; y<a.h; y++) for(int x = 0; x<a.w; x++) { const Px& p = a.at(x, y), & q = b.at(x, y); double e = std::max(std::max(std::abs(p.r-q.r), std::abs(p.g-q.g)), std::abs(p.b-q.b)); if(jpeg && kind == 5) e = std::fabs(luma(p)-luma(q)); vt::maxi("largest error "+ext, e); if(e>tol) { vt::violation("wrong-pixel-"+ext, "%s: pixel %d %d is %d %d %d, written %d %d %d", what.c_str(), x, y, q.r, q.g, q.b, p.r, p.g, p.b); return; } }
}
int main(int argc, char** argv)
{
    vt::init(argc, argv, "images of random sizes and contents (noise, two-level, constant, gradient, runs) written in the six formats through img_write and decoded by decoders of our own (libjpeg for JPEG); write faults: full device, missing or unwritable folder, file size limit at every byte position class. Distinct states: file contents");
    signal(SIGXFSZ, SIG_IGN); signal(SIGPIPE, SIG_IGN);
    vt::cases("write", vt::n(24000, 240000), [](Rng& r, long idx) {
        std::string ext = EXT[r.irange(0, 7)]; bool jpeg = ext[0] == 'j'; int kind = jpeg?(r.chance(.4)?2:r.chance(.5)?3:5):-1; Image m = rand_image(r, kind == 5?0:kind); if(kind == 5) for(auto& q : m.p) q.r = q.g = q.b; if(jpeg && kind == 3 && (m.w<16 || m.h<16)) { kind = 2; m = rand_image(r, 2, m.w, m.h); }
        if(idx%50 == 7) m = rand_image(r, 2, ext == "ppm"?1:r.irange(1000, 3000), r.irange(1, 3)); auto v = packed(m); std::string path = vt::S().scratch+"/w."+ext; if(r.chance(.5)) vt::write_file(path, junk(r, r.irange(0, 60000))); std::string what = vt::fmt("%s %dx%d", ext.c_str(), m.w, m.h);
        char ok = img_write(path.c_str(), ext.c_str(), m.w, m.h, v.data()); vt::count("images written as "+ext); if(!ok) { vt::violation("refused-"+ext, "%s: img_write reports failure", what.c_str()); return; }
        Bytes b = vt::read_file(path); vt::eval(vt::hash_str(b)); Image d; std::string why; if(!decode(ext, b, d, why)) { vt::violation("invalid-"+ext, "%s: the written file is not valid (%s)", what.c_str(), why.c_str()); return; } compare(ext, m, d, what, kind);
        // and the repository's own reader agrees
        int w = -1, h = -1; if(!img_valid(path.c_str(), ext.c_str()) || !img_dimensions(path.c_str(), ext.c_str(), &w, &h) || w != m.w || h != m.h) { vt::violation("own-reader-"+ext, "%s: read back as %dx%d", what.c_str(), w, h); return; } std::vector<uint32_t> back(v.size(), 0x12345678); if(!img_read8(path.c_str(), ext.c_str(), back.data())) { vt::violation("own-reader-"+ext, "%s: cannot be read back", what.c_str()); return; } for(size_t i = 0; i<v.size(); i++) { Px p = unpack(back[i]), q = d.p[i]; int t = jpeg?4:0; if(std::abs(p.r-q.r)>t || std::abs(p.g-q.g)>t || std::abs(p.b-q.b)>t || p.a != 255) { vt::violation("own-reader-"+ext, "%s: pixel %zu is read back as %08x", what.c_str(), i, back[i]); return; } }
        unlink(path.c_str()); });
    vt::cases("faults", vt::n(12000, 120000), [](Rng& r, long idx) {
        std::string ext = EXT[r.irange(0, 7)]; Image m = rand_image(r); if(idx%20 == 3) m = rand_image(r, 0, r.irange(60, 130), r.irange(40, 120)); auto v = packed(m); std::string sc = vt::S().scratch, path = sc+"/f."+ext; unlink(path.c_str()); int fault = r.irange(0, 5); std::string what;
        struct rlimit old, lim; getrlimit(RLIMIT_FSIZE, &old); size_t full = 0, cap = 0; bool expect = false;
        if(fault == 0) { path = sc+"/missing/f."+ext; what = "missing folder"; } else if(fault == 1) { path = sc+"/dir."+ext; mkdir(path.c_str(), 0700); what = "a folder of that name"; } else if(fault == 2) { path = sc+"/full."+ext; if(symlink("/dev/full", path.c_str()) && errno != EEXIST) return; what = "full device"; }
        else { if(!img_write(path.c_str(), ext.c_str(), m.w, m.h, v.data())) { vt::violation("refused-"+ext, "%s %dx%d: img_write reports failure", ext.c_str(), m.w, m.h); return; } full = vt::read_file(path).size(); unlink(path.c_str()); cap = r.chance(.3)?full-1-r.next()%std::min<size_t>(full, 16):r.chance(.3)?r.next()%std::min<size_t>(full, 64):r.next()%full; if(fault == 5 && r.chance(.5)) { cap = full; expect = true; } what = vt::fmt("at most %zu of %zu bytes", cap, full); lim = old; lim.rlim_cur = cap; if(!expect) setrlimit(RLIMIT_FSIZE, &lim); }
        char ok = img_write(path.c_str(), ext.c_str(), m.w, m.h, v.data()); setrlimit(RLIMIT_FSIZE, &old); vt::count((expect?"control writes as ":"faulty writes as ")+ext); vt::eval(vt::hash_bytes(&cap, sizeof cap, vt::hash_str(ext+what)+full));
        if(ok && !expect) vt::violation("unreported-"+ext, "%s %dx%d to %s: reported as written", ext.c_str(), m.w, m.h, what.c_str()); if(!ok && expect) vt::violation("refused-"+ext, "%s %dx%d", ext.c_str(), m.w, m.h); if(fault>2) unlink(path.c_str()); if(fault == 1) rmdir(path.c_str()); });
    vt::cases("limits", vt::n(16, 32), [](Rng& r, long idx) {       // sizes at the border of what a format can say
        std::string ext = EXT[idx%8]; bool wide = idx/8%2; int n = r.chance(.5)?65536:65536+r.irange(0, 300); Image m = rand_image(r, 2, wide?n:1, wide?1:n); auto v = packed(m); std::string path = vt::S().scratch+"/l."+ext; char ok = img_write(path.c_str(), ext.c_str(), m.w, m.h, v.data()); vt::count("images beyond 65535"); vt::eval((uint64_t)idx*7919+n); if(!ok) { vt::count("images beyond 65535 refused"); return; } Image d; std::string why; if(!decode(ext, vt::read_file(path), d, why)) vt::violation("invalid-"+ext, "%s %dx%d: %s", ext.c_str(), m.w, m.h, why.c_str()); else compare(ext, m, d, vt::fmt("%s %dx%d", ext.c_str(), m.w, m.h), 2); unlink(path.c_str()); });
    vt::cases("names", vt::n(100, 400), [](Rng& r, long) { static const char* BAD[] = {"", "bm", "bmpp", "BMP", "gif", "txt", "jp", "png ", "tga2"}; Image m = rand_image(r, 2, 3, 2); auto v = packed(m); for(auto e : BAD) { vt::eval(vt::hash_str(e)); if(img_supported(e) || img_valid("nothing", e)) vt::violation("extension", "\"%s\" is reported as supported", e); if(img_write((vt::S().scratch+"/n").c_str(), e, 3, 2, v.data())) vt::violation("extension", "writing \"%s\" is reported as done", e); } for(auto e : EXT) if(!img_supported(e)) vt::violation("extension", "\"%s\" is not supported", e); });
    return vt::finish();
}
