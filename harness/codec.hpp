// Independent encoders and decoders of the image formats (PNG, BMP, PPM, TGA and plain TIFF are written from the format descriptions; JPEG and
// the compressed TIFF variants use libjpeg and libtiff directly).
#ifndef CODEC_HPP
#define CODEC_HPP
#include "vt.hpp"
#include <zlib.h>
#include <jpeglib.h>
#include <tiffio.h>
#include <setjmp.h>
extern "C" {
#include "utility/imageio/imageio.h"
}
namespace codec
{
using vt::Rng; typedef std::string Bytes;
struct Px { int r, g, b, a; };
struct Image { int w = 0, h = 0; std::vector<Px> p; Px& at(int x, int y) { return p[(size_t)y*w+x]; } const Px& at(int x, int y) const { return p[(size_t)y*w+x]; } };
inline uint32_t pack(const Px& p) { return (uint32_t)p.b << 24|(uint32_t)p.g << 16|(uint32_t)p.r << 8|(uint32_t)p.a; }
inline Px unpack(uint32_t v) { return Px{(int)(v >> 8&255), (int)(v >> 16&255), (int)(v >> 24), (int)(v&255)}; }
inline void rand_size(Rng& r, int& w, int& h) { switch(r.irange(0, 7)) { case 0: w = r.irange(1, 4); h = r.irange(1, 4); break; case 1: w = r.irange(1, 300); h = r.irange(1, 3); break; case 2: w = r.irange(1, 3); h = r.irange(1, 300); break; case 3: w = h = 1 << r.irange(0, 6); break; case 4: w = r.irange(120, 135); h = r.irange(1, 20); break; default: w = r.irange(1, 40); h = r.irange(1, 40); } }
inline Image rand_image(Rng& r, int kind = -1, int w = 0, int h = 0)
{
    Image m; if(!w) rand_size(r, w, h); m.w = w; m.h = h; m.p.resize((size_t)w*h); if(kind<0) kind = r.irange(0, 4); double c[12]; for(double& v : c) v = r.range(0, 255); int base[4]; for(int& b : base) b = r.irange(0, 255);
    for(int y = 0; y<h; y++) for(int x = 0; x<w; x++)
    {
        Px& q = m.at(x, y); int v[4]; for(int k = 0; k<4; k++) switch(kind) { case 0: v[k] = r.irange(0, 255); break; case 1: v[k] = r.chance(.5)?0:255; break; case 2: v[k] = base[k]; break; case 3: v[k] = (int)(c[k]+(c[k+4]-c[k])*x/std::max(1, w-1)*.5+(c[k+8]-c[k])*y/std::max(1, h-1)*.5); break; default: v[k] = x == 0 || r.chance(.2)?r.irange(0, 255):-1; if(v[k]<0) { const Px& l = m.at(x-1, y); v[k] = k == 0?l.r:k == 1?l.g:k == 2?l.b:l.a; } }
        for(int& z : v) z = std::max(0, std::min(255, z)); q = Px{v[0], v[1], v[2], v[3]};
    }
    return m;
}
inline Image runs(Rng& r) { Image m = rand_image(r, 0); Px c = m.p[0]; double k = r.u(); for(auto& q : m.p) { if(r.chance(k)) c = q; q = c; } return m; }
inline void le16(Bytes& b, int v) { b += (char)(v&255); b += (char)(v >> 8&255); }
inline void le32(Bytes& b, uint32_t v) { le16(b, v&0xffff); le16(b, v >> 16); }
inline void be32(Bytes& b, uint32_t v) { for(int i = 24; i>=0; i -= 8) b += (char)(v >> i&255); }
inline int gl16(const Bytes& b, size_t o) { return (uint8_t)b[o]|(uint8_t)b[o+1] << 8; }
inline uint32_t gl32(const Bytes& b, size_t o) { return (uint32_t)gl16(b, o)|(uint32_t)gl16(b, o+2) << 16; }
inline uint32_t gb32(const Bytes& b, size_t o) { return (uint32_t)(uint8_t)b[o] << 24|(uint32_t)(uint8_t)b[o+1] << 16|(uint32_t)(uint8_t)b[o+2] << 8|(uint8_t)b[o+3]; }
inline Bytes junk(Rng& r, int n) { Bytes b; for(int i = 0; i<n; i++) b += (char)r.irange(0, 255); return b; }
// a written file plus what reading it must give (alpha included) and how far colours may be off
struct File_ { Bytes data; Image truth; int tol = 0; std::string ext, what; };
// ------------------------------------------------------------------ BMP
inline File_ bmp(Rng& r)
{
    File_ f; f.ext = "bmp"; Image m = rand_image(r); int bpp = r.chance(.6)?24:32; bool up = r.chance(.5); int hs = r.chance(.7)?40:r.chance(.5)?108:124, gap = r.chance(.7)?0:r.irange(1, 40), row = (m.w*bpp/8+3)/4*4; bool sz = r.chance(.5); Bytes& b = f.data;
    b = "BM"; le32(b, 14+hs+gap+row*m.h); le32(b, r.chance(.8)?0:(uint32_t)r.next()); le32(b, 14+hs+gap); le32(b, hs); le32(b, m.w); le32(b, up?m.h:-m.h); le16(b, 1); le16(b, bpp); le32(b, 0); le32(b, sz?row*m.h:0); le32(b, r.chance(.5)?2835:0); le32(b, 2835); le32(b, 0); le32(b, 0); b += Bytes(hs-40, 0); b += junk(r, gap);
    for(int y = 0; y<m.h; y++) { int yy = up?m.h-1-y:y; size_t s = b.size(); for(int x = 0; x<m.w; x++) { Px& q = m.at(x, yy); b += (char)q.b; b += (char)q.g; b += (char)q.r; if(bpp == 32) b += (char)q.a; else q.a = 255; } while((b.size()-s)%4) b += (char)r.irange(0, 255); }
    if(r.chance(.2)) b += junk(r, r.irange(1, 50)); f.truth = m; f.what = vt::fmt("bmp %d bpp %s header %d gap %d", bpp, up?"bottom-up":"top-down", hs, gap); return f;
}
inline bool un_bmp(const Bytes& b, Image& m, std::string& why)
{
    if(b.size()<54 || b[0] != 'B' || b[1] != 'M') { why = "no header"; return false; } if(gl32(b, 2) != b.size()) { why = vt::fmt("header says %u bytes, file has %zu", gl32(b, 2), b.size()); return false; }
    uint32_t off = gl32(b, 10); int hs = (int)gl32(b, 14), w = (int)gl32(b, 18), h = (int)gl32(b, 22), pl = gl16(b, 26), bpp = gl16(b, 28); if(hs<40 || pl != 1 || (bpp != 24 && bpp != 32) || gl32(b, 30) || w<=0 || h == 0 || off<14u+hs) { why = "bad header"; return false; } bool up = h>0; int H = std::abs(h), row = (w*bpp/8+3)/4*4; if(gl32(b, 34) && gl32(b, 34) != (uint32_t)row*H) { why = "bad image size"; return false; } if(off+(size_t)row*H != b.size()) { why = vt::fmt("%zu bytes, %zu expected", b.size(), off+(size_t)row*H); return false; }
    m.w = w; m.h = H; m.p.resize((size_t)w*H); for(int y = 0; y<H; y++) for(int x = 0; x<w; x++) { size_t o = off+(size_t)row*(up?H-1-y:y)+x*(bpp/8); m.at(x, y) = Px{(uint8_t)b[o+2], (uint8_t)b[o+1], (uint8_t)b[o], 255}; } return true;
}
// ------------------------------------------------------------------ PPM
inline Bytes blank(Rng& r, bool comments) { Bytes s; const char* W = " \t\n\r\v\f"; do { if(comments && r.chance(.3)) { s += "\n#"; for(int i = r.irange(0, 20); i>0; i--) s += (char)r.irange(32, 126); s += "\n"; } else s += r.chance(.6)?' ':W[r.irange(0, 5)]; } while(r.chance(.3)); return s; }
inline File_ ppm(Rng& r)
{
    File_ f; f.ext = "ppm"; Image m = rand_image(r); bool p3 = r.chance(.4), com = r.chance(.4); int mx = r.chance(.5)?255:r.chance(.3)?65535:r.chance(.5)?r.irange(1, 254):r.irange(256, 65535); f.tol = mx == 255?0:1;
    Bytes& b = f.data; b = p3?"P3":"P6"; b += blank(r, com)+std::to_string(m.w)+blank(r, com)+std::to_string(m.h)+blank(r, com)+std::to_string(mx); const char* W = " \n\t\r"; b += p3?blank(r, false):Bytes(1, W[r.irange(0, 3)]);
    for(auto& q : m.p) { int* c[3] = {&q.r, &q.g, &q.b}; for(int* v : c) { int s = mx == 255?*v:r.irange(0, mx); if(r.chance(.1)) s = r.chance(.5)?0:mx; *v = (int)(s*255.0/mx+1e-9); if(p3) { b += std::to_string(s)+blank(r, false); } else if(mx<256) b += (char)s; else { b += (char)(s >> 8); b += (char)(s&255); } } q.a = 255; }
    f.truth = m; f.what = vt::fmt("ppm %s maximum %d%s", p3?"text":"binary", mx, com?" with comments":""); return f;
}
inline bool un_ppm(const Bytes& b, Image& m, std::string& why)
{
    size_t p = 2; if(b.size()<2 || b[0] != 'P' || b[1] != '6') { why = "no header"; return false; } auto num = [&]() { while(p<b.size() && isspace((uint8_t)b[p])) p++; long v = 0; size_t s = p; while(p<b.size() && isdigit((uint8_t)b[p]) && p-s<9) v = v*10+b[p++]-'0'; return s == p?-1:v; };
    long w = num(), h = num(), mx = num(); p++; if(w<=0 || h<=0 || mx != 255) { why = "bad header"; return false; } if(p+(size_t)w*h*3 != b.size()) { why = vt::fmt("%zu bytes, %zu expected", b.size(), p+(size_t)w*h*3); return false; } m.w = (int)w; m.h = (int)h; m.p.resize((size_t)w*h); for(auto& q : m.p) { q = Px{(uint8_t)b[p], (uint8_t)b[p+1], (uint8_t)b[p+2], 255}; p += 3; } return true;
}
// ------------------------------------------------------------------ TGA
inline File_ tga(Rng& r)
{
    File_ f; f.ext = "tga"; Image m = r.chance(.5)?runs(r):rand_image(r); int bpp = r.chance(.4)?24:r.chance(.5)?32:r.chance(.5)?16:15; bool rle = r.chance(.6), up = r.chance(.5), cross = r.chance(.5); int id = r.chance(.6)?0:r.irange(1, 255); Bytes& b = f.data; f.tol = bpp<24?8:0;
    b += (char)id; b += (char)0; b += (char)(rle?10:2); b += Bytes(5, 0); le16(b, r.chance(.8)?0:r.irange(0, 100)); le16(b, 0); le16(b, m.w); le16(b, m.h); b += (char)bpp; b += (char)((up?0x20:0)|(bpp == 32?8:bpp == 16?r.irange(0, 1):0)); b += junk(r, id);
    std::vector<Bytes> px; for(int y = 0; y<m.h; y++) for(int x = 0; x<m.w; x++) { Px& q = m.at(x, up?y:m.h-1-y); Bytes s; if(bpp>=24) { s += (char)q.b; s += (char)q.g; s += (char)q.r; if(bpp == 32) s += (char)q.a; else q.a = 255; } else { int R = q.r >> 3, G = q.g >> 3, B = q.b >> 3; le16(s, (bpp == 16 && r.chance(.5)?0x8000:0)|R << 10|G << 5|B); q = Px{R*255/31, G*255/31, B*255/31, 255}; } px.push_back(s); }
    if(!rle) for(auto& s : px) b += s;
    else for(size_t i = 0; i<px.size();) { size_t lim = cross?px.size():(i/m.w+1)*m.w, mx = std::min<size_t>(r.chance(.5)?128:(size_t)r.irange(1, 128), lim-i), n = 1; while(n<mx && px[i+n] == px[i]) n++; if(n>1 || r.chance(.3)) { b += (char)(0x80|(n-1)); b += px[i]; } else { n = r.chance(.3)?1:(size_t)r.irange(1, (int)mx); b += (char)(n-1); for(size_t k = 0; k<n; k++) b += px[i+k]; } i += n; }
    if(r.chance(.3)) { b += Bytes(8, 0); b += "TRUEVISION-XFILE."; b += (char)0; } f.truth = m; f.what = vt::fmt("tga %d bpp %s %s id %d%s", bpp, rle?"rle":"raw", up?"top-down":"bottom-up", id, rle && cross?" packets across rows":""); return f;
}
inline bool un_tga(const Bytes& b, Image& m, std::string& why)
{
    if(b.size()<18) { why = "no header"; return false; } int id = (uint8_t)b[0], w = gl16(b, 12), h = gl16(b, 14), bpp = (uint8_t)b[16], d = (uint8_t)b[17]; if(b[1] || b[2] != 2 || bpp != 24 || !w || !h || (d&0x10)) { why = "bad header"; return false; } size_t o = 18+id; if(o+(size_t)w*h*3>b.size()) { why = vt::fmt("%zu bytes, %zu expected", b.size(), o+(size_t)w*h*3); return false; } m.w = w; m.h = h; m.p.resize((size_t)w*h); for(int y = 0; y<h; y++) for(int x = 0; x<w; x++) { m.at(x, d&0x20?y:h-1-y) = Px{(uint8_t)b[o+2], (uint8_t)b[o+1], (uint8_t)b[o], 255}; o += 3; } return true;
}
// ------------------------------------------------------------------ PNG
inline void chunk(Bytes& b, const char* type, const Bytes& d) { be32(b, (uint32_t)d.size()); Bytes c = Bytes(type, 4)+d; b += c; be32(b, (uint32_t)crc32(0, (const Bytef*)c.data(), (uInt)c.size())); }
inline int paeth(int a, int b, int c) { int p = a+b-c, pa = std::abs(p-a), pb = std::abs(p-b), pc = std::abs(p-c); return pa<=pb && pa<=pc?a:pb<=pc?b:c; }
inline Bytes filter_rows(Rng& r, const std::vector<Bytes>& rows, int bpp, int mode)
{
    Bytes o, prev; for(auto& s : rows) { int t = mode<0?r.irange(0, 4):mode; o += (char)t; if(prev.size() != s.size()) prev = Bytes(s.size(), 0); for(size_t i = 0; i<s.size(); i++) { int x = (uint8_t)s[i], a = i>=(size_t)bpp?(uint8_t)s[i-bpp]:0, u = (uint8_t)prev[i], c = i>=(size_t)bpp?(uint8_t)prev[i-bpp]:0; o += (char)(x-(t == 0?0:t == 1?a:t == 2?u:t == 3?(a+u)/2:paeth(a, u, c))); } prev = s; } return o;
}
inline File_ png(Rng& r)
{
    File_ f; f.ext = "png"; Image m = rand_image(r); static const int CT[] = {0, 2, 3, 4, 6}; int ct = CT[r.irange(0, 4)], depth; if(ct == 0) depth = 1 << r.irange(0, 4); else if(ct == 3) depth = 1 << r.irange(0, 3); else depth = r.chance(.5)?8:16; bool inter = r.chance(.3), trns = ct != 4 && ct != 6 && r.chance(.4); f.tol = depth == 16?1:0; int ch = ct == 2?3:ct == 4?2:ct == 6?4:1, mx = (1 << depth)-1;
    int np = ct == 3?r.irange(1, 1 << depth):0; std::vector<Px> pal(np); for(auto& q : pal) q = Px{r.irange(0, 255), r.irange(0, 255), r.irange(0, 255), 255}; int nt = trns && ct == 3?r.irange(1, np):0; for(int i = 0; i<nt; i++) pal[i].a = r.irange(0, 255);
    std::vector<std::vector<int>> s((size_t)m.w*m.h); int few = r.chance(.4)?r.irange(1, 3):0; std::vector<int> key;
    for(auto& v : s) { v.resize(ch); for(int& z : v) z = ct == 3?r.irange(0, np-1):few?(r.irange(0, few)*mx/few):r.irange(0, mx); } if(trns && ct != 3) key = s[r.next()%s.size()];
    for(size_t i = 0; i<s.size(); i++) { auto& v = s[i]; auto S = [&](int z) { return depth == 16?z >> 8:z*255/mx; }; Px q; q.a = 255; if(ct == 3) q = pal[v[0]]; else if(ct == 0 || ct == 4) { q.r = q.g = q.b = S(v[0]); if(ct == 4) q.a = S(v[1]); } else { q.r = S(v[0]); q.g = S(v[1]); q.b = S(v[2]); if(ct == 6) q.a = S(v[3]); } if(trns && ct != 3 && v == key) q.a = 0; m.p[i] = q; }
    auto rows = [&](int x0, int dx, int y0, int dy) { std::vector<Bytes> o; for(int y = y0; y<m.h; y += dy) { Bytes t; int bits = 0, acc = 0; for(int x = x0; x<m.w; x += dx) for(int z : s[(size_t)y*m.w+x]) { if(depth == 16) { t += (char)(z >> 8); t += (char)z; } else if(depth == 8) t += (char)z; else { acc = acc << depth|z; bits += depth; if(bits == 8) { t += (char)acc; acc = bits = 0; } } } if(bits) t += (char)(acc << (8-bits)|(r.irange(0, 255)&((1 << (8-bits))-1))); if(!t.empty()) o.push_back(t); } return o; };
    int bpp = std::max(1, ch*depth/8), mode = r.chance(.5)?-1:r.irange(0, 4); Bytes raw; if(!inter) raw = filter_rows(r, rows(0, 1, 0, 1), bpp, mode); else { static const int P[7][4] = {{0, 8, 0, 8}, {4, 8, 0, 8}, {0, 4, 4, 8}, {2, 4, 0, 4}, {0, 2, 2, 4}, {1, 2, 0, 2}, {0, 1, 1, 2}}; for(auto& q : P) raw += filter_rows(r, rows(q[0], q[1], q[2], q[3]), bpp, mode); }
    uLongf zl = compressBound(raw.size()); Bytes z(zl, 0); compress2((Bytef*)&z[0], &zl, (const Bytef*)raw.data(), raw.size(), r.irange(0, 9)); z.resize(zl);
    Bytes& b = f.data; b = Bytes("\x89PNG\r\n\x1a\n", 8); Bytes h; be32(h, m.w); be32(h, m.h); h += (char)depth; h += (char)ct; h += Bytes(2, 0); h += (char)inter; chunk(b, "IHDR", h); if(r.chance(.2)) chunk(b, "tEXt", Bytes("Comment\0hello", 13)); if(r.chance(.2)) chunk(b, "pHYs", Bytes("\0\0\x0b\x13\0\0\x0b\x13\1", 9));
    if(ct == 3) { Bytes p; for(auto& q : pal) { p += (char)q.r; p += (char)q.g; p += (char)q.b; } chunk(b, "PLTE", p); } if(trns) { Bytes t; if(ct == 3) for(int i = 0; i<nt; i++) t += (char)pal[i].a; else for(int k : key) { t += (char)(k >> 8); t += (char)k; } chunk(b, "tRNS", t); }
    size_t o = 0; do { size_t n = r.chance(.6)?z.size()-o:std::min<size_t>(z.size()-o, (size_t)r.irange(0, 60)); chunk(b, "IDAT", z.substr(o, n)); o += n; } while(o<z.size()); chunk(b, "IEND", "");
    f.truth = m; f.what = vt::fmt("png colour type %d depth %d%s%s", ct, depth, inter?" interlaced":"", trns?" transparent colours":""); return f;
}
inline bool un_png(const Bytes& b, Image& m, std::string& why)
{
    if(b.compare(0, 8, Bytes("\x89PNG\r\n\x1a\n", 8))) { why = "no signature"; return false; } size_t p = 8; Bytes z; bool end = false; int ct = -1; while(p+12<=b.size()) { uint32_t n = gb32(b, p); if(n>b.size() || p+12+n>b.size()) { why = "chunk past the end"; return false; } Bytes t = b.substr(p+4, 4), d = b.substr(p+8, n); if(crc32(0, (const Bytef*)b.data()+p+4, n+4) != gb32(b, p+8+n)) { why = "bad crc"; return false; } if(t == "IHDR") { m.w = (int)gb32(d, 0); m.h = (int)gb32(d, 4); ct = d[9]; if(d[8] != 8 || (ct != 2 && ct != 6) || d[12]) { why = "unexpected variant"; return false; } } if(t == "IDAT") z += d; if(t == "IEND") end = true; p += 12+n; if(end) break; }
    if(!end || p != b.size()) { why = "no end"; return false; } int ch = ct == 6?4:3; uLongf n = (uLongf)m.h*(1+(uLongf)m.w*ch); Bytes raw(n, 0); if(uncompress((Bytef*)&raw[0], &n, (const Bytef*)z.data(), z.size()) != Z_OK || n != raw.size()) { why = "bad stream"; return false; }
    m.p.resize((size_t)m.w*m.h); Bytes prev(m.w*ch, 0); size_t o = 0; for(int y = 0; y<m.h; y++) { int t = raw[o++]; Bytes s(m.w*ch, 0); for(int i = 0; i<m.w*ch; i++) { int a = i>=ch?(uint8_t)s[i-ch]:0, u = (uint8_t)prev[i], c = i>=ch?(uint8_t)prev[i-ch]:0; s[i] = (char)(raw[o++]+(t == 0?0:t == 1?a:t == 2?u:t == 3?(a+u)/2:paeth(a, u, c))); } for(int x = 0; x<m.w; x++) m.at(x, y) = Px{(uint8_t)s[x*ch], (uint8_t)s[x*ch+1], (uint8_t)s[x*ch+2], 255}; prev = s; } return true;
}
// ------------------------------------------------------------------ JPEG
struct JErr { jpeg_error_mgr m; jmp_buf env; };
inline void jerr_exit(j_common_ptr c) { longjmp(((JErr*)c->err)->env, 1); }
inline void jerr_msg(j_common_ptr) {}
inline bool un_jpg(const Bytes& b, Image& m, std::string& why)
{
    jpeg_decompress_struct c; JErr e; c.err = jpeg_std_error(&e.m); e.m.error_exit = jerr_exit; e.m.output_message = jerr_msg; jpeg_create_decompress(&c); if(setjmp(e.env)) { why = "libjpeg refuses it"; jpeg_destroy_decompress(&c); return false; }
    jpeg_mem_src(&c, (unsigned char*)b.data(), b.size()); jpeg_read_header(&c, TRUE); c.out_color_space = JCS_RGB; jpeg_start_decompress(&c); m.w = (int)c.output_width; m.h = (int)c.output_height; m.p.assign((size_t)m.w*m.h, Px{0, 0, 0, 255}); std::vector<uint8_t>* row = new std::vector<uint8_t>(m.w*3); for(int y = 0; y<m.h; y++) { uint8_t* q = row->data(); jpeg_read_scanlines(&c, &q, 1); for(int x = 0; x<m.w; x++) m.at(x, y) = Px{q[x*3], q[x*3+1], q[x*3+2], 255}; } delete row; jpeg_finish_decompress(&c); bool w = e.m.num_warnings; jpeg_destroy_decompress(&c); if(w) { why = "libjpeg warns about it"; return false; } return true;
}
inline File_ jpg(Rng& r)
{
    File_ f; f.ext = r.chance(.5)?"jpg":"jpeg"; Image m = rand_image(r, r.chance(.5)?3:-1); bool gray = r.chance(.3), prog = r.chance(.3); int sub = r.irange(0, 2), q = r.irange(30, 100); jpeg_compress_struct c; jpeg_error_mgr e; c.err = jpeg_std_error(&e); jpeg_create_compress(&c); unsigned char* mem = NULL; unsigned long n = 0; jpeg_mem_dest(&c, &mem, &n); c.image_width = m.w; c.image_height = m.h; c.input_components = gray?1:3; c.in_color_space = gray?JCS_GRAYSCALE:JCS_RGB; jpeg_set_defaults(&c); jpeg_set_quality(&c, q, TRUE);
    if(!gray) { c.comp_info[0].h_samp_factor = sub?2:1; c.comp_info[0].v_samp_factor = sub == 2?2:1; } if(prog) jpeg_simple_progression(&c); if(r.chance(.2)) c.restart_interval = r.irange(1, 8); if(r.chance(.2)) c.optimize_coding = TRUE; jpeg_start_compress(&c, TRUE); if(r.chance(.2)) jpeg_write_marker(&c, JPEG_COM, (const JOCTET*)"comment", 7); std::vector<uint8_t> row(m.w*3); for(int y = 0; y<m.h; y++) { for(int x = 0; x<m.w; x++) { const Px& p = m.at(x, y); if(gray) row[x] = (uint8_t)p.g; else { row[x*3] = (uint8_t)p.r; row[x*3+1] = (uint8_t)p.g; row[x*3+2] = (uint8_t)p.b; } } uint8_t* z = row.data(); jpeg_write_scanlines(&c, &z, 1); } jpeg_finish_compress(&c); f.data.assign((char*)mem, n); jpeg_destroy_compress(&c); free(mem);
    std::string why; un_jpg(f.data, f.truth, why); f.tol = 4; f.what = vt::fmt("jpeg %s quality %d%s subsampling %d", gray?"gray":"colour", q, prog?" progressive":"", sub); return f;
}
// ------------------------------------------------------------------ TIFF
inline File_ tif(Rng& r, const std::string& path)
{
    File_ f; f.ext = r.chance(.5)?"tif":"tiff"; Image m = rand_image(r); static const char* MODE[] = {"w", "wl", "wb"}; static const int COMP[] = {COMPRESSION_NONE, COMPRESSION_LZW, COMPRESSION_PACKBITS, COMPRESSION_ADOBE_DEFLATE}; int comp = COMP[r.irange(0, 3)], ch = r.chance(.5)?3:4, orient = r.chance(.6)?1:r.irange(1, 4), planar = r.chance(.25)?PLANARCONFIG_SEPARATE:PLANARCONFIG_CONTIG, extra = r.irange(0, 2), rps = r.irange(1, m.h); bool pred = (comp == COMPRESSION_LZW || comp == COMPRESSION_ADOBE_DEFLATE) && r.chance(.4), tiled = r.chance(.2); const char* md = MODE[r.irange(0, 2)];
    TIFF* t = TIFFOpen(path.c_str(), md); TIFFSetField(t, TIFFTAG_IMAGEWIDTH, m.w); TIFFSetField(t, TIFFTAG_IMAGELENGTH, m.h); TIFFSetField(t, TIFFTAG_SAMPLESPERPIXEL, ch); TIFFSetField(t, TIFFTAG_BITSPERSAMPLE, 8); TIFFSetField(t, TIFFTAG_ORIENTATION, orient); TIFFSetField(t, TIFFTAG_PLANARCONFIG, planar); TIFFSetField(t, TIFFTAG_PHOTOMETRIC, PHOTOMETRIC_RGB); TIFFSetField(t, TIFFTAG_COMPRESSION, comp); if(pred) TIFFSetField(t, TIFFTAG_PREDICTOR, 2); uint16_t ex = (uint16_t)extra; if(ch == 4) TIFFSetField(t, TIFFTAG_EXTRASAMPLES, 1, &ex); if(tiled) { TIFFSetField(t, TIFFTAG_TILEWIDTH, 16); TIFFSetField(t, TIFFTAG_TILELENGTH, 16); } else TIFFSetField(t, TIFFTAG_ROWSPERSTRIP, rps);
    if(extra == 1 && ch == 4) for(auto& q : m.p) { q.r = std::min(q.r, q.a); q.g = std::min(q.g, q.a); q.b = std::min(q.b, q.a); } if(ch == 3) for(auto& q : m.p) q.a = 255;
    auto at = [&](int x, int y) { return m.at(orient == 2 || orient == 3?m.w-1-x:x, orient == 3 || orient == 4?m.h-1-y:y); }; auto comp_of = [](const Px& q, int k) { return (uint8_t)(k == 0?q.r:k == 1?q.g:k == 2?q.b:q.a); };
    if(!tiled) { if(planar == PLANARCONFIG_CONTIG) for(int y = 0; y<m.h; y++) { std::vector<uint8_t> row; for(int x = 0; x<m.w; x++) for(int k = 0; k<ch; k++) row.push_back(comp_of(at(x, y), k)); TIFFWriteScanline(t, row.data(), y, 0); } else for(int k = 0; k<ch; k++) for(int y = 0; y<m.h; y++) { std::vector<uint8_t> row; for(int x = 0; x<m.w; x++) row.push_back(comp_of(at(x, y), k)); TIFFWriteScanline(t, row.data(), y, k); } }
    else for(int k0 = 0; k0<(planar == PLANARCONFIG_CONTIG?1:ch); k0++) for(int y0 = 0; y0<m.h; y0 += 16) for(int x0 = 0; x0<m.w; x0 += 16) { std::vector<uint8_t> tl; for(int y = 0; y<16; y++) for(int x = 0; x<16; x++) { Px q = x0+x<m.w && y0+y<m.h?at(x0+x, y0+y):Px{9, 8, 7, 6}; if(planar == PLANARCONFIG_CONTIG) for(int k = 0; k<ch; k++) tl.push_back(comp_of(q, k)); else tl.push_back(comp_of(q, k0)); } TIFFWriteTile(t, tl.data(), x0, y0, 0, k0); }
    TIFFClose(t); f.data = vt::read_file(path); unlink(path.c_str()); f.truth = m; f.what = vt::fmt("tiff %s compression %d channels %d extra %d orientation %d planar %d%s", md, comp, ch, ch == 4?extra:-1, orient, planar, tiled?" tiled":""); return f;
}
inline bool un_tif(const Bytes& b, Image& m, std::string& why)      // uncompressed RGB strips, little endian: what the writer makes
{
    if(b.size()<8 || b.compare(0, 4, Bytes("II*\0", 4))) { why = "no header"; return false; } uint32_t d = gl32(b, 4); if(d+2u>b.size()) { why = "no directory"; return false; } int n = gl16(b, d); if(d+2+12*n>b.size()) { why = "directory cut"; return false; } std::map<int, std::vector<uint32_t>> t; for(int i = 0; i<n; i++) { size_t e = d+2+12*i; int ty = gl16(b, e+2); uint32_t c = gl32(b, e+4); int sz = ty == 3?2:ty == 4?4:ty == 1?1:0; if(!sz) continue; size_t o = c*sz>4?gl32(b, e+8):e+8; if(o+c*sz>b.size()) { why = "field cut"; return false; } for(uint32_t k = 0; k<c; k++) t[gl16(b, e)].push_back(sz == 2?gl16(b, o+2*k):sz == 4?gl32(b, o+4*k):(uint8_t)b[o+k]); }
    auto one = [&](int k, uint32_t df) { return t[k].empty()?df:t[k][0]; }; uint32_t w = one(256, 0), h = one(257, 0), rps = one(278, 0xffffffffu); if(!w || !h || one(259, 1) != 1 || one(262, 9) != 2 || one(277, 1) != 3 || one(258, 1) != 8 || one(274, 1) != 1 || one(284, 1) != 1) { why = "unexpected fields"; return false; } m.w = (int)w; m.h = (int)h; m.p.resize((size_t)w*h); rps = std::min(rps, h); size_t ns = (h+rps-1)/rps; if(t[273].size() != ns || t[279].size() != ns) { why = "wrong strip count"; return false; } for(uint32_t y = 0; y<h; y++) { size_t o = t[273][y/rps]+(size_t)(y%rps)*w*3; if(t[279][y/rps] != (size_t)std::min(rps, h-y/rps*rps)*w*3 || o+(size_t)w*3>b.size()) { why = "strip cut"; return false; } for(uint32_t x = 0; x<w; x++, o += 3) m.at(x, y) = Px{(uint8_t)b[o], (uint8_t)b[o+1], (uint8_t)b[o+2], 255}; } return true;
}
inline bool decode(const std::string& ext, const Bytes& b, Image& m, std::string& why) { if(ext == "bmp") return un_bmp(b, m, why); if(ext == "ppm") return un_ppm(b, m, why); if(ext == "tga") return un_tga(b, m, why); if(ext == "png") return un_png(b, m, why); if(ext[0] == 'j') return un_jpg(b, m, why); return un_tif(b, m, why); }
static const char* const EXT[] = {"bmp", "ppm", "tga", "png", "jpg", "jpeg", "tif", "tiff"};
inline File_ any(Rng& r, const std::string& scratch) { switch(r.irange(0, 5)) { case 0: return bmp(r); case 1: return ppm(r); case 2: return tga(r); case 3: return png(r); case 4: return jpg(r); default: return tif(r, scratch+"/enc.tif"); } }
}
#endif
