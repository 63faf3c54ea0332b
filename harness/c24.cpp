// C24: hostile image files. Batches of mutated files are read in child processes under the sanitizers; in the plain build the same files are read with
// different garbage in fresh memory and on the stack, so that a result depending on unset data shows as a difference.
#include "codec.hpp"
#include "gen.hpp"
#include "textures/texture_image.hpp"
#include "textures/texture_library.hpp"
#include <malloc.h>
extern "C" size_t __sanitizer_get_current_allocated_bytes() __attribute__((weak));
using namespace codec;
static void fix_crc(Bytes& b) { size_t p = 8; while(p+12<=b.size()) { uint32_t n = gb32(b, p); if(n>b.size() || p+12+n>b.size()) return; uint32_t c = (uint32_t)crc32(0, (const Bytef*)b.data()+p+4, n+4); for(int i = 0; i<4; i++) b[p+8+n+i] = (char)(c >> (24-8*i)); p += 12+n; } }
static Bytes mutate(Rng& r, const File_& f, std::string& how)
{
    Bytes b = f.data; static const uint32_t V[] = {0, 1, 2, 3, 4, 7, 8, 15, 16, 24, 32, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fffffff, 0x80000000u, 0xffffffffu, 0xfffffffeu, 0x40000000, 0x20000001}; int n = r.irange(1, 3);
    for(int k = 0; k<n && !b.empty(); k++)
    {
        size_t head = std::min<size_t>(b.size(), f.ext[0] == 't' && f.ext[1] == 'i'?b.size():64), at = r.chance(.7)?r.next()%head:r.next()%b.size(); switch(r.irange(0, 8))
        {
            case 0: b.resize(r.chance(.5)?r.next()%(b.size()+1):at); how += vt::fmt("cut to %zu ", b.size()); break;
            case 1: b[at] = (char)r.irange(0, 255); how += vt::fmt("byte %zu ", at); break;
            case 2: b[at] ^= (char)(1 << r.irange(0, 7)); how += vt::fmt("bit %zu ", at); break;
            case 3: case 4: { uint32_t v = V[r.irange(0, 24)]; int w = 1 << r.irange(0, 2); bool be = r.chance(.5); for(int i = 0; i<w && at+i<b.size(); i++) b[at+i] = (char)(v >> 8*(be?w-1-i:i)); how += vt::fmt("%d byte value %x at %zu ", w, v, at); break; }
            case 5: { size_t l = 1+r.next()%std::min<size_t>(b.size(), 40); size_t s = r.next()%b.size(); Bytes piece = b.substr(s, l); b.insert(at, piece); how += "copied piece "; break; }
            case 6: b.erase(at, 1+r.next()%20); how += "removed piece "; break;
            case 7: b.insert(at, junk(r, r.irange(1, 30))); how += "inserted junk "; break;
            default: { size_t l = std::min<size_t>(b.size()-at, 1+r.next()%64); for(size_t i = 0; i<l; i++) b[at+i] = (char)r.irange(0, 255); how += "noise "; }
        }
    }
    if(f.ext == "png" && r.chance(.8)) { fix_crc(b); how += "(checksums repaired)"; } return b;
}
// header texts a PPM can carry
static Bytes wild_ppm(Rng& r) { static const char* T[] = {"P3", "P6", "P", "", "P3 ", "P6\n"}; static const char* N[] = {"0", "1", "2", "3", "-1", "255", "65535", "65536", "4294967295", "4294967296", "99999999999999999999", "x", "#c\n", " ", "0x10", "1.5", "2147483647", "715827883", "100000"}; Bytes b = T[r.irange(0, 5)]; int n = r.irange(0, 6); for(int i = 0; i<n; i++) b += Bytes(" ")+N[r.irange(0, 18)]; if(r.chance(.5)) b += "\n"+junk(r, r.irange(0, 100)); return b; }
struct Msg { int idx; int kind; long a, b; char text[300]; };
static void garbage(int fill) { volatile char s[20000]; for(size_t i = 0; i<sizeof s; i++) s[i] = (char)fill; mallopt(M_PERTURB, fill); }
static volatile size_t sink_;
int main(int argc, char** argv)
{
    vt::init(argc, argv, "valid files of every format cut at every length, mutated (header values, bytes, bits, pieces removed, copied, inserted, checksums repaired), files of another format, random bytes; img_valid, img_dimensions, img_read8 into a buffer of exactly the reported size, and TextureImage. Each file is read with two memory fillings. Distinct states: file contents");
    struct Res { int valid, dim, w, h, read; uint64_t hash; bool done; };
    auto body = [](Rng& r, std::vector<File_>& fs, const std::vector<std::string>& how) {
        static Msg* m = vt::shared<Msg>(); static long long* cnt = vt::shared<long long>(8); memset((void*)m, 0, sizeof *m); memset(cnt, 0, 64); m->idx = -1; std::string dir = vt::S().scratch; 
        vt::Outcome o = vt::forked([&]() {
            for(size_t i = 0; i<fs.size(); i++)
            {
                File_& f = fs[i]; m->idx = (int)i; std::string path = dir+"/h."+f.ext; const char* p = path.c_str(), * e = f.ext.c_str(); vt::write_file(path, f.data); Res a[2]; memset(a, 0, sizeof a);
                for(int k = 0; k<2; k++)
                {
                    Res& q = a[k]; size_t before = __sanitizer_get_current_allocated_bytes?__sanitizer_get_current_allocated_bytes():0; garbage(k?0x55:0xaa); q.valid = !!img_valid(p, e); garbage(k?0x33:0xcc); q.w = q.h = -77; q.dim = !!img_dimensions(p, e, &q.w, &q.h);
                    if(!q.dim) { q.w = q.h = 0; cnt[1]++; } else if(q.w<0 || q.h<0) { m->kind = 3; m->a = q.w; m->b = q.h; return 0; }
                    if(q.dim && (long long)q.w*q.h<=4000000 && (long long)q.w*q.h>0) { size_t n = (size_t)q.w*q.h; uint32_t* v = (uint32_t*)malloc(n*4); memset(v, k?0x11:0xee, n*4); garbage(k?0x77:0x88); q.read = !!img_read8(p, e, v); cnt[q.read?2:3]++; if(q.read) q.hash = vt::hash_bytes(v, n*4); free(v); }
                    size_t after = __sanitizer_get_current_allocated_bytes?__sanitizer_get_current_allocated_bytes():0; if(after>before && k == 1) { m->kind = 2; m->a = (long)(after-before); return 0; }
                }
                if(a[0].valid != a[1].valid || a[0].dim != a[1].dim || a[0].w != a[1].w || a[0].h != a[1].h || a[0].read != a[1].read || a[0].hash != a[1].hash) { m->kind = 1; snprintf(m->text, sizeof m->text, "valid %d/%d dimensions %d/%d %dx%d/%dx%d read %d/%d pixels %s", a[0].valid, a[1].valid, a[0].dim, a[1].dim, a[0].w, a[0].h, a[1].w, a[1].h, a[0].read, a[1].read, a[0].hash == a[1].hash?"same":"differ"); return 0; }
                if(f.what == "random" || f.data.empty()) { if(a[0].read && f.data.size()<16) { m->kind = 5; return 0; } }
                // the texture made of it
                if(!a[0].dim || (long long)a[0].w*a[0].h<=4000000)
                {
                    Vec2 sh(0, 0), sc(1, 1); uint32_t val[2][3]; for(int k = 0; k<2; k++) { garbage(k?0x21:0xde); std::string tp = dir+vt::fmt("/t%zu_%d.", i, k)+f.ext; rename((k?dir+vt::fmt("/t%zu_0.", i)+f.ext:path).c_str(), tp.c_str()); File file(tp.c_str()); TextureFilter_t tf = i%3 == 0?UNFILTERED:i%3 == 1?TRILINEAR:EWA; TextureImage t(file, sh, sc, tf); bool usable = a[0].dim && a[0].w == a[0].h && a[0].w>0 && !(a[0].w&(a[0].w-1)) && a[0].read; bool has = TexLib.contains_map(file.absolute_path()); if(usable != has) { m->kind = 4; m->a = usable; m->b = has; return 0; } cnt[usable?4:5]++; HitPoint h = gen::blank_hit(); for(int z = 0; z<3; z++) { h.uv = Point2(.1f+.35f*z, .8f-.3f*z); val[k][z] = t.map_value(&h).bgra_value; } }
                    unlink((dir+vt::fmt("/t%zu_1.", i)+f.ext).c_str()); if(memcmp(val[0], val[1], sizeof val[0])) { m->kind = 6; return 0; }
                }
                cnt[0]++;
            }
            m->idx = -1; return 0; }, 20);
        static const char* CN[] = {"files handled", "dimension queries refused", "reads that succeeded", "reads refused", "textures from files", "default textures"}; for(int i = 0; i<6; i++) if(cnt[i]) vt::count(CN[i], cnt[i]);
        for(auto& f : fs) vt::eval(vt::hash_str(f.data+f.ext)); if(m->idx<0 && o.exited && !o.sanitizer() && o.code == 0) return; File_ none; const File_& f = m->idx>=0?fs[m->idx]:none; std::string fam = f.ext.substr(0, 3), what = vt::fmt("file %d (%s, %zu bytes) of %s: %s", m->idx, f.ext.c_str(), f.data.size(), f.what.c_str(), m->idx>=0?how[m->idx].c_str():"");
        static const char* K[] = {"", "unset-data", "leak", "negative-size", "texture-fallback", "accepts-nothing", "unset-texture"}; if(m->kind && o.exited) vt::violation(std::string(K[m->kind])+"-"+fam, "%s: %s %ld %ld", what.c_str(), m->text, m->a, m->b); else { std::string w = o.what(); vt::violation((o.timeout?"hang-":"crash-")+fam, "%s: %s", what.c_str(), w.c_str()); }
        std::string hex; for(size_t i = 0; i<f.data.size() && i<120; i++) hex += vt::fmt("%02x", (uint8_t)f.data[i]); if(getenv("VT_HEX")) fprintf(stderr, "%s\n%s\n", hex.c_str(), o.err.c_str()); };
    vt::cases("mutated", vt::n(600, 8000), [&](Rng& r, long idx) { std::vector<File_> fs; std::vector<std::string> how; for(int i = 0; i<40; i++) { File_ f = any(r, vt::S().scratch); std::string h; if(f.data.size()>60000) continue; f.data = mutate(r, f, h); if(r.chance(.03)) { f.ext = EXT[r.irange(0, 7)]; h += "under another extension"; } fs.push_back(f); how.push_back(h); } body(r, fs, how); });
    vt::cases("square", vt::n(200, 2000), [&](Rng& r, long idx) { std::vector<File_> fs; std::vector<std::string> how; while(fs.size()<20) { File_ f = any(r, vt::S().scratch); if(f.truth.w != f.truth.h || (f.truth.w&(f.truth.w-1))) continue; std::string h = "intact"; if(r.chance(.6)) { h.clear(); f.data = mutate(r, f, h); } fs.push_back(f); how.push_back(h); } body(r, fs, how); });
    vt::cases("cut", vt::n(48, 400), [&](Rng& r, long idx) { File_ f; do f = any(r, vt::S().scratch); while(f.data.size()>1500 || (idx%6 == 0) != (f.ext == "png")); for(size_t a = 0; a<=f.data.size(); a += 100) { std::vector<File_> fs; std::vector<std::string> how; for(size_t k = a; k<a+100 && k<=f.data.size(); k++) { File_ g = f; g.data.resize(k); fs.push_back(g); how.push_back(vt::fmt("cut to %zu", k)); } body(r, fs, how); } });
    vt::cases("random", vt::n(200, 1500), [&](Rng& r, long idx) { std::vector<File_> fs; std::vector<std::string> how; static const char* MAGIC[] = {"", "BM", "P3", "P6", "\x89PNG\r\n\x1a\n", "\xff\xd8\xff", "II*\0", "MM\0*", "\0\0\2", "\0\0\12"}; static const int ML[] = {0, 2, 2, 2, 8, 3, 4, 4, 3, 3}; for(int i = 0; i<40; i++) { File_ f; f.ext = EXT[r.irange(0, 7)]; f.what = "random"; if(f.ext == "ppm" && r.chance(.7)) f.data = wild_ppm(r); else { int k = r.irange(0, 9); f.data = Bytes(MAGIC[k], ML[k])+junk(r, r.chance(.3)?r.irange(0, 20):r.irange(0, 600)); if(f.ext == "tga" && f.data.size()>17) { f.data[1] = 0; f.data[2] = r.chance(.5)?2:10; f.data[16] = (char)(8*r.irange(2, 4)); f.data[17] = r.chance(.5)?0x20:0; f.data[13] = f.data[15] = 0; } if(f.ext == "bmp" && f.data.size()>54 && r.chance(.8)) { for(int z : {14, 30, 46}) for(int y = 0; y<4; y++) f.data[z+y] = 0; f.data[0] = 'B'; f.data[1] = 'M'; f.data[28] = r.chance(.5)?24:32; f.data[29] = 0; if(r.chance(.8)) for(int z : {18, 22}) { f.data[z+1] = f.data[z+2] = f.data[z+3] = (char)(r.chance(.2)?-1:0); } } } fs.push_back(f); how.push_back("random"); } body(r, fs, how); });
    return vt::finish();
}
