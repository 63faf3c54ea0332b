// Random scene configurations with a known meaning, written in the documented grammar and possibly split over child files.
#ifndef CONF_HPP
#define CONF_HPP
#include "gen.hpp"
#include <functional>
#include <sys/stat.h>
namespace conf
{
using namespace gen;
using std::string;
struct Img { string path; int side; std::vector<uint32_t> px; };      // path: relative to the configuration, px as the library keeps them
struct Tex { string name; int img; float sc[2] = {1, 1}, sh[2] = {0, 0}; };
enum Mode { NONE, UNIFORM, TEXTURE };
struct Source { Mode m = NONE; float col[3] = {0, 0, 0}; string tex; };
struct MaskS { string tex; int chn = 0; bool inv = false; };          // chn 0 A, 1 R, 2 G, 3 B
struct MatS { string name; int type = 0; float rough = 0, aniso = -1; int dist = 0; Source dif, spe; string normal; int iorn = 0; float ior[6] = {1.45f, 0, 0, 0, 0, 0}; string elem = "Au"; };   // type 0 matte 1 glossy 2 metal 3 glass; dist 0 beckmann 1 blinn 2 ggx
struct DualS { string name, first, second; MaskS mask; };
struct Quad { double x0, x1, y0, y1; string mtl; };
struct Shape_ { string name; std::vector<Quad> q; double z; };
struct ObjFile { string path; std::vector<Shape_> shapes; };
struct Place { string shape, mat; bool light = false; int temp = -1; float col[3] = {255, 255, 255}, pos[3] = {0, 0, 0}, rot[3] = {0, 0, 0}, sc[3] = {1, 1, 1}; MaskS mask; };
struct Truth
{
    int w = 800, h = 600, spp = 121; bool stratified = true; int cam = 0; float pos[3] = {0, 0, 0}, tar[3] = {0, 0, 1}, up[3] = {0, 1, 0}, fov = 55; int filter = 3; float v0 = .33f, v1 = .33f; int texf = 1; string out = "out.ppm";   // filter 0 box 1 tent 2 gauss 3 mitchell 4 lanczos
    std::vector<Img> img; std::vector<Tex> tex; std::vector<MatS> mat; std::vector<DualS> dual; std::vector<ObjFile> obj; std::vector<Place> place;
    const Shape_* shape(const string& n) const { for(auto& o : obj) for(auto& s : o.shapes) if(s.name == n) return &s; return NULL; }
};
struct Opt { int maxw = 700, maxh = 500; int min_place = 0, max_place = 14; bool children = true, tidy = false; int maxspp = 300; bool missing = true; };
struct Conf { string dir, main; Truth t; std::vector<std::pair<string, string>> files; std::vector<std::vector<size_t>> gaps; };    // files[0] is the main one; gaps: offsets between statements
static const char* const SYM[] = {"Ag", "Al", "Au", "Cu", "Fe", "Hg", "Pb", "Pt", "W", "Be", "Bi", "Co", "Cr", "Ge", "K", "Li", "Mg", "Mn", "Mo", "Na", "Nb", "Ni", "Pd", "Rh", "Ta", "Ti", "V", "Zn", "Zr"};
static const int NSYM = 29;
// text of a number with exactly this value
inline string num(Rng& r, float f)
{
    string s; int k = r.irange(0, 5); bool whole = f == std::floor(f) && std::fabs(f)<1e6f;
    if(whole && k<3) s = vt::fmt("%d", (int)f); else if(k == 3) s = vt::fmt("%.9e", f); else if(k == 4 && std::fabs(f)<1e6 && (std::fabs(f)>1e-3 || f == 0)) s = vt::fmt("%.12f", f); else s = vt::fmt("%.9g", f);
    if(strtof(s.c_str(), NULL) != f) s = vt::fmt("%.9g", f);
    if(s[0] != '-' && r.chance(.1)) s = "+"+s;
    if(s.compare(0, 2, "0.") == 0 && r.chance(.3)) s = s.substr(1); else if(s.compare(0, 3, "-0.") == 0 && r.chance(.3)) s = "-"+s.substr(2);
    return s;
}
struct W
{
    Rng& r; bool tidy, crlf;
    string eol() { return crlf?"\r\n":"\n"; }
    string ws(bool need)     // blank between two tokens
    {
        if(tidy) return " "; if(!need && r.chance(.5)) return ""; string s; int n = r.chance(.8)?1:r.irange(2, 4);
        for(int i = 0; i<n; i++) switch(r.irange(0, 9)) { case 0: s += "\t"; break; case 1: s += eol(); break; case 2: if(r.chance(.3)) { s += " # "; if(r.chance(.5)) s += "width: { \"quoted' 12 "; if(r.chance(.1)) s += string(r.irange(100, 20000), 'x'); s += eol(); } else s += "  "; break; default: s += " "; }
        return s;
    }
    string q(const string& v) { char c = r.chance(.5)?'"':'\''; return string(1, c)+v+string(1, c); }
    string kv(const string& k, const string& v) { return k+ws(false)+":"+ws(false)+v; }
    string vecn(const float* f, int n) { string s = "["+ws(false); for(int i = 0; i<n; i++) { if(i) s += ws(false)+","+ws(false); s += num(r, f[i]); } return s+ws(false)+"]"; }
    string body(const std::vector<string>& kvs) { string s = "{"+ws(false); for(size_t i = 0; i<kvs.size(); i++) { if(i) s += r.chance(.3)?ws(false)+","+ws(false):ws(true); s += kvs[i]; } return s+ws(false)+"}"; }
    string object(const string& key, const std::vector<string>& kvs) { return key+ws(false)+":"+ws(false)+body(kvs); }
};
inline void write_tga(const string& p, const Img& m)
{
    string b(18, '\0'); b[2] = 2; b[12] = (char)m.side; b[13] = (char)(m.side >> 8); b[14] = b[12]; b[15] = b[13]; b[16] = 32; b[17] = 0x28; for(uint32_t v : m.px) { b += (char)(v >> 24); b += (char)(v >> 16); b += (char)(v >> 8); b += (char)v; } vt::write_file(p, b);
}
inline string odd_name(Rng& r, const char* base, int i) { switch(r.irange(0, 7)) { case 0: return vt::fmt("%s %d", base, i); case 1: return vt::fmt("{%s}:%d,", base, i); case 2: return vt::fmt("width%d #%s", i, base); case 3: return vt::fmt("\xc3\xa9%s.%d", base, i); default: return vt::fmt("%s%d", base, i); } }
inline Conf make(Rng& r, const string& dir, const Opt& o)
{
    Conf C; C.dir = dir; Truth& T = C.t; struct St { string text; std::function<void(Truth&)> f; }; std::vector<St> st; W w{r, o.tidy, !o.tidy && r.chance(.15)}; auto S = [&](string s, std::function<void(Truth&)> f) { st.push_back(St{s, f}); };
    auto fl = [&](double a, double b) { return r.chance(.3)?(float)rint(r.range(a, b)):(float)r.range(a, b); };
    ::mkdir(dir.c_str(), 0777); for(const char* d : {"/tex", "/models", "/out dir"}) ::mkdir((dir+d).c_str(), 0777);
    // settings, possibly repeated: the last one read wins
    int reps = r.chance(.3)?2:1;
    for(int k = 0; k<reps; k++)
    {
        if(r.chance(.7) || (k == 0 && o.maxw<800)) { int a = r.irange(1, o.maxw), b = r.irange(1, o.maxh); if(r.chance(.3)) a = std::max(32, a/32*32); std::vector<string> v; bool A = r.chance(.85) || o.maxw<800, B = r.chance(.85) || o.maxw<800; if(!A && !B) A = true; if(A) v.push_back(w.kv("width", vt::fmt("%d", a))); if(B) v.push_back(w.kv("height", vt::fmt("%d", b))); if(v.size() == 2 && r.chance(.3)) std::swap(v[0], v[1]); if(A && r.chance(.1)) v.insert(v.begin(), w.kv("width", "77")); S(w.object("resolution", v), [=](Truth& t) { if(A) t.w = a; if(B) t.h = b; }); }
        if(r.chance(.6) || o.maxspp<121) { int a = r.irange(1, o.maxspp); if(r.chance(.4)) { int q = (int)std::sqrt((double)a); a = q*q; } S(w.kv("spp", vt::fmt("%d", a)), [=](Truth& t) { t.spp = a; }); }
        if(r.chance(.5)) { bool s = r.chance(.5); S(w.kv("sampler", s?"stratified":"random"), [=](Truth& t) { t.stratified = s; }); }
        if(r.chance(.3)) S(w.kv("integrator", "path"), [](Truth&) {});
        if(r.chance(.7)) { static const char* E[] = {"ppm", "bmp", "tga", "png", "tiff", "jpg"}; string n = vt::fmt("%sres %d.%s", r.chance(.3)?"out dir/":r.chance(.1)?"out dir\\":"", r.irange(0, 99), E[r.irange(0, 5)]); S(w.kv("out", w.q(n)), [=](Truth& t) { t.out = n; }); }
        if(r.chance(.8))
        {
            std::vector<string> v; std::vector<std::function<void(Truth&)>> f; float a = (float)r.range(.1, 3), b = (float)r.range(0, 1); int ft = r.irange(0, 4), tf = r.irange(0, 2); static const char* FN[] = {"box", "tent", "gauss", "mitchell", "lanczos"}; string fn = FN[ft]; if(ft == 1 && r.chance(.5)) fn = "triangle"; if(ft == 2 && r.chance(.5)) fn = "gaussian"; static const char* TN[] = {"unfiltered", "trilinear", "ewa"};
            if(r.chance(.7)) { v.push_back(w.kv("type", fn)); f.push_back([=](Truth& t) { t.filter = ft; }); } if(r.chance(.6)) { v.push_back(w.kv("value0", num(r, a))); f.push_back([=](Truth& t) { t.v0 = a; }); } if(r.chance(.6)) { v.push_back(w.kv("value1", num(r, b))); f.push_back([=](Truth& t) { t.v1 = b; }); } if(r.chance(.6)) { v.push_back(w.kv("texture", TN[tf])); f.push_back([=](Truth& t) { t.texf = tf; }); }
            if(!v.empty()) { for(size_t i = v.size()-1; i>0; i--) { size_t j = r.irange(0, (int)i); std::swap(v[i], v[j]); } S(w.object("filter", v), [=](Truth& t) { for(auto& g : f) g(t); }); }
        }
        if(r.chance(.8))
        {
            std::vector<string> v; std::vector<std::function<void(Truth&)>> f; int ct = r.irange(0, 2); static const char* CN[] = {"perspective", "orthographic", "panorama"}; struct F3 { float v[3]; }; F3 p{{fl(-20, 20), fl(-20, 20), fl(-20, 20)}}, q{{p.v[0]+fl(1, 9), p.v[1]+fl(-4, 4), p.v[2]+fl(-4, 4)}}, u{{fl(-.3, .3), r.chance(.5)?1.f:fl(.5, 1), (float)r.range(-.3, .3)}}; float fo = fl(10, 150);
            if(r.chance(.7)) { v.push_back(w.kv("type", CN[ct])); f.push_back([=](Truth& t) { t.cam = ct; }); } if(r.chance(.6)) { if(r.chance(.1)) { float z[3] = {9, 9, 9}; v.push_back(w.kv("position", w.vecn(z, 3))); } v.push_back(w.kv("position", w.vecn(p.v, 3))); v.push_back(w.kv("target", w.vecn(q.v, 3))); f.push_back([=](Truth& t) { memcpy(t.pos, p.v, 12); memcpy(t.tar, q.v, 12); }); }
            if(r.chance(.4)) { v.push_back(w.kv("up", w.vecn(u.v, 3))); f.push_back([=](Truth& t) { memcpy(t.up, u.v, 12); }); } if(r.chance(.6)) { v.push_back(w.kv("fov", num(r, fo))); f.push_back([=](Truth& t) { t.fov = fo; }); }
            if(!v.empty()) S(w.object("camera", v), [=](Truth& t) { for(auto& g : f) g(t); });
        }
    }
    // images and textures
    int ni = r.irange(1, 4); for(int i = 0; i<ni; i++)
    {
        Img m; m.side = 1 << r.irange(1, 4); int kind = r.irange(0, 2); m.path = vt::fmt("%sim %d.tga", r.chance(.5)?"tex/":"", i); m.px.resize(m.side*m.side); for(int y = 0; y<m.side; y++) for(int x = 0; x<m.side; x++) { uint32_t v = 0; for(int c = 0; c<4; c++) { int b = kind == 0?r.irange(0, 255):kind == 1?((x*2/m.side)^(c&1)?255:0):((y*2/m.side)^(c >> 1)?255:0); v |= (uint32_t)b << 8*c; } m.px[y*m.side+x] = v; }
        // x kind 1: halves in u; kind 2: halves in v
        T.img.push_back(m); write_tga(dir+"/"+m.path, m);
    }
    auto imgpath = [&](int i) { string p = T.img[i].path; if(r.chance(.15)) for(char& c : p) if(c == '/') c = '\\'; if(r.chance(.1)) p = "./"+p; if(r.chance(.1)) p = "tex/../"+p; if(r.chance(.1)) p = dir+"/"+T.img[i].path; return p; };
    int ntx = r.irange(0, 3); std::vector<string> texnames, badtex; for(int i = 0; i<ntx; i++)
    {
        Tex t; t.img = i<ni?i:r.irange(0, ni-1); bool named = i>=ni || r.chance(.7); string src = imgpath(t.img); size_t sl = T.img[t.img].path.find('/'); t.name = named?odd_name(r, "Tex", i):T.img[t.img].path.substr(sl == string::npos?0:sl+1); std::vector<string> v = {w.kv("src", w.q(src))}; if(named) v.push_back(w.kv("name", w.q(t.name)));
        if(r.chance(.4)) { t.sc[0] = fl(1, 3); t.sc[1] = r.chance(.5)?t.sc[0]:(float)r.range(.3, 3); v.push_back(w.kv("scale", t.sc[0] == t.sc[1] && r.chance(.5)?num(r, t.sc[0]):w.vecn(t.sc, 2))); } if(r.chance(.4)) { t.sh[0] = (float)r.range(-1, 1); t.sh[1] = (float)r.range(-1, 1); v.push_back(w.kv("shift", w.vecn(t.sh, 2))); }
        for(size_t k = v.size()-1; k>0; k--) std::swap(v[k], v[r.irange(0, (int)k)]); S(w.object("texture", v), [=](Truth& tt) { tt.tex.push_back(t); }); texnames.push_back(t.name);
    }
    std::vector<string> pathtex; for(int i = 0; i<ni; i++) { bool claimed = false; for(auto& n : texnames) if(n == T.img[i].path) claimed = true; if(!claimed) pathtex.push_back(T.img[i].path); }
    auto texref = [&]() -> string { double k = r.u(); if(!texnames.empty() && k<.6) return r.pick(texnames); if(!pathtex.empty() && k<.93) return r.pick(pathtex); if(o.missing && k>.93) return "no such texture.png"; return T.img[0].path; };
    auto mask = [&](MaskS& m, std::vector<string>& v) { m.tex = texref(); string s = w.kv("mask", w.q(m.tex)); static const char* CH[] = {"A", "R", "G", "B"}; bool cf = r.chance(.5); int c = r.irange(0, 3); m.inv = r.chance(.4); bool give = r.chance(.6); if(give) m.chn = c; string a = give?string("using channel ")+CH[c]:"", b = m.inv?"inverted":""; if(!a.empty() && cf) s += w.ws(true)+a; if(!b.empty()) s += w.ws(true)+b; if(!a.empty() && !cf) s += w.ws(true)+a; v.push_back(s); };
    // materials
    int nm = r.irange(0, 5); std::vector<string> mats; for(int i = 0; i<nm; i++)
    {
        MatS m; m.name = odd_name(r, "Mat", i); std::vector<string> v; bool type = r.chance(.85); if(type) { m.type = r.irange(0, 3); static const char* N[] = {"matte", "glossy", "metal", "glass"}; v.push_back(w.kv("type", N[m.type])); }
        if(r.chance(.6)) { m.rough = r.chance(.1)?0:r.chance(.1)?1:(float)r.range(.01, 1); if(r.chance(.05)) m.rough = (float)r.range(1, 3); if(r.chance(.1)) v.push_back(w.kv("roughness", ".77")); v.push_back(w.kv("roughness", num(r, m.rough))); } if(r.chance(.35)) { m.aniso = r.chance(.2)?m.rough:(float)r.range(.01, 1); v.push_back(w.kv("anisotropy", num(r, m.aniso))); }
        if(r.chance(.6)) { m.dist = r.irange(0, 2); static const char* N[] = {"beckmann", "blinn", "ggx"}; v.push_back(w.kv("distribution", N[m.dist])); }
        auto source = [&](Source& s, const char* key) { if(r.chance(.4)) return; if(r.chance(.1)) { float c[3] = {1, 2, 3}; v.push_back(r.chance(.5)?w.kv(key, w.vecn(c, 3)):w.kv(key, w.q(texref()))); } if(r.chance(.5)) { s.m = UNIFORM; for(int k = 0; k<3; k++) s.col[k] = r.chance(.1)?fl(-100, 500):(float)r.irange(0, 255); v.push_back(w.kv(key, w.vecn(s.col, 3))); } else { s.m = TEXTURE; s.tex = texref(); v.push_back(w.kv(key, w.q(s.tex))); } }; source(m.dif, "diffuse"); source(m.spe, "specular");
        if(o.missing && r.chance(.06)) v.push_back(w.kv("normal", w.q("no such normal.png"))); else if(r.chance(.25)) { m.normal = r.chance(.5) && !texnames.empty()?r.pick(texnames):T.img[r.irange(0, ni-1)].path; bool cl = false; for(auto& n : texnames) cl |= n == m.normal; for(auto& n : pathtex) cl |= n == m.normal; if(cl) v.push_back(w.kv("normal", w.q(m.normal))); else m.normal.clear(); }
        if(r.chance(.4)) { m.iorn = r.irange(1, 4); int n = m.iorn == 4?6:m.iorn; m.ior[0] = (float)r.range(1.1, 2.2); m.ior[1] = (float)r.range(0, .02); m.ior[2] = (float)r.range(0, .001); if(m.iorn == 4) { static const float bk7[6] = {1.03961212f, .231792344f, 1.01046945f, .00600069867f, .0200179144f, 103.560653f}; for(int k = 0; k<6; k++) m.ior[k] = bk7[k]*(float)(k<3?r.range(.9, 1.1):1); v.push_back(w.kv("ior", w.vecn(m.ior, 3)+w.ws(false)+w.vecn(m.ior+3, 3))); } else { for(int k = n; k<6; k++) m.ior[k] = 0; v.push_back(w.kv("ior", n == 1?num(r, m.ior[0]):w.vecn(m.ior, n))); } }
        if(r.chance(.5)) { m.elem = SYM[r.irange(0, NSYM-1)]; string e = m.elem; for(char& c : e) if(r.chance(.4)) c = r.chance(.5)?(char)toupper(c):(char)tolower(c); v.push_back(w.kv("element", e)); }
        // repeated keys keep their order: only the name moves
        v.insert(v.begin()+r.irange(0, (int)v.size()), w.kv("name", w.q(m.name))); S(w.object("material", v), [=](Truth& t) { t.mat.push_back(m); }); mats.push_back(m.name);
    }
    std::vector<string> allm = mats; int nd = r.chance(.4)?r.irange(1, 2):0; for(int i = 0; i<nd; i++)
    {
        DualS d; d.name = odd_name(r, "Dual", i); std::vector<string> v; auto pick = [&]() { return mats.empty() || r.chance(.1)?string("unknown material"):r.pick(mats); }; if(r.chance(.85)) { d.first = pick(); v.push_back(w.kv("first", w.q(d.first))); } if(r.chance(.85)) { d.second = pick(); v.push_back(w.kv("second", w.q(d.second))); } if(r.chance(.9)) mask(d.mask, v); v.insert(v.begin()+r.irange(0, (int)v.size()), w.kv("name", w.q(d.name))); S(w.object("dualmaterial", v), [=](Truth& t) { t.dual.push_back(d); }); allm.push_back(d.name);
    }
    // models
    int no = r.irange(0, 2); std::vector<string> shapes; for(int i = 0; i<no; i++)
    {
        ObjFile f; f.path = vt::fmt("%smodel %d.obj", r.chance(.5)?"models/":"", i); string text; int ns = r.irange(1, 3), nv = 0;
        for(int k = 0; k<ns; k++)
        {
            Shape_ s; s.name = vt::fmt("shape%d_%d", i, k); s.z = r.chance(.5)?0:r.range(-1, 1); s.z = (float)s.z; text += "o "+s.name+"\n"; int nq = r.irange(1, 3); double x = (float)r.range(-2, 0); string cur;
            for(int q = 0; q<nq; q++) { Quad d; d.x0 = (float)x; d.x1 = (float)(x+r.range(.5, 1.5)); x = d.x1+.1; d.y0 = (float)r.range(-1.5, -.3); d.y1 = (float)r.range(.3, 1.5); d.mtl = q == 0 || r.chance(.6)?(allm.empty() || r.chance(.2)?(r.chance(.5)?"Default":"nowhere"):allm[r.irange(0, (int)allm.size()-1)]):cur; if(d.mtl != cur || q == 0 || r.chance(.2)) text += "usemtl "+d.mtl+"\n"; cur = d.mtl; double P[4][4] = {{d.x0, d.y0, 0, 0}, {d.x1, d.y0, 1, 0}, {d.x1, d.y1, 1, 1}, {d.x0, d.y1, 0, 1}}; for(auto& p : P) text += vt::fmt("v %.9g %.9g %.9g\nvt %g %g\n", p[0], p[1], s.z, p[2], p[3]); text += vt::fmt("f %d/%d %d/%d %d/%d %d/%d\n", nv+1, nv+1, nv+2, nv+2, nv+3, nv+3, nv+4, nv+4); nv += 4; s.q.push_back(d); }
            f.shapes.push_back(s); shapes.push_back(s.name);
        }
        vt::write_file(dir+"/"+f.path, text); string p = f.path; if(r.chance(.2)) for(char& c : p) if(c == '/') c = '\\'; if(r.chance(.1)) p = dir+"/"+f.path; S(w.kv("shape", w.q(p)), [=](Truth& t) { t.obj.push_back(f); });
    }
    // names of materials in models cannot carry blanks; they are looked up as written up to the first one
    int np = r.irange(o.min_place, std::max(o.min_place, r.chance(.2)?o.max_place:5)); for(int i = 0; i<np; i++)
    {
        Place p; p.shape = shapes.empty() || r.chance(.3)?"Sphere":r.pick(shapes); if(o.missing && r.chance(.05)) p.shape = "no such shape"; p.light = r.chance(.3); std::vector<string> v; float g[3] = {(float)(i%4*40-60), (float)(i/4*40-60), 0}; for(int k = 0; k<3; k++) p.pos[k] = g[k]+(r.chance(.4)?(float)r.irange(-5, 5):(float)r.range(-5, 5)); bool origin = i == 0 && r.chance(.2); if(origin) for(float& x : p.pos) x = 0; else v.push_back(w.kv("position", w.vecn(p.pos, 3)));
        if(origin) {} if(r.chance(.5)) { for(float& x : p.rot) x = r.chance(.3)?(float)(90*r.irange(-3, 3)):r.chance(.3)?0:(float)r.range(-400, 400); v.push_back(w.kv("rotation", w.vecn(p.rot, 3))); }
        if(r.chance(.6)) { float k = (float)r.logrange(.3, 3); for(float& x : p.sc) x = k; if(p.shape != "Sphere" || !p.light) if(r.chance(.5)) for(float& x : p.sc) x = (float)r.logrange(.3, 3); bool uni = p.sc[0] == p.sc[1] && p.sc[1] == p.sc[2]; v.push_back(w.kv("scale", uni && r.chance(.7)?num(r, p.sc[0]):w.vecn(p.sc, 3))); }
        if(!p.light) { if(r.chance(.5)) { p.mat = allm.empty() || r.chance(.1)?"unknown material":r.pick(allm); v.push_back(w.kv("material", w.q(p.mat))); } }
        else if(r.chance(.7)) { if(r.chance(.5)) { p.temp = r.irange(1000, 12000); v.push_back(w.kv("temperature", vt::fmt("%d", p.temp))); } else { for(float& x : p.col) x = r.chance(.1)?fl(-50, 400):(float)r.irange(0, 255); v.push_back(w.kv("color", w.vecn(p.col, 3))); } }
        if(r.chance(.3)) mask(p.mask, v); for(size_t k = v.size(); k>1; k--) std::swap(v[k-1], v[r.irange(0, (int)k-1)]); v.insert(v.begin(), w.kv("name", w.q(p.shape))); S(w.object(p.light?"light":"world", v), [=](Truth& t) { t.place.push_back(p); });
    }
    // order and files
    for(size_t i = st.size(); i>1; i--) std::swap(st[i-1], st[r.irange(0, (int)i-1)]);
    int nc = o.children && r.chance(.4)?r.irange(1, 3):0; std::vector<std::vector<St>> per(nc+1); for(auto& s : st) per[nc && r.chance(.5)?r.irange(1, nc):0].push_back(s);
    for(int i = 1; i<=nc; i++) if(per[i].empty()) per[i].push_back(St{w.kv("integrator", "path"), [](Truth&) {}}); if(per[0].empty() && nc == 0) per[0].push_back(St{w.kv("integrator", "path"), [](Truth&) {}});
    std::vector<string> names = {"main.txt"}; for(int i = 1; i<=nc; i++) names.push_back(vt::fmt("child %d.txt", i)); std::vector<int> order; for(int i = 1; i<=nc; i++) order.push_back(i); for(int i = nc; i>1; i--) std::swap(order[i-1], order[r.irange(0, i-1)]);
    // the children are read in the order in which they are mentioned
    size_t at = 0; for(int c : order) { at = r.irange((int)at, (int)per[0].size()); string p = names[c]; if(r.chance(.1)) p = dir+"/"+p; per[0].insert(per[0].begin()+at, St{w.kv("material", w.q(p)), [](Truth&) {}}); at++; }
    if(nc && o.missing && r.chance(.1)) per[0].insert(per[0].begin()+r.irange(0, (int)per[0].size()), St{w.kv("material", w.q("no such child.txt")), [](Truth&) {}});
    if(nc && r.chance(.1)) per[1].push_back(St{w.kv("material", w.q("main.txt")), [](Truth&) {}});      // ignored: children of children
    order.insert(order.begin(), 0); for(int c : order) for(auto& s : per[c]) s.f(T);
    for(int c = 0; c<=nc; c++) { string t; std::vector<size_t> gp; if(!w.tidy) t += w.ws(false); for(size_t i = 0; i<per[c].size(); i++) { gp.push_back(t.size()); t += per[c][i].text; t += o.tidy?"\n":r.chance(.2)?w.ws(false)+","+w.ws(false):r.chance(.6)?w.eol():w.ws(true); } gp.push_back(t.size()); if(r.chance(.3)) while(!t.empty() && isspace((unsigned char)t.back())) t.pop_back(); if(gp.back()>t.size()) gp.back() = t.size(); C.files.push_back({names[c], t}); C.gaps.push_back(gp); vt::write_file(dir+"/"+names[c], t); }
    C.main = dir+"/main.txt"; return C;
}
inline string dump(const Conf& c) { string s; for(auto& f : c.files) s += "<"+f.first+">"+f.second; string o; for(char ch : s) if(ch == '\n') o += "\\n"; else if(ch == '\r') o += "\\r"; else if(ch == '\t') o += "\\t"; else o += ch; return o.substr(0, 3000); }
}
#endif
