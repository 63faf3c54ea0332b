// Random OBJ models with a known meaning: a height field whose cells are distributed over named objects, so that a vertical line meets exactly one face.
#ifndef OBJ_HPP
#define OBJ_HPP
#include "gen.hpp"
namespace objm
{
using namespace gen;
struct FV { D3 p; double u, v; D3 n; };
struct Face { std::vector<FV> c; bool has_t, has_n; int mat; bool affine; };   // mat: index in the material names, -1 default
struct Obj { std::string name; std::vector<Face> f; };
struct Model { std::vector<Obj> objs; std::string text; int forms = 0; };
struct Opt { int max_tris = 400; bool mats = true; bool odd = true; int nmats = 0; std::vector<std::string> names; };
inline std::string num(Rng& r, double x)
{
    float f = (float)x;
    switch(r.irange(0, 5))
    {
        case 0: return vt::fmt("%.9e", f);
        case 1: if(f>=0) return vt::fmt("+%.9g", f); return vt::fmt("%.9g", f);
        case 2: return vt::fmt("%.12f", f).substr(0, 40);
        default: return vt::fmt("%.9g", f);
    }
}
struct Writer
{
    Rng& r; std::string s; bool crlf, messy; long lines = 0;
    std::string sp() { if(!messy || r.chance(.7)) return " "; static const char* W[] = {"  ", "\t", " \t ", "     ", "\t\t"}; return W[r.irange(0, 4)]; }
    void eol() { if(messy && r.chance(.1)) s += sp(); s += crlf?"\r\n":"\n"; lines++; }
    void line(const std::vector<std::string>& w)
    {
        if(messy && r.chance(.1)) s += sp();
        for(size_t i = 0; i<w.size(); i++) { if(i) s += sp(); s += w[i]; }
        eol(); if(messy) noise();
    }
    void noise()
    {
        if(!r.chance(.12)) return;
        switch(r.irange(0, 9))
        {
            case 0: eol(); break;
            case 1: s += "# f 1 2 3"; eol(); break;
            case 2: s += "#"; eol(); break;
            case 3: { s += "# "; int n = r.chance(.3)?r.irange(3000, 9000):r.irange(1, 200); for(int i = 0; i<n; i++) { static const char A[] = "abc vnfogu/0123456789-.#\t\\ \x01\x07\xc3\xa9"; s += A[r.irange(0, sizeof A-2)]; } eol(); break; }
            case 4: s += r.chance(.5)?"s off":vt::fmt("s %d", r.irange(0, 3)); eol(); break;
            case 5: s += "mtllib scene.mtl other.mtl"; eol(); break;
            case 6: s += vt::fmt("vp %g %g", r.u(), r.u()); eol(); break;
            case 7: s += "\t  "; eol(); break;
            case 8: s += "l 1 2 3"; eol(); break;
            default: s += "p 1"; eol(); break;
        }
    }
};
inline Model make(Rng& r, const Opt& o)
{
    Model M; Writer w{r, "", r.chance(.3), r.chance(.75)};
    int K = r.irange(1, 6), cols = 0; struct Cell { int o, x, y; }; std::vector<int> width(K), height(K), off(K);
    int budget = o.max_tris; bool gstyle = r.chance(.3), unnamed_first = r.chance(.25);
    for(int k = 0; k<K; k++) { width[k] = r.irange(1, 4); height[k] = r.irange(1, 4); off[k] = cols; cols += width[k]; }
    // grid points
    int H = 4; std::vector<std::vector<D3>> gp(cols+1, std::vector<D3>(H+1)); bool flat_plane = r.chance(.3); double pa = r.range(-.5, .5), pb = r.range(-.5, .5), sc = r.chance(.2)?r.logrange(.5, 50):1;
    for(int x = 0; x<=cols; x++) for(int y = 0; y<=H; y++) { double jx = x+r.range(-.15, .15), jy = y+r.range(-.15, .15); gp[x][y] = D3((float)(jx*sc), (float)(jy*sc), 0); gp[x][y].z = (float)(flat_plane?pa*gp[x][y].x+pb*gp[x][y].y:r.range(-1, 1)*sc); }
    std::vector<std::vector<int>> gi(cols+1, std::vector<int>(H+1, -1)); int nv = 0, nt = 0, nn = 0;
    auto emitv = [&](D3 p) { std::vector<std::string> l = {"v", num(r, p.x), num(r, p.y), num(r, p.z)}; if(r.chance(.1)) l.push_back("1.0"); else if(r.chance(.05)) { l.push_back(".5"); l.push_back("0.25"); l.push_back("1"); } w.line(l); return ++nv; };
    auto emitt = [&](double u, double v) { std::vector<std::string> l = {"vt", num(r, u), num(r, v)}; if(r.chance(.1)) l.push_back("0"); w.line(l); return ++nt; };
    auto emitn = [&](D3 n) { w.line({"vn", num(r, n.x), num(r, n.y), num(r, n.z)}); return ++nn; };
    auto ref = [&](int i, int n) { return r.chance(.35)?vt::fmt("%d", i-n-1):vt::fmt("%d", i); };
    bool neg_only = r.chance(.2), pos_only = r.chance(.3); auto R = [&](int i, int n) { return neg_only?vt::fmt("%d", i-n-1):pos_only?vt::fmt("%d", i):ref(i, n); };
    if(r.chance(.5)) w.noise(); bool pre = r.chance(.4);
    if(pre) for(int x = 0; x<=cols; x++) for(int y = 0; y<=H; y++) gi[x][y] = emitv(gp[x][y]);
    int form_all = r.irange(0, 4); int cur = -1;
    std::vector<D3> used_n; std::vector<int> used_ni;
    for(int k = 0; k<K; k++)
    {
        Obj ob; bool named = !(k == 0 && unnamed_first); ob.name = named?vt::fmt("%s%d", r.chance(.2)?"Obj_é.":"part", k):"Unnamed";
        if(named) w.line({gstyle?"g":"o", ob.name});
        if(named && r.chance(.12)) { ob.name = vt::fmt("later%d", k); if(r.chance(.5)) emitv(D3(1, 2, 3)); w.line({gstyle?"g":"o", ob.name}); }   // an object without faces before this one
        if(!gstyle && named && r.chance(.3)) w.line({"g", "sub"});
        for(int x = off[k]; x<off[k]+width[k]; x++) for(int y = 0; y<height[k]; y++)
        {
            if(r.chance(.1)) continue;
            if(budget<8) continue;
            if(o.mats && r.chance(.4) && !o.names.empty())
            {
                int which = r.irange(-2, (int)o.names.size()-1); std::string nm = which == -1?"Default":which == -2?"no_such_material":o.names[which]; w.line({"usemtl", nm}); cur = which<0?-1:which;
            }
            int kind = r.irange(0, 2); if(kind == 1 && !flat_plane) kind = 0;
            int form = form_all<4?form_all:r.irange(0, 3); M.forms |= 1 << form; bool ht = form == 1 || form == 3, hn = form == 2 || form == 3; bool cw = r.chance(.3);
            std::vector<Face> fs; std::vector<std::vector<int>> vi;
            auto grid = [&](int a, int b) { if(gi[a][b]<0 || r.chance(.05)) gi[a][b] = emitv(gp[a][b]); return gi[a][b]; };
            D3 q[4] = {gp[x][y], gp[x+1][y], gp[x+1][y+1], gp[x][y+1]}; int qx[4] = {x, x+1, x+1, x}, qy[4] = {y, y, y+1, y+1};
            double A[6]; for(int i = 0; i<6; i++) A[i] = r.range(-1, 1); D3 n0 = D3(r.range(-.3, .3), r.range(-.3, .3), 1); D3 nx(r.range(-.2, .2), r.range(-.2, .2), 0), ny(r.range(-.2, .2), r.range(-.2, .2), 0); double nscale = r.chance(.5)?r.range(.3, 3):0;
            double fu = 0, fv = 0; if(ht && r.chance(.05)) fu = 1000, fv = -1000;
            auto attrs = [&](FV& c, bool aff) {
                if(aff) { double X = c.p.x/sc-x, Y = c.p.y/sc-y; c.u = (float)(A[0]*X+A[1]*Y+A[2]+fu); c.v = (float)(A[3]*X+A[4]*Y+A[5]+fv); c.n = n0+nx*X+ny*Y; if(nscale) c.n = c.n*nscale; }
                else { c.u = (float)r.range(0, 1); c.v = (float)r.range(0, 1); c.n = unit(D3(r.range(-1, 1), r.range(-1, 1), r.range(.2, 1))); }
                c.n = D3((float)c.n.x, (float)c.n.y, (float)c.n.z); };
            if(kind == 0)
            {
                int d0 = r.irange(0, 1); int T[2][3] = {{0, 1, 2}, {0, 2, 3}}, U[2][3] = {{0, 1, 3}, {1, 2, 3}};
                for(int t = 0; t<2; t++) { Face f; f.affine = false; std::vector<int> id; for(int c = 0; c<3; c++) { int z = d0?U[t][c]:T[t][c]; FV v; v.p = q[z]; attrs(v, false); f.c.push_back(v); id.push_back(z); } fs.push_back(f); vi.push_back(id); }
            }
            else if(kind == 1) { Face f; f.affine = true; std::vector<int> id; for(int c = 0; c<4; c++) { FV v; v.p = q[c]; attrs(v, true); f.c.push_back(v); id.push_back(c); } fs.push_back(f); vi.push_back(id); }
            else
            {
                int n = r.irange(3, 9); double ph = r.range(0, 6.28), a = r.range(-.8, .8), b = r.range(-.8, .8), z0 = r.range(-1, 1); D3 ctr((x+.5)*sc, (y+.5)*sc, 0); Face f; f.affine = true; std::vector<int> id;
                for(int c = 0; c<n; c++) { double an = ph+c*2*M_PI/n, X = ctr.x+.3*sc*std::cos(an), Y = ctr.y+.3*sc*std::sin(an); FV v; v.p = D3((float)X, (float)Y, 0); v.p.z = (float)(a*(v.p.x-ctr.x)+b*(v.p.y-ctr.y)+z0*sc); attrs(v, true); f.c.push_back(v); id.push_back(-1); }
                if(r.chance(.25)) { int at = r.irange(0, n-1); FV m; m.p = (f.c[at].p+f.c[(at+1)%n].p)*.5; m.p = D3((float)m.p.x, (float)m.p.y, (float)m.p.z); attrs(m, true); f.c.insert(f.c.begin()+at+1, m); id.push_back(-1); }   // a corner on a side
                fs.push_back(f); vi.push_back(id);
            }
            for(size_t t = 0; t<fs.size(); t++)
            {
                Face& f = fs[t]; f.has_t = ht; f.has_n = hn; f.mat = cur; if(cw) { std::reverse(f.c.begin(), f.c.end()); std::reverse(vi[t].begin(), vi[t].end()); }
                int rot = r.irange(0, (int)f.c.size()-1); std::rotate(f.c.begin(), f.c.begin()+rot, f.c.end()); std::rotate(vi[t].begin(), vi[t].begin()+rot, vi[t].end());
                std::vector<int> pi, ti, ni;
                for(size_t c = 0; c<f.c.size(); c++)
                {
                    pi.push_back(vi[t][c]<0?emitv(f.c[c].p):grid(qx[vi[t][c]], qy[vi[t][c]])); if(ht) ti.push_back(emitt(f.c[c].u, f.c[c].v));
                    if(hn) { bool old = !f.affine && !used_n.empty() && r.chance(.5); if(old) { int z = r.irange(0, (int)used_n.size()-1); f.c[c].n = used_n[z]; ni.push_back(used_ni[z]); } else { ni.push_back(emitn(f.c[c].n)); used_n.push_back(f.c[c].n); used_ni.push_back(nn); if(f.affine) { used_n.pop_back(); used_ni.pop_back(); } } }
                    if(r.chance(.03)) emitv(D3(r.range(-9, 9), r.range(-9, 9), 0)); if(r.chance(.03)) emitt(r.u(), r.u()); if(r.chance(.03)) emitn(D3(0, 0, 1));
                }
                std::vector<std::string> l = {"f"};
                for(size_t c = 0; c<f.c.size(); c++) { std::string s = R(pi[c], nv); if(ht) s += "/"+R(ti[c], nt); else if(hn) s += "/"; if(hn) s += "/"+R(ni[c], nn); l.push_back(s); }
                w.line(l); budget -= (int)f.c.size()-2; ob.f.push_back(f);
            }
        }
        if(!ob.f.empty()) M.objs.push_back(ob);
    }
    if(r.chance(.3)) while(!w.s.empty() && (w.s.back() == '\n' || w.s.back() == '\r')) w.s.pop_back();
    M.text = w.s; return M;
}
}
#endif
