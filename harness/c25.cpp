// C25: an OBJ model holds the geometry, attributes and materials its text describes.
#include "obj.hpp"
#include "parsers/parser_obj.hpp"
#include "primitives/asset.hpp"
#include "materials/material_library.hpp"
#include "materials/bsdf.hpp"
#include "materials/lambertian.hpp"

using namespace objm;
static std::vector<std::string> names; static std::vector<const Bsdf*> bsdfs;
struct Got { std::string name; Mesh* m; std::vector<const Bsdf*> mats; std::vector<unsigned char> as; unsigned faces; };
static std::vector<Got> load(ParserObj& p, const std::string& path, size_t cap)
{
    std::vector<Got> g; p.start_parsing(path.c_str()); Mesh* m = new Mesh(1);
    while(p.get_next_mesh(m)) { Got x; x.m = m; x.name = p.get_mesh_name(); x.faces = p.get_face_no(); x.mats.resize(p.get_material_no()); p.get_materials(x.mats.data()); x.as.resize(x.faces+1); p.get_material_association(x.as.data()); g.push_back(x); m = new Mesh(1); if(g.size()>cap) break; }
    delete m; return g;
}
static std::string show(const std::string& t, size_t n = 400) { std::string s; for(char c : t.substr(0, n)) { if(c == '\n') s += "\\n"; else if(c == '\r') s += "\\r"; else if(c == '\t') s += "\\t"; else if((unsigned char)c<32) s += vt::fmt("\\x%02x", c); else s += c; } return s; }
static bool check(Rng& r, const Model& M, std::vector<Got>& g)
{
    std::string all; for(auto& x : g) all += x.name+vt::fmt("(%u) ", x.faces);
    size_t n = M.objs.size(); if(g.size() != n) { std::string e; for(auto& o : M.objs) e += o.name+" "; vt::violation("objects", "%zu objects (%s), the file describes %zu (%s): %s", g.size(), all.c_str(), n, e.c_str(), show(M.text).c_str()); return false; }
    for(size_t k = 0; k<n; k++)
    {
        const Obj& o = M.objs[k]; Got& x = g[k]; if(x.name != o.name) { vt::violation("name", "object %zu is called '%s' instead of '%s'", k, x.name.c_str(), o.name.c_str()); return false; }
        int tris = 0; double area = 0; for(auto& f : o.f) { tris += (int)f.c.size()-2; for(size_t c = 2; c<f.c.size(); c++) area += .5*len(cross(f.c[c-1].p-f.c[0].p, f.c[c].p-f.c[0].p)); }
        if((int)x.faces != tris || x.m->get_faces_number() != tris) { vt::violation("faces", "object '%s' has %u triangles (mesh %d), its faces make %d: %s", o.name.c_str(), x.faces, x.m->get_faces_number(), tris, show(M.text).c_str()); return false; }
        if(std::fabs(x.m->surface()-area)>2e-4*area+1e-5) { vt::violation("area", "object '%s' has area %g instead of %g: %s", o.name.c_str(), x.m->surface(), area, show(M.text).c_str()); return false; }
        std::vector<const Bsdf*> need; for(auto& f : o.f) { const Bsdf* b = f.mat<0?MtlLib.get_default():bsdfs[f.mat]; if(std::find(need.begin(), need.end(), b) == need.end()) need.push_back(b); }
        if(x.mats.size() != need.size()) { vt::violation("material-list", "%zu materials listed, %zu are used", x.mats.size(), need.size()); return false; }
        for(unsigned i = 0; i<x.faces; i++) if(x.as[i]>=x.mats.size()) { vt::violation("material-index", "triangle %u refers to material %d of %zu", i, x.as[i], x.mats.size()); return false; }
        Matrix4 id; id.set_identity(); Asset a(x.m, id, 1); a.set_materials(x.mats.data(), (unsigned char)x.mats.size(), x.as.data()); MaskBoolean nomask;
        for(auto& f : o.f) for(int s = 0; s<3; s++)
        {
            size_t t = 2+r.irange(0, (int)f.c.size()-3); double b1 = r.u(), b2 = r.u(); if(b1+b2>1) b1 = 1-b1, b2 = 1-b2; b1 = .03+.9*b1; b2 = .03+.9*b2; double b0 = 1-b1-b2; const FV& A = f.c[0], & B = f.c[t-1], & C = f.c[t];
            if(len(cross(B.p-A.p, C.p-A.p))<1e-3*area/o.f.size()) continue;
            D3 p = A.p*b0+B.p*b1+C.p*b2; bool down = r.chance(.5); double away = 3+r.u()*5; Ray ray(pt(p+D3(0, 0, down?away:-away)), vec(D3(0, 0, down?-1:1))); float dist = 1e9f; HitPoint h = blank_hit();
            double sc = std::fabs(p.x)+std::fabs(p.y)+std::fabs(p.z)+away; bool hit = x.m->intersect(&ray, &dist, &h, &nomask);
            if(!hit || std::fabs(dist-away)>1e-4*sc) { vt::violation("geometry", "object '%s': a line through face corner (%g %g %g) of %zu meets %s at %g instead of %g: %s", o.name.c_str(), A.p.x, A.p.y, A.p.z, f.c.size(), hit?"something":"nothing", hit?dist:0.f, away, show(M.text).c_str()); return false; }
            if(f.has_t) { double u = A.u*b0+B.u*b1+C.u*b2, v = A.v*b0+B.v*b1+C.v*b2, tol = 2e-3+1e-5*(std::fabs(u)+std::fabs(v)); if(std::fabs(h.uv.x-u)>tol || std::fabs(h.uv.y-v)>tol) { vt::violation("texture-coordinates", "uv (%g %g) instead of (%g %g), face of %zu: %s", h.uv.x, h.uv.y, u, v, f.c.size(), show(M.text).c_str()); return false; } }
            else if(!(std::isfinite(h.dpdu.length()) && std::isfinite(h.dpdv.length()) && h.dpdu.length()>0)) { vt::violation("no-tangents", "a face without texture coordinates gets unusable ones: uv %g %g, dpdu %g %g %g", h.uv.x, h.uv.y, h.dpdu.x, h.dpdu.y, h.dpdu.z); return false; }
            else if(!(std::isfinite(h.uv.x) && std::isfinite(h.uv.y))) { vt::violation("texture-coordinates", "no finite uv"); return false; }
            D3 nn; if(f.has_n) nn = A.n*b0+B.n*b1+C.n*b2; else { nn = D3(0, 0, 0); for(size_t c = 2; c<f.c.size(); c++) nn = nn+cross(f.c[c-1].p-f.c[0].p, f.c[c].p-f.c[0].p); }
            nn = unit(nn); D3 got = unit(D3(h.normal_h.x, h.normal_h.y, h.normal_h.z)); if(!(len(got-nn)<5e-3)) { vt::violation(f.has_n?"normal":"flat-normal", "normal (%g %g %g) instead of (%g %g %g), face of %zu: %s", got.x, got.y, got.z, nn.x, nn.y, nn.z, f.c.size(), show(M.text).c_str()); return false; }
            const Bsdf* mb = a.get_material(h.index), * want = f.mat<0?MtlLib.get_default():bsdfs[f.mat]; if(mb != want) { vt::violation("material", "a face of object '%s' has material %s instead of %s: %s", o.name.c_str(), mb == MtlLib.get_default()?"Default":"other", f.mat<0?"Default":names[f.mat].c_str(), show(M.text).c_str()); return false; }
            vt::count("points checked"); vt::count(f.mat<0?"points with the default material":"points with a named material");
        }
        // nothing where the model has nothing
        vt::count("objects checked");
    }
    return true;
}
int main(int argc, char** argv)
{
    vt::init(argc, argv, "OBJ texts written from random models (several objects, named with o or g, empty or unnamed ones, shared vertices; triangles, quads and polygons; all index forms, absolute and negative; materials known, unknown and default; comments, tabs, blank lines, CRLF, unterminated last lines, other keywords, lines longer than the read buffer) loaded and compared by vertical lines through every face: position, texture coordinates, normal, material; triangle counts, areas, names and order");
    for(int i = 0; i<300; i++) { names.push_back(vt::fmt("mat%d", i)); Bsdf* b = new SingleBRDF(new Lambertian()); bsdfs.push_back(b); MtlLib.add_inherit(names.back(), b); }
    std::string path = vt::S().scratch+"/m.obj";
    auto run = [&](Rng& r, const Opt& o) { Model M = make(r, o); vt::write_file(path, M.text); ParserObj p; std::vector<Got> g = load(p, path, M.objs.size()+3); p.end_parsing(); vt::eval(vt::hash_str(M.text)); vt::count("lines", std::count(M.text.begin(), M.text.end(), '\n')); check(r, M, g); for(auto& x : g) delete x.m; };
#ifdef TESTS
    int most = 60;
#else
    int most = 600;
#endif
    vt::cases("models", vt::n(3000, 60000), [&](Rng& r, long) { Opt o; o.max_tris = r.chance(.3)?12:most; int m = r.irange(0, 5); for(int i = 0; i<m; i++) o.names.push_back(names[i]); run(r, o); });
    // one reader, several files
    vt::cases("reuse", vt::n(400, 6000), [&](Rng& r, long) {
        ParserObj p; for(int k = 0; k<3; k++) { Opt o; o.max_tris = 20; o.names = {names[0], names[1]}; Model M = make(r, o); vt::write_file(path, M.text); std::vector<Got> g = load(p, path, M.objs.size()+3); if(r.chance(.6)) p.end_parsing(); vt::eval(vt::hash_str(M.text)); bool ok = check(r, M, g); for(auto& x : g) delete x.m; if(!ok) return; } });
#ifndef TESTS
    // many materials in one object
    vt::cases("materials", vt::n(60, 600), [&](Rng& r, long) {
        int n = r.chance(.5)?r.irange(230, 254):r.irange(2, 253); std::string t = "o many\n"; std::vector<int> perm; for(int i = 0; i<300; i++) perm.push_back(i); for(int i = 299; i>0; i--) std::swap(perm[i], perm[r.irange(0, i)]);
        Model M; M.objs.resize(1); M.objs[0].name = "many"; int nf = n+r.irange(0, 200);
        for(int i = 0; i<nf; i++) { int m = i<n?i:r.irange(0, n-1); int mm = perm[m]; if(r.chance(.1)) t += "usemtl mat"+vt::fmt("%d", perm[r.irange(0, n-1)])+"\n"; D3 c(i*2, 0, 0); Face f; f.has_t = f.has_n = false; f.affine = true; f.mat = mm; D3 P[3] = {c, c+D3(1, 0, 0), c+D3(0, 1, 0)}; for(D3 q : P) { FV v; v.p = q; v.u = v.v = 0; f.c.push_back(v); t += vt::fmt("v %g %g %g\n", q.x, q.y, q.z); } t += "usemtl "+names[mm]+"\nf -3 -2 -1\n"; M.objs[0].f.push_back(f); }
        M.text = t; vt::write_file(path, t); ParserObj p; std::vector<Got> g = load(p, path, 3); p.end_parsing(); vt::eval(vt::hash_str(t)); check(r, M, g); for(auto& x : g) delete x.m; });
#endif
    return vt::finish();
}
