// C32: libraries and scene collections behave as maps: what was stored under a name or identifier is what comes back, until it is erased or cleared.
#include "gen.hpp"
#include "scenes.hpp"
#include <set>
#include <map>
#include "materials/material_library.hpp"
#include "materials/single_brdf.hpp"
#include "materials/lambertian.hpp"
#include "textures/texture_library.hpp"
#include "textures/texture_image.hpp"
#include "textures/texture_uniform.hpp"
#include "textures/image_map.hpp"
#include "lights/area_light.hpp"
#include "utility/scene.hpp"
#include "primitives/sphere.hpp"
using namespace gen;
using std::string;
// a material, a texture and a map which can be told from all the others by using them
static Bsdf* mat(int id) { TextureUniform* u = new TextureUniform(Spectrum((float)id)); TexLib.inherit_texture(u); return new SingleBRDF(new Lambertian(), u); }
static int mat_id(const Bsdf* b) { HitPoint h = blank_hit(); h.normal_h = Normal(0, 0, 1); h.dpdu = Vec3(1, 0, 0); h.dpdv = Vec3(0, 1, 0); ShadingSpace s(&h); Vec3 w(0, 0, 1); return (int)std::lround(b->value(&w, &h, &w, &s, false).w[0]*3.14159265358979); }
static ImageMap* map_of(int id) { std::vector<pixBGRA> px(4, (uint32_t)id); return new ImageMapUnfiltered(px.data(), 2); }
static uint32_t map_id(const ImageMap* m) { return const_cast<ImageMap*>(m)->filter(.25f, .25f, 0, 0, 0, 0).bgra_value; }
static string name(Rng& r, const std::vector<string>& old)
{
    if(!old.empty() && r.chance(.6)) { string s = r.pick(old); switch(r.irange(0, 19)) { case 0: return s+" "; case 1: return " "+s; case 2: { for(char& c : s) c = (char)toupper((unsigned char)c); return s; } case 3: return s.substr(0, s.size()/2); case 4: return s+string(1, '\0'); case 5: return s+s; default: return s; } }
    switch(r.irange(0, 9)) { case 0: return ""; case 1: return "Default"; case 2: return "default"; case 3: return string((size_t)r.irange(200, 5000), 'x')+std::to_string(r.irange(0, 3)); case 4: return string("a\0b", 3)+std::to_string(r.irange(0, 2)); case 5: return "\xc3\xa9t\xc3\xa9 /\\ \"'"+std::to_string(r.irange(0, 2)); case 6: return "/tmp/a.tga"; default: { string s; for(int n = r.irange(1, 12); n>0; n--) s += (char)r.irange(33, 126); return s; } }
}
static string show(const string& s) { string o; for(char c : s.substr(0, 40)) o += c>=32 && c<127?string(1, c):vt::fmt("\\x%02x", (unsigned char)c); return s.size()>40?o+"...":o; }
int main(int argc, char** argv)
{
    vt::init(argc, argv, "random histories of inserting (also under used names, odd, empty, long and similar names), looking up, erasing and clearing in the material and texture libraries, and of filling scenes, compared step by step with ordinary maps; what comes back is also used, so that released objects show under AddressSanitizer. Distinct states: histories");
    vt::cases("materials", vt::n(2000, 40000), [&](Rng& r, long) {
        std::map<string, std::pair<Bsdf*, int>> M; std::vector<string> names; const Bsdf* dflt = MtlLib.get_default(); int n = r.irange(5, 120), id = 1; uint64_t hash = 1; string log;
        auto check = [&](const string& k) { const Bsdf* g = MtlLib.get(k); bool c = MtlLib.contains(k); auto it = M.find(k); const Bsdf* want = k == "Default"?dflt:it == M.end()?NULL:it->second.first; vt::count("lookups"); if(g != want || c != (want != NULL)) { vt::violation("material-lookup", "get('%s') is %s, contains is %d, stored is %s, after %s", show(k).c_str(), g?"something":"NULL", c, want?g?"another":"something":"NULL", log.c_str()); return false; } if(it != M.end() && mat_id(g) != it->second.second) { vt::violation("material-content", "'%s' holds material %d instead of %d after %s", show(k).c_str(), mat_id(g), it->second.second, log.c_str()); return false; } return true; };
        for(int i = 0; i<n; i++)
        {
            string k = name(r, names); names.push_back(k); int op = r.irange(0, 9); hash = hash*31+vt::hash_str(k)+op; log += vt::fmt(" %d'%s'", op, show(k).substr(0, 12).c_str()); if(log.size()>600) log = log.substr(log.size()-500);
            if(op<4) { Bsdf* b = mat(id); bool had = k == "Default" || M.count(k); MtlLib.add_inherit(k, b); if(MtlLib.get(k) == b && had) { vt::violation("material-replaced", "a second material under '%s' took the place of the first", show(k).c_str()); return; } if(had) { vt::count("refused duplicates"); delete b; } else { M[k] = {b, id}; vt::count("insertions"); } id++; }
            else if(op<7) { MtlLib.erase(k); if(M.erase(k)) vt::count("erasures"); } else if(op == 7 && r.chance(.1)) { MtlLib.clear(); M.clear(); vt::count("clearings"); }
            if(!check(k) || !check(name(r, names)) || !check("Default") || MtlLib.get_default() != dflt) { MtlLib.clear(); return; }
        }
        for(auto& k : names) if(!check(k)) break; vt::eval(hash); MtlLib.clear(); M.clear(); for(auto& k : names) if(!check(k)) break; TexLib.clear(); });
    vt::cases("textures", vt::n(2000, 40000), [&](Rng& r, long) {
        std::map<string, std::pair<TextureImage*, uint32_t>> T; std::map<string, std::pair<ImageMap*, uint32_t>> P; std::vector<string> names; const ImageMap* dm_ = TexLib.get_dflt_map(); const Texture* dt = TexLib.get_dflt_texture(); const TextureImage* di = TexLib.get_dflt_teximage(); int n = r.irange(5, 120); uint32_t id = 0x01020304; uint64_t hash = 1; string log; std::vector<ImageMap*> own;
        auto check = [&](const string& k) { const TextureImage* t = TexLib.get_texture(k); const ImageMap* m = TexLib.get_map(k); auto a = T.find(k); auto b = P.find(k); vt::count("lookups", 2); HitPoint h = blank_hit(); h.uv = Point2(.25f, .25f); if(t != (a == T.end()?NULL:a->second.first) || TexLib.contains_texture(k) != (a != T.end()) || (t && t->map_value(&h).bgra_value != a->second.second)) { vt::violation("texture-lookup", "texture '%s' wrong after %s", show(k).c_str(), log.c_str()); return false; } if(m != (b == P.end()?NULL:b->second.first) || TexLib.contains_map(k) != (b != P.end()) || (m && map_id(m) != b->second.second)) { vt::violation("map-lookup", "map '%s' wrong after %s", show(k).c_str(), log.c_str()); return false; } return true; };
        for(int i = 0; i<n; i++)
        {
            string k = name(r, names); names.push_back(k); int op = r.irange(0, 11); hash = hash*31+vt::hash_str(k)+op; log += vt::fmt(" %d'%s'", op, show(k).substr(0, 12).c_str()); if(log.size()>600) log = log.substr(log.size()-500); id += 0x01030507;
            if(op<4) { Vec2 s(0, 0), c(1, 1); ImageMap* im = map_of(id); own.push_back(im); TextureImage* t = new TextureImage(im, s, c, true); bool had = T.count(k); TexLib.inherit_texture(k, t); if(had) { if(TexLib.get_texture(k) == t) { vt::violation("texture-replaced", "'%s'", show(k).c_str()); return; } delete t; vt::count("refused duplicates"); } else { T[k] = {t, id}; vt::count("insertions"); } }
            else if(op<7) { ImageMap* m = map_of(id); bool had = P.count(k); TexLib.inherit_map(k, m); if(had) { if(TexLib.get_map(k) == m) { vt::violation("map-replaced", "'%s'", show(k).c_str()); return; } delete m; vt::count("refused duplicates"); } else { P[k] = {m, id}; vt::count("insertions"); } }
            else if(op<9) { TexLib.erase_texture(k); vt::count("erasures", (long)T.erase(k)); } else if(op<10) { TexLib.erase_map(k); vt::count("erasures", (long)P.erase(k)); } else if(op == 10 && r.chance(.15)) { TexLib.clear(); T.clear(); P.clear(); vt::count("clearings"); }
            if(!check(k) || !check(name(r, names)) || TexLib.get_dflt_map() != dm_ || TexLib.get_dflt_texture() != dt || TexLib.get_dflt_teximage() != di || map_id(dm_) != 0xFFFFFFFF) { TexLib.clear(); return; }
        }
        for(auto& k : names) if(!check(k)) break; vt::eval(hash); TexLib.clear(); for(auto m : own) delete m; });
    vt::cases("scenes", vt::n(600, 12000), [&](Rng& r, long) {
        Scene* s = new Scene(); static std::set<unsigned> aid, sid; std::vector<const Shape*> sh; std::vector<const AreaLight*> li; struct Put { const Asset* a; D3 at; bool light; }; std::vector<Put> put; int n = r.chance(.2)?r.irange(60, 150):r.irange(1, 40), grid = 0; uint64_t hash = 1;
        auto fail = [&](const char* sig, const string& w) { vt::violation(sig, "%s (%zu shapes, %zu assets, %zu lights)", w.c_str(), sh.size(), put.size(), li.size()); };
        for(int i = 0; i<n; i++)
        {
            int op = sh.empty()?0:r.irange(0, 9); hash = hash*131+op; if(op<2) { Shape* p = r.chance(.5)?(Shape*)new Sphere():(Shape*)quad(r.irange(0, 2)); if(!sid.insert(p->get_id()).second) { fail("identifier-reused", "two shapes with one identifier"); return; } s->inherit_shape(p); sh.push_back(p); if(r.chance(.3)) s->inherit_shape(p); }
            else { const Shape* p = NULL; for(auto q : sh) if(q->get_faces_number() == 1) p = q; D3 at((grid%12)*4., (grid/12)*4., 0); if(!p) continue; DM M = trs(at, 0, 0, 0, D3(1, 1, 1)); static const Bsdf* mm[1]; mm[0] = MtlLib.get_default(); unsigned char as = 0;
                if(op<6) { Asset* a = new Asset(p, fm(M), 1); a->set_materials(mm, 1, &as); if(!aid.insert(a->get_id()).second) { fail("identifier-reused", "two assets with one identifier"); return; } s->inherit_asset(a); put.push_back({a, at, false}); grid++; vt::count("assets"); }
                else if(op<9) { AreaLight* a = new AreaLight(p, fm(M), SPECTRUM_ONE); a->set_materials(mm, 1, &as); if(!aid.insert(a->get_id()).second) { fail("identifier-reused", "two lights with one identifier"); return; } bool room = li.size()<_MAX_LIGHTS_; s->inherit_light(a); if(room) { li.push_back(a); put.push_back({a, at, true}); grid++; vt::count("lights"); } else vt::count("lights beyond the limit"); }
                else if(!li.empty()) { s->inherit_light(r.pick(li)); vt::count("lights offered again"); } }
            if(s->size_shapes() != sh.size() || s->size_assets() != put.size() || s->size_lights() != li.size()) { fail("scene-sizes", vt::fmt("the scene counts %u shapes, %u assets, %u lights", s->size_shapes(), s->size_assets(), s->size_lights())); return; }
            for(size_t k = 0; k<li.size(); k++) if(s->get_light((int)k) != li[k]) { fail("scene-lights", vt::fmt("light %zu is another one", k)); return; }
        }
        s->k.buildTree(); for(auto& p : put) { Ray ray(Point3((float)p.at.x, (float)p.at.y, -50), Vec3(0, 0, 1)); HitPoint h = blank_hit(); vt::count("assets seen by rays"); if(!s->k.intersect(&ray, &h) || h.asset_h != p.a || h.asset_h->is_light() != p.light) { fail("scene-content", "an asset is not where it was put"); break; } }
        vt::eval(hash*1000+put.size()*40+li.size()); delete s; });
    return vt::finish();
}
