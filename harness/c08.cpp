// C08: mesh hierarchy versus testing every triangle, face identity and material of the hit face.
#include "gen.hpp"
#include "materials/bsdf.hpp"
#include "materials/single_brdf.hpp"
#include "materials/lambertian.hpp"
#include "utility/spectrum.hpp"
using namespace gen;

static D3 probe_target(Rng& r, const std::vector<Tri>& T)
{
    const Tri& q = T[r.next()%T.size()];
    double a = r.u(), b = r.u(); if(a+b>1) { a = 1-a; b = 1-b; }
    return d(q.v[0].p)+(d(q.v[1].p)-d(q.v[0].p))*a+(d(q.v[2].p)-d(q.v[0].p))*b;
}
static bool near_(double a, double b) { return std::fabs(a-b)<=1e-5*std::fabs(b)+1e-6; }
static void run(Rng& r, long idx, int n, int kind, int rays)
{
    std::vector<Tri> T = rand_tris(r, n, kind);
    if(kind == SOUP && r.chance(.2)) // geometric sizes around one corner: deep hierarchies
        for(size_t i = 0; i<T.size(); i++) { double s = std::pow(.93, (double)(i%300))*10; D3 c = D3(1, 1, 1)*(s*2); T[i] = tri(c+rand_in(r, -s, s)*.5, c+rand_in(r, -s, s)*.5, c+rand_in(r, -s, s)*.5); }
    if(r.chance(.3)) // integer coordinates: rays along box faces
        for(auto& t : T) { for(auto& v : t.v) v.p = Point3(rintf(v.p.x*2), rintf(v.p.y*2), rintf(v.p.z*2)); }
    double maxc = 1; for(auto& t : T) for(auto& v : t.v) maxc = std::max(maxc, len(d(v.p)));
    std::vector<Triangle> ref; for(auto& t : T) ref.push_back(Triangle(t.v[0], t.v[1], t.v[2]));
    Mesh* m = make_mesh(T);
    bool placed = r.chance(.5); DM pm = rand_place(r, false, .1, 10, 20); Matrix4 M; M.set_identity(); if(placed) M = fm(pm); pm = dm(M);
    Asset as(m, M, 1);
    const int NM = 7; std::vector<const Bsdf*> mats; std::vector<unsigned char> assoc(T.size());
    for(int i = 0; i<NM; i++) mats.push_back((const Bsdf*)(uintptr_t)(0x1000+i*16));   // never dereferenced
    for(auto& a : assoc) a = (unsigned char)r.irange(0, NM-1);
    as.set_materials(mats.data(), NM, assoc.data());
    MaskBoolean none; Matrix4 inv; M.inverse(&inv);
    long hits = 0;
    for(int k = 0; k<rays; k++)
    {
        D3 tg = probe_target(r, T), dir = rand_dir(r), o;
        if(r.chance(.1)) tg = tg+rand_dir(r)*maxc*.3;
        o = r.chance(.3)?probe_target(r, T):tg-dir*r.logrange(.1, 3)*maxc;
        if(r.chance(.2)) { dir = rand_dir(r); }
        else if(r.chance(.5)) dir = unit(tg-o);
        if(r.chance(.2)) o = D3(rint(o.x), rint(o.y), rint(o.z));
        if(!(len(dir)>.5)) continue;
        Ray wray(pt(pm.p(o)), vec(unit(pm.v(dir)))); Ray ray = inv*wray;    // what the object does itself
        float limit = r.chance(.7)?FLT_MAX:(float)(r.logrange(.05, 2)*maxc);
        // exhaustive
        HitPoint bh = blank_hit(); float bd = limit; long bi = -1; 
        for(size_t i = 0; i<ref.size(); i++) { float before = bd; if(ref[i].intersect(&ray, &bd, &bh, &none)) { if(bi<0 || bd<before) bi = (long)i; } }
        HitPoint h = blank_hit(); h.index = 123456; float dist = limit;
        bool got = r.chance(.5)?as.intersect(&wray, &dist, &h):m->intersect(&ray, &dist, &h, &none);
        vt::eval(vt::hash_bytes(&ray, 24, idx), true);
        if(got) hits++;
        if(got != (bi>=0))
        {
            // lost on a box border by rounding? only when the triangle hit itself is not clear cut
            if(bi>=0)
            {
                TriHit th = tri_hit(d(ray.origin), d(ray.direction), T[bi]);
                double g = std::fabs(dot(unit(tri_n(T[bi])), unit(d(ray.direction))));
                double edge = std::min(std::min(th.u, th.v), 1-th.u-th.v);
                double size = std::sqrt(len(tri_n(T[bi])));
                if(edge<1e-4 || edge*size<4e-6*(len(d(ray.origin))+maxc)/std::max(g, 1e-3) || g<1e-3) { vt::count("borderline"); continue; }
            }
            vt::violation(got?"false-hit":"missed", "%s, exhaustive search says triangle %ld at %g; %d triangles (%s), o=(%g %g %g) d=(%g %g %g)", got?"hit":"no hit", bi, bd, n, mesh_kind_name(kind), ray.origin.x, ray.origin.y, ray.origin.z, ray.direction.x, ray.direction.y, ray.direction.z);
            continue;
        }
        if(!got) { vt::count("misses"); if(dist != limit) vt::violation("miss-distance", "miss changed the distance"); continue; }
        vt::count("hits");
        if(!near_(dist, bd))
        {
            TriHit th = tri_hit(d(ray.origin), d(ray.direction), T[bi]);
            double g = std::fabs(dot(unit(tri_n(T[bi])), unit(d(ray.direction))));
            double edge = std::min(std::min(th.u, th.v), 1-th.u-th.v), size = std::sqrt(len(tri_n(T[bi])));
            if(dist>bd && (edge<1e-4 || edge*size<4e-6*(len(d(ray.origin))+maxc)/std::max(g, 1e-3) || g<1e-3 || dist-bd<1e-5*bd)) { vt::count("borderline"); continue; }
            vt::violation("not-nearest", "distance %.9g, exhaustive search %.9g; %d triangles (%s)", dist, bd, n, mesh_kind_name(kind));
            continue;
        }
        // identity of the face
        if(h.index>=T.size()) { vt::violation("index-range", "face index %u of %zu", h.index, T.size()); continue; }
        float dd_ = limit; HitPoint hh = blank_hit(); bool same = ref[h.index].intersect(&ray, &dd_, &hh, &none) && near_(dd_, dist);
        if(!same) vt::violation(n<4?"wrong-face-small":"wrong-face", "reports face %u which the ray does not hit at %g (face %ld is hit there); %d triangles", h.index, dist, bi, n);
        else
        {
            // material of one of the faces hit at this distance
            bool ok = false; const Bsdf* mat = as.get_material(h.index);
            for(size_t i = 0; i<ref.size() && !ok; i++) { float di = limit; HitPoint x = blank_hit(); if(assoc[i]<NM && mats[assoc[i]] == mat && ref[i].intersect(&ray, &di, &x, &none) && near_(di, dist)) ok = true; }
            if(!ok) vt::violation("wrong-material", "hit face %ld gets a material assigned to another face", bi);
        }
    }
    vt::maxi("largest mesh", n);
    vt::count(std::string("meshes:")+mesh_kind_name(kind));
    if(idx<3) vt::sample(vt::fmt("%s mesh of %d triangles, %d rays, %ld hits", mesh_kind_name(kind), n, rays, hits));
    delete m;
}
int main(int argc, char** argv)
{
    vt::init(argc, argv, "meshes of nine layouts (1..20000 triangles, some snapped to integer coordinates, some with geometrically shrinking clusters), local and placed, rays aimed at surface points, along coordinate axes, from inside, with finite limits; every ray counts, distinct by ray bits and mesh");
    vt::cases("small", vt::n(4000, 60000), [](Rng& r, long i) { run(r, i, r.irange(1, 40), (int)(i%MESH_KINDS), 40); });
    vt::cases("medium", vt::n(400, 5000), [](Rng& r, long i) { run(r, i, r.irange(40, 1500), (int)(i%MESH_KINDS), 80); });
    vt::cases("large", vt::n(16, 200), [](Rng& r, long i) { run(r, i, r.irange(5000, vt::thorough()?60000:20000), (int)(i%MESH_KINDS), 60); });
    // chains: geometrically nested triangles, deep hierarchies
    vt::cases("deep", vt::n(300, 6000), [](Rng& r, long i) {
        int n = r.irange(20, 600); double q = r.range(.5, .97); std::vector<Tri> T; double s = 100; D3 dirn = unit(D3(1, r.u(), r.u()));
        if(r.chance(.3)) dirn = D3(1, 1, 1);
        for(int k = 0; k<n; k++) { D3 c = dirn*(s*3); D3 a = rand_in(r, -s, s), b = rand_in(r, -s, s), e = rand_in(r, -s, s); T.push_back(tri(c+a*.3, c+b*.3, c+e*.3)); s *= q; if(s<1e-4) s = 100; }
        Mesh* m = make_mesh(T); MaskBoolean none;
        std::vector<Triangle> ref; for(auto& t : T) ref.push_back(Triangle(t.v[0], t.v[1], t.v[2]));
        for(int k = 0; k<60; k++)
        {
            D3 tg = probe_target(r, T), dir = rand_dir(r); Ray ray(pt(tg-dir*r.logrange(.1, 300)), vec(dir));
            if(r.chance(.4)) { ray.origin = pt(dirn*-1.0); ray.direction = vec(unit(tg+dirn)); }
            HitPoint h = blank_hit(), h2 = blank_hit(); float a = FLT_MAX, b = FLT_MAX; bool g = m->intersect(&ray, &a, &h, &none); bool w = false; double g0 = 1; bool clear = true;
            for(size_t z = 0; z<ref.size(); z++) if(ref[z].intersect(&ray, &b, &h2, &none)) { w = true; TriHit th = tri_hit(d(ray.origin), d(ray.direction), T[z]); g0 = std::fabs(dot(unit(tri_n(T[z])), d(ray.direction))); double e = std::min(std::min(th.u, th.v), 1-th.u-th.v), size = std::sqrt(len(tri_n(T[z]))); clear = e>1e-3 && g0>1e-2 && e*size>1e-5*(len(d(ray.origin))+300); }
            if(clear && (g != w || (g && !near_(a, b)))) vt::violation("deep-mismatch", "hierarchy %d %g exhaustive %d %g", g, a, w, b);
            vt::eval(vt::hash_bytes(&ray, 24, i));
        }
        delete m;
    });
    return vt::finish();
}
