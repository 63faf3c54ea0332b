// C09: scene accelerator versus testing every object.
#include "scenes.hpp"
using namespace gen;

static bool agree(const World& w, const Ray& ray, std::string& why)
{
    Res b = brute(w, ray);
    HitPoint h = blank_hit(); h.asset_h = NULL;
    bool got = w.s->k.intersect(&ray, &h);
    if(got != (b.a != NULL)) { why = got?"false-hit":"missed"; return false; }
    if(!got) { vt::count("misses"); return true; }
    vt::count("hits");
    double t1 = len(d(h.point_h)-d(ray.origin)), t2 = len(d(b.h.point_h)-d(ray.origin)), tol = 5e-6*(t2+len(d(ray.origin)))+1e-6;
    if(std::fabs(t1-t2)>tol) { why = t1>t2?"not-nearest":"too-near"; return false; }
    if(h.asset_h != b.a)
    {
        // coincident surfaces: the reported object has to be hit there too
        bool member = false; for(const Asset* a : w.as) if(a == h.asset_h) member = true;
        if(!member) { why = "unknown-object"; return false; }
        float t = FLT_MAX; HitPoint x = blank_hit();
        if(!h.asset_h->intersect(&ray, &t, &x) || std::fabs(len(d(x.point_h)-d(ray.origin))-t1)>tol) { why = "wrong-object"; return false; }
        vt::count("coincident");
    }
    else if(h.index != b.h.index)
    {
        // same object, another face at the same place: only when both are hit there; the mesh check covers it
        vt::count("other face");
    }
    else
    {
        D3 n1 = d(h.normal_h), n2 = d(b.h.normal_h);
        if(len(n1-n2)>1e-3 && len(n1+n2)>1e-3) vt::count("other normal");
    }
    return true;
}
static void probe(Rng& r, const World& w, int rays, long idx, const char* where)
{
    for(int k = 0; k<rays; k++)
    {
        Ray ray = rand_ray(r, w); std::string why;
        vt::eval(vt::hash_bytes(&ray, 24, idx));
        if(agree(w, ray, why)) continue;
        // a disagreement has to persist when the origin moves a little: otherwise the ray grazes an edge
        int again = 0; std::string wj;
        for(int j = 0; j<6; j++)
        {
            Ray r2 = ray; D3 o = d(ray.origin)+rand_in(r, -1, 1)*(2e-4*(w.scale+len(d(ray.origin)))); r2.origin = pt(o);
            if(j>=3) { D3 dj = d(ray.direction); for(int c = 0; c<3; c++) if(dj[c] != 0) dj.at(c) += r.range(-2e-4, 2e-4); r2.direction = vec(unit(dj)); }
            if(!agree(w, r2, wj)) again++;
        }
        Res bz = brute(w, ray);     // objects too small for the distance they are seen from: float resolution decides
        if(bz.a && len(d(bz.a->get_AABB()->bounds[1])-d(bz.a->get_AABB()->bounds[0]))<1e-2*(len(d(ray.origin))+bz.t)) { vt::count("below resolution"); continue; }
        if(again>=2) vt::violation(std::string(where)+why, "%zu objects, %s: o=(%g %g %g) d=(%g %g %g): %s (%d of 6 neighbouring rays as well)", w.as.size(), w.kind.c_str(), ray.origin.x, ray.origin.y, ray.origin.z, ray.direction.x, ray.direction.y, ray.direction.z, why.c_str(), again);
        else vt::count("borderline");
    }
}
static void run(Rng& r, long i, int n, int rays)
{
    World w = make_world(r, n, (int)(i%11));
    if(n>0 || r.chance(.5)) w.s->k.buildTree();
    vt::count("scenes: "+w.kind); vt::maxi("largest scene", (double)w.as.size());
    if(i<4) vt::sample(vt::fmt("%s, %zu objects", w.kind.c_str(), w.as.size()));
    probe(r, w, rays, i, "");
    delete w.s;
}
int main(int argc, char** argv)
{
    vt::init(argc, argv, "scenes of ten layouts with 0..5000 spheres, boxes, meshes and axis-aligned quads; rays towards objects, between objects, from inside, along axes, through integer coordinates; every ray counts, distinct by ray bits and scene");
    vt::cases("tiny", vt::n(1500, 15000), [](Rng& r, long i) { run(r, i, r.irange(0, 8), 60); });
    vt::cases("small", vt::n(1200, 12000), [](Rng& r, long i) { run(r, i, r.irange(9, 60), 80); });
    vt::cases("medium", vt::n(120, 1500), [](Rng& r, long i) { run(r, i, r.irange(60, 600), 100); });
    vt::cases("large", vt::n(20, 200), [](Rng& r, long i) { run(r, i, r.irange(1000, 4096), 60); });
    // more objects than the index accepts: never corrupts memory, keeps working for what it accepted
    vt::cases("limit", vt::n(8, 24), [](Rng& r, long i) {
        int n = i%4 == 0?4096:i%4 == 1?4097:i%4 == 2?4100:r.irange(4500, 9000);
        FILE* o = stdout; (void)o;
        vt::Outcome oc = vt::forked([&]() {
            World w = make_world(r, n, (int)(r.irange(0, 9))); w.s->k.buildTree();
            if(n>4096) { // with surplus objects some may be dropped, but what is reported has to exist
                for(int k = 0; k<200; k++) { Ray ray = rand_ray(r, w); HitPoint h = blank_hit(); if(w.s->k.intersect(&ray, &h)) { Res b = brute(w, ray); if(!b.a) return 5; bool m = false; for(auto a : w.as) if(a == h.asset_h) m = true; if(!m) return 6; } }
            } else { for(int k = 0; k<60; k++) { Ray ray = rand_ray(r, w); std::string y; int bad = 0; Res bz = brute(w, ray); if(bz.a && len(d(bz.a->get_AABB()->bounds[1])-d(bz.a->get_AABB()->bounds[0]))<1e-2*(len(d(ray.origin))+bz.t)) continue; if(!agree(w, ray, y)) for(int j = 0; j<6; j++) { Ray r2 = ray; r2.origin = pt(d(ray.origin)+rand_in(r, -1, 1)*2e-4*w.scale); if(!agree(w, r2, y)) bad++; } if(bad>1) return 7; } }
            return 0; }, 200);
        vt::eval(i); vt::count("full scenes");
        if(oc.timeout) vt::count("limit: timeout");
        else if(!oc.exited || oc.code) vt::violation("limit-"+oc.what(), "%d objects: %s %.1500s", n, oc.what().c_str(), oc.err.c_str());
    });
    // the index is rebuilt (a scene rendered twice), with objects added in between
    vt::cases("rebuild", vt::n(160, 2000), [](Rng& r, long i) {
        World w = make_world(r, r.irange(1, 80), (int)(i%11)); int builds = r.irange(2, 5);
        w.kind += " (rebuilt)";
        for(int b = 0; b<builds; b++)
        {
            w.s->k.buildTree(); probe(r, w, 30, i*7+b, b?"rebuild-":"");
            if(r.chance(.5)) { const Shape* sp = own(w.s, new Sphere); int m = r.irange(1, 5); for(int k = 0; k<m; k++) add(w, sp, trs(rand_in(r, -5, 5)*3, 0, 0, 0, D3(1, 1, 1)*r.range(.2, 2))); w.s->k.buildTree(); probe(r, w, 30, i*7+b+1000000, "rebuild-"); }
        }
        vt::count("rebuilds", builds);
        delete w.s;
    });
    vt::cases("lights", vt::n(100, 1000), [](Rng& r, long i) {
        World w = make_world(r, r.irange(1, 30), (int)(i%10)); const Shape* sp = own(w.s, new Sphere);
        int nl = r.irange(1, 40);
        for(int k = 0; k<nl; k++) { AreaLight* l = new AreaLight(sp, fm(trs(rand_in(r, -8, 8), 0, 0, 0, D3(1, 1, 1)*r.range(.2, 1))), Spectrum(1.f)); if(k<32) { w.s->inherit_light(l); w.as.push_back(l); } else { unsigned before = w.s->size_lights(); (void)before; delete l; } }
        w.s->k.buildTree(); w.kind += " + lights"; probe(r, w, 60, i, ""); delete w.s;
    });
    return vt::finish();
}
