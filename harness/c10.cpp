// C10: occlusion queries versus exhaustive search, and independence from earlier queries.
#include "scenes.hpp"
#include "utility/occlusion_tester.hpp"
using namespace gen;
static void run(Rng& r, long i, int n, int queries)
{
    World w = make_world(r, n, (int)(i%11)); w.s->k.buildTree();
    OcclusionTester t(w.s); long occ = 0, cached = 0;
    struct Q { Ray r; float dist; };
    std::vector<Q> past;
    D3 eye = rand_in(r, -1, 1)*w.scale;
    const Asset* prev[5] = {0, 0, 0, 0, 0};
    for(int k = 0; k<queries; k++)
    {
        Q q;
        if(!past.empty() && r.chance(.25)) { q = past[r.next()%past.size()]; if(r.chance(.5)) q.dist *= r.rangef(.2f, 2.f); }
        else
        {
            q.r = rand_ray(r, w);
            // typical use: rays from nearby points towards a light, distance = distance to it
            if(r.chance(.5)) { D3 o = d(q.r.origin), to = eye+rand_in(r, -.3, .3); if(len(to-o)>1e-2) { q.r.direction = vec(unit(to-o)); q.dist = (float)len(to-o); } else q.dist = 1; }
            else { Res b = brute(w, q.r); q.dist = b.a && r.chance(.8)?(float)(b.t*(r.chance(.4)?r.range(.9, 1.1):r.logrange(.1, 10))):(float)r.logrange(.05, 50); if(b.a && r.chance(.25)) q.dist = (float)(b.t+r.range(0, 8e-4)); if(r.chance(.03)) q.dist = FLT_MAX; }
        }
        q.r.ricochet = (unsigned char)r.irange(0, 4);
        past.push_back(q);
        Res b = brute(w, q.r);
        bool got = t.is_occluded(&q.r, q.dist);
        OcclusionTester fresh(w.s); bool f = fresh.is_occluded(&q.r, q.dist);
        vt::eval(vt::hash_bytes(&q, 28, i));
        if(got) occ++;
        if(b.a && prev[q.r.ricochet] == b.a) cached++;
        if(b.a) prev[q.r.ricochet] = b.a;
        double tol = 1e-5*(b.t+len(d(q.r.origin))+q.dist)+1e-6;
        double t_ = b.a?b.t:(double)INFINITY;
        // within the tolerance the query may go either way
        bool clear_occ = t_+2e-3+tol<q.dist, clear_free = t_>q.dist+tol-9e-4; //what the point itself lies on does not hide it
        bool want = clear_occ;
        if(!clear_occ && !clear_free) { vt::count("within tolerance"); continue; }
        if(got == want && f == want) { vt::count(want?"occluded":"free"); continue; }
        int again = 0;
        for(int j = 0; j<6; j++)
        {
            Ray r2 = q.r; r2.origin = pt(d(q.r.origin)+rand_in(r, -1, 1)*(2e-4*(w.scale+len(d(q.r.origin)))));
            Res b2 = brute(w, r2); double t2 = b2.a?b2.t:(double)INFINITY;
            bool co = t2+4e-3+tol<q.dist, cf = t2>q.dist+tol-9e-4; if(!co && !cf) continue;
            OcclusionTester f2(w.s); if(b.a && prev[q.r.ricochet]) {}
            bool g2 = got != want?t.is_occluded(&r2, q.dist):f2.is_occluded(&r2, q.dist);
            if(g2 != co) again++;
        }
        if(b.a && len(d(b.a->get_AABB()->bounds[1])-d(b.a->get_AABB()->bounds[0]))<1e-2*(len(d(q.r.origin))+b.t)) { vt::count("below resolution"); continue; }
        if(again<2 && got == f) { vt::count("borderline"); continue; }
        if(got != f && again<1) { vt::count("borderline"); continue; }
        vt::violation(got != f?"history":want?"not-occluded":"falsely-occluded", "%zu objects (%s), query %d: tester says %d, fresh tester %d, nearest object at %g, distance asked %g, o=(%g %g %g) d=(%g %g %g) ricochet %d", w.as.size(), w.kind.c_str(), k, got, f, t_, q.dist, q.r.origin.x, q.r.origin.y, q.r.origin.z, q.r.direction.x, q.r.direction.y, q.r.direction.z, q.r.ricochet);
    }
    vt::count("blocker same as last one", cached); vt::count("scenes");
    if(i<3) vt::sample(vt::fmt("%s, %zu objects, %d queries, %ld occluded, %ld repeat the last blocker", w.kind.c_str(), w.as.size(), queries, occ, cached));
    delete w.s;
}
int main(int argc, char** argv)
{
    vt::init(argc, argv, "query histories of 50..400 shadow rays on one tester over ten kinds of scenes (0..300 objects), all five cache slots, repeated and varied earlier queries; each query is compared with exhaustive search and with a tester without history; distinct by ray, distance and scene");
    vt::cases("small", vt::n(1200, 12000), [](Rng& r, long i) { run(r, i, r.irange(1, 20), r.irange(50, 150)); });
    vt::cases("medium", vt::n(240, 3000), [](Rng& r, long i) { run(r, i, r.irange(20, 300), r.irange(100, 400)); });
    return vt::finish();
}
