// C01: the saved image against a double precision reconstruction of every sample.
#include "film.hpp"
#include <thread>
#include <atomic>
using namespace gen;
struct Smp { Sample s; ColorXYZ c; };
struct Tile { int x0, x1, y0, y1; std::vector<Smp> s; };
static void split(Rng& r, int x0, int x1, int y0, int y1, int depth, std::vector<Tile>& o)
{
    if(depth>0 && (x1-x0>1 || y1-y0>1))
    {
        bool v = x1-x0>1 && (y1-y0<=1 || r.chance(.5)); int m = v?r.irange(x0+1, x1-1):r.irange(y0+1, y1-1);
        split(r, x0, v?m:x1, y0, v?y1:m, depth-1, o); split(r, v?m:x0, x1, v?y0:m, y1, depth-1, o); return;
    }
    o.push_back({x0, x1, y0, y1, {}});
}
int main(int argc, char** argv)
{
    vt::init(argc, argv, "films of 1..96 x 1..96 pixels and renderer sized ones, five filters and one with different ranges, divided in 1..64 tiles (32 pixel grid as the renderer does, or random rectangles down to one pixel), samples anywhere in the tile including centres, corners and borders, 0 to 20 per pixel, deferred additions flushed at random moments, 1 to 8 threads");
    vt::cases("film", vt::n(1400, 16000), [](Rng& r, long i) {
        bool grid = r.chance(.3); int w = grid?32*r.irange(1, 4):r.irange(1, 96), h = r.irange(1, 96), nt = i%3 == 0?r.irange(2, 8):1; std::string fn; std::unique_ptr<Filter> f(film::make_filter(r, (int)(i/3), &fn));
        std::string out = vt::S().scratch+vt::fmt("/f%ld.ppm", i); unlink(out.c_str());
        std::vector<Tile> T; if(grid) { for(int y = 0; y<h; y += 32) for(int x = 0; x<w; x += 32) T.push_back({x, x+32, y, std::min(y+32, h), {}}); } else split(r, 0, w, 0, h, r.irange(0, 6), T);
        double rx = f->range_x, ry = f->range_y; std::vector<film::Acc> A((size_t)w*h); std::vector<char> amb((size_t)w*h); int spp = r.chance(.2)?1:r.irange(1, 4); bool flat = r.chance(.15), hot = r.chance(.2); int mode = r.irange(0, 3); long ns = 0; double fc[3] = {r.range(0, 1), r.range(0, 1), r.range(0, 1)};
        for(auto& t : T) for(int y = t.y0; y<t.y1; y++) for(int x = t.x0; x<t.x1; x++) for(int k = mode == 3?(r.chance(.15)?r.irange(1, 20):0):spp; k--;)
        {
            Smp q; auto co = [&](int b) { switch(mode == 2?r.irange(0, 3):9) { case 0: return b+.5f; case 1: return (float)b; case 2: return b+.25f*r.irange(0, 4); default: return std::min(b+r.uf(), b+1.f); } };
            q.s.posx = co(x); q.s.posy = co(y); double m = hot?r.logrange(.01, 300):1; double c[3]; for(int a = 0; a<3; a++) c[a] = flat?fc[a]:m*r.range(r.chance(.05)?-.3:0, 1);
            q.c = ColorXYZ((float)c[0], (float)c[1], (float)c[2]); t.s.push_back(q); ns++;
            for(int a = 0; a<3; a++) if(c[a]<0) c[a] = 0;
            double cx = (double)q.s.posx-.5, cy = (double)q.s.posy-.5;
            for(int py = std::max(0, (int)(cy-ry)-1); py<std::min(h, (int)(cy+ry)+2); py++) for(int px = std::max(0, (int)(cx-rx)-1); px<std::min(w, (int)(cx+rx)+2); px++)
            {
                double dx = std::fabs(px-cx), dy = std::fabs(py-cy); if(dx>rx+1e-4 || dy>ry+1e-4) continue; film::Acc& p = A[(size_t)py*w+px];
                if((std::fabs(dx-rx)<1e-4 || std::fabs(dy-ry)<1e-4)) { if(std::fabs(f->weight((float)std::min(dx, rx), (float)std::min(dy, ry)))>1e-7) amb[(size_t)py*w+px] = 1; p.n++; continue; }
                double wt = f->weight((float)(px-cx), (float)(py-cy)); p.w += wt; p.a += std::fabs(wt); p.n++; p.s += (std::fabs(wt)+.2)*std::max(c[0], std::max(c[1], c[2])); for(int a = 0; a<3; a++) p.c[a] += wt*c[a];
            }
        }
        for(auto& t : T) { int o = r.irange(0, 2); if(o == 1) std::reverse(t.s.begin(), t.s.end()); if(o == 2) for(size_t k = t.s.size(); k>1; k--) std::swap(t.s[k-1], t.s[r.next()%k]); }
        for(size_t k = T.size(); k>1; k--) std::swap(T[k-1], T[r.next()%k]);
        {
            ImageFilm fl(w, h, out.c_str()); fl.set_filter(f.get()); std::atomic<size_t> next(0); std::atomic<long> deferred(0); uint64_t seed = r.next();
            auto worker = [&](int id) {
                ExecutorData ex; Rng q(seed+id); size_t k;
                while((k = next++)<T.size()) { Tile& t = T[k]; ex.startx = t.x0; ex.endx = t.x1; ex.starty = t.y0; ex.endy = t.y1; for(auto& s : t.s) { fl.add_pixel(&s.s, s.c, &ex); if(q.chance(.001)) { deferred += ex.deferred.size(); fl.add_pixel_deferred(&ex); } if(nt>1 && q.chance(.002)) std::this_thread::yield(); } if(q.chance(.8)) { deferred += ex.deferred.size(); fl.add_pixel_deferred(&ex); } }
                deferred += ex.deferred.size(); fl.add_pixel_forced(&ex); if(!ex.deferred.empty()) vt::violation("not-flushed", "samples left over after the forced addition");
            };
            if(nt == 1) worker(0); else { std::vector<std::thread> th; for(int k = 0; k<nt; k++) th.emplace_back(worker, k); for(auto& t : th) t.join(); }
            vt::count("deferred additions", deferred); vt::count("samples", ns); vt::count(nt>1?"threaded films":"single thread films");
            if(!fl.save_image()) { vt::violation("save-failed", "save_image() reports failure"); return; }
        }
        film::Img im = film::read_ppm(out); unlink(out.c_str()); if(!im.ok || im.w != w || im.h != h) { vt::violation("not-an-image", "%dx%d film saved as %dx%d", w, h, im.w, im.h); return; }
        for(int y = 0; y<h; y++) for(int x = 0; x<w; x++)
        {
            film::Acc& p = A[(size_t)y*w+x]; if(amb[(size_t)y*w+x]) { vt::count("pixels with a sample exactly on the extent, skipped"); continue; }
            double out3[3] = {0, 0, 0}, slack[3] = {0, 0, 0};
            if(p.n>0 && std::fabs(p.w)<.1*p.a+1e-3) { vt::count("pixels with cancelling weights, skipped"); continue; }
            if(p.w != 0) { double v[3], u[3], mx = 0; for(int a = 0; a<3; a++) { v[a] = p.c[a]/p.w; mx = std::max(mx, std::fabs(v[a])); } film::srgb(v, out3); double rel = 3e-5*p.a/std::fabs(p.w)+1e-5*p.n/std::fabs(p.w)*std::min(1.0, p.a); for(int s = -1; s<=1; s += 2) for(int b = 0; b<3; b++) { for(int a = 0; a<3; a++) u[a] = v[a]; u[b] += s*(rel*mx+3e-5*p.s/std::fabs(p.w)+1e-6); double q[3]; film::srgb(u, q); for(int a = 0; a<3; a++) slack[a] += std::fabs(q[a]-out3[a])*255; } }
            vt::eval(vt::hash_bytes(p.c, sizeof p.c, (uint64_t)y*w+x), p.w != 0); const unsigned char* g = &im.px[((size_t)y*w+x)*3];
            for(int a = 0; a<3; a++) { double e = std::fabs(g[a]+.5-std::min(out3[a]*255+.5, 255.5)); vt::maxi("levels off", e-slack[a]); if(!(e<=1.01+slack[a])) { vt::violation(p.w != 0?"pixel":"unlit-pixel", "%s filter, %dx%d, %zu tiles, %d threads, pixel %d %d channel %d: saved %d, weighted average of its samples is %.2f (weights %g, |weights| %g, %d samples, sums %g %g %g, slack %g)", fn.c_str(), w, h, T.size(), nt, x, y, a, g[a], out3[a]*255, p.w, p.a, p.n, p.c[0], p.c[1], p.c[2], slack[a]); return; } }
        }
        vt::count(fn);
    });
    return vt::finish();
}
