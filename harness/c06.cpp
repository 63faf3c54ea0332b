// C06: camera rays against the projection geometry in double precision.
#include "gen.hpp"
#include "cameras/camera_perspective.hpp"
#include "cameras/camera_orthographic.hpp"
#include "cameras/camera360.hpp"
#include <memory>
using namespace gen;
struct Cam { int kind; D3 pos, f, u, r; double fov; int w, h; };
static void expect(const Cam& c, double x, double y, D3& o, D3& dir)
{
    double asp = (double)c.w/c.h, bx = asp>1?asp:1, by = asp>1?1:1/asp, sx = -bx+2*bx*x/c.w, sy = by-2*by*y/c.h;
    if(c.kind == 0) { double t = std::tan(c.fov/2); o = c.pos; dir = unit(c.f+c.r*(sx*t)+c.u*(sy*t)); }
    else if(c.kind == 1) { o = c.pos+c.r*sx+c.u*sy; dir = c.f; }
    else { double th = M_PI*y/c.h, ph = 2*M_PI*x/c.w; o = c.pos; dir = c.r*(std::sin(th)*std::cos(ph))+c.u*std::cos(th)+c.f*(std::sin(th)*std::sin(ph)); }
}
static const char* NM[] = {"perspective", "orthographic", "panorama"};
int main(int argc, char** argv)
{
    vt::init(argc, argv, "perspective (field of view 2..170 degrees), orthographic and 360 cameras at random places looking at random targets with random (also tilted, non orthogonal) up vectors, 2..4000 pixels wide and high, sampled inside, on the corners, borders and centre of the film");
    vt::cases("rays", vt::n(4000, 60000), [](Rng& r, long i) {
        Cam c; c.kind = (int)(i%3); double far_ = r.chance(.7)?10:500; Point3 P = pt(rand_in(r, -far_, far_)); c.pos = d(P); if(r.chance(.2)) { P = Point3(0, 0, 0); c.pos = D3(); }
        D3 fd = rand_dir(r); Point3 T = pt(c.pos+fd*r.logrange(.5, 500)); c.f = unit(d(T)-c.pos); D3 ud = rand_dir(r); if(len(cross(ud, c.f))<.1) { vt::count("up parallel to the view, skipped"); return; }
        Vec3 U = vec(ud); c.r = unit(cross(d(U), c.f)); c.u = cross(c.f, c.r); c.w = r.chance(.3)?32*r.irange(1, 60):r.irange(2, 4000); c.h = r.irange(2, 4000); c.fov = (float)(r.range(2, 170)*M_PI/180);
        std::unique_ptr<Camera> cam; if(c.kind == 0) cam.reset(new CameraPerspective(&P, &T, &U, c.w, c.h, (float)c.fov)); else if(c.kind == 1) cam.reset(new CameraOrthographic(&P, &T, &U, c.w, c.h)); else cam.reset(new Camera360(&P, &T, &U, c.w, c.h));
        const char* nm = NM[c.kind];
        // what the target and the orientation of the film have to be, whatever the formula
        {
            Sample s, s2; s.posx = c.w*.5f; s.posy = c.h*.5f; Ray a, b; cam->create_ray(&s, &a); if(dot(d(a.direction), c.f)<.9999) vt::violation(c.kind == 2?"panorama-centre":"centre", "%s %dx%d: centre of the image does not look at the target (cosine %g)", nm, c.w, c.h, dot(d(a.direction), c.f));
            if(c.kind == 1 && len(d(a.origin)-c.pos)>1e-3*(1+len(c.pos))) vt::violation("centre-origin", "orthographic centre ray starts %g away from the camera", len(d(a.origin)-c.pos));
            s2 = s; s2.posx += c.w*.1f; cam->create_ray(&s2, &b); D3 fw = d(a.direction), right = c.kind == 2?cross(c.u, fw):c.r; D3 mv = c.kind == 1?d(b.origin)-d(a.origin):d(b.direction)-d(a.direction);
            if(dot(mv, right)<=0) vt::violation(c.kind == 2?"panorama-mirrored":"mirrored", "%s: moving right on the film moves the ray left", nm);
            s2 = s; s2.posy -= c.h*.1f; cam->create_ray(&s2, &b); mv = c.kind == 1?d(b.origin)-d(a.origin):d(b.direction)-d(a.direction); if(dot(mv, c.u)<=0) vt::violation("upside-down", "%s: moving up on the film moves the ray down", nm);
            if(c.kind == 0)
            {
                // full angle between the middles of the borders of the smaller side
                Ray e1, e2; Sample m; m.posx = c.w>c.h?c.w*.5f:0; m.posy = c.w>c.h?0:c.h*.5f; cam->create_ray(&m, &e1); m.posx = c.w>c.h?c.w*.5f:c.w; m.posy = c.w>c.h?c.h:c.h*.5f; cam->create_ray(&m, &e2);
                double ang = std::acos(std::max(-1.0, std::min(1.0, dot(unit(d(e1.direction)), unit(d(e2.direction)))))); if(std::fabs(ang-c.fov)>2e-3+2e-3*c.fov) vt::violation("fov", "field of view %g asked, %g seen", c.fov, ang);
            }
        }
        for(int k = 0; k<40; k++)
        {
            Sample s; auto co = [&](int n) { switch(r.irange(0, 7)) { case 0: return 0.f; case 1: return (float)n; case 2: return n*.5f; case 3: return (float)r.irange(0, n); default: return n*r.uf(); } }; s.posx = co(c.w); s.posy = co(c.h);
            Ray a, b, x, y; Sample s0 = s; cam->create_ray(&s, &a); cam->create_ray(&s, &b, &x, &y);
            if(s.posx != s0.posx || s.posy != s0.posy) vt::violation("sample-changed", "%s: create_ray modified the sample", nm);
            vt::eval(vt::hash_bytes(&s, sizeof s, i)); vt::count(nm);
            struct { const Ray* q; double x, y; const char* n; } L[] = {{&a, s.posx, s.posy, "ray"}, {&b, s.posx, s.posy, "main ray"}, {&x, s.posx+1.0, s.posy, "x companion"}, {&y, s.posx, s.posy+1.0, "y companion"}};
            for(auto& l : L)
            {
                D3 o, dir; expect(c, l.x, l.y, o, dir); D3 go = d(l.q->origin), gd = d(l.q->direction); double sc = 1+len(c.pos)+(c.kind == 1?(double)std::max(c.w, c.h)/std::min(c.w, c.h):0);
                std::string sg = std::string(nm)+"-"+l.n; for(auto& ch : sg) if(ch == ' ') ch = '-';
                if(!(std::fabs(len(gd)-1)<2e-5)) { vt::violation("not-unit-"+sg, "%s %s has length %.9g", nm, l.n, len(gd)); break; }
                vt::maxi(std::string("direction error ")+nm, len(gd-dir)); vt::maxi("origin error", len(go-o)/sc);
                if(!(len(gd-dir)<3e-4)) { vt::violation("direction-"+sg, "%s %dx%d fov %g at %g %g: %s goes (%g %g %g), geometry says (%g %g %g)", nm, c.w, c.h, c.fov, s.posx, s.posy, l.n, gd.x, gd.y, gd.z, dir.x, dir.y, dir.z); break; }
                if(!(len(go-o)<1e-5*sc)) { vt::violation("origin-"+sg, "%s %dx%d at %g %g: %s starts (%g %g %g), geometry says (%g %g %g)", nm, c.w, c.h, s.posx, s.posy, l.n, go.x, go.y, go.z, o.x, o.y, o.z); break; }
            }
        }
        // companion rays relative to the main one: the difference itself must be right, not only up to the absolute tolerance
        Sample s; s.posx = c.w*.3f; s.posy = c.h*.6f; Ray a, x, y; cam->create_ray(&s, &a, &x, &y); Sample sx = s, sy = s; sx.posx += 1; sy.posy += 1; Ray bx, by; cam->create_ray(&sx, &bx); cam->create_ray(&sy, &by);
        for(int q = 0; q<2; q++) { const Ray& g = q?y:x; const Ray& e = q?by:bx; D3 de = c.kind == 1?d(e.origin)-d(a.origin):d(e.direction)-d(a.direction), dg = c.kind == 1?d(g.origin)-d(a.origin):d(g.direction)-d(a.direction); double fl = c.kind == 1?4e-6*(1+len(c.pos)+(double)std::max(c.w, c.h)/std::min(c.w, c.h)):4e-6; if(len(de)<20*fl) { vt::count("difference below rounding"); continue; } if(len(dg-de)>.1*len(de)+fl) vt::violation(std::string("companion-")+nm, "%s %dx%d: %c companion differs by %g from the neighbouring pixel's ray, which is %g away", nm, c.w, c.h, q?'y':'x', len(dg-de), len(de)); }
    });
    vt::cases("sphere", vt::n(60, 600), [](Rng& r, long i) {
        Point3 P = pt(rand_in(r, -10, 10)), T = pt(d(P)+rand_dir(r)*3); Vec3 U = vec(rand_dir(r)); if(len(cross(d(U), d(T)-d(P)))<.3) return; int w = r.irange(8, 64), h = r.irange(8, 64); Camera360 cam(&P, &T, &U, w, h);
        // every direction of a fine net must be met within a pixel
        std::vector<D3> D; for(int y = 0; y<h; y++) for(int x = 0; x<w; x++) { Sample s; s.posx = x+.5f; s.posy = y+.5f; Ray a; cam.create_ray(&s, &a); D.push_back(d(a.direction)); }
        for(int k = 0; k<100; k++) { D3 q = rand_dir(r); double best = -2; for(auto& e : D) best = std::max(best, dot(e, q)); vt::eval(vt::hash_bytes(&q, sizeof q)); if(std::acos(std::min(1.0, best))>M_PI/h+2*M_PI/w) { vt::violation("panorama-gap", "%dx%d panorama: no ray within a pixel of a direction", w, h); break; } }
    });
    return vt::finish();
}
