// Geometry generators and double-precision helpers shared by the monitors.
#ifndef GEN_HPP
#define GEN_HPP
#include "vt.hpp"
#include "geometry/vec3.hpp"
#include "geometry/point3.hpp"
#include "geometry/matrix4.hpp"
#include "geometry/ray.hpp"
#include "geometry/AABB.hpp"
#include "primitives/shape.hpp"
#include "primitives/sphere.hpp"
#include "primitives/box.hpp"
#include "primitives/triangle.hpp"
#include "primitives/mesh.hpp"
#include "primitives/asset.hpp"
#include "textures/mask_boolean.hpp"
#include "utility/scene.hpp"
namespace gen
{
using vt::Rng;
struct D3
{
    double x, y, z;
    D3(double a = 0, double b = 0, double c = 0):x(a), y(b), z(c) {}
    D3 operator+(D3 o) const { return D3(x+o.x, y+o.y, z+o.z); }
    D3 operator-(D3 o) const { return D3(x-o.x, y-o.y, z-o.z); }
    D3 operator*(double k) const { return D3(x*k, y*k, z*k); }
    double operator[](int i) const { return i == 0?x:i == 1?y:z; }
    double& at(int i) { return i == 0?x:i == 1?y:z; }
};
template<class T> D3 d(const T& v) { return D3(v.x, v.y, v.z); }
inline double dot(D3 a, D3 b) { return a.x*b.x+a.y*b.y+a.z*b.z; }
inline D3 cross(D3 a, D3 b) { return D3(a.y*b.z-a.z*b.y, a.z*b.x-a.x*b.z, a.x*b.y-a.y*b.x); }
inline double len(D3 a) { return std::sqrt(dot(a, a)); }
inline D3 unit(D3 a) { double l = len(a); return a*(1/l); }
inline Point3 pt(D3 a) { return Point3((float)a.x, (float)a.y, (float)a.z); }
inline Vec3 vec(D3 a) { return Vec3((float)a.x, (float)a.y, (float)a.z); }

// unit direction; every so often axis aligned, in a coordinate plane, or with negative zeros
inline D3 rand_dir(Rng& r, bool specials = true)
{
    while(true)
    {
        D3 v(r.normal(), r.normal(), r.normal());
        if(len(v)<1e-3) continue;
        v = unit(v);
        if(specials)
        {
            int k = r.irange(0, 11);
            if(k == 0) { int a = r.irange(0, 2); v = D3(0, 0, 0); v.at(a) = r.chance(.5)?1:-1; }
            else if(k == 1) { v.at(r.irange(0, 2)) = 0; v = unit(v); }
            else if(k == 2) { v.at(r.irange(0, 2)) = -0.0; v = unit(v); }
            else if(k == 3) { v.at(r.irange(0, 2)) *= 1e-6; v = unit(v); }
        }
        if(len(v)>0.5) return v;
    }
}
inline D3 rand_in(Rng& r, double a, double b) { return D3(r.range(a, b), r.range(a, b), r.range(a, b)); }
// 4x4 double affine matrices
struct DM
{
    double a[3][4];
    D3 p(D3 v) const { return D3(a[0][0]*v.x+a[0][1]*v.y+a[0][2]*v.z+a[0][3], a[1][0]*v.x+a[1][1]*v.y+a[1][2]*v.z+a[1][3], a[2][0]*v.x+a[2][1]*v.y+a[2][2]*v.z+a[2][3]); }
    D3 v(D3 v) const { return D3(a[0][0]*v.x+a[0][1]*v.y+a[0][2]*v.z, a[1][0]*v.x+a[1][1]*v.y+a[1][2]*v.z, a[2][0]*v.x+a[2][1]*v.y+a[2][2]*v.z); }
    // applies the transposed linear part (normals, when *this is the inverse)
    D3 tv(D3 v) const { return D3(a[0][0]*v.x+a[1][0]*v.y+a[2][0]*v.z, a[0][1]*v.x+a[1][1]*v.y+a[2][1]*v.z, a[0][2]*v.x+a[1][2]*v.y+a[2][2]*v.z); }
    double det() const { return a[0][0]*(a[1][1]*a[2][2]-a[1][2]*a[2][1])-a[0][1]*(a[1][0]*a[2][2]-a[1][2]*a[2][0])+a[0][2]*(a[1][0]*a[2][1]-a[1][1]*a[2][0]); }
    DM inv() const
    {
        DM r; double D = 1/det();
        for(int i = 0; i<3; i++) for(int j = 0; j<3; j++)
        {
            int i1 = (j+1)%3, i2 = (j+2)%3, j1 = (i+1)%3, j2 = (i+2)%3;
            r.a[i][j] = (a[i1][j1]*a[i2][j2]-a[i1][j2]*a[i2][j1])*D;
        }
        for(int i = 0; i<3; i++) r.a[i][3] = -(r.a[i][0]*a[0][3]+r.a[i][1]*a[1][3]+r.a[i][2]*a[2][3]);
        return r;
    }
};
inline DM mulm(const DM& x, const DM& y)
{
    DM r;
    for(int i = 0; i<3; i++) for(int j = 0; j<4; j++)
        r.a[i][j] = x.a[i][0]*y.a[0][j]+x.a[i][1]*y.a[1][j]+x.a[i][2]*y.a[2][j]+(j == 3?x.a[i][3]:0);
    return r;
}
inline DM dm(const Matrix4& m)
{
    DM r;
    r.a[0][0] = m.m00; r.a[0][1] = m.m01; r.a[0][2] = m.m02; r.a[0][3] = m.m03;
    r.a[1][0] = m.m10; r.a[1][1] = m.m11; r.a[1][2] = m.m12; r.a[1][3] = m.m13;
    r.a[2][0] = m.m20; r.a[2][1] = m.m21; r.a[2][2] = m.m22; r.a[2][3] = m.m23;
    return r;
}
inline Matrix4 fm(const DM& m)
{
    float v[16];
    for(int i = 0; i<3; i++) for(int j = 0; j<4; j++) v[i*4+j] = (float)m.a[i][j];
    v[12] = v[13] = v[14] = 0; v[15] = 1;
    return Matrix4(v);
}
inline DM trs(D3 t, double rx, double ry, double rz, D3 s)
{
    auto rot = [](int axis, double v) { DM m; memset(&m, 0, sizeof m); for(int i = 0; i<3; i++) m.a[i][i] = 1;
        int i = (axis+1)%3, j = (axis+2)%3; m.a[i][i] = m.a[j][j] = std::cos(v); m.a[i][j] = -std::sin(v); m.a[j][i] = std::sin(v); return m; };
    DM R = mulm(rot(2, rz), mulm(rot(1, ry), rot(0, rx)));
    DM r; for(int i = 0; i<3; i++) { r.a[i][0] = R.a[i][0]*s.x; r.a[i][1] = R.a[i][1]*s.y; r.a[i][2] = R.a[i][2]*s.z; r.a[i][3] = t[i]; }
    return r;
}
// a random placement; uniform: uniform scale only
inline DM rand_place(Rng& r, bool uniform, double smin = 0.02, double smax = 50, double tmax = 50)
{
    double k = r.logrange(smin, smax);
    D3 s(k, k, k);
    if(!uniform && r.chance(.6)) s = D3(k*r.logrange(.3, 3), k*r.logrange(.3, 3), k*r.logrange(.3, 3));
    double t = r.chance(.3)?0:r.chance(.5)?k:tmax;
    double a[3];
    for(double& x : a) x = r.chance(.25)?0:r.chance(.25)?1.5707963267948966*r.irange(0, 3):r.range(-3.2, 3.2);
    return trs(rand_in(r, -t, t), a[0], a[1], a[2], s);
}
// ---- triangles
inline Vertex vert(D3 p, D3 n = D3(0, 0, 1), double u = 0, double v = 0)
{
    Vertex w; w.p = pt(p); w.n = Normal((float)n.x, (float)n.y, (float)n.z); w.t = Point2((float)u, (float)v);
    return w;
}
struct Tri { Vertex v[3]; };
inline D3 tri_n(const Tri& t) { return cross(d(t.v[1].p)-d(t.v[0].p), d(t.v[2].p)-d(t.v[0].p)); }
inline Tri tri(D3 a, D3 b, D3 c)
{
    D3 n = cross(b-a, c-a); double l = len(n); n = l>0?n*(1/l):D3(0, 0, 1);
    Tri t; t.v[0] = vert(a, n, 0, 0); t.v[1] = vert(b, n, 1, 0); t.v[2] = vert(c, n, 0, 1);
    return t;
}
enum MeshKind { SOUP, CLUSTERS, GRID_PLANE, SPHERE_TESS, CROSSING, TINY_FAR, DUPLICATES, LINE_OF_TRIS, DEGENERATE, MESH_KINDS };
inline const char* mesh_kind_name(int k)
{
    static const char* n[] = {"soup", "clusters", "plane", "sphere", "crossing", "tiny-far", "duplicates", "line", "degenerate"};
    return n[k];
}
inline std::vector<Tri> rand_tris(Rng& r, int n, int kind)
{
    std::vector<Tri> o;
    auto add = [&](D3 c, double s) { o.push_back(tri(c+rand_in(r, -s, s), c+rand_in(r, -s, s), c+rand_in(r, -s, s))); };
    switch(kind)
    {
        case SOUP: for(int i = 0; i<n; i++) add(rand_in(r, -10, 10), r.logrange(.05, 5)); break;
        case CLUSTERS:
        {
            D3 c[4]; for(D3& x : c) x = rand_in(r, -100, 100);
            for(int i = 0; i<n; i++) { D3 q = c[r.irange(0, 3)]; add(q+rand_in(r, -1, 1), .3); }
            break;
        }
        case GRID_PLANE:
        {
            int side = std::max(1, (int)std::sqrt(n/2.0)); int ax = r.irange(0, 2); double h = r.range(-2, 2);
            auto P = [&](double u, double v) { D3 q; q.at(ax) = h; q.at((ax+1)%3) = u; q.at((ax+2)%3) = v; return q; };
            for(int i = 0; (int)o.size()<n; i++)
            {
                int x = i%side, y = i/side;
                o.push_back(tri(P(x, y), P(x+1, y), P(x, y+1)));
                if((int)o.size()<n) o.push_back(tri(P(x+1, y), P(x+1, y+1), P(x, y+1)));
            }
            break;
        }
        case SPHERE_TESS:
        {
            int m = std::max(3, (int)std::sqrt(n/2.0));
            auto P = [&](int i, int j) { double th = M_PI*i/m, ph = 2*M_PI*j/m; return D3(5*std::sin(th)*std::cos(ph), 5*std::sin(th)*std::sin(ph), 5*std::cos(th)); };
            for(int i = 0; i<m && (int)o.size()<n; i++) for(int j = 0; j<m && (int)o.size()<n; j++)
            {
                if(i>0) o.push_back(tri(P(i, j), P(i+1, j), P(i, j+1)));
                if(i<m-1 && (int)o.size()<n) o.push_back(tri(P(i+1, j), P(i+1, j+1), P(i, j+1)));
            }
            while((int)o.size()<n) add(rand_in(r, -1, 1), .5);
            break;
        }
        case CROSSING: for(int i = 0; i<n; i++) o.push_back(tri(rand_in(r, -10, 10), rand_in(r, -10, 10), rand_in(r, -10, 10))); break;
        case TINY_FAR: for(int i = 0; i<n; i++) { D3 c = rand_in(r, -1, 1)*r.logrange(1, 1000); add(c, r.logrange(.3, 3)*(1+len(c)*1e-2)); } break;
        case DUPLICATES:
        {
            int m = std::max(1, n/8); for(int i = 0; i<m; i++) add(rand_in(r, -5, 5), 1.5);
            while((int)o.size()<n) o.push_back(o[r.irange(0, m-1)]);
            break;
        }
        case LINE_OF_TRIS: { int ax = r.irange(0, 2); for(int i = 0; i<n; i++) { D3 c; c.at(ax) = i*.7; add(c, .6); } break; }
        default:
            for(int i = 0; i<n; i++)
            {
                if(i%3 == 0) { D3 a = rand_in(r, -5, 5), b = r.chance(.5)?a:rand_in(r, -5, 5); o.push_back(tri(a, b, r.chance(.5)?a:b)); }
                else add(rand_in(r, -5, 5), 1.5);
            }
    }
    o.resize(n, tri(D3(0, 0, 0), D3(1, 0, 0), D3(0, 1, 0)));
    return o;
}
inline Mesh* make_mesh(const std::vector<Tri>& t, bool fin = true)
{
    Mesh* m = new Mesh((unsigned)t.size());
    for(const Tri& x : t) m->add_triangle(&x.v[0], &x.v[1], &x.v[2]);
    if(fin) m->finalize();
    return m;
}
// exact-ish ray/triangle; returns t or -1; margin says how far from any decision boundary (relative)
struct TriHit { bool hit; double t, u, v, margin; };
inline TriHit tri_hit(D3 o, D3 dir, const Tri& T)
{
    D3 a = d(T.v[0].p), e1 = d(T.v[1].p)-a, e2 = d(T.v[2].p)-a;
    D3 p = cross(dir, e2); double det = dot(p, e1);
    TriHit h; h.hit = false; h.t = 0; h.u = h.v = 0; h.margin = 0;
    double scale = len(e1)*len(e2)*len(dir);
    if(scale == 0 || std::fabs(det)<1e-9*scale) { h.margin = 0; return h; }
    D3 tv = o-a; double u = dot(p, tv)/det; D3 q = cross(tv, e1); double v = dot(dir, q)/det;
    h.u = u; h.v = v; h.t = dot(e2, q)/det;
    // float error of u, v grows with |tv| and 1/|det|
    double err = 1e-6*(len(tv)*len(dir)*std::max(len(e1), len(e2))/std::fabs(det)+1);
    double m = std::min(std::min(u, v), 1-u-v);
    h.hit = m>=0;
    h.margin = std::fabs(m)/(err+1e-6);    // >1: decision is safe in float
    return h;
}
inline HitPoint blank_hit()
{
    HitPoint h;
    h.asset_h = NULL; h.index = 0; h.differentials = false;
    h.du = Vec2(0, 0); h.dv = Vec2(0, 0); h.uv = Point2(0, 0);
    h.dpdu = Vec3(1, 0, 0); h.dpdv = Vec3(0, 1, 0); h.normal_h = Normal(0, 0, 1); h.point_h = Point3(0, 0, 0);
    return h;
}
inline bool same_hit(const HitPoint& a, const HitPoint& b)
{
    auto e = [](double x, double y) { return x == y || (std::isnan(x) && std::isnan(y)); };
    return e(a.point_h.x, b.point_h.x) && e(a.point_h.y, b.point_h.y) && e(a.point_h.z, b.point_h.z) &&
           e(a.normal_h.x, b.normal_h.x) && e(a.normal_h.y, b.normal_h.y) && e(a.normal_h.z, b.normal_h.z) &&
           e(a.dpdu.x, b.dpdu.x) && e(a.dpdu.y, b.dpdu.y) && e(a.dpdu.z, b.dpdu.z) &&
           e(a.dpdv.x, b.dpdv.x) && e(a.dpdv.y, b.dpdv.y) && e(a.dpdv.z, b.dpdv.z) &&
           e(a.uv.x, b.uv.x) && e(a.uv.y, b.uv.y) && a.index == b.index && a.asset_h == b.asset_h;
}
}
#endif
