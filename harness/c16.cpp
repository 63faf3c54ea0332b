// C16: directions sampled from a material follow the density it reports, and come with its value.
#include "mats.hpp"
using namespace mats;
static D3 rand_local(Rng& r) { int k = r.irange(0, 7); D3 v = unit(rand_dir(r, false)); if(k == 0) return D3(0, 0, r.chance(.5)?1:-1); if(k == 1) { v.z *= .05; return unit(v); } return v; }
static float rnd(Rng& r) { int k = r.irange(0, 39); return k == 0?0.f:k == 1?0.99999994f:k == 2?.5f:k == 3?1e-7f:r.uf(); }
// the anisotropic distribution has a pinned special case at exactly the normal: whether floats hit it is not decidable from outside
static bool at_normal(const Mat& m, D3 o, D3 i) { auto nn = [](D3 v) { v = unit(v); return v.x*v.x+v.y*v.y<1e-6; }; for(auto& x : m.l) if((x.k == MT || x.k == MR_C || x.k == MR_D) && x.d_.k == ANISO) { D3 h = i.z*o.z<0?o*(o.z>0?x.ei:x.et)+i*(o.z>0?x.et:x.ei):o+i; if(nn(h) || nn(o) || nn(i)) return true; } return false; }
static bool in_band(const Mat& m, D3 o, D3 i) { if(m.rough()<.3) for(auto& x : m.l) { D3 h = x.k == MT?o*(o.z>0?x.ei:x.et)+i*(o.z>0?x.et:x.ei):o+i; if(std::fabs(len(h)-1)<2e-5) return true; } return false; }
int main(int argc, char** argv)
{
    vt::init(argc, argv, "directions sampled from materials built as the configuration front end builds them (all kinds, four microfacet distributions), from both sides, normal to grazing, with and without specular components allowed, random numbers including 0, 1/2 and the largest below 1; counted by material, direction and sampled direction");
    const int PQ = Q_BECK | Q_ANISO0 | Q_BACKFACE | Q_BLINNPDF | Q_TJAC;
    // every sample: unit direction, the value and the density the other two queries give for it
    vt::cases("sample", vt::n(24000, 240000), [&](Rng& r, long idx) {
        Mat m = rand_mat(r, r.chance(.2)?.001:.01, r.irange(0, MKINDS-1), false, false); Frame f(r, r.chance(.3)); ShadingSpace ss; Normal sn; m.b->gen_shading_matrix(&f.h, &ss, &sn); D3 o = rand_local(r); if(std::fabs(o.z)<1e-3) return; Vec3 wo = vec(f.world(o)); o = unit(f.local(d(wo)));
        for(int k = 0; k<16; k++)
        {
            float r0 = rnd(r), r1 = rnd(r), r2 = rnd(r); bool ms = r.chance(.6), sp_ = !ms; float pdf = -7; Vec3 wi(0, 0, 0); Spectrum v = m.b->sample_value(r0, r1, r2, &wo, &f.h, &ss, &wi, &pdf, ms, &sp_); std::string at = vt::fmt("%s, wo %.6g %.6g %.6g, random numbers %.8g %.8g %.8g, specular %d", m.name.c_str(), o.x, o.y, o.z, r0, r1, r2, ms);
            vt::eval(vt::hash_bytes(&wo, sizeof wo, vt::hash_bytes(&wi, sizeof wi, idx)), pdf != 0); vt::count("samples");
            if(!(std::isfinite(pdf) && pdf>=0)) { vt::violation("bad-density", "%s: density %g", at.c_str(), pdf); continue; }
            if(pdf == 0)
            {
                vt::count("samples without direction"); if(v.is_black()) continue;
                // rough glass: Blinn gives back facing microfacets density 0 while the pinned value stays
                D3 b = f.local(d(wi)); bool known = false; if(std::isfinite(len(b)) && b.z*o.z<0) for(auto& x : m.l) if(x.k == MT) { D3 h = unit(o*(o.z>0?x.ei:x.et)+b*(o.z>0?x.et:x.ei)); if(x.pdf(o, b, 0) == 0 || std::fabs(h.z)<1e-3) known = true; }
                if(known) vt::violation(quirk_name(4), "%s: density 0, value %g", at.c_str(), v.w[0]); else vt::violation("value-without-density", "%s: density 0, value %g", at.c_str(), v.w[0]); continue;
            }
            bool fin = true; for(int a = 0; a<NW; a++) if(!(std::isfinite(v.w[a]) && v.w[a]>=0)) fin = false;
            if(!fin) { vt::violation("bad-value", "%s: value %g %g %g", at.c_str(), v.w[0], v.w[1], v.w[2]); continue; }
            double L = len(d(wi)); if(!(std::fabs(L-1)<1e-4)) { vt::violation("not-a-direction", "%s: length %g", at.c_str(), L); continue; }
            D3 i = f.local(d(wi)); if(m.rough()<.005) { vt::count("extreme roughness, range only"); continue; }
            int ns = 0, nt = 0; for(auto& x : m.l) { ns += x.spec(); nt += !x.spec(); }
            if(sp_ && (!ms || !ns)) { vt::violation("specular-flag", "%s: reports a specular sample", at.c_str()); continue; } if(!sp_ && !nt) { vt::violation("specular-flag", "%s: a specular material reports a diffuse sample", at.c_str()); continue; }
            if(sp_)
            {
                // weight and direction of the component: mirror or refracted direction, reflectance over the cosine
                vt::count("specular samples"); bool up = i.z*o.z>0; D3 w; double fr = 0; const Lobe* lb = NULL; for(auto& x : m.l) if(x.spec() && x.trans() == !up) lb = &x;
                if(!lb) { vt::violation("specular-direction", "%s: no component goes to wi %g %g %g", at.c_str(), i.x, i.y, i.z); continue; }
                double eo = o.z>0?lb->ei:lb->et, en = o.z>0?lb->et:lb->ei, fac = 1; if(up) w = D3(-o.x, -o.y, o.z); else { double e = eo/en, s2 = e*e*(1-o.z*o.z); if(s2>=1) { if(s2>1.0001) vt::violation("specular-direction", "%s: transmitted beyond the critical angle", at.c_str()); continue; } w = D3(-o.x*e, -o.y*e, -std::copysign(std::sqrt(1-s2), o.z)); fac = e*e; }
                double mn = std::min(std::fabs(w.z), std::fabs(o.z)); if(len(w-i)>1e-5/std::max(mn, 1e-3)+2e-6) { vt::violation("specular-direction", "%s: wi %.7g %.7g %.7g, should be %.7g %.7g %.7g", at.c_str(), i.x, i.y, i.z, w.x, w.y, w.z); continue; }
                if(std::fabs(pdf*m.eligible(true)-1)>1e-5) { vt::violation("specular-density", "%s: density %g with %d components", at.c_str(), pdf, m.eligible(true)); continue; }
                if(mn<.02) continue;
                for(int a = 0; a<NW; a++)
                {
                    double c = std::fabs(o.z); fr = lb->k == SPEC_C?fr_cond(c, lb->n[a], lb->kk[a]):fr_diel(c, eo, en); if(lb->k == SPEC_T) fr = 1-fr; double want = fr*fac*lb->col[a]/std::fabs(w.z), got = v.w[a];
                    if(std::fabs(got-want)<=2e-3*want+1e-4/mn*lb->col[a]) continue;
                    if(lb->k == SPEC_C && o.z<0 && std::fabs(got-fr_cond(o.z, lb->n[a], lb->kk[a])*lb->col[a]/c)<=2e-3*got+1e-4/mn) { vt::violation(quirk_name(7), "%s: weight %g, should be %g", at.c_str(), got, want); break; }
                    vt::violation("specular-weight", "%s: weight %.6g, law %.6g (wo.z %g)", at.c_str(), got, want, o.z); break;
                }
                continue;
            }
            if(std::fabs(i.z)<1e-3) { vt::count("sampled close to the horizon"); continue; } if(in_band(m, o, i) || at_normal(m, o, i)) { vt::count("sampled next to a special case"); continue; }
            double p2 = m.b->pdf(&wo, &f.h, &ss, &wi, ms); Spectrum v2 = m.b->value(&wo, &f.h, &wi, &ss, ms); double rt = 2e-3+6e-6/(m.rough()*m.rough());
            auto S = [&](auto fn, double& lo, double& hi) { Rng q(idx*41+k); spread(q, o, i, m.rough(), fn, lo, hi); }; double lo, hi; int aq = m.quirks();
            double sl = 0; S([&](D3 x, D3 y) { return m.pdf(x, y, ms, aq & PQ); }, lo, hi); sl = hi-lo; S([&](D3 x, D3 y) { return m.pdf(x, y, ms, 0); }, lo, hi); sl = std::max(sl, hi-lo);
            bool far = false; if(!(std::fabs(pdf-p2)<=rt*std::max<double>(pdf, p2)+2*sl+1e-5)) { vt::violation("sampled-density-differs", "%s, wi %.6g %.6g %.6g: sampling reports density %.6g, the density query %.6g", at.c_str(), i.x, i.y, i.z, pdf, p2); far = true; }
            for(int a = 0; a<NW && !far; a += NW>3?5:1)
            {
                double s1 = 0; for(int q : {0, aq}) { S([&](D3 x, D3 y) { return m.value(x, y, a, q); }, lo, hi); s1 = std::max(s1, hi-lo); } bool mt = false; for(auto& x : m.l) if(x.k == MT && i.z*o.z<0) mt = true;
                if(mt && (v.w[a] == 0 || v2.w[a] == 0)) continue; if(std::fabs(v.w[a]-v2.w[a])>rt*std::max(v.w[a], v2.w[a])+2*s1+1e-5) { vt::violation("sampled-value-differs", "%s, wi %.6g %.6g %.6g: sampling reports value %.6g, the value query %.6g", at.c_str(), i.x, i.y, i.z, v.w[a], v2.w[a]); far = true; }
            }
            if(far) continue;
            int q = explain(aq & PQ, [&](int q) { S([&](D3 x, D3 y) { return m.pdf(x, y, ms, q); }, lo, hi); return p2>=lo-1e-6 && p2<=hi+1e-6; });
            if(q<0) vt::violation("wrong-density", "%s, wi %.6g %.6g %.6g: density %.7g, law %.7g (with known deviations %.7g)", at.c_str(), i.x, i.y, i.z, p2, m.pdf(o, i, ms, 0), m.pdf(o, i, ms, aq & PQ)); else if(q) report_quirks(q, at+vt::fmt(", wi %.6g %.6g %.6g: density %.7g, law %.7g", i.x, i.y, i.z, p2, m.pdf(o, i, ms, 0))); else vt::count("densities equal to the law");
        } });
    // the density query away from sampled directions
    vt::cases("density", vt::n(8000, 80000), [&](Rng& r, long idx) {
        Mat m = rand_mat(r, .01, r.irange(0, MKINDS-1), false); Frame f(r, false); ShadingSpace ss; Normal sn; m.b->gen_shading_matrix(&f.h, &ss, &sn);
        for(int k = 0; k<8; k++)
        {
            D3 o = rand_local(r), i = rand_local(r); if(std::fabs(o.z)<1e-3 || std::fabs(i.z)<1e-3) continue; Vec3 wo = vec(f.world(o)), wi = vec(f.world(i)); o = unit(f.local(d(wo))); i = unit(f.local(d(wi))); bool ms = r.chance(.5); double p = m.b->pdf(&wo, &f.h, &ss, &wi, ms); vt::eval(vt::hash_bytes(&wo, sizeof wo, vt::hash_bytes(&wi, sizeof wi, idx))); if(in_band(m, o, i)) continue; double lo, hi;
            if(!(std::isfinite(p) && p>=0)) { vt::violation("bad-density", "%s, wo %.6g %.6g %.6g, wi %.6g %.6g %.6g: density %g", m.name.c_str(), o.x, o.y, o.z, i.x, i.y, i.z, p); continue; }
            int q = explain(m.quirks() & PQ, [&](int q) { Rng rr(idx*43+k); spread(rr, o, i, m.rough(), [&](D3 x, D3 y) { return m.pdf(x, y, ms, q); }, lo, hi); return p>=lo-1e-6 && p<=hi+1e-6; });
            vt::count("densities of unrelated directions"); if(q<0) vt::violation("wrong-density", "%s, wo %.6g %.6g %.6g, wi %.6g %.6g %.6g: density %.7g, law %.7g (with known deviations %.7g)", m.name.c_str(), o.x, o.y, o.z, i.x, i.y, i.z, p, m.pdf(o, i, ms, 0), m.pdf(o, i, ms, m.quirks() & PQ)); else if(q) report_quirks(q, m.name+vt::fmt(", wo %.6g %.6g %.6g, wi %.6g %.6g %.6g: density %.7g, law %.7g", o.x, o.y, o.z, i.x, i.y, i.z, p, m.pdf(o, i, ms, 0)));
        } });
    // two samples, one from the material and one from an independent sampler of the density: are they from one distribution?
    // rays along the surface exactly: no infinite weights
    vt::cases("along the surface", vt::n(2000, 20000), [](Rng& r, long idx) {
        Mat m = rand_mat(r, .01, r.irange(0, MKINDS-1), false); Frame f(r, true); ShadingSpace ss; Normal sn; m.b->gen_shading_matrix(&f.h, &ss, &sn); double a = 2*PI*r.u(); if(r.chance(.3)) a = PI/2*r.irange(0, 3); Vec3 wo((float)std::cos(a), (float)std::sin(a), r.chance(.5)?0.f:r.chance(.5)?-0.f:(float)r.logrange(1e-38, 1e-6));
        for(int k = 0; k<8; k++) { Vec3 wi(0, 0, 0); float pdf = -7; bool ms = r.chance(.5), s_; Spectrum v = m.b->sample_value(rnd(r), rnd(r), rnd(r), &wo, &f.h, &ss, &wi, &pdf, ms, &s_); vt::eval(vt::hash_bytes(&wo, sizeof wo, idx*8+k)); vt::count("samples along the surface"); bool ok = std::isfinite(pdf) && pdf>=0; for(int w = 0; w<NW; w++) if(pdf>0 && wo.z == 0 && !(std::isfinite(v.w[w]) && v.w[w]>=0)) ok = false; if(!ok) { vt::violation("along-the-surface", "%s, wo.z %g: density %g value %g", m.name.c_str(), wo.z, pdf, v.w[0]); break; } } });
    vt::cases("distribution", vt::n(600, 4000), [](Rng& r, long idx) {
        int kd[] = {MATTE_L, MATTE_O, GLOSSY_, GLASS_R, GLASS_R, METAL_R, METAL_R, MIXED}; Mat m = rand_mat(r, .01, kd[r.irange(0, 7)], false); Frame f(r, false); ShadingSpace ss; Normal sn; m.b->gen_shading_matrix(&f.h, &ss, &sn); D3 o = rand_local(r); if(std::fabs(o.z)<.01) return; Vec3 wo = vec(f.world(o)); o = unit(f.local(d(wo))); bool ms = false;
        int n = (int)vt::n(16000, 60000); std::vector<D3> A, B; int fa = 0, fb = 0, bad = 0; double mr = m.rough();
        std::vector<const Lobe*> el; for(auto& x : m.l) if(!x.spec()) el.push_back(&x);
        for(int k = 0; k<n; k++)
        {
            float pdf = 0; bool sp_; Vec3 wi(0, 0, 0); m.b->sample_value(r.uf(), r.uf(), r.uf(), &wo, &f.h, &ss, &wi, &pdf, ms, &sp_); D3 i = f.local(d(wi));
            if(pdf<=0) fa++; else { bool back = false; if(i.z*o.z<0) { back = true; for(auto* x : el) if(x->trans() && x->pdf(o, i, 0)>0) back = false; } if(back) { bad++; fa++; } else A.push_back(i); }
            if(el[r.next()%el.size()]->sample(r, o, i)) B.push_back(i); else fb++;
        }
        vt::eval(vt::hash_bytes(&wo, sizeof wo, idx)); vt::count("distributions compared"); vt::count("directions compared", n);
        if(bad>n/1000) { vt::violation(quirk_name(4), "%s, wo %.5g %.5g %.5g: %d of %d sampled directions need a microfacet seen from behind", m.name.c_str(), o.x, o.y, o.z, bad, n); }
        // equal mass cells of the reference: side, then half vector slopes (or the direction itself), by quantiles
        auto key = [&](D3 i, double& a, double& b) { int side = i.z*o.z<0; const Lobe* lb = NULL; for(auto* x : el) if(x->k != LAMB && x->k != OREN && x->trans() == (side == 1)) lb = x; if(!lb) { a = i.x; b = i.y; return side; } double eo = o.z>0?lb->ei:lb->et, en = o.z>0?lb->et:lb->ei; D3 h = side?o*eo+i*en:o+i; a = h.x/(std::fabs(h.z)+1e-9)*(h.z<0?-1:1); b = h.y/(std::fabs(h.z)+1e-9)*(h.z<0?-1:1); return side; };
        double chi = 0; int dof = 0; double a1 = fa, b1 = fb; if(a1+b1>20) { chi += (a1-b1)*(a1-b1)/(a1+b1); dof++; } (void)mr;
        for(int side = 0; side<2; side++)
        {
            std::vector<std::pair<double, double>> P, Q; double a, b; for(auto& x : A) if(key(x, a, b) == side) P.push_back({a, b}); for(auto& x : B) if(key(x, a, b) == side) Q.push_back({a, b}); if(Q.size()+P.size()<400) { double d_ = (double)P.size()-(double)Q.size(), s = P.size()+Q.size(); if(s>20) { chi += d_*d_/s; dof++; } continue; }
            std::vector<std::pair<double, double>> R = P; R.insert(R.end(), Q.begin(), Q.end()); const int K = 12; std::sort(R.begin(), R.end()); std::vector<double> cx; for(int k = 1; k<K; k++) cx.push_back(R[R.size()*k/K].first); std::vector<std::vector<double>> cy(K); for(int k = 0; k<K; k++) { std::vector<double> y; for(size_t z = R.size()*k/K; z<R.size()*(k+1)/K; z++) y.push_back(R[z].second); std::sort(y.begin(), y.end()); for(int q = 1; q<K; q++) cy[k].push_back(y[y.size()*q/K]); }
            auto cell = [&](std::pair<double, double> p) { int x = std::upper_bound(cx.begin(), cx.end(), p.first)-cx.begin(); return x*K+(int)(std::upper_bound(cy[x].begin(), cy[x].end(), p.second)-cy[x].begin()); };
            std::vector<double> ca(K*K), cb(K*K); for(auto& p : P) ca[cell(p)]++; for(auto& p : Q) cb[cell(p)]++; for(int k = 0; k<K*K; k++) if(ca[k]+cb[k]>10) { chi += (ca[k]-cb[k])*(ca[k]-cb[k])/(ca[k]+cb[k]); dof++; }
        }
        if(dof<2) return; double z = vt::chi2_z(chi, dof-1); vt::maxi("largest deviate", z); if(z>7) vt::violation("wrong-distribution", "%s, wo %.5g %.5g %.5g: sampled directions do not follow the density (chi2 %.0f with %d degrees, deviate %.1f; %d and %d without direction)", m.name.c_str(), o.x, o.y, o.z, chi, dof-1, z, fa-bad, fb); });
    return vt::finish();
}
