// C15: materials are finite, non-negative, reciprocal, energy conserving and equal to their published law.
#include "mats.hpp"
using namespace mats;
static D3 rand_local(Rng& r)
{
    int k = r.irange(0, 9); D3 v = unit(rand_dir(r, false)); if(k == 0) return D3(0, 0, r.chance(.5)?1:-1); if(k == 1) { v.z *= .02; return unit(v); } if(k == 2) { v.x *= .02; v.y *= .02; return unit(v); } return v;
}
// an incident direction that exercises the material: anywhere, or where one of its components scatters
static D3 partner(Rng& r, const Mat& m, D3 o)
{
    int k = r.irange(0, 9); D3 i = rand_local(r); if(k<2) return i; if(k == 2) return D3(-o.x, -o.y, o.z); if(k == 3) return o; if(k == 4) return D3(o.x, -o.y, o.z);
    m.l[r.next()%m.l.size()].sample(r, o, i); return i;
}
static double inv_radiance(const Mat& m, D3 o, D3 i) { for(auto& x : m.l) if(x.trans() && o.z*i.z<0) { double e = o.z>0?x.et/x.ei:x.ei/x.et; return e*e; } return 1; }
int main(int argc, char** argv)
{
    vt::init(argc, argv, "materials built as the configuration front end builds them (matte, rough matte, glossy, glass, rough glass, metals, mixed; four microfacet distributions; colours), queried at pairs of directions (anywhere, mirrored, refracted, along lobes, normal and grazing, from both sides) in random frames; counted by material and pair");
    // every value finite and non-negative, equal to the published law, reciprocal
    vt::cases("value", vt::n(24000, 240000), [](Rng& r, long idx) {
        Mat m = rand_mat(r, r.chance(.3)?.001:.01, r.irange(0, MKINDS-1), false); Frame f(r, r.chance(.3)); ShadingSpace ss; Normal sn; m.b->gen_shading_matrix(&f.h, &ss, &sn);
        for(int k = 0; k<12; k++)
        {
            D3 o = rand_local(r), i = partner(r, m, o); if(std::fabs(o.z)<1e-4 || std::fabs(i.z)<1e-4) { vt::count("pairs too close to the horizon"); continue; }
            Vec3 wo = vec(f.world(o)), wi = vec(f.world(i)); o = unit(f.local(d(wo))); i = unit(f.local(d(wi))); bool ms = r.chance(.5);
            // Vec3::normalize leaves lengths within 5e-6 of one as they are: half vectors in that band are up to 5e-6 off
            if(m.rough()<.3) { bool band = false; for(auto& x : m.l) { D3 h = x.k == MT?o*(o.z>0?x.ei:x.et)+i*(o.z>0?x.et:x.ei):o+i; if(std::fabs(len(h)-1)<2e-5) band = true; } if(band) { vt::count("pairs in the normalisation band"); continue; } }
            Spectrum v = m.b->value(&wo, &f.h, &wi, &ss, ms), w = m.b->value(&wi, &f.h, &wo, &ss, ms); double c = i.z*o.z; vt::eval(vt::hash_bytes(&wo, sizeof wo, vt::hash_bytes(&wi, sizeof wi, idx))); vt::count("values"); vt::count(c>0?"reflection pairs":"transmission pairs"); if(!v.is_black()) vt::count("non-zero values");
            std::string at = vt::fmt("%s, wo %.6g %.6g %.6g, wi %.6g %.6g %.6g", m.name.c_str(), o.x, o.y, o.z, i.x, i.y, i.z); bool ok = true;
            for(int a = 0; a<NW && ok; a++) if(!(std::isfinite(v.w[a]) && v.w[a]>=0)) { vt::violation("not-finite-or-negative", "%s: value %g", at.c_str(), v.w[a]); ok = false; }
            if(!ok) continue;
            if(m.rough()<.005) { vt::count("extreme roughness, range only"); continue; }
            auto up = [&](int q, bool mn) { double u = mn?1e30:0; bool any = false; for(auto& x : m.l) if(x.k == MT && c<0) { any = true; double y = x.up(o, i, q); u = mn?std::min(u, y):std::max(u, y); } return any?u:1e30; }; double mnup = 1e30; for(int q : {0, 1, 2}) mnup = std::min(mnup, up(q, true));
            for(int a = 0; a<NW && ok; a += r.irange(1, NW>3?5:2))
            {
                double got = v.w[a]; auto matches = [&](int q) { Rng r2(idx*31+k); double lo, hi; spread(r2, o, i, m.rough(), [&](D3 x, D3 y) { return m.value(x, y, a, q); }, lo, hi); if(got == 0 && c<0 && up(q, true)<=2e-5) return true; return got>=lo && got<=hi; };
                int q = explain(m.quirks() & ~(Q_BLINNPDF | Q_TJAC | Q_METALBACK), matches); if(q<0) { vt::violation("wrong-value", "%s: value %.7g, law %.7g (with the known deviations %.7g)", at.c_str(), got, m.value(o, i, a, 0), m.value(o, i, a, m.quirks())); ok = false; }
                else if(q) { report_quirks(q, at+vt::fmt(": value %.7g, law %.7g", got, m.value(o, i, a, 0))); vt::count("values with a known deviation"); } else vt::count("values equal to the law");
            }
            // reciprocity, on what the material itself says
            double s1 = inv_radiance(m, o, i), s2 = inv_radiance(m, i, o);
            if(ok) for(int a = 0; a<NW; a++) { double x = v.w[a]*std::sqrt(s1/s2), y = w.w[a]; Rng r2(idx*37+k); double lo, hi; spread(r2, o, i, m.rough(), [&](D3 p, D3 q) { return m.value(p, q, a, m.quirks()); }, lo, hi); double tol = 4*(hi-lo)*std::max(1., std::sqrt(s2/s1)*2)+(1e-3+4e-6/(m.rough()*m.rough()))*std::max(x, y)+1e-6; if(c<0 && (mnup<=2e-4 || m.pdf(o, i, false, 0) == 0)) continue; vt::count("reciprocal pairs compared"); if(std::fabs(x-y)>tol) { vt::violation("not-reciprocal", "%s: %.7g one way and %.7g the other (solid angle factor taken out)", at.c_str(), x, y); break; } }
        } });
    // reflected and transmitted together never exceed what comes in
    vt::cases("energy", vt::n(1400, 14000), [](Rng& r, long idx) {
        Mat m = rand_mat(r, .02, r.irange(0, MKINDS-1), true); Frame f(r, false); ShadingSpace ss; Normal sn; m.b->gen_shading_matrix(&f.h, &ss, &sn); D3 o = rand_local(r); if(std::fabs(o.z)<.02) o.z = o.z<0?-.02:.02; o = unit(o); Vec3 wo = vec(f.world(o));
        int n = (int)vt::n(600, 3000), nl = (int)m.l.size(); std::vector<double> s(NW), s2(NW), sp_(NW); int nq = m.l.size();
        for(int k = 0; k<n; k++)
        {
            // non-specular components: sample the mixture of the model's densities and a uniform direction
            int c = r.irange(0, nq); D3 i; bool got = c<nq?(m.l[c].spec()?false:m.l[c].sample(r, o, i)):true; if(c == nq) i = unit(rand_dir(r, false)); if(!got || std::fabs(i.z)<1e-5) continue;
            double p = 1/(4*PI); for(auto& x : m.l) p += x.pdf(o, i, 0); p /= nq+1; Vec3 wi = vec(f.world(i)); Spectrum v = m.b->value(&wo, &f.h, &wi, &ss, false); if(i.z*o.z<0 && m.pdf(o, i, false, 0) == 0) continue; /* known deviation, reported by the value section */ double k_ = std::fabs(i.z)/p*inv_radiance(m, o, i); for(int a = 0; a<NW; a++) { double x = v.w[a]*k_; s[a] += x; s2[a] += x*x; }
        }
        // specular components: what sampling hands out, weighted as an integrator would
        int ne = m.eligible(true); bool sp_ok = true; if(m.has_spec()) for(int c = 0; c<nl; c++) if(m.l[c].spec())
        {
            bool sp0 = false; float pdf = 0; Vec3 wi; Spectrum v = m.b->sample_value((c+.5f)/nl, .3f, .6f, &wo, &f.h, &ss, &wi, &pdf, true, &sp0); if(pdf<=0) continue; D3 i = f.local(d(wi)); double k_ = std::fabs(i.z)/pdf/ne*inv_radiance(m, o, i);
            for(int a = 0; a<NW; a++) { double x = v.w[a]*k_; if(!std::isfinite(x) || x<0) sp_ok = false; sp_[a] += x; }
        }
        vt::eval(vt::hash_bytes(&wo, sizeof wo, idx)); vt::count("albedo estimates"); if(!sp_ok) { vt::violation("not-finite-or-negative", "%s, wo.z %g: specular weight", m.name.c_str(), o.z); return; }
        for(int a = 0; a<NW; a++)
        {
            double mean = s[a]/n, sd = std::sqrt(std::max(0., s2[a]/n-mean*mean)/n), tot = mean+sp_[a]; if(mean>.02 || sp_[a]>0) vt::maxi("largest albedo", std::min(tot, 9.)); if(sd>.08) { vt::count("albedo estimates too noisy"); continue; } vt::count("albedos judged");
            // Blinn's published masking term is itself not energy conserving at low exponents near the horizon (up to 1.29)
            double bound = 1.004; for(auto& x : m.l) if((x.k == MR_C || x.k == MR_D || x.k == MT) && x.d_.k == BLINN && x.d_.n<20) bound = 1.35;
            if(tot-6*sd>bound) { bool mb = o.z<0 && m.l.size() == 1 && m.l[0].k == SPEC_C; double ex = 0; if(mb) { ex = fr_cond(o.z, m.l[0].n[a], m.l[0].kk[a])*m.l[0].col[a]; if(std::fabs(ex-tot)<1e-3*ex+1e-4) { vt::violation(quirk_name(7), "%s, wo.z %g: reflectance %g", m.name.c_str(), o.z, tot); break; } }
                vt::violation("creates-energy", "%s, wo %g %g %g: scatters %.4f +- %.4f of the light", m.name.c_str(), o.x, o.y, o.z, tot, sd); break; }
        } });
    return vt::finish();
}
