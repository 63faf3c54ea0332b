// C04: the generator against an independent WELL1024a, its range, independence and uniformity.
#include "vt.hpp"
#include <thread>
#include "utility/wellrng.hpp"
#include "samplers/sampler_random.hpp"
#include "samplers/sampler_stratified.hpp"

// straight from the recurrence of Panneton, L'Ecuyer, Matsumoto: state kept as a queue, newest first
struct Well
{
    std::vector<uint32_t> v;      // v[0] = most recent
    explicit Well(const unsigned* s) : v(s, s+32) {}
    uint32_t next()
    {
        uint32_t z0 = v[31], z1 = v[0]^(v[3]^(v[3]>>8)), z2 = (v[24]^(v[24]<<19))^(v[10]^(v[10]<<14));
        uint32_t n1 = z1^z2, n0 = (z0^(z0<<11))^(z1^(z1<<7))^(z2^(z2<<13));
        v[0] = n1; v.insert(v.begin(), n0); v.pop_back();
        return n0;
    }
};
static std::vector<unsigned> seed_of(vt::Rng& r, int kind)
{
    std::vector<unsigned> s(32);
    unsigned c = (unsigned)r.next();
    for(int i = 0; i<32; i++) switch(kind%6)
    {
        case 0: case 1: s[i] = (unsigned)r.next(); break;
        case 2: s[i] = c; break;
        case 3: s[i] = 0xFFFFFFFFu-(r.chance(.1)?1:0); break;
        case 4: s[i] = i == (int)(c%32)?1u<<(c>>8)%32:0; break;
        default: s[i] = (unsigned)((r.next()>>33)+(r.next()>>33)); break;   // what the renderer does
    }
    return s;
}
static bool bad(float f) { return !(f>=0.f && f<=1.f); }
int main(int argc, char** argv)
{
    vt::init(argc, argv, "seeds: random, constant, all ones, single bit, renderer style; sequences compared number by number with a reference WELL1024a, alone, interleaved, copied, on 8 threads at once and through samplers; long runs of random seeds tested for uniformity, serial correlation and pair/triple equidistribution");
    vt::cases("reference", vt::n(60, 600), [](vt::Rng& r, long i) {
        auto s = seed_of(r, (int)i); auto s2 = s; WELLrng g(s.data()); Well w(s.data());
        if(s != s2) vt::violation("seed-changed", "the constructor changed the caller's seed");
        for(auto& x : s) x = 0;   // the generator must not keep looking at the caller's array
        long N = vt::n(20000, 100000); bool nz = false;
        for(long k = 0; k<N; k++)
        {
            float f = g.getNumber(); uint32_t e = w.next(); nz |= e != 0;
            if(bad(f)) { vt::violation("range", "number %ld is %g", k, f); break; }
            if(std::fabs((double)f-e*(1.0/4294967296.0))>6e-8) { vt::violation("sequence", "seed kind %ld: number %ld is %.9g, WELL1024a gives %.9g", i%6, k, f, e/4294967296.0); break; }
            if(f == 1.f) vt::count("returned exactly 1"); if(f == 0.f) vt::count("returned exactly 0");
            vt::eval(vt::hash_bytes(&e, 4, i*2654435761u+k/8), nz);
        }
    });
    vt::cases("independent", vt::n(60, 400), [](vt::Rng& r, long i) {
        int n = r.irange(2, 9); std::vector<std::vector<unsigned>> s; std::vector<std::vector<float>> ref(n), got(n);
        for(int k = 0; k<n; k++) { s.push_back(k && r.chance(.2)?s[0]:seed_of(r, r.irange(0, 5))); Well w(s[k].data()); for(int j = 0; j<3000; j++) ref[k].push_back((float)(w.next()*(1.0/4294967296.0))); }
        bool threads = i%2;
        if(threads)
        {
            std::vector<std::thread> t; for(int k = 0; k<n; k++) t.emplace_back([&, k]() { WELLrng g(s[k].data()); for(int j = 0; j<3000; j++) { got[k].push_back(g.getNumber()); if(j%97 == k) std::this_thread::yield(); } });
            for(auto& x : t) x.join();
        }
        else
        {
            std::vector<WELLrng> g; for(int k = 0; k<n; k++) g.emplace_back(s[k].data());
            while(true) { std::vector<int> open; for(int k = 0; k<n; k++) if(got[k].size()<3000) open.push_back(k); if(open.empty()) break; int k = r.pick(open); for(int j = r.irange(1, 40); j-- && got[k].size()<3000;) got[k].push_back(g[k].getNumber()); }
        }
        for(int k = 0; k<n; k++) for(int j = 0; j<3000; j++) { vt::eval(i*30000+k*3000+j); if(std::fabs(got[k][j]-ref[k][j])>1.3e-7) { vt::violation(threads?"threads-interfere":"generators-interfere", "generator %d of %d diverges at number %d", k, n, j); break; } }
        vt::count(threads?"concurrent sets":"interleaved sets");
    });
    vt::cases("samplers", vt::n(300, 3000), [](vt::Rng& r, long i) {
        auto s = seed_of(r, (int)i); Well w(s.data()); std::vector<float> out, ref; bool strat = r.chance(.5);
        Sampler* sm; if(strat) sm = new SamplerStratified(0, 4, 0, 4, 4, s.data(), true); else sm = new SamplerRandom(0, 4, 0, 4, 4, s.data());
        for(int k = 0; k<12; k++)
        {
            int n = r.irange(0, 20); std::vector<float> b(n+2, -7.f); sm->get_random_numbers(b.data()+1, n);
            if(b[0] != -7.f || b[n+1] != -7.f) vt::violation("overrun", "get_random_numbers(%d) wrote outside its buffer", n);
            for(int j = 0; j<n; j++) { float e = (float)(w.next()*(1.0/4294967296.0)); vt::eval(vt::hash_bytes(&e, 4, i)); if(std::fabs(b[j+1]-e)>1.3e-7) { vt::violation("sampler-sequence", "sampler hands out %g, the seed's next number is %g", b[j+1], e); k = 99; break; } }
        }
        delete sm;
    });
    vt::cases("uniform", vt::n(8, 60), [](vt::Rng& r, long i) {
        auto s = seed_of(r, 5*(int)(i%2)); WELLrng g(s.data()); long N = vt::n(400000, 2000000); std::vector<float> x(N); for(auto& f : x) f = g.getNumber();
        auto chi = [&](const char* name, const std::vector<long>& c, long tot) { double e = (double)tot/c.size(), q = 0; for(long v : c) q += (v-e)*(v-e)/e; double z = vt::chi2_z(q, c.size()-1); vt::maxi(std::string("z ")+name, z); if(std::fabs(z)>6.5) vt::violation(std::string("not-uniform-")+name, "chi-square deviate %g over %ld draws", z, tot); };
        std::vector<long> b(1000), p(64*64), t(16*16*16), l(256); auto bin = [](float f, int n) { return std::min((int)(f*n), n-1); };
        for(long k = 0; k<N; k++) { b[bin(x[k], 1000)]++; double q = x[k]*65536.0; l[bin((float)(q-std::floor(q)), 256)]++; }
        for(long k = 0; k+1<N; k += 2) p[bin(x[k], 64)*64+bin(x[k+1], 64)]++;
        for(long k = 0; k+2<N; k += 3) t[bin(x[k], 16)*256+bin(x[k+1], 16)*16+bin(x[k+2], 16)]++;
        chi("singles", b, N); chi("pairs", p, N/2); chi("triples", t, N/3); chi("low-bits", l, N);
        for(int lag = 1; lag<=64; lag++) { double c = 0; for(long k = 0; k+lag<N; k++) c += (x[k]-.5)*(x[k+lag]-.5); double z = std::fabs(c)*12/std::sqrt((double)(N-lag)); vt::maxi("z serial", z); if(z>6.5) vt::violation("correlated", "lag %d: correlation deviate %g", lag, z); }
        vt::eval(vt::hash_bytes(s.data(), 128)); vt::count("long-run draws", N);
    });
    return vt::finish();
}
