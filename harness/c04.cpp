// C04: external products, multiplexers, monomial multiplexers.
#include "common.hpp"
using namespace vf;

template <class P>
const char *nm()
{
    return std::is_same_v<P, lvl1param> ? "lvl1" : "lvl2";
}

struct Sparse {
    std::map<uint32_t, int64_t> m;
    template <class P>
    Polynomial<P> poly() const
    {
        Polynomial<P> p = {};
        for (auto &[e, c] : m) p[e] = static_cast<typename P::T>(c);
        return p;
    }
    std::vector<std::vector<int64_t>> list() const
    {
        std::vector<std::vector<int64_t>> v;
        for (auto &[e, c] : m) v.push_back({(int64_t)e, c});
        return v;
    }
};

// binds the harness's ring phase to the specification's
template <class P>
void coef(Trace &t, Rng &r, const TRLWE<P> &c, const Polynomial<P> &ph)
{
    const uint32_t j = r.below(P::n);
    t.put(Ev("coef").s("lvl", nm<P>()).i("j", j).ws("a", c[0]).w("b", c[P::k][j]).w("ph", ph[j]));
}

template <class P>
TRLWE<P> input(Rng &r, const Key<P> &key, int kind, Polynomial<P> &ph)
{
    TRLWE<P> c;
    if (kind == 0)
        for (auto &p : c) p = randpoly<P>(r);  // an arbitrary ciphertext
    else if (kind == 1) {                      // trivial, extreme body
        c = {};
        for (auto &x : c[P::k]) x = static_cast<typename P::T>(static_cast<typename P::T>(1) << (digits<P>() - 1));
    }
    else if (kind == 2)  // all words at the ends of the range
        for (auto &p : c)
            for (auto &x : p) x = static_cast<typename P::T>(r.range(-2, 1));
    else {
        Polynomial<P> m;
        for (auto &x : m) x = r.bit() ? P::μ : -P::μ;
        c = trlweSymEncrypt<P>(m, key);
    }
    ph = refphase<P>(c, key);
    return c;
}

template <class P>
void ext(Trace &t, Rng &r, const Key<P> &key, const char *what, int reps,
         std::function<void(TRLWE<P> &, const TRLWE<P> &, const Polynomial<P> &)> op)
{
    for (int rep = 0; rep < reps; rep++) {
        Sparse b;
        switch (rep % 6) {
        case 0: b.m[0] = 1; break;
        case 1: break;  // the zero polynomial
        case 2: b.m[P::n - 1] = -1; break;
        case 3: b.m[r.below(P::n)] = 3; break;
        case 4:
            for (int i = 0; i < 8; i++) b.m[r.below(P::n)] = r.range(-4, 4);
            break;
        case 5: b.m[0] = -1; b.m[P::n / 2] = 1; break;
        }
        Polynomial<P> ph;
        const auto c = input<P>(r, key, rep % 4, ph);
        TRLWE<P> res;
        for (auto &p : res) p = randpoly<P>(r);
        op(res, c, b.poly<P>());
        const auto rp = refphase<P>(res, key);
        if (rep == 0) coef<P>(t, r, res, rp);
        t.put(Ev("ext").s("lvl", nm<P>()).s("what", what).iss("b", b.list()).ws("p", ph).ws("r", rp));
        // in place
        TRLWE<P> io = c;
        op(io, io, b.poly<P>());
        const auto ip = refphase<P>(io, key);
        t.put(Ev("ext").s("lvl", nm<P>()).s("what", std::string(what) + " in place").iss("b", b.list()).ws("p", ph).ws("r", ip));
    }
    // dense small polynomial, some coefficients
    for (int rep = 0; rep < pick(1, 6); rep++) {
        Polynomial<P> b, ph;
        std::vector<int64_t> bl;
        for (auto &x : b) {
            bl.push_back(r.range(-1, 1));
            x = static_cast<typename P::T>(bl.back());
        }
        const auto c = input<P>(r, key, 3 * (rep % 2), ph);
        TRLWE<P> res;
        op(res, c, b);
        const auto rp = refphase<P>(res, key);
        std::vector<uint32_t> pos = {0, 1, P::n - 1};
        for (int i = 0; i < 6; i++) pos.push_back(r.below(P::n));
        std::vector<typename P::T> val;
        for (auto x : pos) val.push_back(rp[x]);
        t.put(Ev("dense").s("lvl", nm<P>()).s("what", what).is("b", bl).ws("p", ph).is("pos", pos).ws("val", val));
    }
}

template <class P>
void cmux(Trace &t, Rng &r, const Key<P> &key, int reps)
{
    for (int rep = 0; rep < reps; rep++)
        for (int bit = 0; bit < 2; bit++) {
            Polynomial<P> m = {};
            m[0] = bit;
            const auto cs = trgswfftSymEncrypt<P>(m, key);
            Polynomial<P> p1, p0;
            const auto c1 = input<P>(r, key, rep % 4, p1);
            const auto c0 = input<P>(r, key, (rep + 3 * (rep / 4)) % 4, p0);
            TRLWE<P> res;
            for (auto &p : res) p = randpoly<P>(r);
            auto d1 = c1, d0 = c0;
            CMUXFFT<P>(res, cs, d1, d0);
            t.put(Ev("cmux").s("lvl", nm<P>()).s("what", "CMUXFFT").i("bit", bit).ws("c1", p1).ws("c0", p0).ws("r", refphase<P>(res, key)));
            t.put(Ev("same").s("what", "CMUXFFT operands").b("ok", d1 == c1 && d0 == c0));
            CMUXFFT<P>(d1, cs, d1, d0);  // the use UROMUX and RAMUX make of it
            t.put(Ev("same").s("what", "CMUXFFT in place").b("ok", d1 == res && d0 == c0));
        }
}

struct tern01 {  // blind rotation with a ternary input key
    struct domainP : lvl0param {
        static constexpr int32_t key_value_max = 1;
        static constexpr int32_t key_value_min = -1;
        static constexpr int32_t key_value_diff = key_value_max - key_value_min;
        static constexpr std::uint32_t n = 2;
    };
    using targetP = lvl1param;
    static constexpr uint32_t Addends = 1;
};
struct quart02 : tern01 {
    struct domainP : lvl0param {
        static constexpr int32_t key_value_max = 3;
        static constexpr int32_t key_value_min = -2;
        static constexpr int32_t key_value_diff = key_value_max - key_value_min;
        static constexpr std::uint32_t n = 2;
    };
    using targetP = lvl2param;
};

template <class BK>
void rot(Trace &t, Rng &r, const Key<typename BK::targetP> &key, const char *what, int reps)
{
    using P = typename BK::targetP;
    using D = typename BK::domainP;
    for (int s = D::key_value_min; s <= D::key_value_max; s++) {
        auto cs = big<BootstrappingKeyElementFFT<BK>>();
        int count = 0;
        for (int v = D::key_value_min; v <= D::key_value_max; v++)
            if (v != 0) {
                Polynomial<P> m = {};
                m[0] = v == s;
                (*cs)[count++] = trgswfftSymEncrypt<P>(m, key);
            }
        for (int rep = 0; rep < reps; rep++) {
            const uint32_t as[] = {1, P::n, 2 * P::n - 1, P::n - 1, P::n + 1, 2 * P::n};
            const uint32_t a = rep < 6 ? as[(rep + 6 + s) % 6] : r.below(2 * P::n);
            Polynomial<P> ph;
            auto c = input<P>(r, key, rep % 4, ph);
            CMUXFFTwithPolynomialMulByXaiMinusOne<BK>(c, *cs, a);
            t.put(Ev("rot").s("lvl", nm<P>()).s("what", what).i("a", a).i("s", s).ws("p", ph).ws("r", refphase<P>(c, key)).i("terms", D::key_value_diff));
        }
    }
}

template <class P>
void rotntt(Trace &t, Rng &r, const Key<P> &key, int reps)
{
    for (int bit = 0; bit < 2; bit++) {
        Polynomial<P> m = {};
        m[0] = bit;
        const auto g = trgswSymEncrypt<P>(m, key);
        auto n = big<TRGSWNTT<P>>();
        *n = ApplyNTT2trgsw<P>(g);
        for (int rep = 0; rep < reps; rep++) {
            const uint32_t as[] = {P::n, 1, 2 * P::n - 1};
            const uint32_t a = rep < 3 ? as[rep] : r.below(2 * P::n);
            Polynomial<P> ph;
            auto c = input<P>(r, key, rep % 4, ph);
            auto c2 = c;
            CMUXNTTwithPolynomialMulByXaiMinusOne<P>(c, *n, a);
            t.put(Ev("rot").s("lvl", nm<P>()).s("what", "NTT").i("a", a).i("s", bit).ws("p", ph).ws("r", refphase<P>(c, key)).i("terms", 1));
            if constexpr (std::is_same_v<P, lvl1param>) {
                auto ra = big<TRGSWRAINTT<P>>();
                *ra = ApplyRAINTT2trgsw<P>(g);
                CMUXRAINTTwithPolynomialMulByXaiMinusOne<P>(c2, *ra, a);
                t.put(Ev("rot").s("lvl", nm<P>()).s("what", "RAINTT").i("a", a).i("s", bit).ws("p", ph).ws("r", refphase<P>(c2, key)).i("terms", 1));
            }
        }
    }
}

template <class P>
void one(Trace &t, Rng &r, const Key<P> &key, const TRGSWFFT<P> &g, const char *what)
{
    for (int rep = 0; rep < 4; rep++) {
        Polynomial<P> ph;
        const auto c = input<P>(r, key, rep, ph);
        TRLWE<P> res;
        trgswfftExternalProduct<P>(res, c, g);
        for (uint32_t k = 0; k <= P::k; k++) t.put(Ev("one").s("lvl", nm<P>()).s("what", what).ws("c", c[k]).ws("r", res[k]));
    }
}

// half gadget ciphertext: the product of a plain polynomial and a small one
template <class P>
void half(Trace &t, Rng &r, const Key<P> &key, int reps)
{
    for (int rep = 0; rep < reps; rep++) {
        Sparse b;
        if (rep == 0)
            b.m[0] = 1;
        else
            for (int i = 0; i < 4; i++) b.m[r.below(P::n)] = r.range(-2, 2);
        auto p = randpoly<P>(r);
        if (rep == 1)
            for (auto &x : p) x = static_cast<typename P::T>(static_cast<typename P::T>(1) << (digits<P>() - 1));
        const auto h = halftrgswfftSymEncrypt<P>(b.poly<P>(), key);
        TRLWE<P> res;
        halftrgswfftExternalProduct<P>(res, p, h);
        t.put(Ev("ext").s("lvl", nm<P>()).s("what", "half").iss("b", b.list()).ws("p", p).ws("r", refphase<P>(res, key)));
    }
}

// the form for hardware transforms: the same spectrum in natural order
template <class P>
void natural(Trace &t, Rng &r, const Key<P> &key)
{
    for (int rep = 0; rep < 3; rep++) {
        auto g = big<TRGSW<P>>();
        *g = trgswSymEncrypt<P>([&] { Polynomial<P> p = {}; for (int i = 0; i < 5; i++) p[r.below(P::n)] = static_cast<typename P::T>(r.range(-2, 2)); return p; }(), key);
        auto a = big<TRGSWNTT<P>>(), b = big<TRGSWNTT<P>>();
        *a = ApplyNTT2trgsw<P>(*g);
        *b = TRGSW2NTT<P>(*g);
        bool ok = true;
        for (size_t i = 0; i < a->size(); i++)
            for (uint32_t k = 0; k <= P::k; k++)
                for (uint32_t j = 0; j < P::n; j++) {
                    uint32_t rev = 0;
                    for (uint32_t m = 0; m < P::nbit; m++) rev |= ((j >> m) & 1) << (P::nbit - 1 - m);
                    ok = ok && std::memcmp(&(*b)[i][k][j], &(*a)[i][k][rev], sizeof((*a)[i][k][0])) == 0;
                }
        t.put(Ev("same").s("what", "TRGSW2NTT in natural order").b("ok", ok));
    }
}

template <class P>
void fftext(Trace &t, Rng &r, const Key<P> &key, int reps)
{
    ext<P>(t, r, key, "FFT", reps, [&](TRLWE<P> &res, const TRLWE<P> &c, const Polynomial<P> &b) {
        trgswfftExternalProduct<P>(res, c, trgswfftSymEncrypt<P>(b, key));
    });
}
template <class P>
void nttext(Trace &t, Rng &r, const Key<P> &key, int reps)
{
    ext<P>(t, r, key, "NTT", reps, [&](TRLWE<P> &res, const TRLWE<P> &c, const Polynomial<P> &b) {
        auto g = big<TRGSWNTT<P>>();
        *g = trgswnttSymEncrypt<P>(b, key);
        trgswnttExternalProduct<P>(res, c, *g);
    });
}

int main(int, char **argv)
{
    const std::string s = argv[1];
    Trace t(argv[2]);
    Rng r(s);
    auto sk = big<SecretKey>();
    const auto &k1 = sk->key.get<lvl1param>();
    const auto &k2 = sk->key.get<lvl2param>();
    t.put(Ev("key").s("lvl", "lvl1").is("vals", signedkey(k1)));
    t.put(Ev("key").s("lvl", "lvl2").is("vals", signedkey(k2)));
    if (s == "ext1") fftext<lvl1param>(t, r, k1, pick(24, 120));
    if (s == "ext2") fftext<lvl2param>(t, r, k2, pick(12, 40));
    if (s == "ntt1") {
        nttext<lvl1param>(t, r, k1, pick(12, 40));
        ext<lvl1param>(t, r, k1, "RAINTT", pick(12, 40), [&](TRLWE<lvl1param> &res, const TRLWE<lvl1param> &c, const Polynomial<lvl1param> &b) {
            auto g = big<TRGSWRAINTT<lvl1param>>();
            *g = trgswrainttSymEncrypt<lvl1param>(b, k1);
            trgswrainttExternalProduct<lvl1param>(res, c, *g);
        });
    }
    if (s == "ntt2") {
        nttext<lvl2param>(t, r, k2, pick(12, 40));
        natural<lvl1param>(t, r, k1);
        natural<lvl2param>(t, r, k2);
    }
    if (s == "cmux1") cmux<lvl1param>(t, r, k1, pick(16, 80));
    if (s == "cmux2") cmux<lvl2param>(t, r, k2, pick(10, 40));
    if (s == "rot1") {
        rot<lvl01param>(t, r, k1, "lvl01", pick(24, 120));
        rot<tern01>(t, r, k1, "ternary", pick(18, 120));
        rotntt<lvl1param>(t, r, k1, pick(16,80));
    }
    if (s == "rot2") {
        rot<lvl02param>(t, r, k2, "lvl02", pick(12, 60));
        rot<lvlh2param>(t, r, k2, "lvlh2", pick(4, 16));
        rot<quart02>(t, r, k2, "many valued", pick(4, 16));
        rotntt<lvl2param>(t, r, k2, pick(6, 24));
    }
    if (s == "one") {
        one<lvl1param>(t, r, k1, trgswonelvl1, "trgswonelvl1");
        one<lvl1param>(t, r, k1, TRGSWFFTOneGen<lvl1param>(), "TRGSWFFTOneGen lvl1");
        one<lvl2param>(t, r, k2, trgswonelvl2, "trgswonelvl2");
        half<lvl1param>(t, r, k1, pick(5, 30));
        half<lvl2param>(t, r, k2, pick(3, 15));
    }
    return 0;
}
