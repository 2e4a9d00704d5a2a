// C03: programmable bootstrapping.
#include "common.hpp"
using namespace vf;

template <class P>
const char *nm()
{
    if constexpr (std::is_same_v<P, lvl0param>) return "lvl0";
    if constexpr (std::is_same_v<P, lvlhalfparam>) return "lvlhalf";
    if constexpr (std::is_same_v<P, lvl1param>) return "lvl1";
    return "lvl2";
}

template <class P>
TLWE<P> input(Rng &r, const Key<P> &key, int kind)
{
    TLWE<P> c;
    using T = typename P::T;
    constexpr int W = digits<P>();
    switch (kind) {
    case 0: c = {}; break;                                  // phase 0, nothing to rotate
    case 1: for (auto &x : c) x = static_cast<T>(~T{0}); break;  // rounds up to a full turn
    case 2: for (auto &x : c) x = static_cast<T>(T{1} << (W - 1)); break;
    case 3:  // half-way between two grid points, and one below
        for (auto &x : c) x = static_cast<T>((static_cast<T>(r.next()) & ~T{31}) + (r.bit() ? 16 : 15));
        break;
    case 4: c = tlweSymEncrypt<P>(r.bit() ? P::μ : -P::μ, key); break;
    case 5: c = {}; c[P::k * P::n] = static_cast<T>(r.next()); break;  // trivial
    case 6: c = {}; c[r.below(P::n)] = static_cast<T>(r.next()); break;  // one coefficient
    default: for (auto &x : c) x = static_cast<T>(r.next());
    }
    return c;
}

template <class P>
Polynomial<P> table(Rng &r, int kind)
{
    Polynomial<P> tv;
    using T = typename P::T;
    switch (kind % 4) {
    case 0: tv = randpoly<P>(r); break;
    case 1: tv = {}; tv[r.below(P::n)] = static_cast<T>(T{1} << (digits<P>() - 2)); break;
    case 2: for (size_t i = 0; i < P::n; i++) tv[i] = static_cast<T>(i << (digits<P>() - 1 - P::nbit)); break;
    default: for (auto &x : tv) x = static_cast<T>(r.bit() ? P::μ : -P::μ);
    }
    return tv;
}

template <class D>
void putkey(Trace &t, const Key<D> &k) { t.put(Ev("key").s("lvl", nm<D>()).is("vals", signedkey(k))); }

template <class BK, uint32_t num_out = 1, class BKey>
void rotate(Trace &t, Rng &r, const SecretKey &sk, const BKey &bk, const char *backend, int reps, int from = 0)
{
    using D = typename BK::domainP;
    using P = typename BK::targetP;
    const auto &dk = sk.key.get<D>();
    const auto &tk = sk.key.get<P>();
    for (int rep = from; rep < from + reps; rep++) {
        const auto in = input<D>(r, dk, rep % 11);
        const auto tv = table<P>(r, rep % 4 == 3 ? rep / 4 : rep);
        auto acc = big<TRLWE<P>>();
        for (auto &p : *acc) p = randpoly<P>(r);
        const auto keep = in;
        BlindRotate<BK, num_out>(*acc, in, bk, tv);
        Ev e("rotate");
        e.s("dom", nm<D>()).s("lvl", nm<P>()).s("what", backend).i("outs", num_out).ws("in", in).ws("tv", tv).ws("r", refphase<P>(*acc, tk));
        t.put(e);
        t.put(Ev("same").s("what", "blind rotation leaves its input").b("ok", in == keep));
        if (rep == from) {
            const uint32_t j = r.below(P::n);
            t.put(Ev("coef").s("lvl", nm<P>()).i("j", j).ws("a", (*acc)[0]).w("b", (*acc)[P::k][j]).w("ph", refphase<P>(*acc, tk)[j]));
        }
    }
}

template <class BK, class BKey, class F>
void lut(Trace &t, Rng &r, const SecretKey &sk, const BKey &, const char *backend, int reps, F op)
{
    using D = typename BK::domainP;
    using P = typename BK::targetP;
    for (int rep = 0; rep < reps; rep++) {
        const auto in = input<D>(r, sk.key.get<D>(), rep == 0 ? 4 : 10);
        const auto tv = table<P>(r, rep);
        TLWE<P> res;
        op(res, in, tv);
        t.put(Ev("lut").s("dom", nm<D>()).s("lvl", nm<P>()).s("what", backend).i("outs", 1).ws("in", in).ws("tv", tv).wss("c", std::vector<TLWE<P>>{res}));
    }
}

template <class BK, uint32_t num_out>
void many(Trace &t, Rng &r, const SecretKey &sk, const BootstrappingKeyFFT<BK> &bk, int reps)
{
    using D = typename BK::domainP;
    using P = typename BK::targetP;
    for (int rep = 0; rep < reps; rep++) {
        const auto in = input<D>(r, sk.key.get<D>(), rep == 0 ? 1 : 10 - (rep == 2));
        const auto tv = table<P>(r, 0);
        std::array<TLWE<P>, num_out> res;
        GateBootstrappingManyLUT<BK, num_out>(res, in, bk, tv);
        t.put(Ev("lut").s("dom", nm<D>()).s("lvl", nm<P>()).s("what", "many outputs").i("outs", num_out).ws("in", in).ws("tv", tv).wss("c", res));
    }
}

template <class BK, uint32_t num_out = 1>
void enctable(Trace &t, Rng &r, const SecretKey &sk, const BootstrappingKeyFFT<BK> &bk, int reps)
{
    using D = typename BK::domainP;
    using P = typename BK::targetP;
    const auto &tk = sk.key.get<P>();
    for (int rep = 0; rep < reps; rep++) {
        const auto in = input<D>(r, sk.key.get<D>(), rep < 4 ? rep : 10);
        TRLWE<P> tv;
        for (auto &p : tv) p = randpoly<P>(r);
        auto acc = big<TRLWE<P>>();
        BlindRotate<BK, num_out>(*acc, in, bk, tv);
        t.put(Ev("rotate").s("dom", nm<D>()).s("lvl", nm<P>()).s("what", "encrypted table").i("outs", num_out).ws("in", in).ws("tv", refphase<P>(tv, tk)).ws("r", refphase<P>(*acc, tk)));
    }
}

int main(int, char **argv)
{
    const std::string s = argv[1];
    Trace t(argv[2]);
    Rng r(s);
    auto sk = big<SecretKey>();
    putkey<lvl0param>(t, sk->key.get<lvl0param>());
    putkey<lvlhalfparam>(t, sk->key.get<lvlhalfparam>());
    putkey<lvl1param>(t, sk->key.get<lvl1param>());
    putkey<lvl2param>(t, sk->key.get<lvl2param>());
    auto fft = [&]<class BK>(int reps, int lreps) {
        auto bk = big<BootstrappingKeyFFT<BK>>();
        bkfftgen<BK>(*bk, *sk);
        rotate<BK>(t, r, *sk, *bk, "FFT", reps);
        lut<BK>(t, r, *sk, *bk, "FFT", lreps, [&](auto &res, const auto &in, const auto &tv) { GateBootstrappingTLWE2TLWEFFT<BK>(res, in, *bk, tv); });
    };
    if (s == "fft01") fft.operator()<lvl01param>(pick(110, 500), pick(20, 60));
    if (s == "ffth1") fft.operator()<lvlh1param>(pick(66, 300), pick(10, 40));
    if (s == "fft02") fft.operator()<lvl02param>(pick(44, 200), pick(10, 40));
    if (s == "ffth2") fft.operator()<lvlh2param>(pick(33, 150), pick(10, 40));
    auto ntt = [&]<class BK>(int reps) {
        auto bk = big<BootstrappingKeyNTT<BK>>();
        bknttgen<BK>(*bk, *sk);
        rotate<BK>(t, r, *sk, *bk, "NTT", reps);
        lut<BK>(t, r, *sk, *bk, "NTT", 2, [&](auto &res, const auto &in, const auto &tv) { GateBootstrappingTLWE2TLWENTT<BK>(res, in, *bk, tv); });
    };
    if (s == "ntt01") ntt.operator()<lvl01param>(pick(22,100));
    if (s == "ntt02") ntt.operator()<lvl02param>(pick(4, 30));
    if (s == "raintt") {
        using BK = lvl01param;
        auto bk = big<BootstrappingKeyRAINTT<BK>>();
        bkrainttgen<BK>(*bk, *sk);
        rotate<BK>(t, r, *sk, *bk, "RAINTT", pick(22,100));
        lut<BK>(t, r, *sk, *bk, "RAINTT", 2, [&](auto &res, const auto &in, const auto &tv) { GateBootstrappingTLWE2TLWERAINTT<BK>(res, in, *bk, tv); });
    }
    if (s == "many") {
        auto b1 = big<BootstrappingKeyFFT<lvl01param>>();
        bkfftgen<lvl01param>(*b1, *sk);
        many<lvl01param, 2>(t, r, *sk, *b1, pick(6, 40));
        many<lvl01param, 3>(t, r, *sk, *b1, pick(3, 40));
        many<lvl01param, 4>(t, r, *sk, *b1, pick(3, 40));
        rotate<lvl01param, 2>(t, r, *sk, *b1, "FFT two outputs", pick(11, 40));
        rotate<lvl01param, 8>(t, r, *sk, *b1, "FFT eight outputs", 3, 1);
        auto b2 = big<BootstrappingKeyFFT<lvl02param>>();
        bkfftgen<lvl02param>(*b2, *sk);
        many<lvl02param, 4>(t, r, *sk, *b2, pick(3, 20));
        enctable<lvl02param, 4>(t, r, *sk, *b2, pick(4, 20));
        rotate<lvl02param, 4>(t, r, *sk, *b2, "FFT four outputs", 3, 1);
    }
    if (s == "enc") {
        auto b1 = big<BootstrappingKeyFFT<lvl01param>>();
        bkfftgen<lvl01param>(*b1, *sk);
        enctable<lvl01param>(t, r, *sk, *b1, pick(5, 40));
        enctable<lvl01param, 2>(t, r, *sk, *b1, pick(5, 20));
        enctable<lvl01param, 4>(t, r, *sk, *b1, pick(5, 20));
        enctable<lvl01param, 8>(t, r, *sk, *b1, pick(5, 20));
        auto b2 = big<BootstrappingKeyFFT<lvl02param>>();
        bkfftgen<lvl02param>(*b2, *sk);
        enctable<lvl02param>(t, r, *sk, *b2, pick(3, 20));
        enctable<lvl02param, 4>(t, r, *sk, *b2, pick(4, 20));
    }
    if (s == "gate") {  // bootstrapping with a key switch, either order
        auto ek = big<EvalKey>();
        ek->emplacebkfft<lvl01param>(*sk);
        ek->emplacebkntt<lvl01param>(*sk);
        ek->emplacebkfft<lvlh1param>(*sk);
        ek->emplaceiksk<lvl10param>(*sk);
        ek->emplaceiksk<lvl1hparam>(*sk);
        auto go = [&]<class D>(const char *what, typename D::T mu, auto op) {
            const auto &k = sk->key.get<D>();
            for (int rep = 0; rep < pick(8, 60); rep++) {
                // phases anywhere at least a sixteenth from the sign changes
                const typename D::T sixteenth = static_cast<typename D::T>(1) << (digits<D>() - 4);
                typename D::T ph = static_cast<typename D::T>(sixteenth + r.below(6 * static_cast<uint64_t>(sixteenth)));
                if (rep == 0) ph = sixteenth;
                if (rep == 1) ph = 7 * sixteenth;
                if (rep % 4 >= 2) ph = static_cast<typename D::T>(-ph);
                const auto in = craft<D>(ph, k, r);
                TLWE<D> res;
                op(res, in);
                t.put(Ev("sign").s("lvl", nm<D>()).s("what", what).w("mu", mu).w("in", ph).w("out", refphase<D>(res, k)));
            }
        };
        using namespace TFHEpp;
        go.operator()<lvl0param>("bootstrap, switch", lvl0param::μ, [&](auto &res, const auto &in) { GateBootstrapping<lvl01param, lvl1param::μ, lvl10param>(res, in, *ek); });
        go.operator()<lvl1param>("switch, bootstrap", lvl1param::μ, [&](auto &res, const auto &in) { GateBootstrapping<lvl10param, lvl01param, lvl1param::μ>(res, in, *ek); });
        go.operator()<lvl1param>("switch, bootstrap half", lvl1param::μ, [&](auto &res, const auto &in) { GateBootstrapping<lvl1hparam, lvlh1param, lvl1param::μ>(res, in, *ek); });
        go.operator()<lvl1param>("switch, bootstrap, quarter", lvl1param::μ / 2, [&](auto &res, const auto &in) { GateBootstrapping<lvl10param, lvl01param, lvl1param::μ / 2>(res, in, *ek); });
        go.operator()<lvl1param>("switch, bootstrap NTT", lvl1param::μ, [&](auto &res, const auto &in) { GateBootstrappingNTT<lvl10param, lvl01param, lvl1param::μ>(res, in, *ek); });
        go.operator()<lvl0param>("bootstrap NTT, switch", lvl0param::μ, [&](auto &res, const auto &in) { GateBootstrappingNTT<lvl01param, lvl1param::μ, lvl10param>(res, in, *ek); });
        go.operator()<lvlhalfparam>("bootstrap half, switch", lvlhalfparam::μ, [&](auto &res, const auto &in) { GateBootstrapping<lvlh1param, lvl1param::μ, lvl1hparam>(res, in, *ek); });
    }
    return 0;
}
