// C09: circuit bootstrapping.
#include "common.hpp"
using namespace vf;

template <class P>
const char *nm()
{
    if constexpr (std::is_same_v<P, lvl0param>) return "lvl0";
    if constexpr (std::is_same_v<P, lvlhalfparam>) return "lvlhalf";
    if constexpr (std::is_same_v<P, lvl1param>) return "lvl1";
    return "lvl2";
}

template <class P>
TLWE<P> bitenc(Rng &r, const Key<P> &key, int bit, int percent)
{
    using T = typename P::T;
    const T mu = static_cast<T>(T{1} << (digits<P>() - 3));
    const T off = static_cast<T>(static_cast<std::make_signed_t<T>>(mu / 100) * percent);
    return craft<P>(static_cast<T>((bit ? mu : static_cast<T>(-mu)) + off), key, r);
}

template <class G>
struct Out {
    std::unique_ptr<TRGSWFFT<G>> f = big<TRGSWFFT<G>>();
    bool inv;
};

template <class G>
TRGSW<G> back(const TRGSWFFT<G> &f)
{
    TRGSW<G> g;
    for (size_t i = 0; i < g.size(); i++)
        for (size_t j = 0; j < g[i].size(); j++) {
            alignas(64) PolynomialInFD<G> c = f[i][j];
            alignas(64) Polynomial<G> p;
            TwistFFT<G>(p, c);
            g[i][j] = p;
        }
    return g;
}

template <class P, class G>
struct Job {
    Trace &t;
    Rng &r;
    const SecretKey &sk;
    const char *what;
    TLWE<P> in;
    void rows(const char *variant, const TRGSW<G> &g, bool inv)
    {
        std::vector<Polynomial<G>> ph;
        for (const auto &c : g) ph.push_back(refphase<G>(c, sk.key.get<G>()));
        t.put(Ev("gadget").s("dom", nm<P>()).s("lvl", nm<G>()).s("what", what).s("variant", variant).b("inv", inv).ws("in", in).wss("rows", ph));
        const int row = r.below(g.size()), j = r.below(G::n);
        t.put(Ev("coef").s("lvl", nm<G>()).i("j", j).ws("a", g[row][0]).w("b", g[row][1][j]).w("ph", ph[row][j]));
    }
    void rows(const char *variant, const TRGSWFFT<G> &f, bool inv) { rows(variant, back<G>(f), inv); }
    void same(bool ok) { t.put(Ev("same").s("what", "input sample").b("ok", ok)); }
};

template <class BK, class PK>
void direct(Trace &t, Rng &r, const SecretKey &sk, const EvalKey &ek, const char *what, const std::vector<std::pair<int, int>> &ins)
{
    using P = typename BK::domainP;
    using G = typename PK::targetP;
    for (auto [bit, pc] : ins) {
        Job<P, G> j{t, r, sk, what, bitenc<P>(r, sk.key.get<P>(), bit, pc)};
        const auto keep = j.in;
        auto g = big<TRGSW<G>>();
        auto f = big<TRGSWFFT<G>>(), h = big<TRGSWFFT<G>>();
        CircuitBootstrapping<BK, PK>(*g, j.in, ek);
        j.rows("plain", *g, false);
        CircuitBootstrappingFFT<BK, PK>(*f, j.in, ek);
        j.rows("FFT", *f, false);
        CircuitBootstrappingFFTInv<BK, PK>(*h, j.in, ek);
        j.rows("FFTInv", *h, true);
        poison(*f), poison(*h);
        CircuitBootstrappingFFTwithInv<BK, PK>(*f, *h, j.in, ek);
        j.rows("FFTwithInv", *f, false);
        j.rows("FFTwithInv", *h, true);
        j.same(keep == j.in);
    }
}
template <class KS, class BK, class PK>
void switched(Trace &t, Rng &r, const SecretKey &sk, const EvalKey &ek, const char *what, const std::vector<std::pair<int, int>> &ins)
{
    using P = typename KS::domainP;
    using G = typename PK::targetP;
    for (auto [bit, pc] : ins) {
        Job<P, G> j{t, r, sk, what, bitenc<P>(r, sk.key.get<P>(), bit, pc)};
        const auto keep = j.in;
        auto g = big<TRGSW<G>>();
        auto f = big<TRGSWFFT<G>>(), h = big<TRGSWFFT<G>>();
        CircuitBootstrapping<KS, BK, PK>(*g, j.in, ek);
        j.rows("plain", *g, false);
        CircuitBootstrappingFFT<KS, BK, PK>(*f, j.in, ek);
        j.rows("FFT", *f, false);
        CircuitBootstrappingFFTInv<KS, BK, PK>(*h, j.in, ek);
        j.rows("FFTInv", *h, true);
        poison(*f), poison(*h);
        CircuitBootstrappingFFTwithInv<KS, BK, PK>(*f, *h, j.in, ek);
        j.rows("FFTwithInv", *f, false);
        j.rows("FFTwithInv", *h, true);
        j.same(keep == j.in);
    }
}
template <class KS, class BK, class PK>
void sub(Trace &t, Rng &r, const SecretKey &sk, const EvalKey &ek, const char *what, const std::vector<std::pair<int, int>> &ins)
{
    using P = typename KS::domainP;
    using G = typename PK::targetP;
    for (auto [bit, pc] : ins) {
        Job<P, G> j{t, r, sk, what, bitenc<P>(r, sk.key.get<P>(), bit, pc)};
        const auto keep = j.in;
        auto g = big<TRGSW<G>>();
        auto f = big<TRGSWFFT<G>>();
        CircuitBootstrappingSub<KS, BK, PK>(*g, j.in, ek);
        j.rows("Sub", *g, false);
        CircuitBootstrappingSubFFT<KS, BK, PK>(*f, j.in, ek);
        j.rows("SubFFT", *f, false);
        j.same(keep == j.in);
    }
}

// multiplexer tree: every address of two (or three) bootstrapped bits
template <class P, class G, class F>
void tree(Trace &t, Rng &r, const SecretKey &sk, const char *what, int bits, F boot)
{
    std::vector<std::unique_ptr<TRGSWFFT<G>>> ctl[2];
    for (int v = 0; v < 2; v++)
        for (int i = 0; i < bits; i++) {
            ctl[v].push_back(big<TRGSWFFT<G>>());
            boot(*ctl[v].back(), bitenc<P>(r, sk.key.get<P>(), v, r.range(-20, 20)));
        }
    const int n = 1 << bits;
    for (int addr = 0; addr < n; addr++) {
        std::vector<std::unique_ptr<TRLWE<G>>> d;
        std::vector<Polynomial<G>> ph;
        for (int i = 0; i < n; i++) {
            ph.push_back(randpoly<G>(r));
            d.push_back(big<TRLWE<G>>(craft<G>(ph.back(), sk.key.get<G>(), r)));
        }
        for (int b = 0; b < bits; b++)
            for (int i = 0; i < n; i += 2 << b) {
                auto res = big<TRLWE<G>>();
                CMUXFFT<G>(*res, *ctl[(addr >> b) & 1][b], *d[i + (1 << b)], *d[i]);
                d[i] = std::move(res);
            }
        t.put(Ev("select").s("lvl", nm<G>()).s("what", what).i("addr", addr).i("depth", bits).wss("cells", ph).ws("r", refphase<G>(*d[0], sk.key.get<G>())));
    }
}

void announce(Trace &t, const SecretKey &sk)
{
    t.put(Ev("key").s("lvl", "lvl0").is("vals", signedkey(sk.key.lvl0)));
    t.put(Ev("key").s("lvl", "lvlhalf").is("vals", signedkey(sk.key.lvlhalf)));
    t.put(Ev("key").s("lvl", "lvl1").is("vals", signedkey(sk.key.lvl1)));
    t.put(Ev("key").s("lvl", "lvl2").is("vals", signedkey(sk.key.lvl2)));
}

int main(int, char **argv)
{
    const std::string s = argv[1];
    Trace t(argv[2]);
    Rng r(s);
    SecretKey sk, sk2;
    announce(t, sk);
    EvalKey ek, ek2;  // two parties in one process
    ek.emplacebkfft<lvl02param>(sk);
    ek.emplaceiksk<lvl10param>(sk);
    std::vector<std::pair<int, int>> ins = {{0, 0}, {1, 20}, {0, 20}, {1, -20}};
    for (int i = 0; i < pick(0, 12); i++) ins.push_back({i & 1, (int)r.range(-20, 20)});
    const std::vector<std::pair<int, int>> two(ins.begin(), ins.begin() + pick(2, 8)), other(ins.begin() + 2, ins.begin() + pick(4, 8));
    if (s == "lvl1") {
        ek.emplacebkfft<lvlh2param>(sk);
        ek.emplaceiksk<lvl1hparam>(sk);
        ek.emplaceiksk<lvl20param>(sk);
        ek.emplaceiksk<lvl2hparam>(sk);
        ek.emplaceprivksk4cb<lvl21param>(sk);
        direct<lvl02param, lvl21param>(t, r, sk, ek, "02 21", two);
        direct<lvlh2param, lvl21param>(t, r, sk, ek, "h2 21", other);
        switched<lvl10param, lvl02param, lvl21param>(t, r, sk, ek, "10 02 21", ins);
        switched<lvl1hparam, lvlh2param, lvl21param>(t, r, sk, ek, "1h h2 21", two);
        switched<lvl20param, lvl02param, lvl21param>(t, r, sk, ek, "20 02 21", other);
        switched<lvl2hparam, lvlh2param, lvl21param>(t, r, sk, ek, "2h h2 21", two);
    }
    if (s == "tree1") {
        ek.emplaceprivksk4cb<lvl21param>(sk);
        tree<lvl1param, lvl1param>(t, r, sk, "10 02 21", 2, [&](auto &o, const auto &in) { CircuitBootstrappingFFT<lvl10param, lvl02param, lvl21param>(o, in, ek); });
        announce(t, sk2);
        ek2.emplacebkfft<lvl02param>(sk2);
        ek2.emplaceiksk<lvl10param>(sk2);
        ek2.emplaceprivksk4cb<lvl21param>(sk2);
        tree<lvl1param, lvl1param>(t, r, sk2, "10 02 21 inverse, second party", pick(2, 3), [&](auto &o, auto in) {
            for (auto &x : in) x = -x;
            CircuitBootstrappingFFTInv<lvl10param, lvl02param, lvl21param>(o, in, ek2);
        });
        announce(t, sk);
        switched<lvl10param, lvl02param, lvl21param>(t, r, sk, ek, "10 02 21, first party again", two);
    }
    if (s == "sub") {
        ek.emplacesubiksk<lvl21param>(sk);
        ek.emplacesubprivksk4cb<lvl21param>(sk);
        sub<lvl10param, lvl02param, lvl21param>(t, r, sk, ek, "10 02 21", ins);
        announce(t, sk2);
        ek2.emplacebkfft<lvl02param>(sk2);
        ek2.emplaceiksk<lvl10param>(sk2);
        ek2.emplacesubiksk<lvl21param>(sk2);
        ek2.emplacesubprivksk4cb<lvl21param>(sk2);
        tree<lvl1param, lvl1param>(t, r, sk2, "subset, second party", 2, [&](auto &o, const auto &in) { CircuitBootstrappingSubFFT<lvl10param, lvl02param, lvl21param>(o, in, ek2); });
    }
    if (s == "lvl2") {
        ek.emplaceprivksk4cb<lvl22param>(sk);
        if (thorough()) direct<lvl02param, lvl22param>(t, r, sk, ek, "02 22", two);
        switched<lvl10param, lvl02param, lvl22param>(t, r, sk, ek, "10 02 22", two);
        tree<lvl1param, lvl2param>(t, r, sk, "10 02 22", 2, [&](auto &o, const auto &in) { CircuitBootstrappingFFT<lvl10param, lvl02param, lvl22param>(o, in, ek); });
    }
}
