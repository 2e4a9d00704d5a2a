// C21: the guarantees under the build options.  Torus values are recorded by
// their 24 leading bits.
#include "common.hpp"
#include "prog.hpp"
#include <thread>
using namespace vf;

#if defined(USE_CONCRETE)
static const char *CONF = "conc";
#elif defined(USE_TFHE_RS)
static const char *CONF = "rs";
#elif defined(USE_TERNARY) && defined(USE_TERNARY_CMUX)
static const char *CONF = "ternc";
#elif defined(USE_TERNARY)
static const char *CONF = "tern";
#elif defined(USE_KEY_BUNDLE)
static const char *CONF = "bundle";
#elif defined(USE_OPTIMAL_DECOMPOSITION)
static const char *CONF = "opt";
#elif defined(USE_FFTW3)
static const char *CONF = "fftw";
#elif !defined(USE_RANDEN)
static const char *CONF = "norand";
#else
static const char *CONF = "base";
#endif

template <class T>
int64_t t24(T v)
{
    using U = std::make_unsigned_t<T>;
    constexpr int w = std::numeric_limits<U>::digits;
    const uint64_t u = static_cast<U>(v);
    if constexpr (w >= 24) return (u >> (w - 24)) & 0xffffff;
    else return (u << (24 - w)) & 0xffffff;
}
template <class C>
std::vector<int64_t> top(const C &c)
{
    std::vector<int64_t> r;
    for (const auto &x : c) r.push_back(t24(x));
    return r;
}
template <class P>
const char *nm()
{
    if constexpr (std::is_same_v<P, lvl0param>) return "lvl0";
    else if constexpr (std::is_same_v<P, lvlhalfparam>) return "lvlhalf";
    else if constexpr (std::is_same_v<P, lvl1param>) return "lvl1";
    else if constexpr (std::is_same_v<P, lvl2param>) return "lvl2";
    else return "lvl3";
}

template <class P>
void level(Trace &t)
{
    Ev e("level");
    e.s("lvl", nm<P>()).i("n", P::n).i("k", P::k).i("w", digits<P>()).i("kmin", P::key_value_min).i("kmax", P::key_value_max).i("mu", t24((typename P::T)P::μ)).i("pmod", P::plain_modulus).i("delta", (int64_t)(P::Δ / std::ldexp(1.0, digits<P>() - 24)));
    if constexpr (requires { P::nbit; }) e.i("nbit", P::nbit).i("l", P::l).i("bg", P::Bgbit).i("Bg", P::Bg);
    else e.i("nbit", 0).i("l", 0).i("bg", 0).i("Bg", 1);
    t.put(e);
}
template <class K>
void kslevel(Trace &t, const char *n)
{
    t.put(Ev("ks").s("ks", n).s("dom", nm<typename K::domainP>()).s("tgt", nm<typename K::targetP>()).i("t", K::t).i("bb", K::basebit));
}
template <class P>
void keyev(Trace &t, const SecretKey &sk)
{
    t.put(Ev("key").s("lvl", nm<P>()).is("vals", signedkey(sk.key.get<P>())));
}

// -------------------------------------------------------------- encryption --
template <class P>
void samples(Trace &t, Rng &r, const SecretKey &sk)
{
    const auto &key = sk.key.get<P>();
    {  // the harness's own phases, by a sample in full
        TLWE<P> c;
        for (auto &x : c) x = static_cast<typename P::T>(r.next());
        t.put(Ev("samp").s("lvl", nm<P>()).ws("c", c).w("ph", refphase<P>(c, key)));
        t.put(Ev("same").s("what", "tlweSymPhase").b("ok", tlweSymPhase<P>(c, key) == refphase<P>(c, key)));
    }
    std::vector<int64_t> m, ph, dec;
    for (int i = 0; i < 60; i++) {
        const bool b = r.bit();
        const auto c = tlweSymEncrypt<P>(b ? P::μ : -P::μ, key);
        m.push_back(b), ph.push_back(t24(refphase<P>(c, key))), dec.push_back(tlweSymDecrypt<P>(c, key));
    }
    t.put(Ev("bits").s("lvl", nm<P>()).s("what", "tlwe").is("m", m).is("ph", ph).is("dec", dec));
    m.clear(), ph.clear(), dec.clear();
    for (int i = 0; i < 40; i++) {  // decryption of any phase
        const auto p = static_cast<typename P::T>(i == 0 ? 0 : r.next());
        const auto c = craft<P>(p, key, r);
        ph.push_back(t24(p)), dec.push_back(tlweSymDecrypt<P>(c, key));
    }
    t.put(Ev("decode").s("lvl", nm<P>()).s("what", "tlwe").is("ph", ph).is("dec", dec));
    if constexpr (P::plain_modulus < 4096) {
        m.clear(), ph.clear(), dec.clear();
        for (int i = 0; i < 40; i++) {
            const int v = r.below(P::plain_modulus);
            const auto c = tlweSymIntEncrypt<P>(v, key);
            m.push_back(v), ph.push_back(t24(refphase<P>(c, key))), dec.push_back((int64_t)tlweSymIntDecrypt<P>(c, key));
        }
        t.put(Ev("ints").s("lvl", nm<P>()).s("what", "tlwe").is("m", m).is("ph", ph).is("dec", dec));
    }
}
template <class P>
void ring(Trace &t, Rng &r, const SecretKey &sk)
{
    const auto &key = sk.key.get<P>();
    for (int rep = 0; rep < pick(2, 6); rep++) {
        std::array<typename P::T, P::n> p;
        std::vector<int64_t> m, dec;
        for (auto &x : p) {
            const bool b = r.bit();
            x = b ? P::μ : -P::μ;
            m.push_back(b);
        }
        const auto c = trlweSymEncrypt<P>(p, key);
        for (bool b : trlweSymDecrypt<P>(c, key)) dec.push_back(b);
        t.put(Ev("bits").s("lvl", nm<P>()).s("what", "trlwe").is("m", m).is("ph", top(refphase<P>(c, key))).is("dec", dec));
        const int j = rep ? (int)r.below(P::n) : P::n - 1;
        TLWE<P> x;
        SampleExtractIndex<P>(x, c, j);
        t.put(Ev("same").s("what", "extraction").b("ok", refphase<P>(x, key) == refphase<P>(c, key)[j]));
    }
}

// ---------------------------------------------------------------- products --
template <class P>
TRLWE<P> anyring(Rng &r)
{
    TRLWE<P> c;
    for (auto &p : c) p = randpoly<P>(r);
    return c;
}
template <class P>
void products(Trace &t, Rng &r, const SecretKey &sk)
{
    const auto &key = sk.key.get<P>();
    for (int rep = 0; rep < pick(5, 20); rep++) {
        Polynomial<P> m = {};
        const int c = rep == 0 ? 0 : rep == 1 ? 1 : rep == 2 ? -1 : (int)r.range(-1, 1), s = rep < 3 ? 0 : r.below(P::n);
        m[s] = static_cast<typename P::T>(c);
        const auto g = big<TRGSWFFT<P>>(trgswfftSymEncrypt<P>(m, key));
        const auto in = anyring<P>(r);
        auto out = anyring<P>(r);
        trgswfftExternalProduct<P>(out, in, *g);
        t.put(Ev("prod").s("lvl", nm<P>()).i("c", c).i("s", s).is("in", top(refphase<P>(in, key))).is("out", top(refphase<P>(out, key))));
    }
    for (int rep = 0; rep < pick(4, 20); rep++) {
        Polynomial<P> m = {};
        m[0] = rep & 1;
        const auto g = big<TRGSWFFT<P>>(trgswfftSymEncrypt<P>(m, key));
        const auto c1 = anyring<P>(r), c0 = anyring<P>(r);
        auto out = anyring<P>(r);
        CMUXFFT<P>(out, *g, c1, c0);
        t.put(Ev("prod").s("lvl", nm<P>()).i("c", 1).i("s", 0).is("in", top(refphase<P>(rep & 1 ? c1 : c0, key))).is("out", top(refphase<P>(out, key))));
    }
}

// --------------------------------------------- one step of a blind rotation --
template <class BK>
void steps(Trace &t, Rng &r, const SecretKey &sk, const BootstrappingKeyFFT<BK> &bk, int reps)
{
    using D = typename BK::domainP;
    using P = typename BK::targetP;
    const auto &dk = sk.key.get<D>();
    const auto &key = sk.key.get<P>();
    const int n2 = 2 * P::n;
    for (int rep = 0; rep < reps; rep++) {
        const auto in = anyring<P>(r);
        auto acc = in;
        const int special[] = {1, n2 - 1, (int)P::n, (int)P::n - 1, (int)P::n + 1};
        const int a0 = rep % 8 < 5 ? special[rep % 8] : 1 + r.below(n2 - 1), a1 = rep % 3 == 0 ? (int)r.below(n2) : special[r.below(5)];
        Ev e("step");
        e.s("dom", nm<D>()).s("lvl", nm<P>());
#ifdef USE_KEY_BUNDLE
        const int i = rep == 0 ? D::k * D::n / BK::Addends - 1 : r.below(D::k * D::n / BK::Addends);
        auto g = big<TRGSWFFT<P>>();
        // amounts may be a full turn when they are rounded up
        const int f0 = rep % 5 == 4 ? n2 : a0;
        KeyBundleFFT<BK>(*g, bk[i], {static_cast<typename D::T>(f0), static_cast<typename D::T>(a1)});
        trgswfftExternalProduct<P>(acc, in, *g);
        e.is("a", std::vector<int>{f0, a1}).is("v", std::vector<int64_t>{(int64_t)sgn(dk[2 * i]), (int64_t)sgn(dk[2 * i + 1])});
#else
        const int i = rep == 0 ? D::k * D::n - 1 : r.below(D::k * D::n);
        CMUXFFTwithPolynomialMulByXaiMinusOne<BK>(acc, bk[i], a0);
        (void)a1;
        e.is("a", std::vector<int>{a0}).is("v", std::vector<int64_t>{(int64_t)sgn(dk[i])});
#endif
        t.put(e.is("in", top(refphase<P>(in, key))).is("out", top(refphase<P>(acc, key))));
    }
}

template <class P>
TLWE<P> input(Rng &r, const Key<P> &key, int kind)
{
    TLWE<P> c;
    using T = typename P::T;
    constexpr int W = digits<P>();
    switch (kind) {
    case 0: c = {}; break;
    case 1: for (auto &x : c) x = static_cast<T>(~T{0}); break;  // rounds up to a full turn
    case 2: c = tlweSymEncrypt<P>(r.bit() ? P::μ : -P::μ, key); break;
    case 3: c = {}; c[P::k * P::n] = static_cast<T>(r.next()); break;
    case 4: c = {}; c[r.below(P::n)] = static_cast<T>(r.next()); break;
    case 5: for (auto &x : c) x = static_cast<T>(T{1} << (W - 1)); break;
    default: for (auto &x : c) x = static_cast<T>(r.next());
    }
    return c;
}
template <class BK, uint32_t num_out = 1>
void rotate(Trace &t, Rng &r, const SecretKey &sk, const BootstrappingKeyFFT<BK> &bk, int reps, bool enc = false)
{
    using D = typename BK::domainP;
    using P = typename BK::targetP;
    const auto &tk = sk.key.get<P>();
    for (int rep = 0; rep < reps; rep++) {
        const auto in = input<D>(r, sk.key.get<D>(), rep);
        TRLWE<P> tv = {};
        if (enc)
            tv = anyring<P>(r);
        else if (rep % 3 == 2)
            for (auto &x : tv[P::k]) x = r.bit() ? P::μ : -P::μ;
        else
            tv[P::k] = randpoly<P>(r);
        auto acc = anyring<P>(r);
        if (enc) BlindRotate<BK, num_out>(acc, in, bk, tv);
        else BlindRotate<BK, num_out>(acc, in, bk, tv[P::k]);
        t.put(Ev("rotate").s("dom", nm<D>()).s("lvl", nm<P>()).i("outs", num_out).s("what", enc ? "encrypted" : "plain").is("in", top(in)).is("tv", top(refphase<P>(tv, tk))).is("r", top(refphase<P>(acc, tk))));
    }
}
template <class BK>
void lut(Trace &t, Rng &r, const SecretKey &sk, const BootstrappingKeyFFT<BK> &bk, int reps)
{
    using D = typename BK::domainP;
    using P = typename BK::targetP;
    const auto &tk = sk.key.get<P>();
    for (int rep = 0; rep < reps; rep++) {
        const auto in = input<D>(r, sk.key.get<D>(), rep % 2 ? 6 : 2);
        const auto tv = randpoly<P>(r);
        TLWE<P> res;
        GateBootstrappingTLWE2TLWEFFT<BK>(res, in, bk, tv);
        t.put(Ev("lut").s("dom", nm<D>()).s("lvl", nm<P>()).i("outs", 1).is("in", top(in)).is("tv", top(tv)).is("ph", std::vector<int64_t>{t24(refphase<P>(res, tk))}));
        std::array<TLWE<P>, 2> two;
        GateBootstrappingManyLUT<BK, 2>(two, in, bk, tv);
        t.put(Ev("lut").s("dom", nm<D>()).s("lvl", nm<P>()).i("outs", 2).is("in", top(in)).is("tv", top(tv)).is("ph", std::vector<int64_t>{t24(refphase<P>(two[0], tk)), t24(refphase<P>(two[1], tk))}));
    }
}
template <class BK>
void rotations(Trace &t, Rng &r, const SecretKey &sk, int sreps, int rreps)
{
    auto bk = big<BootstrappingKeyFFT<BK>>();
    bkfftgen<BK>(*bk, sk);
    steps<BK>(t, r, sk, *bk, sreps);
    rotate<BK>(t, r, sk, *bk, rreps);
    rotate<BK>(t, r, sk, *bk, rreps / 2 + 3, true);
    rotate<BK, 4>(t, r, sk, *bk, rreps / 4 + 2);
    rotate<BK, 2>(t, r, sk, *bk, rreps / 4 + 2, true);
    lut<BK>(t, r, sk, *bk, 3);
}

// ----------------------------------------------------------- key switching --
template <class K>
void switching(Trace &t, Rng &r, const SecretKey &sk, const char *name)
{
    using D = typename K::domainP;
    using P = typename K::targetP;
    auto ksk = big<KeySwitchingKey<K>>();
    ikskgen<K>(*ksk, sk);
    std::vector<int64_t> in, out;
    for (int i = 0; i < pick(30, 200); i++) {
        const auto ph = static_cast<typename D::T>(i == 0 ? 0 : i == 1 ? ~0ULL : r.next());
        const auto c = craft<D>(ph, sk.key.get<D>(), r, i == 2);
        TLWE<P> res;
        IdentityKeySwitch<K>(res, c, *ksk);
        in.push_back(t24(ph)), out.push_back(t24(refphase<P>(res, sk.key.get<P>())));
    }
    t.put(Ev("switch").s("ks", name).is("in", in).is("out", out));
}

// ------------------------------------------------------------------- gates --
struct Machine {
    const SecretKey &sk;
    const EvalKey &ek;
    std::array<TLWE<lvl0param>, 4> r0;
    std::array<TLWE<lvl1param>, 4> r1;
    template <class P>
    auto &regs()
    {
        if constexpr (std::is_same_v<P, lvl0param>) return r0;
        else return r1;
    }
    template <class P>
    void run(const Rec &s)
    {
        const std::string op = s.at("op");
        auto &R = regs<P>();
        const auto &key = sk.key.get<P>();
        auto &res = R[num(s, "r")];
        const int a = num(s, "a"), b = num(s, "b"), c = num(s, "c");
        if (op == "ENC") res = tlweSymEncrypt<P>(a ? P::μ : -P::μ, key);
        else if (op == "NOT") HomNOT<P>(res, R[a]);
        else if (op == "COPY") HomCOPY<P>(res, R[a]);
        else if (op == "ONE") HomCONSTANTONE<P>(res);
        else if (op == "ZERO") HomCONSTANTZERO<P>(res);
        else if (op == "MUX") HomMUX<P>(res, R[a], R[b], R[c], ek);
        else if (op == "NMUX") HomNMUX<P>(res, R[a], R[b], R[c], ek);
#define G(X)                                                                              \
    else if (op == #X)                                                                    \
    {                                                                                     \
        if constexpr (std::is_same_v<P, lvl0param>)                                       \
            Hom##X<lvl01param, lvl1param::μ, lvl10param>(res, R[a], R[b], ek);            \
        else                                                                              \
            Hom##X<lvl10param, lvl01param, lvl1param::μ>(res, R[a], R[b], ek);            \
    }
        G(NAND) G(NOR) G(XNOR) G(AND) G(OR) G(XOR) G(ANDNY) G(ANDYN) G(ORNY) G(ORYN)
        else std::exit(91);
    }
    template <class P>
    std::vector<int64_t> bits()
    {
        std::vector<int64_t> v;
        for (auto &c : regs<P>()) v.push_back(tlweSymDecrypt<P>(c, sk.key.get<P>()));
        return v;
    }
};
void gates(Trace &t, const SecretKey &sk, const char *path)
{
    auto ek = big<EvalKey>();
    ek->emplacebkfft<lvl01param>(sk);
    ek->emplaceiksk<lvl10param>(sk);
    Machine m{sk, *ek, {}, {}};
    for (const auto &s : readprog(path)) {
        if (s.at("op") == "begin") {
            for (int i = 0; i < 4; i++) {
                m.r0[i] = tlweSymEncrypt<lvl0param>(i & 1 ? lvl0param::μ : -lvl0param::μ, sk.key.get<lvl0param>());
                m.r1[i] = tlweSymEncrypt<lvl1param>(i & 1 ? lvl1param::μ : -lvl1param::μ, sk.key.get<lvl1param>());
            }
            t.put(Ev("begin").is("b0", m.bits<lvl0param>()).is("b1", m.bits<lvl1param>()));
            continue;
        }
        const bool low = s.at("lv") == "lvl0";
        if (low) m.run<lvl0param>(s);
        else m.run<lvl1param>(s);
        const int r = num(s, "r");
        const auto ph = low ? t24(refphase<lvl0param>(m.r0[r], sk.key.get<lvl0param>())) : t24(refphase<lvl1param>(m.r1[r], sk.key.get<lvl1param>()));
        t.put(Ev("gate").s("op", s.at("op")).s("lv", s.at("lv")).i("r", r).i("a", num(s, "a")).i("b", num(s, "b")).i("c", num(s, "c")).i("ph", ph).is("b0", m.bits<lvl0param>()).is("b1", m.bits<lvl1param>()));
    }
}

// --------------------------------------------------- circuit bootstrapping --
#ifndef USE_TFHE_RS
void circuit(Trace &t, Rng &r, const SecretKey &sk)
{
    using P = lvl1param;
    const auto &key = sk.key.get<P>();
    auto ek = big<EvalKey>();
    ek->emplaceiksk<lvl10param>(sk);
    ek->emplacebkfft<lvl02param>(sk);
    ek->emplaceprivksk4cb<lvl21param>(sk);
    for (int rep = 0; rep < pick(4, 20); rep++) {
        const bool b = rep < 2 ? rep : r.bit();
        auto g = big<TRGSWFFT<P>>();
        if (rep % 4 != 3)
            CircuitBootstrappingFFT<lvl10param, lvl02param, lvl21param>(*g, tlweSymEncrypt<P>(b ? P::μ : -P::μ, key), *ek);
        else  // the inverted selector
            CircuitBootstrappingFFTInv<lvl10param, lvl02param, lvl21param>(*g, tlweSymEncrypt<P>(b ? -P::μ : P::μ, key), *ek);
        const auto c1 = anyring<P>(r), c0 = anyring<P>(r);
        auto out = anyring<P>(r);
        CMUXFFT<P>(out, *g, c1, c0);
        t.put(Ev("sel").i("b", b).is("c1", top(refphase<P>(c1, key))).is("c0", top(refphase<P>(c0, key))).is("out", top(refphase<P>(out, key))));
    }
}
#endif

// ----------------------------------------------------------------- threads --
// everything above from several threads at once, on shared keys
void threads(Trace &t, const SecretKey &sk)
{
    auto bk = big<BootstrappingKeyFFT<lvl01param>>();
    bkfftgen<lvl01param>(*bk, sk);
    const auto go = [&](int id, std::vector<Ev> &out) {
        Rng r("thread" + std::to_string(id));
        const auto product = [&]<class P>() {
            const auto &key = sk.key.get<P>();
            Polynomial<P> m = {};
            m[id] = 1;
            const auto g = big<TRGSWFFT<P>>(trgswfftSymEncrypt<P>(m, key));
            for (int rep = 0; rep < pick(8, 40); rep++) {
                const auto in = anyring<P>(r);
                auto acc = anyring<P>(r);
                trgswfftExternalProduct<P>(acc, in, *g);
                if (rep % 4 == 3)
                    out.push_back(Ev("prod").s("lvl", nm<P>()).i("c", 1).i("s", id).is("in", top(refphase<P>(in, key))).is("out", top(refphase<P>(acc, key))));
            }
        };
        product.operator()<lvl2param>();
        product.operator()<lvl1param>();
        for (int rep = 0; rep < pick(6, 30); rep++) {
            const auto in = input<lvl0param>(r, sk.key.get<lvl0param>(), rep % 2 ? 6 : 2);
            const auto tv = randpoly<lvl1param>(r);
            TLWE<lvl1param> res;
            GateBootstrappingTLWE2TLWEFFT<lvl01param>(res, in, *bk, tv);
            out.push_back(Ev("lut").s("dom", "lvl0").s("lvl", "lvl1").i("outs", 1).is("in", top(in)).is("tv", top(tv)).is("ph", std::vector<int64_t>{t24(refphase<lvl1param>(res, sk.key.get<lvl1param>()))}));
        }
    };
    constexpr int T = 4;
    std::array<std::vector<Ev>, T> outs;
    std::vector<std::thread> ts;
    for (int i = 0; i < T; i++) ts.emplace_back([&, i] { go(i, outs[i]); });
    for (auto &x : ts) x.join();
    for (auto &o : outs)
        for (auto &e : o) t.put(e);
}

int main(int, char **argv)
{
    const std::string s = argv[1];
    Trace t(argv[2]);
    Rng r(s + CONF);
    t.put(Ev("conf").s("name", CONF));
    level<lvl0param>(t), level<lvlhalfparam>(t), level<lvl1param>(t), level<lvl2param>(t);
    kslevel<lvl10param>(t, "10"), kslevel<lvl1hparam>(t, "1h"), kslevel<lvl20param>(t, "20"), kslevel<lvl2hparam>(t, "2h"), kslevel<lvl21param>(t, "21");
    auto sk = big<SecretKey>();
    keyev<lvl0param>(t, *sk), keyev<lvlhalfparam>(t, *sk), keyev<lvl1param>(t, *sk), keyev<lvl2param>(t, *sk);
    if (s == "basic") {
        samples<lvl0param>(t, r, *sk), samples<lvlhalfparam>(t, r, *sk), samples<lvl1param>(t, r, *sk), samples<lvl2param>(t, r, *sk);
        ring<lvl1param>(t, r, *sk), ring<lvl2param>(t, r, *sk);
        products<lvl1param>(t, r, *sk), products<lvl2param>(t, r, *sk);
        switching<lvl10param>(t, r, *sk, "10"), switching<lvl1hparam>(t, r, *sk, "1h"), switching<lvl20param>(t, r, *sk, "20"), switching<lvl2hparam>(t, r, *sk, "2h"), switching<lvl21param>(t, r, *sk, "21");
    }
    if (s == "rot1") rotations<lvl01param>(t, r, *sk, pick(16, 80), pick(10, 60)), rotations<lvlh1param>(t, r, *sk, pick(8, 40), pick(4, 30));
    if (s == "rot2") rotations<lvl02param>(t, r, *sk, pick(8, 60), pick(5, 30));
    if (s == "threads") threads(t, *sk);
    if (s == "gates") gates(t, *sk, argv[3]);
#ifndef USE_TFHE_RS
    if (s == "circuit") circuit(t, r, *sk);
#endif
    return 0;
}
