// C07: key switching.
#include "common.hpp"
using namespace vf;

template <class P>
const char *nm()
{
    if constexpr (std::is_same_v<P, lvl0param>) return "lvl0";
    if constexpr (std::is_same_v<P, lvlhalfparam>) return "lvlhalf";
    if constexpr (std::is_same_v<P, lvl1param>) return "lvl1";
    if constexpr (std::is_same_v<P, lvl2param>) return "lvl2";
    if constexpr (std::is_same_v<P, lvl3param>) return "lvl3";
    return "tiny";
}

template <class K>
void putkey(Trace &t, const char *slot, const K &k) { t.put(Ev("key").s("slot", slot).is("vals", signedkey(k))); }

template <class P>
TLWE<P> input(Rng &r, int kind)
{
    using T = typename P::T;
    TLWE<P> c;
    switch (kind) {
    case 0: for (auto &x : c) x = static_cast<T>(~T{0}); break;
    case 1: for (auto &x : c) x = static_cast<T>(T{1} << (digits<P>() - 1)); break;
    case 2: for (auto &x : c) x = static_cast<T>((T{1} << (digits<P>() - 1)) - 1); break;
    case 3: c = {}; c[r.below(c.size())] = static_cast<T>(r.next()); break;
    case 4: c = {}; c[c.size() - 1] = static_cast<T>(r.next()); break;
    case 5: for (auto &x : c) x = r.bit() ? static_cast<T>(0x5555555555555555ULL) : static_cast<T>(0xAAAAAAAAAAAAAAAAULL); break;
    case 6: for (auto &x : c) x = static_cast<T>(static_cast<T>(r.next()) << (digits<P>() / 2)); break;
    case 7: for (auto &x : c) x = static_cast<T>(r.range(-3, 2)); break;
    default: for (auto &x : c) x = static_cast<T>(r.next());
    }
    return c;
}

// Words at the edges of the digit decomposition of a key switch: every digit
// at an end of its range, in the middle or random, and the bits below the last
// digit at or near a rounding boundary. The first word of all has only zero
// digits before the offset is taken away (all digits -base/2 when balanced).
template <class L>
typename L::T edge(Rng &r, int t, int bb, bool balanced)
{
    using T = typename L::T;
    constexpr int W = digits<L>();
    T v = 0, off = 0;
    const T base = T(T{1} << bb);
    const int style = r.below(4);
    for (int j = 1; j <= t; j++) {
        T d = 0;
        switch (style == 0 ? 0 : style == 1 ? 1 : r.below(6)) {
        case 0: d = 0; break;
        case 1: d = T(base - 1); break;
        case 2: d = T(base / 2); break;
        case 3: d = T(base / 2 - 1); break;
        case 4: d = 1; break;
        default: d = T(r.below(base));
        }
        v = T(v + T(d << (W - j * bb)));
        if (balanced) off = T(off + T(T(base / 2) << (W - j * bb)));
    }
    if (t * bb < W) {
        const T step = T(T{1} << (W - t * bb));
        off = T(off + T(step / 2));
        switch (r.below(5)) {
        case 0: v = T(v + (step - 1)); break;
        case 1: v = T(v + step / 2); break;
        case 2: v = T(v + (step > 1 ? 1 : 0)); break;
        default: break;
        }
    }
    return T(v - off);
}
// L: the level of the sample, P: the key switch it goes through
template <class L, class P>
TLWE<L> input(Rng &r, int kind, bool balanced)
{
    if (kind != 8 && kind != 9) return input<L>(r, kind);
    TLWE<L> c;
    for (auto &x : c) x = kind == 8 || r.below(8) == 0 ? edge<L>(r, P::t, P::basebit, balanced) : static_cast<typename L::T>(r.next());
    return c;
}

// ----------------------------------------------- tiny levels without noise --
template <class W, uint32_t NN, uint32_t K = 1, int MIN = -1>
struct TL {
    using T = W;
    static constexpr int32_t key_value_max = 1;
    static constexpr int32_t key_value_min = MIN;
    static constexpr std::uint32_t n = NN;
    static constexpr std::uint32_t nbit = 3;
    static constexpr std::uint32_t k = K;
    static constexpr ErrorDistribution errordist = ErrorDistribution::ModularGaussian;
    static const inline double α = 0;
};
template <class D, class Tg, uint32_t TT, uint32_t BB>
struct KS {
    static constexpr std::uint32_t t = TT;
    static constexpr std::uint32_t basebit = BB;
    static constexpr ErrorDistribution errordist = ErrorDistribution::ModularGaussian;
    static const inline double α = 0;
    using domainP = D;
    using targetP = Tg;
};
template <class P>
Key<P> tinykey(Rng &r)
{
    Key<P> k;
    for (auto &x : k) x = static_cast<typename P::T>(r.range(P::key_value_min, P::key_value_max));
    k[0] = static_cast<typename P::T>(P::key_value_min ? P::key_value_min : 1);
    k[1] = 1;
    return k;
}

template <class P>
void tinyiks(Trace &t, Rng &r, const char *what, int reps)
{
    using D = typename P::domainP;
    using G = typename P::targetP;
    const auto dk = tinykey<D>(r);
    const auto gk = tinykey<G>(r);
    putkey(t, "from", dk);
    putkey(t, "to", gk);
    KeySwitchingKey<P> ksk;
    ikskgen<P>(ksk, dk, gk);
    std::array<TLWE<D>, 3> in;
    std::array<TLWE<G>, 3> cat, one;
    for (int rep = 0; rep < reps; rep++) {
        for (int c = 0; c < 3; c++) {
            in[c] = input<D, P>(r, (3 * rep + c) % 12, true);
            for (auto &x : one[c]) x = static_cast<typename G::T>(0xABCD);
            IdentityKeySwitch<P>(one[c], in[c], ksk);
            t.put(Ev("exact").s("what", what).i("t", P::t).i("bb", P::basebit).b("subset", false).ws("in", in[c]).ws("out", one[c]));
        }
        for (auto &x : cat) x = {};
        CatIdentityKeySwitch<P, 3>(cat, in, ksk);
        t.put(Ev("equal").s("what", std::string("Cat ") + what).wss("a", cat).wss("b", one));
    }
}

template <class P>
void tinysubset(Trace &t, Rng &r, const char *what, int reps)
{
    using D = typename P::domainP;
    using G = typename P::targetP;
    const auto dk = tinykey<D>(r);
    Key<G> gk;
    for (size_t i = 0; i < G::n; i++) gk[i] = static_cast<typename G::T>(dk[i]);
    putkey(t, "from", dk);
    putkey(t, "to", gk);
    SubsetKeySwitchingKey<P> ksk;
    subikskgen<P>(ksk, dk);
    for (int rep = 0; rep < reps; rep++) {
        const auto in = input<D, P>(r, rep % 12, false);
        TLWE<G> out;
        SubsetIdentityKeySwitch<P>(out, in, ksk);
        t.put(Ev("exact").s("what", what).i("t", P::t).i("bb", P::basebit).b("subset", true).ws("in", in).ws("out", out));
    }
}

template <class G>
void ringout(Trace &t, const char *ev, const char *what, const char *lvl, int tt, int bb, bool subset, const auto &in, const TRLWE<G> &out, const Key<G> &gk, const std::vector<int64_t> &f)
{
    t.put(Ev(ev).s("what", what).s("lvl", lvl).i("t", tt).i("bb", bb).b("subset", subset).b("priv", std::string(what).ends_with("private")).ws("in", in).ws("out", refphase<G>(out, gk)).is("f", f));
}

template <class P>
void tinyring(Trace &t, Rng &r, const char *what, int reps)
{
    using D = typename P::domainP;
    using G = typename P::targetP;
    using T = typename G::T;
    const auto dk = tinykey<D>(r);
    const auto gk = tinykey<G>(r);
    putkey(t, "from", dk);
    putkey(t, "to", gk);
    auto a = big<TLWE2TRLWEIKSKey<P>>();
    tlwe2trlweikskgen<P>(*a, dk, gk);
    std::vector<int64_t> unit(G::n, 0);
    unit[0] = 1;
    for (int rep = 0; rep < reps; rep++) {
        const auto in = input<D, P>(r, rep % 12, false);
        TRLWE<G> out;
        for (auto &p : out) p = randpoly<G>(r);
        TLWE2TRLWEIKS<P>(out, in, *a);
        ringout<G>(t, "ring", what, "tiny", P::t, P::basebit, false, in, out, gk, unit);
    }
    for (int fn = 0; fn < 3; fn++) {
        Polynomial<G> f;
        std::vector<int64_t> fl;
        for (auto &x : f) {
            fl.push_back(fn == 0 ? (fl.empty() ? 1 : 0) : r.range(-3, 3));
            x = static_cast<T>(fl.back());
        }
        auto b = big<PrivateKeySwitchingKey<P>>();
        privkskgen<P>(*b, f, dk, gk);
        for (int rep = 0; rep < reps; rep++) {
            const auto in = input<D, P>(r, rep % 12, true);
            TRLWE<G> out;
            for (auto &p : out) p = randpoly<G>(r);
            PrivKeySwitch<P>(out, in, *b);
            ringout<G>(t, "ring", "private", "tiny", P::t, P::basebit, false, in, out, gk, fl);
        }
        // the subset form takes samples under the first part of the domain key
        auto c = big<SubsetPrivateKeySwitchingKey<P>>();
        subprivkskgen<P>(*c, f, dk, gk);
        for (int rep = 0; rep < reps; rep++) {
            const auto in = input<G, P>(r, rep % 12, false);
            TRLWE<G> out;
            for (auto &p : out) p = randpoly<G>(r);
            SubsetPrivKeySwitch<P>(out, in, *c);
            ringout<G>(t, "ring", "subset private", "tiny", P::t, P::basebit, true, in, out, gk, fl);
        }
    }
}

// ------------------------------------------------------------- real levels --
template <class P>
void iks(Trace &t, Rng &r, const SecretKey &sk, const char *pair, int reps, int stat, int sh)
{
    using D = typename P::domainP;
    using G = typename P::targetP;
    const auto &dk = sk.key.get<D>();
    const auto &gk = sk.key.get<G>();
    putkey(t, "from", dk);
    putkey(t, "to", gk);
    auto ksk = big<KeySwitchingKey<P>>();
    ikskgen<P>(*ksk, sk);
    for (int rep = 0; rep < reps; rep++) {
        const auto in = input<D, P>(r, rep % 12, true);
        const auto keep = in;
        TLWE<G> out;
        for (auto &x : out) x = static_cast<typename G::T>(r.next());
        IdentityKeySwitch<P>(out, in, *ksk);
        t.put(Ev("switch").s("pair", pair).ws("in", in).ws("out", out));
        t.put(Ev("same").s("what", "input unchanged").b("ok", in == keep));
    }
    std::vector<int64_t> d;
    constexpr int W = std::max(digits<D>(), digits<G>());
    for (int i = 0; i < stat; i++) {
        auto in = input<D>(r, 99);
        TLWE<G> out;
        IdentityKeySwitch<P>(out, in, *ksk);
        const uint64_t a = static_cast<uint64_t>(refphase<D>(in, dk)) << (64 - digits<D>());
        const uint64_t b = static_cast<uint64_t>(refphase<G>(out, gk)) << (64 - digits<G>());
        (void)W;
        d.push_back(static_cast<int64_t>(b - a) >> (64 - digits<G>() + sh));
    }
    if (stat) t.put(Ev("noise").s("pair", pair).is("d", d));
    std::array<TLWE<D>, 5> cin;
    std::array<TLWE<G>, 5> cat, one;
    for (int rep = 0; rep < pick(2, 20); rep++) {
        for (int i = 0; i < 5; i++) {
            cin[i] = input<D, P>(r, (5 * rep + i) % 12, true);
            IdentityKeySwitch<P>(one[i], cin[i], *ksk);
        }
        poison(cat);
        CatIdentityKeySwitch<P, 5>(cat, cin, *ksk);
        t.put(Ev("same").s("what", "several at once").b("ok", cat == one));
        std::array<TLWE<D>, 1> i1 = {cin[0]};
        std::array<TLWE<G>, 1> o1;
        poison(o1);
        CatIdentityKeySwitch<P, 1>(o1, i1, *ksk);
        t.put(Ev("same").s("what", "several at once, one").b("ok", o1[0] == one[0]));
    }
}

// f as small integers; err: 1024 or 2048 errors of one ring result
template <class P, class IN>
void real(Trace &t, Rng &r, const char *pair, const char *what, bool subset, const Key<typename P::targetP> &gk, const std::vector<int64_t> &f, int reps, IN op)
{
    using G = typename P::targetP;
    for (int rep = 0; rep < reps; rep++) {
        TRLWE<G> out;
        for (auto &p : out) p = randpoly<G>(r);
        op(rep, out, [&](const auto &in) {
            ringout<G>(t, "ringswitch", what, pair, P::t, P::basebit, subset, in, out, gk, f);
        });
    }
}

template <class P>
std::vector<std::vector<int64_t>> funcs(Rng &r, const Key<typename P::targetP> &gk)
{
    std::vector<int64_t> one(P::targetP::n, 0), neg, rnd;
    one[0] = 1;
    for (auto x : gk) neg.push_back(-(int64_t)sgn(x));
    for (size_t i = 0; i < P::targetP::n; i++) rnd.push_back(r.range(-2, 2));
    return {one, neg, rnd};
}
template <class P>
Polynomial<P> topoly(const std::vector<int64_t> &f)
{
    Polynomial<P> p;
    for (size_t i = 0; i < P::n; i++) p[i] = static_cast<typename P::T>(f[i]);
    return p;
}

template <class P>
void priv(Trace &t, Rng &r, const SecretKey &sk, const char *pair, int nf, int reps, bool sub)
{
    using D = typename P::domainP;
    using G = typename P::targetP;
    const auto &dk = sk.key.get<D>();
    const auto &gk = sk.key.get<G>();
    putkey(t, "from", dk);
    putkey(t, "to", gk);
    const auto fs = funcs<P>(r, gk);
    for (int i = 0; i < nf; i++) {
        const auto f = fs[(i + 1) % 3];
        if (!sub) {
            auto k = big<PrivateKeySwitchingKey<P>>();
            privkskgen<P>(*k, topoly<G>(f), sk);
            real<P>(t, r, pair, "private", false, gk, f, reps, [&](int rep, auto &out, auto emit) {
                const auto in = input<D, P>(r, (rep + (i ? 3 : 0)) % 12, true);
                PrivKeySwitch<P>(out, in, *k);
                emit(in);
            });
        }
        else {
            auto k = big<SubsetPrivateKeySwitchingKey<P>>();
            subprivkskgen<P>(*k, topoly<G>(f), sk);
            real<P>(t, r, pair, "subset private", true, gk, f, reps, [&](int rep, auto &out, auto emit) {
                const auto in = input<G, P>(r, (rep + (i ? 3 : 0)) % 12, false);
                SubsetPrivKeySwitch<P>(out, in, *k);
                emit(in);
            });
        }
    }
}

int main(int, char **argv)
{
    const std::string s = argv[1];
    Trace t(argv[2]);
    Rng r(s);
    if (s == "tiny") {
        const int n = pick(8, 60);
        tinyiks<KS<TL<uint32_t, 6>, TL<uint16_t, 5>, 4, 3>>(t, r, "u32 u16", n);
        tinyiks<KS<TL<uint16_t, 6>, TL<uint16_t, 5>, 7, 2>>(t, r, "u16 u16", n);
        tinyiks<KS<TL<uint16_t, 6>, TL<uint16_t, 5>, 4, 4>>(t, r, "u16 u16 whole word", n);
        tinyiks<KS<TL<uint32_t, 6>, TL<uint32_t, 5>, 6, 4>>(t, r, "u32 u32", n);
        tinyiks<KS<TL<uint32_t, 6>, TL<uint32_t, 5>, 8, 4>>(t, r, "u32 u32 whole word", n);
        tinyiks<KS<TL<uint64_t, 6>, TL<uint32_t, 5>, 8, 3>>(t, r, "u64 u32", n);
        tinyiks<KS<TL<uint64_t, 6>, TL<uint16_t, 5>, 7, 2>>(t, r, "u64 u16", n);
        tinyiks<KS<TL<uint64_t, 6>, TL<uint64_t, 5>, 38, 1>>(t, r, "u64 u64 base two", n);
        tinyiks<KS<TL<uint16_t, 6, 1, 0>, TL<uint32_t, 5>, 5, 3>>(t, r, "u16 u32", n);
        tinyiks<KS<TL<uint16_t, 6, 1, 0>, TL<uint64_t, 5>, 7, 2>>(t, r, "u16 u64", n);
        tinyiks<KS<TL<uint32_t, 6, 1, 0>, TL<uint64_t, 5>, 9, 3>>(t, r, "u32 u64", n);
        tinyiks<KS<TL<uint32_t, 5, 2>, TL<uint32_t, 4, 3>, 5, 4>>(t, r, "u32 k=2 k=3", n);
        tinysubset<KS<TL<uint64_t, 9>, TL<uint32_t, 5>, 8, 3>>(t, r, "subset u64 u32", 2 * n);
        tinysubset<KS<TL<uint32_t, 9>, TL<uint32_t, 6>, 5, 4>>(t, r, "subset u32 u32", 2 * n);
        tinysubset<KS<TL<uint32_t, 9>, TL<uint16_t, 4>, 7, 2>>(t, r, "subset u32 u16", 2 * n);
        tinysubset<KS<TL<uint64_t, 7>, TL<uint64_t, 4>, 10, 4>>(t, r, "subset u64 u64", 2 * n);
    }
    if (s == "tinyring") {
        const int n = pick(13, 60);
        tinyring<KS<TL<uint32_t, 10>, TL<uint16_t, 8>, 4, 3>>(t, r, "u32 to u16 ring", n);
        tinyring<KS<TL<uint64_t, 11>, TL<uint16_t, 8>, 6, 2>>(t, r, "u64 to u16 ring", n);
        tinyring<KS<TL<uint16_t, 9>, TL<uint16_t, 8>, 7, 2>>(t, r, "u16 to u16 ring", n);
        tinyring<KS<TL<uint16_t, 9>, TL<uint16_t, 8>, 15, 1>>(t, r, "u16 to u16 ring base two", n);
    }
    auto sk = big<SecretKey>();
    if (s == "lvl10") iks<lvl10param>(t, r, *sk, "10", pick(24, 100), pick(600, 4000), 0);
    if (s == "lvl1h") iks<lvl1hparam>(t, r, *sk, "1h", pick(16, 60), pick(400, 2000), 0);
    if (s == "lvl11") iks<lvl11param>(t, r, *sk, "11", pick(16, 60), pick(400, 2000), 0);
    if (s == "lvl20") iks<lvl20param>(t, r, *sk, "20", pick(16, 60), pick(400, 2000), 0);
    if (s == "lvl2h") iks<lvl2hparam>(t, r, *sk, "2h", pick(16, 60), pick(400, 2000), 0);
    if (s == "lvl21") iks<lvl21param>(t, r, *sk, "21", pick(16, 60), pick(400, 2000), 0);
    if (s == "lvl22") iks<lvl22param>(t, r, *sk, "22", pick(12, 40), pick(200, 1000), 20);
    if (s == "lvl31") iks<lvl31param>(t, r, *sk, "31", pick(6, 24), pick(200, 1000), 0);
    if (s == "subset") {
        using P = lvl21param;
        using G = lvl1param;
        const auto &dk = sk->key.get<lvl2param>();
        Key<G> gk;
        for (size_t i = 0; i < G::n; i++) gk[i] = static_cast<uint32_t>(dk[i]);
        putkey(t, "from", dk);
        putkey(t, "to", gk);
        auto k = big<SubsetKeySwitchingKey<P>>();
        subikskgen<P>(*k, *sk);
        std::vector<int64_t> d;
        for (int rep = 0; rep < pick(16, 60); rep++) {
            const auto in = input<lvl2param, P>(r, rep % 12, false);
            TLWE<G> out;
            SubsetIdentityKeySwitch<P>(out, in, *k);
            t.put(Ev("switch").s("pair", "s21").ws("in", in).ws("out", out));
        }
    }
    if (s == "toring") {
        using P = lvl11param;
        const auto &k1 = sk->key.get<lvl1param>();
        putkey(t, "from", k1);
        putkey(t, "to", k1);
        auto k = big<TLWE2TRLWEIKSKey<P>>();
        tlwe2trlweikskgen<P>(*k, *sk);
        std::vector<int64_t> one(1024, 0);
        one[0] = 1;
        real<P>(t, r, "11", "sample to ring", false, k1, one, pick(16, 60), [&](int rep, auto &out, auto emit) {
            const auto in = input<lvl1param, P>(r, rep % 12, false);
            TLWE2TRLWEIKS<P>(out, in, *k);
            emit(in);
        });
    }
    if (s == "priv11") priv<lvl11param>(t, r, *sk, "11", pick(2, 3), pick(10, 40), false);
    if (s == "priv21") priv<lvl21param>(t, r, *sk, "21", pick(2, 3), pick(10, 40), false);
    if (s == "priv22") priv<lvl22param>(t, r, *sk, "22", pick(1, 3), pick(8, 40), false);
    if (s == "subpriv21") {
        // samples and result are under the subset key
        auto sub = big<SecretKey>(*sk);
        for (size_t i = 0; i < lvl1param::n; i++) sub->key.lvl1[i] = static_cast<uint32_t>(sub->key.lvl2[i]);
        priv<lvl21param>(t, r, *sub, "21", pick(2, 3), pick(10, 40), true);
    }
    return 0;
}
