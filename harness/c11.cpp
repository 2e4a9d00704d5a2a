// C11: automorphisms, annihilation and packing.
#include "common.hpp"
using namespace vf;

template <class P>
const char *nm()
{
    return std::is_same_v<P, lvl1param> ? "lvl1" : "lvl2";
}

struct Ctx {
    Trace &t;
    Rng &r;
    const SecretKey &sk;
};

template <class P>
void coef(Ctx &c, const TRLWE<P> &x, const Polynomial<P> &ph)
{
    const int j = c.r.below(P::n);
    c.t.put(Ev("coef").s("lvl", nm<P>()).i("j", j).ws("a", x[0]).w("b", x[P::k][j]).w("ph", ph[j]));
}

// phases with every kind of coefficient: random, at the ends of the word, 0
template <class P>
Polynomial<P> somepoly(Rng &r, int kind)
{
    using T = typename P::T;
    Polynomial<P> m = randpoly<P>(r);
    const T half = T{1} << (digits<P>() - 1);
    if (kind == 1)
        for (auto &x : m) x = r.bit() ? half : static_cast<T>(half - 1);
    if (kind == 2)
        for (auto &x : m) x = r.bit() ? T{0} : static_cast<T>(-1);
    if (kind == 3) m = {};
    return m;
}

template <class P>
TRLWE<P> someenc(Ctx &c, const Polynomial<P> &m, int kind)
{
    if (kind == 4) return craft<P>(m, c.sk.key.get<P>(), c.r, true);
    return craft<P>(m, c.sk.key.get<P>(), c.r);
}

template <class P>
void autos(Ctx &c, int howmany)
{
    const Key<P> &key = c.sk.key.get<P>();
    std::vector<uint32_t> ds = {1, 3, 5, 2 * P::n - 1, P::n - 1, P::n + 1};
    for (uint32_t i = 1; i <= P::nbit; i++) ds.push_back((1u << i) + 1);
    for (int i = 0; i < howmany; i++) ds.push_back(2 * c.r.below(P::n) + 1);
    int kind = 0;
    for (uint32_t d : ds) {
        auto eak = big<EvalAutoKey<P>>();
        evalautokeygen<P>(*eak, d, key);
        const auto m = somepoly<P>(c.r, kind % 4);
        const auto x = someenc<P>(c, m, kind % 5);
        kind++;
        const auto before = digest(x[0].data(), sizeof(x));
        TRLWE<P> y;
        for (auto &p : y) p = m;
        EvalAuto<P>(y, x, d, *eak);
        c.t.put(Ev("auto").s("lvl", nm<P>()).i("d", d).ws("m", m).ws("r", refphase<P>(y, key)));
        c.t.put(Ev("same").s("what", "automorphism operand").b("ok", before == digest(x[0].data(), sizeof(x))));
        if (kind % 8 == 0) coef<P>(c, y, refphase<P>(y, key));
    }
}

template <class P>
void annihilate(Ctx &c, int howmany)
{
    const Key<P> &key = c.sk.key.get<P>();
    auto ahk = big<AnnihilateKey<P>>();
    annihilatekeygen<P>(*ahk, c.sk);
    for (int i = 0; i < howmany; i++) {
        const auto m = somepoly<P>(c.r, i % 5);
        const auto x = someenc<P>(c, m, i % 5);
        const auto before = digest(x[0].data(), sizeof(x));
        TRLWE<P> y;
        for (auto &p : y) p = m;
        AnnihilateKeySwitching<P>(y, x, *ahk);
        const auto ph = refphase<P>(y, key);
        c.t.put(Ev("annihilate").s("lvl", nm<P>()).ws("m", m).ws("r", ph));
        c.t.put(Ev("same").s("what", "annihilation operand").b("ok", before == digest(x[0].data(), sizeof(x))));
        if (i == 0) coef<P>(c, y, ph), coef<P>(c, x, refphase<P>(x, key));
    }
}

template <class P>
void packs(Ctx &c, const std::vector<int> &sizes)
{
    const Key<P> &key = c.sk.key.get<P>();
    auto ahk = big<AnnihilateKey<P>>();
    annihilatekeygen<P>(*ahk, key);
    for (int n : sizes) {
        std::vector<TLWE<P>> v;
        std::vector<typename P::T> ms;
        const auto m = somepoly<P>(c.r, n % 3 ? 0 : 1);
        for (int i = 0; i < n; i++) {
            ms.push_back(m[i]);
            v.push_back(craft<P>(m[i], key, c.r, i % 17 == 16));
        }
        {
            const int i = c.r.below(n);
            c.t.put(Ev("sample").s("lvl", nm<P>()).ws("c", v[i]).w("ph", ms[i]));
        }
        for (const bool compact : {true, false}) {
            auto w = v;
            TRLWE<P> y;
            for (auto &p : y) p = m;
            if (compact)
                TLWE2TRLWEPacking<P>(y, w, *ahk);
            else
                TLWE2TRLWEChengsPacking<P>(y, w, *ahk);
            bool ok = w.size() >= v.size();
            for (int i = 0; ok && i < n; i++) ok = w[i] == v[i];
            const auto ph = refphase<P>(y, key);
            c.t.put(Ev("pack").s("lvl", nm<P>()).b("compact", compact).ws("ms", ms).ws("r", ph));
            c.t.put(Ev("same").s("what", "packed samples").b("ok", ok));
            if (n == sizes[0]) coef<P>(c, y, ph);
        }
    }
}

std::vector<int> sizes(Rng &r, int N, std::vector<int> base, int more)
{
    for (int i = 0; i < more; i++) base.push_back(1 + r.below(i % 2 ? N : 70));
    return base;
}

int main(int, char **argv)
{
    const std::string s = argv[1];
    Trace t(argv[2]);
    Rng r(s);
    auto sk = big<SecretKey>();
    Ctx c{t, r, *sk};
    t.put(Ev("key").s("lvl", "lvl1").is("vals", signedkey(sk->key.lvl1)));
    t.put(Ev("key").s("lvl", "lvl2").is("vals", signedkey(sk->key.lvl2)));
    if (s == "auto1") autos<lvl1param>(c, pick(60, 400));
    if (s == "auto2") autos<lvl2param>(c, pick(40, 300));
    if (s == "annihilate1") annihilate<lvl1param>(c, pick(20, 60));
    if (s == "annihilate2") annihilate<lvl2param>(c, pick(15, 40));
    if (s == "pack1a") packs<lvl1param>(c, sizes(r, 1024, {1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17}, pick(2, 20)));
    if (s == "pack1b") packs<lvl1param>(c, sizes(r, 1024, {1024, 1023, 512, 513, 511, 33, 64, 100}, pick(2, 40)));
    if (s == "pack2") packs<lvl2param>(c, sizes(r, 2048, {1, 2, 3, 5, 8, 31, 64, 2047, 2048}, pick(2, 20)));
    return 0;
}
