// C12: homomorphic digit decomposition.
#include "common.hpp"
using namespace vf;

template <class P>
const char *nm()
{
    if constexpr (std::is_same_v<P, lvl0param>) return "lvl0";
    if constexpr (std::is_same_v<P, lvlhalfparam>) return "lvlhalf";
    if constexpr (std::is_same_v<P, lvl1param>) return "lvl1";
    if constexpr (std::is_same_v<P, lvl3param>) return "lvl3";
    return "lvl2";
}

template <class H2M, class M2L, class BR>
struct Ctx {
    using H = typename H2M::domainP;
    using M = typename H2M::targetP;
    Trace &t;
    Rng &r;
    const SecretKey &sk;
    const char *what;
    std::unique_ptr<KeySwitchingKey<H2M>> h2m = big<KeySwitchingKey<H2M>>();
    std::unique_ptr<KeySwitchingKey<M2L>> m2l = big<KeySwitchingKey<M2L>>();
    std::unique_ptr<BootstrappingKeyFFT<BR>> bk = big<BootstrappingKeyFFT<BR>>();
    Ctx(Trace &t, Rng &r, const SecretKey &sk, const char *what) : t(t), r(r), sk(sk), what(what)
    {
        ikskgen<H2M>(*h2m, sk);
        ikskgen<M2L>(*m2l, sk);
        bkfftgen<BR>(*bk, sk);
    }
    int count = 0;

    // the message is in the top bb*nd bits of the phase of c
    template <uint bb, uint nd>
    void run(const TLWE<H> &c)
    {
        const auto before = digest(c);
        auto res = std::make_unique<std::array<TLWE<M>, nd>>();
        for (auto &x : *res)
            for (auto &w : x) w = static_cast<typename M::T>(r.next());
        HomDecomp<H2M, M2L, BR, bb, nd>(*res, c, *h2m, *m2l, *bk);
        std::vector<typename M::T> ph;
        for (const auto &x : *res) ph.push_back(refphase<M>(x, sk.key.get<M>()));
        t.put(Ev("digits").s("what", what).s("from", nm<H>()).s("to", nm<M>()).s("br", nm<typename BR::domainP>()).i("bb", bb).i("nd", nd).w("ph", refphase<H>(c, sk.key.get<H>())).ws("r", ph));
        t.put(Ev("same").b("ok", before == digest(c)));
        const int i = r.below(nd);
        if (count++ % 4 == 0) t.put(Ev("sample").s("lvl", nm<M>()).ws("c", (*res)[i]).w("ph", ph[i]));
        if (count == 1) t.put(Ev("sample").s("lvl", nm<H>()).ws("c", c).w("ph", refphase<H>(c, sk.key.get<H>())));
    }
    // messages: random digits, boundary digits, uniform runs, borrows
    template <uint bb, uint nd>
    void all(int randoms, int corners)
    {
        using T = typename H::T;
        constexpr uint64_t base = 1u << bb;
        std::vector<std::array<uint64_t, nd>> ms;
        auto fill = [&](auto f) {
            std::array<uint64_t, nd> d;
            for (uint i = 0; i < nd; i++) d[i] = f(i) % base;
            ms.push_back(d);
        };
        for (int i = 0; i < randoms; i++) fill([&](uint) { return r.next(); });
        for (int i = 0; i < corners; i++) switch (i % 8) {
                case 0: fill([&](uint) { return 0; }); break;
                case 1: fill([&](uint) { return base - 1; }); break;
                case 2: fill([&](uint) { return base / 2; }); break;
                case 3: fill([&](uint) { return base / 2 + base - 1; }); break;
                case 4: fill([&](uint i) { return i % 2 ? base - 1 : 0; }); break;
                case 5: fill([&](uint i) { return i % 2 ? 0 : base - 1; }); break;
                case 6: fill([&](uint i) { return i == 0 ? 1 : 0; }); break;
                default:
                    fill([&](uint) {
                        const uint64_t e[4] = {0, base - 1, base / 2, base / 2 - 1};
                        return e[r.below(4)] + base;
                    });
            }
        for (const auto &d : ms) {
            T m = 0;
            for (int i = nd - 1; i >= 0; i--) m = (m << bb) | static_cast<T>(d[i]);
            constexpr int gap = digits<H>() - (int)(bb * nd);
            T p = m << gap;
            if (gap > 8) p += static_cast<T>(r.range(-8, 8));  // a little noise below
            run<bb, nd>(craft<H>(p, sk.key.get<H>(), r, ms.size() > 3 && &d == &ms[2]));
        }
    }
};

int main(int, char **argv)
{
    const std::string s = argv[1];
    Trace t(argv[2]);
    Rng r(s);
    auto sk = big<SecretKey>();
    t.put(Ev("key").s("lvl", "lvl1").is("vals", signedkey(sk->key.lvl1)));
    t.put(Ev("key").s("lvl", "lvl2").is("vals", signedkey(sk->key.lvl2)));
    t.put(Ev("key").s("lvl", "lvl3").is("vals", signedkey(sk->key.lvl3)));
    if (s == "wide") {
        Ctx<lvl31param, lvl1hparam, lvlh1param> c(t, r, *sk, "lvl3 by lvlhalf");
        c.all<4, 16>(pick(4, 30), pick(2, 8));
        c.all<2, 32>(pick(1, 8), pick(4, 32));
        c.all<2, 3>(pick(2, 8), pick(8, 32));
        for (int i = 0; i < pick(3, 20); i++)  // the level's own integer encoding
            c.run<4, 8>(tlweSymIntEncrypt<lvl3param>(r.next() >> 32, lvl3param::α, sk->key.lvl3));
    }
    if (s == "mid") {
        Ctx<lvl21param, lvl1hparam, lvlh1param> c(t, r, *sk, "lvl2 by lvlhalf");
        c.all<3, 21>(pick(2, 30), pick(8, 64));
        c.all<1, 7>(pick(2, 20), pick(8, 32));
        c.all<4, 2>(pick(4, 20), 0);
        c.all<4, 1>(pick(4, 20), pick(4, 8));
        for (int m = 0; m < 16; m++)
            c.run<2, 2>(tlweSymIntEncrypt<lvl2param>(m, lvl2param::α, sk->key.lvl2));
    }
    if (s == "low") {
        Ctx<lvl21param, lvl10param, lvl01param> c(t, r, *sk, "lvl2 by lvl0");
        c.all<3, 7>(pick(4, 40), pick(8, 64));
        c.all<2, 31>(pick(2, 20), pick(8, 64));
        c.all<1, 64>(pick(1, 10), pick(2, 16));
    }
    return 0;
}
