// C20: evaluations alone, together, and on fresh threads.
#include <sys/wait.h>
#include <unistd.h>

#include "prog.hpp"
#include "slots.hpp"
#include "workers.hpp"
using namespace vf;

constexpr int R = 4;  // registers per pool

// ------------------------------------------------------------- contents --
template <class V>
void rubbish(V &x, Rng &r, int b);
template <class T>
void rubbishall(T &a, Rng &r, int b)
{
    if constexpr (requires { typename T::value_type; })
        for (auto &x : a) rubbishall(x, r, b);
    else
        rubbish(a, r, b);
}
template <class V>
void rubbish(V &x, Rng &r, int b)
{
    const uint64_t v = r.next();
    if constexpr (std::is_same_v<V, double>) x = static_cast<double>(static_cast<int64_t>(v)) * (b == 32 ? 0x1p-28 : 16.0);  // as a transform of random words
    else if constexpr (std::is_same_v<V, cuHEpp::INTorus>) x = cuHEpp::INTorus(v);
    else if constexpr (std::is_same_v<V, raintt::DoubleSWord>) x = static_cast<V>(static_cast<int64_t>(v % (2 * raintt::P - 1)) - (raintt::P - 1));
    else x = static_cast<V>(v);
}
struct Regs {
    std::array<TLWE<lvl0param>, R> t0;
    std::array<TLWE<lvlhalfparam>, R> th;
    std::array<TLWE<lvl1param>, R> t1;
    std::array<TLWE<lvl2param>, R> t2;
    std::array<TLWE<lvl3param>, R> t3;
    std::array<TRLWE<lvl1param>, R> r1;
    std::array<TRLWE<lvl2param>, R> r2;
    std::array<Polynomial<lvl1param>, R> p1;
    std::array<Polynomial<lvl2param>, R> p2;
    std::array<TRGSWFFT<lvl1param>, R> g1;
    std::array<TRGSWFFT<lvl2param>, R> g2;
    template <class F>
    void each(F f)
    {
        f("t0", t0, 16), f("th", th, 32), f("t1", t1, 32), f("t2", t2, 64), f("t3", t3, 64), f("r1", r1, 32), f("r2", r2, 64), f("p1", p1, 32), f("p2", p2, 64), f("g1", g1, 32), f("g2", g2, 64);
    }
    void fill(Rng &r)
    {
        each([&](const char *, auto &pool, int b) { rubbishall(pool, r, b); });
    }
};
std::string snap(Regs &x, const std::string &who, const char *ev, const std::string &how)
{
    std::vector<std::string> n, d;
    x.each([&](const char *name, auto &pool, int) {
        for (int i = 0; i < R; i++) n.push_back(who + ":" + name + "." + std::to_string(i)), d.push_back(hex(cdig(pool[i])));
    });
    return Ev(ev).s("how", how).ss("names", n).ss("digs", d).str();
}

// ------------------------------------------------------------------ keys --
struct Keys {
    std::string set;  // name of the key set; the contents follow from it
    std::map<std::string, std::function<void()>> fills;
    EvalKey ek;
    std::unique_ptr<SecretKey> sk = big<SecretKey>();
    struct Part {
        const void *p;
        std::function<uint64_t()> dig;
    };
    std::map<std::string, Part> parts;
    std::map<std::string, std::shared_ptr<void>> own;
    template <class T>
    void part(const std::string &n, const T &x)
    {
        parts[n] = {&x, [&x] { return cdig(x); }};
    }
    template <class T, int b>
    std::shared_ptr<T> make(const std::string &n)
    {
        auto p = std::shared_ptr<T>(big<T>());
        fills[n] = [this, n, q = p.get()] {
            Rng r("key" + set + n);
            rubbishall(*q, r, b);
        };
        fills[n]();
        part(n, *p);
        own[n] = p;
        return p;
    }
    void need(const std::string &n)
    {
        if (parts.count(n)) return;
#define BK(lv, b)                                                                                                \
    if (n == "fft" #lv) ek.bkfftlvl##lv = make<BootstrappingKeyFFT<lvl##lv##param>, b>(n);                       \
    if (n == "ntt" #lv) ek.bknttlvl##lv = make<BootstrappingKeyNTT<lvl##lv##param>, b>(n);
        BK(01, 32) BK(h1, 32) BK(02, 64) BK(h2, 64)
#define KS(lv, b) \
    if (n == "iks" #lv) ek.iksklvl##lv = make<KeySwitchingKey<lvl##lv##param>, b>(n);
        KS(10, 16) KS(1h, 32) KS(20, 16) KS(2h, 32) KS(21, 32) KS(22, 64) KS(31, 32)
        if (n == "sub21") ek.subiksklvl21 = make<SubsetKeySwitchingKey<lvl21param>, 32>(n);
#define PK(lv, b)                                                                                                \
    for (int k = 0; k < 2; k++)                                                                                  \
        if (n == "priv" #lv "_" + std::to_string(k)) ek.privksklvl##lv["privksk4cb_" + std::to_string(k)] = make<PrivateKeySwitchingKey<lvl##lv##param>, b>(n);
        PK(11, 32) PK(21, 32) PK(22, 64)
        for (int k = 0; k < 2; k++)
            if (n == "subpriv21_" + std::to_string(k)) ek.subprivksklvl21["subprivksk4cb_" + std::to_string(k)] = make<SubsetPrivateKeySwitchingKey<lvl21param>, 32>(n);
        if (n == "rai01") make<BootstrappingKeyRAINTT<lvl01param>, 32>(n);
        if (n == "ahk1") make<AnnihilateKey<lvl1param>, 32>(n);
        if (n == "ahk2") make<AnnihilateKey<lvl2param>, 64>(n);
        if (n == "relin1") make<relinKeyFFT<lvl1param>, 32>(n);
        if (n == "half1") make<HalfTRGSWFFT<lvl1param>, 32>(n);
        if (n == "ring11") make<TLWE2TRLWEIKSKey<lvl11param>, 32>(n);
        if (n == "priv1") make<PrivateKeySwitchingKey<lvl11param>, 32>(n);
        if (n == "secret") {
            fills[n] = [this] {
                Rng r("secret" + set);
                auto key = [&](auto &k) {
                    for (auto &x : k) x = static_cast<std::remove_reference_t<decltype(x)>>(r.range(-1, 1));
                };
                for (auto &x : sk->key.lvl0) x = r.bit();
                for (auto &x : sk->key.lvlhalf) x = r.bit();
                key(sk->key.lvl1), key(sk->key.lvl2);
            };
            fills[n]();
            parts[n] = {sk.get(), [this] { return cdig(sk->key.lvl0, cdig(sk->key.lvlhalf, cdig(sk->key.lvl1, cdig(sk->key.lvl2)))); }};
        }
        if (!parts.count(n)) std::fprintf(stderr, "unknown key %s\n", n.c_str()), std::exit(91);
    }
    void become(const std::string &s)  // other contents at the same place
    {
        set = s;
        for (auto &[n, f] : fills) f();
    }
    template <class T>
    const T &get(const std::string &n) const
    {
        return *static_cast<const T *>(own.at(n).get());
    }
    void report(std::vector<std::string> &out, const std::string &how)
    {
        for (const auto &[n, p] : parts) out.push_back(Ev("key").s("name", set + n).s("dig", hex(p.dig())).s("how", how).str());
    }
};

// ------------------------------------------------------------ operations --
// a result between two stretches of memory that are not its
template <class T>
struct alignas(64) Fenced {
    std::array<uint8_t, 256> before;
    alignas(64) T x;
    std::array<uint8_t, 256> behind;
};
struct Ctx {
    Regs &me, &sh;
    const Keys &k;
    std::string who;
    int d, a, b, c;
    Rng &r;  // rubbish in the destination
    std::function<void()> go;
    std::vector<std::string> innames, ins, outnames, outs;
    std::vector<std::function<std::string()>> again, commit;
    std::vector<std::function<bool()>> fence;
    template <class T>
    const T &in(std::array<T, R> Regs::*pool, const char *name, int i)
    {
        T &x = i < R ? (me.*pool)[i] : (sh.*pool)[i - R];
        innames.push_back((i < R ? who : std::string("S")) + ":" + name + "." + std::to_string(i % R));
        ins.push_back(hex(cdig(x)));
        again.push_back([&x] { return hex(cdig(x)); });
        return x;
    }
    template <class T>
    T &out(std::array<T, R> Regs::*pool, const char *name, int i)
    {
        auto f = std::shared_ptr<Fenced<T>>(big<Fenced<T>>());
        f->before.fill(0x3C), f->behind.fill(0xC3);
        auto p = std::shared_ptr<T>(f, &f->x);
        rubbishall(*p, r, 32);
        fence.push_back([f] {
            return std::all_of(f->before.begin(), f->before.end(), [](uint8_t b) { return b == 0x3C; }) &&
                   std::all_of(f->behind.begin(), f->behind.end(), [](uint8_t b) { return b == 0xC3; });
        });
        outnames.push_back(who + ":" + name + "." + std::to_string(i % R));
        T &dst = (me.*pool)[i % R];
        commit.push_back([p, &dst] { dst = *p; return hex(cdig(dst)); });
        return *p;
    }
    const EvalKey &ek() const { return k.ek; }
};
struct Op {
    std::string name, group;
    std::vector<std::string> keys;
    std::function<void(Ctx &)> f;
};
#define IN(pool, i) c.in(&Regs::pool, #pool, c.i)
#define OUT(pool) c.out(&Regs::pool, #pool, c.d)

// encrypt, then read the plaintext back
template <class P>
void enct(auto &d, const auto &x, const Key<P> &key)
{
    d = {};
    for (int i = 0; i < 16; i++) {
        d[i] = tlweSymDecrypt<P>(tlweSymEncrypt<P>(x[i] & 1 ? P::μ : -P::μ, key), key);
        const typename P::T m = static_cast<typename P::T>(x[i + 16] & 3) << (std::numeric_limits<typename P::T>::digits - 3);
        d[i + 16] = static_cast<typename P::T>(tlweSymPhase<P>(tlweSymEncrypt<P>(m, key), key) + (static_cast<typename P::T>(1) << (std::numeric_limits<typename P::T>::digits - 4))) >> (std::numeric_limits<typename P::T>::digits - 3);
    }
}
template <class P>
void encr(auto &d, const auto &x, const Key<P> &key)
{
    auto m = big<Polynomial<P>>();
    for (int i = 0; i < (int)P::n; i++) (*m)[i] = x[i] & 1;
    const auto a = trlweSymIntDecrypt<P>(trlweSymIntEncrypt<P>(*m, key), key);
    for (int i = 0; i < (int)P::n; i++) (*m)[i] = x[i] & 2 ? P::μ : -P::μ;
    const auto b = trlweSymDecrypt<P>(trlweSymEncrypt<P>(*m, key), key);
    for (int i = 0; i < (int)P::n; i++) d[i] = 2 * a[i] + b[i];
}
template <class P>
void encg(auto &d, const auto &x, const Key<P> &key)
{
    auto m = big<Polynomial<P>>();
    for (int i = 0; i < (int)P::n; i++) (*m)[i] = x[i] & 1;
    constexpr int sh = std::numeric_limits<typename P::T>::digits - P::l * P::Bgbit;
    const auto g = trgswSymEncrypt<P>(*m, key);
    d = {};
    for (const auto &row : g) {
        const auto p = trlwePhase<P>(row, key);
        for (int i = 0; i < (int)P::n; i++) d[i] = d[i] * 31 + static_cast<typename P::T>((p[i] + (static_cast<typename P::T>(1) << (sh - 1))) >> sh);
    }
}

std::vector<Op> table()
{
    std::vector<Op> v;
    auto add = [&](const std::string &n, const std::string &g, std::vector<std::string> k, std::function<void(Ctx &)> f) { v.push_back({n, g, k, f}); };
    // gates
#define TWO(N, pool, cb, group, ...)                                   \
    add(N "_" cb, group, {__VA_ARGS__}, [](Ctx &c) {                   \
        const auto &a = IN(pool, a), &b = IN(pool, b);                 \
        auto &d = OUT(pool);                                           \
        c.go();
#define END })
#define GATES(NAME, g)                                                                                                                       \
    TWO(#NAME, t1, "10_01", g, "iks10", "fft01") Hom##NAME<lvl10param, lvl01param, lvl1param::μ>(d, a, b, c.ek()); END;                       \
    TWO(#NAME, t0, "01_10", g, "iks10", "fft01") Hom##NAME<lvl01param, lvl1param::μ, lvl10param>(d, a, b, c.ek()); END
    GATES(NAND, "gate"); GATES(NOR, "gate2"); GATES(XNOR, "gate2"); GATES(AND, "gate2"); GATES(OR, "gate2"); GATES(XOR, "gate"); GATES(ANDNY, "gate2"); GATES(ANDYN, "gate2"); GATES(ORNY, "gate2"); GATES(ORYN, "gate2");
    TWO("NAND", t1, "1h_h1", "half", "iks1h", "ffth1") HomNAND<lvl1hparam, lvlh1param, lvl1param::μ>(d, a, b, c.ek()); END;
    TWO("XOR", th, "h1_1h", "half", "iks1h", "ffth1") HomXOR<lvlh1param, lvl1param::μ, lvl1hparam>(d, a, b, c.ek()); END;
    TWO("NAND", t2, "20_02", "two", "iks20", "fft02") HomNAND<lvl20param, lvl02param, lvl2param::μ>(d, a, b, c.ek()); END;
    TWO("XOR", t0, "02_20", "two", "iks20", "fft02") HomXOR<lvl02param, lvl2param::μ, lvl20param>(d, a, b, c.ek()); END;
    TWO("OR", t2, "2h_h2", "twohalf", "iks2h", "ffth2") HomOR<lvl2hparam, lvlh2param, lvl2param::μ>(d, a, b, c.ek()); END;
    add("MUX_lvl1", "gate", {"iks10", "fft01"}, [](Ctx &c) { const auto &x = IN(t1, a), &y = IN(t1, b), &z = IN(t1, c); auto &d = OUT(t1); c.go(); HomMUX<lvl1param>(d, x, y, z, c.ek()); });
    add("MUX_lvl0", "gate", {"iks10", "fft01"}, [](Ctx &c) { const auto &x = IN(t0, a), &y = IN(t0, b), &z = IN(t0, c); auto &d = OUT(t0); c.go(); HomMUX<lvl0param>(d, x, y, z, c.ek()); });
    add("NMUX_lvl1", "gate2", {"iks10", "fft01"}, [](Ctx &c) { const auto &x = IN(t1, a), &y = IN(t1, b), &z = IN(t1, c); auto &d = OUT(t1); c.go(); HomNMUX<lvl1param>(d, x, y, z, c.ek()); });
    add("MUXR_01", "gate", {"fft01"}, [](Ctx &c) { const auto &x = IN(t0, a), &y = IN(t0, b), &z = IN(t0, c); auto &d = OUT(r1); c.go(); HomMUXwoIKSandSE<lvl01param>(d, x, y, z, c.ek()); });
    add("MUXE_10_01", "gate2", {"iks10", "fft01"}, [](Ctx &c) { const auto &x = IN(t1, a), &y = IN(t1, b), &z = IN(t1, c); auto &d = OUT(r1); c.go(); HomMUXwoSE<lvl10param, lvl01param>(d, x, y, z, c.ek()); });
    add("MUXR_02", "two", {"fft02"}, [](Ctx &c) { const auto &x = IN(t0, a), &y = IN(t0, b), &z = IN(t0, c); auto &d = OUT(r2); c.go(); HomMUXwoSE<lvl02param>(d, x, y, z, c.ek()); });
    // free gates
    add("NOT_1", "light", {}, [](Ctx &c) { const auto &x = IN(t1, a); auto &d = OUT(t1); c.go(); HomNOT<lvl1param>(d, x); });
    add("NOT_2", "light", {}, [](Ctx &c) { const auto &x = IN(t2, a); auto &d = OUT(t2); c.go(); HomNOT<lvl2param>(d, x); });
    add("COPY_0", "light", {}, [](Ctx &c) { const auto &x = IN(t0, a); auto &d = OUT(t0); c.go(); HomCOPY<lvl0param>(d, x); });
    // bootstrapping
#define ONE(N, from, to, g, ...)                   \
    add(N, g, {__VA_ARGS__}, [](Ctx &c) {          \
        const auto &x = IN(from, a);               \
        auto &d = OUT(to);                         \
        c.go();
    ONE("GB_01_10", t0, t0, "gate", "iks10", "fft01") GateBootstrapping<lvl01param, lvl1param::μ, lvl10param>(d, x, c.ek()); END;
    ONE("GB_10_01", t1, t1, "gate", "iks10", "fft01") GateBootstrapping<lvl10param, lvl01param, lvl1param::μ>(d, x, c.ek()); END;
    ONE("GB_10_01_half", t1, t1, "gate", "iks10", "fft01") GateBootstrapping<lvl10param, lvl01param, lvl1param::μ / 2>(d, x, c.ek()); END;
    ONE("GBN_01_10", t0, t0, "ntt", "iks10", "ntt01") GateBootstrappingNTT<lvl01param, lvl1param::μ, lvl10param>(d, x, c.ek()); END;
    ONE("GBN_10_01", t1, t1, "ntt", "iks10", "ntt01") GateBootstrappingNTT<lvl10param, lvl01param, lvl1param::μ>(d, x, c.ek()); END;
#define LUT(N, from, to, p, g, KEY, F, BK)                                                 \
    add(N, g, {KEY}, [](Ctx &c) {                                                          \
        const auto &x = IN(from, a);                                                       \
        const auto &tv = IN(p, b);                                                         \
        auto &d = OUT(to);                                                                 \
        c.go();                                                                            \
        F;                                                                                 \
    })
    LUT("LUT_01", t0, t1, p1, "gate", "fft01", (GateBootstrappingTLWE2TLWEFFT<lvl01param>(d, x, c.ek().getbkfft<lvl01param>(), tv)), );
    LUT("LUT_h1", th, t1, p1, "half", "ffth1", (GateBootstrappingTLWE2TLWEFFT<lvlh1param>(d, x, c.ek().getbkfft<lvlh1param>(), tv)), );
    LUT("LUT_02", t0, t2, p2, "two", "fft02", (GateBootstrappingTLWE2TLWEFFT<lvl02param>(d, x, c.ek().getbkfft<lvl02param>(), tv)), );
    LUT("LUT_h2", th, t2, p2, "twohalf", "ffth2", (GateBootstrappingTLWE2TLWEFFT<lvlh2param>(d, x, c.ek().getbkfft<lvlh2param>(), tv)), );
    LUT("LUTN_01", t0, t1, p1, "ntt", "ntt01", (GateBootstrappingTLWE2TLWENTT<lvl01param>(d, x, c.ek().getbkntt<lvl01param>(), tv)), );
    LUT("LUTR_01", t0, t1, p1, "ntt", "rai01", (GateBootstrappingTLWE2TLWERAINTT<lvl01param>(d, x, c.k.get<BootstrappingKeyRAINTT<lvl01param>>("rai01"), tv)), );
    LUT("BR_01", t0, r1, p1, "gate", "fft01", (BlindRotate<lvl01param>(d, x, c.ek().getbkfft<lvl01param>(), tv)), );
    LUT("BRE_01", t0, r1, r1, "gate", "fft01", (BlindRotate<lvl01param>(d, x, c.ek().getbkfft<lvl01param>(), tv)), );
    LUT("BR4_02", t0, r2, p2, "two", "fft02", (BlindRotate<lvl02param, 4>(d, x, c.ek().getbkfft<lvl02param>(), tv)), );
    add("MANY2_01", "gate", {"fft01"}, [](Ctx &c) {
        const auto &x = IN(t0, a);
        const auto &tv = IN(p1, b);
        auto o = std::make_unique<std::array<TLWE<lvl1param>, 2>>();
        auto &d0 = c.out(&Regs::t1, "t1", c.d), &d1 = c.out(&Regs::t1, "t1", c.d + 1);
        (*o)[0] = d0, (*o)[1] = d1;
        c.go();
        GateBootstrappingManyLUT<lvl01param, 2>(*o, x, c.ek().getbkfft<lvl01param>(), tv);
        d0 = (*o)[0], d1 = (*o)[1];
    });
    // key switches
    ONE("IKS_10", t1, t0, "iks", "iks10") IdentityKeySwitch<lvl10param>(d, x, c.ek().getiksk<lvl10param>()); END;
    ONE("IKS_1h", t1, th, "iks", "iks1h") IdentityKeySwitch<lvl1hparam>(d, x, c.ek().getiksk<lvl1hparam>()); END;
    ONE("IKS_20", t2, t0, "iks", "iks20") IdentityKeySwitch<lvl20param>(d, x, c.ek().getiksk<lvl20param>()); END;
    ONE("IKS_2h", t2, th, "iks", "iks2h") IdentityKeySwitch<lvl2hparam>(d, x, c.ek().getiksk<lvl2hparam>()); END;
    ONE("IKS_21", t2, t1, "iks", "iks21") IdentityKeySwitch<lvl21param>(d, x, c.ek().getiksk<lvl21param>()); END;
    ONE("IKS_31", t3, t1, "iks", "iks31") IdentityKeySwitch<lvl31param>(d, x, c.ek().getiksk<lvl31param>()); END;
    ONE("IKSS_21", t2, t1, "iks", "sub21") SubsetIdentityKeySwitch<lvl21param>(d, x, c.ek().getsubiksk<lvl21param>()); END;
    add("IKSC_10", "iks", {"iks10"}, [](Ctx &c) {
        auto o = std::make_unique<std::array<TLWE<lvl0param>, 2>>();
        auto i = std::make_unique<std::array<TLWE<lvl1param>, 2>>();
        (*i)[0] = IN(t1, a), (*i)[1] = IN(t1, b);
        auto &d0 = c.out(&Regs::t0, "t0", c.d), &d1 = c.out(&Regs::t0, "t0", c.d + 1);
        (*o)[0] = d0, (*o)[1] = d1;
        c.go();
        CatIdentityKeySwitch<lvl10param, 2>(*o, *i, c.ek().getiksk<lvl10param>());
        d0 = (*o)[0], d1 = (*o)[1];
    });
    ONE("RING_11", t1, r1, "iks", "ring11") TLWE2TRLWEIKS<lvl11param>(d, x, c.k.get<TLWE2TRLWEIKSKey<lvl11param>>("ring11")); END;
    ONE("PRIV_11", t1, r1, "priv", "priv1") PrivKeySwitch<lvl11param>(d, x, c.k.get<PrivateKeySwitchingKey<lvl11param>>("priv1")); END;
    ONE("PRIV_21", t2, r1, "priv", "priv21_0") PrivKeySwitch<lvl21param>(d, x, c.ek().getprivksk<lvl21param>("privksk4cb_0")); END;
    ONE("SPRIV_21", t1, r1, "priv", "subpriv21_0") SubsetPrivKeySwitch<lvl21param>(d, x, c.ek().getsubprivksk<lvl21param>("subprivksk4cb_0")); END;
    // rings
    add("EXT_1", "ring", {}, [](Ctx &c) { const auto &x = IN(r1, a); const auto &g = IN(g1, b); auto &d = OUT(r1); c.go(); trgswfftExternalProduct<lvl1param>(d, x, g); });
    add("EXT_2", "ring", {}, [](Ctx &c) { const auto &x = IN(r2, a); const auto &g = IN(g2, b); auto &d = OUT(r2); c.go(); trgswfftExternalProduct<lvl2param>(d, x, g); });
    add("CMUX_1", "ring", {}, [](Ctx &c) { const auto &x = IN(r1, a), &y = IN(r1, b); const auto &g = IN(g1, c); auto &d = OUT(r1); c.go(); CMUXFFT<lvl1param>(d, g, x, y); });
    add("CMUX_2", "ring", {}, [](Ctx &c) { const auto &x = IN(r2, a), &y = IN(r2, b); const auto &g = IN(g2, c); auto &d = OUT(r2); c.go(); CMUXFFT<lvl2param>(d, g, x, y); });
    ONE("EXTRACT_1", r1, t1, "light") SampleExtractIndex<lvl1param>(d, x, 5 * c.b + 1); END;
    ONE("EXTRACT_2", r2, t2, "light") SampleExtractIndex<lvl2param>(d, x, 5 * c.b + 1); END;
    ONE("INV_1", t1, r1, "light") InvSampleExtractIndex<lvl1param>(d, x, 3 * c.b + 1); END;
    add("POLY_1", "ring", {}, [](Ctx &c) { const auto &x = IN(p1, a), &y = IN(p1, b); auto &d = OUT(p1); c.go(); PolyMul<lvl1param>(d, x, y); });
    add("POLY_2", "ring", {}, [](Ctx &c) { const auto &x = IN(p2, a), &y = IN(p2, b); auto &d = OUT(p2); c.go(); PolyMul<lvl2param>(d, x, y); });
    add("POLYN_1", "ring", {}, [](Ctx &c) { const auto &x = IN(p1, a), &y = IN(p1, b); auto &d = OUT(p1); c.go(); PolyMulNaive<lvl1param>(d, x, y); });
    ONE("XAI_1", p1, p1, "light") PolynomialMulByXai<lvl1param>(d, x, 290 * c.b + 7); END;
    ONE("XAI1_2", p2, p2, "light") PolynomialMulByXaiMinusOne<lvl2param>(d, x, 500 * c.b + 7); END;
    ONE("AUT_1", p1, p1, "light") Automorphism<lvl1param>(d, x, 2 * c.b + 3); END;
    ONE("EVAUTO_1", r1, r1, "auto", "ahk1") EvalAuto<lvl1param>(d, x, 2 * c.b + 3, c.k.get<AnnihilateKey<lvl1param>>("ahk1")[1]); END;
    ONE("EVAUTO_2", r2, r2, "auto", "ahk2") EvalAuto<lvl2param>(d, x, 2 * c.b + 3, c.k.get<AnnihilateKey<lvl2param>>("ahk2")[2]); END;
    ONE("ANNIH_1", r1, r1, "auto", "ahk1") AnnihilateKeySwitching<lvl1param>(d, x, c.k.get<AnnihilateKey<lvl1param>>("ahk1")); END;
    ONE("ANNIH_2", r2, r2, "auto", "ahk2") AnnihilateKeySwitching<lvl2param>(d, x, c.k.get<AnnihilateKey<lvl2param>>("ahk2")); END;
#define PACK(N, F, g)                                                                                                          \
    add(N, g, {"ahk1"}, [](Ctx &c) {                                                                                           \
        auto v = std::make_shared<std::vector<TLWE<lvl1param>>>();                                                             \
        for (int i : {c.a, c.b, c.c}) v->push_back(c.in(&Regs::t1, "t1", i));                                                  \
        for (int i = 0; i < 3; i++) c.again[i] = [v, i] { return hex(cdig((*v)[i])); };                                        \
        auto &d = OUT(r1);                                                                                                     \
        c.go();                                                                                                                \
        F<lvl1param>(d, *v, c.k.get<AnnihilateKey<lvl1param>>("ahk1"));                                                        \
    })
    PACK("PACK_1", TLWE2TRLWEPacking, "auto");
    PACK("PACKC_1", TLWE2TRLWEChengsPacking, "auto");
    // memory
    add("RAMUX_1", "ring", {}, [](Ctx &c) {
        auto mem = big<std::array<TRLWE<lvl1param>, 4>>();
        auto sel = big<std::array<TRGSWFFT<lvl1param>, 2>>();
        const int at[4] = {c.a, c.b, c.c, (c.a + 1) % (2 * R)};
        for (int i = 0; i < 4; i++) (*mem)[i] = c.in(&Regs::r1, "r1", at[i]);
        (*sel)[0] = IN(g1, a), (*sel)[1] = IN(g1, b);
        auto &d = OUT(r1);
        c.go();
        RAMUX<lvl1param, 2>(d, *sel, *mem);
    });
    add("UROM_1", "ring", {}, [](Ctx &c) {
        auto mem = big<std::array<TRLWE<lvl1param>, 4>>();
        auto sel = big<std::array<TRGSWFFT<lvl1param>, 4>>();
        const int at[4] = {c.a, c.b, c.c, (c.a + 1) % (2 * R)};
        for (int i = 0; i < 4; i++) (*mem)[i] = c.in(&Regs::r1, "r1", at[i]), (*sel)[i] = c.in(&Regs::g1, "g1", at[i]);
        auto &d = OUT(r1);
        c.go();
        UROMUX<lvl1param, 4, 2>(d, *sel, *mem);
    });
    add("LROM_1", "ring", {}, [](Ctx &c) {
        auto sel = big<std::array<TRGSWFFT<lvl1param>, 2>>();
        const auto &x = IN(r1, a);
        (*sel)[0] = IN(g1, b), (*sel)[1] = IN(g1, c);
        auto &d = OUT(t1);
        std::vector<TLWE<lvl1param>> res(256);
        for (auto &y : res) y = d;
        c.go();
        LROMUX<lvl1param, 2, 2>(res, *sel, x);
        for (int i = 0; i <= (int)lvl1param::n; i++) {  // all words in one
            d[i] = 0;
            for (int j = 0; j < 256; j++) d[i] = d[i] * 31 + res[j][i];
        }
    });
    add("WRITE_1", "ring", {}, [](Ctx &c) {
        auto sel = big<std::array<std::array<TRGSWFFT<lvl1param>, 2>, 2>>();
        const auto &w = IN(r1, a), &m = IN(r1, b);
        for (int i = 0; i < 2; i++) (*sel)[0][i] = c.in(&Regs::g1, "g1", (c.a + i) % (2 * R)), (*sel)[1][i] = c.in(&Regs::g1, "g1", (c.b + i) % (2 * R));
        auto &d = OUT(r1);
        c.go();
        RAMwriteBar<lvl1param, 2>(d, w, m, c.c % 4, *sel);
    });
    // products of messages
    add("BFV_1", "ring", {"relin1"}, [](Ctx &c) { const auto &x = IN(r1, a), &y = IN(r1, b); auto &d = OUT(r1); c.go(); TRLWEMult<lvl1param>(d, x, y, c.k.get<relinKeyFFT<lvl1param>>("relin1")); });
    add("TMULT_11", "priv", {"relin1", "priv1"}, [](Ctx &c) { const auto &x = IN(t1, a), &y = IN(t1, b); auto &d = OUT(t1); c.go(); TLWEMult<lvl11param>(d, x, y, c.k.get<relinKeyFFT<lvl1param>>("relin1"), c.k.get<PrivateKeySwitchingKey<lvl11param>>("priv1")); });
    // circuit bootstrapping
#define CBK "iks10", "fft02", "priv21_0", "priv21_1"
    ONE("CB_10_02_21", t1, g1, "cb", CBK) CircuitBootstrappingFFT<lvl10param, lvl02param, lvl21param>(d, x, c.ek()); END;
    ONE("CBI_10_02_21", t1, g1, "cb", CBK) CircuitBootstrappingFFTInv<lvl10param, lvl02param, lvl21param>(d, x, c.ek()); END;
    ONE("CB_02_21", t0, g1, "cb", CBK) CircuitBootstrappingFFT<lvl02param, lvl21param>(d, x, c.ek()); END;
    ONE("CBS_10_02_21", t1, g1, "cb", "iks10", "fft02", "sub21", "subpriv21_0", "subpriv21_1") CircuitBootstrappingSubFFT<lvl10param, lvl02param, lvl21param>(d, x, c.ek()); END;
    add("CBW_10_02_21", "cb", {CBK}, [](Ctx &c) { const auto &x = IN(t1, a); auto &d = c.out(&Regs::g1, "g1", c.d), &e = c.out(&Regs::g1, "g1", c.d + 1); c.go(); CircuitBootstrappingFFTwithInv<lvl10param, lvl02param, lvl21param>(d, e, x, c.ek()); });
    // digits
    add("DIGITS", "iks", {"iks31", "iks1h", "ffth1"}, [](Ctx &c) {
        const auto &x = IN(t3, a);
        auto o = std::make_unique<std::array<TLWE<lvl1param>, 4>>();
        TLWE<lvl1param> *p[4];
        for (int i = 0; i < 4; i++) p[i] = &c.out(&Regs::t1, "t1", i), (*o)[i] = *p[i];
        c.go();
        HomDecomp<lvl31param, lvl1hparam, lvlh1param, 4, 4>(*o, x, c.ek().getiksk<lvl31param>(), c.ek().getiksk<lvl1hparam>(), c.ek().getbkfft<lvlh1param>());
        for (int i = 0; i < 4; i++) *p[i] = (*o)[i];
    });
    // decryption
    add("PHASE_1", "ring", {"secret"}, [](Ctx &c) { const auto &x = IN(r1, a); auto &d = OUT(p1); c.go(); d = trlwePhase<lvl1param>(x, c.k.sk->key.lvl1); });
    add("PHASE_2", "ring", {"secret"}, [](Ctx &c) { const auto &x = IN(r2, a); auto &d = OUT(p2); c.go(); d = trlwePhase<lvl2param>(x, c.k.sk->key.lvl2); });
    ONE("PHASET_1", t1, p1, "light", "secret") d = {}; d[0] = tlweSymPhase<lvl1param>(x, c.k.sk->key.lvl1); d[1] = tlweSymDecrypt<lvl1param>(x, c.k.sk->key.lvl1); d[2] = tlweSymIntDecrypt<lvl1param>(x, c.k.sk->key.lvl1); END;
    ONE("PHASET_2", t2, p2, "light", "secret") d = {}; d[0] = tlweSymPhase<lvl2param>(x, c.k.sk->key.lvl2); d[1] = tlweSymDecrypt<lvl2param>(x, c.k.sk->key.lvl2); d[2] = tlweSymIntDecrypt<lvl2param>(x, c.k.sk->key.lvl2); END;
    ONE("PHASET_0", t0, p1, "light", "secret") d = {}; d[0] = tlweSymPhase<lvl0param>(x, c.k.sk->key.lvl0); d[1] = tlweSymDecrypt<lvl0param>(x, c.k.sk->key.lvl0); END;
    ONE("DECR_1", r1, p1, "ring", "secret") const auto o = trlweSymDecrypt<lvl1param>(x, c.k.sk->key.lvl1); for (size_t i = 0; i < o.size(); i++) d[i] = o[i]; END;
    ONE("DECI_1", r1, p1, "ring", "secret") d = trlweSymIntDecrypt<lvl1param>(x, c.k.sk->key.lvl1); END;
    ONE("DECI_2", r2, p2, "ring", "secret") d = trlweSymIntDecrypt<lvl2param>(x, c.k.sk->key.lvl2); END;
    add("BOOTSDEC", "light", {"secret"}, [](Ctx &c) {
        auto v = std::make_shared<std::vector<TLWE<lvl1param>>>();
        for (int i : {c.a, c.b, c.c}) v->push_back(c.in(&Regs::t1, "t1", i));
        auto &d = OUT(p1);
        c.go();
        const auto o = bootsSymDecrypt<lvl1param>(*v, *c.k.sk);
        d = {};
        for (size_t i = 0; i < o.size(); i++) d[i] = o[i];
        for (int i = 0; i < 3; i++) c.again[i] = [v, i] { return hex(cdig((*v)[i])); };
    });
    add("ONE_1", "light", {}, [](Ctx &c) { auto &d = OUT(t1); c.go(); HomCONSTANTONE<lvl1param>(d); });
    add("ZERO_0", "light", {}, [](Ctx &c) { auto &d = OUT(t0); c.go(); HomCONSTANTZERO<lvl0param>(d); });
    // the other multiplexers
    add("EXSWMUX", "gate", {"iks10", "fft01"}, [](Ctx &c) { const auto &x = IN(r1, a), &y = IN(r1, b), &z = IN(r1, c); auto &d = OUT(r1); c.go(); ExtractSwitchAndHomMUX(d, x, y, z, c.ek()); });
    add("MUXS_01_10", "gate2", {"iks10", "fft01"}, [](Ctx &c) { const auto &x = IN(t0, a), &y = IN(t0, b), &z = IN(t0, c); auto &d = OUT(r1); c.go(); HomMUXwoSE<lvl01param>(d, x, y, z, c.ek()); });
    // the other transforms
    add("EXTN_1", "ntt", {"ntt01"}, [](Ctx &c) { const auto &x = IN(r1, a); auto &d = OUT(r1); c.go(); trgswnttExternalProduct<lvl1param>(d, x, c.ek().getbkntt<lvl01param>()[c.b]); });
    add("EXTR_1", "ntt", {"rai01"}, [](Ctx &c) { const auto &x = IN(r1, a); auto &d = OUT(r1); c.go(); trgswrainttExternalProduct<lvl1param>(d, x, c.k.get<BootstrappingKeyRAINTT<lvl01param>>("rai01")[c.b]); });
    add("HALF_1", "ring", {"half1"}, [](Ctx &c) { const auto &x = IN(p1, a); auto &d = OUT(r1); c.go(); halftrgswfftExternalProduct<lvl1param>(d, x, c.k.get<HalfTRGSWFFT<lvl1param>>("half1")); });
    add("STEP_1", "gate", {"fft01"}, [](Ctx &c) { const auto &x = IN(r1, a); auto &d = OUT(r1); d = x; c.go(); CMUXFFTwithPolynomialMulByXaiMinusOne<lvl01param>(d, c.ek().getbkfft<lvl01param>()[c.c], 331 * c.c + 5); });
    add("STEP_2", "two", {"fft02"}, [](Ctx &c) { const auto &x = IN(r2, a); auto &d = OUT(r2); d = x; c.go(); CMUXFFTwithPolynomialMulByXaiMinusOne<lvl02param>(d, c.ek().getbkfft<lvl02param>()[c.c], 331 * c.c + 5); });
    ONE("FD_1", p1, p1, "ring") auto f = big<PolynomialInFD<lvl1param>>(); TwistIFFT<lvl1param>(*f, x); TwistFFT<lvl1param>(d, *f); END;
    ONE("NTT_1", p1, p1, "ring") auto f = big<PolynomialNTT<lvl1param>>(); TwistINTT<lvl1param>(*f, x); TwistNTT<lvl1param>(d, *f); END;
    add("POLYR_1", "ring", {}, [](Ctx &c) { const auto &x = IN(p1, a), &y = IN(p1, b); auto &d = OUT(p1); c.go(); PolyMulRescaleUnsigned<lvl1param>(d, x, y); });
    add("DECOMP_1", "light", {}, [](Ctx &c) { const auto &x = IN(p1, a); auto &d = OUT(p1); c.go(); auto o = big<DecomposedPolynomial<lvl1param>>(); Decomposition<lvl1param>(*o, x); for (int i = 0; i < (int)lvl1param::n; i++) { d[i] = 0; for (const auto &p : *o) d[i] = d[i] * 31 + p[i]; } });
    add("DECOMP_2", "light", {}, [](Ctx &c) { const auto &x = IN(p2, a); auto &d = OUT(p2); c.go(); auto o = big<DecomposedPolynomial<lvl2param>>(); Decomposition<lvl2param>(*o, x); for (int i = 0; i < (int)lvl2param::n; i++) { d[i] = 0; for (const auto &p : *o) d[i] = d[i] * 31 + p[i]; } });
    LUT("BRN_01", t0, r1, p1, "ntt", "ntt01", (BlindRotate<lvl01param>(d, x, c.ek().getbkntt<lvl01param>(), tv)), );
    LUT("BRE_02", t0, r2, r2, "two", "fft02", (BlindRotate<lvl02param>(d, x, c.ek().getbkfft<lvl02param>(), tv)), );
    // the parts of a product
    add("PROD3_1", "ring", {}, [](Ctx &c) {
        const auto &x = IN(r1, a), &y = IN(r1, b);
        auto &d = OUT(p1);
        c.go();
        auto o = big<TRLWE3<lvl1param>>();
        TRLWEMultWithoutRelinerization<lvl1param>(*o, x, y);
        for (int i = 0; i < (int)lvl1param::n; i++) d[i] = (*o)[0][i] * 961 + (*o)[1][i] * 31 + (*o)[2][i];
    });
    add("RELIN_1", "ring", {"relin1"}, [](Ctx &c) {
        const auto &x = IN(r1, a);
        const auto &y = IN(p1, b);
        auto o = big<TRLWE3<lvl1param>>();
        (*o)[0] = x[0], (*o)[1] = x[1], (*o)[2] = y;
        auto &d = OUT(r1);
        c.go();
        Relinearization<lvl1param>(d, *o, c.k.get<relinKeyFFT<lvl1param>>("relin1"));
    });
    // the other circuit bootstrappings
#define PLAIN(CALL) auto o = big<TRGSW<lvl1param>>(); CALL; d = ApplyFFT2trgsw<lvl1param>(*o)
    ONE("CBP_10_02_21", t1, g1, "cb2", CBK) PLAIN((CircuitBootstrapping<lvl10param, lvl02param, lvl21param>(*o, x, c.ek()))); END;
    ONE("CBP_02_21", t0, g1, "cb2", CBK) PLAIN((CircuitBootstrapping<lvl02param, lvl21param>(*o, x, c.ek()))); END;
    ONE("CBSP_10_02_21", t1, g1, "cb2", "iks10", "fft02", "sub21", "subpriv21_0", "subpriv21_1") PLAIN((CircuitBootstrappingSub<lvl10param, lvl02param, lvl21param>(*o, x, c.ek()))); END;
    ONE("CBI_02_21", t0, g1, "cb2", CBK) CircuitBootstrappingFFTInv<lvl02param, lvl21param>(d, x, c.ek()); END;
    add("CBW_02_21", "cb2", {CBK}, [](Ctx &c) { const auto &x = IN(t0, a); auto &d = c.out(&Regs::g1, "g1", c.d), &e = c.out(&Regs::g1, "g1", c.d + 1); c.go(); CircuitBootstrappingFFTwithInv<lvl02param, lvl21param>(d, e, x, c.ek()); });
    add("CB_10_02_22", "cb2", {"iks10", "fft02", "priv22_0", "priv22_1"}, [](Ctx &c) { const auto &x = IN(t1, a); auto &d = OUT(g2); c.go(); CircuitBootstrappingFFT<lvl10param, lvl02param, lvl22param>(d, x, c.ek()); });
    // encryption: masks and noise differ from call to call, the plaintext does not
    ONE("ENCT_0", p1, p1, "light", "secret") enct<lvl0param>(d, x, c.k.sk->key.lvl0); END;
    ONE("ENCT_h", p1, p1, "light", "secret") enct<lvlhalfparam>(d, x, c.k.sk->key.lvlhalf); END;
    ONE("ENCT_1", p1, p1, "light", "secret") enct<lvl1param>(d, x, c.k.sk->key.lvl1); END;
    ONE("ENCT_2", p2, p2, "light", "secret") enct<lvl2param>(d, x, c.k.sk->key.lvl2); END;
    ONE("ENCR_1", p1, p1, "ring", "secret") encr<lvl1param>(d, x, c.k.sk->key.lvl1); END;
    ONE("ENCR_2", p2, p2, "ring", "secret") encr<lvl2param>(d, x, c.k.sk->key.lvl2); END;
    ONE("ENCG_1", p1, p1, "ring", "secret") encg<lvl1param>(d, x, c.k.sk->key.lvl1); END;
    ONE("ENCG_2", p2, p2, "ring", "secret") encg<lvl2param>(d, x, c.k.sk->key.lvl2); END;
    ONE("ENCB_1", p1, p1, "light", "secret") std::vector<uint8_t> v(64); for (int i = 0; i < 64; i++) v[i] = x[i] & 1; const auto ct = bootsSymEncrypt<lvl1param>(v, *c.k.sk); d = {}; for (int i = 0; i < 64; i++) d[i] = tlweSymDecrypt<lvl1param>(ct[i], c.k.sk->key.lvl1); END;
    // gadget samples in their other forms
    ONE("FORMS_1", r1, p1, "ring")
        auto g = big<TRGSW<lvl1param>>();
        for (size_t i = 0; i < g->size(); i++) for (int j = 0; j < 2; j++) for (int q = 0; q < (int)lvl1param::n; q++) (*g)[i][j][q] = x[j][q] * (2 * i + 1);
        const uint64_t q[3] = {cdig(ApplyNTT2trgsw<lvl1param>(*g)), cdig(ApplyRAINTT2trgsw<lvl1param>(*g)), cdig(TRGSW2NTT<lvl1param>(*g))};
        d = {};
        for (int i = 0; i < 3; i++) d[2 * i] = q[i], d[2 * i + 1] = q[i] >> 32;
    END;
    ONE("ONEG_2", p2, p1, "light") const uint64_t q = cdig(TRGSWFFTOneGen<lvl1param>()); d = {}; d[0] = q, d[1] = q >> 32; END;
    add("POLYNR_1", "ring", {}, [](Ctx &c) { const auto &x = IN(p1, a), &y = IN(p1, b); auto &d = OUT(p1); c.go(); PolyMulNaieveRescaleUnsigned<lvl1param>(d, x, y); });
    ONE("FDR_1", p1, p1, "ring") auto f = big<PolynomialInFD<lvl1param>>(); TwistIFFTUInt<lvl1param>(*f, x); TwistFFTrescale<lvl1param>(d, *f); END;
    return v;
}

// -------------------------------------------------------------- evaluation --
// one step; the event
std::string eval(const Op &op, Regs &me, Regs &sh, const Keys &k, const std::string &who, int d, int a, int b, int c, Rng &r, const std::string &how, std::function<void()> go = [] {})
{
    Ctx x{me, sh, k, who, d, a, b, c, r, go, {}, {}, {}, {}, {}, {}, {}};
    op.f(x);
    std::vector<std::string> after;
    for (auto &f : x.again) after.push_back(f());
    bool inside = true;
    for (auto &f : x.fence) inside = inside && f();
    for (auto &f : x.commit) x.outs.push_back(f());
    auto is = [&](const char *p) { return op.name.starts_with(p); };
    const int par = is("EXTRACT") || is("INV") || is("XAI") || is("AUT") || is("EVAUTO") || is("EXTN") || is("EXTR_") ? b : is("WRITE") ? c % 4 : is("STEP") ? c : 0;
    return Ev("eval").s("op", op.name + " " + std::to_string(par) + (k.set.empty() || op.keys.empty() ? "" : " with " + k.set))
        .s("how", how + " by " + who).ss("innames", x.innames).ss("ins", x.ins).ss("after", after).ss("outnames", x.outnames).ss("outs", x.outs).b("inside", inside).str();
}
struct Bench {
    std::vector<std::string> out;
    Keys k;
    std::unique_ptr<Regs> sh = big<Regs>();
    std::vector<std::unique_ptr<Regs>> start, me;
    std::vector<Rng> junk;
    int n;
    explicit Bench(int n, const std::string &salt) : n(n)
    {
        Rng r(salt);
        sh->fill(r);
        for (int i = 0; i < n; i++) {
            start.push_back(big<Regs>()), me.push_back(big<Regs>());
            start[i]->fill(r);
            junk.emplace_back(salt + std::to_string(i) + std::to_string(getpid()));
        }
        out.push_back(snap(*sh, "S", "regs", "start"));
    }
    void reset()
    {
        for (int i = 0; i < n; i++) {
            *me[i] = *start[i];
            out.push_back(snap(*me[i], std::to_string(i), "regs", "start"));
        }
    }
    void look(const std::string &how)
    {
        out.push_back(snap(*sh, "S", "look", how));
        for (int i = 0; i < n; i++) out.push_back(snap(*me[i], std::to_string(i), "look", how));
        k.report(out, how);
    }
};
constexpr int T = 8;

// every operation in lock step by all threads, operands of their own
void lock(Bench &x, const std::vector<Op> &ops, Workers &w, int reps, bool alone, bool together)
{
    std::string how = "alone";
    for (int pass = alone ? 0 : 1; pass < (together ? 1 + reps : 1); pass++) {
        x.reset();
        for (const auto &op : ops) {
            if (pass == 0) {
                for (int i = 0; i < x.n; i++)
                    for (int rep = 0; rep < 2; rep++)
                        x.out.push_back(eval(op, *x.me[i], *x.sh, x.k, std::to_string(i), 3, 2 * rep, rep ? 4 : 1, rep ? 1 : 5, x.junk[i], how));
                continue;
            }
            how = "together";
            std::vector<std::vector<std::string>> o(x.n);
            Barrier bar(x.n);
            for (int i = 0; i < x.n; i++)
                w.post(i, [&, i] {
                    for (int rep = 0; rep < 2; rep++)
                        o[i].push_back(eval(op, *x.me[i], *x.sh, x.k, std::to_string(i), 3, 2 * rep, rep ? 4 : 1, rep ? 1 : 5, x.junk[i], how, [&] { if (rep == 0) bar.wait(); else std::this_thread::yield(); }));
                });
            for (int i = 0; i < x.n; i++) w.wait(i);
            for (auto &v : o)
                for (auto &e : v) x.out.push_back(e);
        }
        x.look(how);
    }
}

// programs of the specification, one per thread
void mixed(Bench &x, const std::map<std::string, Op> &ops, const std::vector<Rec> &prog, Workers &w)
{
    std::vector<std::vector<const Rec *>> p(x.n);
    for (const auto &s : prog)
        if (s.at("op") != "begin") p[num(s, "th")].push_back(&s);
    for (auto &q : p)
        for (auto *s : q)
            for (const auto &n : ops.at(s->at("op")).keys) x.k.need(n);
    auto step = [&](int i, const Rec &s, const std::string &how) { return eval(ops.at(s.at("op")), *x.me[i], *x.sh, x.k, std::to_string(i), num(s, "d"), num(s, "a"), num(s, "b"), num(s, "c"), x.junk[i], how); };
    for (const std::string how : {"alone", "together", "freshly", "together"}) {
        x.reset();
        std::vector<std::vector<std::string>> o(x.n);
        if (how == "alone")
            for (int i = 0; i < x.n; i++)
                for (auto *s : p[i]) o[i].push_back(step(i, *s, how));
        else if (how == "together") {
            Barrier bar(x.n);
            for (int i = 0; i < x.n; i++)
                w.post(i, [&, i] {
                    bar.wait();
                    for (auto *s : p[i]) o[i].push_back(step(i, *s, how));
                });
            for (int i = 0; i < x.n; i++) w.wait(i);
        }
        else {  // a new thread for every operation, some at once
            size_t most = 0;
            for (auto &q : p) most = std::max(most, q.size());
            for (size_t j = 0; j < most; j++) {
                std::vector<std::thread> th;
                for (int i = 0; i < x.n; i++)
                    if (j < p[i].size()) th.emplace_back([&, i] { o[i].push_back(step(i, *p[i][j], how)); });
                for (auto &t : th) t.join();
            }
        }
        for (auto &v : o)
            for (auto &e : v) x.out.push_back(e);
        x.look(how);
    }
}

// two key sets: what an operation gives follows from the set it is handed, not
// from the one that was used before, nor from where the keys are
std::vector<Op> keyed(const std::vector<Op> &ops, const std::string &s)
{
    std::vector<Op> v;
    for (const auto &o : ops) {
        const bool heavy = o.group == "cb" || o.group == "cb2" || o.group == "two" || o.group == "twohalf" || o.group == "priv" || o.group == "ntt";
        if (!o.keys.empty() && heavy == (s == "keys1") && o.name.find("_22") == std::string::npos && (thorough() || o.group != "gate2")) v.push_back(o);
    }
    return v;
}
struct KeyBench : Bench {
    KeyBench(const std::string &set) : Bench(2, "keys")
    {
        k.set = set;
        *start[1] = *start[0];
    }
    void need(Keys &q, const std::vector<Op> &ops)
    {
        for (const auto &o : ops)
            for (const auto &n : o.keys) q.need(n);
    }
    std::string go(const Op &op, int i, const Keys &q, const std::string &how, std::function<void()> f = [] {})
    {
        return eval(op, *me[i], *sh, q, std::to_string(i), 3, 0, 1, 5, junk[i], how, f);
    }
    void pass(const std::vector<Op> &ops, const Keys &q, const std::string &how)
    {
        for (const auto &op : ops) {
            reset();
            out.push_back(go(op, 0, q, how));
        }
    }
};

int main(int argc, char **argv)
{
    const std::string s = argv[1];
    const auto ops = table();
    if (s == "keychild") {  // argv: keychild file section
        KeyBench x("B ");
        const auto mine = keyed(ops, argv[3]);
        x.need(x.k, mine);
        x.pass(mine, x.k, "alone");
        x.k.report(x.out, "alone");
        FILE *f = std::fopen(argv[2], "w");
        for (const auto &e : x.out) std::fwrite(e.data(), 1, e.size(), f);
        std::fclose(f);
        return 0;
    }
    if (s == "coldchild") {  // argv: coldchild file op mode
        std::vector<Op> mine;
        for (const auto &o : ops)
            if (o.name == argv[3]) mine.push_back(o);
        Bench x(6, "cold");
        for (const auto &o : mine)
            for (const auto &n : o.keys) x.k.need(n);
        {
            Workers w(x.n);
            lock(x, mine, w, 1, false, true);
        }
        FILE *f = std::fopen(argv[2], "w");
        for (const auto &e : x.out) std::fwrite(e.data(), 1, e.size(), f);
        std::fclose(f);
        return 0;
    }
    FILE *f = std::fopen(argv[2], "w");
    auto dump = [&](const std::vector<std::string> &v) {
        for (const auto &e : v) std::fwrite(e.data(), 1, e.size(), f);
    };
    if (s.starts_with("lock")) {
        Bench x(T, s);
        std::vector<Op> mine;
        for (const auto &o : ops)
            if ("lock" + o.group == s) mine.push_back(o);
        for (const auto &o : mine)
            for (const auto &n : o.keys) x.k.need(n);
        Workers w(T);
        lock(x, mine, w, pick(2, 12), true, true);
        dump(x.out);
    }
    if (s.starts_with("mixed")) {
        std::map<std::string, Op> by;
        for (const auto &o : ops) by[o.name] = o;
        const auto prog = readprog(argv[3]);
        std::vector<std::vector<Rec>> all;
        for (const auto &r : prog) {
            if (r.at("op") == "begin") all.push_back({});
            else all.back().push_back(r);
        }
        const int part = s.back() - '0';
        for (size_t i = part; i < all.size(); i += 4) {
            Bench x(4, s + std::to_string(i));
            Workers w(4);
            mixed(x, by, all[i], w);
            dump(x.out);
        }
    }
    if (s.starts_with("keys")) {
        const std::string file = std::string(argv[2]) + ".child";
        const auto mine = keyed(ops, s);
        const pid_t p = fork();  // set B in a process that never sees another
        if (p == 0) {
            execl("/proc/self/exe", argv[0], "keychild", file.c_str(), s.c_str(), (char *)nullptr);
            _exit(92);
        }
        int st = 0;
        waitpid(p, &st, 0);
        if (st != 0) return 93;
        std::ifstream in(file);
        std::string line;
        while (std::getline(in, line)) dump({line + "\n"});
        std::remove(file.c_str());
        KeyBench x("A ");  // set A before this process sees another
        x.need(x.k, mine);
        x.pass(mine, x.k, "first set");
        Keys kb;
        kb.set = "B ";
        x.need(kb, mine);
        x.pass(mine, kb, "second set");
        x.pass(mine, x.k, "first set again");
        Workers w(2);
        for (int rep = 0; rep < pick(1, 8); rep++)
            for (const auto &op : mine) {
                x.reset();
                Barrier bar(2);
                std::string o[2];
                for (int i = 0; i < 2; i++) w.post(i, [&, i] { o[i] = x.go(op, i, i ? kb : x.k, "both sets at once", [&] { bar.wait(); }); });
                for (int i = 0; i < 2; i++) w.wait(i), x.out.push_back(o[i]);
            }
        x.k.report(x.out, "used");
        kb.report(x.out, "used");
        x.k.become("B ");
        x.pass(mine, x.k, "replaced in place");
        x.k.report(x.out, "replaced in place");
        dump(x.out);
    }
    if (s.starts_with("cold")) {  // processes whose first operations run at once
        const std::string file = std::string(argv[2]) + ".child";
        const bool second = s == "cold1";
        std::vector<Op> mine;
        for (const auto &o : ops) {
            const bool heavy = o.group == "cb" || o.group == "cb2" || o.group == "two" || o.group == "twohalf" || o.group == "priv" || o.group == "ntt";
            if (second == heavy && (thorough() || o.group != "gate2")) mine.push_back(o);
        }
        {
            Bench x(6, "cold");
            for (const auto &o : mine)
                for (const auto &n : o.keys) x.k.need(n);
            Workers w(1);
            lock(x, mine, w, 1, true, false);
            dump(x.out);
        }
        for (const auto &o : mine)
            for (int rep = 0; rep < (second ? pick(1, 3) : pick(2, 8)); rep++) {
                const pid_t p = fork();
                if (p == 0) {
                    execl("/proc/self/exe", argv[0], "coldchild", file.c_str(), o.name.c_str(), (char *)nullptr);
                    _exit(92);
                }
                int st = 0;
                waitpid(p, &st, 0);
                if (st != 0) return 93;
                std::ifstream in(file);
                std::string line;
                while (std::getline(in, line)) dump({line + "\n"});
            }
        std::remove(file.c_str());
    }
    std::fclose(f);
    return 0;
}
