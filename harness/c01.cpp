// C01: encryption and decryption at every level and form.
#include "common.hpp"
using namespace vf;

template <class P>
struct Name;
template <> struct Name<lvl0param> { static constexpr const char *v = "lvl0"; };
template <> struct Name<lvlhalfparam> { static constexpr const char *v = "lvlhalf"; };
template <> struct Name<lvl1param> { static constexpr const char *v = "lvl1"; };
template <> struct Name<lvl2param> { static constexpr const char *v = "lvl2"; };
template <> struct Name<lvl3param> { static constexpr const char *v = "lvl3"; };
#define LV Name<P>::v

template <class P>
void putkey(Trace &t, const Key<P> &k)
{
    t.put(Ev("key").s("lvl", LV).is("vals", signedkey(k)));
}

template <class P>
int64_t sat(typename P::T d)
{
    const int64_t v = (int64_t)sgn(d);
    return std::max<int64_t>(-(1 << 30), std::min<int64_t>(1 << 30, v));
}

template <class P>
void sample(Trace &t, const char *what, typename P::T m, const TLWE<P> &c, const Key<P> &k)
{
    t.put(Ev("sample").s("lvl", LV).s("what", what).w("m", m).ws("c", c).w("ph", tlweSymPhase<P>(c, k)).i("dec", tlweSymDecrypt<P>(c, k)));
}

template <class P>
void coef(Trace &t, const TRLWE<P> &c, const Polynomial<P> &ph, std::initializer_list<uint32_t> js)
{
    for (uint32_t j : js)
        t.put(Ev("coef").s("lvl", LV).ws("a", c[0]).w("b", c[P::k][j]).i("j", j).w("ph", ph[j]));
}

template <class P, uint32_t PM>
void intdec(Trace &t, const Key<P> &key, Rng &r, uint32_t count, bool all16 = false)
{
    using T = typename P::T;
    const int w = digits<P>();
    for (uint32_t b = 0; b < count; b += 4096) {
        std::vector<T> ph;
        std::vector<int64_t> out;
        for (uint32_t i = b; i < std::min(count, b + 4096); i++) {
            T p = static_cast<T>(r.next());
            if (all16)
                p = static_cast<T>(i);
            else if (i % 2) {  // near a decision boundary or an encoding
                const unsigned __int128 q = static_cast<unsigned __int128>(1) << w;
                p = static_cast<T>((2 * r.below(PM) + r.below(2)) * q / (2 * PM));
                const int64_t spread = w == 64 ? 20000 : 3;
                p = static_cast<T>(p + static_cast<T>(r.range(-spread, spread)));
            }
            const TLWE<P> c = craft<P>(p, key, r, i % 16 != 0);
            ph.push_back(refphase<P>(c, key));
            const T o = tlweSymIntDecrypt<P, PM>(c, key);
            out.push_back((int64_t)sgn(o));
        }
        t.put(Ev("intdec").s("lvl", LV).s("what", "tlweSymIntDecrypt<P,pm>").i("pm", PM).ws("ph", ph).is("out", out).w("tol", static_cast<T>(w == 64 ? 8192 : 0)));
    }
}

template <class P>
void booldec(Trace &t, const Key<P> &key, Rng &r, uint32_t count, bool all16 = false)
{
    using T = typename P::T;
    const int w = digits<P>();
    for (uint32_t b = 0; b < count; b += 4096) {
        std::vector<T> ph;
        std::vector<int64_t> out;
        std::vector<TLWE<P>> cs;
        for (uint32_t i = b; i < std::min(count, b + 4096); i++) {
            T p = static_cast<T>(r.next());
            if (all16)
                p = static_cast<T>(i);
            else if (i % 2)
                p = static_cast<T>((r.bit() ? static_cast<T>(1) << (w - 1) : 0) + static_cast<T>(r.range(-3, 3)));
            const TLWE<P> c = craft<P>(p, key, r, i % 16 != 0);
            ph.push_back(refphase<P>(c, key));
            cs.push_back(c);
            out.push_back(tlweSymDecrypt<P>(c, key));
        }
        t.put(Ev("booldec").s("lvl", LV).s("what", "tlweSymDecrypt").ws("ph", ph).is("out", out));
        const auto v = bootsSymDecrypt<P>(cs, key);
        t.put(Ev("roundtrip").s("lvl", LV).s("what", "bootsSymDecrypt = tlweSymDecrypt").is("in", out).is("out", v));
    }
}

template <class P>
void samples(Trace &t, const Key<P> &key, Rng &r)
{
    using T = typename P::T;
    const T mu = static_cast<T>(static_cast<T>(1) << (digits<P>() - 3));
    for (int b = 0; b < 2; b++) {
        const T m = b ? mu : static_cast<T>(-mu);
        sample<P>(t, "tlweSymEncrypt", m, tlweSymEncrypt<P>(m, key), key);
        sample<P>(t, "tlweSymEncrypt alpha", m, tlweSymEncrypt<P>(m, P::α, key), key);
    }
    for (int i = 0; i < pick(4, 20); i++) {
        const T m = static_cast<T>(r.next());
        sample<P>(t, "tlweSymEncrypt", m, tlweSymEncrypt<P>(m, key), key);
    }
    {  // zero noise means zero noise
        const T m = static_cast<T>(r.next());
        const auto c = tlweSymEncrypt<P>(m, 0.0, key);
        sample<P>(t, "tlweSymEncrypt alpha=0", m, c, key);
        t.put(Ev("noiseless").s("lvl", LV).ws("m", std::vector<T>{m}).ws("c", c));
    }
    // integer round trips, default scale: every message
    const uint64_t pm = P::plain_modulus;
    std::vector<int64_t> in, out;
    for (int rep = 0; rep < 3; rep++)
        for (uint64_t i = 0; i < std::min<uint64_t>(pm, 64); i++) {
            const uint64_t m = pm <= 64 ? i : r.below(pm);
            const T mm = static_cast<T>(m);
            TLWE<P> c = rep ? tlweSymIntEncrypt<P>(mm, key) : tlweSymIntEncrypt<P>(mm, P::α, key);
            const T o = tlweSymIntDecrypt<P>(c, key);
            in.push_back(m);
            out.push_back(static_cast<int64_t>(((int64_t)sgn(o) % (int64_t)pm + pm) % pm));
        }
    t.put(Ev("roundtrip").s("lvl", LV).s("what", "tlweSymIntEncrypt/Decrypt").is("in", in).is("out", out));
    // decryption of the default scale on phases anywhere in a message's cell
    {
        int sh = digits<P>();
        const double delta = P::Δ;
        sh = std::ilogb(delta);
        std::vector<T> ph;
        std::vector<int64_t> mid, o2;
        for (int i = 0; i < 600; i++) {
            const uint64_t m = pm <= 64 ? i % pm : (i % 5 ? r.below(pm) : (i % 2 ? 0 : pm - 1));
            const int64_t lim = (static_cast<int64_t>(1) << (sh - 1)) - (digits<P>() == 64 ? 4096 : 1);
            const int64_t off = i % 3 == 0 ? (r.bit() ? lim : -lim) : r.range(-lim, lim);
            const T p = static_cast<T>((static_cast<T>(m) << sh) + static_cast<T>(off));
            const TLWE<P> c = craft<P>(p, key, r, i % 16 != 0);
            ph.push_back(refphase<P>(c, key));
            mid.push_back(m);
            const T o = tlweSymIntDecrypt<P>(c, key);
            o2.push_back(((int64_t)sgn(o) % (int64_t)pm + pm) % pm);
        }
        t.put(Ev("paddec").s("lvl", LV).s("what", "tlweSymIntDecrypt<P>").i("sh", sh).ws("ph", ph).is("mid", mid).is("out", o2));
    }
    // vector interface
    for (size_t n : {0, 1, 2, 17, 333}) {
        std::vector<uint8_t> p(n);
        for (auto &x : p) x = r.bit();
        if (n == 17)
            for (auto &x : p) x = x ? 255 : 0;  // any non-zero byte is a one
        const auto c = bootsSymEncrypt<P>(p, key);
        for (size_t i = 0; i < std::min<size_t>(n, 3); i++)
            sample<P>(t, "bootsSymEncrypt", p[i] ? mu : static_cast<T>(-mu), c[i], key);
        std::vector<int64_t> in, out;
        for (auto x : p) in.push_back(x != 0);
        for (auto x : bootsSymDecrypt<P>(c, key)) out.push_back(x);
        t.put(Ev("roundtrip").s("lvl", LV).s("what", "bootsSymEncrypt/Decrypt").is("in", in).is("out", out));
    }
}

// an error at sixteen times the level's standard deviation, brought back to it
template <class P>
int64_t sixteenth(typename P::T e)
{
    return (static_cast<int64_t>(sgn(e)) + 8) >> 4;
}
template <class P>
void noise(Trace &t, const Key<P> &key, Rng &r, int count)
{
    std::vector<int64_t> d, e, f;
    std::vector<uint8_t> bits(count);
    for (auto &x : bits) x = r.bit();
    const typename P::T mu = static_cast<typename P::T>(static_cast<typename P::T>(1) << (digits<P>() - 3));
    for (int i = 0; i < count; i++) {
        const typename P::T m = static_cast<typename P::T>(r.next());
        d.push_back(sat<P>(static_cast<typename P::T>(refphase<P>(tlweSymEncrypt<P>(m, key), key) - m)));
    }
    t.put(Ev("noise").s("lvl", LV).s("what", "tlweSymEncrypt").is("d", d));
    {  // the caller's own standard deviation, and the level's again after it
        std::vector<int64_t> big, def;
        for (int i = 0; i < count / 2; i++) {
            const auto m = static_cast<typename P::T>(r.next());
            big.push_back(sixteenth<P>(static_cast<typename P::T>(refphase<P>(tlweSymEncrypt<P>(m, P::α * 16, key), key) - m)));
            def.push_back(sat<P>(static_cast<typename P::T>(refphase<P>(tlweSymEncrypt<P>(m, key), key) - m)));
        }
        t.put(Ev("noise").s("lvl", LV).s("what", "tlweSymEncrypt 16 alpha").is("d", big));
        t.put(Ev("noise").s("lvl", LV).s("what", "tlweSymEncrypt after 16 alpha").is("d", def));
    }
    const auto c = bootsSymEncrypt<P>(bits, key);
    for (int i = 0; i < count; i++)
        e.push_back(sat<P>(static_cast<typename P::T>(refphase<P>(c[i], key) - (bits[i] ? mu : static_cast<typename P::T>(-mu)))));
    t.put(Ev("noise").s("lvl", LV).s("what", "bootsSymEncrypt").is("d", e));
    if constexpr (P::plain_modulus <= 8) {
        for (int i = 0; i < count / 4; i++) {
            const int m = i % P::plain_modulus;
            const typename P::T enc = static_cast<typename P::T>(static_cast<typename P::T>(m) * static_cast<typename P::T>(P::Δ));
            f.push_back(sat<P>(static_cast<typename P::T>(refphase<P>(tlweSymIntEncrypt<P>(static_cast<typename P::T>(m), key), key) - enc)));
        }
        t.put(Ev("noise").s("lvl", LV).s("what", "tlweSymIntEncrypt").is("d", f));
    }
}

template <class P>
constexpr typename P::T ringtol()
{
    return digits<P>() == 64 ? (static_cast<typename P::T>(1) << 20) : 1024;
}

template <class P>
void ring(Trace &t, const Key<P> &key, Rng &r, int reps)
{
    using T = typename P::T;
    const T mu = static_cast<T>(1) << (digits<P>() - 3);
    std::vector<int64_t> d0, d1, d2, d3;
    for (int rep = 0; rep < reps; rep++) {
        Polynomial<P> m;
        std::vector<int64_t> in, out, iin, iout, pd;
        for (uint32_t i = 0; i < P::n; i++) {
            const bool b = r.bit();
            m[i] = b ? mu : -mu;
            in.push_back(b);
        }
        auto c = rep % 2 ? trlweSymEncrypt<P>(m, key) : trlweSymEncrypt<P>(m, P::α, key);
        auto ph = refphase<P>(c, key);
        t.put(Ev("ring").s("lvl", LV).s("what", "trlweSymEncrypt").ws("m", m).ws("ph", ph).w("tol", ringtol<P>()));
        if (rep == 0) coef<P>(t, c, ph, {0, 1, P::n / 2, P::n - 1});
        for (bool b : trlweSymDecrypt<P>(c, key)) out.push_back(b);
        t.put(Ev("roundtrip").s("lvl", LV).s("what", "trlweSymEncrypt/Decrypt").is("in", in).is("out", out));
        for (uint32_t i = 0; i < P::n; i++) d0.push_back(sat<P>(ph[i] - m[i]));

        // arbitrary phases (random, and full word extremes)
        for (uint32_t i = 0; i < P::n; i++) m[i] = i % 8 == 7 ? (i % 16 == 7 ? 0 : static_cast<T>(1) << (digits<P>() - 1)) : static_cast<T>(r.next());
        c = trlweSymEncrypt<P>(m, key);
        ph = refphase<P>(c, key);
        t.put(Ev("ring").s("lvl", LV).s("what", "trlweSymEncrypt any phase").ws("m", m).ws("ph", ph).w("tol", ringtol<P>()));
        t.put(Ev("ring").s("lvl", LV).s("what", "trlwePhase").ws("m", trlwePhase<P>(c, key)).ws("ph", ph).w("tol", static_cast<T>(digits<P>() == 64 ? 1 << 13 : 64)));
        for (uint32_t i = 0; i < P::n; i++) d1.push_back(sat<P>(ph[i] - m[i]));

        // zero
        c = rep % 2 ? trlweSymEncryptZero<P>(key) : trlweSymEncryptZero<P>(P::α, key);
        ph = refphase<P>(c, key);
        t.put(Ev("ring").s("lvl", LV).s("what", "trlweSymEncryptZero").ws("m", Polynomial<P>{}).ws("ph", ph).w("tol", ringtol<P>()));
        for (uint32_t i = 0; i < P::n; i++) d2.push_back(sat<P>(ph[i]));

        // integers
        Polynomial<P> mi;
        for (uint32_t i = 0; i < P::n; i++) {
            mi[i] = r.below(P::plain_modulus);
            iin.push_back(mi[i]);
        }
        c = rep % 2 ? trlweSymIntEncrypt<P>(mi, key) : trlweSymIntEncrypt<P>(mi, P::α, key);
        ph = refphase<P>(c, key);
        for (auto v : trlweSymIntDecrypt<P>(c, key)) iout.push_back((int64_t)v);
        t.put(Ev("roundtrip").s("lvl", LV).s("what", "trlweSymIntEncrypt/Decrypt").is("in", iin).is("out", iout));
        for (uint32_t i = 0; i < P::n; i++) d3.push_back(sat<P>(ph[i] - static_cast<T>(static_cast<T>(P::Δ) * mi[i])));

        // decryption of phases away from the encodings
        Polynomial<P> pp;
        std::vector<int64_t> mid, o, bo;
        const int sh = std::ilogb((double)P::Δ);
        for (uint32_t i = 0; i < P::n; i++) {
            const uint64_t x = r.below(P::plain_modulus);
            const int64_t lim = (static_cast<int64_t>(1) << (sh - 1)) - (digits<P>() == 64 ? 1 << 14 : 64);
            pp[i] = static_cast<T>((static_cast<T>(x) << sh) + static_cast<T>(i % 3 == 0 ? (r.bit() ? lim : -lim) : r.range(-lim, lim)));
            mid.push_back(x);
        }
        c = craft<P>(pp, key, r);
        for (auto v : trlweSymIntDecrypt<P>(c, key)) o.push_back((int64_t)v);
        t.put(Ev("paddec").s("lvl", LV).s("what", "trlweSymIntDecrypt").i("sh", sh).ws("ph", pp).is("mid", mid).is("out", o));
        std::vector<T> bph;
        const auto bd = trlweSymDecrypt<P>(c, key);
        for (uint32_t i = 0; i < P::n; i++) {
            const int64_t v = sgn(pp[i]);
            const int64_t far = digits<P>() == 64 ? 1 << 14 : 64;
            const int64_t half = digits<P>() == 64 ? INT64_MAX : INT32_MAX;
            if (std::abs(v) < far || half - std::abs(v) < far) continue;
            bph.push_back(pp[i]);
            bo.push_back(bd[i]);
        }
        t.put(Ev("booldec").s("lvl", LV).s("what", "trlweSymDecrypt").ws("ph", bph).is("out", bo));
    }
    {  // the caller's own standard deviation
        std::vector<int64_t> a;
        Polynomial<P> z = {};
        auto see = [&](const TRLWE<P> &x) {
            const auto ph = refphase<P>(x, key);
            for (uint32_t i = 0; i < P::n; i++) a.push_back(sixteenth<P>(ph[i]));
        };
        for (int i = 0; i < 2; i++) {
            see(trlweSymEncryptZero<P>(P::α * 16, key));
            see(trlweSymEncrypt<P>(z, P::α * 16, key));
            see(trlweSymIntEncrypt<P>(z, P::α * 16, key));
        }
        auto g = big<TRGSW<P>>();
        *g = trgswSymEncrypt<P>(z, P::α * 16, key);
        for (const auto &row : *g) see(row);
        auto h = big<HalfTRGSW<P>>();
        *h = halftrgswSymEncrypt<P>(z, P::α * 16, key);
        for (const auto &row : *h) see(row);
        t.put(Ev("noise").s("lvl", LV).s("what", "ring samples 16 alpha").is("d", a));
    }
    t.put(Ev("noise").s("lvl", LV).s("what", "trlweSymEncrypt").is("d", d0));
    t.put(Ev("noise").s("lvl", LV).s("what", "trlweSymEncrypt any").is("d", d1));
    t.put(Ev("noise").s("lvl", LV).s("what", "trlweSymEncryptZero").is("d", d2));
    t.put(Ev("noise").s("lvl", LV).s("what", "trlweSymIntEncrypt").is("d", d3));
}

template <class P>
void row(Trace &t, const char *what, const TRLWE<P> &c, uint32_t i, bool body, const std::vector<std::vector<int64_t>> &p, const Key<P> &key, typename P::T tol, bool check = false)
{
    const auto ph = refphase<P>(c, key);
    if (check) coef<P>(t, c, ph, {0, 7, P::n - 1});
    t.put(Ev("row").s("lvl", LV).s("what", what).i("i", i + 1).i("bgbit", P::Bgbit).b("body", body).iss("p", p).ws("ph", ph).w("tol", tol));
}

template <class P>
void rownoise(std::vector<int64_t> &d, const TRLWE<P> &c, uint32_t i, bool body, const std::vector<std::vector<int64_t>> &sp, const Key<P> &key)
{
    Polynomial<P> p = {}, x = {}, kk;
    for (auto &e : sp) p[e[0]] = static_cast<typename P::T>(e[1]);
    for (uint32_t j = 0; j < P::n; j++) kk[j] = key[j];
    if (body)
        x = p;
    else
        refmulacc<typename P::T, P::n>(x, kk, p, true);
    const auto ph = refphase<P>(c, key);
    for (uint32_t j = 0; j < P::n; j++)
        d.push_back(sat<P>(static_cast<typename P::T>(ph[j] - static_cast<typename P::T>(x[j] << (digits<P>() - (i + 1) * P::Bgbit)))));
}

template <class P>
void gadget(Trace &t, const Key<P> &key, Rng &r, int part)
{
    using T = typename P::T;
    const T tol = ringtol<P>();
    std::vector<std::vector<std::vector<int64_t>>> ps = {{{0, 1}}, {{0, 0}}, {{(int64_t)P::n - 1, -1}, {3, 2}, {(int64_t)P::n / 2, 1}}, {{1, 1}}};
    std::vector<int64_t> d;
    for (size_t pi = 0; pi < ps.size(); pi++) {
        if ((int)(pi % 2) != part % 2) continue;
        const auto &sp = ps[pi];
        Polynomial<P> p = {};
        for (auto &e : sp) p[e[0]] = static_cast<T>(e[1]);
        {
            auto g = big<TRGSW<P>>();
            *g = pi == 1 ? trgswSymEncrypt<P>(p, P::α, key) : trgswSymEncrypt<P>(p, key);
            for (uint32_t k = 0; k <= P::k; k++)
                for (uint32_t i = 0; i < P::l; i++) {
                    row<P>(t, "trgswSymEncrypt", (*g)[i + k * P::l], i, k == P::k, sp, key, tol, pi == 0 && i == 0);
                    rownoise<P>(d, (*g)[i + k * P::l], i, k == P::k, sp, key);
                }
        }
        {
            auto g = big<HalfTRGSW<P>>();
            *g = pi == 1 ? halftrgswSymEncrypt<P>(p, P::α, key) : halftrgswSymEncrypt<P>(p, key);
            for (uint32_t i = 0; i < P::l; i++) {
                row<P>(t, "halftrgswSymEncrypt", (*g)[i], i, true, sp, key, tol);
                rownoise<P>(d, (*g)[i], i, true, sp, key);
            }
        }
        {
            auto g = big<TRGSWFFT<P>>();
            *g = pi == 1 ? trgswfftSymEncrypt<P>(p, P::α, key) : trgswfftSymEncrypt<P>(p, key);
            for (uint32_t k = 0; k <= P::k; k++)
                for (uint32_t i = 0; i < P::l; i++) {
                    TRLWE<P> c;
                    for (uint32_t m = 0; m <= P::k; m++) TwistFFT<P>(c[m], (*g)[i + k * P::l][m]);
                    // the transform of a 64-bit word keeps 53 bits; the mask's rounding meets the key
                    row<P>(t, "trgswfftSymEncrypt", c, i, k == P::k, sp, key, digits<P>() == 64 ? (static_cast<T>(1) << 25) : tol);
                }
        }
        {
            auto g = big<HalfTRGSWFFT<P>>();
            *g = pi == 1 ? halftrgswfftSymEncrypt<P>(p, P::α, key) : halftrgswfftSymEncrypt<P>(p, key);
            for (uint32_t i = 0; i < P::l; i++) {
                TRLWE<P> c;
                for (uint32_t m = 0; m <= P::k; m++) TwistFFT<P>(c[m], (*g)[i][m]);
                row<P>(t, "halftrgswfftSymEncrypt", c, i, true, sp, key, digits<P>() == 64 ? (static_cast<T>(1) << 25) : tol);
            }
        }
        {
            auto g = big<TRGSWNTT<P>>();
            *g = pi == 1 ? trgswnttSymEncrypt<P>(p, P::α, key) : trgswnttSymEncrypt<P>(p, key);
            for (uint32_t k = 0; k <= P::k; k++)
                for (uint32_t i = 0; i < P::l; i++) {
                    TRLWE<P> c;
                    for (uint32_t m = 0; m <= P::k; m++) TwistNTT<P>(c[m], (*g)[i + k * P::l][m]);
                    row<P>(t, "trgswnttSymEncrypt", c, i, k == P::k, sp, key, digits<P>() == 64 ? (static_cast<T>(1) << 25) : static_cast<T>(4096));
                }
        }
    }
    t.put(Ev("noise").s("lvl", LV).s("what", "gadget rows").is("d", d));
}

int main(int, char **argv)
{
    const std::string s = argv[1];
    Trace t(argv[2]);
    Rng r(s);
    // several independent secret keys; the integer decryption sections use one
    auto sk = big<SecretKey>();
#define KEY(P) (sk->key.get<P>())
    if (s == "lvl0") {
        const auto k = KEY(lvl0param);
        putkey<lvl0param>(t, k);
        samples<lvl0param>(t, k, r);
        booldec<lvl0param>(t, k, r, 65536, true);
        intdec<lvl0param, 8>(t, k, r, 65536, true);
        noise<lvl0param>(t, k, r, pick(20000, 100000));
    }
    if (s == "lvl0b") {
        const auto k = KEY(lvl0param);
        putkey<lvl0param>(t, k);
        intdec<lvl0param, 2>(t, k, r, 8192, false);
        intdec<lvl0param, 4>(t, k, r, 8192, false);
        intdec<lvl0param, 16>(t, k, r, 8192, false);
        intdec<lvl0param, 10>(t, k, r, 8192, false);
        intdec<lvl0param, 1024>(t, k, r, 8192, false);
        const auto h = KEY(lvlhalfparam);
        putkey<lvlhalfparam>(t, h);
        samples<lvlhalfparam>(t, h, r);
        booldec<lvlhalfparam>(t, h, r, 4096);
        intdec<lvlhalfparam, 8>(t, h, r, 4096);
        intdec<lvlhalfparam, 16>(t, h, r, 4096);
        noise<lvlhalfparam>(t, h, r, pick(10000, 80000));
    }
    if (s == "lvl1") {
        const auto k = KEY(lvl1param);
        putkey<lvl1param>(t, k);
        samples<lvl1param>(t, k, r);
        booldec<lvl1param>(t, k, r, 8192);
        intdec<lvl1param, 2>(t, k, r, 2048);
        intdec<lvl1param, 8>(t, k, r, 8192);
        intdec<lvl1param, 16>(t, k, r, 4096);
        intdec<lvl1param, 1024>(t, k, r, 4096);
        noise<lvl1param>(t, k, r, pick(10000, 80000));
        ring<lvl1param>(t, k, r, pick(3, 20));
        // SecretKey overloads
        for (int n : {1, 40}) {
            std::vector<uint8_t> p(n);
            for (auto &x : p) x = r.bit();
            std::vector<int64_t> in(p.begin(), p.end()), o1, o2, o3;
            const auto c = bootsSymEncrypt(p, *sk);
            for (auto x : bootsSymDecrypt(c, *sk)) o1.push_back(x);
            t.put(Ev("roundtrip").s("lvl", "lvl1").s("what", "bootsSymEncrypt(sk)").is("in", in).is("out", o1));
            const auto c0 = bootsSymEncrypt<lvl0param>(p, *sk);
            for (auto x : bootsSymDecrypt<lvl0param>(c0, *sk)) o2.push_back(x);
            t.put(Ev("roundtrip").s("lvl", "lvl0").s("what", "bootsSymEncrypt<lvl0>(sk)").is("in", in).is("out", o2));
            const auto c1 = bootsSymEncrypt<lvl1param, (1 << 28)>(p, *sk);
            for (auto x : bootsSymDecrypt<lvl1param>(c1, *sk)) o3.push_back(x);
            t.put(Ev("roundtrip").s("lvl", "lvl1").s("what", "bootsSymEncrypt<mu>(sk)").is("in", in).is("out", o3));
            sample<lvl1param>(t, "bootsSymEncrypt<mu>(sk)", p[0] ? 1u << 28 : -(1u << 28), c1[0], k);
            const auto c2 = bootsSymEncrypt<lvl1param, (1 << 27)>(p, k);
            sample<lvl1param>(t, "bootsSymEncrypt<mu>(key)", p[0] ? 1u << 27 : -(1u << 27), c2[0], k);
        }
    }
    if (s == "lvl2") {
        const auto k = KEY(lvl2param);
        putkey<lvl2param>(t, k);
        samples<lvl2param>(t, k, r);
        booldec<lvl2param>(t, k, r, 4096);
        intdec<lvl2param, 8>(t, k, r, 4096);
        intdec<lvl2param, 16>(t, k, r, 2048);
        intdec<lvl2param, 1024>(t, k, r, 2048);
        noise<lvl2param>(t, k, r, pick(4000, 40000));
        ring<lvl2param>(t, k, r, pick(2, 10));
    }
    if (s == "lvl3") {
        const auto k = KEY(lvl3param);
        putkey<lvl3param>(t, k);
        samples<lvl3param>(t, k, r);
        booldec<lvl3param>(t, k, r, 2048);
        intdec<lvl3param, 8>(t, k, r, 2048);
        noise<lvl3param>(t, k, r, pick(3000, 20000));
    }
    // more keys than one: one after the other, the first again, and another key
    // in the place of the first
    if (s == "keys1" || s == "keys2") {
        auto other = big<SecretKey>(), third = big<SecretKey>();
        for (int step = 0; step < 4; step++) {
            if (step == 3) sk->key = third->key;
            auto &x = step == 1 ? *other : *sk;
            auto each = [&]<class P>() {
                const auto &k = x.key.get<P>();
                putkey<P>(t, k);
                samples<P>(t, k, r);
                if constexpr (std::is_same_v<P, lvl1param> || std::is_same_v<P, lvl2param>) {
                    ring<P>(t, k, r, 1);
                    if (step % 2) gadget<P>(t, k, r, step / 2);
                }
            };
            if (s == "keys1") each.template operator()<lvl0param>(), each.template operator()<lvlhalfparam>(), each.template operator()<lvl1param>();
            else each.template operator()<lvl2param>(), each.template operator()<lvl3param>();
        }
    }
    if (s == "gadget1a" || s == "gadget1b") {
        const auto k = KEY(lvl1param);
        putkey<lvl1param>(t, k);
        gadget<lvl1param>(t, k, r, s == "gadget1b");
    }
    if (s == "gadget2a" || s == "gadget2b") {
        const auto k = KEY(lvl2param);
        putkey<lvl2param>(t, k);
        gadget<lvl2param>(t, k, r, s == "gadget2b");
    }
    return 0;
}
