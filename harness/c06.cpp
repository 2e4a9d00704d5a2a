// C06: polynomial operations.
#include "common.hpp"
#include <span>
#include <nussbaumer.hpp>
using namespace vf;

template <class W, uint32_t NB, uint32_t K = 1>
struct SP {
    using T = W;
    static constexpr std::uint32_t nbit = NB;
    static constexpr std::uint32_t n = 1u << NB;
    static constexpr std::uint32_t k = K;
};

template <class P>
void setpoly(Trace &t, const Polynomial<P> &p) { t.put(Ev("poly").ws("p", p)); }

template <class P>
void monomials(Trace &t, const char *what, Rng &r, bool full)
{
    auto p = randpoly<P>(r);
    p[0] = 0;
    if (P::n > 4) p[P::n - 2] = static_cast<typename P::T>(static_cast<typename P::T>(1) << (digits<P>() - 1));
    setpoly<P>(t, p);
    Polynomial<P> res;
    for (uint32_t a = 0; a < 2 * P::n; a++) {
        for (int op = 0; op < 2; op++) {
            for (auto &x : res) x = static_cast<typename P::T>(0xDEAD);
            if (op)
                PolynomialMulByXaiMinusOne<P>(res, p, static_cast<typename P::T>(a));
            else
                PolynomialMulByXai<P>(res, p, static_cast<typename P::T>(a));
            const bool edge = a < 3 || a > 2 * P::n - 4 || (a + 2 >= P::n && a <= P::n + 2);
            if (full || edge || (thorough() && r.below(8) == 0))
                t.put(Ev("xai").s("what", what).s("op", op ? "minusone" : "mul").i("a", a).ws("r", res));
            else {
                std::vector<uint32_t> pos = {0, P::n - 1};
                for (int d = -1; d <= 1; d++) pos.push_back((a + P::n + d) % P::n);
                for (int i = 0; i < 3; i++) pos.push_back(r.below(P::n));
                std::vector<typename P::T> val;
                for (auto x : pos) val.push_back(res[x]);
                t.put(Ev("xaipos").s("what", what).s("op", op ? "minusone" : "mul").i("a", a).is("pos", pos).ws("val", val));
            }
        }
    }
}

template <class P>
void autos(Trace &t, const char *what, Rng &r, bool full)
{
    setpoly<P>(t, randpoly<P>(r));
    const auto p = randpoly<P>(r);
    setpoly<P>(t, p);
    std::vector<uint32_t> ds;
    if (full)
        for (uint32_t d = 1; d < 2 * P::n; d += 2) ds.push_back(d);
    else {
        for (uint32_t j = 1; j <= P::nbit; j++) ds.push_back((1u << j) + 1);
        ds.insert(ds.end(), {1, 3, 2 * P::n - 1, P::n - 1, P::n + 1});
        for (int i = 0; i < pick(20, 150); i++) ds.push_back(2 * r.below(P::n) + 1);
    }
    for (auto d : ds) {
        Polynomial<P> res;
        for (auto &x : res) x = 77;
        Automorphism<P>(res, p, d);
        t.put(Ev("auto").s("what", what).i("d", d).ws("r", res));
    }
}

// op(res, torus, small)
template <class P>
void products(Trace &t, const char *what, Rng &r, int bound, typename P::T tol, std::function<void(Polynomial<P> &, const Polynomial<P> &, const Polynomial<P> &)> op, int reps, bool dense = true)
{
    using T = typename P::T;
    for (int rep = 0; rep < reps; rep++) {
        auto p = randpoly<P>(r);
        if (rep == 0)
            for (auto &x : p) x = static_cast<T>(static_cast<T>(1) << (digits<P>() - 1));  // extreme torus value
        setpoly<P>(t, p);
        // sparse
        Polynomial<P> b = {}, res;
        std::map<uint32_t, int64_t> m;
        const int terms = rep % 3 == 0 ? 1 : 12;
        for (int i = 0; i < terms; i++) {
            const uint32_t e = rep % 3 == 0 ? (rep % 2 ? P::n - 1 : 0) : (i < 2 ? i * (P::n - 1) : r.below(P::n));
            m[e] = r.bit() ? bound : r.range(-bound, bound);
        }
        std::vector<std::vector<int64_t>> sp;
        for (auto &[e, c] : m) {
            b[e] = static_cast<T>(c);
            sp.push_back({(int64_t)e, c});
        }
        poison(res);
        op(res, p, b);
        t.put(Ev("prod").s("what", what).iss("b", sp).ws("r", res).w("tol", tol));
        if (!dense) continue;
        std::vector<int64_t> ds;
        for (auto &x : b) {
            const int64_t c = rep == 0 ? -bound : rep == 1 ? (r.bit() ? bound : -bound) : r.range(-bound, bound);
            x = static_cast<T>(c);
            ds.push_back(c);
        }
        poison(res);
        op(res, p, b);
        std::vector<uint32_t> pos = {0, 1, P::n / 2 - 1, P::n / 2, P::n - 1};
        for (int i = 0; i < pick(10, 60); i++) pos.push_back(r.below(P::n));
        std::vector<T> val;
        for (auto x : pos) val.push_back(res[x]);
        t.put(Ev("dense").s("what", what).is("b", ds).is("pos", pos).ws("val", val).w("tol", tol));
        // whole result against schoolbook, and the operands the other way round
        Polynomial<P> ref = {};
        refmulacc<T, P::n>(ref, p, b);
        t.put(Ev("agree").s("what", what).ws("a", res).ws("b", ref).w("tol", tol));
        poison(res);
        op(res, b, p);
        t.put(Ev("agree").s("what", std::string(what) + " swapped").ws("a", res).ws("b", ref).w("tol", tol));
    }
}

template <class P>
void ffttrip(Trace &t, const char *what, Rng &r, typename P::T tol)
{
    for (int rep = 0; rep < pick(4, 20); rep++) {
        auto p = randpoly<P>(r);
        if (rep == 0)
            for (uint32_t i = 0; i < P::n; i++) p[i] = i % 2 ? ~static_cast<typename P::T>(0) : static_cast<typename P::T>(static_cast<typename P::T>(1) << (digits<P>() - 1));
        if (rep == 1)
            for (uint32_t i = 0; i < P::n; i++) p[i] = i == 5;
        alignas(64) PolynomialInFD<P> f;
        alignas(64) Polynomial<P> res;
        TwistIFFT<P>(f, p);
        poison(res);
        TwistFFT<P>(res, f);
        setpoly<P>(t, p);
        t.put(Ev("back").s("what", what).ws("r", res).i("mul", 1).w("tol", tol));
        PolynomialNTT<P> nt;
        TwistINTT<P>(nt, p);
        poison(res);
        TwistNTT<P>(res, nt);
        t.put(Ev("back").s("what", std::string(what) + " NTT").ws("r", res).i("mul", 1).w("tol", static_cast<typename P::T>(digits<P>() == 64 ? 1 : 0)));
        // pointwise forms agree: r*=b, r=a*b, r+=a*b
        auto q = randpoly<P>(r);
        for (auto &x : q) x = static_cast<typename P::T>(r.range(-16, 16));
        alignas(64) PolynomialInFD<P> g, h, u, v;
        TwistIFFT<P>(g, q);
        TwistIFFT<P>(f, p);
        h = f;
        MulInFD<P::n>(h, g);
        MulInFD<P::n>(u, f, g);
        v = u;
        FMAInFD<P::n>(v, f, g);
        alignas(64) Polynomial<P> a, b, c;
        TwistFFT<P>(a, h);
        TwistFFT<P>(b, u);
        TwistFFT<P>(c, v);
        t.put(Ev("agree").s("what", "MulInFD forms").ws("a", a).ws("b", b).w("tol", tol));
        for (auto &x : b) x = static_cast<typename P::T>(2 * x);
        t.put(Ev("agree").s("what", "FMAInFD").ws("a", c).ws("b", b).w("tol", static_cast<typename P::T>(2 * tol + 2)));
    }
}

template <class W, uint32_t NB>
void nuss(Trace &t, Rng &r)
{
    using P = SP<W, NB>;
    for (int rep = 0; rep < 2; rep++) {
        auto p = randpoly<P>(r);
        for (auto &x : p) x = static_cast<W>(x >> (rep ? 0 : 2));
        auto q = p;
        Nussbaumer::NussbaumerTransform<W, NB>(std::span<W, 1u << NB>{q});
        Nussbaumer::InverseNussbaumerTransform<W, NB>(std::span<W, 1u << NB>{q});
        setpoly<P>(t, p);
        t.put(Ev("back").s("what", "Nussbaumer").ws("r", q).i("mul", 1 << NB).w("tol", static_cast<W>(0)));
        for (size_t a : {(size_t)0, (size_t)1, (size_t)P::n - 1, (size_t)P::n, (size_t)P::n + 1, (size_t)2 * P::n - 1}) {
            auto x = p;
            Nussbaumer::PolynomialMulByXai<W, NB>(std::span<W, 1u << NB>{x}, a);
            t.put(Ev("xai").s("what", "Nussbaumer").s("op", "mul").i("a", a).ws("r", x));
        }
    }
}

int main(int, char **argv)
{
    const std::string s = argv[1];
    Trace t(argv[2]);
    Rng r(s);
    if (s == "small") {
        monomials<SP<uint16_t, 2>>(t, "u16 N=4", r, true);
        monomials<SP<uint16_t, 4>>(t, "u16 N=16", r, true);
        monomials<SP<uint32_t, 5>>(t, "u32 N=32", r, true);
        monomials<SP<uint64_t, 3>>(t, "u64 N=8", r, true);
        autos<SP<uint16_t, 3>>(t, "u16 N=8", r, true);
        autos<SP<uint64_t, 6>>(t, "u64 N=64", r, true);
        products<SP<uint16_t, 4>>(t, "PolyMul u16 N=16", r, 7, 0, [](auto &a, const auto &b, const auto &c) { PolyMul<SP<uint16_t, 4>>(a, b, c); }, 6, false);
        using P5 = SP<uint32_t, 5>;
        products<P5>(t, "PolyMulNaive u32 N=32", r, 7, 0, [](auto &a, const auto &b, const auto &c) { PolyMulNaive<P5>(a, b, c); }, 6, false);
    }
    if (s == "mono1") monomials<lvl1param>(t, "lvl1", r, false);
    if (s == "mono2") monomials<lvl2param>(t, "lvl2", r, false);
    if (s == "auto") {
        autos<lvl1param>(t, "lvl1", r, false);
        autos<lvl2param>(t, "lvl2", r, false);
    }
    if (s == "prod1") {
        using P = lvl1param;
        products<P>(t, "PolyMul lvl1", r, 32, 1, [](auto &a, const auto &b, const auto &c) { PolyMul<P>(a, b, c); }, pick(6, 30));
        products<P>(t, "PolyMulNaive lvl1", r, 32, 0, [](auto &a, const auto &b, const auto &c) { PolyMulNaive<P>(a, b, c); }, 3);
        // the field product wraps at P = 2^64-2^32+1, once per negative unit: off by at most N*bound mod 2^32
        products<P>(t, "PolyMullvl1 (field)", r, 8, 16 * 1024, [](Polynomial<P> &a, const Polynomial<P> &b, const Polynomial<P> &c) {
            Polynomial<P> x = b, y = c;
            cuHEpp::PolyMullvl1<uint32_t, P::nbit>(a, x, y, *ntttablelvl1, *ntttwistlvl1);
        }, 2);
    }
    if (s == "prod2") {
        using P = lvl2param;
        products<P>(t, "PolyMul lvl2", r, 256, 1 << 19, [](auto &a, const auto &b, const auto &c) { PolyMul<P>(a, b, c); }, pick(3, 16));
        products<P>(t, "FFT lvl2", r, 256, 1ULL << 32, [](Polynomial<P> &a, const Polynomial<P> &b, const Polynomial<P> &c) {
            alignas(64) PolynomialInFD<P> x, y;
            TwistIFFT<P>(x, b);
            TwistIFFT<P>(y, c);
            MulInFD<P::n>(x, y);
            TwistFFT<P>(a, x);
        }, 2);
        products<P>(t, "PolyMulNaive lvl2", r, 256, 0, [](auto &a, const auto &b, const auto &c) { PolyMulNaive<P>(a, b, c); }, 1);
    }
    if (s == "transforms") {
        ffttrip<lvl1param>(t, "FFT lvl1", r, 1);
        ffttrip<lvl2param>(t, "FFT lvl2", r, 1 << 25);
        nuss<uint64_t, 10>(t, r);
        nuss<uint64_t, 9>(t, r);
        nuss<uint64_t, 3>(t, r);
        nuss<uint32_t, 11>(t, r);
        nuss<uint32_t, 4>(t, r);
    }
    if (s == "rescale") {
        // with the scale of the 64-bit level: multiples of it, rounded
        for (int rep = 0; rep < pick(4, 12); rep++) {
            using P = lvl2param;
            Polynomial<P> a, x;
            for (auto &v : a) v = r.below(8);
            setpoly<P>(t, a);
            for (auto &v : a) v = v * static_cast<P::T>(P::Δ) + (rep ? static_cast<P::T>(r.range(-(1LL << 50), 1LL << 50)) : 0);
            alignas(64) PolynomialInFD<P> f;
            TwistIFFT<P>(f, a);
            poison(x);
            TwistFFTrescale<P>(x, f);
            t.put(Ev("back").s("what", "rescale lvl2").ws("r", x).i("mul", 1).w("tol", static_cast<P::T>(0)));
        }
        using P = lvl1param;
        for (int rep = 0; rep < pick(4, 12); rep++) {
            auto a = randpoly<P>(r), b = randpoly<P>(r);
            if (rep == 1)
                for (uint32_t i = 0; i < P::n; i++) a[i] = b[i] = UINT32_MAX;
            if (rep == 2)
                for (uint32_t i = 0; i < P::n; i++) a[i] &= 0xff, b[i] = i == P::n - 1;
            setpoly<P>(t, a);
            Polynomial<P> x, y;
            poison(x), poison(y);
            PolyMulRescaleUnsigned<P>(x, a, b);
            PolyMulNaieveRescaleUnsigned<P>(y, a, b);
            std::vector<uint32_t> pos = {0, P::n - 1, P::n / 2};
            for (int i = 0; i < 5; i++) pos.push_back(r.below(P::n));
            std::vector<uint32_t> vx, vy;
            for (auto i : pos) vx.push_back(x[i]), vy.push_back(y[i]);
            t.put(Ev("rescale").s("what", "PolyMulRescaleUnsigned").ws("b", b).is("pos", pos).ws("val", vx).i("sh", 29).w("tol", 4u));
            t.put(Ev("rescale").s("what", "PolyMulNaieveRescaleUnsigned").ws("b", b).is("pos", pos).ws("val", vy).i("sh", 29).w("tol", 0u));
            t.put(Ev("agree").s("what", "rescale").ws("a", x).ws("b", y).w("tol", 4u));
        }
    }
    return 0;
}
