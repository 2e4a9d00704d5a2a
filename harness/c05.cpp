// C05: gadget decomposition.  Sections: small (all 16-bit words of several
// configurations), lvl1, lvl2, transforms.
#include "common.hpp"
using namespace vf;

template <class W, uint32_t N, int L, int BGBIT>
struct G {
    using T = W;
    static constexpr std::uint32_t nbit = std::bit_width(N) - 1;
    static constexpr std::uint32_t n = N;
    static constexpr std::uint32_t k = 1;
    static constexpr std::uint32_t l = L;
    static constexpr std::uint32_t Bgbit = BGBIT;
    static constexpr W Bg = static_cast<W>(1ULL << BGBIT);
};

template <class P>
void emit(Trace &t, const char *tag, const Polynomial<P> &p, size_t count)
{
    auto d = big<DecomposedPolynomial<P>>();
    Decomposition<P>(*d, p);
    for (size_t b = 0; b < count; b += 4096) {
        const size_t e = std::min(count, b + 4096);
        std::vector<typename P::T> v(p.begin() + b, p.begin() + e);
        std::vector<std::vector<int64_t>> ds;
        for (size_t i = b; i < e; i++) {
            std::vector<int64_t> row;
            for (uint32_t j = 0; j < P::l; j++) row.push_back((int64_t)sgn((*d)[j][i]));
            ds.push_back(row);
        }
        t.put(Ev("dec").s("tag", tag).i("w", digits<P>()).i("l", P::l).i("bgbit", P::Bgbit).ws("v", v).iss("d", ds));
    }
}

template <class P>
void weights(Trace &t)
{
    t.put(Ev("weights").i("w", digits<P>()).i("l", P::l).i("bgbit", P::Bgbit).ws("h", hgen<P>()));
}

template <class W, int L, int BGBIT>
void all16(Trace &t)
{
    using P = G<W, 65536, L, BGBIT>;
    auto p = big<Polynomial<P>>();
    for (uint32_t i = 0; i < P::n; i++) (*p)[i] = static_cast<W>(i);
    emit<P>(t, "all16", *p, P::n);
    weights<P>(t);
}

template <class P>
Polynomial<P> corners(Rng &r, int mode)
{
    using T = typename P::T;
    constexpr int w = digits<P>();
    Polynomial<P> p;
    for (uint32_t i = 0; i < P::n; i++) {
        const uint32_t c = (i + mode) % 4;
        if (c == 0) {
            p[i] = static_cast<T>(r.next());
            continue;
        }
        // near a multiple of a digit boundary (or of its half), both ends of the word included
        const int s = w - (1 + (int)r.below(P::l)) * (int)P::Bgbit - (int)r.below(2);
        T v = static_cast<T>(r.next()) & static_cast<T>(~((static_cast<T>(1) << s) - 1));
        if (c == 2) v = r.bit() ? 0 : static_cast<T>(static_cast<T>(1) << (w - 1));
        if (c == 3 && r.bit()) v = static_cast<T>(-(static_cast<T>(1) << s));
        p[i] = static_cast<T>(v + static_cast<T>(r.range(-2, 2)));
        if (r.below(4) == 0) {  // near half of the last weight
            const T half = static_cast<T>(1) << (w - P::l * P::Bgbit - 1);
            p[i] = static_cast<T>(p[i] + (r.bit() ? half : static_cast<T>(-half)));
        }
    }
    return p;
}

template <class P>
void level(Trace &t, const char *tag)
{
    Rng r(tag);
    weights<P>(t);
    for (int m = 0; m < pick(8, 40); m++) emit<P>(t, tag, corners<P>(r, m), P::n);
    // whole digit patterns: every digit at an end of its range
    Polynomial<P> p;
    for (uint32_t i = 0; i < P::n; i++) {
        typename P::T v = 0;
        uint32_t code = i;
        for (uint32_t j = 1; j <= P::l; j++) {
            const int64_t half = 1LL << (P::Bgbit - 1);
            const int64_t choice[5] = {-half, half - 1, half, 0, -1};
            v += static_cast<typename P::T>(static_cast<typename P::T>(choice[code % 5]) << (digits<P>() - j * P::Bgbit));
            code /= 5;
        }
        p[i] = v;
    }
    emit<P>(t, tag, p, P::n);
}

int main(int, char **argv)
{
    const std::string s = argv[1];
    Trace t(argv[2]);
    if (s == "small") {
        all16<uint16_t, 1, 1>(t);
        all16<uint16_t, 3, 2>(t);
        all16<uint16_t, 2, 7>(t);
        all16<uint16_t, 1, 15>(t);
    }
    if (s == "small2") {
        all16<uint16_t, 5, 3>(t);
        all16<uint16_t, 3, 5>(t);
        all16<uint16_t, 4, 3>(t);
        all16<uint16_t, 15, 1>(t);
        all16<uint16_t, 2, 6>(t);
    }
    if (s == "lvl1") level<lvl1param>(t, "lvl1");
    if (s == "lvl2") level<lvl2param>(t, "lvl2");
    if (s == "custom") {
        level<G<uint32_t, 1024, 2, 10>>(t, "u32_2_10");
        level<G<uint32_t, 1024, 1, 23>>(t, "u32_1_23");
        level<G<uint32_t, 1024, 5, 5>>(t, "u32_5_5");
        level<G<uint64_t, 1024, 3, 12>>(t, "u64_3_12");
        level<G<uint64_t, 1024, 7, 9>>(t, "u64_7_9");
    }
    if (s == "transforms") {
        Rng r("transforms");
        for (int m = 0; m < 3; m++) {
            {
                using P = lvl1param;
                const auto p = corners<P>(r, m);
                auto d = big<DecomposedPolynomial<P>>();
                auto dn = big<DecomposedPolynomialNTT<P>>();
                auto dr = big<DecomposedPolynomialRAINTT<P>>();
                Decomposition<P>(*d, p);
                DecompositionNTT<P>(*dn, p);
                DecompositionRAINTT<P>(*dr, p);
                std::vector<std::string> a, b, c, e;
                for (uint32_t i = 0; i < P::l; i++) {
                    PolynomialNTT<P> x;
                    TwistINTT<P>(x, (*d)[i]);
                    a.push_back(std::to_string(digest(&x, sizeof x)));
                    b.push_back(std::to_string(digest(&(*dn)[i], sizeof x)));
                    PolynomialRAINTT<P> y;
                    raintt::TwistINTT<typename P::T, P::nbit, false>(y, (*d)[i], (*raintttable)[1], (*raintttwist)[1]);
                    c.push_back(std::to_string(digest(&y, sizeof y)));
                    e.push_back(std::to_string(digest(&(*dr)[i], sizeof y)));
                }
                t.put(Ev("transformed").s("what", "NTT lvl1").ss("of", a).ss("same", b));
                t.put(Ev("transformed").s("what", "RAINTT lvl1").ss("of", c).ss("same", e));
            }
            {
                using P = lvl2param;
                const auto p = corners<P>(r, m);
                auto d = big<DecomposedPolynomial<P>>();
                auto dn = big<DecomposedPolynomialNTT<P>>();
                Decomposition<P>(*d, p);
                DecompositionNTT<P>(*dn, p);
                std::vector<std::string> a, b;
                for (uint32_t i = 0; i < P::l; i++) {
                    PolynomialNTT<P> x;
                    TwistINTT<P>(x, (*d)[i]);
                    a.push_back(std::to_string(digest(&x, sizeof x)));
                    b.push_back(std::to_string(digest(&(*dn)[i], sizeof x)));
                }
                t.put(Ev("transformed").s("what", "NTT lvl2").ss("of", a).ss("same", b));
            }
        }
    }
    return 0;
}
