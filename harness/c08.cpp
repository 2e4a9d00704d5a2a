// C08: sample extraction and its inverse embedding.
#include "common.hpp"
using namespace vf;

template <class W, uint32_t NB, uint32_t K = 1>
struct SP {
    using T = W;
    static constexpr std::uint32_t nbit = NB;
    static constexpr std::uint32_t n = 1u << NB;
    static constexpr std::uint32_t k = K;
};

// raw words, component by component, against the formula of the specification
template <class P>
void raw(Trace &t, const char *what, Rng &r, const std::vector<uint32_t> &idx)
{
    for (uint32_t c = 0; c < P::k; c++) {
        TRLWE<P> x;
        for (auto &p : x) p = randpoly<P>(r);
        x[c][0] = 0;
        t.put(Ev("poly").ws("p", x[c]));
        for (auto j : idx) {
            TLWE<P> s;
            for (auto &w : s) w = static_cast<typename P::T>(0xBEEF);
            SampleExtractIndex<P>(s, x, j);
            std::vector<typename P::T> part(s.begin() + c * P::n, s.begin() + (c + 1) * P::n);
            part.push_back(s[P::k * P::n]);
            t.put(Ev("extract").s("what", what).i("idx", j).ws("s", part).ws("b", x[P::k]));
            // embed that sample: at the same position and at another one
            for (uint32_t at : {j, static_cast<uint32_t>(r.below(P::n))}) {
                TRLWE<P> y;
                for (auto &p : y) p = randpoly<P>(r);  // stale content must not survive
                InvSampleExtractIndex<P>(y, s, at);
                t.put(Ev("embed").s("what", what).i("idx", at).ws("s", part).ws("a", y[c]).ws("b", y[P::k]));
            }
        }
    }
}

// phases at every index under a real key
template <class P>
void phases(Trace &t, const char *what, Rng &r, const Key<P> &key)
{
    Polynomial<P> m = randpoly<P>(r);
    const auto x = craft<P>(m, key, r);
    const auto ph = refphase<P>(x, key);
    std::vector<typename P::T> got, back, at, zero, other;
    for (uint32_t j = 0; j < P::n; j++) {
        TLWE<P> s, s2;
        SampleExtractIndex<P>(s, x, j);
        got.push_back(refphase<P>(s, key));
        TRLWE<P> y;
        for (auto &p : y) p = m;
        const uint32_t e = (j * 7 + 3) % P::n;
        InvSampleExtractIndex<P>(y, s, e);
        SampleExtractIndex<P>(s2, y, e);
        back.push_back(refphase<P>(s2, key));
        zero.push_back(static_cast<typename P::T>(s == s2 ? 0 : 1));
        other.push_back(0);
    }
    t.put(Ev("agree").s("what", std::string(what) + " extracted phases").ws("a", got).ws("b", ph).w("tol", static_cast<typename P::T>(0)));
    t.put(Ev("agree").s("what", std::string(what) + " embedded then extracted").ws("a", back).ws("b", ph).w("tol", static_cast<typename P::T>(0)));
    t.put(Ev("agree").s("what", std::string(what) + " identical sample").ws("a", zero).ws("b", other).w("tol", static_cast<typename P::T>(0)));
}

std::vector<uint32_t> all(uint32_t n)
{
    std::vector<uint32_t> v;
    for (uint32_t i = 0; i < n; i++) v.push_back(i);
    return v;
}
std::vector<uint32_t> some(Rng &r, uint32_t n, int k)
{
    std::vector<uint32_t> v = {0, 1, 2, n / 2 - 1, n / 2, n - 2, n - 1};
    for (int i = 0; i < k; i++) v.push_back(r.below(n));
    return v;
}

int main(int, char **argv)
{
    const std::string s = argv[1];
    Trace t(argv[2]);
    Rng r(s);
    if (s == "small") {
        raw<SP<uint16_t, 1>>(t, "u16 N=2", r, all(2));
        raw<SP<uint16_t, 3>>(t, "u16 N=8", r, all(8));
        raw<SP<uint16_t, 4, 2>>(t, "u16 N=16 k=2", r, all(16));
        raw<SP<uint32_t, 5>>(t, "u32 N=32", r, all(32));
        raw<SP<uint64_t, 4, 3>>(t, "u64 N=16 k=3", r, all(16));
    }
    if (s == "lvl1") raw<lvl1param>(t, "lvl1", r, some(r, lvl1param::n, pick(14, 100)));
    if (s == "lvl2") raw<lvl2param>(t, "lvl2", r, some(r, lvl2param::n, pick(8, 60)));
    if (s == "phases") {
        auto sk = big<SecretKey>();
        phases<lvl1param>(t, "lvl1", r, sk->key.get<lvl1param>());
        phases<lvl2param>(t, "lvl2", r, sk->key.get<lvl2param>());
    }
    return 0;
}
