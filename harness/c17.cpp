// C17: masks and noise of encryptions, key rows, threads.
#include "common.hpp"
#include "prog.hpp"
#include "workers.hpp"
#include <set>
using namespace vf;

template <class P> const char *nm();
template <> const char *nm<lvl0param>() { return "lvl0"; }
template <> const char *nm<lvlhalfparam>() { return "lvlhalf"; }
template <> const char *nm<lvl1param>() { return "lvl1"; }
template <> const char *nm<lvl2param>() { return "lvl2"; }
template <> const char *nm<lvl3param>() { return "lvl3"; }

struct Win {
    std::vector<int> w;
    std::string at;
    bool operator<(const Win &o) const { return w < o.w; }
};
static std::vector<Win> maskwins, noisewins;
static void order(vf::Trace &t, const char *what, int k, std::vector<Win> &v)
{
    std::sort(v.begin(), v.end());
    int chunk = 0;
    for (size_t i = 0; i < v.size(); i += 20000) {
        std::vector<std::vector<int>> ws;
        std::vector<std::string> at;
        for (size_t j = i; j < std::min(v.size(), i + 20000); j++) ws.push_back(v[j].w), at.push_back(v[j].at);
        t.put(Ev("windows").s("what", what).i("k", k).i("chunk", chunk++).iss("ws", ws).ss("at", at));
    }
}

// the first coefficients of a ring phase
template <class P>
std::vector<typename P::T> head(const TRLWE<P> &c, const Key<P> &key, uint32_t n0)
{
    std::vector<typename P::T> v;
    for (uint32_t j = 0; j < n0; j++) {
        typename P::T s = c[1][j];
        for (uint32_t i = 0; i <= j; i++) s -= static_cast<typename P::T>(c[0][i] * key[j - i]);
        for (uint32_t i = j + 1; i < P::n; i++) s += static_cast<typename P::T>(c[0][i] * key[P::n + j - i]);
        v.push_back(s);
    }
    return v;
}

template <class P>
struct Batch {
    using T = typename P::T;
    std::string kind;
    std::vector<std::vector<int>> ms;
    std::vector<std::vector<int64_t>> ds;
    std::vector<int64_t> single;
    std::vector<T> ws;
    int from = 1;
    explicit Batch(const std::string &k) : kind(k) {}
    void words(const T *a, size_t n, size_t keep)
    {
        std::vector<int> m;
        for (size_t i = 0; i < std::min(n, keep); i++) m.push_back((uint64_t)(a[i] >> (digits<P>() - 16)));
        ms.push_back(m);
        // words for the bit count: not those of a gadget row that carries a
        // multiple of the gadget weight (a constant added to a uniform word
        // is uniform all the same)
        for (size_t i = 0; i < n && ws.size() < 2400 && i < 300; i++) ws.push_back(a[i]);
    }
    void add(const TLWE<P> &c, size_t keep) { words(c.data(), P::k * P::n, keep); }
    void add(const TRLWE<P> &c, size_t keep) { words(c[0].data(), P::n, keep); }
    void noise(const TLWE<P> &c, T msg, const Key<P> &key) { single.push_back(sgn<T>(refphase<P>(c, key) - msg)); }
    void noise(const TRLWE<P> &c, const Polynomial<P> &msg, const Key<P> &key, size_t keep = 256)
    {
        const auto ph = refphase<P>(c, key);
        std::vector<int64_t> d;
        for (size_t i = 0; i < keep; i++) d.push_back(sgn<T>(ph[i] - msg[i]));
        ds.push_back(d);
    }
    // a few noise values of each of many rows
    template <class M>
    void noisehead(const TRLWE<P> &c, const Key<P> &key, M msg)
    {
        const auto ph = head<P>(c, key, 14);
        std::vector<int64_t> d;
        for (size_t i = 0; i < ph.size(); i++) d.push_back(sgn<T>(ph[i] - msg(i)));
        ds.push_back(d);
    }
    template <class S>
    void cut(std::vector<Win> &v, const S &s, size_t k, size_t row)
    {
        for (size_t i = 0; i + k <= s.size(); i++) v.push_back({std::vector<int>(s.begin() + i, s.begin() + i + k), kind + "/" + nm<P>() + "/row " + std::to_string(row) + "/word " + std::to_string(i)});
    }
    void flush(vf::Trace &t)
    {
        t.put(Ev("rows").s("kind", kind).s("lvl", nm<P>()).iss("ms", ms));
        for (size_t i = 0; i < ms.size(); i++) cut(maskwins, ms[i], 5, i);
        if (!single.empty()) ds.push_back(single);
        // values too large for the specification's integers are far outside
        // any bound already
        for (auto &d : ds)
            for (auto &x : d) x = std::max<int64_t>(-1000000000, std::min<int64_t>(1000000000, x));
        for (size_t i = 0; i < ds.size(); i++) cut(noisewins, ds[i], 12, i);
        if (!ds.empty()) t.put(Ev("noise").s("kind", kind).s("lvl", nm<P>()).iss("ds", ds));
        if (ws.size() >= 300) t.put(Ev("bits").s("kind", kind).s("lvl", nm<P>()).i("from", from).ws("ws", ws));
    }
};

template <class P>
typename P::T gad(int i) { return (typename P::T)1 << (digits<P>() - (i + 1) * P::Bgbit); }

template <class P>
TRLWE<P> back(const TRLWEInFD<P> &f)
{
    TRLWE<P> c;
    for (int i = 0; i < 2; i++) {
        alignas(64) PolynomialInFD<P> x = f[i];
        alignas(64) Polynomial<P> q;
        TwistFFT<P>(q, x);
        c[i] = q;
    }
    return c;
}

// --------------------------------------------------- one encryption of a kind
struct Job {
    std::string kind, lvl;
    std::shared_ptr<void> out;
    std::function<void(vf::Trace &)> flush;
};
static SecretKey *sk;

template <class P>
void tlwejob(Job &j, int many)
{
    auto b = std::make_shared<Batch<P>>(j.kind);
    const auto key = sk->key.get<P>();
    auto v = std::make_shared<std::vector<TLWE<P>>>();
    if (j.kind == "boots") {
        *v = bootsSymEncrypt<P>(std::vector<uint8_t>(2 * many, 1), *sk);
        j.flush = [=](vf::Trace &t) {
            for (auto &c : *v) b->add(c, 40), b->noise(c, P::μ, key);
            b->flush(t);
        };
        return;
    }
    for (int i = 0; i < many; i++) v->push_back(tlweSymEncrypt<P>(0, key));
    j.flush = [=](vf::Trace &t) {
        int i = 0;
        for (auto &c : *v) b->add(c, i++ < 2 ? 1 << 13 : 40), b->noise(c, 0, key);
        b->flush(t);
    };
}
template <class P>
void ringjob(Job &j, int many)
{
    auto b = std::make_shared<Batch<P>>(j.kind);
    const auto key = sk->key.get<P>();
    auto v = std::make_shared<std::vector<std::pair<TRLWE<P>, Polynomial<P>>>>();
    const Polynomial<P> zero = {};
    if (j.kind == "ring" || j.kind == "zero" || j.kind == "ringint")
        for (int i = 0; i < many; i++) {
            Polynomial<P> p = {};
            if (j.kind == "zero") v->push_back({trlweSymEncryptZero<P>(key), p});
            if (j.kind == "ring") {
                p[0] = P::μ, p[7] = -P::μ;
                v->push_back({trlweSymEncrypt<P>(p, key), p});
            }
            if (j.kind == "ringint") {
                if constexpr (std::is_same_v<P, lvl1param>) {
                    p[3] = 1;
                    const auto c = trlweSymIntEncrypt<P>(p, key);
                    p[3] = (typename P::T)(P::Δ);
                    v->push_back({c, p});
                }
                else
                    v->push_back({trlweSymEncrypt<P>(p, P::α, key), p});
            }
        }
    Polynomial<P> bit = {};
    bit[0] = 1;
    if constexpr (!std::is_same_v<P, lvl3param>) {
        if (j.kind == "gadget") {
            const auto g = trgswSymEncrypt<P>(zero, key);
            for (auto &c : g) v->push_back({c, zero});
        }
        if (j.kind == "half")
            for (auto &c : halftrgswSymEncrypt<P>(zero, key)) v->push_back({c, zero});
        if (j.kind == "halffft") {
            auto d = big<HalfTRGSWFFT<P>>();
            *d = halftrgswfftSymEncrypt<P>(zero, key);
            for (auto &c : *d) v->push_back({back<P>(c), zero});
        }
        if (j.kind == "gadgetntt") {
            auto d = big<TRGSWNTT<P>>();
            *d = trgswnttSymEncrypt<P>(zero, key);
            for (auto &c : *d) {
                TRLWE<P> q;
                for (int i = 0; i < 2; i++) {
                    PolynomialNTT<P> f = c[i];
                    TwistNTT<P>(q[i], f);
                }
                v->push_back({q, zero});
            }
        }
        if (j.kind == "gadgetfft" || j.kind == "autokey") {
            auto d = big<TRGSWFFT<P>>();
            auto h = big<EvalAutoKey<P>>();
            if (j.kind == "gadgetfft")
                *d = trgswfftSymEncrypt<P>(zero, key);
            else
                evalautokeygen<P>(*h, 5, key);
            if (j.kind == "gadgetfft")
                for (auto &c : *d) v->push_back({back<P>(c), zero});
            else {
                Polynomial<P> part, a;
                for (uint32_t i = 0; i < P::n; i++) part[i] = key[i];
                for (uint32_t i = 0; i < P::n; i++) {  // part(X^5)
                    const uint32_t e = (5 * i) % (2 * P::n);
                    if (e < P::n) a[e] = part[i];
                    else a[e - P::n] = -part[i];
                }
                for (int r = 0; r < P::l; r++) {
                    Polynomial<P> m;
                    for (uint32_t i = 0; i < P::n; i++) m[i] = a[i] * gad<P>(r);
                    v->push_back({back<P>((*h)[0][r]), m});
                }
            }
        }
        if (j.kind == "relin") {
            const auto r = relinKeygen<P>(key);
            Polynomial<P> sq = {}, part;
            for (uint32_t i = 0; i < P::n; i++) part[i] = key[i];
            refmulacc<typename P::T, P::n>(sq, part, part);
            for (int i = 0; i < P::l; i++) {
                Polynomial<P> m;
                for (uint32_t k = 0; k < P::n; k++) m[k] = sq[k] * gad<P>(i);
                v->push_back({r[i], m});
            }
        }
    }
    // the transform domain does not keep the lowest bits of 64-bit words
    const bool exact = digits<P>() == 32 || (j.kind != "gadgetfft" && j.kind != "halffft" && j.kind != "gadgetntt" && j.kind != "autokey");
    j.flush = [=](vf::Trace &t) {
        int i = 0;
        if (!exact) b->from = 3;
        for (auto &c : *v) {
            b->add(c.first, i < 2 ? 1024 : 100);
            if (exact && i < 4) b->noise(c.first, c.second, key, P::n > 4000 ? 300 : 600);
            i++;
        }
        b->flush(t);
    };
}
static void perform(Job &j, int many)
{
    const bool single = j.kind == "tlwe" || j.kind == "boots";
    if (single && j.lvl == "lvl0") tlwejob<lvl0param>(j, many);
    if (single && j.lvl == "lvlhalf") tlwejob<lvlhalfparam>(j, many);
    if (single && j.lvl == "lvl1") tlwejob<lvl1param>(j, many);
    if (single && j.lvl == "lvl2") tlwejob<lvl2param>(j, many);
    if (single && j.lvl == "lvl3") tlwejob<lvl3param>(j, many);
    if (!single && j.lvl == "lvl1") ringjob<lvl1param>(j, many);
    if (!single && j.lvl == "lvl2") ringjob<lvl2param>(j, many);
}

// ------------------------------------------------------------------- key rows
template <class P>
void bkrows(vf::Trace &t, Rng &r, const char *kind)
{
    using G = typename P::targetP;
    auto bk = big<BootstrappingKey<P>>();
    bkgen<P>(*bk, *sk);
    const auto key = sk->key.get<G>();
    const auto dom = sk->key.get<typename P::domainP>();
    Batch<G> b(kind);
    for (size_t i = 0; i < bk->size(); i++)
        for (auto &row : (*bk)[i][0]) b.add(row, i % 100 == 3 ? 1024 : 5);
    std::set<std::vector<int>> taken;
    while (taken.size() < 24) {
        const int i = r.below(bk->size()), row = r.below(2 * G::l);
        if (!taken.insert({i, row}).second) continue;
        Polynomial<G> m = {};
        if (dom[i] && row >= (int)G::l) m[0] = gad<G>(row - G::l);
        if (dom[i] && row < (int)G::l)
            for (uint32_t k = 0; k < G::n; k++) m[k] = -(typename G::T)(gad<G>(row) * key[k]);
        b.noise((*bk)[i][0][row], m, key);
    }
    for (size_t i = 0; i < bk->size(); i++)
        for (int row = 0; row < 2 * (int)G::l; row++)
            if (!taken.count({(int)i, row})) b.noisehead((*bk)[i][0][row], key, [&](int c) -> typename G::T {
                if (!dom[i]) return 0;
                if (row >= (int)G::l) return c == 0 ? gad<G>(row - G::l) : 0;
                return -(typename G::T)(gad<G>(row) * key[c]);
            });
    b.flush(t);
}
// bootstrapping keys made directly in a transform domain
template <class P>
void bkdomain(vf::Trace &t, const char *kind)
{
    using G = typename P::targetP;
    const std::string k = kind;
    const auto key = sk->key.get<G>();
    const auto dom = sk->key.get<typename P::domainP>();
    Batch<G> b(k + nm<G>());
    const bool exact = digits<G>() == 32 && k != "bkraintt";
    if (!exact) b.from = digits<G>() == 32 ? 2 : 3;
    auto rows = [&](size_t i, const auto &get) {
        for (int row = 0; row < 2 * (int)G::l; row++) {
            const TRLWE<G> c = get(row);
            b.add(c, i % 100 == 3 ? 1024 : 5);
            if (exact && i < 300)
                b.noisehead(c, key, [&](int c) -> typename G::T {
                    if (!dom[i]) return 0;
                    if (row >= (int)G::l) return c == 0 ? gad<G>(row - G::l) : 0;
                    return -(typename G::T)(gad<G>(row) * key[c]);
                });
        }
    };
    if (k == "bkfft") {
        auto bk = big<BootstrappingKeyFFT<P>>();
        bkfftgen<P>(*bk, *sk);
        for (size_t i = 0; i < bk->size(); i++) rows(i, [&](int r) { return back<G>((*bk)[i][0][r]); });
    }
    if constexpr (digits<G>() == 32)
        if (k == "bkraintt") {
            auto bk = big<BootstrappingKeyRAINTT<P>>();
            bkrainttgen<P>(*bk, *sk);
            for (size_t i = 0; i < bk->size(); i++)
                rows(i, [&](int r) {
                    TRLWE<G> c;
                    for (int q = 0; q < 2; q++) {
                        PolynomialRAINTT<G> f = (*bk)[i][r][q];
                        for (uint32_t x = 0; x < G::n; x++) f[x] = raintt::MulSREDC(f[x], 1);
                        raintt::TwistNTT<typename G::T, G::nbit, true>(c[q], f, (*raintttable)[0], (*raintttwist)[0]);
                    }
                    return c;
                });
        }
    if (k == "bkntt") {
        auto bk = big<BootstrappingKeyNTT<P>>();
        bknttgen<P>(*bk, *sk);
        for (size_t i = 0; i < bk->size(); i++)
            rows(i, [&](int r) {
                TRLWE<G> c;
                for (int q = 0; q < 2; q++) {
                    PolynomialNTT<G> f = (*bk)[i][r][q];
                    TwistNTT<G>(c[q], f);
                }
                return c;
            });
    }
    b.flush(t);
}
template <class P>
void ikskrows(vf::Trace &t, Rng &r, const char *kind)
{
    using G = typename P::targetP;
    auto k = big<KeySwitchingKey<P>>();
    ikskgen<P>(*k, *sk);
    const auto key = sk->key.get<G>();
    const auto dom = sk->key.get<typename P::domainP>();
    Batch<G> b(kind);
    int n = 0;
    for (auto &x : *k)
        for (auto &y : x)
            for (auto &z : y) b.add(z, n++ % 5000 == 7 ? 600 : 5);
    std::set<std::vector<int>> taken;
    while (taken.size() < 2000) {
        const int i = r.below(k->size()), j = r.below((*k)[0].size()), u = r.below((*k)[0][0].size());
        if (!taken.insert({i, j, u}).second) continue;
        const auto m = static_cast<typename G::T>((typename G::T)dom[i] * (u + 1)) * ((typename G::T)1 << (digits<G>() - (j + 1) * P::basebit));
        b.noise((*k)[i][j][u], static_cast<typename G::T>(m), key);
    }
    // every row of the first positions, in the order of the key
    auto rest = std::move(b.single);
    b.single.clear();
    for (size_t i = 0; i < k->size() && b.single.size() < 2500; i++)
        for (size_t j = 0; j < (*k)[0].size(); j++)
            for (size_t u = 0; u < (*k)[0][0].size(); u++)
                if (!taken.count({(int)i, (int)j, (int)u}))
                    b.noise((*k)[i][j][u], static_cast<typename G::T>(static_cast<typename G::T>((typename G::T)dom[i] * (u + 1)) * ((typename G::T)1 << (digits<G>() - (j + 1) * P::basebit))), key);
    b.ds.push_back(std::move(b.single));
    b.single = std::move(rest);
    b.flush(t);
}
// the subset key: the target key is the first part of the source key
template <class P>
void subrows(vf::Trace &t, const char *kind)
{
    using G = typename P::targetP;
    auto k = big<SubsetKeySwitchingKey<P>>();
    subikskgen<P>(*k, *sk);
    const auto dom = sk->key.get<typename P::domainP>();
    Key<G> key;
    for (uint32_t i = 0; i < G::n; i++) key[i] = dom[i];
    Batch<G> b(kind);
    int n = 0;
    for (size_t i = 0; i < k->size(); i++)
        for (size_t j = 0; j < (*k)[0].size(); j++)
            for (size_t u = 0; u < (*k)[0][0].size(); u++) {
                b.add((*k)[i][j][u], n++ % 5000 == 7 ? 1024 : 5);
                if (b.single.size() < 3000)
                    b.noise((*k)[i][j][u], static_cast<typename G::T>(static_cast<typename G::T>((typename G::T)dom[G::n + i] * (u + 1)) * ((typename G::T)1 << (digits<G>() - (j + 1) * P::basebit))), key);
            }
    b.flush(t);
}
// rows of a sample-to-ring key and of the keys of all annihilation steps
template <class P>
void ringrows(vf::Trace &t, const char *kind)
{
    using G = typename P::targetP;
    using T = typename G::T;
    auto k = big<TLWE2TRLWEIKSKey<P>>();
    tlwe2trlweikskgen<P>(*k, *sk);
    const auto dom = sk->key.get<typename P::domainP>();
    const auto key = sk->key.get<G>();
    Batch<G> b(kind);
    int n = 0;
    for (size_t i = 0; i < k->size(); i++)
        for (size_t j = 0; j < (*k)[0].size(); j++)
            for (size_t u = 0; u < (*k)[0][0].size(); u++) {
                const auto &c = (*k)[i][j][u];
                b.add(c, n++ % 9000 == 7 ? 1024 : 5);
                if (n < 2000) b.noisehead(c, key, [&](int q) -> T { return q ? 0 : static_cast<T>(static_cast<T>((T)dom[i] * (u + 1)) << (digits<G>() - (j + 1) * P::basebit)); });
            }
    b.flush(t);
}
template <class P>
void annrows(vf::Trace &t)
{
    Batch<P> b("annihilation");
    auto k = big<AnnihilateKey<P>>();
    annihilatekeygen<P>(*k, *sk);
    if (digits<P>() == 64) b.from = 3;
    for (auto &x : *k)
        for (auto &c : x[0]) b.add(back<P>(c), 1024);
    b.flush(t);
}
template <class P, class K>
void privrows(vf::Trace &t, Rng &r, const char *kind, const K &k, const Polynomial<typename P::targetP> &f)
{
    using G = typename P::targetP;
    using T = typename G::T;
    const auto key = sk->key.get<G>();
    const auto dom = sk->key.get<typename P::domainP>();
    Batch<G> b(kind);
    int n = 0;
    for (auto &x : k)
        for (auto &y : x)
            for (auto &z : y) b.add(z, n++ % 9000 == 7 ? 1024 : 5);
    std::set<std::vector<int>> taken;
    for (int q = 0; q < 24; q++) {
        const int i = q % 8 == 0 ? k.size() - 1 : r.below(k.size()), j = r.below(k[0].size()), u = r.below(k[0][0].size());
        if (!taken.insert({i, j, u}).second) continue;
        const T s = i == (int)k.size() - 1 ? (T)-1 : (T)dom[i];
        Polynomial<G> m;
        for (uint32_t c = 0; c < G::n; c++) m[c] = static_cast<T>((u + 1) * f[c] * s) << (digits<G>() - (j + 1) * P::basebit);
        b.noise(k[i][j][u], m, key);
    }
    for (const size_t from : {size_t{0}, k.size() - 5}) {
        int left = 1500;
        for (size_t i = from; i < k.size(); i++)
            for (size_t j = 0; j < k[0].size(); j++)
                for (size_t u = 0; u < k[0][0].size(); u++) {
                    if (left-- <= 0 || taken.count({(int)i, (int)j, (int)u})) continue;
                    const T s = i == k.size() - 1 ? (T)-1 : (T)dom[i];
                    b.noisehead(k[i][j][u], key, [&](int c) -> T { return static_cast<T>((u + 1) * f[c] * s) << (digits<G>() - (j + 1) * P::basebit); });
                }
    }
    b.flush(t);
}

int main(int, char **argv)
{
    const std::string s = argv[1];
    vf::Trace t(argv[2]);
    Rng r(s);
    auto own = std::make_unique<SecretKey>();
    sk = own.get();
    const std::vector<std::pair<const char *, const char *>> kinds = {
        {"tlwe", "lvl0"}, {"tlwe", "lvlhalf"}, {"tlwe", "lvl1"}, {"tlwe", "lvl2"}, {"tlwe", "lvl3"}, {"boots", "lvl0"}, {"boots", "lvlhalf"}, {"boots", "lvl1"}, {"boots", "lvl2"}, {"ring", "lvl1"}, {"ring", "lvl2"}, {"zero", "lvl1"}, {"zero", "lvl2"}, {"ringint", "lvl1"}, {"ringint", "lvl2"}, {"gadget", "lvl1"}, {"gadget", "lvl2"}, {"gadgetfft", "lvl1"}, {"gadgetfft", "lvl2"}, {"autokey", "lvl1"}, {"autokey", "lvl2"}, {"relin", "lvl1"}, {"relin", "lvl2"}, {"half", "lvl1"}, {"half", "lvl2"}, {"halffft", "lvl1"}, {"halffft", "lvl2"}, {"gadgetntt", "lvl1"}};
    if (s == "single") {
        for (auto &k : kinds) {
            Job j{k.first, k.second};
            perform(j, std::string(k.first) == "tlwe" ? 400 : 200);
            j.flush(t);
        }
    }
    if (s == "burst") {
        // all threads at once, all kinds mixed; workers that stay and threads
        // that start for one encryption
        for (int round = 0; round < pick(3, 16); round++) {
            std::vector<Job> js;
            for (int i = 0; i < 48; i++) {
                auto k = kinds[(i + round) % kinds.size()];
                if (i % 2) k = {i % 4 == 1 ? "tlwe" : "ring", i % 8 < 4 ? "lvl1" : "lvl2"};
                js.push_back({k.first, k.second});
            }
            for (size_t i = 0; i < js.size(); i += 16) {
                Barrier b(16);
                std::vector<std::thread> th;
                for (int q = 0; q < 16; q++)
                    th.emplace_back([&, q] {
                        b.wait();
                        perform(js[i + q], 20);
                    });
                for (auto &x : th) x.join();
            }
#pragma omp parallel for schedule(dynamic)
            for (int i = 0; i < 12; i++) {
                Job j{i % 2 ? "tlwe" : "ring", i % 3 ? "lvl1" : "lvl2"};
                perform(j, 30);
#pragma omp critical
                js.push_back(j);
            }
            for (auto &j : js) j.flush(t);
        }
    }
    if (s == "hist") {
        Workers w(12);
        int prog = 0;
        for (const auto &rec : readprog(argv[3])) {
            const std::string op = rec.at("op");
            if (op == "begin") {
                if (prog++ == pick(8, 60)) break;
                continue;
            }
            const int th = num(rec, "thread");
            if (op == "do") {
                Job j{rec.at("kind"), rec.at("lvl")};
                w.run(th == 4 ? 99 : th, [&] { perform(j, 12); });
                j.flush(t);
            }
            else {
                std::vector<Job> js(th, Job{rec.at("kind"), rec.at("lvl")});
                for (int i = 0; i < th; i++) w.post(i, [&, i] { perform(js[i], 12); });
                for (int i = 0; i < th; i++) w.wait(i);
                for (auto &j : js) j.flush(t);
            }
        }
    }
    if (s == "boot") {
        bkrows<lvl01param>(t, r, "bklvl01");
        bkrows<lvlh1param>(t, r, "bklvlh1");
        bkrows<lvl02param>(t, r, "bklvl02");
        bkrows<lvlh2param>(t, r, "bklvlh2");
    }
    if (s == "domain") {
        bkdomain<lvl01param>(t, "bkfft");
        bkdomain<lvlh1param>(t, "bkfft");
        bkdomain<lvl02param>(t, "bkfft");
        bkdomain<lvl01param>(t, "bkntt");
        bkdomain<lvl01param>(t, "bkraintt");
        annrows<lvl1param>(t);
        annrows<lvl2param>(t);
    }
    if (s == "rings") {
        ringrows<lvl11param>(t, "toring");
        subrows<lvl21param>(t, "subiksklvl21");
    }
    if (s == "switch") {
        ikskrows<lvl10param>(t, r, "iksklvl10");
        ikskrows<lvl1hparam>(t, r, "iksklvl1h");
        ikskrows<lvl20param>(t, r, "iksklvl20");
        ikskrows<lvl2hparam>(t, r, "iksklvl2h");
        ikskrows<lvl21param>(t, r, "iksklvl21");
        ikskrows<lvl11param>(t, r, "iksklvl11");
    }
    if (s == "private") {
        Polynomial<lvl1param> f;
        for (auto &x : f) x = (uint32_t)r.next();
        auto k = big<PrivateKeySwitchingKey<lvl11param>>();
        privkskgen<lvl11param>(*k, f, *sk);
        privrows<lvl11param>(t, r, "privksklvl11", *k, f);
        auto q = big<SubsetPrivateKeySwitchingKey<lvl21param>>();
        subprivkskgen<lvl21param>(*q, f, *sk);
        privrows<lvl21param>(t, r, "subprivksklvl21", *q, f);
    }
    if (s == "wide") {
        Polynomial<lvl2param> f;
        for (auto &x : f) x = r.next();
        auto k = big<PrivateKeySwitchingKey<lvl22param>>();
        privkskgen<lvl22param>(*k, f, *sk);
        privrows<lvl22param>(t, r, "privksklvl22", *k, f);
    }
    order(t, "mask", 5, maskwins);
    order(t, "noise", 12, noisewins);
    t.put(Ev("end"));
    return 0;
}
