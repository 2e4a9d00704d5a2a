// C10: encrypted memory driven by histories that the specification generated.
#include "common.hpp"
#include "prog.hpp"
using namespace vf;

template <class P>
const char *nm()
{
    return std::is_same_v<P, lvl1param> ? "lvl1" : "lvl2";
}

template <class P>
Polynomial<P> content(Rng &r, int kind)
{
    using T = typename P::T;
    Polynomial<P> p = {};
    if (kind == 0) p = randpoly<P>(r);
    if (kind == 1)
        for (auto &x : p) x = static_cast<T>(r.bit() ? P::μ : -P::μ);
    if (kind == 3)
        for (auto &x : p) x = static_cast<T>(static_cast<T>(1) << (digits<P>() - 1));
    return p;
}

template <class P>
TRGSWFFT<P> selector(int bit, const SecretKey &sk)
{
    Polynomial<P> m = {};
    m[0] = bit;
    return trgswfftSymEncrypt<P>(m, sk.key.get<P>());
}

template <class P>
void coef(Trace &t, Rng &r, const TRLWE<P> &c, const Polynomial<P> &ph)
{
    const int j = r.below(P::n);
    t.put(Ev("coef").s("lvl", nm<P>()).i("j", j).ws("a", c[0]).w("b", c[1][j]).w("ph", ph[j]));
}

template <class P, uint32_t AB>
void ram(Trace &t, Rng &r, const SecretKey &sk, const std::vector<Rec> &ops)
{
    const auto &key = sk.key.get<P>();
    auto mem = big<std::array<TRLWE<P>, 1 << AB>>();
    auto next = big<std::array<TRLWE<P>, 1 << AB>>();
    std::vector<Polynomial<P>> ph;
    for (auto &c : *mem) {
        ph.push_back(content<P>(r, r.below(4) == 0 ? 1 : 0));
        c = craft<P>(ph.back(), key, r);
    }
    t.put(Ev("memory").s("lvl", nm<P>()).i("abit", AB).i("wbit", 0).wss("cells", ph));
    auto sel = big<std::array<std::array<TRGSWFFT<P>, AB>, 2>>();
    int count = 0;
    for (const auto &op : ops) {
        if (count++ == pick(6, AB > 4 ? 8 : 100)) break;
        const int addr = num(op, "addr");
        for (uint32_t b = 0; b < AB; b++)
            for (int v = 0; v < 2; v++) (*sel)[v][b] = selector<P>(((addr >> b) & 1) == v, sk);
        const auto keep = digest(mem->data(), sizeof(*mem)), ks = digest(sel->data(), sizeof(*sel));
        if (op.at("op") == "read") {
            auto res = big<TRLWE<P>>();
            for (auto &p : *res) p = randpoly<P>(r);
            RAMUX<P, AB>(*res, (*sel)[0], *mem);
            const auto rp = refphase<P>(*res, key);
            t.put(Ev("read").i("addr", addr).ws("r", rp));
            coef<P>(t, r, *res, rp);
            t.put(Ev("same").s("what", "reading").b("ok", keep == digest(mem->data(), sizeof(*mem)) && ks == digest(sel->data(), sizeof(*sel))));
        }
        else {
            const auto val = content<P>(r, num(op, "val"));
            const auto w = craft<P>(val, key, r);
            const auto kw = w;
            std::vector<Polynomial<P>> now;
            for (uint32_t i = 0; i < 1 << AB; i++) {
                RAMwriteBar<P, AB>((*next)[i], w, (*mem)[i], i, *sel);
                now.push_back(refphase<P>((*next)[i], key));
            }
            t.put(Ev("same").s("what", "writing").b("ok", kw == w && keep == digest(mem->data(), sizeof(*mem)) && ks == digest(sel->data(), sizeof(*sel))));
            std::swap(mem, next);
            t.put(Ev("write").i("addr", addr).ws("v", val).wss("cells", now));
            const int c = r.below(1 << AB);
            coef<P>(t, r, (*mem)[c], now[c]);
        }
    }
}

template <class P, uint32_t AB, uint32_t WB>
void rom(Trace &t, Rng &r, const SecretKey &sk, const std::vector<Rec> &ops, const EvalKey *ek)
{
    const auto &key = sk.key.get<P>();
    constexpr int num_trlwe = 1 << (AB - WB);
    constexpr int word = 1 << (P::nbit - WB);
    auto mem = big<std::array<TRLWE<P>, num_trlwe>>();
    std::vector<Polynomial<P>> ph;
    for (auto &c : *mem) {
        ph.push_back(content<P>(r, r.below(4) == 0 ? 1 : 0));
        c = craft<P>(ph.back(), key, r);
    }
    t.put(Ev("memory").s("lvl", nm<P>()).i("abit", AB).i("wbit", WB).wss("cells", ph));
    auto sel = big<std::array<TRGSWFFT<P>, AB>>();
    int count = 0;
    for (const auto &op : ops) {
        if (count++ == pick(ek ? 3 : AB - WB > 4 ? 4 : 6, 100)) break;
        const int addr = num(op, "addr");
        for (uint32_t b = 0; b < AB; b++) {
            const int bit = (addr >> b) & 1;
            if constexpr (std::is_same_v<P, lvl1param>) {
                if (ek) {
                    const auto in = craft<P>(bit ? P::μ : -P::μ, key, r);
                    if (b < WB) CircuitBootstrappingFFT<lvl10param, lvl02param, lvl21param>((*sel)[b], in, *ek);
                    else CircuitBootstrappingFFTInv<lvl10param, lvl02param, lvl21param>((*sel)[b], in, *ek);
                    continue;
                }
            }
            (*sel)[b] = selector<P>(b < WB ? bit : 1 - bit, sk);
        }
        const auto keep = digest(mem->data(), sizeof(*mem)), ks = digest(sel->data(), sizeof(*sel));
        auto mid = big<TRLWE<P>>();
        UROMUX<P, AB, WB>(*mid, *sel, *mem);
        const auto km = *mid;
        std::vector<TLWE<P>> res(word);
        LROMUX<P, AB, WB>(res, *sel, *mid);
        std::vector<typename P::T> out;
        for (const auto &c : res) out.push_back(refphase<P>(c, key));
        t.put(Ev("rom").i("addr", addr).i("boot", ek != nullptr).ws("vertical", refphase<P>(*mid, key)).ws("out", out));
        const int k = r.below(word);
        t.put(Ev("sample").s("lvl", nm<P>()).ws("c", res[k]).w("ph", out[k]));
        t.put(Ev("same").s("what", "reading").b("ok", km == *mid && keep == digest(mem->data(), sizeof(*mem)) && ks == digest(sel->data(), sizeof(*sel))));
    }
}

// the whole flow on bits: bootstrapped addresses, conditional write, refresh
template <uint32_t AB>
void full(Trace &t, Rng &r, const SecretKey &sk, const EvalKey &ek, const std::vector<Rec> &ops)
{
    using P = lvl1param;
    const auto &key = sk.key.lvl1;
    auto mem = big<std::array<TRLWE<P>, 1 << AB>>();
    auto next = big<std::array<TRLWE<P>, 1 << AB>>();
    std::vector<int> bits;
    for (auto &c : *mem) {
        bits.push_back(r.bit());
        Polynomial<P> p = {};
        p[0] = bits.back() ? P::μ : -P::μ;
        c = craft<P>(p, key, r);
    }
    t.put(Ev("bits").i("abit", AB).is("vals", bits));
    auto sel = big<std::array<std::array<TRGSWFFT<P>, AB>, 2>>();
    int count = 0;
    for (const auto &op : ops) {
        if (count++ == pick(4, 60)) break;
        const int addr = num(op, "addr"), val = num(op, "val") & 1, set = op.at("op") == "set";
        for (uint32_t b = 0; b < AB; b++)
            CircuitBootstrappingFFTwithInv<lvl10param, lvl02param, lvl21param>((*sel)[1][b], (*sel)[0][b], craft<P>((addr >> b) & 1 ? P::μ : -P::μ, key, r), ek);
        auto um = big<TRLWE<P>>(), w = big<TRLWE<P>>(), tmp = big<TRLWE<P>>();
        RAMUX<P, AB>(*um, (*sel)[0], *mem);
        TLWE<P> rd, e;
        SampleExtractIndex<P>(rd, *um, 0);
        HomMUXwoSE<lvl10param, lvl01param>(*w, craft<P>(set ? P::μ : -P::μ, key, r), craft<P>(val ? P::μ : -P::μ, key, r), rd, ek);
        std::vector<uint32_t> out;
        TLWE<lvl0param> s;
        for (uint32_t i = 0; i < 1 << AB; i++) {
            RAMwriteBar<P, AB>(*tmp, *w, (*mem)[i], i, *sel);
            SampleExtractIndex<P>(e, *tmp, 0);
            IdentityKeySwitch<lvl10param>(s, e, ek.getiksk<lvl10param>());
            BlindRotate<lvl01param>((*next)[i], s, ek.getbkfft<lvl01param>(), μpolygen<P, P::μ>());
            SampleExtractIndex<P>(e, (*next)[i], 0);
            out.push_back(refphase<P>(e, key));
        }
        std::swap(mem, next);
        t.put(Ev("access").i("addr", addr).i("set", set).i("val", val).w("rd", refphase<P>(rd, key)).ws("cells", out));
    }
}

// a wide memory, one cell at a time: a write leaves every other address alone
template <class P, uint32_t AB>
void wide(Trace &t, Rng &r, const SecretKey &sk)
{
    const auto &key = sk.key.get<P>();
    auto sel = big<std::array<std::array<TRGSWFFT<P>, AB>, 2>>();
    for (int rep = 0; rep < pick(3, 12); rep++) {
        const int addr = rep == 0 ? (1 << AB) - 1 : rep == 1 ? 1 << (AB - 1) : r.below(1 << AB);
        for (uint32_t b = 0; b < AB; b++)
            for (int v = 0; v < 2; v++) (*sel)[v][b] = selector<P>(((addr >> b) & 1) == v, sk);
        std::vector<int> cells = {addr, 0, (1 << AB) - 1};
        for (uint32_t b = 0; b < AB; b++) cells.push_back(addr ^ (1 << b));
        for (int i = 0; i < 6; i++) cells.push_back(r.below(1 << AB));
        for (const int i : cells) {
            const auto val = content<P>(r, 0), old = content<P>(r, 0);
            const auto w = craft<P>(val, key, r), m = craft<P>(old, key, r);
            const auto kw = w, km = m;
            auto res = big<TRLWE<P>>();
            for (auto &p : *res) p = randpoly<P>(r);
            RAMwriteBar<P, AB>(*res, w, m, i, *sel);
            t.put(Ev("cell").s("lvl", nm<P>()).i("abit", AB).i("addr", addr).i("index", i).ws("v", val).ws("old", old).ws("r", refphase<P>(*res, key)));
            t.put(Ev("same").s("what", "writing").b("ok", kw == w && km == m));
        }
    }
}

int main(int, char **argv)
{
    const std::string s = argv[1];
    Trace t(argv[2]);
    Rng r(s);
    SecretKey sk;
    t.put(Ev("key").s("lvl", "lvl1").is("vals", signedkey(sk.key.lvl1)));
    t.put(Ev("key").s("lvl", "lvl2").is("vals", signedkey(sk.key.lvl2)));
    if (s == "wide") {
        wide<lvl1param, 8>(t, r, sk);
        wide<lvl1param, 9>(t, r, sk);
        wide<lvl1param, 16>(t, r, sk);
        wide<lvl2param, 10>(t, r, sk);
        return 0;
    }
    EvalKey ek;
    if (s == "full" || s == "romcb") {
        ek.emplaceiksk<lvl10param>(sk);
        ek.emplacebkfft<lvl01param>(sk);
        ek.emplacebkfft<lvl02param>(sk);
        ek.emplaceprivksk4cb<lvl21param>(sk);
    }
    std::vector<std::vector<Rec>> progs;
    for (const auto &x : readprog(argv[3]))
        if (x.at("op") == "begin") progs.push_back({});
        else progs.back().push_back(x);
    std::map<std::string, int> seen;
    for (const auto &p : progs) {
        const auto &h = p[0];
        const std::string m = h.at("mem");
        const int lvl = num(h, "lvl"), a = num(h, "abit"), w = num(h, "wbit");
        const std::string shape = m + std::to_string(lvl) + "." + std::to_string(a) + "." + std::to_string(w);
        if (s == "ram1" && m == "ram" && lvl == 1) {
            if (++seen[shape] > pick(a == 6 ? 1 : 2, 8)) continue;
            if (a == 2) ram<lvl1param, 2>(t, r, sk, p);
            if (a == 3) ram<lvl1param, 3>(t, r, sk, p);
            if (a == 4) ram<lvl1param, 4>(t, r, sk, p);
            if (a == 6) ram<lvl1param, 6>(t, r, sk, p);
        }
        if (s == "ram2" && m == "ram" && lvl == 2) {
            if (++seen[shape] > pick(1, 6)) continue;
            if (a == 2) ram<lvl2param, 2>(t, r, sk, p);
            if (a == 3) ram<lvl2param, 3>(t, r, sk, p);
        }
        if (s == "rom" && m == "rom") {
            if (++seen[shape] > pick(2, 10)) continue;
            if (lvl == 1 && a == 4 && w == 1) rom<lvl1param, 4, 1>(t, r, sk, p, nullptr);
            if (lvl == 1 && a == 4 && w == 2) rom<lvl1param, 4, 2>(t, r, sk, p, nullptr);
            if (lvl == 1 && a == 6 && w == 1) rom<lvl1param, 6, 1>(t, r, sk, p, nullptr);
            if (lvl == 1 && a == 10 && w == 3) rom<lvl1param, 10, 3>(t, r, sk, p, nullptr);
            if (a == 8) rom<lvl1param, 8, 6>(t, r, sk, p, nullptr);
            if (a == 9) rom<lvl1param, 9, 5>(t, r, sk, p, nullptr);
            if (a == 12) rom<lvl1param, 12, 10>(t, r, sk, p, nullptr);
            if (a == 5) rom<lvl2param, 5, 3>(t, r, sk, p, nullptr);
            if (a == 13) rom<lvl2param, 13, 11>(t, r, sk, p, nullptr);
        }
        if (s == "romcb" && m == "rom" && a == 4 && ++seen[shape] <= pick(1, 3)) {
            if (w == 1) rom<lvl1param, 4, 1>(t, r, sk, p, &ek);
            else rom<lvl1param, 4, 2>(t, r, sk, p, &ek);
        }
        if (s == "full" && m == "full") {
            if (++seen[shape] > pick(1, 5)) continue;
            if (a == 2) full<2>(t, r, sk, ek, p);
            if (a == 3) full<3>(t, r, sk, ek, p);
        }
    }
}
