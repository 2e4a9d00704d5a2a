// C18: modular arithmetic and number-theoretic transforms.
#include "common.hpp"
#include <cuhe++.hpp>
#include <raintt.hpp>
using namespace vf;
using cuHEpp::INTorus;
using u64 = uint64_t;
using u128 = unsigned __int128;
constexpr u64 FP = cuHEpp::P;

static u64 canon(Rng &r)
{
    u64 v;
    do {
        switch (r.below(4)) {
        case 0: v = r.next(); break;
        case 1: {  // halves at corners
            const uint32_t c[] = {0, 1, 2, 0xffffffff, 0xfffffffe, 0x80000000, 0x7fffffff};
            const u64 hi = r.bit() ? c[r.below(7)] : (uint32_t)r.next(), lo = r.bit() ? c[r.below(7)] : (uint32_t)r.next();
            v = hi << 32 | lo;
            break;
        }
        case 2: v = 1ULL << r.below(64); v += r.range(-2, 2); break;
        default: v = FP - 1 - r.below(1ULL << r.below(34)); break;
        }
    } while (v >= FP);
    return v;
}
static std::vector<u64> corners()
{
    std::vector<u64> c = {0, 1, 2, 3, FP - 1, FP - 2, FP / 2, FP / 2 + 1};
    for (u64 x : {0x7fffffffULL, 0x80000000ULL, 0x80000001ULL, 0xfffffffeULL, 0xffffffffULL, 0x100000000ULL, 0x100000001ULL, 0x1fffffffeULL, 0x1ffffffffULL, 0x200000000ULL, 0x7fffffff00000000ULL, 0x7fffffffffffffffULL, 0x8000000000000000ULL,
                  0x8000000080000000ULL, 0xfffffffe00000000ULL, 0xfffffffe00000001ULL, 0xfffffffe80000000ULL, 0xfffffffeffffffffULL, 0xffff0000ffff0000ULL, 0x0000ffff0000ffffULL})
        c.push_back(x);
    return c;
}
struct Batch {
    vf::Trace &t;
    const char *op;
    std::vector<u64> a, b, r, r2, q;
    void add(u64 x, u64 y)
    {
        const std::string o = op;
        const INTorus X(x, false), Y(y, false);
        INTorus Z = X;
        u64 v, w = 0;
        if (o == "add") v = (X + Y).value, Z += Y;
        else if (o == "sub") v = (X - Y).value, Z -= Y;
        else {
            v = (X * Y).value, Z *= Y;
            w = (u64)(((u128)x * y) / FP);
        }
        a.push_back(x), b.push_back(y), r.push_back(v), r2.push_back(Z.value), q.push_back(w);
        if (a.size() == 256) flush();
    }
    void flush()
    {
        if (a.empty()) return;
        t.put(Ev("field").s("op", op).ws("a", a).ws("b", b).ws("r", r).ws("r2", r2).ws("q", q));
        a.clear(), b.clear(), r.clear(), r2.clear(), q.clear();
    }
    ~Batch() { flush(); }
};

// sum of products and its quotient by the prime
struct Acc {
    u128 q = 0, r = 0;
    void add(u64 a, u64 b)
    {
        const u128 p = (u128)a * b;
        q += (u64)(p / FP), r += (u64)(p % FP);
        q += r / FP, r %= FP;
    }
};
static std::string words(u128 v, int n)
{
    std::string o = "[";
    for (int i = 0; i < n; i++) o += (i ? "," : "") + std::to_string((unsigned)(v >> (16 * i)) & 0xffff);
    return o + "]";
}

template <uint32_t NB>
void transforms(vf::Trace &t, Rng &r)
{
    constexpr uint32_t N = 1u << NB;
    using A = std::array<INTorus, N>;
    const auto table = cuHEpp::TableGen<NB>();
    const auto twist = cuHEpp::TwistGen<NB>();
    const INTorus invN = cuHEpp::InvPow2(NB);
    for (int rep = 0; rep < pick(NB > 8 ? 2 : 4, 12); rep++) {
        auto x = std::make_unique<A>(), f = std::make_unique<A>();
        for (uint32_t i = 0; i < N; i++) (*x)[i] = INTorus(rep == 0 ? FP - 1 : rep == 1 ? (i % 2 ? FP - 1 : 0xffffffffULL) : canon(r), false);
        std::vector<u64> in, out;
        for (auto &v : *x) in.push_back(v.value);
        *f = *x;
        cuHEpp::INTT<NB, 6>(*f, (*table)[1]);
        auto b = std::make_unique<A>(*f);
        cuHEpp::NTT<NB, 6>(*b, (*table)[0]);
        for (auto &v : *b) out.push_back((v * invN).value);
        t.put(Ev("trip").i("nbit", NB).ws("x", in).ws("y", out));
        // products in the transform domain, cyclic and negacyclic
        for (int neg = 0; neg < 2; neg++) {
            std::map<uint32_t, u64> terms;
            const int nt = NB <= 4 ? N : 2 + r.below(8);
            for (int i = 0; i < nt; i++) terms[NB <= 4 ? i : i < 2 ? i * (N - 1) : r.below(N)] = canon(r);
            auto g = std::make_unique<A>(), h = std::make_unique<A>(*x);
            for (auto &v : *g) v = INTorus(0, false);
            for (auto &[e, c] : terms) (*g)[e] = INTorus(c, false);
            if (neg)
                for (uint32_t i = 0; i < N; i++) (*g)[i] *= (*twist)[1][i], (*h)[i] *= (*twist)[1][i];
            cuHEpp::INTT<NB, 6>(*g, (*table)[1]);
            cuHEpp::INTT<NB, 6>(*h, (*table)[1]);
            for (uint32_t i = 0; i < N; i++) (*h)[i] *= (*g)[i];
            cuHEpp::NTT<NB, 6>(*h, (*table)[0]);
            for (uint32_t i = 0; i < N; i++) {
                if (neg) (*h)[i] *= (*twist)[0][i];
                (*h)[i] *= invN;
            }
            std::vector<uint32_t> pos;
            if (NB <= 4)
                for (uint32_t i = 0; i < N; i++) pos.push_back(i);
            else {
                pos = {0, 1, N / 2, N - 1};
                for (int i = 0; i < 12; i++) pos.push_back(r.below(N));
            }
            std::vector<int> e;
            std::vector<u64> c, val;
            for (auto &[k, v] : terms) e.push_back(k), c.push_back(v);
            std::string q = "[";
            for (auto p : pos) {
                Acc acc;
                for (auto &[k, v] : terms) {
                    const uint32_t at = (p + N - k) % N;
                    const u64 y = (*x)[at].value;
                    acc.add(v, k <= p || !neg ? y : y == 0 ? 0 : FP - y);
                }
                q += (q.size() > 1 ? "," : "") + words(acc.q, 5);
                val.push_back((*h)[p].value);
            }
            t.put(Ev("conv").i("nbit", NB).b("neg", neg).is("e", e).ws("c", c).is("pos", pos).ws("val", val).raw("q", q + "]"));
            // the whole of it against a second computation with the same rule
            std::vector<u64> full, mine;
            for (uint32_t p = 0; p < N; p++) {
                Acc acc;
                for (auto &[k, v] : terms) {
                    const u64 y = (*x)[(p + N - k) % N].value;
                    acc.add(v, k <= p || !neg ? y : y == 0 ? 0 : FP - y);
                }
                full.push_back((*h)[p].value), mine.push_back((u64)acc.r);
            }
            t.put(Ev("same").i("nbit", NB).ws("x", full).ws("y", mine));
        }
    }
}

// ------------------------------------------------------- small prime ------
constexpr int64_t RP = raintt::P;
static int64_t rsigned(Rng &r)
{
    switch (r.below(5)) {
    case 0: return r.range(-(RP - 1), -(RP - 1) + 3);
    case 1: return r.range(RP - 4, RP - 1);
    case 2: return r.range(-3, 3);
    case 3: return (1 << r.below(30)) % RP * (r.bit() ? 1 : -1);
    default: return r.range(-(RP - 1), RP - 1);
    }
}
struct RBatch {
    vf::Trace &t;
    const char *op;
    std::vector<int64_t> a, b, rr;
    std::vector<int64_t> x, q;
    void put(int64_t A, int64_t B2, int64_t X, int64_t R)
    {
        a.push_back(A), b.push_back(B2), x.push_back(X), rr.push_back(R);
        q.push_back((int64_t)(((__int128)X - ((__int128)R << 32)) / RP));
        if (a.size() == 256) flush();
    }
    void flush()
    {
        if (a.empty()) return;
        t.put(Ev("mont").s("op", op).is("a", a).is("b", b).is("r", rr).ws("x", x).ws("q", q));
        a.clear(), b.clear(), rr.clear(), x.clear(), q.clear();
    }
    ~RBatch() { flush(); }
};

template <uint32_t NB>
void rtransforms(vf::Trace &t, Rng &r)
{
    constexpr uint32_t N = 1u << NB;
    using A = std::array<raintt::DoubleSWord, N>;
    using U = std::array<uint32_t, N>;
    const auto table = raintt::TableGen<NB>();
    const auto twist = raintt::TwistGen<NB, 3>();
    for (int rep = 0; rep < pick(NB > 8 ? 4 : 5, 20); rep++) {
        auto x = std::make_unique<U>();
        for (auto &v : *x) v = (uint32_t)(rep == 0 ? RP - 1 : rep == 1 ? -(RP - 1) : rsigned(r));
        // product with a sparse polynomial of residues
        std::map<uint32_t, int64_t> terms;
        const int nt = rep == 0 ? N : NB <= 4 ? N : 2 + r.below(8);
        for (int i = 0; i < nt; i++) terms[NB <= 4 || rep == 0 ? i : i < 2 ? i * (N - 1) : r.below(N)] = rep == 0 ? -(RP - 1) : rsigned(r);
        if (rep == 2) terms = {{0, 1}};
        auto g = std::make_unique<U>(), res = std::make_unique<U>(), x0 = std::make_unique<U>(*x);
        g->fill(0);
        for (auto &[e, c] : terms) (*g)[e] = (uint32_t)c;
        raintt::PolyMullvl1<uint32_t, NB, false, false>(*res, *x, *g, *table, *twist);
        std::vector<int> e;
        std::vector<int64_t> c, xs, full, mine;
        for (auto v : *x0) xs.push_back((int32_t)v);
        for (auto &[k, v] : terms) e.push_back(k), c.push_back(v);
        for (uint32_t p = 0; p < N; p++) {
            int64_t acc = 0;
            for (auto &[k, v] : terms) {
                const int64_t y = xs[(p + N - k) % N];
                acc = (int64_t)(((__int128)v * (k <= p ? y : -y) + acc) % RP);
            }
            mine.push_back(acc < 0 ? acc + RP : acc), full.push_back((int64_t)(*res)[p]);
        }
        std::vector<uint32_t> pos;
        if (NB <= 4)
            for (uint32_t i = 0; i < N; i++) pos.push_back(i);
        else {
            pos = {0, 1, N / 2, N - 1};
            if (terms.size() < 20)
                for (int i = 0; i < 12; i++) pos.push_back(r.below(N));
        }
        std::string q = "[";
        for (auto p : pos) {
            __int128 s = 0;
            for (auto &[k, v] : terms) {
                const int64_t y = xs[(p + N - k) % N];
                s += (__int128)v * (k <= p ? y : -y);
            }
            const int64_t rem = (int64_t)(((s % RP) + RP) % RP);
            q += (q.size() > 1 ? "," : "") + words((u128)((s - rem) / RP), 5);
        }
        std::vector<int64_t> val;
        for (auto p : pos) val.push_back((int64_t)(*res)[p]);
        t.put(Ev("rconv").i("nbit", NB).is("x", xs).is("e", e).is("c", c).is("pos", pos).is("val", val).raw("q", q + "]"));
        t.put(Ev("rsame").i("nbit", NB).is("x", full).is("y", mine));
        // the raw round trip used by the library: forward, then back
        A f;
        raintt::TwistINTT<uint32_t, NB, false>(f, *x0, (*table)[1], (*twist)[1]);
        constexpr uint8_t rem = ((NB - 1) % 3) + 1;
        for (uint32_t i = 0; i < N; i++)
            if ((i & ((1u << rem) - 1)) > 1) f[i] = raintt::MulSREDC((raintt::SWord)f[i], raintt::R2);
        raintt::TwistNTT<uint32_t, NB, false>(*res, f, (*table)[0], (*twist)[0]);
        full.clear(), mine.clear();
        for (uint32_t i = 0; i < N; i++) full.push_back((int64_t)(*res)[i]), mine.push_back(xs[i] < 0 ? xs[i] + RP : xs[i]);
        t.put(Ev("rsame").i("nbit", NB).is("x", full).is("y", mine));
    }
}

int main(int, char **argv)
{
    const std::string s = argv[1];
    vf::Trace t(argv[2]);
    Rng r(s);
    const auto cs = corners();
    if (s == "addsub" || s == "mul") {
        for (const char *op : {"add", "sub", "mul"}) {
            if ((s == "mul") != (std::string(op) == "mul")) continue;
            Batch b{t, op};
            for (auto x : cs)
                for (auto y : cs) b.add(x, y);
            for (int i = 0; i < pick(3000, 40000); i++) b.add(canon(r), canon(r));
            if (s == "mul")  // products with a chosen upper part
                for (int i = 0; i < pick(1500, 20000); i++) {
                    const u64 x = canon(r) | 1ULL << 63;
                    if (x >= FP) continue;
                    const uint32_t c[] = {0, 1, 0xffffffff, 0x80000000, (uint32_t)r.next()};
                    const u128 want = (u128)c[r.below(5)] << 96 | (u128)c[r.below(5)] << 64 | (u64)c[r.below(5)] << 32;
                    const u128 y = want / x + r.below(2);
                    if (y < FP) b.add(x, (u64)y), b.add((u64)y, x);
                }
            else  // sums near the prime and near the word
                for (int i = 0; i < pick(1000, 10000); i++) {
                    const u64 x = canon(r);
                    for (u64 y : {FP - x, FP - x - 1, FP - x + 1, ~x, ~x + 1, ~x - 1, x, x + 1, x - 1})
                        if (y < FP) b.add(x, y);
                }
        }
        std::vector<u64> xs, ys;
        for (auto x : cs) xs.push_back(x);
        for (int i = 0; i < 200; i++) xs.push_back(canon(r));
        std::vector<u64> q;
        for (auto x : xs) {
            INTorus v(x, false);
            if (s == "mul") v *= v, q.push_back((u64)(((u128)x * x) / FP));
            else v += v, q.push_back(0);
            ys.push_back(v.value);
        }
        t.put(Ev("field").s("op", s == "mul" ? "mul" : "add").ws("a", xs).ws("b", xs).ws("r", ys).ws("r2", ys).ws("q", q));
        if (s == "addsub") {
            ys.clear();
            for (auto x : xs) {
                INTorus v(x, false);
                v -= v;
                ys.push_back(v.value);
            }
            t.put(Ev("field").s("op", "sub").ws("a", xs).ws("b", xs).ws("r", ys).ws("r2", ys).ws("q", q));
            // the constructor reduces any word
            xs = {FP, FP + 1, ~0ULL, ~0ULL - 1, FP - 1, 0, 1};
            for (int i = 0; i < 400; i++) xs.push_back(r.bit() ? r.next() : FP + r.below(0xffffffff));
            ys.clear();
            for (auto x : xs) ys.push_back(INTorus(x).value);
            t.put(Ev("make").ws("a", xs).ws("r", ys));
        }
    }
    if (s == "shift") {
        std::vector<u64> vs = cs;
        for (int i = 0; i < pick(60, 1000); i++) vs.push_back(canon(r));
        for (auto v : vs) {
            std::vector<u64> rs;
            for (int l = 0; l < 192; l++) rs.push_back((INTorus(v, false) << l).value);
            t.put(Ev("shift").w("a", v).ws("r", rs));
        }
        std::vector<u64> inv;
        for (int n = 1; n <= 31; n++) inv.push_back(cuHEpp::InvPow2(n).value);
        t.put(Ev("halves").ws("r", inv));
        for (int i = 0; i < 6; i++) {
            const u64 a = i == 0 ? cuHEpp::W : i == 1 ? 0 : i == 2 ? FP - 1 : canon(r);
            std::vector<u64> rs, q;
            for (int e = 0; e < 40; e++) {
                rs.push_back(INTorus(a, false).Pow(e).value);
                q.push_back((u64)(((u128)rs.back() * a) / FP));
            }
            t.put(Ev("pow").w("a", a).ws("r", rs).ws("q", q));
        }
    }
    if (s == "ntt") {
        transforms<4>(t, r);
        transforms<5>(t, r);
        transforms<6>(t, r);
        transforms<7>(t, r);
        transforms<8>(t, r);
        transforms<9>(t, r);
    }
    if (s == "nttbig") {
        transforms<10>(t, r);
        transforms<11>(t, r);
        transforms<12>(t, r);
    }
    if (s == "switch") {  // torus words to residues and back, with a trivial twist
        constexpr uint32_t N = 256;
        for (int rep = 0; rep < pick(4, 40); rep++) {
            std::array<u64, N> a;
            for (auto &v : a) v = r.below(3) ? r.next() : r.bit() ? ~0ULL - r.below(1ULL << 34) : (1ULL << r.below(64)) + r.range(-2, 2);
            std::array<INTorus, N> one, f;
            for (auto &v : one) v = INTorus(1, false);
            cuHEpp::TwistMulInvert<u64, 8>(f, a, one);
            std::vector<u64> x(a.begin(), a.end()), y;
            for (auto &v : f) y.push_back(v.value);
            t.put(Ev("in64").ws("a", x).ws("r", y));
            for (auto &v : one) v = INTorus(N, false);
            x.clear(), y.clear();
            for (auto &v : f) {
                if (r.bit()) v = INTorus(canon(r), false);
                x.push_back(v.value);
            }
            cuHEpp::TwistMulDirect<u64, 8>(a, f, one);
            t.put(Ev("out64").ws("a", x).ws("r", std::vector<u64>(a.begin(), a.end())));
            // residues beyond the 32-bit word: the low word
            std::array<uint32_t, N> b;
            cuHEpp::TwistMulDirect<uint32_t, 8>(b, f, one);
            t.put(Ev("out32").ws("a", x).ws("r", std::vector<uint32_t>(b.begin(), b.end())));
            for (auto &v : b) v = r.below(3) ? r.next() : r.bit() ? ~0u - r.below(8) : r.below(8);
            for (auto &v : one) v = INTorus(1, false);
            cuHEpp::TwistMulInvert<uint32_t, 8>(f, b, one);
            y.clear();
            for (auto &v : f) y.push_back(v.value);
            t.put(Ev("in32").ws("a", std::vector<uint32_t>(b.begin(), b.end())).ws("r", y));
            // the small prime; R is one in Montgomery form
            std::array<raintt::SWord, N> mone;
            std::array<raintt::DoubleSWord, N> g;
            mone.fill(raintt::R);
            raintt::TwistMulInvert<uint32_t, 8, true>(g, b, mone);
            std::vector<int64_t> z;
            for (auto v : g) z.push_back(v < 0 ? v + RP : v);
            t.put(Ev("rin").ws("a", std::vector<uint32_t>(b.begin(), b.end())).is("r", z));
            raintt::TwistMulInvert<uint32_t, 8, false>(g, b, mone);
            z.clear();
            std::vector<int64_t> bs;
            for (uint32_t i = 0; i < N; i++) z.push_back(g[i]), bs.push_back((int32_t)b[i]);
            std::vector<int64_t> q;
            for (uint32_t i = 0; i < N; i++) q.push_back((bs[i] - z[i]) / RP);
            t.put(Ev("rplain").ws("a", std::vector<uint32_t>(b.begin(), b.end())).is("r", z).is("q", q));
            z.clear();
            for (auto &v : g) v = rsigned(r), z.push_back(v < 0 ? v + RP : v);
            raintt::TwistMulDirect<uint32_t, 8, true>(b, g, mone);
            t.put(Ev("rout").is("a", z).ws("r", std::vector<uint32_t>(b.begin(), b.end())));
            raintt::TwistMulDirect<uint32_t, 8, false>(b, g, mone);
            t.put(Ev("rsame").i("nbit", 8).is("x", z).is("y", std::vector<int64_t>(b.begin(), b.end())));
        }
    }
    if (s == "mont") {
        std::vector<int64_t> rc = {0, 1, -1, 2, -2, RP - 1, -(RP - 1), RP - 2, -(RP - 2), RP / 2, RP / 2 + 1, -(RP / 2), 65535, 65536, 1 << 20, 625, 1 << 29, -(1 << 29), raintt::R, raintt::R2, raintt::R3, raintt::R4};
        RBatch add{t, "add"}, sub{t, "sub"}, mul{t, "mulsredc"}, umul{t, "mulredc"}, red{t, "sredc"};
        auto go = [&](int64_t a, int64_t b) {
            add.put(a, b, 0, raintt::AddMod(a, b));
            sub.put(a, b, 0, raintt::SubMod(a, b));
            mul.put(a, b, a * b, raintt::MulSREDC(a, b));
            const int64_t ua = a < 0 ? a + RP : a, ub = b < 0 ? b + RP : b;
            umul.put(ua, ub, ua * ub, (int64_t)raintt::MulREDC((raintt::Word)ua, (raintt::Word)ub));
        };
        for (auto a : rc)
            for (auto b : rc) go(a, b);
        for (int i = 0; i < pick(1500, 20000); i++) go(rsigned(r), rsigned(r));
        for (int i = 0; i < pick(2000, 30000); i++) {  // whole range of the signed reduction
            const int64_t lim = RP << 31;
            int64_t x;
            switch (r.below(5)) {
            case 0: x = lim - 1 - (int64_t)r.below(1ULL << r.below(40)); break;
            case 1: x = -lim + (int64_t)r.below(1ULL << r.below(40)); break;
            case 2: x = (int64_t)(r.next() % (2 * (u64)lim)) - lim; break;
            case 3: x = ((int64_t)r.range(-(RP / 2), RP / 2) << 32) + r.range(-2, 2); break;
            default: x = rsigned(r) * r.range(-(1 << 30), 1 << 30); break;
            }
            red.put(0, 0, x, raintt::SREDC(x));
        }
        add.flush(), sub.flush(), mul.flush(), umul.flush(), red.flush();
        t.put(Ev("rconst").i("p", RP).i("r", raintt::R).i("r2", raintt::R2).i("r3", raintt::R3).i("r4", raintt::R4).i("w", raintt::W));
        std::vector<int64_t> inv = {raintt::inv_mod<2>(), raintt::inv_mod<4>(), raintt::inv_mod<8>(), raintt::inv_mod<64>(), raintt::inv_mod<256>(), raintt::inv_mod<1024>(), raintt::inv_mod<2048>(), raintt::inv_mod<4096>(), raintt::inv_mod<3>(), raintt::inv_mod<625>()};
        std::vector<int64_t> of = {2, 4, 8, 64, 256, 1024, 2048, 4096, 3, 625}, q;
        for (size_t i = 0; i < of.size(); i++) q.push_back(of[i] * inv[i] / RP);
        t.put(Ev("rinv").is("of", of).is("r", inv).is("q", q));
        for (int i = 0; i < 6; i++) {
            const int64_t a = i == 0 ? raintt::W : i == 1 ? 0 : i == 2 ? RP - 1 : (int64_t)r.below(RP);
            std::vector<int64_t> rs, qs;
            for (int e = 0; e < 40; e++) {
                rs.push_back((int64_t)raintt::PowREDC((raintt::Word)a, e));
                qs.push_back(rs.back() * a / RP);
            }
            t.put(Ev("rpow").i("a", a).is("r", rs).is("q", qs));
        }
    }
    if (s == "rntt") {
        rtransforms<4>(t, r);
        rtransforms<5>(t, r);
        rtransforms<6>(t, r);
        rtransforms<7>(t, r);
        rtransforms<8>(t, r);
        rtransforms<9>(t, r);
    }
    if (s == "rnttbig") {
        rtransforms<10>(t, r);
        rtransforms<11>(t, r);
    }
    return 0;
}
