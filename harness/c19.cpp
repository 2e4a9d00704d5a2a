// C19: BFV-style products at level 1.
#include "common.hpp"
#include "prog.hpp"
using namespace vf;
using P = lvl1param;
using Pl = Polynomial<P>;

struct World {
    vf::Trace &t;
    Rng &r;
    std::unique_ptr<SecretKey> sk = std::make_unique<SecretKey>();
    Key<P> key;
    Pl part, sq;
    std::unique_ptr<relinKeyFFT<P>> rk = big<relinKeyFFT<P>>();
    std::vector<TRLWE<P>> reg = std::vector<TRLWE<P>>(4);
    std::vector<Pl> m = std::vector<Pl>(4);
    std::vector<double> tol = std::vector<double>(4);
    std::vector<int64_t> e3, er, et;

    World(vf::Trace &t, Rng &r) : t(t), r(r)
    {
        key = sk->key.get<P>();
        for (uint32_t i = 0; i < P::n; i++) part[i] = key[i];
        sq = {};
        refmulacc<uint32_t, P::n>(sq, part, part);
        *rk = relinKeyFFTgen<P>(key);
        std::vector<int> pos = {0, 1, 511, 1023};
        for (int i = 0; i < 6; i++) pos.push_back(r.below(P::n));
        t.put(Ev("key").is("vals", signedkey(key)).is("sq", signedkey(sq)).is("pos", pos));
    }
    Pl plain(const std::string &kind)
    {
        Pl p = {};
        if (kind == "dense")
            for (auto &x : p) x = r.below(8);
        if (kind == "ones")
            for (auto &x : p) x = 7;
        if (kind == "constant") p[0] = 1 + r.below(7);
        if (kind == "monomial") p[r.below(P::n)] = 1 + r.below(7);
        if (kind == "top") p[P::n - 1] = 7, p[0] = 1;
        if (kind == "sparse")
            for (int i = 0; i < 12; i++) p[r.below(P::n)] = r.below(8);
        return p;
    }
    static constexpr double fresh = 960;
    void enc(int d, const std::string &kind, const Pl &p, int style = 0)
    {
        if (style == 0)
            reg[d] = trlweSymIntEncrypt<P>(p, key);
        else {  // masks at the ends of the word, or none
            Pl ph;
            for (uint32_t i = 0; i < P::n; i++) ph[i] = p[i] << 29;
            reg[d] = craft<P>(ph, key, r, true);
            if (style >= 2) {
                for (uint32_t i = 0; i < P::n; i++) reg[d][0][i] = style == 2 ? 0xffffffffu : style == 3 ? 0x80000000u : (i & 1) ? 0xffffffffu : 0u;
                refmulacc<uint32_t, P::n>(reg[d][1], reg[d][0], part);
            }
            for (auto &x : reg[d][1]) x += (uint32_t)r.range(-300, 300);
        }
        m[d] = p;
        tol[d] = fresh;
        t.put(Ev("enc").i("dst", d).s("kind", kind).is("m", p).ws("ph", refphase<P>(reg[d], key)).i("tol", fresh));
    }
    void lin(int d, int a, int b, bool add)
    {
        TRLWE<P> c;
        for (int i = 0; i < 2; i++)
            for (uint32_t j = 0; j < P::n; j++) c[i][j] = add ? reg[a][i][j] + reg[b][i][j] : reg[a][i][j] - reg[b][i][j];
        Pl p;
        for (uint32_t j = 0; j < P::n; j++) p[j] = (add ? m[a][j] + m[b][j] : m[a][j] - m[b][j]) & 7;
        const double tl = tol[a] + tol[b];
        reg[d] = c, m[d] = p, tol[d] = tl;
        t.put(Ev("lin").s("op", add ? "add" : "sub").i("dst", d).i("a", a).i("b", b).ws("ph", refphase<P>(c, key)).i("tol", (int64_t)tl));
    }
    void mul(int d, int a, int b, bool detail)
    {
        const auto da = digest(&reg[a], sizeof reg[a]), db = digest(&reg[b], sizeof reg[b]);
        TRLWE3<P> three;
        poison(three);
        TRLWEMultWithoutRelinerization<P>(three, reg[a], reg[b]);
        TRLWE<P> two;
        poison(two);
        Relinearization<P>(two, three, *rk);
        bool same = da == digest(&reg[a], sizeof reg[a]) && db == digest(&reg[b], sizeof reg[b]);
        const double n3 = (tol[a] + tol[b]) / fresh;
        TRLWE<P> all;
        poison(all);
        TRLWEMult<P>(d == a ? reg[a] : d == b ? reg[b] : all, reg[a], reg[b], *rk);  // in place where the program says so
        if (d != a && d != b) reg[d] = all;
        const double T3 = n3 * BEFORE, TR = RELIN;
        Pl ph3 = three[1];
        refmulacc<uint32_t, P::n>(ph3, three[0], part, true);
        refmulacc<uint32_t, P::n>(ph3, three[2], sq);
        const auto ph = refphase<P>(reg[d], key), ph2 = refphase<P>(two, key);
        same = same && ph == ph2;
        const auto dec = trlweSymIntDecrypt<P>(reg[d], key);
        tol[d] = T3 + TR;
        Pl true_ = {};
        {
            Pl x = m[a], y = m[b];
            refmulacc<uint32_t, P::n>(true_, x, y);
        }
        for (uint32_t i = 0; i < P::n; i++) {
            e3.push_back(sgn<uint32_t>(ph3[i] - (true_[i] << 29)) / 1024);
            er.push_back(sgn<uint32_t>(ph[i] - ph3[i]) / 1024);
            m[d][i] = true_[i] & 7;
        }
        t.put(Ev("mul").i("dst", d).i("a", a).i("b", b).b("same", same).ws("ph3", ph3).ws("ph", ph).is("dec", dec).i("tol3", (int64_t)T3).i("tolr", (int64_t)TR));
        if (detail) {
            const int j = r.below(P::n);
            t.put(Ev("phase3").i("j", j).ws("c0", three[0]).w("c1", three[1][j]).ws("c2", three[2]).w("ph", ph3[j]));
            t.put(Ev("phase2").i("j", j).ws("a", reg[d][0]).w("b", reg[d][1][j]).w("ph", ph[j]));
        }
    }
    void mean(const char *what, const std::vector<int64_t> &v, int max)
    {
        if (std::getenv("C19_STAT")) {
            double s = 0, q = 0, mx = 0;
            for (auto x : v) s += std::abs((double)x), q += (double)x * x, mx = std::max(mx, std::abs((double)x));
            std::fprintf(stderr, "%s n %zu mean %.1f rms %.1f max %.0f (units 2^10)\n", what, v.size(), s / v.size(), std::sqrt(q / v.size()), mx);
        }
        for (size_t i = 0; i < v.size(); i += 8192) t.put(Ev("mean").s("what", what).i("max", max).is("err", std::vector<int64_t>(v.begin() + i, v.begin() + std::min(v.size(), i + 8192))));
    }
    // bounds on one product, both operands fresh (2^10 units in comments of the
    // specification's DESIGN entry)
    static constexpr double BEFORE = 12000000, RELIN = 30000000;
};

int main(int, char **argv)
{
    const std::string s = argv[1];
    vf::Trace t(argv[2]);
    Rng r(s);
    World w(t, r);
    if (s.substr(0, 4) == "hist") {
        const int me = s[4] - '0';
        int prog = -1;
        for (const auto &rec : readprog(argv[3])) {
            const std::string op = rec.at("op");
            if (op == "begin") {
                prog++;
                if (prog % 2 != me || prog / 2 >= pick(4, 40)) continue;
                for (int i = 0; i < 4; i++) w.enc(i, "sparse", w.plain("sparse"));
                continue;
            }
            if (prog % 2 != me || prog / 2 >= pick(4, 40)) continue;
            const int d = num(rec, "dst"), a = num(rec, "a"), b = num(rec, "b");
            if (op == "enc") w.enc(d, rec.at("kind"), w.plain(rec.at("kind")));
            if (op == "mul") w.mul(d, a, b, r.below(3) == 0);
            if (op == "add" || op == "sub") w.lin(d, a, b, op == "add");
        }
        w.mean("product before relinearisation", w.e3, 8000);
        w.mean("relinearisation", w.er, 8000);
    }
    if (s == "ends") {
        for (int rep = 0; rep < pick(1, 4); rep++)
            for (int x = 0; x < 5; x++)
                for (int y = 0; y < 5; y++) {
                    const char *k1 = x == 0 ? "dense" : rep % 2 ? "ones" : "sparse", *k2 = y % 2 ? "top" : "monomial";
                    w.enc(0, k1, w.plain(k1), x);
                    w.enc(1, k2, w.plain(k2), y);
                    w.mul(2, 0, 1, x == y);
                }
        // every pair of constants, every monomial in the corner
        for (int x = 0; x < 8; x++) {
            Pl p = {}, q = {};
            p[0] = x, q[P::n - 1] = 7, q[0] = x;
            w.enc(0, "constant", p);
            w.enc(1, "constant", q);
            w.mul(2, 0, 1, false);
            w.mul(1, 1, 1, false);
        }
        w.mean("product before relinearisation", w.e3, 4000);
        w.mean("relinearisation", w.er, 6000);
    }
    if (s == "single") {
        auto priv = big<PrivateKeySwitchingKey<lvl11param>>();
        Pl one = {};
        one[0] = 1;
        privkskgen<lvl11param>(*priv, one, *w.sk);
        std::vector<std::pair<int, int>> xy;
        for (int x = 0; x < 8; x++)
            for (int y = 0; y < 8; y++) xy.push_back({x, y});
        for (int i = 0; i < pick(20, 400); i++) xy.push_back({(int)r.below(8), (int)r.below(8)});
        for (auto [x, y] : xy) {
            // three products of the same plaintexts: the library's own noise here
            // reaches half the gap between plaintexts once in ten thousand
            Ev e("single");
            e.i("x", x).i("y", y);
            bool same = true;
            for (int k = 0; k < 3; k++) {
                auto a = tlweSymIntEncrypt<P>(x, w.key), b = tlweSymIntEncrypt<P>(y, w.key);
                if (r.below(4) == 0) a = craft<P>((uint32_t)x << 29, w.key, r, r.bit());
                const auto da = digest(a), db = digest(b);
                TLWE<P> c;
                TLWEMult<lvl11param>(c, a, b, *w.rk, *priv);
                same = same && da == digest(a) && db == digest(b);
                const auto ph = refphase<P>(c, w.key);
                w.et.push_back(sgn<uint32_t>(ph - ((uint32_t)(x * y) << 29)) / 1024);
                const std::string ks = std::to_string(k);
                e.w(("ph" + ks).c_str(), ph).i(("dec" + ks).c_str(), (int64_t)(tlweSymIntDecrypt<P>(c, w.key) & 7));
                if (k == 0) e.ws("c", c);
            }
            t.put(e.b("same", same));
        }
        w.mean("product of samples", w.et, 100000);
    }
    return 0;
}
