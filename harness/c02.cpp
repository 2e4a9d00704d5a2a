// C02: the Boolean API on a register file, four registers at each of four levels.
#include "common.hpp"
#include "prog.hpp"
using namespace vf;

struct File {
    std::array<TLWE<lvl0param>, 4> lvl0;
    std::array<TLWE<lvlhalfparam>, 4> lvlhalf;
    std::array<TLWE<lvl1param>, 4> lvl1;
    std::array<TLWE<lvl2param>, 4> lvl2;
    template <class P>
    auto &get()
    {
        if constexpr (std::is_same_v<P, lvl0param>) return lvl0;
        else if constexpr (std::is_same_v<P, lvlhalfparam>) return lvlhalf;
        else if constexpr (std::is_same_v<P, lvl1param>) return lvl1;
        else return lvl2;
    }
    std::map<std::string, uint64_t> digests()
    {
        std::map<std::string, uint64_t> m;
        for (int i = 0; i < 4; i++) {
            m["lvl0." + std::to_string(i)] = digest(lvl0[i]);
            m["lvlhalf." + std::to_string(i)] = digest(lvlhalf[i]);
            m["lvl1." + std::to_string(i)] = digest(lvl1[i]);
            m["lvl2." + std::to_string(i)] = digest(lvl2[i]);
        }
        return m;
    }
};

struct Machine {
    Trace &t;
    Rng &r;
    SecretKey sk;
    EvalKey ek;
    File f;
    std::string only;

    Machine(Trace &t, Rng &r) : t(t), r(r) { use(); }
    void use()  // from here on this machine's keys
    {
        t.put(Ev("key").s("lvl", "lvl0").is("vals", signedkey(sk.key.lvl0)));
        t.put(Ev("key").s("lvl", "lvlhalf").is("vals", signedkey(sk.key.lvlhalf)));
        t.put(Ev("key").s("lvl", "lvl1").is("vals", signedkey(sk.key.lvl1)));
        t.put(Ev("key").s("lvl", "lvl2").is("vals", signedkey(sk.key.lvl2)));
    }
    void keys(bool small, bool half, bool one, bool two)
    {
        ek.emplacebkfft<lvl01param>(sk);
        ek.emplaceiksk<lvl10param>(sk);
        if (half && one) {
            ek.emplacebkfft<lvlh1param>(sk);
            ek.emplaceiksk<lvl1hparam>(sk);
        }
        if (small && two) {
            ek.emplacebkfft<lvl02param>(sk);
            ek.emplaceiksk<lvl20param>(sk);
        }
        if (half && two) {
            ek.emplacebkfft<lvlh2param>(sk);
            ek.emplaceiksk<lvl2hparam>(sk);
        }
        if (one && two) ek.emplaceiksk<lvl21param>(sk);
    }

    template <class P>
    typename P::T enc(int bit, int percent)
    {
        using T = typename P::T;
        const T mu = static_cast<T>(T{1} << (digits<P>() - 3));
        const T off = static_cast<T>(static_cast<std::make_signed_t<T>>(mu / 100) * percent);
        return static_cast<T>((bit ? mu : static_cast<T>(-mu)) + off);
    }

    std::map<std::string, uint64_t> before;
    template <class P>
    void log(const Rec &s, const TLWE<P> &out)
    {
        const auto after = f.digests();
        std::vector<std::string> ch;
        for (const auto &[k, v] : after)
            if (before[k] != v) ch.push_back(k);
        t.put(Ev("op").s("op", s.at("op")).s("lv", s.at("lv")).s("combo", s.at("combo")).i("r", num(s, "r")).i("a", num(s, "a")).i("b", num(s, "b")).i("c", num(s, "c")).ws("out", out).ss("changed", ch));
    }
    template <class P>
    TLWE<P> first(const TRLWE<P> &c)  // sample of the constant coefficient
    {
        TLWE<P> o = {};
        o[0] = c[0][0];
        for (uint32_t i = 1; i < P::n; i++) o[i] = static_cast<typename P::T>(-c[0][P::n - i]);
        o[P::n] = c[1][0];
        return o;
    }
    TRLWE<lvl1param> embed(const TLWE<lvl1param> &c)
    {
        TRLWE<lvl1param> o;
        o[0][0] = c[0];
        for (uint32_t i = 1; i < lvl1param::n; i++) o[0][lvl1param::n - i] = -c[i];
        for (auto &x : o[1]) x = r.next();
        o[1][0] = c[lvl1param::n];
        return o;
    }

    template <class P>
    bool simple(const Rec &s)
    {
        auto &R = f.get<P>();
        const auto &op = s.at("op");
        const int d = num(s, "r"), a = num(s, "a");
        if (op == "ENC") R[d] = craft<P>(enc<P>(a, num(s, "b")), sk.key.get<P>(), r);
        else if (op == "NOT") HomNOT<P>(R[d], R[a]);
        else if (op == "COPY") HomCOPY<P>(R[d], R[a]);
        else if (op == "ONE") HomCONSTANTONE<P>(R[d]);
        else if (op == "ZERO") HomCONSTANTZERO<P>(R[d]);
        else return false;
        log<P>(s, R[d]);
        return true;
    }
    template <class A, class B, auto MU, class C>
    void bin(const Rec &s, auto &R)
    {
        // A,B,C in template-argument order: <iksP, brP, mu> or <brP, mu, iksP>
        const auto &op = s.at("op");
        auto &d = R[num(s, "r")];
        const auto &a = R[num(s, "a")], &b = R[num(s, "b")];
        auto go = [&](auto g) { g(d, a, b); };
#define GATE(NAME)                                                                            \
    if (op == #NAME)                                                                          \
        go([&](auto &d, const auto &a, const auto &b) {                                       \
            if constexpr (std::is_void_v<C>) Hom##NAME<A, B, MU>(d, a, b, ek);                \
            else Hom##NAME<A, MU, C>(d, a, b, ek);                                            \
        });
        GATE(NAND) GATE(NOR) GATE(XNOR) GATE(AND) GATE(OR) GATE(XOR) GATE(ANDNY) GATE(ANDYN) GATE(ORNY) GATE(ORYN)
#undef GATE
    }
    template <class P, class BK>
    void ringmux(const Rec &s, bool noiks)
    {
        using G = typename BK::targetP;
        auto &R = f.get<P>();
        auto c = big<TRLWE<G>>();
        for (auto &p : *c) p = randpoly<G>(r);
        const auto &x = R[num(s, "a")], &y = R[num(s, "b")], &z = R[num(s, "c")];
        if (noiks) HomMUXwoIKSandSE<BK>(*c, x, y, z, ek);
        else HomMUXwoSE<BK>(*c, x, y, z, ek);
        f.get<G>()[num(s, "r")] = first<G>(*c);
        log<G>(s, f.get<G>()[num(s, "r")]);
    }
    template <class IKS, class BK>
    void iksmux(const Rec &s)
    {
        using P = typename IKS::domainP;
        using G = typename BK::targetP;
        auto &R = f.get<P>();
        auto c = big<TRLWE<G>>();
        for (auto &p : *c) p = randpoly<G>(r);
        HomMUXwoSE<IKS, BK>(*c, R[num(s, "a")], R[num(s, "b")], R[num(s, "c")], ek);
        f.get<G>()[num(s, "r")] = first<G>(*c);
        log<G>(s, f.get<G>()[num(s, "r")]);
    }
    template <class KS>
    void sw(const Rec &s)
    {
        using G = typename KS::targetP;
        IdentityKeySwitch<KS>(f.get<G>()[num(s, "r")], f.get<typename KS::domainP>()[num(s, "a")], ek.getiksk<KS>());
        log<G>(s, f.get<G>()[num(s, "r")]);
    }
    template <class P>
    void mux(const Rec &s)
    {
        auto &R = f.get<P>();
        auto &d = R[num(s, "r")];
        const auto &x = R[num(s, "a")], &y = R[num(s, "b")], &z = R[num(s, "c")];
        if (s.at("op") == "MUX") HomMUX<P>(d, x, y, z, ek);
        else HomNMUX<P>(d, x, y, z, ek);
        log<P>(s, d);
    }
    void extmux(const Rec &s)
    {
        const auto x = embed(f.lvl1[num(s, "a")]), y = embed(f.lvl1[num(s, "b")]), z = embed(f.lvl1[num(s, "c")]);
        const auto kx = x, ky = y, kz = z;
        auto c = big<TRLWE<lvl1param>>();
        for (auto &p : *c) p = randpoly<lvl1param>(r);
        ExtractSwitchAndHomMUX(*c, x, y, z, ek);
        f.lvl1[num(s, "r")] = first<lvl1param>(*c);
        t.put(Ev("same").s("what", "ExtractSwitchAndHomMUX operands").b("ok", kx == x && ky == y && kz == z));
        log<lvl1param>(s, f.lvl1[num(s, "r")]);
    }

    void step(const Rec &s)
    {
        before = f.digests();
        const auto &op = s.at("op"), &lv = s.at("lv"), &co = s.at("combo");
        if (op == "SWITCH") {
            if (co == "10") return sw<lvl10param>(s);
            if (co == "1h") return sw<lvl1hparam>(s);
            if (co == "20") return sw<lvl20param>(s);
            if (co == "2h") return sw<lvl2hparam>(s);
            return sw<lvl21param>(s);
        }
        if (op == "MUX" || op == "NMUX") return lv == "lvl0" ? mux<lvl0param>(s) : mux<lvl1param>(s);
        if (op == "EXTMUX") return extmux(s);
        if (op == "MUXNOIKSSE" || op == "MUXNOSE") {
            const bool n = op == "MUXNOIKSSE";
            if (co == "01") return ringmux<lvl0param, lvl01param>(s, n);
            if (co == "02") return ringmux<lvl0param, lvl02param>(s, n);
            if (co == "h1") return ringmux<lvlhalfparam, lvlh1param>(s, n);
            return ringmux<lvlhalfparam, lvlh2param>(s, n);
        }
        if (op == "IKSMUXNOSE") {
            if (co == "10_01") return iksmux<lvl10param, lvl01param>(s);
            if (co == "1h_h1") return iksmux<lvl1hparam, lvlh1param>(s);
            if (co == "10_02") return iksmux<lvl10param, lvl02param>(s);
            if (co == "1h_h2") return iksmux<lvl1hparam, lvlh2param>(s);
            if (co == "20_02") return iksmux<lvl20param, lvl02param>(s);
            if (co == "2h_h2") return iksmux<lvl2hparam, lvlh2param>(s);
            if (co == "20_01") return iksmux<lvl20param, lvl01param>(s);
            return iksmux<lvl2hparam, lvlh1param>(s);
        }
        if (lv == "lvl0" ? simple<lvl0param>(s) : lv == "lvlhalf" ? simple<lvlhalfparam>(s) : lv == "lvl1" ? simple<lvl1param>(s) : simple<lvl2param>(s)) return;
        if (co == "10_01") bin<lvl10param, lvl01param, lvl1param::μ, void>(s, f.lvl1);
        if (co == "1h_h1") bin<lvl1hparam, lvlh1param, lvl1param::μ, void>(s, f.lvl1);
        if (co == "20_02") bin<lvl20param, lvl02param, lvl2param::μ, void>(s, f.lvl2);
        if (co == "2h_h2") bin<lvl2hparam, lvlh2param, lvl2param::μ, void>(s, f.lvl2);
        if (co == "01_10") bin<lvl01param, void, lvl1param::μ, lvl10param>(s, f.lvl0);
        if (co == "02_20") bin<lvl02param, void, lvl2param::μ, lvl20param>(s, f.lvl0);
        if (co == "h1_1h") bin<lvlh1param, void, lvl1param::μ, lvl1hparam>(s, f.lvlhalf);
        if (co == "h2_2h") bin<lvlh2param, void, lvl2param::μ, lvl2hparam>(s, f.lvlhalf);
        if (lv == "lvl0") log<lvl0param>(s, f.lvl0[num(s, "r")]);
        if (lv == "lvlhalf") log<lvlhalfparam>(s, f.lvlhalf[num(s, "r")]);
        if (lv == "lvl1") log<lvl1param>(s, f.lvl1[num(s, "r")]);
        if (lv == "lvl2") log<lvl2param>(s, f.lvl2[num(s, "r")]);
    }
    void rec(const char *op, const std::string &lv, const std::string &co, int d, int a, int b, int c)
    {
        auto n = [](int x) { return std::to_string(x); };
        step({{"op", op}, {"lv", lv}, {"combo", co}, {"r", n(d)}, {"a", n(a)}, {"b", n(b)}, {"c", n(c)}});
    }
    void begin(const std::vector<const char *> &lvs)
    {
        for (auto lv : lvs)
            for (int i = 0; i < 4; i++) rec("ENC", lv, "-", i, r.bit(), r.range(-20, 20), 0);
    }
    void end() { t.put(Ev("stats")); }
};

// every gate, every input, noise pushing both ways
void table(Machine &m, const std::string &lv, const std::vector<const char *> &combos, const std::vector<std::pair<const char *, const char *>> &muxes)
{
    struct G { const char *name; int ca, cb; };
    const G gates[] = {{"NAND", -1, -1}, {"NOR", -1, -1}, {"XNOR", -2, -2}, {"AND", 1, 1}, {"OR", 1, 1}, {"XOR", 2, 2}, {"ANDNY", -1, 1}, {"ANDYN", 1, -1}, {"ORNY", -1, 1}, {"ORYN", 1, -1}};
    const int P = 20;
    const std::string same = lv;
    int k = 0;
    for (auto co : combos)
        for (const auto &g : gates)
            for (int in = 0; in < 4; in++)
                for (int e = 0; e < (thorough() ? 4 : 2); e++) {
                    const int ea = e & 1 ? 1 : -1;
                    const int eb = (g.ca * g.cb > 0 ? ea : -ea) * (e & 2 ? -1 : 1);
                    m.rec("ENC", lv, "-", 0, in & 1, ea * P, 0);
                    m.rec("ENC", lv, "-", 1, in >> 1, eb * P, 0);
                    // the result replaces an operand every other time
                    m.rec(g.name, lv, co, k++ % 3 == 0 ? 2 : (k % 3 == 1 ? 0 : 1), 0, 1, 0);
                }
    for (const auto &[op, co] : muxes)
        for (int in = 0; in < 8; in++)
            for (int e = 0; e < (thorough() ? 8 : 2); e++) {
                m.rec("ENC", lv, "-", 0, in & 1, (e & 1 ? P : -P), 0);
                m.rec("ENC", lv, "-", 1, (in >> 1) & 1, (e & 2 ? -P : P) * (e & 1 ? 1 : -1), 0);
                m.rec("ENC", lv, "-", 2, in >> 2, (e & 4 ? -P : P) * (e & 1 ? -1 : 1), 0);
                m.rec(op, lv, co, k++ % 4, 0, 1, 2);
            }
    m.end();
}

int main(int, char **argv)
{
    const std::string s = argv[1];
    Trace t(argv[2]);
    Rng r(s);
    Machine m(t, r);
    if (s == "table0") {
        m.keys(true, false, true, true);
        table(m, "lvl0", {"01_10", "02_20"}, {{"MUX", "-"}, {"NMUX", "-"}, {"MUXNOIKSSE", "01"}, {"MUXNOSE", "01"}, {"MUXNOIKSSE", "02"}, {"MUXNOSE", "02"}});
    }
    if (s == "tableh") {
        m.keys(false, true, true, true);
        table(m, "lvlhalf", {"h1_1h", "h2_2h"}, {{"MUXNOIKSSE", "h1"}, {"MUXNOSE", "h1"}, {"MUXNOIKSSE", "h2"}, {"MUXNOSE", "h2"}});
    }
    if (s == "table1") {
        m.keys(true, true, true, true);
        table(m, "lvl1", {"10_01", "1h_h1"}, {{"MUX", "-"}, {"NMUX", "-"}, {"EXTMUX", "-"}, {"IKSMUXNOSE", "10_01"}, {"IKSMUXNOSE", "1h_h1"}, {"IKSMUXNOSE", "10_02"}, {"IKSMUXNOSE", "1h_h2"}});
    }
    if (s == "table2") {
        m.keys(true, true, true, true);
        table(m, "lvl2", {"20_02", "2h_h2"}, {{"IKSMUXNOSE", "20_02"}, {"IKSMUXNOSE", "2h_h2"}, {"IKSMUXNOSE", "20_01"}, {"IKSMUXNOSE", "2h_h1"}});
    }
    if (s.starts_with("prog")) {
        const int part = s[4] - '0', parts = 3;
        m.keys(true, true, true, true);
        Machine other(t, r);  // another party in the same process
        other.keys(true, true, true, true);
        Machine *on = &m;
        int n = -1;
        for (const auto &rec : readprog(argv[3])) {
            if (rec.at("op") == "begin") {
                n = num(rec, "prog");
                if (n % parts != part) continue;
                on = n / parts % 2 ? &other : &m;
                on->use();
                on->begin({"lvl0", "lvlhalf", "lvl1", "lvl2"});
                continue;
            }
            if (n % parts == part) on->step(rec);
        }
        m.end();
    }
    // one register fed back through thousands of gates: noise must not build up
    if (s == "deep") {
        m.keys(true, false, true, false);
        m.begin({"lvl1", "lvl0"});
        Machine other(t, r);
        other.keys(true, false, true, false);
        Machine *on = &m;
        m.use();
        const char *g[] = {"NAND", "NOR", "XNOR", "AND", "OR", "XOR", "ANDNY", "ANDYN", "ORNY", "ORYN"};
        const int deep = pick(300, 3000);
        for (int i = 0; i < deep; i++) {
            if (i == deep * 2 / 3 || i == deep * 5 / 6) {
                on = on == &m ? &other : &m;
                on->use();
                on->begin({"lvl1", "lvl0"});
            }
            if (i % 2) on->rec(g[r.below(10)], "lvl1", "10_01", r.below(4), r.below(4), r.below(4), 0);
            else on->rec(g[r.below(10)], "lvl0", "01_10", r.below(4), r.below(4), r.below(4), 0);
            if (i % 7 == 0) on->rec("MUX", i % 2 ? "lvl1" : "lvl0", "-", r.below(4), r.below(4), r.below(4), r.below(4));
        }
        m.end();
    }
}
