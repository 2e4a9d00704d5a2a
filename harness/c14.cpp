// C14: parameter records.
#include <cereal/archives/portable_binary.hpp>
#include <sstream>

#include "common.hpp"
using namespace vf;

// every recorded field, as a 64-bit word
struct F {
    const char *name;
    int group;
    bool real;
    std::function<void *(lweParams &)> at;
};
std::vector<F> fields()
{
    std::vector<F> v;
#define I(g, lv, f) v.push_back({#lv "." #f, g, false, [](lweParams &p) -> void * { static_assert(sizeof(p.lv.f) == 4); return &p.lv.f; }});
#define D(g, lv, f) v.push_back({#lv "." #f, g, true, [](lweParams &p) -> void * { static_assert(sizeof(p.lv.f) == 8); return &p.lv.f; }});
    I(0, lvl0, n) D(0, lvl0, α) I(0, lvl0, approx_bit)
    I(1, lvl1, nbit) I(1, lvl1, n) I(1, lvl1, l) I(1, lvl1, Bgbit) I(1, lvl1, Bg) D(1, lvl1, α) I(1, lvl1, approx_bit)
    I(2, lvl2, nbit) I(2, lvl2, n) I(2, lvl2, l) I(2, lvl2, Bgbit) I(2, lvl2, Bg) I(2, lvl2, approx_bit)
    I(3, lvl10, t) I(3, lvl10, basebit) D(3, lvl10, α)
    I(4, lvl20, t) I(4, lvl20, basebit) D(4, lvl20, α)
    I(5, lvl21, t) I(5, lvl21, basebit)
    I(6, lvl22, t) I(6, lvl22, basebit)
#undef I
#undef D
    return v;
}
const std::vector<F> FS = fields();

uint64_t getf(lweParams &p, const F &f)
{
    uint64_t w = 0;
    std::memcpy(&w, f.at(p), f.real ? 8 : 4);
    return w;
}
void setf(lweParams &p, const F &f, uint64_t w) { std::memcpy(f.at(p), &w, f.real ? 8 : 4); }
std::vector<uint64_t> words(lweParams &p)
{
    std::vector<uint64_t> v;
    for (const auto &f : FS) v.push_back(getf(p, f));
    return v;
}
// another value of the field (never NaN, never a zero that equals the other zero)
uint64_t other(const F &f, uint64_t w, Rng &r, int kind)
{
    if (f.real) {
        double d;
        std::memcpy(&d, &w, 8);
        const double c[6] = {std::nextafter(d, 1.0), d * 2, -d - 1, 1e-300, d / 1024, 0.25 + (r.next() >> 40)};
        double o = c[kind % 6];
        if (o == d) o = d + 1;
        std::memcpy(&w, &o, 8);
        return w;
    }
    const uint32_t u = w;
    const uint32_t c[6] = {u + 1, u - 1, u ^ 0x80000000u, u ^ 0x100u, u << 1 | 1, (uint32_t)r.next()};
    return c[kind % 6] == u ? u + 7 : c[kind % 6];
}

struct Regs {
    Trace &t;
    Rng &r;
    std::vector<lweParams> reg = std::vector<lweParams>(4);
    void put(int i)
    {
        t.put(Ev("set").i("r", i).ws("v", words(reg[i])));
    }
    void cmp(int i, int j)
    {
        lweParams &a = reg[i], &b = reg[j];
        std::vector<bool> g = {a.lvl0 == b.lvl0, a.lvl1 == b.lvl1, a.lvl2 == b.lvl2, a.lvl10 == b.lvl10, a.lvl20 == b.lvl20, a.lvl21 == b.lvl21, a.lvl22 == b.lvl22};
        std::vector<int> gi(g.begin(), g.end());
        t.put(Ev("cmp").i("a", i).i("b", j).b("eq", a == b).b("ne", a != b).is("parts", gi));
    }
    template <class A, class B>
    void through(int from, int to, A save, B load, const char *how)
    {
        std::stringstream ss;
        {
            cereal::PortableBinaryOutputArchive ar(ss);
            save(ar, reg[from]);
        }
        {
            cereal::PortableBinaryInputArchive ar(ss);
            load(ar, reg[to]);
        }
        t.put(Ev("load").i("from", from).i("to", to).s("how", how).ws("v", words(reg[to])));
    }
    void archive(int from, int to, int how)
    {
        switch (how % 4) {
            case 0: through(from, to, [](auto &ar, auto &p) { ar(p); }, [](auto &ar, auto &p) { ar(p); }, "record"); break;
            case 1: through(from, to, [](auto &ar, auto &p) { p.serialize(ar); }, [](auto &ar, auto &p) { p.serialize(ar); }, "serialize"); break;
            case 2:
                through(
                    from, to,
                    [](auto &ar, auto &p) {
                        EvalKey ek;
                        ek.params = p;
                        ek.serialize(ar);
                    },
                    [](auto &ar, auto &p) {
                        EvalKey ek;
                        ek.params = p;
                        ek.serialize(ar);
                        p = ek.params;
                    },
                    "evaluation key");
                break;
            default:
                through(
                    from, to,
                    [](auto &ar, auto &p) {
                        auto sk = big<SecretKey>();
                        sk->params = p;
                        EvalKey ek(*sk);
                        SecretKey back;
                        back.params = ek.params;
                        back.serialize(ar);
                    },
                    [](auto &ar, auto &p) {
                        SecretKey sk;
                        sk.params = p;
                        sk.serialize(ar);
                        p = sk.params;
                    },
                    "secret key");
        }
    }
    void copy(int from, int to)
    {
        reg[to] = reg[from];
        t.put(Ev("load").i("from", from).i("to", to).s("how", "copy").ws("v", words(reg[to])));
    }
    void all()
    {
        for (int i = 0; i < 4; i++)
            for (int j = 0; j < 4; j++) cmp(i, j);
    }
};

int main(int, char **argv)
{
    const std::string s = argv[1];
    Trace t(argv[2]);
    Rng r(s);
    {
        std::vector<std::string> names;
        std::vector<int> groups;
        for (const auto &f : FS) names.push_back(f.name), groups.push_back(f.group);
        t.put(Ev("fields").ss("names", names).is("groups", groups));
    }
    Regs g{t, r};
    {
        lweParams p;
        const auto u = [](uint64_t v) { return v; };
        const auto d = [](double v) { uint64_t w; std::memcpy(&w, &v, 8); return w; };
        std::vector<uint64_t> b = {u(lvl0param::n), d(lvl0param::α), u(digits<lvl0param>()),
                                   u(lvl1param::nbit), u(lvl1param::n), u(lvl1param::l), u(lvl1param::Bgbit), u(lvl1param::Bg), d(lvl1param::α), u(digits<lvl1param>()),
                                   u(lvl2param::nbit), u(lvl2param::n), u(lvl2param::l), u(lvl2param::Bgbit), u(lvl2param::Bg), u(digits<lvl2param>()),
                                   u(lvl10param::t), u(lvl10param::basebit), d(lvl0param::α), u(lvl20param::t), u(lvl20param::basebit), d(lvl0param::α),
                                   u(lvl21param::t), u(lvl21param::basebit), u(lvl22param::t), u(lvl22param::basebit)};
        t.put(Ev("build").ws("build", b).ws("v", words(p)));
        auto sk = big<SecretKey>();
        t.put(Ev("build").ws("build", b).ws("v", words(sk->params)));
        EvalKey ek(*sk), empty;
        t.put(Ev("build").ws("build", b).ws("v", words(ek.params)));
        t.put(Ev("build").ws("build", b).ws("v", words(empty.params)));
    }
    for (int i = 0; i < 4; i++) g.put(i);
    if (s == "single")
        for (size_t f = 0; f < FS.size(); f++)
            for (int kind = 0; kind < 6; kind++) {
                g.reg[0] = g.reg[2] = lweParams();
                g.reg[1] = lweParams();
                setf(g.reg[1], FS[f], other(FS[f], getf(g.reg[1], FS[f]), r, kind));
                g.reg[3] = lweParams();
                for (int k = 0; k < 3; k++) {
                    const auto &h = FS[r.below(FS.size())];
                    setf(g.reg[3], h, other(h, getf(g.reg[3], h), r, r.below(6)));
                }
                for (int i = 0; i < 4; i++) g.put(i);
                g.cmp(0, 1), g.cmp(1, 0), g.cmp(0, 2), g.cmp(1, 3);
                g.archive(1, 2, kind);      // into a default record
                g.archive(0, 3, kind + 1);  // over an altered one
                g.all();
                g.archive(2, 3, kind / 3 + 2);
                g.all();
            }
    if (s == "history")
        for (int op = 0; op < pick(8000, 60000); op++) {
            const int i = r.below(4), j = r.below(4);
            switch (r.below(6)) {
                case 0:
                case 1: {
                    const auto &f = FS[r.below(FS.size())];
                    setf(g.reg[i], f, other(f, getf(g.reg[i], f), r, r.below(6)));
                    g.put(i);
                    break;
                }
                case 2: {  // exchange or copy a value between two fields
                    const auto &f = FS[r.below(FS.size())], &h = FS[r.below(FS.size())];
                    if (f.real != h.real) break;
                    const auto a = getf(g.reg[i], f), b = getf(g.reg[j], h);
                    setf(g.reg[i], f, b);
                    if (r.bit()) setf(g.reg[j], h, a);
                    g.put(i), g.put(j);
                    break;
                }
                case 3: g.archive(i, j, r.below(4) ? r.below(2) : 2 + r.below(2)); break;
                case 4: g.copy(i, j); break;
                default: g.cmp(i, j);
            }
            if (op % 5 == 0) g.all();
        }
    return 0;
}
