// C15: the slots of an evaluation key.
#include "prog.hpp"
#include "slots.hpp"
using namespace vf;

template <class P>
const char *nm()
{
    if constexpr (std::is_same_v<P, lvl0param>) return "lvl0";
    if constexpr (std::is_same_v<P, lvlhalfparam>) return "lvlhalf";
    if constexpr (std::is_same_v<P, lvl1param>) return "lvl1";
    if constexpr (std::is_same_v<P, lvl3param>) return "lvl3";
    return "lvl2";
}

struct World {
    Trace &t;
    Rng &r;
    std::vector<Slot> all = slots({"a", "b", "privksk4cb_0", "privksk4cb_1", "subprivksk4cb_0", "subprivksk4cb_1"});
    std::unique_ptr<SecretKey> sk[2] = {big<SecretKey>(), big<SecretKey>()};
    std::vector<EvalKey> obj;
    std::map<std::string, int> made;  // secret of each digest
    std::map<std::string, int> var;   // and the function it was given
    World(Trace &t, Rng &r) : t(t), r(r)
    {
        for (int k = 0; k < 2; k++) {
            t.put(Ev("key").i("sk", k).s("lvl", "lvl0").is("vals", signedkey(sk[k]->key.lvl0)));
            t.put(Ev("key").i("sk", k).s("lvl", "lvlhalf").is("vals", signedkey(sk[k]->key.lvlhalf)));
            t.put(Ev("key").i("sk", k).s("lvl", "lvl1").is("vals", signedkey(sk[k]->key.lvl1)));
            t.put(Ev("key").i("sk", k).s("lvl", "lvl2").is("vals", signedkey(sk[k]->key.lvl2)));
            t.put(Ev("key").i("sk", k).s("lvl", "lvl3").is("vals", signedkey(sk[k]->key.lvl3)));
        }
    }
    void start(int n)
    {
        obj.clear();
        for (int i = 0; i < n; i++) i % 2 ? obj.emplace_back(*sk[0]) : obj.emplace_back();
        t.put(Ev("new").i("objs", n));
    }
    const Slot &slot(const std::string &n)
    {
        for (const auto &s : all)
            if (s.name == n) return s;
        std::exit(91);
    }
    std::string got(const EvalKey &e)
    {
        std::string o = "[";
        for (const auto &s : all)
            if (s.has(e)) o += (o.size() > 1 ? ",[\"" : "[\"") + s.name + "\",\"" + hex(s.diggot(e)) + "\"]";
        return o + "]";
    }
    Ev &observe(Ev &e)
    {
        std::string a = "[", b = "[";
        for (auto &o : obj) {
            if (a.size() > 1) a += ',', b += ',';
            a += snapshot(o, all);
            b += got(o);
        }
        return e.raw("snap", a + "]").raw("got", b + "]");
    }
    int skof(int o, const std::string &s) { return made[hex(slot(s).dig(obj[o]))]; }

    void emplace(int o, const std::string &name, int k, int v = 0)
    {
        const Slot &s = slot(name);
        variant() = v;
        s.emplace(obj[o], *sk[k]);
        const auto d = hex(s.dig(obj[o]));
        made[d] = k;
        var[d] = v;
        Ev e("emplace");
        e.i("obj", o).i("sk", k).s("how", "named").ss("slots", std::vector<std::string>{name}).ss("digs", std::vector<std::string>{d});
        t.put(observe(e));
    }
    void emplace4cb(int o, const std::string &kind, int k)
    {
        if (kind == "privksklvl11") obj[o].emplaceprivksk4cb<lvl11param>(*sk[k]);
        if (kind == "privksklvl21") obj[o].emplaceprivksk4cb<lvl21param>(*sk[k]);
        if (kind == "privksklvl22") obj[o].emplaceprivksk4cb<lvl22param>(*sk[k]);
        if (kind == "subprivksklvl21") obj[o].emplacesubprivksk4cb<lvl21param>(*sk[k]);
        const std::string pre = kind == "subprivksklvl21" ? "/subprivksk4cb_" : "/privksk4cb_";
        std::vector<std::string> n = {kind + pre + "0", kind + pre + "1"}, d;
        for (auto &x : n) {
            d.push_back(hex(slot(x).dig(obj[o])));
            made[d.back()] = k;
        }
        Ev e("emplace");
        e.i("obj", o).i("sk", k).s("how", "for circuit bootstrapping").ss("slots", n).ss("digs", d);
        t.put(observe(e));
    }
    template <class P>
    void convert(int o, const std::string &pair, bool fft)
    {
        EvalKey &e = obj[o];
        using G = typename P::targetP;
        uint64_t ref;
        if (fft) {
            auto x = big<BootstrappingKeyFFT<P>>();
            for (uint32_t i = 0; i < P::domainP::n; i++) (*x)[i][0] = ApplyFFT2trgsw<G>(e.getbk<P>()[i][0]);
            ref = cdig(*x);
            e.emplacebk2bkfft<P>();
        }
        else {
            auto x = big<BootstrappingKeyNTT<P>>();
            for (uint32_t i = 0; i < P::domainP::n; i++) (*x)[i] = ApplyNTT2trgsw<G>(e.getbk<P>()[i][0]);
            ref = cdig(*x);
            e.emplacebk2bkntt<P>();
        }
        made[hex(ref)] = skof(o, "bk" + pair);
        Ev ev("convert");
        ev.i("obj", o).s("source", "bk" + pair).s("slot", (fft ? "bkfft" : "bkntt") + pair).s("ref", hex(ref));
        t.put(observe(ev));
    }
    void share(int o, int from)
    {
        obj[o] = obj[from];
        bool same = true;
        for (const auto &s : all)
            if (s.has(obj[o])) same = same && s.has(obj[from]) && s.raw(obj[o]) == s.raw(obj[from]);
        Ev e("share");
        e.i("obj", o).i("from", from).b("same", same);
        t.put(observe(e));
    }
    void drop(int o, const std::string &name)
    {
        slot(name).drop(obj[o]);
        Ev e("drop");
        e.i("obj", o).s("slot", name);
        t.put(observe(e));
    }

    // ------------------------------------------------------------ contents --
    template <class P>
    void rowsof(int o, const std::string &s, const char *pair, uint32_t i, const TRGSW<typename P::targetP> &g)
    {
        using G = typename P::targetP;
        const int k = skof(o, s);
        std::vector<Polynomial<G>> ph;
        for (const auto &c : g) ph.push_back(refphase<G>(c, sk[k]->key.get<G>()));
        t.put(Ev("bit").i("obj", o).s("slot", s).s("pair", pair).i("i", i).wss("rows", ph));
        const int row = r.below(g.size()), j = r.below(G::n);
        t.put(Ev("coef").i("sk", k).s("lvl", nm<G>()).i("j", j).ws("a", g[row][0]).w("b", g[row][1][j]).w("ph", ph[row][j]));
    }
    template <class P>
    std::vector<uint32_t> positions(int n)
    {
        std::vector<uint32_t> v = {0, P::domainP::n - 1};
        while ((int)v.size() < n) v.push_back(r.below(P::domainP::n));
        return v;
    }
    template <class P>
    void boot(int o, const char *pair, int n)
    {
        using G = typename P::targetP;
        const std::string p = pair;
        const EvalKey &e = obj[o];
        if (slot("bk" + p).has(e))
            for (auto i : positions<P>(n)) rowsof<P>(o, "bk" + p, pair, i, e.getbk<P>()[i][0]);
        if (slot("bkfft" + p).has(e))
            for (auto i : positions<P>(n)) {
                auto g = big<TRGSW<G>>();
                for (size_t a = 0; a < g->size(); a++)
                    for (int c = 0; c < 2; c++) {
                        alignas(64) PolynomialInFD<G> f = e.getbkfft<P>()[i][0][a][c];
                        alignas(64) Polynomial<G> q;
                        TwistFFT<G>(q, f);
                        (*g)[a][c] = q;
                    }
                rowsof<P>(o, "bkfft" + p, pair, i, *g);
            }
        if (slot("bkntt" + p).has(e))
            for (auto i : positions<P>(n)) {
                auto g = big<TRGSW<G>>();
                for (size_t a = 0; a < g->size(); a++)
                    for (int c = 0; c < 2; c++) {
                        PolynomialNTT<G> f = e.getbkntt<P>()[i][a][c];
                        TwistNTT<G>((*g)[a][c], f);
                    }
                rowsof<P>(o, "bkntt" + p, pair, i, *g);
            }
    }
    template <class K>
    std::vector<std::array<int, 3>> places(const K &key, int n)
    {
        const int I = key.size(), J = key[0].size(), U = key[0][0].size();
        std::vector<std::array<int, 3>> v = {{0, 0, 0}, {I - 1, J - 1, U - 1}, {0, J - 1, U - 1}, {I - 1, 0, 0}};
        for (int u = 0; u < U; u++)
            for (int j = 0; j < J; j++) v.push_back({(int)r.below(I), j, u});
        while ((int)v.size() < n) v.push_back({(int)r.below(I), (int)r.below(J), (int)r.below(U)});
        return v;
    }
    template <class T>
    void rows(int o, const std::string &s, const char *pair, const std::vector<std::array<int, 3>> &at, const std::vector<T> &ph, int off)
    {
        t.put(Ev("switch").i("obj", o).s("slot", s).s("pair", pair).i("off", off).iss("at", at).ws("ph", ph));
    }
    template <class P>
    void iksk(int o, const char *pair, int n)
    {
        using G = typename P::targetP;
        const std::string s = std::string("iksk") + pair;
        if (!slot(s).has(obj[o])) return;
        const auto &key = obj[o].getiksk<P>();
        const auto at = places(key, n);
        const int k = skof(o, s);
        std::vector<typename G::T> ph;
        for (auto &a : at) ph.push_back(refphase<G>(key[a[0]][a[1]][a[2]], sk[k]->key.get<G>()));
        rows(o, s, pair, at, ph, 0);
        const int q = r.below(at.size());
        t.put(Ev("sample").i("sk", k).s("lvl", nm<G>()).ws("c", key[at[q][0]][at[q][1]][at[q][2]]).w("ph", ph[q]));
    }
    void subiksk(int o, int n)
    {
        const std::string s = "subiksklvl21";
        if (!slot(s).has(obj[o])) return;
        const auto &key = obj[o].getsubiksk<lvl21param>();
        const auto at = places(key, n);
        const int k = skof(o, s);
        Key<lvl1param> sub;
        for (size_t i = 0; i < sub.size(); i++) sub[i] = sk[k]->key.lvl2[i];
        std::vector<uint32_t> ph;
        for (auto &a : at) ph.push_back(refphase<lvl1param>(key[a[0]][a[1]][a[2]], sub));
        rows(o, s, "lvl21", at, ph, lvl1param::n);
        const int q = r.below(at.size());
        t.put(Ev("sample").i("sk", k).s("lvl", "sub").ws("c", key[at[q][0]][at[q][1]][at[q][2]]).w("ph", ph[q]));
    }
    template <class P, class K>
    void priv(int o, const std::string &s, const char *pair, const K &key, int n)
    {
        using G = typename P::targetP;
        const int k = skof(o, s);
        const std::string name = s.substr(s.find('/') + 1);
        const std::string f = name.find("4cb_0") != std::string::npos ? "minus key" : name.find("4cb_1") != std::string::npos ? "one" : "other";
        variant() = var[hex(slot(s).dig(obj[o]))];
        const auto poly = func<G>(name);
        auto at = places(key, 0);
        at.resize(4);
        at.push_back({(int)key.size() - 1, (int)r.below(key[0].size()), (int)r.below(key[0][0].size())});
        while ((int)at.size() < n) at.push_back({(int)r.below(key.size()), (int)r.below(key[0].size()), (int)r.below(key[0][0].size())});
        for (auto &a : at) {
            const auto &c = key[a[0]][a[1]][a[2]];
            const auto ph = refphase<G>(c, sk[k]->key.get<G>());
            t.put(Ev("private").i("obj", o).s("slot", s).s("pair", pair).s("name", f).is("poly", signedkey(poly)).i("len", key.size() - 1).i("i", a[0]).i("j", a[1]).i("u", a[2]).ws("row", ph));
            if (&a == &at[0]) {
                const int j = r.below(G::n);
                t.put(Ev("coef").i("sk", k).s("lvl", nm<G>()).i("j", j).ws("a", c[0]).w("b", c[1][j]).w("ph", ph[j]));
            }
        }
    }
    // every slot of object o
    void contents(int o, int n)
    {
        boot<lvl01param>(o, "lvl01", n);
        boot<lvlh1param>(o, "lvlh1", n);
        boot<lvl02param>(o, "lvl02", n);
        boot<lvlh2param>(o, "lvlh2", n);
        iksk<lvl10param>(o, "lvl10", 40 * n);
        iksk<lvl1hparam>(o, "lvl1h", 40 * n);
        iksk<lvl20param>(o, "lvl20", 40 * n);
        iksk<lvl2hparam>(o, "lvl2h", 40 * n);
        iksk<lvl21param>(o, "lvl21", 40 * n);
        iksk<lvl22param>(o, "lvl22", 40 * n);
        iksk<lvl31param>(o, "lvl31", 40 * n);
        subiksk(o, 40 * n);
        for (const auto &s : all) {
            if (!s.has(obj[o]) || s.name.find('/') == std::string::npos) continue;
            const std::string kind = s.name.substr(0, s.name.find('/')), name = s.name.substr(s.name.find('/') + 1);
            if (kind == "privksklvl11") priv<lvl11param>(o, s.name, "lvl11", obj[o].getprivksk<lvl11param>(name), n + 2);
            if (kind == "privksklvl21") priv<lvl21param>(o, s.name, "lvl21", obj[o].getprivksk<lvl21param>(name), n + 2);
            if (kind == "privksklvl22") priv<lvl22param>(o, s.name, "lvl22", obj[o].getprivksk<lvl22param>(name), n + 2);
            if (kind == "subprivksklvl21") priv<lvl21param>(o, s.name, "lvl21", obj[o].getsubprivksk<lvl21param>(name), n + 2);
        }
    }
};

int main(int, char **argv)
{
    const std::string s = argv[1];
    Trace t(argv[2]);
    Rng r(s);
    World w(t, r);
    if (s.substr(0, 4) == "hist") {
        const int me = s[4] - '0';
        int prog = -1, mine = 0;
        bool on = false;
        auto finish = [&] {
            if (on)
                for (int o = 0; o < 2; o++) w.contents(o, 2);
        };
        for (const auto &rec : readprog(argv[3])) {
            const std::string op = rec.at("op");
            if (op == "begin") {
                finish();
                prog++;
                on = prog % 4 == me && mine < pick(1, 12);
                if (on) mine++, w.start(2);
                continue;
            }
            if (!on) continue;
            const int o = num(rec, "obj"), p = num(rec, "other"), k = num(rec, "sk");
            const std::string sl = rec.at("slot");
            if (op == "emplace") w.emplace(o, sl, k);
            if (op == "emplace4cb") w.emplace4cb(o, sl, k);
            if (op == "share") w.share(o, p);
            if (op == "drop") w.drop(o, sl);
            if (op == "fft" || op == "ntt") {
                if (sl == "lvl01") w.convert<lvl01param>(o, sl, op == "fft");
                if (sl == "lvlh1") w.convert<lvlh1param>(o, sl, op == "fft");
                if (sl == "lvl02") w.convert<lvl02param>(o, sl, op == "fft");
                if (sl == "lvlh2") w.convert<lvlh2param>(o, sl, op == "fft");
            }
        }
        finish();
        return 0;
    }
    const int n = pick(3, 12);
    w.start(2);
    // every slot is filled twice: what it holds in the end is the second key,
    // and a copy taken in between keeps the first
    if (s == "boot") {
        for (const char *p : {"lvl01", "lvlh1", "lvl02", "lvlh2"}) {
            w.emplace(0, std::string("bk") + p, 1);
            w.emplace(0, std::string("bkfft") + p, 0);
            w.emplace(0, std::string("bkntt") + p, 1);
        }
        w.share(1, 0);
        for (const char *p : {"lvl01", "lvlh1", "lvl02", "lvlh2"}) {
            w.emplace(0, std::string("bk") + p, 0);
            w.emplace(0, std::string("bkfft") + p, 1);
            w.emplace(0, std::string("bkntt") + p, 0);
        }
        w.contents(0, n);
    }
    if (s == "conv") {
        for (const char *p : {"lvl01", "lvlh1", "lvl02", "lvlh2"}) w.emplace(0, std::string("bk") + p, 1);
        w.share(1, 0);
        for (const bool f : {true, false}) {
            w.convert<lvl01param>(0, "lvl01", f);
            w.convert<lvlh2param>(0, "lvlh2", f);
            w.convert<lvl02param>(0, "lvl02", f);
            w.convert<lvlh1param>(0, "lvlh1", f);
        }
        w.contents(0, n);
    }
    if (s == "switch") {
        int k = 1;
        for (const char *p : {"lvl10", "lvl1h", "lvl20", "lvl2h", "lvl21", "lvl31"}) w.emplace(0, std::string("iksk") + p, k ^= 1);
        w.emplace(0, "subiksklvl21", 0);
        w.share(1, 0);
        k = 0;
        for (const char *p : {"lvl10", "lvl1h", "lvl20", "lvl2h", "lvl21", "lvl31"}) w.emplace(0, std::string("iksk") + p, k ^= 1);
        w.emplace(0, "subiksklvl21", 1);
        w.contents(0, n);
    }
    if (s == "private") {
        w.emplace(0, "privksklvl11/privksk4cb_0", 1);
        w.emplace(0, "privksklvl11/b", 1);
        w.share(1, 0);
        w.emplace4cb(0, "privksklvl11", 0);
        w.emplace(0, "privksklvl11/b", 1, 1);
        w.emplace(0, "privksklvl21/privksk4cb_1", 0);
        w.emplace(0, "subprivksklvl21/subprivksk4cb_0", 0);
        w.emplace4cb(0, "privksklvl21", 1);
        w.emplace4cb(0, "subprivksklvl21", 1);
        w.emplace(0, "privksklvl21/a", 0);
        w.emplace(0, "subprivksklvl21/b", 0);
        w.emplace4cb(0, "subprivksklvl21", 0);
        w.share(1, 0);
        w.emplace(0, "privksklvl21/a", 0, 1);
        w.emplace(0, "subprivksklvl21/b", 1, 1);
        w.contents(0, n);
    }
    if (s == "wide") {
        w.emplace(0, "iksklvl22", 1);
        w.emplace(0, "privksklvl22/privksk4cb_1", 1);
        w.emplace4cb(0, "privksklvl22", 0);
        w.emplace(0, "privksklvl22/privksk4cb_0", 0, 1);
        w.contents(0, n);
    }
    return 0;
}
