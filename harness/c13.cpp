// C13: archives.
#include <cereal/archives/portable_binary.hpp>

#include "prog.hpp"
#include "slots.hpp"
using namespace vf;

// an archive held in memory
struct Buf : std::streambuf {
    std::string data;
    int overflow(int c) override
    {
        if (c != EOF) data.push_back((char)c);
        return c;
    }
    std::streamsize xsputn(const char *s, std::streamsize n) override
    {
        data.append(s, n);
        return n;
    }
    void rewind() { setg(data.data(), data.data(), data.data() + data.size()); }
    long rest() { return egptr() - gptr(); }
};
template <class T>
std::unique_ptr<Buf> save(T &obj, bool call, size_t hint = 0)
{
    auto b = std::make_unique<Buf>();
    b->data.reserve(hint + 4096);
    std::ostream os(b.get());
    {
        cereal::PortableBinaryOutputArchive ar(os);
        if constexpr (requires { obj.serialize(ar); }) {
            if (call)
                obj.serialize(ar);
            else
                ar(obj);
        }
        else
            ar(obj);
    }
    return b;
}
template <class T>
long load(Buf &b, T &obj, bool call)
{
    b.rewind();
    std::istream is(&b);
    {
        cereal::PortableBinaryInputArchive ar(is);
        if constexpr (requires { obj.serialize(ar); }) {
            if (call)
                obj.serialize(ar);
            else
                ar(obj);
        }
        else
            ar(obj);
    }
    return b.rest();
}
std::string sum(const Buf &b) { return hex(digest(b.data.data(), b.data.size())) + ":" + std::to_string(b.data.size()); }

std::string kv(const std::string &k, const std::string &v) { return "[\"" + k + "\",\"" + v + "\"]"; }

// parameters of a record that archives must carry
std::string pardig(lweParams &p)
{
    Buf b;
    std::string o;
    const auto u = [&](uint64_t v) { o += hex(v); };
    const auto d = [&](double v) { uint64_t w; std::memcpy(&w, &v, 8); u(w); };
    u(p.lvl0.n), d(p.lvl0.α), u(p.lvl0.approx_bit), u(p.lvl1.nbit), u(p.lvl1.n), u(p.lvl1.l), u(p.lvl1.Bgbit), u(p.lvl1.Bg), d(p.lvl1.α), u(p.lvl1.approx_bit);
    u(p.lvl2.nbit), u(p.lvl2.n), u(p.lvl2.l), u(p.lvl2.Bgbit), u(p.lvl2.Bg), u(p.lvl2.approx_bit), u(p.lvl10.t), u(p.lvl10.basebit), d(p.lvl10.α);
    u(p.lvl20.t), u(p.lvl20.basebit), d(p.lvl20.α), u(p.lvl21.t), u(p.lvl21.basebit), u(p.lvl22.t), u(p.lvl22.basebit);
    return hex(digest(o.data(), o.size()));
}
void alter(lweParams &p, int tag)
{
    p = lweParams();
    switch (tag % 8) {
        case 0: p.lvl0.n += tag; break;
        case 1: p.lvl0.approx_bit += tag; break;
        case 2: p.lvl1.α /= tag; break;
        case 3: p.lvl2.approx_bit += tag; break;
        case 4: p.lvl10.α /= tag; break;
        case 5: p.lvl20.t += tag; break;
        case 6: p.lvl22.basebit += tag; break;
        default: p.lvl21.basebit += tag;
    }
}

// ---- the two kinds of objects the generated histories are about ----------
struct KeyKind {
    using Obj = EvalKey;
    std::vector<Slot> all = slots();
    std::string snap(Obj &e)
    {
        std::string s = snapshot(e, all);
        s.insert(1, kv("params", pardig(e.params)) + (s.size() > 2 ? "," : ""));
        return s;
    }
    std::string put(Obj &e, const std::string &slot, int tag)
    {
        for (auto &s : all)
            if (s.name == slot) {
                s.fill(e, tag);
                return hex(s.dig(e));
            }
        std::exit(91);
    }
    void drop(Obj &e, const std::string &slot)
    {
        for (auto &s : all)
            if (s.name == slot) s.drop(e);
    }
    std::string params(Obj &e, int tag)
    {
        alter(e.params, tag);
        return pardig(e.params);
    }
    const char *pname() { return "params"; }
};
struct PacketKind {
    using Obj = IOpacket;
    template <class M>
    static void add(std::string &o, const char *t, const M &m)
    {
        for (const auto &[k, v] : m) {
            if (o.size() > 1) o += ',';
            uint64_t h = v.size() * 77 + 5;
            for (const auto &c : v) h = cdig(c, h);
            o += kv(std::string(t) + "/" + k, hex(h));
        }
    }
    std::string snap(Obj &p)
    {
        std::string o = "[";
        add(o, "tlwelvl0", p.tlwelvl0ports);
        add(o, "tlwelvl1", p.tlwelvl1ports);
        add(o, "trlwelvl2", p.trlwelvl2ports);
        add(o, "trgswlvl2", p.trgswlvl2ports);
        if (o.size() > 1) o += ',';
        return o + kv("cycles", std::to_string(p.numCycles)) + "]";
    }
    template <class F>
    void on(Obj &p, const std::string &slot, F f)
    {
        const auto i = slot.find('/');
        const std::string t = slot.substr(0, i), k = slot.substr(i + 1);
        if (t == "tlwelvl0") f(p.tlwelvl0ports, k);
        if (t == "tlwelvl1") f(p.tlwelvl1ports, k);
        if (t == "trlwelvl2") f(p.trlwelvl2ports, k);
        if (t == "trgswlvl2") f(p.trgswlvl2ports, k);
    }
    std::string put(Obj &p, const std::string &slot, int tag)
    {
        std::string d;
        on(p, slot, [&](auto &m, const std::string &k) {
            auto &v = m[k];
            v.resize(tag % 4);
            uint64_t h = v.size() * 77 + 5;
            for (auto &c : v) {
                scribble(&c, sizeof(c), tag + (&c - v.data()));
                h = cdig(c, h);
            }
            d = hex(h);
        });
        return d;
    }
    void drop(Obj &p, const std::string &slot)
    {
        on(p, slot, [&](auto &m, const std::string &k) { m.erase(k); });
    }
    std::string params(Obj &p, int tag)
    {
        p.numCycles = tag % 3 ? tag : 0x10000u * tag + 1;
        return std::to_string(p.numCycles);
    }
    const char *pname() { return "cycles"; }
};

template <class K>
void history(Trace &t, const std::vector<Rec> &prog)
{
    K k;
    auto objs = std::vector<std::unique_ptr<typename K::Obj>>();
    std::unique_ptr<Buf> arcs[3];
    t.put(Ev("new"));
    for (int i = 0; i < 3; i++) {
        objs.push_back(std::make_unique<typename K::Obj>());
        t.put(Ev("fresh").s("obj", "o" + std::to_string(i)).raw("snap", k.snap(*objs[i])));
    }
    for (const auto &r : prog) {
        const std::string op = r.at("op");
        const int o = num(r, "obj"), p = num(r, "other"), a = num(r, "arc"), tag = num(r, "tag");
        const std::string on = "o" + std::to_string(o), an = "a" + std::to_string(a);
        std::string slot = r.at("slot");
        for (auto &c : slot)
            if (c == '+') c = ' ';
        auto &x = *objs[o];
        if (op == "put") {
            const auto d = k.put(x, slot, tag);
            t.put(Ev("put").s("obj", on).s("slot", slot).s("dig", d).raw("snap", k.snap(x)));
        }
        if (op == "params") {
            const auto d = k.params(x, tag);
            t.put(Ev("put").s("obj", on).s("slot", k.pname()).s("dig", d).raw("snap", k.snap(x)));
        }
        if (op == "drop") {
            k.drop(x, slot);
            t.put(Ev("drop").s("obj", on).s("slot", slot).raw("snap", k.snap(x)));
        }
        if (op == "copy") {
            x = *objs[p];
            t.put(Ev("copy").s("obj", on).s("from", "o" + std::to_string(p)).raw("snap", k.snap(x)));
        }
        if (op == "save") {
            arcs[a] = save(x, tag);
            const auto again = save(x, tag, arcs[a]->data.size());
            t.put(Ev("save").s("obj", on).s("arc", an).s("bytes", sum(*arcs[a])).s("again", arcs[a]->data == again->data ? sum(*again) : "different").raw("snap", k.snap(x)));
        }
        if (op == "load") {
            const long rest = load(*arcs[a], x, tag);
            t.put(Ev("load").s("obj", on).s("arc", an).i("rest", rest).raw("snap", k.snap(x)));
        }
    }
    // objects no longer touched must still be what they were
    for (int i = 0; i < 3; i++)
        t.put(Ev("copy").s("obj", "o" + std::to_string(i)).s("from", "o" + std::to_string(i)).raw("snap", k.snap(*objs[i])));
}

// ---- every kind of ciphertext and key alone --------------------------------
template <class T>
void alone(Trace &t, const char *name, Rng &r)
{
    auto x = std::unique_ptr<T>(new (std::align_val_t(64)) T), y = std::unique_ptr<T>(new (std::align_val_t(64)) T);
    for (int i = 0; i < 3; i++) {
        scribble(x.get(), sizeof(T), r.next());
        scribble(y.get(), sizeof(T), r.next());
        if (i == 1) std::memset((void *)x.get(), 0xff, sizeof(T));
        if (i == 2 && !std::is_same_v<typename T::value_type, void>) std::memset((void *)x.get(), 0, sizeof(T) - sizeof(typename T::value_type));
        const auto snap = [&](const T &v) { return "[" + kv(name, hex(cdig(v))) + "]"; };
        t.put(Ev("new"));
        t.put(Ev("fresh").s("obj", "x").raw("snap", snap(*x)));
        const auto b = save(*x, false), c = save(*x, false);
        t.put(Ev("save").s("obj", "x").s("arc", "a").s("bytes", sum(*b)).s("again", b->data == c->data ? sum(*c) : "different").raw("snap", snap(*x)));
        const long rest = load(*b, *y, false);
        t.put(Ev("load").s("obj", "y").s("arc", "a").i("rest", rest).raw("snap", snap(*y)));
    }
}

// ---- secret keys ------------------------------------------------------------
std::string sksnap(SecretKey &k)
{
    return "[" + kv("lvl0", hex(digest(k.key.lvl0))) + "," + kv("lvlhalf", hex(digest(k.key.lvlhalf))) + "," + kv("lvl1", hex(digest(k.key.lvl1))) + "," + kv("lvl2", hex(digest(k.key.lvl2))) + "," + kv("lvl3", hex(digest(k.key.lvl3))) + "," + kv("params", pardig(k.params)) + "]";
}
void secrets(Trace &t, Rng &r)
{
    std::unique_ptr<SecretKey> k[3];
    std::unique_ptr<Buf> arcs[3];
    t.put(Ev("new"));
    for (int i = 0; i < 3; i++) {
        k[i] = std::make_unique<SecretKey>();
        t.put(Ev("fresh").s("obj", "o" + std::to_string(i)).raw("snap", sksnap(*k[i])));
    }
    for (int op = 0; op < pick(300, 3000); op++) {
        const int o = r.below(3), a = r.below(3);
        const std::string on = "o" + std::to_string(o), an = "a" + std::to_string(a);
        switch (op == 0 ? 2 : r.below(6)) {
            case 0:
                *k[o] = SecretKey();
                t.put(Ev("fresh").s("obj", on).raw("snap", sksnap(*k[o])));
                break;
            case 1: {
                alter(k[o]->params, r.below(1000) + 1);
                t.put(Ev("put").s("obj", on).s("slot", "params").s("dig", pardig(k[o]->params)).raw("snap", sksnap(*k[o])));
                break;
            }
            case 2:
            case 3: {
                const bool call = r.bit();
                arcs[a] = save(*k[o], call);
                const auto again = save(*k[o], call);
                t.put(Ev("save").s("obj", on).s("arc", an).s("bytes", sum(*arcs[a])).s("again", arcs[a]->data == again->data ? sum(*again) : "different").raw("snap", sksnap(*k[o])));
                break;
            }
            default:
                if (!arcs[a]) break;
                const long rest = load(*arcs[a], *k[o], r.bit());
                t.put(Ev("load").s("obj", on).s("arc", an).i("rest", rest).raw("snap", sksnap(*k[o])));
        }
    }
}

// ---- every slot alone, pairs, and as many as memory allows ------------------
void sets(Trace &t, Rng &r, bool heavy)
{
    auto all = slots({"privksk4cb_0", "privksk4cb_1", ""});
    KeyKind k;
    k.all = all;
    std::vector<std::vector<size_t>> groups;
    const size_t cap = heavy ? 3u << 30 : 600u << 20;
    if (heavy) {
        for (size_t i = 0; i < all.size(); i++)
            if (all[i].bytes > (1u << 30) && (thorough() || all[i].name.find("_0") != std::string::npos || all[i].name.find('/') == std::string::npos)) groups.push_back({i});
    }
    else {
        groups.push_back({});
        for (size_t i = 0; i < all.size(); i++)
            if (all[i].bytes < cap && (all[i].name.find('/') == std::string::npos || all[i].name.find("_1") != std::string::npos)) groups.push_back({i});
        for (int n = 0; n < pick(6, 60); n++) {
            std::vector<size_t> g;
            size_t b = 0;
            for (int m = 0; m < 12; m++) {
                const size_t i = r.below(all.size());
                if (b + all[i].bytes > cap || std::find(g.begin(), g.end(), i) != g.end()) continue;
                b += all[i].bytes;
                g.push_back(i);
            }
            groups.push_back(g);
        }
    }
    for (const auto &g : groups) {
        t.put(Ev("new"));
        EvalKey e, f;
        size_t bytes = 0;
        t.put(Ev("fresh").s("obj", "e").raw("snap", k.snap(e)));
        for (size_t i : g) {
            all[i].fill(e, r.next());
            bytes += all[i].bytes;
            t.put(Ev("put").s("obj", "e").s("slot", all[i].name).s("dig", hex(all[i].dig(e))).raw("snap", k.snap(e)));
        }
        const auto b = save(e, true, bytes);
        std::string again;
        if (heavy)
            again = sum(*b);
        else
            again = sum(*save(e, false, bytes));
        t.put(Ev("save").s("obj", "e").s("arc", "a").s("bytes", sum(*b)).s("again", again).raw("snap", k.snap(e)));
        if (!heavy) {  // what f held before must be gone
            const size_t i = r.below(12);
            all[i].fill(f, 5);
            all[all.size() - 1].name.size();
        }
        const long rest = load(*b, f, true);
        t.put(Ev("load").s("obj", "f").s("arc", "a").i("rest", rest).raw("snap", k.snap(f)));
    }
}

// ---- archives whose writer stopped early -------------------------------------
template <class T>
void tear(Trace &t, Rng &r, const Buf &whole, T &into, bool call, int cuts)
{
    const long n = whole.data.size();
    std::vector<long> at = {0, 1, 2, 9, n / 2, n - 1, n - 2, n - 9};
    for (int i = 0; i < cuts; i++) at.push_back(i % 3 ? r.next() % n : n - 1 - std::min<long>(n - 1, r.below(300)));
    for (long a : at) {
        if (a < 0 || a >= n) continue;
        Buf part;
        part.data.assign(whole.data.begin(), whole.data.begin() + a);
        bool refused = false;
        try {
            load(part, into, call);
        }
        catch (const std::exception &) {
            refused = true;
        }
        t.put(Ev("torn").s("obj", "y").i("at", a).i("size", n).b("refused", refused));
    }
}
void torn(Trace &t, Rng &r)
{
    KeyKind kk;
    kk.all = slots({"privksk4cb_0", "privksk4cb_1", ""});
    for (int rep = 0; rep < pick(2, 8); rep++) {
        {
            SecretKey x, y;
            t.put(Ev("new"));
            t.put(Ev("fresh").s("obj", "x").raw("snap", sksnap(x)));
            const auto b = save(x, rep % 2);
            t.put(Ev("save").s("obj", "x").s("arc", "a").s("bytes", sum(*b)).s("again", sum(*b)).raw("snap", sksnap(x)));
            tear(t, r, *b, y, rep % 2, pick(40, 400));
            const long rest = load(*b, y, rep % 2);
            t.put(Ev("load").s("obj", "y").s("arc", "a").i("rest", rest).raw("snap", sksnap(y)));
        }
        {
            PacketKind pk;
            IOpacket x, y;
            t.put(Ev("new"));
            t.put(Ev("fresh").s("obj", "x").raw("snap", pk.snap(x)));
            for (const char *slot : {"tlwelvl0/a", "tlwelvl0/b", "tlwelvl1/a", "trlwelvl2/m", "trgswlvl2/g"}) {
                const auto d = pk.put(x, slot, 1 + r.below(3));
                t.put(Ev("put").s("obj", "x").s("slot", slot).s("dig", d).raw("snap", pk.snap(x)));
            }
            const auto b = save(x, rep % 2);
            t.put(Ev("save").s("obj", "x").s("arc", "a").s("bytes", sum(*b)).s("again", sum(*b)).raw("snap", pk.snap(x)));
            tear(t, r, *b, y, rep % 2, pick(60, 600));
            const long rest = load(*b, y, rep % 2);
            t.put(Ev("load").s("obj", "y").s("arc", "a").i("rest", rest).raw("snap", pk.snap(y)));
        }
        {
            EvalKey x, y;
            t.put(Ev("new"));
            t.put(Ev("fresh").s("obj", "x").raw("snap", kk.snap(x)));
            size_t bytes = 0;
            for (int m = 0; m < 40; m++) {
                auto &sl = kk.all[r.below(kk.all.size())];
                if (sl.bytes > (40u << 20)) continue;
                sl.fill(x, r.next());
                t.put(Ev("put").s("obj", "x").s("slot", sl.name).s("dig", hex(sl.dig(x))).raw("snap", kk.snap(x)));
                if ((bytes += sl.bytes) > (60u << 20)) break;
            }
            const auto b = save(x, true, bytes);
            t.put(Ev("save").s("obj", "x").s("arc", "a").s("bytes", sum(*b)).s("again", sum(*b)).raw("snap", kk.snap(x)));
            tear(t, r, *b, y, true, pick(20, 100));
            const long rest = load(*b, y, true);
            t.put(Ev("load").s("obj", "y").s("arc", "a").i("rest", rest).raw("snap", kk.snap(y)));
        }
    }
}

// ---- a client and a server that meet only through archives ------------------
template <class T>
void through(T &x)
{
    auto b = save(x, true);
    auto y = std::make_unique<T>();
    load(*b, *y, true);
    x = *y;
}
void flow(Trace &t, Rng &r)
{
    auto sk = std::make_unique<SecretKey>();
    EvalKey ek(*sk);
    ek.emplacebkfft<lvl01param>(*sk);
    ek.emplaceiksk<lvl10param>(*sk);
    ek.emplacebkntt<lvl01param>(*sk);
    t.put(Ev("new"));
    for (int round = 0; round < pick(3, 20); round++) {
        SecretKey csk = *sk;  // the client's
        EvalKey sek = ek;     // the server's
        IOpacket pkt, plain;
        for (const char *port : {"a", "b", "s"})
            for (int i = 0; i < 3; i++) {
                plain.tlwelvl0ports[port].push_back(tlweSymEncrypt<lvl0param>(r.bit() ? lvl0param::μ : -lvl0param::μ, sk->key.lvl0));
                plain.tlwelvl1ports[port].push_back(tlweSymEncrypt<lvl1param>(r.bit() ? lvl1param::μ : -lvl1param::μ, sk->key.lvl1));
            }
        pkt = plain;
        const std::string rn = std::to_string(round);
        auto result = [&](const std::string &what, const auto &p) {
            t.put(Ev("result").s("what", what).s("name", rn + what).s("dig", hex(cdig(p))));
        };
        for (const bool arch : {false, true}) {
            pkt = plain;
            if (arch) {
                through(pkt);
                through(sek);
                through(csk);
                if (round % 2) through(sek);
            }
            for (int step = 0; step < 4; step++) {
                if (arch && step % 2) through(pkt);
                TLWE<lvl0param> c0;
                TLWE<lvl1param> c1;
                const int i = step % 3, j = (round + step) % 3;
                HomNAND<lvl01param, lvl0param::μ, lvl10param>(c0, pkt.tlwelvl0ports["a"][i], pkt.tlwelvl0ports["b"][j], sek);
                HomXOR<lvl10param, lvl01param, lvl1param::μ>(c1, pkt.tlwelvl1ports["a"][i], pkt.tlwelvl1ports["s"][j], sek);
                pkt.tlwelvl0ports["a"][i] = c0;
                pkt.tlwelvl1ports["a"][i] = c1;
                result("nand" + std::to_string(step), c0);
                result("xor" + std::to_string(step), c1);
                TLWE<lvl1param> cn;
                GateBootstrappingTLWE2TLWENTT<lvl01param>(cn, c0, sek.getbkntt<lvl01param>(), μpolygen<lvl1param, lvl1param::μ>());
                result("ntt" + std::to_string(step), cn);
                const int bit = tlweSymDecrypt<lvl1param>(c1, csk.key.lvl1);
                result("bit" + std::to_string(step), bit);
            }
        }
    }
}

int main(int, char **argv)
{
    const std::string s = argv[1];
    Trace t(argv[2]);
    Rng r(s);
    if (s == "keys" || s == "packets") {
        std::vector<Rec> cur;
        const std::string kind = s == "keys" ? "key" : "packet";
        int n = 0;
        auto flush = [&] {
            if (cur.empty()) return;
            if (s == "keys" && n < pick(6, 60)) history<KeyKind>(t, cur), n++;
            if (s == "packets" && n < pick(60, 400)) history<PacketKind>(t, cur), n++;
            cur.clear();
        };
        for (const auto &rec : readprog(argv[3])) {
            if (rec.at("op") == "begin")
                flush();
            else if (rec.at("kind") == kind)
                cur.push_back(rec);
        }
        flush();
    }
    if (s == "secret") secrets(t, r);
    if (s == "alone") {
        alone<TLWE<lvl0param>>(t, "TLWE lvl0", r);
        alone<TLWE<lvlhalfparam>>(t, "TLWE lvlhalf", r);
        alone<TLWE<lvl1param>>(t, "TLWE lvl1", r);
        alone<TLWE<lvl2param>>(t, "TLWE lvl2", r);
        alone<TLWE<lvl3param>>(t, "TLWE lvl3", r);
        alone<TRLWE<lvl1param>>(t, "TRLWE lvl1", r);
        alone<TRLWE<lvl2param>>(t, "TRLWE lvl2", r);
        alone<TRLWE3<lvl1param>>(t, "TRLWE3 lvl1", r);
        alone<TRGSW<lvl1param>>(t, "TRGSW lvl1", r);
        alone<TRGSW<lvl2param>>(t, "TRGSW lvl2", r);
        alone<HalfTRGSW<lvl1param>>(t, "HalfTRGSW lvl1", r);
        alone<TRGSWFFT<lvl1param>>(t, "TRGSWFFT lvl1", r);
        alone<TRGSWFFT<lvl2param>>(t, "TRGSWFFT lvl2", r);
        alone<HalfTRGSWFFT<lvl2param>>(t, "HalfTRGSWFFT lvl2", r);
        alone<TRGSWNTT<lvl1param>>(t, "TRGSWNTT lvl1", r);
        alone<TRGSWNTT<lvl2param>>(t, "TRGSWNTT lvl2", r);
        alone<TRGSWRAINTT<lvl1param>>(t, "TRGSWRAINTT lvl1", r);
        alone<Key<lvl0param>>(t, "Key lvl0", r);
        alone<Key<lvl2param>>(t, "Key lvl2", r);
        alone<relinKey<lvl1param>>(t, "relinKey lvl1", r);
        alone<relinKeyFFT<lvl1param>>(t, "relinKeyFFT lvl1", r);
        alone<AnnihilateKey<lvl1param>>(t, "AnnihilateKey lvl1", r);
        alone<AnnihilateKey<lvl2param>>(t, "AnnihilateKey lvl2", r);
        alone<BootstrappingKeyRAINTT<lvl01param>>(t, "BootstrappingKeyRAINTT lvl01", r);
    }
    if (s == "sets") sets(t, r, false);
    if (s == "heavy") sets(t, r, true);
    if (s == "torn") torn(t, r);
    if (s == "flow") flow(t, r);
    return 0;
}
