// C16: secret keys generated in histories, threads and processes.
#include "common.hpp"
#include "prog.hpp"
#include "workers.hpp"
using namespace vf;

static const std::vector<std::string> lv = {"lvl0", "lvlhalf", "lvl1", "lvl2", "lvl3"};
static std::string hx(uint64_t v)
{
    char b[20];
    std::snprintf(b, sizeof b, "%016llx", (unsigned long long)v);
    return b;
}
static std::vector<std::string> members(const lweKey &k)
{
    return {hx(digest(k.lvl0)), hx(digest(k.lvlhalf)), hx(digest(k.lvl1)), hx(digest(k.lvl2)), hx(digest(k.lvl3))};
}
static std::vector<std::string> lookups(const lweKey &k)
{
    return {hx(digest(k.get<lvl0param>())), hx(digest(k.get<lvlhalfparam>())), hx(digest(k.get<lvl1param>())), hx(digest(k.get<lvl2param>())), hx(digest(k.get<lvl3param>()))};
}
static std::string list(const std::vector<std::vector<std::string>> &v)
{
    std::string s = "[";
    for (auto &a : v) {
        s += s.size() > 1 ? ",[" : "[";
        for (size_t i = 0; i < a.size(); i++) s += (i ? ",\"" : "\"") + a[i] + '"';
        s += "]";
    }
    return s + "]";
}
static void keyevents(Trace &t, int id, const lweKey &k)
{
    t.put(Ev("key").i("id", id).s("lvl", "lvl0").is("vals", signedkey(k.get<lvl0param>())));
    t.put(Ev("key").i("id", id).s("lvl", "lvlhalf").is("vals", signedkey(k.get<lvlhalfparam>())));
    t.put(Ev("key").i("id", id).s("lvl", "lvl1").is("vals", signedkey(k.get<lvl1param>())));
    t.put(Ev("key").i("id", id).s("lvl", "lvl2").is("vals", signedkey(k.get<lvl2param>())));
    t.put(Ev("key").i("id", id).s("lvl", "lvl3").is("vals", signedkey(k.get<lvl3param>())));
}

int main(int argc, char **argv)
{
    const std::string s = argv[1];
    if (s == "child") {  // another process: the digests of its first keys
        auto a = std::make_unique<SecretKey>();
        auto b = std::make_unique<lweKey>();
        for (const auto *k : {&a->key, b.get()})
            for (auto &d : members(*k)) std::puts(d.c_str());
        return 0;
    }
    Trace t(argv[2]);
    Rng r(s);
    if (s == "hist") {
        Workers w(3);
        std::vector<std::unique_ptr<SecretKey>> obj;
        auto put = [&](Ev e) {
            std::vector<std::vector<std::string>> a, b;
            for (auto &o : obj) a.push_back(members(o->key)), b.push_back(lookups(o->key));
            t.put(e.raw("snap", list(a)).raw("got", list(b)));
        };
        for (const auto &rec : readprog(argv[3])) {
            const std::string op = rec.at("op");
            if (op == "begin") {
                obj.clear();
                for (int i = 0; i < 4; i++) obj.push_back(std::make_unique<SecretKey>());
                put(Ev("start"));
                continue;
            }
            const int o = num(rec, "obj"), p = num(rec, "other"), th = num(rec, "thread");
            if (op == "new") {
                w.run(th, [&] { obj[o] = std::make_unique<SecretKey>(); });
                put(Ev("new").i("obj", o));
            }
            if (op == "key") {
                w.run(th, [&] { obj[o]->key = lweKey(); });
                put(Ev("new").i("obj", o));
            }
            if (op == "copy") {
                w.run(th, [&] { if (o != p) *obj[o] = *obj[p]; });
                put(Ev("copy").i("obj", o).i("other", p));
            }
            if (op == "move") {
                w.run(th, [&] { obj[o] = std::make_unique<SecretKey>(SecretKey(*obj[p])); });
                put(Ev("copy").i("obj", o).i("other", p));
            }
        }
        return 0;
    }
    if (s == "procs") {
        // several processes at once, each with its own entropy
        for (int round = 0; round < pick(2, 10); round++) {
            std::vector<FILE *> ps;
            for (int i = 0; i < 4; i++) {
                const std::string cmd = "VERIF_SEED=" + std::to_string(r.below(1u << 30)) + " '" + argv[0] + "' child";
                ps.push_back(popen(cmd.c_str(), "r"));
            }
            for (auto *p : ps) {
                std::vector<std::string> d;
                char line[64];
                while (std::fgets(line, sizeof line, p)) d.push_back(std::string(line, 16));
                if (pclose(p) != 0 || d.size() != 10) return 91;
                t.put(Ev("proc").ss("digs", d));
            }
        }
        // and threads of this one
        std::vector<std::vector<std::string>> d(pick(24, 200));
        for (size_t i = 0; i < d.size(); i += 8) {
            std::vector<std::thread> th;
            Barrier b(8);
            for (size_t j = i; j < i + 8; j++)
                th.emplace_back([&, j] {
                    auto k = big<lweKey>(), q = big<lweKey>();
                    b.wait();
                    *k = lweKey();
                    *q = lweKey();
                    d[j] = members(*k);
                    for (auto &x : members(*q)) d[j].push_back(x);
                });
            for (auto &x : th) x.join();
        }
        for (auto &x : d) t.put(Ev("proc").ss("digs", x));
        return 0;
    }
    if (s == "overlap") {
        // threads that generate keys at the same time: no stretch of one
        // level occurs again, at whatever offset and in whatever key
        std::vector<std::unique_ptr<lweKey>> k(16);
        std::vector<std::thread> th;
        Barrier b(16);
        for (int i = 0; i < 16; i++)
            th.emplace_back([&, i] {
                auto x = big<lweKey>();
                b.wait();
                for (int q = 0; q < 6; q++) *x = lweKey();
                k[i] = std::make_unique<lweKey>(*x);
            });
        for (auto &x : th) x.join();
        std::vector<std::pair<std::vector<int>, std::string>> v;
        auto cut = [&](int id, const char *lv, const std::vector<int64_t> &c, int base) {
            const size_t len = base == 2 ? 72 : 48, per = base == 2 ? 18 : 12;
            for (size_t i = 0; i + len <= c.size(); i++) {
                std::vector<int> w = {base};
                for (size_t j = 0; j < len; j += per) {
                    int x = 0;
                    for (size_t q = 0; q < per; q++) x = base * x + (int)(c[i + j + q] + (base == 3));
                    w.push_back(x);
                }
                v.push_back({w, "key " + std::to_string(id) + " " + lv + " from " + std::to_string(i)});
            }
        };
        for (int i = 0; i < 16; i++) {
            cut(i, "lvl0", signedkey(k[i]->get<lvl0param>()), 2);
            cut(i, "lvlhalf", signedkey(k[i]->get<lvlhalfparam>()), 2);
            cut(i, "lvl1", signedkey(k[i]->get<lvl1param>()), 3);
            cut(i, "lvl2", signedkey(k[i]->get<lvl2param>()), 3);
            cut(i, "lvl3", signedkey(k[i]->get<lvl3param>()), 3);
        }
        std::sort(v.begin(), v.end());
        for (size_t i = 0; i < v.size(); i += 20000) {
            std::vector<std::vector<int>> ws;
            std::vector<std::string> at;
            for (size_t j = i; j < std::min(v.size(), i + 20000); j++) ws.push_back(v[j].first), at.push_back(v[j].second);
            t.put(Ev("stretches").iss("ws", ws).ss("at", at).i("total", v.size()));
        }
        t.put(Ev("stop"));
        return 0;
    }
    // samples: sections "freq" (main thread), "threads"
    std::vector<std::unique_ptr<lweKey>> ks(pick(60, 200));
    if (s == "freq") {
        for (auto &k : ks) k = std::make_unique<lweKey>();
    }
    else {
#pragma omp parallel for
        for (size_t i = 0; i < ks.size(); i++) {
            if (i % 3) {
                ks[i] = std::make_unique<lweKey>();
                continue;
            }
            std::thread([&, i] { ks[i] = std::make_unique<lweKey>(); }).join();
        }
    }
    for (size_t i = 0; i < ks.size(); i++) keyevents(t, i, *ks[i]);
    const int sizes[5] = {636, 760, 1024, 2048, 8192};
    auto pairev = [&](int a, int la, int b, int lb, int sh) { t.put(Ev("pair").i("a", a).i("b", b).s("la", lv[la]).s("lb", lv[lb]).i("shift", sh)); };
    const int n = ks.size();
    // levels of one key, at the same positions and shifted
    for (int rep = 0; rep < 3; rep++) {
        const int a = rep == 0 ? 0 : r.below(n);
        for (int x = 0; x < 5; x++)
            for (int y = 0; y < 5; y++)
                if (x != y) {
                    pairev(a, x, a, y, 0);
                    if (sizes[y] >= 2 * 636) pairev(a, x, a, y, std::min(sizes[x], sizes[y] - 400));
                    pairev(a, x, a, y, r.below(sizes[y] - 310));
                }
    }
    // two keys, same level and different levels
    for (int rep = 0; rep < pick(16, 100); rep++) {
        const int a = r.below(n), b = rep % 2 ? (a + 1) % n : (a + 1 + r.below(n - 1)) % n;
        for (int x = 0; x < 5; x++) pairev(a, x, b, x, 0), pairev(a, x, b, x, r.below(sizes[x] - 310));
        pairev(a, r.below(5), b, r.below(5), 0);
    }
    // within a level
    for (int x = 0; x < 5; x++) {
        std::vector<int> sh = {1, 2, 3, 4, 5, 6, 7, 8, 16, 32, 64, 128, 256};
        for (int h : {512, 1024, 2048, 4096, sizes[x] / 2, sizes[x] / 4, sizes[x] / 3})
            if (h <= sizes[x] - 310) sh.push_back(h);
        for (int i = 0; i < 6; i++) sh.push_back(1 + r.below(sizes[x] - 311));
        const int a = r.below(n);
        for (int h : sh) pairev(a, x, a, x, h);
        for (int i = 0; i < 3; i++) t.put(Ev("triple").i("a", r.below(n)).s("la", lv[x]));
    }
    t.put(Ev("end"));
    return 0;
}
