// The slots of an evaluation key, by name.
#pragma once
#include "common.hpp"
namespace vf {
// digest of the coefficients only: samples are padded to their alignment
template <class T>
uint64_t cdig(const T &a, uint64_t h = 0xcbf29ce484222325ULL)
{
    if constexpr (requires { typename T::value_type; }) {
        using V = typename T::value_type;
        if constexpr (requires { typename V::value_type; }) {
            for (const auto &x : a) h = cdig(x, h);
            return h;
        }
        else
            return digest(a.data(), a.size() * sizeof(V), h);
    }
    else
        return digest(&a, sizeof(a), h);
}
struct Slot {
    std::string name;
    size_t bytes;
    std::function<bool(const EvalKey &)> has;
    std::function<const void *(const EvalKey &)> raw;        // through the member
    std::function<const void *(const EvalKey &)> got;        // through the getter
    std::function<uint64_t(const void *)> cd;
    std::function<void(EvalKey &, const SecretKey &)> emplace;
    std::function<void(EvalKey &, uint64_t)> fill;           // arbitrary contents
    std::function<void(EvalKey &)> drop;
    uint64_t dig(const EvalKey &e) const { return has(e) ? cd(raw(e)) : 0; }
    uint64_t diggot(const EvalKey &e) const { return has(e) ? cd(got(e)) : 0; }
};
inline void scribble(void *p, size_t n, uint64_t seed)
{
    Rng r("scribble");
    r.s = seed * 0x9E3779B97F4A7C15ULL + 12345;
    unsigned char *c = static_cast<unsigned char *>(p);
    for (; n >= 8; n -= 8, c += 8) {
        const uint64_t v = r.next();
        std::memcpy(c, &v, 8);
    }
    const uint64_t v = r.next();
    std::memcpy(c, &v, n);
}
template <class T>
std::shared_ptr<T> scribbled(uint64_t seed)
{
    std::shared_ptr<T> p(std::unique_ptr<T>(new (std::align_val_t(64)) T));
    scribble(p.get(), sizeof(T), seed);
    return p;
}
template <class T, class M, class G, class E>
Slot plainslot(const char *name, M m, G get, E emplace)
{
    return Slot{name, sizeof(T),
                [m](const EvalKey &e) { return (bool)(e.*m); },
                [m](const EvalKey &e) -> const void * { return (e.*m).get(); },
                [get](const EvalKey &e) -> const void * { return get(e); },
                [](const void *p) { return cdig(*static_cast<const T *>(p)); },
                emplace,
                [m](EvalKey &e, uint64_t s) { e.*m = scribbled<T>(s); },
                [m](EvalKey &e) { (e.*m).reset(); }};
}
template <class T, class M, class G, class E>
Slot namedslot(const std::string &name, const std::string &key, M m, G get, E emplace)
{
    return Slot{name + "/" + key, sizeof(T),
                [m, key](const EvalKey &e) { return (e.*m).count(key) != 0; },
                [m, key](const EvalKey &e) -> const void * { return (e.*m).at(key).get(); },
                [get, key](const EvalKey &e) -> const void * { return get(e, key); },
                [](const void *p) { return cdig(*static_cast<const T *>(p)); },
                [emplace, key](EvalKey &e, const SecretKey &sk) { emplace(e, key, sk); },
                [m, key](EvalKey &e, uint64_t s) { (e.*m)[key] = scribbled<T>(s); },
                [m, key](EvalKey &e) { (e.*m).erase(key); }};
}
// the private polynomial a name stands for in the tests, one per variant
inline int &variant()
{
    static int v = 0;
    return v;
}
template <class P>
Polynomial<P> func(const std::string &key)
{
    Polynomial<P> f = {};
    Rng r("func" + key + (variant() ? std::to_string(variant()) : ""));
    for (auto &x : f) x = static_cast<typename P::T>(r.range(-1, 1));
    return f;
}
inline std::vector<Slot> slots(const std::vector<std::string> &names = {"a", "b"})
{
    std::vector<Slot> v;
#define BK(lv) \
    v.push_back(plainslot<BootstrappingKey<lv##param>>("bk" #lv, &EvalKey::bk##lv, [](const EvalKey &e) { return &e.getbk<lv##param>(); }, [](EvalKey &e, const SecretKey &sk) { e.emplacebk<lv##param>(sk); })); \
    v.push_back(plainslot<BootstrappingKeyFFT<lv##param>>("bkfft" #lv, &EvalKey::bkfft##lv, [](const EvalKey &e) { return &e.getbkfft<lv##param>(); }, [](EvalKey &e, const SecretKey &sk) { e.emplacebkfft<lv##param>(sk); })); \
    v.push_back(plainslot<BootstrappingKeyNTT<lv##param>>("bkntt" #lv, &EvalKey::bkntt##lv, [](const EvalKey &e) { return &e.getbkntt<lv##param>(); }, [](EvalKey &e, const SecretKey &sk) { e.emplacebkntt<lv##param>(sk); }));
    BK(lvl01) BK(lvlh1) BK(lvl02) BK(lvlh2)
#undef BK
#define KS(lv) v.push_back(plainslot<KeySwitchingKey<lv##param>>("iksk" #lv, &EvalKey::iksk##lv, [](const EvalKey &e) { return &e.getiksk<lv##param>(); }, [](EvalKey &e, const SecretKey &sk) { e.emplaceiksk<lv##param>(sk); }));
    KS(lvl10) KS(lvl1h) KS(lvl20) KS(lvl2h) KS(lvl21) KS(lvl22) KS(lvl31)
#undef KS
    v.push_back(plainslot<SubsetKeySwitchingKey<lvl21param>>("subiksklvl21", &EvalKey::subiksklvl21, [](const EvalKey &e) { return &e.getsubiksk<lvl21param>(); }, [](EvalKey &e, const SecretKey &sk) { e.emplacesubiksk<lvl21param>(sk); }));
    for (const auto &key : names) {
#define PK(lv) v.push_back(namedslot<PrivateKeySwitchingKey<lv##param>>("privksk" #lv, key, &EvalKey::privksk##lv, [](const EvalKey &e, const std::string &k) { return &e.getprivksk<lv##param>(k); }, [](EvalKey &e, const std::string &k, const SecretKey &sk) { e.emplaceprivksk<lv##param>(k, func<typename lv##param::targetP>(k), sk); }));
        PK(lvl11) PK(lvl21) PK(lvl22)
#undef PK
        v.push_back(namedslot<SubsetPrivateKeySwitchingKey<lvl21param>>("subprivksklvl21", key, &EvalKey::subprivksklvl21, [](const EvalKey &e, const std::string &k) { return &e.getsubprivksk<lvl21param>(k); }, [](EvalKey &e, const std::string &k, const SecretKey &sk) { e.emplacesubprivksk<lvl21param>(k, func<lvl1param>(k), sk); }));
    }
    return v;
}
inline std::string hex(uint64_t v)
{
    char b[20];
    std::snprintf(b, sizeof b, "%016llx", (unsigned long long)v);
    return b;
}
// everything an evaluation key holds, as <name, digest> pairs
inline std::string snapshot(const EvalKey &e, const std::vector<Slot> &all)
{
    std::string o = "[";
    size_t named = 0;
    bool first = true;
    for (const auto &s : all) {
        if (!s.has(e)) continue;
        if (s.name.find('/') != std::string::npos) named++;
        if (!first) o += ',';
        first = false;
        o += "[\"" + s.name + "\",\"" + hex(s.dig(e)) + "\"]";
    }
    // named keys beyond the ones asked for
    const size_t total = e.privksklvl11.size() + e.privksklvl21.size() + e.privksklvl22.size() + e.subprivksklvl21.size();
    if (total != named) o += std::string(first ? "" : ",") + "[\"unexpected names\",\"" + std::to_string(total - named) + "\"]";
    return o + "]";
}
}  // namespace vf
