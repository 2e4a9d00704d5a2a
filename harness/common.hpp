// Shared by all drivers: trace writing, deterministic choices, and reference
// computations that use none of the library's transforms.
#pragma once
#include <tfhe++.hpp>

#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <type_traits>
#include <vector>

namespace vf {
using namespace TFHEpp;

// ---------------------------------------------------------------- choices --
struct Rng {  // SplitMix64, independent of the library's generators
    uint64_t s;
    explicit Rng(const std::string &salt)
    {
        const char *e = std::getenv("VERIF_SEED");
        s = (e ? std::strtoull(e, nullptr, 10) : 1ULL) * 0x9E3779B97F4A7C15ULL;
        for (unsigned char c : salt) s = (s ^ c) * 0x100000001B3ULL + 0x9E37;
    }
    uint64_t next()
    {
        uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return next() % n; }
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below(hi - lo + 1); }
    bool bit() { return next() >> 63; }
};

// ------------------------------------------------------------------ trace --
template <class T>
inline void putword(std::string &o, T v)
{
    using U = std::make_unsigned_t<T>;
    uint64_t u = static_cast<U>(v);
    o += '[';
    for (size_t i = 0; i < sizeof(T) / 2; i++) {
        if (i) o += ',';
        o += std::to_string((u >> (16 * i)) & 0xffff);
    }
    o += ']';
}

class Ev {
    std::string o;
    void key(const char *k)
    {
        o += ",\"";
        o += k;
        o += "\":";
    }

public:
    explicit Ev(const char *name) { o = std::string("{\"ev\":\"") + name + "\""; }
    Ev &i(const char *k, int64_t v)
    {
        key(k);
        o += std::to_string(v);
        return *this;
    }
    Ev &s(const char *k, const std::string &v)
    {
        key(k);
        o += '"' + v + '"';
        return *this;
    }
    Ev &b(const char *k, bool v)
    {
        key(k);
        o += v ? "true" : "false";
        return *this;
    }
    template <class T>
    Ev &w(const char *k, T v)  // torus word as 16-bit limbs
    {
        key(k);
        putword(o, v);
        return *this;
    }
    template <class C>
    Ev &ws(const char *k, const C &c)  // sequence of words
    {
        key(k);
        o += '[';
        bool first = true;
        for (const auto &v : c) {
            if (!first) o += ',';
            first = false;
            putword(o, v);
        }
        o += ']';
        return *this;
    }
    template <class C>
    Ev &wss(const char *k, const C &cc)  // sequence of sequences of words
    {
        key(k);
        o += '[';
        bool f = true;
        for (const auto &c : cc) {
            if (!f) o += ',';
            f = false;
            o += '[';
            bool first = true;
            for (const auto &v : c) {
                if (!first) o += ',';
                first = false;
                putword(o, v);
            }
            o += ']';
        }
        o += ']';
        return *this;
    }
    template <class C>
    Ev &is(const char *k, const C &c)  // sequence of small signed integers
    {
        key(k);
        o += '[';
        bool first = true;
        for (const auto &v : c) {
            if (!first) o += ',';
            first = false;
            o += std::to_string((int64_t)v);
        }
        o += ']';
        return *this;
    }
    template <class C>
    Ev &iss(const char *k, const C &cc)
    {
        key(k);
        o += '[';
        bool f = true;
        for (const auto &c : cc) {
            if (!f) o += ',';
            f = false;
            o += '[';
            bool first = true;
            for (const auto &v : c) {
                if (!first) o += ',';
                first = false;
                o += std::to_string((int64_t)v);
            }
            o += ']';
        }
        o += ']';
        return *this;
    }
    template <class C>
    Ev &ss(const char *k, const C &c)  // sequence of strings
    {
        key(k);
        o += '[';
        bool first = true;
        for (const auto &v : c) {
            if (!first) o += ',';
            first = false;
            o += '"' + v + '"';
        }
        o += ']';
        return *this;
    }
    Ev &raw(const char *k, const std::string &json)
    {
        key(k);
        o += json;
        return *this;
    }
    std::string str() const { return o + "}\n"; }
};

class Trace {
    FILE *f;

public:
    explicit Trace(const char *path)
    {
        f = std::fopen(path, "w");
        if (!f) std::exit(90);
    }
    ~Trace() { std::fclose(f); }
    void put(const Ev &e)
    {
        const std::string s = e.str();
        std::fwrite(s.data(), 1, s.size(), f);
        std::fflush(f);
    }
};

// -------------------------------------------------------------- reference --
template <class T>
inline std::make_signed_t<T> sgn(T v)
{
    return static_cast<std::make_signed_t<T>>(v);
}

template <class P>
constexpr int digits()
{
    return std::numeric_limits<typename P::T>::digits;
}

template <class P>
typename P::T refphase(const TLWE<P> &c, const Key<P> &key)
{
    typename P::T r = c[P::k * P::n];
    for (uint32_t i = 0; i < P::k * P::n; i++)
        r = static_cast<typename P::T>(r - static_cast<typename P::T>(c[i] * key[i]));
    return r;
}

// schoolbook a*b mod X^n+1 with b small, computed on non-zero b only
template <class T, size_t N>
void refmulacc(std::array<T, N> &acc, const std::array<T, N> &a, const std::array<T, N> &b, bool sub = false)
{
    for (size_t j = 0; j < N; j++) {
        T bj = b[j];
        if (bj == 0) continue;
        if (sub) bj = static_cast<T>(-bj);
        for (size_t i = 0; i + j < N; i++) acc[i + j] = static_cast<T>(acc[i + j] + static_cast<T>(a[i] * bj));
        for (size_t i = N - j; i < N; i++) acc[i + j - N] = static_cast<T>(acc[i + j - N] - static_cast<T>(a[i] * bj));
    }
}

template <class P>
Polynomial<P> refphase(const TRLWE<P> &c, const Key<P> &key)
{
    Polynomial<P> r = c[P::k];
    for (uint32_t k = 0; k < P::k; k++) {
        Polynomial<P> part;
        for (uint32_t i = 0; i < P::n; i++) part[i] = key[k * P::n + i];
        refmulacc<typename P::T, P::n>(r, c[k], part, true);
    }
    return r;
}

// an exact (noiseless) encryption of a phase: random mask, body adjusted
template <class P>
TLWE<P> craft(typename P::T phase, const Key<P> &key, Rng &rng, bool trivial = false)
{
    TLWE<P> c = {};
    if (!trivial)
        for (uint32_t i = 0; i < P::k * P::n; i++) c[i] = static_cast<typename P::T>(rng.next());
    typename P::T b = phase;
    for (uint32_t i = 0; i < P::k * P::n; i++)
        b = static_cast<typename P::T>(b + static_cast<typename P::T>(c[i] * key[i]));
    c[P::k * P::n] = b;
    return c;
}

template <class P>
TRLWE<P> craft(const Polynomial<P> &phase, const Key<P> &key, Rng &rng, bool trivial = false)
{
    TRLWE<P> c = {};
    c[P::k] = phase;
    if (trivial) return c;
    for (uint32_t k = 0; k < P::k; k++) {
        for (auto &x : c[k]) x = static_cast<typename P::T>(rng.next());
        Polynomial<P> part;
        for (uint32_t i = 0; i < P::n; i++) part[i] = key[k * P::n + i];
        refmulacc<typename P::T, P::n>(c[P::k], c[k], part);
    }
    return c;
}

template <class P>
Polynomial<P> randpoly(Rng &rng)
{
    Polynomial<P> p;
    for (auto &x : p) x = static_cast<typename P::T>(rng.next());
    return p;
}

template <class K>
std::vector<int64_t> signedkey(const K &key)
{
    std::vector<int64_t> r;
    for (auto v : key) r.push_back((int64_t)sgn(v));
    return r;
}

inline uint64_t digest(const void *p, size_t n, uint64_t h = 0xcbf29ce484222325ULL)
{
    const unsigned char *c = static_cast<const unsigned char *>(p);
    // 8 bytes at a time (all objects hashed here are multiples of 2)
    while (n >= 8) {
        uint64_t v;
        std::memcpy(&v, c, 8);
        h = (h ^ v) * 0x9E3779B97F4A7C15ULL;
        h ^= h >> 29;
        c += 8;
        n -= 8;
    }
    while (n--) h = (h ^ *c++) * 0x100000001B3ULL;
    return h ^ (h >> 32);
}
template <class A>
uint64_t digest(const A &a)
{
    return digest(a.data(), a.size() * sizeof(a[0]));
}

// Overwrites an object that an operation under test is about to fill, so that
// what an operation leaves out is not what an earlier one put there.
template <class T>
void poison(T &x)
{
    static_assert(std::is_trivially_copyable_v<T>);
    std::memset(static_cast<void *>(&x), 0x5A, sizeof(T));
}

template <class T, class... A>
std::unique_ptr<T> big(A &&...a)  // large objects, 64-byte aligned
{
    std::unique_ptr<T> p(new (std::align_val_t(64)) T(std::forward<A>(a)...));
    if constexpr (sizeof...(A) == 0 && std::is_trivially_default_constructible_v<T> && std::is_trivially_copyable_v<T>) poison(*p);
    return p;
}

inline bool thorough()
{
    const char *t = std::getenv("VERIF_TIER");
    return t && std::string(t) == "thorough";
}
inline int pick(int quick, int deep) { return thorough() ? deep : quick; }

}  // namespace vf
