// Common machinery of the drivers: seeded case generation, scenario registry, violation records,
// coverage statistics and a progress mark that survives a crash.
#pragma once

#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <cinttypes>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <map>
#include <mutex>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>

#include <array>
#include <chrono>
#include <cmath>
#include <condition_variable>
#include <deque>
#include <future>
#include <iostream>
#include <limits>
#include <list>
#include <memory>
#include <numeric>
#include <optional>
#include <sstream>
#include <stdexcept>
#include <string_view>
#include <thread>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <variant>

namespace vf {

inline uint64_t Mix(uint64_t x) {
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}
inline uint64_t HashBytes(const void* p, size_t n, uint64_t h = 0xcbf29ce484222325ull) {
    const auto* c = static_cast<const unsigned char*>(p);
    for (size_t i = 0; i < n; i++) {
        h = (h ^ c[i]) * 0x100000001b3ull;
    }
    return h;
}
inline uint64_t HashStr(const std::string& s, uint64_t h = 0xcbf29ce484222325ull) {
    return HashBytes(s.data(), s.size(), h);
}

class Rng {
 public:
    explicit Rng(uint64_t seed) : s_(seed) {}
    uint64_t U64() {
        s_ += 0x9e3779b97f4a7c15ull;
        uint64_t x = s_;
        x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
        x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
        return x ^ (x >> 31);
    }
    uint64_t Below(uint64_t n) {
        return n == 0 ? 0 : U64() % n;
    }
    // inclusive
    int64_t Range(int64_t a, int64_t b) {
        return a + static_cast<int64_t>(Below(static_cast<uint64_t>(b) - static_cast<uint64_t>(a) + 1));
    }
    bool Chance(double p) {
        return (U64() >> 11) * (1.0 / 9007199254740992.0) < p;
    }
    double Unit() {
        return (U64() >> 11) * (1.0 / 9007199254740992.0);
    }
    template <typename T>
    const T& Pick(const std::vector<T>& v) {
        return v[Below(v.size())];
    }
    template <typename T>
    T Of(std::initializer_list<T> l) {
        return *(l.begin() + Below(l.size()));
    }
    std::string Bytes(size_t n) {
        std::string r(n, 0);
        for (auto& c : r) c = static_cast<char>(U64());
        return r;
    }
    std::string Ascii(size_t n, const std::string& alphabet = "abcdefgh") {
        std::string r(n, 0);
        for (auto& c : r) c = alphabet[Below(alphabet.size())];
        return r;
    }
    // integers concentrated on boundaries
    int64_t Edgy64() {
        switch (Below(6)) {
            case 0:
                return Range(-3, 3);
            case 1: {
                int k = Below(64);
                return static_cast<int64_t>((1ull << k) + static_cast<uint64_t>(Range(-2, 2)));
            }
            case 2: {
                int k = Below(64);
                return static_cast<int64_t>(-(1ull << k) + static_cast<uint64_t>(Range(-2, 2)));
            }
            case 3:
                return Of<int64_t>({INT64_MAX, INT64_MIN, INT64_MAX - 1, INT64_MIN + 1, INT32_MAX,
                                    INT32_MIN, (int64_t)INT32_MAX + 1, (int64_t)INT32_MIN - 1,
                                    UINT32_MAX, (int64_t)UINT32_MAX + 1});
            case 4:
                return Range(-100000, 100000);
            default:
                return static_cast<int64_t>(U64());
        }
    }

 private:
    uint64_t s_;
};

struct Progress {  // lives in a shared mapping so that the runner can read it after a crash
    char scenario[64];
    uint64_t index;
    uint64_t beat;
    char note[512];
};

struct Violation {
    std::string scenario;
    uint64_t index;
    std::string key;
    std::string msg;
    std::string trace;
};

struct Fail : std::exception {
    std::string key, msg;
    Fail(std::string k, std::string m) : key(std::move(k)), msg(std::move(m)) {}
    const char* what() const noexcept override {
        return msg.c_str();
    }
};

inline std::string Fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
inline std::string Fmt(const char* f, ...) {
    char buf[4096];
    va_list ap;
    va_start(ap, f);
    vsnprintf(buf, sizeof buf, f, ap);
    va_end(ap);
    return buf;
}

inline std::string Hex(const std::string& s, size_t max = 64) {
    static const char* d = "0123456789abcdef";
    std::string r;
    for (size_t i = 0; i < s.size() && i < max; i++) {
        r += d[(unsigned char)s[i] >> 4];
        r += d[s[i] & 15];
    }
    if (s.size() > max) r += Fmt("..(%zu bytes)", s.size());
    return r;
}

extern Progress* g_progress;

class Case {
 public:
    Case(std::string scenario, uint64_t index, uint64_t seed, bool thorough)
        : rng(Mix(seed ^ Mix(HashStr(scenario)) ^ Mix(index * 0x2545F4914F6CDD1Dull + 77))),
          scenario_(std::move(scenario)),
          index_(index),
          thorough_(thorough) {}

    Rng rng;
    uint64_t index() const {
        return index_;
    }
    bool thorough() const {
        return thorough_;
    }

    // Records one operation of the case. The trace is the replayable history and, hashed, the
    // identity of the case; `interesting` marks behaviour beyond the trivial path.
    void Op(const std::string& op, bool interesting = false) {
        std::lock_guard<std::mutex> g(mu_);
        sig_ = HashStr(op, sig_);
        ops_++;
        if (trace_.size() < 6000) {
            trace_ += op;
            trace_ += "; ";
        }
        if (interesting) nontrivial_ = true;
    }
    // What the monitors observed in the execution (not the input): part of the identity too.
    void Saw(uint64_t h) {
        std::lock_guard<std::mutex> g(mu_);
        sig_ = Mix(sig_ ^ h);
    }
    void Interesting() {
        nontrivial_ = true;
    }
    void Note(const std::string& n) {
        if (g_progress) {
            snprintf(g_progress->note, sizeof g_progress->note, "%s", n.c_str());
        }
    }
    void Check(uint64_t n = 1) {
        checks_ += n;
    }
    [[noreturn]] void Throw(const std::string& key, const std::string& msg) {
        throw Fail(key, msg);
    }

    uint64_t sig() const {
        return sig_;
    }
    bool nontrivial() const {
        return nontrivial_;
    }
    uint64_t checks() const {
        return checks_;
    }
    uint64_t ops() const {
        return ops_;
    }
    const std::string& trace() const {
        return trace_;
    }
    const std::string& scenario() const {
        return scenario_;
    }

 private:
    std::string scenario_;
    uint64_t index_;
    bool thorough_;
    std::mutex mu_;
    uint64_t sig_ = 1469598103934665603ull;
    uint64_t ops_ = 0;
    std::atomic<uint64_t> checks_{0};
    std::atomic<bool> nontrivial_{false};
    std::string trace_;
};

using Body = std::function<void(Case&)>;
struct Scenario {
    std::string name;
    uint64_t quick, thorough;
    Body body;
};
std::vector<Scenario>& Scenarios();

struct Reg {
    Reg(const char* name, uint64_t quick, uint64_t thorough, Body b) {
        Scenarios().push_back({name, quick, thorough, std::move(b)});
    }
};

// A scratch directory owned by this process; removed at exit.
const std::string& Scratch();

}  // namespace vf

#define VF_CAT2(a, b) a##b
#define VF_CAT(a, b) VF_CAT2(a, b)
#define VF_SCENARIO(name, quick, thorough)                                           \
    static void VF_CAT(vf_body_, name)(vf::Case & c);                                \
    static vf::Reg VF_CAT(vf_reg_, name)(#name, quick, thorough, VF_CAT(vf_body_, name)); \
    static void VF_CAT(vf_body_, name)(vf::Case & c)

// One monitored observation. The key names the violated clause and is stable across cases.
#define VF_EXPECT(cond, key, ...)                     \
    do {                                              \
        c.Check();                                    \
        if (!(cond)) c.Throw(key, vf::Fmt(__VA_ARGS__)); \
    } while (0)
