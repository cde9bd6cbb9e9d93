// Memory pool accounting, one thread and many.
#include <memory>
#include <thread>

#include "paimon/memory/bytes.h"
#include "paimon/memory/memory_pool.h"
#include <stdexcept>
#include "vf.h"

using namespace paimon;
using vf::Case;
using vf::Fmt;

namespace {
struct Block {
    char* p;
    size_t size;
    uint64_t align;
    unsigned char tag;
};
uint64_t PickAlign(vf::Rng& r) {
    return r.Of<uint64_t>({0, 0, 8, 16, 32, 64, 128, 256, 4096});
}
size_t PickSize(vf::Rng& r) {
    switch (r.Below(6)) {
        case 0: return 1;
        case 1: return r.Range(1, 16);
        case 2: return r.Range(4000, 9000);
        case 3: return 1ull << r.Below(14);
        default: return r.Range(1, 700);
    }
}
bool Filled(const Block& b, size_t n) {
    for (size_t i = 0; i < n; i++) {
        if ((unsigned char)b.p[i] != (unsigned char)(b.tag + i * 7)) return false;
    }
    return true;
}
void Fill(Block& b) {
    for (size_t i = 0; i < b.size; i++) b.p[i] = (char)(b.tag + i * 7);
}
}  // namespace

VF_SCENARIO(history, 3000, 40000) {
    std::shared_ptr<MemoryPool> pool = GetMemoryPool();
    std::vector<Block> live;
    uint64_t sum = 0, peak = 0, last_peak = 0;
    int n = c.rng.Range(5, 60);
    auto check = [&](const char* op) {
        VF_EXPECT(pool->CurrentUsage() == sum, "current-usage", "after %s usage %llu, live blocks hold %llu", op, (unsigned long long)pool->CurrentUsage(), (unsigned long long)sum);
        uint64_t m = pool->MaxMemoryUsage();
        VF_EXPECT(m >= sum && m >= last_peak, "peak-usage", "after %s peak %llu, current %llu, previous peak %llu", op, (unsigned long long)m, (unsigned long long)sum, (unsigned long long)last_peak);
        VF_EXPECT(m >= peak, "peak-usage", "after %s peak %llu, expected %llu", op, (unsigned long long)m, (unsigned long long)peak);
        last_peak = m;
    };
    bool moved = false;   // a moving reallocation may briefly hold both blocks
    for (int i = 0; i < n; i++) {
        int k = c.rng.Below(10);
        if (k < 4 || live.empty()) {
            size_t s = c.rng.Chance(0.05) ? 0 : PickSize(c.rng);
            uint64_t a = PickAlign(c.rng);
            c.Op(Fmt("malloc %zu/%llu", s, (unsigned long long)a), true);
            char* p = (char*)pool->Malloc(s, a);
            uint64_t eff = a == 0 ? 64 : a;
            if (s > 0) {
                VF_EXPECT(p != nullptr, "null-block", "size %zu", s);
                VF_EXPECT((uintptr_t)p % eff == 0, "alignment", "block of %zu with alignment %llu at %p", s, (unsigned long long)a, p);
            }
            Block b{p, s, a, (unsigned char)c.rng.U64()};
            Fill(b);
            live.push_back(b);
            sum += s;
            peak = std::max(peak, sum);
            check("malloc");
        } else if (k < 7) {
            size_t j = c.rng.Below(live.size());
            Block b = live[j];
            // zero-size reallocation has two legal conventions for the returned pointer
            size_t s = PickSize(c.rng);
            if (c.rng.Chance(0.3)) s = std::max<size_t>(1, b.size + c.rng.Range(-3, 3) < 100000 ? b.size + c.rng.Range(-3, 3) : 1);
            if (b.size > 2 && c.rng.Chance(0.2)) s = b.size / 2 + c.rng.Range(-1, 1);
            if (s == 0 || s > 1000000) s = 1;
            if (b.size == 0) continue;
            c.Op(Fmt("realloc %zu->%zu/%llu", b.size, s, (unsigned long long)b.align), true);
            char* p = (char*)pool->Realloc(b.p, b.size, s, b.align);
            VF_EXPECT(p != nullptr, "null-block", "realloc %zu->%zu", b.size, s);
            if (b.align) VF_EXPECT((uintptr_t)p % b.align == 0, "alignment", "realloc %zu->%zu with alignment %llu at %p", b.size, s, (unsigned long long)b.align, p);
            Block nb{p, s, b.align, b.tag};
            VF_EXPECT(Filled(nb, std::min(b.size, s)), "contents-lost", "realloc %zu->%zu alignment %llu lost the prefix", b.size, s, (unsigned long long)b.align);
            Fill(nb);
            live[j] = nb;
            sum = sum - b.size + s;
            peak = std::max(peak, sum);
            if (b.align) moved = true;
            check("realloc");
        } else if (k == 7) {
            size_t s = PickSize(c.rng);
            uint64_t a = c.rng.Of<uint64_t>({0, 16, 64, 256});
            c.Op(Fmt("realloc null->%zu/%llu", s, (unsigned long long)a), true);
            char* p = (char*)pool->Realloc(nullptr, 0, s, a);
            VF_EXPECT(p != nullptr, "null-block", "realloc null->%zu", s);
            if (a) VF_EXPECT((uintptr_t)p % a == 0, "alignment", "realloc null->%zu alignment %llu", s, (unsigned long long)a);
            Block b{p, s, a, (unsigned char)c.rng.U64()};
            Fill(b);
            live.push_back(b);
            sum += s;
            peak = std::max(peak, sum);
            check("realloc null");
        } else {
            size_t j = c.rng.Below(live.size());
            Block b = live[j];
            c.Op(Fmt("free %zu", b.size), true);
            VF_EXPECT(Filled(b, b.size), "contents-lost", "block of %zu changed while it was live", b.size);
            pool->Free(b.p, b.size);
            sum -= b.size;
            live.erase(live.begin() + j);
            check("free");
        }
    }
    if (!moved) {
        VF_EXPECT(pool->MaxMemoryUsage() == peak, "peak-usage", "peak %llu, true peak %llu", (unsigned long long)pool->MaxMemoryUsage(), (unsigned long long)peak);
    }
    // disjointness: every block still holds its own pattern
    for (auto& b : live) VF_EXPECT(Filled(b, b.size), "contents-lost", "block of %zu changed while it was live", b.size);
    for (auto& b : live) {
        pool->Free(b.p, b.size);
        sum -= b.size;
        check("final free");
    }
    VF_EXPECT(pool->CurrentUsage() == 0, "current-usage", "usage %llu after everything was freed", (unsigned long long)pool->CurrentUsage());
}

// Reallocation to nothing keeps the books straight and the block can be freed.
VF_SCENARIO(realloc_to_zero, 200, 2000) {
    std::shared_ptr<MemoryPool> pool = GetMemoryPool();
    size_t s = PickSize(c.rng);
    uint64_t a = c.rng.Of<uint64_t>({16, 64, 256});
    c.Op(Fmt("aligned %zu/%llu -> 0", s, (unsigned long long)a), true);
    void* p = pool->Malloc(s, a);
    p = pool->Realloc(p, s, 0, a);
    VF_EXPECT(pool->CurrentUsage() == 0, "current-usage", "usage %llu after reallocating to zero", (unsigned long long)pool->CurrentUsage());
    p = pool->Realloc(p, 0, s, a);
    VF_EXPECT(pool->CurrentUsage() == s, "current-usage", "usage %llu after growing back to %zu", (unsigned long long)pool->CurrentUsage(), s);
    pool->Free(p, s);
    VF_EXPECT(pool->CurrentUsage() == 0, "current-usage", "usage %llu at the end", (unsigned long long)pool->CurrentUsage());
}

VF_SCENARIO(byte_buffers, 2500, 30000) {
    std::shared_ptr<MemoryPool> pool = GetMemoryPool();
    struct Slot {
        Bytes b;
        std::string want;
    };
    uint64_t objects = 0;
    {
        std::vector<Slot> v;
        std::vector<pooled_unique_ptr<Bytes>> owned;
        int n = c.rng.Range(3, 40);
        auto total = [&] {
            uint64_t t = 0;
            for (auto& s : v) t += s.want.size();
            for (auto& o : owned) t += o->size() + sizeof(Bytes);
            return t;
        };
        for (int i = 0; i < n; i++) {
            switch (c.rng.Below(8)) {
                case 0: {
                    std::string s = c.rng.Bytes(c.rng.Below(60));
                    c.Op(Fmt("bytes %zu", s.size()), true);
                    v.push_back({Bytes(s, pool.get()), s});
                    break;
                }
                case 1: {
                    size_t k = c.rng.Below(60);
                    c.Op(Fmt("zeroed %zu", k), true);
                    Bytes b(k, pool.get());
                    for (size_t j = 0; j < k; j++) VF_EXPECT(b[j] == 0, "not-zeroed", "byte %zu of %zu", j, k);
                    v.push_back({std::move(b), std::string(k, '\0')});
                    break;
                }
                case 2: {
                    if (v.size() < 2) break;
                    size_t a = c.rng.Below(v.size()), b = c.rng.Below(v.size());
                    c.Op(Fmt("move %zu<-%zu", a, b), true);
                    v[a].b = std::move(v[b].b);
                    if (a != b) {
                        v[a].want = v[b].want;
                        v[b].want.clear();
                    }
                    break;
                }
                case 3: {
                    if (v.empty()) break;
                    size_t a = c.rng.Below(v.size());
                    size_t extra = c.rng.Below(20);
                    c.Op(Fmt("copy %zu+%zu", a, extra), true);
                    auto cp = Bytes::CopyOf(v[a].b, v[a].b.size() + extra, pool.get());
                    std::string w = v[a].want + std::string(extra, '\0');
                    VF_EXPECT(std::string(cp->data() ? cp->data() : "", cp->size()) == w, "copy", "copy of %zu bytes", v[a].want.size());
                    owned.push_back(std::move(cp));
                    break;
                }
                case 4: {
                    std::string s = c.rng.Bytes(c.rng.Below(60));
                    owned.push_back(Bytes::AllocateBytes(s, pool.get()));
                    c.Op(Fmt("alloc %zu", s.size()), true);
                    VF_EXPECT(std::string(owned.back()->data() ? owned.back()->data() : "", owned.back()->size()) == s, "copy", "allocate %zu", s.size());
                    break;
                }
                case 5: {
                    if (v.empty()) break;
                    size_t a = c.rng.Below(v.size());
                    if (v[a].want.empty()) break;
                    size_t k = c.rng.Below(v[a].want.size());
                    char x = (char)c.rng.U64();
                    v[a].b[k] = x;
                    v[a].want[k] = x;
                    c.Op(Fmt("set %zu[%zu]", a, k), true);
                    break;
                }
                case 6: {
                    if (v.empty()) break;
                    size_t a = c.rng.Below(v.size());
                    c.Op(Fmt("drop %zu", a), true);
                    v.erase(v.begin() + a);
                    break;
                }
                default: {
                    if (owned.empty()) break;
                    c.Op("drop owned", true);
                    owned.erase(owned.begin() + c.rng.Below(owned.size()));
                }
            }
            for (auto& s : v) {
                VF_EXPECT(s.b.size() == s.want.size() && std::string(s.b.data() ? s.b.data() : "", s.b.size()) == s.want, "contents-lost", "buffer of %zu bytes differs", s.want.size());
            }
            VF_EXPECT(pool->CurrentUsage() == total(), "current-usage", "usage %llu, live buffers hold %llu", (unsigned long long)pool->CurrentUsage(), (unsigned long long)total());
        }
        objects = v.size();
    }
    c.Saw(objects);
    VF_EXPECT(pool->CurrentUsage() == 0, "current-usage", "usage %llu after all buffers were destroyed", (unsigned long long)pool->CurrentUsage());
}

namespace {
struct Thrower {
    char pad[40];
    explicit Thrower(bool t) {
        if (t) throw std::runtime_error("constructor failed");
    }
};
}  // namespace
VF_SCENARIO(object_ownership, 300, 3000) {
    std::shared_ptr<MemoryPool> pool = GetMemoryPool();
    bool t = c.rng.Chance(0.5);
    c.Op(t ? "throwing constructor" : "constructor", true);
    try {
        auto p = pool->AllocateUnique<Thrower>(t);
        VF_EXPECT(!t, "exception-lost", "constructor exception vanished");
        VF_EXPECT(pool->CurrentUsage() == sizeof(Thrower), "current-usage", "usage %llu for one object of %zu", (unsigned long long)pool->CurrentUsage(), sizeof(Thrower));
        std::shared_ptr<Thrower> sp = std::move(p);
        VF_EXPECT(pool->CurrentUsage() == sizeof(Thrower), "current-usage", "usage changed by sharing");
    } catch (const std::runtime_error&) {
        VF_EXPECT(t, "exception", "unexpected exception");
    }
    VF_EXPECT(pool->CurrentUsage() == 0, "current-usage", "usage %llu at the end", (unsigned long long)pool->CurrentUsage());
}

// Many threads on one pool. Every thread keeps its blocks until a barrier, so the sum of all live
// sizes at the barrier is a usage that really occurred and the peak must cover it.
VF_SCENARIO(concurrent, 160, 1500) {
    std::shared_ptr<MemoryPool> pool = GetMemoryPool();
    int T = c.rng.Range(2, 8);
    int rounds = c.rng.Range(1, 4);
    std::vector<uint64_t> seeds;
    for (int i = 0; i < T; i++) seeds.push_back(c.rng.U64());
    c.Op(Fmt("%d threads, %d rounds, seed %llx", T, rounds, (unsigned long long)seeds[0]), true);
    std::vector<std::vector<Block>> live(T);
    std::atomic<int> bad{0};
    uint64_t best = 0;
    int per = c.rng.Range(20, 300);
    for (int r = 0; r < rounds; r++) {
        std::vector<std::thread> th;
        std::atomic<bool> go{false};
        for (int t = 0; t < T; t++) {
            th.emplace_back([&, t, r] {
                vf::Rng rng(seeds[t] + r);
                auto& mine = live[t];
                while (!go.load()) {
                }
                for (int i = 0; i < per; i++) {
                    // mostly growing, so that each thread's last operation tends to be the peak
                    if (mine.size() < 4 || rng.Chance(0.75)) {
                        size_t s = rng.Range(1, 64);
                        Block b{(char*)pool->Malloc(s, rng.Of<uint64_t>({0, 16})), s, 0, (unsigned char)rng.U64()};
                        Fill(b);
                        mine.push_back(b);
                    } else {
                        size_t j = rng.Below(mine.size());
                        if (!Filled(mine[j], mine[j].size)) bad++;
                        pool->Free(mine[j].p, mine[j].size);
                        mine.erase(mine.begin() + j);
                    }
                    if (i % 16 == 0) {
                        uint64_t m = pool->MaxMemoryUsage();
                        (void)m;
                    }
                }
            });
        }
        go = true;
        for (auto& t : th) t.join();
        uint64_t sum = 0;
        for (auto& v : live) for (auto& b : v) sum += b.size;
        best = std::max(best, sum);
        VF_EXPECT(pool->CurrentUsage() == sum, "current-usage", "%d threads: usage %llu, live blocks hold %llu", T, (unsigned long long)pool->CurrentUsage(), (unsigned long long)sum);
        VF_EXPECT(pool->MaxMemoryUsage() >= best, "peak-below-usage", "%d threads: peak %llu below a usage of %llu that was reached", T, (unsigned long long)pool->MaxMemoryUsage(), (unsigned long long)best);
    }
    VF_EXPECT(bad == 0, "contents-lost", "%d blocks changed while live", bad.load());
    for (auto& v : live) for (auto& b : v) pool->Free(b.p, b.size);
    VF_EXPECT(pool->CurrentUsage() == 0, "current-usage", "usage %llu at the end", (unsigned long long)pool->CurrentUsage());
}

// The default pool is one shared instance.
VF_SCENARIO(default_pool, 20, 100) {
    int T = 4;
    std::vector<MemoryPool*> got(T);
    std::vector<std::thread> th;
    for (int t = 0; t < T; t++) th.emplace_back([&, t] {
        auto p = GetDefaultPool();
        got[t] = p.get();
        void* m = p->Malloc(10 + t);
        p->Free(m, 10 + t);
    });
    for (auto& t : th) t.join();
    c.Op(Fmt("case %llu", (unsigned long long)c.index()), true);
    for (int t = 1; t < T; t++) VF_EXPECT(got[t] == got[0], "default-pool", "two default pools");
    VF_EXPECT(GetDefaultPool()->CurrentUsage() == 0, "current-usage", "default pool usage %llu", (unsigned long long)GetDefaultPool()->CurrentUsage());
}

// All threads allocate at the same moment from a fresh pool, so the last allocation of every
// thread competes for the peak; the total held at the end was really reached.
VF_SCENARIO(concurrent_peak, 60, 600) {
    int T = c.rng.Range(2, 6);
    int rounds = 150, per = c.rng.Range(1, 3);
    size_t base = c.rng.Range(8, 4096);
    bool grow = c.rng.Chance(0.3);
    c.Op(Fmt("%d threads allocate %d blocks from %zu bytes, %s", T, per, base, grow ? "growing" : "fresh"), true);
    std::vector<std::shared_ptr<MemoryPool>> pools;
    for (int r = 0; r < rounds; r++) pools.push_back(GetMemoryPool());
    std::vector<std::vector<std::vector<std::pair<void*, size_t>>>> got(T, std::vector<std::vector<std::pair<void*, size_t>>>(rounds));
    std::atomic<int> arrived{0};
    std::vector<std::thread> th;
    for (int t = 0; t < T; t++) {
        th.emplace_back([&, t] {
            for (int r = 0; r < rounds; r++) {
                got[t][r].reserve(per);
                arrived.fetch_add(1);
                int spins = 0;
                while (arrived.load() < (r + 1) * T) {
                    if (++spins > 2000) std::this_thread::yield();
                }
                for (int i = 0; i < per; i++) {
                    size_t s = base + t * 16 + i;
                    void* p = pools[r]->Malloc(s, 0);
                    if (grow) {
                        p = pools[r]->Realloc(p, s, s * 3, 0);
                        s *= 3;
                    }
                    got[t][r].emplace_back(p, s);
                }
            }
        });
    }
    for (auto& t : th) t.join();
    for (int r = 0; r < rounds; r++) {
        uint64_t sum = 0;
        for (int t = 0; t < T; t++) for (auto& b : got[t][r]) sum += b.second;
        uint64_t use = pools[r]->CurrentUsage(), peak = pools[r]->MaxMemoryUsage();
        for (int t = 0; t < T; t++) for (auto& b : got[t][r]) pools[r]->Free(b.first, b.second);
        VF_EXPECT(use == sum, "current-usage", "round %d: usage %llu, live blocks hold %llu", r, (unsigned long long)use, (unsigned long long)sum);
        VF_EXPECT(peak >= sum, "peak-below-usage", "round %d: peak %llu below a usage of %llu that was reached", r, (unsigned long long)peak, (unsigned long long)sum);
        VF_EXPECT(pools[r]->CurrentUsage() == 0, "current-usage", "usage after freeing everything");
    }
}
