// Shared queue and hash map: concurrent histories checked offline for linearizability.
#include "vf.h"

#include "paimon/common/utils/concurrent_hash_map.h"
#include "paimon/common/utils/long_counter.h"
#include "paimon/common/utils/threadsafe_queue.h"

// The map's nodes come from the ordinary heap, so that the sanitizers see their lifetimes.
namespace tbb::detail::r1 {
__attribute__((visibility("default"))) void* allocate_memory(std::size_t n) { return ::malloc(n ? n : 1); }
__attribute__((visibility("default"))) void deallocate_memory(void* p) { ::free(p); }
__attribute__((visibility("default"))) void* cache_aligned_allocate(std::size_t n) { return ::aligned_alloc(128, (n + 127) / 128 * 128 + (n == 0) * 128); }
__attribute__((visibility("default"))) void cache_aligned_deallocate(void* p) { ::free(p); }
}  // namespace tbb::detail::r1

using namespace paimon;
using vf::Case;
using vf::Fmt;

namespace {
// Relaxed, so that the recorder adds no synchronisation the thread sanitizer could take credit for.
std::atomic<int64_t> g_clock{1};
int64_t Now() { return g_clock.fetch_add(1, std::memory_order_relaxed); }
struct Gate {
    std::atomic<int> in{0};
    int n;
    explicit Gate(int k) : n(k) {}
    void Meet() {
        in.fetch_add(1);
        while (in.load() < n) std::this_thread::yield();
    }
};
struct QOp {
    char kind;            // 'u' push, 'o' pop, 's' size, 'e' empty
    int64_t inv, res;
    int64_t value;        // pushed or popped value, -1 for an empty pop, else the answer
};
}  // namespace

VF_SCENARIO(queue_history, 500, 8000) {
    int producers = c.rng.Range(1, 4), consumers = c.rng.Range(1, 4), watchers = c.rng.Range(0, 1);
    int per = c.rng.Range(5, 150);
    c.Op(Fmt("producers=%d consumers=%d watchers=%d per=%d", producers, consumers, watchers, per), true);
    ThreadsafeQueue<std::unique_ptr<int64_t>> q;
    int total = producers * per;
    std::vector<std::vector<QOp>> logs(producers + consumers + watchers);
    std::atomic<int> popped{0};
    Gate gate(logs.size());
    std::vector<std::thread> ts;
    std::vector<uint64_t> seeds;
    for (size_t i = 0; i < logs.size(); i++) seeds.push_back(c.rng.U64());
    for (int p = 0; p < producers; p++) {
        ts.emplace_back([&, p] {
            vf::Rng r(seeds[p]);
            gate.Meet();
            for (int i = 0; i < per; i++) {
                int64_t v = p * 1000000 + i;
                auto x = std::make_unique<int64_t>(v);
                int64_t a = Now();
                q.push(std::move(x));
                logs[p].push_back({'u', a, Now(), v});
                if (r.Chance(0.1)) std::this_thread::yield();
            }
        });
    }
    for (int k = 0; k < consumers; k++) {
        ts.emplace_back([&, k] {
            auto& log = logs[producers + k];
            gate.Meet();
            int idle = 0;
            while (popped.load(std::memory_order_relaxed) < total && idle < 2000000) {
                int64_t a = Now();
                auto x = q.try_pop();
                int64_t b = Now();
                if (x) {
                    popped.fetch_add(1, std::memory_order_relaxed);
                    log.push_back({'o', a, b, *x ? **x : -2});
                    idle = 0;
                } else {
                    if (idle < 50) log.push_back({'o', a, b, -1});
                    idle++;
                    std::this_thread::yield();
                }
            }
        });
    }
    for (int k = 0; k < watchers; k++) {
        ts.emplace_back([&, k] {
            auto& log = logs[producers + consumers + k];
            gate.Meet();
            for (int i = 0; i < 60; i++) {
                int64_t a = Now();
                size_t n = q.size();
                int64_t b = Now();
                log.push_back({'s', a, b, (int64_t)n});
                a = Now();
                bool e = q.empty();
                b = Now();
                log.push_back({'e', a, b, e});
                std::this_thread::yield();
            }
        });
    }
    for (auto& t : ts) t.join();
    // offline verdict
    std::map<int64_t, QOp> pushes, pops;
    std::vector<QOp> empties;
    for (auto& l : logs)
        for (auto& o : l)
            if (o.kind == 'u') pushes[o.value] = o;
    for (size_t k = 0; k < logs.size(); k++) {
        std::map<int64_t, int64_t> last;
        for (auto& o : logs[k]) {
            if (o.kind != 'o') continue;
            if (o.value == -1) {
                empties.push_back(o);
                continue;
            }
            VF_EXPECT(pushes.count(o.value), "invented-element", "%lld", (long long)o.value);
            VF_EXPECT(!pops.count(o.value), "element-twice", "%lld", (long long)o.value);
            VF_EXPECT(pushes[o.value].inv < o.res, "from-the-future", "%lld", (long long)o.value);
            pops[o.value] = o;
            int64_t prod = o.value / 1000000;
            VF_EXPECT(!last.count(prod) || last[prod] < o.value, "producer-order", "%lld after %lld", (long long)o.value, (long long)last[prod]);
            last[prod] = o.value;
        }
    }
    VF_EXPECT((int)pops.size() == total, "element-lost", "%zu of %d elements came out", pops.size(), total);
    VF_EXPECT(q.empty() && q.size() == 0 && !q.try_pop() && !q.try_front(), "not-empty-at-end", "size %zu", q.size());
    // order: a pushed wholly before b must not be popped wholly after b
    std::vector<QOp> by_push;
    for (auto& kv : pushes) by_push.push_back(kv.second);
    std::sort(by_push.begin(), by_push.end(), [](auto& x, auto& y) { return x.res < y.res; });
    std::vector<QOp> by_inv = by_push;
    std::sort(by_inv.begin(), by_inv.end(), [](auto& x, auto& y) { return x.inv < y.inv; });
    size_t j = 0;
    int64_t latest_pop_inv = -1, who = -1;
    for (auto& b : by_inv) {
        while (j < by_push.size() && by_push[j].res < b.inv) {
            if (pops[by_push[j].value].inv > latest_pop_inv) {
                latest_pop_inv = pops[by_push[j].value].inv;
                who = by_push[j].value;
            }
            j++;
        }
        VF_EXPECT(latest_pop_inv < pops[b.value].res, "fifo-order", "%lld pushed before %lld but popped after it", (long long)who, (long long)b.value);
    }
    // an empty answer needs a moment with no element certainly inside
    for (auto& e : empties) {
        bool certain = false;
        // some element was in the queue during the whole call
        for (auto& kv : pushes) certain |= kv.second.res < e.inv && pops[kv.first].inv > e.res;
        VF_EXPECT(!certain, "false-empty", "call at %lld", (long long)e.inv);
    }
    for (auto& l : logs)
        for (auto& o : l) {
            if (o.kind != 's' && o.kind != 'e') continue;
            int64_t lo = 0, hi = 0;
            for (auto& kv : pushes) {
                lo += kv.second.res < o.inv;
                hi += kv.second.inv < o.res;
            }
            for (auto& kv : pops) {
                lo -= kv.second.inv < o.res;
                hi -= kv.second.res < o.inv;
            }
            if (o.kind == 's') VF_EXPECT(o.value >= lo && o.value <= hi, "size", "%lld outside %lld..%lld", (long long)o.value, (long long)lo, (long long)hi);
            else VF_EXPECT(o.value ? lo <= 0 : hi >= 1, "emptiness", "answer %lld, size within %lld..%lld", (long long)o.value, (long long)lo, (long long)hi);
        }
    c.Saw(empties.size());
}

namespace {
struct MOp {
    char kind;              // 'i' insert, 'x' erase, 'f' find
    int64_t inv, res;
    int key;
    int64_t value;          // -1: absent
};
struct Fat {                // a value torn writes would show in
    int64_t a = 0, b = 0;
    std::string s;
    static Fat Of(int64_t v) { return Fat{v, ~v, "value-number-" + std::to_string(v)}; }
    bool Whole() const { return b == ~a && s == "value-number-" + std::to_string(a); }
};
template <class K> K KeyOf(int i);
template <> int KeyOf<int>(int i) { return i; }
template <> std::vector<std::string> KeyOf<std::vector<std::string>>(int i) {
    // keys whose concatenation coincides
    static const std::vector<std::vector<std::string>> k = {{"a", "b"}, {"ab"}, {"a", "", "b"}, {}, {""}, {"", ""}, {"abcdefgh"}, {"abcd", "efgh"}};
    return k[i % k.size()];
}

template <class K, class Map>
void MapHistory(Case& c) {
    int threads = c.rng.Range(2, 6), keys = c.rng.Range(1, 8), per = c.rng.Range(10, 150);
    c.Op(Fmt("threads=%d keys=%d per=%d", threads, keys, per), true);
    Map m;
    std::vector<std::vector<MOp>> logs(threads);
    std::vector<std::thread> ts;
    std::atomic<bool> torn{false};
    Gate gate(threads);
    std::vector<uint64_t> seeds;
    for (int i = 0; i < threads; i++) seeds.push_back(c.rng.U64());
    for (int t = 0; t < threads; t++) {
        ts.emplace_back([&, t] {
            vf::Rng r(seeds[t]);
            gate.Meet();
            for (int i = 0; i < per; i++) {
                int k = r.Below(keys);
                K key = KeyOf<K>(k);
                int what = r.Below(10);
                if (what < 4) {
                    int64_t v = (int64_t)t * 1000000 + i;
                    Fat f = Fat::Of(v);
                    int64_t a = Now();
                    m.Insert(key, f);
                    logs[t].push_back({'i', a, Now(), k, v});
                } else if (what < 6) {
                    int64_t a = Now();
                    m.Erase(key);
                    logs[t].push_back({'x', a, Now(), k, -1});
                } else {
                    int64_t a = Now();
                    auto f = m.Find(key);
                    int64_t b = Now();
                    if (f && !f->Whole() && f->a + f->b != 0) torn = true;
                    logs[t].push_back({'f', a, b, k, f ? f->a : -1});
                }
            }
        });
    }
    for (auto& t : ts) t.join();
    VF_EXPECT(!torn, "torn-value", "a lookup returned a half-written value");
    size_t present = 0;
    for (int k = 0; k < keys; k++) {
        std::vector<MOp> w, reads;
        w.push_back({'x', 0, 0, k, -1});   // initially absent
        std::map<int64_t, size_t> by_value;
        for (auto& l : logs)
            for (auto& o : l) {
                if (o.key != k) continue;
                if (o.kind == 'f') reads.push_back(o);
                else {
                    if (o.kind == 'i') by_value[o.value] = w.size();
                    w.push_back(o);
                }
            }
        auto fin = m.Find(KeyOf<K>(k));
        int64_t t = Now();
        reads.push_back({'f', t, Now(), k, fin ? fin->a : -1});
        present += fin.has_value();
        for (auto& r : reads) {
            std::vector<size_t> src;
            if (r.value == -1) {
                for (size_t i = 0; i < w.size(); i++)
                    if (w[i].kind == 'x') src.push_back(i);
            } else {
                VF_EXPECT(by_value.count(r.value), "invented-value", "key %d value %lld", k, (long long)r.value);
                src.push_back(by_value[r.value]);
            }
            bool possible = false;
            for (size_t i : src) {
                if (w[i].inv > r.res) continue;
                bool hidden = false;   // overwritten for certain before the lookup began
                for (auto& o : w) hidden |= w[i].res < o.inv && o.res < r.inv;
                possible |= !hidden;
            }
            VF_EXPECT(possible, "stale-or-lost", "key %d: lookup at %lld..%lld returned %lld", k, (long long)r.inv, (long long)r.res, (long long)r.value);
        }
        // two lookups in order must not see values in the opposite order
        for (auto& r1 : reads)
            for (auto& r2 : reads) {
                if (r1.res >= r2.inv || r1.value < 0 || r2.value < 0 || r1.value == r2.value) continue;
                auto& w1 = w[by_value[r1.value]];
                auto& w2 = w[by_value[r2.value]];
                VF_EXPECT(!(w2.res < w1.inv), "went-back", "key %d: %lld seen after %lld", k, (long long)r2.value, (long long)r1.value);
            }
        c.Saw(reads.back().value);
    }
    VF_EXPECT(m.Size() == present, "size", "%zu entries, %zu keys found", m.Size(), present);
}
}  // namespace

VF_SCENARIO(map_history, 400, 6000) { MapHistory<int, ConcurrentHashMap<int, Fat>>(c); }
VF_SCENARIO(map_history_vector_keys, 250, 4000) {
    MapHistory<std::vector<std::string>, ConcurrentHashMap<std::vector<std::string>, Fat, VectorStringHashCompare>>(c);
}

VF_SCENARIO(one_thread, 3000, 60000) {
    ThreadsafeQueue<std::string> q;
    std::deque<std::string> mq;
    ConcurrentHashMap<std::vector<std::string>, int64_t, VectorStringHashCompare> m;
    std::map<std::vector<std::string>, int64_t> mm;
    int64_t start = c.rng.Chance(0.5) ? 0 : c.rng.Chance(0.3) ? c.rng.Range(-(1LL << 60), 1LL << 60) : c.rng.Range(-1000, 1000);
    LongCounter ctr = start ? LongCounter(start) : LongCounter();
    int64_t sum = start;
    int n = c.rng.Range(1, 80);
    for (int i = 0; i < n; i++) {
        int op = c.rng.Below(12);
        std::vector<std::string> key = KeyOf<std::vector<std::string>>(c.rng.Below(8));
        int64_t v = c.rng.Chance(0.3) ? c.rng.Range(-(1LL << 50), 1LL << 50) : c.rng.Range(-100000, 100000);
        c.Op(Fmt("%d:%lld", op, (long long)v), true);
        switch (op) {
            case 0: case 1: {
                std::string s = c.rng.Ascii(c.rng.Below(30));
                if (op) q.push(s);
                else q.push(std::string(s));
                mq.push_back(s);
                break;
            }
            case 2: case 3: {
                auto r = q.try_pop();
                VF_EXPECT(r.has_value() == !mq.empty() && (!r || *r == mq.front()), "queue-model", "pop");
                if (r) mq.pop_front();
                break;
            }
            case 4: {
                auto p = q.try_front();
                VF_EXPECT((p != nullptr) == !mq.empty() && (!p || *p == mq.front()), "queue-model", "front");
                break;
            }
            case 5: case 6: m.Insert(key, v); mm[key] = v; break;
            case 7: m.Erase(key); mm.erase(key); break;
            case 8: ctr.Add(v); sum += v; break;
            case 9: {
                LongCounter o(v);
                ctr.Merge(o);
                sum += v;
                VF_EXPECT(o.GetValue() == v, "counter", "merge changed its argument");
                break;
            }
            case 10: if (c.rng.Chance(0.2)) { ctr.Reset(); sum = 0; } break;
            default: break;
        }
        VF_EXPECT(q.size() == mq.size() && q.empty() == mq.empty(), "queue-model", "size %zu, expected %zu", q.size(), mq.size());
        VF_EXPECT(m.Size() == mm.size(), "map-model", "size %zu, expected %zu", m.Size(), mm.size());
        for (int k = 0; k < 8; k++) {
            auto kk = KeyOf<std::vector<std::string>>(k);
            auto f = m.Find(kk);
            auto it = mm.find(kk);
            VF_EXPECT(f.has_value() == (it != mm.end()) && (!f || *f == it->second), "map-model", "key %d", k);
        }
        VF_EXPECT(ctr.GetValue() == sum && ctr.ToString() == "LongCounter " + std::to_string(sum), "counter", "%lld, expected %lld", (long long)ctr.GetValue(), (long long)sum);
    }
}
