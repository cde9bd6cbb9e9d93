// Bloom filter: no false negatives, rebuilt filters, bit positions, false-positive rate.
#include "vf.h"

#include "paimon/common/utils/bloom_filter64.h"
#include "paimon/memory/bytes.h"
#include "paimon/memory/memory_pool.h"

using namespace paimon;
using vf::Case;
using vf::Fmt;

namespace {
int64_t Key(Case& c) {
    return c.rng.Chance(0.4) ? c.rng.Edgy64() : (int64_t)c.rng.U64();
}
// the storage format's positions
std::vector<int32_t> Positions(int64_t h, int k, int32_t bits) {
    std::vector<int32_t> r;
    uint32_t h1 = (uint32_t)h, h2 = (uint32_t)((uint64_t)h >> 32);
    for (int i = 1; i <= k; i++) {
        int32_t x = (int32_t)(h1 + (uint32_t)i * h2);
        if (x < 0) x = ~x;
        r.push_back(x % bits);
    }
    return r;
}
// the filter as a reader rebuilds it from stored bytes
BloomFilter64 Rebuild(Case& c, const BloomFilter64& f, MemoryPool* pool, int off) {
    int32_t bits = f.GetBitSet().BitSize();
    auto bytes = std::make_shared<Bytes>(off + bits / 8, pool);
    memset(bytes->data(), 0, bytes->size());
    for (int i = 0; i < off; i++) bytes->data()[i] = (char)c.rng.U64();
    for (int32_t i = 0; i < bits; i++)
        if (f.GetBitSet().Get(i)) bytes->data()[off + i / 8] |= (char)(1 << (i % 8));
    return BloomFilter64(f.GetNumHashFunctions(), std::make_unique<BloomFilter64::BitSet>(bytes, off));
}
}  // namespace

VF_SCENARIO(membership, 20000, 300000) {
    std::shared_ptr<MemoryPool> pool = GetMemoryPool();
    int64_t items = c.rng.Of<int64_t>({1, 2, 3, 7, 10, 64, 100, 500, 1000});
    double fpp = c.rng.Of<double>({0.9, 0.5, 0.3, 0.1, 0.05, 0.01, 0.001, 1e-6, 1e-12});
    int n = c.rng.Range(0, std::min<int64_t>(items * (c.rng.Chance(0.2) ? 2 : 1), 300));
    BloomFilter64 f(items, fpp, pool);
    c.Op(Fmt("items=%lld fpp=%g n=%d", (long long)items, fpp, n), n > 0);
    int32_t bits = f.GetBitSet().BitSize();
    int k = f.GetNumHashFunctions();
    VF_EXPECT(bits > 0 && bits % 8 == 0 && k >= 1, "sizing", "bits=%d k=%d", bits, k);
    double ideal = -(double)items * std::log(fpp) / (std::log(2) * std::log(2));
    VF_EXPECT(bits >= ideal - 1 && bits <= ideal + 9, "sizing", "%d bits for %g", bits, ideal);
    std::vector<bool> model(bits);
    std::vector<int64_t> keys;
    for (int i = 0; i < n; i++) {
        int64_t h = Key(c);
        c.Op(Fmt("%llx", (long long)h));
        f.AddHash(h);
        keys.push_back(h);
        for (auto p : Positions(h, k, bits)) model[p] = true;
        VF_EXPECT(f.TestHash(h), "missed-key", "key %llx right after adding", (long long)h);
        if (i % 7 == 0) {
            int64_t o = keys[c.rng.Below(keys.size())];
            VF_EXPECT(f.TestHash(o), "missed-key", "key %llx after %d adds", (long long)o, i + 1);
        }
    }
    for (auto h : keys) VF_EXPECT(f.TestHash(h), "missed-key", "key %llx at the end", (long long)h);
    for (int32_t i = 0; i < bits; i++) VF_EXPECT(f.GetBitSet().Get(i) == model[i], "bit-positions", "bit %d of %d, k=%d", i, bits, k);
    int off = c.rng.Of<int>({0, 1, 4, 7});
    BloomFilter64 g = Rebuild(c, f, pool.get(), off);
    VF_EXPECT(g.GetBitSet().BitSize() == bits, "rebuilt-size", "%d bits, expected %d", g.GetBitSet().BitSize(), bits);
    for (auto h : keys) VF_EXPECT(g.TestHash(h), "missed-key-rebuilt", "key %llx", (long long)h);
    for (int i = 0; i < 40; i++) {
        int64_t h = Key(c);
        bool want = true;
        for (auto p : Positions(h, k, bits)) want = want && model[p];
        VF_EXPECT(f.TestHash(h) == want && g.TestHash(h) == want, "answer", "key %llx: %d, rebuilt %d, expected %d", (long long)h, f.TestHash(h), g.TestHash(h), want);
    }
    // a rebuilt filter accepts more keys and keeps the old ones
    for (int i = 0; i < 3; i++) {
        int64_t h = Key(c);
        g.AddHash(h);
        VF_EXPECT(g.TestHash(h), "missed-key-rebuilt", "key %llx added after rebuilding", (long long)h);
    }
    for (auto h : keys) VF_EXPECT(g.TestHash(h), "missed-key-rebuilt", "key %llx", (long long)h);
}

VF_SCENARIO(rate, 64, 1000) {
    std::shared_ptr<MemoryPool> pool = GetMemoryPool();
    int64_t items = c.rng.Of<int64_t>({500, 2000, 20000, 100000});
    double fpp = c.rng.Of<double>({0.3, 0.1, 0.03, 0.01, 0.001});
    BloomFilter64 f(items, fpp, pool);
    c.Op(Fmt("items=%lld fpp=%g", (long long)items, fpp), true);
    std::unordered_set<int64_t> in;
    while ((int64_t)in.size() < items) {
        int64_t h = c.rng.U64();
        if (in.insert(h).second) f.AddHash(h);
    }
    for (auto h : in) VF_EXPECT(f.TestHash(h), "missed-key", "key %llx", (long long)h);
    int64_t trials = 60000, hit = 0;
    for (int64_t i = 0; i < trials; i++) {
        int64_t h = c.rng.U64();
        if (!in.count(h)) hit += f.TestHash(h);
    }
    double got = (double)hit / trials, bound = 1.5 * fpp + 6 * std::sqrt(fpp / trials) + 0.0002;
    c.Saw(hit);
    VF_EXPECT(got <= bound, "false-positive-rate", "measured %g for configured %g (items %lld)", got, fpp, (long long)items);
}
