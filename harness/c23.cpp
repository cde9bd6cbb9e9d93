// Key hashing against an independent murmur3 (variant: tail bytes mixed one by one, sign-extended).
#include <memory>

#include "paimon/common/data/binary_section.h"
#include "paimon/common/data/binary_string.h"
#include "paimon/common/memory/memory_segment.h"
#include "paimon/common/memory/memory_segment_utils.h"
#include "paimon/common/utils/murmurhash_utils.h"
#include "paimon/memory/bytes.h"
#include "paimon/memory/memory_pool.h"
#include "vf.h"

using namespace paimon;
using vf::Case;
using vf::Fmt;

namespace {
uint32_t Rot(uint32_t x, int r) { return (x << r) | (x >> (32 - r)); }
uint32_t Block(uint32_t h, uint32_t k) {
    k *= 0xcc9e2d51u;
    k = Rot(k, 15);
    k *= 0x1b873593u;
    h ^= k;
    h = Rot(h, 13);
    return h * 5 + 0xe6546b64u;
}
uint32_t Final(uint32_t h) {
    h ^= h >> 16;
    h *= 0x85ebca6bu;
    h ^= h >> 13;
    h *= 0xc2b2ae35u;
    h ^= h >> 16;
    return h;
}
int32_t Ref(const std::string& s, uint32_t seed, bool words_only) {
    uint32_t h = seed;
    size_t n = s.size() / 4 * 4;
    for (size_t i = 0; i < n; i += 4) {
        uint32_t k = (unsigned char)s[i] | (unsigned char)s[i + 1] << 8 | (unsigned char)s[i + 2] << 16 | (uint32_t)(unsigned char)s[i + 3] << 24;
        h = Block(h, k);
    }
    if (!words_only) {
        for (size_t i = n; i < s.size(); i++) h = Block(h, (uint32_t)(int32_t)(signed char)s[i]);
    }
    return (int32_t)Final(h ^ (uint32_t)s.size());
}
}  // namespace

VF_SCENARIO(layouts, 80000, 400000) {
    auto pool = GetMemoryPool();
    int n = c.rng.Chance(0.1) ? c.rng.Range(100, 2000) : c.rng.Below(40);
    std::string s = c.rng.Bytes(n);
    int32_t want = Ref(s, 42, false);
    c.Op(vf::Hex(s, 40), n > 0);
    // contiguous at every alignment
    int off = c.rng.Below(17);
    std::unique_ptr<char[]> raw(new char[off + n + 1]);
    memcpy(raw.get() + off, s.data(), n);
    VF_EXPECT(MurmurHashUtils::HashUnsafeBytes(raw.get(), off, n) == want, "hash-value", "offset %d length %d", off, n);
    uint32_t seed = (uint32_t)c.rng.U64();
    VF_EXPECT(MurmurHashUtils::HashUnsafeBytes(raw.get(), off, n, (int32_t)seed) == Ref(s, seed, false), "hash-value", "seed %u", seed);
    auto b = std::make_shared<Bytes>(s, pool.get());
    VF_EXPECT(MurmurHashUtils::HashBytes(b) == want, "hash-value", "byte array of %d", n);
    VF_EXPECT(MurmurHashUtils::HashBytesPositive(b) == (want & 0x7fffffff) && MurmurHashUtils::HashBytesPositive(b) >= 0, "hash-positive", "byte array of %d", n);
    // one segment
    int pre = c.rng.Below(20), post = c.rng.Below(5);
    auto seg = MemorySegment::Wrap(std::make_shared<Bytes>(c.rng.Bytes(pre) + s + c.rng.Bytes(post), pool.get()));
    VF_EXPECT(MurmurHashUtils::HashBytes(seg, pre, n) == want, "hash-layout", "one segment at %d", pre);
    // several segments
    std::string flat = c.rng.Bytes(pre) + s + c.rng.Bytes(post + 1);
    int size = c.rng.Range(1, 30);
    std::vector<MemorySegment> segs;
    for (size_t p = 0; p < flat.size(); p += size) segs.push_back(MemorySegment::Wrap(std::make_shared<Bytes>(flat.substr(p, size), pool.get())));
    c.Op(Fmt("%zux%d@%d", segs.size(), size, pre));
    VF_EXPECT(MemorySegmentUtils::Hash(segs, pre, n, pool.get()) == want, "hash-layout", "%zu segments of %d at %d", segs.size(), size, pre);
    VF_EXPECT(BinarySection(segs, pre, n).HashCode() == want, "hash-layout", "section over %zu segments", segs.size());
    VF_EXPECT(BinaryString::FromAddress(segs, pre, n).HashCode() == want, "hash-layout", "string over %zu segments", segs.size());
    if (n % 4 == 0) {
        int32_t ww = Ref(s, 42, true);
        VF_EXPECT(MurmurHashUtils::HashUnsafeBytesByWords(raw.get(), off, n) == ww, "hash-words", "offset %d", off);
        VF_EXPECT(MurmurHashUtils::HashBytesByWords(seg, pre, n) == ww, "hash-words", "one segment");
        VF_EXPECT(MemorySegmentUtils::HashByWords(segs, pre, n, pool.get()) == ww, "hash-words", "%zu segments of %d at %d", segs.size(), size, pre);
        VF_EXPECT(ww == want, "hash-words", "word and byte hash disagree");
    }
}
