// Bit-sliced index answers against a scan of the column.
#include "vf.h"

#include "paimon/common/file_index/bsi/bit_slice_index_roaring_bitmap.h"
#include "paimon/io/byte_array_input_stream.h"
#include "paimon/memory/bytes.h"
#include "paimon/memory/memory_pool.h"
#include "paimon/utils/roaring_bitmap32.h"

using namespace paimon;
using vf::Case;
using vf::Fmt;

namespace {
using Column = std::vector<std::pair<int32_t, int64_t>>;   // row id, value; missing rows are null

std::set<int32_t> Ids(const RoaringBitmap32& b) {
    std::set<int32_t> s;
    auto e = b.End();
    for (auto it = b.Begin(); it != e; ++it) s.insert(*it);
    return s;
}
template <class P>
std::set<int32_t> Scan(const Column& col, P p) {
    std::set<int32_t> s;
    for (auto& r : col) if (p(r.second)) s.insert(r.first);
    return s;
}
void Answers(Case& c, const BitSliceIndexRoaringBitmap& ix, const Column& col, int64_t min, int64_t max, const char* when) {
    std::vector<int64_t> probes = {min, max, 0, -1, std::numeric_limits<int64_t>::max(), std::numeric_limits<int64_t>::min()};
    auto near = [&](int64_t v) {
        int64_t d = c.rng.Range(-1, 1), r;
        if (!__builtin_add_overflow(v, d, &r)) probes.push_back(r);
    };
    near(min);
    near(max);
    for (int i = 0; i < 8; i++) {
        if (!col.empty()) near(col[c.rng.Below(col.size())].second);
        probes.push_back((int64_t)(min + (uint64_t)c.rng.U64() % ((uint64_t)max - min + 1 ? (uint64_t)max - min + 1 : 1)));
    }
    auto cmp = [&](const char* op, const Result<RoaringBitmap32>& got, const std::set<int32_t>& want, int64_t lit) {
        VF_EXPECT(got.ok(), "query-failed", "%s %lld: %s", op, (long long)lit, got.status().ToString().c_str());
        auto g = Ids(got.value());
        VF_EXPECT(g == want, "wrong-rows", "%s: column %s %lld returns %zu rows, a scan %zu (range %lld..%lld)", when, op, (long long)lit, g.size(), want.size(), (long long)min, (long long)max);
    };
    for (int64_t p : probes) {
        cmp("=", ix.Equal(p), Scan(col, [&](int64_t v) { return v == p; }), p);
        cmp("<", ix.LessThan(p), Scan(col, [&](int64_t v) { return v < p; }), p);
        cmp("<=", ix.LessOrEqual(p), Scan(col, [&](int64_t v) { return v <= p; }), p);
        cmp(">", ix.GreaterThan(p), Scan(col, [&](int64_t v) { return v > p; }), p);
        cmp(">=", ix.GreaterOrEqual(p), Scan(col, [&](int64_t v) { return v >= p; }), p);
    }
    VF_EXPECT(Ids(ix.IsNotNull()) == Scan(col, [](int64_t) { return true; }), "not-null", "%s: not-null rows differ", when);
}
}  // namespace

VF_SCENARIO(columns, 1500, 20000) {
    std::shared_ptr<MemoryPool> pool = GetMemoryPool();
    int64_t min, max;
    switch (c.rng.Below(6)) {
        case 0: min = max = c.rng.Range(0, 5); break;
        case 1: min = 0; max = std::numeric_limits<int64_t>::max(); break;
        case 2: min = c.rng.Range(0, 1000); max = min + c.rng.Range(0, 300); break;
        case 3: min = std::numeric_limits<int64_t>::max() - c.rng.Range(0, 1000); max = std::numeric_limits<int64_t>::max(); break;
        case 4: min = c.rng.Range(0, 10); max = min + (1ll << c.rng.Range(0, 61)) - c.rng.Range(0, 1); break;
        default: {
            min = (int64_t)(c.rng.U64() >> c.rng.Range(1, 63));
            int64_t x = (int64_t)(c.rng.U64() >> c.rng.Range(1, 63));
            max = x > std::numeric_limits<int64_t>::max() - min ? std::numeric_limits<int64_t>::max() : min + x;
        }
    }
    if (max < min) max = min;
    c.Op(Fmt("range %lld..%lld", (long long)min, (long long)max), true);
    auto ap = BitSliceIndexRoaringBitmap::Appender::Create(min, max);
    VF_EXPECT(ap.ok(), "create-failed", "%s", ap.status().ToString().c_str());
    auto& a = ap.value();
    VF_EXPECT(!a->IsNotEmpty(), "emptiness", "a new index is not empty");
    Column col;
    int n = c.rng.Below(c.rng.Chance(0.1) ? 3000 : 60);
    int32_t rid = c.rng.Chance(0.2) ? 65500 : 0;
    std::vector<int64_t> pool_values;
    for (int i = 0; i < n; i++) {
        rid += 1 + (c.rng.Chance(0.3) ? c.rng.Below(4) : 0);   // gaps are nulls
        int64_t v;
        if (!pool_values.empty() && c.rng.Chance(0.4)) v = c.rng.Pick(pool_values);
        else if (c.rng.Chance(0.2)) v = c.rng.Chance(0.5) ? min : max;
        else v = (int64_t)((uint64_t)min + c.rng.U64() % ((uint64_t)max - min + 1 ? (uint64_t)max - min + 1 : UINT64_MAX));
        pool_values.push_back(v);
        if (i < 20) c.Op(Fmt("%d:%lld", rid, (long long)v));
        c.Saw(vf::Mix(rid + vf::Mix(v)));
        Status st = a->Append(rid, v);
        VF_EXPECT(st.ok(), "append-failed", "row %d value %lld: %s", rid, (long long)v, st.ToString().c_str());
        col.push_back({rid, v});
        if (c.rng.Chance(0.05)) VF_EXPECT(!a->Append(rid, v).ok(), "duplicate-row", "row %d accepted twice", rid);
        if (max < std::numeric_limits<int64_t>::max() && c.rng.Chance(0.05)) VF_EXPECT(!a->Append(rid + 1, max + 1).ok(), "out-of-range", "value above the declared maximum accepted");
        if (c.rng.Chance(0.05)) VF_EXPECT(!a->Append(rid + 1, min - 1).ok(), "out-of-range", "value below the declared minimum accepted");
    }
    VF_EXPECT(a->IsNotEmpty() == !col.empty(), "emptiness", "%zu rows", col.size());
    auto ix = a->Build();
    Answers(c, *ix, col, min, max, "built");
    auto bytes = a->Serialize(pool);
    {  // the layout other readers know
        std::string b(bytes->data(), bytes->size());
        auto be = [&](size_t at, int n) {
            uint64_t v = 0;
            for (int i = 0; i < n; i++) v = v << 8 | (uint8_t)b[at + i];
            return v;
        };
        VF_EXPECT(b.size() > 17 && b[0] == 1 && (int64_t)be(1, 8) == min && (int64_t)be(9, 8) == max, "layout", "starts with %s", vf::Hex(b, 20).c_str());
        size_t at = 17;
        auto bitmap = [&](const std::set<int32_t>& want, const char* what) {
            RoaringBitmap32 m;
            VF_EXPECT(m.Deserialize(b.data() + at, b.size() - at).ok(), "layout", "no bitmap at %zu", at);
            VF_EXPECT(Ids(m) == want, "layout", "%s holds other rows", what);
            at += m.Serialize(pool.get())->size();
        };
        bitmap(Scan(col, [](int64_t) { return true; }), "existence bitmap");
        VF_EXPECT(b.size() >= at + 4, "layout", "no slice count");
        int n = (int)be(at, 4);
        at += 4;
        VF_EXPECT(n >= 0 && n <= 64 && (n == 64 || ((uint64_t)max - min) >> n == 0), "layout", "%d slices for %lld..%lld", n, (long long)min, (long long)max);
        for (int i = 0; i < n; i++) bitmap(Scan(col, [&](int64_t v) { return ((uint64_t)v - min) >> i & 1; }), "slice");
        VF_EXPECT(at == b.size(), "layout", "%zu of %zu bytes", at, b.size());
    }
    std::string pre = c.rng.Bytes(c.rng.Below(5));
    std::string flat = pre + std::string(bytes->data(), bytes->size());
    auto in = std::make_shared<ByteArrayInputStream>(flat.data(), flat.size());
    VF_EXPECT(in->Seek(pre.size(), FS_SEEK_SET).ok(), "seek", "seek");
    auto re = BitSliceIndexRoaringBitmap::Create(in);
    VF_EXPECT(re.ok(), "reopen-failed", "%s", re.status().ToString().c_str());
    VF_EXPECT(*re.value() == *ix, "round-trip", "reopened index differs");
    Answers(c, *re.value(), col, min, max, "reopened");
    auto pos = in->GetPos();
    VF_EXPECT(pos.ok() && pos.value() == (int64_t)flat.size(), "stream-position", "reading the index consumed %lld of %zu bytes", (long long)pos.value(), flat.size());
}

VF_SCENARIO(refusals, 300, 3000) {
    int64_t a = c.rng.Edgy64(), b = c.rng.Edgy64();
    c.Op(Fmt("declare %lld..%lld", (long long)a, (long long)b), true);
    auto r = BitSliceIndexRoaringBitmap::Appender::Create(a, b);
    VF_EXPECT(r.ok() == (a >= 0 && a <= b), "declared-range", "range %lld..%lld %s", (long long)a, (long long)b, r.ok() ? "accepted" : "refused");
    auto& e = BitSliceIndexRoaringBitmap::Empty();
    VF_EXPECT(Ids(e->IsNotNull()).empty(), "empty-index", "the empty index has rows");
    auto q = e->GreaterOrEqual(a);
    VF_EXPECT(q.ok() && q.value().IsEmpty(), "empty-index", "the empty index matches");
}
