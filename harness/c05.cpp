// 32- and 64-bit row-id bitmaps against an interval-set model.
#include "ivset.h"
#include "vf.h"

#include "paimon/io/byte_array_input_stream.h"
#include "paimon/memory/bytes.h"
#include "paimon/memory/memory_pool.h"
#include "paimon/utils/roaring_bitmap32.h"
#include "paimon/utils/roaring_bitmap64.h"

using namespace paimon;
using vf::Case;
using vf::Fmt;
using vf::i128;
using vf::IvSet;

namespace {
template <class BM> struct Tr;
template <> struct Tr<RoaringBitmap32> {
    using T = int32_t;
    static constexpr const char* name = "32";
};
template <> struct Tr<RoaringBitmap64> {
    using T = int64_t;
    static constexpr const char* name = "64";
};

template <class BM>
typename Tr<BM>::T Id(Case& c) {
    using T = typename Tr<BM>::T;
    int64_t base = 0;
    switch (c.rng.Below(8)) {
        case 0: base = 0; break;
        case 1: base = 65536 * c.rng.Range(1, 4); break;
        case 2: base = 65536ll * c.rng.Range(0, 3) + 4096; break;
        case 3: base = std::numeric_limits<int32_t>::max() - 200; break;
        case 4: base = sizeof(T) == 8 ? (int64_t)(1ll << 32) * c.rng.Range(1, 3) : 0; break;
        case 5: base = sizeof(T) == 8 ? std::numeric_limits<int64_t>::max() - 200 : 70000; break;
        case 6: base = sizeof(T) == 8 ? (1ll << 40) : 200000; break;
        default: base = c.rng.Range(0, 300000);
    }
    int64_t d = c.rng.Chance(0.5) ? c.rng.Range(-3, 3) : c.rng.Range(0, 199);
    int64_t x = base + d;
    return (T)std::max<int64_t>(0, x);
}

template <class BM>
void Verify(Case& c, const BM& b, const IvSet& m, const char* op) {
    using T = typename Tr<BM>::T;
    i128 n = m.Count();
    VF_EXPECT((i128)b.Cardinality() == n, "cardinality", "after %s: %lld, expected %lld in %s", op, (long long)b.Cardinality(), (long long)n, m.Text().c_str());
    VF_EXPECT(b.IsEmpty() == (n == 0), "emptiness", "after %s", op);
    // iteration, bounded
    auto ids = m.Ids(400);
    size_t k = 0;
    auto end = b.End();
    for (auto it = b.Begin(); it != end && k < ids.size(); ++it, ++k) {
        VF_EXPECT((int64_t)*it == ids[k], "iteration", "after %s: element %zu is %lld, expected %lld", op, k, (long long)*it, (long long)ids[k]);
    }
    VF_EXPECT(k == ids.size(), "iteration", "after %s: %zu elements, expected %zu", op, k, ids.size());
    // probes around interval edges
    for (int t = 0; t < 6; t++) {
        int64_t x;
        if (!m.v.empty() && c.rng.Chance(0.7)) {
            auto& p = m.v[c.rng.Below(m.v.size())];
            i128 y = (c.rng.Chance(0.5) ? p.first : p.second) + c.rng.Range(-2, 2);
            if (y < 0 || y > std::numeric_limits<T>::max()) continue;
            x = (int64_t)y;
        } else {
            x = Id<BM>(c);
        }
        VF_EXPECT(b.Contains((T)x) == m.Has(x), "membership", "after %s: contains(%lld)=%d in %s", op, (long long)x, b.Contains((T)x), m.Text().c_str());
        i128 nx;
        bool has = m.Next(x, &nx);
        auto it = b.EqualOrLarger((T)x);
        VF_EXPECT((it != b.End()) == has, "iteration-from", "after %s: from %lld in %s", op, (long long)x, m.Text().c_str());
        if (has) {
            // continue iterating from there
            for (int q = 0; q < 4 && has; q++) {
                VF_EXPECT(it != b.End() && (i128)*it == nx, "iteration-from", "after %s: from %lld step %d gives %lld, expected %lld", op, (long long)x, q, (long long)*it, (long long)nx);
                has = m.Next(nx + 1, &nx);
                ++it;
            }
            if (!has) VF_EXPECT(it == b.End(), "iteration-from", "after %s: iteration from %lld does not end", op, (long long)x);
        }
        int64_t y = x;
        if (__builtin_add_overflow(x, c.rng.Chance(0.3) ? c.rng.Range(0, 1ll << 33) : c.rng.Range(0, 300), &y) || y > std::numeric_limits<T>::max()) y = std::numeric_limits<T>::max();
        bool any = m.Next(x, &nx) && nx < y;
        VF_EXPECT(b.ContainsAny((T)x, (T)y) == any, "range-membership", "after %s: any in [%lld,%lld) of %s", op, (long long)x, (long long)y, m.Text().c_str());
    }
    if (n <= 12) {
        std::string s = "{";
        for (size_t i = 0; i < ids.size(); i++) s += (i ? "," : "") + std::to_string(ids[i]);
        VF_EXPECT(b.ToString() == s + "}", "text", "after %s: %s", op, b.ToString().c_str());
    }
}

template <class BM>
void SerDe(Case& c, const BM& b, const IvSet& m, MemoryPool* pool) {
    auto bytes = b.Serialize(pool);
    VF_EXPECT(bytes->size() == b.GetSizeInBytes(), "serialized-size", "%zu bytes, announced %zu", bytes->size(), b.GetSizeInBytes());
    std::string flat(bytes->data() ? bytes->data() : "", bytes->size());
    BM r = BM::From({1, 2, 3});
    // an exact-size heap copy so that any over-read is caught
    std::unique_ptr<char[]> exact(new char[flat.size()]);
    memcpy(exact.get(), flat.data(), flat.size());
    Status st = r.Deserialize(exact.get(), flat.size());
    VF_EXPECT(st.ok() && r == b && b == r, "round-trip", "whole: %s", st.ToString().c_str());
    Verify(c, r, m, "deserialize");
    // through a stream with bytes before and after
    std::string pre = c.rng.Bytes(c.rng.Below(9)), post = c.rng.Bytes(c.rng.Below(9));
    std::string all = pre + flat + post;
    ByteArrayInputStream in(all.data(), all.size());
    VF_EXPECT(in.Seek(pre.size(), FS_SEEK_SET).ok(), "stream-seek", "seek");
    BM r2;
    st = r2.Deserialize(&in);
    VF_EXPECT(st.ok() && r2 == b, "round-trip", "stream: %s", st.ToString().c_str());
    auto pos = in.GetPos();
    VF_EXPECT(pos.ok() && pos.value() == (int64_t)(pre.size() + flat.size()), "stream-position", "position %lld after %zu bytes", pos.ok() ? (long long)pos.value() : -1, flat.size());
    // truncated: refused, never read past the end
    if (!flat.empty()) {
        size_t cut = c.rng.Below(flat.size());
        std::unique_ptr<char[]> part(new char[cut + 1]);
        memcpy(part.get(), flat.data(), cut);
        std::unique_ptr<char[]> tight(new char[cut]);
        memcpy(tight.get(), flat.data(), cut);
        BM r3;
        Status s3 = r3.Deserialize(tight.get(), cut);
        VF_EXPECT(!s3.ok(), "truncated-accepted", "%zu of %zu bytes accepted", cut, flat.size());
    }
}

template <class BM>
void History(Case& c) {
    using T = typename Tr<BM>::T;
    auto pool = GetMemoryPool();
    struct Slot {
        BM b;
        IvSet m;
    };
    std::vector<Slot> s(3);
    i128 maxv = std::numeric_limits<T>::max();
    int ops = c.rng.Range(4, 40);
    for (int i = 0; i < ops; i++) {
        size_t a = c.rng.Below(3), o = c.rng.Below(3);
        Slot& x = s[a];
        const char* op = "";
        int kind = c.rng.Below(19);
        switch (kind) {
            case 0: case 1: {
                T v = Id<BM>(c);
                op = "add";
                c.Op(Fmt("%s add%zu %lld", Tr<BM>::name, a, (long long)v), true);
                x.b.Add(v);
                x.m = x.m.Or(IvSet::Of(v, (i128)v + 1));
                break;
            }
            case 2: {
                T v = Id<BM>(c);
                op = "checked add";
                c.Op(Fmt("cadd%zu %lld", a, (long long)v), true);
                bool fresh = x.b.CheckedAdd(v);
                VF_EXPECT(fresh == !x.m.Has(v), "checked-add", "add %lld returned %d", (long long)v, fresh);
                x.m = x.m.Or(IvSet::Of(v, (i128)v + 1));
                break;
            }
            case 3: case 4: case 5: case 6: {
                T lo = Id<BM>(c);
                i128 len = c.rng.Chance(0.1) ? (i128)c.rng.Range(0, 1ll << 20) : c.rng.Chance(0.3) ? c.rng.Range(3000, 80000) : c.rng.Range(0, 400);
                if (sizeof(T) == 8 && c.rng.Chance(0.04)) len = (1ll << 32) + c.rng.Range(-5, 5);
                i128 hi = std::min<i128>(maxv, lo + len);
                op = kind <= 4 ? "add range" : kind == 5 ? "remove range" : "flip";
                if (kind >= 5 && !x.m.v.empty() && c.rng.Chance(0.6)) {
                    auto& p = x.m.v[c.rng.Below(x.m.v.size())];
                    lo = (T)std::min<i128>(maxv, std::max<i128>(0, p.first + c.rng.Range(-2, 2)));
                    hi = std::min<i128>(maxv, (i128)lo + (c.rng.Chance(0.5) ? (i128)c.rng.Range(0, 5) : std::min<i128>(p.second - p.first + c.rng.Range(-2, 2), 1ll << 33)));
                    hi = std::max<i128>(0, hi);
                }
                c.Op(Fmt("%s%zu [%lld,%lld)", op, a, (long long)lo, (long long)hi), true);
                IvSet r = IvSet::Of(lo, hi);
                if (kind <= 4) {
                    x.b.AddRange(lo, (T)hi);
                    x.m = x.m.Or(r);
                } else if (kind == 5) {
                    x.b.RemoveRange(lo, (T)hi);
                    x.m = x.m.Minus(r);
                } else {
                    x.b.Flip(lo, (T)hi);
                    x.m = x.m.Minus(r).Or(r.Minus(x.m));
                }
                break;
            }
            case 7:
                op = "|=";
                c.Op(Fmt("%zu|=%zu", a, o), true);
                x.b |= s[o].b;
                x.m = x.m.Or(s[o].m);
                break;
            case 8:
                op = "&=";
                c.Op(Fmt("%zu&=%zu", a, o), true);
                x.b &= s[o].b;
                x.m = x.m.And(s[o].m);
                break;
            case 9: {
                op = "-=";
                if (a == o) o = (a + 1) % 3;
                c.Op(Fmt("%zu-=%zu", a, o), true);
                x.b -= s[o].b;
                x.m = x.m.Minus(s[o].m);
                break;
            }
            case 10: {
                size_t q = c.rng.Below(3);
                int w = c.rng.Below(3);
                op = w == 0 ? "and" : w == 1 ? "or" : "andnot";
                c.Op(Fmt("%zu=%s(%zu,%zu)", a, op, o, q), true);
                BM r = w == 0 ? BM::And(s[o].b, s[q].b) : w == 1 ? BM::Or(s[o].b, s[q].b) : BM::AndNot(s[o].b, s[q].b);
                IvSet m = w == 0 ? s[o].m.And(s[q].m) : w == 1 ? s[o].m.Or(s[q].m) : s[o].m.Minus(s[q].m);
                Verify(c, s[o].b, s[o].m, "operand of a binary operation");
                x.b = std::move(r);
                x.m = m;
                break;
            }
            case 11: {
                op = "fast union";
                c.Op(Fmt("%zu=fastunion", a), true);
                std::vector<const BM*> in;
                IvSet m;
                for (int t = c.rng.Below(4); t > 0; t--) {
                    size_t q = c.rng.Below(3);
                    in.push_back(&s[q].b);
                    m = m.Or(s[q].m);
                }
                BM r = BM::FastUnion(in);
                std::vector<BM> in2;
                for (auto* p : in) in2.push_back(*p);
                VF_EXPECT(BM::FastUnion(in2) == r, "fast-union", "by value and by pointer differ");
                x.b = r;
                x.m = m;
                break;
            }
            case 12:
                op = "copy";
                c.Op(Fmt("%zu=copy %zu", a, o), true);
                x.b = s[o].b;
                x.m = s[o].m;
                break;
            case 13: {
                op = "move";
                c.Op(Fmt("%zu=move %zu", a, o), true);
                if (a == o) break;
                x.b = std::move(s[o].b);
                x.m = s[o].m;
                s[o].b = BM();
                s[o].m = IvSet();
                break;
            }
            case 14: {
                op = "from";
                std::vector<T> v;
                int dense = c.rng.Chance(0.15) ? 5000 : 30;
                T base = Id<BM>(c);
                for (int t = c.rng.Below(dense); t > 0; t--) v.push_back(c.rng.Chance(0.3) ? Id<BM>(c) : (T)std::min<i128>(maxv, (i128)base + c.rng.Range(0, dense * 3)));
                c.Op(Fmt("%zu=from %zu ids %llx", a, v.size(), (unsigned long long)(v.empty() ? 0 : v[0])), true);
                x.b = BM::From(v);
                x.m = IvSet::FromIds(v);
                break;
            }
            case 15: {
                op = "equality";
                bool eq = s[a].b == s[o].b;
                c.Op("eq");
                VF_EXPECT(eq == (s[a].m == s[o].m), "equality", "%s vs %s gives %d", s[a].m.Text().c_str(), s[o].m.Text().c_str(), eq);
                // the same set built element by element or interval by interval
                BM r;
                for (auto& p : x.m.v) r.AddRange((T)p.first, (T)std::min<i128>(p.second, maxv)), p.second > maxv ? r.Add((T)maxv) : void();
                VF_EXPECT(r == x.b, "equality", "rebuilt set differs from %s", x.m.Text().c_str());
                break;
            }
            case 16: {
                op = "serialize";
                if (x.b.GetSizeInBytes() > 2000000) break;
                c.Op(Fmt("serialize %zu", a), true);
                SerDe(c, x.b, x.m, pool.get());
                break;
            }
            case 17: {
                op = "iterator copy";
                auto it = x.b.Begin();
                auto e = x.b.End();
                auto jt = it;
                if (it != e) ++jt;
                VF_EXPECT(x.m.Count() == 0 ? it == e : (it != jt), "iterator", "copies are not independent");
                if (it != e) {
                    auto kt = std::move(jt);
                    jt = it;
                    ++jt;
                    VF_EXPECT(kt == jt, "iterator", "equal positions differ");
                }
                break;
            }
            default: {
                op = "copy construct";
                BM y(x.b);
                IvSet my = x.m;
                T v = Id<BM>(c);
                y.Flip(v, v < maxv ? v + 1 : v);
                Verify(c, x.b, x.m, "change of a copy");
                BM z(std::move(y));
                if (v < maxv) my = my.Has(v) ? my.Minus(IvSet::Of(v, (i128)v + 1)) : my.Or(IvSet::Of(v, (i128)v + 1));
                Verify(c, z, my, "move construction");
                c.Op("copy+move construct", true);
            }
        }
        for (auto& t : s) Verify(c, t.b, t.m, op);
    }
}
}  // namespace

VF_SCENARIO(history32, 1200, 20000) { History<RoaringBitmap32>(c); }
VF_SCENARIO(history64, 1200, 20000) { History<RoaringBitmap64>(c); }

VF_SCENARIO(widen, 600, 6000) {
    auto pool = GetMemoryPool();
    std::vector<int32_t> v;
    int32_t base = Id<RoaringBitmap32>(c);
    for (int t = c.rng.Below(50); t > 0; t--) v.push_back(c.rng.Chance(0.3) ? Id<RoaringBitmap32>(c) : (int32_t)std::min<int64_t>(INT32_MAX, (int64_t)base + c.rng.Below(100)));
    RoaringBitmap32 b = RoaringBitmap32::From(v);
    IvSet m = IvSet::FromIds(v);
    c.Op("widen " + m.Text(), true);
    RoaringBitmap64 w(b);
    Verify(c, w, m, "widening");
    RoaringBitmap64 z = RoaringBitmap64::From({1ll << 40});
    z = b;
    Verify(c, z, m, "widening assignment");
    Verify(c, b, m, "widening (source)");
    z.Add(1ll << 41);
    Verify(c, b, m, "change of the widened copy");
    SerDe(c, z, m.Or(IvSet::Of((i128)1 << 41, ((i128)1 << 41) + 1)), pool.get());
}
