// Global index results: row sets, scores, shifting, ranges, serialization.
#include "ivset.h"
#include "vf.h"

#include "paimon/global_index/bitmap_global_index_result.h"
#include "paimon/global_index/bitmap_vector_search_global_index_result.h"
#include "paimon/global_index/global_index_result.h"
#include "paimon/memory/bytes.h"
#include "paimon/memory/memory_pool.h"

using namespace paimon;
using vf::Case;
using vf::Fmt;
using vf::i128;
using vf::IvSet;

namespace {
using Ptr = std::shared_ptr<GlobalIndexResult>;

// A user-defined result kind: only the base-class combinations apply to it.
class ListResult : public GlobalIndexResult {
 public:
    explicit ListResult(std::vector<int64_t> ids) : ids_(std::move(ids)) {}
    struct It : Iterator {
        std::vector<int64_t> v;
        size_t i = 0;
        bool HasNext() const override { return i < v.size(); }
        int64_t Next() override { return v[i++]; }
    };
    Result<bool> IsEmpty() const override { return ids_.empty(); }
    Result<std::unique_ptr<Iterator>> CreateIterator() const override {
        auto it = std::make_unique<It>();
        it->v = ids_;
        return std::unique_ptr<Iterator>(std::move(it));
    }
    Result<Ptr> AddOffset(int64_t o) override {
        auto v = ids_;
        for (auto& x : v) x += o;
        return Ptr(std::make_shared<ListResult>(v));
    }
    std::string ToString() const override { return "list"; }

 private:
    std::vector<int64_t> ids_;
};

struct Model {
    bool failing = false;                          // its supplier reports an error
    bool scored = false;
    bool list = false;
    std::map<int64_t, float> m;                    // id -> score (0 when scoreless)
    int* calls = nullptr;
};
struct Node {
    Ptr p;
    Model m;
    std::shared_ptr<int> calls;
};

RoaringBitmap64 Bm(const std::map<int64_t, float>& m) {
    RoaringBitmap64 b;
    for (auto& kv : m) b.Add(kv.first);
    return b;
}
std::string Ids(const std::map<int64_t, float>& m) {
    std::string s = "{";
    size_t n = 0;
    for (auto& kv : m) {
        if (n++ == 30) { s += "..."; break; }
        s += Fmt("%lld,", (long long)kv.first);
    }
    return s + "}";
}
int64_t Id(Case& c, int64_t base) {
    return base + c.rng.Range(0, c.rng.Chance(0.7) ? 20 : 400);
}

Node Leaf(Case& c, int64_t base) {
    Node n;
    size_t k = c.rng.Chance(0.1) ? 0 : c.rng.Chance(0.9) ? c.rng.Range(1, 25) : c.rng.Range(100, 300);
    int kind = c.rng.Below(10);
    if (kind < 2) {
        std::vector<Range> rs;
        size_t q = c.rng.Range(0, 5);
        for (size_t i = 0; i < q; i++) {
            int64_t a = Id(c, base), b = a + c.rng.Range(0, 12);
            rs.emplace_back(a, b);
            for (int64_t x = a; x <= b; x++) n.m.m[x] = 0;
        }
        n.p = BitmapGlobalIndexResult::FromRanges(rs);
        c.Op("ranges" + Ids(n.m.m));
        return n;
    }
    for (size_t i = 0; i < k; i++) n.m.m[Id(c, base)] = 0;
    if (kind < 6) {
        n.m.scored = false;
        n.m.failing = c.rng.Chance(0.04);
        n.calls = std::make_shared<int>(0);
        auto bm = Bm(n.m.m);
        bool fail = n.m.failing;
        auto calls = n.calls;
        n.p = std::make_shared<BitmapGlobalIndexResult>([bm, fail, calls]() -> Result<RoaringBitmap64> {
            ++*calls;
            if (fail) return Status::IOError("index file unreadable");
            return bm;
        });
        c.Op((fail ? "failing" : "bitmap") + Ids(n.m.m));
    } else if (kind < 9) {
        n.m.scored = true;
        std::vector<float> sc;
        for (auto& kv : n.m.m) {
            kv.second = c.rng.Chance(0.1) ? c.rng.Of<float>({0.f, -0.f, 1e30f, -1.5f, std::numeric_limits<float>::infinity()}) : (float)c.rng.Range(-100000, 100000) / 64;
            sc.push_back(kv.second);
        }
        n.p = std::make_shared<BitmapVectorSearchGlobalIndexResult>(Bm(n.m.m), std::move(sc));
        c.Op("scored" + Ids(n.m.m));
    } else {
        n.m.list = true;
        std::vector<int64_t> ids;
        for (auto& kv : n.m.m) ids.push_back(kv.first);
        n.p = std::make_shared<ListResult>(ids);
        c.Op("list" + Ids(n.m.m));
    }
    return n;
}

void Verify(Case& c, const Node& n, const char* what) {
    auto it = n.p->CreateIterator();
    auto empty = n.p->IsEmpty();
    auto ranges = n.p->ToRanges();
    if (n.m.failing) {
        VF_EXPECT(!it.ok() && !empty.ok() && !ranges.ok(), "error-lost", "%s of an unreadable index gave an answer", what);
        return;
    }
    VF_EXPECT(it.ok() && empty.ok() && ranges.ok(), "query-failed", "%s: %s", what, it.status().ToString().c_str());
    VF_EXPECT(empty.value() == n.m.m.empty(), "emptiness", "%s", what);
    auto& iter = it.value();
    for (auto& kv : n.m.m) {
        VF_EXPECT(iter->HasNext(), "row-lost", "%s lost %lld of %s", what, (long long)kv.first, Ids(n.m.m).c_str());
        int64_t x = iter->Next();
        VF_EXPECT(x == kv.first, "row-set", "%s yields %lld, expected %lld of %s", what, (long long)x, (long long)kv.first, Ids(n.m.m).c_str());
    }
    VF_EXPECT(!iter->HasNext(), "row-extra", "%s yields rows beyond %s", what, Ids(n.m.m).c_str());
    // ranges: sorted, disjoint, maximal, same set
    std::vector<int64_t> ids;
    for (auto& kv : n.m.m) ids.push_back(kv.first);
    IvSet want = IvSet::FromIds(ids);
    auto& rs = ranges.value();
    VF_EXPECT(rs.size() == want.v.size(), "ranges", "%s gives %zu ranges, expected %zu", what, rs.size(), want.v.size());
    for (size_t i = 0; i < rs.size(); i++) {
        VF_EXPECT((i128)rs[i].from == want.v[i].first && (i128)rs[i].to + 1 == want.v[i].second, "ranges", "%s range %zu is [%lld,%lld]", what, i, (long long)rs[i].from, (long long)rs[i].to);
    }
    auto scored = std::dynamic_pointer_cast<VectorSearchGlobalIndexResult>(n.p);
    VF_EXPECT((scored != nullptr) == n.m.scored, "score-kind", "%s is %sscored", what, scored ? "" : "not ");
    if (scored) {
        auto si = scored->CreateVectorSearchIterator();
        VF_EXPECT(si.ok(), "score-iterator", "%s", what);
        for (auto& kv : n.m.m) {
            VF_EXPECT(si.value()->HasNext(), "score-lost", "%s", what);
            auto p = si.value()->NextWithScore();
            VF_EXPECT(p.first == kv.first && memcmp(&p.second, &kv.second, 4) == 0, "score-pairing", "%s pairs %lld with %g, expected %lld with %g", what, (long long)p.first, p.second, (long long)kv.first, kv.second);
        }
        VF_EXPECT(!si.value()->HasNext(), "score-extra", "%s", what);
        if (auto bv = std::dynamic_pointer_cast<BitmapVectorSearchGlobalIndexResult>(n.p)) {
            VF_EXPECT(bv->GetScores().size() == n.m.m.size(), "score-count", "%s", what);
        }
    }
    if (n.calls) VF_EXPECT(*n.calls == 1, "supplier-repeated", "%s: the index was read %d times", what, *n.calls);
}
}  // namespace

VF_SCENARIO(algebra, 16000, 400000) {
    std::shared_ptr<MemoryPool> pool = GetMemoryPool();
    int64_t base = c.rng.Of<int64_t>({0, 0, 65530, (1ll << 31) - 10, (1ll << 32) - 10, 1ll << 40, INT64_MAX - 1000});
    std::vector<Node> nodes;
    size_t leaves = c.rng.Range(2, 4);
    for (size_t i = 0; i < leaves; i++) nodes.push_back(Leaf(c, base));
    size_t steps = c.rng.Range(1, 6);
    for (size_t s = 0; s < steps; s++) {
        size_t ai = c.rng.Below(nodes.size()), bi = c.rng.Below(nodes.size());
        Node a = nodes[ai], b = nodes[bi];
        Node r;
        int op = c.rng.Below(4);
        const char* what = op == 0 ? "and" : op == 1 ? "or" : op == 2 ? "shift" : "serialize";
        c.Op(Fmt("%s(%zu,%zu)", what, ai, bi), true);
        if (op <= 1) {
            auto res = op == 0 ? a.p->And(b.p) : a.p->Or(b.p);
            bool overlap = false;
            for (auto& kv : a.m.m) overlap |= b.m.m.count(kv.first) > 0;
            if (op == 0) {
                for (auto& kv : a.m.m) if (b.m.m.count(kv.first)) r.m.m[kv.first] = a.m.scored ? kv.second : b.m.m[kv.first];
            } else {
                r.m.m = a.m.m;
                for (auto& kv : b.m.m) r.m.m.insert(kv);
            }
            bool fail = a.m.failing || b.m.failing;
            if (op == 1 && a.m.scored && b.m.scored && overlap) {
                VF_EXPECT(!res.ok(), "ambiguous-union", "a scored union with overlapping ids was accepted");
                continue;
            }
            if (fail && !res.ok()) continue;   // the error may surface at once
            VF_EXPECT(res.ok(), "combine-failed", "%s: %s", what, res.status().ToString().c_str());
            r.p = res.value();
            r.m.failing = fail;
            bool is_scored = std::dynamic_pointer_cast<VectorSearchGlobalIndexResult>(r.p) != nullptr;
            if (op == 1) {
                // only a disjoint scored union may keep scores, and it must
                r.m.scored = a.m.scored && b.m.scored;
            } else if (a.m.scored && !b.m.scored && !b.m.list) {
                r.m.scored = true;    // surviving ids keep their own score
            } else {
                r.m.scored = is_scored && !fail && (a.m.scored != b.m.scored);   // scores optional, but then exact
            }
            if (!r.m.scored) for (auto& kv : r.m.m) kv.second = 0;
        } else if (op == 2) {
            int64_t lo = a.m.m.empty() ? 0 : a.m.m.begin()->first, hi = a.m.m.empty() ? 0 : a.m.m.rbegin()->first;
            int64_t off = c.rng.Of<int64_t>({0, 1, -1, 100, 65536, -65536, 1ll << 32, -(1ll << 32), 1ll << 40});
            if (off < 0 && lo + off < 0) off = -lo;
            if (off > 0 && hi > INT64_MAX - off) off = INT64_MAX - hi;
            c.Op(Fmt("by %lld", (long long)off));
            auto res = a.p->AddOffset(off);
            if (a.m.failing && !res.ok()) continue;
            VF_EXPECT(res.ok(), "shift-failed", "%s", res.status().ToString().c_str());
            r.p = res.value();
            for (auto& kv : a.m.m) r.m.m[kv.first + off] = kv.second;
            r.m.scored = a.m.scored;
            r.m.failing = a.m.failing;
            r.m.list = a.m.list;
        } else {
            auto res = GlobalIndexResult::Serialize(a.p, pool);
            if (a.m.failing || a.m.list) {
                VF_EXPECT(!res.ok(), "serialize-unsupported", "accepted");
                continue;
            }
            VF_EXPECT(res.ok(), "serialize-failed", "%s", res.status().ToString().c_str());
            auto& bytes = res.value();
            std::unique_ptr<char[]> exact(new char[bytes->size()]);
            memcpy(exact.get(), bytes->data(), bytes->size());
            auto back = GlobalIndexResult::Deserialize(exact.get(), bytes->size(), pool);
            VF_EXPECT(back.ok(), "deserialize-failed", "%s", back.status().ToString().c_str());
            size_t cut = c.rng.Below(bytes->size());
            std::unique_ptr<char[]> part(new char[cut]);
            memcpy(part.get(), bytes->data(), cut);
            VF_EXPECT(!GlobalIndexResult::Deserialize(part.get(), cut, pool).ok(), "truncated-accepted", "%zu of %zu bytes", cut, bytes->size());
            r.p = back.value();
            r.m = a.m;
            if (a.m.m.empty()) r.m.scored = std::dynamic_pointer_cast<VectorSearchGlobalIndexResult>(r.p) != nullptr;
        }
        Verify(c, r, what);
        nodes.push_back(r);
    }
    for (auto& n : nodes) Verify(c, n, "final");
}

VF_SCENARIO(wide_ranges, 1500, 40000) {
    // unions of long ranges, given unsorted and overlapping, stay exact and come back merged
    std::vector<Range> rs;
    std::vector<std::pair<i128, i128>> a;
    size_t n = c.rng.Range(1, 4);
    int64_t room = 200000;
    for (size_t i = 0; i < n; i++) {
        int64_t f = c.rng.Of<int64_t>({0, 65535, (1ll << 32) - 3, 1ll << 33, INT64_MAX - 70000}) + c.rng.Range(0, 50);
        int64_t len = c.rng.Chance(0.5) ? c.rng.Range(0, 100) : c.rng.Range(0, std::min<int64_t>(room, 66000));
        if (f > INT64_MAX - len) len = INT64_MAX - f;
        rs.emplace_back(f, f + len);
        a.push_back({f, (i128)f + len + 1});
        c.Op(rs.back().ToString(), true);
    }
    IvSet want = IvSet::Norm(a);
    auto r = BitmapGlobalIndexResult::FromRanges(rs);
    auto bm = r->GetBitmap();
    VF_EXPECT(bm.ok() && (i128)bm.value()->Cardinality() == want.Count(), "row-set", "cardinality");
    auto back = r->ToRanges();
    VF_EXPECT(back.ok() && back.value().size() == want.v.size(), "ranges", "count");
    for (size_t i = 0; i < want.v.size(); i++) {
        VF_EXPECT((i128)back.value()[i].from == want.v[i].first && (i128)back.value()[i].to + 1 == want.v[i].second, "ranges", "range %zu is %s", i, back.value()[i].ToString().c_str());
    }
}
