// Commit and scan contexts, and scan plans, against the calls that built them.
#include "vf.h"

#include <optional>

#include "paimon/commit_context.h"
#include "paimon/common/utils/path_util.h"
#include "paimon/core/table/source/plan_impl.h"
#include "paimon/executor.h"
#include "paimon/global_index/bitmap_global_index_result.h"
#include "paimon/memory/memory_pool.h"
#include "paimon/predicate/predicate_builder.h"
#include "paimon/predicate/literal.h"
#include "paimon/predicate/vector_search.h"
#include "paimon/scan_context.h"
#include "paimon/table/source/split.h"

using namespace paimon;
using vf::Case;
using vf::Fmt;
using Opts = std::map<std::string, std::string>;

namespace {
Opts RandomOpts(Case& c) {
    Opts o;
    int n = (int)c.rng.Below(4);
    while (n-- > 0) o[c.rng.Of<std::string>({"a", "b", "file.format", "", "A"})] = std::to_string(c.rng.Below(100));
    return o;
}
struct PathCase { std::string given, want; bool ok; };
PathCase RandomPath(Case& c) {
    switch (c.rng.Below(8)) {
        case 0: return {"", "", false};
        case 1: return {"/a//b///c/", "/a/b/c", true};
        case 2: return {"file:///warehouse//t/", "file:/warehouse/t", true};
        case 3: return {"oss://Bucket//db.db/t", "oss://Bucket/db.db/t", true};
        default: {
            std::string d = "/d" + std::to_string(c.rng.Below(1000));
            return {d, d, true};
        }
    }
}
struct FakeSplit : Split {};
std::shared_ptr<Executor> Exec(int i) {
    static std::vector<std::shared_ptr<Executor>> e = {CreateDefaultExecutor(1), CreateDefaultExecutor(1), CreateDefaultExecutor(2)};
    return e[i];
}
std::shared_ptr<MemoryPool> Pool(int i) {
    static std::vector<std::shared_ptr<MemoryPool>> p = {GetMemoryPool(), GetMemoryPool(), GetMemoryPool()};
    return p[i];
}
}  // namespace

VF_SCENARIO(commit, 6000, 60000) {
    PathCase path = RandomPath(c);
    std::string user = c.rng.Of<std::string>({"u", "", "user-1", std::string("x\0y", 3)});
    CommitContextBuilder b(path.given, user);
    struct { Opts opts; bool ignore = true, rest = false; std::shared_ptr<MemoryPool> pool; std::shared_ptr<Executor> exec; } want;
    std::vector<std::shared_ptr<Executor>> seen;
    int builds = (int)c.rng.Range(1, 4);
    uint64_t sig = vf::HashStr(path.given);
    std::vector<std::pair<std::unique_ptr<CommitContext>, decltype(want)>> kept;
    for (int k = 0; k < builds; k++) {
        int n = (int)c.rng.Below(8);
        for (int i = 0; i < n; i++) {
            int op = (int)c.rng.Below(6);
            CommitContextBuilder* r = nullptr;
            if (op == 0) { Opts o = RandomOpts(c); r = &b.SetOptions(o); want.opts = o; }
            else if (op == 1) { std::string key = c.rng.Of<std::string>({"a", "b", "c"}), v = std::to_string(c.rng.Below(50)); r = &b.AddOption(key, v); want.opts[key] = v; }
            else if (op == 2) { bool v = c.rng.Chance(0.5); r = &b.IgnoreEmptyCommit(v); want.ignore = v; }
            else if (op == 3) { bool v = c.rng.Chance(0.5); r = &b.UseRESTCatalogCommit(v); want.rest = v; }
            else if (op == 4) { auto p = Pool((int)c.rng.Below(3)); r = &b.WithMemoryPool(p); want.pool = p; }
            else { auto e = Exec((int)c.rng.Below(3)); r = &b.WithExecutor(e); want.exec = e; }
            c.Op(Fmt("op %d", op), true);
            sig = vf::Mix(sig ^ op);
            VF_EXPECT(r == &b, "chain", "a setter returned another builder");
        }
        auto ctx = b.Finish();
        c.Op("finish " + path.given, true);
        VF_EXPECT(ctx.ok() == path.ok, "finish", "path '%s': %s", path.given.c_str(), ctx.status().ToString().c_str());
        if (!ctx.ok()) continue;  // settings are kept for a further attempt or dropped; not judged
        kept.emplace_back(std::move(ctx).value(), want);
        want = {};
    }
    for (auto& kv : kept) {
        auto& x = *kv.first;
        auto& w = kv.second;
        VF_EXPECT(x.GetRootPath() == path.want, "root-path", "'%s' became '%s'", path.given.c_str(), x.GetRootPath().c_str());
        VF_EXPECT(x.GetCommitUser() == user, "commit-user", "user '%s' became '%s'", user.c_str(), x.GetCommitUser().c_str());
        VF_EXPECT(x.IgnoreEmptyCommit() == w.ignore, "ignore-empty", "expected %d", w.ignore);
        VF_EXPECT(x.UseRESTCatalogCommit() == w.rest, "rest-commit", "expected %d", w.rest);
        VF_EXPECT(x.GetOptions() == w.opts, "options", "%zu options instead of %zu, or other values", x.GetOptions().size(), w.opts.size());
        VF_EXPECT(w.pool ? x.GetMemoryPool() == w.pool : (x.GetMemoryPool() && x.GetMemoryPool() == GetDefaultPool()), "pool", "another memory pool");
        VF_EXPECT(x.GetExecutor() != nullptr, "executor-missing", "no executor");
        if (w.exec) VF_EXPECT(x.GetExecutor() == w.exec, "executor", "another executor");
        else for (int i = 0; i < 3; i++) VF_EXPECT(x.GetExecutor() != Exec(i), "executor-left-over", "an executor from an earlier build");
    }
    c.Saw(sig);
}

VF_SCENARIO(scan, 8000, 80000) {
    PathCase path = RandomPath(c);
    ScanContextBuilder b(path.given);
    struct Want {
        Opts opts; bool streaming = false; std::optional<int32_t> limit, bucket;
        std::vector<Opts> parts; std::shared_ptr<Predicate> pred; std::shared_ptr<GlobalIndexResult> glo;
        std::shared_ptr<VectorSearch> vec; std::shared_ptr<MemoryPool> pool; std::shared_ptr<Executor> exec;
    } want;
    std::vector<std::pair<std::unique_ptr<ScanContext>, Want>> kept;
    int builds = (int)c.rng.Range(1, 4);
    uint64_t sig = vf::HashStr(path.given);
    for (int k = 0; k < builds; k++) {
        int n = (int)c.rng.Below(12);
        for (int i = 0; i < n; i++) {
            int op = (int)c.rng.Below(11);
            ScanContextBuilder* r = nullptr;
            switch (op) {
                case 0: { Opts o = RandomOpts(c); r = &b.SetOptions(o); want.opts = o; break; }
                case 1: { std::string key = c.rng.Of<std::string>({"a", "b", "c"}), v = std::to_string(c.rng.Below(50)); r = &b.AddOption(key, v); want.opts[key] = v; break; }
                case 2: { bool v = c.rng.Chance(0.5); r = &b.WithStreamingMode(v); want.streaming = v; break; }
                case 3: { int32_t v = (int32_t)c.rng.Of<int64_t>({0, 1, 7, 2147483647}); r = &b.SetLimit(v); want.limit = v; break; }
                case 4: { int32_t v = (int32_t)c.rng.Of<int64_t>({0, 1, 7, 2147483647}); r = &b.SetBucketFilter(v); want.bucket = v; break; }
                case 5: { std::vector<Opts> p(c.rng.Below(3)); for (auto& o : p) o = RandomOpts(c); r = &b.SetPartitionFilter(p); want.parts = p; break; }
                case 6: { auto p = c.rng.Chance(0.1) ? nullptr : PredicateBuilder::Equal(0, "f", FieldType::INT, Literal((int32_t)c.rng.Below(100))); r = &b.SetPredicate(p); want.pred = p; break; }
                case 7: { std::shared_ptr<GlobalIndexResult> g = std::make_shared<BitmapGlobalIndexResult>([]() -> Result<RoaringBitmap64> { return RoaringBitmap64(); }); r = &b.SetGlobalIndexResult(g); want.glo = g; break; }
                case 8: { auto v = std::make_shared<VectorSearch>("f", 3, std::vector<float>{1.f}, nullptr, nullptr); r = &b.SetVectorSearch(v); want.vec = v; break; }
                case 9: { auto p = Pool((int)c.rng.Below(3)); r = &b.WithMemoryPool(p); want.pool = p; break; }
                default: { auto e = Exec((int)c.rng.Below(3)); r = &b.WithExecutor(e); want.exec = e; }
            }
            c.Op(Fmt("op %d", op), true);
            sig = vf::Mix(sig ^ op);
            VF_EXPECT(r == &b, "chain", "a setter returned another builder");
        }
        auto ctx = b.Finish();
        c.Op("finish " + path.given, true);
        VF_EXPECT(ctx.ok() == path.ok, "finish", "path '%s': %s", path.given.c_str(), ctx.status().ToString().c_str());
        if (!ctx.ok()) continue;
        kept.emplace_back(std::move(ctx).value(), want);
        want = {};
    }
    for (auto& kv : kept) {
        auto& x = *kv.first;
        auto& w = kv.second;
        VF_EXPECT(x.GetPath() == path.want, "path", "'%s' became '%s'", path.given.c_str(), x.GetPath().c_str());
        VF_EXPECT(x.IsStreamingMode() == w.streaming, "streaming", "expected %d", w.streaming);
        VF_EXPECT(x.GetLimit() == w.limit, "limit", "limit is %d, expected %d", x.GetLimit().value_or(-1), w.limit.value_or(-1));
        VF_EXPECT(x.GetOptions() == w.opts, "options", "%zu options instead of %zu, or other values", x.GetOptions().size(), w.opts.size());
        VF_EXPECT(x.GetGlobalIndexResult() == w.glo, "global-index", "another global index result");
        auto f = x.GetScanFilters();
        VF_EXPECT(f != nullptr, "filters", "no filters");
        VF_EXPECT(f->GetPredicate() == w.pred, "predicate", "another predicate");
        VF_EXPECT(f->GetVectorSearch() == w.vec, "vector-search", "another vector search");
        VF_EXPECT(f->GetBucketFilter() == w.bucket, "bucket", "bucket is %d, expected %d", f->GetBucketFilter().value_or(-1), w.bucket.value_or(-1));
        VF_EXPECT(f->GetPartitionFilters() == w.parts, "partitions", "other partition filters");
        VF_EXPECT(w.pool ? x.GetMemoryPool() == w.pool : (x.GetMemoryPool() && x.GetMemoryPool() == GetDefaultPool()), "pool", "another memory pool");
        VF_EXPECT(x.GetExecutor() != nullptr, "executor-missing", "no executor");
        if (w.exec) VF_EXPECT(x.GetExecutor() == w.exec, "executor", "another executor");
        else for (int i = 0; i < 3; i++) VF_EXPECT(x.GetExecutor() != Exec(i), "executor-left-over", "an executor from an earlier build");
    }
    c.Saw(sig);
}

VF_SCENARIO(plan, 20000, 200000) {
    std::optional<int64_t> id;
    if (c.rng.Chance(0.8)) id = (int64_t)c.rng.Edgy64();
    std::vector<std::shared_ptr<Split>> splits(c.rng.Below(6));
    for (auto& s : splits) s = std::make_shared<FakeSplit>();
    if (splits.size() > 1 && c.rng.Chance(0.3)) splits[0] = splits.back();
    auto copy = splits;
    PlanImpl p(id, splits);
    splits.clear();
    c.Op(Fmt("plan %lld %zu", (long long)id.value_or(-7), copy.size()), true);
    VF_EXPECT(p.SnapshotId() == id, "plan-snapshot", "another snapshot");
    VF_EXPECT(p.Splits() == copy, "plan-splits", "other splits");
    auto e = PlanImpl::EmptyPlan();
    VF_EXPECT(e && !e->SnapshotId().has_value() && e->Splits().empty(), "empty-plan", "the empty plan is not empty");
    c.Saw((uint64_t)id.value_or(0) ^ copy.size());
}
