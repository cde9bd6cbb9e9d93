// Streaming scans: each appended row is delivered once, in commit order, from the point the startup mode names.
#include <unistd.h>

#include "grow.h"
using namespace world;

namespace {
struct Stream {
    int n;
    std::string mode;
    int64_t from = 0;
    std::vector<Opts> filters;
    std::optional<int> bucket;
    std::unique_ptr<TableScan> scan;
    bool started = false, empty_at_start = false;
    std::optional<int64_t> next;
    int64_t passed = 0;
    std::set<int64_t> tried;  // latest snapshots at first plans that failed
    bool dead = false;  // its next snapshot is gone
};
struct Follow {
    Case& c;
    World w;
    std::unique_ptr<Grower> g;
    std::map<int64_t, State> delta;  // rows an APPEND snapshot added
    std::vector<Stream> streams;
    int count = 0;
    explicit Follow(Case& cc) : c(cc), w(cc) {}

    void Grow() {
        if (c.rng.Chance(0.15)) {  // a commit without rows
            Status s = g->Commit("e")->Commit({}, g->ids["e"]++);
            VF_EXPECT(s.ok(), "commit", "%s", S(s).c_str());
            w.Applied(w.Current(), "e", g->ids["e"] - 1, "APPEND", std::nullopt);
            c.Op("empty commit", true);
        } else {
            size_t before = w.Current().size();
            g->Step();
            if (w.infos[w.latest].kind == "APPEND") delta[w.latest] = State(w.snaps[w.latest].begin() + before, w.snaps[w.latest].end());
        }
    }
    int64_t Earliest() const { return w.snaps.empty() ? 0 : w.snaps.begin()->first; }
    void Expire() {
        if (!w.latest) return;
        ::usleep(3000);
        int keep = c.rng.Range(1, 3);
        g->commit_options = {{"snapshot.num-retained.min", std::to_string(keep)}, {"snapshot.num-retained.max", std::to_string(keep)}, {"snapshot.time-retained", "1 ms"}};
        auto r = g->Commit("x")->Expire();
        g->commit_options.clear();
        VF_EXPECT(r.ok(), "expire", "%s", S(r.status()).c_str());
        auto ids = w.SnapshotIdsOnDisk();
        VF_EXPECT(!ids.empty() && ids.back() == w.latest, "latest-expired", "snapshot %lld is gone", (long long)w.latest);
        while (w.snaps.begin()->first < ids.front()) w.snaps.erase(w.snaps.begin());
        c.Op(Fmt("expire: %lld to %lld stay", (long long)ids.front(), (long long)w.latest), true);
    }
    void Start(const std::string& mode, int64_t from) {
        Stream s;
        s.n = count++;
        s.mode = mode;
        s.from = from;
        if (!w.part_keys.empty() && c.rng.Chance(0.25)) s.filters = w.RandomPartFilters();
        if (w.buckets > 0 && c.rng.Chance(0.2)) s.bucket = c.rng.Below(w.buckets);
        Opts o;
        bool plain = c.rng.Chance(0.3);
        if (mode != "latest-full" && mode != "from-snapshot") plain = false;
        if (!plain) o["scan.mode"] = mode;
        if (mode.rfind("from-", 0) == 0) o["scan.snapshot-id"] = std::to_string(from);
        auto r = w.t->NewScan(true, o, nullptr, s.filters, s.bucket);
        VF_EXPECT(r.ok(), "scan-create", "%s: %s", mode.c_str(), S(r.status()).c_str());
        s.scan = std::move(r).value();
        c.Op(Fmt("stream %d starts %s%s %lld", s.n, mode.c_str(), plain ? " by default" : "", (long long)from), true);
        streams.push_back(std::move(s));
    }
    State Only(const Stream& s, const State& all) const {
        State out;
        for (auto& r : all) if (w.Matches(r.part, s.filters) && (!s.bucket || r.bucket == *s.bucket)) out.push_back(r);
        return out;
    }
    void Expect(const Stream& s, Plan& p, std::optional<int64_t> id, const State& rows) {
        std::string what = Fmt("stream %d (%s) at snapshot %lld", s.n, s.mode.c_str(), id ? (long long)*id : -1);
        VF_EXPECT(p.SnapshotId() == id, "plan-snapshot", "%s: planned %lld", what.c_str(), p.SnapshotId() ? (long long)*p.SnapshotId() : -1);
        auto splits = p.Splits();
        for (auto& sp : splits) {
            if (!c.rng.Chance(0.3)) continue;
            auto bytes = Split::Serialize(sp, w.pool);
            VF_EXPECT(bytes.ok(), "split-serialize", "%s", S(bytes.status()).c_str());
            auto back = Split::Deserialize(bytes.value().data(), bytes.value().size(), w.pool);
            VF_EXPECT(back.ok(), "split-deserialize", "%s", S(back.status()).c_str());
            sp = back.value();
        }
        std::vector<Row> got;
        if (!splits.empty()) {
            auto r = w.t->Read(splits);
            VF_EXPECT(r.ok(), "read", "%s: %s", what.c_str(), S(r.status()).c_str());
            got = r.value();
        }
        w.Compare(got, Only(s, rows), {}, what, true);
        c.Op(Fmt("stream %d: snapshot %lld, %zu rows in %zu splits", s.n, id ? (long long)*id : -1, got.size(), splits.size()), !got.empty());
    }
    int64_t Following(int64_t n) {
        while (n <= w.latest && n >= Earliest() && w.infos[n].kind != "APPEND") n++;
        return n;
    }
    // One plan of the stream, against what the history says is next.
    void Poll(Stream& s) {
        if (s.dead) return;
        bool first = !s.started;
        if (first) s.empty_at_start = w.latest == 0;
        bool fail = c.rng.Chance(0.2) && !(first && s.mode == "latest");
        int at = c.rng.Below(10), seen = 0;
        bool hit = false;
        std::mutex mu;
        if (fail) tab::SetFsHook([&](const tab::FsEvent& e) {
            std::lock_guard<std::mutex> l(mu);
            if (!e.after && seen++ == at) {
                hit = true;
                return Status::IOError("injected");
            }
            return Status::OK();
        });
        Result<std::shared_ptr<Plan>> r = s.scan->CreatePlan();
        if (fail) tab::SetFsHook(nullptr);
        s.started = true;
        if (hit && !r.ok()) {
            if (!s.next) s.tried.insert(w.latest);
            else if (*s.next >= Earliest()) s.passed = std::max(s.passed, Following(*s.next));
            c.Op(Fmt("stream %d: plan fails on an injected fault", s.n), true);
            return;  // and nothing may have been skipped
        }
        auto must_fail = [&](const char* why) {
            VF_EXPECT(!r.ok(), "plan-not-refused", "stream %d (%s): %s and the plan succeeds", s.n, s.mode.c_str(), why);
            c.Op(Fmt("stream %d: %s", s.n, why), true);
        };
        auto plan = [&]() -> Plan& {
            VF_EXPECT(r.ok(), "scan-plan", "stream %d (%s %lld) next %lld of %lld: %s", s.n, s.mode.c_str(), (long long)s.from, s.next ? (long long)*s.next : -1, (long long)w.latest, S(r.status()).c_str());
            return *r.value();
        };
        if (!s.next) {
            if (!w.latest) return Expect(s, plan(), std::nullopt, {});
            if (s.mode == "latest-full") {
                // a first plan that failed may have settled on what was the latest then
                bool lost = !s.tried.empty() && *s.tried.rbegin() > 0 && *s.tried.begin() < Earliest();
                if (lost && !r.ok()) {
                    s.dead = true;
                    return;
                }
                int64_t id = w.latest;
                if (plan().SnapshotId() && s.tried.count(*plan().SnapshotId()) && w.snaps.count(*plan().SnapshotId())) id = *plan().SnapshotId();
                Expect(s, plan(), id, w.snaps.at(id));
                s.next = id + 1;
            } else if (s.mode == "latest") {
                Expect(s, plan(), std::nullopt, {});
                s.next = s.empty_at_start ? 1 : w.latest + 1;
            } else if (s.mode == "from-snapshot") {
                Expect(s, plan(), std::nullopt, {});
                s.next = std::max(s.from, Earliest());
            } else {
                int64_t id = std::max(s.from, Earliest());
                if (id > w.latest) return must_fail("the snapshot to start from is not there");
                Expect(s, plan(), id, w.snaps.at(id));
                s.next = id + 1;
            }
            return;
        }
        // a plan that failed may have left snapshots without anything to stream behind
        if (*s.next < Earliest() && s.passed >= Earliest() && r.ok()) s.next = s.passed;
        int64_t n = Following(*s.next);
        if (n < Earliest()) {
            must_fail("the next snapshot has expired");
            s.dead = true;
            return;
        }
        if (n > w.latest + 1) return must_fail("the next snapshot is too far ahead");
        s.next = n;
        if (n == w.latest + 1) return Expect(s, plan(), std::nullopt, {});
        Expect(s, plan(), n, delta[n]);
        s.next = n + 1;
    }
};
}  // namespace

VF_SCENARIO(stream, 260, 6000) {
    Follow f(c);
    f.w.Create({{"file-system", "vfs"}});
    f.g = std::make_unique<Grower>(f.w);
    auto start = [&] {
        std::string mode = c.rng.Of<std::string>({"latest-full", "latest", "from-snapshot", "from-snapshot-full"});
        f.Start(mode, mode[0] == 'f' ? c.rng.Range(1, f.w.latest + 3) : 0);
    };
    start();
    int n = c.rng.Range(4, 14);
    for (int i = 0; i < n; i++) {
        switch (c.rng.Below(12)) {
            case 0: case 1: start(); break;
            case 2: f.Expire(); break;
            case 3: case 4: case 5: case 6: f.Grow(); break;
            default: {
                auto& s = f.streams[c.rng.Below(f.streams.size())];
                int k = c.rng.Range(1, 3);
                while (k--) f.Poll(s);
            }
        }
        c.Saw(vf::Mix(f.w.latest * 1000 + f.w.Current().size()));
    }
    for (auto& s : f.streams)  // everything there is, and one plan more
        for (int64_t k = 0; k < f.w.latest + 3; k++) f.Poll(s);
    auto bad = fsguard::TakeRefused();
    VF_EXPECT(bad.empty(), "escaped", "a destructive call left the table's scratch directory: %s", bad.empty() ? "" : bad[0].c_str());
    if (!c.rng.Chance(0.1)) return;
    // the table is made anew below its streams
    std::error_code ec;
    fs::remove_all(f.w.TablePath() + "/snapshot", ec);
    for (auto& s : f.streams) {
        if (!s.next || *s.next <= 1) continue;
        auto r = s.scan->CreatePlan();
        c.Op(Fmt("stream %d after the snapshots are gone: %s", s.n, r.ok() ? "plan" : "refused"), true);
        VF_EXPECT(!r.ok(), "recreated-not-refused", "stream %d waits for snapshot %lld of a table that has none", s.n, (long long)*s.next);
    }
}
