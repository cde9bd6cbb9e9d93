// Expiring snapshots: what is kept stays whole, what goes is what the options say, and nothing of it stays behind.
#include <unistd.h>

#include "grow.h"
using namespace world;

namespace {
struct Retention {
    int min, max, limit;
    bool by_age;     // everything is old enough
    bool clean_dirs;
    Opts o;
};
Retention Draw(Case& c) {
    Retention p;
    p.min = c.rng.Range(1, 4);
    p.max = p.min + c.rng.Below(4);
    p.limit = c.rng.Of<int>({1, 2, 3, 50});
    p.by_age = c.rng.Chance(0.6);
    p.clean_dirs = c.rng.Chance(0.4);
    p.o["snapshot.num-retained.min"] = std::to_string(p.min);
    p.o["snapshot.num-retained.max"] = std::to_string(p.max);
    p.o["snapshot.expire.limit"] = std::to_string(p.limit);
    p.o["snapshot.time-retained"] = p.by_age ? "1 ms" : "1 h";
    if (p.clean_dirs) p.o["snapshot.clean-empty-directories"] = "true";
    return p;
}
// The first snapshot that stays.
int64_t Keeps(const World& w, const Retention& p) {
    int64_t earliest = w.snaps.begin()->first;
    int64_t must_go = std::max(w.latest - p.max + 1, earliest);      // beyond the most that is kept
    int64_t may_go = std::min(w.latest - p.min + 1, earliest + p.limit);
    int64_t end = p.by_age || must_go >= may_go ? may_go : must_go;
    return std::max(end, earliest);
}
int32_t Expire(World& w, Grower& g, const Retention& p) {
    Case& c = w.c;
    ::usleep(3000);  // older than a millisecond
    g.commit_options = p.o;
    auto r = g.Commit("e")->Expire();
    g.commit_options.clear();
    VF_EXPECT(r.ok(), "expire", "%s", S(r.status()).c_str());
    return r.value();
}
void CheckDisk(World& w, bool clean_dirs) {
    Case& c = w.c;
    auto opened = FilesOpenedByReads(w);
    for (auto& f : FilesOnDisk(w.TablePath())) {
        std::string rel = f.substr(w.TablePath().size());
        if (rel.rfind("/snapshot/", 0) == 0 || rel.rfind("/schema/", 0) == 0) continue;
        VF_EXPECT(opened.count(f), rel.rfind("/manifest/", 0) == 0 ? "manifest-left" : "data-left", "%s belongs to no snapshot that is left", rel.c_str());
    }
    if (!clean_dirs) return;
    for (auto& e : fs::recursive_directory_iterator(w.TablePath()))
        if (e.is_directory()) VF_EXPECT(!fs::is_empty(e.path()), "empty-directory", "%s is left empty", e.path().c_str());
}
void Goes(World& w, int64_t keep) {
    while (!w.snaps.empty() && w.snaps.begin()->first < keep) {
        w.infos.erase(w.snaps.begin()->first);
        w.snaps.erase(w.snaps.begin());
    }
}
}  // namespace

VF_SCENARIO(expire, 240, 4000) {
    World w(c);
    w.Create({{"file-system", "vfs"}});
    Grower g(w);
    bool always_clean = true;
    int rounds = c.rng.Range(1, 4);
    for (int r = 0; r < rounds; r++) {
        int n = c.rng.Range(1, 5);
        for (int i = 0; i < n; i++) g.Step();
        Retention p = Draw(c);
        always_clean = always_clean && p.clean_dirs;
        int64_t keep = Keeps(w, p);
        int64_t gone = keep - w.snaps.begin()->first;
        int32_t said = Expire(w, g, p);
        c.Op(Fmt("expire min %d max %d limit %d %s: %d gone, expected %lld", p.min, p.max, p.limit, p.by_age ? "old" : "young", said, (long long)gone), gone > 0);
        VF_EXPECT(said == gone, "expired-count", "%d snapshots expired, expected %lld", said, (long long)gone);
        Goes(w, keep);
        w.CheckHistory(true);
        CheckDisk(w, always_clean);
    }
    g.Step();
    w.CheckHistory(false);
}

// Deletes may fail and commits may happen in the middle: what is kept stays whole all the same.
VF_SCENARIO(disturbed, 160, 2500) {
    World w(c);
    w.Create({{"file-system", "vfs"}});
    Grower g(w);
    int n = c.rng.Range(3, 8);
    for (int i = 0; i < n; i++) g.Step();
    for (int round = 0; round < 2; round++) {
        Retention p = Draw(c);
        int64_t keep = Keeps(w, p);
        int mode = c.rng.Below(3);
        int64_t at = c.rng.Below(mode == 0 ? 25 : 40), seen = 0;
        double fail = mode == 0 ? c.rng.Of<double>({0.1, 0.5, 1.0}) : 0;
        uint64_t salt = c.rng.U64();
        bool busy = false, done = false;
        std::mutex mu;
        World::Writer* unused = nullptr;
        (void)unused;
        std::thread::id here = std::this_thread::get_id();
        std::vector<std::string> failed;
        auto hook = [&](const tab::FsEvent& e) -> Status {
            std::string op = e.op;
            bool mine = std::this_thread::get_id() == here;
            if (mode == 0) {
                std::lock_guard<std::mutex> l(mu);
                if (op == "delete" && !e.after && vf::Mix(salt + seen++) % 1000 < fail * 1000) return Status::IOError("injected");
                return Status::OK();
            }
            if (!mine || busy || done) return Status::OK();
            if (seen++ != at) return Status::OK();
            busy = true;
            if (mode == 1) g.Step();  // a commit in the middle of the expiry
            busy = false;
            done = true;
            return Status::OK();
        };
        ::usleep(3000);
        if (mode == 2) {
            // an expiry in the middle of a commit
            Change ch = g.WriteNew("u1");
            auto cm = g.Commit("u1");
            g.commit_options = p.o;
            auto ex = g.Commit("e");
            g.commit_options.clear();
            int32_t gone = 0;
            tab::SetFsHook([&](const tab::FsEvent&) -> Status {
                if (busy || done || std::this_thread::get_id() != here || seen++ != at) return Status::OK();
                busy = true;
                auto r = ex->Expire();
                if (r.ok()) gone = r.value();
                busy = false;
                done = true;
                return Status::OK();
            });
            Status s = cm->Commit(ch.messages, ch.identifier);
            tab::SetFsHook(nullptr);
            c.Op(Fmt("expiry at step %lld of a commit: %d gone", (long long)at, gone), true);
            VF_EXPECT(s.ok(), "commit", "%s", S(s).c_str());
            w.Applied(w.Plus(ch.rows), "u1", ch.identifier, "APPEND", std::nullopt);
            Goes(w, w.snaps.begin()->first + gone);
            w.CheckHistory(true);
            continue;
        }
        g.commit_options = p.o;
        auto ex = g.Commit("e");
        g.commit_options.clear();
        tab::SetFsHook(hook);
        auto r = ex->Expire();
        tab::SetFsHook(nullptr);
        c.Op(Fmt("%s expire min %d max %d limit %d: %s", mode == 0 ? "failing" : "overtaken", p.min, p.max, p.limit, r.ok() ? std::to_string(r.value()).c_str() : S(r.status()).c_str()), true);
        if (mode == 1) {
            VF_EXPECT(r.ok(), "expire", "%s", S(r.status()).c_str());
            Goes(w, w.snaps.begin()->first + r.value());
            w.CheckHistory(true);
            continue;
        }
        // under failing deletes snapshots may stay behind, but those to be kept are whole
        Goes(w, keep);
        auto ids = w.SnapshotIdsOnDisk();
        for (auto& kv : w.snaps) VF_EXPECT(std::count(ids.begin(), ids.end(), kv.first), "snapshot-lost", "snapshot %lld was to be kept", (long long)kv.first);
        for (auto& kv : w.snaps) w.CheckRead(kv.first, false);
        w.CheckRead(w.latest, true);
        break;
    }
    auto bad = fsguard::TakeRefused();
    VF_EXPECT(bad.empty(), "escaped", "%s", bad.empty() ? "" : bad[0].c_str());
}
