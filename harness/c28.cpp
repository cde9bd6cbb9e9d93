// Commits under I/O failures and under rival committers: a snapshot is there completely or not at
// all, and every change is in the table exactly once after its retry.
#include <unistd.h>

#include <atomic>
#include <mutex>
#include <thread>

#include "world.h"
using namespace world;

namespace {
// Counts the operations and fails from, or only at, the chosen one.
struct Fault {
    std::atomic<int64_t> n{0};
    int64_t at = -1;
    bool forever = false, after = false;
    std::atomic<int> fired{0};
    std::mutex m;
    std::string where;
    Status operator()(const tab::FsEvent& e) {
        if (e.after != after) return Status::OK();
        int64_t i = ++n;
        if (at > 0 && (i == at || (forever && i > at))) {
            if (fired++ == 0) {
                std::lock_guard<std::mutex> l(m);
                where = Fmt("%s%s %s", after ? "after " : "", e.op, fs::path(e.path).filename().string().c_str());
            }
            return Status::IOError("injected failure");
        }
        return Status::OK();
    }
};
std::shared_ptr<Fault> Arm(int64_t at, bool forever, bool after) {
    auto f = std::make_shared<Fault>();
    f->at = at;
    f->forever = forever;
    f->after = after;
    tab::SetFsHook([f](const tab::FsEvent& e) { return (*f)(e); });
    return f;
}
struct Disarm {
    ~Disarm() { tab::SetFsHook(nullptr); }
};
}  // namespace

VF_SCENARIO(faults, 240, 3000) {
    Disarm d;
    World w(c);
    w.Create({{"file-system", "vfs"}});
    std::map<std::string, int64_t> ids;
    int64_t span_write = 40, span_commit = 60, span_read = 40;
    int steps = c.rng.Range(3, 7);
    for (int i = 0; i < steps; i++) {
        std::string user = c.rng.Of<std::string>({"u1", "u2"});
        if (!ids.count(user)) ids[user] = 1;
        bool calm = i == 0 && c.rng.Chance(0.5);
        // write and prepare, perhaps failing
        Change ch;
        bool prepared = false;
        {
            auto f = Arm(!calm && c.rng.Chance(0.3) ? c.rng.Range(1, span_write) : -1, c.rng.Chance(0.5), c.rng.Chance(0.4));
            auto wr = w.Open(user, c.rng.Chance(0.5));
            Status s = wr.status();
            if (s.ok()) {
                wr.value()->next_identifier = ids[user];
                s = w.WriteSome(*wr.value(), 3, 5);
                if (s.ok()) {
                    auto r = w.Prepare(*wr.value());
                    s = r.status();
                    if (s.ok()) {
                        ch = r.value();
                        prepared = true;
                    }
                }
                (void)wr.value()->write->Close();
            }
            VF_EXPECT(prepared || f->fired > 0, "write", "nothing failed, but: %s", S(s).c_str());
            if (f->at < 0) span_write = f->n;
            if (f->fired) c.Op(Fmt("write: failure at %s (%s)", f->where.c_str(), prepared ? "survived" : "reported"), true);
            tab::SetFsHook(nullptr);
        }
        if (!prepared) {
            w.CheckHistory(c.rng.Chance(0.3));
            continue;
        }
        ids[user]++;
        bool overwrite = c.rng.Chance(0.25);
        std::vector<Opts> filters;  // whole table
        State next = overwrite ? State(ch.rows) : w.Plus(ch.rows);
        bool done = false;
        int64_t before = w.latest;
        for (int attempt = 0; !done; attempt++) {
            VF_EXPECT(attempt < 20, "retry", "the change is still not committed");
            bool fault = !calm && attempt < 4 && c.rng.Chance(0.7);
            auto f = Arm(fault ? c.rng.Range(1, span_commit) : -1, c.rng.Chance(0.5), c.rng.Chance(0.4));
            Status s = Status::OK();
            auto cm = w.t->NewCommit(user, true);
            s = cm.status();
            int32_t n = -1;
            if (s.ok()) {
                if (attempt == 0) {
                    s = overwrite ? cm.value()->Overwrite(filters, ch.messages, ch.identifier) : cm.value()->Commit(ch.messages, ch.identifier);
                } else if (overwrite) {
                    auto r = cm.value()->FilterAndOverwrite(filters, ch.messages, ch.identifier);
                    s = r.status();
                    if (s.ok()) n = r.value();
                } else {
                    auto r = cm.value()->FilterAndCommit({{ch.identifier, ch.messages}});
                    s = r.status();
                    if (s.ok()) n = r.value();
                }
            }
            tab::SetFsHook(nullptr);
            if (!fault) span_commit = std::max<int64_t>(10, f->n);
            VF_EXPECT(s.ok() || f->fired > 0, "commit", "nothing failed, but: %s", S(s).c_str());
            auto on_disk = w.SnapshotIdsOnDisk();
            bool there = !on_disk.empty() && on_disk.back() == before + 1;
            VF_EXPECT((int64_t)on_disk.size() == before + there, "snapshot-count", "%zu snapshots after an attempt on %lld", on_disk.size(), (long long)before);
            c.Op(Fmt("%s attempt %d of %zu rows%s: %s%s", overwrite ? "overwrite" : "commit", attempt, ch.rows.size(), f->fired ? (" with failure at " + f->where).c_str() : "", s.ok() ? "ok" : "error", there ? ", snapshot there" : ""), f->fired > 0);
            c.Saw(vf::HashStr(f->where.substr(0, f->where.find('-'))));
            if (s.ok()) VF_EXPECT(there, "lost-commit", "the commit was reported done, but there is no snapshot %lld", (long long)before + 1);
            if (there && w.latest == before) w.Applied(next, user, ch.identifier, overwrite ? "OVERWRITE" : "APPEND", std::nullopt);
            if (s.ok() && n >= 0 && w.latest == before + 1 && attempt > 0) c.Check();
            // whatever happened, the history is intact
            w.CheckHistory(c.rng.Chance(0.2));
            done = s.ok();
            if (!done && c.rng.Chance(0.15) && !there) break;  // given up
        }
        if (w.latest > before && c.rng.Chance(0.3)) {  // one retry too many changes nothing
            auto cm = w.t->NewCommit(user, true);
            VF_EXPECT(cm.ok(), "commit-create", "%s", S(cm.status()).c_str());
            auto r = cm.value()->FilterAndCommit({{ch.identifier, ch.messages}});
            VF_EXPECT(r.ok() && r.value() == 0, "double-commit", "%s", r.ok() ? Fmt("%d committed again", r.value()).c_str() : S(r.status()).c_str());
            w.CheckHistory(false);
        }
        // a read hit by a failure reports it or returns the right rows
        if (w.latest && c.rng.Chance(0.5)) {
            auto f = Arm(c.rng.Range(1, span_read), false, c.rng.Chance(0.3));
            auto r = w.t->ReadSnapshot(c.rng.Chance(0.5) ? std::optional<int64_t>(w.latest) : std::nullopt);
            tab::SetFsHook(nullptr);
            span_read = std::max<int64_t>(10, f->n);
            VF_EXPECT(r.ok() || f->fired > 0, "read", "nothing failed, but: %s", S(r.status()).c_str());
            c.Op(Fmt("read with failure at %s: %s", f->where.c_str(), r.ok() ? "ok" : "error"));
            if (r.ok()) w.Compare(r.value(), w.Current(), {}, "read with a failure at " + f->where, false);
        }
    }
    w.CheckHistory(true);
}

// Users commit at the same time, each retrying its own changes; readers look on.
VF_SCENARIO(rivals, 80, 1000) {
    Disarm d;
    World w(c);
    w.Create({{"file-system", "vfs"}, {"commit.max-retries", "100"}});
    int users = c.rng.Range(2, 4), rounds = c.rng.Range(1, 4), readers = c.rng.Below(2);
    struct Done {
        std::vector<Rec> rows;
        bool overwrite;
        std::vector<Opts> filters;
    };
    std::map<std::pair<std::string, int64_t>, Done> changes;
    std::vector<std::vector<Change>> plan(users);
    for (int u = 0; u < users; u++) {
        for (int k = 0; k < rounds; k++) {
            auto wr = w.Open(Fmt("u%d", u), false);
            VF_EXPECT(wr.ok(), "write-create", "%s", S(wr.status()).c_str());
            wr.value()->next_identifier = k + 1;
            Status s = w.WriteSome(*wr.value(), 2, 4);
            VF_EXPECT(s.ok(), "write", "%s", S(s).c_str());
            auto ch = w.Prepare(*wr.value());
            VF_EXPECT(ch.ok(), "prepare", "%s", S(ch.status()).c_str());
            (void)wr.value()->write->Close();
            Done dn;
            dn.rows = ch.value().rows;
            dn.overwrite = c.rng.Chance(0.25);
            changes[{Fmt("u%d", u), k + 1}] = dn;
            plan[u].push_back(ch.value());
        }
    }
    std::atomic<uint64_t> jitter{c.rng.U64()};
    tab::SetFsHook([&jitter](const tab::FsEvent& e) {
        bool key = e.path.find("/snapshot/") != std::string::npos;
        uint64_t r = vf::Mix(jitter.fetch_add(0x9e3779b97f4a7c15ull));
        if (key && r % 3 == 0) usleep(r / 8 % 3000);
        else if (r % 16 == 0) sched_yield();
        return Status::OK();
    });
    std::vector<std::string> errors(users + readers);
    struct Seen { int64_t id; std::vector<Row> rows; };
    std::vector<std::vector<Seen>> seen(readers);
    std::atomic<int> running{users}, go{0};
    std::atomic<int> retries{0};
    std::vector<std::thread> th;
    for (int u = 0; u < users; u++) {
        th.emplace_back([&, u] {
            go++;
            while (go < users) sched_yield();
            std::string user = Fmt("u%d", u);
            for (auto& ch : plan[u]) {
                auto& dn = changes.at({user, ch.identifier});
                bool ok = false;
                for (int a = 0; a < 200 && !ok; a++) {
                    auto cm = w.t->NewCommit(user, true);
                    if (!cm.ok()) continue;
                    if (dn.overwrite) ok = a == 0 ? cm.value()->Overwrite(dn.filters, ch.messages, ch.identifier).ok() : cm.value()->FilterAndOverwrite(dn.filters, ch.messages, ch.identifier).ok();
                    else ok = a == 0 ? cm.value()->Commit(ch.messages, ch.identifier).ok() : cm.value()->FilterAndCommit({{ch.identifier, ch.messages}}).ok();
                    if (!ok) retries++;
                }
                if (!ok) errors[u] = Fmt("%s could not commit %lld", user.c_str(), (long long)ch.identifier);
            }
            running--;
        });
    }
    for (int r = 0; r < readers; r++) {
        th.emplace_back([&, r] {
            while (running > 0 && seen[r].size() < 40) {
                auto scan = w.t->NewScan(false, {});
                if (!scan.ok()) { errors[users + r] = "scan: " + S(scan.status()); return; }
                auto p = scan.value()->CreatePlan();
                if (!p.ok()) { errors[users + r] = "plan: " + S(p.status()); return; }
                if (!p.value()->SnapshotId()) continue;
                std::vector<Row> rows;
                if (!p.value()->Splits().empty()) {
                    auto got = w.t->Read(p.value()->Splits());
                    if (!got.ok()) { errors[users + r] = "read: " + S(got.status()); return; }
                    rows = got.value();
                }
                seen[r].push_back({*p.value()->SnapshotId(), rows});
            }
        });
    }
    for (auto& t : th) t.join();
    tab::SetFsHook(nullptr);
    for (auto& e : errors) VF_EXPECT(e.empty(), "rival-error", "%s", e.c_str());
    // the order the table settled on gives the states
    auto ids = w.SnapshotIdsOnDisk();
    VF_EXPECT((int)ids.size() == users * rounds, "exactly-once", "%zu snapshots for %d changes", ids.size(), users * rounds);
    std::map<std::string, int64_t> last;
    for (size_t i = 0; i < ids.size(); i++) {
        VF_EXPECT(ids[i] == (int64_t)i + 1, "snapshot-gap", "snapshot %lld at place %zu", (long long)ids[i], i + 1);
        rapidjson::Document doc;
        doc.Parse(Slurp(w.TablePath() + "/snapshot/snapshot-" + std::to_string(ids[i])).c_str());
        VF_EXPECT(!doc.HasParseError() && doc.IsObject(), "snapshot-file", "snapshot %lld is not readable", (long long)ids[i]);
        std::string user = doc["commitUser"].GetString();
        int64_t id = doc["commitIdentifier"].GetInt64();
        auto it = changes.find({user, id});
        VF_EXPECT(it != changes.end() && id > last[user], "exactly-once", "snapshot %lld holds %s/%lld again or out of order", (long long)ids[i], user.c_str(), (long long)id);
        last[user] = id;
        State st = it->second.overwrite ? w.Without(it->second.filters) : w.Current();
        st.insert(st.end(), it->second.rows.begin(), it->second.rows.end());
        w.Applied(st, user, id, it->second.overwrite ? "OVERWRITE" : "APPEND", std::nullopt);
    }
    c.Op(Fmt("%d users, %d changes each, %d retries, %d readers", users, rounds, retries.load(), readers), true);
    c.Saw(vf::Mix(retries.load() * 64 + users * 8 + rounds));
    for (auto& s : seen) {
        int64_t prev = 0;
        for (auto& x : s) {
            VF_EXPECT(w.snaps.count(x.id), "reader-snapshot", "a reader saw snapshot %lld", (long long)x.id);
            VF_EXPECT(x.id >= prev, "reader-order", "a reader saw snapshot %lld after %lld", (long long)x.id, (long long)prev);
            prev = x.id;
            w.Compare(x.rows, w.snaps.at(x.id), {}, Fmt("reader of snapshot %lld", (long long)x.id), false);
        }
    }
    w.CheckHistory(true);
}
