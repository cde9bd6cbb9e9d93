// Append tables: every snapshot of a history of commits shows exactly the rows the history gives it.
#include "world.h"

#include "paimon/file_store_commit.h"
using namespace world;

namespace {
Opts Base(Case& c) {
    Opts o;
    if (c.rng.Chance(0.1)) o["snapshot.num-retained.min"] = "100000";
    return o;
}

std::optional<int64_t> Watermark(Case& c) {
    return c.rng.Chance(0.3) ? std::optional<int64_t>(c.rng.Range(0, 1000)) : std::nullopt;
}

struct Run {
    World w;
    std::vector<std::unique_ptr<World::Writer>> writers;
    std::map<std::string, int64_t> ids;          // next identifier per user
    std::map<std::string, std::vector<Change>> done;  // committed in order
    Case& c;
    explicit Run(Case& cc) : w(cc), c(cc) {}

    std::unique_ptr<FileStoreCommit> Commit(const std::string& user, bool ignore_empty) {
        auto r = w.t->NewCommit(user, ignore_empty);
        VF_EXPECT(r.ok(), "commit-create", "%s", S(r.status()).c_str());
        return std::move(r).value();
    }
    Change WriteNew(const std::string& user) {
        World::Writer* wr = nullptr;
        std::unique_ptr<World::Writer> own;
        bool streaming = c.rng.Chance(0.5);
        if (streaming) {
            for (auto& x : writers) if (x->user == user) wr = x.get();
        }
        if (!wr) {
            auto r = w.Open(user, streaming);
            VF_EXPECT(r.ok(), "write-create", "%s", S(r.status()).c_str());
            own = std::move(r).value();
            wr = own.get();
        }
        wr->next_identifier = ids[user];
        if (!c.rng.Chance(0.1)) {
            Status s = w.WriteSome(*wr);
            VF_EXPECT(s.ok(), "write", "%s", S(s).c_str());
        }
        auto ch = w.Prepare(*wr);
        VF_EXPECT(ch.ok(), "prepare", "%s", S(ch.status()).c_str());
        ids[user]++;
        if (own && streaming && writers.size() < 3) writers.push_back(std::move(own));
        else if (own) {
            Status s = own->write->Close();
            VF_EXPECT(s.ok(), "write-close", "%s", S(s).c_str());
        }
        return ch.value();
    }
    void Step() {
        std::string user = c.rng.Of<std::string>({"u1", "u2", "u3"});
        if (!ids.count(user)) ids[user] = c.rng.Range(0, 5);
        bool ignore_empty = c.rng.Chance(0.6);
        auto wm = Watermark(c);
        switch (c.rng.Below(10)) {
            case 0:
            case 1:
            case 2:
            case 3: {  // plain commit
                Change ch = WriteNew(user);
                auto cm = Commit(user, ignore_empty);
                Status s = cm->Commit(ch.messages, ch.identifier, wm);
                VF_EXPECT(s.ok(), "commit", "%s", S(s).c_str());
                c.Op(Fmt("%s commits %zu rows as %lld", user.c_str(), ch.rows.size(), (long long)ch.identifier), true);
                if (!ch.rows.empty() || !ignore_empty) w.Applied(w.Plus(ch.rows), user, ch.identifier, "APPEND", wm);
                if (!ch.rows.empty()) done[user].push_back(ch);
                break;
            }
            case 4:
            case 5: {  // several identifiers, some of them already committed
                std::map<int64_t, std::vector<std::shared_ptr<CommitMessage>>> m;
                std::vector<Change> fresh;
                int64_t user_latest = -1;
                for (auto& kv : w.infos) if (kv.second.user == user) user_latest = kv.second.identifier;
                for (auto& ch : done[user]) if (c.rng.Chance(0.5)) m[ch.identifier] = ch.messages;
                int n = c.rng.Range(0, 3);
                for (int i = 0; i < n; i++) {
                    Change ch = WriteNew(user);
                    m[ch.identifier] = ch.messages;
                    fresh.push_back(ch);
                }
                auto cm = Commit(user, ignore_empty);
                auto r = cm->FilterAndCommit(m, wm);
                VF_EXPECT(r.ok(), "filter-and-commit", "%s", S(r.status()).c_str());
                int expect = 0;
                for (auto& ch : fresh) if (ch.identifier > user_latest) expect++;
                VF_EXPECT(r.value() == expect, "filter-count", "%d committed, expected %d", (int)r.value(), expect);
                c.Op(Fmt("%s filter-commits %zu identifiers, %d new", user.c_str(), m.size(), expect), true);
                for (auto& ch : fresh) {
                    if (!ch.rows.empty() || !ignore_empty) w.Applied(w.Plus(ch.rows), user, ch.identifier, "APPEND", wm);
                    if (!ch.rows.empty()) done[user].push_back(ch);
                }
                break;
            }
            case 6:
            case 7: {  // overwrite
                Change ch = WriteNew(user);
                auto cm = Commit(user, ignore_empty);
                std::vector<Opts> filters;
                if (!w.part_keys.empty() && c.rng.Chance(0.7)) filters = w.RandomPartFilters();
                bool inside = true;
                for (auto& r : ch.rows) inside = inside && w.Matches(r.part, filters);
                if (!inside) {  // rows outside the overwritten partitions are refused
                    State before = w.Current();
                    Status s = cm->Overwrite(filters, ch.messages, ch.identifier, wm);
                    c.Op(Fmt("%s overwrites with rows outside: %d", user.c_str(), (int)s.ok()), true);
                    if (s.ok()) {
                        State st = w.Without(filters);
                        st.insert(st.end(), ch.rows.begin(), ch.rows.end());
                        w.Applied(st, user, ch.identifier, "OVERWRITE", wm);
                    }
                    break;
                }
                Status s = Status::OK();
                int mode = c.rng.Below(3);
                if (mode) s = cm->Overwrite(filters, ch.messages, ch.identifier, wm);
                else {
                    auto r = cm->FilterAndOverwrite(filters, ch.messages, ch.identifier, wm);
                    s = r.status();
                }
                VF_EXPECT(s.ok(), "overwrite", "%s", S(s).c_str());
                State st = w.Without(filters);
                c.Op(Fmt("%s overwrites %zu partition filters, %zu -> %zu rows kept, %zu new", user.c_str(), filters.size(), w.Current().size(), st.size(), ch.rows.size()), true);
                st.insert(st.end(), ch.rows.begin(), ch.rows.end());
                w.Applied(st, user, ch.identifier, "OVERWRITE", wm);
                break;
            }
            case 8: {  // drop partitions
                if (w.part_keys.empty()) break;
                auto filters = w.RandomPartFilters();
                auto cm = Commit(user, ignore_empty);
                int64_t id = ids[user]++;
                Status s = cm->DropPartition(filters, id);
                VF_EXPECT(s.ok(), "drop-partition", "%s", S(s).c_str());
                State st = w.Without(filters);
                c.Op(Fmt("%s drops %zu partitions: %zu -> %zu rows", user.c_str(), filters.size(), w.Current().size(), st.size()), true);
                w.Applied(st, user, id, "OVERWRITE", std::nullopt);
                break;
            }
            default:
                if (w.latest) w.CheckRead(c.rng.Range(1, w.latest), false);
        }
    }
};
}  // namespace

VF_SCENARIO(history, 300, 6000) {
    Run r(c);
    r.w.Create(Base(c));
    int n = c.rng.Range(2, 10);
    for (int i = 0; i < n; i++) {
        r.Step();
        c.Saw(vf::Mix(r.w.latest * 1000 + r.w.Current().size()));
    }
    for (auto& x : r.writers) {
        Status s = x->write->Close();
        VF_EXPECT(s.ok(), "write-close", "%s", S(s).c_str());
    }
    r.w.CheckHistory(true);
}
