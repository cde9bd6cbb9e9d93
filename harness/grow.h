// Random commits, overwrites and partition drops on a world, and what is on its disk.
#pragma once
#include "paimon/file_store_commit.h"
#include "world.h"

namespace world {
struct Grower {
    World& w;
    Case& c;
    Opts commit_options;
    std::map<std::string, int64_t> ids;
    std::unique_ptr<World::Writer> kept;  // a writer that lives over several commits
    explicit Grower(World& ww) : w(ww), c(ww.c) {}

    std::unique_ptr<FileStoreCommit> Commit(const std::string& user) {
        auto r = w.t->NewCommit(user, false, commit_options);
        VF_EXPECT(r.ok(), "commit-create", "%s", S(r.status()).c_str());
        return std::move(r).value();
    }
    Change WriteNew(const std::string& user) {
        if (!kept || kept->user != user || c.rng.Chance(0.5)) {
            if (kept) (void)kept->write->Close();
            auto r = w.Open(user, true);
            VF_EXPECT(r.ok(), "write-create", "%s", S(r.status()).c_str());
            kept = std::move(r).value();
        }
        kept->next_identifier = ids[user]++;
        Status s = w.WriteSome(*kept, 3, 5);
        VF_EXPECT(s.ok(), "write", "%s", S(s).c_str());
        auto ch = w.Prepare(*kept);
        VF_EXPECT(ch.ok(), "prepare", "%s", S(ch.status()).c_str());
        return ch.value();
    }
    void Step() {
        std::string user = c.rng.Of<std::string>({"u1", "u2"});
        int what = c.rng.Below(10);
        if (what < 6) {
            Change ch = WriteNew(user);
            Status s = Commit(user)->Commit(ch.messages, ch.identifier);
            VF_EXPECT(s.ok(), "commit", "%s", S(s).c_str());
            c.Op(Fmt("commit of %zu rows", ch.rows.size()), true);
            w.Applied(w.Plus(ch.rows), user, ch.identifier, "APPEND", std::nullopt);
        } else if (what < 9 || w.part_keys.empty()) {
            Change ch = WriteNew(user);
            std::vector<Opts> filters;
            if (!w.part_keys.empty() && c.rng.Chance(0.6)) {
                filters = w.RandomPartFilters();
                for (auto& r : ch.rows) if (!w.Matches(r.part, filters)) filters.push_back(w.PartMap(r.part));
            }
            Status s = Commit(user)->Overwrite(filters, ch.messages, ch.identifier);
            VF_EXPECT(s.ok(), "overwrite", "%s", S(s).c_str());
            State st = w.Without(filters);
            c.Op(Fmt("overwrite: %zu of %zu rows kept, %zu new", st.size(), w.Current().size(), ch.rows.size()), true);
            st.insert(st.end(), ch.rows.begin(), ch.rows.end());
            w.Applied(st, user, ch.identifier, "OVERWRITE", std::nullopt);
        } else {
            auto filters = w.RandomPartFilters();
            int64_t id = ids[user]++;
            Status s = Commit(user)->DropPartition(filters, id);
            VF_EXPECT(s.ok(), "drop-partition", "%s", S(s).c_str());
            State st = w.Without(filters);
            c.Op(Fmt("drop: %zu of %zu rows kept", st.size(), w.Current().size()), true);
            w.Applied(st, user, id, "OVERWRITE", std::nullopt);
        }
    }
    ~Grower() {
        if (kept) (void)kept->write->Close();
    }
};

// Paths below the table of all regular files.
inline std::set<std::string> FilesOnDisk(const std::string& top) {
    std::set<std::string> out;
    std::error_code ec;
    for (auto& e : fs::recursive_directory_iterator(top, ec))
        if (e.is_regular_file()) out.insert(e.path().string());
    return out;
}
// Files a plain full read of every retained snapshot opens.
inline std::set<std::string> FilesOpenedByReads(World& w) {
    std::set<std::string> opened;
    std::mutex mu;
    tab::SetFsHook([&](const tab::FsEvent& e) {
        if (std::string(e.op) == "open" && !e.after) {
            std::lock_guard<std::mutex> g(mu);
            opened.insert(e.path);
        }
        return Status::OK();
    });
    for (auto& kv : w.snaps) {
        auto r = w.t->ReadSnapshot(kv.first);
        if (!r.ok()) tab::SetFsHook(nullptr);
        Case& c = w.c;
        VF_EXPECT(r.ok(), "read", "snapshot %lld: %s", (long long)kv.first, S(r.status()).c_str());
        w.Compare(r.value(), kv.second, {}, Fmt("snapshot %lld", (long long)kv.first), false);
    }
    tab::SetFsHook(nullptr);
    return opened;
}
}  // namespace world
