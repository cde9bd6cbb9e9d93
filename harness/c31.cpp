// Orphan cleaning removes what no snapshot needs and nothing else.
#include <fcntl.h>
#include <unistd.h>

#include "grow.h"
#include "paimon/orphan_files_cleaner.h"
using namespace world;

namespace {
int64_t NowMs() {
    timespec t;
    clock_gettime(CLOCK_REALTIME, &t);
    return t.tv_sec * 1000LL + t.tv_nsec / 1000000;
}
void SetMtime(const std::string& p, int64_t ms) {
    timespec t[2];
    t[0].tv_sec = t[1].tv_sec = ms / 1000;
    t[0].tv_nsec = t[1].tv_nsec = (ms % 1000) * 1000000;
    utimensat(AT_FDCWD, p.c_str(), t, 0);
}
bool Known(const std::string& name) {
    auto ends = [&](const char* e) { size_t n = strlen(e); return name.size() >= n && name.compare(name.size() - n, n, e) == 0; };
    if (name.rfind("manifest-", 0) == 0) return true;
    if (name[0] == '.' && ends(".tmp")) return true;
    return name.rfind("data-", 0) == 0 && (ends(".orc") || ends(".parquet") || ends(".avro") || ends(".lance"));
}
struct Dirt {
    World& w;
    Case& c;
    std::vector<std::string> dirs;  // that the table uses
    void Plant(const std::string& path) {
        std::ofstream(path) << "x";
        c.Op("plant " + path.substr(w.TablePath().size()));
    }
    void All() {
        std::string top = w.TablePath();
        dirs = {top + "/snapshot", top + "/manifest"};
        std::error_code ec;
        for (auto& e : fs::recursive_directory_iterator(top, ec))
            if (e.is_directory() && e.path().filename().string().rfind("bucket-", 0) == 0) dirs.push_back(e.path().string());
        int n = c.rng.Range(0, 10);
        for (int i = 0; i < n; i++) {
            std::string d = c.rng.Pick(dirs);
            if (c.rng.Chance(0.15)) d = top;
            if (c.rng.Chance(0.1)) {
                d = top + "/other";
                fs::create_directories(d, ec);
            }
            std::string name = c.rng.Of<std::string>({"data-%d.orc", "data-%d.parquet", "data-%d.avro", "data-%d.lance", "data-%d.txt", "data-%d", "xdata-%d.orc", "manifest-%d", "manifest-list-%d",
                                                      ".manifest-%d.tmp", ".%d.tmp", "%d.tmp", "manifest%d", "notes-%d", "changelog-%d.orc", "index-manifest-%d"});
            Plant(d + "/" + Fmt(name.c_str(), (int)c.rng.Below(1000)));
        }
        if (c.rng.Chance(0.3)) fs::create_directories(c.rng.Pick(dirs) + "/data-dir.orc", ec);
    }
};
Result<std::set<std::string>> Clean(World& w, int64_t older, std::function<bool(const std::string&)> veto, bool options) {
    CleanContextBuilder b(w.TablePath());
    b.WithOlderThanMs(older);
    if (veto) b.WithFileRetainCondition(veto);
    if (options) b.SetOptions(w.t->spec().options);
    auto ctx = b.Finish();
    if (!ctx.ok()) return ctx.status();
    auto cl = OrphanFilesCleaner::Create(std::move(ctx).value());
    if (!cl.ok()) return cl.status();
    return cl.value()->Clean();
}
// Writers that die before they commit.
void Abandon(World& w, Grower& g) {
    auto r = w.Open("lost", false);
    if (!r.ok()) return;
    (void)w.WriteSome(*r.value(), 2, 4);
    (void)w.Prepare(*r.value());
    if (w.c.rng.Chance(0.5)) (void)r.value()->write->Close();
    w.c.Op("a writer is lost");
    (void)g;
}
}  // namespace

VF_SCENARIO(orphans, 240, 4000) {
    World w(c);
    w.Create({{"file-system", "vfs"}}, true);
    Grower g(w);
    int rounds = c.rng.Range(1, 3);
    for (int r = 0; r < rounds; r++) {
        int n = c.rng.Range(0, 4);
        for (int i = 0; i < n; i++) g.Step();
        if (c.rng.Chance(0.6)) Abandon(w, g);
        if (w.latest > 2 && c.rng.Chance(0.3)) {
            g.commit_options = {{"snapshot.num-retained.min", "1"}, {"snapshot.num-retained.max", "2"}};
            auto e = g.Commit("e")->Expire();
            g.commit_options.clear();
            VF_EXPECT(e.ok(), "expire", "%s", S(e.status()).c_str());
            for (int k = 0; k < e.value(); k++) {
                w.infos.erase(w.snaps.begin()->first);
                w.snaps.erase(w.snaps.begin());
            }
            c.Op(Fmt("expired %d", e.value()));
        }
        Dirt d{w, c, {}};
        d.All();
        auto used = FilesOpenedByReads(w);
        int64_t older = NowMs() / 1000 * 1000 - c.rng.Of<int64_t>({3600000, 86400000, 5000});  // file times may be kept in whole seconds
        std::set<std::string> vetoed, expect;
        uint64_t salt = c.rng.U64();
        bool with_veto = c.rng.Chance(0.3);
        auto veto = [&](const std::string& name) { return vf::Mix(salt ^ vf::HashStr(name)) % 3 == 0; };
        for (auto& f : FilesOnDisk(w.TablePath())) {
            int64_t age = c.rng.Of<int64_t>({-1000, -2000, -86400000, 0, 1000, 4000});
            if (c.rng.Chance(0.4)) age = -60000;
            SetMtime(f, older + age);
            std::string name = fs::path(f).filename().string(), dir = fs::path(f).parent_path().string();
            if (age < 0 && Known(name) && !used.count(f) && std::count(d.dirs.begin(), d.dirs.end(), dir) && !(with_veto && veto(name))) expect.insert(f);
        }
        auto before = FilesOnDisk(w.TablePath());
        auto got = Clean(w, older, with_veto ? std::function<bool(const std::string&)>(veto) : nullptr, c.rng.Chance(0.5));
        VF_EXPECT(got.ok(), "clean", "%s", S(got.status()).c_str());
        auto after = FilesOnDisk(w.TablePath());
        c.Op(Fmt("clean: %zu of %zu files gone, %zu said, %zu expected", before.size() - after.size(), before.size(), got.value().size(), expect.size()), !expect.empty());
        for (auto& f : before) {
            bool gone = !after.count(f);
            if (gone) VF_EXPECT(!used.count(f), "used-file-removed", "%s", f.c_str());
            if (gone) VF_EXPECT(expect.count(f), "removed", "%s should have stayed", f.c_str());
            if (!gone) VF_EXPECT(!expect.count(f), "not-removed", "%s should have gone", f.c_str());
        }
        std::set<std::string> said;
        for (auto& f : got.value()) said.insert(f.rfind("file:", 0) == 0 ? f.substr(5) : f);
        for (auto& f : expect) VF_EXPECT(said.count(f), "removed-not-told", "%s", f.c_str());
        VF_EXPECT(said.size() == expect.size(), "told-not-removed", "%zu paths returned, %zu removed", said.size(), expect.size());
        w.CheckHistory(true);
    }
}

// Input and output errors, and commits in the middle of a cleaning.
VF_SCENARIO(disturbed, 200, 3000) {
    World w(c);
    w.Create({{"file-system", "vfs"}}, true);
    Grower g(w);
    int n = c.rng.Range(1, 5);
    for (int i = 0; i < n; i++) g.Step();
    Abandon(w, g);
    Dirt d{w, c, {}};
    d.All();
    int64_t older = NowMs() - 3600000;
    for (auto& f : FilesOnDisk(w.TablePath())) SetMtime(f, older - 60000);
    bool commits = c.rng.Chance(0.4);
    int64_t at = c.rng.Below(commits ? 30 : 60), seen = 0;
    bool sticky = c.rng.Chance(0.3);
    std::string only = c.rng.Of<std::string>({"", "", "list", "open", "read", "exists", "status", "delete"});
    std::mutex mu;
    bool busy = false, done = false;
    auto here = std::this_thread::get_id();
    tab::SetFsHook([&](const tab::FsEvent& e) -> Status {
        if (commits) {
            if (busy || done || std::this_thread::get_id() != here || seen++ != at) return Status::OK();
            busy = true;
            g.Step();
            busy = false;
            done = true;
            return Status::OK();
        }
        if (e.after || (!only.empty() && only != e.op)) return Status::OK();
        std::lock_guard<std::mutex> l(mu);
        int64_t k = seen++;
        int64_t a = only.empty() ? at : at % 12;
        if (k == a || (sticky && k > a)) {
            done = true;
            return Status::IOError("injected");
        }
        return Status::OK();
    });
    auto got = Clean(w, older, nullptr, true);
    tab::SetFsHook(nullptr);
    c.Op(Fmt("%s at %lld%s (%s): clean %s", commits ? "commit" : "error", (long long)at, sticky ? " on" : "", only.c_str(), got.ok() ? std::to_string(got.value().size()).c_str() : S(got.status()).c_str()), done);
    if (commits) VF_EXPECT(got.ok(), "clean", "%s", S(got.status()).c_str());
    w.CheckHistory(true);
    g.Step();
    w.CheckHistory(true);
}

// Files that a tag or a branch may still need, and tables with primary keys: nothing is removed, also
// when a file-system call fails.
VF_SCENARIO(untouchable, 300, 4000) {
    World w(c);
    w.Create({{"file-system", "vfs"}}, true);
    Grower g(w);
    int n = c.rng.Range(1, 4);
    for (int i = 0; i < n; i++) g.Step();
    Abandon(w, g);
    Dirt d{w, c, {}};
    d.All();
    std::string top = w.TablePath();
    std::error_code ec;
    int kind = c.rng.Below(3);
    if (kind == 0) {
        fs::create_directories(top + "/tag", ec);
        fs::copy_file(top + Fmt("/snapshot/snapshot-%lld", (long long)w.latest), top + "/tag/tag-" + c.rng.Ascii(c.rng.Range(1, 4), "abc"), ec);
        if (ec) std::ofstream(top + "/tag/tag-a") << "{}";
    } else if (kind == 1) {
        fs::create_directories(top + "/branch/branch-" + c.rng.Ascii(c.rng.Range(1, 4), "abc") + "/snapshot", ec);
    } else {
        // the table as if it had been made with a key
        std::string path = top + "/schema/schema-0", text;
        {
            std::ifstream in(path);
            text.assign(std::istreambuf_iterator<char>(in), {});
        }
        tab::Spec sp = w.t->spec();
        auto at = text.find("\"primaryKeys\"");
        VF_EXPECT(at != std::string::npos, "schema-file", "no primary keys in the schema file");
        auto open = text.find('[', at), close = text.find(']', open);
        std::string keys;
        for (auto& k : sp.partition_keys) keys += "\"" + k + "\",";
        std::string col;
        for (auto& f : sp.schema->fields()) if (!std::count(sp.partition_keys.begin(), sp.partition_keys.end(), f->name())) { col = f->name(); break; }
        text.replace(open, close - open + 1, "[" + keys + "\"" + col + "\"]");
        std::ofstream(path) << text;
    }
    int64_t older = NowMs() - 3600000;
    for (auto& f : FilesOnDisk(top)) SetMtime(f, older - 60000);
    auto before = FilesOnDisk(top);
    bool faults = c.rng.Chance(0.6), hit = false, sticky = c.rng.Chance(0.3);
    std::string only = c.rng.Of<std::string>({"", "", "list", "exists"});
    int64_t at = c.rng.Below(12), seen = 0;
    std::mutex mu;
    tab::SetFsHook([&](const tab::FsEvent& e) -> Status {
        if (!faults || e.after || (!only.empty() && only != e.op)) return Status::OK();
        std::lock_guard<std::mutex> l(mu);
        int64_t k = seen++;
        if (k == at || (sticky && k > at)) {
            hit = true;
            return Status::IOError("injected");
        }
        return Status::OK();
    });
    auto got = Clean(w, older, nullptr, true);
    tab::SetFsHook(nullptr);
    c.Op(Fmt("%s, %s: clean %s", kind == 0 ? "tag" : kind == 1 ? "branch" : "primary key", hit ? "with a fault" : "no fault", got.ok() ? std::to_string(got.value().size()).c_str() : S(got.status()).c_str()), true);
    VF_EXPECT(!got.ok(), "not-refused", "a table with a %s is cleaned%s", kind == 0 ? "tag" : kind == 1 ? "branch" : "primary key", hit ? " after a failing call" : "");
    for (auto& f : before) VF_EXPECT(fs::exists(f), "removed", "%s should have stayed", f.c_str());
}
