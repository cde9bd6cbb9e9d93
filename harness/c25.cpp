// Local file system against a tree model; atomic store under rivals and faults.
#include "vf.h"

#include <dirent.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>

#include <atomic>
#include <mutex>
#include <set>
#include <thread>

#include "fsguard.h"
#include "paimon/common/factories/io_hook.h"
#include "paimon/fs/file_system.h"
#include "paimon/fs/local/local_file_system.h"

using namespace paimon;
using vf::Case;
using vf::Fmt;

namespace {
struct Tree {  // relative path -> nullopt for a directory, content for a file
    std::map<std::string, std::optional<std::string>> n;
    bool Has(const std::string& p) const { return p.empty() || n.count(p); }
    bool Dir(const std::string& p) const { return p.empty() || (n.count(p) && !n.at(p)); }
    bool File(const std::string& p) const { return !p.empty() && n.count(p) && n.at(p).has_value(); }
    static std::string Parent(const std::string& p) { size_t s = p.rfind('/'); return s == std::string::npos ? "" : p.substr(0, s); }
    bool BlockedByFile(const std::string& p) const {  // a file above p
        for (std::string q = Parent(p); !q.empty(); q = Parent(q)) if (File(q)) return true;
        return false;
    }
    void MkParents(const std::string& p) { for (std::string q = Parent(p); !q.empty(); q = Parent(q)) n.emplace(q, std::nullopt); }
    bool Under(const std::string& p, const std::string& d) const { return p.size() > d.size() && p.compare(0, d.size() + 1, d + "/") == 0; }
    std::vector<std::string> Children(const std::string& d) const {
        std::vector<std::string> r;
        for (auto& kv : n) if (Parent(kv.first) == d) r.push_back(kv.first);
        return r;
    }
};
void Walk(const std::string& root, const std::string& rel, Tree* t) {
    DIR* d = opendir((root + (rel.empty() ? "" : "/" + rel)).c_str());
    if (!d) return;
    while (dirent* e = readdir(d)) {
        std::string name = e->d_name;
        if (name == "." || name == "..") continue;
        std::string p = rel.empty() ? name : rel + "/" + name;
        struct stat s;
        if (stat((root + "/" + p).c_str(), &s) != 0) continue;
        if (S_ISDIR(s.st_mode)) {
            t->n[p] = std::nullopt;
            Walk(root, p, t);
        } else {
            std::string content(std::min<off_t>(s.st_size, 1 << 24), 0);
            FILE* f = fopen((root + "/" + p).c_str(), "r");
            size_t got = f ? fread(&content[0], 1, content.size(), f) : 0;
            if (f) fclose(f);
            content.resize(got);
            t->n[p] = content;
        }
    }
    closedir(d);
}
void Wipe(const std::string& root, bool self) {
    Tree t;
    Walk(root, "", &t);
    for (auto it = t.n.rbegin(); it != t.n.rend(); ++it) {
        std::string p = root + "/" + it->first;
        if (it->second) ::unlink(p.c_str()); else ::rmdir(p.c_str());
    }
    if (self) ::rmdir(root.c_str());
}
struct Place {  // a fresh directory for one case
    std::string dir;
    explicit Place(Case& c) {
        fsguard::Allow(vf::Scratch());
        dir = vf::Scratch() + "/p" + std::to_string(c.index());
        ::mkdir(dir.c_str(), 0755);
        Wipe(dir, false);
    }
    ~Place() { Wipe(dir, true); }
};
void NoEscape(Case& c) {
    auto r = fsguard::TakeRefused();
    VF_EXPECT(r.empty(), "escaped", "touched '%s' outside the directory it was given", r[0].c_str());
}
std::string Diff(const Tree& want, const Tree& got) {
    for (auto& kv : want.n) {
        auto it = got.n.find(kv.first);
        if (it == got.n.end()) return "'" + kv.first + "' is missing";
        if (it->second != kv.second) return "'" + kv.first + "' differs";
    }
    for (auto& kv : got.n) if (!want.n.count(kv.first)) return "'" + kv.first + "' is unexpected";
    return "";
}
std::string RelPath(Case& c) {
    std::string p;
    int n = (int)c.rng.Range(1, 3);
    for (int i = 0; i < n; i++) p += (i ? "/" : "") + c.rng.Of<std::string>({"a", "b", "cc", ".h", "x y"});
    return p;
}
std::string Spell(Case& c, const std::string& root, const std::string& rel, bool trailing = false) {
    std::string p = root + (rel.empty() ? "" : "/" + rel);
    if (c.rng.Chance(0.2)) p = root + "//" + rel;
    if (c.rng.Chance(0.15)) p = c.rng.Of<std::string>({"file:", "FILE:", "file://"}) + p;
    if (trailing && c.rng.Chance(0.2)) p += "/";
    return p;
}
std::string Content(Case& c) {
    std::string s = c.rng.Bytes(c.rng.Chance(0.1) ? c.rng.Range(4000, 9000) : c.rng.Below(40));
    return s;
}
thread_local uint64_t t_rng = 0;
std::atomic<uint64_t> g_sched{0};
void Jitter() {
    if (!t_rng) t_rng = vf::Mix(++g_sched);
    t_rng = vf::Mix(t_rng);
    if (t_rng % 4 == 0) usleep(t_rng % 60);
    else if (t_rng % 4 == 1) std::this_thread::yield();
}

// A store whose data becomes durable only on a successful close, with a fault at one step.
struct Mem {
    std::mutex mu;
    std::map<std::string, std::string> files;
    int steps = 0, fail_at = -1, short_at = -1;
    int closed = 0, opened = 0;
    bool Step() { return steps++ == fail_at; }
    bool Short() { return steps - 1 == short_at; }
};
class MemOut : public OutputStream {
 public:
    MemOut(Mem* m, std::string p) : m_(m), p_(std::move(p)) { m_->files[p_] = ""; m_->opened++; }
    Result<int32_t> Write(const char* b, uint32_t n) override {
        if (m_->Step()) { buf_.append(b, n / 2); return Status::IOError("write"); }
        if (m_->Short()) { buf_.append(b, n / 2); return (int32_t)(n / 2); }
        buf_.append(b, n);
        return (int32_t)n;
    }
    Status Flush() override { if (m_->Step()) return Status::IOError("flush"); return Status::OK(); }
    Status Close() override {
        m_->closed++;
        if (m_->Step()) { m_->files[p_] = buf_.substr(0, buf_.size() / 2); return Status::IOError("close"); }
        if (m_->files.count(p_)) m_->files[p_] = buf_;
        return Status::OK();
    }
    Result<int64_t> GetPos() const override { return (int64_t)buf_.size(); }
    Result<std::string> GetUri() const override { return p_; }
 private:
    Mem* m_;
    std::string p_, buf_;
};
class MemIn : public InputStream {
 public:
    MemIn(Mem* m, std::string d) : m_(m), d_(std::move(d)) { m_->opened++; }
    Status Seek(int64_t, SeekOrigin) override { return Status::NotImplemented(""); }
    Result<int64_t> GetPos() const override { return (int64_t)pos_; }
    Result<int32_t> Read(char* b, uint32_t n) override {
        if (m_->Step()) return Status::IOError("read");
        if (m_->Short()) n /= 2;
        n = std::min<uint32_t>(n, d_.size() - pos_);
        memcpy(b, d_.data() + pos_, n);
        pos_ += n;
        return (int32_t)n;
    }
    Result<int32_t> Read(char*, uint32_t, uint64_t) override { return Status::NotImplemented(""); }
    void ReadAsync(char*, uint32_t, uint64_t, std::function<void(Status)>&& cb) override { cb(Status::NotImplemented("")); }
    Result<std::string> GetUri() const override { return std::string("mem"); }
    Result<uint64_t> Length() const override { if (m_->Step()) return Status::IOError("length"); return (uint64_t)d_.size(); }
    Status Close() override { m_->closed++; return Status::OK(); }
 private:
    Mem* m_;
    std::string d_;
    size_t pos_ = 0;
};
class MemFs : public FileSystem {
 public:
    explicit MemFs(Mem* m) : m_(m) {}
    Result<std::unique_ptr<InputStream>> Open(const std::string& p) const override {
        if (m_->Step()) return Status::IOError("open");
        if (!m_->files.count(p)) return Status::NotExist(p);
        return std::unique_ptr<InputStream>(new MemIn(m_, m_->files[p]));
    }
    Result<std::unique_ptr<OutputStream>> Create(const std::string& p, bool overwrite) const override {
        if (m_->Step()) return Status::IOError("create");
        if (!overwrite && m_->files.count(p)) return Status::Exist(p);
        return std::unique_ptr<OutputStream>(new MemOut(m_, p));
    }
    Status Mkdirs(const std::string&) const override { return Status::OK(); }
    Status Rename(const std::string& a, const std::string& b) const override {
        if (m_->Step()) return Status::IOError("rename");
        if (!m_->files.count(a)) return Status::NotExist(a);
        if (m_->files.count(b)) return Status::Exist(b);
        m_->files[b] = m_->files[a];
        m_->files.erase(a);
        return Status::OK();
    }
    Status Delete(const std::string& p, bool) const override {
        if (m_->Step()) return Status::IOError("delete");
        m_->files.erase(p);
        return Status::OK();
    }
    Result<std::unique_ptr<FileStatus>> GetFileStatus(const std::string&) const override { return Status::NotImplemented(""); }
    Status ListDir(const std::string&, std::vector<std::unique_ptr<BasicFileStatus>>*) const override { return Status::NotImplemented(""); }
    Status ListFileStatus(const std::string&, std::vector<std::unique_ptr<FileStatus>>*) const override { return Status::NotImplemented(""); }
    Result<bool> Exists(const std::string& p) const override { if (m_->Step()) return Status::IOError("exists"); return m_->files.count(p) > 0; }
 private:
    Mem* m_;
};
}  // namespace

#ifndef __SANITIZE_THREAD__
VF_SCENARIO(tree, 6000, 60000) {
    Place place(c);
    LocalFileSystem fs;
    Tree t;
    uint64_t sig = 1;
    int n = (int)c.rng.Range(5, c.thorough() ? 60 : 30);
    for (int i = 0; i < n; i++) {
        std::string p = RelPath(c), q = RelPath(c);
        if (!t.n.empty() && c.rng.Chance(0.6)) { auto it = t.n.begin(); std::advance(it, c.rng.Below(t.n.size())); p = it->first; }
        bool flag = c.rng.Chance(0.5);
        int op = (int)c.rng.Below(12);
        std::string sp = Spell(c, place.dir, p);
        c.Op(Fmt("%d %s %s %d", op, sp.c_str(), q.c_str(), flag), true);
        sig = vf::Mix(sig ^ op ^ vf::HashStr(p));
        switch (op) {
            case 0: case 1: {
                std::string content = Content(c);
                bool ok = !t.BlockedByFile(p) && !t.Dir(p) && (flag || !t.File(p));
                Status s;
                if (op == 0) s = fs.WriteFile(sp, content, flag);
                else {
                    auto out = fs.Create(sp, flag);
                    s = out.status();
                    if (out.ok()) {
                        size_t at = c.rng.Below(content.size() + 1);
                        auto w1 = out.value()->Write(content.data(), at);
                        auto pos = out.value()->GetPos();
                        auto w2 = out.value()->Write(content.data() + at, content.size() - at);
                        VF_EXPECT(w1.ok() && w2.ok() && w1.value() == (int)at && w2.value() == (int)(content.size() - at), "write", "a write of %zu bytes failed", content.size());
                        VF_EXPECT(pos.ok() && pos.value() == (int64_t)at, "write-pos", "position after %zu bytes is another", at);
                        if (flag) VF_EXPECT(out.value()->Flush().ok(), "flush", "flush failed");
                        VF_EXPECT(out.value()->Close().ok(), "close", "close failed");
                    }
                }
                VF_EXPECT(s.ok() == ok, "create", "creating '%s' (overwrite %d): %s", p.c_str(), flag, s.ToString().c_str());
                if (ok) { t.MkParents(p); t.n[p] = content; }
                break;
            }
            case 2: {
                std::string content = Content(c);
                bool ok = !t.BlockedByFile(p) && !t.Has(p);
                Status s = fs.AtomicStore(sp, content);
                VF_EXPECT(s.ok() == ok, "atomic-store", "storing '%s': %s", p.c_str(), s.ToString().c_str());
                if (ok) { t.MkParents(p); t.n[p] = content; }
                else { Tree got; Walk(place.dir, "", &got); VF_EXPECT(Diff(t, got).empty(), "atomic-store-residue", "a refused store of '%s' left a trace: %s", p.c_str(), Diff(t, got).c_str()); }
                break;
            }
            case 3: {
                std::string content = "unset";
                Status s = fs.ReadFile(sp, &content);
                VF_EXPECT(s.ok() == t.File(p), "read", "reading '%s': %s", p.c_str(), s.ToString().c_str());
                if (s.ok()) VF_EXPECT(content == *t.n[p], "read-content", "'%s' has other content", p.c_str());
                break;
            }
            case 4: {
                bool ok = !t.BlockedByFile(p) && !t.File(p);
                Status s = fs.Mkdirs(Spell(c, place.dir, p, true));
                VF_EXPECT(s.ok() == ok, "mkdirs", "making '%s': %s", p.c_str(), s.ToString().c_str());
                if (c.rng.Chance(0.1)) {  // no directory can have so long a name
                    std::string out = place.dir + "/" + std::string(256 + c.rng.Below(600), 'n');
                    Status l = fs.Mkdirs(out + (c.rng.Chance(0.3) ? "/below" : ""));
                    VF_EXPECT(!l.ok(), "mkdirs", "making a directory of a name of %zu bytes: OK", out.size() - place.dir.size() - 1);
                }
                if (ok) { t.MkParents(p); t.n.emplace(p, std::nullopt); }
                break;
            }
            case 5: case 6: {
                if (c.rng.Chance(0.1)) q = p;
                if (t.Under(q, p) || (t.BlockedByFile(p))) break;
                bool ok = t.Has(p) && !t.Has(q) && !t.BlockedByFile(q);
                std::string sq = Spell(c, place.dir, q);
                Status s = fs.Rename(sp, sq);
                VF_EXPECT(s.ok() == ok, "rename", "renaming '%s' to '%s' (%s to %s): %s", p.c_str(), q.c_str(), sp.c_str(), sq.c_str(), s.ToString().c_str());
                if (ok) {
                    Tree u;
                    for (auto& kv : t.n) {
                        if (kv.first == p) u.n[q] = kv.second;
                        else if (t.Under(kv.first, p)) u.n[q + kv.first.substr(p.size())] = kv.second;
                        else u.n[kv.first] = kv.second;
                    }
                    t = u;
                    t.MkParents(q);
                }
                break;
            }
            case 7: {
                bool has = t.Has(p), full = t.Dir(p) && !t.Children(p).empty();
                Status s = fs.Delete(Spell(c, place.dir, p, t.Dir(p)), flag);
                if (has) VF_EXPECT(s.ok() == (flag || !full), "delete", "deleting '%s' (recursive %d): %s", p.c_str(), flag, s.ToString().c_str());
                if (has && s.ok()) {
                    Tree u;
                    for (auto& kv : t.n) if (kv.first != p && !t.Under(kv.first, p)) u.n.insert(kv);
                    t = u;
                }
                break;
            }
            case 8: {
                auto s = fs.GetFileStatus(sp);
                VF_EXPECT(s.ok() == t.Has(p), "status", "status of '%s': %s", p.c_str(), s.status().ToString().c_str());
                if (s.ok()) {
                    VF_EXPECT(s.value()->IsDir() == t.Dir(p), "status-kind", "'%s' has another kind", p.c_str());
                    if (t.File(p)) VF_EXPECT(s.value()->GetLen() == t.n[p]->size(), "status-length", "'%s' has length %llu, expected %zu", p.c_str(), (unsigned long long)s.value()->GetLen(), t.n[p]->size());
                    VF_EXPECT(s.value()->GetPath() == place.dir + "/" + p, "status-path", "'%s' for '%s'", s.value()->GetPath().c_str(), p.c_str());
                    int64_t now = (int64_t)time(nullptr) * 1000, mt = s.value()->GetModificationTime();
                    VF_EXPECT(mt > now - 3600000 && mt < now + 3600000, "status-time", "'%s' was modified at %lld ms, now is %lld", p.c_str(), (long long)mt, (long long)now);
                } else if (!t.BlockedByFile(p)) {
                    VF_EXPECT(s.status().IsNotExist(), "status-missing", "a missing file gives %s", s.status().ToString().c_str());
                }
                break;
            }
            case 9: {
                std::vector<std::unique_ptr<BasicFileStatus>> v;
                Status s = fs.ListDir(sp, &v);
                if (t.Has(p)) VF_EXPECT(s.ok() == t.Dir(p), "list", "listing '%s': %s", p.c_str(), s.ToString().c_str());
                std::map<std::string, bool> got, want;
                for (auto& e : v) got[e->GetPath()] = e->IsDir();
                if (t.Dir(p)) for (auto& k : t.Children(p)) want[place.dir + "/" + k] = t.Dir(k);
                VF_EXPECT(got == want && got.size() == v.size(), "list-content", "listing '%s' gives %zu entries, expected %zu", p.c_str(), v.size(), want.size());
                break;
            }
            case 10: {
                std::vector<std::unique_ptr<FileStatus>> v;
                Status s = fs.ListFileStatus(sp, &v);
                if (t.Has(p)) VF_EXPECT(s.ok(), "list-status", "listing '%s': %s", p.c_str(), s.ToString().c_str());
                std::map<std::string, int64_t> got, want;
                for (auto& e : v) got[e->GetPath()] = e->IsDir() ? -1 : (int64_t)e->GetLen();
                auto add = [&](const std::string& k) { want[place.dir + "/" + k] = t.Dir(k) ? -1 : (int64_t)t.n[k]->size(); };
                if (t.Dir(p)) for (auto& k : t.Children(p)) add(k);
                else if (t.File(p)) add(p);
                VF_EXPECT(got == want && got.size() == v.size(), "list-status-content", "listing '%s' gives %zu entries, expected %zu", p.c_str(), v.size(), want.size());
                break;
            }
            default: {
                auto e = fs.Exists(sp);
                if (!t.BlockedByFile(p)) VF_EXPECT(e.ok() && e.value() == t.Has(p), "exists", "existence of '%s' is wrong", p.c_str());
                else VF_EXPECT(!e.ok() || !e.value(), "exists", "'%s' below a file exists", p.c_str());
                VF_EXPECT(!fs.Exists("hdfs:" + place.dir).ok() && !fs.Open("s3://x" + place.dir).ok(), "foreign-scheme", "a foreign scheme is served locally");
            }
        }
        NoEscape(c);
    }
    Tree got;
    Walk(place.dir, "", &got);
    std::string d = Diff(t, got);
    VF_EXPECT(d.empty(), "tree", "%s", d.c_str());
    c.Saw(sig);
}

// one fault at every step of every operation: an answer is right or an error
VF_SCENARIO(faults, 3000, 30000) {
    Place place(c);
    LocalFileSystem fs;
    auto* hook = IOHook::GetInstance();
    hook->Clear();
    int op = (int)c.rng.Below(9);
    std::string old = Content(c) + "o", fresh = Content(c) + "n";
    std::string dir = place.dir + "/d", f = dir + "/f", g = c.rng.Chance(0.5) ? dir + "/g" : place.dir + "/e/x/g";
    bool present = op == 0 ? c.rng.Chance(0.3) : true;
    uint64_t sig = op ^ present << 8;
    for (int pos = 0;; pos++) {
        Wipe(place.dir, false);
        VF_EXPECT(fs.Mkdirs(dir).ok() && fs.WriteFile(dir + "/z", old, true).ok(), "prepare", "cannot prepare");
        if (present) VF_EXPECT(fs.WriteFile(f, old, true).ok(), "prepare", "cannot prepare");
        Tree before, after;
        Walk(place.dir, "", &before);
        hook->Reset(pos, IOHook::Mode::RETURN_ERROR);
        Status s;
        std::string content;
        std::vector<std::unique_ptr<BasicFileStatus>> bl;
        std::vector<std::unique_ptr<FileStatus>> fl;
        bool answer = true;
        switch (op) {
            case 0: s = fs.AtomicStore(f, fresh); break;
            case 1: s = fs.WriteFile(f, fresh, true); break;
            case 2: s = fs.ReadFile(f, &content); break;
            case 3: s = fs.Rename(f, g); break;
            case 4: s = fs.Delete(dir, true); break;
            case 5: s = fs.Mkdirs(place.dir + "/m/n/o"); break;
            case 6: { auto e = fs.Exists(f); s = e.status(); if (e.ok()) answer = e.value(); break; }
            case 7: s = fs.ListDir(dir, &bl); break;
            default: { s = fs.ListFileStatus(dir, &fl); }
        }
        int64_t used = hook->IOCount();
        hook->Clear();
        Walk(place.dir, "", &after);
        c.Op(Fmt("op %d fault %d: %s", op, pos, s.ok() ? "ok" : "error"), true);
        auto has = [&](const std::string& p) { return after.n.count(p.substr(place.dir.size() + 1)) > 0; };
        auto is = [&](const std::string& p, const std::string& x) { auto it = after.n.find(p.substr(place.dir.size() + 1)); return it != after.n.end() && it->second && *it->second == x; };
        switch (op) {
            case 0:
                if (present) VF_EXPECT(!s.ok() && is(f, old), "fault-overwrite", "fault %d: an atomic store replaced an existing file", pos);
                else if (s.ok()) VF_EXPECT(is(f, fresh), "fault-store", "fault %d: stored content is incomplete", pos);
                else VF_EXPECT(!has(f) || is(f, fresh), "fault-partial", "fault %d: a partial file under the final name", pos);
                break;
            case 1: if (s.ok()) VF_EXPECT(is(f, fresh), "fault-write", "fault %d: a write that succeeded left other content", pos); break;
            case 2: if (s.ok()) VF_EXPECT(content == old, "fault-read", "fault %d: a read that succeeded returned other content", pos); break;
            case 3:
                if (s.ok()) VF_EXPECT(is(g, old) && !has(f), "fault-rename", "fault %d: a rename that succeeded did not move the file", pos);
                else VF_EXPECT(is(f, old) != is(g, old), "fault-rename-lost", "fault %d: a failed rename lost or doubled the file", pos);
                break;
            case 4: if (s.ok()) VF_EXPECT(!has(dir), "fault-delete", "fault %d: a delete that succeeded left the directory", pos); break;
            case 5: if (s.ok()) VF_EXPECT(has(place.dir + "/m/n/o"), "fault-mkdirs", "fault %d: a mkdirs that succeeded made nothing", pos); break;
            case 6: if (s.ok()) VF_EXPECT(answer, "fault-exists", "fault %d: an existing file is reported missing", pos); break;
            case 7: if (s.ok()) VF_EXPECT(bl.size() == 2, "fault-list", "fault %d: a listing that succeeded has %zu entries instead of 2", pos, bl.size()); break;
            default: if (s.ok()) VF_EXPECT(fl.size() == 2, "fault-list", "fault %d: a listing that succeeded has %zu entries instead of 2", pos, fl.size());
        }
        VF_EXPECT(is(dir + "/z", old) || op == 4, "fault-neighbour", "fault %d: a neighbouring file changed", pos);
        NoEscape(c);
        if (used <= pos) {  // the fault was not reached
            VF_EXPECT(s.ok() || (op == 0 && present), "fault-free", "without a fault operation %d gives %s", op, s.ToString().c_str());
            break;
        }
        VF_EXPECT(pos < 500, "endless", "operation %d does not finish", op);
    }
    c.Saw(vf::Mix(sig) ^ old.size() ^ fresh.size() << 16);
}

VF_SCENARIO(generic_store, 20000, 200000) {
    int op = (int)c.rng.Below(3);
    std::string want = c.rng.Bytes(c.rng.Range(0, 60)), old = c.rng.Bytes(8);
    bool present = c.rng.Chance(0.2), shorten = c.rng.Chance(0.4);
    for (int pos = -1; pos < 12; pos++) {
        Mem m;
        MemFs fs(&m);
        if (present || op == 2) m.files["/d/f"] = op == 2 ? want : old;
        m.files["/d/other"] = old;
        (shorten ? m.short_at : m.fail_at) = pos;
        std::string content;
        Status s = op == 0 ? fs.AtomicStore("/d/f", want) : op == 1 ? fs.WriteFile("/d/f", want, present) : fs.ReadFile("/d/f", &content);
        c.Op(Fmt("op %d present %d %s at %d: %s", op, present, shorten ? "short" : "fault", pos, s.ok() ? "ok" : "error"), true);
        bool reached = pos >= 0 && pos < m.steps;
        if (op == 0) {
            auto it = m.files.find("/d/f");
            if (present) VF_EXPECT(!s.ok() && it != m.files.end() && it->second == old, "store-replaced", "an atomic store replaced an existing file");
            else if (s.ok()) VF_EXPECT(it != m.files.end() && it->second == want, "store-incomplete", "a store that succeeded left %zu of %zu bytes (step %d)", it == m.files.end() ? 0 : it->second.size(), want.size(), pos);
            else VF_EXPECT(it == m.files.end(), "store-partial", "a failed store left a file under the final name (step %d)", pos);
            // every other file is untouched, and nothing else remains when deleting works
            int extra = 0;
            for (auto& kv : m.files) if (kv.first != "/d/f" && kv.first != "/d/other") extra++;
            VF_EXPECT(extra == 0 || reached, "store-residue", "%d temporary files remain", extra);
            if (!present && !reached) VF_EXPECT(s.ok(), "store-refused", "%s", s.ToString().c_str());
        } else if (op == 1) {
            if (s.ok()) VF_EXPECT(m.files["/d/f"] == want, "write-incomplete", "a write that succeeded left other content (step %d)", pos);
            else VF_EXPECT(reached, "write-refused", "%s", s.ToString().c_str());
        } else {
            if (s.ok()) VF_EXPECT(content == want, "read-incomplete", "a read that succeeded returned other content (step %d)", pos);
            else VF_EXPECT(reached, "read-refused", "%s", s.ToString().c_str());
        }
        VF_EXPECT(m.opened == m.closed || (reached && !shorten), "not-closed", "%d streams opened, %d closed", m.opened, m.closed);
        VF_EXPECT(m.files["/d/other"] == old, "neighbour", "a neighbouring file changed");
    }
    c.Saw(vf::HashStr(want) ^ op ^ present << 4);
}
// Files of several gigabytes that occupy almost nothing: sizes and offsets beyond 32 bits.
VF_SCENARIO(far, 600, 6000) {
    Place place(c);
    LocalFileSystem fs;
    const uint64_t L = (c.rng.Range(1, 9) << 30) + c.rng.Range(-3, 3);
    std::string f = place.dir + "/far";
    std::map<uint64_t, char> mark;
    int fd = ::open(f.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    bool made = fd >= 0 && ::ftruncate(fd, L) == 0;
    for (int i = 0; i < 12 && made; i++) {
        uint64_t at = c.rng.Chance(0.5) ? c.rng.Below(L) : (c.rng.Range(0, 8) << 30) + c.rng.Below(50);
        if (at >= L) continue;
        char b = (char)c.rng.Range(1, 255);
        mark[at] = b;
        made = ::pwrite(fd, &b, 1, at) == 1;
    }
    if (!made || ::close(fd) != 0) {
        fprintf(stderr, "HARNESS-ERROR: cannot write %s\n", f.c_str());
        exit(2);
    }
    auto st = fs.GetFileStatus(f);
    VF_EXPECT(st.ok() && st.value()->GetLen() == L, "status-length", "file of %llu has status length %llu", (unsigned long long)L, st.ok() ? (unsigned long long)st.value()->GetLen() : 0ull);
    std::vector<std::unique_ptr<FileStatus>> list;
    Status s = fs.ListFileStatus(place.dir, &list);
    VF_EXPECT(s.ok() && list.size() == 1 && list[0]->GetLen() == L, "list-length", "file of %llu is listed otherwise", (unsigned long long)L);
    auto in = fs.Open(f);
    VF_EXPECT(in.ok(), "open", "%s", in.status().ToString().c_str());
    auto len = in.value()->Length();
    VF_EXPECT(len.ok() && len.value() == L, "length", "file of %llu has length %llu", (unsigned long long)L, len.ok() ? (unsigned long long)len.value() : 0ull);
    for (auto& [at, b] : mark) {
        char got = 0;
        int how = (int)c.rng.Below(3);
        c.Op(Fmt("byte %llu of %llu, way %d", (unsigned long long)at, (unsigned long long)L, how), true);
        bool ok = false;
        if (how == 0) {
            auto r = in.value()->Read(&got, 1, at);
            ok = r.ok() && r.value() == 1;
        } else if (how == 1) {
            bool end = c.rng.Chance(0.5);
            Status k = end ? in.value()->Seek((int64_t)at - (int64_t)L, FS_SEEK_END) : in.value()->Seek(at, FS_SEEK_SET);
            VF_EXPECT(k.ok(), "seek", "seek to %llu: %s", (unsigned long long)at, k.ToString().c_str());
            auto p = in.value()->GetPos();
            VF_EXPECT(p.ok() && p.value() == (int64_t)at, "position", "position %lld after seek to %llu", p.ok() ? (long long)p.value() : -1, (unsigned long long)at);
            auto r = in.value()->Read(&got, 1);
            ok = r.ok() && r.value() == 1;
        } else {
            in.value()->ReadAsync(&got, 1, at, [&](Status x) { ok = x.ok(); });
        }
        VF_EXPECT(ok, "read", "byte %llu of %llu cannot be read", (unsigned long long)at, (unsigned long long)L);
        VF_EXPECT(got == b, "wrong-bytes", "byte %llu of %llu is %d, stored %d", (unsigned long long)at, (unsigned long long)L, got, b);
    }
    Status closed = in.value()->Close();
    VF_EXPECT(closed.ok(), "close", "%s", closed.ToString().c_str());
    c.Saw(vf::Mix(L));
}
#endif

VF_SCENARIO(rivals, 1500, 15000) {
    Place place(c);
    t_rng = 0;
    g_sched = c.rng.U64();
    fsguard::SetPause(Jitter);
    const int writers = (int)c.rng.Range(2, 5), readers = 2;
    std::string f = place.dir + (c.rng.Chance(0.5) ? "/snapshot-1" : "/deep/er/snapshot-1");
    std::vector<std::string> content(writers);
    for (int w = 0; w < writers; w++) content[w] = Fmt("writer %d:", w) + std::string(c.rng.Of<int>({1, 100, 5000, 20000}), (char)('a' + w)) + "end";
    std::set<std::string> valid(content.begin(), content.end());
    std::vector<int> won(writers);
    std::atomic<int> ready{0}, done{0};
    std::mutex mu;
    std::string bad;
    auto fail = [&](const std::string& s) { std::lock_guard<std::mutex> l(mu); if (bad.empty()) bad = s; };
    std::set<std::string> seen;
    std::vector<std::thread> ts;
    for (int w = 0; w < writers; w++) ts.emplace_back([&, w] {
        LocalFileSystem fs;
        ready++;
        while (ready < writers + readers) {}
        won[w] = fs.AtomicStore(f, content[w]).ok();
        if (won[w]) {
            std::string got;
            if (!fs.ReadFile(f, &got).ok() || got != content[w]) fail("the winner does not read back its own content");
        }
        done++;
    });
    for (int r = 0; r < readers; r++) ts.emplace_back([&] {
        LocalFileSystem fs;
        ready++;
        while (ready < writers + readers) {}
        bool last = false;
        while (true) {
            bool finish = done == writers;
            auto e = fs.Exists(f);
            if (e.ok() && last && !e.value()) fail("a stored file disappeared");
            if (e.ok() && e.value()) {
                last = true;
                std::string got;
                Status s = fs.ReadFile(f, &got);
                if (!s.ok()) fail("a stored file cannot be read: " + s.ToString());
                else if (!valid.count(got)) fail(Fmt("a reader saw %zu bytes that no writer stored", got.size()));
                else { std::lock_guard<std::mutex> l(mu); seen.insert(got); }
            }
            if (finish) break;
        }
    });
    for (auto& t : ts) t.join();
    fsguard::SetPause(nullptr);
    int wins = 0;
    for (int w : won) wins += w;
    c.Op(Fmt("%d writers, %d won", writers, wins), true);
    VF_EXPECT(bad.empty(), "rival-reader", "%s", bad.c_str());
    VF_EXPECT(wins <= 1, "two-winners", "%d of %d competing atomic stores succeeded", wins, writers);
    VF_EXPECT(wins == 1, "no-winner", "none of %d competing atomic stores succeeded", writers);
    VF_EXPECT(seen.size() <= 1, "content-changed", "readers saw %zu different contents", seen.size());
    Tree t;
    Walk(place.dir, "", &t);
    int files = 0;
    for (auto& kv : t.n) files += kv.second.has_value();
    VF_EXPECT(files == 1, "residue", "%d files remain instead of one", files);
    NoEscape(c);
    c.Saw(vf::Mix(g_sched.load()));
}

// Listing a directory while others store, rename and delete files in it.
VF_SCENARIO(churn, 400, 4000) {
    Place place(c);
    LocalFileSystem fs;
    std::set<std::string> stay, may;
    int n = (int)c.rng.Range(0, 12);
    for (int i = 0; i < n; i++) {
        std::string name = "stay" + std::to_string(i);
        stay.insert(name);
        VF_EXPECT(fs.WriteFile(place.dir + "/" + name, "x", false).ok(), "write", "cannot write %s", name.c_str());
    }
    int others = (int)c.rng.Range(1, 3), steps = (int)c.rng.Range(5, 40);
    uint64_t seed = c.rng.U64();
    std::atomic<int> ready{0}, left{others};
    std::vector<std::thread> ts;
    for (int t = 0; t < others; t++) ts.emplace_back([&, t] {
        LocalFileSystem mine;
        vf::Rng r(vf::Mix(seed + t));
        ready++;
        while (ready <= others) {}
        for (int i = 0; i < steps; i++) {
            std::string p = place.dir + Fmt("/t%d-%d", t, (int)r.Below(3));
            switch (r.Below(4)) {
                case 0: (void)mine.AtomicStore(p, "text"); break;
                case 1: (void)mine.Delete(p); break;
                case 2: (void)mine.Rename(p, place.dir + Fmt("/t%d-%d", t, (int)r.Below(3))); break;
                default: (void)mine.WriteFile(p, "more", true);
            }
        }
        left--;
    });
    ready++;
    int lists = 0;
    std::string bad;
    do {
        std::vector<std::string> names;
        Status s;
        if (lists % 2) {
            std::vector<std::unique_ptr<BasicFileStatus>> l;
            s = fs.ListDir(place.dir, &l);
            for (auto& x : l) names.push_back(x->GetPath());
        } else {
            std::vector<std::unique_ptr<FileStatus>> l;
            s = fs.ListFileStatus(place.dir, &l);
            for (auto& x : l) names.push_back(x->GetPath());
        }
        lists++;
        if (!s.ok()) bad = "listing failed: " + s.ToString();
        std::multiset<std::string> got;
        for (auto& x : names) {
            std::string b = x.substr(x.rfind('/') + 1);
            if (b.compare(0, 4, "stay") == 0) got.insert(b);
        }
        if (bad.empty() && got != std::multiset<std::string>(stay.begin(), stay.end())) bad = Fmt("%zu of %zu untouched files listed", got.size(), stay.size());
    } while (left > 0 && bad.empty());
    for (auto& t : ts) t.join();
    c.Op(Fmt("%d writers, %zu untouched files", others, stay.size()), true);
    c.Saw(seed);
    VF_EXPECT(bad.empty(), "listing", "%s", bad.c_str());
    NoEscape(c);
}
