// Plugin registry, process-wide instances and scheme routing.
#include "vf.h"

#include <atomic>
#include <mutex>
#include <set>
#include <thread>

#include "paimon/common/factories/io_hook.h"
#include "paimon/common/fs/resolving_file_system.h"
#include "paimon/factories/factory.h"
#include "paimon/factories/factory_creator.h"
#include "paimon/file_index/file_indexer_factory.h"
#include "paimon/file_index/file_indexer.h"
#include "paimon/format/file_format.h"
#include "paimon/format/file_format_factory.h"
#include "paimon/fs/file_system.h"
#include "paimon/fs/file_system_factory.h"
#include "paimon/global_index/global_indexer.h"
#include "paimon/global_index/global_indexer_factory.h"

using namespace paimon;
using vf::Case;
using vf::Fmt;

namespace {
struct Call { int fs; std::string op, a, b; };
std::mutex g_mu;
std::vector<Call> g_calls;
std::atomic<int> g_next{0};
struct Made { int id; std::string factory, path; std::map<std::string, std::string> options; };
std::vector<Made> g_made;

class Recorder : public FileSystem {
 public:
    explicit Recorder(int id) : id_(id) {}
    void Log(const char* op, const std::string& a, const std::string& b = "") const {
        std::lock_guard<std::mutex> l(g_mu);
        g_calls.push_back({id_, op, a, b});
    }
    Result<std::unique_ptr<InputStream>> Open(const std::string& p) const override { Log("open", p); return Status::NotExist("open"); }
    Result<std::unique_ptr<OutputStream>> Create(const std::string& p, bool o) const override { Log("create", p, o ? "1" : "0"); return Status::NotImplemented("create"); }
    Status Mkdirs(const std::string& p) const override { Log("mkdirs", p); return Status::OK(); }
    Status Rename(const std::string& s, const std::string& d) const override { Log("rename", s, d); return Status::OK(); }
    Status Delete(const std::string& p, bool r) const override { Log("delete", p, r ? "1" : "0"); return Status::OK(); }
    Result<std::unique_ptr<FileStatus>> GetFileStatus(const std::string& p) const override { Log("status", p); return Status::NotExist("status"); }
    Status ListDir(const std::string& p, std::vector<std::unique_ptr<BasicFileStatus>>*) const override { Log("listdir", p); return Status::OK(); }
    Status ListFileStatus(const std::string& p, std::vector<std::unique_ptr<FileStatus>>*) const override { Log("liststatus", p); return Status::OK(); }
    Result<bool> Exists(const std::string& p) const override { Log("exists", p); return p.size() % 2 == 0; }
 private:
    int id_;
};
class RecFactory : public FileSystemFactory {
 public:
    explicit RecFactory(std::string n) : name_(std::move(n)) {}
    const char* Identifier() const override { return name_.c_str(); }
    Result<std::unique_ptr<FileSystem>> Create(const std::string& path, const std::map<std::string, std::string>& options) const override {
        if (path.find("refuse") != std::string::npos) return Status::IOError("refused");
        int id = ++g_next;
        std::lock_guard<std::mutex> l(g_mu);
        g_made.push_back({id, name_, path, options});
        return std::unique_ptr<FileSystem>(new Recorder(id));
    }
 private:
    std::string name_;
};
class Other : public Factory {
 public:
    explicit Other(std::string n) : name_(std::move(n)) {}
    const char* Identifier() const override { return name_.c_str(); }
 private:
    std::string name_;
};
class RecFormat : public FileFormatFactory {
 public:
    explicit RecFormat(std::string n) : name_(std::move(n)) {}
    const char* Identifier() const override { return name_.c_str(); }
    Result<std::unique_ptr<FileFormat>> Create(const std::map<std::string, std::string>& o) const override {
        return Status::NotImplemented("format " + name_ + " " + std::to_string(o.size()));
    }
 private:
    std::string name_;
};
class RecFileIndex : public FileIndexerFactory {
 public:
    explicit RecFileIndex(std::string n) : name_(std::move(n)) {}
    const char* Identifier() const override { return name_.c_str(); }
    Result<std::unique_ptr<FileIndexer>> Create(const std::map<std::string, std::string>& o) const override {
        return Status::NotImplemented("index " + name_ + " " + std::to_string(o.size()));
    }
 private:
    std::string name_;
};
class RecGlobal : public GlobalIndexerFactory {
 public:
    explicit RecGlobal(std::string n) : name_(std::move(n)) {}
    const char* Identifier() const override { return name_.c_str(); }
    Result<std::unique_ptr<GlobalIndexer>> Create(const std::map<std::string, std::string>& o) const override {
        return Status::NotImplemented("global " + name_ + " " + std::to_string(o.size()));
    }
 private:
    std::string name_;
};
enum Kind { kFs, kFormat, kIndex, kGlobal, kPlain };
struct Reg { Kind kind; Factory* f; };
std::map<std::string, Reg>& Registered() { static std::map<std::string, Reg> m; return m; }
int g_uniq = 0;
Factory* Make(Kind k, const std::string& n) {
    switch (k) {
        case kFs: return new RecFactory(n);
        case kFormat: return new RecFormat(n);
        case kIndex: return new RecFileIndex(n);
        case kGlobal: return new RecGlobal(n);
        default: return new Other(n);
    }
}
void Lookup(Case& c, const std::string& name) {
    auto& m = Registered();
    auto* creator = FactoryCreator::GetInstance();
    auto it = m.find(name);
    VF_EXPECT(creator->Create(name) == (it == m.end() ? nullptr : it->second.f), "lookup", "'%s' resolves to %s", name.c_str(), it == m.end() ? "a component that was never registered under it" : "another component");
    auto kind = [&](const std::string& n) { auto i = m.find(n); return i == m.end() ? -1 : (int)i->second.kind; };
    std::map<std::string, std::string> opt;
    for (int i = 0; i < (int)c.rng.Below(3); i++) opt[std::to_string(i)] = "v";
    auto says = [&](const char* what, const std::string& n) { return Fmt("%s %s %zu", what, n.c_str(), opt.size()); };
    auto fs = FileSystemFactory::Get(name, "x:/p", opt);
    VF_EXPECT(fs.ok() == (kind(name) == kFs), "fs-kind", "file system '%s': %s", name.c_str(), fs.status().ToString().c_str());
    if (fs.ok()) {
        std::lock_guard<std::mutex> l(g_mu);
        VF_EXPECT(!g_made.empty() && g_made.back().factory == name && g_made.back().path == "x:/p" && g_made.back().options == opt, "fs-args", "file system '%s' was created with other arguments", name.c_str());
    }
    auto fmt = FileFormatFactory::Get(name, opt);
    VF_EXPECT(!fmt.ok(), "format-kind", "format '%s' was created", name.c_str());
    VF_EXPECT((fmt.status().ToString().find(says("format", name)) != std::string::npos) == (kind(name) == kFormat), "format-kind", "format '%s': %s", name.c_str(), fmt.status().ToString().c_str());
    auto idx = FileIndexerFactory::Get(name, opt);
    if (kind(name) == kIndex) VF_EXPECT(!idx.ok() && idx.status().ToString().find(says("index", name)) != std::string::npos, "index-kind", "index '%s' is not found", name.c_str());
    else VF_EXPECT(!idx.ok() || idx.value() == nullptr, "index-kind", "index '%s' was invented", name.c_str());
    std::string gname = name + "-global";
    auto glo = GlobalIndexerFactory::Get(name, opt);
    if (kind(gname) == kGlobal) VF_EXPECT(!glo.ok() && glo.status().ToString().find(says("global", gname)) != std::string::npos, "global-kind", "global index '%s' is not found", name.c_str());
    else VF_EXPECT(!glo.ok() || glo.value() == nullptr, "global-kind", "global index '%s' was invented", name.c_str());
}
std::string RandomName(Case& c) {
    std::string base = c.rng.Ascii(c.rng.Below(4), "abAB-.");
    return "n" + base + (c.rng.Chance(0.5) ? std::to_string(++g_uniq) : std::to_string(c.rng.Below(5)));
}

const char* kSchemes[] = {"", "file", "s1", "s2", "hdfs", "S1"};
struct Route {
    std::map<std::string, std::string> map;
    std::string def;
    // a scheme that must be served by a factory, or "" when refused
    std::string For(const std::string& scheme) const {
        auto it = map.find(scheme);
        if (it == map.end() && scheme.empty()) it = map.find("file");
        // an explicit empty scheme is overridden by the local one
        if (scheme.empty() && map.count("file")) it = map.find("file");
        return it == map.end() ? def : it->second;
    }
};
void EnsureRouteFactories() {
    static bool done = [] {
        for (const char* n : {"rfs-a", "rfs-b", "rfs-c"}) FactoryCreator::GetInstance()->Register(n, new RecFactory(n));
        FactoryCreator::GetInstance()->Register("rfs-wrong", new Other("rfs-wrong"));
        return true;
    }();
    (void)done;
}
Route RandomRoute(Case& c) {
    Route r;
    const std::vector<std::string> ids = {"rfs-a", "rfs-b", "rfs-c", "rfs-wrong", "rfs-unknown"};
    auto pick = [&] { return ids[c.rng.Chance(0.15) ? 3 + c.rng.Below(2) : c.rng.Below(3)]; };
    for (const char* s : {"file", "s1", "s2", "hdfs"}) if (c.rng.Chance(0.5)) r.map[s] = pick();
    r.def = pick();
    return r;
}
bool Works(const std::string& id) { return id == "rfs-a" || id == "rfs-b" || id == "rfs-c"; }
std::string RandomPath(Case& c, std::string* scheme, std::string* authority) {
    *scheme = kSchemes[c.rng.Below(6)];
    *authority = c.rng.Chance(0.6) ? c.rng.Of<std::string>({"h", "h1", "H", "h:80"}) : "";
    std::string p = scheme->empty() ? "" : *scheme + ":";
    if (!authority->empty()) p += "//" + *authority;
    p += "/" + c.rng.Ascii(c.rng.Below(6), "ab/:");
    if (scheme->empty() && authority->empty()) {
        while (p.size() > 1 && p[1] == '/') p.erase(1, 1);
    }
    if (authority->empty()) {  // "//x" would name an authority
        size_t b = scheme->empty() ? 0 : scheme->size() + 1;
        while (p.size() > b + 1 && p[b + 1] == '/') p.erase(b + 1, 1);
    }
    return p;
}
}  // namespace

// the very first use in this process happens on several threads at once
VF_SCENARIO(first_use, 8, 8) {
    const int kThreads = 8;
    std::vector<IOHook*> got(kThreads);
    std::vector<FactoryCreator*> reg(kThreads);
    std::atomic<int> ready{0};
    std::vector<std::thread> ts;
    for (int t = 0; t < kThreads; t++) ts.emplace_back([&, t] {
        ready++;
        while (ready < kThreads) {}
        got[t] = IOHook::GetInstance();
        (void)got[t]->IOCount();
        reg[t] = FactoryCreator::GetInstance();
        (void)reg[t]->Create("nothing");
    });
    for (auto& t : ts) t.join();
    c.Op("first use", true);
    for (int t = 0; t < kThreads; t++) VF_EXPECT(got[t] && got[t] == got[0] && reg[t] && reg[t] == reg[0], "two-singletons", "threads see different process-wide instances");
    c.Saw(c.index());
}

VF_SCENARIO(registry, 4000, 40000) {
    auto* creator = FactoryCreator::GetInstance();
    std::vector<std::string> names;
    int n = (int)c.rng.Range(1, 6);
    for (int i = 0; i < n; i++) {
        std::string name = RandomName(c);
        if (c.rng.Chance(0.3)) name += "-global";
        names.push_back(name);
        if (creator->Create(name) == nullptr && !Registered().count(name) && Registered().size() < 4000) {
            Kind k = (Kind)c.rng.Below(5);
            Factory* f = Make(k, name);
            creator->Register(name, f);
            Registered()[name] = {k, f};
            c.Op(Fmt("register %s kind %d", name.c_str(), (int)k), true);
        }
        Lookup(c, name);
        if (c.rng.Chance(0.5)) Lookup(c, name + "x");
        if (c.rng.Chance(0.5)) Lookup(c, name.substr(0, name.size() - 1));
        Lookup(c, c.rng.Pick(names));
        c.Saw(vf::HashStr(name));
    }
    std::vector<std::string> types = creator->GetRegisteredType();
    std::set<std::string> set(types.begin(), types.end());
    VF_EXPECT(set.size() == types.size(), "types-duplicate", "a registered type is listed twice");
    for (auto& kv : Registered()) VF_EXPECT(set.count(kv.first), "types-missing", "'%s' is not listed", kv.first.c_str());
    for (auto& t : types) VF_EXPECT(creator->Create(t) != nullptr, "types-extra", "'%s' is listed but cannot be found", t.c_str());
}

VF_SCENARIO(routing, 30000, 400000) {
    EnsureRouteFactories();
    Route r = RandomRoute(c);
    std::map<std::string, std::string> opts;
    if (c.rng.Chance(0.5)) opts["k"] = std::to_string(c.rng.Below(100));
    { std::lock_guard<std::mutex> l(g_mu); g_calls.clear(); g_made.clear(); }
    ResolvingFileSystem fs(r.map, r.def, opts);
    std::map<std::pair<std::string, std::string>, int> instance;
    std::string text = "default " + r.def;
    for (auto& kv : r.map) text += " " + kv.first + "=" + kv.second;
    int n = (int)c.rng.Range(2, 14);
    for (int i = 0; i < n; i++) {
        std::string scheme, auth, scheme2, auth2;
        std::string p = RandomPath(c, &scheme, &auth), q = RandomPath(c, &scheme2, &auth2);
        if (c.rng.Chance(0.05)) p = (scheme.empty() ? "/" : scheme + "://" + (auth.empty() ? "" : auth) + "/") + "refuse";
        if (scheme.empty() && p.find("refuse") != std::string::npos) auth = "";
        size_t before;
        { std::lock_guard<std::mutex> l(g_mu); before = g_calls.size(); }
        std::vector<std::unique_ptr<BasicFileStatus>> bs;
        std::vector<std::unique_ptr<FileStatus>> ls;
        std::string op, b;
        Status st;
        bool flag = c.rng.Chance(0.5);
        switch (c.rng.Below(9)) {
            case 0: op = "open"; st = fs.Open(p).status(); break;
            case 1: op = "create"; b = flag ? "1" : "0"; st = fs.Create(p, flag).status(); break;
            case 2: op = "mkdirs"; st = fs.Mkdirs(p); break;
            case 3: op = "rename"; b = q; st = fs.Rename(p, q); break;
            case 4: op = "delete"; b = flag ? "1" : "0"; st = fs.Delete(p, flag); break;
            case 5: op = "status"; st = fs.GetFileStatus(p).status(); break;
            case 6: op = "listdir"; st = fs.ListDir(p, &bs); break;
            case 7: op = "liststatus"; st = fs.ListFileStatus(p, &ls); break;
            default: {
                op = "exists";
                auto e = fs.Exists(p);
                st = e.status();
                if (e.ok()) VF_EXPECT(e.value() == (p.size() % 2 == 0), "forwarded-result", "another result for %s", p.c_str());
            }
        }
        c.Op(op + " " + p, true);
        std::lock_guard<std::mutex> l(g_mu);
        std::string id = r.For(scheme);
        auto key = std::make_pair(scheme, auth);
        bool refused = !Works(id) || (p.find("refuse") != std::string::npos && !instance.count(key));
        if (refused) {
            VF_EXPECT(!st.ok() && g_calls.size() == before, "unroutable", "%s was served although '%s' cannot be created (%s)", p.c_str(), id.c_str(), text.c_str());
            continue;
        }
        VF_EXPECT(g_calls.size() == before + 1, "not-forwarded", "%s of %s reached %zu file systems: %s", op.c_str(), p.c_str(), g_calls.size() - before, st.ToString().c_str());
        const Call& call = g_calls.back();
        VF_EXPECT(call.op == op && call.a == p && call.b == b, "forwarded-args", "%s %s %s became %s %s %s", op.c_str(), p.c_str(), b.c_str(), call.op.c_str(), call.a.c_str(), call.b.c_str());
        const Made* made = nullptr;
        for (auto& m : g_made) if (m.id == call.fs) made = &m;
        VF_EXPECT(made && made->factory == id, "wrong-fs", "%s was served by '%s' instead of '%s' (%s)", p.c_str(), made ? made->factory.c_str() : "?", id.c_str(), text.c_str());
        VF_EXPECT(made->options == opts, "fs-options", "file system created with other options");
        auto it = instance.find(key);
        if (it != instance.end()) VF_EXPECT(it->second == call.fs, "instance-changed", "%s got another instance than before", p.c_str());
        else for (auto& kv : instance) VF_EXPECT(kv.second != call.fs, "instance-shared", "%s shares the instance of scheme '%s' authority '%s'", p.c_str(), kv.first.first.c_str(), kv.first.second.c_str());
        instance[key] = call.fs;
    }
    c.Saw(vf::HashStr(text) ^ instance.size());
}

VF_SCENARIO(concurrent_registry, 300, 3000) {
    auto* creator = FactoryCreator::GetInstance();
    const int kThreads = 6, kEach = 4;
    std::string prefix = Fmt("t%llu-", (unsigned long long)c.rng.U64());
    std::vector<std::thread> ts;
    std::atomic<int> ready{0};
    std::mutex mu;
    std::string bad;
    auto fail = [&](const std::string& s) { std::lock_guard<std::mutex> l(mu); bad = s; };
    std::vector<std::vector<Factory*>> made(kThreads, std::vector<Factory*>(kEach));
    for (int t = 0; t < kThreads; t++) for (int i = 0; i < kEach; i++) made[t][i] = new Other(prefix + std::to_string(t * kEach + i));
    for (int t = 0; t < kThreads; t++) {
        ts.emplace_back([&, t] {
            ready++;
            while (ready < kThreads) {}
            if (FactoryCreator::GetInstance() != creator) fail("another registry instance");
            for (int i = 0; i < kEach; i++) {
                creator->Register(made[t][i]->Identifier(), made[t][i]);
                if (creator->Create(made[t][i]->Identifier()) != made[t][i]) fail("own registration not visible");
                int o = (t + 1 + i) % kThreads;
                Factory* f = creator->Create(made[o][i]->Identifier());
                if (f && f != made[o][i]) fail("another component under that name");
                if (i == 1 && creator->GetRegisteredType().empty()) fail("empty list");
            }
        });
    }
    for (auto& t : ts) t.join();
    c.Op("register " + prefix, true);
    VF_EXPECT(bad.empty(), "concurrent-registry", "%s", bad.c_str());
    for (auto& v : made) for (auto* f : v) VF_EXPECT(creator->Create(f->Identifier()) == f, "lost-registration", "a registration was lost");
    c.Saw(vf::HashStr(prefix));
}

VF_SCENARIO(concurrent_routing, 600, 6000) {
    EnsureRouteFactories();
    { std::lock_guard<std::mutex> l(g_mu); g_calls.clear(); g_made.clear(); }
    Route r;
    r.map = {{"s1", "rfs-a"}, {"s2", "rfs-b"}, {"file", "rfs-c"}};
    r.def = "rfs-a";
    ResolvingFileSystem fs(r.map, r.def, {});
    const int kThreads = 6;
    std::vector<std::vector<std::string>> paths(kThreads);
    std::string text;
    for (auto& v : paths) for (int i = 0; i < 6; i++) {
        v.push_back(c.rng.Of<std::string>({"s1://a/x", "s1://b/x", "s2://a/y", "s1:/z", "/w", "file:/w", "zz://a/q"}) + std::to_string(c.rng.Below(10000)));
        text += v.back() + " ";
    }
    c.Op(text, true);
    std::atomic<int> ready{0};
    std::vector<std::thread> ts;
    for (int t = 0; t < kThreads; t++) ts.emplace_back([&, t] {
        ready++;
        while (ready < kThreads) {}
        for (auto& p : paths[t]) (void)fs.Mkdirs(p);
    });
    for (auto& t : ts) t.join();
    std::lock_guard<std::mutex> l(g_mu);
    VF_EXPECT(g_calls.size() == kThreads * 6u, "lost-call", "%zu calls instead of %u", g_calls.size(), kThreads * 6u);
    std::map<std::string, std::set<int>> used;
    std::map<int, std::set<std::string>> serves;
    for (auto& call : g_calls) {
        std::string key = call.a.substr(0, call.a.find_last_of('/'));
        used[key].insert(call.fs);
        serves[call.fs].insert(key);
    }
    for (auto& u : used) VF_EXPECT(u.second.size() == 1, "two-instances", "'%s' was served by %zu instances", u.first.c_str(), u.second.size());
    for (auto& u : serves) VF_EXPECT(u.second.size() == 1, "instance-shared", "one instance serves %zu authorities", u.second.size());
    c.Saw(vf::HashStr(text));
}

