// A table with the rows every snapshot must show, and the operations that change both.
#pragma once
#include <sys/stat.h>

#include <algorithm>
#include <filesystem>
#include <fstream>
#include <sstream>

#include "fsguard.h"
#include "paimon/memory/memory_pool.h"
#include "rapidjson/document.h"
#include "tab.h"
#include "vf.h"

namespace world {
using namespace paimon;
using tab::Cell;
using tab::Opts;
using tab::Row;
using vf::Case;
using vf::Fmt;
namespace fs = std::filesystem;
inline std::string S(const Status& s) { return s.ToString(); }
inline constexpr char kDefaultPart[] = "__DEFAULT_PARTITION__";

struct Rec {
    int part;    // index into parts
    int bucket;
    int writer;  // instance that wrote it
    Row row;
};
using State = std::vector<Rec>;
struct SnapInfo {
    std::string user, kind;
    int64_t identifier;
    std::optional<int64_t> watermark;
};
struct Change {  // rows and messages of one prepared commit
    std::string user;
    int64_t identifier = 0;
    std::vector<std::shared_ptr<CommitMessage>> messages;
    std::vector<Rec> rows;
};

inline std::string Slurp(const std::string& p) {
    std::ifstream f(p, std::ios::binary);
    std::stringstream s;
    s << f.rdbuf();
    return s.str();
}

struct World {
    Case& c;
    std::string root;
    std::unique_ptr<tab::Table> t;
    std::vector<std::string> part_keys;
    std::vector<std::vector<Cell>> parts;
    int buckets = -1;  // -1: unaware
    std::map<int64_t, State> snaps;
    std::map<int64_t, SnapInfo> infos;
    int64_t latest = 0;
    int64_t next_row = 1;
    int next_writer = 0;
    std::shared_ptr<MemoryPool> pool = GetMemoryPool();

    explicit World(Case& cc) : c(cc) {}
    ~World() {
        t.reset();
        tab::Forget();
        std::error_code ec;
        if (!root.empty()) fs::remove_all(root, ec);
    }
    std::string TablePath() const { return t->path(); }

    // A random append table. With orphan = true the file suffixes are ones the cleaner knows.
    void Create(const Opts& more, bool known_suffix = false) {
        root = vf::Scratch() + Fmt("/w%llu", (unsigned long long)c.index());
        fsguard::Allow(vf::Scratch());
        std::error_code ec;
        fs::remove_all(root, ec);
        tab::Spec sp;
        int np = c.rng.Below(3);
        std::vector<std::shared_ptr<arrow::Field>> fields = {arrow::field("id", arrow::int64()), arrow::field("a", arrow::int32()),
                                                             arrow::field("s", arrow::utf8()), arrow::field("d", arrow::float64()), arrow::field("b", arrow::boolean())};
        std::vector<int> ptype;
        for (int i = 0; i < np; i++) {
            part_keys.push_back(Fmt("p%d", i));
            ptype.push_back(c.rng.Below(5));
            std::shared_ptr<arrow::DataType> ty = ptype[i] == 0 ? arrow::int32() : ptype[i] == 1 ? arrow::int64() : ptype[i] == 2 ? arrow::boolean() : ptype[i] == 3 ? arrow::int8() : arrow::utf8();
            fields.push_back(arrow::field(part_keys[i], ty));
        }
        for (size_t i = fields.size(); i > 1; i--) std::swap(fields[i - 1], fields[c.rng.Below(i)]);
        sp.schema = arrow::schema(fields);
        sp.partition_keys = part_keys;
        int n = np == 0 ? 1 : c.rng.Range(1, 4);
        std::set<std::string> seen;
        for (int i = 0; i < n; i++) {
            std::vector<Cell> v;
            std::string sig;
            for (int k = 0; k < np; k++) {
                Cell x;
                if (!c.rng.Chance(0.1)) {
                    switch (ptype[k]) {
                        case 0: x = std::to_string((int32_t)c.rng.Edgy64()); break;
                        case 1: x = std::to_string((int64_t)c.rng.Edgy64()); break;
                        case 2: x = c.rng.Chance(0.5) ? "true" : "false"; break;
                        case 3: x = std::to_string((int)(int8_t)c.rng.U64()); break;
                        default: x = c.rng.Of<std::string>({"a", "b", "a/b", "a=b", "20%", "x y", "..", "long partition value beyond seven", "\xc3\xa9", "A", "1"});
                    }
                }
                sig += (x ? *x : "\1") + "|";
                v.push_back(x);
            }
            if (seen.insert(sig).second) parts.push_back(v);
        }
        Opts o = more;
        buckets = c.rng.Chance(0.4) ? -1 : c.rng.Range(1, 3);
        o["bucket"] = std::to_string(buckets);
        if (buckets > 0) o["bucket-key"] = "id";
        auto maybe = [&](double p, const char* k, const std::string& v) { if (c.rng.Chance(p)) o.emplace(k, v); };
        maybe(0.6, "target-file-size", std::to_string(c.rng.Of<int>({1, 100, 200, 400})) + "b");
        maybe(0.6, "manifest.target-file-size", std::to_string(c.rng.Of<int>({1, 90, 150, 300, 1000})) + "b");
        maybe(0.6, "manifest.merge-min-count", std::to_string(c.rng.Of<int>({1, 2, 3, 5})));
        maybe(0.5, "manifest.full-compaction-threshold-size", std::to_string(c.rng.Of<int>({1, 100, 300, 1000})) + "b");
        maybe(0.5, "source.split.target-size", std::to_string(c.rng.Of<int>({1, 100, 300})) + "b");
        maybe(0.5, "source.split.open-file-cost", std::to_string(c.rng.Of<int>({1, 50, 200})) + "b");
        maybe(0.3, "read.batch-size", std::to_string(c.rng.Of<int>({1, 2, 3, 7})));
        maybe(0.3, "write.batch-size", std::to_string(c.rng.Of<int>({1, 2, 3, 7})));
        maybe(0.2, "partition.legacy-name", "false");
        maybe(0.2, "data-file.prefix", "part-");
        if (known_suffix) {
            o.erase("data-file.prefix");
            o["file.format"] = c.rng.Of<std::string>({"orc", "parquet"});
            o["manifest.format"] = c.rng.Of<std::string>({"orc", "avro"});
        }
        sp.options = o;
        std::string shown;
        for (auto& kv : o) shown += kv.first + "=" + kv.second + " ";
        c.Op(Fmt("table %d partition keys, %d partitions, buckets %d, %s", np, (int)parts.size(), buckets, shown.c_str()));
        auto r = tab::Table::Create(root, sp);
        VF_EXPECT(r.ok(), "create-table", "%s", S(r.status()).c_str());
        t = std::move(r).value();
    }
    Opts PartMap(int p) const {
        Opts m;
        for (size_t k = 0; k < part_keys.size(); k++) m[part_keys[k]] = parts[p][k] ? *parts[p][k] : std::string(kDefaultPart);
        return m;
    }
    Row MakeRow(int p) {
        Row r;
        for (auto& f : t->spec().schema->fields()) {
            const std::string& n = f->name();
            if (n == "id") r.push_back(std::to_string(next_row++));
            else if (n == "a") r.push_back(c.rng.Chance(0.2) ? Cell() : Cell(std::to_string(c.rng.Range(-5, 5))));
            else if (n == "s") r.push_back(c.rng.Chance(0.2) ? Cell() : Cell(c.rng.Ascii(c.rng.Below(12), "abcXYZ ")));
            else if (n == "d") r.push_back(c.rng.Chance(0.2) ? Cell() : Cell(std::to_string(c.rng.Range(-8, 8) / 4 * 4)));
            else if (n == "b") r.push_back(c.rng.Chance(0.2) ? Cell() : Cell(c.rng.Chance(0.5) ? "true" : "false"));
            else {
                for (size_t k = 0; k < part_keys.size(); k++) if (part_keys[k] == n) r.push_back(parts[p][k]);
            }
        }
        return r;
    }

    struct Writer {
        std::string user;
        int instance;
        bool streaming;
        int64_t next_identifier = 1;
        std::unique_ptr<FileStoreWrite> write;
        std::vector<Rec> pending;
    };
    // may fail under fault injection
    Result<std::unique_ptr<Writer>> Open(const std::string& user, bool streaming) {
        auto w = t->NewWrite(user, streaming);
        if (!w.ok()) return w.status();
        auto r = std::make_unique<Writer>();
        r->user = user;
        r->instance = next_writer++;
        r->streaming = streaming;
        r->write = std::move(w).value();
        return r;
    }
    Status WriteSome(Writer& w, int max_batches = 4, int max_rows = 7) {
        int nb = c.rng.Range(1, max_batches);
        for (int i = 0; i < nb; i++) {
            int p = c.rng.Below(parts.size());
            int b = buckets > 0 ? c.rng.Below(buckets) : 0;
            int n = c.rng.Range(1, max_rows);
            std::vector<Row> rows;
            for (int k = 0; k < n; k++) rows.push_back(MakeRow(p));
            auto batch = t->Batch(rows, {}, PartMap(p), b);
            VF_EXPECT(batch.ok(), "record-batch", "%s", S(batch.status()).c_str());
            Status s = w.write->Write(std::move(batch).value());
            if (!s.ok()) return s;
            for (auto& r : rows) w.pending.push_back({p, b, w.instance, r});
            c.Op(Fmt("w%d writes %d rows to part %d bucket %d", w.instance, n, p, b), true);
        }
        return Status::OK();
    }
    Result<Change> Prepare(Writer& w) {
        Change ch;
        ch.user = w.user;
        ch.identifier = w.next_identifier++;
        auto m = w.write->PrepareCommit(false, ch.identifier);
        if (!m.ok()) return m.status();
        ch.messages = std::move(m).value();
        ch.rows = std::move(w.pending);
        w.pending.clear();
        if (c.rng.Chance(0.4)) {  // messages usually travel to another process
            auto bytes = CommitMessage::SerializeList(ch.messages, pool);
            VF_EXPECT(bytes.ok(), "message-serialize", "%s", S(bytes.status()).c_str());
            auto back = CommitMessage::DeserializeList(CommitMessage::CurrentVersion(), bytes.value().data(), (int)bytes.value().size(), pool);
            VF_EXPECT(back.ok(), "message-deserialize", "%s", S(back.status()).c_str());
            VF_EXPECT(back.value().size() == ch.messages.size(), "message-count", "%zu of %zu", back.value().size(), ch.messages.size());
            ch.messages = std::move(back).value();
        }
        return ch;
    }
    void Applied(State next, const std::string& user, int64_t identifier, const char* kind, std::optional<int64_t> watermark) {
        if (latest && infos[latest].watermark) watermark = watermark ? std::max(*watermark, *infos[latest].watermark) : infos[latest].watermark;
        latest++;
        snaps[latest] = std::move(next);
        infos[latest] = {user, kind, identifier, watermark};
    }
    State Current() const { return latest ? snaps.at(latest) : State(); }
    State Plus(const std::vector<Rec>& rows) const {
        State s = Current();
        s.insert(s.end(), rows.begin(), rows.end());
        return s;
    }
    bool Matches(int p, const std::vector<Opts>& filters) const {
        if (filters.empty()) return true;
        Opts m = PartMap(p);
        for (auto& f : filters) {
            bool ok = true;
            for (auto& kv : f) ok = ok && m[kv.first] == kv.second;
            if (ok) return true;
        }
        return false;
    }
    State Without(const std::vector<Opts>& filters) const {
        State s;
        for (auto& r : Current()) if (!Matches(r.part, filters)) s.push_back(r);
        return s;
    }
    std::vector<Opts> RandomPartFilters() {
        std::vector<Opts> f;
        int n = c.rng.Range(1, 2);
        for (int i = 0; i < n; i++) {
            Opts m = PartMap(c.rng.Below(parts.size()));
            if (m.size() == 2 && c.rng.Chance(0.4)) m.erase(c.rng.Chance(0.5) ? m.begin() : std::next(m.begin()));
            f.push_back(m);
        }
        return f;
    }

    // ---- observation ----
    std::vector<int64_t> SnapshotIdsOnDisk() const {
        std::vector<int64_t> ids;
        std::error_code ec;
        for (auto& e : fs::directory_iterator(TablePath() + "/snapshot", ec)) {
            std::string n = e.path().filename().string();
            if (n.rfind("snapshot-", 0) == 0 && n.find('.') == std::string::npos) ids.push_back(std::stoll(n.substr(9)));
        }
        std::sort(ids.begin(), ids.end());
        return ids;
    }
    void CheckSnapshotFile(int64_t id) {
        std::string text = Slurp(TablePath() + "/snapshot/snapshot-" + std::to_string(id));
        rapidjson::Document d;
        d.Parse(text.c_str());
        VF_EXPECT(!d.HasParseError() && d.IsObject(), "snapshot-file", "snapshot %lld is not readable: %s", (long long)id, text.substr(0, 200).c_str());
        auto num = [&](const char* k) -> int64_t {
            VF_EXPECT(d.HasMember(k) && d[k].IsInt64(), "snapshot-field", "snapshot %lld has no number %s", (long long)id, k);
            return d[k].GetInt64();
        };
        auto& in = infos.at(id);
        int64_t total = snaps.at(id).size(), before = snaps.count(id - 1) ? snaps.at(id - 1).size() : id == 1 ? 0 : -1;
        VF_EXPECT(num("id") == id, "snapshot-id", "file %lld says %lld", (long long)id, (long long)num("id"));
        VF_EXPECT(num("commitIdentifier") == in.identifier, "snapshot-identifier", "snapshot %lld: %lld, expected %lld", (long long)id, (long long)num("commitIdentifier"), (long long)in.identifier);
        VF_EXPECT(num("totalRecordCount") == total, "total-record-count", "snapshot %lld: %lld, expected %lld", (long long)id, (long long)num("totalRecordCount"), (long long)total);
        if (before >= 0) VF_EXPECT(num("deltaRecordCount") == total - before, "delta-record-count", "snapshot %lld: %lld, expected %lld", (long long)id, (long long)num("deltaRecordCount"), (long long)(total - before));
        VF_EXPECT(std::string(d["commitUser"].GetString()) == in.user, "snapshot-user", "snapshot %lld: %s, expected %s", (long long)id, d["commitUser"].GetString(), in.user.c_str());
        VF_EXPECT(std::string(d["commitKind"].GetString()) == in.kind, "snapshot-kind", "snapshot %lld: %s, expected %s", (long long)id, d["commitKind"].GetString(), in.kind.c_str());
        std::optional<int64_t> wm;
        if (d.HasMember("watermark") && d["watermark"].IsInt64()) wm = d["watermark"].GetInt64();
        VF_EXPECT(wm == in.watermark, "snapshot-watermark", "snapshot %lld: %lld, expected %lld", (long long)id, wm ? (long long)*wm : -1, in.watermark ? (long long)*in.watermark : -1);
    }
    void Compare(std::vector<Row> got, const State& want, const std::vector<std::string>& columns, const std::string& what, bool ordered) {
        auto& schema = *t->spec().schema;
        std::vector<int> cols;
        for (auto& n : columns) cols.push_back(schema.GetFieldIndex(n));
        if (columns.empty()) for (int i = 0; i < schema.num_fields(); i++) cols.push_back(i);
        std::vector<Row> exp;
        for (auto& r : want) {
            Row x = {Cell("0")};
            for (int i : cols) x.push_back(r.row[i]);
            exp.push_back(x);
        }
        VF_EXPECT(got.size() == exp.size(), got.size() < exp.size() ? "rows-missing" : "rows-extra", "%s: %zu rows, expected %zu", what.c_str(), got.size(), exp.size());
        // order inside a bucket, per writer instance, by the unique row id
        int id_col = -1;
        for (size_t i = 0; i < cols.size(); i++) if (schema.field(cols[i])->name() == "id") id_col = (int)i + 1;
        if (ordered && buckets > 0 && id_col > 0) {
            std::map<std::string, size_t> pos;
            for (size_t i = 0; i < got.size(); i++) pos[*got[i][id_col]] = i;
            std::map<std::tuple<int, int, int>, size_t> last;
            int idf = schema.GetFieldIndex("id");
            for (auto& r : want) {
                auto it = pos.find(*r.row[idf]);
                if (it == pos.end()) break;
                auto key = std::make_tuple(r.part, r.bucket, r.writer);
                VF_EXPECT(!last.count(key) || last[key] < it->second, "bucket-order", "%s: rows of one writer in one bucket are out of order", what.c_str());
                last[key] = it->second;
            }
        }
        std::sort(got.begin(), got.end());
        std::sort(exp.begin(), exp.end());
        for (size_t i = 0; i < exp.size(); i++)
            VF_EXPECT(got[i] == exp[i], "rows-differ", "%s: row %s, expected %s", what.c_str(), tab::Show(got[i]).c_str(), tab::Show(exp[i]).c_str());
    }
    // Reads one snapshot in a random way and compares.
    void CheckRead(int64_t id, bool at_latest) {
        Opts o;
        if (!at_latest) {
            o["scan.mode"] = "from-snapshot";
            o["scan.snapshot-id"] = std::to_string(id);
        }
        const State* want = &snaps.at(id);
        State part;
        std::vector<Opts> filters;
        std::optional<int> bucket;
        if (!part_keys.empty() && c.rng.Chance(0.3)) filters = RandomPartFilters();
        if (buckets > 0 && c.rng.Chance(0.2)) bucket = c.rng.Below(buckets);
        if (!filters.empty() || bucket) {
            for (auto& r : *want) if (Matches(r.part, filters) && (!bucket || r.bucket == *bucket)) part.push_back(r);
            want = &part;
        }
        auto scan = t->NewScan(false, o, nullptr, filters, bucket);
        VF_EXPECT(scan.ok(), "scan-create", "snapshot %lld: %s", (long long)id, S(scan.status()).c_str());
        auto plan = scan.value()->CreatePlan();
        VF_EXPECT(plan.ok(), "scan-plan", "snapshot %lld: %s", (long long)id, S(plan.status()).c_str());
        VF_EXPECT(plan.value()->SnapshotId() == std::optional<int64_t>(id), "plan-snapshot", "planned %lld, expected %lld", plan.value()->SnapshotId() ? (long long)*plan.value()->SnapshotId() : -1, (long long)id);
        auto splits = plan.value()->Splits();
        if (c.rng.Chance(0.4)) {
            for (auto& sp : splits) {
                auto bytes = Split::Serialize(sp, pool);
                VF_EXPECT(bytes.ok(), "split-serialize", "%s", S(bytes.status()).c_str());
                auto back = Split::Deserialize(bytes.value().data(), bytes.value().size(), pool);
                VF_EXPECT(back.ok(), "split-deserialize", "%s", S(back.status()).c_str());
                sp = back.value();
            }
        }
        tab::Table::ReadSpec rs;
        if (c.rng.Chance(0.4)) {
            std::vector<std::string> names = t->spec().schema->field_names();
            for (size_t i = names.size(); i > 1; i--) std::swap(names[i - 1], names[c.rng.Below(i)]);
            names.resize(c.rng.Range(1, names.size()));
            rs.columns = names;
        }
        rs.prefetch = c.rng.Chance(0.3);
        if (c.rng.Chance(0.4)) rs.options["read.batch-size"] = std::to_string(c.rng.Of<int>({1, 2, 3, 5, 8}));
        std::vector<Row> got;
        if (splits.empty() ? false : c.rng.Chance(0.3)) {  // split by split
            for (auto& sp : splits) {
                auto r = t->Read({sp}, rs);
                VF_EXPECT(r.ok(), "read", "snapshot %lld: %s", (long long)id, S(r.status()).c_str());
                for (auto& x : r.value()) got.push_back(x);
            }
        } else if (!splits.empty()) {
            auto r = t->Read(splits, rs);
            VF_EXPECT(r.ok(), "read", "snapshot %lld: %s", (long long)id, S(r.status()).c_str());
            got = r.value();
        }
        c.Op(Fmt("read snapshot %lld: %zu rows in %zu splits", (long long)id, got.size(), splits.size()));
        Compare(got, *want, rs.columns, Fmt("snapshot %lld%s", (long long)id, rs.prefetch ? " with prefetch" : ""), true);
    }
    void CheckHistory(bool all_reads) {
        auto ids = SnapshotIdsOnDisk();
        VF_EXPECT((int64_t)ids.size() == (int64_t)snaps.size(), "snapshot-count", "%zu snapshots on disk, expected %zu", ids.size(), snaps.size());
        size_t i = 0;
        for (auto& kv : snaps) VF_EXPECT(ids[i++] == kv.first, "snapshot-ids", "snapshot %lld is missing", (long long)kv.first);
        for (auto& kv : snaps) {
            CheckSnapshotFile(kv.first);
            if (all_reads) CheckRead(kv.first, false);
        }
        if (latest) CheckRead(latest, true);
        auto bad = fsguard::TakeRefused();
        VF_EXPECT(bad.empty(), "escaped", "a destructive call left the table's scratch directory: %s", bad.empty() ? "" : bad[0].c_str());
    }
};
}  // namespace world
