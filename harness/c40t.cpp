// Tables with a blob column: random histories of appends and column writes with tiny blob files, and
// reads of every snapshot against the values written.
#include <filesystem>
#include <fstream>

#include "fsguard.h"
#include "paimon/common/data/blob_utils.h"
#include "paimon/core/io/data_file_meta.h"
#include "paimon/core/table/sink/commit_message_impl.h"
#include "paimon/core/table/source/data_split_impl.h"
#include "paimon/data/blob.h"
#include "paimon/fs/file_system.h"
#include "paimon/fs/file_system_factory.h"
#include "paimon/global_index/bitmap_global_index_result.h"
#include "paimon/memory/bytes.h"
#include "paimon/memory/memory_pool.h"
#include "paimon/read_context.h"
#include "paimon/scan_context.h"
#include "paimon/utils/range.h"
#include "paimon/write_context.h"
#include "tab.h"
#include "vf.h"

namespace {
using namespace paimon;
using tab::Cell;
using tab::Opts;
using tab::Row;
using vf::Case;
using vf::Fmt;
namespace fs = std::filesystem;
std::string S(const Status& s) { return s.ToString(); }
constexpr char kId[] = "_ROW_ID";

struct Group { int64_t first, count; Cell part; };
struct Txn {
    std::vector<std::shared_ptr<CommitMessage>> messages;
    struct Piece { std::string file; std::vector<int> columns; std::vector<Row> rows; int64_t first; Cell part; };
    std::vector<Piece> pieces;      // one per file without blobs
    std::set<std::string> files;
};

struct Blobs {
    Case& c;
    std::string root;
    std::unique_ptr<tab::Table> t;
    std::vector<std::string> names;
    int blob = -1, part = -1;
    std::map<int64_t, std::map<int64_t, Row>> snaps;
    std::vector<Group> groups;
    std::set<std::string> files;
    int64_t latest = 0, tick = 0, next_row = 0;
    int sources = 0;
    std::shared_ptr<MemoryPool> pool = GetMemoryPool();
    std::shared_ptr<FileSystem> local;

    explicit Blobs(Case& cc) : c(cc) {}
    ~Blobs() {
        t.reset();
        tab::Forget();
        tab::SetPreciseSelection(false);
        std::error_code ec;
        if (!root.empty()) fs::remove_all(root, ec);
    }
    void Create() {
        root = vf::Scratch() + Fmt("/b%llu", (unsigned long long)c.index());
        fsguard::Allow(vf::Scratch());
        std::error_code ec;
        fs::remove_all(root, ec);
        fs::create_directories(root, ec);
        auto l = FileSystemFactory::Get("local", root, {});
        VF_EXPECT(l.ok(), "local", "%s", S(l.status()).c_str());
        local = std::move(l).value();
        int n = c.rng.Range(1, 3);
        std::vector<std::shared_ptr<arrow::Field>> fields;
        for (int i = 0; i < n; i++) fields.push_back(arrow::field(Fmt("c%d", i), c.rng.Chance(0.5) ? arrow::int32() : arrow::utf8()));
        tab::Spec sp;
        if (c.rng.Chance(0.3)) {
            fields.insert(fields.begin() + c.rng.Below(fields.size() + 1), arrow::field("p", arrow::utf8()));
            sp.partition_keys = {"p"};
        }
        fields.insert(fields.begin() + c.rng.Below(fields.size() + 1), BlobUtils::ToArrowField("b", true));
        for (size_t i = 0; i < fields.size(); i++) {
            names.push_back(fields[i]->name());
            if (names.back() == "b") blob = i;
            if (names.back() == "p") part = i;
        }
        sp.schema = arrow::schema(fields);
        Opts o;
        o["row-tracking.enabled"] = "true";
        o["data-evolution.enabled"] = "true";
        auto maybe = [&](double p, const char* k, const std::string& v) { if (c.rng.Chance(p)) o.emplace(k, v); };
        maybe(0.5, "manifest.target-file-size", std::to_string(c.rng.Of<int>({1, 150, 1000})) + "b");
        maybe(0.5, "manifest.merge-min-count", std::to_string(c.rng.Of<int>({1, 2, 3})));
        maybe(0.5, "source.split.target-size", std::to_string(c.rng.Of<int>({1, 100, 300})) + "b");
        maybe(0.5, "source.split.open-file-cost", "1b");
        maybe(0.4, "read.batch-size", std::to_string(c.rng.Of<int>({1, 2, 3, 7})));
        maybe(0.5, "blob.target-file-size", c.rng.Of<const char*>({"1b", "40b", "80b", "200b"}));
        sp.options = o;
        tab::SetPreciseSelection(c.rng.Chance(0.3));
        std::string shown;
        for (auto& f : fields) shown += f->name() + ":" + f->type()->ToString() + " ";
        for (auto& kv : o) shown += kv.first + "=" + kv.second + " ";
        c.Op("table " + shown);
        auto r = tab::Table::Create(root, sp);
        VF_EXPECT(r.ok(), "create-table", "%s", S(r.status()).c_str());
        t = std::move(r).value();
    }
    Cell Value(int k) {
        if (k == blob) return c.rng.Bytes(c.rng.Chance(0.1) ? c.rng.Range(100, 3000) : c.rng.Range(0, 30));
        if (c.rng.Chance(0.2)) return {};
        if (t->spec().schema->field(k)->type()->id() == arrow::Type::INT32) return std::to_string(c.rng.Range(-99, 99));
        return c.rng.Ascii(c.rng.Range(0, 6));
    }
    std::string Descriptor(const std::string& v) {
        std::string path = root + Fmt("/src%d", sources++), head = c.rng.Bytes(c.rng.Range(0, 9)), tail = c.rng.Bytes(c.rng.Range(0, 9));
        std::ofstream(path, std::ios::binary) << head << v << tail;
        auto b = Blob::FromPath(path, head.size(), v.size());
        VF_EXPECT(b.ok(), "from-path", "%s", S(b.status()).c_str());
        auto d = b.value()->ToDescriptor(pool);
        return std::string(d->data(), d->size());
    }
    // Writes rows of one partition; update: the rows of the group that starts there.
    void Write(Txn* txn, std::vector<int> columns, const Cell& p, int64_t count, int64_t update) {
        std::vector<std::string> write;
        std::vector<std::shared_ptr<arrow::Field>> fields;
        bool has_blob = std::count(columns.begin(), columns.end(), blob);
        for (int k : columns) write.push_back(names[k]), fields.push_back(t->spec().schema->field(k));
        auto schema = arrow::schema(fields);
        bool refer = has_blob && c.rng.Chance(0.3);
        Opts o;
        if (refer) o["blob-as-descriptor"] = "true";
        if (update < 0 && c.rng.Chance(0.4)) o["target-file-size"] = c.rng.Of<const char*>({"1b", "100b", "300b"});
        if (c.rng.Chance(0.4)) o["blob.target-file-size"] = c.rng.Of<const char*>({"1b", "40b", "80b", "200b"});
        WriteContextBuilder b(t->path(), "u");
        b.SetOptions(t->WithFormat(o)).WithWriteSchema(write);
        auto ctx = b.Finish();
        VF_EXPECT(ctx.ok(), "write-context", "%s", S(ctx.status()).c_str());
        auto w = FileStoreWrite::Create(std::move(ctx).value());
        VF_EXPECT(w.ok(), "write-create", "%s", S(w.status()).c_str());
        std::vector<Row> rows;
        std::string told;
        while ((int64_t)rows.size() < count) {
            int64_t n = c.rng.Range(1, count - rows.size());
            std::vector<Row> batch, given;
            for (int64_t i = 0; i < n; i++) {
                Row r, g;
                for (int k : columns) {
                    r.push_back(k == part ? p : Value(k));
                    g.push_back(k == blob && refer ? Cell(Descriptor(*r.back())) : r.back());
                    told += k == blob ? Fmt("#%zu ", r.back()->size()) : (r.back() ? *r.back() : "-") + " ";
                }
                batch.push_back(r);
                given.push_back(g);
            }
            ::ArrowArray a;
            VF_EXPECT(arrow::ExportArray(*tab::MakeArray(schema, given), &a).ok(), "export", "cannot export");
            RecordBatchBuilder rb(&a);
            Opts pm;
            if (part >= 0) pm["p"] = *p;
            auto rec = rb.SetPartition(pm).SetBucket(0).Finish();
            VF_EXPECT(rec.ok(), "record-batch", "%s", S(rec.status()).c_str());
            Status s = w.value()->Write(std::move(rec).value());
            VF_EXPECT(s.ok(), "write", "%s", S(s).c_str());
            rows.insert(rows.end(), batch.begin(), batch.end());
            told += "| ";
        }
        auto m = w.value()->PrepareCommit(false, ++tick);
        VF_EXPECT(m.ok(), "prepare", "%s", S(m.status()).c_str());
        Status closed = w.value()->Close();
        VF_EXPECT(closed.ok(), "write-close", "%s", S(closed).c_str());
        std::string cs;
        for (auto& x : write) cs += x + " ";
        size_t at = 0;
        int64_t blobs = 0, nb = 0;
        for (auto& msg : m.value()) {
            auto impl = std::dynamic_pointer_cast<CommitMessageImpl>(msg);
            VF_EXPECT(impl != nullptr, "message", "not a commit message of a table");
            for (auto& f : impl->GetNewFilesIncrement().NewFiles()) {
                txn->files.insert(f->file_name);
                if (f->file_name.size() > 5 && f->file_name.substr(f->file_name.size() - 5) == ".blob") {
                    if (update >= 0) f->AssignFirstRowId(update + blobs);
                    blobs += f->row_count;
                    nb++;
                    continue;
                }
                VF_EXPECT(f->row_count > 0 && at + f->row_count <= rows.size(), "file-rows", "files hold more rows than were written");
                txn->pieces.push_back({f->file_name, columns, {rows.begin() + at, rows.begin() + at + f->row_count}, update, p});
                at += f->row_count;
                if (update >= 0) f->AssignFirstRowId(update);
            }
            txn->messages.push_back(msg);
        }
        c.Op(Fmt("%s%s%s in %lld blob files%s: %s", update >= 0 ? Fmt("update from %lld ", (long long)update).c_str() : "append ", cs.c_str(), p ? p->c_str() : "", (long long)nb, refer ? " by descriptor" : "", told.c_str()), true);
        VF_EXPECT(at == rows.size(), "file-rows", "files hold %zu of %zu rows", at, rows.size());
        VF_EXPECT(blobs == (has_blob ? (int64_t)rows.size() : 0), "blob-rows", "blob files hold %lld of %zu rows", (long long)blobs, rows.size());
    }
    // some of the columns, never the blobs alone
    std::vector<int> Columns(bool with_part) {
        std::vector<int> out;
        double p = c.rng.Of<double>({0.4, 0.8, 1});
        int plain = 0;
        for (int k = 0; k < (int)names.size(); k++) {
            if (k == part ? with_part : c.rng.Chance(k == blob ? 0.7 : p)) out.push_back(k), plain += k != blob;
        }
        if (!plain) for (int k = 0; k < (int)names.size(); k++) if (k != blob && k != part) { out.push_back(k); break; }
        std::sort(out.begin(), out.end());
        return out;
    }
    void Step() {
        Txn txn;
        std::set<int64_t> touched;
        int n = c.rng.Range(1, 2);
        for (int i = 0; i < n; i++) {
            if (groups.empty() || c.rng.Chance(0.5)) {
                Cell p;
                if (part >= 0) p = c.rng.Of<std::string>({"x", "y"});
                Write(&txn, Columns(c.rng.Chance(0.5)), p, c.rng.Range(1, 9), -1);
            } else {
                Group g = c.rng.Pick(groups);
                if (!touched.insert(g.first).second) continue;
                Write(&txn, Columns(false), g.part, g.count, g.first);
            }
        }
        auto cm = t->NewCommit("u", false);
        VF_EXPECT(cm.ok(), "commit-create", "%s", S(cm.status()).c_str());
        Status s = cm.value()->Commit(txn.messages, ++tick);
        VF_EXPECT(s.ok(), "commit", "%s", S(s).c_str());
        latest++;
        std::map<int64_t, Row> now = latest > 1 ? snaps[latest - 1] : std::map<int64_t, Row>();
        files.insert(txn.files.begin(), txn.files.end());
        auto scan = t->NewScan(false, {});
        VF_EXPECT(scan.ok(), "scan-create", "%s", S(scan.status()).c_str());
        auto plan = scan.value()->CreatePlan();
        VF_EXPECT(plan.ok(), "scan-plan", "%s", S(plan.status()).c_str());
        std::map<std::string, int64_t> at;
        for (auto& sp : plan.value()->Splits()) {
            auto d = std::dynamic_pointer_cast<DataSplitImpl>(sp);
            VF_EXPECT(d != nullptr, "split-kind", "not a data split");
            for (auto& f : d->DataFiles()) {
                VF_EXPECT(f->first_row_id.has_value(), "row-id-absent", "file %s has no row ids", f->file_name.c_str());
                VF_EXPECT(at.emplace(f->file_name, *f->first_row_id).second, "file-twice", "file %s is planned twice", f->file_name.c_str());
                VF_EXPECT(files.count(f->file_name), "file-invented", "file %s was never written", f->file_name.c_str());
            }
        }
        VF_EXPECT(at.size() == files.size(), "file-lost", "%zu of %zu files are planned", at.size(), files.size());
        int64_t fresh = 0;
        for (auto& p : txn.pieces) {
            int64_t first = at[p.file];
            if (p.first >= 0) VF_EXPECT(first == p.first, "row-id-moved", "an update of %lld went to %lld", (long long)p.first, (long long)first);
            else groups.push_back({first, (int64_t)p.rows.size(), p.part}), fresh += p.rows.size();
            for (size_t i = 0; i < p.rows.size(); i++) {
                Row& r = now[first + i];
                if (p.first < 0) VF_EXPECT(r.empty(), "row-id-twice", "row id %lld is given twice", (long long)(first + i));
                r.resize(names.size());
                if (part >= 0) r[part] = p.part;
                for (size_t k = 0; k < p.columns.size(); k++) r[p.columns[k]] = p.rows[i][k];
            }
        }
        next_row += fresh;
        VF_EXPECT(now.size() == (size_t)next_row && (now.empty() || now.rbegin()->first == next_row - 1), "row-id-gap", "%zu rows, the last one %lld", now.size(), (long long)now.rbegin()->first);
        snaps[latest] = now;
    }
    void CheckRead(int64_t snap) {
        auto& state = snaps[snap];
        Opts o;
        o["scan.mode"] = "from-snapshot", o["scan.snapshot-id"] = std::to_string(snap);
        std::string how = Fmt("snapshot %lld", (long long)snap);
        std::optional<std::vector<Range>> ranges;
        ScanContextBuilder b(t->path());
        b.SetOptions(t->WithFormat(o));
        if (c.rng.Chance(0.5)) {
            ranges.emplace();
            int n = c.rng.Range(1, 4);
            for (int i = 0; i < n; i++) {
                int64_t a = c.rng.Range(0, next_row + 2);
                ranges->push_back(Range(a, a + c.rng.Of<int>({0, 0, 1, 3, 8})));
                how += " " + ranges->back().ToString();
            }
            b.SetGlobalIndexResult(BitmapGlobalIndexResult::FromRanges(*ranges));
        }
        auto ctx = b.Finish();
        VF_EXPECT(ctx.ok(), "scan-context", "%s: %s", how.c_str(), S(ctx.status()).c_str());
        auto scan = TableScan::Create(std::move(ctx).value());
        VF_EXPECT(scan.ok(), "scan-create", "%s: %s", how.c_str(), S(scan.status()).c_str());
        auto plan = scan.value()->CreatePlan();
        VF_EXPECT(plan.ok(), "scan-plan", "%s: %s", how.c_str(), S(plan.status()).c_str());
        auto splits = plan.value()->Splits();
        for (size_t i = splits.size(); i > 1; i--) std::swap(splits[i - 1], splits[c.rng.Below(i)]);
        std::vector<std::string> columns;
        for (int k = 0; k < (int)names.size(); k++) if (c.rng.Chance(k == blob ? 0.85 : 0.6)) columns.push_back(names[k]);
        if (c.rng.Chance(0.7) || columns.empty()) columns.push_back(kId);
        for (size_t i = columns.size(); i > 1; i--) std::swap(columns[i - 1], columns[c.rng.Below(i)]);
        tab::Table::ReadSpec rs;
        rs.columns = columns;
        rs.prefetch = c.rng.Chance(0.3);
        bool refer = c.rng.Chance(0.3);
        if (refer) rs.options["blob-as-descriptor"] = "true";
        if (c.rng.Chance(0.4)) rs.options["read.batch-size"] = std::to_string(c.rng.Of<int>({1, 2, 3, 5, 8}));
        for (auto& x : columns) how += " " + x;
        how += std::string(refer ? " as descriptors" : "") + (rs.prefetch ? " prefetch" : "");
        c.Op("read " + how);
        std::multiset<Row> want, got;
        int at_blob = std::find(columns.begin(), columns.end(), "b") - columns.begin();
        if (!splits.empty()) {
            auto r = t->Read(splits, rs);
            VF_EXPECT(r.ok(), "read", "%s: %s", how.c_str(), S(r.status()).c_str());
            for (auto& x : r.value()) {
                VF_EXPECT(x.size() == columns.size() + 1 && x[0] && *x[0] == "0", "read-columns", "%s: a row of %zu columns", how.c_str(), x.size());
                Row y(x.begin() + 1, x.end());
                if (refer && at_blob < (int)columns.size() && y[at_blob]) {
                    auto d = Blob::FromDescriptor(y[at_blob]->data(), y[at_blob]->size());
                    VF_EXPECT(d.ok(), "descriptor", "%s: %s", how.c_str(), S(d.status()).c_str());
                    auto data = d.value()->ToData(local, pool);
                    VF_EXPECT(data.ok(), "descriptor-data", "%s: %s", how.c_str(), S(data.status()).c_str());
                    y[at_blob] = std::string(data.value()->data(), data.value()->size());
                }
                got.insert(y);
            }
        }
        for (auto& [id, r] : state) {
            if (ranges) {
                bool in = false;
                for (auto& x : *ranges) in = in || (x.from <= id && id <= x.to);
                if (!in) continue;
            }
            Row y;
            for (auto& nm : columns) y.push_back(nm == kId ? Cell(std::to_string(id)) : r[std::find(names.begin(), names.end(), nm) - names.begin()]);
            want.insert(y);
        }
        auto text = [&](const Row& r) {
            std::string s;
            for (size_t i = 0; i < r.size(); i++) s += (!r[i] ? "-" : (int)i == at_blob ? vf::Hex(*r[i]).substr(0, 40) : *r[i]) + " ";
            return s;
        };
        for (auto& y : want) VF_EXPECT(got.count(y) >= want.count(y), "row-lost", "%s: %s is not read", how.c_str(), text(y).c_str());
        for (auto& y : got) VF_EXPECT(want.count(y) >= got.count(y), "row-invented", "%s: %s is read", how.c_str(), text(y).c_str());
        c.Check(want.size() + 1);
    }
};
}  // namespace

VF_SCENARIO(tables, 700, 9000) {
    {
        Blobs w(c);
        w.Create();
        int n = c.rng.Range(1, 5);
        for (int i = 0; i < n; i++) w.Step();
        int reads = c.rng.Range(3, 8);
        for (int i = 0; i < reads; i++) w.CheckRead(c.rng.Range(1, w.latest));
    }
    // nobody is left who could still use a file of this case
    const std::string mine = vf::Scratch() + Fmt("/b%llu/", (unsigned long long)c.index());
    for (auto& e : fs::directory_iterator("/proc/self/fd")) {
        std::error_code ec;
        std::string p = fs::read_symlink(e.path(), ec).string();
        VF_EXPECT(p.compare(0, mine.size(), mine) != 0, "file-left-open", "%s is still open after its reader and writer are gone", p.c_str());
    }
    c.Check();
}
