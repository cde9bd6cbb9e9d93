// Tables with row ids whose columns are written apart from each other: random histories of appends of
// some of the columns, of later writes of columns of rows that are there, of index builds and of
// commits that lose races or fail and are tried again, and reads of every kind against a model that
// knows the newest value of every cell under its row id.
#include <filesystem>
#include <fstream>
#include <thread>

#include "fsguard.h"
#include "paimon/catalog/catalog.h"
#include "paimon/core/global_index/indexed_split_impl.h"
#include "paimon/core/io/data_file_meta.h"
#include "paimon/core/table/sink/commit_message_impl.h"
#include "paimon/core/table/source/data_split_impl.h"
#include "paimon/global_index/bitmap_global_index_result.h"
#include "paimon/global_index/bitmap_vector_search_global_index_result.h"
#include "paimon/global_index/global_index_write_task.h"
#include "paimon/memory/memory_pool.h"
#include "paimon/predicate/predicate.h"
#include "paimon/read_context.h"
#include "paimon/scan_context.h"
#include "paimon/utils/range.h"
#include "paimon/write_context.h"
#include "pred.h"
#include "tab.h"
#include "vf.h"

namespace {
using namespace paimon;
using pred::Col;
using tab::Cell;
using tab::Opts;
using tab::Row;
using vf::Case;
using vf::Fmt;
namespace fs = std::filesystem;

std::string S(const Status& s) { return s.ToString(); }
constexpr char kId[] = "_ROW_ID";
constexpr char kSeq[] = "_SEQUENCE_NUMBER";
constexpr char kScore[] = "_INDEX_SCORE";

struct Stored {
    Row v;
    int64_t seq = 0;
};
using State = std::map<int64_t, Stored>;
struct Group {  // the rows of one file, written together
    int64_t first, count;
    Cell part;
};
struct Shard {  // rows with an index
    int64_t from, to;
    std::set<int> columns;
};
// What one writer wrote.
struct Piece {
    std::vector<int> columns;
    std::vector<Row> rows;  // in the order of the columns of the piece
    Cell part;
    std::string file;
    int64_t first = -1;     // of the rows it updates, -1: new rows
    int64_t count = 0;
};
struct Txn {
    std::vector<std::shared_ptr<CommitMessage>> messages;
    std::vector<Piece> pieces;  // one per file
};

struct Evo {
    Case& c;
    std::string root;
    std::unique_ptr<tab::Table> t;
    std::vector<Col> cols;
    std::vector<std::string> names;
    int part = -1;  // the partition column
    std::map<int64_t, State> snaps;
    std::map<int64_t, int64_t> next_ids;
    std::vector<Group> groups;
    std::vector<Shard> shards;
    std::set<std::string> known_files;
    int64_t latest = 0, next_row = 0, tick = 0;
    std::vector<int64_t> centre;
    std::shared_ptr<MemoryPool> pool = GetMemoryPool();

    explicit Evo(Case& cc) : c(cc) {}
    ~Evo() {
        tab::SetFsHook(nullptr);
        t.reset();
        tab::Forget();
        tab::SetStripeRows(0);
        tab::SetPreciseSelection(false);
        std::error_code ec;
        if (!root.empty()) fs::remove_all(root, ec);
    }
    void Create(bool easy_index, bool hooked = false) {
        root = vf::Scratch() + Fmt("/e%llu", (unsigned long long)c.index());
        fsguard::Allow(vf::Scratch());
        std::error_code ec;
        fs::remove_all(root, ec);
        int n = c.rng.Range(1, 6);
        for (int i = 0; i < n; i++)
            cols.push_back(easy_index ? pred::RandomCol(c.rng, Fmt("c%d", i), {pred::BOOL, pred::I8, pred::I16, pred::I32, pred::I64, pred::STR, pred::DATE}) : pred::RandomCol(c.rng, Fmt("c%d", i)));
        tab::Spec sp;
        if (c.rng.Chance(0.4)) {
            part = c.rng.Below(n + 1);
            cols.insert(cols.begin() + part, pred::RandomCol(c.rng, "p", {pred::I32, pred::STR, pred::I64}));
            sp.partition_keys.push_back("p");
        }
        std::vector<std::shared_ptr<arrow::Field>> fields;
        for (auto& x : cols) fields.push_back(arrow::field(x.name, x.Type())), names.push_back(x.name);
        sp.schema = arrow::schema(fields);
        Opts o;
        o["row-tracking.enabled"] = "true";
        o["data-evolution.enabled"] = "true";
        if (hooked) o["file-system"] = "vfs";
        if (c.rng.Chance(0.5)) o["bucket"] = "-1";
        auto maybe = [&](double p, const char* k, const std::string& v) { if (c.rng.Chance(p)) o.emplace(k, v); };
        maybe(0.5, "manifest.target-file-size", std::to_string(c.rng.Of<int>({1, 150, 1000})) + "b");
        maybe(0.5, "manifest.merge-min-count", std::to_string(c.rng.Of<int>({1, 2, 3})));
        maybe(0.5, "source.split.target-size", std::to_string(c.rng.Of<int>({1, 100, 300})) + "b");
        maybe(0.5, "source.split.open-file-cost", "1b");
        maybe(0.4, "read.batch-size", std::to_string(c.rng.Of<int>({1, 2, 3, 7})));
        sp.options = o;
        tab::SetStripeRows(c.rng.Of<int>({0, 1, 2, 3}));
        tab::SetPreciseSelection(c.rng.Chance(0.3));
        std::string shown;
        for (auto& x : cols) shown += x.name + ":" + x.Type()->ToString() + " ";
        for (auto& kv : o) shown += kv.first + "=" + kv.second + " ";
        c.Op("table " + shown);
        auto r = tab::Table::Create(root, sp);
        VF_EXPECT(r.ok(), "create-table", "%s", S(r.status()).c_str());
        t = std::move(r).value();
        centre.assign(cols.size(), 0);
    }
    Cell DrawPart() {
        if (part < 0) return {};
        std::string v = cols[part].kind == pred::STR ? c.rng.Of<const char*>({"x", "y", "z"}) : c.rng.Of<const char*>({"1", "2", "-3"});
        return v;
    }
    Opts PartMap(const Cell& p) const {
        Opts m;
        if (part >= 0) m["p"] = *p;
        return m;
    }
    std::vector<int> DrawColumns(const std::function<bool(int)>& ok) {
        std::vector<int> out;
        double p = c.rng.Of<double>({0.3, 0.6, 1});
        for (size_t i = 0; i < cols.size(); i++) if ((int)i != part && ok(i) && c.rng.Chance(p)) out.push_back(i);
        return out;
    }
    std::string ShowRow(const Row& r) const { return tab::Show(r); }

    // Writes the rows (in the order of the columns) and gives the files that hold them.
    void Write(Txn* txn, const std::vector<int>& columns, const std::vector<std::pair<Cell, std::vector<Row>>>& batches, bool roll, int64_t update_first) {
        std::vector<std::string> write;
        std::vector<std::shared_ptr<arrow::Field>> fields;
        for (int k : columns) write.push_back(names[k]), fields.push_back(t->spec().schema->field(k));
        auto schema = arrow::schema(fields);
        Opts o;
        if (roll) o["target-file-size"] = c.rng.Of<const char*>({"1b", "100b", "300b"});
        WriteContextBuilder b(t->path(), "u");
        b.SetOptions(t->WithFormat(o));
        if (write != names || c.rng.Chance(0.5)) b.WithWriteSchema(write);
        auto ctx = b.Finish();
        VF_EXPECT(ctx.ok(), "write-context", "%s", S(ctx.status()).c_str());
        auto w = FileStoreWrite::Create(std::move(ctx).value());
        VF_EXPECT(w.ok(), "write-create", "%s", S(w.status()).c_str());
        std::map<Cell, std::vector<Row>> by_part;
        for (auto& [p, rows] : batches) {
            ::ArrowArray a;
            auto exported = arrow::ExportArray(*tab::MakeArray(schema, rows), &a);
            VF_EXPECT(exported.ok(), "export", "cannot export");
            RecordBatchBuilder rb(&a);
            auto batch = rb.SetPartition(PartMap(p)).SetBucket(0).Finish();
            VF_EXPECT(batch.ok(), "record-batch", "%s", S(batch.status()).c_str());
            Status s = w.value()->Write(std::move(batch).value());
            VF_EXPECT(s.ok(), "write", "%s", S(s).c_str());
            auto& all = by_part[p];
            all.insert(all.end(), rows.begin(), rows.end());
        }
        auto m = w.value()->PrepareCommit(false, ++tick);
        VF_EXPECT(m.ok(), "prepare", "%s", S(m.status()).c_str());
        Status closed = w.value()->Close();
        VF_EXPECT(closed.ok(), "write-close", "%s", S(closed).c_str());
        std::map<Cell, size_t> used;
        for (auto& msg : m.value()) {
            auto impl = std::dynamic_pointer_cast<CommitMessageImpl>(msg);
            VF_EXPECT(impl != nullptr, "message", "not a commit message of a table");
            Cell p;
            if (part >= 0) {
                auto row = impl->Partition();
                p = cols[part].kind == pred::STR ? std::string(row.GetString(0).ToString()) : cols[part].kind == pred::I32 ? std::to_string(row.GetInt(0)) : std::to_string(row.GetLong(0));
            }
            VF_EXPECT(by_part.count(p), "message-partition", "a message for partition %s that was not written", p ? p->c_str() : "-");
            auto& rows = by_part[p];
            for (auto& f : impl->GetNewFilesIncrement().NewFiles()) {
                Piece piece;
                piece.columns = columns;
                piece.part = p;
                piece.file = f->file_name;
                piece.count = f->row_count;
                size_t& at = used[p];
                VF_EXPECT(f->row_count > 0 && at + f->row_count <= rows.size(), "file-rows", "files hold more rows than were written");
                piece.rows.assign(rows.begin() + at, rows.begin() + at + f->row_count);
                at += f->row_count;
                if (update_first >= 0) {
                    piece.first = update_first;
                    f->AssignFirstRowId(update_first);
                }
                txn->pieces.push_back(piece);
            }
            txn->messages.push_back(msg);
        }
        for (auto& [p, rows] : by_part) VF_EXPECT(used[p] == rows.size(), "file-rows", "files hold %zu of the %zu rows that were written", used[p], rows.size());
        if (update_first >= 0) VF_EXPECT(txn->pieces.back().count == (int64_t)batches[0].second.size(), "update-files", "an update of %zu rows was written to several files", batches[0].second.size());
    }
    Row DrawRow(const std::vector<int>& columns, const Cell& p, double nulls) {
        Row r;
        for (int k : columns) {
            if (k == part) r.push_back(p);
            else r.push_back(c.rng.Chance(nulls) ? Cell() : Cell(cols[k].Value(c.rng, centre[k])));
        }
        return r;
    }
    void Drift() {
        for (auto& x : centre) if (c.rng.Chance(0.5)) x = c.rng.Range(-12, 12);
    }
    // Columns of a file that holds the partition column or not, in any order.
    std::vector<int> Arrange(std::vector<int> columns, bool with_part) {
        if (part >= 0 && with_part) columns.push_back(part);
        std::sort(columns.begin(), columns.end());
        if (c.rng.Chance(0.3)) for (size_t i = columns.size(); i > 1; i--) std::swap(columns[i - 1], columns[c.rng.Below(i)]);
        return columns;
    }
    void Append(Txn* txn) {
        Drift();
        auto columns = DrawColumns([](int) { return true; });
        bool with_part = c.rng.Chance(0.5);
        if (columns.empty()) columns.push_back(part == 0 ? 1 : 0);
        columns = Arrange(columns, with_part);
        std::vector<std::pair<Cell, std::vector<Row>>> batches;
        int nb = c.rng.Range(1, 3);
        for (int b = 0; b < nb; b++) {
            Cell p = DrawPart();
            std::vector<Row> rows;
            int n = c.rng.Range(1, 8);
            double nulls = c.rng.Of<double>({0, 0.2, 0.7});
            for (int i = 0; i < n; i++) rows.push_back(DrawRow(columns, p, nulls));
            batches.push_back({p, rows});
        }
        size_t from = txn->pieces.size();
        Write(txn, columns, batches, c.rng.Chance(0.5), -1);
        for (size_t i = from; i < txn->pieces.size(); i++) Tell("append", txn->pieces[i]);
    }
    void Tell(const char* what, const Piece& p) {
        std::string cs, rs;
        for (int k : p.columns) cs += names[k] + " ";
        for (auto& r : p.rows) rs += ShowRow(r) + " ";
        c.Op(Fmt("%s %s%s at %lld: %s", what, cs.c_str(), p.part ? (" in " + *p.part).c_str() : "", (long long)p.first, rs.c_str()), true);
    }
    bool Indexed(int64_t from, int64_t to, int col) const {
        for (auto& s : shards) if (s.from <= to && from <= s.to && s.columns.count(col)) return true;
        return false;
    }
    void Update(Txn* txn, std::set<std::pair<int64_t, int>>* taken) {
        if (groups.empty()) return;
        Drift();
        Group g = c.rng.Pick(groups);
        auto columns = DrawColumns([&](int k) { return !Indexed(g.first, g.first + g.count - 1, k) && !taken->count({g.first, k}); });
        if (columns.empty()) return;
        for (int k : columns) taken->insert({g.first, k});
        columns = Arrange(columns, false);
        std::vector<Row> rows;
        double nulls = c.rng.Of<double>({0, 0.2, 0.7});
        for (int64_t i = 0; i < g.count; i++) rows.push_back(DrawRow(columns, g.part, nulls));
        Write(txn, columns, {{g.part, rows}}, false, g.first);
        Tell("update", txn->pieces.back());
    }
    Txn MakeTxn() {
        Txn txn;
        std::set<std::pair<int64_t, int>> taken;
        int n = c.rng.Range(1, 3);
        for (int i = 0; i < n; i++) {
            if (groups.empty() || c.rng.Chance(0.5)) Append(&txn);
            else Update(&txn, &taken);
        }
        if (txn.messages.empty()) Append(&txn);
        return txn;
    }
    Status Commit(const Txn& txn, int64_t id) {
        auto cm = t->NewCommit("u", false);
        if (!cm.ok()) return cm.status();
        return cm.value()->Commit(txn.messages, id);
    }
    std::vector<std::shared_ptr<DataSplitImpl>> PlanFiles(std::optional<int64_t> snap) {
        Opts o;
        if (snap) o["scan.mode"] = "from-snapshot", o["scan.snapshot-id"] = std::to_string(*snap);
        auto scan = t->NewScan(false, o);
        VF_EXPECT(scan.ok(), "scan-create", "%s", S(scan.status()).c_str());
        auto plan = scan.value()->CreatePlan();
        VF_EXPECT(plan.ok(), "scan-plan", "%s", S(plan.status()).c_str());
        std::vector<std::shared_ptr<DataSplitImpl>> out;
        for (auto& s : plan.value()->Splits()) {
            auto d = std::dynamic_pointer_cast<DataSplitImpl>(s);
            VF_EXPECT(d != nullptr, "split-kind", "a scan without filters gave a split that is not a data split");
            out.push_back(d);
        }
        return out;
    }
    std::string SnapshotText(int64_t id) const {
        std::ifstream in(t->path() + "/snapshot/snapshot-" + std::to_string(id));
        return std::string(std::istreambuf_iterator<char>(in), {});
    }
    int64_t NextRowId(int64_t id) {
        std::string text = SnapshotText(id);
        auto at = text.find("\"nextRowId\"");
        VF_EXPECT(at != std::string::npos, "next-row-id-absent", "snapshot %lld has no next row id: %s", (long long)id, text.c_str());
        at = text.find(':', at) + 1;
        return std::stoll(text.substr(at));
    }
    // The transaction was committed as the next snapshot; its new files were given ids.
    void Apply(const Txn& txn) {
        latest++;
        VF_EXPECT(!SnapshotText(latest).empty(), "snapshot-absent", "snapshot %lld is not there after its commit", (long long)latest);
        State now = latest > 1 ? snaps[latest - 1] : State();
        std::map<std::string, std::shared_ptr<DataFileMeta>> files;
        for (auto& s : PlanFiles(latest)) for (auto& f : s->DataFiles()) VF_EXPECT(files.emplace(f->file_name, f).second, "file-twice", "file %s is in two splits", f->file_name.c_str());
        int64_t fresh = 0;
        std::map<int64_t, int64_t> tiles;
        for (auto& p : txn.pieces) {
            auto it = files.find(p.file);
            VF_EXPECT(it != files.end(), "file-lost", "snapshot %lld: file %s is not in the plan", (long long)latest, p.file.c_str());
            VF_EXPECT(it->second->first_row_id.has_value(), "row-id-absent", "snapshot %lld: file %s has no row ids", (long long)latest, p.file.c_str());
            int64_t first = *it->second->first_row_id;
            known_files.insert(p.file);
            if (p.first >= 0) VF_EXPECT(first == p.first, "row-id-moved", "snapshot %lld: the update of rows from %lld was placed at %lld", (long long)latest, (long long)p.first, (long long)first);
            else {
                fresh += p.count;
                VF_EXPECT(tiles.emplace(first, p.count).second, "row-id-twice", "snapshot %lld: two new files start at row %lld", (long long)latest, (long long)first);
            }
            for (int64_t i = 0; i < p.count; i++) {
                auto& row = now[first + i];
                if (p.first < 0) VF_EXPECT(row.v.empty(), "row-id-twice", "snapshot %lld: new row %s was given the id %lld of an earlier row", (long long)latest, ShowRow(p.rows[i]).c_str(), (long long)(first + i));
                row.v.resize(cols.size());
                if (part >= 0) row.v[part] = p.part;
                row.seq = latest;
                for (size_t k = 0; k < p.columns.size(); k++) row.v[p.columns[k]] = p.rows[i][k];
            }
            if (p.first < 0) groups.push_back({first, p.count, p.part});
        }
        for (auto& f : files) VF_EXPECT(known_files.count(f.first), "file-invented", "snapshot %lld: file %s was never written", (long long)latest, f.first.c_str());
        VF_EXPECT(files.size() == known_files.size(), "file-lost", "snapshot %lld has %zu of %zu files", (long long)latest, files.size(), known_files.size());
        int64_t at = next_row;
        for (auto& [first, count] : tiles) {
            VF_EXPECT(first == at, "row-id-gap", "snapshot %lld: a new file starts at row %lld, not at %lld", (long long)latest, (long long)first, (long long)at);
            at += count;
        }
        next_row += fresh;
        VF_EXPECT(NextRowId(latest) == next_row, "next-row-id", "snapshot %lld: next row id %lld after %lld rows", (long long)latest, (long long)NextRowId(latest), (long long)next_row);
        snaps[latest] = now;
        next_ids[latest] = next_row;
        c.Check(now.size() + 1);
    }
    void Step() {
        Txn txn = MakeTxn();
        Status s = Commit(txn, ++tick);
        VF_EXPECT(s.ok(), "commit", "%s", S(s).c_str());
        Apply(txn);
    }
    // Commits lose the race for a snapshot to one that was prepared before or after them.
    void Race() {
        Txn a = MakeTxn(), b = MakeTxn();
        int64_t ia = ++tick, ib = ++tick;
        bool done = false, late = false;
        Status inner;
        std::string at_op;
        int countdown = c.rng.Range(0, 45);
        auto here = std::this_thread::get_id();
        tab::SetFsHook([&](const tab::FsEvent& e) -> Status {
            if (std::this_thread::get_id() != here || done || late || e.after) return Status::OK();
            std::string op = e.op;
            bool in = e.path.find("/snapshot/") != std::string::npos;
            bool last = op == "exists" && e.path.find("/snapshot/snapshot-" + std::to_string(latest + 1)) != std::string::npos;
            if (in && op != "exists" && op != "list" && op != "status" && op != "open" && op != "read" && op != "close") late = true;
            if (late || (countdown-- > 0 && !(last && c.rng.Chance(0.5)))) return Status::OK();
            done = true;
            at_op = op + " " + e.path;
            inner = Commit(b, ib);
            return Status::OK();
        });
        Status s = Commit(a, ia);
        tab::SetFsHook(nullptr);
        VF_EXPECT(s.ok(), "commit", "after losing a race: %s", S(s).c_str());
        if (!done) {
            c.Note("race-missed");
            Apply(a);
            return;
        }
        VF_EXPECT(inner.ok(), "commit", "inside a race: %s", S(inner).c_str());
        c.Op(Fmt("race for snapshot %lld at %s", (long long)(latest + 1), at_op.c_str()), true);
        Apply(b);
        Apply(a);
    }
    // A commit fails, another one succeeds, the first is tried again.
    void Retry() {
        Txn a = MakeTxn();
        int64_t ia = ++tick;
        int countdown = c.rng.Below(12);
        bool failed = false;
        tab::SetFsHook([&](const tab::FsEvent& e) -> Status {
            std::string op = e.op;
            if (e.after || failed || (op != "create" && op != "write" && op != "flush" && op != "close")) return Status::OK();
            // before the snapshot is there
            if (e.path.find("/snapshot/") != std::string::npos || countdown-- > 0) return Status::OK();
            failed = true;
            return Status::IOError("injected");
        });
        Status s = Commit(a, ia);
        tab::SetFsHook(nullptr);
        if (!failed) {
            VF_EXPECT(s.ok(), "commit", "%s", S(s).c_str());
            Apply(a);
            return;
        }
        VF_EXPECT(!s.ok(), "commit-swallowed", "a commit reports success although a write of it failed");
        VF_EXPECT(SnapshotText(latest + 1).empty(), "commit-failed-snapshot", "a failed commit left snapshot %lld", (long long)(latest + 1));
        c.Op("failed commit: " + S(s), true);
        if (c.rng.Chance(0.7)) Step();
        s = Commit(a, ia);
        VF_EXPECT(s.ok(), "commit", "tried again: %s", S(s).c_str());
        Apply(a);
    }
    // Builds indexes for a run of rows.
    void Index() {
        auto splits = PlanFiles(std::nullopt);
        if (splits.empty()) return;
        auto split = c.rng.Pick(splits);
        std::vector<Range> ranges;
        for (auto& f : split->DataFiles()) ranges.push_back(Range(*f->first_row_id, *f->first_row_id + f->row_count - 1));
        std::set<int64_t> ids;
        for (auto& r : ranges) for (int64_t i = r.from; i <= r.to; i++) ids.insert(i);
        Shard shard{0, -1, {}};
        bool again = !shards.empty() && c.rng.Chance(0.3);
        size_t at = 0;
        if (again) {
            at = c.rng.Below(shards.size());
            shard = shards[at];
            for (int64_t i = shard.from; i <= shard.to; i++) if (!ids.count(i)) return;
        } else {
            std::vector<int64_t> starts(ids.begin(), ids.end());
            shard.from = c.rng.Chance(0.5) ? starts[0] : c.rng.Pick(starts);
            auto free = [&](int64_t i) {
                if (!ids.count(i)) return false;
                for (auto& s : shards) if (s.from <= i && i <= s.to) return false;
                return true;
            };
            if (!free(shard.from)) return;
            shard.to = shard.from;
            while (free(shard.to + 1) && c.rng.Chance(0.9)) shard.to++;
        }
        Txn txn;
        std::string what;
        for (size_t k = 0; k < cols.size(); k++) {
            bool can = cols[k].kind == pred::BOOL || (cols[k].kind >= pred::I8 && cols[k].kind <= pred::I64) || cols[k].kind == pred::STR || cols[k].kind == pred::DATE;
            if ((int)k == part || !can || shard.columns.count(k) || !c.rng.Chance(0.6)) continue;
            auto task = std::make_shared<IndexedSplitImpl>(split, std::vector<Range>{Range(shard.from, shard.to)});
            Opts more;
            if (c.rng.Chance(0.3)) more["read.batch-size"] = c.rng.Of<const char*>({"1", "2", "5"});
            auto msg = GlobalIndexWriteTask::WriteIndex(t->path(), names[k], "bitmap", task, t->WithFormat(more), pool);
            VF_EXPECT(msg.ok(), "index-write", "%s over [%lld,%lld]: %s", names[k].c_str(), (long long)shard.from, (long long)shard.to, S(msg.status()).c_str());
            txn.messages.push_back(msg.value());
            shard.columns.insert(k);
            what += names[k] + " ";
        }
        if (txn.messages.empty()) return;
        c.Op(Fmt("index %sover [%lld,%lld]", what.c_str(), (long long)shard.from, (long long)shard.to), true);
        Status s = Commit(txn, ++tick);
        VF_EXPECT(s.ok(), "commit", "of an index: %s", S(s).c_str());
        Apply(txn);
        if (again) shards[at] = shard;
        else shards.push_back(shard);
    }

    void CheckRead(int64_t snap) {
        auto& state = snaps[snap];
        Opts o;
        if (snap != latest || c.rng.Chance(0.5)) o["scan.mode"] = "from-snapshot", o["scan.snapshot-id"] = std::to_string(snap);
        if (c.rng.Chance(0.15)) o["global-index.enabled"] = "false";
        std::string how = Fmt("snapshot %lld", (long long)snap);
        // rows asked for
        std::optional<std::vector<Range>> ranges;
        std::map<int64_t, float> scores;
        std::shared_ptr<GlobalIndexResult> result;
        if (c.rng.Chance(0.4)) {
            ranges.emplace();
            int n = c.rng.Range(0, 4);
            for (int i = 0; i < n; i++) {
                int64_t a = c.rng.Range(0, next_row + 2);
                ranges->push_back(Range(a, a + c.rng.Of<int>({0, 0, 1, 3, 8})));
                how += " " + ranges->back().ToString();
            }
            if (c.rng.Chance(0.5)) {
                RoaringBitmap64 bits;
                for (auto& r : *ranges) bits.AddRange(r.from, r.to + 1);
                std::vector<float> list;
                for (auto it = bits.Begin(); it != bits.End(); ++it) {
                    float f = c.rng.Range(0, 100000) / 8.0f;
                    scores[*it] = f;
                    list.push_back(f);
                }
                result = std::make_shared<BitmapVectorSearchGlobalIndexResult>(std::move(bits), std::move(list));
                how += " scored";
            } else result = BitmapGlobalIndexResult::FromRanges(*ranges);
        }
        // a filter
        std::optional<pred::Node> node;
        bool negate = false, on_scan = false, on_read = false;
        if (c.rng.Chance(0.65)) {
            std::vector<int> usable;
            for (size_t i = 0; i < cols.size(); i++) if (c.rng.Chance(0.6)) usable.push_back(i);
            if (usable.empty()) usable.push_back(c.rng.Below(cols.size()));
            auto value = [&](int col) -> std::string {
                if (!state.empty() && c.rng.Chance(0.6)) {
                    auto it = state.begin();
                    std::advance(it, c.rng.Below(state.size()));
                    if (it->second.v[col]) return *it->second.v[col];
                }
                return cols[col].Value(c.rng, c.rng.Range(-13, 13));
            };
            node = pred::RandomNode(c.rng, cols, usable, value, 2);
            negate = c.rng.Chance(0.2);
            on_scan = c.rng.Chance(0.8);
            on_read = c.rng.Chance(0.6);
            how += std::string(on_scan ? " scan" : "") + (on_read ? " read" : "") + (negate ? " not " : " ") + pred::Show(*node, cols);
        }
        auto matches = [&](const Row& r) { return !node || pred::Eval(*node, cols, r) == (negate ? pred::NO : pred::YES); };
        auto build = [&](const std::vector<std::string>& in) {
            auto p = pred::Build(*node, cols, in);
            VF_EXPECT(p != nullptr, "predicate-build", "%s", how.c_str());
            if (negate) p = p->Negate();
            VF_EXPECT(p != nullptr, "predicate-negate", "%s", how.c_str());
            return p;
        };
        // columns
        std::set<int> used;
        if (node && on_read) pred::ColumnsOf(*node, &used);
        std::vector<std::string> columns;
        for (size_t i = 0; i < cols.size(); i++) if (used.count(i) || c.rng.Chance(0.6)) columns.push_back(names[i]);
        if (c.rng.Chance(0.8)) columns.push_back(kId);
        if (c.rng.Chance(0.4)) columns.push_back(kSeq);
        bool scored = result && c.rng.Chance(0.5);
        if (scored) columns.push_back(kScore);
        if (columns.empty()) columns.push_back(names[0]);
        for (size_t i = columns.size(); i > 1; i--) std::swap(columns[i - 1], columns[c.rng.Below(i)]);
        bool plain = columns == names;
        std::vector<Opts> partitions;
        std::set<Cell> wanted;
        if (part >= 0 && c.rng.Chance(0.25)) {
            int n = c.rng.Range(1, 2);
            for (int i = 0; i < n; i++) {
                Cell p = DrawPart();
                if (wanted.insert(p).second) partitions.push_back(PartMap(p)), how += " in " + *p;
            }
        }
        ScanContextBuilder b(t->path());
        b.SetOptions(t->WithFormat(o));
        if (on_scan) b.SetPredicate(build(names));
        if (!partitions.empty()) b.SetPartitionFilter(partitions);
        if (result) b.SetGlobalIndexResult(result);
        auto ctx = b.Finish();
        VF_EXPECT(ctx.ok(), "scan-context", "%s: %s", how.c_str(), S(ctx.status()).c_str());
        auto scan = TableScan::Create(std::move(ctx).value());
        VF_EXPECT(scan.ok(), "scan-create", "%s: %s", how.c_str(), S(scan.status()).c_str());
        auto plan = scan.value()->CreatePlan();
        VF_EXPECT(plan.ok(), "scan-plan", "%s: %s", how.c_str(), S(plan.status()).c_str());
        VF_EXPECT(plan.value()->SnapshotId() && *plan.value()->SnapshotId() == snap, "scan-snapshot", "%s: the plan is of another snapshot", how.c_str());
        auto splits = plan.value()->Splits();
        if (c.rng.Chance(0.3)) {
            for (auto& s : splits) {
                auto bytes = Split::Serialize(s, pool);
                VF_EXPECT(bytes.ok(), "split-serialize", "%s: %s", how.c_str(), S(bytes.status()).c_str());
                auto back = Split::Deserialize(bytes.value().data(), bytes.value().size(), pool);
                VF_EXPECT(back.ok(), "split-deserialize", "%s: %s", how.c_str(), S(back.status()).c_str());
                s = back.value();
            }
            how += " serialized";
        }
        for (size_t i = splits.size(); i > 1; i--) std::swap(splits[i - 1], splits[c.rng.Below(i)]);
        tab::Table::ReadSpec rs;
        if (!plain || c.rng.Chance(0.5)) rs.columns = columns;
        if (on_read) rs.predicate = build(columns);
        rs.filter = on_read && c.rng.Chance(0.6);
        rs.prefetch = c.rng.Chance(0.3);
        if (c.rng.Chance(0.4)) rs.options["read.batch-size"] = std::to_string(c.rng.Of<int>({1, 2, 3, 5, 8}));
        for (auto& x : columns) how += " " + x;
        how += std::string(rs.filter ? " exact" : "") + (rs.prefetch ? " prefetch" : "");
        std::vector<Row> got;
        if (!splits.empty()) {
            auto r = t->Read(splits, rs);
            VF_EXPECT(r.ok(), "read", "%s: %s", how.c_str(), S(r.status()).c_str());
            got = r.value();
        }
        // what is expected
        auto asked = [&](int64_t id, const Stored& s) {
            if (part >= 0 && !wanted.empty() && !wanted.count(s.v[part])) return false;
            if (!ranges) return true;
            for (auto& r : *ranges) if (r.from <= id && id <= r.to) return true;
            return false;
        };
        auto show = [&](int64_t id, const Stored& s) {
            Row x;
            for (auto& nm : columns) {
                if (nm == kId) x.push_back(std::to_string(id));
                else if (nm == kSeq) x.push_back(std::to_string(s.seq));
                else if (nm == kScore) {
                    auto it = scores.find(id);
                    x.push_back(it == scores.end() ? Cell() : Cell(Fmt("%.9g", it->second)));
                } else x.push_back(s.v[std::find(names.begin(), names.end(), nm) - names.begin()]);
            }
            return x;
        };
        std::multiset<Row> rest;
        int at_score = std::find(columns.begin(), columns.end(), kScore) - columns.begin();
        for (auto& r : got) {
            VF_EXPECT(r.size() == columns.size() + 1, "read-columns", "%s: %zu columns", how.c_str(), r.size());
            VF_EXPECT(r[0] && *r[0] == "0", "row-kind", "%s: row kind %s", how.c_str(), r[0] ? r[0]->c_str() : "null");
            Row x(r.begin() + 1, r.end());
            if (scored && x[at_score]) x[at_score] = Fmt("%.9g", std::stof(*x[at_score]));
            rest.insert(x);
        }
        size_t matching = 0;
        std::vector<Row> others;
        for (auto& [id, s] : state) {
            if (!asked(id, s)) continue;
            Row x = show(id, s);
            if (!matches(s.v)) {
                others.push_back(x);
                continue;
            }
            matching++;
            auto it = rest.find(x);
            VF_EXPECT(it != rest.end(), "row-lost", "%s: row %lld %s is missing; read: %s", how.c_str(), (long long)id, tab::Show(x).c_str(), got.empty() ? "nothing" : tab::Show(got[0]).c_str());
            rest.erase(it);
        }
        if (rs.filter) VF_EXPECT(rest.empty(), "row-kept", "%s: row %s does not match", how.c_str(), tab::Show(*rest.begin()).c_str());
        for (auto& x : others) {
            auto it = rest.find(x);
            if (it != rest.end()) rest.erase(it);
        }
        VF_EXPECT(rest.empty(), "row-invented", "%s: row %s is not asked for or not in the table", how.c_str(), tab::Show(*rest.begin()).c_str());
        c.Op(Fmt("%s: %zu of %zu rows match, %zu read", how.c_str(), matching, state.size(), got.size()), matching > 0 && matching < state.size());
        c.Check(state.size() + 1);
        // scores are there for rows that were searched for only
        if (!result && !on_scan && !splits.empty() && c.rng.Chance(0.2)) {
            tab::Table::ReadSpec bad;
            bad.columns = {names[0], kScore};
            auto r = t->Read(splits, bad);
            VF_EXPECT(!r.ok(), "score-invented", "%s: scores were read for rows that were not searched for", how.c_str());
        }
    }
    void CheckLimit() {
        auto& state = snaps[latest];
        int limit = c.rng.Range(1, 12);
        auto scan = t->NewScan(false, {}, nullptr, {}, std::nullopt, limit);
        VF_EXPECT(scan.ok(), "scan-create", "%s", S(scan.status()).c_str());
        auto plan = scan.value()->CreatePlan();
        VF_EXPECT(plan.ok(), "scan-plan", "%s", S(plan.status()).c_str());
        size_t n = 0;
        if (!plan.value()->Splits().empty()) {
            auto r = t->Read(plan.value()->Splits());
            VF_EXPECT(r.ok(), "read", "limit %d: %s", limit, S(r.status()).c_str());
            n = r.value().size();
        }
        VF_EXPECT(n >= std::min<size_t>(limit, state.size()), "limit-short", "limit %d: %zu rows of %zu were read", limit, n, state.size());
        VF_EXPECT(n <= state.size(), "row-invented", "limit %d: %zu rows of %zu were read", limit, n, state.size());
        c.Op(Fmt("limit %d gives %zu of %zu rows", limit, n, state.size()), n < state.size());
        c.Check(1);
    }
    void Reads(int n) {
        for (int i = 0; i < n; i++) {
            if (c.rng.Chance(0.1)) CheckLimit();
            else CheckRead(c.rng.Chance(0.6) ? latest : c.rng.Range(1, latest));
        }
    }
    void Finish() {
        auto bad = fsguard::TakeRefused();
        VF_EXPECT(bad.empty(), "escaped", "%s", bad.empty() ? "" : bad[0].c_str());
    }
};
}  // namespace

VF_SCENARIO(columns, 400, 5000) {
    Evo e(c);
    e.Create(false);
    int n = c.rng.Range(1, 6);
    for (int i = 0; i < n; i++) {
        e.Step();
        if (c.rng.Chance(0.3)) e.Reads(1);
    }
    e.Reads(c.rng.Range(5, 10));
    e.Finish();
}
VF_SCENARIO(indexes, 320, 4000) {
    Evo e(c);
    e.Create(true);
    int n = c.rng.Range(2, 7);
    e.Step();
    for (int i = 0; i < n; i++) {
        if (c.rng.Chance(0.5)) e.Index();
        else e.Step();
        if (c.rng.Chance(0.3)) e.Reads(1);
    }
    e.Reads(c.rng.Range(5, 10));
    e.Finish();
}
VF_SCENARIO(races, 260, 3000) {
    Evo e(c);
    e.Create(false, true);
    int n = c.rng.Range(2, 5);
    for (int i = 0; i < n; i++) {
        double d = c.rng.Unit();
        if (d < 0.45) e.Race();
        else if (d < 0.8) e.Retry();
        else e.Step();
    }
    e.Reads(c.rng.Range(2, 5));
    e.Finish();
}
