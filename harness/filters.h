// Random tables of typed columns, and filtered scans and reads of them against a model.
#pragma once
#include <filesystem>

#include "fsguard.h"
#include "paimon/commit_message.h"
#include "paimon/memory/memory_pool.h"
#include "paimon/predicate/compound_predicate.h"
#include "paimon/predicate/leaf_predicate.h"
#include "pred.h"
#include "tab.h"
#include "vf.h"

namespace filters {
using namespace paimon;
using pred::Col;
using pred::Node;
using tab::Cell;
using tab::Opts;
using tab::Row;
using vf::Case;
using vf::Fmt;
namespace fs = std::filesystem;

inline std::string S(const Status& s) { return s.ToString(); }
constexpr char kDefaultPart[] = "__DEFAULT_PARTITION__";

struct Filters {
    Case& c;
    std::string root;
    std::unique_ptr<tab::Table> t;
    std::vector<Col> cols;          // in schema order; "id" is always there
    std::vector<int> part_cols;
    int id = 0;                     // position of "id"
    bool pk = false;
    int buckets = 1;
    std::vector<int64_t> centre;
    std::map<int64_t, std::vector<Row>> snaps;
    std::vector<Row> outdated;      // earlier versions of rows, as the latest snapshot knows them
    int64_t latest = 0, next_id = 1;
    std::shared_ptr<MemoryPool> pool = GetMemoryPool();

    explicit Filters(Case& cc) : c(cc) {}
    virtual ~Filters() {
        t.reset();
        tab::Forget();
        tab::SetStripeRows(0);
        std::error_code ec;
        if (!root.empty()) fs::remove_all(root, ec);
    }
    // what a derived monitor adds
    virtual void Prepared(const std::vector<std::shared_ptr<CommitMessage>>& messages) {}
    virtual std::vector<std::shared_ptr<Split>> Splits(const std::vector<std::shared_ptr<Split>>& splits) { return splits; }
    virtual bool Gone(const Row& row) { return false; }
    virtual void MoreOptions(Opts* o) {}
    void Create(bool with_pk) {
        pk = with_pk;
        root = vf::Scratch() + Fmt("/f%llu", (unsigned long long)c.index());
        fsguard::Allow(vf::Scratch());
        std::error_code ec;
        fs::remove_all(root, ec);
        int n = c.rng.Range(2, 6), np = c.rng.Below(3);
        cols.push_back({"id", pred::I64});
        for (int i = 0; i < n; i++) cols.push_back(pred::RandomCol(c.rng, Fmt("c%d", i)));
        for (int i = 0; i < np; i++) cols.push_back(pred::RandomCol(c.rng, Fmt("p%d", i), {pred::I8, pred::I16, pred::I32, pred::I64, pred::STR, pred::BOOL}));
        for (size_t i = cols.size(); i > 1; i--) std::swap(cols[i - 1], cols[c.rng.Below(i)]);
        std::vector<std::shared_ptr<arrow::Field>> fields;
        tab::Spec sp;
        for (size_t i = 0; i < cols.size(); i++) {
            bool key = pk && (cols[i].name == "id" || cols[i].name[0] == 'p');
            fields.push_back(arrow::field(cols[i].name, cols[i].Type(), !key));
            if (cols[i].name == "id") id = i;
            if (cols[i].name[0] == 'p') part_cols.push_back(i), sp.partition_keys.push_back(cols[i].name);
        }
        sp.schema = arrow::schema(fields);
        if (pk) {
            sp.primary_keys = sp.partition_keys;
            sp.primary_keys.push_back("id");
        }
        buckets = pk || c.rng.Chance(0.5) ? c.rng.Range(1, 3) : -1;
        Opts o;
        o["bucket"] = std::to_string(buckets);
        if (!pk && buckets > 0) o["bucket-key"] = "id";
        auto maybe = [&](double p, const char* k, const std::string& v) { if (c.rng.Chance(p)) o.emplace(k, v); };
        maybe(0.6, "target-file-size", std::to_string(c.rng.Of<int>({1, 100, 400})) + "b");
        maybe(0.5, "manifest.target-file-size", std::to_string(c.rng.Of<int>({1, 150, 1000})) + "b");
        maybe(0.5, "manifest.merge-min-count", std::to_string(c.rng.Of<int>({1, 2, 3})));
        maybe(0.5, "source.split.target-size", std::to_string(c.rng.Of<int>({1, 100, 300})) + "b");
        maybe(0.5, "source.split.open-file-cost", "1b");
        maybe(0.3, "read.batch-size", std::to_string(c.rng.Of<int>({1, 2, 3, 7})));
        if (pk) maybe(0.5, "write-buffer-size", "300b");
        MoreOptions(&o);
        sp.options = o;
        tab::SetStripeRows(c.rng.Of<int>({0, 1, 2, 3}));
        std::string shown;
        for (auto& x : cols) shown += x.name + ":" + x.Type()->ToString() + " ";
        for (auto& kv : o) shown += kv.first + "=" + kv.second + " ";
        c.Op(Fmt("%s table %s", pk ? "pk" : "append", shown.c_str()));
        auto r = tab::Table::Create(root, sp);
        VF_EXPECT(r.ok(), "create-table", "%s", S(r.status()).c_str());
        t = std::move(r).value();
        centre.assign(cols.size(), 0);
    }
    std::string PartText(int col, const Cell& v) const { return v ? *v : std::string(kDefaultPart); }
    void Step() {
        auto w = t->NewWrite("u", false);
        VF_EXPECT(w.ok(), "write-create", "%s", S(w.status()).c_str());
        std::vector<Row> now = latest ? snaps[latest] : std::vector<Row>();
        int nb = c.rng.Range(1, 4);
        for (int b = 0; b < nb; b++) {
            std::vector<Cell> part;
            Opts pm;
            for (int pc : part_cols) {
                Cell v = !pk && c.rng.Chance(0.1) ? Cell() : Cell(cols[pc].Value(c.rng, 0));
                if (cols[pc].kind == pred::STR && v && v->empty()) v = "e";
                part.push_back(v);
                // a date partition is given as a date
                pm[cols[pc].name] = !v ? kDefaultPart : *v;
            }
            std::vector<bool> all_null(cols.size());
            for (size_t i = 0; i < cols.size(); i++) {
                if (c.rng.Chance(0.5)) centre[i] = c.rng.Range(-12, 12);
                all_null[i] = c.rng.Chance(0.1);
            }
            int n = c.rng.Range(1, 8), bucket = buckets > 0 ? c.rng.Below(buckets) : 0;
            double nulls = c.rng.Of<double>({0, 0.2, 0.6});
            std::vector<Row> rows;
            std::set<std::string> ids;
            for (int i = 0; i < n; i++) {
                Row r;
                for (size_t k = 0; k < cols.size(); k++) {
                    auto pc = std::find(part_cols.begin(), part_cols.end(), (int)k);
                    if (pc != part_cols.end()) r.push_back(part[pc - part_cols.begin()]);
                    else if ((int)k == id) {
                        // with a key, ids come again; the bucket is a function of the id
                        int64_t v = pk ? c.rng.Range(0, 12) : next_id++;
                        if (pk) v = v * buckets + bucket;
                        r.push_back(std::to_string(v));
                    } else r.push_back(all_null[k] || c.rng.Chance(nulls) ? Cell() : Cell(cols[k].Value(c.rng, centre[k])));
                }
                if (pk && !ids.insert(*r[id]).second) continue;
                rows.push_back(r);
            }
            auto batch = t->Batch(rows, {}, pm, bucket);
            VF_EXPECT(batch.ok(), "record-batch", "%s", S(batch.status()).c_str());
            Status s = w.value()->Write(std::move(batch).value());
            VF_EXPECT(s.ok(), "write", "%s", S(s).c_str());
            for (auto& r : rows) {
                c.Op(tab::Show(r), true);
                if (pk) {
                    bool done = false;
                    for (auto& o : now) {
                        bool same = o[id] == r[id];
                        for (int pc : part_cols) same = same && o[pc] == r[pc];
                        if (same) outdated.push_back(o), o = r, done = true;
                    }
                    if (!done) now.push_back(r);
                } else now.push_back(r);
            }
        }
        auto m = w.value()->PrepareCommit(false, latest + 1);
        VF_EXPECT(m.ok(), "prepare", "%s", S(m.status()).c_str());
        Prepared(m.value());
        auto cm = t->NewCommit("u", false);
        VF_EXPECT(cm.ok(), "commit-create", "%s", S(cm.status()).c_str());
        Status s = cm.value()->Commit(m.value(), latest + 1);
        VF_EXPECT(s.ok(), "commit", "%s", S(s).c_str());
        (void)w.value()->Close();
        snaps[++latest] = now;
    }
    Node Draw(int64_t snap, const std::vector<int>& usable) {
        auto& rows = snaps[snap];
        auto value = [&](int col) -> std::string {
            if (!rows.empty() && c.rng.Chance(0.6)) {
                const Cell& v = c.rng.Pick(rows)[col];
                if (v) return *v;
            }
            return cols[col].Value(c.rng, c.rng.Range(-13, 13));
        };
        return pred::RandomNode(c.rng, cols, usable, value, 2);
    }
    void CheckFilter(int64_t snap) {
        Opts o;
        if (snap != latest || c.rng.Chance(0.5)) {
            o["scan.mode"] = "from-snapshot";
            o["scan.snapshot-id"] = std::to_string(snap);
        }
        std::vector<int> usable;
        for (size_t i = 0; i < cols.size(); i++) if (c.rng.Chance(0.6)) usable.push_back(i);
        if (usable.empty()) usable.push_back(c.rng.Below(cols.size()));
        Node n = Draw(snap, usable);
        bool negate = c.rng.Chance(0.2);
        std::string text = (negate ? "not " : "") + pred::Show(n, cols);
        std::vector<std::string> names = t->spec().schema->field_names(), columns = names;
        std::set<int> used;
        pred::ColumnsOf(n, &used);
        tab::Table::ReadSpec rs;
        if (c.rng.Chance(0.5)) {  // a projection with the columns of the filter
            columns.clear();
            for (size_t i = 0; i < cols.size(); i++) if (used.count(i) || (int)i == id || c.rng.Chance(0.4)) columns.push_back(cols[i].name);
            for (size_t i = columns.size(); i > 1; i--) std::swap(columns[i - 1], columns[c.rng.Below(i)]);
            rs.columns = columns;
        }
        auto build = [&](const std::vector<std::string>& in) {
            auto p = pred::Build(n, cols, in);
            VF_EXPECT(p != nullptr, "predicate-build", "%s", text.c_str());
            if (negate) p = p->Negate();
            VF_EXPECT(p != nullptr, "predicate-negate", "%s", text.c_str());
            return p;
        };
        bool on_scan = c.rng.Chance(0.8), on_read = c.rng.Chance(0.8);
        auto scan = t->NewScan(false, o, on_scan ? build(names) : nullptr);
        VF_EXPECT(scan.ok(), "scan-create", "%s: %s", text.c_str(), S(scan.status()).c_str());
        auto plan = scan.value()->CreatePlan();
        VF_EXPECT(plan.ok(), "scan-plan", "%s: %s", text.c_str(), S(plan.status()).c_str());
        if (on_read) rs.predicate = build(columns);
        rs.filter = on_read && c.rng.Chance(0.6);
        rs.prefetch = c.rng.Chance(0.3);
        rs.multi_thread = pk && c.rng.Chance(0.3);
        if (c.rng.Chance(0.4)) rs.options["read.batch-size"] = std::to_string(c.rng.Of<int>({1, 2, 3, 5, 8}));
        std::vector<Row> got;
        if (!plan.value()->Splits().empty()) {
            auto r = t->Read(Splits(plan.value()->Splits()), rs);
            VF_EXPECT(r.ok(), "read", "%s: %s", text.c_str(), S(r.status()).c_str());
            got = r.value();
        }
        std::multiset<Row> have;
        for (auto& r : got) have.insert(Row(r.begin() + 1, r.end()));
        size_t matching = 0, all = snaps[snap].size();
        std::multiset<Row> rest = have;
        std::string how = Fmt("snapshot %lld, %s%s%s%s%s: %s", (long long)snap, on_scan ? "scan " : "", on_read ? "read " : "", rs.filter ? "exact " : "", rs.prefetch ? "prefetch " : "", rs.columns.empty() ? "" : "projected ", text.c_str());
        std::vector<Row> others;
        for (auto& r : snaps[snap]) {
            if (Gone(r)) continue;
            Row x;
            for (auto& nm : columns) x.push_back(r[std::find(names.begin(), names.end(), nm) - names.begin()]);
            if (pred::Eval(n, cols, r) != (negate ? pred::NO : pred::YES)) {
                others.push_back(x);
                continue;
            }
            matching++;
            auto it = rest.find(x);
            VF_EXPECT(it != rest.end(), "row-lost", "%s: row %s is missing", how.c_str(), tab::Show(r).c_str());
            rest.erase(it);
        }
        if (rs.filter) VF_EXPECT(rest.empty(), "row-kept", "%s: row %s does not match", how.c_str(), tab::Show(*rest.begin()).c_str());
        for (auto& x : others) {
            auto it = rest.find(x);
            if (it != rest.end()) rest.erase(it);
        }
        // Files without a matching key may be left out, so that a row whose key does not match can
        // show an earlier version; such a row must not match in that version either.
        if (pk) {
            for (auto& r : outdated) {
                if (pred::Eval(n, cols, r) == (negate ? pred::NO : pred::YES)) continue;
                Row x;
                for (auto& nm : columns) x.push_back(r[std::find(names.begin(), names.end(), nm) - names.begin()]);
                auto it = rest.find(x);
                if (it != rest.end()) rest.erase(it);
            }
        }
        VF_EXPECT(rest.empty(), "row-invented", "%s: row %s is not in the table", how.c_str(), tab::Show(*rest.begin()).c_str());
        c.Op(Fmt("%s: %zu of %zu rows match, %zu read", how.c_str(), matching, all, got.size()), matching > 0 && matching < all);
        c.Check(all + 1);
    }
    void Run() {
        int n = c.rng.Range(1, 5);
        for (int i = 0; i < n; i++) Step();
        int m = c.rng.Range(4, 9);
        for (int i = 0; i < m; i++) CheckFilter(c.rng.Chance(0.5) ? latest : c.rng.Range(1, latest));
        auto bad = fsguard::TakeRefused();
        VF_EXPECT(bad.empty(), "escaped", "%s", bad.empty() ? "" : bad[0].c_str());
    }
};
}  // namespace filters
