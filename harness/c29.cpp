// Primary-key tables: a snapshot shows for each key what the merge engine makes of the key's records.
#include "world.h"
using namespace world;

namespace {
enum Engine { DEDUP, PARTIAL, AGG };
struct PkRec {
    int kind;  // row kind byte
    std::vector<Cell> key;
    Row row;
    uint64_t arrival;
    bool Retract() const { return kind == 1 || kind == 3; }
};
std::string KeyText(const std::vector<Cell>& k) {
    std::string s;
    for (auto& x : k) s += (x ? *x : "\1") + "\2";
    return s;
}
using History = std::map<int, std::vector<PkRec>>;  // partition -> records in order of arrival

struct Pk {
    Case& c;
    std::string root;
    std::unique_ptr<tab::Table> t;
    std::shared_ptr<MemoryPool> pool = GetMemoryPool();
    Engine engine;
    bool ignore_delete = false, remove_on_delete = false, single = false, descending = false, partitioned = false, agg_retract = false;
    std::vector<std::string> seq_fields, key_fields;
    std::map<std::string, std::string> aggs;       // column -> function
    std::set<std::string> ignore_retract;
    std::vector<std::pair<std::vector<std::string>, std::vector<std::string>>> groups;  // sequence fields -> columns
    std::string partial_delete_field;
    int buckets = 1;
    std::vector<Cell> parts;
    std::map<int64_t, History> snaps;
    int64_t latest = 0;
    uint64_t arrivals = 0;

    explicit Pk(Case& cc) : c(cc) {}
    ~Pk() {
        t.reset();
        tab::Forget();
        std::error_code ec;
        if (!root.empty()) fs::remove_all(root, ec);
    }
    int Col(const std::string& n) const { return t->spec().schema->GetFieldIndex(n); }

    void Create() {
        root = vf::Scratch() + Fmt("/k%llu", (unsigned long long)c.index());
        fsguard::Allow(vf::Scratch());
        std::error_code ec;
        fs::remove_all(root, ec);
        tab::Spec sp;
        engine = c.rng.Of<Engine>({DEDUP, PARTIAL, AGG});  // first-row shows only compacted files, which nothing here makes
        single = c.rng.Chance(0.4);
        partitioned = c.rng.Chance(0.4);
        Opts o;
        std::vector<std::shared_ptr<arrow::Field>> f;
        int nk = c.rng.Range(1, 2);
        for (int i = 0; i < nk; i++) {
            std::shared_ptr<arrow::DataType> ty;
            switch (c.rng.Below(5)) {
                case 0: ty = arrow::int32(); break;
                case 1: ty = arrow::int64(); break;
                case 2: ty = arrow::int16(); break;
                default: ty = arrow::utf8();
            }
            key_fields.push_back(Fmt("k%d", i));
            f.push_back(arrow::field(key_fields.back(), ty, false));
        }
        f.push_back(arrow::field("a", arrow::int32()));
        f.push_back(arrow::field("b", arrow::int64()));
        f.push_back(arrow::field("s", arrow::utf8()));
        f.push_back(arrow::field("d", arrow::float64()));
        f.push_back(arrow::field("f", arrow::boolean()));
        f.push_back(arrow::field("t", arrow::int8()));
        f.push_back(arrow::field("q", arrow::int32()));
        f.push_back(arrow::field("r", arrow::int64()));
        sp.primary_keys = key_fields;
        if (partitioned) {
            f.push_back(arrow::field("p", arrow::int32(), false));
            sp.partition_keys = {"p"};
            sp.primary_keys.insert(c.rng.Chance(0.5) ? sp.primary_keys.begin() : sp.primary_keys.end(), "p");
            int n = c.rng.Range(1, 3);
            for (int i = 0; i < n; i++) parts.push_back(std::to_string(i * 7 - 3));
        } else {
            parts.push_back(Cell());
        }
        for (size_t i = f.size(); i > 1; i--) std::swap(f[i - 1], f[c.rng.Below(i)]);
        sp.schema = arrow::schema(f);
        buckets = c.rng.Range(1, 3);
        o["bucket"] = std::to_string(buckets);
        o["merge-engine"] = engine == DEDUP ? "deduplicate" : engine == PARTIAL ? "partial-update" : "aggregation";
        auto seq = [&] {
            seq_fields = c.rng.Chance(0.5) ? std::vector<std::string>{"q"} : c.rng.Chance(0.5) ? std::vector<std::string>{"r"} : std::vector<std::string>{"q", "r"};
            o["sequence.field"] = seq_fields.size() == 1 ? seq_fields[0] : "q,r";
            descending = c.rng.Chance(0.4);
            if (descending) o["sequence.field.sort-order"] = "descending";
        };
        if (engine == DEDUP) {
            ignore_delete = c.rng.Chance(0.3);
            if (c.rng.Chance(0.5)) seq();
        } else if (engine == PARTIAL) {
            int mode = c.rng.Below(4);
            if (mode == 0) ignore_delete = true;
            if (mode == 1) remove_on_delete = true;
            if (mode == 2 && single) seq();
            if (mode == 3) {
                if (c.rng.Chance(0.5)) groups = {{{"q"}, {"a", "s"}}, {{"r"}, {"b", "t"}}};
                else groups = {{{"q", "r"}, {"a", "b", "t"}}};
                if (c.rng.Chance(0.3)) ignore_delete = true;
                else if (c.rng.Chance(0.3) && single) partial_delete_field = "q";
                for (auto& g : groups) {
                    std::string k, v;
                    for (auto& x : g.first) k += (k.empty() ? "" : ",") + x;
                    for (auto& x : g.second) v += (v.empty() ? "" : ",") + x;
                    o["fields." + k + ".sequence-group"] = v;
                    for (auto& x : g.second) {
                        if (x == "s" || !c.rng.Chance(0.4)) continue;
                        aggs[x] = c.rng.Of<std::string>({"sum", "max", "min"});
                    }
                }
                if (!partial_delete_field.empty()) o["partial-update.remove-record-on-sequence-group"] = "q";
            }
            if (ignore_delete) o["ignore-delete"] = "true";
            if (remove_on_delete) o["partial-update.remove-record-on-delete"] = "true";
        } else {
            bool with_seq = c.rng.Chance(0.4);
            if (with_seq) seq();
            agg_retract = c.rng.Chance(0.6) && (single || !with_seq);
            for (std::string x : {"a", "b", "s", "d", "f", "t", "q", "r"}) {
                if (std::count(seq_fields.begin(), seq_fields.end(), x)) continue;
                std::vector<std::string> can = {"last_value", "last_non_null_value"};
                if (x != "f") can.insert(can.end(), {"max", "min"});
                if (x != "f" && x != "s") can.insert(can.end(), {"sum", "sum"});
                if (x == "f") can.insert(can.end(), {"bool_or", "bool_and"});
                if (single || (!with_seq && !agg_retract)) can.insert(can.end(), {"first_value", "first_non_null_value"});
                if (with_seq && !single) can.erase(can.begin() + 1);
                aggs[x] = c.rng.Pick(can);
            }
        }
        if (ignore_delete) o["ignore-delete"] = "true";
        for (auto& kv : aggs) {
            o["fields." + kv.first + ".aggregate-function"] = kv.second;
            bool must = kv.second != "sum" && kv.second != "last_value" && !(kv.second == "last_non_null_value" && single);
            bool may = kv.second != "last_value";
            if (engine == AGG && !agg_retract) must = false;
            if (may && (must || c.rng.Chance(0.2))) {
                ignore_retract.insert(kv.first);
                o["fields." + kv.first + ".ignore-retract"] = "true";
            }
        }
        auto maybe = [&](double p, const char* k, const std::string& v) { if (c.rng.Chance(p)) o.emplace(k, v); };
        maybe(0.5, "target-file-size", std::to_string(c.rng.Of<int>({1, 100, 200, 400})) + "b");
        maybe(0.4, "manifest.target-file-size", std::to_string(c.rng.Of<int>({90, 150, 300, 1000})) + "b");
        maybe(0.4, "manifest.merge-min-count", std::to_string(c.rng.Of<int>({2, 3, 5})));
        maybe(0.5, "source.split.target-size", std::to_string(c.rng.Of<int>({1, 100, 300})) + "b");
        maybe(0.5, "source.split.open-file-cost", std::to_string(c.rng.Of<int>({1, 50, 200})) + "b");
        maybe(0.5, "read.batch-size", std::to_string(c.rng.Of<int>({1, 2, 3, 7})));
        maybe(0.5, "write.batch-size", std::to_string(c.rng.Of<int>({1, 2, 3, 7})));
        if (!single) maybe(0.4, "write-buffer-size", std::to_string(c.rng.Of<int>({1, 100, 300})) + "b");
        maybe(0.4, "sort-engine", c.rng.Of<std::string>({"min-heap", "loser-tree"}));
        sp.options = o;
        std::string shown;
        for (auto& kv : o) shown += kv.first + "=" + kv.second + " ";
        c.Op(Fmt("pk table %s%s, %s", single ? "(one record per key and commit) " : "", partitioned ? "partitioned" : "", shown.c_str()));
        auto r = tab::Table::Create(root, sp);
        VF_EXPECT(r.ok(), "create-table", "%s", S(r.status()).c_str());
        t = std::move(r).value();
    }
    // --- model ---
    static int CmpNum(const Cell& a, const Cell& b) {
        if (!a && !b) return 0;
        if (!a) return -1;
        if (!b) return 1;
        long long x = std::stoll(*a), y = std::stoll(*b);
        return x < y ? -1 : x > y;
    }
    // by the sequence fields, a null first in either direction
    int CmpSeq(const Row& x, const Row& y, const std::vector<std::string>& f, bool desc) const {
        for (auto& n : f) {
            const Cell &a = x[Col(n)], &b = y[Col(n)];
            int r = CmpNum(a, b);
            if (!r) continue;
            if (a && b && desc) r = -r;
            return r;
        }
        return 0;
    }
    Cell Num(const std::string& col, double v) const {
        auto id = t->spec().schema->field(Col(col))->type()->id();
        if (id == arrow::Type::DOUBLE) return Fmt("%.17g", v);
        return std::to_string((long long)v);
    }
    bool LessText(const std::string& col, const Cell& a, const Cell& b) const {
        if (col == "s") return *a < *b;
        return std::stod(*a) < std::stod(*b);
    }
    Cell Agg(const std::string& fn, const std::string& col, const Cell& acc, const Cell& in, bool& init) const {
        if (fn == "last_value") return in;
        if (fn == "last_non_null_value") return in ? in : acc;
        if (fn == "first_value") {
            if (!init) { init = true; return in; }
            return acc;
        }
        if (fn == "first_non_null_value") {
            if (!init && in) { init = true; return in; }
            return acc;
        }
        if (!acc) return in;
        if (!in) return acc;
        if (fn == "sum") return Num(col, std::stod(*acc) + std::stod(*in));
        if (fn == "max") return LessText(col, acc, in) ? in : acc;
        if (fn == "min") return LessText(col, in, acc) ? in : acc;
        if (fn == "bool_or") return Cell(*acc == "true" || *in == "true" ? "true" : "false");
        return Cell(*acc == "true" && *in == "true" ? "true" : "false");
    }
    Cell Retract(const std::string& fn, const std::string& col, const Cell& acc, const Cell& in) const {
        if (ignore_retract.count(col)) return acc;
        if (fn == "last_value") return Cell();
        if (fn == "last_non_null_value") return in ? Cell() : acc;
        if (fn == "sum") return !in ? acc : !acc ? Num(col, -std::stod(*in)) : Num(col, std::stod(*acc) - std::stod(*in));
        return acc;
    }
    bool IsKey(const std::string& n) const { return n == "p" || std::count(key_fields.begin(), key_fields.end(), n); }
    std::optional<Row> Merge(std::vector<PkRec> rs) const {
        if (ignore_delete) rs.erase(std::remove_if(rs.begin(), rs.end(), [](const PkRec& r) { return r.Retract(); }), rs.end());
        if (rs.empty()) return std::nullopt;
        if (!seq_fields.empty()) std::stable_sort(rs.begin(), rs.end(), [&](const PkRec& x, const PkRec& y) { return CmpSeq(x.row, y.row, seq_fields, descending) < 0; });
        if (engine == DEDUP) {
            if (rs.back().Retract()) return std::nullopt;
            return rs.back().row;
        }
        if (rs.size() == 1 && rs[0].Retract()) return std::nullopt;
        auto names = t->spec().schema->field_names();
        Row row(names.size());
        if (engine == AGG) {
            std::map<std::string, bool> init;
            for (auto& r : rs) {
                for (size_t i = 0; i < names.size(); i++) {
                    auto it = aggs.find(names[i]);
                    std::string fn = IsKey(names[i]) || it == aggs.end() ? "last_value" : it->second;
                    if (IsKey(names[i])) row[i] = r.row[i];
                    else if (r.Retract()) row[i] = Retract(fn, names[i], row[i], r.row[i]);
                    else row[i] = Agg(fn, names[i], row[i], r.row[i], init[names[i]]);
                }
            }
            return row;
        }
        bool gone = false;
        for (auto& r : rs) {
            if (r.Retract() && groups.empty()) {  // remove on delete
                if (r.kind == 3) {
                    gone = true;
                    row.assign(names.size(), Cell());
                } else {
                    gone = false;
                }
                continue;
            }
            gone = false;
            std::map<std::string, int> group_of;
            for (size_t g = 0; g < groups.size(); g++) {
                for (auto& x : groups[g].first) group_of[x] = g;
                for (auto& x : groups[g].second) group_of[x] = g;
            }
            if (!r.Retract())
                for (size_t i = 0; i < names.size(); i++)
                    if (!group_of.count(names[i]) && r.row[i]) row[i] = r.row[i];
            bool stop = false;
            for (auto& g : groups) {
                bool empty = true;
                for (auto& x : g.first) empty = empty && !r.row[Col(x)];
                if (empty) continue;
                bool newer = CmpSeq(r.row, row, g.first, false) >= 0;
                if (r.Retract() && newer && r.kind == 3 && !partial_delete_field.empty() && std::count(g.first.begin(), g.first.end(), partial_delete_field)) {
                    gone = stop = true;
                    row.assign(names.size(), Cell());
                    break;
                }
                for (auto& x : g.second) {
                    int i = Col(x);
                    auto it = aggs.find(x);
                    bool init = false;
                    if (r.Retract()) {
                        if (it != aggs.end()) row[i] = Retract(it->second, x, row[i], r.row[i]);
                        else if (newer) row[i] = Cell();
                    } else if (it != aggs.end()) {
                        row[i] = Agg(it->second, x, row[i], r.row[i], init);
                    } else if (newer) {
                        row[i] = r.row[i];
                    }
                }
                if (newer) for (auto& x : g.first) row[Col(x)] = r.row[Col(x)];
            }
            if (stop) continue;
        }
        if (gone) return std::nullopt;
        return row;
    }
    std::vector<Row> Expected(const History& h, const std::vector<int>& only_parts, std::optional<int> bucket) const {
        std::vector<Row> out;
        for (auto& kv : h) {
            if (!only_parts.empty() && !std::count(only_parts.begin(), only_parts.end(), kv.first)) continue;
            std::map<std::string, std::vector<PkRec>> by;
            for (auto& r : kv.second) {
                if (bucket && Bucket(r.key) != *bucket) continue;
                by[KeyText(r.key)].push_back(r);
            }
            for (auto& x : by) {
                auto m = Merge(x.second);
                if (m) out.push_back(*m);
            }
        }
        return out;
    }
    int Bucket(const std::vector<Cell>& key) const { return vf::HashStr(KeyText(key)) % buckets; }
    // --- operations ---
    std::vector<Cell> RandomKey() {
        std::vector<Cell> k;
        for (auto& n : key_fields) {
            auto id = t->spec().schema->field(Col(n))->type()->id();
            if (id == arrow::Type::STRING) k.push_back(c.rng.Of<std::string>({"", "a", "b", "ab", "abcdefgh", "abcdefghi", "B", "\xc3\xa9", "zz"}));
            else if (id == arrow::Type::INT64) k.push_back(c.rng.Of<std::string>({"-9223372036854775808", "-1", "0", "1", "255", "256", "4294967296", "9223372036854775807"}));
            else k.push_back(std::to_string(c.rng.Range(-4, 4)));
        }
        return k;
    }
    Cell Value(const std::string& n) {
        if (n == "q" || n == "r") return c.rng.Chance(0.15) ? Cell() : Cell(std::to_string(c.rng.Range(-3, 6)));
        if (c.rng.Chance(0.3)) return Cell();
        if (n == "s") return c.rng.Ascii(c.rng.Below(10), "abXY");
        if (n == "f") return c.rng.Chance(0.5) ? "true" : "false";
        if (n == "t") return std::to_string(c.rng.Range(-2, 2));
        return std::to_string(c.rng.Range(-9, 9));
    }
    bool DeletesAllowed() const {
        if (ignore_delete) return true;
        if (engine == DEDUP) return true;
        if (engine == AGG) return agg_retract;
        return remove_on_delete || !groups.empty();
    }
    PkRec MakeRec(int p, bool have_earlier) {
        PkRec r;
        r.key = RandomKey();
        auto names = t->spec().schema->field_names();
        for (auto& n : names) {
            if (n == "p") r.row.push_back(parts[p]);
            else if (IsKey(n)) r.row.push_back(r.key[n[1] - '0']);
            else r.row.push_back(Value(n));
        }
        // a sequence group is given whole or not at all
        for (auto& g : groups)
            if (g.first.size() > 1 && (!r.row[Col(g.first[0])] || !r.row[Col(g.first[1])]))
                for (auto& x : g.first) r.row[Col(x)] = Cell();
        for (auto& g : groups)
            if (!r.row[Col(g.first[0])])
                for (auto& x : g.second) r.row[Col(x)] = Cell();
        r.kind = c.rng.Chance(0.2) ? 2 : 0;
        if (DeletesAllowed() && c.rng.Chance(0.3)) r.kind = remove_on_delete || c.rng.Chance(0.7) ? 3 : 1;
        (void)have_earlier;
        r.arrival = arrivals++;
        return r;
    }
    // Whether a retract of a key that has no row yet has a settled meaning.
    bool LoneRetractOk() const { return engine == DEDUP || ignore_delete; }

    std::unique_ptr<FileStoreWrite> writer;
    int64_t identifier = 1;
    void Step() {
        if (!writer || c.rng.Chance(0.4)) {
            if (writer) {
                Status s = writer->Close();
                VF_EXPECT(s.ok(), "write-close", "%s", S(s).c_str());
            }
            auto w = t->NewWrite("u", true);
            VF_EXPECT(w.ok(), "write-create", "%s", S(w.status()).c_str());
            writer = std::move(w).value();
            c.Op("new writer");
        }
        bool overwrite = c.rng.Chance(0.1);
        History add;
        std::set<std::string> used;
        int nb = c.rng.Range(1, 4);
        for (int i = 0; i < nb; i++) {
            int p = c.rng.Below(parts.size());
            std::map<int, std::vector<PkRec>> by_bucket;
            int n = c.rng.Range(1, 8);
            for (int k = 0; k < n; k++) {
                PkRec r = MakeRec(p, false);
                std::string kt = std::to_string(p) + ":" + KeyText(r.key);
                if (single && !used.insert(kt).second) continue;
                if (r.Retract() && !LoneRetractOk()) {
                    bool earlier = false;
                    auto look = [&](const std::vector<PkRec>& v) { for (auto& x : v) earlier = earlier || KeyText(x.key) == KeyText(r.key); };
                    if (!overwrite && latest && snaps[latest].count(p)) look(snaps[latest][p]);
                    if (add.count(p)) look(add[p]);
                    for (auto& kv : by_bucket) look(kv.second);
                    if (!earlier) r.kind = 0;
                }
                // what follows a delete inside one flush starts from nothing only there
                if (remove_on_delete && !single) {
                    if (used.count(kt)) continue;
                    if (r.Retract()) used.insert(kt);
                }
                by_bucket[Bucket(r.key)].push_back(r);
            }
            for (auto& kv : by_bucket) {
                std::vector<Row> rows;
                std::vector<RecordBatch::RowKind> kinds;
                bool plain = true;
                for (auto& r : kv.second) {
                    rows.push_back(r.row);
                    kinds.push_back((RecordBatch::RowKind)r.kind);
                    plain = plain && r.kind == 0;
                }
                if (plain && c.rng.Chance(0.5)) kinds.clear();
                Opts pm;
                if (partitioned) pm["p"] = *parts[p];
                auto batch = t->Batch(rows, kinds, pm, kv.first);
                VF_EXPECT(batch.ok(), "record-batch", "%s", S(batch.status()).c_str());
                Status s = writer->Write(std::move(batch).value());
                VF_EXPECT(s.ok(), "write", "%s", S(s).c_str());
                for (auto& r : kv.second) {
                    c.Op(Fmt("%d|%s", r.kind, tab::Show(r.row).c_str()), true);
                    add[p].push_back(r);
                }
            }
        }
        auto m = writer->PrepareCommit(false, identifier);
        VF_EXPECT(m.ok(), "prepare", "%s", S(m.status()).c_str());
        auto cm = t->NewCommit("u", false);
        VF_EXPECT(cm.ok(), "commit-create", "%s", S(cm.status()).c_str());
        Status s = overwrite ? cm.value()->Overwrite({}, m.value(), identifier) : cm.value()->Commit(m.value(), identifier);
        VF_EXPECT(s.ok(), "commit", "%s", S(s).c_str());
        identifier++;
        History h = overwrite || !latest ? History() : snaps[latest];
        for (auto& kv : add) h[kv.first].insert(h[kv.first].end(), kv.second.begin(), kv.second.end());
        snaps[++latest] = h;
        c.Op(Fmt("%s as snapshot %lld", overwrite ? "overwrite" : "commit", (long long)latest));
        if (overwrite) {  // sequence numbers start over with the files
            Status s2 = writer->Close();
            VF_EXPECT(s2.ok(), "write-close", "%s", S(s2).c_str());
            writer.reset();
        }
    }
    void CheckRead(int64_t id, bool at_latest) {
        Opts o;
        if (!at_latest) {
            o["scan.mode"] = "from-snapshot";
            o["scan.snapshot-id"] = std::to_string(id);
        }
        std::vector<int> only;
        std::vector<Opts> filters;
        std::optional<int> bucket;
        if (partitioned && c.rng.Chance(0.3)) {
            only = {(int)c.rng.Below(parts.size())};
            filters = {{{"p", *parts[only[0]]}}};
        }
        if (c.rng.Chance(0.2)) bucket = c.rng.Below(buckets);
        auto scan = t->NewScan(false, o, nullptr, filters, bucket);
        VF_EXPECT(scan.ok(), "scan-create", "%s", S(scan.status()).c_str());
        auto plan = scan.value()->CreatePlan();
        VF_EXPECT(plan.ok(), "scan-plan", "%s", S(plan.status()).c_str());
        tab::Table::ReadSpec rs;
        std::vector<std::string> names = t->spec().schema->field_names();
        if (c.rng.Chance(0.5)) {
            for (size_t i = names.size(); i > 1; i--) std::swap(names[i - 1], names[c.rng.Below(i)]);
            names.resize(c.rng.Range(1, names.size()));
            // removal on a sequence group shows only where that group is read
            if (!partial_delete_field.empty() && !std::count(names.begin(), names.end(), partial_delete_field)) names.push_back(partial_delete_field);
            rs.columns = names;
        }
        rs.prefetch = c.rng.Chance(0.2);
        rs.multi_thread = c.rng.Chance(0.3);
        if (c.rng.Chance(0.4)) rs.options["read.batch-size"] = std::to_string(c.rng.Of<int>({1, 2, 3, 5, 8}));
        if (c.rng.Chance(0.3)) rs.options["sort-engine"] = c.rng.Of<std::string>({"min-heap", "loser-tree"});
        auto splits = plan.value()->Splits();
        for (auto& sp : splits) {
            if (!c.rng.Chance(0.2)) continue;
            auto bytes = Split::Serialize(sp, pool);
            VF_EXPECT(bytes.ok(), "split-serialize", "%s", S(bytes.status()).c_str());
            auto back = Split::Deserialize(bytes.value().data(), bytes.value().size(), pool);
            VF_EXPECT(back.ok(), "split-deserialize", "%s", S(back.status()).c_str());
            sp = back.value();
        }
        std::vector<Row> got;
        if (!splits.empty()) {
            auto r = t->Read(splits, rs);
            VF_EXPECT(r.ok(), "read", "snapshot %lld: %s", (long long)id, S(r.status()).c_str());
            got = r.value();
        }
        std::vector<Row> exp;
        for (auto& r : Expected(snaps.at(id), only, bucket)) {
            Row x = {Cell("0")};
            for (auto& n : names) x.push_back(r[Col(n)]);
            exp.push_back(x);
        }
        for (auto& r : got) if (r[0] == Cell("2")) r[0] = "0";  // an update shows as what it leaves behind
        std::sort(got.begin(), got.end());
        std::sort(exp.begin(), exp.end());
        if (getenv("VF_DUMP")) {
            for (auto& r : got) fprintf(stderr, "got %s\n", tab::Show(r).c_str());
            for (auto& r : exp) fprintf(stderr, "exp %s\n", tab::Show(r).c_str());
        }
        std::string cols;
        for (auto& n : names) cols += n + ",";
        for (size_t i = 0; i < std::max(got.size(), exp.size()); i++) {
            bool more = i >= exp.size(), less = i >= got.size();
            if (!more && !less && got[i] == exp[i]) continue;
            const char* key = got.size() > exp.size() ? "rows-extra" : got.size() < exp.size() ? "rows-missing" : "rows-differ";
            VF_EXPECT(false, key, "snapshot %lld columns %s: got %s, expected %s (%zu of %zu rows)", (long long)id, cols.c_str(), less ? "nothing" : tab::Show(got[i]).c_str(), more ? "nothing" : tab::Show(exp[i]).c_str(), got.size(), exp.size());
        }
        c.Check();
    }
};
}  // namespace

VF_SCENARIO(upsert, 400, 8000) {
    Pk k(c);
    k.Create();
    int n = c.rng.Range(1, 6);
    for (int i = 0; i < n; i++) {
        k.Step();
        if (c.rng.Chance(0.3)) k.CheckRead(k.latest, true);
    }
    if (k.writer) (void)k.writer->Close();
    for (int64_t i = 1; i <= k.latest; i++) k.CheckRead(i, false);
    k.CheckRead(k.latest, true);
    auto bad = fsguard::TakeRefused();
    VF_EXPECT(bad.empty(), "escaped", "%s", bad.empty() ? "" : bad[0].c_str());
}
