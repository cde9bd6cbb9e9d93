// C35: files written under earlier schemas, read under the current one.
#include <algorithm>
#include <fstream>
#include <set>

#include "indexed.h"

using namespace indexed;

namespace {
std::string TypeText(const Col& x) {
    static const char* plain[] = {"BOOLEAN", "TINYINT", "SMALLINT", "INT", "BIGINT", "FLOAT", "DOUBLE", "STRING", "BYTES", "DATE"};
    if (x.kind == pred::DEC) return Fmt("DECIMAL(%d, %d)", x.p, x.s);
    if (x.kind == pred::TS) return Fmt("TIMESTAMP(%d)", 3 * x.p);
    return plain[x.kind];
}
std::string Quoted(const std::vector<std::string>& v) {
    std::string s;
    for (auto& x : v) s += (s.empty() ? "\"" : ", \"") + x + "\"";
    return "[" + s + "]";
}
struct Evolving : Indexed {
    using Indexed::Indexed;
    bool plain = false;  // no indexes

    std::vector<int> field_ids;  // of the columns
    int highest = 0, schema_id = 0, names = 0;
    bool casts = false;

    void Begin() {
        Create(false);
        Plan();
        for (size_t i = 0; i < cols.size(); i++) field_ids.push_back(i);
        highest = (int)cols.size() - 1;
    }
    bool Fixed(int i) const { return i == id || std::count(part_cols.begin(), part_cols.end(), i); }
    template <typename F>
    void EachRow(F f) {
        for (auto& r : outdated) f(r);
        if (latest) for (auto& r : snaps[latest]) f(r);
        for (auto& kv : file_rows) for (auto& r : kv.second) f(r);
        std::set<Row> still;
        for (Row r : gone) {
            f(r);
            still.insert(r);
        }
        gone = still;
    }
    void Plan() {
        if (plain) {
            plan.clear();
            return;
        }
        for (auto& x : cols) if (c.rng.Chance(0.3)) plan[x.name] = c.rng.Range(0, 7);
    }
    void Permute(const std::vector<int>& order) {  // the new i-th column is the old order[i]-th
        std::vector<Col> nc;
        std::vector<int> nf;
        std::vector<int64_t> cc;
        for (int o : order) nc.push_back(cols[o]), nf.push_back(field_ids[o]), cc.push_back(centre[o]);
        EachRow([&](Row& r) {
            Row x;
            for (int o : order) x.push_back(r[o]);
            r = x;
        });
        auto at = [&](int old) { return (int)(std::find(order.begin(), order.end(), old) - order.begin()); };
        id = at(id);
        for (int& p : part_cols) p = at(p);
        cols = nc;
        field_ids = nf;
        centre = cc;
    }
    // A wider type for the column, and its values in it.
    bool Widen(int i) {
        Col& x = cols[i];
        if (frozen.count(field_ids[i])) return false;
        Col y = x;
        std::function<std::string(const std::string&)> f = [](const std::string& v) { return v; };
        auto ints = [&] { return x.kind >= pred::I8 && x.kind <= pred::I64; };
        int how = (int)c.rng.Below(4);
        if (ints() && x.kind < pred::I64 && how < 2) y.kind = (pred::Kind)c.rng.Range(x.kind + 1, pred::I64);
        else if (ints() && how == 2) y.kind = pred::STR;
        else if ((x.kind == pred::I8 || x.kind == pred::I16) && how == 3) {
            y.kind = c.rng.Chance(0.5) ? pred::F32 : pred::F64;
        } else if (x.kind == pred::I32 && how == 3) y.kind = pred::F64;
        else if (x.kind == pred::BOOL && how < 2) y.kind = pred::STR;
        else if (x.kind == pred::BOOL) {
            y.kind = (pred::Kind)c.rng.Range(pred::I8, pred::I64);
            f = [](const std::string& v) { return v == "true" ? "1" : "0"; };
        } else if (x.kind == pred::DEC && x.p < 38) {
            int grow = c.rng.Range(1, 38 - x.p), more = c.rng.Chance(0.5) ? c.rng.Range(0, grow) : 0;
            y.p = x.p + grow;
            y.s = x.s + more;
            f = [more](const std::string& v) { return v == "0" ? v : v + std::string(more, '0'); };
        } else if (x.kind == pred::STR) y.kind = pred::BIN;
        else if (x.kind == pred::F32) {
            y.kind = pred::F64;
            f = [](const std::string& v) { return Fmt("%.17g", (double)strtof(v.c_str(), nullptr)); };
        } else return false;
        bool still_ints = ints() && y.kind <= pred::I64;
        // A value stored as the first type is converted to the last one directly, so no further step
        // is taken where that could differ from converting it step by step.
        if (!still_ints && x.kind != pred::DEC) frozen.insert(field_ids[i]);
        c.Op(Fmt("column %s: %s becomes %s", x.name.c_str(), TypeText(x).c_str(), TypeText(y).c_str()), true);
        EachRow([&](Row& r) { if (r[i]) r[i] = f(*r[i]); });
        x = y;
        return true;
    }
    void Evolve() {
        int n = c.rng.Range(1, 4);
        for (int k = 0; k < n; k++) {
            std::vector<int> loose;
            for (size_t i = 0; i < cols.size(); i++) if (!Fixed(i)) loose.push_back(i);
            switch (c.rng.Below(5)) {
                case 0: {  // add
                    Col x = pred::RandomCol(c.rng, Fmt("a%d", names++));
                    // sometimes under the name of a column that is gone
                    if (!gone_names.empty() && c.rng.Chance(0.5)) {
                        x.name = gone_names.back();
                        gone_names.pop_back();
                    }
                    c.Op(Fmt("add %s %s", x.name.c_str(), TypeText(x).c_str()), true);
                    cols.push_back(x);
                    field_ids.push_back(++highest);
                    centre.push_back(0);
                    EachRow([](Row& r) { r.push_back(Cell()); });
                    if (c.rng.Chance(0.5)) {
                        std::vector<int> order(cols.size());
                        for (size_t i = 0; i < order.size(); i++) order[i] = i;
                        std::swap(order.back(), order[c.rng.Below(order.size())]);
                        Permute(order);
                    }
                    break;
                }
                case 1: {  // drop
                    if (loose.size() < 2) break;
                    int d = c.rng.Pick(loose);
                    c.Op("drop " + cols[d].name, true);
                    gone_names.push_back(cols[d].name);
                    std::vector<int> order;
                    for (int i = 0; i < (int)cols.size(); i++) if (i != d) order.push_back(i);
                    Permute(order);
                    break;
                }
                case 2: {  // rename, or exchange two names
                    if (loose.empty()) break;
                    int a = c.rng.Pick(loose), b = c.rng.Pick(loose);
                    if (a != b && c.rng.Chance(0.5)) {
                        c.Op("exchange names " + cols[a].name + " " + cols[b].name, true);
                        std::swap(cols[a].name, cols[b].name);
                    } else {
                        std::string to = Fmt("r%d", names++);
                        if (!gone_names.empty() && c.rng.Chance(0.5)) to = gone_names.back(), gone_names.pop_back();
                        c.Op("rename " + cols[a].name + " to " + to, true);
                        gone_names.push_back(cols[a].name);
                        cols[a].name = to;
                    }
                    break;
                }
                case 3: {
                    std::vector<int> order(cols.size());
                    for (size_t i = 0; i < order.size(); i++) order[i] = i;
                    for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[c.rng.Below(i)]);
                    Permute(order);
                    c.Op("reorder", true);
                    break;
                }
                default:
                    if (casts && !loose.empty()) Widen(c.rng.Pick(loose));
            }
        }
        Store();
    }
    std::vector<std::string> gone_names;
    std::set<int> frozen;
    void Store() {
        schema_id++;
        tab::Spec sp = t->spec();
        std::vector<std::shared_ptr<arrow::Field>> fields;
        std::string j = Fmt("{\n  \"version\" : 3,\n  \"id\" : %d,\n  \"fields\" : [ ", schema_id), shown;
        for (size_t i = 0; i < cols.size(); i++) {
            bool key = pk && Fixed(i);
            fields.push_back(arrow::field(cols[i].name, cols[i].Type(), !key));
            j += Fmt("%s{\"id\" : %d, \"name\" : \"%s\", \"type\" : \"%s%s\"}", i ? ", " : "", field_ids[i], cols[i].name.c_str(), TypeText(cols[i]).c_str(), key ? " NOT NULL" : "");
            shown += Fmt("%s#%d:%s ", cols[i].name.c_str(), field_ids[i], TypeText(cols[i]).c_str());
        }
        sp.schema = arrow::schema(fields);
        j += Fmt(" ],\n  \"highestFieldId\" : %d,\n  \"partitionKeys\" : %s,\n  \"primaryKeys\" : %s,\n  \"options\" : { ", highest, Quoted(sp.partition_keys).c_str(), Quoted(sp.primary_keys).c_str());
        bool first = true;
        for (auto& kv : t->WithFormat()) {
            j += Fmt("%s\"%s\" : \"%s\"", first ? "" : ", ", kv.first.c_str(), kv.second.c_str());
            first = false;
        }
        j += " },\n  \"timeMillis\" : 1700000000000\n}";
        std::ofstream(t->path() + Fmt("/schema/schema-%d", schema_id)) << j;
        c.Op(Fmt("schema %d: %s", schema_id, shown.c_str()), true);
        t = tab::Table::At(t->path(), sp);
        Plan();
    }
    void Run() {
        int n = c.rng.Range(2, 6);
        for (int i = 0; i < n; i++) {
            if (i && c.rng.Chance(0.7)) Evolve();
            if (c.rng.Chance(0.8) || !latest) Step();
            if (latest && c.rng.Chance(0.3)) CheckFilter(latest);
        }
        if (!plain && c.rng.Chance(0.4)) {
            Delete();
            if (c.rng.Chance(0.5)) Evolve();
        }
        int m = c.rng.Range(3, 8);
        for (int i = 0; i < m; i++) CheckFilter(latest);
        auto bad = fsguard::TakeRefused();
        VF_EXPECT(bad.empty(), "escaped", "%s", bad.empty() ? "" : bad[0].c_str());
    }
};
}  // namespace

VF_SCENARIO(columns, 240, 1600) {
    Evolving e(c);
    e.plain = true;
    e.Begin();
    e.Run();
}
VF_SCENARIO(types, 240, 1600) {
    Evolving e(c);
    e.plain = e.casts = true;
    e.Begin();
    e.Run();
}
VF_SCENARIO(indexed, 240, 1600) {
    Evolving e(c);
    e.casts = c.rng.Chance(0.7);
    e.Begin();
    e.Run();
}
