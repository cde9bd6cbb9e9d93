// The catalog: databases and tables created through it against a model of what exists, the schema
// files it leaves against an independently written rendering of the definition, schema files
// written by others, damaged schema files, rivals creating the same table and failing file systems.
#include <filesystem>

#include "arrow/api.h"
#include "arrow/c/bridge.h"
#include "arrow/c/helpers.h"
#include "paimon/catalog/catalog.h"
#include "paimon/catalog/identifier.h"
#include "paimon/core/schema/schema_manager.h"
#include "paimon/core/schema/table_schema.h"
#include "paimon/schema/schema.h"
#include "rapidjson/document.h"
#include "rapidjson/stringbuffer.h"
#include "rapidjson/writer.h"
#include "fsguard.h"
#include "paimon/fs/file_system_factory.h"
#include "tab.h"
#include "vf.h"

namespace {
using namespace paimon;  // NOLINT
using vf::Case;
using vf::Fmt;
using J = rapidjson::Document;
using V = rapidjson::Value;

struct Zone {
    Zone() { setenv("TZ", "Asia/Shanghai", 1); }
} g_zone;  // of the zoned timestamps below
std::map<std::string, std::string> Base() {
    return {{"file.format", "vfmt"}, {"manifest.format", "vfmt"}, {"file-system", "vfs"}};
}

// ---------------------------------------------------------------- definitions
enum Shape { LEAF, ARR, MAP, ROW };
struct Ty {
    Shape shape = LEAF;
    int kind = 0;  // leaf: index of the table below
    int p = 0, s = 0;
    bool nullable = true;
    std::vector<Ty> kids;            // ARR: element, MAP: key and value, ROW: fields
    std::vector<std::string> names;  // ROW
    std::vector<std::string> descs;
    std::vector<int> ids;
};
struct Def {
    Ty row;  // the columns
    std::vector<std::string> part, pk;
    std::map<std::string, std::string> opts;
    int highest = -1;
};
enum Leaf { L_BOOL, L_I8, L_I16, L_I32, L_I64, L_F, L_D, L_STR, L_BIN, L_DATE, L_DEC, L_TS, L_LTZ, L_N };

std::string LeafText(const Ty& t) {
    switch (t.kind) {
        case L_BOOL: return "BOOLEAN";
        case L_I8: return "TINYINT";
        case L_I16: return "SMALLINT";
        case L_I32: return "INT";
        case L_I64: return "BIGINT";
        case L_F: return "FLOAT";
        case L_D: return "DOUBLE";
        case L_STR: return "STRING";
        case L_BIN: return "BYTES";
        case L_DATE: return "DATE";
        case L_DEC: return Fmt("DECIMAL(%d, %d)", t.p, t.s);
        case L_TS: return Fmt("TIMESTAMP(%d)", t.p);
        default: return Fmt("TIMESTAMP(%d) WITH LOCAL TIME ZONE", t.p);
    }
}
std::shared_ptr<arrow::DataType> Arrow(const Ty& t);
std::shared_ptr<arrow::DataType> ArrowLeaf(const Ty& t) {
    auto unit = t.p == 0   ? arrow::TimeUnit::SECOND
                : t.p == 3 ? arrow::TimeUnit::MILLI
                : t.p == 6 ? arrow::TimeUnit::MICRO
                           : arrow::TimeUnit::NANO;
    switch (t.kind) {
        case L_BOOL: return arrow::boolean();
        case L_I8: return arrow::int8();
        case L_I16: return arrow::int16();
        case L_I32: return arrow::int32();
        case L_I64: return arrow::int64();
        case L_F: return arrow::float32();
        case L_D: return arrow::float64();
        case L_STR: return arrow::utf8();
        case L_BIN: return arrow::binary();
        case L_DATE: return arrow::date32();
        case L_DEC: return arrow::decimal128(t.p, t.s);
        case L_TS: return arrow::timestamp(unit);
        default: return arrow::timestamp(unit, "Asia/Shanghai");
    }
}
arrow::FieldVector ArrowFields(const Ty& row) {
    arrow::FieldVector v;
    for (size_t i = 0; i < row.kids.size(); i++) {
        std::shared_ptr<arrow::KeyValueMetadata> md;
        if (!row.descs[i].empty()) md = arrow::KeyValueMetadata::Make({"paimon.description"}, {row.descs[i]});
        v.push_back(arrow::field(row.names[i], Arrow(row.kids[i]), row.kids[i].nullable, md));
    }
    return v;
}
std::shared_ptr<arrow::DataType> Arrow(const Ty& t) {
    switch (t.shape) {
        case LEAF: return ArrowLeaf(t);
        case ARR: return arrow::list(arrow::field("item", Arrow(t.kids[0]), t.kids[0].nullable));
        case MAP: return arrow::map(Arrow(t.kids[0]), arrow::field("value", Arrow(t.kids[1]), t.kids[1].nullable));
        default: return arrow::struct_(ArrowFields(t));
    }
}
void AssignIds(Ty* t, int* next) {
    if (t->shape == ROW) {
        t->ids.assign(t->kids.size(), 0);
        for (size_t i = 0; i < t->kids.size(); i++) {
            t->ids[i] = (*next)++;
            AssignIds(&t->kids[i], next);
        }
    } else {
        for (auto& k : t->kids) AssignIds(&k, next);
    }
}
V Str(const std::string& s, J* d) { return V(s.c_str(), static_cast<rapidjson::SizeType>(s.size()), d->GetAllocator()); }

// how a type is written in a schema file; `style` > 0 uses other spellings the format allows
V TypeJson(const Ty& t, J* d, vf::Rng* style);
V FieldsJson(const Ty& row, J* d, vf::Rng* style) {
    V a(rapidjson::kArrayType);
    for (size_t i = 0; i < row.kids.size(); i++) {
        V o(rapidjson::kObjectType);
        o.AddMember("id", i < row.ids.size() ? row.ids[i] : -1, d->GetAllocator());
        o.AddMember("name", Str(row.names[i], d), d->GetAllocator());
        o.AddMember("type", TypeJson(row.kids[i], d, style), d->GetAllocator());
        if (!row.descs[i].empty()) o.AddMember("description", Str(row.descs[i], d), d->GetAllocator());
        a.PushBack(o, d->GetAllocator());
    }
    return a;
}
V TypeJson(const Ty& t, J* d, vf::Rng* style) {
    std::string nn = t.nullable ? "" : " NOT NULL";
    if (t.shape == LEAF) {
        std::string text = LeafText(t);
        if (style) {
            if (t.kind == L_I32 && style->Chance(0.3)) text = "INTEGER";
            if (t.kind == L_DEC && style->Chance(0.5)) text = Fmt("%s(%d,%d)", style->Chance(0.5) ? "NUMERIC" : "DEC", t.p, t.s);
            if (t.kind == L_DEC && t.s == 0 && style->Chance(0.5)) text = Fmt("DECIMAL(%d)", t.p);
            if (t.kind == L_D && style->Chance(0.3)) text = "DOUBLE PRECISION";
            if (t.kind == L_LTZ && style->Chance(0.5)) text = Fmt("TIMESTAMP_LTZ(%d)", t.p);
            if (t.kind == L_TS && style->Chance(0.3)) text = Fmt("TIMESTAMP ( %d ) WITHOUT TIME ZONE", t.p);
            if ((t.kind == L_TS || t.kind == L_LTZ) && t.p == 6 && style->Chance(0.5))
                text = t.kind == L_TS ? "TIMESTAMP" : "TIMESTAMP WITH LOCAL TIME ZONE";
            text += nn;
            if (style->Chance(0.2))
                for (auto& ch : text) ch = static_cast<char>(tolower(ch));
            return Str(text, d);
        }
        return Str(text + nn, d);
    }
    V o(rapidjson::kObjectType);
    if (t.shape == ARR) {
        o.AddMember("type", Str("ARRAY" + nn, d), d->GetAllocator());
        o.AddMember("element", TypeJson(t.kids[0], d, style), d->GetAllocator());
    } else if (t.shape == MAP) {
        o.AddMember("type", Str("MAP" + nn, d), d->GetAllocator());
        o.AddMember("key", TypeJson(t.kids[0], d, style), d->GetAllocator());
        o.AddMember("value", TypeJson(t.kids[1], d, style), d->GetAllocator());
    } else {
        o.AddMember("type", Str("ROW" + nn, d), d->GetAllocator());
        o.AddMember("fields", FieldsJson(t, d, style), d->GetAllocator());
    }
    return o;
}
V Strings(const std::vector<std::string>& v, J* d) {
    V a(rapidjson::kArrayType);
    for (auto& s : v) a.PushBack(Str(s, d), d->GetAllocator());
    return a;
}
// everything but timeMillis
void SchemaJson(const Def& def, int version, int64_t id, J* d, vf::Rng* style = nullptr) {
    d->SetObject();
    auto& al = d->GetAllocator();
    if (version > 0) d->AddMember("version", version, al);
    d->AddMember("id", V(id), al);
    d->AddMember("fields", FieldsJson(def.row, d, style), al);
    d->AddMember("highestFieldId", def.highest, al);
    d->AddMember("partitionKeys", Strings(def.part, d), al);
    d->AddMember("primaryKeys", Strings(def.pk, d), al);
    V o(rapidjson::kObjectType);
    for (auto& [k, v] : def.opts) o.AddMember(Str(k, d), Str(v, d), al);
    d->AddMember("options", o, al);
}
std::string Text(const V& v) {
    rapidjson::StringBuffer b;
    rapidjson::Writer<rapidjson::StringBuffer> w(b);
    v.Accept(w);
    return std::string(b.GetString(), b.GetSize());
}

Ty RandomLeaf(vf::Rng& r) {
    Ty t;
    t.kind = static_cast<int>(r.Below(L_N));
    if (t.kind == L_DEC) {
        t.p = static_cast<int>(r.Range(1, 38));
        t.s = static_cast<int>(r.Range(0, t.p));
    }
    if (t.kind == L_TS || t.kind == L_LTZ) t.p = static_cast<int>(3 * r.Below(4));
    t.nullable = r.Chance(0.7);
    return t;
}
std::string Name(vf::Rng& r, const std::set<std::string>& taken) {
    for (;;) {
        std::string n;
        if (r.Chance(0.7)) {
            n = r.Ascii(static_cast<size_t>(r.Range(1, 6)), "abcXYZ_019");
        } else if (r.Chance(0.5)) {
            n = r.Of<std::string>({"a b", "qu\"ote", "back\\slash", "列", "ünï", "tab\there", "_key_x", "_KEY", "new\nline", "x.y", "{}", "fields", "sl/ash"});
        } else {
            n = r.Ascii(static_cast<size_t>(r.Range(1, 40)), "abcdefghijklmnopqrstuvwxyz -+%&");
        }
        bool blank = n.find_first_not_of(" \t\n\r") == std::string::npos;
        if (!blank && !taken.count(n) && n.compare(0, 5, "_KEY_") != 0) return n;
    }
}
Ty RandomRow(vf::Rng& r, int depth, size_t least);
Ty RandomTy(vf::Rng& r, int depth) {
    if (depth == 0 || r.Chance(0.6)) return RandomLeaf(r);
    Ty t;
    t.nullable = r.Chance(0.7);
    switch (r.Below(3)) {
        case 0:
            t.shape = ARR;
            t.kids.push_back(RandomTy(r, depth - 1));
            break;
        case 1:
            t.shape = MAP;
            t.kids.push_back(r.Chance(0.8) ? RandomLeaf(r) : RandomTy(r, depth - 1));
            t.kids[0].nullable = false;
            t.kids.push_back(RandomTy(r, depth - 1));
            break;
        default: {
            bool n = t.nullable;
            t = RandomRow(r, depth - 1, 1);
            t.nullable = n;
        }
    }
    return t;
}
Ty RandomRow(vf::Rng& r, int depth, size_t least) {
    Ty t;
    t.shape = ROW;
    std::set<std::string> taken;
    size_t n = least + r.Below(4);
    for (size_t i = 0; i < n; i++) {
        std::string name = Name(r, taken);
        taken.insert(name);
        t.names.push_back(name);
        t.kids.push_back(RandomTy(r, depth));
        t.descs.push_back(r.Chance(0.2) ? r.Of<std::string>({"a column", "with \"quotes\"", "列の説明", " ", "line\nbreak"}) : "");
    }
    return t;
}
bool Plain(const std::string& n) { return n.find(',') == std::string::npos; }

// a definition that the catalog has to accept
Def Good(vf::Rng& r) {
    Def d;
    d.row = RandomRow(r, 2, 2);
    // key columns come from leaves only
    std::vector<size_t> leaves, part_ok;
    for (size_t i = 0; i < d.row.kids.size(); i++) {
        if (d.row.kids[i].shape != LEAF || !Plain(d.row.names[i])) continue;
        leaves.push_back(i);
        int k = d.row.kids[i].kind;
        if (k != L_TS && k != L_LTZ && k != L_DEC) part_ok.push_back(i);
    }
    if (!part_ok.empty() && r.Chance(0.4)) {
        d.part.push_back(d.row.names[r.Pick(part_ok)]);
        if (part_ok.size() > 1 && r.Chance(0.3)) {
            std::string n = d.row.names[r.Pick(part_ok)];
            if (n != d.part[0]) d.part.push_back(n);
        }
    }
    std::vector<std::string> free;
    for (size_t i : leaves)
        if (std::find(d.part.begin(), d.part.end(), d.row.names[i]) == d.part.end()) free.push_back(d.row.names[i]);
    bool cross = false;
    if (!free.empty() && r.Chance(0.5)) {
        if (r.Chance(0.8)) {
            d.pk = d.part;
        } else {
            cross = !d.part.empty();
        }
        size_t at = r.Below(d.pk.size() + 1);
        d.pk.insert(d.pk.begin() + static_cast<long>(at), r.Pick(free));
        std::string more = r.Pick(free);
        if (r.Chance(0.4) && std::find(d.pk.begin(), d.pk.end(), more) == d.pk.end()) d.pk.push_back(more);
    }
    d.opts = Base();
    if (d.pk.empty()) {
        if (!free.empty() && r.Chance(0.4)) {
            d.opts["bucket"] = std::to_string(r.Range(1, 64));
            std::string key = r.Pick(free);
            std::string more = r.Pick(free);
            if (more != key && r.Chance(0.5)) key += "," + more;
            d.opts["bucket-key"] = key;
        } else if (r.Chance(0.5)) {
            d.opts["bucket"] = "-1";
        }
        if (d.opts.count("bucket-key") == 0 && r.Chance(0.2)) {
            d.opts["row-tracking.enabled"] = "true";
            if (r.Chance(0.5)) d.opts["data-evolution.enabled"] = "true";
        }
    } else {
        if (!cross && r.Chance(0.7)) {
            d.opts["bucket"] = std::to_string(r.Chance(0.9) ? r.Range(1, 64) : -2);
            if (r.Chance(0.4)) {
                for (auto& k : d.pk)
                    if (std::find(d.part.begin(), d.part.end(), k) == d.part.end()) d.opts["bucket-key"] = k;
            }
        }
        if (r.Chance(0.3)) d.opts["merge-engine"] = r.Of<std::string>({"deduplicate", "partial-update", "first-row", "aggregation"});
        if (!cross && d.opts["merge-engine"] != "first-row" && r.Chance(0.3)) {
            std::string f = d.row.names[r.Below(d.row.names.size())];
            if (Plain(f) && f.find_first_of(" \t\n") == std::string::npos) d.opts["sequence.field"] = f;
        }
        if (d.opts["merge-engine"].empty()) d.opts.erase("merge-engine");
    }
    if (r.Chance(0.4)) d.opts["k" + std::to_string(r.Below(100))] = r.Of<std::string>({"", "v", "\"q\"", "a\nb", "列", "{\"x\":1}", "a=b;c"});
    if (r.Chance(0.2)) d.opts["snapshot.num-retained.min"] = std::to_string(r.Range(1, 20));
    if (r.Chance(0.2)) d.opts["snapshot.num-retained.max"] = std::to_string(r.Range(20, 90));
    return d;
}
// what the table is once created: identifiers given depth first, key columns mandatory
Def Stored(Def d) {
    int next = 0;
    AssignIds(&d.row, &next);
    d.highest = next - 1;
    for (size_t i = 0; i < d.row.kids.size(); i++)
        if (std::find(d.pk.begin(), d.pk.end(), d.row.names[i]) != d.pk.end()) d.row.kids[i].nullable = false;
    return d;
}
size_t AddCol(Def* d, const std::string& name, const Ty& t) {
    d->row.names.push_back(name);
    d->row.kids.push_back(t);
    d->row.descs.push_back("");
    return d->row.kids.size() - 1;
}
Ty LeafOf(int kind, int p = 0, int s = 0) {
    Ty t;
    t.kind = kind;
    t.p = p;
    t.s = s;
    return t;
}
Ty NestedOf(vf::Rng& r) {
    Ty t;
    t.shape = r.Of<Shape>({ARR, MAP, ROW});
    t.kids.push_back(LeafOf(L_I32));
    if (t.shape == MAP) {
        t.kids[0].nullable = false;
        t.kids.push_back(LeafOf(L_STR));
    }
    if (t.shape == ROW) t.names = {"in"}, t.descs = {""};
    return t;
}
Def Bare(vf::Rng& r) {  // an unpartitioned table without key and without settings of its own
    Def d = Good(r);
    d.part.clear();
    d.pk.clear();
    d.opts = Base();
    return d;
}
// breaks one rule of definitions; the text says which
std::string Spoil(vf::Rng& r, Def* out) {
    Def d = Bare(r);
    AddCol(&d, "zk", LeafOf(L_I32));
    AddCol(&d, "zp", LeafOf(L_STR));
    std::string what;
    switch (r.Below(32)) {
        case 0: what = "two columns of the same name"; AddCol(&d, d.row.names[r.Below(d.row.names.size())], LeafOf(L_I64)); break;
        case 1: what = "a blank column name"; AddCol(&d, r.Of<std::string>({"", " ", "  \t", "\n"}), LeafOf(L_I64)); break;
        case 2: what = "an unknown primary key"; d.pk = {"nosuch"}; break;
        case 3: what = "an unknown partition column"; d.part = {"nosuch"}; break;
        case 4: what = "a repeated primary key"; d.pk = {"zk", "zp", "zk"}; break;
        case 5: what = "a repeated partition column"; d.part = {"zp", "zp"}; break;
        case 6: what = "the primary key is the partition"; d.part = {"zp", "zk"}; d.pk = {"zk", "zp"}; break;
        case 7: what = "a nested primary key"; AddCol(&d, "zn", NestedOf(r)); d.pk = {"zn"}; break;
        case 8: what = "a nested partition column"; AddCol(&d, "zn", NestedOf(r)); d.part = {"zn"}; break;
        case 9: what = "a timestamp partition column"; AddCol(&d, "zt", LeafOf(r.Of<int>({L_TS, L_LTZ}), static_cast<int>(3 * r.Below(4)))); d.part = {"zt"}; break;
        case 10: what = "a decimal partition column"; AddCol(&d, "zt", LeafOf(L_DEC, 10, 2)); d.part = {"zt"}; break;
        case 11: what = "no buckets"; d.opts["bucket"] = r.Of<std::string>({"0", "-3", "-100"}); d.opts["bucket-key"] = "zk"; break;
        case 12: what = "no buckets in a keyed table"; d.pk = {"zk"}; d.opts["bucket"] = r.Of<std::string>({"0", "-3"}); break;
        case 13: what = "postponed buckets without a key"; d.opts["bucket"] = "-2"; d.opts["bucket-key"] = "zk"; break;
        case 14: what = "buckets without a bucket key"; d.opts["bucket"] = "4"; break;
        case 15: what = "an unknown bucket key"; d.opts["bucket"] = "4"; d.opts["bucket-key"] = r.Of<std::string>({"nosuch", "zk,nosuch"}); break;
        case 16: what = "a bucket key among the partition columns"; d.part = {"zp"}; d.opts["bucket"] = "4"; d.opts["bucket-key"] = r.Of<std::string>({"zp", "zk,zp"}); break;
        case 17: what = "a bucket key outside the primary key"; d.pk = {"zk"}; d.opts["bucket"] = "4"; d.opts["bucket-key"] = "zp"; break;
        case 18: what = "a bucket key without buckets"; d.opts["bucket-key"] = "zk"; if (r.Chance(0.5)) d.opts["bucket"] = "-1"; break;
        case 19: what = "a repeated bucket key"; d.opts["bucket"] = "4"; d.opts["bucket-key"] = "zk,zp,zk"; break;
        case 20: what = "a nested bucket key"; AddCol(&d, "zn", NestedOf(r)); d.opts["bucket"] = "4"; d.opts["bucket-key"] = "zn"; break;
        case 21: what = "fixed buckets for keys that cross partitions"; d.part = {"zp"}; d.pk = {"zk"}; d.opts["bucket"] = "2"; break;
        case 22: what = "a reserved column name"; AddCol(&d, r.Of<std::string>({"_KEY_a", "_KEY_", "_SEQUENCE_NUMBER", "_VALUE_KIND", "_ROW_ID"}), LeafOf(L_I64)); break;
        case 23: what = "an unknown sequence field"; d.pk = {"zk"}; d.opts["bucket"] = "1"; d.opts["sequence.field"] = r.Of<std::string>({"nosuch", "zp,nosuch"}); break;
        case 24: what = "a repeated sequence field"; d.pk = {"zk"}; d.opts["bucket"] = "1"; d.opts["sequence.field"] = "zp,zp"; break;
        case 25: what = "a sequence field with first-row"; d.pk = {"zk"}; d.opts["bucket"] = "1"; d.opts["sequence.field"] = "zp"; d.opts["merge-engine"] = "first-row"; break;
        case 26: what = "snapshot retention"; d.opts["snapshot.num-retained.min"] = r.Of<std::string>({"0", "-1", "7"}); d.opts["snapshot.num-retained.max"] = "6"; break;
        case 27: what = "a changelog producer without a key"; d.opts["changelog-producer"] = r.Of<std::string>({"input", "lookup", "full-compaction"}); break;
        case 28: what = "a setting of an unknown column"; d.pk = {"zk"}; d.opts["bucket"] = "1"; d.opts["fields.nosuch.aggregate-function"] = "sum"; break;
        case 29: what = "row tracking with a key or buckets"; d.opts["row-tracking.enabled"] = "true"; if (r.Chance(0.5)) { d.pk = {"zk"}; } else { d.opts["bucket"] = "2"; d.opts["bucket-key"] = "zk"; } break;
        case 30: what = "data evolution without row tracking"; d.opts["data-evolution.enabled"] = "true"; break;
        default: what = "an unreadable setting"; d.opts[r.Of<std::string>({"bucket", "snapshot.num-retained.min", "row-tracking.enabled"})] = r.Of<std::string>({"many", "1x", ""}); break;
    }
    *out = d;
    return what;
}

// ---------------------------------------------------------------- judgement
std::string ReadText(const std::string& path) {
    FILE* f = fopen(path.c_str(), "rb");
    if (!f) return "";
    std::string s;
    char buf[4096];
    size_t n;
    while ((n = fread(buf, 1, sizeof buf, f)) > 0) s.append(buf, n);
    fclose(f);
    return s;
}
void WriteText(const std::string& path, const std::string& s) {
    FILE* f = fopen(path.c_str(), "wb");
    if (!f) throw std::runtime_error("cannot write " + path);
    fwrite(s.data(), 1, s.size(), f);
    fclose(f);
}
void MakeDirs(const std::string& p) {
    for (size_t i = 1; i <= p.size(); i++)
        if (i == p.size() || p[i] == '/') mkdir(p.substr(0, i).c_str(), 0755);
}

// a type as arrow shows it against the definition, the zone of zoned timestamps left open
void SameType(Case& c, const Ty& t, const arrow::DataType& a, const std::string& at) {
    auto id = a.id();
    if (t.shape == LEAF) {
        if (t.kind == L_LTZ || t.kind == L_TS) {
            VF_EXPECT(id == arrow::Type::TIMESTAMP, "loaded type", "%s is %s", at.c_str(), a.ToString().c_str());
            auto& ts = static_cast<const arrow::TimestampType&>(a);
            VF_EXPECT(ts.timezone().empty() == (t.kind == L_TS) &&
                          ts.unit() == static_cast<const arrow::TimestampType&>(*ArrowLeaf(t)).unit(),
                      "loaded type", "%s is %s but was defined as %s", at.c_str(), a.ToString().c_str(), LeafText(t).c_str());
            return;
        }
        VF_EXPECT(a.Equals(*ArrowLeaf(t)), "loaded type", "%s is %s but was defined as %s", at.c_str(), a.ToString().c_str(), LeafText(t).c_str());
        return;
    }
    auto want = t.shape == ARR ? arrow::Type::LIST : t.shape == MAP ? arrow::Type::MAP : arrow::Type::STRUCT;
    VF_EXPECT(id == want, "loaded type", "%s is %s", at.c_str(), a.ToString().c_str());
    if (t.shape == ARR) {
        auto f = static_cast<const arrow::ListType&>(a).value_field();
        VF_EXPECT(f->nullable() == t.kids[0].nullable, "loaded nullability", "elements of %s", at.c_str());
        SameType(c, t.kids[0], *f->type(), at + "[]");
    } else if (t.shape == MAP) {
        auto& m = static_cast<const arrow::MapType&>(a);
        VF_EXPECT(m.item_field()->nullable() == t.kids[1].nullable, "loaded nullability", "values of %s", at.c_str());
        SameType(c, t.kids[0], *m.key_type(), at + ".key");
        SameType(c, t.kids[1], *m.item_type(), at + ".value");
    } else {
        VF_EXPECT(a.num_fields() == static_cast<int>(t.kids.size()), "loaded columns", "%s has %d fields", at.c_str(), a.num_fields());
        for (int i = 0; i < a.num_fields(); i++) {
            auto f = a.field(i);
            std::string p = at + "." + t.names[i];
            VF_EXPECT(f->name() == t.names[i] && f->nullable() == t.kids[i].nullable, "loaded columns", "%s reads as %s, %s", p.c_str(), f->name().c_str(), f->nullable() ? "nullable" : "not null");
            std::string desc, fid;
            if (f->metadata()) {
                desc = f->metadata()->Get("paimon.description").ValueOr("");
                fid = f->metadata()->Get("paimon.id").ValueOr("");
            }
            VF_EXPECT(desc == t.descs[i], "loaded description", "%s reads as '%s' but was '%s'", p.c_str(), desc.c_str(), t.descs[i].c_str());
            VF_EXPECT(fid == std::to_string(t.ids[i]), "loaded field id", "%s reads as %s but is %d", p.c_str(), fid.c_str(), t.ids[i]);
            SameType(c, t.kids[i], *f->type(), p);
        }
    }
}
std::vector<std::string> ExpectedBucketKeys(const Def& d) {
    std::vector<std::string> v;
    auto it = d.opts.find("bucket-key");
    if (it != d.opts.end()) {
        std::stringstream s(it->second);
        std::string x;
        while (std::getline(s, x, ',')) v.push_back(x);
        return v;
    }
    for (auto& k : d.pk)
        if (std::find(d.part.begin(), d.part.end(), k) == d.part.end()) v.push_back(k);
    return v;
}
std::string Join(const std::vector<std::string>& v) {
    std::string s;
    for (auto& x : v) s += "[" + x + "]";
    return s;
}
std::string Show(const Def& d) {
    J doc;
    SchemaJson(d, 3, 0, &doc);
    return Text(doc);
}
void SameLoaded(Case& c, const Def& d, int64_t id, const std::optional<std::string>& comment, const Schema& s) {
    VF_EXPECT(s.Id() == id, "loaded id", "%lld instead of %lld", (long long)s.Id(), (long long)id);
    VF_EXPECT(s.FieldNames() == d.row.names, "loaded columns", "%s of %s", Join(s.FieldNames()).c_str(), Show(d).c_str());
    VF_EXPECT(s.PartitionKeys() == d.part, "loaded partition keys", "%s of %s", Join(s.PartitionKeys()).c_str(), Show(d).c_str());
    VF_EXPECT(s.PrimaryKeys() == d.pk, "loaded primary keys", "%s of %s", Join(s.PrimaryKeys()).c_str(), Show(d).c_str());
    VF_EXPECT(s.BucketKeys() == ExpectedBucketKeys(d), "loaded bucket keys", "%s of %s", Join(s.BucketKeys()).c_str(), Show(d).c_str());
    auto b = d.opts.find("bucket");
    int buckets = b == d.opts.end() ? -1 : atoi(b->second.c_str());
    VF_EXPECT(s.NumBuckets() == buckets, "loaded buckets", "%d of %s", s.NumBuckets(), Show(d).c_str());
    VF_EXPECT(s.HighestFieldId() == d.highest, "loaded highest field", "%d of %s", s.HighestFieldId(), Show(d).c_str());
    VF_EXPECT(s.Options() == d.opts, "loaded options", "%zu options of %s", s.Options().size(), Show(d).c_str());
    VF_EXPECT(s.Comment() == comment, "loaded comment", "'%s' instead of '%s'", s.Comment().value_or("(none)").c_str(), comment.value_or("(none)").c_str());
    auto cs = s.GetArrowSchema();
    VF_EXPECT(cs.ok(), "loaded arrow schema", "%s", cs.status().ToString().c_str());
    auto imported = arrow::ImportSchema(cs.value().get());
    VF_EXPECT(imported.ok(), "loaded arrow schema", "%s", imported.status().ToString().c_str());
    SameType(c, d.row, *arrow::struct_((*imported)->fields()), "$");
}
void SameFile(Case& c, const Def& d, const std::string& path) {
    std::string text = ReadText(path);
    J got, want;
    got.Parse(text.c_str(), text.size());
    VF_EXPECT(!got.HasParseError() && got.IsObject(), "schema file", "%s is not an object: %.200s", path.c_str(), text.c_str());
    SchemaJson(d, 3, 0, &want);
    VF_EXPECT(got.HasMember("timeMillis") && got["timeMillis"].IsInt64() && got["timeMillis"].GetInt64() > 1000000000000ll, "schema file time", "%.200s", text.c_str());
    got.RemoveMember("timeMillis");
    VF_EXPECT(got == want, "schema file", "holds %s\nfor %s", Text(got).c_str(), Text(want).c_str());
}

// a directory of its own for the case
struct Dir {
    std::string path = vf::Scratch() + "/c37";
    Dir() {
        fsguard::Allow(vf::Scratch());
        Wipe();
        MakeDirs(path);
    }
    ~Dir() { Wipe(); }
    void Wipe() {
        std::error_code e;
        std::filesystem::remove_all(path, e);
    }
};

struct Cat {
    std::string wh;
    std::vector<std::unique_ptr<Catalog>> all;
    Catalog* Any(vf::Rng& r) {
        if (all.empty() || r.Chance(0.1)) Open();
        return all[r.Below(all.size())].get();
    }
    void Open() {
        auto x = Catalog::Create(wh, Base());
        if (!x.ok()) throw std::runtime_error("catalog: " + x.status().ToString());
        all.push_back(std::move(x).value());
    }
};
Status Create(Catalog* cat, const Identifier& id, const Def& d, bool ignore) {
    ::ArrowSchema cs;
    auto st = arrow::ExportSchema(*arrow::schema(ArrowFields(d.row)), &cs);
    if (!st.ok()) throw std::runtime_error(st.ToString());
    Status s = cat->CreateTable(id, &cs, d.part, d.pk, d.opts, ignore);
    if (cs.release) cs.release(&cs);
    return s;
}
std::vector<std::string> Sorted(std::vector<std::string> v) {
    std::sort(v.begin(), v.end());
    return v;
}

VF_SCENARIO(histories, 1500, 15000) {
    Dir dir_;
    auto& r = c.rng;
    Cat k;
    k.wh = dir_.path + "/wh";
    MakeDirs(k.wh);
    if (r.Chance(0.3)) k.wh += "/";
    std::map<std::string, std::map<std::string, Def>> model;
    const std::vector<std::string> dbs = {"a", "B", "d b", "x.db", "列", "a.b"};
    const std::vector<std::string> tabs = {"t", "T", "t 1", "表", "t.x", "t-2", "schema"};
    int n = static_cast<int>(r.Range(5, 30));
    auto db_path = [&](const std::string& d) { return k.wh + "/" + d + ".db"; };
    for (int i = 0; i < n; i++) {
        Catalog* cat = k.Any(r);
        std::string db = dbs[r.Below(dbs.size())];
        std::string tab = tabs[r.Below(tabs.size())];
        switch (r.Below(12)) {
            case 0:
            case 1: {
                bool ignore = r.Chance(0.5);
                std::map<std::string, std::string> o;
                if (r.Chance(0.2)) o["owner"] = "someone";
                bool bad = r.Chance(0.15);
                if (bad) o["location"] = "/nowhere/at/all";
                bool sys = r.Chance(0.1);
                if (sys) db = "sys";
                Status s = cat->CreateDatabase(db, o, ignore);
                c.Op(Fmt("create database %s%s%s", db.c_str(), ignore ? " if absent" : "", bad ? " at a location" : ""), sys || bad);
                bool there = model.count(db) > 0;
                if (sys) {
                    VF_EXPECT(!s.ok(), "system database", "created");
                } else if (there) {
                    VF_EXPECT(s.ok() == ignore, "database exists", "%s: %s", db.c_str(), s.ToString().c_str());
                } else if (bad) {
                    VF_EXPECT(!s.ok(), "database location", "%s: accepted", db.c_str());
                } else {
                    VF_EXPECT(s.ok(), "create database", "%s: %s", db.c_str(), s.ToString().c_str());
                    model[db];
                }
                break;
            }
            case 2:
            case 3:
            case 4:
            case 5: {
                Def d;
                std::string fault;
                if (r.Chance(0.3)) {
                    fault = Spoil(r, &d);
                } else {
                    d = Good(r);
                }
                bool ignore = r.Chance(0.4);
                if (!model.empty() && r.Chance(0.7)) {
                    auto it = model.begin();
                    std::advance(it, static_cast<long>(r.Below(model.size())));
                    db = it->first;
                }
                bool sys = r.Chance(0.08);
                if (sys) {
                    if (r.Chance(0.5)) {
                        db = "sys";
                    } else {
                        tab += r.Of<std::string>({"$snapshots", "$", "$branch_x"});
                    }
                }
                Status s = Create(cat, Identifier(db, tab), d, ignore);
                c.Op(Fmt("create table %s.%s with %s", db.c_str(), tab.c_str(), fault.empty() ? "a sound definition" : fault.c_str()), !fault.empty());
                c.Saw(vf::HashStr(Show(d)));
                if (sys) {
                    VF_EXPECT(!s.ok(), "system table", "%s.%s created", db.c_str(), tab.c_str());
                } else if (!model.count(db)) {
                    VF_EXPECT(!s.ok(), "table without database", "%s.%s created", db.c_str(), tab.c_str());
                } else if (model[db].count(tab)) {
                    VF_EXPECT(s.ok() == ignore, "table exists", "%s.%s: %s", db.c_str(), tab.c_str(), s.ToString().c_str());
                } else if (!fault.empty()) {
                    VF_EXPECT(!s.ok(), "unsound definition", "accepted a definition with %s: %s", fault.c_str(), Show(d).c_str());
                } else {
                    VF_EXPECT(s.ok(), "create table", "%s: %s", s.ToString().c_str(), Show(d).c_str());
                    model[db][tab] = Stored(d);
                    SameFile(c, model[db][tab], db_path(db) + "/" + tab + "/schema/schema-0");
                }
                break;
            }
            case 6: {
                auto l = cat->ListDatabases();
                VF_EXPECT(l.ok(), "list databases", "%s", l.status().ToString().c_str());
                std::vector<std::string> want;
                for (auto& [d, t] : model) want.push_back(d);
                VF_EXPECT(Sorted(l.value()) == Sorted(want), "list databases", "%s instead of %s", Join(Sorted(l.value())).c_str(), Join(Sorted(want)).c_str());
                c.Op("list databases");
                break;
            }
            case 7:
            case 8: {
                bool sys = r.Chance(0.1);
                auto l = cat->ListTables(sys ? "sys" : db);
                c.Op("list tables of " + (sys ? "sys" : db));
                if (sys) {
                    VF_EXPECT(!l.ok(), "list system tables", "listed");
                } else if (!model.count(db)) {
                    VF_EXPECT(!l.ok() || l.value().empty(), "list tables of nothing", "%s", Join(l.value()).c_str());
                } else {
                    VF_EXPECT(l.ok(), "list tables", "%s", l.status().ToString().c_str());
                    std::vector<std::string> want;
                    for (auto& [t, d] : model[db]) want.push_back(t);
                    VF_EXPECT(Sorted(l.value()) == Sorted(want), "list tables", "%s instead of %s", Join(Sorted(l.value())).c_str(), Join(Sorted(want)).c_str());
                }
                break;
            }
            case 9:
            case 10: {
                auto l = cat->LoadTableSchema(Identifier(db, tab));
                bool there = model.count(db) && model[db].count(tab);
                c.Op(Fmt("load %s.%s", db.c_str(), tab.c_str()), there);
                if (there) {
                    VF_EXPECT(l.ok(), "load", "%s.%s: %s", db.c_str(), tab.c_str(), l.status().ToString().c_str());
                    SameLoaded(c, model[db][tab], 0, std::nullopt, *l.value());
                } else {
                    VF_EXPECT(!l.ok() && l.status().IsNotExist(), "load nothing", "%s.%s: %s", db.c_str(), tab.c_str(), l.status().ToString().c_str());
                }
                break;
            }
            default: {  // things that are neither a database nor a table
                switch (r.Below(5)) {
                    case 0: MakeDirs(k.wh + "/plain" + std::to_string(r.Below(3))); break;
                    case 1: WriteText(k.wh + "/file" + std::to_string(r.Below(3)) + ".db", "x"); break;
                    case 2: MakeDirs(k.wh + "/db" + std::to_string(r.Below(3))); break;
                    case 3:
                        if (model.count(db)) {
                            std::string p = db_path(db) + "/junk" + std::to_string(r.Below(3));
                            MakeDirs(p + (r.Chance(0.5) ? "/schema" : "/bucket-0"));
                            if (r.Chance(0.3)) {
                                MakeDirs(p + "/schema");
                                WriteText(p + "/schema/.schema-0.5d1c.tmp", "{");
                            }
                        }
                        break;
                    default:
                        if (model.count(db)) WriteText(db_path(db) + "/note" + std::to_string(r.Below(3)), "x");
                }
                c.Op("noise");
            }
        }
    }
    // and what a new catalog sees in the end
    k.all.clear();
    k.Open();
    for (auto& [db, ts] : model) {
        auto l = k.all[0]->ListTables(db);
        VF_EXPECT(l.ok() && l.value().size() == ts.size(), "list tables", "%s: %zu tables instead of %zu", db.c_str(), l.ok() ? l.value().size() : 0, ts.size());
        for (auto& [t, d] : ts) {
            auto s = k.all[0]->LoadTableSchema(Identifier(db, t));
            VF_EXPECT(s.ok(), "load", "%s", s.status().ToString().c_str());
            SameLoaded(c, d, 0, std::nullopt, *s.value());
        }
    }
}

// ---------------------------------------------------------------- definitions alone
VF_SCENARIO(definitions, 12000, 90000) {
    Dir dir_;
    auto& r = c.rng;
    if (r.Chance(0.3)) {
        std::string wh = dir_.path + "/wh";
        Def d;
        std::string fault = Spoil(r, &d);
        Cat k;
        k.wh = wh;
        MakeDirs(wh + "/d.db");
        k.Open();
        Status s = Create(k.all[0].get(), Identifier("d", "t"), d, false);
        c.Op("refuse " + fault, true);
        VF_EXPECT(!s.ok(), "unsound definition", "accepted a definition with %s: %s", fault.c_str(), Show(d).c_str());
        auto l = k.all[0]->ListTables("d");
        VF_EXPECT(l.ok() && l.value().empty(), "refused table", "a table is listed after a definition with %s was refused", fault.c_str());
        return;
    }
    Def d = Good(r);
    Def want = Stored(d);
    c.Saw(vf::HashStr(Show(want)));
    auto t = TableSchema::Create(0, arrow::schema(ArrowFields(d.row)), d.part, d.pk, d.opts);
    VF_EXPECT(t.ok(), "create schema", "%s: %s", t.status().ToString().c_str(), Show(d).c_str());
    auto text = t.value()->ToJsonString();
    VF_EXPECT(text.ok(), "write schema", "%s", text.status().ToString().c_str());
    J got, mine;
    got.Parse(text.value().c_str());
    got.RemoveMember("timeMillis");
    SchemaJson(want, 3, 0, &mine);
    VF_EXPECT(got == mine, "schema text", "%s\ninstead of %s", Text(got).c_str(), Text(mine).c_str());
    auto back = TableSchema::CreateFromJson(text.value());
    VF_EXPECT(back.ok(), "read schema", "%s", back.status().ToString().c_str());
    VF_EXPECT(*back.value() == *t.value(), "schema equality", "%s", text.value().c_str());
    auto again = back.value()->ToJsonString();
    VF_EXPECT(again.ok() && again.value() == text.value(), "schema text twice", "%s\nthen %s", text.value().c_str(), again.ok() ? again.value().c_str() : "");
    for (size_t i = 0; i < want.row.names.size(); i++) {
        auto f = back.value()->GetField(want.row.names[i]);
        auto g = back.value()->GetField(want.row.ids[i]);
        VF_EXPECT(f.ok() && g.ok() && f.value() == g.value() && f.value().Id() == want.row.ids[i], "field lookup", "%s", want.row.names[i].c_str());
    }
    VF_EXPECT(!back.value()->GetField("no such column").ok() && !back.value()->GetField(want.highest + 1).ok(), "field lookup", "found a column that is not there");
    bool cross = false;
    for (auto& p : want.part) cross |= !want.pk.empty() && std::find(want.pk.begin(), want.pk.end(), p) == want.pk.end();
    VF_EXPECT(back.value()->CrossPartitionUpdate() == cross, "cross partition", "%s", text.value().c_str());
    c.Op("write and read a definition", want.row.kids.size() > 2);
}

// ---------------------------------------------------------------- schema files of others
void Renumber(vf::Rng& r, Ty* t, int* next) {
    if (t->shape == ROW) {
        t->ids.assign(t->kids.size(), 0);
        for (auto& id : t->ids) id = (*next += static_cast<int>(r.Range(1, 3))) - 1;
    }
    for (auto& k : t->kids) Renumber(r, &k, next);
}
VF_SCENARIO(foreign, 8000, 60000) {
    Dir dir_;
    auto& r = c.rng;
    std::string wh = dir_.path + "/wh";
    std::string dir = wh + "/d.db/t/schema";
    MakeDirs(dir);
    std::map<int64_t, std::pair<Def, std::optional<std::string>>> versions;
    int n = static_cast<int>(r.Range(1, 4));
    while (static_cast<int>(versions.size()) < n) versions[r.Chance(0.4) ? r.Range(0, 3) : r.Range(5, 120)];
    for (auto& [id, v] : versions) {
        Def d = Good(r);
        int next = static_cast<int>(r.Below(3));
        Renumber(r, &d.row, &next);
        d.highest = next - 1 + static_cast<int>(r.Below(5));
        if (r.Chance(0.4)) v.second = r.Of<std::string>({"", "a comment", "列\n\"q\""});
        int version = static_cast<int>(r.Below(4));  // 0: no version at all
        J doc;
        Def file = d;
        if (version <= 2 && r.Chance(0.5)) {
            file.opts.erase("file.format");
        }
        if (file.opts.count("bucket") == 0 && version <= 1) d.opts["bucket"] = "1";
        if (file.opts.count("file.format") == 0) d.opts["file.format"] = "orc";
        SchemaJson(file, version, id, &doc, r.Chance(0.7) ? &r : nullptr);
        if (v.second) doc.AddMember("comment", Str(*v.second, &doc), doc.GetAllocator());
        if (r.Chance(0.8)) doc.AddMember("timeMillis", V(int64_t{1700000000000} + static_cast<int64_t>(r.Below(1000000))), doc.GetAllocator());
        if (r.Chance(0.1)) doc.AddMember("somethingNew", V(1), doc.GetAllocator());
        std::string text = Text(doc);
        if (r.Chance(0.2)) text = "\n " + text + "\n";
        WriteText(dir + "/schema-" + std::to_string(id), text);
        v.first = d;
        c.Saw(vf::HashStr(text));
        c.Op(Fmt("schema-%lld of version %d", (long long)id, version), version < 3);
    }
    Cat k;
    k.wh = wh;
    k.Open();
    auto& [last_id, last] = *versions.rbegin();
    auto s = k.all[0]->LoadTableSchema(Identifier("d", "t"));
    VF_EXPECT(s.ok(), "load", "%s: %s", s.status().ToString().c_str(), ReadText(dir + "/schema-" + std::to_string(last_id)).c_str());
    SameLoaded(c, last.first, last_id, last.second, *s.value());
    auto l = k.all[0]->ListTables("d");
    VF_EXPECT(l.ok() && l.value() == std::vector<std::string>{"t"}, "list tables", "%s", l.ok() ? Join(l.value()).c_str() : "failed");
    Def other = Good(r);
    Status st = Create(k.all[0].get(), Identifier("d", "t"), other, false);
    VF_EXPECT(!st.ok(), "table exists", "created over schema-%lld", (long long)last_id);
    auto fs = FileSystemFactory::Get("vfs", wh, {});
    VF_EXPECT(fs.ok(), "file system", "%s", fs.status().ToString().c_str());
    std::shared_ptr<FileSystem> fsp = std::move(fs).value();
    SchemaManager m(fsp, wh + "/d.db/t");
    auto ids = m.ListAllIds();
    VF_EXPECT(ids.ok(), "list schemas", "%s", ids.status().ToString().c_str());
    std::set<int64_t> have(ids.value().begin(), ids.value().end());
    std::set<int64_t> want;
    for (auto& [id, v] : versions) want.insert(id);
    VF_EXPECT(have == want && ids.value().size() == want.size(), "list schemas", "%zu ids instead of %zu", ids.value().size(), want.size());
    for (auto& [id, v] : versions) {
        auto one = m.ReadSchema(id);
        VF_EXPECT(one.ok() && one.value()->Id() == id && one.value()->FieldNames() == v.first.row.names, "read schema", "schema-%lld: %s", (long long)id, one.status().ToString().c_str());
    }
    for (int i = 0; i < 4; i++) {
        int64_t id = r.Range(0, 125);
        auto e = m.SchemaExists(id);
        VF_EXPECT(e.ok() && e.value() == (want.count(id) > 0), "schema exists", "schema-%lld", (long long)id);
    }
}

// ---------------------------------------------------------------- damaged schema files
void Collect(V* v, std::vector<V*>* out) {
    out->push_back(v);
    if (v->IsObject())
        for (auto& m : v->GetObject()) Collect(&m.value, out);
    if (v->IsArray())
        for (auto& m : v->GetArray()) Collect(&m, out);
}
VF_SCENARIO(damaged, 16000, 120000) {
    Dir dir_;
    auto& r = c.rng;
    Def d = Stored(Good(r));
    J doc;
    SchemaJson(d, 3, 0, &doc, r.Chance(0.5) ? &r : nullptr);
    if (r.Chance(0.3)) doc.AddMember("comment", "x", doc.GetAllocator());
    doc.AddMember("timeMillis", V(int64_t{1700000000000}), doc.GetAllocator());
    std::string text;
    bool structural = r.Chance(0.6);
    if (structural) {
        int n = static_cast<int>(r.Range(1, 3));
        for (int i = 0; i < n; i++) {
            std::vector<V*> all;
            Collect(&doc, &all);
            V* v = all[r.Below(all.size())];
            switch (r.Below(11)) {
                case 0: v->SetNull(); break;
                case 1: v->SetBool(true); break;
                case 2: v->SetInt64(static_cast<int64_t>(r.Edgy64())); break;
                case 3: v->SetDouble(1.5e300); break;
                case 4: v->SetString("", 0); break;
                case 5: v->SetArray(); break;
                case 6: v->SetObject(); break;
                case 7:
                    if (v->IsObject() && v->MemberCount() > 0) {
                        auto it = v->MemberBegin() + static_cast<long>(r.Below(v->MemberCount()));
                        v->RemoveMember(it);
                    }
                    break;
                case 8:
                    if (v->IsArray() && !v->Empty()) {
                        V copy((*v)[static_cast<rapidjson::SizeType>(r.Below(v->Size()))], doc.GetAllocator());
                        v->PushBack(copy, doc.GetAllocator());
                    }
                    break;
                case 9: {
                    V* w = all[r.Below(all.size())];
                    V copy(*w, doc.GetAllocator());
                    *v = copy;
                    break;
                }
                default: {
                    static const char* bad[] = {"INT NOT", "DECIMAL(", "DECIMAL(99, 2)", "DECIMAL(0, 0)", "DECIMAL(-1, 2)", "DECIMAL(5, 9)", "TIMESTAMP(4)", "TIMESTAMP(99999999999)",
                                                "VARCHAR(0)", "CHAR", "ARRAY<INT>", "ROW<", "MAP<INT, INT>", "NOT NULL", "INT NOT NULL NULL", "'", "`", "DECIMAL(1,2,3)", "INT)", ",", "TIME(3)", "ARRAY", "ROW", "MAP"};
                    v->SetString(rapidjson::StringRef(bad[r.Below(sizeof bad / sizeof *bad)]));
                }
            }
        }
        text = Text(doc);
    } else {
        text = Text(doc);
        int n = static_cast<int>(r.Range(1, 4));
        for (int i = 0; i < n && !text.empty(); i++) {
            size_t at = r.Below(text.size());
            switch (r.Below(5)) {
                case 0: text[at] = static_cast<char>(r.Below(256)); break;
                case 1: text.resize(at); break;
                case 2: text.erase(at, 1 + r.Below(5)); break;
                case 3: text.insert(at, r.Bytes(1 + r.Below(4))); break;
                default: text[at] = "{}[]\",:0-e\\"[r.Below(11)];
            }
        }
    }
    c.Saw(vf::HashStr(text));
    c.Op("read a damaged schema", structural);
    auto t = TableSchema::CreateFromJson(text);
    if (t.ok()) {  // whatever was understood is written and read back alike
        auto out = t.value()->ToJsonString();
        VF_EXPECT(out.ok(), "write schema", "%s", text.c_str());
        auto back = TableSchema::CreateFromJson(out.value());
        VF_EXPECT(back.ok() && *back.value() == *t.value(), "damaged schema twice", "%s\nread from %s", out.value().c_str(), text.c_str());
    }
    if (r.Chance(0.2)) {
        std::string wh = dir_.path + "/wh";
        MakeDirs(wh + "/d.db/t/schema");
        WriteText(wh + "/d.db/t/schema/schema-0", text);
        Cat k;
        k.wh = wh;
        k.Open();
        auto s = k.all[0]->LoadTableSchema(Identifier("d", "t"));
        VF_EXPECT(s.ok() == t.ok(), "load damaged", "%s", text.c_str());
        if (s.ok()) (void)s.value()->GetArrowSchema().ok();
    }
}

// ---------------------------------------------------------------- rivals
std::atomic<uint64_t> g_sched{0};
void Yield() {
    uint64_t x = vf::Mix(g_sched.fetch_add(1));
    if (x % 3 == 0) std::this_thread::yield();
    if (x % 7 == 0) std::this_thread::sleep_for(std::chrono::microseconds(x % 60));
}
VF_SCENARIO(rivals, 800, 8000) {
    Dir dir_;
    auto& r = c.rng;
    Cat k;
    k.wh = dir_.path + "/wh";
    MakeDirs(k.wh + "/d.db");
    int n = static_cast<int>(r.Range(2, 5));
    bool shared = r.Chance(0.5);
    for (int i = 0; i < (shared ? 1 : n); i++) k.Open();
    std::vector<Def> defs(n);
    std::vector<int> ignore(n);
    std::vector<std::string> tab(n);
    int ntab = static_cast<int>(r.Range(1, 2));
    for (int i = 0; i < n; i++) {
        defs[i] = Good(r);
        AddCol(&defs[i], "by" + std::to_string(i), LeafOf(L_I32));
        ignore[i] = r.Chance(0.3);
        tab[i] = "t" + std::to_string(r.Below(ntab));
    }
    g_sched = r.U64();
    fsguard::SetPause(&Yield);
    tab::SetFsHook([](const tab::FsEvent&) {
        Yield();
        return Status::OK();
    });
    std::vector<Status> out(n);
    std::atomic<int> go{0};
    std::vector<std::thread> th;
    std::mutex mu;
    std::string odd;
    for (int i = 0; i < n; i++)
        th.emplace_back([&, i] {
            go++;
            while (go < n) std::this_thread::yield();
            out[i] = Create(k.all[shared ? 0 : i].get(), Identifier("d", tab[i]), defs[i], ignore[i]);
            if (out[i].ok()) {  // whoever is told that the table is there can load it
                auto s = k.all[shared ? 0 : i]->LoadTableSchema(Identifier("d", tab[i]));
                if (!s.ok()) {
                    std::lock_guard<std::mutex> g(mu);
                    odd = s.status().ToString();
                }
            }
        });
    for (auto& t : th) t.join();
    tab::SetFsHook(nullptr);
    fsguard::SetPause(nullptr);
    VF_EXPECT(odd.empty(), "load after create", "a table reported as created could not be loaded: %s", odd.c_str());
    Cat fresh;
    fresh.wh = k.wh;
    fresh.Open();
    for (int t = 0; t < ntab; t++) {
        std::string name = "t" + std::to_string(t);
        int tries = 0, strict = 0, fine = 0;
        for (int i = 0; i < n; i++)
            if (tab[i] == name) tries++, strict += out[i].ok() && !ignore[i], fine += out[i].ok();
        if (!tries) continue;
        VF_EXPECT(fine >= 1, "rival creations", "none of %d creations of %s succeeded", tries, name.c_str());
        VF_EXPECT(strict <= 1, "rival creations", "%d creations of %s all claim to have made it", strict, name.c_str());
        auto s = fresh.all[0]->LoadTableSchema(Identifier("d", name));
        VF_EXPECT(s.ok(), "load after rivals", "%s", s.status().ToString().c_str());
        std::string by = s.value()->FieldNames().back();
        int w = atoi(by.c_str() + 2);
        VF_EXPECT(by.compare(0, 2, "by") == 0 && w < n && tab[w] == name, "load after rivals", "column %s", by.c_str());
        VF_EXPECT(out[w].ok(), "winner", "the creation whose definition is in place was told %s", out[w].ToString().c_str());
        for (int i = 0; i < n; i++)
            VF_EXPECT(tab[i] != name || ignore[i] || !out[i].ok() || i == w, "winner", "creation %d succeeded but the definition of %d is in place", i, w);
        SameLoaded(c, Stored(defs[w]), 0, std::nullopt, *s.value());
        SameFile(c, Stored(defs[w]), k.wh + "/d.db/" + name + "/schema/schema-0");
    }
    c.Op(Fmt("%d rivals", n), n > 2);
    c.Saw(vf::Mix(g_sched));
}

// ---------------------------------------------------------------- failing file systems
VF_SCENARIO(faults, 3000, 25000) {
    Dir dir_;
    auto& r = c.rng;
    Cat k;
    k.wh = dir_.path + "/wh";
    MakeDirs(k.wh);
    k.Open();
    Def d = Good(r);
    int at = static_cast<int>(r.Below(14));
    bool lasting = r.Chance(0.4), after = r.Chance(0.5);
    bool changes = r.Chance(0.5);  // only operations that change something fail
    if (changes) at = static_cast<int>(r.Below(6));
    std::atomic<int> seen{0}, total{0}, hit{0};
    tab::SetFsHook([&](const tab::FsEvent& e) {
        if (std::string(e.op) != "delete") VF_EXPECT(total++ < 3000, "creation does not end", "3000 file operations, the last %s %s", e.op, e.path.c_str());
        if (e.after != after) return Status::OK();
        std::string op = e.op;
        if (changes && op != "mkdirs" && op != "rename" && op != "create" && op != "write" && op != "close" && op != "flush") return Status::OK();
        int i = seen++;
        if (i == at || (lasting && i > at)) {
            hit++;
            return Status::IOError("injected");
        }
        return Status::OK();
    });
    struct Off {
        ~Off() { tab::SetFsHook(nullptr); }
    } off;
    Status a = k.all[0]->CreateDatabase("d", {}, false);
    Status b = Create(k.all[0].get(), Identifier("d", "t"), d, false);
    tab::SetFsHook(nullptr);
    c.Op(Fmt("create with a fault at %d%s%s", at, lasting ? " and after" : "", after ? ", once done" : ""), hit > 0);
    c.Saw(vf::Mix(static_cast<uint64_t>(at * 4 + lasting * 2 + after)) ^ vf::HashStr(Show(d)));
    Cat f;
    f.wh = k.wh;
    f.Open();
    auto dbs = f.all[0]->ListDatabases();
    VF_EXPECT(dbs.ok() && dbs.value().size() <= 1, "databases after a fault", "%s", dbs.status().ToString().c_str());
    if (a.ok()) VF_EXPECT(dbs.value().size() == 1, "database lost", "created but not listed");
    if (hit == 0) VF_EXPECT(a.ok() && b.ok(), "no fault", "%s, %s", a.ToString().c_str(), b.ToString().c_str());
    auto s = f.all[0]->LoadTableSchema(Identifier("d", "t"));
    if (b.ok()) VF_EXPECT(s.ok(), "table lost", "created but not found: %s", s.status().ToString().c_str());
    if (s.ok()) {
        SameLoaded(c, Stored(d), 0, std::nullopt, *s.value());
    } else {
        VF_EXPECT(s.status().IsNotExist(), "half a table", "%s", s.status().ToString().c_str());
    }
    bool there = s.ok();
    auto l = dbs.value().empty() ? Result<std::vector<std::string>>(std::vector<std::string>{}) : f.all[0]->ListTables("d");
    VF_EXPECT(l.ok() && l.value().size() == (there ? 1u : 0u), "tables after a fault", "%zu listed, %s", l.ok() ? l.value().size() : 0, there ? "one loads" : "none loads");
    // what failed can be asked for again
    Status a2 = f.all[0]->CreateDatabase("d", {}, true);
    VF_EXPECT(a2.ok(), "create again", "%s", a2.ToString().c_str());
    Def d2 = there ? d : Good(r);
    Status b2 = Create(f.all[0].get(), Identifier("d", "t"), d2, true);
    VF_EXPECT(b2.ok(), "create again", "%s", b2.ToString().c_str());
    auto s2 = f.all[0]->LoadTableSchema(Identifier("d", "t"));
    VF_EXPECT(s2.ok(), "load again", "%s", s2.status().ToString().c_str());
    SameLoaded(c, Stored(d2), 0, std::nullopt, *s2.value());
}
}  // namespace
