// Stored codes and names, enumerated over the whole stored range.
#include "vf.h"

#include "paimon/catalog/identifier.h"
#include "paimon/common/types/row_kind.h"
#include "paimon/core/manifest/file_kind.h"
#include "paimon/core/manifest/file_source.h"
#include "paimon/table/source/startup_mode.h"

using namespace paimon;
using vf::Case;
using vf::Fmt;

// one case per 8-bit code; 256 codes are covered by every run
VF_SCENARIO(codes, 512, 512) {
    int8_t v = (int8_t)(c.index() & 255);
    c.Op(Fmt("code %d", v), true);
    struct K { const RowKind* k; const char* s; const char* n; bool add; };
    K ks[] = {{RowKind::Insert(), "+I", "INSERT", true}, {RowKind::UpdateBefore(), "-U", "UPDATE_BEFORE", false},
              {RowKind::UpdateAfter(), "+U", "UPDATE_AFTER", true}, {RowKind::Delete(), "-D", "DELETE", false}};
    auto rk = RowKind::FromByteValue(v);
    if (v >= 0 && v <= 3) {
        VF_EXPECT(rk.ok() && rk.value() == ks[v].k, "row-kind", "code %d does not give its kind", v);
        const RowKind* k = rk.value();
        VF_EXPECT(k->ToByteValue() == v, "row-kind", "kind %s has code %d, expected %d", k->Name().c_str(), k->ToByteValue(), v);
        VF_EXPECT(k->ShortString() == ks[v].s && k->Name() == ks[v].n, "row-kind-name", "code %d is %s/%s", v, k->ShortString().c_str(), k->Name().c_str());
        VF_EXPECT(k->IsAdd() == ks[v].add && k->IsRetract() == !ks[v].add, "row-kind-direction", "code %d add %d retract %d", v, k->IsAdd(), k->IsRetract());
        auto back = RowKind::FromShortString(k->ShortString());
        VF_EXPECT(back.ok() && back.value() == k, "row-kind-name", "'%s' does not give its kind back", k->ShortString().c_str());
        for (auto& o : ks) VF_EXPECT((*o.k == *k) == (o.k == k), "row-kind-equal", "kinds %s and %s", o.n, k->Name().c_str());
    } else {
        VF_EXPECT(!rk.ok() && rk.status().IsInvalid(), "row-kind-unknown", "code %d was accepted: %s", v, rk.status().ToString().c_str());
    }
    auto fk = FileKind::FromByteValue(v);
    if (v == 0 || v == 1) {
        VF_EXPECT(fk.ok() && fk.value().ToByteValue() == v, "file-kind", "code %d", v);
        VF_EXPECT((fk.value() == FileKind::Add()) == (v == 0) && (fk.value() == FileKind::Delete()) == (v == 1), "file-kind", "code %d gives the wrong kind", v);
    } else {
        VF_EXPECT(!fk.ok() && fk.status().IsInvalid(), "file-kind-unknown", "code %d was accepted", v);
    }
    VF_EXPECT(FileKind::Add().ToByteValue() == 0 && FileKind::Delete().ToByteValue() == 1, "file-kind", "stored codes are %d and %d", FileKind::Add().ToByteValue(), FileKind::Delete().ToByteValue());
    auto fs = FileSource::FromByteValue(v);
    if (v == 0 || v == 1) {
        VF_EXPECT(fs.ok() && fs.value().ToByteValue() == v, "file-source", "code %d", v);
        VF_EXPECT((fs.value() == FileSource::Append()) == (v == 0) && (fs.value() == FileSource::Compact()) == (v == 1), "file-source", "code %d gives the wrong source", v);
        VF_EXPECT(fs.value().ToString() == (v ? "COMPACT" : "APPEND"), "file-source", "code %d renders as %s", v, fs.value().ToString().c_str());
        VF_EXPECT((fs.value() != FileSource::Append()) == (v != 0), "file-source", "code %d", v);
    } else {
        VF_EXPECT(!fs.ok() && fs.status().IsInvalid(), "file-source-unknown", "code %d was accepted", v);
    }
    VF_EXPECT(FileSource::Append().ToByteValue() == 0 && FileSource::Compact().ToByteValue() == 1, "file-source", "stored codes changed");
}

VF_SCENARIO(names, 120000, 600000) {
    static const std::vector<std::pair<std::string, StartupMode>> modes = {
        {"default", StartupMode::Default()}, {"latest-full", StartupMode::LatestFull()}, {"latest", StartupMode::Latest()},
        {"from-snapshot", StartupMode::FromSnapshot()}, {"from-snapshot-full", StartupMode::FromSnapshotFull()}};
    static const std::vector<std::string> shorts = {"+I", "-U", "+U", "-D"};
    std::string s = c.rng.Chance(0.5) ? c.rng.Pick(modes).first : c.rng.Chance(0.5) ? c.rng.Pick(shorts) : c.rng.Ascii(c.rng.Range(0, 4), "+-IUDiud ");
    if (c.rng.Chance(0.5) && !s.empty()) {  // a near miss
        size_t p = c.rng.Below(s.size());
        switch (c.rng.Below(6)) {
            case 0: s.erase(p, 1); break;
            case 1: s.insert(p, 1, (char)c.rng.Below(256)); break;
            case 2: s[p] ^= 32; break;
            case 3: s += " "; break;
            case 4: s = s.substr(0, p); break;
            default: s += s; break;
        }
    }
    c.Op(s, true);
    int hit = -1;
    for (size_t i = 0; i < modes.size(); i++) if (modes[i].first == s) hit = (int)i;
    auto m = StartupMode::FromString(s);
    VF_EXPECT(m.ok() == (hit >= 0), "startup-mode", "'%s' accepted=%d", s.c_str(), m.ok());
    if (hit >= 0) {
        VF_EXPECT(m.value().ToString() == s, "startup-mode", "'%s' became '%s'", s.c_str(), m.value().ToString().c_str());
        for (size_t i = 0; i < modes.size(); i++) VF_EXPECT((m.value() == modes[i].second) == ((int)i == hit), "startup-mode", "'%s' against '%s'", s.c_str(), modes[i].first.c_str());
    } else {
        VF_EXPECT(m.status().IsInvalid(), "startup-mode", "'%s': %s", s.c_str(), m.status().ToString().c_str());
    }
    int sh = -1;
    for (size_t i = 0; i < shorts.size(); i++) if (shorts[i] == s) sh = (int)i;
    auto k = RowKind::FromShortString(s);
    VF_EXPECT(k.ok() == (sh >= 0), "row-kind-name", "'%s' accepted=%d", s.c_str(), k.ok());
    if (sh >= 0) VF_EXPECT(k.value()->ToByteValue() == sh, "row-kind-name", "'%s' gives code %d", s.c_str(), k.value()->ToByteValue());
    else VF_EXPECT(k.status().IsInvalid(), "row-kind-name", "'%s': %s", s.c_str(), k.status().ToString().c_str());
}

VF_SCENARIO(identifiers, 80000, 400000) {
    auto word = [&] { return c.rng.Chance(0.1) ? std::string() : c.rng.Chance(0.1) ? c.rng.Bytes(c.rng.Range(1, 30)) : c.rng.Ascii(c.rng.Range(1, 3), "ab.'"); };
    std::string d1 = word(), t1 = word(), d2 = c.rng.Chance(0.5) ? d1 : word(), t2 = c.rng.Chance(0.5) ? t1 : word();
    if (c.rng.Chance(0.2)) { d2 = t1; t2 = d1; }
    c.Op(d1 + "|" + t1 + "|" + d2 + "|" + t2, true);
    Identifier a(d1, t1), b(d2, t2);
    VF_EXPECT(a.GetDatabaseName() == d1 && a.GetTableName() == t1, "identifier", "('%s','%s') became ('%s','%s')", d1.c_str(), t1.c_str(), a.GetDatabaseName().c_str(), a.GetTableName().c_str());
    bool same = d1 == d2 && t1 == t2;
    VF_EXPECT((a == b) == same && (b == a) == same, "identifier-equal", "('%s','%s') == ('%s','%s') gives %d/%d", d1.c_str(), t1.c_str(), d2.c_str(), t2.c_str(), a == b, b == a);
    VF_EXPECT(a == a, "identifier-equal", "an identifier differs from itself");
    Identifier copy(a);
    VF_EXPECT(copy == a && copy.ToString() == a.ToString(), "identifier-equal", "a copy differs");
    VF_EXPECT(a.ToString() == "Identifier{database='" + d1 + "', table='" + t1 + "'}", "identifier-text", "%s", a.ToString().c_str());
}
