// File-index answers as sets of rows, and the bitmap index dictionary.
#include "vf.h"

#include <set>

#include "paimon/common/file_index/bitmap/bitmap_file_index_meta_v1.h"
#include "paimon/common/file_index/bitmap/bitmap_file_index_meta_v2.h"
#include "paimon/common/io/memory_segment_output_stream.h"
#include "paimon/common/memory/memory_segment_utils.h"
#include "paimon/defs.h"
#include "paimon/file_index/bitmap_index_result.h"
#include "paimon/file_index/file_index_reader.h"
#include "paimon/file_index/file_index_result.h"
#include "paimon/io/byte_array_input_stream.h"
#include "paimon/memory/bytes.h"
#include "paimon/memory/memory_pool.h"
#include "paimon/predicate/literal.h"
#include "paimon/utils/roaring_bitmap32.h"

using namespace paimon;
using vf::Case;
using vf::Fmt;

namespace {
const int kRows = 12;
const uint32_t kAll = (1u << kRows) - 1;
struct Node {
    std::shared_ptr<FileIndexResult> r;
    uint32_t lo, hi;  // rows with unavailable leaves taken as none / as all
    bool faulty;      // contains a leaf that cannot be read
    std::string text;
};
RoaringBitmap32 Rows(uint32_t m) {
    RoaringBitmap32 b;
    for (int i = 0; i < kRows; i++) if (m >> i & 1) b.Add(i);
    return b;
}
uint32_t Mask(const RoaringBitmap32& b) {
    uint32_t m = 0;
    for (int i = 0; i < kRows; i++) if (b.Contains(i)) m |= 1u << i;
    return b.Cardinality() == __builtin_popcount(m) ? m : ~0u;
}
// rows an answer stands for: all unless it carries a bitmap or says skip
Result<uint32_t> Meaning(const std::shared_ptr<FileIndexResult>& r) {
    if (auto b = std::dynamic_pointer_cast<BitmapIndexResult>(r)) {
        PAIMON_ASSIGN_OR_RAISE(const RoaringBitmap32* bm, b->GetBitmap());
        return Mask(*bm);
    }
    PAIMON_ASSIGN_OR_RAISE(bool remain, r->IsRemain());
    return remain ? kAll : 0;
}
Node Leaf(Case& c, int* evaluations) {
    switch (c.rng.Below(8)) {
        case 0: return {FileIndexResult::Remain(), kAll, kAll, false, "ALL"};
        case 1: return {FileIndexResult::Skip(), 0, 0, false, "NONE"};
        case 2:
            if (c.rng.Chance(0.25)) {
                return {std::make_shared<BitmapIndexResult>([]() -> Result<RoaringBitmap32> { return Status::IOError("unreadable"); }), 0, kAll, true, "ERR"};
            }
            [[fallthrough]];
        default: {
            uint32_t m = c.rng.Chance(0.15) ? 0 : c.rng.Chance(0.1) ? kAll : (uint32_t)c.rng.U64() & kAll;
            if (c.rng.Chance(0.3)) m &= (uint32_t)c.rng.U64();
            return {std::make_shared<BitmapIndexResult>([m, evaluations]() -> Result<RoaringBitmap32> { ++*evaluations; return Rows(m); }), m, m, false, Fmt("%03x", m)};
        }
    }
}
struct Answers : FileIndexReader {
    Case& c;
    explicit Answers(Case& cc) : c(cc) {}
};
// answers an equality with one bit, so that lists combine visibly
struct Keyed : FileIndexReader {
    std::map<int32_t, uint32_t> rows;
    bool drop = false;
    Result<std::shared_ptr<FileIndexResult>> VisitEqual(const Literal& l) override { return Answer(l, false); }
    Result<std::shared_ptr<FileIndexResult>> VisitNotEqual(const Literal& l) override { return Answer(l, true); }
    Result<std::shared_ptr<FileIndexResult>> Answer(const Literal& l, bool negate) {
        int32_t k = l.GetValue<int32_t>();
        if (k < 0) return FileIndexResult::Remain();
        auto it = rows.find(k);
        if (it == rows.end()) return negate ? FileIndexResult::Remain() : FileIndexResult::Skip();
        uint32_t m = negate ? kAll & ~it->second : it->second;
        return std::shared_ptr<FileIndexResult>(std::make_shared<BitmapIndexResult>([m]() -> Result<RoaringBitmap32> { return Rows(m); }));
    }
};
}  // namespace

VF_SCENARIO(trees, 60000, 1000000) {
    int evaluations = 0;
    std::vector<Node> nodes;
    int leaves = (int)c.rng.Range(2, c.thorough() ? 12 : 8);
    for (int i = 0; i < leaves; i++) nodes.push_back(Leaf(c, &evaluations));
    std::vector<Node> all = nodes;
    while (nodes.size() > 1) {
        size_t i = c.rng.Below(nodes.size());
        Node a = nodes[i];
        nodes.erase(nodes.begin() + i);
        // sometimes combine with a node used elsewhere as well
        Node b;
        if (c.rng.Chance(0.2)) b = c.rng.Pick(all);
        else { size_t j = c.rng.Below(nodes.size()); b = nodes[j]; nodes.erase(nodes.begin() + j); }
        bool conj = c.rng.Chance(0.5);
        auto r = conj ? a.r->And(b.r) : a.r->Or(b.r);
        Node n{nullptr, conj ? a.lo & b.lo : a.lo | b.lo, conj ? a.hi & b.hi : a.hi | b.hi, a.faulty || b.faulty, "(" + a.text + (conj ? "&" : "|") + b.text + ")"};
        c.Op(n.text.size() > 300 ? "..." : n.text, true);
        if (!r.ok()) {
            VF_EXPECT(n.faulty, "error", "combining gave %s", r.status().ToString().c_str());
            return;
        }
        VF_EXPECT(r.value() != nullptr, "null", "combining gave no answer");
        n.r = r.value();
        nodes.push_back(n);
        all.push_back(n);
        if (c.rng.Chance(0.3) || nodes.size() == 1) {
            auto m = Meaning(n.r);
            if (!m.ok()) {
                VF_EXPECT(n.faulty, "error", "%s gave %s", n.text.c_str(), m.status().ToString().c_str());
            } else {
                VF_EXPECT(m.value() == n.lo && m.value() == n.hi, "rows", "%s stands for rows %03x, expected %03x", n.text.c_str(), m.value(), n.lo);
                auto remain = n.r->IsRemain();
                VF_EXPECT(remain.ok() && remain.value() == (m.value() != 0), "decision", "%s keep decision is wrong", n.text.c_str());
                auto again = Meaning(n.r);
                VF_EXPECT(again.ok() && again.value() == m.value(), "unstable", "%s changed when read again", n.text.c_str());
            }
        }
    }
    // earlier answers keep their meaning after being combined
    for (auto& n : all) {
        auto m = Meaning(n.r);
        if (m.ok()) VF_EXPECT(m.value() == n.lo && m.value() == n.hi, "operand-changed", "%s became %03x, expected %03x", n.text.c_str(), m.value(), n.lo);
        else VF_EXPECT(n.faulty, "error", "%s gave %s", n.text.c_str(), m.status().ToString().c_str());
    }
    c.Saw(vf::HashStr(nodes[0].text));
}

VF_SCENARIO(lists, 20000, 300000) {
    Keyed k;
    int n = (int)c.rng.Range(1, 6);
    for (int i = 0; i < n; i++) k.rows[i] = (uint32_t)c.rng.U64() & kAll & (c.rng.Chance(0.5) ? (uint32_t)c.rng.U64() : ~0u);
    std::vector<Literal> lits;
    std::string text;
    uint32_t in = 0, notin = kAll;
    int m = (int)c.rng.Range(1, 6);
    for (int i = 0; i < m; i++) {
        int32_t key = (int32_t)c.rng.Range(c.rng.Chance(0.2) ? -1 : 0, n + 1);
        lits.push_back(Literal(key));
        text += std::to_string(key) + ",";
        if (key < 0) in = kAll;
        else if (k.rows.count(key)) { in |= k.rows[key]; notin &= ~k.rows[key]; }
    }
    c.Op("in " + text, true);
    auto a = k.VisitIn(lits);
    VF_EXPECT(a.ok() && a.value(), "in-error", "in-list failed");
    auto ma = Meaning(a.value());
    VF_EXPECT(ma.ok() && ma.value() == in, "in", "in(%s) stands for %03x, expected %03x", text.c_str(), ma.ok() ? ma.value() : ~0u, in);
    auto b = k.VisitNotIn(lits);
    VF_EXPECT(b.ok() && b.value(), "not-in-error", "not-in-list failed");
    auto mb = Meaning(b.value());
    VF_EXPECT(mb.ok() && mb.value() == notin, "not-in", "notin(%s) stands for %03x, expected %03x", text.c_str(), mb.ok() ? mb.value() : ~0u, notin);
    c.Saw(vf::HashStr(text) ^ in);
}

VF_SCENARIO(defaults, 200, 2000) {
    FileIndexReader* r;
    struct Plain : FileIndexReader {} plain;
    r = &plain;
    Literal l((int32_t)c.rng.Range(-5, 5));
    std::vector<Literal> ls(c.rng.Range(1, 4), l);
    std::vector<std::pair<const char*, Result<std::shared_ptr<FileIndexResult>>>> got;
    got.emplace_back("is null", r->VisitIsNull());
    got.emplace_back("is not null", r->VisitIsNotNull());
    got.emplace_back("=", r->VisitEqual(l));
    got.emplace_back("<>", r->VisitNotEqual(l));
    got.emplace_back("<", r->VisitLessThan(l));
    got.emplace_back("<=", r->VisitLessOrEqual(l));
    got.emplace_back(">", r->VisitGreaterThan(l));
    got.emplace_back(">=", r->VisitGreaterOrEqual(l));
    got.emplace_back("in", r->VisitIn(ls));
    got.emplace_back("not in", r->VisitNotIn(ls));
    got.emplace_back("starts", r->VisitStartsWith(l));
    got.emplace_back("ends", r->VisitEndsWith(l));
    got.emplace_back("contains", r->VisitContains(l));
    c.Op(Fmt("defaults %zu", ls.size()), true);
    for (auto& g : got) {
        VF_EXPECT(g.second.ok() && g.second.value(), "default-error", "default answer to '%s' is missing", g.first);
        auto m = Meaning(g.second.value());
        VF_EXPECT(m.ok() && m.value() == kAll, "default-skips", "an index without support for '%s' rules out rows", g.first);
    }
    c.Saw(ls.size());
}

VF_SCENARIO(dictionary, 16000, 300000) {
    std::shared_ptr<MemoryPool> pool = GetMemoryPool();
    FieldType t = c.rng.Of<FieldType>({FieldType::BOOLEAN, FieldType::TINYINT, FieldType::SMALLINT, FieldType::INT, FieldType::DATE, FieldType::BIGINT, FieldType::STRING});
    int mode = (int)c.rng.Below(3);
    auto lit = [&](int k) -> Literal {
        switch (t) {
            case FieldType::BOOLEAN: return Literal(k == 1);
            case FieldType::TINYINT: return Literal((int8_t)(mode ? k - 10 : 127 - k));
            case FieldType::SMALLINT: return Literal((int16_t)(mode ? k * 257 - 3000 : 32767 - k));
            case FieldType::INT: return Literal((int32_t)(mode ? k * 66051 - 3 : 2147483647 - k));
            case FieldType::DATE: return Literal(FieldType::DATE, (int32_t)(mode ? k - 10 : k * 1000));
            case FieldType::BIGINT: return Literal((int64_t)(mode ? k * 4294967297L - 5 : 9223372036854775807L - k));
            default: {
                std::string s = mode == 0 ? std::string(k, 'a') : mode == 1 ? "k" + std::to_string(k) : std::string(1, (char)(k * 11 + 1)) + std::string("\0x", 2);
                return Literal(FieldType::STRING, s.data(), s.size());
            }
        }
    };
    int universe = t == FieldType::BOOLEAN ? 2 : 22;
    std::vector<int> keys;
    for (int k = 0; k < universe; k++) if (c.rng.Chance(0.6)) keys.push_back(k);
    for (size_t i = keys.size(); i > 1; i--) std::swap(keys[i - 1], keys[c.rng.Below(i)]);
    // body: serialized bitmaps; single rows are stored in the offset itself
    std::map<int, std::set<int>> rows;
    std::set<int> null_rows;
    int n = (int)c.rng.Range(1, 5000);
    auto some = [&] { std::set<int> s; int k = c.rng.Chance(0.3) ? 1 : (int)c.rng.Range(1, 60); while (k-- > 0) s.insert((int)c.rng.Below(n)); return s; };
    bool has_null = c.rng.Chance(0.5);
    if (has_null) null_rows = some();
    std::string body;
    auto bits = [&](const std::set<int>& s) { RoaringBitmap32 b; for (int r : s) b.Add(r); auto by = b.Serialize(pool.get()); return std::string(by->data(), by->size()); };
    int32_t null_off = -1, null_len = -1;
    if (has_null) {
        if (null_rows.size() == 1) { null_off = -1 - *null_rows.begin(); }
        else { null_off = 0; body += bits(null_rows); null_len = (int32_t)body.size(); }
    }
    std::vector<BitmapFileIndexMeta::Entry> entries;
    std::string text;
    for (int k : keys) {
        rows[k] = some();
        text += Fmt("%d:%zu ", k, rows[k].size());
        if (rows[k].size() == 1) { entries.emplace_back(lit(k), -1 - *rows[k].begin(), -1); continue; }
        std::string b = bits(rows[k]);
        entries.emplace_back(lit(k), (int32_t)body.size(), (int32_t)b.size());
        body += b;
    }
    bool v2 = c.rng.Chance(0.5);
    auto out = std::make_shared<MemorySegmentOutputStream>((int32_t)c.rng.Of<int>({16, 256, 65536}), pool);
    out->WriteValue<int8_t>(v2 ? 2 : 1);
    Status s;
    if (v2) {
        std::map<std::string, std::string> opt;
        if (c.rng.Chance(0.6)) opt["index-block-size"] = std::to_string(c.rng.Range(48, 300));
        BitmapFileIndexMetaV2 m(t, n, has_null, {Literal(t), null_off, null_len}, std::move(entries), opt, pool);
        s = m.Serialize(out);
    } else {
        BitmapFileIndexMetaV1 m(t, n, has_null, {Literal(t), null_off, null_len}, std::move(entries), pool);
        s = m.Serialize(out);
    }
    VF_EXPECT(s.ok(), "meta-serialize", "%s", s.ToString().c_str());
    auto head = MemorySegmentUtils::CopyToBytes(out->Segments(), 0, (int32_t)out->CurrentSize(), pool.get());
    int start = (int)c.rng.Of<int>({0, 1, 37});
    std::string file = std::string(start, '#') + std::string(head->data(), head->size()) + body + std::string(c.rng.Below(3), '#');
    int total = (int)(head->size() + body.size());
    c.Op(Fmt("v%d type %d rows %d null %zu: %s", v2 ? 2 : 1, (int)t, n, null_rows.size(), text.c_str()), !keys.empty());
    auto in = std::make_shared<ByteArrayInputStream>(file.data(), file.size());
    VF_EXPECT(in->Seek(start + 1, SeekOrigin::FS_SEEK_SET).ok(), "seek", "seek failed");
    std::shared_ptr<BitmapFileIndexMeta> m;
    if (v2) m = std::make_shared<BitmapFileIndexMetaV2>(t, total, pool);
    else m = std::make_shared<BitmapFileIndexMetaV1>(t, start, total, pool);
    s = m->Deserialize(in);
    VF_EXPECT(s.ok(), "meta-refused", "own metadata is refused: %s", s.ToString().c_str());
    VF_EXPECT(m->GetRowCount() == n, "row-count", "row count %d became %d", n, m->GetRowCount());
    auto verify = [&](const Literal& l, const std::set<int>* want, const std::string& name) {
        auto e = m->FindEntry(l);
        VF_EXPECT(e.ok(), "find-error", "lookup of %s: %s", name.c_str(), e.status().ToString().c_str());
        VF_EXPECT((e.value() != nullptr) == (want != nullptr), "membership", "%s is %s", name.c_str(), want ? "missing" : "present without being written");
        if (!want) return;
        std::set<int> got;
        if (e.value()->offset < 0) {
            got.insert(-1 - e.value()->offset);
        } else {
            int64_t pos = m->GetBodyStart() + e.value()->offset;
            VF_EXPECT(pos >= 0 && e.value()->length > 0 && pos + e.value()->length <= (int64_t)file.size(), "extent", "%s lies at %lld+%d of %zu", name.c_str(), (long long)pos, e.value()->length, file.size());
            RoaringBitmap32 b;
            Status st = b.Deserialize(file.data() + pos, e.value()->length);
            VF_EXPECT(st.ok(), "bitmap", "the bitmap of %s does not decode", name.c_str());
            std::string back = bits(*want);
            VF_EXPECT(back == file.substr(pos, e.value()->length), "extent", "%s points to other bytes", name.c_str());
            for (auto it = b.Begin(); it != b.End(); ++it) got.insert(*it);
        }
        VF_EXPECT(got == *want, "rows", "%s maps to other rows", name.c_str());
    };
    // in any order, more than once
    for (int i = 0; i < universe + 6; i++) {
        int k = (int)c.rng.Below(universe);
        verify(lit(k), rows.count(k) ? &rows[k] : nullptr, "value " + std::to_string(k));
        if (c.rng.Chance(0.2)) verify(Literal(t), has_null ? &null_rows : nullptr, "null");
    }
    verify(Literal(t), has_null ? &null_rows : nullptr, "null");
    c.Saw(vf::HashStr(text) ^ (uint64_t)t);
}
