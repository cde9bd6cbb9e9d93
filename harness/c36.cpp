// Binary rows and arrays against an independent encoder, the other row representations against
// the same values, key comparison against typed comparison, bucket ids against the row hash.
#include <deque>

#include "arrow/api.h"
#include "arrow/c/bridge.h"
#include "paimon/common/data/binary_array.h"
#include "paimon/common/data/binary_array_writer.h"
#include "paimon/common/data/binary_row.h"
#include "paimon/common/data/binary_row_writer.h"
#include "paimon/common/data/columnar/columnar_array.h"
#include "paimon/common/data/columnar/columnar_row.h"
#include "paimon/common/data/generic_row.h"
#include "paimon/common/data/internal_map.h"
#include "paimon/common/memory/memory_segment.h"
#include "paimon/common/reader/data_evolution_row.h"
#include "paimon/common/types/data_field.h"
#include "paimon/common/types/row_kind.h"
#include "paimon/common/utils/internal_row_utils.h"
#include "paimon/common/utils/projected_array.h"
#include "paimon/common/utils/projected_row.h"
#include "paimon/core/utils/fields_comparator.h"
#include "paimon/core/utils/offset_row.h"
#include "paimon/memory/bytes.h"
#include "paimon/memory/memory_pool.h"
#include "paimon/utils/bucket_id_calculator.h"
#include "pred.h"
#include "tab.h"
#include "vf.h"

using namespace paimon;
using namespace pred;
using vf::Case;
using vf::Fmt;

namespace {
enum Shape { LEAF, ROW, ARR };
struct Ty {
    Shape shape = LEAF;
    Col col{"", BOOL};
    std::vector<Ty> kids;
};
struct Va {
    bool null = false;
    std::string text;
    std::vector<Va> kids;
};
int Precision(const Col& t) { return t.p * 3; }
bool Wide(const Col& t) { return (t.kind == DEC && t.p > 18) || (t.kind == TS && Precision(t) > 3); }

Ty RandomTy(vf::Rng& r, int depth) {
    Ty t;
    if (depth > 0 && r.Chance(0.22)) {
        t.shape = r.Chance(0.5) ? ROW : ARR;
        int n = t.shape == ARR ? 1 : r.Range(1, 5);
        for (int i = 0; i < n; i++) t.kids.push_back(RandomTy(r, depth - 1));
        return t;
    }
    t.col = RandomCol(r, "x");
    return t;
}
std::string RandomText(vf::Rng& r, const Col& t) {
    if ((t.kind == STR || t.kind == BIN) && r.Chance(0.7)) {
        int n = r.Chance(0.1) ? r.Range(40, 300) : r.Range(0, 24);
        return t.kind == BIN ? r.Bytes(n) : r.Ascii(n, "abcxyz0 _");
    }
    if (t.kind == TS && r.Chance(0.5)) {
        static const int64_t span[] = {9000000000ll, 9000000000000ll, 9000000000000000ll, 9000000000000000000ll};
        return std::to_string(r.Range(-span[t.p], span[t.p]));
    }
    if (t.kind == DEC && r.Chance(0.5)) {
        __int128 top = 1;
        for (int i = 0; i < t.p; i++) top *= 10;
        __int128 v = (((__int128)r.U64() << 64) | r.U64()) % top;
        return Col::BigText(v);
    }
    if ((t.kind == I8 || t.kind == I16 || t.kind == I32 || t.kind == I64) && r.Chance(0.5)) {
        int64_t v = (int64_t)r.Edgy64();
        return std::to_string(t.kind == I8 ? (int8_t)v : t.kind == I16 ? (int16_t)v : t.kind == I32 ? (int32_t)v : v);
    }
    return t.Value(r, r.Range(-1000, 1000));
}
Va RandomVa(vf::Rng& r, const Ty& t, double nulls) {
    Va v;
    if (r.Chance(nulls)) {
        v.null = true;
        return v;
    }
    if (t.shape == LEAF) v.text = RandomText(r, t.col);
    else if (t.shape == ROW) for (auto& k : t.kids) v.kids.push_back(RandomVa(r, k, nulls));
    else {
        int n = r.Chance(0.1) ? r.Range(31, 70) : r.Range(0, 6);
        for (int i = 0; i < n; i++) v.kids.push_back(RandomVa(r, t.kids[0], nulls));
    }
    return v;
}
bool SameVa(const Va& a, const Va& b) {
    if (a.null != b.null || a.text != b.text || a.kids.size() != b.kids.size()) return false;
    for (size_t i = 0; i < a.kids.size(); i++) if (!SameVa(a.kids[i], b.kids[i])) return false;
    return true;
}

// ---- the harness's own encoder -------------------------------------------------------------
void PutLe(std::string* s, size_t at, uint64_t v, int n) {
    for (int i = 0; i < n; i++) (*s)[at + i] = (char)(v >> (8 * i));
}
std::string EncodeArr(const Ty& t, const std::vector<Va>& vs);
std::string EncodeRow(const std::vector<Ty>& ts, const std::vector<Va>& vs, int kind = 0);
int FixedBytes(const Ty& t, std::string* out, const Va& v) {  // plain fixed-width value, or 0
    if (t.shape != LEAF) return 0;
    auto put = [&](const void* p, int n) {
        if (out) out->assign((const char*)p, n);
        return n;
    };
    const std::string& x = v.text;
    switch (t.col.kind) {
        case BOOL: { char b = x == "true"; return put(&b, 1); }
        case I8: { int8_t b = x.empty() ? 0 : (int8_t)std::stol(x); return put(&b, 1); }
        case I16: { int16_t b = x.empty() ? 0 : (int16_t)std::stol(x); return put(&b, 2); }
        case I32:
        case DATE: { int32_t b = x.empty() ? 0 : (int32_t)std::stol(x); return put(&b, 4); }
        case I64: { int64_t b = x.empty() ? 0 : std::stoll(x); return put(&b, 8); }
        case F32: { float b = x.empty() ? 0 : std::stof(x); return put(&b, 4); }
        case F64: { double b = x.empty() ? 0 : std::stod(x); return put(&b, 8); }
        case DEC: { if (t.col.p > 18) return 0; int64_t b = x.empty() ? 0 : (int64_t)Col::Big(x); return put(&b, 8); }
        case TS: { if (Precision(t.col) > 3) return 0; int64_t b = x.empty() ? 0 : Col::Stamp(std::stoll(x), t.col.p).GetMillisecond(); return put(&b, 8); }
        default: return 0;
    }
}
void EncodeSlot(std::string* s, size_t slot, const Ty& t, const Va& v) {
    std::string fixed;
    if (FixedBytes(t, &fixed, v)) {
        if (!v.null) s->replace(slot, fixed.size(), fixed);
        return;
    }
    auto var = [&](const std::string& bytes) {
        PutLe(s, slot, (uint64_t)s->size() << 32 | bytes.size(), 8);
        *s += bytes;
        s->resize((s->size() + 7) / 8 * 8, 0);
    };
    if (t.shape == LEAF && t.col.kind == DEC) {
        PutLe(s, slot, (uint64_t)s->size() << 32, 8);
        size_t at = s->size();
        s->resize(at + 16, 0);
        if (v.null) return;
        __int128 x = Col::Big(v.text);
        std::string big;  // shortest two's complement, most significant byte first
        for (int i = 15; i >= 0; i--) big += (char)(x >> (8 * i));
        while (big.size() > 1 && ((big[0] == 0 && !(big[1] & 0x80)) || (big[0] == (char)0xff && (big[1] & 0x80)))) big.erase(0, 1);
        s->replace(at, big.size(), big);
        PutLe(s, slot, (uint64_t)at << 32 | big.size(), 8);
        return;
    }
    if (t.shape == LEAF && t.col.kind == TS) {
        size_t at = s->size();
        s->resize(at + 8, 0);
        Timestamp x = v.null ? Timestamp(0, 0) : Col::Stamp(std::stoll(v.text), t.col.p);
        PutLe(s, at, (uint64_t)x.GetMillisecond(), 8);
        PutLe(s, slot, (uint64_t)at << 32 | (uint32_t)x.GetNanoOfMillisecond(), 8);
        return;
    }
    if (v.null) return;
    if (t.shape == ROW) return var(EncodeRow(t.kids, v.kids));
    if (t.shape == ARR) return var(EncodeArr(t.kids[0], v.kids));
    if (v.text.size() <= 7) {
        s->replace(slot, v.text.size(), v.text);
        (*s)[slot + 7] = (char)(0x80 | v.text.size());
        return;
    }
    var(v.text);
}
std::string EncodeRow(const std::vector<Ty>& ts, const std::vector<Va>& vs, int kind) {
    size_t bits = (ts.size() + 8 + 63) / 64 * 8;
    std::string s(bits + 8 * ts.size(), 0);
    s[0] = (char)kind;
    for (size_t i = 0; i < ts.size(); i++) {
        if (vs[i].null) s[(i + 8) / 8] |= (char)(1 << (i + 8) % 8);
        EncodeSlot(&s, bits + 8 * i, ts[i], vs[i]);
    }
    return s;
}
std::string EncodeArr(const Ty& t, const std::vector<Va>& vs) {
    size_t header = 4 + (vs.size() + 31) / 32 * 4;
    int w = FixedBytes(t, nullptr, Va());
    if (!w) w = 8;
    std::string s((header + w * vs.size() + 7) / 8 * 8, 0);
    PutLe(&s, 0, vs.size(), 4);
    for (size_t i = 0; i < vs.size(); i++) {
        if (vs[i].null) s[4 + i / 8] |= (char)(1 << i % 8);
        EncodeSlot(&s, header + w * i, t, vs[i]);
    }
    return s;
}
uint32_t Rot(uint32_t x, int r) { return (x << r) | (x >> (32 - r)); }
int32_t Murmur(const std::string& s) {
    uint32_t h = 42;
    for (size_t i = 0; i + 4 <= s.size(); i += 4) {
        uint32_t k;
        memcpy(&k, &s[i], 4);
        k = Rot(k * 0xcc9e2d51u, 15) * 0x1b873593u;
        h = Rot(h ^ k, 13) * 5 + 0xe6546b64u;
    }
    h ^= (uint32_t)s.size();
    h = (h ^ (h >> 16)) * 0x85ebca6bu;
    h = (h ^ (h >> 13)) * 0xc2b2ae35u;
    return (int32_t)(h ^ (h >> 16));
}

// ---- writing and reading through the library -----------------------------------------------
struct Lab {
    Case& c;
    vf::Rng& r;
    std::shared_ptr<MemoryPool> pool = GetMemoryPool();
    std::deque<std::string> keep;  // backs string views

    explicit Lab(Case& cc) : c(cc), r(cc.rng) {}

    MemorySegment Seg(const std::string& s) {
        auto b = Bytes::AllocateBytes(s.size(), pool.get());
        memcpy(b->data(), s.data(), s.size());
        return MemorySegment::Wrap(std::move(b));
    }
    // The bytes at some place of a chain of segments.
    std::pair<std::vector<MemorySegment>, int> Chain(const std::string& s, bool one) {
        int off = r.Chance(0.4) ? 0 : r.Range(1, 40);
        std::string flat = r.Bytes(off) + s;
        std::vector<MemorySegment> out;
        if (one) {
            out.push_back(Seg(flat + r.Bytes(r.Below(20))));
        } else {
            size_t size = r.Of<int>({8, 9, 11, 16, 24, 32, 64, 100});
            flat += r.Bytes(flat.empty() ? size : (size - flat.size() % size) % size);
            for (size_t p = 0; p < flat.size(); p += size) out.push_back(Seg(flat.substr(p, size)));
        }
        return {out, off};
    }
    BinaryString Str(const std::string& s) {
        if (r.Chance(0.7)) return BinaryString::FromString(s, pool.get());
        auto [segs, off] = Chain(s, r.Chance(0.4));
        return BinaryString::FromAddress(segs, off, s.size());
    }
    template <typename W>
    void Put(W* w, int i, const Ty& t, const Va& v) {
        if (t.shape == ROW) return w->WriteRow(i, MakeRow(t.kids, v.kids));
        if (t.shape == ARR) return w->WriteArray(i, MakeArr(t.kids[0], v.kids));
        const std::string& x = v.text;
        switch (t.col.kind) {
            case BOOL: return w->WriteBoolean(i, x == "true");
            case I8: return w->WriteByte(i, (int8_t)std::stol(x));
            case I16: return w->WriteShort(i, (int16_t)std::stol(x));
            case I32:
            case DATE: return w->WriteInt(i, (int32_t)std::stol(x));
            case I64: return w->WriteLong(i, std::stoll(x));
            case F32: return w->WriteFloat(i, std::stof(x));
            case F64: return w->WriteDouble(i, std::stod(x));
            case STR: return r.Chance(0.5) ? w->WriteString(i, Str(x)) : w->WriteStringView(i, x);
            case BIN: return r.Chance(0.5) ? w->WriteBinary(i, Bytes(x, pool.get())) : w->WriteStringView(i, x);
            case DEC: return w->WriteDecimal(i, Decimal(t.col.p, t.col.s, Col::Big(x)), t.col.p);
            default: return w->WriteTimestamp(i, Col::Stamp(std::stoll(x), t.col.p), Precision(t.col));
        }
    }
    template <typename W>
    bool PutWideNull(W* w, int i, const Ty& t) {
        if (t.shape != LEAF || !Wide(t.col)) return false;
        if (t.col.kind == DEC) w->WriteDecimal(i, std::nullopt, t.col.p);
        else w->WriteTimestamp(i, std::nullopt, Precision(t.col));
        return true;
    }
    VariantType Variant(const Col& t, const Va& v, bool view) {
        if (v.null) return NullType();
        const std::string& x = v.text;
        switch (t.kind) {
            case BOOL: return x == "true";
            case I8: return (char)std::stol(x);
            case I16: return (int16_t)std::stol(x);
            case I32:
            case DATE: return (int32_t)std::stol(x);
            case I64: return (int64_t)std::stoll(x);
            case F32: return std::stof(x);
            case F64: return std::stod(x);
            case STR:
                if (view) { keep.push_back(x); return std::string_view(keep.back()); }
                return BinaryString::FromString(x, pool.get());
            case BIN:
                if (view) { keep.push_back(x); return std::string_view(keep.back()); }
                return std::shared_ptr<Bytes>(std::make_shared<Bytes>(x, pool.get()));
            case DEC: return Decimal(t.p, t.s, Col::Big(x));
            default: return Col::Stamp(std::stoll(x), t.p);
        }
    }
    void Fill(BinaryRowWriter* w, const std::vector<Ty>& ts, const std::vector<Va>& vs, bool by_setter) {
        for (size_t i = 0; i < ts.size(); i++) {
            if (by_setter && ts[i].shape == LEAF) {
                auto set = BinaryRowWriter::CreateFieldSetter(i, ts[i].col.Type());
                VF_EXPECT(set.ok(), "setter", "no setter for %s", ts[i].col.Type()->ToString().c_str());
                set.value()(Variant(ts[i].col, vs[i], r.Chance(0.5)), w);
            } else if (vs[i].null) {
                if (!PutWideNull(w, i, ts[i])) w->SetNullAt(i);
            } else {
                Put(w, i, ts[i], vs[i]);
            }
        }
        w->Complete();
    }
    BinaryRow MakeRow(const std::vector<Ty>& ts, const std::vector<Va>& vs) {
        BinaryRow row(ts.size());
        BinaryRowWriter w(&row, r.Of<int>({0, 1, 8, 13, 64, 1024}), pool.get());
        if (r.Chance(0.4)) {  // another row of the same types first
            std::vector<Va> other;
            for (auto& t : ts) other.push_back(RandomVa(r, t, 0.3));
            w.Reset();
            Fill(&w, ts, other, r.Chance(0.5));
            // a slot keeps its upper bytes only if a narrower value follows, so types stay the same
        }
        w.Reset();
        Fill(&w, ts, vs, r.Chance(0.5));
        return row;
    }
    BinaryArray MakeArr(const Ty& t, const std::vector<Va>& vs) {
        int width = FixedBytes(t, nullptr, Va());
        if (!width) width = 8;
        BinaryArray a;
        BinaryArrayWriter w(&a, vs.size(), width, pool.get());
        VF_EXPECT(w.GetNumElements() == (int)vs.size(), "array-size", "%d elements of %zu", w.GetNumElements(), vs.size());
        auto fill = [&](const std::vector<Va>& xs) {
            for (size_t i = 0; i < xs.size(); i++) {
                if (!xs[i].null) Put(&w, i, t, xs[i]);
                else if (PutWideNull(&w, i, t)) continue;
                else if (width == 1) w.template SetNullValue<int8_t>(i);
                else if (width == 2) w.template SetNullValue<int16_t>(i);
                else if (width == 4) w.template SetNullValue<int32_t>(i);
                else w.SetNullAt(i);
            }
            w.Complete();
        };
        if (r.Chance(0.3)) {
            std::vector<Va> other;
            for (size_t i = 0; i < vs.size(); i++) other.push_back(RandomVa(r, t, 0.3));
            fill(other);
            w.Reset();
        }
        fill(vs);
        return a;
    }
    template <typename G>
    void Look(const G& g, int i, const Ty& t, const Va& v, const std::string& where, int view = 0) {
        VF_EXPECT(g.IsNullAt(i) == v.null, "null", "%s[%d]: null is %d", where.c_str(), i, (int)g.IsNullAt(i));
        if (v.null) return;
        std::string at = where + Fmt("[%d]", i);
        if (t.shape == ROW) {
            auto row = g.GetRow(i, t.kids.size());
            VF_EXPECT(row && row->GetFieldCount() == (int)t.kids.size(), "nested-row", "%s", at.c_str());
            for (size_t k = 0; k < t.kids.size(); k++) Look(*row, k, t.kids[k], v.kids[k], at, view);
            return;
        }
        if (t.shape == ARR) {
            auto arr = g.GetArray(i);
            VF_EXPECT(arr != nullptr, "nested-array", "%s", at.c_str());
            LookArr(*arr, t.kids[0], v.kids, at, view);
            return;
        }
        const std::string& x = v.text;
        bool ok = true;
        std::string got;
        switch (t.col.kind) {
            case BOOL: ok = g.GetBoolean(i) == (x == "true"); break;
            case I8: ok = (int8_t)g.GetByte(i) == std::stol(x); got = std::to_string((int)g.GetByte(i)); break;
            case I16: ok = g.GetShort(i) == std::stol(x); got = std::to_string(g.GetShort(i)); break;
            case I32: ok = g.GetInt(i) == std::stol(x); got = std::to_string(g.GetInt(i)); break;
            case DATE: ok = g.GetDate(i) == std::stol(x); got = std::to_string(g.GetDate(i)); break;
            case I64: ok = g.GetLong(i) == std::stoll(x); got = std::to_string(g.GetLong(i)); break;
            case F32: ok = g.GetFloat(i) == std::stof(x); got = std::to_string(g.GetFloat(i)); break;
            case F64: ok = g.GetDouble(i) == std::stod(x); got = std::to_string(g.GetDouble(i)); break;
            case STR:
                got = view < 2 ? g.GetString(i).ToString() : x;
                if (view && got == x) got = std::string(g.GetStringView(i));
                ok = got == x;
                break;
            case BIN: {
                auto b = view < 2 ? g.GetBinary(i) : nullptr;
                got = b ? std::string(b->data(), b->size()) : x;
                if (view && got == x) got = std::string(g.GetStringView(i));
                ok = got == x;
                break;
            }
            case DEC: {
                Decimal d = g.GetDecimal(i, t.col.p, t.col.s);
                ok = d.Value() == Col::Big(x) && d.Precision() == t.col.p && d.Scale() == t.col.s;
                got = Col::BigText(d.Value());
                break;
            }
            default: {
                Timestamp s = g.GetTimestamp(i, Precision(t.col)), w = Col::Stamp(std::stoll(x), t.col.p);
                ok = s.GetMillisecond() == w.GetMillisecond() && s.GetNanoOfMillisecond() == w.GetNanoOfMillisecond();
                got = Fmt("%ld+%d", (long)s.GetMillisecond(), s.GetNanoOfMillisecond());
            }
        }
        VF_EXPECT(ok, "value", "%s %s: %s instead of %s", at.c_str(), t.col.Type()->ToString().c_str(), vf::Hex(got, 40).c_str(), vf::Hex(x, 40).c_str());
    }
    template <typename T, typename F>
    void Bulk(Result<std::vector<T>> r, bool nulls, const std::vector<Va>& vs, F&& want, const std::string& at) {
        if (nulls) {
            VF_EXPECT(!r.ok(), "bulk-null", "%s: bulk read of an array with nulls was accepted", at.c_str());
            return;
        }
        VF_EXPECT(r.ok() && r.value().size() == vs.size(), "bulk", "%s: bulk read gave %s", at.c_str(), r.ok() ? "another length" : r.status().ToString().c_str());
        for (size_t i = 0; i < vs.size(); i++) VF_EXPECT(r.value()[i] == want(vs[i].text), "bulk", "%s[%zu] of the bulk read", at.c_str(), i);
    }
    void LookArr(const InternalArray& a, const Ty& t, const std::vector<Va>& vs, const std::string& at, int view = 0) {
        VF_EXPECT(a.Size() == (int)vs.size(), "array-size", "%s: %d elements of %zu", at.c_str(), a.Size(), vs.size());
        bool nulls = false;
        for (size_t i = 0; i < vs.size(); i++) {
            Look(a, i, t, vs[i], at, view);
            nulls |= vs[i].null;
        }
        if (t.shape != LEAF) return;
        switch (t.col.kind) {
            case BOOL: return Bulk(a.ToBooleanArray(), nulls, vs, [](auto& x) { return (char)(x == "true"); }, at);
            case I8: return Bulk(a.ToByteArray(), nulls, vs, [](auto& x) { return (char)std::stol(x); }, at);
            case I16: return Bulk(a.ToShortArray(), nulls, vs, [](auto& x) { return (int16_t)std::stol(x); }, at);
            case I32: return Bulk(a.ToIntArray(), nulls, vs, [](auto& x) { return (int32_t)std::stol(x); }, at);
            case I64: return Bulk(a.ToLongArray(), nulls, vs, [](auto& x) { return (int64_t)std::stoll(x); }, at);
            case F32: return Bulk(a.ToFloatArray(), nulls, vs, [](auto& x) { return std::stof(x); }, at);
            case F64: return Bulk(a.ToDoubleArray(), nulls, vs, [](auto& x) { return std::stod(x); }, at);
            default: return;
        }
    }
    template <typename S>
    std::string Flat(const S& s) {
        std::string all;
        for (auto& g : s.GetSegments()) all.append(g.GetArray()->data(), g.Size());
        return all.substr(s.GetOffset(), s.GetSizeInBytes());
    }
    void LookRow(const BinaryRow& row, const std::vector<Ty>& ts, const std::vector<Va>& vs, const std::string& at) {
        VF_EXPECT(row.GetFieldCount() == (int)ts.size(), "arity", "%s: %d fields", at.c_str(), row.GetFieldCount());
        bool any = false;
        std::vector<int32_t> some;
        bool any_some = false;
        for (size_t i = 0; i < ts.size(); i++) {
            Look(row, i, ts[i], vs[i], at);
            any |= vs[i].null;
            if (r.Chance(0.5)) some.push_back(i), any_some |= vs[i].null;
        }
        VF_EXPECT(row.AnyNull() == any, "any-null", "%s: AnyNull is %d", at.c_str(), (int)row.AnyNull());
        VF_EXPECT(row.AnyNull(some) == any_some, "any-null", "%s: AnyNull of some fields is %d", at.c_str(), (int)row.AnyNull(some));
    }
    std::string Types(const std::vector<Ty>& ts) {
        std::string s;
        for (auto& t : ts) s += (s.empty() ? "" : ",") + (t.shape == LEAF ? t.col.Type()->ToString() : t.shape == ROW ? "row<" + Types(t.kids) + ">" : "array<" + Types(t.kids) + ">");
        return s;
    }
    std::vector<Ty> Schema(int max, int depth) {
        std::vector<Ty> ts;
        int n = r.Chance(0.08) ? r.Of<int>({0, 55, 56, 57, 64, 70, 119, 120, 121}) : r.Range(1, max);
        for (int i = 0; i < n; i++) ts.push_back(RandomTy(r, depth));
        return ts;
    }
    std::vector<Va> Values(const std::vector<Ty>& ts) {
        double nulls = r.Of<double>({0, 0.02, 0.3, 0.9});
        std::vector<Va> vs;
        for (auto& t : ts) vs.push_back(RandomVa(r, t, nulls));
        return vs;
    }
    const RowKind* Kind(int k) { return RowKind::FromByteValue((int8_t)k).value(); }
};
}  // namespace

VF_SCENARIO(rows, 36000, 300000) {
    Lab lab(c);
    auto ts = lab.Schema(10, 2);
    auto vs = lab.Values(ts);
    c.Op(lab.Types(ts), !ts.empty());
    BinaryRow row = lab.MakeRow(ts, vs);
    int kind = 0;
    if (c.rng.Chance(0.3)) {
        kind = c.rng.Below(4);
        row.SetRowKind(lab.Kind(kind));
    }
    auto rk = row.GetRowKind();
    VF_EXPECT(rk.ok() && rk.value() == lab.Kind(kind), "row-kind", "row kind %d was lost", kind);
    std::string want = EncodeRow(ts, vs, kind), got = lab.Flat(row);
    c.Saw(vf::HashStr(want));
    lab.LookRow(row, ts, vs, "row");
    VF_EXPECT(got == want, "layout", "row of %s is %zu bytes %s, by the format %zu bytes %s", lab.Types(ts).substr(0, 200).c_str(), got.size(), vf::Hex(got, 120).c_str(), want.size(), vf::Hex(want, 120).c_str());
    VF_EXPECT(row.HashCode() == Murmur(want), "hash", "hash %d instead of %d", row.HashCode(), Murmur(want));

    BinaryRow twin = lab.MakeRow(ts, vs);
    twin.SetRowKind(lab.Kind(kind));
    VF_EXPECT(twin == row && row == twin && twin.HashCode() == row.HashCode(), "equal", "two rows of the same values differ");
    BinaryRow copy = row.Copy(lab.pool.get());
    std::pair<BinaryRow, int32_t> p1(row, 3), p2(twin, 3);
    VF_EXPECT(std::hash<BinaryRow>()(row) == std::hash<BinaryRow>()(twin) && (std::hash<std::pair<BinaryRow, int32_t>>()(p1) == std::hash<std::pair<BinaryRow, int32_t>>()(p2)), "hash", "hashes of equal rows differ");

    // the same bytes elsewhere, and over several segments
    auto [segs, off] = lab.Chain(want, c.rng.Chance(0.3));
    BinaryRow there(ts.size());
    there.PointTo(segs, off, want.size());
    lab.LookRow(there, ts, vs, "moved");
    VF_EXPECT(there == row && row == there, "equal", "a row differs from its bytes over %zu segments", segs.size());
    VF_EXPECT(there.HashCode() == Murmur(want), "hash", "hash over %zu segments", segs.size());
    auto mk = there.GetRowKind();
    VF_EXPECT(mk.ok() && mk.value() == lab.Kind(kind), "row-kind", "row kind of moved bytes");
    BinaryRow there_copy(ts.size());
    if (c.rng.Chance(0.5)) there_copy = there.Copy(lab.pool.get());
    else there.Copy(&there_copy, lab.pool.get());
    VF_EXPECT(lab.Flat(there_copy) == want && there_copy == row, "copy", "copy of a row over %zu segments", segs.size());

    // one field changed
    if (!ts.empty()) {
        auto other = vs;
        int k = c.rng.Below(ts.size());
        other[k] = RandomVa(c.rng, ts[k], 0.2);
        if (EncodeRow(ts, other, kind) != want) {
            BinaryRow diff = lab.MakeRow(ts, other);
            diff.SetRowKind(lab.Kind(kind));
            VF_EXPECT(!(diff == row) && !(diff == there), "equal", "rows that differ in field %d are equal", k);
        }
    }
    // fixed-width fields set in place; the copy stays
    BinaryRow& target = c.rng.Chance(0.5) ? row : there;
    for (int n = c.rng.Below(4); n > 0 && !ts.empty(); n--) {
        int k = c.rng.Below(ts.size());
        if (ts[k].shape != LEAF || !FixedBytes(ts[k], nullptr, Va()) || ts[k].col.kind == DEC || ts[k].col.kind == TS) continue;
        vs[k] = RandomVa(c.rng, ts[k], 0.3);
        const std::string& x = vs[k].text;
        if (vs[k].null) target.SetNullAt(k);
        else switch (ts[k].col.kind) {
            case BOOL: target.SetBoolean(k, x == "true"); break;
            case I8: target.SetByte(k, (char)std::stol(x)); break;
            case I16: target.SetShort(k, (int16_t)std::stol(x)); break;
            case I32:
            case DATE: target.SetInt(k, (int32_t)std::stol(x)); break;
            case I64: target.SetLong(k, std::stoll(x)); break;
            case F32: target.SetFloat(k, std::stof(x)); break;
            default: target.SetDouble(k, std::stod(x));
        }
        c.Op(Fmt("set %d", k), true);
    }
    if (c.rng.Chance(0.3)) target.SetRowKind(lab.Kind(kind = c.rng.Below(4)));
    lab.LookRow(target, ts, vs, "after sets");
    VF_EXPECT(lab.Flat(target) == EncodeRow(ts, vs, kind), "layout-set", "bytes after sets");
    VF_EXPECT(lab.Flat(copy) == want && lab.Flat(there_copy) == want, "copy", "a set on the row reached its copy");
    row.Clear();
    VF_EXPECT(row.GetSizeInBytes() == 0, "clear", "cleared row has %d bytes", row.GetSizeInBytes());
}

VF_SCENARIO(arrays, 28000, 250000) {
    Lab lab(c);
    Ty t = RandomTy(c.rng, c.rng.Chance(0.2) ? 2 : 0);
    std::vector<Va> vs;
    double nulls = c.rng.Of<double>({0, 0, 0.05, 0.4});
    int n = c.rng.Chance(0.2) ? c.rng.Of<int>({0, 31, 32, 33, 63, 64, 65, 96, 97}) : c.rng.Range(0, 20);
    for (int i = 0; i < n; i++) vs.push_back(RandomVa(c.rng, t, nulls));
    c.Op(lab.Types({t}) + Fmt(" x%d", n), n > 0);
    BinaryArray a = lab.MakeArr(t, vs);
    std::string want = EncodeArr(t, vs), got = lab.Flat(a);
    c.Saw(vf::HashStr(want));
    lab.LookArr(a, t, vs, "array");
    VF_EXPECT(got == want, "layout", "array of %d %s is %s, by the format %s", n, lab.Types({t}).c_str(), vf::Hex(got, 120).c_str(), vf::Hex(want, 120).c_str());
    bool any = false;
    for (auto& v : vs) any |= v.null;
    VF_EXPECT(a.AnyNull() == any, "any-null", "AnyNull of an array is %d", (int)a.AnyNull());
    VF_EXPECT(a.HashCode() == Murmur(want), "hash", "hash of an array");
    auto [segs, off] = lab.Chain(want, c.rng.Chance(0.3));
    auto there = std::make_shared<BinaryArray>();
    there->PointTo(segs, off, want.size());
    lab.LookArr(*there, t, vs, "moved");
    VF_EXPECT(there->AnyNull() == any && there->HashCode() == Murmur(want), "any-null", "moved array");
    BinaryArray copy = there->Copy(lab.pool.get());
    VF_EXPECT(lab.Flat(copy) == want, "copy", "copy of an array");
    lab.LookArr(copy, t, vs, "copy");
    // projected
    std::vector<int32_t> map;
    std::vector<Va> pick;
    for (int k = c.rng.Below(12); k > 0; k--) {
        int at = n == 0 || c.rng.Chance(0.2) ? -1 : (int)c.rng.Below(n);
        map.push_back(at);
        pick.push_back(at < 0 ? Va{true, "", {}} : vs[at]);
    }
    ProjectedArray proj(there, map);
    VF_EXPECT(proj.Size() == (int)map.size(), "projected", "%d elements", proj.Size());
    for (size_t i = 0; i < map.size(); i++) lab.Look(proj, i, t, pick[i], "projected");
    if (t.shape == LEAF && t.col.kind == I32 && !any) {
        std::vector<int32_t> xs;
        for (auto& v : vs) xs.push_back((int32_t)std::stol(v.text));
        VF_EXPECT(lab.Flat(BinaryArray::FromIntArray(xs, lab.pool.get())) == want, "from", "FromIntArray");
    }
    if (t.shape == LEAF && t.col.kind == I64) {
        std::vector<int64_t> xs;
        for (auto& v : vs) xs.push_back(v.null ? 0 : std::stoll(v.text));
        if (!any) VF_EXPECT(lab.Flat(BinaryArray::FromLongArray(xs, lab.pool.get())) == want, "from", "FromLongArray");
        VF_EXPECT(lab.Flat(BinaryArray::FromLongArray(there.get(), lab.pool.get())) == want, "from", "FromLongArray of an array");
    }
    if (t.shape == LEAF && t.col.kind == STR) {
        std::vector<std::optional<std::string>> xs;
        std::vector<std::string> ys;
        for (auto& v : vs) {
            xs.push_back(v.null ? std::nullopt : std::optional<std::string>(v.text));
            ys.push_back(v.text);
        }
        VF_EXPECT(lab.Flat(InternalRowUtils::ToStringArrayData(xs, lab.pool)) == want, "from", "ToStringArrayData");
        VF_EXPECT(InternalRowUtils::FromStringArrayData(there.get()) == xs, "from", "FromStringArrayData");
        if (!any) {
            VF_EXPECT(lab.Flat(InternalRowUtils::ToNotNullStringArrayData(ys, lab.pool)) == want, "from", "ToNotNullStringArrayData");
            VF_EXPECT(InternalRowUtils::FromNotNullStringArrayData(there.get()) == ys, "from", "FromNotNullStringArrayData");
        }
    }
}

namespace {
struct Batch {
    std::vector<Ty> ts;
    std::vector<std::vector<Va>> rows;
    std::shared_ptr<arrow::Schema> schema;
    std::shared_ptr<arrow::StructArray> array;
    Batch(Lab& lab, int cols, int n, bool close) {
        auto& r = lab.r;
        arrow::FieldVector fields;
        for (int i = 0; i < cols; i++) {
            Ty t = RandomTy(r, 0);
            t.col.name = Fmt("f%d", i);
            fields.push_back(arrow::field(t.col.name, t.col.Type()));
            ts.push_back(t);
        }
        schema = arrow::schema(fields);
        double nulls = r.Of<double>({0, 0.05, 0.4});
        std::vector<Row> cells;
        for (int k = 0; k < n; k++) {
            std::vector<Va> row;
            Row cell;
            for (auto& t : ts) {
                Va v = RandomVa(r, t, nulls);
                if (close && !v.null) v.text = t.col.Value(r, 0);
                if (close && k > 0 && r.Chance(0.4)) v = rows[r.Below(k)][row.size()];
                row.push_back(v);
                cell.push_back(v.null ? Cell() : Cell(v.text));
            }
            rows.push_back(row);
            cells.push_back(cell);
        }
        array = std::dynamic_pointer_cast<arrow::StructArray>(tab::MakeArray(schema, cells));
    }
};
}  // namespace

VF_SCENARIO(views, 16000, 150000) {
    Lab lab(c);
    int n = c.rng.Range(1, 8);
    Batch b(lab, c.rng.Range(1, 9), n, false);
    auto& ts = b.ts;
    c.Op(lab.Types(ts), true);
    int from = c.rng.Chance(0.5) ? c.rng.Below(n) : 0;
    auto part = std::dynamic_pointer_cast<arrow::StructArray>(b.array->Slice(from));
    for (int i = from; i < n; i++) {
        auto& vs = b.rows[i];
        std::vector<std::pair<std::string, std::shared_ptr<InternalRow>>> all;
        auto columnar = c.rng.Chance(0.5) ? std::make_shared<ColumnarRow>(part, part->fields(), lab.pool, i - from) : std::make_shared<ColumnarRow>(part->fields(), lab.pool, i - from);
        all.push_back({"columnar", columnar});
        bool view = c.rng.Chance(0.5);
        auto generic = std::make_shared<GenericRow>((int32_t)ts.size());
        for (size_t k = 0; k < ts.size(); k++) {
            VF_EXPECT(generic->IsNullAt(k), "generic", "a fresh generic row has a value at %zu", k);
            generic->SetField(k, lab.Variant(ts[k].col, vs[k], view));
        }
        all.push_back({"generic", generic});
        all.push_back({"binary", std::make_shared<BinaryRow>(lab.MakeRow(ts, vs))});
        for (auto& [name, row] : all) {
            VF_EXPECT(row->GetFieldCount() == (int)ts.size(), "arity", "%s has %d fields", name.c_str(), row->GetFieldCount());
            int views = name == "columnar" ? 1 : name == "generic" && view ? 2 : 0;
            for (size_t k = 0; k < ts.size(); k++) {
                lab.Look(*row, k, ts[k], vs[k], name, views);
                auto get = InternalRow::CreateFieldGetter(k, ts[k].col.Type(), views);
                VF_EXPECT(get.ok(), "getter", "no getter for %s", ts[k].col.Type()->ToString().c_str());
                GenericRow back(1);
                back.SetField(0, get.value()(*row));
                lab.Look(back, 0, ts[k], vs[k], name + " by getter", views ? 2 : 0);
            }
            int kind = c.rng.Below(4);
            row->SetRowKind(lab.Kind(kind));
            auto rk = row->GetRowKind();
            VF_EXPECT(rk.ok() && rk.value() == lab.Kind(kind), "row-kind", "%s lost its row kind", name.c_str());
            std::vector<int32_t> map;
            for (int m = c.rng.Range(1, 6); m > 0; m--) map.push_back(c.rng.Chance(0.15) ? -1 : (int)c.rng.Below(ts.size()));
            ProjectedRow proj(row, map);
            auto pk = proj.GetRowKind();
            VF_EXPECT(proj.GetFieldCount() == (int)map.size() && pk.ok() && pk.value() == lab.Kind(kind), "projected", "projected %s", name.c_str());
            for (size_t m = 0; m < map.size(); m++) {
                if (map[m] < 0) VF_EXPECT(proj.IsNullAt(m), "projected", "a column outside the projection has a value");
                else lab.Look(proj, m, ts[map[m]], vs[map[m]], "projected " + name, views);
            }
            int skip = c.rng.Below(ts.size());
            OffsetRow tail(*row, ts.size() - skip, skip);
            auto tk = tail.GetRowKind();
            VF_EXPECT(tail.GetFieldCount() == (int)ts.size() - skip && tk.ok() && tk.value() == lab.Kind(kind), "offset-row", "offset %s", name.c_str());
            for (size_t k = skip; k < ts.size(); k++) lab.Look(tail, k - skip, ts[k], vs[k], "offset " + name, views);
        }
    }
    // a list of the first column's values, read as an array, and a nested row
    int lo = c.rng.Below(n + 1), hi = c.rng.Range(lo, n);
    std::vector<Va> vs;
    for (int i = lo; i < hi; i++) vs.push_back(b.rows[i][0]);
    ColumnarArray arr(b.array->field(0), lab.pool, lo, hi - lo);
    lab.LookArr(arr, ts[0], vs, "columnar array", 1);
    if (ts[0].col.kind == I64) {
        VF_EXPECT(lab.Flat(BinaryArray::FromLongArray(&arr, lab.pool.get())) == EncodeArr(ts[0], vs), "from", "FromLongArray of a columnar array");
    }
    arrow::Int32Builder offs;
    (void)offs.Append(lo);
    (void)offs.Append(hi);
    (void)offs.Append(n);
    auto oa = offs.Finish().ValueOrDie();
    auto list = arrow::ListArray::FromArrays(*oa, *b.array->field(0)).ValueOrDie();
    auto rowlist = arrow::ListArray::FromArrays(*oa, *b.array).ValueOrDie();
    ColumnarRow one({list, rowlist}, lab.pool, 0), two({list, rowlist}, lab.pool, 1);
    Ty lt{ARR, {"", BOOL}, {ts[0]}}, rt{ARR, {"", BOOL}, {Ty{ROW, {"", BOOL}, ts}}};
    auto rows = [&](int x, int y) {
        Va v;
        for (int i = x; i < y; i++) v.kids.push_back(Va{false, "", b.rows[i]});
        return v;
    };
    auto firsts = [&](int x, int y) {
        Va v;
        for (int i = x; i < y; i++) v.kids.push_back(b.rows[i][0]);
        return v;
    };
    lab.Look(one, 0, lt, firsts(lo, hi), "list", 1);
    lab.Look(two, 0, lt, firsts(hi, n), "list", 1);
    lab.Look(one, 1, rt, rows(lo, hi), "rows", 1);
    lab.Look(two, 1, rt, rows(hi, n), "rows", 1);
    // a row put together from columns of several rows
    std::vector<BinaryRow> parts;
    std::vector<int> which;
    for (int k = c.rng.Range(1, 3); k > 0; k--) {
        which.push_back(c.rng.Below(n));
        parts.push_back(lab.MakeRow(ts, b.rows[which.back()]));
    }
    std::vector<int32_t> ro, fo;
    for (int k = c.rng.Range(1, 8); k > 0; k--) {
        bool none = c.rng.Chance(0.15);
        ro.push_back(none ? -1 : (int)c.rng.Below(parts.size()));
        fo.push_back(none ? -1 : (int)c.rng.Below(ts.size()));
    }
    DataEvolutionRow made(parts, ro, fo);
    int kind = c.rng.Below(4);
    made.SetRowKind(lab.Kind(kind));
    auto mk = made.GetRowKind();
    VF_EXPECT(made.GetFieldCount() == (int)ro.size() && mk.ok() && mk.value() == lab.Kind(kind), "composed", "a composed row of %zu fields has %d", ro.size(), made.GetFieldCount());
    for (size_t k = 0; k < ro.size(); k++) {
        if (ro[k] < 0) VF_EXPECT(made.IsNullAt(k), "composed", "a column of no row has a value");
        else lab.Look(made, k, ts[fo[k]], b.rows[which[ro[k]]][fo[k]], "composed", 0);
    }
}

VF_SCENARIO(order, 12000, 100000) {
    Lab lab(c);
    int n = c.rng.Range(2, 8);
    Batch b(lab, c.rng.Range(1, 5), n, c.rng.Chance(0.8));
    auto& ts = b.ts;
    std::vector<DataField> fields;
    for (size_t k = 0; k < ts.size(); k++) fields.push_back(DataField(k, b.schema->field(k)));
    std::vector<int32_t> sort;
    bool all = c.rng.Chance(0.4);
    for (size_t k = 0; k < ts.size(); k++) sort.push_back(k);
    if (!all) {
        for (size_t k = 0; k < sort.size(); k++) std::swap(sort[k], sort[c.rng.Below(sort.size())]);
        sort.resize(c.rng.Range(1, sort.size()));
    }
    bool up = c.rng.Chance(0.5), view = c.rng.Chance(0.5);
    c.Op(lab.Types(ts) + (up ? " up" : " down") + (view ? " view" : ""), true);
    auto cmp = all ? FieldsComparator::Create(fields, up, view) : FieldsComparator::Create(fields, sort, up, view);
    VF_EXPECT(cmp.ok(), "comparator", "%s", cmp.status().ToString().c_str());
    VF_EXPECT(cmp.value()->CompareFields() == sort, "comparator", "sort fields were not kept");
    std::vector<std::shared_ptr<InternalRow>> rows;
    for (int i = 0; i < n; i++) {
        int how = view ? 0 : (int)c.rng.Below(3);
        if (how == 0) rows.push_back(std::make_shared<ColumnarRow>(b.array->fields(), lab.pool, i));
        else if (how == 1) {
            auto g = std::make_shared<GenericRow>((int32_t)ts.size());
            for (size_t k = 0; k < ts.size(); k++) g->SetField(k, lab.Variant(ts[k].col, b.rows[i][k], false));
            rows.push_back(g);
        } else {
            auto [segs, off] = lab.Chain(EncodeRow(ts, b.rows[i]), c.rng.Chance(0.5));
            auto x = std::make_shared<BinaryRow>((int32_t)ts.size());
            x->PointTo(segs, off, EncodeRow(ts, b.rows[i]).size());
            rows.push_back(x);
        }
    }
    for (int i = 0; i < n; i++) {
        for (int j = 0; j < n; j++) {
            int want = 0;
            for (int k : sort) {
                auto &x = b.rows[i][k], &y = b.rows[j][k];
                if (x.null != y.null) want = x.null ? -1 : 1;
                else if (!x.null) want = ts[k].col.Compare(x.text, y.text) * (up ? 1 : -1);
                if (want) break;
            }
            int got = cmp.value()->CompareTo(*rows[i], *rows[j]);
            got = got < 0 ? -1 : got > 0 ? 1 : 0;
            VF_EXPECT(got == want, "order", "rows %d and %d compare as %d instead of %d", i, j, got, want);
        }
    }
}

VF_SCENARIO(buckets, 12000, 100000) {
    Lab lab(c);
    int n = c.rng.Chance(0.05) ? 0 : c.rng.Range(1, 20);
    Batch b(lab, c.rng.Range(1, 5), n, false);
    int buckets = c.rng.Chance(0.3) ? c.rng.Range(-5, 2) : c.rng.Chance(0.1) ? INT32_MAX : c.rng.Range(2, 200);
    bool pk = c.rng.Chance(0.5);
    c.Op(lab.Types(b.ts) + Fmt(" over %d", buckets), buckets > 1);
    auto calc = c.rng.Chance(0.5) ? BucketIdCalculator::Create(pk, buckets) : BucketIdCalculator::Create(pk, buckets, lab.pool);
    bool fine = buckets > 0 || buckets == (pk ? -2 : -1);
    VF_EXPECT(calc.ok() == fine, "accept", "%d buckets of %s table: %s", buckets, pk ? "a primary key" : "an append", calc.status().ToString().c_str());
    if (!fine) return;
    int from = c.rng.Chance(0.4) && n ? c.rng.Below(n) : 0;
    for (int round = 0; round < 2; round++) {
        ArrowArray ca;
        ArrowSchema cs;
        auto part = b.array->Slice(from);
        VF_EXPECT(arrow::ExportArray(*part, &ca, &cs).ok(), "export", "export");
        std::vector<int32_t> ids(n - from + 1, -77);
        auto st = calc.value()->CalculateBucketIds(&ca, &cs, ids.data());
        VF_EXPECT(st.ok(), "calculate", "%s", st.ToString().c_str());
        VF_EXPECT(ca.release == nullptr && cs.release == nullptr, "release", "the batch was not released");
        VF_EXPECT(ids.back() == -77, "overrun", "an id past the last row was written");
        for (int i = from; i < n; i++) {
            int want = buckets == 1 || buckets == -1 ? 0 : buckets == -2 ? -2 : std::abs(Murmur(EncodeRow(b.ts, b.rows[i])) % buckets);
            VF_EXPECT(ids[i - from] == want, "bucket", "row %d of %d goes to bucket %d instead of %d of %d", i, n, ids[i - from], want, buckets);
        }
    }
}
