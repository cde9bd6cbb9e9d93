// Strings, sections and segments against flat byte strings, in many memory layouts.
#include <memory>

#include "paimon/common/data/binary_section.h"
#include "paimon/common/data/binary_string.h"
#include "paimon/common/io/memory_segment_output_stream.h"
#include "paimon/common/memory/memory_segment.h"
#include "paimon/common/memory/memory_segment_utils.h"
#include "paimon/memory/bytes.h"
#include "paimon/memory/memory_pool.h"
#include "vf.h"

using namespace paimon;
using vf::Case;
using vf::Fmt;

namespace {
struct Layout {
    std::vector<MemorySegment> segs;
    int offset;
    std::string Text;
};
MemorySegment Seg(const std::string& s, MemoryPool* pool) {
    return MemorySegment::Wrap(std::make_shared<Bytes>(s, pool));
}
// Places `s` at some offset of a chain of equal-size segments (the last may be shorter).
Layout Place(Case& c, const std::string& s, MemoryPool* pool) {
    Layout l;
    bool single = c.rng.Chance(0.35);
    int off = c.rng.Chance(0.3) ? 0 : c.rng.Below(30);
    int tail = c.rng.Below(4);
    std::string flat = c.rng.Bytes(off) + s + c.rng.Bytes(tail);
    l.offset = off;
    if (single) {
        l.segs.push_back(Seg(flat, pool));
        l.Text = Fmt("one@%d", off);
    } else {
        int size = c.rng.Range(1, 24);
        if (s.empty() && tail == 0) flat += "z";   // the offset lies inside the chain
        for (size_t p = 0; p < flat.size(); p += size) l.segs.push_back(Seg(flat.substr(p, size), pool));
        l.Text = Fmt("%zux%d@%d", l.segs.size(), size, off);
        if (l.segs.size() == 1 && (int)flat.size() < size) {
            // fine: a single short segment
        }
    }
    return l;
}
int CharLen(char b) {
    unsigned char u = b;
    if (u < 0x80) return 1;
    if ((u & 0xE0) == 0xC0 && (u & 0x1e) != 0) return 2;
    if ((u & 0xF0) == 0xE0) return 3;
    if ((u & 0xF8) == 0xF0) return 4;
    return 1;
}
std::string Utf8(Case& c, int chars) {
    std::string r;
    for (int i = 0; i < chars; i++) {
        switch (c.rng.Below(5)) {
            case 0: r += c.rng.Of<const char*>({"é", "ß", "Ω", "я"}); break;
            case 1: r += c.rng.Of<const char*>({"中", "文", "√", "字"}); break;
            case 2: r += c.rng.Of<const char*>({"😀", "𝄞"}); break;
            default: r += c.rng.Of<const char*>({"a", "b", "Z", "z", " ", "A", "0", "@", "[", "{", "`"});
        }
    }
    return r;
}
std::string Content(Case& c, bool valid_utf8) {
    int n = c.rng.Chance(0.15) ? c.rng.Below(120) : c.rng.Below(25);
    if (c.rng.Chance(0.05)) n = 0;
    if (valid_utf8) return c.rng.Chance(0.3) ? c.rng.Ascii(n, "ab") : Utf8(c, n);
    return c.rng.Chance(0.5) ? c.rng.Ascii(n, "ab") : c.rng.Bytes(n);
}
int Sign(int x) { return x < 0 ? -1 : x > 0 ? 1 : 0; }
int ByteCmp(const std::string& a, const std::string& b) {
    size_t n = std::min(a.size(), b.size());
    for (size_t i = 0; i < n; i++) {
        unsigned char x = a[i], y = b[i];
        if (x != y) return x < y ? -1 : 1;
    }
    return a.size() < b.size() ? -1 : a.size() > b.size() ? 1 : 0;
}
std::vector<size_t> Bounds(const std::string& s) {   // byte offset of each character
    std::vector<size_t> b;
    size_t i = 0;
    while (i < s.size()) {
        b.push_back(i);
        i += CharLen(s[i]);
    }
    return b;
}
}  // namespace

VF_SCENARIO(string_pairs, 25000, 125000) {
    auto pool = GetMemoryPool();
    {
        std::string a = Content(c, false), b = Content(c, false);
        if (c.rng.Chance(0.3)) b = a;
        if (c.rng.Chance(0.3) && !a.empty()) {
            b = a;
            b[c.rng.Below(b.size())] ^= 1 << c.rng.Below(8);
        }
        if (c.rng.Chance(0.2)) b = a + c.rng.Bytes(c.rng.Below(9));
        if (c.rng.Chance(0.2)) b = a.substr(0, c.rng.Below(a.size() + 1));
        if (c.rng.Chance(0.15)) b = a.substr(c.rng.Below(a.size() + 1));
        if (c.rng.Chance(0.1) && a.size() > 2) b = a.substr(c.rng.Below(a.size() - 1), c.rng.Below(6));
        Layout la = Place(c, a, pool.get()), lb = Place(c, b, pool.get());
        c.Op("a=" + vf::Hex(a) + " " + la.Text, true);
        c.Op("b=" + vf::Hex(b) + " " + lb.Text);
        BinaryString x = BinaryString::FromAddress(la.segs, la.offset, a.size());
        BinaryString y = BinaryString::FromAddress(lb.segs, lb.offset, b.size());
        VF_EXPECT(x.ToString() == a && y.ToString() == b, "to-string", "%s", x.ToString().c_str());
        VF_EXPECT(Sign(x.CompareTo(y)) == ByteCmp(a, b), "ordering", "compare gives %d, bytes %d", x.CompareTo(y), ByteCmp(a, b));
        VF_EXPECT(Sign(y.CompareTo(x)) == -ByteCmp(a, b), "ordering", "reverse compare");
        VF_EXPECT((x == y) == (a == b), "equality", "equal=%d", x == y);
        VF_EXPECT((x < y) == (ByteCmp(a, b) < 0), "ordering", "less=%d", x < y);
        VF_EXPECT(static_cast<const BinarySection&>(x) == static_cast<const BinarySection&>(y) == (a == b), "section-equality", "sections");
        VF_EXPECT(x.StartsWith(y) == (a.compare(0, b.size(), b) == 0 && a.size() >= b.size()), "prefix", "starts-with=%d", x.StartsWith(y));
        VF_EXPECT(x.EndsWith(y) == (a.size() >= b.size() && a.compare(a.size() - b.size(), b.size(), b) == 0), "suffix", "ends-with=%d", x.EndsWith(y));
        VF_EXPECT(x.Contains(y) == (a.find(b) != std::string::npos), "contains", "contains=%d", x.Contains(y));
        if (a == b) {
            VF_EXPECT(x.HashCode() == y.HashCode(), "hash-layout", "equal strings hash differently in layouts %s and %s", la.Text.c_str(), lb.Text.c_str());
        }
        auto bytes = x.ToBytes(pool.get());
        VF_EXPECT(std::string(bytes->data() ? bytes->data() : "", bytes->size()) == a, "to-bytes", "bytes differ");
        BinaryString cp = x.Copy(pool.get());
        VF_EXPECT(cp.ToString() == a && cp == x && cp.HashCode() == x.HashCode(), "copy", "copy differs");
        for (size_t i = 0; i < a.size(); i++) VF_EXPECT(x.ByteAt(i) == a[i], "byte-at", "index %zu", i);
        VF_EXPECT(x.GetSizeInBytes() == (int)a.size(), "size", "size %d", x.GetSizeInBytes());
    }
    VF_EXPECT(pool->CurrentUsage() == 0, "memory-not-returned", "pool holds %llu", (unsigned long long)pool->CurrentUsage());
}

VF_SCENARIO(characters, 25000, 125000) {
    auto pool = GetMemoryPool();
    bool valid = c.rng.Chance(0.75);
    std::string a = Content(c, valid);
    Layout la = Place(c, a, pool.get());
    c.Op("s=" + vf::Hex(a) + " " + la.Text, true);
    BinaryString x = BinaryString::FromAddress(la.segs, la.offset, a.size());
    auto bd = Bounds(a);
    VF_EXPECT(x.NumChars() == (int)bd.size(), "character-count", "%d characters, expected %zu", x.NumChars(), bd.size());
    // substring by characters; a truncated last character extends to the end of the string only
    int n = bd.size();
    for (int k = 0; k < 4; k++) {
        int from = c.rng.Range(-2, n + 2), to = c.rng.Range(-2, n + 3);
        if (from < 0 && !c.rng.Chance(0.3)) from = 0;
        c.Op(Fmt("sub %d,%d", from, to));
        std::string got = x.Substring(from, to, pool.get()).ToString();
        int f = std::max(0, std::min(from, n)), t = std::max(0, std::min(to, n));
        std::string want;
        if (to > from && f < t) {
            size_t p = bd[f], q = t < n ? bd[t] : a.size();
            want = a.substr(p, q - p);
        }
        VF_EXPECT(got == want, "substring", "[%d,%d) gives %s, expected %s", from, to, vf::Hex(got).c_str(), vf::Hex(want).c_str());
    }
    // index by characters
    std::string needle;
    if (n > 0 && c.rng.Chance(0.7)) {
        int f = c.rng.Below(n), t = std::min<int>(n, f + c.rng.Range(1, 4));
        needle = a.substr(bd[f], (t < n ? bd[t] : a.size()) - bd[f]);
    } else {
        needle = Content(c, valid).substr(0, 5);
    }
    Layout ln = Place(c, needle, pool.get());
    BinaryString y = BinaryString::FromAddress(ln.segs, ln.offset, needle.size());
    int from = c.rng.Chance(0.5) ? 0 : c.rng.Range(0, n + 2);
    int want = -1;
    if (needle.empty()) {
        want = 0;
    } else {
        for (int i = from; i < n; i++) {
            if (a.compare(bd[i], needle.size(), needle) == 0 && bd[i] + needle.size() <= a.size()) {
                want = i;
                break;
            }
        }
    }
    c.Op("find " + vf::Hex(needle) + Fmt(" from %d ", from) + ln.Text);
    int got = x.IndexOf(y, from);
    VF_EXPECT(got == want, "index-of", "found at %d, expected %d", got, want);
    // case folding of ASCII letters, everything else unchanged
    std::string up = a, lo = a;
    for (auto& ch : up) if (ch >= 'a' && ch <= 'z') ch -= 32;
    for (auto& ch : lo) if (ch >= 'A' && ch <= 'Z') ch += 32;
    VF_EXPECT(x.ToUpperCase(pool.get()).ToString() == up, "upper-case", "upper case differs");
    VF_EXPECT(x.ToLowerCase(pool.get()).ToString() == lo, "lower-case", "lower case differs");
    if (!a.empty()) {
        int s = c.rng.Below(a.size()), e = c.rng.Range(s, a.size() - 1);
        VF_EXPECT(x.CopyBinaryString(s, e, pool.get()).ToString() == a.substr(s, e - s + 1), "copy-range", "copy [%d,%d]", s, e);
    }
    int blanks = c.rng.Below(20);
    VF_EXPECT(BinaryString::BlankString(blanks, pool.get()).ToString() == std::string(blanks, ' '), "blank", "blank string %d", blanks);
    VF_EXPECT(BinaryString::FromString(a, pool.get()).ToString() == a, "from-string", "from string");
    VF_EXPECT(BinaryString::EmptyUtf8().ToString().empty() && BinaryString::EmptyUtf8().NumChars() == 0, "empty", "the empty string is not empty");
}

VF_SCENARIO(segment_regions, 30000, 150000) {
    auto pool = GetMemoryPool();
    int total = c.rng.Range(16, 160);
    int size = c.rng.Chance(0.3) ? total : c.rng.Range(1, 30);
    std::string flat = c.rng.Chance(0.5) ? c.rng.Ascii(total, "ab") : c.rng.Bytes(total);
    std::vector<MemorySegment> segs;
    // all segments of a chain have the same size; the tail is rounded up
    while (total % size) {
        flat += 'q';
        total++;
    }
    for (int p = 0; p < total; p += size) segs.push_back(Seg(flat.substr(p, size), pool.get()));
    c.Op(Fmt("%zux%d ", segs.size(), size) + vf::Hex(flat, 24), true);
    auto snapshot = [&] {
        std::string r;
        for (auto& s : segs) r.append(s.GetArray()->data(), s.Size());
        return r;
    };
    int ops = c.rng.Range(4, 25);
    auto value = [&](auto tag, const char* name) {
        using T = decltype(tag);
        if (total < (int)sizeof(T)) return;
        int off = c.rng.Below(total - sizeof(T) + 1);
        uint64_t bits = (uint64_t)c.rng.Edgy64();
        T v;
        memcpy(&v, &bits, sizeof v);
        if (std::is_same_v<T, bool>) {
            bool b = bits & 1;
            memcpy(&v, &b, sizeof v);
        }
        c.Op(Fmt("set %s@%d %llx", name, off, (unsigned long long)bits), true);
        MemorySegmentUtils::SetValue<T>(&segs, off, v);
        memcpy(&flat[off], &v, sizeof v);
        VF_EXPECT(snapshot() == flat, "value-write", "%s at %d changed other bytes or is wrong", name, off);
        T r = MemorySegmentUtils::GetValue<T>(segs, off);
        VF_EXPECT(memcmp(&r, &v, sizeof v) == 0, "value-read", "%s at %d", name, off);
    };
    auto get = [&](auto tag, const char* name) {
        using T = decltype(tag);
        if (total < (int)sizeof(T)) return;
        int off = c.rng.Below(total - sizeof(T) + 1);
        T r = MemorySegmentUtils::GetValue<T>(segs, off);
        VF_EXPECT(memcmp(&r, &flat[off], sizeof r) == 0, "value-read", "%s at %d", name, off);
    };
    for (int i = 0; i < ops; i++) {
        switch (c.rng.Below(16)) {
            case 0: value(int16_t(), "i16"); break;
            case 1: value(int32_t(), "i32"); break;
            case 2: value(int64_t(), "i64"); break;
            case 3: value(float(), "f32"); break;
            case 4: value(double(), "f64"); break;
            case 5: value(char(), "char"); break;
            case 6: get(int64_t(), "i64"); get(int32_t(), "i32"); get(double(), "f64"); get(float(), "f32"); get(int16_t(), "i16"); break;
            case 7: {
                int bit = c.rng.Below(8 * 12), base = c.rng.Below(std::max(1, total - 12));
                if (base + bit / 8 >= total) break;
                bool set = c.rng.Chance(0.5);
                c.Op(Fmt("%s bit %d+%d", set ? "set" : "clear", base, bit), true);
                if (segs.size() == 1 && c.rng.Chance(0.5)) {
                    if (set) MemorySegmentUtils::BitSet(&segs[0], base, bit);
                    else MemorySegmentUtils::BitUnSet(&segs[0], base, bit);
                    VF_EXPECT(MemorySegmentUtils::BitGet(segs[0], base, bit) == set, "bit", "bit %d+%d", base, bit);
                } else {
                    if (set) MemorySegmentUtils::BitSet(&segs, base, bit);
                    else MemorySegmentUtils::BitUnSet(&segs, base, bit);
                }
                char& ch = flat[base + bit / 8];
                if (set) ch |= (char)(1 << (bit % 8)); else ch &= (char)~(1 << (bit % 8));
                VF_EXPECT(snapshot() == flat, "bit", "bit %d+%d changed other bits or is wrong", base, bit);
                VF_EXPECT(MemorySegmentUtils::BitGet(segs, base, bit) == set, "bit", "bit %d+%d reads back wrong", base, bit);
                break;
            }
            case 8: {
                int off = c.rng.Below(total + 1), n = c.rng.Below(total - off + 1), bo = c.rng.Below(5);
                std::string src = c.rng.Bytes(bo + n + 2);
                Bytes b(src, pool.get());
                c.Op(Fmt("copy-in %d@%d", n, off), true);
                MemorySegmentUtils::CopyFromBytes(&segs, off, b, bo, n);
                memcpy(&flat[0] + off, src.data() + bo, n);
                VF_EXPECT(snapshot() == flat, "copy-in", "%d bytes at %d", n, off);
                break;
            }
            case 9: {
                int off = c.rng.Below(total + 1), n = c.rng.Below(total - off + 1), bo = c.rng.Below(5);
                std::string dst = c.rng.Bytes(bo + n + 3), want = dst;
                c.Op(Fmt("copy-out %d@%d", n, off), true);
                MemorySegmentUtils::CopyToBytes(segs, off, &dst, bo, n);
                memcpy(&want[bo], flat.data() + off, n);
                VF_EXPECT(dst == want, "copy-out", "%d bytes at %d", n, off);
                auto b = MemorySegmentUtils::CopyToBytes(segs, off, n, pool.get());
                VF_EXPECT((int)b->size() == n && std::string(b->data() ? b->data() : "", n) == flat.substr(off, n), "copy-out", "%d bytes at %d", n, off);
                auto g = MemorySegmentUtils::GetBytes(segs, off, n, pool.get());
                VF_EXPECT((int)g->size() == n && std::string(g->data() ? g->data() : "", n) == flat.substr(off, n), "get-bytes", "%d bytes at %d", n, off);
                std::unique_ptr<char[]> raw(new char[n + 1]);
                raw[n] = 77;
                MemorySegmentUtils::CopyToUnsafe(segs, off, raw.get(), n);
                VF_EXPECT(memcmp(raw.get(), flat.data() + off, n) == 0 && raw[n] == 77, "copy-out", "raw %d bytes at %d", n, off);
                break;
            }
            case 10: {
                int off = c.rng.Below(total + 1), n = c.rng.Below(total - off + 1);
                std::shared_ptr<MemoryPool> p2 = GetMemoryPool();
                MemorySegmentOutputStream out(c.rng.Range(1, 40), p2);
                std::string pre = c.rng.Bytes(c.rng.Below(10));
                out.Write(pre.data(), pre.size());
                c.Op(Fmt("to-stream %d@%d", n, off), true);
                Status st = MemorySegmentUtils::CopyToStream(segs, off, n, &out);
                VF_EXPECT(st.ok() && out.CurrentSize() == (int64_t)(pre.size() + n), "copy-to-stream", "%d bytes at %d: %s", n, off, st.ToString().c_str());
                std::string got;
                for (auto& s : out.Segments()) got.append(s.GetArray()->data(), s.Size());
                got.resize(pre.size() + n);
                VF_EXPECT(got == pre + flat.substr(off, n), "copy-to-stream", "%d bytes at %d differ", n, off);
                break;
            }
            case 11: {   // equality and search against a second chain
                int off1 = c.rng.Below(total), n1 = c.rng.Below(total - off1 + 1);
                std::string needle = c.rng.Chance(0.6) ? flat.substr(off1 + c.rng.Below(n1 + 1), c.rng.Below(12)) : c.rng.Ascii(c.rng.Below(5), "ab");
                Layout l = Place(c, needle, pool.get());
                c.Op(Fmt("find %d+%d ", off1, n1) + vf::Hex(needle) + l.Text, true);
                int got = MemorySegmentUtils::Find(segs, off1, n1, l.segs, l.offset, needle.size());
                size_t p = flat.substr(off1, n1).find(needle);
                int want = p == std::string::npos ? -1 : off1 + (int)p;
                VF_EXPECT(got == want, "find", "found %d expected %d", got, want);
                int n = std::min<int>(needle.size(), n1);
                VF_EXPECT(MemorySegmentUtils::Equals(segs, off1, l.segs, l.offset, n) == (flat.compare(off1, n, needle, 0, n) == 0), "region-equality", "%d bytes", n);
                break;
            }
            case 12: {   // single-segment primitives
                auto& s = segs[c.rng.Below(segs.size())];
                std::string base(s.GetArray()->data(), s.Size());
                std::string other = c.rng.Chance(0.5) ? base : c.rng.Bytes(base.size());
                if (c.rng.Chance(0.5)) other[c.rng.Below(other.size())] ^= 1 << c.rng.Below(8);
                MemorySegment o = Seg(other, pool.get());
                int o1 = c.rng.Below(base.size() + 1), o2 = c.rng.Chance(0.6) ? o1 : c.rng.Below(base.size() + 1);
                int l1 = c.rng.Below(base.size() - o1 + 1), l2 = c.rng.Chance(0.6) ? std::min<int>(l1, base.size() - o2) : c.rng.Below(base.size() - o2 + 1);
                c.Op(Fmt("cmp %d+%d %d+%d", o1, l1, o2, l2), true);
                int lm = std::min(l1, l2);
                VF_EXPECT(s.EqualTo(o, o1, o2, lm) == (base.compare(o1, lm, other, o2, lm) == 0), "region-equality", "segment equality");
                VF_EXPECT(Sign(s.Compare(o, o1, o2, lm)) == ByteCmp(base.substr(o1, lm), other.substr(o2, lm)), "segment-ordering", "compare %s with %s gives %d", vf::Hex(base.substr(o1, lm)).c_str(), vf::Hex(other.substr(o2, lm)).c_str(), s.Compare(o, o1, o2, lm));
                VF_EXPECT(Sign(s.Compare(o, o1, o2, l1, l2)) == ByteCmp(base.substr(o1, l1), other.substr(o2, l2)), "segment-ordering", "compare of different lengths");
                // swap inside copies
                MemorySegment a2 = Seg(base, pool.get());
                Bytes tmp(lm + 1, pool.get());
                a2.SwapBytes(&tmp, &o, o1, o2, lm);
                std::string wa = base, wb = other;
                for (int k = 0; k < lm; k++) std::swap(wa[o1 + k], wb[o2 + k]);
                VF_EXPECT(std::string(a2.GetArray()->data(), a2.Size()) == wa && std::string(o.GetArray()->data(), o.Size()) == wb, "swap", "swap %d@%d,%d", lm, o1, o2);
                break;
            }
            case 13: {
                MemorySegment d = MemorySegment::AllocateHeapMemory(total + 4, pool.get());
                auto& s = segs[c.rng.Below(segs.size())];
                int o1 = c.rng.Below(s.Size() + 1), n = c.rng.Below(s.Size() - o1 + 1), o2 = c.rng.Below(4);
                s.CopyTo(o1, &d, o2, n);
                VF_EXPECT(memcmp(d.GetArray()->data() + o2, s.GetArray()->data() + o1, n) == 0, "segment-copy", "%d@%d", n, o1);
                for (int k = 0; k < o2; k++) VF_EXPECT(d.Get(k) == 0, "segment-copy", "byte before target changed");
                for (int k = o2 + n; k < total + 4; k++) VF_EXPECT(d.Get(k) == 0, "segment-copy", "byte after target changed");
                c.Op(Fmt("segcopy %d@%d", n, o1), true);
                break;
            }
            case 14: {   // typed access inside one segment
                MemorySegment d = MemorySegment::AllocateHeapMemory(24, pool.get());
                int o = c.rng.Below(16);
                int64_t v = c.rng.Edgy64();
                d.PutValue<int64_t>(o, v);
                VF_EXPECT(d.GetValue<int64_t>(o) == v, "value-read", "i64@%d", o);
                d.PutValue<bool>(o, true);
                VF_EXPECT(d.GetValue<bool>(o) && d.Get(o) == 1, "value-read", "bool@%d", o);
                d.Put(o, (char)0x40);
                VF_EXPECT(d.GetValue<bool>(o), "value-read", "non-zero byte is not true");
                d.PutValue<double>(o, (double)v);
                VF_EXPECT(d.GetValue<double>(o) == (double)v, "value-read", "f64@%d", o);
                Bytes b(c.rng.Bytes(c.rng.Below(24 - o)), pool.get());
                d.Put(o, b);
                Bytes r(b.size(), pool.get());
                d.Get(o, &r);
                VF_EXPECT(r == b, "value-read", "block@%d", o);
                c.Op(Fmt("typed@%d %lld", o, (long long)v), true);
                break;
            }
            default: {   // section: inline (up to 7 bytes) and out-of-line variable part
                int len = c.rng.Below(8);
                bool inl = c.rng.Chance(0.5);
                std::string want;
                int64_t enc;
                int base = c.rng.Below(8), field = c.rng.Below(std::max(1, total - 8));
                if (inl) {
                    enc = (int64_t)((0x80ull | (uint64_t)len) << 56);
                    want = flat.substr(field, len);
                } else {
                    int sub = c.rng.Below(std::max(1, total - base));
                    len = c.rng.Below(total - base - sub + 1);
                    enc = ((int64_t)sub << 32) | len;
                    want = flat.substr(base + sub, len);
                }
                c.Op(Fmt("binary %d %d", inl, len), true);
                auto b = BinarySection::ReadBinary(segs, base, field, enc, pool.get());
                VF_EXPECT(std::string(b->data() ? b->data() : "", b->size()) == want, "read-binary", "inline=%d len=%d", inl, len);
            }
        }
    }
}

VF_SCENARIO(byte_arrays, 12500, 62500) {
    auto pool = GetMemoryPool();
    std::string a = Content(c, false), b = Content(c, false);
    if (c.rng.Chance(0.4)) b = a;
    if (c.rng.Chance(0.3) && !b.empty()) b[c.rng.Below(b.size())] ^= 0x80;
    if (c.rng.Chance(0.2)) b = a + b;
    Bytes x(a, pool.get()), y(b, pool.get());
    c.Op("a=" + vf::Hex(a) + " b=" + vf::Hex(b), true);
    VF_EXPECT((x == y) == (a == b), "equality", "byte arrays");
    VF_EXPECT((x < y) == (ByteCmp(a, b) < 0), "ordering", "byte arrays less");
    VF_EXPECT(Sign(x.compare(y)) == ByteCmp(a, b), "ordering", "byte arrays compare %d", x.compare(y));
    VF_EXPECT(Sign(y.compare(x)) == -ByteCmp(a, b), "ordering", "byte arrays compare reversed");
    for (size_t i = 0; i < a.size(); i++) VF_EXPECT(x[i] == a[i], "byte-at", "index %zu", i);
}
