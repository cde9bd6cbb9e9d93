// Stored structures: equal after decoding, and safe on damaged bytes.
#include "vf.h"

#include <cstring>
#include <set>

#include "paimon/common/data/binary_row.h"
#include "paimon/common/data/binary_row_writer.h"
#include "paimon/common/data/blob_descriptor.h"
#include "paimon/common/file_index/bitmap/bitmap_file_index_meta_v1.h"
#include "paimon/common/file_index/bitmap/bitmap_file_index_meta_v2.h"
#include "paimon/common/file_index/bsi/bit_slice_index_roaring_bitmap.h"
#include "paimon/common/io/memory_segment_output_stream.h"
#include "paimon/common/memory/memory_segment_utils.h"
#include "paimon/common/utils/serialization_utils.h"
#include "paimon/core/deletionvectors/bitmap_deletion_vector.h"
#include "paimon/core/table/source/deletion_file.h"
#include "paimon/defs.h"
#include "paimon/file_index/file_index_format.h"
#include "paimon/global_index/bitmap_global_index_result.h"
#include "paimon/global_index/bitmap_vector_search_global_index_result.h"
#include "paimon/io/byte_array_input_stream.h"
#include "paimon/io/data_input_stream.h"
#include "paimon/memory/bytes.h"
#include "paimon/memory/memory_pool.h"
#include "paimon/predicate/literal.h"
#include "paimon/utils/roaring_bitmap32.h"
#include "paimon/utils/roaring_bitmap64.h"

extern "C" {
int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
void __asan_poison_memory_region(void const volatile*, size_t);
void __asan_unpoison_memory_region(void const volatile*, size_t);
}

using namespace paimon;
using vf::Case;
using vf::Fmt;

namespace {
// The largest single allocation while a decoder runs.
size_t g_largest = 0;
void OnMalloc(const volatile void*, size_t n) { if (n > g_largest) g_largest = n; }
void OnFree(const volatile void*) {}
bool g_hooked = __sanitizer_install_malloc_and_free_hooks(OnMalloc, OnFree) != 0;

std::string Drain(MemorySegmentOutputStream* out, MemoryPool* pool) {
    auto b = MemorySegmentUtils::CopyToBytes(out->Segments(), 0, (int32_t)out->CurrentSize(), pool);
    return std::string(b->data(), b->size());
}
std::string Str(const Bytes& b) { return std::string(b.data(), b.size()); }

// an exact-size heap copy, so that one byte too far is seen
struct Exact {
    explicit Exact(const std::string& s) : size(s.size()), data(new char[s.size() ? s.size() : 1]) { memcpy(data.get(), s.data(), s.size()); if (!size) { __asan_poison_memory_region(data.get(), 1); } }
    ~Exact() { if (!size) __asan_unpoison_memory_region(data.get(), 1); }
    size_t size;
    std::unique_ptr<char[]> data;
};
std::string Damage(Case& c, const std::string& good) {
    std::string s = good;
    int rounds = (int)c.rng.Range(1, 3);
    for (int i = 0; i < rounds; i++) {
        switch (c.rng.Below(8)) {
            case 0: s.resize(c.rng.Below(s.size() + 1)); break;
            case 1: if (!s.empty()) s[c.rng.Below(s.size())] = (char)c.rng.U64(); break;
            case 2: if (!s.empty()) s[c.rng.Below(s.size())] ^= (char)(1 << c.rng.Below(8)); break;
            case 3: case 4: {  // a length or count field, either byte order
                uint32_t v = c.rng.Of<uint32_t>({0xffffffffu, 0x80000000u, 0x7fffffffu, 0x40000000u, 0x00010000u, 0x0000ffffu, 0, 1, 0xfffffff0u, (uint32_t)good.size(), (uint32_t)good.size() + 1});
                if (c.rng.Chance(0.5)) v = __builtin_bswap32(v);
                if (s.size() >= 4) memcpy(&s[c.rng.Below(s.size() - 3)], &v, 4);
                break;
            }
            case 5: s += c.rng.Bytes(c.rng.Range(1, 20)); break;
            case 6: if (s.size() > 2) { size_t a = c.rng.Below(s.size()), n = c.rng.Below(s.size() - a); s.erase(a, n); } break;
            default: if (s.size() >= 8) { uint64_t v = (uint64_t)c.rng.Edgy64(); memcpy(&s[c.rng.Below(s.size() - 7)], &v, 8); }
        }
    }
    return s;
}
template <typename F> void Guarded(Case& c, const char* what, const std::string& in, size_t slack, F f) {
    c.Op(Fmt("decode %s %s", what, vf::Hex(in, 96).c_str()), true);
    g_largest = 0;
    size_t seen;
    try {
        f();
        seen = g_largest;
    } catch (const vf::Fail&) {
        throw;
    } catch (const std::exception& e) {
        c.Throw(Fmt("exception:%s", what), Fmt("decoding a %s threw %s", what, e.what()));
        return;
    }
    VF_EXPECT(seen <= slack + 64 * in.size(), Fmt("allocation:%s", what), "decoding %zu bytes of a %s asked for %zu bytes at once", in.size(), what, seen);
}
const size_t kSlack = 1 << 20;

std::string AnyUri(Case& c) { return c.rng.Chance(0.1) ? "" : c.rng.Chance(0.1) ? c.rng.Bytes(c.rng.Range(60000, 80000)) : c.rng.Bytes(c.rng.Below(60)); }
RoaringBitmap64 Bitmap64(Case& c) {
    RoaringBitmap64 b;
    int n = (int)c.rng.Below(40);
    int64_t base = c.rng.Of<int64_t>({0, 65530, 1LL << 32, (1LL << 40) - 3});
    for (int i = 0; i < n; i++) b.Add(base + c.rng.Range(0, c.rng.Chance(0.5) ? 60 : 200000));
    if (c.rng.Chance(0.2)) b.AddRange(base, base + c.rng.Range(1, 9000));
    return b;
}
RoaringBitmap32 Bitmap32(Case& c) {
    RoaringBitmap32 b;
    int n = (int)c.rng.Below(40);
    for (int i = 0; i < n; i++) b.Add((int32_t)c.rng.Range(0, c.rng.Chance(0.5) ? 60 : 200000));
    if (c.rng.Chance(0.2)) b.AddRange(5, (int32_t)c.rng.Range(6, 9000));
    return b;
}
}  // namespace

VF_SCENARIO(blobs, 20000, 400000) {
    std::shared_ptr<MemoryPool> pool = GetMemoryPool();
    std::string uri = AnyUri(c);
    int64_t off = c.rng.Chance(0.5) ? c.rng.Range(-2, 2) : c.rng.Edgy64(), len = c.rng.Chance(0.5) ? c.rng.Range(-3, 2) : c.rng.Edgy64();
    c.Op(Fmt("blob uri %s off %lld len %lld", vf::Hex(uri, 40).c_str(), (long long)off, (long long)len), true);
    auto d = BlobDescriptor::Create(uri, off, len);
    VF_EXPECT(d.ok() == (off >= 0 && len >= -1), "blob-range", "offset %lld length %lld %s", (long long)off, (long long)len, d.ok() ? "accepted" : "refused");
    if (!d.ok()) return;
    auto bytes = d.value()->Serialize(pool);
    std::string enc = Str(*bytes);
    {
        Exact x(enc);
        auto back = BlobDescriptor::Deserialize(x.data.get(), x.size);
        VF_EXPECT(back.ok(), "blob-refused", "own encoding is refused: %s", back.status().ToString().c_str());
        VF_EXPECT(back.value()->Uri() == uri && back.value()->Offset() == off && back.value()->Length() == len, "blob-changed", "decoded descriptor differs");
    }
    std::string bad = Damage(c, enc);
    Exact x(bad);
    Guarded(c, "blob descriptor", bad, kSlack, [&] {
        auto r = BlobDescriptor::Deserialize(x.data.get(), x.size);
        c.Saw(vf::HashStr(bad) ^ r.ok());
        if (r.ok()) VF_EXPECT(r.value()->Offset() >= 0 && r.value()->Length() >= -1 && r.value()->Uri().size() <= bad.size(), "blob-malformed", "a descriptor with impossible fields was decoded");
        // a proper prefix of an encoding cannot be complete
        if (bad.size() < enc.size() && enc.compare(0, bad.size(), bad) == 0) VF_EXPECT(!r.ok(), "blob-truncated", "%zu of %zu bytes were accepted", bad.size(), enc.size());
    });
}

VF_SCENARIO(deletion_files, 16000, 300000) {
    std::shared_ptr<MemoryPool> pool = GetMemoryPool();
    std::vector<std::optional<DeletionFile>> files;
    int n = (int)c.rng.Below(6);
    for (int i = 0; i < n; i++) {
        if (c.rng.Chance(0.3)) { files.push_back(std::nullopt); continue; }
        std::optional<int64_t> card;
        if (c.rng.Chance(0.6)) card = c.rng.Range(0, 1LL << 40);
        files.push_back(DeletionFile(c.rng.Bytes(c.rng.Below(30)), c.rng.Range(0, 1LL << 40), c.rng.Range(0, 1LL << 33), card));
    }
    auto out = std::make_shared<MemorySegmentOutputStream>((int32_t)c.rng.Of<int>({8, 64, 65536}), pool);
    DeletionFile::SerializeList(files, out.get());
    std::string enc = Drain(out.get(), pool.get());
    c.Op(Fmt("list of %d: %s", n, vf::Hex(enc, 60).c_str()), true);
    auto decode = [&](const Exact& x, int version) {
        DataInputStream in(std::make_shared<ByteArrayInputStream>(x.data.get(), x.size));
        return DeletionFile::DeserializeList(&in, version);
    };
    {
        Exact x(enc);
        auto r = decode(x, 4);
        VF_EXPECT(r.ok(), "list-refused", "own encoding is refused: %s", r.status().ToString().c_str());
        VF_EXPECT(r.value().size() == files.size(), "list-changed", "%zu files became %zu", files.size(), r.value().size());
        for (size_t i = 0; i < files.size(); i++) {
            const auto& a = files[i]; const auto& b = r.value()[i];
            VF_EXPECT(a.has_value() == b.has_value() && (!a || (a->path == b->path && a->offset == b->offset && a->length == b->length && a->cardinality == b->cardinality)), "list-changed", "file %zu differs", i);
        }
    }
    std::string bad = Damage(c, enc);
    Exact x(bad);
    int version = (int)c.rng.Range(1, 8);
    Guarded(c, "deletion file list", bad, kSlack, [&] {
        auto r = decode(x, version);
        c.Saw(vf::HashStr(bad) ^ r.ok());
        if (r.ok()) VF_EXPECT(r.value().size() <= bad.size(), "list-malformed", "%zu files from %zu bytes", r.value().size(), bad.size());
    });
}

VF_SCENARIO(results, 12000, 200000) {
    std::shared_ptr<MemoryPool> pool = GetMemoryPool();
    RoaringBitmap64 b = Bitmap64(c);
    std::shared_ptr<GlobalIndexResult> r;
    bool scored = c.rng.Chance(0.5);
    if (scored) {
        std::vector<float> scores;
        for (int64_t i = 0; i < b.Cardinality(); i++) scores.push_back((float)c.rng.Unit());
        r = std::make_shared<BitmapVectorSearchGlobalIndexResult>(RoaringBitmap64(b), std::move(scores));
    } else {
        r = std::make_shared<BitmapGlobalIndexResult>([b]() -> Result<RoaringBitmap64> { return b; });
    }
    auto bytes = GlobalIndexResult::Serialize(r, pool);
    VF_EXPECT(bytes.ok(), "result-serialize", "%s", bytes.status().ToString().c_str());
    std::string enc = Str(*bytes.value());
    c.Op(Fmt("result of %lld ids scored %d", (long long)b.Cardinality(), scored), true);
    auto ids = [](GlobalIndexResult* g, std::vector<int64_t>* out) {
        auto it = g->CreateIterator();
        if (!it.ok()) return;
        for (size_t i = 0; i < 100000 && it.value()->HasNext(); i++) out->push_back(it.value()->Next());
    };
    {
        Exact x(enc);
        auto back = GlobalIndexResult::Deserialize(x.data.get(), x.size, pool);
        VF_EXPECT(back.ok(), "result-refused", "own encoding is refused: %s", back.status().ToString().c_str());
        std::vector<int64_t> p, q;
        ids(r.get(), &p);
        ids(back.value().get(), &q);
        VF_EXPECT(p == q, "result-changed", "decoded result has other ids");
    }
    std::string bad = Damage(c, enc);
    Exact x(bad);
    Guarded(c, "index result", bad, kSlack, [&] {
        auto d = GlobalIndexResult::Deserialize(x.data.get(), x.size, pool);
        c.Saw(vf::HashStr(bad) ^ d.ok());
        if (bad.size() < enc.size() && enc.compare(0, bad.size(), bad) == 0) VF_EXPECT(!d.ok(), "result-truncated", "%zu of %zu bytes were accepted", bad.size(), enc.size());
    });
}

VF_SCENARIO(bitmaps, 16000, 300000) {
    std::shared_ptr<MemoryPool> pool = GetMemoryPool();
    bool wide = c.rng.Chance(0.5);
    std::string enc;
    if (wide) { auto b = Bitmap64(c); enc = Str(*b.Serialize(pool.get())); }
    else { auto b = Bitmap32(c); enc = Str(*b.Serialize(pool.get())); }
    std::string bad = c.rng.Chance(0.1) ? c.rng.Bytes(c.rng.Below(64)) : Damage(c, enc);
    Exact x(bad);
    bool prefix = bad.size() < enc.size() && enc.compare(0, bad.size(), bad) == 0;
    Guarded(c, wide ? "wide bitmap" : "bitmap", bad, kSlack, [&] {
        Status s;
        bool stream = c.rng.Chance(0.5);
        auto in = std::make_shared<ByteArrayInputStream>(x.data.get(), x.size);
        if (wide) { RoaringBitmap64 b; s = stream ? b.Deserialize(in.get()) : b.Deserialize(x.data.get(), x.size); }
        else { RoaringBitmap32 b; s = stream ? b.Deserialize(in.get()) : b.Deserialize(x.data.get(), x.size); }
        c.Saw(vf::HashStr(bad) ^ s.ok());
        if (prefix) VF_EXPECT(!s.ok(), "bitmap-truncated", "%zu of %zu bytes were accepted", bad.size(), enc.size());
    });
}

VF_SCENARIO(sliced, 10000, 200000) {
    std::shared_ptr<MemoryPool> pool = GetMemoryPool();
    int64_t lo = c.rng.Of<int64_t>({0, 5, 1000}), hi = lo + c.rng.Of<int64_t>({0, 1, 255, 1LL << 40});
    auto app = BitSliceIndexRoaringBitmap::Appender::Create(lo, hi);
    VF_EXPECT(app.ok(), "slice-create", "%s", app.status().ToString().c_str());
    int n = (int)c.rng.Below(30);
    for (int i = 0; i < n; i++) (void)app.value()->Append(i, c.rng.Range(lo, hi));
    auto bytes = app.value()->Serialize(pool);
    std::string enc = Str(*bytes);
    c.Op(Fmt("sliced index %lld..%lld of %d", (long long)lo, (long long)hi, n), true);
    auto decode = [&](const Exact& x) { return BitSliceIndexRoaringBitmap::Create(std::make_shared<ByteArrayInputStream>(x.data.get(), x.size)); };
    {
        Exact x(enc);
        auto r = decode(x);
        VF_EXPECT(r.ok(), "slice-refused", "own encoding is refused: %s", r.status().ToString().c_str());
        auto built = app.value()->Build();
        VF_EXPECT(*built == *r.value(), "slice-changed", "decoded index differs");
    }
    std::string bad = Damage(c, enc);
    Exact x(bad);
    bool prefix = bad.size() < enc.size() && enc.compare(0, bad.size(), bad) == 0;
    Guarded(c, "sliced index", bad, kSlack, [&] {
        auto r = decode(x);
        c.Saw(vf::HashStr(bad) ^ r.ok());
        if (prefix) VF_EXPECT(!r.ok(), "slice-truncated", "%zu of %zu bytes were accepted", bad.size(), enc.size());
    });
}

VF_SCENARIO(index_meta, 12000, 200000) {
    std::shared_ptr<MemoryPool> pool = GetMemoryPool();
    FieldType t = c.rng.Of<FieldType>({FieldType::BOOLEAN, FieldType::TINYINT, FieldType::SMALLINT, FieldType::INT, FieldType::DATE, FieldType::BIGINT, FieldType::STRING});
    auto lit = [&](int k) -> Literal {
        switch (t) {
            case FieldType::BOOLEAN: return Literal(k % 2 == 1);
            case FieldType::TINYINT: return Literal((int8_t)(k - 64));
            case FieldType::SMALLINT: return Literal((int16_t)(k * 257 - 9000));
            case FieldType::INT: return Literal((int32_t)(k * 66051 - 3));
            case FieldType::DATE: return Literal(FieldType::DATE, (int32_t)k);
            case FieldType::BIGINT: return Literal((int64_t)(k * 4294967297LL - 5));
            default: { std::string s = std::to_string(k) + std::string(k % 9, 'x'); return Literal(FieldType::STRING, s.data(), s.size()); }
        }
    };
    int n = (int)c.rng.Below(t == FieldType::BOOLEAN ? 3 : 20);
    bool has_null = c.rng.Chance(0.5);
    int32_t off = 0;
    int32_t null_off = c.rng.Chance(0.5) ? -1 - (int32_t)c.rng.Below(100) : 0;
    if (has_null && null_off == 0) off = (int32_t)c.rng.Range(1, 90);
    int32_t null_len = off;
    std::vector<BitmapFileIndexMeta::Entry> entries;
    for (int k = 0; k < n; k++) {
        if (c.rng.Chance(0.4)) entries.emplace_back(lit(k), -1 - (int32_t)c.rng.Below(1000), -1);
        else { int32_t l = (int32_t)c.rng.Range(1, 50); entries.emplace_back(lit(k), off, l); off += l; }
    }
    auto out = std::make_shared<MemorySegmentOutputStream>(64, pool);
    bool v2 = c.rng.Chance(0.5);
    int rows = (int)c.rng.Range(0, 5000);
    Status s;
    if (v2) {
        std::map<std::string, std::string> opt;
        if (c.rng.Chance(0.5)) opt["index-block-size"] = std::to_string(c.rng.Range(40, 200));
        BitmapFileIndexMetaV2 m(t, rows, has_null, {Literal(t), null_off, null_len}, std::move(entries), opt, pool);
        s = m.Serialize(out);
    } else {
        BitmapFileIndexMetaV1 m(t, rows, has_null, {Literal(t), null_off, null_len}, std::move(entries), pool);
        s = m.Serialize(out);
    }
    VF_EXPECT(s.ok(), "meta-serialize", "%s", s.ToString().c_str());
    std::string enc = Drain(out.get(), pool.get());
    c.Op(Fmt("meta v%d type %d values %d null %d", v2 ? 2 : 1, (int)t, n, has_null), true);
    std::string bad = c.rng.Chance(0.1) ? enc : Damage(c, enc);
    Exact x(bad);
    Guarded(c, "bitmap index meta", bad, kSlack, [&] {
        auto in = std::make_shared<ByteArrayInputStream>(x.data.get(), x.size);
        std::shared_ptr<BitmapFileIndexMeta> m;
        if (v2) m = std::make_shared<BitmapFileIndexMetaV2>(t, (int32_t)bad.size() + off, pool);
        else m = std::make_shared<BitmapFileIndexMetaV1>(t, 0, (int32_t)bad.size() + off, pool);
        Status s = m->Deserialize(in);
        if (bad == enc) VF_EXPECT(s.ok() && m->GetRowCount() == rows, "meta-refused", "own encoding is refused: %s", s.ToString().c_str());
        c.Saw(vf::HashStr(bad) ^ s.ok());
        if (s.ok()) {
            for (int k = 0; k < n + 2; k++) (void)m->FindEntry(lit(k));
            (void)m->FindEntry(Literal(t));
        }
    });
}

VF_SCENARIO(rows, 12000, 200000) {
    std::shared_ptr<MemoryPool> pool = GetMemoryPool();
    int arity = (int)c.rng.Of<int>({0, 1, 2, 5, 55, 56, 57, 120});
    BinaryRow row(arity);
    BinaryRowWriter w(&row, (int32_t)c.rng.Below(40), pool.get());
    std::vector<int> kind(arity);
    std::vector<int64_t> num(arity);
    std::vector<std::string> txt(arity);
    for (int i = 0; i < arity; i++) {
        kind[i] = (int)c.rng.Below(3);
        if (kind[i] == 0) w.SetNullAt(i);
        else if (kind[i] == 1) w.WriteLong(i, num[i] = c.rng.Edgy64());
        else { txt[i] = c.rng.Bytes(c.rng.Below(20)); w.WriteString(i, BinaryString::FromString(txt[i], pool.get())); }
    }
    w.Complete();
    c.Op(Fmt("row of %d fields", arity), true);
    auto out = std::make_shared<MemorySegmentOutputStream>((int32_t)c.rng.Of<int>({16, 64, 65536}), pool);
    Status s = SerializationUtils::SerializeBinaryRow(row, out.get());
    VF_EXPECT(s.ok(), "row-serialize", "%s", s.ToString().c_str());
    std::string enc = Drain(out.get(), pool.get());
    auto whole = SerializationUtils::SerializeBinaryRow(row, pool.get());
    VF_EXPECT(enc.size() == whole->size() + 4 && enc.substr(4) == Str(*whole), "row-forms", "the two row encodings differ");
    {
        Exact x(enc);
        DataInputStream in(std::make_shared<ByteArrayInputStream>(x.data.get(), x.size));
        auto r = SerializationUtils::DeserializeBinaryRow(&in, pool.get());
        VF_EXPECT(r.ok(), "row-refused", "own encoding is refused: %s", r.status().ToString().c_str());
        auto& b = r.value();
        VF_EXPECT(b.GetFieldCount() == arity && b == row && b.HashCode() == row.HashCode(), "row-changed", "decoded row differs");
        for (int i = 0; i < arity; i++) {
            VF_EXPECT(b.IsNullAt(i) == (kind[i] == 0), "row-null", "field %d null flag is wrong", i);
            if (kind[i] == 1) VF_EXPECT(b.GetLong(i) == num[i], "row-number", "field %d differs", i);
            if (kind[i] == 2) VF_EXPECT(b.GetString(i).ToString() == txt[i], "row-text", "field %d differs", i);
        }
    }
    std::string bad = Damage(c, enc);
    Exact x(bad);
    Guarded(c, "row", bad, kSlack, [&] {
        DataInputStream in(std::make_shared<ByteArrayInputStream>(x.data.get(), x.size));
        auto r = SerializationUtils::DeserializeBinaryRow(&in, pool.get());
        c.Saw(vf::HashStr(bad) ^ r.ok());
        if (r.ok()) {
            // the fixed part of every field the row claims lies inside it
            int n = r.value().GetFieldCount();
            for (int i = 0; i < n; i++) { (void)r.value().IsNullAt(i); (void)r.value().GetLong(i); }
        }
    });
}

VF_SCENARIO(vectors, 8000, 150000) {
    std::shared_ptr<MemoryPool> pool = GetMemoryPool();
    RoaringBitmap32 b = Bitmap32(c);
    BitmapDeletionVector dv(b);
    auto bytes = dv.SerializeToBytes(pool);
    VF_EXPECT(bytes.ok(), "vector-serialize", "%s", bytes.status().ToString().c_str());
    std::string enc = Str(*bytes.value());
    c.Op(Fmt("deletion vector of %d", (int)b.Cardinality()), true);
    {
        Bytes exact(enc, pool.get());
        auto r = DeletionVector::DeserializeFromBytes(&exact, pool.get());
        VF_EXPECT(r.ok(), "vector-refused", "own encoding is refused: %s", r.status().ToString().c_str());
        auto* d = dynamic_cast<BitmapDeletionVector*>(r.value().get());
        VF_EXPECT(d && *d->GetBitmap() == b, "vector-changed", "decoded vector differs");
    }
    std::string bad = Damage(c, enc);
    Exact x(bad);
    bool prefix = bad.size() < enc.size() && enc.compare(0, bad.size(), bad) == 0;
    Guarded(c, "deletion vector", bad, kSlack, [&] {
        auto r = BitmapDeletionVector::Deserialize(x.data.get(), (int32_t)x.size, pool.get());
        c.Saw(vf::HashStr(bad) ^ r.ok());
        if (prefix) VF_EXPECT(!r.ok(), "vector-truncated", "%zu of %zu bytes were accepted", bad.size(), enc.size());
    });
}

VF_SCENARIO(index_files, 8000, 150000) {
    std::shared_ptr<MemoryPool> pool = GetMemoryPool();
    // the documented layout of the head: magic, version, head length, columns
    auto out = std::make_shared<MemorySegmentOutputStream>(64, pool);
    int cols = (int)c.rng.Below(4);
    auto body = std::make_shared<MemorySegmentOutputStream>(64, pool);
    body->WriteValue<int32_t>(cols);
    for (int i = 0; i < cols; i++) {
        body->WriteString("c" + std::to_string(i));
        int k = (int)c.rng.Below(3);
        body->WriteValue<int32_t>(k);
        for (int j = 0; j < k; j++) {
            body->WriteString(c.rng.Of<std::string>({"bitmap", "bsi", "bloom-filter", "other"}));
            body->WriteValue<int32_t>((int32_t)c.rng.Range(-1, 100));
            body->WriteValue<int32_t>((int32_t)c.rng.Range(0, 100));
        }
    }
    body->WriteValue<int32_t>(0);
    std::string head = Drain(body.get(), pool.get());
    out->WriteValue<int64_t>(1493475289347502LL);
    out->WriteValue<int32_t>(1);
    out->WriteValue<int32_t>((int32_t)head.size() + 16);
    std::string enc = Drain(out.get(), pool.get()) + head;
    c.Op(Fmt("index file of %d columns", cols), true);
    std::string bad = c.rng.Chance(0.1) ? enc : Damage(c, enc);
    Exact x(bad);
    Guarded(c, "index file", bad, kSlack, [&] {
        auto r = FileIndexFormat::CreateReader(std::make_shared<ByteArrayInputStream>(x.data.get(), x.size), pool);
        if (bad == enc) VF_EXPECT(r.ok(), "index-file-refused", "a well-formed head is refused: %s", r.status().ToString().c_str());
        c.Saw(vf::HashStr(bad) ^ r.ok());
    });
}
