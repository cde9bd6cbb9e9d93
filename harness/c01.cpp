// Round trip and byte layout of the data streams.
#include <cmath>
#include <memory>

#include "paimon/common/io/data_output_stream.h"
#include "paimon/common/io/memory_segment_output_stream.h"
#include "paimon/common/memory/memory_segment_utils.h"
#include "paimon/common/utils/math.h"
#include "paimon/fs/file_system.h"
#include "paimon/io/buffered_input_stream.h"
#include "paimon/io/byte_array_input_stream.h"
#include "paimon/io/data_input_stream.h"
#include "paimon/memory/bytes.h"
#include "paimon/memory/memory_pool.h"
#include "vf.h"

using namespace paimon;
using vf::Case;
using vf::Fmt;

namespace {
enum Kind { BOOL, CHAR, I8, I16, U16, I32, I64, F32, F64, STR, RAW, BYTES, SEG, NKIND };
struct Item {
    Kind k;
    uint64_t bits = 0;
    std::string s;
    int off = 0;    // for SEG
    bool le = false;
    std::string Text() const {
        static const char* n[] = {"bool", "char", "i8", "i16", "u16", "i32", "i64", "f32", "f64", "str", "raw", "bytes", "seg"};
        if (k >= STR) return Fmt("%s%s[%zu]#%llx", le ? "le." : "", n[k], s.size(), (unsigned long long)vf::HashStr(s));
        return Fmt("%s%s=%llx", le ? "le." : "", n[k], (unsigned long long)bits);
    }
};
int Width(Kind k) {
    switch (k) {
        case BOOL: case CHAR: case I8: return 1;
        case I16: case U16: return 2;
        case I32: case F32: return 4;
        default: return 8;
    }
}
// independent encoder
void Encode(const Item& it, std::string* out) {
    auto put = [&](uint64_t v, int w) {
        for (int i = 0; i < w; i++) {
            int sh = it.le ? 8 * i : 8 * (w - 1 - i);
            out->push_back(static_cast<char>(v >> sh));
        }
    };
    if (it.k == STR) {
        put(it.s.size(), 2);
        *out += it.s;
    } else if (it.k >= RAW) {
        *out += it.s;
    } else {
        put(it.bits, Width(it.k));
    }
}
template <typename T>
T FromBits(uint64_t b) {
    T t;
    memcpy(&t, &b, sizeof t);
    return t;
}
template <typename T>
uint64_t ToBits(T t) {
    uint64_t b = 0;
    memcpy(&b, &t, sizeof t);
    return b;
}
std::vector<Item> Gen(Case& c, bool seg_writer) {
    std::vector<Item> v;
    int n = c.rng.Range(1, c.rng.Chance(0.2) ? 60 : 14);
    bool le = c.rng.Chance(0.4);
    bool flip = c.rng.Chance(0.3);
    for (int i = 0; i < n; i++) {
        Item it;
        it.k = static_cast<Kind>(c.rng.Below(NKIND));
        if (!seg_writer && (it.k == F32 || it.k == F64 || it.k == RAW || it.k == SEG || it.k == I8)) it.k = I64;
        if (flip && c.rng.Chance(0.2)) le = !le;
        it.le = le;
        if (it.k < STR) {
            uint64_t b = static_cast<uint64_t>(c.rng.Edgy64());
            if (it.k == BOOL) b &= 1;
            if (it.k == F32 && c.rng.Chance(0.7)) b = ToBits<float>((float)((double)c.rng.Edgy64() / 7));
            if (it.k == F64 && c.rng.Chance(0.7)) b = ToBits<double>((double)c.rng.Edgy64() / 7);
            int w = Width(it.k);
            if (w < 8) b &= (1ull << (8 * w)) - 1;
            it.bits = b;
        } else {
            size_t len;
            switch (c.rng.Below(12)) {
                case 0: len = 0; break;
                case 1: len = c.rng.Range(100, 600); break;
                case 2: len = c.rng.Chance(0.1) ? c.rng.Range(32766, 32770) : 17; break;
                case 3: len = c.rng.Chance(0.05) ? c.rng.Range(65530, 65535) : 3; break;
                default: len = c.rng.Range(0, 40);
            }
            it.s = c.rng.Bytes(len);
            if (it.k == SEG) it.off = c.rng.Below(5);
        }
        c.Op(it.Text(), true);
        v.push_back(it);
    }
    return v;
}

struct MemOut : OutputStream {
    std::string data;
    int64_t fail_at = -1;   // byte position at which the device stops accepting data
    bool closed = false;
    Status Close() override { closed = true; return Status::OK(); }
    Result<int32_t> Write(const char* b, uint32_t n) override {
        if (fail_at >= 0 && static_cast<int64_t>(data.size()) + n > fail_at) {
            uint32_t k = fail_at - data.size();
            data.append(b, k);
            return static_cast<int32_t>(k);
        }
        data.append(b, n);
        return static_cast<int32_t>(n);
    }
    Status Flush() override { return Status::OK(); }
    Result<int64_t> GetPos() const override { return static_cast<int64_t>(data.size()); }
    Result<std::string> GetUri() const override { return std::string("mem"); }
};

// A source that says it is longer than it turns out to be, and reads short at its end.
struct Shrunk : InputStream {
    std::string data;
    uint64_t says;
    int64_t pos = 0;
    Shrunk(const std::string& d, uint64_t s) : data(d), says(s) {}
    Status Close() override { return Status::OK(); }
    Status Seek(int64_t o, SeekOrigin origin) override { pos = origin == FS_SEEK_SET ? o : origin == FS_SEEK_CUR ? pos + o : (int64_t)says + o; return Status::OK(); }
    Result<int64_t> GetPos() const override { return pos; }
    Result<int32_t> Read(char* b, uint32_t n) override {
        auto r = Read(b, n, pos);
        if (r.ok()) pos += r.value();
        return r;
    }
    Result<int32_t> Read(char* b, uint32_t n, uint64_t at) override {
        size_t k = at < data.size() ? std::min<size_t>(n, data.size() - at) : 0;
        memcpy(b, data.data() + at, k);
        return (int32_t)k;
    }
    void ReadAsync(char* b, uint32_t n, uint64_t at, std::function<void(Status)>&& cb) override { cb(Read(b, n, at).status()); }
    Result<uint64_t> Length() const override { return says; }
    Result<std::string> GetUri() const override { return std::string("shrunk"); }
};

// Reads everything back and compares value by value. `avail` < full size means truncated input:
// items that end beyond it must be refused with an error, earlier ones must be intact.
void ReadBack(Case& c, const std::vector<Item>& items, const std::string& enc, size_t avail, bool buffered, int bufsize, bool shrunk = false) {
    std::string copy = enc.substr(0, avail);
    auto pool = GetMemoryPool();
    // exact-size heap copy so that any over-read is caught
    std::unique_ptr<char[]> raw(new char[avail ? avail : 1]);
    memcpy(raw.get(), copy.data(), avail);
    std::shared_ptr<InputStream> in = std::make_shared<ByteArrayInputStream>(raw.get(), avail);
    if (shrunk) in = std::make_shared<Shrunk>(copy, enc.size());
    else if (buffered) in = std::make_shared<BufferedInputStream>(in, bufsize, pool.get());
    DataInputStream dis(in);
    auto len = dis.Length();
    VF_EXPECT(len.ok() && len.value() == (shrunk ? enc.size() : avail), "read-length", "length %zu", avail);
    std::string acc;
    for (size_t i = 0; i < items.size(); i++) {
        const Item& it = items[i];
        size_t before = acc.size();
        Encode(it, &acc);
        bool fits = acc.size() <= avail;
        dis.SetOrder(it.le ? ByteOrder::PAIMON_LITTLE_ENDIAN : ByteOrder::PAIMON_BIG_ENDIAN);
        bool ok = false;
        uint64_t got = 0;
        std::string gs;
        auto rd = [&](auto tag) {
            using T = decltype(tag);
            auto r = dis.ReadValue<T>();
            ok = r.ok();
            if (ok) got = ToBits<T>(r.value());
        };
        switch (it.k) {
            case BOOL: rd(bool()); break;
            case CHAR: rd(char()); break;
            case I8: rd(int8_t()); break;
            case I16: rd(int16_t()); break;
            case U16: rd(uint16_t()); break;
            case I32: rd(int32_t()); break;
            case F32: {  // floats are compared by bit pattern
                rd(float());
                break;
            }
            case F64: case I64: rd(int64_t()); break;
            case STR: {
                auto r = dis.ReadString();
                ok = r.ok();
                if (ok) gs = r.value();
                break;
            }
            case RAW: case SEG: {
                gs.resize(it.s.size());
                ok = dis.Read(gs.data(), gs.size()).ok();
                break;
            }
            case BYTES: {
                Bytes b(it.s.size(), pool.get());
                ok = dis.ReadBytes(&b).ok();
                gs.assign(b.data() ? b.data() : "", b.size());
                break;
            }
            default: break;
        }
        VF_EXPECT(ok == fits, fits ? "valid-read-refused" : "short-read-accepted", "item %zu %s: ok=%d but bytes end at %zu of %zu", i, it.Text().c_str(), ok, acc.size(), avail);
        if (!fits) return;
        if (it.k >= STR) {
            VF_EXPECT(gs == it.s, "value-changed", "item %zu %s: got %s", i, it.Text().c_str(), vf::Hex(gs).c_str());
        } else {
            VF_EXPECT(got == it.bits, "value-changed", "item %zu %s: got %llx", i, it.Text().c_str(), (unsigned long long)got);
        }
        auto p = dis.GetPos();
        VF_EXPECT(p.ok() && static_cast<size_t>(p.value()) == acc.size(), "read-position", "after item %zu position %lld, expected %zu (was %zu)", i, p.ok() ? (long long)p.value() : -1, acc.size(), before);
    }
}
}  // namespace

VF_SCENARIO(segment_writer, 15600, 78000) {
    auto pool = std::shared_ptr<MemoryPool>(GetMemoryPool());
    auto items = Gen(c, true);
    int seg = c.rng.Of<int>({1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 13, 16, 17, 31, 32, 64, 100, 128, 1024, 65536});
    c.Op(Fmt("segment=%d", seg));
    std::string want;
    {
        MemorySegmentOutputStream out(seg, pool);
        for (auto& it : items) {
            out.SetOrder(it.le ? ByteOrder::PAIMON_LITTLE_ENDIAN : ByteOrder::PAIMON_BIG_ENDIAN);
            switch (it.k) {
                case BOOL: out.WriteValue<bool>(it.bits != 0); break;
                case CHAR: out.WriteValue<char>(FromBits<char>(it.bits)); break;
                case I8: out.WriteValue<int8_t>(FromBits<int8_t>(it.bits)); break;
                case I16: out.WriteValue<int16_t>(FromBits<int16_t>(it.bits)); break;
                case U16: out.WriteValue<uint16_t>(FromBits<uint16_t>(it.bits)); break;
                case I32: out.WriteValue<int32_t>(FromBits<int32_t>(it.bits)); break;
                // swapping a floating-point value must not go through floating-point registers in a
                // way that quiets signalling NaNs, so only the non-NaN patterns are written as such
                case F32:
                    if (std::isnan(FromBits<float>(it.bits))) out.WriteValue<int32_t>(FromBits<int32_t>(it.bits));
                    else out.WriteValue<float>(FromBits<float>(it.bits));
                    break;
                case F64:
                    if (std::isnan(FromBits<double>(it.bits))) out.WriteValue<int64_t>(FromBits<int64_t>(it.bits));
                    else out.WriteValue<double>(FromBits<double>(it.bits));
                    break;
                case I64: out.WriteValue<int64_t>(FromBits<int64_t>(it.bits)); break;
                case STR: out.WriteString(it.s); break;
                case RAW: out.Write(it.s.data(), it.s.size()); break;
                case BYTES: out.WriteBytes(std::make_shared<Bytes>(it.s, pool.get())); break;
                case SEG: {
                    auto b = std::make_shared<Bytes>(std::string(it.off, 'x') + it.s + "yy", pool.get());
                    out.Write(MemorySegment::Wrap(b), it.off, it.s.size());
                    break;
                }
                default: break;
            }
            Encode(it, &want);
            VF_EXPECT(out.CurrentSize() == static_cast<int64_t>(want.size()), "write-size", "after %s size %lld, expected %zu", it.Text().c_str(), (long long)out.CurrentSize(), want.size());
        }
        std::string got;
        for (auto& s : out.Segments()) got.append(s.GetArray()->data(), s.Size());
        VF_EXPECT(got.size() >= want.size(), "write-bytes", "segments hold %zu of %zu", got.size(), want.size());
        got.resize(want.size());
        VF_EXPECT(got == want, "encoding", "bytes %s expected %s", vf::Hex(got, 200).c_str(), vf::Hex(want, 200).c_str());
        if (!want.empty()) {
            auto b = MemorySegmentUtils::CopyToBytes(out.Segments(), 0, out.CurrentSize(), pool.get());
            VF_EXPECT(b && std::string(b->data(), b->size()) == want, "collected-bytes", "collected copy differs");
        }
    }
    // what was NaN-guarded above still reads back by bit pattern
    for (auto& it : items) {
        if (it.k == F32 && std::isnan(FromBits<float>(it.bits))) it.k = I32;
    }
    ReadBack(c, items, want, want.size(), c.rng.Chance(0.5), c.rng.Range(1, 40));
    size_t cut = c.rng.Below(want.size() + 1);
    ReadBack(c, items, want, cut, c.rng.Chance(0.3), c.rng.Range(1, 40), c.rng.Chance(0.4));
    VF_EXPECT(pool->CurrentUsage() == 0, "buffers-not-returned", "pool still holds %llu bytes", (unsigned long long)pool->CurrentUsage());
}

VF_SCENARIO(stream_writer, 12000, 60000) {
    auto pool = std::shared_ptr<MemoryPool>(GetMemoryPool());
    auto items = Gen(c, false);
    auto dev = std::make_shared<MemOut>();
    std::string want;
    for (auto& it : items) Encode(it, &want);
    size_t cap = c.rng.Chance(0.4) ? c.rng.Below(want.size() + 1) : want.size() + 100;
    dev->fail_at = cap;
    c.Op(Fmt("device=%zu", cap));
    DataOutputStream out(dev);
    std::string acc;
    for (auto& it : items) {
        out.SetOrder(it.le ? ByteOrder::PAIMON_LITTLE_ENDIAN : ByteOrder::PAIMON_BIG_ENDIAN);
        Status st;
        switch (it.k) {
            case BOOL: st = out.WriteValue<bool>(it.bits != 0); break;
            case CHAR: st = out.WriteValue<char>(FromBits<char>(it.bits)); break;
            case I16: st = out.WriteValue<int16_t>(FromBits<int16_t>(it.bits)); break;
            case U16: st = out.WriteValue<uint16_t>(FromBits<uint16_t>(it.bits)); break;
            case I32: st = out.WriteValue<int32_t>(FromBits<int32_t>(it.bits)); break;
            case I64: st = out.WriteValue<int64_t>(FromBits<int64_t>(it.bits)); break;
            case STR: st = out.WriteString(it.s); break;
            case BYTES: st = out.WriteBytes(std::make_shared<Bytes>(it.s, pool.get())); break;
            default: break;
        }
        Encode(it, &acc);
        bool fits = acc.size() <= cap;
        VF_EXPECT(st.ok() == fits, fits ? "valid-write-refused" : "short-write-accepted", "%s: ok=%d, %zu bytes on a device of %zu", it.Text().c_str(), st.ok(), acc.size(), cap);
        if (!fits) return;
        VF_EXPECT(dev->data == acc, "encoding", "after %s bytes differ at size %zu/%zu", it.Text().c_str(), dev->data.size(), acc.size());
    }
    ReadBack(c, items, want, want.size(), c.rng.Chance(0.5), c.rng.Range(1, 40));
    if (!want.empty()) ReadBack(c, items, want, c.rng.Below(want.size()), c.rng.Chance(0.3), c.rng.Range(1, 40));
}

// A string too long for its two-byte length must not be written as if it were shorter.
VF_SCENARIO(long_string, 240, 1200) {
    auto dev = std::make_shared<MemOut>();
    DataOutputStream out(dev);
    size_t len = c.rng.Range(65536 - 3, 65536 * 2 + 3);
    if (c.rng.Chance(0.5)) len = c.rng.Range(65534, 65538);
    std::string s = c.rng.Ascii(len);
    c.Op(Fmt("string of %zu bytes", len), true);
    Status st = out.WriteString(s);
    VF_EXPECT(st.ok() == (len <= 65535), "long-string-truncated", "string of %zu bytes: write reported %s", len, st.ToString().c_str());
    if (st.ok()) {
        ByteArrayInputStream in(dev->data.data(), dev->data.size());
        DataInputStream dis(std::make_shared<ByteArrayInputStream>(dev->data.data(), dev->data.size()));
        auto r = dis.ReadString();
        VF_EXPECT(r.ok() && r.value() == s, "value-changed", "string of %zu bytes came back different", len);
    }
}

// Random access through the data reader and its position/length reports.
VF_SCENARIO(reader_seek, 7200, 36000) {
    std::string data = c.rng.Bytes(c.rng.Range(1, 200));
    std::unique_ptr<char[]> raw(new char[data.size()]);
    memcpy(raw.get(), data.data(), data.size());
    DataInputStream dis(std::make_shared<ByteArrayInputStream>(raw.get(), data.size()));
    int n = c.rng.Range(2, 30);
    for (int i = 0; i < n; i++) {
        int64_t pos = c.rng.Range(0, data.size());
        bool le = c.rng.Chance(0.5);
        dis.SetOrder(le ? ByteOrder::PAIMON_LITTLE_ENDIAN : ByteOrder::PAIMON_BIG_ENDIAN);
        c.Op(Fmt("seek %lld%s", (long long)pos, le ? " le" : ""), true);
        VF_EXPECT(dis.Seek(pos).ok(), "seek-refused", "seek to %lld of %zu", (long long)pos, data.size());
        auto want = [&](int w) {
            uint64_t v = 0;
            for (int k = 0; k < w; k++) {
                uint64_t byte = (unsigned char)data[pos + k];
                v |= byte << (le ? 8 * k : 8 * (w - 1 - k));
            }
            return v;
        };
        auto one = [&](auto tag) {
            using T = decltype(tag);
            auto r = dis.ReadValue<T>();
            bool fits = pos + sizeof(T) <= data.size();
            VF_EXPECT(r.ok() == fits, fits ? "valid-read-refused" : "short-read-accepted", "width %zu at %lld of %zu", sizeof(T), (long long)pos, data.size());
            if (fits) VF_EXPECT(ToBits<T>(r.value()) == want(sizeof(T)), "value-changed", "width %zu at %lld", sizeof(T), (long long)pos);
            auto p = dis.GetPos();
            VF_EXPECT(p.ok() && p.value() == pos + (fits ? (int64_t)sizeof(T) : 0), "read-position", "position %lld after width %zu at %lld", (long long)p.value(), sizeof(T), (long long)pos);
        };
        switch (c.rng.Below(5)) {
            case 0: one(int8_t()); break;
            case 1: one(int16_t()); break;
            case 2: one(uint16_t()); break;
            case 3: one(int32_t()); break;
            default: one(int64_t()); break;
        }
    }
}

// Byte swapping is its own inverse and moves byte i to byte n-1-i.
VF_SCENARIO(byte_swap, 18000, 90000) {
    auto one = [&](auto tag) {
        using T = decltype(tag);
        uint64_t b = static_cast<uint64_t>(c.rng.Edgy64());
        if (sizeof(T) < 8) b &= (1ull << (8 * sizeof(T))) - 1;
        T v = FromBits<T>(b);
        T s = EndianSwapValue<T>(v);
        unsigned char x[8], y[8];
        memcpy(x, &v, sizeof v);
        memcpy(y, &s, sizeof s);
        c.Op(Fmt("swap%zu %llx", sizeof(T), (unsigned long long)b), true);
        for (size_t i = 0; i < sizeof(T); i++) {
            VF_EXPECT(x[i] == y[sizeof(T) - 1 - i], "byte-swap", "width %zu bits %llx", sizeof(T), (unsigned long long)b);
        }
        T back = EndianSwapValue<T>(s);
        VF_EXPECT(memcmp(&back, &v, sizeof v) == 0, "byte-swap-inverse", "width %zu bits %llx", sizeof(T), (unsigned long long)b);
    };
    one(int8_t()); one(int16_t()); one(uint16_t()); one(int32_t()); one(uint32_t()); one(int64_t()); one(uint64_t());
}
