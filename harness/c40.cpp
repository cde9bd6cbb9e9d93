// Blob files against an independent encoder of the documented layout, blob readers against the values
// written, descriptors against the bytes they name, and tables with a blob column against a model.
#include <cstring>
#include <limits>

#include "arrow/api.h"
#include "arrow/c/abi.h"
#include "arrow/c/bridge.h"
#include "arrow/c/helpers.h"
#include "paimon/common/data/blob_utils.h"
#include "paimon/data/blob.h"
#include "paimon/format/column_stats.h"
#include "paimon/format/file_format.h"
#include "paimon/format/file_format_factory.h"
#include "paimon/format/format_stats_extractor.h"
#include "paimon/format/format_writer.h"
#include "paimon/format/reader_builder.h"
#include "paimon/format/writer_builder.h"
#include "paimon/fs/file_system.h"
#include "paimon/memory/bytes.h"
#include "paimon/memory/memory_pool.h"
#include "paimon/reader/file_batch_reader.h"
#include "paimon/utils/roaring_bitmap32.h"
#include "vf.h"

namespace {
using namespace paimon;
using vf::Case;
using vf::Fmt;
std::string S(const Status& s) { return s.ToString(); }

// ---- a file system in memory whose every read and write can fail or come up short
struct Disk {
    std::map<std::string, std::string> files;
    int fail_at = -1, calls = 0;  // the operation that fails
    bool failed = false;
    bool Hit() {
        if (calls++ != fail_at) return false;
        failed = true;
        return true;
    }
};
class In : public InputStream {
 public:
    In(Disk* d, std::string uri) : d_(d), uri_(std::move(uri)), data_(d->files[uri_]) {}
    Status Close() override { return Status::OK(); }
    Status Seek(int64_t off, SeekOrigin o) override {
        if (d_->Hit()) return Status::IOError("seek");
        int64_t p = o == FS_SEEK_SET ? off : o == FS_SEEK_CUR ? pos_ + off : (int64_t)data_.size() + off;
        if (p < 0) return Status::Invalid("seek before the start");
        pos_ = p;
        return Status::OK();
    }
    Result<int64_t> GetPos() const override { return pos_; }
    Result<int32_t> Read(char* b, uint32_t n) override {
        if (d_->Hit()) return Status::IOError("read");
        int64_t left = std::max<int64_t>(0, (int64_t)data_.size() - pos_), k = std::min<int64_t>(left, n);
        memcpy(b, data_.data() + std::min<int64_t>(pos_, data_.size()), k);
        pos_ += k;
        return (int32_t)k;
    }
    Result<int32_t> Read(char* b, uint32_t n, uint64_t off) override {
        if (d_->Hit()) return Status::IOError("pread");
        int64_t k = off >= data_.size() ? 0 : std::min<int64_t>(data_.size() - off, n);
        if (k) memcpy(b, data_.data() + off, k);
        return (int32_t)k;
    }
    void ReadAsync(char* b, uint32_t n, uint64_t off, std::function<void(Status)>&& cb) override {
        auto r = Read(b, n, off);
        cb(!r.ok() ? r.status() : r.value() == (int32_t)n ? Status::OK() : Status::IOError("short read"));
    }
    Result<std::string> GetUri() const override { return uri_; }
    Result<uint64_t> Length() const override { return (uint64_t)data_.size(); }

 private:
    Disk* d_;
    std::string uri_, data_;
    int64_t pos_ = 0;
};
class Out : public OutputStream {
 public:
    explicit Out(Disk* d) : d_(d) {}
    Result<int32_t> Write(const char* b, uint32_t n) override {
        if (d_->Hit()) {
            if (n % 2) return Status::IOError("write");
            data.append(b, n / 2);
            if (n) return (int32_t)(n / 2);
        }
        data.append(b, n);
        return (int32_t)n;
    }
    Status Flush() override { return d_->Hit() ? Status::IOError("flush") : Status::OK(); }
    Status Close() override { return Status::OK(); }
    Result<int64_t> GetPos() const override { return (int64_t)data.size(); }
    Result<std::string> GetUri() const override { return std::string("mem:/out"); }
    std::string data;

 private:
    Disk* d_;
};
class Fs : public FileSystem {
 public:
    explicit Fs(Disk* d) : d_(d) {}
    Result<std::unique_ptr<InputStream>> Open(const std::string& p) const override {
        if (!d_->files.count(p)) return Status::NotExist("no file ", p);
        if (d_->Hit()) return Status::IOError("open");
        return std::unique_ptr<InputStream>(new In(d_, p));
    }
    Result<std::unique_ptr<OutputStream>> Create(const std::string&, bool) const override { return Status::IOError("no"); }
    Status Mkdirs(const std::string&) const override { return Status::OK(); }
    Status Rename(const std::string&, const std::string&) const override { return Status::IOError("no"); }
    Status Delete(const std::string&, bool) const override { return Status::IOError("no"); }
    Result<std::unique_ptr<FileStatus>> GetFileStatus(const std::string&) const override { return Status::IOError("no"); }
    Status ListDir(const std::string&, std::vector<std::unique_ptr<BasicFileStatus>>*) const override { return Status::OK(); }
    Status ListFileStatus(const std::string&, std::vector<std::unique_ptr<FileStatus>>*) const override { return Status::OK(); }
    Result<bool> Exists(const std::string& p) const override { return d_->files.count(p) > 0; }

 private:
    Disk* d_;
};

// ---- the layout
uint32_t Crc(const std::string& s) {
    uint32_t r = ~0u;
    for (unsigned char ch : s) {
        r ^= ch;
        for (int i = 0; i < 8; i++) r = (r >> 1) ^ ((r & 1) ? 0xEDB88320u : 0);
    }
    return ~r;
}
void Le(std::string* s, uint64_t v, int n) { for (int i = 0; i < n; i++) s->push_back((char)(v >> (8 * i))); }
std::string Encode(const std::vector<std::string>& blobs) {
    std::string f, index;
    int64_t last = 0;
    for (auto& b : blobs) {
        std::string bin;
        Le(&bin, 1481511375, 4);
        bin += b;
        Le(&bin, b.size() + 16, 8);
        Le(&bin, Crc(bin), 4);
        f += bin;
        int64_t d = (int64_t)bin.size() - last;
        last = bin.size();
        uint64_t z = ((uint64_t)d << 1) ^ (uint64_t)(d >> 63);
        for (; z >= 128; z >>= 7) index.push_back((char)(z | 128));
        index.push_back((char)z);
    }
    f += index;
    Le(&f, index.size(), 4);
    f.push_back(1);
    return f;
}
std::shared_ptr<arrow::Field> BlobField(const char* name = "b") { return BlobUtils::ToArrowField(name); }
std::shared_ptr<arrow::Array> OneBlob(const std::shared_ptr<arrow::Field>& f, const std::optional<std::string>& v) {
    arrow::LargeBinaryBuilder b(arrow::default_memory_pool());
    if (!(v ? b.Append(*v) : b.AppendNull()).ok()) abort();
    std::shared_ptr<arrow::Array> a;
    if (!b.Finish(&a).ok()) abort();
    return arrow::StructArray::Make({a}, {f}).ValueOrDie();
}
std::string AnyBlob(Case& c) {
    switch (c.rng.Below(8)) {
        case 0: return "";
        case 1: return c.rng.Bytes(c.rng.Range(1, 4));
        case 2: return c.rng.Bytes(c.rng.Range(100, 140));
        case 3: return c.rng.Bytes(c.rng.Range(1, 5000));
        default: return c.rng.Bytes(c.rng.Range(0, 60));
    }
}
std::string Huge(Case& c) {
    std::string s((size_t)((int64_t)(c.rng.Range(1, 3) << 20) + c.rng.Range(-2, 2)), 'x');
    uint64_t k = c.rng.U64() | 1;
    for (size_t i = 0; i < s.size(); i += 97) s[i] = (char)(i * k >> 11);
    s.back() = (char)k;
    return s;
}
Result<std::unique_ptr<FileFormat>> Format(bool descriptor, Case& c) {
    std::map<std::string, std::string> o;
    if (descriptor || c.rng.Chance(0.3)) o["blob-as-descriptor"] = descriptor ? "true" : "false";
    return FileFormatFactory::Get("blob", o);
}
Result<std::unique_ptr<FormatWriter>> Writer(Case& c, bool descriptor, const std::shared_ptr<arrow::Schema>& schema, const std::shared_ptr<OutputStream>& out,
                                             const std::shared_ptr<FileSystem>& fs, const std::shared_ptr<MemoryPool>& pool) {
    PAIMON_ASSIGN_OR_RAISE(auto format, Format(descriptor, c));
    ::ArrowSchema s;
    if (!arrow::ExportSchema(*schema, &s).ok()) abort();
    PAIMON_ASSIGN_OR_RAISE(auto builder, format->CreateWriterBuilder(&s, 1024));
    builder->WithMemoryPool(pool);
    auto* specific = dynamic_cast<SpecificFSWriterBuilder*>(builder.get());
    if (specific) specific->WithFileSystem(fs);
    return builder->Build(out, "zstd");
}
Result<std::unique_ptr<FileBatchReader>> Reader(Case& c, bool descriptor, int batch, const std::shared_ptr<InputStream>& in, const std::shared_ptr<MemoryPool>& pool) {
    PAIMON_ASSIGN_OR_RAISE(auto format, Format(descriptor, c));
    PAIMON_ASSIGN_OR_RAISE(auto builder, format->CreateReaderBuilder(batch));
    builder->WithMemoryPool(pool);
    return builder->Build(in);
}
Status SetSchema(FileBatchReader* r, const std::shared_ptr<arrow::Schema>& schema, const std::optional<RoaringBitmap32>& rows) {
    ::ArrowSchema s;
    if (!arrow::ExportSchema(*schema, &s).ok()) abort();
    return r->SetReadSchema(&s, nullptr, rows);
}
// The values of a batch.
std::vector<std::string> Values(Case& c, const BatchReader::ReadBatch& b) {
    auto a = arrow::ImportArray(b.first.get(), b.second.get());
    VF_EXPECT(a.ok(), "batch-import", "a batch cannot be imported");
    auto s = std::dynamic_pointer_cast<arrow::StructArray>(a.ValueOrDie());
    VF_EXPECT(s && s->num_fields() == 1 && s->type()->field(0)->name() == "b" && s->null_count() == 0, "batch-shape", "a batch is not a struct of the blob field");
    auto v = std::dynamic_pointer_cast<arrow::LargeBinaryArray>(s->field(0));
    VF_EXPECT(v && v->length() == s->length() && v->null_count() == 0, "batch-shape", "a batch holds no blobs");
    std::vector<std::string> out;
    for (int64_t i = 0; i < v->length(); i++) out.push_back(std::string(v->GetView(i)));
    return out;
}
const char kUri[] = "mem:/data/f.blob";
}  // namespace

VF_SCENARIO(files, 8000, 50000) {
    Disk disk;
    auto fs = std::make_shared<Fs>(&disk);
    std::shared_ptr<MemoryPool> pool = GetMemoryPool();
    {
        bool refer = c.rng.Chance(0.4);
        auto schema = arrow::schema({BlobField()});
        auto out = std::make_shared<Out>(&disk);
        auto w = Writer(c, refer, schema, out, fs, pool);
        VF_EXPECT(w.ok(), "writer", "%s", S(w.status()).c_str());
        std::vector<std::string> blobs;
        int n = c.rng.Chance(0.05) ? 0 : c.rng.Range(1, c.rng.Chance(0.1) ? 200 : 12);
        bool huge = c.index() % 40 == 7;
        size_t so_far = 0;
        c.Op(Fmt("%d blobs %s", n, refer ? "by descriptor" : "by value"), n > 0);
        for (int i = 0; i < n; i++) {
            std::string v = huge && i == 0 ? Huge(c) : AnyBlob(c), given = v;
            if (refer) {
                std::string uri = Fmt("mem:/src/%d", i);
                if (c.rng.Chance(0.3)) {
                    disk.files[uri] = v;
                    auto b = c.rng.Chance(0.5) ? Blob::FromPath(uri) : Blob::FromPath(uri, 0, -1);
                    VF_EXPECT(b.ok(), "from-path", "%s", S(b.status()).c_str());
                    auto d = b.value()->ToDescriptor(pool);
                    given.assign(d->data(), d->size());
                } else {
                    std::string head = c.rng.Bytes(c.rng.Range(0, 30)), tail = c.rng.Bytes(c.rng.Range(0, 30));
                    disk.files[uri] = head + v + tail;
                    bool rest = tail.empty() && c.rng.Chance(0.3);
                    auto b = Blob::FromPath(uri, head.size(), rest ? -1 : (int64_t)v.size());
                    VF_EXPECT(b.ok(), "from-path", "%s", S(b.status()).c_str());
                    auto d = b.value()->ToDescriptor(pool);
                    given.assign(d->data(), d->size());
                }
            }
            c.Op(Fmt("%zu bytes", v.size()));
            blobs.push_back(v);
            ::ArrowArray a;
            if (!arrow::ExportArray(*OneBlob(schema->field(0), given), &a).ok()) abort();
            Status s = w.value()->AddBatch(&a);
            VF_EXPECT(s.ok(), "add", "blob %d of %zu bytes: %s", i, v.size(), S(s).c_str());
            so_far += v.size() + 16;
            int64_t target = c.rng.Chance(0.5) ? (int64_t)so_far + c.rng.Range(-1, 1) : c.rng.Range(0, 100000);
            auto r = w.value()->ReachTargetSize(c.rng.Chance(0.5), target);
            VF_EXPECT(r.ok() && r.value() == ((int64_t)so_far >= target), "target-size", "after %zu bytes the target %lld is%s reached", so_far, (long long)target, r.ok() && r.value() ? "" : " not");
            if (c.rng.Chance(0.1)) VF_EXPECT(w.value()->Flush().ok(), "flush", "flush fails");
        }
        Status s = w.value()->Finish();
        VF_EXPECT(s.ok(), "finish", "%s", S(s).c_str());
        std::string want = Encode(blobs);
        VF_EXPECT(out->data == want, "layout", "the file of %zu bytes is not as documented (%zu bytes)", out->data.size(), want.size());
        { auto gone = std::move(w).value(); }

        disk.files[kUri] = want;
        for (int round = 0; round < 2; round++) {
            bool as_descriptor = c.rng.Chance(0.4);
            int batch = c.rng.Chance(0.3) ? c.rng.Range(1, 3) : c.rng.Range(1, 300);
            auto r = Reader(c, as_descriptor, batch, std::make_shared<In>(&disk, kUri), pool);
            VF_EXPECT(r.ok(), "reader", "%s", S(r.status()).c_str());
            VF_EXPECT(r.value()->GetNumberOfRows() == blobs.size(), "row-number", "%llu rows, expected %zu", (unsigned long long)r.value()->GetNumberOfRows(), blobs.size());
            std::vector<uint32_t> rows;
            std::optional<RoaringBitmap32> bits;
            if (c.rng.Chance(0.5)) {
                bits = RoaringBitmap32();
                double p = c.rng.Of<double>({0, 0.1, 0.5, 1});
                for (size_t i = 0; i < blobs.size(); i++) if (c.rng.Chance(p)) bits->Add(i), rows.push_back(i);
                if (c.rng.Chance(0.1)) {
                    auto beyond = *bits;
                    beyond.Add((int32_t)(blobs.size() + c.rng.Below(3)));
                    VF_EXPECT(!SetSchema(r.value().get(), schema, beyond).ok(), "selection-beyond", "a row beyond the file can be selected");
                }
            } else {
                for (size_t i = 0; i < blobs.size(); i++) rows.push_back(i);
            }
            Status set = SetSchema(r.value().get(), schema, bits);
            VF_EXPECT(set.ok(), "read-schema", "%s", S(set).c_str());
            c.Op(Fmt("read %zu rows by %d%s", rows.size(), batch, as_descriptor ? " as descriptors" : ""));
            size_t at = 0;
            for (;;) {
                auto b = r.value()->NextBatch();
                VF_EXPECT(b.ok(), "next", "%s", S(b.status()).c_str());
                if (BatchReader::IsEofBatch(b.value())) {
                    VF_EXPECT(at == rows.size(), "rows-lost", "%zu rows read, expected %zu", at, rows.size());
                    break;
                }
                auto values = Values(c, b.value());
                VF_EXPECT(!values.empty() && (int)values.size() <= batch && at + values.size() <= rows.size(), "batch-size", "a batch of %zu rows, asked for %d with %zu left", values.size(), batch, rows.size() - at);
                VF_EXPECT(r.value()->GetPreviousBatchFirstRowNumber() == rows[at], "row-position", "a batch starts at row %llu, expected %u", (unsigned long long)r.value()->GetPreviousBatchFirstRowNumber(), rows[at]);
                for (auto& v : values) {
                    if (as_descriptor) {
                        auto blob = Blob::FromDescriptor(v.data(), v.size());
                        VF_EXPECT(blob.ok(), "descriptor", "%s", S(blob.status()).c_str());
                        VF_EXPECT(blob.value()->Uri() == kUri, "descriptor-uri", "the descriptor names %s", blob.value()->Uri().c_str());
                        auto data = blob.value()->ToData(fs, pool);
                        VF_EXPECT(data.ok(), "descriptor-data", "%s", S(data.status()).c_str());
                        v.assign(data.value()->data(), data.value()->size());
                    }
                    VF_EXPECT(v == blobs[rows[at]], "value", "row %u has other %zu bytes than the %zu written", rows[at], v.size(), blobs[rows[at]].size());
                    at++;
                }
            }
            auto again = r.value()->NextBatch();
            VF_EXPECT(again.ok() && BatchReader::IsEofBatch(again.value()), "after-end", "a batch after the end");
            r.value()->Close();
            VF_EXPECT(!r.value()->NextBatch().ok(), "closed", "a closed reader reads");
        }
        // row count for the table
        auto format = Format(false, c);
        ::ArrowSchema es;
        if (!arrow::ExportSchema(*schema, &es).ok()) abort();
        auto ex = format.value()->CreateStatsExtractor(&es);
        VF_EXPECT(ex.ok(), "stats", "%s", S(ex.status()).c_str());
        auto info = ex.value()->ExtractWithFileInfo(fs, kUri, pool);
        VF_EXPECT(info.ok() && info.value().second.GetRowCount() == (int64_t)blobs.size() && info.value().first.size() == 1, "stats-rows", "wrong row count in the statistics");
    }
    VF_EXPECT(pool->CurrentUsage() == 0, "memory-kept", "%llu bytes of the pool are still in use", (unsigned long long)pool->CurrentUsage());
}

// Footer and index altered, cut or extended: an error, or rows that lie inside the file.
VF_SCENARIO(damaged, 30000, 300000) {
    Disk disk;
    auto fs = std::make_shared<Fs>(&disk);
    std::shared_ptr<MemoryPool> pool = GetMemoryPool();
    std::vector<std::string> blobs;
    int n = c.rng.Range(0, 6);
    for (int i = 0; i < n; i++) blobs.push_back(c.rng.Bytes(c.rng.Range(0, 40)));
    std::string good = Encode(blobs), f = good;
    size_t bins = 0;
    for (auto& b : blobs) bins += b.size() + 16;
    for (int k = c.rng.Range(1, 3); k-- > 0;) {
        switch (c.rng.Below(6)) {
            case 0: f.resize(c.rng.Below(f.size() + 1)); break;
            case 1: f += c.rng.Bytes(c.rng.Range(1, 9)); break;
            case 2: if (f.size() > 5) { std::string len; Le(&len, c.rng.Chance(0.5) ? c.rng.U64() : (uint64_t)c.rng.Range(-2, (int64_t)f.size() + 2), 4); f.replace(f.size() - 5, 4, len); } break;
            case 3: if (f.size() > bins) f[bins + c.rng.Below(f.size() - bins)] ^= (char)(1 << c.rng.Below(8)); break;
            case 4: if (f.size() > bins) f[bins + c.rng.Below(f.size() - bins)] = (char)c.rng.Below(256); break;
            default: if (!f.empty()) f[c.rng.Below(f.size())] = (char)c.rng.U64(); break;
        }
    }
    c.Op("file " + vf::Hex(f), f != good);
    disk.files[kUri] = f;
    bool as_descriptor = c.rng.Chance(0.3);
    auto r = Reader(c, as_descriptor, c.rng.Range(1, 9), std::make_shared<In>(&disk, kUri), pool);
    if (!r.ok()) return;
    uint64_t rows = r.value()->GetNumberOfRows(), seen = 0;
    VF_EXPECT(rows <= f.size(), "rows-of-damage", "%llu rows in a file of %zu bytes", (unsigned long long)rows, f.size());
    if (!SetSchema(r.value().get(), arrow::schema({BlobField()}), std::nullopt).ok()) return;
    for (;;) {
        auto b = r.value()->NextBatch();
        if (!b.ok()) return;
        if (BatchReader::IsEofBatch(b.value())) break;
        for (auto& v : Values(c, b.value())) {
            if (as_descriptor) {
                auto blob = Blob::FromDescriptor(v.data(), v.size());
                if (!blob.ok()) continue;
                auto data = blob.value()->ToData(fs, pool);
                if (!data.ok()) continue;
                v.assign(data.value()->data(), data.value()->size());
            }
            VF_EXPECT(v.empty() || f.find(v) != std::string::npos, "value-of-damage", "a value that is nowhere in the file");
            seen++;
        }
    }
}

// One operation of the storage fails or comes up short: an error, or the right file and the right rows.
VF_SCENARIO(failing, 20000, 160000) {
    Disk disk;
    auto fs = std::make_shared<Fs>(&disk);
    std::shared_ptr<MemoryPool> pool = GetMemoryPool();
    std::vector<std::string> blobs;
    int n = c.rng.Range(1, 4);
    for (int i = 0; i < n; i++) blobs.push_back(AnyBlob(c));
    auto schema = arrow::schema({BlobField()});
    bool refer = c.rng.Chance(0.5), write = c.rng.Chance(0.5);
    disk.fail_at = (int)c.rng.Below(write ? n * (refer ? 9 : 5) + 4 : n * 3 + 6);
    c.Op(Fmt("%s %d blobs%s, operation %d fails", write ? "write" : "read", n, refer ? " by descriptor" : "", disk.fail_at), true);
    if (write) {
        auto out = std::make_shared<Out>(&disk);
        auto w = Writer(c, refer, schema, out, fs, pool);
        VF_EXPECT(w.ok(), "writer", "%s", S(w.status()).c_str());
        bool ok = true;
        for (int i = 0; ok && i < n; i++) {
            std::string given = blobs[i];
            if (refer) {
                disk.files[Fmt("mem:/s/%d", i)] = given;
                auto d = Blob::FromPath(Fmt("mem:/s/%d", i), 0, c.rng.Chance(0.5) ? -1 : (int64_t)given.size());
                VF_EXPECT(d.ok(), "from-path", "%s", S(d.status()).c_str());
                auto b = d.value()->ToDescriptor(pool);
                given.assign(b->data(), b->size());
            }
            ::ArrowArray a;
            if (!arrow::ExportArray(*OneBlob(schema->field(0), given), &a).ok()) abort();
            ok = w.value()->AddBatch(&a).ok();
            if (a.release) a.release(&a);
        }
        if (ok) ok = w.value()->Finish().ok();
        if (ok) VF_EXPECT(out->data == Encode(blobs), "write-silent", "a write that met a failure reported success and left another file");
        return;
    }
    disk.files[kUri] = Encode(blobs);
    auto r = Reader(c, refer, c.rng.Range(1, 5), std::make_shared<In>(&disk, kUri), pool);
    if (!r.ok()) { VF_EXPECT(disk.failed, "reader", "%s", S(r.status()).c_str()); return; }
    if (!SetSchema(r.value().get(), schema, std::nullopt).ok()) { VF_EXPECT(disk.failed, "read-schema", "refused"); return; }
    size_t at = 0;
    for (;;) {
        auto b = r.value()->NextBatch();
        if (!b.ok()) { VF_EXPECT(disk.failed, "next", "%s", S(b.status()).c_str()); return; }
        if (BatchReader::IsEofBatch(b.value())) break;
        for (auto& v : Values(c, b.value())) {
            VF_EXPECT(at < blobs.size(), "read-silent", "more rows than were written");
            if (refer) {
                auto blob = Blob::FromDescriptor(v.data(), v.size());
                VF_EXPECT(blob.ok(), "descriptor", "%s", S(blob.status()).c_str());
                auto data = blob.value()->ToData(fs, pool);
                if (!data.ok()) { VF_EXPECT(disk.failed, "descriptor-data", "%s", S(data.status()).c_str()); at++; continue; }
                v.assign(data.value()->data(), data.value()->size());
            }
            VF_EXPECT(v == blobs[at], "read-silent", "row %zu has other bytes than were written", at);
            at++;
        }
    }
    VF_EXPECT(at == blobs.size(), "read-silent", "%zu of %zu rows", at, blobs.size());
}

// What is no blob is refused, and the file stays as it was.
VF_SCENARIO(refused, 6000, 100000) {
    Disk disk;
    auto fs = std::make_shared<Fs>(&disk);
    std::shared_ptr<MemoryPool> pool = GetMemoryPool();
    auto out = std::make_shared<Out>(&disk);
    int how = c.rng.Below(8);
    c.Op(Fmt("way %d", how), true);
    auto plain = arrow::field("b", arrow::large_binary());
    if (how == 0 || how == 1 || how == 2) {
        std::shared_ptr<arrow::Schema> s = how == 0 ? arrow::schema({plain}) : how == 1 ? arrow::schema({BlobField("a"), BlobField("b")}) : arrow::schema({arrow::field("b", arrow::binary())});
        VF_EXPECT(!Writer(c, false, s, out, fs, pool).ok(), "writer-schema", "a writer for a schema that is not one blob");
        disk.files[kUri] = Encode({"x"});
        auto r = Reader(c, false, 3, std::make_shared<In>(&disk, kUri), pool);
        VF_EXPECT(r.ok(), "reader", "%s", S(r.status()).c_str());
        VF_EXPECT(!SetSchema(r.value().get(), s, std::nullopt).ok(), "reader-schema", "a reader for a schema that is not one blob");
        return;
    }
    if (how == 3) {
        disk.files[kUri] = Encode({"x"});
        VF_EXPECT(!Reader(c, false, (int)c.rng.Range(-2, 0), std::make_shared<In>(&disk, kUri), pool).ok(), "batch-size", "a reader of a batch size below one");
        return;
    }
    if (how == 4) {
        std::string f = Encode({"x", "yy"});
        f.back() = (char)c.rng.Of<int>({0, 2, 3, 127, -1});
        disk.files[kUri] = f;
        VF_EXPECT(!Reader(c, false, 3, std::make_shared<In>(&disk, kUri), pool).ok(), "version", "a file of version %d is read", f.back());
        return;
    }
    auto schema = arrow::schema({BlobField()});
    auto w = Writer(c, how == 7, schema, out, fs, pool);
    VF_EXPECT(w.ok(), "writer", "%s", S(w.status()).c_str());
    std::vector<std::string> blobs;
    int n = c.rng.Range(0, 3);
    if (how != 7) for (int i = 0; i < n; i++) {
        blobs.push_back(AnyBlob(c));
        ::ArrowArray a;
        if (!arrow::ExportArray(*OneBlob(schema->field(0), blobs.back()), &a).ok()) abort();
        VF_EXPECT(w.value()->AddBatch(&a).ok(), "add", "a blob is refused");
    }
    std::shared_ptr<arrow::Array> bad;
    if (how == 5) bad = OneBlob(schema->field(0), std::nullopt);
    else if (how == 6) {
        arrow::LargeBinaryBuilder b(arrow::default_memory_pool());
        int k = c.rng.Of<int>({0, 2, 3});
        for (int i = 0; i < k; i++) if (!b.Append("v").ok()) abort();
        std::shared_ptr<arrow::Array> a;
        if (!b.Finish(&a).ok()) abort();
        bad = arrow::StructArray::Make({a}, {schema->field(0)}).ValueOrDie();
    } else {
        // no descriptor at all, or one of a file that is not there
        std::string given = c.rng.Bytes(c.rng.Range(0, 30));
        if (c.rng.Chance(0.5)) {
            auto b = Blob::FromPath("mem:/not/there", 0, c.rng.Range(-1, 5));
            VF_EXPECT(b.ok(), "from-path", "%s", S(b.status()).c_str());
            auto d = b.value()->ToDescriptor(pool);
            given.assign(d->data(), d->size());
        }
        bad = OneBlob(schema->field(0), given);
    }
    ::ArrowArray a;
    if (!arrow::ExportArray(*bad, &a).ok()) abort();
    Status s = w.value()->AddBatch(&a);
    if (a.release) a.release(&a);
    VF_EXPECT(!s.ok(), "no-blob", "what is no blob is written");
    if (how == 7) return;
    VF_EXPECT(w.value()->Finish().ok() && out->data == Encode(blobs), "refused-trace", "a refused row left a trace in the file");
}

// Blobs by path, offset and length.
VF_SCENARIO(objects, 30000, 600000) {
    Disk disk;
    auto fs = std::make_shared<Fs>(&disk);
    std::shared_ptr<MemoryPool> pool = GetMemoryPool();
    std::string data = c.rng.Bytes(c.rng.Range(0, 50)), uri = "mem:/d/" + c.rng.Ascii(c.rng.Range(1, 20));
    disk.files[uri] = data;
    int64_t off = c.rng.Range(0, (int64_t)data.size() + 2), len = c.rng.Range(-1, (int64_t)data.size() + 2);
    bool whole = c.rng.Chance(0.2);
    if (whole) off = 0, len = -1;
    c.Op(Fmt("%zu bytes, %lld+%lld", data.size(), (long long)off, (long long)len), true);
    auto b = whole ? Blob::FromPath(uri) : Blob::FromPath(uri, off, len);
    if (!b.ok()) { VF_EXPECT(off > (int64_t)data.size() || len > (int64_t)data.size() - off, "from-path", "%s", S(b.status()).c_str()); return; }
    bool inside = off <= (int64_t)data.size() && (len < 0 || off + len <= (int64_t)data.size());
    std::string want = inside ? data.substr(off, len < 0 ? std::string::npos : len) : "";
    auto check = [&](Blob* x, const char* what) {
        VF_EXPECT(x->Uri() == uri, "uri", "%s: uri %s", what, x->Uri().c_str());
        auto d = x->ToData(fs, pool);
        if (!inside) { VF_EXPECT(!d.ok(), "outside", "%s: bytes outside the file are read", what); return; }
        VF_EXPECT(d.ok() && std::string(d.value()->data(), d.value()->size()) == want, "data", "%s: wrong bytes", what);
        auto in = x->NewInputStream(fs);
        VF_EXPECT(in.ok(), "stream", "%s: %s", what, S(in.status()).c_str());
        auto l = in.value()->Length();
        VF_EXPECT(l.ok() && l.value() == want.size(), "stream-length", "%s: wrong length", what);
        std::string got(want.size(), 0);
        auto k = in.value()->Read(got.data(), (uint32_t)got.size());
        VF_EXPECT(k.ok() && k.value() == (int32_t)want.size() && got == want, "stream-data", "%s: wrong bytes from the stream", what);
    };
    check(b.value().get(), "blob");
    auto d = b.value()->ToDescriptor(pool);
    auto e = Blob::FromDescriptor(d->data(), d->size());
    VF_EXPECT(e.ok(), "descriptor", "%s", S(e.status()).c_str());
    check(e.value().get(), "blob of its descriptor");
    VF_EXPECT(!b.value()->NewInputStream(nullptr).ok() && !b.value()->ToData(nullptr, pool).ok(), "no-fs", "a blob is read without a file system");
    disk.files.clear();
    VF_EXPECT(!b.value()->ToData(fs, pool).ok(), "gone", "a blob of no file is read");
}
