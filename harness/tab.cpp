#include "tab.h"

#include <mutex>

#include "paimon/data/timestamp.h"
#include "paimon/predicate/compound_predicate.h"
#include "paimon/predicate/function.h"
#include "paimon/predicate/leaf_predicate.h"
#include "paimon/predicate/literal.h"
#include "paimon/executor.h"
#include "paimon/fs/file_system.h"
#include "paimon/fs/file_system_factory.h"

#include <cstring>
#include <mutex>

#include "paimon/catalog/catalog.h"
#include "paimon/catalog/identifier.h"
#include "paimon/commit_context.h"
#include "paimon/common/metrics/metrics_impl.h"
#include "paimon/common/utils/arrow/status_utils.h"
#include "paimon/data/decimal.h"
#include "paimon/defs.h"
#include "paimon/executor.h"
#include "paimon/fs/file_system.h"
#include "paimon/fs/file_system_factory.h"
#include "paimon/factories/factory.h"
#include "paimon/factories/factory_creator.h"
#include "paimon/format/column_stats.h"
#include "paimon/format/file_format.h"
#include "paimon/format/file_format_factory.h"
#include "paimon/format/format_writer.h"
#include "paimon/fs/file_system.h"
#include "paimon/read_context.h"
#include "paimon/reader/prefetch_file_batch_reader.h"
#include "paimon/scan_context.h"
#include "paimon/table/source/table_read.h"
#include "paimon/write_context.h"

using namespace paimon;

namespace tab {
namespace {
std::mutex g_mu;
struct Stored { std::shared_ptr<arrow::StructArray> data; };
std::map<uint64_t, Stored>& Store() { static auto* m = new std::map<uint64_t, Stored>; return *m; }
uint64_t g_ticket = 1;
int g_batch = 0, g_stripe = 0;
bool g_precise = false;
int64_t g_bytes_per_row = 16;

const char kMagic[] = "VFMT";
struct Head { char magic[4]; uint32_t format; uint64_t ticket, rows, size; };

std::shared_ptr<arrow::StructArray> AsStruct(const std::shared_ptr<arrow::Array>& a) { return std::dynamic_pointer_cast<arrow::StructArray>(a); }

class Writer : public FormatWriter {
 public:
    Writer(std::shared_ptr<arrow::DataType> type, std::shared_ptr<OutputStream> out, char format) : type_(std::move(type)), out_(std::move(out)), format_(format) {}
    Status AddBatch(::ArrowArray* batch) override {
        PAIMON_ASSIGN_OR_RAISE_FROM_ARROW(std::shared_ptr<arrow::Array> a, arrow::ImportArray(batch, type_));
        // the caller may reuse its memory once the call returns
        PAIMON_ASSIGN_OR_RAISE_FROM_ARROW(std::shared_ptr<arrow::Array> copy, arrow::Concatenate({a}, arrow::default_memory_pool()));
        rows_ += copy->length();
        parts_.push_back(copy);
        return Status::OK();
    }
    Status Flush() override { return out_->Flush(); }
    Status Finish() override {
        std::shared_ptr<arrow::Array> all;
        if (parts_.empty()) {
            PAIMON_ASSIGN_OR_RAISE_FROM_ARROW(all, arrow::MakeEmptyArray(type_, arrow::default_memory_pool()));
        } else {
            PAIMON_ASSIGN_OR_RAISE_FROM_ARROW(all, arrow::Concatenate(parts_, arrow::default_memory_pool()));
        }
        Head h;
        memset(&h, 0, sizeof(h));
        memcpy(h.magic, kMagic, 4);
        h.format = format_;
        {
            std::lock_guard<std::mutex> l(g_mu);
            h.ticket = g_ticket++;
            Store()[h.ticket] = {AsStruct(all)};
            h.rows = rows_;
            h.size = 2 * sizeof(h) + rows_ * g_bytes_per_row;
        }
        std::string bytes((char*)&h, sizeof(h));
        bytes.append(h.size - 2 * sizeof(h), '.');
        bytes.append((char*)&h, sizeof(h));
        for (size_t at = 0; at < bytes.size();) {
            uint32_t n = (uint32_t)std::min<size_t>(bytes.size() - at, 1 << 16);
            PAIMON_ASSIGN_OR_RAISE(int32_t w, out_->Write(bytes.data() + at, n));
            if (w != (int32_t)n) return Status::IOError("short write");
            at += n;
        }
        return out_->Flush();
    }
    Result<bool> ReachTargetSize(bool suggested_check, int64_t target_size) const override {
        return (int64_t)(2 * sizeof(Head)) + rows_ * g_bytes_per_row >= target_size;
    }
    std::shared_ptr<Metrics> GetWriterMetrics() const override { return std::make_shared<MetricsImpl>(); }

 private:
    std::shared_ptr<arrow::DataType> type_;
    std::shared_ptr<OutputStream> out_;
    std::vector<std::shared_ptr<arrow::Array>> parts_;
    int64_t rows_ = 0;
    char format_;
};

Result<std::shared_ptr<arrow::StructArray>> Load(InputStream* in, char format) {
    PAIMON_ASSIGN_OR_RAISE(uint64_t len, in->Length());
    Head h, f;
    if (len < 2 * sizeof(h)) return Status::Invalid("vfmt: file too short");
    PAIMON_ASSIGN_OR_RAISE(int32_t n, in->Read((char*)&h, sizeof(h), 0));
    PAIMON_ASSIGN_OR_RAISE(int32_t m, in->Read((char*)&f, sizeof(f), len - sizeof(f)));
    if (n != (int32_t)sizeof(h) || m != (int32_t)sizeof(f)) return Status::IOError("vfmt: short read");
    if (memcmp(&h, &f, sizeof(h)) != 0 || memcmp(h.magic, kMagic, 4) != 0 || h.size != len) return Status::Invalid("vfmt: damaged file");
    if (h.format != (uint32_t)format) return Status::Invalid("vfmt: a file of another format");
    std::lock_guard<std::mutex> l(g_mu);
    auto it = Store().find(h.ticket);
    if (it == Store().end()) return Status::Invalid("vfmt: unknown ticket");
    return it->second.data;
}

Status RowMatches(const Predicate& p, const arrow::StructArray& d, int64_t row, bool* yes);

class Reader : public PrefetchFileBatchReader {
 public:
    Reader(std::shared_ptr<InputStream> in, std::shared_ptr<arrow::StructArray> data, int batch)
        : in_(std::move(in)), data_(std::move(data)), batch_(batch < 1 ? 1 : batch), type_(data_->type()) {
        if (g_batch) batch_ = g_batch;
        for (int i = 0; i < data_->num_fields(); i++) columns_.push_back(i);
        ranges_ = {{0, (uint64_t)data_->length()}};
        whole_ = ranges_;
    }
    Result<std::unique_ptr<::ArrowSchema>> GetFileSchema() const override {
        auto s = std::make_unique<::ArrowSchema>();
        PAIMON_RETURN_NOT_OK_FROM_ARROW(arrow::ExportType(*data_->type(), s.get()));
        return s;
    }
    Status SetReadSchema(::ArrowSchema* schema, const std::shared_ptr<Predicate>& predicate, const std::optional<RoaringBitmap32>& selection) override {
        PAIMON_ASSIGN_OR_RAISE_FROM_ARROW(std::shared_ptr<arrow::Schema> want, arrow::ImportSchema(schema));
        columns_.clear();
        arrow::FieldVector fields;
        for (const auto& f : want->fields()) {
            int i = data_->struct_type()->GetFieldIndex(f->name());
            if (i < 0) return Status::Invalid("vfmt: no column " + f->name());
            columns_.push_back(i);
            fields.push_back(data_->struct_type()->field(i));
        }
        type_ = arrow::struct_(fields);
        pos_ = 0;
        previous_ = (uint64_t)-1;
        ranges_ = whole_;
        if (predicate && g_stripe > 0) {  // stripes without a matching row are not read
            ranges_.clear();
            for (int64_t b = 0; b < data_->length(); b += g_stripe) {
                int64_t e = std::min<int64_t>(b + g_stripe, data_->length());
                bool any = false;
                for (int64_t i = b; i < e && !any; i++) PAIMON_RETURN_NOT_OK(RowMatches(*predicate, *data_, i, &any));
                if (any) ranges_.emplace_back(b, e);
            }
        }
        if (selection && (g_stripe > 0 || g_precise)) {  // nor those without a selected row
            std::vector<std::pair<uint64_t, uint64_t>> kept;
            int64_t step = g_precise ? 1 : g_stripe;
            for (int64_t b = 0; b < data_->length(); b += step) {
                int64_t e = std::min<int64_t>(b + step, data_->length());
                bool any = false, in = false;
                for (int64_t i = b; i < e; i++) any = any || selection->Contains((int32_t)i);
                for (auto& r : ranges_) in = in || ((int64_t)r.first <= b && b < (int64_t)r.second);
                if (!any || !in) continue;
                if (!kept.empty() && (int64_t)kept.back().second == b) kept.back().second = e;
                else kept.emplace_back(b, e);
            }
            ranges_ = kept;
        }
        return Status::OK();
    }
    Result<ReadBatch> NextBatch() override {
        for (auto& r : ranges_) {
            if (pos_ >= r.second) continue;
            if (pos_ < r.first) pos_ = r.first;
            uint64_t n = std::min<uint64_t>(batch_, r.second - pos_);
            arrow::ArrayVector cols;
            auto slice = std::static_pointer_cast<arrow::StructArray>(data_->Slice(pos_, n));
            for (int i : columns_) cols.push_back(slice->field(i));
            std::shared_ptr<arrow::Array> out;
            if (cols.empty()) {
                PAIMON_ASSIGN_OR_RAISE_FROM_ARROW(out, arrow::MakeArrayOfNull(type_, n, arrow::default_memory_pool()));
            } else {
                PAIMON_ASSIGN_OR_RAISE_FROM_ARROW(out, arrow::StructArray::Make(cols, type_->fields()));
            }
            PAIMON_ASSIGN_OR_RAISE_FROM_ARROW(out, arrow::Concatenate({out}, arrow::default_memory_pool()));
            previous_ = pos_;
            pos_ += n;
            auto a = std::make_unique<::ArrowArray>();
            auto s = std::make_unique<::ArrowSchema>();
            PAIMON_RETURN_NOT_OK_FROM_ARROW(arrow::ExportArray(*out, a.get(), s.get()));
            return std::make_pair(std::move(a), std::move(s));
        }
        previous_ = data_->length();
        return MakeEofBatch();
    }
    uint64_t GetPreviousBatchFirstRowNumber() const override { return previous_; }
    uint64_t GetNumberOfRows() const override { return data_->length(); }
    bool SupportPreciseBitmapSelection() const override { return g_precise; }
    std::shared_ptr<Metrics> GetReaderMetrics() const override { return std::make_shared<MetricsImpl>(); }
    void Close() override { if (in_) { Status s = in_->Close(); (void)s; in_.reset(); } }
    Status SeekToRow(uint64_t row) override { pos_ = row; return Status::OK(); }
    uint64_t GetNextRowToRead() const override {
        for (auto& r : ranges_) if (pos_ < r.second) return std::max<uint64_t>(pos_, r.first);
        return data_->length();
    }
    Result<std::vector<std::pair<uint64_t, uint64_t>>> GenReadRanges(bool* need_prefetch) const override {
        std::vector<std::pair<uint64_t, uint64_t>> r;
        for (auto& k : ranges_)
            for (uint64_t b = k.first; b < k.second; b += batch_) r.emplace_back(b, std::min<uint64_t>(b + batch_, k.second));
        *need_prefetch = true;
        return r;
    }
    Status SetReadRanges(const std::vector<std::pair<uint64_t, uint64_t>>& r) override { ranges_ = r; return Status::OK(); }
    ~Reader() override { Close(); }

 private:
    std::shared_ptr<InputStream> in_;
    std::shared_ptr<arrow::StructArray> data_;
    uint64_t batch_, pos_ = 0, previous_ = (uint64_t)-1;
    std::vector<int> columns_;
    std::shared_ptr<arrow::DataType> type_;
    std::vector<std::pair<uint64_t, uint64_t>> ranges_, whole_;
};

class RBuilder : public ReaderBuilder {
 public:
    RBuilder(int batch, char format) : batch_(batch), format_(format) {}
    ReaderBuilder* WithMemoryPool(const std::shared_ptr<MemoryPool>&) override { return this; }
    Result<std::unique_ptr<FileBatchReader>> Build(const std::shared_ptr<InputStream>& in) const override {
        PAIMON_ASSIGN_OR_RAISE(std::shared_ptr<arrow::StructArray> d, Load(in.get(), format_));
        return std::unique_ptr<FileBatchReader>(new Reader(in, d, batch_));
    }
    Result<std::unique_ptr<FileBatchReader>> Build(const std::string&) const override { return Status::NotImplemented("vfmt: build from path"); }
 private:
    int batch_;
    char format_;
};
class WBuilder : public WriterBuilder {
 public:
    WBuilder(std::shared_ptr<arrow::DataType> t, char format) : type_(std::move(t)), format_(format) {}
    WriterBuilder* WithMemoryPool(const std::shared_ptr<MemoryPool>&) override { return this; }
    Result<std::unique_ptr<FormatWriter>> Build(const std::shared_ptr<OutputStream>& out, const std::string&) override {
        return std::unique_ptr<FormatWriter>(new Writer(type_, out, format_));
    }
 private:
    std::shared_ptr<arrow::DataType> type_;
    char format_;
};

Timestamp ToTimestamp(int64_t v, int unit) {  // 0: s, 1: ms, 2: us, 3: ns
    static const int64_t per_milli[] = {0, 1, 1000, 1000000};
    if (unit == 0) return Timestamp(v * 1000, 0);
    int64_t ms = v / per_milli[unit], rest = v % per_milli[unit];
    if (rest < 0) ms--, rest += per_milli[unit];
    return Timestamp(ms, (int32_t)(rest * (1000000 / per_milli[unit])));
}

// The harness's own reading of a predicate on a row of a file.
int CompareWith(const arrow::Array& a, int64_t i, const Literal& l, bool* fits) {
    auto sign = [](auto x, auto y) { return x < y ? -1 : x > y ? 1 : 0; };
    *fits = true;
    FieldType t = l.GetType();
    switch (a.type_id()) {
        case arrow::Type::BOOL: if (t == FieldType::BOOLEAN) return sign(static_cast<const arrow::BooleanArray&>(a).Value(i), l.GetValue<bool>()); break;
        case arrow::Type::INT8: if (t == FieldType::TINYINT) return sign(static_cast<const arrow::Int8Array&>(a).Value(i), l.GetValue<int8_t>()); break;
        case arrow::Type::INT16: if (t == FieldType::SMALLINT) return sign(static_cast<const arrow::Int16Array&>(a).Value(i), l.GetValue<int16_t>()); break;
        case arrow::Type::INT32: if (t == FieldType::INT) return sign(static_cast<const arrow::Int32Array&>(a).Value(i), l.GetValue<int32_t>()); break;
        case arrow::Type::INT64: if (t == FieldType::BIGINT) return sign(static_cast<const arrow::Int64Array&>(a).Value(i), l.GetValue<int64_t>()); break;
        case arrow::Type::FLOAT: if (t == FieldType::FLOAT) return sign(static_cast<const arrow::FloatArray&>(a).Value(i), l.GetValue<float>()); break;
        case arrow::Type::DOUBLE: if (t == FieldType::DOUBLE) return sign(static_cast<const arrow::DoubleArray&>(a).Value(i), l.GetValue<double>()); break;
        case arrow::Type::DATE32: if (t == FieldType::DATE) return sign(static_cast<const arrow::Date32Array&>(a).Value(i), l.GetValue<int32_t>()); break;
        case arrow::Type::STRING: if (t == FieldType::STRING) return sign(std::string(static_cast<const arrow::StringArray&>(a).GetView(i)), l.GetValue<std::string>()); break;
        case arrow::Type::BINARY: if (t == FieldType::BINARY) return sign(std::string(static_cast<const arrow::BinaryArray&>(a).GetView(i)), l.GetValue<std::string>()); break;
        case arrow::Type::TIMESTAMP:
            if (t == FieldType::TIMESTAMP) {
                Timestamp x = ToTimestamp(static_cast<const arrow::TimestampArray&>(a).Value(i), (int)static_cast<const arrow::TimestampType&>(*a.type()).unit()), y = l.GetValue<Timestamp>();
                int r = sign(x.GetMillisecond(), y.GetMillisecond());
                return r ? r : sign(x.GetNanoOfMillisecond(), y.GetNanoOfMillisecond());
            }
            break;
        case arrow::Type::DECIMAL128:
            if (t == FieldType::DECIMAL) {
                arrow::Decimal128 v(static_cast<const arrow::Decimal128Array&>(a).GetValue(i));
                __int128 x = (__int128)(((unsigned __int128)(uint64_t)v.high_bits() << 64) | v.low_bits()), y = l.GetValue<Decimal>().Value();
                int sx = static_cast<const arrow::Decimal128Type&>(*a.type()).scale(), sy = l.GetValue<Decimal>().Scale();
                for (; sx < sy; sx++) x *= 10;
                for (; sy < sx; sy++) y *= 10;
                return sign(x, y);
            }
            break;
        default: break;
    }
    *fits = false;
    return 0;
}
Status RowMatches(const Predicate& p, const arrow::StructArray& d, int64_t row, bool* yes) {
    auto kind = p.GetFunction().GetType();
    if (auto* c = dynamic_cast<const CompoundPredicate*>(&p)) {
        bool all = kind == Function::Type::AND, out = all;
        for (auto& ch : c->Children()) {
            bool y;
            PAIMON_RETURN_NOT_OK(RowMatches(*ch, d, row, &y));
            out = all ? out && y : out || y;
        }
        *yes = out;
        return Status::OK();
    }
    auto* l = dynamic_cast<const LeafPredicate*>(&p);
    int f = d.struct_type()->GetFieldIndex(l->FieldName());
    if (f < 0) return Status::Invalid("vfmt: predicate on a column that is not in the file: " + l->FieldName());
    auto col = d.field(f);
    bool null = col->IsNull(row), any = false, fits = true;
    int first = 0;
    for (auto& lit : l->Literals()) {
        if (null) break;
        int r = CompareWith(*col, row, lit, &fits);
        if (!fits) return Status::Invalid("vfmt: predicate literal does not fit column " + l->FieldName() + " of type " + col->type()->ToString());
        if (&lit == &l->Literals()[0]) first = r;
        any = any || r == 0;
    }
    switch (kind) {
        case Function::Type::IS_NULL: *yes = null; break;
        case Function::Type::IS_NOT_NULL: *yes = !null; break;
        case Function::Type::EQUAL: *yes = !null && first == 0; break;
        case Function::Type::NOT_EQUAL: *yes = !null && first != 0; break;
        case Function::Type::GREATER_THAN: *yes = !null && first > 0; break;
        case Function::Type::GREATER_OR_EQUAL: *yes = !null && first >= 0; break;
        case Function::Type::LESS_THAN: *yes = !null && first < 0; break;
        case Function::Type::LESS_OR_EQUAL: *yes = !null && first <= 0; break;
        case Function::Type::IN: *yes = !null && any; break;
        case Function::Type::NOT_IN: *yes = !null && !any; break;
        default: return Status::Invalid("vfmt: unknown predicate");
    }
    return Status::OK();
}

template <typename A, typename T, typename F>
std::unique_ptr<ColumnStats> MinMax(const arrow::Array& col, F make) {
    const A& a = static_cast<const A&>(col);
    std::optional<T> lo, hi;
    int64_t nulls = 0;
    for (int64_t i = 0; i < a.length(); i++) {
        if (a.IsNull(i)) { nulls++; continue; }
        T v = T(a.GetView(i));
        if (v != v) continue;
        if (!lo || v < *lo) lo = v;
        if (!hi || v > *hi) hi = v;
    }
    return make(lo, hi, std::optional<int64_t>(nulls));
}
Result<std::unique_ptr<ColumnStats>> StatsOf(const arrow::Array& a) {
    switch (a.type_id()) {
        case arrow::Type::BOOL: {
            const auto& b = static_cast<const arrow::BooleanArray&>(a);
            std::optional<bool> lo, hi;
            int64_t nulls = 0;
            for (int64_t i = 0; i < b.length(); i++) {
                if (b.IsNull(i)) { nulls++; continue; }
                bool v = b.Value(i);
                if (!lo || v < *lo) lo = v;
                if (!hi || v > *hi) hi = v;
            }
            return ColumnStats::CreateBooleanColumnStats(lo, hi, nulls);
        }
        case arrow::Type::INT8: return MinMax<arrow::Int8Array, int8_t>(a, ColumnStats::CreateTinyIntColumnStats);
        case arrow::Type::INT16: return MinMax<arrow::Int16Array, int16_t>(a, ColumnStats::CreateSmallIntColumnStats);
        case arrow::Type::INT32: return MinMax<arrow::Int32Array, int32_t>(a, ColumnStats::CreateIntColumnStats);
        case arrow::Type::INT64: return MinMax<arrow::Int64Array, int64_t>(a, ColumnStats::CreateBigIntColumnStats);
        case arrow::Type::FLOAT: return MinMax<arrow::FloatArray, float>(a, ColumnStats::CreateFloatColumnStats);
        case arrow::Type::DOUBLE: return MinMax<arrow::DoubleArray, double>(a, ColumnStats::CreateDoubleColumnStats);
        case arrow::Type::DATE32: return MinMax<arrow::Date32Array, int32_t>(a, ColumnStats::CreateDateColumnStats);
        case arrow::Type::STRING: return MinMax<arrow::StringArray, std::string>(a, ColumnStats::CreateStringColumnStats);
        case arrow::Type::BINARY: return MinMax<arrow::BinaryArray, std::string>(a, ColumnStats::CreateStringColumnStats);
        case arrow::Type::LIST: return ColumnStats::CreateNestedColumnStats(FieldType::ARRAY, a.null_count());
        case arrow::Type::MAP: return ColumnStats::CreateNestedColumnStats(FieldType::MAP, a.null_count());
        case arrow::Type::STRUCT: return ColumnStats::CreateNestedColumnStats(FieldType::STRUCT, a.null_count());
        case arrow::Type::DECIMAL128: {
            const auto& t = static_cast<const arrow::Decimal128Type&>(*a.type());
            std::optional<Decimal> lo, hi;
            for (int64_t i = 0; i < a.length(); i++) {
                if (a.IsNull(i)) continue;
                arrow::Decimal128 v(static_cast<const arrow::Decimal128Array&>(a).GetValue(i));
                Decimal d(t.precision(), t.scale(), (__int128)(((unsigned __int128)(uint64_t)v.high_bits() << 64) | v.low_bits()));
                if (!lo || d.Value() < lo->Value()) lo = d;
                if (!hi || d.Value() > hi->Value()) hi = d;
            }
            return ColumnStats::CreateDecimalColumnStats(lo, hi, a.null_count(), t.precision(), t.scale());
        }
        case arrow::Type::TIMESTAMP: {
            auto unit = static_cast<const arrow::TimestampType&>(*a.type()).unit();
            std::optional<int64_t> lo, hi;
            for (int64_t i = 0; i < a.length(); i++) {
                if (a.IsNull(i)) continue;
                int64_t v = static_cast<const arrow::TimestampArray&>(a).Value(i);
                if (!lo || v < *lo) lo = v;
                if (!hi || v > *hi) hi = v;
            }
            std::optional<Timestamp> tlo, thi;
            if (lo) tlo = ToTimestamp(*lo, (int)unit), thi = ToTimestamp(*hi, (int)unit);
            return ColumnStats::CreateTimestampColumnStats(tlo, thi, a.null_count(), 3 * (int)unit);
        }
        default: return Status::NotImplemented("vfmt: stats of " + a.type()->ToString());
    }
}
class Extractor : public FormatStatsExtractor {
 public:
    explicit Extractor(char format) : format_(format) {}
    Result<ColumnStatsVector> Extract(const std::shared_ptr<FileSystem>& fs, const std::string& path, const std::shared_ptr<MemoryPool>& pool) override {
        PAIMON_ASSIGN_OR_RAISE(auto r, ExtractWithFileInfo(fs, path, pool));
        return std::move(r.first);
    }
    Result<std::pair<ColumnStatsVector, FileInfo>> ExtractWithFileInfo(const std::shared_ptr<FileSystem>& fs, const std::string& path, const std::shared_ptr<MemoryPool>&) override {
        PAIMON_ASSIGN_OR_RAISE(std::unique_ptr<InputStream> in, fs->Open(path));
        auto loaded = Load(in.get(), format_);
        Status closed = in->Close();
        if (!loaded.ok()) return loaded.status();
        PAIMON_RETURN_NOT_OK(closed);
        auto d = loaded.value();
        ColumnStatsVector v;
        for (int i = 0; i < d->num_fields(); i++) {
            PAIMON_ASSIGN_OR_RAISE(std::unique_ptr<ColumnStats> s, StatsOf(*d->field(i)));
            v.push_back(std::move(s));
        }
        return std::make_pair(std::move(v), FileInfo(d->length()));
    }
 private:
    char format_;
};
class Format : public FileFormat {
 public:
    explicit Format(std::string id) : id_(std::move(id)) {}
    const std::string& Identifier() const override { return id_; }
    Result<std::unique_ptr<ReaderBuilder>> CreateReaderBuilder(int32_t batch) const override { return std::unique_ptr<ReaderBuilder>(new RBuilder(batch, id_[0])); }
    Result<std::unique_ptr<WriterBuilder>> CreateWriterBuilder(::ArrowSchema* schema, int32_t) const override {
        PAIMON_ASSIGN_OR_RAISE_FROM_ARROW(std::shared_ptr<arrow::DataType> t, arrow::ImportType(schema));
        return std::unique_ptr<WriterBuilder>(new WBuilder(t, id_[0]));
    }
    Result<std::unique_ptr<FormatStatsExtractor>> CreateStatsExtractor(::ArrowSchema* schema) const override {
        if (schema && schema->release) schema->release(schema);
        return std::unique_ptr<FormatStatsExtractor>(new Extractor(id_[0]));
    }
 private:
    std::string id_;
};
// The real orc, parquet and avro plugins are not part of this build; the name decides only the file
// suffix and that one format does not read the files of another.
#define VF_FORMAT(cls, id)                                                                            \
    class cls : public FileFormatFactory {                                                            \
     public:                                                                                          \
        const char* Identifier() const override { return id; }                                        \
        Result<std::unique_ptr<FileFormat>> Create(const std::map<std::string, std::string>&) const override { \
            return std::unique_ptr<FileFormat>(new Format(id));                                       \
        }                                                                                             \
    };                                                                                                \
    REGISTER_PAIMON_FACTORY(cls)
VF_FORMAT(VfmtFactory, "vfmt");
VF_FORMAT(VorcFactory, "orc");
VF_FORMAT(VparquetFactory, "parquet");
VF_FORMAT(VavroFactory, "avro");

// ---- the file system with a say ----
std::mutex g_hook_m;
std::shared_ptr<FsHook> g_hook;
std::shared_ptr<FsHook> Hook() { std::lock_guard<std::mutex> l(g_hook_m); return g_hook; }
Status Ask(const char* op, const std::string& a, bool after, const std::string& b = "") {
    auto h = Hook();
    return h ? (*h)({op, a, b, after}) : Status::OK();
}
inline Status StatusOf(const Status& s) { return s; }
template <class T> Status StatusOf(const Result<T>& r) { return r.status(); }
template <class F> auto Do(const char* op, const std::string& a, F&& f, const std::string& b = "") -> decltype(f()) {
    Status s = Ask(op, a, false, b);
    if (!s.ok()) return s;
    auto r = f();
    if (!StatusOf(r).ok()) return r;
    s = Ask(op, a, true, b);
    if (!s.ok()) return s;
    return r;
}
class VIn : public InputStream {
 public:
    VIn(std::unique_ptr<InputStream> in, std::string p) : in_(std::move(in)), p_(std::move(p)) {}
    Status Seek(int64_t o, SeekOrigin w) override { return in_->Seek(o, w); }
    Result<int64_t> GetPos() const override { return in_->GetPos(); }
    Result<int32_t> Read(char* b, uint32_t n) override { return Do("read", p_, [&] { return in_->Read(b, n); }); }
    Result<int32_t> Read(char* b, uint32_t n, uint64_t o) override { return Do("read", p_, [&] { return in_->Read(b, n, o); }); }
    void ReadAsync(char* b, uint32_t n, uint64_t o, std::function<void(Status)>&& cb) override {
        Status s = Ask("read", p_, false);
        if (!s.ok()) return cb(s);
        in_->ReadAsync(b, n, o, std::move(cb));
    }
    Status Close() override { return in_->Close(); }
    Result<std::string> GetUri() const override { return in_->GetUri(); }
    Result<uint64_t> Length() const override { return in_->Length(); }
 private:
    std::unique_ptr<InputStream> in_;
    std::string p_;
};
class VOut : public OutputStream {
 public:
    VOut(std::unique_ptr<OutputStream> out, std::string p) : out_(std::move(out)), p_(std::move(p)) {}
    Result<int64_t> GetPos() const override { return out_->GetPos(); }
    Result<int32_t> Write(const char* b, uint32_t n) override { return Do("write", p_, [&] { return out_->Write(b, n); }); }
    Status Flush() override { return Do("flush", p_, [&] { return out_->Flush(); }); }
    Status Close() override {
        Status s = Ask("close", p_, false);
        Status r = out_->Close();
        return s.ok() ? r : s;
    }
    Result<std::string> GetUri() const override { return out_->GetUri(); }
 private:
    std::unique_ptr<OutputStream> out_;
    std::string p_;
};
class Vfs : public FileSystem {
 public:
    explicit Vfs(std::unique_ptr<FileSystem> fs) : fs_(std::move(fs)) {}
    Result<std::unique_ptr<InputStream>> Open(const std::string& p) const override {
        return Do("open", p, [&]() -> Result<std::unique_ptr<InputStream>> {
            auto r = fs_->Open(p);
            if (!r.ok()) return r.status();
            return std::unique_ptr<InputStream>(new VIn(std::move(r).value(), p));
        });
    }
    Result<std::unique_ptr<OutputStream>> Create(const std::string& p, bool overwrite) const override {
        return Do("create", p, [&]() -> Result<std::unique_ptr<OutputStream>> {
            auto r = fs_->Create(p, overwrite);
            if (!r.ok()) return r.status();
            return std::unique_ptr<OutputStream>(new VOut(std::move(r).value(), p));
        });
    }
    Status Mkdirs(const std::string& p) const override { return Do("mkdirs", p, [&] { return fs_->Mkdirs(p); }); }
    Status Rename(const std::string& a, const std::string& b) const override { return Do("rename", a, [&] { return fs_->Rename(a, b); }, b); }
    Status Delete(const std::string& p, bool recursive) const override { return Do("delete", p, [&] { return fs_->Delete(p, recursive); }); }
    Result<std::unique_ptr<FileStatus>> GetFileStatus(const std::string& p) const override { return Do("status", p, [&] { return fs_->GetFileStatus(p); }); }
    Status ListDir(const std::string& p, std::vector<std::unique_ptr<BasicFileStatus>>* l) const override { return Do("list", p, [&] { return fs_->ListDir(p, l); }); }
    Status ListFileStatus(const std::string& p, std::vector<std::unique_ptr<FileStatus>>* l) const override { return Do("list", p, [&] { return fs_->ListFileStatus(p, l); }); }
    Result<bool> Exists(const std::string& p) const override { return Do("exists", p, [&] { return fs_->Exists(p); }); }
 private:
    std::unique_ptr<FileSystem> fs_;
};
class VfsFactory : public FileSystemFactory {
 public:
    const char* Identifier() const override { return "vfs"; }
    Result<std::unique_ptr<FileSystem>> Create(const std::string& path, const std::map<std::string, std::string>& options) const override {
        auto r = FileSystemFactory::Get("local", path, options);
        if (!r.ok()) return r.status();
        return std::unique_ptr<FileSystem>(new Vfs(std::move(r).value()));
    }
};
REGISTER_PAIMON_FACTORY(VfsFactory);
}  // namespace

void SetFsHook(FsHook hook) {
    std::lock_guard<std::mutex> l(g_hook_m);
    g_hook = hook ? std::make_shared<FsHook>(std::move(hook)) : nullptr;
}

std::string Show(const Row& r) {
    std::string s = "(";
    for (size_t i = 0; i < r.size(); i++) s += (i ? "," : "") + (r[i] ? *r[i] : std::string("null"));
    return s + ")";
}
void Forget() { std::lock_guard<std::mutex> l(g_mu); Store().clear(); }
void SetReaderBatch(int rows) { g_batch = rows; }
void SetStripeRows(int rows) { g_stripe = rows; }
void SetPreciseSelection(bool on) { g_precise = on; }
int64_t BytesPerRow() { return g_bytes_per_row; }
void SetBytesPerRow(int64_t n) { g_bytes_per_row = n; }

static __int128 ToInt128(const std::string& t) {
    __int128 v = 0;
    for (char ch : t) if (ch != '-') v = v * 10 + (ch - '0');
    return t[0] == '-' ? -v : v;
}
static void AppendCell(arrow::ArrayBuilder* b, const Cell& cell) {
    arrow::Status st;
    if (!cell) { st = b->AppendNull(); }
    else switch (b->type()->id()) {
        case arrow::Type::BOOL: st = static_cast<arrow::BooleanBuilder*>(b)->Append(*cell == "true"); break;
        case arrow::Type::INT8: st = static_cast<arrow::Int8Builder*>(b)->Append((int8_t)std::stol(*cell)); break;
        case arrow::Type::INT16: st = static_cast<arrow::Int16Builder*>(b)->Append((int16_t)std::stol(*cell)); break;
        case arrow::Type::INT32: st = static_cast<arrow::Int32Builder*>(b)->Append((int32_t)std::stol(*cell)); break;
        case arrow::Type::INT64: st = static_cast<arrow::Int64Builder*>(b)->Append((int64_t)std::stoll(*cell)); break;
        case arrow::Type::FLOAT: st = static_cast<arrow::FloatBuilder*>(b)->Append(std::stof(*cell)); break;
        case arrow::Type::DOUBLE: st = static_cast<arrow::DoubleBuilder*>(b)->Append(std::stod(*cell)); break;
        case arrow::Type::DATE32: st = static_cast<arrow::Date32Builder*>(b)->Append((int32_t)std::stol(*cell)); break;
        case arrow::Type::STRING: st = static_cast<arrow::StringBuilder*>(b)->Append(*cell); break;
        case arrow::Type::BINARY: st = static_cast<arrow::BinaryBuilder*>(b)->Append(*cell); break;
        case arrow::Type::LARGE_BINARY: st = static_cast<arrow::LargeBinaryBuilder*>(b)->Append(*cell); break;
        case arrow::Type::TIMESTAMP: st = static_cast<arrow::TimestampBuilder*>(b)->Append((int64_t)std::stoll(*cell)); break;
        case arrow::Type::DECIMAL128: {
            __int128 v = ToInt128(*cell);
            st = static_cast<arrow::Decimal128Builder*>(b)->Append(arrow::Decimal128((int64_t)(v >> 64), (uint64_t)v));
            break;
        }
        default: fprintf(stderr, "tab: no cell for %s\n", b->type()->ToString().c_str()); abort();
    }
    if (!st.ok()) { fprintf(stderr, "tab: %s\n", st.ToString().c_str()); abort(); }
}
std::shared_ptr<arrow::Array> MakeArray(const std::shared_ptr<arrow::Schema>& schema, const std::vector<Row>& rows) {
    arrow::ArrayVector cols;
    for (int f = 0; f < schema->num_fields(); f++) {
        std::unique_ptr<arrow::ArrayBuilder> b;
        auto st = arrow::MakeBuilder(arrow::default_memory_pool(), schema->field(f)->type(), &b);
        if (!st.ok()) abort();
        for (auto& r : rows) AppendCell(b.get(), r[f]);
        std::shared_ptr<arrow::Array> a;
        if (!b->Finish(&a).ok()) abort();
        cols.push_back(a);
    }
    return arrow::StructArray::Make(cols, schema->fields()).ValueOrDie();
}
std::string CellText(const arrow::Array& a, int64_t i, bool* is_null) {
    *is_null = a.IsNull(i);
    if (*is_null) return "";
    switch (a.type_id()) {
        case arrow::Type::BOOL: return static_cast<const arrow::BooleanArray&>(a).Value(i) ? "true" : "false";
        case arrow::Type::INT8: return std::to_string(static_cast<const arrow::Int8Array&>(a).Value(i));
        case arrow::Type::INT16: return std::to_string(static_cast<const arrow::Int16Array&>(a).Value(i));
        case arrow::Type::INT32: return std::to_string(static_cast<const arrow::Int32Array&>(a).Value(i));
        case arrow::Type::INT64: return std::to_string(static_cast<const arrow::Int64Array&>(a).Value(i));
        case arrow::Type::FLOAT: { char s[40]; snprintf(s, sizeof s, "%.9g", static_cast<const arrow::FloatArray&>(a).Value(i)); return s; }
        case arrow::Type::DOUBLE: { char s[40]; snprintf(s, sizeof s, "%.17g", static_cast<const arrow::DoubleArray&>(a).Value(i)); return s; }
        case arrow::Type::DATE32: return std::to_string(static_cast<const arrow::Date32Array&>(a).Value(i));
        case arrow::Type::STRING: return std::string(static_cast<const arrow::StringArray&>(a).GetView(i));
        case arrow::Type::BINARY: return std::string(static_cast<const arrow::BinaryArray&>(a).GetView(i));
        case arrow::Type::LARGE_BINARY: return std::string(static_cast<const arrow::LargeBinaryArray&>(a).GetView(i));
        case arrow::Type::TIMESTAMP: return std::to_string(static_cast<const arrow::TimestampArray&>(a).Value(i));
        case arrow::Type::DECIMAL128: return arrow::Decimal128(static_cast<const arrow::Decimal128Array&>(a).GetValue(i)).ToIntegerString();
        case arrow::Type::DICTIONARY: {
            const auto& d = static_cast<const arrow::DictionaryArray&>(a);
            return CellText(*d.dictionary(), d.GetValueIndex(i), is_null);
        }
        default: return "?" + a.type()->ToString();
    }
}
std::vector<Row> ToRows(const arrow::StructArray& a) {
    std::vector<Row> rows(a.length());
    for (int f = 0; f < a.num_fields(); f++) {
        auto col = a.field(f);
        for (int64_t i = 0; i < a.length(); i++) {
            bool null;
            std::string s = CellText(*col, i, &null);
            rows[i].push_back(null ? Cell() : Cell(s));
        }
    }
    return rows;
}

Opts Table::WithFormat(const Opts& more) const {
    Opts o = spec_.options;
    for (auto& kv : more) o[kv.first] = kv.second;
    o.emplace(Options::FILE_FORMAT, "vfmt");
    o.emplace(Options::MANIFEST_FORMAT, "vfmt");
    o.emplace(Options::FILE_SYSTEM, "local");
    return o;
}
std::unique_ptr<Table> Table::At(const std::string& path, const Spec& spec) {
    auto t = std::make_unique<Table>();
    t->path_ = path;
    t->spec_ = spec;
    return t;
}
Result<std::unique_ptr<Table>> Table::Create(const std::string& warehouse, const Spec& spec) {
    auto t = At(warehouse + "/db.db/t", spec);
    Opts o = t->WithFormat();
    PAIMON_ASSIGN_OR_RAISE(std::unique_ptr<Catalog> catalog, Catalog::Create(warehouse, o));
    PAIMON_RETURN_NOT_OK(catalog->CreateDatabase("db", {}, /*ignore_if_exists=*/true));
    ::ArrowSchema s;
    PAIMON_RETURN_NOT_OK_FROM_ARROW(arrow::ExportSchema(*spec.schema, &s));
    PAIMON_RETURN_NOT_OK(catalog->CreateTable(Identifier("db", "t"), &s, spec.partition_keys, spec.primary_keys, o, false));
    return t;
}
Result<std::unique_ptr<FileStoreWrite>> Table::NewWrite(const std::string& user, bool streaming, bool ignore_previous, const Opts& more) const {
    WriteContextBuilder b(path_, user);
    b.SetOptions(WithFormat(more)).WithStreamingMode(streaming).WithIgnorePreviousFiles(ignore_previous);
    PAIMON_ASSIGN_OR_RAISE(std::unique_ptr<WriteContext> ctx, b.Finish());
    return FileStoreWrite::Create(std::move(ctx));
}
Result<std::unique_ptr<FileStoreCommit>> Table::NewCommit(const std::string& user, bool ignore_empty, const Opts& more) const {
    CommitContextBuilder b(path_, user);
    Opts o = WithFormat(more);
    o["enable-pk-commit-in-inte-test"] = "";
    PAIMON_ASSIGN_OR_RAISE(std::unique_ptr<CommitContext> ctx, b.SetOptions(o).IgnoreEmptyCommit(ignore_empty).Finish());
    return FileStoreCommit::Create(std::move(ctx));
}
Result<std::unique_ptr<RecordBatch>> Table::Batch(const std::vector<Row>& rows, const std::vector<RecordBatch::RowKind>& kinds, const Opts& partition, int bucket) const {
    ::ArrowArray a;
    PAIMON_RETURN_NOT_OK_FROM_ARROW(arrow::ExportArray(*MakeArray(spec_.schema, rows), &a));
    RecordBatchBuilder b(&a);
    return b.SetPartition(partition).SetBucket(bucket).SetRowKinds(kinds).Finish();
}
Result<std::unique_ptr<TableScan>> Table::NewScan(bool streaming, const Opts& more, const std::shared_ptr<Predicate>& predicate, const std::vector<Opts>& partitions, std::optional<int> bucket, std::optional<int> limit) const {
    ScanContextBuilder b(path_);
    b.WithStreamingMode(streaming).SetOptions(WithFormat(more));
    if (predicate) b.SetPredicate(predicate);
    if (!partitions.empty()) b.SetPartitionFilter(partitions);
    if (bucket) b.SetBucketFilter(*bucket);
    if (limit) b.SetLimit(*limit);
    PAIMON_ASSIGN_OR_RAISE(std::unique_ptr<ScanContext> ctx, b.Finish());
    return TableScan::Create(std::move(ctx));
}
Result<std::vector<Row>> Table::Read(const std::vector<std::shared_ptr<Split>>& splits, const ReadSpec& rs) const {
    ReadContextBuilder b(path_);
    b.SetOptions(WithFormat(rs.options));
    if (!rs.columns.empty()) b.SetReadSchema(rs.columns);
    if (rs.predicate) b.SetPredicate(rs.predicate);
    b.EnablePredicateFilter(rs.filter).EnablePrefetch(rs.prefetch).EnableMultiThreadRowToBatch(rs.multi_thread);
    if (rs.multi_thread) b.SetRowToBatchThreadNumber(3);
    PAIMON_ASSIGN_OR_RAISE(std::unique_ptr<ReadContext> ctx, b.Finish());
    PAIMON_ASSIGN_OR_RAISE(std::unique_ptr<TableRead> read, TableRead::Create(std::move(ctx)));
    PAIMON_ASSIGN_OR_RAISE(std::unique_ptr<BatchReader> reader, read->CreateReader(splits));
    std::vector<Row> out;
    while (true) {
        auto next = reader->NextBatch();
        if (!next.ok() && getenv("VF_DUMP")) fprintf(stderr, "read: %s\n", next.status().ToString().c_str());
        PAIMON_ASSIGN_OR_RAISE(BatchReader::ReadBatch batch, std::move(next));
        if (BatchReader::IsEofBatch(batch)) break;
        PAIMON_ASSIGN_OR_RAISE_FROM_ARROW(std::shared_ptr<arrow::Array> a, arrow::ImportArray(batch.first.get(), batch.second.get()));
        auto s = AsStruct(a);
        if (!s) return Status::Invalid("tab: result is not a struct");
        for (auto& r : ToRows(*s)) out.push_back(std::move(r));
    }
    reader->Close();
    return out;
}
Result<std::vector<Row>> Table::ReadSnapshot(std::optional<int64_t> snapshot) const {
    Opts o;
    if (snapshot) {
        o[Options::SCAN_MODE] = "from-snapshot";
        o[Options::SCAN_SNAPSHOT_ID] = std::to_string(*snapshot);
    }
    PAIMON_ASSIGN_OR_RAISE(std::unique_ptr<TableScan> scan, NewScan(false, o));
    PAIMON_ASSIGN_OR_RAISE(std::shared_ptr<Plan> plan, scan->CreatePlan());
    return Read(plan->Splits());
}
}  // namespace tab

// The library makes several default executors per operation and uses few of them. Here each starts
// its threads at its first task.
namespace paimon {
namespace {
class LazyExecutor : public Executor {
 public:
    void Add(std::function<void()> func) override {
        Executor* e;
        {
            std::lock_guard<std::mutex> l(m_);
            if (!real_) real_ = CreateDefaultExecutor(DEFAULT_EXECUTOR_THREAD_COUNT);
            e = real_.get();
        }
        e->Add(std::move(func));
    }

 private:
    std::mutex m_;
    std::unique_ptr<Executor> real_;
};
}  // namespace
std::unique_ptr<Executor> CreateDefaultExecutor() { return std::make_unique<LazyExecutor>(); }
}  // namespace paimon

// The nodes of concurrent maps come from the ordinary allocator, which the sanitizers know.
namespace tbb::detail::r1 {
__attribute__((visibility("default"))) void* allocate_memory(std::size_t size) { return malloc(size ? size : 1); }
__attribute__((visibility("default"))) void deallocate_memory(void* p) { free(p); }
}  // namespace tbb::detail::r1
