// Implementation of the Arrow stand-in; see arrow/mini.h.
#include <cinttypes>
#include <cstdlib>
#include <ctime>

#include "arrow/mini.h"

namespace arrow {

std::string Status::ToString() const {
    static const std::map<StatusCode, std::string> names = {
        {StatusCode::OK, "OK"}, {StatusCode::OutOfMemory, "Out of memory"}, {StatusCode::KeyError, "Key error"},
        {StatusCode::TypeError, "Type error"}, {StatusCode::Invalid, "Invalid"}, {StatusCode::IOError, "IOError"},
        {StatusCode::CapacityError, "Capacity error"}, {StatusCode::IndexError, "Index error"},
        {StatusCode::Cancelled, "Cancelled"}, {StatusCode::UnknownError, "Unknown error"},
        {StatusCode::NotImplemented, "NotImplemented"}, {StatusCode::SerializationError, "Serialization error"}};
    auto it = names.find(code_);
    std::string n = it == names.end() ? "Unknown" : it->second;
    return ok() ? n : n + ": " + msg_;
}

namespace {
class SystemPool : public MemoryPool {
 public:
    Status Allocate(int64_t size, int64_t alignment, uint8_t** out) override {
        void* p = nullptr;
        if (posix_memalign(&p, std::max<int64_t>(alignment, 8), std::max<int64_t>(size, 1)) != 0)
            return Status::OutOfMemory("malloc of size ", size, " failed");
        *out = static_cast<uint8_t*>(p);
        stats_.DidAllocateBytes(size);
        return Status::OK();
    }
    Status Reallocate(int64_t o, int64_t n, int64_t alignment, uint8_t** ptr) override {
        uint8_t* q = nullptr;
        ARROW_RETURN_NOT_OK(Allocate(n, alignment, &q));
        if (*ptr) {
            std::memcpy(q, *ptr, std::min(o, n));
            Free(*ptr, o, alignment);
        }
        *ptr = q;
        return Status::OK();
    }
    void Free(uint8_t* b, int64_t size, int64_t) override {
        std::free(b);
        stats_.DidFreeBytes(size);
    }
    int64_t bytes_allocated() const override { return stats_.bytes_allocated(); }
    int64_t max_memory() const override { return stats_.max_memory(); }
    int64_t total_bytes_allocated() const override { return stats_.total_bytes_allocated(); }
    int64_t num_allocations() const override { return stats_.num_allocations(); }
    std::string backend_name() const override { return "system"; }

 private:
    internal::MemoryPoolStats stats_;
};

class PoolBuffer : public Buffer {
 public:
    PoolBuffer(uint8_t* d, int64_t n, MemoryPool* p) : Buffer(d, n), pool_(p) {}
    ~PoolBuffer() override {
        if (data_) pool_->Free(data_, size_, 64);
    }

 private:
    MemoryPool* pool_;
};
}  // namespace

MemoryPool* default_memory_pool() {
    static SystemPool* p = new SystemPool;
    return p;
}

std::shared_ptr<Buffer> Buffer::FromString(std::string s) {
    auto keep = std::make_shared<std::string>(std::move(s));
    return std::make_shared<Buffer>(reinterpret_cast<const uint8_t*>(keep->data()), keep->size(), keep);
}

Result<std::unique_ptr<Buffer>> AllocateBuffer(int64_t size, MemoryPool* pool) {
    uint8_t* p = nullptr;
    if (size > 0) {
        ARROW_RETURN_NOT_OK(pool->Allocate(size, 64, &p));
        if (p == nullptr) return Status::OutOfMemory("allocation of ", size, " bytes failed");
        std::memset(p, 0, size);
    }
    return std::unique_ptr<Buffer>(new PoolBuffer(p, size, pool));
}

std::string KeyValueMetadata::ToString() const {
    std::ostringstream os;
    os << "\n-- metadata --";
    for (int64_t i = 0; i < size(); ++i) os << "\n" << k_[i] << ": " << v_[i];
    return os.str();
}

// ---------------------------------------------------------------- types
namespace internal {
std::string ToString(Type::type id) {
    switch (id) {
#define C(X) case Type::X: return #X;
        C(NA) C(BOOL) C(UINT8) C(INT8) C(UINT16) C(INT16) C(UINT32) C(INT32) C(UINT64) C(INT64) C(HALF_FLOAT)
        C(FLOAT) C(DOUBLE) C(STRING) C(BINARY) C(FIXED_SIZE_BINARY) C(DATE32) C(DATE64) C(TIMESTAMP) C(TIME32)
        C(TIME64) C(DECIMAL128) C(DECIMAL256) C(LIST) C(STRUCT) C(DICTIONARY) C(MAP) C(LARGE_STRING) C(LARGE_BINARY) C(LARGE_LIST)
#undef C
        default: return "type " + std::to_string(static_cast<int>(id));
    }
}
std::string ToString(TimeUnit::type u) {
    switch (u) {
        case TimeUnit::SECOND: return "s";
        case TimeUnit::MILLI: return "ms";
        case TimeUnit::MICRO: return "us";
        default: return "ns";
    }
}
template <typename T>
static bool ParseReal(const char* s, size_t n, T* out) {
    if (n == 0) return false;
    std::string t(s, n);
    if (std::isspace(static_cast<unsigned char>(t[0])) || t.find_first_of("xX(") != std::string::npos) return false;
    char* e = nullptr;
    if constexpr (std::is_same_v<T, float>) *out = std::strtof(t.c_str(), &e);
    else *out = std::strtod(t.c_str(), &e);
    return e == t.c_str() + t.size();
}
bool StringToFloat(const char* s, size_t n, char, float* out) { return ParseReal(s, n, out); }
bool StringToFloat(const char* s, size_t n, char, double* out) { return ParseReal(s, n, out); }
uint32_t crc32(uint32_t prev, const void* data, size_t n) {
    uint32_t c = ~prev;
    auto* p = static_cast<const uint8_t*>(data);
    for (size_t i = 0; i < n; ++i) {
        c ^= p[i];
        for (int k = 0; k < 8; ++k) c = (c >> 1) ^ (0xEDB88320u & (0u - (c & 1)));
    }
    return ~c;
}
}  // namespace internal

bool Field::Equals(const Field& o, bool md) const {
    if (name_ != o.name_ || nullable_ != o.nullable_ || !type_->Equals(*o.type_, md)) return false;
    if (!md) return true;
    if (HasMetadata() != o.HasMetadata()) return false;
    return !HasMetadata() || md_->Equals(*o.md_);
}
std::string Field::ToString(bool md) const {
    return name_ + ": " + type_->ToString(md) + (nullable_ ? "" : " not null") + (md && md_ ? md_->ToString() : "");
}
bool Schema::Equals(const Schema& o, bool md) const {
    if (num_fields() != o.num_fields()) return false;
    for (int i = 0; i < num_fields(); ++i) if (!f_[i]->Equals(*o.f_[i], md)) return false;
    if (!md) return true;
    if (HasMetadata() != o.HasMetadata()) return false;
    return !HasMetadata() || md_->Equals(*o.md_);
}
std::string Schema::ToString(bool md) const {
    std::string r;
    for (auto& f : f_) r += (r.empty() ? "" : "\n") + f->ToString(md);
    if (md && md_) r += md_->ToString();
    return r;
}
bool DataType::Equals(const DataType& o, bool md) const {
    if (this == &o) return true;
    if (id_ != o.id_) return false;
    switch (id_) {
        case Type::TIMESTAMP: {
            auto &a = dynamic_cast<const TimestampType&>(*this), &b = dynamic_cast<const TimestampType&>(o);
            return a.unit() == b.unit() && a.timezone() == b.timezone();
        }
        case Type::DECIMAL128: {
            auto &a = dynamic_cast<const DecimalType&>(*this), &b = dynamic_cast<const DecimalType&>(o);
            return a.precision() == b.precision() && a.scale() == b.scale();
        }
        case Type::FIXED_SIZE_BINARY:
            return dynamic_cast<const FixedSizeBinaryType&>(*this).byte_width() == dynamic_cast<const FixedSizeBinaryType&>(o).byte_width();
        case Type::DICTIONARY: {
            auto &a = dynamic_cast<const DictionaryType&>(*this), &b = dynamic_cast<const DictionaryType&>(o);
            return a.ordered() == b.ordered() && a.index_type()->Equals(*b.index_type()) && a.value_type()->Equals(*b.value_type());
        }
        case Type::LIST:
            // child field names are not part of a list type's identity unless metadata is compared
            if (md && children_[0]->name() != o.field(0)->name()) return false;
            return children_[0]->nullable() == o.field(0)->nullable() && children_[0]->type()->Equals(*o.field(0)->type(), md);
        case Type::MAP: {
            auto &a = dynamic_cast<const MapType&>(*this), &b = dynamic_cast<const MapType&>(o);
            return a.keys_sorted() == b.keys_sorted() && a.key_type()->Equals(*b.key_type(), md) &&
                   a.item_field()->nullable() == b.item_field()->nullable() && a.item_type()->Equals(*b.item_type(), md);
        }
        default: break;
    }
    if (num_fields() != o.num_fields()) return false;
    for (int i = 0; i < num_fields(); ++i) if (!children_[i]->Equals(*o.field(i), md)) return false;
    return true;
}
ListType::ListType(const std::shared_ptr<DataType>& t) : ListType(arrow::field("item", t), Type::LIST) {}
static std::shared_ptr<Field> Entries(std::shared_ptr<Field> k, std::shared_ptr<Field> v) {
    return field("entries", struct_({std::move(k), std::move(v)}), false);
}
MapType::MapType(const std::shared_ptr<DataType>& k, const std::shared_ptr<DataType>& v, bool s)
    : MapType(arrow::field("key", k, false), arrow::field("value", v), s) {}
MapType::MapType(const std::shared_ptr<DataType>& k, const std::shared_ptr<Field>& v, bool s)
    : MapType(arrow::field("key", k, false), v, s) {}
MapType::MapType(const std::shared_ptr<Field>& k, const std::shared_ptr<Field>& v, bool s)
    : ListType(Entries(k, v), Type::MAP), sorted_(s) {}
std::string MapType::ToString(bool m) const {
    return "map<" + key_type()->ToString(m) + ", " + item_type()->ToString(m) + (item_field()->nullable() ? "" : " not null") + ">";
}
std::string StructType::ToString(bool m) const {
    std::string r = "struct<";
    for (size_t i = 0; i < children_.size(); ++i) r += (i ? ", " : "") + children_[i]->ToString(m);
    return r + ">";
}
std::vector<int> StructType::GetAllFieldIndices(const std::string& n) const {
    std::vector<int> r;
    for (int i = 0; i < num_fields(); ++i) if (children_[i]->name() == n) r.push_back(i);
    return r;
}
int StructType::GetFieldIndex(const std::string& n) const {
    auto v = GetAllFieldIndices(n);
    return v.size() == 1 ? v[0] : -1;
}
std::shared_ptr<Field> StructType::GetFieldByName(const std::string& n) const {
    int i = GetFieldIndex(n);
    return i < 0 ? nullptr : children_[i];
}
#define F(N, T) const std::shared_ptr<DataType>& N() { static auto* t = new std::shared_ptr<DataType>(std::make_shared<T>()); return *t; }
F(null, NullType) F(boolean, BooleanType) F(int8, Int8Type) F(int16, Int16Type) F(int32, Int32Type) F(int64, Int64Type)
F(uint8, UInt8Type) F(uint16, UInt16Type) F(uint32, UInt32Type) F(uint64, UInt64Type) F(float32, FloatType)
F(float64, DoubleType) F(utf8, StringType) F(binary, BinaryType) F(large_utf8, LargeStringType)
F(large_binary, LargeBinaryType) F(date32, Date32Type) F(date64, Date64Type)
#undef F
std::shared_ptr<DataType> timestamp(TimeUnit::type u) { return std::make_shared<TimestampType>(u); }
std::shared_ptr<DataType> timestamp(TimeUnit::type u, const std::string& tz) { return std::make_shared<TimestampType>(u, tz); }
std::shared_ptr<DataType> decimal128(int32_t p, int32_t s) { return std::make_shared<Decimal128Type>(p, s); }
std::shared_ptr<DataType> decimal(int32_t p, int32_t s) { return decimal128(p, s); }
std::shared_ptr<DataType> fixed_size_binary(int32_t w) { return std::make_shared<FixedSizeBinaryType>(w); }
std::shared_ptr<DataType> list(const std::shared_ptr<DataType>& t) { return std::make_shared<ListType>(t); }
std::shared_ptr<DataType> list(const std::shared_ptr<Field>& f) { return std::make_shared<ListType>(f); }
std::shared_ptr<DataType> map(std::shared_ptr<DataType> k, std::shared_ptr<DataType> v, bool s) { return std::make_shared<MapType>(k, v, s); }
std::shared_ptr<DataType> map(std::shared_ptr<DataType> k, std::shared_ptr<Field> v, bool s) { return std::make_shared<MapType>(k, v, s); }
std::shared_ptr<DataType> map(std::shared_ptr<Field> k, std::shared_ptr<Field> v, bool s) { return std::make_shared<MapType>(k, v, s); }
std::shared_ptr<DataType> struct_(const FieldVector& f) { return std::make_shared<StructType>(f); }
std::shared_ptr<DataType> dictionary(const std::shared_ptr<DataType>& i, const std::shared_ptr<DataType>& v, bool o) { return std::make_shared<DictionaryType>(i, v, o); }
std::shared_ptr<Field> field(std::string n, std::shared_ptr<DataType> t, bool nullable, std::shared_ptr<const KeyValueMetadata> md) {
    return std::make_shared<Field>(std::move(n), std::move(t), nullable, std::move(md));
}
std::shared_ptr<Field> field(std::string n, std::shared_ptr<DataType> t, std::shared_ptr<const KeyValueMetadata> md) {
    return std::make_shared<Field>(std::move(n), std::move(t), true, std::move(md));
}

// ---------------------------------------------------------------- decimals
BasicDecimal128 BasicDecimal128::GetScaleMultiplier(int32_t s) {
    i128 r = 1;
    for (int i = 0; i < s; ++i) r *= 10;
    return From(r);
}
bool BasicDecimal128::FitsInPrecision(int32_t p) const {
    auto a = *this;
    a.Abs();
    return v_ != GetMinSentinel().v_ && a.v_ < GetScaleMultiplier(p).v_;
}
DecimalStatus BasicDecimal128::Rescale(int32_t from, int32_t to, BasicDecimal128* out) const {
    int32_t d = to - from;
    if (d == 0 || v_ == 0) { *out = *this; return DecimalStatus::kSuccess; }
    i128 m = GetScaleMultiplier(std::abs(d)).v_;
    if (d < 0) {
        out->v_ = v_ / m;
        return v_ % m == 0 ? DecimalStatus::kSuccess : DecimalStatus::kRescaleDataLoss;
    }
    *out = *this;
    *out *= From(m);
    bool loss = v_ < 0 ? out->v_ > v_ : out->v_ < v_;
    return loss ? DecimalStatus::kRescaleDataLoss : DecimalStatus::kSuccess;
}
BasicDecimal128 BasicDecimal128::ReduceScaleBy(int32_t by, bool round) const {
    if (by == 0) return *this;
    i128 m = GetScaleMultiplier(by).v_, q = v_ / m, r = v_ % m;
    if (round) {
        i128 h = m / 2, ra = r < 0 ? -r : r;
        if (ra >= h) q += v_ < 0 ? -1 : 1;
    }
    return From(q);
}
std::string Decimal128::ToIntegerString() const {
    unsigned __int128 u = v_ < 0 ? -static_cast<unsigned __int128>(v_) : static_cast<unsigned __int128>(v_);
    std::string s;
    do { s.insert(s.begin(), static_cast<char>('0' + static_cast<int>(u % 10))); u /= 10; } while (u);
    return v_ < 0 ? "-" + s : s;
}
std::string Decimal128::ToString(int32_t scale) const {
    std::string s = ToIntegerString();
    if (scale == 0) return s;
    int32_t neg = s[0] == '-', len = static_cast<int32_t>(s.size()), digits = len - neg, exp = digits - 1 - scale;
    if (scale < 0 || exp < -6) {
        s.insert(s.begin() + 1 + neg, '.');
        return s + "E" + (exp >= 0 ? "+" : "") + std::to_string(exp);
    }
    if (digits > scale) { s.insert(s.begin() + (len - scale), '.'); return s; }
    s.insert(neg, scale - digits + 2, '0');
    s[neg + 1] = '.';
    return s;
}
Status Decimal128::FromString(std::string_view s, Decimal128* out, int32_t* p, int32_t* sc) {
    auto bad = [&] { return Status::Invalid("The string '", std::string(s), "' is not a valid decimal128 number"); };
    size_t i = 0;
    bool neg = false;
    if (i < s.size() && (s[i] == '+' || s[i] == '-')) neg = s[i++] == '-';
    std::string whole, frac;
    while (i < s.size() && isdigit(static_cast<unsigned char>(s[i]))) whole += s[i++];
    if (i < s.size() && s[i] == '.') {
        ++i;
        while (i < s.size() && isdigit(static_cast<unsigned char>(s[i]))) frac += s[i++];
    }
    if (whole.empty() && frac.empty()) return bad();
    int32_t exp = 0;
    if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) {
        ++i;
        bool en = false;
        if (i < s.size() && (s[i] == '+' || s[i] == '-')) en = s[i++] == '-';
        if (i >= s.size()) return bad();
        int64_t e = 0;
        while (i < s.size() && isdigit(static_cast<unsigned char>(s[i]))) { e = std::min<int64_t>(e * 10 + (s[i++] - '0'), 1000000); }
        exp = static_cast<int32_t>(en ? -e : e);
    }
    if (i != s.size()) return bad();
    size_t nz = whole.find_first_not_of('0');
    std::string w = nz == std::string::npos ? "" : whole.substr(nz);
    std::string digits = w + frac;
    int32_t parsed_scale = static_cast<int32_t>(frac.size()) - exp;
    int32_t significant = static_cast<int32_t>(frac.size() + w.size());
    int32_t precision = significant;
    unsigned __int128 v = 0;
    if (digits.size() > 38) return Status::Invalid("The string '", std::string(s), "' cannot be represented as decimal128");
    for (char c : digits) v = v * 10 + (c - '0');
    __int128 r = static_cast<__int128>(v);
    if (parsed_scale < 0) {
        if (-parsed_scale > 38) return Status::Invalid("The string '", std::string(s), "' cannot be represented as decimal128");
        r *= GetScaleMultiplier(-parsed_scale).raw();
        precision -= parsed_scale;
        parsed_scale = 0;
    }
    if (out) *out = Decimal128(BasicDecimal128::From(neg ? -r : r));
    if (p) *p = precision;
    if (sc) *sc = parsed_scale;
    return Status::OK();
}
Result<Decimal128> Decimal128::FromString(std::string_view s) {
    Decimal128 d;
    ARROW_RETURN_NOT_OK(FromString(s, &d, nullptr, nullptr));
    return d;
}
Result<Decimal128> Decimal128::FromReal(double x, int32_t p, int32_t s) {
    if (!std::isfinite(x)) return Status::Invalid("Cannot convert ", x, " to Decimal128");
    long double y = std::nearbyint(static_cast<long double>(x) * std::pow(10.0L, s));
    if (std::fabs(y) >= std::pow(10.0L, p)) return Status::Invalid("Cannot convert ", x, " to Decimal128(precision = ", p, ", scale = ", s, "): overflow");
    return Decimal128(BasicDecimal128::From(static_cast<__int128>(y)));
}
Result<Decimal128> Decimal128::FromReal(float x, int32_t p, int32_t s) { return FromReal(static_cast<double>(x), p, s); }
Result<Decimal128> Decimal128::FromBigEndian(const uint8_t* d, int32_t n) {
    if (n < 1 || n > 16) return Status::Invalid("Length of byte array passed to Decimal128::FromBigEndian was ", n, ", but must be between 1 and 16");
    unsigned __int128 v = (d[0] & 0x80) ? ~static_cast<unsigned __int128>(0) : 0;
    for (int32_t i = 0; i < n; ++i) v = (v << 8) | d[i];
    return Decimal128(BasicDecimal128::From(static_cast<__int128>(v)));
}
double Decimal128::ToDouble(int32_t s) const { return static_cast<double>(static_cast<long double>(v_) / std::pow(10.0L, s)); }
float Decimal128::ToFloat(int32_t s) const { return static_cast<float>(static_cast<long double>(v_) / std::pow(10.0L, s)); }
std::string Decimal128Scalar::ToString() const {
    return is_valid ? value.ToString(dynamic_cast<const DecimalType&>(*type).scale()) : "null";
}
std::string Decimal128Array::FormatValue(int64_t i) const {
    return Decimal128(GetValue(i)).ToString(dynamic_cast<const DecimalType&>(*type()).scale());
}

// ---------------------------------------------------------------- arrays
std::shared_ptr<ArrayData> ArrayData::Make(std::shared_ptr<DataType> t, int64_t n, std::vector<std::shared_ptr<Buffer>> b, int64_t nulls, int64_t off) {
    return Make(std::move(t), n, std::move(b), {}, nulls, off);
}
std::shared_ptr<ArrayData> ArrayData::Make(std::shared_ptr<DataType> t, int64_t n, std::vector<std::shared_ptr<Buffer>> b,
                                           std::vector<std::shared_ptr<ArrayData>> c, int64_t nulls, int64_t off) {
    auto d = std::make_shared<ArrayData>();
    d->type = std::move(t);
    d->length = n;
    d->buffers = std::move(b);
    d->child_data = std::move(c);
    d->null_count = nulls;
    d->offset = off;
    return d;
}
std::shared_ptr<ArrayData> ArrayData::Slice(int64_t off, int64_t len) const {
    assert(off >= 0 && off <= length && "Slice offset greater than array length");
    len = std::min(length - off, len);
    auto d = std::make_shared<ArrayData>(*this);
    d->length = len;
    d->offset = offset + off;
    d->null_count = null_count == 0 ? 0 : (off == 0 && len == length ? null_count.load() : kUnknownNullCount);
    return d;
}
int64_t ArrayData::GetNullCount() const {
    int64_t n = null_count;
    if (n != kUnknownNullCount) return n;
    n = 0;
    if (type->id() == Type::NA) n = length;
    else if (!buffers.empty() && buffers[0])
        for (int64_t i = 0; i < length; ++i) n += !bit_util::GetBit(buffers[0]->data(), i + offset);
    null_count = n;
    return n;
}
std::shared_ptr<Array> MakeArray(const std::shared_ptr<ArrayData>& d) {
    switch (d->type->id()) {
        case Type::NA: return std::make_shared<NullArray>(d);
        case Type::BOOL: return std::make_shared<BooleanArray>(d);
        case Type::INT8: return std::make_shared<Int8Array>(d);
        case Type::INT16: return std::make_shared<Int16Array>(d);
        case Type::INT32: return std::make_shared<Int32Array>(d);
        case Type::INT64: return std::make_shared<Int64Array>(d);
        case Type::UINT8: return std::make_shared<UInt8Array>(d);
        case Type::UINT16: return std::make_shared<UInt16Array>(d);
        case Type::UINT32: return std::make_shared<UInt32Array>(d);
        case Type::UINT64: return std::make_shared<UInt64Array>(d);
        case Type::FLOAT: return std::make_shared<FloatArray>(d);
        case Type::DOUBLE: return std::make_shared<DoubleArray>(d);
        case Type::DATE32: return std::make_shared<Date32Array>(d);
        case Type::DATE64: return std::make_shared<Date64Array>(d);
        case Type::TIMESTAMP: return std::make_shared<TimestampArray>(d);
        case Type::STRING: return std::make_shared<StringArray>(d);
        case Type::BINARY: return std::make_shared<BinaryArray>(d);
        case Type::LARGE_STRING: return std::make_shared<LargeStringArray>(d);
        case Type::LARGE_BINARY: return std::make_shared<LargeBinaryArray>(d);
        case Type::FIXED_SIZE_BINARY: return std::make_shared<FixedSizeBinaryArray>(d);
        case Type::DECIMAL128: return std::make_shared<Decimal128Array>(d);
        case Type::LIST: return std::make_shared<ListArray>(d);
        case Type::MAP: return std::make_shared<MapArray>(d);
        case Type::STRUCT: return std::make_shared<StructArray>(d);
        case Type::DICTIONARY: return std::make_shared<DictionaryArray>(d);
        default: std::fprintf(stderr, "mini arrow: no array for %s\n", d->type->ToString().c_str()); std::abort();
    }
}
NullArray::NullArray(int64_t n) { SetData(ArrayData::Make(null(), n, {nullptr}, n)); }
std::shared_ptr<Array> Array::Slice(int64_t off, int64_t len) const { return MakeArray(data_->Slice(off, len)); }
static bool SameValue(const Array& a, int64_t i, const Array& b, int64_t j) {
    if (a.IsNull(i) || b.IsNull(j)) return a.IsNull(i) && b.IsNull(j);
    switch (a.type_id()) {
        case Type::BOOL: return dynamic_cast<const BooleanArray&>(a).Value(i) == dynamic_cast<const BooleanArray&>(b).Value(j);
#define N(ID, T) case Type::ID: return dynamic_cast<const NumericArray<T>&>(a).Value(i) == dynamic_cast<const NumericArray<T>&>(b).Value(j);
            N(INT8, Int8Type) N(INT16, Int16Type) N(INT32, Int32Type) N(INT64, Int64Type) N(UINT8, UInt8Type) N(UINT16, UInt16Type)
            N(UINT32, UInt32Type) N(UINT64, UInt64Type) N(FLOAT, FloatType) N(DOUBLE, DoubleType) N(DATE32, Date32Type)
            N(DATE64, Date64Type) N(TIMESTAMP, TimestampType)
#undef N
        case Type::STRING: case Type::BINARY:
            return dynamic_cast<const BinaryArray&>(a).GetView(i) == dynamic_cast<const BinaryArray&>(b).GetView(j);
        case Type::LARGE_STRING: case Type::LARGE_BINARY:
            return dynamic_cast<const LargeBinaryArray&>(a).GetView(i) == dynamic_cast<const LargeBinaryArray&>(b).GetView(j);
        case Type::FIXED_SIZE_BINARY: case Type::DECIMAL128:
            return dynamic_cast<const FixedSizeBinaryArray&>(a).GetView(i) == dynamic_cast<const FixedSizeBinaryArray&>(b).GetView(j);
        case Type::LIST: case Type::MAP: {
            auto &x = dynamic_cast<const ListArray&>(a), &y = dynamic_cast<const ListArray&>(b);
            if (x.value_length(i) != y.value_length(j)) return false;
            for (int32_t k = 0; k < x.value_length(i); ++k)
                if (!SameValue(*x.values(), x.value_offset(i) + k, *y.values(), y.value_offset(j) + k)) return false;
            return true;
        }
        case Type::STRUCT: {
            auto &x = dynamic_cast<const StructArray&>(a), &y = dynamic_cast<const StructArray&>(b);
            for (int k = 0; k < x.num_fields(); ++k) if (!SameValue(*x.field(k), i, *y.field(k), j)) return false;
            return true;
        }
        case Type::DICTIONARY: {
            auto &x = dynamic_cast<const DictionaryArray&>(a), &y = dynamic_cast<const DictionaryArray&>(b);
            return SameValue(*x.dictionary(), x.GetValueIndex(i), *y.dictionary(), y.GetValueIndex(j));
        }
        default: return true;
    }
}
bool Array::Equals(const Array& o) const {
    if (length() != o.length() || !type()->Equals(*o.type())) return false;
    for (int64_t i = 0; i < length(); ++i) if (!SameValue(*this, i, o, i)) return false;
    return true;
}
static std::string ValueText(const Array& a, int64_t i) {
    if (a.IsNull(i)) return "null";
    switch (a.type_id()) {
        case Type::LIST: case Type::MAP: {
            auto& x = dynamic_cast<const ListArray&>(a);
            std::string r = "[";
            for (int32_t k = 0; k < x.value_length(i); ++k) r += (k ? ", " : "") + ValueText(*x.values(), x.value_offset(i) + k);
            return r + "]";
        }
        case Type::STRUCT: {
            auto& x = dynamic_cast<const StructArray&>(a);
            std::string r = "{";
            for (int k = 0; k < x.num_fields(); ++k) r += (k ? ", " : "") + ValueText(*x.field(k), i);
            return r + "}";
        }
        case Type::STRING: case Type::BINARY: return "\"" + dynamic_cast<const BinaryArray&>(a).GetString(i) + "\"";
        default: {
            auto s = a.GetScalar(i);
            return s.ok() ? (*s)->ToString() : "?";
        }
    }
}
std::string Array::ToString() const {
    std::string r = "[";
    for (int64_t i = 0; i < length(); ++i) r += (i ? ", " : "") + ValueText(*this, i);
    return r + "]";
}
Status Array::Validate() const { return Status::OK(); }
Result<std::shared_ptr<Array>> Array::View(const std::shared_ptr<DataType>& t) const {
    auto d = data_->Copy();
    d->type = t;
    return MakeArray(d);
}
Result<std::shared_ptr<Scalar>> Array::GetScalar(int64_t i) const {
    if (i < 0 || i >= length()) return Status::IndexError("index with value of ", i, " is out-of-bounds for array of length ", length());
    if (IsNull(i)) return MakeNullScalar(type());
    using R = std::shared_ptr<Scalar>;
    switch (type_id()) {
        case Type::BOOL: return R(std::make_shared<BooleanScalar>(dynamic_cast<const BooleanArray&>(*this).Value(i)));
#define N(ID, T, S) case Type::ID: return R(std::make_shared<S>(dynamic_cast<const NumericArray<T>&>(*this).Value(i), type()));
            N(INT8, Int8Type, Int8Scalar) N(INT16, Int16Type, Int16Scalar) N(INT32, Int32Type, Int32Scalar) N(INT64, Int64Type, Int64Scalar)
            N(UINT8, UInt8Type, UInt8Scalar) N(UINT16, UInt16Type, UInt16Scalar) N(UINT32, UInt32Type, UInt32Scalar) N(UINT64, UInt64Type, UInt64Scalar)
            N(FLOAT, FloatType, FloatScalar) N(DOUBLE, DoubleType, DoubleScalar) N(DATE32, Date32Type, Date32Scalar) N(TIMESTAMP, TimestampType, TimestampScalar)
#undef N
        case Type::STRING: return R(std::make_shared<StringScalar>(dynamic_cast<const BinaryArray&>(*this).GetString(i)));
        case Type::BINARY: return R(std::make_shared<BinaryScalar>(dynamic_cast<const BinaryArray&>(*this).GetString(i)));
        case Type::LARGE_STRING: case Type::LARGE_BINARY: {
            auto s = std::make_shared<BinaryScalar>(dynamic_cast<const LargeBinaryArray&>(*this).GetString(i));
            s->type = type();
            return R(s);
        }
        case Type::DECIMAL128: return R(std::make_shared<Decimal128Scalar>(Decimal128(dynamic_cast<const Decimal128Array&>(*this).GetValue(i)), type()));
        case Type::DICTIONARY: {
            auto& x = dynamic_cast<const DictionaryArray&>(*this);
            return x.dictionary()->GetScalar(x.GetValueIndex(i));
        }
        default: return R(std::make_shared<StructScalar>(Slice(i, 1), true));
    }
}
StructScalar::StructScalar(std::shared_ptr<Array> v, bool valid) : Scalar(v->type(), valid), value(std::move(v)) {}
std::shared_ptr<Scalar> MakeNullScalar(std::shared_ptr<DataType> t) {
    switch (t->id()) {
        case Type::BOOL: return std::make_shared<BooleanScalar>();
#define N(ID, S) case Type::ID: return std::make_shared<S>(t);
            N(INT8, Int8Scalar) N(INT16, Int16Scalar) N(INT32, Int32Scalar) N(INT64, Int64Scalar) N(FLOAT, FloatScalar)
            N(DOUBLE, DoubleScalar) N(DATE32, Date32Scalar) N(TIMESTAMP, TimestampScalar) N(STRING, StringScalar)
            N(BINARY, BinaryScalar) N(DECIMAL128, Decimal128Scalar)
#undef N
        default: return std::make_shared<Scalar>(t, false);
    }
}
std::shared_ptr<Array> ListArray::offsets() const {
    return std::make_shared<Int32Array>(ArrayData::Make(int32(), length() + 1, {nullptr, data_->buffers[1]}, 0, data_->offset));
}
Result<std::shared_ptr<ListArray>> ListArray::FromArrays(const Array& offsets, const Array& values, MemoryPool*) {
    auto* o = dynamic_cast<const Int32Array*>(&offsets);
    if (!o || offsets.length() == 0) return Status::TypeError("List offsets must be non-empty int32");
    return std::make_shared<ListArray>(ArrayData::Make(list(values.type()), offsets.length() - 1, {nullptr, offsets.data()->buffers[1]}, {values.data()}, 0, offsets.offset()));
}
MapArray::MapArray(const std::shared_ptr<DataType>& t, int64_t n, const std::shared_ptr<Buffer>& o, const std::shared_ptr<Array>& k,
                   const std::shared_ptr<Array>& v, const std::shared_ptr<Buffer>& nb, int64_t nulls, int64_t off)
    : MapArray(ArrayData::Make(t, n, {nb, o},
                               {ArrayData::Make(dynamic_cast<const MapType&>(*t).value_type(), k->length(), {nullptr}, {k->data(), v->data()}, 0)}, nulls, off)) {}
StructArray::StructArray(const std::shared_ptr<DataType>& t, int64_t n, const ArrayVector& c, std::shared_ptr<Buffer> nb, int64_t nulls, int64_t off) {
    std::vector<std::shared_ptr<ArrayData>> cd;
    for (auto& a : c) cd.push_back(a->data());
    SetData(ArrayData::Make(t, n, {std::move(nb)}, cd, nulls, off));
    boxed_.resize(c.size());
}
Result<std::shared_ptr<StructArray>> StructArray::Make(const ArrayVector& c, const FieldVector& fields, std::shared_ptr<Buffer> nb, int64_t nulls, int64_t off) {
    if (c.size() != fields.size()) return Status::Invalid("Mismatching number of fields and child arrays");
    if (c.empty()) return Status::Invalid("Can't infer struct array length with 0 child arrays");
    int64_t n = c[0]->length();
    for (size_t i = 0; i < c.size(); ++i) {
        if (c[i]->length() != n) return Status::Invalid("Mismatching child array lengths");
        if (!c[i]->type()->Equals(*fields[i]->type())) return Status::Invalid("Mismatching type for field ", fields[i]->ToString(), " and array of ", c[i]->type()->ToString());
    }
    if (off > n) return Status::IndexError("Offset greater than length of child arrays");
    if (!nb) nulls = 0;
    return std::make_shared<StructArray>(struct_(fields), n - off, c, std::move(nb), nulls, off);
}
Result<std::shared_ptr<StructArray>> StructArray::Make(const ArrayVector& c, const std::vector<std::string>& names, std::shared_ptr<Buffer> nb, int64_t nulls, int64_t off) {
    if (c.size() != names.size()) return Status::Invalid("Mismatching number of field names and child arrays");
    FieldVector f;
    for (size_t i = 0; i < c.size(); ++i) f.push_back(arrow::field(names[i], c[i]->type()));
    return Make(c, f, std::move(nb), nulls, off);
}
const std::shared_ptr<Array>& StructArray::field(int i) const {
    std::lock_guard<std::mutex> g(m_);
    if (!boxed_[i]) {
        auto d = data_->child_data[i];
        if (data_->offset != 0 || d->length != data_->length) d = d->Slice(data_->offset, data_->length);
        boxed_[i] = MakeArray(d);
    }
    return boxed_[i];
}
const ArrayVector& StructArray::fields() const {
    for (int i = 0; i < num_fields(); ++i) (void)field(i);
    return boxed_;
}
std::shared_ptr<Array> StructArray::GetFieldByName(const std::string& n) const {
    int i = struct_type()->GetFieldIndex(n);
    return i < 0 ? nullptr : field(i);
}
Result<ArrayVector> StructArray::Flatten(MemoryPool* pool) const {
    ArrayVector r;
    for (int k = 0; k < num_fields(); ++k) {
        if (null_count() == 0) { r.push_back(field(k)); continue; }
        ARROW_ASSIGN_OR_RAISE(auto b, MakeBuilder(field(k)->type(), pool));
        for (int64_t i = 0; i < length(); ++i) {
            if (IsNull(i)) ARROW_RETURN_NOT_OK(b->AppendNull());
            else ARROW_RETURN_NOT_OK(b->AppendFrom(*field(k), i));
        }
        ARROW_ASSIGN_OR_RAISE(auto a, b->Finish());
        r.push_back(a);
    }
    return r;
}
DictionaryArray::DictionaryArray(const std::shared_ptr<ArrayData>& d) {
    SetData(d);
    auto i = d->Copy();
    i->type = dynamic_cast<const DictionaryType&>(*d->type).index_type();
    i->dictionary = nullptr;
    idx_ = MakeArray(i);
    dict_ = MakeArray(d->dictionary);
}
static std::shared_ptr<ArrayData> DictData(const std::shared_ptr<DataType>& t, const Array& i, const Array& v) {
    auto d = i.data()->Copy();
    d->type = t;
    d->dictionary = v.data();
    return d;
}
DictionaryArray::DictionaryArray(const std::shared_ptr<DataType>& t, const std::shared_ptr<Array>& i, const std::shared_ptr<Array>& v)
    : DictionaryArray(DictData(t, *i, *v)) {}
Result<std::shared_ptr<Array>> DictionaryArray::FromArrays(const std::shared_ptr<DataType>& t, const std::shared_ptr<Array>& i, const std::shared_ptr<Array>& v) {
    return std::shared_ptr<Array>(std::make_shared<DictionaryArray>(t, i, v));
}
int64_t DictionaryArray::GetValueIndex(int64_t i) const {
    switch (idx_->type_id()) {
#define N(ID, T) case Type::ID: return static_cast<int64_t>(dynamic_cast<const NumericArray<T>&>(*idx_).Value(i));
        N(INT8, Int8Type) N(INT16, Int16Type) N(INT32, Int32Type) N(INT64, Int64Type)
        N(UINT8, UInt8Type) N(UINT16, UInt16Type) N(UINT32, UInt32Type) N(UINT64, UInt64Type)
#undef N
        default: return -1;
    }
}

// ---------------------------------------------------------------- builders
Status ArrayBuilder::TakeValidity(std::shared_ptr<Buffer>* nb, int64_t* n, int64_t* nulls) {
    *n = static_cast<int64_t>(valid_.size());
    *nulls = nulls_;
    nb->reset();
    if (nulls_ > 0) {
        ARROW_ASSIGN_OR_RAISE(std::shared_ptr<Buffer> b, AllocateBuffer(bit_util::BytesForBits(*n), pool_));
        for (int64_t i = 0; i < *n; ++i) if (valid_[i]) bit_util::SetBit(b->mutable_data(), i);
        *nb = b;
    }
    valid_.clear();
    nulls_ = 0;
    return Status::OK();
}
Status NullBuilder::FinishInternal(std::shared_ptr<ArrayData>* out) {
    *out = ArrayData::Make(null(), length(), {nullptr}, length());
    valid_.clear();
    nulls_ = 0;
    return Status::OK();
}
Status BooleanBuilder::AppendFrom(const Array& a, int64_t i) {
    return a.IsNull(i) ? AppendNull() : Append(dynamic_cast<const BooleanArray&>(a).Value(i));
}
Status BooleanBuilder::FinishInternal(std::shared_ptr<ArrayData>* out) {
    std::shared_ptr<Buffer> nb;
    int64_t n, nulls;
    ARROW_RETURN_NOT_OK(TakeValidity(&nb, &n, &nulls));
    ARROW_ASSIGN_OR_RAISE(std::shared_ptr<Buffer> b, AllocateBuffer(bit_util::BytesForBits(n), pool_));
    for (int64_t i = 0; i < n; ++i) if (v_[i]) bit_util::SetBit(b->mutable_data(), i);
    v_.clear();
    *out = ArrayData::Make(boolean(), n, {nb, b}, nulls);
    return Status::OK();
}
Status FixedSizeBinaryBuilder::FinishInternal(std::shared_ptr<ArrayData>* out) {
    std::shared_ptr<Buffer> nb;
    int64_t n, nulls;
    ARROW_RETURN_NOT_OK(TakeValidity(&nb, &n, &nulls));
    ARROW_ASSIGN_OR_RAISE(std::shared_ptr<Buffer> b, AllocateBuffer(d_.size(), pool_));
    if (!d_.empty()) std::memcpy(b->mutable_data(), d_.data(), d_.size());
    d_.clear();
    *out = ArrayData::Make(t_, n, {nb, b}, nulls);
    return Status::OK();
}
static Status FinishOffsets(const std::vector<int64_t>& starts, int64_t end, MemoryPool* pool, std::shared_ptr<Buffer>* out) {
    ARROW_ASSIGN_OR_RAISE(std::shared_ptr<Buffer> b, AllocateBuffer((starts.size() + 1) * 4, pool));
    auto* p = reinterpret_cast<int32_t*>(b->mutable_data());
    for (size_t i = 0; i < starts.size(); ++i) p[i] = static_cast<int32_t>(starts[i]);
    p[starts.size()] = static_cast<int32_t>(end);
    *out = b;
    return Status::OK();
}
Status ListBuilder::AppendFrom(const Array& a, int64_t i) {
    if (a.IsNull(i)) return AppendNull();
    ARROW_RETURN_NOT_OK(Append());
    auto& l = dynamic_cast<const ListArray&>(a);
    return children_[0]->AppendArraySlice(*l.values(), l.value_offset(i), l.value_length(i));
}
Status ListBuilder::FinishInternal(std::shared_ptr<ArrayData>* out) {
    std::shared_ptr<Buffer> nb, ob;
    int64_t n, nulls;
    ARROW_RETURN_NOT_OK(TakeValidity(&nb, &n, &nulls));
    ARROW_RETURN_NOT_OK(FinishOffsets(o_, children_[0]->length(), pool_, &ob));
    std::shared_ptr<ArrayData> v;
    ARROW_RETURN_NOT_OK(children_[0]->FinishInternal(&v));
    o_.clear();
    *out = ArrayData::Make(t_, n, {nb, ob}, {v}, nulls);
    return Status::OK();
}
Status StructBuilder::AppendFrom(const Array& a, int64_t i) {
    if (a.IsNull(i)) return AppendNull();
    auto& s = dynamic_cast<const StructArray&>(a);
    for (size_t k = 0; k < children_.size(); ++k) ARROW_RETURN_NOT_OK(children_[k]->AppendFrom(*s.field(k), i));
    return Append();
}
Status StructBuilder::FinishInternal(std::shared_ptr<ArrayData>* out) {
    std::shared_ptr<Buffer> nb;
    int64_t n, nulls;
    ARROW_RETURN_NOT_OK(TakeValidity(&nb, &n, &nulls));
    std::vector<std::shared_ptr<ArrayData>> c(children_.size());
    for (size_t k = 0; k < children_.size(); ++k) {
        // as in Arrow, a child nobody appended to is filled up with nulls
        if (n > 0 && children_[k]->length() == 0) ARROW_RETURN_NOT_OK(children_[k]->AppendNulls(n));
        if (children_[k]->length() != n)
            return Status::Invalid("Struct child array #", k, " has length ", children_[k]->length(), ", expected ", n);
        ARROW_RETURN_NOT_OK(children_[k]->FinishInternal(&c[k]));
    }
    *out = ArrayData::Make(t_, n, {nb}, c, nulls);
    return Status::OK();
}
MapBuilder::MapBuilder(MemoryPool* p, const std::shared_ptr<ArrayBuilder>& k, const std::shared_ptr<ArrayBuilder>& v, const std::shared_ptr<DataType>& t)
    : ArrayBuilder(p), t_(t), k_(k), v_(v) {
    children_ = {std::make_shared<StructBuilder>(dynamic_cast<const MapType&>(*t).value_type(), p, std::vector<std::shared_ptr<ArrayBuilder>>{k, v})};
}
void MapBuilder::Sync() {
    auto* s = dynamic_cast<StructBuilder*>(children_[0].get());
    while (s->length() < k_->length()) (void)s->Append();
}
Status MapBuilder::AppendFrom(const Array& a, int64_t i) {
    if (a.IsNull(i)) return AppendNull();
    ARROW_RETURN_NOT_OK(Append());
    auto& m = dynamic_cast<const MapArray&>(a);
    ARROW_RETURN_NOT_OK(k_->AppendArraySlice(*m.keys(), m.value_offset(i), m.value_length(i)));
    return v_->AppendArraySlice(*m.items(), m.value_offset(i), m.value_length(i));
}
Status MapBuilder::FinishInternal(std::shared_ptr<ArrayData>* out) {
    Sync();
    std::shared_ptr<Buffer> nb, ob;
    int64_t n, nulls;
    ARROW_RETURN_NOT_OK(TakeValidity(&nb, &n, &nulls));
    ARROW_RETURN_NOT_OK(FinishOffsets(o_, k_->length(), pool_, &ob));
    std::shared_ptr<ArrayData> v;
    ARROW_RETURN_NOT_OK(children_[0]->FinishInternal(&v));
    o_.clear();
    *out = ArrayData::Make(t_, n, {nb, ob}, {v}, nulls);
    return Status::OK();
}
Status MakeBuilder(MemoryPool* p, const std::shared_ptr<DataType>& t, std::unique_ptr<ArrayBuilder>* out) {
    switch (t->id()) {
        case Type::NA: *out = std::make_unique<NullBuilder>(p); break;
        case Type::BOOL: *out = std::make_unique<BooleanBuilder>(p); break;
#define N(ID, T) case Type::ID: *out = std::make_unique<NumericBuilder<T>>(t, p); break;
            N(INT8, Int8Type) N(INT16, Int16Type) N(INT32, Int32Type) N(INT64, Int64Type) N(UINT8, UInt8Type) N(UINT16, UInt16Type)
            N(UINT32, UInt32Type) N(UINT64, UInt64Type) N(FLOAT, FloatType) N(DOUBLE, DoubleType) N(DATE32, Date32Type)
            N(DATE64, Date64Type) N(TIMESTAMP, TimestampType)
#undef N
        case Type::STRING: *out = std::make_unique<StringBuilder>(p); break;
        case Type::BINARY: *out = std::make_unique<BinaryBuilder>(p); break;
        case Type::LARGE_STRING: *out = std::make_unique<LargeStringBuilder>(p); break;
        case Type::LARGE_BINARY: *out = std::make_unique<LargeBinaryBuilder>(p); break;
        case Type::FIXED_SIZE_BINARY: *out = std::make_unique<FixedSizeBinaryBuilder>(t, p); break;
        case Type::DECIMAL128: *out = std::make_unique<Decimal128Builder>(t, p); break;
        case Type::LIST: {
            std::unique_ptr<ArrayBuilder> v;
            ARROW_RETURN_NOT_OK(MakeBuilder(p, dynamic_cast<const ListType&>(*t).value_type(), &v));
            *out = std::make_unique<ListBuilder>(p, std::shared_ptr<ArrayBuilder>(std::move(v)), t);
            break;
        }
        case Type::MAP: {
            std::unique_ptr<ArrayBuilder> k, v;
            ARROW_RETURN_NOT_OK(MakeBuilder(p, dynamic_cast<const MapType&>(*t).key_type(), &k));
            ARROW_RETURN_NOT_OK(MakeBuilder(p, dynamic_cast<const MapType&>(*t).item_type(), &v));
            *out = std::make_unique<MapBuilder>(p, std::shared_ptr<ArrayBuilder>(std::move(k)), std::shared_ptr<ArrayBuilder>(std::move(v)), t);
            break;
        }
        case Type::STRUCT: {
            std::vector<std::shared_ptr<ArrayBuilder>> f;
            for (auto& c : t->fields()) {
                std::unique_ptr<ArrayBuilder> b;
                ARROW_RETURN_NOT_OK(MakeBuilder(p, c->type(), &b));
                f.emplace_back(std::move(b));
            }
            *out = std::make_unique<StructBuilder>(t, p, std::move(f));
            break;
        }
        case Type::DICTIONARY:
            return MakeBuilder(p, dynamic_cast<const DictionaryType&>(*t).value_type(), out);
        default: return Status::NotImplemented("MakeBuilder: cannot construct builder for type ", t->ToString());
    }
    return Status::OK();
}
Result<std::unique_ptr<ArrayBuilder>> MakeBuilder(const std::shared_ptr<DataType>& t, MemoryPool* p) {
    std::unique_ptr<ArrayBuilder> b;
    ARROW_RETURN_NOT_OK(MakeBuilder(p, t, &b));
    return b;
}
static Status AppendPlain(ArrayBuilder* b, const Array& a, int64_t i) {
    if (a.type_id() == Type::DICTIONARY) {
        auto& d = dynamic_cast<const DictionaryArray&>(a);
        return a.IsNull(i) ? b->AppendNull() : b->AppendFrom(*d.dictionary(), d.GetValueIndex(i));
    }
    return b->AppendFrom(a, i);
}
Result<std::shared_ptr<Array>> Concatenate(const ArrayVector& a, MemoryPool* p) {
    if (a.empty()) return Status::Invalid("Must pass at least one array");
    for (auto& x : a) if (!x->type()->Equals(*a[0]->type())) return Status::Invalid("arrays to be concatenated must be identically typed, but ", a[0]->type()->ToString(), " and ", x->type()->ToString(), " were encountered.");
    ARROW_ASSIGN_OR_RAISE(auto b, MakeBuilder(a[0]->type(), p));
    for (auto& x : a) for (int64_t i = 0; i < x->length(); ++i) ARROW_RETURN_NOT_OK(AppendPlain(b.get(), *x, i));
    return b->Finish();
}
Result<std::shared_ptr<Array>> MakeArrayOfNull(const std::shared_ptr<DataType>& t, int64_t n, MemoryPool* p) {
    ARROW_ASSIGN_OR_RAISE(auto b, MakeBuilder(t, p));
    ARROW_RETURN_NOT_OK(b->AppendNulls(n));
    return b->Finish();
}
Result<std::shared_ptr<Array>> MakeEmptyArray(const std::shared_ptr<DataType>& t, MemoryPool* p) { return MakeArrayOfNull(t, 0, p); }
Status AppendScalarTo(ArrayBuilder* b, const Scalar& s) {
    if (!s.is_valid) return b->AppendNull();
    switch (s.type->id()) {
        case Type::BOOL: return dynamic_cast<BooleanBuilder&>(*b).Append(dynamic_cast<const BooleanScalar&>(s).value);
#define N(ID, T) case Type::ID: return dynamic_cast<NumericBuilder<T>&>(*b).Append(dynamic_cast<const PrimScalarBase<T>&>(s).value);
            N(INT8, Int8Type) N(INT16, Int16Type) N(INT32, Int32Type) N(INT64, Int64Type) N(UINT8, UInt8Type) N(UINT16, UInt16Type)
            N(UINT32, UInt32Type) N(UINT64, UInt64Type) N(FLOAT, FloatType) N(DOUBLE, DoubleType) N(DATE32, Date32Type) N(TIMESTAMP, TimestampType)
#undef N
        case Type::STRING: case Type::BINARY: return dynamic_cast<BinaryBuilder&>(*b).Append(dynamic_cast<const BaseBinaryScalar&>(s).view());
        case Type::LARGE_STRING: case Type::LARGE_BINARY: return dynamic_cast<LargeBinaryBuilder&>(*b).Append(dynamic_cast<const BaseBinaryScalar&>(s).view());
        case Type::DECIMAL128: return dynamic_cast<Decimal128Builder&>(*b).Append(dynamic_cast<const Decimal128Scalar&>(s).value);
        default: return b->AppendFrom(*dynamic_cast<const StructScalar&>(s).value, 0);
    }
}
Result<std::shared_ptr<Array>> MakeArrayFromScalar(const Scalar& s, int64_t n, MemoryPool* p) {
    ARROW_ASSIGN_OR_RAISE(auto b, MakeBuilder(s.type, p));
    for (int64_t i = 0; i < n; ++i) ARROW_RETURN_NOT_OK(AppendScalarTo(b.get(), s));
    return b->Finish();
}

// ---------------------------------------------------------------- C data interface
namespace {
struct SchemaPrivate {
    std::string format, name, metadata;
    std::vector<ArrowSchema> kids;
    std::vector<ArrowSchema*> kid_ptrs;
    ArrowSchema dict;
    bool has_dict = false;
};
void ReleaseSchema(ArrowSchema* s) {
    if (!s->release) return;
    for (int64_t i = 0; i < s->n_children; ++i) if (s->children[i]->release) s->children[i]->release(s->children[i]);
    if (s->dictionary && s->dictionary->release) s->dictionary->release(s->dictionary);
    delete static_cast<SchemaPrivate*>(s->private_data);
    s->release = nullptr;
}
std::string EncodeMeta(const std::shared_ptr<const KeyValueMetadata>& md) {
    if (!md || md->size() == 0) return "";
    std::string r;
    auto i32 = [&](int32_t v) { r.append(reinterpret_cast<const char*>(&v), 4); };
    i32(static_cast<int32_t>(md->size()));
    for (int64_t i = 0; i < md->size(); ++i) {
        i32(static_cast<int32_t>(md->key(i).size())); r += md->key(i);
        i32(static_cast<int32_t>(md->value(i).size())); r += md->value(i);
    }
    return r;
}
std::shared_ptr<const KeyValueMetadata> DecodeMeta(const char* p) {
    if (!p) return nullptr;
    auto i32 = [&]() { int32_t v; std::memcpy(&v, p, 4); p += 4; return v; };
    int32_t n = i32();
    if (n == 0) return nullptr;
    auto md = std::make_shared<KeyValueMetadata>();
    for (int32_t i = 0; i < n; ++i) {
        int32_t a = i32(); std::string k(p, a); p += a;
        int32_t b = i32(); std::string v(p, b); p += b;
        md->Append(k, v);
    }
    return md;
}
Result<std::string> FormatOf(const DataType& t) {
    switch (t.id()) {
        case Type::NA: return std::string("n");
        case Type::BOOL: return std::string("b");
        case Type::INT8: return std::string("c");
        case Type::UINT8: return std::string("C");
        case Type::INT16: return std::string("s");
        case Type::UINT16: return std::string("S");
        case Type::INT32: return std::string("i");
        case Type::UINT32: return std::string("I");
        case Type::INT64: return std::string("l");
        case Type::UINT64: return std::string("L");
        case Type::FLOAT: return std::string("f");
        case Type::DOUBLE: return std::string("g");
        case Type::STRING: return std::string("u");
        case Type::LARGE_STRING: return std::string("U");
        case Type::BINARY: return std::string("z");
        case Type::LARGE_BINARY: return std::string("Z");
        case Type::DATE32: return std::string("tdD");
        case Type::DATE64: return std::string("tdm");
        case Type::FIXED_SIZE_BINARY: return "w:" + std::to_string(dynamic_cast<const FixedSizeBinaryType&>(t).byte_width());
        case Type::DECIMAL128: {
            auto& d = dynamic_cast<const DecimalType&>(t);
            return "d:" + std::to_string(d.precision()) + "," + std::to_string(d.scale());
        }
        case Type::TIMESTAMP: {
            auto& x = dynamic_cast<const TimestampType&>(t);
            return std::string("ts") + "smun"[x.unit()] + ":" + x.timezone();
        }
        case Type::LIST: return std::string("+l");
        case Type::STRUCT: return std::string("+s");
        case Type::MAP: return std::string("+m");
        case Type::DICTIONARY: return FormatOf(*dynamic_cast<const DictionaryType&>(t).index_type());
        default: return Status::NotImplemented("Exporting type ", t.ToString());
    }
}
Status ExportImpl(const std::string& name, const DataType& t, bool nullable, const std::shared_ptr<const KeyValueMetadata>& md, ArrowSchema* out) {
    ARROW_ASSIGN_OR_RAISE(std::string fmt, FormatOf(t));
    auto p = std::make_unique<SchemaPrivate>();
    p->format = fmt;
    p->name = name;
    p->metadata = EncodeMeta(md);
    p->kids.resize(t.num_fields());
    for (int i = 0; i < t.num_fields(); ++i) {
        auto& f = t.field(i);
        ARROW_RETURN_NOT_OK(ExportImpl(f->name(), *f->type(), f->nullable(), f->metadata(), &p->kids[i]));
        p->kid_ptrs.push_back(&p->kids[i]);
    }
    std::memset(out, 0, sizeof(*out));
    if (t.id() == Type::DICTIONARY) {
        ARROW_RETURN_NOT_OK(ExportImpl("", *dynamic_cast<const DictionaryType&>(t).value_type(), true, nullptr, &p->dict));
        out->dictionary = &p->dict;
    }
    out->format = p->format.c_str();
    out->name = p->name.c_str();
    out->metadata = p->metadata.empty() ? nullptr : p->metadata.c_str();
    out->flags = nullable ? ARROW_FLAG_NULLABLE : 0;
    if (t.id() == Type::MAP && dynamic_cast<const MapType&>(t).keys_sorted()) out->flags |= ARROW_FLAG_MAP_KEYS_SORTED;
    out->n_children = t.num_fields();
    out->children = p->kid_ptrs.data();
    out->release = ReleaseSchema;
    out->private_data = p.release();
    return Status::OK();
}
struct Releaser {
    ArrowSchema* s;
    ~Releaser() { ArrowSchemaRelease(s); }
};
Result<std::shared_ptr<Field>> ImportFieldNoRelease(const ArrowSchema* s);
Result<std::shared_ptr<DataType>> TypeOf(const ArrowSchema* s) {
    std::string f = s->format;
    FieldVector kids;
    for (int64_t i = 0; i < s->n_children; ++i) {
        ARROW_ASSIGN_OR_RAISE(auto k, ImportFieldNoRelease(s->children[i]));
        kids.push_back(k);
    }
    auto simple = [&]() -> Result<std::shared_ptr<DataType>> {
        if (f == "n") return null();
        if (f == "b") return boolean();
        if (f == "c") return int8();
        if (f == "C") return uint8();
        if (f == "s") return int16();
        if (f == "S") return uint16();
        if (f == "i") return int32();
        if (f == "I") return uint32();
        if (f == "l") return int64();
        if (f == "L") return uint64();
        if (f == "f") return float32();
        if (f == "g") return float64();
        if (f == "u") return utf8();
        if (f == "U") return large_utf8();
        if (f == "z") return binary();
        if (f == "Z") return large_binary();
        if (f == "tdD") return date32();
        if (f == "tdm") return date64();
        if (f.rfind("w:", 0) == 0) return fixed_size_binary(std::stoi(f.substr(2)));
        if (f.rfind("d:", 0) == 0) {
            auto c = f.find(',');
            return decimal128(std::stoi(f.substr(2, c - 2)), std::stoi(f.substr(c + 1)));
        }
        if (f.rfind("ts", 0) == 0 && f.size() >= 4) {
            auto u = std::string("smun").find(f[2]);
            return timestamp(static_cast<TimeUnit::type>(u), f.substr(4));
        }
        if (f == "+l") return list(kids[0]);
        if (f == "+s") return struct_(kids);
        if (f == "+m") return map(kids[0]->type()->field(0), kids[0]->type()->field(1), (s->flags & ARROW_FLAG_MAP_KEYS_SORTED) != 0);
        return Status::Invalid("Invalid or unsupported format string: '", f, "'");
    };
    ARROW_ASSIGN_OR_RAISE(auto t, simple());
    if (s->dictionary) {
        ARROW_ASSIGN_OR_RAISE(auto v, TypeOf(s->dictionary));
        return dictionary(t, v, (s->flags & ARROW_FLAG_DICTIONARY_ORDERED) != 0);
    }
    return t;
}
Result<std::shared_ptr<Field>> ImportFieldNoRelease(const ArrowSchema* s) {
    ARROW_ASSIGN_OR_RAISE(auto t, TypeOf(s));
    return field(s->name ? s->name : "", t, (s->flags & ARROW_FLAG_NULLABLE) != 0, DecodeMeta(s->metadata));
}

struct ArrayPrivate {
    std::shared_ptr<ArrayData> data;
    std::vector<const void*> buffers;
    std::vector<ArrowArray> kids;
    std::vector<ArrowArray*> kid_ptrs;
    ArrowArray dict;
};
void ReleaseArray(ArrowArray* a) {
    if (!a->release) return;
    for (int64_t i = 0; i < a->n_children; ++i) if (a->children[i]->release) a->children[i]->release(a->children[i]);
    if (a->dictionary && a->dictionary->release) a->dictionary->release(a->dictionary);
    delete static_cast<ArrayPrivate*>(a->private_data);
    a->release = nullptr;
}
void ExportData(const std::shared_ptr<ArrayData>& d, ArrowArray* out) {
    auto p = std::make_unique<ArrayPrivate>();
    p->data = d;
    for (auto& b : d->buffers) p->buffers.push_back(b ? b->data() : nullptr);
    if (d->type->id() == Type::NA) p->buffers.clear();
    p->kids.resize(d->child_data.size());
    for (size_t i = 0; i < p->kids.size(); ++i) {
        ExportData(d->child_data[i], &p->kids[i]);
        p->kid_ptrs.push_back(&p->kids[i]);
    }
    std::memset(out, 0, sizeof(*out));
    if (d->dictionary) {
        ExportData(d->dictionary, &p->dict);
        out->dictionary = &p->dict;
    }
    out->length = d->length;
    out->null_count = d->GetNullCount();
    out->offset = d->offset;
    out->n_buffers = static_cast<int64_t>(p->buffers.size());
    out->n_children = static_cast<int64_t>(p->kids.size());
    out->buffers = p->buffers.data();
    out->children = p->kid_ptrs.data();
    out->release = ReleaseArray;
    out->private_data = p.release();
}
struct Imported {
    ArrowArray a;
    ~Imported() { ArrowArrayRelease(&a); }
};
Result<std::shared_ptr<ArrayData>> ImportData(const ArrowArray* a, const std::shared_ptr<DataType>& t, const std::shared_ptr<Imported>& keep) {
    auto d = std::make_shared<ArrayData>();
    d->type = t;
    d->length = a->length;
    d->offset = a->offset;
    d->null_count = a->null_count;
    if (a->n_children != t->num_fields()) return Status::Invalid("Expected ", t->num_fields(), " children for imported type ", t->ToString(), ", ArrowArray struct has ", a->n_children);
    int64_t n = a->length + a->offset;
    for (int64_t i = 0; i < a->n_buffers; ++i) {
        auto* p = static_cast<const uint8_t*>(a->buffers[i]);
        int64_t size = 0;
        if (p == nullptr) {
            d->buffers.push_back(nullptr);
            continue;
        }
        if (i == 0) size = bit_util::BytesForBits(n);
        else if (t->id() == Type::BOOL) size = bit_util::BytesForBits(n);
        else if (auto* f = dynamic_cast<const FixedWidthType*>(t.get())) size = n * f->bit_width() / 8;
        else if (t->id() == Type::LARGE_STRING || t->id() == Type::LARGE_BINARY)
            size = i == 1 ? (n + 1) * 8 : reinterpret_cast<const int64_t*>(a->buffers[1])[n];
        else if (i == 1) size = (n + 1) * 4;
        else size = a->buffers[1] ? reinterpret_cast<const int32_t*>(a->buffers[1])[n] : 0;
        d->buffers.push_back(std::make_shared<Buffer>(p, size, keep));
    }
    if (t->id() == Type::NA) d->buffers = {nullptr};
    if (d->buffers.empty()) d->buffers = {nullptr};
    for (int64_t i = 0; i < a->n_children; ++i) {
        ARROW_ASSIGN_OR_RAISE(auto c, ImportData(a->children[i], t->field(static_cast<int>(i))->type(), keep));
        d->child_data.push_back(c);
    }
    if (t->id() == Type::DICTIONARY) {
        if (!a->dictionary) return Status::Invalid("Import type is dictionary but ArrowArray has none");
        ARROW_ASSIGN_OR_RAISE(d->dictionary, ImportData(a->dictionary, dynamic_cast<const DictionaryType&>(*t).value_type(), keep));
    }
    return d;
}
}  // namespace
Status ExportType(const DataType& t, ArrowSchema* out) { return ExportImpl("", t, true, nullptr, out); }
Status ExportField(const Field& f, ArrowSchema* out) { return ExportImpl(f.name(), *f.type(), f.nullable(), f.metadata(), out); }
Status ExportSchema(const Schema& s, ArrowSchema* out) { return ExportImpl("", StructType(s.fields()), false, s.metadata(), out); }
Status ExportArray(const Array& a, ArrowArray* out, ArrowSchema* os) {
    if (os) ARROW_RETURN_NOT_OK(ExportType(*a.type(), os));
    ExportData(a.data(), out);
    return Status::OK();
}
Status ExportRecordBatch(const RecordBatch& b, ArrowArray* out, ArrowSchema* os) {
    if (os) ARROW_RETURN_NOT_OK(ExportSchema(*b.schema(), os));
    std::vector<std::shared_ptr<ArrayData>> c;
    for (auto& x : b.columns()) c.push_back(x->data());
    ExportData(ArrayData::Make(struct_(b.schema()->fields()), b.num_rows(), {nullptr}, c, 0), out);
    return Status::OK();
}
Result<std::shared_ptr<DataType>> ImportType(ArrowSchema* s) {
    if (ArrowSchemaIsReleased(s)) return Status::Invalid("Cannot import released ArrowSchema");
    Releaser r{s};
    return TypeOf(s);
}
Result<std::shared_ptr<Field>> ImportField(ArrowSchema* s) {
    if (ArrowSchemaIsReleased(s)) return Status::Invalid("Cannot import released ArrowSchema");
    Releaser r{s};
    return ImportFieldNoRelease(s);
}
Result<std::shared_ptr<Schema>> ImportSchema(ArrowSchema* s) {
    if (ArrowSchemaIsReleased(s)) return Status::Invalid("Cannot import released ArrowSchema");
    Releaser r{s};
    ARROW_ASSIGN_OR_RAISE(auto t, TypeOf(s));
    if (t->id() != Type::STRUCT) return Status::Invalid("Cannot import schema: ArrowSchema describes non-struct type ", t->ToString());
    return schema(t->fields(), DecodeMeta(s->metadata));
}
Result<std::shared_ptr<Array>> ImportArray(ArrowArray* a, std::shared_ptr<DataType> t) {
    if (ArrowArrayIsReleased(a)) return Status::Invalid("Cannot import released ArrowArray");
    auto keep = std::make_shared<Imported>();
    ArrowArrayMove(a, &keep->a);
    ARROW_ASSIGN_OR_RAISE(auto d, ImportData(&keep->a, t, keep));
    return MakeArray(d);
}
Result<std::shared_ptr<Array>> ImportArray(ArrowArray* a, ArrowSchema* s) {
    auto t = ImportType(s);
    if (!t.ok()) {
        ArrowArrayRelease(a);
        return t.status();
    }
    return ImportArray(a, *t);
}
Result<std::shared_ptr<RecordBatch>> ImportRecordBatch(ArrowArray* a, std::shared_ptr<Schema> s) {
    ARROW_ASSIGN_OR_RAISE(auto arr, ImportArray(a, struct_(s->fields())));
    auto st = std::dynamic_pointer_cast<StructArray>(arr);
    return RecordBatch::Make(s, st->length(), st->fields());
}
Result<std::shared_ptr<RecordBatch>> ImportRecordBatch(ArrowArray* a, ArrowSchema* s) {
    ARROW_ASSIGN_OR_RAISE(auto sc, ImportSchema(s));
    return ImportRecordBatch(a, sc);
}

// ---------------------------------------------------------------- compute
namespace compute {
namespace {
bool IsInt(Type::type t) { return t >= Type::UINT8 && t <= Type::INT64; }
bool IsReal(Type::type t) { return t == Type::FLOAT || t == Type::DOUBLE; }
bool IsStr(Type::type t) { return t == Type::STRING || t == Type::LARGE_STRING; }
bool IsBin(Type::type t) { return t == Type::BINARY || t == Type::LARGE_BINARY; }

int64_t DaysFromCivil(int64_t y, unsigned m, unsigned d) {
    y -= m <= 2;
    const int64_t era = (y >= 0 ? y : y - 399) / 400;
    const unsigned yoe = static_cast<unsigned>(y - era * 400);
    const unsigned doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1;
    const unsigned doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    return era * 146097 + static_cast<int64_t>(doe) - 719468;
}
void CivilFromDays(int64_t z, int64_t* y, unsigned* m, unsigned* d) {
    z += 719468;
    const int64_t era = (z >= 0 ? z : z - 146096) / 146097;
    const unsigned doe = static_cast<unsigned>(z - era * 146097);
    const unsigned yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    *y = static_cast<int64_t>(yoe) + era * 400;
    const unsigned doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    const unsigned mp = (5 * doy + 2) / 153;
    *d = doy - (153 * mp + 2) / 5 + 1;
    *m = mp + (mp < 10 ? 3 : -9);
    *y += *m <= 2;
}
int64_t FloorDiv(int64_t a, int64_t b) { return a / b - ((a % b != 0) && ((a < 0) != (b < 0))); }
const int64_t kUnit[] = {1, 1000, 1000000, 1000000000};
std::string DateText(int64_t days) {
    int64_t y; unsigned m, d;
    CivilFromDays(days, &y, &m, &d);
    char b[48];
    std::snprintf(b, sizeof(b), y < 0 ? "%05" PRId64 "-%02u-%02u" : "%04" PRId64 "-%02u-%02u", y, m, d);
    return b;
}
std::string StampText(int64_t v, TimeUnit::type u) {
    int64_t per = kUnit[u], s = FloorDiv(v, per), frac = v - s * per, days = FloorDiv(s, 86400), sod = s - days * 86400;
    char b[64];
    std::snprintf(b, sizeof(b), " %02d:%02d:%02d", static_cast<int>(sod / 3600), static_cast<int>(sod / 60 % 60), static_cast<int>(sod % 60));
    std::string r = DateText(days) + b;
    if (u != TimeUnit::SECOND) {
        std::string f = std::to_string(frac);
        r += "." + std::string(3 * u - f.size(), '0') + f;
    }
    return r;
}
bool ParseDigits(const std::string& s, size_t pos, size_t n, unsigned* out) {
    if (pos + n > s.size()) return false;
    unsigned v = 0;
    for (size_t i = 0; i < n; ++i) {
        if (!isdigit(static_cast<unsigned char>(s[pos + i]))) return false;
        v = v * 10 + (s[pos + i] - '0');
    }
    *out = v;
    return true;
}
bool ParseDate(const std::string& s, int64_t* days) {
    unsigned y, m, d;
    if (s.size() != 10 || s[4] != '-' || s[7] != '-' || !ParseDigits(s, 0, 4, &y) || !ParseDigits(s, 5, 2, &m) || !ParseDigits(s, 8, 2, &d)) return false;
    static const unsigned dm[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
    if (m < 1 || m > 12 || d < 1) return false;
    unsigned lim = dm[m - 1] + (m == 2 && (y % 4 == 0 && (y % 100 != 0 || y % 400 == 0)));
    if (d > lim) return false;
    *days = DaysFromCivil(y, m, d);
    return true;
}
bool ParseStamp(const std::string& s, TimeUnit::type u, int64_t* out) {
    int64_t days;
    if (s.size() < 10 || !ParseDate(s.substr(0, 10), &days)) return false;
    unsigned h = 0, mi = 0, se = 0;
    int64_t frac = 0;
    if (s.size() > 10) {
        if (s[10] != ' ' && s[10] != 'T') return false;
        if (!ParseDigits(s, 11, 2, &h) || h > 23) return false;
        if (s.size() > 13) {
            if (s[13] != ':' || !ParseDigits(s, 14, 2, &mi) || mi > 59) return false;
            if (s.size() > 16) {
                if (s[16] != ':' || !ParseDigits(s, 17, 2, &se) || se > 59) return false;
                if (s.size() > 19) {
                    size_t n = s.size() - 20;
                    if (s[19] != '.' || n == 0 || n > static_cast<size_t>(3 * u)) return false;
                    unsigned f;
                    if (!ParseDigits(s, 20, n, &f)) return false;
                    frac = f;
                    for (size_t i = n; i < static_cast<size_t>(3 * u); ++i) frac *= 10;
                }
            }
        }
    }
    __int128 v = (static_cast<__int128>(days) * 86400 + h * 3600 + mi * 60 + se) * kUnit[u] + frac;
    if (v < INT64_MIN || v > INT64_MAX) return false;
    *out = static_cast<int64_t>(v);
    return true;
}
struct Num {
    bool real = false;
    __int128 i = 0;
    double d = 0;
};
Num NumAt(const Array& a, int64_t i) {
    Num n;
    switch (a.type_id()) {
        case Type::BOOL: n.i = dynamic_cast<const BooleanArray&>(a).Value(i); break;
#define N(ID, T) case Type::ID: n.i = dynamic_cast<const NumericArray<T>&>(a).Value(i); break;
            N(INT8, Int8Type) N(INT16, Int16Type) N(INT32, Int32Type) N(INT64, Int64Type) N(UINT8, UInt8Type) N(UINT16, UInt16Type)
            N(UINT32, UInt32Type) N(UINT64, UInt64Type) N(DATE32, Date32Type) N(TIMESTAMP, TimestampType)
#undef N
        case Type::FLOAT: n.real = true; n.d = dynamic_cast<const FloatArray&>(a).Value(i); break;
        case Type::DOUBLE: n.real = true; n.d = dynamic_cast<const DoubleArray&>(a).Value(i); break;
        default: break;
    }
    return n;
}
template <typename T>
Status AppendInt(ArrayBuilder* b, const Num& n, const CastOptions& o) {
    using C = typename T::c_type;
    auto& bb = dynamic_cast<NumericBuilder<T>&>(*b);
    if (n.real) {
        double tr = std::trunc(n.d);
        bool fits = tr >= static_cast<double>(std::numeric_limits<C>::min()) && tr < std::ldexp(1.0, std::numeric_limits<C>::digits);
        if (!o.allow_float_truncate && (!fits || tr != n.d))
            return Status::Invalid("Float value ", n.d, " was truncated converting to ", T::type_name());
        // an out-of-range conversion is undefined; as on x86 take the wrapped 64-bit result
        return bb.Append(fits ? static_cast<C>(tr) : static_cast<C>(std::numeric_limits<int64_t>::min()));
    }
    if (!o.allow_int_overflow && (n.i < std::numeric_limits<C>::min() || n.i > std::numeric_limits<C>::max()))
        return Status::Invalid("Integer value ", static_cast<int64_t>(n.i), " not in range: ", +std::numeric_limits<C>::min(), " to ", +std::numeric_limits<C>::max());
    return bb.Append(static_cast<C>(n.i));
}
Status AppendNum(ArrayBuilder* b, const DataType& to, const Num& n, const CastOptions& o) {
    switch (to.id()) {
        case Type::BOOL: return dynamic_cast<BooleanBuilder&>(*b).Append(n.real ? n.d != 0 : n.i != 0);
#define N(ID, T) case Type::ID: return AppendInt<T>(b, n, o);
            N(INT8, Int8Type) N(INT16, Int16Type) N(INT32, Int32Type) N(INT64, Int64Type) N(UINT8, UInt8Type) N(UINT16, UInt16Type) N(UINT32, UInt32Type) N(UINT64, UInt64Type)
#undef N
        case Type::FLOAT: return dynamic_cast<FloatBuilder&>(*b).Append(n.real ? static_cast<float>(n.d) : static_cast<float>(n.i));
        case Type::DOUBLE: return dynamic_cast<DoubleBuilder&>(*b).Append(n.real ? n.d : static_cast<double>(n.i));
        default: return Status::NotImplemented("cast to ", to.ToString());
    }
}
std::string RealText(double d, bool single) {
    if (std::isnan(d)) return "nan";
    if (std::isinf(d)) return d < 0 ? "-inf" : "inf";
    char b[64];
    for (int p = 1; p <= 17; ++p) {
        std::snprintf(b, sizeof(b), "%.*g", p, d);
        if (single ? std::strtof(b, nullptr) == static_cast<float>(d) : std::strtod(b, nullptr) == d) break;
    }
    std::string s = b;
    if (s.find_first_of(".eE") == std::string::npos) s += ".0";
    return s;
}
std::string_view StrAt(const Array& a, int64_t i) {
    if (a.type_id() == Type::STRING || a.type_id() == Type::BINARY) return dynamic_cast<const BinaryArray&>(a).GetView(i);
    return dynamic_cast<const LargeBinaryArray&>(a).GetView(i);
}
Status AppendStr(ArrayBuilder* b, std::string_view v) {
    if (auto* s = dynamic_cast<BinaryBuilder*>(b)) return s->Append(v);
    return dynamic_cast<LargeBinaryBuilder&>(*b).Append(v);
}
Status CastOne(ArrayBuilder* b, const Array& a, int64_t i, const DataType& to, const CastOptions& o) {
    if (a.IsNull(i)) return b->AppendNull();
    auto f = a.type_id(), t = to.id();
    auto bad = [&] { return Status::NotImplemented("Unsupported cast from ", a.type()->ToString(), " to ", to.ToString()); };
    if (f == Type::DICTIONARY) {
        auto& d = dynamic_cast<const DictionaryArray&>(a);
        return CastOne(b, *d.dictionary(), d.GetValueIndex(i), to, o);
    }
    if (a.type()->Equals(to)) return b->AppendFrom(a, i);
    bool fn = f == Type::BOOL || IsInt(f) || IsReal(f), tn = t == Type::BOOL || IsInt(t) || IsReal(t);
    if (fn && tn) return AppendNum(b, to, NumAt(a, i), o);
    if ((IsStr(f) || IsBin(f)) && (IsStr(t) || IsBin(t))) return AppendStr(b, StrAt(a, i));
    if (IsStr(t)) {
        if (f == Type::BOOL) return AppendStr(b, NumAt(a, i).i ? "true" : "false");
        if (IsInt(f)) return AppendStr(b, Decimal128(BasicDecimal128::From(NumAt(a, i).i)).ToIntegerString());
        if (IsReal(f)) return AppendStr(b, RealText(NumAt(a, i).d, f == Type::FLOAT));
        if (f == Type::DATE32) return AppendStr(b, DateText(static_cast<int64_t>(NumAt(a, i).i)));
        if (f == Type::TIMESTAMP) {
            auto& ty = dynamic_cast<const TimestampType&>(*a.type());
            return AppendStr(b, StampText(static_cast<int64_t>(NumAt(a, i).i), ty.unit()) + (ty.timezone().empty() ? "" : "Z"));
        }
        if (f == Type::DECIMAL128) return AppendStr(b, dynamic_cast<const Decimal128Array&>(a).FormatValue(i));
        return bad();
    }
    if (IsStr(f)) {
        std::string s(StrAt(a, i));
        auto fail = [&] { return Status::Invalid("Failed to parse string: '", s, "' as a scalar of type ", to.ToString()); };
        if (t == Type::BOOL) {
            std::string l = s;
            for (auto& c : l) c = static_cast<char>(std::tolower(static_cast<unsigned char>(c)));
            if (l == "true" || l == "1") return dynamic_cast<BooleanBuilder&>(*b).Append(true);
            if (l == "false" || l == "0") return dynamic_cast<BooleanBuilder&>(*b).Append(false);
            return fail();
        }
        if (IsInt(t)) {
            size_t p = 0;
            bool neg = false;
            if (p < s.size() && s[p] == '-') { neg = true; ++p; }
            if (p == s.size() || s.size() - p > 30) return fail();
            Num n;
            for (; p < s.size(); ++p) {
                if (!isdigit(static_cast<unsigned char>(s[p]))) return fail();
                n.i = n.i * 10 + (s[p] - '0');
            }
            if (neg) n.i = -n.i;
            auto st = AppendNum(b, to, n, CastOptions::Safe());
            return st.ok() ? st : fail();
        }
        if (IsReal(t)) {
            Num n;
            n.real = true;
            if (t == Type::FLOAT) {
                float x;
                if (!internal::StringToFloat(s.data(), s.size(), '.', &x)) return fail();
                n.d = x;
            } else if (!internal::StringToFloat(s.data(), s.size(), '.', &n.d)) {
                return fail();
            }
            return AppendNum(b, to, n, o);
        }
        if (t == Type::DATE32) {
            int64_t d;
            if (!ParseDate(s, &d)) return fail();
            return dynamic_cast<Date32Builder&>(*b).Append(static_cast<int32_t>(d));
        }
        if (t == Type::TIMESTAMP) {
            int64_t v;
            if (!ParseStamp(s, dynamic_cast<const TimestampType&>(to).unit(), &v)) return fail();
            return dynamic_cast<TimestampBuilder&>(*b).Append(v);
        }
        return bad();
    }
    if (f == Type::DATE32 && t == Type::INT32) return dynamic_cast<Int32Builder&>(*b).Append(static_cast<int32_t>(NumAt(a, i).i));
    if (f == Type::INT32 && t == Type::DATE32) return dynamic_cast<Date32Builder&>(*b).Append(static_cast<int32_t>(NumAt(a, i).i));
    if (f == Type::TIMESTAMP && t == Type::INT64) return dynamic_cast<Int64Builder&>(*b).Append(static_cast<int64_t>(NumAt(a, i).i));
    if (f == Type::INT64 && t == Type::TIMESTAMP) return dynamic_cast<TimestampBuilder&>(*b).Append(static_cast<int64_t>(NumAt(a, i).i));
    if (f == Type::TIMESTAMP && t == Type::TIMESTAMP) {
        auto fu = dynamic_cast<const TimestampType&>(*a.type()).unit(), tu = dynamic_cast<const TimestampType&>(to).unit();
        __int128 v = NumAt(a, i).i;
        if (tu >= fu) v *= kUnit[tu] / kUnit[fu];
        else {
            int64_t q = kUnit[fu] / kUnit[tu];
            if (!o.allow_time_truncate && v % q != 0) return Status::Invalid("Casting from ", a.type()->ToString(), " to ", to.ToString(), " would lose data: ", static_cast<int64_t>(v));
            v /= q;
        }
        if (v < INT64_MIN || v > INT64_MAX) return Status::Invalid("Casting from ", a.type()->ToString(), " to ", to.ToString(), " would result in out of bounds timestamp: ", static_cast<int64_t>(NumAt(a, i).i));
        return dynamic_cast<TimestampBuilder&>(*b).Append(static_cast<int64_t>(v));
    }
    if (f == Type::DATE32 && t == Type::TIMESTAMP) {
        __int128 v = NumAt(a, i).i * 86400 * kUnit[dynamic_cast<const TimestampType&>(to).unit()];
        if (v < INT64_MIN || v > INT64_MAX) return Status::Invalid("Casting from date32 to ", to.ToString(), " would result in out of bounds timestamp");
        return dynamic_cast<TimestampBuilder&>(*b).Append(static_cast<int64_t>(v));
    }
    if (f == Type::TIMESTAMP && t == Type::DATE32) {
        int64_t per = kUnit[dynamic_cast<const TimestampType&>(*a.type()).unit()] * 86400;
        return dynamic_cast<Date32Builder&>(*b).Append(static_cast<int32_t>(FloorDiv(static_cast<int64_t>(NumAt(a, i).i), per)));
    }
    if (f == Type::DECIMAL128) {
        Decimal128 d(dynamic_cast<const Decimal128Array&>(a).GetValue(i));
        int32_t s = dynamic_cast<const DecimalType&>(*a.type()).scale();
        if (IsReal(t)) {
            Num n;
            n.real = true;
            n.d = t == Type::FLOAT ? d.ToFloat(s) : d.ToDouble(s);
            return AppendNum(b, to, n, o);
        }
        if (IsInt(t)) {
            BasicDecimal128 r = s > 0 ? d.ReduceScaleBy(s, false) : d.IncreaseScaleBy(-s);
            if (!o.allow_decimal_truncate && s > 0 && r.IncreaseScaleBy(s) != d) return Status::Invalid("Rescaling Decimal128 value would cause data loss");
            Num n;
            n.i = r.raw();
            return AppendNum(b, to, n, o);
        }
        if (t == Type::DECIMAL128) {
            auto& ty = dynamic_cast<const DecimalType&>(to);
            if (o.allow_decimal_truncate) {
                BasicDecimal128 r = ty.scale() < s ? d.ReduceScaleBy(s - ty.scale(), false) : d.IncreaseScaleBy(ty.scale() - s);
                return dynamic_cast<Decimal128Builder&>(*b).Append(Decimal128(r));
            }
            ARROW_ASSIGN_OR_RAISE(auto r, d.Rescale(s, ty.scale()));
            if (!r.FitsInPrecision(ty.precision())) return Status::Invalid("Decimal value does not fit in precision ", ty.precision());
            return dynamic_cast<Decimal128Builder&>(*b).Append(r);
        }
        return bad();
    }
    if (t == Type::DECIMAL128) {
        auto& ty = dynamic_cast<const DecimalType&>(to);
        if (IsInt(f)) {
            Decimal128 d(BasicDecimal128::From(NumAt(a, i).i));
            ARROW_ASSIGN_OR_RAISE(auto r, d.Rescale(0, ty.scale()));
            if (!r.FitsInPrecision(ty.precision())) return Status::Invalid("Decimal value does not fit in precision ", ty.precision());
            return dynamic_cast<Decimal128Builder&>(*b).Append(r);
        }
        if (IsReal(f)) {
            ARROW_ASSIGN_OR_RAISE(auto r, Decimal128::FromReal(NumAt(a, i).d, ty.precision(), ty.scale()));
            return dynamic_cast<Decimal128Builder&>(*b).Append(r);
        }
    }
    return bad();
}
}  // namespace
bool CanCast(const DataType& from, const DataType& to) {
    auto f = from.id(), t = to.id();
    if (f == Type::DICTIONARY) return CanCast(*dynamic_cast<const DictionaryType&>(from).value_type(), to);
    auto basic = [](Type::type x) {
        return x == Type::BOOL || IsInt(x) || IsReal(x) || IsStr(x) || IsBin(x) || x == Type::DATE32 || x == Type::TIMESTAMP || x == Type::DECIMAL128;
    };
    if (!basic(f) || !basic(t)) return from.Equals(to);
    if (IsBin(t)) return IsStr(f) || IsBin(f);
    if (IsBin(f)) return IsStr(t);
    if (IsStr(f) || IsStr(t)) return !(IsStr(f) && t == Type::DECIMAL128);
    bool fn = f == Type::BOOL || IsInt(f) || IsReal(f), tn = t == Type::BOOL || IsInt(t) || IsReal(t);
    if (fn && tn) return true;
    if (f == Type::DATE32) return t == Type::DATE32 || t == Type::INT32 || t == Type::TIMESTAMP;
    if (f == Type::TIMESTAMP) return t == Type::TIMESTAMP || t == Type::INT64 || t == Type::DATE32;
    if (f == Type::DECIMAL128) return IsInt(t) || IsReal(t) || t == Type::DECIMAL128;
    if (t == Type::DATE32) return f == Type::INT32;
    if (t == Type::TIMESTAMP) return f == Type::INT64;
    if (t == Type::DECIMAL128) return IsInt(f) || IsReal(f);
    return false;
}
Result<std::shared_ptr<Array>> Cast(const Array& a, const TypeHolder& to, const CastOptions& o, ExecContext* ctx) {
    auto t = to.GetSharedPtr();
    ARROW_ASSIGN_OR_RAISE(auto b, MakeBuilder(t, ctx ? ctx->memory_pool() : default_memory_pool()));
    for (int64_t i = 0; i < a.length(); ++i) ARROW_RETURN_NOT_OK(CastOne(b.get(), a, i, *t, o));
    return b->Finish();
}
Result<Datum> Cast(const Datum& d, const TypeHolder& to, const CastOptions& o, ExecContext* ctx) {
    if (d.is_array()) {
        ARROW_ASSIGN_OR_RAISE(auto r, Cast(*d.make_array(), to, o, ctx));
        return Datum(r);
    }
    ARROW_ASSIGN_OR_RAISE(auto one, MakeArrayFromScalar(*d.scalar(), 1));
    ARROW_ASSIGN_OR_RAISE(auto r, Cast(*one, to, o, ctx));
    ARROW_ASSIGN_OR_RAISE(auto s, r->GetScalar(0));
    return Datum(s);
}
// Fixed-offset zones only: "UTC", "GMT", "Etc/UTC" and "+HH:MM".
static Result<int64_t> ZoneSeconds(const std::string& tz) {
    if (tz.empty() || tz == "UTC" || tz == "GMT" || tz == "Etc/UTC" || tz == "Z") return static_cast<int64_t>(0);
    if (tz == "Asia/Shanghai") return static_cast<int64_t>(8 * 3600);
    if (tz.size() == 6 && (tz[0] == '+' || tz[0] == '-'))
        return (tz[0] == '-' ? -1 : 1) * static_cast<int64_t>(std::stoi(tz.substr(1, 2)) * 3600 + std::stoi(tz.substr(4, 2)) * 60);
    return Status::Invalid("Cannot locate timezone '", tz, "'");
}
static Result<Datum> Shift(const Datum& d, int64_t seconds, const std::shared_ptr<DataType>& t, ExecContext* ctx) {
    std::shared_ptr<Array> a = d.is_array() ? d.make_array() : nullptr;
    if (!a) { ARROW_ASSIGN_OR_RAISE(a, MakeArrayFromScalar(*d.scalar(), 1)); }
    TimestampBuilder b(t, ctx ? ctx->memory_pool() : default_memory_pool());
    int64_t per = kUnit[dynamic_cast<const TimestampType&>(*t).unit()];
    for (int64_t i = 0; i < a->length(); ++i) {
        if (a->IsNull(i)) ARROW_RETURN_NOT_OK(b.AppendNull());
        else ARROW_RETURN_NOT_OK(b.Append(dynamic_cast<const TimestampArray&>(*a).Value(i) + seconds * per));
    }
    ARROW_ASSIGN_OR_RAISE(auto r, static_cast<ArrayBuilder&>(b).Finish());
    if (d.is_array()) return Datum(r);
    ARROW_ASSIGN_OR_RAISE(auto s, r->GetScalar(0));
    return Datum(s);
}
Result<Datum> AssumeTimezone(const Datum& d, const AssumeTimezoneOptions& o, ExecContext* ctx) {
    ARROW_ASSIGN_OR_RAISE(int64_t off, ZoneSeconds(o.timezone));
    auto& t = dynamic_cast<const TimestampType&>(*d.type());
    if (!t.timezone().empty()) return Status::Invalid("Timestamps already have a timezone: '", t.timezone(), "'. Cannot localize to '", o.timezone, "'.");
    return Shift(d, -off, timestamp(t.unit(), o.timezone), ctx);
}
Result<Datum> LocalTimestamp(const Datum& d, ExecContext* ctx) {
    auto& t = dynamic_cast<const TimestampType&>(*d.type());
    ARROW_ASSIGN_OR_RAISE(int64_t off, ZoneSeconds(t.timezone()));
    return Shift(d, off, timestamp(t.unit()), ctx);
}
namespace {
int CompareAt(const Array& a, int64_t i, int64_t j) {
    switch (a.type_id()) {
        case Type::STRING: case Type::BINARY: case Type::LARGE_STRING: case Type::LARGE_BINARY: {
            int c = StrAt(a, i).compare(StrAt(a, j));
            return c < 0 ? -1 : c > 0;
        }
        case Type::DECIMAL128: {
            auto& d = dynamic_cast<const Decimal128Array&>(a);
            auto x = Decimal128(d.GetValue(i)).raw(), y = Decimal128(d.GetValue(j)).raw();
            return x < y ? -1 : x > y;
        }
        default: {
            Num x = NumAt(a, i), y = NumAt(a, j);
            if (x.real) {
                bool nx = std::isnan(x.d), ny = std::isnan(y.d);
                if (nx || ny) return nx == ny ? 0 : (nx ? -1 : 1);  // with the nulls, at the start
                return x.d < y.d ? -1 : x.d > y.d;
            }
            return x.i < y.i ? -1 : x.i > y.i;
        }
    }
}
}  // namespace
Result<std::shared_ptr<Array>> SortIndices(const Datum& d, const SortOptions& o, ExecContext*) {
    auto s = std::dynamic_pointer_cast<StructArray>(d.make_array());
    if (!s) return Status::TypeError("can only sort struct arrays");
    std::vector<std::shared_ptr<Array>> cols;
    for (auto& k : o.sort_keys) {
        auto c = s->GetFieldByName(k.name);
        if (!c) return Status::Invalid("No match for FieldRef.Name(", k.name, ")");
        auto id = c->type_id();
        if (id == Type::STRUCT || id == Type::LIST || id == Type::MAP) return Status::TypeError("Unsupported type for sorting: ", c->type()->ToString());
        cols.push_back(c);
    }
    std::vector<uint64_t> idx(s->length());
    std::iota(idx.begin(), idx.end(), 0);
    std::stable_sort(idx.begin(), idx.end(), [&](uint64_t x, uint64_t y) {
        for (size_t k = 0; k < cols.size(); ++k) {
            bool nx = cols[k]->IsNull(x), ny = cols[k]->IsNull(y);
            if (nx || ny) {
                if (nx == ny) continue;
                return o.null_placement == NullPlacement::AtStart ? nx : ny;
            }
            int c = CompareAt(*cols[k], x, y);
            if (c) return o.sort_keys[k].order == SortOrder::Ascending ? c < 0 : c > 0;
        }
        return false;
    });
    UInt64Builder b;
    ARROW_RETURN_NOT_OK(b.AppendValues(idx));
    return static_cast<ArrayBuilder&>(b).Finish();
}
Result<std::shared_ptr<Array>> Take(const Array& a, const Array& indices, MemoryPool* pool) {
    ARROW_ASSIGN_OR_RAISE(auto b, MakeBuilder(a.type(), pool));
    for (int64_t i = 0; i < indices.length(); ++i) {
        if (indices.IsNull(i)) ARROW_RETURN_NOT_OK(b->AppendNull());
        else ARROW_RETURN_NOT_OK(AppendPlain(b.get(), a, static_cast<int64_t>(NumAt(indices, i).i)));
    }
    return b->Finish();
}
}  // namespace compute
}  // namespace arrow
