// A small stand-in for the parts of Apache Arrow that paimon-cpp's own code calls, so that this
// code can be built and monitored on a machine without Arrow.  It follows the public Arrow API and
// memory layout (validity bitmaps, offsets, slices, the C data interface).  It is trusted code of
// the checks, not code under test.
#pragma once

#include <algorithm>
#include <array>
#include <atomic>
#include <cassert>
#include <chrono>
#include <cmath>
#include <cstdint>
#include <cstring>
#include <functional>
#include <iostream>
#include <iterator>
#include <limits>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <optional>
#include <set>
#include <sstream>
#include <string>
#include <string_view>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <variant>
#include <vector>

#include "arrow/c/abi.h"
#include "arrow/c/helpers.h"

#define ARROW_PREDICT_FALSE(x) (__builtin_expect(!!(x), 0))
#define ARROW_PREDICT_TRUE(x) (__builtin_expect(!!(x), 1))
#define ARROW_CONCAT_(x, y) x##y
#define ARROW_CONCAT(x, y) ARROW_CONCAT_(x, y)
#define ARROW_RETURN_NOT_OK(s)                            \
    do {                                                  \
        ::arrow::Status _vs = ::arrow::ToStatus_((s));    \
        if (!_vs.ok()) return _vs;                        \
    } while (0)
#define ARROW_ASSIGN_OR_RAISE_IMPL(rname, lhs, rexpr) \
    auto&& rname = (rexpr);                           \
    if (!rname.ok()) return rname.status();           \
    lhs = std::move(rname).ValueUnsafe();
#define ARROW_ASSIGN_OR_RAISE(lhs, rexpr) \
    ARROW_ASSIGN_OR_RAISE_IMPL(ARROW_CONCAT(_mini_eov, __COUNTER__), lhs, rexpr)

namespace arrow {

// ---------------------------------------------------------------- status
enum class StatusCode : char {
    OK = 0, OutOfMemory = 1, KeyError = 2, TypeError = 3, Invalid = 4, IOError = 5,
    CapacityError = 6, IndexError = 7, Cancelled = 8, UnknownError = 9, NotImplemented = 10,
    SerializationError = 11, AlreadyExists = 45
};

class Status {
 public:
    Status() = default;
    Status(StatusCode code, std::string msg) : code_(code), msg_(std::move(msg)) {}
    static Status OK() { return {}; }
    template <typename... A>
    static Status FromArgs(StatusCode c, A&&... a) {
        std::ostringstream os;
        (os << ... << a);
        return Status(c, os.str());
    }
#define MINI_ST(N)                                        \
    template <typename... A>                              \
    static Status N(A&&... a) {                           \
        return FromArgs(StatusCode::N, std::forward<A>(a)...); \
    }                                                     \
    bool Is##N() const { return code_ == StatusCode::N; }
    MINI_ST(OutOfMemory) MINI_ST(KeyError) MINI_ST(TypeError) MINI_ST(Invalid) MINI_ST(IOError)
    MINI_ST(CapacityError) MINI_ST(IndexError) MINI_ST(Cancelled) MINI_ST(UnknownError)
    MINI_ST(NotImplemented) MINI_ST(SerializationError)
#undef MINI_ST
    bool ok() const { return code_ == StatusCode::OK; }
    StatusCode code() const { return code_; }
    const std::string& message() const { return msg_; }
    std::string ToString() const;
    bool Equals(const Status& o) const { return code_ == o.code_ && msg_ == o.msg_; }
    bool operator==(const Status& o) const { return Equals(o); }
    bool operator!=(const Status& o) const { return !Equals(o); }

 private:
    StatusCode code_ = StatusCode::OK;
    std::string msg_;
};
inline std::ostream& operator<<(std::ostream& os, const Status& s) { return os << s.ToString(); }

template <typename T>
class Result {
 public:
    using ValueType = T;
    Result() : v_(Status::UnknownError("uninitialized")) {}
    Result(const Status& s) : v_(s) { assert(!s.ok()); }  // NOLINT
    Result(Status&& s) : v_(std::move(s)) {}              // NOLINT
    template <typename U, std::enable_if_t<std::is_convertible_v<U, T> &&
                                           !std::is_same_v<std::decay_t<U>, Status> &&
                                           !std::is_same_v<std::decay_t<U>, Result>>* = nullptr>
    Result(U&& u) : v_(std::in_place_index<1>, std::forward<U>(u)) {}  // NOLINT
    template <typename U, std::enable_if_t<std::is_convertible_v<U, T> && !std::is_same_v<U, T>>* = nullptr>
    Result(Result<U>&& o) : v_(Status::UnknownError("")) {  // NOLINT
        if (o.ok()) v_.template emplace<1>(std::move(o).ValueUnsafe());
        else v_.template emplace<0>(o.status());
    }
    bool ok() const { return v_.index() == 1; }
    Status status() const { return ok() ? Status::OK() : std::get<0>(v_); }
    const T& ValueUnsafe() const& { return std::get<1>(v_); }
    T& ValueUnsafe() & { return std::get<1>(v_); }
    T ValueUnsafe() && { return std::move(std::get<1>(v_)); }
    const T& ValueOrDie() const& { return ValueUnsafe(); }
    T& ValueOrDie() & { return ValueUnsafe(); }
    T ValueOrDie() && { return std::move(std::get<1>(v_)); }
    T MoveValueUnsafe() { return std::move(std::get<1>(v_)); }
    const T& operator*() const& { return ValueUnsafe(); }
    T& operator*() & { return ValueUnsafe(); }
    T operator*() && { return std::move(std::get<1>(v_)); }
    const T* operator->() const { return &std::get<1>(v_); }
    T* operator->() { return &std::get<1>(v_); }
    template <typename U>
    T ValueOr(U&& alt) const& { return ok() ? ValueUnsafe() : T(std::forward<U>(alt)); }
    template <typename U>
    Status Value(U* out) && {
        if (!ok()) return status();
        *out = std::move(std::get<1>(v_));
        return Status::OK();
    }

 private:
    std::variant<Status, T> v_;
};
inline Status ToStatus_(const Status& s) { return s; }
template <typename T>
Status ToStatus_(const Result<T>& r) { return r.status(); }

// ---------------------------------------------------------------- memory
class MemoryPool {
 public:
    virtual ~MemoryPool() = default;
    Status Allocate(int64_t size, uint8_t** out) { return Allocate(size, 64, out); }
    virtual Status Allocate(int64_t size, int64_t alignment, uint8_t** out) = 0;
    virtual Status Reallocate(int64_t old_size, int64_t new_size, int64_t alignment, uint8_t** ptr) = 0;
    virtual void Free(uint8_t* buffer, int64_t size, int64_t alignment) = 0;
    void Free(uint8_t* buffer, int64_t size) { Free(buffer, size, 64); }
    virtual void ReleaseUnused() {}
    virtual int64_t bytes_allocated() const = 0;
    virtual int64_t max_memory() const { return 0; }
    virtual int64_t total_bytes_allocated() const = 0;
    virtual int64_t num_allocations() const = 0;
    virtual std::string backend_name() const = 0;
};
MemoryPool* default_memory_pool();

namespace internal {
class MemoryPoolStats {
 public:
    int64_t max_memory() const { return max_; }
    int64_t bytes_allocated() const { return cur_; }
    int64_t total_bytes_allocated() const { return total_; }
    int64_t num_allocations() const { return num_; }
    void DidAllocateBytes(int64_t n) { Grow(n); total_ += n; ++num_; }
    void DidReallocateBytes(int64_t o, int64_t n) {
        if (n > o) { Grow(n - o); total_ += n - o; ++num_; } else { cur_ -= o - n; }
    }
    void DidFreeBytes(int64_t n) { cur_ -= n; }

 private:
    void Grow(int64_t n) {
        int64_t now = cur_.fetch_add(n) + n, m = max_;
        while (m < now && !max_.compare_exchange_weak(m, now)) {}
    }
    std::atomic<int64_t> max_{0}, cur_{0}, total_{0}, num_{0};
};
}  // namespace internal

class Buffer {
 public:
    Buffer(const uint8_t* data, int64_t size) : data_(const_cast<uint8_t*>(data)), size_(size) {}
    Buffer(const uint8_t* data, int64_t size, std::shared_ptr<void> keep)
        : data_(const_cast<uint8_t*>(data)), size_(size), keep_(std::move(keep)) {}
    virtual ~Buffer() = default;
    const uint8_t* data() const { return data_; }
    uint8_t* mutable_data() { return data_; }
    int64_t size() const { return size_; }
    int64_t capacity() const { return size_; }
    template <typename T> const T* data_as() const { return reinterpret_cast<const T*>(data_); }
    template <typename T> T* mutable_data_as() { return reinterpret_cast<T*>(data_); }
    std::string ToString() const { return std::string(reinterpret_cast<const char*>(data_), size_); }
    static std::shared_ptr<Buffer> FromString(std::string s);

 protected:
    uint8_t* data_;
    int64_t size_;
    std::shared_ptr<void> keep_;
};
/// Zero-filled buffer taken from the pool and given back to it when dropped.
Result<std::unique_ptr<Buffer>> AllocateBuffer(int64_t size, MemoryPool* pool = default_memory_pool());

namespace bit_util {
inline bool GetBit(const uint8_t* b, int64_t i) { return (b[i >> 3] >> (i & 7)) & 1; }
inline void SetBit(uint8_t* b, int64_t i) { b[i >> 3] |= static_cast<uint8_t>(1u << (i & 7)); }
inline void ClearBit(uint8_t* b, int64_t i) { b[i >> 3] &= static_cast<uint8_t>(~(1u << (i & 7))); }
inline int64_t BytesForBits(int64_t n) { return (n + 7) >> 3; }
}  // namespace bit_util
constexpr int64_t kUnknownNullCount = -1;

// ---------------------------------------------------------------- metadata
class KeyValueMetadata {
 public:
    KeyValueMetadata() = default;
    KeyValueMetadata(std::vector<std::string> k, std::vector<std::string> v) : k_(std::move(k)), v_(std::move(v)) {}
    explicit KeyValueMetadata(const std::unordered_map<std::string, std::string>& m) {
        std::map<std::string, std::string> s(m.begin(), m.end());
        for (auto& [a, b] : s) Append(a, b);
    }
    static std::shared_ptr<KeyValueMetadata> Make(std::vector<std::string> k, std::vector<std::string> v) {
        return std::make_shared<KeyValueMetadata>(std::move(k), std::move(v));
    }
    void Append(std::string k, std::string v) { k_.push_back(std::move(k)); v_.push_back(std::move(v)); }
    void ToUnorderedMap(std::unordered_map<std::string, std::string>* out) const {
        for (size_t i = 0; i < k_.size(); ++i) (*out)[k_[i]] = v_[i];
    }
    int FindKey(std::string_view k) const {
        for (size_t i = 0; i < k_.size(); ++i) if (k_[i] == k) return static_cast<int>(i);
        return -1;
    }
    bool Contains(std::string_view k) const { return FindKey(k) >= 0; }
    Result<std::string> Get(std::string_view k) const {
        int i = FindKey(k);
        if (i < 0) return Status::KeyError(std::string(k));
        return v_[i];
    }
    Status Set(const std::string& k, const std::string& v) {
        int i = FindKey(k);
        if (i < 0) Append(k, v); else v_[i] = v;
        return Status::OK();
    }
    Status Delete(std::string_view k) {
        int i = FindKey(k);
        if (i < 0) return Status::KeyError(std::string(k));
        k_.erase(k_.begin() + i); v_.erase(v_.begin() + i);
        return Status::OK();
    }
    int64_t size() const { return static_cast<int64_t>(k_.size()); }
    const std::string& key(int64_t i) const { return k_[i]; }
    const std::string& value(int64_t i) const { return v_[i]; }
    const std::vector<std::string>& keys() const { return k_; }
    const std::vector<std::string>& values() const { return v_; }
    std::shared_ptr<KeyValueMetadata> Copy() const { return std::make_shared<KeyValueMetadata>(*this); }
    std::shared_ptr<KeyValueMetadata> Merge(const KeyValueMetadata& o) const {
        auto c = Copy();
        for (int64_t i = 0; i < o.size(); ++i) (void)c->Set(o.key(i), o.value(i));
        return c;
    }
    std::vector<std::pair<std::string, std::string>> sorted_pairs() const {
        std::vector<std::pair<std::string, std::string>> p;
        for (size_t i = 0; i < k_.size(); ++i) p.emplace_back(k_[i], v_[i]);
        std::sort(p.begin(), p.end());
        return p;
    }
    bool Equals(const KeyValueMetadata& o) const { return sorted_pairs() == o.sorted_pairs(); }
    std::string ToString() const;

 private:
    std::vector<std::string> k_, v_;
};
inline std::shared_ptr<KeyValueMetadata> key_value_metadata(std::vector<std::string> k, std::vector<std::string> v) {
    return KeyValueMetadata::Make(std::move(k), std::move(v));
}
inline std::shared_ptr<KeyValueMetadata> key_value_metadata(const std::unordered_map<std::string, std::string>& m) {
    return std::make_shared<KeyValueMetadata>(m);
}

// ---------------------------------------------------------------- types
struct Type {
    enum type {
        NA = 0, BOOL, UINT8, INT8, UINT16, INT16, UINT32, INT32, UINT64, INT64, HALF_FLOAT, FLOAT,
        DOUBLE, STRING, BINARY, FIXED_SIZE_BINARY, DATE32, DATE64, TIMESTAMP, TIME32, TIME64,
        INTERVAL_MONTHS, INTERVAL_DAY_TIME, DECIMAL128, DECIMAL = DECIMAL128, DECIMAL256, LIST,
        STRUCT, SPARSE_UNION, DENSE_UNION, DICTIONARY, MAP, EXTENSION, FIXED_SIZE_LIST, DURATION,
        LARGE_STRING, LARGE_BINARY, LARGE_LIST, INTERVAL_MONTH_DAY_NANO, RUN_END_ENCODED,
        STRING_VIEW, BINARY_VIEW, LIST_VIEW, LARGE_LIST_VIEW, MAX_ID
    };
};
struct TimeUnit {
    enum type { SECOND = 0, MILLI = 1, MICRO = 2, NANO = 3 };
};
namespace internal {
std::string ToString(Type::type id);
std::string ToString(TimeUnit::type unit);
}  // namespace internal

class Field;
class DataType;
class Array;
class Schema;
using FieldVector = std::vector<std::shared_ptr<Field>>;
using DataTypeVector = std::vector<std::shared_ptr<DataType>>;

class DataType : public std::enable_shared_from_this<DataType> {
 public:
    explicit DataType(Type::type id) : id_(id) {}
    virtual ~DataType() = default;
    Type::type id() const { return id_; }
    virtual std::string name() const = 0;
    virtual std::string ToString(bool show_metadata = false) const { return name(); }
    bool Equals(const DataType& o, bool check_metadata = false) const;
    bool Equals(const std::shared_ptr<DataType>& o, bool check_metadata = false) const {
        return o && Equals(*o, check_metadata);
    }
    const std::shared_ptr<Field>& field(int i) const { return children_[i]; }
    const FieldVector& fields() const { return children_; }
    int num_fields() const { return static_cast<int>(children_.size()); }
    std::shared_ptr<DataType> GetSharedPtr() const {
        return const_cast<DataType*>(this)->shared_from_this();
    }
    bool operator==(const DataType& o) const { return Equals(o); }

 protected:
    Type::type id_;
    FieldVector children_;
};
inline std::ostream& operator<<(std::ostream& os, const DataType& t) { return os << t.ToString(); }

class Field {
 public:
    Field(std::string name, std::shared_ptr<DataType> type, bool nullable = true,
          std::shared_ptr<const KeyValueMetadata> md = nullptr)
        : name_(std::move(name)), type_(std::move(type)), nullable_(nullable), md_(std::move(md)) {}
    const std::string& name() const { return name_; }
    const std::shared_ptr<DataType>& type() const { return type_; }
    bool nullable() const { return nullable_; }
    std::shared_ptr<const KeyValueMetadata> metadata() const { return md_; }
    bool HasMetadata() const { return md_ && md_->size() > 0; }
    std::shared_ptr<Field> WithMetadata(const std::shared_ptr<const KeyValueMetadata>& md) const {
        return std::make_shared<Field>(name_, type_, nullable_, md);
    }
    std::shared_ptr<Field> WithMergedMetadata(const std::shared_ptr<const KeyValueMetadata>& md) const {
        return std::make_shared<Field>(name_, type_, nullable_, md_ ? (md ? md_->Merge(*md) : md_->Copy()) : (md ? md->Copy() : nullptr));
    }
    std::shared_ptr<Field> RemoveMetadata() const { return std::make_shared<Field>(name_, type_, nullable_); }
    std::shared_ptr<Field> WithType(const std::shared_ptr<DataType>& t) const {
        return std::make_shared<Field>(name_, t, nullable_, md_);
    }
    std::shared_ptr<Field> WithName(const std::string& n) const {
        return std::make_shared<Field>(n, type_, nullable_, md_);
    }
    std::shared_ptr<Field> WithNullable(bool n) const {
        return std::make_shared<Field>(name_, type_, n, md_);
    }
    bool Equals(const Field& o, bool check_metadata = false) const;
    bool Equals(const std::shared_ptr<Field>& o, bool check_metadata = false) const {
        return o && Equals(*o, check_metadata);
    }
    std::string ToString(bool show_metadata = false) const;
    std::shared_ptr<Field> Copy() const { return std::make_shared<Field>(*this); }

 private:
    std::string name_;
    std::shared_ptr<DataType> type_;
    bool nullable_;
    std::shared_ptr<const KeyValueMetadata> md_;
};

struct PhysicalInt {};
class FixedWidthType : public DataType {
 public:
    using DataType::DataType;
    virtual int bit_width() const = 0;
};
class PrimitiveCType : public FixedWidthType { public: using FixedWidthType::FixedWidthType; };
class NumberType : public PrimitiveCType { public: using PrimitiveCType::PrimitiveCType; };
class IntegerType : public NumberType { public: using NumberType::NumberType; };
class FloatingPointType : public NumberType { public: using NumberType::NumberType; };

#define MINI_CTYPE(N, BASE, ID, C, NAME)                                   \
    class N : public BASE {                                                \
     public:                                                               \
        static constexpr Type::type type_id = Type::ID;                    \
        using c_type = C;                                                  \
        using PhysicalType = N;                                            \
        static constexpr const char* type_name() { return NAME; }          \
        N() : BASE(Type::ID) {}                                            \
        int bit_width() const override { return sizeof(C) * 8; }           \
        std::string name() const override { return NAME; }                 \
    };
class NullType : public DataType {
 public:
    static constexpr Type::type type_id = Type::NA;
    NullType() : DataType(Type::NA) {}
    std::string name() const override { return "null"; }
};
class BooleanType : public PrimitiveCType {
 public:
    static constexpr Type::type type_id = Type::BOOL;
    using c_type = bool;
    BooleanType() : PrimitiveCType(Type::BOOL) {}
    int bit_width() const override { return 1; }
    std::string name() const override { return "bool"; }
};
MINI_CTYPE(UInt8Type, IntegerType, UINT8, uint8_t, "uint8")
MINI_CTYPE(Int8Type, IntegerType, INT8, int8_t, "int8")
MINI_CTYPE(UInt16Type, IntegerType, UINT16, uint16_t, "uint16")
MINI_CTYPE(Int16Type, IntegerType, INT16, int16_t, "int16")
MINI_CTYPE(UInt32Type, IntegerType, UINT32, uint32_t, "uint32")
MINI_CTYPE(Int32Type, IntegerType, INT32, int32_t, "int32")
MINI_CTYPE(UInt64Type, IntegerType, UINT64, uint64_t, "uint64")
MINI_CTYPE(Int64Type, IntegerType, INT64, int64_t, "int64")
MINI_CTYPE(FloatType, FloatingPointType, FLOAT, float, "float")
MINI_CTYPE(DoubleType, FloatingPointType, DOUBLE, double, "double")
class TemporalType : public FixedWidthType { public: using FixedWidthType::FixedWidthType; };
class DateType : public TemporalType { public: using TemporalType::TemporalType; };
MINI_CTYPE(Date32Type, DateType, DATE32, int32_t, "date32")
MINI_CTYPE(Date64Type, DateType, DATE64, int64_t, "date64")
class TimestampType : public TemporalType {
 public:
    static constexpr Type::type type_id = Type::TIMESTAMP;
    using c_type = int64_t;
    using Unit = TimeUnit;
    explicit TimestampType(TimeUnit::type u = TimeUnit::MILLI, std::string tz = "")
        : TemporalType(Type::TIMESTAMP), unit_(u), tz_(std::move(tz)) {}
    TimeUnit::type unit() const { return unit_; }
    const std::string& timezone() const { return tz_; }
    int bit_width() const override { return 64; }
    std::string name() const override { return "timestamp"; }
    std::string ToString(bool = false) const override {
        return "timestamp[" + internal::ToString(unit_) + (tz_.empty() ? "" : ", tz=" + tz_) + "]";
    }

 private:
    TimeUnit::type unit_;
    std::string tz_;
};
class BaseBinaryType : public DataType { public: using DataType::DataType; };
class BinaryType : public BaseBinaryType {
 public:
    static constexpr Type::type type_id = Type::BINARY;
    using offset_type = int32_t;
    BinaryType() : BinaryType(Type::BINARY) {}
    std::string name() const override { return "binary"; }

 protected:
    explicit BinaryType(Type::type id) : BaseBinaryType(id) {}
};
class StringType : public BinaryType {
 public:
    static constexpr Type::type type_id = Type::STRING;
    StringType() : BinaryType(Type::STRING) {}
    std::string name() const override { return "utf8"; }
    std::string ToString(bool = false) const override { return "string"; }
};
class LargeBinaryType : public BaseBinaryType {
 public:
    static constexpr Type::type type_id = Type::LARGE_BINARY;
    using offset_type = int64_t;
    LargeBinaryType() : LargeBinaryType(Type::LARGE_BINARY) {}
    std::string name() const override { return "large_binary"; }

 protected:
    explicit LargeBinaryType(Type::type id) : BaseBinaryType(id) {}
};
class LargeStringType : public LargeBinaryType {
 public:
    static constexpr Type::type type_id = Type::LARGE_STRING;
    LargeStringType() : LargeBinaryType(Type::LARGE_STRING) {}
    std::string name() const override { return "large_utf8"; }
    std::string ToString(bool = false) const override { return "large_string"; }
};
class FixedSizeBinaryType : public FixedWidthType {
 public:
    static constexpr Type::type type_id = Type::FIXED_SIZE_BINARY;
    explicit FixedSizeBinaryType(int32_t w) : FixedSizeBinaryType(w, Type::FIXED_SIZE_BINARY) {}
    int32_t byte_width() const { return w_; }
    int bit_width() const override { return w_ * 8; }
    std::string name() const override { return "fixed_size_binary"; }

 protected:
    FixedSizeBinaryType(int32_t w, Type::type id) : FixedWidthType(id), w_(w) {}
    int32_t w_;
};
class DecimalType : public FixedSizeBinaryType {
 public:
    DecimalType(Type::type id, int32_t w, int32_t p, int32_t s) : FixedSizeBinaryType(w, id), p_(p), s_(s) {}
    int32_t precision() const { return p_; }
    int32_t scale() const { return s_; }

 protected:
    int32_t p_, s_;
};
class Decimal128Type : public DecimalType {
 public:
    static constexpr Type::type type_id = Type::DECIMAL128;
    static constexpr int32_t kMinPrecision = 1, kMaxPrecision = 38, kByteWidth = 16;
    Decimal128Type(int32_t p, int32_t s) : DecimalType(Type::DECIMAL128, 16, p, s) {}
    static Result<std::shared_ptr<DataType>> Make(int32_t p, int32_t s) {
        if (p < 1 || p > 38) return Status::Invalid("Decimal precision out of range [1, 38]: ", p);
        return std::static_pointer_cast<DataType>(std::make_shared<Decimal128Type>(p, s));
    }
    std::string name() const override { return "decimal128"; }
    std::string ToString(bool = false) const override {
        return "decimal128(" + std::to_string(p_) + ", " + std::to_string(s_) + ")";
    }
};
class NestedType : public DataType { public: using DataType::DataType; };
class BaseListType : public NestedType {
 public:
    using NestedType::NestedType;
    const std::shared_ptr<Field>& value_field() const { return children_[0]; }
    std::shared_ptr<DataType> value_type() const { return children_[0]->type(); }
};
class ListType : public BaseListType {
 public:
    static constexpr Type::type type_id = Type::LIST;
    using offset_type = int32_t;
    explicit ListType(const std::shared_ptr<DataType>& t);
    explicit ListType(const std::shared_ptr<Field>& f) : ListType(f, Type::LIST) {}
    std::string name() const override { return "list"; }
    std::string ToString(bool m = false) const override { return "list<" + children_[0]->ToString(m) + ">"; }

 protected:
    ListType(const std::shared_ptr<Field>& f, Type::type id) : BaseListType(id) { children_ = {f}; }
};
class MapType : public ListType {
 public:
    static constexpr Type::type type_id = Type::MAP;
    MapType(const std::shared_ptr<DataType>& k, const std::shared_ptr<DataType>& v, bool sorted = false);
    MapType(const std::shared_ptr<DataType>& k, const std::shared_ptr<Field>& v, bool sorted = false);
    MapType(const std::shared_ptr<Field>& k, const std::shared_ptr<Field>& v, bool sorted = false);
    std::shared_ptr<Field> key_field() const { return value_type()->field(0); }
    std::shared_ptr<DataType> key_type() const { return key_field()->type(); }
    std::shared_ptr<Field> item_field() const { return value_type()->field(1); }
    std::shared_ptr<DataType> item_type() const { return item_field()->type(); }
    bool keys_sorted() const { return sorted_; }
    std::string name() const override { return "map"; }
    std::string ToString(bool m = false) const override;

 private:
    bool sorted_ = false;
};
class StructType : public NestedType {
 public:
    static constexpr Type::type type_id = Type::STRUCT;
    explicit StructType(const FieldVector& f) : NestedType(Type::STRUCT) { children_ = f; }
    std::string name() const override { return "struct"; }
    std::string ToString(bool m = false) const override;
    std::shared_ptr<Field> GetFieldByName(const std::string& n) const;
    int GetFieldIndex(const std::string& n) const;
    std::vector<int> GetAllFieldIndices(const std::string& n) const;
    Result<std::shared_ptr<StructType>> AddField(int i, const std::shared_ptr<Field>& f) const {
        if (i < 0 || i > num_fields()) return Status::Invalid("Invalid column index to add field.");
        FieldVector v = children_;
        v.insert(v.begin() + i, f);
        return std::make_shared<StructType>(v);
    }
};
class DictionaryType : public FixedWidthType {
 public:
    static constexpr Type::type type_id = Type::DICTIONARY;
    DictionaryType(const std::shared_ptr<DataType>& i, const std::shared_ptr<DataType>& v, bool ordered = false)
        : FixedWidthType(Type::DICTIONARY), i_(i), v_(v), ordered_(ordered) {}
    const std::shared_ptr<DataType>& index_type() const { return i_; }
    const std::shared_ptr<DataType>& value_type() const { return v_; }
    bool ordered() const { return ordered_; }
    int bit_width() const override { return static_cast<const FixedWidthType&>(*i_).bit_width(); }
    std::string name() const override { return "dictionary"; }
    std::string ToString(bool = false) const override {
        return "dictionary<values=" + v_->ToString() + ", indices=" + i_->ToString() + ">";
    }

 private:
    std::shared_ptr<DataType> i_, v_;
    bool ordered_;
};

#define MINI_FACTORY(F) const std::shared_ptr<DataType>& F();
MINI_FACTORY(null) MINI_FACTORY(boolean) MINI_FACTORY(int8) MINI_FACTORY(int16) MINI_FACTORY(int32)
MINI_FACTORY(int64) MINI_FACTORY(uint8) MINI_FACTORY(uint16) MINI_FACTORY(uint32) MINI_FACTORY(uint64)
MINI_FACTORY(float32) MINI_FACTORY(float64) MINI_FACTORY(utf8) MINI_FACTORY(binary)
MINI_FACTORY(large_utf8) MINI_FACTORY(large_binary) MINI_FACTORY(date32) MINI_FACTORY(date64)
#undef MINI_FACTORY
std::shared_ptr<DataType> timestamp(TimeUnit::type unit);
std::shared_ptr<DataType> timestamp(TimeUnit::type unit, const std::string& tz);
std::shared_ptr<DataType> decimal128(int32_t p, int32_t s);
std::shared_ptr<DataType> decimal(int32_t p, int32_t s);
std::shared_ptr<DataType> fixed_size_binary(int32_t w);
std::shared_ptr<DataType> list(const std::shared_ptr<DataType>& t);
std::shared_ptr<DataType> list(const std::shared_ptr<Field>& f);
std::shared_ptr<DataType> map(std::shared_ptr<DataType> k, std::shared_ptr<DataType> v, bool sorted = false);
std::shared_ptr<DataType> map(std::shared_ptr<DataType> k, std::shared_ptr<Field> v, bool sorted = false);
std::shared_ptr<DataType> map(std::shared_ptr<Field> k, std::shared_ptr<Field> v, bool sorted = false);
std::shared_ptr<DataType> struct_(const FieldVector& f);
std::shared_ptr<DataType> dictionary(const std::shared_ptr<DataType>& i, const std::shared_ptr<DataType>& v, bool ordered = false);
std::shared_ptr<Field> field(std::string name, std::shared_ptr<DataType> type, bool nullable = true,
                             std::shared_ptr<const KeyValueMetadata> md = nullptr);
std::shared_ptr<Field> field(std::string name, std::shared_ptr<DataType> type,
                             std::shared_ptr<const KeyValueMetadata> md);

class Schema {
 public:
    explicit Schema(FieldVector f, std::shared_ptr<const KeyValueMetadata> md = nullptr)
        : f_(std::move(f)), md_(std::move(md)) {}
    const FieldVector& fields() const { return f_; }
    const std::shared_ptr<Field>& field(int i) const { return f_[i]; }
    int num_fields() const { return static_cast<int>(f_.size()); }
    std::vector<std::string> field_names() const {
        std::vector<std::string> r;
        for (auto& f : f_) r.push_back(f->name());
        return r;
    }
    std::shared_ptr<Field> GetFieldByName(const std::string& n) const {
        int i = GetFieldIndex(n);
        return i < 0 ? nullptr : f_[i];
    }
    std::vector<int> GetAllFieldIndices(const std::string& n) const {
        std::vector<int> r;
        for (int i = 0; i < num_fields(); ++i) if (f_[i]->name() == n) r.push_back(i);
        return r;
    }
    int GetFieldIndex(const std::string& n) const {
        auto v = GetAllFieldIndices(n);
        return v.size() == 1 ? v[0] : -1;
    }
    std::shared_ptr<const KeyValueMetadata> metadata() const { return md_; }
    bool HasMetadata() const { return md_ && md_->size() > 0; }
    std::shared_ptr<Schema> WithMetadata(const std::shared_ptr<const KeyValueMetadata>& md) const {
        return std::make_shared<Schema>(f_, md);
    }
    std::shared_ptr<Schema> RemoveMetadata() const { return std::make_shared<Schema>(f_); }
    Result<std::shared_ptr<Schema>> AddField(int i, const std::shared_ptr<Field>& f) const {
        if (i < 0 || i > num_fields()) return Status::Invalid("Invalid column index to add field.");
        auto c = f_;
        c.insert(c.begin() + i, f);
        return std::make_shared<Schema>(c, md_);
    }
    Result<std::shared_ptr<Schema>> RemoveField(int i) const {
        if (i < 0 || i >= num_fields()) return Status::Invalid("Invalid column index to remove field.");
        auto c = f_;
        c.erase(c.begin() + i);
        return std::make_shared<Schema>(c, md_);
    }
    Result<std::shared_ptr<Schema>> SetField(int i, const std::shared_ptr<Field>& f) const {
        if (i < 0 || i >= num_fields()) return Status::Invalid("Invalid column index to set field.");
        auto c = f_;
        c[i] = f;
        return std::make_shared<Schema>(c, md_);
    }
    bool Equals(const Schema& o, bool check_metadata = false) const;
    bool Equals(const std::shared_ptr<Schema>& o, bool check_metadata = false) const {
        return o && Equals(*o, check_metadata);
    }
    std::string ToString(bool show_metadata = false) const;

 private:
    FieldVector f_;
    std::shared_ptr<const KeyValueMetadata> md_;
};
inline std::shared_ptr<Schema> schema(FieldVector f, std::shared_ptr<const KeyValueMetadata> md = nullptr) {
    return std::make_shared<Schema>(std::move(f), std::move(md));
}

// ---------------------------------------------------------------- casts between handles
namespace internal {
template <typename O, typename I>
inline O checked_cast(I&& v) { return dynamic_cast<O>(std::forward<I>(v)); }
template <class T, class U>
std::shared_ptr<T> checked_pointer_cast(std::shared_ptr<U> r) noexcept {
    return std::dynamic_pointer_cast<T>(std::move(r));
}
template <class T, class U>
std::unique_ptr<T> checked_pointer_cast(std::unique_ptr<U> r) noexcept {
    return std::unique_ptr<T>(dynamic_cast<T*>(r.release()));
}
bool StringToFloat(const char* s, size_t n, char decimal_point, float* out);
bool StringToFloat(const char* s, size_t n, char decimal_point, double* out);
uint32_t crc32(uint32_t prev, const void* data, size_t n);
}  // namespace internal
using internal::checked_cast;
using internal::checked_pointer_cast;

// ---------------------------------------------------------------- decimals
enum class DecimalStatus { kSuccess, kDivideByZero, kOverflow, kRescaleDataLoss };
class BasicDecimal128 {
 public:
    using i128 = __int128;
    static constexpr int kBitWidth = 128, kMaxPrecision = 38, kMaxScale = 38;
    constexpr BasicDecimal128() : v_(0) {}
    constexpr BasicDecimal128(int64_t high, uint64_t low)
        : v_(static_cast<i128>((static_cast<unsigned __int128>(static_cast<uint64_t>(high)) << 64) | low)) {}
    template <typename T, typename = std::enable_if_t<std::is_integral_v<T> && sizeof(T) <= 8>>
    constexpr BasicDecimal128(T v) : v_(v) {}  // NOLINT
    explicit BasicDecimal128(const uint8_t* bytes) { std::memcpy(&v_, bytes, 16); }
    static constexpr BasicDecimal128 From(i128 v) { BasicDecimal128 d; d.v_ = v; return d; }
    i128 raw() const { return v_; }
    int64_t high_bits() const { return static_cast<int64_t>(v_ >> 64); }
    uint64_t low_bits() const { return static_cast<uint64_t>(v_); }
    const uint8_t* native_endian_bytes() const { return reinterpret_cast<const uint8_t*>(&v_); }
    std::array<uint8_t, 16> ToBytes() const { std::array<uint8_t, 16> a; std::memcpy(a.data(), &v_, 16); return a; }
    void ToBytes(uint8_t* out) const { std::memcpy(out, &v_, 16); }
    BasicDecimal128& Negate() { v_ = static_cast<i128>(-static_cast<unsigned __int128>(v_)); return *this; }
    BasicDecimal128& Abs() { return v_ < 0 ? Negate() : *this; }
    int64_t Sign() const { return v_ < 0 ? -1 : 1; }
    BasicDecimal128& operator+=(const BasicDecimal128& o) { v_ = static_cast<i128>(static_cast<unsigned __int128>(v_) + static_cast<unsigned __int128>(o.v_)); return *this; }
    BasicDecimal128& operator-=(const BasicDecimal128& o) { v_ = static_cast<i128>(static_cast<unsigned __int128>(v_) - static_cast<unsigned __int128>(o.v_)); return *this; }
    BasicDecimal128& operator*=(const BasicDecimal128& o) { v_ = static_cast<i128>(static_cast<unsigned __int128>(v_) * static_cast<unsigned __int128>(o.v_)); return *this; }
    BasicDecimal128& operator/=(const BasicDecimal128& o) { v_ = v_ / o.v_; return *this; }
    static BasicDecimal128 GetScaleMultiplier(int32_t scale);
    static BasicDecimal128 GetMaxSentinel() { return BasicDecimal128(INT64_MAX, UINT64_MAX); }
    static BasicDecimal128 GetMinSentinel() { return BasicDecimal128(INT64_MIN, 0); }
    static BasicDecimal128 GetMaxValue(int32_t precision) { return From(GetScaleMultiplier(precision).v_ - 1); }
    bool FitsInPrecision(int32_t p) const;
    DecimalStatus Rescale(int32_t from, int32_t to, BasicDecimal128* out) const;
    BasicDecimal128 ReduceScaleBy(int32_t by, bool round = true) const;
    BasicDecimal128 IncreaseScaleBy(int32_t by) const { auto r = *this; r *= GetScaleMultiplier(by); return r; }
    explicit operator bool() const { return v_ != 0; }

 protected:
    i128 v_;
};
#define MINI_DCMP(OP) inline bool operator OP(const BasicDecimal128& a, const BasicDecimal128& b) { return a.raw() OP b.raw(); }
MINI_DCMP(==) MINI_DCMP(!=) MINI_DCMP(<) MINI_DCMP(<=) MINI_DCMP(>) MINI_DCMP(>=)
#undef MINI_DCMP
inline BasicDecimal128 operator-(const BasicDecimal128& a) { auto c = a; return c.Negate(); }
inline BasicDecimal128 operator+(BasicDecimal128 a, const BasicDecimal128& b) { return a += b; }
inline BasicDecimal128 operator-(BasicDecimal128 a, const BasicDecimal128& b) { return a -= b; }
inline BasicDecimal128 operator*(BasicDecimal128 a, const BasicDecimal128& b) { return a *= b; }
inline BasicDecimal128 operator/(BasicDecimal128 a, const BasicDecimal128& b) { return a /= b; }

class Decimal128 : public BasicDecimal128 {
 public:
    using BasicDecimal128::BasicDecimal128;
    constexpr Decimal128() = default;
    constexpr Decimal128(const BasicDecimal128& o) : BasicDecimal128(o) {}  // NOLINT
    explicit Decimal128(const std::string& s) { *this = FromString(s).ValueOrDie(); }
    std::string ToIntegerString() const;
    std::string ToString(int32_t scale) const;
    static Status FromString(std::string_view s, Decimal128* out, int32_t* p, int32_t* sc = nullptr);
    static Result<Decimal128> FromString(std::string_view s);
    static Result<Decimal128> FromReal(double v, int32_t p, int32_t s);
    static Result<Decimal128> FromReal(float v, int32_t p, int32_t s);
    static Result<Decimal128> FromBigEndian(const uint8_t* data, int32_t length);
    Result<Decimal128> Rescale(int32_t from, int32_t to) const {
        BasicDecimal128 out;
        auto st = BasicDecimal128::Rescale(from, to, &out);
        if (st != DecimalStatus::kSuccess)
            return Status::Invalid("Rescaling Decimal128 value would cause data loss");
        return Decimal128(out);
    }
    template <typename T>
    Result<T> ToInteger() const {
        if (v_ < std::numeric_limits<T>::min() || v_ > std::numeric_limits<T>::max())
            return Status::Invalid("Invalid cast from Decimal128 to integer");
        return static_cast<T>(v_);
    }
    double ToDouble(int32_t scale) const;
    float ToFloat(int32_t scale) const;
    template <typename T> T ToReal(int32_t scale) const {
        if constexpr (std::is_same_v<T, float>) return ToFloat(scale); else return ToDouble(scale);
    }
};

// ---------------------------------------------------------------- arrays
template <typename T>
class TypedBufferBuilder {
 public:
    explicit TypedBufferBuilder(MemoryPool* p = default_memory_pool()) : p_(p) {}
    Status Reserve(int64_t n) { v_.reserve(v_.size() + n); return Status::OK(); }
    Status Append(T v) { v_.push_back(v); return Status::OK(); }
    int64_t length() const { return static_cast<int64_t>(v_.size()); }
    Result<std::shared_ptr<Buffer>> Finish() {
        ARROW_ASSIGN_OR_RAISE(std::shared_ptr<Buffer> b, AllocateBuffer(v_.size() * sizeof(T), p_));
        if (!v_.empty()) std::memcpy(b->mutable_data(), v_.data(), v_.size() * sizeof(T));
        v_.clear();
        return b;
    }

 private:
    MemoryPool* p_;
    std::vector<T> v_;
};
struct ArrayData {
    std::shared_ptr<DataType> type;
    int64_t length = 0;
    mutable std::atomic<int64_t> null_count{kUnknownNullCount};
    int64_t offset = 0;
    std::vector<std::shared_ptr<Buffer>> buffers;
    std::vector<std::shared_ptr<ArrayData>> child_data;
    std::shared_ptr<ArrayData> dictionary;
    ArrayData() = default;
    ArrayData(const ArrayData& o)
        : type(o.type), length(o.length), null_count(o.null_count.load()), offset(o.offset),
          buffers(o.buffers), child_data(o.child_data), dictionary(o.dictionary) {}
    static std::shared_ptr<ArrayData> Make(std::shared_ptr<DataType> type, int64_t length,
                                           std::vector<std::shared_ptr<Buffer>> buffers,
                                           int64_t null_count = kUnknownNullCount, int64_t offset = 0);
    static std::shared_ptr<ArrayData> Make(std::shared_ptr<DataType> type, int64_t length,
                                           std::vector<std::shared_ptr<Buffer>> buffers,
                                           std::vector<std::shared_ptr<ArrayData>> child,
                                           int64_t null_count = kUnknownNullCount, int64_t offset = 0);
    std::shared_ptr<ArrayData> Copy() const { return std::make_shared<ArrayData>(*this); }
    std::shared_ptr<ArrayData> Slice(int64_t off, int64_t len) const;
    int64_t GetNullCount() const;
    void SetNullCount(int64_t n) { null_count = n; }
};
class Scalar;
class Array {
 public:
    virtual ~Array() = default;
    bool IsNull(int64_t i) const {
        return type_id_ == Type::NA || (nb_ && !bit_util::GetBit(nb_, i + data_->offset));
    }
    bool IsValid(int64_t i) const { return !IsNull(i); }
    int64_t length() const { return data_->length; }
    int64_t offset() const { return data_->offset; }
    int64_t null_count() const { return data_->GetNullCount(); }
    const std::shared_ptr<DataType>& type() const { return data_->type; }
    Type::type type_id() const { return type_id_; }
    const std::shared_ptr<ArrayData>& data() const { return data_; }
    const std::shared_ptr<Buffer>& null_bitmap() const { return data_->buffers[0]; }
    const uint8_t* null_bitmap_data() const { return nb_; }
    int num_fields() const { return static_cast<int>(data_->child_data.size()); }
    std::shared_ptr<Array> Slice(int64_t off, int64_t len) const;
    std::shared_ptr<Array> Slice(int64_t off) const { return Slice(off, length() - off); }
    bool Equals(const Array& o) const;
    bool Equals(const std::shared_ptr<Array>& o) const { return o && Equals(*o); }
    Result<std::shared_ptr<Scalar>> GetScalar(int64_t i) const;
    Result<std::shared_ptr<Array>> View(const std::shared_ptr<DataType>& t) const;
    Status Validate() const;
    Status ValidateFull() const { return Validate(); }
    std::string ToString() const;

 protected:
    void SetData(const std::shared_ptr<ArrayData>& d) {
        data_ = d;
        type_id_ = d->type->id();
        nb_ = (!d->buffers.empty() && d->buffers[0]) ? d->buffers[0]->data() : nullptr;
    }
    const uint8_t* buf(size_t i) const {
        return data_->buffers.size() > i && data_->buffers[i] ? data_->buffers[i]->data() : nullptr;
    }
    std::shared_ptr<ArrayData> data_;
    const uint8_t* nb_ = nullptr;
    Type::type type_id_ = Type::NA;
};
using ArrayVector = std::vector<std::shared_ptr<Array>>;
inline std::ostream& operator<<(std::ostream& os, const Array& a) { return os << a.ToString(); }
std::shared_ptr<Array> MakeArray(const std::shared_ptr<ArrayData>& d);

class NullArray : public Array {
 public:
    using TypeClass = NullType;
    explicit NullArray(const std::shared_ptr<ArrayData>& d) { SetData(d); }
    explicit NullArray(int64_t n);
};
class PrimitiveArray : public Array {
 public:
    const std::shared_ptr<Buffer>& values() const { return data_->buffers[1]; }
};
class BooleanArray : public PrimitiveArray {
 public:
    using TypeClass = BooleanType;
    explicit BooleanArray(const std::shared_ptr<ArrayData>& d) { SetData(d); v_ = buf(1); }
    bool Value(int64_t i) const { return bit_util::GetBit(v_, i + data_->offset); }
    bool GetView(int64_t i) const { return Value(i); }

 private:
    const uint8_t* v_;
};
template <typename T>
class NumericArray : public PrimitiveArray {
 public:
    using TypeClass = T;
    using value_type = typename T::c_type;
    explicit NumericArray(const std::shared_ptr<ArrayData>& d) {
        SetData(d);
        v_ = reinterpret_cast<const value_type*>(buf(1));
    }
    NumericArray(int64_t length, const std::shared_ptr<Buffer>& data, const std::shared_ptr<Buffer>& nb = nullptr,
                 int64_t null_count = kUnknownNullCount, int64_t offset = 0)
        : NumericArray(ArrayData::Make(std::make_shared<T>(), length, {nb, data}, null_count, offset)) {}
    value_type Value(int64_t i) const { return v_[i + data_->offset]; }
    value_type GetView(int64_t i) const { return Value(i); }
    const value_type* raw_values() const { return v_ ? v_ + data_->offset : nullptr; }

 private:
    const value_type* v_;
};
using UInt8Array = NumericArray<UInt8Type>;
using Int8Array = NumericArray<Int8Type>;
using UInt16Array = NumericArray<UInt16Type>;
using Int16Array = NumericArray<Int16Type>;
using UInt32Array = NumericArray<UInt32Type>;
using Int32Array = NumericArray<Int32Type>;
using UInt64Array = NumericArray<UInt64Type>;
using Int64Array = NumericArray<Int64Type>;
using FloatArray = NumericArray<FloatType>;
using DoubleArray = NumericArray<DoubleType>;
using Date32Array = NumericArray<Date32Type>;
using Date64Array = NumericArray<Date64Type>;
using TimestampArray = NumericArray<TimestampType>;

template <typename T>
class BaseBinaryArray : public Array {
 public:
    using TypeClass = T;
    using offset_type = typename T::offset_type;
    std::string_view GetView(int64_t i) const {
        i += data_->offset;
        return std::string_view(reinterpret_cast<const char*>(v_) + o_[i], o_[i + 1] - o_[i]);
    }
    std::string_view Value(int64_t i) const { return GetView(i); }
    const uint8_t* GetValue(int64_t i, offset_type* n) const {
        auto s = GetView(i);
        *n = static_cast<offset_type>(s.size());
        return reinterpret_cast<const uint8_t*>(s.data());
    }
    std::string GetString(int64_t i) const { return std::string(GetView(i)); }
    offset_type value_offset(int64_t i) const { return o_[i + data_->offset]; }
    offset_type value_length(int64_t i) const { return value_offset(i + 1) - value_offset(i); }
    const offset_type* raw_value_offsets() const { return o_ + data_->offset; }
    const uint8_t* raw_data() const { return v_; }
    std::shared_ptr<Buffer> value_data() const { return data_->buffers[2]; }
    std::shared_ptr<Buffer> value_offsets() const { return data_->buffers[1]; }
    offset_type total_values_length() const { return length() ? value_offset(length()) - value_offset(0) : 0; }

 protected:
    void Init(const std::shared_ptr<ArrayData>& d) {
        SetData(d);
        o_ = reinterpret_cast<const offset_type*>(buf(1));
        v_ = buf(2);
        static const uint8_t none = 0;
        if (!v_) v_ = &none;  // as after an import or a builder
    }
    const offset_type* o_ = nullptr;
    const uint8_t* v_ = nullptr;
};
class BinaryArray : public BaseBinaryArray<BinaryType> {
 public:
    explicit BinaryArray(const std::shared_ptr<ArrayData>& d) { Init(d); }
};
class StringArray : public BinaryArray {
 public:
    using TypeClass = StringType;
    using BinaryArray::BinaryArray;
};
class LargeBinaryArray : public BaseBinaryArray<LargeBinaryType> {
 public:
    explicit LargeBinaryArray(const std::shared_ptr<ArrayData>& d) { Init(d); }
    LargeBinaryArray(int64_t n, const std::shared_ptr<Buffer>& offsets, const std::shared_ptr<Buffer>& values,
                     const std::shared_ptr<Buffer>& validity = nullptr, int64_t nulls = -1, int64_t off = 0) {
        Init(ArrayData::Make(large_binary(), n, {validity, offsets, values}, nulls, off));
    }
};
class LargeStringArray : public LargeBinaryArray {
 public:
    using TypeClass = LargeStringType;
    using LargeBinaryArray::LargeBinaryArray;
};
class FixedSizeBinaryArray : public PrimitiveArray {
 public:
    using TypeClass = FixedSizeBinaryType;
    explicit FixedSizeBinaryArray(const std::shared_ptr<ArrayData>& d) {
        SetData(d);
        w_ = dynamic_cast<const FixedSizeBinaryType&>(*d->type).byte_width();
    }
    const uint8_t* GetValue(int64_t i) const { return buf(1) + (i + data_->offset) * w_; }
    const uint8_t* Value(int64_t i) const { return GetValue(i); }
    std::string_view GetView(int64_t i) const { return {reinterpret_cast<const char*>(GetValue(i)), static_cast<size_t>(w_)}; }
    int32_t byte_width() const { return w_; }

 private:
    int32_t w_;
};
class Decimal128Array : public FixedSizeBinaryArray {
 public:
    using TypeClass = Decimal128Type;
    using FixedSizeBinaryArray::FixedSizeBinaryArray;
    std::string FormatValue(int64_t i) const;
};
using DecimalArray = Decimal128Array;

class BaseListArrayBase : public Array {};
class ListArray : public BaseListArrayBase {
 public:
    using TypeClass = ListType;
    explicit ListArray(const std::shared_ptr<ArrayData>& d) { Init(d); }
    ListArray(std::shared_ptr<DataType> type, int64_t length, std::shared_ptr<Buffer> offsets,
              std::shared_ptr<Array> values, std::shared_ptr<Buffer> nb = nullptr,
              int64_t null_count = kUnknownNullCount, int64_t offset = 0)
        : ListArray(ArrayData::Make(std::move(type), length, {nb, offsets}, {values->data()}, null_count, offset)) {}
    const std::shared_ptr<Array>& values() const { return values_; }
    int32_t value_offset(int64_t i) const { return o_[i + data_->offset]; }
    int32_t value_length(int64_t i) const { return value_offset(i + 1) - value_offset(i); }
    std::shared_ptr<Array> value_slice(int64_t i) const { return values_->Slice(value_offset(i), value_length(i)); }
    const int32_t* raw_value_offsets() const { return o_ + data_->offset; }
    std::shared_ptr<Buffer> value_offsets() const { return data_->buffers[1]; }
    std::shared_ptr<Array> offsets() const;
    std::shared_ptr<DataType> value_type() const { return values_->type(); }
    const ListType* list_type() const { return dynamic_cast<const ListType*>(data_->type.get()); }
    static Result<std::shared_ptr<ListArray>> FromArrays(const Array& offsets, const Array& values, MemoryPool* pool = default_memory_pool());

 protected:
    ListArray() = default;
    void Init(const std::shared_ptr<ArrayData>& d) {
        SetData(d);
        o_ = reinterpret_cast<const int32_t*>(buf(1));
        values_ = MakeArray(d->child_data[0]);
    }
    const int32_t* o_ = nullptr;
    std::shared_ptr<Array> values_;
};
class MapArray : public ListArray {
 public:
    using TypeClass = MapType;
    explicit MapArray(const std::shared_ptr<ArrayData>& d) {
        Init(d);
        keys_ = MakeArray(d->child_data[0]->child_data[0]);
        items_ = MakeArray(d->child_data[0]->child_data[1]);
    }
    MapArray(const std::shared_ptr<DataType>& type, int64_t length, const std::shared_ptr<Buffer>& offsets,
             const std::shared_ptr<Array>& keys, const std::shared_ptr<Array>& items,
             const std::shared_ptr<Buffer>& nb = nullptr, int64_t null_count = kUnknownNullCount, int64_t offset = 0);
    const std::shared_ptr<Array>& keys() const { return keys_; }
    const std::shared_ptr<Array>& items() const { return items_; }
    const MapType* map_type() const { return dynamic_cast<const MapType*>(data_->type.get()); }

 private:
    std::shared_ptr<Array> keys_, items_;
};
class StructArray : public Array {
 public:
    using TypeClass = StructType;
    explicit StructArray(const std::shared_ptr<ArrayData>& d) { SetData(d); boxed_.resize(d->child_data.size()); }
    StructArray(const std::shared_ptr<DataType>& type, int64_t length, const ArrayVector& children,
                std::shared_ptr<Buffer> nb = nullptr, int64_t null_count = kUnknownNullCount, int64_t offset = 0);
    static Result<std::shared_ptr<StructArray>> Make(const ArrayVector& c, const std::vector<std::string>& names,
                                                     std::shared_ptr<Buffer> nb = nullptr,
                                                     int64_t null_count = kUnknownNullCount, int64_t offset = 0);
    static Result<std::shared_ptr<StructArray>> Make(const ArrayVector& c, const FieldVector& fields,
                                                     std::shared_ptr<Buffer> nb = nullptr,
                                                     int64_t null_count = kUnknownNullCount, int64_t offset = 0);
    const StructType* struct_type() const { return dynamic_cast<const StructType*>(data_->type.get()); }
    const std::shared_ptr<Array>& field(int pos) const;
    const ArrayVector& fields() const;
    std::shared_ptr<Array> GetFieldByName(const std::string& n) const;
    Result<ArrayVector> Flatten(MemoryPool* pool = default_memory_pool()) const;

 private:
    mutable std::mutex m_;
    mutable ArrayVector boxed_;
};
class DictionaryArray : public Array {
 public:
    using TypeClass = DictionaryType;
    explicit DictionaryArray(const std::shared_ptr<ArrayData>& d);
    DictionaryArray(const std::shared_ptr<DataType>& type, const std::shared_ptr<Array>& indices,
                    const std::shared_ptr<Array>& dictionary);
    static Result<std::shared_ptr<Array>> FromArrays(const std::shared_ptr<DataType>& type, const std::shared_ptr<Array>& indices,
                                                     const std::shared_ptr<Array>& dictionary);
    const std::shared_ptr<Array>& dictionary() const { return dict_; }
    const std::shared_ptr<Array>& indices() const { return idx_; }
    int64_t GetValueIndex(int64_t i) const;
    const DictionaryType* dict_type() const { return dynamic_cast<const DictionaryType*>(data_->type.get()); }

 private:
    std::shared_ptr<Array> dict_, idx_;
};

class RecordBatch {
 public:
    static std::shared_ptr<RecordBatch> Make(std::shared_ptr<Schema> s, int64_t n, ArrayVector c) {
        auto r = std::make_shared<RecordBatch>();
        r->s_ = std::move(s); r->n_ = n; r->c_ = std::move(c);
        return r;
    }
    const std::shared_ptr<Schema>& schema() const { return s_; }
    int64_t num_rows() const { return n_; }
    int num_columns() const { return static_cast<int>(c_.size()); }
    const ArrayVector& columns() const { return c_; }
    std::shared_ptr<Array> column(int i) const { return c_[i]; }
    std::shared_ptr<Array> GetColumnByName(const std::string& n) const {
        int i = s_->GetFieldIndex(n);
        return i < 0 ? nullptr : c_[i];
    }
    Result<std::shared_ptr<StructArray>> ToStructArray() const { return StructArray::Make(c_, s_->fields()); }

 private:
    std::shared_ptr<Schema> s_;
    int64_t n_ = 0;
    ArrayVector c_;
};

// ---------------------------------------------------------------- scalars
class Scalar {
 public:
    Scalar(std::shared_ptr<DataType> t, bool valid) : type(std::move(t)), is_valid(valid) {}
    virtual ~Scalar() = default;
    std::shared_ptr<DataType> type;
    bool is_valid = false;
    virtual std::string ToString() const { return "null"; }
};
class NullScalar : public Scalar { public: NullScalar() : Scalar(null(), false) {} };
template <typename T>
std::shared_ptr<DataType> SingletonOf() { return std::make_shared<T>(); }
template <typename T>
class PrimScalarBase : public Scalar {
 public:
    using TypeClass = T;
    using ValueType = typename T::c_type;
    explicit PrimScalarBase(std::shared_ptr<DataType> t) : Scalar(std::move(t), false), value() {}
    PrimScalarBase(ValueType v, std::shared_ptr<DataType> t) : Scalar(std::move(t), true), value(v) {}
    const void* data() const { return &value; }
    std::string ToString() const override;
    ValueType value;
};
class BooleanScalar : public PrimScalarBase<BooleanType> {
 public:
    explicit BooleanScalar(bool v) : PrimScalarBase(v, boolean()) {}
    BooleanScalar() : PrimScalarBase(boolean()) {}
};
template <typename T>
class NumericScalar : public PrimScalarBase<T> {
 public:
    using PrimScalarBase<T>::PrimScalarBase;
    explicit NumericScalar(typename T::c_type v) : PrimScalarBase<T>(v, SingletonOf<T>()) {}
    NumericScalar() : PrimScalarBase<T>(SingletonOf<T>()) {}
};
#define MINI_SCALAR(N) class N##Scalar : public NumericScalar<N##Type> { public: using NumericScalar<N##Type>::NumericScalar; };
MINI_SCALAR(Int8) MINI_SCALAR(Int16) MINI_SCALAR(Int32) MINI_SCALAR(Int64) MINI_SCALAR(UInt8) MINI_SCALAR(UInt16)
MINI_SCALAR(UInt32) MINI_SCALAR(UInt64) MINI_SCALAR(Float) MINI_SCALAR(Double)
class Date32Scalar : public NumericScalar<Date32Type> { public: using NumericScalar<Date32Type>::NumericScalar; };
class TimestampScalar : public PrimScalarBase<TimestampType> {
 public:
    using PrimScalarBase<TimestampType>::PrimScalarBase;
    TimestampScalar(int64_t v, TimeUnit::type u, std::string tz = "")
        : PrimScalarBase(v, timestamp(u, tz)) {}
};
class BaseBinaryScalar : public Scalar {
 public:
    BaseBinaryScalar(std::shared_ptr<Buffer> v, std::shared_ptr<DataType> t) : Scalar(std::move(t), true), value(std::move(v)) {}
    explicit BaseBinaryScalar(std::shared_ptr<DataType> t) : Scalar(std::move(t), false) {}
    std::shared_ptr<Buffer> value;
    const void* data() const { return value ? value->data() : nullptr; }
    std::string_view view() const {
        return value ? std::string_view(reinterpret_cast<const char*>(value->data()), value->size()) : std::string_view();
    }
    std::string ToString() const override { return is_valid ? std::string(view()) : "null"; }
};
class BinaryScalar : public BaseBinaryScalar {
 public:
    using BaseBinaryScalar::BaseBinaryScalar;
    explicit BinaryScalar(std::shared_ptr<Buffer> v) : BaseBinaryScalar(std::move(v), binary()) {}
    explicit BinaryScalar(std::string s) : BaseBinaryScalar(Buffer::FromString(std::move(s)), binary()) {}
    BinaryScalar() : BaseBinaryScalar(binary()) {}
};
class StringScalar : public BinaryScalar {
 public:
    using BinaryScalar::BinaryScalar;
    explicit StringScalar(std::string s) : BinaryScalar(Buffer::FromString(std::move(s)), utf8()) {}
    StringScalar() : BinaryScalar(utf8()) {}
};
class Decimal128Scalar : public Scalar {
 public:
    using ValueType = Decimal128;
    Decimal128Scalar(Decimal128 v, std::shared_ptr<DataType> t) : Scalar(std::move(t), true), value(v) {}
    explicit Decimal128Scalar(std::shared_ptr<DataType> t) : Scalar(std::move(t), false) {}
    Decimal128 value;
    std::string ToString() const override;
};
/// Any nested value: kept as a one-element array.
class StructScalar : public Scalar {
 public:
    StructScalar(std::shared_ptr<Array> v, bool valid);
    std::shared_ptr<Array> value;
};
std::shared_ptr<Scalar> MakeNullScalar(std::shared_ptr<DataType> t);
template <typename T>
std::string PrimScalarBase<T>::ToString() const {
    if (!is_valid) return "null";
    std::ostringstream os;
    if constexpr (sizeof(ValueType) == 1) os << static_cast<int>(value); else os << value;
    return os.str();
}

// ---------------------------------------------------------------- traits
template <typename T> struct TypeTraits {};
class ArrayBuilder;
template <typename T> class NumericBuilder;
class BooleanBuilder; class BinaryBuilder; class StringBuilder; class LargeBinaryBuilder; class LargeStringBuilder;
class Decimal128Builder; class ListBuilder; class MapBuilder; class StructBuilder;
#define MINI_TRAIT(N, A, B, S, F)                                            \
    template <> struct TypeTraits<N> {                                       \
        using ArrayType = A; using BuilderType = B; using ScalarType = S;    \
        using CType = N::c_type;                                             \
        static constexpr bool is_parameter_free = true;                      \
        static std::shared_ptr<DataType> type_singleton() { return F(); }    \
    };
MINI_TRAIT(BooleanType, BooleanArray, BooleanBuilder, BooleanScalar, boolean)
MINI_TRAIT(Int8Type, Int8Array, NumericBuilder<Int8Type>, Int8Scalar, int8)
MINI_TRAIT(Int16Type, Int16Array, NumericBuilder<Int16Type>, Int16Scalar, int16)
MINI_TRAIT(Int32Type, Int32Array, NumericBuilder<Int32Type>, Int32Scalar, int32)
MINI_TRAIT(Int64Type, Int64Array, NumericBuilder<Int64Type>, Int64Scalar, int64)
MINI_TRAIT(UInt8Type, UInt8Array, NumericBuilder<UInt8Type>, UInt8Scalar, uint8)
MINI_TRAIT(UInt16Type, UInt16Array, NumericBuilder<UInt16Type>, UInt16Scalar, uint16)
MINI_TRAIT(UInt32Type, UInt32Array, NumericBuilder<UInt32Type>, UInt32Scalar, uint32)
MINI_TRAIT(UInt64Type, UInt64Array, NumericBuilder<UInt64Type>, UInt64Scalar, uint64)
MINI_TRAIT(FloatType, FloatArray, NumericBuilder<FloatType>, FloatScalar, float32)
MINI_TRAIT(DoubleType, DoubleArray, NumericBuilder<DoubleType>, DoubleScalar, float64)
MINI_TRAIT(Date32Type, Date32Array, NumericBuilder<Date32Type>, Date32Scalar, date32)
template <> struct TypeTraits<TimestampType> {
    using ArrayType = TimestampArray; using BuilderType = NumericBuilder<TimestampType>; using ScalarType = TimestampScalar; using CType = int64_t;
    static constexpr bool is_parameter_free = false;
};
#define MINI_TRAIT2(N, A, B, S)                                              \
    template <> struct TypeTraits<N> {                                       \
        using ArrayType = A; using BuilderType = B; using ScalarType = S;    \
        static constexpr bool is_parameter_free = true;                      \
        static std::shared_ptr<DataType> type_singleton() { return std::make_shared<N>(); } \
    };
MINI_TRAIT2(BinaryType, BinaryArray, BinaryBuilder, BinaryScalar)
MINI_TRAIT2(StringType, StringArray, StringBuilder, StringScalar)
MINI_TRAIT2(LargeBinaryType, LargeBinaryArray, LargeBinaryBuilder, BinaryScalar)
MINI_TRAIT2(LargeStringType, LargeStringArray, LargeStringBuilder, StringScalar)
template <> struct TypeTraits<Decimal128Type> {
    using ArrayType = Decimal128Array; using BuilderType = Decimal128Builder; using ScalarType = Decimal128Scalar; using CType = Decimal128;
    static constexpr bool is_parameter_free = false;
};
template <> struct TypeTraits<StructType> { using ArrayType = StructArray; using BuilderType = StructBuilder; static constexpr bool is_parameter_free = false; };
template <> struct TypeTraits<ListType> { using ArrayType = ListArray; using BuilderType = ListBuilder; static constexpr bool is_parameter_free = false; };
template <> struct TypeTraits<MapType> { using ArrayType = MapArray; using BuilderType = MapBuilder; static constexpr bool is_parameter_free = false; };
template <typename T> struct CTypeTraits {};
template <> struct CTypeTraits<int8_t> : TypeTraits<Int8Type> { using ArrowType = Int8Type; };
template <> struct CTypeTraits<int16_t> : TypeTraits<Int16Type> { using ArrowType = Int16Type; };
template <> struct CTypeTraits<int32_t> : TypeTraits<Int32Type> { using ArrowType = Int32Type; };
template <> struct CTypeTraits<int64_t> : TypeTraits<Int64Type> { using ArrowType = Int64Type; };
template <> struct CTypeTraits<float> : TypeTraits<FloatType> { using ArrowType = FloatType; };
template <> struct CTypeTraits<double> : TypeTraits<DoubleType> { using ArrowType = DoubleType; };
template <> struct CTypeTraits<bool> : TypeTraits<BooleanType> { using ArrowType = BooleanType; };

// ---------------------------------------------------------------- builders
class ArrayBuilder {
 public:
    explicit ArrayBuilder(MemoryPool* pool) : pool_(pool ? pool : default_memory_pool()) {}
    virtual ~ArrayBuilder() = default;
    ArrayBuilder* child(int i) { return children_[i].get(); }
    const std::shared_ptr<ArrayBuilder>& child_builder(int i) const { return children_[i]; }
    int num_children() const { return static_cast<int>(children_.size()); }
    virtual int64_t length() const { return static_cast<int64_t>(valid_.size()); }
    int64_t null_count() const { return nulls_; }
    int64_t capacity() const { return INT64_MAX; }
    virtual Status Reserve(int64_t) { return Status::OK(); }
    virtual Status Resize(int64_t) { return Status::OK(); }
    virtual Status AppendNull() = 0;
    Status AppendNulls(int64_t n) {
        for (int64_t i = 0; i < n; ++i) ARROW_RETURN_NOT_OK(AppendNull());
        return Status::OK();
    }
    virtual Status AppendEmptyValue() = 0;
    Status AppendEmptyValues(int64_t n) {
        for (int64_t i = 0; i < n; ++i) ARROW_RETURN_NOT_OK(AppendEmptyValue());
        return Status::OK();
    }
    /// Append element i of an array of the same type.
    virtual Status AppendFrom(const Array& a, int64_t i) = 0;
    Status AppendArraySlice(const Array& a, int64_t off, int64_t n) {
        for (int64_t i = 0; i < n; ++i) ARROW_RETURN_NOT_OK(AppendFrom(a, off + i));
        return Status::OK();
    }
    virtual void Reset() { valid_.clear(); nulls_ = 0; for (auto& c : children_) c->Reset(); }
    virtual Status FinishInternal(std::shared_ptr<ArrayData>* out) = 0;
    Status Finish(std::shared_ptr<Array>* out) {
        std::shared_ptr<ArrayData> d;
        ARROW_RETURN_NOT_OK(FinishInternal(&d));
        *out = MakeArray(d);
        return Status::OK();
    }
    Result<std::shared_ptr<Array>> Finish() {
        std::shared_ptr<Array> out;
        ARROW_RETURN_NOT_OK(Finish(&out));
        return out;
    }
    template <typename A>
    Status Finish(std::shared_ptr<A>* out) {
        std::shared_ptr<Array> a;
        ARROW_RETURN_NOT_OK(Finish(&a));
        *out = std::dynamic_pointer_cast<A>(a);
        return Status::OK();
    }
    virtual std::shared_ptr<DataType> type() const = 0;

 protected:
    void Push(bool v) { valid_.push_back(v); nulls_ += !v; }
    /// Takes the validity bits and resets them.
    Status TakeValidity(std::shared_ptr<Buffer>* nb, int64_t* n, int64_t* nulls);
    MemoryPool* pool_;
    std::vector<bool> valid_;
    int64_t nulls_ = 0;
    std::vector<std::shared_ptr<ArrayBuilder>> children_;
};
class NullBuilder : public ArrayBuilder {
 public:
    explicit NullBuilder(MemoryPool* p = default_memory_pool()) : ArrayBuilder(p) {}
    Status AppendNull() override { Push(false); return Status::OK(); }
    Status AppendEmptyValue() override { return AppendNull(); }
    Status AppendFrom(const Array&, int64_t) override { return AppendNull(); }
    Status FinishInternal(std::shared_ptr<ArrayData>* out) override;
    std::shared_ptr<DataType> type() const override { return null(); }
};
class BooleanBuilder : public ArrayBuilder {
 public:
    using TypeClass = BooleanType;
    explicit BooleanBuilder(MemoryPool* p = default_memory_pool()) : ArrayBuilder(p) {}
    BooleanBuilder(const std::shared_ptr<DataType>&, MemoryPool* p = default_memory_pool()) : ArrayBuilder(p) {}
    Status Append(bool v) { Push(true); v_.push_back(v); return Status::OK(); }
    void UnsafeAppend(bool v) { (void)Append(v); }
    void UnsafeAppendNull() { (void)AppendNull(); }
    Status AppendNull() override { Push(false); v_.push_back(false); return Status::OK(); }
    Status AppendEmptyValue() override { return Append(false); }
    Status AppendFrom(const Array& a, int64_t i) override;
    Status AppendValues(const std::vector<bool>& v) { for (bool b : v) (void)Append(b); return Status::OK(); }
    void Reset() override { ArrayBuilder::Reset(); v_.clear(); }
    Status FinishInternal(std::shared_ptr<ArrayData>* out) override;
    std::shared_ptr<DataType> type() const override { return boolean(); }

 private:
    std::vector<bool> v_;
};
template <typename T>
class NumericBuilder : public ArrayBuilder {
 public:
    using TypeClass = T;
    using value_type = typename T::c_type;
    explicit NumericBuilder(MemoryPool* p = default_memory_pool()) : ArrayBuilder(p), t_(std::make_shared<T>()) {}
    NumericBuilder(const std::shared_ptr<DataType>& t, MemoryPool* p = default_memory_pool()) : ArrayBuilder(p), t_(t) {}
    Status Append(value_type v) { Push(true); v_.push_back(v); return Status::OK(); }
    void UnsafeAppend(value_type v) { (void)Append(v); }
    void UnsafeAppendNull() { (void)AppendNull(); }
    Status AppendNull() override { Push(false); v_.push_back(value_type{}); return Status::OK(); }
    Status AppendEmptyValue() override { return Append(value_type{}); }
    Status AppendValues(const std::vector<value_type>& v) { for (auto x : v) (void)Append(x); return Status::OK(); }
    Status AppendValues(const std::vector<value_type>& v, const std::vector<bool>& ok) {
        for (size_t i = 0; i < v.size(); ++i) { if (ok[i]) (void)Append(v[i]); else (void)AppendNull(); }
        return Status::OK();
    }
    Status AppendValues(const value_type* v, int64_t n, const uint8_t* valid = nullptr) {
        for (int64_t i = 0; i < n; ++i) { if (!valid || valid[i]) (void)Append(v[i]); else (void)AppendNull(); }
        return Status::OK();
    }
    Status AppendFrom(const Array& a, int64_t i) override {
        if (a.IsNull(i)) return AppendNull();
        return Append(dynamic_cast<const NumericArray<T>&>(a).Value(i));
    }
    value_type GetValue(int64_t i) const { return v_[i]; }
    void Reset() override { ArrayBuilder::Reset(); v_.clear(); }
    Status FinishInternal(std::shared_ptr<ArrayData>* out) override {
        std::shared_ptr<Buffer> nb;
        int64_t n, nulls;
        ARROW_RETURN_NOT_OK(TakeValidity(&nb, &n, &nulls));
        ARROW_ASSIGN_OR_RAISE(std::shared_ptr<Buffer> b, AllocateBuffer(n * sizeof(value_type), pool_));
        if (n) std::memcpy(b->mutable_data(), v_.data(), n * sizeof(value_type));
        v_.clear();
        *out = ArrayData::Make(t_, n, {nb, b}, nulls);
        return Status::OK();
    }
    std::shared_ptr<DataType> type() const override { return t_; }

 private:
    std::shared_ptr<DataType> t_;
    std::vector<value_type> v_;
};
using Int8Builder = NumericBuilder<Int8Type>;
using Int16Builder = NumericBuilder<Int16Type>;
using Int32Builder = NumericBuilder<Int32Type>;
using Int64Builder = NumericBuilder<Int64Type>;
using UInt8Builder = NumericBuilder<UInt8Type>;
using UInt16Builder = NumericBuilder<UInt16Type>;
using UInt32Builder = NumericBuilder<UInt32Type>;
using UInt64Builder = NumericBuilder<UInt64Type>;
using FloatBuilder = NumericBuilder<FloatType>;
using DoubleBuilder = NumericBuilder<DoubleType>;
using Date32Builder = NumericBuilder<Date32Type>;
using Date64Builder = NumericBuilder<Date64Type>;
using TimestampBuilder = NumericBuilder<TimestampType>;

template <typename T>
class BaseBinaryBuilder : public ArrayBuilder {
 public:
    using TypeClass = T;
    using offset_type = typename T::offset_type;
    explicit BaseBinaryBuilder(MemoryPool* p = default_memory_pool()) : ArrayBuilder(p) {}
    BaseBinaryBuilder(const std::shared_ptr<DataType>&, MemoryPool* p = default_memory_pool()) : ArrayBuilder(p) {}
    Status Append(std::string_view v) { Push(true); d_.append(v); o_.push_back(d_.size()); return Status::OK(); }
    Status Append(const uint8_t* v, offset_type n) { return Append(std::string_view(reinterpret_cast<const char*>(v), n)); }
    Status Append(const char* v, offset_type n) { return Append(std::string_view(v, n)); }
    Status Append(const char* v) { return Append(std::string_view(v)); }
    Status Append(const std::string& v) { return Append(std::string_view(v)); }
    void UnsafeAppend(std::string_view v) { (void)Append(v); }
    Status AppendNull() override { Push(false); o_.push_back(d_.size()); return Status::OK(); }
    Status AppendEmptyValue() override { return Append(std::string_view()); }
    Status AppendValues(const std::vector<std::string>& v) { for (auto& s : v) (void)Append(std::string_view(s)); return Status::OK(); }
    Status ReserveData(int64_t) { return Status::OK(); }
    Status AppendFrom(const Array& a, int64_t i) override {
        if (a.IsNull(i)) return AppendNull();
        if constexpr (sizeof(offset_type) == 4) return Append(dynamic_cast<const BinaryArray&>(a).GetView(i));
        else return Append(dynamic_cast<const LargeBinaryArray&>(a).GetView(i));
    }
    void Reset() override { ArrayBuilder::Reset(); d_.clear(); o_.clear(); }
    Status FinishInternal(std::shared_ptr<ArrayData>* out) override {
        std::shared_ptr<Buffer> nb;
        int64_t n, nulls;
        ARROW_RETURN_NOT_OK(TakeValidity(&nb, &n, &nulls));
        ARROW_ASSIGN_OR_RAISE(std::shared_ptr<Buffer> ob, AllocateBuffer((n + 1) * sizeof(offset_type), pool_));
        auto* p = reinterpret_cast<offset_type*>(ob->mutable_data());
        p[0] = 0;
        for (int64_t i = 0; i < n; ++i) p[i + 1] = static_cast<offset_type>(o_[i]);
        ARROW_ASSIGN_OR_RAISE(std::shared_ptr<Buffer> db, AllocateBuffer(d_.size(), pool_));
        if (!d_.empty()) std::memcpy(db->mutable_data(), d_.data(), d_.size());
        *out = ArrayData::Make(type(), n, {nb, ob, db}, nulls);
        d_.clear();
        o_.clear();
        return Status::OK();
    }

 private:
    std::string d_;
    std::vector<int64_t> o_;
};
class BinaryBuilder : public BaseBinaryBuilder<BinaryType> {
 public:
    using BaseBinaryBuilder::BaseBinaryBuilder;
    std::shared_ptr<DataType> type() const override { return binary(); }
};
class StringBuilder : public BinaryBuilder {
 public:
    using TypeClass = StringType;
    using BinaryBuilder::BinaryBuilder;
    std::shared_ptr<DataType> type() const override { return utf8(); }
};
class LargeBinaryBuilder : public BaseBinaryBuilder<LargeBinaryType> {
 public:
    using BaseBinaryBuilder::BaseBinaryBuilder;
    std::shared_ptr<DataType> type() const override { return large_binary(); }
};
class LargeStringBuilder : public LargeBinaryBuilder {
 public:
    using LargeBinaryBuilder::LargeBinaryBuilder;
    std::shared_ptr<DataType> type() const override { return large_utf8(); }
};
class FixedSizeBinaryBuilder : public ArrayBuilder {
 public:
    FixedSizeBinaryBuilder(const std::shared_ptr<DataType>& t, MemoryPool* p = default_memory_pool())
        : ArrayBuilder(p), t_(t), w_(dynamic_cast<const FixedSizeBinaryType&>(*t).byte_width()) {}
    Status Append(const uint8_t* v) { Push(true); d_.append(reinterpret_cast<const char*>(v), w_); return Status::OK(); }
    Status AppendNull() override { Push(false); d_.append(w_, '\0'); return Status::OK(); }
    Status AppendEmptyValue() override { Push(true); d_.append(w_, '\0'); return Status::OK(); }
    Status AppendFrom(const Array& a, int64_t i) override {
        if (a.IsNull(i)) return AppendNull();
        return Append(dynamic_cast<const FixedSizeBinaryArray&>(a).GetValue(i));
    }
    void Reset() override { ArrayBuilder::Reset(); d_.clear(); }
    Status FinishInternal(std::shared_ptr<ArrayData>* out) override;
    std::shared_ptr<DataType> type() const override { return t_; }

 protected:
    std::shared_ptr<DataType> t_;
    int32_t w_;
    std::string d_;
};
class Decimal128Builder : public FixedSizeBinaryBuilder {
 public:
    using TypeClass = Decimal128Type;
    using FixedSizeBinaryBuilder::FixedSizeBinaryBuilder;
    using FixedSizeBinaryBuilder::Append;
    Status Append(const Decimal128& v) { return FixedSizeBinaryBuilder::Append(v.native_endian_bytes()); }
    void UnsafeAppend(const Decimal128& v) { (void)Append(v); }
};
class ListBuilder : public ArrayBuilder {
 public:
    using TypeClass = ListType;
    ListBuilder(MemoryPool* p, const std::shared_ptr<ArrayBuilder>& v, const std::shared_ptr<DataType>& t = nullptr)
        : ArrayBuilder(p), t_(t ? t : list(v->type())) { children_ = {v}; }
    Status Append(bool valid = true) { Push(valid); o_.push_back(children_[0]->length()); return Status::OK(); }
    Status AppendNull() override { return Append(false); }
    Status AppendEmptyValue() override { return Append(true); }
    Status AppendFrom(const Array& a, int64_t i) override;
    ArrayBuilder* value_builder() const { return children_[0].get(); }
    void Reset() override { ArrayBuilder::Reset(); o_.clear(); }
    Status FinishInternal(std::shared_ptr<ArrayData>* out) override;
    std::shared_ptr<DataType> type() const override { return t_; }

 protected:
    std::shared_ptr<DataType> t_;
    std::vector<int64_t> o_;
};
class StructBuilder : public ArrayBuilder {
 public:
    using TypeClass = StructType;
    StructBuilder(const std::shared_ptr<DataType>& t, MemoryPool* p, std::vector<std::shared_ptr<ArrayBuilder>> f)
        : ArrayBuilder(p), t_(t) { children_ = std::move(f); }
    ArrayBuilder* field_builder(int i) const { return children_[i].get(); }
    int num_fields() const { return static_cast<int>(children_.size()); }
    Status Append(bool valid = true) { Push(valid); return Status::OK(); }
    Status AppendValues(int64_t n, const uint8_t* valid_bytes) {
        for (int64_t i = 0; i < n; ++i) Push(!valid_bytes || valid_bytes[i]);
        return Status::OK();
    }
    Status AppendNull() override {
        for (auto& c : children_) ARROW_RETURN_NOT_OK(c->AppendEmptyValue());
        return Append(false);
    }
    Status AppendEmptyValue() override {
        for (auto& c : children_) ARROW_RETURN_NOT_OK(c->AppendEmptyValue());
        return Append(true);
    }
    Status AppendFrom(const Array& a, int64_t i) override;
    Status FinishInternal(std::shared_ptr<ArrayData>* out) override;
    std::shared_ptr<DataType> type() const override { return t_; }

 private:
    std::shared_ptr<DataType> t_;
};
class MapBuilder : public ArrayBuilder {
 public:
    using TypeClass = MapType;
    MapBuilder(MemoryPool* p, const std::shared_ptr<ArrayBuilder>& k, const std::shared_ptr<ArrayBuilder>& v,
               const std::shared_ptr<DataType>& t);
    MapBuilder(MemoryPool* p, const std::shared_ptr<ArrayBuilder>& k, const std::shared_ptr<ArrayBuilder>& v, bool sorted = false)
        : MapBuilder(p, k, v, map(k->type(), v->type(), sorted)) {}
    Status Append() { Sync(); Push(true); o_.push_back(k_->length()); return Status::OK(); }
    Status AppendNull() override { Sync(); Push(false); o_.push_back(k_->length()); return Status::OK(); }
    Status AppendEmptyValue() override { return Append(); }
    Status AppendFrom(const Array& a, int64_t i) override;
    ArrayBuilder* key_builder() const { return k_.get(); }
    ArrayBuilder* item_builder() const { return v_.get(); }
    ArrayBuilder* value_builder() const { return children_[0].get(); }
    void Reset() override { ArrayBuilder::Reset(); o_.clear(); }
    Status FinishInternal(std::shared_ptr<ArrayData>* out) override;
    std::shared_ptr<DataType> type() const override { return t_; }

 private:
    void Sync();
    std::shared_ptr<DataType> t_;
    std::shared_ptr<ArrayBuilder> k_, v_;
    std::vector<int64_t> o_;
};
Status MakeBuilder(MemoryPool* pool, const std::shared_ptr<DataType>& t, std::unique_ptr<ArrayBuilder>* out);
Result<std::unique_ptr<ArrayBuilder>> MakeBuilder(const std::shared_ptr<DataType>& t, MemoryPool* pool = default_memory_pool());

Result<std::shared_ptr<Array>> Concatenate(const ArrayVector& a, MemoryPool* pool = default_memory_pool());
Result<std::shared_ptr<Array>> MakeArrayOfNull(const std::shared_ptr<DataType>& t, int64_t n, MemoryPool* pool = default_memory_pool());
Result<std::shared_ptr<Array>> MakeArrayFromScalar(const Scalar& s, int64_t n, MemoryPool* pool = default_memory_pool());
Result<std::shared_ptr<Array>> MakeEmptyArray(const std::shared_ptr<DataType>& t, MemoryPool* pool = default_memory_pool());
Status AppendScalarTo(ArrayBuilder* b, const Scalar& s);

// ---------------------------------------------------------------- C data interface
Status ExportType(const DataType& t, ArrowSchema* out);
Status ExportField(const Field& f, ArrowSchema* out);
Status ExportSchema(const Schema& s, ArrowSchema* out);
Status ExportArray(const Array& a, ArrowArray* out, ArrowSchema* out_schema = nullptr);
Status ExportRecordBatch(const RecordBatch& b, ArrowArray* out, ArrowSchema* out_schema = nullptr);
Result<std::shared_ptr<DataType>> ImportType(ArrowSchema* s);
Result<std::shared_ptr<Field>> ImportField(ArrowSchema* s);
Result<std::shared_ptr<Schema>> ImportSchema(ArrowSchema* s);
Result<std::shared_ptr<Array>> ImportArray(ArrowArray* a, std::shared_ptr<DataType> t);
Result<std::shared_ptr<Array>> ImportArray(ArrowArray* a, ArrowSchema* t);
Result<std::shared_ptr<RecordBatch>> ImportRecordBatch(ArrowArray* a, std::shared_ptr<Schema> s);
Result<std::shared_ptr<RecordBatch>> ImportRecordBatch(ArrowArray* a, ArrowSchema* s);

// ---------------------------------------------------------------- compute
struct TypeHolder {
    TypeHolder() = default;
    TypeHolder(const DataType* t) : type(t) {}                                                  // NOLINT
    TypeHolder(std::shared_ptr<DataType> t) : type(t.get()), owned_type(std::move(t)) {}        // NOLINT
    const DataType* type = nullptr;
    std::shared_ptr<DataType> owned_type;
    std::shared_ptr<DataType> GetSharedPtr() const { return owned_type ? owned_type : type->GetSharedPtr(); }
};
class Datum {
 public:
    Datum() = default;
    Datum(std::shared_ptr<Array> a) : a_(std::move(a)) {}   // NOLINT
    Datum(std::shared_ptr<Scalar> s) : s_(std::move(s)) {}  // NOLINT
    template <typename T, typename = std::enable_if_t<std::is_base_of_v<Array, T> || std::is_base_of_v<Scalar, T>>>
    Datum(const std::shared_ptr<T>& t) {  // NOLINT
        if constexpr (std::is_base_of_v<Array, T>) a_ = t; else s_ = t;
    }
    bool is_array() const { return a_ != nullptr; }
    bool is_scalar() const { return s_ != nullptr; }
    std::shared_ptr<Array> make_array() const { return a_; }
    std::shared_ptr<ArrayData> array() const { return a_->data(); }
    const std::shared_ptr<Scalar>& scalar() const { return s_; }
    std::shared_ptr<DataType> type() const { return a_ ? a_->type() : s_->type; }
    template <typename T> std::shared_ptr<T> array_as() const { return std::dynamic_pointer_cast<T>(a_); }

 private:
    std::shared_ptr<Array> a_;
    std::shared_ptr<Scalar> s_;
};
namespace compute {
class ExecContext {
 public:
    explicit ExecContext(MemoryPool* p = default_memory_pool()) : p_(p) {}
    MemoryPool* memory_pool() const { return p_; }

 private:
    MemoryPool* p_;
};
struct CastOptions {
    explicit CastOptions(bool safe = true)
        : allow_int_overflow(!safe), allow_time_truncate(!safe), allow_time_overflow(!safe),
          allow_decimal_truncate(!safe), allow_float_truncate(!safe), allow_invalid_utf8(!safe) {}
    static CastOptions Safe(TypeHolder t = {}) { CastOptions o(true); o.to_type = t; return o; }
    static CastOptions Unsafe(TypeHolder t = {}) { CastOptions o(false); o.to_type = t; return o; }
    TypeHolder to_type;
    bool allow_int_overflow, allow_time_truncate, allow_time_overflow, allow_decimal_truncate,
        allow_float_truncate, allow_invalid_utf8;
};
bool CanCast(const DataType& from, const DataType& to);
Result<std::shared_ptr<Array>> Cast(const Array& a, const TypeHolder& to, const CastOptions& o = CastOptions::Safe(), ExecContext* ctx = nullptr);
Result<Datum> Cast(const Datum& d, const TypeHolder& to, const CastOptions& o = CastOptions::Safe(), ExecContext* ctx = nullptr);
struct AssumeTimezoneOptions {
    enum Ambiguous { AMBIGUOUS_RAISE, AMBIGUOUS_EARLIEST, AMBIGUOUS_LATEST };
    enum Nonexistent { NONEXISTENT_RAISE, NONEXISTENT_EARLIEST, NONEXISTENT_LATEST };
    explicit AssumeTimezoneOptions(std::string tz, Ambiguous a = AMBIGUOUS_RAISE, Nonexistent n = NONEXISTENT_RAISE)
        : timezone(std::move(tz)), ambiguous(a), nonexistent(n) {}
    std::string timezone;
    Ambiguous ambiguous;
    Nonexistent nonexistent;
};
Result<Datum> AssumeTimezone(const Datum& d, const AssumeTimezoneOptions& o, ExecContext* ctx = nullptr);
Result<Datum> LocalTimestamp(const Datum& d, ExecContext* ctx = nullptr);
enum class SortOrder { Ascending, Descending };
enum class NullPlacement { AtStart, AtEnd };
struct SortKey {
    SortKey(std::string n, SortOrder o = SortOrder::Ascending) : name(std::move(n)), order(o) {}  // NOLINT
    std::string name;
    SortOrder order;
};
struct SortOptions {
    explicit SortOptions(std::vector<SortKey> k = {}, NullPlacement n = NullPlacement::AtEnd)
        : sort_keys(std::move(k)), null_placement(n) {}
    std::vector<SortKey> sort_keys;
    NullPlacement null_placement;
};
Result<std::shared_ptr<Array>> SortIndices(const Datum& d, const SortOptions& o, ExecContext* ctx = nullptr);
Result<std::shared_ptr<Array>> Take(const Array& a, const Array& indices, MemoryPool* pool = default_memory_pool());
}  // namespace compute
}  // namespace arrow

namespace arrow_vendored {
namespace date {
class time_zone {
 public:
    const std::string& name() const { static const std::string n = "UTC"; return n; }
};
inline const time_zone* current_zone() { static const time_zone z; return &z; }
}  // namespace date
}  // namespace arrow_vendored
