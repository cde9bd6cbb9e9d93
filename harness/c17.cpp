// Column statistics against a scan of the collected values.
#include "vf.h"

#include <cmath>
#include <limits>

#include "paimon/data/decimal.h"
#include "paimon/data/timestamp.h"
#include "paimon/defs.h"
#include "paimon/format/column_stats.h"

using namespace paimon;
using vf::Case;
using vf::Fmt;

namespace {
std::string Show(bool v) { return v ? "true" : "false"; }
template <typename T, std::enable_if_t<std::is_integral_v<T> && !std::is_same_v<T, bool>, int> = 0> std::string Show(T v) { return std::to_string((int64_t)v); }
template <typename T, std::enable_if_t<std::is_floating_point_v<T>, int> = 0> std::string Show(T v) { return Fmt("%.17g", (double)v); }
std::string Show(const std::string& v) { return vf::Hex(v); }
std::string Show(const Timestamp& t) { return Fmt("%lld.%06d", (long long)t.GetMillisecond(), t.GetNanoOfMillisecond()); }
std::string Show(const Decimal& d) { return Fmt("%llx%016llx/%d,%d", (unsigned long long)d.HighBits(), (unsigned long long)d.LowBits(), d.Precision(), d.Scale()); }
template <typename T> std::string Show(const std::optional<T>& v) { return v ? Show(*v) : "null"; }

// value identity (exact fields), and the type's order, both independent of the code under test
template <typename T> bool Same(const T& a, const T& b) { return a == b; }
bool Same(const Timestamp& a, const Timestamp& b) { return a.GetMillisecond() == b.GetMillisecond() && a.GetNanoOfMillisecond() == b.GetNanoOfMillisecond(); }
bool Same(const Decimal& a, const Decimal& b) { return a.Value() == b.Value() && a.Precision() == b.Precision() && a.Scale() == b.Scale(); }
template <typename T> bool Less(const T& a, const T& b) { return a < b; }
bool Less(const std::string& a, const std::string& b) {
    return std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end(), [](char x, char y) { return (unsigned char)x < (unsigned char)y; });
}
bool Less(const Timestamp& a, const Timestamp& b) {
    return std::make_pair(a.GetMillisecond(), a.GetNanoOfMillisecond()) < std::make_pair(b.GetMillisecond(), b.GetNanoOfMillisecond());
}
bool Less(const Decimal& a, const Decimal& b) { return a.Value() < b.Value(); }  // one scale per column
template <typename T> bool SameOpt(const std::optional<T>& a, const std::optional<T>& b) { return a.has_value() == b.has_value() && (!a || Same(*a, *b)); }

template <typename T> T Int(Case& c) {
    switch (c.rng.Below(4)) {
        case 0: return c.rng.Of<T>({std::numeric_limits<T>::min(), std::numeric_limits<T>::max(), 0, -1, 1});
        case 1: return (T)c.rng.Range(-3, 3);
        default: return (T)c.rng.U64();
    }
}
template <typename T> T Flt(Case& c) {
    switch (c.rng.Below(4)) {
        case 0: return c.rng.Of<T>({std::numeric_limits<T>::infinity(), -std::numeric_limits<T>::infinity(), std::numeric_limits<T>::max(), std::numeric_limits<T>::lowest(), std::numeric_limits<T>::denorm_min(), -std::numeric_limits<T>::denorm_min(), 0, 1, -1});
        case 1: return (T)(c.rng.Unit() - 0.5);
        default: return (T)std::ldexp(c.rng.Unit() - 0.5, (int)c.rng.Range(-60, 60));
    }
}

// Each column type: how to make values, create statistics, collect.
template <typename T, typename S> struct Column {
    std::function<T()> value;
    std::function<std::unique_ptr<ColumnStats>(std::optional<T>, std::optional<T>, std::optional<int64_t>)> make;
    FieldType type;
    const char* name;
    std::function<void(Case&, S*)> extra;
};

template <typename T, typename S> void Run(Case& c, const Column<T, S>& col) {
    bool preset = c.rng.Chance(0.35);
    std::optional<T> lo, hi;
    std::optional<int64_t> nulls;
    if (preset) {
        if (c.rng.Chance(0.8)) lo = col.value();
        if (c.rng.Chance(0.8)) hi = col.value();
        if (lo && hi && Less(*hi, *lo)) std::swap(*lo, *hi);
        if (c.rng.Chance(0.8)) nulls = c.rng.Of<int64_t>({0, 1, 7, 1LL << 40});
    }
    auto base = col.make(lo, hi, nulls);
    c.Op(Fmt("%s min=%s max=%s nulls=%s", col.name, Show(lo).c_str(), Show(hi).c_str(), Show(nulls).c_str()), false);
    S* s = dynamic_cast<S*>(base.get());
    VF_EXPECT(s != nullptr, "kind", "%s statistics have another kind", col.name);
    VF_EXPECT(base->GetFieldType() == col.type, "type", "%s statistics report another type", col.name);
    auto judge = [&](const char* when) {
        std::optional<T> a = s->Min(), b = s->Max();
        VF_EXPECT(SameOpt(a, lo), "minimum", "%s: %s minimum is %s, expected %s", col.name, when, Show(a).c_str(), Show(lo).c_str());
        VF_EXPECT(SameOpt(b, hi), "maximum", "%s: %s maximum is %s, expected %s", col.name, when, Show(b).c_str(), Show(hi).c_str());
        VF_EXPECT(base->NullCount() == nulls, "null-count", "%s: %s null count is %s, expected %s", col.name, when, Show(base->NullCount()).c_str(), Show(nulls).c_str());
        if (col.extra) col.extra(c, s);
    };
    judge("given");
    size_t n = preset && c.rng.Chance(0.5) ? 0 : c.rng.Range(1, c.thorough() ? 60 : 24);
    double pnull = c.rng.Of<double>({0, 0.2, 0.5, 1});
    for (size_t i = 0; i < n; i++) {
        std::optional<T> v;
        if (!c.rng.Chance(pnull)) {
            v = col.value();
            if (lo && hi && c.rng.Chance(0.15)) v = c.rng.Chance(0.5) ? *lo : *hi;
        }
        c.Op("collect " + Show(v), true);
        s->Collect(v);
        if (v) {
            if (!lo || Less(*v, *lo)) lo = v;
            if (!hi || Less(*hi, *v)) hi = v;
            if (!nulls) nulls = 0;
        } else {
            nulls = nulls.value_or(0) + 1;
        }
        judge("collected");
    }
    std::string text = base->ToString();
    VF_EXPECT(text.find("null count " + (nulls ? std::to_string(*nulls) : std::string("null"))) != std::string::npos, "text",
              "%s: text '%s' lacks the null count", col.name, text.c_str());
    VF_EXPECT(lo.has_value() || text.find("min null") == 0, "text", "%s: text '%s' claims a minimum", col.name, text.c_str());
    c.Saw(vf::HashStr(text));
}
__int128 Wide(Case& c, int precision) {
    __int128 lim = 1;
    for (int i = 0; i < precision; i++) lim *= 10;
    __int128 v = ((__int128)c.rng.U64() << 64 | c.rng.U64());
    if (c.rng.Chance(0.3)) v = c.rng.Range(-5, 5);
    if (c.rng.Chance(0.1)) v = lim - 1;
    if (c.rng.Chance(0.1)) v = 1 - lim;
    v %= lim;
    return v;
}
}  // namespace

VF_SCENARIO(numbers, 24000, 400000) {
    switch (c.rng.Below(8)) {
        case 0: Run<bool, BooleanColumnStats>(c, {[&] { return c.rng.Chance(0.5); }, ColumnStats::CreateBooleanColumnStats, FieldType::BOOLEAN, "boolean", nullptr}); break;
        case 1: Run<int8_t, TinyIntColumnStats>(c, {[&] { return Int<int8_t>(c); }, ColumnStats::CreateTinyIntColumnStats, FieldType::TINYINT, "tinyint", nullptr}); break;
        case 2: Run<int16_t, SmallIntColumnStats>(c, {[&] { return Int<int16_t>(c); }, ColumnStats::CreateSmallIntColumnStats, FieldType::SMALLINT, "smallint", nullptr}); break;
        case 3: Run<int32_t, IntColumnStats>(c, {[&] { return Int<int32_t>(c); }, ColumnStats::CreateIntColumnStats, FieldType::INT, "int", nullptr}); break;
        case 4: Run<int64_t, BigIntColumnStats>(c, {[&] { return Int<int64_t>(c); }, ColumnStats::CreateBigIntColumnStats, FieldType::BIGINT, "bigint", nullptr}); break;
        case 5: Run<float, FloatColumnStats>(c, {[&] { return Flt<float>(c); }, ColumnStats::CreateFloatColumnStats, FieldType::FLOAT, "float", nullptr}); break;
        case 6: Run<double, DoubleColumnStats>(c, {[&] { return Flt<double>(c); }, ColumnStats::CreateDoubleColumnStats, FieldType::DOUBLE, "double", nullptr}); break;
        default: Run<int32_t, DateColumnStats>(c, {[&] { return Int<int32_t>(c); }, ColumnStats::CreateDateColumnStats, FieldType::DATE, "date", nullptr});
    }
}
VF_SCENARIO(texts, 12000, 200000) {
    Run<std::string, StringColumnStats>(c, {[&]() -> std::string {
        switch (c.rng.Below(5)) {
            case 0: return "";
            case 1: return std::string(c.rng.Below(4), c.rng.Chance(0.5) ? '\xff' : '\0');
            case 2: return c.rng.Of<std::string>({"a", "ab", "abc", "b", "\xe4\xb8\xad", "\x7f", "\x80", "Z"});
            case 3: return std::string(c.rng.Range(10, 40), 'p') + c.rng.Bytes(1);
            default: return c.rng.Bytes(c.rng.Below(6));
        }
    }, ColumnStats::CreateStringColumnStats, FieldType::STRING, "string", nullptr});
}
VF_SCENARIO(instants, 8000, 150000) {
    int precision = c.rng.Of<int>({0, 3, 6, 9});
    Run<Timestamp, TimestampColumnStats>(c, {[&] {
        return Timestamp(c.rng.Chance(0.5) ? c.rng.Range(-3, 3) : c.rng.Range(-62135596800000LL, 253402300799999LL), (int32_t)(c.rng.Chance(0.4) ? c.rng.Of<int>({0, 1, 999999}) : c.rng.Below(1000000)));
    }, [&](std::optional<Timestamp> a, std::optional<Timestamp> b, std::optional<int64_t> n) { return ColumnStats::CreateTimestampColumnStats(a, b, n, precision); },
    FieldType::TIMESTAMP, "timestamp", [&](Case& c, TimestampColumnStats* s) { VF_EXPECT(s->GetPrecision() == precision, "precision", "precision %d became %d", precision, s->GetPrecision()); }});
}
VF_SCENARIO(decimals, 8000, 150000) {
    int precision = (int)c.rng.Range(1, 38);
    int scale = (int)c.rng.Range(0, precision);
    Run<Decimal, DecimalColumnStats>(c, {[&] { return Decimal(precision, scale, Wide(c, precision)); },
    [&](std::optional<Decimal> a, std::optional<Decimal> b, std::optional<int64_t> n) { return ColumnStats::CreateDecimalColumnStats(a, b, n, precision, scale); },
    FieldType::DECIMAL, "decimal", [&](Case& c, DecimalColumnStats* s) {
        VF_EXPECT(s->GetPrecision() == precision && s->GetScale() == scale, "precision", "decimal(%d,%d) became (%d,%d)", precision, scale, s->GetPrecision(), s->GetScale()); }});
}
VF_SCENARIO(nested, 400, 4000) {
    FieldType t = c.rng.Of<FieldType>({FieldType::ARRAY, FieldType::MAP, FieldType::STRUCT});
    std::optional<int64_t> n;
    if (c.rng.Chance(0.8)) n = c.rng.Range(0, 1LL << 40);
    c.Op(Fmt("nested %d %s", (int)t, Show(n).c_str()), true);
    auto s = ColumnStats::CreateNestedColumnStats(t, n);
    VF_EXPECT(s->GetFieldType() == t, "type", "nested type changed");
    VF_EXPECT(s->NullCount() == n, "null-count", "nested null count is %s, expected %s", Show(s->NullCount()).c_str(), Show(n).c_str());
    c.Saw(vf::HashStr(s->ToString()));
}
