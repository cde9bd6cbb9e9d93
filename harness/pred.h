// Random typed columns, values and predicates, with the harness's own three-valued evaluation.
#pragma once
#include <cmath>
#include <cstring>

#include "paimon/data/decimal.h"
#include "paimon/data/timestamp.h"
#include "paimon/defs.h"
#include "paimon/predicate/literal.h"
#include "paimon/predicate/predicate_builder.h"
#include "tab.h"
#include "vf.h"

namespace pred {
using namespace paimon;
using tab::Cell;
using tab::Row;

enum Kind { BOOL, I8, I16, I32, I64, F32, F64, STR, BIN, DATE, DEC, TS, KINDS };

struct Col {
    std::string name;
    Kind kind;
    int p = 0, s = 0;  // decimal: precision and scale; timestamp: unit in p
    std::shared_ptr<arrow::DataType> Type() const {
        switch (kind) {
            case BOOL: return arrow::boolean();
            case I8: return arrow::int8();
            case I16: return arrow::int16();
            case I32: return arrow::int32();
            case I64: return arrow::int64();
            case F32: return arrow::float32();
            case F64: return arrow::float64();
            case STR: return arrow::utf8();
            case BIN: return arrow::binary();
            case DATE: return arrow::date32();
            case DEC: return arrow::decimal128(p, s);
            default: return arrow::timestamp((arrow::TimeUnit::type)p);
        }
    }
    FieldType Field() const {
        static const FieldType t[] = {FieldType::BOOLEAN, FieldType::TINYINT, FieldType::SMALLINT, FieldType::INT, FieldType::BIGINT, FieldType::FLOAT,
                                      FieldType::DOUBLE, FieldType::STRING, FieldType::BINARY, FieldType::DATE, FieldType::DECIMAL, FieldType::TIMESTAMP};
        return t[kind];
    }
    Literal Lit(const std::string& v) const {
        switch (kind) {
            case BOOL: return Literal(v == "true");
            case I8: return Literal((int8_t)std::stol(v));
            case I16: return Literal((int16_t)std::stol(v));
            case I32: return Literal((int32_t)std::stol(v));
            case I64: return Literal((int64_t)std::stoll(v));
            case F32: return Literal(std::stof(v));
            case F64: return Literal(std::stod(v));
            case STR: return Literal(FieldType::STRING, v.data(), v.size());
            case BIN: return Literal(FieldType::BINARY, v.data(), v.size());
            case DATE: return Literal(FieldType::DATE, (int32_t)std::stol(v));
            case DEC: return Literal(Decimal(p, s, Big(v)));
            default: return Literal(Stamp(std::stoll(v), p));
        }
    }
    static __int128 Big(const std::string& t) {
        __int128 v = 0;
        for (char ch : t) if (ch != '-') v = v * 10 + (ch - '0');
        return t[0] == '-' ? -v : v;
    }
    static std::string BigText(__int128 v) {
        if (v == 0) return "0";
        std::string s;
        bool neg = v < 0;
        while (v != 0) {
            int d = (int)(v % 10);
            s += (char)('0' + (d < 0 ? -d : d));
            v /= 10;
        }
        if (neg) s += '-';
        std::reverse(s.begin(), s.end());
        return s;
    }
    static Timestamp Stamp(int64_t v, int unit) {
        static const int64_t per[] = {0, 1, 1000, 1000000};
        if (unit == 0) return Timestamp(v * 1000, 0);
        int64_t ms = v / per[unit], rest = v % per[unit];
        if (rest < 0) ms--, rest += per[unit];
        return Timestamp(ms, (int32_t)(rest * (1000000 / per[unit])));
    }
    int Compare(const std::string& a, const std::string& b) const {
        auto sign = [](auto x, auto y) { return x < y ? -1 : x > y ? 1 : 0; };
        switch (kind) {
            case BOOL: return sign(a == "true", b == "true");
            case F32: return sign(std::stof(a), std::stof(b));
            case F64: return sign(std::stod(a), std::stod(b));
            case STR:
            case BIN: return sign(a, b);
            default: return sign(Big(a), Big(b));
        }
    }
    // A value near the centre, so that values, literals and file statistics meet.
    std::string Value(vf::Rng& r, int64_t centre) const {
        auto near = [&](int64_t lo, int64_t hi) {
            int64_t v;
            if (r.Chance(0.06)) v = r.Of<int64_t>({lo, hi, lo + 1, hi - 1});
            else v = centre + r.Range(-3, 3);
            return std::to_string(std::max(lo, std::min(hi, v)));
        };
        switch (kind) {
            case BOOL: return r.Chance(0.5) ? "true" : "false";
            case I8: return near(-128, 127);
            case I16: return near(-32768, 32767);
            case I32: return near(INT32_MIN, INT32_MAX);
            case I64: return near(INT64_MIN, INT64_MAX);
            case F32: { char t[40]; snprintf(t, sizeof t, "%.9g", r.Chance(0.05) ? r.Of<float>({3e38f, -3e38f, 1e-30f}) : (float)(centre + r.Range(-6, 6) / 4.0)); return Plain(t); }
            case F64: { char t[40]; snprintf(t, sizeof t, "%.17g", r.Chance(0.05) ? r.Of<double>({1e300, -1e300, 1e-300}) : centre + r.Range(-6, 6) / 4.0); return Plain(t); }
            case STR:
            case BIN: {
                if (r.Chance(0.05)) return "";
                std::string t(1, (char)('m' + std::max<int64_t>(-12, std::min<int64_t>(12, centre))));
                int n = r.Below(4);
                for (int i = 0; i < n; i++) t += r.Of<const char*>({"a", "b", "z", "\xc3\xa9", "0"});
                if (r.Chance(0.1)) t += std::string(r.Range(10, 30), 'q');
                if (kind == BIN && r.Chance(0.2)) t += '\0', t += (char)0xff;
                return t;
            }
            case DATE: return near(-100000, 100000);
            case DEC: {
                __int128 top = 1;
                for (int i = 0; i < p; i++) top *= 10;
                top -= 1;
                __int128 v = r.Chance(0.08) ? (r.Chance(0.5) ? top : -top) : (__int128)centre * (r.Chance(0.5) ? 1 : 7) + r.Range(-3, 3);
                return BigText(std::max(-top, std::min(top, v)));
            }
            default: {
                static const int64_t unit[] = {1, 1000, 1000000, 1000000000};
                return std::to_string(centre * unit[p] / 1000 + r.Range(-3, 3));
            }
        }
    }
    static std::string Plain(const char* t) { return strcmp(t, "-0") == 0 ? "0" : t; }
};
inline Col RandomCol(vf::Rng& r, const std::string& name, std::initializer_list<Kind> of = {}) {
    Col c;
    c.name = name;
    c.kind = of.size() ? *(of.begin() + r.Below(of.size())) : (Kind)r.Below(KINDS);
    if (c.kind == DEC) {
        c.p = r.Of<int>({3, 9, 18, 19, 27, 38});
        c.s = r.Range(0, std::min(c.p, 6));
    }
    if (c.kind == TS) c.p = r.Below(4);
    return c;
}

enum Truth { NO, UNKNOWN, YES };
struct Node {
    Function::Type op;
    int col = 0;
    std::vector<std::string> lits;
    std::vector<Node> kids;
};
inline Truth Eval(const Node& n, const std::vector<Col>& cols, const Row& row) {
    if (n.op == Function::Type::AND || n.op == Function::Type::OR) {
        Truth t = n.op == Function::Type::AND ? YES : NO;
        for (auto& k : n.kids) {
            Truth x = Eval(k, cols, row);
            t = n.op == Function::Type::AND ? std::min(t, x) : std::max(t, x);
        }
        return t;
    }
    const Cell& v = row[n.col];
    if (n.op == Function::Type::IS_NULL) return v ? NO : YES;
    if (n.op == Function::Type::IS_NOT_NULL) return v ? YES : NO;
    if (!v) return UNKNOWN;
    auto yes = [](bool b) { return b ? YES : NO; };
    bool any = false;
    for (auto& l : n.lits) any = any || cols[n.col].Compare(*v, l) == 0;
    int r = cols[n.col].Compare(*v, n.lits[0]);
    switch (n.op) {
        case Function::Type::EQUAL: return yes(r == 0);
        case Function::Type::NOT_EQUAL: return yes(r != 0);
        case Function::Type::GREATER_THAN: return yes(r > 0);
        case Function::Type::GREATER_OR_EQUAL: return yes(r >= 0);
        case Function::Type::LESS_THAN: return yes(r < 0);
        case Function::Type::LESS_OR_EQUAL: return yes(r <= 0);
        case Function::Type::IN: return yes(any);
        default: return yes(!any);
    }
}
inline Node RandomNode(vf::Rng& r, const std::vector<Col>& cols, const std::vector<int>& usable, const std::function<std::string(int)>& value, int depth) {
    Node n;
    if (depth > 0 && r.Chance(0.55)) {
        n.op = r.Chance(0.5) ? Function::Type::AND : Function::Type::OR;
        int k = r.Chance(0.1) ? 1 : r.Range(2, 4);
        for (int i = 0; i < k; i++) n.kids.push_back(RandomNode(r, cols, usable, value, depth - 1));
        return n;
    }
    n.col = r.Pick(usable);
    n.op = (Function::Type)r.Range(1, 10);
    int lits = n.op == Function::Type::IS_NULL || n.op == Function::Type::IS_NOT_NULL ? 0 : n.op == Function::Type::IN || n.op == Function::Type::NOT_IN ? (r.Chance(0.1) ? (int)r.Range(20, 30) : (int)r.Range(1, 4)) : 1;
    for (int i = 0; i < lits; i++) n.lits.push_back(value(n.col));
    return n;
}
// Field indices are positions in the given names.
inline std::shared_ptr<Predicate> Build(const Node& n, const std::vector<Col>& cols, const std::vector<std::string>& names) {
    if (n.op == Function::Type::AND || n.op == Function::Type::OR) {
        std::vector<std::shared_ptr<Predicate>> kids;
        for (auto& k : n.kids) kids.push_back(Build(k, cols, names));
        auto r = n.op == Function::Type::AND ? PredicateBuilder::And(kids) : PredicateBuilder::Or(kids);
        if (!r.ok()) return nullptr;
        return r.value();
    }
    const Col& c = cols[n.col];
    int i = std::find(names.begin(), names.end(), c.name) - names.begin();
    std::vector<Literal> l;
    for (auto& t : n.lits) l.push_back(c.Lit(t));
    switch (n.op) {
        case Function::Type::IS_NULL: return PredicateBuilder::IsNull(i, c.name, c.Field());
        case Function::Type::IS_NOT_NULL: return PredicateBuilder::IsNotNull(i, c.name, c.Field());
        case Function::Type::EQUAL: return PredicateBuilder::Equal(i, c.name, c.Field(), l[0]);
        case Function::Type::NOT_EQUAL: return PredicateBuilder::NotEqual(i, c.name, c.Field(), l[0]);
        case Function::Type::GREATER_THAN: return PredicateBuilder::GreaterThan(i, c.name, c.Field(), l[0]);
        case Function::Type::GREATER_OR_EQUAL: return PredicateBuilder::GreaterOrEqual(i, c.name, c.Field(), l[0]);
        case Function::Type::LESS_THAN: return PredicateBuilder::LessThan(i, c.name, c.Field(), l[0]);
        case Function::Type::LESS_OR_EQUAL: return PredicateBuilder::LessOrEqual(i, c.name, c.Field(), l[0]);
        case Function::Type::IN: return PredicateBuilder::In(i, c.name, c.Field(), l);
        default: return PredicateBuilder::NotIn(i, c.name, c.Field(), l);
    }
}
inline void ColumnsOf(const Node& n, std::set<int>* out) {
    if (n.kids.empty()) out->insert(n.col);
    for (auto& k : n.kids) ColumnsOf(k, out);
}
inline std::string Show(const Node& n, const std::vector<Col>& cols) {
    static const char* names[] = {"", "is null", "is not null", "=", "!=", ">", ">=", "<", "<=", "in", "not in", "and", "or"};
    if (!n.kids.empty()) {
        std::string s = "(";
        for (size_t i = 0; i < n.kids.size(); i++) s += (i ? std::string(" ") + names[(int)n.op] + " " : "") + Show(n.kids[i], cols);
        return s + ")";
    }
    std::string s = cols[n.col].name + " " + names[(int)n.op];
    for (auto& l : n.lits) s += " " + l;
    return s;
}
}  // namespace pred
