// Timestamps and decimals against 128-bit integer arithmetic.
#include "vf.h"

#include <cstring>

#include "paimon/common/utils/date_time_utils.h"
#include "paimon/common/utils/decimal_utils.h"
#include "paimon/data/decimal.h"
#include "paimon/data/timestamp.h"
#include "paimon/memory/bytes.h"
#include "paimon/memory/memory_pool.h"

using namespace paimon;
using vf::Case;
using vf::Fmt;

namespace {
using W = __int128;
using UW = unsigned __int128;
std::string Show(W v) {
    bool neg = v < 0;
    UW u = neg ? (UW)0 - (UW)v : (UW)v;
    std::string s;
    do { s.insert(s.begin(), (char)('0' + (int)(u % 10))); u /= 10; } while (u);
    return (neg ? "-" : "") + s;
}
W FloorDiv(W a, W b) { W q = a / b; return q - ((a % b != 0 && (a % b < 0) != (b < 0)) ? 1 : 0); }
const int64_t kMinMs = -62167219200000LL, kMaxMs = 253402300799999LL;
int64_t AnyMs(Case& c) {
    switch (c.rng.Below(5)) {
        case 0: return c.rng.Range(-2500, 2500);
        case 1: return c.rng.Of<int64_t>({0, -1, 1, -1000, 1000, -86400000, 86400000, -999, 999, -1001, kMinMs, kMaxMs, kMinMs + 1});
        case 2: return c.rng.Range(-100000, 100000) * 86400000LL + c.rng.Range(-1, 1);
        default: return c.rng.Range(kMinMs, kMaxMs);
    }
}
int32_t AnyNano(Case& c) { return c.rng.Chance(0.4) ? c.rng.Of<int32_t>({0, 1, 999, 1000, 1001, 999999, 500000}) : (int32_t)c.rng.Below(1000000); }
// proleptic Gregorian date of a day number
void Civil(int64_t z, int64_t* y, int* m, int* d) {
    z += 719468;
    int64_t era = (z >= 0 ? z : z - 146096) / 146097;
    int64_t doe = z - era * 146097, yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    int64_t doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153;
    *d = (int)(doy - (153 * mp + 2) / 5 + 1);
    *m = (int)(mp < 10 ? mp + 3 : mp - 9);
    *y = yoe + era * 400 + (*m <= 2);
}
std::string Text(int64_t ms, int32_t nano) {
    int64_t sec = (int64_t)FloorDiv(ms, 1000), y;
    int64_t day = (int64_t)FloorDiv(sec, 86400), sod = sec - day * 86400;
    int m, d;
    Civil(day, &y, &m, &d);
    return Fmt("%04lld-%02d-%02d %02d:%02d:%02d.%09lld", (long long)y, m, d, (int)(sod / 3600), (int)(sod / 60 % 60), (int)(sod % 60), (long long)((ms - sec * 1000) * 1000000 + nano));
}
const W kMax = (W)(((UW)1 << 127) - 1), kMin = -kMax - 1;
W Pow10(int n) { W r = 1; while (n-- > 0) r *= 10; return r; }
W AnyWide(Case& c, int precision) {
    W v;
    switch (c.rng.Below(6)) {
        case 0: v = c.rng.Range(-300, 300); break;
        case 1: v = (W)1 << c.rng.Below(126); if (c.rng.Chance(0.5)) v = -v; v += c.rng.Range(-1, 1); break;
        case 2: v = Pow10((int)c.rng.Below(39)); if (c.rng.Chance(0.5)) v = -v; v += c.rng.Range(-1, 1); break;
        case 3: v = c.rng.Edgy64(); break;
        default: v = (W)((UW)c.rng.U64() << 64 | c.rng.U64());
    }
    return v % Pow10(precision);
}
int Sign(int64_t v) { return v < 0 ? -1 : v > 0; }
// exact comparison of a*10^-sa and b*10^-sb by aligning digit strings
int Compare(W a, int sa, W b, int sb) {
    auto digits = [](W v, int pad) { std::string s = Show(v < 0 ? -v : v); if (v < 0 && v == kMin) s = Show(v).substr(1); return s == "0" ? s : s + std::string(pad, '0'); };
    int s = std::max(sa, sb);
    std::string x = digits(a, s - sa), y = digits(b, s - sb);
    int sx = a < 0 ? -1 : a > 0, sy = b < 0 ? -1 : b > 0;
    if (sx != sy) return sx < sy ? -1 : 1;
    if (sx == 0) return 0;
    int m = x.size() != y.size() ? (x.size() < y.size() ? -1 : 1) : Sign(x.compare(y));
    return sx > 0 ? m : -m;
}
std::string Minimal(W v) {
    std::string s;
    for (int i = 15; i >= 0; i--) s += (char)(uint8_t)((UW)v >> (8 * i));
    size_t k = 0;
    while (k < 15 && ((s[k] == 0 && !(s[k + 1] & 0x80)) || (s[k] == '\xff' && (s[k + 1] & 0x80)))) k++;
    return s.substr(k);
}
}  // namespace

VF_SCENARIO(instants, 120000, 3000000) {
    int64_t ms = AnyMs(c);
    int32_t nano = AnyNano(c);
    c.Op(Fmt("%lld ms %d ns", (long long)ms, nano), true);
    Timestamp t(ms, nano);
    W total = (W)ms * 1000000 + nano;
    VF_EXPECT(t.GetMillisecond() == ms && t.GetNanoOfMillisecond() == nano, "parts", "parts changed to %lld,%d", (long long)t.GetMillisecond(), t.GetNanoOfMillisecond());
    VF_EXPECT(t == t && !(t < t), "equal", "a timestamp differs from itself");
    VF_EXPECT(Timestamp().GetMillisecond() == 0 && Timestamp().GetNanoOfMillisecond() == 0, "default", "a timestamp made of nothing is not the epoch");
    Timestamp u = Timestamp::FromEpochMillis(ms, nano);
    VF_EXPECT(u == t && !(u < t) && !(t < u), "equal", "two timestamps of one instant differ");
    Timestamp f = Timestamp::FromEpochMillis(ms);
    VF_EXPECT(f.GetMillisecond() == ms && f.GetNanoOfMillisecond() == 0, "from-millis", "FromEpochMillis gives %lld,%d", (long long)f.GetMillisecond(), f.GetNanoOfMillisecond());
    Timestamp m = t.ToMillisTimestamp();
    VF_EXPECT(m.GetMillisecond() == ms && m.GetNanoOfMillisecond() == 0, "to-millis", "ToMillisTimestamp gives %lld,%d", (long long)m.GetMillisecond(), m.GetNanoOfMillisecond());
    VF_EXPECT(t.ToMicrosecond() == (int64_t)FloorDiv(total, 1000), "micros", "ToMicrosecond gives %lld, expected %s", (long long)t.ToMicrosecond(), Show(FloorDiv(total, 1000)).c_str());
    VF_EXPECT(DateTimeUtils::TimestampToInteger(t, DateTimeUtils::MILLISECOND) == ms, "integer-millis", "wrong millisecond integer");
    VF_EXPECT(DateTimeUtils::TimestampToInteger(t, DateTimeUtils::MICROSECOND) == t.ToMicrosecond(), "integer-micros", "wrong microsecond integer");
    int64_t sec = DateTimeUtils::TimestampToInteger(t, DateTimeUtils::SECOND);
    VF_EXPECT(sec == ms / 1000 || sec == (int64_t)FloorDiv(ms, 1000), "integer-seconds", "second integer is %lld for %lld ms", (long long)sec, (long long)ms);
    if (total >= (W)INT64_MIN && total <= (W)INT64_MAX) {
        VF_EXPECT(t.ToNanosecond() == (int64_t)total, "nanos", "ToNanosecond gives %lld, expected %s", (long long)t.ToNanosecond(), Show(total).c_str());
        VF_EXPECT(DateTimeUtils::TimestampToInteger(t, DateTimeUtils::NANOSECOND) == (int64_t)total, "integer-nanos", "wrong nanosecond integer");
        auto [a, b] = DateTimeUtils::TimestampConverter((int64_t)total, DateTimeUtils::NANOSECOND, DateTimeUtils::MILLISECOND, DateTimeUtils::NANOSECOND);
        VF_EXPECT(a == ms && b == nano, "nanos-back", "nanoseconds convert back to %lld,%lld", (long long)a, (long long)b);
    }
    std::string text = t.ToString(), want = Text(ms, nano);
    VF_EXPECT(text == want, "text", "text is '%s', expected '%s'", text.c_str(), want.c_str());
    c.Saw(vf::HashStr(text));
    int64_t ms2 = c.rng.Chance(0.4) ? ms : c.rng.Chance(0.5) ? ms + c.rng.Range(-1, 1) : AnyMs(c);
    int32_t nano2 = c.rng.Chance(0.3) ? nano : AnyNano(c);
    Timestamp o(ms2, nano2);
    W total2 = (W)ms2 * 1000000 + nano2;
    VF_EXPECT((t < o) == (total < total2), "order", "%s < %s is wrong", text.c_str(), Text(ms2, nano2).c_str());
    VF_EXPECT((t == o) == (total == total2), "equality", "%s == %s is wrong", text.c_str(), Text(ms2, nano2).c_str());
}

VF_SCENARIO(units, 120000, 2000000) {
    static const int64_t F[] = {1, 1000, 1000000, 1000000000};
    int src = (int)c.rng.Below(4), first = (int)c.rng.Below(4), second = (int)c.rng.Below(4);
    // keep the first value inside 64 bits
    int64_t lim = (int64_t)(INT64_MAX / 4 / (first > src ? F[first] / F[src] : 1));
    int64_t v;
    switch (c.rng.Below(4)) {
        case 0: v = c.rng.Range(-3000, 3000); break;
        case 1: v = c.rng.Range(-1000000, 1000000) * F[c.rng.Below(src + 1)] + c.rng.Range(-1, 1); break;
        default: v = c.rng.Range(-lim, lim);
    }
    if (v > lim || v < -lim) v %= lim;
    c.Op(Fmt("%lld %d->{%d,%d}", (long long)v, src, first, second), true);
    auto T = [](int i) { return (DateTimeUtils::TimeType)i; };
    auto [a, b] = DateTimeUtils::TimestampConverter(v, T(src), T(first), T(second));
    W wa, wb;
    if (src <= first) {
        wa = (W)v * (F[first] / F[src]);
        wb = 0;
    } else {
        int64_t k = F[src] / F[first];
        wa = FloorDiv(v, k);
        W rem = (W)v - wa * k;
        wb = FloorDiv(rem * F[second], F[src]);
    }
    VF_EXPECT((W)a == wa && (W)b == wb, "convert", "converted to {%lld,%lld}, expected {%s,%s}", (long long)a, (long long)b, Show(wa).c_str(), Show(wb).c_str());
    c.Saw(vf::Mix((uint64_t)v) ^ (src * 16 + first * 4 + second));
}

VF_SCENARIO(compact, 64, 64) {
    int p = (int)(c.index() % 64);
    c.Op(Fmt("precision %d", p), true);
    if (p <= 9) VF_EXPECT(Timestamp::IsCompact(p) == (p <= 3), "compact-timestamp", "precision %d compact is wrong", p);
    if (p >= 1 && p <= 38) {
        VF_EXPECT(Decimal::IsCompact(p) == (p <= 18), "compact-decimal", "precision %d compact is wrong", p);
        VF_EXPECT(Decimal(p, 0, 1).IsCompact() == (p <= 18), "compact-decimal", "precision %d compact is wrong", p);
    }
    c.Saw(p);
}

VF_SCENARIO(decimals, 120000, 3000000) {
    int precision = (int)c.rng.Range(1, 38), scale = (int)c.rng.Range(0, precision);
    W v = AnyWide(c, precision);
    c.Op(Fmt("decimal(%d,%d) %s", precision, scale, Show(v).c_str()), true);
    Decimal d(precision, scale, v);
    VF_EXPECT(d.Precision() == precision && d.Scale() == scale && d.Value() == v, "parts", "parts changed");
    VF_EXPECT(d.LowBits() == (uint64_t)(UW)v && d.HighBits() == (uint64_t)((UW)v >> 64), "bits", "halves are wrong");
    auto bytes = d.ToUnscaledBytes();
    std::string enc(bytes.begin(), bytes.end());
    VF_EXPECT(enc == Minimal(v), "bytes", "bytes are %s, expected %s", vf::Hex(enc).c_str(), vf::Hex(Minimal(v)).c_str());
    std::shared_ptr<MemoryPool> pool = GetMemoryPool();
    // a longer sign-extended form is the same number
    std::string stored = enc;
    if (c.rng.Chance(0.3)) stored.insert(0, (size_t)c.rng.Range(0, 16 - (int)enc.size()), v < 0 ? '\xff' : '\0');
    Bytes raw(stored, pool.get());
    for (int i = 0; i < 2; i++) {
        Decimal back = Decimal::FromUnscaledBytes(precision, scale, &raw);
        VF_EXPECT(back.Value() == v && back.Precision() == precision && back.Scale() == scale, "bytes-back", "decode %d of the bytes gives %s", i + 1, Show(back.Value()).c_str());
        VF_EXPECT(std::string(raw.data(), raw.size()) == stored, "bytes-touched", "decoding changed the bytes");
    }
    if (precision <= 18) {
        int64_t l = d.ToUnscaledLong();
        VF_EXPECT((W)l == v, "long", "long form is %lld", (long long)l);
        Decimal back = Decimal::FromUnscaledLong(l, precision, scale);
        VF_EXPECT(back.Value() == v && back.Precision() == precision && back.Scale() == scale, "long-back", "long form gives %s", Show(back.Value()).c_str());
    }
    int p2 = (int)c.rng.Range(1, 38), s2 = c.rng.Chance(0.4) ? std::min(scale, p2) : (int)c.rng.Range(0, p2);
    W v2;
    if (c.rng.Chance(0.5) && s2 >= scale && s2 - scale < 38 && (v < 0 ? -v : v) < Pow10(38 - (s2 - scale))) {
        v2 = v * Pow10(s2 - scale) + c.rng.Range(-1, 1);
    } else if (c.rng.Chance(0.5) && s2 < scale) {
        v2 = v / Pow10(scale - s2) + c.rng.Range(-1, 1);
    } else {
        v2 = AnyWide(c, p2);
    }
    Decimal o(p2, s2, v2);
    c.Op(Fmt("against decimal(%d,%d) %s", p2, s2, Show(v2).c_str()));
    int want = Compare(v, scale, v2, s2);
    VF_EXPECT(Sign(d.CompareTo(o)) == want, "compare", "comparison gives %d, expected sign %d", d.CompareTo(o), want);
    VF_EXPECT(Sign(o.CompareTo(d)) == -want, "compare", "reverse comparison gives %d, expected sign %d", o.CompareTo(d), -want);
    VF_EXPECT((d < o) == (want < 0) && (d > o) == (want > 0) && (d == o) == (want == 0), "operators", "operators disagree with sign %d", want);
    VF_EXPECT(d == d && !(d < d) && !(d > d) && d.CompareTo(d) == 0, "operators", "a decimal differs from itself");
    c.Saw(vf::HashStr(Show(v)) ^ vf::HashStr(Show(v2)));
}

VF_SCENARIO(rescale, 60000, 1000000) {
    int sp = (int)c.rng.Range(1, 38), ss = (int)c.rng.Range(0, sp), tp = (int)c.rng.Range(1, 38), ts = (int)c.rng.Range(0, tp);
    W v = AnyWide(c, sp);
    c.Op(Fmt("%s scale %d -> (%d,%d)", Show(v).c_str(), ss, tp, ts), true);
    arrow::Decimal128 in((int64_t)(v >> 64), (uint64_t)(UW)v);
    auto got = DecimalUtils::RescaleDecimalWithOverflowCheck(in, ss, tp, ts);
    bool fits = true;
    W want = v;
    if (ts > ss) {
        W k = Pow10(ts - ss);
        if (v > kMax / k || v < kMin / k) fits = false;
        else want = v * k;
    } else if (ts < ss) {
        W k = Pow10(ss - ts), q = v / k, r = v % k;
        if (r < 0) r = -r;
        if (r >= k - r) q += v < 0 ? -1 : 1;  // half away from zero
        want = q;
    }
    if (fits && (want >= Pow10(tp) || want <= -Pow10(tp))) fits = false;
    VF_EXPECT(got.has_value() == fits, "rescale-range", "rescaling to (%d,%d) %s", tp, ts, fits ? "was refused" : "was accepted");
    if (fits) {
        W g = (W)((UW)(uint64_t)got->high_bits() << 64 | (UW)got->low_bits());
        VF_EXPECT(g == want, "rescale", "rescaled to %s, expected %s", Show(g).c_str(), Show(want).c_str());
    }
    auto parsed = DecimalUtils::StrToInt128(Show(v));
    VF_EXPECT(parsed.ok() && parsed.value() == v, "parse", "text %s parses to something else", Show(v).c_str());
    c.Saw(vf::HashStr(Show(v)) ^ (sp * 38 + tp));
}
