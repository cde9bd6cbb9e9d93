// Paths and text against plain definitions.
#include "vf.h"

#include <cmath>
#include <set>

#include "paimon/common/utils/path_util.h"
#include "paimon/common/utils/string_utils.h"
#include "paimon/common/utils/uuid.h"

using namespace paimon;
using vf::Case;
using vf::Fmt;

namespace {
std::string Segs(Case& c, int max) {
    std::string s;
    int n = (int)c.rng.Range(0, max);
    for (int i = 0; i < n; i++) {
        s += std::string(c.rng.Chance(0.2) ? c.rng.Range(1, 3) : 1, '/');
        s += c.rng.Ascii(c.rng.Range(1, 4), c.rng.Chance(0.3) ? "ab.=%-: " : "abc");
    }
    return s;
}
std::string Collapse(const std::string& p) {
    std::string r;
    for (char ch : p) if (!(ch == '/' && !r.empty() && r.back() == '/')) r += ch;
    if (r.size() > 1 && r.back() == '/') r.pop_back();
    return r;
}
std::string NaiveReplace(const std::string& t, const std::string& s, const std::string& r, int max) {
    if (s.empty()) return t;
    std::string out;
    size_t i = 0;
    while (i < t.size()) {
        if (max != 0 && t.compare(i, s.size(), s) == 0) { out += r; i += s.size(); if (max > 0) max--; }
        else out += t[i++];
    }
    return out;
}
template <typename T>
void Number(Case& c, const std::string& text) {
    // the plain definition: optional '-', digits only, value within T
    std::optional<T> want;
    size_t i = 0;
    bool neg = false;
    if (i < text.size() && text[i] == '-') { neg = true; i++; }
    if (!(neg && std::is_unsigned<T>::value) && i < text.size()) {
        bool ok = true;
        __int128 v = 0;
        for (; i < text.size(); i++) {
            if (text[i] < '0' || text[i] > '9') { ok = false; break; }
            v = v * 10 + (text[i] - '0');
            if (v > ((__int128)1 << 100)) v = (__int128)1 << 100;
        }
        if (neg) v = -v;
        if (ok && v >= (__int128)std::numeric_limits<T>::min() && v <= (__int128)std::numeric_limits<T>::max()) want = (T)v;
    }
    auto got = StringUtils::StringToValue<T>(text);
    VF_EXPECT(got == want, "number", "'%s' as %zu-byte integer: %s", text.c_str(), sizeof(T), got ? "accepted or another value" : "refused");
}
int64_t DaysFromCivil(int64_t y, unsigned m, unsigned d) {
    y -= m <= 2;
    int64_t era = (y >= 0 ? y : y - 399) / 400;
    unsigned yoe = (unsigned)(y - era * 400), doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1;
    unsigned doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    return era * 146097 + (int64_t)doe - 719468;
}
}  // namespace

VF_SCENARIO(paths, 360000, 2000000) {
    std::string scheme, authority;
    if (c.rng.Chance(0.5)) scheme = c.rng.Of<std::string>({"file", "hdfs", "s3", "OSS", "a+b.c-1"});
    if (!scheme.empty() && c.rng.Chance(0.5)) authority = c.rng.Of<std::string>({"h", "host:80", "Bucket.x", "u@h"});
    std::string inner = Segs(c, 5);
    if (authority.empty() && inner.size() > 1 && inner[0] == '/' && inner[1] == '/') inner = Collapse(inner);
    if (c.rng.Chance(0.2)) inner += std::string(c.rng.Range(1, 3), '/');
    if (authority.empty() && inner.size() > 1 && inner[0] == '/' && inner[1] == '/') inner = "/";
    bool absolute = !inner.empty();
    if (authority.empty() && scheme.empty() && absolute && c.rng.Chance(0.3)) {  // relative
        while (!inner.empty() && inner[0] == '/') inner.erase(0, 1);
        for (char& ch : inner) if (ch == ':') ch = '_';
    }
    std::string full = (scheme.empty() ? "" : scheme + ":") + (authority.empty() ? "" : "//" + authority) + inner;
    c.Op("path '" + full + "'", full.size() > 1);
    if (full.empty()) {
        VF_EXPECT(!PathUtil::ToPath(full).ok() && !PathUtil::NormalizePath(full).ok(), "empty-path", "an empty path is accepted");
        return;
    }
    auto p = PathUtil::ToPath(full);
    VF_EXPECT(p.ok(), "refused", "'%s' is refused", full.c_str());
    VF_EXPECT(p.value().scheme == scheme, "scheme", "'%s' has scheme '%s'", full.c_str(), p.value().scheme.c_str());
    VF_EXPECT(p.value().authority == authority, "authority", "'%s' has authority '%s'", full.c_str(), p.value().authority.c_str());
    VF_EXPECT(p.value().path == Collapse(inner), "inner-path", "'%s' has path '%s', expected '%s'", full.c_str(), p.value().path.c_str(), Collapse(inner).c_str());
    auto n = PathUtil::NormalizePath(full);
    std::string want = (scheme.empty() ? "" : scheme + ":") + (authority.empty() ? "" : "//" + authority) + Collapse(inner);
    VF_EXPECT(n.ok() && n.value() == want, "normalise", "'%s' becomes '%s', expected '%s'", full.c_str(), n.ok() ? n.value().c_str() : "error", want.c_str());
    if (!n.value().empty()) {
        auto again = PathUtil::NormalizePath(n.value());
        VF_EXPECT(again.ok() && again.value() == n.value(), "normalise-twice", "'%s' then '%s'", n.value().c_str(), again.ok() ? again.value().c_str() : "error");
    }
    if (!scheme.empty()) {
        auto tripled = PathUtil::NormalizePath(scheme + "://" + authority + "/x");
        VF_EXPECT(tripled.ok() && tripled.value() == scheme + ":" + (authority.empty() ? "" : "//" + authority) + "/x", "empty-authority", "%s", tripled.ok() ? tripled.value().c_str() : "error");
    }
    // name and parent
    std::string norm = n.value();
    size_t slash = norm.rfind('/');
    if (slash != std::string::npos && slash + 1 < norm.size() && slash > 0 && Collapse(inner).find('/', 1) != std::string::npos) {
        std::string parent = PathUtil::GetParentDirPath(norm), name = PathUtil::GetName(norm);
        VF_EXPECT(name == norm.substr(slash + 1), "name", "name of '%s' is '%s'", norm.c_str(), name.c_str());
        VF_EXPECT(parent == norm.substr(0, slash), "parent", "parent of '%s' is '%s'", norm.c_str(), parent.c_str());
        VF_EXPECT(PathUtil::JoinPath(parent, name) == norm, "parent-name", "'%s' + '%s' is '%s'", parent.c_str(), name.c_str(), PathUtil::JoinPath(parent, name).c_str());
        // trailing and repeated slashes do not matter
        std::string loose = parent + std::string(c.rng.Range(1, 3), '/') + name + (c.rng.Chance(0.5) ? "/" : "");
        VF_EXPECT(PathUtil::GetParentDirPath(loose) == parent, "parent", "parent of '%s' is '%s'", loose.c_str(), PathUtil::GetParentDirPath(loose).c_str());
        VF_EXPECT(PathUtil::GetName(loose) == name, "name", "name of '%s' is '%s'", loose.c_str(), PathUtil::GetName(loose).c_str());
        if (c.rng.Chance(0.1)) {
            auto t1 = PathUtil::CreateTempPath(norm), t2 = PathUtil::CreateTempPath(norm);
            VF_EXPECT(t1.ok() && t2.ok(), "temp", "no temporary path");
            VF_EXPECT(t1.value() != t2.value() && t1.value() != norm, "temp-unique", "temporary path repeats: %s", t1.value().c_str());
            VF_EXPECT(PathUtil::GetParentDirPath(t1.value()) == parent, "temp-parent", "'%s' is not in '%s'", t1.value().c_str(), parent.c_str());
            std::string tn = PathUtil::GetName(t1.value());
            VF_EXPECT(tn[0] == '.' && tn.find(name) != std::string::npos, "temp-name", "'%s' for '%s'", tn.c_str(), name.c_str());
        }
    }
    // joining
    std::string child = c.rng.Ascii(c.rng.Below(4), "xy.") + (c.rng.Chance(0.3) ? "/z" : "");
    std::string joined = PathUtil::JoinPath(norm, child);
    std::string jwant = norm.empty() ? child : child.empty() ? norm : (norm.back() == '/') + (child[0] == '/') == 0 ? norm + "/" + child : (norm.back() == '/') + (child[0] == '/') == 2 ? norm + child.substr(1) : norm + child;
    VF_EXPECT(joined == jwant, "join", "'%s' + '%s' is '%s'", norm.c_str(), child.c_str(), joined.c_str());
    std::string t = full;
    PathUtil::TrimLastDelim(&t);
    std::string twant = full.size() > 1 && full.back() == '/' ? full.substr(0, full.size() - 1) : full;
    VF_EXPECT(t == twant, "trim-delim", "'%s' becomes '%s'", full.c_str(), t.c_str());
    c.Saw(vf::HashStr(full));
}

VF_SCENARIO(text, 360000, 2000000) {
    std::string alphabet = c.rng.Of<std::string>({"ab", "a", "ab,", "abc ,;"});
    std::string t = c.rng.Ascii(c.rng.Below(24), alphabet), s = c.rng.Ascii(c.rng.Range(0, 3), alphabet), r = c.rng.Ascii(c.rng.Below(4), alphabet);
    c.Op("text '" + t + "' '" + s + "' '" + r + "'", !t.empty());
    VF_EXPECT(StringUtils::StartsWith(t, s) == (t.substr(0, s.size()) == s), "starts", "'%s' starts with '%s'", t.c_str(), s.c_str());
    if (!t.empty()) {
        size_t at = c.rng.Below(t.size() + 1);
        VF_EXPECT(StringUtils::StartsWith(t, s, at) == (t.substr(at, s.size()) == s), "starts-at", "'%s' has '%s' at %zu", t.c_str(), s.c_str(), at);
    }
    VF_EXPECT(StringUtils::EndsWith(t, s) == (t.size() >= s.size() && t.substr(t.size() - s.size()) == s), "ends", "'%s' ends with '%s'", t.c_str(), s.c_str());
    VF_EXPECT(StringUtils::Replace(t, s, r) == NaiveReplace(t, s, r, -1), "replace", "'%s': '%s' by '%s' gives '%s'", t.c_str(), s.c_str(), r.c_str(), StringUtils::Replace(t, s, r).c_str());
    int max = (int)c.rng.Range(0, 4);
    VF_EXPECT(StringUtils::Replace(t, s, r, max) == NaiveReplace(t, s, r, max), "replace-max", "'%s': '%s' by '%s' at most %d gives '%s'", t.c_str(), s.c_str(), r.c_str(), max, StringUtils::Replace(t, s, r, max).c_str());
    if (!s.empty()) {
        size_t at = t.rfind(s);
        std::string want = at == std::string::npos ? t : t.substr(0, at) + r + t.substr(at + s.size());
        VF_EXPECT(StringUtils::ReplaceLast(t, s, r) == want, "replace-last", "'%s': last '%s' by '%s' gives '%s'", t.c_str(), s.c_str(), r.c_str(), StringUtils::ReplaceLast(t, s, r).c_str());
        std::vector<std::string> all{""}, some;
        for (size_t i = 0; i < t.size();) {
            if (t.compare(i, s.size(), s) == 0) { all.push_back(""); i += s.size(); }
            else all.back() += t[i++];
        }
        for (auto& x : all) if (!x.empty()) some.push_back(x);
        VF_EXPECT(StringUtils::Split(t, s, false) == all, "split", "'%s' at '%s'", t.c_str(), s.c_str());
        VF_EXPECT(StringUtils::Split(t, s) == some, "split-nonempty", "'%s' at '%s'", t.c_str(), s.c_str());
        std::string s2 = c.rng.Ascii(1, alphabet);
        auto nested = StringUtils::Split(t, s, s2);
        VF_EXPECT(nested.size() == some.size(), "split-nested", "'%s' at '%s' '%s'", t.c_str(), s.c_str(), s2.c_str());
        for (size_t i = 0; i < some.size(); i++) VF_EXPECT(nested[i] == StringUtils::Split(some[i], s2), "split-nested", "'%s' at '%s' '%s'", t.c_str(), s.c_str(), s2.c_str());
    } else {
        VF_EXPECT(StringUtils::Split(t, s, false) == std::vector<std::string>{t}, "split-nothing", "splitting at nothing changes '%s'", t.c_str());
    }
    std::string w = c.rng.Ascii(c.rng.Below(8), " \ta b"), trimmed = w;
    while (!trimmed.empty() && trimmed.back() == ' ') trimmed.pop_back();
    while (!trimmed.empty() && trimmed[0] == ' ') trimmed.erase(0, 1);
    std::string got = w;
    StringUtils::Trim(&got);
    VF_EXPECT(got == trimmed, "trim", "'%s' becomes '%s'", w.c_str(), got.c_str());
    VF_EXPECT(StringUtils::IsNullOrWhitespaceOnly(w) == (w.find_first_not_of(" \t\n\r\v\f") == std::string::npos), "blank", "'%s'", w.c_str());
    std::string b = c.rng.Bytes(c.rng.Below(12)), lo = b, up = b;
    for (char& ch : lo) if (ch >= 'A' && ch <= 'Z') ch += 32;
    for (char& ch : up) if (ch >= 'a' && ch <= 'z') ch -= 32;
    VF_EXPECT(StringUtils::ToLowerCase(b) == lo && StringUtils::ToUpperCase(b) == up, "case", "%s", vf::Hex(b, 24).c_str());
    c.Saw(vf::HashStr(t + "|" + s + "|" + r));
}

VF_SCENARIO(numbers, 360000, 2000000) {
    std::string text;
    switch (c.rng.Below(5)) {
        case 0: {
            int bits = (int)c.rng.Of<int>({7, 8, 15, 16, 31, 32, 63, 64});
            __int128 v = ((__int128)1 << bits) + c.rng.Range(-2, 2);
            if (c.rng.Chance(0.5)) v = -v;
            bool neg = v < 0;
            if (neg) v = -v;
            do { text.insert(text.begin(), (char)('0' + (int)(v % 10))); v /= 10; } while (v);
            if (c.rng.Chance(0.1)) text = "000" + text;
            if (neg) text = "-" + text;
            break;
        }
        case 1: text = std::to_string((int64_t)c.rng.Edgy64()); break;
        case 2: text = c.rng.Ascii(c.rng.Below(5), "0123456789+-. ex"); break;
        case 3: text = std::to_string(c.rng.Range(-300, 300)) + (c.rng.Chance(0.3) ? c.rng.Of<std::string>({" ", "a", ".0", "L", "-", std::string(1, '\0')}) : ""); break;
        default: text = std::string(c.rng.Chance(0.5) ? "-" : "") + c.rng.Ascii(c.rng.Range(1, 25), "0123456789");
    }
    c.Op("number '" + text + "'", true);
    Number<int8_t>(c, text); Number<int16_t>(c, text); Number<int32_t>(c, text); Number<int64_t>(c, text);
    Number<uint8_t>(c, text); Number<uint16_t>(c, text); Number<uint32_t>(c, text); Number<uint64_t>(c, text);
    c.Saw(vf::HashStr(text));
    if (c.rng.Chance(0.2)) {
        double d = c.rng.Chance(0.5) ? (double)c.rng.Range(-1000000, 1000000) / 64 : (double)(int64_t)c.rng.Edgy64();
        std::string ds = Fmt("%.17g", d);
        auto v = StringUtils::StringToValue<double>(ds);
        VF_EXPECT(v && *v == d, "double", "'%s' is not read back", ds.c_str());
        VF_EXPECT(!StringUtils::StringToValue<double>(ds + "x") && !StringUtils::StringToValue<double>("") && !StringUtils::StringToValue<float>("q" + ds), "double-malformed", "'%s' with garbage is accepted", ds.c_str());
        float f = (float)c.rng.Range(-100000, 100000) / 32;
        auto fv = StringUtils::StringToValue<float>(Fmt("%.9g", f));
        VF_EXPECT(fv && *fv == f, "float", "%.9g is not read back", f);
    }
    if (c.rng.Chance(0.2)) {
        std::string w = c.rng.Of<std::string>({"t", "true", "y", "yes", "1", "f", "false", "n", "no", "0", "TRUE", "False", "Yes", "nO", "", "2", "tru", "truee", " true", "on", "10"});
        std::string l = w;
        for (char& ch : l) ch = (char)tolower(ch);
        static const std::set<std::string> T{"t", "true", "y", "yes", "1"}, F{"f", "false", "n", "no", "0"};
        auto v = StringUtils::StringToValue<bool>(w);
        VF_EXPECT(v.has_value() == (T.count(l) || F.count(l)) && (!v || *v == (T.count(l) > 0)), "bool", "'%s'", w.c_str());
    }
    if (c.rng.Chance(0.3)) {
        int y = (int)c.rng.Range(c.rng.Chance(0.2) ? 1 : 1900, c.rng.Chance(0.2) ? 9999 : 2100);
        static const int dm[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
        int m = (int)c.rng.Range(1, 12);
        int last = dm[m - 1] + (m == 2 && (y % 4 == 0 && (y % 100 != 0 || y % 400 == 0)));
        int d = c.rng.Chance(0.3) ? last : (int)c.rng.Range(1, last);
        std::string ds = Fmt("%04d-%02d-%02d", y, m, d);
        auto v = StringUtils::StringToDate(ds);
        VF_EXPECT(v.ok() && v.value() == DaysFromCivil(y, m, d), "date", "%s is day %d, expected %lld", ds.c_str(), v.ok() ? v.value() : -999999, (long long)DaysFromCivil(y, m, d));
        int32_t days = (int32_t)c.rng.Range(-100000, 100000);
        auto n = StringUtils::StringToDate(std::to_string(days));
        VF_EXPECT(n.ok() && n.value() == days, "date-number", "%d is not read back", days);
        VF_EXPECT(!StringUtils::StringToDate("x" + ds).ok() && !StringUtils::StringToDate("").ok() && !StringUtils::StringToDate(Fmt("%04d-13-01", y)).ok(), "date-malformed", "a malformed date is accepted");
    }
}

VF_SCENARIO(uuids, 1200, 6000) {
    std::set<std::string> seen;
    for (int i = 0; i < 20; i++) {
        std::string u = "old";
        VF_EXPECT(UUID::Generate(&u), "uuid-failed", "no uuid");
        VF_EXPECT(u.size() == 36 && u.find_first_not_of("0123456789abcdef-") == std::string::npos, "uuid-form", "'%s'", u.c_str());
        VF_EXPECT(seen.insert(u).second, "uuid-repeat", "'%s' repeats", u.c_str());
        c.Saw(vf::HashStr(u));
    }
    c.Op("uuids", true);
}
