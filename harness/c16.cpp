// Partition directory names: reversible, one level per key, nothing unsafe in them.
#include "vf.h"

#include "paimon/core/utils/partition_path_utils.h"

using namespace paimon;
using vf::Case;
using vf::Fmt;

namespace {
const std::string kSpecial = std::string("\"#%'*/:=?\\{}[]^\x7f");
bool Reserved(unsigned char ch) { return ch < 32 || kSpecial.find((char)ch) != std::string::npos; }
std::string Word(Case& c) {
    switch (c.rng.Below(8)) {
        case 0: return c.rng.Of<std::string>({".", "..", "...", "/", "//", "../..", "a/../b", "%2F", "%", "%%", "%zz", "=", "a=b", " ", "~", "-", "\\..\\", "/etc/passwd", "%00"});
        case 1: return c.rng.Bytes(c.rng.Range(1, 12));
        case 2: return std::string(1, (char)c.rng.Below(256));
        case 3: return c.rng.Ascii(c.rng.Range(1, 8), kSpecial + "ab%0123");
        case 4: return "\xe4\xb8\xad\xe6\x96\x87" + c.rng.Ascii(c.rng.Below(3));
        case 5: return std::string("a\0b", 3);
        default: return c.rng.Ascii(c.rng.Range(1, 10), "abcXYZ019_-. ");
    }
}
bool Unescape(const std::string& s, std::string* out) {
    auto hex = [](char ch) { return ch >= '0' && ch <= '9' ? ch - '0' : ch >= 'A' && ch <= 'F' ? ch - 'A' + 10 : -1; };
    for (size_t i = 0; i < s.size(); i++) {
        if (s[i] != '%') {
            *out += s[i];
            continue;
        }
        if (i + 2 >= s.size() || hex(s[i + 1]) < 0 || hex(s[i + 2]) < 0) return false;
        *out += (char)(hex(s[i + 1]) * 16 + hex(s[i + 2]));
        i += 2;
    }
    return true;
}
using Spec = std::vector<std::pair<std::string, std::string>>;
std::string Text(const Spec& s) {
    std::string r;
    for (auto& kv : s) r += vf::Hex(kv.first) + "=" + vf::Hex(kv.second) + " ";
    return r;
}
}  // namespace

VF_SCENARIO(paths, 120000, 2000000) {
    Spec spec;
    size_t n = c.rng.Range(0, 4);
    bool blank = false;
    for (size_t i = 0; i < n; i++) {
        spec.push_back({Word(c), Word(c)});
        if (c.rng.Chance(0.02)) {
            (c.rng.Chance(0.5) ? spec.back().first : spec.back().second).clear();
            blank = true;
        }
    }
    c.Op(Text(spec), n > 0);
    auto p = PartitionPathUtils::GeneratePartitionPath(spec);
    auto h = PartitionPathUtils::GenerateHierarchicalPartitionPaths(spec);
    if (blank) {
        VF_EXPECT(!p.ok() && !h.ok(), "empty-accepted", "an empty key or value was accepted");
        return;
    }
    VF_EXPECT(p.ok() && h.ok(), "refused", "%s", p.status().ToString().c_str());
    const std::string& path = p.value();
    if (n == 0) {
        VF_EXPECT(path.empty() && h.value().empty(), "no-partition", "%s", path.c_str());
        return;
    }
    // levels
    std::vector<std::string> levels(1);
    for (char ch : path) {
        if (ch == '/') levels.emplace_back();
        else levels.back() += ch;
    }
    VF_EXPECT(levels.back().empty() && levels.size() == n + 1, "levels", "%zu levels for %zu keys: %s", levels.size() - 1, n, vf::Hex(path).c_str());
    for (size_t i = 0; i < n; i++) {
        auto& l = levels[i];
        VF_EXPECT(l != "." && l != ".." && !l.empty(), "escapes-table", "level %s", l.c_str());
        size_t eq = l.find('=');
        VF_EXPECT(eq != std::string::npos && l.find('=', eq + 1) == std::string::npos, "separator", "level %s", vf::Hex(l).c_str());
        for (size_t k = 0; k < l.size(); k++) {
            if (k == eq || l[k] == '%') continue;
            VF_EXPECT(!Reserved(l[k]), "reserved-character", "byte %02x in %s", (unsigned char)l[k], vf::Hex(l).c_str());
        }
        std::string key, val;
        VF_EXPECT(Unescape(l.substr(0, eq), &key) && Unescape(l.substr(eq + 1), &val), "unescape", "level %s", vf::Hex(l).c_str());
        VF_EXPECT(key == spec[i].first && val == spec[i].second, "round-trip", "level %zu: %s", i, vf::Hex(l).c_str());
    }
    // hierarchy: every prefix, in order
    VF_EXPECT(h.value().size() == n, "hierarchy", "%zu paths for %zu keys", h.value().size(), n);
    std::string acc;
    for (size_t i = 0; i < n; i++) {
        acc += levels[i] + "/";
        VF_EXPECT(h.value()[i] == acc, "hierarchy", "path %zu is %s", i, vf::Hex(h.value()[i]).c_str());
    }
    // a neighbouring partition gets another path
    Spec other = spec;
    auto& cell = c.rng.Chance(0.7) ? other[c.rng.Below(n)].second : other[c.rng.Below(n)].first;
    int how = c.rng.Below(3);
    if (how == 0) cell[c.rng.Below(cell.size())] ^= (char)(1 << c.rng.Below(8));
    else if (how == 1) cell += (char)c.rng.Below(256);
    else {
        auto e = PartitionPathUtils::EscapePathName(cell);
        VF_EXPECT(e.ok(), "refused", "escape");
        cell = e.value();       // already-escaped text must be escaped again
    }
    auto q = PartitionPathUtils::GeneratePartitionPath(other);
    VF_EXPECT(q.ok() && (q.value() == path) == (other == spec), "distinct", "%s and %s", Text(spec).c_str(), Text(other).c_str());
}

VF_SCENARIO(every_byte, 256, 256) {
    std::string s(1, (char)c.index());
    c.Op(vf::Hex(s), true);
    auto e = PartitionPathUtils::EscapePathName("x" + s + "y");
    VF_EXPECT(e.ok(), "refused", "byte %s", vf::Hex(s).c_str());
    std::string want = Reserved(s[0]) ? "x" + Fmt("%%%02X", (unsigned char)s[0]) + "y" : "x" + s + "y";
    VF_EXPECT(e.value() == want, "escape-form", "byte %s gives %s", vf::Hex(s).c_str(), vf::Hex(e.value()).c_str());
    VF_EXPECT(!PartitionPathUtils::EscapePathName("").ok(), "empty-accepted", "empty name");
}
