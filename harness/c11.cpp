// Delta-varint compression against an independent encoder and decoder.
#include "vf.h"

#include "paimon/common/utils/delta_varint_compressor.h"

using namespace paimon;
using vf::Case;
using vf::Fmt;

namespace {
std::string Encode(const std::vector<int64_t>& v) {
    std::string out;
    uint64_t prev = 0;
    for (auto x : v) {
        uint64_t d = (uint64_t)x - prev;
        prev = (uint64_t)x;
        uint64_t z = (d << 1) ^ (uint64_t)((int64_t)d < 0 ? -1 : 0);
        do {
            unsigned char b = z & 127;
            z >>= 7;
            if (z) b |= 128;
            out += (char)b;
        } while (z);
    }
    return out;
}
// 0 = must be refused, 1 = must decode to `out`, 2 = the tenth byte carries bits that do not fit
int Decode(const std::string& s, std::vector<int64_t>* out) {
    size_t i = 0;
    uint64_t prev = 0;
    int verdict = 1;
    while (i < s.size()) {
        uint64_t z = 0;
        int k = 0;
        while (true) {
            if (k == 10) return 0;
            if (i == s.size()) return 0;
            unsigned char b = s[i++];
            if (k == 9 && (b & 126)) verdict = 2;
            z |= k == 9 ? (uint64_t)(b & 1) << 63 : (uint64_t)(b & 127) << (7 * k);
            k++;
            if (!(b & 128)) break;
        }
        uint64_t d = (z >> 1) ^ (0 - (z & 1));
        prev += d;
        out->push_back((int64_t)prev);
    }
    return verdict;
}
std::vector<char> Vec(const std::string& s) {
    std::vector<char> v(s.begin(), s.end());
    v.shrink_to_fit();
    return v;
}
std::vector<int64_t> Seq(Case& c) {
    std::vector<int64_t> v;
    size_t n = c.rng.Chance(0.05) ? c.rng.Range(200, 3000) : c.rng.Range(0, 40);
    int style = c.rng.Below(5);
    int64_t x = c.rng.Edgy64();
    for (size_t i = 0; i < n; i++) {
        switch (style) {
            case 0: v.push_back(c.rng.Edgy64()); break;
            case 1: v.push_back(x); x = (int64_t)((uint64_t)x + c.rng.Range(-64, 63)); break;
            case 2: v.push_back(x); x = (int64_t)((uint64_t)x + c.rng.Range(0, 1000)); break;
            case 3: v.push_back((int64_t)c.rng.U64()); break;
            default: v.push_back(c.rng.Of<int64_t>({INT64_MIN, INT64_MAX, 0, -1, 1})); break;
        }
    }
    return v;
}
}  // namespace

VF_SCENARIO(round_trip, 120000, 2000000) {
    auto v = Seq(c);
    c.Op(Fmt("n=%zu", v.size()), !v.empty());
    for (size_t i = 0; i < v.size() && i < 60; i++) c.Op(Fmt("%lld", (long long)v[i]));
    auto bytes = DeltaVarintCompressor::Compress(v);
    std::string want = Encode(v), got(bytes.begin(), bytes.end());
    VF_EXPECT(got == want, "encoding", "%s, expected %s", vf::Hex(got).c_str(), vf::Hex(want).c_str());
    auto back = DeltaVarintCompressor::Decompress(Vec(got));
    VF_EXPECT(back.ok() && back.value() == v, "round-trip", "%s", back.ok() ? "different values" : back.status().ToString().c_str());
    bool small = v.size() > 1;
    for (size_t i = 1; i < v.size(); i++) {
        int64_t d = (int64_t)((uint64_t)v[i] - (uint64_t)v[i - 1]);
        small = small && d >= -64 && d <= 63;
    }
    if (small) VF_EXPECT(got.size() <= v.size() - 1 + 10, "size", "%zu bytes for %zu small differences", got.size(), v.size());
    if (!got.empty()) {
        // a cut inside an element is refused, a cut between elements gives a prefix
        size_t cut = c.rng.Below(got.size());
        std::vector<int64_t> pre;
        int verdict = Decode(got.substr(0, cut), &pre);
        auto r = DeltaVarintCompressor::Decompress(Vec(got.substr(0, cut)));
        if (verdict == 0) VF_EXPECT(!r.ok(), "truncated-accepted", "%zu of %zu bytes", cut, got.size());
        else VF_EXPECT(r.ok() && r.value() == pre, "prefix", "%zu of %zu bytes", cut, got.size());
    }
}

VF_SCENARIO(hostile, 120000, 2000000) {
    std::string s;
    int style = c.rng.Below(4);
    if (style == 0) s = c.rng.Bytes(c.rng.Range(0, 40));
    else if (style == 1) {
        s = Encode(Seq(c));
        for (int i = c.rng.Range(1, 4); i > 0 && !s.empty(); i--) s[c.rng.Below(s.size())] ^= (char)(1 << c.rng.Below(8));
    } else if (style == 2) {
        size_t k = c.rng.Range(1, 14);
        for (size_t i = 0; i < k; i++) s += (char)(128 | c.rng.Below(128));
        if (c.rng.Chance(0.7)) s += (char)c.rng.Below(128);
        if (c.rng.Chance(0.3)) s = Encode(Seq(c)) + s;
    } else {
        size_t k = c.rng.Range(0, 30);
        for (size_t i = 0; i < k; i++) s += c.rng.Of<char>({'\x80', '\xff', 0, 1, '\x7f'});
    }
    c.Op(vf::Hex(s, 400), !s.empty());
    std::vector<int64_t> want;
    int verdict = Decode(s, &want);
    auto r = DeltaVarintCompressor::Decompress(Vec(s));
    if (verdict == 0) VF_EXPECT(!r.ok(), "damaged-accepted", "%s", vf::Hex(s).c_str());
    else if (verdict == 1) VF_EXPECT(r.ok() && r.value() == want, "decode", "%s", vf::Hex(s).c_str());
    else if (r.ok()) VF_EXPECT(r.value().size() == want.size(), "decode", "%s", vf::Hex(s).c_str());
}
