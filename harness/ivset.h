// A set of integers as sorted, disjoint, non-adjacent half-open intervals: the reference model for
// bitmaps and row ranges.
#pragma once
#include <algorithm>
#include <cstdint>
#include <string>
#include <utility>
#include <vector>

namespace vf {
using i128 = __int128;
struct IvSet {
    std::vector<std::pair<i128, i128>> v;   // [lo, hi)

    static IvSet Norm(std::vector<std::pair<i128, i128>> a) {
        std::sort(a.begin(), a.end());
        IvSet r;
        for (auto& p : a) {
            if (p.first >= p.second) continue;
            if (!r.v.empty() && p.first <= r.v.back().second) {
                r.v.back().second = std::max(r.v.back().second, p.second);
            } else {
                r.v.push_back(p);
            }
        }
        return r;
    }
    static IvSet Of(i128 lo, i128 hi) {
        IvSet r;
        if (lo < hi) r.v.push_back({lo, hi});
        return r;
    }
    template <class C>
    static IvSet FromIds(const C& ids) {
        std::vector<std::pair<i128, i128>> a;
        for (auto x : ids) a.push_back({(i128)x, (i128)x + 1});
        return Norm(std::move(a));
    }
    IvSet Or(const IvSet& o) const {
        auto a = v;
        a.insert(a.end(), o.v.begin(), o.v.end());
        return Norm(std::move(a));
    }
    IvSet And(const IvSet& o) const {
        IvSet r;
        size_t i = 0, j = 0;
        while (i < v.size() && j < o.v.size()) {
            i128 lo = std::max(v[i].first, o.v[j].first), hi = std::min(v[i].second, o.v[j].second);
            if (lo < hi) r.v.push_back({lo, hi});
            if (v[i].second < o.v[j].second) i++;
            else j++;
        }
        return r;
    }
    IvSet Minus(const IvSet& o) const {
        IvSet r;
        size_t j = 0;
        for (auto p : v) {
            i128 lo = p.first;
            while (j < o.v.size() && o.v[j].second <= lo) j++;
            size_t k = j;
            while (k < o.v.size() && o.v[k].first < p.second) {
                if (o.v[k].first > lo) r.v.push_back({lo, o.v[k].first});
                lo = std::max(lo, o.v[k].second);
                k++;
            }
            if (lo < p.second) r.v.push_back({lo, p.second});
        }
        return r;
    }
    IvSet Shift(i128 d) const {
        IvSet r = *this;
        for (auto& p : r.v) {
            p.first += d;
            p.second += d;
        }
        return r;
    }
    bool Has(i128 x) const {
        auto it = std::upper_bound(v.begin(), v.end(), std::make_pair(x, ((i128)1) << 100));
        return it != v.begin() && x < (--it)->second;
    }
    i128 Count() const {
        i128 n = 0;
        for (auto& p : v) n += p.second - p.first;
        return n;
    }
    bool Next(i128 key, i128* out) const {   // smallest element >= key
        for (auto& p : v) {
            if (p.second > key) {
                *out = std::max(p.first, key);
                return true;
            }
        }
        return false;
    }
    std::vector<int64_t> Ids(size_t limit = SIZE_MAX) const {
        std::vector<int64_t> r;
        for (auto& p : v) {
            for (i128 x = p.first; x < p.second; x++) {
                if (r.size() >= limit) return r;
                r.push_back((int64_t)x);
            }
        }
        return r;
    }
    bool operator==(const IvSet& o) const { return v == o.v; }
    std::string Text() const {
        std::string s = "{";
        for (size_t i = 0; i < v.size() && i < 20; i++) s += (i ? "," : "") + std::to_string((int64_t)v[i].first) + ".." + std::to_string((int64_t)v[i].second - 1);
        return s + (v.size() > 20 ? ",...}" : "}");
    }
};
}  // namespace vf
