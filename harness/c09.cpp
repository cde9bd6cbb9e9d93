// Row ranges against integer sets, and grouping by overlap against graph components.
#include "ivset.h"
#include "vf.h"

#include "paimon/common/utils/range_helper.h"
#include "paimon/utils/range.h"

using namespace paimon;
using vf::Case;
using vf::Fmt;
using vf::i128;
using vf::IvSet;

namespace {
IvSet SetOf(const Range& r) { return IvSet::Of(r.from, (i128)r.to + 1); }
IvSet SetOf(const std::vector<Range>& v) {
    IvSet s;
    std::vector<std::pair<i128, i128>> a;
    for (auto& r : v) a.push_back({r.from, (i128)r.to + 1});
    return IvSet::Norm(a);
}
std::string Text(const std::vector<Range>& v) {
    std::string s = "(";
    for (auto& r : v) s += Fmt("[%lld,%lld]", (long long)r.from, (long long)r.to);
    return s + ")";
}
// ids cluster so that ranges touch, nest and coincide
struct World {
    int64_t base;
    int64_t span;
};
World MakeWorld(Case& c) {
    World w;
    w.span = c.rng.Of<int64_t>({4, 12, 60, 1000, 1ll << 33});
    switch (c.rng.Below(4)) {
        case 0: w.base = 0; break;
        case 1: w.base = c.rng.Range(0, 1ll << 40); break;
        case 2: w.base = INT64_MAX - w.span; break;
        default: w.base = (1ll << 32) - w.span / 2; break;
    }
    if (w.base < 0) w.base = 0;
    return w;
}
Range MakeRange(Case& c, const World& w) {
    int64_t a = c.rng.Range(0, w.span), b;
    if (c.rng.Chance(0.3)) b = a;
    else if (c.rng.Chance(0.5)) b = std::min(w.span, a + c.rng.Range(0, 4));
    else b = c.rng.Range(0, w.span);
    if (a > b) std::swap(a, b);
    return Range(w.base + a, w.base + b);
}
std::vector<Range> MakeRanges(Case& c, const World& w, size_t max) {
    std::vector<Range> v;
    size_t n = c.rng.Below(max + 1);
    for (size_t i = 0; i < n; i++) {
        if (!v.empty() && c.rng.Chance(0.3)) {   // touch an existing one
            const Range& p = v[c.rng.Below(v.size())];
            if (p.to < w.base + w.span && c.rng.Chance(0.6)) {
                int64_t f = p.to + 1;
                v.push_back(Range(f, std::min(w.base + w.span, f + c.rng.Range(0, 3) < f ? f : f + 0) ));
                v.back().to = std::min<i128>(w.base + w.span, (i128)f + c.rng.Range(0, 3));
                continue;
            }
            v.push_back(p);
            continue;
        }
        v.push_back(MakeRange(c, w));
    }
    return v;
}
void SortedDisjoint(Case& c, const std::vector<Range>& v, bool maximal, const char* what) {
    for (size_t i = 0; i < v.size(); i++) {
        VF_EXPECT(v[i].from <= v[i].to, "empty-range", "%s: %s", what, Text(v).c_str());
        if (i) {
            VF_EXPECT(v[i - 1].to < v[i].from, "order", "%s is not sorted and disjoint: %s", what, Text(v).c_str());
            if (maximal) VF_EXPECT(v[i - 1].to + 1 < v[i].from, "not-maximal", "%s leaves adjacent ranges: %s", what, Text(v).c_str());
        }
    }
}
}  // namespace

VF_SCENARIO(arithmetic, 120000, 2000000) {
    World w = MakeWorld(c);
    Range a = MakeRange(c, w), b = MakeRange(c, w);
    c.Op(Fmt("a=[%lld,%lld] b=[%lld,%lld]", (long long)a.from, (long long)a.to, (long long)b.from, (long long)b.to), true);
    IvSet sa = SetOf(a), sb = SetOf(b);
    if (sa.Count() <= INT64_MAX) VF_EXPECT((i128)a.Count() == sa.Count(), "count", "%lld", (long long)a.Count());
    IvSet both = sa.And(sb);
    VF_EXPECT(Range::HasIntersection(a, b) == (both.Count() > 0), "has-intersection", "a,b");
    auto x = Range::Intersection(a, b);
    VF_EXPECT(x.has_value() == (both.Count() > 0), "intersection", "presence");
    if (x) VF_EXPECT(SetOf(*x) == both, "intersection", "[%lld,%lld]", (long long)x->from, (long long)x->to);
    VF_EXPECT((a == b) == (a.from == b.from && a.to == b.to), "equality", "a==b");
    VF_EXPECT((a < b) == (std::make_pair(a.from, a.to) < std::make_pair(b.from, b.to)), "ordering", "a<b");
    VF_EXPECT(a.ToString() == Fmt("[%lld, %lld]", (long long)a.from, (long long)a.to), "text", "%s", a.ToString().c_str());

    auto l = MakeRanges(c, w, 9), r = MakeRanges(c, w, 9);
    c.Op("l=" + Text(l));
    c.Op("r=" + Text(r));
    auto l0 = l;
    for (bool adj : {false, true}) {
        auto m = Range::SortAndMergeOverlap(l, adj);
        VF_EXPECT(l == l0, "input-changed", "merge changed its input");
        SortedDisjoint(c, m, adj, adj ? "merge adjacent" : "merge overlapping");
        VF_EXPECT(SetOf(m) == SetOf(l), "merge-set", "adjacent=%d: %s from %s", adj, Text(m).c_str(), Text(l).c_str());
        if (!adj) {
            // only strictly overlapping input may be joined: every output boundary-pair that touches
            // in the input without overlap stays apart, so each output range is one overlap component
            std::vector<std::pair<int64_t, int64_t>> s;
            for (auto& q : l) s.push_back({q.from, q.to});
            std::sort(s.begin(), s.end());
            std::vector<std::pair<int64_t, int64_t>> want;
            for (auto& q : s) {
                if (!want.empty() && q.first <= want.back().second) want.back().second = std::max(want.back().second, q.second);
                else want.push_back(q);
            }
            VF_EXPECT(want.size() == m.size(), "merge-overlap-only", "%zu ranges, expected %zu, from %s", m.size(), want.size(), Text(l).c_str());
        }
    }
    auto ls = Range::SortAndMergeOverlap(l, c.rng.Chance(0.5)), rs = Range::SortAndMergeOverlap(r, c.rng.Chance(0.5));
    auto an = Range::And(ls, rs);
    SortedDisjoint(c, an, false, "and");
    VF_EXPECT(SetOf(an) == SetOf(ls).And(SetOf(rs)), "and-set", "%s & %s = %s", Text(ls).c_str(), Text(rs).c_str(), Text(an).c_str());
    auto ex = a.Exclude(r);
    SortedDisjoint(c, ex, false, "exclude");
    VF_EXPECT(SetOf(ex) == sa.Minus(SetOf(r)), "exclude-set", "[%lld,%lld] minus %s = %s", (long long)a.from, (long long)a.to, Text(r).c_str(), Text(ex).c_str());
}

namespace {
struct Item {
    int64_t s, e;
    int id;
};
}  // namespace

VF_SCENARIO(grouping, 60000, 1000000) {
    World w = MakeWorld(c);
    auto rs = MakeRanges(c, w, c.rng.Chance(0.1) ? 40 : 10);
    c.Op(Text(rs), rs.size() > 1);
    std::vector<Item> items;
    for (size_t i = 0; i < rs.size(); i++) items.push_back({rs[i].from, rs[i].to, (int)i});
    int bad = !items.empty() && c.rng.Chance(0.1) ? (int)c.rng.Below(items.size()) : -1;
    bool bad_end = c.rng.Chance(0.5);
    RangeHelper<Item> h(
        [&](const Item& i) -> Result<int64_t> {
            if (i.id == bad && !bad_end) return Status::Invalid("no start");
            return i.s;
        },
        [&](const Item& i) -> Result<int64_t> {
            if (i.id == bad && bad_end) return Status::Invalid("no end");
            return i.e;
        });
    auto same = h.AreAllRangesSame(items);
    if (bad >= 0) {
        // an error may go unseen only when a difference was found first
        bool diff_first = false;
        for (int i = 1; i < bad; i++) diff_first |= !(rs[i] == rs[0]);
        VF_EXPECT(!same.ok() || (diff_first && !same.value()), "same-error-lost", "bad item %d", bad);
        auto g = h.MergeOverlappingRanges(std::move(items));
        VF_EXPECT(!g.ok(), "group-error-lost", "bad item %d", bad);
        return;
    }
    bool want_same = true;
    for (auto& r : rs) want_same &= r == rs[0];
    VF_EXPECT(same.ok() && same.value() == want_same, "all-same", "expected %d", want_same);
    auto copy = items;
    auto g = h.MergeOverlappingRanges(std::move(copy));
    VF_EXPECT(g.ok(), "group", "%s", g.status().ToString().c_str());
    // components of the overlap graph
    size_t n = items.size();
    std::vector<int> comp(n);
    for (size_t i = 0; i < n; i++) comp[i] = i;
    std::function<int(int)> find = [&](int x) { return comp[x] == x ? x : comp[x] = find(comp[x]); };
    for (size_t i = 0; i < n; i++)
        for (size_t j = 0; j < i; j++)
            if (items[i].s <= items[j].e && items[j].s <= items[i].e) comp[find(i)] = find(j);
    std::vector<int> seen(n, 0);
    std::map<int, int> comp_group;
    i128 last_end = -1;
    int gi = 0;
    for (auto& group : g.value()) {
        VF_EXPECT(!group.empty(), "empty-group", "group %d", gi);
        i128 lo = group[0].s, hi = -1;
        for (size_t k = 0; k < group.size(); k++) {
            auto& it = group[k];
            VF_EXPECT(it.id >= 0 && it.id < (int)n && !seen[it.id] && it.s == items[it.id].s && it.e == items[it.id].e, "item-once", "item %d", it.id);
            seen[it.id] = 1;
            if (k) VF_EXPECT(group[k - 1].id < it.id, "order-in-group", "group %d", gi);
            VF_EXPECT(find(it.id) == find(group[0].id), "joined-apart", "items %d and %d", it.id, group[0].id);
            lo = std::min<i128>(lo, it.s);
            hi = std::max<i128>(hi, it.e);
        }
        auto ins = comp_group.emplace(find(group[0].id), gi);
        VF_EXPECT(ins.second, "split-together", "component of item %d appears twice", group[0].id);
        VF_EXPECT(lo > last_end, "group-order", "groups are not in range order");
        last_end = hi;
        gi++;
    }
    VF_EXPECT(std::count(seen.begin(), seen.end(), 1) == (long)n, "item-lost", "%zu items", n);
}
