// Insertion-ordered map against a vector model; ordered bin packing against its definition.
#include "vf.h"

#include "paimon/common/utils/bin_packing.h"
#include "paimon/common/utils/linked_hash_map.h"

using namespace paimon;
using vf::Case;
using vf::Fmt;

namespace {
using LMap = LinkedHashMap<std::string, std::string>;
using Model = std::vector<std::pair<std::string, std::string>>;
int At(const Model& m, const std::string& k) {
    for (size_t i = 0; i < m.size(); i++)
        if (m[i].first == k) return i;
    return -1;
}
void Verify(Case& c, const LMap& m, const Model& w, const char* op) {
    VF_EXPECT(m.size() == w.size() && m.empty() == w.empty(), "size", "after %s: %zu, expected %zu", op, m.size(), w.size());
    size_t i = 0;
    for (auto it = m.begin(); it != m.end(); ++it, ++i) {
        VF_EXPECT(i < w.size() && it->first == w[i].first && it->second == w[i].second, "iteration", "after %s: position %zu is %s", op, i, it->first.c_str());
    }
    VF_EXPECT(i == w.size(), "iteration", "after %s: %zu of %zu", op, i, w.size());
    auto kv = m.key_vec();
    VF_EXPECT(kv.size() == w.size(), "keys", "after %s", op);
    for (size_t k = 0; k < kv.size(); k++) VF_EXPECT(kv[k] == w[k].first, "keys", "after %s: key %zu", op, k);
    auto ks = m.key_set();
    VF_EXPECT(ks.size() == w.size(), "keys", "after %s", op);
    for (auto& p : w) VF_EXPECT(ks.count(p.first), "keys", "after %s", op);
    for (int k = 0; k < 10; k++) {
        std::string key = "k" + std::to_string(k);
        auto it = m.find(key);
        int at = At(w, key);
        VF_EXPECT((it != m.end()) == (at >= 0), "find", "after %s: %s", op, key.c_str());
        if (at >= 0) VF_EXPECT(it->first == key && it->second == w[at].second, "find", "after %s: %s", op, key.c_str());
    }
}
}  // namespace

VF_SCENARIO(ordered_map, 12000, 200000) {
    LMap m[2];
    Model w[2];
    int n = c.rng.Range(1, 40);
    for (int i = 0; i < n; i++) {
        int a = c.rng.Below(2);
        std::string k = "k" + std::to_string(c.rng.Below(10)), v = "v" + std::to_string(i) + std::string(c.rng.Below(30), 'x');
        int at = At(w[a], k);
        int op = c.rng.Below(12);
        c.Op(Fmt("%d.%d(%s)", a, op, k.c_str()), true);
        const char* what = "";
        switch (op) {
            case 0: case 1: case 2: {
                what = "insert";
                auto it = m[a].insert(k, v);
                if (at < 0) w[a].push_back({k, v});
                at = At(w[a], k);
                VF_EXPECT(it->first == k && it->second == w[a][at].second, "insert-result", "%s", k.c_str());
                break;
            }
            case 3: case 4: {
                what = "insert_or_assign";
                auto it = m[a].insert_or_assign(k, v);
                if (at < 0) w[a].push_back({k, v});
                else w[a][at].second = v;
                VF_EXPECT(it->first == k && it->second == v, "assign-result", "%s", k.c_str());
                break;
            }
            case 5: {
                what = "operator[]";
                std::string& ref = m[a][k];
                VF_EXPECT(ref == (at < 0 ? "" : w[a][at].second), "subscript", "%s", k.c_str());
                if (c.rng.Chance(0.7)) {
                    ref = v;
                    if (at < 0) w[a].push_back({k, v});
                    else w[a][at].second = v;
                } else if (at < 0) w[a].push_back({k, ""});
                break;
            }
            case 6: case 7: {
                what = "erase";
                auto it = m[a].erase(k);
                if (at < 0) VF_EXPECT(it == m[a].end(), "erase-result", "absent %s", k.c_str());
                else {
                    w[a].erase(w[a].begin() + at);
                    if (at < (int)w[a].size()) VF_EXPECT(it != m[a].end() && it->first == w[a][at].first, "erase-result", "next of %s", k.c_str());
                    else VF_EXPECT(it == m[a].end(), "erase-result", "end after %s", k.c_str());
                }
                break;
            }
            case 8: {
                what = "erase through its own key";
                if (w[a].empty()) break;
                size_t p = c.rng.Below(w[a].size());
                auto it = m[a].begin();
                std::advance(it, p);
                m[a].erase(it->first);
                w[a].erase(w[a].begin() + p);
                break;
            }
            case 9: {
                what = "copy";
                if (c.rng.Chance(0.5)) {
                    m[a] = m[1 - a];
                } else {
                    LMap t(m[1 - a]);
                    m[a] = t;
                }
                w[a] = w[1 - a];
                break;
            }
            case 10: {
                what = "move";
                LMap t(m[1 - a]);
                m[a] = std::move(t);
                w[a] = w[1 - a];
                break;
            }
            default: {
                what = "compare";
                bool eq = w[0] == w[1];
                VF_EXPECT((m[0] == m[1]) == eq && (m[0] != m[1]) == !eq, "equality", "expected %d", eq);
                LMap same(m[a]);
                VF_EXPECT(same == m[a], "equality", "a copy differs");
                LMap& self = m[a];
                self = m[a];
            }
        }
        Verify(c, m[0], w[0], what);
        Verify(c, m[1], w[1], what);
    }
}

VF_SCENARIO(packing, 60000, 1000000) {
    size_t n = c.rng.Chance(0.05) ? c.rng.Range(50, 300) : c.rng.Range(0, 14);
    int64_t target = c.rng.Of<int64_t>({0, 1, 5, 10, 100, 1ll << 40});
    std::vector<std::unique_ptr<std::pair<int, int64_t>>> items;
    std::vector<int64_t> ws;
    std::string t;
    for (size_t i = 0; i < n; i++) {
        int64_t wt = c.rng.Chance(0.2) ? c.rng.Of<int64_t>({0, target, target + 1, target > 0 ? target - 1 : 0, target * 3}) : c.rng.Range(0, target / 2 + 1);
        ws.push_back(wt);
        items.push_back(std::make_unique<std::pair<int, int64_t>>((int)i, wt));
        if (i < 40) t += std::to_string(wt) + ",";
    }
    c.Op(Fmt("target=%lld n=%zu [%s]", (long long)target, n, t.c_str()), n > 1);
    using P = std::unique_ptr<std::pair<int, int64_t>>;
    std::function<int64_t(const P&)> wf = [](const P& p) { return p->second; };
    auto packed = BinPacking::PackForOrdered<P>(std::move(items), wf, target);
    int next = 0;
    int64_t prev = -1;
    for (auto& g : packed) {
        VF_EXPECT(!g.empty(), "empty-group", "target %lld", (long long)target);
        int64_t sum = 0;
        for (auto& p : g) {
            VF_EXPECT(p && p->first == next, "item-order", "item %d where %d belongs", p ? p->first : -1, next);
            sum += p->second;
            next++;
        }
        VF_EXPECT(g.size() == 1 || sum <= target, "overfull-group", "%lld over %lld with %zu items", (long long)sum, (long long)target, g.size());
        if (prev >= 0) VF_EXPECT(prev + g[0]->second > target, "needless-group", "%lld + %lld fits in %lld", (long long)prev, (long long)g[0]->second, (long long)target);
        prev = sum;
    }
    VF_EXPECT(next == (int)n, "item-lost", "%d of %zu", next, n);
}
