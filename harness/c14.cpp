// Metrics registries against a map model, alone and under threads.
#include "vf.h"

#include "paimon/common/metrics/metrics_impl.h"
#include "paimon/metrics.h"
#include "paimon/result.h"
#include "rapidjson/document.h"

using namespace paimon;
using vf::Case;
using vf::Fmt;

namespace {
std::string Name(Case& c) {
    switch (c.rng.Below(8)) {
        case 0: return "";
        case 1: return "quote\"back\\slash";
        case 2: return "tab\tnl\n";
        case 3: return "\xc3\xa9t\xc3\xa9";
        default: return "m" + std::to_string(c.rng.Below(6));
    }
}
uint64_t Val(Case& c) {
    return c.rng.Chance(0.3) ? (uint64_t)c.rng.Edgy64() : c.rng.Below(1000);
}
using Model = std::map<std::string, uint64_t>;
void Verify(Case& c, const MetricsImpl& m, const Model& w, const char* op) {
    VF_EXPECT(m.GetAllCounters() == w, "listing", "after %s: %zu names, expected %zu", op, m.GetAllCounters().size(), w.size());
    for (auto& kv : w) {
        auto r = m.GetCounter(kv.first);
        VF_EXPECT(r.ok() && r.value() == kv.second, "value", "after %s: %s", op, kv.first.c_str());
    }
    auto r = m.GetCounter("never set");
    VF_EXPECT(!r.ok() && r.status().IsKeyError(), "missing-name", "after %s: %s", op, r.status().ToString().c_str());
    std::string js = m.ToString();
    rapidjson::Document d;
    d.Parse(js.c_str());
    VF_EXPECT(!d.HasParseError() && d.IsObject(), "json", "after %s: %s", op, js.c_str());
    VF_EXPECT(d.MemberCount() == w.size(), "json", "after %s: %u members, expected %zu", op, d.MemberCount(), w.size());
    for (auto it = d.MemberBegin(); it != d.MemberEnd(); ++it) {
        std::string k(it->name.GetString(), it->name.GetStringLength());
        auto f = w.find(k);
        VF_EXPECT(f != w.end() && it->value.IsUint64() && it->value.GetUint64() == f->second, "json", "after %s: member %s", op, k.c_str());
    }
    for (char ch : js) VF_EXPECT((unsigned char)ch < 128, "json", "output is not plain ASCII");
}
struct FakeReader {
    std::shared_ptr<Metrics> m;
    std::shared_ptr<Metrics> GetReaderMetrics() const { return m; }
};
}  // namespace

VF_SCENARIO(history, 8000, 150000) {
    const int N = 3;
    std::shared_ptr<MetricsImpl> m[N];
    Model w[N];
    for (auto& x : m) x = std::make_shared<MetricsImpl>();
    int n = c.rng.Range(1, 30);
    for (int i = 0; i < n; i++) {
        int a = c.rng.Below(N), b = c.rng.Below(N);
        int op = c.rng.Below(10);
        const char* what = "set";
        if (op < 6) {
            std::string k = Name(c);
            uint64_t v = Val(c);
            c.Op(Fmt("set %d %s=%llu", a, k.c_str(), (unsigned long long)v), true);
            m[a]->SetCounter(k, v);
            w[a][k] = v;
        } else if (op < 8) {
            what = "merge";
            if (c.rng.Chance(0.1)) {
                c.Op("merge null");
                m[a]->Merge(nullptr);
            } else {
                c.Op(Fmt("merge %d<-%d", a, b), true);
                m[a]->Merge(m[b]);
                if (a != b) for (auto& kv : w[b]) w[a][kv.first] += kv.second;
            }
        } else if (op < 9) {
            what = "overwrite";
            if (c.rng.Chance(0.1)) {
                c.Op("overwrite null");
                m[a]->Overwrite(nullptr);
            } else {
                c.Op(Fmt("overwrite %d<-%d", a, b), true);
                m[a]->Overwrite(m[b]);
                w[a] = w[b];
            }
        } else {
            what = "collect";
            std::vector<std::unique_ptr<FakeReader>> rs;
            Model want;
            int k = c.rng.Below(5);
            c.Op(Fmt("collect %d", k), true);
            for (int q = 0; q < k; q++) {
                int s = c.rng.Below(N + 2);
                if (s == N) rs.push_back(nullptr);
                else {
                    rs.push_back(std::make_unique<FakeReader>());
                    if (s < N) {
                        rs.back()->m = m[s];
                        for (auto& kv : w[s]) want[kv.first] += kv.second;
                    }
                }
            }
            auto r = MetricsImpl::CollectReadMetrics(rs);
            VF_EXPECT(r && r->GetAllCounters() == want, "collect", "%d readers", k);
        }
        for (int q = 0; q < N; q++) Verify(c, *m[q], w[q], what);
    }
}

VF_SCENARIO(concurrent_merge, 300, 5000) {
    // T threads merge their own registries into a shared one; nothing is lost or counted twice
    int T = c.rng.Range(2, 6), per = c.rng.Range(1, 40), names = c.rng.Range(1, 5);
    c.Op(Fmt("threads=%d per=%d names=%d", T, per, names), true);
    auto shared = std::make_shared<MetricsImpl>();
    std::vector<std::vector<std::vector<uint64_t>>> vals(T);
    Model want;
    for (auto& t : vals) {
        t.resize(per);
        for (auto& p : t) {
            p.resize(names);
            for (int k = 0; k < names; k++) {
                p[k] = c.rng.Below(100);
                want["m" + std::to_string(k)] += p[k];
            }
        }
    }
    std::atomic<int> in{0};
    std::atomic<bool> stop{false}, went_back{false};
    std::vector<std::thread> ts;
    for (int t = 0; t < T; t++) {
        ts.emplace_back([&, t] {
            in++;
            while (in < T) std::this_thread::yield();
            for (auto& p : vals[t]) {
                auto m = std::make_shared<MetricsImpl>();
                for (int k = 0; k < names; k++) m->SetCounter("m" + std::to_string(k), p[k]);
                shared->Merge(m);
            }
        });
    }
    std::thread watch([&] {
        std::map<std::string, uint64_t> last;
        while (!stop) {
            auto all = shared->GetAllCounters();
            for (auto& kv : last)
                if (!all.count(kv.first) || all[kv.first] < kv.second) went_back = true;
            last = all;
            (void)shared->ToString();
            std::this_thread::yield();
        }
    });
    for (auto& t : ts) t.join();
    stop = true;
    watch.join();
    VF_EXPECT(!went_back, "total-went-back", "a merged total decreased");
    auto got = shared->GetAllCounters();
    for (auto& kv : want) VF_EXPECT(got[kv.first] == kv.second, "lost-or-doubled", "%s is %llu, expected %llu", kv.first.c_str(), (unsigned long long)got[kv.first], (unsigned long long)kv.second);
}

VF_SCENARIO(concurrent_cross, 200, 3000) {
    // registries merged into each other and overwritten while being set: no deadlock, and every
    // value a reader sees was recorded
    int T = c.rng.Range(2, 5), per = c.rng.Range(5, 60);
    c.Op(Fmt("threads=%d per=%d", T, per), true);
    std::shared_ptr<MetricsImpl> src = std::make_shared<MetricsImpl>(), a = std::make_shared<MetricsImpl>(), b = std::make_shared<MetricsImpl>();
    src->SetCounter("x", 7);
    src->SetCounter("y", 7);
    std::atomic<bool> bad{false};
    std::vector<std::thread> ts;
    std::vector<uint64_t> seeds;
    for (int t = 0; t < T; t++) seeds.push_back(c.rng.U64());
    for (int t = 0; t < T; t++) {
        ts.emplace_back([&, t] {
            vf::Rng r(seeds[t]);
            for (int i = 0; i < per; i++) {
                switch (r.Below(4)) {
                    case 0: a->Overwrite(src); break;
                    case 1: b->Overwrite(a); break;
                    case 2: a->Overwrite(b); break;
                    default: {
                        auto all = (r.Chance(0.5) ? a : b)->GetAllCounters();
                        // contents are replaced as a whole
                        if (!all.empty() && (all.size() != 2 || all["x"] != 7 || all["y"] != 7)) bad = true;
                    }
                }
            }
        });
    }
    for (auto& t : ts) t.join();
    VF_EXPECT(!bad, "mixed-contents", "a reader saw a partly replaced registry");
}
