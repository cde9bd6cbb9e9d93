// Executors: exactly-once execution, results and exceptions, parallelism, draining on destruction.
#include "vf.h"

#include "paimon/common/executor/future.h"
#include "paimon/executor.h"
#include "paimon/result.h"
#include "paimon/status.h"

using namespace paimon;
using vf::Case;
using vf::Fmt;

namespace {
// The run-time's own exception reference counts are not visible to the thread sanitizer.
#ifdef __SANITIZE_THREAD__
constexpr bool kThrow = false;
#else
constexpr bool kThrow = true;
#endif
struct Ledger {
    explicit Ledger(size_t n) : ran(n) {
        for (auto& r : ran) r = 0;
    }
    std::vector<std::atomic<int>> ran;
    std::atomic<int> running{0};
    std::atomic<int> max_running{0};
    void Enter(size_t i) {
        ran[i]++;
        int n = ++running;
        int m = max_running;
        while (n > m && !max_running.compare_exchange_weak(m, n)) {
        }
    }
    void Leave() { running--; }
};
struct Spin {
    int n;
    void operator()() const {
        if (n == 0) return;
        if (n > 40) std::this_thread::sleep_for(std::chrono::microseconds(n));
        else
            for (int i = 0; i < n; i++) std::this_thread::yield();
    }
};
Spin Work(Case& c) { return Spin{c.rng.Chance(0.5) ? 0 : (int)c.rng.Range(0, c.rng.Chance(0.1) ? 400 : 20)}; }
}  // namespace

VF_SCENARIO(submit_and_collect, 300, 5000) {
    uint32_t threads = c.rng.Range(1, 8);
    int producers = c.rng.Range(1, 4);
    int per = c.rng.Range(1, 80);
    int n = producers * per;
    c.Op(Fmt("threads=%u producers=%d tasks=%d", threads, producers, n), true);
    Ledger led(n);
    std::vector<int> kind(n);
    std::vector<Spin> work(n);
    for (int i = 0; i < n; i++) {
        kind[i] = c.rng.Below(5);
        work[i] = Work(c);
    }
    std::vector<std::string> bad(producers);
    {
        auto ex = threads == 4 && c.rng.Chance(0.5) ? CreateDefaultExecutor() : CreateDefaultExecutor(threads);
        std::vector<std::thread> ps;
        for (int p = 0; p < producers; p++) {
            ps.emplace_back([&, p] {
                std::vector<std::future<std::string>> values;
                std::vector<int> value_ids;
                std::vector<std::pair<int, std::future<Result<std::unique_ptr<int>>>>> results;
                std::vector<std::pair<int, std::future<Status>>> statuses;
                std::vector<std::pair<int, std::future<int>>> throwing;
                std::vector<std::future<void>> voids;
                std::vector<int> void_ids;
                for (int k = 0; k < per; k++) {
                    int i = p * per + k;
                    auto run = [&led, &work, i] {
                        led.Enter(i);
                        work[i]();
                        led.Leave();
                    };
                    switch (kind[i]) {
                        case 0:
                            values.push_back(Via(ex.get(), [run, i] {
                                run();
                                return "task-" + std::to_string(i);
                            }));
                            value_ids.push_back(i);
                            break;
                        case 1:
                            results.emplace_back(i, Via(ex.get(), [run, i]() -> Result<std::unique_ptr<int>> {
                                run();
                                if (i % 3 == 0) return Status::Invalid("task " + std::to_string(i));
                                return std::make_unique<int>(i);
                            }));
                            break;
                        case 2:
                            statuses.emplace_back(i, Via(ex.get(), [run, i]() -> Status {
                                run();
                                return i % 2 ? Status::IOError("task " + std::to_string(i)) : Status::OK();
                            }));
                            break;
                        case 3:
                            throwing.emplace_back(i, Via(ex.get(), [run, i]() -> int {
                                run();
                                if (kThrow && i % 2) throw std::runtime_error("task " + std::to_string(i));
                                return i;
                            }));
                            break;
                        default:
                            voids.push_back(Via(ex.get(), [run] { run(); }));
                            void_ids.push_back(i);
                    }
                }
                auto vs = CollectAll(values);
                if (vs.size() != value_ids.size()) bad[p] = "CollectAll count";
                for (size_t k = 0; k < vs.size(); k++)
                    if (vs[k] != "task-" + std::to_string(value_ids[k])) bad[p] = Fmt("value %zu is %s, expected task-%d", k, vs[k].c_str(), value_ids[k]);
                Wait(voids);
                for (int i : void_ids)
                    if (led.ran[i] != 1) bad[p] = Fmt("task %d ran %d times when waited for", i, led.ran[i].load());
                for (auto& q : results) {
                    auto r = q.second.get();
                    if (q.first % 3 == 0) {
                        if (r.ok() || r.status().message() != "task " + std::to_string(q.first)) bad[p] = Fmt("error of task %d", q.first);
                    } else if (!r.ok() || !r.value() || *r.value() != q.first) bad[p] = Fmt("result of task %d", q.first);
                }
                for (auto& q : statuses) {
                    Status s = q.second.get();
                    bool want_ok = q.first % 2 == 0;
                    if (s.ok() != want_ok || (!want_ok && (!s.IsIOError() || s.message() != "task " + std::to_string(q.first)))) bad[p] = Fmt("status of task %d: %s", q.first, s.ToString().c_str());
                }
                for (auto& q : throwing) {
                    std::string got = "value";
                    int v = -1;
                    try {
                        v = q.second.get();
                    } catch (const std::runtime_error& e) {
                        got = e.what();
                    } catch (...) {
                        got = "another exception";
                    }
                    std::string want = kThrow && q.first % 2 ? "task " + std::to_string(q.first) : "value";
                    if (got != want || (got == "value" && v != q.first)) bad[p] = Fmt("throwing task %d gave %s", q.first, got.c_str());
                }
            });
        }
        for (auto& t : ps) t.join();
        for (auto& b : bad) VF_EXPECT(b.empty(), "wrong-result", "%s", b.c_str());
        VF_EXPECT(led.max_running <= (int)threads, "too-many-at-once", "%d tasks at once on %u threads", led.max_running.load(), threads);
        c.Saw(led.max_running);
    }
    for (int i = 0; i < n; i++) VF_EXPECT(led.ran[i] == 1, "not-exactly-once", "task %d ran %d times", i, led.ran[i].load());
    VF_EXPECT(led.running == 0, "running-after-destruction", "%d", led.running.load());
}

VF_SCENARIO(destroy_drains, 500, 8000) {
    uint32_t threads = c.rng.Range(1, 8);
    int n = c.rng.Range(0, 120);
    int producers = c.rng.Range(1, 3);
    c.Op(Fmt("threads=%u tasks=%d producers=%d", threads, n, producers), n > 0);
    Ledger led(n);
    std::vector<Spin> work(n);
    for (auto& w : work) w = Work(c);
    bool gate = c.rng.Chance(0.4);      // hold the workers until everything is queued
    std::promise<void> open;
    auto opened = open.get_future().share();
    std::vector<std::future<int>> futures(n);
    std::thread opener;
    {
        auto ex = CreateDefaultExecutor(threads);
        if (gate) for (uint32_t i = 0; i < threads; i++) ex->Add([opened] { opened.wait(); });
        ex->Add(nullptr);               // an empty task is ignored
        std::vector<std::thread> ps;
        for (int p = 0; p < producers; p++) {
            ps.emplace_back([&, p] {
                for (int i = p; i < n; i += producers) {
                    auto body = [&led, &work, i]() -> int {
                        led.Enter(i);
                        work[i]();
                        led.Leave();
                        return i;
                    };
                    if (i % 3) futures[i] = Via(ex.get(), body);
                    else ex->Add([body] { body(); });
                }
            });
        }
        for (auto& t : ps) t.join();
        if (gate) {
            int us = c.rng.Range(0, 300);
            opener = std::thread([&open, us] {
                std::this_thread::sleep_for(std::chrono::microseconds(us));
                open.set_value();
            });
        }
        // destroyed, possibly by another thread
        if (c.rng.Chance(0.3)) {
            std::thread d([e = std::move(ex)]() mutable { e.reset(); });
            d.join();
        }
    }
    c.Saw(led.max_running);
    VF_EXPECT(led.running == 0, "running-after-destruction", "%d", led.running.load());
    for (int i = 0; i < n; i++) VF_EXPECT(led.ran[i] == 1, "not-exactly-once", "task %d of %d ran %d times", i, n, led.ran[i].load());
    for (int i = 0; i < n; i++) {
        if (!futures[i].valid()) continue;
        bool ready = futures[i].wait_for(std::chrono::seconds(0)) == std::future_status::ready;
        VF_EXPECT(ready, "result-missing", "task %d", i);
        int v = -1;
        try {
            v = futures[i].get();
        } catch (...) {
        }
        VF_EXPECT(v == i, "result-missing", "task %d gave %d", i, v);
    }
    if (opener.joinable()) opener.join();
}

VF_SCENARIO(parallelism, 300, 5000) {
    // as many tasks as threads can wait for one another
    uint32_t threads = c.rng.Range(1, 8);
    int rounds = c.rng.Range(1, 10);
    c.Op(Fmt("threads=%u rounds=%d", threads, rounds), true);
    auto ex = CreateDefaultExecutor(threads);
    for (int r = 0; r < rounds; r++) {
        auto mu = std::make_shared<std::mutex>();
        auto cv = std::make_shared<std::condition_variable>();
        auto in = std::make_shared<uint32_t>(0);
        std::vector<std::future<void>> fs;
        for (uint32_t i = 0; i < threads; i++) {
            fs.push_back(Via(ex.get(), [=] {
                std::unique_lock<std::mutex> l(*mu);
                if (++*in == threads) cv->notify_all();
                cv->wait(l, [&] { return *in == threads; });
            }));
            if (c.rng.Chance(0.3)) std::this_thread::yield();
        }
        Wait(fs);
        VF_EXPECT(*in == threads, "parallelism", "%u of %u tasks met", *in, threads);
    }
}

VF_SCENARIO(tasks_adding_tasks, 300, 5000) {
    uint32_t threads = c.rng.Range(1, 6);
    int width = c.rng.Range(1, 4), depth = c.rng.Range(1, 4);
    c.Op(Fmt("threads=%u width=%d depth=%d", threads, width, depth), true);
    auto ex = CreateDefaultExecutor(threads);
    std::atomic<int> ran{0};
    int want = 0;
    for (int d = 0, k = 1; d <= depth; d++, k *= width) want += k;
    std::promise<void> done;
    std::function<void(int)> spawn = [&](int d) {
        int mine = 0;
        if (d < depth)
            for (int i = 0; i < width; i++) ex->Add([&, d] { spawn(d + 1); });
        mine = ++ran;
        if (mine == want) done.set_value();
    };
    ex->Add([&] { spawn(0); });
    done.get_future().wait();
    ex.reset();
    VF_EXPECT(ran == want, "not-exactly-once", "%d tasks ran, expected %d", ran.load(), want);
}

VF_SCENARIO(global_executor, 30, 400) {
    int n = c.rng.Range(2, 6);
    std::vector<Executor*> got(n);
    std::vector<int> sums(n);
    std::vector<std::thread> ts;
    c.Op(Fmt("threads=%d", n), true);
    for (int i = 0; i < n; i++) {
        ts.emplace_back([&, i] {
            auto e = GetGlobalDefaultExecutor();
            got[i] = e.get();
            std::vector<std::future<int>> fs;
            for (int k = 0; k < 20; k++) fs.push_back(Via(e.get(), [k] { return k; }));
            int s = 0;
            for (int v : CollectAll(fs)) s += v;
            sums[i] = s;
        });
    }
    for (auto& t : ts) t.join();
    for (int i = 0; i < n; i++) {
        VF_EXPECT(got[i] && got[i] == got[0], "global-instance", "thread %d got another executor", i);
        VF_EXPECT(sums[i] == 190, "wrong-result", "%d", sums[i]);
    }
}
