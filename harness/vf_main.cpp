#include "vf.h"

#include <csignal>
#include <dirent.h>
#include <ftw.h>

namespace vf {
Progress* g_progress = nullptr;
std::vector<Scenario>& Scenarios() {
    static std::vector<Scenario> s;
    return s;
}

static std::string g_scratch;
static int RmOne(const char* p, const struct stat*, int, struct FTW*) {
    return ::remove(p);
}
const std::string& Scratch() {
    if (g_scratch.empty()) {
        const char* base = getenv("VF_SCRATCH");
        std::string t = std::string(base ? base : "/tmp") + "/vf-XXXXXX";
        std::vector<char> b(t.begin(), t.end());
        b.push_back(0);
        if (!mkdtemp(b.data())) {
            fprintf(stderr, "HARNESS-ERROR: mkdtemp %s\n", t.c_str());
            _exit(3);
        }
        g_scratch = b.data();
        atexit([] { nftw(g_scratch.c_str(), RmOne, 32, FTW_DEPTH | FTW_PHYS | FTW_MOUNT); });
    }
    return g_scratch;
}
}  // namespace vf

static std::string JsonStr(const std::string& s) {
    std::string r = "\"";
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') {
            r += '\\';
            r += static_cast<char>(ch);
        } else if (ch < 0x20 || ch >= 0x7f) {
            r += vf::Fmt("\\u%04x", ch);
        } else {
            r += static_cast<char>(ch);
        }
    }
    return r + "\"";
}

int main(int argc, char** argv) {
    using namespace vf;
    uint64_t seed = 1;
    bool thorough = false;
    std::string out, progress, only;
    int64_t only_index = -1;
    uint64_t shard = 0, shards = 1;
    double scale = 1.0;
    int repeat = 1;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto next = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--seed") seed = strtoull(next().c_str(), nullptr, 10);
        else if (a == "--tier") thorough = next() == "thorough";
        else if (a == "--out") out = next();
        else if (a == "--progress") progress = next();
        else if (a == "--scenario") only = next();
        else if (a == "--case") only_index = strtoll(next().c_str(), nullptr, 10);
        else if (a == "--scale") scale = atof(next().c_str());
        else if (a == "--repeat") repeat = atoi(next().c_str());
        else if (a == "--shard") {
            std::string s = next();
            shard = strtoull(s.c_str(), nullptr, 10);
            shards = strtoull(s.substr(s.find('/') + 1).c_str(), nullptr, 10);
        } else if (a == "--list") {
            for (auto& s : Scenarios()) printf("%s %" PRIu64 " %" PRIu64 "\n", s.name.c_str(), s.quick, s.thorough);
            return 0;
        } else {
            fprintf(stderr, "HARNESS-ERROR: unknown argument %s\n", a.c_str());
            return 3;
        }
    }
    Progress local{};
    g_progress = &local;
    if (!progress.empty()) {
        int fd = open(progress.c_str(), O_RDWR | O_CREAT, 0644);
        if (fd < 0 || ftruncate(fd, sizeof(Progress)) != 0) {
            fprintf(stderr, "HARNESS-ERROR: progress file\n");
            return 3;
        }
        g_progress = static_cast<Progress*>(
            mmap(nullptr, sizeof(Progress), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
        close(fd);
    }
    FILE* fo = out.empty() ? stdout : fopen(out.c_str(), "w");
    if (!fo) return 3;
    std::set<std::string> wanted;
    for (size_t p = 0; p < only.size();) {
        size_t q = only.find(',', p);
        if (q == std::string::npos) q = only.size();
        wanted.insert(only.substr(p, q - p));
        p = q + 1;
    }
    uint64_t violations = 0;
    for (auto& s : Scenarios()) {
        if (!wanted.empty() && !wanted.count(s.name)) continue;
        uint64_t n = thorough ? s.thorough : s.quick;
        n = static_cast<uint64_t>(n * scale + 0.5);
        if (n == 0 && (thorough ? s.thorough : s.quick) > 0) n = 1;
        uint64_t evals = 0, ops = 0, checks = 0, nontriv = 0;
        std::unordered_set<uint64_t> distinct;
        std::vector<std::string> samples;
        std::set<std::string> seen_keys;
        snprintf(g_progress->scenario, sizeof g_progress->scenario, "%s", s.name.c_str());
        for (uint64_t i = shard; i < n; i += shards) {
            if (only_index >= 0) {
                i = only_index;
            }
            for (int rep = 0; rep < (only_index >= 0 ? repeat : 1); rep++) {
                g_progress->index = i;
                g_progress->beat++;
                g_progress->note[0] = 0;
                Case c(s.name, i, seed, thorough);
                std::string key, msg;
                try {
                    s.body(c);
                } catch (const Fail& f) {
                    key = f.key;
                    msg = f.msg;
                } catch (const std::exception& e) {
                    key = "uncaught-exception";
                    msg = e.what();
                }
                evals++;
                ops += c.ops();
                checks += c.checks();
                if (c.nontrivial()) {
                    nontriv++;
                    if (distinct.insert(c.sig()).second && samples.size() < 2 && i % 7 == 3 % 7) {
                        samples.push_back(c.trace().substr(0, 400));
                    } else if (samples.empty()) {
                        samples.push_back(c.trace().substr(0, 400));
                    }
                }
                if (!key.empty()) {
                    violations++;
                    if (seen_keys.insert(key).second) {
                        fprintf(fo, "{\"violation\":{\"scenario\":%s,\"case\":%" PRIu64 ",\"key\":%s,\"msg\":%s,\"trace\":%s}}\n",
                                JsonStr(s.name).c_str(), i, JsonStr(key).c_str(), JsonStr(msg).c_str(),
                                JsonStr(c.trace()).c_str());
                        fflush(fo);
                    }
                }
                if (seen_keys.size() >= 4) break;
            }
            if (only_index >= 0 || seen_keys.size() >= 4) break;
        }
        fprintf(fo, "{\"stats\":{\"scenario\":%s,\"evaluations\":%" PRIu64 ",\"ops\":%" PRIu64 ",\"checks\":%" PRIu64
                ",\"nontrivial\":%" PRIu64 ",\"samples\":[", JsonStr(s.name).c_str(), evals, ops, checks, nontriv);
        for (size_t i = 0; i < samples.size(); i++) fprintf(fo, "%s%s", i ? "," : "", JsonStr(samples[i]).c_str());
        fprintf(fo, "],\"sigs\":[");
        size_t k = 0;
        for (auto h : distinct) fprintf(fo, "%s%" PRIu64, k++ ? "," : "", h);
        fprintf(fo, "]}}\n");
        fflush(fo);
    }
    snprintf(g_progress->scenario, sizeof g_progress->scenario, "(exit)");
    fprintf(fo, "{\"done\":true}\n");
    fflush(fo);
    if (fo != stdout) fclose(fo);
    return violations ? 1 : 0;
}
