// Options given as text against a model of their documented meaning.
#include <limits>
#include <optional>

#include "paimon/common/options/memory_size.h"
#include "paimon/common/options/time_duration.h"
#include "paimon/core/core_options.h"
#include "paimon/core/options/expire_config.h"
#include "paimon/factories/factory_creator.h"
#include "paimon/format/file_format.h"
#include "paimon/format/file_format_factory.h"
#include "paimon/format/format_stats_extractor.h"
#include "paimon/format/reader_builder.h"
#include "paimon/format/writer_builder.h"
#include "paimon/fs/file_system.h"
#include "paimon/fs/file_system_factory.h"
#include "vf.h"

using namespace paimon;
using vf::Case;
using vf::Fmt;

namespace {
// ---- stand-ins for the formats and file systems an option can name
struct Named : FileFormat {
    explicit Named(std::string n) : n_(std::move(n)) {}
    const std::string& Identifier() const override { return n_; }
    Result<std::unique_ptr<ReaderBuilder>> CreateReaderBuilder(int32_t) const override { return Status::NotImplemented("x"); }
    Result<std::unique_ptr<WriterBuilder>> CreateWriterBuilder(::ArrowSchema*, int32_t) const override { return Status::NotImplemented("x"); }
    Result<std::unique_ptr<FormatStatsExtractor>> CreateStatsExtractor(::ArrowSchema*) const override { return Status::NotImplemented("x"); }
    std::string n_;
};
struct NamedFactory : FileFormatFactory {
    explicit NamedFactory(std::string n) : n_(std::move(n)) {}
    const char* Identifier() const override { return n_.c_str(); }
    Result<std::unique_ptr<FileFormat>> Create(const std::map<std::string, std::string>&) const override { return std::unique_ptr<FileFormat>(new Named(n_)); }
    std::string n_;
};
thread_local std::string g_asked;
struct NamedFs : FileSystem {
    explicit NamedFs(std::string n) : n_(std::move(n)) {}
    Result<std::unique_ptr<InputStream>> Open(const std::string&) const override { return Status::IOError("no"); }
    Result<std::unique_ptr<OutputStream>> Create(const std::string&, bool) const override { return Status::IOError("no"); }
    Status Mkdirs(const std::string&) const override { return Status::OK(); }
    Status Rename(const std::string&, const std::string&) const override { return Status::OK(); }
    Status Delete(const std::string&, bool) const override { return Status::OK(); }
    Result<std::unique_ptr<FileStatus>> GetFileStatus(const std::string&) const override { return Status::IOError("no"); }
    Status ListDir(const std::string&, std::vector<std::unique_ptr<BasicFileStatus>>*) const override { return Status::OK(); }
    Status ListFileStatus(const std::string&, std::vector<std::unique_ptr<FileStatus>>*) const override { return Status::OK(); }
    Result<bool> Exists(const std::string&) const override { g_asked = n_; return true; }
    std::string n_;
};
struct NamedFsFactory : FileSystemFactory {
    explicit NamedFsFactory(std::string n) : n_(std::move(n)) {}
    const char* Identifier() const override { return n_.c_str(); }
    Result<std::unique_ptr<FileSystem>> Create(const std::string&, const std::map<std::string, std::string>&) const override { return std::unique_ptr<FileSystem>(new NamedFs(n_)); }
    std::string n_;
};
void Prepare() {
    static bool once = [] {
        auto* f = FactoryCreator::GetInstance();
        for (const char* n : {"parquet", "orc", "fone", "ftwo", "avro"}) if (!f->Create(n)) f->Register(n, new NamedFactory(n));
        for (const char* n : {"sone", "stwo"}) if (!f->Create(n)) f->Register(n, new NamedFsFactory(n));
        return true;
    }();
    (void)once;
}
std::string Case_(Case& c, std::string s) {
    int how = c.rng.Below(3);
    for (char& ch : s) if (ch >= 'a' && ch <= 'z' && (how == 1 || (how == 2 && c.rng.Chance(0.5)))) ch = (char)(ch - 32);
    return s;
}
std::string Blanks(Case& c) { return std::string(c.rng.Chance(0.7) ? 0 : c.rng.Range(1, 3), ' '); }

// ---- sizes and durations
struct Unit { const char* name; int64_t mul; int64_t div; };
const Unit kSizes[] = {{"", 1, 1}, {"b", 1, 1}, {"bytes", 1, 1}, {"k", 1LL << 10, 1}, {"kb", 1LL << 10, 1}, {"kibibytes", 1LL << 10, 1},
    {"m", 1LL << 20, 1}, {"mb", 1LL << 20, 1}, {"mebibytes", 1LL << 20, 1}, {"g", 1LL << 30, 1}, {"gb", 1LL << 30, 1}, {"gibibytes", 1LL << 30, 1},
    {"t", 1LL << 40, 1}, {"tb", 1LL << 40, 1}, {"tebibytes", 1LL << 40, 1}};
const Unit kTimes[] = {{"", 1, 1}, {"ns", 1, 1000000}, {"nano", 1, 1000000}, {"nanos", 1, 1000000}, {"nanosecond", 1, 1000000}, {"nanoseconds", 1, 1000000},
    {"us", 1, 1000}, {"\xc2\xb5s", 1, 1000}, {"micro", 1, 1000}, {"micros", 1, 1000}, {"microsecond", 1, 1000}, {"microseconds", 1, 1000},
    {"ms", 1, 1}, {"milli", 1, 1}, {"millis", 1, 1}, {"millisecond", 1, 1}, {"milliseconds", 1, 1},
    {"s", 1000, 1}, {"sec", 1000, 1}, {"secs", 1000, 1}, {"second", 1000, 1}, {"seconds", 1000, 1},
    {"min", 60000, 1}, {"m", 60000, 1}, {"minute", 60000, 1}, {"minutes", 60000, 1},
    {"h", 3600000, 1}, {"hour", 3600000, 1}, {"hours", 3600000, 1}, {"d", 86400000, 1}, {"day", 86400000, 1}, {"days", 86400000, 1}};
template <size_t N>
std::string Quantity(Case& c, const Unit (&units)[N], int64_t* want, bool* ok) {
    const Unit& u = units[c.rng.Below(N)];
    const int64_t max = std::numeric_limits<int64_t>::max();
    int64_t v = 0;
    switch (c.rng.Below(5)) {
        case 0: v = c.rng.Range(0, 10); break;
        case 1: v = c.rng.Range(0, 100000); break;
        case 2: v = max / u.mul - c.rng.Range(0, 2); break;
        case 3: v = u.mul == 1 ? (int64_t)(c.rng.U64() >> 1) : max / u.mul + c.rng.Range(0, 3); break;
        default: v = (int64_t)(c.rng.U64() >> (1 + c.rng.Below(63))); break;
    }
    *ok = v <= max / u.mul;
    *want = *ok ? v * u.mul / u.div : 0;
    return Blanks(c) + std::string(c.rng.Chance(0.05) ? c.rng.Range(1, 3) : 0, '0') + std::to_string(v) + Blanks(c) + Case_(c, u.name) + Blanks(c);
}
template <size_t N>
std::string BadQuantity(Case& c, const Unit (&units)[N]) {
    switch (c.rng.Below(8)) {
        case 0: return std::string(c.rng.Below(4), ' ');
        case 1: return units[1 + c.rng.Below(N - 1)].name;
        case 2: return "-" + std::to_string(c.rng.Range(0, 1000)) + units[c.rng.Below(N)].name;
        case 3: return std::to_string(c.rng.Range(0, 1000)) + "." + std::to_string(c.rng.Range(0, 9)) + units[c.rng.Below(N)].name;
        case 4: return std::to_string(c.rng.Range(0, 1000)) + units[1 + c.rng.Below(N - 1)].name + "x";
        case 5: return std::to_string(c.rng.Range(0, 1000)) + units[1 + c.rng.Below(N - 1)].name + " " + units[1 + c.rng.Below(N - 1)].name;
        case 6: return "9223372036854775808" + std::string(c.rng.Below(3), '0');
        default: return c.rng.Ascii(c.rng.Range(1, 3), "pqwyz#") + std::to_string(c.rng.Range(0, 1000));
    }
}

// ---- the settings
struct Model {
    std::map<std::string, int64_t> num;   // integers, sizes, durations, booleans, kinds
    std::map<std::string, std::string> str;
    std::map<std::string, std::vector<std::string>> list;
    std::optional<int64_t> snapshot;
    std::optional<std::string> agg, fallback, external;
    std::string mode = "default";
};
Model Defaults() {
    Model m;
    const int64_t K = 1024, M = K * K;
    m.num = {{"bucket", -1}, {"page-size", 64 * K}, {"target-file-size", 256 * M}, {"manifest.target-file-size", 8 * M},
             {"manifest.full-compaction-threshold-size", 16 * M}, {"manifest.merge-min-count", 30}, {"source.split.target-size", 128 * M},
             {"source.split.open-file-cost", 4 * M}, {"read.batch-size", 1024}, {"write.batch-size", 1024}, {"write-buffer-size", 256 * M},
             {"file.compression.zstd-level", 1}, {"snapshot.num-retained.min", 10}, {"snapshot.num-retained.max", std::numeric_limits<int32_t>::max()},
             {"snapshot.time-retained", 3600000}, {"snapshot.expire.limit", 10}, {"snapshot.clean-empty-directories", 0},
             {"commit.timeout", std::numeric_limits<int64_t>::max()}, {"commit.max-retries", 10}, {"sequence.field.sort-order", 1},
             {"merge-engine", (int)MergeEngine::DEDUPLICATE}, {"sort-engine", (int)SortEngine::LOSER_TREE}, {"changelog-producer", (int)ChangelogProducer::NONE},
             {"data-file.external-paths.strategy", (int)ExternalPathStrategy::NONE}, {"ignore-delete", 0}, {"deletion-vectors.enabled", 0}, {"force-lookup", 0},
             {"partial-update.remove-record-on-delete", 0}, {"file-index.read.enabled", 1}, {"test.enable-adaptive-prefetch-strategy", 1},
             {"index-file-in-data-file-dir", 0}, {"row-tracking.enabled", 0}, {"data-evolution.enabled", 0}, {"partition.legacy-name", 1}, {"global-index.enabled", 1}};
    m.str = {{"file.compression", "zstd"}, {"manifest.compression", "zstd"}, {"partition.default-name", "__DEFAULT_PARTITION__"}, {"branch", "main"},
             {"data-file.prefix", "data-"}, {"file.format", "parquet"}, {"manifest.format", "orc"}, {"file-system", "local"}};
    return m;
}
const char* kInts[] = {"bucket", "manifest.merge-min-count", "read.batch-size", "write.batch-size", "file.compression.zstd-level", "snapshot.num-retained.min",
                       "snapshot.num-retained.max", "snapshot.expire.limit", "commit.max-retries"};
const char* kSizesOf[] = {"page-size", "target-file-size", "blob.target-file-size", "manifest.target-file-size", "manifest.full-compaction-threshold-size",
                          "source.split.target-size", "source.split.open-file-cost", "write-buffer-size"};
const char* kTimesOf[] = {"snapshot.time-retained", "commit.timeout"};
const char* kBools[] = {"snapshot.clean-empty-directories", "ignore-delete", "deletion-vectors.enabled", "force-lookup", "partial-update.remove-record-on-delete",
                        "file-index.read.enabled", "test.enable-adaptive-prefetch-strategy", "index-file-in-data-file-dir", "row-tracking.enabled",
                        "data-evolution.enabled", "partition.legacy-name", "global-index.enabled"};
const char* kTexts[] = {"file.compression", "manifest.compression", "partition.default-name", "branch", "data-file.prefix"};
const char* kLists[] = {"sequence.field", "partial-update.remove-record-on-sequence-group"};
const std::map<std::string, std::map<std::string, int>> kKinds = {
    {"sequence.field.sort-order", {{"ascending", 1}, {"descending", 0}}},
    {"merge-engine", {{"deduplicate", (int)MergeEngine::DEDUPLICATE}, {"partial-update", (int)MergeEngine::PARTIAL_UPDATE}, {"aggregation", (int)MergeEngine::AGGREGATE}, {"first-row", (int)MergeEngine::FIRST_ROW}}},
    {"sort-engine", {{"min-heap", (int)SortEngine::MIN_HEAP}, {"loser-tree", (int)SortEngine::LOSER_TREE}}},
    {"changelog-producer", {{"none", (int)ChangelogProducer::NONE}, {"input", (int)ChangelogProducer::INPUT}, {"full-compaction", (int)ChangelogProducer::FULL_COMPACTION}, {"lookup", (int)ChangelogProducer::LOOKUP}}},
    {"data-file.external-paths.strategy", {{"none", (int)ExternalPathStrategy::NONE}, {"specific-fs", (int)ExternalPathStrategy::SPECIFIC_FS}, {"round-robin", (int)ExternalPathStrategy::ROUND_ROBIN}}}};
const char* kModes[] = {"default", "latest-full", "latest", "from-snapshot", "from-snapshot-full"};

// Puts one option with a good value into the map and the model.
void Good(Case& c, std::map<std::string, std::string>* o, Model* m) {
    switch (c.rng.Below(13)) {
        case 0: case 1: {
            std::string k = kInts[c.rng.Below(std::size(kInts))];
            int64_t v = c.rng.Chance(0.3) ? c.rng.Of<int64_t>({INT32_MIN, INT32_MAX, 0, -1, 1}) : c.rng.Range(-100000, 100000);
            (*o)[k] = std::to_string(v), m->num[k] = v;
            break;
        }
        case 2: case 3: case 4: {
            std::string k = kSizesOf[c.rng.Below(std::size(kSizesOf))];
            int64_t v; bool ok; std::string t;
            do t = Quantity(c, kSizes, &v, &ok); while (!ok);
            (*o)[k] = t, m->num[k] = v;
            break;
        }
        case 5: {
            std::string k = kTimesOf[c.rng.Below(std::size(kTimesOf))];
            int64_t v; bool ok; std::string t;
            do t = Quantity(c, kTimes, &v, &ok); while (!ok);
            (*o)[k] = t, m->num[k] = v;
            break;
        }
        case 6: case 7: case 8: {
            std::string k = kBools[c.rng.Below(std::size(kBools))];
            bool v = c.rng.Chance(0.5);
            (*o)[k] = Case_(c, v ? c.rng.Of<const char*>({"t", "true", "y", "yes", "1"}) : c.rng.Of<const char*>({"f", "false", "n", "no", "0"})), m->num[k] = v;
            break;
        }
        case 9: {
            std::string k = kTexts[c.rng.Below(std::size(kTexts))], v = c.rng.Ascii(c.rng.Range(0, 12));
            (*o)[k] = v, m->str[k] = v;
            break;
        }
        case 10: {
            std::string k = kLists[c.rng.Below(std::size(kLists))], t;
            std::vector<std::string> l;
            for (int i = c.rng.Range(1, 4); i-- > 0;) {
                l.push_back(c.rng.Ascii(c.rng.Range(1, 5), "abc_ .-"));
                if (!t.empty() || c.rng.Chance(0.05)) t += c.rng.Chance(0.05) ? ",," : ",";
                t += l.back();
            }
            (*o)[k] = t, m->list[k] = l;
            break;
        }
        case 11: {
            auto it = kKinds.begin();
            std::advance(it, c.rng.Below(kKinds.size()));
            auto v = it->second.begin();
            std::advance(v, c.rng.Below(it->second.size()));
            (*o)[it->first] = v->first, m->num[it->first] = v->second;
            break;
        }
        default:
            switch (c.rng.Below(7)) {
                case 0: m->snapshot = c.rng.Chance(0.3) ? c.rng.Edgy64() : c.rng.Range(-3, 100); (*o)["scan.snapshot-id"] = std::to_string(*m->snapshot); break;
                case 1: m->mode = kModes[c.rng.Below(5)]; (*o)["scan.mode"] = m->mode; break;
                case 2: m->agg = c.rng.Ascii(c.rng.Range(1, 8)); (*o)["fields.default-aggregate-function"] = *m->agg; break;
                case 3: m->fallback = c.rng.Ascii(c.rng.Range(1, 8)); (*o)["scan.fallback-branch"] = *m->fallback; break;
                case 4: {
                    std::string k = c.rng.Chance(0.5) ? "file.format" : "manifest.format";
                    m->str[k] = c.rng.Of<const char*>({"parquet", "orc", "fone", "ftwo"});
                    (*o)[k] = Case_(c, m->str[k]);
                    break;
                }
                case 5: m->str["file-system"] = c.rng.Of<const char*>({"local", "sone", "stwo"}); (*o)["file-system"] = Case_(c, m->str["file-system"]); break;
                default: {
                    std::string t;
                    for (int i = c.rng.Range(1, 3); i-- > 0;) t += (t.empty() ? "" : ",") + Blanks(c) + c.rng.Of<const char*>({"oss", "file", "s3"}) + "://" + c.rng.Ascii(c.rng.Range(1, 3), "abc") + "/" + c.rng.Ascii(c.rng.Range(1, 6), "xyz_") + Blanks(c);
                    (*o)["data-file.external-paths"] = t, m->external = t;
                }
            }
    }
}
// Puts one option with a bad value into the map.
std::string Bad(Case& c, std::map<std::string, std::string>* o) {
    std::string k, v;
    switch (c.rng.Below(7)) {
        case 0: k = kInts[c.rng.Below(std::size(kInts))]; v = c.rng.Of<const char*>({"", " ", "x", "1 ", " 1", "1.0", "2147483648", "-2147483649", "99999999999999999999", "0x10", "1k", "--1", "1e3", "true"}); break;
        case 1: k = kSizesOf[c.rng.Below(std::size(kSizesOf))]; v = BadQuantity(c, kSizes); break;
        case 2: k = kTimesOf[c.rng.Below(std::size(kTimesOf))]; v = BadQuantity(c, kTimes); if (v.empty() && k == "commit.timeout") v = " "; break;
        case 3: k = kBools[c.rng.Below(std::size(kBools))]; v = c.rng.Of<const char*>({"", " ", "tr", "truee", " true", "true ", "2", "on", "off", "-1", "01", "yess", "none"}); break;
        case 4: {
            auto it = kKinds.begin();
            std::advance(it, c.rng.Below(kKinds.size()));
            k = it->first;
            auto n = it->second.begin();
            std::advance(n, c.rng.Below(it->second.size()));
            v = c.rng.Chance(0.3) ? n->first + "s" : c.rng.Chance(0.3) ? n->first.substr(0, n->first.size() - 1) : c.rng.Chance(0.3) ? "" : c.rng.Ascii(6);
            if (it->second.count(v)) v = "?";
            break;
        }
        case 5: k = "scan.mode"; v = c.rng.Of<const char*>({"", "full", "latest-", "from_snapshot", "from-snapshot-full-", "Latest", "from-timestamp"}); break;
        default: k = "scan.snapshot-id"; v = c.rng.Of<const char*>({"", "x", "1.5", "9223372036854775808", "-9223372036854775809", "1 ", " 2"}); break;
    }
    (*o)[k] = v;
    return Fmt("%s=%s", k.c_str(), v.c_str());
}
void Same(Case& c, const CoreOptions& o, const Model& m, const std::map<std::string, std::string>& given, const char* where) {
    auto num = [&](const char* k, int64_t got) {
        int64_t want = m.num.at(k);
        VF_EXPECT(got == want, k, "%s: %s is %lld, expected %lld", where, k, (long long)got, (long long)want);
    };
    auto str = [&](const char* k, const std::string& got) {
        VF_EXPECT(got == m.str.at(k), k, "%s: %s is '%s', expected '%s'", where, k, got.c_str(), m.str.at(k).c_str());
    };
    num("bucket", o.GetBucket());
    num("page-size", o.GetPageSize());
    num("target-file-size", o.GetTargetFileSize());
    int64_t blob = m.num.count("blob.target-file-size") ? m.num.at("blob.target-file-size") : m.num.at("target-file-size");
    VF_EXPECT(o.GetBlobTargetFileSize() == blob, "blob.target-file-size", "%s: the blob target size is %lld, expected %lld", where, (long long)o.GetBlobTargetFileSize(), (long long)blob);
    num("manifest.target-file-size", o.GetManifestTargetFileSize());
    num("manifest.full-compaction-threshold-size", o.GetManifestFullCompactionThresholdSize());
    num("manifest.merge-min-count", o.GetManifestMergeMinCount());
    num("source.split.target-size", o.GetSourceSplitTargetSize());
    num("source.split.open-file-cost", o.GetSourceSplitOpenFileCost());
    num("read.batch-size", o.GetReadBatchSize());
    num("write.batch-size", o.GetWriteBatchSize());
    num("write-buffer-size", o.GetWriteBufferSize());
    num("file.compression.zstd-level", o.GetFileCompressionZstdLevel());
    num("snapshot.num-retained.min", o.GetExpireConfig().GetSnapshotRetainMin());
    num("snapshot.num-retained.max", o.GetExpireConfig().GetSnapshotRetainMax());
    num("snapshot.time-retained", o.GetExpireConfig().GetSnapshotTimeRetainMs());
    num("snapshot.expire.limit", o.GetExpireConfig().GetSnapshotMaxDeletes());
    num("snapshot.clean-empty-directories", o.GetExpireConfig().CleanEmptyDirectories());
    num("commit.timeout", o.GetCommitTimeout());
    num("commit.max-retries", o.GetCommitMaxRetries());
    num("sequence.field.sort-order", o.SequenceFieldSortOrderIsAscending());
    num("merge-engine", (int)o.GetMergeEngine());
    num("sort-engine", (int)o.GetSortEngine());
    num("changelog-producer", (int)o.GetChangelogProducer());
    num("data-file.external-paths.strategy", (int)o.GetExternalPathStrategy());
    num("ignore-delete", o.IgnoreDelete());
    num("deletion-vectors.enabled", o.DeletionVectorsEnabled());
    num("partial-update.remove-record-on-delete", o.PartialUpdateRemoveRecordOnDelete());
    num("file-index.read.enabled", o.FileIndexReadEnabled());
    num("test.enable-adaptive-prefetch-strategy", o.EnableAdaptivePrefetchStrategy());
    num("index-file-in-data-file-dir", o.IndexFileInDataFileDir());
    num("row-tracking.enabled", o.RowTrackingEnabled());
    num("data-evolution.enabled", o.DataEvolutionEnabled());
    num("partition.legacy-name", o.LegacyPartitionNameEnabled());
    num("global-index.enabled", o.GlobalIndexEnabled());
    bool lookup = m.num.at("merge-engine") == (int)MergeEngine::FIRST_ROW || m.num.at("changelog-producer") == (int)ChangelogProducer::LOOKUP ||
                  m.num.at("deletion-vectors.enabled") || m.num.at("force-lookup");
    VF_EXPECT(o.NeedLookup() == lookup, "need-lookup", "%s: lookup is %d, expected %d", where, o.NeedLookup(), lookup);
    str("file.compression", o.GetFileCompression());
    str("manifest.compression", o.GetManifestCompression());
    str("partition.default-name", o.GetPartitionDefaultName());
    str("branch", o.GetBranch());
    str("data-file.prefix", o.DataFilePrefix());
    str("file.format", o.GetWriteFileFormat()->Identifier());
    str("manifest.format", o.GetManifestFormat()->Identifier());
    auto list = [&](const char* k) { return m.list.count(k) ? m.list.at(k) : std::vector<std::string>{}; };
    VF_EXPECT(o.GetSequenceField() == list("sequence.field"), "sequence.field", "%s: %zu sequence fields, expected %zu", where, o.GetSequenceField().size(), list("sequence.field").size());
    VF_EXPECT(o.GetPartialUpdateRemoveRecordOnSequenceGroup() == list("partial-update.remove-record-on-sequence-group"), "remove-on-group", "%s: wrong sequence groups to remove on", where);
    VF_EXPECT(o.GetScanSnapshotId() == m.snapshot, "scan.snapshot-id", "%s: wrong snapshot id", where);
    std::string mode = m.mode == "default" ? (m.snapshot ? "from-snapshot" : "latest-full") : m.mode;
    VF_EXPECT(o.GetStartupMode().ToString() == mode, "scan.mode", "%s: mode %s, expected %s", where, o.GetStartupMode().ToString().c_str(), mode.c_str());
    VF_EXPECT(o.GetFieldsDefaultFunc() == m.agg, "default-aggregate", "%s: wrong default aggregate function", where);
    VF_EXPECT(o.GetScanFallbackBranch() == m.fallback, "fallback-branch", "%s: wrong fallback branch", where);
    VF_EXPECT(o.GetDataFileExternalPaths() == m.external, "external-paths", "%s: wrong external paths", where);
    VF_EXPECT(o.ToMap() == given, "to-map", "%s: the options as given changed", where);
}
}  // namespace

VF_SCENARIO(quantities, 150000, 3000000) {
    for (int i = 0; i < 2; i++) {
        int64_t want = 0;
        bool ok = false, size = i == 0;
        std::string t = c.rng.Chance(0.25) ? (size ? BadQuantity(c, kSizes) : BadQuantity(c, kTimes)) : size ? Quantity(c, kSizes, &want, &ok) : Quantity(c, kTimes, &want, &ok);
        c.Op(Fmt("%s '%s'", size ? "size" : "duration", t.c_str()), true);
        auto r = size ? MemorySize::ParseBytes(t) : TimeDuration::Parse(t);
        VF_EXPECT(r.ok() == ok, "quantity-accept", "'%s' is %s", t.c_str(), r.ok() ? Fmt("read as %lld", (long long)r.value()).c_str() : "refused");
        if (ok) VF_EXPECT(r.value() == want, "quantity-value", "'%s' is read as %lld, expected %lld", t.c_str(), (long long)r.value(), (long long)want);
    }
}

VF_SCENARIO(settings, 40000, 800000) {
    Prepare();
    std::map<std::string, std::string> given;
    Model m = Defaults();
    for (int n = c.rng.Chance(0.05) ? 0 : c.rng.Range(1, c.rng.Chance(0.3) ? 40 : 6); n-- > 0;) Good(c, &given, &m);
    // keys no setting has
    for (int n = c.rng.Chance(0.7) ? 0 : c.rng.Range(1, 3); n-- > 0;) {
        std::string k = c.rng.Chance(0.5) ? "x." + c.rng.Ascii(5) : c.rng.Of<const char*>({"Bucket", "bucket ", "target-file-sizes", "merge.engine", "blob-as-descriptor", "bucket-key", "manifest", "snapshot.num-retained"});
        given[k] = c.rng.Ascii(4);
    }
    std::string all;
    for (auto& kv : given) all += kv.first + "=" + kv.second + ";";
    c.Op(all, true);
    if (c.rng.Chance(0.25)) {
        auto bad = given;
        std::string what = Bad(c, &bad);
        auto r = CoreOptions::FromMap(bad);
        VF_EXPECT(!r.ok(), "accepted", "the option %s is accepted", what.c_str());
    }
    auto r = CoreOptions::FromMap(given);
    VF_EXPECT(r.ok(), "refused", "good options are refused: %s", r.status().ToString().c_str());
    Same(c, r.value(), m, given, "options");
    // which file system a path goes to
    std::string usual = m.str["file-system"] == "local" ? "nobody" : m.str["file-system"];  // the real one does not tell
    g_asked = "nobody";
    auto e = r.value().GetFileSystem()->Exists("zz://h/p");
    VF_EXPECT(g_asked == usual && (e.ok() || usual == "nobody"), "file-system", "a path of no known scheme goes to '%s', expected '%s'", g_asked.c_str(), usual.c_str());
    if (c.rng.Chance(0.3)) {
        auto mine = std::make_shared<NamedFs>("mine");
        auto s = CoreOptions::FromMap(given, {}, mine);
        VF_EXPECT(s.ok() && s.value().GetFileSystem() == mine, "file-system", "the given file system is not used");
        auto t = CoreOptions::FromMap(given, {{"zz", "stwo"}});
        VF_EXPECT(t.ok(), "refused", "good options with a scheme map are refused");
        auto x = t.value().GetFileSystem()->Exists("zz://h/p");
        VF_EXPECT(x.ok() && g_asked == "stwo", "file-system", "a mapped scheme goes to '%s'", g_asked.c_str());
        g_asked = "nobody";
        auto y = t.value().GetFileSystem()->Exists("yy://h/p");
        VF_EXPECT((y.ok() || usual == "nobody") && g_asked == usual, "file-system", "an unmapped scheme goes to '%s'", g_asked.c_str());
    }
    // external paths
    auto paths = r.value().CreateExternalPaths();
    int strategy = (int)m.num["data-file.external-paths.strategy"];
    if (strategy == (int)ExternalPathStrategy::SPECIFIC_FS) VF_EXPECT(!paths.ok(), "external-paths", "an unsupported strategy gives paths");
    else if (!m.external || strategy == (int)ExternalPathStrategy::NONE) VF_EXPECT(paths.ok() && paths.value().empty(), "external-paths", "external paths without being asked for");
    else {
        std::vector<std::string> want;
        std::string cur;
        for (char ch : *m.external + ",") {
            if (ch == ',') want.push_back(cur), cur.clear();
            else if (ch != ' ') cur += ch;
        }
        VF_EXPECT(paths.ok() && paths.value() == want, "external-paths", "wrong external paths for '%s'", m.external->c_str());
    }
    // copies
    CoreOptions copy(r.value());
    Same(c, copy, m, given, "a copy");
    std::map<std::string, std::string> given2;
    Model m2 = Defaults();
    for (int n = c.rng.Range(1, 6); n-- > 0;) Good(c, &given2, &m2);
    auto r2 = CoreOptions::FromMap(given2);
    VF_EXPECT(r2.ok(), "refused", "good options are refused: %s", r2.status().ToString().c_str());
    copy = r2.value();
    Same(c, copy, m2, given2, "after assignment");
    Same(c, r.value(), m, given, "the source of a copy that was overwritten");
}

VF_SCENARIO(fields, 30000, 600000) {
    Prepare();
    std::map<std::string, std::string> given, agg, groups;
    std::map<std::string, bool> retract;
    std::vector<std::string> names;
    for (int n = c.rng.Range(1, 5); n-- > 0;) names.push_back(c.rng.Of<const char*>({"f", "f1", "f11", "1", "a.b", "sequence-group", "default", "x", "agg", "fields"}));
    for (auto& f : names) {
        if (c.rng.Chance(0.5)) given["fields." + f + ".aggregate-function"] = agg[f] = c.rng.Of<const char*>({"sum", "max", "last_value", "x"});
        if (c.rng.Chance(0.5)) { bool v = c.rng.Chance(0.6); retract[f] = v; given["fields." + f + ".ignore-retract"] = v ? "true" : "no"; }
        if (c.rng.Chance(0.5)) {
            std::string k = f;
            for (int n = c.rng.Below(3); n-- > 0;) k += "," + names[c.rng.Below(names.size())];
            given["fields." + k + ".sequence-group"] = groups[k] = c.rng.Of<const char*>({"a", "a,b", "c"});
        }
    }
    bool bad = c.rng.Chance(0.1);
    if (bad) given["fields.broken.ignore-retract"] = "perhaps";
    if (c.rng.Chance(0.3)) given["other.f.sequence-group"] = "z", given["other.f.aggregate-function"] = "z";
    std::string all;
    for (auto& kv : given) all += kv.first + "=" + kv.second + ";";
    c.Op(all, !given.empty());
    auto r = CoreOptions::FromMap(given);
    VF_EXPECT(r.ok(), "refused", "good options are refused: %s", r.status().ToString().c_str());
    for (const char* f : {"f", "f1", "f11", "1", "a.b", "sequence-group", "default", "x", "agg", "fields", "none"}) {
        auto a = r.value().GetFieldAggFunc(f);
        VF_EXPECT(a.ok() && a.value().has_value() == (agg.count(f) > 0) && (!agg.count(f) || *a.value() == agg[f]), "aggregate", "wrong aggregate function of '%s'", f);
        auto i = r.value().FieldAggIgnoreRetract(f);
        VF_EXPECT(i.ok() && i.value() == (retract.count(f) && retract[f]), "ignore-retract", "wrong ignore-retract of '%s'", f);
    }
    if (bad) VF_EXPECT(!r.value().FieldAggIgnoreRetract("broken").ok(), "accepted", "ignore-retract=perhaps is accepted");
    VF_EXPECT(r.value().GetFieldsSequenceGroups() == groups, "sequence-groups", "%zu sequence groups, expected %zu", r.value().GetFieldsSequenceGroups().size(), groups.size());
}
