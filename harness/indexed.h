// File indexes for the files of a random table, and deletion vectors over them.
#pragma once
#include <algorithm>
#include <fstream>

#include "arrow/c/bridge.h"
#include "filters.h"
#include "paimon/common/file_index/bsi/bit_slice_index_roaring_bitmap.h"
#include "paimon/core/io/data_file_meta.h"
#include "paimon/core/table/sink/commit_message_impl.h"
#include "paimon/core/table/source/data_split_impl.h"
#include "paimon/file_index/file_indexer.h"
#include "paimon/file_index/file_indexer_factory.h"
#include "paimon/memory/bytes.h"
#include "paimon/utils/roaring_bitmap32.h"
#include "xxhash.h"

namespace indexed {
using namespace filters;

template <typename T>
inline void Be(std::string* s, T v) {
    for (int i = sizeof(T) - 1; i >= 0; i--) *s += (char)((uint64_t)v >> (8 * i));
}
inline void Utf(std::string* s, const std::string& v) {
    Be<uint16_t>(s, v.size());
    *s += v;
}
inline int64_t LongHash(int64_t k) {
    uint64_t key = k;
    auto shr = [](uint64_t v, int n) { return (uint64_t)((int64_t)v >> n); };
    key = ~key + (key << 21);
    key ^= shr(key, 24);
    key = key + (key << 3) + (key << 8);
    key ^= shr(key, 14);
    key = key + (key << 2) + (key << 4);
    key ^= shr(key, 28);
    return key + (key << 31);
}
inline int64_t Ticks(const Col& c, const std::string& v) {  // milliseconds up to milliseconds, else microseconds
    int64_t x = std::stoll(v);
    if (c.kind != pred::TS) return x;
    if (c.p == 0) return x * 1000;
    if (c.p <= 2) return x;
    return x >= 0 ? x / 1000 : -((-x + 999) / 1000);
}

struct Indexed : Filters {
    using Filters::Filters;
    bool deletions = false;
    std::string hidden;                     // where deletion files go
    std::map<std::string, int> plan;        // column -> bit mask of index kinds
    std::map<std::string, std::vector<Row>> file_rows;
    std::map<std::string, DeletionFile> deleted;
    std::set<Row> gone;
    int made = 0;

    ~Indexed() override { tab::SetPreciseSelection(false); }
    void MoreOptions(Opts* o) override {
        for (auto& x : cols)
            if (c.rng.Chance(0.6)) plan[x.name] = c.rng.Range(1, 7);
        tab::SetPreciseSelection(c.rng.Chance(0.3));
    }
    bool Gone(const Row& r) override { return gone.count(r) > 0; }

    std::string BitmapIndex(const Col& x, const std::vector<Cell>& v) {
        Opts o;
        if (c.rng.Chance(0.5)) o["version"] = c.rng.Chance(0.5) ? "1" : "2";
        if (c.rng.Chance(0.5)) o["index-block-size"] = c.rng.Of<const char*>({"80b", "120b", "1kb"});
        auto ix = FileIndexerFactory::Get("bitmap", o);
        VF_EXPECT(ix.ok() && ix.value(), "bitmap-create", "%s", S(ix.status()).c_str());
        auto schema = arrow::schema({arrow::field(x.name, x.Type())});
        ::ArrowSchema cs;
        (void)arrow::ExportSchema(*schema, &cs);
        auto w = ix.value()->CreateWriter(&cs, pool);
        VF_EXPECT(w.ok(), "bitmap-writer", "%s", S(w.status()).c_str());
        for (size_t i = 0; i < v.size();) {
            size_t n = std::min<size_t>(v.size() - i, c.rng.Range(1, 5));
            std::vector<Row> rows;
            for (size_t k = 0; k < n; k++) rows.push_back({v[i + k]});
            auto a = tab::MakeArray(schema, rows);
            ::ArrowArray ca;
            (void)arrow::ExportArray(*a, &ca);
            Status s = w.value()->AddBatch(&ca);
            VF_EXPECT(s.ok(), "bitmap-add", "%s", S(s).c_str());
            i += n;
        }
        auto b = w.value()->SerializedBytes();
        VF_EXPECT(b.ok(), "bitmap-bytes", "%s", S(b.status()).c_str());
        return std::string(b.value()->data(), b.value()->size());
    }
    std::string BsiIndex(const Col& x, const std::vector<Cell>& v) {
        std::string out;
        Be<int8_t>(&out, 1);
        Be<int32_t>(&out, v.size());
        for (int sign : {1, -1}) {
            int64_t lo = INT64_MAX, hi = 0;
            for (auto& cell : v)
                if (cell && (Ticks(x, *cell) < 0) == (sign < 0)) {
                    int64_t a = std::llabs(Ticks(x, *cell));
                    lo = std::min(lo, a), hi = std::max(hi, a);
                }
            Be<int8_t>(&out, lo != INT64_MAX || hi != 0);
            if (lo == INT64_MAX && hi == 0) continue;
            auto ap = BitSliceIndexRoaringBitmap::Appender::Create(lo, hi);
            VF_EXPECT(ap.ok(), "bsi-appender", "%s", S(ap.status()).c_str());
            for (size_t i = 0; i < v.size(); i++)
                if (v[i] && (Ticks(x, *v[i]) < 0) == (sign < 0)) {
                    Status s = ap.value()->Append(i, std::llabs(Ticks(x, *v[i])));
                    VF_EXPECT(s.ok(), "bsi-append", "%s", S(s).c_str());
                }
            auto b = ap.value()->Serialize(pool);
            out.append(b->data(), b->size());
        }
        return out;
    }
    std::string BloomIndex(const Col& x, const std::vector<Cell>& v) {
        int k = c.rng.Range(1, 6), bytes = c.rng.Of<int>({1, 2, 8, 40, 200});
        std::string bits(bytes, '\0'), out;
        for (auto& cell : v) {
            if (!cell) continue;
            int64_t h;
            if (x.kind == pred::STR || x.kind == pred::BIN) h = XXH64(cell->data(), cell->size(), 0);
            else if (x.kind == pred::F32) { float f = std::stof(*cell); int32_t b; memcpy(&b, &f, 4); h = LongHash(b); }
            else if (x.kind == pred::F64) { double f = std::stod(*cell); int64_t b; memcpy(&b, &f, 8); h = LongHash(b); }
            else h = LongHash(Ticks(x, *cell));
            uint32_t h1 = (uint32_t)h, h2 = (uint32_t)((uint64_t)h >> 32);
            for (int i = 1; i <= k; i++) {
                int32_t m = (int32_t)(h1 + i * h2);
                if (m < 0) m = ~m;
                int pos = m % (bytes * 8);
                bits[pos >> 3] |= (char)(1 << (pos & 7));
            }
        }
        Be<int32_t>(&out, k);
        return out + bits;
    }
    std::string Container(const std::vector<Row>& rows) {
        struct One { std::string type, bytes; bool empty; };
        std::vector<std::pair<std::string, std::vector<One>>> all;
        for (size_t i = 0; i < cols.size(); i++) {
            auto it = plan.find(cols[i].name);
            if (it == plan.end()) continue;
            const Col& x = cols[i];
            std::vector<Cell> v;
            bool any = false, extreme = false;
            for (auto& r : rows) v.push_back(r[i]), any = any || r[i], extreme = extreme || (x.kind == pred::I64 && r[i] && *r[i] == std::to_string(INT64_MIN));
            std::vector<One> list;
            bool nano = x.kind == pred::TS && x.p == 3;  // these indexes keep microseconds
            bool integral = x.kind == pred::I8 || x.kind == pred::I16 || x.kind == pred::I32 || x.kind == pred::I64 || x.kind == pred::DATE || (x.kind == pred::TS && !nano);
            if ((it->second & 1) && (integral || x.kind == pred::BOOL || x.kind == pred::STR)) list.push_back({"bitmap", BitmapIndex(x, v), !any && c.rng.Chance(0.3)});
            if ((it->second & 2) && integral && !extreme) list.push_back({"bsi", BsiIndex(x, v), !any && c.rng.Chance(0.3)});
            if ((it->second & 4) && x.kind != pred::BOOL && x.kind != pred::DEC) list.push_back({"bloom-filter", BloomIndex(x, v), !any});
            if (c.rng.Chance(0.05)) list.push_back({"not-known-here", c.rng.Ascii(5, "abc"), false});
            if (!list.empty() || c.rng.Chance(0.1)) all.emplace_back(x.name, list);
        }
        std::string body;
        auto head = [&](int head_length) {
            std::string h;
            body.clear();
            Be<int64_t>(&h, 1493475289347502LL);
            Be<int32_t>(&h, 1);
            Be<int32_t>(&h, head_length);
            Be<int32_t>(&h, all.size());
            for (auto& col : all) {
                Utf(&h, col.first);
                Be<int32_t>(&h, col.second.size());
                for (auto& one : col.second) {
                    Utf(&h, one.type);
                    Be<int32_t>(&h, one.empty ? -1 : head_length + (int)body.size());
                    Be<int32_t>(&h, one.empty ? 0 : (int)one.bytes.size());
                    if (!one.empty) body += one.bytes;
                }
            }
            Be<int32_t>(&h, 0);
            return h;
        };
        int n = head(0).size();
        std::string h = head(n);
        return h + body;
    }
    std::string DirOf(const std::string& name) {
        for (auto it = fs::recursive_directory_iterator(t->path()); it != fs::recursive_directory_iterator(); ++it)
            if (it->path().filename() == name) return it->path().parent_path();
        VF_EXPECT(false, "file-missing", "%s is not under the table", name.c_str());
        return "";
    }
    void Prepared(const std::vector<std::shared_ptr<CommitMessage>>& messages) override {
        for (auto& m : messages) {
            auto* impl = dynamic_cast<CommitMessageImpl*>(m.get());
            VF_EXPECT(impl != nullptr, "message-kind", "not a commit message of this library");
            for (auto& meta : impl->GetNewFilesIncrement().NewFiles()) {
                std::string dir = DirOf(meta->file_name);
                DataSplitImpl::Builder b(impl->Partition(), impl->Bucket(), dir, {meta});
                auto split = b.WithSnapshot(1).WithTotalBuckets(impl->TotalBuckets()).RawConvertible(!pk).Build();
                VF_EXPECT(split.ok(), "split-build", "%s", S(split.status()).c_str());
                auto rows = t->Read({split.value()});
                VF_EXPECT(rows.ok(), "read-file", "%s", S(rows.status()).c_str());
                std::vector<Row> plain;
                for (auto& r : rows.value()) plain.push_back(Row(r.begin() + 1, r.end()));
                VF_EXPECT((int64_t)plain.size() == meta->row_count, "file-rows", "%zu rows in a file of %lld", plain.size(), (long long)meta->row_count);
                file_rows[meta->file_name] = plain;
                if (plan.empty() || c.rng.Chance(0.2)) continue;
                std::string ix = Container(plain);
                made++;
                if (c.rng.Chance(0.5)) {
                    meta->embedded_index = std::shared_ptr<Bytes>(Bytes::AllocateBytes(ix, pool.get()));
                } else {
                    std::string name = meta->file_name + ".index";
                    std::ofstream(dir + "/" + name, std::ios::binary) << ix;
                    if (c.rng.Chance(0.2)) meta->extra_files.push_back(std::nullopt);
                    meta->extra_files.push_back(name);
                    if (c.rng.Chance(0.2)) meta->extra_files.push_back("other.file");
                }
            }
        }
    }
    // some rows of some files are deleted from now on
    void Delete() {
        hidden = root + "/dv";
        fs::create_directories(hidden);
        std::string file;
        Be<int8_t>(&file, 1);
        std::string name = hidden + Fmt("/index-%d", (int)deleted.size());
        std::map<std::string, DeletionFile> fresh;
        for (auto& kv : file_rows) {
            if (c.rng.Chance(0.4)) continue;
            RoaringBitmap32 bm;
            double p = c.rng.Of<double>({0, 0.1, 0.5, 1});
            int64_t n = 0;
            for (size_t i = 0; i < kv.second.size(); i++)
                if (c.rng.Chance(p)) bm.Add(i), n++, gone.insert(kv.second[i]);
            auto bytes = bm.Serialize(pool.get());
            int64_t at = file.size();
            Be<int32_t>(&file, bytes->size() + 4);
            Be<int32_t>(&file, 1581511376);
            file.append(bytes->data(), bytes->size());
            Be<int32_t>(&file, 0);  // checksum, not read
            fresh.emplace(kv.first, DeletionFile(name, at, bytes->size() + 4, c.rng.Chance(0.5) ? std::optional<int64_t>(n) : std::nullopt));
        }
        std::ofstream(name, std::ios::binary) << file;
        deleted = fresh;
        c.Op(Fmt("%zu rows deleted", gone.size()));
    }
    std::vector<std::shared_ptr<Split>> Splits(const std::vector<std::shared_ptr<Split>>& splits) override {
        std::vector<std::shared_ptr<Split>> out;
        for (auto& sp : splits) {
            std::shared_ptr<Split> one = sp;
            auto d = std::dynamic_pointer_cast<DataSplitImpl>(sp);
            VF_EXPECT(d != nullptr, "split-kind", "not a data split");
            if (!deleted.empty()) {
                std::vector<std::optional<DeletionFile>> dv;
                for (auto& f : d->DataFiles()) {
                    auto it = deleted.find(f->file_name);
                    dv.push_back(it == deleted.end() ? std::optional<DeletionFile>() : it->second);
                }
                auto files = d->DataFiles();
                DataSplitImpl::Builder b(d->Partition(), d->Bucket(), d->BucketPath(), std::move(files));
                auto r = b.WithSnapshot(d->SnapshotId()).WithTotalBuckets(d->TotalBuckets()).RawConvertible(d->RawConvertible()).WithDataDeletionFiles(dv).Build();
                VF_EXPECT(r.ok(), "split-build", "%s", S(r.status()).c_str());
                one = r.value();
            }
            if (c.rng.Chance(0.3)) {
                auto bytes = Split::Serialize(one, pool);
                VF_EXPECT(bytes.ok(), "split-serialize", "%s", S(bytes.status()).c_str());
                auto back = Split::Deserialize(bytes.value().data(), bytes.value().size(), pool);
                VF_EXPECT(back.ok(), "split-deserialize", "%s", S(back.status()).c_str());
                one = back.value();
            }
            out.push_back(one);
        }
        return out;
    }
    void Go(bool with_deletions) {
        int n = c.rng.Range(1, 4);
        for (int i = 0; i < n; i++) Step();
        if (with_deletions) Delete();
        int m = c.rng.Range(5, 12);
        for (int i = 0; i < m; i++) CheckFilter(c.rng.Chance(0.5) ? latest : c.rng.Range(1, latest));
        auto bad = fsguard::TakeRefused();
        VF_EXPECT(bad.empty(), "escaped", "%s", bad.empty() ? "" : bad[0].c_str());
        c.Op(Fmt("%d files with an index", made));
    }
};
}  // namespace indexed

