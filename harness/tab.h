// Table kit: a small file format kept by the harness, and a row-level client of the public
// write / commit / scan / read API.
//
// A file of the format "vfmt" holds a ticket, a row count, filler in proportion to the data and a
// footer; the columns themselves stay in this process under the ticket. A file that was not
// written completely, was truncated or altered does not match its footer and is refused.
#pragma once
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <vector>

#include "arrow/api.h"
#include "arrow/c/abi.h"
#include "arrow/c/bridge.h"
#include "paimon/commit_message.h"
#include "paimon/file_store_commit.h"
#include "paimon/file_store_write.h"
#include "paimon/predicate/predicate.h"
#include "paimon/reader/batch_reader.h"
#include "paimon/record_batch.h"
#include "paimon/result.h"
#include "paimon/table/source/plan.h"
#include "paimon/table/source/split.h"
#include "paimon/table/source/table_scan.h"

namespace tab {
using paimon::Result;
using paimon::Status;
using Opts = std::map<std::string, std::string>;

// One value as text: ints in decimal, strings as they are; nullopt is null.
using Cell = std::optional<std::string>;
using Row = std::vector<Cell>;
std::string Show(const Row& r);

// drops the columns kept for all tickets (call between cases)
void Forget();
// reader knobs
void SetReaderBatch(int rows);       // 0: as asked
void SetPreciseSelection(bool on);   // readers return exactly the selected rows
void SetStripeRows(int rows);        // rows per pruning unit for predicates, 0: never prune
int64_t BytesPerRow();
void SetBytesPerRow(int64_t n);

// A file system named "vfs": the local one, with a say at every operation. The hook is called before
// and after each; an error it returns before is reported instead of doing the operation, one it
// returns after is reported although the operation was done.
struct FsEvent {
    const char* op;
    std::string path, path2;
    bool after;
};
using FsHook = std::function<Status(const FsEvent&)>;
void SetFsHook(FsHook hook);

struct Spec {
    std::shared_ptr<arrow::Schema> schema;
    std::vector<std::string> partition_keys, primary_keys;
    Opts options;
};

std::shared_ptr<arrow::Array> MakeArray(const std::shared_ptr<arrow::Schema>& schema, const std::vector<Row>& rows);
std::string CellText(const arrow::Array& a, int64_t i, bool* is_null);
std::vector<Row> ToRows(const arrow::StructArray& a);

class Table {
 public:
    // creates warehouse/db.db/t
    static Result<std::unique_ptr<Table>> Create(const std::string& warehouse, const Spec& spec);
    static std::unique_ptr<Table> At(const std::string& path, const Spec& spec);

    const std::string& path() const { return path_; }
    const Spec& spec() const { return spec_; }
    Opts WithFormat(const Opts& more = {}) const;

    Result<std::unique_ptr<paimon::FileStoreWrite>> NewWrite(const std::string& user, bool streaming, bool ignore_previous = false, const Opts& more = {}) const;
    Result<std::unique_ptr<paimon::FileStoreCommit>> NewCommit(const std::string& user, bool ignore_empty, const Opts& more = {}) const;
    Result<std::unique_ptr<paimon::RecordBatch>> Batch(const std::vector<Row>& rows, const std::vector<paimon::RecordBatch::RowKind>& kinds, const Opts& partition, int bucket) const;

    struct ReadSpec {
        std::vector<std::string> columns;  // empty: all
        std::shared_ptr<paimon::Predicate> predicate;
        bool filter = false, prefetch = false, multi_thread = false;
        Opts options;
    };
    Result<std::unique_ptr<paimon::TableScan>> NewScan(bool streaming, const Opts& more, const std::shared_ptr<paimon::Predicate>& predicate = nullptr,
                                                       const std::vector<Opts>& partitions = {}, std::optional<int> bucket = std::nullopt, std::optional<int> limit = std::nullopt) const;
    // rows with the row kind as first cell
    Result<std::vector<Row>> Read(const std::vector<std::shared_ptr<paimon::Split>>& splits, const ReadSpec& rs) const;
    Result<std::vector<Row>> Read(const std::vector<std::shared_ptr<paimon::Split>>& splits) const { return Read(splits, ReadSpec()); }
    Result<std::vector<Row>> ReadSnapshot(std::optional<int64_t> snapshot) const;

 private:
    std::string path_;
    Spec spec_;
};
}  // namespace tab
