"""The checks: drivers, sources and the rule that makes a case count."""

# The sources of /repo that need neither Arrow nor a file-format library.
BASE = """
common/data/binary_section.cpp common/data/binary_string.cpp common/data/blob_descriptor.cpp
common/data/timestamp.cpp common/defs.cpp common/executor/executor.cpp
common/factories/factory_creator.cpp common/factories/io_hook.cpp common/factories/singleton.cpp
common/file_index/bitmap/bitmap_file_index_meta_v1.cpp
common/file_index/bitmap/bitmap_index_result.cpp
common/file_index/bsi/bit_slice_index_roaring_bitmap.cpp common/file_index/file_index_reader.cpp
common/file_index/file_index_result.cpp common/file_index/file_indexer_factory.cpp
common/format/column_stats.cpp common/format/file_format_factory.cpp
common/fs/file_system_factory.cpp common/fs/resolving_file_system.cpp
common/global_index/bitmap_global_index_result.cpp
common/global_index/bitmap_vector_search_global_index_result.cpp
common/global_index/global_index_result.cpp common/global_index/global_indexer_factory.cpp
common/io/buffered_input_stream.cpp common/io/byte_array_input_stream.cpp
common/io/data_input_stream.cpp common/io/data_output_stream.cpp
common/io/memory_segment_output_stream.cpp common/io/offset_input_stream.cpp
common/memory/bytes.cpp common/memory/memory_pool.cpp common/memory/memory_segment.cpp
common/memory/memory_segment_utils.cpp common/metrics/metrics_impl.cpp common/types/row_kind.cpp
common/utils/bloom_filter64.cpp common/utils/delta_varint_compressor.cpp common/utils/range.cpp
common/utils/roaring_bitmap32.cpp common/utils/roaring_bitmap64.cpp common/utils/status.cpp
core/catalog/identifier.cpp core/manifest/file_kind.cpp core/manifest/file_source.cpp
core/operation/commit_context.cpp core/operation/scan_context.cpp core/table/source/plan_impl.cpp
core/table/source/startup_mode.cpp core/utils/partition_path_utils.cpp
fs/local/local_file.cpp
""".split()

CHECKS = {}
NOT_APPLICABLE = {}


def check(pid, drivers, rule, level="exploration", assumptions=(), technique="", note=""):
    CHECKS[pid] = {"drivers": drivers, "rule": rule, "level": level,
                   "assumptions": list(assumptions), "technique": technique, "note": note}


def drv(name, flavor, srcs, repo, shards=8, weight=1, **kw):
    d = {"name": name, "flavor": flavor, "srcs": srcs, "repo": repo, "shards": shards, "weight": weight}
    d.update(kw)
    return d

ROARING = ["/repo/third_party/roaring_bitmap/roaring.cpp"]
XXHASH = ["/repo/third_party/xxhash/xxhash.c"]

A_ASSUME = ["the C++ toolchain and its sanitizer run-time are trusted",
            "the reference models in /verif/harness are trusted"]

check("C01", [drv("c01", "asan", ["c01.cpp"], [
    "common/io/buffered_input_stream.cpp", "common/io/byte_array_input_stream.cpp",
    "common/io/data_input_stream.cpp", "common/io/data_output_stream.cpp",
    "common/io/memory_segment_output_stream.cpp", "common/memory/bytes.cpp",
    "common/memory/memory_pool.cpp", "common/memory/memory_segment.cpp",
    "common/memory/memory_segment_utils.cpp", "common/utils/status.cpp"])],
    "Random typed sequences (boundary-heavy integers, float bit patterns, strings and blocks of 0..65535 bytes) are written in either byte order through segment sizes 1..65536 or a device with a byte limit, compared with an independent encoder and read back whole and truncated. Non-trivial: at least one item was written or read; distinct by the full item sequence, order and layout.",
    assumptions=A_ASSUME, technique="address/UB sanitizers with an online round-trip and byte-layout monitor",
    note="Held on the executed sequences only; strings longer than two-byte lengths are only checked for refusal on the stream writer.")

check("C02", [drv("c02", "asan", ["c02.cpp"], [
    "common/io/buffered_input_stream.cpp", "common/io/byte_array_input_stream.cpp",
    "common/io/offset_input_stream.cpp", "common/memory/bytes.cpp", "common/memory/memory_pool.cpp",
    "common/utils/status.cpp", "common/utils/path_util.cpp", "common/utils/string_utils.cpp", "common/fs/file_system.cpp",
    "common/factories/io_hook.cpp", "common/factories/singleton.cpp", "common/factories/factory_creator.cpp",
    "fs/local/local_file.cpp", "fs/local/local_file_system.cpp"])],
    "Random histories of seek, sequential, positional and asynchronous reads over stacks of array, local-file, window and buffer streams, with edge offsets, sources beyond 4 GiB and one injected failure of the wrapped source; every byte, position, length and refusal is compared with a plain array. Non-trivial: a history with a seek or non-empty read; distinct by the history and stack.",
    assumptions=A_ASSUME, technique="address/UB sanitizers with an online reference-array monitor",
    note="Held on the executed histories only.")

MEM = ["common/memory/bytes.cpp", "common/memory/memory_pool.cpp",
       "common/memory/memory_segment.cpp", "common/memory/memory_segment_utils.cpp",
       "common/utils/status.cpp"]

check("C03", [drv("c03", "asan", ["c03.cpp"], MEM[:2] + MEM[-1:], shards=4, weight=2),
              drv("c03", "tsan", ["c03.cpp"], MEM[:2] + MEM[-1:], shards=4, weight=2)],
      "Random histories of allocate, reallocate and free (boundary sizes and alignments), byte-buffer ownership moves, and 2..8 threads hammering one pool between barriers; usage, peak, alignment and contents are compared with the harness's own books. Non-trivial: at least one allocation; distinct by history.",
      assumptions=A_ASSUME, technique="address and thread sanitizers with an accounting monitor",
      note="Held on the executed histories and schedules only; the transient overlap inside a moving reallocation is allowed to count towards the peak.")

check("C04", [drv("c04", "asan", ["c04.cpp"], MEM + [
    "common/data/binary_section.cpp", "common/data/binary_string.cpp",
    "common/io/memory_segment_output_stream.cpp"])],
      "Random contents (repetitive, binary, valid and broken multi-byte text) placed at random offsets of random segment chains; every operation is compared with the flat string. Non-trivial: any placed content; distinct by content, layout and operations.",
      assumptions=A_ASSUME, technique="address/UB sanitizers with an online flat-string monitor",
      note="Held on the executed contents and layouts only; chains have equal-size segments as the writer produces them.")

check("C23", [drv("c23", "asan", ["c23.cpp"], MEM + [
    "common/data/binary_section.cpp", "common/data/binary_string.cpp"])],
      "Random byte strings hashed contiguous at every alignment, inside one segment and across segment chains, compared with an independent murmur3 implementation. Non-trivial: non-empty input; distinct by bytes and layout.",
      assumptions=A_ASSUME, technique="address/UB sanitizers with a differential hash monitor",
      note="Held on the executed inputs only.")

IN = ["common/io/byte_array_input_stream.cpp", "common/io/data_input_stream.cpp",
      "common/io/memory_segment_output_stream.cpp"]
BITMAPS = ["common/utils/roaring_bitmap32.cpp", "common/utils/roaring_bitmap64.cpp"] + ROARING

check("C05", [drv("c05", "asan", ["c05.cpp"], MEM + IN + BITMAPS)],
      "Random histories of 4..40 operations over three bitmaps (single ids, ranges, flips, algebra, copies, moves, stream and whole-buffer serialization) at container, 2^16, 2^31 and 2^32 boundaries; after every operation all three are compared with an interval-set model. Non-trivial: at least one modifying operation; distinct by history.",
      assumptions=A_ASSUME, technique="address/UB sanitizers with an online interval-set monitor",
      note="Held on the executed histories only; ids are non-negative, as row ids are, and full iteration is checked for the first 400 elements.")

check("C06", [drv("c06", "asan", ["c06.cpp"], MEM + IN + BITMAPS + [
    "common/file_index/bsi/bit_slice_index_roaring_bitmap.cpp"])],
      "Random columns of values and nulls in random declared ranges (single value, full 63 bits, powers of two); all five comparisons at about 24 probe values per column are compared with a scan, before and after serialization. Non-trivial: a declared range accepted and queried; distinct by range and rows.",
      assumptions=A_ASSUME, technique="address/UB sanitizers with a scan-differential monitor",
      note="Held on the executed columns and probes only.")

GLOBAL = ["common/global_index/bitmap_global_index_result.cpp",
          "common/global_index/bitmap_vector_search_global_index_result.cpp",
          "common/global_index/global_index_result.cpp", "common/utils/range.cpp"]

check("C08", [drv("c08", "asan", ["c08.cpp"], MEM + IN + BITMAPS + GLOBAL)],
      "Random expressions of 1..6 unions, intersections, shifts and serializations over plain, scored, range-built, failing and user-defined results at 2^16, 2^31, 2^32 and 2^63 boundaries; each result's iteration, ranges, scores and errors are compared with an id-to-score map. Non-trivial: at least one operation applied; distinct by expression and ids.",
      assumptions=A_ASSUME, technique="address/UB sanitizers with an online id-to-score monitor",
      note="Held on the executed expressions only; ids and shifted ids are within the non-negative 64-bit range.")

check("C09", [drv("c09", "asan", ["c09.cpp"], ["common/utils/range.cpp", "common/utils/status.cpp"])],
      "Random ranges that touch, nest, coincide and reach the largest id; every operation is compared with interval sets, grouping with connected components. Non-trivial: any arithmetic case, or a grouping of two or more items; distinct by the ranges.",
      assumptions=A_ASSUME, technique="UB sanitizer with an online integer-set monitor",
      note="Held on the executed ranges only; ids are non-negative.")

check("C10", [drv("c10", "asan", ["c10.cpp"], MEM + ["common/utils/bloom_filter64.cpp"])],
      "Random sizings (1..100000 items, rates 0.9..1e-12) and boundary-heavy hashes; every added key is probed at once, later and after rebuilding at an offset, every bit is compared with the storage format's positions, and false positives are counted over 60000 probes. Non-trivial: at least one key added; distinct by sizing and keys.",
      assumptions=A_ASSUME, technique="address/UB sanitizers with an online bit-set monitor",
      note="Held on the executed filters only; the rate clause allows 1.5 times the configured rate plus six standard deviations.")

check("C11", [drv("c11", "asan", ["c11.cpp"], ["common/utils/delta_varint_compressor.cpp", "common/utils/status.cpp"])],
      "Random sequences (extremes, small steps, random 64-bit) compressed and compared byte for byte with an independent encoder, decompressed whole and cut; random, mutated and over-long byte strings decompressed. Non-trivial: non-empty input; distinct by input.",
      assumptions=A_ASSUME, technique="address/UB sanitizers with a differential codec monitor",
      note="Held on the executed inputs only; a tenth byte carrying bits beyond 64 may be accepted or refused.")

EXEC = ["common/executor/executor.cpp", "common/utils/status.cpp"]
check("C12", [drv("c12", "asan", ["c12.cpp"], EXEC, shards=4, weight=1),
              drv("c12", "tsan", ["c12.cpp"], EXEC, shards=4, weight=1)],
      "Stress runs with 1..8 workers and 1..4 submitting threads: value, error, exception, move-only and void tasks collected in order; executors destroyed with queued tasks behind a gate; tasks that must all run at once; tasks that add tasks. Every task is counted at its start and end. Non-trivial: at least one task; distinct by configuration and observed parallelism.",
      assumptions=A_ASSUME, technique="thread and address sanitizers with an exactly-once ledger",
      note="Held on the executed schedules only; tasks added while the destructor runs are outside the claim.")

TBB = ["-ltbb"]
check("C13", [drv("c13", "asan", ["c13.cpp"], ["common/utils/status.cpp"] + MEM[:4], shards=4, libs=TBB, env={"TBB_ENABLE_SANITIZERS": "1"}),
              drv("c13", "tsan", ["c13.cpp"], ["common/utils/status.cpp"] + MEM[:4], shards=4, libs=TBB, env={"TBB_ENABLE_SANITIZERS": "1"})],
      "Recorded call/return histories of 2..9 threads on one queue or one map (unique values, colliding keys, torn-write detectors), checked offline for order, exactly-once, real-time freshness, false emptiness and size bounds; plus single-threaded histories against ordinary containers. Non-trivial: every history; distinct by configuration and observed outcome.",
      assumptions=A_ASSUME + ["the history recorder uses relaxed atomics and so hides no race"],
      technique="thread and address sanitizers with an offline linearizability checker over recorded histories",
      note="Held on the executed schedules only; the front pointer of the queue is checked single-threaded, as its lifetime is the caller's duty.")

check("C14", [drv("c14", "asan", ["c14.cpp"], ["common/metrics/metrics_impl.cpp", "common/utils/status.cpp"], shards=4),
              drv("c14", "tsan", ["c14.cpp"], ["common/metrics/metrics_impl.cpp", "common/utils/status.cpp"], shards=4)],
      "Random histories of set, merge, overwrite and collect over three registries with awkward names, compared with maps and with the parsed JSON after each step; threads merging into one registry under an observer, and registries overwriting each other. Non-trivial: at least one update; distinct by history.",
      assumptions=A_ASSUME, technique="thread and address sanitizers with an online map monitor",
      note="Held on the executed histories and schedules only.")

check("C15", [drv("c15", "asan", ["c15.cpp"], ["common/utils/status.cpp"])],
      "Random histories of map operations (including erase through the stored key, self-assignment, copies) compared with an ordered list after each step; random weight lists with zero, exact and oversized weights packed and checked. Non-trivial: any map operation or two or more items; distinct by history or weights.",
      assumptions=A_ASSUME, technique="address/UB sanitizers with an online model monitor",
      note="Held on the executed histories only; weights are non-negative.")

check("C16", [drv("c16", "asan", ["c16.cpp"], ["core/utils/partition_path_utils.cpp", "common/utils/status.cpp"])],
      "Random partition specs of 0..4 keys with dots, slashes, escapes, control bytes, NUL and multi-byte text; each path is split, checked and unescaped, a neighbouring spec must differ, and all 256 byte values are escaped. Non-trivial: at least one key; distinct by spec.",
      assumptions=A_ASSUME, technique="address/UB sanitizers with an online inverse monitor",
      note="Held on the executed specs only.")

check("C21", [drv("c21", "asan", ["c21.cpp"], ["common/utils/status.cpp"])],
      "Random chains of copies, moves, assignments and macro propagation over statuses with every code, messages with awkward bytes and details, results of tracked and move-only values, and scope guards left by return, error and exception; an object ledger counts constructions and destructions. Non-trivial: every case; distinct by the chain.",
      assumptions=A_ASSUME, technique="address/UB sanitizers with an online value and lifetime monitor",
      note="Held on the executed chains only; self-move is outside the claim.")

check("C22", [drv("c22", "asan", ["c22.cpp"], ["common/types/row_kind.cpp", "core/manifest/file_kind.cpp",
    "core/manifest/file_source.cpp", "core/table/source/startup_mode.cpp", "core/catalog/identifier.cpp",
    "common/utils/status.cpp"])],
      "All 256 byte codes, all known names with case and spelling changes, and random identifiers with dots, dollars and system-table suffixes; each is decoded, encoded and compared. Non-trivial: every case; distinct by input.",
      assumptions=A_ASSUME, technique="address/UB sanitizers with an online inverse monitor",
      note="The code ranges are executed exhaustively; names and identifiers are sampled.")

SHIM = ["../shim/mini_arrow.cpp"]
check("C17", [drv("c17", "asan", ["c17.cpp"] + SHIM, MEM + ["common/format/column_stats.cpp", "common/data/decimal.cpp", "common/data/timestamp.cpp"])],
      "Random sequences of values and nulls (type extremes, infinities, subnormals, bytes above 0x7f, instants before the epoch, 38-digit decimals) collected into statistics of each type, starting empty or from given bounds; minimum, maximum and null count are compared with a scan after every value. Non-trivial: at least one value collected; distinct by type, bounds and values.",
      assumptions=A_ASSUME, technique="address/UB sanitizers with an online scan monitor",
      note="Held on the executed sequences only; NaN has no place in the order and is left out.")

check("C18", [drv("c18", "asan", ["c18.cpp"] + SHIM, MEM + ["common/data/decimal.cpp", "common/data/timestamp.cpp", "common/utils/decimal_utils.cpp"])],
      "Random instants over years 0..9999 with boundary-heavy milliseconds and nanoseconds, unit conversions between all unit triples, decimals of all precisions and scales near powers of two and ten, rescaling and parsing; each result is compared with 128-bit integer arithmetic. Non-trivial: every case; distinct by value.",
      assumptions=A_ASSUME, technique="address/UB sanitizers with a 128-bit arithmetic monitor",
      note="Held on the executed values only; conversion of instants before the epoch to whole seconds may round down or toward zero.")

check("C19", [drv("c19", "asan", ["c19.cpp"], "CORE")],
      "Random values of nine stored structures are encoded, decoded from an exact-size buffer and compared; then the bytes are damaged (cut, extended, bits and bytes changed, 32- and 64-bit fields overwritten with extreme values in both byte orders) and decoded under the address sanitizer with the largest single allocation recorded. Non-trivial: every case; distinct by the damaged bytes and outcome.",
      assumptions=A_ASSUME, technique="address/UB sanitizers with an encode-decode monitor and an allocation monitor",
      note="Held on the executed inputs only; the interior of a damaged bitmap or row is not interpreted further than its bounds, and an allocation is out of proportion above 1 MB plus 64 times the input.")

check("C07", [drv("c07", "asan", ["c07.cpp"], "CORE")],
      "Random trees of 1..11 conjunctions and disjunctions over all/none/bitmap/unreadable answers with shared sub-trees, evaluated eagerly and lazily and compared with row masks; value lists; default answers; random value dictionaries of seven types in both metadata versions written, read back at an offset and looked up in random order. Non-trivial: at least one combination or one written value; distinct by tree or dictionary.",
      assumptions=A_ASSUME, technique="address/UB sanitizers with an online row-set monitor",
      note="Held on the executed trees and dictionaries only.")

FS_SRC = ["common/utils/path_util.cpp", "common/utils/string_utils.cpp", "common/utils/status.cpp", "common/fs/file_system.cpp",
          "common/fs/resolving_file_system.cpp", "common/fs/file_system_factory.cpp", "common/factories/factory_creator.cpp",
          "common/factories/io_hook.cpp", "common/factories/singleton.cpp", "fs/local/local_file.cpp", "fs/local/local_file_system.cpp",
          "fs/local/local_file_system_factory.cpp"]
check("C20", [drv("c20", "asan", ["c20.cpp"], "CORE", weight=2),
              drv("c20", "tsan", ["c20.cpp"], FS_SRC + ["common/format/file_format_factory.cpp", "common/file_index/file_indexer_factory.cpp",
                  "common/global_index/global_indexer_factory.cpp"], shards=4)],
      "Random histories of registering, replacing, looking up and listing recording plugins of four kinds under awkward names; path routing by scheme over random scheme maps with every call recorded at the stub it reached; threads racing on the first use of a singleton, on lookups and on the routing cache. Non-trivial: every case; distinct by history.",
      assumptions=A_ASSUME, technique="thread and address sanitizers with recording stand-ins and an online map monitor",
      note="Held on the executed histories and schedules only.")

check("C24", [drv("c24", "asan", ["c24.cpp"], "CORE")],
      "Random builder histories for commit and scan contexts (repeated, reordered and reused calls) compared field by field with what was set last, and plans compared with the splits they were given. Non-trivial: every case; distinct by the built value.",
      assumptions=A_ASSUME, technique="address/UB sanitizers with an online field monitor",
      note="Held on the executed builder histories only.")

check("C25", [drv("c25", "asan", ["c25.cpp", "fsguard.cpp"], "CORE", weight=2, libs=["-ldl"]),
              drv("c25", "tsan", ["c25.cpp", "fsguard.cpp"], FS_SRC, shards=4, libs=["-ldl"])],
      "Random histories of create, write, read, list, rename, delete and atomic store in a scratch directory compared with a tree model after each call; the same histories with one I/O call failing; a store whose bytes become durable only on a successful close; rival threads storing the same path with a pause between check and rename; listings while other threads store, rename and delete beside untouched files. Destructive calls outside the scratch directory are refused by an interposer. Non-trivial: at least one change to the tree; distinct by history and outcome.",
      assumptions=A_ASSUME + ["the scratch directory is on a local filesystem that supports RENAME_NOREPLACE"], technique="thread and address sanitizers with an online tree model, fault injection and a syscall interposer",
      note="Held on the executed histories, fault points and schedules only.")

check("C26", [drv("c26", "asan", ["c26.cpp"], "CORE")],
      "Random paths with schemes, authorities, repeated and trailing slashes, random text for splitting, joining, replacing, trimming and case changes, random number texts, and generated identifiers; each compared with an independent definition. Non-trivial: every case; distinct by input.",
      assumptions=A_ASSUME, technique="address/UB sanitizers with an online reference monitor",
      note="Held on the executed inputs only.")


def table(name, flavor="asan", more=(), **kw):
    """A driver that runs whole tables on the harness's own file format."""
    return drv(name, flavor, [name + ".cpp", "tab.cpp", "fsguard.cpp", "nosleep.cpp"] + list(more), "CORE",
               libs=["-ldl"], light=True, **kw)


T_ASSUME = A_ASSUME + ["the small columnar library in /verif/shim stands in for Arrow, and the harness's file format for ORC, Parquet and Avro"]

check("C27", [table("c27")],
      "Random append tables (0..2 partition keys of five types with null and awkward values, fixed or no buckets, tiny file, manifest and split sizes) run through histories of 2..10 commits, repeated commits, overwrites and partition drops by three users with batch and long-lived writers; after it every snapshot is scanned and read in a random way (projection, batch size, prefetch, serialized splits, partition and bucket filters) and compared with a row-multiset model, and every snapshot file with the model's counts. Non-trivial: at least one write or commit; distinct by the history.",
      assumptions=T_ASSUME, technique="address/UB sanitizers with an online snapshot-history model",
      note="Held on the executed histories only.")

check("C28", [table("c28"), table("c28", "tsan", args=["--scenario", "rivals", "--scale", "0.5"])],
      "Random commit histories in which one file-system operation of a write, commit, overwrite, retry or read fails (before or after taking effect, once or for good), each attempt followed by a full check of the snapshot history and a retry by a new committer; and 2..4 users committing and overwriting at once with delays at the snapshot files, retrying on error, under readers. Non-trivial: an attempt with an injected failure, or a rival run; distinct by the history, fault place and outcome.",
      assumptions=T_ASSUME, technique="address and thread sanitizers with fault injection at the file-system boundary and an offline check of the committed history",
      note="Held on the executed fault points and schedules only; a committer that gets an error retries with the filtering call, as the interface asks.")

check("C29", [table("c29"), table("c29", "tsan", args=["--scale", "0.08"])],
      "Random primary-key tables (deduplicate, partial update with and without sequence groups, aggregation over all functions; partitions, buckets, key types, sequence fields in both orders, delete options) run through histories of 1..6 commits of inserts, updates and deletes with tiny write buffers, after which every snapshot is read in a random way (projection, batch size, both merge algorithms, prefetch, threads, serialized splits, partition and bucket filters) and compared with a per-key merge model. Non-trivial: at least one record written; distinct by the history.",
      assumptions=T_ASSUME, technique="address/UB sanitizers with an online per-key merge model",
      note="Held on the executed histories only. First-row tables are not run (their scan shows only compacted files); records that follow a removing delete of the same key within one flush are not generated, because the flush forgets the delete by design.")

check("C30", [table("c30")],
      "Random append-table histories with 1..4 expirations under random retention settings; after each, the count reported, the snapshots left and their rows are compared with the model and the files on disk with the files that readers of all kept snapshots open. The same with deletes that fail, commits and other expirations in the middle. Non-trivial: at least one snapshot expired; distinct by the history.",
      assumptions=T_ASSUME, technique="address/UB sanitizers with an online retention model, file-system recording and fault injection",
      note="Held on the executed histories and fault points only; the age rule is exercised with snapshots all older or all younger than the limit.")

check("C31", [table("c31")],
      "Random append-table histories with 0..10 stray files of 16 name shapes and random ages planted in the table's and foreign directories, then cleaned with random cut-off times and vetoes; files deleted and reported are compared with the model and every snapshot is read again. The same with failing listings, reads and deletes, and for tables with tags, branches or primary keys, which must be refused. Non-trivial: at least one stray file; distinct by the history.",
      assumptions=T_ASSUME + ["file times are compared at the granularity of seconds that the local file system reports"], technique="address/UB sanitizers with an online model of deletable files and fault injection",
      note="Held on the executed histories and fault points only; deletions outside the scratch directory are refused by an interposer.")

check("C32", [table("c32"), table("c32", "tsan", args=["--scale", "0.1"])],
      "Random append and primary-key tables of 12 column types with clustered and null values, then 4..9 random predicate trees over key, value and partition columns, some negated, given to the scan, the read or both with projections, prefetch, exact filtering and file formats that skip stripes; rows read are compared with the harness's own three-valued evaluation. Non-trivial: some but not all rows match; distinct by the history.",
      assumptions=T_ASSUME + ["no NaN and no negative zero is stored or compared"], technique="address/UB sanitizers with an online model of predicates",
      note="Held on the executed tables and predicates only. String-pattern predicates are not generated.")
check("C33", [table("c33")],
      "Random append and primary-key tables whose data files get bitmap (both versions), bit-slice and bloom-filter indexes, embedded in the file's meta or as a file beside it, or whose splits get deletion vectors for random positions; then random predicate trees as in C32 read through them. Non-trivial: some but not all rows match; distinct by the history.",
      assumptions=T_ASSUME + ["bit-slice and bloom-filter index bytes and index containers come from the harness, as this library writes bitmap indexes only", "deletion vectors are attached to splits by the harness, as this library does not commit them"],
      technique="address/UB sanitizers with an online model of predicates",
      note="Held on the executed files, indexes and predicates only.")
check("C34", [table("c34")],
      "Random histories of 4..14 steps: commits, empty commits, overwrites, drops, expirations and polls of up to a handful of streams started in every mode, some with partition and bucket filters, a fifth of the polls with an injected I/O fault, some tables recreated; every plan is compared with the model's next snapshot. Non-trivial: a plan with rows, an injected fault, an expiration or a refusal; distinct by the history.",
      assumptions=T_ASSUME, technique="address/UB sanitizers with an online history monitor and fault injection",
      note="Held on the executed histories only. Append tables; changelog producers are not implemented in this library.")
check("C35", [table("c35"), table("c35", "tsan", args=["--scale", "0.2"])],
      "Random append tables run through 2..6 rounds of writes and schema changes (columns added at any place, dropped, renamed, names exchanged, reordered, widened, names used again), in a third of the cases with bitmap, bit-slice and bloom-filter indexes and deletion vectors; then 3..8 random predicate trees over the current columns as in C32, compared with a model that carries every row through every change. Non-trivial: a schema change, or some but not all rows match; distinct by the history.",
      assumptions=T_ASSUME + ["schema files are written by the harness, as this library cannot alter a table"],
      technique="address/UB and thread sanitizers with an online model of rows and predicates",
      note="Held on the executed histories only. The library refuses to scan primary-key tables whose schema evolved, so these are not run; narrowing type changes are not generated.")
check("C36", [table("c36")],
      "Random schemas of 1..9 columns (all scalar types, nested arrays and rows), random values with nulls and edge cases, written in random column order and rewritten in place, read from random cuts into segments; arrays likewise; columnar, generic, projected, offset and composed forms of the same rows; pairs of rows under random key columns; batches of rows given to the bucket calculator. Non-trivial: several columns, a null or a value outside its slot; distinct by the types and values.",
      assumptions=["the columnar forms run on the substitute for Arrow described in DESIGN.md"],
      technique="address/UB sanitizers with an independent encoder of the format as online oracle",
      note="Held on the executed cases only. Maps inside binary rows are not implemented in this library.")

check("C37", [table("c37"), table("c37", "tsan", args=["--scenario", "rivals", "--scale", "0.3"], shards=4)],
      "Random histories of catalog calls with valid, odd and refused names; random table definitions of all types with nesting, keys and options compared after loading and byte for byte of meaning with the stored JSON; schema files in the writing of other implementations; schema files with removed, retyped or cut parts; threads creating the same table; one failing file operation per creation. Non-trivial: a table is created or refused for a reason; distinct by history, definition and outcome.",
      assumptions=["tables run on the substitute for Arrow described in DESIGN.md"],
      technique="address/UB and thread sanitizers with an online model, an independent schema renderer and fault injection",
      note="Held on the executed histories, definitions, schedules and fault points only.")

check("C38", [table("c38")],
      "Random tables with row tracking and data evolution: commits of appends of column subsets in any column order, of column writes over the rows of an earlier file, of bitmap indexes over runs of rows; commits beaten by another at a random file operation, and commits that fail at a random write and are tried again after others; reads of any snapshot with random projections including row id, sequence number and score, filters on scan and read, partitions, limits, row ranges and serialized splits. Non-trivial: a write of rows, or a read where some but not all rows match; distinct by history and results.",
      assumptions=["tables run on the harness's own file format and the substitute for Arrow described in DESIGN.md", "a column is not written again once an index covers it (the index would be outdated by design)"],
      technique="address/UB sanitizers with an online row-id model, race and fault injection",
      note="Held on the executed histories only. Blob files and vector indexes are not generated.")

check("C39", [drv("c39", "asan", ["c39.cpp"], "CORE")],
      "Random maps of 0..12 options: numbers, booleans, sizes and durations in every unit, case and spacing, lists, modes, engines and formats by name, per-field options and sequence groups, with unknown keys beside them; each setting is compared with the value written or its default, also on a copy; and single values at and past their limits, cut, misspelt or of the wrong kind, which must be refused. Non-trivial: an option is set or refused; distinct by the map.",
      assumptions=["formats and file systems named by the options are stand-ins of the harness, except the local file system"],
      technique="address/UB sanitizers with an online model of the settings",
      note="Held on the executed maps only.")

check("C40", [drv("c40", "asan", ["c40.cpp"], "CORE"), table("c40t")],
      "Random blob files of 0..200 values of 0 bytes to 3 MiB given by value or by descriptor, compared byte for byte with an independent encoder and read back by value and as descriptors with random batch sizes and row selections; files with altered, cut or extended footer and index; one storage operation failing or coming up short; schemas, rows and versions that must be refused; blobs of paths, offsets and lengths inside and outside their file. Random data-evolution tables with a blob column: appends and column updates by value or by descriptor with tiny blob files, every snapshot read with projections, row ranges, descriptors and prefetch and compared with a model keyed by row id; no file stays open afterwards. Non-trivial: a value is written, an operation fails or a file is altered; distinct by the history.",
      assumptions=T_ASSUME,
      technique="address/UB sanitizers with an independent encoder and a row model as online oracles and fault injection",
      note="Held on the executed files and fault points only. Checksums are compared when writing; the reader does not check them.")
