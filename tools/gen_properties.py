#!/usr/bin/env python3
"""Writes /verif/properties.jsonl.  One entry per property, authored here."""
import json, os

P = []

def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=False):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    if hook:
        a["hook_needed"] = True
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

S = "src/paimon/"
I = "include/paimon/"

prop("C01", "Binary encodings round-trip exactly through every output and input stream",
     "Every sequence of integers, floats, booleans, strings and raw byte blocks written through a data output stream reads back unchanged, in order, through a data input stream in the same byte order, whatever the buffer segment size or byte order. "
     "The encoded bytes are the fixed-width big- or little-endian layout with a two-byte length before each string, and the reported write size and read position always equal the number of bytes produced or consumed. An input that ends early, or whose source delivers fewer bytes than asked, gives an error and never a value.",
     ["inputs", "configurations"],
     "all value sequences, both byte orders, every segment size from a few bytes upward",
     "Unit tests write a handful of values in one layout; they do not cover values that straddle a segment edge at every offset, extreme values, or mixed-length sequences in both byte orders.",
     [S + "common/io/data_output_stream.cpp", S + "common/io/data_input_stream.cpp", S + "common/io/memory_segment_output_stream.cpp", S + "common/utils/math.h", I + "io/data_input_stream.h"],
     [("segmented writer", S + "common/io/memory_segment_output_stream.cpp"), ("stream writer", S + "common/io/data_output_stream.cpp"), ("stream reader", S + "common/io/data_input_stream.cpp"), ("byte swapping", S + "common/utils/math.h")],
     [("current size", "number of bytes written so far, across segments", S + "common/io/memory_segment_output_stream.h")],
     ["bytes produced by the writer compared with an independent encoder", "values and positions returned by the reader"])

prop("C02", "Every input stream is a faithful random-access view of its bytes",
     "For any interleaving of reads, positional reads, asynchronous reads and seeks, an in-memory, buffered, windowed or local-file input stream returns exactly the bytes a plain byte array would return at that position, and its reported position and length agree with that array. "
     "A request outside the stream is refused with an error and never touches memory outside the source or disturbs later valid requests; buffering and window size never change the result.",
     ["inputs", "histories", "configurations"],
     "all operation histories, all buffer and window sizes, including requests at and beyond both ends",
     "Tests exercise short scripted sequences on one buffer size; wrong results appear only for particular combinations of buffer size, prior position and request length.",
     [S + "common/io/byte_array_input_stream.cpp", S + "common/io/buffered_input_stream.cpp", S + "common/io/offset_input_stream.cpp", S + "fs/local/local_file.cpp"],
     [("buffer refill and in-buffer seek", S + "common/io/buffered_input_stream.cpp"), ("window translation and bounds", S + "common/io/offset_input_stream.cpp"), ("bounds checks", S + "common/io/byte_array_input_stream.cpp")],
     [("stream position", "logical offset of the next sequential read", I + "io/buffered_input_stream.h")],
     ["bytes, positions and statuses returned at the stream interface; memory accesses (address sanitizer)"])

prop("C03", "Memory pools account exactly for live memory and keep its contents",
     "At every quiescent point a memory pool reports as current usage exactly the sum of the sizes of the blocks allocated and not yet freed, and as peak usage a value no smaller than any current usage ever reached, never decreasing, and equal to the true peak when calls do not overlap. "
     "Blocks are disjoint, honour the requested alignment, keep their common prefix across reallocation, and balance to zero once all are freed, for any mix of threads.",
     ["inputs", "histories", "schedules"],
     "all allocate, reallocate and free histories with any sizes and power-of-two alignments, from any number of threads",
     "Tests allocate a few blocks on one thread; lost updates under concurrency and alignment-dependent reallocation paths are not exercised.",
     [S + "common/memory/memory_pool.cpp", I + "memory/memory_pool.h", S + "common/memory/bytes.cpp"],
     [("usage and peak counters", S + "common/memory/memory_pool.cpp"), ("aligned reallocation", S + "common/memory/memory_pool.cpp"), ("pool-owned byte buffers", S + "common/memory/bytes.cpp")],
     [("current usage", "bytes live in the pool", S + "common/memory/memory_pool.cpp"), ("peak usage", "largest current usage so far", S + "common/memory/memory_pool.cpp")],
     ["usage counters at quiescent points; block contents; data races (thread sanitizer)"])

prop("C04", "Byte strings behave the same however they are laid out in memory",
     "Strings, byte sections and memory segments give the same answer as a plain byte string for equality, ordering, hashing, substring, search, case folding, character count and copying, whatever the segment size, offset or number of segments that hold them. "
     "Fixed-width values written into segments at any position read back unchanged and touch no other byte.",
     ["inputs", "configurations"],
     "all byte contents including multi-byte characters, all segment sizes and offsets",
     "Tests use a few literals in one or two layouts; defects appear only when a character or value straddles a segment boundary at a particular offset.",
     [S + "common/data/binary_string.cpp", S + "common/data/binary_section.cpp", S + "common/memory/memory_segment.cpp", S + "common/memory/memory_segment_utils.cpp", S + "common/memory/bytes.cpp"],
     [("multi-segment string operations", S + "common/data/binary_string.cpp"), ("multi-segment copy, compare, find, get and set", S + "common/memory/memory_segment_utils.cpp"), ("segment primitives", S + "common/memory/memory_segment.cpp")],
     None,
     ["values returned by the string, section and segment interfaces against a flat reference; memory accesses (address sanitizer)"])

prop("C05", "Row-id bitmaps are exact sets through every operation and serialization",
     "A 32-bit or 64-bit row-id bitmap always contains exactly the ids that were added and not removed: membership, cardinality, emptiness, ordered iteration, iteration from a position, range membership, union, intersection, difference, flip and equality all match an ordinary integer set. "
     "Serializing and deserializing a bitmap, in whole or through a stream, returns an equal bitmap, and copies stay independent of their source, and a moved-from bitmap can be assigned again.",
     ["inputs", "histories"],
     "all operation histories over the supported id range, sparse, dense and run-shaped",
     "Tests use a few small sets; container boundaries, cross-container ranges, copy-on-assign aliasing and iterator repositioning are barely reached.",
     [S + "common/utils/roaring_bitmap32.cpp", S + "common/utils/roaring_bitmap64.cpp", I + "utils/roaring_bitmap32.h", I + "utils/roaring_bitmap64.h"],
     [("32-bit set", S + "common/utils/roaring_bitmap32.cpp"), ("64-bit set", S + "common/utils/roaring_bitmap64.cpp")],
     None,
     ["answers of the bitmap interface against an ordered set; serialized bytes"])

prop("C06", "A bit-sliced numeric index answers every comparison exactly as a scan does",
     "For any column of non-negative values and nulls, a bit-sliced index returns for equal, less, less-or-equal, greater, greater-or-equal and not-null queries exactly the row ids a full scan of the column returns, for every probe value. "
     "This still holds after the index is serialized and reopened, null rows never match a comparison, and the serialized form is the published version-1 layout.",
     ["inputs"],
     "all columns of values and nulls in the declared value range, all probe values inside and outside that range",
     "Tests check a dozen values and probes; off-by-one errors show only for probes at slice boundaries, at the minimum or maximum, or outside the range.",
     [S + "common/file_index/bsi/bit_slice_index_roaring_bitmap.cpp", S + "common/file_index/bsi/bit_slice_index_roaring_bitmap.h"],
     [("slice comparison", S + "common/file_index/bsi/bit_slice_index_roaring_bitmap.cpp"), ("appender and serializer", S + "common/file_index/bsi/bit_slice_index_roaring_bitmap.cpp")],
     [("slices", "one bitmap per value bit", S + "common/file_index/bsi/bit_slice_index_roaring_bitmap.h")],
     ["row-id sets returned by each query against a scan"])

prop("C07", "File-index results never rule out a file or row that matches",
     "Combining index answers by conjunction and disjunction yields exactly the row set that set intersection and union would, where 'cannot tell' stands for all rows and 'skip' for none, in any nesting and order; an index that does not support a predicate answers 'cannot tell'. "
     "Bitmap-index metadata read back from bytes maps every value and the null marker to the row bitmap it was written with, and a value that was not written maps to nothing.",
     ["inputs", "configurations"],
     "all expression trees over index answers, all value-to-bitmap dictionaries and column types",
     "Tests check a few pairs of answers; precedence, laziness and mixed 'cannot tell'/bitmap/skip trees are not enumerated.",
     [S + "common/file_index/file_index_result.cpp", S + "common/file_index/file_index_reader.cpp", S + "common/file_index/bitmap/bitmap_index_result.cpp", S + "common/file_index/bitmap/bitmap_file_index_meta_v1.cpp"],
     [("answer lattice", S + "common/file_index/file_index_result.cpp"), ("lazy bitmap answers", S + "common/file_index/bitmap/bitmap_index_result.cpp"), ("default predicate visitor", S + "common/file_index/file_index_reader.cpp"), ("index dictionary", S + "common/file_index/bitmap/bitmap_file_index_meta_v1.cpp")],
     None,
     ["row sets and keep/skip decisions of evaluated trees"])

prop("C08", "Global index results keep exact row sets, scores and ranges",
     "Global index results behave as exact row-id sets under union, intersection, offset shifting, conversion to and from row ranges, and serialization; iterating one yields each id once in ascending order. "
     "Scored results keep every surviving id paired with its own score through intersection, disjoint union, shifting and serialization, and a scored union with overlapping ids is refused instead of guessing.",
     ["inputs", "histories"],
     "all id sets and scores, all operation trees",
     "Tests check a few ids; score alignment breaks only when ids are filtered or interleaved in particular ways.",
     [S + "common/global_index/bitmap_global_index_result.cpp", S + "common/global_index/bitmap_vector_search_global_index_result.cpp", S + "common/global_index/global_index_result.cpp", I + "global_index/global_index_result.h"],
     [("row-set result", S + "common/global_index/bitmap_global_index_result.cpp"), ("scored result", S + "common/global_index/bitmap_vector_search_global_index_result.cpp"), ("serialization", S + "common/global_index/global_index_result.cpp")],
     None,
     ["ids, scores and ranges returned by results against a map"])

prop("C09", "Row ranges obey integer-set arithmetic",
     "Counting, intersecting, excluding, sorting and merging inclusive row-id ranges give exactly the ids that the same operation on plain integer sets gives, with the output sorted, disjoint and, when adjacency merging is requested, maximal. "
     "Grouping items by overlapping ranges places two items in one group exactly when a chain of overlaps connects them, keeps every item once, and preserves the documented order.",
     ["inputs"],
     "all lists of ranges and items, including touching, nested, duplicate and single-element ranges",
     "Tests use a few ranges; boundary adjacency and chained overlap errors need specific shapes.",
     [S + "common/utils/range.cpp", I + "utils/range.h", S + "common/utils/range_helper.h"],
     [("range operations", S + "common/utils/range.cpp"), ("overlap grouping", S + "common/utils/range_helper.h")],
     None,
     ["range lists and groups returned, expanded to integer sets"])

prop("C10", "Bloom filters never miss an added key and stay near their false-positive rate",
     "Every key added to a bloom filter is reported as possibly present for ever after, including after the filter's bits are rebuilt from their stored words, for any sizing. "
     "A key always sets the same fixed bit positions of the storage format, so a stored filter keeps its answers. The rate at which never-added keys are reported present stays close to the configured probability at the configured number of items.",
     ["inputs", "configurations"],
     "all key hashes (including extreme and negative values), all expected counts and probabilities",
     "Tests add a fixed batch of keys; a missed key depends on hash sign, word boundary and filter size.",
     [S + "common/utils/bloom_filter64.cpp", S + "common/utils/bloom_filter64.h"],
     [("hash mixing and bit addressing", S + "common/utils/bloom_filter64.cpp"), ("sizing", S + "common/utils/bloom_filter64.cpp")],
     None, ["membership answers for added and fresh keys"])

prop("C11", "Integer-sequence compression is lossless and rejects damaged input",
     "Compressing any sequence of 64-bit integers and decompressing it returns the same sequence, and sequences of small differences compress to about one byte per element. "
     "The bytes are the storage format's zig-zag varints of successive differences. An encoding cut inside an element or longer than ten bytes per element is rejected with an error, and nothing beyond the buffer is read.",
     ["inputs"],
     "all integer sequences including extreme and alternating values; all truncations and byte flips of encodings",
     "Tests use hand-written sequences; sign and continuation-bit errors need specific magnitudes.",
     [S + "common/utils/delta_varint_compressor.cpp", S + "common/utils/delta_varint_compressor.h"],
     [("delta, zigzag and varint coding", S + "common/utils/delta_varint_compressor.cpp")],
     None, ["decoded sequences and statuses; memory accesses (address sanitizer)"])

prop("C12", "Executors run every accepted task exactly once and drain on shutdown",
     "Every task handed to a running executor is executed exactly once and its result, error or exception reaches the caller that waits for it; waiting for many tasks returns all of their results in submission order. "
     "It runs as many tasks at once as it has threads and no more. Destroying an executor, from any thread, first finishes every task accepted before, leaves none running afterwards, and never deadlocks.",
     ["schedules", "histories"],
     "all interleavings of submitters, workers and shutdown, any worker count",
     "Tests submit a few tasks on a quiet executor; lost or doubled tasks and missed wake-ups need contended schedules and shutdown races.",
     [S + "common/executor/executor.cpp", I + "executor.h", S + "common/executor/future.h"],
     [("worker loop and queue", S + "common/executor/executor.cpp"), ("result hand-off", S + "common/executor/future.h")],
     [("task queue", "accepted tasks not yet started", S + "common/executor/executor.cpp")],
     ["per-task execution counts and results; data races (thread sanitizer); bounded completion"])

prop("C13", "Shared containers are linearizable and lose no element or update",
     "Concurrent histories on the shared hash map and the shared queue are equivalent to some sequential order of the same operations: every queued element comes out exactly once and in per-producer order, and a map lookup returns a value some completed or overlapping insert stored under that key and no erase has since removed. "
     "Used by one thread the containers behave like their ordinary counterparts, and a counter holds the exact sum of everything added or merged since its last reset.",
     ["schedules", "histories"],
     "all interleavings of any number of threads and operations",
     "Tests run one or two threads with weak assertions; lost updates appear only in rare interleavings.",
     [S + "common/utils/concurrent_hash_map.h", S + "common/utils/threadsafe_queue.h", S + "common/utils/long_counter.h"],
     [("hash map", S + "common/utils/concurrent_hash_map.h"), ("queue", S + "common/utils/threadsafe_queue.h"), ("counter", S + "common/utils/long_counter.h")],
     None, ["timestamped call and return histories; data races (thread sanitizer)"])

prop("C14", "Metrics report exactly what was recorded and merging conserves totals",
     "A metrics registry returns for each name the value last set, reports unknown names as missing, lists exactly the recorded names and values, and renders them as one JSON object. "
     "Merging registries adds values of shared names and keeps the rest, overwriting replaces the whole contents, and neither loses nor double-counts an update made concurrently by other threads.",
     ["inputs", "histories", "schedules"],
     "all histories of set, get, merge and overwrite over any number of registries and threads",
     "Tests check single-threaded sequences on a few names; concurrent merges, self-merges and crossed merges are not exercised.",
     [S + "common/metrics/metrics_impl.cpp", S + "common/metrics/metrics_impl.h", I + "metrics.h"],
     [("counter map and merge", S + "common/metrics/metrics_impl.cpp")],
     None, ["counter values read back; bounded completion; data races (thread sanitizer)"])

prop("C15", "Ordered maps and bin packing keep each item once, in order",
     "The insertion-ordered map behaves as a map whose iteration order is first-insertion order, through insert, overwrite, erase, lookup, copy and move. "
     "Bin packing partitions its input into groups that together contain each item exactly once; it keeps input order, never makes an empty group, exceeds the target weight only for a single oversized item, and starts a new group only when the next item does not fit.",
     ["inputs", "histories"],
     "all operation histories and all weight lists and targets",
     "Tests use a few fixed lists; order and grouping errors depend on erase patterns and exact weights.",
     [S + "common/utils/linked_hash_map.h", S + "common/utils/bin_packing.h"],
     [("ordered map", S + "common/utils/linked_hash_map.h"), ("packing", S + "common/utils/bin_packing.h")],
     None, ["iteration order, lookups and groups against a reference"])

prop("C16", "Partition directory names are reversible and cannot escape the table",
     "The directory path generated for a partition lists its keys in order and escapes values so that distinct partitions get distinct paths and unescaping recovers each key and value exactly. "
     "No partition value can introduce an extra path level, a reserved or control character, or a path outside the table, and empty keys or values are refused.",
     ["inputs"],
     "all partition keys and values over all bytes",
     "Tests escape a few special characters; collisions and unescaped separators need particular byte combinations.",
     [S + "core/utils/partition_path_utils.cpp", S + "core/utils/partition_path_utils.h"],
     [("escaping", S + "core/utils/partition_path_utils.cpp")],
     None, ["generated paths and their decoded forms"])

prop("C17", "Column statistics bound the data they were collected from",
     "After any sequence of values and nulls is collected into a column's statistics, the reported minimum and maximum are the true extremes in the type's order, the null count is exact, and a column of only nulls reports no extremes. "
     "This holds for every supported type, and statistics built from given bounds return exactly those bounds.",
     ["inputs"],
     "all value sequences of all supported column types",
     "Tests collect two or three values; wrong ordering (for example unsigned, negative or multi-byte comparisons) needs particular values.",
     [S + "common/format/column_stats.cpp", I + "format/column_stats.h", I + "data/decimal.h"],
     [("typed collectors", S + "common/format/column_stats.cpp")],
     None, ["reported minimum, maximum and null count against a scan"])

prop("C18", "Timestamps and decimals convert and compare consistently",
     "Converting a timestamp between its epoch-millisecond, micro- and nanosecond forms keeps the instant, truncating only below the target precision, and comparing two timestamps agrees with comparing their instants, before and after the epoch. "
     "Decimals compare by numeric value regardless of scale, and their compact and byte forms round-trip.",
     ["inputs"],
     "all instants in range and all decimal values, scales and precisions",
     "Tests use a few positive examples; sign, remainder and carry errors need values before the epoch or at unit boundaries.",
     [S + "common/data/timestamp.cpp", I + "data/timestamp.h", I + "data/decimal.h", S + "common/utils/date_time_utils.h"],
     [("timestamp forms", I + "data/timestamp.h"), ("decimal forms", I + "data/decimal.h")],
     None, ["values returned by conversions against 128-bit integer arithmetic"])

prop("C19", "Descriptors survive serialization and damaged bytes are rejected safely",
     "Blob descriptors, deletion-file lists, bitmaps, index metadata, index results, deletion vectors and rows decode from their own encoding to an equal value. "
     "Feeding any truncated, corrupted or random bytes to a decoder yields either a well-formed value or an error; it never crashes, hangs, reads outside the buffer, throws an unexpected exception, or allocates memory out of proportion to the input.",
     ["inputs"],
     "all values of each structure; all truncations, byte mutations and random inputs to each decoder",
     "Tests decode well-formed bytes and a few truncations; unchecked lengths and offsets need specific corrupt fields.",
     [S + "common/data/blob_descriptor.cpp", S + "core/table/source/deletion_file.h", S + "common/global_index/global_index_result.cpp", S + "common/file_index/bitmap/bitmap_file_index_meta_v1.cpp", S + "common/file_index/bsi/bit_slice_index_roaring_bitmap.cpp", S + "common/utils/roaring_bitmap64.cpp", S + "common/utils/serialization_utils.h"],
     [("blob descriptor", S + "common/data/blob_descriptor.cpp"), ("deletion file list", S + "core/table/source/deletion_file.h"), ("index result", S + "common/global_index/global_index_result.cpp"), ("bitmap index metadata", S + "common/file_index/bitmap/bitmap_file_index_meta_v1.cpp"), ("bit-sliced index", S + "common/file_index/bsi/bit_slice_index_roaring_bitmap.cpp")],
     None, ["decoder outcome; memory accesses and allocation sizes (address sanitizer)"])

prop("C20", "Plugins resolve by name and paths route to the right file system",
     "A component registered under a name is found under exactly that name from then on, by any thread, and an unknown name is refused with an error; process-wide instances are created once. "
     "A path is served by the file system registered for its scheme (or the default when it has none), the same instance is reused for the same scheme and authority, and different authorities never share one.",
     ["inputs", "schedules", "configurations"],
     "all names, schemes and authorities; any number of concurrent lookups and registrations",
     "Tests look up a couple of names on one thread; caching and first-use races need concurrency and repeated mixed paths.",
     [S + "common/factories/factory_creator.cpp", S + "common/factories/singleton.cpp", S + "common/fs/resolving_file_system.cpp", S + "common/fs/file_system_factory.cpp", S + "common/file_index/file_indexer_factory.cpp", S + "common/global_index/global_indexer_factory.cpp", S + "common/format/file_format_factory.cpp"],
     [("registry", S + "common/factories/factory_creator.cpp"), ("single instance", I + "factories/singleton.h"), ("scheme routing and cache", S + "common/fs/resolving_file_system.cpp")],
     None, ["instances and errors returned; calls recorded by stand-in file systems; data races (thread sanitizer)"])

prop("C21", "Statuses and results carry every error and value intact",
     "An error keeps its kind, message and detail through copy, move, assignment, combination and propagation, success stays success, and combining statuses keeps the first error. "
     "A result holds exactly one of a value or an error, each value is constructed and destroyed exactly once, move-only values are moved out intact, and cleanup guards run their action exactly once unless released.",
     ["inputs", "histories"],
     "all histories of construction, copy, move, assignment and propagation over statuses, results and guards",
     "Tests check single transitions; double destruction, leaks or lost errors need chains of assignments across value and error states.",
     [I + "status.h", I + "result.h", S + "common/utils/status.cpp", S + "common/utils/scope_guard.h"],
     [("status", I + "status.h"), ("result", I + "result.h"), ("scope guard", S + "common/utils/scope_guard.h")],
     None, ["codes, messages, live-object counts; memory accesses and leaks (address sanitizer)"])

prop("C22", "Stored codes and names map one-to-one and unknown ones are refused",
     "Row change kinds, manifest entry kinds, file sources, read start-up modes and table identifiers convert to their stored codes or text and back without loss, distinct kinds have distinct codes, and unknown codes or names are refused with an error. "
     "Two identifiers are equal exactly when database and table are equal.",
     ["inputs"],
     "all codes of the stored integer width, all names, all identifier strings",
     "Tests check a few codes; refusing every other code and reversible identifier splitting need enumeration.",
     [S + "common/types/row_kind.cpp", S + "common/types/row_kind.h", S + "core/manifest/file_kind.cpp", S + "core/manifest/file_source.cpp", S + "core/table/source/startup_mode.cpp", S + "core/catalog/identifier.cpp"],
     [("row kinds", S + "common/types/row_kind.h"), ("manifest kinds", S + "core/manifest/file_kind.cpp"), ("file sources", S + "core/manifest/file_source.cpp"), ("start-up modes", S + "core/table/source/startup_mode.cpp"), ("identifiers", S + "core/catalog/identifier.cpp")],
     None, ["codes and names returned over the whole stored range"])

prop("C23", "Key hashing is stable and independent of memory layout",
     "The hash that assigns a key to a bucket is a fixed function of the key bytes alone: it equals the published 32-bit murmur3 variant used by the storage format, and is the same for the same bytes at any offset, alignment or segmentation. "
     "Content hashes used by the indexes are equally deterministic.",
     ["inputs", "configurations"],
     "all byte strings, offsets, alignments and segment sizes",
     "Tests compare a few constants; layout dependence appears only at unaligned offsets or across segment boundaries.",
     [S + "common/utils/murmurhash_utils.h", S + "common/memory/memory_segment_utils.cpp", S + "common/data/binary_section.cpp"],
     [("murmur hash", S + "common/utils/murmurhash_utils.h"), ("multi-segment hashing", S + "common/memory/memory_segment_utils.cpp")],
     None, ["hash values against an independent implementation"])

prop("C24", "Operation contexts carry exactly what the caller configured",
     "A commit or scan context built from any sequence of settings holds the last value given for each setting, documented defaults for the rest, and nothing left over from an earlier build with the same builder; invalid settings are refused. "
     "A scan plan returns exactly the snapshot and splits it was created with.",
     ["inputs", "histories"],
     "all sequences of builder calls, including reuse of a builder after finishing",
     "Tests set each option once; stale or swapped settings need sequences of calls and builder reuse.",
     [S + "core/operation/commit_context.cpp", S + "core/operation/scan_context.cpp", S + "core/table/source/plan_impl.cpp", I + "commit_context.h", I + "scan_context.h"],
     [("commit settings", S + "core/operation/commit_context.cpp"), ("scan settings", S + "core/operation/scan_context.cpp"), ("plan", S + "core/table/source/plan_impl.h")],
     None, ["values read back from the finished context"])

# ----------------------------------------------------------------- Tier B
prop("C25", "The local file system is consistent and stores files atomically",
     "Creating, writing, reading, listing, renaming and deleting on the local file system match an in-memory model of a directory tree, with errors (not damage) for missing, existing or wrong-kind targets. "
     "A file stored atomically is seen by every other reader either not at all or complete, at most one of several competing atomic creations of a name succeeds, and an I/O failure at any step leaves no partial file under the final name. "
     "A listing made while others store, rename and delete in the directory succeeds and shows every untouched file exactly once.",
     ["inputs", "histories", "schedules", "fault_sequences"],
     "all operation histories, competing writers, and an I/O failure injected at each step",
     "Tests run single operations sequentially; races between check and rename and failures mid-write need concurrency and fault enumeration.",
     [S + "fs/local/local_file_system.cpp", S + "fs/local/local_file.cpp", S + "common/fs/file_system.cpp", I + "fs/file_system.h", S + "common/factories/io_hook.cpp"],
     [("directory operations", S + "fs/local/local_file_system.cpp"), ("file primitives", S + "fs/local/local_file.cpp"), ("atomic store", S + "common/fs/file_system.cpp"), ("fault injection point", S + "common/factories/io_hook.cpp")],
     None, ["statuses and contents seen by all clients against a tree model; files on disk after each injected fault"])

prop("C26", "Paths and text compose, split and parse predictably",
     "Joining, normalising, splitting and taking the name or parent of paths is consistent: the parent joined with the name gives back the path, normalising twice changes nothing, and the scheme and authority are never altered. "
     "Text helpers split, join, replace, trim and parse exactly like their plain definitions, and numbers out of range or malformed are refused.",
     ["inputs"],
     "all paths and texts",
     "Tests use a dozen literal paths; slash runs, empty parts and extreme numbers are not enumerated.",
     [S + "common/utils/path_util.cpp", S + "common/utils/string_utils.cpp", S + "common/utils/uuid.h"],
     [("paths", S + "common/utils/path_util.cpp"), ("text", S + "common/utils/string_utils.cpp"), ("unique names", S + "common/utils/uuid.h")],
     None, ["values returned against reference definitions"])

# ----------------------------------------------------------------- Tier C: whole tables
prop("C27", "Every append-table snapshot shows exactly the rows its history gives it",
     "For any history of writes and commits, repeated commits of the same identifier, overwrites and partition drops by any number of users, snapshot n of an append table holds exactly the rows of snapshot n-1 changed by the n-th successful commit, whichever way it is read: at any later time, whole or filtered by partition or bucket, with any projection, batch size, split size, prefetching, or with splits and commit messages serialized in between. "
     "Snapshot ids are gap-free from 1, and each snapshot records its committer, identifier, kind, total and delta row counts and a watermark that never goes back. Rows of one writer keep their order within a bucket.",
     ["inputs", "histories", "configurations"],
     "all table layouts, option values, and histories of writes, commits, repeated commits, overwrites, drops and reads",
     "None of the scan, write, commit, manifest and read code is exercised by the tests that run here; errors need particular histories of overwrites and merged manifests.",
     [S + "core/operation/file_store_commit_impl.cpp", S + "core/operation/file_store_scan.cpp", S + "core/operation/append_only_file_store_write.cpp", S + "core/append/append_only_writer.cpp", S + "core/operation/manifest_file_merger.cpp", S + "core/operation/raw_file_split_read.cpp", S + "core/utils/snapshot_manager.cpp", S + "core/table/source"],
     [("commit", S + "core/operation/file_store_commit_impl.cpp"), ("scan", S + "core/operation/file_store_scan.cpp"), ("manifest merging", S + "core/operation/manifest_file_merger.cpp"), ("append writer", S + "core/append/append_only_writer.cpp"), ("split reading", S + "core/operation/raw_file_split_read.cpp")],
     None, ["rows of every snapshot read back, snapshot files, commit counts"])

prop("C28", "Commits are atomic and exactly-once under I/O failures and rival committers",
     "Whatever file-system operation fails during a write, commit, overwrite or read, and whether or not the failed operation took effect, every snapshot present afterwards is complete and readable with exactly the rows of its history, a commit reported successful is there, and retrying a failed commit with the filtering call puts the change into the table exactly once. "
     "When several users commit and overwrite at the same time, snapshot ids stay gap-free, each change is applied exactly once and in its user's order on top of the snapshot before it, no committed snapshot is replaced, and readers only ever see complete snapshots that never go back. A read that meets a failure reports it or returns the right rows.",
     ["fault_sequences", "schedules", "histories"],
     "all single and persistent I/O failures, before or after the effect, at every file-system operation of a history, and all interleavings of concurrent committers and readers",
     "Atomicity is visible only with a failure at a particular operation or a race between checking for and renaming a snapshot file; the tests that run here have neither.",
     [S + "core/operation/file_store_commit_impl.cpp", S + "core/catalog/renaming_snapshot_commit.h", S + "core/utils/snapshot_manager.cpp", S + "common/fs/file_system.cpp", S + "core/manifest"],
     [("retry loop and clean-up", S + "core/operation/file_store_commit_impl.cpp"), ("snapshot publication", S + "core/catalog/renaming_snapshot_commit.h"), ("latest snapshot", S + "core/utils/snapshot_manager.cpp")],
     None, ["statuses of the calls, snapshot files on disk, rows of every snapshot"])

prop("C29", "A primary-key table shows for each key the merge of its records in order",
     "For any history of inserts, updates and deletes committed to a primary-key table, every snapshot shows at most one row per key, and that row is the merge of all records committed for the key so far: the last record by sequence order with deduplication, the last non-null value per field or per sequence group with partial update, or the configured aggregate per field; a deleted key is not shown, and an ignored delete changes nothing. "
     "The result depends neither on how records were batched, flushed, bucketed or split into files, nor on the projection, batch size, merge algorithm, prefetching or threads of the read.",
     ["inputs", "histories", "configurations"],
     "all histories of records of all kinds, sequence fields and groups, aggregates and merge options, and all ways of batching and reading them",
     "The merge engines are not exercised by the tests that run here; wrong results need particular orders of sequence values, retractions and nulls across files.",
     [S + "core/mergetree", S + "core/operation/merge_file_split_read.cpp", S + "core/operation/key_value_file_store_write.cpp", S + "core/io/key_value_in_memory_record_reader.cpp", S + "core/utils/fields_comparator.cpp"],
     [("merge functions", S + "core/mergetree/compact"), ("buffered writer", S + "core/mergetree/merge_tree_writer.cpp"), ("merging read", S + "core/operation/merge_file_split_read.cpp"), ("sequence order", S + "core/utils/fields_comparator.cpp")],
     None, ["rows of every snapshot read back against a per-key merge model; memory accesses (address sanitizer)"])

prop("C30", "Expiring snapshots removes only what nothing kept needs",
     "Expiring keeps at least the configured number of newest snapshots and every snapshot younger than the configured age, removes at most the configured number at once, and reports how many it removed. "
     "Afterwards every kept snapshot is still there and reads back exactly its rows, files used by no kept snapshot are gone from disk, and a delete that fails or a commit that happens meanwhile never costs a kept or new snapshot anything.",
     ["histories", "fault_sequences", "schedules"],
     "all histories of commits, overwrites, drops and expirations, all retention settings, failing deletes and commits in between",
     "Deleting one file too many is visible only by reading the kept snapshots of a history in which files are shared, replaced and dropped; the tests that run here do not run it.",
     [S + "core/operation/expire_snapshots.cpp", S + "core/utils/snapshot_manager.cpp", S + "core/operation/file_store_commit_impl.cpp"],
     [("what is kept", S + "core/operation/expire_snapshots.cpp"), ("hints", S + "core/utils/snapshot_manager.cpp")],
     None, ["snapshots left, rows of every kept snapshot, files on disk against files that readers open"])

prop("C31", "Cleaning orphan files never deletes a file the table still uses",
     "Cleaning deletes exactly the files in the table's snapshot, manifest and bucket directories that look like the table's own, are older than the given time, are used by no snapshot and are not vetoed by the caller, and reports exactly the ones it deleted. "
     "Files of kept snapshots, young files, files of others and files outside the table stay, also when a file-system call fails on the way, and every snapshot reads back unchanged. Tables with tags, branches or primary keys, whose used files the cleaner does not know, are refused with nothing deleted.",
     ["inputs", "histories", "fault_sequences"],
     "all table histories, stray files of any name and age, cut-off times, vetoes, and a failing file-system call at any step",
     "Removing a used file needs a history whose manifests were merged or partly unreadable, and is seen only when the snapshots are read again; the tests that run here do not run it.",
     [S + "core/operation/orphan_files_cleaner_impl.cpp", S + "core/operation/orphan_files_cleaner.cpp"],
     [("candidates and used files", S + "core/operation/orphan_files_cleaner_impl.cpp"), ("settings", S + "core/operation/orphan_files_cleaner.cpp")],
     None, ["files on disk before and after, files reported, rows of every snapshot"])

prop("C32", "Filters on scan and read lose no matching row",
     "For every table and every predicate, given to the scan, to the read or to both, all rows of the snapshot that match the predicate are read, each once and with the projected values; with exact filtering no other row is read. "
     "Without it the further rows are rows of the table that do not match. Neither file statistics, partition values, key ranges nor stripes inside files change that, and a row for which the predicate is unknown because of a null does not match; a negated predicate matches exactly the rows on which the predicate is false.",
     ["inputs", "histories"],
     "all tables over the supported column types, values and nulls, partitions, commits and files, and all predicate trees, projections and read modes",
     "A pruning mistake drops rows only when literals meet the minimum, maximum or null count of a file or partition, which the tests that run here never set up.",
     [S + "common/predicate/leaf_predicate.cpp", S + "common/predicate/compound_predicate.cpp", S + "common/predicate/predicate_builder.cpp", S + "common/predicate/predicate_utils.cpp", S + "common/predicate/literal.cpp", S + "common/predicate/literal_converter.cpp",
      S + "common/predicate/and.cpp", S + "common/predicate/or.cpp", S + "common/predicate/in.cpp", S + "common/predicate/not_in.cpp", S + "common/reader/predicate_batch_reader.cpp", S + "core/operation/append_only_file_store_scan.cpp", S + "core/operation/key_value_file_store_scan.cpp", S + "core/operation/file_store_scan.cpp", S + "core/stats/simple_stats_evolution.cpp"],
     [("leaf predicates on rows and statistics", S + "common/predicate/leaf_predicate.cpp"), ("pruning by value statistics", S + "core/operation/append_only_file_store_scan.cpp"), ("pruning by key", S + "core/operation/key_value_file_store_scan.cpp"), ("exact filter", S + "common/reader/predicate_batch_reader.cpp")],
     None, ["rows read under every predicate"])

prop("C33", "File indexes lose no matching row and deletion vectors hide exactly theirs",
     "For every table whose data files carry bitmap, bit-slice or bloom-filter indexes, embedded or as files beside the data, reading with a predicate gives the rows it gives without the indexes: no row that matches is lost, whatever the predicate, its negation, the nulls in the column and the version of the index. "
     "A row marked in the deletion vector of its file is not read under any predicate or projection, and every other row is.",
     ["inputs", "histories"],
     "all files, column types with an index, index kinds and versions, predicates, and sets of deleted positions",
     "An index decides which rows are never looked at, so a wrong bit, bound or null makes rows vanish silently; the tests that run here never read a table through an index.",
     [S + "core/io/file_index_evaluator.cpp", S + "common/file_index/file_index_format.cpp", S + "common/file_index/file_index_reader.cpp", S + "common/file_index/bitmap/bitmap_file_index.cpp", S + "common/file_index/bitmap/bitmap_file_index_meta.cpp", S + "common/file_index/bitmap/bitmap_file_index_meta_v1.cpp",
      S + "common/file_index/bitmap/bitmap_file_index_meta_v2.cpp", S + "common/file_index/bitmap/apply_bitmap_index_batch_reader.h", S + "common/file_index/bsi/bit_slice_index_bitmap_file_index.cpp", S + "common/file_index/bsi/bit_slice_index_roaring_bitmap.cpp", S + "common/file_index/bloomfilter/bloom_filter_file_index.cpp",
      S + "common/file_index/bloomfilter/fast_hash.cpp", S + "core/deletionvectors/deletion_vector.cpp", S + "core/deletionvectors/bitmap_deletion_vector.h", S + "core/deletionvectors/apply_deletion_vector_batch_reader.h", S + "core/operation/raw_file_split_read.cpp"],
     [("index evaluation", S + "core/io/file_index_evaluator.cpp"), ("bitmap index", S + "common/file_index/bitmap/bitmap_file_index.cpp"), ("bit-slice index", S + "common/file_index/bsi/bit_slice_index_bitmap_file_index.cpp"), ("deletion vectors", S + "core/deletionvectors/apply_deletion_vector_batch_reader.h")],
     None, ["rows read with and without a predicate"])

prop("C34", "A streaming scan delivers every appended row exactly once and in order",
     "A streaming scan starts where its mode says: with all rows of the latest or the given snapshot, or with none of the rows already there. From then on each plan is the next snapshot that appended, in order, with exactly the rows it added; snapshots that overwrite or drop are passed over, and with nothing new the plan is empty. "
     "A plan that fails skips nothing: asked again, the stream continues where it was. Partition and bucket filters select from these rows and change nothing else. A stream whose next snapshot has expired, or that is ahead of a recreated table, is refused with an error and neither skips on nor waits.",
     ["histories", "faults"],
     "all histories of commits, overwrites, drops, empty commits and expirations, interleaved with polls of several streams in every start mode, with I/O faults during plans",
     "A stream that skips or repeats one snapshot corrupts everything downstream without an error; it shows only for particular interleavings of polls with overwrites, expiration and faults.",
     [S + "core/table/source/data_table_stream_scan.cpp", S + "core/table/source/abstract_table_scan.h", S + "core/table/source/snapshot/delta_follow_up_scanner.h", S + "core/table/source/snapshot/continuous_from_snapshot_full_starting_scanner.h", S + "core/table/source/snapshot/continuous_from_snapshot_starting_scanner.h",
      S + "core/table/source/snapshot/continuous_latest_starting_scanner.h", S + "core/table/source/snapshot/full_starting_scanner.h", S + "core/table/source/snapshot/snapshot_reader.cpp", S + "core/utils/snapshot_manager.cpp", S + "core/operation/file_store_scan.cpp"],
     [("stream scan", S + "core/table/source/data_table_stream_scan.cpp"), ("follow-up", S + "core/table/source/snapshot/delta_follow_up_scanner.h"), ("snapshots", S + "core/utils/snapshot_manager.cpp")],
     None, ["plans of a stream, the rows read from them, and statuses"])

prop("C35", "Old files read under an evolved schema show every row in the current columns",
     "When columns of an append table are added, dropped, renamed, reordered or given a wider type, files written before keep their rows, and a read under the current schema shows each of them with the columns of today: a column is recognised by its field id and never by its name or place, so a renamed or moved column keeps its values, an added one is null in older files even when it takes the name of a dropped one, and a widened one shows the old value in the new type. "
     "Filters mean the current columns: with them no matching row is lost to the statistics, file indexes or pushdown of an older file, rows that do not match are left out by an exact filter, and deleted rows stay deleted. Manifests and files may be read in parallel without a data race.",
     ["inputs", "histories", "schedules"],
     "all histories of writes and schema changes (add, drop, rename, exchange, reorder, widen, re-add), and all filters over the current columns, with and without file indexes and deletion vectors",
     "Evolution is the promise that lets users change a table without rewriting it. A mapping by name or place instead of by id, or statistics tested at the wrong column, loses or mixes up data only for particular sequences of changes, and the tests replay a few fixed tables.",
     [S + "core/utils/field_mapping.cpp", S + "core/stats/simple_stats_evolution.cpp", S + "core/stats/simple_stats_evolutions.h", S + "core/operation/append_only_file_store_scan.cpp", S + "core/operation/abstract_split_read.cpp", S + "core/io/field_mapping_reader.cpp", S + "core/schema/schema_manager.cpp", S + "core/schema/table_schema.cpp", S + "core/casting/cast_executor_factory.cpp", S + "core/casting/casted_row.cpp"],
     [("field mapping", S + "core/utils/field_mapping.cpp"), ("statistics", S + "core/stats/simple_stats_evolution.cpp"), ("mapping reader", S + "core/io/field_mapping_reader.cpp")],
     None, ["rows read with and without a predicate"])

prop("C36", "Rows and arrays keep their values, layout, order and bucket in every form",
     "A row or array of any supported types written in binary form has exactly the layout of the format (null bits, 8-byte slots, inlined and appended values), reads back every value and null, also after being copied or cut at any point into memory segments, and its hash depends on its bytes alone. "
     "The other forms of the same row (columnar, generic, projected, offset, composed from several rows) show the same values, nulls, arity and row kind. "
     "Comparison of rows by key columns is the typed order of their values with nulls first in either direction, independent of the form of the rows, and the bucket of a row is the hash of its binary bucket key taken modulo the number of buckets.",
     ["inputs"],
     "all schemas of the supported types including nested arrays and rows, all values, nulls and segment layouts, projections, offsets and orders of columns",
     "Every row passes through these forms on its way to a bucket, a manifest or a merge, and other implementations read the same bytes. A wrong slot, null bit or comparison sends a row to the wrong bucket or merges it out of order without any error.",
     [S + "common/data/binary_row.cpp", S + "common/data/binary_array.cpp", S + "common/data/binary_row_writer.cpp", S + "common/data/binary_array_writer.cpp", S + "common/data/abstract_binary_writer.cpp", S + "common/data/generic_row.h", S + "common/data/internal_row.cpp", S + "common/data/columnar/columnar_row.cpp", S + "common/data/columnar/columnar_array.cpp", S + "common/utils/projected_row.h", S + "common/utils/projected_array.h", S + "common/reader/data_evolution_row.h", S + "core/utils/fields_comparator.cpp", S + "core/utils/offset_row.h", S + "common/utils/bucket_id_calculator.cpp"],
     [("binary rows", S + "common/data/binary_row.cpp"), ("writers", S + "common/data/abstract_binary_writer.cpp"), ("comparison", S + "core/utils/fields_comparator.cpp")],
     None, ["bytes written", "values read through every form", "comparison results", "bucket ids"])

prop("C37", "The catalog keeps exactly the databases, tables and schemas it was given",
     "After any history of creating databases and tables, the catalog lists, finds and refuses exactly what a model of the history says, and the schema of a table loads with exactly the columns, types, nullability, ids, keys, options and comment it was created with. "
     "The stored schema is the documented JSON, schemas written by other implementations load with the same meaning, and a damaged or ill-typed schema gives an error, never a crash or a different schema. "
     "Of rivals creating the same table exactly one defines it, and an I/O failure at any step ends in an error or in the complete table, and never in a call that does not return.",
     ["inputs", "histories", "schedules", "fault_sequences"],
     "all names, schemas and options, histories of catalog calls, foreign and damaged schema files, rival creators and a failure at each file operation",
     "Everything else trusts the schema: a column id, type or key that is stored or loaded wrongly misreads every file of the table. The tests create a few tables and never let a creation fail or lose a race.",
     [S + "core/catalog/file_system_catalog.cpp", S + "core/schema/table_schema.cpp", S + "core/schema/schema_manager.cpp", S + "core/schema/schema_validation.cpp", S + "core/schema/arrow_schema_validator.cpp", S + "core/schema/schema_impl.h", S + "common/types/data_field.cpp", S + "common/types/data_type.cpp", S + "common/types/data_type_json_parser.cpp", S + "common/types/row_type.cpp", S + "common/types/map_type.h", S + "common/types/array_type.h", S + "common/utils/rapidjson_util.h"],
     [("catalog calls", S + "core/catalog/file_system_catalog.cpp"), ("schema files", S + "core/schema/schema_manager.cpp"), ("schema JSON", S + "core/schema/table_schema.cpp"), ("type names", S + "common/types/data_type_json_parser.cpp")],
     None, ["statuses and listings of catalog calls", "schemas loaded and schema files on disk"])

prop("C38", "Row ids stay unique and stable, and each column shows its newest write",
     "In a table with row tracking and data evolution, the rows of every commit receive the next consecutive row ids, which no other row ever has and which never change, also when the commit lost a race or failed before and was tried again. "
     "After any history of appending some of the columns and of writing columns of rows that are there, every snapshot reads, in any choice and order of columns, the newest value of each cell, null where it was never written, and the row id and sequence number of the row. "
     "Filters, partitions, limits, given row ranges with or without scores, and global indexes built over parts of the table never lose or add a matching row, and each score stays with its row.",
     ["inputs", "histories", "schedules", "fault_sequences"],
     "all histories of appends, column writes, index builds, lost races and failed commits; all snapshots, projections, filters, row ranges and scores",
     "Columns of one row live in different files that are put together by row id alone. A row id given twice, or files put together in the wrong order or count, pairs values of different rows without any error.",
     [S + "core/operation/data_evolution_split_read.cpp", S + "core/operation/data_evolution_file_store_scan.cpp", S + "core/operation/file_store_commit_impl.cpp", S + "core/manifest/manifest_entry.h", S + "core/table/source/data_evolution_split_generator.cpp", S + "core/table/source/data_evolution_batch_scan.cpp", S + "common/reader/data_evolution_file_reader.cpp", S + "common/utils/range_helper.h", S + "core/io/data_file_meta.cpp", S + "core/global_index/global_index_scan_impl.cpp", S + "core/global_index/global_index_evaluator_impl.cpp", S + "core/global_index/global_index_write_task.cpp", S + "core/global_index/row_range_global_index_scanner_impl.cpp", S + "common/global_index/bitmap/bitmap_global_index.cpp", S + "common/global_index/complete_index_score_batch_reader.cpp"],
     [("row id assignment", S + "core/operation/file_store_commit_impl.cpp"), ("putting columns together", S + "core/operation/data_evolution_split_read.cpp"), ("index evaluation", S + "core/global_index/global_index_scan_impl.cpp"), ("planning by row ranges", S + "core/table/source/data_evolution_batch_scan.cpp")],
     None, ["row ids of planned files and the next row id of each snapshot", "rows, row ids, sequence numbers and scores read"])

prop("C39", "Options given as text set exactly the settings they name",
     "For every map of table options, each setting has exactly the value written for it - integers, booleans in every accepted spelling, sizes and durations in every unit, lists in order, modes, engines, formats and file systems by name, per-field options and sequence groups - and every setting that is not named keeps its documented default. "
     "A copy of the options agrees in every setting. A value that is malformed, out of range, of an unknown unit or an unknown name is refused with an error rather than replaced by another value.",
     ["inputs"],
     "all option maps, with values in every accepted spelling and unit and with malformed, unknown and out-of-range values",
     "Options decide where data goes, how rows are merged and how long snapshots are kept. A unit misread or an option that lands in another setting silently changes what the table keeps.",
     [S + "core/core_options.cpp", S + "core/options/expire_config.h", S + "common/options/memory_size.cpp", S + "common/options/time_duration.cpp", S + "common/utils/string_utils.h", S + "common/defs.cpp"],
     [("parsing of sizes", S + "common/options/memory_size.cpp"), ("parsing of durations", S + "common/options/time_duration.cpp"), ("mapping of options to settings", S + "core/core_options.cpp")],
     None, ["values returned by every getter", "statuses of malformed values"])

prop("C40", "Blob files hold every value byte for byte in the documented layout",
     "A blob file written from any sequence of values, given as bytes or as descriptors of parts of other files, has exactly the documented layout (magic, content, length and checksum per value, index, footer), and every reader returns exactly the values written, for any batch size and row selection, as bytes or as descriptors that name exactly these bytes. "
     "Rows, schemas and versions that are no blobs are refused without a trace in the file; a storage failure is reported or has no effect on the result. "
     "A file whose footer or index is damaged gives an error or values that lie inside the file, never memory errors; and all memory taken from a pool is given back. "
     "A table with a blob column returns, at every snapshot, for every row exactly the blob last written to it, however the values are spread over blob files and whichever columns and row ranges are read; and when its readers and writers are gone, none of its files is still open.",
     ["inputs", "histories", "fault_sequences"],
     "all sequences of values of any size, batch sizes, selections, descriptors, storage faults and damaged files",
     "Blobs are the bulk of a table's bytes and are located only by the lengths in the index; one wrong length shifts every later value, and other implementations read the same files.",
     [S + "format/blob/blob_format_writer.cpp", S + "format/blob/blob_file_batch_reader.cpp", S + "format/blob/blob_stats_extractor.cpp", S + "format/blob/blob_writer_builder.h", S + "format/blob/blob_reader_builder.h", S + "common/data/blob.cpp", S + "common/data/blob_descriptor.cpp", S + "common/data/blob_utils.cpp", S + "common/utils/stream_utils.h", S + "core/io/rolling_blob_file_writer.cpp", S + "core/append/append_only_writer.cpp", S + "core/operation/data_evolution_split_read.cpp", S + "fs/local/local_file_system.h"],
     [("writing of values", S + "format/blob/blob_format_writer.cpp"), ("reading of values", S + "format/blob/blob_file_batch_reader.cpp"), ("descriptors", S + "common/data/blob.cpp")],
     None, ["bytes of the file written", "values, descriptors and row numbers read", "memory pool usage", "rows of tables with a blob column", "files open after a case"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
