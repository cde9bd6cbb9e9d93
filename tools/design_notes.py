"""Hand-written notes per property for DESIGN.md."""

TIMES = {"C25": "30 s", "C27": "40 s", "C28": "95 s", "C29": "45 s", "C30": "60 s", "C31": "40 s", "C32": "20 s", "C33": "20 s", "C34": "15 s", "C35": "45 s", "C36": "30 s", "C37": "45 s", "C38": "80 s", "C39": "10 s", "C40": "50 s"}

NOTES = {
    "C01": {"oracle": "An independent encoder in the harness produces the expected bytes; the reader must return the written items, and a cut input must give an error at the first item that does not fit, with the items before it intact.",
            "reach": "The tests write a fixed list of values once; the monitor covers both byte orders, every segment size at which an item can straddle a boundary, devices that stop accepting bytes, and lengths at 2^15 and 2^16."},
    "C02": {"oracle": "A plain byte array with a position. Every call must return the array's bytes, or refuse and leave the position where it was.",
            "reach": "Stacks of streams, sources longer than 4 GiB (simulated), short reads and failures in the middle are outside the tests.",
            "alarms": "A seek of a buffered stream past the end may be refused at the seek or at the next read; both are accepted."},
    "C03": {"oracle": "The harness keeps its own books of live blocks, fills each with a pattern and checks pattern, alignment and usage after every step.",
            "alarms": "A moving reallocation may count both blocks towards the peak for a moment; the peak is therefore judged as an interval.",
            "open": "Reallocation with sizes near the top of the address space is not generated."},
    "C04": {"oracle": "The same operation on a flat std::string.", "reach": "The tests use one or two layouts; here every content is placed at random offsets in chains of random segment sizes, so comparisons, searches, hashes and copies cross boundaries in every relative position."},
    "C05": {"oracle": "An interval set, independent of any bitmap code.", "reach": "Values sit at container and 2^16/2^31/2^32 boundaries where run, array and bitmap containers change over."},
    "C06": {"oracle": "A scan over the column."},
    "C07": {"oracle": "Row masks combined with plain boolean algebra; a result may be less precise than the mask but never exclude a matching row, and a bitmap answer must be exact."},
    "C08": {"oracle": "A map from row id to optional score."},
    "C09": {"oracle": "Interval sets; grouping is compared with connected components."},
    "C10": {"oracle": "The documented bit positions for a 64-bit hash; membership of all added keys; a binomial bound for the false-positive rate.",
            "open": "A filter for zero items is not built (division by zero in the sizing; the callers never ask for it)."},
    "C11": {"oracle": "An independent zig-zag varint codec."},
    "C12": {"oracle": "A ledger that counts each task at its start and end; all results are collected through the futures.",
            "reach": "Destruction with a full queue, tasks that add tasks and tasks that only finish when all run at once need schedules the tests do not produce.",
            "alarms": "Tasks added while the destructor runs were first expected to run; the interface does not promise that, so the clause was dropped."},
    "C13": {"oracle": "Recorded invocation/response histories are checked offline against the sequential specification (queue order per producer, exactly once, no stale reads in real time)."},
    "C14": {"oracle": "Maps, plus the parsed JSON of the text form."},
    "C15": {"oracle": "An ordered list of pairs; for packing, the concatenation of bins must be the input, no bin except single items may exceed the target, and neighbours must not fit together by the first-fit rule."},
    "C16": {"oracle": "An independent unescape; distinct specs must give distinct paths; no component may be a dot name or contain a separator beyond those between components."},
    "C17": {"oracle": "A scan of the collected values."},
    "C18": {"oracle": "128-bit integer arithmetic and a civil-calendar computation of the harness's own."},
    "C19": {"oracle": "Decode(encode(x)) = x; damaged bytes either decode to something or are refused, without a sanitizer report, an exception or an allocation out of proportion.",
            "open": "A damaged payload that still decodes is not required to be detected; only formats with checksums could."},
    "C20": {"oracle": "A map from name to the recording stand-in registered last."},
    "C21": {"oracle": "An object ledger and the plain value."},
    "C22": {"oracle": "The tables of codes and names in the specification of the storage format."},
    "C23": {"oracle": "An independent murmur3."},
    "C24": {"oracle": "The last value set for each field since the last build."},
    "C25": {"oracle": "A tree model of directories and files; for atomic store: at any moment a reader sees nothing or all of one stored content, and of rivals that may not replace exactly one succeeds.",
            "open": "IOHook's mode is a plain field; it is test machinery and is not set while threads run."},
    "C26": {"oracle": "Definitions written for the harness."},
    "C27": {"oracle": "A multiset of rows per snapshot, computed from the calls alone.",
            "alarms": "Row order is only judged within one writer and bucket. Directories with empty commits and ignored empty commits are told apart by the option given."},
    "C28": {"oracle": "After each failed attempt the snapshot history must be that of the attempt having happened entirely or not at all; a retry with the filtering call must bring it to exactly once. For rivals, the chain of snapshots must be a serial order of all commits reported as done.",
            "reach": "Every file-system operation of a commit is a fault point, failing before or after it takes effect. The tests fail only some of them and never with rivals.",
            "open": "The finder of the latest snapshot trusts a stale hint file when the snapshot it names is gone; no run shows a wrong row through the public interface."},
    "C29": {"oracle": "Per key, the records in commit and write order (or by the sequence fields) are folded by a merge model of the documented engine.",
            "alarms": "Records after a removing delete of the same key within one flush are not generated (the flush forgets the delete by design). Equal sequence values fall back to write order."},
    "C30": {"oracle": "The retention rule over (minimum, maximum, limit, age) gives the snapshots that go; files left must be exactly those a reader of a kept snapshot opens.",
            "alarms": "When a delete fails, files may stay behind; only losing a needed file is then a violation."},
    "C31": {"oracle": "A file may go only if it is old enough, its name has a shape the cleaner owns, and no snapshot uses it; one that meets all of these and no veto must go on an undisturbed run."},
    "C32": {"oracle": "Three-valued evaluation of the predicate by the harness. Without exact filtering more rows may come back, but each must be a row of the table.",
            "alarms": "On primary-key tables, skipping a file by its keys may uncover an earlier version of a row that does not match either; such a version is accepted as long as it does not match."},
    "C33": {"oracle": "The rows of every file are read back once without a predicate, indexes are made for them, and filtered reads are judged as in C32, less the rows marked deleted.",
            "reach": "Index bytes are built by an independent encoder (bit-slice, bloom filter, container) or by the library (bitmap, both versions, tiny block sizes), so a reader that agrees only with its own writer is found.",
            "alarms": "Bitmap and bit-slice indexes keep microseconds: nanosecond columns get none. The smallest 64-bit integer has no magnitude and is kept out of bit-slice indexes. Index blocks below 80 bytes are refused by the writer and not asked for."},
    "C34": {"oracle": "The model knows every snapshot's kind and added rows; each stream has a next snapshot the plan must be.",
            "reach": "Several streams poll one history while it is overwritten, expired and recreated, and plans fail at a random file-system call.",
            "alarms": "A failed first plan in the latest-full mode may have settled on the snapshot that was the latest then, and a failed later plan may have passed snapshots without anything to stream; both are accepted.",
            "open": "Primary-key streams are not judged: the read side of this library never keeps the delete records such a stream needs."},
    "C35": {"oracle": "Each row is carried through every schema change in the model; the predicate is evaluated on the result.",
            "reach": "Exchanged names, a name used again with another type, columns moved in front of others, widened columns under statistics and indexes of the old type.",
            "alarms": "A file's value is converted from the type it was written in to the current one in one step, so the harness never chains conversions whose steps give another result (BOOLEAN to INT to STRING).",
            "open": "Primary-key tables are refused by the scan after an evolution. Narrowing casts, whose overflow rules are a matter of taste, are left out."},
    "C36": {"oracle": "The harness encodes each row and array byte by byte from the description of the format and hashes it with its own murmur hash; values are compared with the generated ones; comparison with the order of the typed values.",
            "reach": "Values that straddle segments, slots rewritten from long to short values and to null, arities at the 8-bit and 64-bit steps of the null bits, every pair of row form and type.",
            "alarms": "A generic row that holds a string view is only asked for the view, and binary rows are not asked for views, since neither supports the other."},
    "C37": {"oracle": "A model of the databases and tables that exist; the harness renders the expected schema JSON and the expected field ids itself and parses stored files with its own reader.",
            "reach": "Creations that fail or lose a race at each file operation, schema files of other writers (missing optional parts, other spellings of types, extra keys) and damaged ones are outside the tests.",
            "alarms": "A rival that asked to ignore an existing table and loses the race may get an error. Text with embedded zero bytes is not generated, since the JSON writer of this library ends strings there."},
    "C38": {"oracle": "A map from row id to the newest value of each cell with the snapshot of the newest write, kept per snapshot. Row ids of new files must tile the interval up to the next row id of the snapshot. A filtered read must contain every matching row and nothing outside the table or the asked rows; an exact one nothing else.",
            "reach": "Column files of one row range written over several commits in any order, reads of columns that no file has, scores under filters, index shards that cover part of the table, lost races and failed commits.",
            "alarms": "The order of new files inside one commit is not judged, only that their ids tile the interval. A column written twice for the same rows inside one commit is not generated, since its order is not defined. Indexed columns are not written again."},
    "C39": {"oracle": "A table in the harness of every option with its kind, its default and the getter that shows it; the expected value is kept as a number or name before it is rendered as text in one of its spellings.",
            "reach": "The tests set one fixed map. Here every option is set next to others, in every unit and spelling, at and past the limits of its type.",
            "alarms": "Settings whose malformed keys have no documented meaning (a sequence group without a field) are not judged; calls on the real local file system are not recorded and only its name is compared."},
    "C40": {"oracle": "An independent encoder of the documented layout with its own checksum; the values written, kept by the harness; the bytes of the source file for descriptors; for tables, a map from row id to row kept per snapshot, and the list of open files of the process.",
            "reach": "Values at the 1 MiB copy buffer, empty values, selections, files of no rows, storage that stops at any operation, and every kind of damage to footer and index are outside the tests, and so are memory that outlives its pool, tables whose blobs are spread over many blob files and updated by later snapshots, and files left open.",
            "alarms": "The reader does not verify checksums by design, so damage to contents is not judged. A second read schema without a selection is not given to a reader that had one, as its meaning is not documented."},
}
