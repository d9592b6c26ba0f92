"""Per-property configuration of check.py."""
STORAGE = "RocksDB is replaced by an ordered-map model of its transactional C API (harness/src/kv.rs)."
COMMON_ASSUME = [
    "the LLVM IR the stable compiler emits for /repo's sources (opt-level 1, whole program, panic=abort, overflow checks on) is faithful to the code",
    "the storage model in harness/src/kv.rs has RocksDB's semantics for the calls made (native replays run the real library)",
    "symex executes LLVM IR faithfully and Z3's verdicts are right; counterexamples are replayed natively before they are reported",
]
P = dict(crate="harness", assumptions=COMMON_ASSUME)


def prop(**k):
    d = dict(P)
    d.update(k)
    return d


PROPS = {
    "P01": prop(
        features=["p01"],
        entries=["h_p01_cmp", "h_p01_missing"],
        covers=["none match", "one matches", "both match", "other type", "missing field"],
        bounds="two documents; every pair of null, boolean, int32, int64, double, string (0-2 ASCII bytes), ObjectId (2 symbolic bits), date (5 instants), binary (1 byte) values; int/double pairs use doubles with symbolic sign, exponent and 5 mantissa bits; all 7 comparison forms",
        outside="longer strings, NaN, Decimal128, comparisons of arrays and embedded documents, more than two documents",
    ),
    "P02": prop(
        features=["p02"],
        entries=["h_p02_shapes", "h_p02_missing", "h_p02_operators"],
        covers=["none", "some", "all", "operators"],
        bounds="26 filter shapes (fields, several operators on a field, $and/$or/$not nested to depth 3, empty operand lists, _id in and beside them) with int32 operands; three int32 fields per document, all values; one symbolic document (thorough: two) beside a fixed one; absent fields for the shapes without negation; each of 12 operators, plain or under $not, together with 4 (thorough: 12) others on top-level and embedded fields in both orders, under $and and under $or",
        outside="deeper nesting, other value types (P01), more documents, negations on absent fields (the code excludes such documents, MongoDB selects them; not documented)",
    ),
    "P03": prop(
        features=["p03"],
        entries=["h_p03_path", "h_p03_in"],
        covers=["none", "some", "member", "all"],
        bounds="paths of two and three steps against 9 and 8 document shapes (absent steps, scalars, arrays, null and empty documents on the way, decoys at other levels), int32 values, all comparison forms, $not, $in/$nin, beside a second condition",
        outside="paths into arrays by position, an embedded document as the compared value",
    ),
    "P04": prop(
        features=["p04"],
        entries=["h_p04_scalar", "h_p04_array", "h_p04_size", "h_p04_mixed"],
        covers=["none", "some", "all", "combined", "size", "no such size"],
        bounds="18 pairs of stored and candidate types with up to 3 candidates; arrays of up to 3 symbolic elements with up to 2 candidates; arrays as candidates; every int64 $size against arrays of 0-3 elements; negations",
        outside="regular expression candidates, longer lists, documents as candidates, $size given as another number type (rejected)",
    ),
    "P05": prop(
        features=["p05"],
        entries=["h_p05_filter", "h_p05_types"],
        covers=["no match", "match"],
        bounds="16 filter shapes around conditions on _id (all int32 values; alone, beside fields with resembling names, as $eq with further operators, $gte, $in, $ne, $not, under $and and $or) through find, update_one/many, delete_one/many and $match; _id of 10 types, all values of each within the bound, with and without a second condition",
        outside="_id values of different number types that are numerically equal (distinct keys), NaN and zero doubles as _id",
    ),
    "P06": prop(
        features=["p06"],
        entries=["h_p06_names", "h_p06_keys", "h_p06_txn", "h_p06_large"],
        covers=["isolated", "transaction", "large"],
        bounds="all pairs of different legal ASCII names of 1-2 characters and 6-character names sharing a prefix, six related concrete pairs; one int32-keyed document per collection with all keys and values; 14 operations, with and without indexes, 4 of them inside a transaction with either ending; large cases: 300 documents in collections with names of 70 and 255-256 characters, concrete but for one value (thorough: more)",
        outside="longer names, several documents per collection, non-ASCII names",
    ),
    "P07": prop(
        features=["p07"],
        entries=["h_p07_pair", "h_p07_many", "h_p07_auto", "h_p07_illegal", "h_p07_large"],
        covers=["duplicate", "distinct", "batch duplicate", "reused", "upsert duplicate", "fresh keys", "illegal key", "large"],
        bounds="all pairs of keys over 11 key types (strings of 0-2 bytes, symbols of 1, ObjectIds with 2 symbolic bits, 5 dates, full-width numbers, doubles by bits); insert_many of three int32 keys against a stored one; reuse after delete; upsert; missing and null keys; 6 kinds of illegal keys; large cases: 300 keys of four kinds, strings over 260 characters, concrete but for one value (thorough: more)",
        outside="strings containing NUL, Decimal128 keys; numerically equal keys of different number types count as different (as the code defines keys)",
    ),
    "P08": prop(
        features=["p08"],
        entries=["h_p08_values", "h_p08_shapes", "h_p08_reopen", "h_p08_typed", "h_p08_large"],
        covers=["value", "shape", "reopened", "typed", "keyless", "large"],
        bounds="every BSON value kind at 4 places (scalars symbolic, 14 concrete special values), 9 document shapes with symbolic int64/double leaves (40 fields, 50 elements, 7 levels, 3000 characters), after writes to others, after commit, after close and reopen; two shapes stored without _id; a typed record with an enum, options and lists; large cases: strings of 127 to 65536 characters, keys of 300, 300 elements, 40 levels, 1050 documents, concrete but for one value (thorough: more)",
        outside="larger documents, finite Decimal128 values (256-bit arithmetic in the standard library's formatter), DBPointer, invalid UTF-8",
    ),
    "P09": prop(
        features=["p09"],
        entries=["h_p09_history", "h_p09_kinds", "h_p09_path", "h_p09_bulk", "h_p09_and", "h_p09_numeric", "h_p09_large"],
        covers=["several found", "one found", "none found", "both found", "embedded", "other index dropped", "further equalities", "number types", "large"],
        bounds="all histories of 2 (thorough: 3) steps out of 12 kinds after two inserts, index created before or after, values drawn from two arbitrary int32 values, one of them queried; 11 value types; embedded paths; 9 documents under two indexes; further equalities and number types (known findings IDXAND, IDXNUM); large cases: 300 documents with repeated values, indexed before or after, concrete but for one value (thorough: more)",
        outside="longer histories, arrays and documents as indexed values (rejected), strings containing NUL, zero and NaN doubles",
    ),
    "P10": prop(
        features=["p10"],
        entries=["h_p10_match", "h_p10_forms", "h_p10_types", "h_p10_bad"],
        covers=["matches", "does not match", "none", "some", "types", "refused", "known option"],
        bounds="32 expressions with options (anchors, classes, alternation, optional parts, empty, case folding, multi-line, dot, extended) against every ASCII string of up to 2 characters, through $regex and $in; one expression in 11 places of a filter over four documents through find, update and delete; 12 other stored types; every one-character option; 5 invalid operands. The regex crate itself is executed symbolically.",
        outside="longer strings and expressions, non-ASCII text, matching across array nesting",
    ),
    "P11": prop(
        features=["p11"],
        entries=["h_p11_history", "h_p11_kinds", "h_p11_build", "h_p11_many", "h_p11_txn", "h_p11_path", "h_p11_large"],
        covers=["insert refused", "update refused", "own value kept", "batch refused", "same value", "other value", "index refused", "index built", "update of several", "rolled back", "committed", "path", "large"],
        bounds="all histories of 2 (thorough: 3) steps out of 9 kinds after one insert, values drawn from two arbitrary int32 values; pairs of 11 value types; building over 4 documents; updates of several documents; values written or freed in a transaction; embedded path; large cases: 300 values with a clash at the far end, concrete but for one value (thorough: more)",
        outside="numerically equal values of different number types (distinct index keys), strings containing NUL, zero and NaN doubles",
    ),
    "P12": prop(
        features=["p12"],
        entries=["h_p12_arith", "h_p12_fields", "h_p12_array", "h_p12_minmax", "h_p12_pairs", "h_p12_key", "h_p12_several"],
        covers=["arithmetic", "refused", "$set", "$unset", "$rename", "push", "pop", "kept", "replaced", "same field", "two operators", "key", "several documents", "one document unfit"],
        bounds="$inc/$mul over int32, int64 and double (symbolic sign, exponent, 5 mantissa bits) against 8 kinds of stored values (one int64 factor from a list of 8); $set/$unset/$rename on 5 fields; $push/$pop on 8 kinds of stored values; $min/$max over 14 type pairs; all ordered pairs of 9 operators on different fields and on one field; 14 updates touching _id or malformed; 12 updates of two or three fields over three documents, some unfit; positions of all other fields",
        outside="dotted paths (not supported), $min/$max on missing or incomparable values and $mul on a missing field (unspecified), products of two arbitrary 64-bit numbers",
    ),
    "P13": prop(
        features=["p12", "p13"],
        entries=["h_p13_many", "h_p13_one", "h_p13_index", "h_p13_upsert", "h_p13_missing", "h_p13_typed", "h_p13_large"],
        covers=["none matched", "several matched", "one matched", "several through the index", "upserted", "upsert matched", "missing", "several operators", "large"],
        bounds="9 filters x 7 updates over 2 (thorough: 3) documents, all int32 values of the compared and written fields; an index on the updated field with 3 documents; upserts of 3 query forms over 0-2 documents; absent collection and field; three operators at once; large cases: 300 documents through 4 filters, concrete but for one value (thorough: more)",
        outside="upserts whose query has operators or whose update has no $set",
    ),
    "P14": prop(
        features=["p14", "p17"],
        entries=["h_p14_writes", "h_p14_ddl", "h_p14_reads", "h_p14_upsert", "h_p14_batch", "h_p14_update", "h_p14_index", "h_p14_refused", "h_p14_large"],
        covers=["failure reported", "failure made up for", "no failure", "complete read", "failed read", "batch refused", "batch stored", "update refused", "update done", "index refused", "index made", "illegal request", "large batch refused"],
        bounds="one injected failure at every storage call (read, positioning, step, write, delete, commit, rollback) of 6 writes on 2 documents with an ordinary or a unique index, 9 schema changes and first inserts, 7 reads, an upsert, each followed by a retry; batches of 3 documents with one that cannot be stored for 6 reasons at each position; updates of 2 documents failing at one for 5 reasons with and without options; inserts, updates and deletes of 1050 documents failing at the last or in the middle; 6 index definitions; 9 illegal requests with 4 illegal names; all int32 values below 2^30 of two free variables (thorough: 8 writes, 3 documents)",
        outside="more than one storage failure per operation, a failing store that stays broken, operations inside explicit transactions (P16)",
        max_steps=400000000,
    ),
    "P15": prop(
        features=["p15", "p17"],
        entries=["h_p15_orders", "h_p15_uses", "h_p15_cursor", "h_p15_midway", "h_p15_open", "h_p15_clones", "h_p15_two", "h_p15_after"],
        covers=["dropped", "next", "error after the end", "inserted", "closed", "reopened", "cut off", "complete", "unaffected", "midway", "refused", "clones", "two"],
        bounds="two clones of a database, a collection, two clones of a transaction with a collection, a cursor outside and one inside the transaction; every order of dropping them after each ending; histories of 3 out of 9 (thorough: 4 out of 13) uses and drops; 7 kinds of cursors advanced 0-2 times before one of 4 events; cursors dropped after 0-4 results; 13 calls on handles of a closed database; every int32 value",
        outside="writes by a transaction after its commit or rollback, handles used by several threads at the same moment, handles leaked on purpose",
        max_steps=400000000,
    ),
    "P16": prop(
        features=["p16", "p17"],
        entries=["h_p16_history", "h_p16_schema", "h_p16_unique", "h_p16_new", "h_p16_two", "h_p16_reads", "h_p16_mixed", "h_p16_failed", "h_p16_large"],
        covers=["committed", "rolled back", "dropped", "both transactions", "conflict", "every way of reading", "two collections", "refused inside", "large"],
        bounds="histories of 2 operations (thorough: 3) out of 4 on an indexed collection (thorough: 7), 4 with schema changes (thorough: 6), 6 on a unique index, 7 on a collection created inside, looked at from inside and outside after each; commit, rollback and drop; two transactions of one operation each out of 4, both end orders; all reading methods; two collections; all int32 values below 2^30 of two free variables; large cases: a transaction of 300 writes, concrete but for one value (thorough: more)",
        outside="cursors kept open across the end of their transaction (P15), writes by a transaction after its commit or rollback, operations on the same documents from outside (P17)",
        max_steps=400000000,
    ),
    "P17": prop(
        features=["p17"],
        entries=["h_p17_docs", "h_p17_indexed", "h_p17_unique", "h_p17_ddl", "h_p17_create", "h_p17_transfer", "h_p17_cursor"],
        covers=["both succeed", "one fails", "cursor"],
        bounds="two clients; the second one's complete operation runs at every storage call of the first one's (free choice); pairs out of 9 document operations without index, 4 with index, 5 with a unique index, 4 schema changes x 8 other operations both ways, 7 on a collection that does not exist, 3 with an explicit transaction of two updates (thorough: 13, 8, 9, -, 7, 7), a cursor read step by step around 10 operations; 1-4 documents, all int32 values of two free variables",
        outside="more than two clients and overlaps in which both operations are split, waiting times, write skew between operations that write different documents, reads through an index inside an explicit transaction while others commit, hardware memory ordering (RocksDB's own synchronisation is modelled)",
        max_steps=400000000,
    ),
    "P18": prop(
        features=["p18", "p17"],
        entries=["h_p18_history", "h_p18_schema", "h_p18_new", "h_p18_txn", "h_p18_failed", "h_p18_twice", "h_p18_many", "h_p18_large"],
        covers=["crash during an operation", "crash after the operations", "no trace of the open transaction", "crash at the commit", "failed before the crash", "written after recovery", "crash within many", "crash after many"],
        bounds="a crash before and after every storage call, with every loss of unsynced batches; histories of 2 operations out of 4 with an ordinary index and of 1 with a unique one (thorough: 2 of 6), of 2 (thorough: 3) with one of 4 schema changes, of 2 (thorough: 3) out of 5 on a collection that does not exist, an explicit transaction of 4 operations with every ending, 3 failing operations, writes after recovery; inserts, updates, deletes and index creation over 4 documents (a crash at every call) and over 1050 (a crash at every commit); all int32 values below 2^30 of two free variables; documents, index, unique values and collection list compared after reopening",
        outside="torn or corrupted files and the recovery code of RocksDB itself (a batch is durable entirely or not at all), more than one crash within operations, longer histories",
        max_steps=400000000,
    ),
    "P19": prop(
        features=["p19"],
        entries=["h_p19_many", "h_p19_one", "h_p19_positions", "h_p19_history", "h_p19_nested", "h_p19_txn", "h_p19_typed", "h_p19_large"],
        covers=["none deleted", "one deleted", "two deleted", "all deleted", "none matches", "one of the matching", "several deleted", "emptied", "embedded", "committed", "rolled back", "typed", "large"],
        bounds="12 filters over 3 documents with all int32 values of the compared fields, without index, with an index on the compared field or on another; every pattern of matches among 6 (thorough: 8) documents, with and without index; histories of 3 (thorough: 4) steps out of 7 (4 kinds of deletes, inserts, updates); embedded, array and $in conditions; inside transactions; a typed collection and a missing one; large cases: 300 documents through 4 filters, concrete but for one value (thorough: more)",
        outside="unique indexes (P11), deletes overlapping with other clients (P17), longer histories",
    ),
    "P20": prop(
        features=["p20"],
        entries=["h_p20_slice", "h_p20_one", "h_p20_two", "h_p20_types", "h_p20_missing", "h_p20_order", "h_p20_pipeline", "h_p20_txn", "h_p20_invalid", "h_p20_large"],
        covers=["empty slice", "part", "everything", "one key", "two keys", "types", "missing key", "mixed classes", "pipeline", "transaction", "invalid order", "large"],
        bounds="slices: every uint64 skip and limit over 4 documents, with and without filter and index; one key: 4 documents, all int32 values, both directions as int32 and int64; two keys: 3 (thorough: 4) documents, all int32 values, all directions, both key orders; 10 groups of value types, 45 pairs of types mixed with a number; missing keys in every pattern; stages in 4 orders with every non-negative int32 and int64 number; every other direction refused; large cases: 60 documents through 6 slices, concrete but for one value (thorough: more)",
        outside="more documents, dotted sort keys (taken literally by the code), NaN and Decimal128 keys, arrays and documents as keys",
    ),
    "P21": prop(
        features=["p21"],
        entries=["h_p21_compose", "h_p21_three", "h_p21_fields", "h_p21_unset", "h_p21_abs", "h_p21_count", "h_p21_matched", "h_p21_group", "h_p21_key", "h_p21_sum", "h_p21_txn", "h_p21_order", "h_p21_large"],
        covers=["two stages", "three stages", "counted nothing", "fields added", "fields removed", "magnitude", "counted", "matched", "grouped", "sum of a field", "transaction", "chain", "large"],
        bounds="all pairs of 9 stages over 3 (thorough: 4) documents, all triples of 5 (thorough: 9) stages over 2 (thorough: 3) documents, 5 chains of up to 4, all int32 values of the sorted field, every non-negative int64 $skip and $limit; $addFields with constants of 10 types and other fields; $unset of 6 field lists; $abs over all int32, int64 and double values; $match in 8 forms with and without index; $count and $group over 4 documents; inside a transaction; large cases: 300 documents through 4 pipelines, concrete but for one value (thorough: more)",
        outside="$match after the first stage (rejected by the code), dotted field names, $group by a field and $sum of a field (known findings GROUPKEY and SUMOPERAND), counting nothing (none or zero)",
    ),
    "P23": prop(
        features=["p23"],
        entries=["h_p23_filter", "h_p23_logic", "h_p23_keys", "h_p23_update", "h_p23_shape", "h_p23_stage", "h_p23_stages", "h_p23_sort", "h_p23_insert", "h_p23_index", "h_p23_names", "h_p23_typed", "h_p23_ended"],
        covers=["rejected", "accepted", "typed", "ended"],
        bounds="28 kinds of operands (scalars symbolic) with 15 filter operators at 6 positions through find, update, delete and $match, in 12 nested forms with and without index; 12 update operators at 3 positions on 7 stored documents; 7 malformed updates and upserts; 11 stages at 4 positions and 12 forms of expressions and empty stages; sorting, inserting (5 places) and indexing (6 forms) every kind; 16 field names in 7 requests; names of collections in 9 requests; typed reads; use of an ended transaction; afterwards the database works, and is unchanged if the request was refused",
        outside="deeply nested documents (stack depth), very large requests, finite Decimal128 values, panics while memory is exhausted",
    ),
    "P22": prop(
        features=["p22"],
        entries=["h_p22_history", "h_p22_two", "h_p22_names", "h_p22_illegal", "h_p22_again", "h_p22_index", "h_p22_redefine", "h_p22_reopen", "h_p22_implicit", "h_p22_txn", "h_p22_indexnames", "h_p22_large"],
        covers=["exists already", "dropped", "unique index refused", "history", "two collections", "legal name", "illegal name", "made again", "value taken under the dropped index", "other index refuses", "index made again", "reopened", "made or not", "rolled back", "named index", "large"],
        bounds="histories of 4 (thorough: 5) steps out of 7 on one collection (create, insert, drop, index, unique index, drop index, clear), of 2 out of 5 on two collections with related names; every legal ASCII name of 1-2 characters; every illegal character at every position of a 3-character name and the empty name in 10 requests; drop and re-creation in 3 ways with 3 kinds of index before and 2 after; two indexes; close and reopen; 12 requests on a missing collection; rollback of creation and drop; index names; all int32 values of two free variables; large cases: 60 collections and 21 indexes, concrete but for one value (thorough: more)",
        outside="longer names, non-ASCII names, overlapping schema changes (P17)",
    ),
    "P24": prop(
        crate="server",
        features=["p24"],
        entries=["h_p24_bytes", "h_p24_sections", "h_p24_lengths", "h_p24_query", "h_p24_compressed", "h_p24_split", "h_p24_names", "h_p24_big", "h_p24_reply", "h_p24_write", "h_p24_commands", "h_p24_values"],
        covers=["refused", "read", "sequence", "sections", "lengths", "names", "big", "in pieces", "ends within", "reply", "written", "answered", "connection ended", "any value"],
        bounds="every body of up to 11 bytes (thorough: 14) under every operation code; up to 2 (thorough: 3) sections of 4 shapes in every order with one size off by -3..3, any kind byte, free names, 0-5 trailing bytes, all flags; all negative and over-long lengths and every length up to 70 and 5 beyond in the header and in front of documents and sequences; legacy queries with free name, skip and return; compressed messages with every original code, size and compressor; a message of each operation code delivered in two pieces or ended at every byte; names of 7 (thorough: 20) lengths up to 300 (5000) bytes with a free byte; documents of 10 (12) lengths up to 8 (70) kilobytes in both kinds of section in two pieces; replies of up to 3 fields; messages written again; commands of 13 names with 10 kinds of values and up to 2 further fields of 10 names; a value of every type byte with 0-2 (thorough: 6) bytes; no allocation above 32 MiB",
        outside="bodies of more bytes beyond these shapes, the optional compressors (not built by default), the TCP listener and real sockets, unknown flag bits",
    ),
    "P25": prop(
        crate="server",
        features=["p25"],
        entries=["h_p25_insert", "h_p25_find", "h_p25_update", "h_p25_delete", "h_p25_several", "h_p25_aggregate", "h_p25_cursor", "h_p25_cursors", "h_p25_limits", "h_p25_session", "h_p25_sessions", "h_p25_refused", "h_p25_large", "h_p25_changes", "h_p25_stream"],
        covers=["insert refused", "inserted", "found", "upserted", "updated", "deleted", "several", "aggregated", "one cursor", "killed", "two cursors", "slice", "committed", "aborted", "failed inside", "replaced", "two sessions", "conflict", "refused", "large", "changed meanwhile", "stream"],
        bounds="2-5 documents with two free int32 values; inserts with any split between command and sequence; 4 filters with slices; updates with multi and upsert; deletes with 5 forms of limit; two updates or deletes in one command; 4 pipelines; every int32 batch size (three free ones per cursor); two cursors in every order of 5 (thorough: 6) steps with one killed; skip 0-5 with limit 0-5; transactions of up to 3 commands, reading, writing or failing, with commit, abort and replacement; two sessions with and without conflict, all ends; 16 commands that cannot be carried out; 4 changes while a cursor is open; three commands in one connection with 4 read and write granularities; 250 (thorough: 450) documents with 6 batch sizes, as a single batch, with a limit and by aggregation",
        outside="several connections served by real threads at once (commands are carried out one after another), sorting and projection (the server has none), updates and deletes sent as document sequences (refused)",
        max_steps=400000000,
    ),
    "P26": prop(
        crate="pyb",
        facade=True,
        features=["p26"],
        entries=["h_p26_values", "h_p26_refused", "h_p26_read", "h_p26_methods", "h_p26_key", "h_p26_errors", "h_p26_database"],
        covers=["stored", "value refused", "no counterpart", "read", "method", "made key", "exception", "reopened"],
        bounds="14 shapes of document with every int64, double, boolean and strings of up to 2 ASCII bytes (and one of 2-4 byte characters), nested to depth 3; integers of up to 128 bits and 7 other kinds of objects without counterpart at 3 places through 8 methods; 19 kinds of stored values (dates at 18 instants, regular expressions with 4 option texts) at 3 places read by find_one, find and aggregate; 9 methods on two documents with free int64 values; 14 requests that fail; collection names of one printable character. core.py: every method, with free integers in its documents; collection names of 1-2 characters next to one existing; with statements entered once and twice, left normally and by an exception",
        outside="the argument parsing PyO3 generates, how Python objects are freed, what Python's re refuses beyond two forms, text with lone surrogates, other Python threads, Decimal128, keys and undefined values read as None",
        assumptions=COMMON_ASSUME + ["CPython's C API is replaced by a model of the calls PyO3 makes (pyb/src/vh_cpy.rs); counterexamples are replayed on the real CPython 3.12"],
    ),
    "P27": prop(
        features=["p27"],
        entries=["h_p27_texts", "h_p27_words", "h_p27_split", "h_p27_long", "h_p27_spaces"],
        covers=["equal", "different", "separator", "long"],
        bounds="all pairs of texts of 1-4 (thorough: 5) lines of one letter out of three; of 1-3 lines of 0-2 letters out of two; of 1-2 lines of 1-3 free printable characters, blanks and tabs; two other separators; texts of 20 (thorough: 30) lines with two edits of 3 kinds at every place",
        outside="longer texts, non-ASCII lines, lines that contain colour codes",
    ),
}
