"""Property texts; mkmeta.py writes properties.jsonl and MANIFEST.json from them."""
C = "src/polodb_core/"
S = "src/polodb/"


def P(id, title, statement, over, qtext, why, files, mech, state, observe):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], state=[dict(name=state, meaning="what the property speaks about", where=files[0])], observe_at=[observe], hook_needed=None))


ALL = [
    P("P01", "Comparison filters select exactly the documents that satisfy them",
      "A find whose filter compares a field with a value, as plain equality or with $eq, $ne, $gt, $gte, $lt or $lte, returns every document whose field satisfies the comparison and no other, each exactly once. Integers and doubles compare by exact numeric value, other values by the order of their type; an equality never matches a missing field or a value of another type.",
      ["inputs"], "all stored values and query values of every comparable scalar type, all seven comparison forms",
      "The comparison has to be right for every pair of values, including precision limits of doubles, negative zero and extreme integers; a test names a few pairs.",
      [C + "vm/vm.rs", C + "vm/op.rs", C + "vm/codegen.rs", C + "utils/bson.rs"],
      [("filter compiler", C + "vm/codegen.rs"), ("comparison instructions", C + "vm/op.rs"), ("value ordering", C + "utils/bson.rs value_cmp")],
      "documents of a collection", "Collection::find results"),
    P("P02", "Logical operators compose conditions as boolean algebra",
      "A filter built from conditions with $and, $or, $not, several fields or several operators on a field selects exactly the documents for which the boolean combination of its conditions is true, in whatever order and nesting they are written and whether or not one of them is on _id. Every selected document appears once.",
      ["inputs", "programs"], "all values of the compared fields and operands, over the enumerated filter shapes up to nesting depth 3",
      "Correctness of the compiled jumps depends on the position and nesting of each operator together with the truth value of every condition; tests use a handful of shapes with fixed data.",
      [C + "vm/codegen.rs", C + "vm/vm.rs", C + "vm/subprogram.rs"],
      [("emission of $and/$or/$not", C + "vm/codegen.rs"), ("jump and result register handling", C + "vm/vm.rs")],
      "documents of a collection", "Collection::find results"),
    P("P03", "Dotted paths reach embedded fields and nothing else",
      "A condition on a dotted path is decided by the value at the end of the path through embedded documents; a document in which any step of the path is absent or not a document does not satisfy an equality or an ordering on it. Fields with similar names at other levels are never consulted.",
      ["inputs", "configurations"], "all values at the reached position, all presence/shape combinations of the steps up to depth 3",
      "The shapes a stored document can have along the path multiply with the values; tests fix one shape.",
      [C + "vm/vm.rs", C + "vm/codegen.rs", C + "utils/bson.rs", C + "vm/query_matcher.rs"],
      [("recursive field fetch", C + "vm/vm.rs"), ("path emission", C + "vm/codegen.rs")],
      "documents of a collection", "Collection::find results"),
    P("P04", "Membership and array operators match exactly",
      "$in and $nin select a document exactly when its field, or one element of it when it is an array, equals one of the candidates or none of them; $all needs every candidate; $size needs an array of exactly that length. Candidates are compared by value, integers and doubles by exact number.",
      ["inputs", "configurations"], "all candidate and stored scalar values, candidate lists and stored arrays up to length 3",
      "Candidate lists, element positions and numeric representations combine; tests pick a few lists.",
      [C + "vm/query_matcher.rs", C + "vm/op.rs", C + "vm/vm.rs", C + "vm/codegen.rs"],
      [("candidate matching", C + "vm/query_matcher.rs"), ("array operators", C + "vm/vm.rs")],
      "documents of a collection", "Collection::find results"),
    P("P05", "Looking a document up by _id gives what a full scan would give",
      "A filter with an equality on _id, alone or with other conditions in any order, returns exactly the documents that the same conditions select when every document is examined. The same holds when the filter selects the documents of an update, a delete or an aggregation.",
      ["inputs", "programs"], "all _id values and types of the bound, all values of the other conditions, the enumerated filter shapes",
      "The shortcut skips the conditions' general evaluation; it only shows when the condition beside _id is false for the one document found.",
      [C + "vm/codegen.rs", C + "vm/vm.rs", C + "cursor.rs"],
      [("primary key shortcut", C + "vm/codegen.rs"), ("cursor positioning", C + "cursor.rs")],
      "documents of a collection", "find, update, delete and aggregate results"),
    P("P06", "Collections are isolated from one another",
      "No operation on one collection reads, changes, counts or removes documents or index entries of another collection, whatever the two names and keys are. Dropping one collection leaves every other exactly as it was.",
      ["inputs", "histories"], "all pairs of legal names up to 2 characters plus prefix-related names, all keys of the bound, all operations",
      "Collections share one key space and are told apart by key prefixes only; a leak needs particular names and keys.",
      [C + "cursor.rs", C + "utils/bson.rs", C + "db/db_inner.rs", C + "index/index_helper.rs"],
      [("key prefixing", C + "utils/bson.rs stacked_key"), ("prefix bounded cursor", C + "cursor.rs")],
      "the shared ordered key space", "results of operations on the other collection"),
    P("P07", "The primary key identifies exactly one document",
      "Two documents of a collection never have the same _id: an insert of an existing _id fails with a duplicate key error and changes nothing, and distinct _id values of any key type never collide. A document inserted without _id, or with a null one, gets a fresh unique one, which the insert reports.",
      ["inputs", "histories"], "all pairs of _id values over all key types of the bound",
      "Key encodings may collide for particular pairs of values or types; tests try a few distinct ids.",
      [C + "db/db_inner.rs", C + "utils/bson.rs"],
      [("duplicate check", C + "db/db_inner.rs insert_one_with_meta"), ("key encoding", C + "utils/bson.rs")],
      "documents of a collection", "insert results, find and count results"),
    P("P08", "What was stored is what is read back",
      "A document read by find is equal to the inserted one in every field, type, value and field order, apart from an added _id. This holds after further writes to other documents, after commit, and after the database is closed and reopened.",
      ["inputs", "histories"], "all values of every supported type, nesting and array shapes of the bound",
      "Serialisation must be lossless for every value; tests store a few documents.",
      [C + "db/db_inner.rs", C + "vm/vm.rs", C + "db/client_cursor.rs"],
      [("serialisation on insert", C + "db/db_inner.rs"), ("decoding on read", C + "vm/vm.rs")],
      "documents of a collection", "Collection::find, find_one"),
    P("P09", "An index never changes the answer to a query",
      "At every point of any history of inserts, updates, deletes, index creation and removal, a query on an indexed field returns the same documents as it would without the index. This includes indexes created when documents already exist and documents without the field.",
      ["inputs", "histories"], "all values of the bound, all histories of up to 4 steps of the enumerated kinds",
      "A missing or stale index entry only shows when a later query goes through the index for just that value.",
      [C + "index/index_helper.rs", C + "index/index_builder.rs", C + "vm/vm.rs", C + "vm/codegen.rs"],
      [("index maintenance", C + "index/index_helper.rs"), ("index build and drop", C + "index/index_builder.rs"), ("index lookup", C + "vm/codegen.rs")],
      "index entries beside the documents", "find results with and without the index"),
    P("P10", "A regular expression selects exactly the strings it matches",
      "A filter with $regex, or with a regular expression among the candidates of $in, $nin or $all, selects exactly the documents whose field is a string (or an array holding a string) that the expression matches under its options; anchors refer to the string itself. Values that are not strings never match. An invalid expression, an unknown option or an operand of another type is an error, and other conditions of the filter keep their meaning beside it.",
      ["inputs"], "every ASCII string up to the bound against a list of expressions and options, every place in a filter",
      "Which strings match depends on every character, on the anchors and on the options; tests show one string and one pattern.",
      [C + "vm/query_matcher.rs", C + "vm/codegen.rs", C + "vm/vm.rs"],
      [("compile and match", C + "vm/query_matcher.rs"), ("Regex instruction", C + "vm/vm.rs")],
      "stored strings and expressions", "documents selected, errors"),
    P("P11", "A unique index is never violated and never refuses a free value",
      "While a unique index exists no two documents have the same value in its field: the insert or update that would make it so fails and changes nothing. A value becomes free again when its document is deleted, changed or rolled back, and an update that keeps a document's own value is accepted.",
      ["inputs", "histories"], "all values of the bound, histories of inserts, updates, deletes and rollbacks up to 4 steps",
      "Both directions depend on the index entry of every earlier state having been maintained, for the specific value.",
      [C + "index/index_helper.rs", C + "index/index_builder.rs", C + "vm/vm.rs"],
      [("unique check", C + "index/index_helper.rs"), ("update re-index", C + "vm/vm.rs")],
      "unique index entries", "results of insert, update, create_index and find"),
    P("P12", "Update operators change exactly what they say",
      "Applying an update gives every matched document the result of applying each of its operators once, leaving all other fields and their order as they were; the primary key never changes. An operation on a value it does not apply to, or whose result is not representable, fails and changes nothing.",
      ["inputs", "programs"], "all field values and operands of the bound, all operators and pairs of operators",
      "Overflow, absent fields, type promotion and operator combinations each have their own outcome; tests cover single operators with small numbers.",
      [C + "vm/update_operators", C + "vm/vm.rs", C + "vm/codegen.rs"],
      [("operators", C + "vm/update_operators"), ("operator call", C + "vm/vm.rs"), ("update compilation", C + "vm/codegen.rs")],
      "the matched documents", "find after update"),
    P("P13", "Updates reach exactly the matching documents and report them",
      "update_many changes every matching document and no other, update_one exactly one of them if there is any; the reported matched count is the number of documents selected and the modified count the number an operator was applied to ($min and $max count where they replace the value, $rename where the field exists). With upsert, an update that matches nothing inserts one document holding the query's equalities and the set fields, and one that matches inserts nothing.",
      ["inputs", "programs"], "all values of the compared and updated fields for up to 3 documents, all enumerated update forms",
      "Which documents match and which already hold the new value varies independently per document; tests fix both.",
      [C + "db/db_inner.rs", C + "vm/vm.rs", C + "vm/subprogram.rs", C + "vm/codegen.rs"],
      [("update loop", C + "vm/vm.rs"), ("result counts", C + "db/db_inner.rs internal_update"), ("upsert", C + "db/db_inner.rs upsert")],
      "documents of a collection", "UpdateResult and find"),
    P("P14", "A failed operation leaves no trace",
      "When a single operation outside of an explicit transaction returns an error, for whatever reason including a storage failure at any point, no part of its effect is visible afterwards in documents, indexes or the list of collections. The database stays usable and the same operation can succeed later.",
      ["fault_sequences", "inputs", "histories"], "every failing document of a multi-document operation and one injected storage failure at every storage call",
      "The failure has to hit between two writes of one operation; tests cannot inject it at each one.",
      [C + "coll/collection.rs", C + "transaction/transaction_inner.rs", C + "db/rocksdb_transaction.rs", C + "db/db_inner.rs"],
      [("autocommit", C + "coll/collection.rs"), ("transaction drop", C + "transaction/transaction_inner.rs")],
      "documents, index entries and collection metadata", "every read after the failed call"),
    P("P15", "Handles may be used and dropped in any order",
      "Databases, collections, transactions and cursors may be cloned, used and dropped in any order without a panic, a crash or a touch of freed memory. A live cursor outside of a transaction returns its results whatever else is dropped; a cursor inside of one works until the transaction ends and then reports an error or the end; a transaction can be ended after the database handle is gone. When the last database handle is dropped, collection handles report an error. When everything is dropped, no lock remains and the path can be opened again with what was committed; before that, a second opening is refused.",
      ["histories", "inputs"], "all orders of dropping eight handles after each ending, all short histories of uses and drops, all kinds of cursors, all values of the bound",
      "The storage library is told by raw pointers what to use and free; a wrong order corrupts memory only when a particular handle outlives another one.",
      [C + "db/rocksdb_iterator.rs", C + "db/rocksdb_transaction.rs", C + "db/rocksdb_wrapper.rs", C + "transaction/transaction_inner.rs", C + "db/client_cursor.rs", C + "cursor.rs"],
      [("iterators and their transaction", C + "db/rocksdb_iterator.rs"), ("closing of the store", C + "db/rocksdb_wrapper.rs")],
      "handles and what they keep alive", "results of cursors, errors, and reopening the path"),
    P("P16", "A transaction is all or nothing and sees its own writes",
      "Operations inside a transaction see its earlier writes; nobody else sees any of them before commit and everybody sees all of them after it; after rollback, or when the transaction is dropped, none of them ever happened. This covers documents, indexes, counts and collections created inside.",
      ["histories", "inputs"], "all histories of up to 3 operations inside and reads outside, all values of the bound, each ending",
      "Visibility has to be right for every kind of operation at every point of every history; tests check one insert.",
      [C + "transaction/transaction.rs", C + "transaction/transaction_inner.rs", C + "coll/txn_collection.rs", C + "db/rocksdb_transaction.rs"],
      [("transactional collection", C + "coll/txn_collection.rs"), ("commit and rollback", C + "transaction/transaction_inner.rs")],
      "uncommitted and committed documents", "reads inside and outside of the transaction"),
    P("P17", "Concurrent writers never lose or mix updates",
      "When operations of two clients overlap, the outcome is that of running them one after the other in some order, or one of them fails with an error and has no effect. No increment, insert or uniqueness guarantee is lost.",
      ["schedules", "inputs"], "every storage call of one operation as the point where the other client's complete operation runs, all values of the bound",
      "The overlap has to fall between a particular read and write; thread tests hit such points by chance only.",
      [C + "db/rocksdb_transaction.rs", C + "db/rocksdb_wrapper.rs", C + "vm/vm.rs", C + "db/db_inner.rs"],
      [("row locks and reads for update", C + "db/rocksdb_transaction.rs"), ("update loop", C + "vm/vm.rs")],
      "documents and key locks", "results of both operations and later reads"),
    P("P18", "Committed data survives a crash, uncommitted data never appears",
      "After a crash at any moment the reopened database holds the effect of every operation and transaction that had been reported successful, and of each operation in flight either all or nothing. Indexes agree with the documents and the database opens and works normally.",
      ["crash_points", "histories"], "a crash before and after every storage call of the enumerated histories, with any loss of unsynced writes",
      "The crash has to fall at a particular call; tests close the database properly.",
      [C + "db/rocksdb_wrapper.rs", C + "db/rocksdb_transaction.rs", C + "transaction/transaction_inner.rs", C + "db/rocksdb_options.rs"],
      [("write options", C + "db/rocksdb_wrapper.rs"), ("commit", C + "db/rocksdb_transaction.rs")],
      "durable storage", "reads after reopening the durable image"),
    P("P19", "Deletes remove exactly the matching documents",
      "delete_many removes every matching document and no other, delete_one removes one matching document if there is any, and both report how many they removed. Counting the collection's documents always gives the number of documents find returns.",
      ["inputs", "histories"], "all values of the compared fields for up to 3 documents, the enumerated filters, with and without index",
      "Removing entries while walking over them goes wrong only for particular positions of the matches.",
      [C + "db/db_inner.rs", C + "vm/vm.rs", C + "vm/codegen.rs", C + "vm/subprogram.rs"],
      [("delete loop", C + "vm/vm.rs"), ("delete compilation", C + "vm/subprogram.rs")],
      "documents of a collection", "DeleteResult, count_documents and find"),
    P("P20", "Sorting, skipping and limiting return the right slice",
      "A find with a sort returns the matching documents ordered by the keys in the order they are given, each ascending or descending as asked, with equal documents in their stored order; skip and limit then take exactly the requested slice of that sequence. Without sort the slice is taken of the stored order.",
      ["inputs"], "all sort key values for 3 documents, all directions of one or two keys, all skip and limit numbers",
      "Order errors need particular value combinations, ties and slice positions.",
      [C + "vm/vm_sort.rs", C + "vm/vm_skip.rs", C + "vm/vm_limit.rs", C + "action/find.rs", C + "vm/codegen.rs"],
      [("sort stage", C + "vm/vm_sort.rs"), ("skip and limit stages", C + "vm/vm_skip.rs, vm_limit.rs"), ("find options", C + "action/find.rs")],
      "documents of a collection", "Collection::find results"),
    P("P21", "An aggregation pipeline is the composition of its stages",
      "The result of an aggregation is what results from applying its stages one after the other to the collection's documents: $match filters, $skip, $limit and $sort slice and order, $count counts, $group forms one group per distinct key with its counts, $addFields and $unset change only the named fields. Every document reaching the end is returned exactly once and stored documents never change.",
      ["inputs", "programs"], "all field values for 3 documents, all pipelines of the enumerated stages up to length 3",
      "Stages keep state across documents and interact at the end of input; tests run single stages.",
      [C + "vm/vm_group.rs", C + "vm/vm_count.rs", C + "vm/vm_add_fields.rs", C + "vm/vm_unset.rs", C + "vm/codegen.rs", C + "vm/operators", C + "vm/vm_external_func.rs"],
      [("stage functions", C + "vm/vm_*.rs"), ("pipeline emission", C + "vm/codegen.rs"), ("expression operators", C + "vm/operators")],
      "documents of a collection", "Collection::aggregate results"),
    P("P22", "Collections and indexes are created, listed and dropped consistently",
      "The list of collections names exactly those created, explicitly or by a first insert or index, and not dropped since, each once; creating an existing one fails, illegal names are refused everywhere and change nothing. Dropping a collection removes its documents and indexes for good, so that one created later under the same name starts empty, and dropping an index only ends its effects.",
      ["histories", "inputs"], "all names up to 2 characters, all histories of create, insert, index, drop up to 4 steps",
      "Left-over documents, index entries or metadata show only in a later incarnation of the same name.",
      [C + "db/db_inner.rs", C + "coll/collection_info.rs", C + "index/index_builder.rs"],
      [("collection metadata", C + "db/db_inner.rs"), ("drop", C + "db/db_inner.rs drop_collection_internal")],
      "collection metadata", "list_collection_names and operations on the collections"),
    P("P23", "No request makes the database panic",
      "Every filter, update, pipeline, sort, name or document, however malformed, gives a result or an error; it never panics, hangs, or leaves the database unusable. A rejected request changes nothing.",
      ["inputs", "programs"], "all operators in all positions with operands of every type, all values of the bound",
      "The set of malformed requests is open-ended: each operator with each operand type in each position.",
      [C + "vm/codegen.rs", C + "vm/vm.rs", C + "vm/update_operators", C + "vm/operators", C + "vm/query_matcher.rs"],
      [("validation in the compiler", C + "vm/codegen.rs"), ("operator implementations", C + "vm/vm.rs")],
      "the open database", "the call's result and later operations"),
    P("P24", "The server decodes every byte sequence safely and exactly",
      "Reading a message from a connection gives exactly the message encoded by the bytes, consuming exactly the length its header announces, or an error; no byte sequence makes the server panic, hang, or allocate without bound. Writing a message and reading it back gives the same message.",
      ["inputs"], "all byte values of messages up to the stated size, all header lengths, section kinds and counts",
      "Hostile or truncated input is unbounded in variety: length fields, section kinds and counts interact.",
      [S + "wire/message.rs", S + "wire/header.rs", S + "bson_util.rs", S + "checked.rs", S + "sync_read_ext.rs", S + "reply.rs"],
      [("message reader", S + "wire/message.rs"), ("length checked arithmetic", S + "checked.rs"), ("document reader", S + "bson_util.rs")],
      "the byte stream of a connection", "Message::read_from, Reply::write_to"),
    P("P25", "Server commands have the effect and the answer of the embedded operations",
      "Each insert, find, update, delete, aggregate and transaction command has exactly the effect of the corresponding operation and its reply states it, addressed to the request that asked. A cursor delivers every matching document exactly once over its batches whatever the batch sizes and other cursors, and commands of a transaction take effect together or not at all.",
      ["inputs", "histories"], "all values of the bound, batch sizes and counts up to 4, histories of up to 4 commands",
      "Batch boundaries, interleaved cursors and session states combine; the tests run one client with defaults.",
      [S + "handlers", S + "app_context.rs", S + "session_context.rs", S + "main.rs", S + "reply.rs"],
      [("command handlers", S + "handlers"), ("cursor and session tables", S + "app_context.rs")],
      "database, open cursors and sessions", "reply documents"),
    P("P26", "Values, results and errors cross between Python and the database unchanged",
      "A document of strings, booleans, 64-bit integers, floats, lists and dicts given from Python is the same document, with the same types and order, that a Rust client and a later Python reader see; other stored values are read as their Python counterparts. A value without a counterpart is refused with an exception and changes nothing. Every method has the effect, and reports the outcome, of the embedded operation; what that refuses is raised as an exception, and no argument or stored value makes the binding panic.",
      ["inputs", "configurations"], "all values of each type, integers of any size, documents nested up to depth 3, every method of the two classes",
      "Each value type takes its own way through the translation in both directions and inside filters, updates and pipelines; tests store a few strings and numbers.",
      ["py-polodb/src/py_database.rs", "py-polodb/src/helper_type_translator.rs", "py-polodb/polodb/core.py"],
      [("value translation", "py-polodb/src/helper_type_translator.rs"), ("methods of the classes", "py-polodb/src/py_database.rs")],
      "documents of a collection", "results and exceptions of PoloDB and Collection in Python"),
    P("P27", "A line diff is empty exactly for equal texts and explains every difference",
      "Comparing two texts by lines reports nothing exactly when they are equal; otherwise the reported removed and added lines, applied to the first text, give the second. Line numbers name the lines they stand for.",
      ["inputs"], "all pairs of texts of up to 4 lines over an alphabet of distinguishable lines",
      "The edit path depends on the whole alignment matrix; tests try four pairs.",
      ["src/polodb_line_diff/lib.rs", "src/polodb_line_diff/line.rs"],
      [("alignment and backtracking", "src/polodb_line_diff/lib.rs")],
      "none", "line_diff and its formatted output"),
]

NOT_APPLICABLE = []
