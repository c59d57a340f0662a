#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of truth for titles/statements)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
      quantifier=dict(over=over, text=qtext), why_tests_cant=why,
      anchors=dict(files=files,
        state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
        mechanism=[dict(name=a, where=b) for a, b in mechanism],
        observe_at=list(observe), hook_needed=hook)))

p("C01", "Stored values decode to exactly what was encoded",
  "Every value of every supported type (null, record link, integer, double, fixpoint, date, time, character, string with or without language, XML literal, URI with or without prefix, blob, variable) within its documented range, once encoded and stored in a field, is read back with the same type, content, length and attached part. It keeps doing so whatever else is stored, overwritten or deleted in the database, and overwriting it later releases it without disturbing others. The plain and the copying forms of every decoder agree, and a too small copy buffer is refused.",
  ["inputs", "histories"], "all value types, boundary magnitudes, lengths around the short/long storage limits, arbitrary bytes, and any mix of other values in the same database",
  "selftest encodes a fixed set of about a dozen values per type; the encoding boundaries, extra-part combinations and interactions through shared storage are a product no fixed sample covers.",
  ["Db/dbdata.c", "Db/dbdata.h"],
  [("encode/decode functions per type", "Db/dbdata.c wg_encode_*, wg_decode_*"), ("small/full integer split", "Db/dbdata.h fits_smallint")],
  [("encoded value", "tagged word or offset of an object in the segment", "record field")], ["wg_get_field", "wg_decode_*"])

p("C02", "Records and fields behave like independent fixed-size arrays",
  "After any sequence of creating, deleting and updating records, a scan returns every live record exactly once and nothing else, each record keeps the length it was created with, and each field holds the last value successfully stored there (null when none was). Calls with an invalid record, field number, length or value report an error and change nothing.",
  ["histories", "inputs"], "all sequences of create/delete/set/scan operations over records of any length, including zero-length and very long ones",
  "the unit tests build a few records in creation order; reuse of freed areas, multi-area growth and error paths depend on the order and sizes of the whole history.",
  ["Db/dbdata.c", "Db/dballoc.c"],
  [("record creation and deletion", "Db/dbdata.c wg_create_record, wg_delete_record"), ("sequential object scan", "Db/dbdata.c wg_get_first_record, wg_get_next_record"), ("variable-length allocator", "Db/dballoc.c")],
  [("object header word", "size and in-use marks of neighbouring objects", "Db/dballoc.h")], ["wg_get_first_record/next", "wg_get_record_len", "wg_get_field"])

p("C03", "Live objects never share storage and freed storage is reusable",
  "At every moment all live records and strings occupy disjoint memory inside the database, and the content of one is never altered by creating, changing or deleting another. Storage of deleted records and released strings becomes available again: any workload that fits once and then deletes everything it created can be repeated indefinitely.",
  ["histories"], "all histories of allocations and frees of every object kind and size, in every order",
  "an allocator fault needs a particular sequence of sizes, frees and splits to appear; tests allocate and free in a handful of fixed patterns.",
  ["Db/dballoc.c", "Db/dballoc.h", "Db/dbdata.c"],
  [("segregated free lists, designated victim, coalescing", "Db/dballoc.c wg_alloc_gints, wg_free_object, split_free"), ("fixed-length cell lists", "Db/dballoc.c alloc_fixlen_object, extend_fixedlen_area")],
  [("free lists", "buckets of free objects per area", "db_memsegment_header")], ["record addresses and lengths", "wg_decode_str pointers", "wg_create_record result"])

p("C04", "A full database refuses work cleanly and stays intact",
  "When the database runs out of space in any operation (creating records, encoding values, setting fields and links, creating indexes, importing documents or CSV files), that operation reports failure instead of crashing, and everything stored earlier keeps its exact content, stays scannable and stays consistent with its links, parents and indexes. Two outcomes that the documentation announces as damage are bounded: after a field update that reports a fatal index error (-3, or -4 with indexes) the records and links themselves are still right, and an import of a document or a CSV file that reports -2 may leave parts of it but harms nothing else. After deleting data the database accepts new data again.",
  ["fault_sequences", "histories"], "every operation at every degree of fullness, i.e. each allocation inside an operation being the one that fails",
  "no test drives a database to exhaustion; the failing allocation can be any of several inside each operation.",
  ["Db/dballoc.c", "Db/dbdata.c", "Db/dbhash.c", "Db/dbindex.c"],
  [("allocation failure checks", "callers of wg_alloc_gints and alloc_fixlen_object")], [], ["return codes", "full re-read of all data"])

p("C05", "Equal long strings are shared and live exactly while referenced",
  "Encoding an equal string-like value (same type, text and attached part) again yields the same stored value while it is alive, and values differing in type, text or attached part never share one. A stored string stays readable as long as at least one field holds it, and is released when the last field holding it is overwritten or its record deleted, however often it was shared.",
  ["histories", "inputs"], "all histories of storing, overwriting and deleting shared strings, including strings whose hashes collide",
  "reference counting errors need a specific interleaving of shares and releases and colliding hash chains, which the fixed tests do not generate.",
  ["Db/dbdata.c", "Db/dbhash.c"],
  [("string lookup by hash chain", "Db/dbdata.c find_create_longstr"), ("reference counts and removal", "Db/dbdata.c free_field_encoffset, Db/dbhash.c wg_remove_from_strhash")],
  [("string hash table", "buckets of chained stored strings", "db_memsegment_header strhash_area_header")], ["equality of encoded values", "wg_decode_*", "space after release"])

p("C06", "Linked records are protected and their parents are known exactly",
  "A record can be deleted if and only if no live record's field (its own included) links to it; otherwise the deletion is refused with the code for referenced records and changes nothing. Listing the parents of a record returns exactly the live records that currently link to it, through any history of setting, overwriting and deleting links.",
  ["histories"], "all histories of link creation, overwriting, deletion, including self links, cycles and several links between the same pair",
  "tests use small fixed parent/child fixtures; back reference chains are order dependent.",
  ["Db/dbdata.c"],
  [("back link chains", "Db/dbdata.c wg_set_field, remove_backlink..., wg_get_first_parent")],
  [("back link list of a record", "cells naming each linking record", "record header")], ["wg_delete_record result", "wg_get_first_parent/wg_get_next_parent"])

p("C07", "An ordered index always mirrors the table",
  "For every ordered index, with or without a match template, created before or after the data, the rows reachable through it are exactly the live records that have the indexed column and match the template, in ascending order of the column, after any history of inserts, updates, deletes and index creation or removal. A search of the index for one value finds a row having it exactly when there is one. Dropping an index changes no data, and looking up indexes reports exactly those that exist.",
  ["histories", "inputs"], "all histories of record and index operations over columns with arbitrary mixtures of types, duplicates, nulls, short rows and linked records",
  "tree rebalancing and node splitting cases depend on insertion and deletion order and on duplicates; tests insert a few hundred generated ints and a fixed template fixture.",
  ["Db/dbindex.c", "Db/dbdata.c", "Db/dbcompare.c"],
  [("T-tree insertion, deletion, rotation", "Db/dbindex.c"), ("index maintenance on field update and record delete", "Db/dbindex.c wg_index_add_field, wg_index_del_field, wg_index_add_rec, wg_index_del_rec"), ("templates", "Db/dbindex.c wg_match_template")],
  [("T-tree nodes", "bounds and slots of row offsets", "wg_tnode")], ["range queries through the index", "wg_get_all_indexes", "wg_column_to_index_id"])

p("C08", "A hash index lookup finds exactly the matching rows",
  "Looking up a combination of column values in a single- or multi-column hash index returns exactly the live records whose columns currently equal those values, each once, for all value types the index supports, after any history of inserts, updates and deletes and whenever the index was created.",
  ["histories", "inputs"], "all histories over hash indexed columns, all supported value types, colliding keys included",
  "the existing test checks a handful of keys on a static fixture.",
  ["Db/dbhash.c", "Db/dbindex.c"],
  [("key construction and bucket lists", "Db/dbhash.c wg_idxhash_store, wg_idxhash_remove, wg_idxhash_find"), ("key encoding", "Db/dbdata.c wg_decode_for_hashing")],
  [("hash index store", "chains of key strings with lists of rows", "Db/dbhash.c")], ["wg_search_hash"])

p("C09", "Queries return exactly the rows a full scan would select",
  "A query with any combination of column conditions (=, !=, <, >, <=, >=), a match record and a row limit returns exactly the live records that satisfy all of them, each once, whichever indexes exist; the reported row count equals the number of rows fetched. A row limit only cuts the result short, and a query over an index returns rows of that column in order.",
  ["inputs", "histories", "configurations"], "all tables, all index configurations, all condition lists over all value types, contradictory and repeated conditions included",
  "selftest runs a fixed list of queries on one generated table of integers; optimiser choices, bounds handling and type mixtures form a large product.",
  ["Db/dbquery.c", "Db/dbindex.c"],
  [("index choice and bounds", "Db/dbquery.c most_restricting_column, find_ttree_bounds"), ("row filtering", "Db/dbquery.c check_arglist"), ("result prefetch", "Db/dbquery.c wg_make_query_rc")],
  [("query object", "position or prefetched row list", "wg_query")], ["wg_make_query", "wg_make_query_rc", "wg_fetch", "res_count"])

p("C10", "Single-condition record search enumerates each match once",
  "Starting with no previous row and passing each returned row back, the find-record functions return every live record whose given column satisfies the condition exactly once and then end, for every value type and condition, with and without an index on the column.",
  ["inputs", "configurations"], "all value types, conditions, tables and index configurations",
  "tests sample one value per type; the index path and scan path must agree on all inputs.",
  ["Db/dbquery.c"],
  [("find by scan or index", "Db/dbquery.c wg_find_record, find_record_ttree")], [], ["wg_find_record*"])

p("C11", "Value comparison is one total order that respects values",
  "Comparing encoded values is antisymmetric, transitive and total: values of the same type order by their natural value order, equal content compares equal however it is stored, different types never compare equal, and comparing records is lexicographic over length and fields. The same order governs queries, searches and ordered indexes.",
  ["inputs"], "all pairs and triples of values of all types, including nested records",
  "tests compare a few hand-picked pairs; an order law is a statement about all triples.",
  ["Db/dbcompare.c", "Db/dbcompare.h"],
  [("type ranked comparison", "Db/dbcompare.c wg_compare")], [], ["wg_compare (WG_COMPARE)"])

p("C12", "Dump and import reproduce the database",
  "Importing a dump into another sufficiently large database reproduces every record, field value, link, string, index and document of the dumped one, and the imported database then works like the original under any further operations. Dumping does not change the dumped database, and a dump of the import equals the original in content.",
  ["histories", "inputs", "configurations"], "all database contents and histories before the dump, any target size, any operations after the import",
  "tests dump one fixture and compare a few fields in the same segment.",
  ["Db/dbdump.c", "Db/dbmem.c"],
  [("segment image with size header and checksum", "Db/dbdump.c wg_dump, wg_import_dump")], [("segment header", "offsets, sizes, marks and checksum", "db_memsegment_header")], ["wg_dump", "wg_import_dump", "full content comparison"])

p("C13", "Damaged or foreign dump files are rejected without harm",
  "Checking a dump file reports failure whenever the file was truncated or any byte it covers was changed, and success with the right minimum and maximum size for an intact one. Importing a missing, foreign, truncated or too large file reports an error, never crashes, and leaves the existing database content, its journal and its usability as they were.",
  ["fault_sequences", "inputs"], "every truncation length and every changed byte position of a dump file, arbitrary garbage files",
  "no test damages a dump file.",
  ["Db/dbdump.c", "Db/crc1.h"],
  [("checksum and header checks", "Db/dbdump.c wg_check_dump, wg_check_header_compat")], [], ["wg_check_dump", "wg_import_dump"])

p("C14", "Replaying the journal rebuilds the database",
  "With journaling on, replaying the journal into an empty database with enough room, or the journal written since a dump into the imported dump, yields the same records with the same values, links, parents and document structure as the original, whatever operations were performed (including refused ones, encoded values that were never stored and reuse of freed space) and whatever was allocated and freed in the target before. Indexes that exist in the target end up covering the replayed records, and replay leaves journaling of the target on if it was on. Journaling does not change what any operation does.",
  ["histories", "configurations"], "all histories of journaled operations (record creation and deletion, every value type, links, JSON documents, space reuse), any target with room for the content, any dump point",
  "the log test replays one short fixed script of a few records; offset translation after space reuse and wide values need particular histories.",
  ["Db/dblog.c", "Db/dbhash.c", "Db/dbdata.c"],
  [("journal entries for create, delete, encode, set, meta", "Db/dblog.c wg_log_*"), ("offset translation on replay", "Db/dblog.c recover_*, Db/dbhash.c wg_ginthash_*")],
  [("translation table", "old offset to new offset", "Db/dblog.c replay")], ["wg_replay_log", "full content comparison"])

p("C15", "A cut journal replays to exactly the completed operations",
  "If the journal file ends at an arbitrary byte (a crash during writing), replay reports success or failure without crashing or looping and leaves exactly the effects of the single-entry operations (creating and deleting plain records, setting fields) whose entries were completely written, in order, and success when the cut lies between two entries; a file without the complete header is refused. Afterwards the database, its indexes and journaling still work.",
  ["crash_points", "fault_sequences"], "every truncation point of the journals of generated histories",
  "no test truncates a journal.",
  ["Db/dblog.c"],
  [("entry framing and error returns", "Db/dblog.c recover_journal, fget_varint")], [], ["wg_replay_log result", "content after replay"])

p("C16", "Starting a journal never loses an earlier one",
  "Starting to log onto an existing journal file of another session keeps the old file's bytes under the first free backup suffix and leaves earlier backups untouched, until ten exist; then the oldest is replaced. Continuing a session appends, whichever attached handle writes. Start and stop report an error when logging is already on or already off and change nothing then, and a journal that cannot be written makes the operation report failure and leaves the journal and the database as they were, so that the journal can be replayed once writing works again.",
  ["histories", "fault_sequences"], "all sequences of start, stop, operations, dump and re-attach, with existing backups, and failing writes",
  "the test starts and stops logging once.",
  ["Db/dblog.c", "Db/dbdump.c"],
  [("journal open and backup", "Db/dblog.c backup_journal, open_journal, wg_start_logging")], [("dirty flag and serial", "whether this session owns the journal", "db_logging_area_header")], ["files in the journal directory", "return codes"])

p("C17", "Locks keep writers exclusive under every schedule",
  "Under any interleaving of any number of clients, and for each of the lock protocols that can be configured, a granted write lock excludes every other granted lock and a granted read lock excludes granted write locks, also when waiting is interrupted or woken spuriously.",
  ["schedules", "configurations"], "all interleavings of start/end read/write calls by several clients at the granularity of shared memory accesses, including interrupted and spurious wakeups",
  "real threads in the tests hit only a tiny, timing dependent fraction of the interleavings and never a spurious wakeup.",
  ["Db/dblock.c", "Db/dblock.h"],
  [("reader/writer preference spinlocks", "Db/dblock.c db_rpspin_*, db_wpspin_*"), ("task-fair queue lock with futex", "Db/dblock.c db_tfqueue_*")],
  [("global lock / queue nodes", "state of waiting and granted clients", "db_memsegment_header.locks")], ["wg_start_write/read and wg_end_write/read results"])

p("C18", "Every waiting client eventually gets the lock",
  "If every client that is granted a lock eventually releases it, then under any fair interleaving every waiting client is eventually granted its lock: no wakeup is lost, no client is left asleep on a free lock, and when all have finished the lock is free for both readers and writers. A client beyond the number of supported waiters is refused instead of corrupting the queue, and under the fair queue protocol a writer is not overtaken by later readers.",
  ["schedules", "configurations"], "all fair interleavings of lock and unlock calls by up to and beyond the supported number of clients",
  "a lost wakeup needs one specific interleaving of enqueue, release and sleep.",
  ["Db/dblock.c"],
  [("queue hand over and futex wake", "Db/dblock.c db_tfqueue_end_*"), ("lock node pool", "Db/dblock.c alloc_lock, free_lock")],
  [("lock queue", "tail, nodes and free node list", "db_memsegment_header.locks")], ["lock calls returning", "futex wait and wake calls"])

p("C19", "Atomic field updates are all-or-nothing and linearizable",
  "Concurrent atomic field updates (compare-and-set, set, add) on the same field behave under every interleaving as if executed one after another: no addition is lost and exactly one competing compare-and-set from the same old value succeeds. A refused update (wrong type, indexed or journaled database, unsuitable value) returns its error code and changes nothing, and sums keep the full integer range or are refused.",
  ["schedules", "inputs"], "all interleavings of atomic operations on shared fields, all field states and operand values",
  "tests call each function once, sequentially.",
  ["Db/dbdata.c"],
  [("compare-and-swap on the field word", "Db/dbdata.c wg_update_atomic_field, wg_set_atomic_field, wg_add_int_atomic_field")], [], ["return codes", "final field value"])

p("C20", "JSON documents survive import and export",
  "Importing any valid JSON text within the supported nesting depth stores a document that prints back as JSON with the same objects, arrays, keys, order, strings and numbers (integers of 64 bits, doubles without loss); parsing from a buffer, from a file of any length, as a fragment and as a parameter agree, and other content of the database is unaffected.",
  ["inputs"], "all JSON documents: nesting, key and string content with escapes and non-ASCII text, number ranges, whitespace and file sizes",
  "the tests import three small fixed documents.",
  ["Db/dbjson.c", "json/yajl_all.c", "Db/dbschema.c", "Db/dbutil.c"],
  [("event driven import", "Db/dbjson.c run_json_parser and callbacks"), ("printer", "Db/dbjson.c wg_print_json_document"), ("JSON lexer and generator", "json/yajl_all.c")],
  [("document records", "object, array and key-value records with schema flags", "record meta field")], ["wg_parse_json_document", "wg_parse_json_file", "wg_print_json_document"])

p("C21", "Invalid JSON is rejected and leaves nothing behind",
  "Any text that is not a JSON object or array (comments are allowed), is malformed anywhere, contains broken UTF-8 sequences or numbers out of range, or nests deeper than the checker supports is rejected with an error code by the checker, by file import and by document import; checking and importing such a file leave the database content exactly as it was, and a rejected document import changes no existing data. Texts the checker accepts are importable.",
  ["inputs"], "all byte strings, in particular single-byte mutations and truncations of valid documents",
  "tests try a few malformed documents.",
  ["Db/dbjson.c", "json/yajl_all.c"],
  [("validation pass before import", "Db/dbjson.c check_json, wg_check_json")], [], ["return codes", "scan of the database before and after"])

p("C22", "JSON queries return exactly the matching documents",
  "A JSON query with any list of key/value clauses returns exactly the top-level documents which contain, at any supported level, each of the key/value pairs, each document once, with or without a hash index over key and value and for scalar, array and object values.",
  ["inputs", "configurations"], "all document sets, queries and index configurations, and all histories of document insertion and deletion",
  "the test runs five fixed queries on two documents.",
  ["Db/dbquery.c", "Db/dbjson.c", "Db/dbindex.c"],
  [("clause matching and intersection", "Db/dbquery.c wg_make_json_query"), ("document lookup from a key-value record", "Db/dbjson.c wg_find_document")], [], ["wg_make_json_query", "wg_fetch"])

p("C23", "Deleting a document removes all of it and nothing else",
  "Deleting a document that was accepted by import succeeds and removes every record that belongs to it and no other record, unless a record from outside refers to it or to a part of it, in which case it is refused and stays whole; other documents, rows and index lookups are unchanged and the space is reusable.",
  ["inputs", "histories"], "all documents accepted by import and all histories of insertion and deletion",
  "the test deletes one document.",
  ["Db/dbjson.c"],
  [("recursive deletion", "Db/dbjson.c wg_delete_document")], [], ["scan before and after", "remaining documents printed"])

p("C24", "CSV export and import preserve the table",
  "Exporting a database to CSV and importing that file into an empty database reproduces exactly the same rows (as a collection: record order is not specified) with the same number of fields, every integer, text, date, time and null value intact and doubles and fixpoint numbers to six decimals, characters, URIs and XML literals as their text and a value of any other type as some text, whatever quotes, separators or line breaks the text contains and however long it is, and every CSV line of a foreign file becomes exactly one row.",
  ["inputs"], "all tables whose values have a distinguishable text form, and all well-formed CSV files",
  "there is no CSV test.",
  ["Db/dbutil.c"],
  [("value printing with quoting", "Db/dbutil.c snprint_value_csv, wg_export_db_csv"), ("CSV reader", "Db/dbutil.c fread_csv, wg_import_db_csv")], [], ["exported file", "imported rows"])

p("C25", "Text to value conversion recognises and preserves values",
  "Converting text to a value yields null for empty text, the exact integer for integer text in range, the nearest double for decimal text, the date or time for ISO forms, and otherwise a string with the same content; the outcome depends on the text alone. The query parameter form yields a value comparing equal to the stored form, and printing a value into a buffer of any size never writes past it and yields the value's text.",
  ["inputs", "histories"], "all texts, in particular near-numeric, near-date and extreme ones, in any order of calls; all values and buffer sizes",
  "tests parse a handful of texts.",
  ["Db/dbutil.c"],
  [("input type detection", "Db/dbutil.c parse_input_type"), ("bounded printing", "Db/dbutil.c wg_snprint_value")], [], ["wg_parse_and_encode", "wg_parse_and_encode_param", "wg_snprint_value"])

p("C26", "Date and time conversions follow the calendar",
  "For every valid Gregorian calendar date and time of day in the supported range, converting to the internal number and back returns the same year, month, day, hour, minute, second and fraction; consecutive days have consecutive numbers, invalid dates and times are rejected, and ISO text output parses back to the same value.",
  ["inputs"], "all dates of years 1 to 9999 and all times of day, all ISO texts and their malformed variants",
  "tests convert a few dates.",
  ["Db/dbdata.c"],
  [("calendar arithmetic", "Db/dbdata.c ymd_to_scalar, scalar_to_ymd, wg_ymd_to_date"), ("ISO text", "Db/dbdata.c wg_strp_iso_date, wg_strp_iso_time, wg_strf_iso_datetime")], [], ["conversion functions"])

p("C27", "Values shared between databases stay exact and separate",
  "A record or string of a registered second database stored in a field of the first decodes to exactly the other database's value, attached parts included, and compares equal to it, wherever the two lie in memory. Setting, overwriting and deleting such fields never damages either database, and references to unregistered databases are refused.",
  ["histories", "inputs"], "all histories mixing local and external values in two databases",
  "the child database test stores two values once.",
  ["Db/dbdata.c", "Db/dbmem.c"],
  [("external data translation", "Db/dbdata.c wg_encode_external_data, wg_register_external_db")], [("external database table", "offsets and sizes of registered databases", "extdb area")], ["wg_encode_external_data", "wg_get_field", "decoders"])

p("C28", "Named shared databases are found, kept and removed by name",
  "Attaching by name creates a database of at least the requested size when none exists and otherwise gives access to the existing one with all its content, in any process, until it is deleted; distinct names (integers that fit a key) never share data, requests for a larger, inaccessible or incompatible existing segment fail without staying attached or changing it, and the permission mode requested at creation is applied. Detaching loses nothing.",
  ["histories", "configurations"], "all histories of attach (in all variants), detach and delete by several processes over several names",
  "tests use one name in one process.",
  ["Db/dbmem.c"],
  [("segment creation and lookup", "Db/dbmem.c wg_attach_memsegment, link_shared_memory, create_shared_memory")], [], ["attach results", "content seen by other processes", "segment permissions"])

p("C29", "The reasoner's verdicts agree with logic",
  "For every clause set the reasoner reads, reporting a proof means the set is unsatisfiable. For ground clauses (without repeated literals in one clause) and for Horn clauses without function terms it always finishes, and finishing without a proof means the set is satisfiable. Renaming symbols, reordering or duplicating clauses does not change the verdict.",
  ["inputs"], "all clause sets: ground sets decided by truth tables, first-order sets built around known models or known refutations",
  "tests run the parser and a few fixed unification examples only.",
  ["Reasoner/rmain.c", "Reasoner/rgenloop.c", "Reasoner/derive.c", "Reasoner/subsume.c"],
  [("given clause loop", "Reasoner/rgenloop.c wr_genloop"), ("binary resolution and factorization", "Reasoner/derive.c"), ("redundancy elimination", "Reasoner/subsume.c, Reasoner/clstore.c")], [], ["wg_run_reasoner result"])

p("C30", "Term matching, unification and subsumption obey their laws",
  "For any two terms: equality holds exactly for identical terms up to the same variables, unification succeeds exactly when a unifier exists, matching succeeds exactly when an instantiation of the first gives the second, and a clause subsumes another exactly when some instantiation of it is a subset of the other. Failed attempts leave no variable bound.",
  ["inputs"], "all pairs of terms and clauses with constants, nested function terms, repeated and shared variables",
  "rtest.c lists a few dozen fixed pairs.",
  ["Reasoner/unify.c", "Reasoner/subsume.c", "Reasoner/clterm.c"],
  [("unification and matching", "Reasoner/unify.c wr_unify_term, wr_match_term, wr_equal_term"), ("clause subsumption", "Reasoner/subsume.c wr_subsume_cl")], [], ["success results against a reference implementation"])

p("C31", "Clause files are read as written",
  "Every well-formed clause text, given as a string or a file, is read into clauses with exactly the literals, signs, nesting, variables, names, strings, numbers, dates and times written (a literal p is the same as p()). Malformed text, integers out of range and clauses with too many variables are refused, without crashing and leaving only readable records.",
  ["inputs"], "all clause texts of the supported grammar and mutations of them",
  "tests import two fixed strings.",
  ["Parser/dbotter.y", "Parser/dbotter.l", "Parser/dbparse.c", "Printer/dbotterprint.c"],
  [("lexer and grammar", "Parser/dbotter.l, Parser/dbotter.y"), ("clause construction", "Parser/dbparse.c wr_parse_clauselist, wr_parse_clause")], [], ["stored clause structure", "printed text"])

p("C32", "The Python interface stores and returns Python values faithfully",
  "Through the Python module and its high level wrapper, any supported Python value (None, int, float, text, date, time to a hundredth of a second, record, and values given with an explicit encoding) stored in a record is read back as an equal value of the matching type, inserted, updated, deleted and queried rows agree with a plain list model, and unsuitable values or bad arguments, including a closed connection, a freed query or a deleted record, raise an exception and change nothing (an update of a whole record stores the values before the first one it has to refuse).",
  ["inputs", "histories"], "all values and histories of cursor and record operations",
  "the Python tests check a few values per type and fixed queries.",
  ["Python/wgdbmodule.c", "Python/whitedb.py"],
  [("value encoding and decoding", "Python/wgdbmodule.c encode_pyobject*, wgdb_get_field"), ("cursor and record classes", "Python/whitedb.py")], [], ["wgdb and whitedb calls"])

p("C33", "The command line tool does what its commands say",
  "The command line tool's create, add, select, query, del, index, JSON, CSV, dump, import, replay, info and free commands have exactly the effect of the corresponding operation on the named database and on no other: rows added are listed, also when several are added at the same time, queries list exactly the matching rows, del removes exactly the matching rows and reports their number, dumps and journals bring a lost database back, a malformed command changes nothing, and one that is malformed or cannot do its work exits with a nonzero status (a CSV export that cannot open its file is reported on standard error only).",
  ["histories", "inputs"], "all sequences of commands with generated rows, conditions and files",
  "there is no test of the command line tool.",
  ["Main/wgdb.c"],
  [("command dispatch", "Main/wgdb.c main"), ("query and delete", "Main/wgdb.c query, del"), ("row input", "Main/wgdb.c add_row")], [], ["standard output", "exit status", "database content"])

p("C34", "Concurrent processes under locks lose no update",
  "When several processes attached to the same database bracket every access with the read or write lock calls, the final content equals that of some one-at-a-time execution of their transactions, readers never observe a half-finished transaction, and the database stays usable by all.",
  ["schedules", "histories"], "all interleavings of transactions of several processes on a shared database",
  "the stress test prints timings and checks nothing but lock success.",
  ["Db/dblock.c", "Db/dbdata.c", "Db/dbmem.c"],
  [("transaction locks", "Db/dblock.c wg_start_write, wg_start_read")], [], ["content after all processes ended", "reader observations"])

p("C35", "Pool allocations are disjoint and pool lists faithful",
  "Storage handed out by a memory pool is aligned, disjoint, and keeps its content until the pool is freed, for any sequence of request sizes; lists and atoms built in a pool read back with the same structure and content.",
  ["histories", "inputs"], "all sequences of pool requests and list constructions",
  "the test allocates one fixed pattern.",
  ["Db/dbmpool.c", "Db/dbmpool.h"],
  [("chunked pool", "Db/dbmpool.c wg_alloc_mpool, extend_mpool"), ("lists and atoms", "Db/dbmpool.c wg_mkpair, wg_mkatom")], [], ["returned addresses and content"])

p("C36", "The data server answers requests from the database and its configuration",
  "Every request to the data server, given on the command line, through CGI or by HTTP, is answered completely and with the right length: a search shows exactly the records that satisfy all its conditions, from and up to the positions asked for, in well-formed JSON or CSV that gives back the stored values, with record ids and nested records as asked; a count is their number; a deletion removes exactly those that nothing refers to and tells how many; create and drop make and remove the named database; anything malformed, and anything the configuration file does not allow to the caller's address, token or database, is answered with an error and changes nothing. No request, however malformed, stops the server or affects another one, also when many are served at the same time.",
  ["inputs", "histories", "schedules"], "all databases, configurations and sequences of requests, also concurrent ones",
  "there is no test of the data server.",
  ["Server/dserve.c", "Server/dserve_util.c", "Server/dserve_net.c"],
  [("operations", "Server/dserve.c search, create, drop"), ("printing and authorization", "Server/dserve_util.c sprint_record, sprint_value, authorize, load_configuration"), ("HTTP server", "Server/dserve_net.c run_server, handle_http")], [], ["answers", "database content"])

p("C37", "The Java binding stores and finds what Java code asks for",
  "Through the Java classes, records are created with the requested length, int, string (any Java string, long or with characters outside ASCII) and byte array fields read back exactly what was stored, a scan visits every record once, queries by conditions or by a match record return exactly the matching records and at most the given number of rows, also when several are open at once, and objects written to the database read back with the same field values. Refused calls (a null value, a field outside the record) report it and change nothing. Other processes attached to the same database read the same records and their own records are seen from Java; closing and opening the database keeps everything.",
  ["histories", "inputs"], "all sequences of calls of the Java classes on local and shared databases, also with a second process writing",
  "the only Java test program prints what it does and compares nothing.",
  ["java/jni/src/native/whitedbDriver.c", "java/jni/src/whitedb/driver/WhiteDB.java", "java/jni/src/whitedb/util/FieldComparator.java"],
  [("native methods", "java/jni/src/native/whitedbDriver.c"), ("wrappers and object mapping", "java/jni/src/whitedb/driver/WhiteDB.java")], [], ["return values", "database content read by another process"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for r in P:
        assert len(r["title"]) <= 80, r["title"]
        f.write(json.dumps(r, ensure_ascii=False) + "\n")
print(len(P))
