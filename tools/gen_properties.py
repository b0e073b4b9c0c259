#!/usr/bin/env python3
"""Writes properties.jsonl (one source of truth, easier to edit than long JSON lines)."""
import json, pathlib
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [dict(name=n, meaning=m, where=w) for n, m, w in state],
        "mechanism": [dict(name=n, where=w) for n, w in mech],
        "observe_at": list(observe), "hook_needed": None}})

prop("C01", "An acknowledged build survives any crash, in every view",
 "Once a build of an OCAFile has returned success on durable storage (sled or file-system stores, on-disk search database), the bundle is there after any process kill or power loss at any later instant followed by a restart: fetching it by its SAID returns the same bytes, and its step history, its capture base and overlay objects, its relations, its entries in the bundle and capture-base listings, its search entries and its reference name are all still served and unchanged.",
 ["crash_points", "histories", "configurations", "fault_sequences"],
 "every sequence of builds, every crash instant (each storage operation of each later call, or idle), kill and power-loss crash models with torn or dropped un-synced writes, every combination of storage backends",
 "No test restarts a store, crashes, or loses un-synced data; the facade tests use in-memory stores or a healthy disk and read back in the same process.",
 ["oca/src/facade/build.rs", "oca/src/data_storage.rs", "oca/src/facade/fetch.rs", "oca/src/facade/explore.rs", "oca/src/repositories"],
 [("Facade::build writes steps, objects, relations, models and index before returning", "oca/src/facade/build.rs"),
  ("SledDataStorage::insert / FileSystemStorage::insert", "oca/src/data_storage.rs"),
  ("SQLite cache and FTS tables", "oca/src/repositories")],
 [("KV namespaces", "operations, bundles, objects, relations, references", "oca/src/data_storage.rs Namespace"),
  ("search_data.db", "listing and full-text index", "oca/src/repositories")],
 ["Facade::get_oca_bundle", "Facade::get_oca_bundle_steps", "Facade::get_oca_objects", "Facade::explore", "Facade::fetch_all_oca_bundle", "Facade::search_oca_bundle", "Facade::fetch_all_refs"])

prop("C02", "A crash inside a build leaves a consistent store and a retry completes it",
 "If the process dies at any instant during a build, then after restart everything built earlier is unchanged, and the interrupted bundle is either absent from or fully usable through each way of finding it: whatever the listing, the search or a reference name yields can be fetched together with its complete history, its objects and their relations. No query panics or hangs on what the crash left behind, and repeating the interrupted build succeeds and leaves the store answering every query exactly as if the crash had never happened.",
 ["crash_points", "histories", "fault_sequences", "configurations"],
 "every storage operation inside every build call as crash point, kill and power loss, repeated crashes during the retry, all storage backends",
 "Tests never interrupt a build; the window between two writes of one build is invisible to them.",
 ["oca/src/facade/build.rs", "oca/src/facade/explore.rs", "oca/src/facade/fetch.rs", "oca/src/data_storage.rs", "oca/src/local_references.rs"],
 [("order of the writes of one build: content first, then relations, then discovery indexes, reference name last", "oca/src/facade/build.rs"),
  ("idempotent inserts keyed by SAID", "oca/src/facade/build.rs, oca/src/repositories")],
 [("partially written build", "any prefix of the writes of a build", "oca/src/facade/build.rs")],
 ["Facade::fetch_all_oca_bundle", "Facade::search_oca_bundle", "Facade::get_oca_bundle", "Facade::get_oca_bundle_steps", "Facade::fetch_all_refs", "Facade::build_from_ocafile"])

prop("C03", "A storage error is never reported as success, and loses nothing",
 "When a read or a write of the underlying storage or search database fails during a call (I/O error, full disk, failed sync, short write), the call does not report success unless everything it promises is in place, and a query never answers that stored data is absent or incomplete because a read failed. Data acknowledged before the failing call stays intact and retrievable once the errors stop.",
 ["fault_sequences", "histories", "configurations"],
 "every storage operation of every call as the failing one, single and sticky errors, EIO/ENOSPC/EINTR/short writes/failed fsync, KV store and SQLite, all backends",
 "No test injects a storage error; error paths of the storage layer are never executed.",
 ["oca/src/facade/build.rs", "oca/src/facade/explore.rs", "oca/src/facade/fetch.rs", "oca/src/data_storage.rs", "oca/src/repositories"],
 [("Result propagation from DataStorage and SQLite through build and the queries", "oca/src/facade"),],
 [], ["Facade::build_from_ocafile result", "query results under failing reads"])

prop("C04", "Service resumes by itself once faults stop",
 "After any bounded burst of storage errors or rejected requests, and without restarting, the same facade serves every request again: each query ends within a bounded number of storage operations with the right answer, and repeating the builds that failed succeeds and brings the store to the state it would have had without the faults. No input, query or error leaves the facade permanently unable to answer, and no call, failed or not, leaves files open.",
 ["fault_sequences", "histories", "inputs"],
 "every burst of faults over every call, hostile search phrases and page arguments, invalid OCAFiles interleaved, then fault-free service on the same instance",
 "Liveness after an error on the same instance is never exercised; a lock poisoned by a panic or a query that loops would go unnoticed.",
 ["oca/src/facade/mod.rs", "oca/src/repositories/oca_bundle_fts_repo.rs", "oca/src/facade/fetch.rs", "oca/src/facade/build.rs"],
 [("Mutex around the SQLite connection", "oca/src/facade/mod.rs"),
  ("history walk", "oca/src/facade/fetch.rs get_oca_bundle_steps")],
 [], ["all Facade calls after faults stop"])

prop("C05", "The same OCAFiles give the same SAIDs and stored bytes in every execution",
 "Building the same sequence of OCAFiles yields the same SAIDs, byte-identical stored bundles, capture bases and overlays, and the same step histories in every execution, whatever the process's hash seeds, the storage backend, the thread schedule, or how many restarts lie between the builds.",
 ["schedules", "inputs", "histories", "configurations"],
 "all per-process and per-map hash seeds, all storage backends, restarts between any two builds, all OCAFiles over all overlay kinds",
 "A test process sees one hash seed per run and small documents, so an iteration-order dependence shows up only as a rare flake.",
 ["semantics/oca-bundle/src/state/oca.rs", "semantics/oca-bundle/src/state/oca", "semantics/oca-bundle/src/build.rs", "oca/src/facade/build.rs"],
 [("sorted serialization of every hash map before hashing", "semantics/oca-bundle/src/state"),
  ("overlays sorted by SAID", "semantics/oca-bundle/src/state/oca.rs serialize_overlays")],
 [], ["OCABundle SAID, encoded bytes, objects, steps"])

prop("C06", "Building on a stored base equals building it all at once, and as specified",
 "A bundle built in increments, each OCAFile starting FROM the stored result of an earlier one and with restarts in between, has the SAID and content of the bundle built by one OCAFile with all the commands, and that content is exactly what the commands prescribe: the attributes with their types, the classification, and for each overlay kind and language the latest value given for each attribute still present. The base bundle itself is unchanged, and every stored bundle, capture base and overlay carries the SAID its own content hashes to.",
 ["inputs", "histories", "crash_points"],
 "all command sequences over all overlay kinds and attribute types, all ways of cutting them into FROM increments with restarts in between",
 "Tests build a handful of fixed documents and one FROM step; storing, reloading and extending a bundle has unbounded histories.",
 ["semantics/oca-bundle/src/build.rs", "semantics/oca-bundle/src/state/oca.rs", "semantics/oca-bundle/src/state/attribute.rs", "oca/src/facade/build.rs", "oca/src/facade/fetch.rs"],
 [("apply_command and attribute merge", "semantics/oca-bundle/src/build.rs, state/attribute.rs"),
  ("reconstruction of the editable form from a stored bundle", "semantics/oca-bundle/src/state/oca.rs From<OCABundle> for OCABox")],
 [], ["Facade::build_from_ocafile", "Facade::get_oca_bundle"])

prop("C07", "Every bundle's step history is finite, rooted, linked and replays to its SAID",
 "For every bundle built, after any sequence of builds (including extending, reverting and re-reaching earlier bundles, repeating a build, crashes and restarts), asking for its history ends and returns a chain that starts from nothing, in which each step's parent is the previous step's result and the last result is the bundle itself. Applying the returned commands in order from nothing reproduces the SAID of every step, and the AST view holds exactly those commands.",
 ["histories", "inputs", "crash_points"],
 "all build histories, including no-op commands, add/remove cycles through FROM, rebuilds, crashes between the writes of a build",
 "Tests ask for the history of one freshly built bundle; overwritten or cyclic history records need several related builds.",
 ["oca/src/facade/build.rs", "oca/src/facade/fetch.rs", "semantics/oca-bundle/src/build.rs"],
 [("operation record per bundle: parent SAID and command", "oca/src/facade/build.rs build_step"),
  ("history walk", "oca/src/facade/fetch.rs get_oca_bundle_steps")],
 [("oca.<said>.operation", "parent SAID length, parent SAID, command JSON", "oca/src/facade/build.rs")],
 ["Facade::get_oca_bundle_steps", "Facade::get_oca_bundle_ast"])

prop("C08", "Reference names always resolve to the latest acknowledged, stored bundle",
 "A reference name resolves to the SAID of the last successfully built OCAFile that declared it; a name used in an OCAFile (plain, inside an array or as a link target) is replaced by that SAID, and an unknown name is rejected without any effect. After any crash or error each name still resolves to a bundle that can be fetched, namely the last acknowledged one or that of a build in flight, and fetching with dependencies returns the whole transitive closure of referenced bundles.",
 ["histories", "crash_points", "fault_sequences"],
 "all sequences of builds declaring and using names, rebinding of names, failing builds, crashes at each storage operation, all backends, odd but legal names",
 "Tests use one or two names in one healthy process; the order of name and content writes and rebinding under crashes is invisible to them.",
 ["oca/src/local_references.rs", "oca/src/facade/build.rs", "oca/src/facade/fetch.rs"],
 [("refn to SAID map", "oca/src/facade/build.rs References for Box<dyn DataStorage>"),
  ("dereferencing of the AST", "oca/src/local_references.rs"),
  ("dependency closure", "oca/src/facade/fetch.rs get_oca_bundle / retrive_all_references")],
 [("oca_refs namespace", "name to SAID", "oca/src/data_storage.rs")],
 ["Facade::fetch_all_refs", "Facade::build_from_ocafile", "Facade::get_oca_bundle(said, true)"])

prop("C09", "Relations link every bundle, capture base and overlay, both ways, and only grow",
 "For every bundle built, exploring its SAID yields exactly its capture base and its overlays; exploring a capture base or an overlay yields exactly the objects it shares a built bundle with (the bundle, and the capture base or that bundle's overlays), each with its right kind. This holds whatever bundles share capture bases or overlays, in whatever order they are built, rebuilt, retried after errors or interrupted by crashes: no build ever removes a relation another build established.",
 ["histories", "crash_points", "fault_sequences"],
 "all sequences of builds sharing capture bases and overlays, rebuilds, failing reads and writes during the read-modify-write, crashes at each storage operation",
 "No test explores relations at all; losing earlier relations needs several related builds and a failing read.",
 ["oca/src/facade/explore.rs", "oca/src/facade/build.rs"],
 [("read-modify-write of relation records", "oca/src/facade/explore.rs add_relations")],
 [("oca_relations namespace", "kind bytes and relation lists", "oca/src/facade/explore.rs")],
 ["Facade::explore"])

prop("C10", "Listing and search return exactly the bundles built, once each, on every page",
 "After any history of builds, rebuilds, restarts and crashes, the bundle and capture-base listings contain every successfully built one exactly once, with content equal to the stored one, the total is their number, and the pages of any size partition them; no listed bundle is one that no build produced. Searching for a phrase of at least three characters finds exactly the built bundles one of whose meta overlays contains it in its name or description, whatever the language, once each over all pages with the right total, and no phrase, language, limit or page makes a search fail.",
 ["histories", "inputs", "crash_points"],
 "all build histories, page sizes and numbers, phrases (including punctuation, quotes, query operators and unmatched ones), languages, crashes and restarts",
 "No test lists or searches; duplicates, missing rows and page arithmetic need histories of several bundles.",
 ["oca/src/repositories", "oca/src/facade/fetch.rs", "oca/src/facade/build.rs"],
 [("SQLite tables oca_bundle_cache, capture_base_cache and FTS5 oca_bundle_fts", "oca/src/repositories")],
 [], ["Facade::fetch_all_oca_bundle", "Facade::fetch_all_capture_base", "Facade::search_oca_bundle"])

prop("C11", "Each storage backend is a durable, atomic, namespaced map kept in its directory",
 "Each storage backend behaves as a map per namespace for any key and value bytes: a read returns the last value written for that key in that namespace or nothing, also after reopening and through clones that share the store, and keys never collide; a key the file system cannot hold is refused with an error. A write that reported success survives a kill or power loss on the durable backends; an interrupted or failed write leaves the old or the new value, never a mixture or nothing; an I/O error is reported as an error, not as absence; and the file-system backend never touches anything outside its directory.",
 ["inputs", "crash_points", "fault_sequences", "histories"],
 "all keys (empty, separators, dot-dot, absolute, unicode, near length limits), values and operation sequences, each storage operation as crash or error point, kill and power loss with torn writes",
 "The backends have no tests of their own and are only used with well-behaved keys on a healthy disk.",
 ["oca/src/data_storage.rs"],
 [("SledDataStorage, FileSystemStorage, InMemoryDataStorage implementing DataStorage", "oca/src/data_storage.rs")],
 [], ["DataStorage::get", "DataStorage::get_all", "DataStorage::insert", "directory contents"])

prop("C12", "Facades working concurrently on one store lose nothing and never wedge",
 "When several facades built over the same shared store and search database serve builds and queries from different threads, under every interleaving each request completes with the result it would have alone, and afterwards the shared store holds every acknowledged bundle in every view: content, history, complete two-way relations, listing, search and reference names bound to one of the concurrently acknowledged bundles. Concurrent queries never observe a listed, found or referenced bundle that cannot be fetched.",
 ["schedules", "histories"],
 "all interleavings of the storage operations of two or more facades on clones of one store and one search database file, builds sharing capture bases, overlays and names",
 "Every test uses one facade on one thread.",
 ["oca/src/facade/explore.rs", "oca/src/facade/build.rs", "oca/src/facade/mod.rs", "oca/src/data_storage.rs", "oca/src/repositories"],
 [("read-modify-write of relations", "oca/src/facade/explore.rs"),
  ("SQLite locking and busy handling", "oca/src/facade/mod.rs")],
 [], ["all Facade calls from several threads"])

prop("C13", "The version graph keeps every parent and child link across errors and crashes",
 "In the version-graph store, after any sequence of successful additions each added version is recorded, its parent link names the version it was added to and each version's child links name exactly the versions added to it, once each, in order. An addition that fails or is interrupted by a crash loses no link recorded before it, and repeating it completes it with the same final links as if it had not been interrupted.",
 ["histories", "crash_points", "fault_sequences"],
 "all addition sequences forming trees, each storage operation as error or crash point, retries",
 "The one test adds five versions and asserts nothing.",
 ["semantics/oca-dag/src/versioning/mod.rs", "semantics/oca-dag/src/data_storage.rs"],
 [("parent record and read-modify-write of the children record", "semantics/oca-dag/src/versioning/mod.rs")],
 [("<v>.upscending / <v>.downscending", "length-prefixed version ids", "semantics/oca-dag/src/versioning/mod.rs")],
 ["Graph::add", "DataStorage::get"])

prop("C14", "A rejected, validate-only or read-only request changes nothing stored",
 "An OCAFile that is rejected (syntax error, unknown base, unknown reference, undefined attribute, duplicate or missing attribute, invalid value), a validation against external references, and every query (bundle, history, listing, search, exploration, names) leave every stored record, listing, search result and reference name exactly as it was, also when storage errors or a crash strike during the request. A rejected request ends with an error, never with a panic.",
 ["inputs", "histories", "fault_sequences", "crash_points"],
 "all kinds of rejected OCAFiles and of queries interleaved with accepted ones, with and without faults, all backends",
 "One test checks one rejection's error; none checks that the store is untouched.",
 ["oca/src/facade/build.rs", "oca/src/local_references.rs", "semantics/oca-bundle/src/build.rs", "semantics/oca-file/src/ocafile"],
 [("validation completes before the first write", "oca/src/facade/build.rs")],
 [], ["Facade::build_from_ocafile", "Facade::validate_ocafile_with_external_references"])

prop("C15", "The OCAFile served for a stored bundle rebuilds exactly that bundle",
 "For every bundle built, after any sequence of builds on stored bases, repeated builds, restarts, crashes and storage errors, the OCAFile text served for it is accepted, and building that text from nothing yields the bundle's own SAID and byte-identical content. The same holds for the text with its reference names replaced by SAIDs, which needs no name to be known.",
 ["histories", "inputs", "crash_points"],
 "all build histories and command sequences over all overlay kinds, both text forms, at rest and after every crash, error and restart",
 "Tests generate the text of a few fixed documents; the text served for a bundle depends on the recorded history of all the documents it was built from.",
 ["oca/src/facade/fetch.rs", "semantics/oca-file/src/ocafile/mod.rs", "semantics/oca-ast/src/ast", "oca/src/facade/build.rs"],
 [("Facade::get_oca_bundle_ocafile", "oca/src/facade/fetch.rs"),
  ("text of each command", "semantics/oca-file/src/ocafile/mod.rs generate_from_ast")],
 [], ["Facade::get_oca_bundle_ocafile", "Facade::build_from_ocafile"])

prop("C16", "Builds into the version store leave complete, replayable, durable histories",
 "When a build of a sequence of commands into a version store (build_oca) succeeds, the bundle returned has the SAID and content its commands give on the bundle named by FROM, if any, and the store holds, durably, the bundle of every step and for each one the operation that led to it: its parent and the command, which applied to the parent gives that bundle. Following the parents from any bundle ends, in finitely many steps, at a first command. This holds for commands of any kind and length, for repeated builds and for commands that change nothing; operations recorded by a finished build are never rewritten. A build that fails on a storage error or is cut short by a crash harms nothing recorded before and can be repeated. A command that does not apply, an unknown base and an empty sequence are errors, never panics and never a wrong bundle.",
 ["histories", "inputs", "crash_points", "fault_sequences"],
 "all sequences of builds with FROM chains, repetitions, undone and redone changes and long documents, each storage operation as error or crash point, retries, refused builds; both storage implementations",
 "Its two tests are ignored and assert nothing.",
 ["semantics/oca-dag/src/versioning/ocafile.rs", "semantics/oca-dag/src/data_storage.rs", "semantics/oca-bundle/src/build.rs"],
 [("build_oca", "semantics/oca-dag/src/versioning/ocafile.rs")],
 [("oca.<said>.operation", "length-prefixed parent SAID, then the command as JSON", "semantics/oca-dag/src/versioning/ocafile.rs"),
  ("oca.<said>", "the encoded bundle", "semantics/oca-dag/src/versioning/ocafile.rs")],
 ["build_oca", "DataStorage::get"])

prop("C17", "A bundle document reads back as written; damaged or partial ones are detected",
 "A bundle fetched from the store, written out and loaded again has the same SAID and the same bytes and passes SAID validation, in whatever pieces and with whatever interruptions its source delivers it, alone or together with transformations. A source that fails or ends early gives an error, never a bundle. A document damaged at rest (bits flipped, characters changed, sectors zeroed, pieces lost, parts left over from another version, overlays missing, a part changed and only the whole named anew) is refused when loaded, or found invalid by the validator, or still has exactly the original content. When translations into certain languages are demanded, the validator tells exactly the languages and the texts that are missing or not asked for. Neither loading nor validating panics.",
 ["inputs", "fault_sequences", "histories"],
 "all bundles any build history stores, all delivery patterns and failure points of the source, all kinds of damage of the medium",
 "Tests validate a few hand-made bundles read from intact strings.",
 ["semantics/oca-bundle/src/controller.rs", "semantics/oca-bundle/src/state/oca.rs", "semantics/oca-bundle/src/state/validator.rs", "semantics/oca-bundle/src/state/oca/overlay", "oca/src/facade/bundle.rs"],
 [("load_oca", "semantics/oca-bundle/src/controller.rs, oca/src/facade/bundle.rs"),
  ("SAID checks", "semantics/oca-bundle/src/state/validator.rs Validator::validate")],
 [], ["load_oca", "Validator::validate", "OCABundle::encode", "Bundle::encode"])

prop("C18", "Transformation files give the same, specified transformation in every execution",
 "A transformation file gives, in every execution and whatever the process's hash seeds, the same AST and a transformation with the same SAID and bytes, which is the SAID its own content hashes to: it names the source and target the file declares and maps every attribute to the last name or link the file gives for it, in the order the attributes first appear, however the text is laid out (comments, blank lines, line continuations, keyword case, order of the properties). The AST survives being written out and read back. A bundle carrying transformations contains exactly these documents, has the SAID its content hashes to, and reads back as written, in whatever pieces its source delivers it; a source that fails or ends early gives an error. A file that lacks source, target or a well-formed command, or has an unknown property, is refused with an error; nothing panics.",
 ["inputs", "histories", "fault_sequences"],
 "all transformation files in all layouts, rebuilt in executions with other hash seeds, all bundles of transformations, all delivery patterns and failure points of the source",
 "Tests parse one or two one-line files and assert almost nothing; a dependence on hash order shows only as a rare flake.",
 ["transformation/oca-file/src/ocafile/mod.rs", "transformation/oca-file/src/ocafile/instructions", "transformation/transformation-file/src/build.rs", "transformation/transformation-file/src/state/mod.rs", "transformation/ast/src/ast/mod.rs", "oca-file/src/ocafile/mod.rs", "oca/src/facade/bundle.rs"],
 [("dispatch on the precompiler property", "oca-file/src/ocafile/mod.rs parse_from_string"),
  ("transformation builder", "transformation/transformation-file/src/build.rs from_ast"),
  ("bundle of structural part and transformations", "oca/src/facade/bundle.rs Bundle::encode, load_oca")],
 [], ["oca_file::ocafile::parse_from_string", "transformation_file::build::from_ast", "Transformation::encode", "Bundle::encode"])

prop("C19", "Nodes that exchange the OCAFiles they serve come to hold the same bundles",
 "Several nodes, each a facade over stores of its own, build documents (also on and with references to each other's bundles) and hand each other, over a network that loses, repeats, delays, reorders, damages and partitions, the SAIDs they hold and the OCAFile text they serve for them. A node that is handed the text of a bundle validates it and builds it: it gets the very SAID announced and byte-identical content, whatever it held before, whichever of the texts came first, and however often one comes again. A damaged text is refused, or gives another SAID, or the same bytes; it never panics and changes nothing. Crashes, restarts and storage errors at any node lose nothing acknowledged and only delay it. Once messages get through and faults have stopped, one exchange of listings and of the texts that are missing leaves every node with exactly the bundles any node acknowledged, identical in stored bytes, and with complete listings, searches, relations, histories and dependencies for them.",
 ["histories", "schedules", "crash_points", "fault_sequences", "inputs"],
 "all histories of building on 2-4 nodes with different backends, all orders, losses, repetitions and damages of messages, partitions, anti-entropy pulls, crash points and storage errors during sending and receiving",
 "Tests run one facade; none takes what one store serves to another one.",
 ["oca/src/facade/fetch.rs", "oca/src/facade/build.rs", "semantics/oca-file/src/ocafile/mod.rs", "semantics/oca-bundle/src/build.rs", "oca/src/repositories"],
 [("Facade::get_oca_bundle_ocafile", "oca/src/facade/fetch.rs"),
  ("Facade::validate_ocafile_with_external_references, Facade::build", "oca/src/facade/build.rs"),
  ("Facade::fetch_all_oca_bundle", "oca/src/facade/fetch.rs")],
 [], ["Facade::get_oca_bundle_ocafile", "Facade::validate_ocafile_with_external_references", "Facade::build", "Facade::fetch_all_oca_bundle"])

prop("C20", "Every request ends after a number of storage accesses set by what it concerns",
 "Whatever the stores hold and whatever was built before, a request accesses the stores in proportion to the records it concerns, and no more: fetching a bundle reads its record; fetching it with its dependencies reads each bundle that can be reached over references once and lists each once, however many ways of references lead to it; history, AST and OCAFile read in proportion to the steps of the bundle's own history; fetching objects and exploring, to the objects asked for or related; a page of a listing or search, to the records on that page; listing names reads the names once; a build accesses the stores in proportion to its commands, the objects of the bundles they make and the references it names, not to what else is stored. This holds on every storage backend, on first and repeated builds, and when accesses fail, are interrupted or are repeated after a crash: a request then ends at once or after a bounded number of further tries, never in an endless or exponentially long run.",
 ["inputs", "histories", "fault_sequences", "crash_points"],
 "all contents of stores, with chains, layers and tangles of references and derivations of any depth, all requests on them, and all storage errors, interruptions and crashes meanwhile",
 "Tests fetch bundles with at most one dependency and a handful of steps, where exponential and linear cost cannot be told apart.",
 ["oca/src/facade/fetch.rs", "oca/src/facade/explore.rs", "oca/src/facade/build.rs", "oca/src/repositories", "oca/src/data_storage.rs"],
 [("get_oca_bundle, get_oca_bundle_steps, get_oca_objects, fetch_all_*, search_oca_bundle", "oca/src/facade/fetch.rs"),
  ("explore, add_relations", "oca/src/facade/explore.rs"),
  ("build, build_step", "oca/src/facade/build.rs")],
 [], ["Facade::get_oca_bundle", "Facade::get_oca_bundle_steps", "Facade::get_oca_bundle_ast", "Facade::get_oca_bundle_ocafile", "Facade::get_oca_objects", "Facade::explore", "Facade::fetch_all_oca_bundle", "Facade::fetch_all_capture_base", "Facade::search_oca_bundle", "Facade::fetch_all_refs", "Facade::build_from_ocafile"])

prop("C21", "The object model records which command made every object out of what",
 "For every step of an acknowledged build the core_model namespace of the store holds, and keeps across any crash: the command, as the JSON whose digest is its key; for the bundle the step resulted in, the bundle of the step before in the same document (none for its first), its capture base and all its overlays; and, when the command is about attributes or the classification, for the capture base it resulted in, the capture base of the document before it and the digest of the command; when it is about an overlay of a kind of which a bundle has at most one (per language, where there are any; that is, all but links and framings), for that overlay, the overlay of the same kind and language the document had made before and the digest of the command. Every command digest named is that of a stored command. An object several builds led to has the record of one of them. Nothing else is recorded: no objects of documents that were rejected or only validated. A storage error while these records are written fails the build, and repeating the build completes them.",
 ["inputs", "histories", "fault_sequences", "crash_points"],
 "all sequences of builds with new and repeated documents, documents on stored bases and rejected documents, over every storage backend, and all storage errors, kills and power losses meanwhile",
 "No test reads these records from a store; one test looks at the model of one fixed document in memory.",
 ["semantics/oca-dag/src/lib.rs", "oca/src/facade/build.rs"],
 [("build_core_db_model, apply_step", "semantics/oca-dag/src/lib.rs"), ("Facade::build_models", "oca/src/facade/build.rs")],
 [], ["Facade::build_from_ocafile", "Facade::build", "build_core_db_model"])

# --- properties this technique does not decide (pure functions of their input) ---
prop("N01", "OCAFile text and AST round-trip",
 "Generating an OCAFile from an AST or a bundle and parsing it again yields the same AST, and hence the same SAID.",
 ["inputs"], "all ASTs and bundles", "Tests round-trip a few fixed documents.",
 ["semantics/oca-file/src/ocafile/mod.rs", "semantics/oca-bundle/src/state/oca.rs", "oca-file/src/ocafile/mod.rs"],
 [("generate_from_ast / parse_from_string / to_ast", "semantics/oca-file/src/ocafile/mod.rs")])
prop("N02", "AST validation accepts exactly the command sequences that make sense",
 "A command is rejected exactly when it adds an attribute that exists or removes one that does not.",
 ["inputs"], "all command sequences", "Tests try a few sequences.",
 ["semantics/oca-ast/src/validator.rs"], [("OCAValidator", "semantics/oca-ast/src/validator.rs")])
prop("N03", "Bundle validation detects every semantic inconsistency of a loaded bundle",
 "Validating a bundle reports each missing translation, unsupported standard and unmet condition, and nothing else. (Wrong SAIDs are part of C17.)",
 ["inputs"], "all bundles", "Tests try a few bundles.",
 ["semantics/oca-bundle/src/state/validator.rs", "semantics/oca-bundle/src/state/oca/overlay/conditional.rs"],
 [("Validator", "semantics/oca-bundle/src/state/validator.rs")])
out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p, ensure_ascii=False) + "\n" for p in P))
