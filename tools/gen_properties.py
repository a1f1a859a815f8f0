import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],state=state or [],observe_at=observe,hook_needed=hook)))
T="src/fdb5/toc/"; D="src/fdb5/database/"; A="src/fdb5/api/"
p("F01","Flushed fields are retrievable, byte-identical, under their own key",
 "Every field archived and then flushed can be retrieved, by any handle opened afterwards, under exactly the key it was archived with, and the bytes returned are exactly the bytes of the last flushed archive of that key. A key that was never archived (or no longer exists) is never answered with data, and a multi-valued request returns exactly the existing fields it spells out.",
 ["histories","inputs","configurations"],"all sequences of archive/flush/close/reopen on any number of handles, databases and indexes, any payload size, with any limits on open databases and buffers",
 "Unit tests archive a handful of fields once and read them back; re-archiving, several handles, eviction of open databases, index re-open after flush and mixed flush orders are not enumerated.",
 [D+"Archiver.cc",T+"TocCatalogueWriter.cc",T+"TocStore.cc",T+"BTreeIndex.cc",T+"TocHandler.cc",D+"Inspector.cc",A+"LocalFDB.cc"],
 [("archive writes data then index entry",D+"ArchiveVisitor.cc"),("flush: store before catalogue",T+"TocCatalogueWriter.cc flush/flushIndex"),("LRU of open databases",D+"Archiver.cc database()"),("index selection newest first, mayContain(axes)",T+"TocCatalogueReader.cc")],
 ["FDB::retrieve","FDB::inspect","FDB::list"])
p("F02","The newest flushed version of a field wins; list modes account for every version",
 "When the same key has been archived several times, retrieve, inspect and deduplicated listing give exactly the version flushed last (within one flush, archived last); full listing gives every version that is still indexed, newest first, and duplicates-only listing gives exactly full minus deduplicated. This holds for every interleaving of writers, flushes, databases and index keys.",
 ["histories","schedules"],"all histories of re-archiving the same keys from one or more handles with arbitrary flush points",
 "Tests overwrite a field once with one writer; shadowing depends on record order across writers, index files and sub-tables of contents.",
 [T+"TocHandler.cc",T+"TocCatalogueReader.cc",A+"helpers/ListIterator.h",A+"local/ListVisitor.h",T+"BTreeIndex.cc"],
 [("loadIndexes returns newest first",T+"TocHandler.cc loadIndexes"),("ListIterator de-duplication",A+"helpers/ListIterator.cc")],["FDB::list","FDB::retrieve"])
p("F03","A crash at any instant leaves a consistent, writable database",
 "If a writing process dies at any instant, every field flushed before that instant is still listed and retrieved byte-identical, every other field that is visible is complete and correct, and no reader fails. The database can still be written to, and fields archived and flushed later are visible.",
 ["crash_points","histories"],"every system-call boundary of any archive/flush/close/database-creation/sub-toc-compaction sequence, with process kill",
 "No existing test kills a writer; crash states exist only between the individual system calls of a flush.",
 [T+"TocHandler.cc",T+"TocCatalogueWriter.cc",T+"TocStore.cc",T+"BTreeIndex.cc","src/fdb5/io/FDBFileHandle.cc"],
 [("single append of a whole table-of-contents record",T+"TocHandler.cc append"),("data and index written before the record that makes them reachable",T+"TocCatalogueWriter.cc flushIndex"),("schema copied to a temporary and renamed",T+"TocHandler.cc writeInitRecord")],["FDB::list","FDB::retrieve in a fresh process"])
p("F04","Flushed data survive power loss; nothing visible depends on unsynced data",
 "When flush returns, the field data, the index and the table-of-contents record that makes them visible have all been forced to stable storage. A table-of-contents record is written only after the data and index blocks it refers to have been forced to stable storage.",
 ["crash_points","histories","configurations"],"every power-loss point of any archive/flush history, under the weakest ordering (any unsynced write may be lost)",
 "Tests never observe fsync; losing a sync changes nothing a test can see while the machine stays up.",
 [T+"TocStore.cc",T+"TocHandler.cc",T+"BTreeIndex.cc","src/fdb5/io/FDBFileHandle.cc"],
 [("data fdatasync on flush","src/fdb5/io/FDBFileHandle.cc flush"),("index btree flush+sync",T+"BTreeIndex.cc"),("toc descriptor synced on close",T+"TocHandler.cc closeTocDescriptor / CachedFDProxy")],["system calls under the database root"])
p("F05","Concurrent writing processes lose and corrupt nothing",
 "When several processes archive and flush into the same database at the same time (including creating it at the same time), every field each of them flushed is afterwards listed and retrieved byte-identical, and for keys written by several of them one of the flushed versions is returned, never a mixture. No writer or reader fails because of the others.",
 ["schedules"],"every interleaving of the system calls of two or more writers and readers on the same databases",
 "The concurrency tests run free-running threads/processes over distinct keys, sampling few interleavings and not database creation.",
 [T+"TocHandler.cc",T+"TocCommon.cc",T+"TocStore.cc",T+"TocCatalogueWriter.cc"],
 [("O_APPEND single-write records",T+"TocHandler.cc append"),("writer-unique file names",T+"TocCommon.cc / TocCatalogueWriter.cc generateIndexPath"),("init record only when the table is empty",T+"TocHandler.cc writeInitRecord")],["FDB::list","FDB::retrieve"])
p("F06","Visibility: nothing before flush, everything after, readers see prefixes",
 "Fields archived but not flushed are invisible to every other handle and process; a field becomes visible, complete, at a flush (or when the writing handle flushes implicitly on closing or evicting a database). A concurrent reader always sees, per writer and index, a prefix of that writer's flushes: each read succeeds and returns only complete fields.",
 ["schedules","histories"],"all interleavings of writers' archive/flush steps with readers' open/list/retrieve steps",
 "Tests read only after everything has been written and closed.",
 [T+"TocHandler.cc",T+"TocCatalogueWriter.cc",T+"TocCatalogueReader.cc",D+"Inspector.cc"],
 [("record appended after flush of data and index",T+"TocCatalogueWriter.cc"),("toc read in full before use",T+"TocHandler.cc populate")],["FDB::list","FDB::retrieve"])
p("F07","list, axes, inspect, stats and status report exactly the stored content",
 "For any request, listing (at every level) and inspection return exactly the existing databases, indexes and fields that match it: none missing, none spurious, none from other databases. Axes cover exactly the values held in the matching indexes, statistics count exactly its fields, duplicates and bytes, and status shows exactly the matching databases.",
 ["inputs","histories"],"all requests (any subset of keys, any value lists, under- and over-specified) over all reachable contents",
 "Tests use a few fixed requests on a fixed archive.",
 [A+"local/ListVisitor.h",A+"local/QueryVisitor.h",D+"EntryVisitMechanism.cc",T+"TocEngine.cc",A+"local/AxesVisitor.cc",A+"local/StatsVisitor.cc",T+"TocStats.cc",D+"IndexAxis.cc"],
 [("database location by partial key / regexp",T+"TocEngine.cc"),("index key and datum key filters",A+"local/ListVisitor.h"),("axes per index",D+"IndexAxis.cc")],["FDB::list","FDB::axes","FDB::stats","FDB::status","FDB::inspect"])
p("F08","Schema splits every field key the same way on write and read",
 "For every schema and key, archiving selects exactly the first rule whose values the key fits and splits the key into database, index and field parts, substituting optional/default/typed values, so that the same key in a read request always reaches the same field, listings show that key, and two different keys never share a field, nor does one hide or (on purge) remove another. Keys that no rule matches, that miss a mandatory keyword, carry unused keywords or values not in the admissible form are rejected and leave no field behind.",
 ["inputs","configurations"],"all schemas in the rule language (value lists, optional, default, ignored, types, nesting) and all keys",
 "Tests exercise a few production-like schemas; rule order, optional and default handling multiply.",
 ["src/fdb5/rules/Rule.cc","src/fdb5/rules/Schema.cc","src/fdb5/rules/SchemaParser.cc","src/fdb5/rules/Predicate.cc",D+"Key.cc","src/fdb5/types/TypesRegistry.cc"],
 [("first matching rule on write","src/fdb5/rules/Rule.cc"),("request expansion on read","src/fdb5/rules/Rule.cc"),("schema copy in the database","src/fdb5/toc/TocHandler.cc writeInitRecord")],["FDB::archive","FDB::list","FDB::retrieve"])
p("F09","Wipe removes exactly what was asked, nothing on a dry run, survives interruption",
 "A wipe removes exactly the databases or indexes wholly matched by the request, with the files only they use, and leaves every other field listed and retrievable; an over-specified request removes no reachable field, and a dry run changes nothing at all. Unrecognised files stop the wipe of a whole database unless explicitly overridden, a wipe interrupted at any point can be repeated to completion, never leaves listed fields whose data are gone nor a database that refuses further use, and a wipe that ends (also by an error) restores the controls it set.",
 ["histories","inputs","crash_points"],"all contents, all wipe requests and flags, every interruption point",
 "Wipe tests cover a few fixed layouts and no interruption; wrong deletion appears only for specific index/file sharing and requests.",
 [A+"local/WipeVisitor.cc",D+"WipeState.cc",T+"TocCatalogue.cc",T+"TocStore.cc",T+"TocEngine.cc",T+"TocHandler.cc"],
 [("classification of indexes and files",T+"TocCatalogue.cc wipeIndex/finaliseWipeState"),("mask before delete",T+"TocCatalogue.cc maskIndexEntries"),("locks during wipe",A+"local/WipeVisitor.cc")],["FDB::wipe","files under the root","FDB::list"])
p("F10","Purge removes only what is invisible",
 "Purging never changes what retrieve and deduplicated listing return; afterwards, no listed duplicate remains whose index or data file held only masked data, and purging again removes nothing more. A dry run changes nothing, and files still referred to by visible fields are never deleted.",
 ["histories","inputs"],"all histories of duplicates over indexes, writers and data files; dry and real runs",
 "The purge test covers one sub-toc layout.",
 [A+"local/PurgeVisitor.cc",T+"TocPurgeVisitor.cc",T+"TocStats.cc",T+"TocCatalogue.cc"],
 [("usage counting newest first",T+"TocPurgeVisitor.cc"),("mask then delete",T+"TocPurgeVisitor.cc purge")],["FDB::purge","FDB::list","FDB::retrieve","files"])
p("F11","Control identifiers gate exactly the operations they name",
 "While an operation (retrieve, list, archive, wipe) is disabled for a database, that operation ignores that database or, for archive and wipe, refuses with an error; the other operations, and requests that concern only other databases, behave as if nothing were disabled. Enabling restores the operation with all content intact, and the status reported always equals the controls set.",
 ["histories","configurations"],"all sequences of disable/enable on subsets of identifiers and databases interleaved with all other operations",
 "Tests check single control transitions on one database.",
 [A+"local/ControlVisitor.cc",T+"TocCatalogue.cc",T+"TocCatalogueWriter.cc",D+"Catalogue.cc","src/fdb5/toc/TocHandler.cc",A+"local/QueryVisitor.h"],
 [("lock files",T+"TocHandler.cc control"),("checks at database selection",D+"Archiver.cc / Inspector / EntryVisitMechanism")],["FDB::control","FDB::status","all operations"])
p("F12","Hide, overlay and move change where content is reachable, never the content",
 "Hiding a database makes all its present content unreachable and later content normal; overlaying makes the source database's fields reachable under the target keys, byte-identical, with the target's own later fields taking precedence; unmounting restores the state before. Moving a database yields, at the destination, exactly the same fields and bytes, with the source locked and removed only when complete.",
 ["histories"],"all contents (several indexes, writers, sub-tocs, duplicates) before and all operations after",
 "There is one move test on auxiliary files; overlay and hide have none that run here.",
 [T+"TocHandler.cc","src/fdb5/tools/fdb-hide.cc","src/fdb5/tools/fdb-overlay.cc",T+"TocMoveVisitor.cc",T+"TocCatalogueWriter.cc",T+"TocCatalogue.cc"],
 [("clear-all record",T+"TocHandler.cc writeClearAllRecord"),("sub-toc record to another database",T+"TocHandler.cc writeSubTocRecord"),("copy elements in order",T+"TocMoveVisitor.cc")],["FDB::list","FDB::retrieve","tools"])
p("F13","A composite FDB routes every request exactly to the lanes that match it",
 "With several lanes selected by rules, every archived field goes to exactly the first lane whose rules accept its key, and is refused if none does; retrieve, list and every other query see exactly the union of the lanes that can hold matching content, so that whatever was archived is found and nothing from excluded lanes appears.",
 ["inputs","configurations","histories"],"all lane configurations (select, multi-select, excludes, patterns) and all keys and requests",
 "One unit test checks a fixed two-lane configuration.",
 [A+"SelectFDB.cc","src/fdb5/rules/SelectMatcher.cc","src/fdb5/config/Config.cc"],
 [("matches with missing-key policy",A+"SelectFDB.cc"),("flush of every lane",A+"SelectFDB.cc flush")],["FDB::archive","FDB::list","FDB::retrieve"])
p("F14","A remote FDB behaves as the local one behind it",
 "Through a client of a catalogue/store server, every history of archive, flush, retrieve, inspect, list, axes, stats and wipe gives the same results as on the local database behind the servers, for any number of clients and servers, on a single or on separate control and data connections; every call returns. When flush returns, every field archived by that client before is visible to every other client and to direct local readers; locks on listing, retrieving and wiping hold for remote clients as for local ones, and a wipe refused by a server is an error of the client.",
 ["histories","schedules","configurations"],"all histories over one or more concurrent clients, one or several stores, shared or separate connections",
 "The remote tests run one scripted sequence each; message interleavings, several clients and error paths are sampled hardly at all.",
 ["src/fdb5/remote/client/*","src/fdb5/remote/server/*",A+"RemoteFDB.cc","src/fdb5/remote/Connection.cc"],
 [("request/answer multiplexing","src/fdb5/remote/client/ClientConnection.cc"),("archive queue and flush count","src/fdb5/remote/server/*Handler.cc"),("store connection selection","src/fdb5/remote/client/RemoteStore.cc")],["FDB API of the client"])
p("F15","Data handles return exactly the requested fields, in order, from any position",
 "A data handle for a request, a list of URIs or a listing returns the concatenation of exactly those fields, in the requested order (or storage order, when asked), for any sequence of read sizes, seeks, skips and re-opens; its declared size equals the bytes delivered. Options that merge, de-duplicate or make the handle seekable never change which bytes are delivered.",
 ["inputs","programs"],"all field layouts (adjacent, apart, several files, duplicates), all call sequences on the handle",
 "Tests read a handle once from start to end.",
 ["src/fdb5/io/FieldHandle.cc","src/fdb5/io/HandleGatherer.cc",A+"FDB.cc",D+"FieldLocation.cc",T+"TocFieldLocation.cc"],
 [("buffered/streamed parts","src/fdb5/io/FieldHandle.cc"),("gather and merge","src/fdb5/io/HandleGatherer.cc"),("hypercube de-duplication",A+"FDB.cc read")],["FDB::retrieve","FDB::read"])
p("F16","Sub-toc mode is observably equivalent to normal mode",
 "With sub-tables-of-contents enabled, for every history and any mixture of writers with and without the option, all readers see at every flush exactly what they would see without it, before, during and after compaction at close. Compaction loses, duplicates and resurrects nothing.",
 ["histories","configurations","crash_points"],"all histories with any mixture of writers using sub-tocs, any close order, readers at any point",
 "Sub-toc mode is exercised by one purge regression test.",
 [T+"TocHandler.cc",T+"TocCatalogueWriter.cc"],
 [("sub-toc creation and masking",T+"TocHandler.cc"),("compaction on close",T+"TocCatalogueWriter.cc compactSubTocIndexes")],["FDB::list","FDB::retrieve"])
p("F17","Databases live in exactly one permitted root and are found wherever they are",
 "A new database is created in a root that its file space and handler permit for writing, an existing database keeps being used where it is, and a database in any root permitted for reading is found; roots with an operation switched off never take part in it. The same key never ends up in two roots unless duplicates were explicitly allowed.",
 ["configurations","histories"],"all space/root configurations (several spaces, regular expressions, flags, handlers, pre-existing content)",
 "Tests use two roots in one configuration.",
 [T+"RootManager.cc",T+"FileSpace.cc",T+"FileSpaceHandler.cc",T+"TocEngine.cc",T+"Root.cc"],
 [("space by regular expression",T+"RootManager.cc"),("existing root first",T+"FileSpace.cc"),("visit/writable/list/... flags",T+"Root.cc")],["directories under the roots","FDB::list"])
p("F18","Archive/flush callbacks fire exactly once; request-checked archive is exact",
 "Each archived field triggers the archive callback exactly once with its full key, its data and length, and a location that, once flushed, reads back those bytes; each flush triggers the flush callback once. Archiving messages against a request succeeds exactly if the messages are precisely the fields the request spells out and otherwise raises an error.",
 ["inputs","histories"],"all sequences of archives/flushes with callbacks and all request/message-set pairs",
 "Tests count a few callbacks and try two mismatching requests.",
 [A+"FDB.cc",A+"LocalFDB.cc",D+"ArchiveVisitor.cc","src/fdb5/message/MessageArchiver.cc"],
 [("callback with location future",D+"ArchiveVisitor.cc"),("request cube check",A+"FDB.cc archive(request,handle)")],["callbacks","FDB::archive"])
p("F19","Differently spelled equal values address the same field",
 "Every keyword type maps each accepted spelling of a value (dates and their parts, times, steps and ranges with units, integers, fractional numbers of up to six digits, names in any case) to one canonical value, idempotently, and the same one on archive and on retrieve; distinct values never collide, and inadmissible values are refused on archive.",
 ["inputs"],"all values accepted by each keyword type",
 "Type tests check a few values per type.",
 ["src/fdb5/types/*.cc",D+"Key.cc","src/fdb5/types/TypesRegistry.cc"],
 [("tidy / toKey / getValues per type","src/fdb5/types/*.cc")],["FDB::archive","FDB::list","FDB::retrieve"])
p("F20","One FDB object can be used from many threads",
 "When several threads archive, flush, list and retrieve through one FDB object, the result equals that of some sequential order of the steps they are made of (a query looks at one database after the other, a flush publishes one index after the other); a flush covers every archive that returned before it began, from any thread. No interleaving deadlocks, loses a field or corrupts another's data.",
 ["schedules"],"all interleavings of calls from several threads on one handle",
 "The thread test runs one loop pattern with separate instances.",
 [A+"FDB.cc",D+"Archiver.cc",A+"LocalFDB.cc",D+"Inspector.cc"],
 [("flush mutex / per-database locks",D+"Archiver.cc"),("thread-safe location future",D+"ArchiveVisitor.cc")],["FDB API"])
p("F21","Reindexing makes existing data reachable under the new key without touching it",
 "After reindexing field locations into a database and flushing, those keys are listed and retrieved with exactly the bytes at the given locations, mixed freely with archived fields and following the same newest-wins and visibility rules. One FDB object either archives or reindexes. Purging a database never changes which fields are visible and never deletes data files that live outside it; reindexing never changes the data it points to.",
 ["histories"],"all mixtures of reindexed and archived fields, overwrites and purges",
 "One tool test reindexes one archive and lists it.",
 [D+"ReindexVisitor.cc",A+"LocalFDB.cc",T+"TocCatalogueWriter.cc",T+"TocCatalogue.cc"],
 [("index entry with foreign location",D+"ReindexVisitor.cc"),("only own files are deleted",T+"TocCatalogue.cc / TocPurgeVisitor.cc")],["FDB::reindex","FDB::retrieve"])
p("F22","A chunked data view maps every chunk to exactly its fields",
 "For every view definition (requests, axes chunked singly or as one, several extensions joined along an axis) each chunk contains exactly the values of the fields its index denotes, in axis order and row-major layout, missing fields are reported and not replaced by others' values, and the shape equals the number of values per axis.",
 ["inputs","configurations"],"all view definitions and chunk indexes",
 "Tests use a few axis definitions with a stub FDB.",
 ["src/chunked_data_view/*.cc"],
 [("axis index arithmetic","src/chunked_data_view/Axis.cc"),("chunk to request","src/chunked_data_view/ViewPart.cc"),("copy to position","src/chunked_data_view/ListIterator.cc")],["ChunkedDataView::at"])
p("F23","The DAOS backend is observably equivalent to the file backend",
 "With the DAOS engine, every history of archive, flush, list, retrieve and wipe gives the same visible results as with the file backend, apart from storage locations and superseded versions not being kept.",
 ["histories"],"all histories over the DAOS engine (dummy DAOS library)",
 "The DAOS tests run single scripted scenarios.",
 ["src/fdb5/daos/*.cc"],[("catalogue key-values","src/fdb5/daos/DaosCatalogueWriter.cc"),("store arrays","src/fdb5/daos/DaosStore.cc")],["FDB API"])
p("F24","The C interface mirrors the C++ one and reports every failure as a code",
 "Every C call has exactly the effect and result of its C++ counterpart for every call sequence, including iteration, attribute access and partial reads; every failure is reported as an error code with the reason, and iteration end is reported exactly once the data are exhausted.",
 ["programs","inputs"],"all call sequences of the C interface, including erroneous ones",
 "The C test needs downloaded data and does not run here.",
 [A+"fdb_c.cc"],[("exception wrapper",A+"fdb_c.cc wrapApiFunction"),("iterator state",A+"fdb_c.cc fdb_listiterator_t")],["C API"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: 
        if len(x["title"])>80: print("LONG",x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
import jsonschema
S=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x,S)
