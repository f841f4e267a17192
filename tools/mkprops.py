import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Ranking order is one strict total order everywhere",
 "For any two elements with different ids exactly one ranks above the other: higher score first, then higher tie-breaker, then earlier update time, then lower id, and the relation is transitive. Every sorting facility (element collections, ranked elements) orders by exactly this relation and only permutes its input, and the 'just below'/'just above' boundary of an element is the adjacent (score, tie-breaker) pair, saturating at the ends.",
 ["inputs"],"all elements: every 64-bit score and id, 32-bit tie-breaker and update time, including all ties and extreme values",
 "Tests compare a few hand-picked elements; the order has 2^192 operands per pair and the interesting ones are ties and the extreme values.",
 ["element.go","elements.go","rankedelement.go"],[("order","element.go Above/aboveP"),("sorting","elements.go Sort/Sorter, rankedelement.go Sort"),("boundaries","element.go PrevMax/AboveThis")])
p("C02","Element collections stay sorted, duplicate free and lose nothing",
 "Building a collection from arbitrary elements removes duplicate ids keeping the most recently updated entry (the higher score when update times are equal) and returns it in rank order. Insert, add, update, delete, merge and overwriting-merge of a sorted collection give exactly the expected set of elements in rank order and report the correct rank or not-found, without altering elements of a slice they share memory with unless documented.",
 ["inputs","histories"],"all collections of up to 3-4 elements with arbitrary field values and every operation argument",
 "Tests use a few generated collections with distinct scores; equal update times, ties and aliasing between slices are not reached.",
 ["elements.go"],[("dedup","elements.go Deduplicate/MergeDeduplicate"),("insert/merge","elements.go Insert/Merge/Add/Update/Delete")])
p("C03","Splitting elements into chunks is a partition on rank boundaries",
 "Splitting a sorted collection yields consecutive non-empty chunks whose concatenation is exactly the collection, never separates two elements with equal score and tie-breaker, and (when no ties force it) never makes a chunk larger than requested. Segment ranges built from such chunks cover the whole (score, tie-breaker) space exactly once, and filtering elements by a segment range selects exactly the elements within it.",
 ["inputs"],"all sorted collections of up to 4-5 elements, all chunk sizes, all segment ranges",
 "Only a handful of chunkings with distinct scores are tested; runs of ties across a chunk border and ranges at the numeric extremes are not.",
 ["elements.go","segment.go","segments.go"],[("chunking","elements.go SplitSize"),("range filter","segment.go FilterIdx"),("range cover","segments.go NewSegmentsElements/AlignIndex")])
p("C04","Updating elements is an exact upsert on the whole list",
 "After a successful update of a valid list, the list contains exactly the previous elements with the supplied elements replacing those of the same id or being added, each id once, stored in rank order with segment counters and id index consistent. The returned entries describe each supplied element with its new rank, and the 'before' information with the rank it had before the update.",
 ["inputs","histories"],"one update with 1-2 arbitrary elements applied to any valid stored list of up to 2-3 segments and 3-4 elements (inductive step: covers histories of any length that keep lists valid)",
 "Tests run random updates on generated lists; moves across segment borders at exactly the border values, id collisions and rank of moved elements are chosen rarely.",
 ["list.go","segments.go","elements.go"],[("upsert","list.go UpdateElements"),("routing","segments.go splitElementsIdx/splitScores")],["List.UpdateElements"])
p("C05","Insert and delete change exactly the named elements",
 "After a successful delete, exactly the elements with the given ids are gone and every other element, its payload and its rank order are unchanged; unknown ids have no effect. After a successful bulk insert of new ids the list is exactly the union; in both cases counters and the id index stay consistent and the call returns.",
 ["inputs","histories"],"one delete or insert with arbitrary ids/elements on any valid stored list of up to 2-3 segments",
 "Tests delete and insert a few ids on generated lists; ids at segment borders, ids absent from the list, and emptied segments are not covered for every value.",
 ["list.go","segments.go"],[("delete","list.go DeleteElements, segments.go DeleteElementsIdx/DeleteElements"),("insert","list.go Insert, segments.go Insert")],["List.DeleteElements","List.Insert"])
p("C06","Splitting, merging and reindexing never change list content",
 "Forcing split/merge maintenance or a reindex on a valid list leaves the same elements in the same order, leaves every element findable by id, leaves the list structurally valid, and removes storage of segments it dropped. After maintenance, oversized segments that can be split are smaller than before.",
 ["inputs","histories","configurations"],"any valid stored list of up to 3 segments/4-5 elements, any split/merge sizes in range",
 "Tests split a few big lists once; borders with ties, merges directly after splits and index splits depend on exact values.",
 ["list.go","segments.go"],[("maintenance","list.go split, segments.go splitIdx/mergeWithNext/updateIndexElements"),("reindex","list.go reindex")],["List.ForceSplit","List.Reindex"])
p("C07","Populate, clone and repair produce exactly the intended list",
 "Populating a list replaces its content with exactly the given elements; a list created as a clone has exactly the content of the original and later changes of one do not affect the other. Repair of a list with damaged index, duplicated or misplaced elements yields a structurally valid list containing every readable element id exactly once, keeping the most recently updated copy.",
 ["inputs","histories"],"all element sets up to 4 elements, any split/merge sizes in range, damage to index blobs, duplicate ids and wrong-segment elements",
 "Tests populate/clone/repair a few fixed lists; arbitrary ties, sizes and damage patterns are not covered.",
 ["list.go","segments.go"],[("populate","list.go populate, segments.go NewSegmentsElements"),("clone","list.go cloneElements"),("repair","list.go Repair")],["List.Populate","NewList","List.Repair"])
p("C08","Element lookups return the true rank and neighbours",
 "Looking up ids in a valid list returns exactly the ids that exist, each once, in rank order, with from-top equal to the number of elements ranked above it and from-bottom equal to the number ranked below it. With a radius, the neighbours are exactly the nearest min(radius, available) elements on each side, also across segment borders and empty segments.",
 ["inputs"],"any valid list of up to 3 segments/4 elements, any ids (present or not), radius 0..3",
 "Tests look up elements of a few generated lists; lookups next to segment borders and empty segments for every arrangement are not covered.",
 ["list.go","segments.go"],[("lookup","list.go getElements/getIndexElements, segments.go FindElements/findRanked")],["List.GetElements"])
p("C09","Range, score and percentile queries return the right slice of the ranking",
 "For a valid list, top and bottom range queries return exactly the requested consecutive ranks, a score query returns the first n elements whose score is at most the given score with their true ranks, and a percentile query returns the element at offset floor(percentile x size), clamped to the last element, with its true rank. Queries beyond the list or on an empty list return an empty result or an error, never a wrong element or a crash.",
 ["inputs"],"any valid list of up to 3 segments/4 elements including empty segments, any offset/limit/score/percentile",
 "Tests sample some offsets on one generated list and never query empty lists or emptied segments by percentile.",
 ["list.go","segments.go"],[("ranges","list.go GetRankTop/GetRankBottom, segments.go segIdxTop/segIdxBottom/getElementsOffset"),("score","list.go GetRankScoreDesc, segments.go segIdxScore/getElementsFromScore"),("percentile","list.go GetPercentile")],["List.GetRankTop","List.GetRankBottom","List.GetRankScoreDesc","List.GetPercentile","List.Stats","List.Len"])
p("C10","Verification accepts valid lists and rejects broken ones",
 "Verifying a list and its elements succeeds on every structurally valid list and fails on a list with a range gap or overlap, a wrong element counter, unsorted or misplaced elements, a duplicate id, or an index entry that is missing, surplus or points to the wrong segment. Verification never changes stored content.",
 ["inputs"],"any stored list of up to 2-3 segments with one arbitrary corrupted field or element",
 "Tests corrupt a few lists in a couple of fixed ways.",
 ["list.go","segments.go"],[("verify","list.go verify/verifyElements, segments.go Verify/VerifyElements")],["List.Verify","List.VerifyElements"])
p("C11","Stored formats round-trip every value exactly",
 "Encoding and decoding elements, segments and lists with any field values gives back an equal value and consumes exactly the encoded bytes, through both the byte-slice and the stream interface, and the encodings of both interfaces are the same and follow the documented field order and names, so data stored by earlier versions stays readable. The size estimate of a value is never smaller than its encoding.",
 ["inputs"],"all field values (every integer encoding size), payloads up to a few bytes, collections up to 2 entries",
 "Generated codec tests only encode the zero value.",
 ["element_gen.go","elements_gen.go","segment_gen.go","segments_gen.go","list_gen.go","list-id_gen.go"],[("codec","*_gen.go EncodeMsg/DecodeMsg/MarshalMsg/UnmarshalMsg/Msgsize")])
p("C12","Damaged or foreign stored data is reported, never a crash",
 "Loading segments, elements, a list registry or a backup from truncated, corrupted or wrong-version bytes returns an error (or a value the bytes do encode) and never panics or silently accepts a version it does not know. Truncating a valid encoding anywhere is always an error. Counts claimed by damaged data never make the process reserve memory out of proportion to the data. Restoring a backup whose announced segment count differs from its segments is refused.",
 ["inputs"],"every byte string up to a small length, every truncation point of valid encodings, every version byte",
 "Tests feed no corrupted bytes to the decoders.",
 ["*_gen.go","segment.go","segments.go","lists.go","list.go","msgppool.go"],[("version check","msgppool.go MsgpGetVersion/GetVersion, segments.go Load, segment.go loadElements"),("decoders","*_gen.go")])
p("C13","Backup and restore reproduce a list exactly",
 "Restoring a list backup gives a list with the same elements, payloads, order, metadata and split/merge settings that verifies, under its own or the requested new id; with a new id the original list's storage is untouched. Restoring truncated or wrong-version backup data reports an error.",
 ["inputs","histories"],"any valid list of up to 2-3 segments, new or same id, every truncation point",
 "One test restores one generated list.",
 ["list.go","msgppool.go"],[("backup","list.go Backup/RestoreList")],["List.Backup","RestoreList"])
p("C14","Backup sets: every list accounted for, one bad list never breaks the rest",
 "A backup job followed by a restore brings back every list that the job reports as successful; unknown or unreadable lists are reported as failed and do not prevent others from being stored or restored. A restore counts every list in the set exactly once as restored, skipped (already present and replacement not requested) or failed, applies the requested id prefix/suffix, and terminates without crashing; a list that cannot be restored leaves the list it would replace as it was. A job whose destination (file, stream, S3 or another server) does not take all data or refuses it reports an error, and a damaged or foreign backup set is refused with an error.",
 ["inputs","fault_sequences"],"1-2 lists per set, any subset unreadable/unknown/already present, any single storage failure during restore, destinations that fail or refuse at any point",
 "Tests back up and restore only healthy lists through the HTTP API.",
 ["backup/job.go","backup/restore.go"],[("job","backup/job.go Start/backupList"),("restore","backup/restore.go Restore")],["backup.Request.Start","backup.RestoreInfo.Restore"])
p("C15","A storage failure is never reported as success",
 "If a storage read or write needed by a list operation fails, the operation returns an error, or its full effect is nevertheless stored and readable; an acknowledged update, insert, delete, populate, clone, repair or restore is visible to a reader that loads the list from storage. Read operations never return wrong or partial data as a success because of a failed read. (Deleting content that is no longer referenced, including a whole list, is best effort by design.)",
 ["fault_sequences","inputs"],"every single failing storage call (symbolic position) in each list operation, on small valid lists",
 "Tests inject failures at random and only check that no lock is left behind.",
 ["list.go","segments.go","segment.go"],[("error propagation","list.go, segments.go replaceSegment/elementFullIdx/waitErr")])
p("C16","A failed operation leaves no lock held and the list usable",
 "Whatever storage call fails during a list operation, the operation returns (no deadlock), does not panic or double-release a lock, and afterwards every lock of the list can be taken and later operations on the list complete.",
 ["fault_sequences","inputs"],"every single failing storage call in each list operation, followed by another operation",
 "Fault tests use random failure percentages on a few operations, so a specific failing call inside an error path is reached by luck.",
 ["list.go","segments.go"],[("lock release","list.go loadSegments/unlock, segments.go elementFullIdx/replaceSegment")],["List.VerifyUnlocked"])
p("C17","Concurrent operations on a list never deadlock or lose updates",
 "Any two list operations running concurrently on the same list both complete without failing because of the other, and the final content equals the result of running them in one of the two orders. A lookup by id or a clone running concurrently with a change sees every element that is in the list all the time exactly once, in its old or its new state; rank, score and percentile queries return only elements in their old or new state.",
 ["schedules"],"pairs of operations (changes, lookups, queries, maintenance, clone, backup, release) on a small list with arbitrary scores, each operation stopped at any one or two of its storage or cache accesses while the other proceeds as far as it can",
 "Tests run goroutines under whatever schedule the machine picks; lock-order problems need a specific interleaving.",
 ["list.go","segments.go","segment.go"],[("locking","list.go segmentsLock/updateLock/loadSegments, segment.go elementLoader, segments.go elementFullIdx/replaceSegment"),("lookups","list.go GetElements, segments.go FindElements/addNeighbours")])
p("C18","List registry lookups, filters and paging are exact",
 "A list added to the registry is found by its id until deleted, adding an id again replaces it, and bulk lookups answer position by position. Matching returns exactly the lists in the named sets or having all given (non-empty) metadata values; paging after/before an id returns the nearest n ids in order together with the exact number of ids outside the page on either side.",
 ["inputs","histories"],"up to 4 lists with arbitrary distinct ids added in any order, any page origin, any page size, arbitrary metadata",
 "Tests page through one fixed set; results depend on the random iteration order of the registry.",
 ["lists.go","list-id.go"],[("registry","lists.go ByID/ByIDs/Exists/MatchAll/All"),("paging","lists.go SortedIDsAfter/SortedIDsBefore"),("ids","list-id.go Deduplicate/Sort")])
p("C19","The saved registry loads back completely, with fallback to the backup",
 "Saving the registry and loading it gives the same set of lists with the same settings and content references. If the master copy cannot be read or decoded, the backup copy is loaded when one is configured, and otherwise the failure is reported, and reported as 'not found' only if there is no master copy. A save that could not write everything reports an error.",
 ["inputs","fault_sequences"],"up to 2-3 lists with arbitrary settings, any failing storage call, master missing/corrupt/truncated",
 "Tests save and load one fixed registry.",
 ["manager.go","lists.go"],[("save/load","lists.go Save/Load"),("fallback","manager.go LoadLists/SaveLists")],["Manager.SaveLists","Manager.LoadLists"])
p("C20","The lazy saver behaves like a plain store to its users",
 "Through the write-behind store, a read returns the last value written (or not-found after a delete) regardless of what has been flushed, distinct (set, key) pairs never affect each other, and returned buffers are not changed by later operations. After shutdown completes, the backing store holds, for every key, the result of the last operation on it (as long as the backing store itself does not fail).",
 ["schedules","histories","inputs"],"histories of 2-3 operations over 2 keys, arbitrary keys including separators, all interleavings of savers up to a stated number of preemptions",
 "One generic store test runs against it with default timing; flush/overwrite races need specific schedules.",
 ["blobstore/lazysaver.go"],[("queue","blobstore/lazysaver.go set/get/delete closures, saveFront, startSaver, Shutdown")])
p("C21","The size-limiting store is transparent and keeps parts within the limit",
 "Any blob written is read back byte-identical, whatever its size relative to the limit and whatever was stored under the key before; no write to the underlying store exceeds the limit. Deleting a blob, or overwriting it with a smaller one after this store has read or written it, removes surplus parts, a failing underlying call is reported as an error, and after a successful delete the blob is gone.",
 ["inputs","histories","fault_sequences"],"blob sizes around 0, 1, 2, 3 multiples of the limit with arbitrary bytes at the borders, histories of 2-3 operations, fresh or warm part cache, any failing call",
 "Tests use a few random sizes with healthy storage.",
 ["blobstore/maxsize.go"],[("parts","blobstore/maxsize.go Get/Set/Delete")])
p("C22","The retrying store retries transient errors and only those",
 "An operation through the retrying store succeeds with the underlying result if some attempt within the back-off budget succeeds, and otherwise returns an error; it never returns data of a failed attempt. Errors declared permanent, and any error after the caller's context ended, stop retrying at once and are returned; configuring one store does not change the behaviour of others.",
 ["fault_sequences","configurations"],"all sequences of up to 3 results (success, transient, permanent, custom permanent), any operation",
 "Tests use one always-failing store.",
 ["blobstore/retry.go"],[("retry","blobstore/retry.go Get/Set/Delete/opErr"),("options","blobstore/retry.go PermanentErr")])
p("C23","The in-memory store is a map from (set, key) to an isolated copy",
 "The in-memory store returns exactly the last blob set for a (set, key) pair, not-found for anything never set or deleted, independent of operations on other pairs and of later changes to the caller's buffer; too large blobs and too short keys are refused without effect.",
 ["inputs","histories"],"histories of 2-3 operations with symbolic keys/values",
 "The generic store test uses a fixed history with well separated keys.",
 ["blobstore/memstore/memstore.go","blobstore/blobstore.go"],[("map","blobstore/memstore/memstore.go Get/Set/Delete/toKey")])
p("C24","Float scores convert to integers and back without losing order",
 "Converting any two floats to sortable integers preserves their order, with NaN lowest, infinities at the ends and both zeros equal, and converting back gives the same float (NaN for NaN).",
 ["inputs"],"all 2^64 float64 bit patterns, all pairs",
 "Tests try a list of special values and random floats.",
 ["sortfloat/float.go"],[("conversion","sortfloat/float.go SortableFloat64/ReverseFloat64")])
p("C25","Token restrictions are enforced for lists and elements",
 "A request whose token restricts lists (or elements) is refused if any named list (or element) is not in the restriction, and accepted if all are; a request without token or without restriction is accepted. The restriction is compared entry by entry after trimming blanks, never by prefix, substring or numeric wrap-around.",
 ["inputs"],"all restriction strings and ids up to a small length, 1-2 ids",
 "No test exercises restricted tokens.",
 ["api/jwt.go"],[("access check","api/jwt.go HasAccessToList/HasAccessToElement")])
p("C26","API responses carry the true ranks of elements and neighbours",
 "Converting a ranked element to an API response preserves id, score, tie-breaker, payload and update time, and gives every neighbour the rank it has in the list: each neighbour above has its own from-top/from-bottom, and likewise below and for the previous placement. Neighbours are listed in ranking order.",
 ["inputs"],"any element rank, up to 3 neighbours on each side, any list size",
 "API tests request at most one neighbour above.",
 ["api/morph/elements.go","segments.go","rankedelement.go"],[("conversion","api/morph/elements.go Full/FullUpdate/ToRanked"),("neighbour order","segments.go findRanked")])
p("C27","API requests only change or reveal what the token allows",
 "An API request that reads a list or reads or changes elements, of one list or of several, and whose token does not allow one of the lists or elements it is about is answered with 401, reads no list content and changes nothing. An allowed request, and a list management request (create, clone, delete, verify, repair, reindex), has exactly the effect of the corresponding list operation and answers with its result and the documented status: not found for an unknown list or element, conflict when creating what exists, bad request for invalid arguments. Multi-list requests work on exactly the lists selected by names, metadata and sets, report each of them (only failures with errors_only), leave lists that are missing or fail without affecting others, and a request that ends, also by cancellation, leaves nothing running on and no update slot taken.",
 ["inputs","programs","schedules"],"every element, list read and multi-list request with arbitrary ids, scores, ranks and ranges within small lists, restricted and unrestricted tokens, cancellation at any storage access",
 "API tests run a fixed script without restricted tokens and never cancel.",
 ["api/lists.go","api/elements.go","api/multilist.go","api/jwt.go"],[("handlers","api/elements.go, api/lists.go, api/multilist.go"),("restriction","api/jwt.go HasAccessToList/HasAccessToElement"),("selection","api/multilist.go onEveryList/onEverySlice and the list selection")])
p("C28","External storage engines keep acknowledged writes",
 "Blobs acknowledged by the badger, bolt, aerospike, dynamo and S3 back ends can be read back after a crash or restart.",
 ["crash_points","histories"],"all crash points of the external engines",
 "Engine tests run one process without crashes; some need remote services.",
 ["blobstore/badgerstore/badger.go","blobstore/boltstore/boltstore.go","blobstore/aerostore/aerostore.go","blobstore/dynamo/dynamo.go","backup/s3/s3.go"],[("adapters","blobstore/*store/*.go")])
p("C29","Operations on several segments report every failure and leave nothing running or locked",
 "An operation that works on several segments at once returns after all its workers are done, reports an error if at least one of them failed to load or save and only if one failed or the context ended, leaves no goroutine behind and leaves no segment locked, so that the list can be used afterwards. A token bucket never hands out more tokens than it holds, loses none, and a released token can be taken again.",
 ["schedules","fault_sequences"],"lists of three segments, any subset of segment loads or saves failing, the context ending at any storage access, all interleavings up to a stated number of preemptions",
 "Tests exercise the helpers only without failures, under machine-chosen schedules.",
 ["tools.go","bucket.go","segments.go","list.go"],[("wait","tools.go waitErr"),("workers","segments.go FindElements/Insert/DeleteElementsIdx/DeleteElements/VerifyElements/ElementIndexAll/updateIndexElements, list.go UpdateElements"),("bucket","bucket.go Get/Release")])
p("C30","Storage adapters return the last acknowledged write and report engine failures",
 "Through the badger, bolt, aerospike and dynamo adapters a read returns the last acknowledged write, or not-found if there was none or the blob was deleted; different pairs of set and key (keys without '/') never affect each other, and neither does changing a buffer that was stored or returned. An operation in which the engine fails reports an error, never not-found, and leaves the blob at its old or new value and all others as they were; also writes that an adapter still queues survive a failing engine call. A store that closed without error has handed every acknowledged write to the engine.",
 ["histories","fault_sequences","schedules"],"histories of 3-4 operations on 2 keys, arbitrary values, sets and keys, any one failing engine call, small transactions and queue, two concurrent operations",
 "Engine tests run the healthy engine with one history; aerospike and dynamo need remote services and are not tested.",
 ["blobstore/badgerstore/badger.go","blobstore/boltstore/boltstore.go","blobstore/aerostore/aerostore.go","blobstore/dynamo/dynamo.go"],[("badger","blobstore/badgerstore/badger.go Get/Set/Delete/flush/Close"),("bolt","blobstore/boltstore/boltstore.go"),("aerospike","blobstore/aerostore/aerostore.go"),("dynamo","blobstore/dynamo/dynamo.go")])
p("C31","Results and arguments are independent of the list",
 "What a list operation returned stays as it was when the list changes later. The receiver may overwrite, reorder and extend a returned slice without any effect on the list, its cached segments or later results, and the caller may reuse the slices of elements passed to an update, insert or population once the operation returned, also when several lists share a cache. (The bytes of a payload may be shared.)",
 ["histories","inputs"],"one read operation of each kind followed by a change, or one change followed by overwriting its arguments, lists of up to 3 elements in 2 segments with and without cache",
 "Tests compare results at once and never reuse or overwrite slices they passed or got.",
 ["list.go","segments.go","elements.go","rankedelement.go","segment.go"],[("reads","list.go GetElements/GetRankTop/GetRankScoreDesc/GetPercentile, segments.go getElementsOffset"),("cache","segment.go loadElements/saveElements"),("arguments","list.go UpdateElements/Insert/Populate")])
p("C32","A segment cache never changes results",
 "A list with a segment cache, whatever the cache drops and whenever it does so, gives for every operation the results, errors and stored content that it would give without a cache. After an operation that changes, splits, merges, restores, drops or repairs the list, no stale segment is served from the cache. After an operation that failed because of the storage, the answers of the list do not depend on what the cache holds.",
 ["histories","inputs","storage failures"],"two operations of up to nine kinds on lists of 2-3 arbitrary elements in 2 segments, the cache forgetting everything at any one access; one operation with a failing write at any call",
 "Tests run with one cache that is never full.",
 ["segment.go","list.go","segments.go","cache.go"],[("cache use","segment.go loadElements/saveElements/deleteElements"),("restore","list.go RestoreList"),("split and merge","list.go split, segments.go mergeSegments")])
p("C33","Background maintenance keeps the registry saved and never changes a list",
 "The interval saver stores the current registry at every interval and once more when told to stop, also after earlier saves failed, and copies it to the backup store after every n-th save if that is enabled. The pruner releases the segments of lists that do not ask to keep them loaded and nothing else. The splitter takes the request of an operation that outgrew a segment and splits it, also after an earlier split failed or the queue was full. None of them changes the elements of any list, makes a concurrent operation fail, or keeps running after it was told to stop.",
 ["schedules","fault_sequences","histories"],"3 (5) intervals with changes and any failing saves, one operation competing with the pruner or splitter under one preemption anywhere, any one failing write of a split",
 "Tests start the services but never look at what they do, and none makes a save fail.",
 ["manager.go","lists.go","list.go"],[("saver","manager.go StartIntervalSaver/SaveLists"),("pruner","manager.go StartListPruner, lists.go Prune, list.go ReleaseSegments"),("splitter","manager.go StartListSplitter, list.go checkSplit/requestSplit/split")])
p("C34","A configured server keeps its lists over shutdowns and failed starts",
 "A server uses the storage, place, write mode, cache, retries, lazy saving, registry backup and limit of concurrent updates that its configuration names, and refuses to start on one that cannot be used. It starts with all lists of the stored registry, or of the registry backup if the stored one is gone, makes a new registry only if there is none, and never overwrites one that it could not load. A request during a shutdown is either refused without effect or completed and stored before the stores are closed, and after an orderly shutdown and a start every list has exactly its elements again.",
 ["configurations","histories","schedules","fault_sequences"],"every combination of engine, cache, retry and lazy saving with arbitrary elements, one request competing with a shutdown under one preemption anywhere, any one or all failing storage calls from any point of a start",
 "Tests start one server with one configuration and never restart it.",
 ["api/rankdb.go","api/shutdown.go","manager.go","lists.go","blobstore/lazysaver.go","blobstore/retry.go"],[("start","api/rankdb.go StartServer"),("storage","api/rankdb.go newBlobstore"),("shutdown","api/shutdown.go ShutdownMiddleware, manager.go StartIntervalSaver, blobstore/lazysaver.go Shutdown"),("update limit","api/shutdown.go UpdateRequest")])
p("C35","Backup and restore requests move exactly the requested lists",
 "A backup request backs up exactly the lists that its names, metadata and sets select (all, if it selects by none), to the destination it names, and reports the lists that are missing and nothing else as errors. Restoring what was downloaded or sent to another server gives lists with the same elements, set and metadata under the requested prefix and suffix, replaces existing lists unless they are to be kept, leaves all other lists alone, and counts what it restored and skipped. A backup that was cancelled, cut off, or refused by its destination is not reported or restored as complete. A request that cannot work is answered with 400 or 404 and starts nothing; no request keeps an update slot or leaves anything running.",
 ["inputs","fault_sequences","histories"],"two lists of up to 2 elements, every selection, existing and changed lists, keep or replace, any one-character prefix and suffix, a destination that is down, refuses or stops at any byte, cancellation at any storage access, any answer of a source URL",
 "The API tests start one backup of one kind and never let anything fail.",
 ["api/multilist.go","api/backup.go","api/morph/backup.go","backup/job.go","backup/restore.go","backup/provider.go","backup/server/rankdb.go","backup/reader/reader.go"],[("requests","api/multilist.go Backup/Restore"),("status","api/backup.go Status/Delete/startBackup"),("jobs","backup/job.go Start/Cancel"),("transfer","backup/server/rankdb.go NewRankDB/Save/Transfer")])
p("C36","Concurrent use is free of data races",
 "Lists, the registry, the write cache, the server's controllers and its background jobs may be used by any number of requests at the same time. No two of their accesses to the same memory, at least one of them a write, happen without a lock, channel, atomic or other synchronisation ordering them: whatever the interleaving, no request sees half-written state or corrupts a map or slice in use by another.",
 ["inputs","schedules"],"every ordered pair of operations of one list of 3 elements, with the second running at any of the first 8 storage accesses of the first or after it, every pair of registry, write cache and API operations, background loops together with requests",
 "Unit tests run with the race detector only see the races of the interleavings they happen to run, and most tests use a list from one goroutine.",
 ["list.go","segments.go","manager.go","lists.go","blobstore/lazysaver.go","api/elements.go","api/backup.go","backup/job.go"],[("list operations","list.go loadSegments/UpdateElements/Verify/Stats"),("segments","segments.go elementFullIdx/replaceSegment"),("registry","manager.go, lists.go"),("write cache","blobstore/lazysaver.go")])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P), max(len(x['title']) for x in P))
