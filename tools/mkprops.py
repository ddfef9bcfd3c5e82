#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the file stays well-formed)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=list(observe), hook_needed=hook)))

prop("C01", "A ranked list behaves as a map from element ID to its latest element",
 "After any sequence of populate, insert, update and delete calls, a list holds exactly the elements that applying those calls to a map keyed by element ID would leave: every element once, with the score, tie breaker, payload and update time last given for it. Looking elements up by ID returns exactly the requested elements that are present (each once, duplicates in the request ignored), and the reported length is their number. IDs and scores may be any 64-bit value, including 0 and the maximum, and ties may be arbitrary.",
 ["inputs", "histories", "configurations"],
 "every sequence of list operations, every ID/score/tie breaker, every split/merge size",
 "Tests drive a handful of fixed or random lists and compare against the same code's own sorting; they never explore histories where an element moves between segments, an emptied segment is refilled, or keys sit on segment borders and at 0/2^64-1.",
 ["list.go", "segments.go", "elements.go"],
 [("update moves an element between score segments and its index entry", "list.go (*List).UpdateElements"),
  ("insert/delete through the segment index", "list.go insert, DeleteElements; segments.go Insert, DeleteElementsIdx"),
  ("routing of positions to segments", "segment.go FilterIdx, segments.go splitScores")],
 [("scores segments", "sorted elements in rank order", "list.go List.scores"), ("index segments", "element ID to segment", "list.go List.index")],
 ["GetElements, Len, GetRankTop, persisted blobs"])

prop("C02", "Rank queries agree with one total order",
 "At every quiescent moment all queries describe one and the same ranking: score descending, then tie breaker descending, then earlier update time, then lower ID. Ranges from the top and from the bottom, ranges starting at a score, percentile look-ups, neighbours of an element within a radius, rank from top and rank from bottom all return exactly what that order says, at any offset and size and also on empty lists and across emptied or uneven segments. An out-of-range offset is reported as out of bounds and nothing panics.",
 ["inputs", "histories", "configurations"],
 "every list content and segmentation, every query argument",
 "Tests check some offsets on freshly populated lists; they do not vary segmentation, empty segments, ties across segment borders or extreme arguments.",
 ["list.go", "segments.go", "rankedelement.go", "element.go"],
 [("position arithmetic over segment sizes", "segments.go segIdxTop, segIdxBottom, segIdxScore, topOffsets"),
  ("neighbour walk across segments", "segments.go findRanked"), ("order", "element.go Above")],
 [("segment sizes", "N per segment", "segment.go Segment.N")],
 ["GetRankTop, GetRankBottom, GetRankScoreDesc, GetPercentile, GetElements, Stats"])

prop("C03", "Stored segments partition the ranking and the index is exact",
 "After every successful operation the stored form of a list is consistent: its segments cover the whole key space from maximum to zero without gap or overlap, every element is stored once, in order, inside the bounds of its segment, and recorded segment sizes are the real ones. The index holds exactly one entry per element, pointing to the segment that holds it, and the list's own verification reports no error. The store holds exactly the blobs the list needs, nothing is left behind by splitting, merging, re-indexing, repairing, repopulating or deleting.",
 ["inputs", "histories", "configurations"],
 "every history of list operations and maintenance, every split/merge size",
 "Tests call Verify at a few points; Verify is itself code under change, does not look at what is persisted, and cannot see leaked blobs.",
 ["segments.go", "segment.go", "list.go"],
 [("split and merge of segments with index update", "list.go split; segments.go splitIdx, mergeWithNext, updateIndexElements"),
  ("index construction", "segments.go NewSegmentsElements, AlignIndex; list.go reindex"),
  ("replacement of a segment", "segments.go replaceSegment")],
 [("Segments", "ordered segment descriptors", "segments.go Segments"), ("element blobs", "one per segment", "segment.go StorageKey")],
 ["blob store contents after each operation; Verify; VerifyElements"])

prop("C04", "Updates report the true previous and new placement",
 "When results are requested, an update returns each updated element once with its new rank from top and from bottom and its neighbours in the ranking as it stands after the update. An element that existed before carries the value and rank (from top and from bottom) it had immediately before the call, and a new element carries none. This holds for any batch, also when elements move across segments or change places with each other.",
 ["inputs", "histories", "schedules"],
 "every list content, segmentation and update batch, also with concurrent updates of the same list",
 "Tests look at the result of updating single-segment lists, where a segment-relative rank and a list-wide rank coincide.",
 ["list.go", "segments.go"],
 [("previous rank recorded before the update, new rank after it", "list.go UpdateElements (oldRank, getElements)")],
 [], ["UpdateElements results"])

prop("C05", "Maintenance never changes what a list answers",
 "Splitting, merging, verifying, re-indexing, repairing, releasing a list from memory, evicting from or running without the element cache, and loading on demand versus at start leave the list's elements and all answers unchanged, before, between and after any other operations. Repair of an undamaged list loses, duplicates and alters nothing. A list that became damaged only in its index is fully restored by re-indexing or repairing it.",
 ["histories", "configurations"],
 "every interleaving of maintenance with other operations, every cache size, load mode and split/merge size",
 "Tests run each maintenance call once on a fresh list, with or without cache, and rarely continue to use the list afterwards.",
 ["list.go", "segments.go", "segment.go", "cache.go"],
 [("split/merge", "list.go split"), ("Repair", "list.go Repair"), ("Reindex", "list.go reindex"), ("ReleaseSegments", "list.go ReleaseSegments"), ("cache", "segments.go elementFullIdx, replaceSegment")],
 [], ["all list queries before and after maintenance"])

prop("C06", "Saved lists come back identical after a restart",
 "After the registry of lists is saved and loaded into a new manager on the same storage, exactly the lists that existed at the save are known, each with its ID, set, metadata, sizes and load mode, and each answering as before. If the primary registry is missing or unreadable and a backup was saved, the backup is loaded instead, and nothing of the unreadable one remains. Stopping the interval saver saves the registry once more before it reports that it is done.",
 ["histories", "configurations", "fault_sequences"],
 "every set of lists and history before the save, every way the primary registry can be lost or cut short",
 "Tests save and reload one small registry and one missing-primary case.",
 ["lists.go", "manager.go"],
 [("registry stream", "lists.go Save, Load"), ("backup fall back", "manager.go LoadLists, SaveLists"), ("interval saver", "manager.go StartIntervalSaver")],
 [("Lists", "list ID to list", "lists.go Lists")], ["Manager.LoadLists, Lists.All, list queries after reload"])

prop("C07", "Concurrent list operations always finish",
 "Any mix of reads, ranked reads with neighbours, statistics, updates, inserts, deletes, splits, re-indexing, repair, verification, backup, cloning and release on the same lists, from any number of goroutines, terminates: no call blocks forever and afterwards every lock is free. No combination panics or crashes the process.",
 ["schedules"],
 "every interleaving of concurrent calls on shared lists, with slow or fast storage",
 "Lock order problems need two or three calls to meet at particular points; tests run few goroutines with in-memory storage where the window is microseconds wide.",
 ["list.go", "segments.go"],
 [("list lock order: update lock, loading lock, segments lock, segment locks", "list.go loadSegments"),
  ("segment locks", "segments.go elementFullIdx, findRanked, getElementsOffset")],
 [("updateLock, loadingLock, segmentsLock, elementLoader.Mu", "locks", "list.go, segment.go")],
 ["call/return of every operation under a watchdog"])

prop("C08", "Concurrent updates are atomic and reads return only real elements",
 "Concurrent updates, inserts, deletes, re-indexing, splits and repairs of one list have the effect of running them one after the other, in an order compatible with real time, and an update's reported placements are those of that order. Every element returned by a concurrent read was the current element for its ID at some moment during the read, no ID is returned twice by a look-up, and an element that is in the list during the whole look-up is found. A clone or backup taken during updates contains a state the list really had.",
 ["schedules", "histories"],
 "every interleaving of concurrent calls on a list",
 "Tests compare at most the number of elements after concurrent updates; lost, duplicated or half-applied batches need specific interleavings.",
 ["list.go", "segments.go"],
 [("update lock held for whole updates", "list.go loadSegments, UpdateElements"), ("look-up via index then segment", "list.go getElements"), ("clone and backup", "list.go cloneElements, Backup")],
 [], ["call/return with results of every operation; final content"])

prop("C09", "Storage failures are reported and never wedge a list",
 "When reads or writes of the blob store fail at any point, a list operation either succeeds with its full effect or returns an error; it never panics, never leaves a lock held, and never reports success for an update, insert or delete that was not stored. Elements that a failed update, insert or delete did not address are neither lost nor altered. Once storage works again, repair succeeds and yields a valid list that holds no element that was never given to it.",
 ["fault_sequences", "histories"],
 "every placement of failing blob store calls in every history of list operations",
 "Tests inject failures for population and a few loads; error paths in updates, index loading and splitting are not driven.",
 ["list.go", "segments.go", "segment.go"],
 [("error propagation from segment loads and saves", "list.go UpdateElements, DeleteElements, insert, populate, split, reindex, Repair"), ("lock release on error paths", "list.go loadSegments, populate, reindex, split")],
 [], ["operation results with injected failures, then Repair and full comparison"])

prop("C10", "The write-behind saver always serves the newest write",
 "A read through the write-behind saver returns the value of the latest completed write for that key, or not-found after a delete, no matter whether that write is still queued, being saved, or saved, and no matter what is being written or re-used concurrently. Values are isolated: the caller may re-use its buffer after a write, and a value once returned never changes. A key is never confused with another key or set, and keys without pending writes read through to the backing store.",
 ["schedules", "histories", "configurations"],
 "every interleaving of writes, deletes and reads with background saving of any duration",
 "The existing test runs the generic store test with fast storage; it cannot hold a save open while the same key is written again.",
 ["blobstore/lazysaver.go"],
 [("pending items are looked up first", "lazysaver.go l.get"), ("an item being saved is not modified", "lazysaver.go l.set, l.delete (saving flag)"), ("buffer pools", "lazysaver.go getDataBufferChunk, putDataBufferChunk")],
 [("cache, cacheIdx", "queue of pending writes and newest item per key", "lazysaver.go LazySaver")],
 ["LazySaver.Get/Set/Delete results, backing store calls"])

prop("C11", "The write-behind saver leaves the last write in the backing store",
 "For every key the writes reach the backing store in the order they were made, possibly skipping overwritten ones, so a slow save never lands after a newer one. After shutdown returns, every write and delete acknowledged before it is in the backing store with its last value. After shutdown has started, further requests are refused with a shutting-down error.",
 ["schedules", "histories", "fault_sequences"],
 "every interleaving of writers, savers and shutdown, any save duration",
 "The existing test never lets two saves of the same key be in flight and checks no ordering.",
 ["blobstore/lazysaver.go"],
 [("requestHandler hands queue items to savers", "lazysaver.go requestHandler, saveFront, startSaver"), ("Shutdown waits for tokens, handler and savers", "lazysaver.go Shutdown")],
 [("tokens", "one per queued item", "lazysaver.go tokens")],
 ["backing store calls in order; store content after Shutdown"])

prop("C12", "The write-behind saver bounds and drains its queue",
 "The number of acknowledged writes that are not yet in the backing store never exceeds the configured limit: further writes wait until an item has been saved, and then proceed. Every queued write is saved without further requests once its maximum age has passed, or earlier once more than the flush threshold is queued, using at most the configured number of concurrent saves, each under the save timeout. Failed saves do not reduce later capacity and never stop the saver.",
 ["schedules", "histories", "configurations", "fault_sequences"],
 "every configuration (limit, threshold, age, savers) and every workload and save outcome",
 "Tests use one configuration and never fill the queue, so back-pressure, token return and timers are untested.",
 ["blobstore/lazysaver.go"],
 [("tokens", "lazysaver.go tokens"), ("timers and thresholds", "lazysaver.go requestHandler"), ("savers", "lazysaver.go startSaver")],
 [("tokens", "free capacity", "lazysaver.go tokens")],
 ["acknowledgements versus backing store writes"])

prop("C13", "The size-limiting store is transparent and never exceeds its limit",
 "Storing blobs through the size-limiting store behaves as a map for blobs of any permitted size, including sizes exactly at part borders and blobs that grow or shrink between writes: reads return the last written bytes, deleted or never written blobs are not found. No blob handed to the underlying store is larger than the limit, a blob that was read or written through the store leaves no parts behind when it grows, shrinks or is deleted, also when earlier operations on it failed, and too large blobs are refused. (Keys ending in '+number' are reserved for parts.) Failures of the underlying store are reported, not swallowed.",
 ["inputs", "histories", "fault_sequences", "schedules"],
 "every history of writes, reads and deletes over sizes around multiples of the limit, with failures of the underlying store",
 "Tests use random sizes in one grow-only pass and do not inspect the parts that remain.",
 ["blobstore/maxsize.go"],
 [("part count header and part keys", "maxsize.go Set, Get, extKey"), ("known part counts", "maxsize.go parts"), ("per key lock", "maxsize.go runningOp")],
 [("parts", "known number of parts per key", "maxsize.go parts")], ["results and content of the underlying store"])

prop("C14", "The retrying store retries exactly what may succeed later",
 "An operation through the retrying store succeeds if an attempt succeeds before the back-off strategy gives up, and returns that attempt's value; otherwise the last error is returned. Errors that cannot be cured by retrying (not found, too big, cancelled, and the configured permanent errors, for this store only) end the operation at once with that very error. After the caller's context ends, no further attempt is made and the call returns without sitting out the pause, and each attempt runs under the configured timeout.",
 ["fault_sequences", "inputs", "configurations"],
 "every sequence of attempt outcomes, every configuration, cancellation at every point",
 "The existing test only uses randomly failing storage with the generic store test.",
 ["blobstore/retry.go"],
 [("permanent errors", "retry.go opErr, PermanentErr"), ("per attempt timeout", "retry.go OpTimeout"), ("back-off", "retry.go Backoff")],
 [], ["attempts seen by the underlying store; returned value and error"])

prop("C15", "Every storage backend is a durable map per set and key",
 "The in-memory, Bolt and Badger backends behave as a map from (set, key) to bytes: reads return the last written value, deletes are idempotent, missing keys are not found, sets are separate, and neither the caller re-using its buffer nor changing a returned value affects stored data. For Bolt and Badger the content survives closing and reopening the database exactly, whatever mixture of writes and deletes came before, also beyond the size of Badger's write queue, and an item the database cannot store is refused without affecting others. (Set names contain no '/' for the memory and Badger stores; the memory store refuses keys shorter than two bytes and blobs above 1 MB.)",
 ["histories", "inputs", "schedules"],
 "every history of writes, deletes, reads and reopenings",
 "The shared store test never reopens a database and never deletes a key that is still in the write queue.",
 ["blobstore/memstore/memstore.go", "blobstore/boltstore/boltstore.go", "blobstore/badgerstore/badger.go"],
 [("Badger write queue", "badger.go queue, flush, Delete, Close"), ("copies", "memstore.go Set, boltstore.go Get")],
 [("queue", "unwritten items", "badger.go BadgerStore.queue")], ["store results before and after reopen"])

prop("C16", "Clones and restored backups equal their source and are independent",
 "A clone of a list, and a list restored from a backup under any ID prefix or suffix, contains exactly the source's elements in the same order with the same payloads and update times; a restored list keeps the source's set, metadata and sizes. Later changes to, repair or deletion of either list never affect the other. Restoring keeps an existing list when asked to keep it and replaces it completely otherwise, counts restored, skipped and failed lists correctly, and one list that fails does not stop or spoil the others.",
 ["histories", "inputs", "configurations", "fault_sequences"],
 "every source list, segmentation and history, every restore option, failures of single lists",
 "Tests back up and restore one or two lists once; independence after further changes and failing lists are not exercised.",
 ["list.go", "backup/job.go", "backup/restore.go"],
 [("Backup/RestoreList", "list.go Backup, RestoreList"), ("clone", "list.go cloneElements"), ("backup stream", "backup/job.go Start, backupList; backup/restore.go Restore")],
 [("segments ID", "parent of all blobs of a list", "segments.go Segments.ID")], ["queries on source and copy after each operation; RestoreResult; backup status"])

prop("C17", "Listing and matching of lists is exact",
 "Paging forward from an ID returns the next lists in ascending ID order, at most the requested number, and paging backward returns the ones immediately preceding it, also in ascending order, with the exact numbers of lists before and after the returned page. So following pages in either direction visits every list exactly once. Matching returns exactly the lists in one of the given sets or whose metadata contain all given pairs.",
 ["inputs", "histories"],
 "every set of list IDs, page size, start ID, set filter and metadata filter",
 "Selection works on a randomly ordered map iteration; tests use few IDs and mostly pages that hold all of them.",
 ["lists.go"],
 [("selective insertion while ranging over an unordered map", "lists.go SortedIDsAfter, SortedIDsBefore"), ("MatchAll", "lists.go MatchAll")],
 [("lists", "ID to list", "lists.go Lists.lists")], ["SortedIDsAfter, SortedIDsBefore, MatchAll, All, Exists, ByID, ByIDs"])

prop("C18", "Lists sharing storage are isolated; deleting one removes only it",
 "Operations on one list never change another list's elements, answers, metadata or stored data, even when lists share a set, a cache, a manager or an origin. Deleting a list removes it from the registry and removes all of its stored data and nothing else, and a list created, replaced or restored under the same ID starts with only its own elements. Pruning affects memory only, never content.",
 ["histories", "configurations"],
 "every interleaving of operations over several lists in shared and separate sets",
 "Tests use one list per store or never compare the other lists after an operation.",
 ["manager.go", "lists.go", "list.go", "segments.go"],
 [("storage keys by segments ID", "segment.go StorageKey, cacheID"), ("DeleteList", "manager.go DeleteList, list.go deleteAll"), ("Prune", "lists.go Prune")],
 [], ["queries on all lists and complete store content after each operation"])

prop("C19", "Tokens restrict every request to their scope, lists and elements",
 "With token checking enabled, a request is served only with a validly signed, unexpired token that has the scope its endpoint requires. If the token names only certain lists or certain elements, every read, update or delete request carrying it that addresses any other list or element (by name, set or metadata) is refused as a whole, also when it mixes permitted and other ones; management endpoints and the neighbours in answers are exempt, as documented. A refused request has no effect at all, and permitted requests are not refused.",
 ["inputs", "histories", "configurations"],
 "every endpoint, every combination of scopes, list and element restrictions and requested lists and elements",
 "Tests send valid tokens and a handful of restricted ones; combinations of scopes, restrictions, selections and endpoints, and the absence of effects, are not examined.",
 ["api/jwt.go", "api/elements.go", "api/lists.go", "api/multilist.go", "api/services.go"],
 [("HasAccessToList, HasAccessToElement", "api/jwt.go"), ("scope checks", "api/app (generated), api/design")],
 [], ["HTTP status of each request and database content afterwards"])

prop("C20", "HTTP requests have exactly their documented effect on exactly the named lists",
 "Creating an existing element or list is refused as a conflict without effect, putting creates or replaces, deleting is idempotent, unknown lists or elements are reported as not found, invalid arguments as bad requests, and successful answers describe the resulting ranking. Multi-element and multi-list requests apply to exactly the addressed lists (by ID, set or metadata), report success or error per list, and a failing list does not affect the others. After any history of requests each list equals what those requests prescribe, and an ID that occurs several times in a batch counts once, as its best or last entry.",
 ["inputs", "histories"],
 "every sequence of HTTP requests over several lists",
 "Tests issue a fixed request per endpoint; they do not check the other lists, nor histories of requests.",
 ["api/elements.go", "api/lists.go", "api/multilist.go", "api/morph"],
 [("controllers", "api/elements.go, api/lists.go"), ("onEveryList", "api/multilist.go onEveryList"), ("list selection", "api/multilist.go Create, Put, Get, Delete")],
 [], ["HTTP status and body of each request; database content afterwards"])

prop("C21", "Concurrent update limit holds and shutdown refuses new work",
 "When a maximum number of concurrent updates is configured, at no time do more update requests execute than that; waiting updates proceed as soon as others finish, whatever their outcome, so capacity is never lost, and reads are not limited. A waiting update whose request is cancelled, or that waits when shutdown starts, is refused without effect and without taking capacity. Once shutdown has started, new requests are refused as unavailable while running ones complete.",
 ["schedules", "histories", "fault_sequences"],
 "every interleaving of update requests, completions, errors, panics, cancellations and shutdown",
 "Tests never configure a limit and never overlap requests with shutdown.",
 ["api/shutdown.go", "bucket.go", "api/services.go"],
 [("token bucket", "bucket.go, api/shutdown.go UpdateRequest"), ("shutdown middleware", "api/shutdown.go ShutdownMiddleware")],
 [("updateBucket", "free update slots", "api/shutdown.go updateBucket")], ["start and end of storage work per request; HTTP status"])

prop("C22", "Element collections sort, merge, split and de-duplicate exactly",
 "For any elements, including ties, duplicates, extremes and large inputs: sorting yields the ranking order and keeps all elements, merging two sorted collections yields the sorted union, and merge-de-duplicating keeps the inserted element for each ID. De-duplicating keeps for each ID the element with the latest update time and, at equal times, the highest score. Splitting yields consecutive non-empty parts covering the input, cut only where score or tie breaker differ and no larger than asked unless ties force it, and single-element insert, add, update and delete on a sorted collection change exactly that element and report the resulting rank. Elements survive encoding and decoding unchanged.",
 ["inputs"],
 "every collection of elements of any size and order",
 "Tests use hand-written examples of up to four elements; the rules depend on rich case analysis over ties, order and size thresholds.",
 ["elements.go", "element.go"],
 [("Elements methods", "elements.go Sort, Merge, MergeDeduplicate, Deduplicate, SplitSize, Add, Update, Delete, Insert, FirstElementsWithScore")],
 [], ["results of the exported Elements methods"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
