#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=list(observe), hook_needed=None)))

ENG = ["engine.go", "riot.go", "indexer_worker.go", "ranker_worker.go"]
SEARCH = ["Engine.Search", "Engine.SearchID", "Engine.SearchDoc"]

p("C01", "Flush is a barrier: everything accepted before it is searchable after it",
  "When Flush returns, every document whose indexing call returned before Flush was called is found by every search that its content, tokens, labels and fields satisfy, and every document whose removal call returned before an earlier Flush or before this one (with no indexing of it still unflushed) is found by none. "
  "This holds for any number of concurrent clients, segmenter workers, shards, buffer lengths and cache sizes. HasDoc agrees with the searches.",
  ["schedules", "inputs", "configurations", "histories"],
  "every interleaving of clients and the engine's worker goroutines, every engine configuration, every sequence of index, remove, flush and search calls",
  "The tests run one client over a handful of fixed documents and check after one Flush; whether a document can still sit in a worker, a channel or an indexer or ranker cache when Flush returns depends on the schedule.",
  ENG + ["segment.go", "core/indexer.go", "core/ranker.go"],
  [("Flush waits for the documents handed over to be indexed, then forces every shard's cache", "engine.go:Flush"), ("counters of documents and forced updates", "counters.go"), ("forced update requests to every indexer", "indexer_worker.go")],
  [("numDocsIndexed / numIndexingReqs", "progress of the pipeline Flush waits for", "engine.go")],
  SEARCH + ["Engine.Flush", "Engine.HasDoc"])

p("C02", "Indexing a document again replaces its previous version completely",
  "After a document id is indexed again and the update has taken effect, the document is found only through its newest content, tokens and labels, is scored only by its newest fields, and appears at most once in any result. "
  "Nothing of an earlier version stays searchable, whatever shard the new content would have been placed in.",
  ["schedules", "inputs", "configurations", "histories"],
  "every sequence of versions of every document, with any number of shards, cache sizes and interleavings",
  "Existing tests re-index a document once, on one shard or without checking the old version's terms.",
  ENG + ["core/indexer.go", "core/ranker.go"],
  [("a document stays on the shard that first took it", "engine.go (sharding of IndexDoc/RemoveDoc)"), ("a document present in the index is removed before its new version is added", "core/indexer.go:AddDocToCache")],
  [("docsState", "per document: in the index, to be removed, to be added", "core/indexer.go")], SEARCH)

p("C03", "The engine makes progress: every call returns and no worker dies",
  "IndexDoc, RemoveDoc, Flush, Search, HasDoc and Close all return, provided the document scorer and the store return, for every configuration of workers, shards and buffer lengths and any mix of concurrent callers. "
  "No engine goroutine panics or blocks for ever.",
  ["schedules", "inputs", "configurations", "histories"],
  "every schedule, every configuration with buffers down to length one, any mix of forced and unforced updates, flushes, searches and closes",
  "A deadlock between full channels needs a particular schedule and small buffers; the tests use the defaults and one caller.",
  ENG + ["segment.go", "store_worker.go"],
  [("buffered channels between the stages", "engine.go:Init"), ("Flush's waiting loops", "engine.go:Flush")], [], SEARCH + ["Engine.Flush", "Engine.Close"])

p("C04", "Every form of query returns exactly the documents that satisfy it",
  "In a settled state a search returns exactly the live documents that contain all its tokens and labels (or satisfy its must/should/not-in logic or expression), restricted to the given document ids; its document count is the number of them, and a counting request returns the count alone. "
  "Token locations are those of the document. No request makes the engine panic, and an empty answer is an answer, not a failure.",
  ["inputs", "schedules", "configurations", "histories"],
  "every request form (text, tokens, labels, id filters, logic, expressions, counting, orderless, paging) against every index type, segmentation mode, shard count and corpus, each corpus built by concurrent clients. "
  "Known finding KF1: a should-only logic search ignores the id filter, which the repository's own test pins.",
  "The tests use a few requests against a few documents indexed by one client; forms combine, and some combinations were never executed.",
  ["engine.go", "core/indexer.go", "types/search_request.go", "types/search_response.go", "types/index.go", "segment.go"],
  [("posting-list intersection", "core/indexer.go:Lookup"), ("logic lookup", "core/indexer.go:LogicLookup"), ("merging of the shards' answers", "engine.go:Search")], [], SEARCH)

p("C05", "No data race between any of the engine's supported concurrent uses",
  "Any number of goroutines may index, remove, flush, search and ask for documents and counters of one engine, or of several engines in one process, at once without any unsynchronised access to shared memory. The same holds for the exported indexer and ranker, and for a network node: concurrent requests over HTTP and gRPC, distributed searches and the heartbeat monitor.",
  ["schedules", "histories", "configurations"],
  "every interleaving of concurrent calls of the public operations with each other and with the engine's own goroutines, and of concurrent requests to a node",
  "The tests call the engine from one goroutine and are not run under the race detector; a race needs two overlapping callers to be observable at all.",
  ENG + ["store_worker.go", "counters.go", "core/indexer.go", "core/ranker.go", "net/http/dist.go", "net/grpc/search.go", "net/heartb/heart.go"],
  [("table, cache and document locks", "core/indexer.go, core/ranker.go"), ("atomic counters", "engine.go")], [], ["race detector inside the simulated runs"])

p("C06", "A search that overlaps updates never returns a wrong document",
  "A search running while documents are indexed, re-indexed and removed returns each document at most once, and only documents that at some moment between its call and its return were in a version that satisfies the query. "
  "Documents untouched during the search are returned exactly as in a settled state, and a document's content, fields and attributes all come from one version.",
  ["schedules", "histories", "inputs"],
  "every interleaving of searches with concurrent updates, forced or cached, on any number of shards",
  "No test searches while another goroutine updates.",
  ["engine.go", "core/indexer.go", "core/ranker.go"],
  [("read-write locks over the posting lists and over the documents", "core/indexer.go, core/ranker.go"), ("documents removed from the ranker are dropped from results", "core/ranker.go:Rank")], [], SEARCH)

p("C07", "A clean restart from the store restores the engine",
  "With a store, an engine that is closed, after its updates have taken effect or right after the calls returned (Close completes them), and opened again holds exactly the documents it held, with the same content, tokens, labels, fields and attributes, and answers every search as before. Removed documents stay removed; the number of index shards may differ between the two lives. "
  "Listing the stored documents returns exactly the live ones.",
  ["histories", "schedules", "inputs", "configurations"],
  "every history of operations over several lives, every number of storage and index shards, every interleaving of operations and of the recovery scan",
  "The store tests restart once with fixed documents and the same configuration.",
  ["engine.go", "store_worker.go", "store/store.go", "riot.go"],
  [("documents are encoded and put before indexing returns to the pipeline", "store_worker.go:storeIndexDoc"), ("recovery scan at Init", "engine.go:initStore, store_worker.go:storeInit")], [],
  SEARCH + ["Engine.GetDBAllIds", "Engine.GetDBAllDocs", "Engine.NumIndexed"])

p("C08", "A crash at any point loses nothing durable and leaves the engine recoverable",
  "After the process dies at any instant, an engine opened on the store's durable state starts, and holds for every document one of the versions given to it that was not superseded by a later durable update, or its absence where allowed; updates covered by a completed Flush or a completed store write are never lost, removed documents covered by one never return. "
  "A crash during recovery is no different.",
  ["crash_points", "schedules", "histories", "fault_sequences"],
  "every crash instant (including inside recovery and between a store write and its acknowledgement), every history, up to several crashes",
  "No test crashes the engine.",
  ["engine.go", "store_worker.go", "store/store.go"],
  [("store writes by one worker per storage shard", "store_worker.go"), ("recovery scan", "store_worker.go:storeInit")], [], SEARCH + ["Engine.GetDBAllIds"])

p("C09", "Store errors and undecodable records do not corrupt or stop the engine",
  "When store writes, deletes, opens, closes or scans fail, are slow, or return records that cannot be decoded, the engine keeps indexing and searching correctly in memory, keeps making progress, and recovers every document whose write succeeded. "
  "A bad record costs at most that record.",
  ["fault_sequences", "schedules", "histories", "inputs"],
  "every sequence of failing, lying and stalling store operations and corrupt records, interleaved with any workload",
  "The tests use a working store.",
  ["store_worker.go", "engine.go", "store/store.go"],
  [("decode failures skip the record", "store_worker.go:storeInit"), ("store channel per storage shard", "engine.go")], [], SEARCH)

p("C10", "A search timeout bounds the search and never falsifies its answer",
  "A search with a timeout returns by its deadline (plus the time its own execution takes), however slow or busy the shards are; it says whether it timed out, and what it returns is correct for the shards that answered. A search without a timeout never reports one, and a late answer never leaks into another search.",
  ["schedules", "fault_sequences", "configurations", "inputs"],
  "every placement of slow scorers and busy shards relative to the deadline, every schedule, concurrent searches with different timeouts",
  "No test makes a shard slow; the deadline path is not executed.",
  ["engine.go", "types/search_request.go", "ranker_worker.go", "indexer_worker.go"],
  [("deadline computed at the start of the search", "engine.go"), ("per-search result channel", "engine.go")], [], SEARCH)

p("C11", "Results are totally ranked across shards and pages tile the ranking",
  "Ranked results come in non-increasing score order (non-decreasing when reversed), scored by the request's or the default scoring criteria over all shards together, and the page (offset, maximum) of a settled search is exactly that slice of the whole ranking. Documents the criteria give no score are left out.",
  ["inputs", "configurations", "schedules", "histories"],
  "every offset and maximum (also beyond the end), score vectors of different lengths, ties, any number of shards and any arrival order of their answers",
  "The tests page over three documents on one or two shards.",
  ["engine.go", "core/ranker.go", "types/search_response.go"],
  [("per-shard ranking keeps offset+maximum documents", "engine.go:Search"), ("sorting and slicing of the merged answers", "engine.go:Rank"), ("score comparison", "types/search_response.go")], [], SEARCH)

p("C12", "Scores depend on the live documents only, not on history",
  "An engine that reached its documents by any history of indexing, re-indexing, removal and restart gives the same results, scores, proximities and counts as a fresh engine given only the live documents.",
  ["histories", "schedules", "configurations"],
  "every history of updates and restarts, any schedule",
  "The tests never compare two histories.",
  ["core/indexer.go", "engine.go"],
  [("document count and total token length kept up to date", "core/indexer.go:AddDocs, RemoveDocs")],
  [("numDocs, totalTokenLen, docTokenLens", "statistics BM25 uses", "core/indexer.go")], SEARCH)

p("C13", "A forced update becomes visible without Flush",
  "A document indexed, or removed, with the force-update flag, once the earlier updates of that document have taken effect, becomes visible (or disappears), to searches and to counts, without any further call, within a bounded time, whatever the cache sizes.",
  ["schedules", "configurations", "histories"],
  "every schedule, cache size and mix of forced and unforced updates",
  "The tests always follow with Flush or one more update.",
  ["engine.go", "indexer_worker.go", "core/indexer.go"],
  [("force-update flag passed to every indexer shard", "engine.go:internalIndexDoc, indexer_worker.go")], [], SEARCH)

p("C14", "The engine's counters account for every operation",
  "After Flush the numbers of documents and tokens indexed and of documents removed equal exactly what was submitted; while operations run they never exceed it and never go backwards. A restart counts the documents it recovered.",
  ["schedules", "histories", "configurations"],
  "every interleaving of concurrent updates and counter reads",
  "One test reads the counters once after a sequential run.",
  ["counters.go", "engine.go", "indexer_worker.go", "segment.go"],
  [("atomic additions by the workers", "indexer_worker.go, segment.go")], [], ["Engine.NumTokenAdded", "Engine.NumIndexed", "Engine.NumRemoved"])

p("C15", "The core index stays exact under concurrent, cached and forced updates",
  "Driven directly by any number of goroutines, with a cache of any size down to one document, the core index after a forced update holds exactly the newest version of every document added and not removed since, and every lookup by tokens, labels or logic returns exactly the matching documents in descending id order with correct locations, BM25 score and proximity. "
  "An added document is visible at the latest when as many further documents have been added as the cache holds; no sequence of calls panics.",
  ["schedules", "histories", "inputs", "configurations"],
  "every interleaving and history of cached and forced additions, removals and lookups over every index type and cache size. Removing a document whose first addition is still cached is documented as unsupported and excluded",
  "The tests make a short fixed sequence of calls from one goroutine, mostly with the default cache.",
  ["core/indexer.go", "types/doc_index_data.go"],
  [("add and remove caches and the document state table", "core/indexer.go:AddDocToCache, RemoveDocToCache"), ("batched insertion into and deletion from sorted posting lists", "core/indexer.go:AddDocs, RemoveDocs"), ("token proximity", "core/indexer.go")],
  [("docsState", "in the index, to be removed, to be added", "core/indexer.go")], ["Indexer.Lookup", "Indexer.HasDoc"])

p("C16", "The core ranker ranks one consistent version of each document",
  "While documents are added to and removed from the ranker by other goroutines, Rank scores, orders, counts and pages exactly the given documents that are present and have a score; each result carries the fields, content and attributes of one version, unchanged locations, and documents unaffected by concurrent calls are always treated correctly.",
  ["schedules", "histories", "inputs"],
  "every interleaving of additions, removals and rankings; every offset, maximum and score vector",
  "The tests rank three fixed documents from one goroutine.",
  ["core/ranker.go", "core/data.go", "types/search_response.go"],
  [("one lock over fields, contents and attributes", "core/ranker.go"), ("sort and page", "core/ranker.go:Rank")], [], ["Ranker.Rank"])

p("C17", "Every store backend is a durable map",
  "For each store backend (LevelDB, Bolt, Badger) any sequence of set, get, has, delete and scan by concurrent callers behaves like an atomic map: a get returns exactly the bytes last set, a missing key is reported as missing (no value, or an error, from get; false from has), an empty value is a value, and a scan visits exactly the stored pairs, each once, with correct bytes, and stops with its callback's error. "
  "Everything acknowledged is there after a close or a kill of the process and reopening, for Bolt and Badger also after a power loss; an operation that failed or was cut short happened entirely or not at all. Bytes returned by get are the caller's for ever, bytes passed in are never changed and not used after the call; bytes shown to a scan's callback are valid during the callback.",
  ["histories", "schedules", "crash_points", "fault_sequences", "inputs"],
  "every history of operations with arbitrary keys and values over several open/close cycles, kills and power losses at any change of a file, disk errors, failing callbacks, concurrent callers",
  "The store test writes one key to one backend and reads it back.",
  ["store/store.go", "store/ldb_store.go", "store/bolt_store.go", "store/badger_store.go"],
  [("transactions and iterators of the wrapped databases", "store/*_store.go"), ("registry of backends", "store/store.go")], [], ["store.Store"])

p("C18", "Distributed HTTP search merges the peers' answers exactly",
  "A distributed search over HTTP asks every configured node, each with the caller's query, user and time and the caller's page (the configured default page when no positive maximum is given; without a positive default all documents), and answers 200 with the documents of exactly those nodes whose complete, well-formed, successful answer arrived within one second: each document of each such answer, ordered by time stamp and then identifier, both descending, cut to the page's maximum, with their number and the current time (a single answer is passed on as it is). "
  "Nothing of another request's answer appears. A node that is down, slow, hanging, failing, or sends a truncated or malformed answer costs only its own documents; the search ends within its time limit of one second, leaves nothing running behind, and the server goes on.",
  ["fault_sequences", "schedules", "configurations", "inputs"],
  "every number of nodes, with or without the node itself among them, every loss, delay, truncation, corruption and failure of their answers, concurrent requests, every page",
  "There is no test of the HTTP layer; the answers depend on which peers reply and when.",
  ["net/http/dist.go", "net/http/search.go", "net/http/http.go"],
  [("one goroutine per peer, collected per request", "net/http/dist.go:WgDist"), ("time limit of the peer requests", "net/http/http.go:Post")], [], ["HTTP responses", "requests to the peers"])

p("C19", "Distributed gRPC search merges the peers' answers exactly",
  "A distributed search over gRPC asks every configured node, each with the caller's query, user, time, document filter, logic and page (the configured default page when no positive maximum is given; without a positive default all documents), and answers with the documents of exactly those nodes that replied within the node's time limit: each document of each such reply, also of replies that leave the attributes out, ordered by time stamp and then identifier, both descending, cut to the page's maximum, with their number and the current time (a single answer is passed on as it is). "
  "Nothing of another request's answer appears. A node that is down, slow, hanging, failing, or sends something unreadable costs only its own documents; the search ends within one and a half seconds, a reply sent within half a second is never dropped, no failure ends the process, and a search leaves no goroutine and no connection behind.",
  ["fault_sequences", "schedules", "configurations", "inputs"],
  "every number of nodes, with or without the node itself among them, every failure and delay of the calls to them, concurrent requests, every logic and page",
  "There is no test of the gRPC layer; the answers depend on which peers reply and when.",
  ["net/grpc/etcd.go", "net/grpc/grpcc.go", "net/grpc/search.go"],
  [("one goroutine per peer, collected per request", "net/grpc/search.go:wgGrpc"), ("deadline of the peer calls", "net/grpc/grpcc.go:InitSearchRpc")], [], ["gRPC replies", "calls to the peers"])

p("C20", "Remote index, remove and search calls do what the local engine does",
  "A document indexed or removed through the gRPC service, its client helpers or the HTTP interface ends in the node's engine exactly as through a local call, with its identifier, content, tokens, labels and attributes, and is there again after a restart of the node. "
  "A remote search returns, for every query, document filter, logic and page, what a local engine holding the same documents returns, each document with its own content and attributes, newest first; without a positive maximum the configured default page applies, and all documents are returned when that is not positive either. "
  "A helper call that did not get through reports a non-zero result and leaves the process running; helper calls do not pile up connections. A node uses the stop words, the store folder and the number of stores that its configuration names. No request a client can send ends or blocks the server: missing and malformed parameters, absent logic or attributes, negative or huge pages, empty or reserved identifiers.",
  ["inputs", "histories", "schedules", "fault_sequences", "crash_points"],
  "every request a client can send, from concurrent clients, with lost requests and replies, and restarts of the node",
  "There is no test of the network layer.",
  ["net/grpc/search.go", "net/grpc/grpc.go", "net/grpc/etcd.go", "net/grpc/grpcc.go", "net/http/http.go", "net/com/search.go", "net/com/conf.go", "store_worker.go"],
  [("conversion between wire and engine requests", "net/grpc/search.go, net/grpc/grpc.go, net/http/http.go, net/com/search.go")], [], ["gRPC and HTTP responses", "Engine.Search"])

p("C21", "The heartbeat monitor restarts a failing node, once per detection",
  "The monitor contacts the configured node about once a second, for as long as it runs. A heartbeat fails when it returns an error, no answer within the monitor's limit (at most 20 seconds; an answer within half a second is always in time), or a status other than 1. "
  "As soon as more than three heartbeats have failed since the last restart or kill, the restart command is run exactly once, in the configured directory, and waited for; at no other time. The count then starts from zero and monitoring goes on, whatever the command did. "
  "/health reports the number of failed heartbeats since the last restart or kill; /kill and /restart run one kill of the named process each and set the count to zero. These requests are answered at any moment, also while a node hangs or a command runs.",
  ["fault_sequences", "schedules", "histories"],
  "every sequence of successful, failing, hanging, late and bad-status heartbeats and failing, useless or slow restart commands, over simulated hours, with requests at any moment",
  "The heartbeat package has no tests; detection takes seconds of real time and a dead peer.",
  ["net/heartb/heart.go"],
  [("failure counter", "net/heartb/heart.go:heart, restart"), ("polling loop", "net/heartb/heart.go:Grpcc")], [], ["heartbeats sent", "restart commands run", "health endpoint"])

p("C22", "Requests and answers are the caller's own",
  "The engine never changes a request, document or slice passed to it, not even behind the end of a slice, and never changes an answer after returning it; a caller may overwrite the documents and tokens listed in an answer without any effect on the engine or on the request. "
  "Concurrent searches may share one request, and repeating a search in a settled state gives the same answer.",
  ["inputs", "schedules", "histories"],
  "every request form, repeated and shared between concurrent searches, with slices that have room behind their end and answers overwritten by the caller",
  "The tests use each request once.",
  ["engine.go", "core/indexer.go", "core/ranker.go", "types/search_request.go"],
  [("results are built from fresh slices", "core/indexer.go:Lookup, core/ranker.go:Rank")], [], SEARCH)

p("C23", "A discoverable node is registered exactly while it serves",
  "A node started for service discovery listens on its port and then registers itself exactly once, as the service, at the port and with the registry that its command line or else its configuration name, with a lease that outlasts the renewal interval. From then until its registration is removed it answers searches, index calls and heartbeats. "
  "Told to end by SIGTERM, SIGINT, SIGHUP or SIGQUIT, at any moment after that and however often, it removes the registration exactly once, waits for that to finish however long it takes and whether or not it succeeds, and then the process ends, whatever requests are in progress. No other signal makes it remove the registration or end. "
  "A process whose gRPC port is taken, or which the registry refuses, ends instead of running on unregistered.",
  ["fault_sequences", "schedules", "histories", "configurations"],
  "every configuration and command line, registry delay, refusal and failure, signal at any moment and sequence of signals, with requests in progress",
  "There is no test of the network layer; signals end the test process.",
  ["net/grpc/etcd.go", "net/grpc/grpc.go"],
  [("registration and signal handling", "net/grpc/etcd.go:InitErpc")], [], ["registry entries", "gRPC responses", "process exit"])

p("C24", "Engines in one process do not influence each other",
  "Any number of engines may live in one process, with different options, starting, working, closing and starting again at any moment, over stores of their own and with documents of the same identifiers and contents. Each behaves exactly as it would alone: its documents, answers, scores, counters and recovery depend on its own options, store and calls only. (An engine without a segmenter takes phrases' PinYin from the phrase package's segmenter, which is the process's.)",
  ["inputs", "schedules", "configurations", "histories"],
  "every pair of configurations, every interleaving of two engines' operations and of their starts and ends, the same identifiers and words in both",
  "The tests use their engines one after the other.",
  ["engine.go", "segment.go", "store_worker.go", "core/indexer.go", "core/ranker.go"],
  [("all state is the engine's", "engine.go:Engine"), ("the shared phrase segmenter is guarded", "segment.go:phraseLock")], [], SEARCH)

p("C90", "Text segmentation maps a text to its tokens",
  "Segmenting a text gives every token of the configured mode with the byte locations where it occurs, identically for documents and queries.",
  ["inputs", "configurations"], "every text and segmentation mode",
  "The tests segment a few sentences.",
  ["segment.go"], [("gse segmentation and n-gram splitting", "segment.go")], [], ["Engine.Segment"])

p("C91", "The sort helpers and geo-hash functions compute their definitions",
  "The integer set operations, sorts and geo-hash conversions return the values their definitions prescribe for every input.",
  ["inputs"], "every input", "The tests check a few values.",
  ["core/uint64.go", "geo/geo.go", "utils/utils.go"], [("direct computation", "core/uint64.go")], [], ["return values"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
