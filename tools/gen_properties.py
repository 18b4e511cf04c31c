#!/usr/bin/env python3
# Source of properties.jsonl (kept here so that wording and anchors are edited in one place).
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

NOTEST = "The three runnable tests exercise only the bundled SNAP library; nothing runs this code. "
p("S01", "Query answers equal the net effect of the whole update history",
  "After a bulk load and any sequence of add-updates, remove-updates, merges of pending updates and close/reopen, every pattern query (any subset of subject, predicate, object bound, in any of the six orders) returns exactly the triples that are logically in the store, each once, in the order of the requested permutation. Reported counts, existence checks, term scans and result iterators that are advanced or repositioned agree with that same set. This holds for every index layout and loader configuration.",
  ["histories", "inputs", "configurations"], "Every history of load/add/remove/merge/reopen operations, every graph, every pattern and permutation, every supported index configuration.",
  NOTEST + "A test samples a few histories; the defects live in combinations of overlapping updates, layouts and reopen.",
  ["src/trident/kb/kb.cpp", "src/trident/kb/querier.cpp", "src/trident/kb/diffindex3.cpp", "src/trident/kb/diffindex1.cpp", "src/trident/kb/updater.cpp", "src/trident/iterators", "src/trident/binarytables", "src/trident/kb/loader.cpp", "src/trident/kb/inserter.cpp"],
  [("iterators over base and update indices are merged", "Querier::getIterator, CompositeItr, RmItr"), ("updates are stored as sorted difference indices", "Updater::creatediffupdate, DiffIndex3::createDiffIndex"), ("merge folds differences", "KB::mergeUpdates")],
  [("_diff/<n>", "one directory per pending update, replayed in numeric order at open", "kb directory")], ["Querier::getIterator / getPermuted", "Querier::getCard", "Querier::exists", "Querier::getTermList"])
p("S02", "An interrupted update is all or nothing",
  "If the process dies at any instant while an add- or remove-update is being recorded, reopening the store gives either exactly the state before that update or exactly the state after it, never a mix and never the inverse operation. Every term of every triple that is visible afterwards still has its text. A later update on the recovered store behaves as it would on an undamaged store holding the same triples.",
  ["crash_points", "histories"], "Every point at which a file-system mutation of an update can be cut off, in every preceding history.",
  NOTEST + "No test kills the process part-way through an update.",
  ["src/trident/kb/updater.cpp", "src/trident/kb/kb.cpp", "src/trident/kb/diffindex3.cpp", "src/trident/kb/diffindex1.cpp", "src/trident/kb/dictmgmt.cpp"],
  [("type marker file and numbered directory per update", "Updater::creatediffupdate / getPathForUpdate"), ("new terms are persisted with the update", "Updater::writeDict, DictMgmt destructor"), ("updates are discovered at open", "KB::KB, KB::addDiffIndex")])
p("S03", "Merging pending updates never changes or loses answers, even when interrupted",
  "Merging the pending updates of a store leaves every query answer and every term-to-identifier mapping unchanged. If the process dies at any instant during the merge, reopening gives the same answers as before the merge, and running the merge again succeeds.",
  ["crash_points", "histories"], "Every history of pending updates and every file-system mutation of the merge as crash point.",
  NOTEST + "Merging is never run by a test, interrupted or not.",
  ["src/trident/kb/kb.cpp", "src/trident/kb/dictmgmt.cpp", "src/trident/kb/diffindex3.cpp"],
  [("new update directory built aside, then swapped in", "KB::mergeUpdates, KB::createSingleUpdate, KB::createNewDict")])
p("S04", "Terms and identifiers stay in a stable one-to-one mapping",
  "Every term that occurs in the store maps to one identifier and that identifier maps back to exactly the same bytes; no two terms share an identifier. The mapping of an existing term never changes through later updates, merges, restarts or crashes, and identifiers of terms seen in visible triples are never handed to other terms. This holds for any term bytes the input format allows, including spaces, long terms and terms sharing long prefixes.",
  ["histories", "crash_points", "inputs"], "Every sequence of loads, updates and restarts over arbitrary term texts.",
  NOTEST + "Needs arbitrary update/restart histories with unusual term text.",
  ["src/trident/kb/dictmgmt.cpp", "src/trident/kb/updater.cpp", "src/trident/kb/kb.cpp", "src/trident/tree", "src/trident/kb/loader.cpp"],
  [("main dictionary trees", "DictMgmt::getNumber/getText over Root and StringBuffer"), ("small updates go to a global update dictionary", "DictMgmt::putInUpdateDict"), ("large updates get their own dictionary", "Updater::writeDict")])
p("S05", "Bulk loading gives the same store for every thread count and schedule",
  "Loading the same input produces a store with the same logical content whatever the number of threads, the scheduling of the loader's threads and the loader options, with duplicates removed and nothing dropped. Loading always terminates.",
  ["schedules", "configurations", "inputs"], "Every interleaving of the loader's threads, thread counts 1..8, every loader option combination.",
  NOTEST + "Thread schedules are not controlled by any test.",
  ["src/trident/kb/loader.cpp", "src/trident/kb/permsorter.cpp", "include/trident/utils/parallel.h", "src/trident/kb/inserter.cpp", "src/trident/tree/stringbuffer.cpp"],
  [("parallel chunk sort and dump", "PermSorter::sortChunks2"), ("producer/consumer hand-over of merged triples", "Loader::insertPermutations parallelmerge"), ("double-buffered coordinate hand-over", "Loader::mergeTermCoordinates / getBunchTermCoordinates")])
p("S06", "A load that was cut short is never served as a complete store",
  "If a bulk load is interrupted at any instant, then opening the target directory afterwards for reading either is refused or yields a store with all the triples of the input. It never silently serves a subset.",
  ["crash_points", "configurations"], "Every file-system mutation of a bulk load as crash point.",
  NOTEST + "No test interrupts a load.",
  ["src/trident/kb/loader.cpp", "src/trident/kb/kb.cpp", "src/trident/kb/inserter.cpp", "src/trident/tree/root.cpp", "src/trident/tree/nodemanager.cpp", "src/trident/binarytables/fileindex.cpp"],
  [("store statistics are written when the store is closed", "KB::close"), ("open reads statistics and table indices", "KB::KB")])
p("S07", "The on-disk search tree behaves as an ordered map",
  "For numeric or textual keys, any sequence of insertions, appends, lookups, conditional insertions, iteration and close/reopen on the search tree gives the results of an ordered map holding the same entries. This holds for every node size and cache size, in particular caches so small that nodes are constantly evicted and reloaded.",
  ["histories", "configurations", "inputs"], "Every operation sequence, key set, node size and cache size.",
  NOTEST + "Eviction and reload orders depend on cache pressure that no test creates.",
  ["src/trident/tree/root.cpp", "src/trident/tree/node.cpp", "src/trident/tree/leaf.cpp", "src/trident/tree/intermediatenode.cpp", "src/trident/tree/cache.cpp", "src/trident/tree/nodemanager.cpp", "src/trident/tree/treeitr.cpp", "src/trident/tree/flatroot.cpp"],
  [("least-recently-used leaf cache flushes dirty nodes", "Cache::registerNode / flushNode"), ("node directory on disk", "NodeManager::put / get / compressSpace")])
p("S08", "The string store returns exactly what was appended, under any schedule",
  "Every string appended to the string store is read back byte for byte from its returned position, compares correctly with any other string, both before and after the store is closed and reopened. This holds for every interleaving of the foreground with the background compression thread, and closing the store always completes with everything written.",
  ["schedules", "inputs", "histories"], "Every interleaving of appender and compressor, every sequence of string lengths and cache sizes.",
  NOTEST + "The background thread's schedule is outside any test's control.",
  ["src/trident/tree/stringbuffer.cpp", "include/trident/tree/stringbuffer.h"],
  [("blocks are handed to a background compressor through a shared slot", "StringBuffer::compressBlocks / addCache"), ("close waits for the compressor", "StringBuffer::~StringBuffer")])
p("S09", "Paged file storage returns what was written and honours its memory budget",
  "Bytes appended to the paged, memory-mapped file storage are read back unchanged from the position where they were written, across file roll-over, eviction, re-opening and truncation. A region that a reader has pinned stays readable until it is unpinned, and memory in use returns under the configured budget once pins are released.",
  ["histories", "configurations", "schedules"], "Every sequence of append, overwrite, read, pin, unpin, truncate and reopen with every file size limit, open-file limit and memory budget.",
  NOTEST + "Eviction and re-mapping only happen under tiny budgets.",
  ["src/trident/files/filedescriptor.cpp", "include/trident/files/filemanager.h", "include/trident/files/comprfiledescriptor.h", "include/trident/utils/memorymgr.h", "include/trident/utils/memoryfile.h"],
  [("least-recently-used eviction with pins", "MemoryManager::addTask/removeOneBlock/lock/unlock"), ("file roll-over and open-file limit", "FileManager"), ("mapped window grows on demand", "FileDescriptor::append / getBuffer")])
p("S10", "Parallel helpers behave as their sequential counterparts under every schedule",
  "The parallel sort returns the sorted permutation of its input and the parallel loop applies its body to every element exactly once, for every size, thread count and interleaving. Concurrent queues deliver every pushed item exactly once, in order per producer, and every call terminates.",
  ["schedules", "inputs"], "Every interleaving, thread count and input size.",
  NOTEST + "Interleavings are not controlled.",
  ["include/trident/utils/parallel.h", "src/trident/utils/parallel.cpp", "include/trident/ml/learner.h"],
  [("recursive fork/join sort and loop", "ParallelTasks::sort_int / parallel_for"), ("mutex and condition protected queue", "ConcurrentQueue")])
p("S11", "Every HTTP request gets exactly its own complete response",
  "However the bytes of a request are fragmented, delayed or interleaved with other connections, the server hands the application exactly the request that was sent and returns to each client exactly the complete response computed for its own request. Short writes, interrupted calls and clients that disconnect never corrupt, duplicate or cross over the responses of other clients.",
  ["schedules", "fault_sequences", "inputs"], "Every fragmentation and timing of connections, every thread schedule, disconnects and partial sends.",
  NOTEST + "Needs control of packet boundaries and of the thread schedule.",
  ["src/trident/utils/httpserver.cpp", "include/trident/utils/httpserver.h", "src/trident/server/server.cpp"],
  [("header terminator search and body length", "HttpServer::processConnection"), ("send loop", "HttpServer::processConnection"), ("work queue between poller and workers", "HttpServer::start / launchWorker")])
p("S12", "A misbehaving client cannot stall the HTTP server, and shutdown always finishes",
  "Whatever some clients do (idle connections, truncated or malformed requests, aborts), every well-formed request of another client is answered within a bounded time, and the server process stays alive. After stop is requested, the server ends within a bounded time without losing the ability to be destroyed cleanly.",
  ["schedules", "fault_sequences"], "Every mix of well-behaved and misbehaving clients, every schedule, stop at any time.",
  NOTEST + "Liveness under hostile timing cannot be sampled by a test.",
  ["src/trident/utils/httpserver.cpp", "include/trident/utils/httpserver.h"],
  [("poll-based waiting and non-blocking workers", "HttpServer"), ("stop flag, socket shutdown and joins", "HttpServer::stop")])
p("S13", "The HTTP client returns the whole body or an error",
  "For every way the network can split, delay or cut a response, the HTTP client returns exactly the status, headers and body that the server sent, or reports failure. It never returns a truncated or garbled body as success, and it returns within bounded time once the peer has answered or closed.",
  ["fault_sequences", "inputs"], "Every segmentation, truncation and reset of length-delimited, chunked and close-delimited responses.",
  NOTEST + "No test talks to a network peer.",
  ["src/trident/utils/httpclient.cpp", "include/trident/utils/httpclient.h"],
  [("response framing", "HttpClient::get / post")])
p("S14", "Concurrent readers of one store see the same answers as a single reader",
  "Any number of threads, each with its own query object on one open store, get exactly the answers a single thread gets, for every interleaving and memory budget. No query blocks forever.",
  ["schedules", "configurations"], "Every interleaving of readers on a shared open store with small caches.",
  NOTEST + "No test queries a store, let alone concurrently.",
  ["src/trident/kb/querier.cpp", "src/trident/kb/dictmgmt.cpp", "src/trident/tree/cache.cpp", "include/trident/files/filemanager.h", "include/trident/utils/memorymgr.h", "src/trident/server/server.cpp"],
  [("per-thread query objects over shared indices", "KB::query"), ("thread-safe file and memory managers", "FileManager, MemoryManager with MT")])
p("S15", "SPARQL answers match a reference evaluation in every store state",
  "For every supported SPARQL query (basic graph patterns, joins, filters, optional, union, distinct, projection, limit and aggregates) the bag of results equals that of a direct evaluation over the triples logically in the store, whatever updates, merges and restarts produced that state and whatever plan is chosen.",
  ["histories", "inputs", "configurations"], "Every query of the supported fragment in every store state reachable by an update history.",
  NOTEST + "Operators are compiled but never executed by a test.",
  ["src/trident/sparql", "src/layers/TridentLayer.cpp", "rdf3x/src/rts", "rdf3x/src/cts", "rdf3x/include"],
  [("plan generation and operators", "PlanGen, rts operators, Trident layer scans")])
p("S16", "Embedding tables survive storage and are initialised independently of scheduling",
  "An embedding table written to disk and read back holds the same values, for every partition count, thread count and dimension. Initialisation covers every element with values in the stated range and finishes for every size, thread count and schedule.",
  ["schedules", "inputs", "fault_sequences"], "Every size, dimension, thread count and interleaving, and short reads or writes.",
  NOTEST + "No test touches learning code.",
  ["include/trident/ml/embeddings.h"],
  [("parallel initialisation by ranges", "Embeddings::init"), ("chunked store and load", "Embeddings::store / load")])
p("S17", "Training visits every batch exactly once per epoch and always finishes",
  "In each training epoch every training triple is put into exactly one batch and every batch is processed exactly once, for every number of worker threads, batch size and interleaving, and training terminates with the models stored. With one worker, training with the same seed gives the same model.",
  ["schedules", "configurations", "inputs"], "Every interleaving of the producer and worker threads, every batch size, thread count and data size.",
  NOTEST + "No test runs training.",
  ["include/trident/ml/trainworkflow.h", "src/trident/ml/batch.cpp", "src/trident/ml/learner.cpp", "include/trident/ml/learner.h", "src/trident/ml/transe.cpp", "src/trident/ml/pairwiselearner.cpp"],
  [("queues between batch producer and workers", "TrainWorkflow::train"), ("shuffled batch creation", "BatchCreator")])
p("S18", "Parallel graph algorithms equal their sequential definitions",
  "The multi-threaded graph algorithms (triangle counting, rank and centrality computations, parallel graph construction) return the result of their sequential definition for every graph and every interleaving of worker threads.",
  ["schedules", "inputs"], "Every graph and every interleaving.",
  "The existing tests run SNAP on a few graphs with whatever schedule the machine gives.",
  ["snap/snap-core/alg.h", "snap/snap-core/triad.h", "snap/snap-core/centr.cpp", "snap/snap-core/centr.h", "snap/snap-core/conv.h", "snap/glib-core"],
  [("OpenMP loops with atomic updates", "snap-core *MP functions")])
p("S19", "Saved graphs load back identical and damaged files are refused",
  "A graph or container saved to a stream and loaded back is identical, for every content and every way the operating system splits reads and writes. A file that was truncated or could not be completely written is reported as an error rather than yielding a different graph.",
  ["fault_sequences", "inputs"], "Every graph, every short read or write, every truncation point.",
  "The existing tests save and load a few graphs without faults.",
  ["snap/glib-core/fl.cpp", "snap/glib-core/fl.h", "snap/snap-core/graph.h", "snap/snap-core/network.h"],
  [("buffered binary streams with checks", "TFIn, TFOut, TSIn")])
p("S20", "Runtime threading primitives neither lose wake-ups nor break exclusion",
  "The query runtime's mutexes give mutual exclusion, its events and condition signals are never lost when signalled under the lock, and its scheduler runs every registered task exactly once and respects the registered order constraints. Pools return every object to exactly one owner at a time. All of this holds for every interleaving.",
  ["schedules"], "Every interleaving of threads using the runtime's primitives.",
  "The code is compiled but never executed by a test.",
  ["rdf3x/src/infra", "rdf3x/include/infra", "rdf3x/src/rts/Scheduler.cpp", "rdf3x/include/rts/operator/Scheduler.hpp"],
  [("mutex, event and thread wrappers", "rdf3x infra"), ("asynchronous operator scheduling", "Scheduler")])
p("S21", "RDF text parsing is independent of how the stream is delivered",
  "Parsing a Turtle or N-Triples document yields the same triples however the input stream is split into reads. A document that is cut off or malformed produces only triples of the valid prefix followed by an error, never invented triples, and the parser always terminates.",
  ["inputs", "fault_sequences"], "Every document and every split or truncation of its byte stream.",
  "The parser is compiled but never executed by a test.",
  ["rdf3x/src/cts/parser/TurtleParser.cpp", "rdf3x/include/cts/parser/TurtleParser.hpp"],
  [("buffered character reader with refill", "TurtleParser::Lexer")])
p("S22", "A failed write is reported, never silently turned into wrong answers",
  "If a write, file creation, extension or rename fails during an update, a merge or a load (disk full, I/O error), the operation reports failure, or the data it reported as stored is all readable. After the failure the store still answers as before or as after the operation.",
  ["fault_sequences", "histories"], "Every single failing file-system call, and combinations, in an update, merge or load.",
  NOTEST + "No test makes a system call fail.",
  ["src/trident/kb/updater.cpp", "src/trident/kb/kb.cpp", "src/trident/kb/diffindex3.cpp", "src/trident/kb/dictmgmt.cpp", "include/trident/utils/memoryfile.h", "src/trident/files/filedescriptor.cpp"],
  [("checks of stream and mapping results", "writers of the update, merge and load paths")])
p("S23", "Web endpoint serves only its own pages and answers concurrent clients",
  "Requests for pages return only files from inside the configured web directory, whatever path is asked for. Concurrent page, lookup and query requests each get the answer they would get alone.",
  ["schedules", "inputs", "fault_sequences"], "Every request path and every interleaving of concurrent requests.",
  NOTEST + "No test runs the server.",
  ["src/trident/server/server.cpp", "include/trident/server/server.h"],
  [("page cache and path lookup", "TridentServer::getPage"), ("query execution per request", "TridentServer::processRequest")])
p("S24", "Circular correlation and convolution match their definitions",
  "The fast transform based correlation and convolution used by the holographic model equal their direct definitions up to rounding, for every vector length supported.",
  ["inputs"], "Every vector.",
  NOTEST + "A pure function of its input.",
  ["src/trident/utils/fft.cpp", "include/trident/utils/fft.h"], [("transform", "fft.cpp")])
p("S25", "Frequent pattern mining reports exactly the patterns above the support threshold",
  "Mining a store reports exactly the patterns whose support reaches the threshold, with their true support.",
  ["inputs"], "Every store and threshold.",
  NOTEST + "A pure function of the store content.",
  ["src/trident/mining/miner.cpp", "include/trident/mining/miner.h"], [("pattern tree", "Miner::mine")])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
