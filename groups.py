# What each simulation binary is made of: the real sources of /repo it runs, the harness, and the flags.
import glob, os
REPO = os.environ.get('VERIF_REPO', '/repo')
ROOT = os.path.dirname(os.path.abspath(__file__))

BASE = ['-O1', '-std=c++11', '-fPIC', '-fsigned-char', '-w', '-U_FORTIFY_SOURCE', '-DNDEBUG', '-fsanitize=thread', '-fno-omit-frame-pointer',
        '-DTRIDENT_SIM=1', '-DSERVER=1', '-DSPARQL=1', '-DML=1',
        '-include', ROOT + '/sim/kognac_standin/prelude.h', '-I' + ROOT + '/sim/kognac_standin', '-I' + ROOT + '/sim/rt', '-I' + ROOT + '/sim/harness',
        '-Iinclude', '-Irdf3x/include', '-Irapidjson/include', '-Isnap/snap-core', '-Isnap/glib-core', '-Isnap']

def srcs(*pats, exclude=()):
    out = []
    for p in pats:
        out += sorted(os.path.relpath(f, REPO) for f in glob.glob(os.path.join(REPO, p)))
    return [f for f in out if not any(e in f for e in exclude)]

KB = lambda: srcs('src/trident/kb/*.cpp', 'src/trident/tree/*.cpp', 'src/trident/binarytables/*.cpp', 'src/trident/iterators/*.cpp', 'src/trident/files/*.cpp', 'src/trident/utils/parallel.cpp', 'src/trident/utils/tridentutils.cpp', 'src/trident/model/*.cpp', 'src/trident/utils/json.cpp')

SNAPFLAGS = ['-fopenmp', '-fpermissive', '-include', 'Snap.h']
SNAP = lambda: ['snap/glib-core/base.cpp', 'snap/glib-core/gnuplot.cpp', 'snap/glib-core/linalg.cpp'] + ['snap/snap-core/%s.cpp' % n for n in 'gbase attr graph graphmp network networkmp timenet mmnet subgraph cncom alg ggen gstat anf gsvd centr triad gio table conv'.split()]

GROUPS = {
    'kb': dict(props=['S01', 'S02', 'S03', 'S04', 'S05', 'S06', 'S22'], repo=KB, harness=['s01.cpp', 'kbcrash.cpp'], net=False, libs=[]),
    'tree': dict(props=['S07'], repo=lambda: srcs('src/trident/tree/*.cpp', 'src/trident/files/*.cpp', 'src/trident/utils/tridentutils.cpp', exclude=('flatroot',)), harness=['s07.cpp'], net=False, libs=[]),
    'files': dict(props=['S09'], repo=lambda: srcs('src/trident/files/*.cpp', 'src/trident/utils/tridentutils.cpp'), harness=['s09.cpp'], net=False, libs=[]),
    'sb': dict(props=['S08'], repo=lambda: srcs('src/trident/tree/stringbuffer.cpp', 'src/trident/utils/tridentutils.cpp'), harness=['s08.cpp'], net=False, libs=[]),
    'http': dict(props=['S11', 'S12', 'S13'], repo=lambda: srcs('src/trident/utils/http*.cpp', 'src/trident/utils/parallel.cpp', 'src/trident/utils/tridentutils.cpp'), harness=['s11.cpp', 's13.cpp'], net=True, libs=[]),
    'sparql': dict(props=['S15'], repo=lambda: KB() + srcs('src/trident/sparql/*.cpp', 'src/layers/*.cpp', 'rdf3x/src/*/*.cpp', exclude=("main_sparql",)), harness=['s15.cpp'], net=False, libs=[]),
    'web': dict(props=['S23'], repo=lambda: KB() + srcs('src/trident/sparql/*.cpp', 'src/layers/*.cpp', 'rdf3x/src/*/*.cpp', 'src/trident/utils/http*.cpp', 'src/trident/server/*.cpp', exclude=("main_sparql",)), harness=['s23.cpp'], net=True, libs=[]),
    'mt': dict(props=['S14'], repo=KB, flags=['-DMT=1'], harness=['s14.cpp'], hflags=['-DMT=1'], net=False, libs=[]),
    'rts': dict(props=['S20'], repo=lambda: srcs('rdf3x/src/infra/*.cpp', 'rdf3x/src/rts/Scheduler.cpp', 'rdf3x/src/rts/Operator.cpp'), harness=['s20.cpp'], net=False, libs=[]),
    'ttl': dict(props=['S21'], repo=lambda: srcs('rdf3x/src/cts/TurtleParser.cpp'), harness=['s21.cpp'], net=False, libs=[]),
    'emb': dict(props=['S16'], repo=lambda: srcs('src/trident/utils/tridentutils.cpp'), harness=['s16.cpp'], net=False, libs=[]),
    'ml': dict(props=['S17'], repo=lambda: KB() + srcs('src/trident/ml/*.cpp', 'src/trident/utils/fft.cpp', exclude=('main_ml', 'subgraph')), flags=['-DMT=1'], harness=['s17.cpp'], hflags=['-DMT=1'], net=False, libs=[]),
    'snap': dict(props=['S18', 'S19'], repo=SNAP, flags=SNAPFLAGS, harness=['s18.cpp', 's19.cpp'], hflags=SNAPFLAGS, rt=['simgomp.cpp'], net=False, libs=['-Wl,--unresolved-symbols=ignore-all', '-Wl,-z,lazy']),
    'par': dict(props=['S10'], repo=lambda: srcs('src/trident/utils/parallel.cpp'), harness=['s10.cpp'], net=False, libs=[]),
}
def group_of(prop):
    for g, d in GROUPS.items():
        if prop in d['props']:
            return g
    raise KeyError(prop)

KBREAL = ['bulk loader, inserter, table storage and all table readers, B+tree, flat tree, string store, dictionary, update writer and difference indices, querier and its iterators, merge (src/trident/{kb,tree,binarytables,iterators,files,model})']
INFO = {
    'S01': dict(note='Seeded histories of load, add, remove, merge and reopen over all loader layouts; every pattern in every order, counts, existence, term lists, moveto, mark and reset are compared with a set of triples. Stores of up to a few thousand triples; mark/reset are not compared on aggregated tables, flat layout only with six unaggregated indices.', real=KBREAL),
    'S02': dict(note='Crash at any mutating file operation (before, after, torn) or at a memory step of an update; the reopened store must equal the state before or after it, terms included, and accept later updates. Process-kill model: data passed to the operating system survives.', real=KBREAL),
    'S03': dict(note='Merge after random update histories, uninterrupted and cut at any file operation or step; answers and term mappings must be unchanged and a second merge must succeed.', real=KBREAL),
    'S04': dict(note='Term to identifier to term round trips after load, updates, interrupted updates, merges and reopen, with unusual, long and prefix-sharing terms; identifiers are tracked over the whole history. Long terms up to 32 kB.', real=KBREAL),
    'S05': dict(note='Loader under random schedules (random walk, PCT, preemption at memory accesses), 1-8 threads and readers, with clock jumps; content compared with the input and with no other run needed. Up to 4000 triples.', real=KBREAL),
    'S06': dict(note='Load cut at any file operation, torn write or memory step of any loader thread; the directory must be refused or complete.', real=KBREAL),
    'S07': dict(note='Number- and text-keyed trees of up to a few thousand entries against an ordered map: put, append, get, conditional put, replace, merge of coordinates, iteration, compression and reopening, with node and file caches down to one entry. Iteration is not interleaved with lookups, trees are not reopened for writing, coordinate trees use nodes of up to 512 elements.',
        real=['src/trident/tree/*.cpp except the string buffer', 'src/trident/files/filedescriptor.cpp', 'include/trident/files/filemanager.h', 'include/trident/utils/memorymgr.h', 'include/trident/utils/memoryfile.h']),
    'S08': dict(note='Random appends, reads and comparisons interleaved with the real background compression thread under seeded schedules, then close and reopen; every string is compared byte for byte. Cache of one block upwards; a store is not reopened for writing.',
        real=['src/trident/tree/stringbuffer.cpp', 'include/trident/tree/stringbuffer.h']),
    'S09': dict(note='One to three storages sharing one memory budget: appends of every kind, overwrites, shifts, roll-over, reads, pins and reopening against byte vectors, with file limits down to one and budgets down to one byte. Mapped bytes are read from the process map: after the last pin is released and one more file is loaded they must fit budget plus that file.',
        real=['src/trident/files/filedescriptor.cpp', 'include/trident/files/filemanager.h', 'include/trident/utils/memorymgr.h', 'include/trident/utils/memoryfile.h']),
    'S11': dict(note='The real server on simulated sockets: fragmented, delayed, pipelined and interleaved requests, short transfers, interrupted calls and leaving clients; the application must be handed exactly the bytes sent and every client exactly its own response. Transfer-encoded requests are not sent.',
        real=['src/trident/utils/httpserver.cpp', 'include/trident/utils/httpserver.h', 'include/trident/utils/parallel.h'], stub=['sockets, poll and pipes: in-memory network with simulated delivery (sim/rt/simnet.cpp)', 'KOGNAC logging']),
    'S12': dict(note='Up to 14 misbehaving clients of eleven kinds next to well-behaved ones; each well-formed request must be answered within a bound in simulated time, stop and start must return, the object must be destructible and leave no descriptors. Bounds: 60 s plus 25 s per misbehaving client for answers, 60 s plus 10 s for stopping.',
        real=['src/trident/utils/httpserver.cpp', 'include/trident/utils/httpserver.h', 'include/trident/utils/parallel.h'], stub=['sockets, poll and pipes: in-memory network with simulated delivery (sim/rt/simnet.cpp)', 'KOGNAC logging']),
    'S15': dict(note='Random SELECT queries of the stated fragment over stores produced by random load options, updates, merges and reopenings, with and without sampling in the planner, against a direct evaluator. UNION and OPTIONAL are only run as two fixed queries (known findings).',
        real=['rdf3x parser, semantic analysis, plan generation, code generation and all operators', 'TridentLayer', 'loader, updater, query layer, dictionary, storage'], stub=['KOGNAC (stand-in)', 'file system behind the operation seam', 'threads, clock'],
        assumptions=['answers are read from the JSON result, which the HTTP endpoint and the Python binding use', 'ORDER BY: IRIs before literals, then by text; pairs whose order depends on the closing quote are not compared', 'COUNT over an empty input without GROUP BY may return no row']),
    'S14': dict(note='Two to five threads, each with its own query object on one open store (MT build) of up to 2000 triples with up to three pending updates and small node caches, under random walk, PCT, round robin and stalled-thread schedules with preemption at memory accesses; every answer of every thread is compared with the set of triples. Explores a sample of schedules under sequential consistency.', real=KBREAL),
    'S23': dict(note='The real server object on simulated sockets over a store: concurrent page, lookup, query and malformed requests from several clients, with fragmentation, delays and leaving clients; page paths try to leave the directory in many spellings; each response is compared with the file, the dictionary or a direct evaluation. Stop must finish.',
        real=['src/trident/server/*.cpp', 'src/trident/utils/httpserver.cpp', 'rdf3x SPARQL engine, TridentLayer', 'loader, query layer, dictionary, storage'], stub=['sockets, poll and pipes: in-memory network with simulated delivery (sim/rt/simnet.cpp)', 'KOGNAC (stand-in)', 'file system behind the operation seam', 'threads, clock']),
    'S13': dict(note='The real client against a scripted server: content-length, chunked and close-delimited responses, any split, delay, cut or reset, failing lookups and connects. Complete 200 responses must be returned exactly, anything else must be a failure, within 40 simulated seconds. A cut of a close-delimited body by a plain close cannot be seen by any client and is accepted.',
        real=['src/trident/utils/httpclient.cpp'], stub=['sockets and name lookup: in-memory network with simulated delivery (sim/rt/simnet.cpp)', 'KOGNAC logging']),
    'S22': dict(note='Disk full, I/O errors, short writes, failing open/rename/mkdir/truncate/mmap during load, update and merge; a success report means everything is readable, otherwise the store is as before or after. msync failures are not injected.', real=KBREAL),
    'S10': dict(note='Seeded search over schedules with preemption at every memory access of the real headers; sequential reference. Sizes up to 7000 elements, up to 12 threads.',
        real=['include/trident/utils/parallel.h', 'src/trident/utils/parallel.cpp']),
}

INFO['S16'] = dict(note='Tables of random size and dimension on several threads: parallel initialisation under random schedules (every element written, in range, ends), store and load through memory and mapped files with any number of partitions and threads, with full disk, I/O errors, short and interrupted reads and writes and failing thread creation, and damaged files. A store that reported success must load back equal to the bit; a damaged or incomplete file must be refused or give the values.', real=['include/trident/ml/embeddings.h', 'src/trident/utils/tridentutils.cpp'])
INFO['S20'] = dict(note='Two to six simulated threads on the real mutexes, events, conditions, pools and the operator scheduler, with spurious wake-ups, clock jumps and stalled threads: exclusion, no lost signal, no early timeout, each task once and in the registered order, every object with one owner; misuse of locks (waiting or releasing without holding) is reported by the simulated primitives.', real=['rdf3x/src/infra/*.cpp', 'rdf3x/include/infra', 'rdf3x/src/rts/Scheduler.cpp', 'rdf3x/include/rts/operator/Scheduler.hpp'])
INFO['S21'] = dict(note='Generated Turtle and N-Triples documents (all term kinds, escapes, prefixes and bases, lists, nested blank nodes, comments) delivered through a simulated stream that splits reads at every place, fails with I/O errors, and ends at random places; triples are compared with those the generator meant. A cut document gives a prefix of the triples of the whole one and then an error or a clean end at a statement boundary.', real=['rdf3x/src/cts/TurtleParser.cpp', 'rdf3x/include/cts/parser/TurtleParser.hpp'])
INFO['S17'] = dict(note='Stores and batch files of random size, TransE, DistMul and HolE, any number of workers and evaluation threads, filters and batch sizes under random schedules with preemption at memory accesses: every training triple is handed out exactly once per epoch, every batch is processed once, training ends with no thread left and the models stored, one worker and the same seed give the same model, damaged or partly written batch files are refused and failing writes reported. Batches beyond 16 k triples are not reached; HolE never applies its gradients, which the property does not cover.',
    real=['src/trident/ml/*.cpp, include/trident/ml/*.h', 'loader, query layer, dictionary, storage'], stub=['KOGNAC (stand-in)', 'file system behind the operation seam', 'threads, clock'])
INFO['S18'] = dict(note='Random graphs of up to 400 nodes (sparse identifiers, loops, skewed degrees) and tables of up to 900 rows, 1 to 8 threads, random interleavings at memory-access level and random loop chunks: PageRank in all parallel forms, hubs and authorities, triangle counts, distances, graphs and networks from tables, and table selection, ordering, aggregation, arithmetic and joins are compared with sequential definitions written for the check. Parallel conversion with attributes and ToGraphMP3 are outside.', real=['SNAP: parallel algorithms, graph classes, tables and containers (snap/snap-core, snap/glib-core)'], stub=['OpenMP runtime (own implementation on simulated threads)', 'stopwatch of util.cpp'])
INFO['S19'] = dict(note='16 kinds of graphs, networks, tables and containers, several in a stream, sizes aimed at the buffer boundaries; truncation at any byte, failing, short and interrupted reads and writes, failing close and mmap, appending, text edge lists and lines.', real=['SNAP: streams, containers, graph classes, tables, edge lists (snap/glib-core, snap/snap-core)'], stub=['OpenMP runtime (own implementation on simulated threads)'])
