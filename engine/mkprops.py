#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script so that the file stays consistent)
import json, os
P = []
def p(id, title, statement, over, text, why, files, state, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
            mechanism=[dict(name=a, where=b) for a,b in mech],
            observe_at=observe, hook_needed=None)))

C="src/core/"
p("C01","Sequential requests behave as an exact map of tables to keys to values",
 "For requests issued one after another, GET and HEAD of a key answer 200 with the exact length (and, for GET, the exact bytes) of the last completed PUT of that table and key, and 404 if it was never stored or has since been removed by a key delete, a bulk delete or a table delete. No operation on one table or key changes what any other table or key answers. This holds for every value length, from one byte up to and beyond the size at which values move from shared fixed-size blocks to files of their own.",
 ["histories","inputs"],"all sequences of PUT/GET/HEAD/DELETE/BULK-delete/table-delete over a few tables, keys and value sizes, from empty and from populated stores",
 "The scenario tests run about twenty hand-written request sequences with two or three short values; they never combine size changes, table drops, block reuse and bulk deletes in arbitrary order.",
 [C+"db.cpp",C+"http_parse_cache.cpp",C+"http_respond.cpp",C+"khash.h"],
 [("tables / cache_hash_set","two-level hash index","src/core/db.h, src/core/db_structures.h"),("free_blocks","free list of block slots","src/core/db.h")],
 [("lookup, overwrite and delete of entries",C+"db.cpp"),("block allocation and free list",C+"db.cpp")],
 ["HTTP responses on a cache connection"])
p("C02","Overlapping requests are linearizable and a response never mixes values",
 "When requests on several connections overlap in any interleaving, all their answers can be explained by one order of the operations that respects real time, where an upload may hide the previous value from its start on, and of two overlapping uploads to one key either may win. A response body that has been started is delivered complete and is exactly one stored value of that key, even if the key is overwritten, deleted, expired or evicted, or its table dropped, before the body has been sent.",
 ["schedules","histories"],"all interleavings of the parts of two or three requests on as many connections over shared tables and keys, with slow readers",
 "Four scenario files overlap two connections in one fixed order each; the number of interleavings of request parts, partial uploads and partially sent bodies cannot be listed by hand.",
 [C+"db.cpp",C+"http_parse_cache.cpp",C+"http_respond.cpp",C+"connection.cpp"],
 [("entry refs / writing / deleted","who still uses an entry, whether it is visible",C+"db_structures.h"),("table refs / deleted","who still uses a table",C+"db_structures.h")],
 [("reference counting of entries and tables",C+"db.cpp"),("writing flag hides incomplete uploads",C+"db.cpp")],
 ["HTTP responses on cache connections"])
p("C03","How the request bytes are split into reads never changes the answers",
 "The sequence of responses on a connection depends only on the bytes the client sent, not on how the network divides them into reads: any split points, pipelined requests in one segment, and any position in the receive buffer (including wrap-around) give the same responses and the same stored data. Every complete request is answered without the client having to send anything further.",
 ["inputs","schedules"],"all ways to cut request streams into up to three segments, at every byte, for several receive-buffer sizes and starting offsets",
 "One scenario splits one PUT once; the unit tests check the buffer arithmetic at a few positions, not the parser states at every offset.",
 [C+"http.cpp",C+"http_parse.cpp",C+"http_parse_cache.cpp",C+"http_parse_mon.cpp",C+"read_buffer.cpp",C+"read_buffer.h"],
 [("read_position/write_position","ring-buffer cursors",C+"read_buffer.h"),("handler/state","parser continuation",C+"connection_structures.h")],
 [("parser as a chain of handlers",C+"http_parse_cache.cpp"),("ring buffer iteration",C+"read_buffer.h")],
 ["HTTP responses on cache and monitoring connections"])
p("C04","Short writes and slow readers never change the bytes a client receives",
 "Whatever number of bytes the socket accepts at each write, a client that keeps reading receives exactly the same response bytes, in full and once, as a client whose socket accepts everything at once; this includes headers, stored values, listings, statistics and error answers. A client that does not read holds up no other connection.",
 ["schedules","fault_sequences"],"every response kind, with every choice of accepted byte count at up to two or three writes of the exchange",
 "On loopback the kernel accepts every small write in full, so no test ever sees a partial write or partial sendfile.",
 [C+"http.cpp",C+"http_respond.cpp",C+"http_parse_mon.cpp"],
 [("output_buffer/output_length","bytes still to send",C+"connection_structures.h"),("position/end_position","body bytes still to send",C+"connection_structures.h")],
 [("write handler",C+"http.cpp"),("sendfile loop",C+"http_respond.cpp")],
 ["bytes received by the client"])
p("C05","Malformed requests are contained: no crash, no hang, no extra answers",
 "No byte sequence sent by a client makes the server exit, crash, access memory out of bounds, spin, or send bytes that are not part of a well-formed answer. Each request that is terminated by a blank line gets at most one answer, a request is never interpreted from the inside of another request's headers, and data of other connections and stored values of other keys are unaffected.",
 ["inputs","histories"],"all token sequences up to a bound over methods, paths, header names, numbers (huge, negative, empty), line ends, plus oversized lines, in every mix with a healthy connection",
 "One scenario sends one request without a length; malformed input space is unbounded and errors show only as rare corruption.",
 [C+"http_parse.cpp",C+"http_parse_cache.cpp",C+"http_parse_mon.cpp",C+"read_buffer.cpp"],
 [("state","parser state",C+"connection_structures.h")],
 [("error templates and end-of-headers search",C+"http_parse.cpp"),("buffer-full protection",C+"http.cpp")],
 ["process state","HTTP responses"])
p("C06","An upload that is not completed never becomes visible",
 "If a connection ends (closed, half-closed or reset) before the whole announced body arrived, no client ever receives any part of that upload, under its key or any other, and the key can be stored and read again afterwards. Values and connections not involved are unaffected.",
 ["fault_sequences","histories"],"connection loss of every kind after every byte of an upload, for block and file values, over fresh and existing keys, with other requests before, during and after",
 "Three scenarios interrupt an upload at one place each.",
 [C+"http_parse_cache.cpp",C+"db.cpp",C+"connection.cpp"],
 [("is_writing","the connection holds an unfinished upload",C+"connection_structures.h")],
 [("cleanup of an aborted upload",C+"http_parse_cache.cpp")],
 ["HTTP responses"])
p("C07","Storage is never shared by two values and is always given back",
 "At no time do two live values occupy the same storage, and when values are overwritten, deleted, expired, evicted or abandoned and the last reader has finished, their block, file, file descriptor and memory are given back: after any history that ends with everything deleted and all connections closed, the server reports all existing blocks free, has no value file left on disk, and holds as many descriptors and as much memory as before.",
 ["histories","fault_sequences","schedules"],"all request histories and interleavings up to a bound, including aborted and refused uploads, ended by deletion and closing of all connections",
 "Tests look at responses only, never at the block count, the value directory, descriptors or memory.",
 [C+"db.cpp",C+"http_parse_cache.cpp",C+"connection.cpp"],
 [("free_blocks, blocks_exist, blocks_free","block accounting",C+"db.h"),("refs","entry and table reference counts",C+"db_structures.h")],
 [("deferred deletion at reference count zero",C+"db.cpp")],
 ["statistics page","files under the database directory","open descriptors","heap"])
p("C08","The statistics page always tells the truth",
 "Whenever no upload is in progress, the statistics page reports exactly the number of live keys, the number of tables that have a live key, the sum of the lengths of the live values, and a block count consistent with the values stored in blocks (an expired value counts until it is collected). Its counters of inserts, gets and deletes equal the number of such requests that were accepted.",
 ["histories","schedules"],"all request histories up to a bound including overwrites, aborted and duplicate uploads, table deletes, expiry and eviction",
 "No test reads the statistics page.",
 [C+"db.cpp",C+"http_respond.cpp"],
 [("db_keys, db_size_bytes, db_stats_*","counters",C+"db.h")],
 [("counter updates in store, delete, overwrite",C+"db.cpp")],
 ["GET / on a cache connection"])
p("C09","A value with a time to live is served until it expires and never after",
 "A value stored with X-Ttl: N is served as long as at most N whole clock seconds have passed since it was stored, with an X-Ttl answer header giving the whole seconds left (never negative), and is answered 404 once more have passed, whether or not background expiry has run; values without a time to live never expire. Overwriting a key replaces its time to live by that of the new value, and expiry of one key leaves all other keys alone.",
 ["histories","inputs"],"all histories up to a bound of stores with different times to live, reads, overwrites, deletes, background expiry runs and clock steps",
 "Two scenarios check one TTL with one sleep.",
 [C+"db.cpp",C+"http_parse_cache.cpp",C+"http_respond.cpp",C+"timer.cpp"],
 [("expires","absolute expiry time",C+"db_structures.h")],
 [("lazy expiry on read",C+"db.cpp"),("expiration cursor",C+"db.cpp")],
 ["HTTP responses","clock"])
p("C10","Over the size limit, least recently used values go first, and just enough",
 "With a maximum size set, whenever garbage collection runs while the stored bytes exceed it, it removes expired values and then the least recently used completed values, one by one, until the total is at least the configured percentage below the limit, and nothing more; below the limit it removes only expired values. Reading or storing a value makes it the most recently used one.",
 ["histories","configurations"],"all histories up to a bound of stores (several sizes), reads, deletes and collection runs for several limits and clear percentages",
 "The only LRU scenario checks that the server does not crash, and is not in the stable set.",
 [C+"db.cpp"],
 [("lru_head/lru_tail","recency list",C+"db.h")],
 [("recency list maintenance and eviction loop",C+"db.cpp")],
 ["HTTP responses","statistics page"])
p("C11","Table listings contain exactly the live keys of the table",
 "A listing without paging headers returns every live key of the table exactly once and nothing else (for tables of up to 10000 hash slots, the default page), announces their number, and ends by closing the connection; with X-Start and X-Limit it returns no more than the limit, only live keys, and successive pages over the announced total together cover every live key. While the table is changed or dropped during a listing, the listing still ends cleanly and returns only keys of that table that were live at some time during it (a key may then appear twice, as the README says).",
 ["histories","inputs","schedules"],"all subsets of keys after stores and deletes, all X-Start/X-Limit values around the boundaries, and all interleavings of one mutation with a slowly read listing",
 "One scenario lists one and two keys.",
 [C+"http_respond.cpp",C+"http_parse_cache.cpp",C+"db.cpp"],
 [("start/limit","listing cursor",C+"connection_structures.h")],
 [("listing walk over the hash buckets",C+"http_respond.cpp")],
 ["HTTP responses"])
p("C12","Names with equal hashes never share or serve each other's data",
 "When two keys of a table, or two tables, have the same 32-bit hash, a request for one never returns, deletes or lists the other's data as its own: a key displaced by a colliding one is simply missing, and colliding tables stay fully independent in any order of stores, deletes and re-creation.",
 ["histories","inputs"],"all operation sequences up to a bound over colliding keys and colliding tables",
 "No test has two names with the same hash.",
 [C+"db.cpp",C+"hash.cpp"],
 [("hash","32-bit murmur hash used as index key",C+"db_structures.h")],
 [("exact name comparison after hash lookup",C+"db.cpp"),("probing for tables",C+"db.cpp")],
 ["HTTP responses"])
p("C13","A clean restart keeps every completed value",
 "After a requested shutdown (SIGTERM or SIGINT) and a restart on the same directory, every key that was stored and not removed is served again with its exact value and remaining time to live, no other key is served, and the restarted server passes every guarantee again, including further restarts. Names with unusual characters and long names are kept apart exactly as before. This holds for every path of the database directory that is accepted at the start, and for block files of any size.",
 ["histories","configurations"],"all operation histories up to a bound, with one or two restarts at any position, over block and file values, several tables and unusual key names",
 "No test restarts the server.",
 [C+"db.cpp","src/server/scache.cpp"],
 [("index.save / blockfile.db.save","saved index and block file",C+"db.cpp")],
 [("final index flush on close",C+"db.cpp"),("load at open",C+"db.cpp")],
 ["HTTP responses before and after restart"])
p("C14","Killing the server at any instant never yields a wrong value",
 "If the server (with its helper processes) is killed between or inside any two file-system operations, and then started again on the same directory, it starts, serves requests, and answers every key either with 404 or with exactly one complete value that had been stored under that key before; it never serves a torn, mixed or foreign value, also not after further operations and further kills.",
 ["crash_points","histories"],"a kill before, inside or after every file-system operation of short histories with saves, on first and later runs, followed by restart, reads and writes",
 "No test kills the server.",
 [C+"db.cpp"],
 [("index.temp, index.save, blockfile.db, .temp, .save","on-disk state",C+"db.cpp")],
 [("write-to-temporary then rename",C+"db.cpp"),("unique file names",C+"db.cpp")],
 ["HTTP responses after restart","exit status of the restarted server"])
p("C15","Background saves are point-in-time, one at a time, and never stop for good",
 "A background save triggered by inserts, by ADMIN /gc or by SIGUSR1 writes the state of one instant regardless of requests served while it runs, at most one save runs at a time, and after a save process has ended in any way (success, failure, killed), the next trigger starts a new one. Neither a failing nor a slow save disturbs requests.",
 ["schedules","fault_sequences"],"all points at which the save process makes progress or dies relative to requests and triggers, including failure to start it",
 "The tests never look at saved files nor make a save fail.",
 [C+"db.cpp",C+"timer.cpp"],
 [("current_flush","running save process",C+"db.cpp")],
 [("fork, reaping, SIGCHLD handler",C+"db.cpp, "+C+"timer.cpp")],
 ["process creation","saved files read back by a restart"])
p("C16","Each monitoring subscriber gets its own complete counter sequence",
 "A client that requests /conn on the monitoring port gets one header and then the lines 0, 1, 2, ... (modulo 65536) in order without gaps, one every five seconds, for as long as it reads, whatever other clients connect, disconnect, stall or send. A client that has not taken its previous line by the time the next is due, or that closes its sending side, is disconnected, and that affects nobody else.",
 ["schedules","histories","fault_sequences"],"all interleavings up to a bound of subscribers joining, leaving, stalling and clock steps, mixed with cache connections that reuse descriptors",
 "No test uses the monitoring port.",
 [C+"http_parse_mon.cpp",C+"timer.cpp",C+"connection.cpp"],
 [("mon_head/mon_tail list","subscribers ordered by due time",C+"http_parse_mon.cpp")],
 [("timer-driven list walk",C+"http_parse_mon.cpp")],
 ["bytes and close events on monitoring connections"])
p("C17","Every accepted connection reaches the server loop exactly once",
 "Under every interleaving of the two accepting threads with the main loop, each client connection that was accepted is handed over exactly once, with the right type (cache or monitoring), and is served without any further event being necessary; none is lost, duplicated or delayed, and transient accept failures lose at most that one connection.",
 ["schedules","fault_sequences"],"all thread schedules up to a preemption bound of the hand-over code with several connections on both ports, plus accept errors",
 "Thread interleavings are up to the kernel; tests open connections one at a time.",
 [C+"connection.cpp"],
 [("cq_head/cq_tail","queue of accepted sockets",C+"connection.cpp")],
 [("mutex, eventfd signalling",C+"connection.cpp")],
 ["responses on every connection"])
p("C18","Shutdown on SIGTERM or SIGINT is always orderly",
 "When SIGTERM or SIGINT arrives at any point of any activity - idle, during requests, uploads, listings, monitoring streams, background saves - the server ends with exit status 0 without crash, hang or memory error, closes its connections, ends monitoring streams with a final q line, removes its pid file unless told to keep it, and leaves a saved state that holds every completed value and no incomplete one.",
 ["schedules","histories","configurations"],"the signal at every system call of short histories, in every connection state",
 "The test driver kills the server after each scenario and ignores how it ends.",
 [C+"connection.cpp","src/server/scache.cpp",C+"db.cpp",C+"signal_handle.cpp",C+"http_parse_mon.cpp"],
 [("stop_soon","shutdown flag",C+"connection.cpp")],
 [("orderly cleanup sequence","src/server/scache.cpp")],
 ["exit status","saved files","bytes on connections"])
p("C19","The circular read buffer is a faithful bounded byte queue",
 "For every reachable combination of cursor positions and contents, the circular read buffer reports sizes and contiguous runs correctly, copies, compares and parses numbers exactly as a plain byte queue with the same contents would, iterates over its bytes once and in order, and never reads or writes outside its storage, including at wrap-around of the storage and of the cursors.",
 ["inputs","histories"],"all cursor positions (including cursor overflow), fill levels and operation arguments for small capacities",
 "The unit tests check some forty hand-picked positions.",
 [C+"read_buffer.cpp",C+"read_buffer.h"],
 [("read_position/write_position","free-running cursors",C+"read_buffer.h")],
 [("mask arithmetic and split copies",C+"read_buffer.cpp")],
 ["results of the buffer operations"])
p("C20","Bind options open exactly the listeners they describe",
 "Every comma-separated list of IPv4 (optionally transparent), bracketed IPv6 and unix-socket addresses given to the cache and monitoring bind options opens exactly those listeners, in order, with the right family, address, port, path and transparency, and each accepts the right kind of client. A list that cannot be parsed makes the server refuse to start.",
 ["inputs","configurations"],"all lists up to three elements over an alphabet of address forms for both options",
 "The tests start the server with one IPv4 address per option.",
 [C+"settings.cpp",C+"connection.cpp"],
 [("binds","parsed addresses",C+"settings.h")],
 [("bind list parser",C+"settings.cpp"),("listener set-up",C+"connection.cpp")],
 ["bind/listen system calls","behaviour of accepted connections"])
p("C21","A failing disk never makes the server serve a wrong value or fall over",
 "If any file operation of storing, reading or saving fails or is cut short (disk full, I/O error, no descriptor), the server keeps running, the affected request is answered with an error or its connection closed, other keys and connections are unaffected, and no later read returns anything but a complete stored value or 404. Once the fault is gone, storing and reading work again.",
 ["fault_sequences","histories"],"one or two injected failures at every file operation of short histories, of every applicable kind",
 "Tests never run on a failing disk.",
 [C+"http_parse_cache.cpp",C+"db.cpp",C+"http_respond.cpp"],
 [("fd/position of a target","where body bytes go",C+"connection_structures.h")],
 [("checks of system-call results",C+"http_parse_cache.cpp, "+C+"db.cpp")],
 ["HTTP responses","process state"])
p("C22","One server per pid file, and the pid file tells the truth",
 "While a server started with a pid file serves, in the foreground or as a daemon, the file holds exactly the process id of the process that serves. A second server with the same pid file (or, without one, with the same addresses) does not start, at whatever moment of the first one's life it is started: it ends with a non-zero status and disturbs neither the first server nor its pid file nor its database. The pid file is removed at the end unless it is to be kept; one that was left by a killed server or an earlier run, whatever it holds, does not prevent the next start, and what the last server saved is served.",
 ["schedules","histories","configurations","crash_points"],"all interleavings of the starts, ends and kills of up to three servers and daemons up to a preemption bound, at every call that concerns the pid file or the addresses and around the work on the database",
 "The tests run one server at a time, in the foreground, without a pid file.",
 ["src/server/scache.cpp",C+"settings.cpp",C+"connection.cpp"],
 [("pidfd","lock on the pid file","src/server/scache.cpp")],
 [("write_pid","src/server/scache.cpp"),("fork_off","src/server/scache.cpp"),("order of start and cleanup","src/server/scache.cpp")],
 ["pid file contents","exit status","HTTP responses","saved files"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
