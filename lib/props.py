"""Single source of truth for properties.jsonl and MANIFEST.json (python3 lib/gen.py)."""

def P(id, title, statement, over, qtext, why, files, mech, observe, level="exploration",
      technique="", note="", state=None, hook=None, claimed=True, reason=""):
    return dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why,
                files=files, mech=mech, observe=observe, level=level, technique=technique,
                note=note, state=state or [], hook=hook, claimed=claimed, reason=reason)

ENG = "src/pogocache.c"
TESTS = ("The stable tests are one HTTP round-trip of random keys against a default server and the self test of "
         "an auxiliary hash map; ")

PROPS = [
P("C01", "Engine behaves as a sequential key/value map with options",
  "For every sequence of store, load, update, delete, cancel, clear and sweep calls made one after another, on a cache "
  "created with any combination of options, each call returns the status, value, flags, expiration and CAS value that an "
  "ordinary dictionary with per-key expiration would return, whatever the keys, sizes and table growth or shrinking involved. "
  "A failed conditional store (only-if-absent, only-if-present, CAS mismatch, cancelled by the caller) leaves the old entry exactly as it was.",
  ["inputs", "histories", "configurations"],
  "every finite call history, every key/value byte string, every option combination (shards, load factor, key compression, CAS, shrinking, seed)",
  TESTS + "they drive only set/get/delete with one configuration and never check statuses, flags, expirations, CAS or conditional stores.",
  [ENG, "src/pogocache.h"],
  [("robin-hood map insert/lookup/delete/resize", ENG + " map_insert, map_get_bucket, delbkt, resize, tryshrink"),
   ("conditional store and put-back", ENG + " storeop")],
  ["return value and callback arguments of pogocache_store/load/delete/iter/clear/sweep"],
  technique="reference-model monitor over randomized call histories, ASan+UBSan build",
  note="Differential run of the real engine against a dictionary model in the same process; holds on the histories generated, including crafted hash-colliding keys."),
P("C02", "Concurrent operations on a key are linearizable",
  "When many threads or many client connections store, read, conditionally store, delete and read-modify-write the same keys at the same time, "
  "the results they observe are those of some one-at-a-time order of the operations on each key that respects real time: no acknowledged write is lost, "
  "no read returns a value nobody wrote, a value older than one already observed, or a mixture of values.",
  ["schedules", "histories"],
  "every interleaving of any number of threads/connections and every mix of operations on shared keys, with table growth, expiry sweeps and shrinking under way",
  TESTS + "they are single-client, so no two operations ever overlap.",
  [ENG, "src/cmds.c", "src/net.c"],
  [("per-shard spin lock", ENG + " lock, ACQUIRE_FOR_KEY_AND_EXECUTE"), ("lock-yield callback", "src/main.c yield")],
  ["engine call/return events recorded by harness threads", "RESP request/reply timestamps at client sockets"],
  technique="linearizability checking of recorded concurrent histories (per key, unique values) with injected delays",
  note="Per-key WGL-style search over many short histories, engine-level (threads) and server-level (connections)."),
P("C03", "Read-modify-write commands are atomic",
  "INCR, DECR, INCRBY, DECRBY, their unsigned forms, APPEND and PREPEND issued concurrently through any protocols each take effect exactly once and completely: "
  "the final number equals the start plus all acknowledged deltas, every acknowledged reply of a counter is distinct and explainable by one order, and every acknowledged "
  "fragment appears exactly once and unbroken in the final value. The key's flags and expiration are preserved, and a rejected operation (overflow, not a number, too large) changes nothing.",
  ["schedules", "histories", "inputs"],
  "every interleaving of concurrent RMW commands over RESP, memcache and Postgres with each other and with reads, sweeps and unrelated writes; all operand values",
  TESTS + "no stable test issues these commands at all.",
  ["src/cmds.c", ENG],
  [("batch holding the shard lock over load+store", "src/cmds.c execINCRDECR, cmdAPPEND"), ("batch lock list", ENG + " pogocache_begin/pogocache_end")],
  ["replies of concurrent clients", "final value read back"],
  technique="conservation and exactly-once monitors over concurrent client histories (ASan and TSan builds)",
  note="Offline checkers over recorded replies; sequential operand edge cases checked against 64-bit arithmetic."),
P("C04", "CAS stores succeed only against the version they name",
  "With CAS enabled, every successful modification of a key gives it a CAS value different from every value that key showed before in this run of the server, reads report it unchanged until the next modification, "
  "and a CAS store succeeds exactly when the key is present and still has the named value. Of any number of concurrent CAS stores naming the same value at most one succeeds, and "
  "it reports EXISTS/NOT_FOUND (or null) otherwise.",
  ["schedules", "histories"],
  "every history of CAS and plain modifications (set, update, touch/expire, incr, append, delete and re-create, save and load) on a key, by one or many clients",
  TESTS + "CAS is enabled in the test server but no stable test reads or uses a CAS value.",
  [ENG, "src/cmds.c", "src/memcache.c"],
  [("per-shard cas counter and compare in store", ENG + " storeop, loadop")],
  ["CAS value in load callbacks, MGETS and gets replies; status of CAS stores"],
  technique="version-uniqueness and single-winner monitors over sequential and concurrent histories",
  note="Engine and server level."),
P("C05", "Expiration is exact and identical through every path",
  "An entry whose expiration time is at or before the current time is never visible to any operation (read, conditional store, counter, append, CAS, iteration, keep-ttl), and before "
  "that time it is always visible; expirations given as relative seconds/milliseconds, absolute unix times, memcache exptimes and HTTP ttl all mean the instants they say. "
  "TTL/PTTL report the remaining time, plain overwrites clear it, KEEPTTL, counters and appends keep it.",
  ["inputs", "histories"],
  "every clock value relative to every expiration (one unit before, at and after), every way to set an expiration, every operation observing it, with sweeping on or off",
  TESTS + "nothing with a ttl is ever stored by them, and a real clock cannot be stopped one unit before an instant.",
  [ENG, "src/cmds.c", "src/memcache.c", "src/http.c", "src/util.c"],
  [("alive test in every operation", ENG + " entry_alive_exp"), ("expiration parsing", "src/cmds.c cmdSET, cmdEXPIRE, expiry_seconds_time")],
  ["replies under a controlled clock (virtual CLOCK_BOOTTIME/CLOCK_REALTIME preloaded into the server; explicit time in engine calls)"],
  technique="virtual-time reference-model monitor at engine and server boundary",
  note="Server runs on a virtual clock supplied by a preloaded clock_gettime, so decisions are on logical time, not wall time."),
P("C06", "Low-memory handling evicts or refuses, never corrupts",
  "When the server is over its memory limit and eviction is allowed, storing a new key succeeds, makes the new key readable and removes at most one other live entry chosen from the cache, so that the number of entries stops growing; "
  "an expired entry is taken before a live one when it is among the candidates, of two live candidates the one used longer ago is taken, and overwrites evict nothing. When eviction is disabled the store is refused with an out-of-memory error and every existing entry, including the key's old value, stays intact.",
  ["histories", "configurations"],
  "every history of stores and overwrites under low memory, every cache size and shard count, eviction on or off, engine and server level",
  TESTS + "the tests never reach a memory limit.",
  [ENG, "src/main.c", "src/cmds.c"],
  [("two-candidate eviction after insert", ENG + " auto_evict_entry, storeop"), ("lowmem flag", "src/main.c memory ticker"), ("--evict", "src/main.c")],
  ["evicted callback, return status, full content comparison with model; server replies with --maxmemory 1"],
  technique="conservation monitor (model set minus reported evictions equals content) under forced low memory",
  note="Engine: exact model of which entries vanished via callbacks. Server: --maxmemory tiny with --evict yes/no."),
P("C07", "Keys and values are byte-exact",
  "Any key and any value, of any length the protocol allows and containing any bytes the protocol can carry, read back exactly the bytes that were written with the flags that were given, and two different keys never alias, "
  "with key compression on or off, after table growth, re-save, iteration or through another protocol than the one that wrote it.",
  ["inputs", "configurations"],
  "all byte strings as keys and values, at all length boundaries of the internal encodings, all flags values, both key-compression settings, every writer/reader protocol pair",
  TESTS + "TestHTTP uses random alphanumeric keys of one size class through one protocol.",
  [ENG, "src/resp.c", "src/memcache.c", "src/http.c", "src/postgres.c", "src/conn.c"],
  [("entry encoding, sixpack", ENG + " entry_new, entry_extract, sixpack"), ("reply encoders", "src/conn.c, src/postgres.c")],
  ["reply bytes at client sockets; load/iter callback arguments"],
  technique="round-trip monitor across protocol pairs and engine encodings, ASan+UBSan build",
  note="Exhaustive over lengths 0..300 and all length-encoding boundaries; sampled beyond."),
P("C08", "Iteration, KEYS and SCAN are complete and duplicate-free",
  "Iterating the cache, KEYS, and a SCAN run from cursor 0 until the cursor returns to 0 visit every live entry exactly once when nothing else modifies the cache, whatever the table layout, even when expired entries are dropped or "
  "the visitor deletes entries on the way; they never return an expired, deleted or invented key. Any cursor value whatsoever is answered without harm, and sweep's swept and kept counts are exact.",
  ["inputs", "histories", "configurations"],
  "every cache content and table layout (including clusters wrapping the end of the table), every pattern, COUNT and cursor value, every set of deletions made by the visitor",
  TESTS + "no stable test iterates or scans.",
  [ENG, "src/cmds.c"],
  [("bucket walk with in-place deletion", ENG + " iterop, entryiter, sweepop"), ("cursor encoding", ENG + " pogocache_entry_iter"), ("KEYS/SCAN", "src/cmds.c")],
  ["visited keys against model set", "KEYS/SCAN replies"],
  technique="exactly-once set-comparison monitor over iteration traces",
  note="Engine and server level; hostile cursors under ASan."),
P("C09", "Every entry is notified, retained and freed exactly once",
  "Replaying the change notifications (inserted, replaced, deleted) alone reconstructs the cache content at all times, every removal by expiry, low memory or clear is also reported exactly once with its reason and its exact content, and no event is reported for a change that did not happen. "
  "Every entry's memory is released exactly once after its last holder lets go: an entry retained by a caller stays readable and unchanged after it was deleted, replaced, expired, evicted or cleared, and freeing the cache leaves no allocation behind.",
  ["histories", "schedules"],
  "every operation history with retain/release at any points, single- and multi-threaded, all options",
  TESTS + "callbacks are not used by the server the tests drive, and leaks are not observed.",
  [ENG],
  [("notify at each mutation", ENG + " notify"), ("reference counts", ENG + " entry_free, entry_clone")],
  ["notify/evicted callbacks, malloc/free callbacks of the cache options"],
  technique="event-log conservation monitor (notifications, allocations) with ASan",
  note="Counting allocator plus shadow map rebuilt only from notifications."),
P("C10", "Counts, sizes and statistics equal what happened",
  "At any quiet moment the number of entries, the reported bytes, and the total stored items equal the values implied by the operations performed: bytes is exactly the memory of the entries present (zero when empty, never drifting with updates, expirations, sweeps, deletions during iteration or evictions), totals only grow by stores that took effect, "
  "and each server statistic (hits, misses, commands, connections, authentication failures) equals the number of such events issued by clients.",
  ["histories", "schedules"],
  "every history of operations, sequential or concurrent and then quiesced, on any configuration",
  TESTS + "no stable test reads STATS, DBSIZE or the size functions.",
  [ENG, "src/stats.c", "src/cmds.c", "src/net.c"],
  [("entsize/count/total bookkeeping", ENG + " struct map"), ("per-thread counters", "src/stats.c")],
  ["pogocache_count/size/total after every step; STATS, DBSIZE replies"],
  technique="accounting-invariant monitor at quiescent points",
  note="Bytes are compared with the sum of live entry allocations seen by the allocator callbacks."),
P("C11", "Allocation failure is survived without damage",
  "If any memory allocation made by the cache fails at any point, the operation reports out-of-memory or completes, nothing crashes or leaks, every other entry and the previous value of the key are unchanged, and the cache goes on working once memory is available.",
  ["fault_sequences", "histories"],
  "every operation of a history x every allocation it makes failing (single and persistent failures), including creation, growth, shrinking, clear and batches",
  TESTS + "allocations never fail in a test run.",
  [ENG],
  [("nomem paths", ENG + " storeop, loadop, map_insert, clearop, pogocache_new")],
  ["status codes, content against model, allocation balance"],
  level="fault_enumeration",
  technique="allocation-fault injection at every allocation index with model comparison, ASan+UBSan",
  note="For each seeded history every allocation index is failed in turn (enumerated), one-shot and sticky."),
P("C12", "A batch is isolated and sees its own writes",
  "While a batch is open, no other thread observes or changes any key group the batch has touched until the batch ends, and then all its changes are visible; within the batch every operation, including whole-cache ones (count, size, iterate, sweep, clear), sees the batch's own writes and completes without deadlocking on the batch's own locks. "
  "Ending a batch releases everything it held.",
  ["schedules", "programs"],
  "every program of batch operations with any number of concurrent plain and batched threads (acquiring in a common order), heap-allocated and thread-local batches",
  TESTS + "batches are used only inside INCR/APPEND, which no stable test calls.",
  [ENG, "src/pogocache.h"],
  [("shard locks owned by the batch", ENG + " lock, acquire_for_key, acquire_for_scan")],
  ["values observed by other threads while a batch holds several keys of a shard"],
  technique="multi-key invariant monitor across threads (TSan and ASan), bounded-progress watchdog in a child process",
  note="Transfers between accounts inside batches; observers in batches must always see a constant sum."),
P("C13", "No client input can corrupt or crash the server",
  "Whatever bytes clients send, on any protocol, in any fragmentation and on any number of connections, the server process neither crashes, aborts, nor touches memory it does not own or executes undefined behaviour, never discloses bytes of its memory that are not data it was given, and continues serving other clients.",
  ["inputs", "histories"],
  "every byte stream on RESP, inline commands, memcache, HTTP and the Postgres wire protocol, including truncated, oversized, malformed and mutated messages, before and after authentication",
  TESTS + "they send only well-formed HTTP.",
  ["src/parse.c", "src/resp.c", "src/memcache.c", "src/http.c", "src/postgres.c", "src/args.c", "src/conn.c", "src/net.c", "src/cmds.c", "src/util.c"],
  [("length checks in each parser", "src/resp.c, src/memcache.c, src/http.c, src/postgres.c")],
  ["sanitizer reports and liveness of a server built with ASan+UBSan", "replies scanned for bytes never sent"],
  technique="grammar-based and mutational fuzzing of the live server under ASan+UBSan with liveness monitor",
  note="Structured generators per protocol plus byte mutations; also an in-process parser harness with exact-size heap buffers so over-reads are visible."),
P("C14", "The server and engine are free of data races",
  "However many connections, threads and background jobs (sweeps, flushes, saves, loads, monitors, statistics) run at once, no two threads access the same memory without synchronisation where one of them writes.",
  ["schedules"],
  "every schedule of concurrent clients issuing every command, connection churn, background work and shutdown",
  TESTS + "single client, and no race detector.",
  [ENG, "src/net.c", "src/cmds.c", "src/stats.c", "src/monitor.c", "src/save.c", "src/main.c", "src/xmalloc.c"],
  [("shard locks, atomics, queues", "src/pogocache.c, src/net.c, src/stats.c, src/monitor.c")],
  ["ThreadSanitizer reports"],
  technique="ThreadSanitizer on server and engine under concurrent stress of all commands",
  note="Reports are deduplicated; every TSan data-race report counts."),
P("C15", "Replies do not depend on how bytes are split or pipelined",
  "The sequence of replies to a client's request stream is the same however the stream is split into packets and whether requests are pipelined or sent one at a time, for each protocol; replies come back in request order with none missing, duplicated or merged, "
  "including around commands executed in the background.",
  ["inputs", "schedules"],
  "every request stream x every segmentation of it (in particular every single split point and byte-at-a-time) x every pipelining depth, large values included",
  TESTS + "the HTTP client sends each request in one write and waits.",
  ["src/conn.c", "src/net.c", "src/parse.c", "src/resp.c", "src/memcache.c", "src/http.c", "src/postgres.c"],
  [("partial packet buffering", "src/conn.c evdata"), ("protocol detection", "src/parse.c sniff_proto"), ("background completion", "src/net.c bgwork")],
  ["reply byte streams of identical request streams under different segmentations"],
  technique="metamorphic trace comparison of reply streams under enumerated segmentations",
  note="All single-split points of each scripted stream plus random multi-splits; the comparison oracle is byte equality."),
P("C16", "Exactly one well-formed reply per request, in protocol framing",
  "Every complete request gets exactly one syntactically valid reply in its own protocol (none when memcache noreply is given), a malformed request gets one error reply, "
  "and no key, value or argument content can break the framing: line-based replies never contain bytes that a client would take for another reply, and lengths always match the data that follows.",
  ["inputs", "histories"],
  "every valid request of every command and protocol with arbitrary binary arguments, malformed commands, unknown commands, pipelined after any amount of pending output",
  TESTS + "no stable test examines RESP, memcache or Postgres replies or errors.",
  ["src/conn.c", "src/cmds.c", "src/memcache.c", "src/http.c", "src/postgres.c"],
  [("reply writers", "src/conn.c writeln, write_error, conn_write_http"), ("noreply", "src/memcache.c, src/conn.c")],
  ["strict reply parsers at the client with canary requests after each request"],
  technique="strict protocol-grammar monitor on reply streams with sentinel requests",
  note="Each generated request is followed by a uniquely identifiable request; the monitor demands one reply then the sentinel's reply."),
P("C17", "Every documented command does what it says on one shared keyspace",
  "Every documented command, through whichever protocol offers it, has its documented effect and reply, and all protocols operate on one shared keyspace: what one protocol writes, counts, expires or deletes, every other protocol sees at once. "
  "A command that reports an error changes nothing.",
  ["inputs", "histories", "configurations"],
  "every sequence of documented commands with valid and invalid arguments across RESP, memcache, HTTP and Postgres (simple and prepared) connections",
  TESTS + "only HTTP PUT/GET/DELETE are exercised, never combined.",
  ["src/cmds.c", "src/memcache.c", "src/http.c", "src/postgres.c", "src/resp.c", "README.md"],
  [("command table and handlers", "src/cmds.c"), ("protocol translation", "src/memcache.c parse_memcache, src/http.c parse_http")],
  ["replies of four protocol clients compared with one model"],
  technique="reference-model monitor over random multi-protocol command histories (ASan+UBSan server)",
  note="One Python model of the keyspace is the oracle for all four protocols."),
P("C18", "Without the password nothing is readable or changeable",
  "When a password is configured, a connection that has not presented it cannot read, change, count, save, load, flush or monitor anything through any protocol, in any order of messages, pipelined or not, nor learn about data from replies; presenting the right password enables exactly that connection, and wrong or malformed credentials (prefixes, extensions, case, empty) never do.",
  ["inputs", "histories"],
  "every unauthenticated request sequence on every protocol, every wrong credential, every placement of credentials in HTTP requests and Postgres handshakes",
  TESTS + "the test server runs without a password.",
  ["src/cmds.c", "src/http.c", "src/postgres.c", "src/conn.c", "src/memcache.c"],
  [("gate before dispatch", "src/cmds.c evcommand, cmdAUTH"), ("HTTP Authorization / auth parameter", "src/http.c"), ("Postgres password message", "src/postgres.c parsep")],
  ["replies to unauthenticated clients and keyspace digest seen by an authenticated observer"],
  technique="non-interference monitor: authenticated observer checks keyspace and statistics unchanged, replies scanned for data",
  note="Unauthenticated attackers replay the full command generator."),
P("C19", "Save followed by load restores exactly the live data",
  "Loading a snapshot produced by a successful SAVE (normal or fast, any shard count, into a server with any other shard count or key compression) restores exactly the entries that were live: keys, values, flags and the absolute expiration instants, and drops the ones expired meanwhile; "
  "a SAVE taken during concurrent writes contains for each key a value that key had during the save.",
  ["inputs", "configurations", "schedules"],
  "every cache content (empty, binary, large, with and without ttl/flags), every combination of saving and loading configuration, concurrent writers during the save",
  TESTS + "persistence is not exercised.",
  ["src/save.c", "src/cmds.c", ENG],
  [("block format with checksums and unix expirations", "src/save.c")],
  ["content digest before and after, through client protocols"],
  technique="round-trip monitor: full content comparison across restart with different configurations",
  note="Includes virtual-clock shifts between save and load."),
P("C20", "A failed or interrupted save never damages the existing snapshot",
  "If the server is killed, or any file-system call fails or is cut short, at any moment of a SAVE, the snapshot path afterwards holds either the complete previous snapshot or the complete new one, which loads fully; a SAVE that reports success has the complete new one (also when several saves run at once: nothing stored before a successful save is missing afterwards), and one that could not write everything reports failure, as does the exit status of a termination whose save failed. The server keeps running and serving after a failed save, which leaves no temporary file or open descriptor behind, and a later save works.",
  ["crash_points", "fault_sequences"],
  "every system call made by a save x {killed before, fails with ENOSPC/EIO/EINTR, short write}, normal and fast saves, first and repeated saves, saves overtaking each other",
  TESTS + "no faults and no saves are exercised.",
  ["src/save.c", "src/cmds.c"],
  [("write to a temporary file then rename", "src/save.c save")],
  ["contents of the snapshot path after each injected fault, loaded by a fresh server"],
  level="fault_enumeration",
  technique="syscall fault injection and crash enumeration (preloaded shim) with reload oracle",
  note="Every intercepted call index during a save is enumerated per fault kind."),
P("C21", "A damaged snapshot is rejected safely",
  "Loading a snapshot file that was truncated, extended, bit-flipped, spliced or made up never crashes the server or corrupts memory, never brings in a key or value that was not in the original snapshot, and reports failure whenever data is missing or altered.",
  ["inputs"],
  "every byte-level modification of a snapshot (every truncation length, every bit of small snapshots, random splices) and arbitrary files",
  TESTS + "no snapshot is loaded by the tests.",
  ["src/save.c", "src/lz4.c"],
  [("block header and checksum verification", "src/save.c load")],
  ["LOAD reply, resulting content, ASan+UBSan reports"],
  level="fault_enumeration",
  technique="exhaustive truncation / bit-flip enumeration of snapshots loaded by an ASan+UBSan server",
  note="Small snapshots are enumerated completely."),
P("C22", "Persisted data survives a graceful stop and restart",
  "With persistence configured, everything acknowledged to clients before the signal of an orderly termination (SIGINT, SIGTERM) was sent is present after restarting on the same file, with the same values, flags and remaining lifetime, also when the signal arrives while clients are still writing or background work is running; a start on an existing file serves only after loading it, and a start on a missing file starts empty. Of the files next to the snapshot only work files of interrupted saves are removed.",
  ["schedules", "histories", "crash_points"],
  "every moment of termination relative to client requests and background work, repeated over several restart cycles, any configuration",
  TESTS + "the test server is killed with SIGKILL and has no persistence.",
  ["src/main.c", "src/save.c", "src/net.c"],
  [("signal handler saves then exits", "src/main.c"), ("load before listen", "src/main.c")],
  ["acknowledged writes logged by clients against content after restart"],
  technique="durability monitor: acknowledged-write log versus content after signalled restart",
  note="Writers run concurrently with the signal; operations in flight, and those acknowledged after the signal was sent, are optional but must form a prefix of what each client did."),
P("C23", "Flush removes everything and nothing afterwards",
  "After a synchronous flush is acknowledged (any spelling, fast or not, any protocol), no entry stored before the flush was requested is visible to anyone, and entries stored after the acknowledgement are never removed by it; an asynchronous or delayed flush does the same no earlier than its delay, exactly once.",
  ["schedules", "histories"],
  "every interleaving of flush variants with concurrent writers and readers, any shard count",
  TESTS + "no stable test flushes.",
  ["src/cmds.c", ENG, "src/memcache.c"],
  [("per-shard clear, parallel flush", "src/cmds.c flush_work, flushfast; src/pogocache.c clearop")],
  ["reads after flush acknowledgement by all connections"],
  technique="happens-before monitor over concurrent flush/write/read histories",
  note="Writer values carry sequence numbers; a visible value older than the last acknowledged flush is a violation."),
P("C24", "Connections never leak, cross or outlive their limits",
  "Whatever clients do, including disconnecting at any moment (mid-request, with replies pending, during background work), each connection's resources are released: file descriptors and memory return to their level, the current-connection count returns to the true number, refused connections beyond the limit are really refused and the limit never refuses below it, and no client ever receives a reply meant for another.",
  ["histories", "schedules"],
  "every sequence of connects, partial requests, half-closes, resets and background commands over many connections, every connection limit",
  TESTS + "a handful of well-behaved connections.",
  ["src/net.c", "src/conn.c", "src/cmds.c"],
  [("connection map, close queues, bgwork hand-back", "src/net.c"), ("maxconns", "src/net.c")],
  ["/proc/<pid>/fd of the own server, STATS connection counters, memory at quiescence, connection-tagged replies"],
  technique="resource-conservation monitor with connection churn under ASan",
  note="File descriptors and counters compared before and after; leak checker at exit."),
P("C25", "Glob matching agrees with its definition for every pattern and key",
  "KEYS and SCAN MATCH return a key exactly when the pattern matches it by this definition: * matches any run of bytes, ? any one byte, a backslash makes the next byte literal, every other byte (brackets included) only itself, for every byte string as pattern and key, and the match takes time bounded by the sizes of pattern and key rather than exploding.",
  ["inputs"],
  "all patterns x keys (exhaustive over a small alphabet, random and adversarial beyond)",
  TESTS + "no stable test uses patterns.",
  ["src/util.c", "src/cmds.c"],
  [("match", "src/util.c")],
  ["KEYS/SCAN replies", "return value of the matcher"],
  technique="differential monitor against a reference matcher, exhaustive over small alphabets, ASan+UBSan",
  note="Engine-side matcher called directly in a harness and through KEYS."),
P("C26", "Monitor shows every executed command once, faithfully",
  "A client in monitor mode receives each command executed by any other client exactly once, in the order each client issued them, with the arguments unambiguously quoted so that they can be decoded to the original bytes, and no other bytes; monitors coming and going never disturb other clients, and passwords are not shown.",
  ["inputs", "schedules"],
  "every argument byte string, any number of concurrent clients and monitors",
  TESTS + "no stable test uses MONITOR.",
  ["src/monitor.c", "src/cmds.c"],
  [("quoting and fan-out", "src/monitor.c")],
  ["lines received by monitor clients against the log of issued commands"],
  technique="exactly-once/order monitor on MONITOR streams with decoding oracle",
  note="Per-client order and decoded bytes are compared."),
P("C27", "Postgres statements carry parameters and literals exactly",
  "A command sent through the Postgres protocol executes with exactly the arguments its text and bound parameters denote: quoted strings with doubled quotes, escape strings, numbered parameters in any order and repetition, binary and text formats, named and unnamed statements and portals re-used and redefined; "
  "parameter bytes are never re-interpreted as syntax, and each message sequence gets the protocol's reply sequence with one ready-for-query per sync.",
  ["inputs", "histories"],
  "every statement text and parameter list, every order of parse/bind/describe/execute/sync messages, simple queries mixed with extended ones",
  TESTS + "no stable test speaks the Postgres protocol.",
  ["src/postgres.c", "src/conn.c", "src/hashmap.c"],
  [("query tokenizer", "src/postgres.c parse_query_args"), ("statement and portal maps", "src/postgres.c, src/hashmap.c")],
  ["effects seen through RESP and message sequence at the Postgres client"],
  technique="differential monitor: Postgres effect versus independent parse of the statement, strict message-sequence checker",
  note="ECHO/SET with arbitrary parameters compared with expected bytes."),
P("C28", "Configuration flags have the effect they document",
  "Each start-up option changes exactly the behaviour it documents and no other: eviction, key compression, CAS, sweeping, shard count, load factor, thread count, memory and connection limits, password, persistence, ports and hosts, unix socket, socket settings and event queue; an unknown option, an option without its value, and an invalid yes/no value, port, memory limit or allocator name, and a host or socket path that cannot be listened on, are refused at start with an error instead of being ignored, and numbers outside their range are brought into it; observable results of commands are the same under all shard, thread, load-factor, compression and queue settings.",
  ["configurations"],
  "all options and pairs of options with valid, boundary and invalid values",
  TESTS + "a single configuration is ever started.",
  ["src/main.c"],
  [("option parsing and construction of the cache", "src/main.c")],
  ["behaviour of started servers and exit status of refused ones"],
  technique="configuration-sweep monitor: behavioural probe per option, output equivalence across performance options",
  note="Every option in both notations with valid, boundary and invalid values; random combinations of the performance options must give the same replies to the same command script."),
P("C29", "One client cannot stall the others",
  "A client that sends slowly, stops reading its replies, sends a huge request, or runs long background commands never prevents other connections from being served: as long as the process runs, other clients' requests complete after a bounded number of the server's own steps.",
  ["schedules", "histories"],
  "every behaviour of a slow, stalled or hostile client next to well-behaved ones, on every number of threads",
  TESTS + "one fast client.",
  ["src/net.c", "src/conn.c", "src/cmds.c"],
  [("event loop, output flushing, background work", "src/net.c flush_conn, bgwork")],
  ["progress of a probe client sharing the thread with a stalled client, CPU steps of the server"],
  technique="bounded-progress monitor with stalled peers",
  note="Liveness restated as: the probe completes N requests while the staller stays stalled; re-run before reporting."),
]
