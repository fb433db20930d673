#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. Edit here, run, commit both."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

M = "memcache/"
prop("C01", "Requests on the wire are exactly the commands issued, in order",
 'Every command issued on a pipeline with a valid key is sent as exactly one CRLF-terminated request: `mg <key>[ c][ N<n>] v`, `ms <key> <len>[ C<cas>][ T<ttl>]` followed by the value and CRLF, `md <key>[ C<cas>][ I[ T<ttl>]]`, `version` or `flush_all`, an option being present exactly when it is non-zero or true (the TTL of a delete only together with I). Numbers are canonical decimals over the whole range of their type, and a value is sent byte for byte with its true length, empty and CRLF-containing values included. What a connection receives from a pipeline is the concatenation of its requests in issue order, nothing lost, duplicated, reordered or inserted, wherever the pipeline is cut into batches.',
 ["inputs", "configurations"], "all keys, values, options, command mixes and batch sizes",
 "Tests compare a few literal strings; numbers, option combinations, value contents and batch cuts form an unbounded product, and every end-to-end test needs a server and is not run.",
 [M+"builder.go", M+"command.go", M+"sender.go", M+"pipeline.go"],
 [("addMGet/addMSet/addMDel/addVersion/addFlushAll, appendNumber", M+"builder.go"), ("writeToWriter interleaves binaries by offset", M+"command.go"), ("internalIncreaseCount cuts batches", M+"builder.go")],
 [("requestData/requestBinaries", "encoded text and value blocks with offsets", M+"command.go")], ["bytes passed to net.Conn.Write"])

prop("C02", "Keys are validated; a rejected key has no other effect",
 'A key is accepted exactly when it is 1 to 250 bytes long and consists only of ASCII characters that are neither control characters nor white space, so no accepted key can end or split a request. A rejected key yields the matching error (empty; too long; invalid format; either of the last two when both apply) from get, set and delete alike. A rejected command sends no bytes, takes no reply, and leaves every other command of the pipeline unaffected.',
 ["inputs"], 'every byte string as key, in every command that takes a key, at any position in a pipeline',
 "The key space is all byte strings; the tests try a dozen.",
 [M+"pipeline.go"], [("validateKeyFormat called by MGetFast, MSet, MDel", M+"pipeline.go")], (), ["returned error", "bytes passed to net.Conn.Write"])

prop("C03", "A well-formed reply is decoded exactly",
 "For a well-formed server reply the caller receives exactly its content: get gives hit with value (value bytes exact for any content and length, including empty and CRLF inside), hit without value or miss, with the win/stale/already-won flags and the full 64-bit CAS; set gives stored / not stored / exists / not found; delete gives deleted / not found / exists; version gives the trimmed version text; flush_all gives success. A SERVER_ERROR or CLIENT_ERROR reply gives the corresponding error carrying the server's message text, unless the connection had already been abandoned because of an earlier failure, whose error may be reported instead.",
 ["inputs"], "all well-formed replies to every command kind: every status, flag combination and order, CAS value and value content",
 "Flag combinations, numbers and value bytes cannot be enumerated by literal test vectors.",
 [M+"parser.go", M+"reader.go", M+"pipeline.go"],
 [("readMGet/readMSet/readMDel/readVersion/readFlushAll/readError", M+"parser.go"), ("value length accumulation and copy", M+"reader.go")],
 [("responseData/responseBinaries", "reply text and value blocks of a batch", M+"command.go")], ["values returned by the result functions"])

prop("C04", "Each command gets its own reply, once",
 'The n-th command of a pipeline receives the reply to that command: results pair with commands whatever the mix of command kinds, batch cuts, intermediate Execute/Finish calls, the order in which results are asked for, and other pipelines sharing the connection. Asking a result a second time gives the already-gotten error, and a result once obtained does not change afterwards. Finish sends everything still pending and waits for its replies.',
 ["inputs", "histories", "configurations"], "every program over a pipeline (issue, execute, finish, ask result) and every batch size, with several pipelines",
 "The order of issue/execute/result calls and the batch cut form an unbounded set of programs; the tests that would touch it need a server.",
 [M+"pipeline.go", M+"parser.go", M+"core.go", M+"builder.go", M+"sender.go"],
 [("parseCommands walks batches and commands in step", M+"pipeline.go"), ("cmdListReader/readNextMemcacheCommandResponse count replies", M+"core.go"), ("isRead", M+"pipeline.go")],
 [("currentCmdList", "commands of a session in issue order", M+"pipeline.go"), ("cmdCount", "commands in one batch", M+"command.go")], ["values returned by the result functions"])

prop("C05", "Decoding does not depend on how the stream is segmented",
 'The outcome of every command depends only on the sequence of bytes the server sent, not on how that sequence was split over network reads nor on the receive buffer size. In particular a reply cut at any byte (inside a status word, a number, between CR and LF, inside or after a value), or several replies arriving in one read, yield the same results. This holds for well-formed byte streams and, within a batch of commands, for malformed ones.',
 ["inputs", "histories"], "all byte streams up to the bound and all their partitions into reads",
 "One test splits one string at every point; streams times partitions is exponential.",
 [M+"reader.go", M+"core.go"], [("state machine recv/recvInLoop", M+"reader.go"), ("remainingData carry-over", M+"reader.go")],
 [("state,tmpData,dataLen,currentBinary,currentIndex,remainingData", "parser position", M+"reader.go")], ["reply text, values and errors recorded for each command"])

prop("C06", "Arbitrary server bytes never crash or wedge the client",
 'Whatever bytes the server sends, no goroutine of the client panics, loops forever or requests an absurd allocation; each affected command ends with an error or a value. A reply that is not a legal reply to the command it answers (a status word of that kind of command, with well-formed fields, properly terminated) gives that command an error and never a value.',
 ["inputs"], "all byte strings as the server's output, for every command kind and command mix",
 "Malformed input space is unbounded; a fuzz sample cannot exclude a crash.",
 [M+"parser.go", M+"reader.go", M+"pool.go", M+"core.go"],
 [("length and prefix guards before indexing", M+"parser.go"), ("reader error states", M+"reader.go")],
 [], ["panics, hangs, returned errors"])

prop("C07", "A protocol error poisons only its own connection",
 'A SERVER_ERROR reply fails just its command and leaves the connection in use. Any other error reply or unparsable reply fails the command and abandons the connection. After a connection is abandoned, its bytes, received or still unread, never answer a command that was sent on a later connection, and commands sent on it are never re-sent.',
 ["inputs", "fault_sequences", "schedules"], "all server outputs including surplus replies, at every point of the life of a connection",
 "Needs a misbehaving server at a precise moment before a reconnect; no test reconnects with surplus data pending.",
 [M+"core.go", M+"reader.go", M+"pipeline.go", M+"sender.go"],
 [("setLastErrorAndClose", M+"sender.go"), ("responseReader.reset", M+"reader.go"), ("parseCommandsForSingleCommandData error branch", M+"pipeline.go")],
 [("remainingData", "bytes read but not yet consumed", M+"reader.go"), ("lastErr", "connection is dead", M+"sender.go")], ["results of commands issued after a reconnect", "bytes written per connection", "Close calls"])

prop("C08", "Every command completes",
 'Every issued command whose result is asked for (or that is covered by Finish) completes with a value or an error; it never blocks forever. This holds for any number of concurrent pipelines, any scheduling of the goroutines, any sequence of dial, read and write failures (partial writes and failures with a full in-flight window included), any pipeline length relative to batch size, write limit and internal buffers, and when the client is closed before, during or after.',
 ["schedules", "fault_sequences", "histories", "configurations"], "all interleavings and fault sequences within the bound",
 "A deadlock needs one interleaving among very many, or a failure exactly while internal buffers are full.",
 [M+"sender.go", M+"core.go", M+"input_selector.go", M+"send_buffer.go", M+"conn.go", M+"pipeline.go"],
 [("condition variables of sendBuffer, recvBuffer, connWriteLimiter", M+"sender.go"), ("setCompleted/waitCompleted", M+"command.go"), ("publish on a closed client", M+"sender.go")],
 [("begin,end,closed", "ring of sent batches", M+"sender.go"), ("cmdWriteCount,cmdReadCount", "in-flight accounting", M+"input_selector.go")], ["result functions return"])

prop("C09", "The client recovers from a broken connection",
 "After a dial, read, write or protocol failure the client closes the broken connection and dials the same address again, once per failure, waiting the retry duration between unsuccessful dials; after a failed initial dial the next dial is made at the latest on first use. Commands issued while disconnected fail with the connection's error; once a dial succeeds, later commands use the new connection and succeed. This holds for any sequence of failures.",
 ["fault_sequences", "schedules"], "all sequences of dial/read/write failures within the bound and all interleavings of reconnection with commands",
 "Needs specific fault sequences against the real reconnect goroutine; tests only cover one reset with mocks.",
 [M+"conn.go", M+"sender.go", M+"core.go", M+"netconn/netconn.go"],
 [("reconnect goroutine", M+"conn.go"), ("waitForError/resetNetConn/setLastErrorAndClose", M+"sender.go")],
 [("conn,lastErr", "current connection and whether it is dead", M+"sender.go")], ["dial calls and their times, Close calls, command results"])

prop("C10", "Close shuts everything down",
 'Close returns, and when it has returned all goroutines of the client have ended (or are about to, without further effect), every network connection it ever opened has been closed, and it neither dials nor writes anymore. Commands issued afterwards fail with the connection-closed error without being sent, for pipelines of any length; commands issued before Close are still sent and answered. This holds whenever Close happens: idle, with commands in flight, during a reconnect or retry wait, concurrently with other callers.',
 ["schedules", "fault_sequences", "histories"], "all interleavings of Close with commands, failures, reconnects and health checks within the bound",
 "Depends on the interleaving of four goroutines per connection; tests close only idle clients.",
 [M+"memcache.go", M+"conn.go", M+"sender.go", M+"core.go", M+"health.go", M+"send_buffer.go"],
 [("shutdown/waitCloseCompleted", M+"conn.go"), ("sender.shutdown, closeSendJob, waitForError", M+"sender.go"), ("healthCheckService.shutdown", M+"health.go")],
 [("closed", "flags in sendBuffer, recvBuffer, sender, clientConn", M+"sender.go")], ["goroutine exit, Close calls on connections, dial calls, returned errors"])

prop("C11", "Unanswered commands are bounded by the write limit",
 "On each connection the number of commands written whose batch's answer has not begun to arrive never exceeds the configured write limit, except that a single batch larger than the limit is sent as a whole. No batch carries more commands than the configured maximum, and the limit delays commands but never drops them, reorders them within a pipeline, or permanently blocks them.",
 ["schedules", "configurations", "histories"], "all limits, batch sizes, pipeline shapes and reply timings within the bound",
 "The counters wrap, race with the reader, and depend on arrival order; tests use a few literal sequences.",
 [M+"input_selector.go", M+"core.go", M+"builder.go"],
 [("connWriteLimiter.allowMoreWrite/addReadCount", M+"input_selector.go"), ("increaseReadCount", M+"core.go")],
 [("cmdWriteCount,cmdReadCount", "commands sent / answered", M+"input_selector.go")], ["requests written versus replies delivered"])

prop("C12", "A long pipeline does not starve others; each pipeline stays in order",
 'Batches of one pipeline are sent in order and every batch exactly once. Pipelines sharing a connection get their turn: once the write under way when a pipeline arrives is over, its first batch waits for at most as many continuation batches of longer pipelines as first batches of pipelines that arrived before it or with it. Continuing pipelines get their turns in rotation.',
 ["histories", "schedules", "configurations"], 'all sets of waiting pipelines with any number of batches, limits and arrival moments within the bound',
 "The order depends on arrival moments, limits and list manipulation; tests check some literal orders.",
 [M+"input_selector.go", M+"send_buffer.go"],
 [("getNextCommand/popAllThenRead alternate the two lists", M+"input_selector.go"), ("selectorCommandList.append/removeFirst", M+"input_selector.go")],
 [("inputList,longCmdList", "waiting batches", M+"input_selector.go")], ["order of requests written"])

prop("C13", "Buffers are never shared, resized or overwritten while in use",
 'The value passed to a set is captured at the call: later changes by the caller do not affect what is sent. A value returned by a get has exactly its length, is not shared with any other live value or request, and keeps its content until the caller releases it, whatever other commands run and whichever slices have been released. Releasing any byte slice, of any length and capacity, never makes later values overlap, shorter or longer than asked, or reach outside allocated memory.',
 ["inputs", "histories"], "all sizes and all get/release histories within the bound",
 "Aliasing needs a particular reuse history of pooled memory with particular capacities; tests check single calls.",
 [M+"pool.go", M+"command.go", M+"builder.go", M+"pipeline.go", M+"reader.go"],
 [("getByteSlice/releaseByteSlice size classes over unsafe slices", M+"pool.go"), ("freeCommandRequestData/freeCommandResponseData", M+"command.go")],
 [("getDataPools, requestBytesPool, responseBytesPool, responseBinaryPools, pipelineCmdPool", "recycled memory", M+"pool.go")], ["contents and lengths of values and written bytes"])

prop("C14", "Concurrent use of a client is race free and keeps batches whole",
 "Pipelines used from different goroutines on one client interfere with each other in no way: there is no data race in the client, and requests of one batch are never interleaved with other bytes on the connection. Replies go to the goroutine that issued the command, and each pipeline's requests keep their order.",
 ["schedules"], "all interleavings of the calling goroutines and the client's own goroutines within the bound",
 "Races show up only in particular interleavings; the stable tests run without the race detector and without a server.",
 [M+"sender.go", M+"send_buffer.go", M+"core.go", M+"conn.go", M+"pipeline.go", M+"input_selector.go"],
 [("sendBuffer.push under mutex", M+"send_buffer.go"), ("connMut around assign/push/write", M+"sender.go"), ("completion channel", M+"command.go")],
 [], ["memory accesses, request bytes, results"])

prop("C15", "Connections are used in rotation and none stays silent",
 'The client opens exactly the requested number of connections (and rejects a non-positive number), and successive pipelines that issue commands use them in rotation, each pipeline staying on one connection. In every health-check period each connection carries at least one command: any connection not reached by the rotation in that period gets a version request, and no request is made when the rotation already reached all of them.',
 ["inputs", "histories", "configurations"], 'all connection counts, sequence positions (below 2^63) and numbers of pipelines per period within the bound',
 "Depends on 64-bit counters and activity between two checks; tests use three connections and small counters.",
 [M+"memcache.go", M+"health.go", M+"pipeline.go"],
 [("getNextConn", M+"memcache.go"), ("runSingleLoop", M+"health.go")],
 [("next, prevSequence", "rotation position", M+"health.go")], ["connection used by each request"])

prop("C16", "Authentication is exact and fails closed",
 'With password authentication the first bytes sent on every new connection are exactly `set memcached_auth 0 0 <n>`, CRLF, `<user> <password>`, CRLF with n the true length, and the connection is used if and only if the server answers `STORED` CRLF, consuming exactly that reply however it is segmented. On any other answer, read error or write error the connection is closed and an error returned (the invalid-credentials error for a wrong answer). A dial error is passed through.',
 ["inputs", "fault_sequences"], "all user names, passwords, server answers, segmentations and I/O failures within the bound",
 "No test in the stable set runs the handshake at all.",
 [M+"netconn/auth.go"], [("GetDialFunc, tryReadBytes", M+"netconn/auth.go")], (), ["bytes written, connection returned or closed, error"])

prop("C17", "Every network operation is bounded and configured as asked",
 'Each read and each write of commands on a connection happens under a deadline set immediately before it to the current time plus the configured timeout (defaults 1 s each); each dial is given the target address and connect timeout, which also bounds the authentication exchange; buffered output is fully handed over on flush. Every client option takes effect on exactly the setting it names and composes with the others in any order. A failure to set a deadline or keep-alive is reported as an error, and no failed dial leaves a connection open.',
 ["inputs", "configurations", "fault_sequences"], "all option combinations and values, all I/O sequences and failures within the bound",
 "Option combinations and fault points are not enumerated by tests; netconn has no tests of its own.",
 [M+"netconn/netconn.go", M+"options.go"], [("timeoutWriter/timeoutReader", M+"netconn/netconn.go"), ("computeConfig, computeOptions", M+"netconn/netconn.go")], (), ["calls on net.Conn"])

prop("C18", "Statistics are reported exactly or not at all",
 'For a well-formed statistics reply, the general, slab and slab-item queries send their exact command and return exactly the numbers the server sent, each in the field its name denotes, for every slab class in order of its first known statistic, ignoring unknown general statistics and unknown statistics of a class. A malformed line, an unparsable or out-of-range number, or a connection that ends before END gives an error, never a partial result presented as complete, and never a crash. A failed query does not disturb the next one.',
 ["inputs"], 'all statistic names, slab classes, 64-bit/32-bit values, malformed lines and truncations within the bound. Left open: a reply whose first line is no statistic is taken as a one-line status reply; unknown class-independent slab statistics other than active_slabs and total_malloced; further words after a number; other prefixes than `items:`; a plus sign; a statistic repeated for a class; an END lacking only its line end',
 "About forty fields times all values and all malformed lines; tests check a few literals and the rest need a server.",
 [M+"stats/stats.go", M+"stats/parser.go"], [("statsParser.next", M+"stats/parser.go"), ("parseSlabStat, parseSlabItemStat", M+"stats/stats.go")], (), ["returned structs and errors, bytes written"])

prop("C19", "A key dump delivers every key or an error",
 'A metadata dump calls back once per line the server sent, in order, with the URL-decoded key and the exact expiry, access time, CAS, fetch, class and size values, and returns nil only if the terminating END was received. A malformed line or number, or a connection that fails or ends early, gives an error and never a crash or a key that was not completely received.',
 ["inputs", "fault_sequences"], 'all dump lines, numbers, key encodings, truncation points within the bound. Left open: values containing `=`, fetch words other than yes and no, missing fields, plus signs before numbers, an END lacking only its line end',
 "Tests check literal lines; the end-to-end dump needs a server.",
 [M+"stats/stats.go"], [("parseMetaDumpKey, MetaDumpAll", M+"stats/stats.go")], (), ["callback arguments and returned error"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
