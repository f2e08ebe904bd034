#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (keeps the JSON readable in review)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=hook)))

LOCK = "device/src/lock.rs"
prop("C01", "Lock requests behave like one atomic exclusive/shared lock",
 "However lock requests, upgrades and releases of any number of clients interleave, they take effect one at a time: a request for the exclusive lock is granted only while nobody holds it and there are either no shared holders or the requester is one of them, and a request for a shared lock is granted only when no lock is held or when shared holders with exactly the same key exist (even if one of those holders also has the exclusive lock). "
 "A request for a kind of lock the requester already holds is refused, and a refused request changes nothing. "
 "A release gives up everything the client holds and says which kind (exclusive when both), releasing nothing is an error, and the reported lock state (exclusive or not, number of shared holders) always equals what has been granted and not yet released.",
 ["schedules","histories","inputs"], "every history of acquire/upgrade/release/query calls by up to 6 clients, with arbitrary keys, sequential and concurrent",
 "The unit tests walk four fixed histories with two or three clients on one thread; they reach no interleaving and about a dozen states.",
 [LOCK], [("grant table in the acquire functions, counters updated under one spin lock", LOCK)], ["LockHandle/RemoteLockHandle return values", "lock_info"],
 "delay points between the steps of a lock operation, compiled in only with --cfg lxi_verif")
prop("C02", "A locked device is only ever handed to a client the lock permits",
 "At the instant a client is handed the device to operate on, whether it waited for it or not, either that client holds the exclusive lock, or nobody holds the exclusive lock and the client holds the shared lock, or no lock is held by anybody; and at most one client has the device at a time. "
 "A non-waiting attempt says truthfully why it failed (exclusively locked, locked by sharers, or in use) and succeeds when the device is idle and permitted.",
 ["schedules","histories"], "every interleaving of waiting/non-waiting device accesses with lock grants, releases, and cancellations by other clients",
 "Tests take the device on one thread with no competing grant; the dangerous window is a lock granted while another client is already queued for the device.",
 [LOCK], [("permission is (re)checked when the device mutex is obtained", LOCK)], ["guards returned by async_lock/try_lock"],
 "delay points between the steps of a lock operation, compiled in only with --cfg lxi_verif")
prop("C03", "Waiting for a lock or the device never gets stuck, and giving up is harmless",
 "A client waiting for a lock or for the device is woken and proceeds once every holder standing in its way has released, or once it has itself gained a lock that permits it, in every interleaving of waits, grants, releases and cancellations. "
 "A wait that is abandoned or times out takes no lock, keeps nobody else waiting, and leaves the lock usable.",
 ["schedules","histories"], "every interleaving of waiters, holders and cancelled waiters; bounded progress: proceeds before the system goes quiet",
 "The one asynchronous test has two tasks and one favourable order; lost wake-ups need a release between two particular steps of a waiter.",
 [LOCK], [("listener registered before the state is re-read; every grant and release drains the listeners", LOCK)], ["future completion at quiescence", "watchdog on real threads"],
 "delay points between the steps of a lock operation, compiled in only with --cfg lxi_verif")
prop("C04", "Locks never outlive their holder",
 "When a holder goes away - its handle is dropped, its HiSLIP connections close or reset, its VXI-11 link is destroyed, or its VXI-11 connection closes or resets, at any point of its activity - every lock it held is released (where the client vanished while one of its own requests was waiting, at the latest when that request ends), exactly once, and no lock held by anyone else is touched. "
 "Afterwards other clients, including ones already waiting, can obtain the lock and use the device.",
 ["crash_points","histories"], "every point in a client's life at which it may vanish (idle, mid-message, while waiting for a lock, mid-response), for every protocol that can lock",
 "One unit test drops an idle handle; no test closes a connection that holds a lock.",
 [LOCK, "hislip/src/server/mod.rs", "vxi11/src/server/vxi11/mod.rs", "vxi11/src/server/vxi11/core_service.rs"],
 [("release on drop of the handle; sessions own their handles", LOCK), ("link removed on destroy, links dropped with the connection", "vxi11/src/server/vxi11")], ["lock state seen by an independent client", "waiting client proceeds"])
prop("C05", "Status changes reach every subscriber once and in order",
 "A status byte that is announced is delivered to every subscriber that exists at that moment and keeps up, exactly once and in announcement order, with its value unchanged, whichever clone of the announcer or thread is used; a subscriber that lags misses later values but never sees one twice, changed, or out of order, and never blocks the announcer. "
 "Subscribers that have gone away are forgotten without affecting the others.",
 ["histories","schedules"], "every history of announce/subscribe/unsubscribe/read over any number of subscribers and announcer threads",
 "The single test announces one value to two subscribers.",
 ["device/src/status.rs"], [("list of bounded channels under a lock, closed ones pruned on send", "device/src/status.rs")], ["values received", "channel closure"])
prop("C06", "Raw socket: each terminated line is one command, answered in order",
 "For every byte stream and however it is split into segments, the device executes exactly the byte strings between occurrences of the configured read terminator, unmodified, each once, in order, with empty lines executed as empty commands; bytes after the last terminator are never executed. "
 "The bytes sent back are exactly the device's responses in the same order, each followed by the configured write terminator, and nothing for a command without a response.",
 ["inputs","configurations","schedules"], "every byte stream, segmentation, terminator pair, buffer size and device response pattern, over in-memory pipes, TCP and unix sockets, with end of stream at every byte",
 "The test sends one ASCII line in one segment with the default configuration.",
 ["raw/src/server/mod.rs"], [("read_until loop with the terminator removed", "raw/src/server/mod.rs")], ["device command log", "bytes on the wire"])
prop("C07", "Raw and Telnet servers serve at most the configured number of clients",
 "A raw socket (TCP or unix) or Telnet server never serves more clients at once than its configured limit, further clients simply wait, and every slot comes back when its client leaves, however it leaves (orderly, half-close, reset, error). "
 "Waiting clients are then served in full.",
 ["configurations","histories","fault_sequences"], "every limit and every history of arrivals and departures, including resets while waiting",
 "Tests open one connection.",
 ["raw/src/server/mod.rs","telnet/src/server/mod.rs"], [("backpressure token dropped when the client's task ends", "raw/src/server/mod.rs")], ["which connections get responses"])
prop("C08", "Telnet: lines become commands, responses and echo come back intact",
 "For every stream of data bytes and complete option negotiations and however it is split, the device executes each LF-terminated line once, in order, without its line end (LF or CR LF), exactly as typed; an unterminated line is never executed and a client that closes its sending side ends its session. "
 "Every response comes back once, in order, followed by CR LF with byte 0xFF escaped; data received after the server agreed to echo is echoed (escaped) once in order, data received while echo is off is not; the prompt precedes input and is followed by go-ahead only while suppress-go-ahead is not in force. "
 "Echo, suppress-go-ahead and binary are agreed to when requested, other options are refused, and erase-character / erase-line commands edit the pending line.",
 ["inputs","schedules"], "every line content, segmentation and negotiation order",
 "The Python test sends one query after a fixed negotiation.",
 ["telnet/src/server/mod.rs"], [("parser events folded into a line buffer", "telnet/src/server/mod.rs")], ["device command log", "bytes on the wire"])
prop("C09", "HiSLIP: session set-up is exclusive, bounded and correctly negotiated",
 "Each accepted initialisation gives a session id that no live session has (also after the id space wraps), the lower of the client's and the server's protocol version (2.0), the server's preferred mode, and a session on the device named by the sub-address (empty means hislip0); unknown or non-text sub-addresses and unknown session ids are refused with a fatal error. "
 "A session gets exactly one asynchronous channel, which reports the configured vendor id, and no command is executed before that channel exists. "
 "Never more than the configured number of sessions are alive, a further one is refused with a fatal error, and every slot can be reused once its session has gone.",
 ["histories","configurations","schedules"], "every order of opening/closing channels by any number of clients, including concurrent ones and id wrap-around, and all configurations",
 "The repository's HiSLIP tests skip themselves; nothing is exercised.",
 ["hislip/src/server/mod.rs","hislip/src/server/session/mod.rs"], [("session table with weak references, collected before each creation", "hislip/src/server/mod.rs")], ["handshake replies", "which device executed"])
prop("C10", "HiSLIP: commands and responses cross the sync channel intact",
 "The device receives exactly the concatenation of the payloads of the data messages up to and including each end message, each command once and in order per session. "
 "A non-empty response comes back as consecutive data messages none of whose payloads exceeds the maximum the client announced (256 bytes until it announces one), whose concatenation is the response, only the last of which is an end message, and all carrying the message id of the command's end message; a command without response produces nothing. "
 "The configured short identification answer is returned instead of executing an identification query (any letter case), which leaves later commands unaffected; a trigger message triggers the device once, in order with the commands.",
 ["inputs","configurations"], "every command, chunking, response size, client maximum and interleaving of sessions",
 "No HiSLIP test runs.",
 ["hislip/src/server/session/synchronous.rs","hislip/src/common/messages.rs"], [("accumulating buffer, response split by the client's maximum", "hislip/src/server/session/synchronous.rs")], ["device command log", "messages on the wire"])
prop("C11", "HiSLIP: bad messages are rejected without losing track of the stream",
 "A message with an unknown type, a vendor type, a type not expected on that channel, or a payload larger than the server's maximum (which the server reports truthfully) is answered with exactly one error message, is never executed, and every following message is still understood, on either channel; no byte of a rejected payload is taken for a message. "
 "A message with a wrong prologue is answered with a fatal error and ends that connection, and a message cut off by the end of the stream is never acted upon. "
 "Every message type code survives encoding and decoding unchanged.",
 ["inputs","crash_points"], "every malformed message and truncation point, before, during and after session set-up, on both channels",
 "No HiSLIP test runs.",
 ["hislip/src/common/messages.rs","hislip/src/server/session/synchronous.rs","hislip/src/server/session/asynchronous.rs","hislip/src/server/mod.rs"],
 [("length check and exact payload read before dispatch", "hislip/src/common/messages.rs")], ["replies on the wire", "device command log"])
prop("C12", "HiSLIP: device clear always completes and discards what it should",
 "Whenever a client performs device clear - idle, in the middle of a multi-part command, while a command waits for a lock held by someone else, or while a long response is being sent - the request is acknowledged on the asynchronous channel and the completion on the synchronous channel, exactly once each, the latter granting the mode (overlapped or synchronized) asked for and no other feature. "
 "Messages sent between the two and parts of a command received before completion are never executed afterwards, a waiting command is abandoned, the device's clear runs once if the session may use the device and not at all otherwise, and the session works normally afterwards.",
 ["schedules","histories"], "every point of the command/response cycle at which clear may be requested, under any lock situation, with other sessions active",
 "No HiSLIP test runs; clear interleaves two connections.",
 ["hislip/src/server/session/synchronous.rs","hislip/src/server/session/asynchronous.rs"], [("clear event raced against reading, waiting and sending", "hislip/src/server/session/synchronous.rs")], ["acknowledgements on the wire", "device clear and command log"])
prop("C13", "HiSLIP: lock answers are truthful and enforced across sessions",
 "A lock request is answered with success exactly when the session then holds the requested lock (a lock string selects shared, an empty one exclusive; trailing NULs ignored), waits for its timeout and no longer before it is answered with a failure, is not granted after a failure was reported, and a release answers with the kind released or an error; lock information always reports the current holders. "
 "While a session holds a lock, commands, triggers and changes of remote/local by sessions it excludes are not executed until it releases, and are then executed in order. "
 "Waiting for a lock, on either channel, never stalls other sessions.",
 ["schedules","histories"], "every history of lock requests, releases, commands and disconnects of up to 5 sessions over real connections, in terms of real-time order",
 "No HiSLIP test runs.",
 ["hislip/src/server/session/asynchronous.rs","hislip/src/server/session/synchronous.rs",LOCK], [("session lock handle shared by both channels", "hislip/src/server/session")], ["AsyncLockResponse / AsyncLockInfoResponse", "device command log"])
prop("C14", "HiSLIP: status, service requests and remote/local reach the right place",
 "A status query returns the device's current status byte (apart from the message-available bit) and works even while another session holds the lock. "
 "When the device announces a status, every session with no service request outstanding gets one service request carrying that byte; until the client queries the status no further service request is sent, and the connection stays up however many are announced. "
 "Remote/local requests 0 to 6 do to the device what the protocol prescribes (disable: local and no lockout; enable: nothing; disable and go local; enable and go remote; lock out local; go remote with lockout; go local), an unknown request only produces an error, and a status query switches the device to remote while a request enabled remote, not while one disabled it; a device that fails such a request costs no more than that request, which is answered by exactly one error message, status queries, triggers and device clears of a failing device complete, and the session goes on.",
 ["histories","inputs"], "every history of announcements, status queries and remote/local requests over several sessions",
 "No HiSLIP test runs.",
 ["hislip/src/server/session/asynchronous.rs"], [("pending-request flag cleared by the status query", "hislip/src/server/session/asynchronous.rs")], ["messages on the async channel", "device call log"])
prop("C15", "RPC servers answer every call exactly once, correctly addressed",
 "Every well-formed call to a VXI-11 core, VXI-11 abort or portmapper server gets exactly one reply, carrying the call's transaction id, in order of the calls on that connection; unknown programs, versions (with the supported range), procedures, RPC versions (2 to 2) and unacceptable credentials or verifiers are reported by their own status and nothing is executed. "
 "Calls split over several record fragments or TCP segments are treated as if sent whole; a record that is cut off, too large or not decodable is never acted upon and at most ends that one connection. "
 "Over UDP a datagram that is not a valid call produces no reply and no harm.",
 ["inputs","fault_sequences"], "every call header, fragmentation, truncation point and pipelining depth, TCP and UDP",
 "Tests exercise two fragment reassemblies and well-formed calls from one client.",
 ["vxi11/src/common/onc_rpc/mod.rs","vxi11/src/common/onc_rpc/record.rs","vxi11/src/common/onc_rpc/xdr.rs","vxi11/src/server"],
 [("record reassembly, header decode, status mapping", "vxi11/src/common/onc_rpc")], ["replies on the wire"])
prop("C16", "VXI-11: links are unique, isolated and end when they should",
 "Creating a link to a known device yields an identifier different from every other live link's on any connection, together with the server's abort port and receive size; an unknown device is refused with invalid address, and a link whose requested lock cannot be obtained within the lock timeout is refused and does not exist. "
 "An operation on a link that was never created, was destroyed, or belongs to another connection is refused with invalid link identifier and has no effect, including aborts. "
 "Links share no buffered input or output, act on the device they were created for, and destroying or disconnecting one leaves the others working.",
 ["histories","schedules"], "every history of create/use/destroy/disconnect over several connections and devices",
 "Tests use one link per connection on one device.",
 ["vxi11/src/server/vxi11/mod.rs","vxi11/src/server/vxi11/core_service.rs","vxi11/src/server/vxi11/abort_service.rs"], [("per-connection link table plus server-wide id allocation", "vxi11/src/server/vxi11")], ["RPC replies", "device command log"])
prop("C17", "VXI-11: written data and read data cross intact",
 "The device receives exactly the concatenation of the data written to a link up to and including each write flagged END, each command once and in order, and each write reports the number of bytes it carried. "
 "Successive reads return the accumulated responses' bytes in order without loss, duplication or reordering; each read returns no more than the requested size and, when a termination character is set, nothing beyond its first occurrence. "
 "The reported reasons are exactly those that apply: END when nothing is left, CHR when the last byte returned is the set termination character, REQCNT when the requested number of bytes was returned.",
 ["inputs","histories"], "every sequence of writes and reads with any sizes, flags, data, termination characters and device responses",
 "Tests do one query with a large read size.",
 ["vxi11/src/server/vxi11/core_service.rs","vxi11/src/common/vxi11/xdr.rs"], [("per-link input and output buffers", "vxi11/src/server/vxi11/core_service.rs")], ["RPC replies", "device command log"])
prop("C18", "VXI-11: locks are enforced on every operation and time-outs are honoured",
 "While one link holds the device lock, write, read, status, trigger, clear, remote and local on other links have no effect on the device and fail with device locked by another link - at once without the wait flag, not before the lock timeout with it - unless the lock is freed in time, in which case they succeed; an operation that failed never takes effect later. "
 "A lock request succeeds exactly when the link then holds the lock, under the same waiting rules; locking twice or unlocking without the lock is an error that changes nothing, and unlock lets a waiting link proceed. "
 "While one link waits, other connections and their links, including link creation, are served normally.",
 ["schedules","histories"], "every history of lock/unlock and operations on up to 6 links over several connections, any flags and timeouts",
 "The test locks and unlocks from two clients sequentially.",
 ["vxi11/src/server/vxi11/core_service.rs",LOCK], [("lock-or-timeout-or-abort selection around each operation", "vxi11/src/server/vxi11/core_service.rs")], ["RPC replies with timing", "device call log"])
prop("C19", "VXI-11: abort cancels the waiting call it is aimed at and nothing else",
 "An abort for a live link is acknowledged and makes that link's call that is waiting for the device or the lock return promptly with the abort error and without effect; a call on any other link is unaffected. "
 "An abort that arrives while the link is idle changes nothing, in particular no later call fails because of it.",
 ["schedules","histories"], "every order of aborts relative to waiting and later calls on several links, for every waiting operation",
 "No test aborts anything.",
 ["vxi11/src/server/vxi11/abort_service.rs","vxi11/src/server/vxi11/core_service.rs"], [("per-link abort channel raced against the wait", "vxi11/src/server/vxi11")], ["RPC replies"])
prop("C20", "VXI-11: service requests go to the links that enabled them, until disabled",
 "After a link enables service requests and an interrupt channel is open on its connection, every announced status produces one interrupt call per enabled link, over the chosen transport (TCP or UDP) to the requested address with the requested program, version and the link's own handle, in announcement order. "
 "After service requests are disabled, the link is destroyed or its connection closes, no further interrupt calls are made for it; enabling again replaces the handle rather than adding a second one. "
 "A second interrupt channel on a connection is refused as already established, destroying a missing one or failing to connect is reported as not established.",
 ["histories","fault_sequences"], "every history of channel and enable/disable operations, announcements, link destruction and disconnects on several links and connections",
 "No test uses the interrupt channel.",
 ["vxi11/src/server/vxi11/core_service.rs","vxi11/src/server/vxi11/intr_client.rs","vxi11/src/server/vxi11/mod.rs"], [("forwarding task per link, cancelled on disable/drop", "vxi11/src/server/vxi11")], ["calls received by an interrupt server"])
prop("C21", "VXI-11: status, trigger, clear and remote/local act once and report truthfully",
 "A status read returns the device's current status byte with the message-available bit set exactly when the link has unread response data. "
 "Trigger, clear, remote and local each reach the device exactly once with the right meaning, clear also empties the link's buffered input and output, and no operation reaches the device in any other way. "
 "An error the device reports (not supported, I/O timeout, I/O error) is returned with its own error code and nothing else is, and low-level commands are reported as unsupported; an operation answered with an error because the device is locked or busy has not reached the device, one answered without an error has.",
 ["histories","inputs"], "every history of these operations mixed with writes and reads on several links, and every device status byte and error",
 "Tests read one status and send one trigger.",
 ["vxi11/src/server/vxi11/core_service.rs","vxi11/src/server/vxi11/mod.rs"], [("one device call per RPC under the device lock", "vxi11/src/server/vxi11/core_service.rs")], ["RPC replies", "device call log"])
prop("C22", "Portmapper server answers queries from its table",
 "For every table, a port query returns the port of the first entry with the same program, version and protocol, or 0 if there is none; the listing returns every entry once, in order; the null procedure returns nothing; other procedures are reported as unavailable; all of it identically over TCP and UDP and for any number of concurrent clients.",
 ["inputs","configurations"], "every mapping table and query, both transports, concurrent clients",
 "Tests run against the system's own portmapper, never against this server.",
 ["vxi11/src/server/portmapper.rs","vxi11/src/common/portmapper/xdr.rs"], [("table lookup and XDR list encoding", "vxi11/src/server/portmapper.rs")], ["RPC replies"])
prop("C23", "Portmapper client returns the server's answer to its own call, or an error",
 "Every client call sends one well-formed call of the right procedure with its arguments and a fresh transaction id, and returns exactly what the reply to that transaction says: the decoded result when accepted, and the matching error for every other status. "
 "Replies to other transactions, stale or duplicate replies and stray calls are never taken for the answer, and truncated or undecodable replies are errors, never made-up values or a crash. "
 "Registering removes an old mapping then adds the new one, reporting failure when the server refuses either, and registering a VXI-11 server announces its core and abort ports over TCP.",
 ["inputs","fault_sequences"], "every reply a server may send (status, order, duplication, truncation, garbage), TCP and UDP",
 "Tests call a well-behaved portmapper.",
 ["vxi11/src/client/portmapper.rs","vxi11/src/common/onc_rpc/mod.rs","vxi11/src/server/vxi11/mod.rs"], [("transaction id, reply decode, status mapping", "vxi11/src/common/onc_rpc/mod.rs")], ["client return values", "calls seen by a scripted server"])
prop("C24", "No network input can crash or stop a server",
 "Whatever bytes, fragments, resets, half-closes and connection attempts peers produce, no server (raw TCP and unix, Telnet, HiSLIP, VXI-11 core and abort, portmapper TCP and UDP) panics, aborts, or stops accepting and serving clients. "
 "Clients connected at the time keep being served correctly.",
 ["inputs","fault_sequences"], "every byte sequence and connection fault; sampled by structure-aware mutation of valid traffic plus all listed corner cases",
 "Tests only send valid traffic.",
 ["raw/src","telnet/src","hislip/src","vxi11/src"], [("per-connection tasks; errors end only the connection", "*/src/server")], ["panic hook", "fresh client after the attack", "bystander client during it"])
prop("C25", "A stalled client delays nobody else",
 "A client that stops reading its responses, stops in the middle of a message, idles, or waits for a lock does not delay operations of other clients of the same server or device that its locks do not exclude, in any protocol, including new connections and sessions.",
 ["fault_sequences","schedules"], "every way and point of stalling in each protocol, within the servers' connection limits",
 "Tests have one well-behaved client at a time.",
 ["raw/src/server/mod.rs","telnet/src/server/mod.rs","hislip/src/server","vxi11/src/server"], [("device guard and shared tables are not held while waiting on a peer", "*/src/server")], ["other clients' operations complete before a generous deadline"])
prop("C26", "One device behind several protocols: locks and commands stay consistent",
 "When several servers (raw, Telnet, HiSLIP, VXI-11) share one device and lock, every command reaches the device whole and exactly once, its response goes only to the client that sent it, and each client's commands keep their order. "
 "A lock taken through HiSLIP or VXI-11, exclusive or shared, keeps the commands, triggers, clears and remote/local changes of all clients of every protocol that it excludes from reaching the device until it is released; those that wait then execute, in order, and those that do not wait are refused without effect.",
 ["schedules","histories"], "every interleaving of clients of all four protocols on one device, with and without locks",
 "Each test starts one server with one protocol.",
 ["device/src/lock.rs","raw/src/server/mod.rs","telnet/src/server/mod.rs","hislip/src/server","vxi11/src/server"], [("all servers go through the same lock handle type", "device/src/lock.rs")], ["device command log with unique tags", "responses per client"])
prop("C27", "XDR values survive encoding and decoding; short data is an error",
 "Every value of the supported types (integers of all widths, booleans, floats, strings, fixed and variable arrays, and the structures built from them) is encoded exactly as RFC 4506 prescribes, zero padded to a multiple of four bytes, and decodes to an equal value. "
 "Decoding data that ends early is always an error, never a shorter or default value.",
 ["inputs"], "every value of each type and every truncation of its encoding, through the public portmapper client's indirect calls and the calls of the VXI-11 and portmapper protocols",
 "Unit tests encode and decode one value per type.",
 ["vxi11/src/common/xdr/basic.rs","vxi11/src/common/vxi11/xdr.rs","vxi11/src/common/portmapper/xdr.rs","vxi11/src/common/onc_rpc/xdr.rs"], [("length-prefixed, padded encodings", "vxi11/src/common/xdr/basic.rs")], ["bytes on the wire", "decoded values"])
prop("C28", "What was served leaves nothing behind",
 "The memory and file descriptors a lock, a status channel or a server of any protocol uses depend on what is connected and buffered at the moment, not on how much was served before: commands, lock waits (also those given up or timed out), status subscribers, connections, sessions, links, service-request subscriptions and interrupt channels that are over leave nothing behind, however they ended and whether or not anything else (an announcement, a lock change, a new connection) happens meanwhile.",
 ["histories"], "any number of repetitions of every operation and of every way a client, session, link or wait can end",
 "A test process ends after a handful of operations, long before growth of a few bytes per command is noticed.",
 [LOCK, "device/src/status.rs", "hislip/src/server/mod.rs", "vxi11/src/server/vxi11/mod.rs", "vxi11/src/server/vxi11/core_service.rs", "raw/src/server/mod.rs", "telnet/src/server/mod.rs"],
 [("listeners, senders, sessions and links are dropped from their tables when their other end is gone", LOCK)], ["bytes allocated (counting allocator)", "open descriptors"])
prop("C29", "Boxed and bundled devices behave as the device itself and as documented",
 "A device handed over in a box - also as a trait object, also boxed twice, also next to devices of other types behind one server of any protocol - is asked exactly what it would be asked unboxed: every command, status read, trigger with its source, clear, remote change and lockout change reaches it once with the same arguments, and its responses, status bytes and errors come back unchanged. EchoDevice answers every command with the command itself, has status 0 and accepts everything. SimpleDevice answers *IDN? with its identification and QUERY? with RESPONSE and EVENT with nothing (in any case of letters, with or without one newline) and any other command with the command reversed; its status byte shows remote (bit 7), triggered since the last clear (bit 6) and cleared before (bit 5), and clones go their own way.",
 ["inputs", "histories"], "every sequence of device operations with any commands, status bytes and errors, on any mix of device types, directly and through all protocols",
 "Tests use one unboxed bundled device with a few fixed commands and look at neither its status nor its errors.",
 ["device/src/lib.rs", "device/src/util.rs", "device/src/trigger.rs"],
 [("blanket Device implementation of boxes", "device/src/lib.rs"), ("bundled devices", "device/src/util.rs")], ["return values of the device trait", "calls seen by the device inside", "responses on the wire"])
prop("C30", "Servers run as configured, at the addresses they were given",
 "Every setting of a server's configuration takes effect on the wire, in whatever order and through whichever constructor it is given (the last value counts), independently of the other settings and of other servers in the process, and what is not set has its default: raw read and write termination (newline), buffer size (never a limit of the length of commands) and client limit (10), telnet client limit (10), HiSLIP vendor id (0xBEEF), message size (1 MiB), overlap preference (on), session limit (64) and short identification (none), VXI-11 core and abort ports (4322, 4323; links report the abort port). Every device added is served under its name with its own lock, one added again under a name replaces the other. A server binds exactly the address and ports it was given (a portmapper both TCP and UDP), start at an address in use ends with an error, disturbs nobody and leaves nothing bound, a VXI-11 server without fixed ports cannot be registered, and a dropped server frees its address for another.",
 ["configurations", "inputs"], "every sequence of builder calls and constructors, any number of servers and devices, free and used addresses",
 "Tests start each server once, mostly with one fixed configuration on a free port.",
 ["raw/src/server/mod.rs", "telnet/src/server/mod.rs", "hislip/src/server/mod.rs", "vxi11/src/server/vxi11/mod.rs", "vxi11/src/server/vxi11/core_service.rs", "vxi11/src/server/vxi11/abort_service.rs", "vxi11/src/server/portmapper.rs"],
 [("configuration builders and accept/bind functions", "*/src/server")], ["bytes on the wire", "listening sockets", "device command log"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
