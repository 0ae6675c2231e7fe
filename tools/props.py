#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (kept as code so that the lines stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or []
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("W01", "Incoming frames are decoded exactly as RFC 6455 encodes them",
 "For every frame a client can encode (any header bits, type, masking key, payload length in any of the three length forms, any position in the receive buffer), the server recovers exactly the encoded header fields, length and unmasked payload and continues right behind the frame. A frame of which some bytes have not arrived yet is recognised as incomplete, whatever the cut, and no byte outside the received data is ever read.",
 ["inputs"], "all 65536 first header byte pairs; every payload length up to a bound and around every length-form boundary; every masking-key byte position; every truncation point; every SIMD variant compiled for this machine",
 "the unit tests decode about a dozen fixed frames of five lengths; off-by-one errors at vector-width multiples, length-form boundaries or truncation points lie between them",
 ["src/frame.c", "include/frame.h"],
 [("frame parser", "src/frame.c:WSS_parse_frame"), ("vectorised unmasking", "src/frame.c:unmask")],
 observe=["the decoded frame and the advanced offset", "memory accesses outside the buffer"])

prop("W02", "Outgoing messages are framed losslessly and in canonical form",
 "A message of any type and length handed to the server for sending is written as consecutive unmasked frames, none longer than the configured frame size, the first carrying the type, the others continuing it, only the last one final, and each length in its shortest form. The payloads concatenated are byte for byte the message; a close message carries its two-byte status code followed by exactly the reason that was given.",
 ["inputs", "configurations"], "every message length up to a bound times every frame size up to a bound, lengths around 125/126/65535/65536, every type, every close reason length",
 "the tests frame a handful of messages with one frame size; the quantifier is over lengths and sizes and their remainders",
 ["src/frame.c", "src/message.c"],
 [("splitting into frames", "src/frame.c:WSS_create_frames"), ("serialising", "src/frame.c:WSS_stringify_frame, WSS_stringify_frames"), ("close frames", "src/frame.c:WSS_closing_frame")],
 observe=["the serialised bytes"])

prop("W03", "How TCP splits a client's bytes never changes what the server does",
 "For a given sequence of bytes sent by a client after the upgrade, the messages delivered to the application, the bytes sent back and the decision to close the connection are the same however the bytes are cut into segments and however short the individual reads are. Interrupted reads count as no read at all.",
 ["inputs", "histories", "fault_sequences"], "every cut of bounded frame streams into segments with all positions of up to a bounded number of cuts, every short-read pattern up to a bound, an interrupted read at every read, several receive-buffer sizes",
 "no existing test feeds a connection at all; a live test sees one segmentation",
 ["src/worker.c", "src/frame.c", "src/session.c"],
 [("read loop and saved partial payload", "src/worker.c:WSS_read"), ("incomplete frame detection", "src/frame.c:WSS_parse_frame")],
 [("payload/offset/frames of a session", "bytes and frames kept until the rest arrives", "include/session.h")],
 ["messages delivered to a subprotocol", "bytes written to the socket", "connection close"])

prop("W04", "Every frame sequence gets the outcome RFC 6455 prescribes",
 "For every sequence of client frames, the application receives exactly the complete messages of the valid prefix, reassembled, in order and with the right type, each exactly once. At the first frame that violates the protocol (unmasked, reserved bits without an extension, unknown type, fragmented or oversized control frame, continuation without a start, new message inside an unfinished one, malformed close) the server sends one close frame with the status code for that violation, delivers nothing sent after it, and closes the connection.",
 ["inputs", "histories"], "all frame sequences up to a bounded length over an alphabet of valid and invalid frames (type x fin x reserved bits x mask x length class x close payload), delivered together or one by one",
 "the tests never run the connection state machine; the sequences that mix fragments, control frames and errors number in the hundreds of thousands",
 ["src/worker.c"],
 [("frame validation and message assembly", "src/worker.c:WSS_read"), ("close code selection", "src/frame.c:WSS_closing_frame")],
 observe=["messages delivered to a subprotocol", "bytes written to the socket", "connection close"])

prop("W05", "Text is delivered if and only if it is valid UTF-8",
 "A text message reaches the application exactly when the concatenation of its fragments is valid UTF-8 as defined by Unicode (no overlong forms, surrogates, or values above U+10FFFF); otherwise the connection is closed with status 1007 and nothing of it is delivered. The same holds for the reason of a close frame; binary messages are never inspected.",
 ["inputs"], "all byte strings up to length 4 over the boundary bytes of every UTF-8 range and all strings of up to 3 arbitrary bytes, at every alignment in a longer text, in every split into fragments",
 "no test exercises the validator; it is a table-driven automaton with a vectorised fast path, wrong in single cells or alignments only",
 ["src/utf8.c", "src/worker.c"],
 [("UTF-8 validator", "src/utf8.c:utf8_check"), ("text check on assembled messages and close reasons", "src/worker.c:WSS_read")],
 observe=["validator verdict", "messages delivered", "close code"])

prop("W06", "Pings are answered and the closing handshake completes exactly once",
 "Every ping gets exactly one pong with an identical payload, in the order of the pings, also while a fragmented message is under way; pongs are absorbed. A client's close frame is answered with exactly one close frame carrying the same status code, messages received before it are still delivered and answered, nothing is delivered or sent after it, and then the server closes the socket and tells the application about it exactly once.",
 ["inputs", "histories"], "all sequences up to a bounded length over data frames, fragments, pings of several payload lengths, pongs and close frames with every class of status code, in every order and grouping of arrival",
 "no test drives ping, pong or close through a connection",
 ["src/worker.c", "src/frame.c", "src/message.c"],
 [("ping to pong conversion", "src/frame.c:WSS_pong_frame"), ("close echo", "src/worker.c:WSS_read, WSS_write"), ("disconnect", "src/worker.c:WSS_disconnect")],
 observe=["bytes written to the socket", "application close notifications", "socket close"])

prop("W07", "A socket carries the queued messages intact whatever each write accepts",
 "The bytes a client receives are always a prefix of the exact concatenation of the messages queued for it (a message for which the queue has no room is left out as a whole), in queue order, and once the client keeps reading they become all of it. This holds however little each write accepts, whenever the socket is temporarily full or a write is interrupted, and whether the message was sent by the client's own request or by another connection.",
 ["histories", "fault_sequences", "schedules"], "every placement of a bounded number of short, refused or interrupted writes (every accepted length) in bounded exchanges of echo and cross-connection messages, including close frames and handshake responses",
 "needs a socket that accepts part of a message at a chosen point; no test has one",
 ["src/worker.c", "src/message.c", "src/ringbuf.c"],
 [("draining the queue, remembering the partial write", "src/worker.c:WSS_write"), ("waiting for writability", "src/worker.c:WSS_work; src/message.c")],
 [("written", "bytes of the first queued message already sent", "include/session.h")],
 ["bytes received by the client", "poll registration"])

prop("W08", "The upgrade succeeds exactly for valid WebSocket requests",
 "A request is answered with 101 if and only if it is a well-formed HTTP/1.1 GET that asks for the upgrade (Upgrade and Connection headers), offers a supported version, and carries one key that decodes to 16 bytes; the accept value is then the base64 SHA-1 of the key and the protocol's fixed string. Every other request gets the error status for its defect, never a connection that reaches the application.",
 ["inputs"], "all combinations of request lines and header variants (missing, empty, duplicated, case-changed, wrong value, extra whitespace, list values) of a request grammar, every key in a bounded family, every permutation of header order for small requests",
 "the tests send around 60 fixed headers, without the response side; the interactions of missing, empty and duplicate headers are combinatorial",
 ["src/header.c", "src/worker.c", "src/b64.c", "src/sha1.c"],
 [("request parsing", "src/header.c:WSS_parse_header"), ("upgrade validation", "src/header.c:WSS_upgrade_header"), ("accept key and response", "src/worker.c:handshake_response")],
 observe=["status line and headers of the response", "connections announced to the application"])

prop("W09", "Host, origin, path and query restrictions admit exactly what is configured",
 "With hosts, origins, paths or queries configured, only requests whose host, origin and request target are in the configured sets are upgraded, and all of those are; others are refused (400, 403 and 404 respectively). With nothing configured in a category, that category restricts nothing.",
 ["inputs", "configurations"], "all small configurations of the four lists times all request targets, hosts and origins from a family that includes prefixes, suffixes, supersets, case changes, ports, absolute targets and missing headers",
 "the tests check a few allowed and refused values against one configuration",
 ["src/header.c", "src/http.c", "src/str.c"],
 [("request target pattern", "src/http.c:generate_request_uri"), ("allow lists", "src/header.c:WSS_upgrade_header")],
 observe=["status of the response"])

prop("W10", "Every HTTP answer is well formed and requests may arrive in any pieces",
 "Whatever the request, what the server sends before or instead of the upgrade is one well-formed HTTP/1.1 response: status line, CRLF-terminated headers, an empty line, and a body of exactly the announced length, with nothing after it. A request split across any number of segments and short reads gets the same answer as the same request in one piece.",
 ["inputs", "histories"], "every response kind (101, 400, 403, 404, 405, 413, 414, 426, 431, 501, 505, favicon) times every cut of the request into two or three segments and short-read patterns",
 "no test looks at response bytes or feeds a request in pieces",
 ["src/worker.c", "src/header.c", "src/httpstatuscodes.c"],
 [("response builders", "src/worker.c:http_response, upgrade_response, handshake_response, favicon_response"), ("request reading", "src/worker.c:handshake")],
 observe=["bytes written to the socket"])

prop("W11", "No byte sequence from a client can crash the server or corrupt its memory",
 "Whatever bytes clients send, before or after the upgrade, the server never reads or writes outside its memory objects, never uses freed memory, never dereferences an invalid pointer, and keeps serving other clients. The offending client at worst gets an error answer or is disconnected.",
 ["inputs", "histories"], "all requests assembled from a bounded number of header lines and malformed fragments of a hostile alphabet, all byte strings up to a bounded length after the upgrade, followed each time by a healthy client that must be served",
 "crashes hide behind unusual combinations (an empty header value, a lone carriage return, a zero-length frame); tests sample a few",
 ["src/header.c", "src/worker.c", "src/frame.c", "extensions/permessage-deflate/permessage-deflate.c"],
 [("request parsing", "src/header.c:WSS_parse_header"), ("frame parsing", "src/frame.c:WSS_parse_frame")],
 observe=["address sanitizer verdict", "answer to a healthy client"])

prop("W12", "Subprotocol and extension negotiation only ever agrees on what was offered",
 "The subprotocol of a connection is the first one in the client's list that the server has, or the default when there is none, and the response names exactly the subprotocol that was agreed. An extension is accepted at most once per connection and only with parameters that are valid and compatible with the client's offer (window sizes not larger than offered, no client window parameter unless offered); an invalid or unknown offer is declined without affecting the other offers, the connection, or other connections.",
 ["inputs", "histories"], "all lists of up to three offers over valid and invalid parameter combinations (each parameter absent, present, duplicated, without value, out of range), split over one or more header lines; all lists of up to three known and unknown subprotocol names",
 "a few offers are tested and mostly for being parsed; the declined ones run through separate code",
 ["src/header.c", "extensions/permessage-deflate/permessage-deflate.c", "src/subprotocols.c", "src/extensions.c", "src/worker.c"],
 [("offer parsing", "src/header.c:WSS_parse_header"), ("parameter validation", "permessage-deflate.c:onOpen, parse_param, negotiate"), ("response", "src/worker.c:handshake_response")],
 observe=["Sec-WebSocket-Extensions and Sec-WebSocket-Protocol of the response", "which application module is notified", "later connections are still served"])

prop("W13", "Compression is transparent in both directions",
 "With permessage-deflate negotiated under any accepted parameters, the application receives exactly the messages the client compressed, whatever their content, fragmentation and compression settings within the agreement, and a client that decompresses with the agreed parameters recovers exactly what the application sent. Uncompressed messages may be mixed in, and connections never influence one another; undecodable input ends in the connection being closed, not in wrong data being delivered.",
 ["inputs", "histories", "configurations"], "all negotiated parameter combinations times all sequences of up to a bounded number of messages from a family of sizes and contents (empty, one byte, repetitive, incompressible, longer than internal chunks), compressed and uncompressed, in every fragmentation into up to three frames",
 "the tests only check that frames come back changed; context takeover and flushing across message sequences are never exercised",
 ["extensions/permessage-deflate/permessage-deflate.c", "src/worker.c", "src/message.c"],
 [("inflate on input", "permessage-deflate.c:inFrames"), ("deflate on output", "permessage-deflate.c:outFrames")],
 observe=["messages delivered to a subprotocol", "frames received and inflated by a reference client"])

prop("W14", "Configured size limits are enforced exactly",
 "A frame whose payload exceeds the configured maximum, or a message with more frames than allowed, is refused with close status 1009 and never delivered, while everything up to the limits is accepted. A request whose headers, target or body exceed their configured limits is refused with the matching error status, while requests within all limits are not refused for size.",
 ["inputs", "configurations"], "all payload lengths and frame counts around several configured limits, in one piece or spread over reads; all header, target and body sizes around their limits",
 "the boundary between accepted and refused is a single length in each dimension and configuration",
 ["src/worker.c", "src/header.c"],
 [("frame size and count checks", "src/worker.c:WSS_read"), ("request size checks", "src/header.c:WSS_parse_header; src/worker.c:handshake")],
 observe=["close status", "HTTP status", "messages delivered"])

prop("W15", "The message queue never loses, duplicates, overwrites or reorders entries",
 "With any number of threads queueing messages concurrently with the one that drains them, every message that was accepted is drained exactly once, never before it is complete and never overwritten while pending, and messages of one thread come out in the order they were put in. When the queue is full, or more threads use it than it was set up for, queueing is refused and nothing is damaged; space that was drained can be used again.",
 ["schedules", "histories"], "every interleaving at memory-operation granularity of two and three producers and one consumer over small queues, up to a preemption bound, through wrap-around; every sequential history of acquire, produce, consume and release up to a bounded depth",
 "no test touches the queue; its faults need particular interleavings of a lock-free algorithm",
 ["src/ringbuf.c", "include/ringbuf_utils.h"],
 [("lock-free producer side", "src/ringbuf.c:ringbuf_acquire, ringbuf_produce, register_worker"), ("consumer side", "src/ringbuf.c:ringbuf_consume, ringbuf_release")],
 [("next/end/written/seen_off", "producer and consumer positions", "src/ringbuf.c")],
 ["offsets handed out and drained", "data races on the slots"])

prop("W16", "The worker pool runs every accepted task exactly once and shuts down cleanly",
 "Under every schedule of submitting and working threads, each task the pool accepted is run exactly once, in order of acceptance when there is one worker, and a task refused because the queue is full or the pool is shutting down is never run. A graceful shutdown runs everything accepted before it and then ends all workers; an immediate shutdown ends them after their current task; no schedule leaves a worker or the caller waiting forever, and a finished or refused operation leaves no lock behind.",
 ["schedules", "histories"], "every interleaving, up to a preemption bound, of one or two submitters, one to three workers and a shutdown over queues of one to three entries; every choice of which waiting thread a wake-up reaches, and spurious wake-ups",
 "no test creates a pool; lost wake-ups and double runs need particular schedules",
 ["src/pool.c"],
 [("queue and condition variable", "src/pool.c:threadpool_add, threadpool_thread"), ("shutdown", "src/pool.c:threadpool_destroy")],
 observe=["which tasks ran", "return values", "termination of all threads"])

prop("W17", "No readiness event of any connection is ever lost",
 "Whenever a client has connected, sent data, become writable again while output is pending, or gone away, the server eventually acts on it, under every interleaving of the event loop and the workers and also when the task queue is temporarily full. After serving an event the server is always registered for the next one unless it closed the connection.",
 ["schedules", "histories", "fault_sequences"], "every interleaving, up to a preemption bound, of client actions with the event loop and workers under edge-triggered one-shot semantics; queue-full answers at every submission up to a bound; failing accepts and interrupted waits at every call",
 "a lost event shows as a hang under one schedule; no test runs the event loop",
 ["src/event.c", "src/worker.c"],
 [("event delegation and retries", "src/event.c:WSS_poll_delegate, WSS_add_to_threadpool"), ("re-arming", "src/worker.c:WSS_work"), ("accept loop", "src/worker.c:WSS_connect")],
 observe=["every client action is eventually answered"])

prop("W18", "A connection is torn down exactly once and never while in use",
 "However closing by the client, by the server, by time-out and sending by other connections overlap, each connection is announced to the application once, reported closed exactly once, its descriptor is closed exactly once, and its memory is never used after being released. A message is never written to a descriptor that has been reused for another connection.",
 ["schedules", "histories"], "every interleaving, up to a preemption bound, of two or three connections that send to each other, hang up, send close frames, and are replaced by new connections on the same descriptor number",
 "needs the removal of a connection to fall between two steps of another thread",
 ["src/session.c", "src/worker.c", "src/message.c", "src/server.c"],
 [("job counting and disconnect flag", "src/session.c"), ("disconnect", "src/worker.c:WSS_disconnect")],
 [("sessions", "table of live connections", "src/session.c")],
 ["application notifications", "descriptor closes", "use of freed memory"])

prop("W19", "Connections that message each other can never deadlock the server",
 "No combination of connections sending to each other, to all, or to themselves at the same time, while connecting or while closing, leaves the server waiting forever: every worker finishes its task and every client is eventually answered.",
 ["schedules"], "every interleaving, up to a preemption bound, of two and three connections broadcasting simultaneously, with connects and disconnects in between, on two and three workers",
 "a deadlock needs two messages to be handled at the same instant",
 ["src/worker.c", "src/message.c", "subprotocols/broadcast/broadcast.c"],
 [("per-connection locks", "src/worker.c:WSS_work; src/message.c:WSS_message_send_frames"), ("client table lock", "subprotocols/broadcast/broadcast.c")],
 observe=["termination of every task"])

prop("W20", "A broadcast reaches every other connected client exactly once and in order",
 "Each message sent to the broadcast service is received exactly once, unaltered and with its type, by every other client connected to the service throughout whose queue of outgoing messages has room, never by its sender and never by clients of other services. Two messages of one sender arrive in the order they were sent, at every receiver.",
 ["schedules", "histories"], "every interleaving, up to a preemption bound, of broadcasts from up to three clients with clients joining and leaving; all sequential histories of join, leave and send up to a bounded depth",
 "no test runs the service",
 ["subprotocols/broadcast/broadcast.c", "src/message.c"],
 [("client table", "broadcast.c:onConnect, onClose"), ("fan-out", "broadcast.c:onMessage; src/message.c:WSS_message_send")],
 observe=["bytes received by each client"])

prop("W21", "One stalled or slow client never blocks the others",
 "Whatever state a client is left in (an unfinished request, frame or fragmented message, or not reading its output), other clients keep being served, messages between them keep flowing, and the stalled client can still be disconnected. Messages addressed to the stalled client are delivered if it resumes.",
 ["histories", "schedules"], "every stall point of a client's byte stream and output window times every kind of activity of the other clients, with one and two workers",
 "needs a client stuck in the middle of something while others are active",
 ["src/message.c", "src/worker.c"],
 [("sending to another connection", "src/message.c:WSS_message_send_frames"), ("resumable reads and writes", "src/worker.c:WSS_read, WSS_write")],
 observe=["answers to the other clients within bounded waiting"])

prop("W22", "Idle clients are pinged, silent ones dropped, active ones left alone",
 "A client is disconnected for inactivity only after the configured time has passed since the server last heard from it, and a client to which nothing but pings is sent and which stays silent for that time is disconnected soon after, whether or not it completed the upgrade, with the application notified once if it did. In between an upgraded client receives the configured number of pings; pings never break into a partially sent message, and time-outs are disabled by the documented setting.",
 ["histories", "schedules", "configurations"], "all histories up to a bounded length of client activity and elapsed time steps around the time-out boundaries, for several settings of time-out and ping count, with full sockets at the moment of a ping",
 "time-outs take from a minute to an hour in reality; no test runs them",
 ["src/server.c", "src/worker.c"],
 [("cleanup thread", "src/server.c:WSS_cleanup, cleanup_session"), ("activity stamp", "src/worker.c:WSS_work")],
 observe=["pings and close frames received", "disconnects and their times"])

prop("W23", "Shutting the server down ends everything cleanly",
 "Once asked to stop, whatever clients are connected and whatever is in progress, the server stops accepting, ends all its threads, reports every open connection closed to the application exactly once, releases all descriptors and memory, and returns.",
 ["schedules", "histories"], "a stop request at every step of bounded client histories, and every interleaving of it, up to a preemption bound, with the event loop, workers and cleanup",
 "no test starts or stops the server",
 ["src/server.c", "src/http.c", "src/pool.c", "src/session.c"],
 [("interrupt and joins", "src/server.c:WSS_server_start, WSS_server_interrupt"), ("freeing", "src/http.c:WSS_http_server_free; src/session.c:WSS_session_delete_all")],
 observe=["return of the server", "application notifications", "open descriptors and live memory"])

prop("W24", "A configuration is loaded completely and faithfully, or refused",
 "Every documented setting in a configuration file ends up, unaltered, in the setting it names and no other, whatever the order and combination of settings, and settings that are absent keep their defaults. A missing, unreadable or malformed file, or a value of the wrong type, is refused or ignored without a crash and without touching other settings, and everything loaded is released exactly once.",
 ["inputs", "configurations"], "all subsets and orders up to a bound of the documented settings, each with values of every JSON type and boundary numbers; every truncation and every single-byte corruption of a complete file",
 "the tests load two files",
 ["src/config.c", "src/json.c", "src/str.c"],
 [("configuration loader", "src/config.c:WSS_config_load, WSS_config_free")],
 observe=["resulting settings", "error code", "memory errors and leaks"])

prop("W25", "Everything a connection used is released when it ends",
 "After a connection has ended, in whatever way and at whatever point of its life (refused request, unfinished request, protocol error, unfinished frame or message, undelivered output, normal close), the server holds no more memory, descriptors, registrations or extension state than before it began.",
 ["histories", "inputs"], "all connection histories of the other explorations, ended at every point, with the live allocations compared before and after",
 "a leak shows only as growth over many connections; no test measures it",
 ["src/worker.c", "src/session.c", "src/header.c", "src/frame.c", "src/message.c", "extensions/permessage-deflate/permessage-deflate.c"],
 [("session release", "src/session.c:session_delete"), ("header release", "src/header.c:WSS_free_header")],
 observe=["live allocations and descriptors at quiescence"])

prop("W26", "Running out of memory costs at most the connection that hit it",
 "If any single memory allocation fails while clients are being served, the server neither crashes nor hangs nor corrupts memory; at worst the affected connection is refused or closed, and afterwards other and new clients are served as usual.",
 ["fault_sequences"], "a failure of each allocation in turn (every call index) of bounded scenarios covering connect, upgrade with and without compression, messages, fragments, broadcast, close and time-out",
 "failing allocations cannot be provoked from the tests",
 ["src/worker.c", "src/session.c", "src/header.c", "src/frame.c", "src/message.c", "extensions/permessage-deflate/permessage-deflate.c", "subprotocols/broadcast/broadcast.c"],
 [("allocation failure branches", "all users of WSS_malloc and WSS_realloc")],
 observe=["crash, hang, or refusal", "answers to healthy clients afterwards"])

prop("W27", "TLS connections behave like plain ones whatever the TLS layer asks for",
 "Over TLS, a client gets exactly the messages and answers it would get over a plain connection, whenever the TLS layer reports that it needs to read or write first, accepts or returns only part of the data, or fails; a failing TLS connection is closed once and harms no other.",
 ["histories", "fault_sequences"], "every placement of a bounded number of want-read, want-write, partial and error results in the TLS handshake, reads, writes and shutdown of bounded exchanges, against a stand-in TLS library",
 "no test opens a TLS connection",
 ["src/ssl.c", "src/worker.c", "src/session.c"],
 [("TLS handshake, read, write, shutdown", "src/ssl.c"), ("resuming", "src/worker.c:WSS_work")],
 observe=["messages delivered", "bytes received by the client", "connection close"])

prop("W28", "The application is told the truth about every connection",
 "When a connection is announced to a subprotocol, the address, port, path with query, and cookies it is told are those of that client and of its request, for every address family, target and cookie header; the descriptor it is told is the one under which that client's messages arrive and to which messages for that client are sent.",
 ["inputs", "configurations"], "all combinations of address family (IPv4 and IPv6), request target, cookie headers and configured restrictions of bounded lists, for each of several connections in turn",
 "no test accepts a connection",
 ["src/socket.c", "src/session.c", "src/worker.c", "src/header.c"],
 [("accepting", "src/worker.c:WSS_connect"), ("announcing", "src/worker.c:handshake, subprotocol connect callback")],
 observe=["arguments of the subprotocol's connect callback"])

prop("W29", "Extensions and subprotocols are used as their interface says",
 "Every complete plug-in that is configured is set up exactly once, with its own configuration and the memory functions, before anything else of it is called, is available to clients under the name of its file, and is destroyed and unloaded exactly once at the end; an incomplete or missing one is left out without being called and without harm to others. An extension is asked for each offer in the client's order with the offer's parameters, is named in the answer exactly if it accepted, then sees every message of that connection exactly once, in frames that make up a message, is applied to outgoing messages in the order of the answer and to incoming ones in the reverse order, sees nothing that is not sent, and is closed exactly once per connection it was opened for.",
 ["configurations", "histories", "inputs"], "all selections and orders of test extensions in an offer, with parameters, refusals, repetitions and unknown names; all incomplete plug-ins at every place of the configuration; plans of messages and fragments around every length border, on one and two connections; connections ended at every step; outgoing queues that fill up",
 "the tests load the delivered plug-ins but never use one on a connection, nor several extensions together",
 ["src/extensions.c", "src/subprotocols.c", "src/header.c", "src/worker.c", "src/message.c", "src/session.c"],
 [("loading", "src/extensions.c:WSS_load_extensions; src/subprotocols.c:WSS_load_subprotocols"), ("incoming", "src/worker.c:WSS_read"), ("outgoing", "src/message.c:WSS_message_send_frames"), ("opening and closing", "src/header.c:WSS_parse_header; src/session.c:session_delete")],
 observe=["calls that the plug-ins get", "answer to the upgrade", "bytes of the messages on the wire"])

prop("W30", "Read and write time-outs end exactly the connections that exceed them",
 "A client that leaves a request, frame or message unfinished is disconnected once it lets more than the configured read time-out pass between two parts of it, and one that does not take pending output once more than the write time-out has passed; a client that stays within the time-outs, or that merely rests between messages, is never disconnected by them and loses nothing. Time-outs that are switched off (-1) end nobody.",
 ["histories", "configurations"], "all pauses around the configured time-outs at every position of bounded client histories (parts of requests, frames, fragmented messages, output taken in steps), for several settings of both time-outs including none",
 "the time-outs take seconds of wall-clock time; no test runs them against a server",
 ["src/worker.c", "src/server.c", "src/session.c"],
 [("read and write time-outs", "src/worker.c:WSS_work, WSS_read, WSS_write"), ("settings", "src/config.c")],
 observe=["disconnects", "messages delivered and answered"])

prop("W31", "TLS is served with the configured credentials and limits, or not at all",
 "When TLS is configured, every connection to the TLS port is served with the configured certificate, key, trust anchors, cipher lists, Diffie-Hellman parameters and options and with nothing older or laxer than documented; when one of them cannot be used, the server refuses to start instead of serving with something else, and everything it set up for TLS is released exactly once.",
 ["configurations", "fault_sequences"], "all combinations of the TLS settings, with each call to the TLS library failing in turn, against a stand-in library that records what the context was told",
 "no test sets up TLS",
 ["src/ssl.c", "src/http.c", "src/server.c", "src/config.c"],
 [("context", "src/ssl.c:WSS_http_ssl"), ("start-up", "src/server.c:WSS_server_start")],
 observe=["what the TLS context was told", "refusal to start", "contexts and parameters released"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
