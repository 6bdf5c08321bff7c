#!/usr/bin/env python3
# Source of /verif/properties.jsonl (one place to edit; run to regenerate).
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mechanism],
            observe_at=list(observe), hook_needed=hook)))

prop("C01", "Events survive the wire unchanged, in the documented format",
 "An event emitted with any non-empty namespace (or none), name and payload bytes is received by the peer with exactly that namespace, name, payload, kind and referenced event id, and with the id the emitter was told. The bytes on the wire are exactly the documented frame layout, so an independent implementation of the format can read them, and frames it writes (including extra trailing header fields and any minor/patch format version) are read correctly. An event that does not fit the format is refused at emission instead of corrupting the connection.",
 ["inputs", "configurations"], "all namespaces, names, payloads (empty, binary, multi-byte UTF-8, up to and beyond the format's length limits), ids, reference ids, event kinds, read chunkings",
 "Tests send four or five short ASCII names with tiny payloads between two copies of the same code, so a symmetric encode/decode mistake, a length limit or a layout change is invisible to them.",
 ["src/events/event.rs", "src/ipc/stream_emitter/event_metadata.rs", "SPECIFICATON.md"],
 [("frame encoder", "src/events/event.rs: Event::into_bytes, EventHeader::into_bytes"), ("frame decoder", "src/events/event.rs: Event::from_async_read, EventHeader::from_read")],
 observe=["bytes on the transport", "fields of the Event given to a handler", "result of an emission"])

prop("C02", "Malformed or hostile input only ever ends its own connection",
 "Whatever bytes a peer sends, the process neither crashes nor allocates memory the peer has not paid for with data, every complete well-formed frame before the first malformed one is handled, and nothing at or after the first malformed frame reaches a handler or a waiting request. The connection that received malformed input stops being served and the other connections keep working. Decoding a corrupt payload yields an error, never a crash.",
 ["inputs", "histories"], "all byte strings a peer can send, including truncated, length-inconsistent, wrong-version, unknown-kind, bad-flag, non-UTF-8 and oversized frames, at every cut point and chunking",
 "Tests only ever feed the decoder frames produced by its own encoder.",
 ["src/events/event.rs", "src/ipc/mod.rs", "src/events/payload.rs", "src/events/error_event.rs"],
 [("frame decoder", "src/events/event.rs: Event::from_async_read, EventHeader::from_read"), ("read loop", "src/ipc/mod.rs: handle_connection"), ("payload decoders", "src/events/payload.rs, src/events/error_event.rs")],
 observe=["handler calls", "request results", "process survival", "end of the connection as seen by the peer"])

prop("C03", "Concurrent emissions reach the wire whole, once each and in order",
 "However many tasks emit concurrently on one connection and however the transport splits or delays writes, the peer reads a sequence of whole frames, each successfully emitted event exactly once and none that was not emitted. Two emissions on one connection of which the first finished before the second began arrive in that order. An emission only reports success once its whole frame has been handed to the transport and flushed.",
 ["schedules", "inputs", "histories"], "all interleavings of emitters on a connection (including handler replies), all partial-write, pending and flush behaviours of the transport, all frame sizes",
 "Tests emit from one task at a time over a transport that accepts every write whole and immediately.",
 ["src/ipc/stream_emitter/emit_metadata.rs", "src/ipc/stream_emitter/mod.rs"],
 [("write lock held across write and flush", "src/ipc/stream_emitter/emit_metadata.rs: Future for EmitMetadata")],
 state=[("stream", "the shared, locked write half of a connection", "src/ipc/stream_emitter/mod.rs: SendStream")],
 observe=["bytes on the transport", "result of an emission"])

prop("C04", "Each event runs exactly the handler registered for its namespace and name",
 "Every received event that is not taken by a waiting request runs exactly one handler exactly once: the one registered for its name in its namespace, or, if it carries no namespace, the one registered globally for its name (the last registration wins). If its namespace is not registered, or no handler is registered there for its name, no handler runs and the event is ignored, except that its emitter still gets the final reply. The rule is the same on servers, clients and pooled clients, and for the built-in error event.",
 ["inputs", "configurations", "histories"], "all handler/namespace registrations, all (namespace, name, kind) of received events, all arrival orders",
 "Tests register the same handlers globally and in one namespace and only send events that have a handler; unknown namespaces, unknown names and look-alike names are never sent.",
 ["src/ipc/mod.rs", "src/events/event_handler.rs", "src/ipc/builder.rs", "src/namespaces/builder.rs", "src/namespaces/namespace.rs"],
 [("dispatch", "src/ipc/mod.rs: handle_connection"), ("lookup", "src/events/event_handler.rs: EventHandler::handle_event")],
 observe=["handler calls"])

prop("C05", "A reply goes to the request it answers and to nobody else",
 "While a request is waiting, every event that references it is given to that request, in arrival order, and to no handler and no other request, no matter how soon it arrives or how many requests are outstanding on the connection or pool. An event that references something else never resolves or disturbs a waiting request, whatever its own id is.",
 ["schedules", "histories", "inputs"], "all sets of outstanding requests, all arrival orders and ids of replies and unrelated events, replies arriving before the emission call has returned",
 "Tests have at most two requests outstanding, with replies produced by one server in the same process (so ids of both sides never collide) and no reply racing with the emission.",
 ["src/ipc/mod.rs", "src/ipc/context.rs", "src/ipc/stream_emitter/emit_metadata_with_response.rs", "src/ipc/stream_emitter/emit_metadata_with_response_stream.rs"],
 [("reply routing", "src/ipc/mod.rs: handle_connection"), ("registration before emission", "src/ipc/stream_emitter/emit_metadata_with_response*.rs")],
 state=[("reply_listeners", "requests waiting for replies, by event id", "src/ipc/context.rs: ReplyListeners")],
 observe=["request results", "handler calls"])

prop("C06", "A reply stream yields every reply in order and ends with the final one",
 "A stream of replies yields every event the peer sent in answer, once each and in the order they were emitted, up to and including the final reply (the handler's response or its failure), and then ends. Waiting longer than the timeout for the next reply yields one timeout error, after which the stream ends. Polling it afterwards is harmless.",
 ["histories", "schedules", "inputs"], "all numbers and interleavings of replies, consumer speeds, several streams at once, handler failure at any point, timeouts at any point",
 "Tests read two streams of 101 replies in lock step, from a handler that never fails and never stalls, and stop reading at the last reply.",
 ["src/ipc/stream_emitter/emit_metadata_with_response_stream.rs", "src/ipc/mod.rs"],
 [("stream state machine", "src/ipc/stream_emitter/emit_metadata_with_response_stream.rs: Stream for ResponseStream"), ("in-order hand-over", "src/ipc/mod.rs: handle_connection")],
 observe=["items of the reply stream"])

prop("C07", "Every handled event is answered by exactly one final reply",
 "For every event a peer sends that is not itself taken by a waiting request (and is not an end event nobody waits for), the receiving side sends exactly one final reply referencing it, after everything its handler emitted: the handler's response payload if it succeeded or had no handler, an error reply with code 500 and the failure's description if it failed. An end event nobody waits for is not answered.",
 ["histories", "schedules", "inputs"], "all handler outcomes, numbers of replies emitted, kinds of received events (new, reply, error), overlapping handler executions",
 "Tests look only at the requester's result of one successful and one failing handler; they never count the frames on the wire.",
 ["src/ipc/mod.rs", "src/events/error_event.rs", "src/events/event_handler.rs"],
 [("final reply", "src/ipc/mod.rs: handle_event"), ("dangling final replies are dropped", "src/ipc/mod.rs: handle_connection")],
 observe=["frames sent by the receiving side"])

prop("C08", "A request resolves exactly once: first reply, the peer's error, or timeout",
 "Waiting for a reply yields the first event that answers the request; if that is an error reply it yields an error carrying the peer's code and message. If nothing answers within the timeout (the request's own, otherwise the configured one, otherwise 60 s) counted from the emission, it yields a timeout error then and not before, and it never hangs.",
 ["histories", "schedules", "configurations"], "all reply kinds and arrival times relative to the timeout, all combinations of default, configured and per-request timeouts, all concurrent requests",
 "Tests have one reply arriving immediately, or one error; no test ever lets a timeout expire.",
 ["src/ipc/stream_emitter/emit_metadata_with_response.rs", "src/ipc/builder.rs", "src/ipc/context.rs"],
 [("reply or timeout", "src/ipc/stream_emitter/emit_metadata_with_response.rs: Future for EmitMetadataWithResponse"), ("default timeout", "src/ipc/builder.rs: IPCBuilder::new, timeout")],
 observe=["request results and their (virtual) time"])

prop("C09", "Finished, timed-out, failed and abandoned requests leave nothing behind",
 "Once a request or reply stream has ended in any way (answered, failed, timed out, emission failed, dropped by its user) the library keeps no state for it: memory use does not grow with the number of past requests. Handled events leave nothing behind either.",
 ["histories"], "all histories of requests by outcome (answered, error, timeout, failed emission, dropped before/after emission, stream read to the end / abandoned)",
 "A leak per request is invisible to tests that make one request and exit.",
 ["src/ipc/stream_emitter/emit_metadata_with_response.rs", "src/ipc/stream_emitter/emit_metadata_with_response_stream.rs", "src/ipc/mod.rs"],
 [("listener removal", "src/ipc/stream_emitter/emit_metadata_with_response.rs: remove_reply_listener")],
 state=[("reply_listeners", "requests waiting for replies, by event id", "src/ipc/context.rs: ReplyListeners")],
 observe=["live heap bytes of the process after N requests of each outcome"])

prop("C10", "A reply nobody waits for is treated as an ordinary event",
 "An event that references a request that is unknown, already answered, timed out or dropped is dispatched like any other received event: by its own namespace and name. An end event (the successful final reply) nobody waits for is ignored: no handler runs and nothing is sent.",
 ["histories", "inputs", "schedules"], "all late, duplicate and unsolicited replies, of every kind, with every namespace/name, after every way a request can end",
 "Tests only have replies that arrive while somebody waits, plus one reply without namespace to an event nobody waited for.",
 ["src/ipc/mod.rs"],
 [("fallback dispatch", "src/ipc/mod.rs: handle_connection")],
 observe=["handler calls", "frames sent"])

prop("C11", "Events emitted by a handler answer the event that invoked it",
 "Everything emitted through the context given to a handler references exactly the event that invoked that handler, even when many handlers run at once on the same connection, and everything emitted through a connection's own context references nothing. A handler may itself wait for answers to what it emitted, to any depth and in both directions, and gets them.",
 ["histories", "schedules"], "all overlaps of handler executions, plain and namespaced emissions, nested requests from handlers on both sides",
 "Tests run one handler at a time whose emissions go to the only outstanding request; no handler ever waits for an answer.",
 ["src/ipc/mod.rs", "src/ipc/context.rs", "src/ipc/stream_emitter/mod.rs"],
 [("per-handler context", "src/ipc/mod.rs: handle_event"), ("reply emission", "src/ipc/context.rs: Context::emit, emit_to")],
 observe=["frames sent", "request results"])

prop("C12", "The encrypted transport is a faithful byte stream",
 "After the handshake, the bytes one side writes and flushes are read by the other side exactly, in order, without loss, duplication or corruption, whatever the sizes of the writes and reads and however the underlying transport splits, delays or blocks data. A read returns data as soon as any is available, flushed data always becomes readable without further activity, and flush and shutdown complete. A truncated transport is reported as an error or end of stream, never as extra data.",
 ["inputs", "schedules"], "all sequences of write/flush/read sizes on both sides, all partial and pending behaviours of the underlying transport",
 "Tests send whole events of two sizes, so every package is exactly one event and no read spans two packages; the transport never splits or blocks.",
 ["src/protocol/encrypted/io_impl.rs", "src/protocol/encrypted/mod.rs"],
 [("read state machine", "src/protocol/encrypted/io_impl.rs: AsyncRead for EncryptedReadStream"), ("write state machine", "src/protocol/encrypted/io_impl.rs: AsyncWrite for EncryptedWriteStream")],
 state=[("remaining / buffer", "decrypted bytes not yet read / plaintext not yet sent", "src/protocol/encrypted/mod.rs")],
 observe=["bytes read", "completion of reads, flushes and shutdown"])

prop("C13", "Tampering with encrypted traffic is detected, never delivered",
 "On an encrypted connection a receiver only ever delivers exactly the sequence of packages its peer sent on this connection in this direction. A modified, replayed, reordered, dropped-and-continued, injected or foreign package yields an error and none of its bytes are delivered.",
 ["fault_sequences", "inputs"], "all attacker manipulations of the package sequence at any position, both directions, before and after the key switch",
 "Tests have no attacker; both ends always see an intact transport.",
 ["src/protocol/encrypted/crypt_handling.rs", "src/protocol/encrypted/io_impl.rs"],
 [("authenticated encryption with counting nonces", "src/protocol/encrypted/crypt_handling.rs: CipherBox"), ("key switch", "src/protocol/encrypted/mod.rs: EncryptedStream::update_key")],
 state=[("en_count / de_count", "nonce counters", "src/protocol/encrypted/crypt_handling.rs: CipherBox")],
 observe=["bytes read", "errors"])

prop("C14", "Only mutually accepted peers establish an encrypted connection",
 "An encrypted connection is established exactly when each side knows the other's public key or allows unknown peers. Otherwise the connection attempt fails on the refusing side, no handler runs for that peer and nothing it sends is delivered. A peer that does not hold the secret matching the public key it presented never gets a usable connection: it can read nothing, and nothing it sends is delivered. A refused, broken or aborted attempt does not stop the server from accepting others.",
 ["configurations", "fault_sequences", "histories"], "all combinations of known keys and allow-unknown settings on both sides, impostors without the secret, attempts cut off at every byte, any order of good and bad attempts",
 "Tests only connect one client whose key is known to a server whose key is known.",
 ["src/protocol/encrypted/crypt_handling.rs", "src/protocol/encrypted/protocol_impl.rs", "src/ipc/server.rs"],
 [("key exchange", "src/protocol/encrypted/crypt_handling.rs: from_server_key_exchange, from_client_key_exchange"), ("accept", "src/protocol/encrypted/protocol_impl.rs: protocol_accept")],
 observe=["result of connecting", "handler calls", "later connections"])

prop("C15", "Secrets stay secret: fresh session keys, no nonce reuse, no plaintext",
 "No application byte and no session key ever crosses an encrypted transport in the clear, every connection uses a fresh session key, and no two packages are ever encrypted with the same key and nonce.",
 ["histories", "schedules"], "all connections between the same peers, all package sequences in both directions",
 "Tests only compare what comes out at the other end; plaintext transport or a constant nonce would pass all of them.",
 ["src/protocol/encrypted/crypt_handling.rs", "src/protocol/encrypted/mod.rs"],
 [("nonce counters", "src/protocol/encrypted/crypt_handling.rs: CipherBox::en_nonce"), ("session key", "src/protocol/encrypted/crypt_handling.rs: generate_secret")],
 observe=["bytes on the underlying transport, decrypted with the configured secrets"])

prop("C16", "Connections of one server are independent of each other",
 "What one connection does (stays silent, floods, sends garbage, closes midway, has failing or panicking or never-ending handlers, stops reading) neither delays nor changes what other connections of the server observe, and the server keeps accepting new ones. Replies and emissions of a handler go only to the connection whose event invoked it, and a reply arriving on one connection never resolves a request made on another.",
 ["histories", "fault_sequences", "schedules"], "all numbers of connections and interleavings of their traffic and failures",
 "Tests have exactly one client per server, which never fails.",
 ["src/ipc/server.rs", "src/ipc/mod.rs"],
 [("task per connection with its own request table", "src/ipc/server.rs: IPCServer::start")],
 observe=["frames and handler calls per connection"])

prop("C17", "A closed or stopped connection handles nothing more and strands nobody",
 "After a connection ended (closed by the peer, malformed input, or stopped by its user) no event received on it is handled, requests still waiting on it end with an error no later than their timeout, and emissions on it fail with an error or are lost but never hang. Stopping may be repeated and does not affect other connections. A stopped client whose contexts are gone, and a server whose peer closed, close the connection.",
 ["histories", "fault_sequences", "crash_points"], "all points at which either side closes or stops: idle, mid-frame, with requests or handlers outstanding, with replies in flight",
 "No test ever closes or stops a connection.",
 ["src/ipc/client.rs", "src/ipc/context.rs", "src/ipc/mod.rs"],
 [("stop signal aborts the read loop", "src/ipc/client.rs: IPCClient::connect; src/ipc/context.rs: Context::stop")],
 observe=["handler calls", "request results", "end of stream seen by the peer"])

prop("C18", "A pool hands out its least used connection and never loses count",
 "A pool of N clients opens N separate connections; acquiring always yields one that currently has the fewest outstanding acquisitions, dropping an acquisition gives it back exactly once, and cloning an acquisition or the pool counts as use until dropped. No count is lost under concurrent acquire, clone and drop. A pool of size zero is refused.",
 ["histories", "schedules"], "all sequences and interleavings of acquire, clone and drop on pools of every size",
 "No test uses a pool.",
 ["src/ipc/context.rs", "src/ipc/builder.rs"],
 [("use count", "src/ipc/context.rs: PoolGuard, PooledContext::acquire")],
 state=[("count", "outstanding acquisitions of a connection", "src/ipc/context.rs: PoolGuard")],
 observe=["which connection an acquired context emits on"])

prop("C19", "Event ids are unique within a process",
 "No two events created by one process carry the same id, whatever thread, connection or kind they belong to and however fast they are created.",
 ["schedules", "histories"], "all interleavings of event creation on any number of threads",
 "Tests create a handful of events on one thread.",
 ["src/events/mod.rs"],
 [("atomic counter in the low bits", "src/events/mod.rs: generate_event_id")],
 observe=["ids of created and received events"])

prop("C20", "Payload wrappers decode to exactly what was encoded",
 "Byte, tandem, error and serde payloads decode to the value that was encoded, tandem halves independently of each other and of their formats; their bytes follow the documented layouts. A serde payload is decoded by the format it announces, whatever the receiver's own default, and a format that is unknown is an error. Context defaults choose the format for plain values and are honoured on clients, pools and servers.",
 ["inputs", "configurations"], "all nestings of payload kinds, all four formats on either side, all byte contents including empty ones",
 "Tests round-trip three values per format inside one process and never use tandem payloads or mixed defaults.",
 ["src/events/payload.rs", "src/events/payload_serializer/mod.rs", "src/events/error_event.rs"],
 [("tandem layout", "src/events/payload.rs: TandemPayload"), ("format byte", "src/events/payload.rs: SerdePayload; src/events/payload_serializer/mod.rs: DynamicSerializer")],
 observe=["payload bytes", "decoded values"])

prop("C21", "All handlers and contexts of a server or client share one data store",
 "Data inserted when building a server or client is visible, as inserted, to every handler on every connection and in every namespace and through every context of that server, client or pool; an update made by one is seen by all later reads, and updates made under the write lock are never lost. Separate servers and clients do not see each other's data.",
 ["schedules", "histories", "configurations"], "all interleavings of reads and updates from handlers on several connections, pools and contexts",
 "Tests share one counter between one client and one server explicitly and read it when everything is idle.",
 ["src/ipc/server.rs", "src/ipc/client.rs", "src/ipc/builder.rs", "src/ipc/context.rs"],
 [("one shared map per server/client/pool", "src/ipc/server.rs: IPCServer::start; src/ipc/builder.rs: build_client, build_pooled_client")],
 observe=["values read by handlers and contexts"])

prop("C22", "Slow consumers and busy handlers do not stall a connection",
 "While handlers of a connection are busy, and while reply streams on it have replies their consumer has not read yet, other events on that connection are still handled and other requests on it are still answered.",
 ["schedules", "histories"], "all numbers of busy handlers and undrained streams and of replies waiting in them",
 "Tests read all streams at the same pace and have one handler at a time.",
 ["src/ipc/mod.rs", "src/ipc/context.rs"],
 [("handlers run in their own task", "src/ipc/mod.rs: handle_event"), ("buffered hand-over to streams", "src/ipc/context.rs: register_reply_listener")],
 observe=["handler calls", "request results"])

prop("C23", "Dropping an emission or request at any point leaves the connection intact",
 "An emission, request or reply stream may be dropped at any moment: its event is then on the wire whole or not at all, and later emissions and requests on the connection behave as if it had completed or had never been made.",
 ["crash_points", "schedules", "histories"], "all points at which a pending emission, request or stream read can be dropped, under all partial-write behaviours of the transport, with other emissions queued",
 "No test drops a pending future.",
 ["src/ipc/stream_emitter/emit_metadata.rs", "src/ipc/stream_emitter/emit_metadata_with_response.rs", "src/ipc/stream_emitter/emit_metadata_with_response_stream.rs"],
 [("frame write", "src/ipc/stream_emitter/emit_metadata.rs: Future for EmitMetadata")],
 observe=["bytes on the transport", "later results"])

prop("C24", "TCP, Unix-socket and encrypted transports behave alike",
 "Over TCP, Unix sockets and either of them encrypted, building a server and clients works with the given address and options, and the same sequence of emissions, requests and streams (small and large, both directions) has the same outcome. Building without an address, binding an address in use and connecting where nobody listens are reported as errors.",
 ["configurations", "inputs"], "all transports, payload sizes beyond socket buffers, several clients, pools, both directions of traffic",
 "The real transports are not run by any test; all tests use an in-memory listener.",
 ["src/protocol/tcp.rs", "src/protocol/unix_socket.rs", "src/protocol/encrypted/protocol_impl.rs", "src/ipc/builder.rs", "src/ipc/server.rs", "src/ipc/client.rs"],
 [("transport traits", "src/protocol/mod.rs"), ("builder validation", "src/ipc/builder.rs: validate")],
 observe=["handler calls", "request results", "results of building"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
