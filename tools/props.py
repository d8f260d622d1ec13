#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the wording)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

prop("C01", "Wire messages round-trip with the documented header layout",
 "For every command, method of 1 to 127 bytes, payload, error flag, async flag and sequence number, the frame put on the wire has the documented little-endian header layout, its body is exactly the method followed by the payload, and the peer that reads the frame sees the same command, flags, sequence number, method and payload. Changing any one header attribute (command, stream bits, error, async, reserved flag bit, sequence) leaves every other attribute and the payload unchanged.",
 ["inputs"], "all commands, flag combinations, 64-bit sequence numbers, method and payload contents",
 "Tests build a handful of messages; the guarantee is over all values of every header field and all byte contents.",
 ["proto.go", "handler.go", "util/util.go"],
 [("message constructor and field accessors", "proto.go"), ("frame reader", "handler.go Recv")],
 observe=["bytes given to Conn.Write", "accessors of a received message"])

prop("C02", "Frame reassembly does not depend on how the byte stream is split",
 "However the transport splits or coalesces the bytes of consecutive frames over reads, with batch receive on or off, the receiver obtains exactly the frames that were sent, in order and with identical content. A stream that ends or fails in the middle of a frame yields an error and never a message for that frame.",
 ["inputs", "fault_sequences"], "all frame contents, all splits of the stream into reads, all truncation points",
 "Loopback tests see whole frames per read; short reads, reads across frame boundaries and truncation at every offset are not reached.",
 ["handler.go", "proto.go", "client.go"],
 [("frame reader", "handler.go Recv"), ("reader set-up", "client.go initReader")])

prop("C03", "Frames longer than the configured body limit are refused",
 "For every declared body length and every configured maximum, a frame is accepted if and only if its declared body length does not exceed the maximum; a frame that exceeds it is refused with an error before a buffer for it is allocated or its body is read.",
 ["inputs", "configurations"], "all 32-bit declared lengths and all configured maxima",
 "A test can try a few lengths; the boundary and the 32-bit extremes need every value.",
 ["proto.go", "handler.go"],
 [("length check in front of the allocation", "proto.go Header.message")])

prop("C04", "Malformed or hostile inbound frames are contained",
 "Whatever bytes a peer puts in a frame, the process does not crash, no method handler runs for a frame whose method length is zero, above 127 or beyond the frame, and a handler that does run sees the method and payload that are in the frame. After any frame with a known command the next well-formed request on the connection is still served, and a frame with an unknown command (and an acceptable method length) closes that connection.",
 ["inputs", "histories"], "all frame headers and bodies within the length bound",
 "Tests only ever receive frames produced by the library itself.",
 ["handler.go", "proto.go", "client.go", "stream.go"],
 [("method length check, command switch, recovery", "handler.go OnMessage")])

prop("C05", "Requests reach exactly the registered handler chain, in order",
 "For every sequence of handler and middleware registrations and every incoming method, exactly the middlewares and the handler that apply to that method run, each once, in registration order; once any route or middleware is registered, an unregistered method runs the not-found chain and a request for it is answered with a method-not-found error. After a chain member aborts, no later member runs.",
 ["programs", "inputs"], "all short registration sequences (middleware before/after routes, not-found handler), all methods, every abort position, sync and async routes",
 "Tests register one fixed arrangement of middlewares and routes.",
 ["handler.go", "context.go"],
 [("route table and middleware splicing", "handler.go Use/handle"), ("chain stepping", "context.go Next/Abort")])

prop("C06", "A response mirrors its request; notifications are never answered",
 "Each response a handler writes carries the request's sequence number, method and async flag, the response command, and the handler's value; its error flag is set exactly when the value is an error or was given as an error, and the caller then gets an error with the same text. Answering a notification returns an error and puts nothing on the wire.",
 ["inputs", "configurations"], "all sequence numbers, methods, async flags and payloads; value, error and nil responses; queued and direct write modes",
 "Tests check a few happy-path responses over TCP; they do not vary header fields or write modes.",
 ["context.go", "client.go", "proto.go"],
 [("response construction", "context.go write/writeDirectly"), ("response parsing", "client.go parseResponse")])

prop("C07", "A call only ever completes with the response to its own request",
 "With any number of outstanding calls and any order, duplication, delay or forgery of responses, a call that succeeds returns the payload of a response bearing its own sequence number, and each outstanding call whose response arrives in time gets it. Unmatched, late or repeated responses disturb no other call and never stop the client from receiving further messages.",
 ["schedules", "histories", "inputs"], "all arrival orders and sequence numbers of responses, all interleavings of callers, reader and timers",
 "Tests issue calls one at a time against a well-behaved server.",
 ["client.go", "handler.go"],
 [("sequence allocation and session table", "client.go"), ("response dispatch", "handler.go OnMessage")])

prop("C08", "Every blocking call terminates with its outcome",
 "Each blocking call returns: with the response, or with a timeout error once its timer or context fires, or with an error once the client is stopped or the connection is lost, whatever the interleaving; with an unlimited context it still returns after a stop or disconnect (with asynchronous writing off, provided the transport's own write returns). A call on a stopped or reconnecting client fails at once, and calls with invalid method or timeout are rejected without sending anything.",
 ["schedules", "fault_sequences"], "all interleavings of caller, sender, reader, timer, disconnect and stop, in queued and direct write modes",
 "Tests rely on wall-clock sleeps and one interleaving.",
 ["client.go"],
 [("select on session, timer and close", "client.go Call/CallContext"), ("session clearing on disconnect", "client.go clearSession/closeAndClean")])

prop("C09", "An accepted asynchronous call invokes its callback exactly once",
 "If an asynchronous call is accepted (returns nil), its callback runs exactly once, with its own response, or with a timeout error, or with an error after a disconnect or stop, whatever the interleaving of response, timer, queueing and connection loss. The callback never runs more than once.",
 ["schedules", "fault_sequences"], "all interleavings of several pending asynchronous calls with responses, timers, disconnect and reconnect",
 "The race between response, timer and connection loss cannot be forced by a test; tests observe one order.",
 ["client.go", "handler.go"],
 [("async handler table, removal before invocation", "client.go getAndDeleteAsyncHandler/clearAsyncHandler"), ("timer callback", "client.go CallAsync")])

prop("C10", "Accepted outgoing messages are written once, whole, in order",
 "Messages accepted for sending on a connection are written as complete frames in the order in which they were queued, each exactly once, with every registered coder applied once in registration order, for every queue size, send buffer size, batch setting and pooling setting, as long as the connection is up.",
 ["schedules", "configurations", "inputs"], "all message contents, batch sizes, queue states and interleavings of senders with the send loop",
 "Batching only happens under load with a non-default buffer size, which the tests never configure.",
 ["client.go", "handler.go", "allocator.go"],
 [("send loops", "client.go normalSendLoop/batchSendLoop")])

prop("C11", "Pooled messages and buffers are never recycled while in use",
 "With pooling enabled, a message or its buffer is returned to the pool at most once and only when no sender, receiver, handler or queue still uses it, so that no two live messages ever share memory and no message changes under its user, for calls, notifications, responses, streams, broadcasts and pub/sub deliveries.",
 ["schedules", "histories"], "all interleavings of the above operations with pooling on",
 "No test enables the pool.",
 ["proto.go", "client.go", "handler.go", "server.go", "allocator.go", "extension/pubsub/topic.go"],
 [("reference count", "proto.go Retain/Release"), ("done hooks", "handler.go EnablePool")])

prop("C12", "The buffer allocator returns correct, non-overlapping buffers",
 "For every sequence of allocate, grow, append and free and every pool size configuration, a returned buffer has exactly the requested length, grown and appended buffers keep their previous content followed by the appended bytes, and no two buffers that are in use share memory.",
 ["histories", "inputs", "configurations"], "all operation sequences and sizes within bounds around the pool thresholds",
 "The allocator has no tests.",
 ["allocator.go"],
 [("two size classes with recycling", "allocator.go BufferPool")])

prop("C13", "Streams deliver every item once, in order, then end",
 "On a stream, the receiver gets every item sent (any value with a non-empty encoding), once and in order, and after the sender's close every further receive reports end of stream; streams with different identities or opposite initiators never receive each other's items. Sending after closing fails, receiving never panics, and a blocked receive returns when the stream ends, the client stops, its context ends, or the connection is lost (provided the connection's other streams are being drained: a full one holds up the connection).",
 ["schedules", "inputs", "histories"], "all item contents, interleavings of sender, reader and receiver, close orders",
 "There are no stream tests.",
 ["stream.go", "handler.go", "client.go"],
 [("stream tables and per-stream queue", "stream.go, client.go getStreamAndPushMsg"), ("stream dispatch", "handler.go OnMessage")])

prop("C14", "Server load accounting is exact and the load limit is never exceeded",
 "At any time the number of connections being served does not exceed the configured maximum, a connection above it is closed without being served, and the current load equals the number of live connections; when a connection ends for any reason (peer close, protocol violation, local stop, also from inside a handler) it is removed from the server, its load is released and its disconnect callback runs exactly once.",
 ["schedules", "histories", "fault_sequences"], "all orders of connects, disconnects and stops, all interleavings of the accept loop with connection goroutines",
 "Tests only exercise the counters directly and one connection at a time.",
 ["server.go", "client.go"],
 [("accept loop", "server.go runLoop"), ("clean-up on disconnect", "client.go closeAndClean")])

prop("C15", "Stop is final and reconnection is bounded and clean",
 "After a client is stopped it does not stay or become connected, processes no further messages apart from the one it is already handling, and its disconnect callback runs exactly once, whatever the moment of the stop. After a connection loss an unstopped client redials at most the configured number of times, fails what was pending, and after a successful redial new calls work on the new connection.",
 ["schedules", "fault_sequences"], "all moments of connection loss, dial success or failure, and stop",
 "Tests use real time and never stop a client inside its redial window.",
 ["client.go"],
 [("receive and redial loop", "client.go recvLoop"), ("stop", "client.go Stop/closeAndClean")])

prop("C16", "Pub/sub delivers to exactly the authorised current subscribers",
 "A publication is delivered exactly once to each connection that is subscribed to that topic at that time (and whose send queue has room) and to no other; publish-to-one delivers to exactly one of them if any. Without presenting the server's password a connection can neither subscribe, unsubscribe, publish nor receive, and after unsubscribing or disconnecting a connection gets nothing more for the topic, whatever the sequence of authentications, subscriptions and publications. A subscriber's handler that panics does not stop later deliveries, and after a reconnect the client authenticates and subscribes again by itself.",
 ["histories", "inputs"], "all short operation sequences over several connections and topics, all passwords",
 "The single pub/sub test has one topic, one subscriber, one publisher and the right password.",
 ["extension/pubsub/server.go", "extension/pubsub/topic.go", "extension/pubsub/client.go"],
 [("per-connection topic table and per-topic client set", "extension/pubsub/server.go"), ("fan-out", "extension/pubsub/topic.go")])

prop("C17", "Topic payloads survive encoding; malformed topics are refused",
 "For every topic name of 1 to 1024 bytes, payload and time stamp, subscribers see the same name, payload and time stamp that were published, and the publisher's own data is not modified. Arbitrary bytes sent as a topic are either decoded consistently or refused with an error response, never by a panic.",
 ["inputs"], "all names, payloads (including payload slices with spare capacity) and all byte strings within bounds",
 "The test publishes short literal strings.",
 ["extension/pubsub/topic.go", "extension/pubsub/server.go"],
 [("topic trailer encoding", "extension/pubsub/topic.go toBytes/fromBytes")])

prop("C18", "Coder middlewares are transparent",
 "For every message and value, what the receiving handler sees after the coders (value appender, gzip compressor, or both) is the message as it was before them, including attached values; a value that cannot be attached leaves the message as it was, and malformed coded input never crashes the receiver.",
 ["inputs", "configurations"], "all message contents and attached values within bounds, coder stacks of up to two",
 "The coders have no tests.",
 ["extension/middleware/coder/appender.go", "extension/middleware/coder/gzip/gzip.go", "handler.go", "client.go"],
 [("appender", "extension/middleware/coder/appender.go"), ("gzip coder", "extension/middleware/coder/gzip/gzip.go"), ("reverse decode order", "handler.go OnMessage")])

prop("C19", "Cloned handlers are independent of their original",
 "A cloned handler starts with the same settings, routes, middlewares and coders as its original, and any later change to one is never visible in the behaviour of the other.",
 ["programs"], "all short sequences of settings and registrations on either side",
 "The clone test compares two fields.",
 ["handler.go"],
 [("deep copy", "handler.go Clone")])

prop("C20", "Pools of clients hand out a usable client whenever there is one",
 "For every client pool of one or more members and every combination of healthy and unhealthy ones, the next client taken is healthy if any member is, also for concurrent callers, healthy members are taken in rotation, and indexed access is total; a pool whose construction fails leaves no connection open.",
 ["configurations", "histories", "fault_sequences"], "all health patterns and rotation positions of pools up to the bound, dial failure at every position",
 "Tests use a pool of healthy members.",
 ["client.go"],
 [("round robin with health check", "client.go ClientPool.Next")])

prop("C21", "Service lookup returns only live nodes of the named service, by weight",
 "After any sequence of node additions and removals, lookup of a service returns a usable client of a node currently registered under that name, distinguishes unknown from unreachable services, visits nodes in proportion to their weights, also for concurrent lookups; the connection of a removed or superseded node is stopped, and adding an address that is already registered keeps the first registration and stops the new connection.",
 ["histories", "inputs"], "all short sequences of additions (with weights, reachable or not) and removals",
 "The micro package has no tests.",
 ["extension/micro/service.go"],
 [("weighted node list", "extension/micro/service.go")])

prop("C22", "The split listener hands every accepted connection to exactly one side",
 "Every accepted connection is handed to exactly one of the two listeners, side A never has more than its configured number of connections online, side B gets a connection only when A is full, and after close pending accepts end with an error and no connection that nobody accepted is left open.",
 ["histories", "fault_sequences"], "all orders of accepts, departures, temporary errors and close",
 "The listener has no tests.",
 ["extension/listener/listener.go"],
 [("online counter and two queues", "extension/listener/listener.go Run")])

prop("C23", "The WebSocket connection adapter is a faithful byte stream",
 "Reading through the adapter with any sequence of buffer sizes yields exactly the concatenation of the received messages' bytes, in order, and each write is sent as one binary message with exactly those bytes; errors are reported and never turned into data; several goroutines may write at once, as with any net.Conn. The listener hands every upgraded connection to one accept; once it is closed, accepts end with an error and connections nobody accepted are closed.",
 ["inputs", "fault_sequences", "schedules"], "all message contents and lengths and all read buffer sizes within bounds, all interleavings of up to three writers",
 "The adapter's only test fails to connect in this environment and uses one message size.",
 ["extension/protocol/websocket/websocket.go"],
 [("leftover buffer", "extension/protocol/websocket/websocket.go Read")])

prop("C24", "Graceful shutdown refuses new requests and waits for running ones",
 "Once shutdown has begun, a newly arriving request is answered with the shutting-down error and its handler does not run; shutdown returns only after every request that had started has finished, also by a panic. The recovery and logging middlewares leave requests, their handlers and their answers as they are.",
 ["schedules"], "all interleavings of requests with the shutdown call",
 "The router middlewares have no tests.",
 ["extension/middleware/router/graceful.go"],
 [("shutdown flag and wait group", "extension/middleware/router/graceful.go")])

prop("C25", "Values convert to bytes and back without loss or aliasing surprises",
 "Byte slices, strings, errors and pointers to them convert to exactly their bytes, and converting bytes back (call results, stream items) yields an equal value that does not share memory with the source buffer; any other value is exactly what the configured codec produces, and a codec that cannot decode is reported as an error. What was accepted for sending does not change when the caller reuses its value.",
 ["inputs"], "all contents and all supported dynamic types",
 "Tests use one literal per type.",
 ["util/util.go", "client.go", "context.go"],
 [("type switch", "util/util.go ValueToBytes/BytesToValue")])

prop("C26", "Broadcast reaches every selected connected client exactly once",
 "A broadcast hands each currently connected client that passes the filter exactly one notification with the given method and payload, and no other client any; a client whose queue is full or which is stopped neither blocks the broadcast nor affects the others, and a non-blocking push never blocks.",
 ["histories", "configurations"], "all subsets selected by the filter, all queue states and client states within bounds",
 "No test broadcasts.",
 ["server.go", "client.go"],
 [("client set and retain/release", "server.go Broadcast"), ("non-blocking push", "client.go PushMsg")])

prop("C27", "Requests over HTTP are answered in the same HTTP exchange",
 "Every HTTP body that is a request frame for a registered method runs its handler exactly once, and the HTTP reply body is exactly the handler's response frame, complete before the HTTP handler returns, whatever the write, response and pooling settings of the arpc handler; a notification runs its handler and is answered with an empty body. A body that cannot be read is refused and runs nothing, and no body, however malformed, crashes the process or disturbs later requests.",
 ["inputs", "configurations", "schedules"], "all sequence numbers, flags and payloads, all bodies of up to 18 bytes, all settings, two concurrent requests",
 "The HTTP adapter has no tests.",
 ["extension/arpchttp/handler.go", "handler.go", "context.go", "client.go"],
 [("reply through the response writer", "extension/arpchttp/handler.go Handler")])

prop("C28", "Stopping a server ends it and every connection it serves",
 "Whenever Stop or Shutdown is called (also twice, from a handler, or while connections arrive, requests run or Accept fails), Serve returns, every connection the server accepted is closed and released with its disconnect callback run once, the load returns to zero and nothing is accepted afterwards. Shutdown returns nil only once the accept loop has ended, and the timeout error when its context ends first. A temporary accept error is survived; any other ends the service with that error. A stopped server can serve again on another listener.",
 ["schedules", "histories", "faults"], "all interleavings of the stop with arriving connections, requests, peer closes, other stops and accept errors, within bounds",
 "Tests stop servers at quiet moments only.",
 ["server.go", "client.go"],
 [("accept loop and its end", "server.go runLoop, Stop, Shutdown, clearClients")])

prop("C29", "Panics in user code are contained",
 "A panic (any value, also a run-time error) in a method handler, middleware, not-found handler, stream handler, connect or disconnect callback, or in the callback of an asynchronous call run for a response, a timeout or a lost connection, does not end the process, keeps other requests, streams, callbacks and connections served, sends nothing that was not written before it, and leaves the load and the connection set of the server and the reconnection of the client intact.",
 ["schedules", "configurations", "inputs"], "every place a panic can occur, kinds of panic, synchronous and asynchronous handlers, write and receive modes",
 "Tests have no panicking user code outside one handler.",
 ["handler.go", "client.go", "server.go", "util/util.go"],
 [("recovery around user code", "handler.go OnMessage, AsyncExecute; client.go CallAsync, recvLoop; server.go runLoop")])

prop("C30", "Time limits, hooks and keep-alive apply to every message",
 "With a read timeout, a peer that falls silent (between frames or inside one) is disconnected when the timeout has passed since the last frame began to be awaited, and one that keeps sending in time never is; with a write timeout, a connection or call stuck in a write is ended when the timeout has passed, and each write gets a fresh limit; without them nobody is. The send and receive hooks see every write and every message, and when one fails nothing is written or handled and the connection ends. Each ping is answered by exactly one pong, neither reaches a handler, and keep-alive pings once per interval until the client is stopped, also across reconnections.",
 ["histories", "configurations", "inputs"], "all sequences of up to 3 messages with gaps below, at and beyond the limits, all settings, all ping and pong frames with up to 2 body bytes",
 "No test sets a timeout or a hook, or lets keep-alive run.",
 ["handler.go", "client.go"],
 [("deadlines and hooks", "handler.go Recv, Send, SendN"), ("ping, pong, keep-alive", "client.go Ping, Pong, Keepalive; handler.go OnMessage")])

prop("C31", "Registration and discovery keep lookups in step with the registry",
 "From a successful registration until it is stopped, the service's entry (name, address, weight or value) is in the Redis or etcd registry and does not expire, also when an earlier run left an entry behind or a renewal fails in between, and once Stop has succeeded the entry does not come back, whatever renewal is under way; a registration that did not happen, also because the key is taken, is reported as an error, and of two rival registrations of one etcd key exactly one succeeds. Discovery keeps the nodes it hands to the service manager equal to the live, well-formed entries of its namespace, with their weights, whatever changes at whatever moment, also while it starts; entries that stay live are not interrupted; a registry request that fails changes no node, and fails NewDiscovery; after Stop it follows no further change.",
 ["histories", "schedules", "faults", "inputs"], "registry contents (entries live, expired, malformed, absent, expiry time symbolic) before each refresh, failing requests, timing parameters, changes racing the start, renewals racing Stop, rival registrations",
 "The micro package has no tests; the examples need a Redis or etcd server.",
 ["extension/micro/redis/register.go", "extension/micro/redis/discovery.go", "extension/micro/etcd/register.go", "extension/micro/etcd/discovery.go", "extension/micro/service.go"],
 [("redis registration", "extension/micro/redis/register.go"), ("redis discovery", "extension/micro/redis/discovery.go"), ("etcd registration", "extension/micro/etcd/register.go"), ("etcd discovery", "extension/micro/etcd/discovery.go")])

prop("C32", "A restarted client starts afresh and leaves nothing of the old run behind",
 "Whenever a client is restarted (fresh, connected, stopped, after or during a connection loss, from a handler or the disconnect callback, next to a stop or another restart), Restart returns nil once a newly dialled connection is in use, and then calls, notifications and incoming messages work on that connection alone, each handled or written once and in order; the old connection is closed, what was pending on it ends with an error, and the disconnect callback runs exactly once for each run. A restart whose dial fails says so and leaves the client stopped, and it can be restarted again; a restarted client that loses its connection redials as before.",
 ["schedules", "histories", "faults"], "all interleavings of the restart with the old receive and send loops, redialling, user code, a stop and a second restart; write and batch settings; failing dials",
 "The tests restart a client and make one call on one CPU, because on several they race.",
 ["client.go", "handler.go"],
 [("restart", "client.go Restart"), ("receive loop and its hand-over", "client.go recvLoop, recvMessages"), ("send loop", "client.go sendLoop")])

prop("C33", "The QUIC adapter behaves as net.Listener and net.Conn",
 "Bytes written at one end of a connection made by Dial and Accept are read unchanged and in order at the other, and after a close the peer reads all that was written and then the end. Closing a connection ends its own blocked reads and writes, and later ones fail; deadlines and addresses are those of the connection. Each connection whose peer speaks is handed to exactly one Accept; a peer that says nothing or breaks off keeps no other from being accepted and does not end the listener. Closing the listener ends pending and later accepts with an error and closes the connections nobody accepted. A Listen or Dial that fails says so, a Dial keeps to its time limit, and leaves nothing open. An arpc server and client over it work as over TCP.",
 ["schedules", "inputs", "faults"], "bytes and read sizes; all interleavings of dialling, speaking, breaking off, accepting and closing; failing and blocking steps of a dial",
 "The tests make one call over one connection whose peer speaks at once.",
 ["extension/protocol/quic/quic.go"],
 [("listener", "extension/protocol/quic/quic.go Listen, Accept"), ("connection", "extension/protocol/quic/quic.go Conn"), ("dial", "extension/protocol/quic/quic.go Dial")])

with open(os.path.join(HERE, "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
