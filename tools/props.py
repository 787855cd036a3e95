#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run it to regenerate)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(text.split())),
        why_tests_cant=" ".join(why.split()),
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None)))

p("C01", "A single-target RPC runs on at most one server, once",
"""For every single-target RPC call, the service handler is executed at most once over all servers registered for that
method and topic, whether the call succeeds, fails, times out or is canceled, and however the messages of concurrent calls,
servers and clients interleave. When the call returns a handler's result, exactly one server executed the handler for that
call and the returned result is the one that execution produced. A server that offered itself for a request but was not chosen never
executes the handler for it.""",
["schedules", "histories", "configurations"],
"all interleavings of calls, claims, claim responses and responses of any number of clients and servers; queue, affinity and single-server methods; local, Redis and NATS buses; calls that succeed, time out or are canceled at any point",
"the tests run one client against one or two servers on one schedule; a second execution or a wrong winner needs particular overlaps of claims, cancellations and deadlines",
["pkg/client/rpc.go", "pkg/server/rpc.go", "internal/bus/bus_local.go", "internal/bus/bus_redis.go", "internal/bus/bus_nats.go"],
[("claim request / claim response handshake", "pkg/server/rpc.go claimRequest, pkg/client/rpc.go selectServer"), ("queue subscription of the request channel", "pkg/server/rpc.go newRPCHandler")],
[("pending claims", "requests waiting for the client's decision on this server", "pkg/server/rpc.go")], ["service handler entry", "client call return"])

p("C02", "Server selection follows the affinity contract",
"""A server with negative affinity for a request never offers itself and never handles it; a server below the caller's minimum
affinity is never selected; when selection is by score, the selected server has the highest positive affinity among the
offers that reached the client before the decision. The decision is taken at once for the first acceptable offer when accepting the
first available server or when an offer reaches the maximum affinity, otherwise at the short-circuit delay after the first acceptable offer or at
the affinity timeout, whichever is first. A caller-supplied selection function is given every acceptable offer received by then and exactly its
choice (or error) is honoured; with no acceptable offer the call fails with an 'unavailable' error and no handler runs.""".replace("the affinity contract;", "the affinity contract;"),
["schedules", "inputs", "configurations"],
"all affinity vectors, selection options and arrival orders and times of offers, for RPCs and stream opens",
"the tests use fixed affinities in one arrival order; the rule must hold for every order and timing of offers against the two timers",
["pkg/client/rpc.go", "pkg/client/options.go", "pkg/client/stream.go", "pkg/server/rpc.go", "pkg/server/stream.go"],
[("server selection loop", "pkg/client/rpc.go selectServer"), ("defaults for selection options", "pkg/client/options.go getRequestOpts"), ("affinity evaluation", "pkg/server/rpc.go claimRequest, pkg/server/stream.go claimRequest")],
[], ["claim requests and claim responses on the bus", "handler entry", "call return"])

p("C03", "Every call gets the response to its own request, intact",
"""Every call that returns a response returns the response its own request produced: never one belonging to another call,
client, method, topic or service, and never one delivered twice or late to a later call. The request the handler sees and the response the caller sees are equal,
field for field and byte for byte, to what was passed in, for any message content and size. Client identities and method definitions shared by many concurrent
calls do not mix.""",
["schedules", "inputs", "histories"],
"any number of concurrent calls over any mix of clients, methods and topics with duplicated, delayed or stale responses; any message content",
"the tests send small fixed messages, mostly one at a time",
["pkg/client/client.go", "pkg/client/rpc.go", "pkg/server/rpc.go", "internal/bus/serialization.go"],
[("request ids and per-request response channels", "pkg/client/client.go, pkg/client/rpc.go"), ("payload (de)serialisation", "internal/bus/serialization.go")],
[("response routing table", "in-flight request id -> waiting call", "pkg/client/client.go")], ["call arguments and results", "handler arguments and results"])

p("C04", "A multi-RPC yields each server's answer once, then closes on time",
"""A multi-RPC is executed exactly once by every server registered for the method and topic when it was sent, and its result channel carries
exactly one entry for each server that answers before the call's deadline, with that server's own result or error, as long as the caller reads. The result channel is closed exactly once, at
the deadline or cancellation of the call and not before, whether or not the caller reads it, and nothing is delivered
after. Whatever happens to one multi-RPC (unread results, too many answers, late answers, cancellation) other calls of the same client still complete.""",
["schedules", "histories", "configurations"],
"any number of servers, answer times around the deadline, channel sizes, readers that stop reading, cancellations at any point",
"the tests read a handful of prompt answers; abandonment, late answers and more answers than buffer space are never combined",
["pkg/client/multi.go", "pkg/client/client.go", "pkg/server/rpc.go"],
[("per-call response loop with timer", "pkg/client/multi.go handleResponses"), ("removal from the routing table on close", "pkg/client/multi.go Close")],
[], ["result channel of the call", "handler entry on every server"])

p("C05", "Deadlines bound the caller and the server",
"""Every RPC, multi-RPC and stream open returns (or closes its result channel) no later than the earliest of its request timeout, the client's
default timeout and the caller's context deadline, and promptly on cancellation, with a deadline-exceeded respectively canceled error. A server never starts a handler for a
request that has already expired on arrival, and the handler's context carries a deadline no later than the moment the caller gives up.
An answer that reaches the caller before that moment is returned, not dropped.""",
["schedules", "inputs", "configurations"],
"all combinations of timeouts, context deadlines, cancellation instants, bus latencies and handler durations",
"the tests check one or two fixed timeouts in real time",
["pkg/client/rpc.go", "pkg/client/multi.go", "pkg/client/stream.go", "pkg/client/options.go", "pkg/server/rpc.go", "pkg/server/stream.go"],
[("timeout resolution", "pkg/client/options.go getRequestOpts"), ("expiry on the wire", "pkg/client/rpc.go newRPC, pkg/client/multi.go Send, pkg/client/stream.go OpenStream"), ("expiry check and handler deadline", "pkg/server/rpc.go run/handleRequest")],
[], ["call start/return times (virtual clock)", "handler context deadline", "request expiry on the bus"])

p("C06", "An error raised by a handler reaches the caller as raised",
"""If a handler fails, the caller's call fails, never succeeds, whatever the error: the caller sees the same code, message and
details for a coded error (also when it is wrapped), the equivalent code, message and details for a gRPC status error, and 'unknown' with the same message for
any other error. The mapping of every code to HTTP, gRPC and Twirp statuses is total and fixed, converting a gRPC code to an error code and back is the identity, and
the original error stays reachable through standard unwrapping on the side that created it. Errors generated by the library itself (timeout, cancellation, no response, closed, unimplemented, malformed) carry their
documented codes.""",
["inputs"],
"all codes (also unknown ones), messages (empty, long, non-ASCII, invalid UTF-8), details, wrappings and error kinds; RPCs, multi-RPCs and stream closes",
"the tests check two or three fixed errors",
["errors.go", "pkg/server/rpc.go", "pkg/client/rpc.go", "pkg/client/multi.go", "internal/stream/stream.go"],
[("error encoding in responses", "pkg/server/rpc.go sendResponse"), ("decoding", "errors.go NewErrorFromResponse"), ("mapping tables", "errors.go")],
[], ["error returned by the handler", "error returned by the call"])

p("C07", "Stream messages arrive once, in order, and acknowledged means received",
"""On every stream, in each direction, the messages delivered to the receiver are a subsequence of those sent, in the sender's order, each delivered at
most once and unchanged. A send that reports success has been handed to the receiver's channel; a send that cannot be delivered (receiver too slow, stream closed, timeout) reports an
error. Messages of concurrent streams never mix.""",
["schedules", "histories", "inputs"],
"any number of concurrent streams and senders in both directions, buffer sizes, slow receivers, closes and timeouts at any point",
"the tests exchange a few messages on one stream",
["internal/stream/stream.go", "pkg/client/stream.go", "pkg/server/stream.go", "pkg/client/client.go"],
[("per-message acknowledgement", "internal/stream/stream.go Send/HandleStream/Ack"), ("in-order dispatch", "pkg/server/stream.go run, pkg/client/stream.go runClientStream")],
[("pending acks", "messages awaiting acknowledgement", "internal/stream/stream.go")], ["Send call/return", "receive channel"])

p("C08", "Closing a stream ends it on both sides, once, with the cause",
"""When either side closes a stream, or its handler returns, or its caller's context ends, or the client or server is closed, then on both sides the
receive channel is closed, the stream's context is canceled, Err reports the (first) cause with its code and message, and later sends fail with it. This takes effect
without panic or deadlock for any combination of concurrent sends, receives and closes, and messages delivered before the close stay readable. After both
sides are closed neither keeps any state for the stream.""",
["schedules", "histories"],
"closes by both sides, contexts, handler returns, client/server shutdowns, at any point relative to opens, sends, acks and each other",
"the tests close from one side at quiescence",
["internal/stream/stream.go", "pkg/client/stream.go", "pkg/server/stream.go"],
[("close protocol and pending accounting", "internal/stream/stream.go Close/HandleStream/addPending"), ("context watcher", "pkg/client/stream.go runClientStream")],
[("closed flag, error and pending counter", "stream life-cycle", "internal/stream/stream.go")], ["Channel, Context, Err, Send on both sides"])

p("C09", "Opening a stream connects to exactly one server or leaves nothing behind",
"""A successful stream open connects the client to exactly one server's handler, which was started once for it and sees the opener's metadata. If the open fails or is abandoned,
no stream is returned and every server handler that was started for it is ended promptly, and no trace of the attempt remains on client or server. A closed client
refuses to open streams, and a server that is shutting down accepts none.""",
["schedules", "histories", "fault_sequences"],
"opens racing with cancellation, timeouts, server shutdown, lost or delayed messages; any number of servers",
"the tests open one stream on an idle system",
["pkg/client/stream.go", "pkg/server/stream.go"],
[("open handshake: claim, claim response, ack", "pkg/client/stream.go OpenStream, pkg/server/stream.go handleOpenRequest"), ("draining flag", "pkg/server/stream.go close")],
[("open streams", "server-side table of live streams", "pkg/server/stream.go")], ["stream handler entry/exit", "OpenStream return"])

p("C10", "Every subscriber receives every update, once and in order",
"""Every update published on a broadcast subscription while a subscriber is subscribed and keeps reading is delivered to it exactly once, unchanged, and in
the order in which one publisher published it. Subscribing, closing or not reading by one subscriber never loses, duplicates or reorders another's updates; in particular updates resume once a stalled subscriber reads or closes.
Nothing is delivered before subscribing or after the subscription's channel is closed, and closing it always closes the channel.""",
["schedules", "histories", "configurations"],
"any number of publishers, subscribers and topics joining and leaving at any time; local, Redis and NATS buses; any channel size",
"the tests publish a few updates to two subscribers that never leave",
["internal/bus/bus_local.go", "internal/bus/bus_redis.go", "internal/bus/bus_nats.go", "internal/bus/subscription.go", "pkg/client/subscription.go"],
[("subscriber lists and dispatch", "internal/bus/*"), ("typed subscription pump", "internal/bus/subscription.go")],
[("subscriber lists", "current subscribers per channel", "internal/bus/bus_local.go, bus_redis.go, bus_nats.go")], ["Publish call", "subscription channel"])

p("C11", "A queued update is processed by exactly one subscriber",
"""Every (distinct) update published on a queue subscription is delivered to exactly one of the subscribers that are subscribed and reading at that time, unchanged, and never to two.
Subscribers share the work: with several idle subscribers attached to one local bus, consecutive updates go to different subscribers in turn, and a subscriber that has left receives nothing. Leaving and joining subscribers do
not lose updates published while others stay subscribed.""",
["schedules", "histories", "configurations"],
"any number of queue subscribers joining and leaving on one or several processes, any number of publishers; local, Redis and NATS buses",
"the tests use two fixed subscribers",
["internal/bus/bus_local.go", "internal/bus/bus_redis.go", "internal/bus/bus_nats.go"],
[("round-robin dispatch", "internal/bus/bus_local.go dispatch, bus_redis.go dispatchQueue"), ("message lock", "internal/bus/bus_redis.go read"), ("NATS queue groups", "internal/bus/bus_nats.go")],
[], ["Publish call", "subscription channels"])

p("C12", "Messages reach only their own service, method, topic and client",
"""A request, update, stream message, claim or response is only ever delivered to handlers and subscribers of the very service, method and topic (list) it was addressed to, and to the very client or
server it was meant for. Different addresses never share a channel name, for any services and methods (identifiers), client ids and topics made of non-empty valid UTF-8
parts, including parts containing separators, escape look-alikes or non-ASCII characters, and the same address always yields the same name, on every call and from concurrent callers. The names are those of the
published wire format, so that processes of different versions interoperate.""",
["inputs", "schedules"],
"all service/method/topic/client-id tuples over an adversarial alphabet; concurrent formatting; all kinds of traffic at once on all buses",
"the tests compare a few fixed names",
["pkg/info/channels.go", "pkg/info/info.go", "internal/bus/bus_nats.go"],
[("channel name construction and escaping", "pkg/info/channels.go"), ("per-method demultiplexing on a shared NATS subject", "internal/bus/bus_nats.go natsRouter")],
[], ["channel names", "delivered messages"])

p("C13", "Registration of handlers is exclusive, complete and reversible",
"""At any time at most one handler is registered per method and topic of a server: of concurrent or repeated registrations of the same one exactly one succeeds and the others fail without effect. A successful registration
serves requests until it is deregistered or the server closes, a deregistered one serves none and can be registered again, and deregistering what is not registered does nothing. Registering a
group is all-or-nothing, registration on a closed server fails, and a failed registration leaves no subscription behind.""",
["schedules", "histories", "fault_sequences"],
"all sequences and overlaps of register, deregister, group registration and close, with subscribe failures injected",
"the tests register sequentially and check one duplicate",
["pkg/server/server.go", "pkg/server/registration.go", "pkg/server/rpc.go", "pkg/server/stream.go"],
[("handler table", "pkg/server/server.go"), ("group registration with rollback", "pkg/server/registration.go")],
[("handler table", "registered handlers by method and topic", "pkg/server/server.go")], ["register/deregister results", "bus subscriptions held", "requests served"])

p("C14", "Graceful shutdown finishes accepted work; kill does not wait",
"""A graceful shutdown stops taking new requests, lets every handler that was started run to the end and delivers its response, and returns only when none is running any more; no RPC handler starts
after it has returned. A kill returns without waiting for handlers, also while a graceful shutdown is in progress. Shutdown always terminates once handlers have, may be called
any number of times from any goroutine, waits without consuming the processor, and leaves neither subscriptions nor goroutines of the server behind.""",
["schedules", "histories"],
"shutdown or kill at any point relative to arriving, claimed and running requests, registrations and other shutdowns",
"the tests shut down idle servers or sleep around one request",
["pkg/server/server.go", "pkg/server/rpc.go", "pkg/server/stream.go"],
[("in-flight accounting", "pkg/server/rpc.go handleRequest/close"), ("shutdown fuse and active handlers", "pkg/server/server.go Close")],
[("in-flight counter", "requests being handled", "pkg/server/rpc.go")], ["handler entry/exit", "Shutdown/Kill return"])

p("C15", "A client keeps working under any traffic and stops cleanly",
"""No message addressed to a client (late, duplicate, excess or unexpected claims, responses and stream messages, or messages for calls that are over) can stop
it from completing other and later calls, whatever its channel size and however many servers answer. After every call, stream and subscription has ended, the client holds no trace of it. A closed client
refuses new calls with its 'client closed' error, releases its bus subscriptions, ends its streams, and in-flight calls still return by their deadline; closing repeatedly or concurrently is harmless.""",
["schedules", "histories", "fault_sequences", "configurations"],
"any channel size, number of servers, duplicated/late/forged messages, close at any point",
"the tests use ample buffers and well-behaved servers",
["pkg/client/client.go", "pkg/client/rpc.go", "pkg/client/multi.go", "pkg/client/stream.go"],
[("client dispatch loop", "pkg/client/client.go NewRPCClient"), ("close fuse", "pkg/client/client.go Close")],
[("routing tables", "in-flight requests and streams", "pkg/client/client.go")], ["call completion", "goroutines and subscriptions after close"])

p("C16", "Metadata travels with the call, unchanged and isolated",
"""The handler of an RPC, multi-RPC or stream sees exactly the outgoing metadata in effect in the caller's context when the call was made, plus the caller's client id and the time of sending. Outgoing metadata follows the order of operations: the last write of a
key wins, a reset discards all earlier entries, and deriving a context never changes the parent context, its siblings, or maps passed by or returned to the caller. Metadata of concurrent calls never mixes,
and handlers cannot alter what others see.""",
["inputs", "histories", "schedules"],
"all sequences of reset, merge and append operations on trees of contexts; concurrent calls",
"no test covers operation sequences or aliasing",
["pkg/metadata/metadata.go", "pkg/client/rpc.go", "pkg/client/multi.go", "pkg/client/stream.go", "pkg/server/rpc.go", "pkg/server/stream.go"],
[("copy-on-write context metadata", "pkg/metadata/metadata.go"), ("metadata in requests", "pkg/client/*, pkg/server/*")],
[], ["OutgoingContextMetadata", "IncomingHeader in handlers"])

p("C17", "Interceptors and hooks see every call in the configured order",
"""For each RPC the client interceptors run in the order configured (client-wide before per-request), then the server interceptors in order, then the handler, each exactly once per pass, and results return through them in reverse; likewise for multi-RPC and stream interceptors on every send,
receive and close. What an interceptor passes on (context, request, response, error) is what the next one sees, and an interceptor may answer itself, alter the result, or call on more than once or concurrently, each time traversing the rest of the chain completely. Request hooks run
once per call before it is sent, and response hooks exactly once per returned response or failure, with the very result the caller gets.""",
["inputs", "configurations", "schedules"],
"any number and kind of interceptors and hooks on both sides, options combined in any way, repeated and concurrent continuation, concurrent calls",
"the tests use one or two pass-through interceptors per kind",
["internal/interceptors/interceptor.go", "pkg/client/rpc.go", "pkg/client/multi.go", "pkg/client/stream.go", "pkg/client/options.go", "pkg/server/options.go", "pkg/server/rpc.go", "internal/stream/stream.go"],
[("chaining", "internal/interceptors/interceptor.go"), ("merging of per-request interceptors", "pkg/client/options.go getRequestInterceptors")],
[], ["interceptor and hook invocations"])

p("C18", "Retries follow the configured policy exactly",
"""With retries configured, a failed attempt is repeated if and only if the policy says so: no more than the configured number of attempts, only for recoverable errors, each
with the timeout and after the wait the policy gives. The caller receives the first success, or the error of the last attempt, or a canceled error as soon as its context ends between attempts. By default only timeouts, unavailability and errors
without a code are recoverable; stream sends obey the same policy, and options of the caller and state of other calls are left untouched.""",
["inputs", "histories"],
"all policies, sequences of attempt outcomes, cancellation points, concurrent calls through one interceptor",
"the tests run five fixed scenarios, sequentially",
["pkg/middleware/retry.go"],
[("retry loop", "pkg/middleware/retry.go retry"), ("default policy", "pkg/middleware/retry.go isTimeout, getRetryWithBackoffParameters")],
[], ["attempts seen by the next handler", "virtual times of attempts", "call result"])

p("C19", "Metrics account for every call and byte exactly once",
"""Every unary call is reported exactly once per side with its role, method, result and sizes; every multi-RPC is reported once by the client with the numbers of successful and failed answers and bytes that were delivered, and once per execution by each server.
Every stream is reported opened once and closed once per side, and every send and receive on it once with its result and size. Metrics never alter results.""",
["histories", "schedules"],
"all outcomes (success, error, timeout, cancellation, slow consumer, close from either side), sizes and concurrency",
"no test checks metrics at all",
["pkg/middleware/metrics.go"],
[("metrics interceptors", "pkg/middleware/metrics.go")],
[("counters", "per-call response/error/byte counts", "pkg/middleware/metrics.go")], ["observer callbacks versus calls made"])

p("C20", "A panicking handler only fails its own call",
"""With recovery configured, a handler (or inner interceptor) panic of any kind makes the call fail with an 'internal' error promptly and has no other effect: the server stays up, other calls in progress and later ones succeed, and graceful
shutdown still completes. Calls that do not panic are returned unchanged.""",
["inputs", "schedules"],
"any panic value including nil, runtime errors and wrapped errors, at any depth and concurrency, in RPC and multi-RPC handlers",
"one test panics once with a string, if at all",
["pkg/middleware/recovery.go", "pkg/server/rpc.go"],
[("deferred recovery", "pkg/middleware/recovery.go")], [], ["call results", "server liveness"])

p("C21", "The Redis bus recovers its subscriptions and keeps order",
"""Once Redis is reachable, the set of channels the bus is subscribed to converges to exactly the set with local subscribers, after any sequence of subscribes, closes, command failures and connection losses, and stays there; updates
published after that are delivered to all of them. Messages published through one bus on one channel are sent to Redis in publish order and, without failures, exactly once each; a failed batch does not block or reorder later
ones. Failures never stop the bus's workers permanently.""",
["fault_sequences", "schedules", "histories"],
"all sequences of subscribe/close/publish interleaved with connection resets, refused dials, failing SUBSCRIBE/UNSUBSCRIBE/PUBLISH commands and slow replies",
"the Redis tests need a live server, run only without faults, and do not run here at all",
["internal/bus/bus_redis.go"],
[("reconciliation worker with dirty/current sets", "internal/bus/bus_redis.go redisReconcileSubscriptionsOp"), ("read retry", "internal/bus/bus_redis.go readWorker"), ("bucketed publish pipeline", "internal/bus/bus_redis.go redisPublishQueue")],
[("dirty/current channels", "subscription state to be reconciled", "internal/bus/bus_redis.go")], ["commands received by the server", "delivered messages"])

p("C22", "The NATS bus shares subjects without losing or crossing messages",
"""While any subscriber of a subject shared by several methods is open, the bus holds exactly one NATS subscription for that subject, and none after the last is closed, for any interleaving of opens and closes. As soon as opening a subscriber has returned, messages published (by the same connection) for
it are delivered to it and to no other method's subscribers, and closing one subscriber never affects the others. Closing while messages arrive never panics or deadlocks, and a failed subscribe leaves no trace so that a later one works.""",
["schedules", "histories", "fault_sequences"],
"all interleavings of subscribe, close and message arrival over few subjects and many methods; subscribe failures",
"the NATS tests need a live server and do not run here at all",
["internal/bus/bus_nats.go"],
[("per-subject router with reference counting", "internal/bus/bus_nats.go natsRouter"), ("bus-wide lock", "internal/bus/bus_nats.go subscribeRouter/unsubscribeRouter")],
[("routers", "live routers by subject", "internal/bus/bus_nats.go")], ["SUB/UNSUB seen by the server", "delivered messages"])

p("C23", "Foreign, corrupt or newer messages are ignored safely",
"""Whatever bytes arrive on any channel of a client, server or subscription (garbage, truncated or mutated messages, messages of other types, unknown or unregistered types, unknown fields), the process does not crash, no handler runs and no call completes with a value that no
peer sent, and subsequent valid messages are processed normally. Messages with unknown additional fields are processed as if these were absent, and a request or response payload that cannot be decoded yields a 'malformed' error at the caller. The encoding
on the wire is the published one, so that older and newer peers understand it.""",
["inputs", "histories"],
"all byte strings (generated by mutation of valid traffic), all registered message types on all channels",
"the tests round-trip one valid message",
["internal/bus/serialization.go", "internal/bus/subscription.go", "pkg/client/client.go", "pkg/server/rpc.go", "pkg/server/stream.go", "internal/stream/stream.go"],
[("envelope decoding", "internal/bus/serialization.go"), ("typed pump skipping undecodable messages", "internal/bus/subscription.go")],
[], ["process survival", "handler and call behaviour after injection"])

p("C24", "Generated identifiers are unique and well-formed",
"""Identifiers generated for clients, servers, requests and streams never repeat, also when generated concurrently, and consist of the documented prefix and twelve alphanumeric characters drawn evenly from the whole
alphabet. An identifier given by the user is used as is, on every message.""",
["schedules", "inputs"],
"any number of identifiers from any number of goroutines",
"no test generates identifiers concurrently or checks their distribution",
["pkg/rand/id.go", "pkg/client/client.go", "pkg/server/server.go"],
[("locked random source", "pkg/rand/id.go"), ("rejection sampling", "pkg/rand/id.go readIDChars")], [], ["generated ids", "ids on the wire"])

p("C25", "Generated code compiles and implements the declared options",
"""For every valid proto service using the documented options, the plugin generates deterministic Go code that compiles and whose client and server, talking to each other, behave as declared: routing type, claims, topics (typed, grouped, several parameters), subscriptions, streams and
affinity functions. Generated names follow the proto names, comments and unimplemented servers are included, and methods not implemented fail with 'unimplemented'. An invalid request to the plugin is
reported as an error, not as bad code.""",
["programs", "inputs"],
"all combinations of options, names (case, underscores, keywords, clashes), packages, imports and parameters of the plugin",
"the tests compile about ten fixed protos",
["protoc-gen-psrpc/generator.go", "protoc-gen-psrpc/go_naming.go", "protoc-gen-psrpc/command_line.go", "protoc-gen-psrpc/options/options.proto"],
[("code generation", "protoc-gen-psrpc/generator.go"), ("package naming", "protoc-gen-psrpc/go_naming.go")], [], ["plugin output", "compiler result", "behaviour of generated client and server"])

p("C26", "No data races; nothing is left running after close",
"""No use of the public API from any number of goroutines causes a data race, an internal panic or a deadlock, as long as each message is left alone once handed over. After all calls have returned and all clients, servers, streams and subscriptions are closed, no goroutine, timer or bus subscription belonging to
them remains.""",
["schedules", "histories"],
"all interleavings of all operations on clients, servers, streams, subscriptions and buses",
"the tests do not run under the race detector here, nor count goroutines, and use little concurrency",
["pkg/client/client.go", "pkg/server/server.go", "internal/stream/stream.go", "internal/bus/bus_local.go", "internal/bus/bus_redis.go", "internal/bus/bus_nats.go"],
[("locks around shared tables", "pkg/client, pkg/server, internal/bus, internal/stream")], [], ["race detector reports", "goroutine dump after close", "bus subscriptions after close"])

p("C27", "Traces link caller and handler across the bus",
"""With tracing configured on both sides, each RPC and multi-RPC produces one client span and one server span per execution of the same trace, the server span's parent being the client span, and a handler sees its own server span in its context. A failed call marks its span
as failed, each span ends exactly once, and baggage or trace state set by the caller is visible to the handler. Without a parent or without tracing on one side calls work unchanged.""",
["schedules", "histories", "configurations"],
"concurrent calls with and without parents, tracing on either or both sides, every outcome",
"one test traces a single call, if at all",
["pkg/middleware/otelpsrpc"],
[("trace context in metadata", "pkg/middleware/otelpsrpc"), ("client/server interceptors", "pkg/middleware/otelpsrpc")], [], ["spans recorded by a test tracer"])

p("C28", "Test buses add exactly the faults asked for",
"""A bus with simulated latency delivers every message exactly once, unchanged, no earlier than the configured latency for the pair of origins after it was sent and in order of due time, and is otherwise transparent to clients and servers; closing a subscription ends it. A bus with a simulated failure rate drops nothing at rate zero, everything at rate one, only
on the selected channel, follows rate changes at once, and never alters messages. Interceptors of a test bus apply in the configured order to every publish and read.""",
["histories", "schedules", "configurations"],
"all latency functions, rates, message timings and interceptor stacks",
"no test covers these public test utilities",
["testutils/laggybus.go", "testutils/unreliablebus.go", "testutils/bus.go", "internal/bus/bus_interceptor.go"],
[("time-ordered heap with timer", "testutils/laggybus.go"), ("dropping read interceptor", "testutils/unreliablebus.go")], [], ["messages read versus published, virtual times"])

# ---- precisions found while building the checks ----
def amend(id, *pairs):
    d = [x for x in P if x["id"] == id][0]
    for a, b in pairs:
        assert d["statement"].count(a) == 1, (id, a, d["statement"].count(a))
        d["statement"] = d["statement"].replace(a, b)


amend("C02", ("A caller-supplied selection function is given every acceptable offer received by then and exactly its choice (or error) is honoured; with no acceptable offer the call fails with an 'unavailable' error and no handler runs.",
              "A caller-supplied selection function decides when no such early decision was taken: it is given every offer received by then (none, if there were none) and exactly its choice (or error) is honoured; without one, a call with no acceptable offer fails with an 'unavailable' error and no handler runs."))
amend("C05", ("no later than the earliest of its request timeout, the client's default timeout and the caller's context deadline, and promptly on cancellation, with a deadline-exceeded respectively canceled error.",
              "no later than its timeout (the request's, else the client's, else the caller's deadline, else the default of 3 s) and the caller's context deadline, and promptly on cancellation, with a deadline-exceeded respectively canceled error ('unavailable' if no server was selected by then)."),
      ("and the handler's context carries", "and the context of an RPC's handler carries"))
amend("C06", ("the equivalent code, message and details for a gRPC status error, and 'unknown' with the same message for any other error.",
              "the equivalent code, message and details for a gRPC status error (of RPCs and multi-RPCs), and 'unknown' with the same message for any other error; bytes that are not valid UTF-8 are replaced."))
amend("C12", ("Different addresses never share a channel name, for any services and methods (identifiers), client ids and topics made of",
              "Different addresses never share a channel name, for any services and methods (identifiers), client ids (that are neither method names nor invalid as part of a subject) and topics made of"))
amend("C14", ("lets every handler that was started run to the end and delivers its response,", "lets every RPC handler that was started run to the end and delivers its response, ends streams,"))
amend("C17", ("call on more than once or concurrently,", "(for RPCs) call on more than once or concurrently,"))
amend("C18", ("With retries configured,", "With retries configured (a positive number of attempts),"),
      ("By default only timeouts, unavailability and errors without a code are recoverable;", "By default only timeouts, unavailability and errors without a code of psrpc or gRPC are recoverable;"))
amend("C19", ("Every stream is reported opened once and closed once per side,", "Every stream is reported opened once and, when that side ends it, closed once per side,"),
      ("Metrics never alter results.", "A panicking execution is reported as failed, and metrics never alter results."))
amend("C20", ("With recovery configured,", "With recovery configured as the last (innermost) interceptor,"),
      ("a handler (or inner interceptor) panic of any kind makes", "a panic of any kind in the handler of an RPC or multi-RPC makes"))
amend("C21", ("after any sequence of subscribes, closes, command failures and connection losses,", "after any sequence of subscribes, closes, lost commands and connection losses,"))
amend("C22", ("the bus holds exactly one NATS subscription for that subject,", "the bus holds exactly one NATS subscription per kind (broadcast, queue) for that subject,"))
amend("C23", ("and no call completes with a value that no peer sent,", "and no call completes successfully with a value that no peer sent,"),
      ("and a request or response payload that cannot be decoded yields a 'malformed' error at the caller.",
       "a request or response payload that cannot be encoded or decoded yields a 'malformed' error at the caller, and a stream message that cannot ends the stream with one at both ends."))
amend("C24", ("Identifiers generated for clients, servers, requests and streams never repeat, also when generated concurrently,",
              "Identifiers generated for clients, servers, requests and streams never repeat, also when generated concurrently or by processes started together,"))
amend("C27", ("each RPC and multi-RPC produces one client span and one server span per execution of the same trace, the server span's parent being the client span,",
              "each RPC produces one client span, and each RPC and multi-RPC one server span per execution; the server span of an RPC belongs to the same trace, its parent being the client span (whatever the configured propagation carries),"))
amend("C28", ("and in order of due time,", "and in order of due time, if it is still open then,"))

amend("C05", ("An answer that reaches the caller before that moment is returned, not dropped.",
              "A send on a stream returns with its acknowledgement or when its timeout is over (the send's, else that of the opening call or of the server, default 3 s), not earlier unless the stream ends. An answer or acknowledgement that reaches the caller before that moment is returned, not dropped."))
amend("C15", ("closing repeatedly or concurrently is harmless.",
              "closing repeatedly or concurrently is harmless. A client that cannot make one of its subscriptions is not created and leaves none behind, a Join that fails leaves the client intact, and a client one of whose own subscriptions ends is thereby closed."))
amend("C26", ("causes a data race, an internal panic or a deadlock,", "(closing anything repeatedly or concurrently included) causes a data race, an internal panic or a deadlock,"))


if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for x in P:
            n = x["statement"].count(". ") + 1
            assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
            f.write(json.dumps(x, ensure_ascii=False) + "\n")
            if n > 3: print(x["id"], "sentences", n)
