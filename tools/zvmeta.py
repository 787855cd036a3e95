"""What is claimed, and how: used by check.py (rule, assumptions) and by manifest.py."""

PERTURB = ("Each case is one random scenario (topology, bus kind, sizes, timings, faults) drawn from a fixed seed and run on the real code "
           "in a virtual-time bubble under the race detector, while injected yields and delays at the statements of the code under test vary the schedule. ")

NT = "Cases are distinct by the sequence of observed events (kind, actor, value); trivial ones do not count: "

ASSUME = [
    "Redis and NATS are in-memory servers speaking the real wire protocols to the real go-redis and nats.go clients; timers run on virtual time",
    "sync primitives and core.Fuse of the code under test are replaced at build time by equivalents that block durably in virtual time and report the same happens-before edges to the race detector",
]

TECH = "runtime monitoring: %s, over randomized stress workloads with schedule perturbation, under the Go race detector"


def c(rule, tech, note, level="exploration", **kw):
    return dict(rule=PERTURB + NT + rule, technique=TECH % tech, note=note, level=level, assumptions=ASSUME, **kw)


def _generated(work, tier, seed, binfo):
    import genlab
    return genlab.run(work, tier, seed, binfo)


CHECKS = {
    "C01": c("no call of the case got a handler's result.",
             "execution-log checker (at-most-once, exactly-once on success, only by the chosen server)",
             "Holds on every execution explored: handler executions of every call are counted at all servers and compared with what the caller got and with the claims seen on the bus."),
    "C02": c("no decision between offers was observed.",
             "selection oracle over the offers seen on a tapped bus in virtual time (who is chosen, when, and what a selection function is given)",
             "Holds on every execution explored: offers, their arrival times, the decision and who ran the handler are recorded and compared with the contract."),
    "C03": c("no call returned a response.",
             "request/response matching over unique payloads of random types and sizes from concurrent clients, with field-for-field comparison",
             "Holds on every execution explored: every handler sees and every caller gets exactly the payload of its own call."),
    "C04": c("no multi-RPC answer was delivered.",
             "offline checker of multi-RPC channels (one entry per server that answered in time, closing time, nothing after) with other calls as probes",
             "Holds on every execution explored: executions, answers as they reach the client, entries and closing times are recorded and matched."),
    "C05": c("no deadline ended a call.",
             "virtual-time monitor of return times, handler start times and handler deadlines, with delayed and late messages",
             "Holds on every execution explored: every call's return time is compared with the earliest of its deadlines."),
    "C06": c("no handler raised an error.",
             "error-equivalence oracle at the caller (code, message, details, mappings, unwrapping) over generated errors of every kind, exhaustive tables",
             "Holds on every execution explored; the code tables are compared completely with the documented ones."),
    "C07": c("no message was delivered.",
             "offline checker over recorded sends and receives (subsequence, order, at most once, acknowledged implies received)",
             "Holds on every execution explored: every send (with its outcome) and every receive on both ends of every stream is recorded and judged."),
    "C08": c("the streams could not be opened before the deadline drawn.",
             "end-state monitor (cause, context, channel, later sends) with weak references and goroutine snapshots for state left behind",
             "Holds on every execution explored: one or several closers of nine kinds act at random moments relative to traffic; both ends of every stream are inspected afterwards."),
    "C09": c("none.",
             "open/handler matching over the recorded opens and handler starts, with injected message loss, delay and publish failures, weak references for state left behind",
             "Holds on every execution explored: each open's outcome is compared with the handlers started for it and whether they ended."),
    "C10": c("nothing was delivered.",
             "offline checker over recorded publishes and deliveries (exactly once, per-publisher order, within the subscription interval)",
             "Holds on every execution explored: every publish and delivery of every subscriber is recorded."),
    "C11": c("nothing was delivered.",
             "offline checker over recorded publishes and deliveries (exactly one subscriber, turns)",
             "Holds on every execution explored except for the known finding listed."),
    "C12": c("no call was routed and no pair of names was compared.",
             "cross-traffic checker (every delivery belongs to the request, topic and service of its receiver) and injectivity monitor over the channel names used on tapped buses",
             "Holds on every execution explored: generated look-alike names of services, methods, topics, queues and ids; every delivery is attributed."),
    "C13": c("no registration succeeded.",
             "history checker of registrations (exclusivity, completeness, all-or-nothing) with injected subscribe failures and probes of who serves",
             "Holds on every execution explored."),
    "C14": c("nothing was running when the shutdown began.",
             "online monitor of running handlers against shutdown calls, response-delivery check, goroutine snapshots, busy-wait detector",
             "Holds on every execution explored."),
    "C15": c("no call was made amid the noise.",
             "interference monitor: each call's outcome and return time with noisy neighbours are compared with what the contract demands of it alone",
             "Holds on every execution explored: stalled, canceled, flooding and unread neighbours of every kind act while probe calls are timed."),
    "C16": c("no header was read.",
             "reference-model comparison of headers through random operation sequences and through calls of every kind",
             "Holds on every execution explored: every header a handler sees is compared with the model's, and the caller's own values with what they were."),
    "C17": c("nothing but the handler ran.",
             "trace comparison of interceptor, hook and handler invocations with a reference interpreter of random interceptor behaviours",
             "Holds on every execution explored: each call's invocations (who, with what request, context values, options, result) are compared one by one with what the configured order demands."),
    "C18": c("nothing was attempted.",
             "reference-model comparison of recorded attempts (number, timeouts, waits, result) under random policies, failures and cancellations in virtual time",
             "Holds on every execution explored, for interceptors driven directly and for real calls and stream sends."),
    "C19": c("nothing was reported.",
             "conservation checker: reports of a recording observer against the calls, executions, sends and receives that took place",
             "Holds on every execution explored: every report's role, name, result, sizes and duration is matched with its call."),
    "C20": c("no handler panicked.",
             "outcome checker of calls, executions and shutdowns around panicking handlers and interceptors; reference interpreter of interceptor stacks",
             "Holds on every execution explored: each call's outcome and time, the other calls, later calls, the server's tables and its shutdown are checked."),
    "C21": c("Redis was subscribed to nothing and nothing was published.",
             "subscription-convergence monitor and publish-log checker (order, exactly once, nothing lost) over the Redis bus on an in-memory Redis server with injected connection losses, refused dials, failing writes, lost commands and replies, and slow replies",
             "Holds on every execution explored except for the known finding listed: the server's subscription table is compared with the local subscribers after every fault sequence, and its log of PUBLISH commands with what was published."),
    "C22": c("nothing was delivered.",
             "subscription-table monitor and delivery checker over a NATS bus on an in-memory NATS server",
             "Holds on every execution explored."),
    "C23": c("nothing reached a peer.",
             "provenance monitor (every value seen was sent by a peer) and outcome checker under injected garbage, mutants and re-encoded traffic; independent peers that speak the published wire format",
             "Holds on every execution explored: raw bytes are injected on every channel (at the readers and through the Redis and NATS connections), all values are traced to a sender, and messages on the wire are written and read by an independent codec."),
    "C24": c("nothing was sent and no identifier generated.",
             "uniqueness, form and distribution monitors over identifiers generated by many goroutines and several processes at once, and over every identifier on tapped buses",
             "Holds on every execution explored: every generated identifier is compared with all others of the run (also of other processes), and the identifiers in every message, claim and handler with those of their senders."),
    "C25": dict(
        rule="Each case is one service of a random definition (names, kinds, routing options old and new, topics, typed topics, groups, comments, nested and imported messages, several files, services and packages, output and mapping parameters), "
             "generated with the plugin built from /repo's tree, compiled together with a program derived from the definition alone, and exercised by it. Cases are distinct by the kinds, routing and topics of their methods; services without methods do not count.",
        technique="runtime monitoring: generated clients and servers of random definitions are compiled and driven by programs derived from the definitions; executions, offers on a tapped bus, affinity calls, responses, deliveries and endings are compared with what the definition says",
        note="Holds on every definition explored: the code compiles with the API the definition calls for, is the same when generated again, lies beside protoc-gen-go's, and every method behaves as defined on two servers and two clients; invalid requests are refused with a reason.",
        level="exploration", extra=_generated, extra_only=True,
        assumptions=["protoc-gen-go of the module cache generates the messages", "the generated programs run in real time on the local bus; only the absence of a server is judged by short timeouts"]),
    "C26": c("no call succeeded before the shutdown.",
             "race detector, deadlock and goroutine-leak monitors over randomized API use and simultaneous shutdowns",
             "Holds on every execution explored."),
    "C27": c("no handler ran.",
             "span-tree checker over a recording tracer: spans, parents, states and lifetimes against the calls and executions that took place",
             "Holds on every execution explored: every span is matched with its call or execution, and every call and execution with its spans, baggage and metadata."),
    "C28": c("no message was read.",
             "virtual-time monitor of messages through lagging, unreliable and intercepted buses (exactly once, due times, order, rates, reference interpreter of interceptor stacks)",
             "Holds on every execution explored: what is published, what reaches the inner bus and what every reader gets is recorded with its time."),
}

# Quick-tier case counts are multiplied by this so that each check takes about 20 s on 8 cores;
# the thorough tier runs ten times the base counts times three times this.
SCALE = {"C01": 6, "C02": 7, "C03": 2.8, "C04": 6, "C05": 6, "C06": 7, "C07": 2, "C08": 3.5, "C09": 4.5, "C10": 2.4,
         "C11": 2.4, "C12": 1, "C13": 3, "C14": 3.5, "C15": 1.2, "C16": 1.6, "C17": 2, "C18": 2.8, "C19": 1.5, "C20": 1.6,
         "C21": 1.2, "C22": 1.2, "C23": 1, "C24": 2, "C26": 1, "C27": 2, "C28": 1.5}
