# entries of KNOWN_FINDINGS.jsonl (regenerate with: python3 tools/mkfindings.py)
fixed(["C15","C01","C04","C05"],"b68461e","claims and responses that arrived for a request which no longer read them (canceled, selected, full) blocked the client's only receive loop: every other call of that client then timed out")
fixed(["C13","C14"],"858daf2","two concurrent registrations of one handler could both succeed, a registration racing with Close was left running, and Close(true) waited for a graceful Close in progress")
fixed(["C14"],"5ac9c66","Close(false) could return while handlers were running or being claimed, dropped claimed work and polled in a busy loop")
fixed(["C26","C23"],"cf14ed0","closing a subscription whose reader did not read left its goroutine behind; a message of another type panicked the subscription")
fixed(["C22"],"b6931bb","concurrent opens and closes of NATS subscriptions on a shared subject lost messages, subscribed twice or crashed on a closed channel")
fixed(["C11","C01"],"b826f87","queue subscribers sharing one NATS connection each received every message")
fixed(["C07","C08"],"863060e","both ends of a stream acknowledged messages from their receive loop and waited for each other for ever once their buffers were full; a send on a stream whose context had ended could report success")
fixed(["C01","C15"],"2befe6c","a repeated claim response blocked the server's receive loop of the method for ever")
fixed(["C09","C14"],"1383016","a close that arrived while the server was still accepting the stream was lost, as were streams accepted during shutdown: their handlers were never ended")
fixed(["C09","C05","C08"],"a13f304","a closed client opened streams (and timed out), opens did not expire with the caller's context, and a close delivered late was ignored")
fixed(["C09"],"9ee3a17","an open canceled (or its client closed) while its open message was being published sent the close first: the handler started afterwards was never ended")
fixed(["C06","C04"],"717073b","a handler error with an empty message was sent as success: the call succeeded with an empty result")
fixed(["C06","C08"],"5fcf34d","errors whose message or code is not valid UTF-8 could not be encoded: the caller timed out, respectively the stream's other end was never closed")
fixed(["C17"],"2e513ba","a server interceptor that called next twice (retry) or concurrently skipped the interceptors after it the second time")
fixed(["C17"],"281bd3b","a request replaced by a server interceptor was dropped: the handler got the original; results of another type panicked the server")
fixed(["C17","C04"],"7f5128b","a client multi-RPC interceptor passing on an error with a nil result panicked the client")
fixed(["C16"],"1d876aa","SetOutgoing after Append lost or kept the wrong values, and maps were shared between the caller and derived contexts")
fixed(["C05","C02"],"78cf1af","a call canceled while selecting a server failed with 'unavailable' instead of 'canceled'")
fixed(["C19"],"2a338a1","the metrics interceptor reported every stream receive as successful")
fixed(["C17","C19"],"70e1e1e","client multi-RPC interceptors never saw the end of calls that could not be sent")
fixed(["C19","C17"],"f57767e","stream interceptors never saw the end of streams refused while being opened")
fixed(["C04","C15"],"9ce66f2","a multi-RPC whose results were not read blocked the response loop of the method's other calls of that client")
known("redis-lock-5s","C11","twice","^redis-lock-expired$","a Redis queue subscriber that reads a message more than 5 s after another one took it processes it again (the lock key expires after 5 s)")
fixed(["C22","C12"],"f5dc4e6","on NATS a topic named Q and the service's queue (and a queue and a plain route of one subject) shared one subscription: the second registration was refused or lost messages")
fixed(["C26","C15"],"ceadf46","the timers of finished calls kept their contexts and results until the affinity timeout")
known("nats-queue-group-split","C22","lost","^nats-queue-group-split$","processes that register different queue routes of one service and topic share one NATS queue group: messages handed to a process without the route are lost")
fixed(["C17"],"4d6680c","creating a client wrote into the caller's option slice: options built on a shared prefix were lost")
fixed(["C19","C26"],"d7da3eb","metrics computed sizes of messages after handing them to their new owner: wrong sizes and data races")
fixed(["C19"],"ca3c9f7","client metrics of unary calls reported request bytes as received and response bytes as sent")
fixed(["C19"],"d40700f","server metrics reported executions ended by a panic (recovered outside) as successful")
fixed(["C26","C03","C15"],"8e4aeec","closing two subscriptions of one bus one after the other could deadlock all subscriptions of the bus, if the second had a full buffer")
fixed(["C21"],"9764d62","after a failed SUBSCRIBE or UNSUBSCRIBE a channel closed, respectively subscribed to again, before the retry stayed subscribed at Redis for good, respectively was never subscribed to again")
known("redis-subscribe-error-reply","C21","converge","^error-reply:","a SUBSCRIBE or UNSUBSCRIBE that Redis (or a proxy) answers with an error is not repeated: the bus takes the channel as subscribed, respectively unsubscribed, until the connection is lost")
fixed(["C25"],"ce33bee","generated code referred to the imported package instead of psrpc's if a protobuf package was called client, context, info, psrpc, rand, server or version (also when options.proto was imported by another path)")
fixed(["C25"],"fd5b5aa","a message of a Go package other than the generated one was taken as its own if its protobuf package had the name of the generated Go package: the code did not compile")
fixed(["C25"],"7391e68","topic parameters and imported packages named like keywords, psrpc's packages or variables of the generated code (type, server, ctx, msg...) gave code that does not compile")
fixed(["C25"],"3e26d43","nested messages with lower-case names were called Outer_Inner though protoc-gen-go calls them OuterInner: the code did not compile")
fixed(["C25"],"d1d0fa2","no code could be generated for packages named like a keyword or a number")
fixed(["C25"],"9824ec3","the deprecated options multi = false and affinity_func = false were taken as true")
fixed(["C25"],"0a2f6f4","topic_params with a group on a method without topics gave code that does not compile")
fixed(["C26", "C10"], "deabafc", "closing a subscription of the local or NATS bus twice (or concurrently) panicked with 'close of closed channel', and on the local bus could end another subscription")
