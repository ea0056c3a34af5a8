#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the text of the properties lives here)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}})

U = ["ubuf.go"]
p("C01", "Buffer operations never panic or leave the buffer",
  "Every exported UBuf operation, called on any buffer made by the exported constructors and changed only by exported operations, returns without panicking and without touching bytes outside the buffer, for all arguments. Afterwards 0 <= read position <= write position <= capacity still holds and the capacity is unchanged. Constructors reject exactly the invalid capacity/head-room requests and otherwise give an empty buffer placed behind its head room.",
  ["inputs", "histories"], "every reachable buffer state (positions, capacity, head room, sharing) and every argument value",
  "The tests use a handful of capacities and positions; the layout has to survive every sequence of operations.",
  U, [("bounds checks before every access", "ubuf.go: Peek*/Read*/Write*/writeHead"), ("constructors", "ubuf.go: UBufAllocWithHeadReserved, UBufFromWithHeadReserved")])
p("C02", "Buffer operations move exactly what they report",
  "A UBuf read, write or head write moves the read/write position by exactly the number of bytes it reports (its width for integers), reports success exactly when the whole request fits, and on failure moves nothing; Read/Write/Peek of byte slices transfer the smaller of the requested and the available bytes and report an error when that is only part of the request. Peeks and length queries change nothing. ReadFrom and WriteTo report and consume exactly the bytes the peer moved and return the peer's error.",
  ["inputs", "fault_sequences"], "all buffer states, request sizes, and peers that move part of the data or fail",
  "Tests sample a few sizes and never a reader or writer that fails or is short.",
  U, [("position updates", "ubuf.go: Read, Write, ReadFrom, WriteTo, writeHead")])
p("C03", "A buffer is an ordered byte stream with a prependable head",
  "Bytes come out of a UBuf exactly in the order in which they were appended, bytes written to the head come out before everything else and in order, and no operation damages bytes that are still readable. Reset discards the readable data and makes the buffer empty behind its original head room.",
  ["inputs", "histories"], "all buffer states and all contents",
  "Equality for every content and position is not sampled by fixed vectors.",
  U, [("copy windows", "ubuf.go: Read, Write, writeHead, Reset")])
p("C04", "Integer accessors encode the documented width and byte order",
  "For each width (16, 32, 64 bits) and byte order, writing (at the tail or the head) stores exactly the big or little endian encoding of the argument and reading/peeking returns exactly the value encoded by the next bytes; accessors without suffix are big endian.",
  ["inputs"], "all values and all buffer states",
  "Tests check a few constants.",
  U, [("encoding/binary use", "ubuf.go: Peek/Read/Write/WriteHead U16/U32/U64 BE/LE")])
p("C05", "Copy snapshots are isolated from each other",
  "A copy-on-write or direct-copy snapshot shows exactly the readable data its source had when it was taken, and no later operation on the source or on any other snapshot changes the bytes readable through it (and vice versa), even when the snapshots are used by different goroutines. Taking a snapshot does not change the source's data or positions.",
  ["histories", "schedules"], "all interleavings of operations on a family of snapshots",
  "Tests write to one snapshot of one buffer in one order.",
  U, [("copy on write", "ubuf.go: resolveCopyOnWriteIfNeed, UBufMakeSnapshot"), ("reference count", "ubuf.go: uBufData.refCount")])

PR = ["proc_base.go", "proc_codec_bytes.go", "proc_codec_string.go", "proc_codec_json.go", "proc_codec_gob.go", "proc_codec_generic.go", "proc_discarder.go",
      "proc_echo.go", "proc_loopback.go", "proc_filter.go", "proc_forwarder.go", "proc_flow_controller.go", "proc_frame_decoder.go", "proc_heartbeat.go",
      "proc_stat_counter.go", "proc_load_balancer.go", "proc_session_resolver.go"]
p("C06", "A message passes each processor onward, exactly once",
  "A data processor handed a message either passes it on exactly once in its direction of travel (data from above to the lower neighbour, data from below to the upper neighbour) or drops it for a documented reason; it never duplicates it or sends it the wrong way. Only an enabled Echo (received data back down) and an enabled Loopback (sent data back up) turn messages round, and an enabled Discarder or Loopback drops received data.",
  ["inputs", "configurations"], "all messages, connections and enable states, on every path through every processor",
  "No test runs a processor at all.",
  PR, [("neighbour calls", "proc_*.go: OnUpperData, OnLowerData")])
p("C07", "Disabled processors and reference connections are transparent",
  "A disabled processor passes every message on once and unchanged in its direction (StatCounter, Heartbeat and LoadBalancer keep only adding and removing their one-byte tag, Heartbeat also swallowing heartbeats), and a codec, FrameDecoder, SessionResolver, StatCounter, Heartbeat or LoadBalancer passes the messages of a by-reference connection on once and unchanged whether enabled or not.",
  ["configurations", "inputs"], "all processors, enable states and connection kinds",
  "No test disables a processor or uses a reference connection.",
  PR, [("enable flag", "proc_*.go: enable"), ("reference shortcut", "proc_base.go: useReference")])
p("C08", "Headers are stripped exactly as they were added",
  "Whatever header a processor prepends to a sent message, the same processor at the receiver removes exactly that header, delivers exactly the original payload, and restores the session for every session number from 0 to 2^31-1; the header uses no more head room than the processor declares as its overhead, and a message with that much head room is never refused for lack of room.",
  ["inputs"], "all payloads, sessions and buffer positions",
  "Round trips through a processor are not tested.",
  ["proc_frame_decoder.go", "proc_session_resolver.go", "proc_heartbeat.go", "proc_stat_counter.go", "proc_load_balancer.go"],
  [("header write/read", "OnUpperData/OnLowerData"), ("declared overhead", "GetOverhead")])
p("C09", "Unprocessable messages are dropped whole and never crash",
  "A message that a processor cannot process (no buffer, no or unsuitable message, no connection, header does not fit or is truncated, payload too large, encoder or decoder error) is dropped as a whole: nothing of it is passed on and the processor does not panic. Data processors never panic for any received bytes.",
  ["inputs", "fault_sequences"], "all received byte sequences, absent parts of a context, and codec failures",
  "Tests never feed malformed data.",
  PR + ["proc_upperdeck.go", "proc_lowerdeck.go"], [("error checks", "proc_*.go")])
p("C10", "Control messages stay inside the processor that made them",
  "A self message of an enabled Heartbeat or StatCounter (heartbeat, statistics request or response) is consumed by the same processor at the receiver and never reaches the layers above it, and no user message is ever taken for a self message. Self messages are sent downward on the connection they belong to, never on by-reference connections.",
  ["inputs", "configurations"], "all control messages and payloads",
  "Two-sided behaviour is not tested.",
  ["proc_heartbeat.go", "proc_stat_counter.go", "proc_load_balancer.go"], [("message tags", "proc_heartbeat.go, proc_stat_counter.go constants")])
p("C11", "Data is routed to the endpoint of its session",
  "A received message is delivered, with its connection and data, to an attached endpoint whose session equals the message's session (0 when it carries none), once, and to no other endpoint. A message sent by an endpoint goes down in a context of its own with its own data and connection and with the destination session given by the sender, or else the endpoint's own session. An added endpoint is served by one sender, endpoints that duplicate a session are refused, and removing an endpoint ends its service.",
  ["inputs", "histories"], "all sessions, endpoint sets and orders of adding and removing",
  "No test attaches endpoints.",
  ["proc_upperdeck.go", "endp_default.go", "proc_session_resolver.go"], [("endpoint table", "proc_upperdeck.go")])
p("C12", "Frames are reassembled from any segmentation of the stream",
  "However the transport splits or merges the byte stream of a connection, the FrameDecoder delivers upward exactly the framed payloads, each once, complete and in order, and keeps an incomplete tail until the rest arrives; tails of different connections are never mixed and are discarded when their connection closes. A frame too large to buffer closes the connection instead of being misread.",
  ["inputs", "histories"], "all segmentations, frame lengths and interleavings of connections",
  "Infinitely many segmentations; none is tested.",
  ["proc_frame_decoder.go"], [("length prefix", "handleData"), ("per connection cache", "saveCachedData, takeCachedData, joinCachedData")])

S = ["ustack_default.go"]
p("C13", "Every event reaches every party exactly once",
  "A published event is delivered exactly once to every registered listener, every endpoint, every feature and every data processor of the stack, including its upper and lower deck once the stack is built, unchanged and before PublishEvent returns; an endpoint passes it to its own event listener. A registered listener stays registered.",
  ["inputs", "histories"], "any number of listeners, endpoints, features and processors",
  "Events are not tested.", S, [("fan out", "ustack_default.go: PublishEvent")])
p("C14", "Adding and removing endpoints and transports",
  "Adding an endpoint or transport that is not yet part of the stack makes it a member and announces it once; adding a member again changes and announces nothing; removing a member removes exactly that one and announces it once; removing a non-member does nothing. A list obtained from the stack is never changed afterwards by adding or removing.",
  ["histories", "schedules"], "all sequences of additions and removals, also from inside event handlers and other goroutines",
  "Membership is not tested.", S, [("copy on change", "ustack_default.go: AddEndPoint, DeleteEndPoint, AddTransport, DeleteTransport")])
p("C15", "Connection lifecycle and data at the lower deck",
  "For each connection a transport delivers, the stack publishes NewConnection once before any of its data is passed up, reads from it until it fails or ends, then closes it and publishes ConnectionClosed; a failed send also closes it. ConnectionClosed is published at most once per connection, and nothing is passed up for a failed or empty read. Received data is passed up in a context of its own with its own connection, once and completely, and each message sent down is written once and completely to its own connection.",
  ["schedules", "fault_sequences"], "all interleavings of sender, receiver and failures",
  "No test runs transports.",
  ["proc_lowerdeck.go"], [("connection set", "proc_lowerdeck.go")])
p("C16", "Heartbeat supervises exactly the live connections",
  "With Heartbeat in the stack every new byte-stream connection is monitored from its announcement, is sent heartbeats until it is closed and then forgotten; every received heartbeat renews its connection's deadline; a connection whose deadline passed is removed from monitoring, reported lost once, and closed exactly when CloseOnLost is set; the supervision pauses at most a second between two looks. By-reference connections are left alone.",
  ["histories", "configurations"], "all connections, events and received heartbeats",
  "Heartbeat is not tested.", ["proc_heartbeat.go"], [("monitor table", "proc_heartbeat.go")])
A = ["ustack_default.go", "endp_default.go", "proc_upperdeck.go", "proc_lowerdeck.go", "proc_heartbeat.go", "proc_frame_decoder.go", "proc_stat_counter.go", "tran_tcp.go", "tran_unix.go", "tran_reference.go"]
p("C17", "Locks are released and never held across foreign code",
  "Every lock taken is released on every path and never taken again while held, locks are taken in a consistent order, and no lock is held while user callbacks, event handlers, neighbouring processors or operations that may block without bound are called.",
  ["schedules"], "all paths and interleavings", "A deadlock needs one particular interleaving or re-entrant callback.", A, [("mutexes", "ustack_default.go, proc_*.go, tran_*.go")])
p("C18", "Shared state is only touched under its synchronisation",
  "State that changes while the stack runs (endpoint, transport, listener, connection and cache tables, closed flags, counters, running flags) is read and written only under the lock of its owner or by atomic operations.",
  ["schedules"], "all interleavings of the stack's goroutines and its callers", "Races need particular schedules; no test runs goroutines.", A, [("mutexes and atomics", "ustack_default.go, proc_*.go, tran_*.go")])
p("C19", "No send on a closed channel and no double close",
  "The stack never sends on a channel that it may have closed before, never closes a channel twice and never closes a nil channel, whatever the order of Run, Stop, connects, failures and removals.",
  ["schedules", "histories"], "all orders of starting, stopping, connecting, failing", "Crashes only in particular orders.", ["proc_upperdeck.go", "tran_tcp.go", "tran_unix.go", "tran_reference.go"], [("channel closes", "doStop, Stop, Close, deleteEndpoint")])
T = ["tran_tcp.go", "tran_unix.go", "tran_reference.go"]
p("C20", "Transports start once, stop completely and can be restarted",
  "Run on a running transport and Stop on a stopped one change nothing. Stop ends a waiting NextConnection with nil, closes the listener and every connection handed out, releases the shared channel of a by-reference transport, and leaves the transport able to Run again; a connection created while stopping is closed instead of being lost. Stop also ends accepting and connecting, what an earlier run left behind never touches a later run, a server listens on the address set and a client dials it, a client makes one connection per run, a transport that gives up stops itself, and by-reference transports of one address share one channel as long as one of them runs.",
  ["histories", "schedules"], "all orders of Run, Stop, accept, connect and NextConnection", "Transports are not tested.", T, [("run state", "tran_*.go: Run, Stop")])
p("C21", "Connections honour their mode and their closed state",
  "A byte-stream connection never uses references and a by-reference connection never uses bytes: the unsupported calls report an error and move nothing. After Close a connection reports Closed, and Read, Write, GetReference and SetReference return an error without reaching the peer; Close may be called any number of times, also concurrently, and ends waiting calls. While a connection is open, each Read and Write is one Read or Write of the network connection with its result, it does not fail by itself because of a deadline, and a reference set on one end is what the other end gets.",
  ["histories", "schedules"], "all connections and orders of calls", "Connections are not tested.", T, [("closed flag", "tran_*.go: Close, Closed")])
p("C22", "Options take effect with their documented default",
  "Option parsers return the given value exactly when it has the requested type and otherwise the default with a false flag. Each documented option (MTU, CacheCapacity, IntervalInSecond, TimeoutInSecond, CloseOnLost, Collect.IntervalInSecond, MaxRetryCount, RetryIntervalInSecond, MaxQueueSize) sets its own parameter when given with the right type and otherwise leaves the documented default.",
  ["inputs", "configurations"], "all option values of all types", "Options are not tested.", ["utils.go", "ustack_default.go", "proc_frame_decoder.go", "proc_heartbeat.go", "proc_stat_counter.go", "tran_tcp.go", "tran_unix.go", "tran_reference.go"], [("option parsing", "utils.go: OptionParse*")])
p("C23", "Setters and getters agree and chain",
  "Every fluent setter returns the very object it was called on, as the outer type the user created, and the matching getter then returns exactly the value set without disturbing other attributes; unset attributes have their initial value (nothing set, no option, processors enabled and named after their type, endpoints and transports named as constructed). GetFeature returns a feature of the given name if one was added and nothing otherwise. This holds for contexts, endpoint data, endpoints, stacks, processors, features and transports.",
  ["inputs"], "all attribute values and orders", "Setters are not tested.", ["ustack_default.go", "endp_default.go", "proc_base.go", "feat_base.go", "tran_tcp.go", "tran_unix.go", "tran_reference.go"], [("where pointer", "proc_base.go: SetWhere")])
p("C24", "The stack is wired completely and in order",
  "After Run the upper deck, the appended processors in their order, and the lower deck form one chain in which each element's lower neighbour has it as its upper neighbour; every feature and processor has been given the stack before it runs and is run exactly once, before the lower deck starts to bring in connections; and the stack's overhead is the sum of the processors' overheads, also when Run is called again.",
  ["configurations"], "any number of processors and features", "Building is not tested.", S, [("build", "ustack_default.go: build, Run")])
p("C25", "StatCounter counts every user message exactly once",
  "An enabled StatCounter adds exactly one to its transmit (receive) count for every byte-stream user message it passes down (up), and nothing for dropped or control messages, without losing counts when connections and endpoints are active concurrently; the statistics it reports are these counts.",
  ["schedules", "inputs"], "all messages and interleavings", "Counts are not tested.", ["proc_stat_counter.go"], [("counters", "proc_stat_counter.go")])
p("C26", "Running stacks do not kill their process",
  "No received data, event, connection failure or transport error makes the library exit the process or panic: there is no exit, no panic other than the documented rejection of invalid buffer sizes, no unchecked type assertion and no nil dereference in code reachable from data, events or background goroutines.",
  ["inputs", "fault_sequences"], "all data, events and failures", "Failures are not injected by tests.", PR + A, [("checked assertions and errors", "all files")])
p("C27", "Filter and Forwarder obey their rules",
  "An enabled Filter passes a message on exactly when at least one of its rules accepts it, an enabled Forwarder keeps a message exactly when one of its rules takes it; each rule is asked at most once per message, in order, until one says yes, with the message and its true direction. Rules are exactly those given at construction.",
  ["inputs", "configurations"], "any number of rules and any answers", "Rules are not tested.", ["proc_filter.go", "proc_forwarder.go"], [("rule loops", "proc_filter.go: doFilter, proc_forwarder.go: doForward")])
p("C28", "An endpoint's data listener sees data once, in order, one at a time",
  "While a data listener is set, everything received by the endpoint is passed to the current listener exactly once, in order of arrival and never concurrently, no matter how often listeners are set or replaced.",
  ["schedules", "histories"], "all sequences of setting, replacing and removing listeners", "Endpoints are not tested.", ["endp_default.go"], [("single receiver", "endp_default.go: SetDataListener, autoReceive")])
p("C29", "Codecs deliver the bytes they were given",
  "BytesCodec and StringCodec send exactly the bytes of the message as payload and deliver exactly the received payload as the message; JSON, GOB and generic codecs put into the buffer exactly what their encoder produced, hand the decoder exactly the received payload, and pass on what it returned, with a newly made buffer and message each time.",
  ["inputs"], "all payloads", "Codecs are not tested.", ["proc_codec_bytes.go", "proc_codec_string.go", "proc_codec_json.go", "proc_codec_gob.go", "proc_codec_generic.go"], [("codec", "proc_codec_*.go")])
p("C30", "JSON and GOB values survive the round trip",
  "A value accepted by JSONCodec or GOBCodec arrives at the peer equal to the value sent.",
  ["inputs"], "all values of all types", "Values are not sampled at all.", ["proc_codec_json.go", "proc_codec_gob.go"], [("encoding/json, encoding/gob", "library")])
p("C31", "Heartbeat loss is detected in bounded time",
  "A silent connection is reported lost within the configured timeout plus one check interval, and a connection whose heartbeats arrive in time is never reported.",
  ["schedules"], "all timings", "Wall-clock behaviour is not tested.", ["proc_heartbeat.go"], [("timers", "proc_heartbeat.go: check, Run")])
p("C32", "Slow consumers delay but never deadlock the stack",
  "When an endpoint or peer stops consuming, the senders to it block, everything else keeps flowing, and all messages are delivered once it resumes.",
  ["schedules"], "all speeds of consumers", "Back pressure is not tested.", ["proc_upperdeck.go", "endp_default.go", "tran_reference.go"], [("channel buffers", "endp_default.go, tran_reference.go")])
p("C33", "Statistics are collected from exactly the live connections",
  "With a positive Collect.IntervalInSecond an enabled StatCounter asks every new byte-stream connection for statistics at once and again after every interval until that connection is closed, and then no more; without the option, with a value of 0 or less, and on by-reference connections it asks nothing. An enabled StatCounter answers every request once, on the connection it came from, and never answers an answer.",
  ["histories", "configurations"], "all intervals, connections and requests", "Collection is not tested.", ["proc_stat_counter.go"], [("collection", "proc_stat_counter.go: OnEvent, request, response")])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
