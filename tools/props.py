#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/props.py)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
            mechanism=[dict(name=a, where=b) for a,b in mech],
            observe_at=list(observe), hook_needed=hook)))

p("C01","A buffer is an exact bounded byte queue",
 "For every sequence of buffer operations, the readable content is exactly the bytes written at the tail, preceded by the bytes written into the head space (latest first), minus the bytes already read, and every reported length (readable, head room, tail room, capacity) agrees with it. Integers of every width come back unchanged when read or peeked in the byte order they were written in (big endian when none is named), and peeking consumes nothing. A fixed-size read or write that does not fit reports an error and changes nothing, block and stream transfers move exactly the number of bytes they report, and no operation crashes.",
 ["inputs","histories"],"every capacity, head reservation, backing slice and finite sequence of operations with every argument",
 "the 20 buffer tests each run one short straight-line script on a 64-byte buffer; no test mixes operations, uses a caller-supplied slice shorter than its capacity, a failing or short reader/writer, or checks the state after an error",
 ["ubuf.go"],
 [("reader/writer index arithmetic and bounds checks","ubuf.go: Read*, Write*, Peek*, WriteHead*, ReadFrom, WriteTo, Reset")],
 [("readerIndex, writerIndex, reserved","window of readable bytes and the head room","ubuf.go: type UBuf")],
 ["results and length accessors of every exported buffer call"])

p("C02","Snapshots are independent of their source",
 "A copy-on-write or direct-copy snapshot starts with exactly the readable content, head room and tail room of its source. Afterwards no operation on any one of the source, its snapshots and snapshots of those changes what any other of them holds, reports or can still read or write. A reference snapshot has its own read and write positions over the same underlying bytes as its source. (Reference snapshots and copy-on-write snapshots of one and the same buffer are not combined.)",
 ["histories","inputs"],"every tree of snapshots and every interleaved sequence of buffer operations on its members",
 "one test per snapshot kind, one source, one snapshot, tail writes only",
 ["ubuf.go"],
 [("copy on write with reference counting","ubuf.go: UBufMakeSnapshot, resolveCopyOnWriteIfNeed")],
 [("refCount, copyOnWrite","who still shares the bytes","ubuf.go: uBufData, UBuf")],
 ["results and length accessors on every handle after every operation"])

p("C03","Copy-on-write relatives may be used from different goroutines",
 "When a buffer and its copy-on-write snapshots are each used by a different goroutine, then under every interleaving each of them behaves exactly as if it owned a private copy made when the snapshot was taken. No interleaving produces a data race between them.",
 ["schedules"],"every interleaving of operations on copy-on-write relatives owned by different goroutines, including taking further snapshots",
 "no test uses two goroutines",
 ["ubuf.go"],
 [("atomic reference count; the shared bytes are copied before they are released","ubuf.go: resolveCopyOnWriteIfNeed")],
 [("refCount","number of handles that still read the shared bytes","ubuf.go: uBufData")],
 ["content of every handle; race detector"])

p("C04","Framing survives every segmentation of the byte stream",
 "With framing at both ends, the receiver is handed exactly the messages the sender framed - same bytes, same order, none lost, merged, split or duplicated, empty ones included - for every way the byte stream is cut into reads, provided each message with its length field fits the receiver's reassembly capacity. Each message is handed up as soon as its last byte has arrived.",
 ["inputs","schedules"],"every sequence of message lengths, every cut of the stream into reads up to the MTU, every MTU and reassembly capacity that can hold the largest message",
 "no test touches framing",
 ["proc_frame_decoder.go","ubuf.go"],
 [("length prefix and reassembly cache","proc_frame_decoder.go: OnUpperData, OnLowerData"),("stream transfer between buffers","ubuf.go: ReadFrom, Read")],
 [("reassembly cache","bytes of an incomplete frame","proc_frame_decoder.go: type FrameDecoder")],
 ["buffers handed to the processor above the frame decoder after every read"])

p("C05","Reassembly is private to each connection",
 "Incomplete frames pending on one connection never influence what is delivered from another, for every interleaving of reads on any number of connections (sequential or concurrent), including connections that close in the middle of a frame. Every message is delivered with the connection whose bytes carried it.",
 ["schedules","histories"],"every interleaving of chunks over several connections of one stack, with connections opening and closing at any point",
 "no test opens a connection",
 ["proc_frame_decoder.go","proc_lowerdeck.go"],
 [("one reassembly cache per connection, dropped when the connection closes","proc_frame_decoder.go")],
 [("reassembly caches","incomplete frame per connection","proc_frame_decoder.go: type FrameDecoder")],
 ["messages and their connection at the endpoints"])

p("C06","Arbitrary bytes from a peer are harmless",
 "Whatever bytes a peer sends on a connection and however they are cut, the stack neither crashes nor hangs, and its endpoints are handed only what those bytes decode to under the stack's own wire format: a message that is too short or cannot be decoded is dropped by itself, and later well-formed messages on the same connection are still delivered. Only a frame announced larger than the reassembly capacity may end its connection, because the next frame cannot be found any more. Other connections keep being served unaffected.",
 ["inputs","configurations"],"every byte sequence on every pipeline of codec, session, heartbeat, statistics and framing processors",
 "no test feeds received data through a stack",
 ["proc_frame_decoder.go","proc_session_resolver.go","proc_heartbeat.go","proc_stat_counter.go","proc_load_balancer.go","proc_codec_bytes.go","proc_codec_string.go","proc_codec_json.go","proc_codec_gob.go","proc_codec_generic.go","proc_lowerdeck.go"],
 [("length checks before every header read; drop on error","OnLowerData of every processor")],
 (), ["messages at the endpoints, process exit status"])

p("C07","Messages arrive exactly once, unmodified and in order",
 "When two stacks use the same pipeline (a codec plus any mix of session, statistics, heartbeat, disabled load balancer, flow control and framing processors), every non-empty message that fits the MTU and that an endpoint sends on an open connection reaches the matching endpoint of the peer exactly once, unmodified and in sending order, over TCP, Unix-socket and custom transports. Messages sent concurrently by several endpoints over one connection are never mixed up on the wire, and control traffic of the processors never reaches an endpoint.",
 ["configurations","schedules","inputs"],"every pipeline order, message sequence, number of concurrently sending endpoints and connections, and segmentation",
 "no test builds a stack",
 ["ustack_default.go","proc_upperdeck.go","proc_lowerdeck.go","proc_codec_bytes.go","proc_codec_string.go","proc_codec_json.go","proc_codec_gob.go","proc_codec_generic.go","proc_session_resolver.go","proc_stat_counter.go","proc_heartbeat.go","proc_load_balancer.go","proc_flow_controller.go","proc_frame_decoder.go","tran_tcp.go","tran_unix.go"],
 [("chaining of processors","ustack_default.go: build"),("one sender goroutine per endpoint, one write per message","proc_upperdeck.go: acceptEndpoint; proc_lowerdeck.go: OnUpperData")],
 (), ["messages received by endpoints; bytes written to the connection"])

p("C08","Messages go out whole or not at all",
 "A message whose encoding plus the declared overhead of the pipeline fits the MTU is transmitted whole, and nothing larger than the MTU is ever written for a message an endpoint sends. A message that is too large, that the codec cannot encode or that names no connection is dropped entirely: no part of it reaches the wire, and the messages before and after it are unaffected.",
 ["inputs","configurations"],"every MTU, pipeline and message size around the limit, every position of an oversized or unencodable message in a sequence",
 "no test sends a message through a codec",
 ["proc_codec_bytes.go","proc_codec_string.go","proc_codec_json.go","proc_codec_gob.go","proc_codec_generic.go","ustack_default.go","ubuf.go"],
 [("MTU-sized buffer with the overhead reserved in front; error on short write","OnUpperData of the codecs; ustack_default.go: GetOverhead, GetMTU")],
 [("mtu, overhead","size limits of one message","ustack_default.go: DefaultUStack")],
 ["bytes written to the connection per message"])

p("C09","Messages are routed by session and only by session",
 "An incoming message is delivered to exactly one endpoint: the active one whose session number equals the session carried by the message (0 when the pipeline carries none); it is discarded if there is none, and an endpoint added with a session already in use receives nothing while the earlier one is active. An outgoing message carries the session of the sending endpoint unless the sender set an explicit destination session on it (and did not clear it again), over the whole 32-bit range of session numbers.",
 ["inputs","configurations","histories"],"every set of endpoints and session numbers 0..2^32-1, every destination setting, every arrival order",
 "no test uses an endpoint or a session",
 ["proc_upperdeck.go","proc_session_resolver.go","endp_default.go"],
 [("session header and lookup of the endpoint by session","proc_session_resolver.go; proc_upperdeck.go: findEndPoint, existsEndpoint")],
 [("endpoints","active endpoints of the deck","proc_upperdeck.go: type UpperDeck")],
 ["messages at every endpoint; session field on the wire"])

p("C10","Endpoints can be added and removed at any time",
 "Once an endpoint with a session not in use is added, before or after the stack is started, everything put in its outgoing channel is sent once and in order and incoming messages for its session reach it. After it is removed at most the one message it was already handling is still sent and nothing more is delivered to it; messages left in its channel are kept and go out if it is added again, and another endpoint may take over its session. Adding and removing endpoints concurrently with traffic on others neither disturbs those nor crashes.",
 ["histories","schedules"],"every sequence of adding, removing, re-adding and sending, at every point of the sender's activity, with concurrent traffic",
 "no test adds an endpoint",
 ["proc_upperdeck.go","ustack_default.go","endp_default.go"],
 [("stop channel per endpoint, deck lock","proc_upperdeck.go: acceptEndpoint, deleteEndpoint")],
 [("endpoints","active endpoints with their stop channels","proc_upperdeck.go: type UpperDeck")],
 ["bytes written to the connection; endpoint channels"])

p("C11","Each connection is announced once and reported closed once",
 "For every connection a transport yields, the stack publishes exactly one new-connection event, before anything received on it is delivered, and no closed event precedes it. When the connection ends for whatever reason - peer close, read error, write error, heartbeat loss, transport removal, or any combination of them racing - the connection is closed and exactly one connection-closed event for it is published.",
 ["schedules","fault_sequences"],"every order and overlap of read errors, write errors (from several senders), heartbeat loss and transport removal on every connection",
 "no test opens a connection",
 ["proc_lowerdeck.go","proc_heartbeat.go","ustack_default.go"],
 [("reader goroutine per connection; close path shared by reader and writers","proc_lowerdeck.go: acceptTransport, closeConnection, OnUpperData")],
 [("open connections","connections announced and not yet reported closed","proc_lowerdeck.go: type LowerDeck")],
 ["events at a stack listener; calls on the connection"])

p("C12","Every event reaches every component exactly once",
 "Every published event is delivered exactly once to each stack listener, endpoint, processor and feature that is registered during the whole publication, even if handlers add or remove endpoints and transports or publish further events while it is being delivered, or other goroutines do so concurrently; components removed before or added after the publication do not get it. An endpoint is told of its own removal but not of its own addition. Adding a component that is already there or removing one that is not changes nothing and publishes nothing; every effective addition or removal publishes exactly one event, and the registry lists exactly the components added and not removed, in order.",
 ["histories","schedules"],"every sequence and nesting of add, remove and publish operations issued by the application and by event handlers",
 "no test publishes an event",
 ["ustack_default.go","feat_base.go"],
 [("broadcast over the registries","ustack_default.go: PublishEvent, AddEndPoint, DeleteEndPoint, AddTransport, DeleteTransport")],
 [("endpoints, transports, listeners, features","registered components","ustack_default.go: DefaultUStack")],
 ["event handlers of every component; GetEndPoint, GetTransport"])

p("C13","Transports can be stopped and restarted at any time",
 "When a TCP or Unix-socket transport is stopped or removed from the stack, at whatever moment of listening, dialing, accepting or handing over a connection, the process does not crash, all its connections end up closed, waiting for its next connection ends with none, its address no longer accepts connections, and no later connection is announced. A stopped transport can be started again at the same address and then works like a new one; starting it twice or stopping it twice changes nothing.",
 ["schedules","histories"],"every interleaving of start, stop, dial, accept and hand-over",
 "no test opens a socket",
 ["tran_tcp.go","tran_unix.go","proc_lowerdeck.go"],
 [("run state, listener, list of open connections and hand-over channel under the transport lock","tran_tcp.go, tran_unix.go: Run, Stop, accept, connect, NextConnection")],
 [("isRunning, listener, connections, next","life cycle of the transport","tran_tcp.go: TCPTransport; tran_unix.go: UDSTransport")],
 ["connections returned, connection state seen by both ends, process exit status"])

p("C14","Heartbeat loss is detected in time and only when real",
 "On every open connection a heartbeat is sent at once and then every configured interval until the connection closes. A heartbeat-lost event for a connection is published only if no heartbeat arrived on it for at least the configured timeout while it was open, within one second of that timeout, once per lapse, and the connection is closed if and only if closing on loss is configured. Heartbeats never reach the layers above, other traffic does not count as a heartbeat, and connections that are closed or carry references are never reported.",
 ["schedules","inputs","configurations"],"every interval, timeout and closing option, and every pattern in time of heartbeats, data, connects and closes on several connections",
 "no test runs the heartbeat processor; it involves time",
 ["proc_heartbeat.go"],
 [("last-heard time per connection, checked every second","proc_heartbeat.go: check, OnLowerData, OnEvent")],
 [("monitors","last heartbeat per connection","proc_heartbeat.go: type Heartbeat")],
 ["events at a stack listener, bytes written and calls on the connection, in virtual time"])

p("C15","Statistics are exact",
 "The counters reported to a querying peer are exactly the numbers of messages the layers above have sent and received through the enabled statistics processor so far over all connections, however many endpoints and connections are active concurrently. Queries and answers are not counted and never reach the layers above; exactly one answer is returned per query, on the connection that asked, and a configured collection interval produces one query per interval on every open connection.",
 ["schedules","histories"],"every sequence and interleaving of messages in both directions over several connections, queries at any point",
 "no test runs the statistics processor",
 ["proc_stat_counter.go"],
 [("tag byte and counters","proc_stat_counter.go: OnUpperData, OnLowerData, response, OnEvent")],
 [("txCounter, rxCounter","messages counted","proc_stat_counter.go: type StatCounter")],
 ["answer bytes on the connection"])

p("C16","Filter and forwarder obey their predicates",
 "An enabled filter lets a message pass in its direction exactly when at least one of its predicates accepts it, and drops it otherwise; an enabled forwarder keeps a message from continuing exactly when one of its functions takes it. Predicates are called in order until one says yes, with the message and its direction, in both directions; a disabled filter or forwarder calls none and passes everything unchanged.",
 ["inputs","configurations"],"every list of one or more predicates, every outcome pattern, both directions, enabled or not",
 "no test uses a filter or forwarder",
 ["proc_filter.go","proc_forwarder.go"],
 [("predicate list","proc_filter.go: doFilter; proc_forwarder.go: doForward")],
 (), ["messages above and below the processor; predicate calls"])

p("C17","Processors do their job when enabled and step aside when disabled",
 "While enabled, echo returns every received message unchanged to the connection it came from and passes nothing up, discard drops every received message, loopback returns every sent message to the sender's side and passes nothing down, and all of them leave the opposite direction as documented (echo and discard pass sent messages down; loopback passes nothing up). While disabled, echo, discard, loopback, flow control, filter, forwarder, session and framing processors pass everything through unchanged in both directions, and statistics and load-balancer processors only add and strip their one-byte tag. A disabled codec encodes and decodes nothing. Switching at any quiet moment takes effect for all following messages.",
 ["histories","configurations"],"every pipeline containing these processors and every sequence of switching and traffic",
 "no test builds a pipeline",
 ["proc_echo.go","proc_discarder.go","proc_loopback.go","proc_flow_controller.go","proc_filter.go","proc_forwarder.go","proc_session_resolver.go","proc_frame_decoder.go","proc_stat_counter.go","proc_load_balancer.go","proc_base.go"],
 [("enable flag","proc_base.go: SetEnable; OnUpperData/OnLowerData of the processors")],
 [("enable","processor is active","proc_base.go: ProcBase")],
 ["messages at endpoints, bytes on the connection"])

p("C18","Reference transports hand over objects one to one",
 "A server-side and a client-side reference transport with the same address are connected to each other and to nobody else: every object sent by one side is received by the other exactly once, in order and as the identical object, in both directions, whichever side starts first, and sending waits when the configured queue is full. Stopping a side closes its connection, ends its pending and later receives and sends with an error, and makes waiting for its next connection end with none; after both sides have stopped, the address can be used afresh and nothing of the earlier traffic is left. Framing, heartbeat, statistics and load-balancer processors pass objects through untouched.",
 ["histories","schedules"],"every sequence of start, stop, send and receive on both sides, several addresses, every queue size",
 "no test uses a reference transport",
 ["tran_reference.go","proc_lowerdeck.go","proc_frame_decoder.go","proc_heartbeat.go","proc_stat_counter.go","proc_load_balancer.go"],
 [("reference-counted channel pair per address","tran_reference.go: Run, Stop, GetReference, SetReference")],
 [("chans, refCount","channel pairs in use","tran_reference.go")],
 ["objects at the connections and endpoints"])

p("C19","A data listener sees every message once and in order",
 "Every message that arrives at an endpoint is handed exactly once, in arrival order and never two at a time, to the data listener installed at the time, however often listeners are installed, replaced or removed. While no listener is installed nothing is consumed: messages stay in the receive channel for the application or for the next listener.",
 ["histories","schedules"],"every sequence and interleaving of installing, replacing and removing listeners with arriving messages and with listeners that take long or reinstall themselves",
 "no test uses an endpoint",
 ["endp_default.go"],
 [("receive goroutine","endp_default.go: SetDataListener, autoReceive")],
 [("dataListener, inAutoReceive","current listener and whether a goroutine serves it","endp_default.go: DefaultEndPoint")],
 ["listener calls, receive channel"])

p("C20","A client transport connects once within its retry budget",
 "A client transport tries to reach its server at once and then once per retry interval; it yields exactly one connection as soon as an attempt succeeds and makes no further attempts. If the configured number of attempts fails it stops by itself and waiting for its connection ends with none; stopping it earlier ends the attempts, and a restart begins with a full budget.",
 ["schedules","configurations"],"every budget and interval, every time at which the server appears or the transport is stopped",
 "no test dials; it involves time",
 ["tran_tcp.go","tran_unix.go"],
 [("retry loop","tran_tcp.go, tran_unix.go: connect")],
 [("maxRetryCount, retryIntervalInSecond","budget","tran_tcp.go, tran_unix.go")],
 ["time at which the next connection (or none) is returned, in virtual time"])

p("C21","Settings are obeyed and reported back",
 "Every component goes by the value last set under an option's name before it was started, if that value has the option's type, and by the default otherwise: MTU 2048; reassembly capacity twice the MTU; a heartbeat every second, lost after 30 seconds and closing; no collection of statistics; 180 attempts one second apart; queues of 512 objects. A transport that is started again goes by the settings of that moment. Setting an option under another name, or at another component or stack, changes nothing. What was set (names, options, endpoints, transports, features) is what is returned when asked for, in the order of addition, and after the start the reported MTU and overhead are those of the configured stack.",
 ["histories","configurations"],"every sequence of settings of right and wrong types at every component, starts and restarts in between",
 "no test sets an option; heartbeat and retry defaults involve minutes of time",
 ["utils.go","ustack_default.go","proc_base.go","feat_base.go","proc_frame_decoder.go","proc_heartbeat.go","proc_stat_counter.go","tran_tcp.go","tran_unix.go","tran_reference.go"],
 [("options are looked up when a component starts","utils.go: OptionParse*; Run and parseOptions of the components")],
 [("options","values by name","options fields of stack, processors, transports, features, context")],
 ["sizes of messages and frames let through, times of heartbeats, queries and attempts (virtual time), objects queued, results of the getters"])

p("C22","Stacks in one process do not influence each other",
 "Any number of stacks with components of their own may live in one process, at the same time or one after the other: each delivers, sends, counts, reassembles, monitors, publishes and connects exactly as if it were alone, whatever the others do, even if names, sessions and connection names are the same in all of them. Only the two sides of a reference address are coupled, and only with each other.",
 ["histories","schedules","configurations"],"every combination and interleaving of what several stacks do",
 "no test runs a stack, let alone two",
 ["ustack_default.go","proc_upperdeck.go","proc_lowerdeck.go","proc_frame_decoder.go","proc_heartbeat.go","proc_stat_counter.go","endp_default.go","tran_reference.go","ubuf.go"],
 [("state is kept per instance","fields of the components; the only table of the package is chans in tran_reference.go")],
 [("X of each stack","state of Stack.tla, one per stack","all components")],
 ["everything the other properties observe, of several stacks at the same time"])

p("C23","Nothing is kept of what has ended",
 "A stack may run for ever while connections, endpoints and transports come and go: what it holds at rest depends on what is open at that moment, not on what has been. When a connection has ended and been reported, its goroutines end at the latest after one heartbeat or statistics interval, and the stack lets go of it and of bytes still pending on it, also if the end is reported while its last bytes are being handled; a transport lets go of it at the latest when its next connection comes. When an endpoint without data listener is removed, or a transport is removed, its goroutines end too and so do those of its connections.",
 ["histories","schedules"],"every history of comings and goings, however long, and every moment at which a connection ends",
 "a leak shows only after many connections, no test opens one",
 ["proc_lowerdeck.go","proc_upperdeck.go","proc_frame_decoder.go","proc_heartbeat.go","proc_stat_counter.go","tran_tcp.go","tran_unix.go","tran_reference.go"],
 [("a closed event removes what was kept for a connection","proc_frame_decoder.go: OnEvent, getCache; proc_heartbeat.go: deleteMonitor, takeLost; proc_lowerdeck.go: closeConnection; tran_*.go: saveConnection")],
 [("connections, caches, monitors, endpoints","entries by connection or endpoint","maps of the processors and decks, lists of the transports")],
 ["number of goroutines and of ended connections that are still reachable, at rest"])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for q in P: f.write(json.dumps(q)+"\n")
