#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, level_note, technique, state=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why,
        files=files, mech=mech, observe=observe, note=level_note, technique=technique, state=state))

NAT = "exhaustive bounded enumeration of inputs on the real code against a reference model"
SCH = "stateless model checking of the real code: all schedules within a deviation bound under a controlled scheduler, virtual network and clock"
HIS = "stateless model checking of the real code: all operation histories up to a depth against a reference model, and all schedules within a deviation bound"

p("C01", "Packed messages have the documented layout and decode to what was packed",
  "For every message id, header and body, each packing function produces [length][id][header length][body length][header JSON][body], big-endian, with length = total-4. Every decoding function and accessor (also on a block followed by further bytes) returns exactly the id, header, body bytes and value that were packed, for every marshaller. A packed buffer is not changed by later packing or unpacking, nor are the headers and values given.",
  ["inputs", "configurations"], "all ids, headers, bodies, marshallers, packing functions and sequences of two packings",
  "The tests pack a few fixed messages; boundary ids, every body length, every pair packer/accessor and aliasing between packets are not sampled.",
  ["packx.go", "pack-type.go", "message.go", "marshaller.go", "utils.go"],
  [("PackWithMarshaller", "packx.go:293"), ("PackWithMarshallerAndBody", "packx.go:534"), ("UnpackWithMarshaller", "packx.go:364")],
  ["return values of the packing and unpacking functions"],
  "Complete within the bound: 12 boundary ids x 8 headers x all marshallers x all packers, every body size up to the bound and around powers of two; the reference encoder and decoder are independent of tcpx. Trusts the JSON/XML/YAML/TOML/protobuf libraries.", NAT)
p("C02", "Messages survive any segmentation of the stream, partial reads and writes",
  "However the bytes of a stream are split into reads, and whether the last bytes arrive together with or before the end of the stream, the block-reading functions return exactly the complete messages, in order and byte for byte, and then an error (io.EOF where the stream ends between messages). They never return a truncated message or consume bytes beyond it. A buffer written through WriteConn arrives complete and in order whatever number of bytes each write accepts, or an error is returned.",
  ["inputs", "fault_sequences"], "all segmentations, truncation points, end-of-stream conventions and partial-write patterns",
  "Tests read from buffers or loopback sockets where a read returns everything; they never see a read that splits the length field or returns data together with EOF.",
  ["packx.go", "utils.go"], [("readUntil", "packx.go:512"), ("WriteConn", "utils.go:99"), ("write", "utils.go:265")],
  ["results of FirstBlockOf*, UnpackToBlockFromReader*, UnPackFromReader, Recv; bytes received by the peer of WriteConn"],
  "Complete: all 2^(n-1) segmentations of short streams, all choices of up to k cuts of realistic ones, all truncations, four end-of-stream conventions, for every reader function; all partial-write patterns of short buffers.", NAT)
p("C03", "No bytes make a decoder panic or return what is not in the message",
  "For every byte string, the decoding functions and accessors return an error or a result; they never panic and never run past the input. A returned message id, header, body or block is the one the layout designates, and a section whose announced length does not fit is an error.",
  ["inputs"], "all byte strings (bounded: boundary values in each length field x lengths x contents; all short strings over a small alphabet)",
  "Tests decode well-formed messages only.",
  ["packx.go", "pack-type.go"], [("length checks of the accessors", "packx.go:153-290"), ("UnpackWithMarshaller", "packx.go:364")],
  ["results and panics of every exported decoder"],
  "Complete within the bound: all combinations of boundary values of the four length fields, stream lengths and section contents, and all strings up to a length over a small alphabet, for every decoder.", NAT)
p("C04", "A hostile client affects nobody but itself",
  "Whatever bytes a client sends, in whatever segmentation, and however it disconnects (or never reads its replies), the server process does not crash, other clients' messages are handled once each and answered, and new clients can connect. A connection whose stream is malformed is closed by the server, and its well-formed messages sent before that are still dispatched once each.",
  ["inputs", "schedules", "fault_sequences"], "a catalogue of malformed streams and disconnects x read segmentations x schedules",
  "Tests run with well-behaved clients and one schedule.",
  ["tcpx.go", "packx.go", "context.go"], [("connection loop", "tcpx.go:514"), ("batch parsing", "tcpx.go:1282")],
  ["handler calls, replies and disconnects seen by the other clients, process panics"],
  "All schedules within 2 deviations (coarse) and 1 deviation (statement level or read segmentation) of two default orders for 47 hostile behaviours, with and without a message size limit.", SCH)
p("C05", "Every message received is handled exactly once, with its own content",
  "Each complete message received on a connection makes its handler run exactly once with exactly that message's content, for the handler's whole duration, whichever other messages and connections are being processed, and also when the client disconnects right after sending. No handler runs for anything that was not sent.",
  ["schedules", "inputs"], "all schedules and read segmentations of up to 3 clients and 4 messages",
  "The tests send one message at a time and never overlap handlers.",
  ["tcpx.go", "context.go"], [("one context per message", "context.go:81"), ("connection loop", "tcpx.go:514")],
  ["content seen by handlers at start and end"],
  "All schedules within the deviation bound, statement level with read segmentation at 1 deviation, coarse at 2 (3 thorough).", SCH)
p("C06", "Each message runs exactly its route's chain, in order",
  "For every sequence of UseGlobal, Use, UnUse, AddHandler and Any registrations, a message runs the global middlewares, then the anchored middlewares in use when its handler was registered, in the order of their first registration, then the handlers of its route, each once. A message of an unknown route, or with a router type other than the two, runs nothing (without one the id decides), and message-id routes and URL routes do not interfere. The heartbeat and auth handlers run alone if configured not to go through middlewares (a rewritten heartbeat handler inherits that, and replaces the old one), else like any handler. With OnMessage set, every message instead runs the global and anchored middlewares and then OnMessage, once each.",
  ["programs", "schedules"], "all registration programs up to a length, all routes; concurrent requests",
  "Tests cover a few fixed registrations.",
  ["mux.go", "url-mux.go", "anchor.go", "tcpx.go"], [("MiddlewareAnchor.Contains", "anchor.go:97"), ("handleMessageIDHandlers", "tcpx.go:942"), ("handleURLPatternHandlers", "tcpx.go:1000")],
  ["order of handler calls"],
  "All registration programs up to length 4 (5 thorough) over 9 configurations, all Use/UnUse histories up to length 8 (10), against a reference router; concurrent requests under the schedule bound.", HIS)
p("C07", "Abort stops and Next steers exactly the rest of the message's chain",
  "When a handler of a chain calls Abort, no later handler of that message runs; when it calls Next, the later ones run before Next returns; each handler runs at most once. This holds at every position of a chain of any length, and one message's Abort or Next never affects another message, concurrent or later, on the same or another connection.",
  ["programs", "schedules"], "all assignments of {return, Next, Abort, Abort+Next, Next+Next, Next+Abort, Abort+Abort} to the handlers of a chain; concurrent messages",
  "Tests abort in one position of one chain, one message at a time.",
  ["context.go", "tcpx.go"], [("Abort/Next offset", "context.go:570"), ("ResetOffset per message", "context.go:588")],
  ["order of handler calls"],
  "All assignments of 7 behaviours to chains of up to 4 handlers; chains of 3-25 handlers with an abort at every position; pairs and triples of concurrent messages under the schedule bound.", HIS)
p("C08", "Request values stay in their request, connection values in their connection",
  "A value set per request is seen by all later handlers of that message and by no other message; a value set per connection is seen by every later message of that connection, by its OnClose, and by no other connection. Concurrent use from several handlers is safe.",
  ["schedules", "histories"], "all set/get histories up to a depth; all schedules of concurrent messages",
  "Tests set and read one value on a hand-made context.",
  ["context.go"], [("copyContext", "context.go:81"), ("SetCtxPerConn", "context.go:372"), ("SetCtxPerRequest", "context.go:430")],
  ["GetCtxPerRequest and GetCtxPerConn in handlers"],
  "All histories of length 3 (4) on two connections against two maps; concurrent set/get under the schedule bound.", HIS)
p("C09", "Every reply arrives whole, once, unmixed, at the right client",
  "Each successful reply or push (Reply, JSON, XML, TOML, YAML, ProtoBuf, ReplyWithMarshaller, SendToConn, SendToUsername) puts exactly one well-formed message on the connection it addresses, with the id, headers and body given, encoded with the stated marshaller. Messages written concurrently to one connection are never interleaved, lost or duplicated, and none arrives at another client.",
  ["schedules", "inputs", "configurations"], "all schedules of concurrent repliers; every reply method x marshaller x headers",
  "Tests use one reply at a time and read it back over loopback.",
  ["context.go", "packx.go"], [("replyBuf single write", "context.go:523"), ("commonReply", "context.go:482")],
  ["bytes received by each client"],
  "All schedules within the bound, statement level at 1 deviation and coarse at 2, small send windows included; all combinations of reply method, marshaller, header count and network.", SCH)
p("C10", "The pool maps a user name to its live connection and nothing else",
  "With the built-in pool on, after Online a lookup or SendToUsername for that name reaches exactly the connection that logged in last under it, until that connection goes Offline or ends, after which the name is free and sending to it is an error. A connection's log-out or end, in whatever order and overlap with other log-ins, never removes another connection's entry, and an ended connection never stays in the pool, also when it logged in under several names. A ClientPool of one's own is a map from names to contexts.",
  ["histories", "schedules"], "all histories of log-ins, log-outs, disconnects and reconnects of three clients sharing two names; all schedules of overlapping ones",
  "The tests do not use the pool with reconnecting clients or overlapping events.",
  ["client-pool.go", "context.go"], [("offlineContext", "client-pool.go:52"), ("Online", "context.go:133"), ("CloseConn", "context.go:294")],
  ["GetClientPool, SendToUsername, messages received by clients"],
  "All histories of length 5 (6 thorough) against a map; nine races under the schedule bound, reconnect races at statement level with 2 deviations.", HIS)
p("C11", "A handler's context is its own message; client helpers send what they are given",
  "Throughout a handler, Bind, BindWithMarshaller, RawStream, Stream, RouterType, GetURLPattern, Network, ClientIP and the PackType accessors report exactly the id, header, body, route and peer of the message being handled, whatever other messages and connections are processed. ClientIP is the peer's IP without port, 127.0.0.1 for the IPv6 loopback. WriteJSON, PipeJSON and TCPCallOnceJSON put exactly the given messages on the wire (PipeJSON as one batch of their number, in order), or return an error having sent nothing; TCPCallOnceJSON also closes its connection. Recv returns the messages of a connection one by one.",
  ["inputs", "schedules"], "all ids x headers x bodies, all peers of a catalogue, all argument lists up to 3 pairs, all schedules and read segmentations of up to 2 clients",
  "Tests print what they receive; concurrent requests, IPv6 peers, wrong arguments and failing connections do not occur in them.",
  ["context.go", "utils.go", "pack-type.go", "message.go"], [("Bind, RouterType, GetURLPattern, ClientIP", "context.go"), ("WriteJSON, PipeJSON, TCPCallOnceJSON, Recv", "utils.go")],
  ["results of the accessors inside handlers, bytes on the wire, errors of the helpers"],
  "Complete for 9 ids x 18 headers x 6 bodies, 18 addresses x zones x ports and all lists of up to three pairs of good and bad arguments (smaller set for the third pair); all schedules within 2 deviations (coarse) and 1 (statement level, read segmentation) for six kinds of routes and six client programs.", SCH)
p("C12", "A connection's life: OnConnect once, OnClose once, everything released",
  "For every connection OnConnect runs exactly once and before any of its messages' handlers, and OnClose runs exactly once when it ends, in whichever way or ways at once it ends (client close, reset or half-close, malformed stream, CloseConn in handlers, heartbeat loss, auth failure, deadline, Stop(true)). After that its socket is closed, its context reports offline, it is not in the pool, none of its goroutines remains and the server no longer holds its context; other connections are untouched.",
  ["schedules", "fault_sequences", "histories"], "19 endings and pairs of simultaneous endings x features x schedules; messages and disconnects at the moment of connecting; all connect/message/disconnect histories",
  "Tests have no concurrent endings and never count OnClose calls or goroutines.",
  ["tcpx.go", "context.go"], [("CloseConn", "context.go:294"), ("connection loop and its deferred clean-up", "tcpx.go:514")],
  ["OnConnect/OnClose calls, socket state, IsOffline, pool, goroutines"],
  "All schedules within the deviation bound for each ending, with and without all features; all histories of length 6 (7).", HIS)
p("C13", "Heartbeats keep a connection; three missed intervals end it",
  "With heartbeat mode on, a connection lives as long as each heartbeat arrives within three intervals of the previous one (or of connecting), whatever the other traffic. Exactly three intervals after the last heartbeat the loss event runs once, with the connection still usable, and the connection is closed, whether the heartbeat id is the default, custom, or rewritten with an own handler that calls RecvHeartBeat. Heartbeats in any number never block their handlers, and a client that left causes no loss event.",
  ["histories", "schedules"], "all timelines of heartbeats, messages and silence; all schedules of bursts",
  "The tests have one real-time heartbeat scenario.",
  ["tcpx.go", "context.go"], [("heartBeatWatch", "tcpx.go:1079"), ("RecvHeartBeat", "context.go:661")],
  ["times at which the connection is closed and the event runs, in virtual time"],
  "All timelines of 7 (9) half-interval slots for five configurations, pairs of timelines on two connections, eight intervals from a microsecond to days with eight ids, bursts under the schedule bound.", HIS)
p("C14", "A connection lives on only if it is authenticated in time",
  "With auth on, a connection is closed at the configured time after connecting unless RecvAuthPass was called for it before, and it is closed at once when RecvAuthDeny comes first; after a pass it is never closed for auth reasons. Auth results of one connection never affect another, and calling them any number of times never blocks the handler.",
  ["histories", "schedules"], "all timelines of pass, deny, messages and nothing on two connections; all schedules",
  "The tests do not exercise auth.",
  ["tcpx.go", "context.go"], [("authWatch", "tcpx.go:1139"), ("RecvAuthPass", "context.go:698")],
  ["connection state over virtual time, OnClose calls, handler completion"],
  "All timelines of 3 (4) slots on two connections, observed just before and at the deadline; eight deadlines from a microsecond to days; nine races under the schedule bound.", HIS)
p("C15", "Messages of a pipe batch run one after another, in order, each once",
  "The messages of a batch (as sent by PipeJSON) are handled strictly in order, each completely before the next, exactly once, whatever the segmentation and whichever batches or single messages precede, follow or run on other connections. If a batch is cut short by a disconnect, the messages received still run in order and nothing else runs, and the server goes on.",
  ["schedules", "inputs", "histories"], "all sequences of batches and singles up to a length, all cut points, all schedules",
  "The tests send one batch and do not check overlap.",
  ["tcpx.go", "utils.go"], [("isPipe", "tcpx.go:1282"), ("handlePipe", "tcpx.go:1046"), ("PipeJSON", "utils.go:146")],
  ["start and end of handlers"],
  "All layouts of up to 4 (5) batches/singles, cut after any message; concurrency under the schedule bound.", HIS)
p("C16", "Stop ends serving; Stop(true) closes every connection, Stop(false) none",
  "After Stop every endpoint of the server (tcp, tcp4, tcp6, unix, udp, udp4, unixgram, raw, several at once) is closed, refuses clients and its ListenAndServe call has returned. When Stop(true) returns the established connections are closed, and after it no connection stays open, including one accepted while Stop ran, OnClose has run once for each, the pool is empty of them and no goroutine remains; after Stop(false) every established connection keeps working, with its heartbeat, auth, pool and signal features. Stop of a server that is not running is an error.",
  ["schedules", "configurations"], "all networks; all schedules of Stop with connects, messages, disconnects, a second Stop",
  "Tests stop one idle tcp server.",
  ["tcpx.go"], [("Stop", "tcpx.go:1188"), ("addConn/removeConn", "tcpx.go:651"), ("closeAllConnection", "tcpx.go:1217")],
  ["listening sockets, connections, replies, OnClose calls, goroutines"],
  "All schedules within the bound: 1 deviation for every network, 2 coarse / 1 statement level for the races.", SCH)
p("C17", "Start and Restart bring every endpoint back as it was",
  "After any history of Stop, Start and Restart, a running server serves all its endpoints the way each was first served (framed, raw, udp with its buffer size), old connections live exactly if no Stop(true) or Restart(true) intervened, and a final Stop(true) leaves nothing behind. Restart runs its functions once each, in between, one after the other while the endpoints are down, and the calls that served before return; Start of a running server and Restart of a stopped one are errors. An endpoint whose address is held by another program meanwhile does not keep the others from being served and stopped, and it works after the next Start when the address is free.",
  ["histories", "schedules"], "all histories up to a length over four endpoint sets; all schedules of a Restart with a client at work",
  "Tests restart one tcp endpoint once.",
  ["tcpx.go"], [("fillProperty", "tcpx.go:415"), ("Start", "tcpx.go:1239"), ("Restart", "tcpx.go:1266")],
  ["listening sockets, answers to old and new clients, errors returned"],
  "All histories of length 4 (5) against a reference; Restart races and all subsets of taken addresses under the schedule bound.", HIS)
p("C18", "SetMaxBytePerMessage admits exactly the messages within the limit",
  "With a limit set, a message whose length field exceeds it is never dispatched nor buffered and its connection is closed, in any position of the stream and inside a batch; messages up to the limit are handled normally, and other connections are not affected. A limit of zero or less means no limit.",
  ["inputs", "schedules"], "all limits and lengths in a range; positions, batches, segmentations and schedules",
  "One test checks one message.",
  ["packx.go", "tcpx.go"], [("UnpackToBlockFromReaderLimitMaxLengthOfByte", "packx.go:477"), ("connection loop", "tcpx.go:514")],
  ["handler calls, connection state, size of the reads the server prepares"],
  "All limits x lengths up to 48 (300) for the readers; nine lengths around two limits x position x batch on the server under the schedule bound.", SCH)
p("C19", "Deadlines end exactly the connections and writes they govern",
  "A read deadline (or a general deadline where no read deadline is set) closes a connection when it passes and not before; a write deadline (or the general one) makes writes fail from that time on and not before; without deadlines neither happens. Deadlines set through a connection's context, in OnConnect or a handler, apply to that connection only and replace those of the server for it, and a zero time removes them.",
  ["configurations", "histories", "schedules"], "all combinations of the three deadlines on tcp, unix and raw servers; all single and double changes through the context",
  "The tests set one deadline.",
  ["tcpx.go", "context.go"], [("initDeadline", "tcpx.go:178"), ("Context.SetDeadline", "context.go:324")],
  ["time of closing and success of replies in virtual time"],
  "All combinations, observed every second of virtual time, under the schedule bound.", SCH)
p("C20", "Each datagram is handled once and answered to its sender",
  "On udp and unixgram endpoints every well-formed datagram that fits the buffer is dispatched exactly once with its own content through its middlewares and handlers, whichever others are being handled (bytes behind the message in its datagram are ignored), and every reply is one datagram to the sender of that datagram. Malformed, empty or oversized datagrams are dropped without affecting any other, and serving datagrams leaves no goroutine behind.",
  ["inputs", "schedules", "configurations"], "all schedules of two clients' datagrams; a catalogue of malformed datagrams; sizes around the buffer size",
  "The tests send one datagram.",
  ["tcpx.go", "context.go"], [("ListenAndServeUDP", "tcpx.go:685"), ("ReadAllUDP", "tcpx.go:766")],
  ["handler calls, datagrams received by each client"],
  "All schedules within the bound for five networks and both routing kinds, 43 malformed datagrams, nine sizes around two buffer sizes; up to 1200 handlers at once.", SCH)
p("C21", "Raw mode hands over the byte stream untouched",
  "On a raw endpoint the middlewares and then HandleRaw run once per connection, the handler reads exactly the bytes its client sent and the client receives exactly what the handler wrote, whatever the segmentation. OnConnect precedes them and OnClose runs once; the connection is closed when the handler returns, an Abort in a middleware keeps HandleRaw from running, and nothing remains afterwards.",
  ["schedules", "inputs"], "all schedules and segmentations of two raw clients; all combinations of abort, immediate return and features",
  "The tests do not serve raw mode.",
  ["tcpx.go"], [("ListenAndServeRaw", "tcpx.go:442"), ("handleRaw", "tcpx.go:1053")],
  ["bytes on both sides, order of callbacks, connection state"],
  "All schedules within the bound, with read segmentation.", SCH)
p("C22", "The server's internal state is free of data races",
  "In every execution of the exported API that the concurrent server model allows (clients connecting, sending, leaving; handlers replying, logging in, using context values, heartbeats, auth; Stop and Restart), no two goroutines access the same memory of the library without synchronisation, one of them writing. This includes any two Context, pool and server methods called concurrently for one connection or for two.",
  ["schedules", "programs"], "all pairs of API calls and the scenarios of the other properties, all schedules within a bound",
  "go test -race sees only the schedules that happen to occur, and the tests have almost no concurrency.",
  ["tcpx.go", "context.go", "client-pool.go", "mux.go"], [("locks and channels of TcpX, Context and ClientPool", "tcpx.go, context.go, client-pool.go")],
  ["happens-before analysis of each explored execution"],
  "Happens-before monitor (Go race detector, scheduler edges excluded) on every execution of an exhaustive enumeration of all API pairs and of the other properties' scenarios with 0-1 deviations.", SCH + "; a happens-before race monitor judges each")
p("C23", "A server with a TLS configuration speaks only TLS",
  "With TLSConfig set or loaded by LoadTLSFile, clients of every stream endpoint of ListenAndServe are served over TLS as configured (its certificates, versions, cipher suites and client authentication) and nothing of their messages is readable on the wire, and a plaintext client is never served nor sent plaintext, before and after Stop, Restart and under any schedule. LoadTLSFile reports an error for every unusable pair of files.",
  ["schedules", "configurations", "inputs"], "networks x configuration way x schedules; all pairs of a set of good and bad files",
  "One test loads one file.",
  ["tls.go", "tcpx.go"], [("newListener", "tls.go:15"), ("LoadTLSFile", "tcpx.go:1319")],
  ["bytes on the wire, certificate seen, handler calls"],
  "All schedules within the bound (crypto/tls runs for real over the virtual network); all pairs of 8 files.", SCH)
p("C24", "The Python client and the Go server understand each other",
  "Every message packed by the Python client's protocol module is decoded by the Go package to the same id, header and body, and the reverse, also when further bytes follow the message.",
  ["inputs"], "all combinations of boundary ids, headers and bodies, in both directions",
  "No test runs the Python client.",
  ["all-language-clients/python/protocol.py", "packx.go"], [("Python pack/unpack", "all-language-clients/python/protocol.py")],
  ["results of the two decoders"],
  "Complete over the product of ids, headers and bodies; the real protocol.py runs under python3.", NAT)
p("C25", "BeforeExit's functions run once, in order, then the process exits",
  "After BeforeExit returned, a SIGINT, SIGTERM or SIGQUIT at any moment makes its functions run exactly once each, in the order given, and then the process exits with code 0; further signals change nothing. Without a signal they never run and the server serves on.",
  ["schedules", "fault_sequences"], "all moments of one or two signals of each kind while clients are served",
  "A signal ends the test process, so the tests cannot exercise it.",
  ["tcpx.go"], [("BeforeExit", "tcpx.go:1167")],
  ["function calls, exit code (os.Exit and signal delivery are virtual)"],
  "All schedules within the bound for each signal pattern.", SCH)
p("C26", "Wrong registrations and endpoints are refused, right ones accepted",
  "Before serving, in any sequence of Use, UnUse, UseGlobal, AddHandler and Any, a call panics exactly when it is wrong: a message id or URL pattern that has handlers already, Use of a middleware key that is in use, UnUse of a key that is not in use, arguments of Use that are not pairs of a string and a func(*Context), or no handler at all; every other call succeeds. ListenAndServe on an unknown network or on an address that is taken returns an error at once, and a server that holds the address serves on.",
  ["histories", "inputs"], "all sequences of registrations up to a length; all networks of a list; all schedules",
  "The tests make a few right registrations and no wrong one.",
  ["mux.go", "anchor.go", "url-mux.go", "tcpx.go"], [("AddHandleFunc", "mux.go:84"), ("AddURLAnchor", "mux.go:214"), ("callUse/callUnUse", "anchor.go:45"), ("ListenAndServe", "tcpx.go:386")],
  ["panics of the registration functions, results of ListenAndServe"],
  "All sequences of 27 calls up to the first refused one, length 5 (7); 19 networks; a taken TCP, UDP and raw address.", NAT)

with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(dict(id=x["id"], title=x["title"], statement=x["statement"],
            quantifier=dict(over=x["over"], text=x["qtext"]), why_tests_cant=x["why"],
            anchors=dict(files=x["files"], mechanism=[dict(name=a, where=b) for a, b in x["mech"]],
                observe_at=x["observe"], hook_needed=None))) + "\n")
m = dict(version=1,
    setup_cmd="bash setup.sh",
    checks=[dict(property=x["id"], quick_cmd="bash check.sh " + x["id"],
        thorough_cmd="VERIF_TIER=thorough bash check.sh " + x["id"],
        technique=x["technique"], level="model_checking", level_note=x["note"]) for x in P],
    not_applicable=[],
    notes="No hooks in /repo: the instrumentation is generated from /repo's working tree at check time and compiled through a Go overlay.")
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)

# DESIGN.md: the sections between the markers are generated
import re, glob
def between(text, name, new):
    a, b = "<!-- %s -->" % name, "<!-- /%s -->" % name
    i, j = text.index(a), text.index(b)
    return text[:i] + a + "\n" + new + text[j:]
sec = ""
for x in P:
    sec += "### %s %s\n\n%s Enumerated: %s. Observed at: %s. Beyond the tests: %s %s\n\n" % (x["id"], x["title"],
        x["technique"][0].upper() + x["technique"][1:] + ".", x["qtext"], "; ".join(x["observe"]), x["why"], x["note"])
    src = "".join(open(g).read() for g in glob.glob(os.path.join(here, "mc/harness", "*" + x["id"].lower() + ".go")))
    for n, d in re.findall(r'Name:\s*"([^"]+)",[^\n]*?Desc:\s*"((?:[^"\\]|\\.)+)"', src):
        sec += "* `%s`: %s\n" % (n, d)
    sec += "\n"
tab = "| bug | property | needs | breaks |\n|---|---|---|---|\n"
for d in sorted(glob.glob(os.path.join(here, "seeded", "*", "meta.json"))):
    m = json.load(open(d))
    tab += "| %s | %s | %s | %s |\n" % (os.path.basename(os.path.dirname(d)), m["property"], m["needs"], m["what_it_breaks"])
f = os.path.join(here, "DESIGN.md")
t = open(f).read()
t = between(t, "properties", sec)
t = between(t, "planted", tab)
open(f, "w").write(t)
