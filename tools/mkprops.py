#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

NET = "an in-memory packet connection in place of the UDP socket (build tag verif)"
WIRE = "datagrams at the packet connection"
RD = "arguments of the application's reader callbacks"

p("C01", "Messages arrive in order, exactly once and unaltered",
  "On every channel and in both directions, the messages handed to the receiving application are at every moment a prefix of the messages successfully written at the other end: same order, byte-for-byte identical, none skipped and none repeated. This holds whatever datagrams the network loses, duplicates, delays or reorders, and for every message length.",
  ["schedules", "inputs", "fault_sequences"], "all sequences of writes, message lengths, goroutine schedules and per-datagram network fates",
  "The tests send over a loss-free, in-order loopback with equal messages and never compare the received sequence with the sent one; the fault patterns and interleavings are unbounded.",
  ["channel.go", "tru.go", "receive_queue.go", "packet.go", "split.go", "send_queue.go"],
  [("receiver compares packet number with the expected one, queues early packets, drops repeats", "tru.go serve"),
   ("receive queue hands over consecutive packets", "receive_queue.go process"),
   ("circular distance between packet numbers", "packet.go distance")],
  [RD, "return values of channel writes", WIRE], NET,
  [("expectedID", "next packet number to hand to the application", "channel.go"), ("recvQueue", "packets that arrived early", "receive_queue.go")])

p("C02", "Every accepted message is recovered after datagram loss",
  "Whatever data or acknowledgement datagrams were lost, as long as the outage is shorter than the inactivity limit, every message accepted by a channel is handed to the peer's reader within a bounded time (the longest retransmission interval plus transit) after the network passes datagrams again. The sender then holds no unacknowledged packet and both channels are still open.",
  ["inputs", "fault_sequences", "schedules"], "all loss patterns over data and acknowledgements, outages up to the inactivity limit, and message mixes",
  "No test loses a datagram; recovery needs timers and fault patterns that the loopback tests never produce.",
  ["send_queue.go", "tru.go", "channel.go", "packet.go"],
  [("unacknowledged packets are kept and retransmitted by a timer", "send_queue.go retransmit"),
   ("repeats are acknowledged again", "tru.go serve"), ("retransmission delay grows up to a limit", "channel.go setRetransmitTime")],
  [RD, WIRE, "channel statistics"], NET,
  [("sendQueue", "packets sent and not yet acknowledged", "send_queue.go")])

p("C03", "A message of any length is split, sent and rejoined as one message",
  "A message of any length (including empty), under any maximum packet length configured on the sending endpoint, reaches the peer as exactly one message with identical bytes, whose packet id equals the id returned by the write. No datagram sent for it carries more payload than the configured maximum (plus fixed encryption overhead), and none exceeds what UDP over IPv4 can carry.",
  ["inputs", "configurations", "fault_sequences"], "all message lengths, maximum packet lengths, and orders of arrival of the parts",
  "One test sends a single 512 KB message with one configured length on a fault-free loopback; the default configuration and the boundaries around multiples of the length are never exercised.",
  ["split.go", "channel.go", "packet.go", "tru.go"],
  [("writer cuts the message in parts flagged 'more follows'", "split.go splitPacket"), ("receiver joins parts", "split.go combinePacket"), ("largest payload", "packet.go MaxDataLen")],
  [RD, WIRE, "return values of channel writes"], NET)

p("C04", "Concurrent writers on one channel never tear or mix messages",
  "When several goroutines write messages of any length to the same channel at the same time, every message arrives exactly once and whole, and the messages of each single goroutine arrive in the order that goroutine wrote them.",
  ["schedules", "inputs"], "all interleavings of concurrent writes of single-packet and multi-packet messages, from either end",
  "Every test writes to a channel from one goroutine; the interleavings of split messages are unbounded.",
  ["channel.go", "split.go", "send_queue.go"],
  [("packet numbers handed out under a lock", "channel.go newID"), ("one message is split without another writer's parts in between", "channel.go WriteTo")],
  [RD], NET)

p("C05", "A delivery callback fires exactly once and tells the truth",
  "The delivery callback of an accepted write is called exactly once: without error only after the peer endpoint has received and acknowledged every part of that message, and otherwise with a timeout error when the delivery timeout given for that write (or the default) has passed. It is never called a second time, whatever acknowledgements arrive later, twice or after the channel has ended.",
  ["schedules", "fault_sequences", "inputs"], "all relative timings of acknowledgement, timeout and channel end; all delivery timeouts and message lengths",
  "The test checks the first call for one message and one timeout; a second, later call and partial acknowledgement of long messages are never looked at.",
  ["packet.go", "channel.go", "tru.go"],
  [("delivery timer per packet", "packet.go SetDelivery"), ("acknowledgement removes the packet and stops the timer", "tru.go serve")],
  ["delivery callback calls", WIRE], NET)

p("C06", "Connect yields a working channel or an error, whatever the handshake meets",
  "Whatever handshake datagrams are lost, duplicated, delayed or reordered, Connect returns within its timeout with either an error, leaving no channel behind at the caller, or a channel over which messages then flow intact in both directions. Duplicated or late handshake datagrams neither crash or block an endpoint nor disturb a channel already established, and the server application is told of a connection once, when it is usable.",
  ["fault_sequences", "schedules"], "all fates (lost, delivered, duplicated, late) of each of the handshake datagrams, and numbers of simultaneous connects",
  "The tests only perform undisturbed handshakes; the subsets of lost, repeated and late handshake datagrams are never driven.",
  ["connect.go", "tru.go", "channel.go"],
  [("four-step handshake keyed by a connection uuid", "connect.go serve"), ("waiting connects", "connect.go wait")],
  ["results of Connect", "connect callback", RD, WIRE], NET)

p("C07", "Channels of one endpoint are independent of each other",
  "With any number of peers on one endpoint, every message is handed over only on the channel it was written to and attributed to the peer that wrote it. Loss, closing, failure or reconnection on one channel neither loses nor misdirects messages of the other channels, nor ends them.",
  ["schedules", "fault_sequences", "histories"], "all numbers of peers, traffic mixes and orders of opening, failing and closing channels",
  "No test has more than one channel per endpoint.",
  ["tru.go", "channel.go", "crypt.go", "connect.go"],
  [("channels are looked up by peer address", "channel.go getChannel"), ("per-channel numbers, queues and session key", "channel.go Channel")],
  [RD, "delivery callback calls"], NET)

p("C08", "Reachable peers stay connected, silent peers are dropped in bounded time",
  "A channel whose peer stays reachable remains open indefinitely, even with no application traffic. A channel that has received nothing from its peer is ended not before 6 seconds and not later than 7 seconds of silence, in either role, and its reader is told.",
  ["fault_sequences", "histories", "schedules"], "all idle periods, loss patterns and moments at which a peer falls silent, from both ends",
  "The tests end within seconds and never let a peer fall silent or a channel idle.",
  ["statistic.go", "channel.go", "tru.go"],
  [("activity check timer", "statistic.go checkActivity"), ("keep-alive ping by the connecting side", "channel.go newChannel"), ("pong", "tru.go serve")],
  [RD, "Destroyed()", WIRE], NET)

p("C09", "A channel ends exactly once and is inert afterwards",
  "However many causes end a channel, at once or one after another (local close, close by the peer, silence, retransmission limit, reconnection, endpoint close), its reader and the endpoint's reader are each told exactly once that it was destroyed, and closing it locally also ends the peer's channel. From then on it reports itself destroyed, writes to it fail with the channel-destroyed error, it is no longer listed by the endpoint, and it sends nothing more.",
  ["schedules", "histories"], "all combinations and interleavings of the causes that end a channel, with timers and traffic in flight",
  "The tests close a channel once, sequentially, and observe nothing afterwards.",
  ["channel.go", "send_queue.go", "statistic.go", "tru.go", "speed.go"],
  [("destroy stops timers, notifies readers and unlists the channel", "channel.go destroy")],
  [RD, "return values of writes", "ForEachChannel, Statistic", WIRE], NET)

p("C10", "Hostile datagrams cannot crash, block or corrupt an endpoint",
  "No datagram of any content, from any address, makes an endpoint panic or stop serving. Datagrams from addresses that own no channel never make it call a reader with data, leave every established channel's traffic untouched, and leave nothing behind beyond a half-open channel that expires by itself.",
  ["inputs", "histories"], "all datagram contents and sequences, before, during and after handshakes, from strangers and from connected peers' addresses",
  "No test sends a malformed or unexpected datagram.",
  ["tru.go", "packet.go", "connect.go", "crypt.go", "split.go"],
  [("datagrams that do not parse are dropped", "tru.go serve"), ("handshake contents are validated", "connect.go serve")],
  ["process survival", RD, WIRE], NET)

p("C11", "Packet encoding is lossless and has the documented layout",
  "For every status (one byte), packet number below 2^20 and payload, an encoded packet has a 4-byte little-endian header with the status in the top byte and the number in the low bits, followed by the payload, and decoding it returns the same status, number and payload. Decoding accepts every input of at least 4 bytes and reports an error, without panicking, for every shorter one.",
  ["inputs"], "all statuses, packet numbers, payload lengths and contents; all byte strings",
  "The test round-trips two header values and never a whole packet.",
  ["packet.go"],
  [("MarshalBinary and UnmarshalBinary", "packet.go"), ("status and id packed in one word", "packet.go packStatID")],
  ["results of MarshalBinary, UnmarshalBinary, ID, Status, Data, Len"])

p("C12", "Payloads travel only encrypted, and long ones cannot be altered",
  "Every data datagram carries its payload encrypted under a session key that is fresh for each connection and crosses the network only RSA-encrypted, in the format an independent implementation of the protocol can decrypt and produce; no payload is sent or accepted in the clear. A data packet that arrives with more than 64 bytes of payload, of which the payload or the packet number was altered in transit, is neither handed to the application nor acknowledged, and the original is still delivered.",
  ["inputs", "fault_sequences", "histories"], "all payload lengths around the cipher boundaries, packet numbers, tampered positions and moments of writing during the handshake",
  "No test looks at the bytes on the wire or tampers with them; both ends share the code, so a symmetric change passes.",
  ["crypt.go", "connect.go", "channel.go", "tru.go"],
  [("packet key from session key and packet number, hash by length", "crypt.go packetKey"), ("AES-GCM over 64 bytes, XOR up to 64 bytes", "crypt.go encryptPacketData"), ("RSA-OAEP key exchange", "connect.go serve")],
  [WIRE, RD], NET)

p("C13", "Wrap-around of packet numbers is invisible to applications",
  "A channel that has carried more packets than there are packet numbers (2^20), in one or several wraps, keeps delivering every message in order, exactly once and intact, with the same loss recovery and duplicate suppression around the wrap as anywhere else.",
  ["histories", "fault_sequences"], "all positions of losses, duplicates, reorderings and message boundaries relative to the wrap",
  "A wrap needs over a million packets; the longest test sends ten thousand.",
  ["packet.go", "channel.go", "receive_queue.go", "send_queue.go"],
  [("circular comparison of packet numbers", "packet.go distance"), ("counters reset at the limit", "channel.go newID, newExpectedID")],
  [RD, WIRE], NET)

p("C14", "Closing an endpoint ends everything it owns",
  "Close returns, tells the endpoint's reader once that the endpoint is closed, ends every channel (each peer learns of it), and releases the UDP port. Afterwards the endpoint sends no datagram, calls no reader, and none of its goroutines or timers remain (a delivery callback still waiting for its timeout reports it); closing it again, or from several goroutines, is harmless.",
  ["schedules", "histories"], "all states of the channels, handshakes and traffic at the moment of Close, and concurrent Close calls",
  "The tests close endpoints at the end and observe nothing afterwards.",
  ["tru.go", "channel.go", "send_queue.go", "statistic.go", "speed.go"],
  [("Close", "tru.go Close, stopListen"), ("reader and sender goroutines", "tru.go readerProccess, senderProccess")],
  ["goroutines left in the test bubble", WIRE, RD, "rebinding the port"], NET)

p("C15", "Listen, Accept and Dial behave as documented net connections",
  "Over connections made with Listen, Accept and Dial, the bytes of each Write are read by the peer in order and complete for any sizes of read buffer, followed by one io.EOF that marks the end of the message, and Write reports the full length. Closing a connection makes its blocked and later Reads and later Writes fail and ends the peer's connection; a connection made before Accept is called, even one whose client has left again, is accepted with what arrived on it. Closing the listener makes blocked and later Accepts fail, and a new listener can then be opened in the process.",
  ["inputs", "schedules", "histories"], "all message and buffer sizes, numbers of connections, and orders of read, write, accept and close from several goroutines",
  "The net.Conn layer has no test at all.",
  ["tru_net.go", "tru.go", "channel.go"],
  [("reader feeds a channel that Read drains", "tru_net.go Conn"), ("connect callback feeds Accept", "tru_net.go connected, Accept")],
  ["results of Read, Write, Accept, Close"], NET)

p("C16", "Channel statistics agree with the traffic",
  "Statistics list exactly the open channels, one row each, sorted by address and holding that channel's own values: messages sent and received equal what the applications wrote and read; acknowledgements, dropped acknowledgements, retransmissions and dropped repeats equal what crossed the network; queue lengths equal the packets outstanding and waiting. Rates equal the messages of about the last second and the trip time on a steady link equals its round-trip time.",
  ["histories", "fault_sequences"], "all traffic and fault histories over any number of channels",
  "The tests only print statistics and check one counter once.",
  ["statistic.go", "speed.go", "tru.go", "channel.go"],
  [("counters updated in serve, write and retransmit", "statistic.go"), ("rows collected over all channels", "statistic.go Statistic"), ("sliding sum of ten 100 ms slots", "speed.go")],
  ["Statistic()", "Triptime()", WIRE], NET)

p("C17", "The public API is free of data races under concurrent use",
  "Writing, closing, connecting, reading statistics, enumerating channels, querying channels and logging from any number of goroutines, while datagrams arrive and timers fire, involves no data race, no concurrent map access and no crash.",
  ["schedules"], "all interleavings of public operations with the endpoint's own goroutines and timers",
  "The tests use the API from one goroutine and do not run under the race detector.",
  ["tru.go", "channel.go", "send_queue.go", "receive_queue.go", "statistic.go", "statistic_log.go", "packet.go", "connect.go", "tru_net.go", "teolog/teolog.go", "speed.go"],
  [("mutexes of endpoint, queues, packets and statistics", "tru.go, send_queue.go, receive_queue.go, statistic.go, packet.go")],
  ["race detector reports", "process survival"], NET)

p("C18", "The logger prints exactly the messages its level and filter allow",
  "For every level setting, filter and message, a message is printed exactly once if its level is enabled and it contains one of the filter's alternatives (or no filter is set), and is otherwise not printed, also while other goroutines log or change the level. Every level name reads back as the level that was set, and switching cycles through all levels.",
  ["inputs", "histories", "schedules"], "all sequences of level and filter changes, messages and logging goroutines",
  "The only test prints and asserts nothing.",
  ["teolog/teolog.go"],
  [("SetLevel routes loggers to output or discard", "teolog/teolog.go SetLevel"), ("filter in the writer", "teolog/teolog.go Write")],
  ["bytes written to standard output"])

p("C19", "Hotkeys run exactly their action, and the terminal is always restored",
  "For every menu of hotkeys and every sequence of keys typed one after another, each key runs exactly the action registered last for it, an unregistered key runs only the unknown-key action, and a pending next-key action runs exactly once, on the next key. Reading a key leaves the terminal in the mode it was in before, and the menu's help lists every registered item once.",
  ["inputs", "histories"], "all menus, key sequences and initial terminal modes",
  "hotkey and term have no test that runs.",
  ["hotkey/hotkey.go", "term/term.go", "term/term_unix.go"],
  [("key table and dispatch loop", "hotkey/hotkey.go run"), ("mode saved and restored around a read", "term/term.go Getch")],
  ["actions called", "terminal attributes of a pseudo-terminal"])

p("C20", "Acknowledgements and retransmissions follow the protocol on the wire",
  "Every valid data packet that reaches an open channel, first copy or repeat, early or late, is answered by exactly one acknowledgement with its number, and nothing else is acknowledged. A sender repeats each unacknowledged packet unchanged, not earlier than 30 ms after the last copy and at least every few seconds, never again once its acknowledgement arrived, and ends the channel when one packet has been repeated 100 times in vain.",
  ["fault_sequences", "histories", "inputs"], "all sequences of data and acknowledgement arrivals a peer can produce, including withheld, repeated, unknown and late acknowledgements",
  "Both ends of every test are the same code on a perfect network, so repeats, withheld and unknown acknowledgements never occur.",
  ["send_queue.go", "tru.go", "channel.go", "packet.go"],
  [("acknowledgement of every decrypted data packet", "tru.go serve"), ("retransmission timer", "send_queue.go retransmit"), ("retransmission time", "channel.go setRetransmitTime")],
  [WIRE], NET)

p("C21", "Writes do not keep or change the caller's buffer, deliveries stay unchanged",
  "After a write returns, the caller may reuse or overwrite the buffer at once without affecting what is sent, resent or delivered, and the write itself leaves the buffer as it was. The bytes handed to a reader stay as they are for as long as the application keeps them, whatever arrives later.",
  ["inputs", "histories", "fault_sequences"], "all message lengths, capacities of the passed slices, retransmissions and later traffic",
  "No test reuses a buffer or looks at a delivered message again.",
  ["channel.go", "crypt.go", "split.go", "packet.go"],
  [("encryption copies the payload", "crypt.go encryptPacketData"), ("parts are joined in a buffer of their own", "split.go combinePacket")],
  [RD, "caller's buffers", WIRE], NET)

p("C22", "A peer can reconnect from the same address and starts afresh",
  "When an endpoint connects again to an endpoint it already has a channel with, the new channel replaces the old one at both ends: the old one is reported destroyed, and the new one starts from an empty state with a new session key. Nothing of the old channel (unacknowledged packets, timers, a later close) affects the new one. An attempt to connect again of which the peer hears nothing fails and leaves the existing channel as it was.",
  ["histories", "schedules", "fault_sequences"], "all moments of reconnection relative to traffic, timers and closing of the old channel, any number of times",
  "No test connects twice between the same endpoints.",
  ["tru.go", "connect.go", "channel.go"],
  [("a connect packet on an existing channel destroys it first", "tru.go serve"), ("destroy unlists only the channel itself", "channel.go destroy")],
  [RD, "results of Connect and writes", WIRE], NET)

p("C23", "Punch and raw datagrams bypass channels",
  "A punch datagram sent to an endpoint calls its punch callback exactly once per arriving copy with the exact payload and the sender's address, whether or not a channel to that address exists, and never creates, feeds, keeps open or disturbs a channel. Raw writes send exactly the given bytes in one datagram to the given address.",
  ["inputs", "histories"], "all payloads, senders with and without channels, and interleavings with channel traffic",
  "No test sends a punch or raw datagram.",
  ["channel.go", "tru.go"],
  [("punch packets go to the callback", "tru.go serve"), ("WriteToPunch, WriteTo", "channel.go, tru.go")],
  ["punch callback calls", WIRE, RD], NET)

p("C24", "Callbacks may call back into the API without deadlock",
  "From inside a reader, connect, delivery or punch callback an application may write to any channel, close channels or the endpoint, enumerate channels, read statistics and send punches; each such call returns and the endpoint goes on serving. Reacting to the notice that a channel was destroyed by closing it again neither recurses nor blocks.",
  ["schedules", "histories"], "all combinations of callback and API call, with traffic and timers in flight",
  "Callbacks in the tests at most write an answer.",
  ["tru.go", "channel.go", "statistic.go", "connect.go"],
  [("callbacks run without the endpoint's locks", "channel.go newChannel, destroy, ForEachChannel")],
  ["return of the calls", "progress of traffic"], NET)

p("C25", "Messages go to the channel's reader first, unprocessed ones to the endpoint's",
  "Every message received on a channel that has its own reader is given once to that reader, and is given to the endpoint's reader as well exactly when the channel's reader reports it unprocessed; on a channel without a reader it goes to the endpoint's reader. A reader passed to Connect sees every message of that channel, including one sent by the server the moment the connection is established.",
  ["schedules", "inputs", "histories"], "all combinations of readers and their answers, and all timings of the first messages relative to Connect returning",
  "The tests use one endpoint reader and never a channel reader.",
  ["tru.go", "connect.go", "channel.go"],
  [("reader process tries the channel's reader, then the endpoint's", "tru.go readerProccess"), ("reader set when connecting", "connect.go Connect")],
  [RD], NET)

p("C26", "The printed statistics show the endpoint as it is, and only while switched on",
  "While printing of statistics is on, one frame is printed about every half second which a terminal shows as the endpoint's address and run time, a table with exactly one row per open channel holding that channel's statistics and, with two or more channels, their totals, and, exactly when the minilog is on, the newest events (channels made and ended, at most 256) in order with their times, as many as fit the terminal. A frame leaves no old text in its rows, touches no row below them and leaves the cursor where it was. Switching printing off, or closing the endpoint, ends it; starting it again does not double it.",
  ["histories", "inputs"], "all histories of connects, ends, traffic and switches, terminal sizes, numbers of channels and events",
  "No test prints statistics.",
  ["statistic.go", "statistic_log.go", "hotkey.go"],
  [("frame of header, table and minilog", "statistic.go printStatistic"), ("table and number of its rows", "statistic.go String, NumRows"), ("bounded list of events", "statistic_log.go add")],
  ["standard output as a terminal shows it", "Statistic()", "events caused by the workload"], NET)

p("C27", "The endpoint's hotkey menu does what its help says and keeps the logger's level",
  "Every key of the menu that an endpoint starts does what the menu's help says, once: help, statistics and minilog on and off, next, current and new log level, log filter, end of the menu, quitting the application (which closes the endpoint first, so its peers are told). A key that silences the logger while its output is read restores the level at the next key, before that key's own action, and one that reads a line restores it when the line is read. Keys typed before the menu starts are obeyed when it does. A menu that was stopped, or whose endpoint could not be created, reads no key.",
  ["inputs", "histories"], "all sequences of keys and lines, initial levels and filters, keys typed ahead",
  "No test starts the menu.",
  ["hotkey.go", "hotkey/hotkey.go", "tru.go"],
  [("menu of an endpoint", "hotkey.go newHotkey"), ("silencing the logger and restoring it", "hotkey.go stopLog, restoreLog, continueLog"), ("menu started by a parameter of New", "tru.go New")],
  ["standard output", "level and filter of the logger", "mode and input queue of a pseudo-terminal", "exit and last datagrams of another process"], [])

p("C28", "Deadlines of a connection stop its Reads and Writes in time and lose nothing",
  "A Read on a net.Conn of this package that waits for data when its read deadline passes, or starts when it has passed, fails with os.ErrDeadlineExceeded (a net.Error whose Timeout is true) at that moment, and never before it. Moving or clearing the deadline takes effect on every Read that already waits. A Write that starts after the write deadline fails the same way and sends nothing. Without deadlines nothing times out. Timed-out calls lose, repeat and reorder no byte of what the peer wrote, and after the deadline is moved on or cleared the connection goes on as before. Close ends a waiting Read whatever its deadline.",
  ["inputs", "schedules"], "all sequences and moments of setting read, write and common deadlines on both ends, concurrent with Reads of any size, Writes and arrivals",
  "No test sets a deadline.",
  ["tru_net.go"],
  [("deadline methods of Conn", "tru_net.go SetDeadline, SetReadDeadline, SetWriteDeadline"), ("waiting Read", "tru_net.go Conn.Read"), ("Write", "tru_net.go Conn.Write")],
  ["results and times of Read and Write", "messages read compared with messages written"], [])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
