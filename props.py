"""What run.py needs to know about each property's scenario.

n       trials in the quick and in the thorough tier
batch   trials per worker process
race    built with the race detector
real    real time (blocking is judged more patiently)
long    trials that legitimately use minutes of CPU
procs   GOMAXPROCS of the workers (default: varied over 1, 2, 3, 4 and 8)
nproc   workers at once
need    what the monitors must have observed at least (quick; three times that when thorough)
"""
SIM = ("the UDP socket is replaced by an in-memory packet network and time is virtual (testing/synctest), so that losses, "
       "delays and timeouts are exact; the operating system's UDP stack is trusted")
SCHED = "goroutine schedules are sampled (GOMAXPROCS 1, 2, 3, 4 and 8, several writers, timers at the same instant), not enumerated"
DISTINCT = " A trial is distinct and non-trivial when its signature, a hash of its parameters and of what was observed, is new."

PROPS = {}


def p(id, n, rule, need, note, technique, assumptions=(SIM, SCHED), **k):
    PROPS[id] = dict(n=n, rule=rule + DISTINCT, need=need, note=note, technique=technique, assumptions=list(assumptions), **k)


p("C01", (1250, 3000),
  "Each trial draws a fault plan (loss, duplication, reordering, lost acknowledgements, lost first copies, outages, or a mixture), "
  "message lengths with weight on code-path boundaries, one or two directions and several rounds; the monitor compares every "
  "message handed over with the sequence of accepted writes. Some readers take seconds over a message.",
  {"msgs": 2000, "datagrams": 8000, "slow_readers": 150, "burst_packets": 50000},
  "Every reader call of every trial is compared with the writes at the other end (prefix oracle), under random fault plans in virtual time.",
  "runtime monitor: online prefix checker of deliveries under fault injection")
p("C02", (2000, 4800),
  "Each trial loses data and acknowledgement datagrams by a random plan for up to just under the inactivity limit, then passes everything; "
  "the monitor demands delivery of all accepted messages within a bound computed from the worst retransmission interval, empty send queues and open channels.",
  {"msgs": 2000, "lost": 300, "lost_acks": 100},
  "Bounded-time recovery is measured in virtual time after each injected outage.",
  "runtime monitor: bounded-liveness oracle after injected outages")
p("C03", (1750, 4200),
  "Each trial draws a maximum packet length (default, tiny, boundary, out of range), message lengths around its multiples, and a reordering or lossy network; "
  "the monitor checks one message with equal bytes and packet id per write and the payload length of every datagram.",
  {"msgs": 1000, "data_datagrams": 5000},
  "Every datagram and every delivered message is measured against what was written.",
  "runtime monitor: wire-length and content oracle over split messages")
p("C04", (1500, 3600),
  "Each trial lets 2 to 8 goroutines per side write messages of one or many packets to one channel; the monitor identifies every message by "
  "writer and number, and demands each exactly once, whole, in the order of its writer.",
  {"msgs": 3000, "writer_switches": 500},
  "Interleavings are forced by send delays, random sleeps and different GOMAXPROCS; each message carries its writer, number and a checksum pattern.",
  "runtime monitor: per-writer FIFO and exactly-once checker under concurrent writers")
p("C05", (1750, 4200),
  "Each trial writes messages with delivery callbacks and random timeouts while acknowledgements or packets are lost, late or repeated and channels end; "
  "afterwards each callback is judged against the log of what the network carried.",
  {"callbacks": 2000, "delivered": 600, "timeouts": 300, "acked_after_timeout": 30},
  "The truth about each callback comes from the recorded datagrams, not from the code under test.",
  "runtime monitor: offline checker of delivery callbacks against the wire log")
p("C06", (1250, 4000),
  "Each trial loses, repeats and delays the four handshake datagrams by a random plan, with several connects at once or one after another, or meets a server that answers wrongly; "
  "the monitor checks each Connect result, traffic over the resulting channel, the connect callback, and that established channels are not disturbed.",
  {"connects_ok": 150, "connects_failed": 20, "connects_at_once": 100, "handshake_lost": 100, "handshake_repeats": 100, "bad_answers": 20},
  "Fates of each handshake datagram are drawn independently; one recorded finding (overdue connect datagram) is reported as KNOWN-FINDING.",
  "runtime monitor: handshake outcome oracle under fault injection on each handshake step")
p("C07", (750, 1800),
  "Each trial connects several peers to one endpoint, and disturbs some channels (loss, close, silence, reconnection, endpoint close) while the others carry traffic; "
  "the monitor checks every message's channel and origin and the undisturbed channels' flow.",
  {"healthy_channels": 100, "disturbed_channels": 60, "msgs": 2000},
  "Every message carries its flow, so a misdirected message is recognised wherever it is handed over.",
  "runtime monitor: per-channel flow checker with faults on neighbouring channels")
p("C08", (1750, 4200),
  "Each trial lets channels idle, carry traffic, lose a bounded share of keep-alives or all datagrams of one kind for a time while others go on, and makes peers fall silent at random moments; "
  "the monitor measures the time from the last datagram received to the end of the channel.",
  {"open_seconds": 2000, "silences": 60, "late_handshakes": 80, "lost_of_a_kind": 5000},
  "Virtual time makes hours of idling cheap and silence exact.",
  "runtime monitor: timed trace oracle over keep-alive and silence")
p("C09", (1750, 4200),
  "Each trial ends a channel by one to four causes at nearly the same moment, with traffic and timers in flight; the monitor counts the notices, "
  "tries writes, looks at lists and statistics, and searches the wire log for later datagrams.",
  {"ended_channels": 300, "causes": 400, "retransmission_limits": 10},
  "The notices, the listing and the wire are all checked for seconds of virtual time after the end.",
  "runtime monitor: exactly-once notice checker and after-end wire monitor")
p("C10", (800, 3000),
  "Each trial sends a mix of malformed, truncated, mutated, replayed and forged datagrams from strangers and from connected peers' addresses, before, during and after handshakes; "
  "the monitor watches for panics, blocked endpoints, foreign data and leftover channels, while a healthy channel must keep its traffic. Some trials send single datagrams made to cost "
  "the most work (keys of up to 380000 bits, answers of hundreds of RSA blocks) and measure the processor time until the next message is served, or 30000 connects from strangers, the last of which must not cost more than the first.",
  {"hostile_datagrams": 5000, "msgs": 500, "costly_datagrams": 30, "flood_connects": 60000},
  "Datagrams are generated by grammar and by mutation of recorded real ones. Work takes no virtual time, so it is measured as processor time of the process (limit 3 s, normal 0.5 s at most).",
  "runtime monitor: hostile-datagram fuzzing with survival and non-interference oracles")
p("C11", (64, 64),
  "The 64 parts together encode and decode every packet number with a status drawn per number, boundary and random payloads, and every byte string length from 0 to 8 with random contents.",
  {"packets": 1 << 20},
  "All 2^20 packet numbers are covered on every run; statuses and payloads are sampled per number.",
  "runtime monitor: differential round-trip oracle over all packet numbers", assumptions=(), real=True)
p("C12", (1750, 4200),
  "Each trial lets an independent implementation of the protocol talk to the code under test in either role, or two endpoints talk while the network alters packets, or a client gives a session key of no bytes; "
  "the monitor decrypts every data datagram, compares session keys, and checks that altered packets have no effect.",
  {"interop_packets": 500, "session_keys": 40, "altered": 100, "empty_keys": 10, "other_process_keys": 4, "wire_data_packets": 1000},
  "The reference implementation shares no code with the repository, so symmetric changes of the format are seen. Confidentiality itself is not decided, only that payloads are encrypted in the documented format with fresh keys.",
  "runtime monitor: interoperation with an independent reference implementation, tampering network")
p("C13", (6, 24),
  "Each trial carries more than 2^20 packets over one channel, from the server, from the client or from a scripted sender, with losses, duplicates and reordering around the wrap and message boundaries at random offsets from it.",
  {"packets": 3000000, "wraps": 3},
  "Whole wraps are really carried; faults are concentrated around the wrap.",
  "runtime monitor: prefix checker over channels that carry whole wraps of packet numbers", procs=1, long=True, batch=1)
p("C14", (750, 4000),
  "Each trial closes an endpoint once, twice, from several goroutines or from one of its callbacks, with 0 to 4 peers, traffic, slow readers, pending and half-done connects and "
  "statistic printing; the monitor checks notices, peers, port, later calls, leftover goroutines of the bubble, and that no timer starts goroutines afterwards.",
  {"closes": 250, "peers_told": 200, "pending_connects": 100, "callbacks": 1000},
  "Leftover goroutines are found by the synctest bubble, endless timers by the runtime's count of goroutines made in 20 idle seconds of virtual time.",
  "runtime monitor: lifecycle oracle with goroutine and timer leak detection")
p("C15", (500, 3000),
  "Each trial opens 1 to 3 listeners, dials them and connects plain channels to them, exchanges messages of many sizes read with random buffers, and ends connections and "
  "listeners in different orders, some before the other end reads what arrived or the connection is accepted, with servers that write the moment they accept; the monitor compares what was read with what was written and checks every blocked and later call.",
  {"connections": 300, "msgs": 4000, "reads": 5000, "greetings": 300, "visitors": 40, "closed_before_read": 50, "late_readers": 40, "long_writes": 60},
  "One process per trial, because Dial's endpoint is common to a process.",
  "runtime monitor: net.Conn contract checker", batch=1)
p("C16", (625, 3000),
  "Each trial exchanges messages on several channels under loss, duplication or a steady link and compares each row of the statistics, and their rendered form, "
  "with counts kept by the writers, the readers and the network.",
  {"rows": 500, "resent": 50, "dropped": 50, "acks_dropped": 50, "rates": 50},
  "The counts the statistics are compared with come from the recorded datagrams and the applications.",
  "runtime monitor: conservation oracle of statistics against the wire log")
p("C18", (1500, 8000),
  "Each trial sets levels (by number, name or switching) and filters, logs messages at every level from one or several goroutines and directly or through an endpoint, "
  "and compares what was printed with what the settings allow.",
  {"printed": 2000, "suppressed": 2000, "settings": 500},
  "A message logged while its level is being changed may be printed or not, but once at most.",
  "runtime monitor: model of level and filter against captured output", assumptions=(), real=True)
p("C19", (300, 2000),
  "Each trial builds a menu of random hotkeys on a pseudo terminal, types keys and compares the actions that ran, the terminal settings after each key and the help text with a model of the menu.",
  {"keys": 1000, "items": 200},
  "A real pseudo terminal is used, and its mode is read through its other end.",
  "runtime monitor: reference model of the menu and terminal-mode observer", assumptions=(), real=True)
p("C20", (625, 3000),
  "Each trial watches every datagram of channels under loss, duplication and outages, or drives one end with a scripted peer; the monitor counts acknowledgements per valid copy received, "
  "and checks contents and times of every repeat, also with thousands of packets outstanding, and the retransmission limit.",
  {"many_outstanding": 3, "acknowledged": 3000, "repeats_sent": 500, "repeats_received": 200},
  "Virtual time makes the intervals between copies exact.",
  "runtime monitor: wire-trace checker of acknowledgement and retransmission rules")
p("C21", (625, 3000),
  "Each trial writes messages with buffers the application reuses, keeps handed-over packets and their bytes for long after, alters what it was given, and compares kept and resent bytes with what was written.",
  {"kept": 10000, "repeats": 10000, "writes": 8000},
  "Every datagram copy on the wire is compared with the first of its kind, so a buffer shared by the application, the send queue and the receive queue shows.",
  "runtime monitor: aliasing oracle over application buffers, kept packets and the wire log")
p("C22", (1000, 4000),
  "Each trial connects 2 to 6 times to the same peer, from either end, with unfinished traffic, losses and closes of the old channel at the same moment, its disconnect datagram held at the socket while the handshake goes on; "
  "the monitor checks that the new channel starts empty and lives, and the old one is finished and leaves nothing behind; others try to connect again when the peer hears nothing. Three trials replay delayed datagrams of the replaced connection.",
  {"msgs": 10000, "replaced": 500, "unheard": 80},
  "Disconnect datagrams are delayed by spinning in the socket call; other points of a schedule vary by random yields.",
  "runtime monitor: generation oracle over reconnect histories")
p("C23", (750, 4000),
  "Each trial sends punches and raw datagrams of many lengths between three endpoints with and without channels, from strangers and in the name of peers, under duplication and loss and beside traffic, changing the callbacks; "
  "or punches from a silent peer, or from both ends while they connect. The monitor compares callbacks with arriving copies, datagrams with what was asked for, and checks that channels notice nothing.",
  {"callbacks": 10000, "punches": 1500, "raw": 1500, "injected": 800, "msgs": 5000, "silent": 20},
  "Arriving copies are counted at the packet connection, so a lost or doubled callback shows.",
  "runtime monitor: conservation oracle between datagrams and punch callbacks")
p("C24", (750, 4000),
  "Each trial lets every kind of callback of 2 or 3 endpoints make up to 400 API calls of all kinds, often much of one kind or from one callback, while channels are made, used and ended; "
  "the monitor measures every call, counts notices and delivery callbacks, and checks that the endpoints serve a new peer afterwards.",
  {"calls": 5000, "from reader": 800, "from channel reader": 300, "from connect": 100, "from delivery": 500, "from punch": 800, "from notice": 200, "from channel notice": 50, "from each": 300, "served": 250},
  "A call that never returns is seen as an open entry, or as a bubble or process in which nothing can run.",
  "runtime monitor: call-return and liveness oracle over re-entrant API calls")
p("C25", (1000, 5000),
  "Each trial connects an endpoint to 1 to 3 servers with and without channel readers that answer processed or not, servers that write in their connect callback, a late end of the handshake, "
  "reconnects and faults; the monitor compares the sequence of reader calls of each channel with the one the writes demand.",
  {"channel_reader": 3000, "endpoint_reader": 3000, "processed": 1000, "connections": 400},
  "The whole sequence of reader calls is compared, so a missed, doubled or misdirected call shows.",
  "runtime monitor: reader dispatch model compared with recorded calls")
p("C26", (750, 5000),
  "Each trial lets an endpoint with 1 to 4 peers make, replace and end channels and exchange messages while printing of statistics and the minilog are switched on and off, on terminals of many sizes or none, "
  "some with more events than are kept; the monitor interprets every frame as a terminal would and compares the screen with Statistic(), the open channels and the events.",
  {"frames": 8000, "frames_compared": 5000, "events_shown": 20000, "events_beyond": 1000, "restarted": 500, "never_connected": 150},
  "Frames are judged by what a small terminal emulator shows, so their form may change; values are compared in the moments in which two readings of the statistics agree.",
  "runtime monitor: terminal emulation of captured output against a model of channels and events")
p("C27", (180, 1500),
  "Each trial types random keys and lines, some before the menu starts, at an endpoint's menu on a pseudo-terminal, with random levels and filters and the application logging and setting the level in between, "
  "or quits another process through its menu, or creates an endpoint that fails; the monitor compares printed text, level, filter, statistics switch and terminal with a model of the menu.",
  {"keys": 1200, "probes": 300, "quits": 15, "told": 15, "failed_new": 15},
  "A real pseudo-terminal and real sockets are used; the model follows the texts of the menu's help.",
  "runtime monitor: reference model of the menu against captured output, logger and terminal", assumptions=(), real=True, batch=1)
p("C28", (250, 2000),
  "Each trial connects two net.Conns, writes messages on both and reads them with random buffers while deadlines are set to the past, the near future, far away or none, by the readers, the writers and others; "
  "the monitor checks what each call answered, and when, against the deadlines in force, and the messages read against those written.",
  {"read_timeouts": 10000, "write_timeouts": 5000, "msgs": 8000},
  "Times are exact, as the trials run in virtual time. A Write that already waits when its deadline passes is not judged.",
  "runtime monitor: deadline contract of net.Conn against a model of the deadlines in force", race=True, batch=1)
p("C17", (240, 2500),
  "Each trial, in a binary built with the race detector, lets 5 to 10 goroutines make random public calls on 2 to 4 connected endpoints over real lossy UDP sockets or in virtual time, "
  "or sends bursts of parts in changing order while the statistic is read without a pause, or uses the net.Conn layer, the logger, or a peer of another make with session keys of any length, or repeats a trial of another property's scenario; the first race or crash ends it.",
  {"api_calls": 100000, "conn_calls": 20000, "log_calls": 5000, "ref_packets": 3000, "scenarios": 10, "connects": 500, "closes": 300, "menu_calls": 500, "bursts": 50},
  "The race detector judges executions: it sees races between accesses that were made, in whatever order.",
  "data race detector (go -race) over concurrent API stress", race=True, real=True,
  assumptions=("the race detector reports real races only; it does not see races on paths that were not executed",
               "half of the trials use real loopback sockets and time; in the others the in-memory network may order goroutines that real sockets would not"))
