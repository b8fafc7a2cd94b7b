"""What decides each property: the generators to run and for how long."""

SANS = "Library built with AddressSanitizer and UndefinedBehaviorSanitizer; blocks and descriptors counted per case. "


def R(name, srcs=None, quick=25, thorough=600, **kw):
    d = dict(name=name, srcs=srcs or [name + ".cpp"], quick=quick, thorough=thorough)
    d.update(kw)
    return d


def PY(name, quick=20, thorough=300, **kw):
    d = dict(name=name, py=name + ".py", quick=quick, thorough=thorough)
    d.update(kw)
    return d


def C(note, *runs, **kw):
    d = dict(level="exploration", runs=list(runs), note=note)
    d.update(kw)
    return d


CHECKS = {
    "C01": C("Generated argument lists through every write front end, compared byte for byte with an independent encoder written from "
             "protocol.txt. " + SANS + "Sampling: no exhaustive bound; trusts harness/ref.hpp.", R("p_enc"),
             technique="property-based testing: differential against an independent reference encoder"),
    "C02": C("Generated messages (bytes of the library's and of the reference encoder) read back by mixed, wrong and over-long reads. " +
             SANS, R("p_dec"), technique="property-based testing: round trip and model of the read position"),
    "C03": C("Random, mutated and truncated messages; each read, dump and copy compared with an independent strict parser on blocks of "
             "exact size. " + SANS + "Varints wider than their type may be accepted or refused.", R("p_mal"),
             technique="structure-aware fuzzing against a reference parser, under sanitizers"),
    "C04": C("Generated messages dumped into every kind of destination size, compared with a reference rendering. " + SANS, R("p_dump"),
             technique="property-based testing: differential against a reference rendering"),
    "C05": C("Generated streams rich in magic bytes and bad headers, cut at random, compared with a reference framing. " + SANS,
             R("p_prot"), technique="property-based testing: metamorphic (chunking) and differential against a reference framing"),
    "C06": C("Generated histories over several buffers (growth, sharing, self-append, extreme positions and sizes) against a byte-array "
             "model after every step. " + SANS, R("p_buf"), technique="stateful model-based property testing"),
    "C07": C("Generated histories over several messages, encoders and shared buffers against a state model, and messages made from "
             "nearly consistent buffers. " + SANS, R("p_msg"), technique="stateful model-based property testing"),
    "C08": C("Generated histories of messages and buffers holding descriptors, with injected failures; after every step the open "
             "descriptors are exactly those the model says are owned, and each is the right file. " + SANS, R("p_fd"),
             technique="stateful model-based property testing of descriptor ownership"),
    "C20": C("Generated histories of registrations and waits, with actions inside callbacks; poll(2) asked by the harness just before each "
             "wait is the oracle of what is pending. Waits are not nested. " + SANS, R("p_loop"),
             technique="stateful model-based property testing; oracle: poll(2) on each descriptor"),
    "C21": C("Generated histories of registrations, removals, flushes and waits, also from inside idle functions, against an ordered list; "
             "and threads registering and removing concurrently, also under ThreadSanitizer. " + SANS, R("p_idle"),
             R("p_idle_tsan", ["p_idle.cpp"], quick=10, thorough=300, variant="tsan", shimmed=True),
             technique="stateful model-based property testing"),
    "C22": C("Generated histories of events over two loops against a model, threads and signal handlers signaling and waking up, the latter "
             "also under ThreadSanitizer. Schedules are sampled, not enumerated. " + SANS, R("p_evt", quick=18, thorough=400),
             R("p_evt_tsan", ["p_evt.cpp"], quick=12, thorough=300, variant="tsan", shimmed=True),
             technique="stateful model-based property testing; randomised concurrent runs, also under ThreadSanitizer"),
    "C23": C("Generated histories of timers: exact, in virtual time (timerfd and posix timers replaced by the interposition layer), and in real time with "
             "posix timers and timerfd, where lateness is only bounded by 10 s. Delays of 0 are not generated. " + SANS, R("p_timer"),
             technique="stateful model-based property testing in virtual and real time"),
    "C24": C("Generated histories of enabling, disabling and dispatches of controlled length, in real time: a dispatch measured shorter than the "
             "delay must not fire it, one that waits for the callback must see it within 8 s, exactly once. Disabling from the watchdog callback "
             "itself is documented as forbidden and not generated. " + SANS, R("p_wd", quick=25, thorough=400),
             technique="stateful property testing in real time"),
    "C25": C("Generated addresses in every notation, near-misses, and arbitrary bytes, on blocks of exact size; inet_pton and the "
             "definition of sockaddr_un are the oracle. Forms the documentation does not mention (inet_aton shorthands, service names) may be "
             "accepted or refused. " + SANS, R("p_addr"),
             technique="property-based testing: round trip and differential against inet_pton, under sanitizers"),
    "C09": C("Generated traffic between a server and several clients in one loop, with read and write sizes, EAGAIN and EINTR imposed at the system "
             "calls, suspensions and read buffer lengths, against a queue per connection and direction; and threads with real blocking waits. " +
             SANS, R("p_conn"), technique="stateful model-based property testing with imposed i/o schedules"),
    "C10": C("Generated traffic with send callbacks, imposed short writes, EAGAIN and errors, disconnections, stops and restarts; each report is "
             "compared with the bytes really accepted by the system calls and with the queue. " + SANS, R("p_report"),
             technique="stateful model-based property testing with imposed i/o schedules and errors"),
    "C17": C("Generated traffic where the callbacks themselves perform generated actions, stops included, against the same models of delivery, "
             "pairing of events and send reports. " + SANS + "Nested waits, and idle flushes from callbacks of a context being stopped, are not generated.",
             R("p_reent"), technique="stateful model-based property testing with re-entrant actions, under sanitizers"),
    "C12": C("Generated raw traffic as for C09, compared with the concatenation of what was sent, receive buffers being kept and compared again; raw "
             "datagrams one by one. " + SANS, R("p_raw"), technique="stateful model-based property testing with imposed i/o schedules"),
    "C15": C("Generated histories of contexts started, stopped and started again in any role; events, getters, addresses and credentials compared with a "
             "model and with the sockets in each callback and after each step; and more clients than the server accepts. " + SANS, R("p_life"),
             technique="stateful model-based property testing"),
    "C11": C("Generated messages with and without descriptors over unix connections, with imposed short reads and writes and connections ending early; "
             "each received descriptor must share the offset of the file sent and belong to its own message, and none is left open. " + SANS,
             R("p_fdpass"), technique="stateful model-based property testing with imposed i/o schedules; descriptors counted"),
    "C13": C("Generated sequences of good and bad datagrams from several senders against the list of those that are well-formed messages, with replies "
             "from the callback; and messages sent to receivers that are slow, gone or absent. " + SANS + "What a malformed datagram may yield is only "
             "bounded (messages contained in it).", R("p_dgram"), technique="stateful model-based property testing and fuzzing of datagrams"),
    "C14": C("Generated hostile byte streams (messages, garbage, forged headers, stray descriptors) from raw sockets, cut at random and ended by close, "
             "shutdown or reset, against a server that also serves good clients, and against clients; a reference framing says what may and must be "
             "delivered. " + SANS, R("p_hostile"), technique="structure-aware fuzzing of stream peers against a reference framing, in stateful histories"),
    "C16": C("Generated histories of listeners coming and going, calls failing for a while and time passing (virtual), with each attempt and event of "
             "several contexts predicted by a model. " + SANS, R("p_retry"),
             technique="stateful model-based property testing in virtual time with injected failures"),
    "C18": C("Generated histories of contexts and one object of every other kind, with calls from a list of some 330 that must be refused made at random "
             "points, also inside callbacks: error, memory, descriptors, visible state and later behaviour are compared. " + SANS, R("p_api"),
             technique="stateful property testing: refused calls are no-ops (invariant over the history)"),
    "C19": C("Generated scenarios over messages, buffers, streams, loop objects and contexts with allocations and system calls failing at chosen or all later "
             "points: each operation must succeed or report an error, leave memory and descriptors balanced, and work when tried again. " + SANS, R("p_fault"),
             technique="fault-injection property testing against reference results"),
    "C26": C("Generated argument lists encoded by both sides and decoded by the other, and damaged payloads read and dumped by both; the C library runs in the "
             "same process (ctypes). Sampling; '%ld' (whose width depends on the C platform), strings with a null inside and C strings that are not UTF-8 are "
             "not in the shared set.", PY("p_pymsg"), technique="property-based testing: differential between the two implementations"),
    "C27": C("Generated streams cut at random, fed to the Python stream decoder, the C one and a reference framing.", PY("p_pyprot"),
             technique="property-based testing: differential and metamorphic (chunking)"),
    "C28": C("Generated arguments through every C++ way of writing, sending and reading, all pairs of typed formats included, against the reference "
             "encoder and the C functions. " + SANS, R("p_cxx"),
             technique="property-based testing: differential between the C++ classes and the C API"),
    "C30": C("The tool run (with sanitizers) with generated options, ids, formats and arguments over tcp, unix and udp against plain sockets; what it sends is "
             "compared with the typed encoders, what it shows with the library's dump. Strings contain no line end; numbers that do not "
             "parse and spare arguments are not judged.", PY("p_cli", cli=True, quick=25), technique="property-based testing of the process"),
    "C29": C("Python contexts against C contexts (by ctypes) in one process, real sockets and threads, against a queue per connection and direction; exceptions "
             "of any thread, threads or descriptors left are failures. Schedules are sampled.", PY("p_pyctx", quick=25),
             technique="stateful model-based property testing over real sockets"),
    "C31": C("Generated histories of servers, clients and datagram contexts over tcp, tcp6 and unix, with keepalive settings, access modes and umasks changing; "
             "each socket asked for its options in the socket callback, at the connection and after each step; datagrams to various destinations. " + SANS,
             R("p_sock"), technique="stateful model-based property testing; oracle: the options of the sockets themselves"),
    "C32": C("Generated histories of one thread's loop against a queue, and loops in threads posting to each other, against what was posted. Schedules are "
             "sampled.", PY("p_pyloop"), technique="stateful model-based property testing"),
    "C33": C("Scenarios generated from seeds over messages, streams, addresses, loops, events, timers, contexts, descriptors and buffers, run alone, then by 2 to 4 "
             "threads at once, and compared; also under ThreadSanitizer. Schedules are sampled; timers are those of timerfd (see known_findings.txt).",
             R("p_threads", quick=12, thorough=200), R("p_threads_tsan", ["p_threads.cpp"], quick=15, thorough=300, variant="tsan", shimmed=True),
             technique="metamorphic property testing (alone or concurrently), under ThreadSanitizer too"),
    "C34": C("Generated plans of work over long lived objects, repeated; after each repetition nothing is left of it from the user's side, "
             "so blocks, bytes, descriptors and timers held by the library must not grow with the repetitions (a growth is confirmed over 70 "
             "of them before it is reported). " + SANS, R("p_steady"),
             technique="property-based testing: metamorphic (repetition) with resource counting"),
    "C35": C("Generated histories of contexts, foreign peers, suspended connections, slow readers, timers, events, idle functions, wakeups and "
             "descriptors on one loop (epoll and poll); each time the work was done, waits must time out, in full, and the loop's descriptor be "
             "silent. Virtual time, real sockets. Python contexts: processor time of an idle process, in real time. " + SANS, R("p_quiet", quick=25),
             PY("p_pyquiet", quick=15),
             technique="property-based testing: stateful generation, invariant at quiescence"),
}

NOT_APPLICABLE = {}
