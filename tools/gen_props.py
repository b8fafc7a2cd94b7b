#!/usr/bin/env python3
"""Writes properties.jsonl from the table below (single source of truth)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or ["public API of libpomp.h"],
                     state=state or [], hook_needed=None)))

prop("C01", "Encoding is the documented wire format, whichever front end is used",
 "For every message id and every sequence of arguments, the bytes of the finished message are exactly those protocol.txt prescribes (12-byte header with magic, id and total size, then type-tagged little-endian / varint / zigzag / NUL-terminated / length-prefixed arguments). The typed writers, the printf-like writer and the textual argument-vector writer all produce the same bytes for the same values, and what cannot be represented (a string of 65535 bytes or more, a NULL string or buffer, a missing textual argument, an unknown conversion specifier) is refused with an error instead of being encoded wrongly.",
 ["inputs", "programs"], "every message id, argument list (all 13 types, boundary and random values, sizes 0..>64KiB), format flag spelling, and write front end",
 "The tests encode one fixed 12-argument tuple and compare it to one constant; varint length boundaries, float specials, large strings/buffers, flag spellings and argv parsing beyond that tuple are never sampled.",
 ["src/pomp_encoder.c", "src/pomp_msg.c", "protocol.txt"],
 [("encoder_write_varint / encoder_write_size", "src/pomp_encoder.c"), ("pomp_encoder_writev, pomp_encoder_write_argv", "src/pomp_encoder.c"), ("pomp_msg_finish", "src/pomp_msg.c")])

prop("C02", "Decoding returns exactly the values that were encoded",
 "For every well-formed message, reading its arguments in order with matching types gives back every value bit for bit, whether through the typed readers, the zero-copy readers or the scanf-like reader, and in any mixture of them. Reading with a wrong type, or past the last argument, fails without consuming anything, so that the right read still succeeds afterwards; a shorter format reads the leading arguments only. A format with an item that is no conversion of the reader fails as well, with the strings read before it released.",
 ["inputs", "programs"], "every well-formed message and every sequence of read operations on it (right type, wrong type, past the end, mixed front ends)",
 "The tests read one fixed tuple back, in one order, with one front end at a time.",
 ["src/pomp_decoder.c", "src/pomp_msg.c"],
 [("decoder_read_type and position rewind on mismatch", "src/pomp_decoder.c"), ("pomp_decoder_readv", "src/pomp_decoder.c")])

prop("C03", "Malformed messages are refused safely, never misread",
 "For every byte string presented as a message, every read, dump and copy operation stays within the message's bytes, terminates, has no undefined behaviour and leaks nothing; it succeeds exactly when the bytes at the current position form a complete argument of the requested type as protocol.txt defines it (known type, varint of at most 10 bytes, sizes that fit 16 bits for strings and 32 bits for buffers, string NUL-terminated within its size, data fully present) and otherwise returns an error, with every string the failed scanf-like read had already allocated released again.",
 ["inputs"], "every payload byte string (random, mutated valid, truncated, over-long varints, huge sizes) and every sequence of read operations",
 "Tests use a handful of truncations of one message; memory safety and exact accept/reject agreement need arbitrary bytes.",
 ["src/pomp_decoder.c", "src/pomp_buffer.c", "src/pomp_msg.c"],
 [("decoder_read_varint, decoder_read_size_*", "src/pomp_decoder.c"), ("pomp_buffer_read / pomp_buffer_cread bounds", "src/pomp_buffer.c"), ("pomp_decoder_readv error path", "src/pomp_decoder.c")])

prop("C04", "Message dumps are faithful, bounded and always terminated",
 "Dumping a message into a buffer of any size never writes outside it, always NUL-terminates it (unless its size is 0), and yields the full human-readable rendering of id and arguments when it fits, or a prefix of it that ends in an ellipsis when it does not (if there is room for one). The allocating dump yields that same full rendering, whatever its length, and a malformed message makes both fail cleanly.",
 ["inputs"], "every message (well-formed or not, also file descriptors) and every destination size from 0 up to beyond the full length",
 "One message and two sizes are tested; truncation is different at every offset of every argument kind.",
 ["src/pomp_decoder.c", "src/pomp_msg.c"],
 [("pomp_decoder_dump, pomp_decoder_adump", "src/pomp_decoder.c")])

prop("C05", "Stream decoding is independent of chunking and resynchronises",
 "For every byte stream and every way of cutting it into pieces, the protocol decoder delivers the same sequence of messages (id and bytes), namely each 'POMP' header with a size of at least 12 making up a message of that size, in order, skipping whatever precedes the next magic, a header with a smaller size (or one for which no memory can be had) being skipped as 12 bytes of garbage; each call consumes at least one and at most the bytes offered and reports at most one message. Messages handed out stay valid and unchanged while decoding goes on, and handing them back for reuse never affects later ones; they are finished messages: nothing can be written in them.",
 ["inputs", "histories"], "every stream of valid messages interleaved with garbage, partial magics, bad sizes; every chunking; every release/keep decision for produced messages; allocation failures for oversized headers",
 "Tests feed one message whole and byte by byte, plus one broken header; chunk boundaries at every header byte with preceding garbage and message reuse combine endlessly.",
 ["src/pomp_prot.c"],
 [("pomp_prot_decode_msg state machine", "src/pomp_prot.c"), ("pomp_prot_release_msg reuse", "src/pomp_prot.c")])

prop("C06", "Buffers behave as reference-counted growable byte arrays",
 "Under every sequence of buffer operations the visible length, capacity and content equal those of a plain byte array: writes and appends land exactly at the asked position and grow the buffer, reads beyond the used length fail without moving the position, copies are independent, and no operation touches memory outside the buffer. While a buffer is referenced more than once every modification is refused with -EPERM and has no effect, and the memory is released exactly when the last reference goes.",
 ["histories", "inputs"], "every sequence of new/copy/ref/unref/set_capacity/ensure_capacity/set_len/append/write/read/cread over several buffers, with boundary sizes and positions",
 "Tests run short fixed sequences; aliasing, growth-step boundaries, size overflow and permission checks depend on the whole history.",
 ["src/pomp_buffer.c"],
 [("pomp_buffer_is_shared permission checks", "src/pomp_buffer.c"), ("pomp_buffer_ensure_capacity growth", "src/pomp_buffer.c")])

prop("C07", "Message objects follow their write/finish/clear/copy life cycle",
 "Under every sequence of operations on messages and encoders, a message can be written only while it is initialised and not finished, its header is filled at finish and its bytes never change afterwards through the message or encoder API; re-initialising a message in use or finishing twice is refused, a cleared message can be used again, and a copy has the same bytes as its source and is unaffected by what happens to it. A message built from a buffer is accepted only if the buffer holds a consistent header (magic, and size equal to the buffer length), and gets its id from it.",
 ["histories"], "every sequence of init/write/finish/clear/destroy/copy/write_argv/new_with_buffer operations over several messages, encoders and decoders, including operations that fail midway",
 "Tests exercise each transition once from a fresh object.",
 ["src/pomp_msg.c", "src/pomp_encoder.c"],
 [("finished flag", "src/pomp_msg.c"), ("encoder write permission", "src/pomp_encoder.c")])

prop("C08", "File descriptors in messages are owned by the message, exactly once",
 "A file descriptor written into a message is duplicated at once: the caller keeps its own, the message's duplicate refers to the same open file and is closed exactly once when the last owner of the message goes away; copies of the message get duplicates of their own. Reading gives a descriptor the message still owns, no sequence of operations (including failing ones and reaching the limit of descriptors per message) leaks a descriptor or closes one that is not the message's, and data bytes that merely look like a descriptor are never treated as one (the bytes of a descriptor already put in a message are not to be overwritten by the caller).",
 ["histories", "inputs"], "every sequence of writes, failed writes, copies, reference changes, clears and reads of messages with 0..limit+1 descriptors, and forged descriptor arguments",
 "Tests write and read a single descriptor; leaks and double closes only show over histories with copies, failures and sharing.",
 ["src/pomp_buffer.c", "src/pomp_encoder.c", "src/pomp_decoder.c", "src/pomp_msg.c"],
 [("pomp_buffer_register_fd / pomp_buffer_get_fd / pomp_buffer_clear", "src/pomp_buffer.c"), ("pomp_msg_new_copy duplicating fds", "src/pomp_msg.c")])

prop("C09", "Messages arrive exactly once, in order and intact on each connection",
 "On every connection-oriented connection, as long as it stays up, the peer receives exactly the messages whose send succeeded, once each, in send order, byte for byte, whatever their sizes and however the kernel splits, delays or refuses reads and writes, whatever the read buffer sizes and while reading is suspended and resumed. A server's broadcast reaches every connected client and nobody else, and traffic of one connection never appears on another.",
 ["inputs", "schedules", "histories"], "every sequence of sends (both directions, 0..200 KiB, broadcast or unicast, inside or outside callbacks), up to several clients over unix/tcp/tcp6, with partial writes, EAGAIN/EINTR, short reads, suspend/resume and buffer length changes interleaved",
 "Tests exchange a few small messages on an idle loopback, where no write is ever partial and no queue ever forms.",
 ["src/pomp_conn.c", "src/pomp_ctx.c", "src/pomp_prot.c"],
 [("pomp_conn_send_buf immediate write then queue", "src/pomp_conn.c"), ("pomp_conn_process_write", "src/pomp_conn.c"), ("pomp_conn_process_read_buf", "src/pomp_conn.c")])

prop("C10", "Every accepted send is reported complete exactly once, in order",
 "With a send callback set, every send that returned success on a connection is reported exactly once, in send order and for the right buffer, with exactly one of OK, ERROR or ABORTED: OK only after all its bytes have been handed to the system, ABORTED if the connection ends with bytes still queued, and none is left unreported once the connection has been removed. The queue-empty flag is set exactly when nothing remained queued at the time the send ended, and a send that was refused is never reported.",
 ["schedules", "histories", "fault_sequences"], "every interleaving of sends with partial writes, EAGAIN, write errors, suspended peers, peer disconnection, local disconnection and context stop, in message and raw mode",
 "Tests only see immediate complete writes and one forced overflow.",
 ["src/pomp_conn.c", "src/pomp_ctx.c"],
 [("io buffer queue and idle-notified send callbacks", "src/pomp_conn.c"), ("abort of queued buffers at close", "src/pomp_conn.c")])

prop("C11", "Descriptors sent over local sockets arrive with their own message",
 "A descriptor put in a message sent over a unix socket is received as a new descriptor of the same open file, readable at the same argument of the same message, for every mixture of messages with and without descriptors and every fragmentation of the transfer; neither side leaks or wrongly closes descriptors, also when the connection ends with such messages in flight. Sending a message with descriptors over anything but a connected unix socket is refused with an error and delivers nothing.",
 ["inputs", "schedules", "histories"], "every sequence of messages with 0..max descriptors of distinct files, sizes around the read buffer, partial writes and short reads, disconnection at any point, all transports",
 "The only test passes one descriptor once through an idle socket.",
 ["src/pomp_conn.c", "src/pomp_prot.c", "src/pomp_buffer.c"],
 [("pomp_conn ancillary data send and receive", "src/pomp_conn.c")])

prop("C12", "Raw connections transport the byte stream unchanged",
 "In raw mode the bytes handed to the receive callback of a stream peer, concatenated, are exactly the bytes of the buffers sent, in order, with no framing added, removed or interpreted, and a raw datagram arrives as one callback with exactly its bytes. A buffer kept by the receiver keeps its content whatever is received later, and sending raw buffers through a context that is not raw is refused.",
 ["inputs", "schedules"], "every sequence of buffers (0..100 KiB, also bytes that look like message headers), partial reads/writes, read buffer sizes, keeping or releasing received buffers",
 "Tests send one short string.",
 ["src/pomp_conn.c", "src/pomp_ctx.c"],
 [("raw path of pomp_conn_process_read_buf", "src/pomp_conn.c"), ("pomp_ctx_send_raw_buf, pomp_conn_send_raw_buf", "src/pomp_ctx.c")])

prop("C13", "Each datagram stands alone",
 "On a datagram context every datagram that is a well-formed message fitting the read buffer is delivered as exactly that message with the sender's address available, whatever datagrams (truncated, garbage, partial headers, empty, oversized, from other senders) came before it. Messages sent to an address are received there once, as one datagram each, and a reply on the connection during the receive callback goes to that message's sender.",
 ["inputs", "histories"], "every sequence of valid and malformed datagrams from several senders, and of send-to and reply operations, over udp, udp6 and unix datagram addresses",
 "Tests only exchange well-formed small datagrams between two peers.",
 ["src/pomp_conn.c", "src/pomp_ctx.c", "src/pomp_prot.c"],
 [("datagram read path, per-connection protocol decoder", "src/pomp_conn.c"), ("pomp_ctx_send_msg_to", "src/pomp_ctx.c")])

prop("C14", "Hostile peers can neither corrupt a context nor disturb other peers",
 "Whatever bytes a stream peer sends, and whenever it closes or resets its connection, the receiving context suffers no memory error, leak or endless loop, delivers only messages whose complete encoding was really in that peer's stream, and keeps serving its other connections, which still receive all their messages. Valid messages the same peer sends after garbage are delivered, and every connection that was announced is eventually announced as disconnected.",
 ["inputs", "schedules"], "every byte stream (garbage, forged headers with extreme sizes, truncated messages, valid messages) from several peers, cut and interleaved arbitrarily, with abrupt closes and resets at any point",
 "No test sends anything but well-formed messages from well-behaved peers.",
 ["src/pomp_conn.c", "src/pomp_prot.c", "src/pomp_ctx.c"],
 [("pomp_conn_process_read", "src/pomp_conn.c"), ("server_accept_conn limit of connections", "src/pomp_ctx.c")])

prop("C15", "Connection events are paired and ordered, and stop ends them all",
 "For every connection the context reports connected exactly once, then any number of messages, then disconnected exactly once, and nothing more; the connection is found by the connection getters exactly between those two events, and its addresses and credentials are those of its socket and stay the same. Stopping a context reports every live connection as disconnected, no event of it follows, the listening address can be reused at once, and the context can be started again, in any role, and works as new.",
 ["histories", "schedules"], "every history of listen/connect/bind/stop/restart, peer connects, disconnects (local, remote, before accept, during traffic), on all transports and loop implementations",
 "Tests start, connect, exchange and stop once, always in the same order.",
 ["src/pomp_ctx.c", "src/pomp_conn.c"],
 [("server_start/server_stop, client_start/client_stop", "src/pomp_ctx.c"), ("pomp_ctx_remove_conn", "src/pomp_ctx.c")])

prop("C16", "A client keeps retrying until connected, and reconnects",
 "A client started on any address whose server is absent, or whose server goes away later, keeps running without reporting anything beyond the disconnection, tries again periodically (every two seconds), and connects at the latest one retry after the server is available again, for any number of such outages; a server whose address is not yet available likewise retries binding. Once stopped, a context never tries again.",
 ["histories", "fault_sequences"], "every sequence of server up/down transitions, client start/stop and elapsed times, with connection failures of every transient kind",
 "Tests wait in real time for at most one retry.",
 ["src/pomp_ctx.c"],
 [("client_complete_conn, client_reconnect via timer", "src/pomp_ctx.c"), ("server retry timer", "src/pomp_ctx.c")])

prop("C17", "Library calls made from inside callbacks are safe",
 "From within any event, message, raw-data, send or socket callback the application may send, broadcast, disconnect any connection, suspend or resume reading, change read buffer lengths, stop the context or another one, add idle work, and set or clear timers, in any combination, with no memory error, lost cleanup, or change to the guarantees on ordering and pairing of events. A stop requested inside a callback takes effect after it returns and still reports every disconnection; nothing more is read from a connection once its reading is suspended, until it is resumed.",
 ["schedules", "histories"], "every assignment of re-entrant actions to callbacks along random traffic histories",
 "One non-regression test stops a context in one callback.",
 ["src/pomp_ctx.c", "src/pomp_conn.c", "src/pomp_loop.c"],
 [("ctx notifying flag and deferred stop", "src/pomp_ctx.c"), ("connection removal deferred to idle", "src/pomp_conn.c")])

prop("C18", "Calls in a wrong state or with wrong arguments fail cleanly",
 "Every public function called with a NULL or invalid argument, or in a state that does not allow it (starting a started context, stopping or destroying at the wrong time, sending while unconnected or in the wrong mode, changing callbacks after start, destroying loops or events in use), returns the documented error and changes nothing: the object behaves afterwards exactly as if the call had not been made. Allowed calls succeed.",
 ["histories", "inputs"], "every public entry point, argument nullity pattern and object state reached by random histories",
 "Tests check a few NULL arguments on fresh objects and never verify that a refused call had no effect.",
 ["src/pomp_ctx.c", "src/pomp_conn.c", "src/pomp_loop.c", "src/pomp_evt.c", "src/pomp_timer.c", "src/pomp_msg.c"],
 [("POMP_RETURN_ERR_IF_FAILED guards", "src/*.c")])

prop("C19", "Resource failures are reported and leave everything usable",
 "If any memory allocation or system call made by the library fails at any point, the operation reports an error (or retries later where it is specified to), nothing crashes, no memory or descriptor is leaked or released twice, and once the resource is available again the same objects work normally or can at least be stopped and destroyed.",
 ["fault_sequences"], "every allocation index and every intercepted system call index failing once or persistently in random scenarios over codec, buffers, messages, loop, timers, events and contexts",
 "No test makes an allocation or a system call fail.",
 ["src/pomp_buffer.c", "src/pomp_msg.c", "src/pomp_decoder.c", "src/pomp_prot.c", "src/pomp_conn.c", "src/pomp_ctx.c", "src/pomp_loop.c"],
 [("error paths", "src/*.c")])

prop("C20", "The loop dispatches exactly the registered descriptors and events",
 "Under every sequence of add, update, remove and wait operations, made inside or outside callbacks, a wait calls the callback of a registered descriptor, with its user data, exactly when a monitored condition (or error/hang-up) is pending on it, and never for one that was removed, even earlier in the same wait; it returns a timeout only when nothing was pending for that long. Adding twice, updating or removing an unknown descriptor fails without effect, and both loop implementations behave alike.",
 ["histories", "schedules"], "every history of registrations, readiness changes and waits over up to dozens of descriptors, including registration changes inside callbacks, for both implementations, directly or through the loop's own descriptor",
 "Tests register one or two descriptors and never change registrations inside callbacks.",
 ["src/pomp_loop.c", "src/pomp_loop_linux.c", "src/pomp_loop_posix.c"],
 [("fd hash table", "src/pomp_loop.c"), ("pomp_loop_epoll_wait_and_process / poll equivalent", "src/pomp_loop_linux.c")])

prop("C21", "Idle functions run once, in order, unless removed",
 "Every function registered for idle, from any thread, is called exactly once, after its registration returned, in registration order, during subsequent waits or flushes, unless it was removed (by function and data, or by cookie) before its turn; removal and flushing by cookie affect exactly the matching entries, also when requested from inside an idle function, and functions registered by an idle function run too. The loop cannot be destroyed while entries are pending, and nothing runs after a completed destruction.",
 ["histories", "schedules"], "every sequence of add/remove/flush (with and without cookie) and waits, made from outside, from idle functions and from other threads",
 "Tests register a handful of entries from one place.",
 ["src/pomp_loop.c"],
 [("idle entries list and idle event", "src/pomp_loop.c")])

prop("C22", "Events and wakeups are never lost, and are safe across threads",
 "A signal on an event attached to a loop leads to its callback being called at least once after it and at most once per signal, from whatever thread it came; a cleared or detached event does not fire. A wakeup request from any thread or signal handler makes a current or the next wait return promptly, none is lost, and neither operation ever blocks or races however often it is repeated.",
 ["schedules", "histories"], "every history of attach/detach/signal/clear/wait on several events and loops, and every interleaving of signalling threads with the waiting thread, for both event and loop implementations",
 "Tests signal once from one helper thread.",
 ["src/pomp_evt.c", "src/pomp_evt_linux.c", "src/pomp_evt_posix.c", "src/pomp_loop.c"],
 [("eventfd / pipe signalling", "src/pomp_evt_linux.c"), ("pomp_loop_wakeup", "src/pomp_loop.c")])

prop("C23", "Timers fire on time, as often as asked, and not after being cleared",
 "A one-shot timer calls its callback exactly once, never before its delay has elapsed and at the first processing after it; a periodic one first after its delay and then every period. Setting a timer again replaces the previous setting, and after a clear, or a destruction, of the timer its callback is not called for it again, for any positive delay and any period and when done from inside callbacks, with both timer implementations.",
 ["histories", "schedules", "inputs"], "every history of set/set_periodic/clear/destroy and elapsed (virtual) time over several timers, with delays and periods from 1 ms to the 32-bit maximum, in and out of callbacks",
 "Tests use two fixed delays in real time.",
 ["src/pomp_timer.c", "src/pomp_timer_linux.c", "src/pomp_timer_posix.c"],
 [("timerfd programming", "src/pomp_timer_linux.c"), ("posix timer signal and pipe", "src/pomp_timer_posix.c")])

prop("C24", "The watchdog fires exactly for processing that exceeds its delay",
 "With the watchdog enabled, a dispatch that takes longer than the delay triggers its callback, once, while a dispatch that finishes in time, and any amount of waiting for events, never does. Enabling, disabling and destroying the loop in any order never blocks, crashes, or leaves its thread behind.",
 ["schedules", "histories"], "every history of enable/disable, short and long callbacks and idle waits",
 "There is no test of the watchdog.",
 ["src/pomp_watchdog.c", "src/pomp_loop.c"],
 [("watchdog thread and enter/leave accounting", "src/pomp_watchdog.c")])

prop("C25", "Addresses parse and format as documented, and round-trip",
 "Every well-formed address string (inet, inet6, unix path, unix abstract) parses to the socket address it denotes and formats back to an equivalent string, and every formatted address parses to the same address; any other string, a path that does not fit, or a destination too small is refused. For every input string, output size and address length nothing is read or written out of bounds and formatted output is always NUL-terminated.",
 ["inputs"], "every string and destination length for parsing, every address bytes, length and buffer length for formatting, every string and product root for the real-address function",
 "Tests use a dozen fixed strings.",
 ["src/pomp_addr.c"],
 [("pomp_addr_parse, pomp_addr_format, pomp_addr_get_real_addr", "src/pomp_addr.c")])

prop("C26", "The Python and C implementations encode and decode identically",
 "For every message both can express, the Python encoder and the C encoder produce the same bytes, and each decodes what the other produced to the same values. For every byte string, the Python decoder and dump either return values that the C decoder also returns for the same bytes or raise an error, and a read that C refuses because data is missing or of another type is refused by Python too.",
 ["inputs"], "every message id and argument list over the shared types (also non-ASCII text, empty messages, boundary integers), every malformed payload",
 "The Python tests encode and decode a single fixed tuple and never meet the C side.",
 ["python/pomp/encoder.py", "python/pomp/decoder.py", "python/pomp/message.py", "python/pomp/buffer.py"],
 [("Encoder.write, Decoder.read", "python/pomp/encoder.py, python/pomp/decoder.py"), ("Message.finish", "python/pomp/message.py")],
 observe=["pomp.Message / Encoder / Decoder in Python, public C API via a helper process"])

prop("C27", "The Python stream decoder delivers the same messages as the C one",
 "For every byte stream and every chunking, the Python protocol decoder yields the same sequence of messages as the C decoder and as the documented framing, independent of the chunking, resynchronising after garbage.",
 ["inputs"], "every stream of valid messages, garbage, partial magics and bad sizes, every chunking",
 "The Python stream decoder has no test.",
 ["python/pomp/protocol.py"],
 [("Protocol.decode", "python/pomp/protocol.py")],
 observe=["pomp.protocol.Protocol.decode"])

prop("C28", "The C++ wrappers are faithful to the C API",
 "Messages written and read through the C++ classes (format strings, typed message formats, Encoder/Decoder objects) have the same bytes and values as through the C API for every argument list, mismatches and errors are reported the same way, and the Context, Loop, Timer and Event wrappers forward each operation and notification to the right object with the same ordering guarantees as the C objects they wrap (a datagram context has no Connection objects: its messages come without one).",
 ["inputs", "histories"], "every argument list over all types through each C++ front end, every random traffic history through the wrapper objects",
 "There is no test of the C++ headers.",
 ["include/libpomp.hpp", "include/libpomp-cxx11.hpp"],
 [("Message/Encoder/Decoder/MessageFormat templates", "include/libpomp.hpp"), ("Context::eventCb connection table", "include/libpomp.hpp")],
 observe=["C++ classes of libpomp.hpp"])

prop("C29", "Python contexts interoperate with C contexts over sockets",
 "A Python context and a C context connected over tcp, unix or udp exchange every sequence of messages in both directions with each message delivered once, in order and with the same values, and both report connection and disconnection exactly once, whichever side is server and whichever side stops first.",
 ["inputs", "histories"], "every sequence of messages of random sizes in both directions, with either implementation as server, and either side closing first",
 "No test runs the Python transport at all.",
 ["python/pomp/context.py", "python/pomp/connection.py", "python/pomp/looper.py", "python/pomp/__init__.py"],
 [("Context/Connection threads", "python/pomp/context.py, python/pomp/connection.py")],
 observe=["pomp.Context callbacks in Python, C peer's callbacks"])

prop("C30", "The command line tool sends what it is given and shows what it gets",
 "For every message id, format and argument list accepted by the library, the command line client connected to a server delivers exactly the message the library's own encoder produces for them, and the tool in server mode prints the same rendering the library's dump gives for each message it receives; for arguments that do not fit the format (missing, an unknown conversion, wrong digits of a buffer, a string too long) nothing is sent, and the tool stays or exits as its options say.",
 ["inputs"], "every id, format string, argument list and expected-reply configuration over the transports the tool supports",
 "The tool has no test.",
 ["tools/pomp_cli.c", "src/pomp_encoder.c"],
 [("main, pomp_msg_write_argv use, message dump", "tools/pomp_cli.c")],
 observe=["pomp-cli process: exit status, output, bytes on its socket"])

prop("C31", "Sockets are set up as asked and shown to the application first",
 "Each socket a context creates or accepts is passed exactly once to the socket callback, with its kind, before it is bound, connected, listening or used for a connection, and the options the application sets there stay. Sockets are non blocking, and every descriptor the library opens is closed by exec. A TCP connection has the keepalive parameters last given to pomp_ctx_setup_keepalive before it was made (the documented defaults otherwise), later changes leaving it as it is. The file of a unix server has the access mode asked (that of the umask when 0 is given) and goes away when the context stops. The local address of a context is the one its socket is bound to, none for clients and stopped contexts; the local address of a datagram connection during a reception is the destination of that datagram when the application enabled packet information, else the bound address, and its peer address the sender.",
 ["inputs", "histories"], "every sequence of starts, stops, connections, retries and settings of several contexts over each transport, every access mode and umask, every destination of datagrams",
 "The tests set a few of these options and look at none of them on the sockets.",
 ["src/pomp_ctx.c", "src/pomp_conn.c", "src/pomp_priv.h"],
 [("notify_socket, fd_socket_setup_keepalive, server_start, dgram_start, pomp_ctx_get_local_addr", "src/pomp_ctx.c"), ("pomp_conn_process_read, ancillary data of datagrams", "src/pomp_conn.c"), ("fd_setup_flags", "src/pomp_priv.h")],
 observe=["pomp_ctx_set_socket_cb", "getsockopt, fcntl and getsockname on the sockets", "mode of the socket file", "pomp_ctx_get_local_addr, pomp_conn_get_local_addr, pomp_conn_get_peer_addr"])

prop("C32", "Python loop requests are handled once, in order, in the thread of their loop",
 "A request posted to a Handler, from any thread or from a handler, is passed exactly once to the callback of that handler, in the thread that created it (whose loop it is bound to); the requests posted to one loop by a thread are handled in the order of posting, those of all its handlers included. stepLoop handles the pending requests, at most maxMsg of them, and does not wait when its timeout is 0; runLoop goes on, handling requests as they come, until exitLoop is called in the thread, and handles none after that. A thread has at most one loop: a second prepareLoop is refused until the loop ended, after which a new one starts afresh; a loop given by the application to prepareLoop is the one used.",
 ["inputs", "histories", "schedules"], "every history of posts, steps, nested steps and runs of one thread, and every interleaving of threads posting to the loops of others",
 "No test exercises the loops of the Python classes.",
 ["python/pomp/looper.py"],
 [("_Loop, Handler, prepareLoop, runLoop, stepLoop, exitLoop", "python/pomp/looper.py")],
 observe=["calls of the handlers' callbacks (thread, order, argument)", "return of stepLoop and runLoop", "exception of prepareLoop"])

prop("C33", "Threads with objects of their own do not disturb each other",
 "The library has no state shared between objects that the application did not connect: when several threads use at the same time messages, encoders, decoders, stream decoders, buffers, addresses, loops, events, timers, contexts and connections each of their own, every call gives each thread what it would have given had that thread been alone, and no memory is accessed without synchronisation by two threads.",
 ["inputs", "histories", "schedules"], "every set of scenarios run concurrently and every interleaving of them",
 "The tests have no two threads using the library at the same time, except to wake a loop up.",
 ["src/"],
 [("pomp_loop_epoll_do_wait_and_process, pomp_loop_poll_do_wait_and_process", "src/pomp_loop_linux.c, src/pomp_loop_posix.c"), ("encoder_write_varint, pomp_decoder_readv", "src/pomp_encoder.c, src/pomp_decoder.c"), ("pomp_io_buffer_write_with_cmsg, pomp_conn_process_read_with_cmsg", "src/pomp_conn.c"), ("pomp_prot_decode_msg", "src/pomp_prot.c")],
 observe=["results and outputs of every call", "callbacks of loops, events, timers and contexts", "reports of ThreadSanitizer"])

prop("C34", "Nothing accumulates in objects that live on",
 "Work that is over leaves nothing behind in the objects that did it: however many times connections come and go (accepted, refused, failed, ended by either side), messages and datagrams (valid or not, with descriptors or not) are sent, queued and received, a client retries, a context is stopped and started, addresses are parsed and formatted, messages, encoders, decoders, buffers and stream decoders are used again, events, timers, descriptors, idle functions and the watchdog are set and removed, the memory, the descriptors and the timers held by the library stay bounded by what is in progress, and do not grow with what was done before.",
 ["histories", "inputs"], "every plan of operations after which nothing is in progress, repeated any number of times on the same objects",
 "Tests create objects, use them once and destroy them; what an object keeps until its destruction is seen neither by them nor by a leak detector.",
 ["src/"],
 [("pomp_loop_remove, pomp_loop_idle_remove", "src/pomp_loop.c"), ("pomp_conn_process_write, pomp_conn_close", "src/pomp_conn.c"), ("pomp_ctx_remove_conn, client_complete_conn, server_accept_conn", "src/pomp_ctx.c"), ("pomp_prot_release_msg", "src/pomp_prot.c"), ("pomp_msg_clear", "src/pomp_msg.c")],
 observe=["number and size of the blocks allocated by the library", "open descriptors", "posix timers"])

prop("C35", "A loop that has nothing to do waits",
 "After any history of operations on contexts, connections, events, timers, idle functions, wakeups and descriptors, once what was due has been processed a wait on the loop returns -ETIMEDOUT, not before its timeout, without calling any callback, and the descriptor of the loop is not readable: the library never keeps the loop awake. What is left undone does not wake it either: data for connections whose reading is suspended (even if their peer is gone), queues whose peers do not read, timers that are not due, clients waiting for an absent server, descriptors whose pending conditions are not monitored. Likewise the threads of Python contexts and loops use no processor time while nothing happens.",
 ["histories", "inputs"], "every history of operations, with the epoll and the poll loop, seen each time the due work has been done",
 "A loop kept awake still does everything it should, so tests that wait for something to happen pass while the process uses all of a processor.",
 ["src/"],
 [("pomp_conn_process_write, pomp_conn_cb, pomp_conn_suspend_read", "src/pomp_conn.c"), ("pomp_loop_wait_and_process, pomp_idle_evt_cb", "src/pomp_loop.c"), ("pomp_loop_epoll_wakeup_cb", "src/pomp_loop_linux.c"), ("pomp_evt_fd_cb", "src/pomp_evt_linux.c"), ("pomp_timer_fd_cb", "src/pomp_timer_linux.c"), ("client_start, server_start", "src/pomp_ctx.c"), ("Context._waitForRetry, _runServer, _runClient, _runDgram", "python/pomp/context.py")],
 observe=["result and duration of waits", "readability of the descriptor of the loop", "callbacks"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
