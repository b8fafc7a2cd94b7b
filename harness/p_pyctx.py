"""C29: Python contexts interoperate with C contexts over sockets."""
import ctypes as C
import fcntl
import logging
import os
import socket
import struct
import sys
import termios
import threading
import time

import pypbt
from pypbt import check

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.environ["POMP_REPO"], "python"))
import pomp  # noqa: E402
import pomp.context  # noqa: E402
import pomp.looper as looper  # noqa: E402
import pomp_c  # noqa: E402
from pomp_c import P, lib  # noqa: E402

logging.disable(logging.CRITICAL)
WAIT = 15.0
# reconnections are part of what is explored: do not wait for 2 s
for _f in ("_SERVER_RECONNECT_DELAY", "_CLIENT_RECONNECT_DELAY", "_DGRAM_RECONNECT_DELAY"):
    if hasattr(pomp.context, _f):
        setattr(pomp.context, _f, 0.05)
HELLO = 0x48454c4f
CB = C.CFUNCTYPE(None, P, C.c_int, P, P, P)
lib.pomp_ctx_new.restype = P
lib.pomp_ctx_new.argtypes = [CB, P]
lib.pomp_addr_parse.argtypes = [C.c_char_p, P, C.POINTER(C.c_uint32)]
for _f in ("pomp_ctx_listen", "pomp_ctx_connect", "pomp_ctx_bind"):
    getattr(lib, _f).argtypes = [P, P, C.c_uint32]
lib.pomp_ctx_send_msg_to.argtypes = [P, P, P, C.c_uint32]
lib.pomp_conn_send_msg.argtypes = [P, P]
lib.pomp_ctx_send_msg.argtypes = [P, P]
for _f in ("pomp_conn_get_peer_addr", "pomp_conn_get_local_addr"):
    getattr(lib, _f).restype = P
    getattr(lib, _f).argtypes = [P, C.POINTER(C.c_uint32)]
FMT = {"i8": "%hhd", "u8": "%hhu", "i16": "%hd", "u16": "%hu", "i32": "%d", "u32": "%u", "i64": "%lld", "u64": "%llu", "str": "%s", "buf": "%p",
       "f32": "%f", "f64": "%lf"}
seq = 0


def own_ip():
    p = os.getpid()
    return "127.%d.%d.%d" % (32 + (p >> 16 & 31), p >> 8 & 255, p & 255)


def free_port(kind):
    s = socket.socket(socket.AF_INET, kind)
    s.bind((own_ip(), 0))
    port = s.getsockname()[1]
    s.close()
    return port


def name():
    global seq
    seq += 1
    return "vppy%d_%d" % (os.getpid(), seq)


def gen_args(g, big=True):
    res = []
    for _ in range(g.below(7)):
        t = g.pick(("i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "str", "buf", "f32", "f64"))
        if t[0] in "iu":
            bits = int(t[1:])
            v = g.integer(bits)
            if t[0] == "i" and v >> (bits - 1):
                v -= 1 << bits
        elif t == "str":
            v = "".join(chr(33 + g.below(90)) if g.chance(4, 5) else chr(0xc0 + g.below(2000)) for _ in range(g.size(30)))
        elif t == "buf":
            v = g.bytes(g.size(200))
        else:
            v = float(g.integer(20)) / 4
        res.append((t, v))
    if big and g.chance(1, 25):
        n = 20000 + g.below(400000)
        if g.chance(1, 12):
            n = g.pick((1048576, 2097152, 3000000))
            g.label("message of megabytes")
        res.append(("buf", g.bytes(n)))
        g.label("big message")
    return res


def c_msg(mid, args):
    """a finished C message"""
    b = pomp_c.encode(mid, args)
    buf = lib.pomp_buffer_new_with_data(b, len(b))
    m = lib.pomp_msg_new_with_buffer(P(buf))
    lib.pomp_buffer_unref(P(buf))
    return m


class Link(object):
    """a connection, both directions; 0: from the client"""

    def __init__(self, n):
        self.n = n
        self.q = ([], [])
        self.known = False  # the server knows which one it is
        self.cut = False
        self.up = [True, False]


class Peer(object):
    def __init__(self, w, idx):
        self.w, self.idx = w, idx
        self.server = idx == 0
        self.conns = []
        self.link = {}
        self.shut = set()
        self.started = False
        self.starting = False
        self.restarted = False

    # what is common to both implementations; conn: any hashable value
    def connected(self, conn):
        self.w.g.note("%d connected", self.idx)
        check(conn not in self.conns, "%d: connected twice", self.idx)
        # a stop in a callback of C takes place later
        check(self.started or self.kind == "C", "%d: connected while stopped", self.idx)
        self.conns.append(conn)
        if self.server:
            return
        check(len(self.conns) == 1, "%d: a client has two connections", self.idx)
        k = Link(len(self.w.links))
        self.w.links.append(k)
        self.link[conn] = k
        self.raw_send(conn, HELLO, [("u32", k.n)])
        self.act(conn)

    def disconnected(self, conn):
        self.w.g.note("%d disconnected", self.idx)
        check(conn in self.conns, "%d: disconnected, was not connected", self.idx)
        self.conns.remove(conn)
        self.shut.discard(conn)
        k = self.link.pop(conn, None)
        if k is not None:
            k.cut = True
            k.up[self.server] = False
        self.act(None)

    def message(self, conn, mid, data):
        check(conn in self.conns, "%d: a message of a connection that is not connected", self.idx)
        if conn not in self.link:
            check(self.server and mid == HELLO, "%d: first message %d", self.idx, mid)
            n = struct.unpack("<I", data[-4:])[0] if False else self.w.hello(data)
            k = self.w.links[n]
            check(not k.known, "a connection is announced twice")
            k.known = True
            k.up[1] = True
            k.cut |= conn in self.shut
            self.link[conn] = k
            return None
        q = self.link[conn].q[not self.server]
        check(q, "%d: a message that was not sent: %s", self.idx, data[:60].hex())
        want = q.pop(0)
        check(mid == want[0], "%d: id %d, %d sent", self.idx, mid, want[0])
        b = pomp_c.encode(*want)
        check(data == b, "%d: %d bytes %s, %d bytes %s were sent", self.idx, len(data), data[:60].hex(), len(b), b[:60].hex())
        self.w.delivered += 1
        return want

    def cutting(self, conn):
        if self.server:
            self.w.anycut = True
        k = self.link.get(conn)
        if k is not None:
            k.cut = True
            return
        self.shut.add(conn)
        for k in self.w.links:
            if not k.known:
                k.cut = True

    def stop(self):
        self.w.g.note("%d stop", self.idx)
        for c in list(self.conns):
            self.cutting(c)
        if self.server:
            self.w.anycut = True
            for k in self.w.links:
                if not k.known:
                    k.cut = True
        self.do_stop()
        self.started = False

    def start(self):
        self.w.g.note("%d start", self.idx)
        self.started = True
        self.do_start()

    def send(self, conn):
        """to a connection, or all (None)"""
        to = [conn] if conn is not None else list(self.conns)
        if not to or not self.started or any(c not in self.link for c in to):
            return
        mid = self.w.g.integer(32)
        if mid == HELLO:
            mid += 1
        args = gen_args(self.w.g)
        for c in to:
            self.link[c].q[self.server].append((mid, args))
        self.w.g.note("%d sends %d %.60r to %d", self.idx, mid, args, len(to))
        if conn is not None:
            self.raw_send(conn, mid, args)
        else:
            self.raw_send_all(mid, args)

    def act(self, conn):
        """from inside a callback"""
        g = self.w.g
        if self.w.calm or not self.started or self.starting or self.w.depth > 2:
            return
        self.w.depth += 1
        k = g.below(12)
        if k == 0 and self.conns:
            c = g.pick(self.conns)
            self.cutting(c)
            self.disconnect(c)
        elif k == 1 and g.chance(1, 3):
            g.label("stop in a callback")
            self.stop()
        elif k < 6 and self.conns:
            self.send(g.pick(self.conns) if g.flip() else None)
        self.w.depth -= 1


class PyPeer(Peer):
    """the implementation under test"""
    kind = "python"

    def __init__(self, w, idx):
        Peer.__init__(self, w, idx)
        me = self

        class H(pomp.EventHandler):
            def onConnected(self, ctx, conn):
                check(ctx is me.ctx, "onConnected: wrong context")
                me.w.addresses_py(conn)
                me.connected(conn)

            def onDisconnected(self, ctx, conn):
                check(ctx is me.ctx, "onDisconnected: wrong context")
                me.disconnected(conn)
                if me.w.g.chance(1, 10):
                    me.w.g.label("stop in onDisconnected")
                    me.stop()

            def recvMessage(self, ctx, conn, msg):
                check(ctx is me.ctx, "recvMessage: wrong context")
                want = me.message(conn, msg.msgid, msg.buf.getData())
                if want is not None:
                    v = list(msg.read("".join(FMT[t] for t, _ in want[1])))
                    check(v == [x for _, x in want[1]], "%r received, %r sent", v, want[1])
                    me.act(conn)
        self.ctx = pomp.Context(H())
        self.nested = 0

    def do_start(self):
        fam, a = pomp.parseAddr(self.w.addr)
        if self.server:
            self.ctx.listen(fam, a)
        else:
            self.ctx.connect(fam, a)

    def do_stop(self):
        if self.started or self.conns:
            self.started = False
            t = time.monotonic()
            self.nested += 1
            self.ctx.stop()
            check(time.monotonic() - t < 10, "stop took %.1f s", time.monotonic() - t)
            self.nested -= 1
            check(self.nested or not self.conns, "%d connections not disconnected by stop", len(self.conns))

    def raw_send(self, conn, mid, args):
        if self.w.g.flip():
            conn.send(mid, "".join(FMT[t] for t, _ in args), *[v for _, v in args])
        else:
            m = pomp.Message()
            m.write(mid, "".join(FMT[t] for t, _ in args), *[v for _, v in args])
            conn.sendMsg(m)

    def raw_send_all(self, mid, args):
        self.ctx.send(mid, "".join(FMT[t] for t, _ in args), *[v for _, v in args])

    def disconnect(self, conn):
        self.w.g.note("%d disconnects", self.idx)
        conn.disconnect()

    def pump(self):
        looper.stepLoop(timeout=0.001)

    def checkup(self):
        check(list(self.ctx.getConnections()) == self.conns, "getConnections: %d, %d connected", len(self.ctx.getConnections()), len(self.conns))
        check(self.ctx.getConnection() is (self.conns[0] if self.conns else None), "getConnection")

    def destroy(self):
        pass


class CPeer(Peer):
    kind = "C"

    def __init__(self, w, idx):
        Peer.__init__(self, w, idx)

        def cb(ctx, ev, conn, msg, ud):
            try:
                if ev == 0:
                    self.connected(conn)
                elif ev == 1:
                    self.disconnected(conn)
                else:
                    if self.message(conn, pomp_c.msg_id(msg), pomp_c.msg_bytes(msg)) is not None:
                        self.act(conn)
            except BaseException as ex:  # cannot cross the C frames
                if self.w.error is None:
                    self.w.error = ex
        self.cb = CB(cb)
        self.ctx = lib.pomp_ctx_new(self.cb, None)

    def do_start(self):
        sa = C.create_string_buffer(128)
        n = C.c_uint32(128)
        check(lib.pomp_addr_parse(self.w.addr.encode(), sa, C.byref(n)) == 0, "pomp_addr_parse %s", self.w.addr)
        end = time.monotonic() + WAIT
        while True:
            r = (lib.pomp_ctx_listen if self.server else lib.pomp_ctx_connect)(self.ctx, sa, n)
            if r != -16 or self.w.depth:
                break
            check(time.monotonic() < end, "the C context stays busy")
            self.starting = True  # nothing is done from the callbacks of the end of what was before
            self.pump()  # a stop from a callback is still to come
            self.starting = False
        check(r == 0, "start: %d", r)

    def do_stop(self):
        lib.pomp_ctx_stop(P(self.ctx))

    def raw_send(self, conn, mid, args):
        m = c_msg(mid, args)
        lib.pomp_conn_send_msg(conn, m)
        pomp_c.msg_destroy(m)

    def raw_send_all(self, mid, args):
        m = c_msg(mid, args)
        lib.pomp_ctx_send_msg(self.ctx, m)
        pomp_c.msg_destroy(m)

    def disconnect(self, conn):
        self.w.g.note("%d disconnects (C)", self.idx)
        lib.pomp_conn_disconnect(P(conn))

    def pump(self):
        lib.pomp_ctx_wait_and_process(P(self.ctx), 0)
        if self.w.error is not None:
            raise self.w.error

    def checkup(self):
        pass

    def destroy(self):
        for _ in range(50):
            if lib.pomp_ctx_destroy(P(self.ctx)) == 0:
                return
            lib.pomp_ctx_wait_and_process(P(self.ctx), 0)
        check(False, "pomp_ctx_destroy")


class World(object):
    def __init__(self, g):
        self.g = g
        self.links = []
        self.error = None
        self.calm = False
        self.anycut = False
        self.depth = 0
        self.delivered = 0
        self.addr = ""

    def hello(self, data):
        d = pomp_c.Decoder(data)
        try:
            r, v = d.read("u32")
            check(r == 0 and v < len(self.links), "hello: %r", data.hex())
            return v
        finally:
            d.close()

    def addresses_py(self, conn):
        fam, a = conn.getLocalAddr()
        fam2, b = conn.getPeerAddr()
        want = pomp.parseAddr(self.addr)
        check(fam == want[0] and fam2 == want[0], "address family")
        if fam == socket.AF_INET:
            check(want[1] in (a[:2], b[:2]), "addresses %r and %r of a connection to %s", a, b, self.addr)


def fds():
    return set(os.listdir("/proc/self/fd"))


def in_thread(g, fn):
    """in a thread of its own, which has its own loop; exceptions of any thread are failures"""
    errors = []
    before = fds()

    def hook(a):
        errors.append("exception in thread: %r %s" % (a.exc_type.__name__, a.exc_value))

    def run():
        try:
            looper.prepareLoop()
            fn(g)
        except BaseException as ex:
            errors.append(ex)
    old = threading.excepthook
    threading.excepthook = hook
    t = threading.Thread(target=run, daemon=True)
    t.start()
    t.join()
    end = time.monotonic() + WAIT
    while not errors and threading.active_count() > 1:
        check(time.monotonic() < end, "threads are left after stop: %r", [x.name for x in threading.enumerate()])
        time.sleep(0.001)
    threading.excepthook = old
    if errors:
        if isinstance(errors[0], BaseException):
            raise errors[0]
        check(False, "%s", errors[0])
    after = fds()
    check(len(after) <= len(before), "descriptors left open: %r", after - before)


def scenario(g, server, clients):
    """kinds of the peers"""
    w = World(g)
    k = g.below(4)
    path = None
    if k <= 1:
        w.addr = "unix:@" + name()
    elif k == 2:
        w.addr = "inet:%s:%d" % (own_ip(), free_port(socket.SOCK_STREAM))
    else:
        path = os.path.join(os.environ.get("TMPDIR", "/tmp"), name())
        w.addr = "unix:" + path
    g.note("%s: %s server, clients %s", w.addr, server.kind, [c.kind for c in clients])
    peers = [server(w, 0)] + [c(w, i + 1) for i, c in enumerate(clients)]

    def step():
        for p in peers:
            p.pump()
            if w.error is not None:
                raise w.error
        for p in peers:
            p.checkup()

    def wait(cond, what):
        end = time.monotonic() + WAIT
        while not cond():
            step()
            check(time.monotonic() < end, "%s", what)

    peers[0].start()
    if g.chance(29, 30) if CPeer in clients else g.chance(4, 5):
        # a client that comes first would wait for 2 s
        fam, a = pomp.parseAddr(w.addr)
        end = time.monotonic() + WAIT
        if server is PyPeer:
            # no connection is made here: the socket is only looked at
            while not listening(w.addr):
                step()
                check(time.monotonic() < end, "the server does not listen")
    else:
        g.label("client first")
    for p in peers[1:]:
        p.start()
    # the delay of C clients is 2 s
    patient = g.chance(1, 30 if CPeer in clients else 4)
    raw = []
    if g.chance(9, 10):
        wait(lambda: all(p.conns for p in peers[1:]) and len(peers[0].link) == len(clients) or w.anycut or any(k.cut for k in w.links),
             "the clients are not connected")
    for _ in range(g.below(25)):
        p = g.pick(peers)
        k = g.weighted((10, 10, 1, 1, 2, 1))
        if k == 0:
            step()
        elif k == 1:
            if p.conns:
                p.send(g.pick(p.conns) if g.flip() else None)
        elif k == 2:
            if p.started:
                p.stop()
                step()
        elif k == 3:
            if not p.started:
                p.restarted = True
                p.start()
                g.label("restart")
        elif k == 5:
            if server is PyPeer:
                nuisance(g, w, raw)
        elif p.conns:
            c = g.pick(p.conns)
            p.cutting(c)
            p.disconnect(c)
    w.calm = True
    for x in raw:
        x.close()
    if patient and peers[0].started:
        # everybody comes back
        g.label("reconnection")
        # (unless a handler stops the server meanwhile)
        wait(lambda: not peers[0].started or all(p.conns or not p.started for p in peers[1:])
             and len(peers[0].conns) == sum(p.started for p in peers[1:]),
             "the clients do not come back")
    wait(lambda: all(k.cut or not k.up[0] or (k.up[1] and not k.q[0] and not k.q[1]) for k in w.links),
         "what was sent on a connection that is up does not arrive")
    # who stops first, and how late the others notice, changes
    order = list(peers)
    while order:
        p = order.pop(g.below(len(order)))
        if p.started:
            p.stop()
        for _ in range(g.below(3)):
            step()
    wait(lambda: not any(p.conns for p in peers), "not all connections are disconnected by stop")
    for p in peers:
        p.destroy()
    if path and os.path.exists(path):
        os.unlink(path)
    if w.delivered >= 3:
        g.nontrivial()


def nuisance(g, w, raw):
    """somebody else connects to the server, is not understood or is already gone"""
    k = g.below(4)
    g.note("nuisance %d", k)
    g.label("nuisance")
    fam, a = pomp.parseAddr(w.addr)
    x = socket.socket(fam, socket.SOCK_STREAM)
    x.setblocking(False)
    try:
        x.connect(a)
    except OSError:
        pass
    if k:
        try:
            x.send(bytes(g.below(80) for _ in range(g.below(40))))  # no magic in there
        except OSError:
            pass
    if k == 3:
        raw.append(x)
        return
    if k == 2 and fam == socket.AF_INET:
        x.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
    x.close()


def listening(addr):
    if addr.startswith("inet:"):
        host, port = addr[5:].rsplit(":", 1)
        want = "%08X:%04X" % (struct.unpack("<I", socket.inet_aton(host))[0], int(port))
        with open("/proc/net/tcp") as f:
            return any(x.split()[1] == want and x.split()[3] == "0A" for x in f.readlines()[1:])
    with open("/proc/net/unix") as f:
        return any(x.split()[3] == "00010000" and x.rstrip("\n").rstrip("@\0").endswith(addr[5:]) for x in f.readlines()[1:])


@pypbt.target("c29_server", "a Python server and 1 to 3 clients (C, sometimes Python), messages both ways, disconnections, stops (also in callbacks), restarts, over tcp and "
              "unix; non-trivial: 3 deliveries", weight=3, timeout=90)
def c29_server(g):
    n = 1 + g.below(3)
    kinds = [PyPeer if g.chance(1, 5) else CPeer for _ in range(n)]
    in_thread(g, lambda g: scenario(g, PyPeer, kinds))


@pypbt.target("c29_client", "a C server and 1 to 3 clients (Python, sometimes C); as c29_server", weight=3, timeout=90)
def c29_client(g):
    n = 1 + g.below(3)
    kinds = [PyPeer] + [CPeer if g.chance(1, 3) else PyPeer for _ in range(n - 1)]
    in_thread(g, lambda g: scenario(g, CPeer, kinds))


def dgram(g):
    """a Python and a C datagram context"""
    ip = own_ip()
    ports = [free_port(socket.SOCK_DGRAM), free_port(socket.SOCK_DGRAM)]
    if ports[0] == ports[1]:
        return
    q = {"py": [], "c": []}
    st = {"conn": None, "gone": 0, "n": 0}
    errors = []

    def got(side, mid, data):
        check(q[side], "%s: a datagram that was not sent", side)
        want = q[side].pop(0)
        check(mid == want[0] and data == pomp_c.encode(*want), "%s: datagram %s, expected %s", side, data[:60].hex(), pomp_c.encode(*want)[:60].hex())
        st["n"] += 1
        return want

    class H(pomp.EventHandler):
        def onConnected(self, ctx, conn):
            check(st["conn"] is None, "onConnected twice")
            st["conn"] = conn

        def onDisconnected(self, ctx, conn):
            check(st["conn"] is conn, "onDisconnected: wrong connection")
            st["conn"] = None
            st["gone"] += 1

        def recvMessage(self, ctx, conn, msg):
            check(conn is st["conn"], "recvMessage: wrong connection")
            want = got("py", msg.msgid, msg.buf.getData())
            v = list(msg.read("".join(FMT[t] for t, _ in want[1])))
            check(v == [x for _, x in want[1]], "%r received, %r sent", v, want[1])

    def cb(ctx, ev, conn, msg, ud):
        try:
            check(ev == 2, "event %d of a C datagram context", ev)
            got("c", pomp_c.msg_id(msg), pomp_c.msg_bytes(msg))
        except BaseException as ex:
            errors.append(ex)
    ccb = CB(cb)
    c = lib.pomp_ctx_new(ccb, None)
    sa = [C.create_string_buffer(128), C.create_string_buffer(128)]
    ln = [C.c_uint32(128), C.c_uint32(128)]
    for i in range(2):
        check(lib.pomp_addr_parse(("inet:%s:%d" % (ip, ports[i])).encode(), sa[i], C.byref(ln[i])) == 0, "parse")
    check(lib.pomp_ctx_bind(c, sa[1], ln[1]) == 0, "bind")
    ctx = pomp.Context(H())

    def step():
        looper.stepLoop(timeout=0.001)
        lib.pomp_ctx_wait_and_process(P(c), 0)
        if errors:
            raise errors[0]

    def garbage():
        """datagrams that are not messages are ignored"""
        g.label("garbage")
        x = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
        k = g.below(3)
        b = pomp_c.encode(5, [("buf", bytes(50))])
        b = b[:1 + g.below(len(b) - 1)] if k else bytes(g.below(80) for _ in range(g.below(60)))
        g.note("garbage %s", b.hex())
        x.sendto(b, (ip, ports[0]))
        x.close()

    def wait(cond, what):
        end = time.monotonic() + WAIT
        while not cond():
            step()
            check(time.monotonic() < end, "%s", what)
    for r in range(1 + g.chance(1, 4)):
        ctx.bind(*pomp.parseAddr("inet:%s:%d" % (ip, ports[0])))
        if r == 0 and g.chance(1, 8):
            g.label("stopped at once")
            ctx.stop()
            ctx.bind(*pomp.parseAddr("inet:%s:%d" % (ip, ports[0])))
        wait(lambda: st["conn"] is not None, "a datagram context is not ready")
        for _ in range(g.below(10)):
            mid, args = g.integer(32), gen_args(g, False)
            if g.chance(1, 8):
                garbage()
            if len(pomp_c.encode(mid, args)) > 4000:
                continue
            if g.flip():
                q["c"].append((mid, args))
                m = pomp.Message()
                m.write(mid, "".join(FMT[t] for t, _ in args), *[v for _, v in args])
                st["conn"].sendMsgTo(m, (ip, ports[1]))
                g.note("python sends %d %.60r", mid, args)
            else:
                q["py"].append((mid, args))
                m = c_msg(mid, args)
                check(lib.pomp_ctx_send_msg_to(c, m, sa[0], ln[0]) == 0, "pomp_ctx_send_msg_to")
                pomp_c.msg_destroy(m)
                g.note("C sends %d %.60r", mid, args)
            if g.chance(1, 3):
                step()
        wait(lambda: not q["py"] and not q["c"], "datagrams do not arrive")
        ctx.stop()
        check(st["conn"] is None and st["gone"] == r + 1, "%d disconnections after stop", st["gone"])
    lib.pomp_ctx_stop(P(c))
    check(lib.pomp_ctx_destroy(P(c)) == 0, "destroy")
    if st["n"] >= 3:
        g.nontrivial()


def churn(g):
    """a server serves whatever number of connections came and went, and not only those that said something"""
    w = World(g)
    w.addr = "unix:@" + name() if g.flip() else "inet:%s:%d" % (own_ip(), free_port(socket.SOCK_STREAM))
    fam, a = pomp.parseAddr(w.addr)
    st = {"conns": [], "got": []}

    class H(pomp.EventHandler):
        def onConnected(self, ctx, conn):
            st["conns"].append(conn)

        def onDisconnected(self, ctx, conn):
            check(conn in st["conns"], "disconnected, was not connected")
            st["conns"].remove(conn)

        def recvMessage(self, ctx, conn, msg):
            check(conn in st["conns"], "a message of a connection that is not connected")
            st["got"].append(msg.msgid)

    ctx = pomp.Context(H())
    ctx.listen(fam, a)

    def wait(cond, what):
        end = time.monotonic() + WAIT
        while not cond():
            looper.stepLoop(timeout=0.001)
            check(time.monotonic() < end, "%s", what)
    wait(lambda: listening(w.addr), "the server does not listen")
    up = []
    n = 10 + g.below(40)
    for i in range(n):
        k = g.below(3)
        x = socket.socket(fam, socket.SOCK_STREAM)
        x.connect(a)
        g.note("connection %d of kind %d, %d up", i, k, len(up))
        if k == 0:
            # gone at once
            x.close()
            continue
        x.send(pomp_c.encode(i, [("u32", i)]))
        wait(lambda: i in st["got"], "connection %d of %d is not served, %d up" % (i, n, len(up)))
        up.append(x)
        if k == 1 and g.flip():
            st["conns"][-1].disconnect()
        while len(up) > g.below(14):
            up.pop(g.below(len(up))).close()
    g.note("stop with %d up", len(up))
    if g.flip():
        for x in up:
            x.close()
        wait(lambda: not st["conns"], "%d connections that are gone are not noticed" % len(st["conns"]))
        up = []
    ctx.stop()
    check(not st["conns"], "%d connections are left by stop", len(st["conns"]))
    check(len(st["got"]) == len(set(st["got"])), "a message is received twice")
    for x in up:
        check(x.recv(10) == b"", "connection left open by stop")
        x.close()
    if n > 20:
        g.nontrivial()


@pypbt.target("c29_churn", "10 to 49 connections to a Python server, at most 14 at a time; non-trivial: more than 20", weight=1, timeout=90)
def c29_churn(g):
    in_thread(g, churn)


def stream(g):
    """peers that send their messages in pieces of any size and read slowly: what a connection carries is what was sent, whatever the cuts"""
    w = World(g)
    w.addr = "unix:@" + name() if g.below(4) else "inet:%s:%d" % (own_ip(), free_port(socket.SOCK_STREAM))
    fam, a = pomp.parseAddr(w.addr)
    server = g.chance(2, 3)
    # connections: peer's socket -> what the python side got and is expected to get
    st = {"conns": [], "got": {}, "gone": []}

    class H(pomp.EventHandler):
        def onConnected(self, ctx, conn):
            check(conn not in st["conns"], "connected twice")
            st["conns"].append(conn)
            st["got"][conn] = []

        def onDisconnected(self, ctx, conn):
            check(conn in st["conns"] and conn not in st["gone"], "disconnected, was not connected")
            st["gone"].append(conn)

        def recvMessage(self, ctx, conn, msg):
            check(conn in st["conns"] and conn not in st["gone"], "a message of a connection that is not connected")
            st["got"][conn].append(bytes(msg.buf.getData()))

    ctx = pomp.Context(H())
    n = 1 + g.below(3) if server else 1
    peers = []

    def wait(cond, what):
        end = time.monotonic() + WAIT
        while not cond():
            looper.stepLoop(timeout=0.001)
            check(time.monotonic() < end, "%s", what)

    lst = None
    if server:
        ctx.listen(fam, a)
        wait(lambda: listening(w.addr), "the server does not listen")
    else:
        lst = socket.socket(fam, socket.SOCK_STREAM)
        lst.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        lst.bind(a)
        lst.listen(4)
        ctx.connect(fam, a)
    for i in range(n):
        if server:
            x = socket.socket(fam, socket.SOCK_STREAM)
            x.connect(a)
        else:
            x, _ = lst.accept()
        if fam == socket.AF_INET:
            x.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        wait(lambda: len(st["conns"]) == i + 1, "connection %d is not told" % i)
        peers.append({"s": x, "conn": st["conns"][-1], "want": [], "data": b"", "out": b""})
    cuts = 0
    for p in peers:
        for k in range(1 + g.below(5)):
            mid, args = g.below(1 << 32), gen_args(g, big=g.chance(1, 6))
            d = pomp_c.encode(mid, args)
            p["want"].append(d)
            p["data"] += d
        if g.chance(1, 4):
            # one that never ends
            d = pomp_c.encode(7, gen_args(g, big=False))
            p["data"] += d[:1 + g.below(len(d) - 1)]
            g.label("unfinished")
    live = [p for p in peers]
    while live:
        p = live[g.below(len(live))]
        k = g.below(4)
        if k == 0:
            m = 1 + g.below(13)
        elif k == 1:
            m = 1 + g.below(200)
        elif k == 2:
            m = 4080 + g.below(30)
        else:
            # up to the neighbourhood of a message's border
            pos, m = len(b"".join(p["want"])) + 0, None
            sent, at = p.get("sent", 0), 0
            for d in p["want"]:
                at += len(d)
                if at > sent:
                    break
            m = max(1, at - sent + g.below(30) - 12)
        chunk, p["data"] = p["data"][:m], p["data"][m:]
        if p["data"] and len(chunk) >= 1:
            cuts += 1
        p["sent"] = p.get("sent", 0) + len(chunk)
        g.note("peer %d: %d bytes", peers.index(p), len(chunk))
        p["s"].sendall(chunk)
        if not p["data"]:
            live.remove(p)
        if g.chance(3, 4):
            # let it be read before more comes
            end = time.monotonic() + WAIT
            if fam == socket.AF_UNIX:
                while struct.unpack("i", fcntl.ioctl(p["s"], termios.TIOCOUTQ, b"\0" * 4))[0]:
                    time.sleep(0.0001)
                    check(time.monotonic() < end, "the connection does not read")
            else:
                time.sleep(0.002)
        if g.chance(1, 4):
            looper.stepLoop(timeout=0.0001)
        if g.chance(1, 4):
            mid, args = g.below(1 << 32), gen_args(g, big=g.chance(1, 3))
            d = pomp_c.encode(mid, args)
            m = pomp.Message()
            m.write(mid, "".join(FMT[t] for t, _ in args), *[v for _, v in args])
            check(bytes(m.buf.getData()) == d, "another encoding")
            p["conn"].sendMsg(m)
            p["out"] += d
    for i, p in enumerate(peers):
        wait(lambda: len(st["got"][p["conn"]]) >= len(p["want"]), "peer %d: %d messages of %d" % (i, len(st["got"][p["conn"]]), len(p["want"])))
        r = b""
        p["s"].settimeout(WAIT)
        while len(r) < len(p["out"]):
            d = p["s"].recv(1 + g.below(5000))
            check(d, "peer %d: end of the stream after %d bytes of %d", i, len(r), len(p["out"]))
            r += d
        check(r == p["out"], "peer %d reads other bytes than were sent", i)
    for i, p in enumerate(peers):
        if g.flip():
            p["s"].close()
            wait(lambda: p["conn"] in st["gone"], "peer %d is not noticed as gone" % i)
    ctx.stop()
    for i, p in enumerate(peers):
        check(p["conn"] in st["gone"], "peer %d: no disconnection by stop", i)
        check(st["got"][p["conn"]] == p["want"], "peer %d: other messages than were sent", i)
        p["s"].close()
    if lst is not None:
        lst.close()
    if cuts >= 3:
        g.nontrivial()


@pypbt.target("c29_stream", "peers that send valid messages (and unfinished ones) in pieces to Python connections and read slowly; non-trivial: 3 cuts", weight=2, timeout=90)
def c29_stream(g):
    in_thread(g, stream)


@pypbt.target("c29_dgram", "a Python and a C datagram context, datagrams both ways, stopped and bound again; non-trivial: 3 deliveries", weight=1, timeout=90)
def c29_dgram(g):
    in_thread(g, dgram)


if __name__ == "__main__":
    pypbt.main()
