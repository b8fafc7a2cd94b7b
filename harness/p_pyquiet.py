"""C35, Python: contexts and loops that have nothing to do wait."""
import os
import socket
import struct
import time

import pypbt
from pypbt import check
import p_pyctx as ctxs
from p_pyctx import pomp, looper, pomp_c, in_thread, free_port, own_ip, name, listening

del pypbt.TARGETS[:]
# long enough not to count as activity, short enough to be seen
for _f in ("_SERVER_RECONNECT_DELAY", "_CLIENT_RECONNECT_DELAY", "_DGRAM_RECONNECT_DELAY"):
    if hasattr(pomp.context, _f):
        setattr(pomp.context, _f, 0.4)


class Events(pomp.EventHandler):
    def __init__(self, g):
        self.conns = []
        self.calls = 0
        self.reply = g.chance(1, 4)

    def onConnected(self, ctx, conn):
        self.calls += 1
        self.conns.append(conn)

    def onDisconnected(self, ctx, conn):
        self.calls += 1
        if conn in self.conns:
            self.conns.remove(conn)

    def recvMessage(self, ctx, conn, msg):
        self.calls += 1
        if self.reply and not ctx.isDgram:
            conn.sendMsg(msg)


def asleep(what):
    """the process (all its threads) hardly uses the processor while the loop waits; seen in one of 4 windows"""
    worst = []
    for _ in range(4):
        w, c = time.monotonic(), time.process_time()
        end = w + 0.12
        while time.monotonic() < end:
            looper.stepLoop(timeout=0.06)
        w, c = time.monotonic() - w, time.process_time() - c
        if c < 0.015 + 0.03 * w:
            return
        worst.append("%.0f ms of processor in %.0f ms" % (c * 1000, w * 1000))
    check(False, "%s: busy while there is nothing to do: %s", what, ", ".join(worst))


def history(g):
    started, closing, kinds = [], [], []

    def wait(cond, what):
        end = time.monotonic() + ctxs.WAIT
        while not cond():
            looper.stepLoop(timeout=0.002)
            check(time.monotonic() < end, "%s", what)

    def addr(fam=None):
        return "unix:@" + name() if (g.flip() if fam is None else fam) else "inet:%s:%d" % (own_ip(), free_port(socket.SOCK_STREAM))

    for _ in range(1 + g.below(3)):
        kind = g.below(7)
        h = Events(g)
        ctx = pomp.Context(h)
        if kind == 0:
            a = addr()
            fam, sa = pomp.parseAddr(a)
            ctx.listen(fam, sa)
            started.append(ctx)
            wait(lambda: listening(a), "the server does not listen")
            for i in range(g.below(5)):
                s = socket.socket(fam, socket.SOCK_STREAM)
                s.connect(sa)
                closing.append(s)
                n = i + 1
                wait(lambda: h.calls >= n, "connection not told")
                d = b"".join(pomp_c.encode(5, [("u32", 7), ("str", "hello")]) for _ in range(g.below(4)))
                w = g.below(6)
                if w == 1:
                    d = d[:-1 - g.below(12)] if d else b"POM"
                elif w == 2:
                    d += g.below(2) * b"garbage P PO POM"
                if d:
                    s.sendall(d)
                if w == 3:
                    s.shutdown(socket.SHUT_WR)
                elif w == 4:
                    s.close()
                elif w == 5:
                    s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
                    s.close()
        elif kind == 1:
            # nobody there
            ctx.connect(*pomp.parseAddr(addr()))
            started.append(ctx)
        elif kind in (2, 3):
            a = addr()
            fam, sa = pomp.parseAddr(a)
            lst = socket.socket(fam, socket.SOCK_STREAM)
            lst.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
            lst.bind(sa)
            lst.listen(4)
            lst.settimeout(ctxs.WAIT)
            closing.append(lst)
            ctx.connect(fam, sa)
            started.append(ctx)
            p, _ = lst.accept()
            closing.append(p)
            wait(lambda: h.calls > 0, "connection not told")
            if kind == 3:
                if g.flip():
                    p.sendall(pomp_c.encode(5, [("u32", 7)]))
                # refused, accepted by the queue of the system, or nobody there
                w = g.below(3)
                if w == 0:
                    lst.close()
                p.close()
        elif kind == 4:
            fam, sa = pomp.parseAddr("inet:%s:%d" % (own_ip(), free_port(socket.SOCK_DGRAM)))
            ctx.bind(fam, sa)
            started.append(ctx)
            wait(lambda: h.calls > 0 or len(ctx.getConnections()) > 0, "datagram context not bound")
            s = socket.socket(fam, socket.SOCK_DGRAM)
            closing.append(s)
            for _ in range(g.below(4)):
                s.sendto((b"", b"garbage", pomp_c.encode(5, [("u32", 7)]))[g.below(3)], sa)
        else:
            # an address that can not be had
            fam, sa = pomp.parseAddr("inet:192.0.2.1:%d" % (20000 + g.below(1000)))
            (ctx.listen if kind == 5 else ctx.bind)(fam, sa)
            started.append(ctx)
        kinds.append(("server", "absent", "connected", "dropped", "dgram", "unavailable", "unavailable dgram")[kind])
        g.label(kinds[-1])
    for _ in range(20):
        looper.stepLoop(timeout=0.002)
    asleep(", ".join(kinds))
    for s in closing:
        if g.chance(1, 3):
            s.close()
    for _ in range(10):
        looper.stepLoop(timeout=0.002)
    asleep(", ".join(kinds) + ", later")
    for ctx in started:
        ctx.stop()
    asleep(", ".join(kinds) + ", stopped")
    for s in closing:
        s.close()
    g.nontrivial()


@pypbt.target("c35_python", "1 to 3 Python contexts (servers with peers that talk, stay, leave; clients of absent or fickle servers; datagrams; addresses that can not "
              "be had): the processor time of the process once all was done, later and after the stop; non-trivial: always", timeout=90)
def c35_python(g):
    in_thread(g, history)


if __name__ == "__main__":
    pypbt.main()
