"""C30: the command line tool sends what it is given and shows what it gets."""
import ctypes
import os
import select
import signal
import socket
import struct
import subprocess
import time

import pypbt
from pypbt import check
import pomp_c

CLI = os.environ["POMP_CLI"]
WAIT = 20.0
PR = ctypes.CDLL(None)
seq = 0


def has6():
    try:
        s = socket.socket(socket.AF_INET6, socket.SOCK_STREAM)
        s.bind(("::1", 0))
        s.close()
        return True
    except OSError:
        return False


HAS6 = has6()


class Cli(object):
    """the tool, running"""

    def __init__(self, g, args):
        g.note("pomp-cli %s", " ".join(repr(a) if len(a) < 60 else repr(a[:60]) + "..." for a in args))
        self.p = subprocess.Popen([CLI] + [a.encode("utf-8") for a in args], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                                  stderr=subprocess.PIPE, preexec_fn=lambda: PR.prctl(1, signal.SIGKILL))
        self.fd = self.p.stderr.fileno()
        os.set_blocking(self.fd, False)
        self.err = b""
        self.eof = False

    def pump(self, t=0.0):
        if self.eof:
            time.sleep(min(t, 0.01))
            return
        if select.select([self.fd], [], [], t)[0]:
            d = os.read(self.fd, 1 << 16)
            self.err += d
            self.eof = not d

    def shown(self):
        """the messages printed so far"""
        pfx = b"POMPCLI: MSG: "
        return [x[len(pfx):] for x in self.err.split(b"\n")[:-1] if x.startswith(pfx)]

    def until(self, cond, what):
        end = time.monotonic() + WAIT
        while not cond():
            check(time.monotonic() < end, "%s", what)
            self.pump(0.02)

    def exited(self):
        return self.p.poll() is not None

    def finish(self, code=0):
        """it ends by itself"""
        self.until(self.exited, "the tool does not exit")
        while not self.eof:
            self.pump(0.1)
        check(self.p.returncode in (0, 1), "the tool ends with %r: %s", self.p.returncode, self.err[-400:].decode("utf-8", "replace"))
        check(code is None or self.p.returncode == code, "exit status %d: %s", self.p.returncode, self.err[-400:].decode("utf-8", "replace"))

    def term(self):
        self.p.send_signal(signal.SIGTERM)
        self.finish()

    def kill(self):
        if not self.exited():
            self.p.kill()
        self.p.wait()
        self.p.stderr.close()


class Socks(list):
    def __enter__(self):
        return self

    def __exit__(self, *a):
        for s in self:
            if isinstance(s, Cli):
                s.kill()
            else:
                s.close()


def own_ip():
    p = os.getpid()
    return "127.%d.%d.%d" % (64 + (p >> 16 & 63), p >> 8 & 255, p & 255)


def name():
    global seq
    seq += 1
    return "vpcli%d_%d" % (os.getpid(), seq)


def abstract(n):
    """the library gives the whole sun_path"""
    return b"\0" + n.encode().ljust(107, b"\0")


def free_port(fam, kind):
    """nobody else uses this address"""
    s = socket.socket(fam, kind)
    s.bind((own_ip() if fam == socket.AF_INET else "::1", 0))
    port = s.getsockname()[1]
    s.close()
    return port


def listener(g, socks, path):
    """a listening socket and its address"""
    k = g.below(4)
    if k == 0:
        n = name()
        s = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
        s.bind(abstract(n))
        a = "unix:@" + n
    elif k == 1:
        s = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
        s.bind(path + "/s")
        a = "unix:" + path + "/s"
    elif k == 2 or not HAS6:
        s = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
        s.bind((own_ip(), 0))
        a = "inet:%s:%d" % s.getsockname()
    else:
        s = socket.socket(socket.AF_INET6, socket.SOCK_STREAM)
        s.bind(("::1", 0))
        a = "inet6:::1:%d" % s.getsockname()[1]
    s.listen(5)
    s.settimeout(WAIT)
    socks.append(s)
    return s, a


def gen_text(g, n):
    s = ""
    for _ in range(n):
        k = g.below(6)
        s += chr(0x20 + g.below(95)) if k < 4 else chr(0xa1 + g.below(0x400)) if k == 4 else chr(0x4e00 + g.below(2000))
    return s


def gen_msg(g, big=True):
    """id, typed values, format, texts"""
    mid = g.integer(32)
    vals, fmt, txt = [], "", []
    # integers and floats in the texts the C library reads: decimal, hexadecimal, octal
    ints = {"i8": (8, 1, ("%hhd", "%hhi")), "u8": (8, 0, ("%hhu",)), "i16": (16, 1, ("%hd", "%hi")), "u16": (16, 0, ("%hu",)),
            "i32": (32, 1, ("%d", "%i")), "u32": (32, 0, ("%u",)), "i64": (64, 1, ("%lld", "%lli")), "u64": (64, 0, ("%llu",))}
    for _ in range(g.below(8)):
        t = g.pick(("i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "str", "buf", "f32", "f64", "str", "i32"))
        if t in ints:
            bits, signed, f = ints[t]
            v = g.integer(bits)
            if signed and v >> (bits - 1):
                v -= 1 << bits
            k = g.below(4)
            sgn, a = ("-" if v < 0 else ""), abs(v)
            txt.append("%s0x%x" % (sgn, a) if k == 0 else "%s0%o" % (sgn, a) if k == 1 and a else "%d" % v)
            fmt += g.pick(f)
        elif t == "str":
            v = gen_text(g, g.size(40))
            if big and g.chance(1, 12):
                v = "x" * (65534 - g.below(3))
            txt.append(v)
            fmt += "%s"
        elif t == "buf":
            v = g.bytes(g.size(60 if not big or g.chance(9, 10) else 40000))
            h = v.hex()
            if h and h[0] == "0" and g.flip():
                h = h[1:]
            txt += [h.upper() if g.flip() else h, "%d" % len(v)]
            fmt += "%p%u"
        elif t == "f32":
            v = pomp_c.f32(g.pick((0.0, 1.5, -2.25, 1e30, 1e-30, float(g.integer(20)))))
            txt.append(repr(v))
            fmt += g.pick(("%f", "%g", "%e"))
        else:
            v = g.pick((0.0, 1.5, -2.25e100, 1e-300, 0.1, float(g.integer(50))))
            txt.append(repr(v))
            fmt += g.pick(("%lf", "%lg"))
        vals.append((t, v))
    if big and g.chance(1, 20):
        # more than a socket takes at once
        for _ in range(2 + g.below(18)):
            v = chr(97 + g.below(26)) * (65534 - g.below(3))
            vals.append(("str", v))
            fmt += "%s"
            txt.append(v)
    return mid, vals, fmt, txt


def command(g, mid, fmt, txt):
    a = ["%d" % mid]
    if fmt or txt or g.flip():
        a.append(fmt)
    return a + txt


def spoil(g, fmt, txt):
    """arguments that do not fit the format"""
    k = g.below(6)
    if k == 0 and txt:
        g.label("arguments missing")
        return fmt, txt[:g.below(len(txt))] if fmt[-2:] != "%u" or fmt[-4:-2] != "%p" else txt[:-2]
    if k == 1:
        g.label("unknown conversion")
        return fmt + g.pick(("%y", "%", "%lll", "%hf", "%llf", "%p", "%p%d", "%q")), txt + ["1", "1"]
    if k == 2:
        g.label("stray text")
        return fmt + g.pick(("d", " %d", "x%d")), txt + ["1"]
    if k == 3:
        g.label("wrong digits")
        return fmt + "%p%u", txt + g.pick((["zz", "1"], ["12", "2"], ["", "1"], ["0g", "1"], ["1122", "3"], ["1 2", "2"]))
    if k == 4:
        g.label("string too long")
        return fmt + "%s", txt + ["y" * (65535 + g.below(3))]
    g.label("no argument at all")
    return fmt or "%d", []


def readall(s, cli=None):
    """until the peer closes"""
    d = b""
    end = time.monotonic() + WAIT
    s.settimeout(0.05)
    while True:
        check(time.monotonic() < end, "the tool does not close the connection (%d bytes received)", len(d))
        try:
            x = s.recv(1 << 18)
        except socket.timeout:
            if cli:
                cli.pump()
            continue
        except ConnectionResetError:
            return d
        if not x:
            return d
        d += x


def readsome(s, n):
    d = b""
    s.settimeout(WAIT)
    while len(d) < n:
        try:
            x = s.recv(n - len(d))
        except socket.timeout:
            check(False, "%d bytes of %d received", len(d), n)
        check(x, "the connection is closed after %d bytes of %d", len(d), n)
        d += x
    return d


def same(got, want):
    check(got == want, "%d bytes sent, %d expected: %s, expected %s", len(got), len(want), got[:60].hex(), want[:60].hex())


def dump_of(b):
    d = pomp_c.Decoder(b)
    try:
        r, s = d.adump()
        check(r == 0, "pomp_msg_adump: %d", r)
        return s
    finally:
        d.close()


def incoming(g, limit=0):
    """messages for the tool: (id, bytes)"""
    res = []
    for _ in range(1 + g.below(4)):
        mid, vals, _, _ = gen_msg(g, g.chance(1, 6))
        if g.chance(1, 6):
            vals = vals + [("str", gen_text(g, 30) * (1 + g.below(60)))]
            g.label("long dump")
        m = pomp_c.encode(mid, vals)
        if not limit or len(m) < limit:
            res.append((mid, m))
    return res


def deliver(g, s, msgs):
    b = b"".join(m for _, m in msgs)
    while b:
        n = 1 + g.size(len(b) - 1) if g.flip() else len(b)
        s.sendall(b[:n])
        b = b[n:]


class Dir(object):
    def __enter__(self):
        self.p = "/tmp/" + name()
        if len(os.environ.get("TMPDIR", "")) and len(os.environ["TMPDIR"]) < 60:
            self.p = os.path.join(os.environ["TMPDIR"], name())
        os.mkdir(self.p)
        return self.p

    def __exit__(self, *a):
        for f in os.listdir(self.p):
            os.unlink(os.path.join(self.p, f))
        os.rmdir(self.p)


@pypbt.target("c30_client", "the tool as client of a socket of the harness, with arguments that fit the format or not; non-trivial: 2 values, or arguments refused",
              weight=4, timeout=60)
def c30_client(g):
    with Dir() as path, Socks() as socks:
        s, addr = listener(g, socks, path)
        mid, vals, fmt, txt = gen_msg(g)
        bad = g.chance(1, 3)
        if bad:
            fmt, txt = spoil(g, fmt, txt)
        opts = g.pick(([], ["-c"], ["--client"], ["-t", "100"], ["-s", "-c"], ["--timeout", "100", "-c"]))
        cli = Cli(g, opts + [addr] + command(g, mid, fmt, txt))
        socks.append(cli)
        c, _ = s.accept()
        socks.append(c)
        if bad or len(vals) >= 2:
            g.nontrivial()
        got = readall(c, cli)
        if bad:
            check(got == b"", "arguments that do not fit the format: %d bytes are sent: %s", len(got), got[:80].hex())
            cli.finish(None)
        else:
            want = pomp_c.encode(mid, vals)
            if len(want) > 150000:
                g.label("more than 150000 bytes")
            same(got, want)
            cli.finish()
            check(not cli.shown(), "the tool shows messages")


@pypbt.target("c30_dump", "the tool as client that stays and shows, or waits for a message id, with messages in pieces; non-trivial: 2 messages received", weight=3, timeout=60)
def c30_dump(g):
    with Dir() as path, Socks() as socks:
        s, addr = listener(g, socks, path)
        msgs = incoming(g)
        wait = g.flip()
        dump = not wait or g.flip()
        last = g.integer(32)
        opts = []
        if dump:
            opts += [g.pick(("-d", "--dump"))]
        if wait:
            opts += [g.pick(("-w", "--wait")), "%d" % last]
        mid, vals, fmt, txt = gen_msg(g, False)
        send = wait and not dump or g.flip()
        cli = Cli(g, opts + [addr] + (command(g, mid, fmt, txt) if send else []))
        socks.append(cli)
        c, _ = s.accept()
        socks.append(c)
        if len(msgs) >= 2:
            g.nontrivial()
        if send:
            same(readsome(c, len(pomp_c.encode(mid, vals))), pomp_c.encode(mid, vals))
        if wait:
            g.label("wait")
            msgs = [(i, m) for i, m in msgs if i != last]
        deliver(g, c, msgs)
        if dump:
            cli.until(lambda: len(cli.shown()) >= len(msgs), "%d messages shown of %d" % (len(cli.shown()), len(msgs)))
        elif g.chance(1, 4):
            time.sleep(0.05)
        cli.pump()
        check(not cli.exited(), "the tool exits too early: %s", cli.err[-300:])
        if wait:
            x = pomp_c.encode(last, [("str", "bye")])
            msgs.append((last, x))
            deliver(g, c, [(last, x)])
            cli.finish()
        else:
            cli.term()
        want = [dump_of(m) for _, m in msgs] if dump else []
        got = cli.shown()
        check(got == want, "shown: %r, expected %r", got, want)
        check(readall(c) == b"", "more bytes are sent")


@pypbt.target("c30_server", "the tool as server for one or two clients of the harness, that shows and/or sends; non-trivial: 2 messages received, or 2 values sent",
              weight=3, timeout=60)
def c30_server(g):
    with Dir() as path, Socks() as socks:
        k = g.below(4)
        if k == 0:
            n = name()
            fam, to, addr = socket.AF_UNIX, abstract(n), "unix:@" + n
        elif k == 1:
            fam, to, addr = socket.AF_UNIX, path + "/s", "unix:" + path + "/s"
        elif k == 2 or not HAS6:
            fam, to = socket.AF_INET, (own_ip(), free_port(socket.AF_INET, socket.SOCK_STREAM))
            addr = "inet:%s:%d" % to
        else:
            fam, to = socket.AF_INET6, ("::1", free_port(socket.AF_INET6, socket.SOCK_STREAM))
            addr = "inet6:::1:%d" % to[1]
            if g.chance(3, 4):
                n = name()
                fam, to, addr = socket.AF_UNIX, abstract(n), "unix:@" + n
        dump = g.flip()
        mid, vals, fmt, txt = gen_msg(g)
        send = not dump or g.flip()
        cli = Cli(g, [g.pick(("-s", "--server"))] + (["-d"] if dump else []) + [addr] + (command(g, mid, fmt, txt) if send else []))
        socks.append(cli)

        def connect():
            end = time.monotonic() + WAIT
            while True:
                s = socket.socket(fam, socket.SOCK_STREAM)
                try:
                    s.connect(to)
                    socks.append(s)
                    return s
                except OSError as ex:
                    s.close()
                    check(time.monotonic() < end and not cli.exited(), "cannot connect to the tool: %s %s", ex, cli.err[-300:])
                    time.sleep(0.01)
        c = connect()
        if not dump:
            same(readall(c, cli), pomp_c.encode(mid, vals))
            cli.finish()
            if len(vals) >= 2:
                g.nontrivial()
            return
        if send:
            same(readsome(c, len(pomp_c.encode(mid, vals))), pomp_c.encode(mid, vals))
        want = []
        for i in range(1 + g.below(2)):
            if i:
                c = connect()
                g.label("two clients")
            msgs = incoming(g)
            deliver(g, c, msgs)
            if g.flip():
                c.close()
            want += [dump_of(m) for _, m in msgs]
            cli.until(lambda: len(cli.shown()) >= len(want), "%d messages shown of %d" % (len(cli.shown()), len(want)))
        if len(want) >= 2:
            g.nontrivial()
        check(not cli.exited(), "the tool exits")
        cli.term()
        check(cli.shown() == want, "shown: %r, expected %r", cli.shown(), want)


@pypbt.target("c30_udp", "the tool over udp: one datagram sent, then others shown; non-trivial: 2 values", weight=2, timeout=60)
def c30_udp(g):
    with Socks() as socks:
        s = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
        socks.append(s)
        s.bind((own_ip(), 0))
        s.settimeout(WAIT)
        mid, vals, fmt, txt = gen_msg(g, False)
        bad = g.chance(1, 5)
        if bad:
            fmt, txt = spoil(g, fmt, txt)
        if len(vals) >= 2:
            g.nontrivial()
        dump = g.flip() and not bad
        port = free_port(socket.AF_INET, socket.SOCK_DGRAM)
        cli = Cli(g, [g.pick(("-u", "--udp"))] + (["-d"] if dump else []) + ["inet:%s:%d" % (own_ip(), port), "inet:%s:%d" % s.getsockname()] +
                  command(g, mid, fmt, txt))
        socks.append(cli)
        if bad:
            cli.finish(None)
            s.setblocking(False)
            try:
                check(False, "a datagram is sent: %r", s.recv(65536)[:80])
            except BlockingIOError:
                return
        try:
            got, frm = s.recvfrom(65536)
        except socket.timeout:
            check(False, "no datagram is sent: %s", cli.err[-300:])
        same(got, pomp_c.encode(mid, vals))
        check(frm == (own_ip(), port), "the datagram comes from %r", frm)
        if dump:
            msgs = incoming(g, 4000)
            for k, (_, m) in enumerate(msgs):
                s.sendto(m, frm)
                cli.until(lambda: len(cli.shown()) > k, "a datagram is not shown")
            cli.term()
            want = [dump_of(m) for _, m in msgs]
            check(cli.shown() == want, "shown: %r, expected %r", cli.shown(), want)
        else:
            cli.finish()


@pypbt.target("c30_usage", "wrong command lines are refused, and a timeout without server ends the tool; non-trivial: all", weight=1, timeout=60)
def c30_usage(g):
    with Socks() as socks:
        g.nontrivial()
        n = "unix:@" + name()
        if g.chance(1, 6):
            t0 = time.monotonic()
            cli = Cli(g, ["-t", "1"] + g.pick(([], ["-d"])) + [n, "1"])
            socks.append(cli)
            cli.finish(None)
            check(time.monotonic() - t0 > 0.9, "the tool ends after %.3f s, the timeout is 1 s", time.monotonic() - t0)
            g.label("timeout")
            return
        cli = Cli(g, g.pick(([], ["-d"], [n], ["-s", n], ["-u", "inet:%s:0" % own_ip(), "inet:nowhere", "1"], ["-u", "inet:%s:0" % own_ip()], ["bad:x", "1"],
                             ["inet:1.2.3.4", "1"], ["-z", n, "1"], ["-t"], ["-w"], [n, "-w"][:1] + [], ["--server", "unix:", "1"][:1],
                             ["-s", "bad:x", "1"])))
        socks.append(cli)
        cli.finish(1)


if __name__ == "__main__":
    pypbt.main()
