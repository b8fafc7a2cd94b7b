"""C27: the Python stream decoder delivers the same messages as the C one."""
import logging
import os
import struct
import sys

import pypbt
from pypbt import check

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.environ["POMP_REPO"], "python"))
import pomp  # noqa: E402,F401
from pomp.protocol import Protocol  # noqa: E402
import pomp_c  # noqa: E402

logging.disable(logging.CRITICAL)


def frames(s):
    """What the stream contains: at each magic outside a message a header of 12
    bytes; a size of at least 12 starts a message of that size, a smaller one is
    skipped with its header.  (messages, bytes not consumed by a message)"""
    out, p = [], 0
    while True:
        p = s.find(b"POMP", p)
        if p < 0 or len(s) - p < 12:
            return out
        mid, sz = struct.unpack_from("<II", s, p + 4)
        if sz < 12:
            p += 12
            continue
        if len(s) - p < sz:
            return out
        out.append((mid, s[p:p + sz]))
        p += sz


def gen_args(g):
    args = []
    for _ in range(g.below(4)):
        k = g.below(4)
        if k == 0:
            v = g.integer(32)
            args.append(("i32", v - (1 << 32) if v >> 31 else v))
        elif k == 1:
            args.append(("str", "POMP"[:g.below(5)] * g.below(3)))
        elif k == 2:
            args.append(("buf", g.bytes(g.size(3000 if g.chance(1, 5) else 60))))
        else:
            args.append(("u8", g.below(256)))
    return args


def frame(mid, payload):
    return b"POMP" + struct.pack("<II", mid, 12 + len(payload)) + payload


def gen_stream(g):
    s, nm, nj = b"", 0, 0
    for _ in range(1 + g.below(8)):
        k = g.weighted((5, 3, 2, 2, 1, 1))
        if k == 0:
            if g.flip():
                s += pomp_c.encode(g.integer(32), gen_args(g))
            else:
                s += frame(g.integer(32), g.bytes(g.size(200)) if g.flip() else b"")
            nm += 1
            if g.chance(1, 1000):
                s += frame(g.integer(32), g.bytes(g.pick((65524, 65536, 262144, 1048564, 1048577, 2097152, 5000000))))
                g.label("large message")
        elif k == 1:
            s += bytes(b"POMPX"[g.below(5)] for _ in range(g.below(9)))
            nj += 1
        elif k == 2:
            s += g.bytes(g.below(30))
            nj += 1
        elif k == 3:
            s += b"POMP" + struct.pack("<II", g.integer(32), g.below(12))
            nj += 1
        elif k == 4:
            s += b"POMP"[:1 + g.below(3)]
            nj += 1
        else:
            s += b"P" * g.below(4) + b"PO" * g.below(2) + b"POM" * g.below(2)
            nj += 1
    if g.chance(1, 4):
        # the stream ends inside a message
        f = frame(g.integer(32), g.bytes(30)) if g.flip() else b"POMP" + struct.pack("<II", 1, g.integer(32) | 4096) + g.bytes(g.below(50))
        s += f[:g.below(len(f) + 1)]
    return s, nm, nj


def feed(prot, chunk, pad, seen):
    """pad: bytes before off, to be ignored"""
    data = pad + chunk
    off = len(pad)
    while off < len(data):
        new, m = prot.decode(data, off)
        check(off < new <= len(data), "decode went from offset %r to %r of %d", off, new, len(data))
        off = new
        if m is not None:
            seen.append(m)
        else:
            check(off == len(data), "no message, but %d of %d bytes left", len(data) - off, len(data))


@pypbt.target("c27_chunks", "a stream of messages, garbage rich in magic bytes, bad sizes and truncations, cut at random places; non-trivial: at least 2 "
              "messages and 1 piece of garbage", weight=4)
def c27_chunks(g):
    s, nm, nj = gen_stream(g)
    want = frames(s)
    g.note("%d bytes, %d messages: %s", len(s), len(want), s[:300].hex())
    if len(want) >= 2 and nj:
        g.nontrivial()
    prot, cprot = Protocol(), pomp_c.Prot()
    other, oseen, ofed = Protocol(), [], b""
    seen, got_c, pos = [], [], 0
    one = len(s) < 300 and g.chance(1, 4)
    while pos < len(s):
        n = 1 if one else min(len(s) - pos, 1 + g.size((20 if g.flip() else 5000) if len(s) < 60000 else len(s) // 8))
        chunk = s[pos:pos + n]
        pos += n
        feed(prot, chunk, g.bytes(g.below(4)), seen)
        got_c += cprot.feed(chunk)
        if g.chance(1, 8):
            # another decoder in between, in any state
            x = g.pick((b"PO", b"POMP\x01\x00\x00\x00\x0d\x00\x00\x00", b"POMP\x01\x00", frame(5, b"abc")))
            feed(other, x, b"", oseen)
            ofed += x
            g.label("two decoders")
    cprot.close()
    check(len(seen) == len(want), "%d messages, the stream contains %d (C: %d)", len(seen), len(want), len(got_c))
    for k, m in enumerate(seen):
        check(m.msgid == want[k][0], "message %d: id %r, expected %d", k, m.msgid, want[k][0])
        check(m.buf.getData() == want[k][1], "message %d: %s, expected %s", k, m.buf.getData()[:60].hex(), want[k][1][:60].hex())
    check(got_c == want, "the C decoder delivers %r, expected %r", got_c[:5], want[:5])
    check([(m.msgid, m.buf.getData()) for m in oseen] == frames(ofed), "the other decoder delivered %d messages of %s", len(oseen), ofed.hex())


@pypbt.target("c27_values", "as c27_chunks with valid messages only, whose arguments are read back through the delivered messages; non-trivial: at least 2 messages", weight=2)
def c27_values(g):
    sent, s = [], b""
    for _ in range(1 + g.below(5)):
        mid, args = g.integer(32), gen_args(g)
        sent.append((mid, args))
        s += pomp_c.encode(mid, args)
        if g.chance(1, 3):
            s += bytes(b"POMX"[g.below(4)] for _ in range(g.below(3)))
    if frames(s) != [(m, pomp_c.encode(m, a)) for m, a in sent]:
        return  # garbage and the next message happen to form another magic
    if len(sent) >= 2:
        g.nontrivial()
    g.note("%s", s[:300].hex())
    prot, seen, pos = Protocol(), [], 0
    while pos < len(s):
        n = min(len(s) - pos, 1 + g.size(40))
        feed(prot, s[pos:pos + n], b"", seen)
        pos += n
    check(len(seen) == len(sent), "%d messages of %d", len(seen), len(sent))
    fm = {"i32": "%d", "str": "%s", "buf": "%p", "u8": "%hhu"}
    order = list(range(len(sent)))
    while order:
        k = order.pop(g.below(len(order)))
        mid, args = sent[k]
        res = seen[k].read("".join(fm[t] for t, _ in args))
        check(seen[k].msgid == mid and list(res) == [v for _, v in args], "message %d: %r, sent %r", k, res, args)


if __name__ == "__main__":
    pypbt.main()
