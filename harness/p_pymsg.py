"""C26: the Python and C implementations encode and decode identically."""
import ast
import logging
import math
import os
import struct
import sys

import pypbt
from pypbt import check

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.environ["POMP_REPO"], "python"))
import pomp  # noqa: E402
from pomp.message import Message  # noqa: E402
from pomp.encoder import Encoder  # noqa: E402
from pomp.decoder import Decoder  # noqa: E402
import pomp_c  # noqa: E402

logging.disable(logging.CRITICAL)

INTS = {"i8": (8, True), "u8": (8, False), "i16": (16, True), "u16": (16, False), "i32": (32, True), "u32": (32, False),
        "i64": (64, True), "u64": (64, False)}
FMT = {"i8": ("%hhd", "%hhi"), "u8": ("%hhu",), "i16": ("%hd", "%hi"), "u16": ("%hu",), "i32": ("%d", "%i"), "u32": ("%u",),
       "i64": ("%lld", "%lli"), "u64": ("%llu",), "str": ("%s",), "buf": ("%p",),
       "f32": ("%f", "%F", "%e", "%E", "%g", "%G"), "f64": ("%lf", "%lF", "%le", "%lE", "%lg", "%lG")}
TYPES = list(FMT)
CODE = {"i8": 1, "u8": 2, "i16": 3, "u16": 4, "i32": 5, "u32": 6, "i64": 7, "u64": 8, "str": 9, "buf": 10, "f32": 11, "f64": 12}
ALPHA = ["a", " ", "'", '"', "\\", "%", "\n", "\x7f", "\u00e9", "\u07ff", "\u0800", "\u20ac", "\uffff", "\U00010000", "\U0010ffff", "\x01"]


def gen_value(g, t):
    if t in INTS:
        bits, signed = INTS[t]
        v = g.integer(bits)
        return v - (1 << bits) if signed and v >> (bits - 1) else v
    if t == "str":
        k = g.weighted((6, 3, 1))
        if k == 0:
            return "".join(g.pick(ALPHA) for _ in range(g.below(12)))
        n = g.size(300) if k == 1 else g.pick((126, 127, 128, 16382, 16383, 16384, 32767, 65533, 65534, 65535, 65536))
        return g.pick(ALPHA) * n if g.flip() else "x" * n
    if t == "buf":
        n = g.size(200) if g.chance(9, 10) else g.pick((127, 128, 16383, 16384, 65535, 65536, 100000))
        if g.chance(1, 1500):
            n = g.pick((1048576, 2097150, 2097151, 2097152, 2097153, 5000000))
            g.label("buffer of megabytes")
        return g.bytes(n)
    k = g.weighted((3, 3, 2))
    if k == 0:
        v = g.pick((0.0, -0.0, 1.0, -1.5, math.inf, -math.inf, math.nan, 3.1415927410125732))
    elif t == "f32":
        v = struct.unpack("<f", struct.pack("<I", g.integer(32)))[0]
    else:
        v = struct.unpack("<d", struct.pack("<Q", g.integer(64)))[0]
    return math.nan if v != v else v


def same(a, b):
    if isinstance(a, float) and isinstance(b, float):
        return (a != a and b != b) or (a == b and math.copysign(1, a) == math.copysign(1, b))
    return type(a) is type(b) and a == b


def show(args):
    r = ", ".join("%s:%r" % (t, v if not isinstance(v, (str, bytes)) or len(v) < 40 else (v[:20], len(v))) for t, v in args)
    return r[:1000]


def py_encode(g, msgid, args, how):
    m = Message()
    if how == 0:
        m.write(msgid, "".join(g.pick(FMT[t]) for t, _ in args) if args or g.flip() else None, *[v for _, v in args])
        return m
    m.init(msgid)
    e = Encoder()
    e.init(m)
    k = 0
    while k < len(args):
        if how == 2 or g.flip():
            n = 1 + g.below(3)
            part = args[k:k + n]
            e.write("".join(g.pick(FMT[t]) for t, _ in part), *[v for _, v in part])
            k += n
        else:
            t, v = args[k]
            getattr(e, "write" + t.capitalize())(v)
            k += 1
    e.clear()
    m.finish()
    return m


def py_msg(data):
    """A message as the stream decoder hands it over."""
    m = Message()
    m.init(struct.unpack_from("<I", data, 4)[0])
    m.buf.write(data)
    m.setFinished()
    return m


def py_reader(m):
    d = Decoder()
    d.init(m)
    return lambda t: getattr(d, "read" + t.capitalize())()


def parse_dump(s):
    """[(type, value text)] of a Python dump; strings and buffers literal"""
    check(s.startswith("{ID:") and s.endswith("}"), "dump %r", s[:200])
    return s


def expected_dump(msgid, args):
    """(alternatives are joined by what float()/literal_eval accept)"""
    r = "{ID:%u" % msgid
    for t, v in args:
        if t == "str":
            r += ", STR:'%s'" % v
        elif t == "buf":
            r += ", BUF:'%s'" % repr(v)
        elif t in ("f32", "f64"):
            r += ", %s:%s" % (t.upper(), repr(v))
        else:
            r += ", %s:%d" % (t.upper(), v)
    return r + "}"


def max_str(v):
    return len(v.encode("utf-8")) + 1 > 0xffff


@pypbt.target("c26_same", "message ids and argument lists over the shared types; non-trivial: at least 2 arguments of different types", weight=3)
def c26_same(g):
    msgid = g.integer(32)
    args = []
    while g.below(6) and len(args) < 12:
        t = g.pick(TYPES)
        args.append((t, gen_value(g, t)))
    how = g.below(3)
    g.note("id %d args %s", msgid, show(args))
    if len(set(t for t, _ in args)) >= 2:
        g.nontrivial()
    want = pomp_c.encode(msgid, args)
    toolong = any(t == "str" and max_str(v) for t, v in args)
    check((want is None) == toolong, "C encoder: %r", want)
    try:
        m = py_encode(g, msgid, args, how)
    except pomp.EncodeException as ex:
        check(toolong, "Python refused to encode: %s", ex)
        g.label("refused by both")
        return
    check(not toolong, "Python encoded a string that is too long")
    got = m.buf.getData()
    if got != want:
        k = next((i for i in range(min(len(got), len(want))) if got[i] != want[i]), min(len(got), len(want)))
        pypbt.fail("encodings differ at byte %d: Python %s, C %s (%d and %d bytes)", k, got[k:k + 20].hex(), want[k:k + 20].hex(),
                   len(got), len(want))
    if not args:
        g.label("empty message")
    # the message just written can be read in Python, and what C wrote too
    for name, src in (("written", m), ("received", py_msg(want))):
        check(src.msgid == msgid, "msgid %r", src.msgid)
        if g.flip():
            res = src.read("".join(g.pick(FMT[t]) for t, _ in args))
        else:
            rd = py_reader(src)
            res = tuple(rd(t) for t, _ in args)
        check(len(res) == len(args), "%d values read", len(res))
        for (t, v), x in zip(args, res):
            check(same(x, v), "%s message: %s %r read as %r", name, t, v, x)
        dump = src.dump()
        exp = expected_dump(msgid, args)
        check(dump == exp, "%s message: dump %r, expected %r", name, dump[:300], exp[:300])
        check(src.buf.getData() == want, "reading changed the message")
    d = pomp_c.Decoder(got)
    check(d.m, "C refuses the message written by Python")
    check(d.id() == msgid, "C: id %d", d.id())
    for t, v in args:
        r, x = d.read(t)
        check(r == 0, "C: %s refused: %d", t, r)
        check(same(x, v.encode("utf-8") if t == "str" else v), "C: %s %r read as %r", t, v, x)
    d.close()


def varint(v):
    r = b""
    while v > 0x7f:
        r += bytes([v & 0x7f | 0x80])
        v >>= 7
    return r + bytes([v])


def gen_payload(g):
    """(payload, types to try): valid arguments, then damage"""
    parts, types = [], []
    for _ in range(1 + g.below(5)):
        t = g.pick(TYPES)
        v = gen_value(g, t)
        if t == "str" and (max_str(v) or len(v) > 2000):
            v = "s"
        types.append(t)
        k = g.weighted((6, 2, 1, 1))
        if k == 1 and t in ("i32", "u32", "i64", "u64", "str", "buf"):
            # any varint, also overlong
            n = 1 + g.below(12)
            vi = bytes((g.below(128) | 0x80) if i + 1 < n else g.below(128) for i in range(n))
            if g.chance(1, 3):
                vi = varint(g.integer(64))
            if g.chance(1, 4):
                vi = bytes([vi[0] | 0x80]) + b"\x80" * g.below(11) + bytes([g.below(2)])
            parts.append(bytes([CODE[t]]) + vi + g.bytes(g.below(20)))
        elif k == 2:
            parts.append(bytes([CODE[t]]) + g.bytes(g.below(16)))
        elif k == 3:
            # strings as bytes
            types[-1] = "str"
            b = g.bytes(g.below(12)) + (b"\0" if g.chance(3, 4) else b"")
            n = len(b) + (g.below(3) - 1 if g.chance(1, 3) else 0)
            parts.append(b"\x09" + varint(max(0, n)) + b)
        else:
            parts.append(pomp_c.encode(1, [(t, v)])[12:])
    p = b"".join(parts)
    damage = g.weighted((3, 3, 3, 1))
    if damage == 1 and p:
        p = p[:g.below(len(p))]
    elif damage == 2 and p:
        i = g.below(len(p))
        p = p[:i] + bytes([g.below(256)]) + p[i + 1:]
    elif damage == 3:
        p = g.bytes(g.below(40))
    return p, types


def c_is(t, cval, pval):
    if t == "str":
        # a C string ends at its first null
        return isinstance(pval, str) and pval.encode("utf-8", "surrogateescape").split(b"\0")[0] == cval
    return same(cval, pval)


@pypbt.target("c26_malformed", "payloads of valid, overlong, truncated, altered and random arguments read with the types written or others, and dumped; "
              "non-trivial: at least one value read, then one refused", weight=3)
def c26_malformed(g):
    p, types = gen_payload(g)
    if g.chance(1, 3):
        types[g.below(len(types))] = g.pick(TYPES)
    types = types + [g.pick(TYPES)]
    data = b"POMP" + struct.pack("<II", 7, 12 + len(p)) + p
    g.note("payload %s read as %s", p[:200].hex(), " ".join(types))
    d = pomp_c.Decoder(data)
    rd = py_reader(py_msg(data))
    ok = pos = 0
    for t in types:
        r, cv = d.read(t)
        try:
            pv = rd(t)
        except Exception as ex:  # any error will do
            if r == 0:
                g.label("refused by Python only")
                check(t == "str" and not utf8(raw_str(p, pos)), "C reads %s as %r, Python: %r", t, cv, ex)
            elif ok:
                g.nontrivial()
            break
        check(r == 0, "%s: C refuses (%d), Python returns %r", t, r, pv if not isinstance(pv, bytes) else (pv[:30], len(pv)))
        check(c_is(t, cv, pv), "%s: C returns %r, Python %r", t, cv, pv)
        ok += 1
        pos += arg_len(p, pos, t)
    d.close()
    # the same through the format string
    want, res = [], None
    d = pomp_c.Decoder(data)
    bad = False
    for t in types:
        r, cv = d.read(t)
        if r != 0:
            bad = True
            break
        want.append((t, cv))
    d.close()
    try:
        res = py_msg(data).read("".join(g.pick(FMT[t]) for t in types))
    except Exception:
        res = None
    if res is not None:
        check(not bad and len(res) == len(types), "C refuses argument %d of the format, Python returns %r", len(want), res)
        for (t, cv), pv in zip(want, res):
            check(c_is(t, cv, pv), "format: %s: C returns %r, Python %r", t, cv, pv)


def utf8(b):
    try:
        b.decode("utf-8")
        return True
    except UnicodeDecodeError:
        return False


@pypbt.target("c26_dump", "the same payloads dumped: the values the C decoder returns one by one, or an error; non-trivial: a dump of at least 2 arguments", weight=2)
def c26_dump(g):
    p, _ = gen_payload(g)
    data = b"POMP" + struct.pack("<II", 7, 12 + len(p)) + p
    g.note("payload %s", p[:200].hex())
    try:
        got = py_msg(data).dump()
    except Exception:
        got = None
    # what C makes of it: type by type
    args, bad = [], False
    rest = p
    d = pomp_c.Decoder(data)
    back = {c: t for t, c in CODE.items()}
    pos = 0
    while pos < len(rest):
        t = back.get(rest[pos])
        if t is None:
            bad = True
            break
        r, v = d.read(t)
        if r != 0:
            bad = True
            break
        n = arg_len(rest, pos, t)
        if t == "str":
            # what Python keeps of a string with nulls is not judged
            raw = raw_str(rest, pos)
            if not utf8(raw) or b"\0" in raw:
                g.label("string not judged")
                d.close()
                return
            v = raw.decode("utf-8")
        args.append((t, v))
        pos += n
    d.close()
    if bad:
        check(got is None, "C refuses argument %d, Python dumps %r", len(args), got)
        g.label("refused")
        return
    check(got is not None, "C reads %s, the Python dump fails", show(args))
    if len(args) >= 2:
        g.nontrivial()
    exp = expected_dump(7, args)
    check(got == exp, "dump %r, expected %r", got[:300], exp[:300])


def vlen(b, pos):
    n = 1
    while b[pos] & 0x80:
        pos += 1
        n += 1
    return n


def vval(b, pos):
    v, s = 0, 0
    while True:
        v |= (b[pos] & 0x7f) << s
        if not b[pos] & 0x80:
            return v
        s += 7
        pos += 1


def raw_str(b, pos):
    """the bytes of the (valid) string argument at pos, without its last null"""
    n = arg_len(b, pos, "str")
    return b[pos + 1 + vlen(b, pos + 1):pos + n - 1]


def arg_len(b, pos, t):
    fixed = {"i8": 1, "u8": 1, "i16": 2, "u16": 2, "f32": 4, "f64": 8}
    if t in fixed:
        return 1 + fixed[t]
    n = vlen(b, pos + 1)
    if t in ("str", "buf"):
        return 1 + n + (vval(b, pos + 1) & 0xffffffffffffffff)
    return 1 + n


if __name__ == "__main__":
    pypbt.main()
