"""The C library by ctypes (POMP_SO: a shared object built from the current tree)."""
import ctypes as C
import os
import struct

lib = C.CDLL(os.environ["POMP_SO"])
P = C.c_void_p
for f in ("pomp_msg_new", "pomp_msg_new_with_buffer", "pomp_buffer_new_with_data", "pomp_msg_get_buffer", "pomp_encoder_new",
          "pomp_decoder_new", "pomp_prot_new"):
    getattr(lib, f).restype = P
lib.pomp_msg_get_id.restype = C.c_uint32
lib.pomp_buffer_new_with_data.argtypes = [C.c_char_p, C.c_size_t]
lib.pomp_buffer_get_cdata.argtypes = [P, C.POINTER(P), C.POINTER(C.c_size_t), C.POINTER(C.c_size_t)]
lib.pomp_prot_decode_msg.argtypes = [P, C.c_char_p, C.c_size_t, C.POINTER(P)]
lib.pomp_msg_init.argtypes = [P, C.c_uint32]
libc = C.CDLL(None)
libc.free.argtypes = [P]

WT = {"i8": C.c_int8, "u8": C.c_uint8, "i16": C.c_int16, "u16": C.c_uint16, "i32": C.c_int32, "u32": C.c_uint32,
      "i64": C.c_int64, "u64": C.c_uint64, "f32": C.c_float, "f64": C.c_double}


def msg_bytes(m):
    b = lib.pomp_msg_get_buffer(P(m))
    p, n = P(), C.c_size_t()
    if not b or lib.pomp_buffer_get_cdata(P(b), C.byref(p), C.byref(n), None) != 0:
        return None
    return C.string_at(p, n.value)


def msg_id(m):
    return lib.pomp_msg_get_id(P(m))


def msg_destroy(m):
    lib.pomp_msg_destroy(P(m))


def encode(msgid, args):
    """bytes of the finished message, or None"""
    m = lib.pomp_msg_new()
    e = lib.pomp_encoder_new()
    try:
        if lib.pomp_msg_init(m, msgid) != 0 or lib.pomp_encoder_init(P(e), P(m)) != 0:
            return None
        for t, v in args:
            fn = getattr(lib, "pomp_encoder_write_" + t)
            if t == "str":
                r = fn(P(e), C.c_char_p(v.encode("utf-8")))
            elif t == "buf":
                r = fn(P(e), C.c_char_p(v), C.c_uint32(len(v)))
            else:
                r = fn(P(e), WT[t](v))
            if r != 0:
                return None
        if lib.pomp_msg_finish(P(m)) != 0:
            return None
        return msg_bytes(m)
    finally:
        lib.pomp_encoder_destroy(P(e))
        lib.pomp_msg_destroy(P(m))


class Decoder(object):
    """Typed reads of the message held in data: (error, value)."""

    def __init__(self, data):
        self.b = lib.pomp_buffer_new_with_data(data, len(data))
        self.m = lib.pomp_msg_new_with_buffer(P(self.b))
        lib.pomp_buffer_unref(P(self.b))
        self.d = None
        if self.m:
            self.d = lib.pomp_decoder_new()
            lib.pomp_decoder_init(P(self.d), P(self.m))

    def id(self):
        return msg_id(self.m)

    def read(self, t):
        if t == "str":
            p = P()
            r = lib.pomp_decoder_read_str(P(self.d), C.byref(p))
            if r != 0:
                return r, None
            v = C.string_at(p)
            libc.free(p)
            return 0, v
        if t == "buf":
            p, n = P(), C.c_uint32()
            r = lib.pomp_decoder_read_cbuf(P(self.d), C.byref(p), C.byref(n))
            return r, C.string_at(p, n.value) if r == 0 and n.value else b""
        v = WT[t]()
        r = getattr(lib, "pomp_decoder_read_" + t)(P(self.d), C.byref(v))
        return r, v.value

    def adump(self):
        p = P()
        r = lib.pomp_msg_adump(P(self.m), C.byref(p))
        if r != 0:
            return r, None
        v = C.string_at(p)
        libc.free(p)
        return 0, v

    def close(self):
        if self.m:
            lib.pomp_decoder_destroy(P(self.d))
            lib.pomp_msg_destroy(P(self.m))


class Prot(object):
    def __init__(self):
        self.p = lib.pomp_prot_new()

    def feed(self, data):
        """list of (id, bytes) completed by data"""
        res, off = [], 0
        while off < len(data):
            m = P()
            r = lib.pomp_prot_decode_msg(P(self.p), data[off:], len(data) - off, C.byref(m))
            assert 0 < r <= len(data) - off, r
            off += r
            if m.value:
                res.append((msg_id(m.value), msg_bytes(m.value)))
                msg_destroy(m.value)
        return res

    def close(self):
        lib.pomp_prot_destroy(P(self.p))


def f32(v):
    return struct.unpack("<f", struct.pack("<f", v))[0]
