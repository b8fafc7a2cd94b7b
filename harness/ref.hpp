// Independent reference for the wire format (written from protocol.txt) and
// helpers to drive the variadic C API with generated argument lists.
#pragma once
#include "pbt.hpp"
#include "shim.h"
#include <cmath>
#include <inttypes.h>
#include <libpomp.h>
#include <stdarg.h>
#include <string>
#include <unistd.h>
#include <vector>

enum Ty { T_I8 = 1, T_U8, T_I16, T_U16, T_I32, T_U32, T_I64, T_U64, T_STR, T_BUF, T_F32, T_F64, T_FD };
static const char *const tyname[] = {"?", "I8", "U8", "I16", "U16", "I32", "U32", "I64", "U64", "STR", "BUF", "F32", "F64", "FD"};

struct Arg {
	int ty = T_I8;
	uint64_t u = 0;   // integers (sign extended to 64 bits when signed), float bits, fd
	std::string s;    // STR without NUL, BUF
};

inline float as_f32(uint64_t u) { uint32_t x = (uint32_t)u; float f; memcpy(&f, &x, 4); return f; }
inline double as_f64(uint64_t u) { double f; memcpy(&f, &u, 8); return f; }
inline uint64_t of_f32(float f) { uint32_t x; memcpy(&x, &f, 4); return x; }
inline uint64_t of_f64(double f) { uint64_t x; memcpy(&x, &f, 8); return x; }

inline bool same(const Arg &a, const Arg &b) { return a.ty == b.ty && a.u == b.u && a.s == b.s; }
inline std::string show(const Arg &a)
{
	char b[96];
	switch (a.ty) {
	case T_I8: case T_I16: case T_I32: case T_I64:
		snprintf(b, sizeof(b), "%s:%" PRId64, tyname[a.ty], (int64_t)a.u);
		return b;
	case T_STR: return "STR:" + pbt::hex(a.s.data(), a.s.size(), 16);
	case T_BUF: return "BUF:" + pbt::hex(a.s.data(), a.s.size(), 16);
	default:
		snprintf(b, sizeof(b), "%s:%" PRIu64, tyname[a.ty], a.u);
		return b;
	}
}
inline std::string show(const std::vector<Arg> &v)
{
	std::string r;
	for (auto &a : v) {
		if (r.size() > 400) { r += " ..."; break; }
		r += (r.empty() ? "" : " ") + show(a);
	}
	return r;
}

namespace ref {
inline void le(std::string &o, uint64_t v, int n)
{
	for (int i = 0; i < n; i++)
		o += (char)(uint8_t)(v >> (8 * i));
}
inline void varint(std::string &o, uint64_t v)
{
	for (;;) {
		uint8_t grp = v % 128;
		v /= 128;
		if (v == 0) {
			o += (char)grp;
			return;
		}
		o += (char)(grp + 128);
	}
}
inline uint64_t zigzag(int64_t v)
{
	return v >= 0 ? 2 * (uint64_t)v : 2 * (uint64_t)(-(v + 1)) + 1;
}
inline int64_t unzigzag(uint64_t z)
{
	return (z & 1) ? -(int64_t)(z / 2) - 1 : (int64_t)(z / 2);
}
inline void arg(std::string &o, const Arg &a)
{
	o += (char)a.ty;
	switch (a.ty) {
	case T_I8: case T_U8: le(o, a.u, 1); break;
	case T_I16: case T_U16: le(o, a.u, 2); break;
	case T_I32: case T_I64: varint(o, zigzag((int64_t)a.u)); break;
	case T_U32: case T_U64: varint(o, a.u); break;
	case T_STR: varint(o, a.s.size() + 1); o += a.s; o += '\0'; break;
	case T_BUF: varint(o, a.s.size()); o += a.s; break;
	case T_F32: case T_FD: le(o, a.u, 4); break;
	case T_F64: le(o, a.u, 8); break;
	}
}
inline std::string frame(uint32_t id, const std::string &payload)
{
	std::string o = "POMP";
	le(o, id, 4);
	le(o, 12 + payload.size(), 4);
	return o + payload;
}
inline std::string message(uint32_t id, const std::vector<Arg> &v)
{
	std::string p;
	for (auto &a : v)
		arg(p, a);
	return frame(id, p);
}

// Outcome of reading one argument at pos
enum Res {
	OK,      // valid: arg and next position set
	BAD,     // not a valid argument
	WRONG,   // another type than wanted (or unknown): nothing consumed
	END,     // no byte left: nothing consumed
	LOOSE,   // bytes protocol.txt does not settle (overlong or over-wide varint)
};
// strict varint: at most max bytes and fits in bits
inline Res rd_varint(const std::string &b, size_t &p, unsigned bits, uint64_t &v)
{
	unsigned n = 0;
	bool wide = false;
	v = 0;
	for (;;) {
		if (p >= b.size())
			return BAD;
		uint8_t c = (uint8_t)b[p++];
		unsigned sh = 7 * n;
		uint64_t part = c & 0x7f;
		if (part) {
			if (sh >= 64 || (sh == 63 && part > 1))
				wide = true;
			else
				v |= part << sh;
		}
		n++;
		if (!(c & 0x80)) {
			if (n > 1 && c == 0)
				// padded with empty groups: not what the encoder emits
				wide = wide || n > (bits + 6) / 7;
			break;
		}
	}
	if (bits < 64 && (v >> bits))
		wide = true;
	if (n > (bits + 6) / 7)
		wide = true;
	return wide ? LOOSE : OK;
}
// fds: set of offsets holding a real descriptor, NULL when there are none
inline Res read(const std::string &b, size_t &pos, int want, Arg &a)
{
	size_t p = pos;
	if (p >= b.size())
		return END;
	int ty = (uint8_t)b[p];
	if (want && ty != want)
		return WRONG;
	p++;
	a = Arg();
	a.ty = ty;
	auto fixed = [&](unsigned n) {
		if (b.size() - p < n)
			return false;
		for (unsigned i = 0; i < n; i++)
			a.u |= (uint64_t)(uint8_t)b[p + i] << (8 * i);
		p += n;
		return true;
	};
	Res r = OK;
	switch (ty) {
	case T_I8: r = fixed(1) ? OK : BAD; a.u = (uint64_t)(int64_t)(int8_t)a.u; break;
	case T_U8: r = fixed(1) ? OK : BAD; break;
	case T_I16: r = fixed(2) ? OK : BAD; a.u = (uint64_t)(int64_t)(int16_t)a.u; break;
	case T_U16: r = fixed(2) ? OK : BAD; break;
	case T_I32: r = rd_varint(b, p, 32, a.u); a.u = (uint64_t)unzigzag(a.u); break;
	case T_U32: r = rd_varint(b, p, 32, a.u); break;
	case T_I64: r = rd_varint(b, p, 64, a.u); a.u = (uint64_t)unzigzag(a.u); break;
	case T_U64: r = rd_varint(b, p, 64, a.u); break;
	case T_F32: r = fixed(4) ? OK : BAD; break;
	case T_F64: r = fixed(8) ? OK : BAD; break;
	case T_FD: r = BAD; break; // bytes alone never are a descriptor
	case T_STR: {
		uint64_t n;
		r = rd_varint(b, p, 16, n);
		if (r == BAD)
			break;
		if (r == LOOSE && n > 65535) {
			r = BAD; // no such string
			break;
		}
		if (n == 0 || b.size() - p < n || b[p + n - 1] != 0) {
			r = BAD;
			break;
		}
		a.s.assign(b.c_str() + p); // up to the first NUL: what a C string is
		p += n;
		break;
	}
	case T_BUF: {
		uint64_t n;
		r = rd_varint(b, p, 32, n);
		if (r == BAD)
			break;
		if (b.size() - p < n) {
			r = BAD;
			break;
		}
		a.s.assign(b, p, n);
		p += n;
		break;
	}
	default:
		return WRONG;
	}
	if (r == OK || r == LOOSE)
		pos = p;
	return r;
}
// the whole payload; false when malformed (or not settled: loose set)
inline bool parse(const std::string &msg, std::vector<Arg> &out, bool *loose)
{
	size_t pos = 12;
	*loose = false;
	while (pos < msg.size()) {
		Arg a;
		Res r = read(msg, pos, 0, a);
		if (r == LOOSE) {
			*loose = true;
			return false;
		}
		if (r != OK)
			return false;
		out.push_back(a);
	}
	return true;
}
inline std::string dump(uint32_t id, const std::vector<Arg> &v)
{
	char b[64];
	snprintf(b, sizeof(b), "{ID:%u", id);
	std::string r = b;
	for (auto &a : v) {
		r += ", ";
		r += tyname[a.ty];
		r += ":";
		switch (a.ty) {
		case T_I8: case T_I16: case T_I32: case T_I64:
			snprintf(b, sizeof(b), "%" PRId64, (int64_t)a.u);
			r += b;
			break;
		case T_U8: case T_U16: case T_U32: case T_U64:
			snprintf(b, sizeof(b), "%" PRIu64, a.u);
			r += b;
			break;
		case T_STR:
			r += "'" + std::string(a.s.c_str()) + "'";
			break;
		case T_BUF:
			break; // not rendered by this version
		case T_F32:
			snprintf(b, sizeof(b), "%.7g", as_f32(a.u));
			r += b;
			break;
		case T_F64:
			snprintf(b, sizeof(b), "%.7g", as_f64(a.u));
			r += b;
			break;
		case T_FD:
			snprintf(b, sizeof(b), "%d", (int)a.u);
			r += b;
			break;
		}
	}
	return r + "}";
}
} // namespace ref

// ------------------------------------------------------------ generators
inline std::string gen_cstr(pbt::Gen &g, size_t max)
{
	size_t n = g.size(max);
	std::string s = g.bytes(n);
	for (auto &c : s)
		if (c == 0)
			c = 'z';
	return s;
}
// maxdata: largest string/buffer
inline Arg gen_arg(pbt::Gen &g, int ty, size_t maxdata)
{
	Arg a;
	a.ty = ty;
	switch (ty) {
	case T_I8: a.u = (uint64_t)(int64_t)(int8_t)g.integer(8); break;
	case T_U8: a.u = g.integer(8); break;
	case T_I16: a.u = (uint64_t)(int64_t)(int16_t)g.integer(16); break;
	case T_U16: a.u = g.integer(16); break;
	case T_I32: a.u = (uint64_t)(int64_t)(int32_t)g.integer(32); break;
	case T_U32: a.u = g.integer(32); break;
	case T_I64: case T_U64: a.u = g.integer(64); break;
	case T_STR: a.s = gen_cstr(g, std::min<size_t>(maxdata, 65534)); break;
	case T_BUF: a.s = g.bytes(g.size(maxdata)); if (a.s.size() > 2097152) LABEL("buffer above 2 MB"); break;
	case T_F32: {
		switch (g.weighted({2, 3, 2})) {
		case 0: a.u = of_f32((float)g.range(-1000, 1000)); break;
		case 1: a.u = g.integer(32); break;
		default: a.u = of_f32((float)g.range(-100000, 100000) / 1000.0f); break;
		}
		if (std::isnan(as_f32(a.u)))
			a.u |= 0x00400000; // quiet: survives conversions
		break;
	}
	case T_F64: {
		switch (g.weighted({2, 3, 2})) {
		case 0: a.u = of_f64((double)g.range(-1000, 1000)); break;
		case 1: a.u = g.integer(64); break;
		default: a.u = of_f64((double)g.range(-1000000, 1000000) / 1000.0); break;
		}
		if (std::isnan(as_f64(a.u)))
			a.u |= 0x0008000000000000ull;
		break;
	}
	}
	return a;
}
inline int gen_type(pbt::Gen &g) { return (int)g.range(T_I8, T_F64); }
inline size_t gen_maxdata(pbt::Gen &g, bool large = false)
{
	static const size_t m[] = {8, 40, 300, 700, 5000, 70000, 5000000};
	return m[g.weighted({100, 100, 80, 80, 40, 20, large ? 1u : 0})];
}
// large: now and then, buffers of several megabytes
inline std::vector<Arg> gen_args(pbt::Gen &g, unsigned maxn = 20, bool large = false)
{
	std::vector<Arg> v;
	size_t maxdata = gen_maxdata(g, large);
	unsigned n = (unsigned)g.below(g.chance(1, 3) ? maxn + 1 : 6);
	for (unsigned i = 0; i < n; i++)
		v.push_back(gen_arg(g, gen_type(g), maxdata));
	return v;
}

// ------------------------------------------------------------ variadic calls
// Conversion letters the format strings may use for a type (write / read).
inline std::string spec(pbt::Gen &g, int ty, bool rd)
{
	static const char *fl[] = {"f", "F", "e", "E", "g", "G"};
	switch (ty) {
	case T_I8: return g.flip() ? "%hhd" : "%hhi";
	case T_U8: return "%hhu";
	case T_I16: return g.flip() ? "%hd" : "%hi";
	case T_U16: return "%hu";
	case T_I32: return g.flip() ? "%d" : "%i";
	case T_U32: return "%u";
	case T_I64: { static const char *f[] = {"%lld", "%ld", "%lli", "%li"}; return f[g.below(4)]; }
	case T_U64: return g.flip() ? "%llu" : "%lu";
	case T_STR: return rd ? "%ms" : "%s";
	case T_BUF: return "%p%u";
	case T_F32: return std::string("%") + fl[g.below(6)];
	case T_F64: return std::string("%l") + fl[g.below(6)];
	default: return "%x";
	}
}
// One argument slot: an integer or pointer, or a double
struct Slot8 {
	bool fp;
	uint64_t v;
};
#if !defined(__x86_64__)
#error the variadic call helpers are written for the x86-64 System V ABI
#endif
// A va_list that takes everything from memory
struct VaList {
	va_list ap;
	std::vector<uint64_t> mem;
	explicit VaList(const std::vector<Slot8> &s)
	{
		struct { unsigned gp, fp; void *over; void *reg; } h;
		for (auto &x : s)
			mem.push_back(x.v);
		mem.push_back(0xdeadbeefdeadbeefull);
		h.gp = 48;
		h.fp = 176;
		h.over = mem.data();
		h.reg = NULL;
		static_assert(sizeof(h) == sizeof(va_list), "va_list layout");
		memcpy((void *)ap, &h, sizeof(h));
	}
};
constexpr unsigned MAXSTACK = 48;
struct Regs {
	uint64_t g[4] = {0x1111111111111111ull, 0x2222222222222222ull, 0x3333333333333333ull, 0x4444444444444444ull};
	double d[8] = {};
	uint64_t s[MAXSTACK];
	bool fits = true;
	Regs(const std::vector<Slot8> &v, unsigned ngp)
	{
		unsigned ig = 0, id = 0, is = 0;
		for (auto &x : s)
			x = 0x5555555555555555ull;
		for (auto &x : v) {
			if (x.fp && id < 8)
				d[id++] = as_f64(x.v);
			else if (!x.fp && ig < ngp)
				g[ig++] = x.v;
			else if (is < MAXSTACK)
				s[is++] = x.v;
			else
				fits = false;
		}
	}
};
#define VCALL_D r.d[0], r.d[1], r.d[2], r.d[3], r.d[4], r.d[5], r.d[6], r.d[7]
#define VS8(i) r.s[i], r.s[i + 1], r.s[i + 2], r.s[i + 3], r.s[i + 4], r.s[i + 5], r.s[i + 6], r.s[i + 7]
#define VCALL_S VS8(0), VS8(8), VS8(16), VS8(24), VS8(32), VS8(40)
// f(a, fmt, ...)
template <class F, class A> int vcall2(F f, A a, const char *fmt, const Regs &r)
{
	return f(a, fmt, r.g[0], r.g[1], r.g[2], r.g[3], VCALL_D, VCALL_S);
}
// f(a, id, fmt, ...)
template <class F, class A> int vcall3(F f, A a, uint32_t id, const char *fmt, const Regs &r)
{
	return f(a, id, fmt, r.g[0], r.g[1], r.g[2], VCALL_D, VCALL_S);
}
// bits above the width of the type are not specified by the ABI
inline uint64_t dirty(pbt::Gen &g, uint64_t v, int ty)
{
	switch (ty) {
	case T_I64: case T_U64: case T_STR: case T_BUF: return v;
	default: return (v & 0xffffffffull) | (g.flip() ? 0xa5a5a5a500000000ull : 0);
	}
}
// the values as passed to a printf-like writer; v must outlive the slots
inline std::vector<Slot8> write_slots(pbt::Gen &g, const std::vector<Arg> &v)
{
	std::vector<Slot8> s;
	for (auto &a : v) {
		switch (a.ty) {
		case T_STR: s.push_back({false, (uint64_t)(uintptr_t)a.s.c_str()}); break;
		case T_BUF:
			s.push_back({false, (uint64_t)(uintptr_t)a.s.data()});
			s.push_back({false, dirty(g, a.s.size(), T_U32)});
			break;
		case T_F32: s.push_back({true, of_f64((double)as_f32(a.u))}); break;
		case T_F64: s.push_back({true, a.u}); break;
		default: s.push_back({false, dirty(g, a.u, a.ty)}); break;
		}
	}
	return s;
}

// bytes of a message through the public API
inline std::string msg_bytes(const struct pomp_msg *m)
{
	const void *p = NULL;
	size_t len = 0;
	struct pomp_buffer *b = pomp_msg_get_buffer(m);
	if (!b || pomp_buffer_get_cdata(b, &p, &len, NULL) < 0)
		return std::string();
	return len ? std::string((const char *)p, len) : std::string();
}
// typed writer
inline int enc_typed(struct pomp_encoder *e, const Arg &a)
{
	switch (a.ty) {
	case T_I8: return pomp_encoder_write_i8(e, (int8_t)a.u);
	case T_U8: return pomp_encoder_write_u8(e, (uint8_t)a.u);
	case T_I16: return pomp_encoder_write_i16(e, (int16_t)a.u);
	case T_U16: return pomp_encoder_write_u16(e, (uint16_t)a.u);
	case T_I32: return pomp_encoder_write_i32(e, (int32_t)a.u);
	case T_U32: return pomp_encoder_write_u32(e, (uint32_t)a.u);
	case T_I64: return pomp_encoder_write_i64(e, (int64_t)a.u);
	case T_U64: return pomp_encoder_write_u64(e, a.u);
	case T_STR: return pomp_encoder_write_str(e, a.s.c_str());
	case T_BUF: return pomp_encoder_write_buf(e, a.s.data(), (uint32_t)a.s.size());
	case T_F32: return pomp_encoder_write_f32(e, as_f32(a.u));
	case T_F64: return pomp_encoder_write_f64(e, as_f64(a.u));
	default: return pomp_encoder_write_fd(e, (int)a.u);
	}
}
// typed reader; copy: read_str/read_buf rather than the zero-copy ones
inline int dec_typed(struct pomp_decoder *d, int ty, bool copy, Arg &a)
{
	int r;
	a = Arg();
	a.ty = ty;
	switch (ty) {
	case T_I8: { int8_t v = 0; r = pomp_decoder_read_i8(d, &v); a.u = (uint64_t)(int64_t)v; return r; }
	case T_U8: { uint8_t v = 0; r = pomp_decoder_read_u8(d, &v); a.u = v; return r; }
	case T_I16: { int16_t v = 0; r = pomp_decoder_read_i16(d, &v); a.u = (uint64_t)(int64_t)v; return r; }
	case T_U16: { uint16_t v = 0; r = pomp_decoder_read_u16(d, &v); a.u = v; return r; }
	case T_I32: { int32_t v = 0; r = pomp_decoder_read_i32(d, &v); a.u = (uint64_t)(int64_t)v; return r; }
	case T_U32: { uint32_t v = 0; r = pomp_decoder_read_u32(d, &v); a.u = v; return r; }
	case T_I64: { int64_t v = 0; r = pomp_decoder_read_i64(d, &v); a.u = (uint64_t)v; return r; }
	case T_U64: { uint64_t v = 0; r = pomp_decoder_read_u64(d, &v); a.u = v; return r; }
	case T_STR:
		if (copy) {
			char *s = NULL;
			r = pomp_decoder_read_str(d, &s);
			if (r == 0) {
				a.s = s;
				vf_free(s);
			}
		} else {
			const char *s = NULL;
			r = pomp_decoder_read_cstr(d, &s);
			if (r == 0)
				a.s = s;
		}
		return r;
	case T_BUF: {
		uint32_t n = 0;
		if (copy) {
			void *p = NULL;
			r = pomp_decoder_read_buf(d, &p, &n);
			if (r == 0) {
				a.s.assign((const char *)p, n);
				vf_free(p);
			}
		} else {
			const void *p = NULL;
			r = pomp_decoder_read_cbuf(d, &p, &n);
			if (r == 0)
				a.s.assign((const char *)p, n);
		}
		return r;
	}
	case T_F32: { float v = 0; r = pomp_decoder_read_f32(d, &v); a.u = of_f32(v); return r; }
	case T_F64: { double v = 0; r = pomp_decoder_read_f64(d, &v); a.u = of_f64(v); return r; }
	default: { int v = -1; r = pomp_decoder_read_fd(d, &v); a.u = (uint64_t)(uint32_t)v; return r; }
	}
}
// scanf-like reading of given types
struct Reader {
	struct Cell { uint64_t v = 0xa5a5a5a5a5a5a5a5ull; uint64_t n = 0xa5a5a5a5a5a5a5a5ull; };
	std::vector<Cell> cells;
	std::vector<int> types;
	std::string fmt;
	explicit Reader(pbt::Gen &g, const std::vector<int> &t) : cells(t.size()), types(t)
	{
		for (int x : t)
			fmt += spec(g, x, true);
	}
	std::vector<Slot8> slots()
	{
		std::vector<Slot8> s;
		for (size_t i = 0; i < types.size(); i++) {
			s.push_back({false, (uint64_t)(uintptr_t)&cells[i].v});
			if (types[i] == T_BUF)
				s.push_back({false, (uint64_t)(uintptr_t)&cells[i].n});
		}
		return s;
	}
	// value of cell i; checks that only the width of the type was written
	Arg get(size_t i)
	{
		Arg a;
		a.ty = types[i];
		uint64_t v = cells[i].v, hi;
		unsigned w = 64;
		switch (a.ty) {
		case T_I8: a.u = (uint64_t)(int64_t)(int8_t)v; w = 8; break;
		case T_U8: a.u = (uint8_t)v; w = 8; break;
		case T_I16: a.u = (uint64_t)(int64_t)(int16_t)v; w = 16; break;
		case T_U16: a.u = (uint16_t)v; w = 16; break;
		case T_I32: a.u = (uint64_t)(int64_t)(int32_t)v; w = 32; break;
		case T_U32: case T_F32: case T_FD: a.u = (uint32_t)v; w = 32; break;
		case T_STR:
			a.s = (char *)(uintptr_t)v;
			vf_free((char *)(uintptr_t)v);
			break;
		case T_BUF:
			a.s.assign((const char *)(uintptr_t)v, (uint32_t)cells[i].n);
			CHECK((cells[i].n >> 32) == 0xa5a5a5a5u, "size of a buffer written as 64 bits");
			break;
		default: a.u = v;
		}
		if (w < 64) {
			hi = v >> w;
			CHECK(hi == (0xa5a5a5a5a5a5a5a5ull >> w), "%%-reader wrote outside its %u-bit destination", w);
		}
		return a;
	}
};

// ------------------------------------------------------------ hygiene
// Memory and descriptors at the end of a case are those at its beginning.
struct Clean {
	long live;
	uint64_t fds;
	int nfds;
	explicit Clean() : live(vf_live), fds(vf_fd_set_hash()), nfds(vf_count_fds()) {}
	void verify(const char *what = "case")
	{
		CHECK(vf_bad_close == 0, "%s: close() of a descriptor that is not open (%d)", what, vf_bad_close_fd);
		CHECK(vf_prot_close == 0, "%s: close() of a descriptor the library does not own (%d)", what, vf_bad_close_fd);
		CHECK(vf_live == live, "%s: %ld block(s) of memory %s", what, labs(vf_live - live),
		      vf_live > live ? "leaked" : "released that were not its own");
		CHECK(vf_fd_set_hash() == fds, "%s: descriptors left open or closed (%d before, %d after)", what, nfds, vf_count_fds());
	}
};
struct MemClean {
	long live;
	MemClean() : live(vf_live) {}
	void verify(const char *what = "case")
	{
		CHECK(vf_live == live, "%s: %ld block(s) of memory %s", what, labs(vf_live - live),
		      vf_live > live ? "leaked" : "released that were not its own");
	}
};
static struct InitHook {
	InitHook() { pbt::before_case = vf_reset; }
} init_hook_;
