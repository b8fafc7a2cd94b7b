// C28: the C++ wrappers are faithful to the C API (messages).
#include "ref.hpp"
#include <fcntl.h>
#include <algorithm>
#include <deque>
#include <libpomp.hpp>
#include <map>
#include <memory>
#include <set>
#include <netinet/in.h>
#include <sys/mman.h>
#include <sys/stat.h>
using namespace pbt;

namespace {
using pomp::ArgType;
template <ArgType T> using TT = typename pomp::internal::traits<T>::type;

constexpr int ty_of(ArgType t) { return (int)t - (int)pomp::ArgI8 + (int)T_I8; }
static_assert(ty_of(pomp::ArgFd) == T_FD && ty_of(pomp::ArgStr) == T_STR, "order of types");

template <class T> void put(T &d, const Arg &a) { d = (T)a.u; }
template <> void put(float &d, const Arg &a) { d = as_f32(a.u); }
template <> void put(double &d, const Arg &a) { d = as_f64(a.u); }
template <> void put(std::string &d, const Arg &a) { d = a.s; }
template <> void put(std::vector<uint8_t> &d, const Arg &a) { d.assign(a.s.begin(), a.s.end()); }
template <class T> void take(const T &d, Arg &a) { a.u = std::is_signed<T>::value ? (uint64_t)(int64_t)d : (uint64_t)d; }
template <> void take(const float &d, Arg &a) { a.u = of_f32(d); }
template <> void take(const double &d, Arg &a) { a.u = of_f64(d); }
template <> void take(const std::string &d, Arg &a) { a.s = d; }
template <> void take(const std::vector<uint8_t> &d, Arg &a) { a.s.assign(d.begin(), d.end()); }

struct Form {
	uint32_t id;
	std::vector<int> types;
	int (*write)(pomp::Message &, const std::vector<Arg> &);
	int (*read)(const pomp::Message &, std::vector<Arg> &);
	int (*send)(pomp::Context *, pomp::Connection *, const std::vector<Arg> &); // one of the two
};
template <uint32_t Id, ArgType... A> struct Inst {
	typedef pomp::MessageFormat<Id, A...> F;
	template <size_t... I> static int w(pomp::Message &m, const std::vector<Arg> &v, std::index_sequence<I...>)
	{
		std::tuple<TT<A>...> t;
		(put(std::get<I>(t), v[I]), ...);
		return m.write<F>(std::get<I>(t)...);
	}
	template <size_t... I> static int r(const pomp::Message &m, std::vector<Arg> &v, std::index_sequence<I...>)
	{
		std::tuple<TT<A>...> t;
		int res = m.read<F>(std::get<I>(t)...);
		v.assign(sizeof...(A), Arg());
		((v[I].ty = ty_of(A), take(std::get<I>(t), v[I])), ...);
		return res;
	}
	template <size_t... I> static int s(pomp::Context *x, pomp::Connection *c, const std::vector<Arg> &v, std::index_sequence<I...>)
	{
		std::tuple<TT<A>...> t;
		(put(std::get<I>(t), v[I]), ...);
		return x ? x->send<F>(std::get<I>(t)...) : c->send<F>(std::get<I>(t)...);
	}
	static int send(pomp::Context *x, pomp::Connection *c, const std::vector<Arg> &v) { return s(x, c, v, std::make_index_sequence<sizeof...(A)>()); }
	static int write(pomp::Message &m, const std::vector<Arg> &v) { return w(m, v, std::make_index_sequence<sizeof...(A)>()); }
	static int read(const pomp::Message &m, std::vector<Arg> &v) { return r(m, v, std::make_index_sequence<sizeof...(A)>()); }
	static Form form() { return {Id, {ty_of(A)...}, write, read, send}; }
};
template <int A, int... B> void row(std::vector<Form> &f, std::integer_sequence<int, B...>)
{
	(f.push_back(Inst<(uint32_t)(A * 13 + B), (ArgType)A, (ArgType)B>::form()), ...);
}
template <int... A> void pairs(std::vector<Form> &f, std::integer_sequence<int, A...> s)
{
	(row<A>(f, s), ...);
	(f.push_back(Inst<(uint32_t)(0xfffffff0u + A), (ArgType)A>::form()), ...);
}
const std::vector<Form> &forms()
{
	static std::vector<Form> f;
	using namespace pomp;
	if (!f.empty())
		return f;
	pairs(f, std::make_integer_sequence<int, 13>());
	f.push_back(Inst<0>::form());
	f.push_back(Inst<0x7fffffffu>::form());
	f.push_back(Inst<0x80000000u>::form());
	f.push_back(Inst<0xffffffffu>::form());
	f.push_back(Inst<42, ArgI8, ArgU8, ArgI16, ArgU16, ArgI32, ArgU32, ArgI64, ArgU64, ArgStr, ArgBuf, ArgF32, ArgF64>::form());
	f.push_back(Inst<43, ArgF64, ArgF32, ArgBuf, ArgStr, ArgU64, ArgI64, ArgU32, ArgI32, ArgU16, ArgI16, ArgU8, ArgI8>::form());
	f.push_back(Inst<44, ArgStr, ArgStr, ArgStr, ArgStr, ArgStr, ArgStr>::form());
	f.push_back(Inst<45, ArgBuf, ArgStr, ArgBuf, ArgStr, ArgBuf>::form());
	f.push_back(Inst<46, ArgI32, ArgI32, ArgI32, ArgI32>::form());
	f.push_back(Inst<47, ArgU64, ArgI64, ArgU64, ArgI64, ArgU64>::form());
	f.push_back(Inst<48, ArgF32, ArgF64, ArgF32, ArgF64, ArgF32, ArgF64, ArgF32, ArgF64, ArgF32>::form());
	f.push_back(Inst<49, ArgFd, ArgI8, ArgFd, ArgStr, ArgFd>::form());
	f.push_back(Inst<50, ArgI16, ArgU32, ArgI8>::form());
	f.push_back(Inst<51, ArgStr, ArgU16, ArgBuf>::form());
	f.push_back(Inst<52, ArgFd, ArgFd, ArgFd, ArgFd, ArgFd>::form()); // one too many
	return f;
}

ino_t ino_of(int fd)
{
	struct stat st;
	return fstat(fd, &st) < 0 ? 0 : st.st_ino;
}
struct Fds {
	std::vector<int> fds;
	int add()
	{
		int fd = memfd_create("vp", MFD_CLOEXEC);
		CHECK(fd >= 0, "memfd");
		fds.push_back(fd);
		return fd;
	}
	~Fds()
	{
		for (int f : fds)
			close(f);
	}
};
std::vector<Arg> fill_args(Gen &g, const std::vector<int> &types, Fds &fds)
{
	std::vector<Arg> v;
	size_t maxdata = gen_maxdata(g);
	for (int t : types) {
		Arg a;
		if (t == T_FD) {
			a.ty = t;
			a.u = (uint64_t)fds.add();
		} else {
			a = gen_arg(g, t, maxdata);
		}
		v.push_back(a);
	}
	return v;
}
// one typed read of the C++ decoder
int cxx_read(pomp::Decoder &d, Arg &a)
{
	int r;
	switch (a.ty) {
#define RD(T, ty) case T: { ty x = ty(); r = d.read(x); take(x, a); return r; }
	RD(T_I8, int8_t) RD(T_U8, uint8_t) RD(T_I16, int16_t) RD(T_U16, uint16_t) RD(T_I32, int32_t) RD(T_U32, uint32_t)
	RD(T_I64, int64_t) RD(T_U64, uint64_t) RD(T_F32, float) RD(T_F64, double) RD(T_STR, std::string) RD(T_BUF, std::vector<uint8_t>)
#undef RD
	default: { int x = -1; r = d.readFd(x); a.u = (uint64_t)(uint32_t)x; return r; }
	}
}
int cxx_write(Gen &g, pomp::Encoder &e, const Arg &a)
{
	bool named = g.flip();
	switch (a.ty) {
	case T_I8: return named ? e.writeI8((int8_t)a.u) : e.write((int8_t)a.u);
	case T_U8: return named ? e.writeU8((uint8_t)a.u) : e.write((uint8_t)a.u);
	case T_I16: return named ? e.writeI16((int16_t)a.u) : e.write((int16_t)a.u);
	case T_U16: return named ? e.writeU16((uint16_t)a.u) : e.write((uint16_t)a.u);
	case T_I32: return named ? e.writeI32((int32_t)a.u) : e.write((int32_t)a.u);
	case T_U32: return named ? e.writeU32((uint32_t)a.u) : e.write((uint32_t)a.u);
	case T_I64: return named ? e.writeI64((int64_t)a.u) : e.write((int64_t)a.u);
	case T_U64: return named ? e.writeU64((uint64_t)a.u) : e.write((uint64_t)a.u);
	case T_F32: return named ? e.writeF32(as_f32(a.u)) : e.write(as_f32(a.u));
	case T_F64: return named ? e.writeF64(as_f64(a.u)) : e.write(as_f64(a.u));
	case T_STR: return named ? e.write(a.s) : e.write(a.s.c_str());
	case T_BUF: return e.write(std::vector<uint8_t>(a.s.begin(), a.s.end()));
	default: return e.writeFd((int)a.u);
	}
}
// Reads the whole message in one of the C++ ways and compares
void verify(Gen &g, const char *how, const pomp::Message &m, uint32_t id, const std::vector<Arg> &v, const Form *f)
{
	CHECK(m.getId() == id, "%s: id %u, expected %u", how, m.getId(), id);
	auto cmp = [&](size_t i, const Arg &x, const char *rd) {
		if (v[i].ty == T_FD)
			CHECK(ino_of((int)x.u) == ino_of((int)v[i].u) && x.u != v[i].u, "%s/%s: argument %zu: descriptor %d is not the file written", how, rd,
			      i, (int)x.u);
		else
			CHECK(same(x, v[i]), "%s/%s: argument %zu: %s read, %s written", how, rd, i, show(x).c_str(), show(v[i]).c_str());
	};
	if (f) {
		std::vector<Arg> got;
		int r = f->read(m, got);
		CHECK(r == 0, "%s: read<Fmt>: error %d", how, r);
		for (size_t i = 0; i < v.size(); i++)
			cmp(i, got[i], "read<Fmt>");
	}
	{
		pomp::Decoder d(m);
		for (size_t i = 0; i < v.size(); i++) {
			Arg a;
			a.ty = v[i].ty;
			int r = cxx_read(d, a);
			CHECK(r == 0, "%s: Decoder: argument %zu: error %d", how, i, r);
			cmp(i, a, "Decoder");
		}
		int8_t x;
		CHECK(d.read(x) < 0, "%s: Decoder reads past the end", how);
	}
	unsigned nstr = 0;
	for (auto &a : v)
		nstr += a.ty == T_STR;
	if (g.flip() && nstr <= 16) {
		std::vector<int> t;
		for (auto &a : v)
			t.push_back(a.ty);
		Reader rd(g, t);
		Regs r(rd.slots(), 4);
		int res;
		if (r.fits && g.flip()) {
			// (this, fmt) leave 4 registers
			res = m.read(rd.fmt.c_str(), r.g[0], r.g[1], r.g[2], r.g[3], VCALL_D, VCALL_S);
		} else {
			VaList va(rd.slots());
			res = m.readv(rd.fmt.c_str(), va.ap);
		}
		CHECK(res == 0, "%s: read(\"%s\"): error %d", how, rd.fmt.c_str(), res);
		for (size_t i = 0; i < v.size(); i++)
			cmp(i, rd.get(i), "read(fmt)");
	}
}
} // namespace

#pragma clang diagnostic ignored "-Wformat-security"
#pragma clang diagnostic ignored "-Wformat-nonliteral"

// what the C++ classes send: caught by a C handler at the other end of a connection
namespace {
struct Catch : public pomp::EventHandler {
	pomp::Connection *conn = nullptr;
	std::vector<std::string> *out = nullptr;
	void onConnected(pomp::Context *, pomp::Connection *c) override { conn = c; }
	void onDisconnected(pomp::Context *, pomp::Connection *c) override
	{
		if (conn == c)
			conn = nullptr;
	}
};
// A C client and a C++ server (or the other way round), bytes seen by the C side
struct Wire {
	pomp::Loop loop;
	Catch h;
	pomp::Context cxx;
	struct pomp_ctx *c;
	std::vector<std::string> got;
	struct pomp_conn *cconn = nullptr;
	static void cb(struct pomp_ctx *, enum pomp_event ev, struct pomp_conn *conn, const struct pomp_msg *m, void *ud)
	{
		Wire *w = (Wire *)ud;
		if (ev == POMP_EVENT_MSG)
			w->got.push_back(msg_bytes(m));
		w->cconn = ev == POMP_EVENT_DISCONNECTED ? nullptr : conn;
	}
	Wire(bool server) : cxx(&h, &loop)
	{
		static unsigned n;
		char name[64];
		c = pomp_ctx_new_with_loop(cb, this, loop.get());
		CHECK(c, "pomp_ctx_new_with_loop");
		snprintf(name, sizeof(name), "unix:@vpx%d_%u", (int)getpid(), n++);
		pomp::Address a(name);
		CHECK(a.isValid() && (bool)a, "address");
		if (server) {
			CHECK(cxx.listen(a) == 0, "Context::listen");
			CHECK(pomp_ctx_connect(c, a.addr(), a.len()) == 0, "connect");
		} else {
			CHECK(pomp_ctx_listen(c, a.addr(), a.len()) == 0, "listen");
			CHECK(cxx.connect(a) == 0, "Context::connect");
		}
		for (int i = 0; i < 100 && !(h.conn && cconn); i++)
			loop.waitAndProcess(0);
		CHECK(h.conn && cconn, "not connected");
	}
	std::string one()
	{
		for (int i = 0; i < 200 && got.empty(); i++)
			loop.waitAndProcess(0);
		CHECK(got.size() == 1, "%zu messages received for one sent", got.size());
		std::string s = got[0];
		got.clear();
		return s;
	}
	~Wire()
	{
		cxx.stop();
		pomp_ctx_stop(c);
		for (int i = 0; i < 3; i++)
			loop.waitAndProcess(0);
		CHECK(pomp_ctx_destroy(c) == 0, "destroy");
	}
};
} // namespace

PBT_TARGET(c28_write, "an argument list written through Message::write/writev, Encoder, a typed format (all pairs of types, singles, some longer), or a "
	"send of a Context or Connection, its bytes compared with the reference encoder and read back in each C++ way; non-trivial: 2 arguments", 4)
{
	Clean cl;
	vf_virtual_time = 1;
	{
		Fds fds;
		const Form *f = nullptr;
		std::vector<int> types;
		unsigned how = (unsigned)g.below(8);
		uint32_t id = (uint32_t)g.integer(32);
		if (how == 0 || how >= 6) {
			f = &forms()[g.below(forms().size())];
			types = f->types;
			id = f->id;
			how = 0;
		} else {
			unsigned n = (unsigned)g.below(g.flip() ? 4 : 14), nf = 0;
			for (unsigned i = 0; i < n; i++) {
				int t = g.chance(1, 12) && nf < 4 ? (int)T_FD : gen_type(g);
				nf += t == T_FD;
				types.push_back(t);
			}
		}
		std::vector<Arg> v = fill_args(g, types, fds);
		note("%s id=%u %s", how == 0 ? "write<Fmt>" : how == 1 ? "write" : how == 2 ? "writev" : how == 3 ? "Encoder" : how == 4 ? "Context" : "Connection",
		     id, show(v).c_str());
		if (v.size() >= 2)
			nontrivial();
		bool nofd = true;
		unsigned nfd = 0;
		for (int t : types)
			nfd += t == T_FD;
		nofd = nfd == 0;
		std::string want = ref::message(id, v), fmt;
		for (auto &a : v)
			fmt += spec(g, a.ty, false);
		Wire w(g.flip());
		pomp::Message m;
		std::string got;
		int res;
		// a message used before
		if (g.chance(1, 3)) {
			CHECK(m.write(77, "%s%u", "before", 12u) == 0, "write");
			LABEL("reused message");
		}
		if (how == 0) {
			res = f->write(m, v);
			if (nfd > 4) {
				CHECK(res < 0, "write<Fmt> of %u descriptors succeeds", nfd);
				return;
			}
			CHECK(res == 0, "write<Fmt>: error %d", res);
			verify(g, "write<Fmt>", m, id, v, f);
			w.h.conn->sendMsg(m);
			got = w.one();
		} else if (how <= 2) {
			std::vector<Slot8> s = write_slots(g, v);
			Regs r(s, 3);
			const char *fp = fmt.c_str();
			if (how == 1 && r.fits) {
				res = m.write(id, fp, r.g[0], r.g[1], r.g[2], VCALL_D, VCALL_S);
			} else {
				VaList va(s);
				res = m.writev(id, fp, va.ap);
			}
			CHECK(res == 0, "write(\"%s\"): error %d", fp, res);
			verify(g, "write", m, id, v, nullptr);
			if (g.flip())
				res = w.cxx.sendMsg(m);
			else
				res = w.h.conn->sendMsg(m);
			CHECK(res == 0, "sendMsg: error %d", res);
			got = w.one();
		} else if (how == 3) {
			pomp::Encoder e(id);
			for (auto &a : v) {
				res = cxx_write(g, e, a);
				CHECK(res == 0, "Encoder: write of %s: error %d", show(a).c_str(), res);
			}
			const pomp::Message &em = e.getMessage();
			CHECK(&em == &e.getMessage(), "getMessage returns another message");
			verify(g, "Encoder", em, id, v, nullptr);
			CHECK(e.write((int8_t)1) < 0, "a finished message can be written");
			CHECK(w.h.conn->sendMsg(em) == 0, "sendMsg");
			got = w.one();
		} else {
			std::vector<Slot8> s = write_slots(g, v);
			Regs r(s, 3);
			const char *fp = fmt.c_str();
			VaList va(s);
			bool vl = !r.fits || g.flip();
			if (how == 4)
				res = vl ? w.cxx.sendv(id, fp, va.ap) : w.cxx.send(id, fp, r.g[0], r.g[1], r.g[2], VCALL_D, VCALL_S);
			else
				res = vl ? w.h.conn->sendv(id, fp, va.ap) : w.h.conn->send(id, fp, r.g[0], r.g[1], r.g[2], VCALL_D, VCALL_S);
			CHECK(res == 0, "send(\"%s\"): error %d", fp, res);
			got = w.one();
		}
		if (nofd) {
			CHECK(got == want, "received %s, expected %s", hex(got.data(), got.size(), 80).c_str(), hex(want.data(), want.size(), 80).c_str());
		} else {
			CHECK(got.size() == want.size(), "received %zu bytes, expected %zu", got.size(), want.size());
			LABEL("with descriptors");
		}
	}
	cl.verify();
}

PBT_TARGET(c28_read, "a message of valid or damaged arguments read with right and wrong types, ids and formats through the C++ classes and by the C "
	"functions: same errors, same values; non-trivial: something read and something refused", 3)
{
	Clean cl;
	{
		uint32_t id = (uint32_t)g.integer(32);
		const Form *f = &forms()[g.below(forms().size())];
		std::vector<Arg> v;
		Fds fds;
		if (g.flip()) {
			for (int t : f->types)
				v.push_back(t == T_FD ? gen_arg(g, T_I32, 10) : gen_arg(g, t, gen_maxdata(g)));
			if (g.chance(4, 5))
				id = f->id;
		} else {
			v = gen_args(g, 8, true);
			if (g.flip())
				id = f->id;
		}
		std::string b = ref::message(id, v);
		bool damaged = false;
		switch (g.weighted({3, 2, 2})) {
		case 1:
			if (b.size() > 12)
				b.resize(12 + g.below(b.size() - 11)), damaged = true;
			break;
		case 2:
			if (b.size() > 12)
				b[12 + g.below(b.size() - 12)] = (char)g.below(256), damaged = true;
			break;
		default: break;
		}
		note("id=%u %s", id, hex(b.data(), b.size(), 200).c_str());
		// given to a C++ handler by the library: the bytes travel in a message made by C
		for (int i = 0; i < 4; i++)
			b[8 + i] = (char)(uint8_t)(b.size() >> (8 * i));
		struct pomp_buffer *buf = pomp_buffer_new_with_data(b.data(), b.size());
		struct pomp_msg *cm = pomp_msg_new_with_buffer(buf);
		pomp_buffer_unref(buf);
		CHECK(cm, "pomp_msg_new_with_buffer");
		struct H : public pomp::EventHandler {
			Gen *g;
			const Form *f;
			const std::string *b;
			struct pomp_msg *cm;
			uint32_t id;
			bool called = false;
			void recvMessage(pomp::Context *, pomp::Connection *, const pomp::Message &m) override
			{
				called = true;
				CHECK(m.getId() == id, "id %u, expected %u", m.getId(), id);
				// typed format
				std::vector<Arg> got;
				int r = f->read(m, got), rc = 0;
				if (id != f->id) {
					CHECK(r < 0, "read<Fmt> accepts a message of another id");
					LABEL("other id");
				} else {
					struct pomp_decoder *d = pomp_decoder_new();
					pomp_decoder_init(d, cm);
					for (size_t i = 0; i < f->types.size() && rc == 0; i++) {
						Arg a;
						rc = dec_typed(d, f->types[i], false, a);
						if (rc == 0 && a.ty != T_FD)
							CHECK(same(a, got[i]), "read<Fmt>: argument %zu: %s, C returns %s", i, show(got[i]).c_str(), show(a).c_str());
					}
					CHECK((r == 0) == (rc == 0), "read<Fmt> returns %d, the C functions %d", r, rc);
					pomp_decoder_destroy(d);
				}
				// one by one, wrong types included
				struct pomp_decoder *d = pomp_decoder_new();
				pomp_decoder_init(d, cm);
				pomp::Decoder cd(m);
				bool ok = false, bad = false;
				for (unsigned i = 0; i < 12; i++) {
					int t = i < f->types.size() && g->chance(3, 4) ? f->types[i] : (int)g->range(T_I8, T_FD);
					Arg a, x;
					x.ty = t;
					rc = dec_typed(d, t, false, a);
					r = cxx_read(cd, x);
					// a descriptor that did not come with the message is an error in both, not the same one
					CHECK(t == T_FD ? (r == 0) == (rc == 0) : r == rc, "Decoder: %s: %d, C returns %d", tyname[t], r, rc);
					// (whose place the library marked in the message received, what follows is no more the same)
					if (t == T_FD && memchr(b->data() + 12, 0x0d, b->size() - 12))
						break;
					if (r == 0) {
						CHECK(same(a, x), "Decoder: %s, C returns %s", show(x).c_str(), show(a).c_str());
						ok = true;
					} else {
						bad = true;
					}
				}
				if (ok && bad)
					nontrivial();
				pomp_decoder_destroy(d);
				// format string
				std::vector<int> t = f->types;
				for (int k : t)
					if (k == T_FD)
						return;
				Reader ra(*g, t), rb(ra);
				VaList va(ra.slots()), vb(rb.slots());
				r = m.readv(ra.fmt.c_str(), va.ap);
				rc = pomp_msg_readv(cm, rb.fmt.c_str(), vb.ap);
				CHECK(r == rc, "readv(\"%s\"): %d, C returns %d", ra.fmt.c_str(), r, rc);
				if (r == 0)
					for (size_t i = 0; i < t.size(); i++) {
						Arg a = ra.get(i), x = rb.get(i);
						CHECK(same(a, x), "readv: %s, C returns %s", show(a).c_str(), show(x).c_str());
					}
				// nothing but reading is possible
				CHECK(const_cast<pomp::Message &>(m).write(1, "%u", 1u) < 0, "a received message can be written");
			}
		} h;
		h.g = &g;
		h.f = f;
		h.b = &b;
		h.cm = cm;
		h.id = id;
		{
			static unsigned n;
			char name[64];
			pomp::Loop loop;
			pomp::Context ctx(&h, &loop);
			struct pomp_ctx *c = pomp_ctx_new_with_loop([](struct pomp_ctx *, enum pomp_event, struct pomp_conn *, const struct pomp_msg *, void *) {},
				NULL, loop.get());
			vf_virtual_time = 1;
			snprintf(name, sizeof(name), "unix:@vpr%d_%u", (int)getpid(), n++);
			pomp::Address a(name);
			CHECK(ctx.listen(a) == 0 && pomp_ctx_connect(c, a.addr(), a.len()) == 0, "connect");
			for (int i = 0; i < 100 && ctx.getConnections().empty(); i++)
				loop.waitAndProcess(0);
			CHECK(pomp_ctx_send_msg(c, cm) == 0, "send");
			for (int i = 0; i < 200 && !h.called; i++)
				loop.waitAndProcess(0);
			CHECK(h.called || damaged, "message not delivered"); // what is malformed may be dropped
			ctx.stop();
			pomp_ctx_stop(c);
			pomp_ctx_destroy(c);
		}
		pomp_msg_destroy(cm);
	}
	cl.verify();
}

PBT_TARGET(c28_addr, "addresses in every notation and near misses: Address agrees with pomp_addr_parse, and a context refuses an invalid one; non-trivial: a "
	"valid inet or unix address", 1)
{
	Clean cl;
	{
		static const char *const hosts[] = {"127.0.0.1", "0.0.0.0", "::1", "::", "1.2.3", "256.1.1.1", "fe80::1", "", "no.such.host.invalid"};
		std::string s;
		switch (g.below(6)) {
		case 0: s = "inet:"; break;
		case 1: s = "inet6:"; break;
		case 2: s = "unix:"; break;
		case 3: s = "unix:@"; break;
		case 4: s = "net:"; break;
		default: break;
		}
		if (s.compare(0, 5, "unix:") == 0) {
			s += std::string(g.size(140), 'p');
		} else {
			s += hosts[g.below(8)];
			if (g.chance(4, 5))
				s += ":" + std::to_string(g.integer(18));
		}
		note("%s", s.c_str());
		struct sockaddr_storage ss;
		uint32_t len = sizeof(ss);
		memset(&ss, 0, sizeof(ss));
		int r = pomp_addr_parse(s.c_str(), (struct sockaddr *)&ss, &len);
		pomp::Address a(s.c_str());
		CHECK(a.isValid() == (r == 0) && (bool)a == (r == 0), "Address(%s).isValid() is %d, pomp_addr_parse returns %d", s.c_str(), a.isValid(), r);
		pomp::EventHandler h;
		pomp::Context ctx(&h);
		if (r == 0) {
			nontrivial();
			CHECK(a.len() == len, "Address(%s): length %u, expected %u", s.c_str(), a.len(), len);
			CHECK(((const struct sockaddr *)&ss)->sa_family == a.addr()->sa_family, "family");
			if (ss.ss_family == AF_UNIX)
				CHECK(memcmp(a.addr(), &ss, len) == 0, "Address(%s) differs", s.c_str());
			else
				CHECK(memcmp(a.addr(), &ss, ss.ss_family == AF_INET ? 8 : 24) == 0, "Address(%s) differs", s.c_str());
		} else {
			const struct sockaddr *p = NULL;
			uint32_t l = 0;
			(void)p;
			(void)l;
			CHECK(ctx.listen(a) < 0, "listen on an invalid address succeeds");
			CHECK(ctx.connect(a) < 0, "connect to an invalid address succeeds");
			CHECK(ctx.bind(a) < 0, "bind to an invalid address succeeds");
			pomp::Address d;
			CHECK(!d.isValid() && ctx.listen(d) < 0, "listen on a default address succeeds");
		}
		std::string real = "kept";
		char *c = NULL;
		int r1 = pomp::Address::getRealAddr(s.c_str(), real);
		if (r1 == 0)
			vf_live--; // freed by the header itself, in this file
		int r2 = pomp_addr_get_real_addr(s.c_str(), &c);
		CHECK(r1 == r2, "getRealAddr: %d, C returns %d", r1, r2);
		CHECK(real == (r2 == 0 ? c : "kept"), "getRealAddr: %s, C returns %s", real.c_str(), c ? c : "-");
		if (r2 == 0)
			vf_free(c);
	}
	cl.verify();
}

// ------------------------------------------------------------ traffic between C++ contexts
namespace {
struct Sent {
	uint32_t id;
	std::vector<Arg> v;
	const Form *f;
};
enum { HELLO = 0x48454c4f };
struct Link { // one connection, both directions; 0: from the client
	std::deque<Sent> q[2];
	std::string raw[2];
	pomp::Connection *end[2] = {nullptr, nullptr}; // client, server
	bool up[2] = {false, false};
	bool cut = false; // closed by one side: what was sent may be lost
};
struct World;
struct Node : public pomp::EventHandler {
	World *w = nullptr;
	int idx = 0; // 0: server
	pomp::Loop *own = nullptr;
	pomp::Context *ctx = nullptr;
	std::vector<pomp::Connection *> conns;
	std::map<pomp::Connection *, Link *> link;
	std::map<pomp::Connection *, std::string> hello;
	std::set<pomp::Connection *> shut;
	bool started = false, stopping = false;
	bool external = false;
	void onConnected(pomp::Context *c, pomp::Connection *conn) override;
	void onDisconnected(pomp::Context *c, pomp::Connection *conn) override;
	void recvMessage(pomp::Context *c, pomp::Connection *conn, const pomp::Message &m) override;
	void recvRawBuffer(pomp::Context *c, pomp::Connection *conn, const std::vector<uint8_t> &v) override;
	~Node()
	{
		delete ctx;
	}
};
struct World {
	Gen &g;
	bool raw;
	pomp::Loop loop;
	std::vector<std::unique_ptr<Node>> nodes;
	std::vector<std::unique_ptr<Link>> links;
	pomp::Address *addr = nullptr;
	unsigned delivered = 0, sends = 0, relays = 0, depth = 0;
	bool anycut = false; // the server closed something
	bool calm = false; // no more actions from callbacks
	World(Gen &gen) : g(gen) {}

	std::vector<Arg> content(const Form *&f, uint32_t &id)
	{
		Fds none;
		std::vector<Arg> v;
		f = nullptr;
		id = (uint32_t)g.integer(32);
		if (g.chance(1, 3)) {
			for (int i = 0; i < 8 && !f; i++) {
				f = &forms()[g.below(forms().size())];
				for (int t : f->types)
					if (t == T_FD) {
						f = nullptr;
						break;
					}
			}
		}
		if (f) {
			v = fill_args(g, f->types, none);
			id = f->id;
		} else {
			v = gen_args(g, 8);
			if (g.chance(1, 40)) {
				Arg a;
				a.ty = T_BUF;
				a.s.resize(20000 + g.below(200000));
				fill((uint8_t *)&a.s[0], a.s.size(), g.below(1000));
				v.push_back(a);
				LABEL("big message");
			}
		}
		if (id == HELLO)
			id++;
		return v;
	}
	// a connection, or all of a context (conn NULL)
	void send(Node *n, pomp::Connection *conn, const pomp::Message *relay = nullptr, const Sent *what = nullptr)
	{
		std::vector<pomp::Connection *> to;
		if (conn)
			to.push_back(conn);
		else
			to = n->conns;
		for (auto *c : to)
			if (!n->link.count(c))
				return; // not identified yet
		if (!conn && n->idx != 0 && n->conns.empty() && n->started) {
			// a client that is not connected
			CHECK(n->ctx->send(1, "%u", 1u) < 0 || raw, "a client that is not connected sends");
			return;
		}
		if (!n->started)
			return;
		int side = n->idx == 0;
		bool cut = false; // a connection being closed may refuse
		for (auto *c : to)
			cut |= n->link[c]->cut || (!n->link[c]->end[1] && anycut);
		if (raw) {
			std::string s = g.bytes(1 + g.size(g.chance(1, 20) ? 100000 : 300));
			std::vector<uint8_t> b(s.begin(), s.end());
			int r = conn ? conn->send(b) : n->ctx->send(b);
			CHECK(r == 0 || cut, "send of %zu bytes: error %d", b.size(), r);
			if (r != 0)
				return;
			for (auto *c : to)
				n->link[c]->raw[side] += s;
			sends++;
			note("%d sends %zu bytes to %zu", n->idx, s.size(), to.size());
			return;
		}
		Sent x;
		int r;
		if (relay) {
			x = *what;
			r = conn ? conn->sendMsg(*relay) : n->ctx->sendMsg(*relay);
			relays++;
		} else {
			x.v = content(x.f, x.id);
			std::string fmt;
			for (auto &a : x.v)
				fmt += spec(g, a.ty, false);
			std::vector<Slot8> s = write_slots(g, x.v);
			const char *fp = fmt.c_str();
			Regs r_(s, 3), &rr = r_;
			if (x.f) {
				r = x.f->send(conn ? nullptr : n->ctx, conn, x.v);
			} else if (g.flip()) {
				VaList va(s);
				r = conn ? conn->sendv(x.id, fp, va.ap) : n->ctx->sendv(x.id, fp, va.ap);
			} else if (g.flip() && rr.fits) {
				const Regs &r = rr;
				int res = conn ? conn->send(x.id, fp, r.g[0], r.g[1], r.g[2], VCALL_D, VCALL_S)
					       : n->ctx->send(x.id, fp, r.g[0], r.g[1], r.g[2], VCALL_D, VCALL_S);
				CHECK(res == 0 || cut, "send: error %d", res);
				if (res != 0)
					return;
				for (auto *c : to)
					n->link[c]->q[side].push_back(x);
				sends++;
				return;
			} else {
				pomp::Message m;
				VaList va(s);
				r = m.writev(x.id, fp, va.ap);
				CHECK(r == 0, "writev: error %d", r);
				r = conn ? conn->sendMsg(m) : n->ctx->sendMsg(m);
			}
		}
		CHECK(r == 0 || cut, "%d: send: error %d", n->idx, r);
		if (r != 0)
			return;
		for (auto *c : to)
			n->link[c]->q[side].push_back(x);
		sends++;
		note("%d sends %s to %zu", n->idx, show(x.v).substr(0, 80).c_str(), to.size());
	}
	void cutting(Node *n, pomp::Connection *c)
	{
		if (n->link.count(c)) {
			n->link[c]->cut = true;
			return;
		}
		anycut |= n->idx == 0;
		n->shut.insert(c);
		for (auto &k : links)
			if (!k->end[1])
				k->cut = true; // one of these
	}
	void stop(Node *n)
	{
		anycut |= n->idx == 0;
		for (auto *c : n->conns)
			cutting(n, c);
		for (auto &k : links)
			if (n->idx == 0 && !k->end[1])
				k->cut = true; // not accepted yet
		int r = n->ctx->stop();
		CHECK(r == (n->started ? 0 : r), "stop: error %d", r);
		n->started = false;
		n->stopping |= depth > 0;
	}
	void start(Node *n)
	{
		int r = n->idx == 0 ? n->ctx->listen(*addr) : n->ctx->connect(*addr);
		if (n->started)
			CHECK(r < 0, "a started context starts");
		else if (r == -EBUSY && n->stopping)
			return; // a stop from a callback ends later, when the loop is idle
		else
			CHECK(r == 0, "%d: start: error %d", n->idx, r);
		n->started = true;
		n->stopping = false;
	}
	void act(Node *n)
	{
		if (calm || depth > 3)
			return;
		depth++;
		switch (g.below(8)) {
		case 0:
			if (!n->conns.empty()) {
				pomp::Connection *c = n->conns[g.below(n->conns.size())];
				cutting(n, c);
				note("%d disconnects", n->idx);
				CHECK(c->disconnect() == 0 || true, "disconnect");
			}
			break;
		case 1:
			if (g.chance(1, 3)) {
				note("%d stops (callback)", n->idx);
				stop(n);
				LABEL("stop in a callback");
			}
			break;
		default:
			if (!n->conns.empty())
				send(n, g.flip() ? nullptr : n->conns[g.below(n->conns.size())]);
			break;
		}
		depth--;
	}
	void step()
	{
		for (auto &n : nodes)
			if (!n->external) {
				switch (g.below(3)) {
				case 0: n->ctx->waitAndProcess(0); break;
				case 1: n->ctx->processFd(); break;
				default: n->ctx->getLoop()->waitAndProcess(0); break;
				}
			}
		loop.waitAndProcess(0);
		for (auto &n : nodes) {
			const pomp::ConnectionArray &a = n->ctx->getConnections();
			CHECK(std::vector<pomp::Connection *>(a) == n->conns, "%d: getConnections has %zu connections, %zu are connected", n->idx, a.size(),
			      n->conns.size());
			CHECK(n->ctx->getConnection() == (n->conns.empty() ? nullptr : n->conns[0]), "getConnection");
		}
	}
};
void Node::onConnected(pomp::Context *c, pomp::Connection *conn)
{
	note("%d connected", idx);
	CHECK(c == ctx && conn, "onConnected: wrong context");
	CHECK(std::find(conns.begin(), conns.end(), conn) == conns.end(), "onConnected: connected already");
	CHECK(conn->getFd() >= 0, "getFd");
	uint32_t l = 0;
	CHECK(conn->getPeerAddr(&l) && conn->getLocalAddr(&l), "address");
	struct sockaddr_storage name;
	socklen_t namelen = sizeof(name);
	const struct sockaddr *local = conn->getLocalAddr(&l);
	CHECK(getsockname(conn->getFd(), (struct sockaddr *)&name, &namelen) == 0 && namelen == l && memcmp(&name, local, l) == 0,
	      "getFd is not the socket of this connection");
	const struct pomp_cred *cr = conn->getPeerCred();
	CHECK(cr && cr->pid == (uint32_t)getpid(), "credentials");
	conns.push_back(conn);
	CHECK(idx == 0 || conns.size() == 1, "a client has two connections");
	if (idx == 0)
		return;
	w->links.emplace_back(new Link());
	Link *k = w->links.back().get();
	unsigned n = (unsigned)w->links.size() - 1;
	k->end[0] = conn;
	k->up[0] = true;
	link[conn] = k;
	int r;
	if (w->raw) {
		uint8_t b[4] = {(uint8_t)n, (uint8_t)(n >> 8), (uint8_t)(n >> 16), 0};
		r = conn->send(std::vector<uint8_t>(b, b + 4));
	} else {
		r = conn->send(HELLO, "%u", n);
	}
	CHECK(r == 0 || r == -EPIPE || r == -ECONNRESET, "hello: error %d", r);
	if (r != 0)
		k->cut = true; // the server left already
	w->act(this);
}
void Node::onDisconnected(pomp::Context *c, pomp::Connection *conn)
{
	note("%d disconnected", idx);
	CHECK(c == ctx, "onDisconnected: wrong context");
	auto it = std::find(conns.begin(), conns.end(), conn);
	CHECK(it != conns.end(), "onDisconnected: not connected");
	conns.erase(it);
	auto k = link.find(conn);
	if (k != link.end()) {
		k->second->up[idx == 0] = false;
		k->second->cut = true;
		link.erase(k);
	}
	hello.erase(conn);
	shut.erase(conn);
	w->act(this);
}
void Node::recvMessage(pomp::Context *c, pomp::Connection *conn, const pomp::Message &m)
{
	CHECK(c == ctx && !w->raw, "recvMessage: wrong context");
	CHECK(std::find(conns.begin(), conns.end(), conn) != conns.end(), "recvMessage: not a connection");
	if (m.getId() == HELLO) {
		unsigned n = ~0u;
		CHECK(idx == 0 && !link.count(conn) && m.read("%u", &n) == 0 && n < w->links.size(), "hello");
		Link *k = w->links[n].get();
		CHECK(!k->end[1], "hello twice");
		k->end[1] = conn;
		k->up[1] = true;
		k->cut |= shut.count(conn) > 0;
		link[conn] = k;
		return;
	}
	CHECK(link.count(conn), "a message before the first one");
	auto &q = link[conn]->q[idx != 0];
	CHECK(!q.empty(), "%d: a message that was not sent: id %u", idx, m.getId());
	Sent x = q.front();
	q.pop_front();
	verify(w->g, "recvMessage", m, x.id, x.v, x.f);
	w->delivered++;
	if (!w->calm && w->g.chance(1, 6) && w->relays < 30)
		w->send(this, w->g.flip() ? nullptr : conns[w->g.below(conns.size())], &m, &x);
	else if (w->g.chance(1, 6))
		w->act(this);
}
void Node::recvRawBuffer(pomp::Context *c, pomp::Connection *conn, const std::vector<uint8_t> &v)
{
	CHECK(c == ctx && w->raw, "recvRawBuffer: wrong context");
	CHECK(std::find(conns.begin(), conns.end(), conn) != conns.end(), "recvRawBuffer: not a connection");
	std::string s(v.begin(), v.end());
	CHECK(!s.empty(), "an empty buffer");
	if (!link.count(conn)) {
		CHECK(idx == 0, "client");
		std::string &h = hello[conn];
		while (h.size() < 4 && !s.empty()) {
			h += s[0];
			s.erase(0, 1);
		}
		if (h.size() < 4)
			return;
		unsigned n = (uint8_t)h[0] | (unsigned)(uint8_t)h[1] << 8 | (unsigned)(uint8_t)h[2] << 16;
		CHECK(n < w->links.size() && !w->links[n]->end[1], "hello");
		Link *k = w->links[n].get();
		k->end[1] = conn;
		k->up[1] = true;
		k->cut |= shut.count(conn) > 0;
		link[conn] = k;
	}
	std::string &q = link[conn]->raw[idx != 0];
	CHECK(s.size() <= q.size() && q.compare(0, s.size(), s) == 0, "%d: %zu bytes that were not sent", idx, s.size());
	q.erase(0, s.size());
	w->delivered += !s.empty();
	if (w->g.chance(1, 6))
		w->act(this);
}
} // namespace

PBT_TARGET(c28_ctx, "a server and up to 3 clients, all C++ contexts, messages or raw, in shared or own loops; sends of every kind, relays, disconnections, "
	"stops (also in callbacks) and restarts, against a queue per connection and direction; non-trivial: 3 deliveries", 3)
{
	Clean cl;
	char dir[] = "/tmp/vpcxxXXXXXX";
	char name[64];
	std::string path;
	vf_virtual_time = 1;
	{
		static unsigned n;
		World w(g);
		w.raw = g.chance(1, 3);
		bool file = g.chance(1, 6);
		uint32_t mode = 0;
		if (file) {
			CHECK(mkdtemp(dir), "mkdtemp");
			path = std::string(dir) + "/s";
			snprintf(name, sizeof(name), "unix:%s", path.c_str());
			mode = (uint32_t)g.below(8) << 6 | (uint32_t)g.below(64) | 0600;
		} else {
			snprintf(name, sizeof(name), "unix:@vpc%d_%u", (int)getpid(), n++);
		}
		pomp::Address addr(name);
		w.addr = &addr;
		unsigned clients = 1 + (unsigned)g.below(3);
		for (unsigned i = 0; i <= clients; i++) {
			w.nodes.emplace_back(new Node());
			Node *x = w.nodes.back().get();
			x->w = &w;
			x->idx = (int)i;
			x->external = g.flip();
			x->ctx = x->external ? new pomp::Context(x, &w.loop) : new pomp::Context(x);
			if (x->external)
				CHECK(x->ctx->getLoop() == &w.loop, "getLoop");
			else
				CHECK(x->ctx->getLoop()->get() != nullptr && x->ctx->getFd() >= 0 &&
				      x->ctx->getFd() == pomp_loop_get_fd(x->ctx->getLoop()->get()), "getLoop");
			if (w.raw)
				CHECK(x->ctx->setRaw() == 0, "setRaw");
		}
		if (file) {
			Node *x = w.nodes[0].get();
			CHECK(x->ctx->listen(addr, mode) == 0, "listen with a mode");
			struct stat st;
			CHECK(stat(path.c_str(), &st) == 0 && (st.st_mode & 0777) == mode, "mode %o, expected %o", st.st_mode & 0777, mode);
			x->started = true;
			LABEL("access mode");
		} else {
			w.start(w.nodes[0].get());
		}
		uint32_t l = 0;
		const struct sockaddr *sa = w.nodes[0]->ctx->getLocalAddr(&l);
		CHECK(sa && l > 2 && memcmp(sa, addr.addr(), std::min(l, addr.len())) == 0, "getLocalAddr");
		for (unsigned i = 1; i <= clients; i++)
			w.start(w.nodes[i].get());
		for (unsigned i = 0; i < 40 && g.more(20); i++) {
			Node *x = w.nodes[g.below(w.nodes.size())].get();
			switch (g.weighted({8, 8, 1, 1, 2, 1})) {
			case 0: w.step(); break;
			case 1:
				w.send(x, x->conns.empty() || g.flip() ? nullptr : x->conns[g.below(x->conns.size())]);
				break;
			case 2:
				note("%d stop", x->idx);
				w.stop(x);
				break;
			case 3:
				note("%d start", x->idx);
				w.start(x);
				break;
			case 4: vf_advance((uint64_t)(100 + g.below(2500)) * 1000000); break;
			default:
				if (!x->conns.empty()) {
					pomp::Connection *c = x->conns[g.below(x->conns.size())];
					w.cutting(x, c);
					note("%d disconnects", x->idx);
					c->disconnect();
				}
				break;
			}
		}
		// everything that can arrive does
		w.calm = true;
		for (unsigned i = 0; i < 400; i++) {
			w.step();
			bool left = false;
			for (auto &k : w.links)
				if (!k->cut && k->up[0])
					left |= !k->up[1] || !k->q[0].empty() || !k->q[1].empty() || !k->raw[0].empty() || !k->raw[1].empty();
			if (!left)
				break;
			CHECK(i < 399, "what was sent on a connection that is up does not arrive");
		}
		for (auto &x : w.nodes) {
			if (x->started)
				w.stop(x.get());
		}
		for (int i = 0; i < 20; i++)
			w.step();
		for (auto &x : w.nodes)
			CHECK(x->conns.empty(), "%d: %zu connections were not disconnected by stop", x->idx, x->conns.size());
		if (w.delivered >= 3)
			nontrivial();
		if (w.relays)
			LABEL("relay");
		w.nodes.clear();
	}
	if (!path.empty()) {
		struct stat st;
		CHECK(stat(path.c_str(), &st) < 0, "the socket file is left");
		rmdir(dir);
	}
	cl.verify();
}

PBT_TARGET(c28_dgram, "datagram contexts exchanging messages with sendMsgTo, by address and by Address; non-trivial: 3 deliveries", 1)
{
	Clean cl;
	{
		struct D : public pomp::EventHandler {
			Gen *g;
			std::deque<Sent> q;
			unsigned *delivered;
			void onConnected(pomp::Context *, pomp::Connection *) override { fail("a datagram context connects"); }
			void onDisconnected(pomp::Context *, pomp::Connection *) override { fail("a datagram context disconnects"); }
			void recvMessage(pomp::Context *, pomp::Connection *, const pomp::Message &m) override
			{
				CHECK(!q.empty(), "a datagram that was not sent");
				Sent x = q.front();
				q.pop_front();
				verify(*g, "datagram", m, x.id, x.v, x.f);
				(*delivered)++;
			}
		};
		unsigned delivered = 0;
		pomp::Loop loop;
		D h[2];
		h[0].g = h[1].g = &g;
		h[0].delivered = h[1].delivered = &delivered;
		pomp::Context a(&h[0], &loop), b(&h[1], &loop), *c[2] = {&a, &b};
		// one address per process: the ports may be shared between sockets
		char host[32];
		snprintf(host, sizeof(host), "127.%d.%d.%d", 1 + ((int)getpid() >> 16 & 127), (int)getpid() >> 8 & 255, (int)getpid() & 255);
		pomp::Address any((std::string("inet:") + host + ":0").c_str());
		World w(g);
		std::string names[2];
		for (int i = 0; i < 2; i++) {
			CHECK(c[i]->bind(any) == 0, "bind");
			uint32_t l = 0;
			const struct sockaddr_in *sa = (const struct sockaddr_in *)c[i]->getLocalAddr(&l);
			CHECK(sa && l == sizeof(*sa) && sa->sin_port, "getLocalAddr");
			names[i] = std::string("inet:") + host + ":" + std::to_string(ntohs(sa->sin_port));
			if (i && names[0] == names[1]) { // the system may give the same port twice (SO_REUSEADDR)
				CHECK(c[1]->stop() == 0, "stop");
				loop.waitAndProcess(0);
				i = 0;
			}
		}
		for (unsigned i = 0; i < 12 && g.more(6); i++) {
			int t = (int)g.below(2);
			Sent x;
			do
				x.v = w.content(x.f, x.id);
			while (ref::message(x.id, x.v).size() > 4000);
			std::string fmt;
			for (auto &y : x.v)
				fmt += spec(g, y.ty, false);
			std::vector<Slot8> s = write_slots(g, x.v);
			VaList va(s);
			pomp::Message m;
			CHECK((x.f ? x.f->write(m, x.v) : m.writev(x.id, fmt.c_str(), va.ap)) == 0, "write");
			int r;
			if (g.flip()) {
				r = c[!t]->sendMsgTo(m, pomp::Address(names[t].c_str()));
			} else {
				uint32_t l = 0;
				const struct sockaddr *sa = c[t]->getLocalAddr(&l);
				r = c[!t]->sendMsgTo(m, sa, l);
			}
			CHECK(r == 0, "sendMsgTo: error %d", r);
			CHECK(c[!t]->sendMsg(m) < 0, "sendMsg on a datagram context");
			h[t].q.push_back(x);
			if (g.chance(1, 3))
				loop.waitAndProcess(0);
		}
		for (int i = 0; i < 50 && !(h[0].q.empty() && h[1].q.empty()); i++)
			loop.waitAndProcess(0);
		CHECK(h[0].q.empty() && h[1].q.empty(), "datagrams lost");
		if (delivered >= 3)
			nontrivial();
		a.stop();
		b.stop();
		for (int i = 0; i < 3; i++)
			loop.waitAndProcess(0);
	}
	cl.verify();
}

// ------------------------------------------------------------ loop, events, timers
namespace {
enum { NFD = 4, NEV = 3, NTM = 3 };
// the same operations on the C++ classes (cxx) and the C functions
struct Side {
	bool cxx;
	std::vector<std::string> log;
	int pipes[NFD][2];
	struct FdH : public pomp::Loop::Handler {
		Side *s;
		int i;
		void processFd(int fd, uint32_t ev) override { s->onfd(i, fd, ev); }
	} fdh[NFD];
	struct EvH : public pomp::Event::Handler {
		Side *s;
		int i;
		void processEvent() override { s->onev(i); }
	} evh[NEV];
	struct TmH : public pomp::Timer::Handler {
		Side *s;
		int i;
		void processTimer() override { s->ontm(i); }
	} tmh[NTM];
	std::unique_ptr<pomp::Loop::HandlerFunc> fdf[NFD];
	std::unique_ptr<pomp::Event::HandlerFunc> evf[NEV];
	std::unique_ptr<pomp::Timer::HandlerFunc> tmf[NTM];
	bool func[3];
	std::unique_ptr<pomp::Loop> loop, other;
	std::unique_ptr<pomp::Event> ev[NEV];
	std::unique_ptr<pomp::Timer> tm[NTM];
	struct pomp_loop *cloop = nullptr, *cother = nullptr;
	struct pomp_evt *cev[NEV];
	struct pomp_timer *ctm[NTM];
	struct Ud {
		Side *s;
		int i;
	} ud[8];

	void onfd(int i, int fd, uint32_t ev)
	{
		char b[64], c[16];
		snprintf(b, sizeof(b), "fd%d%s %x", i, fd == pipes[i][0] ? "" : " (wrong)", ev);
		log.push_back(b);
		if (read(fd, c, sizeof(c)) < 0)
			log.push_back("read");
	}
	void onev(int i) { log.push_back("ev" + std::to_string(i)); }
	void ontm(int i) { log.push_back("tm" + std::to_string(i)); }
	Side(bool x, unsigned f) : cxx(x)
	{
		for (int i = 0; i < 3; i++)
			func[i] = f >> i & 1;
		for (int i = 0; i < NFD; i++) {
			CHECK(pipe2(pipes[i], O_CLOEXEC | O_NONBLOCK) == 0, "pipe");
			fdh[i].s = this;
			fdh[i].i = i;
			fdf[i].reset(new pomp::Loop::HandlerFunc([this, i](int fd, uint32_t ev) { onfd(i, fd, ev); }));
		}
		for (int i = 0; i < NEV; i++) {
			evh[i].s = this;
			evh[i].i = i;
			evf[i].reset(new pomp::Event::HandlerFunc());
			evf[i]->set([this, i]() { onev(i); });
		}
		for (int i = 0; i < NTM; i++) {
			tmh[i].s = this;
			tmh[i].i = i;
			tmf[i].reset(new pomp::Timer::HandlerFunc([this, i]() { ontm(i); }));
		}
		for (int i = 0; i < 8; i++)
			ud[i] = {this, i};
		if (cxx) {
			loop.reset(new pomp::Loop());
			other.reset(new pomp::Loop());
			for (int i = 0; i < NEV; i++)
				ev[i].reset(new pomp::Event());
			for (int i = 0; i < NTM; i++)
				tm[i].reset(new pomp::Timer(loop.get(), func[2] ? (pomp::Timer::Handler *)tmf[i].get() : &tmh[i]));
		} else {
			cloop = pomp_loop_new();
			cother = pomp_loop_new();
			for (int i = 0; i < NEV; i++)
				cev[i] = pomp_evt_new();
			for (int i = 0; i < NTM; i++)
				ctm[i] = pomp_timer_new(cloop, [](struct pomp_timer *, void *u) { ((Ud *)u)->s->ontm(((Ud *)u)->i); }, &ud[i]);
		}
	}
	~Side()
	{
		for (int i = 0; i < NFD; i++) {
			if (cxx)
				loop->remove(pipes[i][0]);
			else
				pomp_loop_remove(cloop, pipes[i][0]);
			close(pipes[i][0]);
			close(pipes[i][1]);
		}
		for (int i = 0; i < NEV; i++) {
			if (cxx) {
				ev[i]->detachFromLoop(loop.get());
				ev[i]->detachFromLoop(other.get());
			} else {
				pomp_evt_detach_from_loop(cev[i], cloop);
				pomp_evt_detach_from_loop(cev[i], cother);
				pomp_evt_destroy(cev[i]);
			}
		}
		if (!cxx) {
			for (int i = 0; i < NTM; i++)
				pomp_timer_destroy(ctm[i]);
			pomp_loop_destroy(cloop);
			pomp_loop_destroy(cother);
		}
	}
	int op(unsigned what, unsigned i, uint32_t a, uint32_t b)
	{
		pomp::Loop *l = b & 1 ? other.get() : loop.get();
		struct pomp_loop *c = b & 1 ? cother : cloop;
		switch (what) {
		case 0:
			if (cxx)
				return loop->add(pipes[i][0], a, func[0] ? (pomp::Loop::Handler *)fdf[i].get() : &fdh[i]);
			return pomp_loop_add(cloop, pipes[i][0], a, [](int fd, uint32_t ev, void *u) { ((Ud *)u)->s->onfd(((Ud *)u)->i, fd, ev); }, &ud[i]);
		case 1: return cxx ? loop->update(pipes[i][0], a) : pomp_loop_update(cloop, pipes[i][0], a);
		case 2: return cxx ? loop->remove(pipes[i][0]) : pomp_loop_remove(cloop, pipes[i][0]);
		case 3: return cxx ? loop->hasFd(pipes[i][0]) : pomp_loop_has_fd(cloop, pipes[i][0]);
		case 4: return (int)write(pipes[i][1], "0123456789", 1 + a % 9);
		case 5: return cxx ? loop->waitAndProcess(0) : pomp_loop_wait_and_process(cloop, 0);
		case 6: return cxx ? loop->processFd() : pomp_loop_process_fd(cloop);
		case 7: return cxx ? loop->wakeup() : pomp_loop_wakeup(cloop);
		case 8: i %= NEV; return cxx ? ev[i]->signal() : pomp_evt_signal(cev[i]);
		case 9: i %= NEV; return cxx ? ev[i]->clear() : pomp_evt_clear(cev[i]);
		case 10:
			i %= NEV;
			if (cxx)
				return ev[i]->attachToLoop(l, func[1] ? (pomp::Event::Handler *)evf[i].get() : &evh[i]);
			return pomp_evt_attach_to_loop(cev[i], c, [](struct pomp_evt *, void *u) { ((Ud *)u)->s->onev(((Ud *)u)->i); }, &ud[i]);
		case 11: i %= NEV; return cxx ? ev[i]->detachFromLoop(l) : pomp_evt_detach_from_loop(cev[i], c);
		case 12:
			i %= NEV;
			if (a & 1)
				return cxx ? ev[i]->isAttached(nullptr) : pomp_evt_is_attached(cev[i], NULL);
			return cxx ? ev[i]->isAttached(l) : pomp_evt_is_attached(cev[i], c);
		case 13:
			i %= NTM;
			a = 1 + a % 1000;
			b = b % 3 ? 0 : 1 + b % 500;
			if (cxx)
				return b ? tm[i]->set(a, b) : tm[i]->set(a);
			return b ? pomp_timer_set_periodic(ctm[i], a, b) : pomp_timer_set(ctm[i], a);
		case 14:
			i %= NTM;
			a = 1 + a % 1000;
			b = 1 + b % 500;
			return cxx ? tm[i]->setPeriodic(a, b) : pomp_timer_set_periodic(ctm[i], a, b);
		case 15: i %= NTM; return cxx ? tm[i]->clear() : pomp_timer_clear(ctm[i]);
		case 16: return cxx ? other->waitAndProcess(0) : pomp_loop_wait_and_process(cother, 0);
		default: return cxx ? loop->getFd() == pomp_loop_get_fd(loop->get()) && loop->getFd() >= 0 && loop->get() == (struct pomp_loop *)*loop : pomp_loop_get_fd(cloop) >= 0;
		}
	}
};
} // namespace

PBT_TARGET(c28_loop, "one generated history of descriptors, events and timers run with the C++ classes and with the C functions: same results, same callbacks; "
	"non-trivial: 3 callbacks", 2)
{
	static const char *const names[] = {"add", "update", "remove", "has", "write", "wait", "process", "wakeup", "signal", "clear", "attach", "detach",
					    "attached", "timer", "periodic", "timer clear", "wait other", "get"};
	Clean cl;
	vf_virtual_time = 1;
	{
		unsigned f = (unsigned)g.below(8);
		Side x(true, f), c(false, f);
		unsigned calls = 0;
		for (unsigned i = 0; i < 80 && g.more(40); i++) {
			unsigned what = g.weighted({3, 2, 1, 1, 5, 10, 2, 1, 4, 1, 4, 1, 2, 3, 3, 1, 2, 1, 5});
			if (what == 18) {
				uint64_t ms = 1 + g.below(600);
				vf_advance(ms * 1000000);
				note("advance %u", (unsigned)ms);
				continue;
			}
			unsigned k = (unsigned)g.below(NFD);
			uint32_t a = (uint32_t)g.below(what <= 1 ? 32 : 4000), b = (uint32_t)g.below(4000);
			if (what <= 1)
				a = (a & (POMP_FD_EVENT_IN | POMP_FD_EVENT_PRI)) | (a & 16 ? 0 : (uint32_t)POMP_FD_EVENT_IN);
			x.log.clear();
			c.log.clear();
			int rx = x.op(what, k, a, b), rc = c.op(what, k, a, b);
			note("%s %u %u %u: %d", names[what], k, a, b, rc);
			CHECK(rx == rc, "%s: C++ returns %d, C %d", names[what], rx, rc);
			std::sort(x.log.begin(), x.log.end());
			std::sort(c.log.begin(), c.log.end());
			std::string sx, sc;
			for (auto &s : x.log)
				sx += s + " ";
			for (auto &s : c.log)
				sc += s + " ";
			CHECK(sx == sc, "%s: C++ handlers called: %s; C callbacks: %s", names[what], sx.c_str(), sc.c_str());
			calls += (unsigned)c.log.size();
		}
		if (calls >= 3)
			nontrivial();
	}
	vf_timers_reset();
	cl.verify();
}
