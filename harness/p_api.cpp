// C18: calls with wrong arguments or in a wrong state.  A world of objects of
// every kind is driven through its life; anywhere in it, also inside callbacks,
// calls that must be refused are made: they return the right error, leave every
// block, descriptor and visible state as it was, and what follows works.
#include "net.hpp"
#include <atomic>
#include <sys/eventfd.h>
using namespace net;

namespace {
enum Role { IDLE, SERVER, CLIENT, DGRAMC };
const char *const role_names[] = {"idle", "server", "client", "dgram"};
struct World18;
struct Cx {
	World18 *w;
	unsigned n;
	struct pomp_ctx *ctx = nullptr;
	Role role = IDLE;
	Role last = IDLE;
	bool raw = false, sendcb = false, stopping = false;
	int addr = -1;                  // index of the address
	std::set<struct pomp_conn *> up; // connections announced
	std::multiset<uint32_t> due;    // ids to come
	Addr bound;
	unsigned incb = 0;
	bool idle() const { return role == IDLE; }
};
struct World18 {
	Gen *g;
	struct pomp_loop *loop = nullptr, *loop2 = nullptr;
	bool poll;
	Cx cx[4];
	Addr addrs[3];
	int server[3] = {-1, -1, -1}; // context listening there
	struct pomp_msg *fin, *ini, *emp;
	struct pomp_buffer *own, *shared, *rawbuf;
	struct pomp_encoder *enc, *encfin, *enc0;
	struct pomp_decoder *dec, *decemp, *dec0;
	struct pomp_prot *prot;
	struct pomp_timer *timer;
	struct pomp_evt *att, *det;
	int efd = -1, efd2 = -1;
	unsigned seq = 0, misuses = 0, incb = 0, okcalls = 0, fdcalls = 0, evtcalls = 0, states = 0;
	unsigned timercalls = 0, idlecalls = 0;
	std::atomic<unsigned> wdcalls{0};
	bool timerdue = false, stuck = false;
	int depth = 0;
} *W;

void misuse(Gen &g);
void event_cb(struct pomp_ctx *ctx, enum pomp_event ev, struct pomp_conn *conn, const struct pomp_msg *msg, void *ud)
{
	Cx *c = (Cx *)ud;
	CHECK(c->ctx == ctx && !c->idle(), "event of a context that is not running");
	switch (ev) {
	case POMP_EVENT_CONNECTED:
		note("  c%u connected", c->n);
		CHECK(c->up.insert(conn).second, "connected twice");
		break;
	case POMP_EVENT_DISCONNECTED:
		note("  c%u disconnected", c->n);
		CHECK(c->up.erase(conn) == 1, "disconnected without having been connected");
		break;
	case POMP_EVENT_MSG: {
		uint32_t id = pomp_msg_get_id(msg);
		CHECK(!c->raw, "message on a raw context");
		auto it = c->due.find(id);
		CHECK(it != c->due.end(), "c%u received message %u, not for it", c->n, id);
		c->due.erase(it);
		break;
	}
	}
	if (W->incb < 4 && W->g->chance(1, 6)) {
		W->incb++;
		W->depth++;
		misuse(*W->g);
		W->depth--;
	}
}
void raw_cb(struct pomp_ctx *, struct pomp_conn *, struct pomp_buffer *buf, void *ud)
{
	Cx *c = (Cx *)ud;
	CHECK(c->raw, "raw data on a context that is not raw");
	(void)buf;
	auto it = c->due.find(~0u);
	CHECK(it != c->due.end(), "c%u received raw data, none for it", c->n);
	c->due.erase(it);
}
void sock_cb(struct pomp_ctx *, int, enum pomp_socket_kind, void *) {}
void send_cb(struct pomp_ctx *, struct pomp_conn *, struct pomp_buffer *, uint32_t, void *, void *ud)
{
	CHECK(((Cx *)ud)->sendcb, "send reported without a send callback");
}
void other_raw_cb(struct pomp_ctx *, struct pomp_conn *, struct pomp_buffer *, void *) { fail("callback of a refused call was called"); }
void other_sock_cb(struct pomp_ctx *, int, enum pomp_socket_kind, void *) { fail("callback of a refused call was called"); }
void other_send_cb(struct pomp_ctx *, struct pomp_conn *, struct pomp_buffer *, uint32_t, void *, void *) { fail("callback of a refused call was called"); }
void never_fd(int, uint32_t, void *) { fail("callback of a refused call was called"); }
void never_idle(void *) { fail("callback of a refused call was called"); }
void never_evt(struct pomp_evt *, void *) { fail("callback of a refused call was called"); }
void never_wd(struct pomp_loop *, void *) { fail("callback of a refused call was called"); }
void timer_cb(struct pomp_timer *t, void *ud)
{
	CHECK(t == W->timer && ud == W && W->timerdue, "the timer fired, %s", W->timerdue ? "wrong arguments" : "not set");
	W->timercalls++;
}
void never_timer(struct pomp_timer *, void *) { fail("the timer fired"); }
void idle_cb(void *ud)
{
	CHECK(ud == W, "user data");
	W->idlecalls++;
}
void wd_cb(struct pomp_loop *l, void *ud)
{
	CHECK(l == W->loop && ud == W, "watchdog: wrong arguments");
	W->wdcalls++;
}
void fd_cb(int fd, uint32_t, void *ud)
{
	uint64_t v;
	CHECK(ud == W && fd == W->efd, "user data");
	(void)!read(fd, &v, sizeof(v));
	W->fdcalls++;
	if (W->stuck) { // until the watchdog tells
		W->stuck = false;
		for (unsigned i = 0; i < 100000 && W->wdcalls == 0; i++)
			usleep(100);
	}
}
void evt_cb(struct pomp_evt *evt, void *ud)
{
	CHECK(evt == W->att && ud == W, "user data");
	W->evtcalls++;
}

void add_buf(std::string &s, const struct pomp_buffer *b)
{
	const void *d = nullptr;
	size_t len = 0, cap = 0;
	if (!b) {
		s += "none;";
		return;
	}
	CHECK(pomp_buffer_get_cdata(b, &d, &len, &cap) == 0, "get_cdata");
	s += std::to_string(len) + "/" + std::to_string(cap) + "/" + std::to_string(pomp_buffer_is_shared(b)) + ":";
	if (d && len)
		s.append((const char *)d, len);
	s += ";";
}
// everything that can be seen without changing it
std::string snapshot()
{
	std::string s;
	for (auto &c : W->cx) {
		if (!c.ctx)
			continue;
		s += "c" + std::to_string(c.n) + ":";
		CHECK(pomp_ctx_get_loop(c.ctx) == W->loop, "get_loop");
		if (c.role == SERVER)
			for (struct pomp_conn *k = pomp_ctx_get_next_conn(c.ctx, nullptr); k; k = pomp_ctx_get_next_conn(c.ctx, k))
				s += std::to_string((uintptr_t)k) + "/" + std::to_string(pomp_conn_get_fd(k)) + ",";
		if (c.role == CLIENT)
			s += std::to_string((uintptr_t)pomp_ctx_get_conn(c.ctx));
		uint32_t len = 0;
		const struct sockaddr *a = c.role == IDLE ? nullptr : pomp_ctx_get_local_addr(c.ctx, &len);
		if (a)
			s.append((const char *)a, len);
		s += ";";
	}
	for (auto m : {W->fin, W->ini, W->emp}) {
		s += "m" + std::to_string(pomp_msg_get_id(m)) + ":";
		add_buf(s, pomp_msg_get_buffer(m));
	}
	add_buf(s, W->own);
	add_buf(s, W->shared);
	add_buf(s, W->rawbuf);
	for (auto e : {W->att, W->det})
		for (auto l : {W->loop, W->loop2, (struct pomp_loop *)nullptr})
			s += std::to_string(pomp_evt_is_attached(e, l));
	for (auto f : {W->efd, W->efd2})
		s += std::to_string(pomp_loop_has_fd(W->loop, f)) + std::to_string(pomp_loop_has_fd(W->loop2, f));
	return s;
}
void refused(const char *what, const std::function<long()> &f, long want)
{
	std::string before = snapshot();
	long live = vf_live;
	uint64_t fds = vf_fd_set_hash();
	long r = f();
	note("%s%s -> %ld", W->depth ? "    in callback: " : "", what, r);
	if (want == 1)
		CHECK(r < 0, "%s returned %ld, an error expected", what, r);
	else
		CHECK(r == want, "%s returned %ld, %ld expected", what, r, want);
	CHECK(vf_live == live, "%s: %ld blocks of memory %s", what, labs(vf_live - live), vf_live > live ? "leaked" : "released");
	CHECK(vf_fd_set_hash() == fds, "%s opened or closed a descriptor", what);
	CHECK(snapshot() == before, "%s changed something", what);
	W->misuses++;
}
int v_ctx_sendv(struct pomp_ctx *c, uint32_t id, const char *fmt, ...)
{
	va_list ap;
	va_start(ap, fmt);
	int r = pomp_ctx_sendv(c, id, fmt, ap);
	va_end(ap);
	return r;
}
int v_conn_sendv(struct pomp_conn *c, uint32_t id, const char *fmt, ...)
{
	va_list ap;
	va_start(ap, fmt);
	int r = pomp_conn_sendv(c, id, fmt, ap);
	va_end(ap);
	return r;
}
int v_msg_writev(struct pomp_msg *m, uint32_t id, const char *fmt, ...)
{
	va_list ap;
	va_start(ap, fmt);
	int r = pomp_msg_writev(m, id, fmt, ap);
	va_end(ap);
	return r;
}
int v_msg_readv(const struct pomp_msg *m, const char *fmt, ...)
{
	va_list ap;
	va_start(ap, fmt);
	int r = pomp_msg_readv(m, fmt, ap);
	va_end(ap);
	return r;
}
int v_enc_writev(struct pomp_encoder *e, const char *fmt, ...)
{
	va_list ap;
	va_start(ap, fmt);
	int r = pomp_encoder_writev(e, fmt, ap);
	va_end(ap);
	return r;
}
int v_dec_readv(struct pomp_decoder *d, const char *fmt, ...)
{
	va_list ap;
	va_start(ap, fmt);
	int r = pomp_decoder_readv(d, fmt, ap);
	va_end(ap);
	return r;
}

// Entry k of the list of calls to refuse; returns the number of entries
#pragma GCC diagnostic ignored "-Wformat"
#pragma GCC diagnostic ignored "-Wformat-zero-length"
unsigned entry(unsigned k, Gen &g)
{
	unsigned i = 0;
#define M(expr, want) if (i++ == k) { refused(#expr, [&]() -> long { return (long)(expr); }, want); return 0; }
#define MIF(cond, expr, want) if (i++ == k) { if (cond) { W->states++; refused(#expr, [&]() -> long { return (long)(expr); }, want); } return 0; }
	Cx *c = nullptr; // some context
	struct pomp_conn *conn = nullptr;
	for (unsigned n = (unsigned)(k != ~0u ? g.below(4) : 0), j = 0; j < 4 && !c; j++)
		if (W->cx[(n + j) % 4].ctx)
			c = &W->cx[(n + j) % 4];
	struct pomp_ctx *x = c ? c->ctx : nullptr;
	bool on = c && c->role != IDLE;
	const Addr &a = W->addrs[k != ~0u ? g.below(3) : 0];
	if (on && !c->up.empty())
		conn = *c->up.begin();
	struct sockaddr_storage ss;
	memset(&ss, 0, sizeof(ss));
	struct sockaddr *sa = (struct sockaddr *)&ss;
	uint32_t len = 0, u32 = 0;
	void *p = nullptr;
	const void *cp = nullptr;
	size_t sz = 0, pos = 0;
	char text[64] = "";
	char *str = nullptr;
	const char *cstr = nullptr;
	int fd = 0;
	struct pomp_msg *m = nullptr;
	union { int8_t i8; uint8_t u8; int16_t i16; uint16_t u16; int32_t i32; uint32_t u32; int64_t i64; uint64_t u64; float f; double d; } v;
	memset(&v, 0, sizeof(v));

	// contexts: null or wrong arguments
	M(pomp_ctx_new_with_loop(event_cb, nullptr, nullptr), 0)
	M(pomp_ctx_set_raw(nullptr, raw_cb), -EINVAL)
	M(pomp_ctx_set_socket_cb(nullptr, sock_cb), -EINVAL)
	M(pomp_ctx_set_send_cb(nullptr, send_cb), -EINVAL)
	MIF(x, pomp_ctx_set_raw(x, nullptr), -EINVAL)
	MIF(x, pomp_ctx_set_socket_cb(x, nullptr), -EINVAL)
	MIF(x, pomp_ctx_set_send_cb(x, nullptr), -EINVAL)
	M(pomp_ctx_setup_keepalive(nullptr, 1, 5, 2, 1), -EINVAL)
	M(pomp_ctx_destroy(nullptr), -EINVAL)
	M(pomp_ctx_listen(nullptr, a.sa(), a.len), -EINVAL)
	M(pomp_ctx_listen_with_access_mode(nullptr, a.sa(), a.len, 0600), -EINVAL)
	M(pomp_ctx_connect(nullptr, a.sa(), a.len), -EINVAL)
	M(pomp_ctx_bind(nullptr, a.sa(), a.len), -EINVAL)
	MIF(x, pomp_ctx_listen(x, nullptr, a.len), -EINVAL)
	MIF(x, pomp_ctx_listen_with_access_mode(x, nullptr, a.len, 0600), -EINVAL)
	MIF(x, pomp_ctx_connect(x, nullptr, a.len), -EINVAL)
	MIF(x, pomp_ctx_bind(x, nullptr, a.len), -EINVAL)
	M(pomp_ctx_stop(nullptr), -EINVAL)
	M(pomp_ctx_get_loop(nullptr), 0)
	M(pomp_ctx_get_fd(nullptr), -EINVAL)
	M(pomp_ctx_process_fd(nullptr), -EINVAL)
	M(pomp_ctx_wait_and_process(nullptr, 0), -EINVAL)
	M(pomp_ctx_wakeup(nullptr), -EINVAL)
	M(pomp_ctx_get_next_conn(nullptr, nullptr), 0)
	M(pomp_ctx_get_conn(nullptr), 0)
	M(pomp_ctx_get_local_addr(nullptr, &len), 0)
	MIF(x, pomp_ctx_get_local_addr(x, nullptr), 0)
	M(pomp_ctx_send_msg(nullptr, W->fin), -EINVAL)
	MIF(x, pomp_ctx_send_msg(x, nullptr), -EINVAL)
	M(pomp_ctx_send_msg_to(nullptr, W->fin, a.sa(), a.len), -EINVAL)
	MIF(x, pomp_ctx_send_msg_to(x, nullptr, a.sa(), a.len), -EINVAL)
	MIF(x, pomp_ctx_send_msg_to(x, W->fin, nullptr, 0), -EINVAL)
	M(pomp_ctx_send(nullptr, 1, "%d", 1), -EINVAL)
	M(v_ctx_sendv(nullptr, 1, "%d", 1), -EINVAL)
	M(pomp_ctx_send_raw_buf(nullptr, W->rawbuf), -EINVAL)
	MIF(x, pomp_ctx_send_raw_buf(x, nullptr), -EINVAL)
	M(pomp_ctx_send_raw_buf_to(nullptr, W->rawbuf, a.sa(), a.len), -EINVAL)
	MIF(x, pomp_ctx_send_raw_buf_to(x, nullptr, a.sa(), a.len), -EINVAL)
	MIF(x, pomp_ctx_send_raw_buf_to(x, W->rawbuf, nullptr, 0), -EINVAL)
	M(pomp_ctx_set_read_buffer_len(nullptr, 100), -EINVAL)
	MIF(x, pomp_ctx_set_read_buffer_len(x, 0), -EINVAL)
	// contexts: wrong state
	for (int rep = 0; rep < 2; rep++) { // more often
		MIF(on, pomp_ctx_set_raw(x, other_raw_cb), -EBUSY)
		MIF(on, pomp_ctx_set_socket_cb(x, other_sock_cb), -EBUSY)
		MIF(on, pomp_ctx_set_send_cb(x, other_send_cb), -EBUSY)
		MIF(on, pomp_ctx_set_raw(x, raw_cb), -EBUSY) // also what is already set
		MIF(on, pomp_ctx_set_socket_cb(x, sock_cb), -EBUSY)
		MIF(on, pomp_ctx_set_send_cb(x, send_cb), -EBUSY)
		MIF(on, pomp_ctx_destroy(x), -EBUSY)
		MIF(on, pomp_ctx_listen(x, a.sa(), a.len), -EBUSY)
		MIF(on, pomp_ctx_connect(x, a.sa(), a.len), -EBUSY)
		MIF(on, pomp_ctx_bind(x, a.sa(), a.len), -EBUSY)
		MIF(on, pomp_ctx_listen_with_access_mode(x, a.sa(), a.len, 0666), -EBUSY)
		MIF(x && !on, pomp_ctx_listen(x, sa, 4096), -EINVAL)
		MIF(x && !on, pomp_ctx_connect(x, sa, 4096), -EINVAL)
		MIF(x && !on, pomp_ctx_bind(x, sa, 4096), -EINVAL)
		MIF(on && c->role == CLIENT && c->up.empty(), pomp_ctx_send_msg(x, W->fin), -ENOTCONN)
		MIF(on && c->role == CLIENT && c->up.empty(), pomp_ctx_send(x, 7, "%s", "x"), -ENOTCONN)
		MIF(on && c->role == CLIENT && c->up.empty() && c->raw, pomp_ctx_send_raw_buf(x, W->rawbuf), -ENOTCONN)
		MIF(on && c->role == DGRAMC, pomp_ctx_send_msg(x, W->fin), -ENOTCONN)
		MIF(on && c->role == DGRAMC, pomp_ctx_send(x, 7, "%d", 7), -ENOTCONN)
		MIF(on && c->role == DGRAMC, pomp_ctx_send_msg_to(x, W->fin, a.sa(), (uint32_t)sizeof(struct sockaddr_storage) + 1 + (uint32_t)(len & 0xfff)), -EINVAL)
		MIF(on && c->role == DGRAMC && c->raw, pomp_ctx_send_raw_buf(x, W->rawbuf), -ENOTCONN)
		MIF(x && c->role != DGRAMC, pomp_ctx_send_msg_to(x, W->fin, a.sa(), a.len), -EINVAL)
		MIF(x && c->role != DGRAMC, pomp_ctx_send_raw_buf_to(x, W->rawbuf, a.sa(), a.len), -EINVAL)
		MIF(x && !c->raw, pomp_ctx_send_raw_buf(x, W->rawbuf), -EINVAL)
		MIF(x && !c->raw, pomp_ctx_send_raw_buf_to(x, W->rawbuf, a.sa(), a.len), -EINVAL)
		MIF(on && c->role != SERVER, pomp_ctx_get_next_conn(x, nullptr), 0)
		MIF(on && c->role != CLIENT, pomp_ctx_get_conn(x), 0)
		MIF(on && c->role == CLIENT, pomp_ctx_get_local_addr(x, &len), 0)
		MIF(on, pomp_ctx_send(x, 7, "%y", 1), -EINVAL)
		MIF(on, pomp_ctx_send(x, 7, "%d%s", 1, (char *)nullptr), -EINVAL)
		MIF(on && c->role == CLIENT && conn, pomp_ctx_send_msg(x, W->emp), -EINVAL)
		MIF(conn && c->role != DGRAMC, pomp_conn_send_msg(conn, W->emp), -EINVAL)
	}
	// connections
	M(pomp_conn_disconnect(nullptr), -EINVAL)
	M(pomp_conn_get_local_addr(nullptr, &len), 0)
	M(pomp_conn_get_peer_addr(nullptr, &len), 0)
	MIF(conn, pomp_conn_get_local_addr(conn, nullptr), 0)
	MIF(conn, pomp_conn_get_peer_addr(conn, nullptr), 0)
	M(pomp_conn_get_peer_cred(nullptr), 0)
	M(pomp_conn_get_fd(nullptr), -EINVAL)
	M(pomp_conn_suspend_read(nullptr), -EINVAL)
	M(pomp_conn_resume_read(nullptr), -EINVAL)
	M(pomp_conn_send_msg(nullptr, W->fin), -EINVAL)
	MIF(conn, pomp_conn_send_msg(conn, nullptr), -EINVAL)
	M(pomp_conn_send(nullptr, 1, "%d", 1), -EINVAL)
	M(v_conn_sendv(nullptr, 1, "%d", 1), -EINVAL)
	MIF(conn, pomp_conn_send(conn, 1, "%d%", 1), -EINVAL)
	M(pomp_conn_send_raw_buf(nullptr, W->rawbuf), -EINVAL)
	MIF(conn, pomp_conn_send_raw_buf(conn, nullptr), -EINVAL)
	M(pomp_conn_set_read_buffer_len(nullptr, 10), -EINVAL)
	MIF(conn, pomp_conn_set_read_buffer_len(conn, 0), -EINVAL)
	// buffers
	M(pomp_buffer_new_copy(nullptr), 0)
	M(pomp_buffer_is_shared(nullptr), 0)
	M(pomp_buffer_set_capacity(nullptr, 10), -EINVAL)
	M(pomp_buffer_ensure_capacity(nullptr, 10), -EINVAL)
	M(pomp_buffer_set_len(nullptr, 10), -EINVAL)
	M(pomp_buffer_get_data(nullptr, &p, &sz, &sz), -EINVAL)
	M(pomp_buffer_get_cdata(nullptr, &cp, &sz, &sz), -EINVAL)
	M(pomp_buffer_append_data(nullptr, "x", 1), -EINVAL)
	M(pomp_buffer_append_data(W->own, nullptr, 1), -EINVAL)
	M(pomp_buffer_append_buffer(nullptr, W->own), -EINVAL)
	M(pomp_buffer_append_buffer(W->own, nullptr), -EINVAL)
	M(pomp_buffer_write(nullptr, &pos, "x", 1), -EINVAL)
	M(pomp_buffer_write(W->own, nullptr, "x", 1), -EINVAL)
	M(pomp_buffer_write(W->own, &pos, nullptr, 1), -EINVAL)
	M(pomp_buffer_read(nullptr, &pos, text, 1), -EINVAL)
	M(pomp_buffer_read(W->own, nullptr, text, 1), -EINVAL)
	M(pomp_buffer_read(W->own, &pos, nullptr, 1), -EINVAL)
	M(pomp_buffer_cread(nullptr, &pos, &cp, 1), -EINVAL)
	M(pomp_buffer_cread(W->own, nullptr, &cp, 1), -EINVAL)
	M(pomp_buffer_cread(W->own, &pos, nullptr, 1), -EINVAL)
	M(pomp_buffer_read(W->own, &pos, text, 60), -EINVAL)
	M(pomp_buffer_set_len(W->own, 100000), -EINVAL)
	M(pomp_buffer_set_capacity(W->own, 0), -EINVAL)
	M(pomp_buffer_set_len(W->shared, 1), -EPERM)
	M(pomp_buffer_set_capacity(W->shared, 1000), -EPERM)
	M(pomp_buffer_ensure_capacity(W->shared, 1000), -EPERM)
	M(pomp_buffer_append_data(W->shared, "x", 1), -EPERM)
	M(pomp_buffer_append_buffer(W->shared, W->own), -EPERM)
	M(pomp_buffer_write(W->shared, &pos, "x", 1), -EPERM)
	M(pomp_buffer_get_data(W->shared, &p, &sz, &sz), -EPERM)
	// messages
	M(pomp_msg_new_copy(nullptr), 0)
	M(pomp_msg_new_with_buffer(nullptr), 0)
	M(pomp_msg_new_with_buffer(W->own), 0)
	M(pomp_msg_destroy(nullptr), -EINVAL)
	M(pomp_msg_get_id(nullptr), 0)
	M(pomp_msg_get_buffer(nullptr), 0)
	M(pomp_msg_init(nullptr, 1), -EINVAL)
	M(pomp_msg_finish(nullptr), -EINVAL)
	M(pomp_msg_clear(nullptr), -EINVAL)
	M(pomp_msg_init(W->ini, 999), -EPERM)
	M(pomp_msg_init(W->fin, 999), -EPERM)
	M(pomp_msg_finish(W->fin), -EINVAL)
	M(pomp_msg_finish(W->emp), -EINVAL)
	M(pomp_msg_write(nullptr, 1, "%d", 1), -EINVAL)
	M(v_msg_writev(nullptr, 1, "%d", 1), -EINVAL)
	M(pomp_msg_write(W->fin, 1, "%d", 1), -EPERM)
	M(v_msg_writev(W->ini, 1, "%d", 1), -EPERM)
	M(pomp_msg_write_argv(nullptr, 1, "%d", 1, (const char *const[]){"1"}), -EINVAL)
	M(pomp_msg_write_argv(W->fin, 1, "%d", 1, (const char *const[]){"1"}), -EPERM)
	M(pomp_msg_read(nullptr, "%d", &fd), -EINVAL)
	M(v_msg_readv(nullptr, "%d", &fd), -EINVAL)
	M(v_msg_readv(W->emp, "%d", &fd), 1)
	M(pomp_msg_dump(nullptr, text, sizeof(text)), -EINVAL)
	M(pomp_msg_dump(W->fin, nullptr, 10), -EINVAL)
	M(pomp_msg_dump(W->emp, text, sizeof(text)), -EINVAL)
	M(pomp_msg_adump(nullptr, &str), -EINVAL)
	M(pomp_msg_adump(W->fin, nullptr), -EINVAL)
	M(pomp_msg_adump(W->emp, &str), -EINVAL)
	// encoders: none, without a message, on a finished message
	M(pomp_encoder_destroy(nullptr), -EINVAL)
	M(pomp_encoder_init(nullptr, W->ini), -EINVAL)
	M(pomp_encoder_init(W->enc, nullptr), -EINVAL)
	M(pomp_encoder_clear(nullptr), -EINVAL)
	for (int e = 0; e < 3; e++) {
		struct pomp_encoder *en = e == 0 ? nullptr : e == 1 ? W->enc0 : W->encfin;
		long want = e == 2 ? -EPERM : -EINVAL;
		M(pomp_encoder_write(en, "%d", 1), want)
		M(v_enc_writev(en, "%d", 1), want)
		M(pomp_encoder_write_argv(en, "%d", 1, (const char *const[]){"1"}), want)
		M(pomp_encoder_write_i8(en, 1), want)
		M(pomp_encoder_write_u8(en, 1), want)
		M(pomp_encoder_write_i16(en, 1), want)
		M(pomp_encoder_write_u16(en, 1), want)
		M(pomp_encoder_write_i32(en, 1), want)
		M(pomp_encoder_write_u32(en, 1), want)
		M(pomp_encoder_write_i64(en, 1), want)
		M(pomp_encoder_write_u64(en, 1), want)
		M(pomp_encoder_write_str(en, "s"), want)
		M(pomp_encoder_write_buf(en, "s", 1), want)
		M(pomp_encoder_write_f32(en, 1), want)
		M(pomp_encoder_write_f64(en, 1), want)
		M(pomp_encoder_write_fd(en, W->efd), want)
	}
	M(pomp_encoder_write_str(W->enc, nullptr), -EINVAL)
	M(pomp_encoder_write_buf(W->enc, nullptr, 3), -EINVAL)
	M(pomp_encoder_write_fd(W->enc, -1), 1)
	// decoders: none, without a message, on an empty message
	M(pomp_decoder_destroy(nullptr), -EINVAL)
	M(pomp_decoder_init(nullptr, W->fin), -EINVAL)
	M(pomp_decoder_init(W->dec, nullptr), -EINVAL)
	M(pomp_decoder_clear(nullptr), -EINVAL)
	for (int e = 0; e < 3; e++) {
		struct pomp_decoder *de = e == 0 ? nullptr : e == 1 ? W->dec0 : W->decemp;
		M(pomp_decoder_read(de, "%d", &fd), -EINVAL)
		M(v_dec_readv(de, "%d", &fd), -EINVAL)
		M(pomp_decoder_dump(de, text, sizeof(text)), -EINVAL)
		M(pomp_decoder_adump(de, &str), -EINVAL)
		M(pomp_decoder_read_i8(de, &v.i8), -EINVAL)
		M(pomp_decoder_read_u8(de, &v.u8), -EINVAL)
		M(pomp_decoder_read_i16(de, &v.i16), -EINVAL)
		M(pomp_decoder_read_u16(de, &v.u16), -EINVAL)
		M(pomp_decoder_read_i32(de, &v.i32), -EINVAL)
		M(pomp_decoder_read_u32(de, &v.u32), -EINVAL)
		M(pomp_decoder_read_i64(de, &v.i64), -EINVAL)
		M(pomp_decoder_read_u64(de, &v.u64), -EINVAL)
		M(pomp_decoder_read_str(de, &str), -EINVAL)
		M(pomp_decoder_read_cstr(de, &cstr), -EINVAL)
		M(pomp_decoder_read_buf(de, &p, &u32), -EINVAL)
		M(pomp_decoder_read_cbuf(de, &cp, &u32), -EINVAL)
		M(pomp_decoder_read_f32(de, &v.f), -EINVAL)
		M(pomp_decoder_read_f64(de, &v.d), -EINVAL)
		M(pomp_decoder_read_fd(de, &fd), -EINVAL)
	}
	M(pomp_decoder_dump(W->dec, nullptr, 5), -EINVAL)
	M(pomp_decoder_adump(W->dec, nullptr), -EINVAL)
	M(pomp_decoder_read_i8(W->dec, nullptr), -EINVAL)
	M(pomp_decoder_read_u8(W->dec, nullptr), -EINVAL)
	M(pomp_decoder_read_i16(W->dec, nullptr), -EINVAL)
	M(pomp_decoder_read_u16(W->dec, nullptr), -EINVAL)
	M(pomp_decoder_read_i32(W->dec, nullptr), -EINVAL)
	M(pomp_decoder_read_u32(W->dec, nullptr), -EINVAL)
	M(pomp_decoder_read_i64(W->dec, nullptr), -EINVAL)
	M(pomp_decoder_read_u64(W->dec, nullptr), -EINVAL)
	M(pomp_decoder_read_str(W->dec, nullptr), -EINVAL)
	M(pomp_decoder_read_cstr(W->dec, nullptr), -EINVAL)
	M(pomp_decoder_read_buf(W->dec, nullptr, &u32), -EINVAL)
	M(pomp_decoder_read_buf(W->dec, &p, nullptr), -EINVAL)
	M(pomp_decoder_read_cbuf(W->dec, nullptr, &u32), -EINVAL)
	M(pomp_decoder_read_cbuf(W->dec, &cp, nullptr), -EINVAL)
	M(pomp_decoder_read_f32(W->dec, nullptr), -EINVAL)
	M(pomp_decoder_read_f64(W->dec, nullptr), -EINVAL)
	M(pomp_decoder_read_fd(W->dec, nullptr), -EINVAL)
	// protocol decoder
	M(pomp_prot_destroy(nullptr), -EINVAL)
	M(pomp_prot_decode_msg(nullptr, "POMP", 4, &m), -EINVAL)
	M(pomp_prot_decode_msg(W->prot, nullptr, 4, &m), -EINVAL)
	M(pomp_prot_decode_msg(W->prot, "POMP", 4, nullptr), -EINVAL)
	M(pomp_prot_release_msg(nullptr, W->fin), -EINVAL)
	M(pomp_prot_release_msg(W->prot, nullptr), -EINVAL)
	// loops
	M(pomp_loop_destroy(nullptr), -EINVAL)
	M(pomp_loop_destroy(W->loop), -EBUSY)
	M(pomp_loop_add(nullptr, W->efd, POMP_FD_EVENT_IN, never_fd, nullptr), -EINVAL)
	M(pomp_loop_add(W->loop, -1, POMP_FD_EVENT_IN, never_fd, nullptr), -EINVAL)
	M(pomp_loop_add(W->loop, W->efd2, 0, never_fd, nullptr), -EINVAL)
	M(pomp_loop_add(W->loop, W->efd2, POMP_FD_EVENT_IN, nullptr, nullptr), -EINVAL)
	M(pomp_loop_add(W->loop, W->efd, POMP_FD_EVENT_IN, never_fd, nullptr), -EEXIST)
	M(pomp_loop_update(nullptr, W->efd, POMP_FD_EVENT_OUT), -EINVAL)
	M(pomp_loop_update(W->loop, -1, POMP_FD_EVENT_OUT), -EINVAL)
	M(pomp_loop_update(W->loop, W->efd2, POMP_FD_EVENT_OUT), -ENOENT)
	M(pomp_loop_update(W->loop2, W->efd, POMP_FD_EVENT_OUT), -ENOENT)
	M(pomp_loop_update2(nullptr, W->efd, POMP_FD_EVENT_OUT, 0), -EINVAL)
	M(pomp_loop_update2(W->loop, -1, POMP_FD_EVENT_OUT, 0), -EINVAL)
	M(pomp_loop_update2(W->loop, W->efd2, POMP_FD_EVENT_OUT, 0), -ENOENT)
	M(pomp_loop_remove(nullptr, W->efd), -EINVAL)
	M(pomp_loop_remove(W->loop, -1), -EINVAL)
	M(pomp_loop_remove(W->loop, W->efd2), -ENOENT)
	M(pomp_loop_remove(W->loop2, W->efd), -ENOENT)
	M(pomp_loop_get_fd(nullptr), -EINVAL)
	MIF(W->poll, pomp_loop_get_fd(W->loop), -ENOSYS)
	M(pomp_loop_process_fd(nullptr), -EINVAL)
	M(pomp_loop_wait_and_process(nullptr, 0), -EINVAL)
	M(pomp_loop_wakeup(nullptr), -EINVAL)
	M(pomp_loop_idle_add(nullptr, never_idle, nullptr), -EINVAL)
	M(pomp_loop_idle_add(W->loop, nullptr, nullptr), -EINVAL)
	M(pomp_loop_idle_add_with_cookie(nullptr, never_idle, nullptr, text), -EINVAL)
	M(pomp_loop_idle_add_with_cookie(W->loop, nullptr, nullptr, text), -EINVAL)
	M(pomp_loop_idle_add_with_cookie(W->loop, never_idle, nullptr, nullptr), -EINVAL)
	M(pomp_loop_idle_remove(nullptr, never_idle, nullptr), -EINVAL)
	M(pomp_loop_idle_remove_by_cookie(nullptr, text), -EINVAL)
	M(pomp_loop_idle_remove_by_cookie(W->loop, nullptr), -EINVAL)
	M(pomp_loop_idle_flush(nullptr), -EINVAL)
	M(pomp_loop_idle_flush_by_cookie(nullptr, text), -EINVAL)
	M(pomp_loop_idle_flush_by_cookie(W->loop, nullptr), -EINVAL)
	M(pomp_loop_watchdog_enable(nullptr, 10000, never_wd, nullptr), -EINVAL)
	M(pomp_loop_watchdog_enable(W->loop, 0, never_wd, nullptr), -EINVAL)
	M(pomp_loop_watchdog_enable(W->loop, 10000, nullptr, nullptr), -EINVAL)
	M(pomp_loop_watchdog_disable(nullptr), -EINVAL)
	// events
	M(pomp_evt_destroy(nullptr), -EINVAL)
	M(pomp_evt_destroy(W->att), -EBUSY)
	M(pomp_evt_attach_to_loop(nullptr, W->loop, never_evt, nullptr), -EINVAL)
	M(pomp_evt_attach_to_loop(W->det, nullptr, never_evt, nullptr), -EINVAL)
	M(pomp_evt_attach_to_loop(W->det, W->loop, nullptr, nullptr), -EINVAL)
	M(pomp_evt_attach_to_loop(W->att, W->loop, never_evt, nullptr), -EEXIST)
	M(pomp_evt_attach_to_loop(W->att, W->loop2, never_evt, nullptr), -EEXIST)
	M(pomp_evt_detach_from_loop(nullptr, W->loop), -EINVAL)
	M(pomp_evt_detach_from_loop(W->att, nullptr), -EINVAL)
	M(pomp_evt_detach_from_loop(W->att, W->loop2), -EINVAL)
	M(pomp_evt_detach_from_loop(W->det, W->loop), -ENOENT)
	M(pomp_evt_signal(nullptr), -EINVAL)
	M(pomp_evt_clear(nullptr), -EINVAL)
	// timers
	M(pomp_timer_new(nullptr, never_timer, nullptr), 0)
	M(pomp_timer_new(W->loop, nullptr, nullptr), 0)
	M(pomp_timer_destroy(nullptr), -EINVAL)
	M(pomp_timer_set(nullptr, 10), -EINVAL)
	M(pomp_timer_set_periodic(nullptr, 10, 10), -EINVAL)
	M(pomp_timer_clear(nullptr), -EINVAL)
	// addresses
	len = sizeof(ss);
	M(pomp_addr_parse(nullptr, sa, &len), -EINVAL)
	M(pomp_addr_parse("inet:127.0.0.1:80", nullptr, &len), -EINVAL)
	M(pomp_addr_parse("inet:127.0.0.1:80", sa, nullptr), -EINVAL)
	M(pomp_addr_format(nullptr, 10, a.sa(), a.len), -EINVAL)
	M(pomp_addr_format(text, 0, a.sa(), a.len), -EINVAL)
	M(pomp_addr_format(text, sizeof(text), nullptr, a.len), -EINVAL)
	M(pomp_addr_format(text, sizeof(text), a.sa(), 1), -EINVAL)
	M(pomp_addr_get_real_addr(nullptr, &str), -EINVAL)
	M(pomp_addr_get_real_addr("unix:x", nullptr), -EINVAL)
	M(pomp_internal_set_loop_impl((enum pomp_loop_impl)77), -EINVAL)
	M(pomp_internal_set_timer_impl((enum pomp_timer_impl)77), -EINVAL)
	return i;
}
void misuse(Gen &g)
{
	static unsigned n = 0;
	if (!n)
		n = entry(~0u, g);
	entry((unsigned)g.below(n), g);
}

void settle()
{
	for (int i = 0, quiet = 0; i < 500 && quiet < 2; i++)
		quiet = pomp_loop_wait_and_process(W->loop, 0) == -ETIMEDOUT ? quiet + 1 : 0;
	for (auto &c : W->cx) {
		if (c.stopping) {
			c.stopping = false;
			c.role = IDLE;
		}
		CHECK(c.due.empty(), "c%u has not received %zu message(s)", c.n, c.due.size());
	}
}
void quiet_end(Cx &c)
{
	if (c.role == SERVER)
		W->server[c.addr] = -1;
	for (auto &o : W->cx)
		if (o.role != IDLE)
			o.due.clear();
}
void op(Gen &g)
{
	Cx &c = W->cx[g.below(4)];
	int r, want;
	if (!c.ctx) {
		c.ctx = pomp_ctx_new_with_loop(event_cb, &c, W->loop);
		CHECK(c.ctx, "ctx_new_with_loop");
		note("c%u new", c.n);
		c.raw = c.sendcb = false;
		c.role = c.last = IDLE;
		return;
	}
	W->okcalls++;
	switch (g.weighted({120, 60, 100, 40, 40, 40, 40, 60, 40, 25, 25, 25, 1})) {
	case 0: { // start
		int a = (int)g.below(2), what = (int)g.below(5);
		Addr d = dgram_addr(TCP4);
		if (!c.idle())
			break; // refused calls are elsewhere
		if (what <= 1) {
			if (W->server[a] >= 0)
				a = 1 - a;
			bool mixed = W->server[a] >= 0;
			for (auto &o : W->cx)
				mixed = mixed || (o.role == CLIENT && o.addr == a && o.raw != c.raw);
			if (mixed)
				break; // both ends are raw, or none
			r = what == 0 ? pomp_ctx_listen(c.ctx, W->addrs[a].sa(), W->addrs[a].len) :
				pomp_ctx_listen_with_access_mode(c.ctx, W->addrs[a].sa(), W->addrs[a].len, 0600);
			note("c%u listen on %d -> %d", c.n, a, r);
			CHECK(r == 0, "listen failed: %d", r);
			c.role = SERVER;
			c.addr = a;
			W->server[a] = (int)c.n;
		} else if (what <= 3) {
			if (W->server[a] >= 0 && W->cx[W->server[a]].raw != c.raw)
				break; // both ends are raw, or none
			c.role = CLIENT; // before: an immediate connection would be announced
			c.addr = a;
			r = pomp_ctx_connect(c.ctx, W->addrs[a].sa(), W->addrs[a].len);
			note("c%u connect to %d -> %d", c.n, a, r);
			CHECK(r == 0, "connect failed: %d", r);
		} else {
			uint32_t len = 0;
			r = pomp_ctx_bind(c.ctx, d.sa(), d.len);
			note("c%u bind -> %d", c.n, r);
			CHECK(r == 0, "bind failed: %d", r);
			c.role = DGRAMC;
			const struct sockaddr *sa = pomp_ctx_get_local_addr(c.ctx, &len);
			CHECK(sa && len == sizeof(struct sockaddr_in), "local address of a bound context");
			memcpy(&c.bound.ss, sa, len);
			c.bound.len = len;
		}
		c.last = c.role;
		break;
	}
	case 1: // stop
		note("c%u stop (%s)", c.n, role_names[c.role]);
		quiet_end(c);
		if (!c.idle())
			c.stopping = true;
		CHECK((r = pomp_ctx_stop(c.ctx)) == 0, "stop returned %d", r);
		if (!c.idle()) {
			CHECK(c.up.empty(), "connections left after a stop");
			c.role = IDLE;
			c.stopping = false;
		}
		break;
	case 2: { // send
		uint32_t id = 1000 + W->seq++;
		if (c.raw) {
			if (c.role == CLIENT && !c.up.empty()) {
				CHECK((r = pomp_ctx_send_raw_buf(c.ctx, W->rawbuf)) == 0, "raw send returned %d", r);
				W->cx[W->server[c.addr]].due.insert(~0u);
				note("c%u raw send", c.n);
			}
			break;
		}
		if (c.role == CLIENT && !c.up.empty()) {
			r = g.flip() ? pomp_ctx_send(c.ctx, id, "%u", 5u) : pomp_conn_send(*c.up.begin(), id, "%s", "text");
			note("c%u send %u -> %d", c.n, id, r);
			CHECK(r == 0, "send returned %d", r);
			W->cx[W->server[c.addr]].due.insert(id);
		} else if (c.role == SERVER) {
			r = pomp_ctx_send(c.ctx, id, "%u", 5u);
			note("c%u broadcast %u -> %d", c.n, id, r);
			CHECK(r == 0, "broadcast returned %d", r);
			for (auto &o : W->cx)
				if (o.role == CLIENT && o.addr == c.addr && !o.up.empty())
					o.due.insert(id);
		} else if (c.role == DGRAMC) {
			Cx *to = nullptr;
			for (auto &o : W->cx)
				if (o.role == DGRAMC && !o.raw)
					to = &o;
			if (!to)
				break;
			struct pomp_msg *m = pomp_msg_new();
			CHECK(pomp_msg_write(m, id, "%u", 1u) == 0, "write");
			r = pomp_ctx_send_msg_to(c.ctx, m, to->bound.sa(), to->bound.len);
			pomp_msg_destroy(m);
			note("c%u send %u to c%u -> %d", c.n, id, to->n, r);
			CHECK(r == 0, "send_to returned %d", r);
			to->due.insert(id);
		}
		break;
	}
	case 3: // settings, allowed before the start
		if (!c.idle())
			break;
		if (!c.raw && g.chance(1, 3)) {
			CHECK(pomp_ctx_set_raw(c.ctx, raw_cb) == 0, "set_raw");
			c.raw = true;
		}
		if (g.flip()) {
			CHECK(pomp_ctx_set_send_cb(c.ctx, send_cb) == 0, "set_send_cb");
			c.sendcb = true;
		}
		if (g.flip())
			CHECK(pomp_ctx_set_socket_cb(c.ctx, sock_cb) == 0, "set_socket_cb");
		note("c%u settings raw=%d", c.n, c.raw);
		break;
	case 4: // settings allowed at any time
		CHECK(pomp_ctx_set_read_buffer_len(c.ctx, 64 + g.below(5000)) == 0, "set_read_buffer_len"); // a datagram fits
		CHECK((r = pomp_ctx_setup_keepalive(c.ctx, (int)g.below(2), 5, 2, 1)) == 0, "setup_keepalive returned %d", r);
		break;
	case 5: // destroy
		if (!c.idle())
			break;
		want = 0;
		CHECK((r = pomp_ctx_destroy(c.ctx)) == want, "destroy returned %d", r);
		note("c%u destroyed", c.n);
		c.ctx = nullptr;
		break;
	case 6: // disconnect
		if (c.up.empty())
			break;
		note("c%u disconnect", c.n);
		CHECK(pomp_conn_disconnect(*c.up.begin()) == 0, "disconnect");
		if (g.flip())
			refused("pomp_conn_send after disconnect", [&]() -> long { return pomp_conn_send(*c.up.begin(), 3, "%d", 1); }, -ENOTCONN);
		break;
	case 7:
		note("2 s pass");
		vf_advance(2000000000ull);
		break;
	case 8: { // the other objects still work
		uint64_t one = 1;
		unsigned f = W->fdcalls, e = W->evtcalls;
		(void)!write(W->efd, &one, sizeof(one));
		CHECK(pomp_evt_signal(W->att) == 0, "signal");
		settle();
		CHECK(W->fdcalls == f + 1 && W->evtcalls == e + 1, "callbacks of the descriptor (%u) and event (%u) called", W->fdcalls - f, W->evtcalls - e);
		uint32_t a = 0;
		const char *s = nullptr;
		pomp_decoder_clear(W->dec);
		CHECK(pomp_decoder_init(W->dec, W->fin) == 0 && pomp_decoder_read_u32(W->dec, &a) == 0 && pomp_decoder_read_cstr(W->dec, &s) == 0 &&
		      a == 42 && !strcmp(s, "hello"), "the message can not be read");
		pomp_decoder_clear(W->dec);
		CHECK(pomp_decoder_init(W->dec, W->fin) == 0, "init");
		break;
	}
	case 9: { // a timer that is set goes off when it should, and again if periodic, until cleared
		uint32_t d = 1 + (uint32_t)g.below(1000), per = g.flip() ? 1 + (uint32_t)g.below(1000) : 0;
		note("timer %u %u", d, per);
		auto some = [&] {
			if (g.flip())
				refused("pomp_timer_set(NULL)", [&]() -> long { return pomp_timer_set(nullptr, 1); }, -EINVAL);
			for (unsigned k = (unsigned)g.below(3); k > 0; k--)
				misuse(g);
		};
		W->timercalls = 0;
		W->timerdue = true;
		CHECK((per ? pomp_timer_set_periodic(W->timer, d, per) : pomp_timer_set(W->timer, d)) == 0, "timer_set");
		some();
		if (d > 1) {
			vf_advance((d - 1) * 1000000ull);
			settle();
			CHECK(W->timercalls == 0, "the timer of %u ms went off after %u", d, d - 1);
			some();
			vf_advance(1000000ull);
		} else {
			vf_advance(d * 1000000ull);
		}
		settle();
		CHECK(W->timercalls == 1, "the timer of %u ms went off %u times", d, W->timercalls);
		some();
		vf_advance((per ? per : d) * 1000000ull);
		settle();
		CHECK(W->timercalls == 1 + !!per, "the timer of %u ms, period %u, went off %u times", d, per, W->timercalls);
		CHECK(pomp_timer_clear(W->timer) == 0, "timer_clear");
		W->timerdue = false;
		break;
	}
	case 10: { // an idle function is called once
		unsigned n = W->idlecalls, k = 1 + (unsigned)g.below(3), gone = 0;
		note("%u idle function(s)", k);
		for (unsigned i = 0; i < k; i++)
			CHECK(pomp_loop_idle_add_with_cookie(W->loop, idle_cb, W, (void *)(uintptr_t)(i + 1)) == 0, "idle_add");
		if (g.flip()) {
			gone = 1;
			CHECK(pomp_loop_idle_remove_by_cookie(W->loop, (void *)(uintptr_t)(1 + g.below(k))) == 0, "idle_remove_by_cookie");
		}
		if (g.flip())
			refused("pomp_loop_destroy(with idle functions)", [&]() -> long { return pomp_loop_destroy(W->loop); }, -EBUSY);
		for (unsigned i = (unsigned)g.below(4); i > 0; i--)
			misuse(g);
		settle();
		CHECK(W->idlecalls == n + k - gone, "%u idle functions called, %u expected", W->idlecalls - n, k - gone);
		break;
	}
	case 11: { // a message half received
		const void *d = nullptr;
		size_t len = 0;
		CHECK(pomp_buffer_get_cdata(pomp_msg_get_buffer(W->fin), &d, &len, nullptr) == 0, "get_cdata");
		size_t cut = 1 + g.below(len - 1);
		struct pomp_msg *m = nullptr;
		note("message cut at %zu", cut);
		CHECK(pomp_prot_decode_msg(W->prot, d, cut, &m) == (int)cut && !m, "decode_msg");
		for (unsigned i = (unsigned)g.below(4); i > 0; i--)
			misuse(g);
		CHECK(pomp_prot_decode_msg(W->prot, (const char *)d + cut, len - cut, &m) == (int)(len - cut) && m, "decode_msg: no message");
		const void *e = nullptr;
		size_t n = 0;
		CHECK(pomp_buffer_get_cdata(pomp_msg_get_buffer(m), &e, &n, nullptr) == 0 && n == len && !memcmp(d, e, n), "decode_msg: another message");
		CHECK(pomp_prot_release_msg(W->prot, m) == 0, "release_msg");
		break;
	}
	case 12: { // a dispatch that takes too long is noticed, in real time
		note("watchdog");
		LABEL("watchdog");
		CHECK(pomp_loop_watchdog_enable(W->loop, 5, wd_cb, W) == 0, "watchdog_enable");
		refused("pomp_loop_destroy(in use)", [&]() -> long { return pomp_loop_destroy(W->loop); }, -EBUSY);
		refused("pomp_loop_watchdog_enable(no delay)", [&]() -> long { return pomp_loop_watchdog_enable(W->loop, 0, wd_cb, W); }, -EINVAL);
		refused("pomp_loop_watchdog_enable(no callback)", [&]() -> long { return pomp_loop_watchdog_enable(W->loop, 5, nullptr, W); }, -EINVAL);
		for (unsigned i = (unsigned)g.below(4); i > 0; i--)
			misuse(g);
		settle();
		vf_virtual_time = 0;
		W->wdcalls = 0;
		W->stuck = true;
		uint64_t one = 1;
		(void)!write(W->efd, &one, sizeof(one));
		for (unsigned i = 0; i < 5 && W->stuck; i++)
			pomp_loop_wait_and_process(W->loop, 1000);
		vf_virtual_time = 1;
		CHECK(!W->stuck && W->wdcalls > 0, "the watchdog does not notice");
		CHECK(pomp_loop_watchdog_disable(W->loop) == 0, "watchdog_disable");
		break;
	}
	}
	settle();
}
} // namespace

PBT_TARGET(c18_misuse, "histories of four contexts and one object of every other kind, with calls that must be refused at random points, also inside "
	"callbacks; non-trivial: 5 or more refused calls, at least one because of the state of a context or connection")
{
	Clean cl;
	Impls im;
	World18 w;
	W = &w;
	w.g = &g;
	w.poll = g.flip();
	CHECK(set_loop_impl(w.poll), "impl");
	vf_virtual_time = 1;
	w.loop = pomp_loop_new();
	w.loop2 = pomp_loop_new();
	for (unsigned i = 0; i < 4; i++) {
		w.cx[i].w = &w;
		w.cx[i].n = i;
	}
	w.addrs[0] = make_addr(UNIXA);
	w.addrs[1] = make_addr(UNIXA);
	w.addrs[2] = make_addr(TCP4, 9);
	w.fin = pomp_msg_new();
	w.ini = pomp_msg_new();
	w.emp = pomp_msg_new();
	CHECK(pomp_msg_write(w.fin, 77, "%u%s", 42u, "hello") == 0 && pomp_msg_init(w.ini, 78) == 0, "messages");
	w.own = pomp_buffer_new_with_data("0123456789", 10);
	w.shared = pomp_buffer_new_with_data("abcdefghij", 10);
	pomp_buffer_ref(w.shared);
	w.rawbuf = pomp_buffer_new_with_data("raw", 3);
	w.enc = pomp_encoder_new();
	w.encfin = pomp_encoder_new();
	w.enc0 = pomp_encoder_new();
	CHECK(pomp_encoder_init(w.enc, w.ini) == 0 && pomp_encoder_init(w.encfin, w.fin) == 0 &&
	      pomp_encoder_write_u8(w.enc, 3) == 0, "encoders");
	w.dec = pomp_decoder_new();
	w.decemp = pomp_decoder_new();
	w.dec0 = pomp_decoder_new();
	CHECK(pomp_decoder_init(w.dec, w.fin) == 0 && pomp_decoder_init(w.decemp, w.emp) == 0, "decoders");
	w.prot = pomp_prot_new();
	w.timer = pomp_timer_new(w.loop, timer_cb, &w);
	w.att = pomp_evt_new();
	w.det = pomp_evt_new();
	w.efd = eventfd(0, EFD_NONBLOCK | EFD_CLOEXEC);
	w.efd2 = eventfd(0, EFD_NONBLOCK | EFD_CLOEXEC);
	CHECK(w.loop && w.loop2 && w.own && w.shared && w.rawbuf && w.prot && w.timer && w.att && w.det && w.efd >= 0 && w.efd2 >= 0, "objects");
	CHECK(pomp_evt_attach_to_loop(w.att, w.loop, evt_cb, &w) == 0 && pomp_loop_add(w.loop, w.efd, POMP_FD_EVENT_IN, fd_cb, &w) == 0, "set up");
	unsigned n = 3 + (unsigned)g.below(60);
	for (unsigned i = 0; i < n; i++) {
		w.incb = 0;
		op(g);
		for (unsigned k = (unsigned)g.below(4); k > 0; k--)
			misuse(g);
	}
	settle();
	for (auto &c : w.cx)
		if (c.ctx) {
			c.stopping = true;
			CHECK(pomp_ctx_stop(c.ctx) == 0, "stop");
			c.role = IDLE;
		}
	for (auto &c : w.cx)
		if (c.ctx)
			CHECK(pomp_ctx_destroy(c.ctx) == 0, "destroy");
	// the message under construction can still be finished
	CHECK(pomp_encoder_write_u32(w.enc, 7) == 0 && pomp_msg_finish(w.ini) == 0, "the message under construction can not be completed");
	unsigned u = 0;
	uint8_t b = 0;
	CHECK(pomp_msg_read(w.ini, "%hhu%u", &b, &u) == 0 && u == 7 && b == 3, "the message under construction was changed");
	std::string bytes;
	add_buf(bytes, w.own);
	CHECK(bytes.find(":0123456789;") != std::string::npos, "buffer");
	CHECK(pomp_loop_remove(w.loop, w.efd) == 0 && pomp_evt_detach_from_loop(w.att, w.loop) == 0, "remove");
	CHECK(pomp_evt_destroy(w.att) == 0 && pomp_evt_destroy(w.det) == 0 && pomp_timer_destroy(w.timer) == 0, "destroy");
	CHECK(pomp_prot_destroy(w.prot) == 0, "prot");
	for (auto d : {w.dec, w.decemp, w.dec0})
		CHECK(pomp_decoder_destroy(d) == 0, "decoder");
	for (auto e : {w.enc, w.encfin, w.enc0})
		CHECK(pomp_encoder_destroy(e) == 0, "encoder");
	pomp_buffer_unref(w.own);
	pomp_buffer_unref(w.shared);
	pomp_buffer_unref(w.shared);
	pomp_buffer_unref(w.rawbuf);
	for (auto m : {w.fin, w.ini, w.emp})
		CHECK(pomp_msg_destroy(m) == 0, "message");
	CHECK(pomp_loop_destroy(w.loop) == 0 && pomp_loop_destroy(w.loop2) == 0, "loop");
	close(w.efd);
	close(w.efd2);
	if (w.misuses >= 5 && w.states)
		nontrivial();
	vf_reset();
	cl.verify();
}
