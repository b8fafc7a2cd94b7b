// C35: a loop that has nothing to do waits.
//
// After any history of contexts, connections, events, timers, idle functions, wakeups
// and descriptors, once the pending work was processed the loop must stay asleep: waits
// return -ETIMEDOUT, not before their timeout, and the descriptor of the loop is not
// readable.  What remains undone (data for suspended connections, queues that the peers
// do not read, timers not due, clients whose server is absent) must not wake it.
#include "loopimpl.hpp"
#include "net.hpp"
#include <algorithm>
#include <fcntl.h>
#include <poll.h>
#include <sys/un.h>
using namespace net;

namespace {
struct Quiet;
struct QNode {
	Quiet *q = nullptr;
	struct pomp_ctx *ctx = nullptr;
	bool on = false, raw = false, echo = false, kick = false, suspend = false, small = false;
	std::vector<struct pomp_conn *> conns;
	unsigned accepted = 0, reported = 0;
};
struct Quiet {
	Gen &g;
	struct pomp_loop *loop = nullptr;
	QNode n[6]; // 0: server, 1-3: clients, 4-5: datagrams
	std::vector<struct pomp_conn *> suspended;
	Addr saddr, absent, daddr[2];
	std::vector<int> foreign;
	struct pomp_evt *evt[2];
	bool att[2] = {false, false};
	struct pomp_timer *timer[2];
	unsigned calls = 0, kinds = 0, checks = 0, ups = 0, left = 0, known = 0;
	int pipes[2][2];
	int events[2] = {0, 0};
	bool poll = false;
	explicit Quiet(Gen &g_) : g(g_) {}
	bool is_suspended(struct pomp_conn *c) { return std::find(suspended.begin(), suspended.end(), c) != suspended.end(); }
};
void drop(std::vector<struct pomp_conn *> &v, struct pomp_conn *c)
{
	auto it = std::find(v.begin(), v.end(), c);
	if (it != v.end())
		v.erase(it);
}
void got(QNode *n, struct pomp_conn *c)
{
	n->q->calls++;
	if (n->suspend && c && n != &n->q->n[4] && n != &n->q->n[5] && pomp_conn_suspend_read(c) == 0 && !n->q->is_suspended(c))
		n->q->suspended.push_back(c);
	if (n->kick && c)
		pomp_conn_disconnect(c);
}
void q_event(struct pomp_ctx *, enum pomp_event ev, struct pomp_conn *c, const struct pomp_msg *msg, void *ud)
{
	QNode *n = (QNode *)ud;
	if (ev == POMP_EVENT_CONNECTED) {
		n->conns.push_back(c);
		n->q->ups++;
	} else if (ev == POMP_EVENT_DISCONNECTED) {
		drop(n->conns, c);
		drop(n->q->suspended, c);
	} else {
		if (n->echo && c)
			pomp_conn_send_msg(c, msg);
		got(n, c);
	}
}
void q_raw(struct pomp_ctx *, struct pomp_conn *c, struct pomp_buffer *b, void *ud)
{
	QNode *n = (QNode *)ud;
	if (n->echo && c)
		pomp_conn_send_raw_buf(c, b);
	got(n, c);
}
void q_sent(struct pomp_ctx *, struct pomp_conn *, struct pomp_buffer *, uint32_t, void *, void *ud) { ((QNode *)ud)->reported++; }
void q_sock(struct pomp_ctx *, int fd, enum pomp_socket_kind, void *ud)
{
	if (((QNode *)ud)->small) {
		int v = 2048;
		setsockopt(fd, SOL_SOCKET, SO_SNDBUF, &v, sizeof(v));
		setsockopt(fd, SOL_SOCKET, SO_RCVBUF, &v, sizeof(v));
	}
}
void q_fd(int fd, uint32_t, void *ud)
{
	char c[4096];
	((Quiet *)ud)->calls++;
	while (read(fd, c, sizeof(c)) > 0)
		;
}
void q_evt(struct pomp_evt *, void *ud) { ((Quiet *)ud)->calls++; }
void q_timer(struct pomp_timer *, void *ud) { ((Quiet *)ud)->calls++; }
void q_idle(void *ud) { ((Quiet *)ud)->calls++; }

// connections that are suspended and whose peer is entirely gone (the system always
// tells it)
unsigned hungup(Quiet &q)
{
	unsigned k = 0;
	for (auto c : q.suspended) {
		struct pollfd p = {pomp_conn_get_fd(c), 0, 0};
		if (poll(&p, 1, 0) == 1 && (p.revents & POLLHUP))
			k++;
	}
	return k;
}
bool asleep(Quiet &q, unsigned turns)
{
	for (unsigned i = 0, k = 0; i < turns; i++) {
		int r = pomp_loop_wait_and_process(q.loop, 0);
		CHECK(r == 0 || r == -ETIMEDOUT, "wait: %d", r);
		k = r == -ETIMEDOUT ? k + 1 : 0;
		if (k == 4)
			return true;
	}
	return false;
}
void quiet(Quiet &q)
{
	q.checks++;
	for (unsigned tries = 0;; tries++) {
		unsigned before = q.calls;
		if (asleep(q, 3000)) {
			if (!q.poll) {
				// those who wait on the descriptor of the loop are not woken either
				struct pollfd p = {(int)pomp_loop_get_fd(q.loop), POLLIN, 0};
				CHECK(p.fd >= 0, "get_fd");
				if (poll(&p, 1, 0) != 0) {
					CHECK(tries < 50, "the descriptor of the loop stays readable with nothing to do");
					continue;
				}
			}
			if (q.checks % 8 == 1) {
				uint64_t t0 = mono_ns();
				int r = pomp_loop_wait_and_process(q.loop, 2);
				uint64_t d = mono_ns() - t0;
				if (r == 0) {
					CHECK(tries < 50, "a wait of 2 ms keeps being ended with nothing to do");
					continue;
				}
				CHECK(r == -ETIMEDOUT, "wait: %d", r);
				CHECK(d >= 1900000, "a wait of 2 ms with nothing to do ended after %llu us", (unsigned long long)(d / 1000));
			}
			break;
		}
		unsigned pend = 0;
		for (auto &n : q.n)
			pend += n.accepted - n.reported;
		fail("the loop keeps being woken with nothing to do (%u callbacks in 3000 waits, %zu connections suspended, of which %u without peer, %u sends not "
		     "complete)", q.calls - before, q.suspended.size(), hungup(q), pend);
	}
	for (auto &n : q.n)
		if (n.on && n.accepted > n.reported)
			q.left |= 1;
	if (!q.suspended.empty())
		q.left |= 2;
	if (hungup(q))
		q.known++;
	if (vf_next_deadline() != UINT64_MAX)
		q.left |= 4;
}
void send_some(Quiet &q, QNode &n, struct pomp_conn *c)
{
	static const std::string big(70000, 'q');
	size_t len = q.g.chance(1, 3) ? q.g.below(70000) : q.g.below(300);
	int r;
	if (n.raw) {
		struct pomp_buffer *b = pomp_buffer_new_with_data(big.data(), len + 1);
		r = c ? pomp_conn_send_raw_buf(c, b) : pomp_ctx_send_raw_buf(n.ctx, b);
		pomp_buffer_unref(b);
	} else {
		r = c ? pomp_conn_send(c, 3, "%p%u", big.data(), (unsigned)len) : pomp_ctx_send(n.ctx, 3, "%p%u", big.data(), (unsigned)len);
	}
	note("  send %zu -> %d", len, r);
	if (r == 0 && c)
		n.accepted++;
}
void step(Quiet &q)
{
	Gen &g = q.g;
	unsigned k = (unsigned)g.weighted({6, 6, 6, 2, 6, 5, 2, 3, 3, 3, 2, 3, 8, 4, 6});
	q.kinds |= 1u << k;
	QNode &n = q.n[g.below(4)];
	struct pomp_conn *c = n.conns.empty() ? nullptr : n.conns[g.below(n.conns.size())];
	switch (k) {
	case 0: { // a context is started or stopped
		unsigned i = (unsigned)g.below(6);
		QNode &m = q.n[i];
		if (m.on) {
			note("ctx %u: stop", i);
			CHECK(pomp_ctx_stop(m.ctx) == 0, "stop");
			CHECK(m.conns.empty(), "connections left by stop");
			m.accepted = m.reported = 0;
		} else {
			bool away = g.chance(1, 4);
			int r = i == 0 ? pomp_ctx_listen(m.ctx, q.saddr.sa(), q.saddr.len) :
				i < 4 ? pomp_ctx_connect(m.ctx, away ? q.absent.sa() : q.saddr.sa(), away ? q.absent.len : q.saddr.len) :
				pomp_ctx_bind(m.ctx, q.daddr[i - 4].sa(), q.daddr[i - 4].len);
			note("ctx %u: start %s-> %d", i, away ? "away " : "", r);
			CHECK(r == 0, "start: %d", r);
		}
		m.on = !m.on;
		break;
	}
	case 1: // sends on a connection
	case 2:
		for (unsigned i = 1 + (unsigned)g.below(5); c && i > 0 && !n.conns.empty(); i--)
			send_some(q, n, c);
		break;
	case 3: { // datagrams
		QNode &m = q.n[4 + g.below(2)];
		const Addr &to = q.daddr[g.below(2)];
		if (!m.on)
			break;
		struct pomp_msg *msg = pomp_msg_new();
		pomp_msg_write(msg, 5, "%u", 5u);
		int r = m.raw ? pomp_ctx_send_raw_buf_to(m.ctx, pomp_msg_get_buffer(msg), to.sa(), to.len) : pomp_ctx_send_msg_to(m.ctx, msg, to.sa(), to.len);
		note("dgram -> %d", r);
		pomp_msg_destroy(msg);
		break;
	}
	case 4: { // peers that are not the library
		unsigned w = (unsigned)g.below(6);
		if (w == 0 || q.foreign.empty()) {
			if (!q.n[0].on || q.foreign.size() >= 4)
				break;
			int s = socket(q.saddr.ss.ss_family, SOCK_STREAM | SOCK_CLOEXEC | SOCK_NONBLOCK, 0), v = 2048;
			if (g.flip())
				setsockopt(s, SOL_SOCKET, SO_RCVBUF, &v, sizeof(v));
			int r = connect(s, q.saddr.sa(), q.saddr.len);
			note("peer connects: %d", r);
			q.foreign.push_back(s);
			break;
		}
		size_t i = g.below(q.foreign.size());
		int s = q.foreign[i];
		char junk[3000];
		memset(junk, 'P', sizeof(junk));
		note("peer %zu: %u", i, w);
		ssize_t r = 0;
		if (w == 1) {
			r = send(s, junk, 1 + g.below(sizeof(junk) - 1), MSG_NOSIGNAL);
		} else if (w == 2) {
			static const unsigned char head[12] = {'P', 'O', 'M', 'P', 1, 0, 0, 0, 100, 0, 0, 0};
			r = send(s, head, 1 + g.below(12), MSG_NOSIGNAL);
		} else if (w == 3) {
			shutdown(s, g.flip() ? SHUT_WR : SHUT_RDWR);
		} else if (w == 4) {
			r = recv(s, junk, 1 + g.below(sizeof(junk) - 1), 0);
		} else {
			struct linger l = {1, 0};
			if (g.flip())
				setsockopt(s, SOL_SOCKET, SO_LINGER, &l, sizeof(l));
			close(s);
			q.foreign.erase(q.foreign.begin() + (long)i);
		}
		(void)r;
		break;
	}
	case 5: // reading suspended, resumed
		if (!c)
			break;
		if (q.is_suspended(c) && g.flip()) {
			note("resume");
			CHECK(pomp_conn_resume_read(c) == 0, "resume");
			drop(q.suspended, c);
		} else {
			note("suspend");
			CHECK(pomp_conn_suspend_read(c) == 0, "suspend");
			if (!q.is_suspended(c))
				q.suspended.push_back(c);
		}
		break;
	case 6:
		if (c) {
			note("disconnect");
			pomp_conn_disconnect(c);
		}
		break;
	case 7: {
		unsigned i = (unsigned)g.below(2), w = (unsigned)g.below(3);
		uint32_t d = 1 + (uint32_t)g.below(3000), p = 1 + (uint32_t)g.below(3000);
		note("timer %u: %u", i, w);
		CHECK((w == 0 ? pomp_timer_set(q.timer[i], d) : w == 1 ? pomp_timer_set_periodic(q.timer[i], d, p) : pomp_timer_clear(q.timer[i])) == 0, "timer");
		break;
	}
	case 8: {
		unsigned i = (unsigned)g.below(2), w = (unsigned)g.below(4);
		note("event %u: %u", i, w);
		if (w == 0) {
			CHECK((q.att[i] ? pomp_evt_detach_from_loop(q.evt[i], q.loop) : pomp_evt_attach_to_loop(q.evt[i], q.loop, q_evt, &q)) == 0, "attach");
			q.att[i] = !q.att[i];
		} else if (w < 3) {
			CHECK(pomp_evt_signal(q.evt[i]) == 0, "signal");
		} else {
			CHECK(pomp_evt_clear(q.evt[i]) == 0, "clear");
		}
		break;
	}
	case 9: {
		unsigned w = (unsigned)g.below(5);
		note("idle %u", w);
		int cookie;
		static void *const ck = &cookie;
		CHECK((w < 2 ? pomp_loop_idle_add(q.loop, q_idle, &q) : w == 2 ? pomp_loop_idle_add_with_cookie(q.loop, q_idle, &q, ck) :
		       w == 3 ? pomp_loop_idle_remove(q.loop, q_idle, &q) : pomp_loop_idle_flush_by_cookie(q.loop, ck)) == 0, "idle");
		break;
	}
	case 10:
		note("wakeup");
		CHECK(pomp_loop_wakeup(q.loop) == 0, "wakeup");
		break;
	case 11: {
		unsigned i = (unsigned)g.below(2), w = (unsigned)g.below(4);
		int *p = q.pipes[i];
		note("pipe %u: %u", i, w);
		if (w == 0) {
			if (q.events[i])
				CHECK(pomp_loop_remove(q.loop, p[0]) == 0, "remove");
			else
				CHECK(pomp_loop_add(q.loop, p[0], POMP_FD_EVENT_IN, q_fd, &q) == 0, "add");
			q.events[i] = q.events[i] ? 0 : POMP_FD_EVENT_IN;
		} else if (w == 1 && q.events[i]) {
			q.events[i] = q.events[i] == POMP_FD_EVENT_IN ? POMP_FD_EVENT_PRI : POMP_FD_EVENT_IN;
			CHECK(pomp_loop_update(q.loop, p[0], (uint32_t)q.events[i]) == 0, "update");
		} else {
			ssize_t r = write(p[1], "x", 1);
			(void)r;
		}
		break;
	}
	case 12:
		for (unsigned i = 1 + (unsigned)g.below(6); i > 0; i--)
			pomp_loop_wait_and_process(q.loop, 0);
		break;
	case 13: {
		uint64_t ms = g.chance(1, 3) ? 2000 : g.below(4000);
		note("%llu ms pass", (unsigned long long)ms);
		vf_advance(ms * 1000000);
		break;
	}
	default:
		note("quiet?");
		quiet(q);
	}
}
} // namespace

PBT_TARGET(c35_quiet, "histories of a server, clients (some of an absent server), datagram contexts, foreign peers, suspended connections, slow readers, timers, "
	"events, idle functions, wakeups and pipes on one loop, which must be asleep each time its work was done; non-trivial: at least one connection, and "
	"something left undone (a queue, a suspended connection or a timer) when it was", 2, 60)
{
	Clean cl;
	Impls im;
	Quiet q(g);
	q.poll = g.flip();
	bool ptimer = g.chance(1, 4), pevt = g.chance(1, 3);
	CHECK(set_loop_impl(q.poll), "impl");
	set_evt_impl(pevt);
	set_timer_impl(ptimer);
	interruptions(g);
	vf_virtual_time = 1;
	q.loop = pomp_loop_new();
	CHECK(q.loop, "loop");
	Tr tr = (Tr)g.weighted({4, 2, 3, 1});
	q.saddr = make_addr(tr, tr == TCP4 || tr == TCP6 ? pick_port(tr == TCP6 && has_inet6() ? AF_INET6 : AF_INET) : 0);
	q.absent = q.saddr.ss.ss_family == AF_UNIX ? make_addr(UNIXA) : make_addr(TCP4, pick_port(AF_INET));
	note("loop %s, transport %d", q.poll ? "poll" : "epoll", (int)tr);
	bool raw = g.chance(1, 3);
	for (unsigned i = 0; i < 6; i++) {
		QNode &n = q.n[i];
		n.q = &q;
		n.raw = raw;
		n.small = g.flip();
		n.echo = i == 0 && g.chance(1, 3);
		n.suspend = g.chance(1, 4);
		n.kick = g.chance(1, 10);
		n.ctx = pomp_ctx_new_with_loop(q_event, &n, q.loop);
		CHECK(n.ctx, "ctx");
		if (raw)
			CHECK(pomp_ctx_set_raw(n.ctx, q_raw) == 0, "raw");
		CHECK(pomp_ctx_set_send_cb(n.ctx, q_sent) == 0 && pomp_ctx_set_socket_cb(n.ctx, q_sock) == 0, "cbs");
	}
	for (unsigned i = 0; i < 2; i++) {
		q.daddr[i] = dgram_addr(TCP4);
		q.evt[i] = pomp_evt_new();
		q.timer[i] = pomp_timer_new(q.loop, q_timer, &q);
		CHECK(q.evt[i] && q.timer[i] && pipe2(q.pipes[i], O_CLOEXEC | O_NONBLOCK) == 0, "objects");
		vf_protected[q.pipes[i][0]] = vf_protected[q.pipes[i][1]] = 1;
	}
	if (g.chance(3, 4))
		for (unsigned i = 0; i < 2; i++) {
			q.n[i].on = true;
			CHECK((i ? pomp_ctx_connect(q.n[i].ctx, q.saddr.sa(), q.saddr.len) : pomp_ctx_listen(q.n[i].ctx, q.saddr.sa(), q.saddr.len)) == 0, "start");
		}
	for (unsigned i = 4 + (unsigned)g.below(60); i > 0; i--)
		step(q);
	quiet(q);
	// each time something is due
	for (unsigned i = 0; i < 3 && vf_next_deadline() != UINT64_MAX; i++) {
		if (vf_next_deadline() > vf_now_ns)
			vf_advance(vf_next_deadline() - vf_now_ns);
		quiet(q);
	}
	for (auto &n : q.n)
		if (n.on)
			CHECK(pomp_ctx_stop(n.ctx) == 0, "stop");
	quiet(q);
	for (int s : q.foreign)
		close(s);
	for (auto &n : q.n)
		CHECK(pomp_ctx_destroy(n.ctx) == 0, "destroy");
	for (unsigned i = 0; i < 2; i++) {
		if (q.att[i])
			CHECK(pomp_evt_detach_from_loop(q.evt[i], q.loop) == 0, "detach");
		pomp_evt_destroy(q.evt[i]);
		pomp_timer_destroy(q.timer[i]);
		if (q.events[i])
			CHECK(pomp_loop_remove(q.loop, q.pipes[i][0]) == 0, "remove");
		for (int f : q.pipes[i]) {
			vf_protected[f] = 0;
			close(f);
		}
	}
	CHECK(pomp_loop_destroy(q.loop) == 0, "loop_destroy");
	if (tr == UNIXP)
		unlink(((const struct sockaddr_un *)q.saddr.sa())->sun_path);
	if (q.known)
		LABEL("a suspended connection whose peer was gone");
	if (q.ups && (q.left & 7))
		nontrivial();
	vf_reset();
	cl.verify();
}
