// A small world of contexts connected to each other in one loop, with a model
// of what each connection has been given, has written and must deliver.
#pragma once
#include "loopimpl.hpp"
#include <arpa/inet.h>
#include <deque>
#include <errno.h>
#include <map>
#include <memory>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <set>
#include <signal.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <unistd.h>

namespace net {
using namespace pbt;


enum Tr { UNIXA, UNIXP, TCP4, TCP6 };
static const char *const tr_names[] = {"unix abstract", "unix path", "tcp4", "tcp6"};

struct Addr {
	struct sockaddr_storage ss;
	socklen_t len = 0;
	Addr() { memset(&ss, 0, sizeof(ss)); }
	const struct sockaddr *sa() const { return (const struct sockaddr *)&ss; }
	bool operator==(const Addr &o) const { return len == o.len && memcmp(&ss, &o.ss, len) == 0; }
	std::string key() const { return std::string((const char *)&ss, len); }
};
static inline std::string scratch_dir()
{
	const char *d = getenv("TMPDIR");
	return d && *d ? d : "/tmp";
}
static inline unsigned &serial()
{
	static unsigned n;
	return n;
}
static inline bool has_inet6()
{
	static int ok = -1;
	if (ok < 0) {
		struct sockaddr_in6 a;
		int s = socket(AF_INET6, SOCK_STREAM, 0);
		memset(&a, 0, sizeof(a));
		a.sin6_family = AF_INET6;
		a.sin6_addr = in6addr_loopback;
		ok = s >= 0 && bind(s, (struct sockaddr *)&a, sizeof(a)) == 0;
		if (s >= 0)
			close(s);
	}
	return ok;
}
static inline Addr make_addr(Tr t, unsigned port = 0)
{
	Addr a;
	if (t == TCP4 || (t == TCP6 && !has_inet6())) {
		struct sockaddr_in *s = (struct sockaddr_in *)&a.ss;
		s->sin_family = AF_INET;
		// an address of its own for each process, so that ports do not collide
		s->sin_addr.s_addr = htonl(0x7f400000u | ((unsigned)getpid() & 0x3fffffu));
		s->sin_port = htons((uint16_t)port);
		a.len = sizeof(*s);
	} else if (t == TCP6) {
		struct sockaddr_in6 *s = (struct sockaddr_in6 *)&a.ss;
		s->sin6_family = AF_INET6;
		s->sin6_addr = in6addr_loopback;
		s->sin6_port = htons((uint16_t)port);
		a.len = sizeof(*s);
	} else {
		struct sockaddr_un *s = (struct sockaddr_un *)&a.ss;
		char name[100];
		s->sun_family = AF_UNIX;
		if (t == UNIXP) {
			snprintf(name, sizeof(name), "%s/s%d_%u", scratch_dir().c_str(), (int)getpid(), serial()++);
			strcpy(s->sun_path, name);
			a.len = sizeof(*s);
		} else {
			int n = snprintf(name, sizeof(name), "vp%d_%u", (int)getpid(), serial()++);
			memcpy(s->sun_path + 1, name, n);
			a.len = (socklen_t)(offsetof(struct sockaddr_un, sun_path) + 1 + n);
		}
	}
	return a;
}
static inline Addr sock_name(int fd, bool peer)
{
	Addr a;
	a.len = sizeof(a.ss);
	if ((peer ? getpeername(fd, (struct sockaddr *)&a.ss, &a.len) : getsockname(fd, (struct sockaddr *)&a.ss, &a.len)) < 0)
		a.len = 0;
	return a;
}
// free tcp port outside of the range of automatic ones
static inline unsigned pick_port(int family)
{
	static unsigned next;
	if (next == 0)
		next = 10000 + (unsigned)getpid() * 61 % 20000;
	for (int i = 0; i < 20000; i++) {
		unsigned port = 10000 + next++ % 20000;
		Addr a = make_addr(family == AF_INET6 ? TCP6 : TCP4, port);
		int s = socket(family, SOCK_STREAM, 0), one = 1;
		setsockopt(s, SOL_SOCKET, SO_REUSEADDR, &one, sizeof(one));
		bool ok = s >= 0 && bind(s, a.sa(), a.len) == 0 && listen(s, 1) == 0;
		close(s);
		if (ok)
			return port;
	}
	abort();
}

// an address for datagrams (the system would give two sockets the same port, as the
// library asks for the reuse of addresses)
static inline Addr dgram_addr(Tr t)
{
	static unsigned next;
	return make_addr(t, 10000 + (unsigned)getpid() % 800 * 25 + next++ % 25);
}

// How the system calls on stream sockets are restricted: a cycle of steps, each
// a number of bytes that may move, 0 for EAGAIN or -errno; then, after a given
// number of calls, no restriction.
struct Plan {
	std::vector<int> steps;
	size_t pos = 0;
	unsigned budget = 0;
	ssize_t next(size_t len)
	{
		if (budget == 0 || steps.empty())
			return (ssize_t)len;
		budget--;
		int s = steps[pos++ % steps.size()];
		return s == 0 ? -EAGAIN : (ssize_t)s;
	}
	void gen(Gen &g, bool rd, unsigned maxbudget)
	{
		static const int sizes[] = {1, 2, 3, 7, 11, 12, 13, 64, 255, 1000, 4095, 4096, 4097, 1 << 20};
		steps.clear();
		pos = 0;
		budget = 0;
		if (!g.chance(2, 3))
			return;
		unsigned n = 1 + (unsigned)g.below(8);
		bool some = false;
		for (unsigned i = 0; i < n; i++) {
			unsigned k = g.weighted({5, 3, 1});
			if (k == 1) {
				steps.push_back(0);
			} else if (k == 2) {
				steps.push_back(-EINTR);
			} else {
				steps.push_back(sizes[g.below(sizeof(sizes) / sizeof(*sizes))]);
				some = true;
			}
		}
		if (!some)
			steps.push_back(100);
		budget = 1 + (unsigned)g.below(maxbudget);
		(void)rd;
	}
	std::string show() const
	{
		std::string s;
		for (int x : steps)
			s += (s.empty() ? "" : ",") + std::to_string(x);
		return "[" + s + "]x" + std::to_string(budget);
	}
};

struct Rep { // a send that was accepted
	std::string bytes;
	struct pomp_buffer *buf; // if known
	uint64_t end;
	bool done, empty; // all its bytes written; nothing was queued then
};
struct World;
struct Ctx;
struct End { // one side of a connection
	unsigned id;
	Ctx *c;
	struct pomp_conn *conn;
	int fd;
	std::string key;
	Addr local, remote;
	std::shared_ptr<End> peer;
	bool up = true;
	bool shut = false;    // disconnected by its own side
	bool ending = false;  // something has been done that ends the connection
	bool server = false; // of the context, at the connection
	bool suspended = false;
	bool ioerr = false; // an error was imposed on its socket
	bool foreign = false; // the other side is not a context
	std::deque<std::string> sent; // messages accepted, not yet received by the peer
	std::string rawsent;          // same, in raw mode
	std::vector<std::vector<int>> sentfds; // descriptors of these messages (indexes of the sources)
	std::deque<Rep> reps;
	uint64_t accepted = 0, written = 0;
	size_t received = 0, nsent = 0;
};
typedef std::shared_ptr<End> EndP;

struct Ctx {
	World *w;
	unsigned id;
	struct pomp_ctx *p = nullptr;
	bool server;
	bool started = false;
	bool stopping = false; // stop asked from inside a callback
	bool own = false;      // has a loop of its own
	int idx; // server it connects to (clients)
	Addr addr;
	std::vector<EndP> ends; // those that are up
	unsigned nconn = 0, ndisc = 0;
	unsigned depth = 0; // its callbacks in progress
	unsigned evs_after = 0;
};

enum Ev { CONNECTED, DISCONNECTED, MSG, RAW, SENT, SOCK };

struct World {
	Gen &g;
	bool raw = false, withcb = false;
	// what is judged
	bool delivery = true, reports = false, getters = false;
	bool lossy = false;    // messages may be lost
	bool sendfail = false; // memory is failing: sends may be refused
	std::map<std::string, EndP> ended; // connections whose client is gone
	// send buffers of the sockets
	int sndbuf = 0, rcvbuf = 0;
	struct pomp_loop *loop = nullptr;
	bool ownloops = false; // some contexts have a loop of their own
	std::vector<std::unique_ptr<Ctx>> ctxs;
	std::map<struct pomp_conn *, EndP> live, dying;
	std::map<int, EndP> byfd;
	std::map<std::string, EndP> waiting; // for their other side
	Plan rd, wr;
	unsigned nends = 0;
	unsigned depth = 0; // callbacks in progress
	unsigned long delivered = 0, reported = 0, partial = 0, queued = 0;
	size_t keepmax = 0;
	std::vector<std::pair<struct pomp_buffer *, std::string>> kept;
	std::function<void(Ev, EndP, Ctx *)> hook;
	std::function<void(EndP, const struct pomp_msg *)> on_msg;
	// connections whose other side is the harness
	std::function<bool(const EndP &)> is_foreign;
	std::function<void(const EndP &, const struct pomp_msg *, const std::string &)> on_foreign;
	static World *&cur()
	{
		static World *w;
		return w;
	}
	explicit World(Gen &g_) : g(g_)
	{
		signal(SIGPIPE, SIG_IGN);
		vf_virtual_time = 1;
		cur() = this;
		vf_io_policy = [](int w, int, size_t len) -> ssize_t {
			ssize_t n = w ? cur()->wr.next(len) : cur()->rd.next(len);
			if (w && n > 0 && (size_t)n < len)
				cur()->partial++;
			return n;
		};
		vf_io_observe = [](int w, int fd, const void *p, size_t n) { cur()->moved(w, fd, p, n); };
		vf_io_error = [](int w, int fd, int err) { cur()->io_error(w, fd, err); };
	}
	World(const World &) = delete;
	~World() { cur() = nullptr; }

	// ---------------------------------------------------------- hooks
	void moved(int w, int fd, const void *, size_t n)
	{
		auto it = byfd.find(fd);
		if (it == byfd.end())
			return;
		End &e = *it->second;
		CHECK(w || !n || !e.suspended, "e%u: %zu bytes read while reading is suspended", e.id, n);
		if (!w)
			return;
		e.written += n;
		for (auto &r : e.reps) {
			if (r.done)
				continue;
			if (r.end > e.written)
				break;
			r.done = true;
			r.empty = &r == &e.reps.back();
		}
	}
	void io_error(int, int fd, int)
	{
		auto it = byfd.find(fd);
		if (it == byfd.end())
			return;
		it->second->ioerr = true;
		ending(it->second);
	}
	void ending(const EndP &e)
	{
		e->ending = true;
		if (e->foreign)
			return;
		if (e->peer)
			e->peer->ending = true;
		else
			ended[e->key] = e;
	}
	// ---------------------------------------------------------- callbacks
	EndP find(struct pomp_conn *conn)
	{
		auto it = live.find(conn);
		if (it != live.end())
			return it->second;
		it = dying.find(conn);
		return it != dying.end() ? it->second : nullptr;
	}
	static void event_cb(struct pomp_ctx *ctx, enum pomp_event ev, struct pomp_conn *conn, const struct pomp_msg *msg, void *ud)
	{
		Ctx *c = (Ctx *)ud;
		World *w = c->w;
		CHECK(ctx == c->p, "notification given another context");
		if (w->getters)
			CHECK(c->started || c->stopping, "event %d notified by a context that is stopped", (int)ev);
		w->depth++;
		c->depth++;
		switch (ev) {
		case POMP_EVENT_CONNECTED: w->connected(c, conn); break;
		case POMP_EVENT_DISCONNECTED: w->disconnected(c, conn); break;
		case POMP_EVENT_MSG: w->message(c, conn, msg); break;
		default: fail("unknown event %d", (int)ev);
		}
		c->depth--;
		w->depth--;
	}
	void connected(Ctx *c, struct pomp_conn *conn)
	{
		CHECK(live.find(conn) == live.end(), "connected notified twice for the same connection");
		auto dy = dying.find(conn);
		if (dy != dying.end()) {
			if (reports)
				CHECK(dy->second->reps.empty(), "e%u: connection removed, %zu send(s) never reported", dy->second->id, dy->second->reps.size());
			dying.erase(dy);
		}
		EndP e = std::make_shared<End>();
		e->id = nends++;
		e->c = c;
		e->server = c->server;
		e->conn = conn;
		e->fd = pomp_conn_get_fd(conn);
		CHECK(e->fd >= 0, "connection without descriptor");
		e->local = sock_name(e->fd, false);
		e->remote = sock_name(e->fd, true);
		e->key = c->server ? e->remote.key() + "|" + e->local.key() : e->local.key() + "|" + e->remote.key();
		live[conn] = e;
		byfd[e->fd] = e;
		c->ends.push_back(e);
		c->nconn++;
		note("   %s%u: connected e%u", c->server ? "s" : "c", c->id, e->id);
		auto it = waiting.find(e->key);
		if (is_foreign && is_foreign(e)) {
			e->foreign = e->ending = true;
		} else if (it != waiting.end() && it->second->server != c->server) {
			e->peer = it->second;
			it->second->peer = e;
			if (it->second->ending)
				e->ending = true;
			waiting.erase(it);
		} else if (ended.count(e->key) && ended[e->key]->server != c->server) {
			e->peer = ended[e->key];
			e->peer->peer = e;
			e->ending = true;
			ended.erase(e->key);
		} else {
			waiting[e->key] = e;
		}
		if (c->stopping)
			ending(e);
		if (getters) {
			check_getters(c);
			check_conn(*e);
		}
		if (hook)
			hook(CONNECTED, e, c);
	}
	void disconnected(Ctx *c, struct pomp_conn *conn)
	{
		auto it = live.find(conn);
		CHECK(it != live.end(), "disconnected notified for a connection that is not connected");
		EndP e = it->second;
		CHECK(e->c == c, "disconnected notified to another context");
		note("   %s%u: disconnected e%u", c->server ? "s" : "c", c->id, e->id);
		if (delivery)
			CHECK(e->ending || !e->peer, "connection e%u dropped although nothing ended it", e->id);
		e->up = false;
		ending(e);
		live.erase(it);
		auto wt = waiting.find(e->key);
		if (wt != waiting.end() && wt->second == e)
			waiting.erase(wt);
		dying[conn] = e;
		for (size_t i = 0; i < c->ends.size(); i++)
			if (c->ends[i] == e)
				c->ends.erase(c->ends.begin() + i--);
		c->ndisc++;
		if (getters) {
			check_getters(c);
			check_conn(*e);
		}
		if (hook)
			hook(DISCONNECTED, e, c);
		byfd.erase(e->fd);
	}
	void message(Ctx *c, struct pomp_conn *conn, const struct pomp_msg *msg)
	{
		auto it = live.find(conn);
		CHECK(it != live.end(), "message notified on a connection that is not connected");
		EndP e = it->second;
		CHECK(e->c == c && msg != NULL, "message notified to another context");
		CHECK(!raw, "message notified by a raw context");
		std::string b = msg_bytes(msg);
		delivered++;
		if (e->foreign) {
			on_foreign(e, msg, b);
		} else if (delivery) {
			CHECK(e->peer, "e%u: message from a peer that sent nothing", e->id);
			auto &q = e->peer->sent;
			while (lossy && !q.empty() && q.front() != b)
				q.pop_front();
			CHECK(!q.empty(), "e%u: received a message (%zu bytes) that was not sent, or twice: %s", e->id, b.size(), hex(b.data(), b.size()).c_str());
			if (q.front() != b) {
				size_t k = 0, d = 0;
				while (k < q.size() && q[k] != b)
					k++;
				while (d < b.size() && d < q.front().size() && b[d] == q.front()[d])
					d++;
				if (k < q.size())
					fail("e%u: message #%zu lost or out of order (received the one sent %zu later)", e->id, e->received, k);
				fail("e%u: message #%zu altered: %zu bytes expected, %zu received, first difference at %zu (%s)", e->id, e->received,
				     q.front().size(), b.size(), d, hex(b.data() + (d > 8 ? d - 8 : 0), std::min<size_t>(40, b.size() - (d > 8 ? d - 8 : 0))).c_str());
			}
		}
		if (getters) {
			check_getters(c);
			check_conn(*e);
		}
		if (on_msg)
			on_msg(e, msg);
		if (e->peer && !e->peer->sent.empty())
			e->peer->sent.pop_front();
		e->received++;
		if (hook)
			hook(MSG, e, c);
	}
	static void raw_cb(struct pomp_ctx *ctx, struct pomp_conn *conn, struct pomp_buffer *buf, void *ud)
	{
		Ctx *c = (Ctx *)ud;
		World *w = c->w;
		CHECK(ctx == c->p, "notification given another context");
		w->depth++;
		c->depth++;
		auto it = w->live.find(conn);
		CHECK(it != w->live.end(), "data notified on a connection that is not connected");
		EndP e = it->second;
		CHECK(w->raw && e->c == c && buf != NULL, "data notified to another context");
		const void *p = NULL;
		size_t n = 0;
		CHECK(pomp_buffer_get_cdata(buf, &p, &n, NULL) == 0 && n > 0, "empty data notified");
		w->delivered++;
		if (w->delivery) {
			CHECK(e->peer, "e%u: data from a peer that sent nothing", e->id);
			std::string &s = e->peer->rawsent;
			CHECK(n <= s.size(), "e%u: %zu bytes received, only %zu were sent and not yet received", e->id, n, s.size());
			CHECK(memcmp(s.data(), p, n) == 0, "e%u: data altered: %s instead of %s", e->id, hex(p, n).c_str(), hex(s.data(), n).c_str());
		}
		if (e->peer)
			e->peer->rawsent.erase(0, n);
		e->received++;
		if (w->kept.size() < w->keepmax) {
			pomp_buffer_ref(buf);
			w->kept.push_back({buf, std::string((const char *)p, n)});
		}
		if (w->hook)
			w->hook(RAW, e, c);
		c->depth--;
		w->depth--;
	}
	void check_kept()
	{
		for (auto &k : kept) {
			const void *p = NULL;
			size_t n = 0;
			CHECK(pomp_buffer_get_cdata(k.first, &p, &n, NULL) == 0, "buffer kept by the receiver is no longer valid");
			CHECK(n == k.second.size() && memcmp(p, k.second.data(), n) == 0, "a buffer kept by the receiver changed");
		}
	}
	void drop_kept()
	{
		check_kept();
		for (auto &k : kept)
			pomp_buffer_unref(k.first);
		kept.clear();
	}
	static void send_cb(struct pomp_ctx *ctx, struct pomp_conn *conn, struct pomp_buffer *buf, uint32_t status, void *cookie, void *ud)
	{
		Ctx *c = (Ctx *)ud;
		World *w = c->w;
		CHECK(ctx == c->p && cookie == NULL, "send report given another context");
		w->depth++;
		c->depth++;
		EndP e = w->find(conn);
		if (w->reports)
			CHECK(e && e->c == c, "send report for a connection that does not exist");
		w->reported++;
		if (e && w->reports) {
			CHECK(!e->reps.empty(), "e%u: send reported although none was made, or twice (status %#x)", e->id, status);
			Rep r = e->reps.front();
			e->reps.pop_front();
			std::string b;
			const void *p = NULL;
			size_t n = 0;
			CHECK(buf && pomp_buffer_get_cdata(buf, &p, &n, NULL) == 0, "e%u: report with an invalid buffer", e->id);
			CHECK(n == r.bytes.size() && memcmp(p, r.bytes.data(), n) == 0, "e%u: report for another buffer than the oldest not reported", e->id);
			CHECK(r.buf == NULL || r.buf == buf, "e%u: report with another buffer than the one sent", e->id);
			uint32_t st = status & ~POMP_SEND_STATUS_QUEUE_EMPTY;
			CHECK(st == POMP_SEND_STATUS_OK || st == POMP_SEND_STATUS_ERROR || st == POMP_SEND_STATUS_ABORTED, "e%u: status %#x", e->id, status);
			if (r.done) {
				CHECK(st == POMP_SEND_STATUS_OK, "e%u: status %#x for a buffer completely written", e->id, status);
				CHECK(!!(status & POMP_SEND_STATUS_QUEUE_EMPTY) == r.empty, "e%u: status %#x, but %s was queued when the buffer was written",
				      e->id, status, r.empty ? "nothing" : "something");
			} else {
				CHECK(st != POMP_SEND_STATUS_OK, "e%u: reported as sent, %llu bytes written of %llu", e->id,
				      (unsigned long long)e->written, (unsigned long long)r.end);
				CHECK(e->ending, "e%u: send aborted (%#x) although the connection is up", e->id, status);
				CHECK(e->ioerr || st == POMP_SEND_STATUS_ABORTED, "e%u: status %#x for a send aborted", e->id, status);
				CHECK(!!(status & POMP_SEND_STATUS_QUEUE_EMPTY) == e->reps.empty(), "e%u: status %#x with %zu buffers still queued", e->id, status,
				      e->reps.size());
			}
		}
		if (w->hook && e)
			w->hook(SENT, e, c);
		c->depth--;
		w->depth--;
	}
	static void sock_cb(struct pomp_ctx *ctx, int fd, enum pomp_socket_kind kind, void *ud)
	{
		Ctx *c = (Ctx *)ud;
		World *w = c->w;
		CHECK(ctx == c->p, "socket notified to another context");
		w->depth++;
		c->depth++;
		if (kind == POMP_SOCKET_KIND_CLIENT && c->addr.ss.ss_family == AF_UNIX) {
			// gives it a name, so that both sides can be matched
			struct sockaddr_un su;
			memset(&su, 0, sizeof(su));
			su.sun_family = AF_UNIX;
			int n = snprintf(su.sun_path + 1, sizeof(su.sun_path) - 1, "vpc%d_%u", (int)getpid(), serial()++);
			CHECK(bind(fd, (struct sockaddr *)&su, (socklen_t)(offsetof(struct sockaddr_un, sun_path) + 1 + n)) == 0, "bind");
		}
		if (w->sndbuf)
			setsockopt(fd, SOL_SOCKET, SO_SNDBUF, &w->sndbuf, sizeof(int));
		if (w->rcvbuf)
			setsockopt(fd, SOL_SOCKET, SO_RCVBUF, &w->rcvbuf, sizeof(int));
		if (c->addr.ss.ss_family != AF_UNIX) {
			int one = 1;
			setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof(one));
		}
		if (w->hook)
			w->hook(SOCK, nullptr, c);
		c->depth--;
		w->depth--;
	}
	// ---------------------------------------------------------- actions
	Ctx *add_ctx(bool server, bool sockcb = true)
	{
		ctxs.emplace_back(new Ctx);
		Ctx *c = ctxs.back().get();
		c->w = this;
		c->id = (unsigned)ctxs.size() - 1;
		c->server = server;
		c->own = ownloops && g.chance(1, 2);
		c->p = c->own ? pomp_ctx_new(&event_cb, c) : pomp_ctx_new_with_loop(&event_cb, c, loop);
		CHECK(c->p, "pomp_ctx_new");
		CHECK((pomp_ctx_get_loop(c->p) == loop) == !c->own, "loop of the context");
		if (raw)
			CHECK(pomp_ctx_set_raw(c->p, &raw_cb) == 0, "set_raw");
		if (withcb)
			CHECK(pomp_ctx_set_send_cb(c->p, &send_cb) == 0, "set_send_cb");
		if (sockcb)
			CHECK(pomp_ctx_set_socket_cb(c->p, &sock_cb) == 0, "set_socket_cb");
		return c;
	}
	void listen(Ctx *c, Tr t)
	{
		listen(c, make_addr(t));
	}
	void listen(Ctx *c, const Addr &a)
	{
		c->addr = a;
		c->started = true;
		int r = pomp_ctx_listen(c->p, c->addr.sa(), c->addr.len);
		CHECK(r == 0, "listen: error %d", r);
		c->server = true;
		if (c->addr.ss.ss_family != AF_UNIX) { // the port that was chosen
			uint32_t len = 0;
			const struct sockaddr *sa = pomp_ctx_get_local_addr(c->p, &len);
			CHECK(sa && len >= sizeof(struct sockaddr_in) && len <= sizeof(c->addr.ss), "local address of the server");
			memcpy(&c->addr.ss, sa, len);
			c->addr.len = len;
		}
	}
	void connect(Ctx *c, const Ctx *srv)
	{
		connect(c, srv->addr);
	}
	void connect(Ctx *c, const Addr &a)
	{
		c->addr = a;
		c->server = false;
		c->started = true;
		int r = pomp_ctx_connect(c->p, c->addr.sa(), c->addr.len);
		CHECK(r == 0, "connect: error %d", r);
	}
	void ending_all(Ctx *c)
	{
		for (auto &e : c->ends)
			ending(e);
	}
	void stop(Ctx *c)
	{
		ending_all(c);
		bool later = c->depth > 0 && c->started, was = c->started && c->p;
		if (later)
			c->stopping = true;
		CHECK(pomp_ctx_stop(c->p) == 0, "stop");
		c->started = false;
		if (!later && !c->stopping) {
			CHECK(c->ends.empty(), "%s%u: %zu connection(s) not notified disconnected after the stop", c->server ? "s" : "c", c->id, c->ends.size());
			if (was && c->server && getters)
				check_free(c->addr);
		}
	}
	// stops asked from inside callbacks take effect
	void finish_stops()
	{
		CHECK(pomp_loop_idle_flush(loop) == 0, "idle_flush");
		for (auto &c : ctxs) {
			if (c->own)
				CHECK(pomp_loop_idle_flush(pomp_ctx_get_loop(c->p)) == 0, "idle_flush");
			if (c->stopping)
				CHECK(c->ends.empty(), "%s%u: %zu connection(s) not notified disconnected after the stop", c->server ? "s" : "c", c->id, c->ends.size());
			c->stopping = false;
		}
		settle();
	}
	// the connections the context has are those that were announced
	void check_getters(Ctx *c)
	{
		std::vector<struct pomp_conn *> have;
		if (c->server) {
			struct pomp_conn *x = NULL;
			while ((x = pomp_ctx_get_next_conn(c->p, x)) != NULL) {
				have.push_back(x);
				CHECK(have.size() <= 64, "endless list of connections");
			}
		} else {
			struct pomp_conn *x = pomp_ctx_get_conn(c->p);
			if (x)
				have.push_back(x);
		}
		CHECK(have.size() == c->ends.size(), "%s%u: %zu connection(s) found, %zu announced", c->server ? "s" : "c", c->id, have.size(), c->ends.size());
		for (auto &e : c->ends) {
			bool ok = false;
			for (auto x : have)
				ok = ok || x == e->conn;
			CHECK(ok, "%s%u: connection announced not found", c->server ? "s" : "c", c->id);
		}
	}
	void check_conn(End &e)
	{
		uint32_t len = 0;
		CHECK(pomp_conn_get_fd(e.conn) == e.fd, "e%u: descriptor changed", e.id);
		const struct sockaddr *sa = pomp_conn_get_local_addr(e.conn, &len);
		CHECK(sa && len == e.local.len && memcmp(sa, e.local.sa(), len) == 0, "e%u: local address is not that of the socket", e.id);
		sa = pomp_conn_get_peer_addr(e.conn, &len);
		CHECK(sa && len == e.remote.len && memcmp(sa, e.remote.sa(), len) == 0, "e%u: peer address is not that of the socket", e.id);
		const struct pomp_cred *cr = pomp_conn_get_peer_cred(e.conn);
		if (e.local.ss.ss_family == AF_UNIX)
			CHECK(cr && cr->pid == (uint32_t)getpid() && cr->uid == geteuid() && cr->gid == getegid(), "e%u: credentials of the peer", e.id);
		else
			CHECK(cr == NULL, "e%u: credentials of an inet peer", e.id);
	}
	void check_state()
	{
		if (getters)
			for (auto &c : ctxs)
				if (c->started || c->stopping) {
					check_getters(c.get());
					for (auto &e : c->ends)
						check_conn(*e);
				}
	}
	// anybody can use the address
	void check_free(const Addr &a)
	{
		int s = socket(a.ss.ss_family, SOCK_STREAM, 0), one = 1;
		setsockopt(s, SOL_SOCKET, SO_REUSEADDR, &one, sizeof(one));
		int r = bind(s, a.sa(), a.len) == 0 && ::listen(s, 1) == 0 ? 0 : -errno;
		close(s);
		const struct sockaddr_un *u = (const struct sockaddr_un *)&a.ss;
		if (r == 0 && a.ss.ss_family == AF_UNIX && u->sun_path[0])
			unlink(u->sun_path);
		CHECK(r == 0, "the address of a server that was stopped cannot be used: error %d", r);
	}
	void wait(int ms)
	{
		// those with a loop of their own
		for (size_t i = 0; i < ctxs.size(); i++) {
			Ctx *c = ctxs[i].get();
			if (!c->own)
				continue;
			ms = std::min(ms, 1);
			bool wake = g.chance(1, 8);
			if (wake)
				CHECK(pomp_ctx_wakeup(c->p) == 0, "ctx_wakeup");
			int r = g.flip() ? pomp_ctx_process_fd(c->p) : pomp_ctx_wait_and_process(c->p, wake ? -1 : 0);
			CHECK(r == 0 || (r == -ETIMEDOUT && !wake) || (sendfail && r == -ENOMEM), "wait of a context: error %d", r);
		}
		int r = pomp_loop_wait_and_process(loop, ms);
		CHECK(r == 0 || r == -ETIMEDOUT || (sendfail && r == -ENOMEM), "wait: error %d", r);
		settle();
		check_state();
	}
	void settle()
	{
		CHECK(depth == 0, "harness");
		if (reports)
			for (auto &d : dying)
				CHECK(d.second->reps.empty(), "e%u: connection removed, %zu send(s) never reported", d.second->id, d.second->reps.size());
		dying.clear();
	}
	// several megabytes are not combined with reads of some bytes
	bool bigsent = false, slowread = false;
	// waits until the condition holds; false after max_ms
	template <class F> bool until(F cond, int max_ms = 15000)
	{
		uint64_t end = mono_ns() + (uint64_t)max_ms * 1000000;
		for (unsigned i = 0; !cond(); i++) {
			if (mono_ns() > end)
				return false;
			wait(i < 50 ? 0 : 5);
		}
		return true;
	}
	bool idle_now()
	{
		for (auto &l : live) {
			End &e = *l.second;
			if (e.ending)
				continue;
			if (!e.peer)
				return false; // not yet accepted
			if (e.peer->ending)
				continue;
			if (!e.sent.empty() || !e.rawsent.empty())
				return false;
			if (withcb && reports && !e.reps.empty())
				return false;
		}
		return true;
	}
	// everything that was sent arrives
	void drain()
	{
		rd.budget = wr.budget = 0;
		for (auto &l : live) {
			End &e = *l.second;
			if (e.suspended)
				CHECK(pomp_conn_resume_read(e.conn) == 0, "resume_read");
			e.suspended = false;
		}
		bool ok = until([&] { return idle_now(); });
		if (!ok) {
			for (auto &l : live) {
				End &e = *l.second;
				if (e.ending || !e.peer)
					continue;
				if (delivery)
					CHECK(e.sent.empty() && e.rawsent.empty(), "e%u: %zu message(s) sent (%zu raw bytes) never received by e%u", e.id, e.sent.size(),
					      e.rawsent.size(), e.peer->id);
				if (reports && withcb)
					CHECK(e.reps.empty(), "e%u: %zu send(s) never reported", e.id, e.reps.size());
			}
		}
		for (int i = 0; i < 3; i++)
			wait(0); // nothing more comes
	}
	void finish()
	{
		rd.budget = wr.budget = 0;
		hook = nullptr;
		for (auto &l : live) {
			struct linger lg = {1, 0};
			setsockopt(l.second->fd, SOL_SOCKET, SO_LINGER, &lg, sizeof(lg));
		}
		for (auto &c : ctxs) {
			ending_all(c.get());
			CHECK(pomp_ctx_stop(c->p) == 0, "stop");
		}
		finish_stops();
		CHECK(live.empty(), "%zu connection(s) not notified disconnected after stopping", live.size());
		drop_kept();
		for (auto &c : ctxs) {
			CHECK(c->ends.empty(), "connection left");
			CHECK(pomp_ctx_destroy(c->p) == 0, "ctx_destroy");
		}
		CHECK(pomp_loop_destroy(loop) == 0, "loop_destroy");
	}
	// what sending 'bytes' on e is expected to give
	void begin_send(const EndP &e, const std::string &bytes, struct pomp_buffer *buf)
	{
		e->accepted += bytes.size();
		if (withcb && reports)
			e->reps.push_back({bytes, buf, e->accepted, false, false});
		if (raw)
			e->rawsent += bytes;
		else
			e->sent.push_back(bytes);
		e->nsent++;
	}
	void undo_send(const EndP &e, const std::string &bytes)
	{
		e->accepted -= bytes.size();
		if (withcb && reports) {
			CHECK(e->written <= e->accepted, "e%u: a send that was refused wrote bytes", e->id);
			CHECK(!e->reps.empty() && !e->reps.back().done, "e%u: a send that was refused has been reported", e->id);
			e->reps.pop_back();
		}
		if (raw)
			e->rawsent.resize(e->rawsent.size() - std::min(bytes.size(), e->rawsent.size()));
		else if (!e->sent.empty())
			e->sent.pop_back();
		e->nsent--;
	}
	template <class F> int do_send(const EndP &e, const std::string &bytes, struct pomp_buffer *buf, F call)
	{
		uint64_t w0 = e->written;
		begin_send(e, bytes, buf);
		int r = call();
		if (r < 0) {
			undo_send(e, bytes);
			if (delivery && !sendfail)
				CHECK(e->ending || e->shut, "e%u: send refused (%d) although the connection is up", e->id, r);
		} else {
			CHECK(!e->shut, "e%u: send accepted after the disconnection", e->id);
			if (e->written - w0 < bytes.size())
				queued++;
		}
		return r;
	}
	// sends to every connection of the context
	template <class F> int do_bcast(Ctx *c, const std::string &bytes, struct pomp_buffer *buf, F call)
	{
		std::vector<EndP> to;
		std::vector<bool> was;
		for (auto &e : c->ends) {
			if (e->shut)
				continue;
			to.push_back(e);
			was.push_back(e->ending);
			e->ending = false; // to see an error of this very send
			begin_send(e, bytes, buf);
		}
		int r = call();
		for (size_t i = 0; i < to.size(); i++) {
			if (to[i]->ending)
				undo_send(to[i], bytes);
			if (was[i])
				to[i]->ending = true;
		}
		return r;
	}
};

static inline struct pomp_msg *encode(uint32_t id, const std::vector<Arg> &args)
{
	struct pomp_msg *m = pomp_msg_new();
	struct pomp_encoder *e = pomp_encoder_new();
	CHECK(pomp_msg_init(m, id) == 0 && pomp_encoder_init(e, m) == 0, "init");
	for (auto &a : args)
		CHECK(enc_typed(e, a) == 0, "encode");
	pomp_encoder_destroy(e);
	CHECK(pomp_msg_finish(m) == 0, "finish");
	return m;
}
static inline std::string blob(Gen &g, size_t n)
{
	std::string s(n, 0);
	fill((uint8_t *)&s[0], n, g.below(1000));
	// looks like messages here and there
	if (n > 40 && g.flip()) {
		std::string m = ref::message(7, {});
		for (size_t p = g.below(20); p + m.size() < n; p += 20 + g.below(n))
			memcpy(&s[p], m.data(), m.size());
	}
	return s;
}
static inline size_t gen_len(Gen &g, size_t max = 1 << 18)
{
	if (max >= 1 << 20 && g.chance(1, 120))
		return (size_t)g.below(4u << 20);
	static const size_t around[] = {4096, 4096 - 12, 8192, 1000, 65536, 16384, 212992};
	switch (g.weighted({5, 3, 3, 1})) {
	case 0: return 1 + (size_t)g.below(40);
	case 1: return 1 + (size_t)g.below(3000);
	case 2: return around[g.below(5)] + (size_t)g.below(40) - 20;
	default: return around[g.below(7)] + (size_t)g.below(1 << 16);
	}
}

// a message of one or several arguments, some large
static inline std::vector<Arg> gen_small_args(Gen &g)
{
	std::vector<Arg> v = gen_args(g, 4);
	return v;
}
static inline void small_plan_note(World &w)
{
	note("   reads %s writes %s", w.rd.show().c_str(), w.wr.show().c_str());
}
struct Payload {
	std::string bytes; // whole encoding
	struct pomp_msg *msg = nullptr;
	struct pomp_buffer *buf = nullptr; // raw mode
	// printf-like forms
	int form = 0;
	uint32_t id = 0;
	std::string str;
	Payload() {}
	Payload(const Payload &) = delete;
	~Payload()
	{
		if (msg)
			pomp_msg_destroy(msg);
		if (buf)
			pomp_buffer_unref(buf);
	}
	struct pomp_buffer *buffer() const
	{
		return buf ? buf : msg ? pomp_msg_get_buffer(msg) : nullptr;
	}
};
static inline void gen_payload(Gen &g, bool raw, Payload &p, size_t maxlen = 4 << 20)
{
	if (raw) {
		std::string s = blob(g, std::min(gen_len(g, maxlen), maxlen));
		p.buf = pomp_buffer_new_with_data(s.data(), s.size());
		CHECK(p.buf, "buffer_new_with_data");
		p.bytes = s;
		return;
	}
	p.id = (uint32_t)g.integer(32);
	p.form = (int)g.weighted({5, 1, 1, 1});
	std::vector<Arg> v;
	switch (p.form) {
	case 0:
		if (g.flip()) {
			v = gen_args(g, 4);
			if (g.chance(1, 2)) {
				Arg a;
				a.ty = T_BUF;
				a.u = 0;
				a.s = blob(g, std::min(gen_len(g, maxlen), maxlen));
				v.push_back(a);
			}
		} else if (g.flip()) {
			Arg a;
			a.ty = T_BUF;
			a.u = 0;
			a.s = blob(g, std::min(gen_len(g, maxlen), maxlen));
			v.push_back(a);
		}
		p.msg = encode(p.id, v);
		break;
	case 1: { // "%u%s%d"
		Arg a, b, c;
		a.ty = T_U32; a.u = p.id;
		b.ty = T_STR; b.u = 0;
		b.s = std::string(g.below(std::min<size_t>(3000, maxlen)), 'P');
		c.ty = T_I32; c.u = (uint64_t)(int64_t)(int32_t)-5;
		p.str = b.s;
		v = {a, b, c};
		break;
	}
	default: break; // no argument
	}
	p.bytes = ref::message(p.id, v);
	if (p.msg)
		CHECK(msg_bytes(p.msg) == p.bytes, "encoding");
}
static inline int conn_sendv(struct pomp_conn *c, uint32_t id, const char *fmt, ...)
{
	va_list ap;
	va_start(ap, fmt);
	int r = pomp_conn_sendv(c, id, fmt, ap);
	va_end(ap);
	return r;
}
static inline int ctx_sendv(struct pomp_ctx *c, uint32_t id, const char *fmt, ...)
{
	va_list ap;
	va_start(ap, fmt);
	int r = pomp_ctx_sendv(c, id, fmt, ap);
	va_end(ap);
	return r;
}
static inline int send_on_conn(const EndP &e, const Payload &p)
{
	if (p.buf)
		return pomp_conn_send_raw_buf(e->conn, p.buf);
	if (p.msg)
		return pomp_conn_send_msg(e->conn, p.msg);
	if (p.form == 1 && p.str.size() % 2)
		return conn_sendv(e->conn, p.id, "%u%s%d", p.id, p.str.c_str(), -5);
	if (p.form == 1)
		return pomp_conn_send(e->conn, p.id, "%u%s%d", p.id, p.str.c_str(), -5);
	return pomp_conn_send(e->conn, p.id, p.form == 2 ? NULL : "");
}
static inline int send_on_ctx(Ctx *c, const Payload &p)
{
	if (p.buf)
		return pomp_ctx_send_raw_buf(c->p, p.buf);
	if (p.msg)
		return pomp_ctx_send_msg(c->p, p.msg);
	if (p.form == 1 && p.str.size() % 2)
		return ctx_sendv(c->p, p.id, "%u%s%d", p.id, p.str.c_str(), -5);
	if (p.form == 1)
		return pomp_ctx_send(c->p, p.id, "%u%s%d", p.id, p.str.c_str(), -5);
	return pomp_ctx_send(c->p, p.id, p.form == 2 ? NULL : "");
}
static inline void act_send(World &w, EndP e, size_t maxlen = 1 << 20)
{
	Payload p;
	gen_payload(w.g, w.raw, p, w.slowread ? std::min<size_t>(maxlen, 1 << 18) : maxlen);
	w.bigsent = w.bigsent || p.bytes.size() > 500000;
	bool viactx = !e->c->server && w.g.flip();
	int r = w.do_send(e, p.bytes, p.buffer(), [&] { return viactx ? send_on_ctx(e->c, p) : send_on_conn(e, p); });
	note("   e%u: send%s %zu bytes -> %d", e->id, viactx ? " (ctx)" : "", p.bytes.size(), r);
}
static inline void act_bcast(World &w, Ctx *c, size_t maxlen = 1 << 20)
{
	Payload p;
	gen_payload(w.g, w.raw, p, w.slowread ? std::min<size_t>(maxlen, 1 << 18) : maxlen);
	w.bigsent = w.bigsent || p.bytes.size() > 500000;
	size_t n = c->ends.size();
	int r = w.do_bcast(c, p.bytes, p.buffer(), [&] { return send_on_ctx(c, p); });
	note("   s%u: broadcast %zu bytes to %zu -> %d", c->id, p.bytes.size(), n, r);
	CHECK(r == 0, "broadcast: error %d", r);
}
static inline size_t gen_rdlen(Gen &g)
{
	static const size_t l[] = {1, 2, 5, 11, 12, 13, 64, 1000, 4095, 4096, 4097, 65536};
	return l[g.below(12)];
}
static inline EndP pick_end(World &w)
{
	if (w.live.empty())
		return nullptr;
	// by order of connection, not by address
	std::vector<EndP> v;
	for (auto &c : w.ctxs)
		for (auto &e : c->ends)
			v.push_back(e);
	return v.empty() ? nullptr : v[w.g.below(v.size())];
}
static inline Tr gen_tr(Gen &g)
{
	return (Tr)g.weighted({4, 1, 2, 1});
}
} // namespace net
