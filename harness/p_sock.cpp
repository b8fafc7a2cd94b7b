// C31: sockets are set up as asked, and shown to the application first.
#include "net.hpp"
#include <fcntl.h>
#include <sys/stat.h>
using namespace net;

namespace {
struct Keep {
	int enable = 1, idle = 5, interval = 1, count = 2;
};
int opt(int fd, int level, int name)
{
	int v = -12345;
	socklen_t l = sizeof(v);
	CHECK(getsockopt(fd, level, name, &v, &l) == 0 && l == sizeof(v), "getsockopt(%d, %d): %s", level, name, strerror(errno));
	return v;
}
void check_flags(int fd, const char *what)
{
	int fl = fcntl(fd, F_GETFL), fdf = fcntl(fd, F_GETFD);
	CHECK(fl >= 0 && fdf >= 0, "%s: descriptor %d not open", what, fd);
	CHECK(fl & O_NONBLOCK, "%s: not in non blocking mode", what);
	CHECK(fdf & FD_CLOEXEC, "%s: kept open by exec", what);
}
void check_keep(int fd, const Keep &k, const char *what)
{
	CHECK(opt(fd, SOL_SOCKET, SO_KEEPALIVE) == (k.enable != 0), "%s: keepalive %d, set to %d", what, opt(fd, SOL_SOCKET, SO_KEEPALIVE), k.enable);
	if (!k.enable)
		return;
	int a = opt(fd, IPPROTO_TCP, TCP_KEEPIDLE), b = opt(fd, IPPROTO_TCP, TCP_KEEPINTVL), c = opt(fd, IPPROTO_TCP, TCP_KEEPCNT);
	CHECK(a == k.idle && b == k.interval && c == k.count, "%s: keepalive idle %d, interval %d, count %d; set to %d, %d, %d", what, a, b, c,
		k.idle, k.interval, k.count);
}
uint64_t inode(int fd)
{
	struct stat st;
	CHECK(fstat(fd, &st) == 0, "descriptor %d not open", fd);
	return st.st_ino;
}
const char *const kinds[] = {"server", "peer", "client", "dgram"};
struct World31;
struct Known {
	int kind, mark, fd;
};
struct Live {
	int fd, mark;
	uint64_t ino;
	bool tcp;
	Keep keep;
	struct sockaddr_storage x;
};
struct C31 {
	World31 *w;
	unsigned id;
	struct pomp_ctx *p = nullptr;
	int role = -1; // 0 server 1 client 2 dgram
	Tr t;
	Addr addr;
	unsigned mode = 0;
	Keep keep;
	bool withcb = true;
	bool bound = false;
	std::map<uint64_t, Known> known; // sockets of this start
	std::map<struct pomp_conn *, Live> live;
	int mainfd = -1;
	unsigned nsock = 0, nconn = 0;
};
struct World31 {
	Gen &g;
	std::set<uint64_t> seen;
	unsigned nmark = 0;
	long nsock = 0; // sockets announced that were made by socket(2)
	bool reenter;
	explicit World31(Gen &g_) : g(g_) {}
};
void sock_cb(struct pomp_ctx *ctx, int fd, enum pomp_socket_kind kind, void *ud)
{
	C31 *c = (C31 *)ud;
	CHECK(ctx == c->p, "socket callback with another context");
	CHECK(c->role >= 0, "socket callback of a stopped context");
	bool ok = c->role == 0 ? kind == POMP_SOCKET_KIND_SERVER || kind == POMP_SOCKET_KIND_PEER :
		c->role == 1 ? kind == POMP_SOCKET_KIND_CLIENT : kind == POMP_SOCKET_KIND_DGRAM;
	CHECK(ok, "socket of kind %d in a context of role %d", (int)kind, c->role);
	{
		static const char *const names[] = {"SERVER", "PEER", "CLIENT", "DGRAM"};
		const char *name = pomp_socket_kind_str(kind);
		CHECK(name && (unsigned)kind < 4 && strcmp(name, names[kind]) == 0, "socket of kind %d called %s", (int)kind, name ? name : "NULL");
	}
	uint64_t ino = inode(fd);
	CHECK(c->w->seen.insert(ino).second, "the same socket announced twice");
	Addr a = sock_name(fd, false);
	int accept = opt(fd, SOL_SOCKET, SO_ACCEPTCONN);
	CHECK(!accept, "socket announced when it is already listening");
	int type = opt(fd, SOL_SOCKET, SO_TYPE);
	CHECK(type == (c->role == 2 ? SOCK_DGRAM : SOCK_STREAM), "type %d", type);
	CHECK(opt(fd, SOL_SOCKET, SO_DOMAIN) == c->addr.ss.ss_family, "family");
	if (kind != POMP_SOCKET_KIND_PEER) {
		Addr z = sock_name(fd, true);
		CHECK(z.len == 0, "socket announced when it is already connected");
		if (a.ss.ss_family == AF_INET)
			CHECK(((struct sockaddr_in *)&a.ss)->sin_port == 0, "socket announced when it is already bound");
		else if (a.ss.ss_family == AF_INET6)
			CHECK(((struct sockaddr_in6 *)&a.ss)->sin6_port == 0, "socket announced when it is already bound");
		else
			CHECK(a.len <= sizeof(sa_family_t), "socket announced when it is already bound");
		c->w->nsock++;
		c->mainfd = fd;
		if (kind == POMP_SOCKET_KIND_SERVER)
			CHECK(c->known.empty() || c->t == TCP4, "a second listening socket");
	}
	int mark = 1 + (int)(c->w->nmark++ % 6);
	CHECK(setsockopt(fd, SOL_SOCKET, SO_PRIORITY, &mark, sizeof(mark)) == 0, "SO_PRIORITY");
	c->known[ino] = {(int)kind, mark, fd};
	c->nsock++;
	note("   %u: %s socket", c->id, kinds[kind]);
}
void check_live(C31 *c, const Live &l, const char *what)
{
	check_flags(l.fd, what);
	if (l.tcp)
		check_keep(l.fd, l.keep, what);
	if (c->withcb)
		CHECK(opt(l.fd, SOL_SOCKET, SO_PRIORITY) == l.mark, "%s: option set in the socket callback lost", what);
}
void event_cb(struct pomp_ctx *ctx, enum pomp_event ev, struct pomp_conn *conn, const struct pomp_msg *, void *ud)
{
	static const char *const names[] = {"CONNECTED", "DISCONNECTED", "MSG"};
	const char *name = pomp_event_str(ev);
	CHECK(name && (unsigned)ev < 3 && strcmp(name, names[ev]) == 0, "event %d called %s", (int)ev, name ? name : "NULL");
	C31 *c = (C31 *)ud;
	CHECK(ctx == c->p, "event with another context");
	if (ev == POMP_EVENT_CONNECTED) {
		Live l;
		memset(&l.x, 0, sizeof(l.x));
		l.fd = pomp_conn_get_fd(conn);
		l.ino = inode(l.fd);
		l.tcp = c->t == TCP4 || c->t == TCP6;
		l.keep = c->keep;
		l.mark = 0;
		if (c->withcb) {
			auto it = c->known.find(l.ino);
			CHECK(it != c->known.end(), "connection on a socket that was not announced");
			CHECK(it->second.kind == (c->role == 0 ? POMP_SOCKET_KIND_PEER : POMP_SOCKET_KIND_CLIENT), "connection on a socket announced as %s",
				kinds[it->second.kind]);
			l.mark = it->second.mark;
		}
		c->nconn++;
		c->live[conn] = l;
		check_live(c, l, "new connection");
		note("   %u: connected", c->id);
	} else if (ev == POMP_EVENT_DISCONNECTED) {
		c->live.erase(conn);
	}
}
}

PBT_TARGET(c31_sockets, "servers, clients and datagram contexts over tcp, tcp6 and unix started, stopped and started again, with keepalive settings changing between connections, "
	"access modes and umasks; each socket looked at in the socket callback, at the connection and after each step; non-trivial: a connection after a change of settings or an "
	"access mode checked", 4, 60)
{
	Clean cl;
	Impls im;
	mode_t um = umask(022);
	unsigned interesting = 0;
	struct Restore {
		mode_t m;
		~Restore() { umask(m); }
	} restore{um};
	{
		CHECK(set_loop_impl(g.flip()), "impl");
		signal(SIGPIPE, SIG_IGN);
		vf_virtual_time = 1;
		vf_call_mask = 1ul << VF_SOCKET;
		World31 w(g);
		std::set<int> base; // the descriptors this process had before
		for (int fd = 3; fd < 200; fd++)
			if (fcntl(fd, F_GETFD) >= 0)
				base.insert(fd);
		CHECK(set_evt_impl(g.flip()) && set_timer_impl(g.flip()), "impl");
		struct pomp_loop *loop = pomp_loop_new();
		CHECK(loop, "loop");
		std::vector<std::unique_ptr<C31>> cs;
		std::vector<int> raws;
		unsigned n = 2 + (unsigned)g.below(4);
		bool allcb = true;
		for (unsigned i = 0; i < n; i++) {
			cs.emplace_back(new C31());
			C31 *c = cs.back().get();
			c->w = &w;
			c->id = i;
			c->p = pomp_ctx_new_with_loop(&event_cb, c, loop);
			CHECK(c->p, "new");
			c->withcb = !g.chance(1, 8);
			allcb = allcb && c->withcb;
			if (c->withcb)
				CHECK(pomp_ctx_set_socket_cb(c->p, &sock_cb) == 0, "set_socket_cb");
		}
		struct Aux { // objects whose descriptors are looked at

			struct pomp_loop *l = nullptr;
			struct pomp_evt *e = nullptr;
			struct pomp_timer *t = nullptr;
		};
		std::vector<Aux> aux;
		auto check_all = [&] {
			for (int fd = 3; fd < 200; fd++) {
				int fl = fcntl(fd, F_GETFD);
				CHECK(fl < 0 || (fl & FD_CLOEXEC) || base.count(fd), "descriptor %d would be kept open by exec", fd);
			}
			CHECK(!allcb || vf_calls == w.nsock, "%ld sockets created, %ld announced", vf_calls, w.nsock);
			for (auto &cp : cs) {
				C31 *c = cp.get();
				uint32_t len = 77;
				const struct sockaddr *sa = pomp_ctx_get_local_addr(c->p, &len);
				if (c->role == 1)
					CHECK(sa == nullptr, "local address of a client context");
				if (c->role < 0)
					CHECK(sa == nullptr || len == 0, "local address (%u bytes) of a stopped context", len);
				if ((c->role == 0 || c->role == 2) && c->bound) {
					CHECK(sa && len, "no local address");
					if (c->withcb) {
						int fd = c->mainfd;
						Addr a = sock_name(fd, false);
						CHECK(a.len == len && memcmp(&a.ss, sa, len) == 0, "local address is not the one of the socket");
						check_flags(fd, c->role ? "datagram socket" : "listening socket");
						CHECK(opt(fd, SOL_SOCKET, SO_PRIORITY) == c->known[inode(fd)].mark, "option set in the socket callback lost");
						CHECK(opt(fd, SOL_SOCKET, SO_ACCEPTCONN) == (c->role == 0), "not listening");
						if (c->t == TCP4 || c->t == TCP6)
							CHECK(opt(fd, SOL_SOCKET, SO_REUSEADDR) == 1, "address reuse not asked");
					}
				}
				for (auto &l : c->live)
					check_live(c, l.second, "connection");
			}
		};
		auto spin = [&](unsigned k) {
			for (unsigned i = 0; i < k; i++)
				pomp_loop_wait_and_process(loop, 0);
		};
		auto stop = [&](C31 *c) {
			note("%u: stop", c->id);
			bool path = c->role == 0 && c->t == UNIXP;
			CHECK(pomp_ctx_stop(c->p) == 0, "stop");
			CHECK(c->live.empty(), "connection not announced as disconnected");
			c->role = -1;
			c->bound = false;
			c->known.clear();
			c->mainfd = -1;
			struct stat st;
			if (path)
				CHECK(lstat(((struct sockaddr_un *)&c->addr.ss)->sun_path, &st) < 0, "socket file left by a server");
		};
		while (g.more(25)) {
			C31 *c = cs[g.below(n)].get();
			switch (g.weighted({8, 4, 3, 5, 3, 2, 1})) {
			case 6: {
				Aux a;
				if (aux.size() < 4) {
					a.l = pomp_loop_new();
					a.e = pomp_evt_new();
					a.t = pomp_timer_new(a.l, [](struct pomp_timer *, void *) {}, &w);
					CHECK(a.l && a.e && a.t, "new");
					CHECK(pomp_timer_set(a.t, 1000) == 0, "set");
					aux.push_back(a);
				}
				break;
			}
			case 0: { // start, or stop
				if (c->role >= 0) {
					stop(c);
					break;
				}
				Tr t = (Tr)g.below(4);
				unsigned role = g.weighted({4, 5, 2});
				C31 *srv = nullptr;
				if (role == 1)
					for (auto &o : cs)
						if (o->role == 0 && o->bound && (!srv || g.flip()))
							srv = o.get();
				if (t == TCP6 && !has_inet6())
					t = TCP4;
				c->keep = c->keep;
				if (role == 0) {
					c->t = t;
					c->addr = make_addr(t);
					struct sockaddr_un *un = (struct sockaddr_un *)&c->addr.ss;
					if (t == UNIXP && g.chance(1, 3)) { // a stale one
						int s = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
						CHECK(bind(s, c->addr.sa(), c->addr.len) == 0, "bind");
						close(s);
					}
					static const unsigned umasks[] = {022, 077, 0, 027, 0177};
					unsigned m = umasks[g.below(5)];
					umask(m);
					unsigned mode = g.chance(1, 3) ? 0 : (unsigned)g.below(0777) + 1;
					note("%u: listen %s, mode %o, umask %o", c->id, tr_names[t], mode, m);
					c->role = 0;
					c->mode = mode;
					int r = mode == 0 && g.flip() ? pomp_ctx_listen(c->p, c->addr.sa(), c->addr.len) :
						pomp_ctx_listen_with_access_mode(c->p, c->addr.sa(), c->addr.len, mode);
					CHECK(r == 0, "listen: %d", r);
					c->bound = true;
					if (t == UNIXP) {
						struct stat st;
						CHECK(stat(un->sun_path, &st) == 0 && S_ISSOCK(st.st_mode), "no socket file");
						unsigned want = mode ? mode : 0777 & ~m;
						CHECK((st.st_mode & 07777) == want, "access mode %o, %o asked (umask %o)", st.st_mode & 07777, mode, m);
						interesting += mode != 0;
					}
					if (c->withcb)
						CHECK(c->mainfd >= 0 && !c->known.empty(), "socket not announced");
					uint32_t len = 0;
					const struct sockaddr *sa = pomp_ctx_get_local_addr(c->p, &len);
					CHECK(sa && len && len <= sizeof(c->addr.ss), "no local address");
					if (t == TCP4 || t == TCP6) {
						// the port was chosen by the system
						memcpy(&c->addr.ss, sa, len);
						CHECK(ntohs(((struct sockaddr_in *)&c->addr.ss)->sin_port) != 0, "local address without port");
					}
				} else if (role == 1) {
					c->t = srv ? srv->t : t;
					c->addr = srv ? srv->addr : make_addr(t, t == TCP4 || t == TCP6 ? 1 : 0);
					note("%u: connect %s %s", c->id, tr_names[c->t], srv ? "" : "(nobody)");
					c->role = 1;
					CHECK(pomp_ctx_connect(c->p, c->addr.sa(), c->addr.len) == 0, "connect");
				} else {
					c->t = t;
					c->addr = dgram_addr(t);
					note("%u: bind %s", c->id, tr_names[t]);
					c->role = 2;
					CHECK(pomp_ctx_bind(c->p, c->addr.sa(), c->addr.len) == 0, "bind");
					c->bound = true;
					if (t == UNIXP)
						unlink(((struct sockaddr_un *)&c->addr.ss)->sun_path);
				}
				break;
			}
			case 1: { // keepalive
				Keep k;
				k.enable = !g.chance(1, 3);
				k.idle = (int)g.range(1, g.flip() ? 10 : 32767);
				k.interval = (int)g.range(1, g.flip() ? 10 : 32767);
				k.count = (int)g.range(1, g.flip() ? 10 : 127);
				note("%u: keepalive %d %d %d %d", c->id, k.enable, k.idle, k.interval, k.count);
				CHECK(pomp_ctx_setup_keepalive(c->p, k.enable, k.idle, k.interval, k.count) == 0, "setup_keepalive");
				c->keep = k;
				interesting++;
				break;
			}
			case 2: { // a peer that is not a context
				if (c->role != 0 || !c->bound || raws.size() > 10)
					break;
				note("%u: another peer", c->id);
				int s = socket(c->addr.ss.ss_family, SOCK_STREAM | SOCK_NONBLOCK | SOCK_CLOEXEC, 0);
				if (connect(s, c->addr.sa(), c->addr.len) < 0 && errno != EINPROGRESS)
					note("   %s", strerror(errno));
				if (g.chance(1, 4)) {
					close(s);
				} else {
					raws.push_back(s);
				}
				break;
			}
			case 3:
				spin(1 + (unsigned)g.below(4));
				break;
			case 4:
				note("2 s");
				vf_advance(2000000000ull);
				spin(1);
				break;
			case 5: // a connection ends
				if (!c->live.empty() && g.flip()) {
					note("%u: disconnect", c->id);
					CHECK(pomp_conn_disconnect(c->live.begin()->first) == 0, "disconnect");
				} else if (!raws.empty()) {
					close(raws.back());
					raws.pop_back();
				}
				break;
			}
			check_all();
		}
		spin(5);
		check_all();
		unsigned conns = 0;
		for (auto &c : cs) {
			conns += c->nconn;
			if (c->role >= 0)
				stop(c.get());
		}
		check_all();
		for (auto &c : cs)
			CHECK(pomp_ctx_destroy(c->p) == 0, "destroy");
		for (int s : raws)
			close(s);
		for (auto &a : aux)
			CHECK(pomp_timer_destroy(a.t) == 0 && pomp_evt_destroy(a.e) == 0 && pomp_loop_destroy(a.l) == 0, "destroy");
		CHECK(pomp_loop_destroy(loop) == 0, "loop");
		vf_call_mask = 0;
		if (conns && interesting)
			nontrivial();
	}
	cl.verify();
}

namespace {
// is 127.255.255.255 delivered on this host?
bool broadcast_works()
{
	static int known = -1;
	if (known >= 0)
		return known;
	int a = socket(AF_INET, SOCK_DGRAM | SOCK_CLOEXEC, 0), b = socket(AF_INET, SOCK_DGRAM | SOCK_CLOEXEC, 0), one = 1;
	Addr any = make_addr(TCP4);
	((struct sockaddr_in *)&any.ss)->sin_addr.s_addr = INADDR_ANY;
	known = 0;
	if (bind(a, any.sa(), any.len) == 0 && setsockopt(b, SOL_SOCKET, SO_BROADCAST, &one, sizeof(one)) == 0) {
		Addr to = sock_name(a, false);
		((struct sockaddr_in *)&to.ss)->sin_addr.s_addr = htonl(0x7fffffffu);
		struct pollfd p = {a, POLLIN, 0};
		known = sendto(b, "x", 1, 0, to.sa(), to.len) == 1 && poll(&p, 1, 200) == 1;
	}
	close(a);
	close(b);
	return known;
}
struct Pkt {
	struct pomp_ctx *p = nullptr;
	bool info, six, raw;
	Addr bound;
	struct pomp_conn *conn = nullptr;
	std::deque<std::pair<Addr, Addr>> in; // destination, sender
	unsigned got = 0;
	static void sock(struct pomp_ctx *, int fd, enum pomp_socket_kind, void *ud)
	{
		Pkt *k = (Pkt *)ud;
		int one = 1;
		if (k->info)
			CHECK(setsockopt(fd, k->six ? IPPROTO_IPV6 : IPPROTO_IP, k->six ? IPV6_RECVPKTINFO : IP_PKTINFO, &one, sizeof(one)) == 0, "PKTINFO");
		if (k->six) {
			int zero = 0;
			setsockopt(fd, IPPROTO_IPV6, IPV6_V6ONLY, &zero, sizeof(zero));
		}
	}
	void arrived(struct pomp_conn *c)
	{
		CHECK(!in.empty(), "datagram not expected");
		Addr to = in.front().first, from = in.front().second;
		in.pop_front();
		conn = c;
		uint32_t len = 0;
		const struct sockaddr *sa = pomp_conn_get_local_addr(c, &len);
		const Addr &want = info ? to : bound;
		CHECK(sa && len == want.len && memcmp(sa, &want.ss, len) == 0, "local address of a datagram is not the one it was sent to");
		sa = pomp_conn_get_peer_addr(c, &len);
		CHECK(sa && len == from.len && memcmp(sa, &from.ss, len) == 0, "peer address of a datagram is not its sender's");
		got++;
	}
	static void cb(struct pomp_ctx *, enum pomp_event ev, struct pomp_conn *c, const struct pomp_msg *, void *ud)
	{
		CHECK(ev == POMP_EVENT_MSG, "event");
		((Pkt *)ud)->arrived(c);
	}
	static void rawcb(struct pomp_ctx *, struct pomp_conn *c, struct pomp_buffer *, void *ud) { ((Pkt *)ud)->arrived(c); }
};
}

PBT_TARGET(c31_pktinfo, "a datagram context bound to any address, the application asking in the socket callback for the destination of datagrams or not, given datagrams sent to "
	"various addresses of the host: the local and peer addresses in the callback are those of that datagram; non-trivial: at least 2 destinations", 1, 60)
{
	Clean cl;
	Impls im;
	std::set<std::string> dests;
	{
		CHECK(set_loop_impl(g.flip()), "impl");
		signal(SIGPIPE, SIG_IGN);
		struct pomp_loop *loop = pomp_loop_new();
		Pkt k;
		k.six = has_inet6() && g.flip();
		k.info = !g.chance(1, 4);
		k.raw = g.chance(1, 3);
		k.p = pomp_ctx_new_with_loop(&Pkt::cb, &k, loop);
		CHECK(k.p, "new");
		if (k.raw)
			CHECK(pomp_ctx_set_raw(k.p, &Pkt::rawcb) == 0, "set_raw");
		CHECK(pomp_ctx_set_socket_cb(k.p, &Pkt::sock) == 0, "set_socket_cb");
		Addr a = make_addr(k.six ? TCP6 : TCP4);
		if (k.six)
			((struct sockaddr_in6 *)&a.ss)->sin6_addr = in6addr_any;
		else
			((struct sockaddr_in *)&a.ss)->sin_addr.s_addr = INADDR_ANY;
		// a port that nobody else has
		int r = -1;
		static unsigned next;
		for (int i = 0; i < 50 && r < 0; i++) {
			unsigned port = 35000 - 2000 + (unsigned)getpid() % 400 * 5 + next++ % 5;
			((struct sockaddr_in *)&a.ss)->sin_port = htons((uint16_t)port);
			int probe = socket(a.ss.ss_family, SOCK_DGRAM | SOCK_CLOEXEC, 0);
			bool free = bind(probe, a.sa(), a.len) == 0;
			close(probe);
			if (free)
				r = pomp_ctx_bind(k.p, a.sa(), a.len);
		}
		CHECK(r == 0, "bind: %d", r);
		k.bound = a;
		uint32_t len = 0;
		const struct sockaddr *sa = pomp_ctx_get_local_addr(k.p, &len);
		CHECK(sa && len == a.len && memcmp(sa, a.sa(), len) == 0, "local address");
		note("%s, %s, %s", k.six ? "ipv6" : "ipv4", k.info ? "with destinations" : "without", k.raw ? "raw" : "messages");
		int s4 = socket(AF_INET, SOCK_DGRAM | SOCK_CLOEXEC, 0), s6 = k.six ? socket(AF_INET6, SOCK_DGRAM | SOCK_CLOEXEC, 0) : -1;
		Addr me4 = make_addr(TCP4);
		CHECK(bind(s4, me4.sa(), me4.len) == 0, "bind");
		me4 = sock_name(s4, false);
		Addr me6;
		if (k.six) {
			me6 = make_addr(TCP6);
			CHECK(bind(s6, me6.sa(), me6.len) == 0, "bind");
			me6 = sock_name(s6, false);
		}
		auto map4 = [&](const Addr &v4) {
			Addr m;
			if (!k.six)
				return v4;
			const struct sockaddr_in *i = (const struct sockaddr_in *)&v4.ss;
			struct sockaddr_in6 *o = (struct sockaddr_in6 *)&m.ss;
			o->sin6_family = AF_INET6;
			o->sin6_port = i->sin_port;
			uint8_t *b = o->sin6_addr.s6_addr;
			b[10] = b[11] = 0xff;
			memcpy(b + 12, &i->sin_addr, 4);
			m.len = sizeof(*o);
			return m;
		};
		unsigned total = 0;
		int one = 1;
		CHECK(setsockopt(s4, SOL_SOCKET, SO_BROADCAST, &one, sizeof(one)) == 0, "SO_BROADCAST");
		auto toggle = [&] {
			if (!k.conn || !g.chance(1, 4))
				return;
			k.info = !k.info;
			int v = k.info;
			note("destinations %s", k.info ? "asked" : "no more asked");
			CHECK(setsockopt(pomp_conn_get_fd(k.conn), k.six ? IPPROTO_IPV6 : IPPROTO_IP, k.six ? IPV6_RECVPKTINFO : IP_PKTINFO, &v, sizeof(v)) == 0, "PKTINFO");
		};
		while (g.more(12)) {
			toggle();
			unsigned burst = 1 + (unsigned)g.below(5);
			for (unsigned i = 0; i < burst; i++) {
				Addr to;
				bool six = k.six && g.flip();
				if (six) {
					to = make_addr(TCP6);
					((struct sockaddr_in6 *)&to.ss)->sin6_port = ((struct sockaddr_in *)&a.ss)->sin_port;
				} else {
					to = make_addr(TCP4);
					((struct sockaddr_in *)&to.ss)->sin_addr.s_addr = htonl(0x7f000001u + (uint32_t)g.below(g.flip() ? 4 : 1 << 16));
					if (broadcast_works() && g.chance(1, 8))
						((struct sockaddr_in *)&to.ss)->sin_addr.s_addr = htonl(0x7fffffffu);
					((struct sockaddr_in *)&to.ss)->sin_port = ((struct sockaddr_in *)&a.ss)->sin_port;
				}
				std::string m = ref::message(++total, {});
				int s = six ? s6 : s4;
				if (g.chance(1, 6) && !k.raw) // garbage does not count
					CHECK(sendto(s, "garbage", 7, 0, to.sa(), to.len) == 7, "sendto");
				CHECK(sendto(s, m.data(), m.size(), 0, to.sa(), to.len) == (ssize_t)m.size(), "sendto: %s", strerror(errno));
				Addr dst = six ? to : map4(to);
				dests.insert(dst.key());
				k.in.push_back({dst, six ? me6 : map4(me4)});
			}
			uint64_t end = mono_ns() + 10000000000ull;
			while (!k.in.empty() && mono_ns() < end)
				pomp_loop_wait_and_process(loop, 5);
			CHECK(k.in.empty(), "%zu datagrams not received", k.in.size());
			sa = pomp_conn_get_local_addr(k.conn, &len);
			CHECK(sa && len == a.len && memcmp(sa, a.sa(), len) == 0, "local address outside of a reception is not the one bound");
			sa = pomp_conn_get_peer_addr(k.conn, &len);
			CHECK(sa == nullptr || len == 0, "peer address outside of a reception");
		}
		close(s4);
		if (s6 >= 0)
			close(s6);
		CHECK(pomp_ctx_stop(k.p) == 0 && pomp_ctx_destroy(k.p) == 0, "end");
		CHECK(pomp_loop_destroy(loop) == 0, "loop");
	}
	cl.verify();
	if (dests.size() >= 2)
		nontrivial();
}
