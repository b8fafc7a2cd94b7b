// C16: clients retry until connected, servers and datagram contexts until bound.
#include "net.hpp"
using namespace net;

namespace {
const uint64_t NEVER = UINT64_MAX, DELAY = 2000000000ull;
enum Role { CLIENT, SERVER, DGRAM };
const char *const role_names[] = {"client", "server", "datagram"};
struct Lab;
struct Node {
	Lab *l;
	unsigned id;
	Role role = CLIENT;
	struct pomp_ctx *p = nullptr;
	unsigned at = 0; // index of its address
	bool started = false;
	// model
	bool up = false;      // connected (client), bound (others)
	uint64_t due = NEVER; // of the next attempt
	unsigned wattempts = 0, wconn = 0, wdisc = 0;
	// observed
	unsigned attempts = 0, conn = 0, disc = 0, msgs = 0;
	struct pomp_conn *c = nullptr;
	uint32_t lastid = 0;
};
struct Place {
	Addr a;
	Tr t;
	Addr dg; // for datagrams
	Node *srv = nullptr; // started there (may not be bound yet)
	int raw = -1;        // socket of the harness listening there
	std::vector<int> fillers; // connections that leave no room
	std::vector<int> held;    // connections accepted by it
	bool served() const { return (srv && srv->up) || (raw >= 0 && fillers.empty()); }
};
struct Lab {
	Gen &g;
	struct pomp_loop *loop;
	std::vector<std::unique_ptr<Node>> nodes;
	std::vector<Place> places;
	unsigned long fault = 0; // classes of calls that fail
	bool async = false;      // a refusal may come a little later
	unsigned outages = 0, retries = 0, reconn = 0, binds = 0, full = 0;
	static Lab *&cur()
	{
		static Lab *l;
		return l;
	}
	static int &errno_of(int call)
	{
		static int e[VF_NCALLS];
		return e[call];
	}
	explicit Lab(Gen &g_) : g(g_)
	{
		cur() = this;
		signal(SIGPIPE, SIG_IGN);
		vf_virtual_time = 1;
		vf_errno_for = [](int call) { return errno_of(call); };
		CHECK(set_loop_impl(g.flip()), "impl");
		loop = pomp_loop_new();
		CHECK(loop, "loop_new");
		unsigned n = 1 + (unsigned)g.below(2);
		for (unsigned i = 0; i < n; i++) {
			Place p;
			p.t = (Tr)g.below(3);
			p.a = make_addr(p.t, p.t == TCP4 ? pick_port(AF_INET) : 0);
			p.dg = dgram_addr(p.t == TCP4 ? TCP4 : UNIXA);
			places.push_back(p);
			note("address %u: %s", i, tr_names[p.t]);
		}
	}
	~Lab()
	{
		for (auto &p : places) {
			if (p.raw >= 0)
				close(p.raw);
			for (int f : p.fillers)
				close(f);
			for (int f : p.held)
				close(f);
			if (p.t == UNIXP)
				unlink(((struct sockaddr_un *)&p.a.ss)->sun_path);
		}
		cur() = nullptr;
	}
	static void event_cb(struct pomp_ctx *ctx, enum pomp_event ev, struct pomp_conn *conn, const struct pomp_msg *msg, void *ud)
	{
		Node *n = (Node *)ud;
		CHECK(ctx == n->p, "notification given another context");
		CHECK(n->started, "%s %u: event %d after it was stopped", role_names[n->role], n->id, (int)ev);
		if (ev == POMP_EVENT_CONNECTED) {
			n->conn++;
			if (n->role == CLIENT) {
				CHECK(!n->c, "client %u: connected twice", n->id);
				n->c = conn;
			}
		} else if (ev == POMP_EVENT_DISCONNECTED) {
			n->disc++;
			if (n->role == CLIENT) {
				CHECK(n->c == conn, "client %u: disconnected, not connected", n->id);
				n->c = nullptr;
			}
		} else {
			n->msgs++;
			n->lastid = pomp_msg_get_id(msg);
		}
	}
	static void sock_cb(struct pomp_ctx *, int, enum pomp_socket_kind kind, void *ud)
	{
		Node *n = (Node *)ud;
		if (kind != POMP_SOCKET_KIND_PEER)
			n->attempts++;
	}
	void faults(unsigned long mask)
	{
		fault = vf_call_mask = mask;
		vf_call_fail_at = mask ? 1 : 0;
		vf_call_fail_all = 1;
		vf_calls = 0;
	}
	bool failing(int c) const { return fault & (1ul << c); }
	uint64_t now() const { return vf_now_ns; }
	// the effect of an attempt of this node, in the model
	void attempt(Node *n)
	{
		n->due = NEVER;
		if (failing(VF_SOCKET)) { // not even seen
			n->due = now() + DELAY;
			return;
		}
		n->wattempts++;
		if (failing(VF_FCNTL)) {
			n->due = now() + DELAY;
			return;
		}
		if (n->role == CLIENT && places[n->at].t == TCP4)
			async = true;
		if (n->role == CLIENT) {
			if (failing(VF_CONNECT) || !places[n->at].served() || failing(VF_GETSOCKOPT)) {
				if (!failing(VF_CONNECT) && places[n->at].served() && places[n->at].srv) {
					// came and went
					places[n->at].srv->wconn++;
					places[n->at].srv->wdisc++;
				}
				n->due = now() + DELAY;
			} else {
				n->up = true;
				n->wconn++;
				if (places[n->at].srv)
					places[n->at].srv->wconn++;
			}
		} else if (failing(VF_BIND)) {
			n->due = now() + DELAY;
		} else {
			n->up = true;
			binds++;
		}
	}
	// the server at this place is gone
	void lost(Place &p)
	{
		for (auto &n : nodes)
			if (n->started && n->role == CLIENT && n->up && &places[n->at] == &p) {
				n->up = false;
				n->wdisc++;
				n->due = now() + DELAY;
			}
	}
	void pump()
	{
		int r, idle = 0;
		for (int i = 0; i < 400 && idle < 2; i++) {
			r = pomp_loop_wait_and_process(loop, 0);
			CHECK(r == 0 || r == -ETIMEDOUT, "wait: error %d", r);
			idle = r == -ETIMEDOUT ? idle + 1 : 0;
		}
	}
	bool agrees()
	{
		for (auto &n : nodes)
			if (n->attempts != n->wattempts || n->conn != n->wconn || n->disc != n->wdisc)
				return false;
		return true;
	}
	void compare()
	{
		pump();
		uint64_t end = mono_ns() + 10000000000ull;
		while (!agrees() && mono_ns() < end) {
			bool over = false;
			for (auto &n : nodes)
				over = over || n->attempts > n->wattempts || n->conn > n->wconn || n->disc > n->wdisc;
			if (over)
				break;
			pomp_loop_wait_and_process(loop, 5);
		}
		if (async) { // until those refused wait for their next attempt
			int want = 0;
			for (auto &n : nodes)
				want += n->due != NEVER;
			end = mono_ns() + 1000000000ull;
			while (vf_timers_pending() != want && mono_ns() < end)
				pomp_loop_wait_and_process(loop, 1);
			async = false;
		}
		int f;
		for (auto &p : places)
			if (p.raw >= 0 && p.fillers.empty())
				while ((f = accept4(p.raw, NULL, NULL, SOCK_CLOEXEC)) >= 0)
					p.held.push_back(f);
		for (auto &n : nodes) {
			unsigned ms = (unsigned)(now() / 1000000);
			CHECK(n->attempts == n->wattempts, "%s %u: %u attempts at %u ms, %u expected", role_names[n->role], n->id, n->attempts, ms, n->wattempts);
			CHECK(n->conn == n->wconn, "%s %u: connected %u times at %u ms, %u expected", role_names[n->role], n->id, n->conn, ms, n->wconn);
			CHECK(n->disc == n->wdisc, "%s %u: disconnected %u times at %u ms, %u expected", role_names[n->role], n->id, n->disc, ms, n->wdisc);
		}
	}
	// time passes, deadline by deadline
	void advance(uint64_t ns)
	{
		uint64_t end = now() + ns;
		for (;;) {
			uint64_t next = end;
			for (auto &n : nodes)
				if (n->started && n->due < next)
					next = n->due;
			// just before: nothing
			if (next > now() + 1000000) {
				vf_advance(next - now() - 1000000);
				compare();
			}
			if (next > now())
				vf_advance(next - now());
			if (next == end) {
				bool any = false;
				for (auto &n : nodes)
					any = any || (n->started && n->due <= now());
				if (!any)
					break;
			}
			// servers and clients due at the same time: the order is not settled
			bool servers = false, clients = false;
			for (auto &n : nodes)
				if (n->started && n->due <= now())
					(n->role == CLIENT ? clients : servers) = true;
			if (servers && clients && !failing(VF_SOCKET) && !failing(VF_BIND) && !failing(VF_FCNTL)) {
				resolve();
				continue;
			}
			std::vector<Node *> v;
			for (auto &n : nodes)
				if (n->started && n->due <= now())
					v.push_back(n.get());
			for (Node *n : v) {
				attempt(n);
				retries++;
			}
			compare();
			if (now() >= end)
				break;
		}
		compare();
	}
	// either order is right: learn from the clients which it was
	void resolve()
	{
		std::vector<Node *> s, c;
		for (auto &n : nodes)
			if (n->started && n->due <= now())
				(n->role == CLIENT ? c : s).push_back(n.get());
		for (Node *n : s)
			attempt(n);
		pump();
		for (Node *n : c) {
			if (n->conn > n->wconn) {
				attempt(n);
			} else {
				Place &p = places[n->at];
				bool maybe = p.served() && !failing(VF_CONNECT);
				// with a failing getsockopt, the server may have seen it
				if (maybe && failing(VF_GETSOCKOPT) && p.srv) {
					if (p.srv->conn > p.srv->wconn) {
						p.srv->wconn++;
						p.srv->wdisc++;
					}
				}
				n->wattempts++;
				n->due = now() + DELAY;
			}
		}
		compare();
	}
	Node *add()
	{
		nodes.emplace_back(new Node);
		Node *n = nodes.back().get();
		n->l = this;
		n->id = (unsigned)nodes.size() - 1;
		n->p = pomp_ctx_new_with_loop(&event_cb, n, loop);
		CHECK(n->p, "ctx_new");
		CHECK(pomp_ctx_set_socket_cb(n->p, &sock_cb) == 0, "set_socket_cb");
		return n;
	}
	void start(Node *n, Role role, unsigned at)
	{
		unsigned long keep = fault;
		// what fails when started is reported: only transient conditions here
		faults(fault & ((1ul << VF_CONNECT) | (1ul << VF_BIND) | (1ul << VF_GETSOCKOPT)));
		n->role = role;
		n->at = at;
		n->started = true;
		n->up = false;
		n->due = NEVER;
		Place &p = places[at];
		if (role == SERVER)
			p.srv = n;
		attempt(n);
		int r;
		if (role == CLIENT)
			r = pomp_ctx_connect(n->p, p.a.sa(), p.a.len);
		else if (role == SERVER)
			r = pomp_ctx_listen(n->p, p.a.sa(), p.a.len);
		else
			r = pomp_ctx_bind(n->p, p.dg.sa(), p.dg.len);
		CHECK(r == 0, "%s %u: start: error %d", role_names[role], n->id, r);
		note("   %s %u: start at %u", role_names[role], n->id, at);
		compare();
		faults(keep);
	}
	void stop(Node *n)
	{
		note("   %s %u: stop", role_names[n->role], n->id);
		Place &p = places[n->at];
		if (n->role == CLIENT && n->up) {
			n->wdisc++;
			if (p.srv && p.srv->up)
				p.srv->wdisc++;
		}
		if (n->role == SERVER) {
			for (auto &x : nodes)
				if (n->up && x->started && x->role == CLIENT && x->up && x->at == n->at)
					n->wdisc++;
			p.srv = nullptr;
			if (n->up) {
				lost(p);
				outages++;
			}
		}
		CHECK(pomp_ctx_stop(n->p) == 0, "stop");
		CHECK(n->conn == n->disc, "%s %u: connections not notified disconnected by the stop", role_names[n->role], n->id);
		n->started = n->up = false;
		n->due = NEVER;
		compare();
	}
	void messages()
	{
		for (auto &n : nodes) {
			if (!n->started || !n->up)
				continue;
			Place &p = places[n->at];
			if (n->role == CLIENT && p.srv) {
				unsigned before = p.srv->msgs;
				uint32_t id = (uint32_t)g.below(1000);
				CHECK(pomp_ctx_send(n->p, id, "%u", 1u) == 0, "send");
				uint64_t end = mono_ns() + 10000000000ull;
				while (p.srv->msgs == before && mono_ns() < end)
					pomp_loop_wait_and_process(loop, 5);
				CHECK(p.srv->msgs == before + 1 && p.srv->lastid == id, "message of client %u not received", n->id);
			}
		}
		compare();
	}
	// a datagram context receives if and only if it is bound
	void datagrams()
	{
		for (auto &n : nodes) {
			if (n->role != DGRAM || !n->started)
				continue;
			Place &p = places[n->at];
			int s = socket(p.dg.ss.ss_family, SOCK_DGRAM | SOCK_CLOEXEC, 0);
			std::string m = ref::message(77, {});
			ssize_t r = sendto(s, m.data(), m.size(), MSG_DONTWAIT, p.dg.sa(), p.dg.len);
			close(s);
			unsigned before = n->msgs;
			uint64_t end = mono_ns() + 10000000000ull;
			if (n->up) {
				CHECK(r == (ssize_t)m.size(), "datagram %u: nobody bound", n->id);
				while (n->msgs == before && mono_ns() < end)
					pomp_loop_wait_and_process(loop, 5);
				CHECK(n->msgs == before + 1, "datagram %u: message not received", n->id);
			} else {
				pump();
				CHECK(n->msgs == before, "datagram %u: received, not bound", n->id);
			}
		}
	}
	void raw_listener(Place &p)
	{
		if (p.raw >= 0) {
			note("   address %u: listener of the harness closed", (unsigned)(&p - &places[0]));
			for (int f : p.fillers)
				close(f);
			p.fillers.clear();
			for (int f : p.held)
				close(f);
			p.held.clear();
			close(p.raw);
			p.raw = -1;
			if (p.t == UNIXP)
				unlink(((struct sockaddr_un *)&p.a.ss)->sun_path);
			outages++;
			lost(p);
			compare();
			return;
		}
		if (p.srv)
			return;
		int one = 1;
		p.raw = socket(p.a.ss.ss_family, SOCK_STREAM | SOCK_CLOEXEC | SOCK_NONBLOCK, 0);
		setsockopt(p.raw, SOL_SOCKET, SO_REUSEADDR, &one, sizeof(one));
		bool tight = p.t != TCP4 && g.flip();
		if (bind(p.raw, p.a.sa(), p.a.len) != 0 || ::listen(p.raw, tight ? 0 : 64) != 0)
			fail("listen of the harness: %s", strerror(errno));
		note("   address %u: listener of the harness%s", (unsigned)(&p - &places[0]), tight ? ", no room" : "");
		if (tight) { // no place left for anybody
			full++;
			for (;;) {
				int f = socket(p.a.ss.ss_family, SOCK_STREAM | SOCK_CLOEXEC | SOCK_NONBLOCK, 0);
				if (::connect(f, p.a.sa(), p.a.len) != 0) {
					CHECK(errno == EAGAIN, "filler");
					close(f);
					break;
				}
				p.fillers.push_back(f);
			}
		}
	}
	void make_room(Place &p)
	{
		if (p.fillers.empty())
			return;
		note("   address %u: room made", (unsigned)(&p - &places[0]));
		int f;
		while ((f = accept(p.raw, NULL, NULL)) >= 0)
			close(f);
		for (int x : p.fillers)
			close(x);
		p.fillers.clear();
		::listen(p.raw, 64);
	}
	void run()
	{
		static const int cerr[] = {ECONNREFUSED, EHOSTUNREACH, ENETUNREACH, ETIMEDOUT, ENETDOWN, EHOSTDOWN, EADDRNOTAVAIL, ENOENT, EACCES, EAGAIN};
		static const int serr[] = {EMFILE, ENFILE, ENOMEM, ENOBUFS};
		unsigned ncli = 1 + (unsigned)g.below(3);
		for (unsigned i = 0; i < ncli + 2; i++)
			add();
		while (g.more(25)) {
			Node *n = nodes[g.below(nodes.size())].get();
			switch (g.weighted({6, 3, 8, 4, 2, 2, 2, 2})) {
			case 0:
				if (!n->started) {
					Role r = (Role)g.weighted({6, 3, 1});
					unsigned at = (unsigned)g.below(places.size());
					if (r == SERVER && (places[at].srv || places[at].raw >= 0))
						r = CLIENT;
					if (r == DGRAM)
						for (auto &x : nodes)
							if (x->started && x->role == DGRAM)
								r = CLIENT;
					start(n, r, at);
				}
				break;
			case 1:
				if (n->started)
					stop(n);
				break;
			case 2: {
				uint64_t ms;
				switch (g.below(4)) {
				case 0: ms = g.below(2000); break;
				case 1: ms = 2000; break;
				case 2: ms = 1 + g.below(20000); break;
				default: ms = 1999 + g.below(3); break;
				}
				note("   %u ms later", (unsigned)ms);
				advance(ms * 1000000);
				break;
			}
			case 3: {
				if (fault && g.flip()) {
					note("   no more failures");
					faults(0);
					break;
				}
				static const int cls[] = {VF_CONNECT, VF_BIND, VF_SOCKET, VF_GETSOCKOPT, VF_FCNTL};
				int c = cls[g.weighted({5, 3, 3, 2, 1})];
				int e = c == VF_CONNECT ? cerr[g.below(10)] : c == VF_BIND ? EADDRNOTAVAIL : c == VF_SOCKET ? serr[g.below(4)] : c == VF_FCNTL ? EINVAL : ENOBUFS;
				errno_of(c) = e;
				note("   calls of class %d fail with %d", c, e);
				// making connections of servers fail is another matter
				faults(fault | (1ul << c));
				break;
			}
			case 4: messages(); break;
			case 5: datagrams(); break;
			case 6: raw_listener(places[g.below(places.size())]); break;
			default: make_room(places[g.below(places.size())]); break;
			}
			if (g.exhausted())
				break;
		}
		// in the end everything is available, and at the latest one retry later all are connected
		faults(0);
		for (auto &p : places)
			make_room(p);
		for (unsigned i = 0; i < places.size(); i++)
			if (!places[i].srv && places[i].raw < 0)
				for (auto &n : nodes)
					if (!n->started) {
						start(n.get(), SERVER, i);
						break;
					}
		// servers first, then their clients
		advance(DELAY);
		advance(DELAY);
		for (auto &n : nodes)
			if (n->started && (n->role != CLIENT || places[n->at].served()))
				CHECK(n->up && (n->role != CLIENT || n->c), "%s %u: not connected one retry after everything was available", role_names[n->role], n->id);
		messages();
		datagrams();
		for (auto &n : nodes)
			reconn += n->role == CLIENT && n->conn > 1;
		for (auto &n : nodes)
			if (n->started)
				stop(n.get());
		// nothing any more
		for (int i = 0; i < 3; i++) {
			vf_advance(DELAY);
			compare();
		}
		for (auto &n : nodes)
			CHECK(pomp_ctx_destroy(n->p) == 0, "ctx_destroy");
		CHECK(pomp_loop_destroy(loop) == 0, "loop_destroy");
	}
};
} // namespace

PBT_TARGET(c16_retry, "clients, servers and a datagram context on a few addresses; listeners come and go, connect, bind, socket and other calls fail for a while, time passes "
	"in steps around the retry period; each attempt and each event is predicted; non-trivial: at least one outage or failure, 2 retries and one connection made by a retry", 1, 60)
{
	Clean cl;
	Impls im;
	bool nt;
	{
		Lab l(g);
		l.run();
		nt = l.retries >= 2 && l.reconn + l.outages;
		if (l.reconn)
			LABEL("reconnected");
		if (l.full)
			LABEL("no room");
		if (l.binds)
			LABEL("bound");
	}
	cl.verify();
	if (nt)
		nontrivial();
}
