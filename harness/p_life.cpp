// C15: connection events are paired and ordered, and stop ends them all.
#include "traffic.hpp"
#include <fcntl.h>
#include <sys/wait.h>
using namespace net;

PBT_TARGET(c15_life, "contexts connecting, disconnecting, stopped and started again in any role, on addresses used before or new ones, with traffic; the connections "
	"found, their addresses and credentials compared after each step and in each event; non-trivial: at least one restart or disconnection and 2 connections", 3, 60)
{
	Clean cl;
	Impls im;
	unsigned ncli = (unsigned)g.below(5), restarts, ndisc = 0, nconn = 0;
	{
		Opts o;
		o.getters = true;
		o.churn = true;
		o.raw = g.chance(1, 5);
		o.withcb = g.chance(1, 3);
		o.inside = g.chance(1, 4);
		Traffic t(g, o);
		t.start(ncli);
		t.run();
		restarts = t.restarts;
		for (auto &c : t.w.ctxs) {
			ndisc += c->ndisc;
			nconn += c->nconn;
			CHECK(c->ndisc == c->nconn, "%u connected, %u disconnected", c->nconn, c->ndisc);
		}
	}
	cl.verify();
	if (nconn >= 2 && (restarts || ndisc))
		nontrivial();
}

PBT_TARGET(c15_full, "more clients than the server accepts (32), some stopped to leave room: those accepted are announced once, are found and receive a broadcast, "
	"those refused see nothing of each other; non-trivial: at least 33 clients", 1, 60)
{
	Clean cl;
	Impls im;
	unsigned n = 28 + (unsigned)g.below(12);
	{
		bool poll = g.flip();
		CHECK(set_loop_impl(poll), "impl");
		World w(g);
		w.getters = true;
		w.ownloops = g.chance(1, 3);
		w.loop = pomp_loop_new();
		Tr t = g.flip() ? UNIXA : TCP4;
		note("%s loop, %s, %u clients", poll ? "poll" : "epoll", tr_names[t], n);
		Ctx *srv = w.add_ctx(true);
		w.listen(srv, t);
		unsigned left = n;
		unsigned lim = std::min(n, 32u);
		while (left) {
			unsigned k = 1 + (unsigned)g.below(left);
			for (unsigned i = 0; i < k; i++)
				w.connect(w.add_ctx(false), srv);
			left -= k;
			for (int i = 0; i < 4; i++)
				w.wait(0);
		}
		CHECK(w.until([&] { return srv->ends.size() == lim; }), "%zu connections of %u accepted", srv->ends.size(), lim);
		// those that are refused are closed
		w.until([&] { return w.live.size() == 2 * lim; });
		CHECK(w.live.size() == 2 * lim, "%zu connections up on the clients, %zu on the server", w.live.size() - srv->ends.size(), srv->ends.size());
		act_bcast(w, srv, 100);
		w.drain();
		// one goes, a refused one takes its place at its next try
		unsigned gone = 1 + (unsigned)g.below(4);
		unsigned stopped = 0;
		for (auto &c : w.ctxs)
			if (!c->server && !c->ends.empty() && stopped < gone) {
				w.stop(c.get());
				stopped++;
			}
		unsigned now = std::min(32u, lim - stopped + (n - lim));
		CHECK(w.until([&] { return srv->ends.size() == lim - stopped; }), "server not told of disconnections");
		vf_advance(2000000000ull);
		CHECK(w.until([&] { return srv->ends.size() == now; }), "%zu connections, %u expected", srv->ends.size(), now);
		w.until([&] { return w.live.size() == 2 * now; });
		act_bcast(w, srv, 100);
		w.drain();
		w.finish();
	}
	cl.verify();
	if (n >= 33)
		nontrivial();
}

namespace {
struct Node {
	struct pomp_ctx *p = nullptr;
	unsigned conn = 0, disc = 0;
	std::deque<uint32_t> expect;
	bool on = false;
	static void cb(struct pomp_ctx *ctx, enum pomp_event ev, struct pomp_conn *, const struct pomp_msg *msg, void *ud)
	{
		Node *n = (Node *)ud;
		CHECK(ctx == n->p && n->on, "event of a context that is stopped");
		if (ev == POMP_EVENT_CONNECTED) {
			CHECK(n->conn == n->disc, "connected twice");
			n->conn++;
		} else if (ev == POMP_EVENT_DISCONNECTED) {
			n->disc++;
			CHECK(n->conn == n->disc, "disconnected twice");
		} else {
			CHECK(!n->expect.empty() && n->expect.front() == pomp_msg_get_id(msg), "message not expected");
			n->expect.pop_front();
		}
	}
};
}
PBT_TARGET(c15_roles, "one context taken through the roles of server, client and datagram node, exchanging messages with a partner each time, stopped in every state; "
	"non-trivial: at least two roles", 1, 60)
{
	Clean cl;
	Impls im;
	unsigned roles = 0;
	{
		set_loop_impl(g.flip());
		signal(SIGPIPE, SIG_IGN);
		vf_virtual_time = 1;
		struct pomp_loop *loop = pomp_loop_new();
		Node x, y;
		x.p = pomp_ctx_new_with_loop(&Node::cb, &x, loop);
		y.p = pomp_ctx_new_with_loop(&Node::cb, &y, loop);
		CHECK(loop && x.p && y.p, "new");
		auto until = [&](std::function<bool()> f) {
			uint64_t end = mono_ns() + 15000000000ull;
			while (!f() && mono_ns() < end)
				pomp_loop_wait_and_process(loop, 5);
			return f();
		};
		Addr last;
		while (g.more(5)) {
			int role = (int)g.below(3);
			bool un = g.flip();
			Tr t = un ? (g.flip() ? UNIXA : UNIXP) : TCP4;
			roles |= 1u << role;
			unsigned cx = x.conn, cy = y.conn;
			x.on = true;
			if (role == 2) {
				t = un ? UNIXA : TCP4;
				Addr a = dgram_addr(t), b = dgram_addr(t);
				note("   datagram, %s", tr_names[t]);
				CHECK(pomp_ctx_bind(x.p, a.sa(), a.len) == 0, "bind");
				y.on = true;
				CHECK(pomp_ctx_bind(y.p, b.sa(), b.len) == 0, "bind of the partner");
				unsigned k = (unsigned)g.below(4);
				for (unsigned i = 0; i < k; i++) {
					bool fwd = g.flip();
					struct pomp_msg *m = encode(i + 1, {});
					(fwd ? y : x).expect.push_back(i + 1);
					CHECK(pomp_ctx_send_msg_to(fwd ? x.p : y.p, m, fwd ? b.sa() : a.sa(), fwd ? b.len : a.len) == 0, "send_msg_to");
					pomp_msg_destroy(m);
				}
				CHECK(until([&] { return x.expect.empty() && y.expect.empty(); }), "messages not received");
				CHECK(x.conn == cx && y.conn == cy, "datagram context announced a connection");
			} else {
				Node &s = role == 0 ? x : y, &c = role == 0 ? y : x;
				Addr a = last.len && last.ss.ss_family == make_addr(t).ss.ss_family && g.flip() ? last : make_addr(t, t == TCP4 ? pick_port(AF_INET) : 0);
				last = a;
				note("   %s, %s", role ? "client" : "server", tr_names[t]);
				bool cfirst = g.chance(1, 4);
				if (cfirst) {
					c.on = true;
					CHECK(pomp_ctx_connect(c.p, a.sa(), a.len) == 0, "connect");
					for (int i = 0; i < 3; i++)
						pomp_loop_wait_and_process(loop, 0);
				}
				bool nosrv = g.chance(1, 6);
				if (!nosrv) {
					s.on = true;
					CHECK(pomp_ctx_listen(s.p, a.sa(), a.len) == 0, "listen");
					if (!cfirst) {
						c.on = true;
						CHECK(pomp_ctx_connect(c.p, a.sa(), a.len) == 0, "connect");
					} else {
						vf_advance(2000000000ull);
					}
					if (!g.chance(1, 5)) {
						CHECK(until([&] { return x.conn == cx + 1 && y.conn == cy + 1; }), "not connected (%u, %u)", x.conn - cx, y.conn - cy);
						unsigned k = (unsigned)g.below(4);
						for (unsigned i = 0; i < k; i++) {
							bool fwd = g.flip();
							(fwd ? y : x).expect.push_back(i + 1);
							CHECK(pomp_ctx_send(fwd ? x.p : y.p, i + 1, "%u", i) == 0, "send");
						}
						CHECK(until([&] { return x.expect.empty() && y.expect.empty(); }), "messages not received");
					}
				}
			}
			// either first
			Node *first = g.flip() ? &x : &y, *second = first == &x ? &y : &x;
			CHECK(pomp_ctx_stop(first->p) == 0, "stop");
			CHECK(first->conn == first->disc, "stopped, not announced as disconnected");
			first->on = false;
			if (g.flip())
				for (int i = 0; i < 3; i++)
					pomp_loop_wait_and_process(loop, 0);
			CHECK(pomp_ctx_stop(second->p) == 0, "stop");
			CHECK(second->conn == second->disc, "stopped, not announced as disconnected");
			second->on = false;
			if (g.flip()) {
				vf_advance(2000000000ull);
				for (int i = 0; i < 3; i++)
					pomp_loop_wait_and_process(loop, 0);
			}
		}
		CHECK(pomp_ctx_destroy(x.p) == 0 && pomp_ctx_destroy(y.p) == 0, "destroy");
		CHECK(pomp_loop_destroy(loop) == 0, "loop");
	}
	cl.verify();
	if (roles == 3 || roles > 4)
		nontrivial();
}

namespace {
struct Who {
	uint32_t pid, uid, gid;
};
struct Kid { // a process with credentials of its own
	Who who = {};
	bool server;
	Addr addr;
	int in = -1, ctl = -1;
	unsigned conn = 0, disc = 0;
	struct pomp_ctx *cli = nullptr;
};
struct Cred {
	std::vector<Kid> kids;
	static void cb(struct pomp_ctx *ctx, enum pomp_event ev, struct pomp_conn *conn, const struct pomp_msg *, void *ud)
	{
		Cred *c = (Cred *)ud;
		const struct pomp_cred *cr = pomp_conn_get_peer_cred(conn);
		CHECK(cr, "no credentials for a local peer");
		for (auto &k : c->kids) {
			if (cr->pid != k.who.pid)
				continue;
			CHECK(k.server == (ctx == k.cli), "credentials of another process");
			CHECK(cr->uid == k.who.uid && cr->gid == k.who.gid, "credentials %u:%u, those of the peer are %u:%u", cr->uid, cr->gid, k.who.uid, k.who.gid);
			(ev == POMP_EVENT_CONNECTED ? k.conn : k.disc)++;
			return;
		}
		fail("credentials of process %u, that is not a peer", cr->pid);
	}
};
}
PBT_TARGET(c15_cred, "connections from and to other processes that run as various users and groups; each must be announced with the credentials of its peer; "
	"non-trivial: 2 processes or more", 1, 60)
{
	Clean cl;
	Impls im;
	unsigned n = 1 + (unsigned)g.below(3);
	{
		set_loop_impl(g.flip());
		signal(SIGPIPE, SIG_IGN);
		vf_virtual_time = 1;
		struct pomp_loop *loop = pomp_loop_new();
		Cred c;
		c.kids.resize(n);
		struct pomp_ctx *srv = pomp_ctx_new_with_loop(&Cred::cb, &c, loop);
		Addr sa = make_addr(UNIXA);
		CHECK(loop && srv && pomp_ctx_listen(srv, sa.sa(), sa.len) == 0, "listen");
		for (auto &k : c.kids) {
			k.server = g.flip();
			k.addr = k.server ? make_addr(UNIXA) : sa;
			unsigned uid = (unsigned)g.below(3) * 1000, gid = (unsigned)g.below(3) * 1001;
			int up[2], down[2];
			CHECK(pipe2(up, O_CLOEXEC) == 0 && pipe2(down, O_CLOEXEC) == 0, "pipe");
			pid_t pid = fork();
			CHECK(pid >= 0, "fork");
			if (pid == 0) {
				close(down[1]);
				for (auto &o : c.kids)
					if (o.ctl >= 0)
						close(o.ctl);
				if (setegid(gid) || seteuid(uid)) {
				}
				Who w = {(uint32_t)getpid(), geteuid(), getegid()};
				int s = socket(AF_UNIX, SOCK_STREAM, 0);
				int r = k.server ? bind(s, k.addr.sa(), k.addr.len) || ::listen(s, 5) : connect(s, k.addr.sa(), k.addr.len);
				char b;
				if (r == 0 && write(up[1], &w, sizeof(w)) == sizeof(w))
					while (read(down[0], &b, 1) > 0)
						;
				_exit(0);
			}
			close(up[1]);
			close(down[0]);
			k.in = up[0];
			k.ctl = down[1];
			CHECK(read(k.in, &k.who, sizeof(k.who)) == sizeof(k.who) && k.who.pid == (uint32_t)pid, "the other process does not start");
			note("process %u:%u %s", k.who.uid, k.who.gid, k.server ? "listens" : "connects");
			if (k.server) {
				k.cli = pomp_ctx_new_with_loop(&Cred::cb, &c, loop);
				CHECK(k.cli && pomp_ctx_connect(k.cli, k.addr.sa(), k.addr.len) == 0, "connect");
			}
			if (g.flip())
				pomp_loop_wait_and_process(loop, 0);
		}
		uint64_t end = mono_ns() + 10000000000ull;
		auto all = [&] {
			for (auto &k : c.kids)
				if (!k.conn)
					return false;
			return true;
		};
		while (!all() && mono_ns() < end)
			pomp_loop_wait_and_process(loop, 2);
		for (auto &k : c.kids)
			CHECK(k.conn == 1 && k.disc == 0, "%u connection(s) announced with the credentials of process %u", k.conn, k.who.pid);
		if (g.flip()) // ended by the peers
			for (auto &k : c.kids) {
				close(k.ctl);
				k.ctl = -1;
				waitpid((pid_t)k.who.pid, nullptr, 0);
				while (!k.disc && mono_ns() < end)
					pomp_loop_wait_and_process(loop, 2);
				CHECK(k.disc == 1, "disconnection not announced");
			}
		CHECK(pomp_ctx_stop(srv) == 0, "stop");
		for (auto &k : c.kids)
			if (k.cli)
				CHECK(pomp_ctx_stop(k.cli) == 0, "stop");
		pomp_loop_idle_flush(loop);
		for (auto &k : c.kids) {
			CHECK(k.disc == 1, "%u disconnection(s)", k.disc);
			if (k.cli)
				CHECK(pomp_ctx_destroy(k.cli) == 0, "destroy");
			close(k.in);
			if (k.ctl >= 0) {
				close(k.ctl);
				waitpid((pid_t)k.who.pid, nullptr, 0);
			}
		}
		CHECK(pomp_ctx_destroy(srv) == 0, "destroy");
		CHECK(pomp_loop_destroy(loop) == 0, "loop");
	}
	cl.verify();
	if (n >= 2)
		nontrivial();
}
