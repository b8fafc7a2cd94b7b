// C09: on each connection the messages arrive exactly once, in order and intact.
#include "traffic.hpp"
using namespace net;

static void traffic(Gen &g, bool heavy)
{
	Clean cl;
	Impls im;
	unsigned ncli = 1 + (unsigned)g.below(heavy ? 3 : 5);
	unsigned long del, part;
	unsigned resumed;
	{
		Opts o;
		o.heavy = heavy;
		o.avg = heavy ? 12 : 25;
		o.inside = g.chance(1, 3);
		Traffic t(g, o);
		t.start(ncli);
		t.run();
		del = t.w.delivered;
		part = t.w.partial + t.w.queued;
		resumed = t.resumed;
	}
	cl.verify();
	if (del >= 3 && (part || resumed || ncli > 1))
		nontrivial();
}

PBT_TARGET(c09_small, "one server, clients coming and going, many small messages and broadcasts under generated read and write restrictions, suspensions "
	"and read buffer lengths; non-trivial: at least 3 messages delivered, and a partial write, a queued send, a suspension or several clients", 3, 60)
{
	traffic(g, false);
}
PBT_TARGET(c09_large, "the same with messages up to 1 MB over small socket buffers; non-trivial: same rule", 1, 90)
{
	traffic(g, true);
}

#include <pthread.h>
#include <thread>
namespace {
struct Side {
	struct pomp_loop *loop;
	struct pomp_ctx *ctx;
	bool server, echo;
	unsigned nconn = 0, ndisc = 0, nrecv = 0;
	bool stop = false;
	std::deque<std::string> expect;
	std::string err;
	static void cb(struct pomp_ctx *ctx, enum pomp_event ev, struct pomp_conn *conn, const struct pomp_msg *msg, void *ud)
	{
		Side *s = (Side *)ud;
		(void)ctx;
		if (ev == POMP_EVENT_CONNECTED) {
			s->nconn++;
		} else if (ev == POMP_EVENT_DISCONNECTED) {
			s->ndisc++;
		} else {
			s->nrecv++;
			if (s->server) { // sent back as it came
				struct pomp_msg *m = pomp_msg_new_copy(msg);
				if (!m || pomp_conn_send_msg(conn, m) < 0)
					s->err = "echo refused";
				pomp_msg_destroy(m);
			} else {
				std::string b = msg_bytes(msg);
				if (s->err.empty() && (s->expect.empty() || s->expect.front() != b))
					s->err = s->expect.empty() ? "message received twice" : "wrong message received";
				if (!s->expect.empty())
					s->expect.pop_front();
			}
		}
	}
};
}
PBT_TARGET(c09_threads, "clients each in a thread of its own, with a server in another, real blocking waits, every message echoed; non-trivial: at least 20 messages",
	1, 90)
{
	Clean cl;
	Impls im;
	bool poll = g.flip();
	CHECK(set_loop_impl(poll), "impl");
	signal(SIGPIPE, SIG_IGN);
	Tr t = gen_tr(g);
	unsigned n = 1 + (unsigned)g.below(3), total = 0;
	Addr a = make_addr(t);
	Side srv;
	srv.server = true;
	srv.loop = pomp_loop_new();
	srv.ctx = pomp_ctx_new_with_loop(&Side::cb, &srv, srv.loop);
	CHECK(srv.loop && srv.ctx, "server");
	CHECK(pomp_ctx_listen(srv.ctx, a.sa(), a.len) == 0, "listen");
	if (a.ss.ss_family != AF_UNIX) {
		uint32_t len = 0;
		const struct sockaddr *sa = pomp_ctx_get_local_addr(srv.ctx, &len);
		CHECK(sa && len <= sizeof(a.ss), "local addr");
		memcpy(&a.ss, sa, len);
	}
	std::vector<Side> cli(n);
	std::vector<std::vector<std::string>> msgs(n);
	std::vector<unsigned> window(n);
	for (unsigned i = 0; i < n; i++) {
		cli[i].server = false;
		cli[i].loop = pomp_loop_new();
		cli[i].ctx = pomp_ctx_new_with_loop(&Side::cb, &cli[i], cli[i].loop);
		CHECK(cli[i].loop && cli[i].ctx && pomp_ctx_connect(cli[i].ctx, a.sa(), a.len) == 0, "client");
		unsigned k = 1 + (unsigned)g.below(30);
		for (unsigned j = 0; j < k; j++) {
			Arg b;
			b.ty = T_BUF;
			b.u = 0;
			b.s = blob(g, g.chance(1, 8) ? 1 + g.below(300000) : 1 + g.below(300));
			msgs[i].push_back(ref::message(j, {b}));
		}
		total += k;
		window[i] = 1 + (unsigned)g.below(k);
	}
	note("%s loop, %s, %u clients, %u messages", poll ? "poll" : "epoll", tr_names[t], n, total);
	std::atomic<bool> quit{false};
	std::thread st([&] {
		while (!quit)
			pomp_loop_wait_and_process(srv.loop, -1);
	});
	std::vector<std::thread> th;
	for (unsigned i = 0; i < n; i++)
		th.emplace_back([&, i] {
			Side &s = cli[i];
			size_t next = 0;
			uint64_t end = mono_ns() + 30000000000ull;
			while (s.err.empty() && (s.nrecv < msgs[i].size())) {
				if (mono_ns() > end) {
					s.err = s.nconn ? "messages missing after 30 s" : "not connected after 30 s";
					break;
				}
				while (s.nconn && next < msgs[i].size() && next - s.nrecv < window[i]) {
					struct pomp_buffer *b = pomp_buffer_new_with_data(msgs[i][next].data(), msgs[i][next].size());
					struct pomp_msg *m = pomp_msg_new_with_buffer(b);
					s.expect.push_back(msgs[i][next]);
					if (pomp_ctx_send_msg(s.ctx, m) != 0)
						s.err = "send refused";
					next++;
					pomp_msg_destroy(m);
					pomp_buffer_unref(b);
				}
				pomp_loop_wait_and_process(s.loop, 1000);
			}
			for (int j = 0; j < 3 && s.err.empty(); j++)
				pomp_loop_wait_and_process(s.loop, 0);
		});
	for (auto &x : th)
		x.join();
	quit = true;
	pomp_loop_wakeup(srv.loop);
	st.join();
	for (unsigned i = 0; i < n; i++) {
		CHECK(cli[i].err.empty(), "client %u: %s (%u of %zu received)", i, cli[i].err.c_str(), cli[i].nrecv, msgs[i].size());
		CHECK(cli[i].nconn == 1 && cli[i].ndisc == 0, "client %u: connected %u times, disconnected %u", i, cli[i].nconn, cli[i].ndisc);
		struct pomp_conn *c = pomp_ctx_get_conn(cli[i].ctx);
		struct linger lg = {1, 0};
		if (c)
			setsockopt(pomp_conn_get_fd(c), SOL_SOCKET, SO_LINGER, &lg, sizeof(lg));
		CHECK(pomp_ctx_stop(cli[i].ctx) == 0 && pomp_ctx_destroy(cli[i].ctx) == 0, "stop");
		CHECK(pomp_loop_destroy(cli[i].loop) == 0, "loop");
	}
	CHECK(srv.err.empty(), "server: %s", srv.err.c_str());
	CHECK(srv.nrecv == total, "server: %u messages received, %u sent", srv.nrecv, total);
	CHECK(pomp_ctx_stop(srv.ctx) == 0 && pomp_ctx_destroy(srv.ctx) == 0, "stop");
	CHECK(pomp_loop_destroy(srv.loop) == 0, "loop");
	CHECK(srv.nconn == n && srv.ndisc == n, "server: %u connected, %u disconnected, of %u", srv.nconn, srv.ndisc, n);
	cl.verify();
	if (total >= 20)
		nontrivial();
}
