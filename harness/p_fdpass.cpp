// C11: descriptors sent over local sockets arrive with their own message.
#include "net.hpp"
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
using namespace net;

namespace {
struct Files { // what is sent: files told apart by their offset
	std::vector<int> fds;
	explicit Files(unsigned n)
	{
		for (unsigned i = 0; i < n; i++) {
			int fd = memfd_create("vp", 0);
			CHECK(fd >= 0, "memfd_create");
			fds.push_back(fd);
			vf_protected[fd] = 1;
		}
	}
	~Files()
	{
		for (int fd : fds) {
			vf_protected[fd] = 0;
			close(fd);
		}
	}
	// fd is a descriptor of the open file number i
	void check(unsigned i, int fd, const char *what)
	{
		static unsigned long stamp;
		CHECK(fd >= 0, "%s: no descriptor (%d)", what, fd);
		for (int x : fds)
			CHECK(x != fd, "%s: a descriptor of the sender", what);
		off_t o = (off_t)(1000 + stamp++ % 100000);
		CHECK(lseek(fds[i], o, SEEK_SET) == o, "lseek");
		off_t got = lseek(fd, 0, SEEK_CUR);
		CHECK(got == o, "%s: descriptor %d is not of the file sent (offset %ld, expected %ld)", what, fd, (long)got, (long)o);
	}
};
struct Exp {
	uint32_t id;
	std::vector<Arg> args; // T_FD: number of the file
};
struct Sess {
	Files &files;
	std::map<End *, std::deque<Exp>> q;
	std::vector<std::pair<struct pomp_msg *, Exp>> kept;
	unsigned inflight = 0, received = 0, fdsrecv = 0;
	explicit Sess(Files &f) : files(f) {}
	void check_msg(const struct pomp_msg *m, const Exp &x, const char *what)
	{
		CHECK(pomp_msg_get_id(m) == x.id, "%s: id %u, expected %u", what, pomp_msg_get_id(m), x.id);
		struct pomp_decoder *d = pomp_decoder_new();
		CHECK(pomp_decoder_init(d, m) == 0, "decoder_init");
		std::set<int> seen;
		for (auto &a : x.args) {
			if (a.ty == T_FD) {
				int fd = -2;
				int r = pomp_decoder_read_fd(d, &fd);
				CHECK(r == 0, "%s: descriptor expected: error %d", what, r);
				files.check((unsigned)a.u, fd, what);
				CHECK(seen.insert(fd).second, "%s: same descriptor twice", what);
			} else {
				Arg b;
				int r = dec_typed(d, a.ty, false, b);
				CHECK(r == 0 && same(a, b), "%s: argument %s: error %d, got %s", what, show(a).c_str(), r, show(b).c_str());
			}
		}
		uint8_t u8;
		CHECK(pomp_decoder_read_u8(d, &u8) < 0, "%s: more arguments than sent", what);
		pomp_decoder_destroy(d);
	}
};
struct pomp_msg *make(Gen &g, Files &f, unsigned nfd, Exp &x, size_t maxbuf)
{
	x.id = (uint32_t)g.integer(32);
	unsigned n = (unsigned)g.below(4), left = nfd;
	while (n || left) {
		if (left && (n == 0 || g.flip())) {
			Arg a;
			a.ty = T_FD;
			a.u = g.below(f.fds.size());
			x.args.push_back(a);
			left--;
		} else {
			Arg a;
			if (g.flip()) {
				a.ty = T_BUF;
				a.u = 0;
				a.s = blob(g, std::min(gen_len(g), maxbuf));
			} else {
				a = gen_arg(g, gen_type(g), 100);
			}
			x.args.push_back(a);
			n--;
		}
	}
	struct pomp_msg *m = pomp_msg_new();
	struct pomp_encoder *e = pomp_encoder_new();
	CHECK(pomp_msg_init(m, x.id) == 0 && pomp_encoder_init(e, m) == 0, "init");
	for (auto &a : x.args) {
		int r = a.ty == T_FD ? pomp_encoder_write_fd(e, f.fds[a.u]) : enc_typed(e, a);
		CHECK(r == 0, "encode: %d", r);
	}
	pomp_encoder_destroy(e);
	CHECK(pomp_msg_finish(m) == 0, "finish");
	return m;
}
unsigned gen_nfd(Gen &g)
{
	return g.flip() ? 0 : 1 + (unsigned)g.below(4);
}
}

static void passing(Gen &g, bool heavy)
{
	Clean cl;
	Impls im;
	unsigned withfd = 0, received = 0, ended = 0, part = 0;
	{
		bool poll = g.flip();
		CHECK(set_loop_impl(poll), "impl");
		Files files(1 + (unsigned)g.below(4));
		Sess s(files);
		World w(g);
		w.delivery = false;
		w.withcb = g.chance(1, 3);
		w.ownloops = g.chance(1, 3);
		w.loop = pomp_loop_new();
		static const int bufs[] = {0, 0, 2048, 5000};
		w.sndbuf = bufs[g.below(4)];
		w.rcvbuf = bufs[g.below(4)];
		Tr t = g.chance(1, 4) ? UNIXP : UNIXA;
		note("%s loop, %s, socket buffers %d/%d, %zu files", poll ? "poll" : "epoll", tr_names[t], w.sndbuf, w.rcvbuf, files.fds.size());
		bool keep = g.flip();
		w.on_msg = [&](EndP e, const struct pomp_msg *m) {
			CHECK(e->peer, "e%u: message from nobody", e->id);
			auto &q = s.q[e->peer.get()];
			char what[64];
			snprintf(what, sizeof(what), "e%u message #%zu", e->id, e->received);
			CHECK(!q.empty(), "%s: not sent, or twice", what);
			Exp x = q.front();
			q.pop_front();
			for (auto &a : x.args)
				s.inflight -= a.ty == T_FD;
			s.check_msg(m, x, what);
			s.received++;
			if (keep && s.kept.size() < 10) {
				struct pomp_msg *c = pomp_msg_new_copy(m);
				CHECK(c, "copy");
				s.kept.push_back({c, x});
			}
		};
		Ctx *srv = w.add_ctx(true);
		w.listen(srv, t);
		unsigned ncli = 1 + (unsigned)g.below(3);
		for (unsigned i = 0; i < ncli; i++)
			w.connect(w.add_ctx(false), srv);
		CHECK(w.until([&] { return w.live.size() == 2 * ncli; }), "clients not connected");
		size_t maxbuf = heavy ? 300000 : 2000;
		while (g.more(heavy ? 12 : 25)) {
			EndP e = pick_end(w);
			switch (g.weighted({14, 3, 8, 3, 2, 2, 3, 1})) {
			case 0: {
				if (!e || s.inflight > 50)
					break;
				unsigned nfd = gen_nfd(g);
				Exp x;
				struct pomp_msg *m = make(g, files, nfd, x, maxbuf);
				s.q[e.get()].push_back(x);
				s.inflight += nfd;
				int r = e->c->server || g.flip() ? pomp_conn_send_msg(e->conn, m) : pomp_ctx_send_msg(e->c->p, m);
				note("   e%u: send %zu bytes, %u descriptors -> %d", e->id, msg_bytes(m).size(), nfd, r);
				if (r < 0) {
					CHECK(e->ending || e->shut || r == -ETOOMANYREFS, "e%u: send refused (%d) although the connection is up", e->id, r);
					s.q[e.get()].pop_back();
					s.inflight -= nfd;
				} else {
					withfd += nfd > 0;
				}
				pomp_msg_destroy(m); // at once: what is queued has its own
				break;
			}
			case 1: {
				if (s.inflight > 30)
					break;
				unsigned nfd = gen_nfd(g);
				Exp x;
				struct pomp_msg *m = make(g, files, nfd, x, maxbuf);
				for (auto &y : srv->ends)
					if (!y->shut) {
						s.q[y.get()].push_back(x);
						s.inflight += nfd;
					}
				int r = pomp_ctx_send_msg(srv->p, m);
				note("   s: broadcast %zu bytes, %u descriptors -> %d", msg_bytes(m).size(), nfd, r);
				CHECK(r == 0, "broadcast: error %d", r);
				pomp_msg_destroy(m);
				break;
			}
			case 2: {
				unsigned n = 1 + (unsigned)g.below(4);
				note("   wait x%u", n);
				for (unsigned i = 0; i < n; i++)
					w.wait(0);
				break;
			}
			case 3:
				w.rd.gen(g, true, 300);
				w.wr.gen(g, false, 100);
				small_plan_note(w);
				break;
			case 4:
				if (e && !e->shut) {
					note("   e%u: suspend", e->id);
					CHECK(pomp_conn_suspend_read(e->conn) == 0, "suspend");
					e->suspended = true;
				}
				break;
			case 5:
				if (e && !e->shut) {
					note("   e%u: resume", e->id);
					CHECK(pomp_conn_resume_read(e->conn) == 0, "resume");
					e->suspended = false;
				}
				break;
			case 6:
				if (e) {
					size_t n = gen_rdlen(g);
					note("   e%u: read buffer %zu", e->id, n);
					CHECK(pomp_conn_set_read_buffer_len(e->conn, n) == 0, "set_read_buffer_len");
				}
				break;
			default:
				if (e) {
					ended++;
					if (g.flip() || e->c->server) {
						note("   e%u: disconnect", e->id);
						w.ending(e);
						e->shut = true;
						CHECK(pomp_conn_disconnect(e->conn) == 0, "disconnect");
					} else {
						note("   c%u: stop", e->c->id);
						w.stop(e->c);
					}
				}
				break;
			}
			if (g.exhausted())
				break;
		}
		if (g.chance(2, 3)) {
			// everything arrives on those that are still up
			w.rd.budget = w.wr.budget = 0;
			for (auto &l : w.live)
				if (l.second->suspended) {
					CHECK(pomp_conn_resume_read(l.second->conn) == 0, "resume");
					l.second->suspended = false;
				}
			auto left = [&]() -> EndP {
				for (auto &l : w.live)
					if (!l.second->ending && !s.q[l.second.get()].empty())
						return l.second;
				return nullptr;
			};
			w.until([&] { return !left(); });
			EndP e = left();
			CHECK(!e, "e%u: %zu message(s) never received", e ? e->id : 0, e ? s.q[e.get()].size() : 0);
		} else {
			LABEL("stopped in flight");
			ended++;
		}
		part = (unsigned)w.partial;
		w.on_msg = nullptr;
		w.finish();
		for (auto &k : s.kept) {
			s.check_msg(k.first, k.second, "kept copy");
			pomp_msg_destroy(k.first);
		}
		received = s.received;
	}
	cl.verify();
	if (part)
		LABEL("partial writes");
	if (withfd)
		LABEL("descriptors sent");
	if (ended)
		LABEL("ended early");
	if (withfd >= 2 && (received >= 2 || ended))
		nontrivial();
}

PBT_TARGET(c11_small, "messages with and without descriptors over unix connections under generated restrictions of reads and writes, connections ending early; non-trivial: at "
	"least 2 messages with descriptors", 3, 60)
{
	passing(g, false);
}
PBT_TARGET(c11_large, "the same with large buffers in the messages; non-trivial: same rule", 1, 60)
{
	passing(g, true);
}

PBT_TARGET(c11_refused, "messages with descriptors sent over tcp, to datagram addresses (unix and inet) and by unconnected clients: refused, nothing received, and the "
	"following messages without descriptors arrive", 1, 60)
{
	Clean cl;
	Impls im;
	{
		set_loop_impl(g.flip());
		Files files(2);
		World w(g);
		w.ownloops = g.chance(1, 3);
		w.loop = pomp_loop_new();
		if (g.flip()) {
			note("tcp");
			Ctx *srv = w.add_ctx(true);
			w.listen(srv, g.flip() ? TCP4 : TCP6);
			Ctx *c = w.add_ctx(false);
			w.connect(c, srv);
			CHECK(w.until([&] { return w.live.size() == 2; }), "not connected");
			while (g.more(8)) {
				EndP e = pick_end(w);
				if (g.flip()) {
					Exp x;
					struct pomp_msg *m = make(g, files, 1 + (unsigned)g.below(4), x, 1000);
					int r;
					if (e->c->server && g.flip()) {
						r = pomp_ctx_send_msg(e->c->p, m); // a broadcast ignores errors
					} else {
						r = pomp_conn_send_msg(e->conn, m);
						CHECK(r < 0, "message with descriptors accepted over tcp");
					}
					note("   e%u: descriptors -> %d", e->id, r);
					pomp_msg_destroy(m);
				} else {
					act_send(w, e, 500);
				}
				w.wait(0);
			}
			w.drain();
		} else {
			Tr t = g.flip() ? UNIXA : TCP4;
			note("datagrams, %s", tr_names[t]);
			struct Got {
				unsigned n = 0;
				uint32_t id = 0;
				static void cb(struct pomp_ctx *, enum pomp_event ev, struct pomp_conn *, const struct pomp_msg *m, void *ud)
				{
					Got *x = (Got *)ud;
					CHECK(ev == POMP_EVENT_MSG, "event %d", (int)ev);
					CHECK(x->n == 0, "two messages received");
					x->n++;
					x->id = pomp_msg_get_id(m);
				}
			} got;
			struct pomp_ctx *a = pomp_ctx_new_with_loop(&Got::cb, &got, w.loop), *b = pomp_ctx_new_with_loop(&Got::cb, &got, w.loop);
			Addr aa = dgram_addr(t), ab = dgram_addr(t);
			CHECK(pomp_ctx_bind(a, aa.sa(), aa.len) == 0 && pomp_ctx_bind(b, ab.sa(), ab.len) == 0, "bind");
			while (g.more(5)) {
				Exp x;
				unsigned nfd = g.flip() ? 1 + (unsigned)g.below(4) : 0;
				struct pomp_msg *m = make(g, files, nfd, x, 500);
				got.n = 0;
				int r = pomp_ctx_send_msg_to(a, m, ab.sa(), ab.len);
				note("   %u descriptors -> %d", nfd, r);
				CHECK((r == 0) == (nfd == 0), "message with %u descriptors in a datagram: %d", nfd, r);
				w.until([&] { return got.n > 0; }, nfd ? 0 : 5000);
				w.wait(0);
				CHECK(got.n == (nfd ? 0u : 1u), "%u message(s) received", got.n);
				pomp_msg_destroy(m);
			}
			CHECK(pomp_ctx_stop(a) == 0 && pomp_ctx_stop(b) == 0, "stop");
			CHECK(pomp_ctx_destroy(a) == 0 && pomp_ctx_destroy(b) == 0, "destroy");
		}
		w.finish();
	}
	cl.verify();
	nontrivial();
}
