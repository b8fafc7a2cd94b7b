// C12: raw connections transport the byte stream unchanged.
#include "traffic.hpp"
using namespace net;

static void stream(Gen &g, bool heavy)
{
	Clean cl;
	Impls im;
	unsigned ncli = 1 + (unsigned)g.below(heavy ? 2 : 4);
	unsigned long del, part;
	{
		Opts o;
		o.raw = true;
		o.heavy = heavy;
		o.avg = heavy ? 10 : 25;
		o.keepmax = g.flip() ? g.below(40) : 0;
		o.inside = g.chance(1, 4);
		Traffic t(g, o);
		t.start(ncli);
		t.run();
		del = t.w.delivered;
		part = t.w.partial + t.w.queued;
	}
	cl.verify();
	if (del >= 3 && (part || ncli > 1))
		nontrivial();
}

PBT_TARGET(c12_small, "raw traffic of a server and clients under generated restrictions of reads and writes, read buffer lengths and suspensions, receive buffers being "
	"kept; non-trivial: at least 3 receptions, and a send not written at once or several clients", 3, 60)
{
	stream(g, false);
}
PBT_TARGET(c12_large, "the same with buffers up to 1 MB over small socket buffers; non-trivial: same rule", 1, 90)
{
	stream(g, true);
}

namespace {
struct Dg {
	struct pomp_ctx *p = nullptr;
	Addr addr;
	std::deque<std::pair<std::string, Addr>> expect;
	std::vector<std::pair<struct pomp_buffer *, std::string>> kept;
	bool reply = false;
	Dg *other = nullptr;
	unsigned n = 0;
	static void ev(struct pomp_ctx *, enum pomp_event, struct pomp_conn *, const struct pomp_msg *, void *) { fail("event on a raw datagram context"); }
	static void raw(struct pomp_ctx *ctx, struct pomp_conn *conn, struct pomp_buffer *buf, void *ud)
	{
		Dg *d = (Dg *)ud;
		const void *p = NULL;
		size_t len = 0;
		uint32_t alen = 0;
		CHECK(ctx == d->p, "another context");
		CHECK(pomp_buffer_get_cdata(buf, &p, &len, NULL) == 0, "buffer");
		CHECK(!d->expect.empty(), "a datagram of %zu bytes that was not sent", len);
		auto &x = d->expect.front();
		CHECK(len == x.first.size() && memcmp(p, x.first.data(), len) == 0, "datagram of %zu bytes altered (%zu received)", x.first.size(), len);
		const struct sockaddr *sa = pomp_conn_get_peer_addr(conn, &alen);
		CHECK(sa && alen == x.second.len && memcmp(sa, x.second.sa(), alen) == 0, "datagram with the address of another sender");
		d->expect.pop_front();
		d->n++;
		if (d->kept.size() < 20) {
			pomp_buffer_ref(buf);
			d->kept.push_back({buf, std::string((const char *)p, len)});
		}
	}
};
}
PBT_TARGET(c12_dgram, "raw datagrams of 1 byte up to the read buffer between two or three contexts (inet and unix), receive buffers being kept; non-trivial: at least 3 datagrams", 1, 60)
{
	Clean cl;
	Impls im;
	bool poll = g.flip();
	unsigned total = 0;
	{
		CHECK(set_loop_impl(poll), "impl");
		signal(SIGPIPE, SIG_IGN);
		struct pomp_loop *loop = pomp_loop_new();
		unsigned n = 2 + (unsigned)g.below(2);
		Tr t = g.chance(1, 3) ? UNIXA : g.chance(1, 3) ? TCP6 : TCP4;
		size_t rd = g.flip() ? 4096 : 65536;
		std::vector<Dg> d(n);
		note("%s loop, %s, %u contexts, read buffer %zu", poll ? "poll" : "epoll", tr_names[t], n, rd);
		for (auto &x : d) {
			x.p = pomp_ctx_new_with_loop(&Dg::ev, &x, loop);
			CHECK(x.p && pomp_ctx_set_raw(x.p, &Dg::raw) == 0, "ctx");
			CHECK(pomp_ctx_set_read_buffer_len(x.p, rd) == 0, "read buffer");
			x.addr = dgram_addr(t);
			CHECK(pomp_ctx_bind(x.p, x.addr.sa(), x.addr.len) == 0, "bind");
			uint32_t len = 0;
			const struct sockaddr *sa = pomp_ctx_get_local_addr(x.p, &len);
			CHECK(sa && len && len <= sizeof(x.addr.ss), "local address");
			memcpy(&x.addr.ss, sa, len);
			x.addr.len = len;
		}
		while (g.more(15)) {
			unsigned from = (unsigned)g.below(n), to = (unsigned)g.below(n);
			size_t len = g.flip() ? 1 + g.below(100) : 1 + g.below(std::min<size_t>(rd, 60000));
			if (g.chance(1, 6))
				len = std::min<size_t>(rd, 60000);
			std::string s = blob(g, len);
			struct pomp_buffer *b = pomp_buffer_new_with_data(s.data(), s.size());
			d[to].expect.push_back({s, d[from].addr});
			int r = pomp_ctx_send_raw_buf_to(d[from].p, b, d[to].addr.sa(), d[to].addr.len);
			note("   %u -> %u: %zu bytes -> %d", from, to, len, r);
			CHECK(r == 0, "send_raw_buf_to: error %d", r);
			pomp_buffer_unref(b);
			total++;
			size_t pend = 0; // what the system is able to keep
			for (auto &x : d)
				for (auto &y : x.expect)
					pend += y.first.size() + 2000;
			if (pend >= 20000 || g.flip()) {
				uint64_t end = mono_ns() + 10000000000ull;
				for (;;) {
					bool left = false;
					for (auto &x : d)
						left = left || !x.expect.empty();
					if (!left || mono_ns() > end)
						break;
					pomp_loop_wait_and_process(loop, 10);
				}
				for (auto &x : d)
					CHECK(x.expect.empty(), "%zu datagram(s) never received", x.expect.size());
			}
		}
		uint64_t end = mono_ns() + 10000000000ull;
		for (auto &x : d)
			while (!x.expect.empty() && mono_ns() < end)
				pomp_loop_wait_and_process(loop, 10);
		pomp_loop_wait_and_process(loop, 0);
		for (auto &x : d) {
			CHECK(x.expect.empty(), "%zu datagram(s) never received", x.expect.size());
			for (auto &k : x.kept) {
				const void *p = NULL;
				size_t len = 0;
				CHECK(pomp_buffer_get_cdata(k.first, &p, &len, NULL) == 0 && len == k.second.size() && memcmp(p, k.second.data(), len) == 0,
				      "a buffer kept by the receiver changed");
				pomp_buffer_unref(k.first);
			}
			CHECK(pomp_ctx_stop(x.p) == 0 && pomp_ctx_destroy(x.p) == 0, "stop");
		}
		CHECK(pomp_loop_destroy(loop) == 0, "loop");
	}
	cl.verify();
	if (total >= 3)
		nontrivial();
}

PBT_TARGET(c12_mode, "raw buffers through contexts that are not raw (stream or datagram): refused, and nothing is delivered", 1, 60)
{
	Clean cl;
	Impls im;
	{
		set_loop_impl(g.flip());
		World w(g);
		w.ownloops = g.chance(1, 3);
		w.loop = pomp_loop_new();
		Ctx *srv = w.add_ctx(true);
		w.listen(srv, gen_tr(g));
		Ctx *c = w.add_ctx(false);
		w.connect(c, srv);
		CHECK(w.until([&] { return w.live.size() == 2; }), "not connected");
		while (g.more(6)) {
			std::string s = g.flip() ? ref::message((uint32_t)g.integer(32), {}) : blob(g, 1 + g.below(100));
			struct pomp_buffer *b = pomp_buffer_new_with_data(s.data(), s.size());
			Ctx *x = g.flip() ? srv : c;
			int r = pomp_ctx_send_raw_buf(x->p, b);
			CHECK(r < 0, "raw buffer accepted by a context that is not raw");
			pomp_buffer_unref(b);
			EndP e = pick_end(w);
			if (e)
				act_send(w, e, 200);
			w.wait(0);
		}
		w.drain();
		w.finish();
	}
	cl.verify();
	nontrivial();
}
