// Generated histories of a server and its clients on top of the world of net.hpp.
#pragma once
#include "net.hpp"

namespace net {
struct Opts {
	bool raw = false;
	bool withcb = false, reports = false, delivery = true, getters = false;
	bool churn = false;   // disconnections, stops and restarts
	bool errors = false;  // errors imposed on reads and writes
	bool inside = false;  // actions from inside callbacks
	bool heavy = false;
	size_t keepmax = 0;
	unsigned avg = 25;
};

struct Traffic {
	Gen &g;
	Opts o;
	World w;
	Tr t;
	size_t maxlen;
	unsigned inside_left = 0, inside_done = 0, inside_stops = 0, susp = 0, resumed = 0, echoes = 0, restarts = 0, disc_queued = 0, idles = 0, idle_runs = 0;
	unsigned timer_fired = 0;
	struct pomp_timer *timer = nullptr;
	bool timer_set = false;
	std::vector<Addr> addrs; // where servers listen

	Traffic(Gen &g_, const Opts &o_) : g(g_), o(o_), w(g_)
	{
		bool poll = g.flip();
		CHECK(set_loop_impl(poll), "impl");
		w.raw = o.raw;
		w.withcb = o.withcb;
		w.reports = o.reports;
		w.delivery = o.delivery;
		w.getters = o.getters;
		w.keepmax = o.keepmax;
		w.ownloops = g.chance(1, 3);
		w.loop = pomp_loop_new();
		CHECK(w.loop, "loop_new");
		static const int bufs[] = {0, 0, 2048, 5000, 30000};
		w.sndbuf = bufs[g.below(5)];
		w.rcvbuf = bufs[g.below(5)];
		t = gen_tr(g);
		if (o.churn && t == TCP6)
			t = TCP4;
		maxlen = o.heavy ? 4 << 20 : 3000;
		note("%s loop%s, %s, socket buffers %d/%d", poll ? "poll" : "epoll", w.ownloops ? ", contexts with their own" : "", tr_names[t], w.sndbuf, w.rcvbuf);
	}
	static void idle_cb(void *ud) { ((Traffic *)ud)->idle_runs++; }
	static void timer_cb(struct pomp_timer *, void *ud)
	{
		Traffic *t = (Traffic *)ud;
		CHECK(t->timer_set, "timer fired although it is cleared");
		t->timer_fired++;
		t->timer_set = false;
	}
	Addr new_addr()
	{
		return make_addr(t, t == TCP4 && o.churn ? pick_port(AF_INET) : 0);
	}
	void start(unsigned ncli)
	{
		Ctx *srv = w.add_ctx(true);
		w.listen(srv, new_addr());
		addrs.push_back(srv->addr);
		for (unsigned i = 0; i < ncli; i++)
			w.connect(w.add_ctx(false), srv->addr);
		CHECK(w.until([&] { return w.live.size() == 2 * ncli; }), "clients not connected");
		for (auto &l : w.live)
			CHECK(l.second->peer, "connection without peer");
	}
	Ctx *pick_ctx() { return w.ctxs[g.below(w.ctxs.size())].get(); }
	// what may be done anywhere; cur: the connection being notified, if any
	void common(EndP cur, bool inside)
	{
		EndP e = cur && g.flip() ? cur : pick_end(w);
		switch (g.weighted({12, 4, inside ? 0u : 3u, 2, 2, 3, o.churn ? 2u : 1u, inside && o.churn ? 2u : 0u, inside ? 2u : 0u, inside ? 2u : 0u})) {
		case 0:
			if (e)
				act_send(w, e, inside ? std::min<size_t>(maxlen, 2000) : maxlen);
			break;
		case 1: {
			Ctx *c = pick_ctx();
			if (c->server && c->started)
				act_bcast(w, c, inside ? std::min<size_t>(maxlen, 2000) : maxlen);
			break;
		}
		case 2:
			w.rd.gen(g, true, 300);
			w.wr.gen(g, false, 100);
			if (o.errors && g.chance(1, 3)) {
				static const int errs[] = {-EPIPE, -ECONNRESET, -EIO, -ENOBUFS};
				Plan &p = g.flip() ? w.wr : w.rd;
				p.steps.insert(p.steps.begin() + (long)g.below(p.steps.size() + 1), errs[g.below(4)]);
				p.budget = std::max(p.budget, 1 + (unsigned)g.below(12));
			}
			small_plan_note(w);
			break;
		case 3:
			if (e && e->up && !e->shut) {
				note("   e%u: suspend", e->id);
				CHECK(pomp_conn_suspend_read(e->conn) == 0, "suspend_read");
				e->suspended = true;
				susp++;
			}
			break;
		case 4:
			if (e && e->up && !e->shut) {
				note("   e%u: resume", e->id);
				CHECK(pomp_conn_resume_read(e->conn) == 0, "resume_read");
				resumed += e->suspended;
				e->suspended = false;
			}
			break;
		case 5: {
			size_t n = gen_rdlen(g);
			if (w.bigsent)
				n = std::max<size_t>(n, 2000);
			w.slowread = w.slowread || n < 2000;
			if (g.flip() && e && e->up) {
				note("   e%u: read buffer %zu", e->id, n);
				CHECK(pomp_conn_set_read_buffer_len(e->conn, n) == 0, "set_read_buffer_len");
			} else {
				Ctx *c = pick_ctx();
				note("   %s%u: read buffer %zu", c->server ? "s" : "c", c->id, n);
				CHECK(pomp_ctx_set_read_buffer_len(c->p, n) == 0, "ctx_set_read_buffer_len");
			}
			break;
		}
		case 6:
			if (e && (o.churn || g.flip())) {
				w.ending(e);
				e->shut = true;
				disc_queued += e->written < e->accepted;
				note("   e%u: disconnect", e->id);
				CHECK(pomp_conn_disconnect(e->conn) == 0, "disconnect");
			}
			break;
		case 7: {
			Ctx *c = pick_ctx();
			note("   %s%u: stop", c->server ? "s" : "c", c->id);
			bool was = c->started;
			w.stop(c);
			inside_stops += was;
			break;
		}
		case 8:
			if (pomp_loop_idle_add(w.loop, &idle_cb, this) != 0)
				fail("idle_add");
			note("   idle_add");
			idles++;
			break;
		default:
			if (timer) {
				if (g.flip()) {
					note("   timer set");
					CHECK(pomp_timer_set(timer, 1 + (uint32_t)g.below(3000)) == 0, "timer_set");
					timer_set = true;
				} else {
					note("   timer clear");
					CHECK(pomp_timer_clear(timer) == 0, "timer_clear");
					timer_set = false;
				}
			}
			break;
		}
	}
	void churn()
	{
		Ctx *c = pick_ctx();
		switch (g.weighted({2, 4, 3, 3})) {
		case 0:
			note("   %s%u: stop", c->server ? "s" : "c", c->id);
			w.stop(c);
			break;
		case 1: { // start one that is stopped, in any role
			for (auto &x : w.ctxs) {
				if (x->started || x->stopping)
					continue;
				Ctx *s = x.get();
				const Ctx *other = nullptr;
				for (auto &y : w.ctxs)
					if (y->started && y->server)
						other = y.get();
				restarts++;
				if (other && g.chance(3, 4)) {
					note("   c%u: connect", s->id);
					w.connect(s, g.flip() ? other->addr : addrs[g.below(addrs.size())]);
				} else {
					// an address that was used before, or a new one
					Addr a = addrs[g.below(addrs.size())];
					bool used = false;
					for (auto &y : w.ctxs)
						used = used || ((y->started || y->stopping) && y->server && y->addr == a);
					if (used || g.chance(1, 4))
						a = new_addr();
					note("   s%u: listen", s->id);
					w.listen(s, a);
					addrs.push_back(s->addr);
				}
				break;
			}
			break;
		}
		case 2:
			note("   2 s later");
			vf_advance(2000000000ull);
			w.wait(0);
			break;
		default: {
			unsigned n = (unsigned)w.ctxs.size();
			if (n < 8) {
				const Ctx *other = nullptr;
				for (auto &y : w.ctxs)
					if (y->started && y->server)
						other = y.get();
				if (other) {
					note("   c%u: new, connect", n);
					w.connect(w.add_ctx(false), other->addr);
				}
			}
			break;
		}
		}
	}
	void run()
	{
		if (o.inside) {
			inside_left = 1 + (unsigned)g.below(60);
			timer = pomp_timer_new(w.loop, &timer_cb, this);
			CHECK(timer, "timer_new");
			w.hook = [&](Ev ev, EndP e, Ctx *c) {
				(void)c;
				if (ev == SOCK && !(o.churn && g.chance(1, 8)))
					return;
				while (inside_left && g.chance(1, 3)) {
					inside_left--;
					inside_done++;
					common(e, true);
				}
			};
		}
		while (g.more(o.avg)) {
			switch (g.weighted({20, 8, o.churn ? 5u : 0u})) {
			case 0: common(nullptr, false); break;
			case 1: {
				unsigned n = 1 + (unsigned)g.below(4);
				note("   wait x%u", n);
				for (unsigned i = 0; i < n; i++)
					w.wait(0);
				w.finish_stops();
				break;
			}
			default: churn(); break;
			}
			w.check_state();
			if (o.keepmax)
				w.check_kept();
			if (g.exhausted())
				break;
		}
		w.hook = nullptr;
		w.finish_stops();
		w.drain();
		for (auto &l : w.live) {
			End &e = *l.second;
			if (o.delivery && !o.raw && !e.ending && e.peer && !e.peer->ending)
				CHECK(e.peer->received == e.nsent, "e%u: %zu messages received by its peer, %zu sent", e.id, e.peer->received, e.nsent);
		}
		if (o.inside) {
			CHECK(idle_runs == idles, "%u idle functions run, %u added", idle_runs, idles);
			if (timer_set) {
				vf_advance(4000000000ull);
				w.until([&] { return !timer_set; });
				CHECK(!timer_set, "timer never fired");
			}
			CHECK(pomp_timer_destroy(timer) == 0, "timer_destroy");
			timer = nullptr;
		}
		w.finish();
		if (w.partial)
			LABEL("partial writes");
		if (w.queued)
			LABEL("queued");
		if (susp)
			LABEL("suspended");
		if (inside_done)
			LABEL("actions in callbacks");
		if (inside_stops)
			LABEL("stops in callbacks");
		if (restarts)
			LABEL("restarts");
		if (disc_queued)
			LABEL("disconnected with bytes queued");
	}
};
} // namespace net
