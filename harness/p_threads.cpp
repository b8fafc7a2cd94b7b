// C33: what threads do with objects of their own is what they would do alone.
// Each thread runs a scenario made from a seed, with its own loop, contexts,
// messages, buffers...; its outcome is compared with that of the same scenario
// run before, alone.  Also run under ThreadSanitizer.
#include "loopimpl.hpp"
#include <atomic>
#include <thread>
#include <stddef.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <unistd.h>
using namespace pbt;

namespace {
struct Rng {
	uint64_t s;
	uint64_t next()
	{
		s ^= s << 13;
		s ^= s >> 7;
		s ^= s << 17;
		return s * 2685821657736338717ull;
	}
	uint64_t below(uint64_t n) { return (next() >> 16) % n; }
};
struct Scen {
	Rng r;
	unsigned ops, id, round;
	std::string log;
	struct pomp_loop *loop = nullptr;
	unsigned timers = 0, closed = 0, events = 0;
	std::string idles;
	void out(const char *fmt, ...) __attribute__((format(printf, 2, 3)))
	{
		char t[400];
		va_list ap;
		va_start(ap, fmt);
		vsnprintf(t, sizeof(t), fmt, ap);
		va_end(ap);
		log += t;
		log += '\n';
	}
	std::string text(size_t max)
	{
		std::string s(r.below(max), 'a');
		for (auto &c : s)
			c = (char)('0' + r.below(75));
		return s;
	}
	void bytes_of(const struct pomp_msg *m)
	{
		const void *d = nullptr;
		size_t n = 0;
		if (pomp_buffer_get_cdata(pomp_msg_get_buffer(m), &d, &n, nullptr) == 0)
			out("%u %zu %016llx", pomp_msg_get_id(m), n, (unsigned long long)fnv(d, n));
	}
	struct pomp_msg *message()
	{
		struct pomp_msg *m = pomp_msg_new();
		std::string s = text(300), b = text(200);
		uint32_t id = (uint32_t)r.below(100000);
		switch (r.below(3)) {
		case 0:
			out("%d", pomp_msg_write(m, id, "%d%s%llu%p%u", (int)r.next(), s.c_str(), (unsigned long long)r.next(), b.data(), (unsigned)b.size()));
			break;
		case 1: {
			std::string n = std::to_string(r.below(1000)), h;
			const char *argv[] = {n.c_str(), s.c_str()};
			out("%d", pomp_msg_write_argv(m, id, "%u%s", 2, argv));
			break;
		}
		default:
			out("%d", pomp_msg_write(m, id, "%hhd%hd%f%lf%s%s%s", (int)(int8_t)r.next(), (int)(int16_t)r.next(), (double)r.below(1000) / 8,
						 (double)r.below(1000000) / 64, s.c_str(), "", b.c_str()));
		}
		return m;
	}
	void codec()
	{
		struct pomp_msg *m = message();
		bytes_of(m);
		char *d = nullptr;
		if (pomp_msg_adump(m, &d) == 0) {
			out("%016llx", (unsigned long long)fnv(d, strlen(d)));
			free(d);
		}
		std::string t(1 + r.below(200), 'x');
		int q = pomp_msg_dump(m, &t[0], (uint32_t)t.size());
		out("dump %d %s", q, t.c_str());
		struct pomp_decoder *dec = pomp_decoder_new();
		pomp_decoder_init(dec, m);
		for (unsigned i = 0; i < 8; i++) {
			int32_t i32 = 0;
			uint64_t u64 = 0;
			char *str = nullptr;
			const char *cs = nullptr;
			const void *cb = nullptr;
			uint32_t len = 0;
			float f = 0;
			int8_t i8 = 0;
			switch (r.below(7)) {
			case 0: q = pomp_decoder_read_i32(dec, &i32); out("%d %d", q, q ? 0 : i32); break;
			case 1: q = pomp_decoder_read_u64(dec, &u64); out("%d %llu", q, q ? 0 : (unsigned long long)u64); break;
			case 2: q = pomp_decoder_read_str(dec, &str); out("%d %s", q, q ? "" : str); if (!q) free(str); break;
			case 3: q = pomp_decoder_read_cstr(dec, &cs); out("%d %s", q, q ? "" : cs); break;
			case 4: q = pomp_decoder_read_cbuf(dec, &cb, &len); out("%d %u %016llx", q, q ? 0 : len, q ? 0 : (unsigned long long)fnv(cb, len)); break;
			case 5: q = pomp_decoder_read_f32(dec, &f); out("%d %f", q, q ? 0 : (double)f); break;
			default: q = pomp_decoder_read_i8(dec, &i8); out("%d %d", q, q ? 0 : i8); break;
			}
		}
		pomp_decoder_destroy(dec);
		char *s1 = nullptr, *s2 = nullptr;
		float f = 0;
		double lf = 0;
		signed char a = 0;
		short b = 0;
		q = pomp_msg_read(m, "%hhd%hd%f%lf%ms%ms", &a, &b, &f, &lf, &s1, &s2);
		out("%d %s %s", q, q ? "" : s1, q ? "" : s2);
		if (!q) {
			free(s1);
			free(s2);
		}
		struct pomp_msg *c = pomp_msg_new_copy(m);
		bytes_of(c);
		// the same, received in pieces
		const void *p = nullptr;
		size_t n = 0, off = 0;
		pomp_buffer_get_cdata(pomp_msg_get_buffer(m), &p, &n, nullptr);
		struct pomp_prot *pr = pomp_prot_new();
		while (off < n) {
			struct pomp_msg *x = nullptr;
			size_t k = std::min<size_t>(n - off, 1 + r.below(100));
			off += (size_t)pomp_prot_decode_msg(pr, (const char *)p + off, k, &x);
			if (x) {
				bytes_of(x);
				pomp_prot_release_msg(pr, x);
			}
		}
		pomp_prot_destroy(pr);
		pomp_msg_destroy(c);
		pomp_msg_destroy(m);
	}
	void addrs()
	{
		char t[200];
		struct sockaddr_storage ss;
		uint32_t len = sizeof(ss);
		std::string s = r.below(2) ? "inet:10." + std::to_string(r.below(256)) + ".3." + std::to_string(r.below(256)) + ":" + std::to_string(r.below(65536)) :
			r.below(2) ? "unix:@" + text(60) : "inet6:fe80::" + std::to_string(r.below(9999)) + ":" + std::to_string(r.below(65536));
		memset(&ss, 0, sizeof(ss));
		int q = pomp_addr_parse(s.c_str(), (struct sockaddr *)&ss, &len);
		out("%d %s", q, s.c_str());
		if (q == 0) {
			q = pomp_addr_format(t, (uint32_t)sizeof(t), (struct sockaddr *)&ss, len);
			out("%d %s %d", q, t, pomp_addr_is_unix((struct sockaddr *)&ss, len));
		}
	}
	static void evt_cb(struct pomp_evt *, void *ud) { ((Scen *)ud)->events++; }
	static void timer_cb(struct pomp_timer *, void *ud)
	{
		((Scen *)ud)->timers++;
	}
	struct Idle {
		Scen *s;
		unsigned n;
	};
	static void idle_cb(void *ud) { ((Idle *)ud)->s->idles += std::to_string(((Idle *)ud)->n); }
	void spin(unsigned quiet = 2)
	{
		for (unsigned q = 0; q < quiet;)
			q = pomp_loop_wait_and_process(loop, 0) == -ETIMEDOUT ? q + 1 : 0;
	}
	void loops()
	{
		struct pomp_evt *e[3];
		Idle id[4];
		events = 0;
		idles.clear();
		for (auto &x : e) {
			x = pomp_evt_new();
			pomp_evt_attach_to_loop(x, loop, evt_cb, this);
		}
		for (unsigned i = 0; i < 4; i++) {
			id[i] = {this, i};
			pomp_loop_idle_add_with_cookie(loop, idle_cb, &id[i], (void *)(uintptr_t)(1 + r.below(2)));
		}
		if (r.below(2))
			pomp_loop_idle_remove_by_cookie(loop, (void *)(uintptr_t)1);
		for (auto &x : e)
			for (unsigned k = (unsigned)r.below(3); k > 0; k--)
				pomp_evt_signal(x);
		if (r.below(2))
			pomp_evt_clear(e[1]);
		if (r.below(2))
			pomp_loop_wakeup(loop);
		spin();
		out("events %u, idle functions %s", events, idles.c_str());
		for (auto &x : e) {
			out("%d", pomp_evt_detach_from_loop(x, loop));
			pomp_evt_destroy(x);
		}
	}
	void timer()
	{
		struct pomp_timer *t = pomp_timer_new(loop, timer_cb, this);
		timers = 0;
		unsigned want = 1 + (unsigned)r.below(3);
		pomp_timer_set_periodic(t, 1, 1);
		for (unsigned i = 0; i < 5000 && timers < want; i++)
			pomp_loop_wait_and_process(loop, 2);
		out("timer %d", timers >= want);
		pomp_timer_clear(t);
		pomp_timer_destroy(t);
	}
	unsigned got = 0, up = 0;
	static void ctx_cb(struct pomp_ctx *c, enum pomp_event ev, struct pomp_conn *conn, const struct pomp_msg *m, void *ud)
	{
		Scen *s = (Scen *)ud;
		switch (ev) {
		case POMP_EVENT_CONNECTED: s->up++; break;
		case POMP_EVENT_DISCONNECTED: s->up--; break;
		case POMP_EVENT_MSG: {
			char *t = nullptr;
			unsigned n = 0, k = 0;
			if (pomp_msg_get_id(m) == 6) {
				int a = -1, b = -1;
				char ta[32] = "", tb[32] = "";
				int q = pomp_msg_read(m, "%u%x%x", &n, &a, &b);
				if (q == 0 && (read(a, ta, sizeof(ta) - 1) < 0 || read(b, tb, sizeof(tb) - 1) < 0))
					s->out("read");
				s->out("descriptors %d %u %s %s", q, n, ta, tb);
				s->got++;
				break;
			}
			s->bytes_of(m);
			if (pomp_msg_read(m, "%u%u%ms", &n, &k, &t) == 0) {
				s->out("message %u %u %s", n, k, t);
				if (k)
					s->out("%d", pomp_conn_send(conn, 5, "%u%u%s", n, k - 1, t));
				free(t);
			}
			s->got++;
			break;
		}
		}
		(void)c;
	}
	void contexts()
	{
		struct sockaddr_un a;
		memset(&a, 0, sizeof(a));
		a.sun_family = AF_UNIX;
		int n = snprintf(a.sun_path + 1, sizeof(a.sun_path) - 1, "vpth%d_%u_%u_%u", (int)getpid(), id, round, closed++);
		socklen_t len = (socklen_t)(offsetof(struct sockaddr_un, sun_path) + 1 + n);
		struct pomp_ctx *s = pomp_ctx_new_with_loop(ctx_cb, this, loop), *c = pomp_ctx_new_with_loop(ctx_cb, this, loop);
		up = got = 0;
		out("%d %d", pomp_ctx_listen(s, (struct sockaddr *)&a, len), pomp_ctx_connect(c, (struct sockaddr *)&a, len));
		for (unsigned i = 0; i < 5000 && up < 2; i++)
			pomp_loop_wait_and_process(loop, 2);
		out("up %u", up);
		unsigned want = 0;
		for (unsigned i = 0, k = 1 + (unsigned)r.below(5); i < k; i++) {
			unsigned hops = (unsigned)r.below(3);
			std::string t = text(400);
			out("%d", pomp_ctx_send(c, 4, "%u%u%s", i, hops, t.c_str()));
			want += 1 + hops;
			int p[2], q[2];
			if (r.below(2) && pipe(p) == 0 && pipe(q) == 0) {
				t = std::to_string(r.below(100000));
				std::string u = std::to_string(r.below(100000));
				if (write(p[1], t.data(), t.size()) < 0 || write(q[1], u.data(), u.size()) < 0)
					out("write");
				out("%d", pomp_ctx_send(c, 6, "%u%x%x", i, p[0], q[0]));
				want++;
				for (int fd : {p[0], p[1], q[0], q[1]})
					close(fd);
			}
			for (unsigned j = 0; j < 5000 && got < want; j++)
				pomp_loop_wait_and_process(loop, 2);
		}
		out("got %u", got);
		out("%d %d", pomp_ctx_stop(c), pomp_ctx_stop(s));
		spin();
		out("up %u, %d %d", up, pomp_ctx_destroy(c), pomp_ctx_destroy(s));
	}
	void buffers()
	{
		struct pomp_buffer *b = pomp_buffer_new(r.below(100)), *k = nullptr;
		for (unsigned i = 0; i < 6; i++) {
			std::string t = text(200);
			switch (r.below(4)) {
			case 0: out("%d", pomp_buffer_append_data(b, t.data(), t.size())); break;
			case 1: out("%d", pomp_buffer_set_len(b, r.below(100))); break;
			case 2: out("%d", pomp_buffer_ensure_capacity(b, 500)); break;
			default:
				if (!k) {
					k = b;
					pomp_buffer_ref(k);
				} else {
					pomp_buffer_unref(k);
					k = nullptr;
				}
			}
		}
		const void *d = nullptr;
		size_t n = 0, cap = 0;
		pomp_buffer_get_cdata(b, &d, &n, &cap);
		out("%zu %zu", n, cap);
		if (k)
			pomp_buffer_unref(k);
		pomp_buffer_unref(b);
	}
	void run()
	{
		loop = pomp_loop_new();
		for (unsigned i = 0; i < ops; i++) {
			switch (r.below(12)) {
			case 0: case 1: case 2: codec(); break;
			case 3: case 4: addrs(); break;
			case 5: case 6: case 7: loops(); break;
			case 8: timer(); break;
			case 9: case 10: contexts(); break;
			default: buffers(); break;
			}
		}
		spin();
		out("%d", pomp_loop_destroy(loop));
	}
};
} // namespace

PBT_TARGET(c33_threads, "2 to 4 threads each running a scenario of messages, addresses, loops, events, timers, contexts and buffers of its own, all at once; outcomes compared "
	"with those of the same scenarios run alone; non-trivial: 8 operations or more", 1, 60)
{
	Impls im;
	bool poll = g.flip(), pevt = g.flip();
	CHECK(set_loop_impl(poll), "impl");
	set_evt_impl(pevt);
	set_timer_impl(getenv("VF_POSIX_TIMERS") != nullptr); // see known_findings.txt
	unsigned n = 2 + (unsigned)g.below(3), total = 0;
	note("%s loops, %s events", poll ? "poll" : "epoll", pevt ? "pipe" : "eventfd");
	Scen alone[4], together[4];
	for (unsigned i = 0; i < n; i++) {
		uint64_t seed = 1 + g.below(1u << 20);
		unsigned ops = 1 + (unsigned)g.below(8);
		total += ops;
		note("thread %u: seed %llu, %u operations", i, (unsigned long long)seed, ops);
		seed = seed * 0x9e3779b97f4a7c15ull | 1;
		for (Scen *s : {&alone[i], &together[i]}) {
			s->r.s = seed;
			s->ops = ops;
			s->id = i;
			s->round = s == &together[i];
		}
		alone[i].run();
	}
	std::atomic<unsigned> ready{0};
	std::vector<std::thread> ts;
	for (unsigned i = 0; i < n; i++)
		ts.emplace_back([&, i] {
			ready++;
			while (ready < n)
				std::this_thread::yield();
			together[i].run();
		});
	for (auto &t : ts)
		t.join();
	for (unsigned i = 0; i < n; i++) {
		if (alone[i].log == together[i].log)
			continue;
		size_t d = 0;
		while (d < alone[i].log.size() && d < together[i].log.size() && alone[i].log[d] == together[i].log[d])
			d++;
		d = d > 60 ? d - 60 : 0;
		fail("thread %u: alone ...%s, among others ...%s", i, alone[i].log.substr(d, 200).c_str(), together[i].log.substr(d, 200).c_str());
	}
	if (total >= 8)
		nontrivial();
}
