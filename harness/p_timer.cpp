// C23: timers fire on time, as often as asked, and not after being cleared.
#include "loopimpl.hpp"
#include <poll.h>
#include <unistd.h>
using namespace pbt;

namespace {
const uint64_t MS = 1000000ull;

struct Tm {
	struct pomp_timer *t = nullptr;
	uint64_t next = 0;      // time of the next expiration, 0: not set
	uint64_t period = 0;
	bool atstart = false;   // expired when the wait began, and not set or cleared since
	unsigned calls = 0;
	unsigned late = 0;      // real time: calls since it was set
	uint64_t set_at = 0, delay = 0;
};
struct World {
	Gen *g;
	struct pomp_loop *loop;
	bool virt;
	std::vector<Tm *> tms;  // slots; t == nullptr when destroyed
	unsigned budget = 0;
	bool waiting = false, inside = false, killed = false;
	Tm *dead = nullptr;
} *W;

uint64_t now() { return W->virt ? vf_now_ns : mono_ns(); }

uint64_t gen_ms(Gen &g)
{
	if (!W->virt)
		return 1 + g.below(g.chance(1, 4) ? 40 : 5);
	switch (g.weighted({5, 3, 2})) {
	case 0: return 1 + g.below(5);
	case 1: {
		static const uint32_t v[] = {1, 2, 999, 1000, 1001, 1999, 2000, 4294, 4295, 4296, 59999, 60000, 65535, 65536, 2147483, 2147484,
			0x7fffffffu, 0x80000000u, 0xfffffffeu, 0xffffffffu};
		return v[g.below(sizeof(v) / sizeof(v[0]))];
	}
	default: { uint64_t v = g.integer(32) & 0xffffffffu; return v ? v : 1; }
	}
}

void timer_cb(struct pomp_timer *timer, void *userdata);

void act(Gen &g)
{
	size_t i = (size_t)g.below(W->tms.size());
	Tm *m = W->tms[i];
	const char *p = W->waiting ? "    " : "";
	if (!m->t) {
		note("%snew t%zu", p, i);
		m->t = pomp_timer_new(W->loop, timer_cb, m);
		CHECK(m->t, "timer_new failed");
		m->next = 0;
		m->atstart = false;
		m->calls = 0;
		return;
	}
	bool was = W->waiting && m->atstart && !m->calls;
	switch (g.weighted({5, 5, 3, 1, 1})) {
	case 0: {
		uint64_t d = gen_ms(g);
		note("%sset t%zu %lu ms", p, i, (unsigned long)d);
		m->set_at = now();
		CHECK(pomp_timer_set(m->t, (uint32_t)d) == 0, "timer_set failed");
		m->next = m->set_at + d * MS;
		m->period = 0;
		m->delay = d * MS;
		m->late = 0;
		break;
	}
	case 1: {
		uint64_t d = gen_ms(g), per = g.chance(1, 6) ? 0 : gen_ms(g);
		note("%sset_periodic t%zu %lu ms, %lu ms", p, i, (unsigned long)d, (unsigned long)per);
		m->set_at = now();
		CHECK(pomp_timer_set_periodic(m->t, (uint32_t)d, (uint32_t)per) == 0, "timer_set_periodic failed");
		m->next = m->set_at + d * MS;
		m->period = per * MS;
		m->delay = d * MS;
		m->late = 0;
		break;
	}
	case 2:
		note("%sclear t%zu", p, i);
		CHECK(pomp_timer_clear(m->t) == 0, "timer_clear failed");
		m->next = 0;
		break;
	case 3:
		note("%sdestroy t%zu", p, i);
		CHECK(pomp_timer_destroy(m->t) == 0, "timer_destroy failed");
		m->t = nullptr;
		m->next = 0;
		break;
	case 4:
		CHECK(pomp_timer_new(nullptr, timer_cb, m) == nullptr && pomp_timer_new(W->loop, nullptr, m) == nullptr, "timer_new with NULL");
		CHECK(pomp_timer_set(nullptr, 5) == -EINVAL && pomp_timer_set_periodic(nullptr, 5, 5) == -EINVAL &&
			pomp_timer_clear(nullptr) == -EINVAL && pomp_timer_destroy(nullptr) == -EINVAL, "NULL timer");
		return;
	}
	if (was)
		W->killed = true;
	m->atstart = false;
}

void timer_cb(struct pomp_timer *timer, void *userdata)
{
	Tm *m = (Tm *)userdata;
	uint64_t n = now();
	size_t i = 0;
	while (i < W->tms.size() && W->tms[i] != m)
		i++;
	note("  callback t%zu", i);
	CHECK(W->waiting, "callback outside a wait");
	CHECK(m->t == timer, "callback of a destroyed timer");
	CHECK(m->next != 0, "callback of a timer that is not set");
	if (W->virt) {
		CHECK(m->atstart, "callback of a timer that has not expired since it was set");
		CHECK(m->calls == 0, "callback twice in one wait");
		m->atstart = false;
		if (!m->period)
			m->next = 0;
	} else {
		CHECK(n >= m->next, "callback %lu us early", (unsigned long)((m->next - n) / 1000));
		m->late++;
		if (!m->period) {
			m->next = 0;
		} else {
			// never more callbacks than periods elapsed
			uint64_t k = 1 + (n - m->set_at - m->delay) / m->period;
			CHECK(m->late <= k, "%u callbacks in %lu periods", m->late, (unsigned long)k);
			m->next = m->set_at + m->delay + m->late * m->period;
		}
	}
	m->calls++;
	while (W->budget && W->g->chance(1, 2)) {
		W->budget--;
		W->inside = true;
		act(*W->g);
	}
}

void setup(World &w, Gen &g, bool virt)
{
	bool poll = g.flip();
	W = &w;
	w.g = &g;
	w.virt = virt;
	CHECK(set_loop_impl(poll), "impl");
	w.loop = pomp_loop_new();
	CHECK(w.loop, "loop_new");
	for (unsigned i = 0, n = 1 + (unsigned)g.below(6); i < n; i++)
		w.tms.push_back(new Tm());
}
void cleanup(World &w)
{
	for (auto m : w.tms)
		if (m->t)
			CHECK(pomp_timer_destroy(m->t) == 0, "timer_destroy");
	CHECK(pomp_loop_destroy(w.loop) == 0, "loop_destroy");
	for (auto m : w.tms)
		delete m;
}
} // namespace

PBT_TARGET(c23_virtual, "histories of timers in virtual time: set, set again, clear, destroy, also inside callbacks, time going to just before, at and "
	"after expirations; non-trivial: an expired timer was set again, cleared or destroyed by another callback, or 2 callbacks in a wait", 40)
{
	Clean cl;
	Impls im;
	World w;
	vf_virtual_time = 1;
	bool posix = g.flip();
	set_timer_impl(posix);
	note("%s timers", posix ? "posix" : "timerfd");
	setup(w, g, true);
	unsigned steps = 0;
	do {
		if (!g.chance(2, 5)) {
			act(g);
			continue;
		}
		// time passes
		uint64_t d = 0, best = UINT64_MAX;
		for (auto m : w.tms)
			if (m->next && m->next > vf_now_ns && m->next < best)
				best = m->next;
		switch (g.weighted({6, 2, 2, 2, 1})) {
		case 0: d = best == UINT64_MAX ? 0 : best - vf_now_ns; break;
		case 1: d = best == UINT64_MAX ? 0 : best - vf_now_ns - 1; break;
		case 2: d = g.below(30) * MS; break;
		case 3: {
			// up to the one after
			size_t i = (size_t)g.below(w.tms.size());
			if (w.tms[i]->next > vf_now_ns)
				d = w.tms[i]->next - vf_now_ns;
			break;
		}
		case 4: d = g.below(5000000) * MS; break;
		}
		vf_advance(d);
		note("time +%lu us", (unsigned long)(d / 1000));
		unsigned n = 0;
		for (auto m : w.tms) {
			m->calls = 0;
			m->atstart = false;
			if (!m->next || m->next > vf_now_ns)
				continue;
			m->atstart = true;
			n++;
			if (m->period) // all the expirations so far are one callback
				m->next += (1 + (vf_now_ns - m->next) / m->period) * m->period;
		}
		w.budget = (unsigned)g.below(6);
		interruptions(g);
		w.waiting = true;
		int r = pomp_loop_wait_and_process(w.loop, 0);
		w.waiting = false;
		unsigned calls = 0;
		for (auto m : w.tms) {
			CHECK(!m->atstart, "timer expired, callback not called");
			calls += m->calls;
		}
		CHECK(r == (n ? 0 : -ETIMEDOUT), "wait returned %d, %u timers expired", r, n);
		if (w.killed || calls >= 2)
			nontrivial();
		if (w.killed)
			LABEL("expired timer set, cleared or destroyed by a callback");
		w.killed = false;
	} while (++steps < 60 && g.more(20));
	if (g.flip())
		vf_advance(g.below(8) * MS); // expired, not processed
	cleanup(w);
	vf_advance(UINT64_MAX / 4); // nothing is left to fire
	CHECK(vf_ptimers == 0, "%ld posix timers left", vf_ptimers);
	cl.verify();
}

static void real(Gen &g, bool posix)
{
	Clean cl;
	Impls im;
	World w;
	long pt = vf_ptimers;
	set_timer_impl(posix);
	setup(w, g, false);
	note("%s timers", posix ? "posix" : "timerfd");
	unsigned rounds = 1 + (unsigned)g.below(5);
	for (unsigned k = 0; k < rounds; k++) {
		for (unsigned a = 0, n = 1 + (unsigned)g.below(8); a < n; a++)
			act(g);
		// let some expire without processing
		if (g.flip()) {
			uint64_t until = mono_ns() + g.below(8) * MS;
			while (mono_ns() < until)
				usleep(200);
		}
		unsigned n = 0;
		uint64_t last = 0;
		for (auto m : w.tms) {
			m->calls = 0;
			m->atstart = m->next != 0;
			n += m->atstart;
			if (m->next > last)
				last = m->next;
		}
		w.budget = (unsigned)g.below(6);
		// every timer set has to fire, unless a callback acts on it
		uint64_t t0 = mono_ns();
		w.waiting = true;
		note("run until all have fired");
		for (;;) {
			bool left = false;
			for (auto m : w.tms)
				left = left || (m->atstart && m->calls == 0);
			if (!left)
				break;
			CHECK(mono_ns() - t0 < 10000 * MS, "timer not fired after 10 s");
			pomp_loop_wait_and_process(w.loop, 100);
		}
		// some more time: nothing more than due
		if (g.flip())
			pomp_loop_wait_and_process(w.loop, 2);
		w.waiting = false;
		if (n >= 2 && (w.killed || w.inside))
			nontrivial();
		w.killed = w.inside = false;
	}
	if (g.flip()) {
		// destroyed while set, then its time passes
		for (auto m : w.tms)
			if (m->t) {
				pomp_timer_set(m->t, 1);
				CHECK(pomp_timer_destroy(m->t) == 0, "timer_destroy");
				m->t = nullptr;
				m->next = 0;
			}
		usleep(1500);
		w.waiting = true;
		pomp_loop_wait_and_process(w.loop, 0);
		w.waiting = false;
	}
	cleanup(w);
	CHECK(vf_ptimers == pt, "%ld posix timers left", vf_ptimers - pt);
	cl.verify();
}

PBT_TARGET(c23_posix, "the same in real time with posix timers and delays of 1 to 40 ms: never early, never more often than due, always within 10 s, never after "
	"clear or destroy; non-trivial: 2 or more timers set and a callback acting on timers", 1, 120)
{
	real(g, true);
}
PBT_TARGET(c23_timerfd, "the same in real time with timerfd; non-trivial: 2 or more timers set and a callback acting on timers", 1, 120)
{
	real(g, false);
}
