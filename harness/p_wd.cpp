// C24: the watchdog fires exactly for processing that exceeds its delay.
#include "loopimpl.hpp"
#include <dirent.h>
#include <poll.h>
#include <sys/eventfd.h>
#include <unistd.h>
using namespace pbt;

namespace {
const uint64_t MS = 1000000ull;
struct Wd { std::atomic<unsigned> n{0}; struct pomp_loop *loop = nullptr; };
void wd_cb(struct pomp_loop *loop, void *userdata)
{
	Wd *w = (Wd *)userdata;
	if (loop != w->loop)
		w->n += 1000000;
	w->n++;
}
int threads()
{
	int n = 0;
	DIR *d = opendir("/proc/self/task");
	while (struct dirent *e = readdir(d))
		n += e->d_name[0] != '.';
	closedir(d);
	return n;
}
// a thread joined may still be listed for a short while
bool threads_back(int base)
{
	for (int i = 0; i < 2000; i++) {
		if (threads() == base)
			return true;
		usleep(1000);
	}
	return false;
}
enum What { QUICK, STUCK, DISABLE_STUCK, DISABLE_ENABLE, NEAR };
struct World {
	struct pomp_loop *loop;
	int efd;
	Wd *cur = nullptr;      // nullptr: disabled
	Wd slots[3];
	unsigned expect[3] = {0, 0, 0};
	uint32_t delay = 0;
	What what = QUICK;
	bool late = false;
	uint64_t disabled_at = 0;
	Gen *g;
} *W;
void spin(uint64_t until)
{
	while (mono_ns() < until)
		usleep(200);
}
void efd_cb(int fd, uint32_t, void *)
{
	uint64_t v, t0 = mono_ns();
	(void)!read(fd, &v, sizeof(v));
	switch (W->what) {
	case QUICK:
		break;
	case NEAR: // may finish before or after
		spin(t0 + W->delay * MS - MS + W->g->below(2 * MS));
		break;
	case STUCK: {
		unsigned i = (unsigned)(W->cur - W->slots);
		// stuck until the watchdog notices
		while (W->slots[i].n == W->expect[i]) {
			usleep(200);
			if (mono_ns() - t0 > 8000 * MS) {
				W->late = true;
				return;
			}
		}
		// and then some more
		spin(mono_ns() + W->g->below(2) * W->delay * MS + MS);
		break;
	}
	case DISABLE_STUCK:
		CHECK(pomp_loop_watchdog_disable(W->loop) == 0, "disable");
		W->disabled_at = mono_ns();
		W->cur = nullptr;
		spin(t0 + W->delay * MS + 5 * MS);
		break;
	case DISABLE_ENABLE: // what happens in the rest of this dispatch is not specified
		CHECK(pomp_loop_watchdog_disable(W->loop) == 0, "disable");
		W->disabled_at = mono_ns();
		W->cur = nullptr;
		break;
	}
}
} // namespace

PBT_TARGET(c24_watchdog, "histories of enable, disable, dispatches that end at once, get stuck until the watchdog fires, or disable it, long waits without events, "
	"and destruction, with both loops; non-trivial: a stuck dispatch and a quick one, or a dispatch that disabled it", 1, 60)
{
	Clean cl;
	Impls im;
	World w;
	W = &w;
	w.g = &g;
	bool poll = g.flip();
	int base = threads();
	CHECK(set_loop_impl(poll), "impl");
	w.loop = pomp_loop_new();
	CHECK(w.loop, "loop_new");
	w.efd = eventfd(0, EFD_NONBLOCK | EFD_CLOEXEC);
	for (auto &s : w.slots)
		s.loop = w.loop;
	CHECK(pomp_loop_add(w.loop, w.efd, POMP_FD_EVENT_IN, efd_cb, nullptr) == 0, "add");
	// with a coarse clock, timeouts fall on whole seconds
	bool coarse = g.chance(1, 3);
	long tick = 10;
	if (coarse)
		vf_clock_tick = tick * MS;
	note("%s loop%s", poll ? "poll" : "epoll", coarse ? ", coarse clock" : "");
	unsigned nq = 0, ns = 0, nd = 0;
	bool aligned = false;
	auto verify = [&](const char *what) {
		for (int i = 0; i < 3; i++)
			CHECK(w.slots[i].n == w.expect[i], "%s: watchdog callback called %u times, expected %u", what, (unsigned)w.slots[i].n, w.expect[i]);
	};
	auto enable = [&] {
		int i = (int)g.below(3);
		uint32_t d = coarse ? 20 + 10 * (uint32_t)g.below(3) : 5 + (uint32_t)g.below(30);
		if (g.chance(1, 10)) { // some other thread delay
			static const uint32_t big[] = {1000, 2000, 60000, 4294967, 0xffffffffu};
			d = big[g.below(5)];
		}
		note("enable slot%d %u ms", i, d);
		CHECK(pomp_loop_watchdog_enable(w.loop, d, wd_cb, &w.slots[i]) == 0, "enable");
		w.cur = &w.slots[i];
		w.delay = d;
	};
	auto dispatch = [&](What what) {
		uint64_t v = 1;
		(void)!write(w.efd, &v, sizeof(v));
		w.what = what;
		bool on = w.cur != nullptr;
		int i = on ? (int)(w.cur - w.slots) : -1;
		uint64_t t0 = mono_ns();
		int r = pomp_loop_wait_and_process(w.loop, 1000);
		uint64_t dt = mono_ns() - t0;
		CHECK(r == 0, "wait: %d", r);
		CHECK(!w.late, "dispatch of more than 8 s not noticed, delay %u ms", w.delay);
		if (what == STUCK) {
			w.expect[i]++;
		} else if (on && dt + (coarse ? (uint64_t)tick * MS : 0) >= w.delay * MS && what != DISABLE_STUCK) {
			// it may have been noticed
			if (w.slots[i].n == w.expect[i] + 1)
				w.expect[i]++;
		} else if (on && what == DISABLE_STUCK && w.slots[i].n == w.expect[i] + 1 &&
				w.disabled_at - t0 + (coarse ? (uint64_t)tick * MS : 0) >= w.delay * MS) {
			w.expect[i]++; // late before it could be disabled
		}
		verify(what == QUICK ? "quick dispatch" : what == STUCK ? "stuck dispatch" : "dispatch");
	};
	unsigned steps = 0;
	if (g.chance(4, 5))
		enable();
	do {
		switch (g.weighted({4, 3, 2, 2, 2, 2, 2, 1, 1})) {
		case 0:
			note("quick dispatch");
			dispatch(QUICK);
			nq++;
			break;
		case 1:
			if (!w.cur || w.delay > 100)
				break;
			if (coarse && !aligned && g.chance(1, 6)) {
				// the timeout will be a whole second
				uint64_t now = mono_ns() + w.delay * MS, s = 1000 * MS;
				spin(mono_ns() + (s - now % s) % s + MS);
				aligned = true;
				LABEL("timeout on a whole second");
			}
			note("stuck dispatch");
			dispatch(STUCK);
			ns++;
			break;
		case 2:
			if (w.delay > 100)
				break;
			// no event: waiting is not processing
			note("wait for longer than the delay");
			CHECK(pomp_loop_wait_and_process(w.loop, (int)w.delay + 3) == -ETIMEDOUT, "wait");
			verify("wait without events");
			break;
		case 3: enable(); break;
		case 4:
			note("disable");
			CHECK(pomp_loop_watchdog_disable(w.loop) == 0, "disable");
			w.cur = nullptr;
			verify("disable");
			CHECK(threads_back(base), "watchdog thread left behind by disable");
			break;
		case 5:
			if (!w.cur || w.delay > 100)
				break;
			note("dispatch disabling the watchdog, then longer than the delay");
			dispatch(DISABLE_STUCK);
			nd++;
			break;
		case 6: {
			if (!w.cur)
				break;
			uint32_t d = w.delay;
			note("dispatch disabling the watchdog, enabled after the delay");
			dispatch(DISABLE_ENABLE);
			if (d <= 100)
				spin(mono_ns() + (d + 1) * MS);
			enable();
			usleep(1000);
			verify("enabled again");
			nd++;
			break;
		}
		case 7:
			if (!w.cur || w.delay > 100)
				break;
			note("dispatch of about the delay");
			dispatch(NEAR);
			break;
		case 8:
			CHECK(pomp_loop_watchdog_enable(w.loop, 0, wd_cb, nullptr) == -EINVAL, "enable with no delay");
			CHECK(pomp_loop_watchdog_enable(w.loop, 5, nullptr, nullptr) == -EINVAL, "enable without callback");
			CHECK(pomp_loop_watchdog_enable(nullptr, 5, wd_cb, nullptr) == -EINVAL, "enable on NULL");
			CHECK(pomp_loop_watchdog_disable(nullptr) == -EINVAL, "disable on NULL");
			break;
		}
	} while (++steps < 20 && g.more(7));
	if (g.flip() && w.cur) {
		CHECK(pomp_loop_watchdog_disable(w.loop) == 0, "disable");
	}
	pomp_loop_remove(w.loop, w.efd);
	CHECK(pomp_loop_destroy(w.loop) == 0, "destroy");
	verify("destroy");
	CHECK(threads_back(base), "watchdog thread left behind");
	close(w.efd);
	cl.verify();
	if ((nq && ns) || nd)
		nontrivial();
}
