// C22: events and wakeups are never lost, and are safe across threads.
#include "loopimpl.hpp"
#include <poll.h>
#include <signal.h>
#include <thread>
#include <unistd.h>
using namespace pbt;

namespace {
struct Ev {
	struct pomp_evt *e;
	int loop;        // -1: not attached
	unsigned sig;    // signals since it was last cleared or notified
	void *ud;
	bool atstart;    // had to be notified when the wait began
	unsigned calls;
};
struct World {
	Gen *g;
	struct pomp_loop *loops[2];
	bool poll[2];
	std::vector<Ev> evs;
	std::vector<int *> uds;
	int waiting = -1;
	unsigned budget = 0, waitcalls = 0;
	bool inside = false, cleared_inside = false;
} *W;

void evt_cb(struct pomp_evt *evt, void *userdata);

void act(Gen &g)
{
	size_t i = (size_t)g.below(W->evs.size());
	Ev &e = W->evs[i];
	const char *p = W->waiting >= 0 ? "    " : "";
	switch (g.weighted({8, 4, 4, 4, 2, 1})) {
	case 0: {
		if (g.flip()) // some more
			for (auto &x : W->evs)
				if (g.flip()) {
					CHECK(pomp_evt_signal(x.e) == 0, "signal failed");
					x.sig++;
					note("%ssignal ev%d", p, (int)(&x - W->evs.data()));
				}
		unsigned n = g.chance(1, 20) ? 1 + (unsigned)g.below(300) : g.chance(1, 2000) ? 70000 : 1;
		note("%ssignal ev%zu x%u", p, i, n);
		for (unsigned k = 0; k < n; k++) {
			int r = pomp_evt_signal(e.e);
			CHECK(r == 0, "signal failed: %d", r);
		}
		e.sig += n;
		break;
	}
	case 1:
		note("%sclear ev%zu", p, i);
		CHECK(pomp_evt_clear(e.e) == 0, "clear failed");
		if (W->waiting >= 0 && e.atstart && !e.calls)
			W->cleared_inside = true;
		e.sig = 0;
		e.atstart = false;
		break;
	case 2: {
		int l = g.chance(1, 5);
		void *ud = new int(0);
		W->uds.push_back((int *)ud);
		int r = pomp_evt_attach_to_loop(e.e, W->loops[l], evt_cb, ud);
		note("%sattach ev%zu to loop%d -> %d", p, i, l, r);
		if (e.loop >= 0) {
			CHECK(r == -EEXIST, "attach of an attached event returned %d", r);
		} else {
			CHECK(r == 0, "attach failed: %d", r);
			e.loop = l;
			e.ud = ud;
			// what is pending is notified by a later wait
		}
		break;
	}
	case 3: {
		int l = (int)g.below(2);
		int r = pomp_evt_detach_from_loop(e.e, W->loops[l]);
		note("%sdetach ev%zu from loop%d -> %d", p, i, l, r);
		if (e.loop == l) {
			CHECK(r == 0, "detach failed: %d", r);
			if (W->waiting >= 0 && e.atstart && !e.calls)
				W->cleared_inside = true;
			e.loop = -1;
			e.atstart = false;
		} else {
			CHECK(r == (e.loop < 0 ? -ENOENT : -EINVAL), "detach from the wrong loop returned %d", r);
		}
		break;
	}
	case 4:
		CHECK(pomp_evt_is_attached(e.e, nullptr) == (e.loop >= 0), "is_attached(NULL)");
		for (int l = 0; l < 2; l++)
			CHECK(pomp_evt_is_attached(e.e, W->loops[l]) == (e.loop == l), "is_attached");
		break;
	case 5:
		CHECK(pomp_evt_signal(nullptr) == -EINVAL && pomp_evt_clear(nullptr) == -EINVAL, "NULL event");
		CHECK(pomp_evt_attach_to_loop(e.e, nullptr, evt_cb, nullptr) == -EINVAL, "attach to NULL");
		CHECK(pomp_evt_attach_to_loop(e.e, W->loops[0], nullptr, nullptr) == -EINVAL, "attach without callback");
		if (e.loop >= 0) {
			int r = pomp_evt_destroy(e.e);
			note("%sdestroy ev%zu -> %d", p, i, r);
			CHECK(r == -EBUSY, "destroy of an attached event returned %d", r);
		} else if (W->waiting < 0) {
			note("%sreplace ev%zu", p, i);
			CHECK(pomp_evt_destroy(e.e) == 0, "destroy failed");
			e.e = pomp_evt_new();
			CHECK(e.e, "evt_new");
			e.sig = 0;
		}
		break;
	}
}
void evt_cb(struct pomp_evt *evt, void *userdata)
{
	CHECK(W->waiting >= 0, "callback outside a wait");
	Ev *e = nullptr;
	for (auto &x : W->evs)
		if (x.e == evt)
			e = &x;
	CHECK(e, "callback for an unknown event");
	note("  callback ev%d", (int)(e - W->evs.data()));
	CHECK(e->loop == W->waiting, "callback of an event not attached to that loop");
	CHECK(e->ud == userdata, "callback with the wrong data");
	CHECK(e->sig > 0, "callback of an event that is not signaled");
	e->sig = 0;
	e->calls++;
	W->waitcalls++;
	while (W->budget && W->g->chance(1, 2)) {
		W->budget--;
		W->inside = true;
		act(*W->g);
	}
}
void do_wait(Gen &g)
{
	int l = g.chance(1, 5);
	unsigned n = 0;
	bool wk = g.chance(1, 6);
	if (wk) {
		unsigned k = g.chance(1, 10) ? 1 + (unsigned)g.below(200) : g.chance(1, 500) ? 70000 : 1;
		note("wakeup loop%d x%u", l, k);
		for (unsigned j = 0; j < k; j++) {
			int r = pomp_loop_wakeup(W->loops[l]);
			CHECK(r == 0, "wakeup failed: %d", r);
		}
	}
	for (auto &e : W->evs) {
		e.calls = 0;
		e.atstart = e.loop == l && e.sig > 0;
		n += e.atstart;
	}
	int to = (n || wk) && g.flip() ? -1 : 0;
	note("wait loop%d %d (%u signaled)", l, to, n);
	W->waiting = l;
	W->waitcalls = 0;
	W->budget = (unsigned)g.below(8);
	int r = pomp_loop_wait_and_process(W->loops[l], to);
	W->waiting = -1;
	note("  -> %d", r);
	if (n || wk)
		CHECK(r == 0, "wait returned %d, %u events signaled", r, n);
	for (auto &e : W->evs)
		CHECK(!e.atstart || e.calls == 1, "event signaled and notified %u times", e.calls);
	if (n >= 2 && (W->cleared_inside || W->inside))
		nontrivial();
	if (W->cleared_inside)
		LABEL("cleared or detached in the same wait");
	W->cleared_inside = W->inside = false;
}
} // namespace

PBT_TARGET(c22_events, "histories of signal/clear/attach/detach/wait on up to 6 events and 2 loops, also inside callbacks, all implementations; non-trivial: "
	"a wait with 2 or more signaled events in which a callback acted on events", 4)
{
	Clean cl;
	Impls im;
	World w;
	W = &w;
	w.g = &g;
	for (int l = 0; l < 2; l++) {
		w.poll[l] = false;
	}
	bool poll = g.flip(), posix = g.flip();
	note("%s loop, %s events", poll ? "poll" : "epoll", posix ? "pipe" : "eventfd");
	CHECK(set_loop_impl(poll), "impl");
	set_evt_impl(posix);
	for (int l = 0; l < 2; l++)
		CHECK((w.loops[l] = pomp_loop_new()), "loop_new");
	for (unsigned i = 0, n = 1 + (unsigned)g.below(6); i < n; i++) {
		Ev e = {pomp_evt_new(), -1, 0, nullptr, false, 0};
		CHECK(e.e, "evt_new");
		if (g.chance(3, 4)) {
			void *ud = new int(0);
			w.uds.push_back((int *)ud);
			e.loop = g.chance(1, 5);
			e.ud = ud;
			CHECK(pomp_evt_attach_to_loop(e.e, w.loops[e.loop], evt_cb, ud) == 0, "attach");
		}
		w.evs.push_back(e);
	}
	unsigned steps = 0;
	do {
		interruptions(g);
		if (g.chance(1, 4))
			do_wait(g);
		else if (g.chance(1, 30)) {
			int l = (int)g.below(2);
			bool busy = false;
			for (auto &e : w.evs)
				busy = busy || e.loop == l;
			if (busy)
				CHECK(pomp_loop_destroy(w.loops[l]) == -EBUSY, "destroy of a loop with events");
		} else
			act(g);
	} while (++steps < 80 && g.more(20));
	for (auto &e : w.evs) {
		if (e.loop >= 0)
			CHECK(pomp_evt_detach_from_loop(e.e, w.loops[e.loop]) == 0, "detach");
		CHECK(pomp_evt_destroy(e.e) == 0, "evt_destroy");
	}
	for (int l = 0; l < 2; l++)
		CHECK(pomp_loop_destroy(w.loops[l]) == 0, "loop_destroy");
	for (auto p : w.uds)
		delete p;
	cl.verify();
}

namespace {
struct Shared {
	std::atomic<unsigned> seq{0};  // signals begun
	std::atomic<unsigned> seen{0}; // seq when last notified
	unsigned calls = 0;            // loop thread only
};
void thr_cb(struct pomp_evt *, void *userdata)
{
	Shared *s = (Shared *)userdata;
	s->seen = s->seq.load();
	s->calls++;
}
struct pomp_loop *sigloop;
std::atomic<int> sigruns;
void on_usr1(int)
{
	int e = errno;
	pomp_loop_wakeup(sigloop);
	sigruns++;
	errno = e;
}
void drain_wakeups(struct pomp_loop *loop)
{
	for (int i = 0; i < 100000 && pomp_loop_wait_and_process(loop, 0) == 0; i++)
		;
}
} // namespace

PBT_TARGET(c22_threads, "1 to 4 threads signaling 1 to 3 events while another one waits: each last signal is followed by a callback, callbacks never outnumber "
	"signals; non-trivial: 2 threads or more", 1, 60)
{
	Clean cl;
	Impls im;
	bool poll = g.flip(), posix = g.flip();
	CHECK(set_loop_impl(poll), "impl");
	set_evt_impl(posix);
	struct pomp_loop *loop = pomp_loop_new();
	CHECK(loop, "loop_new");
	unsigned nth = 1 + (unsigned)g.below(4), nev = 1 + (unsigned)g.below(3), per = 1 + (unsigned)g.below(200);
	bool wk = g.flip();
	note("%s loop, %s events, %u threads, %u events, %u signals each, wakeups %d", poll ? "poll" : "epoll", posix ? "pipe" : "eventfd", nth,
	     nev, per, wk);
	struct pomp_evt *evs[3];
	Shared sh[3];
	for (unsigned i = 0; i < nev; i++) {
		CHECK((evs[i] = pomp_evt_new()), "evt_new");
		CHECK(pomp_evt_attach_to_loop(evs[i], loop, thr_cb, &sh[i]) == 0, "attach");
	}
	std::atomic<bool> go{false};
	std::atomic<unsigned> done{0};
	std::atomic<int> err{0};
	std::vector<std::thread> ths;
	for (unsigned t = 0; t < nth; t++)
		ths.emplace_back([&, t] {
			while (!go)
				;
			for (unsigned n = 0; n < per; n++) {
				unsigned i = (n + t) % nev;
				sh[i].seq++;
				int r = pomp_evt_signal(evs[i]);
				if (r == 0 && wk)
					r = pomp_loop_wakeup(loop);
				if (r < 0)
					err = r;
			}
			done++;
			// the wait below may be infinite: this one must end it
			pomp_loop_wakeup(loop);
		});
	go = true;
	while (done < nth)
		pomp_loop_wait_and_process(loop, -1);
	for (auto &t : ths)
		t.join();
	drain_wakeups(loop);
	CHECK(err == 0, "signal or wakeup failed: %d", (int)err);
	for (unsigned i = 0; i < nev; i++) {
		CHECK(sh[i].seen == sh[i].seq, "event %u: %u signals, the last callback was after %u", i, (unsigned)sh[i].seq, (unsigned)sh[i].seen);
		CHECK(sh[i].calls <= sh[i].seq, "event %u: %u callbacks for %u signals", i, sh[i].calls, (unsigned)sh[i].seq);
		CHECK(pomp_evt_detach_from_loop(evs[i], loop) == 0 && pomp_evt_destroy(evs[i]) == 0, "cleanup");
	}
	CHECK(pomp_loop_destroy(loop) == 0, "destroy");
	cl.verify();
	if (nth >= 2)
		nontrivial();
}

PBT_TARGET(c22_wakeup, "a wait without timeout ended by a wakeup from another thread or a signal handler, before or during it, any number of times; "
	"non-trivial: from a signal handler or repeated", 1, 60)
{
	Clean cl;
	Impls im;
	bool poll = g.flip();
	CHECK(set_loop_impl(poll), "impl");
	struct pomp_loop *loop = pomp_loop_new();
	CHECK(loop, "loop_new");
	unsigned rounds = 1 + (unsigned)g.below(30), delay = (unsigned)g.below(200);
	bool sig = g.flip();
	note("%s loop, %u rounds, %s, delay %u us", poll ? "poll" : "epoll", rounds, sig ? "signal handler" : "thread", delay);
	sigloop = loop;
	sigruns = 0;
	struct sigaction sa, old;
	memset(&sa, 0, sizeof(sa));
	sa.sa_handler = on_usr1;
	sigaction(SIGUSR1, &sa, &old);
	pthread_t self = pthread_self();
	std::atomic<unsigned> round{0};
	std::atomic<bool> bad{false};
	std::thread th([&] {
		for (unsigned k = 1; k <= rounds; k++) {
			while (round < k)
				usleep(5);
			if (delay)
				usleep(delay);
			if (sig)
				pthread_kill(self, SIGUSR1);
			else if (pomp_loop_wakeup(loop) != 0)
				bad = true;
		}
	});
	for (unsigned k = 1; k <= rounds; k++) {
		round = k;
		// hangs for ever (the case times out) if the wakeup is lost
		int r = pomp_loop_wait_and_process(loop, -1);
		CHECK(r == 0, "wait returned %d", r);
		if (sig)
			while (sigruns < (int)k)
				usleep(5);
		if (!poll || true)
			drain_wakeups(loop);
	}
	th.join();
	sigaction(SIGUSR1, &old, nullptr);
	CHECK(!bad, "wakeup failed");
	CHECK(pomp_loop_destroy(loop) == 0, "destroy");
	cl.verify();
	if (sig || rounds > 1)
		nontrivial();
}
