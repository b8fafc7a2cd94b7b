// C20: a wait calls exactly the callbacks of the registered descriptors that
// have something pending.  The oracle for "pending" is poll(2), called by the
// harness on each descriptor just before the wait.
#include <sys/resource.h>
#include "loopimpl.hpp"
#include <fcntl.h>
#include <poll.h>
#include <sys/eventfd.h>
#include <sys/socket.h>
#include <time.h>
#include <unistd.h>
using namespace pbt;

namespace {
enum Kind { PIPE_R, PIPE_W, STREAM, DGRAM, EVFD };
struct Ep {
	int fd;
	Kind kind;
	int peer;      // index, or -1
	unsigned touch; // step of the last change of its state
	struct Reg *reg;
};
struct Reg {
	int ep;
	int fd;
	uint32_t ev;
	bool alive;
	unsigned addwait;    // number of the wait during which it was added (0: outside)
	unsigned calls;      // calls in the current wait
	uint32_t start;      // events pending when the wait began
	uint32_t startev;    // monitored then
	unsigned starve;
	bool inwait;         // registered when the wait began
};
struct World {
	Gen *g;
	struct pomp_loop *loop;
	std::vector<Ep> eps;
	std::vector<Reg *> regs; // all ever made
	bool poll;
	unsigned spread = 600;
	bool wide = false;       // descriptor numbers all over the place
	unsigned wait = 0;       // current wait, 0 outside
	unsigned step = 0, startstep = 0;
	unsigned called = 0;
	unsigned budget = 0;     // actions left
	int depth = 0;
	bool reused = false, removed_ready = false, changed = false;
} *W;

uint32_t pending(int fd, uint32_t ev)
{
	struct pollfd p;
	uint32_t r = 0;
	p.fd = fd;
	p.events = (short)(((ev & POMP_FD_EVENT_IN) ? POLLIN : 0) | ((ev & POMP_FD_EVENT_PRI) ? POLLPRI : 0) |
		((ev & POMP_FD_EVENT_OUT) ? POLLOUT : 0));
	p.revents = 0;
	CHECK(::poll(&p, 1, 0) >= 0 && !(p.revents & POLLNVAL), "harness: poll");
	if (p.revents & POLLIN)
		r |= POMP_FD_EVENT_IN;
	if (p.revents & POLLPRI)
		r |= POMP_FD_EVENT_PRI;
	if (p.revents & POLLOUT)
		r |= POMP_FD_EVENT_OUT;
	if (p.revents & POLLERR)
		r |= POMP_FD_EVENT_ERR;
	if (p.revents & POLLHUP)
		r |= POMP_FD_EVENT_HUP;
	return r;
}
Reg *reg_of_fd(int fd)
{
	for (auto &e : W->eps)
		if (e.fd == fd)
			return e.reg;
	return nullptr;
}
void touched(int i)
{
	W->step++;
	W->eps[i].touch = W->step;
	if (W->eps[i].peer >= 0)
		W->eps[W->eps[i].peer].touch = W->step;
}
void mkpair(Kind k, int fds[2])
{
	switch (k) {
	case PIPE_R: case PIPE_W:
		CHECK(pipe2(fds, O_NONBLOCK | O_CLOEXEC) == 0, "pipe");
		break;
	case STREAM: case DGRAM:
		CHECK(socketpair(AF_UNIX, (k == STREAM ? SOCK_STREAM : SOCK_DGRAM) | SOCK_NONBLOCK | SOCK_CLOEXEC, 0, fds) == 0, "socketpair");
		break;
	case EVFD:
		fds[0] = eventfd(0, EFD_NONBLOCK | EFD_CLOEXEC);
		fds[1] = -1;
		CHECK(fds[0] >= 0, "eventfd");
		break;
	}
}
void new_pair(Kind k)
{
	int fds[2];
	mkpair(k, fds);
	if (W->wide)
		for (int &fd : fds)
			if (fd >= 0) {
				int old = fd;
				fd = fcntl(old, F_DUPFD_CLOEXEC, 3 + (int)W->g->below(W->spread));
				CHECK(fd >= 0, "harness: dup");
				close(old);
			}
	int i = (int)W->eps.size();
	Kind k2 = k == PIPE_R ? PIPE_W : k;
	W->eps.push_back({fds[0], k, fds[1] >= 0 ? i + 1 : -1, W->step, nullptr});
	if (fds[1] >= 0)
		W->eps.push_back({fds[1], k2, i, W->step, nullptr});
}

void event_cb(int fd, uint32_t revents, void *userdata);

void do_add(int i, uint32_t ev)
{
	Ep &e = W->eps[i];
	Reg *r = new Reg();
	r->ep = i;
	r->fd = e.fd;
	r->ev = ev;
	r->alive = true;
	r->addwait = W->wait;
	int res = pomp_loop_add(W->loop, e.fd, ev, event_cb, r);
	note("add ep%d fd=%d ev=%x -> %d", i, e.fd, ev, res);
	W->regs.push_back(r);
	if (e.reg) {
		CHECK(res == -EEXIST, "add of a descriptor already there returned %d", res);
		r->alive = false;
		return;
	}
	CHECK(res == 0, "add failed: %d", res);
	e.reg = r;
}
void do_remove(int i)
{
	Ep &e = W->eps[i];
	int res = pomp_loop_remove(W->loop, e.fd);
	note("remove ep%d fd=%d -> %d", i, e.fd, res);
	if (!e.reg) {
		CHECK(res == -ENOENT, "remove of an unknown descriptor returned %d", res);
		return;
	}
	CHECK(res == 0, "remove failed: %d", res);
	if (W->wait && e.reg->inwait && e.reg->start && !e.reg->calls)
		W->removed_ready = true;
	e.reg->alive = false;
	e.reg = nullptr;
}
void do_update(int i, Gen &g)
{
	Ep &e = W->eps[i];
	uint32_t ev, add, rem;
	int res;
	if (g.flip()) {
		ev = (uint32_t)g.below(8);
		res = pomp_loop_update(W->loop, e.fd, ev);
		note("update ep%d fd=%d ev=%x -> %d", i, e.fd, ev, res);
	} else {
		add = (uint32_t)g.below(8);
		rem = (uint32_t)g.below(8);
		ev = e.reg ? (e.reg->ev | add) & ~rem : 0;
		res = pomp_loop_update2(W->loop, e.fd, add, rem);
		note("update2 ep%d fd=%d +%x -%x -> %d", i, e.fd, add, rem, res);
	}
	if (!e.reg) {
		CHECK(res == -ENOENT, "update of an unknown descriptor returned %d", res);
		return;
	}
	CHECK(res == 0, "update failed: %d", res);
	if (W->wait && ev != e.reg->ev)
		W->changed = true;
	e.reg->ev = ev;
	// from now on either set may be reported in this wait
	e.touch = ++W->step;
}
void do_state(int i, Gen &g)
{
	Ep &e = W->eps[i];
	char b[4096];
	uint64_t v;
	touched(i);
	switch (g.below(4)) {
	case 0: // make it readable: write through the peer
		note("write to ep%d", i);
		if (e.kind == EVFD) {
			v = 1;
			(void)!write(e.fd, &v, sizeof(v));
		} else if (e.kind == PIPE_W) {
			(void)!write(e.fd, "x", 1);
		} else if (e.kind == PIPE_R) {
			(void)!write(W->eps[e.peer].fd, "x", 1);
		} else {
			(void)!send(W->eps[e.peer].fd, "x", 1, MSG_NOSIGNAL);
		}
		break;
	case 1: // drain
		note("drain ep%d", i);
		if (e.kind != PIPE_W)
			while (read(e.fd, b, sizeof(b)) > 0 && e.kind != EVFD)
				;
		break;
	case 2: // make it not writable
		note("fill ep%d", i);
		memset(b, 0, sizeof(b));
		if (e.kind == PIPE_W)
			while (write(e.fd, b, sizeof(b)) > 0)
				;
		else if (e.kind == EVFD)
			(v = UINT64_MAX - 1), (void)!write(e.fd, &v, sizeof(v));
		else if (e.kind != PIPE_R)
			while (send(e.fd, b, sizeof(b), MSG_NOSIGNAL) > 0)
				;
		break;
	case 3: // half close
		if (e.kind == STREAM && g.chance(1, 4)) {
			note("shutdown ep%d", i);
			shutdown(e.fd, g.flip() ? SHUT_WR : SHUT_RDWR);
		} else if (e.kind == STREAM && g.chance(1, 2)) {
			note("oob to ep%d", i);
			send(W->eps[e.peer].fd, "!", 1, MSG_OOB | MSG_NOSIGNAL);
		}
		break;
	}
}
// Closes an endpoint and makes another one, with the same number
void do_replace(int i, Gen &g)
{
	int fds[2];
	Ep &e = W->eps[i];
	bool again = e.reg != nullptr && g.chance(2, 3);
	if (e.reg)
		do_remove(i);
	touched(i);
	Kind k = (Kind)g.below(5);
	if (k == PIPE_W)
		k = PIPE_R;
	mkpair(k, fds);
	note("replace ep%d fd=%d", i, e.fd);
	CHECK(dup3(fds[0], e.fd, O_CLOEXEC) == e.fd, "dup3");
	close(fds[0]);
	if (W->eps[i].peer >= 0)
		W->eps[W->eps[i].peer].peer = -1;
	W->eps[i].kind = k;
	W->eps[i].peer = -1;
	if (fds[1] >= 0) {
		int n = (int)W->eps.size();
		W->eps.push_back({fds[1], k == PIPE_R ? PIPE_W : k, i, W->step, nullptr});
		W->eps[i].peer = n;
	}
	if (again) {
		if (W->wait)
			W->reused = true;
		do_add(i, 1 + (uint32_t)g.below(7));
	}
}
void check_has()
{
	for (auto &e : W->eps)
		CHECK(pomp_loop_has_fd(W->loop, e.fd) == (e.reg ? 1 : 0), "has_fd(%d) is wrong", e.fd);
}
void act(Gen &g)
{
	int i = (int)g.below(W->eps.size());
	switch (g.weighted({4, 3, 4, 6, 2, 1, 1})) {
	case 0: do_add(i, 1 + (uint32_t)(g.flip() ? g.below(7) : g.below(31))); break;
	case 1: do_remove(i); break;
	case 2: do_update(i, g); break;
	case 3:
		if (W->eps[i].kind == PIPE_R || W->eps[i].kind == PIPE_W || W->eps[i].peer >= 0 || W->eps[i].kind == EVFD) {
			// pipes and sockets whose peer was closed only can be drained
			if (W->eps[i].peer < 0 && W->eps[i].kind != EVFD)
				break;
			do_state(i, g);
		}
		break;
	case 4: do_replace(i, g); break;
	case 5: { // refused calls
		int bad = g.flip() ? -1 : 4095;
		CHECK(pomp_loop_add(W->loop, -1, 1, event_cb, nullptr) == -EINVAL, "add(-1)");
		CHECK(pomp_loop_add(W->loop, W->eps[i].fd, 0, event_cb, nullptr) == -EINVAL, "add without events");
		CHECK(pomp_loop_add(W->loop, W->eps[i].fd, 1, nullptr, nullptr) == -EINVAL, "add without callback");
		CHECK(pomp_loop_update(W->loop, bad, 1) < 0, "update of an unknown descriptor");
		CHECK(pomp_loop_update2(W->loop, bad, 1, 0) < 0, "update2 of an unknown descriptor");
		CHECK(pomp_loop_remove(W->loop, bad) < 0, "remove of an unknown descriptor");
		break;
	}
	case 6: check_has(); break;
	}
}

void event_cb(int fd, uint32_t revents, void *userdata)
{
	Reg *r = (Reg *)userdata;
	CHECK(W->wait != 0, "callback outside a wait");
	note("  callback fd=%d revents=%x", fd, revents);
	CHECK(r->alive, "callback of a removed registration (fd %d)", fd);
	Ep &e = W->eps[r->ep];
	CHECK(r->fd == fd && e.fd == fd, "callback for fd %d with the data of fd %d", fd, r->fd);
	CHECK(e.reg == r, "harness: registration");
	CHECK(revents != 0, "callback without an event");
	CHECK(++r->calls == 1, "callback called twice in one wait (fd %d)", fd);
	uint32_t ok = r->ev | POMP_FD_EVENT_ERR | POMP_FD_EVENT_HUP;
	CHECK((revents & ~ok) == 0, "events %x notified, only %x monitored", revents, r->ev);
	uint32_t now = pending(fd, r->ev);
	uint32_t was = r->inwait ? r->start : 0;
	if (e.touch <= W->startstep && r->inwait)
		CHECK(revents == was, "events %x notified, %x pending", revents, was);
	else
		CHECK((revents & ~(now | was)) == 0, "events %x notified, %x pending (%x when the wait began)", revents, now, was);
	W->called++;
	while (W->budget > 0 && W->g->chance(1, 2)) {
		W->budget--;
		act(*W->g);
	}
}

void do_wait(Gen &g)
{
	unsigned nready = 0, nregs = 0;
	bool wakeup = false;
	std::vector<Reg *> ready;
	interruptions(g);
	if (g.chance(1, 10)) {
		CHECK(pomp_loop_wakeup(W->loop) == 0, "wakeup");
		wakeup = true;
	}
	for (auto &e : W->eps) {
		Reg *r = e.reg;
		if (!r)
			continue;
		nregs++;
		r->inwait = true;
		r->calls = 0;
		r->start = pending(e.fd, r->ev);
		r->startev = r->ev;
		if (r->start) {
			ready.push_back(r);
			nready++;
		}
	}
	for (auto r : W->regs)
		if (!r->alive)
			r->inwait = false;
	bool any = nready > 0 || wakeup;
	intptr_t lfd = pomp_loop_get_fd(W->loop);
	if (W->poll)
		CHECK(lfd == -ENOSYS, "get_fd on a poll loop: %ld", (long)lfd);
	else
		CHECK(lfd >= 0 && (pending((int)lfd, POMP_FD_EVENT_IN) != 0) == any, "the loop's descriptor says %d, %u pending",
		      !any, nready);
	static unsigned counter = 0;
	W->wait = ++counter ? counter : ++counter;
	W->startstep = W->step;
	W->called = 0;
	W->budget = (unsigned)g.below(12);
	int timeout = 0;
	switch (g.weighted({6, 2, 1})) {
	case 0: break;
	case 1: timeout = any ? -1 : 0; break;
	case 2: timeout = any ? 1000 : g.chance(1, 8) ? 1 + (int)g.below(3) : 0; break;
	}
	bool intr = g.chance(1, 8);
	if (intr) {
		vf_call_mask = (1ul << VF_EPOLL_WAIT) | (1ul << VF_POLL);
		vf_calls = 0;
		vf_call_errno = EINTR;
		vf_call_fail_at = 1;
	}
	note("wait %d, %u of %u ready%s%s", timeout, nready, nregs, wakeup ? ", wakeup" : "", intr ? ", EINTR" : "");
	uint64_t t0 = mono_ns();
	int res = timeout == 0 && g.flip() ? pomp_loop_process_fd(W->loop) : pomp_loop_wait_and_process(W->loop, timeout);
	uint64_t dt = mono_ns() - t0;
	vf_call_mask = 0;
	vf_call_fail_at = 0;
	note("  -> %d", res);
	if (any) {
		CHECK(res == 0, "wait returned %d with %u pending", res, nready);
		if (timeout == 1000)
			CHECK(dt < 500000000ull, "wait took its whole timeout with %u pending", nready);
	} else {
		CHECK(res == -ETIMEDOUT, "wait returned %d, nothing pending", res);
		CHECK(dt + 100000 >= (uint64_t)timeout * 1000000ull, "timeout of %d ms after %lu us", timeout, (unsigned long)(dt / 1000));
		CHECK(W->called == 0, "callback called with nothing pending");
	}
	unsigned n = 0;
	for (auto r : ready) {
		bool excused = !r->alive || W->eps[r->ep].touch > W->startstep;
		if (r->calls || excused) {
			r->starve = 0;
			n += r->calls ? 1 : 0;
			continue;
		}
		r->starve++;
		if (W->poll || nready + (wakeup ? 1 : 0) <= 8)
			fail("fd %d was pending (%x) and its callback not called", r->fd, r->start);
		CHECK(r->starve <= nregs + 2, "fd %d pending for %u waits and its callback not called", r->fd, r->starve);
	}
	(void)n;
	if (nready >= 2 && (W->removed_ready || W->reused || W->changed))
		nontrivial();
	if (W->reused)
		LABEL("number reused in a wait");
	if (W->removed_ready)
		LABEL("pending descriptor removed in a wait");
	if (nready > 16)
		LABEL("more than 16 pending");
	W->removed_ready = W->reused = W->changed = false;
	W->wait = 0;
}
} // namespace

// Some loops have seen many waits before, so many that small counters wrap soon.
static void age(Gen &g, struct pomp_loop *loop)
{
	unsigned n = g.chance(1, 12) ? 120 + (unsigned)g.below(140) : g.chance(1, 3000) ? 65400 + (unsigned)g.below(200) : 0;
	if (!n)
		return;
	unsigned called = 0;
	int fd = eventfd(1, EFD_CLOEXEC);
	note("after %u dispatches", n);
	CHECK(pomp_loop_add(loop, fd, POMP_FD_EVENT_IN, [](int, uint32_t, void *u) { ++*(unsigned *)u; }, &called) == 0, "add");
	for (unsigned i = 0; i < n; i++)
		CHECK(pomp_loop_wait_and_process(loop, 0) == 0 && called == i + 1, "event %u of a descriptor always readable: %u calls", i + 1, called);
	CHECK(pomp_loop_remove(loop, fd) == 0, "remove");
	close(fd);
}
static void history(Gen &g, bool wide)
{
	Clean cl;
	Impls im;
	World w;
	W = &w;
	w.g = &g;
	w.wide = wide;
	w.poll = g.flip();
	CHECK(set_loop_impl(w.poll), "impl");
	note("%s loop", w.poll ? "poll" : "epoll");
	w.loop = pomp_loop_new();
	CHECK(w.loop, "loop_new");
	age(g, w.loop);
	unsigned n = g.chance(1, 4) ? 10 + (unsigned)g.below(16) : 1 + (unsigned)g.below(5);
	if (wide && g.flip()) {
		struct rlimit rl;
		getrlimit(RLIMIT_NOFILE, &rl);
		w.spread = (unsigned)std::min<rlim_t>(rl.rlim_cur, 4000) - 400;
	}
	if (wide)
		n = 40 + (unsigned)g.below(220);
	unsigned maxeps = wide ? 350 : 80;
	for (unsigned i = 0; i < n; i++) {
		Kind k = wide && !g.chance(1, 10) ? EVFD : (Kind)g.below(5);
		new_pair(k == PIPE_W ? PIPE_R : k);
	}
	if (wide || g.flip()) // start with everything registered
		for (unsigned i = 0; i < w.eps.size(); i++)
			do_add((int)i, 1 + (uint32_t)g.below(7));
	unsigned waits = 1 + (unsigned)g.below(wide ? 4 : 12);
	for (unsigned k = 0; k < waits; k++) {
		w.wait = 0;
		for (unsigned a = 0, na = (unsigned)g.below(wide ? 60 : 8); a < na && w.eps.size() < maxeps; a++)
			act(g);
		if (g.chance(1, 10)) {
			bool busy = false;
			for (auto &e : w.eps)
				busy = busy || e.reg;
			if (busy) {
				int r = pomp_loop_destroy(w.loop);
				note("destroy -> %d", r);
				CHECK(r == -EBUSY, "destroy of a loop in use returned %d", r);
			}
		}
		do_wait(g);
	}
	check_has();
	for (unsigned i = 0; i < w.eps.size(); i++)
		if (w.eps[i].reg)
			do_remove((int)i);
	CHECK(pomp_loop_destroy(w.loop) == 0, "destroy");
	for (auto &e : w.eps)
		close(e.fd);
	for (auto r : w.regs)
		delete r;
	cl.verify();
}

PBT_TARGET(c20_dispatch, "histories of add/update/remove/close/reuse and wait on pipes, sockets and eventfds, actions also inside callbacks, both loop "
	"implementations; non-trivial: a wait with 2 or more pending in which a callback removed, replaced or updated another registration", 4)
{
	history(g, false);
}

PBT_TARGET(c20_many, "the same with 40 to 350 descriptors whose numbers are spread up to 4000", 1)
{
	history(g, true);
}
