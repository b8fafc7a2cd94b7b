// C21: idle functions run once, in order, unless removed.
#include "loopimpl.hpp"
#include <list>
#include <poll.h>
#include <sys/eventfd.h>
#include <thread>
#include <unistd.h>
using namespace pbt;

namespace {
struct Entry { int fn; int data; int cookie; }; // cookie -1: none
enum Mode { WAIT, FLUSH, FLUSHC };
struct Frame { Mode m; int cookie; unsigned runs; };
int datas[4], cookies[3];
struct World {
	Gen *g;
	struct pomp_loop *loop;
	std::list<Entry> pend;
	std::vector<Frame> frames;
	unsigned budget = 0, total = 0, maxdepth = 0;
	bool removed_inside = false, added_inside = false, nested = false;
	int efd = -1;
	bool inadd = false;
} *W;

void ran(int fn, void *userdata);
template <int N> void idle_fn(void *userdata) { ran(N, userdata); }
pomp_idle_cb_t fns[3] = {idle_fn<0>, idle_fn<1>, idle_fn<2>};

void act(Gen &g, bool inside)
{
	switch (g.weighted({6, 3, 2, 1, inside ? 1u : 2u, 2})) {
	case 0: {
		Entry e;
		e.fn = (int)g.below(3);
		e.data = (int)g.below(4);
		e.cookie = (int)g.below(4) - 1;
		int r;
		W->inadd = true;
		if (e.cookie < 0)
			r = pomp_loop_idle_add(W->loop, fns[e.fn], &datas[e.data]);
		else
			r = pomp_loop_idle_add_with_cookie(W->loop, fns[e.fn], &datas[e.data], &cookies[e.cookie]);
		W->inadd = false;
		note("%sadd fn%d data%d cookie%d -> %d", inside ? "    " : "", e.fn, e.data, e.cookie, r);
		CHECK(r == 0, "idle_add failed: %d", r);
		W->pend.push_back(e);
		W->added_inside = W->added_inside || inside;
		break;
	}
	case 1: {
		int fn = (int)g.below(3), data = (int)g.below(4);
		size_t n = W->pend.size();
		note("%sremove fn%d data%d", inside ? "    " : "", fn, data);
		CHECK(pomp_loop_idle_remove(W->loop, fns[fn], &datas[data]) == 0, "idle_remove failed");
		W->pend.remove_if([&](const Entry &e) { return e.fn == fn && e.data == data; });
		W->removed_inside = W->removed_inside || (inside && W->pend.size() < n);
		break;
	}
	case 2: {
		int c = (int)g.below(3);
		size_t n = W->pend.size();
		note("%sremove cookie%d", inside ? "    " : "", c);
		CHECK(pomp_loop_idle_remove_by_cookie(W->loop, &cookies[c]) == 0, "idle_remove_by_cookie failed");
		W->pend.remove_if([&](const Entry &e) { return e.cookie == c; });
		W->removed_inside = W->removed_inside || (inside && W->pend.size() < n);
		break;
	}
	case 3: {
		if (W->frames.size() > 6)
			break;
		note("%sflush (%zu pending)", inside ? "    " : "", W->pend.size());
		W->nested = W->nested || inside;
		W->frames.push_back({FLUSH, -1, 0});
		CHECK(pomp_loop_idle_flush(W->loop) == 0, "flush failed");
		W->frames.pop_back();
		CHECK(W->pend.empty(), "flush left %zu functions pending", W->pend.size());
		break;
	}
	case 4: {
		if (W->frames.size() > 6)
			break;
		int c = (int)g.below(3);
		note("%sflush cookie%d", inside ? "    " : "", c);
		W->nested = W->nested || inside;
		W->frames.push_back({FLUSHC, c, 0});
		CHECK(pomp_loop_idle_flush_by_cookie(W->loop, &cookies[c]) == 0, "flush_by_cookie failed");
		W->frames.pop_back();
		for (auto &e : W->pend)
			CHECK(e.cookie != c, "flush_by_cookie left a function with that cookie");
		break;
	}
	case 5: // refused calls
		CHECK(pomp_loop_idle_add(W->loop, nullptr, nullptr) == -EINVAL, "add without function");
		CHECK(pomp_loop_idle_add_with_cookie(W->loop, fns[0], nullptr, nullptr) == -EINVAL, "add with NULL cookie");
		CHECK(pomp_loop_idle_remove_by_cookie(W->loop, nullptr) == -EINVAL, "remove with NULL cookie");
		CHECK(pomp_loop_idle_flush_by_cookie(W->loop, nullptr) == -EINVAL, "flush with NULL cookie");
		CHECK(pomp_loop_idle_remove(W->loop, fns[0], &W->budget) == 0, "remove of what is not there");
		break;
	}
}

void ran(int fn, void *userdata)
{
	CHECK(!W->inadd, "function run from inside its registration");
	CHECK(!W->frames.empty(), "function run outside a wait or a flush");
	int data = (int)((int *)userdata - datas);
	note("  run fn%d data%d", fn, data);
	Frame &f = W->frames.back();
	auto it = W->pend.begin();
	if (f.m == FLUSHC)
		while (it != W->pend.end() && it->cookie != f.cookie)
			++it;
	CHECK(it != W->pend.end(), "function fn%d data%d run, nothing should", fn, data);
	CHECK(it->fn == fn && it->data == data, "function fn%d data%d run, the next one is fn%d data%d", fn, data, it->fn, it->data);
	W->pend.erase(it);
	f.runs++;
	W->total++;
	while (W->budget && W->g->chance(1, 2)) {
		W->budget--;
		act(*W->g, true);
	}
}
void efd_cb(int fd, uint32_t, void *)
{
	uint64_t v;
	(void)!read(fd, &v, sizeof(v));
	note("  event");
	while (W->budget && W->g->chance(1, 2)) {
		W->budget--;
		act(*W->g, true);
	}
}
unsigned do_wait(Gen &g)
{
	bool pend = !W->pend.empty();
	bool ev = g.chance(1, 4);
	if (ev) {
		uint64_t v = 1;
		(void)!write(W->efd, &v, sizeof(v));
	}
	int to = pend && g.flip() ? -1 : 0;
	note("wait %d (%zu pending%s)", to, W->pend.size(), ev ? ", event" : "");
	unsigned before = W->total;
	Entry head = pend ? W->pend.front() : Entry();
	(void)head;
	W->frames.push_back({WAIT, -1, 0});
	size_t n = W->pend.size();
	int r = pomp_loop_wait_and_process(W->loop, to);
	W->frames.pop_back();
	note("  -> %d", r);
	if (pend) {
		CHECK(r == 0, "wait returned %d with %zu functions pending", r, n);
		// the event callback may have removed or run them first
		CHECK(ev || W->total > before, "wait ran no function, %zu pending", n);
	} else {
		CHECK(r == 0 || r == -ETIMEDOUT, "wait returned %d", r);
	}
	return W->total - before;
}
} // namespace

PBT_TARGET(c21_idle, "histories of idle add/remove/flush (with and without cookies) and waits, also from inside idle functions and event callbacks, against "
	"an ordered list; non-trivial: an idle function registered, removed or flushed others", 4)
{
	Clean cl;
	Impls im;
	World w;
	W = &w;
	w.g = &g;
	bool poll = g.flip(), posix = g.flip();
	note("%s loop, %s events", poll ? "poll" : "epoll", posix ? "pipe" : "eventfd");
	CHECK(set_loop_impl(poll), "impl");
	set_evt_impl(posix);
	w.loop = pomp_loop_new();
	CHECK(w.loop, "loop_new");
	w.efd = eventfd(0, EFD_NONBLOCK | EFD_CLOEXEC);
	CHECK(pomp_loop_add(w.loop, w.efd, POMP_FD_EVENT_IN, efd_cb, nullptr) == 0, "add");
	unsigned steps = 0;
	do {
		w.budget = (unsigned)g.below(12);
		if (g.chance(1, 3))
			do_wait(g);
		else if (g.chance(1, 15)) {
			int r = pomp_loop_destroy(w.loop);
			note("destroy -> %d", r);
			CHECK(r == -EBUSY, "destroy of a loop in use returned %d", r);
		} else
			act(g, false);
	} while (++steps < 60 && g.more(14));
	w.budget = 0;
	pomp_loop_remove(w.loop, w.efd);
	close(w.efd);
	if (!w.pend.empty() && g.flip()) {
		int r = pomp_loop_destroy(w.loop);
		note("destroy with %zu pending -> %d", w.pend.size(), r);
		CHECK(r == -EBUSY, "destroy with functions pending returned %d", r);
	}
	if (g.flip()) {
		// everything left runs, one by one at least
		while (!w.pend.empty()) {
			w.frames.push_back({WAIT, -1, 0});
			size_t n = w.pend.size();
			int r = pomp_loop_wait_and_process(w.loop, 100);
			w.frames.pop_back();
			CHECK(r == 0 && w.pend.size() < n, "wait (%d) ran no function, %zu pending", r, n);
		}
	} else {
		w.frames.push_back({FLUSH, -1, 0});
		CHECK(pomp_loop_idle_flush(w.loop) == 0, "flush");
		w.frames.pop_back();
		CHECK(w.pend.empty(), "flush left functions pending");
	}
	CHECK(pomp_loop_destroy(w.loop) == 0, "destroy");
	cl.verify();
	if (w.removed_inside || w.nested || w.added_inside)
		nontrivial();
	if (w.nested)
		LABEL("flush inside an idle function");
	if (w.removed_inside)
		LABEL("removal inside an idle function");
}

// Several threads register and remove, one runs the loop.
namespace {
struct Th { std::atomic<int> run[64]; std::atomic<int> last; std::atomic<bool> order; } *T;
struct Tok { int th, n; };
Tok toks[4][64];
void th_fn(void *userdata)
{
	Tok *t = (Tok *)userdata;
	T[t->th].run[t->n]++;
	if (T[t->th].last.exchange(t->n) > t->n)
		T[t->th].order = false;
}
} // namespace
PBT_TARGET(c21_threads, "2 to 4 threads registering and removing idle functions while another one waits; each function not removed runs exactly once, in "
	"the order of its thread; non-trivial: 2 threads or more registering", 1, 60)
{
	Clean cl;
	Impls im;
	bool poll = g.flip(), posix = g.flip();
	unsigned nth = 1 + (unsigned)g.below(4), per = 1 + (unsigned)g.below(60);
	unsigned rm = (unsigned)g.below(4);
	CHECK(set_loop_impl(poll), "impl");
	set_evt_impl(posix);
	struct pomp_loop *loop = pomp_loop_new();
	CHECK(loop, "loop_new");
	T = new Th[4]();
	for (int i = 0; i < 4; i++) {
		T[i].last = -1;
		T[i].order = true;
		for (int j = 0; j < 64; j++)
			toks[i][j] = {i, j};
	}
	unsigned flush = (unsigned)g.below(4);
	bool bycookie = g.chance(1, 4);
	note("%u threads, %u functions each, remove 1 of %u%s, flush %u", nth, per, rm, bycookie ? ", remove by cookie" : "", flush);
	std::atomic<unsigned> done{0};
	std::atomic<int> err{0};
	std::atomic<bool> go{false};
	std::vector<std::thread> ths;
	for (unsigned t = 0; t < nth; t++)
		ths.emplace_back([&, t] {
			while (!go)
				;
			for (unsigned n = 0; n < per; n++) {
				int r = n % 2 ? pomp_loop_idle_add(loop, th_fn, &toks[t][n])
					: pomp_loop_idle_add_with_cookie(loop, th_fn, &toks[t][n], &toks[t][0]);
				if (r < 0)
					err = r;
				if (rm && n % rm == 0)
					pomp_loop_idle_remove(loop, th_fn, &toks[t][n]);
				if (bycookie && n == per / 2)
					pomp_loop_idle_remove_by_cookie(loop, &toks[t][0]);
			}
			done++;
		});
	go = true;
	for (unsigned k = 0; done < nth; k++) {
		if (flush & 1)
			pomp_loop_idle_flush(loop);
		if (flush & 2)
			pomp_loop_idle_flush_by_cookie(loop, &toks[k % nth][0]);
		pomp_loop_wait_and_process(loop, flush ? 0 : 1);
	}
	for (auto &t : ths)
		t.join();
	// whatever is left runs now
	for (unsigned k = 0; k < nth * per + 2; k++)
		if (pomp_loop_wait_and_process(loop, 0) < 0)
			break;
	CHECK(err == 0, "idle_add failed: %d", (int)err);
	for (unsigned t = 0; t < nth; t++) {
		CHECK(T[t].order || (flush & 2), "functions of one thread run out of order");
		for (unsigned n = 0; n < per; n++) {
			int k = T[t].run[n];
			bool maybe = (rm && n % rm == 0) || (bycookie && n % 2 == 0 && n <= per / 2);
			CHECK(maybe ? k <= 1 : k == 1, "function %u of thread %u run %d times", n, t, k);
		}
	}
	CHECK(pomp_loop_destroy(loop) == 0, "destroy");
	delete[] T;
	cl.verify();
	if (nth >= 2)
		nontrivial();
}
