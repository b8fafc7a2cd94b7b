"""C32: the message loops of the Python implementation."""
import os
import queue
import sys
import threading
import time

import pypbt
from pypbt import check

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.environ["POMP_REPO"], "python"))
import pomp  # noqa: E402,F401
import pomp.looper as looper  # noqa: E402

WAIT = 15.0


def in_threads(g, fns, what):
    """each in a thread of its own; exceptions of any are failures"""
    errors = []

    def run(fn):
        try:
            fn()
        except BaseException as ex:
            errors.append(ex)
    ts = [threading.Thread(target=run, args=(fn,), daemon=True) for fn in fns]
    for t in ts:
        t.start()
    end = time.monotonic() + WAIT
    for t in ts:
        while t.is_alive() and not errors:
            t.join(0.01 if errors else min(1.0, max(0.001, end - time.monotonic())))
            check(not t.is_alive() or time.monotonic() < end, "%s", what)
    if errors:
        raise errors[0]


class Custom(object):
    """a loop of the application"""

    def __init__(self):
        self.q = queue.Queue()
        self.posted = 0
        self.running = False

    def post(self, handler, req):
        self.posted += 1
        self.q.put((handler, req))

    def step(self, timeout=0):
        try:
            h, r = self.q.get(timeout=timeout)
        except queue.Empty:
            return False
        h.cb(r)
        return True

    def run(self):
        self.running = True
        while self.running:
            self.step(timeout=0.05)

    def exit(self):
        self.running = False


def history(g):
    custom = Custom() if g.chance(1, 4) else None
    if custom is not None:
        g.label("loop of the application")
    model = []  # posted and not yet handled
    st = {"seq": 0, "handled": 0, "exited": False, "depth": 0, "budget": 200, "me": threading.current_thread()}
    handlers = []

    def post():
        if not handlers or st["budget"] <= 0:
            return
        st["budget"] -= 1
        i = g.below(len(handlers))
        req = g.pick((None, st["seq"], ("tuple", st["seq"]), [], "text"))
        st["seq"] += 1
        g.note("%spost %r to %d", "  " * st["depth"], req, i)
        model.append((i, req))
        handlers[i].post(req)

    def callback(i):
        def cb(req):
            check(threading.current_thread() is st["me"], "handled in another thread")
            check(not st["exited"], "a request handled after exitLoop in runLoop")
            check(model, "a request handled twice, or never posted: %r", req)
            w = model.pop(0)
            check(w[0] == i and w[1] is req, "request %r of handler %d handled, %r of %d is next", req, i, w[1], w[0])
            g.note("%shandler %d: %r", "  " * st["depth"], i, req)
            st["handled"] += 1
            st["depth"] += 1
            for _ in range(g.weighted((5, 3, 1))):
                post()
            if st.get("running") and (g.chance(1, 4) or not model):
                g.note("%sexitLoop", "  " * st["depth"])
                looper.exitLoop()
                st["exited"] = True
            elif st["depth"] < 3 and not st.get("running") and g.chance(1, 10):
                step()
            st["depth"] -= 1
        return cb

    def step():
        n0 = st["handled"]
        m = g.below(6) if g.flip() else 32
        depth = st["depth"]
        g.note("%sstepLoop(%d)", "  " * depth, m)
        t0 = time.monotonic()
        own = {"n": 0}
        nested = st.get("own")
        st["own"] = own
        if g.flip():
            looper.stepLoop(maxMsg=m)
        else:
            looper.stepLoop(m, 0)
        st["own"] = nested
        n = st["handled"] - n0
        check(time.monotonic() - t0 < WAIT, "stepLoop without timeout took %f s", time.monotonic() - t0)
        if nested is not None:
            nested["nested"] = nested.get("nested", 0) + n
        n -= own.get("nested", 0)
        check(n <= m, "stepLoop of at most %d request(s) handled %d", m, n)
        check(n == m or not model, "stepLoop(%d) handled %d request(s), %d are left", m, n, len(model))

    for _ in range(1 + g.below(2)):
        if custom is not None:
            looper.prepareLoop(custom)
        else:
            looper.prepareLoop()
        if g.flip():
            try:
                looper.prepareLoop()
            except Exception:
                pass
            else:
                check(False, "a second loop for the thread is not refused")
        del handlers[:]
        del model[:]
        for i in range(1 + g.below(3)):
            handlers.append(looper.Handler(callback(i)))
        for _ in range(g.below(20)):
            k = g.below(3)
            if k == 0:
                step()
            elif k == 1:
                for _ in range(1 + g.below(40 if g.chance(1, 8) else 4)):
                    post()
            else:
                n0, n = st["handled"], len(model)
                looper.stepLoop(timeout=0.001, maxMsg=1)
                check(st["handled"] > n0 or n == 0, "nothing handled, %d pending", n)
        st["budget"] = max(st["budget"], 30)
        while not model:
            post()
        # runs until told not to
        g.note("runLoop, %d pending", len(model))
        st["running"] = True
        st["exited"] = False
        looper.runLoop()
        check(st["exited"], "runLoop returned without exitLoop")
        st["running"] = st["exited"] = False
        if custom is not None:
            check(custom.posted > 0, "requests are not posted to the loop given to prepareLoop")
            custom.q = queue.Queue()
    if st["handled"] >= 10:
        g.nontrivial()


@pypbt.target("c32_history", "one thread: posts from outside and from handlers, steps of at most n requests, also nested, runs that a handler ends, a loop of the application; "
              "non-trivial: 10 requests handled", weight=2)
def c32_history(g):
    in_threads(g, [lambda: history(g)], "the thread does not end")


@pypbt.target("c32_threads", "1 to 3 loops in threads of their own, 1 to 4 threads posting, requests handed on from loop to loop; non-trivial: 10 requests", weight=2)
def c32_threads(g):
    nl, npo = 1 + g.below(3), 1 + g.below(4)
    nh = [1 + g.below(3) for _ in range(nl)]
    # plan of each poster: (loop, handler, then (loop, handler)...)
    plans = []
    total = 0
    for _ in range(npo):
        plan = []
        for _ in range(g.below(30)):
            hops = []
            for _ in range(1 + (g.below(4) if g.chance(1, 3) else 0)):
                lo = g.below(nl)
                hops.append((lo, g.below(nh[lo])))
            plan.append(tuple(hops))
            total += len(hops)
        plans.append(plan)
    sleepy = g.chance(1, 4)
    g.note("%d loops with %r handlers, plans %r", nl, nh, plans)
    handlers = [[] for _ in range(nl)]
    log = [[] for _ in range(nl)]
    ready = [threading.Event() for _ in range(nl)]
    done = {"n": 0}
    lock = threading.Lock()
    alldone = threading.Event()
    if total == 0:
        alldone.set()

    def loop(i):
        me = threading.current_thread()

        def cb(h):
            def f(req):
                check(threading.current_thread() is me, "a request of the loop of another thread is handled here")
                if req is None:
                    looper.exitLoop()
                    return
                p, k, hop, hops = req
                check(hops[hop] == (i, h), "request of handler %r handled by handler %d of loop %d", hops[hop], h, i)
                log[i].append((p, k, hop))
                if hop + 1 < len(hops):
                    lo, hd = hops[hop + 1]
                    handlers[lo][hd].post((p, k, hop + 1, hops))
                with lock:
                    done["n"] += 1
                    if done["n"] == total:
                        alldone.set()
            return f

        def run():
            looper.prepareLoop()
            handlers[i] = [looper.Handler(cb(h)) for h in range(nh[i])]
            ready[i].set()
            looper.runLoop()
        return run()

    def poster(p):
        def run():
            for r in ready:
                check(r.wait(WAIT), "a loop does not start")
            for k, hops in enumerate(plans[p]):
                lo, hd = hops[0]
                handlers[lo][hd].post((p, k, 0, hops))
                if sleepy and k % 4 == 0:
                    time.sleep(0)
        return run

    def stopper():
        for r in ready:
            check(r.wait(WAIT), "a loop does not start")
        check(alldone.wait(WAIT), "%d requests of %d are handled", done["n"], total)
        for h in handlers:
            h[0].post(None)

    in_threads(g, [(lambda i: lambda: loop(i))(i) for i in range(nl)] + [poster(p) for p in range(npo)] + [stopper], "the threads do not end")
    want = sorted((p, k, hop) for p, plan in enumerate(plans) for k, hops in enumerate(plan) for hop in range(len(hops)))
    check(sorted(x for one in log for x in one) == want, "requests are lost or handled twice")
    for i in range(nl):
        for p in range(npo):
            ks = [k for (q, k, hop) in log[i] if q == p and hop == 0]
            check(ks == sorted(ks), "loop %d: requests of thread %d out of order: %r", i, p, ks)
    if total >= 10:
        g.nontrivial()


if __name__ == "__main__":
    pypbt.main()
