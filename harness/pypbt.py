"""The engine of pbt.hpp for checks written in Python: seeded generation
recorded as a tape of choices, forked workers, confirmation and shrinking of
failures, replay files, measured evidence."""
import argparse
import hashlib
import json
import mmap
import os
import random
import resource
import signal
import struct
import sys
import time
import traceback

MAXTAPE = 1 << 15
NOTES = 1 << 16
FAILSZ = 8192
# start(8) target(8) tapelen(8) index(8) failed(8) nontrivial(8) noteslen(8)
HDR = 64
SLOT = HDR + 8 * MAXTAPE + NOTES + FAILSZ


class Failed(Exception):
    pass


def fail(fmt, *args):
    raise Failed(fmt % args if args else fmt)


def check(cond, fmt, *args):
    if not cond:
        fail(fmt, *args)


class Slot(object):
    def __init__(self):
        self.m = mmap.mmap(-1, SLOT)

    def get(self, i):
        return struct.unpack_from("<q", self.m, 8 * i)[0]

    def put(self, i, v):
        struct.pack_into("<q", self.m, 8 * i, v)

    def tape(self):
        n = self.get(2)
        return list(struct.unpack_from("<%dQ" % n, self.m, HDR))

    def note(self, s):
        b = (s + "\n").encode("utf-8", "backslashreplace")
        n = self.get(6)
        b = b[:max(0, NOTES - n)]
        o = HDR + 8 * MAXTAPE + n
        self.m[o:o + len(b)] = b
        self.put(6, n + len(b))

    def notes(self):
        o = HDR + 8 * MAXTAPE
        return self.m[o:o + self.get(6)].decode("utf-8", "replace")

    def setfail(self, s):
        b = s.encode("utf-8", "backslashreplace")[:FAILSZ - 8]
        o = HDR + 8 * MAXTAPE + NOTES
        self.m[o:o + 4] = struct.pack("<I", len(b))
        self.m[o + 4:o + 4 + len(b)] = b
        self.put(4, 1)

    def fail(self):
        o = HDR + 8 * MAXTAPE + NOTES
        n = struct.unpack("<I", self.m[o:o + 4])[0]
        return self.m[o + 4:o + 4 + n].decode("utf-8", "replace")


class Gen(object):
    def __init__(self, slot, seed=None, tape=None):
        self.slot = slot
        self.rnd = random.Random(seed) if tape is None else None
        self.src = tape
        self.pos = 0
        self.marked = False
        self.labels = []
        slot.put(2, 0)

    def below(self, n):
        if n <= 0:
            n = 1
        if self.pos >= MAXTAPE:
            return 0
        if self.src is None:
            v = int(self.rnd.random() * n) if n < (1 << 50) else self.rnd.randrange(n)
        else:
            v = self.src[self.pos] % n if self.pos < len(self.src) else 0
        struct.pack_into("<Q", self.slot.m, HDR + 8 * self.pos, v)
        self.pos += 1
        self.slot.put(2, self.pos)
        return v

    def flip(self):
        return self.below(2) == 1

    def chance(self, k, n):
        return self.below(n) >= n - k

    def pick(self, seq):
        return seq[self.below(len(seq))]

    def weighted(self, ws):
        v = self.below(sum(ws))
        for i, w in enumerate(ws):
            if v < w:
                return i
            v -= w
        return 0

    def integer(self, bits):
        mask = (1 << bits) - 1
        k = self.weighted((3, 4, 2, 3))
        if k == 0:
            return self.below(16) & mask
        if k == 1:
            return ((1 << self.below(bits)) + self.below(5) - 2) & mask
        if k == 2:
            return ~self.below(16) & mask
        w = self.below(bits) + 1
        v = (self.below(1 << 32) << 32) | self.below(1 << 32)
        return v & ((1 << w) - 1) & mask

    def bytes(self, n):
        if n <= 16:
            return bytes(self.below(256) for _ in range(n))
        return random.Random(self.below(1 << 30)).randbytes(n)

    def size(self, mx):
        k = self.weighted((4, 3, 2))
        if k == 0:
            v = self.below(24)
        elif k == 1:
            v = max(0, (1 << self.below(max(1, mx.bit_length()))) + self.below(5) - 2)
        else:
            v = self.below(mx + 1)
        return min(v, mx)

    def note(self, fmt, *args):
        self.slot.note(fmt % args if args else fmt)

    def nontrivial(self):
        self.marked = True

    def label(self, name):
        self.labels.append(name)


class Target(object):
    def __init__(self, name, rule, fn, weight, timeout):
        self.name, self.rule, self.fn, self.weight, self.timeout = name, rule, fn, weight, timeout


TARGETS = []


def target(name, rule, weight=1, timeout=30):
    def deco(fn):
        TARGETS.append(Target(name, rule, fn, weight, timeout))
        return fn
    return deco


OPT = None
PRELOAD = []    # functions run once in each new process


def mix(*a):
    return int.from_bytes(hashlib.blake2b(repr(a).encode(), digest_size=8).digest(), "little")


def quiet():
    if not OPT.verbose:
        fd = os.open("/dev/null", os.O_RDWR)
        os.dup2(fd, 2)
        os.dup2(fd, 1)
        os.close(fd)


def run_case(slot, t, gen):
    """True if passed; the failure is left in the slot."""
    try:
        TARGETS[t].fn(gen)
        return True
    except Failed as ex:
        slot.setfail(str(ex))
    except BaseException:  # any escape is a failure
        slot.setfail("exception " + traceback.format_exc()[-3000:])
    return False


def begin(slot, t, index):
    slot.put(1, t)
    slot.put(3, index)
    slot.put(4, 0)
    slot.put(6, 0)
    slot.put(2, 0)
    slot.put(0, time.monotonic_ns())


def child_setup():
    # die with the parent
    import ctypes
    ctypes.CDLL(None).prctl(1, signal.SIGKILL)
    quiet()
    for f in PRELOAD:
        f()


def worker(slot, w, nw, first, deadline, outp):
    child_setup()
    order = [i for r in range(max(t.weight for t in TARGETS)) for i, t in enumerate(TARGETS)
             if t.weight > r and (not OPT.only or t.name == OPT.only)]
    st = {"evals": {}, "nontriv": {}, "labels": {}, "hashes": set(), "samples": {}}

    def save():
        with open(outp + ".tmp", "w") as f:
            json.dump({"evals": st["evals"], "nontriv": st["nontriv"], "labels": st["labels"],
                       "hashes": list(st["hashes"]), "samples": st["samples"]}, f)
        os.rename(outp + ".tmp", outp)
    i = first
    last = time.monotonic()
    when = (1, 10, 50, 150, 500, 1500, 5000, 15000, 50000)
    while time.monotonic() < deadline:
        index = i * nw + w
        t = order[index % len(order)]
        begin(slot, t, i)
        g = Gen(slot, seed=mix(OPT.seed, index, t))
        if not run_case(slot, t, g):
            save()
            os._exit(77)
        name = TARGETS[t].name
        st["evals"][name] = st["evals"].get(name, 0) + 1
        for lb in set(g.labels):
            st["labels"][lb] = st["labels"].get(lb, 0) + 1
        if g.marked:
            n = st["nontriv"].get(name, 0) + 1
            st["nontriv"][name] = n
            if len(st["hashes"]) < 400000:
                st["hashes"].add(mix(t, slot.m[HDR:HDR + 8 * g.pos]))
            if n in when and w == 0:
                st["samples"].setdefault(name, []).append(slot.notes()[:1600])
        slot.put(0, 0)
        i += 1
        if time.monotonic() - last > 2:
            last = time.monotonic()
            save()
    save()
    os._exit(0)


def run_tape(slot, t, tape):
    """(failed, kind, msg, notes, tape used)"""
    pid = os.fork()
    if pid == 0:
        try:
            child_setup()
            begin(slot, t, 0)
            os._exit(0 if run_case(slot, t, Gen(slot, tape=tape)) else 77)
        finally:
            os._exit(78)
    end = time.monotonic() + TARGETS[t].timeout
    while True:
        q, status = os.waitpid(pid, os.WNOHANG)
        if q:
            break
        if time.monotonic() > end:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            return (True, "hang", "no result after %d s" % TARGETS[t].timeout, slot.notes(), slot.tape())
        time.sleep(0.002)
    if status == 0:
        return (False, "", "", slot.notes(), slot.tape())
    kind = describe(status)
    return (True, kind, slot.fail() if slot.get(4) else kind, slot.notes(), slot.tape())


def describe(status):
    if os.WIFSIGNALED(status):
        return "signal %d" % os.WTERMSIG(status)
    return "check" if os.WEXITSTATUS(status) == 77 else "exit %d" % os.WEXITSTATUS(status)


def shrink(slot, t, best, deadline):
    execs = [0]
    state = [best]

    def attempt(c):
        if time.monotonic() > deadline or execs[0] > 2000:
            return False
        execs[0] += 1
        r = run_tape(slot, t, c)
        b = state[0]
        if not r[0] or r[1] != b[1] or len(r[4]) > len(b[4]):
            return False
        if len(r[4]) == len(b[4]) and not r[4] < b[4]:
            return False
        state[0] = r
        return True
    if best[1] == "hang":
        return best
    improved = True
    while improved and time.monotonic() < deadline:
        improved = False
        for blk in (256, 64, 16, 8, 4, 2, 1):
            at = len(state[0][4])
            while at > 0 and time.monotonic() < deadline:
                at = max(0, at - blk)
                c = list(state[0][4])
                del c[at:at + blk]
                improved |= attempt(c)
        for at in range(len(state[0][4])):
            if at >= len(state[0][4]) or time.monotonic() > deadline:
                break
            c = list(state[0][4])
            if c[at]:
                c[at] = 0
                if attempt(c):
                    improved = True
                    continue
            for _ in range(24):
                c = list(state[0][4])
                if at >= len(c) or c[at] < 2:
                    break
                c[at] //= 2
                if not attempt(c):
                    c = list(state[0][4])
                    c[at] -= 1
                    if not attempt(c):
                        break
                improved = True
    return state[0]


def write_replay(t, r):
    os.makedirs(OPT.replay_dir, exist_ok=True)
    path = os.path.join(OPT.replay_dir, "%s-%016x.txt" % (TARGETS[t].name, mix(t, r[4])))
    with open(path, "w") as f:
        f.write("property %s\ntarget %s\ntape %s\nend\n\nfailure (%s): %s\n\ncase:\n%s" % (
            OPT.prop, TARGETS[t].name, " ".join(str(v) for v in r[4]), r[1], r[2], r[3]))
    return path


def do_replay():
    t, tape = None, []
    with open(OPT.replay) as f:
        for line in f:
            w = line.split()
            if w and w[0] == "target":
                for i, x in enumerate(TARGETS):
                    if x.name == w[1]:
                        t = i
                if t is None:
                    return 3
            elif w and w[0] == "tape":
                tape = [int(x) for x in w[1:]]
            elif w and w[0] == "end":
                break
    r = run_tape(Slot(), t, tape)
    print("case:\n" + r[3])
    if r[0]:
        print("FAILED (%s): %s" % (r[1], r[2]))
        return 1
    print("passed")
    return 0


def run():
    t0 = time.monotonic()
    if OPT.replay:
        return do_replay()
    nw = OPT.workers or min(8, os.cpu_count() or 1)
    deadline = t0 + OPT.time
    slots = [Slot() for _ in range(nw + 1)]
    aux = slots[nw]
    pids, gen, first = [0] * nw, [0] * nw, [0] * nw
    outs = []

    def spawn(w):
        slots[w].put(0, 0)
        gen[w] += 1
        outp = os.path.join(OPT.scratch, "w%d-%d.json" % (w, gen[w]))
        outs.append(outp)
        pid = os.fork()
        if pid == 0:
            try:
                worker(slots[w], w, nw, first[w], deadline, outp)
            finally:
                os._exit(78)
        pids[w] = pid
    for w in range(nw):
        spawn(w)
    violated, unrep, unrep_msgs, vmsg, vpath = False, 0, "", "", ""
    while any(pids) and not violated:
        time.sleep(0.01)
        for w in range(nw):
            if not pids[w] or violated:
                continue
            q, status = os.waitpid(pids[w], os.WNOHANG)
            hang = False
            t = slots[w].get(1)
            if not q:
                st = slots[w].get(0)
                if not st or time.monotonic_ns() < st + TARGETS[t].timeout * 10 ** 9:
                    continue
                hang = True
                os.kill(pids[w], signal.SIGKILL)
                os.waitpid(pids[w], 0)
            pids[w] = 0
            if not hang and status == 0:
                continue
            at = slots[w].get(3)
            tape = slots[w].tape()
            kind = "hang" if hang else describe(status)
            msg = slots[w].fail() if slots[w].get(4) else kind
            sys.stderr.write("failure in %s: %s: %s\n" % (TARGETS[t].name, kind, msg[:600]))
            c = None
            for _ in range(2 if hang else 5):
                x = run_tape(aux, t, tape)
                if x[0]:
                    c = x
                    break
            if c is not None:
                violated = True
                for v in range(nw):
                    if pids[v]:
                        os.kill(pids[v], signal.SIGKILL)
                        os.waitpid(pids[v], 0)
                        pids[v] = 0
                m = shrink(aux, t, c, time.monotonic() + 45)
                vpath = write_replay(t, m)
                vmsg = m[2]
                break
            unrep += 1
            unrep_msgs += "%s: %s; " % (kind, msg[:300])
            first[w] = at + 1
            if time.monotonic() < deadline:
                spawn(w)
    ev = {"evals": {}, "nontriv": {}, "labels": {}, "samples": {}}
    hashes = set()
    for p in outs:
        try:
            with open(p) as f:
                d = json.load(f)
        except (OSError, ValueError):
            continue
        for k in ("evals", "nontriv", "labels"):
            for a, b in d[k].items():
                ev[k][a] = ev[k].get(a, 0) + b
        hashes.update(d["hashes"])
        for a, b in d["samples"].items():
            ev["samples"].setdefault(a, []).extend(b)
    wall = time.monotonic() - t0
    total, nt = sum(ev["evals"].values()), sum(ev["nontriv"].values())
    if OPT.evidence:
        with open(OPT.evidence, "w") as f:
            json.dump({
                "evaluations": total, "nontrivial": nt, "distinct_nontrivial": len(hashes),
                "rule": " | ".join("%s: %s" % (t.name, t.rule) for t in TARGETS),
                "targets": {t.name: {"evaluations": ev["evals"].get(t.name, 0), "nontrivial": ev["nontriv"].get(t.name, 0)}
                            for t in TARGETS},
                "classes": ev["labels"],
                "samples": [a + "\n" + s for a, b in ev["samples"].items() for s in b[-3:]],
                "unreproduced": unrep, "unreproduced_msgs": unrep_msgs, "violations": int(violated),
                "replay": vpath, "wall_s": round(wall, 2)}, f)
    if violated:
        print("failed: " + vmsg[:1500])
        print("REPLAY " + vpath)
        return 1
    print("ok %s: %d cases, %d non-trivial, %d distinct, %.1f s%s" % (
        OPT.prop, total, nt, len(hashes), wall, ", unreproduced anomalies: %d %s" % (unrep, unrep_msgs) if unrep else ""))
    return 0


def main():
    global OPT
    ap = argparse.ArgumentParser()
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--time", type=float, default=10)
    ap.add_argument("--workers", type=int, default=0)
    ap.add_argument("--prop", default="X00")
    ap.add_argument("--evidence", default="")
    ap.add_argument("--replay-dir", default=".")
    ap.add_argument("--replay", default="")
    ap.add_argument("--only", default="")
    ap.add_argument("--scratch", default="/tmp")
    ap.add_argument("--verbose", action="store_true")
    OPT = ap.parse_args()
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    sys.exit(run())
