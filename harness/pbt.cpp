#include "pbt.hpp"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <fcntl.h>
#include <map>
#include <set>
#include <string>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace pbt {

void (*before_case)();

static constexpr int NLABEL = 256;
static constexpr int NSAMPLE = 12;
static constexpr size_t NHASH = 1 << 20;
static constexpr int MAXTARGET = 24;

struct Shared {
	std::atomic<uint64_t> evals;
	std::atomic<uint64_t> nontriv;
	std::atomic<uint64_t> distinct;
	std::atomic<uint64_t> tevals[MAXTARGET];
	std::atomic<uint64_t> tnontriv[MAXTARGET];
	std::atomic<uint32_t> nlabels;
	struct { std::atomic<int> ready; char name[56]; std::atomic<uint64_t> n; } labels[NLABEL];
	std::atomic<uint32_t> nsamples[MAXTARGET];
	char samples[MAXTARGET][NSAMPLE][1600];
	std::atomic<uint64_t> hashes[NHASH];
};

static Shared *sh;
static Slot *cur;
static bool in_worker;
static std::vector<Target> &targets()
{
	static std::vector<Target> t;
	return t;
}
Register::Register(const char *name, const char *rule, Fn fn, unsigned weight, unsigned timeout_s)
{
	targets().push_back({name, rule, fn, weight, timeout_s});
}

uint64_t mix(uint64_t a, uint64_t b)
{
	uint64_t z = a * 0x9e3779b97f4a7c15ull + b + 0x632be59bd9b4e019ull;
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
	return z ^ (z >> 31);
}
uint64_t fnv(const void *p, size_t n, uint64_t h)
{
	const uint8_t *b = (const uint8_t *)p;
	for (size_t i = 0; i < n; i++)
		h = (h ^ b[i]) * 1099511628211ull;
	return h;
}
void fill(uint8_t *p, size_t n, uint64_t seed)
{
	uint64_t x = mix(seed, 77);
	for (size_t i = 0; i < n; i++) {
		if ((i & 7) == 0)
			x = mix(x, i);
		p[i] = (uint8_t)(x >> ((i & 7) * 8));
	}
}
std::string hex(const void *p, size_t n, size_t max)
{
	std::string r;
	char t[4];
	for (size_t i = 0; i < n && i < max; i++) {
		snprintf(t, sizeof(t), "%02x", ((const uint8_t *)p)[i]);
		r += t;
	}
	if (n > max)
		r += "...(" + std::to_string(n) + ")";
	return r;
}

Gen::Gen(Slot *slot, uint64_t seed) : slot_(slot), replay_(false)
{
	for (int i = 0; i < 4; i++)
		s_[i] = mix(seed, i + 1);
	slot_->tapelen = 0;
}
Gen::Gen(Slot *slot, const std::vector<uint64_t> &tape) : slot_(slot), replay_(true), in_(tape)
{
	slot_->tapelen = 0;
}
uint64_t Gen::raw()
{
	auto rotl = [](uint64_t x, int k) { return (x << k) | (x >> (64 - k)); };
	uint64_t r = rotl(s_[1] * 5, 7) * 9, t = s_[1] << 17;
	s_[2] ^= s_[0];
	s_[3] ^= s_[1];
	s_[1] ^= s_[2];
	s_[0] ^= s_[3];
	s_[2] ^= t;
	s_[3] = rotl(s_[3], 45);
	return r;
}
uint64_t Gen::below(uint64_t n)
{
	uint64_t v;
	if (n == 0)
		n = 1;
	if (pos_ >= MAXTAPE) {
		over_ = true;
		return 0;
	}
	if (replay_)
		v = pos_ < in_.size() ? in_[pos_] % n : 0;
	else
		v = n == 1 ? 0 : raw() % n;
	slot_->tape[pos_] = v;
	pos_++;
	slot_->tapelen.store((uint32_t)pos_, std::memory_order_relaxed);
	return v;
}
unsigned Gen::weighted(std::initializer_list<unsigned> w)
{
	unsigned t = 0, i = 0;
	for (unsigned x : w)
		t += x;
	uint64_t v = below(t);
	for (unsigned x : w) {
		if (v < x)
			return i;
		v -= x;
		i++;
	}
	return 0;
}
uint64_t Gen::integer(unsigned bits)
{
	uint64_t mask = bits >= 64 ? ~0ull : (1ull << bits) - 1;
	switch (weighted({3, 4, 2, 3})) {
	case 0:
		return below(16) & mask;
	case 1: {
		uint64_t v = 1ull << below(bits);
		uint64_t d = below(5);
		v = v + d - 2;
		return v & mask;
	}
	case 2:
		return (~below(16)) & mask;
	default: {
		unsigned w = (unsigned)below(bits) + 1;
		uint64_t hi = below(1ull << 32), lo = below(1ull << 32);
		uint64_t v = (hi << 32) | lo;
		return (w >= 64 ? v : v & ((1ull << w) - 1)) & mask;
	}
	}
}
std::string Gen::bytes(size_t n)
{
	std::string s(n, 0);
	if (n <= 16) {
		for (size_t i = 0; i < n; i++)
			s[i] = (char)below(256);
	} else {
		fill((uint8_t *)&s[0], n, below(1u << 30));
	}
	return s;
}
size_t Gen::size(size_t max)
{
	size_t v;
	switch (weighted({4, 3, 2})) {
	case 0:
		v = below(24);
		break;
	case 1: {
		unsigned k = 0;
		while ((2ull << k) <= max)
			k++;
		v = (1ull << below(k + 1)) + below(5);
		v = v >= 2 ? v - 2 : 0;
		break;
	}
	default:
		v = below(max + 1);
		break;
	}
	return v > max ? max : v;
}

void note(const char *fmt, ...)
{
	if (!cur)
		return;
	va_list ap;
	uint32_t n = cur->noteslen.load(std::memory_order_relaxed);
	if (n + 256 >= NOTES)
		return;
	va_start(ap, fmt);
	int r = vsnprintf(cur->notes + n, NOTES - n - 2, fmt, ap);
	va_end(ap);
	if (r < 0)
		return;
	n += std::min<size_t>((size_t)r, NOTES - n - 3);
	cur->notes[n++] = '\n';
	cur->notes[n] = 0;
	cur->noteslen.store(n, std::memory_order_relaxed);
}
void fail(const char *fmt, ...)
{
	va_list ap;
	va_start(ap, fmt);
	if (cur) {
		vsnprintf(cur->fail, sizeof(cur->fail), fmt, ap);
		cur->failed = 1;
	}
	va_end(ap);
	_exit(77);
}
void nontrivial()
{
	if (cur)
		cur->nontrivial = 1;
}
void case_hash(uint64_t h)
{
	if (cur)
		cur->hash = h ? h : 1;
}
void count_label(int *id, const char *name)
{
	if (!sh || !in_worker)
		return;
	int i = *id;
	if (i < 0) {
		// find or register (labels are few, races only between workers)
		for (i = 0; i < NLABEL; i++) {
			int st = 0;
			if (sh->labels[i].ready.compare_exchange_strong(st, 1)) {
				strncpy(sh->labels[i].name, name, sizeof(sh->labels[i].name) - 1);
				sh->labels[i].ready = 2;
				break;
			}
			while (sh->labels[i].ready == 1)
				usleep(10);
			if (strncmp(sh->labels[i].name, name, sizeof(sh->labels[i].name) - 1) == 0)
				break;
		}
		if (i >= NLABEL)
			return;
		*id = i;
	}
	sh->labels[i].n++;
}

static uint64_t now_ns()
{
	struct timespec ts;
	clock_gettime(CLOCK_MONOTONIC, &ts);
	return (uint64_t)ts.tv_sec * 1000000000ull + ts.tv_nsec;
}

static void begin_case(Slot *s, uint32_t target, uint64_t index)
{
	s->target = target;
	s->index = index;
	s->noteslen = 0;
	s->notes[0] = 0;
	s->failed = 0;
	s->fail[0] = 0;
	s->nontrivial = 0;
	s->hash = 0;
	s->tapelen = 0;
	s->start_ns = now_ns();
	if (before_case)
		before_case();
}
static void end_case(Slot *s) { s->start_ns = 0; }

struct Opt {
	uint64_t seed = 1;
	double time = 20;
	int workers = 0;
	uint64_t maxcases = 0;
	std::string prop = "X00", evidence, replaydir = ".", replay, only, scratch = "/tmp";
	double shrink_time = 45;
	bool verbose = false;
	int confirm = 1;
} opt;

static uint32_t pick_target(uint64_t index)
{
	// weighted round robin over the enabled targets
	static std::vector<uint32_t> order;
	if (order.empty()) {
		unsigned maxw = 0;
		for (auto &t : targets())
			maxw = std::max(maxw, t.weight);
		for (unsigned r = 0; r < maxw; r++)
			for (uint32_t i = 0; i < targets().size(); i++)
				if (targets()[i].weight > r && (opt.only.empty() || opt.only == targets()[i].name))
					order.push_back(i);
	}
	return order[index % order.size()];
}

static void quiet_stderr()
{
	if (opt.verbose)
		return;
	int fd = open("/dev/null", O_WRONLY);
	if (fd >= 0) {
		dup2(fd, 2);
		close(fd);
	}
}

static void account(Slot *s, uint32_t t)
{
	sh->evals++;
	sh->tevals[t]++;
	if (!s->nontrivial)
		return;
	sh->nontriv++;
	sh->tnontriv[t]++;
	uint64_t h = s->hash ? mix(s->hash, t) : fnv(s->tape, s->tapelen * 8, t + 99);
	if (h == 0)
		h = 1;
	bool isnew = false;
	for (size_t k = 0; k < 64; k++) {
		auto &e = sh->hashes[(h + k) % NHASH];
		uint64_t v = 0;
		if (e.compare_exchange_strong(v, h)) {
			isnew = true;
			break;
		}
		if (v == h)
			break;
	}
	if (isnew)
		sh->distinct++;
	// samples: the first ones, then at increasing distances
	uint64_t k = sh->tnontriv[t];
	uint32_t want = sh->nsamples[t];
	static const uint64_t when[NSAMPLE] = {1, 10, 50, 150, 500, 1500, 5000, 15000, 50000, 150000, 500000, 1500000};
	if (want < NSAMPLE && k >= when[want] && sh->nsamples[t].compare_exchange_strong(want, want + 1)) {
		snprintf(sh->samples[t][want], sizeof(sh->samples[t][want]), "%s", s->notes);
	}
}

static void worker(Slot *s, int w, int nw, uint64_t first, uint64_t deadline)
{
	prctl(PR_SET_PDEATHSIG, SIGKILL);
	cur = s;
	in_worker = true;
	quiet_stderr();
	for (uint64_t i = first;; i++) {
		if (now_ns() > deadline)
			break;
		uint64_t index = i * nw + w;
		if (opt.maxcases && index >= opt.maxcases)
			break;
		uint32_t t = pick_target(index);
		begin_case(s, t, i);
		Gen g(s, mix(mix(opt.seed, index), t + 1));
		targets()[t].fn(g);
		account(s, t);
		end_case(s);
	}
	_exit(0);
}

struct Result {
	bool failed = false;
	std::string kind, msg, notes;
	std::vector<uint64_t> tape;
};

static std::string logbase()
{
	return opt.scratch + "/san." + opt.prop;
}
static std::string take_san_log(pid_t pid)
{
	std::string r;
	std::string p = logbase() + "." + std::to_string(pid);
	FILE *f = fopen(p.c_str(), "r");
	if (f) {
		char b[6000];
		size_t n = fread(b, 1, sizeof(b) - 1, f);
		b[n] = 0;
		r = b;
		fclose(f);
		unlink(p.c_str());
	}
	return r;
}

static std::string describe(int status, Slot *s, const std::string &san, bool timeout)
{
	if (timeout)
		return "hang";
	if (WIFEXITED(status) && WEXITSTATUS(status) == 77)
		return "check";
	if (!san.empty())
		return "sanitizer";
	if (WIFSIGNALED(status))
		return "signal " + std::to_string(WTERMSIG(status));
	return "exit " + std::to_string(WEXITSTATUS(status));
}

// Runs fn in a child on the slot, waits at most timeout_s
static Result run_child(Slot *s, unsigned timeout_s, const std::function<void()> &fn)
{
	Result r;
	s->failed = 0;
	s->fail[0] = 0;
	s->noteslen = 0;
	s->notes[0] = 0;
	s->tapelen = 0;
	pid_t pid = fork();
	if (pid == 0) {
		prctl(PR_SET_PDEATHSIG, SIGKILL);
		cur = s;
		quiet_stderr();
		fn();
		_exit(0);
	}
	uint64_t end = now_ns() + timeout_s * 1000000000ull;
	int status = 0;
	bool timeout = false;
	useconds_t nap = 200;
	for (;;) {
		pid_t q = waitpid(pid, &status, WNOHANG);
		if (q == pid)
			break;
		if (now_ns() > end) {
			timeout = true;
			kill(pid, SIGKILL);
			waitpid(pid, &status, 0);
			break;
		}
		usleep(nap);
		if (nap < 5000)
			nap += 200;
	}
	std::string san = take_san_log(pid);
	if (timeout || !(WIFEXITED(status) && WEXITSTATUS(status) == 0)) {
		r.failed = true;
		r.kind = describe(status, s, san, timeout);
		r.msg = s->failed ? s->fail : timeout ? "no result after " + std::to_string(timeout_s) + " s" : r.kind;
		if (!san.empty())
			r.msg += "\n" + san;
	}
	r.notes = s->notes;
	r.tape.assign(s->tape, s->tape + s->tapelen.load());
	return r;
}
static Result run_tape(Slot *s, uint32_t t, const std::vector<uint64_t> &tape)
{
	return run_child(s, targets()[t].timeout_s, [&] {
		begin_case(s, t, 0);
		Gen g(s, tape);
		targets()[t].fn(g);
	});
}
// worker-history replay: cases from..to of worker w in one process
static Result run_history(Slot *s, int w, int nw, uint64_t from, uint64_t to)
{
	return run_child(s, 120, [&] {
		for (uint64_t i = from; i <= to; i++) {
			uint64_t index = i * nw + w;
			uint32_t t = pick_target(index);
			begin_case(s, t, i);
			Gen g(s, mix(mix(opt.seed, index), t + 1));
			targets()[t].fn(g);
		}
	});
}

static Result shrink(Slot *s, uint32_t t, Result best, uint64_t deadline, int *execs)
{
	auto attempt = [&](const std::vector<uint64_t> &c) {
		if (now_ns() > deadline || *execs > 3000)
			return false;
		(*execs)++;
		Result r = run_tape(s, t, c);
		if (!r.failed || r.kind != best.kind)
			return false;
		// keep if simpler: shorter, or lexicographically smaller
		if (r.tape.size() > best.tape.size())
			return false;
		if (r.tape.size() == best.tape.size() && !(r.tape < best.tape))
			return false;
		best = r;
		return true;
	};
	if (best.kind == "hang")
		return best;
	bool improved = true;
	while (improved && now_ns() < deadline && *execs <= 3000) {
		improved = false;
		for (size_t blk = 256; blk >= 1; blk /= 2) {
			for (size_t at = best.tape.size(); at > 0;) {
				at = at > blk ? at - blk : 0;
				if (at + blk > best.tape.size() && at != 0)
					continue;
				auto c = best.tape;
				c.erase(c.begin() + at, c.begin() + std::min(at + blk, c.size()));
				if (attempt(c))
					improved = true;
				if (now_ns() > deadline || *execs > 3000)
					return best;
			}
		}
		for (size_t blk = 16; blk >= 1; blk /= 4) {
			for (size_t at = 0; at < best.tape.size(); at += blk) {
				auto c = best.tape;
				bool any = false;
				for (size_t k = at; k < std::min(at + blk, c.size()); k++) {
					any |= c[k] != 0;
					c[k] = 0;
				}
				if (any && attempt(c))
					improved = true;
			}
		}
		for (size_t at = 0; at < best.tape.size(); at++) {
			for (int tries = 0; tries < 40 && at < best.tape.size() && best.tape[at] > 0; tries++) {
				auto c = best.tape;
				c[at] /= 2;
				if (attempt(c)) {
					improved = true;
					continue;
				}
				c = best.tape;
				c[at] -= 1;
				if (!attempt(c))
					break;
				improved = true;
			}
		}
	}
	return best;
}

static std::string jstr(const std::string &s)
{
	std::string r = "\"";
	char t[8];
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') {
			r += '\\';
			r += (char)c;
		} else if (c == '\n') {
			r += "\\n";
		} else if (c < 32 || c > 126) {
			snprintf(t, sizeof(t), "\\u%04x", c);
			r += t;
		} else {
			r += (char)c;
		}
	}
	return r + "\"";
}

static std::string write_replay(uint32_t t, const Result &r, const std::string &extra)
{
	mkdir(opt.replaydir.c_str(), 0777);
	uint64_t h = fnv(r.tape.data(), r.tape.size() * 8, t);
	char name[64];
	snprintf(name, sizeof(name), "%s-%016llx.txt", targets()[t].name, (unsigned long long)h);
	std::string path = opt.replaydir + "/" + name;
	FILE *f = fopen(path.c_str(), "w");
	if (!f)
		return path;
	fprintf(f, "property %s\ntarget %s\n%s", opt.prop.c_str(), targets()[t].name, extra.c_str());
	fprintf(f, "tape");
	for (uint64_t v : r.tape)
		fprintf(f, " %llu", (unsigned long long)v);
	fprintf(f, "\nend\n\nfailure (%s): %s\n\ncase:\n%s", r.kind.c_str(), r.msg.c_str(), r.notes.c_str());
	fclose(f);
	return path;
}

static int do_replay(Slot *s)
{
	FILE *f = fopen(opt.replay.c_str(), "r");
	if (!f) {
		fprintf(stderr, "cannot open %s\n", opt.replay.c_str());
		return 2;
	}
	char word[256];
	uint32_t t = 0;
	std::vector<uint64_t> tape;
	bool hist = false;
	int w = 0, nw = 1;
	unsigned long long from = 0, to = 0, seed = 0;
	while (fscanf(f, "%255s", word) == 1) {
		if (!strcmp(word, "property")) {
			if (fscanf(f, "%255s", word) != 1) break;
		} else if (!strcmp(word, "target")) {
			if (fscanf(f, "%255s", word) != 1) break;
			bool found = false;
			for (uint32_t i = 0; i < targets().size(); i++)
				if (!strcmp(targets()[i].name, word)) {
					t = i;
					found = true;
				}
			if (!found) {
				fprintf(stderr, "no such target here: %s\n", word);
				return 3;
			}
		} else if (!strcmp(word, "history")) {
			if (fscanf(f, "%llu %d %d %llu %llu", &seed, &w, &nw, &from, &to) != 5) break;
			hist = true;
		} else if (!strcmp(word, "tape")) {
			unsigned long long v;
			while (fscanf(f, "%llu", &v) == 1)
				tape.push_back(v);
		} else if (!strcmp(word, "end")) {
			break;
		}
	}
	fclose(f);
	Result r;
	if (hist) {
		opt.seed = seed;
		r = run_history(s, w, nw, from, to);
	} else {
		r = run_tape(s, t, tape);
	}
	printf("case:\n%s\n", r.notes.c_str());
	if (r.failed) {
		printf("FAILED (%s): %s\n", r.kind.c_str(), r.msg.c_str());
		return 1;
	}
	printf("passed\n");
	return 0;
}

static int run_all()
{
	uint64_t t0 = now_ns();
	int nw = opt.workers;
	std::vector<Slot *> slots;
	for (int i = 0; i <= nw; i++)
		slots.push_back((Slot *)mmap(NULL, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
	Slot *aux = slots[nw];
	if (!opt.replay.empty())
		return do_replay(aux);
	uint64_t deadline = t0 + (uint64_t)(opt.time * 1e9);
	std::vector<pid_t> pids(nw, 0);
	std::vector<uint64_t> first(nw, 0);
	auto spawn = [&](int w) {
		slots[w]->start_ns = 0;
		pid_t p = fork();
		if (p == 0)
			worker(slots[w], w, nw, first[w], deadline);
		pids[w] = p;
	};
	for (int w = 0; w < nw; w++)
		spawn(w);
	int unreproduced = 0, san_unreproduced = 0, execs = 0;
	bool violated = false;
	std::string vpath, vmsg, unrep_msgs;
	int alive = nw;
	while (alive > 0 && !violated) {
		usleep(5000);
		for (int w = 0; w < nw && !violated; w++) {
			if (!pids[w])
				continue;
			int status = 0;
			bool timeout = false;
			pid_t q = waitpid(pids[w], &status, WNOHANG);
			if (q == 0) {
				uint64_t st = slots[w]->start_ns;
				if (st && now_ns() > st + targets()[slots[w]->target].timeout_s * 1000000000ull) {
					timeout = true;
					kill(pids[w], SIGKILL);
					waitpid(pids[w], &status, 0);
				} else {
					continue;
				}
			}
			std::string san = take_san_log(pids[w]);
			pids[w] = 0;
			if (!timeout && WIFEXITED(status) && WEXITSTATUS(status) == 0) {
				alive--;
				continue;
			}
			// a failure: is it reproducible?
			Result r;
			uint32_t t = slots[w]->target;
			uint64_t at = slots[w]->index;
			r.failed = true;
			r.kind = describe(status, slots[w], san, timeout);
			r.msg = slots[w]->failed ? slots[w]->fail : r.kind;
			if (!san.empty())
				r.msg += "\n" + san;
			r.notes = slots[w]->notes;
			r.tape.assign(slots[w]->tape, slots[w]->tape + slots[w]->tapelen.load());
			fprintf(stderr, "failure in %s (worker %d case %llu): %s: %.600s\n", targets()[t].name, w,
				(unsigned long long)at, r.kind.c_str(), r.msg.c_str());
			int hits = 0;
			Result c;
			int tries = timeout ? 2 : 6;
			for (int k = 0; k < tries && hits < opt.confirm; k++) {
				Result x = run_tape(aux, t, r.tape);
				if (x.failed) {
					hits++;
					c = x;
				}
			}
			if (hits >= opt.confirm) {
				violated = true;
				for (int v = 0; v < nw; v++)
					if (pids[v]) {
						kill(pids[v], SIGKILL);
						waitpid(pids[v], NULL, 0);
						take_san_log(pids[v]);
						pids[v] = 0;
					}
				Result m = shrink(aux, t, c, now_ns() + (uint64_t)(opt.shrink_time * 1e9), &execs);
				vpath = write_replay(t, m, "");
				vmsg = m.msg;
				break;
			}
			// state carried over from earlier cases of this worker?
			uint64_t from = at > 300 ? at - 300 : 0;
			if (from < first[w])
				from = first[w];
			if (!timeout && from < at) {
				Result x = run_history(aux, w, nw, from, at);
				if (x.failed) {
					violated = true;
					char ex[200];
					snprintf(ex, sizeof(ex), "history %llu %d %d %llu %llu\n", (unsigned long long)opt.seed, w, nw,
						(unsigned long long)from, (unsigned long long)at);
					for (int v = 0; v < nw; v++)
						if (pids[v]) {
							kill(pids[v], SIGKILL);
							waitpid(pids[v], NULL, 0);
							pids[v] = 0;
						}
					vpath = write_replay(t, x, ex);
					vmsg = x.msg;
					break;
				}
			}
			unreproduced++;
			unrep_msgs += r.kind + ": " + r.msg.substr(0, 300) + "; ";
			if (r.kind == "sanitizer")
				san_unreproduced++;
			if (san_unreproduced >= 3) {
				violated = true;
				vpath = write_replay(t, r, "");
				vmsg = r.msg;
				break;
			}
			first[w] = at + 1;
			if (now_ns() < deadline)
				spawn(w);
			else
				alive--;
		}
	}
	for (int v = 0; v < nw; v++)
		if (pids[v]) {
			kill(pids[v], SIGKILL);
			waitpid(pids[v], NULL, 0);
			take_san_log(pids[v]);
		}
	double wall = (now_ns() - t0) / 1e9;
	if (!opt.evidence.empty()) {
		FILE *f = fopen(opt.evidence.c_str(), "w");
		if (f) {
			std::string rule;
			for (uint32_t i = 0; i < targets().size(); i++)
				if (opt.only.empty() || opt.only == targets()[i].name)
					rule += std::string(rule.empty() ? "" : " | ") + targets()[i].name + ": " + targets()[i].rule;
			fprintf(f, "{\"evaluations\": %llu, \"nontrivial\": %llu, \"distinct_nontrivial\": %llu,\n \"rule\": %s,\n",
				(unsigned long long)sh->evals, (unsigned long long)sh->nontriv, (unsigned long long)sh->distinct,
				jstr(rule).c_str());
			fprintf(f, " \"targets\": {");
			for (uint32_t i = 0; i < targets().size(); i++)
				fprintf(f, "%s%s: {\"evaluations\": %llu, \"nontrivial\": %llu}", i ? ", " : "", jstr(targets()[i].name).c_str(),
					(unsigned long long)sh->tevals[i], (unsigned long long)sh->tnontriv[i]);
			fprintf(f, "},\n \"classes\": {");
			bool firstl = true;
			for (int i = 0; i < NLABEL; i++)
				if (sh->labels[i].ready == 2) {
					fprintf(f, "%s%s: %llu", firstl ? "" : ", ", jstr(sh->labels[i].name).c_str(), (unsigned long long)sh->labels[i].n);
					firstl = false;
				}
			fprintf(f, "},\n \"samples\": [");
			bool firsts = true;
			for (uint32_t i = 0; i < targets().size(); i++)
				for (uint32_t k = 0; k < sh->nsamples[i] && k < 3; k++) {
					// the latest ones are the most varied
					uint32_t n = sh->nsamples[i];
					uint32_t j = n > 3 ? n - 3 + k : k;
					fprintf(f, "%s%s", firsts ? "" : ",\n  ", jstr(std::string(targets()[i].name) + "\n" + sh->samples[i][j]).c_str());
					firsts = false;
				}
			fprintf(f, "],\n \"unreproduced\": %d, \"unreproduced_msgs\": %s, \"shrink_executions\": %d, \"violations\": %d, \"replay\": %s, \"wall_s\": %.2f}\n",
				unreproduced, jstr(unrep_msgs).c_str(), execs, violated ? 1 : 0, jstr(vpath).c_str(), wall);
			fclose(f);
		}
	}
	if (violated) {
		printf("failed: %.1500s\n", vmsg.c_str());
		printf("REPLAY %s\n", vpath.c_str());
		return 1;
	}
	printf("ok %s: %llu cases, %llu non-trivial, %llu distinct, %.1f s%s\n", opt.prop.c_str(), (unsigned long long)sh->evals,
		(unsigned long long)sh->nontriv, (unsigned long long)sh->distinct, wall,
		unreproduced ? (", unreproduced anomalies: " + std::to_string(unreproduced)).c_str() : "");
	return 0;
}

} // namespace pbt

int main(int argc, char **argv)
{
	using namespace pbt;
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i];
		auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
		if (a == "--seed") opt.seed = strtoull(val().c_str(), NULL, 10);
		else if (a == "--time") opt.time = atof(val().c_str());
		else if (a == "--workers") opt.workers = atoi(val().c_str());
		else if (a == "--cases") opt.maxcases = strtoull(val().c_str(), NULL, 10);
		else if (a == "--prop") opt.prop = val();
		else if (a == "--evidence") opt.evidence = val();
		else if (a == "--replay-dir") opt.replaydir = val();
		else if (a == "--replay") opt.replay = val();
		else if (a == "--only") opt.only = val();
		else if (a == "--scratch") opt.scratch = val();
		else if (a == "--shrink-time") opt.shrink_time = atof(val().c_str());
		else if (a == "--confirm") opt.confirm = atoi(val().c_str());
		else if (a == "--verbose") opt.verbose = true;
		else if (a == "--list") {
			for (auto &t : targets())
				printf("%s\n", t.name);
			return 0;
		}
	}
	if (opt.workers <= 0) {
		opt.workers = (int)sysconf(_SC_NPROCESSORS_ONLN);
		if (opt.workers > 8) opt.workers = 8;
		if (opt.workers < 1) opt.workers = 1;
	}
	signal(SIGPIPE, SIG_IGN);
	struct rlimit rl;
	getrlimit(RLIMIT_NOFILE, &rl);
	if (rl.rlim_cur < 4096) {
		rl.rlim_cur = std::min<rlim_t>(4096, rl.rlim_max);
		setrlimit(RLIMIT_NOFILE, &rl);
	}
	rl.rlim_cur = rl.rlim_max = 0;
	setrlimit(RLIMIT_CORE, &rl);
	sh = (Shared *)mmap(NULL, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	return run_all();
}
