// Small property-based testing engine: seeded generation recorded as a sequence
// of choices (the "tape"), parallel workers in child processes so that crashes,
// sanitizer reports and hangs are failures like any other, re-execution of a
// failing tape, shrinking of the tape, replay files, and measured evidence.
#pragma once
#include <atomic>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <string>
#include <vector>

namespace pbt {

constexpr size_t MAXTAPE = 1 << 15;
constexpr size_t NOTES = 1 << 16;

struct Slot {
	std::atomic<uint64_t> index;    // case being run
	std::atomic<uint64_t> start_ns; // 0: idle
	std::atomic<uint32_t> target;
	std::atomic<uint32_t> tapelen;
	uint64_t tape[MAXTAPE];
	std::atomic<uint32_t> noteslen;
	char notes[NOTES];
	std::atomic<int> failed;
	char fail[4096];
	int nontrivial;
	uint64_t hash;
};

class Gen {
public:
	// replay: choices given, zeros after them
	Gen(Slot *slot, uint64_t seed);
	Gen(Slot *slot, const std::vector<uint64_t> &tape);
	// uniform in [0, n)
	uint64_t below(uint64_t n);
	int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo) + 1); }
	bool flip() { return below(2) == 1; }
	// true k times out of n; false is the simplest
	bool chance(unsigned k, unsigned n) { return below(n) >= n - k; }
	// continue a sequence of average length avg?  0 ends it
	bool more(unsigned avg) { return below(avg + 1) != 0; }
	// index chosen with the given weights
	unsigned weighted(std::initializer_list<unsigned> w);
	// an integer of the given width, boundary values being likely
	uint64_t integer(unsigned bits);
	std::string bytes(size_t n);
	// a size, boundary values near powers of two being likely, at most max
	size_t size(size_t max);
	bool exhausted() const { return over_; }
	size_t draws() const { return pos_; }
private:
	uint64_t raw();
	Slot *slot_;
	bool replay_;
	bool over_ = false;
	uint64_t s_[4];
	std::vector<uint64_t> in_;
	size_t pos_ = 0;
};

uint64_t mix(uint64_t a, uint64_t b);
uint64_t fnv(const void *p, size_t n, uint64_t h = 1469598103934665603ull);
// deterministic content for big blocks
void fill(uint8_t *p, size_t n, uint64_t seed);
std::string hex(const void *p, size_t n, size_t max = 48);

void note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
// marks the current case as non-trivial (by the rule of its target)
void nontrivial();
// optional: what makes cases distinct (default: the choices made)
void case_hash(uint64_t h);
void count_label(int *id, const char *name);
#define LABEL(name) do { static int id_ = -1; pbt::count_label(&id_, name); } while (0)
#define CHECK(c, ...) do { if (!(c)) pbt::fail(__VA_ARGS__); } while (0)

typedef std::function<void(Gen &)> Fn;
struct Target {
	const char *name;
	const char *rule;
	Fn fn;
	unsigned weight;
	unsigned timeout_s;
};
struct Register {
	Register(const char *name, const char *rule, Fn fn, unsigned weight = 1, unsigned timeout_s = 30);
};
#define PBT_TARGET(id, rule, ...) \
	static void id(pbt::Gen &g); \
	static pbt::Register id##_reg(#id, rule, id, ##__VA_ARGS__); \
	static void id(pbt::Gen &g)

// hook run before each case in the same process
extern void (*before_case)();

} // namespace pbt
