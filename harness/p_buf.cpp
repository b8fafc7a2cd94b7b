// C06: buffers behave as reference-counted growable byte arrays.
#include "ref.hpp"
using namespace pbt;

namespace {
struct MBuf {
	struct pomp_buffer *b;
	unsigned refs = 1;
	size_t cap = 0, len = 0;
	bool exactcap = true;
	std::vector<int> mem; // -1: unspecified
};

const size_t CAP = 1u << 17; // larger allocations fail

void forget_tail(MBuf &m)
{
	for (size_t i = m.len; i < m.mem.size(); i++)
		m.mem[i] = -1;
}
void recap(MBuf &m, size_t cap)
{
	forget_tail(m);
	m.mem.resize(cap, -1);
	m.cap = cap;
}

void check(MBuf &m, const char *op)
{
	const void *cd = nullptr;
	size_t len = ~0u, cap = ~0u;
	int r = pomp_buffer_get_cdata(m.b, &cd, &len, &cap);
	CHECK(r == 0, "%s: get_cdata failed: %d", op, r);
	CHECK(len == m.len, "%s: length is %zu, expected %zu", op, len, m.len);
	CHECK(cap == m.cap, "%s: capacity is %zu, expected %zu", op, cap, m.cap);
	CHECK(cap == 0 || cd, "%s: no data", op);
	for (size_t i = 0; i < len; i++)
		CHECK(m.mem[i] < 0 || ((const uint8_t *)cd)[i] == m.mem[i], "%s: byte %zu is %02x, expected %02x", op, i,
		      ((const uint8_t *)cd)[i], m.mem[i]);
	CHECK((pomp_buffer_is_shared(m.b) != 0) == (m.refs > 1), "%s: is_shared is %d with %u references", op,
	      pomp_buffer_is_shared(m.b), m.refs);
}

// After a growing operation: at least 'need', as documented a multiple of 256
void grown(MBuf &m, size_t need, const char *op)
{
	if (need <= m.cap)
		return;
	size_t cap = 0;
	pomp_buffer_get_cdata(m.b, nullptr, nullptr, &cap);
	CHECK(cap >= need, "%s: capacity is %zu, at least %zu needed", op, cap, need);
	CHECK(cap % 256 == 0, "%s: capacity %zu is not aligned", op, cap);
	recap(m, cap);
}

size_t pick_size(Gen &g, const MBuf &m)
{
	switch (g.weighted({6, 3, 3, 1, 1})) {
	case 0: return g.size(64);
	case 1: return m.cap >= m.len && m.cap - m.len < 5000 ? m.cap - m.len + g.below(2) : g.size(600);
	case 2: return g.size(1200);
	case 3: return g.size(20000);
	default: return (size_t)g.integer(64);
	}
}
size_t pick_pos(Gen &g, const MBuf &m)
{
	switch (g.weighted({4, 3, 2, 1, 1})) {
	case 0: return m.len;
	case 1: return m.len ? (size_t)g.below(m.len) : 0;
	case 2: return m.len + g.size(400);
	case 3: return m.cap;
	default: return (size_t)0 - g.size(70000);
	}
}
std::vector<int> ints(const std::string &s)
{
	std::vector<int> v;
	for (char c : s)
		v.push_back((uint8_t)c);
	return v;
}
} // namespace

PBT_TARGET(c06_model, "histories of operations on up to 4 buffers compared with byte arrays after every step; non-trivial: a growth with content "
	"kept and an operation on a shared buffer", 4)
{
	Clean cl;
	vf_alloc_cap = CAP;
	std::vector<MBuf> bs;
	bool grew = false, shared = false;
	unsigned steps = 0;
	do {
		if (bs.empty() || (bs.size() < 4 && g.chance(1, 6))) {
			MBuf m;
			switch (g.below(4)) {
			case 0: {
				size_t c = g.chance(1, 10) ? (size_t)g.integer(64) : g.size(3000);
				note("new(%zu)", c);
				m.b = pomp_buffer_new(c);
				if (c > CAP) {
					CHECK(!m.b, "new(%zu) succeeded without memory", c);
					continue;
				}
				CHECK(m.b, "new(%zu) failed", c);
				m.cap = c;
				m.mem.assign(c, -1);
				break;
			}
			case 1: {
				std::string d = g.bytes(g.size(2000));
				note("new_with_data(%zu)", d.size());
				char *blk = (char *)malloc(d.size());
				memcpy(blk, d.data(), d.size());
				m.b = pomp_buffer_new_with_data(blk, d.size());
				free(blk);
				CHECK(m.b, "new_with_data");
				m.cap = m.len = d.size();
				m.mem = ints(d);
				break;
			}
			case 2: {
				size_t c = g.size(3000);
				void *p = (void *)1;
				note("new_get_data(%zu)", c);
				m.b = pomp_buffer_new_get_data(c, g.chance(1, 8) ? nullptr : &p);
				CHECK(m.b, "new_get_data(%zu)", c);
				m.cap = c;
				m.mem.assign(c, -1);
				if (p != (void *)1 && c) {
					std::string d = g.bytes(c);
					memcpy(p, d.data(), c);
					m.mem = ints(d);
				}
				break;
			}
			default: {
				if (bs.empty())
					continue;
				MBuf &s = bs[g.below(bs.size())];
				note("new_copy");
				m.b = pomp_buffer_new_copy(s.b);
				CHECK(m.b, "new_copy");
				m.len = s.len;
				size_t cap = 0;
				pomp_buffer_get_cdata(m.b, nullptr, nullptr, &cap);
				CHECK(cap >= m.len, "new_copy: capacity %zu below length %zu", cap, m.len);
				m.mem.assign(s.mem.begin(), s.mem.begin() + s.len);
				m.cap = s.len;
				recap(m, cap);
				check(s, "source of copy");
				break;
			}
			}
			bs.push_back(m);
			check(bs.back(), "new");
			continue;
		}
		size_t bi = (size_t)g.below(bs.size());
		MBuf &m = bs[bi];
		bool ro = m.refs > 1;
		static const char *const names[] = {"ref", "unref", "set_capacity", "ensure_capacity", "set_len", "get_data",
			"append_data", "append_buffer", "write", "read", "cread"};
		unsigned op = g.weighted({2, 3, 3, 3, 3, 3, 5, 3, 6, 4, 3});
		const char *nm = names[op];
		int r = 0;
		if (ro)
			shared = true;
		// a refused operation on a shared buffer fails with EPERM unless it is wrong in another way as well
		auto refused = [&](bool bad) {
			CHECK(r < 0, "%s: succeeded%s", nm, ro ? " on a shared buffer" : "");
			if (!bad)
				CHECK(r == -EPERM, "%s: error %d on a shared buffer", nm, r);
		};
		size_t oldcap = m.cap, oldlen = m.len;
		switch (op) {
		case 0:
			note("b%zu ref", bi);
			if (m.refs < 5) {
				pomp_buffer_ref(m.b);
				m.refs++;
			}
			break;
		case 1: {
			note("b%zu unref", bi);
			long live = vf_live;
			pomp_buffer_unref(m.b);
			m.refs--;
			if (m.refs == 0) {
				CHECK(vf_live < live, "last unref: nothing released");
				bs.erase(bs.begin() + bi);
				continue;
			}
			CHECK(vf_live == live, "unref: memory released with %u reference(s) left", m.refs);
			break;
		}
		case 2: {
			size_t c = g.flip() ? m.len + (g.flip() ? 0 : g.size(600)) : pick_size(g, m);
			note("b%zu set_capacity %zu", bi, c);
			r = pomp_buffer_set_capacity(m.b, c);
			if (ro || c < m.len) {
				refused(c < m.len || !ro);
			} else if (c > CAP) {
				CHECK(r < 0, "set_capacity(%zu) succeeded without memory", c);
			} else {
				CHECK(r == 0, "set_capacity(%zu): error %d", c, r);
				if (m.len && c > m.cap)
					grew = true;
				recap(m, c);
			}
			break;
		}
		case 3: {
			size_t c = pick_size(g, m);
			note("b%zu ensure_capacity %zu", bi, c);
			r = pomp_buffer_ensure_capacity(m.b, c);
			if (ro) {
				refused(false);
			} else if (c > CAP - 256) {
				if (c > CAP)
					CHECK(r < 0, "ensure_capacity(%zu) succeeded without memory", c);
				if (r == 0)
					grown(m, c, nm);
			} else {
				CHECK(r == 0, "ensure_capacity(%zu): error %d", c, r);
				if (m.len && c > m.cap)
					grew = true;
				grown(m, c, nm);
			}
			break;
		}
		case 4: {
			size_t l = g.chance(1, 6) ? pick_size(g, m) : (size_t)g.below(m.cap + 1);
			note("b%zu set_len %zu", bi, l);
			r = pomp_buffer_set_len(m.b, l);
			if (ro || l > m.cap) {
				refused(l > m.cap);
			} else {
				CHECK(r == 0, "set_len(%zu) with capacity %zu: error %d", l, m.cap, r);
				m.len = l;
				forget_tail(m);
			}
			break;
		}
		case 5: {
			void *d = nullptr;
			size_t l = 0, c = 0;
			note("b%zu get_data", bi);
			r = pomp_buffer_get_data(m.b, &d, &l, &c);
			if (ro) {
				refused(false);
				break;
			}
			CHECK(r == 0, "get_data: error %d", r);
			CHECK(l == m.len && c == m.cap, "get_data: length %zu capacity %zu, expected %zu %zu", l, c, m.len, m.cap);
			if (c && g.flip()) { // direct write, then maybe more length
				size_t off = (size_t)g.below(c);
				std::string s = g.bytes(g.size(c - off));
				memcpy((char *)d + off, s.data(), s.size());
				for (size_t i = 0; i < s.size(); i++)
					m.mem[off + i] = (uint8_t)s[i];
				if (off + s.size() > m.len && g.flip()) {
					r = pomp_buffer_set_len(m.b, off + s.size());
					CHECK(r == 0, "set_len: %d", r);
					m.len = off + s.size();
				}
			}
			break;
		}
		case 6:
		case 8: {
			size_t n = g.chance(1, 30) ? 0 : g.size(g.chance(1, 10) ? 20000 : 700);
			size_t pos = op == 6 ? m.len : pick_pos(g, m), pos0 = pos;
			std::string s = g.bytes(n);
			char *blk = (char *)malloc(n);
			memcpy(blk, s.data(), n);
			note("b%zu %s %zu bytes at %zu", bi, nm, n, pos);
			r = op == 6 ? pomp_buffer_append_data(m.b, blk, n) : pomp_buffer_write(m.b, &pos, blk, n);
			free(blk);
			bool wraps = pos0 > SIZE_MAX - n;
			bool toobig = wraps || pos0 + n > CAP;
			if (ro || toobig) {
				refused(toobig);
				CHECK(pos == pos0, "%s: position moved by a failing write", nm);
				break;
			}
			if (n == 0 && pos0 + n > m.cap && r < 0)
				break;
			if (pos0 + n > CAP - 256 && r < 0)
				break;
			CHECK(r == 0, "%s: error %d", nm, r);
			if (pos0 + n > m.cap && m.len)
				grew = true;
			grown(m, pos0 + n, nm);
			if (op == 8)
				CHECK(pos == pos0 + n, "write: position is %zu, expected %zu", pos, pos0 + n);
			for (size_t i = m.len; i < pos0 && i < m.mem.size(); i++)
				m.mem[i] = -1;
			for (size_t i = 0; i < n; i++)
				m.mem[pos0 + i] = (uint8_t)s[i];
			if (pos0 + n > m.len)
				m.len = pos0 + n;
			forget_tail(m);
			break;
		}
		case 7: {
			size_t si = (size_t)g.below(bs.size());
			MBuf &s = bs[si];
			note("b%zu append_buffer b%zu (%zu)", bi, si, s.len);
			if (m.len + s.len > CAP / 2)
				break;
			r = pomp_buffer_append_buffer(m.b, s.b);
			if (ro && s.len == 0) // nothing to do: either is fine
				break;
			if (ro) {
				refused(false);
				break;
			}
			CHECK(r == 0, "append_buffer: error %d", r);
			{
				std::vector<int> src(s.mem.begin(), s.mem.begin() + s.len);
				if (m.len + src.size() > m.cap && m.len)
					grew = true;
				grown(m, m.len + src.size(), nm);
				std::copy(src.begin(), src.end(), m.mem.begin() + m.len);
				m.len += src.size();
				forget_tail(m);
			}
			if (si != bi)
				check(s, "source of append");
			break;
		}
		default: {
			size_t pos, n;
			switch (g.weighted({5, 2, 1})) {
			case 0:
				pos = (size_t)g.below(m.len + 1);
				n = (size_t)g.below(m.len - pos + 1);
				break;
			case 1:
				pos = (size_t)g.below(m.len + 2);
				n = m.len - pos + g.below(3);
				break;
			default:
				pos = pick_pos(g, m);
				n = pick_size(g, m);
			}
			size_t pos0 = pos;
			bool ok = n <= m.len && pos <= m.len - n;
			note("b%zu %s %zu at %zu", bi, nm, n, pos);
			const uint8_t *got = nullptr;
			uint8_t *blk = nullptr;
			if (op == 9) {
				blk = (uint8_t *)malloc(n > CAP ? CAP : n);
				CHECK(blk, "malloc");
				r = pomp_buffer_read(m.b, &pos, blk, n);
				got = blk;
			} else {
				r = pomp_buffer_cread(m.b, &pos, (const void **)&got, n);
			}
			if (!ok) {
				CHECK(r < 0, "%s: %zu bytes at %zu of %zu read", nm, n, pos0, m.len);
				CHECK(pos == pos0, "%s: position moved by a failing read", nm);
			} else {
				CHECK(r == 0, "%s: error %d for %zu bytes at %zu of %zu", nm, r, n, pos0, m.len);
				CHECK(pos == pos0 + n, "%s: position is %zu, expected %zu", nm, pos, pos0 + n);
				for (size_t i = 0; i < n; i++)
					CHECK(m.mem[pos0 + i] < 0 || got[i] == m.mem[pos0 + i], "%s: byte %zu", nm, pos0 + i);
			}
			free(blk);
			break;
		}
		}
		if (ro)
			CHECK(m.cap == oldcap && m.len == oldlen, "model error");
		check(m, nm);
	} while (++steps < 60 && g.more(14));
	for (size_t i = 0; i < bs.size(); i++) {
		check(bs[i], "end");
		while (bs[i].refs--)
			pomp_buffer_unref(bs[i].b);
	}
	if (grew && shared)
		nontrivial();
	cl.verify();
}

PBT_TARGET(c06_shared, "one buffer referenced more than once: every modifying operation is refused with EPERM and changes nothing; then all "
	"but one reference are dropped and the operation succeeds; non-trivial: always", 1)
{
	Clean cl;
	std::string d = g.bytes(1 + g.size(900));
	struct pomp_buffer *b = pomp_buffer_new_with_data(d.data(), d.size());
	CHECK(b, "new");
	unsigned extra = 1 + (unsigned)g.below(3);
	for (unsigned i = 0; i < extra; i++)
		pomp_buffer_ref(b);
	struct pomp_buffer *other = pomp_buffer_new_with_data("xyz", 3);
	nontrivial();
	unsigned op = (unsigned)g.below(7);
	size_t arg = g.size(2000);
	std::string w = g.bytes(1 + g.size(40));
	size_t pos = (size_t)g.below(d.size() + 1), pos0 = pos;
	note("%zu bytes, %u references, operation %u(%zu)", d.size(), extra + 1, op, arg);
	auto run = [&]() -> int {
		switch (op) {
		case 0: return pomp_buffer_set_capacity(b, d.size() + arg);
		case 1: return pomp_buffer_ensure_capacity(b, arg);
		case 2: return pomp_buffer_set_len(b, arg % (d.size() + 1));
		case 3: return pomp_buffer_get_data(b, nullptr, nullptr, nullptr);
		case 4: return pomp_buffer_append_data(b, w.data(), w.size());
		case 5: return pomp_buffer_append_buffer(b, other);
		default: return pomp_buffer_write(b, &pos, w.data(), w.size());
		}
	};
	for (unsigned i = 0; i <= extra; i++) {
		int r = run();
		if (i < extra) {
			CHECK(r == -EPERM, "operation %u on a buffer with %u references: %d", op, extra + 1 - i, r);
			CHECK(pos == pos0, "position moved");
			const void *cd = nullptr;
			size_t l = 0, c = 0;
			CHECK(pomp_buffer_get_cdata(b, &cd, &l, &c) == 0 && l == d.size() && c == d.size(), "length or capacity changed");
			CHECK(memcmp(cd, d.data(), l) == 0, "content changed");
			pomp_buffer_unref(b);
		} else {
			CHECK(r == 0, "operation %u on a buffer no more shared: %d", op, r);
		}
	}
	pomp_buffer_unref(other);
	pomp_buffer_unref(b);
	cl.verify();
}

PBT_TARGET(c06_large, "a history of operations on one buffer and a second one, with sizes up to 4 MB, against strings; non-trivial: more than 64 KB in the "
	"buffer and an operation after", 1)
{
	Clean cl;
	vf_alloc_cap = 1u << 26;
	std::string a, b;
	struct pomp_buffer *pa = pomp_buffer_new(0), *pb = pomp_buffer_new(0);
	CHECK(pa && pb, "new");
	unsigned over = 0;
	auto len = [&] { return (size_t)g.below(1u << (8 + 2 * g.below(8))) + g.below(3); };
	do {
		unsigned op = (unsigned)g.weighted({4, 3, 2, 2, 3, 2, 1, 1});
		over += a.size() > 65536;
		switch (op) {
		case 0: case 1: {
			std::string d = g.bytes(1 + std::min<size_t>(len(), 4u << 20));
			size_t pos = op == 0 ? a.size() : (size_t)g.below(a.size() + 1);
			note("%s %zu bytes at %zu", op ? "write" : "append", d.size(), pos);
			if (pos + d.size() > (24u << 20))
				break;
			if (op == 0) {
				CHECK(pomp_buffer_append_data(pa, d.data(), d.size()) == 0, "append_data of %zu bytes to %zu", d.size(), a.size());
				a += d;
			} else {
				size_t p = pos;
				CHECK(pomp_buffer_write(pa, &p, d.data(), d.size()) == 0 && p == pos + d.size(), "write of %zu bytes at %zu", d.size(), pos);
				if (a.size() < p)
					a.resize(p);
				memcpy(&a[pos], d.data(), d.size());
			}
			break;
		}
		case 2:
			if (a.size() > (8u << 20))
				break;
			note("append itself (%zu bytes)", a.size());
			CHECK(pomp_buffer_append_buffer(pa, pa) == 0, "append of itself, %zu bytes", a.size());
			a += std::string(a);
			break;
		case 3:
			if (a.size() + b.size() > (24u << 20))
				break;
			note("append the other (%zu bytes)", b.size());
			CHECK(pomp_buffer_append_buffer(pa, pb) == 0, "append of another of %zu bytes", b.size());
			a += b;
			break;
		case 4: {
			size_t n = std::min(a.size(), len()), p = (size_t)g.below(a.size() - n + 1), q = p;
			std::string d(n, 0);
			note("read %zu bytes at %zu", n, p);
			if (n == 0)
				break;
			CHECK(pomp_buffer_read(pa, &p, &d[0], n) == 0 && p == q + n, "read of %zu bytes at %zu out of %zu", n, q, a.size());
			CHECK(memcmp(d.data(), a.data() + q, n) == 0, "read of %zu bytes at %zu: other bytes", n, q);
			const void *cd = nullptr;
			p = q;
			CHECK(pomp_buffer_cread(pa, &p, &cd, n) == 0 && p == q + n && memcmp(cd, a.data() + q, n) == 0, "cread of %zu bytes at %zu", n, q);
			p = a.size() - n + 1;
			CHECK(pomp_buffer_read(pa, &p, &d[0], n) < 0 && p == a.size() - n + 1, "read past the end");
			break;
		}
		case 5: {
			size_t n = (size_t)g.below(a.size() + 1);
			note("length %zu", n);
			CHECK(pomp_buffer_set_len(pa, n) == 0, "set_len(%zu) of %zu", n, a.size());
			a.resize(n);
			if (g.flip())
				CHECK(pomp_buffer_set_capacity(pa, n) == 0, "set_capacity(%zu)", n);
			break;
		}
		case 6: {
			size_t n = std::min<size_t>(a.size() + len(), 24u << 20);
			note("capacity %zu", n);
			CHECK(pomp_buffer_ensure_capacity(pa, n) == 0, "ensure_capacity(%zu)", n);
			break;
		}
		default: {
			note("exchanged with a copy");
			struct pomp_buffer *c = pomp_buffer_new_copy(pa);
			CHECK(c, "new_copy of %zu bytes", a.size());
			pomp_buffer_unref(pb);
			pb = pa;
			pa = c;
			b = a;
			break;
		}
		}
		for (int k = 0; k < 2; k++) {
			const void *cd = nullptr;
			size_t n = 0, cap = 0;
			const std::string &m = k ? b : a;
			CHECK(pomp_buffer_get_cdata(k ? pb : pa, &cd, &n, &cap) == 0 && n == m.size() && cap >= n, "length is %zu, expected %zu", n, m.size());
			CHECK(n == 0 || memcmp(cd, m.data(), n) == 0, "%s: other bytes than expected, out of %zu", k ? "the other" : "the buffer", n);
		}
	} while (g.more(12));
	if (over)
		nontrivial();
	pomp_buffer_unref(pa);
	pomp_buffer_unref(pb);
	cl.verify();
}
