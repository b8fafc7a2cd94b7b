// C04: dumps are faithful, bounded and terminated.
#include "ref.hpp"
using namespace pbt;

PBT_TARGET(c04_dump, "a message dumped into destinations of several sizes around its rendering's length, and by the allocating dump; "
	"string sizes steer the rendering's length around multiples of 256; non-trivial: at least 1 destination too small and 1 large enough", 3)
{
	Clean cl;
	uint32_t id = (uint32_t)g.integer(32);
	std::vector<Arg> v = gen_args(g, 12, true);
	if (g.flip()) {
		// a string that brings the rendering to a chosen length
		size_t base = ref::dump(id, v).size() - 1;
		size_t mult = (size_t)g.range(1, 6) * 256;
		Arg a;
		a.ty = T_STR;
		long want = (long)mult - (long)base - 10 + g.range(-12, 12);
		if (want > 0)
			a.s.assign((size_t)want, 'q');
		v.push_back(a);
		while (g.chance(1, 3))
			v.push_back(gen_arg(g, gen_type(g), 300));
	}
	note("id=%u %s", id, show(v).c_str());
	std::string b = ref::message(id, v), full = ref::dump(id, v);
	struct pomp_buffer *buf = pomp_buffer_new_with_data(b.data(), b.size());
	struct pomp_msg *m = pomp_msg_new_with_buffer(buf);
	pomp_buffer_unref(buf);
	CHECK(m, "message refused");
	char *s = NULL;
	int r;
	if (g.flip()) {
		r = pomp_msg_adump(m, &s);
	} else {
		struct pomp_decoder *d = pomp_decoder_new();
		pomp_decoder_init(d, m);
		r = pomp_decoder_adump(d, &s);
		pomp_decoder_destroy(d);
	}
	CHECK(r == 0 && s, "allocating dump failed: %d", r);
	CHECK(full == s, "allocating dump (%zu characters)\n%.600s\nexpected (%zu characters)\n%.600s", strlen(s), s, full.size(), full.c_str());
	vf_free(s);
	bool small = false, large = false;
	for (int k = 0; k < 6; k++) {
		size_t n;
		switch (g.below(3)) {
		case 0: n = (size_t)g.below(12); break;
		case 1: n = (size_t)std::max<int64_t>(0, (int64_t)full.size() + g.range(-6, 6)); break;
		default: n = (size_t)g.below(full.size() + 40); break;
		}
		// exact block: anything outside is caught
		char *dst = (char *)malloc(n + 8);
		memset(dst, 'x', n + 8);
		if (n % 2) {
			struct pomp_decoder *d = pomp_decoder_new();
			CHECK(d && pomp_decoder_init(d, m) == 0, "decoder");
			r = pomp_decoder_dump(d, dst, (uint32_t)n);
			pomp_decoder_destroy(d);
		} else {
			r = pomp_msg_dump(m, dst, (uint32_t)n);
		}
		CHECK(r == 0, "dump into %zu bytes failed: %d", n, r);
		for (size_t i = n; i < n + 8; i++)
			CHECK(dst[i] == 'x', "dump into %zu bytes wrote at %zu", n, i);
		if (n > full.size()) {
			CHECK(full == dst, "dump into %zu bytes gives %.300s, expected %.300s", n, dst, full.c_str());
			large = true;
		} else if (n > 0) {
			CHECK(memchr(dst, 0, n), "dump into %zu bytes not terminated", n);
			std::string got = dst;
			small = true;
			if (n >= 5) {
				CHECK(got.size() >= 4 && got.compare(got.size() - 4, 4, "...}") == 0,
				      "truncated dump into %zu bytes has no ellipsis: %.300s", n, dst);
				got.resize(got.size() - 4);
			}
			CHECK(full.compare(0, got.size(), got) == 0, "dump into %zu bytes is not a prefix: %.300s of %.300s", n, got.c_str(), full.c_str());
		}
		free(dst);
	}
	if (small && large)
		nontrivial();
	pomp_msg_destroy(m);
	cl.verify();
}

PBT_TARGET(c04_malformed, "a payload broken after some good arguments, dumped both ways; non-trivial: always (every case is malformed)", 1)
{
	Clean cl;
	std::vector<Arg> v = gen_args(g, 6);
	std::string p;
	for (auto &a : v)
		ref::arg(p, a);
	switch (g.below(4)) {
	case 0: p += (char)(g.flip() ? 0 : 14 + g.below(240)); break;
	case 1: p += std::string("\x03\x01", 2); break;
	case 2: p += std::string("\x09\x03" "ab", 4); break;
	default: p += std::string("\x0a\x20" "abc", 5); break;
	}
	std::string b = ref::frame(1, p);
	note("%s", hex(p.data(), p.size(), 200).c_str());
	nontrivial();
	struct pomp_buffer *buf = pomp_buffer_new_with_data(b.data(), b.size());
	struct pomp_msg *m = pomp_msg_new_with_buffer(buf);
	pomp_buffer_unref(buf);
	CHECK(m, "message refused");
	char *s = (char *)1;
	CHECK(pomp_msg_adump(m, &s) < 0, "allocating dump of a malformed message succeeded");
	CHECK(s == NULL, "failed dump left a pointer");
	std::string full = ref::dump(1, v);
	size_t n = full.size() + (size_t)g.below(40);
	char *dst = (char *)malloc(n ? n : 1);
	int r = pomp_msg_dump(m, dst, (uint32_t)n);
	if (n > full.size() + 24) // room for everything before the malformed part
		CHECK(r < 0, "dump of a malformed message succeeded: %s", dst);
	if (n)
		CHECK(memchr(dst, 0, n), "dump not terminated");
	free(dst);
	pomp_msg_destroy(m);
	cl.verify();
}
