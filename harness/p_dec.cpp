// C02: decoding returns exactly the encoded values.
#include "ref.hpp"
#include <fcntl.h>
using namespace pbt;

// message of the library holding these arguments
static struct pomp_msg *build(Gen &g, uint32_t id, const std::vector<Arg> &v)
{
	struct pomp_msg *m;
	if (g.flip()) {
		std::string b = ref::message(id, v);
		struct pomp_buffer *buf = pomp_buffer_new_with_data(b.data(), b.size());
		m = pomp_msg_new_with_buffer(buf);
		CHECK(m, "well-formed message refused by pomp_msg_new_with_buffer: %s", hex(b.data(), b.size()).c_str());
		pomp_buffer_unref(buf);
		LABEL("from reference bytes");
		return m;
	}
	m = pomp_msg_new();
	struct pomp_encoder *e = pomp_encoder_new();
	CHECK(pomp_msg_init(m, id) == 0 && pomp_encoder_init(e, m) == 0, "init");
	for (auto &a : v)
		CHECK(enc_typed(e, a) == 0, "write");
	CHECK(pomp_msg_finish(m) == 0, "finish");
	pomp_encoder_destroy(e);
	if (g.flip()) {
		struct pomp_msg *c = pomp_msg_new_copy(m);
		CHECK(c, "copy");
		pomp_msg_destroy(m);
		m = c;
	}
	return m;
}
static void same_or_fail(const Arg &got, const Arg &want, const char *how, size_t i)
{
	CHECK(same(got, want), "argument %zu read %s as %s instead of %s", i, how, show(got).c_str(), show(want).c_str());
}

PBT_TARGET(c02_roundtrip, "a message of 0-20 arguments read back in order by typed, zero-copy, variadic and va_list readers in a "
	"random mixture, with reads of a wrong type and past the end interleaved; non-trivial: at least 3 arguments and 2 ways of reading", 3)
{
	Clean cl;
	uint32_t id = (uint32_t)g.integer(32);
	std::vector<Arg> v = gen_args(g, 20, true);
	note("id=%u %s", id, show(v).c_str());
	struct pomp_msg *m = build(g, id, v);
	struct pomp_decoder *d = pomp_decoder_new();
	CHECK(pomp_msg_get_id(m) == id, "id");
	CHECK(pomp_decoder_init(d, m) == 0, "decoder init");
	unsigned ways = 0;
	size_t i = 0;
	for (;;) {
		// something wrong first?
		while (g.chance(1, 4)) {
			int ty = (int)g.range(T_I8, T_FD);
			if (i < v.size() && ty == v[i].ty)
				continue;
			Arg a;
			if (g.flip() && ty != T_FD) {
				Reader rd(g, {ty});
				VaList va(rd.slots());
				int r = pomp_decoder_readv(d, rd.fmt.c_str(), va.ap);
				CHECK(r < 0, "reading %s at %zu succeeded, %s is there", tyname[ty], i, i < v.size() ? tyname[v[i].ty] : "nothing");
				note("wrong readv %s", rd.fmt.c_str());
			} else {
				int r = dec_typed(d, ty, g.flip(), a);
				CHECK(r < 0, "reading %s at %zu succeeded, %s is there", tyname[ty], i, i < v.size() ? tyname[v[i].ty] : "nothing");
				note("wrong %s", tyname[ty]);
			}
			LABEL("wrong read");
			ways |= 4;
		}
		if (i >= v.size())
			break;
		if (g.flip()) {
			Arg a;
			bool copy = g.flip();
			int r = dec_typed(d, v[i].ty, copy, a);
			note("typed %s copy=%d", tyname[v[i].ty], copy);
			CHECK(r == 0, "typed read %zu failed: %d", i, r);
			same_or_fail(a, v[i], copy ? "typed" : "typed (zero copy)", i);
			i++;
			ways |= 1;
			continue;
		}
		size_t k = 1 + (size_t)g.below(v.size() - i);
		std::vector<int> tys;
		unsigned nstr = 0;
		for (size_t j = i; j < i + k; j++) {
			if (v[j].ty == T_STR && ++nstr > 16) {
				k = j - i;
				break;
			}
			tys.push_back(v[j].ty);
		}
		Reader rd(g, tys);
		Regs regs(rd.slots(), 4);
		int r;
		note("read \"%s\"", rd.fmt.c_str());
		if (regs.fits && g.flip()) {
			r = vcall2(pomp_decoder_read, d, rd.fmt.c_str(), regs);
		} else {
			VaList va(rd.slots());
			r = pomp_decoder_readv(d, rd.fmt.c_str(), va.ap);
		}
		CHECK(r == 0, "reading \"%s\" at %zu failed: %d", rd.fmt.c_str(), i, r);
		for (size_t j = 0; j < k; j++)
			same_or_fail(rd.get(j), v[i + j], rd.fmt.c_str(), i + j);
		i += k;
		ways |= 2;
	}
	// past the end
	for (int ty = T_I8; ty <= T_FD; ty++) {
		Arg a;
		CHECK(dec_typed(d, ty, false, a) < 0, "read of %s past the end succeeded", tyname[ty]);
	}
	if (v.size() >= 3 && (ways & (ways - 1)))
		nontrivial();
	pomp_decoder_clear(d);
	pomp_decoder_destroy(d);
	pomp_msg_destroy(m);
	cl.verify();
}

PBT_TARGET(c02_msg_read, "pomp_msg_read/readv of a whole message or of its leading arguments, or with a format that does not match "
	"at one place; non-trivial: at least 2 arguments read", 2)
{
	Clean cl;
	uint32_t id = (uint32_t)g.integer(32);
	std::vector<Arg> v = gen_args(g, 20, true);
	struct pomp_msg *m = build(g, id, v);
	size_t k = (size_t)g.below(v.size() + 1);
	unsigned nstr = 0;
	std::vector<int> tys;
	for (size_t i = 0; i < k; i++) {
		if (v[i].ty == T_STR && ++nstr > 16) {
			k = i;
			break;
		}
		tys.push_back(v[i].ty);
	}
	bool wrong = g.chance(1, 3);
	size_t at = 0;
	if (wrong) {
		// one type replaced, or one more than there are
		at = (size_t)g.below(tys.size() + 1);
		if (at < tys.size()) {
			int t;
			do
				t = gen_type(g);
			while (t == tys[at]);
			if (t == T_STR && tys[at] != T_STR && nstr >= 16)
				t = tys[at] == T_U8 ? T_I8 : T_U8;
			tys[at] = t;
		} else if (k == v.size() && nstr < 16) {
			tys.push_back(gen_type(g));
		} else {
			wrong = false;
		}
	}
	note("id=%u %s wrong=%d at=%zu", id, show(v).c_str(), wrong, at);
	if (tys.size() >= 2)
		nontrivial();
	Reader rd(g, tys);
	note("fmt %s", rd.fmt.c_str());
	long live = vf_live;
	int r;
	Regs regs(rd.slots(), 4);
	if (regs.fits && g.flip()) {
		r = vcall2(pomp_msg_read, m, tys.empty() && g.flip() ? NULL : rd.fmt.c_str(), regs);
	} else {
		VaList va(rd.slots());
		r = pomp_msg_readv(m, rd.fmt.c_str(), va.ap);
	}
	if (wrong) {
		LABEL("mismatching format");
		CHECK(r < 0, "format \"%s\" accepted although argument %zu is another", rd.fmt.c_str(), at);
		CHECK(vf_live == live, "failed read left %ld allocation(s)", vf_live - live);
		for (size_t i = 0; i < at; i++) {
			if (tys[i] == T_STR)
				CHECK(rd.cells[i].v == 0, "released string %zu still referenced after a failed read", i);
			else
				same_or_fail(rd.get(i), v[i], "by a failed format", i);
		}
	} else {
		CHECK(r == 0, "reading \"%s\" failed: %d", rd.fmt.c_str(), r);
		for (size_t i = 0; i < tys.size(); i++)
			same_or_fail(rd.get(i), v[i], "by pomp_msg_read", i);
	}
	pomp_msg_destroy(m);
	cl.verify();
}

// The formats themselves are checked as well: an item that is none, even over the argument it
// resembles, makes the read fail like one that does not match.
PBT_TARGET(c02_bad_format, "pomp_msg_read of some leading arguments and then an item that is no conversion of the reader (unknown, "
	"cut, with a width, a length it has not, a string without m, a buffer without its size); non-trivial: a string before it", 1)
{
	Clean cl;
	static const struct {
		const char *item;
		int ty;
	} bad[] = {
		{"%s", T_STR}, {"%ls", T_STR}, {"%hf", T_F32}, {"%hhf", T_F32}, {"%llf", T_F64}, {"%hg", T_F32}, {"%p", T_BUF}, {"%pu", T_BUF},
		{"%p%", T_BUF}, {"%p%d", T_BUF}, {"%p %u", T_BUF}, {"%p%lu", T_BUF}, {"%q", 0}, {"%c", T_I8}, {"%5d", T_I32}, {"%.3f", T_F32},
		{"%%", 0}, {"%", 0}, {"x", 0}, {" %d", T_I32}, {"%d ", T_I32}, {"%m", T_STR}, {"%*d", T_I32}, {"%zu", T_U32}, {"%jd", T_I64},
		{"%n", T_I32}, {"%[a]", T_STR}, {"%o", T_U32}, {"%a", T_F32}, {"%D", T_I32}, {"%U", T_U32}, {"%S", T_STR}, {"%P", T_BUF},
		{"d", T_I32}, {"\n", 0}, {"%hx", 0}, {"%hhx", 0}, {"%lx", 0}, {"%llx", 0},
	};
	auto &b = bad[g.below(sizeof(bad) / sizeof(*bad))];
	std::vector<Arg> v = gen_args(g, 8, true);
	bool fd = b.item[strlen(b.item) - 1] == 'x' && b.item[0] == '%';
	size_t at = v.size();
	std::vector<int> tys;
	unsigned nstr = 0;
	for (auto &a : v) {
		tys.push_back(a.ty);
		nstr += a.ty == T_STR;
	}
	v.push_back(gen_arg(g, b.ty ? b.ty : gen_type(g), 20));
	int fds[1] = {-1};
	struct pomp_msg *m = pomp_msg_new();
	struct pomp_encoder *e = pomp_encoder_new();
	CHECK(m && e && pomp_msg_init(m, 7) == 0 && pomp_encoder_init(e, m) == 0, "message");
	for (size_t i = 0; i < v.size(); i++) {
		if (fd && i == at) {
			fds[0] = open("/dev/null", O_RDONLY);
			CHECK(pomp_encoder_write_fd(e, fds[0]) == 0, "write_fd");
		} else {
			CHECK(enc_typed(e, v[i]) == 0, "write");
		}
	}
	CHECK(pomp_msg_finish(m) == 0, "finish");
	pomp_encoder_destroy(e);
	Reader rd(g, tys);
	std::string f = rd.fmt + b.item;
	if (g.flip() && f.back() != '%')
		f += "%d";
	note("%s fmt %s", show(v).c_str(), f.c_str());
	if (nstr)
		nontrivial();
	long live = vf_live;
	uint64_t scratch[4] = {};
	auto slots = rd.slots();
	for (int i = 0; i < 4; i++)
		slots.push_back({false, (uint64_t)(uintptr_t)&scratch[i]});
	VaList va(slots);
	int r;
	if (g.flip()) {
		r = pomp_msg_readv(m, f.c_str(), va.ap);
	} else {
		struct pomp_decoder *d = pomp_decoder_new();
		CHECK(d && pomp_decoder_init(d, m) == 0, "decoder");
		live = vf_live;
		r = pomp_decoder_readv(d, f.c_str(), va.ap);
		CHECK(vf_live == live, "failed read left %ld allocation(s)", vf_live - live);
		pomp_decoder_destroy(d);
		live = vf_live;
	}
	CHECK(r < 0, "format \"%s\" accepted", f.c_str());
	CHECK(vf_live == live, "failed read left %ld allocation(s)", vf_live - live);
	for (size_t i = 0; i < at; i++) {
		if (tys[i] == T_STR)
			CHECK(rd.cells[i].v == 0, "released string %zu still referenced after a failed read", i);
		else
			same_or_fail(rd.get(i), v[i], "by a failed format", i);
	}
	pomp_msg_destroy(m);
	if (fds[0] >= 0)
		close(fds[0]);
	cl.verify();
}

PBT_TARGET(c02_many_strings, "17 or more strings in one format: refused with everything released, while 16 are read; non-trivial: more than 12 strings", 1)
{
	Clean cl;
	size_t n = (size_t)g.range(1, 24);
	std::vector<Arg> v;
	std::vector<int> tys;
	for (size_t i = 0; i < n; i++) {
		Arg a;
		a.ty = T_STR;
		a.s = gen_cstr(g, 6);
		v.push_back(a);
		tys.push_back(T_STR);
	}
	note("%zu strings", n);
	if (n > 12)
		nontrivial();
	struct pomp_msg *m = build(g, 3, v);
	Reader rd(g, tys);
	long live = vf_live;
	VaList va(rd.slots());
	int r = pomp_msg_readv(m, rd.fmt.c_str(), va.ap);
	if (n <= 16) {
		CHECK(r == 0, "%zu strings refused: %d", n, r);
		for (size_t i = 0; i < n; i++)
			same_or_fail(rd.get(i), v[i], "by %ms", i);
	} else {
		if (r == 0) // a larger limit would be fine too
			for (size_t i = 0; i < n; i++)
				same_or_fail(rd.get(i), v[i], "by %ms", i);
		else
			CHECK(vf_live == live, "failed read of %zu strings left %ld allocation(s)", n, vf_live - live);
	}
	pomp_msg_destroy(m);
	cl.verify();
}
