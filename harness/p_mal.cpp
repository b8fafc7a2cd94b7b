// C03: malformed messages are refused safely.
#include "ref.hpp"
using namespace pbt;

static std::string gen_payload(Gen &g)
{
	std::string p;
	unsigned kind = (unsigned)g.below(4);
	if (kind == 0) {
		// bytes biased to type codes and continuation bits
		size_t n = g.size(64);
		for (size_t i = 0; i < n; i++)
			p += (char)(g.flip() ? g.below(16) : g.flip() ? 0x80 | g.below(4) : g.below(256));
		return p;
	}
	std::vector<Arg> v = gen_args(g, 8, true);
	for (auto &a : v)
		ref::arg(p, a);
	if (kind == 1)
		return p;
	unsigned muts = 1 + (unsigned)g.below(3);
	for (unsigned k = 0; k < muts && !p.empty(); k++) {
		size_t at = (size_t)g.below(p.size());
		switch (g.below(8)) {
		case 0: p.resize(at); break;
		case 1: p[at] = (char)g.below(256); break;
		case 2: p[at] = (char)((uint8_t)p[at] ^ (1u << g.below(8))); break;
		case 3: p.insert(at, g.bytes(g.below(6))); break;
		case 4: p.erase(at, g.below(6)); break;
		case 5: p[at] = (char)g.below(18); break;
		case 6: { // varint of any length
			std::string x;
			unsigned n = (unsigned)g.below(14);
			for (unsigned i = 0; i < n; i++)
				x += (char)(0x80 | g.below(128));
			x += (char)g.below(128);
			p.insert(at, x);
			break;
		}
		default: p += (char)g.below(16); break;
		}
	}
	if (g.chance(1, 3)) { // crafted sizes
		std::string x;
		bool str = g.flip();
		x += (char)(str ? T_STR : T_BUF);
		uint64_t n = g.flip() ? g.integer(str ? 17 : 33) : g.integer(64);
		ref::varint(x, n);
		x += g.bytes(g.below(20));
		if (g.flip())
			x += '\0';
		p.insert(g.flip() ? p.size() : 0, x);
	}
	return p;
}

static struct pomp_msg *wrap(const std::string &b)
{
	// the data block has exactly the size of the message
	struct pomp_buffer *buf = pomp_buffer_new_with_data(b.data(), b.size());
	struct pomp_msg *m = pomp_msg_new_with_buffer(buf);
	pomp_buffer_unref(buf);
	return m;
}

PBT_TARGET(c03_reads, "a payload of random, well-formed or mutated arguments, read argument by argument with right and wrong types and "
	"compared to a strict reference decoder; non-trivial: malformed payload with at least 1 good argument first", 4)
{
	Clean cl;
	std::string b = ref::frame((uint32_t)g.integer(32), gen_payload(g));
	note("%s", hex(b.data() + 12, b.size() - 12, 200).c_str());
	struct pomp_msg *m = wrap(b);
	CHECK(m, "message with a consistent header refused");
	struct pomp_decoder *d = pomp_decoder_new();
	pomp_decoder_init(d, m);
	size_t pos = 12, good = 0;
	for (;;) {
		size_t p2 = pos;
		Arg want, got;
		int actual = pos < b.size() ? (uint8_t)b[pos] : 0;
		if (g.chance(1, 4)) {
			int ty = (int)g.range(T_I8, T_FD);
			if (ty != actual) {
				int r = dec_typed(d, ty, g.flip(), got);
				CHECK(r < 0, "reading %s where type byte %d is succeeded", tyname[ty], actual);
				continue;
			}
		}
		if (actual < T_I8 || actual > T_FD) {
			// nothing can be read here
			for (int ty = T_I8; ty <= T_FD; ty++)
				CHECK(dec_typed(d, ty, false, got) < 0, "reading %s at type byte %d succeeded", tyname[ty], actual);
			break;
		}
		ref::Res rr = ref::read(b, p2, actual, want);
		int r = dec_typed(d, actual, g.flip(), got);
		if (rr == ref::OK) {
			CHECK(r == 0, "well-formed %s at %zu refused: %d", tyname[actual], pos, r);
			if (actual == T_F32 || actual == T_F64)
				CHECK(got.u == want.u || (actual == T_F32 ? std::isnan(as_f32(want.u)) : std::isnan(as_f64(want.u))), "float differs");
			else
				CHECK(same(got, want), "%s at %zu read as %s instead of %s", tyname[actual], pos, show(got).c_str(), show(want).c_str());
			good++;
			pos = p2;
			continue;
		}
		if (rr == ref::LOOSE) {
			LABEL("over-wide varint");
			if (r == 0 && (actual == T_STR || actual == T_BUF)) {
				CHECK(same(got, want), "%s at %zu misread", tyname[actual], pos);
			}
			break;
		}
		LABEL("malformed argument");
		CHECK(r < 0, "malformed %s at %zu accepted as %s", tyname[actual], pos, show(got).c_str());
		if (good)
			nontrivial();
		break;
	}
	pomp_decoder_destroy(d);
	pomp_msg_destroy(m);
	cl.verify();
}

PBT_TARGET(c03_formats, "scanf-like reads with a generated format over a malformed or well-formed payload: succeeds exactly when every "
	"argument is there and well-formed, and otherwise releases the strings; non-trivial: failing format with a string before the failure", 3)
{
	Clean cl;
	std::string b = ref::frame(9, gen_payload(g));
	// a format that follows the payload as far as it makes sense, then anything
	std::vector<int> tys;
	size_t pos = 12;
	unsigned nstr = 0;
	while (pos < b.size() && tys.size() < 12) {
		int t = (uint8_t)b[pos];
		Arg a;
		if (t < T_I8 || t > T_F64)
			break;
		tys.push_back(t);
		ref::Res r = ref::read(b, pos, t, a);
		if (r != ref::OK)
			break;
	}
	if (g.flip())
		tys.push_back(gen_type(g));
	if (!tys.empty() && g.chance(1, 4))
		tys[(size_t)g.below(tys.size())] = gen_type(g);
	Reader rd(g, tys);
	note("%s fmt=%s", hex(b.data() + 12, b.size() - 12, 200).c_str(), rd.fmt.c_str());
	struct pomp_msg *m = wrap(b);
	CHECK(m, "message with a consistent header refused");
	long live = vf_live;
	VaList va(rd.slots());
	int r = pomp_msg_readv(m, rd.fmt.c_str(), va.ap);
	ref::Res rr = ref::OK;
	std::vector<Arg> vals;
	pos = 12;
	size_t k;
	for (k = 0; k < tys.size(); k++) {
		Arg a;
		rr = ref::read(b, pos, tys[k], a);
		if (rr != ref::OK)
			break;
		if (a.ty == T_STR)
			nstr++;
		vals.push_back(a);
	}
	if (rr == ref::OK) {
		CHECK(r == 0, "format \"%s\" refused: %d", rd.fmt.c_str(), r);
		for (size_t i = 0; i < vals.size(); i++) {
			Arg a = rd.get(i);
			CHECK(same(a, vals[i]), "argument %zu read as %s instead of %s", i, show(a).c_str(), show(vals[i]).c_str());
		}
	} else if (rr == ref::LOOSE) {
		if (r == 0)
			for (size_t i = 0; i < tys.size(); i++)
				if (tys[i] == T_STR)
					rd.get(i);
	} else {
		if (nstr)
			nontrivial();
		CHECK(r < 0, "format \"%s\" accepted, argument %zu is not there", rd.fmt.c_str(), k);
		CHECK(vf_live == live, "failed read left %ld allocation(s)", vf_live - live);
		for (size_t i = 0; i < k; i++)
			if (tys[i] == T_STR)
				CHECK(rd.cells[i].v == 0, "released string %zu still referenced after a failed read", i);
	}
	pomp_msg_destroy(m);
	cl.verify();
}

PBT_TARGET(c03_dump_copy, "dump, allocating dump and copy of random, well-formed and mutated payloads; non-trivial: malformed payload", 3)
{
	Clean cl;
	uint32_t id = (uint32_t)g.integer(32);
	std::string b = ref::frame(id, gen_payload(g));
	note("%s", hex(b.data() + 12, b.size() - 12, 200).c_str());
	struct pomp_msg *m = wrap(b);
	CHECK(m, "message with a consistent header refused");
	std::vector<Arg> v;
	bool loose;
	bool ok = ref::parse(b, v, &loose);
	if (!ok && !loose)
		nontrivial();
	char *s = (char *)1;
	int r = pomp_msg_adump(m, &s);
	if (ok) {
		CHECK(r == 0 && s, "dump of a well-formed message failed: %d", r);
		CHECK(ref::dump(id, v) == s, "dump is %s\nexpected %s", s, ref::dump(id, v).c_str());
	} else if (!loose) {
		CHECK(r < 0, "dump of a malformed message succeeded: %s", s);
	}
	if (r < 0)
		CHECK(s == NULL, "failed pomp_msg_adump left a pointer");
	else
		vf_free(s);
	size_t cap = g.size(600);
	char *dst = (char *)malloc(cap + 1);
	memset(dst, 'x', cap + 1);
	r = pomp_msg_dump(m, dst, (uint32_t)cap);
	CHECK(dst[cap] == 'x', "dump wrote beyond its destination");
	if (cap)
		CHECK(memchr(dst, 0, cap), "dump not terminated");
	if (ok)
		CHECK(r == 0, "dump of a well-formed message failed: %d", r);
	free(dst);
	struct pomp_msg *c = pomp_msg_new_copy(m);
	CHECK(c, "copy failed");
	CHECK(msg_bytes(c) == b, "copy differs");
	pomp_msg_destroy(c);
	pomp_msg_destroy(m);
	cl.verify();
}

PBT_TARGET(c03_header, "buffers with right and wrong magic, size field and length given to pomp_msg_new_with_buffer; non-trivial: one field wrong", 1)
{
	Clean cl;
	uint32_t id = (uint32_t)g.integer(32);
	std::string b = ref::frame(id, g.bytes(g.size(40)));
	bool ok = true;
	switch (g.below(6)) {
	case 0: break;
	case 1: b.resize((size_t)g.below(b.size())); ok = false; break;
	case 2: { size_t at = (size_t)g.below(4); char c = (char)g.below(256); ok = b[at] == c; b[at] = c; break; }
	case 3: { size_t at = 8 + (size_t)g.below(4); char c = (char)g.below(256); ok = b[at] == c; b[at] = c; break; }
	case 4: b += g.bytes(1 + g.below(5)); ok = false; break;
	default: b = g.bytes(g.below(13)); ok = false; break;
	}
	note("%s", hex(b.data(), b.size()).c_str());
	if (!ok)
		nontrivial();
	struct pomp_buffer *buf = b.empty() ? pomp_buffer_new(0) : pomp_buffer_new_with_data(b.data(), b.size());
	struct pomp_msg *m = pomp_msg_new_with_buffer(buf);
	CHECK((m != NULL) == ok, "header %s", ok ? "valid but refused" : "inconsistent but accepted");
	if (m) {
		CHECK(pomp_msg_get_id(m) == id && msg_bytes(m) == b, "message from buffer has other content");
		pomp_msg_destroy(m);
	}
	CHECK(!pomp_buffer_is_shared(buf), "buffer still referenced");
	pomp_buffer_unref(buf);
	cl.verify();
}
