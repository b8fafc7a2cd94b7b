// C01: the encoder emits the documented wire format, whichever front end is used.
#include "ref.hpp"
using namespace pbt;

static std::string int_text(Gen &g, const Arg &a)
{
	char b[80];
	bool neg = false;
	uint64_t m = a.u;
	bool sgn = a.ty == T_I8 || a.ty == T_I16 || a.ty == T_I32 || a.ty == T_I64;
	if (sgn && (int64_t)a.u < 0) {
		neg = true;
		m = 0 - a.u;
	}
	switch (g.below(4)) {
	case 0: case 1: snprintf(b, sizeof(b), "%s%" PRIu64, neg ? "-" : "", m); break;
	case 2: snprintf(b, sizeof(b), "%s0%c%" PRIx64, neg ? "-" : "", g.flip() ? 'x' : 'X', m); break;
	default: snprintf(b, sizeof(b), "%s0%" PRIo64, neg ? "-" : "", m); break;
	}
	return b;
}
static void arg_text(Gen &g, const Arg &a, std::vector<std::string> &out)
{
	char b[400];
	switch (a.ty) {
	case T_STR: out.push_back(a.s); break;
	case T_BUF: {
		std::string h;
		bool up = g.flip();
		for (unsigned char c : a.s) {
			snprintf(b, sizeof(b), up ? "%02X" : "%02x", c);
			h += b;
		}
		out.push_back(h);
		snprintf(b, sizeof(b), g.flip() ? "%zu" : "0x%zx", a.s.size());
		out.push_back(b);
		break;
	}
	case T_F32:
		snprintf(b, sizeof(b), g.flip() ? "%.9g" : "%a", (double)as_f32(a.u));
		out.push_back(b);
		break;
	case T_F64:
		snprintf(b, sizeof(b), g.flip() ? "%.17g" : "%a", as_f64(a.u));
		out.push_back(b);
		break;
	default: out.push_back(int_text(g, a)); break;
	}
}
static bool is_nan(const Arg &a)
{
	return (a.ty == T_F32 && std::isnan(as_f32(a.u))) || (a.ty == T_F64 && std::isnan(as_f64(a.u)));
}
static void expect(const char *front, const struct pomp_msg *m, uint32_t id, const std::string &want)
{
	std::string got = msg_bytes(m);
	if (got != want) {
		size_t i = 0;
		while (i < got.size() && i < want.size() && got[i] == want[i])
			i++;
		fail("%s: encoded bytes differ from the documented format at offset %zu (%zu bytes, expected %zu)\n got      %s\n expected %s",
		     front, i, got.size(), want.size(), hex(got.data(), got.size(), 80).c_str(), hex(want.data(), want.size(), 80).c_str());
	}
	CHECK(pomp_msg_get_id(m) == id, "%s: message id", front);
}
static void argv_args(Gen &g, const std::vector<Arg> &v, std::string &fmt, std::vector<std::string> &txt)
{
	for (auto &a : v) {
		fmt += spec(g, a.ty, false);
		arg_text(g, a, txt);
	}
}

PBT_TARGET(c01_fronts, "a message id and 0-20 arguments of the 12 types with boundary-biased values, encoded by one front end "
	"(typed, variadic, va_list, argv, or a mixture); non-trivial: at least 2 arguments", 4)
{
	Clean cl;
	uint32_t id = (uint32_t)g.integer(32);
	std::vector<Arg> v = gen_args(g, 20, true);
	unsigned front = (unsigned)g.below(5);
	note("id=%u front=%u %s", id, front, show(v).c_str());
	std::string want = ref::message(id, v);
	if (v.size() >= 2)
		nontrivial();
	struct pomp_msg *m = pomp_msg_new();
	std::string fmt;
	int r = 0;
	if (front == 3)
		for (auto &a : v)
			if (is_nan(a))
				front = 2; // NaN has no faithful text
	switch (front) {
	case 0: case 4: {
		LABEL("typed/mixed");
		struct pomp_encoder *e = pomp_encoder_new();
		CHECK(pomp_msg_init(m, id) == 0, "init");
		CHECK(pomp_encoder_init(e, m) == 0, "encoder init");
		for (size_t i = 0; i < v.size();) {
			if (front == 0 || g.flip()) {
				r = enc_typed(e, v[i]);
				CHECK(r == 0, "typed write of %s failed: %d", show(v[i]).c_str(), r);
				i++;
				continue;
			}
			size_t k = 1 + (size_t)g.below(v.size() - i);
			std::vector<Arg> part(v.begin() + i, v.begin() + i + k);
			bool nan = false;
			for (auto &a : part)
				nan |= is_nan(a);
			std::string f;
			if (!nan && g.flip()) {
				std::vector<std::string> txt;
				argv_args(g, part, f, txt);
				std::vector<const char *> av;
				for (auto &t : txt)
					av.push_back(t.c_str());
				av.push_back(NULL);
				r = pomp_encoder_write_argv(e, f.c_str(), (int)av.size() - 1, av.data());
			} else {
				for (auto &a : part)
					f += spec(g, a.ty, false);
				Regs regs(write_slots(g, part), 4);
				if (regs.fits && g.flip()) {
					r = vcall2(pomp_encoder_write, e, f.c_str(), regs);
				} else {
					VaList va(write_slots(g, part));
					r = pomp_encoder_writev(e, f.c_str(), va.ap);
				}
			}
			CHECK(r == 0, "writing part \"%s\" failed: %d", f.c_str(), r);
			i += k;
		}
		r = pomp_msg_finish(m);
		CHECK(r == 0, "finish: %d", r);
		pomp_encoder_clear(e);
		pomp_encoder_destroy(e);
		expect(front ? "mixed" : "typed", m, id, want);
		break;
	}
	case 1: case 2: {
		for (auto &a : v)
			fmt += spec(g, a.ty, false);
		Regs regs(write_slots(g, v), 3);
		if (front == 1 && regs.fits) {
			LABEL("variadic");
			r = vcall3(pomp_msg_write, m, id, v.empty() && g.flip() ? NULL : fmt.c_str(), regs);
		} else {
			LABEL("va_list");
			VaList va(write_slots(g, v));
			r = pomp_msg_writev(m, id, v.empty() && g.flip() ? NULL : fmt.c_str(), va.ap);
		}
		CHECK(r == 0, "pomp_msg_write(\"%s\") failed: %d", fmt.c_str(), r);
		expect("printf-like", m, id, want);
		break;
	}
	default: {
		LABEL("argv");
		std::vector<std::string> txt;
		argv_args(g, v, fmt, txt);
		std::vector<const char *> av;
		for (auto &t : txt)
			av.push_back(t.c_str());
		av.push_back(NULL);
		r = pomp_msg_write_argv(m, id, fmt.c_str(), (int)av.size() - 1, av.data());
		CHECK(r == 0, "pomp_msg_write_argv(\"%s\") failed: %d", fmt.c_str(), r);
		expect("argv", m, id, want);
		break;
	}
	}
	pomp_msg_destroy(m);
	cl.verify();
}

// Exhaustive-ish: each type on its own over boundary values, every specifier.
PBT_TARGET(c01_scalar, "one integer or float of each width, boundary values, every conversion specifier; non-trivial: value is not 0", 2)
{
	Clean cl;
	for (int k = 0; k < 8; k++) {
		int ty;
		do
			ty = gen_type(g);
		while (ty == T_STR || ty == T_BUF);
		Arg a = gen_arg(g, ty, 0);
		std::string f = spec(g, ty, false);
		if (k == 0)
			note("%s %s", f.c_str(), show(a).c_str());
		if (a.u)
			nontrivial();
		struct pomp_msg *m = pomp_msg_new();
		CHECK(m, "new");
		VaList va(write_slots(g, {a}));
		int r = pomp_msg_writev(m, 7, f.c_str(), va.ap);
		CHECK(r == 0, "write %s", f.c_str());
		expect("scalar", m, 7, ref::message(7, {a}));
		pomp_msg_destroy(m);
	}
	cl.verify();
}

PBT_TARGET(c01_refused, "an argument the format cannot represent (string of 65535 bytes or more, NULL, missing argument, bad "
	"specifier) at a random place among good ones; non-trivial: good arguments precede it", 1)
{
	Clean cl;
	uint32_t id = (uint32_t)g.integer(32);
	std::vector<Arg> v = gen_args(g, 6, true);
	unsigned kind = (unsigned)g.below(6);
	note("kind=%u after %s", kind, show(v).c_str());
	if (!v.empty())
		nontrivial();
	struct pomp_msg *m = pomp_msg_new();
	int r;
	std::string big;
	if (kind <= 2) {
		big.assign(65535 + (g.flip() ? g.below(4) : g.below(140000)), 'a');
		struct pomp_encoder *e = pomp_encoder_new();
		CHECK(pomp_msg_init(m, id) == 0 && pomp_encoder_init(e, m) == 0, "init");
		size_t at = (size_t)g.below(v.size() + 1);
		for (size_t i = 0; i <= v.size(); i++) {
			if (i == at) {
				LABEL("refused typed");
				if (kind == 0)
					r = pomp_encoder_write_str(e, big.c_str());
				else if (kind == 1)
					r = pomp_encoder_write_str(e, NULL);
				else
					r = pomp_encoder_write_buf(e, NULL, (uint32_t)g.below(10));
				CHECK(r < 0, "unrepresentable argument accepted (kind %u, %zu bytes)", kind, big.size());
			}
			if (i < v.size())
				CHECK(enc_typed(e, v[i]) == 0, "typed write");
		}
		CHECK(pomp_msg_finish(m) == 0, "finish");
		expect("after a refused argument", m, id, ref::message(id, v));
		pomp_encoder_destroy(e);
	} else if (kind == 3) {
		LABEL("refused variadic");
		std::string f;
		for (auto &a : v)
			f += spec(g, a.ty, false);
		auto slots = write_slots(g, v);
		if (g.flip()) {
			big.assign(65535 + g.below(1000), 'b');
			f += "%s";
			slots.push_back({false, (uint64_t)(uintptr_t)big.c_str()});
		} else {
			f += "%s";
			slots.push_back({false, 0});
		}
		VaList va(slots);
		r = pomp_msg_writev(m, id, f.c_str(), va.ap);
		CHECK(r < 0, "unrepresentable argument accepted by %s", f.c_str());
	} else if (kind == 4) {
		// argument vector with something missing
		LABEL("refused argv");
		for (auto &a : v)
			if (is_nan(a))
				a.u = 0;
		Arg last = gen_arg(g, gen_type(g), 20);
		if (is_nan(last))
			last.u = 0;
		v.push_back(last);
		std::string f;
		std::vector<std::string> txt;
		argv_args(g, v, f, txt);
		std::vector<const char *> av;
		for (auto &t : txt)
			av.push_back(t.c_str());
		int argc = (int)av.size();
		av.push_back(NULL);
		if (g.flip() && argc > 1)
			argc -= 1;
		else
			av[(size_t)g.below((uint64_t)argc)] = NULL;
		if (argc == 0)
			argc = 1;
		r = pomp_msg_write_argv(m, id, f.c_str(), argc, av.data());
		CHECK(r < 0, "missing argument accepted by \"%s\" argc=%d", f.c_str(), argc);
	} else {
		LABEL("refused format");
		static const char *bad[] = {"%", "x", " %d", "%d ", "%hf", "%hhf", "%llf", "%c", "%p", "%pu", "%p%d", "%p%", "%q", "%hx", "%lx", "%%", "%5d", "%.3f", "%ms%m", "%p %u", "%p%lu", "%lls%", "%n", "%o", "%a", "d", "\n"};
		std::string f;
		for (auto &a : v)
			f += spec(g, a.ty, false);
		const char *b = bad[g.below(sizeof(bad) / sizeof(*bad))];
		f += b;
		if (g.chance(1, 3)) {
			LABEL("refused format, argv");
			for (auto &a : v)
				if (is_nan(a))
					a.u = 0;
			std::string f2;
			std::vector<std::string> txt;
			argv_args(g, v, f2, txt);
			f2 += b;
			txt.insert(txt.end(), {"01", "1", "1"});
			std::vector<const char *> av;
			for (auto &t : txt)
				av.push_back(t.c_str());
			int argc = (int)av.size();
			av.push_back(NULL);
			r = pomp_msg_write_argv(m, id, f2.c_str(), argc, av.data());
			CHECK(r < 0, "format \"%s\" accepted with texts", f2.c_str());
			pomp_msg_destroy(m);
			cl.verify();
			return;
		}
		auto slots = write_slots(g, v);
		slots.push_back({false, (uint64_t)(uintptr_t) "str"});
		slots.push_back({false, 1});
		slots.push_back({false, 1});
		VaList va(slots);
		r = pomp_msg_writev(m, id, f.c_str(), va.ap);
		CHECK(r < 0, "format \"%s\" accepted", f.c_str());
	}
	pomp_msg_destroy(m);
	cl.verify();
}

// Textual buffers: any text and length is either refused or encoded as what it denotes.
PBT_TARGET(c01_argv_hex, "a hexadecimal text of any length (odd, too short, too long, not hexadecimal) with any size; non-trivial: "
	"text and size disagree", 1)
{
	Clean cl;
	std::string txt;
	size_t n = g.size(40);
	static const char dig[] = "0123456789abcdefABCDEF";
	for (size_t i = 0; i < n; i++)
		txt += g.chance(1, 40) ? (char)g.range(33, 126) : dig[g.below(22)];
	uint32_t len = g.flip() ? (uint32_t)(n / 2) : g.flip() ? (uint32_t)((n + 1) / 2) : (uint32_t)g.below(60);
	if (len * 2 != n)
		nontrivial();
	note("text=%s len=%u", txt.c_str(), len);
	char lt[20];
	snprintf(lt, sizeof(lt), "%u", len);
	const char *av[3] = {txt.c_str(), lt, NULL};
	struct pomp_msg *m = pomp_msg_new();
	int r = pomp_msg_write_argv(m, 5, "%p%u", 2, av);
	bool allhex = txt.find_first_not_of("0123456789abcdefABCDEF") == std::string::npos;
	if (allhex && n == 2 * (size_t)len) {
		Arg a;
		a.ty = T_BUF;
		for (size_t i = 0; i + 1 < n; i += 2)
			a.s += (char)strtoul(txt.substr(i, 2).c_str(), NULL, 16);
		CHECK(r == 0, "well-formed hexadecimal buffer refused: %d", r);
		expect("argv buffer", m, 5, ref::message(5, {a}));
	} else if (n < 2 * (size_t)len - (len ? 1 : 0)) {
		CHECK(r < 0, "buffer of %u bytes accepted from %zu hexadecimal digits", len, n);
	}
	pomp_msg_destroy(m);
	cl.verify();
}
