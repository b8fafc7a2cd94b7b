// C25: addresses parse and format as documented, and round-trip.
#include "ref.hpp"
#include <arpa/inet.h>
#include <net/if.h>
#include <netinet/in.h>
#include <sys/socket.h>
#include <sys/mman.h>
#include <sys/un.h>
using namespace pbt;

namespace {
struct Addr {
	int family = 0;
	uint16_t port = 0;
	uint8_t ip[16] = {0};
	uint32_t scope = 0;
	std::string path; // sun_path up to its end, an abstract one starting with NUL
};
std::string sun_string(const char *p)
{
	if (p[0])
		return std::string(p, strnlen(p, sizeof(((struct sockaddr_un *)0)->sun_path)));
	return std::string(1, '\0') + std::string(p + 1, strnlen(p + 1, sizeof(((struct sockaddr_un *)0)->sun_path) - 1));
}
bool same_addr(const Addr &a, const void *sa, uint32_t len, std::string &why)
{
	const struct sockaddr *s = (const struct sockaddr *)sa;
	if (s->sa_family != a.family) {
		why = "family";
		return false;
	}
	if (a.family == AF_INET) {
		const struct sockaddr_in *i = (const struct sockaddr_in *)sa;
		why = "inet address, port or length";
		return len == sizeof(*i) && ntohs(i->sin_port) == a.port && !memcmp(&i->sin_addr, a.ip, 4);
	}
	if (a.family == AF_INET6) {
		const struct sockaddr_in6 *i = (const struct sockaddr_in6 *)sa;
		why = "inet6 address, port, scope or length";
		return len == sizeof(*i) && ntohs(i->sin6_port) == a.port && !memcmp(&i->sin6_addr, a.ip, 16) && i->sin6_scope_id == a.scope;
	}
	const struct sockaddr_un *u = (const struct sockaddr_un *)sa;
	why = "unix path or length";
	return len == sizeof(*u) && sun_string(u->sun_path) == a.path;
}

// parses with a destination of exactly 'room' bytes
int parse(const std::string &s, uint32_t room, std::string &out)
{
	char *in = (char *)malloc(s.size() + 1);
	memcpy(in, s.c_str(), s.size() + 1);
	uint8_t *dst = (uint8_t *)malloc(room ? room : 1);
	memset(dst, 0xa5, room ? room : 1);
	uint32_t len = room;
	int r = pomp_addr_parse(in, (struct sockaddr *)dst, &len);
	if (r == 0) {
		CHECK(len <= room, "address of %u bytes in %u", len, room);
		out.assign((char *)dst, len);
	}
	free(in);
	free(dst);
	return r;
}
// the end of memory that can be read: the sanitizer does not look into what is printed by a
// format with a precision
char *fence()
{
	static char *end;
	if (!end) {
		char *p = (char *)mmap(nullptr, 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
		if (p == MAP_FAILED || mprotect(p + 4096, 4096, PROT_NONE) != 0)
			abort();
		end = p + 4096;
	}
	return end;
}
int format(const std::string &sa, uint32_t room, std::string &out)
{
	uint16_t family = 0;
	if (sa.size() >= 2)
		memcpy(&family, sa.data(), 2);
	bool fenced = family == AF_UNIX && sa.size() % 2 == 0 && sa.size() < 4096;
	uint8_t *src = fenced ? (uint8_t *)fence() - sa.size() : (uint8_t *)malloc(sa.size());
	memcpy(src, sa.data(), sa.size());
	char *dst = (char *)malloc(room ? room : 1);
	memset(dst, 0x5a, room ? room : 1);
	int r = pomp_addr_format(dst, room, (const struct sockaddr *)src, (uint32_t)sa.size());
	if (r == 0) {
		CHECK(memchr(dst, 0, room), "formatted address without terminator");
		out = dst;
	}
	if (!fenced)
		free(src);
	free(dst);
	return r;
}
std::string hex16(uint32_t v, Gen &g)
{
	char b[16];
	const char *f[] = {"%x", "%04x", "%X"};
	snprintf(b, sizeof(b), f[g.below(3)], v & 0xffff);
	return b;
}

// a well-formed address and one way to write it; canonical: what formatting gives
std::string gen_ok(Gen &g, Addr &a, bool &canonical)
{
	char b[128];
	canonical = true;
	static const uint16_t ports[] = {0, 1, 80, 255, 256, 1234, 9999, 10000, 32767, 32768, 65534, 65535};
	switch (g.weighted({3, 4, 4, 3})) {
	case 0: {
		a.family = AF_INET;
		a.port = g.flip() ? ports[g.below(12)] : (uint16_t)g.integer(16);
		uint32_t v = g.flip() ? (uint32_t)g.integer(32) : (uint32_t)g.below(0x100000000ull);
		memcpy(a.ip, &v, 4);
		inet_ntop(AF_INET, a.ip, b, sizeof(b));
		return std::string("inet:") + b + ":" + std::to_string(a.port);
	}
	case 1: {
		a.family = AF_INET6;
		a.port = g.flip() ? ports[g.below(12)] : (uint16_t)g.integer(16);
		for (int i = 0; i < 8; i++) {
			uint16_t h = g.flip() ? 0 : g.flip() ? (uint16_t)g.below(16) : (uint16_t)g.below(65536);
			a.ip[2 * i] = (uint8_t)(h >> 8);
			a.ip[2 * i + 1] = (uint8_t)h;
		}
		std::string s;
		if (g.chance(1, 4)) { // link local
			a.ip[0] = 0xfe;
			a.ip[1] = 0x80;
		}
		switch (g.below(3)) {
		case 0:
			inet_ntop(AF_INET6, a.ip, b, sizeof(b));
			s = b;
			break;
		case 1: // all the groups
			canonical = false;
			for (int i = 0; i < 8; i++)
				s += (i ? ":" : "") + hex16((uint32_t)a.ip[2 * i] << 8 | a.ip[2 * i + 1], g);
			break;
		case 2: // last ones as inet
			canonical = false;
			for (int i = 0; i < 6; i++)
				s += (i ? ":" : "") + hex16((uint32_t)a.ip[2 * i] << 8 | a.ip[2 * i + 1], g);
			inet_ntop(AF_INET, a.ip + 12, b, sizeof(b));
			s += std::string(":") + b;
			break;
		}
		if (a.ip[0] == 0xfe && a.ip[1] == 0x80 && g.flip()) {
			a.scope = g.flip() ? if_nametoindex("lo") : 1 + (uint32_t)g.below(100000);
			if (a.scope == 0)
				a.scope = 1;
			canonical = false;
			s += "%" + std::to_string(a.scope);
		}
		return "inet6:" + s + ":" + std::to_string(a.port);
	}
	default: {
		bool abstract = g.flip();
		a.family = AF_UNIX;
		const size_t max = sizeof(((struct sockaddr_un *)0)->sun_path);
		size_t n = 1 + (g.flip() ? g.below(20) : g.flip() ? g.below(max - 1) : max - 2 - g.below(3));
		std::string p;
		for (size_t i = 0; i < n; i++) {
			static const char cs[] = "abz/._-:@% \x01\x7f\xc3\xa9\xff";
			p += cs[g.below(sizeof(cs) - 1)];
		}
		if (abstract) {
			p[0] = '@';
			a.path = p;
			a.path[0] = '\0';
		} else {
			if (p[0] == '@')
				p[0] = '/';
			a.path = p;
		}
		return "unix:" + p;
	}
	}
}
size_t size_of(int family)
{
	return family == AF_INET ? sizeof(struct sockaddr_in) : family == AF_INET6 ? sizeof(struct sockaddr_in6) : sizeof(struct sockaddr_un);
}
} // namespace

PBT_TARGET(c25_roundtrip, "well-formed addresses in every notation: parsed, compared with inet_pton, formatted in every destination size and parsed again; "
	"non-trivial: an inet6 address or a path of 90 bytes or more", 3)
{
	MemClean mc;
	Addr a;
	bool canonical;
	std::string s = gen_ok(g, a, canonical), sa, t, sa2, why;
	note("%s", s.c_str());
	size_t need = size_of(a.family);
	uint32_t room = g.flip() ? sizeof(struct sockaddr_storage) : (uint32_t)need;
	int r = parse(s, room, sa);
	CHECK(r == 0, "parse: error %d", r);
	CHECK(same_addr(a, sa.data(), (uint32_t)sa.size(), why), "parsed address differs: %s", why.c_str());
	// a destination too small
	std::string dummy;
	uint32_t small = g.chance(1, 2) ? (uint32_t)need - 1 : (uint32_t)g.below(need);
	r = parse(s, small, dummy);
	CHECK(r < 0, "parse into %u bytes succeeded", small);
	CHECK(pomp_addr_is_unix((const struct sockaddr *)sa.data(), (uint32_t)sa.size()) == (a.family == AF_UNIX), "is_unix");
	CHECK(pomp_addr_is_unix((const struct sockaddr *)sa.data(), (uint32_t)g.below(2)) == 0, "is_unix of a short address");
	// format
	r = format(sa, 256, t);
	CHECK(r == 0, "format: error %d", r);
	if (canonical)
		CHECK(t == s, "formatted as '%s'", t.c_str());
	r = parse(t, sizeof(struct sockaddr_storage), sa2);
	CHECK(r == 0 && same_addr(a, sa2.data(), (uint32_t)sa2.size(), why), "'%s' parses to another address: %s", t.c_str(), why.c_str());
	// sizes
	uint32_t exact = (uint32_t)t.size() + 1;
	std::string t2;
	r = format(sa, exact, t2);
	CHECK(r == 0 && t2 == t, "format in exactly %u bytes: %d '%s'", exact, r, t2.c_str());
	uint32_t less = g.flip() ? exact - 1 : (uint32_t)g.below(exact);
	r = format(sa, less, t2);
	CHECK(r < 0, "format in %u bytes instead of %u succeeded: '%s'", less, exact, t2.c_str());
	mc.verify();
	if (a.family == AF_INET6 || a.path.size() >= 90)
		nontrivial();
}

PBT_TARGET(c25_malformed, "strings that are not addresses, close to well-formed ones: refused; non-trivial: derived from a well-formed address", 2)
{
	MemClean mc;
	Addr a;
	bool canonical;
	std::string s, sa;
	unsigned k = (unsigned)g.weighted({2, 2, 2, 2, 2, 2, 2, 2, 1});
	if (k <= 7)
		nontrivial();
	switch (k) {
	case 0: { // port
		do
			s = gen_ok(g, a, canonical);
		while (a.family == AF_UNIX && !g.exhausted());
		if (a.family == AF_UNIX)
			return;
		s = s.substr(0, s.rfind(':') + 1);
		static const char *bad[] = {"", "65536", "65537", "70000", "131072", "4294967296", "4294967297", "99999999999999999999", "-1", "-65535", "12x",
			"x12", "0x50", "1.5", "12 ", "1 2", "no-such-service"};
		s += bad[g.below(sizeof(bad) / sizeof(bad[0]))];
		break;
	}
	case 1: { // no port at all
		char b[64];
		uint32_t v = (uint32_t)g.integer(32);
		inet_ntop(AF_INET, &v, b, sizeof(b));
		s = std::string("inet:") + b;
		break;
	}
	case 2: // the other family
		do
			s = gen_ok(g, a, canonical);
		while (a.family == AF_UNIX && !g.exhausted());
		if (a.family == AF_UNIX)
			return;
		if (a.family == AF_INET)
			s = "inet6:" + s.substr(5);
		else
			s = "inet:" + s.substr(6);
		break;
	case 3: { // a path that does not fit
		size_t n = sizeof(((struct sockaddr_un *)0)->sun_path) + (g.flip() ? 0 : g.size(5000));
		s = std::string("unix:") + (g.flip() ? "@" : "/") + std::string(n - 1, 'p');
		break;
	}
	case 4: { // unknown prefix
		s = gen_ok(g, a, canonical);
		static const char *pre[] = {"", "INET:", "Unix:", "inet4:", "inet ", "ine", "tcp:", "unix", "inet6", " inet:", "unix :", "addr:"};
		size_t c = s.find(':');
		std::string rest = s.substr(c + 1);
		s = pre[g.below(sizeof(pre) / sizeof(pre[0]))] + rest;
		if (s.compare(0, 5, "inet:") == 0 || s.compare(0, 6, "inet6:") == 0 || s.compare(0, 5, "unix:") == 0)
			return; // became one again
		break;
	}
	case 5: { // bad inet address
		static const char *bad[] = {"256.1.1.1", "1.2.3.4.5", "1.2.3.x", "", "1..2.3", "1.2.3.4/8", "a.b.c.d", "1.2.3.-4", "1.2.3.4 x", ":", "::"};
		s = std::string("inet:") + bad[g.below(sizeof(bad) / sizeof(bad[0]))] + ":" + std::to_string(g.below(65536));
		break;
	}
	case 6: { // bad inet6 address
		static const char *bad[] = {"1::2::3", "12345::", "1:2:3:4:5:6:7:8:9", "", ":", "g::1", "1:2:3", "::1.2.3", "1:2:3:4:5:6:7", ":::", "::1/64", "::ffff:256.1.1.1"};
		s = std::string("inet6:") + bad[g.below(sizeof(bad) / sizeof(bad[0]))] + ":" + std::to_string(g.below(65536));
		break;
	}
	case 7: { // prefix only
		static const char *p[] = {"inet:", "inet6:", "inet", "inet6", "unix", "u", "", ":", "inet::", "inet6::", "inet::80", "inet6::80"};
		s = p[g.below(sizeof(p) / sizeof(p[0]))];
		break;
	}
	case 8: { // anything
		s = g.bytes(g.size(300));
		s.resize(strlen(s.c_str()));
		if (s.compare(0, 4, "inet") == 0 || s.compare(0, 4, "unix") == 0)
			return;
		break;
	}
	}
	note("'%s'", s.c_str());
	int r = parse(s, sizeof(struct sockaddr_storage), sa);
	CHECK(r < 0, "parsed");
	mc.verify();
}

PBT_TARGET(c25_strings, "any string made of pieces of addresses: no memory error; what is accepted formats and parses to the same address; non-trivial: accepted", 2)
{
	MemClean mc;
	std::string s, sa, sa2, t, t2;
	static const char *pcs[] = {"inet:", "inet6:", "unix:", ":", "1", "127.0.0.1", "::1", "::", "fe80::1", "%lo", "%1", "0", "65535", "99999", "@", "/tmp/x", ".",
		"255", "http", " ", "\xff", "%", "0x7f", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", "-", "+5"};
	if (g.chance(4, 5))
		s = pcs[g.below(3)];
	while (g.more(4))
		s += pcs[g.below(sizeof(pcs) / sizeof(pcs[0]))];
	note("'%s'", s.c_str());
	uint32_t room = g.chance(3, 4) ? sizeof(struct sockaddr_storage) : (uint32_t)g.below(130);
	if (parse(s, room, sa) == 0) {
		nontrivial();
		CHECK(s.compare(0, 5, "inet:") == 0 || s.compare(0, 6, "inet6:") == 0 || s.compare(0, 5, "unix:") == 0, "accepted");
		int fam = ((const struct sockaddr *)sa.data())->sa_family;
		CHECK(fam == (s[0] == 'u' ? AF_UNIX : s[4] == ':' ? AF_INET : AF_INET6), "family %d", fam);
		CHECK(format(sa, 300, t) == 0, "format failed");
		CHECK(parse(t, sizeof(struct sockaddr_storage), sa2) == 0, "formatted as '%s', not parsed", t.c_str());
		CHECK(format(sa2, 300, t2) == 0 && t == t2, "'%s' parsed and formatted as '%s'", t.c_str(), t2.c_str());
		CHECK(sa.size() == sa2.size() && memcmp(sa.data(), sa2.data(), sa.size()) == 0, "'%s' parses to another address", t.c_str());
	}
	mc.verify();
}

PBT_TARGET(c25_format, "any bytes and any length as socket address, any destination size: no access outside, always terminated; what is formatted parses back; "
	"non-trivial: formatted", 2)
{
	MemClean mc;
	Addr a;
	bool canonical;
	std::string sa, t;
	// start from a valid one
	parse(gen_ok(g, a, canonical), sizeof(struct sockaddr_storage), sa);
	unsigned m = (unsigned)g.weighted({3, 2, 2, 2});
	if (m == 1)
		sa.resize(g.below(140));
	else if (m == 2 && !sa.empty()) // a path that fills it
		for (size_t i = 2 + g.below(2); i < sa.size(); i++)
			sa[i] = 'q';
	else if (m == 3) {
		sa = g.bytes(g.below(140));
		static const uint16_t fams[] = {AF_UNIX, AF_INET, AF_INET6, AF_UNSPEC, AF_NETLINK, 0xffff};
		uint16_t f = fams[g.below(6)];
		if (sa.size() >= 2)
			memcpy(&sa[0], &f, 2);
	}
	if (sa.empty())
		return;
	uint32_t room = g.flip() ? 256 : (uint32_t)g.below(140);
	note("%s into %u", hex(sa.data(), sa.size(), 130).c_str(), room);
	int r = format(sa, room, t);
	note("-> %d '%s'", r, r ? "" : t.c_str());
	if (r == 0) {
		nontrivial();
		CHECK(sa.size() >= sizeof(struct sockaddr), "address of %zu bytes formatted", sa.size());
		uint16_t f;
		memcpy(&f, sa.data(), 2);
		std::string sa2;
		bool full = f == AF_UNIX && !memchr(sa.data() + (sa[2] ? 2 : 3), 0, sizeof(struct sockaddr_un) - (sa[2] ? 2 : 3));
		bool at = f == AF_UNIX && sa[2] == '@';
		if (full) {
			LABEL("fills the whole of sun_path");
			std::string all(sa.data() + 2, sizeof(struct sockaddr_un) - 2);
			if (!all[0])
				all[0] = '@';
			CHECK(t == "unix:" + all, "not the whole path");
		}
		if ((f == AF_INET || f == AF_INET6 || f == AF_UNIX) && !full && !at) {
			CHECK(parse(t, sizeof(struct sockaddr_storage), sa2) == 0, "not parsed");
			Addr b;
			b.family = f;
			if (f == AF_INET) {
				b.port = ntohs(((struct sockaddr_in *)sa.data())->sin_port);
				memcpy(b.ip, &((struct sockaddr_in *)sa.data())->sin_addr, 4);
			} else if (f == AF_INET6) {
				b.port = ntohs(((struct sockaddr_in6 *)sa.data())->sin6_port);
				memcpy(b.ip, &((struct sockaddr_in6 *)sa.data())->sin6_addr, 16);
				// the scope is only written when it means something
				b.scope = ((struct sockaddr_in6 *)sa2.data())->sin6_scope_id;
			} else {
				b.path = sun_string(((struct sockaddr_un *)sa.data())->sun_path);
			}
			std::string why;
			CHECK(same_addr(b, sa2.data(), (uint32_t)sa2.size(), why), "parses to another address: %s", why.c_str());
		}
	}
	mc.verify();
}

PBT_TARGET(c25_real, "pomp_addr_get_real_addr with and without PRODUCT_ROOT_CFG; non-trivial: a unix path with it", 1)
{
	MemClean mc;
	Addr a;
	bool canonical;
	std::string s = gen_ok(g, a, canonical), root;
	bool set = g.flip();
	if (set) {
		root = g.flip() ? "/r" : g.flip() ? "" : std::string(g.size(3000), 'r');
		setenv("PRODUCT_ROOT_CFG", root.c_str(), 1);
	} else {
		unsetenv("PRODUCT_ROOT_CFG");
	}
	note("%s, root '%s'", s.c_str(), root.c_str());
	char *dst = nullptr;
	int r = pomp_addr_get_real_addr(s.c_str(), &dst);
	CHECK(r == 0 && dst, "error %d", r);
	std::string want = s;
	if (set && s.compare(0, 5, "unix:") == 0 && s[5] != '@') {
		want = "unix:" + root + s.substr(5);
		nontrivial();
	}
	CHECK(want == dst, "'%s'", dst);
	vf_free(dst);
	CHECK(pomp_addr_get_real_addr(nullptr, &dst) == -EINVAL && pomp_addr_get_real_addr("inet:1", nullptr) == -EINVAL, "NULL");
	unsetenv("PRODUCT_ROOT_CFG");
	mc.verify();
}
