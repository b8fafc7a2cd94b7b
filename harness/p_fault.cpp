// C19: failures of memory and system calls are reported and leave everything usable.
#include "net.hpp"
#include <fcntl.h>
#include <sys/eventfd.h>
#include <sys/ioctl.h>
#include <sys/stat.h>
extern "C" {
struct pomp_prot;
struct pomp_prot *pomp_prot_new(void);
int pomp_prot_destroy(struct pomp_prot *prot);
int pomp_prot_decode_msg(struct pomp_prot *prot, const void *buf, size_t len, struct pomp_msg **msg);
int pomp_prot_release_msg(struct pomp_prot *prot, struct pomp_msg *msg);
}
using namespace net;

namespace {
#define BIT(c) (1ul << (c))
// failures chosen for what runs while it exists
struct Fault {
	bool armed = false;
	long a0 = 0, c0 = 0;
	std::string what = "none";
	// odds: n out of 4 of being armed; mask: classes of calls that may fail
	void arm(Gen &g, unsigned odds, unsigned long mask, unsigned depth)
	{
		a0 = vf_alloc_failed;
		c0 = vf_call_failed;
		if (!g.chance(odds, 4))
			return;
		armed = true;
		unsigned k = g.weighted({4, mask ? 4u : 0u, mask ? 1u : 0u});
		char b[80];
		what.clear();
		if (k != 1) {
			vf_alloc_fail_at = vf_allocs + 1 + (long)g.below(depth);
			vf_alloc_fail_all = g.chance(1, 3);
			snprintf(b, sizeof(b), "allocation +%ld%s ", vf_alloc_fail_at - vf_allocs, vf_alloc_fail_all ? " and all after" : "");
			what += b;
		}
		if (k != 0) {
			std::vector<int> cl;
			for (int i = 0; i < VF_NCALLS; i++)
				if (mask & BIT(i))
					cl.push_back(i);
			unsigned long m = mask;
			if (g.flip()) {
				m = BIT(cl[g.below(cl.size())]);
				if (g.flip())
					m |= BIT(cl[g.below(cl.size())]);
			}
			vf_call_mask = m;
			vf_call_fail_at = vf_calls + 1 + (long)g.below(depth);
			vf_call_fail_all = g.chance(1, 3);
			snprintf(b, sizeof(b), "call +%ld of classes %#lx%s", vf_call_fail_at - vf_calls, m, vf_call_fail_all ? " and all after" : "");
			what += b;
		}
	}
	bool hit() const { return vf_alloc_failed > a0 || vf_call_failed > c0; }
	// ends it; true when something failed
	bool off()
	{
		bool h = armed && hit();
		vf_alloc_fail_at = 0;
		vf_alloc_fail_all = 0;
		vf_call_mask = 0;
		vf_call_fail_at = 0;
		vf_call_fail_all = 0;
		armed = false;
		return h;
	}
	~Fault() { off(); }
};
// the call may fail only when something was made to fail, then leaves no trace and
// works when tried again
unsigned failures, survived;
template <class F> int faulty(Gen &g, const char *what, unsigned long mask, unsigned depth, F call, bool repeat = true)
{
	Fault f;
	f.arm(g, 3, mask, depth);
	MemClean mc;
	int nfds = f.armed ? vf_count_fds() : 0;
	int r = call();
	bool hit = f.off();
	if (r < 0) {
		CHECK(hit, "%s: error %d although nothing failed", what, r);
		note("  %s -> %d (%s, class %d)", what, r, f.what.c_str(), vf_call_last_failed);
		failures++;
		CHECK(vf_count_fds() == nfds, "%s failed (%d): %d descriptor(s) left", what, r, vf_count_fds() - nfds);
		if (repeat) {
			r = call();
			CHECK(r >= 0, "%s: error %d when tried again after a failure", what, r);
		}
	} else if (hit) {
		survived++;
	}
	return r;
}
template <class T, class F> T *faulty_new(Gen &g, const char *what, unsigned long mask, unsigned depth, F make)
{
	Fault f;
	f.arm(g, 3, mask, depth);
	Clean cl;
	T *p = make();
	bool hit = f.off();
	if (!p) {
		CHECK(hit, "%s: NULL although nothing failed", what);
		note("  %s -> NULL (%s)", what, f.what.c_str());
		failures++;
		cl.verify(what);
		p = make();
		CHECK(p, "%s: NULL when tried again after a failure", what);
	} else if (hit) {
		survived++;
	}
	return p;
}
std::string buf_bytes(const struct pomp_buffer *b)
{
	const void *p = NULL;
	size_t n = 0;
	CHECK(pomp_buffer_get_cdata(b, &p, &n, NULL) == 0, "get_cdata");
	return n ? std::string((const char *)p, n) : std::string();
}
bool same_file(int a, int b)
{
	struct stat x, y;
	return fstat(a, &x) == 0 && fstat(b, &y) == 0 && x.st_ino == y.st_ino && x.st_dev == y.st_dev;
}
struct Src {
	int fd;
	Src()
	{
		fd = open("/dev/null", O_RDWR | O_CLOEXEC);
		CHECK(fd >= 0, "open");
		vf_protected[fd] = 1;
	}
	~Src()
	{
		vf_protected[fd] = 0;
		close(fd);
	}
};

// ------------------------------------------------------------ data
// decoded arguments; T_FD: checked against the source
void read_all(Gen &g, const struct pomp_msg *m, const std::vector<Arg> &args, int src, bool faults)
{
	struct pomp_decoder *d = faulty_new<struct pomp_decoder>(g, "decoder_new", 0, 1, [] { return pomp_decoder_new(); });
	CHECK(pomp_decoder_init(d, m) == 0, "decoder_init");
	for (size_t i = 0; i < args.size(); i++) {
		const Arg &a = args[i];
		Arg b;
		bool copy = g.flip();
		int r = faults ? faulty(g, "typed read", 0, 2, [&] { MemClean mc; int q = dec_typed(d, a.ty, copy, b); mc.verify("typed read"); return q; })
			       : dec_typed(d, a.ty, copy, b);
		CHECK(r == 0, "argument %zu not read: error %d", i, r);
		if (a.ty == T_FD)
			CHECK((int)b.u >= 0 && (int)b.u != src && same_file((int)b.u, src), "argument %zu: descriptor %d is not a copy of the one written", i, (int)b.u);
		else
			CHECK(same(a, b), "argument %zu: %s read, %s written", i, show(b).c_str(), show(a).c_str());
	}
	uint8_t x;
	CHECK(pomp_decoder_read_u8(d, &x) < 0, "more arguments than written");
	pomp_decoder_destroy(d);
}
// what follows the header, which is written at the end
std::string args_of(const struct pomp_msg *m)
{
	std::string b = msg_bytes(m);
	return b.size() > 12 ? b.substr(12) : std::string();
}
std::string masked(std::string b, const std::vector<Arg> &args)
{
	// values of the descriptors
	size_t pos = 12;
	for (auto &a : args) {
		std::string o;
		ref::arg(o, a);
		if (a.ty == T_FD)
			for (size_t i = 1; i < o.size() && pos + i < b.size(); i++)
				b[pos + i] = 0;
		pos += o.size();
	}
	return b;
}
} // namespace

PBT_TARGET(c19_data, "messages written, copied, printed, read and parsed from a stream, and buffers grown, while allocations and duplications of descriptors "
	"fail, each operation that fails being tried again; non-trivial: at least 2 failures reported", 4)
{
	Src src;
	Clean cl;
	failures = survived = 0;
	unsigned rounds = 1 + (unsigned)g.below(3);
	for (unsigned r0 = 0; r0 < rounds; r0++) {
		std::vector<Arg> args = gen_args(g, 12);
		unsigned nfd = g.chance(1, 3) ? 1 + (unsigned)g.below(4) : 0;
		for (unsigned i = 0; i < nfd; i++) {
			Arg a;
			a.ty = T_FD;
			args.insert(args.begin() + (long)g.below(args.size() + 1), a);
		}
		uint32_t id = (uint32_t)g.integer(32);
		std::string want = ref::message(id, args);
		// typed writes
		struct pomp_msg *m = faulty_new<struct pomp_msg>(g, "msg_new", 0, 2, [] { return pomp_msg_new(); });
		faulty(g, "msg_init", 0, 2, [&] {
			MemClean mc;
			int r = pomp_msg_init(m, id);
			if (r < 0)
				mc.verify("msg_init");
			return r;
		});
		struct pomp_encoder *e = faulty_new<struct pomp_encoder>(g, "encoder_new", 0, 1, [] { return pomp_encoder_new(); });
		CHECK(pomp_encoder_init(e, m) == 0, "encoder_init");
		note("typed: %s", show(args).c_str());
		for (auto &a : args) {
			std::string before = args_of(m);
			Arg w = a;
			if (a.ty == T_FD)
				w.u = (uint64_t)src.fd;
			unsigned tries = 0;
			faulty(g, "typed write", BIT(VF_DUP), 3, [&] {
				int r = enc_typed(e, w);
				if (r < 0)
					CHECK(args_of(m) == before, "a write that failed (%d) changed the message: %zu bytes of arguments, %zu before", r, args_of(m).size(), before.size());
				tries++;
				return r;
			});
		}
		faulty(g, "finish", 0, 2, [&] { return pomp_msg_finish(m); });
		CHECK(masked(msg_bytes(m), args) == want, "message written with failures differs from the one expected: %s, expected %s",
		      hex(msg_bytes(m).data(), msg_bytes(m).size()).c_str(), hex(want.data(), want.size()).c_str());
		CHECK(pomp_encoder_destroy(e) == 0, "encoder_destroy");
		// copies
		struct pomp_msg *c = faulty_new<struct pomp_msg>(g, "msg_new_copy", BIT(VF_DUP), 5, [&] { return pomp_msg_new_copy(m); });
		CHECK(masked(msg_bytes(c), args) == want && pomp_msg_get_id(c) == id, "copy of a message differs");
		struct pomp_buffer *b = faulty_new<struct pomp_buffer>(g, "buffer_new_copy", BIT(VF_DUP), 5, [&] { return pomp_buffer_new_copy(pomp_msg_get_buffer(m)); });
		CHECK(masked(buf_bytes(b), args) == want, "copy of a buffer differs");
		struct pomp_msg *wb = faulty_new<struct pomp_msg>(g, "msg_new_with_buffer", 0, 3, [&] { return pomp_msg_new_with_buffer(b); });
		read_all(g, c, args, src.fd, true);
		read_all(g, wb, args, src.fd, true);
		// printed
		{
			std::vector<Arg> v = args;
			for (auto &a : v)
				if (a.ty == T_FD)
					a.u = 0;
			char *s = NULL;
			std::string first;
			faulty(g, "adump", 0, 6, [&] {
				s = (char *)0x10;
				MemClean mc;
				int r = pomp_msg_adump(m, &s);
				if (r < 0) {
					CHECK(s == NULL || s == (char *)0x10, "adump failed and returned a string");
					mc.verify("adump");
				}
				return r;
			});
			first = s;
			vf_free(s);
			if (nfd == 0)
				CHECK(first == ref::dump(id, args), "adump: %s, expected %s", first.c_str(), ref::dump(id, args).c_str());
			else
				CHECK(first.size() >= ref::dump(id, v).size(), "adump: truncated: %s", first.c_str());
			std::vector<char> blk(first.size() + 64, '?');
			faulty(g, "dump", 0, 3, [&] { return pomp_msg_dump(m, blk.data(), (uint32_t)blk.size()); });
			CHECK(std::string(blk.data()) == first, "dump: %s, expected %s", blk.data(), first.c_str());
		}
		// read by a format
		if (args.size() < 12) {
			unsigned nstr = 0;
			std::vector<int> ty;
			for (auto &a : args) {
				ty.push_back(a.ty);
				nstr += a.ty == T_STR;
			}
			Reader rd(g, ty);
			Regs rg(rd.slots(), 4);
			if (rg.fits) {
				faulty(g, "formatted read", 0, nstr + 2, [&] {
					MemClean mc;
					int r = vcall2(pomp_msg_read, m, rd.fmt.c_str(), rg);
					if (r < 0)
						mc.verify("formatted read");
					return r;
				});
				for (size_t i = 0; i < args.size(); i++) {
					Arg x = rd.get(i);
					CHECK(args[i].ty == T_FD || same(x, args[i]), "formatted read: argument %zu: %s, expected %s", i, show(x).c_str(), show(args[i]).c_str());
				}
			}
		}
		// addresses
		if (g.chance(1, 2)) {
			static const char *const strs[] = {"inet:127.0.0.1:4000", "inet6:::1:65535", "inet6:fe80::1%lo:1", "unix:/tmp/some/file", "unix:@abstract", "unix:x"};
			std::string str = strs[g.below(6)];
			struct sockaddr_storage ss, s1;
			memset(&ss, 0, sizeof(ss));
			memset(&s1, 0, sizeof(s1));
			uint32_t l = sizeof(ss), l1 = sizeof(s1);
			int r1 = pomp_addr_parse(str.c_str(), (struct sockaddr *)&s1, &l1);
			if (r1 == 0) {
				faulty(g, "addr_parse", 0, 2, [&] {
					MemClean mc;
					l = sizeof(ss);
					memset(&ss, 0, sizeof(ss));
					int r = pomp_addr_parse(str.c_str(), (struct sockaddr *)&ss, &l);
					mc.verify("addr_parse");
					return r;
				});
				CHECK(l == l1 && memcmp(&ss, &s1, l) == 0, "addr_parse of %s: another address after a failure", str.c_str());
			}
			bool cfg = g.flip();
			if (cfg)
				setenv("PRODUCT_ROOT_CFG", "/some/root", 1);
			char *real = NULL;
			faulty(g, "addr_get_real_addr", 0, 2, [&] {
				MemClean mc;
				real = NULL;
				int r = pomp_addr_get_real_addr(str.c_str(), &real);
				if (r < 0)
					mc.verify("addr_get_real_addr");
				return r;
			});
			unsetenv("PRODUCT_ROOT_CFG");
			std::string exp = cfg && str.compare(0, 5, "unix:") == 0 && str[5] != '@' ? "unix:/some/root" + str.substr(5) : str;
			CHECK(real && exp == real, "addr_get_real_addr of %s: %s, expected %s", str.c_str(), real ? real : "NULL", exp.c_str());
			vf_free(real);
		}
		pomp_msg_destroy(m);
		pomp_msg_destroy(wb);
		pomp_buffer_unref(b);
		// one shot
		{
			std::vector<Arg> v;
			for (auto &a : args) {
				Arg w = a;
				if (a.ty == T_FD)
					w.u = (uint64_t)src.fd;
				v.push_back(w);
			}
			std::string fmt;
			for (auto &a : v)
				fmt += spec(g, a.ty, false);
			Regs rg(write_slots(g, v), 3);
			if (rg.fits) {
				pomp_msg_clear(c);
				note("one shot: \"%s\"", fmt.c_str());
				faulty(g, "formatted write", BIT(VF_DUP), 5, [&] {
					MemClean mc;
					int r = vcall3(pomp_msg_write, c, id, fmt.c_str(), rg);
					if (r < 0) {
						CHECK(pomp_msg_clear(c) == 0, "msg_clear after a write that failed");
						mc.verify("formatted write");
					}
					return r;
				});
				CHECK(masked(msg_bytes(c), args) == want, "formatted write differs");
			}
		}
		pomp_msg_destroy(c);
		// buffers
		{
			struct pomp_buffer *x = faulty_new<struct pomp_buffer>(g, "buffer_new", 0, 2, [&] { return pomp_buffer_new(g.size(600)); });
			std::string data = buf_bytes(x);
			unsigned n = (unsigned)g.below(8);
			for (unsigned i = 0; i < n; i++) {
				std::string add = g.bytes(g.size(900));
				size_t cap = 0;
				switch (g.below(5)) {
				case 0:
				case 1:
					faulty(g, "append_data", 0, 1, [&] {
						int r = pomp_buffer_append_data(x, add.data(), add.size());
						CHECK(r == 0 || buf_bytes(x) == data, "append that failed changed the buffer");
						return r;
					});
					data += add;
					break;
				case 2:
					faulty(g, "append_buffer", 0, 1, [&] {
						int r = pomp_buffer_append_buffer(x, x);
						CHECK(r == 0 || buf_bytes(x) == data, "append that failed changed the buffer");
						return r;
					});
					data += data;
					break;
				case 3: {
					size_t c2 = data.size() + g.size(3000);
					faulty(g, "set_capacity", 0, 1, [&] { return pomp_buffer_set_capacity(x, c2); });
					pomp_buffer_get_cdata(x, NULL, NULL, &cap);
					CHECK(cap == c2, "capacity %zu, expected %zu", cap, c2);
					break;
				}
				default: {
					size_t c2 = g.size(3000);
					faulty(g, "ensure_capacity", 0, 1, [&] { return pomp_buffer_ensure_capacity(x, c2); });
					pomp_buffer_get_cdata(x, NULL, NULL, &cap);
					CHECK(cap >= c2, "capacity %zu, at least %zu expected", cap, c2);
					break;
				}
				}
				CHECK(buf_bytes(x) == data, "buffer differs after operation that failed and was tried again");
				if (data.size() > 20000)
					break;
			}
			pomp_buffer_unref(x);
		}
	}
	// stream of messages: one whose memory is refused is lost, alone
	{
		struct pomp_prot *prot = faulty_new<struct pomp_prot>(g, "prot_new", 0, 1, [] { return pomp_prot_new(); });
		unsigned n = (unsigned)g.below(8), got = 0, next = 0;
		std::vector<std::string> s;
		std::vector<int> may(n, 0); // memory was refused while it was parsed
		for (unsigned i = 0; i < n; i++) {
			std::string p = g.bytes(g.size(2000));
			for (auto &ch : p)
				if (ch == 'P')
					ch = 'p';
			s.push_back(ref::frame(1000 + i, p));
		}
		for (unsigned i = 0; i < n; i++) {
			size_t pos = 0;
			while (pos < s[i].size()) {
				size_t chunk = std::min(s[i].size() - pos, 1 + g.size(g.flip() ? 15 : 3000));
				size_t off = 0;
				while (off < chunk) {
					struct pomp_msg *msg = NULL;
					Fault f;
					f.arm(g, 1, 0, 3);
					int r = pomp_prot_decode_msg(prot, s[i].data() + pos + off, chunk - off, &msg);
					bool hit = f.off();
					if (hit) {
						may[i] = 1;
						failures++;
						note("  stream: message %u: memory refused", i);
					}
					CHECK(r >= 1 && (size_t)r <= chunk - off, "stream: %d bytes consumed of %zu", r, chunk - off);
					off += (size_t)r;
					if (!msg)
						continue;
					CHECK(next <= i && pomp_msg_get_id(msg) == 1000 + i && msg_bytes(msg) == s[i], "stream: message %u differs from the bytes of the stream", i);
					next = i + 1;
					got++;
					if (g.flip())
						CHECK(pomp_prot_release_msg(prot, msg) == 0, "release");
					else
						pomp_msg_destroy(msg);
				}
				pos += chunk;
			}
			CHECK(next == i + 1 || may[i], "stream: message %u lost although its memory was available", i);
		}
		pomp_prot_destroy(prot);
	}
	if (failures >= 2)
		nontrivial();
	if (survived)
		LABEL("failure without effect");
	cl.verify();
}

// ------------------------------------------------------------ loop and its objects
namespace {
struct Pool { // descriptors of the harness
	int fd[6];
	Pool()
	{
		for (int &f : fd) {
			f = eventfd(0, EFD_NONBLOCK | EFD_CLOEXEC);
			CHECK(f >= 0, "eventfd");
			vf_protected[f] = 1;
		}
	}
	~Pool()
	{
		for (int f : fd) {
			vf_protected[f] = 0;
			close(f);
		}
	}
};
const unsigned long OBJCALLS = BIT(VF_EPOLL_CREATE) | BIT(VF_EPOLL_CTL) | BIT(VF_EVENTFD) | BIT(VF_PIPE) | BIT(VF_TIMERFD_CREATE) |
	BIT(VF_TIMERFD_SETTIME) | BIT(VF_TIMER_CREATE) | BIT(VF_TIMER_SETTIME) | BIT(VF_FCNTL) | BIT(VF_PTHREAD_CREATE);
struct OFd {
	bool reg = false, readable = false;
	uint32_t events = 0;
	unsigned calls = 0;
	uint32_t got = 0;
};
struct OEvt {
	struct pomp_evt *e = nullptr;
	bool attached = false, sig = false;
	unsigned calls = 0;
};
struct OTimer {
	struct pomp_timer *t = nullptr;
	uint64_t at = 0;  // 0: not armed
	uint32_t period = 0;
	unsigned calls = 0;
};
struct Objs {
	struct pomp_loop *loop = nullptr;
	OFd fds[6];
	OEvt ev[3];
	OTimer tm[3];
	bool wd = false;
	std::deque<unsigned> idle;
	unsigned nidle = 0;
};
struct IdleArg {
	Objs *o;
	unsigned n;
};
void o_fd_cb(int, uint32_t revents, void *ud)
{
	OFd *f = (OFd *)ud;
	f->calls++;
	f->got |= revents;
}
void o_evt_cb(struct pomp_evt *, void *ud) { ((OEvt *)ud)->calls++; }
void o_timer_cb(struct pomp_timer *, void *ud) { ((OTimer *)ud)->calls++; }
void o_idle_cb(void *ud)
{
	IdleArg *a = (IdleArg *)ud;
	CHECK(!a->o->idle.empty() && a->o->idle.front() == a->n, "idle function %u called out of turn", a->n);
	a->o->idle.pop_front();
	delete a;
}
void o_wd_cb(struct pomp_loop *, void *) { fail("watchdog fired"); }
} // namespace

PBT_TARGET(c19_objs, "a loop with descriptors, events, timers, idle functions and a watchdog, created, changed and destroyed while allocations and system "
	"calls fail, each call that fails being tried again, and what each wait calls compared with the registrations; non-trivial: at least 2 failures "
	"reported and a wait that called something", 3)
{
	Pool pool;
	Clean cl;
	Impls impls;
	failures = survived = 0;
	bool poll = g.flip(), pevt = g.flip(), ptimer = g.chance(1, 3);
	CHECK(set_loop_impl(poll), "impl");
	if (!set_evt_impl(pevt))
		set_evt_impl(false);
	if (!set_timer_impl(ptimer))
		set_timer_impl(false);
	bool usewd = g.chance(1, 8);
	vf_virtual_time = !usewd;
	note("%s loop, %s events, %s timers%s", poll ? "poll" : "epoll", pevt ? "pipe" : "eventfd", ptimer ? "posix" : "timerfd", usewd ? ", watchdog" : "");
	Objs o;
	o.loop = faulty_new<struct pomp_loop>(g, "loop_new", OBJCALLS, 6, [] { return pomp_loop_new(); });
	unsigned called = 0;
	auto wait = [&] {
		for (auto &f : o.fds)
			f.calls = f.got = 0;
		for (auto &e : o.ev)
			e.calls = 0;
		for (auto &t : o.tm)
			t.calls = 0;
		size_t nidle = o.idle.size();
		bool any = nidle > 0;
		for (auto &f : o.fds)
			any = any || (f.reg && ((f.readable && (f.events & POMP_FD_EVENT_IN)) || (f.events & POMP_FD_EVENT_OUT)));
		for (auto &e : o.ev)
			any = any || (e.attached && e.sig);
		for (auto &t : o.tm)
			any = any || (t.t && t.at && t.at <= vf_now_ns);
		int r = pomp_loop_wait_and_process(o.loop, 0);
		CHECK(r == 0 || (r == -ETIMEDOUT && !any), "wait: error %d", r);
		for (size_t i = 0; i < 6; i++) {
			OFd &f = o.fds[i];
			uint32_t w = !f.reg ? 0 : (f.readable ? f.events & POMP_FD_EVENT_IN : 0) | (f.events & POMP_FD_EVENT_OUT);
			CHECK(f.calls == (w != 0) && f.got == w, "descriptor %zu: called %u time(s) with %#x, expected %#x", i, f.calls, f.got, w);
			called += f.calls;
		}
		for (size_t i = 0; i < 3; i++) {
			OEvt &e = o.ev[i];
			CHECK(e.calls == (e.attached && e.sig), "event %zu: called %u time(s), expected %d", i, e.calls, e.attached && e.sig);
			if (e.attached)
				e.sig = false;
			OTimer &t = o.tm[i];
			bool due = t.t && t.at && t.at <= vf_now_ns;
			CHECK(t.calls == due, "timer %zu: called %u time(s), expected %d", i, t.calls, due);
			if (due) {
				if (!t.period)
					t.at = 0;
				else
					while (t.at <= vf_now_ns)
						t.at += (uint64_t)t.period * 1000000;
			}
			called += e.calls + t.calls;
		}
		CHECK(o.idle.empty() || o.idle.size() < nidle, "no idle function called, %zu wait for it", o.idle.size());
	};
	unsigned steps = 0;
	while (g.more(25) && steps++ < 80) {
		size_t i = (size_t)g.below(6), j = (size_t)g.below(3);
		OFd &f = o.fds[i];
		OEvt &e = o.ev[j];
		OTimer &t = o.tm[j];
		switch (g.weighted({6, 4, 4, 4, 3, 3, usewd ? 0u : 5u, 2, usewd ? 3u : 0u, 8})) {
		case 0: {
			uint32_t ev = g.flip() ? POMP_FD_EVENT_IN : POMP_FD_EVENT_IN | POMP_FD_EVENT_OUT;
			if (!f.reg) {
				note("add %zu %#x", i, ev);
				faulty(g, "loop_add", OBJCALLS, 2, [&] {
					MemClean mc;
					int r = pomp_loop_add(o.loop, pool.fd[i], ev, &o_fd_cb, &f);
					if (r < 0) {
						CHECK(!pomp_loop_has_fd(o.loop, pool.fd[i]), "a registration that failed is there");
						mc.verify("loop_add");
					}
					return r;
				});
				f.reg = true;
				f.events = ev;
			} else {
				note("update %zu %#x", i, ev);
				faulty(g, "loop_update", OBJCALLS, 2, [&] {
					int r = g.flip() ? pomp_loop_update(o.loop, pool.fd[i], ev)
							 : pomp_loop_update2(o.loop, pool.fd[i], ev, ~ev & (POMP_FD_EVENT_IN | POMP_FD_EVENT_OUT));
					if (r < 0 && g.flip())
						wait(); // as before it
					return r;
				});
				f.events = ev;
			}
			break;
		}
		case 1:
			if (f.reg) {
				note("remove %zu", i);
				faulty(g, "loop_remove", OBJCALLS, 2, [&] { return pomp_loop_remove(o.loop, pool.fd[i]); });
				f.reg = false;
			}
			break;
		case 2: {
			uint64_t one = 1;
			if (f.readable)
				CHECK(read(pool.fd[i], &one, 8) == 8, "read");
			else
				CHECK(write(pool.fd[i], &one, 8) == 8, "write");
			f.readable = !f.readable;
			break;
		}
		case 3:
			if (!e.e) {
				e.e = faulty_new<struct pomp_evt>(g, "evt_new", OBJCALLS, 3, [] { return pomp_evt_new(); });
				e.attached = e.sig = false;
			} else if (!e.attached) {
				note("attach event %zu", j);
				faulty(g, "evt_attach_to_loop", OBJCALLS, 2, [&] {
					int r = pomp_evt_attach_to_loop(e.e, o.loop, &o_evt_cb, &e);
					CHECK(pomp_evt_is_attached(e.e, o.loop) == (r == 0), "is_attached is not %d", r == 0);
					return r;
				});
				e.attached = true;
			} else if (g.flip()) {
				note("detach event %zu", j);
				faulty(g, "evt_detach_from_loop", OBJCALLS, 2, [&] { return pomp_evt_detach_from_loop(e.e, o.loop); });
				e.attached = false;
				if (g.flip()) {
					CHECK(pomp_evt_destroy(e.e) == 0, "evt_destroy");
					e.e = nullptr;
				}
			}
			break;
		case 4:
			if (e.e) {
				note("signal event %zu", j);
				faulty(g, "evt_signal", OBJCALLS, 1, [&] { return pomp_evt_signal(e.e); });
				e.sig = true;
			}
			break;
		case 5: {
			IdleArg *a = new IdleArg{&o, o.nidle++};
			void *cookie = g.flip() ? &o : nullptr;
			faulty(g, "idle_add", OBJCALLS, 2, [&] {
				return cookie ? pomp_loop_idle_add_with_cookie(o.loop, &o_idle_cb, a, cookie) : pomp_loop_idle_add(o.loop, &o_idle_cb, a);
			});
			o.idle.push_back(a->n);
			break;
		}
		case 6:
			if (!t.t) {
				t.t = faulty_new<struct pomp_timer>(g, "timer_new", OBJCALLS, 5, [&] { return pomp_timer_new(o.loop, &o_timer_cb, &t); });
				t.at = 0;
			} else if (g.chance(1, 6)) {
				CHECK(pomp_timer_destroy(t.t) == 0, "timer_destroy");
				t.t = nullptr;
			} else if (g.chance(1, 5)) {
				note("clear timer %zu", j);
				faulty(g, "timer_clear", OBJCALLS, 1, [&] { return pomp_timer_clear(t.t); });
				t.at = 0;
			} else {
				uint32_t d = 1 + (uint32_t)g.below(50), p = g.chance(1, 3) ? 1 + (uint32_t)g.below(50) : 0;
				note("timer %zu: %u ms, period %u ms", j, d, p);
				faulty(g, "timer_set", OBJCALLS, 1, [&] { return p ? pomp_timer_set_periodic(t.t, d, p) : pomp_timer_set(t.t, d); });
				t.at = vf_now_ns + (uint64_t)d * 1000000;
				t.period = p;
			}
			break;
		case 7:
			faulty(g, "wakeup", OBJCALLS, 1, [&] { return pomp_loop_wakeup(o.loop); });
			{
				// it makes the wait return, whatever is ready
				wait();
			}
			break;
		case 8:
			if (!o.wd) {
				note("watchdog on");
				faulty(g, "watchdog_enable", OBJCALLS, 1, [&] { return pomp_loop_watchdog_enable(o.loop, 100000, &o_wd_cb, &o); });
			} else {
				note("watchdog off");
				CHECK(pomp_loop_watchdog_disable(o.loop) == 0, "watchdog_disable");
			}
			o.wd = !o.wd;
			break;
		default:
			if (!usewd)
				vf_advance((uint64_t)g.below(40) * 1000000);
			wait();
		}
	}
	do
		wait();
	while (!o.idle.empty());
	for (size_t i = 0; i < 6; i++)
		if (o.fds[i].reg) {
			CHECK(pomp_loop_destroy(o.loop) == -EBUSY, "loop destroyed with a descriptor registered");
			CHECK(pomp_loop_remove(o.loop, pool.fd[i]) == 0, "loop_remove");
		}
	for (size_t i = 0; i < 3; i++) {
		if (o.ev[i].attached)
			CHECK(pomp_evt_detach_from_loop(o.ev[i].e, o.loop) == 0, "detach");
		if (o.ev[i].e)
			CHECK(pomp_evt_destroy(o.ev[i].e) == 0, "evt_destroy");
		if (o.tm[i].t)
			CHECK(pomp_timer_destroy(o.tm[i].t) == 0, "timer_destroy");
	}
	CHECK(pomp_loop_destroy(o.loop) == 0, "loop_destroy");
	if (failures >= 2 && called)
		nontrivial();
	if (survived)
		LABEL("failure without effect");
	CHECK(vf_ptimers == 0, "%ld posix timer(s) left", vf_ptimers);
	cl.verify();
}

// ------------------------------------------------------------ contexts
namespace {
const unsigned long CTXCALLS = BIT(VF_SOCKET) | BIT(VF_BIND) | BIT(VF_LISTEN) | BIT(VF_ACCEPT) | BIT(VF_CONNECT) | BIT(VF_GETSOCKNAME) |
	BIT(VF_GETPEERNAME) | BIT(VF_GETSOCKOPT) | BIT(VF_SETSOCKOPT) | BIT(VF_FCNTL) | BIT(VF_EPOLL_CTL) | BIT(VF_READ) | BIT(VF_WRITE) |
	BIT(VF_DUP) | BIT(VF_CHMOD);

struct Run {
	Gen &g;
	World w;
	Tr t;
	Fault f;
	bool window = false, dirty = false;
	unsigned seq = 0, inside = 0, windows = 0, hits = 0;
	std::vector<Addr> addrs;
	explicit Run(Gen &g_) : g(g_), w(g_) {}

	std::string payload(std::string *blobp)
	{
		// no 'P': what is left of a message that is lost is no message
		std::string b = blob(g, std::min<size_t>(gen_len(g), 9000));
		for (auto &c : b)
			if (c == 'P')
				c = 'p';
		*blobp = b;
		Arg x, y;
		x.ty = T_U8;
		x.u = 0;
		y.ty = T_BUF;
		y.s = b;
		return ref::message(++seq % 77 + 1, {x, y});
	}
	int start(Ctx *c, Ctx *srv)
	{
		int r;
		if (c->server)
			r = pomp_ctx_listen(c->p, c->addr.sa(), c->addr.len);
		else {
			c->addr = srv->addr;
			r = pomp_ctx_connect(c->p, c->addr.sa(), c->addr.len);
		}
		note("  %s%u: start -> %d", c->server ? "s" : "c", c->id, r);
		c->started = r == 0;
		if (r < 0) {
			CHECK(window && f.hit(), "start: error %d although nothing failed", r);
			CHECK(c->ends.empty(), "start failed with a connection");
		}
		return r;
	}
	void stop(Ctx *c)
	{
		note("  %s%u: stop", c->server ? "s" : "c", c->id);
		w.ending_all(c);
		bool later = c->depth > 0 && c->started;
		if (later)
			c->stopping = true;
		int r = pomp_ctx_stop(c->p);
		if (r < 0) {
			CHECK(window && f.hit(), "stop: error %d although nothing failed", r);
			c->stopping = false;
			return;
		}
		c->started = false;
		if (!later && !c->stopping)
			CHECK(c->ends.empty(), "%zu connection(s) not notified disconnected after the stop", c->ends.size());
	}
	void send(const EndP &e)
	{
		std::string b, m = payload(&b);
		int form = (int)g.below(3);
		struct pomp_msg *msg = nullptr;
		uint32_t id = seq % 77 + 1;
		if (form == 0) {
			Arg x, y;
			x.ty = T_U8;
			x.u = 0;
			y.ty = T_BUF;
			y.s = b;
			// not under failure
			long a = vf_alloc_fail_at;
			vf_alloc_fail_at = 0;
			msg = encode(id, {x, y});
			vf_alloc_fail_at = a ? std::max(a, vf_allocs + 1) : 0;
		}
		bool viactx = !e->c->server && form != 0;
		uint64_t w0 = e->written;
		int r = w.do_send(e, m, msg ? pomp_msg_get_buffer(msg) : nullptr, [&] {
			return msg ? pomp_conn_send_msg(e->conn, msg)
			     : viactx ? pomp_ctx_send(e->c->p, id, "%hhu%p%u", 0, b.data(), (unsigned)b.size())
				      : pomp_conn_send(e->conn, id, "%hhu%p%u", 0, b.data(), (unsigned)b.size());
		});
		if (r < 0) {
			CHECK((window && f.hit()) || e->ending || e->shut, "send: error %d although nothing failed", r);
			CHECK(e->written == w0, "a send that failed wrote %llu byte(s)", (unsigned long long)(e->written - w0));
			failures += window && f.hit();
		}
		note("  e%u: send %zu bytes -> %d", e->id, m.size(), r);
		if (msg)
			pomp_msg_destroy(msg);
	}
	void disconnect(const EndP &e)
	{
		w.ending(e);
		int r = pomp_conn_disconnect(e->conn);
		note("  e%u: disconnect -> %d", e->id, r);
		if (r < 0)
			CHECK((window && f.hit()) || e->ending, "disconnect: error %d", r);
		e->shut = true;
	}
	void taint()
	{
		for (auto &l : w.live)
			w.ending(l.second);
	}
	void act(bool in)
	{
		Ctx *c = w.ctxs[g.below(w.ctxs.size())].get();
		EndP e = pick_end(w);
		switch (g.weighted({4, 2, 8, 1, in ? 0u : 8u, in ? 0u : 3u, 1, 2})) {
		case 0:
			if (!c->started && !c->stopping && !in)
				start(c, w.ctxs[0].get());
			break;
		case 1:
			if (c->started && !c->stopping)
				stop(c);
			break;
		case 2:
			if (e)
				send(e);
			break;
		case 3:
			if (e && !e->shut)
				disconnect(e);
			break;
		case 4: {
			unsigned n = 1 + (unsigned)g.below(3);
			while (n--)
				wait(0);
			break;
		}
		case 5:
			vf_advance((uint64_t)g.below(5) * 1000000000);
			break;
		case 6:
			(void)pomp_ctx_set_read_buffer_len(c->p, 1 + gen_rdlen(g) % 9000);
			break;
		default:
			if (e && !e->shut) {
				int r = e->suspended ? pomp_conn_resume_read(e->conn) : pomp_conn_suspend_read(e->conn);
				if (r == 0)
					e->suspended = !e->suspended;
				else
					CHECK(window && f.hit(), "suspend/resume: error %d", r);
			}
		}
		if (!in)
			flush();
	}
	void wait(int ms)
	{
		w.wait(ms);
		if (window && f.hit())
			taint();
	}
	void flush()
	{
		for (auto &c : w.ctxs)
			if (c->stopping) {
				w.finish_stops();
				return;
			}
	}
	// everything started is connected, and messages go through
	void recovered()
	{
		Ctx *srv = w.ctxs[0].get();
		uint64_t end = mono_ns() + 15000000000ull;
		unsigned spins = 0;
		if (srv->started) {
			for (;;) {
				size_t want = 0;
				bool ok = true;
				for (auto &l : w.live) {
					End &e = *l.second;
					if (e.suspended && pomp_conn_resume_read(e.conn) == 0)
						e.suspended = false;
					if (e.shut || (e.peer && e.peer->shut))
						ok = false; // going away
					else if (e.ioerr) {
						disconnect(l.second);
						ok = false;
					} else if (!e.peer || !e.peer->up)
						ok = false;
				}
				for (auto &c : w.ctxs)
					if (!c->server && c->started) {
						want++;
						ok = ok && c->ends.size() == 1;
					}
				if (ok && srv->ends.size() == want)
					break;
				CHECK(mono_ns() < end, "no longer any failure, %zu client(s) started, %zu connection(s) on the server", want, srv->ends.size());
				if (++spins % 20 == 0 && vf_next_deadline() != UINT64_MAX && vf_next_deadline() > vf_now_ns)
					vf_advance(vf_next_deadline() - vf_now_ns);
				w.wait(spins < 40 ? 0 : 2);
			}
		}
		// what was in the pipes
		w.until([&] {
			for (auto &l : w.live)
				if (!l.second->reps.empty() || l.second->written < l.second->accepted)
					return false;
			return true;
		}, 3000);
		for (int i = 0; i < 4; i++)
			w.wait(i ? 1 : 0);
		w.until([&] {
			for (auto &l : w.live) {
				int n = 0;
				if (ioctl(l.second->fd, FIONREAD, &n) == 0 && n > 0)
					return false;
			}
			return true;
		}, 3000);
		w.wait(0);
		w.lossy = false;
		for (auto &l : w.live) {
			if (!srv->started)
				break;
			CHECK(l.second->reps.empty(), "e%u: %zu send(s) never reported", l.second->id, l.second->reps.size());
			CHECK(l.second->written == l.second->accepted, "e%u: %llu byte(s) accepted, %llu written", l.second->id,
			      (unsigned long long)l.second->accepted, (unsigned long long)l.second->written);
			if (dirty)
				l.second->sent.clear();
			l.second->ending = !srv->started;
		}
		w.ended.clear();
		dirty = false;
		std::vector<EndP> es;
		for (auto &c : w.ctxs)
			for (auto &e : c->ends)
				es.push_back(e);
		for (auto &e : es)
			for (unsigned k = 0; k < 2; k++)
				if (e->up && !e->ending)
					send(e);
		w.drain();
	}
};
} // namespace

PBT_TARGET(c19_ctx, "a server and clients started, stopped, connected and exchanging messages while allocations and system calls fail for a while; then everything "
	"started connects again, messages go through and all is released; non-trivial: a failure and a message received after it", 9, 60)
{
	Clean cl;
	failures = survived = 0;
	bool poll = g.flip();
	CHECK(set_loop_impl(poll), "impl");
	{
	Run r(g);
	World &w = r.w;
	w.withcb = w.reports = g.flip();
	r.t = (Tr)g.weighted({4, 2, 2});
	note("%s loop, %s%s", poll ? "poll" : "epoll", tr_names[r.t], w.withcb ? ", send reports" : "");
	w.loop = pomp_loop_new();
	CHECK(w.loop, "loop_new");
	vf_epoll_mod_ok = 1;
	static const int bufs[] = {0, 0, 2048, 5000};
	w.sndbuf = bufs[g.below(4)];
	unsigned ncli = 1 + (unsigned)g.below(3);
	for (unsigned i = 0; i <= ncli; i++) {
		Ctx *c = w.add_ctx(i == 0);
		if (i == 0)
			c->addr = make_addr(r.t, r.t == TCP4 ? pick_port(AF_INET) : 0);
	}
	w.hook = [&](Ev ev, EndP e, Ctx *c) {
		if (ev == CONNECTED && r.window)
			w.ending(e);
		// not from inside a report: when the memory of a report is refused, it is made at once, before
		// those of the sends made by the callback it interrupts
		if (r.window && ev != SOCK && ev != SENT && r.inside < 6 && !c->stopping && g.chance(1, 6)) {
			r.inside++;
			r.act(true);
		}
	};
	unsigned nw = 1 + (unsigned)g.below(4);
	bool before = g.flip();
	if (before) {
		for (auto &c : w.ctxs)
			CHECK(r.start(c.get(), w.ctxs[0].get()) == 0, "start");
		r.recovered();
	}
	for (unsigned k = 0; k < nw; k++) {
		// a period with failures
		r.window = w.lossy = w.sendfail = true;
		r.inside = 0;
		w.wr.gen(g, false, 40);
		w.rd.gen(g, true, 40);
		r.f.arm(g, 4, CTXCALLS & ~(poll ? BIT(VF_EPOLL_CTL) : 0ul), g.flip() ? 4 : 14);
		note("failures: %s", r.f.what.c_str());
		r.taint();
		unsigned n = 1 + (unsigned)g.below(12);
		for (unsigned i = 0; i < n; i++)
			r.act(false);
		bool hit = r.f.off();
		r.hits += hit;
		r.dirty = r.dirty || hit;
		r.window = w.sendfail = false;
		w.wr.budget = w.rd.budget = 0;
		r.flush();
		note("no more failures (%s)", hit ? "some happened" : "none happened");
		if (g.flip()) {
			r.recovered();
		}
	}
	// all stopped, started again, used
	if (g.flip()) {
		r.taint();
		for (auto &c : w.ctxs)
			if (c->started)
				r.stop(c.get());
		w.lossy = false;
		if (r.t == TCP4)
			w.ctxs[0]->addr = make_addr(r.t, pick_port(AF_INET));
	}
	for (auto &c : w.ctxs)
		if (!c->started)
			CHECK(r.start(c.get(), w.ctxs[0].get()) == 0, "start again");
		else if (!c->server && !(c->addr == w.ctxs[0]->addr))
			fail("harness: address");
	unsigned long d0 = w.delivered;
	r.recovered();
	CHECK(w.live.size() == 2 * (size_t)ncli, "%zu ends connected, expected %u", w.live.size(), 2 * ncli);
	if (r.hits >= 1 && w.delivered > d0)
		nontrivial();
	if (r.hits == 0)
		LABEL("no failure happened");
	w.finish();
	}
	cl.verify();
}

PBT_TARGET(c19_send, "messages sent over connections while allocations fail during the sends: those that are accepted are received, once and in order, and reported, "
	"those that are refused leave no byte; non-trivial: a send refused and one accepted after it", 2, 60)
{
	Clean cl;
	failures = survived = 0;
	bool poll = g.flip();
	CHECK(set_loop_impl(poll), "impl");
	{
	Run r(g);
	World &w = r.w;
	w.withcb = w.reports = g.flip();
	r.t = (Tr)g.weighted({4, 0, 2});
	w.loop = pomp_loop_new();
	CHECK(w.loop, "loop_new");
	static const int bufs[] = {0, 2048, 5000};
	w.sndbuf = bufs[g.below(3)];
	unsigned ncli = 1 + (unsigned)g.below(3);
	for (unsigned i = 0; i <= ncli; i++) {
		Ctx *c = w.add_ctx(i == 0);
		if (i == 0)
			w.listen(c, r.t);
		else
			w.connect(c, w.ctxs[0].get());
	}
	CHECK(w.until([&] { return w.live.size() == 2 * ncli; }), "clients not connected");
	w.sendfail = true;
	bool after = false;
	while (g.more(15)) {
		EndP e = pick_end(w);
		switch (g.weighted({6, 3, 2})) {
		case 0: {
			unsigned f0 = failures;
			r.f.arm(g, 2, 0, 5);
			r.window = true;
			r.send(e);
			r.f.off();
			r.window = false;
			if (failures == f0 && failures)
				after = true;
			break;
		}
		case 1:
			w.wait(0);
			break;
		default:
			w.wr.gen(g, false, 40);
			w.rd.gen(g, true, 40);
		}
	}
	w.sendfail = false;
	w.drain();
	if (failures && after)
		nontrivial();
	w.finish();
	}
	cl.verify();
}

// ------------------------------------------------------------ a context alone
namespace {
struct Solo {
	struct pomp_ctx *ctx = nullptr;
	bool stop_in_cb = false, in_window = false;
	unsigned socks = 0, conns = 0, ups = 0;
	std::vector<std::string> got;
};
void solo_event(struct pomp_ctx *, enum pomp_event ev, struct pomp_conn *, const struct pomp_msg *m, void *ud)
{
	Solo *s = (Solo *)ud;
	if (ev == POMP_EVENT_CONNECTED)
		s->conns++, s->ups++;
	else if (ev == POMP_EVENT_DISCONNECTED)
		s->conns--;
	else
		s->got.push_back(msg_bytes(m));
}
void solo_raw(struct pomp_ctx *, struct pomp_conn *, struct pomp_buffer *b, void *ud) { ((Solo *)ud)->got.push_back(buf_bytes(b)); }
void solo_sock(struct pomp_ctx *ctx, int fd, enum pomp_socket_kind, void *ud)
{
	Solo *s = (Solo *)ud;
	CHECK(fd >= 0, "socket callback without socket");
	s->socks++;
	if (s->stop_in_cb) {
		s->stop_in_cb = false;
		int r = pomp_ctx_stop(ctx);
		CHECK(r == 0 || s->in_window, "stop in the socket callback: %d", r);
	}
}
} // namespace

PBT_TARGET(c19_start, "a context with its own or a given loop made, bound, listening (with an access mode as well) or connecting, stopped, also from its socket callback, "
	"and datagrams sent and received, while allocations and system calls fail; each failure leaves the context stopped, with no descriptor, to be started again or "
	"destroyed, and what is started works once nothing fails any longer; non-trivial: at least 2 failures reported", 3, 60)
{
	Clean cl;
	failures = survived = 0;
	bool poll = g.flip();
	CHECK(set_loop_impl(poll), "impl");
	vf_virtual_time = 1;
	vf_epoll_mod_ok = 1;
	{
	Fault f;
	Solo s;
	struct pomp_loop *ext = nullptr, *loop = nullptr;
	const unsigned long newcalls = BIT(VF_EPOLL_CREATE) | BIT(VF_EPOLL_CTL) | BIT(VF_EVENTFD) | BIT(VF_PIPE) | BIT(VF_FCNTL) | BIT(VF_TIMERFD_CREATE) | BIT(VF_DUP);
	const unsigned long calls = CTXCALLS & ~(poll ? BIT(VF_EPOLL_CTL) : 0ul);
	bool own = g.flip(), raw = g.flip();
	if (!own) {
		ext = pomp_loop_new();
		CHECK(ext, "loop_new");
	}
	auto make = [&] {
		s.ctx = faulty_new<struct pomp_ctx>(g, own ? "ctx_new" : "ctx_new_with_loop", newcalls, 8, [&] {
			return own ? pomp_ctx_new(solo_event, &s) : pomp_ctx_new_with_loop(solo_event, &s, ext);
		});
		loop = own ? pomp_ctx_get_loop(s.ctx) : ext;
		CHECK(pomp_ctx_set_socket_cb(s.ctx, solo_sock) == 0, "set_socket_cb");
		if (raw)
			CHECK(pomp_ctx_set_raw(s.ctx, solo_raw) == 0, "set_raw");
	};
	make();
	auto pump = [&] {
		for (int i = 0; i < 50 && pomp_loop_wait_and_process(loop, 0) == 0; i++)
			;
	};
	note("%s loop, %s%s", poll ? "poll" : "epoll", own ? "own loop" : "given loop", raw ? ", raw" : "");
	unsigned n = 2 + (unsigned)g.below(5);
	for (unsigned i = 0; i < n; i++) {
		enum { DG, SERVER, MODE, CLIENT };
		unsigned kind = (unsigned)g.weighted({4, 2, 2, 2});
		// the file of a datagram socket is left to the application: bound again it is in use
		Tr t = kind == MODE ? UNIXP : kind == DG ? (g.flip() ? UNIXA : TCP4) : (Tr)g.weighted({4, 2, 1});
		Addr a = make_addr(t, t == TCP4 ? pick_port(AF_INET) : 0);
		// the other side
		int lis = -1, peer = -1;
		if (kind == CLIENT) {
			lis = socket(a.sa()->sa_family, SOCK_STREAM | SOCK_NONBLOCK | SOCK_CLOEXEC, 0);
			int one = 1;
			setsockopt(lis, SOL_SOCKET, SO_REUSEADDR, &one, sizeof(one));
			CHECK(lis >= 0 && bind(lis, a.sa(), a.len) == 0 && listen(lis, 8) == 0, "harness: listen");
		} else if (kind == DG) {
			peer = socket(a.sa()->sa_family, SOCK_DGRAM | SOCK_NONBLOCK | SOCK_CLOEXEC, 0);
			Addr b = make_addr(t, 0);
			CHECK(peer >= 0 && (t == TCP4 || bind(peer, b.sa(), b.len) == 0), "harness: bind");
		}
		int base = vf_count_fds();
		s.stop_in_cb = g.chance(1, 4);
		bool stops = s.stop_in_cb;
		s.socks = s.ups = 0;
		s.got.clear();
		uint32_t mode = 0600 | (g.flip() ? 0066 : 0);
		auto start = [&] {
			return kind == DG ? pomp_ctx_bind(s.ctx, a.sa(), a.len) : kind == SERVER ? pomp_ctx_listen(s.ctx, a.sa(), a.len)
			     : kind == MODE ? pomp_ctx_listen_with_access_mode(s.ctx, a.sa(), a.len, mode) : pomp_ctx_connect(s.ctx, a.sa(), a.len);
		};
		f.arm(g, 3, calls, 14);
		s.in_window = true;
		int r = start();
		bool hit = f.off();
		s.in_window = false;
		static const char *const kn[] = {"bind", "listen", "listen with mode", "connect"};
		note("%s %s%s: %s -> %d", kn[kind], tr_names[t], stops ? ", stopped in the socket callback" : "", f.what.c_str(), r);
		if (r < 0) {
			CHECK(hit, "start: error %d although nothing failed", r);
			failures++;
			CHECK(vf_count_fds() == base, "a start that failed left %d descriptor(s)", vf_count_fds() - base);
			if (g.flip()) { // not started
				CHECK(pomp_ctx_destroy(s.ctx) == 0, "destroy after a start that failed");
				make();
				base = vf_count_fds();
			}
			s.stop_in_cb = stops = false;
			if (g.chance(1, 3))
				pump();
			r = start();
			CHECK(r == 0, "start again after one that failed: %d", r);
		}
		bool expect = !stops || s.stop_in_cb; // not called: no socket was made
		s.stop_in_cb = false;
		if (stops && s.socks && !expect) {
			pump();
			pomp_loop_idle_flush(loop);
			// the stop may have been refused under failure: stopped now in any case
			pomp_ctx_stop(s.ctx);
			pump();
		} else {
			// while things fail: sends and receptions may be lost, not more
			unsigned rounds = kind == DG ? 1 + (unsigned)g.below(4) : 0;
			struct sockaddr_storage ps;
			socklen_t pl = sizeof(ps);
			auto to_ctx = [&](unsigned k) {
				Arg x;
				x.ty = T_U32;
				x.u = k;
				std::string m = ref::message(50 + i, {x});
				return sendto(peer, m.data(), m.size(), MSG_NOSIGNAL, a.sa(), a.len) == (ssize_t)m.size() ? m : std::string();
			};
			for (unsigned k = 0; k < rounds; k++) {
				f.arm(g, 3, calls, 8);
				s.in_window = true;
				to_ctx(k);
				if (g.flip())
					pump();
				if (g.chance(1, 3))
					vf_advance(2000000000ull);
				if (g.flip())
					(void)pomp_ctx_set_read_buffer_len(s.ctx, 64 + g.below(5000));
				pump();
				f.off();
				s.in_window = false;
			}
			// works once nothing fails any longer
			uint64_t end = mono_ns() + 8000000000ull;
			s.got.clear();
			std::string m;
			unsigned tries = 0, acc = 0;
			int c = -1;
			for (;;) {
				pump();
				bool ok;
				if (kind == DG) {
					if (m.empty() || tries % 8 == 7) // one before may be lost
						m = to_ctx(1000 + tries);
					pump();
					ok = !m.empty() && !s.got.empty() && s.got.back() == m;
				} else if (kind == CLIENT) {
					int x = accept4(lis, nullptr, nullptr, SOCK_NONBLOCK | SOCK_CLOEXEC);
					if (x >= 0) {
						if (c >= 0)
							close(c);
						c = x;
						acc++;
					}
					ok = s.conns == 1 && c >= 0;
				} else {
					if (c < 0) {
						c = socket(a.sa()->sa_family, SOCK_STREAM | SOCK_CLOEXEC, 0);
						if (connect(c, a.sa(), a.len) != 0) {
							close(c);
							c = -1;
						}
					}
					ok = s.conns == 1;
				}
				if (ok)
					break;
				CHECK(mono_ns() < end, "nothing fails any longer, but what is started does not work");
				pomp_loop_wait_and_process(loop, tries < 4 ? 0 : 1);
				if (++tries % 16 == 0)
					vf_advance(2000000000ull);
			}
			if (kind == MODE) {
				struct stat st;
				CHECK(stat(((struct sockaddr_un *)a.sa())->sun_path, &st) == 0 && (st.st_mode & 0777) == mode, "mode %o, asked %o", st.st_mode & 0777, mode);
			}
			if (kind == DG && t != TCP4) {
				CHECK(getsockname(peer, (struct sockaddr *)&ps, &pl) == 0, "harness: getsockname");
				char buf[256];
				while (recv(peer, buf, sizeof(buf), 0) >= 0)
					;
				Arg x;
				x.ty = T_U32;
				x.u = i;
				std::string want = ref::message(9, {x});
				struct pomp_buffer *b = pomp_buffer_new_with_data(want.data(), want.size());
				struct pomp_msg *msg = encode(9, {x});
				for (unsigned k = 0; k < 3; k++) {
					f.arm(g, k < 2 ? 3 : 0, calls, 5);
					s.in_window = true;
					int q = raw ? pomp_ctx_send_raw_buf_to(s.ctx, b, (struct sockaddr *)&ps, pl) : pomp_ctx_send_msg_to(s.ctx, msg, (struct sockaddr *)&ps, pl);
					bool h = f.off();
					s.in_window = false;
					CHECK(q == 0 || h, "send_to: error %d although nothing failed", q);
					failures += q < 0;
					ssize_t l = recv(peer, buf, sizeof(buf), 0);
					if (q < 0)
						CHECK(l < 0, "a datagram whose send failed (%d) arrived", q);
					else
						CHECK(l == (ssize_t)want.size() && memcmp(buf, want.data(), want.size()) == 0, "a datagram sent did not arrive: %zd", l);
					pump();
				}
				pomp_buffer_unref(b);
				pomp_msg_destroy(msg);
			}
			CHECK(pomp_ctx_destroy(s.ctx) == -EBUSY, "destroyed while started");
			CHECK(pomp_ctx_stop(s.ctx) == 0, "stop");
			if (c >= 0)
				close(c);
			pump();
		}
		CHECK(s.conns == 0, "%u connection(s) not ended by the stop", s.conns);
		CHECK(vf_count_fds() == base, "once stopped: %d descriptor(s) left", vf_count_fds() - base);
		if (lis >= 0)
			close(lis);
		if (peer >= 0)
			close(peer);
		if (g.chance(1, 4)) {
			CHECK(pomp_ctx_destroy(s.ctx) == 0, "ctx_destroy");
			make();
		}
	}
	CHECK(pomp_ctx_destroy(s.ctx) == 0, "ctx_destroy");
	if (ext)
		CHECK(pomp_loop_destroy(ext) == 0, "loop_destroy");
	if (failures >= 2)
		nontrivial();
	}
	vf_epoll_mod_ok = 0;
	cl.verify();
}
