// C08: file descriptors in messages are owned by the message, exactly once.
#include "ref.hpp"
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
using namespace pbt;

namespace {
struct Src { int fd; ino_t ino; dev_t dev; };
struct Item { bool isfd; int src; Arg a; };
enum St { OPEN, FINISHED, DIRTY };
struct MMsg {
	struct pomp_msg *m = nullptr;
	struct pomp_encoder *e = nullptr;
	St st = OPEN;
	std::vector<Item> items;
	struct pomp_buffer *buf = nullptr; // reference of the harness
	unsigned nfd() const
	{
		unsigned n = 0;
		for (auto &i : items)
			n += i.isfd;
		return n;
	}
};

ino_t ino_of(int fd, dev_t *dev = nullptr)
{
	struct stat st;
	if (fstat(fd, &st) < 0)
		return 0;
	if (dev)
		*dev = st.st_dev;
	return st.st_ino;
}
Src make_src()
{
	Src s;
	s.fd = memfd_create("vp", MFD_CLOEXEC);
	CHECK(s.fd >= 0, "memfd");
	s.ino = ino_of(s.fd, &s.dev);
	return s;
}

// reads everything back; the descriptors found are added to 'owned'
void verify(const MMsg &m, std::vector<Src> &srcs, std::vector<int> &owned, const char *op)
{
	struct pomp_decoder *d = pomp_decoder_new();
	CHECK(pomp_decoder_init(d, m.m) == 0, "decoder_init");
	for (auto &it : m.items) {
		if (it.isfd) {
			int fd = -1;
			int r = pomp_decoder_read_fd(d, &fd);
			CHECK(r == 0, "%s: read_fd: error %d", op, r);
			CHECK(fd >= 0 && ino_of(fd) == srcs[it.src].ino, "%s: descriptor %d is not the file put in the message", op, fd);
			for (int o : owned)
				CHECK(o != fd, "%s: descriptor %d belongs to two messages", op, fd);
			for (auto &s : srcs)
				CHECK(s.fd != fd, "%s: the message uses the descriptor of the caller", op);
			owned.push_back(fd);
		} else {
			Arg a;
			if (it.a.ty == T_I32 || it.a.ty == T_BUF) { // never a descriptor
				int fd = -1;
				CHECK(pomp_decoder_read_fd(d, &fd) < 0, "%s: read_fd of other data succeeded", op);
			}
			CHECK(dec_typed(d, it.a.ty, true, a) == 0 && same(a, it.a), "%s: data around descriptors changed", op);
		}
	}
	int fd = -1;
	CHECK(pomp_decoder_read_fd(d, &fd) < 0, "%s: read_fd after the last argument succeeded", op);
	pomp_decoder_destroy(d);
}
} // namespace

PBT_TARGET(c08_ownership, "histories of messages and buffers holding descriptors (write, limit, failures, copy, share, shrink, clear, destroy); after "
	"each step the open descriptors are exactly those owned; non-trivial: a copy of a message with at least 2 descriptors", 4)
{
	Clean cl;
	std::vector<Src> srcs;
	std::vector<MMsg> ms;
	bool copied = false;
	unsigned steps = 0;
	for (unsigned i = 0, n = 1 + (unsigned)g.below(4); i < n; i++)
		srcs.push_back(make_src());
	int base = vf_count_fds();
	for (auto &s : srcs)
		vf_protected[s.fd] = 1;
	auto finish = [&](MMsg &m) {
		pomp_encoder_destroy(m.e);
		m.e = nullptr;
		CHECK(pomp_msg_finish(m.m) == 0, "finish");
		m.st = FINISHED;
	};
	auto destroy = [&](size_t i) {
		MMsg m = ms[i];
		ms.erase(ms.begin() + i);
		if (m.e)
			pomp_encoder_destroy(m.e);
		CHECK(pomp_msg_destroy(m.m) == 0, "destroy");
		if (m.buf)
			pomp_buffer_unref(m.buf);
	};
	do {
		unsigned op = ms.empty() ? 0 : g.weighted({3, 8, 5, 5, 4, 3, 2, 2, 1, 2, 1});
		size_t mi = ms.empty() ? 0 : (size_t)g.below(ms.size());
		switch (op) {
		case 0: {
			if (ms.size() >= 5)
				break;
			MMsg m;
			note("m%zu = new", ms.size());
			m.m = pomp_msg_new();
			m.e = pomp_encoder_new();
			CHECK(pomp_msg_init(m.m, 5) == 0 && pomp_encoder_init(m.e, m.m) == 0, "init");
			ms.push_back(m);
			break;
		}
		case 1: { // put a descriptor
			MMsg &m = ms[mi];
			if (m.st != OPEN)
				break;
			int si = (int)g.below(srcs.size());
			int fd = srcs[si].fd;
			unsigned how = (unsigned)g.below(3);
			bool bad = g.chance(1, 10);
			if (bad)
				fd = g.flip() ? -1 : 900;
			bool inject = !bad && g.chance(1, 10);
			note("m%zu put descriptor %d of source %d (%u)%s", mi, fd, si, how, inject ? ", dup fails" : "");
			if (inject) {
				vf_call_mask = 1ul << VF_DUP | 1ul << VF_FCNTL;
				vf_call_fail_at = 1;
				vf_call_errno = EMFILE;
			}
			int r;
			if (how == 0) {
				r = pomp_encoder_write_fd(m.e, fd);
			} else if (how == 1) {
				r = pomp_encoder_write(m.e, "%x", (unsigned)fd);
			} else {
				std::string t = std::to_string(fd);
				const char *argv[] = {t.c_str()};
				r = pomp_encoder_write_argv(m.e, "%x", 1, argv);
			}
			bool hit = vf_call_failed > 0;
			vf_call_mask = 0;
			vf_call_fail_at = 0;
			vf_call_failed = 0;
			if (bad || hit || m.nfd() == 4) {
				CHECK(r < 0, "descriptor %d accepted (%u in the message)", fd, m.nfd());
				m.st = DIRTY;
				if (m.nfd() == 4)
					LABEL("limit reached");
			} else {
				CHECK(r == 0, "descriptor %d refused: %d (%u in the message)", fd, r, m.nfd());
				m.items.push_back({true, si, {}});
			}
			break;
		}
		case 2: { // data, looking like descriptors
			MMsg &m = ms[mi];
			if (m.st != OPEN)
				break;
			Arg a;
			if (g.flip()) {
				a.ty = T_I32;
				a.u = g.flip() ? (uint64_t)(uint32_t)srcs[g.below(srcs.size())].fd : g.below(20);
			} else {
				a.ty = T_BUF;
				a.s = std::string(1, '\x0d');
				ref::le(a.s, (uint64_t)g.below(12), 4);
				a.s += g.bytes(g.size(20));
			}
			note("m%zu data %s", mi, show(a).c_str());
			CHECK(enc_typed(m.e, a) == 0, "data refused");
			m.items.push_back({false, 0, a});
			break;
		}
		case 3:
			if (ms[mi].st != OPEN)
				break;
			note("m%zu finish", mi);
			finish(ms[mi]);
			break;
		case 4: {
			if (ms.size() >= 6)
				break;
			bool inject = g.chance(1, 5);
			note("copy of m%zu%s", mi, inject ? ", something fails" : "");
			if (inject) {
				if (g.flip()) {
					vf_call_mask = 1ul << VF_DUP | 1ul << VF_FCNTL;
					vf_call_fail_at = 1 + (long)g.below(4);
					vf_call_errno = EMFILE;
				} else {
					vf_alloc_fail_at = 1 + (long)g.below(4);
				}
			}
			struct pomp_msg *c = pomp_msg_new_copy(ms[mi].m);
			bool hit = vf_call_failed || vf_alloc_failed;
			vf_call_mask = 0;
			vf_call_fail_at = vf_alloc_fail_at = 0;
			vf_call_failed = vf_alloc_failed = 0;
			if (hit) {
				CHECK(!c, "copy succeeded although a descriptor or memory could not be had");
				break;
			}
			CHECK(c, "copy failed");
			MMsg n;
			n.m = c;
			n.st = ms[mi].st;
			if (n.st == OPEN)
				n.st = DIRTY; // no encoder to go on with
			n.items = ms[mi].items;
			if (n.nfd() >= 2)
				copied = true;
			ms.push_back(n);
			break;
		}
		case 5:
			note("m%zu destroy", mi);
			destroy(mi);
			break;
		case 6: { // sharing its buffer
			MMsg &m = ms[mi];
			if (m.st != FINISHED || m.buf)
				break;
			note("m%zu buffer kept", mi);
			m.buf = pomp_msg_get_buffer(m.m);
			pomp_buffer_ref(m.buf);
			break;
		}
		case 7: { // the message goes, a new one is made from the buffer
			MMsg &m = ms[mi];
			if (m.st != FINISHED || !m.buf)
				break;
			note("m%zu destroyed and made again from its buffer", mi);
			CHECK(pomp_msg_destroy(m.m) == 0, "destroy");
			m.m = pomp_msg_new_with_buffer(m.buf);
			CHECK(m.m, "new_with_buffer");
			break;
		}
		case 8: { // copy of the buffer, shortened, released
			MMsg &m = ms[mi];
			struct pomp_buffer *b = pomp_msg_get_buffer(m.m);
			struct pomp_buffer *c = pomp_buffer_new_copy(b);
			CHECK(c, "buffer copy");
			size_t l = 0;
			pomp_buffer_get_cdata(c, nullptr, &l, nullptr);
			size_t nl = (size_t)g.below(l + 1);
			note("buffer of m%zu copied, shortened from %zu to %zu", mi, l, nl);
			CHECK(pomp_buffer_set_len(c, nl) == 0, "set_len");
			if (g.flip() && nl < l) { // and written over
				std::string z(l - nl, '\0');
				for (size_t i = 0; i + 1 < z.size(); i++)
					z[i] = (char)g.below(8);
				CHECK(pomp_buffer_append_data(c, z.data(), z.size()) == 0, "append");
			}
			pomp_buffer_unref(c);
			break;
		}
		case 9: { // same bytes in a fresh buffer: no descriptor in there
			MMsg &m = ms[mi];
			if (m.st != FINISHED)
				break;
			std::string s = msg_bytes(m.m);
			note("bytes of m%zu without the descriptors", mi);
			struct pomp_buffer *b;
			if (g.flip()) {
				b = pomp_buffer_new_with_data(s.data(), s.size());
			} else {
				b = pomp_buffer_new(0);
				CHECK(pomp_buffer_append_buffer(b, pomp_msg_get_buffer(m.m)) == 0, "append");
			}
			struct pomp_msg *c = pomp_msg_new_with_buffer(b);
			CHECK(c, "new_with_buffer");
			struct pomp_decoder *d = pomp_decoder_new();
			pomp_decoder_init(d, c);
			for (auto &it : m.items) {
				int fd = -1;
				Arg a;
				if (it.isfd) {
					CHECK(pomp_decoder_read_fd(d, &fd) < 0, "bytes looking like descriptor %d were read as a descriptor", fd);
					break;
				}
				CHECK(dec_typed(d, it.a.ty, true, a) == 0, "data");
			}
			pomp_decoder_destroy(d);
			char *dump = nullptr;
			if (pomp_msg_adump(c, &dump) == 0)
				vf_free(dump);
			pomp_msg_destroy(c);
			pomp_buffer_unref(b);
			break;
		}
		default: // clear and start again
			if (ms[mi].buf)
				break;
			note("m%zu clear", mi);
			CHECK(pomp_msg_clear(ms[mi].m) == 0, "clear");
			ms[mi].items.clear();
			if (!ms[mi].e)
				ms[mi].e = pomp_encoder_new();
			CHECK(pomp_msg_init(ms[mi].m, 6) == 0 && pomp_encoder_init(ms[mi].e, ms[mi].m) == 0, "init after clear");
			ms[mi].st = OPEN;
			break;
		}
		CHECK(vf_bad_close == 0, "close() of descriptor %d which is not open", vf_bad_close_fd);
		CHECK(vf_prot_close == 0, "close() of descriptor %d of the caller", vf_bad_close_fd);
		int owned = 0;
		for (auto &m : ms)
			owned += (int)m.nfd();
		int now = vf_count_fds();
		CHECK(now == base + owned, "%d descriptor(s) open for messages holding %d", now - base, owned);
		if (g.chance(1, 4)) {
			std::vector<int> seen;
			for (auto &m : ms)
				if (m.st != DIRTY)
					verify(m, srcs, seen, "check");
		}
	} while (++steps < 60 && g.more(22));
	std::vector<int> seen;
	for (auto &m : ms)
		if (m.st != DIRTY)
			verify(m, srcs, seen, "end");
	// the caller may close its own first
	bool first = g.flip();
	auto closeall = [&]() {
		for (auto &s : srcs) {
			vf_protected[s.fd] = 0;
			close(s.fd);
		}
	};
	if (first) {
		closeall();
		for (auto &s : srcs)
			s.fd = -1;
		seen.clear();
		for (auto &m : ms)
			if (m.st != DIRTY)
				verify(m, srcs, seen, "after the caller closed its own");
	}
	while (!ms.empty())
		destroy((size_t)g.below(ms.size()));
	if (!first) {
		for (auto &s : srcs)
			CHECK(ino_of(s.fd) == s.ino, "a descriptor of the caller was closed");
		closeall();
	}
	if (copied)
		nontrivial();
	cl.verify();
}

PBT_TARGET(c08_scanf, "messages mixing descriptors and data written and read with formats, dumped, and read again; non-trivial: at least 2 "
	"descriptors", 1)
{
	Clean cl;
	unsigned n = 1 + (unsigned)g.below(4);
	int fds[4];
	ino_t ino[4];
	std::string wf, rf;
	for (unsigned i = 0; i < n; i++) {
		Src s = make_src();
		fds[i] = s.fd;
		ino[i] = s.ino;
		wf += g.flip() ? "%x" : "%d%x";
	}
	std::vector<Slot8> ws;
	// slots: value pairs in the order of the format
	std::vector<int> ints;
	{
		size_t p = 0;
		unsigned k = 0;
		while (p < wf.size()) {
			if (wf[p + 1] == 'd') {
				Slot8 sl;
				sl.fp = false;
			sl.v = (uint64_t)fds[k];
				ws.push_back(sl);
				p += 2;
			}
			Slot8 sl;
			sl.fp = false;
			sl.v = (uint64_t)fds[k++];
			ws.push_back(sl);
			p += 2;
		}
	}
	note("%u descriptors, format %s", n, wf.c_str());
	struct pomp_msg *m = pomp_msg_new();
	{
		VaList va(ws);
		int r = pomp_msg_writev(m, 3, wf.c_str(), va.ap);
		CHECK(r == 0, "write: %d", r);
	}
	if (n >= 2)
		nontrivial();
	for (int pass = 0; pass < 2; pass++) {
		int out[8];
		std::vector<Slot8> rs;
		for (size_t i = 0; i < ws.size(); i++) {
			out[i] = -7;
			Slot8 sl;
			sl.fp = false;
			sl.v = (uint64_t)(uintptr_t)&out[i];
			rs.push_back(sl);
		}
		VaList va(rs);
		int r = pomp_msg_readv(m, wf.c_str(), va.ap);
		CHECK(r == 0, "read: %d", r);
		size_t p = 0, i = 0;
		unsigned k = 0;
		while (p < wf.size()) {
			if (wf[p + 1] == 'd') {
				CHECK(out[i] == fds[k], "integer");
				i++;
				p += 2;
			}
			CHECK(out[i] >= 0 && out[i] != fds[k] && ino_of(out[i]) == ino[k], "descriptor %u read as %d", k, out[i]);
			i++;
			k++;
			p += 2;
		}
		char *dump = nullptr;
		CHECK(pomp_msg_adump(m, &dump) == 0, "dump");
		vf_free(dump);
	}
	pomp_msg_destroy(m);
	for (unsigned i = 0; i < n; i++) {
		CHECK(ino_of(fds[i]) == ino[i], "descriptor of the caller closed");
		close(fds[i]);
	}
	cl.verify();
}
