// C13: each datagram stands alone.
#include "net.hpp"
#include <fcntl.h>
using namespace net;

namespace {
struct Sock { // of the harness
	int fd = -1;
	Addr addr;
	bool bound = true;
	bool full = false;
	std::deque<std::string> expect; // what must come here
	Sock() {}
	Sock(const Sock &) = delete;
	~Sock()
	{
		if (fd >= 0)
			close(fd);
	}
	void open(Gen &g, Tr t)
	{
		fd = socket(t == TCP4 ? AF_INET : make_addr(t).ss.ss_family, SOCK_DGRAM | SOCK_NONBLOCK | SOCK_CLOEXEC, 0);
		CHECK(fd >= 0, "socket");
		bound = !(t == UNIXA && g.chance(1, 4));
		if (bound) {
			addr = dgram_addr(t);
			CHECK(bind(fd, addr.sa(), addr.len) == 0, "bind");
			addr = sock_name(fd, false);
		}
	}
};
struct Dgram {
	std::string bytes;
	bool good; // must be delivered
	Sock *from;
	const Addr *fromaddr; // if from a context
};
struct Node {
	struct pomp_ctx *p = nullptr;
	Addr addr;
	size_t rd = 4096;
	std::deque<Dgram> in;
	std::vector<Dgram> bad; // those before the next good one
	unsigned got = 0, extra = 0;
	std::function<void(struct pomp_conn *, const Dgram &)> act;

	static void cb(struct pomp_ctx *ctx, enum pomp_event ev, struct pomp_conn *conn, const struct pomp_msg *msg, void *ud)
	{
		Node *n = (Node *)ud;
		CHECK(ctx == n->p && ev == POMP_EVENT_MSG && msg, "event %d", (int)ev);
		std::string b = msg_bytes(msg);
		// the bad ones before the next good one may contain messages
		size_t k = 0;
		while (k < n->in.size() && !n->in[k].good)
			k++;
		if (k < n->in.size() && n->in[k].bytes == b) {
			Dgram d = n->in[k];
			for (size_t i = 0; i < k; i++)
				n->bad.push_back(n->in[i]);
			n->in.erase(n->in.begin(), n->in.begin() + (long)k + 1);
			n->bad.clear();
			uint32_t len = 0;
			const struct sockaddr *sa = pomp_conn_get_peer_addr(conn, &len);
			const Addr &from = d.fromaddr ? *d.fromaddr : d.from->addr;
			if (d.fromaddr || d.from->bound)
				CHECK(sa && len == from.len && memcmp(sa, from.sa(), len) == 0, "message with an address that is not the one of its sender");
			n->got++;
			if (n->act)
				n->act(conn, d);
			return;
		}
		for (size_t i = 0; i < k; i++)
			if (n->in[i].bytes.find(b) != std::string::npos) {
				n->extra++;
				return;
			}
		if (k < n->in.size()) {
			for (size_t i = k + 1; i < n->in.size(); i++)
				if (n->in[i].good && n->in[i].bytes == b)
					fail("datagram of %zu bytes that is a well-formed message not delivered (a later one is)", n->in[k].bytes.size());
		}
		fail("a message of %zu bytes delivered that was in no datagram, or twice: %s", b.size(), hex(b.data(), b.size()).c_str());
	}
};
uint32_t uid;
std::string good_msg(Gen &g, size_t max)
{
	Arg a;
	a.ty = T_BUF;
	a.u = 0;
	// exact sizes around the limit too
	if (max >= 20 && g.chance(1, 5)) {
		for (size_t cut = 0; cut < 6; cut++) {
			a.s = std::string(max - 13 - 1 - cut, 'x');
			std::string m = ref::message(++uid, {a});
			if (m.size() <= max)
				return m;
		}
	}
	if (g.chance(1, 4))
		return ref::message(++uid, {});
	for (;;) {
		a.s = blob(g, g.below(std::min<size_t>(max, 3000)));
		std::string m = ref::message(++uid, {a});
		if (m.size() <= max)
			return m;
		return ref::message(++uid, {});
	}
}
std::string bad_dgram(Gen &g, size_t max)
{
	std::string m = good_msg(g, 500);
	switch (g.below(10)) {
	case 0: return m.substr(0, g.below(m.size()));          // truncated
	case 1: return m.substr(0, std::min<size_t>(m.size() - 1, 1 + g.below(12)));
	case 2: return std::string("POMPOMPPPOMP").substr(0, 1 + g.below(11));
	case 3: return m.substr(1 + g.below(m.size() - 1));     // end of one
	case 4: {                                               // size larger than the datagram
		uint32_t s = (uint32_t)(m.size() + 1 + g.below(g.flip() ? 100 : 1u << 30));
		for (int i = 0; i < 4; i++)
			m[8 + i] = (char)(s >> (8 * i));
		return m;
	}
	case 5: {                                               // smaller
		uint32_t s = (uint32_t)g.below(m.size());
		for (int i = 0; i < 4; i++)
			m[8 + i] = (char)(s >> (8 * i));
		return m;
	}
	case 6: return "";
	case 7: return blob(g, 1 + g.below(100)) + m;           // garbage, then one
	case 8: return m + good_msg(g, 500).substr(0, g.below(12)) + "P";
	default: {                                              // too large for the read buffer
		if (max > 40000)
			return "P";
		Arg a;
		a.ty = T_BUF;
		a.u = 0;
		a.s = std::string(max + g.below(5000), 'y');
		return ref::message(++uid, {a});
	}
	}
}
}

PBT_TARGET(c13_recv, "a datagram context given well-formed messages mixed with truncated, oversized, empty and garbage datagrams (some with descriptors) by several senders, "
	"answering from the callback; non-trivial: at least 2 well-formed ones, one of them after a bad one", 3, 60)
{
	Clean cl;
	Impls im;
	unsigned ngood = 0, nbad = 0, afterbad = 0, replies = 0;
	{
		bool poll = g.flip();
		CHECK(set_loop_impl(poll), "impl");
		signal(SIGPIPE, SIG_IGN);
		struct pomp_loop *loop = pomp_loop_new();
		Tr t = g.chance(1, 2) ? UNIXA : g.chance(1, 3) ? TCP6 : TCP4;
		static const size_t rds[] = {4096, 64, 100, 600, 4096, 65536};
		Node n;
		n.rd = rds[g.below(6)];
		n.p = pomp_ctx_new_with_loop(&Node::cb, &n, loop);
		CHECK(loop && n.p, "new");
		if (n.rd != 4096)
			CHECK(pomp_ctx_set_read_buffer_len(n.p, n.rd) == 0, "set_read_buffer_len");
		n.addr = dgram_addr(t);
		CHECK(pomp_ctx_bind(n.p, n.addr.sa(), n.addr.len) == 0, "bind");
		note("%s loop, %s, read buffer %zu", poll ? "poll" : "epoll", tr_names[t], n.rd);
		unsigned ns = 1 + (unsigned)g.below(3);
		std::vector<Sock> socks(ns);
		for (auto &s : socks)
			s.open(g, t);
		n.act = [&](struct pomp_conn *conn, const Dgram &d) {
			if (!d.from->bound || !g.chance(1, 2))
				return;
			unsigned k = 1 + (unsigned)g.below(2);
			while (k--) {
				Arg a;
				a.ty = T_BUF;
				a.u = 0;
				a.s = blob(g, 1 + g.below(300));
				struct pomp_msg *m = encode(++uid, {a});
				std::string b = msg_bytes(m);
				Sock *to = &socks[g.below(ns)];
				if (to->bound && g.chance(1, 3)) { // to somebody else
					int r = pomp_ctx_send_msg_to(n.p, m, to->addr.sa(), to->addr.len);
					CHECK(r == 0, "send_msg_to: error %d", r);
				} else {
					int r = pomp_conn_send_msg(conn, m);
					CHECK(r == 0, "reply: error %d", r);
					to = d.from;
				}
				to->expect.push_back(b);
				pomp_msg_destroy(m);
				replies++;
			}
		};
		auto collect = [&] {
			for (auto &s : socks) {
				char buf[70000];
				for (;;) {
					struct sockaddr_storage ss;
					socklen_t sl = sizeof(ss);
					ssize_t r = recvfrom(s.fd, buf, sizeof(buf), 0, (struct sockaddr *)&ss, &sl);
					if (r < 0)
						break;
					CHECK(!s.expect.empty(), "reply (%zd bytes) to somebody else, or twice", r);
					CHECK(s.expect.front() == std::string(buf, (size_t)r), "reply altered, or to somebody else");
					CHECK(sl == n.addr.len && memcmp(&ss, n.addr.sa(), sl) == 0, "reply from another address");
					s.expect.pop_front();
				}
			}
		};
		auto process = [&] {
			auto left = [&] {
				for (auto &d : n.in)
					if (d.good)
						return true;
				for (auto &s : socks)
					if (!s.expect.empty())
						return true;
				return false;
			};
			uint64_t end = mono_ns() + 10000000000ull;
			do {
				int r = pomp_loop_wait_and_process(loop, left() ? 5 : 0);
				CHECK(r == 0 || r == -ETIMEDOUT, "wait: %d", r);
				collect();
			} while (left() && mono_ns() < end);
			// what remains is bad
			for (int i = 0; i < 1000 && pomp_loop_wait_and_process(loop, 0) == 0; i++)
				;
			for (auto &d : n.in)
				CHECK(!d.good, "datagram of %zu bytes that is a well-formed message not delivered", d.bytes.size());
			for (auto &s : socks)
				CHECK(s.expect.empty(), "%zu repl(ies) never received by the sender", s.expect.size());
			n.in.clear();
			uint32_t len = 0;
			const struct sockaddr *sa = pomp_ctx_get_local_addr(n.p, &len);
			CHECK(sa && len == n.addr.len && memcmp(sa, n.addr.sa(), len) == 0, "local address of the context");
		};
		size_t pend = 0;
		unsigned cnt = 0;
		bool lastbad = false;
		while (g.more(20)) {
			interruptions(g);
			Sock &s = socks[g.below(ns)];
			Dgram d;
			d.from = &s;
			d.fromaddr = nullptr;
			d.good = g.chance(1, 2);
			size_t max = std::min<size_t>(n.rd, 60000);
			d.bytes = d.good ? good_msg(g, max) : bad_dgram(g, n.rd);
			struct msghdr mh;
			struct iovec iov = {(void *)d.bytes.data(), d.bytes.size()};
			char cb[CMSG_SPACE(sizeof(int) * 8)];
			memset(&mh, 0, sizeof(mh));
			mh.msg_iov = &iov;
			mh.msg_iovlen = 1;
			mh.msg_name = (void *)n.addr.sa();
			mh.msg_namelen = n.addr.len;
			unsigned nfd = t == UNIXA && !d.good && g.chance(1, 4) ? 1 + (unsigned)g.below(8) : 0;
			if (nfd) {
				mh.msg_control = cb;
				mh.msg_controllen = CMSG_SPACE(sizeof(int) * nfd);
				memset(cb, 0, sizeof(cb));
				struct cmsghdr *c = CMSG_FIRSTHDR(&mh);
				c->cmsg_level = SOL_SOCKET;
				c->cmsg_type = SCM_RIGHTS;
				c->cmsg_len = CMSG_LEN(sizeof(int) * nfd);
				for (unsigned i = 0; i < nfd; i++) {
					int fd = s.fd;
					memcpy(CMSG_DATA(c) + sizeof(int) * i, &fd, sizeof(int));
				}
			}
			n.in.push_back(d); // before, it cannot be processed yet
			ssize_t r = sendmsg(s.fd, &mh, 0);
			note("   #%zu: %s %zu bytes%s -> %zd", (size_t)(&s - &socks[0]), d.good ? "message" : "bad", d.bytes.size(), nfd ? " with descriptors" : "", r);
			if (r < 0) {
				n.in.pop_back();
			} else {
				pend += d.bytes.size() + 1000;
				cnt++;
				ngood += d.good;
				nbad += !d.good;
				afterbad += d.good && lastbad;
				lastbad = !d.good;
			}
			if (cnt >= 8 || pend > 20000 || g.flip()) {
				process();
				cnt = 0;
				pend = 0;
			}
			if (g.exhausted())
				break;
		}
		process();
		CHECK(pomp_ctx_stop(n.p) == 0 && pomp_ctx_destroy(n.p) == 0, "stop");
		CHECK(pomp_loop_destroy(loop) == 0, "loop");
	}
	cl.verify();
	if (replies)
		LABEL("replies");
	if (ngood >= 2 && afterbad)
		nontrivial();
}

PBT_TARGET(c13_send, "messages sent by contexts to each other and to sockets of the harness, which read late (full queues), may go away or do not exist; sizes up to the "
	"limit and beyond; non-trivial: at least 3 messages, or a send that had to be queued", 2, 60)
{
	Clean cl;
	Impls im;
	unsigned sent = 0, queued = 0, errors = 0;
	{
		bool poll = g.flip();
		CHECK(set_loop_impl(poll), "impl");
		signal(SIGPIPE, SIG_IGN);
		struct pomp_loop *loop = pomp_loop_new();
		Tr t = g.chance(2, 3) ? UNIXA : g.chance(1, 3) ? TCP6 : TCP4;
		std::vector<Node> nodes(1 + g.below(2));
		for (auto &n : nodes) {
			n.rd = 65536;
			n.p = pomp_ctx_new_with_loop(&Node::cb, &n, loop);
			CHECK(n.p && pomp_ctx_set_read_buffer_len(n.p, n.rd) == 0, "new");
			n.addr = dgram_addr(t);
			CHECK(pomp_ctx_bind(n.p, n.addr.sa(), n.addr.len) == 0, "bind");
		}
		unsigned ns = 1 + (unsigned)g.below(3);
		std::vector<Sock> socks(ns);
		for (auto &s : socks) {
			do {
				if (s.fd >= 0)
					close(s.fd);
				s.open(g, t);
			} while (!s.bound);
		}
		note("%s loop, %s, %zu contexts, %u sockets", poll ? "poll" : "epoll", tr_names[t], nodes.size(), ns);
		auto collect = [&](Sock &s) {
			std::string buf(100000, 0);
			while (s.fd >= 0) {
				ssize_t r = recv(s.fd, &buf[0], buf.size(), 0);
				if (r < 0)
					break;
				CHECK(!s.expect.empty(), "datagram of %zd bytes received that was not sent here, or twice", r);
				// two contexts: only the order of each is known
				size_t k = 0;
				while (k < s.expect.size() && s.expect[k] != buf.substr(0, (size_t)r))
					k++;
				CHECK(k < s.expect.size(), "datagram of %zd bytes altered, or not sent here", r);
				if (nodes.size() == 1)
					CHECK(k == 0, "datagrams lost or out of order");
				s.expect.erase(s.expect.begin() + (long)k);
			}
		};
		auto flush = [&] {
			auto left = [&] {
				for (auto &n : nodes)
					if (!n.in.empty())
						return true;
				for (auto &s : socks)
					if (s.fd >= 0 && !s.expect.empty())
						return true;
				return false;
			};
			uint64_t end = mono_ns() + 10000000000ull;
			do {
				pomp_loop_wait_and_process(loop, left() ? 2 : 0);
				for (auto &s : socks)
					collect(s);
			} while (left() && mono_ns() < end);
			for (auto &n : nodes)
				CHECK(n.in.empty(), "%zu message(s) between contexts not received", n.in.size());
			for (auto &s : socks)
				if (s.fd >= 0)
					CHECK(s.expect.empty(), "%zu message(s) sent never received", s.expect.size());
		};
		size_t pend = 0;
		while (g.more(30)) {
			interruptions(g);
			Node &n = nodes[g.below(nodes.size())];
			switch (g.weighted({12, 4, 3, 1, 1})) {
			case 0: {
				Sock &s = socks[g.below(ns)];
				std::string m = good_msg(g, 3000);
				if (g.chance(1, 12)) {
					Arg a;
					a.ty = T_BUF;
					a.u = 0;
					a.s = std::string((size_t)60000 + g.below(12000), 'z');
					m = ref::message(++uid, {a});
				}
				struct pomp_buffer *b = pomp_buffer_new_with_data(m.data(), m.size());
				struct pomp_msg *pm = pomp_msg_new_with_buffer(b);
				CHECK(pm, "msg");
				s.expect.push_back(m);
				int r = pomp_ctx_send_msg_to(n.p, pm, s.addr.sa(), s.addr.len);
				note("   send %zu bytes to #%zu -> %d", m.size(), (size_t)(&s - &socks[0]), r);
				if (r < 0) {
					s.expect.pop_back();
					errors++;
					CHECK(s.fd < 0 || m.size() > 60000, "send_msg_to: error %d", r);
				} else {
					CHECK(s.fd >= 0 || t != UNIXA || true, "sent to nobody");
					sent++;
					pend += m.size() + 1000;
				}
				if (s.fd < 0)
					s.expect.clear();
				pomp_msg_destroy(pm);
				pomp_buffer_unref(b);
				break;
			}
			case 1: {
				Node &o = nodes[g.below(nodes.size())];
				std::string m = good_msg(g, 3000);
				if (pend > 20000 || o.in.size() >= 6)
					break;
				struct pomp_buffer *b = pomp_buffer_new_with_data(m.data(), m.size());
				struct pomp_msg *pm = pomp_msg_new_with_buffer(b);
				o.in.push_back({m, true, nullptr, &n.addr});
				int r = pomp_ctx_send_msg_to(n.p, pm, o.addr.sa(), o.addr.len);
				note("   send %zu bytes to a context -> %d", m.size(), r);
				CHECK(r == 0, "send_msg_to: error %d", r);
				sent++;
				pend += m.size() + 1000;
				pomp_msg_destroy(pm);
				pomp_buffer_unref(b);
				// order between several senders is not known when some are queued
				if (nodes.size() > 1) {
					flush();
					pend = 0;
				}
				break;
			}
			case 2: {
				note("   process");
				for (unsigned i = 0; i < 3; i++)
					pomp_loop_wait_and_process(loop, 0);
				if (g.flip()) {
					flush();
					pend = 0;
				}
				break;
			}
			case 3: { // goes away: what is queued for it is lost, not the rest
				Sock &s = socks[g.below(ns)];
				if (s.fd >= 0 && ns > 1) {
					note("   #%zu closed", (size_t)(&s - &socks[0]));
					collect(s);
					close(s.fd);
					s.fd = -1;
					s.expect.clear();
				}
				break;
			}
			default: {
				Addr nobody = dgram_addr(t);
				struct pomp_msg *pm = encode(++uid, {});
				int r = pomp_ctx_send_msg_to(n.p, pm, nobody.sa(), nobody.len);
				note("   send to nobody -> %d", r);
				errors += r < 0;
				pomp_msg_destroy(pm);
				break;
			}
			}
			if (t != UNIXA && pend > 20000) {
				flush();
				pend = 0;
			}
			if (g.exhausted())
				break;
		}
		flush();
		for (auto &n : nodes)
			CHECK(pomp_ctx_stop(n.p) == 0 && pomp_ctx_destroy(n.p) == 0, "stop");
		CHECK(pomp_loop_destroy(loop) == 0, "loop");
	}
	cl.verify();
	(void)queued;
	if (errors)
		LABEL("sends that failed");
	if (sent >= 3)
		nontrivial();
}
