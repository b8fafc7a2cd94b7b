// C14: hostile stream peers.
#include "frames.hpp"
#include "traffic.hpp"
#include <fcntl.h>
#include <sys/stat.h>
using namespace net;

namespace {
// zeroes what stands for descriptors, up to the first malformed argument
std::string mask_fds(std::string b, bool &has_fd)
{
	has_fd = false;
	size_t p = 12;
	while (p < b.size()) {
		if ((uint8_t)b[p] == T_FD) {
			has_fd = true;
			if (b.size() - p < 5)
				break;
			memset(&b[p + 1], 0, 4);
			p += 5;
			continue;
		}
		Arg a;
		ref::Res r = ref::read(b, p, 0, a);
		if (r != ref::OK && r != ref::LOOSE)
			break;
	}
	return b;
}

struct Junk { // descriptors sent where none is expected
	std::vector<int> fds;
	std::vector<std::pair<dev_t, ino_t>> ids;
	Junk()
	{
		for (int i = 0; i < 3; i++) {
			int p[2];
			CHECK(pipe2(p, O_CLOEXEC) == 0, "pipe");
			for (int k = 0; k < 2; k++) {
				struct stat st;
				fstat(p[k], &st);
				fds.push_back(p[k]);
				ids.push_back({st.st_dev, st.st_ino});
				vf_protected[p[k]] = 1;
			}
		}
	}
	~Junk()
	{
		for (int f : fds) {
			vf_protected[f] = 0;
			close(f);
		}
	}
	bool known(int fd) const
	{
		struct stat st;
		if (fstat(fd, &st) < 0)
			return false;
		for (auto &i : ids)
			if (i.first == st.st_dev && i.second == st.st_ino)
				return true;
		return false;
	}
};

struct Peer {
	unsigned id;
	int fd = -1;
	std::string todo, sent; // bytes
	EndP e;
	bool unixs = false;
	bool closed = false;   // no more bytes come
	bool abrupt = false;   // reset, or closed with data not read
	std::vector<Frame> frames;
	size_t framed = 0;  // bytes of 'sent' the frames were computed from
	size_t next = 0;    // first frame not yet matched
	bool fuzzy = false; // sizes the reference can not settle
	unsigned got = 0, want = 0, withfd = 0;
	void update()
	{
		if (framed == sent.size())
			return;
		frames = ref_frames(sent, 1u << 25);
		fuzzy = fuzzy || ambiguous;
		framed = sent.size();
	}
	static bool valid(const Frame &f)
	{
		std::vector<Arg> v;
		bool loose;
		return ref::parse(f.bytes, v, &loose);
	}
	bool complete()
	{
		update();
		if (fuzzy)
			return true;
		for (size_t i = next; i < frames.size(); i++)
			if (valid(frames[i]))
				return false;
		return true;
	}
	void delivered(const struct pomp_msg *m, const std::string &b, Junk &j)
	{
		bool fdm, fdf;
		std::string mb = mask_fds(b, fdm);
		got++;
		if (fdm) {
			withfd++;
			check_fds(m, b, j);
		}
		update();
		if (fuzzy)
			return;
		for (; next < frames.size(); next++) {
			const Frame &f = frames[next];
			if (f.id == pomp_msg_get_id(m) && mask_fds(f.bytes, fdf) == mb) {
				next++;
				return;
			}
			CHECK(!valid(f), "peer %u: message %u lost (frame %zu of the stream)", id, f.id, next);
		}
		fail("peer %u: a message (id %u, %zu bytes) was delivered that is not in its stream: %s", id, pomp_msg_get_id(m), b.size(), hex(b.data(), b.size()).c_str());
	}
	// descriptors read from the message are those the peer gave, never ones of this process
	void check_fds(const struct pomp_msg *m, const std::string &b, Junk &j)
	{
		struct pomp_decoder *d = pomp_decoder_new();
		CHECK(pomp_decoder_init(d, m) == 0, "decoder_init");
		size_t p = 12;
		while (p < b.size()) {
			Arg a;
			if ((uint8_t)b[p] == T_FD) {
				int fd = -2;
				int r = pomp_decoder_read_fd(d, &fd);
				if (r == 0 && fd >= 0) {
					CHECK(unixs, "peer %u: descriptor %d from an inet peer", id, fd);
					CHECK(fd < 4096 && !vf_protected[fd], "peer %u: descriptor %d of this process in its message", id, fd);
					CHECK(j.known(fd), "peer %u: descriptor %d is not one it sent", id, fd);
				}
				p += 5;
				if (r != 0)
					break;
				continue;
			}
			ref::Res r = ref::read(b, p, 0, a);
			if (r != ref::OK && r != ref::LOOSE)
				break;
			Arg x;
			if (dec_typed(d, a.ty, false, x) != 0)
				break;
		}
		pomp_decoder_destroy(d);
	}
};

struct Hostile {
	Gen &g;
	Traffic t;
	World &w;
	Junk junk;
	bool asserver; // the context under attack
	int lfd = -1;
	Addr laddr;
	std::vector<std::unique_ptr<Peer>> peers;
	std::map<std::string, Peer *> bykey;
	unsigned conns = 0, closes = 0, resets = 0, anc = 0;
	Hostile(Gen &g_, const Opts &o, bool asserver_) : g(g_), t(g_, o), w(t.w), asserver(asserver_)
	{
		w.on_foreign = [&](const EndP &e, const struct pomp_msg *m, const std::string &b) {
			Peer *p = peer_of(e);
			CHECK(p, "message from a peer that sent nothing");
			p->delivered(m, b, junk);
			note("   peer %u: message %u delivered", p->id, pomp_msg_get_id(m));
		};
		w.is_foreign = [&](const EndP &e) { return asserver ? e->c->server && bykey.count(e->remote.key()) : e->remote == laddr; };
	}
	~Hostile()
	{
		for (auto &p : peers)
			if (p->fd >= 0)
				close(p->fd);
		if (lfd >= 0)
			close(lfd);
	}
	Peer *peer_of(const EndP &e)
	{
		auto it = bykey.find(asserver ? e->remote.key() : e->local.key());
		return it == bykey.end() ? nullptr : it->second;
	}
	void on_event(Ev ev, const EndP &e)
	{
		if (!e || !e->foreign)
			return;
		Peer *p = peer_of(e);
		if (ev == CONNECTED && p)
			p->e = e;
		if (ev != DISCONNECTED)
			return;
		if (!p) // not yet accepted by the harness
			return;
		note("   peer %u: announced disconnected", p->id);
		if (e->shut || p->abrupt || !e->c->started || w.ctxs.empty())
			return;
		CHECK(p->closed, "peer %u dropped although it did not close", p->id);
		if (e->nsent == 0)
			CHECK(p->complete(), "peer %u: messages sent before it closed were not delivered (%zu of %zu frames)", p->id, p->next, p->frames.size());
	}
	std::string gen_todo()
	{
		unsigned a = 0, b = 0;
		std::string s = gen_stream(g, a, b, g.chance(1, 3));
		while (g.chance(1, 3)) { // arguments that stand for descriptors, lies about sizes
			std::string p;
			std::vector<Arg> v = gen_args(g, 3);
			for (auto &x : v)
				ref::arg(p, x);
			unsigned n = (unsigned)g.below(4);
			for (unsigned i = 0; i < n; i++) {
				p += (char)T_FD;
				ref::le(p, g.flip() ? g.below(64) : g.integer(32), 4);
			}
			if (g.chance(1, 4) && !p.empty())
				p.resize(p.size() - 1 - g.below(std::min<size_t>(p.size(), 6)));
			if (g.chance(1, 4) && !p.empty())
				p[g.below(p.size())] = (char)g.below(256);
			std::string f = ref::frame((uint32_t)g.below(1000), p);
			s.insert(g.flip() ? s.size() : g.below(s.size() + 1), f);
		}
		return s;
	}
	void add(int fd, const std::string &key, bool un)
	{
		peers.emplace_back(new Peer);
		Peer *p = peers.back().get();
		p->id = (unsigned)peers.size() - 1;
		p->fd = fd;
		p->unixs = un;
		bykey[key] = p;
		vf_protected[fd] = 1;
		conns++;
		note("   peer %u: connects", p->id);
		if (!asserver)
			for (auto &l : w.live)
				if (l.second->foreign && l.second->local.key() == key)
					p->e = l.second;
	}
	void open_peer()
	{
		if (!asserver) {
			int fd = accept4(lfd, NULL, NULL, SOCK_NONBLOCK | SOCK_CLOEXEC);
			if (fd < 0)
				return;
			add(fd, sock_name(fd, true).key(), laddr.ss.ss_family == AF_UNIX);
			return;
		}
		const Addr &a = w.ctxs[0]->addr;
		int fd = socket(a.ss.ss_family, SOCK_STREAM | SOCK_CLOEXEC | SOCK_NONBLOCK, 0);
		CHECK(fd >= 0, "socket");
		if (a.ss.ss_family == AF_UNIX) {
			struct sockaddr_un su;
			memset(&su, 0, sizeof(su));
			su.sun_family = AF_UNIX;
			int n = snprintf(su.sun_path + 1, sizeof(su.sun_path) - 1, "vph%d_%u", (int)getpid(), serial()++);
			CHECK(bind(fd, (struct sockaddr *)&su, (socklen_t)(offsetof(struct sockaddr_un, sun_path) + 1 + n)) == 0, "bind");
		}
		int r = ::connect(fd, a.sa(), a.len);
		if (r < 0 && errno != EINPROGRESS) {
			close(fd);
			return;
		}
		add(fd, sock_name(fd, false).key(), a.ss.ss_family == AF_UNIX);
	}
	void send(Peer *p)
	{
		if (p->closed || p->fd < 0)
			return;
		if (p->todo.empty())
			p->todo = gen_todo();
		size_t n = std::min(p->todo.size(), (size_t)1 + g.size(g.flip() ? 30 : 6000));
		if (n == 0)
			return;
		struct iovec io = {&p->todo[0], n};
		struct msghdr mh;
		memset(&mh, 0, sizeof(mh));
		mh.msg_iov = &io;
		mh.msg_iovlen = 1;
		char ctl[CMSG_SPACE(sizeof(int) * 8) + CMSG_SPACE(sizeof(struct ucred))];
		unsigned nfd = 0;
		if (p->unixs && g.chance(1, 3)) {
			nfd = 1 + (unsigned)g.below(8);
			memset(ctl, 0, sizeof(ctl));
			mh.msg_control = ctl;
			mh.msg_controllen = CMSG_SPACE(sizeof(int) * nfd);
			struct cmsghdr *c = CMSG_FIRSTHDR(&mh);
			c->cmsg_level = SOL_SOCKET;
			c->cmsg_type = SCM_RIGHTS;
			c->cmsg_len = CMSG_LEN(sizeof(int) * nfd);
			for (unsigned i = 0; i < nfd; i++)
				((int *)CMSG_DATA(c))[i] = junk.fds[g.below(junk.fds.size())];
			anc++;
		}
		ssize_t r = sendmsg(p->fd, &mh, MSG_NOSIGNAL | MSG_DONTWAIT);
		note("   peer %u: sends %zu bytes, %u descriptor(s) -> %zd: %s", p->id, n, nfd, r, hex(p->todo.data(), n).c_str());
		if (r < 0)
			return;
		p->sent.append(p->todo, 0, (size_t)r);
		p->todo.erase(0, (size_t)r);
	}
	void end(Peer *p)
	{
		if (p->fd < 0)
			return;
		switch (g.weighted({3, 2, 2})) {
		case 0: {
			// data not read makes the close a reset
			char buf[4096];
			ssize_t r;
			bool unread = false;
			if (g.flip())
				while ((r = recv(p->fd, buf, sizeof(buf), MSG_DONTWAIT)) > 0)
					;
			else
				unread = recv(p->fd, buf, 1, MSG_DONTWAIT | MSG_PEEK) > 0;
			note("   peer %u: closes", p->id);
			p->abrupt = p->abrupt || unread;
			close(p->fd);
			break;
		}
		case 1:
			note("   peer %u: shuts down", p->id);
			shutdown(p->fd, SHUT_WR);
			p->closed = true;
			closes++;
			return;
		default: {
			struct linger lg = {1, 0};
			setsockopt(p->fd, SOL_SOCKET, SO_LINGER, &lg, sizeof(lg));
			note("   peer %u: resets", p->id);
			if (!p->unixs)
				p->abrupt = true;
			else if (p->e && p->e->nsent)
				p->abrupt = true;
			close(p->fd);
			resets++;
			break;
		}
		}
		vf_protected[p->fd] = 0;
		p->fd = -1;
		p->closed = true;
		closes++;
	}
	Peer *pick()
	{
		std::vector<Peer *> v;
		for (auto &p : peers)
			if (p->fd >= 0)
				v.push_back(p.get());
		return v.empty() ? nullptr : v[g.below(v.size())];
	}
	void run()
	{
		unsigned maxpeers = g.chance(1, 8) ? 40 : 6;
		w.hook = [&](Ev ev, EndP e, Ctx *) {
			on_event(ev, e);
			if (e && t.o.inside && t.inside_left && g.chance(1, 4)) {
				t.inside_left--;
				t.common(e, true);
			}
		};
		t.inside_left = (unsigned)g.below(30);
		while (g.more(40)) {
			switch (g.weighted({4, 14, 3, 8, 6})) {
			case 0:
				if (peers.size() < maxpeers) {
					unsigned k = maxpeers > 10 ? 1 + (unsigned)g.below(20) : 1;
					while (k-- && peers.size() < maxpeers)
						open_peer();
				}
				break;
			case 1:
				if (Peer *p = pick())
					send(p);
				break;
			case 2:
				if (Peer *p = pick())
					end(p);
				break;
			case 3: t.common(nullptr, false); break;
			default: {
				unsigned n = 1 + (unsigned)g.below(3);
				note("   wait x%u", n);
				for (unsigned i = 0; i < n; i++)
					w.wait(0);
				w.finish_stops();
				if (!asserver && g.chance(1, 3)) {
					note("   2 s later");
					vf_advance(2000000000ull);
					w.wait(0);
				}
				break;
			}
			}
			if (g.exhausted())
				break;
		}
		t.inside_left = 0;
		w.finish_stops();
		w.drain();
		auto pending = [&]() -> Peer * {
			for (auto &p : peers) {
				if (p->closed || p->fd < 0 || p->abrupt || (p->e && (p->e->shut || !p->e->up)))
					continue;
				if (!p->e)
					continue; // refused, not yet, or the library's end was gone before it was accepted
				if (!p->complete())
					return p.get();
			}
			return nullptr;
		};
		w.until([&] { return pending() == nullptr; });
		if (Peer *p = pending())
			fail("peer %u, still connected: message %zu of its stream was not delivered", p->id, p->next);
		// those that close are announced
		for (auto &p : peers)
			if (p->fd >= 0 && g.flip())
				end(p.get());
		auto lost = [&]() -> Peer * {
			for (auto &p : peers)
				if (p->closed && p->e && p->e->up)
					return p.get();
			return nullptr;
		};
		w.until([&] { return lost() == nullptr; });
		if (Peer *p = lost())
			fail("peer %u closed, not announced as disconnected", p->id);
		w.drain();
		w.finish();
	}
	unsigned got() const
	{
		unsigned n = 0;
		for (auto &p : peers)
			n += p->got;
		return n;
	}
};
} // namespace

PBT_TARGET(c14_server, "a server with good clients, and raw peers that send messages mixed with garbage, forged headers, truncated messages and descriptors, and close or "
	"reset at any point; non-trivial: at least 2 hostile peers, one message of theirs and one of a good client delivered, and one closing", 3, 60)
{
	Clean cl;
	Impls im;
	bool nt;
	{
		Opts o;
		o.inside = g.chance(1, 4);
		o.withcb = g.chance(1, 4);
		o.getters = g.chance(1, 3);
		Hostile h(g, o, true);
		vf_alloc_cap = 1u << 25;
		h.t.start(1 + (unsigned)g.below(3));
		h.run();
		unsigned bad = h.got();
		nt = h.conns >= 2 && bad && h.w.delivered > bad && h.closes;
		if (h.anc)
			LABEL("stray descriptors");
		if (h.resets)
			LABEL("resets");
		if (h.conns > 30)
			LABEL("flood of connections");
	}
	cl.verify();
	if (nt)
		nontrivial();
}

PBT_TARGET(c14_client, "a client whose server is hostile in the same ways, closing connections and being connected to again; non-trivial: at least 2 connections, one "
	"message delivered and one closing", 1, 60)
{
	Clean cl;
	Impls im;
	bool nt;
	{
		Opts o;
		o.getters = g.chance(1, 3);
		Hostile h(g, o, false);
		vf_alloc_cap = 1u << 25;
		h.laddr = h.t.t == TCP4 || h.t.t == TCP6 ? make_addr(TCP4) : make_addr(h.t.t);
		h.lfd = socket(h.laddr.ss.ss_family, SOCK_STREAM | SOCK_CLOEXEC | SOCK_NONBLOCK, 0);
		CHECK(bind(h.lfd, h.laddr.sa(), h.laddr.len) == 0 && ::listen(h.lfd, 10) == 0, "listen of the harness");
		h.laddr = sock_name(h.lfd, false);
		unsigned n = 1 + (unsigned)g.below(3);
		for (unsigned i = 0; i < n; i++)
			h.w.connect(h.w.add_ctx(false), h.laddr);
		h.w.until([&] { return h.w.live.size() == n; });
		h.run();
		nt = h.conns >= 2 && h.got() && h.closes;
		if (h.laddr.ss.ss_family == AF_UNIX && h.t.t == UNIXP)
			unlink(((struct sockaddr_un *)&h.laddr.ss)->sun_path);
	}
	cl.verify();
	if (nt)
		nontrivial();
}
