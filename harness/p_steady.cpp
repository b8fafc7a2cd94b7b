// C34: objects that live on keep nothing of the work that is over.
//
// A case builds a set of objects (a loop, contexts, a decoder of streams, messages,
// timers, ...) and a plan, a list of steps with all their parameters.  The plan is
// repeated; each time it is over nothing is left of it from the point of view of the
// user (the peers are gone, what was allocated was released), so that memory and
// descriptors held by the library must not grow with the number of repetitions.
#include "frames.hpp"
#include "loopimpl.hpp"
#include "net.hpp"
#include <algorithm>
#include <fcntl.h>
#include <poll.h>
#include <sys/un.h>
extern "C" size_t __sanitizer_get_current_allocated_bytes() __attribute__((weak));
static size_t heap_bytes() { return __sanitizer_get_current_allocated_bytes ? __sanitizer_get_current_allocated_bytes() : 0; }
using namespace net;

namespace {
struct Lab;
struct Node { // a context and what its callbacks saw
	Lab *lab = nullptr;
	struct pomp_ctx *ctx = nullptr;
	std::vector<struct pomp_conn *> conns;
	unsigned ncon = 0, ndis = 0;
	unsigned msgs = 0, raws = 0, sent = 0, socks = 0;
	bool scb = true; // wants to know of what is sent
	bool raw = false, echo = false, keep = false, kick = false, suspend = false;
	std::vector<struct pomp_msg *> kept;
};
void on_event(struct pomp_ctx *, enum pomp_event ev, struct pomp_conn *conn, const struct pomp_msg *msg, void *ud)
{
	Node *n = (Node *)ud;
	switch (ev) {
	case POMP_EVENT_CONNECTED:
		n->ncon++;
		n->conns.push_back(conn);
		break;
	case POMP_EVENT_DISCONNECTED:
		n->ndis++;
		for (size_t i = 0; i < n->conns.size(); i++)
			if (n->conns[i] == conn) {
				n->conns.erase(n->conns.begin() + i);
				break;
			}
		break;
	case POMP_EVENT_MSG:
		n->msgs++;
		if (n->keep)
			n->kept.push_back(pomp_msg_new_copy(msg));
		if (n->echo && conn)
			pomp_conn_send_msg(conn, msg);
		if (n->kick && conn)
			pomp_conn_disconnect(conn);
		break;
	}
}
void on_raw(struct pomp_ctx *, struct pomp_conn *conn, struct pomp_buffer *buf, void *ud)
{
	Node *n = (Node *)ud;
	n->raws++;
	if (n->echo && conn)
		pomp_conn_send_raw_buf(conn, buf);
	if (n->kick && conn)
		pomp_conn_disconnect(conn);
}
void on_sent(struct pomp_ctx *, struct pomp_conn *, struct pomp_buffer *, uint32_t, void *, void *ud) { ((Node *)ud)->sent++; }
void on_sock(struct pomp_ctx *, int, enum pomp_socket_kind, void *ud) { ((Node *)ud)->socks++; }
void on_fd(int fd, uint32_t, void *)
{
	char c[64];
	ssize_t r = read(fd, c, sizeof(c));
	(void)r;
}
void on_evt(struct pomp_evt *, void *ud) { ++*(unsigned *)ud; }
void on_timer(struct pomp_timer *, void *ud) { ++*(unsigned *)ud; }
void on_idle(void *ud) { ++*(unsigned *)ud; }
void on_wd(struct pomp_loop *, void *) {}

enum Kind {
	TALK, RETRY, PEER, CLIENT, ABSENT, RESTART, DGRAM, MSG, STREAM, BUFFER, EVT, TIMER, FD, IDLE, WATCHDOG, CTX, CROWD, BUSY, WAKE, REFUSED, ADDR,
	NKINDS
};
const char *const names[] = {"talk", "retry", "peer", "client", "absent", "restart", "dgram", "msg", "stream", "buffer", "evt", "timer", "fd", "idle",
	"watchdog", "ctx", "crowd", "busy", "wake", "refused", "addr"};

struct Step {
	Kind k;
	unsigned n = 1;      // how many times, or of them
	unsigned how = 0;    // free bits
	std::vector<std::string> chunks;
	std::vector<unsigned> fds;
	std::vector<Arg> args;
	uint32_t id = 0;
	uint64_t t = 0;
	uint64_t seed = 0;
};

struct Lab {
	struct pomp_loop *loop = nullptr;
	Node srv, cli, cli2, dg, pcli, rcli; // pcli stays connected, rcli keeps trying
	std::vector<int> perms;       // peers that stay connected
	unsigned nperm = 0, base = 0;
	Addr saddr, daddr, caddr;
	Tr tr;
	struct pomp_prot *prot = nullptr;
	struct pomp_msg *msg = nullptr;
	struct pomp_encoder *enc = nullptr;
	struct pomp_decoder *dec = nullptr;
	struct pomp_buffer *buf = nullptr;
	struct pomp_evt *evt = nullptr;
	struct pomp_timer *timer = nullptr;
	struct pomp_evt *evt2 = nullptr;
	unsigned hits = 0, idles = 0, ticks = 0;
	int pfd[2] = {-1, -1};
	int nullfd = -1;
	std::vector<Step> plan;
	std::string big;

	void pump(unsigned turns = 2)
	{
		for (unsigned quiet = 0, i = 0; quiet < turns && i < 5000; i++)
			quiet = pomp_loop_wait_and_process(loop, 0) == 0 ? 0 : quiet + 1;
	}
	void until(const char *what, const std::function<bool()> &done)
	{
		uint64_t end = mono_ns() + 8000000000ull;
		pump(1);
		while (!done()) {
			if (mono_ns() > end)
				fail("%s did not happen within 8 s", what);
			pomp_loop_wait_and_process(loop, 2);
		}
	}
	void setup(Node &n)
	{
		n.lab = this;
		n.ctx = pomp_ctx_new_with_loop(on_event, &n, loop);
		CHECK(n.ctx, "ctx_new_with_loop");
		if (n.raw)
			CHECK(pomp_ctx_set_raw(n.ctx, on_raw) == 0, "set_raw");
		if (n.scb)
			CHECK(pomp_ctx_set_send_cb(n.ctx, on_sent) == 0, "set_send_cb");
		CHECK(pomp_ctx_set_socket_cb(n.ctx, on_sock) == 0, "set_socket_cb");
	}
	void listen()
	{
		CHECK(pomp_ctx_listen(srv.ctx, saddr.sa(), saddr.len) == 0, "listen");
	}
	bool alone() const { return srv.conns.size() == base; }
	// The connections that stay, again: they come first in srv.conns.
	void settle()
	{
		for (int s : perms)
			close(s);
		perms.clear();
		pump();
		until("the end of the connections", [&] { return srv.conns.empty() || srv.conns.size() == (base > nperm ? 1 : 0); });
		if (base > nperm)
			until("the connection of the client that stays", [&] {
				if (pcli.conns.empty())
					vf_advance(2000000000ull);
				return srv.conns.size() == 1 && !pcli.conns.empty();
			});
		for (unsigned i = 0; i < nperm; i++) {
			perms.push_back(dial());
			until("the connection of a peer", [&] { return srv.conns.size() == base - nperm + i + 1; });
		}
	}
	void build(Gen &g)
	{
		loop = pomp_loop_new();
		CHECK(loop, "loop_new");
		srv.raw = g.chance(1, 4);
		cli.raw = g.chance(1, 4);
		dg.raw = g.chance(1, 4);
		if (g.flip())
			for (Node *n : {&srv, &cli, &cli2, &dg, &pcli})
				n->scb = false;
		setup(srv);
		setup(cli);
		setup(cli2);
		setup(dg);
		pcli.raw = srv.raw;
		setup(pcli);
		setup(rcli);
		nperm = (unsigned)g.below(3);
		base = nperm + (g.flip() ? 1 : 0);
		tr = (Tr)g.weighted({4, 2, 3, 1});
		unsigned port = tr == TCP4 || tr == TCP6 ? pick_port(tr == TCP6 && has_inet6() ? AF_INET6 : AF_INET) : 0;
		saddr = make_addr(tr, port);
		if (saddr.ss.ss_family == AF_UNIX)
			caddr = make_addr(UNIXA);
		else
			caddr = make_addr(TCP4, pick_port(AF_INET));
		daddr = dgram_addr(g.flip() ? TCP4 : TCP6);
		listen();
		if (base > nperm)
			CHECK(pomp_ctx_connect(pcli.ctx, saddr.sa(), saddr.len) == 0, "connect");
		settle();
		CHECK(pomp_ctx_connect(rcli.ctx, caddr.sa(), caddr.len) == 0, "connect");
		CHECK(pomp_ctx_bind(dg.ctx, daddr.sa(), daddr.len) == 0, "bind");
		prot = pomp_prot_new();
		msg = pomp_msg_new();
		enc = pomp_encoder_new();
		dec = pomp_decoder_new();
		buf = pomp_buffer_new(0);
		evt = pomp_evt_new();
		evt2 = pomp_evt_new();
		timer = pomp_timer_new(loop, on_timer, &ticks);
		CHECK(prot && msg && enc && dec && buf && evt && evt2 && timer, "construction");
		CHECK(pomp_evt_attach_to_loop(evt2, loop, on_evt, &hits) == 0, "attach");
		CHECK(pipe2(pfd, O_CLOEXEC | O_NONBLOCK) == 0, "pipe");
		nullfd = open("/dev/null", O_RDWR | O_CLOEXEC);
		for (int f : {pfd[0], pfd[1], nullfd})
			vf_protected[f] = 1;
	}
	void teardown()
	{
		for (int s : perms)
			close(s);
		for (Node *n : {&pcli, &rcli, &srv, &cli, &cli2, &dg}) {
			pomp_ctx_stop(n->ctx);
			pump();
			CHECK(pomp_ctx_destroy(n->ctx) == 0, "ctx_destroy");
		}
		CHECK(pomp_evt_detach_from_loop(evt2, loop) == 0, "detach");
		pomp_evt_destroy(evt);
		pomp_evt_destroy(evt2);
		pomp_timer_destroy(timer);
		pomp_prot_destroy(prot);
		pomp_msg_destroy(msg);
		pomp_encoder_destroy(enc);
		pomp_decoder_destroy(dec);
		pomp_buffer_unref(buf);
		CHECK(pomp_loop_destroy(loop) == 0, "loop_destroy");
		for (int f : {pfd[0], pfd[1], nullfd}) {
			vf_protected[f] = 0;
			close(f);
		}
		if (tr == UNIXP)
			unlink(((const struct sockaddr_un *)saddr.sa())->sun_path);
	}

	// ---------------------------------------------------------------- steps
	void server_says(unsigned how, size_t i)
	{
		for (size_t k = base; k < srv.conns.size(); k++) {
			struct pomp_conn *c = srv.conns[k];
			if (srv.raw) {
				struct pomp_buffer *b = pomp_buffer_new_with_data(big.data(), (how & 8) ? big.size() : 100);
				pomp_conn_send_raw_buf(c, b);
				pomp_buffer_unref(b);
			} else if (how & 8) {
				pomp_conn_send(c, 5, "%p%u", big.data(), (unsigned)big.size());
			} else if ((how & 16) && tr <= UNIXP) {
				pomp_conn_send(c, 6, "%x%u", nullfd, (unsigned)i);
			} else {
				pomp_conn_send(c, 7, "%s%u", "hello", (unsigned)i);
			}
		}
	}
	static void send_with_fds(int s, const std::string &d, int fd, unsigned nfds)
	{
		struct msghdr mh;
		struct iovec iov = {(void *)d.data(), d.size()};
		char ctl[CMSG_SPACE(sizeof(int) * 4)];
		memset(&mh, 0, sizeof(mh));
		memset(ctl, 0, sizeof(ctl));
		mh.msg_iov = &iov;
		mh.msg_iovlen = 1;
		if (nfds && !d.empty()) {
			mh.msg_control = ctl;
			mh.msg_controllen = CMSG_SPACE(sizeof(int) * nfds);
			struct cmsghdr *c = CMSG_FIRSTHDR(&mh);
			c->cmsg_level = SOL_SOCKET;
			c->cmsg_type = SCM_RIGHTS;
			c->cmsg_len = CMSG_LEN(sizeof(int) * nfds);
			for (unsigned i = 0; i < nfds; i++)
				memcpy(CMSG_DATA(c) + i * sizeof(int), &fd, sizeof(int));
		}
		ssize_t r = sendmsg(s, &mh, MSG_NOSIGNAL | MSG_DONTWAIT);
		(void)r;
	}
	int dial()
	{
		int s = socket(saddr.ss.ss_family, SOCK_STREAM | SOCK_CLOEXEC, 0);
		CHECK(s >= 0 && connect(s, saddr.sa(), saddr.len) == 0, "connection of a peer: %s", strerror(errno));
		fcntl(s, F_SETFL, O_NONBLOCK);
		return s;
	}
	static void drain(int s)
	{
		char c[4096];
		while (recv(s, c, sizeof(c), MSG_DONTWAIT) > 0)
			;
	}
	void hangup(int s, unsigned how)
	{
		switch (how & 3) {
		case 0: break;
		case 1: shutdown(s, SHUT_WR); break;
		case 2: {
			struct linger l = {1, 0};
			setsockopt(s, SOL_SOCKET, SO_LINGER, &l, sizeof(l));
			break;
		}
		default: drain(s); break;
		}
		if ((how & 3) == 1) {
			until("the disconnection of a peer that shut its side", [&] { return alone(); });
			drain(s);
		}
		close(s);
	}
	void peer(const Step &st)
	{
		for (unsigned i = 0; i < st.n; i++) {
			unsigned before = srv.ncon;
			int s = dial();
			until("the connection of a peer", [&] { return srv.ncon == before + 1; });
			srv.echo = (st.how & 32) && !(st.how & 3);
			srv.keep = st.how & 64;
			srv.kick = st.how & 512;
			if ((st.how & 128) && !alone())
				pomp_conn_set_read_buffer_len(srv.conns.back(), 1 + (st.how >> 8) % 5000);
			if (st.how & 256) {
				server_says(st.how, i);
				pump();
			}
			for (size_t k = 0; k < st.chunks.size(); k++) {
				send_with_fds(s, st.chunks[k], nullfd, tr <= UNIXP ? st.fds[k] : 0);
				pump();
				if (st.how & 4)
					drain(s);
			}
			if ((st.how & 1024) && !alone()) {
				struct pomp_conn *c = srv.conns.back();
				pomp_conn_suspend_read(c);
				pump();
				if (!alone() && srv.conns.back() == c)
					pomp_conn_resume_read(c);
			}
			if (st.how & 2048)
				for (struct pomp_conn *c : srv.conns) {
					pomp_conn_get_peer_cred(c);
					pomp_conn_get_peer_addr(c, nullptr);
					pomp_conn_get_local_addr(c, nullptr);
					pomp_ctx_get_next_conn(srv.ctx, nullptr);
				}
			hangup(s, st.how);
			until("the disconnection of a peer", [&] { return alone(); });
			forget();
		}
	}
	// Traffic on the connections that stay.
	void talk(const Step &st)
	{
		unsigned nf = tr <= UNIXP && !srv.raw ? 1 : 0;
		srv.echo = st.how & 1;
		srv.keep = st.how & 2;
		for (int s : perms) {
			for (size_t k = 0; k < st.chunks.size(); k++) {
				send_with_fds(s, st.chunks[k], nullfd, st.fds[k] ? nf : 0);
				pump();
				drain(s);
			}
		}
		if (!pcli.conns.empty()) {
			size_t n = (st.how & 4) ? big.size() : 50;
			unsigned *seen = srv.raw ? &srv.raws : &srv.msgs, before = *seen;
			if (srv.raw) {
				struct pomp_buffer *b = pomp_buffer_new_with_data(big.data(), n);
				pomp_ctx_send_raw_buf(pcli.ctx, b);
				pomp_buffer_unref(b);
			} else {
				pomp_ctx_send(pcli.ctx, st.id, "%p%u", big.data(), (unsigned)n);
				if (nf && (st.how & 8))
					pomp_ctx_send(pcli.ctx, st.id, "%x", nullfd);
			}
			until("the reception of a message", [&] { return *seen > before; });
		}
		for (unsigned i = 0; i < base && i < srv.conns.size(); i++) {
			if (srv.raw)
				break;
			if (nf && (st.how & 16))
				pomp_conn_send(srv.conns[i], st.id, "%x%u", nullfd, i);
			else
				pomp_conn_send(srv.conns[i], st.id, "%s%u", "talk", i);
		}
		pump(3);
		for (int s : perms)
			drain(s);
		pump();
		CHECK(srv.conns.size() == base, "%zu connections out of %u", srv.conns.size(), base);
		forget();
	}
	void forget()
	{
		srv.echo = srv.kick = srv.keep = false;
		for (auto &m : srv.kept)
			pomp_msg_destroy(m);
		srv.kept.clear();
	}
	void client(const Step &st)
	{
		CHECK(pomp_ctx_connect(cli.ctx, saddr.sa(), saddr.len) == 0, "connect");
		until("the connection of the client", [&] { return !cli.conns.empty() && !alone(); });
		srv.echo = !srv.raw && !cli.raw && (st.how & 32);
		for (unsigned i = 0; i < st.n; i++) {
			if (cli.raw) {
				struct pomp_buffer *b = pomp_buffer_new_with_data(big.data(), (st.how & 8) ? big.size() : 10);
				pomp_ctx_send_raw_buf(cli.ctx, b);
				pomp_buffer_unref(b);
			} else if (st.how & 16 && tr <= UNIXP) {
				pomp_ctx_send(cli.ctx, i, "%x", nullfd);
			} else if (st.how & 8) {
				pomp_ctx_send(cli.ctx, i, "%p%u", big.data(), (unsigned)big.size());
			} else {
				pomp_ctx_send(cli.ctx, i, "%s%d", "text", (int)i);
			}
			if (st.how & 256)
				server_says(st.how >> 2, i);
			if (st.how & 64)
				pump();
		}
		if (st.how & 128) { // the server hangs up, the client comes back
			unsigned before = cli.ncon, ends = cli.ndis;
			pomp_conn_disconnect(srv.conns.back());
			until("the disconnection by the server", [&] { return cli.ndis > ends; });
			vf_advance(2000000000ull);
			until("the new connection of the client", [&] { return cli.ncon > before && !alone(); });
		}
		if (st.how & 512)
			pump();
		CHECK(pomp_ctx_stop(cli.ctx) == 0, "stop");
		until("the disconnection of the client", [&] { return alone() && cli.conns.empty(); });
		forget();
	}
	void absent(const Step &st)
	{
		CHECK(pomp_ctx_connect(cli2.ctx, caddr.sa(), caddr.len) == 0, "connect");
		for (unsigned i = 0; i < st.n; i++) {
			pump();
			vf_advance(2000000000ull);
		}
		pump();
		CHECK(pomp_ctx_stop(cli2.ctx) == 0, "stop");
	}
	void restart(const Step &st)
	{
		std::vector<int> peers;
		for (unsigned i = 0; i < st.n; i++) {
			peers.push_back(dial());
			if (st.how & 4)
				send_with_fds(peers.back(), ref::frame(3, std::string("\x09\x02", 2) + "a").substr(0, 13), nullfd, tr <= UNIXP && (st.how & 8) ? 1 : 0);
		}
		if (st.how & 1)
			until("the connections", [&] { return srv.conns.size() == base + st.n; });
		if (st.how & 2)
			server_says(st.how, 0);
		CHECK(pomp_ctx_stop(srv.ctx) == 0, "stop");
		CHECK(srv.conns.empty(), "%zu connection(s) after the stop", srv.conns.size());
		for (int s : peers)
			close(s);
		listen();
		settle();
	}
	void busy(const Step &st)
	{ // a second server on the same address
		pomp_ctx_listen(cli2.ctx, saddr.sa(), saddr.len);
		for (unsigned i = 0; i < st.n; i++) {
			pump();
			vf_advance(2000000000ull);
		}
		pump();
		pomp_ctx_stop(cli2.ctx);
		if (tr == UNIXP || cli2.ncon || cli2.ndis) { // it took the path over
			CHECK(pomp_ctx_stop(srv.ctx) == 0, "stop");
			listen();
			settle();
		}
		cli2.ncon = cli2.ndis = 0;
	}
	void crowd(const Step &st)
	{
		std::vector<int> peers;
		for (unsigned i = 0; i < 28 + st.n; i++) {
			peers.push_back(dial());
			pump(1);
		}
		if (st.how & 1)
			server_says(st.how, 0);
		if (st.how & 2)
			for (struct pomp_conn *c = pomp_ctx_get_next_conn(srv.ctx, nullptr); c; c = pomp_ctx_get_next_conn(srv.ctx, c))
				if (std::find(srv.conns.begin(), srv.conns.begin() + base, c) == srv.conns.begin() + base)
					pomp_conn_disconnect(c);
		pump();
		for (int s : peers)
			close(s);
		until("the disconnection of all", [&] { return alone(); });
		pump();
		until("the disconnection of all", [&] { return alone(); });
	}
	void dgram(const Step &st)
	{
		int s = socket(daddr.ss.ss_family, SOCK_DGRAM | SOCK_CLOEXEC | SOCK_NONBLOCK, 0);
		Addr a = make_addr(daddr.ss.ss_family == AF_INET6 ? TCP6 : TCP4);
		CHECK(s >= 0 && bind(s, a.sa(), a.len) == 0, "socket");
		a = sock_name(s, false);
		for (size_t k = 0; k < st.chunks.size(); k++) {
			const std::string &c = st.chunks[k];
			sendto(s, c.data(), std::min<size_t>(c.size(), 60000), 0, daddr.sa(), daddr.len);
			pump();
		}
		for (unsigned i = 0; i < st.n; i++) {
			pomp_msg_clear(msg);
			if (pomp_msg_write(msg, i, "%s", "datagram") == 0 && !dg.raw)
				pomp_ctx_send_msg_to(dg.ctx, msg, a.sa(), a.len);
			struct pomp_buffer *b = pomp_buffer_new_with_data(big.data(), (st.how & 2) ? 100000 : 50);
			pomp_ctx_send_raw_buf_to(dg.ctx, b, a.sa(), a.len);
			pomp_buffer_unref(b);
			drain(s);
		}
		pump();
		close(s);
		if (st.how & 1) {
			CHECK(pomp_ctx_stop(dg.ctx) == 0, "stop");
			CHECK(pomp_ctx_bind(dg.ctx, daddr.sa(), daddr.len) == 0, "bind");
		}
		if (st.how & 4)
			pomp_ctx_set_read_buffer_len(dg.ctx, 100 + st.how % 5000);
		pomp_msg_clear(msg);
	}
	void message(const Step &st)
	{
		pomp_msg_clear(msg);
		CHECK(pomp_msg_init(msg, st.id) == 0, "msg_init");
		CHECK(pomp_encoder_init(enc, msg) == 0, "encoder_init");
		for (auto &a : st.args)
			enc_typed(enc, a);
		if (st.how & 1)
			pomp_encoder_write_fd(enc, nullfd);
		if (!(st.how & 2))
			pomp_encoder_clear(enc);
		pomp_msg_finish(msg);
		if (st.how & 4) { // a shared buffer
			struct pomp_msg *m = pomp_msg_new_with_buffer(pomp_msg_get_buffer(msg));
			pomp_msg_destroy(m);
		}
		for (unsigned i = 0; i < st.n; i++) {
			struct pomp_msg *m = pomp_msg_new_copy(msg);
			CHECK(m, "msg_new_copy");
			CHECK(pomp_decoder_init(dec, m) == 0, "decoder_init");
			for (auto &a : st.args) {
				Arg b;
				if (dec_typed(dec, a.ty, st.how & 8, b) < 0)
					break;
			}
			pomp_decoder_clear(dec);
			char small[20];
			pomp_msg_dump(m, small, sizeof(small));
			char *d = nullptr;
			if (pomp_msg_adump(m, &d) == 0)
				vf_free(d);
			// reads that stop half way
			char *str = nullptr;
			unsigned char u = 0;
			if (pomp_msg_read(m, "%ms%hhu", &str, &u) == 0)
				vf_free(str);
			pomp_msg_destroy(m);
		}
		const char *argv[] = {"1", (st.how & 16) ? "zz" : "2"};
		pomp_msg_clear(msg);
		pomp_msg_write_argv(msg, 1, "%d%u", 2, argv);
		static const char *volatile bad = "%s%z";
		pomp_msg_write(msg, 1, bad, "bad format");
		pomp_msg_clear(msg);
	}
	void stream(const Step &st)
	{
		std::vector<struct pomp_msg *> held;
		for (auto &c : st.chunks) {
			size_t off = 0;
			while (off < c.size()) {
				struct pomp_msg *m = nullptr;
				int r = pomp_prot_decode_msg(prot, c.data() + off, c.size() - off, &m);
				CHECK(r >= 0 && (size_t)r <= c.size() - off, "decode_msg: %d", r);
				off += r;
				if (m) {
					switch ((st.how >> (off % 7)) & 3) {
					case 0: pomp_prot_release_msg(prot, m); break;
					case 1: pomp_msg_destroy(m); break;
					case 2: pomp_msg_clear(m); pomp_prot_release_msg(prot, m); break;
					default: held.push_back(m); break;
					}
				} else if (r == 0) {
					break;
				}
			}
		}
		// back to the search of a header
		std::string zeros(4, 'x');
		for (auto &m : held)
			pomp_prot_release_msg(prot, m);
		// ends what is unfinished
		for (unsigned i = 0; i < 2; i++) {
			struct pomp_msg *m = nullptr;
			std::string z(64, 'x');
			size_t off = 0;
			while (off < z.size()) {
				int r = pomp_prot_decode_msg(prot, z.data() + off, z.size() - off, &m);
				if (r <= 0)
					break;
				off += r;
				if (m)
					pomp_prot_release_msg(prot, m);
				m = nullptr;
			}
		}
	}
	void buffer(const Step &st)
	{
		for (unsigned i = 0; i < st.n; i++) {
			for (auto &c : st.chunks)
				pomp_buffer_append_data(buf, c.data(), c.size());
			struct pomp_buffer *b = pomp_buffer_new_copy(buf);
			CHECK(b, "buffer_new_copy");
			pomp_buffer_append_buffer(b, buf);
			size_t pos = 0;
			pomp_buffer_write(b, &pos, "xyz", 3);
			pomp_buffer_ref(b);
			pomp_buffer_set_capacity(b, 10);
			pomp_buffer_unref(b);
			pomp_buffer_set_len(b, 0);
			pomp_buffer_set_capacity(b, (st.how & 1) ? 0 : 100);
			pomp_buffer_unref(b);
			pomp_buffer_set_len(buf, 0);
		}
	}
	void run(const Step &st)
	{
		switch (st.k) {
		case TALK: talk(st); break;
		case RETRY:
			for (unsigned i = 0; i < st.n; i++) {
				vf_advance(2000000000ull);
				pump();
			}
			break;
		case PEER: peer(st); break;
		case CLIENT: client(st); break;
		case ABSENT: absent(st); break;
		case RESTART: restart(st); break;
		case DGRAM: dgram(st); break;
		case MSG: message(st); break;
		case STREAM: stream(st); break;
		case BUFFER: buffer(st); break;
		case CROWD: crowd(st); break;
		case BUSY: busy(st); break;
		case EVT:
			for (unsigned i = 0; i < st.n; i++) {
				CHECK(pomp_evt_attach_to_loop(evt, loop, on_evt, &hits) == 0, "attach");
				CHECK(pomp_evt_attach_to_loop(evt, loop, on_evt, &hits) < 0, "attached twice");
				pomp_evt_signal(evt);
				pomp_evt_signal(evt2);
				if (st.how & 1)
					pump();
				if (st.how & 2)
					pomp_evt_clear(evt);
				CHECK(pomp_evt_detach_from_loop(evt, loop) == 0, "detach");
				if (st.how & 4) {
					struct pomp_evt *e = pomp_evt_new();
					CHECK(e, "evt_new");
					pomp_evt_attach_to_loop(e, loop, on_evt, &hits);
					pomp_evt_signal(e);
					pomp_evt_detach_from_loop(e, loop);
					pomp_evt_destroy(e);
				}
			}
			pump();
			break;
		case TIMER:
			for (unsigned i = 0; i < st.n; i++) {
				if (st.how & 1)
					CHECK(pomp_timer_set(timer, (uint32_t)st.t) == 0, "timer_set");
				else
					CHECK(pomp_timer_set_periodic(timer, (uint32_t)st.t, 1 + st.how % 50) == 0, "timer_set_periodic");
				vf_advance(st.t * 1000000 * (st.how & 3) / 2);
				pump(1);
				if (st.how & 4)
					CHECK(pomp_timer_set(timer, 100000) == 0, "timer_set");
				CHECK(pomp_timer_clear(timer) == 0, "timer_clear");
				if (st.how & 8) {
					struct pomp_timer *t = pomp_timer_new(loop, on_timer, &ticks);
					CHECK(t, "timer_new");
					pomp_timer_set(t, (uint32_t)st.t);
					if (st.how & 16)
						pomp_timer_clear(t);
					pomp_timer_destroy(t);
				}
			}
			break;
		case FD:
			for (unsigned i = 0; i < st.n; i++) {
				CHECK(pomp_loop_add(loop, pfd[0], POMP_FD_EVENT_IN, on_fd, this) == 0, "add");
				if (st.how & 1)
					CHECK(pomp_loop_add(loop, pfd[1], POMP_FD_EVENT_ERR, on_fd, this) == 0, "add");
				CHECK(pomp_loop_add(loop, pfd[0], POMP_FD_EVENT_IN, on_fd, this) < 0, "added twice");
				CHECK(pomp_loop_add(loop, -1, POMP_FD_EVENT_IN, on_fd, this) < 0, "added -1");
				if (write(pfd[1], "a", 1) < 0) {}
				if (st.how & 2)
					pump();
				pomp_loop_update(loop, pfd[0], 0);
				pomp_loop_update2(loop, pfd[0], POMP_FD_EVENT_IN, 0);
				if (st.how & 4) { // of a regular file: epoll refuses it
					int f = open("/proc/self/status", O_RDONLY | O_CLOEXEC);
					if (pomp_loop_add(loop, f, POMP_FD_EVENT_IN, on_fd, this) == 0)
						pomp_loop_remove(loop, f);
					close(f);
				}
				if (st.how & 1)
					CHECK(pomp_loop_remove(loop, pfd[1]) == 0, "remove");
				CHECK(pomp_loop_remove(loop, pfd[0]) == 0, "remove");
				CHECK(pomp_loop_remove(loop, pfd[0]) < 0, "removed twice");
				on_fd(pfd[0], 0, nullptr);
			}
			break;
		case IDLE:
			for (unsigned i = 0; i < st.n; i++) {
				CHECK(pomp_loop_idle_add(loop, on_idle, &idles) == 0, "idle_add");
				CHECK(pomp_loop_idle_add_with_cookie(loop, on_idle, &idles, &plan) == 0, "idle_add");
				if (st.how & 1)
					pump();
				if (st.how & 2)
					pomp_loop_idle_remove(loop, on_idle, &idles);
				if (st.how & 4)
					pomp_loop_idle_remove_by_cookie(loop, &plan);
				if (st.how & 8)
					pomp_loop_idle_flush_by_cookie(loop, &plan);
			}
			pomp_loop_idle_flush(loop);
			pump();
			break;
		case WATCHDOG:
			CHECK(pomp_loop_watchdog_enable(loop, 60000, on_wd, nullptr) == 0, "watchdog_enable");
			pomp_loop_watchdog_enable(loop, 60000, on_wd, nullptr);
			pump();
			CHECK(pomp_loop_watchdog_disable(loop) == 0, "watchdog_disable");
			break;
		case CTX: {
			struct pomp_ctx *c = (st.how & 1) ? pomp_ctx_new(on_event, &cli2) : pomp_ctx_new_with_loop(on_event, &cli2, loop);
			CHECK(c, "ctx_new");
			pomp_ctx_set_socket_cb(c, on_sock);
			pomp_ctx_setup_keepalive(c, 1, 5, 2, 1);
			int started = -1;
			if (st.how & 2)
				started = pomp_ctx_connect(c, caddr.sa(), caddr.len);
			else if (st.how & 4)
				started = pomp_ctx_listen(c, caddr.sa(), caddr.len);
			CHECK(started < 0 || pomp_ctx_destroy(c) < 0, "destroyed while started");
			pomp_ctx_process_fd(c);
			pomp_ctx_stop(c);
			CHECK(pomp_ctx_destroy(c) == 0, "ctx_destroy");
			cli2.ncon = cli2.ndis = 0;
			break;
		}
		case WAKE:
			pomp_loop_wakeup(loop);
			if (st.how & 1)
				pomp_ctx_wakeup(srv.ctx);
			if (st.how & 2)
				pomp_loop_process_fd(loop);
			pump();
			break;
		case REFUSED: {
			pomp_ctx_listen(srv.ctx, saddr.sa(), saddr.len);
			pomp_ctx_connect(srv.ctx, saddr.sa(), saddr.len);
			pomp_ctx_set_raw(srv.ctx, on_raw);
			pomp_ctx_send(cli.ctx, 1, "%s", "not connected");
			pomp_ctx_send(cli.ctx, 1, "%x", nullfd);
			static const char *volatile bad = "%q";
			pomp_ctx_send(cli.ctx, 1, bad);
			pomp_ctx_send(srv.ctx, 1, "%p%u", big.data(), 5000u);
			for (int i = 0; i < 3; i++) { // to those that stay
				pump();
				for (int p : perms)
					drain(p);
			}
			pomp_ctx_send(dg.ctx, 1, "%u", 5u);
			pomp_ctx_listen(cli2.ctx, nullptr, 0);
			struct sockaddr_storage ss;
			uint32_t len = sizeof(ss);
			pomp_addr_parse("inet:127.0.0.1:x", (struct sockaddr *)&ss, &len);
			len = sizeof(ss);
			pomp_addr_parse("inet:127.0.0.1:80", (struct sockaddr *)&ss, &len);
			char t[200];
			pomp_addr_format(t, sizeof(t), saddr.sa(), saddr.len);
			char *dst = nullptr;
			if (pomp_addr_get_real_addr("unix:@abc", &dst) == 0)
				vf_free(dst);
			break;
		}
		case ADDR: addresses(st); break;
		default: break;
		}
	}
	// What the functions on addresses get from the C library counts as well: all the
	// memory of the process is watched over calls that nothing else comes between.
	void addresses(const Step &st)
	{
		static const char *const texts[] = {"inet:127.0.0.1:80", "inet6:::1:80", "unix:/tmp/x", "unix:@abc", "inet:1.2.3.4:x",
			"inet6:zz:1", "inet:127.0.0.1:99999", "unix:", "inet6:fe80::1:65535", "inet:1.2.3:4:5", "inet:nowhere:1", "ipx:1:2"};
		auto once = [&] {
			for (unsigned i = 0; i < sizeof(texts) / sizeof(texts[0]); i++) {
				if (!(st.how >> i & 1))
					continue;
				struct sockaddr_storage ss;
				uint32_t len = sizeof(ss);
				char t[200], *dst = nullptr;
				if (pomp_addr_parse(texts[i], (struct sockaddr *)&ss, &len) == 0)
					pomp_addr_format(t, sizeof(t), (struct sockaddr *)&ss, len);
				len = 4;
				pomp_addr_parse(texts[i], (struct sockaddr *)&ss, &len);
				if (pomp_addr_get_real_addr(texts[i], &dst) == 0)
					vf_free(dst);
			}
		};
		for (int i = 0; i < 3; i++)
			once();
		size_t a = 0, b = heap_bytes();
		for (int n = 8; n <= 64; n *= 2) {
			a = b;
			for (int i = 0; i < n; i++)
				once();
			b = heap_bytes();
			if (b < a + 8 * (size_t)n)
				break;
			if (n == 64)
				fail("addresses parsed and formatted %d times: %zu bytes more than before", n, b - a);
		}
	}
	void round()
	{
		for (auto &st : plan)
			run(st);
		pump();
	}
};

std::vector<std::string> cut(Gen &g, const std::string &s, unsigned maxn)
{
	std::vector<std::string> v;
	size_t p = 0;
	while (p < s.size()) {
		size_t n = v.size() + 1 >= maxn ? s.size() - p : 1 + (size_t)g.below(s.size() - p);
		v.push_back(s.substr(p, n));
		p += n;
	}
	return v;
}
Step gen_step(Gen &g)
{
	Step st;
	st.k = (Kind)g.weighted({5, 2, 6, 4, 2, 3, 3, 3, 3, 2, 2, 2, 2, 2, 1, 2, 1, 1, 1, 2, 1});
	st.n = 1 + (unsigned)g.below(4);
	st.how = (unsigned)g.below(1u << 12);
	st.id = (uint32_t)g.below(1000);
	st.t = 1 + g.below(3000);
	unsigned a = 0, b = 0;
	switch (st.k) {
	case PEER: case STREAM: case BUFFER:
		st.chunks = cut(g, gen_stream(g, a, b, st.k == PEER), 5);
		break;
	case TALK:
		for (unsigned i = 0; i < st.n; i++)
			st.chunks.push_back(ref::message((uint32_t)g.below(100), gen_args(g, 4)));
		for (auto &c : st.chunks)
			if (c.size() > 30000)
				c = ref::message(1, {});
		break;
	case DGRAM:
		for (unsigned i = 0; i < st.n; i++) {
			std::string s = g.flip() ? ref::message((uint32_t)g.below(100), gen_args(g, 3)) : gen_stream(g, a, b, true);
			if (s.size() > 60000)
				s.resize(60000);
			st.chunks.push_back(s);
		}
		break;
	case MSG:
		st.args = gen_args(g, 8);
		break;
	default: break;
	}
	for (size_t i = 0; i < st.chunks.size(); i++)
		st.fds.push_back(g.chance(1, 3) ? 1 + (unsigned)g.below(3) : 0);
	return st;
}

struct Level {
	long blocks, bytes, fds, timers;
	static Level now() { return {vf_live, vf_live_bytes, vf_count_fds(), vf_ptimers}; }
};
}

// ROUNDS repetitions may not add one thing every other time
static const int WARM = 3, ROUNDS = 10;

PBT_TARGET(c34_steady, "a plan with two kinds of steps or more, repeated 10 times", 1, 60)
{
	Clean clean;
	{
		Impls impls;
		vf_virtual_time = 1;
		vf_alloc_cap = 1u << 25;
		bool poll = g.flip();
		if (!set_loop_impl(poll))
			return;
		Lab l;
		l.big.assign(300000, 'b');
		unsigned kinds = 0;
		do {
			Step st = gen_step(g);
			kinds |= 1u << st.k;
			l.plan.push_back(st);
		} while (g.more(4) && l.plan.size() < 10);
		l.build(g);
		note("loop: %s, server: %s%s\n", poll ? "poll" : "epoll", tr_names[l.tr], l.srv.raw ? " raw" : "");
		for (auto &st : l.plan) {
			size_t bytes = 0;
			for (auto &c : st.chunks)
				bytes += c.size();
			note("  %s x%u how=%#x%s%zu bytes in %zu chunks, %zu args\n", names[st.k], st.n, st.how, " ", bytes, st.chunks.size(), st.args.size());
		}
		for (int i = 0; i < WARM; i++)
			l.round();
		// A growth must go on to be one: what is only cached or rounded up stops.
		Level a = Level::now(), b = a;
		int rounds = ROUNDS;
		for (int phase = 0; phase < 3; phase++, rounds *= 2) {
			a = b;
			for (int i = 0; i < rounds; i++)
				l.round();
			b = Level::now();
			bool grew = b.blocks - a.blocks >= rounds / 2 || b.fds - a.fds >= rounds / 2 || b.timers - a.timers >= rounds / 2 ||
				b.bytes - a.bytes >= rounds * 8;
			if (!grew)
				break;
			LABEL("growth to confirm");
			if (phase == 2)
				fail("%d repetitions of a plan that leaves nothing: %ld block(s), %ld byte(s), %ld descriptor(s), %ld timer(s) more than before",
				     rounds, b.blocks - a.blocks, b.bytes - a.bytes, b.fds - a.fds, b.timers - a.timers);
		}
		for (int k = 0; k < NKINDS; k++)
			if (kinds & (1u << k)) {
				static int ids[NKINDS];
				static bool init;
				if (!init) {
					init = true;
					for (int i = 0; i < NKINDS; i++)
						ids[i] = -1;
				}
				count_label(&ids[k], names[k]);
			}
		if (kinds & (kinds - 1))
			nontrivial();
		l.teardown();
	}
	clean.verify();
}
