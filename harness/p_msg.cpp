// C07: message objects follow their write/finish/clear/copy life cycle.
#include "ref.hpp"
using namespace pbt;

namespace {
enum St { EMPTY, OPEN, FINISHED, DIRTY };
const char *const stname[] = {"empty", "open", "finished", "failed"};
struct MMsg {
	struct pomp_msg *m;
	St st = EMPTY;
	uint32_t id = 0;
	std::string payload;   // OPEN
	std::string bytes;     // FINISHED
	struct pomp_buffer *buf = nullptr; // identity, when known
	unsigned extra = 0;    // references the harness took on the buffer
	bool writable = false; // OPEN with an encoder still able to append
	int shares = -1;       // other message using the same buffer
};
struct MEnc {
	struct pomp_encoder *e;
	int msg = -1; // index of message
};

void check(MMsg &m, const char *op)
{
	switch (m.st) {
	case EMPTY:
		CHECK(pomp_msg_get_buffer(m.m) == nullptr, "%s: empty message has a buffer", op);
		break;
	case OPEN: {
		CHECK(pomp_msg_get_id(m.m) == m.id, "%s: id is %u, expected %u", op, pomp_msg_get_id(m.m), m.id);
		struct pomp_buffer *b = pomp_msg_get_buffer(m.m);
		CHECK(b, "%s: message being written has no buffer", op);
		const void *cd = nullptr;
		size_t len = 0;
		pomp_buffer_get_cdata(b, &cd, &len, nullptr);
		if (m.payload.empty())
			break;
		CHECK(len == 12 + m.payload.size(), "%s: length is %zu, expected %zu", op, len, 12 + m.payload.size());
		CHECK(memcmp((const char *)cd + 12, m.payload.data(), m.payload.size()) == 0, "%s: payload differs", op);
		break;
	}
	case FINISHED:
		CHECK(pomp_msg_get_id(m.m) == m.id, "%s: id is %u, expected %u", op, pomp_msg_get_id(m.m), m.id);
		CHECK(msg_bytes(m.m) == m.bytes, "%s: bytes of a finished message are %s, expected %s", op,
		      hex(msg_bytes(m.m).data(), msg_bytes(m.m).size()).c_str(), hex(m.bytes.data(), m.bytes.size()).c_str());
		break;
	case DIRTY:
		break;
	}
}
} // namespace

PBT_TARGET(c07_model, "histories of message and encoder operations on up to 4 messages, in allowed and refused order, compared with a state "
	"model; non-trivial: a message finished, and an operation refused in its state", 4)
{
	Clean cl;
	std::vector<MMsg> ms;
	std::vector<MEnc> es;
	bool fin = false, refused = false;
	unsigned steps = 0;
	es.push_back({pomp_encoder_new()});
	es.push_back({pomp_encoder_new()});
	auto drop = [&](int mi) { // encoders of a message that goes away are not used any more
		for (auto &e : es)
			if (e.msg == mi) {
				pomp_encoder_clear(e.e);
				e.msg = -1;
			}
	};
	auto noref = [&](MMsg &m) {
		while (m.extra) {
			pomp_buffer_unref(m.buf);
			m.extra--;
		}
	};
	do {
		if (ms.empty() || (ms.size() < 4 && g.chance(1, 5))) {
			MMsg m;
			unsigned k = ms.empty() ? 0 : (unsigned)g.below(3);
			if (k == 0) {
				note("m%zu = new", ms.size());
				m.m = pomp_msg_new();
				CHECK(m.m, "new");
			} else if (k == 1) {
				MMsg &s = ms[g.below(ms.size())];
				if (s.st == DIRTY)
					continue;
				note("m%zu = new_copy(m%d) (%s)", ms.size(), (int)(&s - ms.data()), stname[s.st]);
				m.m = pomp_msg_new_copy(s.m);
				CHECK(m.m, "new_copy");
				m.st = s.st;
				m.id = s.id;
				m.payload = s.payload;
				m.bytes = s.bytes;
				if (m.st != EMPTY)
					CHECK(pomp_msg_get_buffer(m.m) != pomp_msg_get_buffer(s.m), "the copy shares the buffer of its source");
				check(s, "source of copy");
			} else { // from the buffer of a finished message: shared
				size_t si = (size_t)g.below(ms.size());
				MMsg &s = ms[si];
				if (s.st != FINISHED)
					continue;
				note("m%zu = new_with_buffer(buffer of m%zu)", ms.size(), si);
				struct pomp_buffer *b = pomp_msg_get_buffer(s.m);
				m.m = pomp_msg_new_with_buffer(b);
				CHECK(m.m, "new_with_buffer of the buffer of a finished message");
				CHECK(pomp_msg_get_buffer(m.m) == b, "new_with_buffer uses another buffer");
				CHECK(pomp_buffer_is_shared(b), "new_with_buffer took no reference");
				m.st = FINISHED;
				m.id = s.id;
				m.bytes = s.bytes;
			}
			ms.push_back(m);
			check(ms.back(), "new");
			continue;
		}
		size_t mi = (size_t)g.below(ms.size());
		MMsg &m = ms[mi];
		static const char *const names[] = {"init", "finish", "clear", "write", "encoder_init", "encoder_write", "encoder_writev",
			"ref buffer", "unref buffer", "destroy", "failing write"};
		unsigned op = g.weighted({5, 5, 3, 4, 5, 8, 3, 1, 2, 1, 1});
		const char *nm = names[op];
		uint32_t id = (uint32_t)g.integer(32);
		int r;
		switch (op) {
		case 0:
			note("m%zu init(%u) (%s)", mi, id, stname[m.st]);
			r = pomp_msg_init(m.m, id);
			if (m.st == EMPTY) {
				CHECK(r == 0, "init: error %d", r);
				m.st = OPEN;
				m.id = id;
				m.payload.clear();
			} else {
				CHECK(r == -EPERM, "init of a message in use (%s): %d", stname[m.st], r);
				refused = true;
			}
			break;
		case 1:
			note("m%zu finish (%s)", mi, stname[m.st]);
			if (m.st == DIRTY)
				break;
			r = pomp_msg_finish(m.m);
			if (m.st == OPEN && !m.extra) {
				CHECK(r == 0, "finish: error %d", r);
				m.st = FINISHED;
				m.bytes = ref::frame(m.id, m.payload);
				fin = true;
			} else {
				CHECK(r < 0, "finish of a message (%s%s) succeeded", stname[m.st], m.extra ? ", shared" : "");
				refused = true;
			}
			break;
		case 2:
			note("m%zu clear (%s)", mi, stname[m.st]);
			r = pomp_msg_clear(m.m);
			CHECK(r == 0, "clear: error %d", r);
			drop((int)mi);
			m.st = EMPTY;
			noref(m);
			break;
		case 3:
		case 10: {
			std::vector<Arg> v = gen_args(g, 4, true);
			std::string f;
			for (auto &a : v)
				f += spec(g, a.ty, false);
			if (op == 10)
				f += "%o";
			note("m%zu %s(%u, \"%s\") (%s)", mi, nm, id, f.c_str(), stname[m.st]);
			VaList va(write_slots(g, v));
			r = pomp_msg_writev(m.m, id, f.c_str(), va.ap);
			if (m.st != EMPTY) {
				CHECK(r == -EPERM, "write to a message in use (%s): %d", stname[m.st], r);
				refused = true;
			} else if (op == 10) {
				CHECK(r < 0, "write with an invalid format succeeded");
				drop((int)mi);
				m.st = DIRTY;
				m.id = id;
			} else {
				CHECK(r == 0, "write: error %d", r);
				m.st = FINISHED;
				m.id = id;
				m.bytes = ref::message(id, v);
				fin = true;
			}
			break;
		}
		case 4: {
			MEnc &e = es[g.below(es.size())];
			if (m.st == DIRTY || (m.st == OPEN && !m.payload.empty()))
				break;
			drop((int)mi);
			note("encoder %d init(m%zu) (%s)", (int)(&e - es.data()), mi, stname[m.st]);
			CHECK(pomp_encoder_init(e.e, m.m) == 0, "encoder_init");
			e.msg = (int)mi;
			break;
		}
		case 5:
		case 6: {
			MEnc &e = es[g.below(es.size())];
			if (e.msg < 0) {
				CHECK(pomp_encoder_write_u8(e.e, 1) == -EINVAL, "write with an encoder without message succeeded");
				break;
			}
			MMsg &t = ms[e.msg];
			std::vector<Arg> v = gen_args(g, op == 5 ? 1 : 3);
			if (v.empty())
				break;
			std::string add, f;
			for (auto &a : v) {
				ref::arg(add, a);
				f += spec(g, a.ty, false);
			}
			note("encoder %d writes %s to m%d (%s)", (int)(&e - es.data()), show(v).c_str(), e.msg, stname[t.st]);
			if (op == 5) {
				r = enc_typed(e.e, v[0]);
				if (v.size() > 1) {
					add.clear();
					ref::arg(add, v[0]);
				}
			} else {
				VaList va(write_slots(g, v));
				r = pomp_encoder_writev(e.e, f.c_str(), va.ap);
			}
			if (t.st == OPEN && !t.extra) {
				CHECK(r == 0, "%s: error %d", nm, r);
				t.payload += add;
			} else {
				CHECK(r < 0, "%s to a message (%s%s) succeeded", nm, stname[t.st], t.extra ? ", shared" : "");
				if (t.st == FINISHED)
					CHECK(r == -EPERM, "%s to a finished message: %d", nm, r);
				refused = true;
			}
			check(t, nm);
			break;
		}
		case 7:
			if (m.st == EMPTY || m.st == DIRTY || m.extra > 2)
				break;
			note("m%zu buffer ref", mi);
			m.buf = pomp_msg_get_buffer(m.m);
			pomp_buffer_ref(m.buf);
			m.extra++;
			break;
		case 8:
			note("m%zu buffer unref (%u)", mi, m.extra);
			noref(m);
			break;
		default:
			note("m%zu destroy (%s)", mi, stname[m.st]);
			drop((int)mi);
			{ // a buffer the application kept outlives the message
				const void *cd = nullptr;
				size_t len = 0;
				CHECK(pomp_msg_destroy(m.m) == 0, "destroy");
				if (m.extra && m.st == FINISHED) {
					CHECK(pomp_buffer_get_cdata(m.buf, &cd, &len, nullptr) == 0 && len == m.bytes.size() &&
					      memcmp(cd, m.bytes.data(), len) == 0, "the buffer kept from a message changed when it was destroyed");
				}
			}
			noref(m);
			ms.erase(ms.begin() + mi);
			for (auto &e : es)
				if (e.msg > (int)mi)
					e.msg--;
			break;
		}
		for (auto &x : ms)
			check(x, nm);
	} while (++steps < 80 && g.more(20));
	for (size_t i = 0; i < ms.size(); i++) {
		CHECK(pomp_msg_destroy(ms[i].m) == 0, "destroy");
		noref(ms[i]);
	}
	for (auto &e : es)
		CHECK(pomp_encoder_destroy(e.e) == 0, "encoder_destroy");
	if (fin && refused)
		nontrivial();
	cl.verify();
}

PBT_TARGET(c07_from_buffer, "messages made from buffers whose magic, size and length are right or nearly right; non-trivial: exactly one thing is "
	"wrong", 2)
{
	Clean cl;
	uint32_t id = (uint32_t)g.integer(32);
	std::string p;
	for (auto &a : gen_args(g, 4))
		ref::arg(p, a);
	std::string s = ref::frame(id, p);
	unsigned how = (unsigned)g.below(6);
	bool ok = true;
	switch (how) {
	case 0: break;
	case 1: { // one magic byte
		size_t k = (size_t)g.below(4);
		char c = (char)g.below(256);
		ok = s[k] == c;
		s[k] = c;
		break;
	}
	case 2: { // size field
		uint32_t sz = (uint32_t)(g.flip() ? s.size() + (int)g.range(-3, 3) : g.integer(32));
		if (g.chance(1, 3))
			sz = (uint32_t)s.size() ^ (1u << g.below(32));
		ok = sz == s.size();
		for (int i = 0; i < 4; i++)
			s[8 + i] = (char)(sz >> (8 * i));
		break;
	}
	case 3: // truncated
		s.resize((size_t)g.below(s.size()));
		ok = false;
		break;
	case 4: // header alone announcing less than a header
		s.resize(g.below(12));
		if (s.size() >= 9)
			s[8] = (char)s.size();
		ok = false;
		break;
	default: // trailing bytes
		s += g.bytes(1 + g.size(300));
		ok = false;
		break;
	}
	if (!ok)
		nontrivial();
	note("%s: %s", ok ? "consistent" : "inconsistent", hex(s.data(), s.size()).c_str());
	struct pomp_buffer *b = pomp_buffer_new_with_data(s.data(), s.size());
	CHECK(b, "buffer");
	struct pomp_msg *m = pomp_msg_new_with_buffer(b);
	CHECK((m != nullptr) == ok, "message of %zu bytes %s", s.size(), m ? "accepted" : "refused");
	CHECK((pomp_buffer_is_shared(b) != 0) == ok, "wrong number of references on the buffer after the message was %s", m ? "accepted" : "refused");
	if (m) {
		CHECK(pomp_msg_get_id(m) == id, "id %u, expected %u", pomp_msg_get_id(m), id);
		CHECK(pomp_msg_get_buffer(m) == b, "not the given buffer");
		CHECK(msg_bytes(m) == s, "bytes changed");
		CHECK(pomp_msg_init(m, 1) == -EPERM, "init of a message made from a buffer");
		CHECK(pomp_msg_finish(m) < 0, "finish of a message made from a buffer");
		struct pomp_encoder *e = pomp_encoder_new();
		pomp_encoder_init(e, m);
		CHECK(pomp_encoder_write_u8(e, 1) == -EPERM, "write to a message made from a buffer");
		pomp_encoder_destroy(e);
		CHECK(msg_bytes(m) == s, "bytes changed by refused operations");
		if (g.flip()) {
			CHECK(pomp_msg_clear(m) == 0, "clear");
			CHECK(!pomp_buffer_is_shared(b), "clear kept its reference");
			CHECK(pomp_msg_write(m, 5, "%u", 7u) == 0, "write after clear");
			CHECK(msg_bytes(m) == ref::message(5, {{T_U32, 7, ""}}), "bytes after clear and write");
		}
		CHECK(pomp_msg_destroy(m) == 0, "destroy");
	}
	CHECK(!pomp_buffer_is_shared(b), "message destroyed, buffer still shared");
	const void *cd = nullptr;
	size_t l = 0;
	CHECK(pomp_buffer_get_cdata(b, &cd, &l, nullptr) == 0 && l == s.size() && (l == 0 || memcmp(cd, s.data(), l) == 0), "buffer changed");
	pomp_buffer_unref(b);
	cl.verify();
}
