// C05: stream decoding is independent of chunking and resynchronises.
#include "frames.hpp"
using namespace pbt;

static void run(Gen &g, const std::string &s, const std::vector<Frame> &want, bool onebyte, size_t maxchunk = 5000)
{
	struct pomp_prot *prot = pomp_prot_new();
	std::vector<std::pair<struct pomp_msg *, size_t>> kept;
	size_t pos = 0, got = 0;
	CHECK(prot, "pomp_prot_new");
	static struct pomp_msg *const stale = (struct pomp_msg *)0x1;
	auto hand_back = [&] { // some, now, later or never
		while (!kept.empty() && g.flip()) {
			size_t k = (size_t)g.below(kept.size());
			CHECK(msg_bytes(kept[k].first) == want[kept[k].second].bytes, "kept message %zu changed", kept[k].second);
			if (g.flip())
				CHECK(pomp_prot_release_msg(prot, kept[k].first) == 0, "release");
			else
				pomp_msg_destroy(kept[k].first);
			kept.erase(kept.begin() + k);
		}
	};
	while (pos < s.size()) {
		size_t chunk = onebyte ? 1 : std::min<size_t>(s.size() - pos, 1 + g.size(g.flip() ? 20 : maxchunk));
		// a block of exactly that size
		char *blk = (char *)malloc(chunk);
		memcpy(blk, s.data() + pos, chunk);
		size_t off = 0;
		while (off < chunk) {
			struct pomp_msg *m = stale;
			int r = pomp_prot_decode_msg(prot, blk + off, chunk - off, &m);
			CHECK(r >= 1 && (size_t)r <= chunk - off, "pomp_prot_decode_msg consumed %d of %zu bytes", r, chunk - off);
			off += (size_t)r;
			if (!m && !kept.empty() && g.chance(1, 4))
				hand_back(); // in the middle of another one
			CHECK(m != stale, "no NULL returned although more input is needed");
			if (!m)
				continue;
			CHECK(got < want.size(), "message %u delivered that is not in the stream (%zu expected)", pomp_msg_get_id(m), want.size());
			CHECK(pomp_msg_get_id(m) == want[got].id, "message %zu: id %u, expected %u", got, pomp_msg_get_id(m), want[got].id);
			CHECK(msg_bytes(m) == want[got].bytes, "message %zu differs from the bytes of the stream", got);
			if (g.chance(1, 8)) { // it is finished
				struct pomp_encoder *enc = pomp_encoder_new();
				CHECK(enc && pomp_encoder_init(enc, m) == 0, "encoder");
				CHECK(pomp_encoder_write_u8(enc, 1) < 0 && pomp_encoder_write(enc, "%u", 1u) < 0, "a message received can be written into");
				pomp_encoder_destroy(enc);
				CHECK(pomp_msg_finish(m) < 0 && pomp_msg_init(m, 5) < 0, "a message received can be finished or initialised");
				CHECK(msg_bytes(m) == want[got].bytes, "message %zu altered by calls that are refused", got);
			}
			kept.push_back({m, got});
			got++;
			hand_back();
		}
		free(blk);
		pos += chunk;
	}
	CHECK(got == want.size(), "%zu messages delivered, the stream contains %zu", got, want.size());
	for (auto &k : kept) {
		CHECK(msg_bytes(k.first) == want[k.second].bytes, "kept message %zu changed", k.second);
		if (g.flip())
			pomp_prot_release_msg(prot, k.first);
		else
			pomp_msg_destroy(k.first);
	}
	pomp_prot_destroy(prot);
}

PBT_TARGET(c05_chunks, "a stream of messages, garbage rich in magic bytes, bad headers and truncations, cut at random places; non-trivial: "
	"at least 2 messages and 1 piece of garbage", 4)
{
	Clean cl;
	unsigned nm = 0, nj = 0;
	std::string s = gen_stream(g, nm, nj, false);
	std::vector<Frame> want = ref_frames(s, 1u << 25);
	if (ambiguous)
		return;
	note("%zu bytes, %zu messages: %s", s.size(), want.size(), hex(s.data(), s.size(), 300).c_str());
	vf_alloc_cap = 1u << 25;
	if (want.size() >= 2 && nj)
		nontrivial();
	run(g, s, want, s.size() < 400 && g.chance(1, 4));
	cl.verify();
}

PBT_TARGET(c05_memory, "as c05_chunks with headers announcing sizes for which no memory is available: these are skipped, messages after them "
	"delivered; non-trivial: such a header before a message", 1)
{
	Clean cl;
	unsigned nm = 0, nj = 0;
	std::string s = gen_stream(g, nm, nj, true);
	vf_alloc_cap = 1u << 25;
	std::vector<Frame> want = ref_frames(s, 1u << 25);
	if (ambiguous)
		return;
	note("%zu bytes, %zu messages: %s", s.size(), want.size(), hex(s.data(), s.size(), 300).c_str());
	if (want.size() >= 1 && nj)
		nontrivial();
	run(g, s, want, false);
	cl.verify();
}

PBT_TARGET(c05_large, "messages of up to 10 MB and garbage, cut in pieces of up to 3 MB; non-trivial: a message of more than 64 KB in several pieces", 1)
{
	Clean cl;
	std::string s;
	unsigned big = 0;
	do {
		size_t n = (size_t)g.below(1u << (12 + 2 * g.below(6))) + g.below(40);
		n = std::min<size_t>(n, 10000000);
		big += n > 65536;
		s += ref::frame((uint32_t)g.integer(32), g.bytes(n));
		if (g.chance(1, 3))
			s += std::string("POMPOM").substr(0, g.below(7)) + g.bytes(g.below(20));
	} while (g.more(2) && s.size() < 12000000);
	std::vector<Frame> want = ref_frames(s, 1u << 25);
	if (ambiguous)
		return;
	note("%zu bytes, %zu messages: %s", s.size(), want.size(), hex(s.data(), s.size(), 60).c_str());
	vf_alloc_cap = 1u << 25;
	if (big)
		nontrivial();
	run(g, s, want, false, 3000000);
	cl.verify();
}
