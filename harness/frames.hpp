// Streams of messages and garbage, and the reference framing.
#pragma once
#include "ref.hpp"
using pbt::Gen;

struct Frame { uint32_t id; std::string bytes; };

// What the stream contains: at each 'POMP' outside a message, 12 bytes of header;
// a size of at least 12 starts a message of that size, a smaller or unsupported
// one is skipped with its header.
// Sizes above 'cap' can not be allocated; those just below may or may not.
static bool ambiguous;
static std::vector<Frame> ref_frames(const std::string &s, uint64_t cap)
{
	uint64_t maxsize = cap / 2;
	ambiguous = false;
	std::vector<Frame> out;
	size_t p = 0;
	for (;;) {
		p = s.find("POMP", p);
		if (p == std::string::npos || s.size() - p < 12)
			return out;
		uint32_t id = 0, sz = 0;
		for (int i = 0; i < 4; i++) {
			id |= (uint32_t)(uint8_t)s[p + 4 + i] << (8 * i);
			sz |= (uint32_t)(uint8_t)s[p + 8 + i] << (8 * i);
		}
		if (sz > maxsize && sz <= cap)
			ambiguous = true;
		if (sz < 12 || sz > maxsize) {
			p += 12;
			continue;
		}
		if (s.size() - p < sz)
			return out;
		out.push_back({id, s.substr(p, sz)});
		p += sz;
	}
}

static std::string gen_stream(Gen &g, unsigned &nmsg, unsigned &njunk, bool huge)
{
	std::string s;
	size_t maxdata = gen_maxdata(g);
	unsigned n = 1 + (unsigned)g.below(8);
	for (unsigned k = 0; k < n; k++) {
		switch (g.weighted({5, 2, 2, 1, 1, 1})) {
		case 0: {
			uint32_t id = (uint32_t)g.integer(32);
			std::string p = g.flip() ? g.bytes(g.size(maxdata)) : std::string();
			if (g.flip()) {
				std::vector<Arg> v = gen_args(g, 4);
				for (auto &a : v)
					ref::arg(p, a);
			}
			if (g.chance(1, 6))
				p += "POMP"; // magic inside a payload is payload
			s += ref::frame(id, p);
			nmsg++;
			break;
		}
		case 1: { // junk of magic letters
			size_t m = (size_t)g.below(9);
			for (size_t i = 0; i < m; i++)
				s += "POMPX"[g.below(5)];
			njunk++;
			break;
		}
		case 2: s += g.bytes(g.size(30)); njunk++; break;
		case 3: { // size too small
			std::string h = "POMP";
			ref::le(h, g.integer(32), 4);
			ref::le(h, g.below(12), 4);
			s += h;
			njunk++;
			break;
		}
		case 4: s += std::string("POMP").substr(0, 1 + g.below(3)); njunk++; break;
		default:
			if (huge) {
				std::string h = "POMP";
				ref::le(h, g.integer(32), 4);
				ref::le(h, 0x04000000u + g.below(0xf0000000u), 4);
				s += h;
				njunk++;
				LABEL("impossible size");
			}
			break;
		}
	}
	if (g.chance(1, 4)) { // unfinished at the end
		std::string f = ref::frame(1, g.bytes(20));
		s += f.substr(0, g.below(f.size()));
	}
	return s;
}

