// Traces with PSB packets, partial PSB packets, and payload that looks like them.
#pragma once
#include "ptwire.hpp"
using namespace pbt; using namespace wire;

// A synchronization point is the last 16 bytes of a maximal run of the
// repeating 02 82 pattern of at least that size.  (Preceding payload that
// looks like the pattern cannot be told apart; the PSB ends where it ends.)
static std::vector<size_t> psbs(const Bytes &b)
{
	std::vector<size_t> r;
	for (size_t i = 0; i + 1 < b.size();) {
		if (b[i] == 0x02 && b[i + 1] == 0x82) {
			size_t j = i; while (j + 1 < b.size() && b[j] == 0x02 && b[j + 1] == 0x82) j += 2;
			if (j - i >= 16) r.push_back(j - 16);
			i = j;
		} else i++;
	}
	return r;
}

static void add_pattern(Bytes &b, size_t bytes, bool odd) { for (size_t i = 0; i < bytes; ++i) b.push_back(((i & 1) != odd) ? 0x82 : 0x02); }

static Bytes gen_trace(Source &s)
{
	Bytes b; size_t n = s.range(1, 10);
	for (size_t i = 0; i < n; ++i) {
		switch (s.weighted({5, 4, 3, 2, 2, 1, 1})) {
		case 0: add_pattern(b, 16, false); break;
		case 1: { size_t m = s.range(1, 4); for (size_t j = 0; j < m; ++j) encode(b, gen_packet(s, true)); break; }
		case 2: { size_t m = s.below(20); for (size_t j = 0; j < m; ++j) b.push_back(s.chance(1, 2) ? (uint8_t)(s.flip() ? 0x82 : 0x02) : s.byte()); break; }
		case 3: add_pattern(b, s.range(1, 15), s.flip()); break;       // incomplete
		case 4: add_pattern(b, s.range(15, 40), s.flip()); break;      // overlong or preceded by look-alike
		case 5: { // payload that looks like the pattern just before a PSB
			pt_packet p; memset(&p, 0, sizeof(p)); p.type = s.flip() ? ppt_tip : ppt_ptw;
			if (p.type == ppt_tip) { p.payload.ip.ipc = pt_ipc_full; p.payload.ip.ip = 0x8202820282028202ull; } else { p.payload.ptw.plc = 1; p.payload.ptw.payload = 0x8202820282028202ull; }
			encode(b, p); add_pattern(b, 16, false); break;
		}
		default: { size_t m = s.range(1, 60); for (size_t j = 0; j < m; ++j) b.push_back(0); break; }
		}
	}
	if (b.size() && s.chance(1, 4)) { size_t cut = s.below(b.size()); b.erase(b.begin(), b.begin() + cut); }
	if (s.chance(1, 4) && b.size() > 1) b.resize(s.range(1, b.size()));
	if (b.empty()) b.push_back(0);
	return b;
}
