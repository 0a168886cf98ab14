// C02: the packet decoder on arbitrary bytes.
#include "ptwire.hpp"
using namespace pbt; using namespace wire;

// Bytes that are somewhat packet-like: packets, damaged packets, opcodes
// followed by arbitrary payload, repetitive patterns and noise.
static Bytes gen_bytes(Source &s, size_t maxlen)
{
	Bytes b; size_t n = s.range(1, 12);
	for (size_t i = 0; i < n && b.size() < maxlen; ++i) {
		switch (s.weighted({4, 3, 3, 2, 1, 1})) {
		case 0: encode(b, gen_packet(s, true)); break;
		case 1: { // damaged packet
			Bytes k; encode(k, gen_packet(s, true));
			size_t m = s.range(1, 3);
			for (size_t j = 0; j < m && k.size(); ++j) {
				size_t at = s.below(k.size());
				switch (s.below(3)) { case 0: k[at] ^= (uint8_t)(1u << s.below(8)); break; case 1: k[at] = s.byte(); break; default: k.erase(k.begin() + at); break; }
			}
			b.insert(b.end(), k.begin(), k.end());
			break;
		}
		case 2: { // extended opcode
			static const uint8_t known[] = {0x82, 0xa3, 0x43, 0xf3, 0x23, 0x03, 0x73, 0x83, 0xc8, 0xc3, 0x62, 0xe2, 0xc2, 0x22, 0xa2, 0x12, 0x32, 0x52, 0x72, 0x92, 0xb2, 0xd2, 0xf2, 0x13, 0x53};
			b.push_back(0x02); b.push_back(s.chance(2, 3) ? known[s.below(sizeof(known))] : s.byte());
			if (b.back() == 0xc3) b.push_back(s.flip() ? 0x88 : s.byte());
			size_t m = s.below(10); for (size_t j = 0; j < m; ++j) b.push_back(s.byte());
			break;
		}
		case 3: { // plain opcode with payload
			b.push_back(s.byte()); size_t m = s.below(9); for (size_t j = 0; j < m; ++j) b.push_back(s.byte());
			break;
		}
		case 4: { size_t m = s.range(1, 20); for (size_t j = 0; j < m; ++j) b.push_back(s.byte()); break; }
		default: { // long cyc
			b.push_back((uint8_t)(0x07 | s.bits(5) << 3)); size_t m = s.range(1, 12); for (size_t j = 0; j < m; ++j) b.push_back((uint8_t)(s.bits(7) << 1 | (s.chance(1, 6) ? 0 : 1)));
			break;
		}
		}
	}
	if (b.size() > 1 && s.chance(1, 2)) b.resize(s.range(1, b.size()));
	return b;
}

// What the user callback does at some offset; a pure function of the case.
struct Cb {
	uint64_t salt; uint8_t *begin, *end; void *context; bool returns_zero; int weird;
	unsigned calls = 0; const uint8_t *last = nullptr; void *lastpriv = nullptr;
	int result(size_t off) const {
		uint64_t h = mix(salt, off);
		switch (h % 8) {
		case 0: return -pte_bad_opc;
		case 1: return -pte_bad_packet;
		case 2: return -(int)((h >> 8) % 20 + 1);
		case 3: return returns_zero ? 0 : 1;
		case 4: return (int)((h >> 8) % 300) + 1; // may be beyond 255 or the end
		case 5: return (int)((h >> 8) % 16) + 1;
		case 6: return 255 + (int)((h >> 8) % 2);
		default: return (int)((h >> 8) % 4) + 1;
		}
	}
	void *priv(size_t off) const { return (void *)(uintptr_t)(mix(salt, off + 1000) | 1); }
};

static std::string g_cberr;
static int callback(struct pt_packet_unknown *u, const struct pt_config *c, const uint8_t *pos, void *context)
{
	Cb *cb = (Cb *)context;
	cb->calls++; cb->last = pos;
	if (!u || !c) { g_cberr = "NULL arguments"; return -pte_bad_opc; }
	if (c->begin != cb->begin || c->end != cb->end || c->decode.context != context || c->decode.callback != callback) g_cberr = "wrong configuration";
	if (pos < cb->begin || cb->end <= pos) { g_cberr = "position outside of the buffer"; return -pte_bad_opc; }
	size_t off = (size_t)(pos - cb->begin);
	u->priv = cb->priv(off);
	return cb->result(off);
}

struct PktGuard { pt_packet_decoder *d; ~PktGuard() { if (d) pt_pkt_free_decoder(d); } };

// Corrupted packets: a CYC whose second byte was overwritten by an OVF (SKD007), a TMA with reserved bits and a bogus byte behind it (SKZ84).
static Bytes corrupted(Source &s)
{
	Bytes b;
	while (b.size() < 120 && !(b.size() && s.chance(1, 8))) {
		switch (s.below(4)) {
		case 0: { b.push_back((uint8_t)(s.byte() | 7)); if (s.chance(1, 8)) b.push_back((uint8_t)(s.byte() | 1)); b.push_back(s.chance(1, 6) ? s.byte() : 0x02); b.push_back(s.chance(1, 6) ? s.byte() : 0xf3); } break;
		case 1: { b.push_back(0x02); b.push_back(0x73); for (int k = 0; k < 5; ++k) b.push_back(s.chance(1, 3) ? 0 : s.byte()); if (s.flip()) b.push_back(s.byte()); } break;
		default: { Bytes q = gen_bytes(s, 10); b.insert(b.end(), q.begin(), q.end()); } break;
		}
	}
	return b;
}

static void decode_all(Source &s, Ctx &c, bool errata)
{
	Bytes b = errata ? corrupted(s) : gen_bytes(s, 120);
	if (b.empty()) b.push_back(s.byte());
	size_t n = b.size();
	unsigned mis = (unsigned)s.below(8);
	Buf buf(b, mis);
	// The same bytes followed by arbitrary others beyond the end.
	size_t extra = s.range(1, 24);
	Bytes b2 = b; for (size_t i = 0; i < extra; ++i) b2.push_back(s.byte());
	Buf buf2(b2, (unsigned)s.below(8));

	bool usecb = s.flip();
	Cb cb{s.bits(20), buf.p, buf.p + n, nullptr, s.flip(), 0}, cb2 = cb;
	cb2.begin = buf2.p; cb2.end = buf2.p + n;
	pt_config cfg = mkconfig(buf.p, n), cfg2 = mkconfig(buf2.p, n);
	if (usecb) { cfg.decode.callback = callback; cfg.decode.context = &cb; cfg2.decode.callback = callback; cfg2.decode.context = &cb2; }
	bool skd007 = errata && !s.chance(1, 5), skz84 = errata && !s.chance(1, 5); cfg.errata.skd007 = cfg2.errata.skd007 = skd007; cfg.errata.skz84 = cfg2.errata.skz84 = skz84; unsigned hits = 0;
	c.log("%s end=%zu callback=%d\n", hex(b).c_str(), n, usecb);

	PktGuard d{pt_pkt_alloc_decoder(&cfg)}, d2{pt_pkt_alloc_decoder(&cfg2)};
	CHECK(d.d && d2.d, "cannot allocate decoder");
	pt_packet pk; uint64_t off;
	CHECK_EQ(pt_pkt_next(d.d, &pk, sizeof(pk)), -pte_nosync, "next without sync");
	CHECK_EQ(pt_pkt_get_offset(d.d, &off), -pte_nosync, "get_offset without sync");
	CHECK_EQ(pt_pkt_get_sync_offset(d.d, &off), -pte_nosync, "get_sync_offset without sync");

	size_t pos = s.below(n + 1), sync = pos;
	CHECK_EQ(pt_pkt_sync_set(d.d, pos), 0, "sync_set"); CHECK_EQ(pt_pkt_sync_set(d2.d, pos), 0, "sync_set");
	unsigned good = 0; uint64_t h = usecb; g_cberr.clear();
	for (unsigned step = 0; step < 400; ++step) {
		pt_packet ref; int want = decode(ref, buf.p + pos, n - pos);
		bool called = false; std::string wants; int adv = 0, skip = 0;
		if (skd007 && want == 2 && ref.type == ppt_cyc && buf.p[pos + 1] == 0x02 && pos + 2 < n && buf.p[pos + 2] == 0xf3) {
			memset(&ref, 0, sizeof(ref)); ref.type = ppt_ovf; skip = 1; hits++; }
		if (skz84 && want == R_BAD && buf.p[pos] == 0x02 && buf.p[pos + 1] == 0x73) {
			if (n - pos < 8) want = R_EOS; else { memset(&ref, 0, sizeof(ref)); ref.type = ppt_invalid; want = 8; } hits++; }
		if (want >= 0) { adv = want; wants = str(ref); }
		else if (want == R_EOS) want = -pte_eos;
		else if (want == R_BAD) want = -pte_bad_packet;
		else if (!usecb) want = -pte_bad_opc;
		else {
			called = true;
			int r = cb.result(pos);
			if (r < 0) want = r;
			else if (r > 255) want = -pte_invalid;
			else if (pos + (size_t)r > n) want = -pte_eos;
			else { want = adv = r; wants = "unknown"; }
		}
		cb.calls = cb2.calls = 0;
		memset(&pk, 0xcc, sizeof(pk));
		int got = pt_pkt_next(d.d, &pk, sizeof(pk));
		CHECK(g_cberr.empty(), "offset %zu: callback called with %s", pos, g_cberr.c_str());
		CHECK(got == want, "offset %zu: status %d, expected %d (%s)", pos, got, want, wants.c_str());
		CHECK(cb.calls == (called ? 1u : 0u), "offset %zu: callback called %u times", pos, cb.calls);
		if (called) CHECK(cb.last == buf.p + pos, "callback position %td, expected %zu", cb.last - buf.p, pos);
		if (got >= 0) {
			CHECK(pk.size == adv, "offset %zu: packet size %u, expected %d", pos, pk.size, adv);
			CHECK(str(pk) == wants, "offset %zu: packet %s, expected %s", pos, str(pk).c_str(), wants.c_str());
			if (called) { CHECK(pk.payload.unknown.packet == buf.p + pos, "unknown packet pointer"); CHECK(pk.payload.unknown.priv == cb.priv(pos), "unknown packet priv"); }
			good++; c.label(type_name(pk.type));
		} else c.label(called ? "callback error" : pt_errstr(pt_errcode(got)));
		pt_packet pk2; int got2 = pt_pkt_next(d2.d, &pk2, sizeof(pk2));
		CHECK(got2 == got, "offset %zu: status %d depends on bytes beyond the end (%d)", pos, got, got2);
		if (got >= 0) CHECK(str(pk2) == str(pk) && pk2.size == pk.size, "offset %zu: packet depends on bytes beyond the end: %s, %s", pos, str(pk).c_str(), str(pk2).c_str());
		c.log("@%zu %s =%d; ", pos, wants.c_str(), got);
		h = mix(h, fnv(wants.data(), wants.size(), (uint64_t)(got + 1000)));
		if (got > 0) pos += (size_t)(got + skip);
		CHECK_EQ(pt_pkt_get_offset(d.d, &off), 0, "get_offset"); CHECK_EQ(off, pos, "position");
		CHECK_EQ(pt_pkt_get_sync_offset(d.d, &off), 0, "get_sync_offset"); CHECK_EQ(off, sync, "sync position");
		if (got <= 0) {
			if (pos >= n) break;
			// Failing again must fail in the same way, then move on.
			if (got < 0 && s.chance(1, 4)) { CHECK_EQ(pt_pkt_next(d.d, &pk, sizeof(pk)), got, "repeated failure"); }
			pos += 1; sync = pos;
			CHECK_EQ(pt_pkt_sync_set(d.d, pos), 0, "sync_set"); CHECK_EQ(pt_pkt_sync_set(d2.d, pos), 0, "sync_set");
		}
	}
	CHECK(!memcmp(buf.p, b.data(), n), "the decoder modified the trace");
	if (good && (hits || !errata)) c.nontrivial(h);
}
static void decode_all(Source &s, Ctx &c) { decode_all(s, c, false); }
static void errata(Source &s, Ctx &c) { decode_all(s, c, true); }

// All one and two byte openings with every remaining size: exhaustive over
// opcodes, sampled over payloads.
static void opcodes(Source &s, Ctx &c)
{
	unsigned o = (unsigned)s.below(65536); uint8_t third = s.flip() ? 0x88 : s.byte();
	Bytes b = {(uint8_t)o, (uint8_t)(o >> 8), third};
	uint64_t pl = s.weighted({1, 3}) ? s.bits(64) : 0, pl2 = s.bits(64);
	put(b, pl, 8); put(b, pl2, 8);
	if (s.chance(1, 8)) for (size_t i = 0; i < b.size(); ++i) b[i] = (uint8_t)(i & 1 ? 0x82 : 0x02);
	c.log("%s: ", hex(b).c_str());
	for (size_t n = 1; n <= b.size(); ++n) {
		Bytes t(b.begin(), b.begin() + n);
		Buf buf(t, (unsigned)(n & 7));
		pt_config cfg = mkconfig(buf.p, n);
		PktGuard d{pt_pkt_alloc_decoder(&cfg)}; CHECK(d.d, "cannot allocate decoder");
		pt_pkt_sync_set(d.d, 0);
		pt_packet ref, pk; memset(&pk, 0x77, sizeof(pk));
		int want = decode(ref, buf.p, n);
		want = want == R_EOS ? -pte_eos : want == R_BAD ? -pte_bad_packet : want == R_UNKNOWN ? -pte_bad_opc : want;
		int got = pt_pkt_next(d.d, &pk, sizeof(pk));
		CHECK(got == want, "%zu bytes: status %d, expected %d", n, got, want);
		if (got >= 0) CHECK(str(pk) == str(ref) && pk.size == want, "%zu bytes: %s size %u, expected %s size %d", n, str(pk).c_str(), pk.size, str(ref).c_str(), want);
		if (n == b.size()) c.log("%d %s", got, got >= 0 ? str(pk).c_str() : "");
	}
	c.nontrivial(mix(mix(o, pl), pl2));
}

int main(int argc, char **argv)
{
	return run_main(argc, argv, "C02", {
		{"C02", "stream", "packets, damaged packets, opcodes with arbitrary payload and noise, truncated anywhere, decoded from an arbitrary offset against a reference decoder, with and without a callback for unknown packets and with different bytes beyond the end; non-trivial = at least one packet decoded", decode_all, 2500000, 50000000},
		{"C02", "errata", "as above, with packets corrupted by processor errata SKD007 (OVF inside CYC) and SKZ84 (bogus TMA), the workarounds enabled or not; at least one corrupted packet recognized", errata, 300000, 6000000},
		{"C02", "opcode", "an arbitrary two-byte opening with payload, decoded with every possible number of bytes available (1..19); non-trivial = all", opcodes, 1500000, 30000000},
	});
}
