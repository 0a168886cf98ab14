// C01: the packet encoder.
#include "ptwire.hpp"
using namespace pbt; using namespace wire;

static bool known_error(int e)
{
	return e == -pte_eos || e == -pte_invalid || e == -pte_bad_packet || e == -pte_bad_opc;
}

static pt_encoder *mkenc(const pt_config &c)
{
	pt_encoder *e = pt_alloc_encoder(&c);
	CHECK(e, "cannot allocate encoder");
	return e;
}

struct EncGuard { pt_encoder *e; ~EncGuard() { pt_free_encoder(e); } };
struct PktGuard { pt_packet_decoder *d; ~PktGuard() { pt_pkt_free_decoder(d); } };

// A packet as handed to the encoder by a user: valid or not.
static pt_packet any_packet(Source &s)
{
	pt_packet p;
	if (s.chance(1, 24)) { // not a packet type at all
		memset(&p, 0, sizeof(p));
		static const int bad[] = {ppt_invalid, ppt_unknown, ppt_trig + 1, 0x7f, 200};
		p.type = (pt_packet_type)bad[s.below(5)];
		return p;
	}
	return gen_packet(s, s.chance(5, 8));
}

// The encoder accepts a tnt-64 packet without payload bits (an existing unit
// test depends on it) but the packet decoder rejects the result.
static bool empty_tnt_64()
{
	uint8_t b[16]; pt_config cfg = mkconfig(b, sizeof(b));
	EncGuard g{mkenc(cfg)};
	pt_packet p; memset(&p, 0, sizeof(p)); p.type = ppt_tnt_64;
	return pt_enc_next(g.e, &p) >= 0;
}

static void history(Source &s, Ctx &c)
{
	size_t n = s.weighted({3, 3, 2}) == 0 ? s.range(0, 24) : s.range(1, 400);
	Buf buf(n, (unsigned)s.below(16));
	for (size_t i = 0; i < n; ++i) buf.p[i] = (uint8_t)(0x40 + (i * 7) % 180);
	Bytes model(buf.p, buf.p + n);
	pt_config cfg = mkconfig(buf.p, n);
	pt_encoder *enc = pt_alloc_encoder(&cfg);
	if (n == 0) {
		// an empty buffer is not a usable configuration
		if (enc) pt_free_encoder(enc);
		return;
	}
	CHECK(enc, "cannot allocate encoder");
	EncGuard g{enc};
	uint64_t pos = 0, off = 77;
	CHECK_EQ(pt_enc_get_offset(enc, &off), 0, "initial get_offset status");
	CHECK_EQ(off, pos, "initial offset");
	CHECK(pt_enc_get_config(enc) && pt_enc_get_config(enc)->begin == buf.p && pt_enc_get_config(enc)->end == buf.p + n, "config of encoder differs");
	uint64_t h = n; c.log("buffer of %zu bytes: ", n); unsigned ok = 0, rej = 0, full = 0;
	size_t ops = s.range(1, 40);
	for (size_t i = 0; i < ops; ++i) {
		if (s.chance(1, 8)) {
			uint64_t o = s.chance(7, 8) ? s.below(n + 3) : s.interesting(64);
			int st = pt_enc_sync_set(enc, o);
			c.log("sync_set(%#llx)=%d; ", (unsigned long long)o, st);
			if (o <= n) { CHECK_EQ(st, 0, "sync_set within the buffer"); pos = o; }
			else CHECK_EQ(st, -pte_eos, "sync_set beyond the buffer");
		} else {
			pt_packet p = any_packet(s);
			p.size = (uint8_t)s.below(3); // must not matter
			if (p.type == ppt_tnt_64 && !p.payload.tnt.bit_size && !p.payload.tnt.payload) continue; // known finding
			pt_packet before = p;
			Bytes b; bool valid = encode(b, p);
			int st = pt_enc_next(enc, &p);
			CHECK(!memcmp(&p, &before, sizeof(p)), "encoder modified the packet");
			if (c.want_describe) c.log("%s =%d; ", str(p).c_str(), st);
			h = mix(h, fnv(&p, sizeof(p)));
			if (valid && pos + b.size() <= n) {
				CHECK(st == (int)b.size(), "%s: expected %zu bytes, encoder returned %d", str(p).c_str(), b.size(), st);
				std::copy(b.begin(), b.end(), model.begin() + pos);
				pos += b.size(); ok++;
				c.label(type_name(p.type));
			} else {
				CHECK(st < 0, "%s (%s): encoder accepts the packet and returns %d", str(p).c_str(), valid ? "no space" : "not valid", st);
				CHECK(known_error(st) || (p.type == ppt_ptw && p.payload.ptw.plc > 3), "%s: undocumented error %d", str(p).c_str(), st);
				if (valid) { CHECK_EQ(st, -pte_eos, "no space"); full++; }
				else { rej++; if (pos + 32 <= n) CHECK(st != -pte_eos, "%s: there is space", str(p).c_str()); }
			}
		}
		CHECK_EQ(pt_enc_get_offset(enc, &off), 0, "get_offset status");
		CHECK_EQ(off, pos, "encoder offset");
		if (n && memcmp(buf.p, model.data(), n)) {
			size_t k = 0; while (buf.p[k] == model[k]) k++;
			fail("buffer differs at offset %zu: %02x, expected %02x", k, buf.p[k], model[k]);
		}
	}
	c.label("rejected", rej); c.label("no space", full);
	if (ok) c.nontrivial(h);
}

// Encode a sequence, then decode it with the packet decoder.
static void roundtrip(Source &s, Ctx &c)
{
	std::vector<pt_packet> pk; size_t n = s.range(1, 40); size_t total = 0;
	std::vector<size_t> sizes;
	for (size_t i = 0; i < n; ++i) { pk.push_back(gen_packet(s, true)); Bytes b; encode(b, pk.back()); sizes.push_back(b.size()); total += b.size(); }
	Buf buf(total, (unsigned)s.below(16));
	memset(buf.p, 0xff, total);
	pt_config cfg = mkconfig(buf.p, total);
	{
		EncGuard g{mkenc(cfg)};
		for (size_t i = 0; i < n; ++i) {
			int st = pt_enc_next(g.e, &pk[i]);
			CHECK(st == (int)sizes[i], "encoding %s: %d, expected %zu", str(pk[i]).c_str(), st, sizes[i]);
		}
	}
	PktGuard d{pt_pkt_alloc_decoder(&cfg)};
	CHECK(d.d, "cannot allocate decoder");
	CHECK_EQ(pt_pkt_sync_set(d.d, 0), 0, "sync_set");
	uint64_t h = 0;
	for (size_t i = 0; i < n; ++i) {
		pt_packet p; memset(&p, 0x5a, sizeof(p));
		int st = pt_pkt_next(d.d, &p, sizeof(p));
		CHECK(st == (int)sizes[i] && p.size == sizes[i], "packet %zu %s: decoded size %d/%u, expected %zu", i, str(pk[i]).c_str(), st, p.size, sizes[i]);
		CHECK(str(p) == str(pk[i]), "packet %zu: decoded %s, encoded %s", i, str(p).c_str(), str(pk[i]).c_str());
		h = mix(h, fnv(str(p).data(), str(p).size()));
		if (c.want_describe) c.log("%s; ", str(p).c_str());
	}
	pt_packet p;
	CHECK_EQ(pt_pkt_next(d.d, &p, sizeof(p)), -pte_eos, "after the last packet");
	c.nontrivial(h);
}

int main(int argc, char **argv)
{
	return run_main(argc, argv, "C01", {
		{"C01", "history", "random pt_enc_next/pt_enc_sync_set histories over arbitrary (also invalid) packets on buffers of 0..400 bytes; buffer, offset and status compared with a reference encoder after every call; non-trivial = at least one packet was written", history, 2000000, 40000000},
		{"C01", "roundtrip", "1..40 packets with arbitrary representable field values, encoded and decoded; non-trivial = all", roundtrip, 800000, 15000000},
	}, {{"tnt64-empty", "pt_enc_next() accepts a tnt-64 packet with bit_size 0; pt_pkt_next() reports a bad packet for its encoding", empty_tnt_64}});
}
