// C03: synchronization.
#include "evgen.hpp"
#include "psbgen.hpp"
#include <functional>
using namespace pbt; using namespace wire; using namespace trc;

struct PktGuard { pt_packet_decoder *d; ~PktGuard() { if (d) pt_pkt_free_decoder(d); } };

static void check_at(pt_packet_decoder *d, uint64_t pos, uint64_t sync, const char *what)
{
	uint64_t o = 0;
	CHECK_EQ(pt_pkt_get_offset(d, &o), 0, what); CHECK(o == pos, "%s: offset %#llx, expected %#llx", what, (unsigned long long)o, (unsigned long long)pos);
	CHECK_EQ(pt_pkt_get_sync_offset(d, &o), 0, what); CHECK(o == sync, "%s: sync offset %#llx, expected %#llx", what, (unsigned long long)o, (unsigned long long)sync);
}

static void walk(Source &s, Ctx &c)
{
	Bytes b = gen_trace(s);
	unsigned mis = (unsigned)s.below(16);
	Buf buf(b, mis);
	// An image of the trace inside of a larger buffer with PSB-like bytes around it.
	bool inside = s.chance(1, 3); size_t pre = 0;
	Bytes big; if (inside) { pre = s.range(1, 33); add_pattern(big, pre, s.flip()); big.insert(big.end(), b.begin(), b.end()); add_pattern(big, s.range(1, 33), s.flip()); }
	Buf bbuf(big, mis);
	uint8_t *begin = inside ? bbuf.p + pre : buf.p;
	size_t n = b.size();
	std::vector<size_t> P = psbs(b);
	c.log("%s%s misaligned by %u, PSBs:", inside ? "(embedded) " : "", hex(b).c_str(), mis); for (size_t p : P) c.log(" %zu", p); c.log("\n");
	c.label("PSBs", P.size()); if (P.size() > 1) c.label("cases with several PSBs");
	pt_config cfg = mkconfig(begin, n);
	PktGuard d{pt_pkt_alloc_decoder(&cfg)}; CHECK(d.d, "cannot allocate decoder");
	uint64_t o;
	CHECK_EQ(pt_pkt_get_offset(d.d, &o), -pte_nosync, "offset before sync"); CHECK_EQ(pt_pkt_get_sync_offset(d.d, &o), -pte_nosync, "sync offset before sync");

	// 1. forward over the entire trace
	for (size_t p : P) { int st = pt_pkt_sync_forward(d.d); CHECK(st == 0, "forward to %zu: %d", p, st); check_at(d.d, p, p, "forward"); }
	for (int i = 0; i < 2; ++i) { int st = pt_pkt_sync_forward(d.d); CHECK(st == -pte_eos, "forward at the end: %d", st); if (P.size()) check_at(d.d, P.back(), P.back(), "forward at the end"); else CHECK_EQ(pt_pkt_get_offset(d.d, &o), -pte_nosync, "offset after failed sync"); }
	// 2. backward over the entire trace
	PktGuard e{pt_pkt_alloc_decoder(&cfg)}; CHECK(e.d, "cannot allocate decoder");
	for (size_t i = P.size(); i-- > 0;) { int st = pt_pkt_sync_backward(e.d); CHECK(st == 0, "backward to %zu: %d", P[i], st); check_at(e.d, P[i], P[i], "backward"); }
	for (int i = 0; i < 2; ++i) { int st = pt_pkt_sync_backward(e.d); CHECK(st == -pte_eos, "backward at the begin: %d", st); if (P.size()) check_at(e.d, P[0], P[0], "backward at the begin"); }
	// 3. mixed history on a third decoder
	PktGuard f{pt_pkt_alloc_decoder(&cfg)}; CHECK(f.d, "cannot allocate decoder");
	bool synced = false; size_t pos = 0, sync = 0; bool hard = false;
	size_t ops = s.range(1, 16);
	for (size_t i = 0; i < ops; ++i) {
		switch (s.weighted({3, 3, 3, 2})) {
		case 0: { // forward
			if (hard && pos != sync) break; // after decoding from an arbitrary offset: not specified
			size_t from = 0; if (synced) from = pos == sync ? pos + 1 : (pos >= 15 ? pos - 15 : 0);
			auto it = std::lower_bound(P.begin(), P.end(), from);
			int st = pt_pkt_sync_forward(f.d);
			c.log("forward from %zu =%d; ", pos, st);
			if (it == P.end()) { CHECK(st == -pte_eos, "forward from %zu: %d", pos, st); }
			else { CHECK(st == 0, "forward from %zu to %zu: %d", pos, *it, st); pos = sync = *it; synced = true; hard = false; }
			break;
		}
		case 1: { // backward
			size_t from = synced ? pos : n;
			// the last PSB that lies entirely before the position
			bool have = false; size_t want = 0, in = ~(size_t)0;
			for (size_t p : P) { if (p + 16 <= from) { have = true; want = p; } else if (p < from) in = p; }
			int st = pt_pkt_sync_backward(f.d);
			c.log("backward from %zu =%d; ", from, st);
			if (st == 0 && in != ~(size_t)0) { // started inside of a PSB; it may find that one
				CHECK_EQ(pt_pkt_get_offset(f.d, &o), 0, "offset");
				if (o == in) { have = true; want = in; }
			}
			if (!have) CHECK(st == -pte_eos, "backward from %zu: %d", from, st);
			else { CHECK(st == 0, "backward from %zu to %zu: %d", from, want, st); pos = sync = want; synced = true; hard = false; }
			break;
		}
		case 2: { // decode some packets
			size_t m = s.range(1, 6);
			while (m-- && synced) { pt_packet k; int st = pt_pkt_next(f.d, &k, sizeof(k)); if (st < 0) break; pos += (size_t)st; c.log("next =%d; ", st); }
			break;
		}
		default: { // hard set
			uint64_t to = s.chance(1, 3) && P.size() ? P[s.below(P.size())] : s.chance(9, 10) ? s.below(n + 4) : s.interesting(64);
			int st = pt_pkt_sync_set(f.d, to);
			c.log("set %llu =%d; ", (unsigned long long)to, st);
			if (to <= n) { CHECK_EQ(st, 0, "sync_set"); pos = sync = to; synced = true; hard = true; }
			else CHECK_EQ(st, -pte_eos, "sync_set beyond the end");
			break;
		}
		}
		if (synced) check_at(f.d, pos, sync, "history");
	}
	CHECK(!memcmp(begin, b.data(), n), "the decoder modified the trace");
	if (P.size()) c.nontrivial(mix(fnv(b.data(), n), mis));
}

// --- the layers on top of the packet decoder ----------------------------------------
struct Evt {
	pt_event_decoder *d = nullptr; static constexpr const char *name = "evt";
	explicit Evt(const pt_config &c) { d = pt_evt_alloc_decoder(&c); } ~Evt() { pt_evt_free_decoder(d); }
	int fwd(uint64_t *) { return pt_evt_sync_forward(d); } int bwd(uint64_t *) { return pt_evt_sync_backward(d); } int set(uint64_t *, uint64_t o) { return pt_evt_sync_set(d, o); }
	int off(uint64_t *o) { return pt_evt_get_offset(d, o); } int sync(uint64_t *o) { return pt_evt_get_sync_offset(d, o); }
	int step() { pt_event e; return pt_evt_next(d, &e, sizeof(e)); }
};
struct Qry {
	pt_query_decoder *d = nullptr; static constexpr const char *name = "qry";
	explicit Qry(const pt_config &c) { d = pt_qry_alloc_decoder(&c); } ~Qry() { pt_qry_free_decoder(d); }
	int fwd(uint64_t *ip) { return pt_qry_sync_forward(d, ip); } int bwd(uint64_t *ip) { return pt_qry_sync_backward(d, ip); } int set(uint64_t *ip, uint64_t o) { return pt_qry_sync_set(d, ip, o); }
	int off(uint64_t *o) { return pt_qry_get_offset(d, o); } int sync(uint64_t *o) { return pt_qry_get_sync_offset(d, o); }
	int step() { pt_event e; int st = pt_qry_event(d, &e, sizeof(e)); if (st != -pte_bad_query) return st; int t; st = pt_qry_cond_branch(d, &t); if (st != -pte_bad_query) return st; uint64_t ip; return pt_qry_indirect_branch(d, &ip); }
};
struct Insn {
	pt_insn_decoder *d = nullptr; static constexpr const char *name = "insn";
	explicit Insn(const pt_config &c) { d = pt_insn_alloc_decoder(&c); } ~Insn() { pt_insn_free_decoder(d); }
	int fwd(uint64_t *) { return pt_insn_sync_forward(d); } int bwd(uint64_t *) { return pt_insn_sync_backward(d); } int set(uint64_t *, uint64_t o) { return pt_insn_sync_set(d, o); }
	int off(uint64_t *o) { return pt_insn_get_offset(d, o); } int sync(uint64_t *o) { return pt_insn_get_sync_offset(d, o); }
	int step() { pt_event e; return pt_insn_event(d, &e, sizeof(e)); }
};
struct Blk {
	pt_block_decoder *d = nullptr; static constexpr const char *name = "blk";
	explicit Blk(const pt_config &c) { d = pt_blk_alloc_decoder(&c); } ~Blk() { pt_blk_free_decoder(d); }
	int fwd(uint64_t *) { return pt_blk_sync_forward(d); } int bwd(uint64_t *) { return pt_blk_sync_backward(d); } int set(uint64_t *, uint64_t o) { return pt_blk_sync_set(d, o); }
	int off(uint64_t *o) { return pt_blk_get_offset(d, o); } int sync(uint64_t *o) { return pt_blk_get_sync_offset(d, o); }
	int step() { pt_event e; return pt_blk_event(d, &e, sizeof(e)); }
};

template <class D> static void layer(Source &s, Ctx &c, const Tracer &t, const pt_config &cfg, size_t nfull)
{
	size_t n = t.out.size(); const auto &P = t.psbs;
	// What is expected after synchronizing onto a PSB.
	auto status = [&](size_t k, int st, uint64_t ip, int viaset, const char *what) {
		(void)viaset;
		bool en = false; uint64_t want = 0; for (auto &e : t.evs) if (e.seg == k && e.ev.status_update && e.ev.type == ptev_enabled) { en = true; want = e.ev.variant.enabled.ip; }
		CHECK(st >= 0, "%s %s to PSB %zu: %s", D::name, what, k, pt_errstr(pt_errcode(st)));
		if (!strcmp(D::name, "evt")) CHECK(st == 0, "%s %s: %d", D::name, what, st);
		else {
			// The header's events come first.
			// (The block decoder announces the disabled status only when asked to proceed.)
			if (en || strcmp(D::name, "blk")) CHECK(st & pts_event_pending, "%s %s to PSB %zu: status %d: no event pending", D::name, what, k, st);
			CHECK(!(st & pts_eos), "%s %s to PSB %zu: status %d: end of stream", D::name, what, k, st);
			if (!strcmp(D::name, "qry")) { CHECK(!!(st & pts_ip_suppressed) == !en, "%s %s to PSB %zu: status %d, tracing is %s", D::name, what, k, st, en ? "enabled" : "disabled"); if (en) CHECK(ip == want, "%s %s to PSB %zu: ip %llx, expected %llx", D::name, what, k, (unsigned long long)ip, (unsigned long long)want); }
		}
	};
	auto at = [&](D &d, size_t k, const char *what) { uint64_t o = 0; int st = d.sync(&o); CHECK(st == 0 && o == P[k], "%s %s: synchronized onto %#llx (%d), expected %#zx", D::name, what, (unsigned long long)o, st, P[k]); st = d.off(&o); CHECK(st == 0 && o >= P[k] && o <= n, "%s %s: offset %#llx (%d)", D::name, what, (unsigned long long)o, st); };
	std::vector<uint64_t> post(nfull);
	auto pkend = [&](uint64_t off) { for (size_t b : t.bounds) if (b > off) return (uint64_t)b; return (uint64_t)n; };
	uint64_t ip;
	for (size_t k = 0; k < nfull; ++k) { D d(cfg); CHECK(d.d, "alloc"); uint64_t o; CHECK_EQ(d.off(&o), -pte_nosync, "offset before sync"); CHECK_EQ(d.sync(&o), -pte_nosync, "sync offset before sync"); ip = ~0ull; int st = d.set(&ip, P[k]); status(k, st, ip, 1, "set"); at(d, k, "set"); d.off(&post[k]); }
	{ D d(cfg); for (size_t k = 0; k < nfull; ++k) { // the next PSB at or after the current position
			uint64_t o = 0; size_t w = 0; if (d.off(&o) == 0) while (w < nfull && P[w] < o) w++;
			if (w >= nfull) break;
			ip = ~0ull; int st = d.fwd(&ip); status(w, st, ip, 0, "forward"); at(d, w, "forward"); k = w; }
		if (!strcmp(D::name, "evt") || !strcmp(D::name, "qry")) { int st = d.fwd(&ip); CHECK(st == -pte_eos, "%s forward after the last PSB: %d", D::name, st); } }
	{ D d(cfg); for (size_t k = nfull; k-- > 0;) { ip = ~0ull; int st = d.bwd(&ip); status(k, st, ip, 0, "backward"); at(d, k, "backward"); }
		int st = d.bwd(&ip); CHECK(st == -pte_eos, "%s backward before the first PSB: %d", D::name, st); uint64_t o = 0; st = d.off(&o); CHECK(st == -pte_nosync || (st == 0 && o <= n), "%s: offset after failing to synchronize: %d %#llx", D::name, st, (unsigned long long)o); }
	// mixed history
	D d(cfg); size_t ops = s.range(1, 12); bool synced = false;
	while (ops--) {
		uint64_t o = 0; if (synced) { int st = d.off(&o); CHECK(st == 0, "offset: %d", st); }
		switch (s.weighted({3, 3, 2, 1, 3})) {
		case 0: { size_t w = 0; if (synced) while (w < nfull && P[w] < o) w++; ip = ~0ull; int st = d.fwd(&ip); c.log("%s forward from %llx =%d; ", D::name, (unsigned long long)o, st);
			if (w < nfull) { status(w, st, ip, 0, "forward"); at(d, w, "forward"); synced = true; } else { CHECK(st == -pte_eos, "%s forward from %#llx: %d", D::name, (unsigned long long)o, st); synced = false; } break; }
		case 1: { if (!synced) o = n; size_t w = nfull; uint64_t cs = 0; if (synced) CHECK_EQ(d.sync(&cs), 0, "sync offset"); while (w-- > 0) if (P[w] < o && (!synced || post[w] < o || P[w] < cs)) break;
			ip = ~0ull; int st = d.bwd(&ip); c.log("%s backward from %llx =%d; ", D::name, (unsigned long long)o, st);
			// The decoders read one packet ahead: right after the first packet behind the PSB+, it may or may not be skipped.
			while (w != ~(size_t)0 && synced && o <= pkend(post[w]) && P[w] >= cs) { uint64_t at = 0; if (st < 0 || d.sync(&at) < 0 || at != P[w]) w--; else break; }
			if (w != ~(size_t)0) { status(w, st, ip, 0, "backward"); at(d, w, "backward"); synced = true; } else { CHECK(st == -pte_eos, "%s backward from %#llx: %d", D::name, (unsigned long long)o, st); synced = false; } break; }
		case 2: { size_t w = s.below(nfull); ip = ~0ull; int st = d.set(&ip, P[w]); c.log("%s set %zx =%d; ", D::name, P[w], st); status(w, st, ip, 1, "set"); at(d, w, "set"); synced = true; break; }
		case 3: { uint64_t to = s.below(n + 8); { size_t q = to; while (q < n && !t.out[q]) q++; if (std::find(P.begin(), P.end(), q) != P.end()) break; } int st = d.set(&ip, to); c.log("%s set %llx =%d; ", D::name, (unsigned long long)to, st);
			CHECK(st < 0 && st != -pte_internal, "%s set to %#llx, where there is no PSB: %d", D::name, (unsigned long long)to, st); if (to >= n) CHECK_EQ(st, -pte_eos, "set beyond the end"); synced = false; break; }
		default: { size_t m = s.range(1, 8); while (synced && m--) { int st = d.step(); c.log("step =%d; ", st); if (st < 0) break; } break; }
		}
		if (!synced) { // after a failed synchronization: not specified; start over
			int st = d.set(&ip, P[0]); CHECK(st >= 0, "%s set to 0 after a failure: %d", D::name, st); synced = true; }
	}
}

static void layers(Source &s, Ctx &c)
{
	Tracer t(s); EvGen g(t); g.fullhdr = s.flip(); t.iflags = s.flip(); t.noisy = s.flip();
	g.header(s.flip()); size_t steps = s.below(24); unsigned want = (unsigned)s.range(1, 5);
	for (size_t i = 0; i < steps || t.psbs.size() < want; ++i) { if (i > 200 || s.chance(1, 6)) g.header(t.enabled); else if (t.enabled) g.step_enabled(); else g.step_disabled(); }
	size_t nfull = t.psbs.size();
	if (s.chance(1, 3)) { // an incomplete PSB+ at the end
		Bytes keep = t.out; Bytes tail; { pt_packet p; memset(&p, 0, sizeof(p)); p.type = ppt_psb; if (keep.back() == 0x82) keep.push_back(0); encode(tail, p); size_t m = s.below(4); static const pt_packet_type ok[] = {ppt_tsc, ppt_cbr, ppt_pip, ppt_vmcs, ppt_pad, ppt_cyc}; while (m--) { pt_packet q = gen_packet(s, true, ok[s.below(6)]); if (q.type == ppt_cbr && !q.payload.cbr.ratio) q.payload.cbr.ratio = 1; encode(tail, q); } }
		if (s.flip()) tail.resize(s.range(16, tail.size()));
		t.psbs.push_back(keep.size()); keep.insert(keep.end(), tail.begin(), tail.end()); t.out = keep; c.label("incomplete PSB+ at the end");
	}
	c.log("%s\nPSBs:", hex(t.out, 600).c_str()); for (size_t p : t.psbs) c.log(" %zx", p); c.log("\n");
	Buf buf(t.out, (unsigned)s.below(4)); pt_config cfg = mkconfig(buf.p, t.out.size()); cfg.flags.variant.event.enable_iflags_events = 0;
	// Full PSB+ only.
	layer<Evt>(s, c, t, cfg, nfull); layer<Qry>(s, c, t, cfg, nfull); layer<Insn>(s, c, t, cfg, nfull); layer<Blk>(s, c, t, cfg, nfull);
	c.label("PSBs", nfull);
	if (nfull > 1) c.nontrivial(fnv(t.out.data(), t.out.size()));
}

int main(int argc, char **argv)
{
	return run_main(argc, argv, "C03", {
		{"C03", "packet", "buffers of PSBs at any alignment, look-alikes, incomplete and overlong PSB patterns, packets and noise, optionally embedded between more PSB patterns; full forward and backward walks and mixed histories of forward/backward/set/next against a scan for the pattern; non-trivial = at least one PSB", walk, 1500000, 30000000},
		{"C03", "layers", "legal traces with several PSB+, optionally with an incomplete PSB+ at the end; full walks and mixed histories of synchronization and decode on the event, query, instruction flow and block decoder; positions, IP and status after each synchronization; non-trivial = more than one PSB+", layers, 200000, 3000000},
	});
}
