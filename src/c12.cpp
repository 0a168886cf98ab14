// C12: time is reconstructed from timing packets.
//
// A model of the processor's clocks (TSC, core crystal clock, core cycles) runs
// and emits timing packets.  Marker events in between carry the decoder's
// estimate, which has to agree with the true time up to the documented loss of
// precision.
#include "tracer.hpp"
#include "ptwire.hpp"
using namespace pbt; using namespace wire;
typedef unsigned __int128 u128;

namespace {

struct Probe { uint64_t ref = 0; double tol = 0; bool lower = false; bool check = true; bool has_tsc = false; bool wrap = false; unsigned lost_cyc = 0; unsigned mtc_lo = 0, mtc_hi = 0; bool has_cbr = false; unsigned cbr = 0; };

struct Clock {
	Source &s; Bytes out; std::vector<Probe> probes; std::string dump; bool want = false;
	// configuration
	uint32_t eax = 2, ebx = 100; unsigned mtcfreq = 3; unsigned nom = 24; bool conf_ctc = true, conf_nom = true, keep = false, skl168 = false;
	bool mtc_on = true, cyc_on = false, tsc_on = true, drops = false, spans = false, cbr_known = false;
	// clocks
	uint64_t T0 = 0, C0 = 0, t = 0; unsigned cbr = 20; u128 cycnum = 0; uint64_t cyc_rep = 0;  // cycles are cycnum / nom; cyc_rep: reported
	uint64_t next_mtc = 0; // CTC value of the next MTC
	// decoder knowledge: time
	bool have_tsc = false, have_tma = false; bool mtc_seen = false; // an MTC (or a TMA that serves as such) is the base
	uint64_t ref = 0; uint64_t base_t = 0; unsigned nmtc = 0; unsigned ncyc = 0; uint64_t cycs = 0; double relerr = 0, rmax = 0, prevr = 0, tolp = 0; bool any_cyc = false, had_ovf = false; uint64_t ovf_t = 0; unsigned lost_cyc = 0, lost_mtc_lo = 0, lost_mtc_hi = 0; bool rel = false; uint64_t rel0 = 0;
	bool spoilt = false;      // cycles were lost since the last base
	bool behind_cyc = false;  // the last packet was a CYC
	bool cyc_since_base = true; // a CYC preceded the base directly
	// decoder knowledge: calibration
	bool have_fcr = false, cal_mtc = false, cal_lossy = false; double qual = 0; uint64_t c_mtc = 0, c_tsc = 0; bool cal_tsc = false; uint64_t tsc_at = 0; bool skipcheck = false;
	bool decoder_cbr = false; unsigned decoder_cbrv = 0;
	uint64_t h = 0; unsigned kinds = 0; size_t npk = 0;

	explicit Clock(Source &src) : s(src) {}
	double ratio() const { return (double)nom / cbr; }
	uint64_t ctc_of(uint64_t tt) const { return C0 + (uint64_t)((u128)tt * eax / ebx); }
	uint64_t t_of(uint64_t c) const { return (uint64_t)(((u128)(c - C0) * ebx + eax - 1) / eax); }
	uint64_t period() const { return (uint64_t)(((u128)ebx << mtcfreq) / eax); }
	void raw(const pt_packet &p) { if (want) dump += strf("  %04zx t=%llu %s\n", out.size(), (unsigned long long)t, str(p).c_str()); bool ok = encode(out, p); if (!ok) fail("c12: cannot encode %s", str(p).c_str()); npk++; behind_cyc = p.type == ppt_cyc; }
	pt_packet mk(pt_packet_type ty) { pt_packet p; memset(&p, 0, sizeof(p)); p.type = ty; return p; }
	void set_time(uint64_t nt) { cycnum += (u128)(nt - t) * cbr; t = nt; }
	uint64_t cycles() const { return (uint64_t)(cycnum / nom); }
	uint64_t tsc() const { return (T0 + t) & 0xffffffffffffffull; }

	void new_base(uint64_t r, bool timely) { ref = r; base_t = t; ncyc = 0; cycs = 0; relerr = 0; lost_cyc = 0; spoilt = false; rmax = ratio(); (void)timely; }
	void calibrated(uint64_t c, uint64_t d) { have_fcr = true; double q = 1.0 / 256 + 1.2 * (2.0 + ratio() + 0.0 * (double)d) / (double)c; if (q > qual) qual = q; }
	void probe()
	{
		pt_packet p = mk(ppt_mnt); p.payload.mnt.payload = probes.size(); raw(p);
		Probe q; q.has_tsc = have_tsc; q.ref = ref; q.tol = 1.0 + nmtc; q.lower = true; q.lost_cyc = lost_cyc; q.mtc_lo = lost_mtc_lo; q.mtc_hi = lost_mtc_hi; q.has_cbr = decoder_cbr; q.cbr = decoder_cbrv;
		if (cycs || ncyc) { q.lower = false; q.tol += ncyc + 2 * rmax + 2 + relerr + tolp; }
		q.check = (have_tsc || (rel && nmtc >= 1)) && !spoilt;
		if (!have_tsc && rel) q.ref = ref - rel0;
		probes.push_back(q);
		if (want) dump += strf("         expect %llx tol %.1f%s lost_cyc=%u lost_mtc=%u..%u\n", (unsigned long long)q.ref, q.tol, q.check ? "" : " (unchecked)", q.lost_cyc, q.mtc_lo, q.mtc_hi);
	}
	// Drop: the packet gets lost.
	bool emit_cyc(bool drop = false)
	{
		if (!cyc_on) return false;
		uint64_t v = cycles() - cyc_rep; if (!v && !s.chance(1, 8)) return false;
		cyc_rep += v;
		if (drop) return true;
		pt_packet p = mk(ppt_cyc); p.payload.cyc.value = v; raw(p);
		c_mtc += v; c_tsc += v;
		if (!have_fcr) { lost_cyc++; spoilt = true; return true; }
		cycs += v; ncyc++; any_cyc = true; if (ratio() > rmax) rmax = ratio(); relerr += (double)v * qual; ref = T0 + t;
		return true;
	}
	void emit_tsc_tma(bool hdr)
	{
		if (!tsc_on) return;
		pt_packet p = mk(ppt_tsc); p.payload.tsc.tsc = tsc(); raw(p);
		if (hdr) { if (cal_tsc && c_tsc && !cal_mtc && p.payload.tsc.tsc && tsc_at) calibrated(c_tsc, 0); }
		cal_tsc = true; c_tsc = 0; tsc_at = p.payload.tsc.tsc;
		have_tsc = true; have_tma = false; mtc_seen = false; mtc_lost_any = false; nmtc = 0; lost_mtc_lo = lost_mtc_hi = 0; new_base(T0 + t, true); cyc_since_base = false; tolp = 0; any_cyc = had_ovf = false;
		if (!hdr && s.chance(1, 4)) probe();
		if (!mtc_on) return;
		uint64_t c = ctc_of(t); uint64_t fc = t - (uint64_t)((u128)(c - C0) * ebx / eax);
		p = mk(ppt_tma); p.payload.tma.ctc = (uint16_t)c; p.payload.tma.fc = (uint16_t)fc; raw(p); have_tma = true; mtc_seen = mtcfreq <= 8;
	}
	void emit_cbr(bool hdr)
	{
		pt_packet p = mk(ppt_cbr); p.payload.cbr.ratio = (uint8_t)cbr; raw(p); decoder_cbr = true; decoder_cbrv = cbr;
		if (!hdr) reset_cal();
		if (conf_nom) { have_fcr = true; if (qual < 1.0 / 256) qual = 1.0 / 256; }
	}
	void reset_cal() { have_fcr = false; cal_mtc = false; qual = 0; c_mtc = c_tsc = 0; cal_tsc = false; skipcheck = false; }
	void emit_mtc(uint64_t c, bool drop)
	{
		if (!drop) { pt_packet p = mk(ppt_mtc); p.payload.mtc.ctc = (uint8_t)(c >> mtcfreq); raw(p); }
		if (drop) return;
		// calibration
		bool check = skipcheck; skipcheck = false;
		if (!cal_mtc) { cal_mtc = true; c_mtc = 0; }
		else if (c_mtc) { uint64_t cc = c_mtc; c_mtc = 0; if (conf_ctc && !(check && cal_lossy)) calibrated(cc, 0); cal_lossy = false; }
		// time
		if (have_tsc && !have_tma) return;
		if (!conf_ctc) { lost_mtc_hi++; if (mtc_lost_any) lost_mtc_lo++; mtc_lost_any = true; return; }
		if (!have_tsc && !rel) { rel = true; rel0 = T0 + t; nmtc = 0; new_base(T0 + t, true); rel_first = true; mtc_seen = true; cyc_since_base = false; return; }
		// Cycles lost in an overflow are not accounted for; the next CYC may be taken to cover this period.
		if (any_cyc) tolp = 0; else if (had_ovf) tolp += (double)(t - ovf_t + period() + 1);
		any_cyc = had_ovf = false;
		nmtc++; mtc_seen = true; new_base(T0 + t, true); cyc_since_base = false;
	}
	bool mtc_lost_any = false, rel_first = false;
	// Let time pass until nt, emitting what the clocks cause on the way.
	void run_to(uint64_t nt)
	{
		while (mtc_on) {
			uint64_t at = t_of(next_mtc); if (at > nt) break;
			set_time(at);
			bool drop = drops && (mtcfreq <= 8 || mtc_seen) && dropped < 200 && s.chance(1, 3);
			bool skip = spans && cal_mtc && mtc_seen && span_ok && !mid && s.chance(2, 3);
			if (!skip) { emit_cyc(); mid = false; }
			if (behind_cyc && s.chance(1, 4)) probe();
			emit_mtc(next_mtc, drop); dropped = drop ? dropped + 1 : 0;
			if (!drop && !skip) span_ok = true;
			if (!skip && drop) mid = true;
			next_mtc += 1ull << mtcfreq;
			if (!drop && !spans_pending(skip) && s.chance(1, 3)) probe();
		}
		set_time(nt);
	}
	bool spans_pending(bool) { return false; }
	unsigned dropped = 0; bool span_ok = false, mid = false;
	void boundary_cyc() { emit_cyc(); mid = false; }
	void psb()
	{
		if (out.size()) boundary_cyc();
		if (out.size() && out.back() == 0x82) raw(mk(ppt_pad));
		raw(mk(ppt_psb)); if (skl168) skipcheck = true;
		bool c = s.chance(3, 4), first = s.flip();
		if (c && first) emit_cbr(true);
		emit_tsc_tma(true); span_ok = false;
		if (c && !first) emit_cbr(true);
		raw(mk(ppt_psbend));
		if (s.chance(1, 2)) probe();
	}
	// Lose a while of trace.
	void ovf(uint64_t d)
	{
		boundary_cyc();
		raw(mk(ppt_ovf)); ovf_t = base_t; set_time(t + d); cyc_rep = cycles(); while (t_of(next_mtc) <= t) next_mtc += 1ull << mtcfreq;
		if (!keep) reset_cal(); else { cal_tsc = false; cal_mtc = false; c_mtc = c_tsc = 0; }
		had_ovf = true; if (cyc_on) spoilt = true;
		if (s.chance(2, 3)) { emit_tsc_tma(false); }
		if (s.chance(1, 2)) probe();
	}
	// A PSB that causes a wrap CYC (4096 cycles), and maybe an MTC, to be dropped.
	void lossy_psb()
	{
		// The dropped CYC counts at most what elapsed since the last one in this MTC period.
		uint64_t v = cycles() - cyc_rep; bool mtc = s.flip();
		if (mtc) { // the MTC is dropped together with its CYC, or without it
			uint64_t at = t_of(next_mtc); emit_cyc(); set_time(at); emit_cyc(s.flip()); next_mtc += 1ull << mtcfreq; spoilt = true; cal_lossy = true;
		} else { if (v < 4096) return; cyc_rep += 4096; spoilt = true; cal_lossy = true; emit_cyc(); }
		if (out.back() == 0x82) raw(mk(ppt_pad));
		raw(mk(ppt_psb)); skipcheck = true; if (s.flip()) emit_cbr(true); if (s.chance(1, 2)) emit_tsc_tma(true); raw(mk(ppt_psbend)); probe();
	}
	void start()
	{
		// The CTC counter starts anywhere; C0 is aligned to it at t = 0.
		C0 = s.bits(32); next_mtc = (C0 >> mtcfreq << mtcfreq) + (1ull << mtcfreq);
		T0 = 1 + (s.chance(1, 8) ? 0xffffffffffffffull - s.bits(24) : s.bits((unsigned)s.range(8, 55)));
		set_time(s.below(period() + 1)); while (t_of(next_mtc) <= t) next_mtc += 1ull << mtcfreq;
		cyc_rep = cycles(); mtc_lost_any = false;
	}
};

void config(Source &s, Clock &k)
{
	k.eax = (uint32_t)s.range(1, 6); k.mtcfreq = (unsigned)s.below(16);
	k.ebx = (uint32_t)s.range(k.eax, s.chance(1, 4) ? k.eax * 500 : k.eax * 120);
	k.nom = (unsigned)s.range(8, 50); k.prevr = k.ratio(); if (k.prevr > k.rmax) k.rmax = k.prevr; k.cbr = (unsigned)s.range(4, 60); k.conf_nom = s.flip(); k.keep = s.flip();
}

struct Evt { pt_event_decoder *d; ~Evt() { if (d) pt_evt_free_decoder(d); } };
struct Qry { pt_query_decoder *d; ~Qry() { if (d) pt_qry_free_decoder(d); } };
struct Insn { pt_insn_decoder *d; ~Insn() { if (d) pt_insn_free_decoder(d); } };
struct Blk { pt_block_decoder *d; ~Blk() { if (d) pt_blk_free_decoder(d); } };

void check_probe(const Probe &q, const pt_event &ev, const char *what, size_t i)
{
	CHECK(ev.has_tsc == q.has_tsc, "%s: probe %zu: has_tsc %u, expected %d", what, i, ev.has_tsc, q.has_tsc);
	CHECK(ev.lost_cyc == q.lost_cyc, "%s: probe %zu: lost_cyc %u, expected %u", what, i, ev.lost_cyc, q.lost_cyc);
	CHECK(ev.lost_mtc >= q.mtc_lo && ev.lost_mtc <= q.mtc_hi, "%s: probe %zu: lost_mtc %u, expected %u..%u", what, i, ev.lost_mtc, q.mtc_lo, q.mtc_hi);
	if (!q.check) return;
	int64_t d = (int64_t)((ev.tsc - q.ref) << 8) >> 8;
	CHECK(d <= (q.lower ? 0 : q.tol) && -(double)d <= q.tol, "%s: probe %zu: time %llx, expected %llx (off by %lld, tolerance %.1f%s)", what, i, (unsigned long long)ev.tsc, (unsigned long long)q.ref, (long long)d, q.tol, q.lower ? ", never ahead" : "");
}

// Run a decoder over the trace; next() gets the next event.
template <class N, class T> void drive(const Clock &k, const char *what, N next, T after)
{
	size_t i = 0;
	for (;;) {
		pt_event ev; memset(&ev, 0, sizeof(ev)); int st = next(ev);
		if (st == -pte_eos) break;
		CHECK(st >= 0, "%s: before probe %zu: error %d (%s)", what, i, st, pt_errstr(pt_errcode(st)));
		if (ev.type != ptev_mnt) continue;
		CHECK(ev.variant.mnt.payload == i && i < k.probes.size(), "%s: got marker %llu, expected %zu", what, (unsigned long long)ev.variant.mnt.payload, i);
		check_probe(k.probes[i], ev, what, i); after(k.probes[i], ev, i); i++;
	}
	CHECK(i == k.probes.size(), "%s: trace ended after %zu of %zu markers", what, i, k.probes.size());
}

void decode(Source &s, Ctx &c, Clock &k)
{
	c.describe([&] { return strf("eax=%u ebx=%u mtcfreq=%u nom=%u(conf %d) cbr=%u conf_ctc=%d keep_tcal=%d skl168=%d T0=%llx C0=%llx\n", k.eax, k.ebx, k.mtcfreq, k.nom, k.conf_nom, k.cbr, k.conf_ctc, k.keep, k.skl168, (unsigned long long)k.T0, (unsigned long long)k.C0) + k.dump; });
	Buf buf(k.out, (unsigned)s.below(8)); pt_config cfg = mkconfig(buf.p, k.out.size());
	if (k.conf_ctc) { cfg.cpuid_0x15_eax = k.eax; cfg.cpuid_0x15_ebx = k.ebx; } else if (s.flip()) cfg.cpuid_0x15_eax = s.flip() ? k.eax : 0, cfg.cpuid_0x15_ebx = cfg.cpuid_0x15_eax ? 0 : k.ebx;
	cfg.mtc_freq = (uint8_t)k.mtcfreq; cfg.nom_freq = (uint8_t)(k.conf_nom ? k.nom : 0); cfg.errata.skl168 = k.skl168;
	unsigned layer = (unsigned)s.below(4); static const char *names[] = {"event", "query", "insn", "block"}; c.label(names[layer]);
	auto noafter = [](const Probe &, const pt_event &, size_t) {};
	if (layer == 0) {
		cfg.flags.variant.event.keep_tcal_on_ovf = k.keep; Evt d{pt_evt_alloc_decoder(&cfg)}; CHECK(d.d, "alloc"); int st = pt_evt_sync_forward(d.d); CHECK(st >= 0, "sync: %d", st);
		drive(k, "event", [&](pt_event &ev) { return pt_evt_next(d.d, &ev, sizeof(ev)); }, noafter);
	} else if (layer == 1) {
		cfg.flags.variant.query.keep_tcal_on_ovf = k.keep; Qry d{pt_qry_alloc_decoder(&cfg)}; CHECK(d.d, "alloc"); uint64_t ip; int st = pt_qry_sync_forward(d.d, &ip); CHECK(st >= 0, "sync: %d", st);
		drive(k, "query", [&](pt_event &ev) { return pt_qry_event(d.d, &ev, sizeof(ev)); }, [&](const Probe &q, const pt_event &ev, size_t i) {
			uint64_t tm = 0; uint32_t lm = 99, lc = 99, cb = 0; int e = pt_qry_time(d.d, &tm, &lm, &lc);
			CHECK(e == (q.has_tsc ? 0 : -pte_no_time), "query: probe %zu: pt_qry_time: %d", i, e);
			CHECK(tm == ev.tsc && lm == ev.lost_mtc && lc == ev.lost_cyc, "query: probe %zu: pt_qry_time: %llx lost %u/%u, event: %llx lost %u/%u", i, (unsigned long long)tm, lm, lc, (unsigned long long)ev.tsc, ev.lost_mtc, ev.lost_cyc);
			e = pt_qry_core_bus_ratio(d.d, &cb); CHECK(e == (q.has_cbr ? 0 : -pte_no_cbr) && (!q.has_cbr || cb == q.cbr), "query: probe %zu: core:bus ratio %d %u, expected %d %u", i, e, cb, q.has_cbr, q.cbr);
		});
	} else if (layer == 2) {
		cfg.flags.variant.insn.keep_tcal_on_ovf = k.keep; Insn d{pt_insn_alloc_decoder(&cfg)}; CHECK(d.d, "alloc"); int st = pt_insn_sync_forward(d.d); CHECK(st >= 0, "sync: %d", st);
		drive(k, "insn", [&](pt_event &ev) { if (!(st & pts_event_pending)) { pt_insn in; int e = pt_insn_next(d.d, &in, sizeof(in)); CHECK(e < 0, "insn: instruction without tracing: %d", e); return e; } st = pt_insn_event(d.d, &ev, sizeof(ev)); return st; }, [&](const Probe &q, const pt_event &ev, size_t i) {
			// The decoder may have read on to the next event.
			uint64_t tm = 0; uint32_t lm = 99, lc = 99, cb = 0; int e = pt_insn_time(d.d, &tm, &lm, &lc); CHECK(e == 0 || e == -pte_no_time, "insn: probe %zu: pt_insn_time: %d", i, e); CHECK(!q.has_tsc || e == 0, "insn: probe %zu: pt_insn_time: %d", i, e);
			e = pt_insn_core_bus_ratio(d.d, &cb); CHECK(e == 0 || !q.has_cbr, "insn: core:bus ratio: %d", e); (void)ev;
		});
	} else {
		cfg.flags.variant.block.keep_tcal_on_ovf = k.keep; Blk d{pt_blk_alloc_decoder(&cfg)}; CHECK(d.d, "alloc"); int st = pt_blk_sync_forward(d.d); CHECK(st >= 0, "sync: %d", st);
		drive(k, "block", [&](pt_event &ev) { if (!(st & pts_event_pending)) { pt_block b; int e = pt_blk_next(d.d, &b, sizeof(b)); if (e < 0) return e; CHECK(!b.ninsn && (e & pts_event_pending), "block: block without tracing: %d", e); } st = pt_blk_event(d.d, &ev, sizeof(ev)); return st; }, [&](const Probe &q, const pt_event &ev, size_t i) {
			uint64_t tm = 0; uint32_t lm = 99, lc = 99, cb = 0; int e = pt_blk_time(d.d, &tm, &lm, &lc); CHECK(e == (ev.has_tsc ? 0 : -pte_no_time) && tm == ev.tsc && lm == ev.lost_mtc && lc == ev.lost_cyc, "block: probe %zu: pt_blk_time: %d %llx lost %u/%u, event %llx lost %u/%u", i, e, (unsigned long long)tm, lm, lc, (unsigned long long)ev.tsc, ev.lost_mtc, ev.lost_cyc); e = pt_blk_core_bus_ratio(d.d, &cb); CHECK(e == 0 || (e == -pte_no_cbr && !q.has_cbr), "block: probe %zu: core:bus ratio: %d %u", i, e, cb);
		});
	}
	c.label("probes", k.probes.size()); size_t chk = 0; for (auto &q : k.probes) chk += q.check; c.label("checked probes", chk);
	if (chk >= 3) c.nontrivial(fnv(k.out.data(), k.out.size()));
}

uint64_t step(Source &s, Clock &k) { uint64_t p = k.period() + 1; switch (s.weighted({3, 3, 1})) { case 0: return s.below(p / 4 + 2); case 1: return s.below(p * 2); default: return s.below(p * 12); } }

// TSC, TMA and MTC follow the crystal clock.
void crystal(Source &s, Ctx &c)
{
	Clock k(s); k.want = c.want_describe; config(s, k); k.drops = s.chance(1, 3); k.tsc_on = !s.chance(1, 8); k.start();
	k.psb();
	for (size_t n = s.range(1, 24); n--;) {
		k.run_to(k.t + step(s, k));
		switch (s.weighted({6, 2, 1, 1})) { case 0: k.probe(); break; case 1: k.psb(); break; case 2: k.emit_tsc_tma(false); break; default: k.cbr = (unsigned)s.range(1, 255); k.emit_cbr(false); break; }
	}
	k.probe(); decode(s, c, k);
}
// Cycle-accurate mode.
void cycles(Source &s, Ctx &c)
{
	Clock k(s); k.want = c.want_describe; config(s, k); k.cyc_on = true; k.mtc_on = s.chance(3, 4); k.tsc_on = !s.chance(1, 10); k.spans = k.mtc_on && s.chance(1, 3); k.drops = k.mtc_on && s.chance(1, 4);
	if (k.spans) k.mtcfreq = (unsigned)s.range(5, 15); k.start();
	k.psb();
	for (size_t n = s.range(1, 30); n--;) {
		k.run_to(k.t + (k.mtc_on ? step(s, k) : s.below(1ull << s.range(4, 20))));
		switch (s.weighted({6, 3, 2, 1, 1})) {
		case 0: if (k.emit_cyc()) k.mid = true; k.probe(); break;
		case 1: if (k.emit_cyc()) k.mid = true; break;
		case 2: k.psb(); break;
		case 3: k.boundary_cyc(); k.prevr = k.ratio(); if (k.prevr > k.rmax) k.rmax = k.prevr; k.cbr = (unsigned)s.range(4, 60); k.emit_cbr(false); k.span_ok = false; break;
		default: k.boundary_cyc(); k.emit_tsc_tma(false); k.span_ok = false; break;
		}
	}
	k.probe(); decode(s, c, k);
}
// Without the crystal clock ratio or the nominal frequency, packets are lost but decode goes on.
void noconfig(Source &s, Ctx &c)
{
	Clock k(s); k.want = c.want_describe; config(s, k); k.conf_ctc = false; k.cyc_on = s.chance(3, 4); k.drops = s.chance(1, 4); k.start();
	k.psb();
	for (size_t n = s.range(1, 24); n--;) {
		k.run_to(k.t + step(s, k));
		switch (s.weighted({6, 3, 2, 1, 1})) {
		case 0: k.emit_cyc(); k.probe(); break;
		case 1: k.emit_cyc(); break;
		case 2: k.psb(); break;
		case 3: k.boundary_cyc(); k.prevr = k.ratio(); if (k.prevr > k.rmax) k.rmax = k.prevr; k.cbr = (unsigned)s.range(4, 60); k.emit_cbr(false); break;
		default: k.boundary_cyc(); k.emit_tsc_tma(false); break;
		}
	}
	k.probe(); decode(s, c, k);
}
// Overflows: calibration is kept or lost; the time goes on.
void overflow(Source &s, Ctx &c)
{
	Clock k(s); k.want = c.want_describe; config(s, k); k.cyc_on = s.chance(3, 4); k.mtcfreq &= 7; k.start();
	k.psb();
	for (size_t n = s.range(1, 24); n--;) {
		k.run_to(k.t + step(s, k));
		switch (s.weighted({6, 3, 1, 3})) {
		case 0: if (k.emit_cyc()) k.mid = true; k.probe(); break;
		case 1: if (k.emit_cyc()) k.mid = true; break;
		case 2: k.psb(); break;
		default: k.ovf(s.below(k.period() * 3 + 2)); break;
		}
	}
	k.probe(); decode(s, c, k);
}
// SKL168: a CYC, and maybe an MTC, before PSB is dropped.  This shall not affect calibration.
void skl168(Source &s, Ctx &c)
{
	Clock k(s); k.want = c.want_describe; config(s, k); k.cyc_on = true; k.skl168 = !s.chance(1, 4); k.conf_nom = s.flip(); k.mtcfreq = (unsigned)s.range(0, 9); k.cbr = (unsigned)s.range(8, 40); k.nom = (unsigned)s.range(8, 40);
	// An MTC period covers several CYC wraps.
	uint64_t need = 4096ull * k.nom / k.cbr * s.range(2, 6) + 1; k.ebx = (uint32_t)((need * k.eax >> k.mtcfreq) + 1); if (k.ebx > k.eax * 511) { k.mtcfreq = 9; k.ebx = (uint32_t)((need * k.eax >> 9) + 1); }
	k.start(); k.psb();
	for (size_t n = s.range(1, 30); n--;) {
		k.run_to(k.t + step(s, k));
		if (k.skl168 && s.chance(1, 3) && k.cal_mtc && k.have_fcr && (k.qual - 1.0 / 256) < 0.005 * k.nom / k.cbr) { k.lossy_psb(); continue; }
		switch (s.weighted({6, 3, 1})) { case 0: k.emit_cyc(); k.probe(); break; case 1: k.emit_cyc(); break; default: k.psb(); break; }
	}
	k.probe(); decode(s, c, k);
}
}
int main(int argc, char **argv)
{
	return run_main(argc, argv, "C12", {
		{"C12", "crystal", "a clock run with TSC, TMA and MTC packets and at least three checked time samples", crystal, 600000, 20000000},
		{"C12", "noconfig", "a clock run decoded without crystal clock configuration and at least three checked time samples", noconfig, 400000, 16000000},
		{"C12", "overflow", "a clock run with overflows and at least three checked time samples", overflow, 400000, 16000000},
		{"C12", "skl168", "a clock run with CYC and MTC dropped at PSB and at least three checked time samples", skl168, 400000, 16000000},
		{"C12", "cycles", "a clock run with CYC packets and at least three checked time samples", cycles, 600000, 20000000},
	});
}
