// C05: the event layer delivers exactly the encoded events.
#include "evgen.hpp"
using namespace pbt; using namespace wire; using namespace trc;

struct EvtGuard { pt_event_decoder *d; ~EvtGuard() { if (d) pt_evt_free_decoder(d); } };

static std::string packets(const Tracer &t, size_t from, size_t to)
{
	std::string r; for (size_t i = 0; i < t.bounds.size(); ++i) { size_t b = t.bounds[i], e = i + 1 < t.bounds.size() ? t.bounds[i + 1] : t.out.size(); if (b < from || b >= to) continue; pt_packet p; memset(&p, 0, sizeof(p)); wire::decode(p, t.out.data() + b, e - b); r += strf("%04zx %s\n", b, str(p).c_str()); }
	return r;
}
static void describe(Ctx &c, const Tracer &t)
{
	c.describe([&] { std::string r = packets(t, 0, ~(size_t)0); r += "expected events:\n"; for (auto &e : t.evs) r += "  " + evtext(e.ev) + "\n"; return r; });
}

// Decode from the given segment and compare with the expected events.
static void compare(pt_event_decoder *d, const Tracer &t, size_t first, const char *what)
{
	uint64_t last = 0;
	for (size_t i = first; i < t.evs.size(); ++i) {
		pt_event ev; memset(&ev, 0xcc, sizeof(ev));
		int st = pt_evt_next(d, &ev, sizeof(ev));
		CHECK(st == 0, "%s: event %zu: %s, expected '%s'", what, i, pt_errstr(pt_errcode(st)), evtext(t.evs[i].ev).c_str());
		std::string g = evtext(ev, t.what()), w = evtext(t.evs[i].ev, t.what());
		CHECK(g == w, "%s: event %zu: got '%s', expected '%s'", what, i, g.c_str(), w.c_str());
		uint64_t o = 0; st = pt_evt_get_offset(d, &o); CHECK(st == 0, "offset: %d", st);
		CHECK(o >= last && o <= t.out.size(), "%s: event %zu: offset %#llx after %#llx", what, i, (unsigned long long)o, (unsigned long long)last); last = o;
		CHECK(o + 16 >= 0 && t.evs[i].end <= t.out.size(), "bounds");
	}
	for (int k = 0; k < 2; ++k) { pt_event ev; int st = pt_evt_next(d, &ev, sizeof(ev)); CHECK(st == -pte_eos, "%s: after the last event: %d%s", what, st, st == 0 ? (" " + evtext(ev)).c_str() : ""); }
}

static void run_stream(Source &s, Ctx &c, bool big)
{
	Tracer t(s); EvGen g(t);
	t.iflags = s.flip(); t.noisy = s.chance(3, 4); t.cyc = s.chance(1, 3);
	uint32_t errata = s.chance(1, 3) ? (uint32_t)s.bits(5) : 0;
	g.trig = !(errata & 1); g.ovf = !(errata & 1);
	g.run(s.range(1, big ? 120 : 25));
	describe(c, t);
	Buf buf(t.out, (unsigned)s.below(8));
	pt_config cfg = mkconfig(buf.p, t.out.size());
	cfg.flags.variant.event.enable_iflags_events = t.iflags;
	cfg.flags.variant.event.keep_tcal_on_ovf = s.flip();
	cfg.errata.skd010 = errata & 1; cfg.errata.apl11 = errata >> 1 & 1; cfg.errata.apl12 = errata >> 2 & 1; cfg.errata.bdm70 = errata >> 3 & 1; cfg.errata.skl014 = errata >> 4 & 1;
	c.log("errata skd010=%u apl11=%u apl12=%u bdm70=%u iflags=%d\n", errata & 1, errata >> 1 & 1, errata >> 2 & 1, errata >> 3 & 1, t.iflags);
	EvtGuard d{pt_evt_alloc_decoder(&cfg)}; CHECK(d.d, "cannot allocate decoder");
	int st = pt_evt_sync_forward(d.d); CHECK(st == 0, "sync: %d", st);
	uint64_t o; pt_evt_get_sync_offset(d.d, &o); CHECK(o == t.psbs[0], "sync at %#llx", (unsigned long long)o);
	compare(d.d, t, 0, "from the beginning");
	uint64_t h = 0; size_t kinds = 0; bool seen[64] = {false};
	for (auto &e : t.evs) { if (!seen[e.ev.type & 63]) { seen[e.ev.type & 63] = true; kinds++; c.label(evname(e.ev.type)); } h = mix(h, (uint64_t)e.ev.type); }
	c.label("events", t.evs.size());
	if (t.evs.size() >= 4 && kinds >= 3) c.nontrivial(fnv(t.out.data(), t.out.size()));
}
static void stream(Source &s, Ctx &c) { run_stream(s, c, false); }
static void stream_long(Source &s, Ctx &c) { run_stream(s, c, true); }

// --- processor errata ------------------------------------------------------------
static void errata(Source &s, Ctx &c)
{
	Tracer t(s); EvGen g(t); t.iflags = s.flip(); t.noisy = s.chance(1, 2); g.ovf = false; g.resync = false; g.trig = false; g.fupsupp = false;
	pt_errata er; memset(&er, 0, sizeof(er));
	auto cbrs_dropped = [&] { pt_packet p = t.mk(ppt_cbr); p.payload.cbr.ratio = (uint8_t)s.range(1, 60); t.raw(p); };
	auto timing = [&] { unsigned n = (unsigned)s.below(3); while (n--) { t.noise(); } };
	unsigned kind = (unsigned)s.below(13); if (kind > 9) kind = 9;
	g.header(kind == 0 ? s.flip() : true);
	size_t pre = s.below(4); for (size_t i = 0; i < pre; ++i) { if (t.enabled) g.step_enabled(); else g.step_disabled(); }
	auto ovfev = [&](bool en, uint64_t ip) { pt_event e = mkev(ptev_overflow); if (en) e.variant.overflow.ip = ip; else e.ip_suppressed = 1; return e; };
	auto lost = [&] { t.last_ip = 0; t.full_ip = true; t.mode_valid = false; g.intx = false; };
	static const char *kn[] = {"bdm70", "apl11 tip.pgd", "apl12 tip.pge/stop", "apl12 psb", "skd010 tip", "skd010 tip.pgd", "skd010 fup", "skd010 tsx fup", "skd010 psb", "not hit"};
	c.label(kn[kind]);
	switch (kind) {
	case 0: { // BDM70: PSB+ with a FUP although tracing is disabled: TIP.PGE follows immediately.
		er.bdm70 = 1;
		if (t.enabled) t.pgd(0, true);
		Tracer::Header h; h.pip = s.flip(); h.cr3 = g.cr3(); h.cbr = s.flip(); h.ratio = 10; h.has_mode = s.flip(); h.m = t.mode_valid ? t.mode : g.newmode(); h.shuffle = s.flip();
		h.fup = false; h.fupsupp = false;
		size_t e0 = t.evs.size(); size_t b0 = t.out.size();
		t.psb(h); (void)e0; (void)b0;
		// Put the bogus FUP right before PSBEND.
		Bytes be; { pt_packet p = t.mk(ppt_psbend); encode(be, p); }
		t.out.resize(t.out.size() - be.size()); t.bounds.pop_back();
		{ pt_packet p = t.mk(ppt_fup); p.payload.ip.ipc = pt_ipc_sext_48; p.payload.ip.ip = g.newip() & 0xffffffffffffull; t.raw(p); }
		t.simple(ppt_psbend);
		t.full_ip = true; timing();
		Mode m = g.newmode(); t.pge(g.newip(), s.flip() ? &m : nullptr);
		break; }
	case 1: { // APL11: OVF followed by an extra TIP.PGD
		er.apl11 = 1; pt_event e = ovfev(false, 0); t.noise(); t.simple(ppt_ovf); lost(); t.stamp(e); timing(); t.ip_packet(ppt_tip_pgd, g.newip(), s.flip()); t.full_ip = true; t.enabled = false; t.evs.push_back(Exp{e, 0, t.out.size()});
		g.standalone_nofup(); break; }
	case 2: { // APL12: OVF, FUP, and then an indication that tracing is disabled
		er.apl12 = 1; t.noise(); t.simple(ppt_ovf); lost(); timing(); if (s.chance(1, 3)) cbrs_dropped(); timing();
		{ pt_packet p = t.mk(ppt_fup); p.payload.ip.ipc = pt_ipc_full; p.payload.ip.ip = g.newip(); t.raw(p); }
		t.full_ip = true; t.enabled = false; t.expect(ovfev(false, 0));
		timing(); if (s.flip()) { t.pip_packet(0x12340, false); pt_event e = mkev(ptev_paging); e.variant.paging.cr3 = 0x12340; t.expect(e); }
		g.standalone_nofup(); break; }
	case 3: { er.apl12 = 1; t.noise(); t.simple(ppt_ovf); lost(); timing();
		{ pt_packet p = t.mk(ppt_fup); p.payload.ip.ipc = pt_ipc_full; p.payload.ip.ip = g.newip(); t.raw(p); }
		t.enabled = false; t.expect(ovfev(false, 0)); timing(); g.header(false); break; }
	case 4: case 5: { // SKD010: OVF without a FUP; tracing turns out to be enabled
		er.skd010 = 1; t.noise(); t.simple(ppt_ovf); lost(); pt_event e = ovfev(false, 0); t.stamp(e);
		timing(); if (s.chance(1, 3)) cbrs_dropped();
		bool dis = kind == 5;
		// something that ends the search for a FUP
		t.pip_packet(g.cr3(), false); timing();
		if (!dis && s.chance(1, 2)) { Mode m = g.newmode(); t.mode_packet(m); }
		uint64_t ip = g.newip(); t.ip_packet(dis ? ppt_tip_pgd : ppt_tip, ip); t.enabled = !dis;
		if (!dis) { e.ip_suppressed = 0; e.variant.overflow.ip = ip; }
		if (dis) t.full_ip = true;
		t.evs.push_back(Exp{e, 0, t.out.size()});
		break; }
	case 6: case 7: { er.skd010 = 1; t.noise(); t.simple(ppt_ovf); lost(); pt_event e = ovfev(false, 0); t.stamp(e); timing();
		if (kind == 6) { t.pip_packet(g.cr3(), false); timing(); }
		bool tx = kind == 7; if (tx) { t.tsx_packet(true, false); g.intx = true; timing(); }
		uint64_t ip = g.newip(); t.ip_packet(ppt_fup, ip); t.enabled = true; e.ip_suppressed = 0; e.variant.overflow.ip = ip; t.evs.push_back(Exp{e, 0, t.out.size()});
		if (tx) { pt_event x = mkev(ptev_tsx); x.variant.tsx.speculative = 1; t.expect_at(x, ip, false); }
		else { Tracer::Async a; t.async_tail(ip, g.newip(), a); }
		break; }
	case 8: { er.skd010 = 1; t.noise(); t.simple(ppt_ovf); lost(); pt_event e = ovfev(false, 0); t.stamp(e); timing();
		t.pip_packet(g.cr3(), false); timing();
		size_t at = t.evs.size(); g.header(true);
		uint64_t ip = 0; for (size_t i = at; i < t.evs.size(); ++i) if (t.evs[i].ev.type == ptev_enabled) ip = t.evs[i].ev.variant.enabled.ip;
		e.ip_suppressed = 0; e.variant.overflow.ip = ip; t.evs.insert(t.evs.begin() + (long)at, Exp{e, 0, 0}); break; }
	case 9: { // The processor is affected but the overflow does resolve with tracing disabled.
		er.skd010 = s.chance(3, 4); er.apl11 = s.flip(); er.apl12 = s.flip(); er.bdm70 = s.flip(); er.skl014 = s.flip(); er.skd022 = s.flip(); er.bdm64 = s.flip(); er.skl168 = 0;
		t.ovf(false, 0); g.intx = false; t.noise();
		if (s.flip()) { uint64_t x = g.cr3(); t.pip_packet(x, false); pt_event e = mkev(ptev_paging); e.variant.paging.cr3 = x; t.expect(e); } else { uint64_t x = g.vmcs(); t.vmcs_packet(x); pt_event e = mkev(ptev_vmcs); e.variant.vmcs.base = x; t.expect(e); }
		for (size_t n = s.below(8); n; --n) {
			if (s.chance(1, 3)) { bool i = s.flip(), a = !i && s.flip(); t.noise(); t.tsx_packet(i, a); pt_event e = mkev(ptev_tsx); e.variant.tsx.speculative = i; e.variant.tsx.aborted = a; g.intx = i; t.expect_at(e, 0, true); }
			else g.standalone();
		}
		switch (s.below(6)) { case 0: g.header(false); break; case 1: t.ovf(false, 0); g.intx = false; g.standalone_nofup(); break; case 2: case 3: t.ovf(true, g.newip()); g.intx = false; break; default: g.standalone_nofup(); }
		break; }
	}
	size_t post = s.range(1, 6); for (size_t i = 0; i < post; ++i) { if (t.enabled) g.step_enabled(); else g.step_disabled(); }
	// make the future unambiguous
	if (t.enabled) t.tnt(1, 1); 
	describe(c, t); c.log("erratum %s\n", kn[kind]);
	Buf buf(t.out, 0); pt_config cfg = mkconfig(buf.p, t.out.size()); cfg.flags.variant.event.enable_iflags_events = t.iflags; cfg.errata = er;
	EvtGuard d{pt_evt_alloc_decoder(&cfg)}; CHECK(d.d, "cannot allocate decoder");
	int st = pt_evt_sync_forward(d.d); CHECK(st == 0, "sync: %d", st);
	compare(d.d, t, 0, kn[kind]);
	c.nontrivial(fnv(t.out.data(), t.out.size()));
}

// --- packets that are not allowed in their context ------------------------------------
static void illegal(Source &s, Ctx &c)
{
	Tracer t(s); EvGen g(t); t.noisy = s.flip(); g.ovf = false; g.resync = false;
	unsigned kind = (unsigned)s.below(10);
	bool en = kind >= 3 ? (kind == 9 ? false : s.flip()) : kind == 2;
	static const char *kn[] = {"tnt while disabled", "tip while disabled", "psb with pending events", "packet not allowed in psb+", "inconsistent mode.exec in psb+", "evd mismatch", "cfe mismatch", "rsm/sipi with ip", "trig with ip and icnt", "trig with icnt while disabled"};
	g.header(en);
	size_t pre = s.below(5);
	for (size_t i = 0; i < pre; ++i) { if (t.enabled) { if (!en) break; g.step_enabled(); } else { g.step_disabled(); } }
	if (kind <= 1 || kind == 9) { if (t.enabled) t.pgd(0, true); }
	int want = -pte_bad_context;
	c.label(kn[kind]);
	switch (kind) {
	case 0: { pt_packet p = t.mk(ppt_tnt_8); p.payload.tnt.bit_size = 3; p.payload.tnt.payload = 5; t.raw(p); break; }
	case 1: t.ip_packet(ppt_tip, g.newip()); break;
	case 2: { pt_packet p = t.mk(ppt_ptw); switch (s.below(4)) { case 0: p.payload.ptw.ip = 1; t.raw(p); break; case 1: g.cfe_packet(pt_cfe_intr, 3, true); break; case 2: g.evd(pt_evd_cr2, 4); break; default: t.raw(t.mk(ppt_mwait)); break; } t.simple(ppt_psb); t.simple(ppt_psbend); break; }
	case 3: { t.simple(ppt_psb); pt_packet p; static const pt_packet_type bad[] = {ppt_tnt_8, ppt_tip, ppt_tip_pge, ppt_tip_pgd, ppt_ptw, ppt_exstop, ppt_mwait, ppt_pwre, ppt_pwrx, ppt_stop, ppt_psb, ppt_cfe, ppt_evd, ppt_trig}; memset(&p, 0, sizeof(p)); p = gen_packet(s, true, bad[s.below(14)]); t.raw(p); t.simple(ppt_psbend); break; }
	case 4: { Mode m = t.mode_valid ? t.mode : g.newmode(); if (!t.mode_valid) { t.psbs.push_back(t.out.size()); Tracer::Header h; h.has_mode = true; h.m = m; t.psb(h); } m.csl ^= 1; if (m.csl) m.csd = 0; t.simple(ppt_psb); t.mode_packet(m); t.simple(ppt_psbend); want = -pte_bad_status_update; break; }
	case 5: switch (s.below(3)) { case 0: g.evd(pt_evd_cr2, 1); g.evd(s.flip() ? pt_evd_vmxq : pt_evd_cr2, 2); break; case 1: g.evd(pt_evd_vmxq, 1); g.evd(s.flip() ? pt_evd_cr2 : pt_evd_vmxq, 2); break; default: g.evd(pt_evd_vmxr, 1); g.evd(s.flip() ? pt_evd_cr2 : pt_evd_vmxr, 2); break; } break;
	case 6: { static const unsigned a[] = {pt_cfe_iret, pt_cfe_smi, pt_cfe_rsm, pt_cfe_sipi, pt_cfe_init, pt_cfe_vmentry, pt_cfe_shutdown, pt_cfe_uintr, pt_cfe_uiret}; bool cr2 = s.flip(); g.evd(cr2 ? pt_evd_cr2 : pt_evd_vmxq, 3); unsigned ty = s.chance(1, 4) ? (cr2 ? pt_cfe_vmexit : pt_cfe_intr) : a[s.below(9)]; g.cfe_packet(ty, 1, s.flip()); break; }
	case 7: g.cfe_packet(s.flip() ? pt_cfe_rsm : pt_cfe_sipi, 1, true); want = -pte_bad_packet; break;
	case 8: { pt_packet p = t.mk(ppt_trig); p.payload.trig.ip = 1; bool v = s.flip(); p.payload.trig.icntv = v; p.payload.trig.icnt = v ? (uint16_t)s.range(1, 0xffff) : 0; t.raw(p); want = -pte_bad_packet; break; }
	default: { pt_packet p = t.mk(ppt_trig); p.payload.trig.icntv = 1; p.payload.trig.icnt = (uint16_t)s.range(1, 0xffff); t.raw(p); want = -pte_bad_packet; break; }
	}
	describe(c, t); c.log("then: %s\n", kn[kind]);
	Buf buf(t.out, 0); pt_config cfg = mkconfig(buf.p, t.out.size());
	EvtGuard d{pt_evt_alloc_decoder(&cfg)}; CHECK(d.d, "cannot allocate decoder");
	int st = pt_evt_sync_forward(d.d); CHECK(st == 0, "sync: %d", st);
	for (size_t i = 0; i < t.evs.size(); ++i) { pt_event ev; st = pt_evt_next(d.d, &ev, sizeof(ev)); CHECK(st == 0, "event %zu: %d, expected '%s'", i, st, evtext(t.evs[i].ev).c_str()); CHECK(evtext(ev, t.what()) == evtext(t.evs[i].ev, t.what()), "event %zu: '%s', expected '%s'", i, evtext(ev).c_str(), evtext(t.evs[i].ev).c_str()); }
	pt_event ev; st = pt_evt_next(d.d, &ev, sizeof(ev));
	CHECK(st == want, "%s: got %d%s, expected %d", kn[kind], st, st == 0 ? (" " + evtext(ev)).c_str() : "", want);
	c.nontrivial(fnv(t.out.data(), t.out.size()));
}

int main(int argc, char **argv)
{
	return run_main(argc, argv, "C05", {
		{"C05", "stream", "a legal packet sequence with at least four events of at least three types", stream, 600000, 6000000},
		{"C05", "long", "a legal packet sequence of up to 120 steps with at least four events of at least three types", stream_long, 120000, 1200000},
		{"C05", "errata", "a packet sequence exhibiting a processor erratum, or one that resembles it", errata, 200000, 2000000},
		{"C05", "illegal", "a legal sequence followed by a packet that is not allowed in its context", illegal, 200000, 1500000},
	});
}
