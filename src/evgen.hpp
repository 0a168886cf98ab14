// Random legal packet sequences with the events they encode.
#pragma once
#include "tracer.hpp"

namespace trc {

// Stands for "no event" in the queue of events waiting for an IP.
static const pt_event_type ev_ignore = (pt_event_type)0x7ff0;

struct EvGen {
	Tracer &t; Source &s; bool evtracing = true, trig = true, power = true, ovf = true, tsx = true, resync = true, bigips = true, fupsupp = true;
	bool trigicnt = true;  // TRIG with ICNT but without IP while disabled
	bool fullhdr = false;  // every PSB+ restores mode and time, so that decode does not depend on what precedes it
	std::vector<uint64_t> bases; uint64_t cur = 0; bool intx = false;
	EvGen(Tracer &tr) : t(tr), s(tr.s) {}
	uint64_t newip()
	{
		switch (s.weighted({4, 3, 2, bigips ? 2u : 0u, 1})) {
		case 0: cur = (cur & ~0xffffull) | s.bits(16); break;
		case 1: cur = 0x400000 + s.bits(20); break;
		case 2: cur = 0xffffffff81000000ull + s.bits(20); break;
		case 3: cur = s.flip() ? (0x0080000000000000ull + s.bits(50)) : (0xff11000000000000ull + s.bits(40)); break;
		default: cur = (cur & ~0xffffffffull) | s.bits(32); break;
		}
		if (!cur) cur = 0x1000;
		return cur;
	}
	Mode newmode() { static const Mode m[3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 0}}; Mode r = m[s.weighted({4, 2, 1})]; r.iflag = s.flip(); return r; }
	uint64_t cr3() { return s.bits(47) << 5; }
	uint64_t vmcs() { return s.bits(40) << 12; }
	void header(bool fup)
	{
		Tracer::Header h; h.fup = fup; if (fup) h.ip = newip(); else h.fupsupp = fupsupp && s.chance(1, 8);
		h.has_mode = fullhdr || s.chance(3, 4); if (h.has_mode) h.m = t.mode_valid ? t.mode : newmode();
		h.tsx = s.chance(1, 3); h.intx = intx; h.pip = s.chance(1, 2); h.cr3 = cr3(); h.nr = s.flip(); h.vmcs = s.chance(1, 3); h.base = vmcs();
		h.cbr = s.chance(1, 2); h.ratio = (unsigned)s.range(1, 63); h.mnt = s.chance(1, 8); h.mntpl = s.interesting(64); h.t = t.timing && (fullhdr || s.chance(1, 2)); h.shuffle = s.chance(1, 2);
		if (ovf && s.chance(1, 12)) {
			h.ovf = true; t.psb(h); intx = false; t.ovf(s.flip(), newip(), true); return;
		}
		t.psb(h);
	}
	pt_event cfe_event(unsigned type, uint8_t vec)
	{
		static const struct { unsigned c; pt_event_type e; } m[] = {{pt_cfe_intr, ptev_interrupt}, {pt_cfe_iret, ptev_iret}, {pt_cfe_smi, ptev_smi}, {pt_cfe_rsm, ptev_rsm}, {pt_cfe_sipi, ptev_sipi}, {pt_cfe_init, ptev_init}, {pt_cfe_vmentry, ptev_vmentry}, {pt_cfe_vmexit, ptev_vmexit}, {pt_cfe_vmexit_intr, ptev_vmexit}, {pt_cfe_shutdown, ptev_shutdown}, {pt_cfe_uintr, ptev_uintr}, {pt_cfe_uiret, ptev_uiret}};
		for (auto &x : m) if (x.c == type) {
			pt_event e = mkev(x.e);
			switch (type) { case pt_cfe_intr: e.variant.interrupt.vector = vec; break; case pt_cfe_sipi: e.variant.sipi.vector = vec; break; case pt_cfe_uintr: e.variant.uintr.vector = vec; break; case pt_cfe_vmexit_intr: e.variant.vmexit.has_vector = 1; e.variant.vmexit.vector = vec; break; default: break; }
			return e;
		}
		return mkev(ev_ignore);
	}
	void evd(unsigned type, uint64_t pl) { pt_packet p = t.mk(ppt_evd); p.payload.evd.type = (pt_evd_type)type; p.payload.evd.payload = pl; t.raw(p); t.noise(); }
	// EVD packets preceding a CFE, and their effect on the CFE's event.
	void evds(unsigned type, pt_event &e)
	{
		if (s.chance(1, 10)) evd(pt_evd_vmxr + 1 + (unsigned)s.below(8), s.interesting(64));
		if (type == pt_cfe_intr && s.chance(1, 2)) { uint64_t v = s.interesting(64); evd(pt_evd_cr2, v); e.variant.interrupt.has_cr2 = 1; e.variant.interrupt.cr2 = v; }
		if (type == pt_cfe_vmexit || type == pt_cfe_vmexit_intr) {
			bool q = s.flip(), r = s.flip(), first = s.flip(); uint64_t vq = s.interesting(64), vr = s.interesting(64);
			if (q && first) evd(pt_evd_vmxq, vq);
			if (r) evd(pt_evd_vmxr, vr);
			if (q && !first) evd(pt_evd_vmxq, vq);
			if (q) { e.variant.vmexit.has_vmxq = 1; e.variant.vmexit.vmxq = vq; }
			if (r) { e.variant.vmexit.has_vmxr = 1; e.variant.vmexit.vmxr = vr; }
		}
	}
	void cfe_packet(unsigned type, uint8_t vec, bool ip) { pt_packet p = t.mk(ppt_cfe); p.payload.cfe.type = (pt_cfe_type)type; p.payload.cfe.vector = vec; p.payload.cfe.ip = ip; t.raw(p); }

	void async(const std::vector<pt_event> &atfup, bool allow_disable = true)
	{
		Tracer::Async a; uint64_t from = newip(); Mode m;
		a.pip = s.chance(1, 4); a.cr3 = cr3(); a.nr = s.flip(); a.vmcs = s.chance(1, 5); a.base = vmcs(); a.vmcs_first = s.flip();
		a.disable = allow_disable && s.chance(1, 4); a.supp = a.disable && s.chance(1, 3); 
		if (s.chance(1, 3)) { m = newmode(); a.m = &m; a.mode_first = s.chance(1, 3); }
		t.noise(); t.ip_packet(ppt_fup, from);
		for (pt_event e : atfup) t.expect_at(e, from, e.ip_suppressed);
		t.async_tail(from, newip(), a);
	}
	// Events bound to a FUP of their own.
	void fup_bound()
	{
		std::vector<pt_event> q; unsigned n = s.chance(1, 4) ? 2 : 1; bool used[6] = {false};
		while (n--) {
			unsigned k = (unsigned)s.weighted({4, power ? 2u : 0u, power ? 2u : 0u, evtracing ? 3u : 0u, trig ? 2u : 0u, 2}); if (used[k]) continue; used[k] = true;
			if (k == 1 || k == 2) used[1] = used[2] = true;
			t.noise();
			switch (k) {
			case 0: { pt_packet p = t.mk(ppt_ptw); p.payload.ptw.plc = (uint8_t)s.below(2); p.payload.ptw.payload = s.interesting(p.payload.ptw.plc ? 64 : 32); p.payload.ptw.ip = 1; t.raw(p); pt_event e = mkev(ptev_ptwrite); e.variant.ptwrite.size = p.payload.ptw.plc ? 8 : 4; e.variant.ptwrite.payload = p.payload.ptw.payload; q.push_back(e); } break;
			case 1: { pt_packet p = t.mk(ppt_exstop); p.payload.exstop.ip = 1; t.raw(p); q.push_back(mkev(ptev_exstop)); } break;
			case 2: { pt_packet p = t.mk(ppt_mwait); p.payload.mwait.hints = (uint32_t)s.bits(8); p.payload.mwait.ext = (uint32_t)s.bits(2); t.raw(p); t.noise(); pt_packet x = t.mk(ppt_exstop); x.payload.exstop.ip = 1; t.raw(x);
				pt_event e = mkev(ptev_mwait); e.variant.mwait.hints = p.payload.mwait.hints; e.variant.mwait.ext = p.payload.mwait.ext; q.push_back(e); q.push_back(mkev(ptev_exstop)); } break;
			case 3: {
				if (s.chance(1, 12)) { cfe_packet(20 + (unsigned)s.below(11), s.byte(), true); q.push_back(mkev(ev_ignore)); break; }
				static const unsigned ty[] = {pt_cfe_intr, pt_cfe_iret, pt_cfe_smi, pt_cfe_init, pt_cfe_vmentry, pt_cfe_vmexit, pt_cfe_vmexit_intr, pt_cfe_shutdown, pt_cfe_uintr, pt_cfe_uiret};
				unsigned c = ty[s.below(10)]; uint8_t v = s.byte(); pt_event e = cfe_event(c, v); evds(c, e); cfe_packet(c, v, true); q.push_back(e); } break;
			case 4: { pt_packet p = t.mk(ppt_trig); p.payload.trig.trbv = s.byte(); p.payload.trig.mult = s.flip(); p.payload.trig.ip = 1; p.payload.trig.icntv = 1; t.raw(p); pt_event e = mkev(ptev_trig); e.variant.trig.trbv = p.payload.trig.trbv; e.variant.trig.mult = p.payload.trig.mult; q.push_back(e); } break;
			default: { Mode m = newmode(); auto v = t.mode_events(m); t.mode_packet(m); if (v.empty()) q.push_back(mkev(ev_ignore)); q.insert(q.end(), v.begin(), v.end()); } break;
			}
		}
		t.noise(); uint64_t ip = newip(); t.ip_packet(ppt_fup, ip);
		for (auto &e : q) if (e.type != ev_ignore) t.expect_at(e, ip, false);
	}
	// Packets that do not depend on tracing being enabled.
	void standalone()
	{
		t.noise();
		switch (s.weighted({3, 2, 2, power ? 2u : 0u, power ? 2u : 0u, power ? 2u : 0u, 2, 1, evtracing ? 3u : 0u, trig ? 2u : 0u, 1})) {
		case 0: { pt_packet p = t.mk(ppt_cbr); p.payload.cbr.ratio = (uint8_t)s.range(1, 255); t.raw(p); pt_event e = mkev(ptev_cbr); e.variant.cbr.ratio = p.payload.cbr.ratio; t.expect(e); } break;
		case 1: { pt_packet p = t.mk(ppt_ptw); p.payload.ptw.plc = (uint8_t)s.below(2); p.payload.ptw.payload = s.interesting(p.payload.ptw.plc ? 64 : 32); t.raw(p); pt_event e = mkev(ptev_ptwrite); e.variant.ptwrite.size = p.payload.ptw.plc ? 8 : 4; e.variant.ptwrite.payload = p.payload.ptw.payload; t.expect_at(e, 0, true); } break;
		case 2: { uint64_t c = cr3(); bool nr = s.flip(); t.pip_packet(c, nr); pt_event e = mkev(ptev_paging); e.variant.paging.cr3 = c; e.variant.paging.non_root = nr; t.expect(e); } break;
		case 3: { pt_packet p = t.mk(ppt_exstop); t.raw(p); t.expect_at(mkev(ptev_exstop), 0, true); } break;
		case 4: { pt_packet p = t.mk(ppt_mwait); p.payload.mwait.hints = (uint32_t)s.bits(8); p.payload.mwait.ext = (uint32_t)s.bits(2); t.raw(p); t.noise(); t.simple(ppt_exstop); pt_event e = mkev(ptev_mwait); e.variant.mwait.hints = p.payload.mwait.hints; e.variant.mwait.ext = p.payload.mwait.ext; t.expect_at(e, 0, true); t.expect_at(mkev(ptev_exstop), 0, true); } break;
		case 5: if (s.flip()) { pt_packet p = t.mk(ppt_pwre); p.payload.pwre.state = (uint8_t)s.bits(4); p.payload.pwre.sub_state = (uint8_t)s.bits(4); p.payload.pwre.hw = s.flip(); t.raw(p); pt_event e = mkev(ptev_pwre); e.variant.pwre.state = p.payload.pwre.state; e.variant.pwre.sub_state = p.payload.pwre.sub_state; e.variant.pwre.hw = p.payload.pwre.hw; t.expect(e); }
			else { pt_packet p = t.mk(ppt_pwrx); p.payload.pwrx.last = (uint8_t)s.bits(4); p.payload.pwrx.deepest = (uint8_t)s.bits(4); p.payload.pwrx.interrupt = s.flip(); p.payload.pwrx.store = s.flip(); p.payload.pwrx.autonomous = s.flip(); t.raw(p); pt_event e = mkev(ptev_pwrx); e.variant.pwrx.last = p.payload.pwrx.last; e.variant.pwrx.deepest = p.payload.pwrx.deepest; e.variant.pwrx.interrupt = p.payload.pwrx.interrupt; e.variant.pwrx.store = p.payload.pwrx.store; e.variant.pwrx.autonomous = p.payload.pwrx.autonomous; t.expect(e); }
			break;
		case 6: { uint64_t b = vmcs(); t.vmcs_packet(b); pt_event e = mkev(ptev_vmcs); e.variant.vmcs.base = b; t.expect(e); } break;
		case 7: { pt_packet p = t.mk(ppt_mnt); p.payload.mnt.payload = s.interesting(64); t.raw(p); pt_event e = mkev(ptev_mnt); e.variant.mnt.payload = p.payload.mnt.payload; t.expect(e); } break;
		case 8: {
			if (s.chance(1, 12)) { cfe_packet(20 + (unsigned)s.below(11), s.byte(), false); break; }
			static const unsigned any[] = {pt_cfe_iret, pt_cfe_vmentry, pt_cfe_shutdown, pt_cfe_uiret, pt_cfe_intr, pt_cfe_smi, pt_cfe_rsm, pt_cfe_sipi, pt_cfe_init, pt_cfe_vmexit, pt_cfe_vmexit_intr, pt_cfe_uintr};
			unsigned c = any[s.below(t.enabled ? 4 : 12)]; uint8_t v = s.byte(); pt_event e = cfe_event(c, v); evds(c, e); cfe_packet(c, v, false); t.expect_at(e, 0, true); } break;
		case 9: { pt_packet p = t.mk(ppt_trig); p.payload.trig.trbv = s.byte(); p.payload.trig.mult = s.flip(); p.payload.trig.icntv = trigicnt && s.flip(); if (p.payload.trig.icntv && t.enabled) p.payload.trig.icnt = (uint16_t)s.interesting(16); t.raw(p);
			pt_event e = mkev(ptev_trig); e.variant.trig.trbv = p.payload.trig.trbv; e.variant.trig.mult = p.payload.trig.mult; e.variant.trig.icnt = p.payload.trig.icnt; if (!p.payload.trig.icntv) e.ip_suppressed = 1; t.expect(e); } break;
		default: t.noise(); break;
		}
	}
	void step_enabled()
	{
		switch (s.weighted({6, 6, 4, 3, 4, 3, 2, tsx ? 2u : 0u, evtracing ? 3u : 0u, ovf ? 1u : 0u, resync ? 2u : 0u})) {
		case 0: { unsigned n = (unsigned)(s.chance(1, 3) ? s.range(7, 47) : s.range(1, 6)); t.tnt(s.bits(n), n); } break;
		case 1: { Mode m; bool hm = s.chance(1, 5); if (hm) m = newmode(); bool supp = !hm && s.chance(1, 20); t.tip(supp ? 0 : newip(), supp, hm ? &m : nullptr); } break;
		case 2: async({}); break;
		case 3: { Mode m; bool hm = s.chance(1, 4); if (hm) m = newmode(); bool supp = s.flip(); t.pgd(supp ? 0 : newip(), supp, hm ? &m : nullptr); } break;
		case 4: fup_bound(); break;
		case 5: standalone(); break;
		case 6: { Mode m; t.noise(); (void)m; standalone(); } break;
		case 7: { // transactions
			t.noise(); pt_event e = mkev(ptev_tsx);
			if (!intx) { t.tsx_packet(true, false); e.variant.tsx.speculative = 1; intx = true; t.noise(); uint64_t ip = newip(); t.ip_packet(ppt_fup, ip); t.expect_at(e, ip, false); }
			else if (s.flip()) { t.tsx_packet(false, false); intx = false; t.noise(); uint64_t ip = newip(); t.ip_packet(ppt_fup, ip); t.expect_at(e, ip, false); }
			else { t.tsx_packet(false, true); e.variant.tsx.aborted = 1; intx = false; async({e}); }
			} break;
		case 8: { // event tracing: an event that is followed by the branch it causes
			static const unsigned ty[] = {pt_cfe_intr, pt_cfe_smi, pt_cfe_rsm, pt_cfe_sipi, pt_cfe_init, pt_cfe_vmexit, pt_cfe_vmexit_intr, pt_cfe_uintr};
			t.noise(); unsigned c = ty[s.below(8)]; uint8_t v = s.byte(); pt_event e = cfe_event(c, v); evds(c, e); cfe_packet(c, v, false); if (c == pt_cfe_rsm || c == pt_cfe_sipi) e.ip_suppressed = 1; async({e}); } break;
		case 9: t.ovf(s.flip(), newip()); intx = false; break;
		case 10: header(true); break;
		}
	}
	void step_disabled()
	{
		switch (s.weighted({5, 4, tsx ? 1u : 0u, 1, ovf ? 1u : 0u, resync ? 2u : 0u, 2})) {
		case 0: { Mode m; bool hm = s.chance(1, 3); if (hm) m = newmode(); t.pge(newip(), hm ? &m : nullptr); } break;
		case 1: standalone(); break;
		case 2: { bool i = s.flip(), a = !i && s.flip(); t.noise(); t.tsx_packet(i, a); pt_event e = mkev(ptev_tsx); e.variant.tsx.speculative = i; e.variant.tsx.aborted = a; intx = i; t.expect_at(e, 0, true); } break;
		case 3: t.noise(); t.simple(ppt_stop); t.expect(mkev(ptev_stop)); break;
		case 4: t.ovf(false, 0); intx = false; standalone_nofup(); break;
		case 5: header(false); break;
		case 6: fup_bound_disabled(); break;
		}
	}
	// After an overflow while disabled, something that shows that it is: TIP.PGE follows sooner or later.
	void standalone_nofup() { if (s.flip()) { Mode m = newmode(); t.pge(newip(), s.chance(1, 2) ? &m : nullptr); } else { t.noise(); t.simple(ppt_stop); t.expect(mkev(ptev_stop)); } }
	void fup_bound_disabled() { fup_bound(); }
	void run(size_t steps)
	{
		header(s.flip());
		for (size_t i = 0; i < steps; ++i) { if (t.enabled) step_enabled(); else step_disabled(); }
		t.noise();
	}
};

} // namespace trc
