// An Intel PT packet generator: a model of the trace hardware that writes the
// packets for what happens, together with the events the event layer has to
// deliver for them.  Written from the SDM's packet generation rules.
#pragma once
#include "ptwire.hpp"

namespace trc {
using namespace pbt; using wire::Bytes;

inline const char *evname(int t)
{
	switch (t) {
	case ptev_enabled: return "enabled"; case ptev_disabled: return "disabled"; case ptev_async_disabled: return "async_disabled";
	case ptev_async_branch: return "async_branch"; case ptev_paging: return "paging"; case ptev_async_paging: return "async_paging";
	case ptev_overflow: return "overflow"; case ptev_exec_mode: return "exec_mode"; case ptev_tsx: return "tsx"; case ptev_stop: return "stop";
	case ptev_vmcs: return "vmcs"; case ptev_async_vmcs: return "async_vmcs"; case ptev_exstop: return "exstop"; case ptev_mwait: return "mwait";
	case ptev_pwre: return "pwre"; case ptev_pwrx: return "pwrx"; case ptev_ptwrite: return "ptwrite"; case ptev_tick: return "tick"; case ptev_cbr: return "cbr";
	case ptev_mnt: return "mnt"; case ptev_tip: return "tip"; case ptev_tnt: return "tnt"; case ptev_iflags: return "iflags"; case ptev_interrupt: return "interrupt";
	case ptev_iret: return "iret"; case ptev_smi: return "smi"; case ptev_rsm: return "rsm"; case ptev_sipi: return "sipi"; case ptev_init: return "init";
	case ptev_vmentry: return "vmentry"; case ptev_vmexit: return "vmexit"; case ptev_shutdown: return "shutdown"; case ptev_uintr: return "uintr"; case ptev_uiret: return "uiret";
	case ptev_trig: return "trig";
	}
	return "?";
}

enum { et_time = 1, et_resumed = 2 };
// Canonical text of an event: everything a user may look at, nothing else.
inline std::string evtext(const pt_event &e, unsigned what = et_time)
{
	auto x = [](uint64_t v) { return (unsigned long long)v; };
	std::string s = evname(e.type); if (s == "?") s += strf("%d", (int)e.type);
	if (e.status_update) s += " status";
	auto ip = [&](uint64_t v) { if (e.ip_suppressed) s += " ip=supp"; else s += strf(" ip=%llx", x(v)); };
	switch (e.type) {
	case ptev_enabled: ip(e.variant.enabled.ip); if ((what & et_resumed) && !e.status_update) s += strf(" resumed=%u", e.variant.enabled.resumed); break;
	case ptev_disabled: if (!e.status_update) ip(e.variant.disabled.ip); break;
	case ptev_async_disabled: s += strf(" at=%llx", x(e.variant.async_disabled.at)); ip(e.variant.async_disabled.ip); break;
	case ptev_async_branch: s += strf(" from=%llx", x(e.variant.async_branch.from)); ip(e.variant.async_branch.to); break;
	case ptev_paging: s += strf(" cr3=%llx nr=%u", x(e.variant.paging.cr3), e.variant.paging.non_root); break;
	case ptev_async_paging: s += strf(" cr3=%llx nr=%u", x(e.variant.async_paging.cr3), e.variant.async_paging.non_root); ip(e.variant.async_paging.ip); break;
	case ptev_overflow: ip(e.variant.overflow.ip); break;
	case ptev_exec_mode: s += strf(" mode=%d", (int)e.variant.exec_mode.mode); ip(e.variant.exec_mode.ip); break;
	case ptev_tsx: s += strf(" intx=%u abrt=%u", e.variant.tsx.speculative, e.variant.tsx.aborted); ip(e.variant.tsx.ip); break;
	case ptev_vmcs: s += strf(" base=%llx", x(e.variant.vmcs.base)); break;
	case ptev_async_vmcs: s += strf(" base=%llx", x(e.variant.async_vmcs.base)); ip(e.variant.async_vmcs.ip); break;
	case ptev_exstop: ip(e.variant.exstop.ip); break;
	case ptev_mwait: s += strf(" hints=%x ext=%x", e.variant.mwait.hints, e.variant.mwait.ext); ip(e.variant.mwait.ip); break;
	case ptev_pwre: s += strf(" %x.%x hw=%u", e.variant.pwre.state, e.variant.pwre.sub_state, e.variant.pwre.hw); break;
	case ptev_pwrx: s += strf(" %x.%x int=%u st=%u hw=%u", e.variant.pwrx.last, e.variant.pwrx.deepest, e.variant.pwrx.interrupt, e.variant.pwrx.store, e.variant.pwrx.autonomous); break;
	case ptev_ptwrite: s += strf(" size=%u pl=%llx", e.variant.ptwrite.size, x(e.variant.ptwrite.payload)); ip(e.variant.ptwrite.ip); break;
	case ptev_tick: ip(e.variant.tick.ip); break;
	case ptev_cbr: s += strf(" ratio=%u", e.variant.cbr.ratio); break;
	case ptev_mnt: s += strf(" pl=%llx", x(e.variant.mnt.payload)); break;
	case ptev_tip: ip(e.variant.tip.ip); break;
	case ptev_tnt: s += strf(" n=%u bits=%llx", e.variant.tnt.size, x(e.variant.tnt.bits)); break;
	case ptev_iflags: s += strf(" if=%u", e.variant.iflags.iflag); ip(e.variant.iflags.ip); break;
	case ptev_interrupt: s += strf(" vec=%u", e.variant.interrupt.vector); if (e.variant.interrupt.has_cr2) s += strf(" cr2=%llx", x(e.variant.interrupt.cr2)); ip(e.variant.interrupt.ip); break;
	case ptev_iret: ip(e.variant.iret.ip); break;
	case ptev_smi: ip(e.variant.smi.ip); break;
	case ptev_rsm: ip(e.variant.rsm.ip); break;
	case ptev_sipi: s += strf(" vec=%u", e.variant.sipi.vector); if (e.ip_suppressed) s += " ip=supp"; break;
	case ptev_init: ip(e.variant.init.ip); break;
	case ptev_vmentry: ip(e.variant.vmentry.ip); break;
	case ptev_vmexit:
		if (e.variant.vmexit.has_vector) s += strf(" vec=%u", e.variant.vmexit.vector);
		if (e.variant.vmexit.has_vmxr) s += strf(" vmxr=%llx", x(e.variant.vmexit.vmxr));
		if (e.variant.vmexit.has_vmxq) s += strf(" vmxq=%llx", x(e.variant.vmexit.vmxq));
		ip(e.variant.vmexit.ip); break;
	case ptev_shutdown: ip(e.variant.shutdown.ip); break;
	case ptev_uintr: s += strf(" vec=%u", e.variant.uintr.vector); ip(e.variant.uintr.ip); break;
	case ptev_uiret: ip(e.variant.uiret.ip); break;
	case ptev_trig: s += strf(" trbv=%x mult=%u", e.variant.trig.trbv, e.variant.trig.mult); if (e.ip_suppressed) s += " ip=supp"; else s += strf(" icnt=%u ip=%llx", e.variant.trig.icnt, x(e.variant.trig.ip)); break;
	default: break;
	}
	if (what & et_time) { if (e.has_tsc) s += strf(" tsc=%llx", x(e.tsc)); }
	return s;
}
inline pt_event mkev(pt_event_type t) { pt_event e; memset(&e, 0, sizeof(e)); e.type = t; return e; }

// The field that holds the event's binding IP.
inline uint64_t *evip(pt_event &e)
{
	switch (e.type) {
	case ptev_enabled: return &e.variant.enabled.ip; case ptev_disabled: return &e.variant.disabled.ip; case ptev_async_paging: return &e.variant.async_paging.ip;
	case ptev_overflow: return &e.variant.overflow.ip; case ptev_exec_mode: return &e.variant.exec_mode.ip; case ptev_tsx: return &e.variant.tsx.ip;
	case ptev_async_vmcs: return &e.variant.async_vmcs.ip; case ptev_exstop: return &e.variant.exstop.ip; case ptev_mwait: return &e.variant.mwait.ip;
	case ptev_ptwrite: return &e.variant.ptwrite.ip; case ptev_tip: return &e.variant.tip.ip; case ptev_iflags: return &e.variant.iflags.ip;
	case ptev_interrupt: return &e.variant.interrupt.ip; case ptev_iret: return &e.variant.iret.ip; case ptev_smi: return &e.variant.smi.ip; case ptev_rsm: return &e.variant.rsm.ip;
	case ptev_init: return &e.variant.init.ip; case ptev_vmentry: return &e.variant.vmentry.ip; case ptev_vmexit: return &e.variant.vmexit.ip;
	case ptev_shutdown: return &e.variant.shutdown.ip; case ptev_uintr: return &e.variant.uintr.ip; case ptev_uiret: return &e.variant.uiret.ip; case ptev_trig: return &e.variant.trig.ip;
	default: return nullptr;
	}
}

struct Exp { pt_event ev; size_t seg; size_t end; int ht = -1; uint64_t t = 0; unsigned cbr = 0; size_t cbrseg = 0; };   // expected event; index of the PSB segment; bytes of trace up to and including the packet that completes it

struct Mode { unsigned csl, csd, iflag; };
inline pt_exec_mode exec_mode(const Mode &m) { return m.csl ? (m.csd ? ptem_unknown : ptem_64bit) : (m.csd ? ptem_32bit : ptem_16bit); }

struct Tracer {
	Source &s;
	Bytes out;
	std::vector<Exp> evs;
	std::vector<size_t> psbs;          // offsets of PSB packets
	std::vector<size_t> bounds;        // packet boundaries (offset of each packet)
	bool iflags = false;               // report iflags events
	bool noisy = true;                 // insert packets without effect on events
	bool timing = true;                // insert TSC packets
	bool cyc = false;                  // insert CYC and MTC packets: timestamps become estimates
	unsigned what() const { return cyc ? 0u : (unsigned)et_time; }
	bool pip57 = true;
	// machine state as seen by a decoder
	bool enabled = false; uint64_t last_ip = 0; bool full_ip = false;
	bool mode_valid = false; Mode mode{0, 0, 0};
	bool has_tsc = false; uint64_t tsc = 0;
	unsigned npsb = 0;
	unsigned cbr = 0; size_t cbrseg = 0; // last core:bus ratio and the segment it was seen in

	explicit Tracer(Source &src) : s(src) {}

	void raw(const pt_packet &p) { if (p.type == ppt_cbr) { cbr = p.payload.cbr.ratio; cbrseg = psbs.size(); } bounds.push_back(out.size()); bool ok = wire::encode(out, p); if (!ok) fail("tracer: cannot encode %s", wire::str(p).c_str()); }
	pt_packet mk(pt_packet_type t) { pt_packet p; memset(&p, 0, sizeof(p)); p.type = t; return p; }
	void simple(pt_packet_type t) { raw(mk(t)); }

	void stamp(pt_event &e) { e.has_tsc = has_tsc; e.tsc = has_tsc ? tsc : 0; }
	// The event is complete; record it with the time and core:bus ratio at this point.
	void push(const pt_event &e) { Exp x{e, psbs.size() ? psbs.size() - 1 : 0, out.size()}; x.ht = has_tsc; x.t = tsc; x.cbr = cbr; x.cbrseg = cbrseg; evs.push_back(x); }
	void expect(pt_event e) { stamp(e); push(e); }
	void expect_at(pt_event e, uint64_t ip, bool supp) { if (supp) e.ip_suppressed = 1; else { uint64_t *p = evip(e); if (p) *p = ip; } expect(e); }

	// Packets that change nothing but time.
	void noise()
	{
		if (!noisy || !s.chance(1, 4)) return;
		unsigned n = (unsigned)s.range(1, 3);
		while (n--) {
			pt_packet p = mk(ppt_pad);
			switch (s.weighted({3, cyc ? 2u : 0u, cyc ? 2u : 0u, timing ? 3u : 0u})) {
			case 0: break;
			case 1: p.type = ppt_cyc; p.payload.cyc.value = s.interesting(13); break;
			case 2: p.type = ppt_mtc; p.payload.mtc.ctc = s.byte(); break;
			default: p.type = ppt_tsc; p.payload.tsc.tsc = tsc = (tsc + s.range(1, 1000)) & 0xffffffffffffffull; has_tsc = true; break;
			}
			raw(p);
		}
	}
	void tma_noise() { if (noisy && s.chance(1, 4)) { pt_packet p = mk(ppt_tma); p.payload.tma.ctc = (uint16_t)s.bits(16); p.payload.tma.fc = (uint16_t)s.bits(9); raw(p); } }

	static bool sext48(uint64_t ip) { return (uint64_t)((int64_t)(ip << 16) >> 16) == ip; }
	// Choose a compression; HW chooses the shortest, any valid one must decode the same.
	void ip_packet(pt_packet_type t, uint64_t ip, bool supp = false)
	{
		pt_packet p = mk(t);
		if (supp) { p.payload.ip.ipc = pt_ipc_suppressed; raw(p); return; }
		std::vector<int> c;
		if (!full_ip) {
			if ((ip >> 16) == (last_ip >> 16)) c.push_back(pt_ipc_update_16);
			if ((ip >> 32) == (last_ip >> 32)) c.push_back(pt_ipc_update_32);
			if ((ip >> 48) == (last_ip >> 48)) c.push_back(pt_ipc_update_48);
		}
		if (sext48(ip)) c.push_back(pt_ipc_sext_48);
		c.push_back(pt_ipc_full);
		int k = s.chance(3, 4) ? c[0] : s.pick(c);
		p.payload.ip.ipc = (pt_ip_compression)k;
		switch (k) { case pt_ipc_update_16: p.payload.ip.ip = ip & 0xffff; break; case pt_ipc_update_32: p.payload.ip.ip = ip & 0xffffffff; break; case pt_ipc_sext_48: case pt_ipc_update_48: p.payload.ip.ip = ip & 0xffffffffffffull; break; default: p.payload.ip.ip = ip; }
		if (k == pt_ipc_sext_48 && sext48(ip)) p.payload.ip.ip = ip & 0xffffffffffffull;
		raw(p);
		last_ip = ip; full_ip = false;
	}

	void mode_packet(const Mode &m) { pt_packet p = mk(ppt_mode); p.payload.mode.leaf = pt_mol_exec; p.payload.mode.bits.exec.csl = m.csl; p.payload.mode.bits.exec.csd = m.csd; p.payload.mode.bits.exec.iflag = m.iflag; raw(p); }
	// The events a MODE.EXEC results in, to be bound to the next IP packet.
	std::vector<pt_event> mode_events(const Mode &m)
	{
		std::vector<pt_event> r;
		if (!mode_valid || m.csl != mode.csl || m.csd != mode.csd) { pt_event e = mkev(ptev_exec_mode); e.variant.exec_mode.mode = exec_mode(m); r.push_back(e); }
		if (iflags && (!mode_valid || m.iflag != mode.iflag)) { pt_event e = mkev(ptev_iflags); e.variant.iflags.iflag = m.iflag; r.push_back(e); }
		unsigned oldif = mode.iflag; bool v = mode_valid; mode = m; if (!iflags && v) mode.iflag = oldif, mode.iflag = m.iflag;
		mode_valid = true;
		return r;
	}

	// --- synchronization point -------------------------------------------------
	struct Header { bool fup = false; uint64_t ip = 0; bool has_mode = false; Mode m{0, 0, 0}; bool tsx = false; bool intx = false, abrt = false; bool pip = false; uint64_t cr3 = 0; bool nr = false; bool vmcs = false; uint64_t base = 0; bool cbr = false; unsigned ratio = 0; bool mnt = false; uint64_t mntpl = 0; bool t = false; bool ovf = false; bool shuffle = false; bool fupsupp = false; };
	void psb(const Header &h)
	{
		if (out.size() && out.back() == 0x82) simple(ppt_pad);
		psbs.push_back(out.size()); npsb++;
		simple(ppt_psb);
		last_ip = 0; full_ip = false;
		std::vector<std::function<void()>> parts; std::vector<pt_event> pend;
		auto st = [&](pt_event e) { e.status_update = 1; pend.push_back(e); };
		if (h.t) parts.push_back([&] { pt_packet p = mk(ppt_tsc); tsc = (tsc + s.range(1, 1000)) & 0xffffffffffffffull; has_tsc = true; p.payload.tsc.tsc = tsc; raw(p); tma_noise(); });
		if (h.cbr) parts.push_back([&] { pt_packet p = mk(ppt_cbr); p.payload.cbr.ratio = (uint8_t)h.ratio; raw(p); pt_event e = mkev(ptev_cbr); e.variant.cbr.ratio = (uint16_t)h.ratio; st(e); });
		if (h.pip) parts.push_back([&] { pip_packet(h.cr3, h.nr); pt_event e = mkev(ptev_async_paging); e.variant.async_paging.cr3 = h.cr3; e.variant.async_paging.non_root = h.nr; st(e); });
		if (h.vmcs) parts.push_back([&] { vmcs_packet(h.base); pt_event e = mkev(ptev_async_vmcs); e.variant.async_vmcs.base = h.base; st(e); });
		if (h.has_mode) parts.push_back([&] {
			mode_packet(h.m); pt_event e = mkev(ptev_exec_mode); e.variant.exec_mode.mode = exec_mode(h.m); st(e);
			if (iflags) { e = mkev(ptev_iflags); e.variant.iflags.iflag = h.m.iflag; st(e); }
			if (!mode_valid) { mode = h.m; mode_valid = true; } });
		if (h.tsx) parts.push_back([&] { tsx_packet(h.intx, h.abrt); pt_event e = mkev(ptev_tsx); e.variant.tsx.speculative = h.intx; e.variant.tsx.aborted = h.abrt; st(e); });
		if (h.mnt) parts.push_back([&] { pt_packet p = mk(ppt_mnt); p.payload.mnt.payload = h.mntpl; raw(p); pt_event e = mkev(ptev_mnt); e.variant.mnt.payload = h.mntpl; pend.push_back(e); });
		if (h.fup) parts.push_back([&] { ip_packet(ppt_fup, h.ip); });
		else if (h.fupsupp) parts.push_back([&] { ip_packet(ppt_fup, 0, true); });
		if (h.shuffle) for (size_t i = parts.size(); i > 1; --i) std::swap(parts[i - 1], parts[s.below(i)]);
		for (auto &f : parts) { noise(); f(); }
		noise();
		enabled = h.fup;
		simple(h.ovf ? ppt_ovf : ppt_psbend);
		pt_event e = mkev(h.fup ? ptev_enabled : ptev_disabled); e.status_update = 1;
		if (!(h.ovf && !h.fup)) pend.insert(pend.begin(), e);
		for (pt_event &x : pend) { bool hasip = evip(x) != nullptr; if (x.type == ptev_disabled) { x.ip_suppressed = 1; expect(x); } else if (hasip) expect_at(x, h.ip, !h.fup); else expect(x); }
	}
	void pip_packet(uint64_t cr3, bool nr) { pt_packet p = mk(ppt_pip); p.payload.pip.cr3 = cr3; p.payload.pip.nr = nr; raw(p); }
	void vmcs_packet(uint64_t base) { pt_packet p = mk(ppt_vmcs); p.payload.vmcs.base = base; raw(p); }
	void tsx_packet(bool intx, bool abrt) { pt_packet p = mk(ppt_mode); p.payload.mode.leaf = pt_mol_tsx; p.payload.mode.bits.tsx.intx = intx; p.payload.mode.bits.tsx.abrt = abrt; raw(p); }

	// --- branches ---------------------------------------------------------------
	void tnt(uint64_t bits, unsigned n)
	{
		noise();
		pt_packet p = mk(n <= 6 && (noisy ? !s.chance(1, 8) : true) ? ppt_tnt_8 : ppt_tnt_64); p.payload.tnt.bit_size = (uint8_t)n; p.payload.tnt.payload = bits; raw(p);
		pt_event e = mkev(ptev_tnt); e.variant.tnt.bits = bits; e.variant.tnt.size = (uint8_t)n; expect(e);
	}
	void tip(uint64_t ip, bool supp = false, const Mode *m = nullptr)
	{
		std::vector<pt_event> q; noise();
		if (m) { q = mode_events(*m); mode_packet(*m); noise(); }
		ip_packet(ppt_tip, ip, supp);
		expect_at(mkev(ptev_tip), ip, supp);
		for (auto &e : q) expect_at(e, ip, supp);
	}
	void pge(uint64_t ip, const Mode *m = nullptr)
	{
		std::vector<pt_event> q; noise();
		if (m) { q = mode_events(*m); mode_packet(*m); noise(); }
		ip_packet(ppt_tip_pge, ip);
		expect_at(mkev(ptev_enabled), ip, false);
		for (auto &e : q) expect_at(e, ip, false);
		enabled = true;
	}
	void pgd(uint64_t ip, bool supp, const Mode *m = nullptr)
	{
		std::vector<pt_event> q; noise();
		if (m) { q = mode_events(*m); mode_packet(*m); noise(); }
		ip_packet(ppt_tip_pgd, ip, supp);
		expect_at(mkev(ptev_disabled), ip, supp);
		for (auto &e : q) expect_at(e, 0, true);
		enabled = false;
	}

	// --- asynchronous branch / disable: FUP [PIP] [VMCS] [MODE.EXEC] TIP/TIP.PGD ---
	struct Async { bool pip = false; uint64_t cr3 = 0; bool nr = false; bool vmcs = false; uint64_t base = 0; bool vmcs_first = false; const Mode *m = nullptr; bool disable = false; bool supp = false; bool mode_first = false; };
	void async(uint64_t from, uint64_t to, const Async &a)
	{
		noise(); ip_packet(ppt_fup, from); async_tail(from, to, a);
	}
	void async_tail(uint64_t from, uint64_t to, const Async &a)
	{
		std::vector<pt_event> q, mq; noise();
		auto dovmcs = [&] { if (a.vmcs) { vmcs_packet(a.base); noise(); } };
		auto dopip = [&] { if (a.pip) { pip_packet(a.cr3, a.nr); noise(); } };
		auto domode = [&] { if (a.m) { mq = mode_events(*a.m); mode_packet(*a.m); noise(); } };
		if (a.mode_first) domode();
		if (a.vmcs_first) { dovmcs(); dopip(); } else { dopip(); dovmcs(); }
		if (!a.mode_first) domode();
		if (a.vmcs) { pt_event e = mkev(ptev_async_vmcs); e.variant.async_vmcs.base = a.base; q.push_back(e); }
		if (a.pip) { pt_event e = mkev(ptev_async_paging); e.variant.async_paging.cr3 = a.cr3; e.variant.async_paging.non_root = a.nr; q.push_back(e); }
		ip_packet(a.disable ? ppt_tip_pgd : ppt_tip, to, a.supp);
		pt_event e = mkev(a.disable ? ptev_async_disabled : ptev_async_branch);
		if (a.disable) { e.variant.async_disabled.at = from; e.variant.async_disabled.ip = to; } else { e.variant.async_branch.from = from; e.variant.async_branch.to = to; }
		e.ip_suppressed = a.supp; expect(e);
		bool supp = a.disable || a.supp;
		if (a.mode_first) for (auto &x : mq) expect_at(x, to, supp);
		for (auto &x : q) expect_at(x, to, supp);
		if (!a.mode_first) for (auto &x : mq) expect_at(x, to, supp);
		if (a.disable) enabled = false;
	}

	// --- overflow -----------------------------------------------------------------
	// Resolves at ip (FUP) or with tracing disabled.  TSC, if sent, precedes the FUP;
	// the overflow carries the time before.
	void ovf(bool en, uint64_t ip, bool already = false)
	{
		if (!already) { noise(); simple(ppt_ovf); }
		pt_event e = mkev(ptev_overflow); if (en) e.variant.overflow.ip = ip; else e.ip_suppressed = 1;
		last_ip = 0; full_ip = true; mode_valid = false; enabled = en;
		stamp(e);
		if (en) { noise(); ip_packet(ppt_fup, ip); }
		push(e);
	}
	Bytes &bytes() { return out; }
};

} // namespace trc
