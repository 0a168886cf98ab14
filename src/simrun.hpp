// Drives the instruction flow decoder over a simulated run and compares.
#pragma once
#include "sim.hpp"
namespace sim {
using wire::Buf; using wire::mkconfig;

struct InsnGuard { pt_insn_decoder *d; ~InsnGuard() { if (d) pt_insn_free_decoder(d); } };

inline void describe(Ctx &c, Sim &m, unsigned what) { c.describe([&] { return m.p.str() + "packets:\n" + m.packets() + "expected:\n" + m.dump(what) + strf("end: %d\n", m.enderr); }); }

// The log with tick events.
//
// The block decoder may indicate the tick for a TNT packet already at the end of
// the preceding block when that ends in a conditional branch or return.
inline std::vector<Entry> with_ticks(const std::vector<Entry> &log, bool blk = false)
{
	size_t early = 0;
	std::vector<Entry> r; uint64_t last = 0; const Entry *far = nullptr; size_t left = 0;
	auto tick = [&](const Entry &e) { if (e.t == last) return; Entry x; x.isev = true; x.ev = mkev(ptev_tick); x.ev.has_tsc = e.ht; x.ev.tsc = e.t; x.ev.ip_suppressed = 1; last = e.t; if (blk && early && e.tnt) r.insert(r.begin() + (long)early, x); else r.push_back(x); };
	for (auto &e : log) {
		r.push_back(e);
		if (e.isev) { early = 0; last = e.ev.tsc; if (far && !--left) { tick(*far); far = nullptr; } continue; }
		if (!e.cons) continue;
		if (e.bound) { far = &e; left = e.bound; } else tick(e);
		early = e.ins->k == k_jcc || e.ins->k == k_ret ? r.size() : 0;
		if (r.back().isev && r.back().ev.type == ptev_tick) early = 0;
	}
	return r;
}
// Stop after a number of calls; expect the trace to break off.
struct Part { size_t max = ~(size_t)0; const Stop *stop = nullptr; size_t must = 0; };

inline bool run_insn(pt_insn_decoder *d, int status, Sim &m, const std::vector<Entry> &log, unsigned what, bool tail, const char *tag, const Part &part = {})
{
	int enderr = part.stop ? part.stop->err : m.enderr;
	size_t i = 0, content = 0; for (size_t k = 0; k < log.size(); ++k) if (log[k].isev || log[k].cons) content = k + 1;
	auto st = [&](int s, size_t done) {
		bool pend = done < log.size() && log[done].isev;
		// Events that are not expected show up as pending.
		CHECK(!!(s & pts_event_pending) == pend, "%s: at %zu: event pending %d, expected %d (%s)", tag, done, !!(s & pts_event_pending), pend, done < log.size() ? m.str(log[done], what).c_str() : "end of trace");
		if (tail) CHECK(!!(s & pts_eos) == (done >= content), "%s: at %zu: end of trace indication %d, last trace at %zu", tag, done, !!(s & pts_eos), content);
	};
	CHECK(status >= 0, "%s: synchronizing: %d", tag, status);
	st(status, 0);
	for (size_t calls = 0;; ++calls) {
		if (calls >= part.max) return false;
		if (status & pts_event_pending) {
			pt_event ev; memset(&ev, 0xcc, sizeof(ev)); status = pt_insn_event(d, &ev, sizeof(ev));
			// The error is behind the event if that is filled in.
			if (part.stop && status < 0) { size_t k = i; if (ev.type != (pt_event_type)0xcccccccc) { CHECK(i < log.size() && log[i].isev && evtext(ev, what) == evtext(log[i].ev, what), "%s: at %zu: got event '%s' and %d, expected '%s'", tag, i, evtext(ev, what).c_str(), status, i < log.size() ? m.str(log[i], what).c_str() : "end"); k++; } CHECK(k >= part.must && status == -pte_bad_opc, "%s: at %zu: pt_insn_event: %d, expected '%s'", tag, k, status, k < log.size() ? m.str(log[k], what).c_str() : "end"); return true; }
			CHECK(status >= 0, "%s: at %zu: pt_insn_event: %d, expected '%s'", tag, i, status, m.str(log[i], what).c_str());
			if (ev.type == ptev_tick) ev.ip_suppressed = 1;
			std::string g = evtext(ev, what), w = i < log.size() && log[i].isev ? evtext(log[i].ev, what) : "none"; CHECK(g == w, "%s: at %zu: got event '%s', expected '%s'", tag, i, g.c_str(), i < log.size() ? m.str(log[i], what).c_str() : "end of trace");
			i++; st(status, i); continue;
		}
		pt_insn in; memset(&in, 0xcc, sizeof(in)); int n = pt_insn_next(d, &in, sizeof(in));
		if (n < 0 && part.stop && in.iclass && i < log.size() && !log[i].isev && log[i].ins->ip == in.ip && log[i].ins->cls == in.iclass) i++;
		if (n < 0) { CHECK(part.stop ? i >= part.must && i <= log.size() : i == log.size(), "%s: at %zu: pt_insn_next: %d at ip %llx, expected '%s'", tag, i, n, (unsigned long long)in.ip, i < log.size() ? m.str(log[i], what).c_str() : "end"); CHECK(!enderr || n == enderr || (part.stop && n == -pte_bad_opc), "%s: at the end: %d, expected %d", tag, n, enderr); break; }
		CHECK(i < log.size(), "%s: at %zu: got an instruction at %llx behind the end of the trace", tag, i, (unsigned long long)in.ip);
		const Entry &e = log[i]; CHECK(!e.isev, "%s: at %zu: got insn at %llx, expected '%s'", tag, i, (unsigned long long)in.ip, m.str(e, what).c_str());
		const Ins &x = *e.ins; 
		if (in.ip != x.ip || in.size != x.size || in.iclass != x.cls || in.mode != e.mode || !!in.speculative != e.spec) { Ins got; got.ip = in.ip; got.size = in.size; got.cls = in.iclass; std::string g = m.insstr(got, in.mode, in.speculative), w = m.insstr(x, e.mode, e.spec); fail("%s: at %zu: got '%s', expected '%s'", tag, i, g.c_str(), w.c_str()); }
		CHECK(!memcmp(in.raw, x.raw, x.size), "%s: at %zu: raw bytes %s", tag, i, hex(in.raw, in.size).c_str());
		int isid; bool tr; m.p.where(m.p.r[(size_t)x.region], x, &isid, &tr);
		CHECK(in.isid == isid && in.truncated == tr, "%s: at %zu: insn %llx isid %d truncated %u, expected %d %d", tag, i, (unsigned long long)in.ip, in.isid, in.truncated, isid, tr);
		status = n; i++; st(status, i);
	}
	pt_event ev; int n = pt_insn_event(d, &ev, sizeof(ev)); CHECK(n == -pte_bad_query, "%s: pt_insn_event without an event: %d", tag, n);
	return true;
}

struct BlkGuard { pt_block_decoder *d; ~BlkGuard() { if (d) pt_blk_free_decoder(d); } };
struct BlkFlags { bool call = false, jump = false; };

// Drives the block decoder; expands blocks using the program.
inline size_t run_blk(pt_block_decoder *d, int status, Sim &m, const std::vector<Entry> &log, unsigned what, bool tail, const char *tag, const BlkFlags &fl, const Part &part = {})
{
	int enderr = part.stop ? part.stop->err : m.enderr; const Ins *last_stop = part.stop ? part.stop->ins : m.stop; bool brk = part.stop != nullptr;
	size_t i = 0, content = 0, nblk = 0; for (size_t k = 0; k < log.size(); ++k) if (log[k].isev || log[k].cons) content = k + 1;
	auto st = [&](int s, size_t done) {
		bool pend = done < log.size() && log[done].isev;
		if (s & pts_event_pending) CHECK(pend || (brk && done >= part.must), "%s: at %zu: event pending, expected %s", tag, done, done < log.size() ? m.str(log[done], what).c_str() : "end of trace");
		if (tail && (s & pts_eos)) CHECK(done >= content, "%s: at %zu: end of trace indication, last trace at %zu", tag, done, content);
	};
	CHECK(status >= 0, "%s: synchronizing: %d", tag, status);
	st(status, 0);
	for (size_t calls = 0;; ++calls) {
		if (calls >= part.max) return nblk;
		if (status & pts_event_pending) {
			pt_event ev; memset(&ev, 0xcc, sizeof(ev)); status = pt_blk_event(d, &ev, sizeof(ev)); if (brk && status < 0 && i >= part.must) { CHECK(status == -pte_bad_opc, "%s: at %zu: pt_blk_event: %d", tag, i, status); return nblk; }
			CHECK(i < log.size() && log[i].isev, "%s: at %zu: unexpected event", tag, i); CHECK(status >= 0, "%s: at %zu: pt_blk_event: %d, expected '%s'", tag, i, status, m.str(log[i], what).c_str());
			if (ev.type == ptev_tick) ev.ip_suppressed = 1;
			std::string g = evtext(ev, what), w = evtext(log[i].ev, what); CHECK(g == w, "%s: at %zu: got event '%s', expected '%s'", tag, i, g.c_str(), w.c_str());
			i++; st(status, i); continue;
		}
		pt_block b; memset(&b, 0xcc, sizeof(b)); int n = pt_blk_next(d, &b, sizeof(b)); nblk++;
		CHECK(n < 0 || b.ninsn || (n & pts_event_pending), "%s: at %zu: empty block", tag, i);
		for (unsigned k = 0; k < b.ninsn; ++k, ++i) {
			// The last instruction is delivered although there is no trace for it.
			if (n < 0 && (tail || brk) && i == log.size() && k + 1 == b.ninsn && last_stop && b.end_ip == last_stop->ip) break;
			CHECK(i < log.size(), "%s: at %zu: got %u instructions behind the end of the trace in block %llx..%llx", tag, i, b.ninsn - k, (unsigned long long)b.ip, (unsigned long long)b.end_ip);
			const Entry &e = log[i]; CHECK(!e.isev, "%s: at %zu: block %llx..%llx (%u instructions) extends over event '%s'", tag, i, (unsigned long long)b.ip, (unsigned long long)b.end_ip, b.ninsn, m.str(e, what).c_str());
			const Ins &x = *e.ins; bool last = k + 1 == b.ninsn; int isid; bool tr; m.p.where(m.p.r[(size_t)x.region], x, &isid, &tr);
			CHECK(k || b.ip == x.ip, "%s: at %zu: block starts at %llx, expected %s", tag, i, (unsigned long long)b.ip, m.str(e, what).c_str());
			CHECK(!last || b.end_ip == x.ip, "%s: at %zu: block ends at %llx, expected %s", tag, i, (unsigned long long)b.end_ip, m.str(e, what).c_str());
			CHECK(b.mode == e.mode && !!b.speculative == e.spec, "%s: at %zu: block mode %s spec %u, expected '%s'", tag, i, modename(b.mode), b.speculative, m.str(e, what).c_str());
			CHECK(b.isid == isid, "%s: at %zu: block isid %d, expected %d", tag, i, b.isid, isid);
			CHECK(tr == (last && b.truncated), "%s: at %zu: truncated %d, expected %d", tag, i, b.truncated, tr);
			if (tr) CHECK(b.size == x.size && !memcmp(b.raw, x.raw, x.size), "%s: at %zu: truncated instruction: %s", tag, i, hex(b.raw, b.size < 15 ? b.size : 15).c_str());
			if (last) CHECK(b.iclass == ptic_unknown || b.iclass == x.cls || (b.iclass == ptic_indirect && (x.k == k_jmpi || x.k == k_jmpabs || x.k == k_far)), "%s: at %zu: class %d, expected %d", tag, i, b.iclass, x.cls);
			else { CHECK(!x.consumes(), "%s: at %zu: block continues behind '%s'", tag, i, m.str(e, what).c_str());
				CHECK(!fl.call || x.k != k_call, "%s: at %zu: block continues behind a call", tag, i); CHECK(!fl.jump || x.k != k_jmp, "%s: at %zu: block continues behind a jump", tag, i); }
		}
		if (n < 0) { CHECK(brk ? i >= part.must && i <= log.size() : i == log.size(), "%s: at %zu: pt_blk_next: %d at ip %llx..%llx, expected '%s'", tag, i, n, (unsigned long long)b.ip, (unsigned long long)b.end_ip, i < log.size() ? m.str(log[i], what).c_str() : "end"); CHECK(!enderr || n == enderr || (part.stop && n == -pte_bad_opc), "%s: at the end: %d, expected %d", tag, n, enderr); break; }
		status = n; st(status, i);
	}
	pt_event ev; int n = pt_blk_event(d, &ev, sizeof(ev)); CHECK(n < 0, "%s: pt_blk_event without an event: %d", tag, n);
	return nblk;
}
}
