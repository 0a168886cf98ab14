// C06: the query layer answers branch queries and events consistently with the trace.
#include "evgen.hpp"
using namespace pbt; using namespace wire; using namespace trc;

struct Qry { pt_query_decoder *d; ~Qry() { pt_qry_free_decoder(d); } };

// What a consistent user of the query decoder sees: a cursor into the events of
// the trace and the TNT bits taken but not used, yet.
struct Model {
	const Tracer &t; int endst; size_t idx = 0, seg = 0; std::vector<bool> bits; // oldest first
	bool alt = false;       // a query failed and may have moved the time to the next event's
	size_t altidx = 0;
	long last = -1;         // item the time belongs to
	Model(const Tracer &tr, int e) : t(tr), endst(e) {}
	bool end() const { return idx >= t.evs.size(); }
	int type() const { return end() ? -1 : (int)t.evs[idx].ev.type; }
	void sync(size_t k) { idx = 0; while (idx < t.evs.size() && t.evs[idx].seg < k) idx++; seg = k; bits.clear(); last = -1; alt = false; }
	int flags() const { if (!bits.empty()) return 0; if (end()) return endst == -pte_eos ? pts_eos : 0; return type() == ptev_tip || type() == ptev_tnt ? 0 : pts_event_pending; }
	int flags_err() const { return bits.empty() && end() && endst != -pte_eos; } // deferred error: flags are not specified
	int cache() { const pt_event &e = t.evs[idx].ev; if (bits.size() + e.variant.tnt.size > 64) return -pte_overflow; for (int i = e.variant.tnt.size; i-- > 0;) bits.push_back(e.variant.tnt.bits >> i & 1); altidx = idx; idx++; return 0; }
};

static void queries(Source &s, Ctx &c)
{
	Tracer t(s); EvGen g(t);
	t.iflags = s.flip(); t.noisy = s.chance(3, 4); t.cyc = s.chance(1, 6);
	bool resync = s.chance(1, 3); g.fullhdr = resync;
	size_t steps = s.range(1, 40); unsigned branchy = (unsigned)s.below(3);
	g.header(s.flip());
	for (size_t i = 0; i < steps; ++i) {
		if (!t.enabled) g.step_disabled();
		else if (s.below(3) < branchy) { if (s.chance(2, 3)) { unsigned n = (unsigned)(s.chance(1, 5) ? s.range(7, 47) : s.range(1, 6)); t.tnt(s.bits(n), n); } else t.tip(g.newip()); }
		else g.step_enabled();
	}
	// How the trace ends.
	int endst = -pte_eos; static const char *en[] = {"complete", "truncated packet", "unknown opcode", "packet out of context"};
	unsigned ek = (unsigned)s.weighted({4, 2, 1, 1});
	if (ek == 3 && (t.enabled || !t.evs.size() || t.evs.back().ev.type == ptev_overflow)) ek = 0;
	// The resolution of an overflow reads ahead.
	for (size_t i = t.evs.size(); i-- > 0;) { int ty = t.evs[i].ev.type; if (ty == ptev_overflow) { ek = 0; break; } if (ty == ptev_stop || ty == ptev_tip || ty == ptev_tnt || (ty == ptev_enabled && !t.evs[i].ev.status_update)) break; }
	switch (ek) {
	case 1: { Bytes b; pt_packet p; memset(&p, 0, sizeof(p)); p = gen_packet(s, true, ppt_tsc); wire::encode(b, p); if (s.flip()) { b.clear(); p = gen_packet(s, true, ppt_mnt); wire::encode(b, p); } size_t k = s.range(1, b.size() - 1); t.out.insert(t.out.end(), b.begin(), b.begin() + (long)k); break; }
	case 2: t.out.push_back(s.flip() ? 0xc9 : 0xe9); endst = -pte_bad_opc; break;
	case 3: t.simple(ppt_pad); t.out.push_back(0x06); endst = -pte_bad_context; break; // TNT while disabled
	default: break;
	}
	c.label(en[ek]);
	c.describe([&] { std::string r; for (size_t i = 0; i < t.bounds.size(); ++i) { size_t b = t.bounds[i], e = i + 1 < t.bounds.size() ? t.bounds[i + 1] : t.out.size(); pt_packet p; memset(&p, 0, sizeof(p)); wire::decode(p, t.out.data() + b, e - b); r += strf("%04zx %s\n", b, str(p).c_str()); } r += strf("end: %s; expected events:\n", en[ek]); for (auto &e : t.evs) r += "  " + evtext(e.ev) + "\n"; return r; });
	Buf buf(t.out, (unsigned)s.below(4)); pt_config cfg = mkconfig(buf.p, t.out.size());
	cfg.flags.variant.query.enable_iflags_events = t.iflags; cfg.flags.variant.query.keep_tcal_on_ovf = s.flip();
	Qry q{pt_qry_alloc_decoder(&cfg)}; CHECK(q.d, "cannot allocate decoder");

	Model m(t, endst); uint64_t ip; bool synced = false; size_t mismatched = 0, deferred = 0, hits = 0;
	auto status = [&](const char *what, int st, int extra) {
		if (m.flags_err()) { CHECK(st >= 0 && !(st & (pts_eos | pts_event_pending) & ~pts_event_pending), "%s: status %#x before an error", what, st); return; }
		CHECK(st == (m.flags() | extra), "%s: status %#x, expected %#x", what, st, m.flags() | extra);
	};
	auto sync = [&](size_t k, int how) {
		ip = 0xabcdef; int st = how == 0 ? pt_qry_sync_forward(q.d, &ip) : pt_qry_sync_set(q.d, &ip, t.psbs[k]);
		c.log("sync %zu = %#x ip=%llx; ", k, st, (unsigned long long)ip);
		m.sync(k); const pt_event *e0 = nullptr; for (size_t i = m.idx; i < t.evs.size() && t.evs[i].seg == k && t.evs[i].ev.status_update; ++i) if (t.evs[i].ev.type == ptev_enabled) { e0 = &t.evs[i].ev; break; }
		CHECK(st >= 0, "sync to %zu: %d", k, st); status("sync", st, e0 ? 0 : pts_ip_suppressed);
		if (e0) CHECK(ip == e0->variant.enabled.ip, "sync: ip %llx, expected %llx", (unsigned long long)ip, (unsigned long long)e0->variant.enabled.ip); else CHECK(ip == 0xabcdef, "sync: ip set to %llx while disabled", (unsigned long long)ip);
		synced = true;
	};
	auto cond = [&] {
		int tk = 42, st = pt_qry_cond_branch(q.d, &tk); c.log("cond=%d/%d ", st, tk);
		if (m.bits.empty()) {
			if (m.type() == ptev_tnt) { CHECK_EQ(m.cache(), 0, "model"); m.last = (long)m.altidx; m.alt = false; }
			else { mismatched++; m.alt = true; CHECK(st == (m.end() ? m.endst : -pte_bad_query), "cond query: %d, expected %d", st, m.end() ? m.endst : -pte_bad_query); CHECK_EQ(tk, 42, "failed query modified taken"); return; }
		}
		bool want = m.bits[0]; m.bits.erase(m.bits.begin()); hits++;
		CHECK(st >= 0, "cond query: %d", st); CHECK(tk == (int)want, "cond query: taken=%d, expected %d", tk, want); status("cond query", st, 0);
	};
	auto indirect = [&] {
		uint64_t a = 0x123456789; int st = pt_qry_indirect_branch(q.d, &a); c.log("ind=%d/%llx ", st, (unsigned long long)a);
		int want = 0;
		if (m.end()) want = m.endst;
		else if (m.type() == ptev_tnt) { want = m.cache(); if (!want) { if (m.end()) want = m.endst; else if (m.type() != ptev_tip) want = -pte_bad_query; } }
		else if (m.type() != ptev_tip) want = -pte_bad_query;
		if (want < 0) { mismatched++; m.alt = true; CHECK(st == want, "indirect query: %d, expected %d", st, want); CHECK_EQ(a, 0x123456789ull, "failed query modified ip"); return; }
		const pt_event &e = t.evs[m.idx].ev; if (!m.bits.empty()) deferred++;
		m.last = (long)m.idx++; hits++; m.alt = false;
		CHECK(st >= 0, "indirect query: %d", st); status("indirect query", st, e.ip_suppressed ? pts_ip_suppressed : 0);
		if (!e.ip_suppressed) CHECK(a == e.variant.tip.ip, "indirect query: ip %llx, expected %llx", (unsigned long long)a, (unsigned long long)e.variant.tip.ip); else CHECK_EQ(a, 0x123456789ull, "suppressed ip set");
	};
	auto event = [&] {
		pt_event ev; memset(&ev, 0xcc, sizeof(ev)); size_t size = s.chance(1, 8) ? s.range(offsetof(pt_event, variant), sizeof(ev)) : s.chance(1, 8) ? sizeof(ev) + 64 : sizeof(ev);
		std::vector<uint8_t> mem(size < sizeof(ev) ? sizeof(ev) : size, 0xcc); int st = pt_qry_event(q.d, (pt_event *)mem.data(), size); memcpy(&ev, mem.data(), sizeof(ev)); c.log("ev=%d ", st);
		for (size_t i = size; i < mem.size(); ++i) CHECK(mem[i] == 0xcc, "event: wrote beyond the size given");
		int want = 0; if (!m.bits.empty()) want = -pte_bad_query; else if (m.end()) want = m.endst; else if (m.type() == ptev_tip || m.type() == ptev_tnt) want = -pte_bad_query;
		if (want < 0) { mismatched++; CHECK(st == want, "event query: %d, expected %d", st, want); for (uint8_t b : mem) CHECK(b == 0xcc, "failed event query wrote the event"); return; }
		pt_event w = t.evs[m.idx].ev; m.last = (long)m.idx++; hits++; m.alt = false;
		CHECK(st >= 0, "event query: %d", st);
		if (size >= sizeof(ev)) CHECK(evtext(ev, t.what()) == evtext(w, t.what()), "event %zu: got '%s', expected '%s'", m.idx - 1, evtext(ev, t.what()).c_str(), evtext(w, t.what()).c_str());
		else CHECK(ev.type == w.type && ev.status_update == w.status_update && ev.ip_suppressed == w.ip_suppressed, "event %zu: truncated event differs", m.idx - 1);
		status("event query", st, 0);
	};
	auto time = [&] {
		uint64_t tm = 0; uint32_t lm = 7, lc = 7, cbr = 0; int st = pt_qry_time(q.d, &tm, s.flip() ? &lm : nullptr, s.flip() ? &lc : nullptr), sc = pt_qry_core_bus_ratio(q.d, &cbr);
		if (m.last < 0) { if (!m.alt && m.bits.empty()) { CHECK_EQ(st, -pte_no_time, "time before the first query"); CHECK_EQ(sc, -pte_no_cbr, "cbr before the first query"); } return; }
		auto ok = [&](const Exp &x) {
			if (x.ht < 0) return true;
			bool hc = x.cbrseg > m.seg; // cbrseg counts from one
			if (hc ? (sc != 0 || cbr != x.cbr) : sc != -pte_no_cbr) return false;
			if (t.cyc) return x.ht ? st == 0 : st == -pte_no_time;
			return x.ht ? st == 0 && tm == x.t : st == -pte_no_time;
		};
		const Exp &x = t.evs[(size_t)m.last]; bool good = ok(x);
		if (!good && m.alt && !m.end()) good = ok(t.evs[m.idx]);
		if (!good && m.alt) good = m.end() || ok(t.evs[m.altidx]);
		CHECK(good, "time: %d %llx, cbr: %d %u; expected time %d %llx, cbr %u (seg %zu, now %zu)", st, (unsigned long long)tm, sc, cbr, x.ht, (unsigned long long)x.t, x.cbr, x.cbrseg, m.seg + 1);
	};
	{ int tk; CHECK_EQ(pt_qry_cond_branch(q.d, &tk), -pte_nosync, "cond query before sync"); CHECK_EQ(pt_qry_indirect_branch(q.d, &ip), -pte_nosync, "indirect query before sync"); pt_event e; CHECK_EQ(pt_qry_event(q.d, &e, sizeof(e)), -pte_nosync, "event query before sync"); }
	sync(0, 0);
	size_t mism = s.below(4); size_t after = 0; size_t guard = 0;
	while (after < 4 && guard++ < 4000) {
		if (m.end() && m.bits.empty()) after++;
		if (s.below(10) < mism) { switch (s.below(4)) { case 0: cond(); break; case 1: indirect(); break; case 2: event(); break; default: time(); } }
		else if (resync && s.chance(1, 12)) { sync(s.below(t.psbs.size()), 1); after = 0; }
		else if (!m.bits.empty()) { if (m.type() == ptev_tip && s.chance(1, 3)) indirect(); else cond(); }
		else if (m.type() == ptev_tnt) { if (m.idx + 1 < t.evs.size() && t.evs[m.idx + 1].ev.type == ptev_tip && s.chance(1, 3)) indirect(); else cond(); }
		else if (m.type() == ptev_tip) indirect();
		else event();
		if (s.chance(1, 4)) time();
		uint64_t o = 0; int st = pt_qry_get_offset(q.d, &o); CHECK(st == 0 && o <= t.out.size(), "offset %d %llx", st, (unsigned long long)o);
	}
	c.label("matching queries", hits); c.label("mismatched queries", mismatched); c.label("deferred TIPs", deferred);
	if (hits >= 5 && t.evs.size() >= 4) c.nontrivial(mix(fnv(t.out.data(), t.out.size()), hits * 1000 + mismatched));
}

int main(int argc, char **argv)
{
	return run_main(argc, argv, "C06", {
		{"C06", "queries", "a legal packet sequence with at least four events, ended by a complete, truncated, unknown, or out-of-context packet; a history of matching and mismatching conditional, indirect, event and time queries and re-synchronizations with at least five answered queries", queries, 160000, 4000000},
	});
}
