// C13: decode does not depend on where and how it starts.
#include "simrun.hpp"
using namespace sim;

struct ImgGuard { pt_image *i; ~ImgGuard() { if (i) pt_image_free(i); } };
struct EvtGuard { pt_event_decoder *d; ~EvtGuard() { if (d) pt_evt_free_decoder(d); } };
struct QryGuard { pt_query_decoder *d; ~QryGuard() { if (d) pt_qry_free_decoder(d); } };

struct View { std::vector<Entry> log; const Stop *stop = nullptr; size_t must = 0; };
// What decode from the k'th synchronization point has to deliver.
static View view(const Sim &m, size_t k)
{
	const Start &st = m.starts[k]; View v; v.log = st.hdr; size_t end = m.log.size();
	for (auto &x : m.stops) if (x.nstarts > k) { v.stop = &x; end = x.end; v.must = v.log.size() + (x.must > st.log ? x.must - st.log : 0); break; }
	v.log.insert(v.log.end(), m.log.begin() + (long)st.log, m.log.begin() + (long)end);
	return v;
}
static const unsigned what = et_time;

struct Any {
	int layer; pt_insn_decoder *i = nullptr; pt_block_decoder *b = nullptr; pt_event_decoder *e = nullptr; pt_query_decoder *q = nullptr;
	~Any() { if (i) pt_insn_free_decoder(i); if (b) pt_blk_free_decoder(b); if (e) pt_evt_free_decoder(e); if (q) pt_qry_free_decoder(q); }
	int forward() { uint64_t ip; return layer == 0 ? pt_insn_sync_forward(i) : layer == 1 ? pt_blk_sync_forward(b) : layer == 2 ? pt_evt_sync_forward(e) : pt_qry_sync_forward(q, &ip); }
	int backward() { uint64_t ip; return layer == 0 ? pt_insn_sync_backward(i) : layer == 1 ? pt_blk_sync_backward(b) : layer == 2 ? pt_evt_sync_backward(e) : pt_qry_sync_backward(q, &ip); }
	int set(uint64_t o) { uint64_t ip; return layer == 0 ? pt_insn_sync_set(i, o) : layer == 1 ? pt_blk_sync_set(b, o) : layer == 2 ? pt_evt_sync_set(e, o) : pt_qry_sync_set(q, &ip, o); }
	int syncoff(uint64_t *o) { return layer == 0 ? pt_insn_get_sync_offset(i, o) : layer == 1 ? pt_blk_get_sync_offset(b, o) : layer == 2 ? pt_evt_get_sync_offset(e, o) : pt_qry_get_sync_offset(q, o); }
	int off(uint64_t *o) { return layer == 0 ? pt_insn_get_offset(i, o) : layer == 1 ? pt_blk_get_offset(b, o) : layer == 2 ? pt_evt_get_offset(e, o) : pt_qry_get_offset(q, o); }
};

static void run_evt(pt_event_decoder *d, const Sim &m, size_t k, size_t max)
{
	const Tracer &t = m.t;
	for (size_t i = m.starts[k].ev;; ++i) {
		if (!max--) return;
		pt_event ev; memset(&ev, 0xcc, sizeof(ev)); int st = pt_evt_next(d, &ev, sizeof(ev));
		size_t next = ~(size_t)0; for (auto &x : m.stops) if (x.nstarts > k) { next = m.starts[x.nstarts].ev; break; }
		if (i >= t.evs.size() || i == next) { int want = i == next ? -pte_bad_opc : -pte_eos; CHECK(st == want, "event layer: at the end: %d, expected %d", st, want); return; }
		// Reading ahead for an overflow may hit what cannot be decoded.
		if (st < 0 && next != ~(size_t)0 && t.evs[i].ev.type == ptev_overflow) return;
		CHECK(st == 0, "event layer: event %zu: %d, expected '%s'", i, st, evtext(t.evs[i].ev).c_str());
		std::string g = evtext(ev, what), w = evtext(t.evs[i].ev, what); CHECK(g == w, "event layer: event %zu: got '%s', expected '%s'", i, g.c_str(), w.c_str());
	}
}
static void run_qry(pt_query_decoder *d, const Sim &m, size_t k, size_t max)
{
	const Tracer &t = m.t; size_t next = t.evs.size(); bool brk = false;
	for (auto &x : m.stops) if (x.nstarts > k) { next = m.starts[x.nstarts].ev; brk = true; break; }
	for (size_t i = m.starts[k].ev; i < next && max--; ++i) {
		const pt_event &w = t.evs[i].ev; int st;
		if (w.type == ptev_tnt) { for (unsigned n = w.variant.tnt.size; n--;) { int tk = 42; st = pt_qry_cond_branch(d, &tk); CHECK(st >= 0 && tk == (int)(w.variant.tnt.bits >> n & 1), "query layer: item %zu: %d taken %d", i, st, tk); } continue; }
		if (w.type == ptev_tip) { uint64_t ip = 0; st = pt_qry_indirect_branch(d, &ip); CHECK(st >= 0 && (w.ip_suppressed || ip == w.variant.tip.ip), "query layer: item %zu: %d ip %llx, expected %s", i, st, (unsigned long long)ip, evtext(w).c_str()); continue; }
		pt_event ev; memset(&ev, 0xcc, sizeof(ev)); st = pt_qry_event(d, &ev, sizeof(ev)); if (st < 0 && brk && w.type == ptev_overflow) return; CHECK(st >= 0, "query layer: item %zu: %d, expected '%s'", i, st, evtext(w).c_str());
		std::string g = evtext(ev, what), x = evtext(w, what); CHECK(g == x, "query layer: item %zu: got '%s', expected '%s'", i, g.c_str(), x.c_str());
	}
	if (max == ~(size_t)0) return;
	int tk; if (!brk && m.starts[k].ev + max > next) { int st = pt_qry_cond_branch(d, &tk); CHECK(st == -pte_eos, "query layer: at the end: %d", st); }
}

static void starts(Source &s, Ctx &c)
{
	Program p(s); p.generate(); bool cached = s.flip(); p.layout(s.chance(1, 4), cached);
	Sim m(s, p); m.fullhdr = true; m.corruption = s.flip(); m.t.iflags = s.chance(1, 3); m.retcomp = !s.chance(1, 3); m.defer = !m.retcomp && s.flip(); m.t.timing = !s.chance(1, 4); m.psbw = (unsigned)s.range(3, 12);
	m.run(s.range(4, 160));
	describe(c, m, what);
	if (const char *dp = getenv("PBT_DUMP")) { FILE *f = fopen(dp, "w"); if (f) { fwrite(m.t.out.data(), 1, m.t.out.size(), f); fclose(f); } }
	size_t visits = 0, insns = 0; bool partial = false; uint64_t h = 0;
	Buf buf(m.t.out, (unsigned)s.below(8));
	ImgGuard img{pt_image_alloc("sim")}; p.fill(img.i);
	unsigned ndec = (unsigned)s.range(1, 2);
	while (ndec--) {
		Any d; d.layer = (int)s.weighted({4, 4, 1, 1}); BlkFlags fl; pt_config cfg = mkconfig(buf.p, m.t.out.size());
		switch (d.layer) {
		case 0: cfg.flags.variant.insn.enable_iflags_events = m.t.iflags; d.i = pt_insn_alloc_decoder(&cfg); CHECK(d.i, "alloc"); pt_insn_set_image(d.i, img.i); break;
		case 1: cfg.flags.variant.block.enable_iflags_events = m.t.iflags; cfg.flags.variant.block.end_on_call = fl.call = s.flip(); cfg.flags.variant.block.end_on_jump = fl.jump = s.flip(); d.b = pt_blk_alloc_decoder(&cfg); CHECK(d.b, "alloc"); pt_blk_set_image(d.b, img.i); break;
		case 2: cfg.flags.variant.event.enable_iflags_events = m.t.iflags; d.e = pt_evt_alloc_decoder(&cfg); CHECK(d.e, "alloc"); break;
		default: cfg.flags.variant.query.enable_iflags_events = m.t.iflags; d.q = pt_qry_alloc_decoder(&cfg); CHECK(d.q, "alloc"); break;
		}
		size_t n = s.range(1, 8); bool synced = false, failed = false;
		for (size_t v = 0; v < n; ++v) {
			size_t k = m.starts.size(); int st; uint64_t o = 0;
			unsigned op = (unsigned)s.weighted({2, 2, 1});
			if (op == 0) { k = s.below(m.starts.size()); st = d.set(m.starts[k].pos); CHECK(st >= 0, "layer %d: sync_set(%llx): %d", d.layer, (unsigned long long)m.starts[k].pos, st); c.log("set %zu; ", k); }
			else if (op == 1) {
				int so = d.off(&o); CHECK(synced || failed ? so == 0 || (failed && so == -pte_nosync) : so == -pte_nosync, "offset: %d", so); CHECK(so < 0 || o <= m.t.out.size(), "offset %llx", (unsigned long long)o); if (so < 0) o = 0;
				size_t want = 0; while (want < m.starts.size() && so == 0 && m.starts[want].pos < o) want++;
				st = d.forward(); c.log("forward from %llx: %d; ", (unsigned long long)o, st);
				// After failing to synchronize we may be at a synchronization point without being synchronized onto it.
				if (failed) { if (st == -pte_eos) continue; uint64_t so2 = 0; CHECK(st >= 0 && d.syncoff(&so2) == 0, "layer %d: sync_forward: %d", d.layer, st); if (want < m.starts.size() && m.starts[want].pos != so2) want++; }
				if (st == -pte_eos) { failed = true; CHECK(want == m.starts.size(), "layer %d: sync_forward from %llx found nothing, expected %llx", d.layer, (unsigned long long)o, (unsigned long long)m.starts[want].pos); synced = false; continue; }
				CHECK(st >= 0, "layer %d: sync_forward: %d", d.layer, st); k = want;
			} else {
				int so = d.off(&o); st = d.backward(); c.log("backward from %llx: %d; ", (unsigned long long)o, st); if (st == -pte_eos) { synced = false; failed = true; uint64_t x = 0; int f = d.off(&x); CHECK(f == -pte_nosync || x <= m.t.out.size(), "layer %d: offset %llx", d.layer, (unsigned long long)x); continue; }
				CHECK(st >= 0, "layer %d: sync_backward: %d", d.layer, st); uint64_t so2; CHECK(d.syncoff(&so2) == 0, "sync offset"); k = 0; while (k < m.starts.size() && m.starts[k].pos != so2) k++;
				CHECK(k < m.starts.size() && (so < 0 || so2 <= o), "layer %d: sync_backward from %llx went to %llx", d.layer, (unsigned long long)o, (unsigned long long)so2);
			}
			synced = true; failed = false;
			uint64_t so; CHECK(d.syncoff(&so) == 0, "sync offset"); CHECK(k < m.starts.size() && so == m.starts[k].pos, "layer %d: synchronized onto %llx, expected %llx", d.layer, (unsigned long long)so, k < m.starts.size() ? (unsigned long long)m.starts[k].pos : ~0ull);
			View w = view(m, k); Part part; part.stop = w.stop; part.must = w.must; if (s.chance(1, 3)) { part.max = s.below(20); partial = true; }
			std::string tag = strf("start %zu, visit %zu", k, v);
			switch (d.layer) {
			case 0: run_insn(d.i, st, m, w.log, what, !w.stop, tag.c_str(), part); break;
			case 1: run_blk(d.b, st, m, w.log, what, !w.stop, tag.c_str(), fl, part); break;
			case 2: run_evt(d.e, m, k, part.max); break;
			default: run_qry(d.q, m, k, part.max); break;
			}
			visits++; insns += w.log.size(); h = mix(h, k * 64 + (unsigned)d.layer);
		}
		if (d.i) pt_insn_set_image(d.i, nullptr); if (d.b) pt_blk_set_image(d.b, nullptr);
	}
	c.label("synchronization points", m.starts.size()); c.label("visits", visits); c.label("trace errors", m.stops.size()); if (partial) c.label("abandoned decodes");
	if (m.starts.size() >= 2 && visits >= 2 && insns >= 10) c.nontrivial(mix(h, fnv(m.t.out.data(), m.t.out.size())));
}

// What a user sees that decodes from a synchronization point.
static std::vector<std::string> observe(Any &d, int status, size_t max, uint64_t script)
{
	std::vector<std::string> o; uint64_t ninsn = 0, last = 0, total = 0; size_t bad = 0;
	auto blocks = [&] { if (ninsn) o.push_back(strf("%llu instructions, the last at %llx", (unsigned long long)ninsn, (unsigned long long)last)); ninsn = 0; };
	auto time = [&](unsigned k) {
		uint64_t tm = 0; uint32_t lm = 0, lc = 0, cbr = 0; int e = 0, f = 0;
		switch (d.layer) { case 0: e = pt_insn_time(d.i, &tm, &lm, &lc); f = pt_insn_core_bus_ratio(d.i, &cbr); break; case 1: e = pt_blk_time(d.b, &tm, &lm, &lc); f = pt_blk_core_bus_ratio(d.b, &cbr); break; case 3: e = pt_qry_time(d.q, &tm, &lm, &lc); f = pt_qry_core_bus_ratio(d.q, &cbr); break; default: return; }
		o.push_back(strf("%u: time %d %llx %u %u cbr %d %u", k, e, e ? 0ull : (unsigned long long)tm, e ? 0 : lm, e ? 0 : lc, f, f ? 0 : cbr));
	};
	o.push_back(strf("sync %d", status)); uint64_t so = 0; int e = d.syncoff(&so); o.push_back(strf("at %d %llx", e, (unsigned long long)so));
	if (status < 0) return o;
	time(0);
	// Blocks don't count: how the block decoder splits them is not fixed.
	for (size_t n = 0; d.layer == 1 ? o.size() < max : n < max; ++n) {
		if (d.layer == 2) { pt_event ev; memset(&ev, 0, sizeof(ev)); status = pt_evt_next(d.e, &ev, sizeof(ev)); o.push_back(strf("event %d %s", status, status < 0 ? "" : evtext(ev, what).c_str())); if (status < 0) break; continue; }
		if (status >= 0 && (status & pts_event_pending)) {
			pt_event ev; memset(&ev, 0, sizeof(ev));
			status = d.layer == 0 ? pt_insn_event(d.i, &ev, sizeof(ev)) : d.layer == 1 ? pt_blk_event(d.b, &ev, sizeof(ev)) : pt_qry_event(d.q, &ev, sizeof(ev));
			blocks(); o.push_back(strf("event %d %s", status, status < 0 ? "" : evtext(ev, what).c_str())); if (o.size() % 8 == 3) time(1);
			if (status < 0) break;
			continue;
		}
		if (d.layer == 0) {
			pt_insn in; memset(&in, 0, sizeof(in)); status = pt_insn_next(d.i, &in, sizeof(in)); std::string raw; for (unsigned k = 0; k < in.size && k < sizeof(in.raw); ++k) raw += strf("%02x", in.raw[k]);
			o.push_back(strf("insn %d ip %llx size %u %s class %d mode %d spec %d trunc %d isid %d", status, (unsigned long long)in.ip, in.size, raw.c_str(), in.iclass, in.mode, in.speculative, in.truncated, in.isid)); if (o.size() % 8 == 3) time(2);
			if (status < 0) break;
		} else if (d.layer == 1) {
			pt_block b; memset(&b, 0, sizeof(b)); status = pt_blk_next(d.b, &b, sizeof(b)); if (b.ninsn) { ninsn += b.ninsn; total += b.ninsn; last = b.end_ip; }
			// An endless loop.
			if (total > 20000) return o;
			// How blocks are split depends on the block cache.
			if (!b.ninsn && status >= 0 && ++bad > 1000) return o;
			if (status < 0) { blocks(); o.push_back(strf("block %d", status)); break; }
		} else {
			if (status >= 0 && (status & pts_eos) && bad) break;
			int tk = -1; uint64_t ip = 0; bool cond = (script >> (n % 64)) & 1; status = cond ? pt_qry_cond_branch(d.q, &tk) : pt_qry_indirect_branch(d.q, &ip); o.push_back(strf("%s %d %d %llx", cond ? "cond" : "indirect", status, tk, status < 0 || (status & pts_ip_suppressed) ? 0ull : (unsigned long long)ip));
			if (o.size() % 8 == 3) time(3);
			if (status < 0) { if (++bad > 3) break; status = 0; pt_event ev; memset(&ev, 0, sizeof(ev)); int st = pt_qry_event(d.q, &ev, sizeof(ev)); o.push_back(strf("event %d %s", st, st < 0 ? "" : evtext(ev, what).c_str())); if (st >= 0) status = st; } else bad = 0;
		}
	}
	if (d.layer != 1 || o.size() < max) blocks();
	return o;
}

static void repeat(Source &s, Ctx &c)
{
	Program p(s); p.generate(); bool cached = s.flip(); p.layout(s.chance(1, 4), cached);
	// With an unknown address space, any of several matching sections may be used; the callback has no such choice.
	if (p.multi) for (auto &q : p.pieces) q.callback = true;
	Bytes out; unsigned nsim = (unsigned)s.range(1, 2);
	for (unsigned k = 0; k < nsim; ++k) {
		Sim m(s, p); m.fullhdr = s.flip(); m.corruption = s.chance(1, 4); m.t.iflags = s.chance(1, 3); m.retcomp = s.flip(); m.t.timing = !s.chance(1, 3); m.psbw = (unsigned)s.range(3, 12);
		m.run(s.range(4, 80)); out.insert(out.end(), m.t.out.begin(), m.t.out.end());
	}
	// Drop packets and damage others.
	pt_config pc = mkconfig(out.data(), out.size()); std::vector<uint64_t> psbs; unsigned drops = 0; unsigned pd = (unsigned)s.pick(std::vector<int>{0, 2, 8, 30});
	{
		pt_packet_decoder *pk = pt_pkt_alloc_decoder(&pc); CHECK(pk, "alloc"); bool hdr = false;
		std::vector<std::pair<uint64_t, unsigned>> drop;
		while (pt_pkt_sync_forward(pk) >= 0) {
			for (;;) {
				uint64_t off; pt_packet pkt; pt_pkt_get_offset(pk, &off); int n = pt_pkt_next(pk, &pkt, sizeof(pkt)); if (n < 0) break;
				if (pkt.type == ppt_psb) { psbs.push_back(off); hdr = true; } else if (pkt.type == ppt_psbend) hdr = false;
				else if (hdr ? s.below(100) < (unsigned)(pd ? 25 : 0) : s.below(100) < pd) drop.push_back({off, (unsigned)n});
			}
		}
		pt_pkt_free_decoder(pk);
		for (auto &x : drop) { memset(&out[x.first], 0, x.second); drops++; }
	}
	if (psbs.empty()) { throw Discard{}; }
	unsigned flips = (unsigned)s.weighted({3, 1, 1, 1}); for (unsigned k = 0; k < flips; ++k) out[s.below(out.size())] ^= (uint8_t)s.range(1, 255);
	Buf buf(out, (unsigned)s.below(8)); ImgGuard i1{pt_image_alloc("a")}, i2{pt_image_alloc("b")}; p.fill(i1.i); p.fill(i2.i);
	Any used, fresh; used.layer = fresh.layer = (int)s.weighted({4, 4, 1, 2}); pt_config cfg = mkconfig(buf.p, out.size()); bool ifl = s.flip();
	bool timing = s.flip(); if (timing) { cfg.mtc_freq = 3; cfg.nom_freq = 8; cfg.cpuid_0x15_eax = 2; cfg.cpuid_0x15_ebx = 84; }
	if (s.chance(1, 3)) { uint32_t e = (uint32_t)s.below(1u << 11); cfg.errata.bdm70 = e & 1; cfg.errata.bdm64 = e >> 1 & 1; cfg.errata.skd007 = e >> 2 & 1; cfg.errata.skd022 = e >> 3 & 1; cfg.errata.skd010 = e >> 4 & 1; cfg.errata.skl014 = e >> 5 & 1; cfg.errata.apl12 = e >> 6 & 1; cfg.errata.apl11 = e >> 7 & 1; cfg.errata.skl168 = e >> 8 & 1; cfg.errata.skz84 = e >> 9 & 1; }
	bool ticks = s.chance(1, 4), coj = s.flip(), coc = s.flip();
	auto make = [&](Any &d, pt_image *img) {
		pt_config k = cfg;
		switch (d.layer) {
		case 0: k.flags.variant.insn.enable_iflags_events = ifl; k.flags.variant.insn.enable_tick_events = ticks; d.i = pt_insn_alloc_decoder(&k); CHECK(d.i, "alloc"); pt_insn_set_image(d.i, img); break;
		case 1: k.flags.variant.block.enable_iflags_events = ifl; k.flags.variant.block.enable_tick_events = ticks; k.flags.variant.block.end_on_call = coc; k.flags.variant.block.end_on_jump = coj; d.b = pt_blk_alloc_decoder(&k); CHECK(d.b, "alloc"); pt_blk_set_image(d.b, img); break;
		case 2: k.flags.variant.event.enable_iflags_events = ifl; d.e = pt_evt_alloc_decoder(&k); CHECK(d.e, "alloc"); break;
		default: k.flags.variant.query.enable_iflags_events = ifl; d.q = pt_qry_alloc_decoder(&k); CHECK(d.q, "alloc"); break;
		}
	};
	make(used, i1.i); make(fresh, i2.i);
	unsigned hist = (unsigned)s.range(1, 5); uint64_t script = s.bits(64); size_t seen = 0;
	for (unsigned k = 0; k < hist; ++k) {
		uint64_t o = psbs[s.below(psbs.size())]; unsigned op = (unsigned)s.weighted({4, 2, 1}); int st = op == 0 ? used.set(o) : op == 1 ? used.forward() : used.backward(); c.log("%s %llx: %d; ", op == 0 ? "set" : op == 1 ? "forward" : "backward", (unsigned long long)o, st);
		auto v = observe(used, st, s.chance(1, 2) ? s.below(30) : 600, s.bits(64)); seen += v.size();
	}
	uint64_t o = psbs[s.below(psbs.size())]; c.log("then set %llx (layer %d); ", (unsigned long long)o, used.layer);
	int a = used.set(o); auto va = observe(used, a, 600, script); int b = fresh.set(o); auto vb = observe(fresh, b, 600, script);
	if (getenv("PBT_DUMP")) { FILE *f = fopen(getenv("PBT_DUMP"), "w"); if (f) { fwrite(out.data(), 1, out.size(), f); fclose(f); } for (size_t k = 0; k < va.size() || k < vb.size(); ++k) fprintf(stderr, "%zu: %s | %s\n", k, k < va.size() ? va[k].c_str() : "-", k < vb.size() ? vb[k].c_str() : "-"); }
	for (size_t k = 0; k < va.size() || k < vb.size(); ++k) CHECK(k < va.size() && k < vb.size() && va[k] == vb[k], "layer %d: item %zu at %llx: '%s' after earlier decode, '%s' with a new decoder", used.layer, k, (unsigned long long)o, k < va.size() ? va[k].c_str() : "end", k < vb.size() ? vb[k].c_str() : "end");
	if (used.i) pt_insn_set_image(used.i, nullptr); if (used.b) pt_blk_set_image(used.b, nullptr); if (fresh.i) pt_insn_set_image(fresh.i, nullptr); if (fresh.b) pt_blk_set_image(fresh.b, nullptr);
	c.label("dropped packets", drops); c.label("synchronization points", psbs.size()); if (flips) c.label("damaged bytes", flips); static const char *const lname[] = {"instruction decoder", "block decoder", "event decoder", "query decoder"}; c.label(lname[used.layer]);
	if (va.size() > 8 && seen > 8) c.nontrivial(mix(fnv(out.data(), out.size()), o * 8 + (unsigned)used.layer));
}

int main(int argc, char **argv)
{
	return run_main(argc, argv, "C13", {
		{"C13", "starts", "a simulated run (see C07) with several synchronization points, some followed by trace that cannot be decoded; one or two decoders of any layer visit synchronization points in random order by forward, backward and explicit synchronization, decoding completely or in part; at least two synchronization points and two visits", starts, 90000, 3000000},
		{"C13", "repeat", "traces of one or two simulated runs with packets dropped (most often inside PSB+) and bytes damaged; a decoder of any layer decodes from synchronization points in random order, completely or in part, then from one more, for which everything a user can observe (status, events, instructions, time, queries) must be what a new decoder with its own image observes; at least eight observations before and after", repeat, 240000, 3000000},
	});
}
