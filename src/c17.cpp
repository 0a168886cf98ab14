// C17: sideband: records take effect on the right process images in timestamp order.
#include "sbgen.hpp"

static void same_text(const char *what, const std::string &a, const std::string &b)
{
	if (a == b) return; size_t i = 0, l = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) { if (a[i] == '\n') l = i + 1; i++; } auto cut = [&](const std::string &x) { return l < x.size() ? x.substr(l, std::min(x.find('\n', l), l + 300) - l) : std::string("(end)"); };
	fail("%s: '%s', expected '%s'", what, cut(a).c_str(), cut(b).c_str());
}
// --- session: the protocol between a session and its decoders ---
namespace ses {
struct Step { uint64_t tsc; int apply, apply2, print; };	// results: the record is due, later, printing
struct Dec {
	int id; bool primary; std::vector<Step> st; int end; bool nofetch, noapply, noprint; size_t cur = 0, mcur = 0; bool done = false; int where = 0, dtor = 0; std::vector<std::string> log, *all, want; pt_image *img;
};
enum { waiting, active, retired, removed };
static int fetch(pt_sb_session *, uint64_t *tsc, void *p) { Dec &d = *(Dec *)p; d.log.push_back("fetch"); d.all->push_back(strf("%d fetch", d.id)); if (d.cur >= d.st.size()) return d.end; *tsc = d.st[d.cur++].tsc; d.done = false; return 0; }
static int print(pt_sb_session *, FILE *f, uint32_t flags, void *p) { Dec &d = *(Dec *)p; d.log.push_back(strf("print %u", flags)); d.all->push_back(strf("%d print", d.id)); fprintf(f, "%d:%zu\n", d.id, d.cur); return d.st[d.cur - 1].print; }
static int apply(pt_sb_session *, pt_image **image, const pt_event *ev, void *p)
{
	Dec &d = *(Dec *)p; d.log.push_back(strf("apply %d %llx%s", (int)ev->type, (ull)ev->tsc, image ? " image" : "")); d.all->push_back(strf("%d apply", d.id)); if (image) *image = d.img;
	Step &k = d.st[d.cur - 1]; if (!d.done && k.tsc <= ev->tsc) { d.done = true; return k.apply; } return k.apply2;
}
static void dtor(void *p) { ((Dec *)p)->dtor++; }
}
static void session(Source &s, Ctx &c)
{
	using namespace ses; wr::Guard g; pt_sb_session *ss = pt_sb_alloc(nullptr); CHECK(ss, "alloc"); std::vector<std::unique_ptr<Dec>> ds; std::vector<std::string> all; static char imgs[8];
	size_t nd = s.range(1, 5); uint64_t range = s.flip() ? 10 : 100; size_t applied = 0;
	for (size_t i = 0; i < nd; ++i) {
		auto d = std::make_unique<Dec>(); d->id = (int)i; d->primary = s.flip(); d->all = &all; size_t n = s.below(8); uint64_t t = s.below(range); bool rnd = s.chance(1, 6);
		for (size_t k = 0; k < n; ++k) { Step x{t * 8 + i, 0, 0, 0}; if (s.chance(1, 30)) x.apply = -(int)s.range(1, 20); if (s.chance(1, 30)) x.print = -(int)s.range(1, 20); if (s.chance(1, 60)) x.apply2 = -(int)s.range(1, 20); d->st.push_back(x); t = rnd ? s.below(range) : t + s.below(range / 3); }
		d->end = s.chance(3, 4) ? -pte_eos : -(int)s.range(1, 20); d->nofetch = s.chance(1, 60); d->noapply = s.chance(1, 60); d->noprint = s.chance(1, 60); d->img = (pt_image *)&imgs[i]; ds.push_back(std::move(d));
	}
	struct E { int kind; uint64_t tsc; int type; bool print; uint32_t flags; size_t size; }; std::vector<E> es; size_t ne = s.range(1, 10); uint64_t t = 0;
	for (size_t i = 0; i < ne; ++i) { E e{s.chance(1, 8) ? 1 : s.chance(1, 8) ? 2 : 0, 0, (int)s.below(30), s.flip(), (uint32_t)s.below(32), sizeof(pt_event)}; t = s.chance(1, 8) ? s.below(range * 8) : t + s.below(range * 4); e.tsc = s.chance(1, 20) ? UINT64_MAX : t; if (s.chance(1, 4)) e.size = s.flip() ? sizeof(pt_event) + s.below(40) : s.below(16); es.push_back(e); }
	c.describe([&] { std::string x; for (auto &d : ds) { x += strf("decoder %d%s%s%s%s:", d->id, d->primary ? " primary" : "", d->nofetch ? " no fetch" : "", d->noapply ? " no apply" : "", d->noprint ? " no print" : ""); for (auto &k : d->st) x += strf(" %llx(%d,%d,%d)", (ull)k.tsc, k.apply, k.apply2, k.print); x += strf(" end %d\n", d->end); } for (auto &e : es) x += strf("%s type %d tsc %llx%s size %zu\n", e.kind == 0 ? "event" : e.kind == 1 ? "dump" : "init", e.type, (ull)e.tsc, e.print ? " print" : "", e.size); return x; });
	size_t added = 0; auto add = [&](size_t n) { for (; n && added < nd; --n, ++added) { Dec &d = *ds[added]; pt_sb_decoder_config k; memset(&k, 0, sizeof(k)); k.size = sizeof(k); k.fetch = d.nofetch ? nullptr : fetch; k.apply = d.noapply ? nullptr : apply; k.print = d.noprint ? nullptr : print; k.dtor = dtor; k.priv = &d; k.primary = d.primary; int e = pt_sb_alloc_decoder(ss, &k); CHECK(e == 0, "adding a decoder: %d", e); } };
	std::vector<std::string> order; auto exp = [&](Dec &d, const std::string &x) { d.want.push_back(x); order.push_back(strf("%d %s", d.id, x.substr(0, 5).c_str())); };
	auto mfetch = [&](Dec &d) -> int { if (d.nofetch) return -pte_bad_config; exp(d, "fetch"); if (d.mcur >= d.st.size()) return d.end; d.mcur++; return 0; };
	auto init = [&] { for (size_t i = 0; i < added; ++i) { Dec &d = *ds[i]; if (d.where != waiting) continue; int e = mfetch(d); d.where = e < 0 ? removed : active; } order.clear(); };
	auto sync = [&](const char *what, bool ordered) { for (auto &d : ds) { std::string x, y; for (auto &l : d->log) x += l + ";"; for (auto &l : d->want) y += l + ";"; CHECK(x == y, "%s: decoder %d got %s expected %s", what, d->id, x.c_str(), y.c_str()); d->log.clear(); d->want.clear(); CHECK(d->dtor == 0 || (d->dtor == 1 && d->where == removed), "%s: decoder %d destroyed %d times", what, d->id, d->dtor); }
		if (ordered) { std::vector<std::string> a(all.begin(), all.begin() + (ptrdiff_t)std::min(all.size(), order.size())); for (auto &l : a) { size_t k = l.find(' '); l = l.substr(0, k + 6); } std::string x, y; for (auto &l : a) x += l + ";"; for (auto &l : order) y += l + ";"; CHECK(x == y, "%s: calls %s expected %s", what, x.c_str(), y.c_str()); } all.clear(); order.clear(); };
	add(s.below(nd + 1)); { init(); int e = pt_sb_init_decoders(ss); CHECK(e == 0, "init: %d", e); sync("init", false); }
	for (auto &e : es) {
		if (e.kind == 2) { add(s.range(1, nd)); init(); int r = pt_sb_init_decoders(ss); CHECK(r == 0, "init: %d", r); sync("init", false); continue; }
		char *text = nullptr; size_t tl = 0; FILE *f = e.kind == 1 || e.print ? open_memstream(&text, &tl) : nullptr; std::string out; pt_image *im = (pt_image *)&imgs[7];
		auto first = [&]() -> Dec * { Dec *d = nullptr; for (auto &x : ds) if (x->where == active && (!d || x->st[x->mcur - 1].tsc < d->st[d->mcur - 1].tsc)) d = x.get(); return d && d->st[d->mcur - 1].tsc <= e.tsc ? d : nullptr; };
		auto mprint = [&](Dec &d) { if (d.noprint) return false; exp(d, strf("print %u", e.flags)); out += strf("%d:%zu\n", d.id, d.mcur); return d.st[d.mcur - 1].print >= 0; };
		auto mapply = [&](Dec &d) { if (d.noapply) return false; exp(d, strf("apply %d %llx%s", e.type, (ull)e.tsc, d.primary ? " image" : "")); return true; };
		if (e.kind == 0) {
			pt_event ev; memset(&ev, 0, sizeof(ev)); ev.type = (pt_event_type)e.type; ev.tsc = e.tsc; std::vector<uint8_t> mem(std::max(e.size, sizeof(ev)) + 8, 0xee); memcpy(mem.data(), &ev, sizeof(ev)); bool bad = e.size < 16;
			if (!bad) {
				while (Dec *d = first()) {
					if (f && !mprint(*d)) { d->where = removed; continue; } if (!mapply(*d)) { d->where = removed; continue; } applied++; if (d->st[d->mcur - 1].apply < 0) { d->where = removed; continue; }
					int r = mfetch(*d); if (r < 0) d->where = r == -pte_eos ? retired : removed;
				}
				std::vector<std::string> o1 = order; for (auto &d : ds) if (d->where == active || d->where == retired) { if (!mapply(*d) || d->st[d->mcur - 1].apply2 < 0) d->where = removed; } order = o1;
			}
			int r = pt_sb_event(ss, &im, (pt_event *)mem.data(), e.size, f, e.flags);
			if (bad) CHECK(r == -pte_invalid, "event of %zu bytes: %d", e.size, r); else CHECK(r == 0, "event: %d", r);
			CHECK(!memcmp(mem.data(), &ev, sizeof(ev)), "event changed"); bool prim = false; for (auto &d : ds) prim |= d->primary; if (!prim) CHECK(im == (pt_image *)&imgs[7], "image changed without a primary decoder");
		} else {
			while (Dec *d = first()) { if (!mprint(*d)) { d->where = removed; continue; } if (mfetch(*d) < 0) d->where = removed; }
			int r = pt_sb_dump(ss, f, e.flags, e.tsc); CHECK(r == 0, "dump: %d", r);
		}
		if (f) { fclose(f); std::string got(text ? text : "", tl); free(text); same_text("printed", got, out); } else CHECK(out.empty(), "model");
		sync(e.kind ? "dump" : "event", true);
	}
	size_t n = added; pt_sb_free(ss); for (size_t i = 0; i < nd; ++i) CHECK(ds[i]->dtor == (i < n), "decoder %zu destroyed %d times", i, ds[i]->dtor); CHECK(wr::leaks().empty(), "leaks: %s", wr::leaks().c_str());
	if (applied > 1) c.nontrivial(mix(applied, fnv(&es[0], sizeof(E)))); c.label("records applied", applied);
}

static bool add_map(MCtx &x, int file, uint64_t off, uint64_t len, uint64_t addr) { auto &f = pool()[(size_t)file]; if (!len || off >= f.d.size()) return false; x.m.push_back({file, off, std::min<uint64_t>(len, f.d.size() - off), addr}); return true; }

static void history(Source &s, Ctx &c)
{
	pool(); Hist h; static const uint64_t ks[] = {0xffff800000000000ull, 0x20000, 0x18000, UINT64_MAX, 0xffffffff80000000ull}; h.kstart = ks[s.below(5)]; size_t nd = s.range(1, 4); bool timeless = s.chance(1, 5), prim = s.chance(9, 10); if (s.chance(1, 10)) h.rejects = s.bits(30) | 1; if (s.chance(1, 2)) { size_t n = s.range(1, 2); for (size_t i = 0; i < n; ++i) { int f = (int)s.below(2); h.kernel.push_back({f, 0x400 * s.below(4), 0x1000, (h.kstart == UINT64_MAX ? ks[0] : h.kstart) + 0x1000 * s.below(4)}); } }
	for (size_t i = 0; i < nd; ++i) { auto d = std::make_unique<PDec>(); d->id = (int)i; d->fd = -1; d->begin = 0; d->primary = prim && i == 0; d->late = s.chance(1, 8); make_channel(s, h, *d, nd, timeless && i + 1 == nd); h.ds.push_back(std::move(d)); }
	for (auto &d : h.ds) h.h = fnv(d->bytes.data(), d->bytes.size(), h.h);
	c.describe([&] { std::string x = strf("kernel start %llx rejects %llx\n", (ull)h.kstart, (ull)h.rejects); for (auto &m : h.kernel) x += strf("kernel section file %d off %llx at %llx\n", m.file, (ull)m.off, (ull)m.addr); for (auto &d : h.ds) { x += strf("channel %d%s%s begin %zx end %zx sysroot '%s' offset %llx shift %u zero %llx vdso %d %d %d%s\n", d->id, d->primary ? " primary" : "", d->late ? " late" : "", d->k.begin, d->k.end, d->sysroot.c_str(), (ull)d->k.tsc_offset, d->k.time_shift, (ull)d->k.time_zero, d->vfile[0], d->vfile[1], d->vfile[2], d->bad ? " malformed end" : ""); for (auto &p : d->rs) x += "  " + pstr(p) + (p.r.str.size() < 100 ? " '" + p.r.str + "'" : "") + "\n"; } return x; });
	wr::Guard g; pt_image_section_cache *ic = s.flip() ? pt_iscache_alloc(nullptr) : nullptr; pt_sb_session *ss = pt_sb_alloc(ic); CHECK(ss && pt_sb_iscache(ss) == ic, "alloc"); if (ic && s.flip()) pt_iscache_set_limit(ic, s.bits(18)); std::map<uint32_t, MC> ctxs; auto kern = [&](uint32_t pid) { MC m = std::make_shared<MCtx>(); m->pid = pid; m->m = h.kernel; return m; };
	auto get = [&](uint32_t pid) -> MC & { MC &m = ctxs[pid]; if (!m) m = kern(pid); return m; };
	pt_image *ki = pt_sb_kernel_image(ss); CHECK(ki, "no kernel image"); for (auto &m : h.kernel) { int e = pt_image_add_file(ki, pool()[(size_t)m.file].name.c_str(), m.off, m.size, nullptr, m.addr); CHECK(e == 0, "kernel section: %d", e); }
	bool quiet = s.chance(1, 10), noswitch = s.chance(1, 10); if (!quiet) CHECK(!pt_sb_notify_error(ss, on_error, &h), "notifier"); if (!noswitch) CHECK(!pt_sb_notify_switch(ss, on_switch, &h), "notifier"); if (quiet) h.rejects = 0;
	pt_image *user = pt_image_alloc("user"), *im = user; MC cur; size_t nsw = 0; bool amb = false, stuck = false; unsigned applied = 0, nswitch = 0, failures = 0; enum { waiting, active, retired, removed };
	auto report = [&](PDec &d, int code, size_t off) -> bool { if (!quiet) d.want.push_back({code, d.name, (uint64_t)off}); failures++; return !rejected(h, d.name, (uint64_t)off); };	// true: continue
	auto fetch = [&](PDec &d) { d.where = active; if (d.cur < d.rs.size()) { d.cur++; return; } if (d.bad) { report(d, -100, d.endpos); d.where = removed; } else d.where = retired; };
	auto init = [&](bool late) { for (auto &d : h.ds) if (d->late == late) { int e = pt_sb_alloc_pevent_decoder(ss, &d->k); CHECK(e == 0, "adding a decoder: %d", e); fetch(*d); if (d->where == retired) d->where = removed; } int e = pt_sb_init_decoders(ss); CHECK(e == 0, "init: %d", e); };
	auto prepare = [&](PDec &d, MC x) { if (d.pend == x) return; d.pend = nullptr; if (d.ctx != x) d.pend = x; };
	auto doswitch = [&](PDec &d) { nsw++; nswitch++; if (h.failswitch && !noswitch) { stuck = true; return; } d.ctx = cur = d.pend; d.pend = nullptr; };
	auto apply = [&](PDec &d, const PRec &p) -> bool {	// true: keep the decoder
		const Rec &r = p.r; bool out = r.misc & 1 << 13; applied++; c.label(strf("type %u", r.type).c_str());
		switch (r.type) {
		case t_itrace: if (d.primary) { prepare(d, get((uint32_t)r.v[0])); if (d.pend) doswitch(d); } return true;
		case t_fork: { uint32_t pid = (uint32_t)r.v[0], pp = (uint32_t)r.v[1]; if (pid == pp) return true; if (r.v[2] != pid) return report(d, -100, p.off); MC m = kern(pid); ctxs[pid] = m; auto q = ctxs.find(pp); if (q != ctxs.end() && q->second) { m->m.insert(m->m.end(), q->second->m.begin(), q->second->m.end()); m->amb = q->second->abi || q->second->amb; } return true; }
		case t_comm: if (out) { MC m = kern((uint32_t)r.v[0]); ctxs[m->pid] = m; if (d.primary) prepare(d, m); } return true;
		case t_switch: if (d.primary && !out) { if (!(r.st & s_tid)) return report(d, -100, p.off); prepare(d, get(r.pid)); } return true;
		case t_switch_wide: if (d.primary) { if (out) prepare(d, get((uint32_t)r.v[0])); else if (r.st & s_tid) prepare(d, get(r.pid)); } return true;
		case t_lost: return report(d, ptse_lost, p.off); case t_aux: if (d.primary && (r.v[2] & 1)) return report(d, ptse_trace_lost, p.off); return true;
		case t_mmap: case t_mmap2: {
			if ((r.misc & 7) == 1) return true; MC &m = get((uint32_t)r.v[0]); int f = p.file;
			if (r.str == "[vdso]") { if (m->amb && !m->abi) { amb = true; return true; } f = m->abi ? d.vfile[m->abi - 1] : -1; if (f < 0) return report(d, -100, p.off); }
			else if (r.str[0] == '[' || r.str == "//anon" || f == -2) return report(d, ptse_section_lost, p.off);
			if (f == f_missing) return report(d, -100, p.off); if (!m->abi) m->abi = pool()[(size_t)f].abi; if (!add_map(*m, f, r.v[4], r.v[3], r.v[2])) return report(d, -100, p.off); return true; }
		default: return true;
		}
	};
	auto first = [&](uint64_t tsc) -> PDec * { PDec *b = nullptr; for (auto &d : h.ds) if (d->where == active && (!b || d->rs[d->cur - 1].tsc < b->rs[b->cur - 1].tsc)) b = d.get(); return b && b->rs[b->cur - 1].tsc <= tsc ? b : nullptr; };
	struct Hold { pt_sb_context *x; MC m; std::vector<Map> at; }; std::vector<Hold> held; init(false); bool late = false; size_t ne = s.range(1, 25); uint64_t tsc = s.chance(1, 8) ? 0 : 7000 + s.below(2000), ip, from; bool noip; bool clamp = false; for (auto &d : h.ds) for (auto &p : d->rs) clamp |= p.tsc > 1000000;
	auto notes = [&] { for (auto &d : h.ds) { auto f = [](const std::vector<Note> &v) { std::string x; for (auto &n : v) x += strf(" %d at %llx", n.code, (ull)n.off); return x; }; CHECK(d->want.size() == d->got.size() && std::equal(d->want.begin(), d->want.end(), d->got.begin()), "channel %d: errors%s, expected%s", d->id, f(d->got).c_str(), f(d->want).c_str()); } };
	for (size_t i = 0; i < ne && !amb && !stuck; ++i) {
		if (!late && s.chance(1, 4)) { late = true; init(true); }
		switch (s.weighted({20, 1, 1, 1, 1, 1})) {
		case 1: { uint32_t pid = (uint32_t)s.range(1, 4); pt_sb_context *x = nullptr; int e = pt_sb_get_context_by_pid(&x, ss, pid); CHECK(e == 0 && x, "context: %d", e); e = pt_sb_ctx_get(x); CHECK(e == 0, "reference: %d", e); held.push_back({x, get(pid), {}}); c.log("hold process %x\n", pid); continue; }
		case 2: { uint32_t pid = (uint32_t)s.range(1, 4); pt_sb_context *x = nullptr; int e = pt_sb_find_context_by_pid(&x, ss, pid); CHECK(e == 0, "context: %d", e); if (!x) { CHECK(!ctxs.count(pid) || ctxs[pid]->m.size() == h.kernel.size(), "no context for process %x", pid); continue; } c.log("remove process %x\n", pid); e = pt_sb_remove_context(ss, x); CHECK(e == 0, "removing: %d", e); ctxs.erase(pid); e = pt_sb_find_context_by_pid(&x, ss, pid); CHECK(e == 0 && !x, "still there"); for (auto &k : held) if (k.m->pid == pid && !ctxs.count(pid)) CHECK(pt_sb_remove_context(ss, k.x) == -pte_nosync, "removed twice"); continue; }
		case 3: { uint32_t pid = (uint32_t)s.range(1, 4); pt_sb_context *x = nullptr; int e = pt_sb_get_context_by_pid(&x, ss, pid); CHECK(e == 0 && x, "context: %d", e); int f = (int)s.below(7); uint64_t o = 0x400 * s.below(20), n = 0x400 * s.range(1, 10), a = 0x10000 + 0x800 * s.below(40); bool ok = add_map(*get(pid), f, o, n, a); c.log("user maps file %d %llx %llx at %llx in %x\n", f, (ull)o, (ull)n, (ull)a, pid); e = pt_sb_ctx_mmap(ss, x, pool()[(size_t)f].name.c_str(), o, n, a); CHECK(ok ? e >= 0 : e < 0, "mapping: %d", e); continue; }
		case 4: { if (held.empty()) continue; h.failswitch = false; auto &k = held[s.below(held.size())]; pt_image *j = nullptr; size_t q = h.switches.size(); int e = pt_sb_ctx_switch_to(&j, ss, k.x); CHECK(e == 0 && j == pt_sb_ctx_image(k.x), "switching: %d", e); if (!noswitch) { CHECK(h.switches.size() == q + 1 && h.switches.back() == j, "not notified"); h.switches.pop_back(); } continue; }
		case 5: { pt_event e; memset(&e, 0, sizeof(e)); e.tsc = UINT64_MAX; pt_image *j = im; int st = pt_sb_event(ss, &j, &e, s.below(16), nullptr, 0); CHECK(st == -pte_invalid && j == im, "short event: %d", st); continue; }
		default: break;
		}
		tsc = s.chance(1, 10) ? 7000 + s.below(5000) : clamp && s.chance(1, 4) ? s.bits(64) : s.chance(1, 4) ? tsc : tsc + s.below(400); if (i + 1 == ne && s.flip()) tsc = UINT64_MAX; pt_event e = gen_event(s, h, tsc, ip, from, noip); c.log("event %d tsc %llx ip %llx%s from %llx\n", (int)e.type, (ull)tsc, (ull)ip, noip ? " (none)" : "", (ull)from);
		h.failswitch = !noswitch && s.chance(1, 60); char *text = nullptr; size_t tl = 0; uint32_t fl = (uint32_t)s.below(32); if ((fl & 3) == 3) fl -= 2; FILE *f = s.chance(1, 3) ? open_memstream(&text, &tl) : nullptr; std::string out; h.switches.clear(); nsw = 0;
		while (PDec *d = first(tsc)) { const PRec &p = d->rs[d->cur - 1]; if (f) out += rprint(*d, p, fl); if (!apply(*d, p)) { d->where = removed; continue; } if (amb || stuck) break; fetch(*d); }
		if (!amb && !stuck) for (auto &d : h.ds) if (d->where == active || d->where == retired) { Loc o = d->loc; d->loc = where(e, o, h.kstart, ip, from, noip); auto kk = [](Loc l) { return l == l_kernel || l == l_lkernel || l == l_unknown; }; if (d->pend && (kk(o) || kk(d->loc))) doswitch(*d); }
		int st = pt_sb_event(ss, &im, &e, sizeof(e) + (s.chance(1, 10) ? 0 : 0), f, fl); if (f) { fclose(f); std::string t(text ? text : "", tl); free(text); if (!amb && !stuck) same_text("printed", t, out); } if (amb || stuck) break; CHECK(st == 0, "event: %d", st);
		if (!noswitch) { CHECK(h.switches.size() == nsw, "%zu context switches, expected %zu", h.switches.size(), nsw); if (nsw) CHECK(h.switches.back() == im, "notified of a different image"); }
		notes(); if (!cur) CHECK(im == user, "image switched"); else { CHECK(im != user, "not switched to process %x", cur->pid); check_image(im, *cur, "current image"); auto q = ctxs.find(cur->pid); if (q != ctxs.end() && q->second == cur) { pt_sb_context *x = nullptr; pt_sb_find_context_by_pid(&x, ss, cur->pid); CHECK(x && pt_sb_ctx_image(x) == im, "not the image of process %x", cur->pid); } }
	}
	if (!amb && !stuck) {
		for (auto &q : ctxs) { pt_sb_context *x = nullptr; int e = pt_sb_find_context_by_pid(&x, ss, q.first); CHECK(e == 0, "context: %d", e); if (!x) { CHECK(q.second->m.size() == h.kernel.size(), "no context for process %x", q.first); continue; } check_image(pt_sb_ctx_image(x), *q.second, "context"); } for (auto &k : held) check_image(pt_sb_ctx_image(k.x), *k.m, "held context"); { MCtx k; k.pid = 0; k.m = h.kernel; check_image(ki, k, "kernel"); }
		// Print what is left.
		char *text = nullptr; size_t tl = 0; uint32_t fl = (uint32_t)s.below(32); if ((fl & 3) == 3) fl -= 2; uint64_t lim = s.flip() ? UINT64_MAX : 7000 + s.below(6000); FILE *f = open_memstream(&text, &tl); std::string out; while (PDec *d = first(lim)) { out += rprint(*d, d->rs[d->cur - 1], fl); fetch(*d); } int e = pt_sb_dump(ss, f, fl, lim); fclose(f); std::string t(text ? text : "", tl); free(text); CHECK(e == 0, "dump: %d", e); same_text("dumped", t, out); notes();
	}
	bool firstfree = s.flip(); if (firstfree) pt_sb_free(ss); for (auto &k : held) { if (!amb && !stuck) check_image(pt_sb_ctx_image(k.x), *k.m, "held context"); int e = pt_sb_ctx_put(k.x); CHECK(e == 0, "put: %d", e); } if (!firstfree) pt_sb_free(ss);
	pt_image_free(user); pt_iscache_free(ic); CHECK(wr::leaks().empty(), "leaks: %s", wr::leaks().c_str());
	if (applied > 2) c.nontrivial(h.h); c.label("records applied", applied); c.label("switches", nswitch); if (amb) c.label("ambiguous"); if (stuck) c.label("switch refused"); c.label("errors", failures); if (held.size()) c.label("contexts held", held.size()); if (ic) c.label("with cache");
}

// --- damaged channels ---
static void damaged(Source &s, Ctx &c)
{
	pool(); Hist h; h.kstart = 0x20000; size_t nd = s.range(1, 3); std::vector<std::string> what;
	for (size_t i = 0; i < nd; ++i) { auto d = std::make_unique<PDec>(); d->id = (int)i; d->fd = -1; d->begin = 0; d->primary = s.flip(); d->late = false; make_channel(s, h, *d, nd, s.flip()); h.ds.push_back(std::move(d)); }
	for (auto &d : h.ds) { std::vector<bool> name(d->bytes.size(), false); for (auto &p : d->rs) { Bytes b = layout(p.r); size_t z = p.r.str.size(); if (!z) continue; for (size_t k = 0; k + z <= b.size(); ++k) if (!memcmp(&b[k], p.r.str.data(), z)) for (size_t j = k; j < k + z; ++j) name[p.off + j] = true; }
		size_t n = s.below(8); for (size_t i = 0; i < n && !d->bytes.empty(); ++i) { size_t a = s.below(d->bytes.size()); if (!name[a]) { d->bytes[a] = s.flip() ? s.byte() : (uint8_t)(d->bytes[a] ^ 1u << s.below(8)); } } CHECK(pwrite(d->fd, d->bytes.data(), d->bytes.size(), 0) == (ssize_t)d->bytes.size(), "write"); if (s.chance(1, 4)) CHECK(ftruncate(d->fd, (off_t)s.below(d->bytes.size() + 1)) == 0, "truncate"); if (s.chance(1, 6)) d->k.begin = s.below(d->bytes.size() + 100); if (d->k.end && d->k.end <= d->k.begin) d->k.end = 0; if (s.chance(1, 6)) d->k.sample_type ^= 1u << s.below(17); h.h = fnv(d->bytes.data(), d->bytes.size(), h.h); }
	c.describe([&] { std::string x; for (auto &d : h.ds) x += strf("channel %d begin %zx end %zx: ", d->id, d->k.begin, d->k.end) + hex(d->bytes.data(), d->bytes.size()) + "\n"; return x; });
	wr::Guard g; pt_image_section_cache *ic = s.flip() ? pt_iscache_alloc(nullptr) : nullptr; pt_sb_session *ss = pt_sb_alloc(ic); size_t ok = 0; pt_sb_notify_error(ss, on_error, &h); pt_sb_notify_switch(ss, on_switch, &h);
	for (auto &d : h.ds) { struct { off_t n; } z{lseek(d->fd, 0, SEEK_END)}; int e = pt_sb_alloc_pevent_decoder(ss, &d->k); if (d->k.begin > (size_t)z.n) CHECK(e == -pte_invalid || e == -pte_bad_file, "beginning at %zx of a file of %llx bytes: %d", d->k.begin, (ull)z.n, e); else CHECK(e == 0, "adding: %d", e); if (e == 0) ok++; }
	int e = pt_sb_init_decoders(ss); CHECK(e == 0, "init: %d", e); pt_image *user = pt_image_alloc("user"), *im = user; uint64_t tsc = 7000, ip, from; bool noip; size_t ne = s.range(1, 12); char *text = nullptr; size_t tl = 0; FILE *f = s.flip() ? open_memstream(&text, &tl) : nullptr;
	for (size_t i = 0; i < ne; ++i) { tsc += s.below(800); if (i + 1 == ne) tsc = UINT64_MAX; pt_event ev = gen_event(s, h, tsc, ip, from, noip); e = pt_sb_event(ss, &im, &ev, sizeof(ev), f, (uint32_t)s.below(32)); CHECK(e == 0 && im, "event: %d", e); uint8_t b[16]; int isid; pt_asid as; pt_asid_init(&as); (void)pt_image_read(im, &isid, b, 16, &as, 0x10000 + 0x800 * s.below(40)); }
	for (auto &d : h.ds) for (auto &n : d->got) CHECK((n.code < 0 && n.code > -64) || (n.code >= ptse_lost && n.code <= ptse_section_lost), "error %d", n.code); for (auto &d : h.ds) for (auto &n : d->got) CHECK(n.off <= std::max(d->bytes.size(), d->k.begin), "error at %llx", (ull)n.off);
	if (f) { fclose(f); free(text); } pt_sb_free(ss); pt_image_free(user); pt_iscache_free(ic); CHECK(wr::leaks().empty(), "leaks: %s", wr::leaks().c_str()); if (ok) c.nontrivial(h.h); for (auto &d : h.ds) c.label("errors", d->got.size());
}

// --- invalid arguments ---
static void invalid(Source &s, Ctx &c)
{
	pool(); Hist h; h.kstart = 0x20000; PDec d; d.id = 0; d.fd = -1; d.begin = 0; d.primary = true; make_channel(s, h, d, 1, false); wr::Guard g; pt_sb_session *ss = pt_sb_alloc(nullptr); pt_sb_context *x = nullptr; pt_image *im = nullptr; pt_event e; memset(&e, 0, sizeof(e)); int st = 0; unsigned k = (unsigned)s.below(16); c.describe([&] { return strf("kind %u", k); }); std::string longname(FILENAME_MAX + s.below(10), 'a'); pt_sb_pevent_config q = d.k; pt_sb_decoder_config dc; memset(&dc, 0, sizeof(dc));
	switch (k) {
	case 0: st = pt_sb_alloc_pevent_decoder(nullptr, &d.k); break; case 1: st = pt_sb_alloc_pevent_decoder(ss, nullptr); break; case 2: q.size = s.below(sizeof(q)); st = q.size < offsetof(pt_sb_pevent_config, sample_config) ? pt_sb_alloc_pevent_decoder(ss, &q) : -pte_invalid; break; case 3: q.filename = nullptr; st = pt_sb_alloc_pevent_decoder(ss, &q); break; case 4: q.filename = "/nonexistent/file"; st = pt_sb_alloc_pevent_decoder(ss, &q); CHECK(st == -pte_bad_file, "missing file: %d", st); st = -pte_invalid; break;
	case 5: q.begin = s.range(1, 100); q.end = s.range(1, q.begin); st = pt_sb_alloc_pevent_decoder(ss, &q); break; case 6: { switch (s.below(4)) { case 0: q.sysroot = longname.c_str(); break; case 1: q.vdso_x64 = longname.c_str(); break; case 2: q.vdso_x32 = longname.c_str(); break; default: q.vdso_ia32 = longname.c_str(); } st = pt_sb_alloc_pevent_decoder(ss, &q); break; }
	case 7: st = pt_sb_event(nullptr, &im, &e, sizeof(e), nullptr, 0); break; case 8: st = pt_sb_event(ss, &im, nullptr, sizeof(e), nullptr, 0); break; case 9: st = pt_sb_dump(s.flip() ? nullptr : ss, nullptr, 0, 0); break; case 10: st = s.flip() ? pt_sb_get_context_by_pid(nullptr, ss, 1) : pt_sb_get_context_by_pid(&x, nullptr, 1); break; case 11: st = s.flip() ? pt_sb_find_context_by_pid(nullptr, ss, 1) : pt_sb_find_context_by_pid(&x, nullptr, 1); break; case 12: st = s.flip() ? pt_sb_ctx_get(nullptr) : pt_sb_ctx_put(nullptr); break; case 13: st = s.flip() ? pt_sb_alloc_decoder(nullptr, &dc) : pt_sb_alloc_decoder(ss, nullptr); break; case 14: st = s.flip() ? pt_sb_init_decoders(nullptr) : pt_sb_remove_context(ss, nullptr); break;
	default: { // the reference counter does not wrap
		if (!s.chance(1, 20)) { st = -pte_invalid; break; } int e1 = pt_sb_get_context_by_pid(&x, ss, 1); CHECK(e1 == 0, "context"); unsigned n = 0; while (n < 70000 && (e1 = pt_sb_ctx_get(x)) == 0) n++; CHECK(n < 70000 ? e1 == -pte_overflow : true, "reference: %d", e1); for (unsigned i = 0; i < n; ++i) { e1 = pt_sb_ctx_put(x); CHECK(e1 == 0, "put: %d", e1); } pt_sb_context *y = nullptr; pt_sb_find_context_by_pid(&y, ss, 1); CHECK(y == x && pt_sb_ctx_image(x), "lost the context"); st = -pte_invalid; c.label("many references"); }
	}
	CHECK(st == -pte_invalid, "kind %u: %d", k, st); CHECK(!pt_sb_iscache(nullptr) && !pt_sb_kernel_image(nullptr) && !pt_sb_ctx_image(nullptr) && !pt_sb_notify_error(nullptr, on_error, nullptr) && !pt_sb_notify_switch(nullptr, on_switch, nullptr), "missing session"); pt_sb_free(nullptr); CHECK(pt_sb_init_decoders(ss) == 0, "init"); pt_sb_notify_error(ss, on_error, &h); CHECK(pt_sb_notify_error(ss, nullptr, nullptr) == on_error && !pt_sb_notify_error(ss, nullptr, nullptr), "previous notifier"); pt_sb_notify_switch(ss, on_switch, &h); CHECK(pt_sb_notify_switch(ss, nullptr, nullptr) == on_switch, "previous notifier");
	pt_sb_free(ss); CHECK(wr::leaks().empty(), "leaks: %s", wr::leaks().c_str()); c.nontrivial(mix(k, s.bits(16)));
}

int main(int argc, char **argv)
{
	return run_main(argc, argv, "C17", {
		{"C17", "session", "one to five decoders with results of their callbacks, added at various times, events and dumps, compared with a model of the protocol; at least two records applied", session, 150000, 6000000},
		{"C17", "history", "one to four perf event channels in files, events, contexts held, removed and mapped by the user, compared with a model of processes and their images; at least three records applied", history, 80000, 3000000},
		{"C17", "damaged", "channels with changed, truncated or additional bytes; no crash, no leak, known error codes, channel accepted", damaged, 60000, 2500000},
		{"C17", "invalid", "invalid arguments", invalid, 5000, 100000},
	});
}
