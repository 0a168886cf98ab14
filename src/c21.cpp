// C21: failures of allocations, files and mappings.
//
// library: two worlds execute the same operations.  In one of them, a resource
// fails in some of the operations.  The failing operation reports an error or
// has the same result.  If it reports an error, it is repeated, or the other
// world skips it.  Everything else must give the same results in both.
//
// The binary interface of a process is a guess based on the first ELF file that
// can be read; all kinds of processes use the same vdso so it does not matter.
//
// sideband: a session with a random history is run once for every call that may
// fail.  It gives the same results or reports an error.
#include "sbgen.hpp"
#include "simrun.hpp"
#include <threads.h>
extern "C" {
#include "pt_image_section_cache.h"
int __real_mtx_init(mtx_t *, int);
int __wrap_mtx_init(mtx_t *m, int t) { return wr::inject(wr::LOCK) ? thrd_nomem : __real_mtx_init(m, t); }
}
using namespace sim;

namespace {
typedef std::vector<std::string> Lines;
enum { o_img_alloc, o_img_free, o_add_file, o_add_cached, o_copy, o_rm_name, o_rm_asid, o_name, o_read, o_ic_add, o_ic_read, o_ic_limit, o_insn_alloc, o_blk_alloc, o_dec_free, o_set_image, o_insn, o_blk, o_packet, o_events, o_query, o_encode, o_ic_alloc, o_n };
const char *const oname[] = {"image alloc", "image free", "add_file", "add_cached", "copy", "remove_by_filename", "remove_by_asid", "names", "read", "iscache add_file", "iscache read", "iscache limit", "insn alloc", "blk alloc", "decoder free", "set_image", "insn decode", "blk decode", "packets", "events", "query", "encode", "iscache alloc"};
struct Sect { int file; uint64_t off, len, addr; pt_asid asid; };
struct Op { int k; unsigned a, b; Sect x; uint64_t v; std::string name; };
struct Res { int rc = 0; bool err = false, none = false; Lines l; };
struct Env { std::vector<std::string> file; std::vector<pt_asid> asids; std::vector<uint64_t> probes, syncs; uint8_t *pt; size_t ptn; bool ticks, call; };

struct World {
	const Env &e; pt_image *img[3] = {}; pt_image_section_cache *ic[2] = {}; std::vector<std::pair<int, Sect>> ids[2]; pt_insn_decoder *id = nullptr; pt_block_decoder *bd = nullptr; int at[2] = {-1, -1};
	explicit World(const Env &x) : e(x) {}
	~World() { clear(); }
	void clear() { if (id) pt_insn_free_decoder(id); if (bd) pt_blk_free_decoder(bd); id = nullptr; bd = nullptr; for (auto &i : img) { pt_image_free(i); i = nullptr; } for (auto &i : ic) { pt_iscache_free(i); i = nullptr; } }
	pt_config config() const { pt_config c = mkconfig(e.pt, e.ptn); return c; }
	static std::string text(const pt_insn &i) { return strf("%llx %u %d mode %d isid %d %s%s%s", (ull)i.ip, i.size, (int)i.iclass, (int)i.mode, i.isid, hex(i.raw, i.size > 15 ? 15 : i.size).c_str(), i.speculative ? " spec" : "", i.truncated ? " trunc" : ""); }

	Res run(const Op &o)
	{
		Res r; auto none = [&] { r.none = true; return r; }; auto done = [&](int rc) { r.rc = rc; r.err = rc < 0; return r; };
		switch (o.k) {
		case o_img_alloc: if (img[o.a]) return none(); img[o.a] = pt_image_alloc(o.name.empty() ? nullptr : o.name.c_str()); return done(img[o.a] ? 0 : -pte_nomem);
		case o_img_free: if (!img[o.a]) return none(); if (at[0] == (int)o.a && id) { CHECK(pt_insn_set_image(id, nullptr) == 0, "set_image"); at[0] = -1; } if (at[1] == (int)o.a && bd) { CHECK(pt_blk_set_image(bd, nullptr) == 0, "set_image"); at[1] = -1; } pt_image_free(img[o.a]); img[o.a] = nullptr; return r;
		case o_add_file: if (!img[o.a]) return none(); return done(pt_image_add_file(img[o.a], e.file[(size_t)o.x.file].c_str(), o.x.off, o.x.len, &o.x.asid, o.x.addr));
		case o_add_cached: { auto &v = ids[o.b]; if (!img[o.a] || !ic[o.b] || v.empty()) return none(); auto &y = v[o.v % v.size()]; return done(pt_image_add_cached(img[o.a], ic[o.b], y.first, &y.second.asid)); }
		case o_copy: if (!img[o.a] || !img[o.b] || o.a == o.b) return none(); done(pt_image_copy(img[o.a], img[o.b])); if (r.rc > 0) r.err = true; return r;
		case o_rm_name: if (!img[o.a]) return none(); return done(pt_image_remove_by_filename(img[o.a], e.file[(size_t)o.x.file].c_str(), &o.x.asid));
		case o_rm_asid: if (!img[o.a]) return none(); return done(pt_image_remove_by_asid(img[o.a], &o.x.asid));
		case o_name: for (auto *i : img) { const char *n = pt_image_name(i); r.l.push_back(n ? n : "(none)"); } for (auto *i : ic) { const char *n = pt_iscache_name(i); r.l.push_back(n ? n : "(none)"); } return r;
		case o_read: {
			if (!img[o.a]) return none(); uint8_t b[64];
			for (auto &a : e.asids) for (uint64_t p : e.probes) { int isid = -1; memset(b, 0x5a, sizeof(b)); size_t n = 1 + (size_t)(o.v + p) % 48; int st = pt_image_read(img[o.a], &isid, b, (uint16_t)n, &a, p); if (st < 0 && st != -pte_nomap) r.err = true, r.rc = st; r.l.push_back(strf("%llx: %d ", (ull)p, st) + (st > 0 ? strf("isid %d ", isid) + hex(b, (size_t)st) : "")); }
			return r; }
		case o_ic_alloc: if (ic[o.b]) return none(); ic[o.b] = pt_iscache_alloc(o.name.empty() ? nullptr : o.name.c_str()); return done(ic[o.b] ? 0 : -pte_nomem);
		case o_ic_add: if (!ic[o.b]) return none(); done(pt_iscache_add_file(ic[o.b], e.file[(size_t)o.x.file].c_str(), o.x.off, o.x.len, o.x.addr)); if (r.rc == 0) fail("isid 0"); if (r.rc > 0) ids[o.b].push_back({r.rc, o.x}); return r;
		case o_ic_read: { auto &v = ids[o.b]; if (!ic[o.b] || v.empty()) return none(); auto &y = v[o.v % v.size()]; uint8_t b[48]; uint64_t off = (o.v >> 8) % y.second.len; done(pt_iscache_read(ic[o.b], b, 1 + (o.v >> 32) % 48, y.first, y.second.addr + off)); if (r.rc > 0) r.l.push_back(hex(b, (size_t)r.rc)); return r; }
		case o_ic_limit: if (!ic[o.b]) return none(); return done(pt_iscache_set_limit(ic[o.b], o.v));
		case o_insn_alloc: { if (id) return none(); pt_config c = config(); c.flags.variant.insn.enable_tick_events = e.ticks; id = pt_insn_alloc_decoder(&c); at[0] = -1; return done(id ? 0 : -pte_nomem); }
		case o_blk_alloc: { if (bd) return none(); pt_config c = config(); c.flags.variant.block.end_on_call = e.call; bd = pt_blk_alloc_decoder(&c); at[1] = -1; return done(bd ? 0 : -pte_nomem); }
		case o_dec_free: if (o.b) { if (!bd) return none(); pt_blk_free_decoder(bd); bd = nullptr; } else { if (!id) return none(); pt_insn_free_decoder(id); id = nullptr; } return r;
		case o_set_image: if (!img[o.a] || (o.b ? !bd : !id)) return none(); at[o.b] = (int)o.a; return done(o.b ? pt_blk_set_image(bd, img[o.a]) : pt_insn_set_image(id, img[o.a]));
		case o_insn: {
			if (!id) return none(); int st = pt_insn_sync_set(id, e.syncs[o.v % e.syncs.size()]); size_t n = 0;
			for (;;) {
				while (st >= 0 && (st & pts_event_pending)) { pt_event ev; memset(&ev, 0, sizeof(ev)); st = pt_insn_event(id, &ev, sizeof(ev)); if (st >= 0) r.l.push_back(evtext(ev, et_time | et_resumed)); }
				if (st < 0 || ++n > 4000) break; pt_insn i; memset(&i, 0, sizeof(i)); st = pt_insn_next(id, &i, sizeof(i)); if (st >= 0) r.l.push_back(text(i));
			}
			return done(st); }
		case o_blk: {
			if (!bd) return none(); int st = pt_blk_sync_set(bd, e.syncs[o.v % e.syncs.size()]); size_t n = 0; uint64_t total = 0;
			for (;;) {
				while (st >= 0 && (st & pts_event_pending)) { pt_event ev; memset(&ev, 0, sizeof(ev)); st = pt_blk_event(bd, &ev, sizeof(ev)); if (st >= 0) r.l.push_back(strf("%llu: ", (ull)total) + evtext(ev, et_time | et_resumed)); }
				if (st < 0 || ++n > 4000) break; pt_block b; memset(&b, 0, sizeof(b)); st = pt_blk_next(bd, &b, sizeof(b)); total += b.ninsn;
			}
			r.l.push_back(strf("total %llu", (ull)total)); return done(st); }
		case o_packet: { pt_config c = config(); pt_packet_decoder *d = pt_pkt_alloc_decoder(&c); if (!d) return done(-pte_nomem); int st = pt_pkt_sync_forward(d); for (;;) { pt_packet p; memset(&p, 0, sizeof(p)); if (st >= 0) st = pt_pkt_next(d, &p, sizeof(p)); if (st < 0) break; r.l.push_back(wire::str(p)); } pt_pkt_free_decoder(d); r.l.push_back(strf("%d", st)); return r; }
		case o_events: { pt_config c = config(); pt_event_decoder *d = pt_evt_alloc_decoder(&c); if (!d) return done(-pte_nomem); int st = pt_evt_sync_forward(d); for (;;) { pt_event p; memset(&p, 0, sizeof(p)); if (st >= 0) st = pt_evt_next(d, &p, sizeof(p)); if (st < 0) break; r.l.push_back(evtext(p)); } pt_evt_free_decoder(d); r.l.push_back(strf("%d", st)); return r; }
		case o_query: { pt_config c = config(); pt_query_decoder *d = pt_qry_alloc_decoder(&c); if (!d) return done(-pte_nomem); uint64_t ip = 0; int st = pt_qry_sync_forward(d, &ip); while (st >= 0 && (st & pts_event_pending)) { pt_event p; memset(&p, 0, sizeof(p)); st = pt_qry_event(d, &p, sizeof(p)); if (st >= 0) r.l.push_back(evtext(p)); } pt_qry_free_decoder(d); r.l.push_back(strf("%d", st)); return r; }
		case o_encode: { uint8_t b[32]; memset(b, 0, sizeof(b)); pt_config c = mkconfig(b, sizeof(b)); pt_encoder *d = pt_alloc_encoder(&c); if (!d) return done(-pte_nomem); pt_packet p; memset(&p, 0, sizeof(p)); p.type = ppt_psb; p.size = sizeof(p); int st = pt_enc_next(d, &p); r.l.push_back(strf("%d ", st) + hex(b, 32)); pt_free_encoder(d); return r; }
		}
		return r;
	}
};
void same(const Op &o, const Res &a, const Res &b, const char *when)
{
	CHECK(a.rc == b.rc && a.none == b.none, "%s, %s: returns %d, expected %d", oname[o.k], when, a.rc, b.rc);
	for (size_t i = 0; i < a.l.size() || i < b.l.size(); ++i) { std::string x = i < a.l.size() ? a.l[i] : "(end)", y = i < b.l.size() ? b.l[i] : "(end)"; CHECK(x == y, "%s, %s: '%s', expected '%s'", oname[o.k], when, x.c_str(), y.c_str()); }
}
// The operation failed: what it delivered before is right.
void partial(const Op &o, const Res &a, const Res &b)
{
	if (o.k == o_read) { for (size_t i = 0; i < a.l.size(); ++i) { bool bad = a.l[i].find(": -") != std::string::npos; CHECK(bad || a.l[i] == b.l[i], "%s with a failure: '%s', expected '%s'", oname[o.k], a.l[i].c_str(), b.l[i].c_str()); } return; }
	if (o.k != o_insn && o.k != o_blk) return;
	CHECK(a.rc != -pte_eos || b.rc == -pte_eos, "%s: the trace ends", oname[o.k]);
	for (size_t i = 0; i + (o.k == o_blk) < a.l.size(); ++i) CHECK(i < b.l.size() && a.l[i] == b.l[i], "%s with a failure: '%s', expected '%s'", oname[o.k], a.l[i].c_str(), i < b.l.size() ? b.l[i].c_str() : "(end)");
	if (o.k == o_blk) CHECK(strtoull(a.l.back().c_str() + 6, nullptr, 10) <= strtoull(b.l.back().c_str() + 6, nullptr, 10), "%s with a failure: %s, expected %s", oname[o.k], a.l.back().c_str(), b.l.back().c_str());
}
bool atomic_op(int k) { return k == o_img_alloc || k == o_ic_alloc || k == o_add_file || k == o_add_cached || k == o_ic_add || k == o_insn_alloc || k == o_blk_alloc || k == o_set_image || k == o_ic_read || k == o_ic_limit; }

void library(Source &s, Ctx &c)
{
	Program p(s); p.generate(); p.layout(false, false); Sim m(s, p); m.retcomp = s.flip(); m.t.timing = s.flip(); m.run(s.range(2, 40)); Buf buf(m.t.out, 0);
	Env e; e.pt = buf.p; e.ptn = m.t.out.size(); e.ticks = s.chance(1, 4); e.call = s.flip(); for (auto &x : m.starts) e.syncs.push_back(x.pos); if (e.syncs.empty()) e.syncs.push_back(0);
	int fd2 = dup(p.fd); e.file = {strf("/proc/self/fd/%d", p.fd), strf("/proc/self/fd/%d", fd2)}; struct Fd { int f; ~Fd() { ::close(f); } } fg{fd2};
	std::vector<Sect> base; for (auto &q : p.pieces) { Region &g = p.r[(size_t)q.region]; base.push_back({0, q.fileoff, q.len, g.base + q.off, p.asid_of(g)}); for (uint64_t a : {g.base + q.off, g.base + q.off + q.len - 1, g.base + q.off + q.len / 2}) e.probes.push_back(a); if (e.probes.size() > 30) e.probes.resize(30); }
	if (base.empty()) throw Discard{}; uint64_t fsize = (uint64_t)lseek(p.fd, 0, SEEK_END);
	for (int i = 1; i <= 2; ++i) { pt_asid a; pt_asid_init(&a); a.cr3 = p.cr3[i]; a.vmcs = p.vmcs[i]; e.asids.push_back(a); }
	auto sect = [&] { Sect x = s.pick(base); x.file = (int)s.below(2); if (s.chance(1, 3)) { uint64_t d = s.below(x.len); x.addr += d; x.len -= d; x.off += d; if (s.flip()) x.len = s.range(1, x.len); if (s.chance(1, 4)) x.off = s.below(fsize - x.len + 1); } return x; };
	std::vector<Op> ops; auto op = [&](int k) -> Op & { Op o; o.k = k; o.a = (unsigned)s.below(s.chance(1, 3) ? 3 : 1); o.b = (unsigned)s.below(s.chance(1, 3) ? 2 : 1); o.x = sect(); o.v = s.bits(40); if (s.flip()) o.name = std::string((size_t)s.range(1, 20), 'n'); if (k == o_set_image || k == o_dec_free) o.b = (unsigned)s.below(2); ops.push_back(o); return ops.back(); };
	op(o_img_alloc).a = 0; if (s.flip()) op(o_ic_alloc).b = 0; bool cached = s.flip() && ops.size() > 1; if (s.chance(7, 8)) for (size_t i = 0; i < base.size() && i < 12; ++i) { if (cached) { Op &o = op(o_ic_add); o.b = 0; o.x = base[i]; Op &o2 = op(o_add_cached); o2.a = 0; o2.b = 0; o2.v = i; } else { Op &o = op(o_add_file); o.a = 0; o.x = base[i]; } }
	if (s.flip()) { op(o_insn_alloc); Op &o = op(o_set_image); o.a = 0; o.b = 0; } if (s.flip()) { op(o_blk_alloc); Op &o = op(o_set_image); o.a = 0; o.b = 1; }
	for (size_t n = s.range(1, 25); n; --n) { Op &o = op((int)s.weighted({1, 1, 4, 4, 2, 1, 1, 1, 5, 4, 4, 3, 1, 1, 1, 2, 5, 5, 1, 1, 1, 1, 1})); if (o.k == o_ic_limit) o.v = s.chance(1, 3) ? 0 : s.interesting(20); }
	// Where to fail.
	struct Inj { unsigned mask; uint64_t n; bool all, skip; }; std::vector<Inj> inj; static const unsigned masks[] = {wr::ALL, wr::HEAP, wr::MAP, wr::MAP | wr::FD | wr::STREAM | wr::IO, wr::STREAM | wr::IO, wr::FD | wr::IO, wr::LOCK, wr::HEAP | wr::MAP};
	for (size_t i = 0; i < ops.size(); ++i) { Inj j{0, 0, false, false}; if (s.chance(1, 3)) j = {masks[s.below(8)], s.range(1, s.chance(1, 4) ? 40 : 6), s.chance(1, 4), s.flip()}; inj.push_back(j); }
	c.describe([&] { std::string x = p.str() + "packets:\n" + m.packets(); for (size_t i = 0; i < ops.size(); ++i) { auto &o = ops[i]; x += strf("%s a=%u b=%u v=%llx name '%s' file %d %llx+%llx@%llx cr3 %llx vmcs %llx", oname[o.k], o.a, o.b, (ull)o.v, o.name.c_str(), o.x.file, (ull)o.x.off, (ull)o.x.len, (ull)o.x.addr, (ull)o.x.asid.cr3, (ull)o.x.asid.vmcs); if (inj[i].mask) x += strf(" FAIL %x %llu%s%s", inj[i].mask, (ull)inj[i].n, inj[i].all ? "+" : "", inj[i].skip ? " skip" : ""); x += "\n"; } return x; });
	wr::Guard g; unsigned errs = 0, degraded = 0; uint64_t h = 0;
	{
		World A(e), B(e);
		for (size_t i = 0; i < ops.size(); ++i) {
			const Op &o = ops[i]; if (inj[i].mask) wr::fail(inj[i].mask, inj[i].n, inj[i].all); Res a = A.run(o); uint64_t nf = inj[i].mask ? wr::failed() : 0; wr::fail(0, 0);
			if (!nf) { Res b = B.run(o); same(o, a, b, "without a failure"); continue; }
			h = mix(h, (uint64_t)o.k * 64 + inj[i].n);
			if (o.k == o_read) a.err = true;
			if (!a.err) { degraded++; c.label(strf("degraded: %s", oname[o.k]).c_str()); Res b = B.run(o); same(o, a, b, "not reporting a failure"); continue; }
			errs++; c.label(strf("error: %s", oname[o.k]).c_str()); if (inj[i].skip && atomic_op(o.k)) continue;
			Res b = B.run(o); partial(o, a, b); a = A.run(o); same(o, a, b, "repeated after a failure");
		}
		Op o; o.k = o_read; o.b = 0; o.v = 7; for (o.a = 0; o.a < 3; ++o.a) { Res a = A.run(o), b = B.run(o); same(o, a, b, "at the end"); } o.k = o_insn; o.v = 0; Res a = A.run(o), b = B.run(o); same(o, a, b, "at the end");
	}
	CHECK(wr::leaks().empty(), "leaks: %s", wr::leaks().c_str());
	if (errs + degraded) c.nontrivial(h);
}

// --- sideband ---
struct SbRun { std::string text, img; int err = 0; std::multiset<std::string> errors; };
struct Rec1 { SbRun *r; };
int sb_error(int code, const char *file, uint64_t off, void *p) { SbRun &r = *((Rec1 *)p)->r; std::string n = strf("notify %d %s %llx\n", code, file ? file : "", (ull)off); if (code < 0) r.errors.insert(n); r.img += n; return 0; }
int sb_switch(const pt_sb_context *, void *p) { ((Rec1 *)p)->r->img += "switch\n"; return 0; }
struct SbEv { pt_event ev; bool dump; uint32_t flags; uint64_t at; bool print; };

SbRun sb_run(Hist &h, const std::vector<SbEv> &es, bool cached, bool pids)
{
	SbRun r; Rec1 rr{&r}; auto note = [&](int e) { if (e < 0 && !r.err) r.err = e; return e; };
	pt_image_section_cache *ic = cached ? pt_iscache_alloc("sb") : nullptr; if (cached && !ic) note(-pte_nomem);
	pt_sb_session *ss = pt_sb_alloc(ic); if (!ss) { note(-pte_nomem); pt_iscache_free(ic); return r; }
	pt_sb_notify_error(ss, sb_error, &rr); pt_sb_notify_switch(ss, sb_switch, &rr); pt_image *ki = pt_sb_kernel_image(ss); for (auto &m : h.kernel) note(pt_image_add_file(ki, pool()[(size_t)m.file].name.c_str(), m.off, m.size, nullptr, m.addr));
	for (auto &d : h.ds) note(pt_sb_alloc_pevent_decoder(ss, &d->k)); note(pt_sb_init_decoders(ss));
	pt_image *user = pt_image_alloc("user"), *im = user; if (!user) note(-pte_nomem); char *text = nullptr; size_t tl = 0; FILE *f = open_memstream(&text, &tl); CHECK(f, "memstream");
	for (auto &e : es) {
		if (!im) break; if (e.dump) { note(pt_sb_dump(ss, f, e.flags, e.ev.tsc)); continue; }
		note(pt_sb_event(ss, &im, &e.ev, sizeof(e.ev), e.print ? f : nullptr, e.flags)); uint8_t b[16]; pt_asid as; pt_asid_init(&as);
		for (uint64_t a : {e.at, h.kstart + 0x1000, h.kstart + 0x1ff8}) { int isid = 0; int st = pt_image_read(im, &isid, b, 16, &as, a); r.img += strf("%llx: %d ", (ull)a, st) + (st > 0 ? hex(b, (size_t)st) : "") + "\n"; if (st < 0 && st != -pte_nomap) note(st); }
		if (pids) { pt_sb_context *x = nullptr; int st = pt_sb_get_context_by_pid(&x, ss, 1 + (uint32_t)(e.at >> 11) % 4); note(st); if (st == 0 && x) { pt_image *xi = pt_sb_ctx_image(x); int isid = 0; st = pt_image_read(xi, &isid, b, 16, &as, e.at); r.img += strf("ctx %d ", st) + (st > 0 ? hex(b, (size_t)st) : "") + "\n"; if (st < 0 && st != -pte_nomap) note(st); } }
	}
	fclose(f); r.text.assign(text ? text : "", tl); free(text); pt_sb_free(ss); pt_image_free(user); pt_iscache_free(ic); return r;
}
void sideband(Source &s, Ctx &c)
{
	pool(); Hist h; h.kstart = s.flip() ? 0x20000 : 0xffff800000000000ull; size_t nd = s.range(1, 2); if (s.flip()) h.kernel.push_back({0, 0, 0x2000, h.kstart});
	for (size_t i = 0; i < nd; ++i) { auto d = std::make_unique<PDec>(); d->id = (int)i; d->fd = -1; d->begin = 0; d->primary = i == 0; d->late = false; make_channel(s, h, *d, nd, false); d->k.vdso_x64 = d->k.vdso_x32 = d->k.vdso_ia32 = pool()[f_vdso].name.c_str(); h.ds.push_back(std::move(d)); }
	std::vector<SbEv> es; uint64_t tsc = 7000, ip, from; bool noip; size_t ne = s.range(1, 6); for (size_t i = 0; i < ne; ++i) { SbEv e; tsc += s.below(1500); if (i + 1 == ne) tsc = UINT64_MAX; e.ev = gen_event(s, h, tsc, ip, from, noip); e.dump = s.chance(1, 10); e.flags = (uint32_t)s.below(32) & ~2u; e.at = 0x10000 + 0x800 * s.below(40); e.print = s.chance(1, 3); es.push_back(e); }
	bool cached = s.flip(), pids = s.chance(1, 4); static const unsigned masks[] = {wr::ALL, wr::HEAP, wr::MAP, wr::MAP | wr::STREAM | wr::IO, wr::LOCK, wr::HEAP | wr::STREAM | wr::FD | wr::IO}; unsigned mask = masks[s.weighted({4, 3, 1, 1, 1, 2})]; bool all = s.chance(1, 4);
	c.describe([&] { std::string x; for (auto &d : h.ds) { x += strf("channel %d%s\n", d->id, d->primary ? " primary" : ""); for (auto &q : d->rs) x += "  " + pstr(q) + "\n"; } return x; });
	wr::start(); wr::fail(mask, 0); SbRun good = sb_run(h, es, cached, pids); uint64_t n = wr::calls(); wr::fail(0, 0); CHECK(wr::leaks().empty(), "leaks: %s", wr::leaks().c_str()); wr::stop();
	uint64_t step = n > 60 ? n / 60 + 1 : 1, first = step > 1 ? s.range(1, step) : 1, hits = 0, degraded = 0;
	for (uint64_t k = first; k <= n; k += step) {
		wr::Guard g; wr::fail(mask, k, all); SbRun r = sb_run(h, es, cached, pids); uint64_t nf = wr::failed(); wr::fail(0, 0); CHECK(wr::leaks().empty(), "failing call %llu of %x: leaks: %s", (ull)k, mask, wr::leaks().c_str()); hits += nf > 0;
		if (r.err < 0 || !std::includes(good.errors.begin(), good.errors.end(), r.errors.begin(), r.errors.end())) continue; degraded += nf > 0;
		CHECK(r.img == good.img && r.text == good.text, "failing call %llu%s of kinds %x is not reported: got\n%s%sexpected\n%s%s", (ull)k, all ? " on" : "", mask, r.img.c_str(), r.text.c_str(), good.img.c_str(), good.text.c_str());
	}
	{ wr::Guard g; SbRun r = sb_run(h, es, cached, pids); CHECK(r.img == good.img && r.text == good.text, "different results afterwards"); CHECK(wr::leaks().empty(), "leaks: %s", wr::leaks().c_str()); }
	if (hits > 3) c.nontrivial(mix(n, fnv(h.ds[0]->bytes.data(), h.ds[0]->bytes.size(), mask))); c.label("failures", hits); c.label("degraded", degraded);
}
} // namespace

int main(int argc, char **argv)
{
	return run_main(argc, argv, "C21", {
		{"C21", "library", "two worlds, 2-60 operations on images, section caches and decoders, resources fail in one of them; at least one failure", library, 60000, 3000000},
		{"C21", "sideband", "a history of records and events repeated with every call failing once; at least four failures", sideband, 10000, 500000},
	});
}
