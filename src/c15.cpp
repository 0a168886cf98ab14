// C15: output structures of any size; optional and invalid arguments.
#include "simrun.hpp"
#include <functional>
#include <unistd.h>
#include <sys/mman.h>
extern "C" {
#include "pt_image.h"
#include "pt_asid.h"
}
using namespace sim;
using wire::gen_packet;

enum { l_pkt, l_evt, l_qry, l_insn, l_blk };
static const char *lname[] = {"packet", "event", "query", "insn", "block"};

struct Dec {
	int l; pt_packet_decoder *p = nullptr; pt_event_decoder *e = nullptr; pt_query_decoder *q = nullptr; pt_insn_decoder *i = nullptr; pt_block_decoder *b = nullptr;
	Dec(int layer, const pt_config *c) : l(layer) { if (l == l_pkt) p = pt_pkt_alloc_decoder(c); if (l == l_evt) e = pt_evt_alloc_decoder(c); if (l == l_qry) q = pt_qry_alloc_decoder(c); if (l == l_insn) i = pt_insn_alloc_decoder(c); if (l == l_blk) b = pt_blk_alloc_decoder(c); CHECK(p || e || q || i || b, "alloc"); }
	Dec(const Dec &) = delete;
	~Dec() { pt_pkt_free_decoder(p); pt_evt_free_decoder(e); pt_qry_free_decoder(q); pt_insn_free_decoder(i); pt_blk_free_decoder(b); }
	pt_image *image() { return i ? pt_insn_get_image(i) : b ? pt_blk_get_image(b) : nullptr; }
	int fwd(uint64_t *ip) { return p ? pt_pkt_sync_forward(p) : e ? pt_evt_sync_forward(e) : q ? pt_qry_sync_forward(q, ip) : i ? pt_insn_sync_forward(i) : pt_blk_sync_forward(b); }
	int bwd(uint64_t *ip) { return p ? pt_pkt_sync_backward(p) : e ? pt_evt_sync_backward(e) : q ? pt_qry_sync_backward(q, ip) : i ? pt_insn_sync_backward(i) : pt_blk_sync_backward(b); }
	int set(uint64_t *ip, uint64_t o) { return p ? pt_pkt_sync_set(p, o) : e ? pt_evt_sync_set(e, o) : q ? pt_qry_sync_set(q, ip, o) : i ? pt_insn_sync_set(i, o) : pt_blk_sync_set(b, o); }
	int off(uint64_t *o) { return p ? pt_pkt_get_offset(p, o) : e ? pt_evt_get_offset(e, o) : q ? pt_qry_get_offset(q, o) : i ? pt_insn_get_offset(i, o) : pt_blk_get_offset(b, o); }
	int soff(uint64_t *o) { return p ? pt_pkt_get_sync_offset(p, o) : e ? pt_evt_get_sync_offset(e, o) : q ? pt_qry_get_sync_offset(q, o) : i ? pt_insn_get_sync_offset(i, o) : pt_blk_get_sync_offset(b, o); }
	int time(uint64_t *t, uint32_t *m, uint32_t *c) { return q ? pt_qry_time(q, t, m, c) : i ? pt_insn_time(i, t, m, c) : b ? pt_blk_time(b, t, m, c) : 0; }
	int cbr(uint32_t *r) { return q ? pt_qry_core_bus_ratio(q, r) : i ? pt_insn_core_bus_ratio(i, r) : b ? pt_blk_core_bus_ratio(b, r) : 0; }
	int asid(void *a, size_t n) { return i ? pt_insn_asid(i, (pt_asid *)a, n) : b ? pt_blk_asid(b, (pt_asid *)a, n) : 0; }
	int next(void *o, size_t n) { return p ? pt_pkt_next(p, (pt_packet *)o, n) : e ? pt_evt_next(e, (pt_event *)o, n) : i ? pt_insn_next(i, (pt_insn *)o, n) : b ? pt_blk_next(b, (pt_block *)o, n) : pt_qry_event(q, (pt_event *)o, n); }
	int event(void *o, size_t n) { return q ? pt_qry_event(q, (pt_event *)o, n) : i ? pt_insn_event(i, (pt_event *)o, n) : pt_blk_event(b, (pt_event *)o, n); }
	size_t itemsize() const { return p ? sizeof(pt_packet) : e || q ? sizeof(pt_event) : i ? sizeof(pt_insn) : sizeof(pt_block); }
};

// What can be observed without changing anything.
struct View {
	int rc[5]; uint64_t off = 0, soff = 0, time = 0; uint32_t mtc = 0, cyc = 0, cbr = 0; pt_asid asid;
	View(Dec &d) { memset(&asid, 0, sizeof(asid)); rc[0] = d.off(&off); rc[1] = d.soff(&soff); rc[2] = d.time(&time, &mtc, &cyc); rc[3] = d.cbr(&cbr); rc[4] = d.asid(&asid, sizeof(asid)); if (rc[0] < 0) off = 0; if (rc[1] < 0) soff = 0; if (rc[2] < 0) { time = 0; mtc = cyc = 0; } if (rc[3] < 0) cbr = 0; }
	std::string str() const { return strf("offset %d %llx sync %d %llx time %d %llx/%u/%u cbr %d %u asid %d %llx %llx", rc[0], (unsigned long long)off, rc[1], (unsigned long long)soff, rc[2], (unsigned long long)time, mtc, cyc, rc[3], cbr, rc[4], (unsigned long long)asid.cr3, (unsigned long long)asid.vmcs); }
};
static void same(Dec &a, Dec &b, const char *what, size_t step) { std::string x = View(a).str(), y = View(b).str(); CHECK(x == y, "%s decoder, step %zu, %s: state '%s', expected '%s'", lname[a.l], step, what, y.c_str(), x.c_str()); }

// An invalid call.  Nothing may change.
static void invalid(Source &s, Dec &d, size_t step)
{
	union { pt_packet p; pt_event e; pt_insn i; pt_block b; uint8_t raw[512]; } o; memset(&o, 0x5a, sizeof(o)); uint64_t u = 42; uint32_t v = 42; int k = 42, st = -pte_invalid; pt_asid as; as.size = sizeof(as); unsigned which = (unsigned)s.below(13);
	switch (which) {
	case 0: st = d.off(nullptr); break;
	case 1: st = d.soff(nullptr); break;
	case 2: st = d.next(nullptr, d.itemsize()); break;
	case 3: st = d.q || d.i || d.b ? d.event(nullptr, sizeof(pt_event)) : st; break;
	case 4: st = d.q || d.i || d.b ? d.time(nullptr, &v, nullptr) : st; break;
	case 5: st = d.q || d.i || d.b ? d.cbr(nullptr) : st; break;
	case 6: st = d.i || d.b ? d.asid(nullptr, sizeof(as)) : st; break;
	case 7: st = d.i || d.b ? d.asid(&as, s.below(sizeof(as.size))) : st; CHECK(as.size == sizeof(as), "asid changed"); break;
	case 8: st = d.q ? pt_qry_cond_branch(d.q, nullptr) : st; break;
	case 9: st = d.q ? pt_qry_indirect_branch(d.q, nullptr) : st; break;
	case 10: st = d.q ? pt_qry_event(d.q, &o.e, s.below(offsetof(pt_event, variant))) : st; break;
	case 11: { // no decoder
		switch (d.l) {
#define ALL(pre) st = pt_##pre##_sync_forward ARGF; CHECK(st == -pte_invalid, #pre "_sync_forward: %d", st); st = pt_##pre##_sync_backward ARGF; CHECK(st == -pte_invalid, #pre "_sync_backward: %d", st); st = pt_##pre##_sync_set ARGS; CHECK(st == -pte_invalid, #pre "_sync_set: %d", st); st = pt_##pre##_get_offset(nullptr, &u); CHECK(st == -pte_invalid, #pre "_get_offset: %d", st); st = pt_##pre##_get_sync_offset(nullptr, &u); CHECK(st == -pte_invalid, #pre "_get_sync_offset: %d", st); CHECK(!pt_##pre##_get_config(nullptr), #pre "_get_config");
#define ARGF (nullptr)
#define ARGS (nullptr, 0)
		case l_pkt: ALL(pkt) st = pt_pkt_next(nullptr, &o.p, sizeof(o.p)); break;
		case l_evt: ALL(evt) st = pt_evt_next(nullptr, &o.e, sizeof(o.e)); break;
		case l_insn: ALL(insn) CHECK(pt_insn_next(nullptr, &o.i, sizeof(o.i)) == -pte_invalid && pt_insn_event(nullptr, &o.e, sizeof(o.e)) == -pte_invalid && pt_insn_time(nullptr, &u, &v, &v) == -pte_invalid && pt_insn_core_bus_ratio(nullptr, &v) == -pte_invalid && pt_insn_asid(nullptr, &as, sizeof(as)) == -pte_invalid && !pt_insn_get_image(nullptr), "no insn decoder"); st = pt_insn_set_image(nullptr, d.image()); break;
		case l_blk: ALL(blk) CHECK(pt_blk_next(nullptr, &o.b, sizeof(o.b)) == -pte_invalid && pt_blk_event(nullptr, &o.e, sizeof(o.e)) == -pte_invalid && pt_blk_time(nullptr, &u, &v, &v) == -pte_invalid && pt_blk_core_bus_ratio(nullptr, &v) == -pte_invalid && pt_blk_asid(nullptr, &as, sizeof(as)) == -pte_invalid && !pt_blk_get_image(nullptr), "no block decoder"); st = pt_blk_set_image(nullptr, d.image()); break;
#undef ARGF
#undef ARGS
#define ARGF (nullptr, &u)
#define ARGS (nullptr, &u, 0)
		default: ALL(qry) CHECK(pt_qry_cond_branch(nullptr, &k) == -pte_invalid && pt_qry_indirect_branch(nullptr, &u) == -pte_invalid && pt_qry_time(nullptr, &u, &v, &v) == -pte_invalid && pt_qry_core_bus_ratio(nullptr, &v) == -pte_invalid, "no query decoder"); st = pt_qry_event(nullptr, &o.e, sizeof(o.e)); break;
		} break; }
	default: break;
	}
	CHECK(st == -pte_invalid, "%s decoder, step %zu: invalid call %u: %d", lname[d.l], step, which, st);
	for (uint8_t x : o.raw) CHECK(x == 0x5a, "%s decoder, step %zu: invalid call %u writes", lname[d.l], step, which); CHECK(u == 42 && v == 42 && k == 42, "%s decoder, step %zu: invalid call %u writes", lname[d.l], step, which);
}

static size_t gen_size(Source &s, size_t full, size_t min)
{
	size_t n; switch (s.below(6)) { case 0: n = full; break; case 1: n = full + s.range(1, 64); break; case 2: n = full + 8 * s.range(1, 40); break; case 3: n = full - s.range(1, 16); break; default: n = s.below(full + 1); }
	return n < min ? min : n;
}

// A shared block cache changes how the block decoder splits blocks: not used there.
static void twins(Source &s, Ctx &c)
{
	int l = (int)s.below(5); Program p(s); bool sim = l >= l_insn || s.flip(); Bytes out; if (sim) { p.generate(); p.layout(s.chance(1, 4), l != l_blk && s.flip()); }
	Sim m(s, p); m.t.iflags = s.chance(1, 3); m.t.timing = !s.chance(1, 4);
	if (sim) { m.retcomp = !s.chance(1, 3); m.run(s.range(4, 60)); out = m.t.out; }
	else { size_t n = s.range(2, 60); for (size_t i = 0; i < n; ++i) { pt_packet k = i == 0 || s.chance(1, 12) ? gen_packet(s, true, ppt_psb) : gen_packet(s, true); if (!wire::encode(out, k)) s.byte(); } }
	unsigned damage = s.chance(1, 3) ? (unsigned)s.range(1, 3) : 0; for (unsigned i = 0; i < damage && !out.empty(); ++i) { size_t at = s.below(out.size()); if (s.flip()) out[at] = s.byte(); else out.erase(out.begin() + (long)at, out.begin() + (long)std::min(out.size(), at + s.range(1, 4))); }
	Buf buf(out, (unsigned)s.below(8)); pt_config cfg = mkconfig(buf.p, out.size());
	if (l == l_insn) { cfg.flags.variant.insn.enable_tick_events = s.flip(); cfg.flags.variant.insn.enable_iflags_events = m.t.iflags; } if (l == l_blk) { cfg.flags.variant.block.enable_tick_events = s.flip(); cfg.flags.variant.block.enable_iflags_events = m.t.iflags; cfg.flags.variant.block.end_on_call = s.flip(); cfg.flags.variant.block.end_on_jump = s.flip(); }
	Dec a(l, &cfg), a1(l, &cfg), b(l, &cfg); if (l >= l_insn) for (Dec *d : {&a, &a1, &b}) p.fill(d->image());
	size_t calls = 0, odd = 0, inv = 0, items = 0; int st = -pte_nosync; uint64_t h = 0; std::string trail; size_t steps = s.range(10, 120); unsigned stuck = 0;
	c.describe([&] { return strf("%s decoder; ", lname[l]) + trail + (sim ? p.str() : "") + hex(out.data(), out.size()); });
	uint8_t o0[512], o1[512];
	for (size_t step = 0; step < steps; ++step) {
		if (s.chance(1, 4)) { invalid(s, b, step); inv++; same(a, b, "after an invalid call", step); }
		// Reading the state with any size and without optional arguments.
		if (s.chance(1, 6) && l >= l_qry) {
			uint64_t t0 = 0, t1 = 0; uint32_t m0 = 0, m1 = 0, y0 = 0, y1 = 0; bool nm = s.flip(), ny = s.flip(); int x = a.time(&t0, &m0, &y0), y = b.time(&t1, nm ? nullptr : &m1, ny ? nullptr : &y1);
			CHECK(x == y && t0 == t1 && (nm || m0 == m1) && (ny || y0 == y1), "time: %d %llx %u %u, expected %d %llx %u %u", y, (unsigned long long)t1, m1, y1, x, (unsigned long long)t0, m0, y0);
			if (l >= l_insn) { size_t n = s.range(8, 64); uint8_t *as = (uint8_t *)malloc(n); memset(as, 0x77, n); pt_asid f; memset(&f, 0, sizeof(f)); x = a.asid(&f, sizeof(f)); y = b.asid(as, n); CHECK(x == 0 && y == 0, "asid: %d %d", x, y); size_t w = 0; memcpy(&w, as, sizeof(w)); CHECK(w == std::min(n, sizeof(f)), "asid of %zu bytes: size %zu", n, w); for (size_t i = 8; i < n; ++i) CHECK(i < sizeof(f) ? as[i] == ((uint8_t *)&f)[i] : as[i] == 0x77 || as[i] == 0, "asid of %zu bytes: byte %zu is %x", n, i, as[i]); free(as); }
		}
		unsigned op; if (st < 0 && l != l_pkt && l != l_evt && l != l_qry) op = s.chance(1, 6) ? (unsigned)s.below(4) : 0; else if (st < 0) op = s.flip() ? 2 : 0; else if (l >= l_qry && (st & pts_event_pending)) op = s.chance(1, 12) ? 2 : 3; else op = s.chance(1, 25) ? (unsigned)s.below(4) : 2;
		if (op == 1 && s.flip()) op = 4;
		if (l < l_qry && op == 3) op = 2; if (st < 0 && op == 0 && stuck > 3) { if (trail.size() > 4000) break; op = 4; }
		calls++;
		if (op == 0 || op == 1 || op == 4) {
			uint64_t i0 = 7, i1 = 7, i2 = 7; bool noip = l == l_qry && s.flip(); uint64_t o = op == 4 ? s.below(out.size() + 2) : 0; if (op == 4 && s.flip()) o = 0;
			auto f = [&](Dec &d, uint64_t *ip) { return op == 0 ? d.fwd(ip) : op == 1 ? d.bwd(ip) : d.set(ip, o); };
			st = f(a, &i0); int s1 = f(a1, &i1), s2 = f(b, noip ? nullptr : &i2); trail += strf("sync%u %d; ", op, st);
			CHECK(st == s1, "synchronizing twice: %d and %d", st, s1); CHECK(st == s2 && (noip || i2 == i0), "%s decoder, step %zu: synchronizing%s: %d %llx, expected %d %llx", lname[l], step, noip ? " without ip" : "", s2, (unsigned long long)i2, st, (unsigned long long)i0); if (st < 0) stuck++; else stuck = 0;
		} else if (l == l_qry && (op == 2 || s.chance(1, 20))) {
			bool cond = s.flip(); int k0 = 5, k1 = 5; uint64_t i0 = 5, i1 = 5; int s2;
			auto f = [&](Dec &d, int *k, uint64_t *ip) { return cond ? pt_qry_cond_branch(d.q, k) : pt_qry_indirect_branch(d.q, ip); };
			st = f(a, &k0, &i0); (void)f(a1, &k1, &i1); k1 = 5; i1 = 5; s2 = f(b, &k1, &i1); trail += strf("%s %d; ", cond ? "cond" : "ind", st); CHECK(st == s2 && k0 == k1 && i0 == i1, "query: %d, expected %d", s2, st); if (st >= 0) items++;
			if (st == -pte_bad_query) { st = s.flip() ? pts_event_pending : 0; if (++stuck > 12) st = -1; } else if (st >= 0) stuck = 0;
		} else {
			bool ev = op == 3; size_t full = ev ? sizeof(pt_event) : a.itemsize(), n = gen_size(s, full, l == l_qry ? offsetof(pt_event, variant) : 0);
			auto f = [&](Dec &d, void *o, size_t sz) { return ev ? d.event(o, sz) : d.next(o, sz); };
			memset(o0, 0, sizeof(o0)); memset(o1, 0xff, sizeof(o1)); st = f(a, o0, full); int s1 = f(a1, o1, full); if (s1 != st && l == l_blk && !ev) { pt_block x, y; memcpy(&x, o0, sizeof x); memcpy(&y, o1, sizeof y); fail("block %llx-%llx %u / %llx-%llx %u: %d %d", (unsigned long long)x.ip, (unsigned long long)x.end_ip, x.ninsn, (unsigned long long)y.ip, (unsigned long long)y.end_ip, y.ninsn, st, s1); } CHECK(s1 == st, "the same call twice: %d and %d (%s, %s)", st, s1, lname[l], trail.c_str());
			for (size_t i = full; i < sizeof(o0); ++i) CHECK(!o0[i] && o1[i] == 0xff, "%s decoder: writes behind the object", lname[l]);
			uint8_t fill = s.byte(); uint8_t *o2 = (uint8_t *)malloc(n ? n : 1); memset(o2, fill, n ? n : 1); int s2 = f(b, n ? o2 : o2, n); trail += strf("%s(%zu) %d; ", ev ? "event" : "next", n, st);
			if (s2 == -pte_invalid && st != s2 && n < full) { // Refusing an object that is too small is fine.
				for (size_t i = 0; i < n; ++i) CHECK(o2[i] == fill, "%s decoder: writes although it fails", lname[l]); free(o2); n = full; o2 = (uint8_t *)malloc(n); memset(o2, fill, n); s2 = f(b, o2, n); c.label("too small"); }
			CHECK(s2 == st, "%s decoder, step %zu: %s with %zu of %zu bytes: %d, expected %d", lname[l], step, ev ? "event" : "next", n, full, s2, st);
			for (size_t i = 0; i < n && i < full; ++i) { uint8_t w = (uint8_t)~(o0[i] ^ o1[i]); if (st < 0 && l != l_insn && l != l_blk) break; CHECK((o2[i] & w) == (o0[i] & w), "%s decoder, step %zu: %s with %zu of %zu bytes: %d, byte %zu is %02x, expected %02x (mask %02x)", lname[l], step, ev ? "event" : "next", n, full, st, i, o2[i], o0[i], w); }
			bool zero = st >= 0 && !(ev || l == l_qry); for (size_t i = full; i < n; ++i) CHECK(o2[i] == 0 || (!zero && o2[i] == fill), "%s decoder, step %zu: %s with %zu of %zu bytes: %d, additional byte %zu is %02x", lname[l], step, ev ? "event" : "next", n, full, st, i, o2[i]);
			free(o2); if (n != full) odd++; if (st >= 0) items++; h = mix(h, n); if (st < 0) stuck++; else stuck = 0;
			if (ev && st < 0) st = st == -pte_bad_query && s.flip() ? 0 : st;
		}
		same(a, b, "after a call", step);
	}
	c.label(strf("%s decoder", lname[l]).c_str()); c.label("calls", calls); c.label("odd sizes", odd); c.label("invalid calls", inv); if (items >= 3 && odd >= 1 && inv >= 1) c.nontrivial(mix(h, fnv(out.data(), out.size())));
}

// --- images, caches, encoders ---
struct File { int fd; std::string name; Bytes data; ~File() { if (fd >= 0) close(fd); } };
static void objects(Source &s, Ctx &c)
{
	File fs[2]; for (auto &f : fs) { f.fd = memfd_create("c15", MFD_CLOEXEC); CHECK(f.fd >= 0, "memfd"); f.name = strf("/proc/self/fd/%d", f.fd); size_t n = s.range(1, 64); for (size_t i = 0; i < n; ++i) f.data.push_back(s.byte()); CHECK(write(f.fd, f.data.data(), n) == (ssize_t)n, "write"); }
	bool named = s.flip(); struct Img { pt_image *i; ~Img() { pt_image_free(i); } } a{pt_image_alloc("a")}, b{pt_image_alloc(named ? "b" : nullptr)}; struct Isc { pt_image_section_cache *i; ~Isc() { pt_iscache_free(i); } } ic{pt_iscache_alloc(named ? "c" : nullptr)};
	CHECK(a.i && b.i && ic.i, "alloc"); CHECK(named ? !strcmp(pt_image_name(b.i), "b") && !strcmp(pt_iscache_name(ic.i), "c") : !pt_image_name(b.i) && !pt_iscache_name(ic.i), "name"); CHECK(!pt_image_name(nullptr) && !pt_iscache_name(nullptr), "no object");
	int isids[2]; for (int k = 0; k < 2; ++k) { isids[k] = pt_iscache_add_file(ic.i, fs[k].name.c_str(), 0, fs[k].data.size(), 0x1000); CHECK(isids[k] > 0, "iscache_add_file: %d", isids[k]); }
	size_t inv = 0, ops = 0, odd = 0; std::string trail; c.describe([&] { return trail; }); uint64_t h = 0;
	auto check = [&](const char *what) {
		for (unsigned k = 0; k < 4; ++k) { pt_asid as; pt_asid_init(&as); if (k & 1) as.cr3 = 0x1000; if (k & 2) as.vmcs = 0x2000; for (uint64_t va = 0x1000 - 2; va < 0x1000 + 96; va += 5) { uint8_t x[16], y[16]; memset(x, 0, 16); memset(y, 0, 16); int i0 = -1, i1 = -1, r0 = pt_image_read(a.i, &i0, x, 5, &as, va), r1 = pt_image_read(b.i, &i1, y, 5, &as, va); CHECK(r0 == r1 && (r0 < 0 || (i0 == i1 && !memcmp(x, y, (size_t)r0))), "%s: reading %llx: %d isid %d, expected %d isid %d", what, (unsigned long long)va, r1, i1, r0, i0); } }
	};
	for (size_t n = s.range(1, 12); n--;) {
		if (s.flip()) {
			unsigned w = (unsigned)s.below(16); int st = -pte_invalid; pt_asid as; pt_asid_init(&as); const char *f = fs[0].name.c_str(); size_t len = fs[0].data.size(); uint8_t bf[8];
			switch (w) {
			case 0: st = pt_image_add_file(nullptr, f, 0, 4, &as, 0x1000); break; case 1: st = pt_image_add_file(b.i, nullptr, 0, 4, &as, 0x1000); break;
			case 2: st = pt_image_add_cached(nullptr, ic.i, isids[0], &as); break; case 3: st = pt_image_add_cached(b.i, nullptr, isids[0], &as); break;
			case 4: st = pt_image_copy(nullptr, a.i); break; case 5: st = pt_image_copy(b.i, nullptr); break;
			case 6: st = pt_image_remove_by_filename(nullptr, f, &as); break; case 7: st = pt_image_remove_by_filename(b.i, nullptr, &as); break;
			case 8: st = pt_image_remove_by_asid(nullptr, &as); break; case 9: st = pt_image_set_callback(nullptr, nullptr, nullptr); break;
			case 10: st = pt_iscache_add_file(nullptr, f, 0, 4, 0x1000); break; case 11: st = pt_iscache_add_file(ic.i, nullptr, 0, 4, 0x1000); break;
			case 12: st = pt_iscache_read(nullptr, bf, 4, isids[0], 0x1000); break; case 13: st = pt_iscache_read(ic.i, nullptr, 4, isids[0], 0x1000); break; case 14: st = pt_iscache_read(ic.i, bf, 0, isids[0], 0x1000); break;
			default: st = pt_iscache_set_limit(nullptr, 42); break;
			}
			trail += strf("invalid %u; ", w); CHECK(st == -pte_invalid, "invalid call %u: %d", w, st); inv++; check("after an invalid call");
			// Sections that cannot be had.
			st = pt_image_add_file(b.i, "/nonexistent/file", 0, 4, &as, 0x1000); CHECK(st < 0, "missing file: %d", st); st = pt_image_add_file(b.i, f, len + s.below(3), 4, &as, 0x1000); CHECK(st < 0, "offset behind the end of the file: %d", st); st = pt_image_add_cached(b.i, ic.i, s.flip() ? 0 : 1000, &as); CHECK(st < 0, "bad isid: %d", st); st = pt_iscache_add_file(ic.i, f, len + s.below(3), 4, 0x1000); CHECK(st < 0, "iscache: offset behind the end of the file: %d", st); check("after a failed call");
		} else {
			// An address-space identifier of any size.
			static const size_t sizes[] = {0, 8, 16, 24, 32, 48, 80}; size_t z = sizes[s.below(7)]; bool none = s.chance(1, 5); uint8_t *raw = (uint8_t *)malloc(std::max<size_t>(z, 8)); memset(raw, 0x3c, std::max<size_t>(z, 8)); uint64_t cr3 = s.flip() ? 0x1000 : pt_asid_no_cr3, vm = s.flip() ? 0x2000 : pt_asid_no_vmcs; memcpy(raw, &z, 8); if (z >= 16) memcpy(raw + 8, &cr3, 8); if (z >= 24) memcpy(raw + 16, &vm, 8);
			pt_asid f; pt_asid_init(&f); if (!none) { if (z >= 16) f.cr3 = cr3; if (z >= 24) f.vmcs = vm; } const pt_asid *ub = none ? nullptr : (pt_asid *)raw; int x, y; File &file = fs[s.below(2)]; uint64_t o = s.below(file.data.size()), len = s.range(1, 70), va = 0x1000 + s.below(80); unsigned op = (unsigned)s.weighted({4, 2, 1, 1}); const char *nm = file.name.c_str(); int id = isids[&file - fs];
			switch (op) {
			case 0: x = pt_image_add_file(a.i, nm, o, len, &f, va); y = pt_image_add_file(b.i, nm, o, len, ub, va); break;
			case 1: x = pt_image_add_cached(a.i, ic.i, id, &f); y = pt_image_add_cached(b.i, ic.i, id, ub); break;
			case 2: x = pt_image_remove_by_filename(a.i, nm, &f); y = pt_image_remove_by_filename(b.i, nm, ub); break;
			default: x = pt_image_remove_by_asid(a.i, &f); y = pt_image_remove_by_asid(b.i, ub); break;
			}
			trail += strf("op %u asid %zd cr3 %llx vmcs %llx: %d; ", op, none ? -1 : (ssize_t)z, (unsigned long long)f.cr3, (unsigned long long)f.vmcs, x); CHECK(x == y, "operation %u with an asid of %zu bytes: %d, expected %d", op, z, y, x); CHECK(none || raw[8 - 1] == 0, "asid changed"); free(raw); ops++; if (z != 24 || none) odd++; check("after an operation"); h = mix(h, op * 1000 + z);
		}
	}
	// Missing objects are ignored.
	pt_image_free(nullptr); pt_iscache_free(nullptr); pt_free_encoder(nullptr); pt_pkt_free_decoder(nullptr); pt_evt_free_decoder(nullptr); pt_qry_free_decoder(nullptr); pt_insn_free_decoder(nullptr); pt_blk_free_decoder(nullptr);
	int code = (int)s.interesting(32); const char *e = pt_errstr((pt_error_code)code); CHECK(e && *e && strlen(e) < 200, "error text of %d", code);
	// The encoder.
	{ uint8_t mem[64]; memset(mem, 0xcc, sizeof(mem)); pt_config cfg = mkconfig(mem + 8, 48); pt_encoder *en = pt_alloc_encoder(&cfg); CHECK(en, "alloc"); uint64_t o = s.below(50), g = 77; int st = pt_enc_sync_set(en, o); CHECK(st == (o <= 48 ? 0 : -pte_eos), "enc_sync_set(%llu): %d", (unsigned long long)o, st); uint64_t at = o <= 48 ? o : 0;
	  CHECK(pt_enc_sync_set(nullptr, 0) == -pte_invalid && pt_enc_get_offset(nullptr, &g) == -pte_invalid && pt_enc_get_offset(en, nullptr) == -pte_invalid && !pt_enc_get_config(nullptr) && pt_enc_next(en, nullptr) == -pte_invalid && g == 77, "invalid encoder calls"); pt_packet k = gen_packet(s, true); CHECK(pt_enc_next(nullptr, &k) == -pte_invalid, "no encoder");
	  CHECK(pt_enc_get_offset(en, &g) == 0 && g == at, "encoder at %llu, expected %llu", (unsigned long long)g, (unsigned long long)at); for (uint8_t x : mem) CHECK(x == 0xcc, "buffer changed"); pt_free_encoder(en); }
	c.label("invalid calls", inv); c.label("odd sizes", odd); if (inv && odd) c.nontrivial(mix(h, inv));
}

int main(int argc, char **argv)
{
	return run_main(argc, argv, "C15", {
		{"C15", "twins", "two decoders of the same kind and a third one that is given output objects of random sizes, no optional arguments and invalid calls in between, on simulated, random or damaged trace; at least three items, one odd size and one invalid call", twins, 60000, 2000000},
		{"C15", "objects", "image operations with address-space identifiers of random sizes and invalid calls in between, compared with another image; encoder; at least one odd size and one invalid call", objects, 40000, 1500000},
	});
}
