// C10: the traced memory image behaves like an address-space indexed memory.
#include "ptwire.hpp"
#include <sys/mman.h>
#include <unistd.h>
#include <algorithm>
extern "C" {
#include "pt_image.h"
}
using namespace pbt;
using wire::Bytes; using wire::Buf;

static const uint64_t NO = ~0ull;
struct As { uint64_t cr3 = NO, vmcs = NO; };
static bool match(uint64_t a, uint64_t b) { return a == b || a == NO || b == NO; }
static bool match(const As &a, const As &b) { return match(a.cr3, b.cr3) && match(a.vmcs, b.vmcs); }
static std::string str(const As &a) { return (a.cr3 == NO ? std::string("-") : strf("%llx", (unsigned long long)a.cr3)) + "/" + (a.vmcs == NO ? std::string("-") : strf("%llx", (unsigned long long)a.vmcs)); }

struct File { int fd = -1, fd2 = -1; Bytes data; std::string name[2]; };
struct Piece { uint64_t begin, end; int file, name; uint64_t off; As as; int isid; };
typedef std::vector<Piece> Img;

// The bytes are one-byte instructions of 32-bit mode and the opcodes of short jumps.
static uint8_t code(Source &s)
{
	static const uint8_t a[] = {0x50, 0x51, 0x52, 0x53, 0x54, 0x55, 0x56, 0x57, 0x58, 0x59, 0x5a, 0x5b, 0x5c, 0x5d, 0x5e, 0x5f, 0x40, 0x41, 0x42, 0x43, 0x44, 0x45, 0x46, 0x47, 0x48, 0x49, 0x4a, 0x4b, 0x4c, 0x4d, 0x4e, 0x4f, 0x27, 0x2f, 0x37, 0x3f, 0x06, 0x0e, 0x16, 0x1e, 0x07, 0x17, 0x1f, 0x60, 0x61, 0x6c, 0x6d, 0x6e, 0x6f};
	switch (s.below(12)) { case 11: return 0xeb; case 10: return (uint8_t)(0x70 | s.below(16)); default: return a[s.below(sizeof(a))]; }
}

static void madd(Img &m, const Piece &n)
{
	Img r;
	for (auto &p : m) {
		if (!match(p.as, n.as) || n.end <= p.begin || p.end <= n.begin) { r.push_back(p); continue; }
		if (p.begin < n.begin) { Piece q = p; q.end = n.begin; r.push_back(q); }
		if (n.end < p.end) { Piece q = p; q.off += n.end - p.begin; q.begin = n.end; r.push_back(q); }
	}
	r.push_back(n); m = r;
}

struct World;
struct Cb { bool on = false; int err = 0; uint64_t begin = 0, end = 0; uint8_t salt = 0; const World *w = nullptr; uint64_t calls = 0; };
static uint8_t cbbyte(const Cb &c, uint64_t a, const As &as) { uint64_t h = (a * 0x9e3779b97f4a7c15ull) ^ (as.cr3 * 31) ^ (as.vmcs * 17) ^ c.salt; return (uint8_t)(0x40 | (h >> 40 & 0x1f)); }
static int readmem(uint8_t *buf, size_t size, const pt_asid *asid, uint64_t ip, void *ctx)
{
	Cb *c = (Cb *)ctx; c->calls++; if (c->err) return c->err;
	if (ip < c->begin || ip >= c->end) return -pte_nomap;
	if (c->end - ip < size) size = (size_t)(c->end - ip);
	As a; a.cr3 = asid->cr3; a.vmcs = asid->vmcs; for (size_t i = 0; i < size; ++i) buf[i] = cbbyte(*c, ip + i, a);
	return (int)size;
}

struct World {
	std::vector<File> f; Img m[2]; Cb cb[2][4]; int ncb[2] = {0, 0}; pt_image *img[2] = {nullptr, nullptr}; pt_image_section_cache *ic = nullptr;
	struct Sec { uint64_t begin, end; int file, name; uint64_t off; int isid; }; std::vector<Sec> secs;
	pt_insn_decoder *id = nullptr; pt_block_decoder *bd = nullptr;
	~World() { if (id) pt_insn_free_decoder(id); if (bd) pt_blk_free_decoder(bd); for (auto *i : img) if (i) pt_image_free(i); if (ic) pt_iscache_free(ic); for (auto &x : f) { if (x.fd >= 0) close(x.fd); if (x.fd2 >= 0) close(x.fd2); } }
	const Cb *callback(int k) const { return ncb[k] && cb[k][ncb[k] - 1].on ? &cb[k][ncb[k] - 1] : nullptr; }
	// All sections the read may see; more than one if the address-space is not fully specified.
	std::vector<const Piece *> find(int k, uint64_t a, const As &as) const { std::vector<const Piece *> r; for (auto &p : m[k]) if (a >= p.begin && a < p.end && match(p.as, as)) r.push_back(&p); return r; }
	// 1: byte, 0: nothing mapped, -1: ambiguous, -2: callback error
	int byte(int k, uint64_t a, const As &as, uint8_t *b, int *isid, const Piece **pp = nullptr) const
	{
		auto r = find(k, a, as); if (pp) *pp = nullptr; if (r.size() > 1) return -1;
		if (r.size() == 1) { *b = f[(size_t)r[0]->file].data[r[0]->off + (a - r[0]->begin)]; *isid = r[0]->isid; if (pp) *pp = r[0]; return 1; }
		const Cb *c = callback(k); *isid = 0; if (!c) return 0; if (c->err) return -2; if (a < c->begin || a >= c->end) return 0;
		*b = cbbyte(*c, a, as); return 1;
	}
};

static As gen_as(Source &s) { As a; if (s.chance(1, 2)) a.cr3 = 0x1000 * s.range(1, 2); if (s.chance(1, 3)) a.vmcs = 0x5000 + 0x1000 * s.below(2); return a; }
static pt_asid *user(Source &s, const As &a, pt_asid &u) { if (a.cr3 == NO && a.vmcs == NO && s.flip()) return nullptr; pt_asid_init(&u); u.cr3 = a.cr3; u.vmcs = a.vmcs; if (a.vmcs == NO && s.chance(1, 4)) { u.size = offsetof(pt_asid, vmcs); u.vmcs = 0xdead; if (a.cr3 == NO && s.flip()) { u.size = offsetof(pt_asid, cr3); u.cr3 = 0xbeef; } } return &u; }

static bool two(uint8_t b) { return b == 0xeb || (b & 0xf0) == 0x70; }
struct Probe { uint64_t psb, ip; As as; std::vector<bool> tnt; };

static void history(Source &s, Ctx &c)
{
	World w; unsigned nf = (unsigned)s.range(1, 3);
	for (unsigned i = 0; i < nf; ++i) {
		File f; size_t n = s.chance(1, 4) ? s.range(4000, 9000) : s.range(1, 120); Rng r(s.below(1 << 16)); (void)r;
		f.data.resize(n); if (n < 200) for (auto &b : f.data) b = code(s); else { Bytes t; for (int k = 0; k < 61; ++k) t.push_back(code(s)); for (size_t k = 0; k < n; ++k) f.data[k] = t[(k * 7 + k / 61) % 61]; }
		f.fd = memfd_create("c10", 0); CHECK(f.fd >= 0 && write(f.fd, f.data.data(), n) == (ssize_t)n, "memfd"); f.fd2 = dup(f.fd); f.name[0] = strf("/proc/self/fd/%d", f.fd); f.name[1] = strf("/proc/self/fd/%d", f.fd2);
		w.f.push_back(f);
	}
	w.img[0] = pt_image_alloc("a"); w.img[1] = pt_image_alloc(nullptr); w.ic = pt_iscache_alloc(nullptr); CHECK(w.img[0] && w.img[1] && w.ic, "alloc");
	uint64_t base = s.chance(1, 6) ? 0xfffff000 : s.chance(1, 6) ? 0 : 0x1000; unsigned span = 256;
	// The trace: one synchronization point per probe.
	unsigned np = (unsigned)s.below(6); std::vector<Probe> pr; Bytes pt;
	auto addr = [&]() { return base + s.below(span); };
	for (unsigned i = 0; i < np; ++i) {
		Probe p; p.psb = pt.size(); p.as = gen_as(s); if (s.chance(2, 3)) { if (p.as.cr3 == NO) p.as.cr3 = 0x1000; if (p.as.vmcs == NO) p.as.vmcs = 0x5000; } p.ip = addr(); pr.push_back(p);
		auto emit = [&](pt_packet k) { CHECK(wire::encode(pt, k), "encode"); }; pt_packet k; auto z = [&](int t) { memset(&k, 0, sizeof(k)); k.type = (pt_packet_type)t; };
		z(ppt_psb); emit(k); if (p.as.cr3 != NO) { z(ppt_pip); k.payload.pip.cr3 = p.as.cr3; emit(k); } if (p.as.vmcs != NO) { z(ppt_vmcs); k.payload.vmcs.base = p.as.vmcs; emit(k); }
		z(ppt_mode); k.payload.mode.leaf = pt_mol_exec; k.payload.mode.bits.exec.csd = 1; emit(k); z(ppt_fup); k.payload.ip.ipc = pt_ipc_full; k.payload.ip.ip = p.ip; emit(k); z(ppt_psbend); emit(k);
		for (unsigned n = (unsigned)s.below(4); n; --n) { z(ppt_tnt_8); k.payload.tnt.bit_size = (uint8_t)s.range(1, 6); k.payload.tnt.payload = s.bits(k.payload.tnt.bit_size); emit(k); for (unsigned b = k.payload.tnt.bit_size; b--;) pr.back().tnt.push_back(k.payload.tnt.payload >> b & 1); }
	}
	Buf buf(pt, 0); pt_config cfg = wire::mkconfig(buf.p, pt.size());
	if (np) { w.id = pt_insn_alloc_decoder(&cfg); cfg.flags.variant.block.end_on_jump = s.flip(); w.bd = pt_blk_alloc_decoder(&cfg); CHECK(w.id && w.bd, "alloc"); CHECK(!pt_insn_set_image(w.id, w.img[0]) && !pt_blk_set_image(w.bd, w.img[0]), "set_image"); }
	struct Run { bool on = false; size_t p = 0, t = 0; uint64_t ip = 0; } ri, rb;
	// Moves on behind the instruction (b, d); false if there is no trace for it.
	auto step = [&](Run &r, uint64_t &ip, size_t &t, uint8_t b, uint8_t d) { bool taken = b == 0xeb; if ((b & 0xf0) == 0x70) { auto &v = pr[r.p].tnt; if (t >= v.size()) return false; taken = v[t++]; } ip += two(b) ? 2 : 1; if (taken) ip += (uint64_t)(int64_t)(int8_t)d; return true; };
	unsigned nop = (unsigned)s.range(1, 40), adds = 0, reads = 0, hits = 0, insns = 0, over = 0; uint64_t h = 0; std::string log;
	auto note = [&](const std::string &l) { h = fnv(l.data(), l.size(), h); if (c.want_describe) c.log("%s\n", l.c_str()); };
	while (nop--) {
		int k = s.chance(1, 4) ? 1 : 0; pt_asid u; Img &m = w.m[k];
		switch (s.weighted({8, 4, 1, 1, 1, 1, 8, 3, 6, 4, 1})) {
		case 0: {	// add_file
			int fi = (int)s.below(nf), ni = (int)s.below(2); uint64_t n = w.f[(size_t)fi].data.size(), off = s.chance(1, 12) ? s.range(n, n + 10) : s.chance(1, 4) ? 0 : s.below(n), sz = s.chance(1, 8) ? n + s.below(100) : s.range(1, 100), va = addr(); As a = gen_as(s);
			if (va + sz < va) break;
			int e = pt_image_add_file(w.img[k], w.f[(size_t)fi].name[ni].c_str(), off, sz, user(s, a, u), va);
			note(strf("img%d add_file f%d.%d off %llx size %llx asid %s at %llx: %d", k, fi, ni, (unsigned long long)off, (unsigned long long)sz, str(a).c_str(), (unsigned long long)va, e));
			if (off >= n) { CHECK(e == -pte_invalid, "add_file beyond the end of the file: %d", e); break; }
			CHECK(e == 0, "add_file: %d", e); if (n - off < sz) sz = n - off;
			size_t old = m.size(); madd(m, {va, va + sz, fi, ni, off, a, 0}); adds++; if (m.size() != old + 1) over++; break;
		}
		case 1: {	// add_cached
			int isid; World::Sec q;
			if (w.secs.empty() || s.flip()) {
				int fi = (int)s.below(nf), ni = (int)s.below(2); uint64_t n = w.f[(size_t)fi].data.size(); q = {addr(), 0, fi, ni, s.below(n), 0}; uint64_t sz = s.range(1, 100);
				isid = pt_iscache_add_file(w.ic, w.f[(size_t)fi].name[ni].c_str(), q.off, sz, q.begin); CHECK(isid > 0, "iscache_add_file: %d", isid); if (n - q.off < sz) sz = n - q.off; q.end = q.begin + sz; q.isid = isid;
				bool have = false; for (auto &o : w.secs) if (o.isid == isid) { CHECK(o.begin == q.begin && o.end == q.end && o.file == fi && o.off == q.off, "isid %d denotes two sections", isid); have = true; } if (!have) w.secs.push_back(q);
			}
			q = w.secs[s.below(w.secs.size())]; isid = q.isid; As a = gen_as(s);
			if (s.chance(1, 10)) { int bad = 1000 + (int)s.below(10); if (s.flip()) bad = -bad; int e = pt_image_add_cached(w.img[k], w.ic, bad, user(s, a, u)); CHECK(e == -pte_bad_image, "add_cached of unknown isid: %d", e); break; }
			int e = pt_image_add_cached(w.img[k], w.ic, isid, user(s, a, u)); note(strf("img%d add_cached isid %d (f%d off %llx size %llx) asid %s at %llx: %d", k, isid, q.file, (unsigned long long)q.off, (unsigned long long)(q.end - q.begin), str(a).c_str(), (unsigned long long)q.begin, e)); CHECK(e == 0, "add_cached: %d", e);
			size_t old = m.size(); madd(m, {q.begin, q.end, q.file, q.name, q.off, a, isid}); adds++; if (m.size() != old + 1) over++; break;
		}
		case 2: {	// copy
			int src = s.chance(1, 5) ? k : 1 - k; int e = pt_image_copy(w.img[k], w.img[src]); note(strf("img%d copy img%d: %d", k, src, e)); CHECK(e == 0, "copy: %d", e);
			if (src != k) { Img t = w.m[src]; for (auto &p : t) madd(m, p); } break;
		}
		case 3: {	// remove by file name
			int fi = (int)s.below(nf), ni = (int)s.below(2); As a = gen_as(s); int e = pt_image_remove_by_filename(w.img[k], w.f[(size_t)fi].name[ni].c_str(), user(s, a, u)); int n = 0;
			for (size_t i = 0; i < m.size();) if (m[i].file == fi && m[i].name == ni && match(m[i].as, a)) { m.erase(m.begin() + (long)i); n++; } else i++;
			note(strf("img%d remove_by_filename f%d.%d asid %s: %d", k, fi, ni, str(a).c_str(), e)); CHECK(e == n, "remove_by_filename: got %d, expected %d", e, n); break;
		}
		case 4: {	// remove by asid
			As a = gen_as(s); int e = pt_image_remove_by_asid(w.img[k], user(s, a, u)); int n = 0;
			for (size_t i = 0; i < m.size();) if (match(m[i].as, a)) { m.erase(m.begin() + (long)i); n++; } else i++;
			note(strf("img%d remove_by_asid asid %s: %d", k, str(a).c_str(), e)); CHECK(e == n, "remove_by_asid: got %d, expected %d", e, n); break;
		}
		case 5: {	// callback
			if (w.ncb[k] >= 4) break;
			Cb &b = w.cb[k][w.ncb[k]++]; b.on = !s.chance(1, 4); b.err = s.chance(1, 6) ? (s.flip() ? -pte_bad_image : -pte_nomem) : 0; b.begin = addr(); b.end = b.begin + s.range(1, 200); b.salt = s.byte();
			int e = pt_image_set_callback(w.img[k], b.on ? readmem : nullptr, &b); note(strf("img%d set_callback %s %llx..%llx err %d", k, b.on ? "on" : "off", (unsigned long long)b.begin, (unsigned long long)b.end, b.err)); CHECK(e == 0, "set_callback: %d", e); break;
		}
		default: {	// read
			uint64_t a = addr(); As as = gen_as(s); if (s.chance(3, 4)) { if (as.cr3 == NO) as.cr3 = 0x2000; if (as.vmcs == NO) as.vmcs = 0x6000; } uint16_t sz = (uint16_t)s.range(1, s.chance(1, 4) ? 300 : 15); pt_asid ra; pt_asid_init(&ra); ra.cr3 = as.cr3; ra.vmcs = as.vmcs; bool bnd = s.flip();
			if (bnd && !m.empty()) { const Piece &p = m[s.below(m.size())]; a = s.flip() ? p.begin : p.end - 1; if (s.chance(1, 3)) a += s.flip() ? 1 : -1; }
			Buf rb2(sz, 0); memset(rb2.p, 0xa5, sz); int isid = -77; int e = pt_image_read(w.img[k], &isid, rb2.p, sz, &ra, a); reads++;
			note(strf("img%d read %u at %llx asid %s: %d isid %d %s", k, sz, (unsigned long long)a, str(as).c_str(), e, isid, e > 0 ? hex(rb2.p, (size_t)e, 20).c_str() : ""));
			auto r = w.find(k, a, as); CHECK(e <= (int)sz, "read returned %d of %u bytes", e, sz);
			for (int i = e < 0 ? 0 : e; i < (int)sz; ++i) CHECK(rb2.p[i] == 0xa5, "read of %d bytes wrote at %d", e, i);
			if (r.empty()) {
				const Cb *b = w.callback(k); int want = !b ? -pte_nomap : b->err ? b->err : a < b->begin || a >= b->end ? -pte_nomap : (int)std::min<uint64_t>(sz, b->end - a);
				CHECK(e == want, "read of unmapped memory: got %d, expected %d", e, want); if (e > 0) { CHECK(isid == 0, "callback memory has isid %d", isid); for (int i = 0; i < e; ++i) CHECK(rb2.p[i] == cbbyte(*b, a + (uint64_t)i, as), "callback byte %d", i); c.label("read by callback"); } else c.label("read unmapped");
				break;
			}
			bool ok = false; for (auto *p : r) { int n = (int)std::min<uint64_t>(sz, p->end - a); if (e == n && isid == p->isid && !memcmp(rb2.p, &w.f[(size_t)p->file].data[p->off + (a - p->begin)], (size_t)n)) ok = true; }
			{ const Piece *p = r[0]; int n = (int)std::min<uint64_t>(sz, p->end - a); CHECK(ok, "read of %u at %llx asid %s: got %d (isid %d, %s), expected %d (isid %d, %s)%s", sz, (unsigned long long)a, str(as).c_str(), e, isid, e > 0 ? hex(rb2.p, (size_t)e, 20).c_str() : "", n, p->isid, hex(&w.f[(size_t)p->file].data[p->off + (a - p->begin)], (size_t)n, 20).c_str(), r.size() > 1 ? " or another section" : ""); }
			hits++; if (r.size() > 1) c.label("read ambiguous"); break;
		}
		case 7: {	// (re)start a decoder
			if (pr.empty()) break;
			size_t p = s.below(pr.size()); bool blk = s.flip(); Run &r = blk ? rb : ri; int e = blk ? pt_blk_sync_set(w.bd, pr[p].psb) : pt_insn_sync_set(w.id, pr[p].psb); CHECK(e >= 0, "sync_set: %d", e); r.on = true; r.p = p; r.t = 0; r.ip = pr[p].ip; note(strf("%s start at %llx asid %s", blk ? "blk" : "insn", (unsigned long long)r.ip, str(pr[p].as).c_str()));
			while (e >= 0 && (e & pts_event_pending)) { pt_event ev; e = blk ? pt_blk_event(w.bd, &ev, sizeof(ev)) : pt_insn_event(w.id, &ev, sizeof(ev)); } break;
		}
		case 8: {	// a few instructions
			if (!ri.on) break;
			unsigned n = (unsigned)s.range(1, 12); const As &as = pr[ri.p].as; uint64_t stop = ri.p + 1 < pr.size() ? pr[ri.p + 1].ip : 1;
			while (n-- && ri.on) {
				if (ri.ip == stop) { ri.on = false; break; }	// the next synchronization point applies
				pt_insn in; memset(&in, 0, sizeof(in)); int e = pt_insn_next(w.id, &in, sizeof(in)); uint8_t b = 0, d = 0; int isid = 0, isid2 = 0; const Piece *p, *p2; int x = w.byte(0, ri.ip, as, &b, &isid, &p), y = 1;
				note(strf("insn at %llx: %d %s isid %d", (unsigned long long)ri.ip, e, e >= 0 ? hex(in.raw, in.size).c_str() : "", in.isid));
				if (x == -1) { ri.on = false; break; }
				if (x == 1 && two(b)) { y = w.byte(0, ri.ip + 1, as, &d, &isid2, &p2); if (y == -1) { ri.on = false; break; } }
				if (x <= 0 || y <= 0) { int want = x == 0 ? -pte_nomap : x == 1 && y == 0 ? -pte_bad_insn : 0; ri.on = false; CHECK(e < 0, "instruction at %llx in unmapped memory", (unsigned long long)ri.ip); if (want) CHECK(e == want || (x <= 0 && want == -pte_nomap && e == -pte_eos), "instruction at %llx: got %d, expected %d", (unsigned long long)ri.ip, e, want); break; }
				uint64_t nip = ri.ip; if (!step(ri, nip, ri.t, b, d)) { ri.on = false; break; }
				CHECK(e >= 0, "instruction at %llx (%02x): %d", (unsigned long long)ri.ip, b, e);
				CHECK(in.ip == ri.ip && in.size == (two(b) ? 2 : 1) && in.raw[0] == b && (!two(b) || in.raw[1] == d), "instruction at %llx: got %llx: %s, expected %02x %02x", (unsigned long long)ri.ip, (unsigned long long)in.ip, hex(in.raw, in.size).c_str(), b, d);
				CHECK(in.isid == isid, "instruction at %llx: got isid %d, expected %d", (unsigned long long)ri.ip, in.isid, isid);
				if (p && two(b)) CHECK(in.truncated == (ri.ip + 1 == p->end), "instruction at %llx: truncated %d", (unsigned long long)ri.ip, in.truncated);
				insns++; ri.ip = nip;
				while (e >= 0 && (e & pts_event_pending)) { pt_event ev; e = pt_insn_event(w.id, &ev, sizeof(ev)); }
			}
			break;
		}
		case 9: {	// a block
			if (!rb.on) break;
			const As &as = pr[rb.p].as; uint64_t stop = rb.p + 1 < pr.size() ? pr[rb.p + 1].ip : 1; if (rb.ip == stop) { rb.on = false; break; }
			pt_block b; memset(&b, 0, sizeof(b)); int e = pt_blk_next(w.bd, &b, sizeof(b)); note(strf("block at %llx: %d %u %llx..%llx isid %d", (unsigned long long)rb.ip, e, b.ninsn, (unsigned long long)b.ip, (unsigned long long)b.end_ip, b.isid));
			uint64_t ip = rb.ip, last = ip; unsigned n = b.ninsn; bool amb = false, bad = false; if (n) CHECK(b.ip == ip, "block at %llx: got %llx", (unsigned long long)ip, (unsigned long long)b.ip);
			bool trunc = false;
			for (unsigned i = 0; i < n && !amb; ++i) {
				uint8_t x = 0, d = 0; int isid = 0, i2; const Piece *p, *q; int r = w.byte(0, ip, as, &x, &isid, &p), y = 1; if (ip == stop && i) { amb = true; break; }
				if (r == -1) { amb = true; break; }
				if (r == 1 && two(x)) { y = w.byte(0, ip + 1, as, &d, &i2, &q); if (y == -1) { amb = true; break; } }
				if (r == 1 && y == 0 && e == -pte_bad_insn && i + 1 == n) { last = ip; bad = true; break; }	// the one that failed
				CHECK(r == 1 && y == 1, "block at %llx with %u instructions: instruction %u at %llx is not mapped", (unsigned long long)rb.ip, n, i, (unsigned long long)ip);
				CHECK(isid == b.isid, "block at %llx with %u instructions: isid %d: instruction %u at %llx is in section %d", (unsigned long long)rb.ip, n, b.isid, i, (unsigned long long)ip, isid);
				CHECK(!trunc, "block at %llx with %u instructions: instruction %u is truncated", (unsigned long long)rb.ip, n, i - 1); trunc = p && two(x) && ip + 1 == p->end;
				insns++; last = ip; if (!step(rb, ip, rb.t, x, d)) { amb = true; break; }
			}
			if (amb) { rb.on = false; break; }
			if (bad) { rb.on = false; CHECK(b.end_ip == last, "block at %llx with %u instructions: got end %llx, expected %llx", (unsigned long long)rb.ip, n, (unsigned long long)b.end_ip, (unsigned long long)last); c.label("blocks with a failing last instruction"); break; }
			if (n) { CHECK(b.end_ip == last, "block at %llx with %u instructions: got end %llx, expected %llx", (unsigned long long)rb.ip, n, (unsigned long long)b.end_ip, (unsigned long long)last); if (trunc || b.truncated) { const Piece *p; uint8_t x; int i1; if (w.byte(0, last, as, &x, &i1, &p) == 1 && p) CHECK(b.truncated == trunc, "block at %llx: truncated %d, expected %d", (unsigned long long)rb.ip, b.truncated, trunc); } }
			rb.ip = ip; if (e < 0) { rb.on = false; uint8_t x = 0, d = 0; int i1; int r = w.byte(0, ip, as, &x, &i1), y = 1; if (r == 1 && two(x)) y = w.byte(0, ip + 1, as, &d, &i1); bool more = (x & 0xf0) != 0x70 || rb.t < pr[rb.p].tnt.size(); CHECK(r != 1 || y != 1 || ip == stop || !more, "block at %llx: error %d at %llx, which is mapped", (unsigned long long)b.ip, e, (unsigned long long)ip); }
			while (e >= 0 && (e & pts_event_pending)) { pt_event ev; e = pt_blk_event(w.bd, &ev, sizeof(ev)); }
			break;
		}
		case 10: { uint64_t l = s.chance(1, 3) ? 0 : s.interesting(20); int e = pt_iscache_set_limit(w.ic, l); note(strf("set_limit %llx: %d", (unsigned long long)l, e)); CHECK(e == 0, "set_limit: %d", e); break; }
		}
	}
	c.label("sections added", adds); c.label("overlapping adds", over); c.label("reads", reads); c.label("reads from sections", hits); c.label("instructions", insns);
	if (adds >= 2 && hits + insns >= 1) c.nontrivial(h);
}

int main(int argc, char **argv)
{
	return run_main(argc, argv, "C10", {
		{"C10", "history", "1-40 operations on two images, a section cache and an instruction and a block decoder using the first image (add, copy, remove, callback, read, decode); at least two sections added and one read or decode that hit a section", history, 1200000, 60000000},
	});
}
