// A processor that executes small generated programs and traces itself:
// the reference model for the instruction flow and block layers.
//
// The model keeps a log of what a decoder has to deliver: every instruction in
// execution order and every event at the place the documentation assigns to it.
// Events that do not carry an IP belong to the earliest place a decoder can know
// about them: right after the last instruction that needed trace or the last
// event ("ready").
#pragma once
#include "evgen.hpp"
#include <sys/mman.h>
#include <unistd.h>
#include <map>

namespace sim {
using namespace trc;

enum Kind { k_other, k_ptwrite, k_movcr3, k_vmptrld, k_jcc, k_jmp, k_call, k_jmpi, k_calli, k_ret, k_far, k_jmpabs };
enum { f_iret = 1, f_vmentry = 2, f_uiret = 4 };
struct Ins {
	uint64_t ip = 0; uint8_t size = 0; uint8_t raw[15] = {0}; pt_insn_class cls = ptic_other; Kind k = k_other; unsigned flags = 0; uint64_t target = 0; unsigned rel = 0; int region = 0;
	bool consumes() const { return k == k_jcc || k == k_jmpi || k == k_calli || k == k_ret || k == k_far || k == k_jmpabs; }
	uint64_t end() const { return ip + size; }
};
struct Region { pt_exec_mode mode; uint64_t base; int cr = 0, vm = 0; bool traced = true, mapped = true; std::vector<Ins> ins; Bytes code; uint64_t size() const { return code.size(); } };
struct Piece { int region; uint64_t off, len; int isid = 0; bool callback = false; uint64_t fileoff = 0; };

inline Mode modeof(pt_exec_mode m) { return m == ptem_64bit ? Mode{1, 0, 0} : m == ptem_32bit ? Mode{0, 1, 0} : Mode{0, 0, 0}; }
inline const char *modename(pt_exec_mode m) { return m == ptem_64bit ? "64" : m == ptem_32bit ? "32" : m == ptem_16bit ? "16" : "?"; }

struct Program {
	Source &s; std::vector<Region> r; std::vector<Piece> pieces; uint64_t cr3[3] = {0, 0x1000, 0x2000}, vmcs[3] = {0, 0x5000, 0x6000}; bool multi = false; int fd = -1; pt_image_section_cache *iscache = nullptr;
	explicit Program(Source &src) : s(src) {}
	~Program() { if (fd >= 0) close(fd); if (iscache) pt_iscache_free(iscache); }

	Ins mk(std::initializer_list<int> b, Kind k, pt_insn_class c, unsigned rel = 0, unsigned imm = 0, unsigned flags = 0)
	{
		Ins i; i.k = k; i.cls = c; i.rel = rel; i.flags = flags;
		for (int x : b) i.raw[i.size++] = (uint8_t)x;
		for (unsigned n = 0; n < imm; ++n) i.raw[i.size++] = s.byte();
		i.size = (uint8_t)(i.size + rel);
		return i;
	}
	Ins other(pt_exec_mode m)
	{
		auto o = [&](std::initializer_list<int> b, unsigned imm = 0) { return mk(b, k_other, ptic_other, 0, imm); };
		switch (s.below(6)) { case 0: return o({0x90}); case 1: return o({0xb0}, 1); case 2: return o({0x89, 0xc0}); case 3: return o({0x0f, 0xa2}); case 4: return o({0xf3, 0xa4}); default: break; }
		if (m == ptem_64bit) switch (s.below(9)) {
		case 0: return o({0x0f, 0x1f, 0x00}); case 1: return o({0x0f, 0x1f, 0x40}, 1); case 2: return o({0x66, 0x0f, 0x1f, 0x84, 0x00}, 4); case 3: return o({0x48, 0xb8}, 8); case 4: return o({0xb8}, 4);
		case 5: return o({0x48, 0x8b, 0x05}, 4); case 6: return o({0x48, 0xc7, 0x84, 0x24}, 8); case 7: return o({0x66, 0x0f, 0x3a, 0x0f, 0xc1}, 1); default: return o({0x41, 0x57}); }
		if (m == ptem_32bit) switch (s.below(6)) { case 0: return o({0x40}); case 1: return o({0xb8}, 4); case 2: return o({0xa1}, 4); case 3: return o({0x66, 0xb8}, 2); case 4: return o({0x8b, 0x44, 0x24}, 1); default: return o({0x8b, 0x05}, 4); }
		switch (s.below(6)) { case 0: return o({0x40}); case 1: return o({0xb8}, 2); case 2: return o({0xa1}, 2); case 3: return o({0x8b, 0x46}, 1); case 4: return o({0x8b, 0x06}, 2); default: return o({0x66, 0xb8}, 4); }
	}
	Ins jcc(pt_exec_mode m)
	{
		switch (s.below(3)) { case 0: return mk({0x70 + (int)s.below(16)}, k_jcc, ptic_cond_jump, 1); case 1: return mk({0x0f, 0x80 + (int)s.below(16)}, k_jcc, ptic_cond_jump, m == ptem_16bit ? 2 : 4); default: return mk({0xe0 + (int)s.below(4)}, k_jcc, ptic_cond_jump, 1); }
	}
	Ins far(pt_exec_mode m)
	{
		auto f = [&](std::initializer_list<int> b, pt_insn_class c, unsigned flags = 0, unsigned imm = 0) { return mk(b, k_far, c, 0, imm, flags); };
		if (errata && s.chance(1, 3)) return f({0x0f, 0x01, (int)(s.flip() ? 0xc2 : 0xc3)}, ptic_far_return, f_vmentry);
		switch (s.below(12)) {
		case 0: return f({0xcc}, ptic_far_call); case 1: return f({0xcd}, ptic_far_call, 0, 1); case 2: return f({0xcf}, ptic_far_return, f_iret); case 3: return f({0xcb}, ptic_far_return); case 4: return f({0xca}, ptic_far_return, 0, 2);
		case 5: return f({0xff, 0x18}, ptic_far_call); case 6: return f({0xff, 0x28}, ptic_far_jump); case 7: return f({0x0f, 0x01, 0xc2}, ptic_far_return, f_vmentry); case 8: return f({0x0f, 0x01, 0xc3}, ptic_far_return, f_vmentry); case 9: return f({0x0f, 0x01, 0xc1}, ptic_far_call); case 10: return f({0xf1}, ptic_far_call); default: break; }
		if (m == ptem_64bit) switch (s.below(8)) { case 0: return f({0x0f, 0x05}, ptic_far_call); case 1: return f({0x48, 0x0f, 0x07}, ptic_far_return, f_iret); case 2: return f({0x0f, 0x34}, ptic_far_call); case 3: return f({0x0f, 0x35}, ptic_far_return, f_iret); case 4: return f({0x48, 0xcf}, ptic_far_return, f_iret);
			case 5: return f({0xf3, 0x0f, 0x01, 0xec}, ptic_far_return, f_uiret); case 6: return f({0xf2, 0x0f, 0x01, 0xca}, ptic_far_return, f_iret); default: return f({0xf3, 0x0f, 0x01, 0xca}, ptic_far_return, f_iret); }
		switch (s.below(4)) { case 0: return f({0x9a}, ptic_far_call, 0, m == ptem_16bit ? 4 : 6); case 1: return f({0xea}, ptic_far_jump, 0, m == ptem_16bit ? 4 : 6); case 2: return f({0xce}, ptic_far_call); default: return f({0x0f, 0x34}, ptic_far_call); }
	}
	Ins indirect(pt_exec_mode m)
	{
		switch (s.below(m == ptem_64bit ? 6 : 5)) {
		case 0: return mk({0xc3}, k_ret, ptic_return); case 1: return mk({0xff, 0xe0}, k_jmpi, ptic_jump); case 2: return mk({0xff, 0xd0}, k_calli, ptic_call); case 3: return mk({0xc2}, k_ret, ptic_return, 0, 2); 
		case 4: if (m == ptem_16bit) return mk({0xff, 0x16}, k_calli, ptic_call, 0, 2); return mk({0xff, 0x25}, k_jmpi, ptic_jump, 0, 4);
		default: return mk({0xd5, 0x00, 0xa1}, k_jmpabs, ptic_jump, 0, 8); }
	}
	// Redundant segment override prefixes make any instruction long.
	void prefix(Ins &i)
	{
		if (i.k == k_jmpabs || i.size >= 15) return;
		static const uint8_t seg[] = {0x2e, 0x3e, 0x64, 0x65, 0x26, 0x36}; unsigned n = (unsigned)s.range(1, 15u - i.size); uint8_t b = seg[s.below(6)];
		memmove(i.raw + n, i.raw, i.size); memset(i.raw, b, n); i.size = (uint8_t)(i.size + n);
	}
	Ins gen(pt_exec_mode m, const Region &rg)
	{
		unsigned rel = m == ptem_16bit ? 2 : 4;
		switch (s.weighted({10, 4, 3, 3, 2, 2, 1, 1, 1})) {
		case 0: return other(m); case 1: return jcc(m);
		case 2: return s.flip() ? mk({0xe8}, k_call, ptic_call, rel) : mk({0xe8}, k_call, ptic_call, rel);
		case 3: return s.flip() ? mk({0xeb}, k_jmp, ptic_jump, 1) : mk({0xe9}, k_jmp, ptic_jump, rel);
		case 4: return indirect(m); case 5: return mk({0xc3}, k_ret, ptic_return); case 6: return far(m);
		case 7: if (m == ptem_64bit && s.flip()) return mk({0xf3, 0x48, 0x0f, 0xae, 0xe0}, k_ptwrite, ptic_ptwrite); return mk({0xf3, 0x0f, 0xae, 0xe0}, k_ptwrite, ptic_ptwrite);
		default: if (rg.cr == 0 && s.flip()) return mk({0x0f, 0x22, 0xd8}, k_movcr3, ptic_other); if (rg.vm == 0) return m == ptem_16bit ? mk({0x0f, 0xc7, 0x36}, k_vmptrld, ptic_other, 0, 2) : mk({0x0f, 0xc7, 0x30}, k_vmptrld, ptic_other); return other(m); }
	}
	bool overlap_ok(const Region &a, const Region &b) { return (a.cr && b.cr && a.cr != b.cr) || (a.vm && b.vm && a.vm != b.vm); }
	Ins *at(Region &g, uint64_t ip)
	{
		size_t lo = 0, hi = g.ins.size();
		while (lo < hi) { size_t m = (lo + hi) / 2; if (g.ins[m].ip < ip) lo = m + 1; else hi = m; }
		return lo < g.ins.size() && g.ins[lo].ip == ip ? &g.ins[lo] : nullptr;
	}
	bool errata = false;   // more of what processor errata affect
	void generate(bool allow_multi = true, size_t maxins = 40, bool bulk = false)
	{
		unsigned n = (unsigned)s.range(1, 5); multi = allow_multi && n > 1 && s.chance(1, 3); bool modes = s.chance(1, 3); pt_exec_mode dm = modes ? (pt_exec_mode)s.below(3) : ptem_unknown; (void)dm;
		static const pt_exec_mode ms[3] = {ptem_64bit, ptem_32bit, ptem_16bit};
		uint64_t cl64 = s.pick(std::vector<uint64_t>{0x400000, 0xffffffff81000000ull, 0x7ff012340000ull});
		pt_exec_mode m0 = ms[s.weighted({6, 2, bulk ? 0u : 1u})];
		for (unsigned i = 0; i < n; ++i) {
			Region g; g.mode = modes && i ? ms[s.below(bulk ? 2 : 3)] : m0; g.traced = i == 0 || !s.chance(1, errata ? 2 : 5);
			if (multi && i) { g.cr = (int)s.below(3); g.vm = s.chance(1, 3) ? (int)s.below(3) : 0; }
			uint64_t lo = g.mode == ptem_64bit ? cl64 : g.mode == ptem_32bit ? 0x08048000 : 0x1000;
			g.base = lo + i * (bulk ? 0x1000000 : 0x1000) + s.below(0x700);
			// The same addresses in another address space.
			if ((g.cr || g.vm) && g.traced) for (auto &o : r) if (o.traced && o.mode == g.mode && overlap_ok(o, g) && s.chance(2, 3)) { bool ok = true; for (auto &q : r) if (q.base / 0x1000 == o.base / 0x1000 && q.mode == o.mode && !overlap_ok(q, g)) ok = false; if (ok) { g.base = o.base; break; } }
			size_t k = s.range(2, maxins); uint64_t ip = g.base;
			for (size_t j = 0; j < k; ++j) {
				Ins x = j + 1 == k ? (s.chance(1, 4) ? far(g.mode) : indirect(g.mode)) : gen(g.mode, g);
				if (s.chance(1, 10)) prefix(x);
				x.ip = ip; x.region = (int)i; ip += x.size; g.ins.push_back(x);
				if (bulk && j + 1 < k && s.chance(1, 4)) {
					static const size_t len[] = {100, 300, 1100, 3000, 20000, 66000, 140000}; Ins y = s.flip() ? mk({0x90}, k_other, ptic_other) : mk({0x89, 0xc0}, k_other, ptic_other);
					size_t most = 7, w = s.below(most); if (w >= 5) w = s.below(most); size_t n = s.flip() ? 250 + s.below(12) : s.range(1, len[w]); y.region = (int)i;
					for (; n; --n) { y.ip = ip; ip += y.size; g.ins.push_back(y); }
				}
			}
			r.push_back(g);
		}
		// Branch targets.
		for (auto &g : r) for (size_t j = 0; j < g.ins.size(); ++j) {
			Ins &x = g.ins[j];
			if (x.rel) {
				bool fwd = x.k != k_jcc; int64_t lim = x.rel == 1 ? 127 : x.rel == 2 ? 32000 : 0x7fffffff; std::vector<uint64_t> c;
				for (auto &o : r) { if (o.mode != g.mode || (o.cr && o.cr != g.cr) || (o.vm && o.vm != g.vm)) continue; if (&o != &g && x.rel == 1) continue;
					for (auto &y : o.ins) { int64_t d = (int64_t)(y.ip - x.end()); if (d < -lim || d > lim) continue; if (fwd && y.ip < x.end()) continue; if (&o != &g && ((bulk && y.k == k_other) || !s.chance(1, errata ? 3 : 16))) continue; c.push_back(y.ip); } }
				if (c.empty()) c.push_back(x.end());
				x.target = (fwd && s.chance(1, 6)) ? x.end() : s.pick(c); 
				uint64_t d = x.target - x.end(); for (unsigned b = 0; b < x.rel; ++b) x.raw[x.size - x.rel + b] = (uint8_t)(d >> (8 * b));
			} else if (x.k == k_jmpabs) {
				std::vector<uint64_t> c; for (auto &o : r) if (o.mode == g.mode && (!o.cr || o.cr == g.cr) && (!o.vm || o.vm == g.vm)) for (auto &y : o.ins) c.push_back(y.ip);
				x.target = s.pick(c); for (unsigned b = 0; b < 8; ++b) x.raw[3 + b] = (uint8_t)(x.target >> (8 * b));
			}
		}
		for (auto &g : r) { for (auto &x : g.ins) g.code.insert(g.code.end(), x.raw, x.raw + x.size); }
	}
	// Split the code into sections.
	void layout(bool callback, bool cached)
	{
		Bytes file;
		for (size_t i = 0; i < r.size(); ++i) {
			Region &g = r[i]; g.mapped = g.traced || !s.chance(1, 4); if (!g.mapped) continue;
			uint64_t off = 0;
			while (off < g.size()) {
				Piece p; p.region = (int)i; p.off = off; p.len = s.chance(1, 2) ? g.size() - off : s.range(1, g.size() - off); p.callback = callback && s.chance(1, 2);
				for (unsigned k = (unsigned)s.below(20); k; --k) file.push_back(0xcc);
				p.fileoff = file.size(); file.insert(file.end(), g.code.begin() + (long)off, g.code.begin() + (long)(off + p.len)); off += p.len;
				pieces.push_back(p);
			}
		}
		file.push_back(0xcc);
		fd = memfd_create("sim", 0); CHECK(fd >= 0, "memfd_create"); CHECK(write(fd, file.data(), file.size()) == (ssize_t)file.size(), "write");
		std::string name = strf("/proc/self/fd/%d", fd);
		if (cached) { iscache = pt_iscache_alloc("sim"); CHECK(iscache, "iscache"); for (auto &p : pieces) if (!p.callback) { p.isid = pt_iscache_add_file(iscache, name.c_str(), p.fileoff, p.len, r[(size_t)p.region].base + p.off); CHECK(p.isid > 0, "pt_iscache_add_file: %d", p.isid); } }
	}
	pt_asid asid_of(const Region &g) { pt_asid a; pt_asid_init(&a); if (g.cr) a.cr3 = cr3[g.cr]; if (g.vm) a.vmcs = vmcs[g.vm]; return a; }
	void fill(pt_image *img)
	{
		std::string name = strf("/proc/self/fd/%d", fd);
		for (auto &p : pieces) {
			if (p.callback) continue;
			Region &g = r[(size_t)p.region]; pt_asid a = asid_of(g); int e;
			if (iscache) e = pt_image_add_cached(img, iscache, p.isid, &a); else e = pt_image_add_file(img, name.c_str(), p.fileoff, p.len, &a, g.base + p.off);
			CHECK(e == 0, "adding a section to the image: %d", e);
		}
		int e = pt_image_set_callback(img, readmem, this); CHECK(e == 0, "set_callback");
	}
	static int readmem(uint8_t *buf, size_t size, const pt_asid *asid, uint64_t ip, void *ctx)
	{
		Program *p = (Program *)ctx; size_t n = 0;
		while (n < size) {
			bool hit = false;
			for (auto &q : p->pieces) { if (!q.callback) continue; Region &g = p->r[(size_t)q.region]; uint64_t b = g.base + q.off; if (ip + n < b || ip + n >= b + q.len) continue;
				if (g.cr && (asid->cr3 != p->cr3[g.cr])) continue; if (g.vm && (asid->vmcs != p->vmcs[g.vm])) continue;
				buf[n] = g.code[ip + n - g.base]; ++n; hit = true; break; }
			if (!hit) break;
		}
		return n ? (int)n : -pte_nomap;
	}
	// What the decoder reports about where it read an instruction from.
	void where(const Region &g, const Ins &i, int *isid, bool *trunc)
	{
		*isid = 0; *trunc = false;
		for (auto &p : pieces) { if (&r[(size_t)p.region] != &g) continue; uint64_t b = g.base + p.off; if (i.ip >= b && i.ip < b + p.len) { *isid = p.isid; *trunc = i.end() > b + p.len; } }
		// The callback provides adjacent pieces in one go.
		if (*trunc) for (auto &p : pieces) { if (&r[(size_t)p.region] != &g || !p.callback) continue; uint64_t b = g.base + p.off; if (i.ip >= b && i.ip < b + p.len) { uint64_t e = b + p.len; for (auto &q : pieces) if (&r[(size_t)q.region] == &g && q.callback && g.base + q.off == e) e += q.len; *trunc = i.end() > e; } }
	}
	std::string str()
	{
		std::string o;
		for (auto &g : r) { o += strf("region mode %s at %llx cr%d vm%d%s%s:\n", modename(g.mode), (unsigned long long)g.base, g.cr, g.vm, g.traced ? "" : " untraced", g.mapped ? "" : " unmapped");
			for (auto &i : g.ins) { o += strf("  %llx k%d ", (unsigned long long)i.ip, i.k); for (unsigned b = 0; b < i.size; ++b) o += strf("%02x", i.raw[b]); if (i.target) o += strf(" -> %llx", (unsigned long long)i.target); o += "\n"; } }
		for (auto &p : pieces) o += strf("piece r%d +%llx..+%llx isid %d%s\n", p.region, (unsigned long long)p.off, (unsigned long long)(p.off + p.len), p.isid, p.callback ? " callback" : "");
		return o;
	}
};

struct Entry { bool isev = false; const Ins *ins = nullptr; pt_exec_mode mode = ptem_unknown; bool spec = false; bool cons = false, tnt = false; int ht = 0; uint64_t t = 0; size_t bound = 0; pt_event ev; };   // bound: number of events bound to the instruction that precede its trace
struct Start { std::vector<Entry> hdr; size_t log; bool enabled; size_t pos, ev; };   // what a decoder sees that synchronizes onto a PSB: hdr, then the log from index log

struct Stop { size_t must, end, nstarts; int err; const Ins *ins; };   // the trace breaks off: at least must, at most end entries

struct Sim {
	std::vector<Stop> stops;
	Tracer t; EvGen g; Source &s; Program &p; std::vector<Entry> log; std::vector<Start> starts;
	size_t ready = 0; std::vector<size_t> pend; std::vector<bool> bits; struct Dtip { size_t idx; uint64_t ip; }; std::vector<Dtip> dtips;
	size_t drained = 0; bool retcomp = true, defer = false, evtracing = true, asyncs = true, psbs = true, ovfs = true, trigs = true, events = true, standalones = true, disables = true, fullhdr = false, corruption = false; unsigned psbw = 3;
	// machine state; what the decoder knows
	bool enabled = false; uint64_t ip = 0; bool bulk = false; Region *rg = nullptr; pt_exec_mode dmode = ptem_unknown; bool spec = false; uint64_t ccr3 = 0, cvmcs = 0; bool haspip = false; uint64_t resume = 0; std::vector<uint64_t> stack; int64_t icnt = -1; bool iflag = false;
	size_t nins = 0, nev = 0; const Ins *stop = nullptr; int enderr = -pte_eos;
	bool er_skl014 = false, er_skd022 = false, er_bdm64 = false; unsigned er_hits[3] = {0, 0, 0};   // processor errata
	bool trigfix = false; size_t hdrmark = 0; std::vector<Entry> *rec = nullptr;

	Sim(Source &src, Program &pr) : t(src), g(t), s(src), p(pr) { ccr3 = p.cr3[1]; cvmcs = p.vmcs[1]; }

	// --- the log ---
	void endins(const Ins *i, bool cons) { Entry e; e.ins = i; e.mode = dmode; e.spec = spec; e.cons = cons; log.push_back(e); nins++; if (icnt >= 0) icnt++; }
	static bool imprecise(const pt_event &e)
	{
		switch (e.type) {
		case ptev_enabled: case ptev_overflow: case ptev_stop: case ptev_pwre: case ptev_pwrx: case ptev_cbr: case ptev_mnt: case ptev_rsm: case ptev_sipi: return true;
		case ptev_disabled: return e.status_update;
		case ptev_async_branch: case ptev_async_disabled: case ptev_paging: case ptev_vmcs: case ptev_ptwrite: case ptev_iret: case ptev_vmentry: case ptev_uiret: return false;
		default: return e.ip_suppressed;
		}
	}
	void place(pt_event e)
	{
		if (trigfix && e.type == ptev_trig) { e.variant.trig.icnt = 0; e.variant.trig.ip = ip; }
		if (e.type == ptev_overflow) log.resize(ready);
		if (e.type == ptev_enabled && !e.status_update) e.variant.enabled.resumed = e.variant.enabled.ip == resume;
		size_t pos = enabled && imprecise(e) ? ready : log.size();
		Entry x; x.isev = true; x.ev = e; log.insert(log.begin() + (long)pos, x); ready = pos + 1; nev++;
		if (rec) rec->push_back(x);
		switch (e.type) {
		case ptev_enabled: if (!e.status_update) { enabled = true; icnt = 0; } else if (rec) enabled = true; break;
		case ptev_disabled: case ptev_async_disabled: enabled = false; icnt = -1; break;
		case ptev_overflow: enabled = !e.ip_suppressed; icnt = enabled ? 0 : -1; spec = false; stack.clear(); if (!enabled) resume = 0; break;
		case ptev_exec_mode: dmode = e.variant.exec_mode.mode; icnt = 0; break;
		case ptev_tsx: spec = e.variant.tsx.speculative; icnt = 0; break;
		case ptev_paging: ccr3 = e.variant.paging.cr3; break;
		case ptev_async_paging: ccr3 = e.variant.async_paging.cr3; break;
		case ptev_vmcs: cvmcs = e.variant.vmcs.base; break;
		case ptev_async_vmcs: cvmcs = e.variant.async_vmcs.base; if (!e.ip_suppressed) icnt = 0; break;
		case ptev_async_branch: case ptev_exstop: case ptev_iflags: case ptev_interrupt: case ptev_smi: case ptev_init: case ptev_vmexit: case ptev_shutdown: case ptev_uintr: case ptev_trig: if (!e.ip_suppressed || e.type == ptev_async_branch) icnt = 0; break;
		case ptev_ptwrite: case ptev_iret: case ptev_vmentry: case ptev_uiret: if (!e.ip_suppressed) icnt = -1; break;   // whether this is an anchor is not clear
		default: break;
		}
	}
	void drain() { for (; drained < t.evs.size(); ++drained) { pt_event e = t.evs[drained].ev; if (e.type == ptev_tnt || e.type == ptev_tip) continue; place(e); } }

	// --- branch trace ---
	void cons_at(size_t idx, const Exp &x) { log[idx].ht = x.ht; log[idx].t = x.ht ? x.t : 0; if (ready < idx + 1) ready = idx + 1; }
	void flush()
	{
		drain();
		size_t n = 0;
		while (n < bits.size()) {
			size_t k = bits.size() - n; if (dtips.empty()) { if (k > 47) k = 47; if (s.chance(1, 3)) k = s.range(1, k); }
			uint64_t v = 0; for (size_t i = 0; i < k; ++i) v = v << 1 | (bits[n + i] ? 1u : 0u);
			t.tnt(v, (unsigned)k); for (size_t i = 0; i < k; ++i) { cons_at(pend[n + i], t.evs.back()); log[pend[n + i]].tnt = true; }
			n += k;
		}
		bits.clear(); pend.clear();
		for (auto &d : dtips) { t.tip(d.ip); cons_at(d.idx, t.evs.back()); }
		dtips.clear(); drain();
	}
	void bit(bool b) { bits.push_back(b); pend.push_back(log.size() - 1); icnt = 0; if (bits.size() >= (dtips.empty() ? 47u : 40u) || s.chance(1, 30)) flush(); }
	// TIP for the instruction at the end of the log
	void tip(uint64_t to, const Mode *m = nullptr)
	{
		size_t idx = log.size() - 1; icnt = 0;
		if (defer && !m && !bits.empty() && bits.size() < 40) { dtips.push_back({idx, to}); if (dtips.size() > 6) flush(); return; }
		flush(); size_t n = t.evs.size(); t.tip(to, false, m); 
		for (size_t i = n; i < t.evs.size(); ++i) if (t.evs[i].ev.type == ptev_tip) cons_at(idx, t.evs[i]);
		drain();
	}

	// --- where to go ---
	bool visible(const Region &q) { return (!q.cr || ccr3 == p.cr3[q.cr]) && (!q.vm || cvmcs == p.vmcs[q.vm]); }
	void go(uint64_t to, Region *q) { ip = to; rg = q; }
	Region *find(uint64_t a) { for (auto &q : p.r) if (visible(q) && p.at(q, a)) return &q; return nullptr; }
	uint64_t pickin(Region &q) { return q.ins[s.below(q.ins.size())].ip; }
	Region *pick_near() { std::vector<Region *> c; for (auto &q : p.r) if (q.mode == dmode && visible(q)) c.push_back(&q); if (c.empty()) return nullptr; return s.chance(1, 2) && rg && visible(*rg) && rg->mode == dmode ? rg : s.pick(c); }
	Region &pick_any() { return p.r[s.below(p.r.size())]; }
	Region &pick_traced() { std::vector<Region *> c; for (auto &q : p.r) if (q.traced) c.push_back(&q); return *s.pick(c); }
	Mode wantmode(Region &q) { Mode m = modeof(q.mode); m.iflag = iflag = s.flip(); return m; }
	bool needmode(Region &q) { return q.mode != dmode; }
	struct Sw { bool pip = false, vmcs = false; uint64_t cr3 = 0, base = 0; };
	// The address space switch that goes with a transfer to q.
	Sw sw(Region &q)
	{
		Sw w;
		if (q.cr && ccr3 != p.cr3[q.cr]) { w.pip = true; w.cr3 = p.cr3[q.cr]; } else if (s.chance(1, 6)) { w.pip = true; w.cr3 = q.cr ? p.cr3[q.cr] : s.flip() ? g.cr3() : p.cr3[s.range(1, 2)]; }
		if (q.vm && cvmcs != p.vmcs[q.vm]) { w.vmcs = true; w.base = p.vmcs[q.vm]; } else if (s.chance(1, 12)) { w.vmcs = true; w.base = q.vm ? p.vmcs[q.vm] : s.flip() ? g.vmcs() : p.vmcs[s.range(1, 2)]; }
		return w;
	}
	void pip(uint64_t cr3) { bool nr = s.flip(); t.noise(); t.pip_packet(cr3, nr); pt_event e = mkev(ptev_paging); e.variant.paging.cr3 = cr3; e.variant.paging.non_root = nr; t.expect(e); drain(); }
	void vmcs(uint64_t base) { t.noise(); t.vmcs_packet(base); pt_event e = mkev(ptev_vmcs); e.variant.vmcs.base = base; t.expect(e); drain(); }

	// --- one instruction ---
	void disable(uint64_t to, bool supp, Region *q, const Mode *m, uint64_t res)
	{
		if (!supp && !disok(to)) throw Discard{};
		t.pgd(to, supp, m); resume = res; stack.clear(); drain(); ip = to; rg = q;
	}
	// A disable without IP belongs to the first instruction that may have caused it.
	bool suppok()
	{
		for (size_t k = log.size() - 1; k-- > 0;) { const Entry &e = log[k]; if (e.isev ? e.ev.type == ptev_async_branch || e.ev.type == ptev_enabled || e.ev.type == ptev_overflow : e.cons) return true; if (!e.isev && e.ins->k == k_movcr3) return false; }
		return true;
	}
	bool disok(uint64_t to)
	{
		for (size_t k = log.size() - 1; k-- > 0;) { const Entry &e = log[k]; if (e.isev ? e.ev.type == ptev_async_branch || e.ev.type == ptev_enabled || e.ev.type == ptev_overflow : e.cons) return true; if (!e.isev && (e.ins->k == k_jmp || e.ins->k == k_call) && e.ins->target == to) return false; }
		return true;
	}
	void step()
	{
		Ins &i = *p.at(*rg, ip);
		switch (i.k) {
		case k_other: endins(&i, false); go(i.end(), rg); break;
		case k_ptwrite: {
			endins(&i, false); flush(); bool fip = s.flip(); pt_packet q = t.mk(ppt_ptw); q.payload.ptw.plc = (uint8_t)s.below(2); q.payload.ptw.payload = s.interesting(q.payload.ptw.plc ? 64 : 32); q.payload.ptw.ip = fip;
			t.noise(); t.raw(q); pt_event e = mkev(ptev_ptwrite); e.variant.ptwrite.size = q.payload.ptw.plc ? 8 : 4; e.variant.ptwrite.payload = q.payload.ptw.payload;
			if (fip) { t.noise(); t.ip_packet(ppt_fup, i.ip); } t.expect_at(e, i.ip, !fip); drain(); go(i.end(), rg); } break;
		case k_movcr3: {
			endins(&i, false); flush(); bool dis = disables && suppok() && s.chance(1, 6); uint64_t c = s.chance(1, 4) ? g.cr3() : p.cr3[s.range(1, 2)];
			if (!dis || s.flip()) pip(c);
			if (dis) { Mode m; bool hm = s.chance(1, 4); if (hm) m = wantmode(*rg); disable(0, true, rg, hm ? &m : nullptr, i.end()); } else go(i.end(), rg); } break;
		case k_vmptrld: endins(&i, false); flush(); vmcs(s.chance(1, 4) ? g.vmcs() : p.vmcs[s.range(1, 2)]); go(i.end(), rg); break;
		case k_jcc: {
			bool taken = s.flip(); uint64_t to = taken ? i.target : i.end(); Region *q = find(to); if (taken && !q) { taken = false; to = i.end(); q = rg; }
			if (!q->traced) { endins(&i, false); flush(); if (!disables) throw Discard{}; disable(to, false, q, nullptr, 0); break; }
			endins(&i, true); bit(taken); go(to, q); } break;
		case k_jmp: case k_call: {
			Region *q = find(i.target); if (!q->traced) { endins(&i, false); flush(); bool supp = er_skl014 && suppok() && s.chance(2, 3); if (supp) er_hits[0]++; disable(i.target, supp, q, nullptr, i.target); break; }
			endins(&i, false); if (i.k == k_call && i.target != i.end()) push(i.end()); go(i.target, q); } break;
		case k_jmpi: case k_calli: case k_jmpabs: {
			uint64_t to; Region *q; if (i.k == k_jmpabs) { to = i.target; q = find(to); } else { q = pick_near(); to = pickin(*q); }
			uint64_t res = i.k == k_calli ? i.end() : 0;
			if (!q->traced) { endins(&i, false); flush(); disable(to, false, q, nullptr, res); break; }
			endins(&i, true); tip(to); if (i.k == k_calli) push(i.end()); go(to, q); } break;
		case k_ret: {
			uint64_t to; Region *q = nullptr; bool top = !stack.empty() && s.chance(5, 6);
			if (top) { to = stack.back(); q = find(to); if (!q || q->mode != dmode) { q = nullptr; top = false; } }
			if (!q) { q = pick_near(); to = pickin(*q); }
			if (!q->traced) { endins(&i, false); flush(); disable(to, false, q, nullptr, 0); break; }
			endins(&i, true);
			if (top && retcomp && !s.chance(1, 8)) { stack.pop_back(); bit(true); } else { if (!top || retcomp) stack.clear(); else stack.pop_back(); flush(); tip(to); }
			go(to, q); } break;
		case k_far: {
			Region &q = pick_any(); bool dis = !q.traced || (disables && suppok() && s.chance(1, 10)); uint64_t to = pickin(q); for (int k = 0; dis && k < 20 && !disok(to); ++k) to = pickin(q);
			if (dis && er_skd022 && (i.flags & f_vmentry) && s.chance(2, 3)) {
				// SKD022: a FUP makes the disable look asynchronous.
				flush(); drain(); Tracer::Async a; Sw w = sw(q); a.pip = w.pip; a.cr3 = w.cr3; a.nr = s.flip(); a.vmcs = w.vmcs; a.base = w.base; a.vmcs_first = s.flip(); a.disable = true; a.supp = q.traced || (suppok() && s.flip()); Mode m; if (needmode(q) || s.chance(1, 4)) { m = wantmode(q); a.m = &m; a.mode_first = s.chance(1, 3); }
				if (!a.supp && !disok(to)) throw Discard{};
				t.noise(); t.ip_packet(ppt_fup, i.ip); drain(); size_t n = t.evs.size(); t.async_tail(i.ip, to, a);
				endins(&i, false); for (size_t k = n; k < t.evs.size(); ++k) { pt_event &e = t.evs[k].ev; if (e.type != ptev_async_disabled) continue; e.type = ptev_disabled; e.variant.disabled.ip = to; er_hits[1]++; }
				resume = 0; stack.clear(); drain(); go(to, &q); break;
			}
			endins(&i, dis ? false : true); size_t idx = log.size() - 1; flush_before(idx, dis);
			Sw w = sw(q); bool vf = s.flip(); if (w.vmcs && vf) vmcs(w.base); if (w.pip) pip(w.cr3); if (w.vmcs && !vf) vmcs(w.base);
			if (evtracing && i.flags && s.chance(2, 3)) {
				bool fip = s.flip(); unsigned ty = i.flags & f_iret ? pt_cfe_iret : i.flags & f_vmentry ? pt_cfe_vmentry : pt_cfe_uiret; pt_event e = g.cfe_event(ty, 0); t.noise(); g.cfe_packet(ty, 0, fip);
				if (fip) { t.noise(); t.ip_packet(ppt_fup, i.ip); } t.expect_at(e, i.ip, !fip); drain();
			}
			Mode m; bool hm = needmode(q) || s.chance(1, 4); if (hm) m = wantmode(q);
			if (dis) { disable(to, q.traced || (suppok() && s.flip()), &q, hm ? &m : nullptr, i.cls == ptic_far_call ? i.end() : 0); break; }
			size_t n = t.evs.size(); t.tip(to, false, hm ? &m : nullptr); for (size_t k = n; k < t.evs.size(); ++k) if (t.evs[k].ev.type == ptev_tip) cons_far(idx, t.evs[k]);
			icnt = 0; drain(); go(to, &q); } break;
		}
	}
	// Bound events go behind the instruction, which is consumed after them.
	void flush_before(size_t, bool) { flush(); }
	void cons_far(size_t idx, const Exp &x) { log[idx].ht = x.ht; log[idx].t = x.ht ? x.t : 0; log[idx].bound = log.size() - 1 - idx; ready = log.size(); }
	void push(uint64_t a) { stack.push_back(a); if (stack.size() > 64) stack.erase(stack.begin()); }

	// --- things that happen between instructions ---
	void transfer_async(const std::vector<pt_event> &atfup, bool dis)
	{
		Region &q = dis ? pick_any() : pick_traced(); Sw w = sw(q); Tracer::Async a; Mode m; uint64_t to = pickin(q), from = ip;
		a.pip = w.pip; a.cr3 = w.cr3; a.nr = s.flip(); a.vmcs = w.vmcs; a.base = w.base; a.vmcs_first = s.flip(); a.disable = dis; a.supp = dis && s.chance(1, 3);
		if (needmode(q) || s.chance(1, 4)) { m = wantmode(q); a.m = &m; a.mode_first = s.chance(1, 3); }
		t.noise(); t.ip_packet(ppt_fup, from); for (pt_event e : atfup) t.expect_at(e, from, e.ip_suppressed);
		t.async_tail(from, to, a); if (dis) { resume = from; stack.clear(); }
		drain(); go(to, &q);
	}
	void header(bool fup)
	{
		Tracer::Header h; h.fup = fup; h.ip = ip; h.has_mode = true; Mode m = modeof(fup ? rg->mode : dmode == ptem_unknown ? p.r[0].mode : dmode); m.iflag = t.mode_valid ? t.mode.iflag : iflag; h.m = m;
		if (fup && t.mode_valid) h.m = t.mode;
		if (!fup && t.mode_valid) h.m = t.mode;
		h.tsx = spec || fullhdr || s.chance(1, 3); h.intx = spec; h.pip = p.multi || fullhdr || s.chance(1, 2); h.cr3 = ccr3; h.nr = s.flip(); h.vmcs = p.multi || fullhdr || s.chance(1, 3); h.base = cvmcs;
		h.cbr = s.chance(1, 2); h.ratio = (unsigned)s.range(1, 63); h.mnt = s.chance(1, 10); h.mntpl = s.interesting(64); h.t = t.timing && (fullhdr || s.chance(1, 2)); h.shuffle = s.flip();
		Start st; rec = &st.hdr; stack.clear(); drain(); st.ev = t.evs.size(); t.psb(h); st.pos = t.psbs.back(); drain(); rec = nullptr; st.log = log.size(); st.enabled = fup; starts.push_back(st);
	}
	void fup_event()
	{
		std::vector<pt_event> q; t.noise();
		switch (s.weighted({3, 3, evtracing ? 4u : 0u, trigs ? 2u : 0u, 2, er_bdm64 && !spec ? 12u : 3u})) {
		case 0: { pt_packet x = t.mk(ppt_exstop); x.payload.exstop.ip = 1; t.raw(x); q.push_back(mkev(ptev_exstop)); } break;
		case 1: { pt_packet x = t.mk(ppt_mwait); x.payload.mwait.hints = (uint32_t)s.bits(8); x.payload.mwait.ext = (uint32_t)s.bits(2); t.raw(x); t.noise(); pt_packet y = t.mk(ppt_exstop); y.payload.exstop.ip = 1; t.raw(y); pt_event e = mkev(ptev_mwait); e.variant.mwait.hints = x.payload.mwait.hints; e.variant.mwait.ext = x.payload.mwait.ext; q.push_back(e); q.push_back(mkev(ptev_exstop)); } break;
		case 2: { static const unsigned ty[] = {pt_cfe_intr, pt_cfe_smi, pt_cfe_init, pt_cfe_vmexit, pt_cfe_vmexit_intr, pt_cfe_shutdown, pt_cfe_uintr}; unsigned c = ty[s.below(7)]; uint8_t v = s.byte(); pt_event e = g.cfe_event(c, v); g.evds(c, e); g.cfe_packet(c, v, true); q.push_back(e); } break;
		case 3: { pt_packet x = t.mk(ppt_trig); x.payload.trig.trbv = s.byte(); x.payload.trig.mult = s.flip(); x.payload.trig.ip = 1; x.payload.trig.icntv = 1; t.raw(x); pt_event e = mkev(ptev_trig); e.variant.trig.trbv = x.payload.trig.trbv; e.variant.trig.mult = x.payload.trig.mult; q.push_back(e); } break;
		case 4: { Mode m = modeof(dmode); m.iflag = s.flip(); auto v = t.mode_events(m); t.mode_packet(m); q = v; } break;
		default: { bool on = !spec; t.tsx_packet(on, false); pt_event e = mkev(ptev_tsx); e.variant.tsx.speculative = on; q.push_back(e); } break;
		}
		t.noise(); t.ip_packet(ppt_fup, ip); for (auto &e : q) t.expect_at(e, ip, false);
		drain();
	}
	void trig_icnt()
	{
		if (icnt < 0 || icnt > 0xffff) return;
		pt_packet x = t.mk(ppt_trig); x.payload.trig.trbv = s.byte(); x.payload.trig.mult = s.flip(); x.payload.trig.icntv = 1; x.payload.trig.icnt = (uint16_t)icnt; t.noise(); t.raw(x);
		pt_event e = mkev(ptev_trig); e.variant.trig.trbv = x.payload.trig.trbv; e.variant.trig.mult = x.payload.trig.mult; e.variant.trig.icnt = (uint16_t)icnt; trigfix = true; t.expect(e); drain(); trigfix = false;
	}
	void imprecise_event()
	{
		t.noise();
		switch (s.below(7)) {
		case 0: { pt_packet x = t.mk(ppt_cbr); x.payload.cbr.ratio = (uint8_t)s.range(1, 255); t.raw(x); pt_event e = mkev(ptev_cbr); e.variant.cbr.ratio = x.payload.cbr.ratio; t.expect(e); } break;
		case 1: { pt_packet x = t.mk(ppt_exstop); t.raw(x); t.expect_at(mkev(ptev_exstop), 0, true); } break;
		case 2: { pt_packet x = t.mk(ppt_pwrx); x.payload.pwrx.last = (uint8_t)s.bits(4); x.payload.pwrx.deepest = (uint8_t)s.bits(4); x.payload.pwrx.interrupt = s.flip(); t.raw(x); pt_event e = mkev(ptev_pwrx); e.variant.pwrx.last = x.payload.pwrx.last; e.variant.pwrx.deepest = x.payload.pwrx.deepest; e.variant.pwrx.interrupt = x.payload.pwrx.interrupt; t.expect(e); } break;
		case 3: { pt_packet x = t.mk(ppt_mnt); x.payload.mnt.payload = s.interesting(64); t.raw(x); pt_event e = mkev(ptev_mnt); e.variant.mnt.payload = x.payload.mnt.payload; t.expect(e); } break;
		case 4: if (evtracing) { g.cfe_packet(pt_cfe_shutdown, 0, false); t.expect_at(mkev(ptev_shutdown), 0, true); } break;
		case 5: if (trigs) { pt_packet x = t.mk(ppt_trig); x.payload.trig.trbv = s.byte(); t.raw(x); pt_event e = mkev(ptev_trig); e.variant.trig.trbv = x.payload.trig.trbv; e.ip_suppressed = 1; t.expect(e); } break;
		default: { pt_packet x = t.mk(ppt_pwre); x.payload.pwre.state = (uint8_t)s.bits(4); x.payload.pwre.sub_state = (uint8_t)s.bits(4); t.raw(x); pt_event e = mkev(ptev_pwre); e.variant.pwre.state = x.payload.pwre.state; e.variant.pwre.sub_state = x.payload.pwre.sub_state; t.expect(e); } break;
		}
		drain();
	}
	void overflow(bool en)
	{
		if (!en) { t.ovf(false, 0); drain(); rg = nullptr; return; }
		// Execution continues in the same mode and address space.
		std::vector<Region *> c; for (auto &q : p.r) if (q.mode == dmode && visible(q) && q.traced) c.push_back(&q);
		if (c.empty()) return;
		Region *q = s.pick(c); uint64_t to = pickin(*q); t.ovf(true, to); drain(); go(to, q);
	}
	// BDM64: the branch right before an abort went somewhere else than its trace says.
	void bdm64()
	{
		if (log.empty() || log.back().isev || !log.back().cons) return;
		switch (log.back().ins->k) { case k_jcc: case k_jmpi: case k_calli: case k_ret: case k_jmpabs: break; default: return; }
		Region &q = pick_traced(); if (q.mode != dmode || !visible(q)) return;
		uint64_t y = pickin(q), x = ip;
		for (unsigned k = 0; k < 300; ++k) { if (x == y) return; Region *o = find(x); if (!o || !o->mapped) break; Ins *i = p.at(*o, x); if (!i || i->consumes()) break; x = i->k == k_jmp || i->k == k_call ? i->target : i->end(); }
		er_hits[2]++; go(y, &q);
	}
	void abort() { if (er_bdm64 && s.chance(2, 3)) bdm64(); t.noise(); t.tsx_packet(false, true); pt_event e = mkev(ptev_tsx); e.variant.tsx.aborted = 1; transfer_async({e}, false); }
	// Choose the errata, configure the decoder.
	void errata(bool ticks)
	{
		er_skd022 = s.flip(); er_bdm64 = !ticks && s.flip(); if (!s.flip()) return;
		unsigned n = 0; for (auto &a : p.r) if (a.traced) { ++n; for (auto &b : p.r) if (!b.traced && a.base < b.base + b.size() && b.base < a.base + a.size()) return; }
		er_skl014 = n <= 4;
	}
	void errata(pt_config &cfg)
	{
		cfg.errata.skl014 = er_skl014; cfg.errata.skd022 = er_skd022; cfg.errata.bdm64 = er_bdm64; if (!er_skl014) return;
		uint64_t *ab[4][2] = {{&cfg.addr_filter.addr0_a, &cfg.addr_filter.addr0_b}, {&cfg.addr_filter.addr1_a, &cfg.addr_filter.addr1_b}, {&cfg.addr_filter.addr2_a, &cfg.addr_filter.addr2_b}, {&cfg.addr_filter.addr3_a, &cfg.addr_filter.addr3_b}};
		unsigned k = 0; for (auto &q : p.r) if (q.traced) { *ab[k][0] = q.base; *ab[k][1] = q.base + q.size() - 1; switch (k++) { case 0: cfg.addr_filter.config.ctl.addr0_cfg = 1; break; case 1: cfg.addr_filter.config.ctl.addr1_cfg = 1; break; case 2: cfg.addr_filter.config.ctl.addr2_cfg = 1; break; default: cfg.addr_filter.config.ctl.addr3_cfg = 1; } }
	}
	void between()
	{
		flush();
		switch (s.weighted({asyncs ? 4u : 0u, asyncs && evtracing ? 3u : 0u, asyncs && disables ? 2u : 0u, events ? 5u : 0u, events ? 4u : 0u, events && trigs ? 2u : 0u, psbs ? psbw : 0u, ovfs ? 1u : 0u, asyncs && spec ? (er_bdm64 ? 12u : 3u) : 0u, 1})) {
		case 0: transfer_async({}, false); break;
		case 1: { static const unsigned ty[] = {pt_cfe_intr, pt_cfe_smi, pt_cfe_rsm, pt_cfe_sipi, pt_cfe_init, pt_cfe_vmexit, pt_cfe_vmexit_intr, pt_cfe_uintr}; t.noise(); unsigned c = ty[s.below(8)]; uint8_t v = s.byte(); pt_event e = g.cfe_event(c, v); g.evds(c, e); g.cfe_packet(c, v, false); if (c == pt_cfe_rsm || c == pt_cfe_sipi) e.ip_suppressed = 1; transfer_async({e}, disables && !(er_skd022 && (p.at(*rg, ip)->flags & f_vmentry)) && s.chance(1, 5)); } break;
		case 2: if (er_skd022 && (p.at(*rg, ip)->flags & f_vmentry)) break; transfer_async({}, true); break;
		case 3: fup_event(); break;
		case 4: imprecise_event(); break;
		case 5: trig_icnt(); break;
		case 6: header(true); break;
		case 7: overflow(s.flip()); break;
		case 8: abort(); break;
		default: t.noise(); break;
		}
	}
	// Events outside of traced code that tell where they happened.
	void fup_disabled()
	{
		uint64_t at = s.flip() ? pickin(pick_any()) : s.bits(47); t.noise(); pt_event e;
		switch (s.weighted({3, 3, evtracing ? 3u : 0u, trigs ? 3u : 0u})) {
		case 0: { pt_packet x = t.mk(ppt_ptw); x.payload.ptw.plc = (uint8_t)s.below(2); x.payload.ptw.payload = s.interesting(x.payload.ptw.plc ? 64 : 32); x.payload.ptw.ip = 1; t.raw(x); e = mkev(ptev_ptwrite); e.variant.ptwrite.size = x.payload.ptw.plc ? 8 : 4; e.variant.ptwrite.payload = x.payload.ptw.payload; } break;
		case 1: { pt_packet x = t.mk(ppt_exstop); x.payload.exstop.ip = 1; t.raw(x); e = mkev(ptev_exstop); } break;
		case 2: { static const unsigned ty[] = {pt_cfe_intr, pt_cfe_iret, pt_cfe_smi, pt_cfe_init, pt_cfe_vmentry, pt_cfe_vmexit, pt_cfe_shutdown, pt_cfe_uintr, pt_cfe_uiret}; unsigned c = ty[s.below(9)]; uint8_t v = s.byte(); e = g.cfe_event(c, v); g.evds(c, e); g.cfe_packet(c, v, true); } break;
		default: { pt_packet x = t.mk(ppt_trig); x.payload.trig.trbv = s.byte(); x.payload.trig.mult = s.flip(); x.payload.trig.ip = 1; x.payload.trig.icntv = 1; t.raw(x); e = mkev(ptev_trig); e.variant.trig.trbv = x.payload.trig.trbv; e.variant.trig.mult = x.payload.trig.mult; } break;
		}
		t.noise(); t.ip_packet(ppt_fup, at); t.expect_at(e, at, false); drain();
	}
	void disabled_step()
	{
		switch (s.weighted({6, standalones ? 3u : 0u, psbs ? 2u : 0u, ovfs ? 1u : 0u, 1, standalones ? 2u : 0u})) {
		case 0: {
			Region *q = nullptr; uint64_t to = 0;
			if (resume && s.chance(1, 2)) { q = find(resume); if (q && q->traced) to = resume; else q = nullptr; }
			if (!q) { q = &pick_traced(); to = pickin(*q); }
			Sw w = sw(*q); if (w.pip) pip(w.cr3); if (w.vmcs) vmcs(w.base);
			Mode m; bool hm = needmode(*q) || s.chance(1, 4); if (hm) m = wantmode(*q); t.pge(to, hm ? &m : nullptr); drain(); go(to, q); } break;
		case 1: g.standalone(); drain(); break;
		case 2: header(false); break;
		case 5: fup_disabled(); break;
		case 3: if (s.flip()) { overflow(true); break; } t.ovf(false, 0); drain(); t.noise(); t.simple(ppt_stop); t.expect(mkev(ptev_stop)); drain(); break;
		default: t.noise(); t.simple(ppt_stop); t.expect(mkev(ptev_stop)); drain(); break;
		}
	}
	void run(size_t steps)
	{
		t.noisy = s.chance(2, 3); g.trig = trigs; g.evtracing = evtracing; g.trigicnt = false;
		Region &r0 = pick_traced(); bool on = !s.chance(1, 4);
		if (r0.cr) ccr3 = p.cr3[r0.cr];
		if (r0.vm) cvmcs = p.vmcs[r0.vm];
		if (on) { ip = pickin(r0); rg = &r0; dmode = r0.mode; } else dmode = ptem_unknown;
		header(on); resume = 0; 
		for (size_t i = 0; i < steps && log.size() < 250000; ++i) {
			if (corruption && s.chance(1, 40)) { corrupt(); continue; }
			if (!enabled) { disabled_step(); continue; }
			if (bulk) {
				size_t j = (size_t)(p.at(*rg, ip) - rg->ins.data()), k = j; while (k < rg->ins.size() && rg->ins[k].k == k_other) ++k;
				if (k - j > 20) { size_t n = s.chance(2, 3) ? k - j : s.below(k - j); for (; n; --n, ++j) { endins(&rg->ins[j], false); go(rg->ins[j].end(), rg); } if (n == 0 && s.flip()) continue; }
			}
			if (er_bdm64 && spec && !log.back().isev && log.back().cons && s.chance(1, 3)) { flush(); abort(); continue; }
			if (s.chance(1, 8)) { between(); continue; }
			step();
		}
		flush(); t.noise();
		follow();
	}
	// What follows without trace.
	void follow()
	{
		while (enabled) {
			Region *q = find(ip); if (!q) { enderr = 0; break; }
			if (!q->mapped) { enderr = -pte_nomap; break; }
			Ins &i = *p.at(*q, ip); if (i.consumes()) { stop = &i; break; }
			endins(&i, false); ip = (i.k == k_jmp || i.k == k_call) ? i.target : i.end();
		}
	}
	// The trace breaks off with something that cannot be decoded, until the next PSB.
	void corrupt()
	{
		flush(); size_t must = ready; t.noise(); for (size_t k = ready; k-- > starts.back().log && log[k].isev;) if (log[k].ev.type == ptev_overflow) must = k;   // resolving an overflow reads ahead
		 uint64_t ip0 = ip; 
		enderr = -pte_bad_opc; stop = nullptr; t.bounds.push_back(t.out.size()); static const std::vector<Bytes> bad = {{0xc9}, {0xe9}, {0x02, 0xff}, {0x02, 0x0b}}; const Bytes &q = s.pick(bad); t.out.insert(t.out.end(), q.begin(), q.end());
		for (size_t n = s.below(20); n; --n) { uint8_t x = s.byte(); t.out.push_back(x == 0x82 || x == 0x02 ? 0 : x); }
		t.out.push_back(0);
		if (enabled) follow(); 
		stops.push_back(Stop{must, log.size(), starts.size(), enderr, stop}); enderr = -pte_eos; stop = nullptr; ready = log.size();
		ip = ip0; resume = 0; stack.clear(); 
		header(enabled); 
	}
	size_t lastcontent() { size_t k = 0; for (size_t i = 0; i < log.size(); ++i) if (log[i].isev || log[i].cons) k = i + 1; return k; }
	std::string insstr(const Ins &i, pt_exec_mode m, bool sp) { return strf("insn %llx size %u class %d mode %s%s", (unsigned long long)i.ip, i.size, (int)i.cls, modename(m), sp ? " spec" : ""); }
	std::string str(const Entry &e, unsigned what) { return e.isev ? "event " + evtext(e.ev, what) : insstr(*e.ins, e.mode, e.spec); }
	std::string dump(unsigned what) { std::string o; for (size_t i = 0; i < log.size(); ++i) { o += strf("%4zu %s%s\n", i, str(log[i], what).c_str(), log[i].cons ? " *" : ""); } return o; }
	std::string packets()
	{
		std::string o; size_t pos = 0; const Bytes &b = t.out;
		while (pos < b.size()) { pt_packet q; int n = wire::decode(q, b.data() + pos, b.size() - pos); if (n <= 0) { o += "?\n"; break; } if (q.type != ppt_pad) o += strf("%5zx %s\n", pos, wire::str(q).c_str()); pos += (size_t)n; }
		return o;
	}
};

} // namespace sim
