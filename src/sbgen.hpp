// Random perf_event sideband channels and the events of a trace that goes with them.
#pragma once
#include "pevrec.hpp"
#include "wrap.hpp"
#include <algorithm>
#include <elf.h>
#include <map>
#include <memory>
#include <set>
#include <sys/mman.h>
#include <unistd.h>
extern "C" {
#include "intel-pt.h"
#include "libipt-sb.h"
#include "pt_image.h"
#include "pt_asid.h"
}
typedef unsigned long long ull;
// --- a history of perf event records ---
namespace {
struct PFile { int fd; std::string name; std::vector<uint8_t> d; int abi; };
enum { f_vdso = 7, f_missing = 100 };
}
static std::vector<PFile> &pool()
{
	static std::vector<PFile> v; if (!v.empty()) return v; static const size_t sizes[] = {0x2800, 0x5000, 0x3000, 0x1800, 0x1400, 0x1000, 0x1000, 0x1000, 0xf00, 0x800, 3};
	for (size_t i = 0; i < sizeof(sizes) / sizeof(sizes[0]); ++i) {
		PFile f; f.fd = memfd_create("sb", 0); f.abi = 0; f.d.resize(sizes[i]); for (size_t k = 0; k < f.d.size(); ++k) f.d[k] = (uint8_t)((k + 77 * i) * 0x9e3779b97f4a7c15ull >> 50);
		if (i >= 2 && i <= 6) { Elf32_Ehdr h; memset(&h, 0, sizeof(h)); memcpy(h.e_ident, ELFMAG, SELFMAG); h.e_ident[EI_VERSION] = i == 5 ? 0 : EV_CURRENT; h.e_ident[EI_CLASS] = i == 2 ? ELFCLASS64 : ELFCLASS32; h.e_machine = i == 3 ? EM_386 : i == 4 || i == 5 ? EM_X86_64 : EM_ARM; memcpy(f.d.data(), &h, sizeof(h)); f.abi = i == 2 ? 1 : i == 3 ? 3 : i == 4 ? 2 : 0; }
		CHECK(write(f.fd, f.d.data(), f.d.size()) == (ssize_t)f.d.size(), "memfd"); f.name = strf("/proc/self/fd/%d", f.fd); v.push_back(f);
	}
	return v;
}
namespace {
struct Map { int file; uint64_t off, size, addr; };
struct MCtx { uint32_t pid; std::vector<Map> m; int abi = 0; bool amb = false; int get(uint64_t a) const { for (size_t i = m.size(); i--;) if (a >= m[i].addr && a - m[i].addr < m[i].size) return pool()[(size_t)m[i].file].d[m[i].off + (a - m[i].addr)]; return -1; } };
typedef std::shared_ptr<MCtx> MC;
struct PRec { Rec r; size_t off; uint64_t tsc; int file; };	// file: what an mmap record refers to
struct Note { int code; std::string file; uint64_t off; bool operator==(const Note &o) const { return (code == o.code || (code == -100 && o.code < 0)) && file == o.file && off == o.off; } };
enum Loc { l_unknown, l_user, l_luser, l_kernel, l_lkernel };
struct PDec {
	int id, fd; std::string name; Bytes bytes; size_t begin; pt_sb_pevent_config k; std::vector<uint8_t> sc; std::vector<PRec> rs; bool primary; std::string sysroot, vdso[3]; int vfile[3]; bool bad = false; size_t endpos = 0; unsigned st = 0; std::vector<std::pair<uint64_t, unsigned>> types;
	int where = 0; size_t cur = 0; Loc loc = l_unknown; MC ctx, pend; std::vector<Note> got, want; bool late;
	~PDec() { if (fd >= 0) ::close(fd); }
};
struct Hist {
	std::vector<std::unique_ptr<PDec>> ds; std::vector<Map> kernel; uint64_t kstart; uint64_t rejects = 0; std::map<std::string, PDec *> byname; std::vector<pt_image *> switches; bool failswitch = false; uint64_t h = 0;
};
}
static std::string pname(const PDec &d, int f) { const std::string &n = pool()[(size_t)f].name; return n.substr(d.sysroot.size()); }
static bool rejected(const Hist &h, const std::string &f, uint64_t off) { return h.rejects && mix(h.rejects, off + f.back()) % 8 == 0; }
static int on_error(int code, const char *file, uint64_t off, void *p) { Hist &h = *(Hist *)p; std::string n = file ? file : "(none)"; auto it = h.byname.find(n); CHECK(it != h.byname.end(), "error %d for file %s", code, n.c_str()); bool rej = rejected(h, n, off); auto &got = it->second->got; if (!(rej && !got.empty() && got.back().off == off && code == -pte_bad_file)) got.push_back({code, n, off}); return rej	/* what we return may be reported back */ ? -pte_bad_file : 0; }
static int on_switch(const pt_sb_context *x, void *p) { Hist &h = *(Hist *)p; h.switches.push_back(pt_sb_ctx_image(x)); return h.failswitch ? -pte_bad_context : 0; }

static unsigned stype(const PDec &d, uint64_t ident) { for (auto &t : d.types) if (t.first == ident) return t.second; return d.st; }
static PRec gen_rec(Source &s, const PDec &d, const Hist &h, uint64_t time)
{
	PRec p; Rec &r = p.r; p.file = -1; static const uint32_t pids[] = {1, 2, 3, 4, 0x7fffffff}; auto pid = [&] { return (uint64_t)pids[s.below(s.chance(1, 8) ? 5 : 3)]; };
	static const uint32_t types[] = {t_mmap, t_mmap2, t_comm, t_fork, t_switch, t_switch_wide, t_itrace, t_lost, t_aux, t_exit, t_throttle, t_lost_samples, 15}; r.type = types[s.weighted({5, 5, 2, 2, 4, 4, 2, 1, 1, 1, 1, 1, 0})];
	r.misc = (uint16_t)(s.below(8) == 0 ? s.below(8) : 2); if (s.flip()) r.misc |= 1 << 13; if (s.chance(1, 10)) r.misc |= 1 << 14;
	for (const char *f = fields((int)r.type); *f; ++f) if (*f != 's') r.v.push_back(s.below(200));
	auto name = [&] {
		switch (s.weighted({12, 3, 1, 1, 1, 1, 1})) {
		case 0: p.file = (int)s.below(7); if (s.chance(1, 12)) p.file = 10; return pname(d, p.file); case 1: return std::string("[vdso]"); case 2: { static const char *const o[] = {"[heap]", "[stack]", "[vsyscall]", "[vdso"}; return std::string(o[s.below(4)]); }
		case 3: return std::string("//anon"); case 4: { p.file = -2; return pname(d, (int)s.below(7)) + (s.flip() ? " (deleted)" : " (deleted) x"); } case 5: p.file = f_missing; return std::string("/nonexistent/file");
		default: { // long names
			p.file = (int)s.below(7); std::string n = pname(d, p.file); if (s.chance(3, 4) || n[0] != '/') return n; size_t want = FILENAME_MAX - 1 + (s.flip() ? s.below(20) : 0) - (s.flip() ? s.below(8) : 0); std::string x = n; size_t have = d.sysroot.size() + n.size(); size_t cut = FILENAME_MAX - 1; size_t pad = cut > have ? cut - have : 0; if (want < cut) pad -= std::min(pad, cut - want); x.insert(0, std::string(pad, '/')); if (want > cut) { x += std::string(want - cut, '7'); p.file = f_missing; } return x; }
		}
	};
	auto map = [&] { r.v[0] = pid(); r.v[2] = s.chance(1, 8) ? h.kstart + 0x1000 * s.below(8) : 0x10000 + 0x800 * s.below(40) + (s.chance(1, 8) ? s.below(0x800) : 0); r.v[3] = s.chance(1, 6) ? s.range(1, 0x40) : 0x400 * s.range(1, 16); r.v[4] = s.flip() ? 0 : s.chance(1, 30) ? s.interesting(64) : 0x400 * s.below(12); if (r.v[2] > UINT64_MAX - 0x100000) r.v[2] -= 0x100000; r.str = name(); };
	switch (r.type) {
	case t_mmap: case t_mmap2: map(); break;
	case t_comm: r.v[0] = pid(); r.str = s.flip() ? "a" : "process"; break;
	case t_fork: r.v[0] = pid(); r.v[1] = pid(); r.v[2] = s.chance(1, 12) ? r.v[0] + 1 : r.v[0]; r.v[3] = r.v[1]; break;
	case t_itrace: r.v[0] = pid(); break; case t_switch_wide: r.v[0] = pid(); break;
	case t_aux: r.v[2] = s.below(4); break; default: break;
	}
	r.ident = d.types.empty() ? s.bits(20) : d.types[s.below(d.types.size())].first; r.st = stype(d, r.ident); r.pid = (uint32_t)pid(); r.tid = (uint32_t)s.below(500) + 5; r.cpu = (uint32_t)s.below(64); r.id = s.bits(30); r.stream = s.bits(30); r.time = time;
	return p;
}
static std::string rprint(const PDec &d, const PRec &p, uint32_t fl) { return dump_record(p.r, d.name, p.off, p.tsc, fl); }
// Events with a location.
static const int evtypes[] = {ptev_enabled, ptev_disabled, ptev_async_disabled, ptev_async_branch, ptev_paging, ptev_async_paging, ptev_overflow, ptev_exec_mode, ptev_tsx, ptev_exstop, ptev_mwait, ptev_ptwrite, ptev_tick, ptev_tip, ptev_iflags, ptev_interrupt, ptev_iret, ptev_smi, ptev_rsm, ptev_init, ptev_vmentry, ptev_vmexit, ptev_shutdown, ptev_uintr, ptev_uiret, ptev_stop, ptev_cbr, ptev_mnt, ptev_pwre, ptev_pwrx};
static pt_event gen_event(Source &s, const Hist &h, uint64_t tsc, uint64_t &ip, uint64_t &from, bool &noip)
{
	pt_event e; memset(&e, 0, sizeof(e)); e.type = (pt_event_type)evtypes[s.chance(1, 2) ? s.below(6) : s.below(sizeof(evtypes) / sizeof(evtypes[0]))]; e.has_tsc = s.flip(); e.tsc = tsc; auto gip = [&] { return s.flip() ? 0x10000 + s.below(0x20000) : s.chance(1, 3) ? h.kstart : s.flip() ? h.kstart - 1 : h.kstart + s.below(0x4000); }; ip = gip(); from = gip(); noip = false;
#define IP(t, f) case ptev_##t: e.ip_suppressed = noip = s.chance(1, 3); if (!noip) e.variant.f = ip; break;
	switch (e.type) {
	case ptev_enabled: e.variant.enabled.ip = ip; break; case ptev_async_branch: e.variant.async_branch.from = from; e.variant.async_branch.to = ip; break; case ptev_tip: e.variant.tip.ip = ip; break; case ptev_async_disabled: e.variant.async_disabled.at = from; e.ip_suppressed = noip = s.flip(); if (!noip) e.variant.async_disabled.ip = ip; break;
	IP(disabled, disabled.ip) IP(async_paging, async_paging.ip) IP(overflow, overflow.ip) IP(exec_mode, exec_mode.ip) IP(tsx, tsx.ip) IP(exstop, exstop.ip) IP(mwait, mwait.ip) IP(ptwrite, ptwrite.ip) IP(tick, tick.ip) IP(iflags, iflags.ip) IP(interrupt, interrupt.ip) IP(iret, iret.ip) IP(smi, smi.ip) IP(rsm, rsm.ip) IP(init, init.ip) IP(vmentry, vmentry.ip) IP(vmexit, vmexit.ip) IP(shutdown, shutdown.ip) IP(uintr, uintr.ip) IP(uiret, uiret.ip)
	default: noip = true; break;
	}
#undef IP
	return e;
}
static Loc where(const pt_event &e, Loc l, uint64_t ks, uint64_t ip, uint64_t from, bool noip)
{
	auto at = [&](uint64_t a) { return a < ks ? l_user : l_kernel; }; auto other = [](Loc x) { return x == l_unknown ? l_unknown : x == l_user || x == l_luser ? l_lkernel : l_luser; };
	switch (e.type) { case ptev_paging: return l_lkernel; case ptev_async_paging: return noip ? l_lkernel : at(ip); case ptev_disabled: return noip ? other(l) : at(ip); case ptev_async_disabled: return noip ? other(at(from)) : at(ip); default: return noip ? l_unknown : at(ip); }
}
static std::string pstr(const PRec &p) { return strf("+%zx tsc %llx ", p.off, (ull)p.tsc) + fields((int)p.r.type) + " " + str(p.r); }

static void make_channel(Source &s, Hist &h, PDec &d, size_t nd, bool timeless)
{
	d.k.size = sizeof(d.k); memset((uint8_t *)&d.k, 0, sizeof(d.k)); d.k.size = sizeof(d.k) + (s.chance(1, 8) ? 8 : 0); static const char *const roots[] = {"", "/proc", "/proc/self", "/proc/self/fd/"}; bool root = s.chance(1, 3); if (root) d.sysroot = roots[s.below(4)];
	d.st = (s.chance(3, 4) ? s_tid : 0u) | (timeless && s.flip() ? 0u : s_time); for (unsigned b : {s_id, s_cpu, s_stream, s_ident}) if (s.chance(1, 4)) d.st |= b;
	if (s.chance(1, 4)) { d.st |= s_ident; d.types = {{7, d.st}, {8, (unsigned)(s_ident | s_tid | (timeless ? 0 : s_time))}}; d.sc.resize(sizeof(pev_sample_config) + 2 * sizeof(pev_sample_type)); pev_sample_config *sc = (pev_sample_config *)d.sc.data(); sc->nstypes = 2; for (int i = 0; i < 2; ++i) { sc->stypes[i].identifier = d.types[(size_t)i].first; sc->stypes[i].sample_type = d.types[(size_t)i].second; } }
	uint16_t shift = (uint16_t)s.below(4); uint64_t zero = s.range(1, 1000000); uint64_t off = 8 * s.below(s.chance(1, 4) ? 1000 : 10) + (uint64_t)d.id; if (s.flip()) off = 0 - (off + 8 - 2 * (uint64_t)d.id); // distinct for each channel modulo 8
	bool clamp = nd == 1 && s.chance(1, 4); if (clamp) off = s.flip() ? s.bits(62) : 0 - s.bits(63);
	if (s.chance(1, 4)) d.begin = s.range(1, 40); for (size_t i = 0; i < d.begin; ++i) d.bytes.push_back(s.byte());
	size_t n = s.below(s.chance(1, 4) ? 30 : 10); uint64_t t = 8000 + 8 * s.below(100) + (clamp && s.flip() ? s.bits(3) << 61 : 0), t0 = t; bool rnd = s.chance(1, 8);
	for (size_t i = 0; i < n; ++i) {
		t = rnd ? t0 + 8 * s.below(400) : t + (s.chance(1, 4) ? 0 : 8 * s.below(40)); PRec p = gen_rec(s, d, h, zero + (t >> shift)); uint64_t x = (t >> shift) << shift;
		if (p.r.st & s_time) { if (!off || (int64_t)off > 0) p.tsc = x > off ? x - off : 0; else p.tsc = x > UINT64_MAX - (0 - off) ? UINT64_MAX : x + (0 - off); } else p.tsc = 0;
		p.off = d.bytes.size(); Bytes b = layout(p.r); if (b.size() > 65535) continue; d.bytes.insert(d.bytes.end(), b.begin(), b.end()); d.rs.push_back(p);
	}
	d.endpos = d.bytes.size(); size_t end = 0;
	switch (s.below(6)) { case 0: { d.bad = true; Bytes g; put(g, s.range(1, 14), 4); put(g, 0, 2); put(g, s.below(8), 2); for (size_t i = s.below(20); i; --i) g.push_back(s.byte()); d.bytes.insert(d.bytes.end(), g.begin(), g.end()); break; }
	case 1: { end = d.bytes.size(); size_t k = s.range(0, 30); for (size_t i = 0; i < k; ++i) d.bytes.push_back(s.byte()); if (end <= d.begin) end = 0, d.bytes.resize(d.endpos); break; } case 2: { PRec p = gen_rec(s, d, h, zero + 1000); Bytes b = layout(p.r); b.resize(s.range(1, b.size() - 1)); d.bytes.insert(d.bytes.end(), b.begin(), b.end()); break; } case 3: end = d.bytes.size() + s.below(100) + 1; break; default: break; }
	d.fd = memfd_create("ch", 0); CHECK(d.fd >= 0 && write(d.fd, d.bytes.data(), d.bytes.size()) == (ssize_t)d.bytes.size(), "memfd"); d.name = strf("/proc/self/fd/%d", d.fd); h.byname[d.name] = &d;
	for (int i = 0; i < 3; ++i) { d.vfile[i] = s.chance(4, 5) ? f_vdso + i : -1; if (d.vfile[i] >= 0) d.vdso[i] = pool()[(size_t)d.vfile[i]].name; }
	d.k.filename = d.name.c_str(); d.k.begin = d.begin; d.k.end = end; d.k.sysroot = root ? d.sysroot.c_str() : nullptr; d.k.vdso_x64 = d.vfile[0] >= 0 ? d.vdso[0].c_str() : nullptr; d.k.vdso_x32 = d.vfile[1] >= 0 ? d.vdso[1].c_str() : nullptr; d.k.vdso_ia32 = d.vfile[2] >= 0 ? d.vdso[2].c_str() : nullptr;
	d.k.tsc_offset = off; d.k.sample_type = d.types.empty() ? d.st : s.bits(10); d.k.kernel_start = h.kstart; d.k.time_shift = shift; d.k.time_mult = 1; d.k.time_zero = zero; d.k.primary = d.primary; d.k.sample_config = d.types.empty() ? nullptr : (pev_sample_config *)d.sc.data();
	if (h.byname.size() > 10) fail("names");
}
static void check_image(pt_image *im, const MCtx &x, const char *what)
{
	pt_asid as; pt_asid_init(&as); std::set<uint64_t> at; for (auto &m : x.m) { at.insert(m.addr); at.insert(m.addr - 1); at.insert(m.addr + m.size - 1); at.insert(m.addr + m.size); at.insert(m.addr + m.size / 2); } at.insert(0x10000);
	for (uint64_t a : at) { uint8_t b = 0x5a; int isid = 0, e = pt_image_read(im, &isid, &b, 1, &as, a), w = x.get(a); CHECK(w < 0 ? e == -pte_nomap : e == 1 && b == w, "%s: reading %llx of process %x: %d (%02x), expected %d", what, (ull)a, x.pid, e, b, w); }
}
