// C04: no input makes a decoder misbehave.
#include "sim.hpp"
#include "drv.h"
#include <sys/wait.h>
#include <signal.h>
#include <fcntl.h>
using namespace sim; using namespace wire;

// --- cases as bytes, see drv.c -----------------------------------------------------
struct CaseRegion { uint8_t kind; uint64_t base, cr3 = 0, vmcs = 0; Bytes bytes; };
struct Case {
	uint8_t layer = 0, mtc = 0, nom = 0; uint32_t flags = 0; uint16_t eax = 0, ebx = 0;
	struct Filter { uint8_t cfg; uint64_t a, b; }; std::vector<Filter> filter; std::vector<CaseRegion> reg; struct Op { uint8_t op; uint16_t arg; }; std::vector<Op> ops; Bytes trace;
	Bytes bytes() const
	{
		Bytes b; b.push_back(layer); put(b, flags, 4); b.push_back(mtc); put(b, eax, 2); put(b, ebx, 2); b.push_back(nom);
		b.push_back((uint8_t)filter.size()); for (auto &f : filter) { b.push_back(f.cfg); put(b, f.a, 8); put(b, f.b, 8); }
		b.push_back((uint8_t)reg.size()); for (auto &r : reg) { b.push_back(r.kind); put(b, r.base, 8); if (r.kind & 4) put(b, r.cr3, 8); if (r.kind & 8) put(b, r.vmcs, 8); put(b, r.bytes.size(), 2); b.insert(b.end(), r.bytes.begin(), r.bytes.end()); }
		b.push_back((uint8_t)ops.size()); for (auto &o : ops) { b.push_back(o.op); put(b, o.arg, 2); }
		b.insert(b.end(), trace.begin(), trace.end()); return b;
	}
	std::string str() const
	{
		static const char *ln[] = {"pkt", "evt", "qry", "insn", "blk"}; static const char *on[] = {"loop", "fwd", "bwd", "set", "next", "event", "info", "short", "cond", "ind", "image"};
		std::string o = strf("layer %s flags %x mtc_freq %u cpuid %u/%u nom %u\n", ln[layer % 5], flags, mtc, eax, ebx, nom);
		for (auto &f : filter) o += strf("filter %u %llx..%llx\n", f.cfg, (unsigned long long)f.a, (unsigned long long)f.b);
		for (auto &r : reg) o += strf("region kind %x base %llx cr3 %llx vmcs %llx size %zu: %s\n", r.kind, (unsigned long long)r.base, (unsigned long long)r.cr3, (unsigned long long)r.vmcs, r.bytes.size(), hex(r.bytes, 64).c_str());
		o += "ops:"; for (auto &p : ops) o += strf(" %s(%u)", on[p.op % dop_max], p.arg); o += "\ntrace:\n";
		size_t pos = 0; while (pos < trace.size()) { pt_packet q; int n = wire::decode(q, trace.data() + pos, trace.size() - pos); if (n <= 0) { o += strf("%5zx ? %s\n", pos, hex(trace.data() + pos, std::min<size_t>(16, trace.size() - pos)).c_str()); pos++; continue; } if (q.type != ppt_pad) o += strf("%5zx %s\n", pos, wire::str(q).c_str()); pos += (size_t)n; }
		return o;
	}
};

// --- the MemorySanitizer child -------------------------------------------------------
struct Child { pid_t pid = -1; int in = -1, out = -1; std::string err; };
static Child g_child;
static bool readn(int fd, void *p, size_t n) { char *c = (char *)p; while (n) { ssize_t r = read(fd, c, n); if (r <= 0) return false; c += r; n -= (size_t)r; } return true; }
static bool writen(int fd, const void *p, size_t n) { const char *c = (const char *)p; while (n) { ssize_t r = write(fd, c, n); if (r <= 0) return false; c += r; n -= (size_t)r; } return true; }
static void child_start()
{
	const char *bin = getenv("VERIF_MSAN"); CHECK(bin, "VERIF_MSAN is not set");
	signal(SIGPIPE, SIG_IGN);
	int a[2], b[2]; if (pipe2(a, O_CLOEXEC) || pipe2(b, O_CLOEXEC)) throw Discard{};
	int e = memfd_create("err", 0); if (e < 0) throw Discard{};
	pid_t p = fork(); if (p < 0) throw Discard{};
	if (!p) { dup2(a[0], 0); dup2(b[1], 1); dup2(e, 2); execl(bin, bin, (char *)nullptr); _exit(126); }
	close(a[0]); close(b[1]); g_child.pid = p; g_child.in = a[1]; g_child.out = b[0]; g_child.err = strf("/proc/self/fd/%d", e);
}
static void child_run(const Bytes &b, drv_stat &st, char *msg)
{
	static pid_t owner = -1; if (g_child.pid < 0 || owner != getpid()) { child_start(); owner = getpid(); }
	uint32_t n = (uint32_t)b.size();
	if (writen(g_child.in, &n, 4) && writen(g_child.in, b.data(), n) && readn(g_child.out, &st, sizeof(st)) && readn(g_child.out, msg, 256)) return;
	int w = 0; waitpid(g_child.pid, &w, 0); g_child.pid = -1; close(g_child.in); close(g_child.out);
	if (WIFSIGNALED(w) && WTERMSIG(w) == SIGKILL) throw Discard{};
	std::string e; if (FILE *f = fopen(g_child.err.c_str(), "r")) { char t[4000]; rewind(f); size_t k = fread(t, 1, sizeof(t) - 1, f); t[k] = 0; e = t; fclose(f); }
	fprintf(stderr, "%s\n", e.c_str());
	fail("with MemorySanitizer: child ended with status %#x: %s", w, e.substr(0, 600).c_str());
}

static void check(Ctx &c, const Case &cs, bool msan)
{
	c.describe([&] { return cs.str(); });
	Bytes b = cs.bytes(); drv_stat st;
	if (msan) {
		char m[256]; child_run(b, st, m); CHECK(!m[0], "%s", m);
		drv_stat st2; const char *r = drv_run(b.data(), b.size(), &st2); CHECK(!r, "%s", r);
		CHECK(st.hash == st2.hash && st.calls == st2.calls, "the outcome depends on something else than the input: %llx %llx after %llu %llu calls", (unsigned long long)st.hash, (unsigned long long)st2.hash, (unsigned long long)st.calls, (unsigned long long)st2.calls);
	} else { const char *r = drv_run(b.data(), b.size(), &st); CHECK(!r, "%s", r); }
	c.label("API calls", st.calls); c.label("items", st.items); c.label("errors", st.errors);
	for (unsigned e = 1; e < 40; ++e) if (st.errmask >> e & 1) c.label(pt_errstr((pt_error_code)e));
	if (st.syncs && st.items >= 3 && st.calls >= 5) c.nontrivial(mix(st.hash, fnv(b.data(), b.size())));
}

// --- generators ----------------------------------------------------------------------
static uint16_t oparg(Source &s, size_t len) { switch (s.below(4)) { case 0: return (uint16_t)s.below(4); case 1: return (uint16_t)s.below(64); case 2: return (uint16_t)s.below(len + 8); default: return (uint16_t)s.bits(16); } }
static void gen_ops(Source &s, Case &c)
{
	if (s.chance(1, 3)) return;
	size_t n = s.range(1, 24); 
	for (size_t i = 0; i < n; ++i) {
		uint8_t op = (uint8_t)s.weighted({5, 2, 2, 2, 5, 4, 2, 1, 3, 3, 1});
		uint16_t a = op == dop_loop ? (uint16_t)s.below(60) : oparg(s, c.trace.size());
		if (op == dop_set && s.chance(2, 3)) { // at a PSB
			std::vector<size_t> o; for (size_t k = 0; k + 16 <= c.trace.size() && o.size() < 16; ++k) if (c.trace[k] == 2 && c.trace[k + 1] == 0x82 && (!k || c.trace[k - 1] != 0x82)) o.push_back(k);
			if (!o.empty()) a = (uint16_t)s.pick(o);
		}
		c.ops.push_back({op, a});
	}
}
static void gen_config(Source &s, Case &c)
{
	if (s.chance(1, 4)) c.flags |= 1u << s.below(10);
	if (s.chance(1, 16)) c.flags |= (uint32_t)s.bits(10);
	c.flags |= (uint32_t)s.bits(6) << 16;
	if (s.flip()) { c.mtc = (uint8_t)s.below(16); c.eax = (uint16_t)s.interesting(s.flip() ? 4 : 16); c.ebx = (uint16_t)s.interesting(s.flip() ? 8 : 16); c.nom = s.byte(); }
	if (s.chance(1, 8)) { size_t n = s.range(1, 2); while (n--) c.filter.push_back({(uint8_t)s.below(3), s.interesting(64), s.interesting(64)}); }
}
// Damage a trace.
static void mutate(Source &s, Bytes &t, const std::vector<size_t> &bounds)
{
	if (t.empty()) return;
	auto packet = [&](size_t &b, size_t &e) { if (bounds.empty() || s.chance(1, 6)) { b = s.below(t.size()); e = std::min(t.size(), b + s.range(1, 9)); return; } size_t i = s.below(bounds.size()); b = bounds[i]; e = i + 1 < bounds.size() ? bounds[i + 1] : t.size(); if (b > t.size()) b = t.size(); if (e > t.size()) e = t.size(); if (e < b) e = b; };
	for (size_t n = s.weighted({1, 4, 3, 2, 1, 1}); n; --n) {
		size_t b, e, b2, e2; if (t.empty()) return; packet(b, e);
		switch (s.weighted({4, 3, 4, 3, 2, 2, 1, 1, 2})) {
		case 0: if (e > b) t[b + s.below(e - b)] ^= (uint8_t)(1u << s.below(8)); break;
		case 1: if (e > b) t[b + s.below(e - b)] = s.byte(); break;
		case 2: t.erase(t.begin() + (long)b, t.begin() + (long)e); break;
		case 3: { Bytes p; encode(p, gen_packet(s, true)); t.insert(t.begin() + (long)b, p.begin(), p.end()); } break;
		case 4: { Bytes p(t.begin() + (long)b, t.begin() + (long)e); packet(b2, e2); t.insert(t.begin() + (long)b2, p.begin(), p.end()); } break;
		case 5: { packet(b2, e2); Bytes p(t.begin() + (long)b, t.begin() + (long)e); Bytes q(t.begin() + (long)b2, t.begin() + (long)e2); if (b >= e2) { t.erase(t.begin() + (long)b, t.begin() + (long)e); t.insert(t.begin() + (long)b2, p.begin(), p.end()); } } break;
		case 6: t.resize(b); break;
		case 7: { Bytes p(s.range(1, 3), s.byte()); t.insert(t.begin() + (long)b, p.begin(), p.end()); } break;
		default: { Bytes p; pt_packet q = gen_packet(s, true, s.pick(std::vector<pt_packet_type>{ppt_psb, ppt_psbend, ppt_ovf, ppt_tip, ppt_tip_pgd, ppt_tip_pge, ppt_fup, ppt_tnt_8, ppt_tnt_64, ppt_mode, ppt_pip, ppt_vmcs, ppt_trig, ppt_ptw, ppt_cfe, ppt_stop})); encode(p, q); packet(b2, e2); t.insert(t.begin() + (long)b2, p.begin(), p.end()); } break;
		}
	}
}
// A long run of the same few packets, often in a header: whatever the decoder queues, it gets more of it than fits.
static void flood(Source &s, Bytes &t, const std::vector<size_t> &bounds)
{
	static const std::vector<pt_packet_type> ty = {ppt_mode, ppt_mode, ppt_mode, ppt_pip, ppt_vmcs, ppt_fup, ppt_tip, ppt_tip_pgd, ppt_tip_pge, ppt_tnt_8, ppt_tnt_64, ppt_ptw, ppt_cfe, ppt_evd, ppt_trig, ppt_exstop, ppt_mwait, ppt_pwre, ppt_pwrx, ppt_ovf, ppt_stop, ppt_psb, ppt_psbend, ppt_cbr, ppt_tsc, ppt_tma, ppt_mtc, ppt_cyc, ppt_mnt, ppt_pad};
	Bytes run; size_t kinds = s.weighted({0, 5, 2, 1}), n = s.chance(1, 3) ? s.range(2, 40) : s.range(40, 400);
	for (size_t i = 0; i < kinds; ++i) encode(run, gen_packet(s, true, s.pick(ty)));
	std::vector<size_t> heads; for (size_t k = 0; k + 16 <= t.size() && heads.size() < 16; ++k) if (t[k] == 2 && t[k + 1] == 0x82 && (k + 17 >= t.size() || t[k + 16] != 2 || t[k + 17] != 0x82)) { bool all = true; for (size_t j = 0; j < 16; j += 2) all = all && t[k + j] == 2 && t[k + j + 1] == 0x82; if (all) heads.push_back(k + 16); }
	size_t at = !heads.empty() && s.flip() ? s.pick(heads) : bounds.empty() ? s.below(t.size() + 1) : s.pick(bounds); if (at > t.size()) at = t.size();
	Bytes all; while (n-- && all.size() < 6000) all.insert(all.end(), run.begin(), run.end());
	t.insert(t.begin() + (long)at, all.begin(), all.end());
}
static void program(Source &s, Program &p, Case &c)
{
	for (auto &r : p.r) {
		if (c.reg.size() >= 4 || r.code.size() > 60000) break;
		if (!r.mapped && s.chance(3, 4)) continue;
		CaseRegion g; g.base = r.base; g.bytes = r.code; g.kind = (uint8_t)s.below(3); if (s.chance(1, 16) && !g.bytes.empty()) { if (s.flip()) g.bytes.resize(s.range(1, g.bytes.size())); else g.bytes[s.below(g.bytes.size())] = s.byte(); }
		if (r.cr && s.flip()) { g.kind |= 4; g.cr3 = p.cr3[r.cr]; }
		if (r.vm && s.flip()) { g.kind |= 8; g.vmcs = p.vmcs[r.vm]; }
		c.reg.push_back(g);
	}
}

// A run of a program with its trace damaged.
static void flow_case(Source &s, Case &c)
{
	Program p(s); p.generate(); Sim m(s, p); m.t.iflags = s.flip(); m.retcomp = s.flip(); m.defer = !m.retcomp && s.flip(); m.t.timing = s.flip(); m.corruption = s.chance(1, 6); m.run(s.range(3, 60));
	c.layer = (uint8_t)(s.chance(1, 8) ? s.below(3) : drv_insn + s.below(2)); gen_config(s, c); c.trace = m.t.out; mutate(s, c.trace, m.t.bounds); if (s.chance(1, 40)) flood(s, c.trace, m.t.bounds); program(s, p, c);
}
static void flow(Source &s, Ctx &x) { Case c; flow_case(s, c); gen_ops(s, c); check(x, c, false); }

// A legal sequence of packets, damaged.
static void events_case(Source &s, Case &c)
{
	Tracer t(s); EvGen g(t); t.iflags = s.flip(); t.cyc = s.flip(); g.run(s.range(1, 40));
	c.layer = (uint8_t)s.weighted({1, 6, 6, 1, 1}); gen_config(s, c); c.trace = t.out; if (s.chance(1, 30)) flood(s, c.trace, t.bounds); mutate(s, c.trace, t.bounds);
}
static void events(Source &s, Ctx &x) { Case c; events_case(s, c); gen_ops(s, c); check(x, c, false); }

// Code that nobody would write.
static Bytes junkcode(Source &s)
{
	Bytes b; size_t n = s.range(1, 24);
	for (size_t i = 0; i < n; ++i) switch (s.below(12)) {
	case 0: b.push_back(0xeb); b.push_back(s.chance(1, 2) ? 0xfe : (uint8_t)(s.below(16) - 8)); break;
	case 1: b.push_back((uint8_t)(0x70 + s.below(16))); b.push_back((uint8_t)(s.below(16) - 8)); break;
	case 2: b.push_back(0xe8); put(b, s.below(32) - 16, 4); break;
	case 3: b.push_back(0xc3); break;
	case 4: b.push_back(0xff); b.push_back(s.flip() ? 0xd0 : 0xe0); break;
	case 5: b.push_back(0x0f); b.push_back(s.pick(Bytes{0x05, 0x34, 0x35, 0x01, 0x07, 0x22, 0xc7, 0xae, 0xaa})); b.push_back(s.byte()); break;
	case 6: b.push_back(s.pick(Bytes{0xcf, 0xcc, 0xcd, 0xca, 0xcb, 0xf4, 0x9a, 0xea})); break;
	case 7: for (size_t k = s.range(1, 16); k; --k) b.push_back(s.pick(Bytes{0x66, 0x67, 0xf2, 0xf3, 0xf0, 0x2e, 0x48})); break;
	case 8: b.push_back(s.pick(Bytes{0xc4, 0xc5, 0x62, 0x8f})); put(b, s.bits(32), 4); break;
	case 9: b.push_back(s.byte()); break;
	case 10: b.insert(b.end(), {0xf3, 0x0f, 0xae, 0xe0}); break;
	default: b.push_back(0x90); break;
	}
	return b;
}
// Packets in any order behind a PSB, with addresses that hit the code.
static void soup_case(Source &s, Case &c)
{
	c.layer = (uint8_t)s.weighted({1, 2, 2, 5, 5}); gen_config(s, c);
	size_t nr = s.range(0, 3); uint64_t base = s.flip() ? 0x1000 : s.chance(1, 4) ? 0xfffffffffffff000ull : s.chance(1, 3) ? 0xfffffff0ull : 0x7ffffffff000ull;
	for (size_t i = 0; i < nr; ++i) { CaseRegion g; g.base = base + s.below(4) * (s.flip() ? 0x10 : 0x800); g.bytes = junkcode(s); g.kind = (uint8_t)s.below(s.chance(1, 4) ? 16 : 4); g.cr3 = s.below(3) << 12; g.vmcs = s.below(3) << 12; c.reg.push_back(g); }
	auto addr = [&]() -> uint64_t { if (c.reg.empty() || s.chance(1, 8)) return s.interesting(64); auto &g = s.pick(c.reg); return g.base + s.below(g.bytes.size() + 2); };
	static const std::vector<pt_packet_type> often = {ppt_tip, ppt_tip_pge, ppt_tip_pgd, ppt_fup, ppt_tnt_8, ppt_tnt_64, ppt_mode, ppt_psbend, ppt_ovf, ppt_pip, ppt_vmcs, ppt_trig, ppt_ptw, ppt_cfe, ppt_evd, ppt_exstop, ppt_mwait, ppt_cbr};
	size_t n = s.range(2, 40); bool fullmode = s.chance(3, 4);
	auto put1 = [&](pt_packet k) {
		switch (k.type) {
		case ppt_tip: case ppt_fup: case ppt_tip_pge: case ppt_tip_pgd: if (s.chance(7, 8)) { uint64_t a = addr(); static const pt_ip_compression ic[] = {pt_ipc_sext_48, pt_ipc_full, pt_ipc_update_16, pt_ipc_update_32, pt_ipc_suppressed}; k.payload.ip.ipc = ic[s.weighted({4, 2, 2, 2, 1})]; static const unsigned bits[] = {0, 16, 32, 48, 0, 0, 64}; unsigned w = bits[k.payload.ip.ipc]; k.payload.ip.ip = !w ? 0 : k.payload.ip.ipc == pt_ipc_sext_48 ? (uint64_t)((int64_t)(a << 16) >> 16) : w == 64 ? a : a & ((1ull << w) - 1); } break;
		case ppt_pip: k.payload.pip.cr3 = s.below(3) << 12; break; case ppt_vmcs: k.payload.vmcs.base = s.below(3) << 12; break;
		case ppt_mode: if (fullmode && k.payload.mode.leaf == pt_mol_exec && s.chance(3, 4)) { k.payload.mode.bits.exec.csl = 1; k.payload.mode.bits.exec.csd = 0; } break;
		case ppt_cfe: if (s.chance(3, 4)) { k.payload.cfe.type = (pt_cfe_type)s.below(16); k.payload.cfe.ip = s.flip(); } break;
		default: break;
		}
		encode(c.trace, k);
	};
	pt_packet k; memset(&k, 0, sizeof(k)); 
	auto psb = [&] { k.type = ppt_psb; encode(c.trace, k); size_t h = s.below(5); while (h--) put1(gen_packet(s, true, s.pick(std::vector<pt_packet_type>{ppt_mode, ppt_fup, ppt_pip, ppt_vmcs, ppt_tsc, ppt_tma, ppt_cbr, ppt_mnt, ppt_pad}))); k.type = ppt_psbend; if (s.chance(15, 16)) encode(c.trace, k); };
	psb();
	for (size_t i = 0; i < n; ++i) { if (s.chance(1, 20)) psb(); else put1(s.chance(2, 3) ? gen_packet(s, true, s.pick(often)) : gen_packet(s, true)); }
	if (s.chance(1, 30)) flood(s, c.trace, {});
	if (s.chance(1, 8)) mutate(s, c.trace, {});
}
static void soup(Source &s, Ctx &x) { Case c; soup_case(s, c); gen_ops(s, c); check(x, c, false); }

// Bytes that are not even packets.
static void raw(Source &s, Ctx &x)
{
	Case c; c.layer = (uint8_t)s.below(5); gen_config(s, c); static const Bytes psb = {2, 0x82, 2, 0x82, 2, 0x82, 2, 0x82, 2, 0x82, 2, 0x82, 2, 0x82, 2, 0x82};
	if (s.chance(3, 4)) c.trace = psb;
	for (size_t n = s.below(80); n; --n) { if (s.chance(1, 30)) c.trace.insert(c.trace.end(), psb.begin(), psb.end()); switch (s.below(4)) { case 0: c.trace.push_back(2); c.trace.push_back(s.byte()); break; case 1: c.trace.push_back((uint8_t)(s.pick(Bytes{1, 0xd, 0x11, 0x1d}) | s.below(8) << 5)); break; default: c.trace.push_back(s.byte()); break; } }
	CaseRegion g; g.base = s.below(3); g.bytes = junkcode(s); g.kind = (uint8_t)s.below(3); c.reg.push_back(g); gen_ops(s, c); check(x, c, false);
}
// All of these with MemorySanitizer.
static void uninit(Source &s, Ctx &x)
{
	Case c; switch (s.below(3)) { case 0: flow_case(s, c); break; case 1: events_case(s, c); break; default: soup_case(s, c); break; }
	gen_ops(s, c); check(x, c, true);
}
// Bytes from the coverage-guided fuzzer; tools/fuzz.py makes replay files of this suite.
static void fuzzed(Source &s, Ctx &c)
{
	size_t n = s.below(1 << 16); Bytes b; for (size_t i = 0; i < n; ++i) b.push_back(s.byte());
	c.log("%s\n", hex(b, 1 << 16).c_str()); drv_stat st; const char *r = drv_run(b.data(), b.size(), &st); CHECK(!r, "%s", r);
}
// Writes cases for the fuzzer to start from.
static int seeds(const char *dir, unsigned n)
{
	static uint64_t rec[1 << 17], nrec; 
	for (unsigned i = 0; i < n; ++i) {
		Source s(i * 7919 + 1, rec, &nrec, 1 << 17); Case c;
		try { switch (i % 3) { case 0: flow_case(s, c); break; case 1: events_case(s, c); break; default: soup_case(s, c); break; } gen_ops(s, c); } catch (...) { continue; }
		Bytes b = c.bytes(); if (b.size() > 4000) continue;
		FILE *f = fopen(strf("%s/seed%u", dir, i).c_str(), "w"); if (!f) return 2; fwrite(b.data(), 1, b.size(), f); fclose(f);
	}
	return 0;
}

int main(int argc, char **argv)
{
	if (argc == 4 && !strcmp(argv[1], "--seeds")) return seeds(argv[2], (unsigned)atoi(argv[3]));
	return run_main(argc, argv, "C04", {
		{"C04", "flow", "the trace of a simulated run with 0-5 mutations (bits, bytes, packets deleted, inserted, duplicated, moved, cut off) decoded with any layer, configuration and history of API calls; synchronized, at least three items delivered", flow, 300000, 6000000},
		{"C04", "events", "a legal packet sequence with mutations decoded with any layer and history of API calls; synchronized, at least three items delivered", events, 300000, 6000000},
		{"C04", "soup", "packets in arbitrary order behind a PSB with addresses in code of arbitrary bytes, any layer and history of API calls; synchronized, at least three items delivered", soup, 250000, 4000000},
		{"C04", "raw", "arbitrary bytes behind a PSB as trace and code; synchronized, at least three items delivered", raw, 400000, 8000000},
		{"C04", "uninit", "cases of the first three suites run in a process built with MemorySanitizer and again without it, with the same outcome; synchronized, at least three items delivered", uninit, 60000, 1500000},
		{"C04", "fuzzed", "", fuzzed, 0, 0},
	});
}
