// C18: ptdump prints the packets of a trace.
//
// ptdump's sources are compiled into the harness (main renamed to ptdump_tool_main)
// and run with its output streams redirected.  A reference printer walks the
// same trace with the packet decoder and writes down what has to appear; the
// columns, last-IP tracking, sideband records, option parsing and file ranges
// are modelled here, the time columns use libipt's time tracking, which C12
// decides.
#include "pevrec.hpp"
#include "wrap.hpp"
#include <memory>
#include <set>
#include <sys/mman.h>
#include <unistd.h>
extern "C" {
#include "pt_time.h"
#include "pt_cpu.h"
int ptdump_tool_main(int argc, char **argv);
}
typedef unsigned long long ull;

namespace {
struct Out { int rc; std::string out, err, leaks; };
Out run(const std::vector<std::string> &args)
{
	std::vector<std::vector<char>> store; std::vector<char *> argv; store.reserve(args.size() + 1);
	auto add = [&](const std::string &a) { store.emplace_back(a.begin(), a.end()); store.back().push_back(0); argv.push_back(store.back().data()); };
	add("ptdump"); for (auto &a : args) add(a); argv.push_back(nullptr);
	char *o = nullptr, *e = nullptr; size_t on = 0, en = 0; FILE *so = stdout, *se = stderr; Out r; fflush(so);
	FILE *fo = open_memstream(&o, &on), *fe = open_memstream(&e, &en); CHECK(fo && fe, "memstream"); stdout = fo; stderr = fe;
	{ wr::Guard g; r.rc = ptdump_tool_main((int)argv.size() - 1, argv.data()); r.leaks = wr::leaks(); }
	stdout = so; stderr = se; fclose(fo); fclose(fe); r.out.assign(o, on); r.err.assign(e, en); free(o); free(e); return r;
}
struct Fd { int fd = -1; std::string name; explicit Fd(const Bytes &b) { fd = memfd_create("c18", 0); CHECK(fd >= 0 && write(fd, b.data(), b.size()) == (ssize_t)b.size(), "memfd"); name = strf("/proc/self/fd/%d", fd); } ~Fd() { if (fd >= 0) ::close(fd); } Fd(const Fd &) = delete; };

struct Opt { bool offset = true, raw = false, lastip = false, em = false, track = false, time = false, tcal = false, delta = false, keep = false, quiet = false, nopad = false, nosync = false, notcal = false, nowall = false, notiming = false, nocyc = false; uint32_t sb = 0; pt_config k; };

// Expected lines: the text, or (diagnostics) its beginning and end.
struct Line { std::string text, tail; bool diag; };

struct SbRec { Rec r; size_t off; uint64_t tsc; };
struct SbFile { std::unique_ptr<Fd> fd; std::vector<SbRec> rs; size_t cur = 0; bool bad = false, gone = false; size_t endoff = 0; };

struct Ref {
	const Opt &o; std::vector<Line> lines; std::vector<std::unique_ptr<SbFile>> *sb = nullptr;
	pt_time_cal cal; pt_time tm; uint64_t ltsc = 0, lfcr = 0; bool hdr = false; bool have_ip = false, supp = false; uint64_t lip = 0;
	uint64_t h = 0; unsigned kinds = 0; size_t npk = 0, ntime = 0, nip = 0, nsb = 0, nerr = 0; std::set<int> types;

	explicit Ref(const Opt &opt) : o(opt) { reset(); }
	void reset() { pt_tcal_init(&cal); pt_time_init(&tm); ltsc = lfcr = 0; hdr = have_ip = supp = false; lip = 0; }
	void line(const std::string &t) { lines.push_back({t, "", false}); }
	void diag(uint64_t off, int e) { lines.push_back({strf("[%llx: ", (ull)off), e ? std::string(": ") + pt_errstr(pt_errcode(e)) + "]" : "]", true}); nerr++; }
	void dump_sb(uint64_t limit)
	{
		if (!sb) return;
		for (;;) {
			SbFile *f = nullptr; for (auto &x : *sb) if (!x->gone && x->cur < x->rs.size() && (!f || x->rs[x->cur].tsc < f->rs[f->cur].tsc)) f = x.get();
			if (!f || f->rs[f->cur].tsc > limit) return;
			SbRec &r = f->rs[f->cur]; std::string t = dump_record(r.r, f->fd->name, r.off, r.tsc, o.sb); nsb++;
			for (size_t i = 0; i < t.size();) { size_t j = t.find('\n', i); line(t.substr(i, j - i)); i = j + 1; }
			f->cur++; sb_end(*f);
		}
	}
	void sb_end(SbFile &f) { if (f.cur == f.rs.size() && f.bad) lines.push_back({strf("[%s:%016llx sideband error: ", f.fd->name.c_str(), (ull)f.endoff), "]", true}); }

	struct Cols { std::string raw, op, pay, id, tr; bool skip = false; };
	void time_column(uint64_t off, Cols &c, bool cal_here, bool time_here)
	{
		if (o.tcal && cal_here) {
			uint64_t f = 0; int e = pt_tcal_fcr(&f, &cal); c.id = "fcr";
			if (e < 0) { c.tr = "<unavailable>"; diag(off, e); }
			else { double d = (double)f / (double)(1ull << pt_tcal_fcr_shr), l = (double)lfcr / (double)(1ull << pt_tcal_fcr_shr); c.tr = o.delta ? strf("%+.3f", d - l) : strf("%.3f", d); lfcr = f; ntime++; }
		}
		uint64_t t = 0; int e = pt_time_query_tsc(&t, nullptr, nullptr, &tm);
		if (o.time && time_here) {
			c.id = "tsc";
			if (e < 0 && !(e == -pte_no_time && o.nowall)) { c.tr = "<unavailable>"; diag(off, e); }
			else { c.tr = !o.delta ? strf("%016llx", (ull)t) : t >= ltsc ? strf("+%llx", (ull)(t - ltsc)) : strf("-%llx", (ull)(ltsc - t)); ltsc = t; ntime++; }
		}
		if (e < 0 && e != -pte_no_time) diag(off, e); else dump_sb(t);
		if (c.tr.size() > 16) c.tr.resize(16);
	}
	void err(uint64_t off, int e) { if (e < 0) diag(off, e); }
	void ip(uint64_t off, const pt_packet_ip &p, Cols &c)
	{
		static const int digits[] = {0, 4, 8, 16, 12, 0, 16}; unsigned n = (unsigned)digits[p.ipc]; uint64_t v = p.ip; if (p.ipc == pt_ipc_sext_48) v = (uint64_t)((int64_t)(v << 16) >> 16);
		std::string q(16 - n, '?'); if (n) q += strf("%0*llx", (int)n, (ull)v); c.pay = strf("%x: ", (unsigned)p.ipc) + q;
		auto low = [&](unsigned b) { lip = (lip & ~((1ull << b) - 1)) | (p.ip & ((1ull << b) - 1)); };
		switch (p.ipc) { case pt_ipc_suppressed: supp = true; break; case pt_ipc_update_16: low(16); break; case pt_ipc_update_32: low(32); break; case pt_ipc_update_48: low(48); break; case pt_ipc_sext_48: lip = v; break; case pt_ipc_full: lip = p.ip; break; }
		if (p.ipc != pt_ipc_suppressed) have_ip = true, supp = false;
		if (!o.lastip) return;
		c.id = "ip"; nip++; if (!have_ip) { c.tr = "<unavailable>"; diag(off, -pte_noip); } else if (supp) c.tr = "<suppressed>"; else c.tr = strf("%016llx", (ull)lip);
	}
	void packet(uint64_t off, const pt_packet &p)
	{
		Cols c; npk++; types.insert(p.type); kinds |= 1u << (p.type % 31); h = mix(h, (uint64_t)p.type); const auto &v = p.payload;
		if (o.raw) c.raw = hex(o.k.begin + off, p.size);
		switch (p.type) {
		case ppt_psb: c.op = "psb"; if (o.track) err(off, pt_tcal_update_psb(&cal, &o.k)); hdr = true; have_ip = supp = false; lip = 0; break;
		case ppt_psbend: c.op = "psbend"; hdr = false; break;
		case ppt_pad: c.op = "pad"; c.skip = o.nopad; break;
		case ppt_ovf: c.op = "ovf"; hdr = false; /* an overflow ends PSB+ */ if (o.track) { if (o.keep) err(off, pt_tcal_update_ovf(&cal, &o.k)); else pt_tcal_init(&cal); } break;
		case ppt_stop: c.op = "stop"; break;
		case ppt_fup: c.op = "fup"; ip(off, v.ip, c); break;
		case ppt_tip: c.op = "tip"; ip(off, v.ip, c); break;
		case ppt_tip_pge: c.op = "tip.pge"; ip(off, v.ip, c); break;
		case ppt_tip_pgd: c.op = "tip.pgd"; ip(off, v.ip, c); break;
		case ppt_pip: c.op = "pip"; c.pay = strf("%llx", (ull)v.pip.cr3) + (v.pip.nr ? ", nr" : ""); c.id = "cr3"; c.tr = strf("%016llx", (ull)v.pip.cr3); break;
		case ppt_vmcs: c.op = "vmcs"; c.pay = strf("%llx", (ull)v.vmcs.base); c.id = "vmcs"; c.tr = strf("%016llx", (ull)v.vmcs.base); break;
		case ppt_tnt_8: case ppt_tnt_64: c.op = p.type == ppt_tnt_8 ? "tnt.8" : "tnt.64"; for (int i = v.tnt.bit_size - 1; i >= 0; --i) c.pay += v.tnt.payload >> i & 1 ? '!' : '.'; break;
		case ppt_mode: {
			std::vector<std::string> b;
			if (v.mode.leaf == pt_mol_exec) {
				unsigned d = v.mode.bits.exec.csd, l = v.mode.bits.exec.csl; c.op = "mode.exec"; if (d) b.push_back("cs.d"); if (l) b.push_back("cs.l"); if (v.mode.bits.exec.iflag) b.push_back("if");
				if (o.em) c.id = "em", c.tr = l ? d ? "unknown" : "64-bit" : d ? "32-bit" : "16-bit";
			} else if (v.mode.leaf == pt_mol_tsx) { c.op = "mode.tsx"; if (v.mode.bits.tsx.intx) b.push_back("intx"); if (v.mode.bits.tsx.abrt) b.push_back("abrt"); }
			else { c.op = "mode"; b.push_back(strf("leaf: %x", (unsigned)v.mode.leaf)); diag(off, 0); }
			for (auto &x : b) c.pay += (c.pay.empty() ? "" : ", ") + x; break;
		}
		case ppt_tsc: c.op = "tsc"; c.pay = strf("%llx", (ull)v.tsc.tsc); if (o.track) { if (!o.notcal) err(off, hdr ? pt_tcal_header_tsc(&cal, &v.tsc, &o.k) : pt_tcal_update_tsc(&cal, &v.tsc, &o.k)); err(off, pt_time_update_tsc(&tm, &v.tsc, &o.k)); time_column(off, c, true, true); } c.skip = o.notiming; break;
		case ppt_cbr: c.op = "cbr"; c.pay = strf("%x", v.cbr.ratio); if (o.track) { if (!o.notcal) err(off, hdr ? pt_tcal_header_cbr(&cal, &v.cbr, &o.k) : pt_tcal_update_cbr(&cal, &v.cbr, &o.k)); err(off, pt_time_update_cbr(&tm, &v.cbr, &o.k)); time_column(off, c, true, false); } c.skip = o.notiming; break;
		case ppt_tma: c.op = "tma"; c.pay = strf("%x, %x", v.tma.ctc, v.tma.fc); if (o.track) { if (!o.notcal) err(off, pt_tcal_update_tma(&cal, &v.tma, &o.k)); err(off, pt_time_update_tma(&tm, &v.tma, &o.k)); time_column(off, c, false, true); } c.skip = o.notiming; break;
		case ppt_mtc: c.op = "mtc"; c.pay = strf("%x", v.mtc.ctc); if (o.track) { if (!o.notcal) err(off, pt_tcal_update_mtc(&cal, &v.mtc, &o.k)); err(off, pt_time_update_mtc(&tm, &v.mtc, &o.k)); time_column(off, c, true, true); } c.skip = o.notiming; break;
		case ppt_cyc: c.op = "cyc"; c.pay = strf("%llx", (ull)v.cyc.value); if (o.track && !o.nocyc) { uint64_t f = 0; if (!o.notcal) { err(off, pt_tcal_fcr(&f, &cal)); err(off, pt_tcal_update_cyc(&cal, &v.cyc, &o.k)); } int e = pt_time_update_cyc(&tm, &v.cyc, &o.k, f); if (e < 0) diag(off, e); else if (!f) diag(off, 0); time_column(off, c, false, true); } c.skip = o.notiming || o.nocyc; break;
		case ppt_mnt: c.op = "mnt"; c.pay = strf("%llx", (ull)v.mnt.payload); break;
		case ppt_exstop: c.op = "exstop"; if (v.exstop.ip) c.pay = "ip"; break;
		case ppt_mwait: c.op = "mwait"; c.pay = strf("%08x, %08x", v.mwait.hints, v.mwait.ext); break;
		case ppt_pwre: c.op = "pwre"; c.pay = strf("c%u.%u%s", (v.pwre.state + 1u) & 15, (v.pwre.sub_state + 1u) & 15, v.pwre.hw ? ", hw" : ""); break;
		case ppt_pwrx: { unsigned k = v.pwrx.interrupt + v.pwrx.store * 2u + v.pwrx.autonomous * 4u; c.op = "pwrx"; c.pay = strf("%s: c%u, c%u", k == 1 ? "int" : k == 2 ? " st" : k == 4 ? " hw" : "bad", (v.pwrx.last + 1u) & 15, (v.pwrx.deepest + 1u) & 15); break; }
		case ppt_ptw: c.op = "ptw"; c.pay = strf("%x: %llx%s", v.ptw.plc, (ull)v.ptw.payload, v.ptw.ip ? ", ip" : ""); break;
		case ppt_cfe: {
			unsigned t = v.cfe.type; c.op = "cfe"; c.pay = strf("%u", t); if (t == pt_cfe_intr || t == pt_cfe_vmexit_intr || t == pt_cfe_uintr) c.pay += strf(": %u", v.cfe.vector); else if (t == pt_cfe_sipi) c.pay += strf(": %x", v.cfe.vector); if (v.cfe.ip) c.pay += ", ip"; break; }
		case ppt_evd: c.op = "evd"; c.pay = strf("%u: %llx", (unsigned)v.evd.type, (ull)v.evd.payload); break;
		case ppt_trig: c.op = "trig"; c.pay = strf("%02x%s%s", v.trig.trbv, v.trig.ip ? ", ip" : "", v.trig.mult ? ", mult" : ""); if (v.trig.icntv) c.pay += strf(", icnt: %u", v.trig.icnt); break;
		case ppt_invalid: c.op = "<invalid>"; break; // erratum SKZ84
		default: fail("packet type %d at +%llx: %s", (int)p.type, (ull)off, hex(o.k.begin + off, std::min<size_t>(16, (size_t)(o.k.end - o.k.begin - off))).c_str());
		}
		if (c.skip || o.quiet) return;
		std::string s; auto pad = [](std::string x, size_t n) { if (x.size() < n) x += std::string(n - x.size(), ' '); return x; }; auto sep = [&] { if (!s.empty()) s += " "; };
		if (o.offset) s = pad(strf("%016llx", (ull)off), 17);
		if (!c.raw.empty()) { sep(); s += pad(c.raw, 33); }
		sep(); s += c.pay.empty() ? c.op : pad(c.op, 10);
		if (!c.id.empty()) s += " " + pad(c.pay, 25) + " " + pad(c.id, 5) + c.tr; else if (!c.pay.empty()) s += " " + c.pay;
		line(s);
	}
	// Returns whether ptdump succeeds.
	bool dump()
	{
		pt_packet_decoder *d = pt_pkt_alloc_decoder(&o.k); CHECK(d, "decoder"); struct G { pt_packet_decoder *d; ~G() { pt_pkt_free_decoder(d); } } g{d};
		if (sb) for (auto &f : *sb) sb_end(*f);
		int e = o.nosync ? pt_pkt_sync_set(d, 0) : pt_pkt_sync_forward(d); bool first = true;
		for (; e >= 0; e = pt_pkt_sync_forward(d)) {
			if (!first) reset();
			first = false;
			for (;;) { uint64_t off = 0; e = pt_pkt_get_offset(d, &off); CHECK(e >= 0, "offset: %d", e); pt_packet p; memset(&p, 0, sizeof(p)); e = pt_pkt_next(d, &p, sizeof(p)); if (e == -pte_eos) { dump_sb(UINT64_MAX); return true; } if (e < 0) { diag(off, e); break; } packet(off, p); }
		}
		if (e == -pte_eos) { dump_sb(UINT64_MAX); return true; }
		diag(0, e); return false;
	}
};

void compare(const std::vector<Line> &want, const std::string &got)
{
	size_t i = 0, n = 0; const char *where = "";
	for (;; ++n) {
		size_t j = got.find('\n', i); bool end = i >= got.size(); CHECK(end || j != std::string::npos, "the output ends within a line"); std::string l = end ? "" : got.substr(i, j - i);
		if (n == want.size()) { CHECK(end, "line %zu: additional '%s'", n + 1, l.c_str()); return; }
		const Line &w = want[n]; CHECK(!end, "line %zu: '%s%s' is missing", n + 1, w.text.c_str(), w.tail.c_str());
		if (w.diag) CHECK(l.size() >= w.text.size() + w.tail.size() && !l.compare(0, w.text.size(), w.text) && !l.compare(l.size() - w.tail.size(), w.tail.size(), w.tail), "line %zu: '%s' instead of '%s...%s'", n + 1, l.c_str(), w.text.c_str(), w.tail.c_str());
		else CHECK(l == w.text, "line %zu%s: '%s' instead of '%s'", n + 1, where, l.c_str(), w.text.c_str());
		i = j + 1;
	}
}

uint64_t fnvs(const std::string &x) { return fnv(x.data(), x.size()); }
std::string num(Source &s, uint64_t v) { switch (s.below(4)) { case 0: return strf("0x%llx", (ull)v); case 1: return strf("0%llo", (ull)v); default: return strf("%llu", (ull)v); } }

// Random options with their arguments.
void options(Source &s, Opt &o, std::vector<std::string> &a, bool timing)
{
	auto on = [&](unsigned n, const char *name, bool &f, bool val = true) { if (s.chance(1, n)) { a.push_back(name); f = val; } };
	on(5, "--no-offset", o.offset, false); on(3, "--raw", o.raw); on(2, "--lastip", o.lastip); on(2, "--exec-mode", o.em); on(6, "--no-pad", o.nopad); on(8, "--no-timing", o.notiming); on(8, "--no-cyc", o.nocyc); on(12, "--quiet", o.quiet); on(3, "--no-sync", o.nosync);
	if (timing || s.chance(1, 3)) { bool cal = s.chance(1, 3); if (s.chance(7, 8)) { a.push_back(cal ? "--tcal" : "--time"); o.track = true; (cal ? o.tcal : o.time) = true; } on(3, "--time-delta", o.delta); on(8, "--no-tcal", o.notcal); on(3, "--no-wall-clock", o.nowall); on(3, "--keep-tcal-on-ovf", o.keep); }
	if (s.chance(2, 3)) { uint64_t v = s.chance(1, 6) ? s.below(16) : s.below(10); a.push_back("--mtc-freq"); a.push_back(num(s, v)); o.k.mtc_freq = (uint8_t)v; }
	if (s.chance(1, 2)) { uint64_t v = s.byte(); a.push_back("--nom-freq"); a.push_back(num(s, v)); o.k.nom_freq = (uint8_t)v; }
	if (s.chance(2, 3)) { uint64_t v = s.chance(1, 8) ? s.interesting(32) : s.range(1, 3), w = s.chance(1, 8) ? s.interesting(32) : s.range(1, 300); a.push_back("--cpuid-0x15.eax"); a.push_back(num(s, v)); a.push_back("--cpuid-0x15.ebx"); a.push_back(num(s, w)); o.k.cpuid_0x15_eax = (uint32_t)v; o.k.cpuid_0x15_ebx = (uint32_t)w; }
	if (s.chance(1, 4)) {
		static const struct { unsigned f, m, st; } cpus[] = {{6, 61, 0}, {6, 71, 1}, {6, 78, 3}, {6, 94, 0}, {6, 142, 10}, {6, 92, 2}, {6, 85, 4}, {6, 23, 0}, {7, 1, 0}}; auto &k = cpus[s.below(9)]; a.push_back("--cpu");
		if (s.chance(1, 6)) a.push_back("none"); else { bool st = s.flip(); a.push_back(strf("%u/%u", k.f, k.m) + (st ? strf("/%u", k.st) : "")); o.k.cpu.vendor = pcv_intel; o.k.cpu.family = (uint16_t)k.f; o.k.cpu.model = (uint8_t)k.m; o.k.cpu.stepping = (uint8_t)(st ? k.st : 0); }
	}
	for (size_t i = s.below(3); i && a.size() > 1; --i) { if (!s.chance(1, 4)) continue; size_t j = s.below(a.size()); static const char *const flags[] = {"--raw", "--lastip", "--exec-mode", "--no-pad"}; const char *f = flags[s.below(4)]; bool opt = a[j].compare(0, 2, "--") == 0; if (opt) { a.insert(a.begin() + (long)j, f); if (f[2] == 'r') o.raw = true; else if (f[2] == 'l') o.lastip = true; else if (f[2] == 'e') o.em = true; else o.nopad = true; } }
}

void emit(Source &s, Bytes &b, pt_packet p) { if (!wire::encode(b, p)) return; (void)s; }
void packets(Source &s, Bytes &b, size_t n)
{
	for (size_t i = 0; i < n; ++i) { if (s.chance(1, 12)) { pt_packet p; memset(&p, 0, sizeof(p)); p.type = ppt_psb; emit(s, b, p); continue; } emit(s, b, wire::gen_packet(s, true)); if (s.chance(1, 10)) { pt_packet p = wire::gen_packet(s, true, s.pick(std::vector<pt_packet_type>{ppt_fup, ppt_tip, ppt_tip_pge, ppt_tip_pgd})); emit(s, b, p); } }
}
// Plausible timing packets.
void timed(Source &s, Bytes &b, size_t n, const Opt &o)
{
	uint64_t tsc = s.chance(1, 10) ? s.bits(56) : s.bits(30); uint8_t ctc = s.byte(); unsigned cbr = (unsigned)s.range(1, 60); auto mk = [&](pt_packet_type t) { pt_packet p; memset(&p, 0, sizeof(p)); p.type = t; return p; }; bool start = s.chance(9, 10);
	for (size_t i = 0; i < n; ++i) {
		unsigned k = start ? 0 : (unsigned)s.weighted({2, 3, 2, 1, 8, 8, 2, 1, 2}); start = false; pt_packet p = mk(ppt_pad); tsc += s.bits((unsigned)s.below(14));
		switch (k) {
		case 0: emit(s, b, mk(ppt_psb)); for (unsigned j : {1u, 2u, 3u}) { if (s.chance(1, 5)) continue; if (j == 1) { p = mk(ppt_tsc); p.payload.tsc.tsc = tsc & 0xffffffffffffffull; } else if (j == 2) { p = mk(ppt_tma); p.payload.tma.ctc = (uint16_t)((unsigned)ctc << (o.k.mtc_freq & 7)); p.payload.tma.fc = (uint16_t)s.bits(6); } else { p = mk(ppt_cbr); p.payload.cbr.ratio = (uint8_t)cbr; } emit(s, b, p); } if (s.chance(4, 5)) { if (s.chance(1, 3)) emit(s, b, wire::gen_packet(s, true, ppt_fup)); emit(s, b, mk(s.chance(7, 8) ? ppt_psbend : ppt_ovf)); } break;
		case 1: p = mk(ppt_tsc); p.payload.tsc.tsc = tsc & 0xffffffffffffffull; emit(s, b, p); break;
		case 2: p = mk(ppt_tma); p.payload.tma.ctc = (uint16_t)((unsigned)ctc << (o.k.mtc_freq & 7)); p.payload.tma.fc = (uint16_t)s.bits(6); emit(s, b, p); break;
		case 3: cbr = (unsigned)s.below(60); p = mk(ppt_cbr); p.payload.cbr.ratio = (uint8_t)cbr; emit(s, b, p); break;
		case 4: ctc = (uint8_t)(ctc + (s.chance(1, 10) ? s.byte() : 1)); p = mk(ppt_mtc); p.payload.mtc.ctc = ctc; emit(s, b, p); break;
		case 5: p = mk(ppt_cyc); p.payload.cyc.value = s.chance(1, 30) ? s.interesting(61) : s.bits((unsigned)s.below(12)); emit(s, b, p); break;
		case 6: emit(s, b, wire::gen_packet(s, true, ppt_tip)); break; case 7: emit(s, b, mk(ppt_ovf)); break;
		default: emit(s, b, wire::gen_packet(s, true)); break;
		}
	}
}
void damage(Source &s, Bytes &b)
{
	if (b.empty()) return;
	for (size_t n = s.range(1, 3); n; --n) { size_t i = s.below(b.size()); switch (s.below(4)) { case 0: b[i] = s.byte(); break; case 1: b.resize(std::max<size_t>(i, 1)); break; case 2: b.insert(b.begin() + (long)i, s.byte()); break; default: b.erase(b.begin() + (long)i); if (b.empty()) b.push_back(0); break; } }
}
// Names the file with an offset or range; returns the part that is used.
Bytes file_arg(Source &s, const Bytes &b, const std::string &name, std::string &arg)
{
	arg = name; size_t from = 0, to = b.size();
	if (s.chance(1, 3)) { from = s.chance(1, 3) ? s.below(b.size()) : s.below(std::min<size_t>(b.size(), 8)); arg += ":" + num(s, from); if (s.flip()) { to = s.flip() ? b.size() : s.range(from + 1, b.size()); arg += "-" + num(s, to); } }
	return Bytes(b.begin() + (long)from, b.begin() + (long)to);
}
Opt fresh() { Opt o; memset(&o.k, 0, sizeof(o.k)); o.k.size = sizeof(o.k); return o; }
std::string joined(const std::vector<std::string> &a) { std::string t; for (auto &x : a) t += " " + x; return t; }
void decide(Ctx &c, Ref &r, Opt &o, const Bytes &used, std::vector<std::string> &a)
{
	wire::Buf buf(used, 0); o.k.begin = buf.p; o.k.end = buf.p + buf.n; if (o.k.cpu.vendor) { int e = pt_cpu_errata(&o.k.errata, &o.k.cpu); if (e < 0) r.diag(0, e); }
	bool ok = r.dump(); Out g = run(a);
	if (c.want_describe) { c.log("%s", ("ptdump" + joined(a) + strf("  (%zu bytes: %s)", used.size(), hex(used.data(), std::min<size_t>(used.size(), 600)).c_str())).c_str()); }
	CHECK(!ok == !!g.rc, "exit status %d, %s: %s", g.rc, ok ? "expected success" : "expected failure", g.err.c_str()); CHECK(g.err.empty(), "stderr: %s", g.err.c_str()); compare(r.lines, g.out); CHECK(g.leaks.empty(), "leaks: %s", g.leaks.c_str());
}
} // namespace

static void plain(Source &s, Ctx &c)
{
	Opt o = fresh(); std::vector<std::string> a; options(s, o, a, false); Bytes b; packets(s, b, s.range(1, s.chance(1, 8) ? 200 : 30)); if (b.empty()) b.push_back(0); bool dmg = s.chance(1, 3); if (dmg) damage(s, b);
	Fd f(b); std::string arg; Bytes used = file_arg(s, b, f.name, arg); a.push_back(arg); Ref r(o); decide(c, r, o, used, a);
	if (r.npk >= 5 && r.types.size() >= 4) c.nontrivial(mix(r.h, r.npk)); c.label(dmg ? "damaged" : "intact"); if (r.nip) c.label("last ip"); if (o.raw) c.label("raw"); if (r.nerr) c.label("diagnostics"); if (used.size() != b.size()) c.label("file range"); for (int t : r.types) c.label(strf("packet %s", wire::type_name(t)).c_str());
}
static void timing(Source &s, Ctx &c)
{
	Opt o = fresh(); std::vector<std::string> a; options(s, o, a, true); Bytes b; timed(s, b, s.range(3, s.chance(1, 6) ? 300 : 50), o); if (b.empty()) b.push_back(0); bool dmg = s.chance(1, 5); if (dmg) damage(s, b);
	Fd f(b); std::string arg; Bytes used = file_arg(s, b, f.name, arg); a.push_back(arg); Ref r(o); decide(c, r, o, used, a);
	if (r.ntime >= 5) c.nontrivial(mix(r.h, r.npk)); c.label(o.tcal ? "calibration" : o.time ? "time" : "neither"); if (o.delta) c.label("delta"); if (r.nerr) c.label("diagnostics"); if (r.types.count(ppt_ovf)) c.label("overflow");
}
static void raw(Source &s, Ctx &c)
{
	Opt o = fresh(); std::vector<std::string> a; options(s, o, a, false); Bytes b; size_t n = s.range(1, 300); while (b.size() < n) { if (s.chance(1, 20)) { pt_packet p; memset(&p, 0, sizeof(p)); p.type = ppt_psb; emit(s, b, p); } else if (s.chance(1, 3)) { b.push_back(2); b.push_back(s.byte()); } else b.push_back(s.byte()); }
	Fd f(b); std::string arg; Bytes used = file_arg(s, b, f.name, arg); a.push_back(arg); Ref r(o); decide(c, r, o, used, a); if (r.npk >= 2) c.nontrivial(mix(r.h, r.npk)); if (r.nerr) c.label("diagnostics");
}
static void sideband(Source &s, Ctx &c)
{
	Opt o = fresh(); std::vector<std::string> a; options(s, o, a, true); o.quiet = false; for (size_t i = 0; i < a.size(); ++i) if (a[i] == "--quiet") a.erase(a.begin() + (long)i--);
	std::vector<std::string> sbo; bool quiet = false; auto flags = [&] { static const struct { const char *n; uint32_t set, clr; } t[] = {{"--sb:compact", 1, 2}, {"--sb", 1, 2}, {"--sb:verbose", 2, 1}, {"--sb:filename", 4, 0}, {"--sb:offset", 8, 0}, {"--sb:time", 16, 0}, {"--sb:warn", 0, 0}}; if (s.chance(1, 20)) { sbo.push_back("--quiet"); quiet = true; o.sb = 0; return; } auto &k = t[s.below(7)]; sbo.push_back(k.n); o.sb = (o.sb & ~k.clr) | k.set; };
	std::vector<std::unique_ptr<SbFile>> files; size_t nf = s.range(1, 3), nrec = 0; uint64_t st = 0, zero = 0, off = 0; uint16_t shift = 0; std::vector<std::pair<uint64_t, unsigned>> types; uint64_t h = 0; std::string desc;
	for (size_t i = 0; i < nf; ++i) {
		auto set = [&](const char *n, const std::string &v) { sbo.push_back(n); sbo.push_back(v); };
		for (size_t k = s.below(3); k; --k) flags();
		if (s.chance(2, 3)) { st = (s.flip() ? s_tid : 0u) | (s.chance(5, 6) ? s_time : 0u); for (unsigned b : {s_id, s_cpu, s_stream, s_ident}) if (s.chance(1, 4)) st |= b; set("--pevent:sample-type", num(s, st)); }
		if (s.chance(1, 4)) for (size_t k = s.range(1, s.chance(1, 40) ? 200 : 3); k && types.size() < 255; --k) { unsigned t = s_ident | (s.chance(3, 4) ? s_time : 0u) | (types.empty() ? s.flip() ? s_tid : 0u : types[0].second & s_tid); for (unsigned b : {s_id, s_cpu, s_stream}) if (s.chance(1, 4)) t |= b; if (!types.empty()) t = (t & s_time) | (types[0].second & ~(unsigned)s_time); types.push_back({types.size() * 3 + s.below(3), t}); set("--pevent:sample-config", num(s, types.back().first) + ":" + num(s, t)); }
		if (s.chance(1, 3)) { zero = s.range(1, 1000000); set("--pevent:time-zero", num(s, zero)); }
		if (s.chance(1, 3)) { shift = (uint16_t)s.below(4); set("--pevent:time-shift", num(s, shift)); }
		if (s.chance(1, 8)) set("--pevent:time-mult", "1");
		if (s.chance(1, 8)) set("--pevent:kernel-start", num(s, s.bits(64))); if (s.chance(1, 8)) { static const char *const ig[] = {"--pevent:sysroot", "--pevent:kcore", "--pevent:vdso-x64", "--pevent:vdso-x32", "--pevent:vdso-ia32"}; set(ig[s.below(5)], "/nonexistent"); }
		if (nf > 1 || s.flip()) { off = 8 * s.below(20) + i; set("--pevent:tsc-offset", num(s, off)); }	// distinct times across files
		auto f = std::make_unique<SbFile>(); Bytes b; size_t begin = s.chance(1, 4) ? s.range(1, 30) : 0; for (size_t k = 0; k < begin; ++k) b.push_back(s.byte()); uint64_t t = 8000 + 8 * s.below(100);
		for (size_t n = s.below(s.chance(1, 6) ? 40 : 8); n; --n) {
			Rec r; r.type = (uint32_t)known[s.below(sizeof(known) / sizeof(*known))]; r.misc = (uint16_t)(s.bits(3) | s.bits(1) << 13); for (const char *q = fields((int)r.type); *q; ++q) { if (*q == 's') { size_t l = s.below(30); for (size_t k = 0; k < l; ++k) r.str += (char)s.range(33, 126); } else r.v.push_back(s.interesting((unsigned)(*q - '0') * 8)); }
			size_t ti = types.empty() ? 0 : s.below(types.size()); r.st = (unsigned)st; r.ident = s.bits(10); if (!types.empty()) { r.st = types[ti].second; r.ident = types[ti].first; } r.pid = (uint32_t)s.bits(16); r.tid = (uint32_t)s.bits(16); r.cpu = (uint32_t)s.bits(8); r.id = s.bits(30); r.stream = s.bits(30); t += 8 * s.below(60); r.time = zero + (t >> shift);
			SbRec x; x.r = r; x.off = b.size(); uint64_t tsc = (t >> shift) << shift; if (!(r.st & s_time)) { if (nf > 1) continue; x.tsc = 0; } else x.tsc = tsc > off ? tsc - off : 0; Bytes l = layout(r); b.insert(b.end(), l.begin(), l.end()); f->rs.push_back(x); nrec++; h = mix(h, r.type); if (c.want_describe) desc += strf("  file %zu +%zx tsc %llx ", i, x.off, (ull)x.tsc) + str(r) + "\n";
		}
		f->endoff = b.size(); if (b.size() > begin && s.chance(1, 6)) { f->bad = true; put(b, t_comm, 4); put(b, 0, 2); put(b, s.below(8), 2); for (size_t k = s.below(20); k; --k) b.push_back(s.byte()); }
		size_t end = 0; if (!f->bad && s.chance(1, 4) && b.size() > begin) { end = b.size(); for (size_t k = s.below(40); k; --k) b.push_back(s.byte()); } if (b.size() == begin) { begin = 0; b.clear(); f->endoff = 0; }
		f->fd = std::make_unique<Fd>(b); static const char *const pv[] = {"--pevent", "--pevent:primary", "--pevent:secondary"}; set(pv[s.below(3)], f->fd->name + (begin || end ? ":" + num(s, begin) + (end ? "-" + num(s, end) : "") : "")); files.push_back(std::move(f));
	}
	for (size_t k = s.range(0, 2); k; --k) flags();
	if ((o.sb & 3) == 0 && s.chance(7, 8)) { sbo.push_back("--sb"); o.sb |= 1; }
	// Options are independent of each other.
	if (s.flip()) a.insert(a.end(), sbo.begin(), sbo.end()); else a.insert(a.begin(), sbo.begin(), sbo.end());
	o.quiet = quiet; o.track = true; Bytes b; timed(s, b, s.range(3, 40), o); if (s.chance(1, 5)) damage(s, b); Fd f(b); std::string arg; Bytes used = file_arg(s, b, f.name, arg); a.push_back(arg); Ref r(o); r.sb = &files; if (c.want_describe) c.log("%s", desc.c_str()); decide(c, r, o, used, a);
	if (nrec && (o.sb & 3) && r.npk > 3) c.nontrivial(mix(h, r.h)); c.label(strf("%zu files", nf).c_str()); if (!types.empty()) c.label("sample configuration"); if (o.sb & 1) c.label("compact"); if (o.sb & 2) c.label("verbose"); if (quiet) c.label("quiet");
	for (auto &x : files) if (x->bad) c.label("sideband error");
}
// Command lines with mistakes.
static void args(Source &s, Ctx &c)
{
	Opt o = fresh(); std::vector<std::string> a; options(s, o, a, s.flip()); Bytes b; packets(s, b, s.range(1, 6)); if (b.empty()) b.push_back(0); Fd f(b); std::string name = f.name; bool usage = false; const char *what = ""; auto at = [&] { return a.begin() + (a.empty() ? 0 : 0); };
	auto ins = [&](std::vector<std::string> x) { a.insert(s.flip() ? at() : a.end(), x.begin(), x.end()); };
	static const char *const val[] = {"--mtc-freq", "--nom-freq", "--cpuid-0x15.eax", "--cpuid-0x15.ebx", "--pevent:sample-type", "--pevent:time-zero", "--pevent:time-shift", "--pevent:time-mult", "--pevent:tsc-offset", "--pevent:kernel-start", "--pevent:sample-config", "--cpu", "--pevent", "--pevent:secondary", "--pevent:sysroot", "--pevent:kcore"}; static const unsigned bits[] = {8, 8, 32, 32, 64, 64, 16, 32, 64, 64};
	static const char *const junk[] = {"", "x", "12x", "0x", "0xg", "1 2", "--raw", "99999999999999999999999", "1.5", "08"};
	switch (s.below(12)) {
	case 0: what = "unknown option"; { static const char *const u[] = {"--rawx", "--ra", "-x", "--", "-", "--time=1", "--sb:", "--pevent:", "--pevent:foo", "--Raw", "--no-syncs"}; ins({u[s.below(11)]}); a.push_back(name); } break;
	case 1: what = "missing argument"; a.push_back(val[s.below(16)]); break;
	case 2: what = "bad number"; ins({val[s.below(10)], junk[s.below(10)]}); a.push_back(name); break;
	case 3: what = "number too big"; { static const size_t small[] = {0, 1, 2, 3, 6, 7}; size_t i = small[s.below(6)]; uint64_t m = 1ull << bits[i]; ins({val[i], num(s, s.flip() ? m : m + s.bits(40))}); a.push_back(name); } break;
	case 4: what = "no file"; break;
	case 5: what = "missing file"; a.push_back(s.flip() ? "/nonexistent/file" : name + "x"); break;
	case 6: what = "two files"; a.push_back(name); a.push_back(s.flip() ? name : "--raw"); break;
	case 7: what = "time and calibration"; a.clear(); ins({s.flip() ? "--time" : "--tcal"}); a.push_back(a[0] == "--time" ? "--tcal" : "--time"); a.push_back(name); break;
	case 8: what = "bad range"; { uint64_t x = s.below(b.size() + 4), y = s.below(b.size() + 4); if (x < y && x < b.size() && y <= b.size()) { x = b.size() + s.bits((unsigned)s.below(62)); } if (s.flip()) y = b.size() + 1 + s.bits((unsigned)s.below(62)); bool one = x >= b.size() && s.flip(); a.push_back(name + ":" + num(s, x) + (one ? "" : "-" + num(s, y))); } break;
	case 9: what = "bad cpu"; { static const char *const u[] = {"", "6", "6/", "/6", "a/b", "6/1/2/3", "65536/1", "6/256", "6/1/256", "nonee", "6-1"}; ins({"--cpu", u[s.below(11)]}); a.push_back(name); } break;
	case 10: what = "bad sideband file"; { Bytes e(s.below(20), 0); Fd g(e); switch (s.below(3)) { case 0: ins({"--pevent", "/nonexistent/file"}); break; case 1: ins({"--pevent", g.name + strf(":%zu", e.size() + s.below(10) + 1)}); break; default: ins({"--pevent", g.name + strf(":%llu-%llu", (ull)5, (ull)s.below(6))}); break; } a.push_back(name); Out r = run(a); CHECK(r.rc && r.out.empty() && !r.err.empty(), "%s: exit status %d", joined(a).c_str(), r.rc); CHECK(r.leaks.empty(), "leaks: %s", r.leaks.c_str()); c.nontrivial(mix(fnvs(what), a.size())); c.label(what); return; }
	default: usage = true; what = "help"; { static const char *const u[] = {"-h", "--help", "--version"}; ins({u[s.below(3)]}); if (s.flip()) a.push_back(name); } break;
	}
	if (c.want_describe) c.log("%s", (std::string(what) + ": ptdump" + joined(a)).c_str());
	Out r = run(a); c.label(what);
	if (usage) { CHECK(!r.rc && r.err.empty() && !r.out.empty(), "%s: exit status %d", joined(a).c_str(), r.rc); }
	else CHECK(r.rc && r.out.find("psb") == std::string::npos && !r.err.empty(), "%s accepted: exit status %d, '%s'", what, r.rc, r.err.c_str());
	CHECK(r.leaks.empty(), "leaks: %s", r.leaks.c_str()); c.nontrivial(mix(fnvs(what), fnvs(joined(a))));
}

int main(int argc, char **argv)
{
	return run_main(argc, argv, "C18", {
		{"C18", "plain", "all packet types and printing options, some traces damaged, file ranges, compared with a reference printer; at least 5 packets of at least 4 types", plain, 400000, 5000000},
		{"C18", "time", "timing packets, the time and calibration columns; at least 5 times printed", timing, 400000, 5000000},
		{"C18", "raw", "random bytes; at least 2 packets", raw, 200000, 2000000},
		{"C18", "sideband", "perf event records of one to three files between the packets; records are printed", sideband, 200000, 3000000},
		{"C18", "args", "command lines with mistakes and requests for help; every case counts", args, 60000, 1000000},
	});
}
