// C19: pttc turns annotated assembly into a trace, expected output and sideband.
//
// pttc's sources are compiled into the harness (main renamed to pttc_tool_main) and
// run in a scratch directory on generated source files.  The generator knows
// the packets, records, addresses and text it writes down; the reference
// encoders (ptwire.hpp, pevrec.hpp) give the expected file contents.
#include "pevrec.hpp"
#include "wrap.hpp"
#include <map>
#include <set>
#include <dirent.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
extern "C" int pttc_tool_main(int argc, char **argv);
typedef unsigned long long ull;

namespace {
uint64_t fnvs(const std::string &s) { return fnv((const uint8_t *)s.data(), s.size()); }

// A scratch directory that is the working directory for one case.
struct Scratch {
	char dir[64]; int cwd;
	Scratch() { strcpy(dir, "/tmp/verif-pttc-XXXXXX"); cwd = ::open(".", O_RDONLY | O_DIRECTORY); CHECK(cwd >= 0 && mkdtemp(dir) && chdir(dir) == 0, "scratch directory"); }
	static void clean(const char *d) { if (DIR *h = opendir(d)) { while (dirent *e = readdir(h)) { std::string n = e->d_name; if (n == "." || n == "..") continue; std::string f = std::string(d) + "/" + n; if (unlink(f.c_str()) && errno == EISDIR) { clean(f.c_str()); rmdir(f.c_str()); } } closedir(h); } }
	~Scratch() { if (fchdir(cwd)) {} ::close(cwd); clean(dir); rmdir(dir); }
	std::set<std::string> files() { std::set<std::string> r; if (DIR *h = opendir(dir)) { while (dirent *e = readdir(h)) { std::string n = e->d_name; struct stat st; if (n[0] != '.' && !::lstat((std::string(dir) + "/" + n).c_str(), &st) && S_ISREG(st.st_mode)) r.insert(n); } closedir(h); } return r; }
};
void spew(const std::string &f, const std::string &t) { int fd = ::open(f.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); CHECK(fd >= 0 && ::write(fd, t.data(), t.size()) == (ssize_t)t.size(), "write %s", f.c_str()); ::close(fd); }
bool slurp(const std::string &f, std::string &t) { int fd = ::open(f.c_str(), O_RDONLY); if (fd < 0) return false; t.clear(); char b[65536]; for (ssize_t n; (n = ::read(fd, b, sizeof b)) > 0;) t.append(b, (size_t)n); ::close(fd); return true; }

struct Out { int rc; std::string out, err, leaks; };
Out run(const std::vector<std::string> &args, bool quiet)
{
	std::vector<std::vector<char>> store; std::vector<char *> argv; store.reserve(args.size() + 1);
	auto add = [&](const std::string &a) { store.emplace_back(a.begin(), a.end()); store.back().push_back(0); argv.push_back(store.back().data()); };
	add("pttc"); for (auto &a : args) add(a); argv.push_back(nullptr);
	char *o = nullptr, *e = nullptr; size_t on = 0, en = 0; FILE *so = stdout, *se = stderr; Out r; fflush(so);
	FILE *fo = open_memstream(&o, &on), *fe = open_memstream(&e, &en); CHECK(fo && fe, "memstream"); stdout = fo; stderr = fe;
	int keep = -1; if (quiet) { keep = dup(2); int n = ::open("/dev/null", O_WRONLY); dup2(n, 2); ::close(n); }	// yasm's own diagnostics
	{ wr::Guard g; r.rc = pttc_tool_main((int)argv.size() - 1, argv.data()); r.leaks = wr::leaks(); }
	if (quiet) { dup2(keep, 2); ::close(keep); }
	stdout = so; stderr = se; fclose(fo); fclose(fe); r.out.assign(o, on); r.err.assign(e, en); free(o); free(e); return r;
}
std::string joined(const std::vector<std::string> &a) { std::string s = "pttc"; for (auto &x : a) s += " " + x; return s; }

// Formatting of arguments.
struct Fmt {
	Source &s;
	std::string num(uint64_t v) { return s.below(3) ? strf("0x%llx", (ull)v) : strf("%llu", (ull)v); }
	std::string sp() { return s.chance(1, 3) ? " " : ""; }
	std::string sep() { static const char *t[] = {", ", ",", ",  "}; return t[s.below(3)]; }
	std::string colon() { static const char *t[] = {": ", ":", ":  "}; return t[s.below(3)]; }
	std::string bits(uint64_t p, unsigned n) { std::string r = sp(); for (unsigned i = n; i-- > 0;) { r += p >> i & 1 ? 't' : 'n'; if (s.chance(1, 4)) r += s.flip() ? "." : " "; } return r; }
	std::string cst(unsigned st, int sub) { std::string r = strf("c%u", (st + 1) & 15); if (sub >= 0 && (((unsigned)sub + 1) & 15 || s.flip())) r += strf(".%u", ((unsigned)sub + 1) & 15); return r; }
};

struct Exp { std::string name, text; };
struct Sb { std::string base, ext; Bytes b; unsigned st = 0; bool pev = false, fin = false; };

// A generated source file and what is expected to come out of it.
struct Prog {
	Source &s; Fmt f; std::string root, path, inc, incname; std::vector<std::string> lines; bool include = false; size_t inc_at = 0; std::vector<std::string> inclines;
	Bytes pt; std::map<std::string, uint64_t> yl, pl; std::vector<std::string> yn, pn; std::vector<Exp> exps; std::vector<std::string> tail; std::vector<Sb> sbs; int cur = -1; bool sb = false;
	uint64_t org = 0, base = 0, off = 0, fileoff = 0; int nsec = -1; struct Sec { std::string name; uint64_t vstart, start, len; }; std::vector<Sec> secs; unsigned nmac = 0; std::string mac, cpuext;
	std::vector<std::pair<std::string, std::string>> pend;	// forward label references: none resolved before the section is laid out
	std::set<int> kinds; uint64_t h = 0; size_t ndir = 0, nlab = 0; std::vector<std::string> *dst = nullptr;
	struct Fix { std::string label; size_t at; unsigned n; }; std::vector<Fix> fixes; std::set<std::string> want;	// label references in ip packets
	struct MFix { size_t sb, at; int sec; bool len; }; std::vector<MFix> mfixes;

	explicit Prog(Source &src) : s(src), f{src} {}
	void emit(const std::string &l) { dst->push_back(l); }
	std::string fresh(const char *p) { return strf("%s%zu", p, nlab++); }

	// A directive in a comment, possibly behind code.
	std::string code;	// code that may take the directive as its comment
	void flush() { if (!code.empty()) { emit(code); code.clear(); } }
	void directive(const char *mark, const std::string &lab, const std::string &d)
	{
		std::string l; if (!code.empty() && s.chance(1, 2)) { l = code + " "; code.clear(); } else flush();
		if (l.empty() && s.chance(1, 6)) l = "  ";
		l += ";" + f.sp(); if (s.chance(1, 12)) l += "note: "; l += std::string("@") + mark + " " + f.sp(); if (!lab.empty()) l += lab + ":" + f.sp(); l += d; if (s.chance(1, 10)) l += " trailing text"; emit(l); ndir++;
	}
	std::string call(const std::string &n, const std::string &a) { return n + "(" + a + ")"; }
	void section()
	{
		flush(); if (nsec >= 0) secs[(size_t)nsec].len = off; fileoff = (fileoff + off + 15) / 16 * 16 + 16 * s.below(8); off = 0; nsec = (int)secs.size();
		static const uint64_t vs[] = {0x2000, 0x7f0000001ff0ull, 0xffffffff80000000ull, 0x4000b0}; Sec x{strf("s%d", nsec), vs[s.below(4)] + 0x100000 * (uint64_t)nsec, org + fileoff, 0}; secs.push_back(x); base = x.vstart;
		static const char *names[] = {"text", "kernel", ".code", "s"}; secs.back().name = strf("%s%d", names[s.below(4)], nsec);
		std::string v = strf("vstart=0x%llx", (ull)x.vstart), st = strf("start=0x%llx", (ull)x.start); emit("section " + secs.back().name + " " + (s.flip() ? v + " " + st : st + " " + v));
		// The section's own labels.
	}
	void insn()
	{
		flush(); std::string t; unsigned n; bool lab = s.chance(2, 3); std::string l = lab ? fresh("l") : "";
		switch (s.weighted({8, 4, 3, 2, 2, 2})) {
		case 0: t = "nop"; n = 1; break;
		case 1: n = 1 + (unsigned)s.below(24); t = "db "; for (unsigned i = 0; i < n; ++i) t += strf("%s%u", i ? "," : "", s.chance(1, 3) ? 0u : (unsigned)s.below(256)); break;
		case 2: t = "mov rax, 0x1122334455667788"; n = 10; break;
		case 3: t = "add [rax], al"; n = 2; break;
		case 4: n = 1 + (unsigned)s.below(40); t = strf("times %u nop", n); code = lab ? l + ": " + t : " " + t; if (lab) def(l); off += n; flush(); t = "nop"; n = 1; lab = false; break;
		default: if (!nmac) { t = "hlt"; n = 1; } else { t = mac; n = nmac; } break;
		}
		if (lab) { def(l); if (s.chance(1, 4)) { emit(l + ":"); while (s.chance(1, 3)) { std::string m = fresh("l"); def(m); emit(m + ":"); } code = " " + t; } else code = l + ": " + t; } else code = (s.flip() ? " " : "\t") + t;
		if (t == mac) flush();
		off += n;
	}
	void def(const std::string &l) { yl[l] = base + off; yn.push_back(l); }
	void pt_dir()
	{
		std::string lab; if (s.chance(1, 3)) { lab = fresh("p"); pl[lab] = pt.size(); pn.push_back(lab); }
		if (s.chance(1, 16)) { static const unsigned w[] = {1, 2, 4, 8}; unsigned n = w[s.below(4)]; uint64_t v = s.interesting(64) & (n == 8 ? ~0ull : (1ull << 8 * n) - 1); directive("pt", lab, call(strf("raw-%u", 8 * n), f.num(v))); put(pt, v, n); kinds.insert(-(int)n); return; }
		static const std::vector<pt_packet_type> ts = {ppt_pad, ppt_psb, ppt_psbend, ppt_fup, ppt_tip, ppt_tip_pge, ppt_tip_pgd, ppt_tnt_8, ppt_tnt_64, ppt_mode, ppt_pip, ppt_vmcs, ppt_cbr, ppt_tsc, ppt_tma, ppt_mtc, ppt_cyc, ppt_stop, ppt_ovf, ppt_mnt, ppt_exstop, ppt_mwait, ppt_pwre, ppt_pwrx, ppt_ptw, ppt_cfe, ppt_evd, ppt_trig};
		pt_packet k = wire::gen_packet(s, true, s.pick(ts)); auto &y = k.payload; std::string n, a; bool lref = false; std::string lr;
		switch (k.type) {
		case ppt_pad: n = "pad"; break; case ppt_psb: n = "psb"; break; case ppt_psbend: n = "psbend"; break; case ppt_stop: n = "stop"; break; case ppt_ovf: n = "ovf"; break;
		case ppt_tnt_8: n = "tnt"; a = f.bits(y.tnt.payload, y.tnt.bit_size); break; case ppt_tnt_64: n = "tnt64"; a = f.bits(y.tnt.payload, y.tnt.bit_size); break;
		case ppt_fup: case ppt_tip: case ppt_tip_pge: case ppt_tip_pgd: {
			n = k.type == ppt_fup ? "fup" : k.type == ppt_tip ? "tip" : k.type == ppt_tip_pge ? "tip.pge" : "tip.pgd"; int nb = wire::ip_bytes(y.ip.ipc); if (nb > 0 && nb < 8) y.ip.ip &= (1ull << 8 * nb) - 1;
			a = strf("%u", (unsigned)y.ip.ipc) + f.colon(); if (s.flip()) { lref = true; lr = !yn.empty() && s.below(3) ? s.pick(yn) : ""; if (lr.empty()) { lr = strf("f%zu", want.size()); if (s.flip() || want.empty()) want.insert(lr); else lr = *want.begin(); } a += "%" + lr; y.ip.ip = 0; } else a += f.num(y.ip.ip); break; }
		case ppt_mode: if (y.mode.leaf == pt_mol_exec) { auto &e = y.mode.bits.exec; n = "mode.exec"; if (e.csl) e.csd = 0; a = e.csl ? "64bit" : e.csd ? "32bit" : "16bit"; if (e.iflag) a += f.sep() + "if"; } else { auto &e = y.mode.bits.tsx; n = "mode.tsx"; if (e.intx) e.abrt = 0; a = e.intx ? "begin" : e.abrt ? "abort" : "commit"; } break;
		case ppt_pip: n = "pip"; a = f.num(y.pip.cr3); if (y.pip.nr) a += f.sep() + "nr"; break; case ppt_tsc: n = "tsc"; a = f.num(y.tsc.tsc); break; case ppt_cbr: n = "cbr"; a = f.num(y.cbr.ratio); break;
		case ppt_tma: n = "tma"; a = f.num(y.tma.ctc) + f.sep() + f.num(y.tma.fc); break; case ppt_mtc: n = "mtc"; a = f.num(y.mtc.ctc); break; case ppt_cyc: n = "cyc"; a = f.num(y.cyc.value); break; case ppt_vmcs: n = "vmcs"; a = f.num(y.vmcs.base); break;
		case ppt_mnt: n = "mnt"; a = f.num(y.mnt.payload); break; case ppt_exstop: n = "exstop"; a = y.exstop.ip ? "ip" : ""; break; case ppt_mwait: n = "mwait"; a = f.num(y.mwait.hints) + f.sep() + f.num(y.mwait.ext); break;
		case ppt_pwre: n = "pwre"; a = f.cst(y.pwre.state, y.pwre.sub_state); if (y.pwre.hw) a += f.sep() + "hw"; break;
		case ppt_pwrx: { unsigned w = (unsigned)s.below(3); y.pwrx.interrupt = w == 0; y.pwrx.store = w == 1; y.pwrx.autonomous = w == 2; static const char *ws[] = {"int", "st", "hw"}; n = "pwrx"; a = ws[w] + f.colon() + f.cst(y.pwrx.last, -1) + f.sep() + f.cst(y.pwrx.deepest, -1); break; }
		case ppt_ptw: n = "ptw"; if (y.ptw.plc == 0) y.ptw.payload &= 0xffffffff; a = strf("%u", y.ptw.plc) + f.colon() + f.num(y.ptw.payload); if (y.ptw.ip) a += f.sep() + "ip"; break;
		case ppt_cfe: { n = "cfe"; a = f.num(y.cfe.type); bool needs = y.cfe.type == pt_cfe_intr || y.cfe.type == pt_cfe_sipi || y.cfe.type == pt_cfe_vmexit_intr || y.cfe.type == pt_cfe_uintr; if (needs || s.flip()) a += ":" + f.num(y.cfe.vector); else y.cfe.vector = 0; if (y.cfe.ip) a += f.sep() + "ip"; break; }
		case ppt_evd: n = "evd"; a = f.num(y.evd.type) + ":" + f.num(y.evd.payload); break;
		case ppt_trig: { n = "trig"; if (y.trig.icntv == 0) y.trig.icnt = 0; a = f.num(y.trig.trbv); std::vector<std::string> m; if (y.trig.ip) m.push_back("ip"); if (y.trig.mult) m.push_back("mult"); if (y.trig.icntv) m.push_back("icnt" + f.sp() + ":" + f.num(y.trig.icnt)); while (!m.empty()) { size_t i = s.below(m.size()); a += f.sep() + m[i]; m.erase(m.begin() + (long)i); } break; }
		default: n = "pad"; k.type = ppt_pad; break;
		}
		kinds.insert(k.type); size_t at = pt.size(); CHECK(wire::encode(pt, k), "reference encoder: %s", wire::str(k).c_str());
		if (lref) { int nb = wire::ip_bytes(k.payload.ip.ipc); if (nb > 0) fixes.push_back({lr, at + 1, (unsigned)nb}); }
		directive("pt", lab, call(n, a));
	}
	void sb_dir()
	{
		if (cur < 0 || s.chance(1, 8)) {
			static const char *fm[] = {"pevent", "raw", "x"}, *src[] = {"", "a", "cpu1"}; std::string fmt = fm[s.below(3)], sr = src[s.below(3)]; bool pri = s.flip(); std::string bn = root + (sr.empty() ? "" : "-" + sr) + "-" + fmt + (pri ? "-primary" : "-secondary");
			directive("sb", "", call(pri ? "primary" : "secondary", fmt + (sr.empty() ? "" : f.sep() + sr))); for (cur = 0; cur < (int)sbs.size() && sbs[(size_t)cur].base != bn;) cur++; if (cur == (int)sbs.size()) { sbs.emplace_back(); sbs.back().base = bn; } return;
		}
		Sb &x = sbs[(size_t)cur]; std::string lab; if (s.chance(1, 3)) { lab = fresh("q"); pl[lab] = x.b.size(); pn.push_back(lab); }
		if (s.chance(1, 6)) { static const unsigned w[] = {1, 2, 4, 8}; unsigned n = w[s.below(4)]; uint64_t v = s.interesting(64) & (n == 8 ? ~0ull : (1ull << 8 * n) - 1); directive("sb", lab, call(strf("raw-%u", 8 * n), f.num(v))); put(x.b, v, n); kinds.insert(100 + (int)n); return; }
		if (!x.fin && s.chance(1, 2)) {
			static const std::pair<const char *, unsigned> tn[] = {{"tid", s_tid}, {"time", s_time}, {"id", s_id}, {"cpu", s_cpu}, {"stream", s_stream}, {"identifier", s_ident}}; std::string a; x.st = 0; unsigned n = (unsigned)s.below(5);
			for (unsigned i = 0; i < n; ++i) { auto &t = tn[s.below(6)]; x.st |= t.second; if (i) a += f.sep(); if (s.chance(1, 4)) { unsigned m = t.second | (s.flip() ? tn[s.below(6)].second : 0u); x.st |= m; a += f.num(m); } else a += t.first; }
			x.pev = true; directive("sb", lab, call("pevent-sample_type", a)); return;
		}
		x.pev = x.fin = true; Rec r; r.st = x.st; r.misc = 0; static const int ts[] = {t_mmap, t_mmap, t_lost, t_comm, t_exit, t_fork, t_aux, t_itrace, t_lost_samples, t_switch, t_switch_wide}; r.type = (uint32_t)ts[s.below(11)]; std::string n; std::vector<std::string> a;
		bool msec = r.type == t_mmap && !secs.empty() && s.flip(); int sec = -1;
		for (const char *p = fields((int)r.type); *p; ++p) if (*p != 's') r.v.push_back(s.interesting(64) & (*p == '8' ? ~0ull : 0xffffffffull)); else { unsigned m = 1 + (unsigned)s.below(20); for (unsigned i = 0; i < m; ++i) r.str += "abcdefghijklmnopqrstuvwxyz0123456789_-./\""[s.below(41)]; }
		for (auto v : r.v) a.push_back(f.num(v)); if (!r.str.empty()) a.push_back(r.str);
		switch (r.type) {
		case t_mmap: n = "pevent-mmap"; if (msec) { n = "pevent-mmap-section"; sec = (int)s.below(secs.size()); a = {secs[(size_t)sec].name, f.num(r.v[0]), f.num(r.v[1])}; r.v[2] = secs[(size_t)sec].vstart; r.v[3] = 0; r.v[4] = secs[(size_t)sec].start - org; r.str = root + ".bin"; } break;
		case t_lost: n = "pevent-lost"; break; case t_comm: n = "pevent-comm"; if (s.flip()) { n += ".exec"; r.misc = 1 << 13; } break; case t_exit: n = "pevent-exit"; break; case t_fork: n = "pevent-fork"; break; case t_aux: n = "pevent-aux"; break;
		case t_itrace: n = "pevent-itrace-start"; break; case t_lost_samples: n = "pevent-lost-samples"; break; case t_switch: n = "pevent-switch"; if (s.flip()) { r.misc = 1 << 13; n += ".out"; } else n += ".in"; break; default: n = "pevent-switch-cpu-wide"; if (s.flip()) { r.misc = 1 << 13; n += ".out"; } else n += ".in"; break;
		}
		auto val = [&](uint64_t m) { uint64_t v = s.interesting(64) & m; a.push_back(f.num(v)); return v; };
		if (r.st & s_tid) { r.pid = (uint32_t)val(~0u); r.tid = (uint32_t)val(~0u); } if (r.st & s_time) r.time = val(~0ull); if (r.st & s_id) r.id = val(~0ull); if (r.st & s_cpu) r.cpu = (uint32_t)val(~0u); if (r.st & s_stream) r.stream = val(~0ull); if (r.st & s_ident) r.ident = val(~0ull);
		if (msec) mfixes.push_back({(size_t)cur, x.b.size() + 8 + 16, sec, true});
		Bytes b = layout(r); x.b.insert(x.b.end(), b.begin(), b.end()); std::string as; for (size_t i = 0; i < a.size(); ++i) as += (i ? f.sep() : "") + a[i]; kinds.insert(200 + (int)r.type); directive("sb", lab, call(n, as));
	}
	// The body: code and directives.
	void body(unsigned n)
	{
		static const uint64_t orgs[] = {0x1000, 0x4000f0, 0, 0x7fff00000ff0ull}; org = orgs[s.below(4)]; base = org; dst = &lines; std::vector<std::string> hdr = {strf("org 0x%llx", (ull)org), "bits 64"}; if (s.flip()) hdr.insert(hdr.begin(), "; a comment");
		for (auto &l : hdr) emit(l);
		if (s.chance(1, 4)) { mac = "foo"; nmac = 1 + (unsigned)s.below(3); emit("%macro foo 0"); for (unsigned i = 0; i < nmac; ++i) emit(" nop"); emit("%endmacro"); }
		if (s.chance(1, 5)) section();
		unsigned ib = s.chance(1, 4) ? (unsigned)s.below(n + 1) : ~0u, ie = ib == ~0u ? 0 : ib + 1 + (unsigned)s.below(6);
		for (unsigned i = 0; i < n; ++i) {
			if (i == ib) { flush(); emit("%include \"" + incname + "\""); include = true; dst = &inclines; }
			if (include && dst == &inclines && i >= ie) { flush(); dst = &lines; }
			switch (s.weighted({4, 8, sb ? 5u : 0u, 1, 1})) { case 0: insn(); break; case 1: pt_dir(); break; case 2: sb_dir(); break; case 3: if (dst == &lines && !fwd_open()) section(); break; default: flush(); emit(s.flip() ? "" : "; plain comment, 100% @ptx"); break; }
		}
		flush(); dst = &lines;
		// Labels that were referenced but not defined, yet.
		for (auto &w : want) { yl[w] = base + off; yn.push_back(w); if (s.flip()) emit(w + ": nop"); else { emit(w + ":"); emit(" nop"); } off += 1; }
		if (nsec >= 0) secs[(size_t)nsec].len = off;
		for (auto &x : secs) { yl["section_" + x.name + "_start"] = x.start; yl["section_" + x.name + "_vstart"] = x.vstart; yl["section_" + x.name + "_length"] = x.len; }
		yl["org"] = org; yn.push_back("org");
		for (auto &x : fixes) for (unsigned i = 0; i < x.n; ++i) pt[x.at + i] = (uint8_t)(yl.at(x.label) >> 8 * i);
		for (auto &x : mfixes) { uint64_t v = secs[(size_t)x.sec].len; for (unsigned i = 0; i < 8; ++i) sbs[x.sb].b[x.at + i] = (uint8_t)(v >> 8 * i); }
		pl["eos"] = pt.size(); pn.push_back("eos");
	}
	bool fwd_open() { return false; }
	void exp_text(Exp &e)
	{
		unsigned n = (unsigned)s.below(8); std::vector<std::string> sl; for (auto &x : secs) if (x.name[0] != '.') for (const char *t : {"start", "vstart", "length"}) sl.push_back("section_" + x.name + "_" + t);
		for (unsigned i = 0; i < n; ++i) {
			if (s.chance(1, 8)) { lines.push_back(nsec >= 0 || s.flip() ? "" : " nop"); continue; }
			std::string l = nsec < 0 && s.chance(1, 6) ? " nop ;" : ";", t; unsigned parts = (unsigned)s.below(6);
			for (unsigned j = 0; j < parts; ++j) {
				if (s.flip()) { static const char *w[] = {"psb", " tip 3: ", "[tick]", "A b  c", "; x", "(x)", "@", "\ttab", "?", "0", "."}; const char *x = w[s.below(11)]; if (!t.empty() && (isalnum((unsigned char)x[0]) || x[0] == '.' )) { l += " "; t += " "; } l += x; t += x; continue; }
				bool y = !yn.empty() && s.flip(); std::string pre = s.chance(1, 2) ? "" : s.flip() ? "0" : "?", nm; uint64_t v; if (y) { nm = !sl.empty() && s.chance(1, 4) ? s.pick(sl) : s.pick(yn); v = yl.at(nm); } else { nm = s.pick(pn); v = pl.at(nm); }
				l += "%" + pre + nm; unsigned q = 0; if (y && s.chance(1, 2)) { unsigned k = (unsigned)s.below(9); l += strf(".%u", k); if (k < 8) v &= (1ull << 8 * k) - 1; q = 8 - k; }
				std::string d; if (pre.empty()) d = strf("%llx", (ull)v); else { d = strf("%016llx", (ull)v); if (pre == "?" && y) for (unsigned k = 0; k < 2 * q; ++k) d[k] = '?'; }
				t += d; const char *sp[] = {" ", ", ", ")", ":", "-"}; const char *x = sp[s.below(5)]; l += x; t += x;
			}
			if (s.chance(1, 6)) l += s.flip() ? "   " : "\t"; if (s.chance(1, 6)) l += "# remark 100%";
			while (!t.empty() && isspace((unsigned char)t.back())) t.pop_back();
			lines.push_back(l); e.text += t + "\n";
		}
	}
	void finish(bool want_exp)
	{
		if (!want_exp) return; unsigned n = 1 + (unsigned)s.below(3); std::set<std::string> used;
		for (unsigned i = 0; i < n; ++i) { static const char *tools[] = {"ptdump", "ptxed", "", "foo"}; std::string t = tools[s.below(4)]; if (!used.insert(t).second) continue; Exp e; e.name = root + (t.empty() ? "" : "-" + t) + cpuext + ".exp"; lines.push_back("; @pt .exp(" + t + ")"); exp_text(e); exps.push_back(e); }
	}
	std::string source() { std::string t; const char *nl = s.chance(1, 8) ? "\r\n" : "\n"; for (auto &l : lines) t += l + nl; if (s.chance(1, 8) && !t.empty()) t.pop_back(); return t; }
	std::string show() { std::string t = source_shown; if (include) { t += "--- " + incname + "\n" + inc; } return t; }
	std::string source_shown;
	void write() { source_shown = source(); spew(path, source_shown); if (include) { for (auto &l : inclines) inc += l + "\n"; spew(path.substr(0, path.size() - root.size() - 4) + incname, inc); } }
};

const unsigned known_models[] = {0x3d, 0x47, 0x4f, 0x4e, 0x5e, 0x5c, 0x9e};
void setup(Prog &p, std::vector<std::string> &args)
{
	static const char *roots[] = {"t", "test_1", "a.b", "x-y"}; p.root = roots[p.s.below(4)]; bool dir = p.s.chance(1, 6); if (dir) mkdir("sub", 0700); p.path = (dir ? "sub/" : "") + p.root + ".ptt"; p.incname = "x.inc"; p.sb = p.s.flip();
	if (p.s.chance(1, 5)) { unsigned fam = 6, mod = known_models[p.s.below(7)], st = (unsigned)p.s.below(16); bool has = p.s.flip(); args.push_back("--cpu"); args.push_back(has ? strf("%u/%u/%u", fam, mod, st) : strf("%u/%u", fam, mod)); p.cpuext = has && st ? strf("-cpu_%u_%u_%u", fam, mod, st) : strf("-cpu_%u_%u", fam, mod); if (p.s.chance(1, 4)) { args.push_back("--cpu"); args.push_back("none"); p.cpuext.clear(); } }
	args.insert(args.begin() + (long)(p.s.flip() ? 0 : args.size()), p.path);
}

void good(Source &s, Ctx &c)
{
	Scratch d; Prog p(s); std::vector<std::string> args; setup(p, args); p.body(4 + (unsigned)s.below(40)); bool we = s.chance(7, 8); p.finish(we); p.write();
	c.describe([&] { return joined(args) + "\n" + p.show(); });
	Out r = run(args, false); CHECK(r.rc == 0, "exit status %d, expected 0: %s", r.rc, r.err.c_str()); CHECK(r.leaks.empty(), "leaks: %s", r.leaks.c_str());
	std::string t; CHECK(slurp(p.root + ".pt", t), "no trace file"); std::string w((const char *)p.pt.data(), p.pt.size());
	if (t != w) { size_t i = 0; while (i < t.size() && i < w.size() && t[i] == w[i]) i++; fail("trace differs at 0x%zx: got %zu bytes ..%s, expected %zu bytes ..%s", i, t.size(), hex((const uint8_t *)t.data() + i, std::min<size_t>(20, t.size() - i)).c_str(), w.size(), hex((const uint8_t *)w.data() + i, std::min<size_t>(20, w.size() - i)).c_str()); }
	std::set<std::string> names, got; for (size_t i = 0; i < r.out.size();) { size_t j = r.out.find_first_of(" \n", i); if (j == std::string::npos) j = r.out.size(); if (j > i) { std::string n = r.out.substr(i, j - i); CHECK(got.insert(n).second, "%s printed twice", n.c_str()); } i = j + 1; }
	for (auto &e : p.exps) { names.insert(e.name); CHECK(slurp(e.name, t), "%s does not exist; printed: %s", e.name.c_str(), r.out.c_str()); CHECK(t == e.text, "%s:\n%s\nexpected:\n%s", e.name.c_str(), t.c_str(), e.text.c_str()); }
	for (auto &x : p.sbs) { std::string n = x.base + (x.pev ? strf(",sample-type=0x%x,time-zero=0x0,time-shift=0x0,time-mult=0x1", x.st) : "") + ".sb"; names.insert(n); CHECK(slurp(n, t), "%s does not exist; printed: %s", n.c_str(), r.out.c_str()); std::string v((const char *)x.b.data(), x.b.size()); CHECK(t == v, "%s: %s, expected %s", n.c_str(), hex((const uint8_t *)t.data(), t.size()).c_str(), hex((const uint8_t *)v.data(), v.size()).c_str()); }
	CHECK(names == got, "printed file names: %s", r.out.c_str()); names.insert(p.root + ".pt"); names.insert(p.root + ".lst"); names.insert(p.root + ".bin"); if (p.path.find('/') == std::string::npos) names.insert(p.path); if (p.include && p.path.find('/') == std::string::npos) names.insert(p.incname); std::set<std::string> have = d.files(); if (have != names) { std::string l; for (auto &n : have) if (!names.count(n)) l += " +" + n; for (auto &n : names) if (!have.count(n)) l += " -" + n; fail("unexpected or missing files:%s", l.c_str()); }
	if (p.ndir >= 4 && (!we || !p.exps.empty()) && p.kinds.size() >= 3) { uint64_t h = fnvs(p.source_shown); c.nontrivial(h); }
	if (p.include) c.label("include"); if (!p.secs.empty()) c.label("sections"); if (!p.fixes.empty()) c.label("label ip"); if (!p.sbs.empty()) c.label("sideband"); if (!p.mfixes.empty()) c.label("mmap-section"); if (!p.mac.empty()) c.label("macro");
}

// One mistake in an otherwise good file: pttc has to say so.
void bad(Source &s, Ctx &c)
{
	Scratch d; Prog p(s); std::vector<std::string> args; setup(p, args); p.sb = false; p.body(1 + (unsigned)s.below(12)); size_t nbody = p.lines.size(); bool quiet = false;
	static const char *pt[] = {"foo()", "psb", "psb(", "()", "l: ()", "psb(1)", "psbend(x)", "pad(0)", "ovf(1)", "stop(1)", "tnt()", "tnt(..)", "tnt(x)", "tnt(tntntnt)", "tnt(tn1)", "tnt64()", "tnt64(0)",
		"tip()", "tip(1)", "tip(1:)", "tip(7: 1)", "tip(5: 1)", "tip(1: %nolabel)", "tip(1: zz)", "tip(1: 1 2)", "tip(x: 1)", "fup(3)", "tip.pge(8: 0)", "tip.pgd(1: %)", "fup(1: 0x1g)", "tip(6: 0x10000000000000000)",
		"mode.exec()", "mode.exec(48bit)", "mode.exec(64bit, foo)", "mode.exec(64bit,)", "mode.tsx()", "mode.tsx(foo)", "mode.foo()", "pip()", "pip(x)", "pip(0x1000, foo)", "pip(0x1000, nrx)", "pip(0x1000 yes)",
		"tsc()", "tsc(xyz)", "tsc(0x10000000000000000)", "cbr(256)", "cbr()", "mtc(256)", "mtc(x)", "tma()", "tma(1)", "tma(0x10000, 0)", "tma(0, 0x200)", "tma(0, 0x10000)", "tma(1, 2, 3)", "tma(x, 1)", "cyc()", "cyc(x)", "vmcs()", "mnt()", "mnt(y)",
		"exstop(foo)", "exstop(ip x)", "mwait(1)", "mwait()", "mwait(0x100000000, 0)", "mwait(0, 0x100000000)", "mwait(1, 2, 3)", "pwre()", "pwre(16)", "pwre(c16)", "pwre(c1.16)", "pwre(c1, foo)", "pwre(x)", "pwrx()", "pwrx(foo: c1, c2)", "pwrx(int)", "pwrx(int: c1)", "pwrx(int: c1.1, c1)", "pwrx(st: c1, c16)", "pwrx(hw: 1, 2)",
		"ptw()", "ptw(0)", "ptw(0: x)", "ptw(0: 1, foo)", "ptw(256: 1)", "raw-8()", "raw-8(256)", "raw-16(0x10000)", "raw-32(0x100000000)", "raw-64(0x10000000000000000)", "raw-24(1)", "raw-8(x)",
		"cfe()", "cfe(1)", "cfe(5)", "cfe(1:)", "cfe(256:1)", "cfe(1:256)", "cfe(3, x)", "evd()", "evd(1)", "evd(0:)", "evd(x:1)", "trig()", "trig(x)", "trig(256)", "trig(1, icnt)", "trig(1, icnt:65536)", ".exp", "dup: pad()", "org: pad()", "tip(1: %dup)"};
	static const char *sb[] = {"foo()", "primary()", "secondary()", "primary", "raw-8(1)", "raw-8(256)", "pevent-sample_type(time)", "pevent-itrace-start(1, 2)", "l9: raw-8(1)"};
	static const char *pv[] = {"pevent-sample_type(foo)", "pevent-sample_type(tid, 1x)", "raw-16(0x10000)", "raw-24(1)", "pevent-mmap(1, 2, 3, 4, 5)", "pevent-mmap()", "pevent-mmap(x, 2, 3, 4, 5, f)", "pevent-mmap(1, 2, 3, 4, x, f)", "pevent-mmap-section(nosuch, 1, 2)", "pevent-mmap-section()", "pevent-lost(1)", "pevent-lost(1, 2, 3)", "pevent-comm(1, 2)", "pevent-comm.exec(1)", "pevent-comm(0x100000000, 2, c)", "pevent-exit(1, 2, 3, 4)", "pevent-fork(1, 2, 3, 4)", "pevent-fork(1, 2, 3, 4, x)", "pevent-aux(1, 2)", "pevent-itrace-start(1)", "pevent-itrace-start(1, 2, 3)", "pevent-lost-samples()", "pevent-switch.in(1)", "pevent-switch(1)", "pevent-switch-cpu-wide.in(1)", "pevent-switch-cpu-wide.out(1, 2, 3)", "pevent-switch-cpu-wide.out()"};
	std::string what, line; auto ins = [&](const std::string &l) { p.lines.insert(p.lines.begin() + (long)nbody, l); };
	switch (s.weighted({12, 2, 6, 2, 4, 2, 2, 3})) {
	case 0: what = pt[s.below(sizeof pt / sizeof *pt)]; ins("; @pt " + what); if (what.compare(0, 3, "dup") == 0) ins(s.flip() ? "; @pt dup: pad()" : "dup: nop"); break;
	case 1: what = sb[s.below(sizeof sb / sizeof *sb)]; ins("; @sb " + what); break;
	case 2: { what = pv[s.below(sizeof pv / sizeof *pv)]; ins("; @sb " + what); ins("; @sb primary(pevent)"); break; }
	case 3: { unsigned n = s.flip() ? 7 + (unsigned)s.below(300) : 48 + (unsigned)s.below(600); bool b = n >= 48 && s.flip(); what = strf("tnt%s of %u bits", b ? "64" : "", n); std::string t; for (unsigned i = 0; i < n; ++i) t += s.flip() ? 't' : 'n'; ins(strf("; @pt tnt%s(", b ? "64" : "") + t + ")"); break; }
	case 4: { static const char *sm[] = {"time", "tid", "id, cpu", "stream, identifier", "0x4", "tid, 0x4"}; static const int need[] = {1, 2, 2, 2, 1, 3}; unsigned i = (unsigned)s.below(6); unsigned k = (unsigned)s.below(6); if ((int)k == need[i]) k++; std::string a = "1, 2"; for (unsigned j = 0; j < k; ++j) a += strf(", %u", j); if (s.chance(1, 4)) { k = (unsigned)need[i]; a = "1, 2"; for (unsigned j = 0; j + 1 < k; ++j) a += ", 1"; a += ", x"; } what = strf("samples (%s) for %s", a.c_str(), sm[i]); ins("; @sb pevent-itrace-start(" + a + ")"); ins(std::string("; @sb pevent-sample_type(") + sm[i] + ")"); ins("; @sb primary(pevent)"); break; }
	case 5: what = "sample type changed late"; ins("; @sb pevent-sample_type(time)"); ins("; @sb pevent-itrace-start(1, 2)"); ins("; @sb primary(pevent)"); break;
	case 6: { what = "text"; static const char *t[] = {"% x", "%", "%nolabel", "%0nolabel", "%org.9", "%org.x", "%eosx", "%?"}; what = t[s.below(8)]; p.lines.push_back("; @pt .exp(x)"); p.lines.push_back(std::string("; a ") + what); break; }
	default: switch (s.below(9)) {
		case 0: what = "no org"; p.lines.erase(std::remove_if(p.lines.begin(), p.lines.end(), [](const std::string &l) { return l.compare(0, 4, "org ") == 0; }), p.lines.end()); quiet = true; break;
		case 1: what = "no file"; args.erase(std::find(args.begin(), args.end(), p.path)); break; case 2: what = "two files"; args.push_back(p.path); break; case 3: what = "missing file"; *std::find(args.begin(), args.end(), p.path) = "nosuch.ptt"; quiet = true; break;
		case 4: what = "bad option"; args.insert(args.begin() + (long)s.below(args.size() + 1), "--foo"); break; case 5: what = "bad cpu"; args = {"--cpu", s.flip() ? "6" : s.flip() ? "x/y" : "6/1", p.path}; break;
		case 6: what = "cpu without argument"; args = {p.path, "--cpu"}; break; case 7: what = "assembly error"; if (s.flip()) { p.write(); run(args, true); p.inc.clear(); }	/* output of an earlier run is there */ ins("foobar rax"); quiet = true; break; default: what = "label without address"; p.lines.insert(p.lines.begin() + (long)nbody, "lx:"); break;
		} break;
	}
	if (what != "label without address" && p.exps.empty() && what[0] != '%') p.finish(s.flip());
	p.write(); c.describe([&] { return what + "\n" + joined(args) + "\n" + p.show(); });
	Out r = run(args, quiet); CHECK(r.rc != 0 && (r.rc & 0xff) != 0, "%s: exit status %d", what.c_str(), r.rc); CHECK(quiet || !r.err.empty(), "%s: no diagnostic", what.c_str()); CHECK(r.leaks.empty(), "%s: leaks: %s", what.c_str(), r.leaks.c_str());
	c.nontrivial(mix(fnvs(what), p.pt.size() + (p.lines.size() << 20))); std::string lb = what.substr(0, what.find_first_of("(: 0123456789")); c.label(lb.empty() ? "other" : lb.c_str());
}

// Damaged comments: an answer without crashing or leaking.
void damaged(Source &s, Ctx &c)
{
	Scratch d; Prog p(s); std::vector<std::string> args; setup(p, args); p.body(2 + (unsigned)s.below(16)); p.finish(true); unsigned n = 1 + (unsigned)s.below(4); static const char al[] = "0123456789abcdefx()%:.,;@#? \t-_ptsbcn\\/\"'[]{}<>~";
	std::vector<size_t> cand; for (size_t i = 0; i < p.lines.size(); ++i) if (p.lines[i].find(';') != std::string::npos) cand.push_back(i);
	for (unsigned k = 0; k < n && !cand.empty(); ++k) {
		std::string &l = p.lines[s.pick(cand)]; size_t b = l.find(';') + 1, at = b + s.below(l.size() - b + 1); char ch = s.chance(1, 12) ? (char)(128 + s.below(128)) : al[s.below(sizeof al - 1)];
		switch (s.below(6)) { case 0: if (at < l.size()) l[at] = ch; break; case 1: l.insert(at, 1, ch); break; case 2: if (at < l.size()) l.erase(at, 1 + s.below(4)); break; case 3: l.resize(at); break; case 4: l.insert(at, std::string(s.below(s.flip() ? 40 : 6000), ch)); break; default: if (cand.size() > 1) { const std::string &m = p.lines[s.pick(cand)]; l.insert(at, m.substr(m.find(';') + 1)); } break; }
	}
	p.write(); c.describe([&] { return joined(args) + "\n" + p.show(); });
	Out r = run(args, true); CHECK(r.rc == 0 || (!r.err.empty() && (r.rc & 0xff)), "exit status %d: %s", r.rc, r.err.c_str()); CHECK(r.leaks.empty(), "leaks: %s", r.leaks.c_str());
	c.nontrivial(fnvs(p.source_shown)); c.label(r.rc ? "error" : "success");
}
} // namespace

int main(int argc, char **argv)
{
	return run_main(argc, argv, "C19", {
		{"C19", "files", "at least four directives of at least three kinds; distinct source text", good, 16000, 400000},
		{"C19", "mistakes", "one mistake out of the list; distinct by mistake and size of the file", bad, 8000, 200000},
		{"C19", "damaged", "distinct source text", damaged, 8000, 200000},
	});
}
