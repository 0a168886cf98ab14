// C20: ptseg prints the segment around an offset.
//
// ptseg's source is compiled into the harness (main renamed) and run on files
// with whole, cut, overlong and look-alike PSB packets.  The expected range
// comes from a scan for the pattern.
#include "psbgen.hpp"
#include "wrap.hpp"
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
extern "C" int ptseg_tool_main(int argc, char **argv);
typedef unsigned long long ull;

namespace {
struct Out { int rc; std::string out, err, leaks; };
Out run(const std::vector<std::string> &args)
{
	std::vector<std::vector<char>> store; std::vector<char *> argv; store.reserve(args.size() + 1);
	auto add = [&](const std::string &a) { store.emplace_back(a.begin(), a.end()); store.back().push_back(0); argv.push_back(store.back().data()); };
	add("ptseg"); for (auto &a : args) add(a); argv.push_back(nullptr);
	char *o = nullptr, *e = nullptr; size_t on = 0, en = 0; FILE *so = stdout, *se = stderr; Out r; fflush(so);
	FILE *fo = open_memstream(&o, &on), *fe = open_memstream(&e, &en); CHECK(fo && fe, "memstream"); stdout = fo; stderr = fe;
	{ wr::Guard g; r.rc = ptseg_tool_main((int)argv.size() - 1, argv.data()); r.leaks = wr::leaks(); }
	stdout = so; stderr = se; fclose(fo); fclose(fe); r.out.assign(o, on); r.err.assign(e, en); free(o); free(e); return r;
}
struct File {	// in memory, or in a scratch directory with a name that contains colons
	int fd = -1; std::string name, dir;
	File(const Bytes &b, bool real)
	{
		if (real) { char d[] = "/tmp/verif-ptseg-XXXXXX"; CHECK(mkdtemp(d) != nullptr, "mkdtemp"); dir = d; name = dir + "/a:1"; fd = ::open(name.c_str(), O_CREAT | O_WRONLY, 0600); } else { fd = memfd_create("c20", 0); name = strf("/proc/self/fd/%d", fd); }
		CHECK(fd >= 0 && ::write(fd, b.data(), b.size()) == (ssize_t)b.size(), "write");
	}
	~File() { if (fd >= 0) ::close(fd); if (!dir.empty()) { unlink(name.c_str()); rmdir(dir.c_str()); } }
	File(const File &) = delete;
};
std::string num(Source &s, uint64_t v) { switch (s.below(4)) { case 0: return strf("%llu", (ull)v); case 1: return strf("0%llo", (ull)v); default: return strf("0x%llx", (ull)v); } }

void check(const Bytes &b, const std::vector<size_t> &P, const std::string &name, Source &s, size_t o)
{
	std::string arg = name + ":" + num(s, o); Out r = run({arg}); size_t n = b.size();
	CHECK(r.leaks.empty(), "%s: leaks: %s", arg.c_str(), r.leaks.c_str()); CHECK(r.rc == 0 && r.err.empty(), "%s: exit status %d: %s", arg.c_str(), r.rc, r.err.c_str());
	ull x[4] = {~0ull, ~0ull, ~0ull, ~0ull}; int end = -1; int k = sscanf(r.out.c_str(), "0x%llx-0x%llx (offset: 0x%llx, size: 0x%llx)\n%n", x, x + 1, x + 2, x + 3, &end);
	CHECK(k == 4 && end == (int)r.out.size(), "%s: output: %s", arg.c_str(), r.out.c_str()); CHECK(r.out == strf("0x%llx-0x%llx (offset: 0x%llx, size: 0x%llx)\n", x[0], x[1], x[2], x[3]), "%s: format: %s", arg.c_str(), r.out.c_str());
	CHECK(x[2] == o - x[0] && x[3] == x[1] - x[0], "%s: %s", arg.c_str(), r.out.c_str());
	// The segments on both sides if the offset lies at the beginning of or inside a PSB.
	size_t edge = n + 1; bool at = false; for (size_t p : P) if (p <= o && o < p + 16) { edge = p; at = true; }
	size_t pb = 0, nx = n; for (size_t p : P) { if (p < (at ? edge : o)) pb = p; if (p > (at ? edge : o)) { nx = p; break; } }
	if (!at) CHECK(x[0] == pb && x[1] == nx, "%s: got %s expected 0x%zx-0x%zx", arg.c_str(), r.out.c_str(), pb, nx);
	else CHECK((x[0] == pb && x[1] == edge) || (x[0] == edge && x[1] == nx), "%s: got %s expected 0x%zx-0x%zx or 0x%zx-0x%zx", arg.c_str(), r.out.c_str(), pb, edge, edge, nx);
}

void segments(Source &s, Ctx &c)
{
	Bytes b = gen_trace(s); if (s.flip()) { Bytes e = gen_trace(s); if (s.flip()) b.insert(b.end(), s.below(5000), (uint8_t)(s.flip() ? 0 : 0x59)); b.insert(b.end(), e.begin(), e.end()); } auto P = psbs(b); File f(b, s.chance(1, 10));
	c.log("%zu bytes, PSBs:", b.size()); for (size_t p : P) c.log(" 0x%zx", p); c.log("\n"); if (c.want_describe) c.log("%s\n", hex(b, 600).c_str());
	unsigned m = 1 + (unsigned)s.below(8); for (unsigned i = 0; i < m; ++i) { size_t o; if (!P.empty() && s.flip()) { long d = (long)s.below(48) - 24; long v = (long)s.pick(P) + d; o = v < 0 ? 0 : (size_t)v; } else o = s.below(b.size()); if (o >= b.size()) o = b.size() - 1; check(b, P, f.name, s, o); }
	if (P.size() >= 2) c.nontrivial(mix(fnv(b.data(), b.size()), m)); c.label(P.empty() ? "no PSB" : P.size() == 1 ? "one PSB" : "several PSBs");
}

void args(Source &s, Ctx &c)
{
	Bytes b = s.chance(1, 4) ? Bytes() : gen_trace(s); File f(b, s.chance(1, 10)); std::vector<std::string> a; std::string what; bool ok = false; std::string off = num(s, b.empty() ? 0 : s.below(b.size()));
	switch (s.below(12)) {
	case 0: what = "no argument"; break; case 1: what = "bad option"; a = {s.flip() ? "--foo" : "-x"}; if (s.flip()) a.push_back(f.name + ":" + off); break; case 2: what = "no offset"; a = {f.dir.empty() ? f.name : "/proc/self/fd"}; break; case 3: what = "empty offset"; a = {f.name + ":"}; break;
	case 4: what = "no file name"; a = {":" + off}; break; case 5: what = "bad offset"; { static const char *t[] = {"x", "0x", "1x", "0xg", "0x10000000000000000", "1 ", "08", "99999999999999999999"}; a = {f.name + ":" + t[s.below(8)]}; } break;
	case 6: what = "trailing junk"; a = {f.name + ":" + off, s.flip() ? off : "--help"}; break; case 7: what = "missing file"; a = {"/nonexistent/file:" + off}; break; case 8: what = "offset beyond the end"; { uint64_t d = 1 + (s.flip() ? s.below(32) : s.interesting(64)); if (!d) d = 1; uint64_t v = b.size() + d; if (v < d) v = ~0ull; a = {f.name + ":" + strf("0x%llx", (ull)v)}; } break;
	case 9: what = "empty file"; { File e(Bytes(), false); Out r = run({e.name + ":0"}); CHECK(r.rc && (r.rc & 0xff) && r.out.empty() && !r.err.empty() && r.leaks.empty(), "%s: exit status %d %s%s", what.c_str(), r.rc, r.out.c_str(), r.leaks.c_str()); c.nontrivial(1); c.label(what.c_str()); return; }
	case 10: what = "directory"; a = {"/proc/self:0"}; break; default: what = "help"; { static const char *t[] = {"--help", "-h", "--version"}; a = {t[s.below(3)]}; ok = true; } break;
	}
	std::string j; for (auto &x : a) j += " '" + x + "'"; c.log("%s:%s\n", what.c_str(), j.c_str()); Out r = run(a); CHECK(r.leaks.empty(), "leaks: %s", r.leaks.c_str());
	if (ok) CHECK(r.rc == 0 && !r.out.empty() && r.err.empty(), "%s: exit status %d", what.c_str(), r.rc); else CHECK(r.rc && (r.rc & 0xff) && r.out.empty() && !r.err.empty(), "%s:%s: exit status %d, printed '%s'", what.c_str(), j.c_str(), r.rc, r.out.c_str());
	c.nontrivial(mix(fnv((const uint8_t *)j.data(), j.size()), b.size())); c.label(what.c_str());
}
} // namespace

int main(int argc, char **argv)
{
	return run_main(argc, argv, "C20", {
		{"C20", "segments", "at least two PSBs; distinct traces", segments, 400000, 20000000},
		{"C20", "args", "distinct command lines and files", args, 60000, 2000000},
	});
}
