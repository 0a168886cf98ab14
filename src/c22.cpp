// C22: decoders in different threads do not interfere.  Built with ThreadSanitizer.
#include "icthreads.hpp"
#include "simrun.hpp"
using namespace sim;

struct ImgGuard { pt_image *i; ~ImgGuard() { if (i) pt_image_free(i); } };
struct Job { int kind; bool ticks, own, share; BlkFlags fl; unsigned again; std::vector<uint64_t> arg; };
static const char *const jobname[] = {"insn", "blocks", "limit", "read", "add"};

static void decode(Source &s, Ctx &c, bool controlled, bool bulk = false)
{
	Program p(s); p.generate(!bulk, bulk ? 12 : 40, bulk); p.layout(s.chance(1, 6), true);
	Sim m(s, p); m.bulk = bulk; m.t.iflags = s.chance(1, 3); m.retcomp = !s.chance(1, 3); m.defer = !m.retcomp && s.flip(); m.t.timing = !s.chance(1, 4);
	m.run(s.range(4, bulk ? 30 : controlled ? 40 : 120));
	unsigned what = et_time | et_resumed; describe(c, m, what);
	std::vector<Entry> wti = with_ticks(m.log), wtb = with_ticks(m.log, true); Buf buf(m.t.out, 0);
	unsigned n = (unsigned)s.range(2, controlled ? 3 : 5), ndec = 0; std::vector<Job> jobs;
	for (unsigned i = 0; i < n; ++i) {
		Job j; j.kind = i < 2 ? (i == 0 ? 1 : s.chance(1, 3) ? 0 : 1) : (int)s.weighted({2, 3, 2, 2, 2}); j.ticks = !m.defer && s.chance(1, 3); j.own = s.flip(); j.share = false; j.fl.call = s.chance(1, 3); j.fl.jump = s.chance(1, 3); j.again = (unsigned)s.below(bulk ? 2 : 3); if (j.kind < 2) ndec++;
		for (unsigned k = (unsigned)s.range(1, 20); k && j.kind > 1; --k) j.arg.push_back(j.kind == 2 ? (s.chance(1, 3) ? 0 : s.interesting(16)) : s.below(1 << 20)); jobs.push_back(j);
		c.label(jobname[j.kind]);
	}
	std::vector<std::string> err(n); std::vector<std::function<void()>> th;
	for (unsigned t = 0; t < n; ++t) th.push_back([&, t] {
		try {
			Job &j = jobs[t]; 
			if (j.kind < 2) for (unsigned k = 0; k <= j.again; ++k) {
				pt_config cfg = mkconfig(buf.p, m.t.out.size()); ImgGuard img{j.own ? pt_image_alloc(nullptr) : nullptr}; if (img.i) p.fill(img.i);
				if (j.kind == 0) {
					cfg.flags.variant.insn.enable_tick_events = j.ticks; cfg.flags.variant.insn.enable_iflags_events = m.t.iflags; InsnGuard d{pt_insn_alloc_decoder(&cfg)}; CHECK(d.d, "alloc"); if (img.i) CHECK(pt_insn_set_image(d.d, img.i) == 0, "set_image"); else p.fill(pt_insn_get_image(d.d));
					run_insn(d.d, pt_insn_sync_forward(d.d), m, j.ticks ? wti : m.log, what, true, "insn");
				} else {
					cfg.flags.variant.block.enable_tick_events = j.ticks; cfg.flags.variant.block.enable_iflags_events = m.t.iflags; cfg.flags.variant.block.end_on_call = j.fl.call; cfg.flags.variant.block.end_on_jump = j.fl.jump; BlkGuard d{pt_blk_alloc_decoder(&cfg)}; CHECK(d.d, "alloc"); if (img.i) CHECK(pt_blk_set_image(d.d, img.i) == 0, "set_image"); else p.fill(pt_blk_get_image(d.d));
					run_blk(d.d, pt_blk_sync_forward(d.d), m, j.ticks ? wtb : m.log, what, true, "blocks", j.fl);
				}
			}
			std::vector<Piece *> fp; for (auto &q : p.pieces) if (!q.callback) fp.push_back(&q); if (fp.empty()) return;
			for (uint64_t a : j.arg) switch (j.kind) {
			case 2: { int e = pt_iscache_set_limit(p.iscache, a); CHECK(e == 0, "set_limit: %d", e); break; }
			case 3: { Piece &q = *fp[a % fp.size()]; Region &g = p.r[(size_t)q.region]; uint64_t o = (a >> 4) % q.len; uint8_t b[16]; uint64_t w = q.len - o < 16 ? q.len - o : 16; int e = pt_iscache_read(p.iscache, b, 16, q.isid, g.base + q.off + o); CHECK(e == (int)w && !memcmp(b, g.code.data() + q.off + o, (size_t)w), "read of isid %d: %d", q.isid, e); break; }
			case 4: { Piece &q = *fp[a % fp.size()]; Region &g = p.r[(size_t)q.region]; uint64_t va = g.base + q.off + ((a >> 6) % 3) * 0x10000000; std::string name = strf("/proc/self/fd/%d", p.fd); int e = pt_iscache_add_file(p.iscache, name.c_str(), q.fileoff, q.len, va); CHECK(e > 0, "add_file: %d", e); int f = pt_iscache_add_file(p.iscache, name.c_str(), q.fileoff, q.len, va); CHECK(e == f, "add_file: isid %d, then %d", e, f); break; }
			}
		} catch (const Failure &f) { err[t] = f.msg; }
	});
	if (!controlled) sched::perturb(s.below(1 << 16), s.chance(1, 3) ? 0 : (unsigned)s.range(1, 6));
	sched::run(th, controlled ? &s : nullptr); sched::perturb(0, 0);
	for (unsigned t = 0; t < n; ++t) CHECK(err[t].empty(), "thread %u (%s): %s", t, jobname[jobs[t].kind], err[t].c_str());
	c.label("instructions", m.nins); if (controlled) c.label("thread switches", sched::switches());
	if (m.nins >= 5 && ndec >= 2) c.nontrivial(mix(fnv(m.t.out.data(), m.t.out.size()), m.nins));
}
static void races(Source &s, Ctx &c) { decode(s, c, false); }
static void longrun(Source &s, Ctx &c) { decode(s, c, false, true); }
static void schedules(Source &s, Ctx &c) { decode(s, c, true); }
static void cache(Source &s, Ctx &c) { sched::perturb(s.below(1 << 16), s.chance(1, 3) ? 0 : (unsigned)s.range(1, 6)); ict::run_threads(s, c, (unsigned)s.range(2, 4), 30); sched::perturb(0, 0); }
static void cachesched(Source &s, Ctx &c) { ict::run_threads(s, c, (unsigned)s.range(2, 4), 8, true); }

int main(int argc, char **argv)
{
	ict::files();
	return run_main(argc, argv, "C22", {
		{"C22", "decode", "2-5 threads decode one generated execution with insn and block decoders of their own, sharing a section cache, while others read, add and change the limit; at least five instructions and two decoders", races, 30000, 1500000, 120},
		{"C22", "long", "as above with executions that fill and chain block caches", longrun, 600, 30000, 240},
		{"C22", "cache", "2-4 threads with 1-30 operations each on one section cache", cache, 30000, 1500000, 120},
		{"C22", "decode-schedules", "2-3 threads; the case chooses the thread to run at each lock operation", schedules, 6000, 300000, 120},
		{"C22", "cache-schedules", "2-4 threads with 1-8 operations each; the case chooses the thread to run at each lock operation", cachesched, 20000, 1000000, 120},
	});
}
