// C07: the instruction flow decoder reconstructs the execution.
#include "simrun.hpp"
using namespace sim;

static void flow(Source &s, Ctx &c, bool errata)
{
	Program p(s); p.errata = errata; p.generate(); p.layout(s.chance(1, 4), s.flip());
	Sim m(s, p); m.t.iflags = s.chance(1, 3); m.retcomp = !s.chance(1, 3); m.defer = !m.retcomp && s.flip(); bool ticks = !m.defer && s.chance(1, 3); m.t.timing = !s.chance(1, 4);
	if (errata) m.errata(ticks);
	m.run(s.range(4, 160));
	unsigned what = et_time | et_resumed;
	describe(c, m, what);
	Buf buf(m.t.out, (unsigned)s.below(8)); pt_config cfg = mkconfig(buf.p, m.t.out.size()); cfg.flags.variant.insn.enable_tick_events = ticks; cfg.flags.variant.insn.enable_iflags_events = m.t.iflags; cfg.flags.variant.insn.keep_tcal_on_ovf = s.flip(); m.errata(cfg);
	InsnGuard d{pt_insn_alloc_decoder(&cfg)}; CHECK(d.d, "alloc");
	bool own = s.flip(); struct ImgGuard { pt_image *i; ~ImgGuard() { pt_image_free(i); } } img{own ? pt_image_alloc("sim") : nullptr};
	if (own) { p.fill(img.i); CHECK(pt_insn_set_image(d.d, img.i) == 0, "set_image"); } else p.fill(pt_insn_get_image(d.d));
	run_insn(d.d, pt_insn_sync_forward(d.d), m, ticks ? with_ticks(m.log) : m.log, what, true, "flow");
	size_t kinds = 0; unsigned seen = 0; for (auto &e : m.log) if (!e.isev) seen |= 1u << e.ins->k; else c.label(evname(e.ev.type)); for (int k = 0; k < 16; ++k) kinds += seen >> k & 1;
	c.label("instructions", m.nins); c.label("events", m.nev);
	if (errata) { static const char *const n[3] = {"skl014", "skd022", "bdm64"}; for (unsigned k = 0; k < 3; ++k) if (m.er_hits[k]) c.label(n[k], m.er_hits[k]); if (!m.er_hits[0] && !m.er_hits[1] && !m.er_hits[2]) return; }
	if (m.nins >= 5 && kinds >= 2) c.nontrivial(mix(fnv(m.t.out.data(), m.t.out.size()), m.nins));
}

static void flow(Source &s, Ctx &c) { flow(s, c, false); }
static void errata(Source &s, Ctx &c) { flow(s, c, true); }

int main(int argc, char **argv)
{
	return run_main(argc, argv, "C07", {
		{"C07", "flow", "a program of 1-5 code regions executed for 4-160 steps with branches, asynchronous branches and disables, address space and mode switches, transactions, overflows, power, event-trace and trigger events; at least five instructions of two kinds reconstructed", flow, 240000, 3000000},
		{"C07", "errata", "as above, on a processor with errata SKL014 (disabled without IP when leaving the address filter), SKD022 (FUP for a VM entry that disables tracing), BDM64 (wrong branch before a transaction abort); at least one of them hit", errata, 60000, 1000000}
	});
}
