// C08: the block decoder reconstructs the same execution.
#include "simrun.hpp"
using namespace sim;

struct ImgGuard { pt_image *i; ~ImgGuard() { if (i) pt_image_free(i); } };
static pt_config blkconfig(Source &s, Sim &m, uint8_t *p, size_t n, bool ticks, BlkFlags *fl)
{
	pt_config cfg = mkconfig(p, n); fl->call = s.chance(1, 3); fl->jump = s.chance(1, 3);
	cfg.flags.variant.block.enable_tick_events = ticks; cfg.flags.variant.block.enable_iflags_events = m.t.iflags; cfg.flags.variant.block.keep_tcal_on_ovf = s.flip(); cfg.flags.variant.block.end_on_call = fl->call; cfg.flags.variant.block.end_on_jump = fl->jump; m.errata(cfg);
	return cfg;
}
static void blocks(Source &s, Ctx &c, bool bulk, bool errata)
{
	Program p(s); p.errata = errata; p.generate(!bulk, bulk ? 12 : 40, bulk); bool cached = s.flip(); p.layout(s.chance(1, 4), cached);
	Sim m(s, p); m.bulk = bulk; m.t.iflags = s.chance(1, 3); m.retcomp = !s.chance(1, 3); m.defer = !m.retcomp && s.flip(); bool ticks = !m.defer && s.chance(1, 3); m.t.timing = !s.chance(1, 4);
	if (errata) m.errata(ticks);
	m.run(s.range(4, bulk ? 40 : 160));
	unsigned what = et_time | et_resumed;
	describe(c, m, what);
	std::vector<Entry> wt = with_ticks(m.log, true);
	Buf buf(m.t.out, (unsigned)s.below(8));
	BlkFlags fl; pt_config cfg = blkconfig(s, m, buf.p, m.t.out.size(), ticks, &fl);
	BlkGuard d{pt_blk_alloc_decoder(&cfg)}; CHECK(d.d, "alloc");
	bool own = s.flip();
	ImgGuard img{own ? pt_image_alloc("sim") : nullptr};
	if (own) { p.fill(img.i); CHECK(pt_blk_set_image(d.d, img.i) == 0, "set_image"); } else p.fill(pt_blk_get_image(d.d));
	size_t nb = run_blk(d.d, pt_blk_sync_forward(d.d), m, ticks ? wt : m.log, what, true, "blocks", fl);
	// Again, with warm caches.
	for (unsigned k = (unsigned)s.below(3); k; --k) {
		if (s.flip()) { run_blk(d.d, pt_blk_sync_set(d.d, 0), m, ticks ? wt : m.log, what, true, "again", fl); continue; }
		BlkFlags f2; bool t2 = !m.defer && !m.er_bdm64 && s.chance(1, 3); pt_config c2 = blkconfig(s, m, buf.p, m.t.out.size(), t2, &f2); BlkGuard e{pt_blk_alloc_decoder(&c2)}; CHECK(e.d, "alloc");
		ImgGuard i2{nullptr};
		if (own && s.flip()) CHECK(pt_blk_set_image(e.d, img.i) == 0, "set_image"); else if (s.flip()) p.fill(pt_blk_get_image(e.d)); else { i2.i = pt_image_alloc("other"); p.fill(i2.i); CHECK(pt_blk_set_image(e.d, i2.i) == 0, "set_image"); }
		run_blk(e.d, pt_blk_sync_forward(e.d), m, t2 ? wt : m.log, what, true, "other decoder", f2);
		CHECK(pt_blk_set_image(e.d, nullptr) == 0, "set_image");
	}
	unsigned seen = 0; size_t kinds = 0; for (auto &e : m.log) if (!e.isev) seen |= 1u << e.ins->k; else c.label(evname(e.ev.type)); for (int k = 0; k < 16; ++k) kinds += seen >> k & 1;
	c.label("instructions", m.nins); c.label("events", m.nev); c.label("blocks", nb);
	if (errata) { static const char *const n[3] = {"skl014", "skd022", "bdm64"}; for (unsigned k = 0; k < 3; ++k) if (m.er_hits[k]) c.label(n[k], m.er_hits[k]); if (!m.er_hits[0] && !m.er_hits[1] && !m.er_hits[2]) return; }
	if (m.nins >= 5 && kinds >= 2 && nb >= 2) c.nontrivial(mix(fnv(m.t.out.data(), m.t.out.size()), m.nins));
}

static void blocks(Source &s, Ctx &c) { blocks(s, c, false, false); }
static void errata(Source &s, Ctx &c) { blocks(s, c, false, true); }
static void bulk(Source &s, Ctx &c) { blocks(s, c, true, false); }

int main(int argc, char **argv)
{
	return run_main(argc, argv, "C08", {
		{"C08", "blocks", "a program of 1-5 code regions executed for 4-160 steps (see C07) and decoded by block decoders with random flags and cold and warm caches; at least five instructions of two kinds in two blocks", blocks, 200000, 3000000},
		{"C08", "errata", "as above, on a processor with errata SKL014, SKD022, BDM64 (see C07); at least one of them hit", errata, 50000, 1000000},
		{"C08", "long", "as above, with up to 140000 consecutive instructions that need no trace: full blocks, chained cache entries", bulk, 1500, 100000},
	});
}
