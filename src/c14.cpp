// C14: configurations are interpreted compatibly; errata per CPU; address filters.
#include "ptwire.hpp"
#include <cstdlib>
#include <climits>
extern "C" {
#include "pt_config.h"
#include "pt_opcodes.h"
#include "pt_cpu.h"
}
using namespace pbt;
using wire::Bytes; using wire::Buf;

static int unkcb(pt_packet_unknown *, const pt_config *, const uint8_t *, void *c) { (*(int *)c)++; return 1; }

// --- configurations ---
struct Alloc { const char *name; void *(*alloc)(const pt_config *); void (*free)(void *); const pt_config *(*get)(void *); };
#define D(n, T, a, f, g) {n, [](const pt_config *c) -> void * { return a(c); }, [](void *p) { f((T *)p); }, [](void *p) { return g((T *)p); }}
static const Alloc allocs[] = {
	D("encoder", pt_encoder, pt_alloc_encoder, pt_free_encoder, pt_enc_get_config),
	D("packet decoder", pt_packet_decoder, pt_pkt_alloc_decoder, pt_pkt_free_decoder, pt_pkt_get_config),
	D("event decoder", pt_event_decoder, pt_evt_alloc_decoder, pt_evt_free_decoder, pt_evt_get_config),
	D("query decoder", pt_query_decoder, pt_qry_alloc_decoder, pt_qry_free_decoder, pt_qry_get_config),
	D("insn decoder", pt_insn_decoder, pt_insn_alloc_decoder, pt_insn_free_decoder, pt_insn_get_config),
	D("block decoder", pt_block_decoder, pt_blk_alloc_decoder, pt_blk_free_decoder, pt_blk_get_config),
};
static void configs(Source &s, Ctx &c)
{
	static uint8_t trace[64]; const size_t full = sizeof(pt_config), low = offsetof(pt_config, decode); int calls = 0;
	pt_config t; memset(&t, 0, sizeof(t)); uint8_t *raw = (uint8_t *)&t; for (size_t i = 0; i < sizeof(t); ++i) raw[i] = s.chance(1, 4) ? s.byte() : (uint8_t)(i * 37 + 11);
	t.decode.callback = s.flip() ? unkcb : nullptr; t.decode.context = &calls; t.flags.variant.block.enable_tick_events = 0;
	static const size_t marks[] = {offsetof(pt_config, decode), offsetof(pt_config, cpu), offsetof(pt_config, errata), offsetof(pt_config, cpuid_0x15_eax), offsetof(pt_config, mtc_freq), offsetof(pt_config, nom_freq), offsetof(pt_config, flags), offsetof(pt_config, addr_filter), sizeof(pt_config)};
	size_t size; switch (s.below(5)) { case 0: size = full; break; case 1: size = marks[s.below(9)] + s.below(3) - 1; break; case 2: size = full + s.range(1, 200); break; case 3: size = s.range(low, full); break; default: size = s.below(low + 1); }
	uint8_t *b = trace + s.below(32), *e = b + s.range(0, 31); int bad = s.chance(1, 4) ? (int)s.range(1, 4) : 0; if (bad == 1) b = nullptr; if (bad == 2) e = nullptr; if (bad == 3) { e = b; b = e + 1 + s.below(8); } if (bad == 4) { b = e = nullptr; }
	t.begin = b; t.end = e; t.size = size;
	bool ok = size >= low && !bad;
	// The user's structure is exactly as long as it says.
	size_t have = size < 24 ? 24 : size; uint8_t *u = (uint8_t *)malloc(have); if (have > full) { for (size_t i = full; i < have; ++i) u[i] = (uint8_t)(i * 5 + 1); memcpy(u, &t, full); } else memcpy(u, &t, have);
	for (auto &a : allocs) {
		CHECK(!a.alloc(nullptr), "%s without configuration", a.name);
		void *d = a.alloc((pt_config *)u); CHECK(!!d == ok, "%s with a configuration of %zu bytes and buffer %p..%p: %s", a.name, size, b, e, d ? "accepted" : "rejected"); if (!d) continue;
		const pt_config *g = a.get(d); CHECK(g, "%s: no configuration", a.name); pt_config w; memset(&w, 0, sizeof(w)); memcpy(&w, &t, size < full ? size : full);
		CHECK(g->begin == b && g->end == e, "%s: buffer", a.name); CHECK(g->size >= low && g->size <= full, "%s: size %zu", a.name, g->size);
#define F(f) CHECK(!memcmp(&g->f, &w.f, sizeof(w.f)), "%s with a configuration of %zu bytes (of %zu): %s differs", a.name, size, full, #f)
		F(decode.callback); F(decode.context); F(cpu.vendor); F(cpu.family); F(cpu.model); F(cpu.stepping); F(errata); F(cpuid_0x15_eax); F(cpuid_0x15_ebx); F(mtc_freq); F(nom_freq); F(addr_filter);
		if (!strcmp(a.name, "encoder") || !strcmp(a.name, "packet decoder")) F(flags);
#undef F
		a.free(d);
	}
	// An unknown packet is given to the callback if there is one.
	if (ok && size <= full && (size >= low + 16 || size == low)) {
		Bytes bad2 = {0x05, 0x05, 0x00}; Buf buf(bad2, 0); pt_config x; memcpy(&x, u, size < full ? size : full); if (size < full) memset((uint8_t *)&x + size, 0, full - size); memcpy(u, &t, have > full ? full : have); ((pt_config *)u)->begin = buf.p; ((pt_config *)u)->end = buf.p + 3; 
		pt_packet_decoder *d = pt_pkt_alloc_decoder((pt_config *)u); CHECK(d, "alloc"); CHECK(pt_pkt_sync_set(d, 0) == 0, "sync_set"); pt_packet p; int n = pt_pkt_next(d, &p, sizeof(p)); bool cb = size >= offsetof(pt_config, decode) + sizeof(void *) && t.decode.callback; size_t cut = offsetof(pt_config, decode);
		if (size >= cut + 16 || size <= cut) { CHECK(n == (cb ? 1 : -pte_bad_opc), "packet decoder with a configuration of %zu bytes: %d", size, n); CHECK(calls == (cb ? 1 : 0), "%d calls of the callback", calls); }
		pt_pkt_free_decoder(d);
	}
	free(u); c.label(ok ? "accepted" : "rejected"); if (size < full) c.label("smaller"); if (size > full) c.label("bigger");
	c.describe([&] { return strf("size %zu of %zu, buffer %s", size, full, bad ? "bad" : "ok"); });
	if (size != full) c.nontrivial(mix(mix(size, (uint64_t)bad), raw[s.below(sizeof(t))]));
}

// --- errata ---
struct Model { uint16_t family; uint8_t model; const char *e; };
// BDM: Broadwell.  SKL: Skylake etc. client.  SKX: Skylake etc. server.  SPR: Sapphire Rapids etc.
// ICL: Ice Lake etc. client.  ADL: hybrids.  APL: Goldmont.  GLP: Goldmont Plus and later.
#define BDM "bdm70 bdm64"
#define SKL "bdm70 skd007 skd022 skd010 skl014 skl168"
#define SKX "bdm70 skl014 skd022 skz84"
#define SPR "bdm70 skd022 skz84"
#define ICL "bdm70 skl014 skd022"
#define ADL "bdm70 skd022 apl11"
#define APL "apl12 apl11"
#define GLP "apl11"
static const Model models[] = {
	{6, 0x3d, BDM}, {6, 0x47, BDM}, {6, 0x4f, BDM}, {6, 0x56, BDM},
	{6, 0x4e, SKL}, {6, 0x5e, SKL}, {6, 0x8e, SKL}, {6, 0x9e, SKL}, {6, 0xa5, SKL}, {6, 0xa6, SKL},
	{6, 0x55, SKX}, {6, 0x6a, SKX}, {6, 0x6c, SKX}, {6, 0x8f, SPR}, {6, 0xcf, SPR}, {6, 0xad, SPR}, {6, 0xae, SPR}, {0x13, 1, SPR},
	{6, 0x66, ICL}, {6, 0x7d, ICL}, {6, 0x7e, ICL}, {6, 0x8c, ICL}, {6, 0x8d, ICL}, {6, 0xa7, ICL}, {6, 0xa8, ICL},
	{6, 0x97, ADL}, {6, 0x9a, ADL}, {6, 0xba, ADL}, {6, 0xb7, ADL}, {6, 0xbf, ADL}, {6, 0xc5, ADL}, {6, 0xc6, ADL}, {6, 0xb5, ADL}, {6, 0xaa, ADL}, {6, 0xac, ADL}, {6, 0xbd, ADL}, {6, 0xcc, ADL},
	{6, 0x5c, APL}, {6, 0x5f, APL}, {6, 0x7a, GLP}, {6, 0x86, GLP}, {6, 0x96, GLP}, {6, 0x9c, GLP}, {6, 0xb6, GLP}, {6, 0xaf, GLP}, {6, 0xdd, GLP},
};
static std::string names(const pt_errata &e)
{
	std::string r;
#define N(f) if (e.f) r += #f " "
	N(apl11); N(apl12); N(bdm64); N(bdm70); N(skd007); N(skd010); N(skd022); N(skl014); N(skl168); N(skz84);
#undef N
	return r;
}
static void errata(Source &s, Ctx &c)
{
	pt_cpu cpu; cpu.vendor = s.chance(1, 8) ? pcv_unknown : pcv_intel; const Model *k = &models[s.below(sizeof(models) / sizeof(models[0]))];
	switch (s.below(4)) { case 0: cpu.family = k->family; cpu.model = k->model; break; case 1: cpu.family = 6; cpu.model = s.byte(); break; case 2: cpu.family = (uint16_t)(k->family ^ (s.flip() ? 1u << s.below(16) : 0)); cpu.model = (uint8_t)(k->model ^ (s.flip() ? 1u << s.below(8) : 0)); break; default: cpu.family = (uint16_t)s.bits(16); cpu.model = s.byte(); }
	cpu.stepping = s.byte(); pt_cpu in = cpu; const char *want = ""; bool known = false;
	for (auto &m : models) if (m.family == cpu.family && m.model == cpu.model && cpu.vendor == pcv_intel) { want = m.e; known = true; }
	pt_errata e; memset(&e, 0xa5, sizeof(e)); int r = pt_cpu_errata(&e, &cpu); CHECK(r == (known ? 0 : -pte_bad_cpu), "cpu %x/%x: %d", cpu.family, cpu.model, r); CHECK(!memcmp(&in, &cpu, sizeof(cpu)), "cpu modified");
	pt_errata w; memset(&w, 0, sizeof(w)); std::string ws = std::string(want) + " ";
#define N(f) w.f = ws.find(#f " ") != std::string::npos
	N(apl11); N(apl12); N(bdm64); N(bdm70); N(skd007); N(skd010); N(skd022); N(skl014); N(skl168); N(skz84);
#undef N
	CHECK(!memcmp(&w, &e, sizeof(w)), "cpu %x/%x: errata %s, expected %s", cpu.family, cpu.model, names(e).c_str(), names(w).c_str());
	CHECK(pt_cpu_errata(nullptr, &cpu) == -pte_invalid && pt_cpu_errata(&e, nullptr) == -pte_invalid, "missing arguments");
	c.describe([&] { return strf("%u/%u/%u", cpu.family, cpu.model, cpu.stepping); }); c.label(known ? "known" : "unknown"); if (known) c.nontrivial(mix(cpu.family * 256u + cpu.model, cpu.stepping));
}

// --- cpu identifiers ---
static void cpus(Source &s, Ctx &c)
{
	std::string t; bool ok = true; uint64_t v[3] = {0, 0, 0}; static const uint64_t max[] = {65535, 255, 255}; unsigned n = s.chance(1, 10) ? (unsigned)s.below(5) : (unsigned)s.range(2, 3); ok = n == 2 || n == 3;
	for (unsigned i = 0; i < n; ++i) {
		if (i) t += s.chance(1, 30) ? (ok = false, ",") : "/";
		uint64_t m = i < 3 ? max[i] : 255, x = s.chance(1, 8) ? m + s.below(3) : s.below(m + 1); if (s.chance(1, 40)) x += 1ull << s.range(8, 62); if (x > m) ok = false; if (i < 3) v[i] = x;
		switch (s.below(3)) { case 0: t += strf("%llu", (unsigned long long)x); break; case 1: t += strf("0x%llx", (unsigned long long)x); break; default: t += strf("0%llo", (unsigned long long)x); }
		if (s.chance(1, 40)) { static const char *junk[] = {"x", " ", "g", "h"}; t += junk[s.below(4)]; ok = false; }
	}
	if (s.chance(1, 30)) { t = "-" + t; ok = ok && v[0] == 0; }
	pt_cpu cpu; memset(&cpu, 0xa5, sizeof(cpu)); int r = pt_cpu_parse(&cpu, t.c_str()); c.describe([&] { return t + strf(": %d", r); });
	if (ok) { CHECK(r == 0, "'%s': %d", t.c_str(), r); CHECK(cpu.vendor == pcv_intel && cpu.family == v[0] && cpu.model == v[1] && cpu.stepping == (n > 2 ? v[2] : 0), "'%s': %u/%u/%u", t.c_str(), cpu.family, cpu.model, cpu.stepping); }
	else CHECK(r == -pte_invalid, "'%s': %d", t.c_str(), r);
	c.label(ok ? "valid" : "invalid"); c.nontrivial(fnv(t.data(), t.size()));
}

// --- address filters ---
static void filters(Source &s, Ctx &c)
{
	pt_conf_addr_filter f; memset(&f, 0, sizeof(f)); uint64_t a[4], b[4]; unsigned cfg[4]; uint64_t base = s.chance(1, 3) ? s.interesting(64) : 0x1000; bool stop = false, any = false;
	for (unsigned i = 0; i < 4; ++i) {
		static const unsigned kinds[] = {0, 1, 1, 2, 2}; cfg[i] = s.chance(1, 20) ? (unsigned)s.range(3, 15) : kinds[s.below(5)]; a[i] = base + s.below(40); b[i] = s.chance(1, 8) ? s.interesting(64) : a[i] + s.below(20) - s.chance(1, 10);
		if (s.chance(1, 16)) a[i] = 0; if (s.chance(1, 16)) b[i] = ~0ull;
	}
	f.config.addr_cfg = cfg[0] | cfg[1] << 4 | cfg[2] << 8 | cfg[3] << 12; f.addr0_a = a[0]; f.addr0_b = b[0]; f.addr1_a = a[1]; f.addr1_b = b[1]; f.addr2_a = a[2]; f.addr2_b = b[2]; f.addr3_a = a[3]; f.addr3_b = b[3];
	for (unsigned k = 0; k < 16; ++k) {
		uint64_t x; unsigned i = (unsigned)s.below(4); switch (s.below(4)) { case 0: x = a[i] + s.below(3) - 1; break; case 1: x = b[i] + s.below(3) - 1; break; case 2: x = base + s.below(64); break; default: x = s.interesting(64); }
		bool st = false, in = false, have = false; for (unsigned j = 0; j < 4; ++j) { bool hit = a[j] <= x && x <= b[j]; if (cfg[j] == pt_addr_cfg_stop && hit) st = true; if (cfg[j] == pt_addr_cfg_filter) { have = true; if (hit) in = true; } }
		int want = st ? 0 : have ? in : 1, r = pt_filter_addr_check(&f, x); stop |= st; any |= in;
		CHECK(r == want, "address %llx, filter 0:%u %llx-%llx 1:%u %llx-%llx 2:%u %llx-%llx 3:%u %llx-%llx: %d, expected %d", (unsigned long long)x, cfg[0], (unsigned long long)a[0], (unsigned long long)b[0], cfg[1], (unsigned long long)a[1], (unsigned long long)b[1], cfg[2], (unsigned long long)a[2], (unsigned long long)b[2], cfg[3], (unsigned long long)a[3], (unsigned long long)b[3], r, want);
	}
	for (unsigned i = 0; i < 4; ++i) CHECK(pt_filter_addr_cfg(&f, i) == cfg[i] && pt_filter_addr_a(&f, i) == a[i] && pt_filter_addr_b(&f, i) == b[i], "filter %u", i);
	c.describe([&] { return strf("cfg %x: %llx-%llx %llx-%llx %llx-%llx %llx-%llx", (unsigned)f.config.addr_cfg, (unsigned long long)a[0], (unsigned long long)b[0], (unsigned long long)a[1], (unsigned long long)b[1], (unsigned long long)a[2], (unsigned long long)b[2], (unsigned long long)a[3], (unsigned long long)b[3]); });
	if (stop || any) c.nontrivial(fnv(&f, sizeof(f)));
}

int main(int argc, char **argv)
{
	return run_main(argc, argv, "C14", {
		{"C14", "config", "a configuration of any size and contents given to all allocation functions; size differs from the library's", configs, 400000, 20000000},
		{"C14", "errata", "cpu identifiers; known ones", errata, 1000000, 30000000},
		{"C14", "cpu", "cpu identifier strings, valid and not", cpus, 1000000, 30000000},
		{"C14", "filter", "four filter ranges and 16 addresses around their ends; at least one in a range", filters, 1000000, 30000000},
	});
}
