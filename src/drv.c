/* See drv.h. */
#define _GNU_SOURCE
#include "drv.h"
#include <intel-pt.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <unistd.h>
#include <sys/mman.h>

static char msg[512];
static int failed(const char *fmt, ...)
{
	va_list ap;
	if (!msg[0]) { va_start(ap, fmt); vsnprintf(msg, sizeof(msg), fmt, ap); va_end(ap); }
	return -1;
}
#define FAIL(...) failed(__VA_ARGS__)

struct rd { const uint8_t *p, *e; };
static uint64_t get(struct rd *r, unsigned n) { uint64_t v = 0; unsigned i; for (i = 0; i < n; ++i) if (r->p < r->e) v |= (uint64_t)*r->p++ << (8 * i); return v; }

struct region { uint64_t base; unsigned len, kind; uint64_t cr3, vmcs; const uint8_t *bytes; uint64_t off; int isid; };
struct drv {
	struct pt_config cfg; int layer; struct region reg[4]; unsigned nreg; struct pt_image_section_cache *isc; struct pt_image *img[2]; int own;
	uint8_t *trace; size_t len; struct drv_stat *st; int synced; int broken; int misuse; int status; uint64_t ninsn; uint64_t last; size_t still;
	union { struct pt_packet_decoder *pkt; struct pt_event_decoder *evt; struct pt_query_decoder *qry; struct pt_insn_decoder *insn; struct pt_block_decoder *blk; void *any; } d;
};
static uint64_t mix(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); return h * 0xff51afd7ed558ccdull; }

static int readmem(uint8_t *buf, size_t size, const struct pt_asid *asid, uint64_t ip, void *context)
{
	struct drv *d = context; unsigned i;
	(void)asid;
	for (i = 0; i < d->nreg; ++i) {
		struct region *g = &d->reg[i];
		if ((g->kind & 3) != 2) continue;
		if (ip - g->base < g->len) { size_t n = g->len - (size_t)(ip - g->base); if (size < n) n = size; memcpy(buf, g->bytes + (ip - g->base), n); return (int)n; }
	}
	return -pte_nomap;
}

static int memfd(void) { static int fd = -1; if (fd < 0) fd = memfd_create("drv", 0); return fd; }

static int fill(struct drv *d, struct pt_image *img)
{
	char name[64]; unsigned i; int e;
	snprintf(name, sizeof(name), "/proc/%d/fd/%d", (int)getpid(), memfd());
	for (i = 0; i < d->nreg; ++i) {
		struct region *g = &d->reg[i]; struct pt_asid a; pt_asid_init(&a);
		if (g->cr3) a.cr3 = g->cr3;
		if (g->vmcs) a.vmcs = g->vmcs;
		if (!g->len || g->base + g->len < g->base) continue;
		switch (g->kind & 3) {
		case 0: e = pt_image_add_file(img, name, g->off, g->len, &a, g->base); if (e < 0) return FAIL("pt_image_add_file: %d", e); break;
		case 1: if (g->isid) { e = pt_image_add_cached(img, d->isc, g->isid, &a); if (e < 0) return FAIL("pt_image_add_cached: %d", e); } break;
		default: break;
		}
	}
	e = pt_image_set_callback(img, readmem, d); if (e < 0) return FAIL("pt_image_set_callback: %d", e);
	return 0;
}

/* Check an API call's return value. */
static int ret(struct drv *d, int e, const char *fn)
{
	d->st->calls++;
	d->st->hash = mix(d->st->hash, (uint64_t)(uint32_t)e);
	if (e >= 0) return e;
	d->st->errors++; if (-e < 64) d->st->errmask |= 1ull << -e;
	switch (-e) {
	/* Behind an error, the user is supposed to synchronize again. */
	case pte_internal: if (d->broken || d->misuse) break; /* fall through */
	/* The queues of the event decoder are bounded: pte_nomem. */
	case pte_invalid: case pte_bad_lock: case pte_bad_file: case pte_bad_cpu:
		FAIL("%s: %s", fn, pt_errstr(pt_errcode(e))); break;
	default: if (-e > pte_bad_cpu) FAIL("%s: unknown error %d", fn, e); break;
	}
	if (e != -pte_eos && e != -pte_invalid && !(e == -pte_bad_query && d->layer == drv_qry)) d->broken = 1;
	return e;
}
static int status(struct drv *d, int e, const char *fn)
{
	e = ret(d, e, fn);
	if (e > 0 && (e & ~(pts_ip_suppressed | pts_event_pending | pts_eos))) FAIL("%s: unknown status %#x", fn, e);
	return e;
}

static int offset(struct drv *d, uint64_t *o)
{
	switch (d->layer) {
	case drv_pkt: return pt_pkt_get_offset(d->d.pkt, o); case drv_evt: return pt_evt_get_offset(d->d.evt, o); case drv_qry: return pt_qry_get_offset(d->d.qry, o);
	case drv_insn: return pt_insn_get_offset(d->d.insn, o); default: return pt_blk_get_offset(d->d.blk, o);
	}
}
static int syncoffset(struct drv *d, uint64_t *o)
{
	switch (d->layer) {
	case drv_pkt: return pt_pkt_get_sync_offset(d->d.pkt, o); case drv_evt: return pt_evt_get_sync_offset(d->d.evt, o); case drv_qry: return pt_qry_get_sync_offset(d->d.qry, o);
	case drv_insn: return pt_insn_get_sync_offset(d->d.insn, o); default: return pt_blk_get_sync_offset(d->d.blk, o);
	}
}
static int do_sync(struct drv *d, int how, uint64_t o)
{
	int e = 0; uint64_t ip = 0;
	switch (d->layer) {
	case drv_pkt: e = how == dop_fwd ? pt_pkt_sync_forward(d->d.pkt) : how == dop_bwd ? pt_pkt_sync_backward(d->d.pkt) : pt_pkt_sync_set(d->d.pkt, o); break;
	case drv_evt: e = how == dop_fwd ? pt_evt_sync_forward(d->d.evt) : how == dop_bwd ? pt_evt_sync_backward(d->d.evt) : pt_evt_sync_set(d->d.evt, o); break;
	case drv_qry: e = how == dop_fwd ? pt_qry_sync_forward(d->d.qry, &ip) : how == dop_bwd ? pt_qry_sync_backward(d->d.qry, &ip) : pt_qry_sync_set(d->d.qry, &ip, o); break;
	case drv_insn: e = how == dop_fwd ? pt_insn_sync_forward(d->d.insn) : how == dop_bwd ? pt_insn_sync_backward(d->d.insn) : pt_insn_sync_set(d->d.insn, o); break;
	default: e = how == dop_fwd ? pt_blk_sync_forward(d->d.blk) : how == dop_bwd ? pt_blk_sync_backward(d->d.blk) : pt_blk_sync_set(d->d.blk, o); break;
	}
	static const char *fn[3] = {"sync_forward", "sync_backward", "sync_set"};
	d->broken = d->misuse = 0;
	d->status = status(d, e, fn[how - dop_fwd]); d->st->syncs++;
	d->synced = e >= 0; d->last = 0;
	if (d->synced && d->layer == drv_qry && !(e & pts_ip_suppressed)) d->st->hash = mix(d->st->hash, ip);
	return d->status;
}

#define H(x) (d->st->hash = mix(d->st->hash, (uint64_t)(x)))
/* Everything a user may look at. */
static void hash_event(struct drv *d, const struct pt_event *ev)
{
	int ip = !ev->ip_suppressed;
	switch (ev->type) {
	case ptev_enabled: if (ip) H(ev->variant.enabled.ip); H(ev->variant.enabled.resumed); break;
	case ptev_disabled: if (ip && !ev->status_update) H(ev->variant.disabled.ip); break;
	case ptev_async_disabled: H(ev->variant.async_disabled.at); if (ip) H(ev->variant.async_disabled.ip); break;
	case ptev_async_branch: H(ev->variant.async_branch.from); if (ip) H(ev->variant.async_branch.to); break;
	case ptev_paging: H(ev->variant.paging.cr3); H(ev->variant.paging.non_root); break;
	case ptev_async_paging: H(ev->variant.async_paging.cr3); H(ev->variant.async_paging.non_root); if (ip) H(ev->variant.async_paging.ip); break;
	case ptev_overflow: if (ip) H(ev->variant.overflow.ip); break;
	case ptev_exec_mode: H(ev->variant.exec_mode.mode); if (ip) H(ev->variant.exec_mode.ip); break;
	case ptev_tsx: H(ev->variant.tsx.speculative); H(ev->variant.tsx.aborted); if (ip) H(ev->variant.tsx.ip); break;
	case ptev_vmcs: H(ev->variant.vmcs.base); break;
	case ptev_async_vmcs: H(ev->variant.async_vmcs.base); if (ip) H(ev->variant.async_vmcs.ip); break;
	case ptev_exstop: if (ip) H(ev->variant.exstop.ip); break;
	case ptev_mwait: H(ev->variant.mwait.hints); H(ev->variant.mwait.ext); if (ip) H(ev->variant.mwait.ip); break;
	case ptev_pwre: H(ev->variant.pwre.state); H(ev->variant.pwre.sub_state); H(ev->variant.pwre.hw); break;
	case ptev_pwrx: H(ev->variant.pwrx.last); H(ev->variant.pwrx.deepest); H(ev->variant.pwrx.interrupt); H(ev->variant.pwrx.store); H(ev->variant.pwrx.autonomous); break;
	case ptev_ptwrite: H(ev->variant.ptwrite.size); H(ev->variant.ptwrite.payload); if (ip) H(ev->variant.ptwrite.ip); break;
	case ptev_tick: if (ip) H(ev->variant.tick.ip); break;
	case ptev_cbr: H(ev->variant.cbr.ratio); break;
	case ptev_mnt: H(ev->variant.mnt.payload); break;
	case ptev_tip: if (ip) H(ev->variant.tip.ip); break;
	case ptev_tnt: H(ev->variant.tnt.size); H(ev->variant.tnt.bits); break;
	case ptev_iflags: H(ev->variant.iflags.iflag); if (ip) H(ev->variant.iflags.ip); break;
	case ptev_interrupt: H(ev->variant.interrupt.vector); H(ev->variant.interrupt.has_cr2); if (ev->variant.interrupt.has_cr2) H(ev->variant.interrupt.cr2); if (ip) H(ev->variant.interrupt.ip); break;
	case ptev_iret: if (ip) H(ev->variant.iret.ip); break;
	case ptev_smi: if (ip) H(ev->variant.smi.ip); break;
	case ptev_rsm: if (ip) H(ev->variant.rsm.ip); break;
	case ptev_sipi: H(ev->variant.sipi.vector); break;
	case ptev_init: if (ip) H(ev->variant.init.ip); break;
	case ptev_vmentry: if (ip) H(ev->variant.vmentry.ip); break;
	case ptev_vmexit: H(ev->variant.vmexit.has_vector); H(ev->variant.vmexit.has_vmxr); H(ev->variant.vmexit.has_vmxq); if (ev->variant.vmexit.has_vector) H(ev->variant.vmexit.vector); if (ev->variant.vmexit.has_vmxr) H(ev->variant.vmexit.vmxr); if (ev->variant.vmexit.has_vmxq) H(ev->variant.vmexit.vmxq); if (ip) H(ev->variant.vmexit.ip); break;
	case ptev_shutdown: if (ip) H(ev->variant.shutdown.ip); break;
	case ptev_uintr: H(ev->variant.uintr.vector); if (ip) H(ev->variant.uintr.ip); break;
	case ptev_uiret: if (ip) H(ev->variant.uiret.ip); break;
	case ptev_trig: H(ev->variant.trig.trbv); H(ev->variant.trig.mult); if (ip) { H(ev->variant.trig.icnt); H(ev->variant.trig.ip); } break;
	default: break;
	}
}
static void hash_packet(struct drv *d, const struct pt_packet *p)
{
	H(p->type); H(p->size);
	switch (p->type) {
	case ppt_tip: case ppt_fup: case ppt_tip_pge: case ppt_tip_pgd: H(p->payload.ip.ipc); if (p->payload.ip.ipc) H(p->payload.ip.ip); break;
	case ppt_tnt_8: case ppt_tnt_64: H(p->payload.tnt.bit_size); H(p->payload.tnt.payload); break;
	case ppt_mode: H(p->payload.mode.leaf); if (p->payload.mode.leaf == pt_mol_exec) { H(p->payload.mode.bits.exec.csl); H(p->payload.mode.bits.exec.csd); H(p->payload.mode.bits.exec.iflag); } else { H(p->payload.mode.bits.tsx.intx); H(p->payload.mode.bits.tsx.abrt); } break;
	case ppt_pip: H(p->payload.pip.cr3); H(p->payload.pip.nr); break;
	case ppt_tsc: H(p->payload.tsc.tsc); break; case ppt_cbr: H(p->payload.cbr.ratio); break; case ppt_tma: H(p->payload.tma.ctc); H(p->payload.tma.fc); break;
	case ppt_mtc: H(p->payload.mtc.ctc); break; case ppt_cyc: H(p->payload.cyc.value); break; case ppt_vmcs: H(p->payload.vmcs.base); break; case ppt_mnt: H(p->payload.mnt.payload); break;
	case ppt_exstop: H(p->payload.exstop.ip); break; case ppt_mwait: H(p->payload.mwait.hints); H(p->payload.mwait.ext); break;
	case ppt_pwre: H(p->payload.pwre.state); H(p->payload.pwre.sub_state); H(p->payload.pwre.hw); break;
	case ppt_pwrx: H(p->payload.pwrx.last); H(p->payload.pwrx.deepest); H(p->payload.pwrx.interrupt); H(p->payload.pwrx.store); H(p->payload.pwrx.autonomous); break;
	case ppt_ptw: H(p->payload.ptw.payload); H(p->payload.ptw.plc); H(p->payload.ptw.ip); break;
	case ppt_cfe: H(p->payload.cfe.type); H(p->payload.cfe.vector); H(p->payload.cfe.ip); break; case ppt_evd: H(p->payload.evd.type); H(p->payload.evd.payload); break;
	case ppt_trig: H(p->payload.trig.trbv); if (p->payload.trig.icntv) H(p->payload.trig.icnt); H(p->payload.trig.ip); H(p->payload.trig.icntv); H(p->payload.trig.mult); break;
	default: break;
	}
}
static void check_event(struct drv *d, const struct pt_event *ev, const char *fn)
{
	hash_event(d, ev);
	d->st->events++; d->st->items++;
	if ((unsigned)ev->type > ptev_trig) FAIL("%s: unknown event type %u", fn, (unsigned)ev->type);
	d->st->hash = mix(d->st->hash, (uint64_t)ev->type << 2 | (uint64_t)ev->ip_suppressed << 1 | ev->status_update);
	d->st->hash = mix(d->st->hash, ev->tsc); d->st->hash = mix(d->st->hash, ev->has_tsc); d->st->hash = mix(d->st->hash, ev->lost_cyc); d->st->hash = mix(d->st->hash, ev->lost_mtc);
}

static int one_event(struct drv *d)
{
	struct pt_event ev; int e; memset(&ev, 0, sizeof(ev));
	/* The user is supposed to ask for events when there are any... */
	if (d->layer >= drv_insn && !(d->status >= 0 && (d->status & pts_event_pending))) d->misuse = 1;
	switch (d->layer) {
	case drv_evt: e = ret(d, pt_evt_next(d->d.evt, &ev, sizeof(ev)), "pt_evt_next"); break;
	case drv_qry: e = status(d, pt_qry_event(d->d.qry, &ev, sizeof(ev)), "pt_qry_event"); break;
	case drv_insn: e = status(d, pt_insn_event(d->d.insn, &ev, sizeof(ev)), "pt_insn_event"); break;
	case drv_blk: e = status(d, pt_blk_event(d->d.blk, &ev, sizeof(ev)), "pt_blk_event"); break;
	default: return -pte_bad_query;
	}
	if (e >= 0) check_event(d, &ev, "event");
	if (d->layer != drv_evt) d->status = e;
	return e;
}
static int one_next(struct drv *d)
{
	int e;
	/* ... and to take them before proceeding. */
	if (d->layer >= drv_insn && d->status >= 0 && (d->status & pts_event_pending)) d->misuse = 1;
	switch (d->layer) {
	case drv_pkt: {
		struct pt_packet p; memset(&p, 0, sizeof(p)); e = ret(d, pt_pkt_next(d->d.pkt, &p, sizeof(p)), "pt_pkt_next");
		if (e >= 0) { if (e != p.size || !e) FAIL("pt_pkt_next: %d, packet size %u", e, p.size); hash_packet(d, &p); d->st->items++; }
		return e; }
	case drv_evt: return one_event(d);
	case drv_insn: {
		struct pt_insn in; memset(&in, 0, sizeof(in)); e = status(d, pt_insn_next(d->d.insn, &in, sizeof(in)), "pt_insn_next");
		if (e >= 0) {
			uint8_t raw[pt_max_insn_size]; int isid; (void)isid;
			if (!in.size || in.size > pt_max_insn_size) FAIL("pt_insn_next: instruction of size %u", in.size);
			if ((unsigned)in.iclass > ptic_indirect) FAIL("pt_insn_next: class %u", (unsigned)in.iclass);
			if (in.iclass == ptic_unknown) FAIL("pt_insn_next: unknown class");
			if ((unsigned)in.mode > ptem_64bit) FAIL("pt_insn_next: mode %u", (unsigned)in.mode);
			memcpy(raw, in.raw, in.size); d->st->hash = mix(d->st->hash, in.ip); d->st->hash = mix(d->st->hash, raw[in.size - 1]); d->st->hash = mix(d->st->hash, (uint64_t)in.iclass << 8 | (uint64_t)in.mode << 2 | in.speculative << 1 | in.truncated); d->st->items++;
		}
		d->status = e; return e; }
	case drv_blk: {
		struct pt_block b; memset(&b, 0, sizeof(b)); e = status(d, pt_blk_next(d->d.blk, &b, sizeof(b)), "pt_blk_next");
		if (e >= 0 && !b.ninsn && !(e & pts_event_pending)) FAIL("pt_blk_next: empty block");
		d->ninsn += b.ninsn;
		if (b.ninsn) {
			if ((unsigned)b.mode > ptem_64bit) FAIL("pt_blk_next: mode %u", (unsigned)b.mode);
			if (b.truncated && (!b.size || b.size > pt_max_insn_size)) FAIL("pt_blk_next: truncated instruction of size %u", b.size);
			d->st->hash = mix(d->st->hash, b.ip); d->st->hash = mix(d->st->hash, b.end_ip); d->st->hash = mix(d->st->hash, b.ninsn); d->st->hash = mix(d->st->hash, (uint64_t)b.mode << 8 | b.speculative << 1 | b.truncated); d->st->items++;
		}
		d->status = e; return e; }
	default: return -pte_bad_query;
	}
}
static int one_cond(struct drv *d) { int taken = -1, e; if (d->layer != drv_qry) return -pte_bad_query; e = status(d, pt_qry_cond_branch(d->d.qry, &taken), "pt_qry_cond_branch"); if (e >= 0) { if (taken != 0 && taken != 1) FAIL("pt_qry_cond_branch: taken = %d", taken); d->st->hash = mix(d->st->hash, (uint64_t)taken); d->st->items++; d->status = e; } return e; }
static int one_ind(struct drv *d) { uint64_t ip = 0; int e; if (d->layer != drv_qry) return -pte_bad_query; e = status(d, pt_qry_indirect_branch(d->d.qry, &ip), "pt_qry_indirect_branch"); if (e >= 0) { if (!(e & pts_ip_suppressed)) d->st->hash = mix(d->st->hash, ip); d->st->items++; d->status = e; } return e; }

static void info(struct drv *d)
{
	uint64_t o = 0, t = 0; uint32_t a = 0, b = 0, c = 0; struct pt_asid as; int e; pt_asid_init(&as);
	e = ret(d, offset(d, &o), "get_offset"); if (e >= 0) { d->st->hash = mix(d->st->hash, o); if (o > d->len) FAIL("get_offset: %llu of %zu", (unsigned long long)o, d->len); }
	else if (e != -pte_nosync) FAIL("get_offset: %d", e);
	e = ret(d, syncoffset(d, &o), "get_sync_offset"); if (e >= 0) { d->st->hash = mix(d->st->hash, o); if (o > d->len) FAIL("get_sync_offset: %llu of %zu", (unsigned long long)o, d->len); }
	else if (e != -pte_nosync) FAIL("get_sync_offset: %d", e);
	switch (d->layer) {
	case drv_qry: e = ret(d, pt_qry_time(d->d.qry, &t, &a, &b), "pt_qry_time"); if (ret(d, pt_qry_core_bus_ratio(d->d.qry, &c), "pt_qry_core_bus_ratio") < 0) c = 0; break;
	case drv_insn: e = ret(d, pt_insn_time(d->d.insn, &t, &a, &b), "pt_insn_time"); if (ret(d, pt_insn_core_bus_ratio(d->d.insn, &c), "pt_insn_core_bus_ratio") < 0) c = 0; ret(d, pt_insn_asid(d->d.insn, &as, sizeof(as)), "pt_insn_asid"); break;
	case drv_blk: e = ret(d, pt_blk_time(d->d.blk, &t, &a, &b), "pt_blk_time"); if (ret(d, pt_blk_core_bus_ratio(d->d.blk, &c), "pt_blk_core_bus_ratio") < 0) c = 0; ret(d, pt_blk_asid(d->d.blk, &as, sizeof(as)), "pt_blk_asid"); break;
	default: break;
	}
	d->st->hash = mix(d->st->hash, t); d->st->hash = mix(d->st->hash, a); d->st->hash = mix(d->st->hash, b); d->st->hash = mix(d->st->hash, c); d->st->hash = mix(d->st->hash, as.cr3); d->st->hash = mix(d->st->hash, as.vmcs);
}
/* A user built against an older version of the library. */
static void shortcall(struct drv *d, unsigned n)
{
	uint8_t *m; int e = 0;
	static const size_t full[drv_layers] = {sizeof(struct pt_packet), sizeof(struct pt_event), sizeof(struct pt_event), sizeof(struct pt_insn), sizeof(struct pt_block)};
	if (n >= full[d->layer]) return;
	m = malloc(n ? n : 1);
	if (!m) return;
	memset(m, 0, n ? n : 1);
	if (d->layer >= drv_insn && (n & 1) != (d->status >= 0 && (d->status & pts_event_pending))) d->misuse = 1;
	switch (d->layer) {
	case drv_pkt: e = pt_pkt_next(d->d.pkt, (struct pt_packet *)m, n); break;
	case drv_evt: e = pt_evt_next(d->d.evt, (struct pt_event *)m, n); break;
	case drv_qry: e = pt_qry_event(d->d.qry, (struct pt_event *)m, n); break;
	case drv_insn: e = n & 1 ? pt_insn_event(d->d.insn, (struct pt_event *)m, n) : pt_insn_next(d->d.insn, (struct pt_insn *)m, n); break;
	default: e = n & 1 ? pt_blk_event(d->d.blk, (struct pt_event *)m, n) : pt_blk_next(d->d.blk, (struct pt_block *)m, n); break;
	}
	if (e != -pte_invalid) e = ret(d, e, "short call");
	if (d->layer >= drv_qry && e != -pte_invalid) d->status = e;
	free(m);
}

/* The documented decode loop: at most max steps.  Returns non-zero at the end of the trace. */
static int loop(struct drv *d, uint64_t max)
{
	uint64_t n, events = 0, elimit = 16 * (uint64_t)d->len + 64; uint64_t o = 0; 
	if (!d->synced && do_sync(d, dop_fwd, 0) < 0) return 1;
	for (n = 0; n < max && !msg[0]; ++n) {
		int e;
		switch (d->layer) {
		case drv_pkt: case drv_evt: e = one_next(d); if (e >= 0 && ++events > elimit) { FAIL("no end after %llu items", (unsigned long long)events); return 1; } break;
		case drv_qry:
			/* Without code: take what there is. */
			if (d->status >= 0 && (d->status & pts_event_pending)) { e = one_event(d); }
			else { e = one_cond(d); if (e < 0) e = one_ind(d); if (e < 0 && e != -pte_eos) e = one_event(d); }
			if (e >= 0 && ++events > 64 * elimit) { FAIL("no end after %llu items", (unsigned long long)events); return 1; } break;
		default:
			if (d->status >= 0 && (d->status & pts_event_pending)) { e = one_event(d); if (e >= 0 && ++events > elimit) { FAIL("no end after %llu events", (unsigned long long)events); return 1; } }
			else { e = one_next(d); }
			break;
		}
		if (e < 0) {
			if (e == -pte_eos) return 1;
			/* Resume at the next synchronization point. */
			if (do_sync(d, dop_fwd, 0) < 0) return 1;
			continue;
		}
		e = offset(d, &o);
		if (e < 0 || o > d->len) { FAIL("offset: %d %llu", e, (unsigned long long)o); return 1; }
		if (o < d->last) { FAIL("offset moved from %llu to %llu", (unsigned long long)d->last, (unsigned long long)o); return 1; }
		if (o != d->last) { d->last = o; d->still = 0; }
		/* Code may loop without needing any trace. */
		else if (d->layer >= drv_insn && (++d->still > 1000 || d->ninsn > 300000)) { if (d->ninsn > 300000) return 1; if (do_sync(d, dop_fwd, 0) < 0) return 1; d->still = 0; }
	}
	return 0;
}

static const uint8_t *hdr(struct rd *r, struct drv *d)
{
	unsigned i, n; uint64_t f;
	d->layer = (int)(get(r, 1) % drv_layers);
	f = get(r, 4);
	d->cfg.errata.bdm70 = f & 1; d->cfg.errata.bdm64 = f >> 1 & 1; d->cfg.errata.skd007 = f >> 2 & 1; d->cfg.errata.skd022 = f >> 3 & 1; d->cfg.errata.skd010 = f >> 4 & 1; d->cfg.errata.skl014 = f >> 5 & 1;
	d->cfg.errata.apl12 = f >> 6 & 1; d->cfg.errata.apl11 = f >> 7 & 1; d->cfg.errata.skl168 = f >> 8 & 1; d->cfg.errata.skz84 = f >> 9 & 1;
	switch (d->layer) {
	case drv_evt: d->cfg.flags.variant.event.keep_tcal_on_ovf = f >> 16 & 1; d->cfg.flags.variant.event.enable_iflags_events = f >> 17 & 1; break;
	case drv_qry: d->cfg.flags.variant.query.keep_tcal_on_ovf = f >> 16 & 1; d->cfg.flags.variant.query.enable_iflags_events = f >> 17 & 1; break;
	case drv_insn: d->cfg.flags.variant.insn.keep_tcal_on_ovf = f >> 16 & 1; d->cfg.flags.variant.insn.enable_iflags_events = f >> 17 & 1; d->cfg.flags.variant.insn.enable_tick_events = f >> 18 & 1; break;
	case drv_blk: d->cfg.flags.variant.block.keep_tcal_on_ovf = f >> 16 & 1; d->cfg.flags.variant.block.enable_iflags_events = f >> 17 & 1; d->cfg.flags.variant.block.enable_tick_events = f >> 18 & 1; d->cfg.flags.variant.block.end_on_call = f >> 19 & 1; d->cfg.flags.variant.block.end_on_jump = f >> 20 & 1; break;
	default: break;
	}
	d->own = f >> 21 & 1;
	d->cfg.mtc_freq = (uint8_t)(get(r, 1) & 15); d->cfg.cpuid_0x15_eax = (uint32_t)get(r, 2); d->cfg.cpuid_0x15_ebx = (uint32_t)get(r, 2); d->cfg.nom_freq = (uint8_t)get(r, 1);
	n = (unsigned)(get(r, 1) % 3);
	for (i = 0; i < n; ++i) {
		unsigned c = (unsigned)(get(r, 1) % 3); uint64_t a = get(r, 8), b = get(r, 8);
		if (!i) { d->cfg.addr_filter.config.ctl.addr0_cfg = c; d->cfg.addr_filter.addr0_a = a; d->cfg.addr_filter.addr0_b = b; } else { d->cfg.addr_filter.config.ctl.addr3_cfg = c; d->cfg.addr_filter.addr3_a = a; d->cfg.addr_filter.addr3_b = b; }
	}
	d->nreg = (unsigned)(get(r, 1) % 5);
	for (i = 0; i < d->nreg; ++i) {
		struct region *g = &d->reg[i]; g->kind = (unsigned)get(r, 1); g->base = get(r, 8); if (g->kind & 4) g->cr3 = get(r, 8); if (g->kind & 8) g->vmcs = get(r, 8);
		g->len = (unsigned)get(r, 2); if (g->len > (size_t)(r->e - r->p)) g->len = (unsigned)(r->e - r->p);
		g->bytes = r->p; r->p += g->len;
	}
	return r->p;
}

static int alloc(struct drv *d)
{
	switch (d->layer) {
	case drv_pkt: d->d.pkt = pt_pkt_alloc_decoder(&d->cfg); break; case drv_evt: d->d.evt = pt_evt_alloc_decoder(&d->cfg); break; case drv_qry: d->d.qry = pt_qry_alloc_decoder(&d->cfg); break;
	case drv_insn: d->d.insn = pt_insn_alloc_decoder(&d->cfg); break; default: d->d.blk = pt_blk_alloc_decoder(&d->cfg); break;
	}
	return d->d.any ? 0 : FAIL("cannot allocate decoder");
}
static void dealloc(struct drv *d)
{
	if (!d->d.any) return;
	switch (d->layer) {
	case drv_pkt: pt_pkt_free_decoder(d->d.pkt); break; case drv_evt: pt_evt_free_decoder(d->d.evt); break; case drv_qry: pt_qry_free_decoder(d->d.qry); break;
	case drv_insn: pt_insn_free_decoder(d->d.insn); break; default: pt_blk_free_decoder(d->d.blk); break;
	}
}

const char *drv_run(const uint8_t *data, size_t size, struct drv_stat *stat)
{
	struct drv d; struct rd r = {data, data + size}; struct drv_stat dummy; unsigned i, nops; size_t opsz, total = 0; const uint8_t *ops; uint64_t off = 0; static const uint8_t zero[16];
	memset(&d, 0, sizeof(d)); msg[0] = 0; d.st = stat ? stat : &dummy; memset(d.st, 0, sizeof(*d.st));
	pt_config_init(&d.cfg);
	hdr(&r, &d);
	nops = (unsigned)get(&r, 1); opsz = (size_t)nops * 3; if (opsz > (size_t)(r.e - r.p)) { opsz = (size_t)(r.e - r.p) / 3 * 3; nops = (unsigned)(opsz / 3); }
	ops = r.p; r.p += opsz;
	d.len = (size_t)(r.e - r.p); if (!d.len) { r.p = zero; d.len = 1; }
	d.trace = malloc(d.len); if (!d.trace) return NULL;
	memcpy(d.trace, r.p, d.len); d.cfg.begin = d.trace; d.cfg.end = d.trace + d.len;
	if (d.layer >= drv_insn) {
		char name[64]; int fd = memfd(); struct pt_image *own;
		snprintf(name, sizeof(name), "/proc/%d/fd/%d", (int)getpid(), fd);
		for (i = 0; i < d.nreg; ++i) { struct region *g = &d.reg[i]; g->off = off; if (pwrite(fd, g->bytes, g->len, (off_t)off) != (ssize_t)g->len) FAIL("pwrite"); off += g->len; }
		if (ftruncate(fd, (off_t)off)) FAIL("ftruncate");
		d.isc = pt_iscache_alloc("drv");
		if (!d.isc) { FAIL("pt_iscache_alloc"); goto out; }
		for (i = 0; i < d.nreg; ++i) { struct region *g = &d.reg[i]; if ((g->kind & 3) == 1 && g->len && g->base + g->len >= g->base) { g->isid = pt_iscache_add_file(d.isc, name, g->off, g->len, g->base); if (g->isid <= 0) FAIL("pt_iscache_add_file: %d", g->isid); } }
		own = d.img[0] = pt_image_alloc("drv"); d.img[1] = pt_image_alloc(NULL); if (!d.img[0] || !d.img[1]) { FAIL("pt_image_alloc"); goto out; }
		if (alloc(&d) < 0) goto out;
		if (!d.own) own = d.layer == drv_insn ? pt_insn_get_image(d.d.insn) : pt_blk_get_image(d.d.blk);
		if (fill(&d, own) < 0) goto out;
		if (d.own) { if (d.layer == drv_insn) pt_insn_set_image(d.d.insn, own); else pt_blk_set_image(d.d.blk, own); }
	} else if (alloc(&d) < 0) goto out;

	for (i = 0; i < nops && total < 40000 && !msg[0]; ++i) {
		const uint8_t *o = ops + 3 * i; unsigned arg = o[1] | (unsigned)o[2] << 8;
		switch (o[0] % dop_max) {
		case dop_loop: loop(&d, arg % 1024); total += arg % 1024; break;
		case dop_fwd: case dop_bwd: do_sync(&d, o[0] % dop_max, 0); break;
		case dop_set: do_sync(&d, dop_set, arg); break;
		case dop_next: one_next(&d); break;
		case dop_event: one_event(&d); break;
		case dop_info: info(&d); break;
		case dop_short: shortcall(&d, arg % 80); break;
		case dop_cond: one_cond(&d); break;
		case dop_ind: one_ind(&d); break;
		default: if (d.layer >= drv_insn) { struct pt_image *g = arg & 1 ? NULL : d.img[(arg >> 1) & 1]; int e = d.layer == drv_insn ? pt_insn_set_image(d.d.insn, g) : pt_blk_set_image(d.d.blk, g); if (e) FAIL("set_image: %d", e); } break;
		}
	}
	/* Finally, decode it all. */
	if (!msg[0]) { if (do_sync(&d, dop_fwd, 0) < 0) do_sync(&d, dop_set, 0); loop(&d, 20000); }
	if (!msg[0]) info(&d);
	if (memcmp(d.trace, r.p, d.len)) FAIL("the trace was modified");
out:
	dealloc(&d); pt_image_free(d.img[0]); pt_image_free(d.img[1]); pt_iscache_free(d.isc); free(d.trace);
	return msg[0] ? msg : NULL;
}
