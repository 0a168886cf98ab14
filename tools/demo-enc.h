/* Little helpers for the demonstrations. */
#include <intel-pt.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stddef.h>
static uint8_t buf[4096];
static struct pt_config conf;
static struct pt_encoder *enc;
static void start(void) { pt_config_init(&conf); conf.begin = buf; conf.end = buf + sizeof(buf); enc = pt_alloc_encoder(&conf); }
static void put(struct pt_packet p) { int e = pt_enc_next(enc, &p); if (e < 0) { printf("encoder: %d\n", e); exit(3); } }
static void simple(int t) { struct pt_packet p = { .type = t }; put(p); }
static void ip(int t, uint64_t a) { struct pt_packet p = { .type = t }; p.payload.ip.ipc = pt_ipc_sext_48; p.payload.ip.ip = a & 0xffffffffffffull; put(p); }
static void noip(int t) { struct pt_packet p = { .type = t }; p.payload.ip.ipc = pt_ipc_suppressed; put(p); }
static void tsc(uint64_t v) { struct pt_packet p = { .type = ppt_tsc }; p.payload.tsc.tsc = v; put(p); }
static void mode(int csl, int csd) { struct pt_packet p = { .type = ppt_mode }; p.payload.mode.leaf = pt_mol_exec; p.payload.mode.bits.exec.csl = csl; p.payload.mode.bits.exec.csd = csd; put(p); }
static void tnt(uint64_t bits, int n) { struct pt_packet p = { .type = n <= 6 ? ppt_tnt_8 : ppt_tnt_64 }; p.payload.tnt.bit_size = n; p.payload.tnt.payload = bits; put(p); }
static void finish(void) { uint64_t o; pt_enc_get_offset(enc, &o); pt_free_encoder(enc); conf.end = buf + o; }
#define EXPECT(c) do { if (!(c)) { printf("FAILED: %s (line %d)\n", #c, __LINE__); exit(1); } } while (0)
