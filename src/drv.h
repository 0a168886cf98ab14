/* The decoder driver: interprets a byte string as configuration, memory image,
 * trace and a history of API calls, and checks what has to hold for any input.
 * Plain C, so that it can be used with AddressSanitizer and MemorySanitizer, in
 * a property-based test and as a libFuzzer target.
 */
#pragma once
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
enum { drv_pkt, drv_evt, drv_qry, drv_insn, drv_blk, drv_layers };
enum { dop_loop, dop_fwd, dop_bwd, dop_set, dop_next, dop_event, dop_info, dop_short, dop_cond, dop_ind, dop_image, dop_max };
struct drv_stat { uint64_t calls, items, events, errors, syncs; uint64_t errmask; uint64_t hash; };
/* Returns NULL if all went well, a description of what went wrong otherwise. */
const char *drv_run(const uint8_t *data, size_t size, struct drv_stat *stat);
#ifdef __cplusplus
}
#endif
