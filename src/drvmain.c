/* Runs driver cases read from stdin: u32 size, bytes; replies with a record.
 * Built with MemorySanitizer: writing the record shows if it depends on
 * uninitialized memory.
 */
#include "drv.h"
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/time.h>
static int rd(void *p, size_t n) { char *c = p; while (n) { ssize_t r = read(0, c, n); if (r <= 0) return -1; c += r; n -= (size_t)r; } return 0; }
static int wr(const void *p, size_t n) { const char *c = p; while (n) { ssize_t r = write(1, c, n); if (r <= 0) return -1; c += r; n -= (size_t)r; } return 0; }
int main(void)
{
	for (;;) {
		uint32_t n; uint8_t *b; struct drv_stat st; const char *m; struct itimerval it; char out[256];
		if (rd(&n, 4)) return 0;
		b = malloc(n ? n : 1); if (!b || rd(b, n)) return 0;
		memset(&it, 0, sizeof(it)); it.it_value.tv_sec = 60; setitimer(ITIMER_PROF, &it, NULL);
		m = drv_run(b, n, &st);
		free(b);
		memset(out, 0, sizeof(out)); if (m) strncpy(out, m, sizeof(out) - 1);
		if (wr(&st, sizeof(st)) || wr(out, sizeof(out))) return 0;
	}
}
