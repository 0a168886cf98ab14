/* libFuzzer target. */
#include "drv.h"
#include <stdio.h>
#include <stdlib.h>
int LLVMFuzzerTestOneInput(const uint8_t *data, size_t size);
int LLVMFuzzerTestOneInput(const uint8_t *data, size_t size) { const char *m = drv_run(data, size, NULL); if (m) { fprintf(stderr, "FAILED: %s\n", m); abort(); } return 0; }
