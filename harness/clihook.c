/* Linked into the program under test: ledger report at exit and memory refusals, steered by the environment. */
#define VF_NO_REDEFINE
#include "vfhook.h"
#include <time.h>
static char path[512];
/* the program seeds its generators from the clock; a replay needs the same clock */
long vf_clock = 0;
time_t vf_time(time_t *t) { time_t x = vf_clock ? (time_t)vf_clock : time(0); if (t) *t = x; return x; }
__attribute__((constructor)) static void start(void) {
    const char *s = getenv("VF_LEDGER"); if (s && strlen(s) < sizeof path) strcpy(path, s);
    if ((s = getenv("VF_FAIL_AT"))) vf_fail_at = atol(s);
    if ((s = getenv("VF_FAIL_FOREVER"))) vf_fail_forever = atoi(s);
    if ((s = getenv("VF_CLOCK"))) vf_clock = atol(s);
#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
    vf_fill = -1; vf_max_request = (size_t)1 << 30; return; /* fresh memory stays marked as uninitialised */
#endif
#endif
    vf_fill = 0xA5; vf_max_request = (size_t)1 << 30;
}
__attribute__((destructor)) static void stop(void) {
    FILE *f; if (!path[0]) return; f = fopen(path, "w"); if (!f) return;
    fprintf(f, "blocks %ld bytes %lu files %ld requests %ld refused %ld\n", vf_live_blocks(), (unsigned long)vf_live_bytes(), vf_open_files(), vf_alloc_count, vf_failed); fclose(f);
}
