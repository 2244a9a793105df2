/* Native driver of a harness: replays a recorded counterexample, or searches failing inputs at random. */
#include "vk.h"
#include <unistd.h>
void harness(void);
void vk_native_reset(void) __attribute__((weak));
static jmp_buf vk_jmp;
static long double vk_rec[4096]; static int vk_nrec, vk_pos;
static int vk_replay; static uint64_t vk_rng; static int vk_failed; static char vk_tag[512];
static uint64_t rnd(void) { vk_rng ^= vk_rng << 13; vk_rng ^= vk_rng >> 7; vk_rng ^= vk_rng << 17; return vk_rng * 0x2545F4914F6CDD1DULL; }
static long double take(long double dflt)
{
    if (vk_replay) { if (vk_pos < vk_nrec) return vk_rec[vk_pos++]; return 0; }
    if (vk_nrec < 4096) vk_rec[vk_nrec++] = dflt;
    return dflt;
}
static const double pool[] = {0., 1., -1., 2., 3., 0.5, -0.5, 1.5, -2., 5., 7., 8., 255., 1e-5, 2e-5, -1e-5, 1e-300, 1e-299, 1e-301, -1e-301, 1e-310,
    65535., 65536., 65537., 131072., 8388607., 8388608., 8388607.5, 2147483647., 2147483648., -2147483648., -2147483649., 4294967296., 1e10, -1e10, 1e300, -1e300,
    INFINITY, -INFINITY, NAN, -0., 3.14159265, 100., 0.9999, 0.99995, -0.00005, 1048575., 1048576., 1048577., 12., 10., 6., -7., 0.1};
F nd_F(void)
{
    double v; uint64_t r = rnd();
    switch (r % 8) {
        case 0: case 1: case 2: v = pool[(r >> 8) % (sizeof(pool) / sizeof(*pool))]; break;
        case 3: case 4: v = (double) ((int) ((r >> 8) % 21) - 10); break;
        case 5: { union { uint64_t u; double d; } c; c.u = rnd(); v = c.d; break; }
        case 6: v = ((double) (int32_t) (r >> 16)) / 1000.; break;
        default: v = ((double) (int32_t) (r >> 16)); break;
    }
    return (F) take(v);
}
int nd_int(void) { uint64_t r = rnd(); int v = (r % 4) == 0 ? (int) (r >> 20) : (int) ((r >> 20) % 9) - 2; return (int) take(v); }
unsigned nd_uint(void) { uint64_t r = rnd(); return (unsigned) take((unsigned) (r >> 20)); }
int nd_range(int lo, int hi)
{
    uint64_t r = rnd(); int v;
    uint64_t span = (uint64_t) ((int64_t) hi - lo) + 1;
    v = (int) (lo + (int64_t) ((r >> 8) % span));
    if ((r & 7) == 0) v = lo; else if ((r & 7) == 1) v = hi;
    v = (int) take(v);
    VK_ASSUME(v >= lo && v <= hi);
    return v;
}
static long vk_case;
/* enumerates lo, lo + 1, ... hi over the first cases of a search, then always hi */
int nd_pick(int lo, int hi) { long v = lo + vk_case; v = (int) take(v < hi ? v : hi); VK_ASSUME(v >= lo && v <= hi); return (int) v; }
bool nd_bool(void) { return take((long double) ((rnd() >> 9) & 1)) != 0; }
void vk_skip(void) { longjmp(vk_jmp, 1); }
void vk_fail(const char* what)
{
    if (!vk_failed) { vk_failed = 1; snprintf(vk_tag, sizeof vk_tag, "%s", what); }
    printf("FAIL %s\n", what); fflush(stdout);
}
static void show(void)
{
    printf("INPUTS");
    for (int i = 0; i < vk_nrec; i++) printf(" %.20Lg", vk_rec[i]);
    printf("\n"); fflush(stdout);
}
static void on_death(void);
void __asan_set_death_callback(void (*)(void)) __attribute__((weak));
void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
static void on_death(void) { printf("FAIL sanitizer\n"); show(); }
int main(int argc, char** argv)
{
    if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(on_death);
    vk_rng = 88172645463325252ULL;
    if (argc > 2 && !strcmp(argv[1], "replay"))
    {
        FILE* f = fopen(argv[2], "r"); char buf[128];
        while (f && fscanf(f, "%127s", buf) == 1 && vk_nrec < 4096) vk_rec[vk_nrec++] = strtold(buf, NULL);
        if (f) fclose(f);
        vk_replay = 1;
        if (!setjmp(vk_jmp)) harness(); else printf("SKIPPED\n");
        if (vk_failed) { show(); return 1; }
        printf("OK\n");
        return 0;
    }
    long n = argc > 2 ? atol(argv[2]) : 1000; uint64_t seed = argc > 3 ? strtoull(argv[3], 0, 10) : 1;
    long done = 0, skipped = 0;
    vk_rng += seed * 0x9E3779B97F4A7C15ULL; for (int i = 0; i < 10; i++) rnd();
    for (long i = 0; i < n; i++)
    {
        vk_nrec = 0; vk_case = i;
        if (vk_native_reset) vk_native_reset();
        if (!setjmp(vk_jmp)) { harness(); done++; } else skipped++;
        if (vk_failed) { show(); return 1; }
    }
    printf("OK %ld cases, %ld skipped\n", done, skipped);
    return 0;
}
