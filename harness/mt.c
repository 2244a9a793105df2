/* One step of the random generator (GEN), from an arbitrary state: words MT[624], index MTI (0 before the first draw).
 * MODE 0: first draw. MODE 1: a draw from the current block. MODE 2: a draw that generates the next block.
 * The specification is the recurrence of MT19937 (Matsumoto and Nishimura 1998). */
#include "vk.h"
#include SRC
#define U (unsigned)
unsigned OLD[624];
unsigned nondet_word(void);
static unsigned temper(unsigned y) { y ^= y >> 11; y ^= (y << 7) & U 0x9d2c5680; y ^= (y << 15) & U 0xefc60000; y ^= y >> 18; return y; }
static unsigned twist(unsigned hi, unsigned lo) { unsigned y = (hi & U 0x80000000) | (lo & U 0x7fffffff); return (y >> 1) ^ ((lo & 1) ? U 0x9908b0df : U 0); }
/* x[k+624] = x[k+397] ^ twist(x[k], x[k+1]) */
static unsigned next_word(const unsigned* o, const unsigned* n, int k)
{
    return (k + 397 < 624 ? o[k + 397] : n[k + 397 - 624]) ^ twist(o[k], k + 1 < 624 ? o[k + 1] : n[0]);
}
void harness(void)
{
#if MODE == 0
    __CPROVER_assert(MTI == 0, "C17: the generator starts uninitialised");
    OLD[0] = U 0x4141f00d;
    for (int i = 1; i < 624; i++) OLD[i] = U 1812433253 * (OLD[i - 1] ^ (OLD[i - 1] >> 30)) + U i;
#else
    for (int i = 0; i < 624; i++) { unsigned v = nondet_word(); OLD[i] = v; MT[i] = v; }
#endif
#if MODE == 1
    for (int at = LO; at < HI; at++)
    {
        MTI = at;
        unsigned r = (unsigned) GEN();
        __CPROVER_assert(MTI == at + 1, "C17: each draw consumes exactly one number");
        __CPROVER_assert(r == temper(OLD[at]), "C17: the number drawn is the tempered next word of the sequence");
    }
    for (int i = 0; i < 624; i++) __CPROVER_assert(MT[i] == OLD[i], "C17: a draw from the block does not change the block");
#else
    if (MODE == 2) MTI = 624;
    unsigned r = (unsigned) GEN();
    __CPROVER_assert(MTI == 1, "C17: each draw consumes exactly one number");
    __CPROVER_assert(r == temper(MT[0]), "C17: the number drawn is the tempered next word of the sequence");
    for (int k = 0; k < 624; k++) __CPROVER_assert(MT[k] == next_word(OLD, MT, k), "C17: the generator's words follow the recurrence");
#endif
    __CPROVER_assert(0, "VACUITY");
}
