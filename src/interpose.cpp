// rand/srand/time of the program under test, owned by the explorer
#include "run.hpp"
RandCtl g_rand;
extern "C" {
int rand(void) {
    g_rand.calls++;
    if (g_rand.count) g_rand.count[0] = g_rand.calls;
    uint64_t i = g_rand.calls - 1;
    if (!g_rand.dev.empty()) { auto d = g_rand.dev.find(i); if (d != g_rand.dev.end()) return d->second; }
    if (g_rand.pos < g_rand.script.size()) return g_rand.script[g_rand.pos++];
    if (g_rand.constant) return g_rand.cval;
    g_rand.state = g_rand.state * 6364136223846793005ull + 1442695040888963407ull;
    int v = (int)((g_rand.state >> 33) & 0x7fffffff);
    if (i < g_rand.lown && !g_rand.low.empty()) v = (v & ~0xff) | (g_rand.low[i % g_rand.low.size()] & 0xff);
    return v;
}
void srand(unsigned) {}
static long now_us() { static long t = 1700000000000000l; long r = t; t += g_rand.clk[g_rand.ticks++ % g_rand.clk.size()]; return r; }
int gettimeofday(struct timeval *tv, void *) throw() {
    if (g_rand.clk.empty()) { struct timespec t; clock_gettime(CLOCK_REALTIME, &t); tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000; return 0; }
    long u = now_us(); tv->tv_sec = u / 1000000; tv->tv_usec = u % 1000000; return 0;
}
clock_t clock(void) throw() {
    if (g_rand.clk.empty()) { struct timespec t; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t); return t.tv_sec * 1000000l + t.tv_nsec / 1000; }
    return now_us();
}
time_t time(time_t *t) throw() { if (t) *t = 1700000000; return 1700000000; }
}
