#include "sched.hpp"
#include <ucontext.h>
#include <sys/mman.h>
#include <unistd.h>
#include <malloc.h>
#include <time.h>
#include <cstdlib>
#include <cstring>
#include <cstdio>
#include <unordered_map>
#include <unordered_set>

namespace sched { Ctl ctl; }
using namespace sched;

static const int MAXT = 8;
static const size_t STACK = 16u << 20;
typedef uint32_t VC[MAXT];

struct Loop { bool init = false; long next = 0, end = 0, incr = 1, chunk = 1; int done = 0; };
struct Co { ucontext_t c; int st = 0; /* 0 not started, 1 ready, 2 blocked on a lock, 3 at a barrier, 4 finished */ void *lock = nullptr; VC vc; size_t ws = 0; char *stack = nullptr; int nest = 0; std::vector<Loop> *nloops = nullptr; // loops of the nested (serial) region
            // write not yet compared with what was there before
            bool pend = false; uintptr_t pa = 0; uint32_t pn = 0; uint64_t pv = 0, ppc = 0; };
struct Task { void (*fn)(void *); void *data; };
static Co co[MAXT];
static ucontext_t mainc;
static bool active = false;
static int nt = 1, cur = 0, nsingle = 0;
static int want_threads = 1;
static void (*tfn)(void *); static void *tdata;
static std::vector<Loop> *loops; static std::vector<int> *singles;
struct Lock { bool held = false; int owner = -1; VC vc; };
static std::map<void *, Lock> *locks;
static int atbarrier;
static std::unordered_map<uintptr_t, std::vector<uint32_t>> *avc; // clocks of atomics
struct Sh { uint32_t wclk = 0; uint8_t wt = 0, watom = 0; uint32_t rclk[MAXT]; uint64_t wpc = 0, rpc[MAXT]; uint8_t ratom = 0; uintptr_t aa = 0; Sh() { memset(rclk, 0, sizeof rclk); } };
static std::unordered_map<uintptr_t, Sh> *shadow;
static std::unordered_set<uint64_t> *found;
static const std::set<uint64_t> *pcset;
static uint64_t bloom[64];
static bool inhook = false; // containers below may allocate

static void die(int code) { _exit(code); }
static int enabledmask() { int m = 0; for (int i = 0; i < nt; ++i) if (co[i].st <= 1) m |= 1 << i; return m; }
static void flush_pending();
static void acquire(VC v);

static void go(int k) { // from the coroutine cur to the coroutine k
    if (k == cur) return;
    int me = cur; cur = k; ctl.sh->switches++;
    swapcontext(&co[me].c, &co[k].c);
}
static void point(uint32_t what, bool canstay) {
    int en = enabledmask();
    if (!en) { ctl.sh->deadlock = 1; die(78); }
    Shared *s = ctl.sh; uint32_t i = s->npoints;
    int c = cur;
    if (!canstay) { // lowest enabled thread after the running one
        c = -1; for (int k = 1; k <= nt; ++k) { int q = (cur + k) % nt; if (en & 1 << q) { c = q; break; } }
    }
    if (!(en & (en - 1)) && (canstay || true) && en == 1 << c) { if (c != cur) go(c); return; } // nothing to choose
    auto d = ctl.dev.find(i);
    if (d != ctl.dev.end() && (en & 1 << d->second)) c = d->second;
    if (i < MAXPOINTS) { s->pt[i] = {(uint8_t)cur, (uint8_t)en, (uint8_t)!canstay, (uint8_t)c, what}; s->npoints = i + 1; } else s->overflow = 1;
    if (c != cur) go(c);
}
static void finish_thread() {
    flush_pending();
    co[cur].st = 4;
    bool all = true; for (int i = 0; i < nt; ++i) if (co[i].st != 4) all = false;
    if (all) { setcontext(&mainc); }
    // threads waiting at a barrier cannot be released by a finished one: deadlock is found by point()
    point(1, false);
    die(79);
}
static void entry() { tfn(tdata); finish_thread(); }

static void acquire(VC v) { for (int i = 0; i < nt; ++i) if (v[i] > co[cur].vc[i]) co[cur].vc[i] = v[i]; }
static void release(VC v) { for (int i = 0; i < nt; ++i) v[i] = co[cur].vc[i]; co[cur].vc[cur]++; }

static void team(void (*fn)(void *), void *data, int n, std::vector<Loop> first) {
    if (n <= 0) n = want_threads;
    if (n > MAXT) n = MAXT;
    if (active) { // nested: serial
        int me = cur; int s = co[me].nest; size_t w = co[me].ws; std::vector<Loop> *o = co[me].nloops, nl = first;
        co[me].nest = s + 1; co[me].ws = first.empty() ? 0 : 1; co[me].nloops = &nl; fn(data); co[me].nest = s; co[me].ws = w; co[me].nloops = o; return;
    }
    if (n == 1 || !ctl.sh) {
        std::vector<Loop> *sl = loops; std::vector<int> *ss = singles; std::vector<Loop> nl = first; std::vector<int> ns;
        loops = &nl; singles = &ns; size_t w = co[0].ws; co[0].ws = first.empty() ? 0 : 1; int c = cur; cur = 0;
        fn(data); loops = sl; singles = ss; co[0].ws = w; cur = c; return;
    }
    static bool init = false;
    if (!init) { init = true; for (int i = 0; i < MAXT; ++i) co[i].stack = (char *)mmap(NULL, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); locks = new std::map<void *, Lock>; avc = new std::unordered_map<uintptr_t, std::vector<uint32_t>>; shadow = new std::unordered_map<uintptr_t, Sh>; found = new std::unordered_set<uint64_t>; pcset = &ctl.pcs; for (auto p : ctl.pcs) bloom[(p >> 2) & 63] |= 1ull << ((p >> 8) & 63); }
    std::vector<Loop> L = first; std::vector<int> S; loops = &L; singles = &S;
    locks->clear(); avc->clear(); shadow->clear(); atbarrier = 0;
    nt = n; tfn = fn; tdata = data; ctl.sh->regions++;
    for (int i = 0; i < n; ++i) { co[i].st = 1; co[i].ws = first.empty() ? 0 : 1; co[i].nest = 0; co[i].pend = false; for (int k = 0; k < MAXT; ++k) co[i].vc[k] = 0; co[i].vc[i] = 1; getcontext(&co[i].c); co[i].c.uc_stack.ss_sp = co[i].stack; co[i].c.uc_stack.ss_size = STACK; co[i].c.uc_link = NULL; makecontext(&co[i].c, entry, 0); }
    active = true; cur = 0;
    static volatile bool back; back = false;
    getcontext(&mainc);
    if (!back) {
        back = true;
        // which thread begins is a free choice
        Shared *s = ctl.sh; uint32_t i = s->npoints; int c = 0; auto d = ctl.dev.find(i); if (d != ctl.dev.end() && d->second < n) c = d->second;
        if (i < MAXPOINTS) { s->pt[i] = {0, (uint8_t)((1 << n) - 1), 1, (uint8_t)c, 2}; s->npoints = i + 1; } else s->overflow = 1;
        cur = c; setcontext(&co[c].c);
    }
    active = false; loops = nullptr; singles = nullptr; cur = 0; nt = 1;
}
static void barrier() {
    if (!active || co[cur].nest || nt == 1) return;
    flush_pending();
    if (++atbarrier == nt) {
        VC v; memset(v, 0, sizeof v);
        for (int i = 0; i < nt; ++i) for (int k = 0; k < nt; ++k) if (co[i].vc[k] > v[k]) v[k] = co[i].vc[k];
        for (int i = 0; i < nt; ++i) { memcpy(co[i].vc, v, sizeof(VC)); co[i].vc[i]++; co[i].st = 1; }
        atbarrier = 0; point(3, true); return;
    }
    co[cur].st = 3; point(3, false);
}
static void lock(void *p) {
    if (!active) return;
    flush_pending(); point(4, true);
    for (;;) {
        Lock &l = (*locks)[p];
        if (!l.held) { if (l.owner < 0) memset(l.vc, 0, sizeof(VC)); l.held = true; l.owner = cur; acquire(l.vc); return; }
        co[cur].st = 2; co[cur].lock = p; point(5, false);
    }
}
static void unlock(void *p) {
    if (!active) return;
    flush_pending();
    Lock &l = (*locks)[p]; release(l.vc); l.held = false; l.owner = cur;
    for (int i = 0; i < nt; ++i) if (co[i].st == 2 && co[i].lock == p) co[i].st = 1;
    point(6, true);
}

// ---- conflicting accesses
static void conflict(uint64_t a, uint64_t b) {
    for (uint64_t p : {a, b}) if (p && found->insert(p).second && !ctl.pcs.count(p) && ctl.sh->npcs < MAXPCS) ctl.sh->pcs[ctl.sh->npcs++] = p;
}
static void note(uintptr_t a, uint32_t n, bool write, bool atom, uint64_t pc) {
    uint32_t *vc = co[cur].vc;
    for (uintptr_t g = a >> 2; g <= (a + n - 1) >> 2; ++g) {
        Sh &s = (*shadow)[g];
        if (s.wclk && s.wt != cur && s.wclk > vc[s.wt] && !(atom && s.watom)) {
            conflict(s.wpc, pc);
            // a plain read that sees the atomic write of another thread comes after it, and after what that thread did before
            if (!write && s.watom) { auto it = avc->find(s.aa); if (it != avc->end()) acquire(it->second.data()); }
        }
        if (write) {
            for (int i = 0; i < nt; ++i) if (i != cur && s.rclk[i] > vc[i] && !(atom && (s.ratom >> i & 1))) conflict(s.rpc[i], pc);
            s.wclk = vc[cur]; s.wt = cur; s.wpc = pc; s.watom = atom; s.aa = a;
        }
        if (!write || atom) { s.rclk[cur] = vc[cur]; s.rpc[cur] = pc; if (atom) s.ratom |= 1 << cur; else s.ratom &= ~(1 << cur); }
    }
}
static void flush_pending() {
    Co &c = co[cur]; if (!c.pend) return;
    c.pend = false; uint64_t v = 0; memcpy(&v, (void *)c.pa, c.pn);
    note(c.pa, c.pn, v != c.pv, false, c.ppc); // writing the same value is no change
}
static inline bool own_stack(uintptr_t a) { uintptr_t b = (uintptr_t)co[cur].stack; return a >= b && a < b + STACK; }
static inline void access_(uintptr_t a, uint32_t n, bool write, uint64_t pc) {
    if (!active || inhook) return;
    if (own_stack(a)) return;
    ctl.sh->accesses++;
    if (ctl.detect) { inhook = true; flush_pending(); inhook = false; }
    if ((bloom[(pc >> 2) & 63] >> ((pc >> 8) & 63) & 1) && pcset->count(pc)) point((uint32_t)(pc * 2654435761u) | 8, true);
    if (ctl.detect) {
        inhook = true;
        if (write && n <= 8) { Co &c = co[cur]; c.pend = true; c.pa = a; c.pn = n; c.pv = 0; c.ppc = pc; memcpy(&c.pv, (void *)a, n); }
        else note(a, n, write, false, pc);
        inhook = false;
    }
}
static void before_atomic(uintptr_t a, uint32_t n, uint64_t pc) {
    if (!active) return;
    inhook = true; flush_pending(); inhook = false;
    point((uint32_t)(pc * 2654435761u) | 16, true);
    inhook = true;
    auto &v = (*avc)[a]; if (v.empty()) v.assign(MAXT, 0);
    acquire(v.data()); if (ctl.detect) note(a, n, true, true, pc); release(v.data());
    inhook = false;
}
#define PC ((uint64_t)__builtin_return_address(0))
extern "C" {
void sched_fresh(void *p, size_t n) { // memory changes hands
    if (!active || !ctl.detect || inhook || !p || n > (1u << 22)) return;
    inhook = true; flush_pending();
    if (n / 4 < shadow->size()) for (uintptr_t g = (uintptr_t)p >> 2; g <= ((uintptr_t)p + n - 1) >> 2; ++g) shadow->erase(g);
    inhook = false;
}
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(N) void __tsan_read##N(void *a) { access_((uintptr_t)a, N, false, PC); } void __tsan_write##N(void *a) { access_((uintptr_t)a, N, true, PC); } \
              void __tsan_unaligned_read##N(void *a) { access_((uintptr_t)a, N, false, PC); } void __tsan_unaligned_write##N(void *a) { access_((uintptr_t)a, N, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, size_t n) { if (n) access_((uintptr_t)a, n, false, PC); }
void __tsan_write_range(void *a, size_t n) { if (n) access_((uintptr_t)a, n, true, PC); }
void __tsan_vptr_update(void **a, void *) { access_((uintptr_t)a, 8, true, PC); }
void __tsan_vptr_read(void **a) { access_((uintptr_t)a, 8, false, PC); }
#define AT(B, T) \
T __tsan_atomic##B##_load(const volatile T *a, int) { before_atomic((uintptr_t)a, B / 8, PC); return *a; } \
void __tsan_atomic##B##_store(volatile T *a, T v, int) { before_atomic((uintptr_t)a, B / 8, PC); *a = v; } \
T __tsan_atomic##B##_exchange(volatile T *a, T v, int) { before_atomic((uintptr_t)a, B / 8, PC); T o = *a; *a = v; return o; } \
T __tsan_atomic##B##_fetch_add(volatile T *a, T v, int) { before_atomic((uintptr_t)a, B / 8, PC); T o = *a; *a = o + v; return o; } \
T __tsan_atomic##B##_fetch_sub(volatile T *a, T v, int) { before_atomic((uintptr_t)a, B / 8, PC); T o = *a; *a = o - v; return o; } \
T __tsan_atomic##B##_fetch_and(volatile T *a, T v, int) { before_atomic((uintptr_t)a, B / 8, PC); T o = *a; *a = o & v; return o; } \
T __tsan_atomic##B##_fetch_or(volatile T *a, T v, int) { before_atomic((uintptr_t)a, B / 8, PC); T o = *a; *a = o | v; return o; } \
T __tsan_atomic##B##_fetch_xor(volatile T *a, T v, int) { before_atomic((uintptr_t)a, B / 8, PC); T o = *a; *a = o ^ v; return o; } \
int __tsan_atomic##B##_compare_exchange_strong(volatile T *a, T *e, T v, int, int) { before_atomic((uintptr_t)a, B / 8, PC); if (*a == *e) { *a = v; return 1; } *e = *a; return 0; } \
int __tsan_atomic##B##_compare_exchange_weak(volatile T *a, T *e, T v, int, int) { before_atomic((uintptr_t)a, B / 8, PC); if (*a == *e) { *a = v; return 1; } *e = *a; return 0; } \
T __tsan_atomic##B##_compare_exchange_val(volatile T *a, T e, T v, int, int) { before_atomic((uintptr_t)a, B / 8, PC); T o = *a; if (o == e) *a = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// ---- OpenMP
void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned) { team(fn, data, n, {}); }
static std::vector<Loop> *myloops() {
    if (active && co[cur].nest) return co[cur].nloops;
    static std::vector<Loop> L; if (!loops) loops = &L;
    return loops;
}
static bool loop_next(long *is, long *ie) {
    if (active && !co[cur].nest) { flush_pending(); point(7, true); }
    Loop &m = (*myloops())[co[cur].ws - 1];
    if (m.incr > 0 ? m.next >= m.end : m.next <= m.end) return false;
    *is = m.next; long e = m.next + m.chunk * m.incr;
    if (m.incr > 0 ? e > m.end : e < m.end) e = m.end;
    *ie = e; m.next = e; return true;
}
static bool loop_start(long s, long e, long inc, long chunk, long *is, long *ie) {
    std::vector<Loop> *L = myloops();
    size_t k = co[cur].ws++;
    if (L->size() <= k) L->resize(k + 1);
    Loop &l = (*L)[k];
    if (!l.init) { l.init = true; l.next = s; l.end = e; l.incr = inc; l.chunk = chunk < 1 ? 1 : chunk; }
    return is ? loop_next(is, ie) : true;
}
#define LOOPS(NAME) \
bool GOMP_loop_##NAME##_start(long s, long e, long i, long c, long *is, long *ie) { return loop_start(s, e, i, c, is, ie); } \
bool GOMP_loop_##NAME##_next(long *is, long *ie) { return loop_next(is, ie); } \
bool GOMP_loop_ull_##NAME##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c, unsigned long long *is, unsigned long long *ie) { return loop_start(s, e, up ? (long)i : (long)i, c, (long *)is, (long *)ie); } \
bool GOMP_loop_ull_##NAME##_next(unsigned long long *is, unsigned long long *ie) { return loop_next((long *)is, (long *)ie); } \
void GOMP_parallel_loop_##NAME(void (*fn)(void *), void *data, unsigned n, long s, long e, long i, long c, unsigned) { Loop l; l.init = true; l.next = s; l.end = e; l.incr = i; l.chunk = c < 1 ? 1 : c; team(fn, data, n, {l}); }
LOOPS(dynamic) LOOPS(nonmonotonic_dynamic) LOOPS(guided) LOOPS(nonmonotonic_guided) LOOPS(static)
void GOMP_loop_end() { barrier(); }
void GOMP_loop_end_nowait() {}
void GOMP_barrier() { barrier(); }
bool GOMP_single_start() {
    if (!active || co[cur].nest) return true;
    flush_pending(); point(9, true);
    size_t k = co[cur].ws++; if (singles->size() <= k) singles->resize(k + 1, 0);
    if (loops->size() <= k) loops->resize(k + 1);
    return !(*singles)[k]++;
}
void GOMP_task(void (*fn)(void *), void *data, void (*cpy)(void *, void *), long size, long align, bool, unsigned, void **, int) { // undeferred
    if (cpy) { char *b = (char *)malloc(size + align); char *p = (char *)(((uintptr_t)b + align - 1) & ~(uintptr_t)(align - 1)); cpy(p, data); fn(p); free(b); } else fn(data);
}
void GOMP_taskwait() {}
static int critical_default, atomic_default;
void GOMP_critical_start() { lock(&critical_default); }
void GOMP_critical_end() { unlock(&critical_default); }
void GOMP_critical_name_start(void **p) { lock(p); }
void GOMP_critical_name_end(void **p) { unlock(p); }
void GOMP_atomic_start() { lock(&atomic_default); }
void GOMP_atomic_end() { unlock(&atomic_default); }
void omp_init_lock(void *) {}
void omp_destroy_lock(void *) {}
void omp_set_lock(void *p) { lock(p); }
void omp_unset_lock(void *p) { unlock(p); }
int omp_get_thread_num() { return active && !co[cur].nest ? cur : 0; }
int omp_get_num_threads() { return active && !co[cur].nest ? nt : 1; }
int omp_get_max_threads() { return want_threads; }
int omp_get_num_procs() { return 8; }
int omp_in_parallel() { return active; }
int omp_get_level() { return active; }
void omp_set_num_threads(int n) { if (n > 0) want_threads = n; }
void omp_set_dynamic(int) {}
void omp_set_nested(int) {}
int gettimeofday(struct timeval *, void *) throw();
double omp_get_wtime() { struct { long s, u; } t; gettimeofday((struct timeval *)&t, NULL); return t.s + 1e-6 * t.u; }

// ---- memory: fresh memory is unfavourable, freed memory is destroyed
void *__libc_malloc(size_t); void *__libc_realloc(void *, size_t); void *__libc_calloc(size_t, size_t); void __libc_free(void *);
void *malloc(size_t n) { void *p = __libc_malloc(n); if (p && n <= 1 << 20) memset(p, 0x5b, n); sched_fresh(p, n); return p; }
void *calloc(size_t a, size_t b) { void *p = __libc_calloc(a, b); sched_fresh(p, a * b); return p; }
void free(void *p) { if (p) { size_t n = malloc_usable_size(p); sched_fresh(p, n); if (n <= 1 << 16) memset(p, 0xd5, n); } __libc_free(p); }
void *realloc(void *q, size_t n) { size_t o = q ? malloc_usable_size(q) : 0; if (q) sched_fresh(q, o); void *p = __libc_realloc(q, n); if (p && n > o && n - o <= 1 << 20) memset((char *)p + o, 0x5b, n - o); sched_fresh(p, n); return p; }
}
