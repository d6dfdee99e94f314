// A cooperative scheduler in the place of the ThreadSanitizer runtime.
//
// The code under test (the crate, the standard library, the scenarios) is compiled with ThreadSanitizer
// instrumentation, which calls a function for every memory access and in the place of every atomic
// operation. Here those functions are the scheduling points (atomic operations, futex calls) of a
// scheduler that lets one thread run at a time in an order given from outside, and the observations
// (plain accesses) of a vector-clock race detector.

#define _GNU_SOURCE
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <semaphore.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>

#define MAXT 4
#define MAXSTEP 20000

enum { K_NONE, K_READ, K_WRITE, K_WAIT, K_WAKE, K_RESUME };
enum { ST_DONE = 1, ST_DEADLOCK, ST_SLEEP, ST_DIVERGED, ST_STEPS };

struct op { uint64_t addr; uint32_t kind; uint32_t size; };
struct step { uint32_t tid, enabled, sleep, pad; struct op pend[MAXT]; };

struct shared {
    // in
    uint32_t prefix_len, sleep_in, use_sleep, nthreads;
    uint8_t prefix[MAXSTEP];
    uint32_t nracy;
    uint64_t racy[64];
    // out
    uint32_t status, nsteps, races, pad;
    char race_text[1024];
    uint64_t race_addr;
    struct step steps[MAXSTEP];
};
static struct shared *S;

struct vc { uint32_t c[MAXT]; };
static inline void join(struct vc *a, const struct vc *b) {
    for (int i = 0; i < MAXT; i++) if (b->c[i] > a->c[i]) a->c[i] = b->c[i];
}

enum { READY, BLOCKED, FINISHED };
static struct thread {
    sem_t sem;
    int state;
    struct op pend;
    struct vc vc, acq, rel; // acq: what an acquire fence would join; rel: released by the last release fence
    uint64_t waiting;
    uint64_t wait_no;
    char *stk_lo, *stk_hi;
} T[MAXT];
static sem_t main_sem;
static int last_tid;
static uint32_t cur_sleep, same_count;
static uint64_t wait_counter;
static __thread int tid = -1;

// ---- synchronisation state of atomic locations ----
struct aloc { uint64_t addr; struct vc rel; };
#define ALOCS 65536
static struct aloc *A;
static uint64_t ahash(uint64_t a) { return ((a >> 2) ^ (a >> 18)) & (ALOCS - 1); }
static struct aloc *aloc(uint64_t a) {
    uint64_t h = ahash(a);
    for (int n = 0; n < ALOCS; n++, h = (h + 1) & (ALOCS - 1)) {
        if (A[h].addr == a) return &A[h];
        if (!A[h].addr) { A[h].addr = a; return &A[h]; }
    }
    _exit(99);
}

// ---- shadow of plain accesses ----
struct cell {
    uint64_t key;
    uint64_t only;          // the one thread that has used it so far, plus one, or ~0
    uint8_t wt[8];          // thread of the last plain write, plus one
    uint32_t wc[8];
    uint32_t rc[8][MAXT];   // plain reads
    uint32_t ac[8][MAXT];   // atomic writes
    uint32_t lc[8][MAXT];   // atomic reads
};
// Cells are dealt out densely and found through an index that keeps neighbours together: few pages.
#define CELLS 65536
#define INDEX 262144
static struct cell *C;
static uint32_t *CI;
static uint32_t ncells;
static struct cell *cell(uint64_t a, int make) {
    uint64_t k = a & ~7ull, h = ((a >> 3) ^ (a >> 26)) & (INDEX - 1);
    for (;; h = (h + 1) & (INDEX - 1)) {
        if (!CI[h]) {
            if (!make || ncells >= CELLS - 1) return 0;
            CI[h] = ++ncells;
            C[ncells].key = k;
            return &C[ncells];
        }
        if (C[CI[h]].key == k) return &C[CI[h]];
    }
}
static void race(uint64_t a, const char *what, int other) {
    if (S->races++ == 0) {
        S->race_addr = a;
        snprintf(S->race_text, sizeof S->race_text, "%s by thread %d without synchronisation with thread %d", what, tid, other);
    }
}
enum { A_READ, A_WRITE, A_AREAD, A_AWRITE };
static void check_byte(struct cell *c, int b, uint64_t a, int how) {
    struct vc *v = &T[tid].vc;
    int w = c->wt[b] - 1;
    if (w >= 0 && w != tid && c->wc[b] > v->c[w])
        race(a, how == A_READ ? "a read of what was written" : how == A_WRITE ? "a write over what was written" : "an atomic access to what was written", w);
    for (int t = 0; t < MAXT; t++) {
        if (t == tid) continue;
        if ((how == A_WRITE || how == A_AWRITE) && c->rc[b][t] > v->c[t]) race(a, "a write to what was read", t);
        if ((how == A_WRITE || how == A_READ) && c->ac[b][t] > v->c[t]) race(a, "a plain access to what was changed atomically", t);
        if (how == A_WRITE && c->lc[b][t] > v->c[t]) race(a, "a write to what was read atomically", t);
    }
}
static void access_range(uint64_t a, size_t n, int how) {
    if ((char *)a >= T[tid].stk_lo && (char *)a < T[tid].stk_hi) return;
    for (size_t i = 0; i < n;) {
        struct cell *c = cell(a + i, 1);
        if (!c) return;
        if (!c->only) c->only = tid + 1;
        else if (c->only != (uint64_t)tid + 1) c->only = ~0ull;
        int shared = c->only == ~0ull;
        do {
            int b = (a + i) & 7;
            if (shared) check_byte(c, b, a + i, how);
            uint32_t now = T[tid].vc.c[tid];
            switch (how) {
            case A_READ: c->rc[b][tid] = now; break;
            case A_WRITE: c->wt[b] = tid + 1; c->wc[b] = now; break;
            case A_AREAD: c->lc[b][tid] = now; break;
            default: c->ac[b][tid] = now;
            }
            i++;
        } while (i < n && ((a + i) & 7));
    }
}
// Memory that is handed out is new, whatever was there before.
void sched_clear(void *p, size_t n) {
    if (tid < 0) return;
    uint64_t a = (uint64_t)p;
    for (uint64_t k = a & ~7ull; k < a + n; k += 8) {
        struct cell *c = cell(k, 0);
        if (!c) continue;
        for (int b = 0; b < 8; b++) {
            if (k + b < a || k + b >= a + n) continue;
            c->wt[b] = 0;
            for (int t = 0; t < MAXT; t++) c->rc[b][t] = c->ac[b][t] = c->lc[b][t] = 0;
        }
    }
    for (uint64_t x = (a + 3) & ~3ull; x < a + n; x += 4) {
        uint64_t h = ahash(x);
        for (; A[h].addr; h = (h + 1) & (ALOCS - 1))
            if (A[h].addr == x) { memset(&A[h].rel, 0, sizeof A[h].rel); break; }
    }
}
// Freeing counts as writing.
void sched_free(void *p, size_t n) {
    if (tid < 0) return;
    uint64_t a = (uint64_t)p;
    for (uint64_t k = a & ~7ull; k < a + n; k += 8) {
        struct cell *c = cell(k, 0);
        if (!c) continue;
        if (c->only != ~0ull && c->only != (uint64_t)tid + 1 && c->only) c->only = ~0ull;
        if (c->only == ~0ull) for (int b = 0; b < 8; b++)
            if (k + b >= a && k + b < a + n) check_byte(c, b, k + b, A_WRITE);
    }
    sched_clear(p, n);
}

// ---- the scheduler ----

static int dependent(const struct op *a, const struct op *b) {
    if (a->kind == K_NONE || b->kind == K_NONE || a->kind == K_RESUME || b->kind == K_RESUME) return 0;
    if (a->addr + a->size <= b->addr || b->addr + b->size <= a->addr) return 0;
    int ra = a->kind == K_READ || a->kind == K_WAIT, rb = b->kind == K_READ || b->kind == K_WAIT;
    return !(ra && rb);
}
static void finish(int status) {
    S->status = status;
    if (status == ST_DONE) { sem_post(&main_sem); return; }
    _exit(0);
}
static void schedule(void) {
    int n = S->nthreads, me = tid;
    uint32_t en = 0;
    int left = 0;
    for (int i = 0; i < n; i++) {
        if (T[i].state == READY) en |= 1u << i;
        if (T[i].state != FINISHED) left = 1;
    }
    if (!left) {
        finish(ST_DONE);
        goto wait;
    }
    if (!en) finish(ST_DEADLOCK);
    uint32_t k = S->nsteps;
    if (k >= MAXSTEP - 1) finish(ST_STEPS);
    int pick = -1;
    if (S->use_sleep && (k + 1 == S->prefix_len || (S->prefix_len == 0 && k == 0))) cur_sleep = S->sleep_in;
    if (k < S->prefix_len) {
        pick = S->prefix[k];
        if (!(en >> pick & 1)) finish(ST_DIVERGED);
    } else {
        uint32_t ok = en & ~cur_sleep;
        if (!ok) finish(ST_SLEEP);
        // Go on with the same thread, but not for ever: it may be waiting in a loop.
        if (last_tid >= 0 && (ok >> last_tid & 1) && same_count < 400) pick = last_tid;
        else {
            for (int d = 1; d <= n && pick < 0; d++) {
                int t = ((last_tid < 0 ? n - 1 : last_tid) + d) % n;
                if (ok >> t & 1) pick = t;
            }
        }
    }
    struct step *s = &S->steps[k];
    s->tid = pick;
    s->enabled = en;
    s->sleep = cur_sleep;
    for (int i = 0; i < n; i++) s->pend[i] = T[i].pend;
    S->nsteps = k + 1;
    same_count = pick == last_tid ? same_count + 1 : 0;
    last_tid = pick;
    if (cur_sleep) {
        for (int q = 0; q < n; q++)
            if ((cur_sleep >> q & 1) && (q == pick || dependent(&T[q].pend, &T[pick].pend))) cur_sleep &= ~(1u << q);
    }
    if (pick == me) return;
    sem_post(&T[pick].sem);
wait:
    if (me < 0) return;
    while (sem_wait(&T[me].sem)) ;
}
static void point(int kind, const volatile void *p, int size) {
    T[tid].pend = (struct op){ (uint64_t)p, kind, size };
    schedule();
}

typedef void (*body_t)(void *, int);
static body_t body;
static void *body_arg;
static void *thread_main(void *x) {
    int me = (int)(intptr_t)x;
    pthread_attr_t at;
    void *lo;
    size_t sz;
    pthread_getattr_np(pthread_self(), &at);
    pthread_attr_getstack(&at, &lo, &sz);
    T[me].stk_lo = lo;
    T[me].stk_hi = (char *)lo + sz;
    sem_post(&main_sem);
    while (sem_wait(&T[me].sem)) ;
    tid = me;
    body(body_arg, me);
    tid = me;
    T[me].state = FINISHED;
    T[me].pend.kind = K_NONE;
    schedule();
    for (;;) pause();
    return 0;
}
void *sched_shared(void) {
    if (!S) {
        S = mmap(0, sizeof *S, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        if (S == MAP_FAILED) abort();
    }
    return S;
}
size_t sched_shared_size(void) { return sizeof *S; }
// Runs the bodies of the threads to their ends in the order asked for.
void sched_run(int n, body_t f, void *arg) {
    A = mmap(0, ALOCS * sizeof *A, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    C = mmap(0, CELLS * sizeof *C, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    CI = mmap(0, INDEX * sizeof *CI, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    S->nthreads = n;
    S->nsteps = 0;
    S->status = 0;
    S->races = 0;
    body = f;
    body_arg = arg;
    last_tid = -1;
    sem_init(&main_sem, 0, 0);
    for (int i = 0; i < n; i++) {
        memset(&T[i], 0, sizeof T[i]);
        sem_init(&T[i].sem, 0, 0);
        T[i].state = READY;
        T[i].vc.c[i] = 1;
        pthread_attr_t at;
        pthread_attr_init(&at);
        pthread_attr_setstacksize(&at, 1 << 20);
        pthread_t h;
        if (pthread_create(&h, &at, thread_main, (void *)(intptr_t)i)) _exit(98);
        while (sem_wait(&main_sem)) ;
    }
    schedule();
    while (sem_wait(&main_sem)) ;
}

// ---- the instrumentation's interface ----

void __tsan_init(void) {}
void __tsan_func_entry(void *pc) { (void)pc; }
void __tsan_func_exit(void) {}

static void plain(void *p, size_t n, int w) {
    if (tid < 0) return;
    if (S->nracy) {
        // Locations that are known to be raced for are scheduling points of their own.
        for (uint32_t i = 0; i < S->nracy; i++)
            if (S->racy[i] + 8 > (uint64_t)p && S->racy[i] < (uint64_t)p + n) {
                point(w ? K_WRITE : K_READ, (void *)S->racy[i], 8);
                break;
            }
    }
    access_range((uint64_t)p, n, w ? A_WRITE : A_READ);
}
#define RW(n) \
    void __tsan_read##n(void *p) { plain(p, n, 0); } \
    void __tsan_write##n(void *p) { plain(p, n, 1); } \
    void __tsan_unaligned_read##n(void *p) { plain(p, n, 0); } \
    void __tsan_unaligned_write##n(void *p) { plain(p, n, 1); } \
    void __tsan_read_write##n(void *p) { plain(p, n, 0); plain(p, n, 1); } \
    void __tsan_unaligned_read_write##n(void *p) { plain(p, n, 0); plain(p, n, 1); } \
    void __tsan_volatile_read##n(void *p) { plain(p, n, 0); } \
    void __tsan_volatile_write##n(void *p) { plain(p, n, 1); } \
    void __tsan_unaligned_volatile_read##n(void *p) { plain(p, n, 0); } \
    void __tsan_unaligned_volatile_write##n(void *p) { plain(p, n, 1); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { plain(p, n, 0); }
void __tsan_write_range(void *p, size_t n) { plain(p, n, 1); }
void *__tsan_memcpy(void *d, const void *s, size_t n) { plain((void *)s, n, 0); plain(d, n, 1); return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { plain((void *)s, n, 0); plain(d, n, 1); return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { plain(d, n, 1); return memset(d, c, n); }
void __tsan_vptr_update(void **a, void *b) { (void)a; (void)b; }
void __tsan_vptr_read(void **a) { (void)a; }

static int acquires(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
static int releases(int mo) { return mo == 3 || mo == 4 || mo == 5; }
static void sync_load(const volatile void *p, int n, int mo) {
    struct thread *t = &T[tid];
    struct aloc *l = aloc((uint64_t)p);
    if (acquires(mo)) join(&t->vc, &l->rel); else join(&t->acq, &l->rel);
    access_range((uint64_t)p, n, A_AREAD);
}
static void sync_store(const volatile void *p, int n, int mo, int rmw) {
    struct thread *t = &T[tid];
    struct aloc *l = aloc((uint64_t)p);
    access_range((uint64_t)p, n, A_AWRITE);
    if (!rmw) memset(&l->rel, 0, sizeof l->rel);
    join(&l->rel, releases(mo) ? &t->vc : &t->rel);
    t->vc.c[tid]++;
}
#define ATOMICS(N, TY) \
    TY __tsan_atomic##N##_load(const volatile TY *p, int mo) { \
        if (tid < 0) return __atomic_load_n(p, __ATOMIC_SEQ_CST); \
        point(K_READ, p, sizeof(TY)); \
        TY r = __atomic_load_n(p, __ATOMIC_SEQ_CST); \
        sync_load(p, sizeof(TY), mo); \
        return r; \
    } \
    void __tsan_atomic##N##_store(volatile TY *p, TY v, int mo) { \
        if (tid < 0) { __atomic_store_n(p, v, __ATOMIC_SEQ_CST); return; } \
        point(K_WRITE, p, sizeof(TY)); \
        __atomic_store_n(p, v, __ATOMIC_SEQ_CST); \
        sync_store(p, sizeof(TY), mo, 0); \
    } \
    TY __tsan_atomic##N##_compare_exchange_val(volatile TY *p, TY c, TY v, int mo, int fmo) { \
        TY e = c; \
        if (tid < 0) { __atomic_compare_exchange_n(p, &e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; } \
        point(K_WRITE, p, sizeof(TY)); \
        int ok = __atomic_compare_exchange_n(p, &e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
        sync_load(p, sizeof(TY), ok ? mo : fmo); \
        if (ok) sync_store(p, sizeof(TY), mo, 1); \
        return e; \
    } \
    int __tsan_atomic##N##_compare_exchange_strong(volatile TY *p, TY *c, TY v, int mo, int fmo) { \
        TY o = __tsan_atomic##N##_compare_exchange_val(p, *c, v, mo, fmo); \
        if (o == *c) return 1; \
        *c = o; \
        return 0; \
    } \
    int __tsan_atomic##N##_compare_exchange_weak(volatile TY *p, TY *c, TY v, int mo, int fmo) { \
        return __tsan_atomic##N##_compare_exchange_strong(p, c, v, mo, fmo); \
    } \
    RMW(N, TY, exchange, __atomic_exchange_n) \
    RMW(N, TY, fetch_add, __atomic_fetch_add) \
    RMW(N, TY, fetch_sub, __atomic_fetch_sub) \
    RMW(N, TY, fetch_and, __atomic_fetch_and) \
    RMW(N, TY, fetch_or, __atomic_fetch_or) \
    RMW(N, TY, fetch_xor, __atomic_fetch_xor) \
    RMW(N, TY, fetch_nand, __atomic_fetch_nand)
#define RMW(N, TY, NAME, BUILTIN) \
    TY __tsan_atomic##N##_##NAME(volatile TY *p, TY v, int mo) { \
        if (tid < 0) return BUILTIN(p, v, __ATOMIC_SEQ_CST); \
        point(K_WRITE, p, sizeof(TY)); \
        TY r = BUILTIN(p, v, __ATOMIC_SEQ_CST); \
        sync_load(p, sizeof(TY), mo); \
        sync_store(p, sizeof(TY), mo, 1); \
        return r; \
    }
ATOMICS(8, uint8_t)
ATOMICS(16, uint16_t)
ATOMICS(32, uint32_t)
ATOMICS(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) {
    if (tid < 0) return;
    struct thread *t = &T[tid];
    if (acquires(mo)) join(&t->vc, &t->acq);
    if (releases(mo)) { t->rel = t->vc; t->vc.c[tid]++; }
}
void __tsan_atomic_signal_fence(int mo) { (void)mo; }

// ---- system calls the standard library makes through this function ----

static long raw(long n, long a, long b, long c, long d, long e, long f) {
    long r;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    if (r < 0 && r > -4096) { errno = -r; return -1; }
    return r;
}
long syscall(long n, ...) {
    va_list ap;
    va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (n == SYS_getrandom && tid >= 0) { memset((void *)a, 0x5a, b); return b; }
    if (n == SYS_sched_yield && tid >= 0) { point(K_NONE, 0, 0); return 0; }
    if (n != SYS_futex || tid < 0) return raw(n, a, b, c, d, e, f);
    uint32_t *p = (uint32_t *)a;
    switch (b & 127) {
    case FUTEX_WAIT:
    case FUTEX_WAIT_BITSET:
        point(K_WAIT, p, 4);
        if (__atomic_load_n(p, __ATOMIC_SEQ_CST) != (uint32_t)c) { errno = EAGAIN; return -1; }
        T[tid].state = BLOCKED;
        T[tid].waiting = (uint64_t)p;
        T[tid].wait_no = wait_counter++;
        T[tid].pend = (struct op){ (uint64_t)p, K_RESUME, 4 };
        schedule();
        return 0;
    case FUTEX_WAKE:
    case FUTEX_WAKE_BITSET: {
        point(K_WAKE, p, 4);
        long woken = 0;
        while (woken < (int)c) {
            int best = -1;
            for (uint32_t i = 0; i < S->nthreads; i++)
                if (T[i].state == BLOCKED && T[i].waiting == (uint64_t)p && (best < 0 || T[i].wait_no < T[best].wait_no)) best = i;
            if (best < 0) break;
            T[best].state = READY;
            join(&T[best].vc, &T[tid].vc);
            woken++;
        }
        T[tid].vc.c[tid]++;
        return woken;
    }
    default:
        return raw(n, a, b, c, d, e, f);
    }
}
int sched_yield(void) {
    if (tid >= 0) point(K_NONE, 0, 0);
    return 0;
}
long getrandom(void *p, size_t n, unsigned fl) {
    if (tid >= 0) { memset(p, 0x5a, n); return n; }
    return raw(SYS_getrandom, (long)p, n, fl, 0, 0, 0);
}

// ---- file system calls: scheduling points on what they use ----
//
// What they use is named by made-up addresses: the working directory, a path, a file's contents, the environment.

#include <dlfcn.h>
#include <fcntl.h>
#include <sys/stat.h>
#define REAL(name) ({ static __typeof__(&name) f; if (!f) f = (__typeof__(&name))dlsym(RTLD_NEXT, #name); f; })
enum { R_CWD = 1, R_PATH, R_FILE, R_ENV, R_MASK };
static void *res(int kind, uint64_t h) { return (void *)(((uint64_t)kind << 56) | ((h & 0xffffffffffull) << 4)); }
static uint64_t mix(uint64_t h, uint64_t x) { h ^= x; h *= 0x100000001b3ull; return h ^ (h >> 29); }
static void path_point(int kind, const char *p) {
    char b[8192];
    size_t n = 0;
    if (!p) return;
    if (*p != '/') {
        point(K_READ, res(R_CWD, 0), 8);
        long r = raw(SYS_getcwd, (long)b, 4096, 0, 0, 0, 0);
        n = r > 0 ? strlen(b) : 0;
    }
    // Lexically: /a/./b//c/../d is /a/b/d.
    while (*p) {
        while (*p == '/') p++;
        size_t l = strcspn(p, "/");
        if (l == 2 && p[0] == '.' && p[1] == '.') { while (n && b[--n] != '/') ; }
        else if (l && !(l == 1 && *p == '.') && n + l + 2 < sizeof b) {
            b[n++] = '/';
            memcpy(b + n, p, l);
            n += l;
        }
        p += l;
    }
    uint64_t h = 14695981039346656037ull;
    for (size_t i = 0; i < n; i++) h = mix(h, (unsigned char)b[i]);
    point(kind, res(R_PATH, h), 8);
}
static void file_point(int kind, int fd, const char *p) {
    struct stat st;
    int e = errno;
    long r = fd >= 0 ? raw(SYS_fstat, fd, (long)&st, 0, 0, 0, 0) : raw(SYS_stat, (long)p, (long)&st, 0, 0, 0, 0);
    if (r == 0 && S_ISREG(st.st_mode)) point(kind, res(R_FILE, mix(mix(7, st.st_ino), st.st_dev)), 8);
    errno = e;
}
#define P(kind, p) do { if (tid >= 0) path_point(kind, p); } while (0)
#define F(kind, fd) do { if (tid >= 0) file_point(kind, fd, 0); } while (0)
static int opens(const char *p, int fl, int mode) {
    if (tid >= 0) {
        path_point(fl & (O_CREAT | O_TRUNC) ? K_WRITE : K_READ, p);
        if (fl & O_TRUNC) file_point(K_WRITE, -1, p);
    }
    return raw(SYS_openat, AT_FDCWD, (long)p, fl, mode, 0, 0);
}
int open(const char *p, int fl, ...) {
    va_list ap;
    va_start(ap, fl);
    int m = va_arg(ap, int);
    va_end(ap);
    return opens(p, fl, m);
}
int open64(const char *p, int fl, ...) {
    va_list ap;
    va_start(ap, fl);
    int m = va_arg(ap, int);
    va_end(ap);
    return opens(p, fl, m);
}
ssize_t read(int fd, void *b, size_t n) {
    F(K_READ, fd);
    ssize_t r = raw(SYS_read, fd, (long)b, n, 0, 0, 0);
    if (tid >= 0 && r > 0) plain(b, r, 1);
    return r;
}
ssize_t write(int fd, const void *b, size_t n) {
    F(K_WRITE, fd);
    if (tid >= 0) plain((void *)b, n, 0);
    return raw(SYS_write, fd, (long)b, n, 0, 0, 0);
}
int ftruncate64(int fd, off64_t n) { F(K_WRITE, fd); return raw(SYS_ftruncate, fd, n, 0, 0, 0, 0); }
int fstat64(int fd, struct stat64 *st) { F(K_READ, fd); return raw(SYS_fstat, fd, (long)st, 0, 0, 0, 0); }
int stat64(const char *p, struct stat64 *st) { P(K_READ, p); return raw(SYS_stat, (long)p, (long)st, 0, 0, 0, 0); }
int lstat64(const char *p, struct stat64 *st) { P(K_READ, p); return raw(SYS_lstat, (long)p, (long)st, 0, 0, 0, 0); }
int statx(int d, const char *restrict p, int fl, unsigned mask, struct statx *restrict st) {
    if (p && *p) P(K_READ, p); else F(K_READ, d);
    return raw(SYS_statx, d, (long)p, fl, mask, (long)st, 0);
}
char *realpath(const char *restrict p, char *restrict r) { P(K_READ, p); return REAL(realpath)(p, r); }
ssize_t readlink(const char *restrict p, char *restrict b, size_t n) { P(K_READ, p); return raw(SYS_readlink, (long)p, (long)b, n, 0, 0, 0); }
int rename(const char *a, const char *b) { P(K_WRITE, a); P(K_WRITE, b); return raw(SYS_rename, (long)a, (long)b, 0, 0, 0, 0); }
int unlink(const char *p) { P(K_WRITE, p); return raw(SYS_unlink, (long)p, 0, 0, 0, 0, 0); }
int mkdir(const char *p, mode_t m) { P(K_WRITE, p); return raw(SYS_mkdir, (long)p, m, 0, 0, 0, 0); }
int rmdir(const char *p) { P(K_WRITE, p); return raw(SYS_rmdir, (long)p, 0, 0, 0, 0, 0); }
int link(const char *a, const char *b) { P(K_READ, a); P(K_WRITE, b); return raw(SYS_link, (long)a, (long)b, 0, 0, 0, 0); }
int symlink(const char *a, const char *b) { P(K_WRITE, b); return raw(SYS_symlink, (long)a, (long)b, 0, 0, 0, 0); }
int chdir(const char *p) {
    if (tid >= 0) { path_point(K_READ, p); point(K_WRITE, res(R_CWD, 0), 8); }
    return raw(SYS_chdir, (long)p, 0, 0, 0, 0, 0);
}
int fchdir(int fd) {
    if (tid >= 0) point(K_WRITE, res(R_CWD, 0), 8);
    return raw(SYS_fchdir, fd, 0, 0, 0, 0, 0);
}
char *getcwd(char *b, size_t n) {
    if (tid >= 0) point(K_READ, res(R_CWD, 0), 8);
    return REAL(getcwd)(b, n);
}
mode_t umask(mode_t m) {
    if (tid >= 0) point(K_WRITE, res(R_MASK, 0), 8);
    return raw(SYS_umask, m, 0, 0, 0, 0, 0);
}
char *getenv(const char *n) {
    if (tid >= 0) point(K_READ, res(R_ENV, 0), 8);
    return REAL(getenv)(n);
}
int setenv(const char *n, const char *v, int o) {
    if (tid >= 0) point(K_WRITE, res(R_ENV, 0), 8);
    return REAL(setenv)(n, v, o);
}
int unsetenv(const char *n) {
    if (tid >= 0) point(K_WRITE, res(R_ENV, 0), 8);
    return REAL(unsetenv)(n);
}
int sched_tid(void) { return tid; }
// Runs on behalf of the harness without being observed.
int sched_pause(void) { int t = tid; tid = -1; return t; }
void sched_resume(int t) { tid = t; }
