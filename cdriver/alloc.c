/*
 * The allocator of the freestanding library, through its verification hook and through the records it
 * serves, watched by a ledger: every block handed out must be aligned, lie in the arena, overlap no other
 * live block, and keep what was written to it.
 *
 * alloc MODE SEED CASES [FROM]   modes: seq stress step
 *   seq     one thread, any sequence of calls
 *   stress  several threads at once, disturbed by a timer
 *   step    one thread is stopped after its k-th instruction within the library, for every k (or a sample
 *           of them), and another runs a few calls there
 * Every case runs in a process of its own, with a fresh arena. ARENA_OFFSET, ARENA_SIZE: where the arena is.
 */
#define _GNU_SOURCE
#include <shogi_core.h>

#include <dlfcn.h>
#include <errno.h>
#include <link.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdio.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>

void *verif_alloc(size_t size, size_t align);
void verif_dealloc(void *p, size_t size, size_t align);
void *verif_realloc(void *p, size_t size, size_t align, size_t new_size);

#ifdef FAKE_PERSONALITY
void rust_eh_personality(void) { abort(); }
#endif

typedef uint64_t u64;
typedef unsigned __int128 u128;
typedef uint8_t u8;

static u64 mix(u64 z) {
    z += 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
static __thread u64 rng_s;
static u64 rnd(void) {
    rng_s += 0x9e3779b97f4a7c15ull;
    return mix(rng_s);
}
static u64 below(u64 n) { return (u64)((u128)(rnd() >> 11) * n >> 53); }

static u64 the_case;
static const char *mode;
static long at_step = -1, at_step2 = -1;
#define FAIL(sig, ...) \
    do { \
        char b_[600]; \
        int n_ = snprintf(b_, 300, "MISMATCH %s %s case %llu stops %ld %ld: ", sig, mode, (unsigned long long)the_case, at_step, at_step2); \
        n_ += snprintf(b_ + n_, 290, __VA_ARGS__); \
        b_[n_++] = '\n'; \
        if (write(1, b_, n_) < 0) _exit(71); \
        _exit(1); \
    } while (0)

typedef struct {
    u64 allocs, nulls, reallocs, deallocs, records, checks, stops, steps, timeouts, overlapped, done;
} Sh;
static Sh *sh;
#define ADD(f, n) __atomic_fetch_add(&sh->f, n, __ATOMIC_RELAXED)

static uintptr_t arena_lo, arena_hi, text_lo, text_hi;

/* ---- blocks -------------------------------------------------------------------------------- */
typedef struct {
    u8 *p;
    size_t n, align;
    u64 pat;
    int live, record;
    Position *pos;
} Blk;
#define MAXB 20000
typedef struct {
    Blk *b;
    int n;
    int nulls;
} List;

static u8 pat(u64 s, size_t i) { return (u8)(mix(s ^ (i >> 3)) >> (8 * (i & 7))); }
static void fill(Blk *b) {
    for (size_t i = 0; i < b->n; i++) b->p[i] = pat(b->pat, i);
}
static void intact_to(Blk *b, size_t n, const char *how) {
    for (size_t i = 0; i < n; i++)
        if (b->p[i] != pat(b->pat, i)) FAIL("content", "%s: byte %zu of the block of %zu bytes at arena+%ld is not what was written", how, i, b->n, (long)((uintptr_t)b->p - arena_lo));
    ADD(checks, 1);
}
static void intact(Blk *b, const char *how) {
    if (!b->live) return;
    if (b->record) {
        PartialPosition q;
        PartialPosition_startpos(&q);
        for (int s = 1; s <= 81; s++)
            if (PartialPosition_piece_at((PartialPosition *)b->p, s) != PartialPosition_piece_at(&q, s)) FAIL("content", "%s: square %d of a record at arena+%ld is not what it was", how, s, (long)((uintptr_t)b->p - arena_lo));
        ADD(checks, 1);
        return;
    }
    intact_to(b, b->n, how);
}
static void placed(Blk *b) {
    if ((uintptr_t)b->p & (b->align - 1)) FAIL("alignment", "a block of %zu bytes to be aligned to %zu is at %p, arena+%ld", b->n, b->align, (void *)b->p, (long)((uintptr_t)b->p - arena_lo));
    if ((uintptr_t)b->p < arena_lo || (uintptr_t)b->p + b->n > arena_hi) FAIL("outside_arena", "a block of %zu bytes aligned to %zu is at arena+%ld", b->n, b->align, (long)((uintptr_t)b->p - arena_lo));
    ADD(checks, 1);
}

static size_t a_size(int style) {
    switch (style) {
    case 0: return 1 + below(16);
    case 1: return 1 + below(64);
    case 2: return 8 * (1 + below(64));
    case 3: return 1 + below(3000);
    case 4: return 1 << below(16);
    default: {
        static const size_t s[] = {1, 7, 8, 9, 4095, 4096, 4097, 65536, 131071, 131072, 131073, 1 << 20, 1ull << 32, (1ull << 63) - 4096};
        return below(3) ? 1 + below(200) : s[below(14)];
    }
    }
}
static size_t an_align(int style) {
    switch (style) {
    case 0: return 1;
    case 1: return 8;
    case 2: return 1 << below(5);
    case 3: return 1 << below(13);
    default: return below(20) == 0 ? 4096ull << below(8) : 1ull << below(7);
    }
}
typedef struct {
    int kind; /* 0 alloc 1 dealloc 2 realloc 3 record */
    size_t size, align;
    int victim;
    u64 pat;
} Op;
typedef struct {
    int ss, as, rec, fr, re;
} Style;
static Style a_style(void) {
    Style s = {below(6), below(5), below(4) == 0 ? 10 : 0, below(2) ? below(40) : 0, below(2) ? below(30) : 0};
    return s;
}
static Op an_op(Style s, List *l) {
    Op o = {0, a_size(s.ss), an_align(s.as), -1, rnd()};
    u64 d = below(100);
    if (l->n > 0) o.victim = below(4) ? (l->n > 6 ? l->n - 1 - (int)below(6) : (int)below(l->n)) : (int)below(l->n);
    if (d < (u64)s.fr) o.kind = 1;
    else if (d < (u64)(s.fr + s.re)) o.kind = 2;
    else if (d < (u64)(s.fr + s.re + s.rec)) o.kind = 3;
    if (o.kind == 1 || o.kind == 2)
        if (o.victim < 0 || !l->b[o.victim].live || l->b[o.victim].record) o.kind = 0;
    if (o.size > (1ull << 62)) o.align = 1;
    return o;
}
/* The call alone: what the library does. */
static void *call(Op *o, List *l) {
    switch (o->kind) {
    case 0: return verif_alloc(o->size, o->align);
    case 1: verif_dealloc(l->b[o->victim].p, l->b[o->victim].n, l->b[o->victim].align); return 0;
    case 2: return verif_realloc(l->b[o->victim].p, l->b[o->victim].n, l->b[o->victim].align, o->size);
    default: return Position_startpos();
    }
}
/* What must hold before it and of its result. */
static void before(Op *o, List *l) {
    if (o->kind == 1 || o->kind == 2) intact(&l->b[o->victim], "before it is released or resized");
    if (o->kind == 1) l->b[o->victim].live = 0;
}
static void enter(List *l, u8 *p, size_t n, size_t align, u64 pt, int record, Position *pos) {
    if (l->n == MAXB) return;
    Blk b = {p, n, align, pt, 1, record, pos};
    placed(&b);
    if (!record) fill(&b);
    l->b[l->n++] = b;
}
static void after(Op *o, List *l, void *r) {
    switch (o->kind) {
    case 0:
        ADD(allocs, 1);
        if (!r) {
            ADD(nulls, 1);
            l->nulls++;
        } else
            enter(l, r, o->size, o->align, o->pat, 0, 0);
        break;
    case 1: ADD(deallocs, 1); break;
    case 2: {
        ADD(reallocs, 1);
        Blk *v = &l->b[o->victim];
        if (!r) {
            ADD(nulls, 1);
            l->nulls++;
            intact(v, "after a refused resize");
        } else {
            size_t keep = v->n < o->size ? v->n : o->size;
            Blk moved = *v;
            moved.p = r;
            moved.n = o->size;
            v->live = 0;
            placed(&moved);
            intact_to(&moved, keep, "after a resize");
            enter(l, r, o->size, moved.align, o->pat, 0, 0);
        }
        break;
    }
    default: {
        ADD(records, 1);
        if (!r) {
            l->nulls++;
            break;
        }
        Position *p = r;
        const PartialPosition *a = Position_inner(p), *b = Position_initial_position(p);
        enter(l, (u8 *)a, sizeof *a, 8, 0, 1, p);
        enter(l, (u8 *)b, sizeof *b, 8, 0, 1, p);
    }
    }
}
static int by_address(const void *a, const void *b) {
    const Blk *x = *(Blk *const *)a, *y = *(Blk *const *)b;
    return x->p < y->p ? -1 : x->p > y->p;
}
static void all_disjoint(List **ls, int nl) {
    static Blk *v[MAXB * 9];
    int n = 0;
    for (int j = 0; j < nl; j++)
        for (int i = 0; i < ls[j]->n; i++)
            if (ls[j]->b[i].live) v[n++] = &ls[j]->b[i];
    qsort(v, n, sizeof *v, by_address);
    for (int i = 0; i + 1 < n; i++)
        if (v[i]->p + v[i]->n > v[i + 1]->p) FAIL("overlap", "blocks of %zu bytes at arena+%ld and of %zu bytes at arena+%ld are both live", v[i]->n, (long)((uintptr_t)v[i]->p - arena_lo), v[i + 1]->n, (long)((uintptr_t)v[i + 1]->p - arena_lo));
    ADD(checks, n);
    for (int j = 0; j < nl; j++)
        for (int i = 0; i < ls[j]->n; i++) intact(&ls[j]->b[i], "in the end");
}
static List *list(void) {
    List *l = calloc(1, sizeof *l);
    l->b = calloc(MAXB, sizeof(Blk));
    return l;
}
/* ---- one thread ---------------------------------------------------------------------------- */
static void seq(void) {
    List *l = list();
    Style s = a_style();
    size_t spent = 0;
    for (int i = 0; i < 4000; i++) {
        Op o = an_op(s, l);
        if (o.kind == 3 && spent > 60000) o.kind = 0;
        if (o.kind == 0 || o.kind == 2) spent += o.size < 200000 ? o.size + o.align : 0;
        if (o.kind == 3) spent += 4096;
        before(&o, l);
        after(&o, l, call(&o, l));
        if (below(200) == 0) all_disjoint(&l, 1);
        if (l->nulls > 30) break;
        if (below(300) == 0) s = a_style();
    }
    all_disjoint(&l, 1);
}

/* ---- several threads ------------------------------------------------------------------------ */
typedef struct {
    pthread_t t;
    u64 seed;
    List *l;
    Style s;
    int ops;
    pthread_barrier_t *bar;
} Thr;
static volatile int go;
static void on_timer(int s) {
    (void)s;
    int e = errno;
    sched_yield();
    errno = e;
}
static void *thr_main(void *a) {
    Thr *t = a;
    rng_s = t->seed;
    pthread_barrier_wait(t->bar);
    while (!go) __builtin_ia32_pause();
    for (int i = 0; i < t->ops; i++) {
        Op o = an_op(t->s, t->l);
        before(&o, t->l);
        after(&o, t->l, call(&o, t->l));
        if (t->l->nulls > 30) break;
    }
    return 0;
}
static void stress(void) {
    Thr t[8];
    List *ls[8];
    pthread_barrier_t bar;
    int n = 2 + below(7);
    pthread_barrier_init(&bar, 0, n + 1);
    Style s = a_style();
    int same = below(2);
    for (int i = 0; i < n; i++) {
        ls[i] = list();
        t[i].l = ls[i];
        t[i].seed = rnd();
        t[i].s = same ? s : a_style();
        t[i].s.rec = below(3) == 0 ? 20 : 0;
        t[i].ops = 3000;
        if (t[i].s.rec) t[i].ops = 12; /* must not exhaust the arena */
        t[i].bar = &bar;
    }
    int rec = 0;
    for (int i = 0; i < n; i++) rec |= t[i].s.rec;
    if (rec)
        for (int i = 0; i < n; i++) {
            t[i].s.ss = below(3);
            t[i].s.as = below(3);
            t[i].ops = 12;
        }
    for (int i = 0; i < n; i++)
        if (pthread_create(&t[i].t, 0, thr_main, &t[i])) {
            printf("INCONCLUSIVE pthread_create\n");
            fflush(stdout);
            _exit(2);
        }
    pthread_barrier_wait(&bar);
    signal(SIGPROF, on_timer);
    struct itimerval iv = {{0, 200}, {0, 200}};
    setitimer(ITIMER_PROF, &iv, 0);
    go = 1;
    for (int i = 0; i < n; i++) pthread_join(t[i].t, 0);
    memset(&iv, 0, sizeof iv);
    setitimer(ITIMER_PROF, &iv, 0);
    all_disjoint(ls, n);
    int with = 0;
    for (int i = 0; i < n; i++) with += ls[i]->n > 0;
    if (with > 1) ADD(overlapped, 1);
}

/* ---- one thread stopped in mid-call ----------------------------------------------------------- */
static __thread volatile int stepping;
static volatile long steps_a;
static long stop_at[2];
static volatile int turn; /* 1: B's first calls, 2: done, 3: B's second calls, 4: done, 5: no more */

static double now(void) {
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}
static void on_trap(int sig, siginfo_t *si, void *uc) {
    (void)sig;
    (void)si;
    ucontext_t *u = uc;
    if (!stepping) {
        u->uc_mcontext.gregs[REG_EFL] &= ~0x100;
        return;
    }
    uintptr_t ip = u->uc_mcontext.gregs[REG_RIP];
    if (ip < text_lo || ip >= text_hi) return;
    long k = ++steps_a;
    int w = k == stop_at[0] ? 1 : k == stop_at[1] ? 3 : 0;
    if (!w) return;
    ADD(stops, 1);
    int e = errno;
    double t0 = now();
    turn = w;
    while (turn == w) {
        sched_yield();
        /* It may wait for what this thread holds. */
        if (now() - t0 > 0.05) {
            ADD(timeouts, 1);
            break;
        }
    }
    errno = e;
    if (k >= stop_at[0] && k >= stop_at[1]) {
        stepping = 0;
        u->uc_mcontext.gregs[REG_EFL] &= ~0x100;
    }
}
__attribute__((noinline)) static void trap_on(void) {
    stepping = 1;
    __asm__ volatile("pushfq\n\torq $0x100, (%%rsp)\n\tpopfq" ::: "memory", "cc");
}
__attribute__((noinline)) static void trap_off(void) {
    __asm__ volatile("pushfq\n\tandq $~0x100, (%%rsp)\n\tpopfq" ::: "memory", "cc");
    stepping = 0;
}
typedef struct {
    List *l;
    u64 seed;
    Style s;
    int n1, n2;
} B;
static void b_ops(B *b, int n) {
    for (int i = 0; i < n; i++) {
        Op o = an_op(b->s, b->l);
        before(&o, b->l);
        after(&o, b->l, call(&o, b->l));
    }
}
static void *b_main(void *a) {
    B *b = a;
    rng_s = b->seed;
    int did = 0;
    for (;;) {
        int t = turn;
        if (t == 5) return 0;
        if (t == 1 && did < 1) {
            b_ops(b, b->n1);
            did = 1;
            __sync_bool_compare_and_swap(&turn, 1, 2);
        } else if (t == 3 && did < 3) {
            b_ops(b, b->n2);
            did = 3;
            __sync_bool_compare_and_swap(&turn, 3, 4);
        } else
            sched_yield();
    }
}
static void step_child(void) {
    List *ls[2] = {list(), list()};
    Style s = a_style();
    if (s.rec && below(4)) s.rec = 0;
    if (s.rec) s.ss = below(3), s.as = below(3);
    /* Somewhere in its life, sometimes shortly before its end. */
    int pre = below(3) == 0 && !s.rec ? 4000 : (int)below(12);
    size_t spent = 0, room = 131072;
    for (int i = 0; i < pre; i++) {
        Op o = an_op(s, ls[below(2)]);
        o.kind = 0;
        if (pre == 4000) {
            if (i < 3000) o.size = 1 + below(512);
            if (spent + o.size > room - 3000) break;
        }
        spent += o.size < room ? o.size : 0;
        List *l = ls[below(2)];
        after(&o, l, call(&o, l));
    }
    B b = {ls[1], rnd(), s, 1 + (int)below(4), 1 + (int)below(3)};
    Op o = an_op(s, ls[0]);
    if (o.size > 3000 && below(3)) o.size = 1 + o.size % 3000;
    /* Its copying is done byte by byte and trapped instruction by instruction. */
    if (o.kind == 2 && ls[0]->b[o.victim].n > 300) o.kind = 0;
    if (s.rec && below(2)) o.kind = 3;
    before(&o, ls[0]);
    struct sigaction a;
    memset(&a, 0, sizeof a);
    a.sa_sigaction = on_trap;
    a.sa_flags = SA_SIGINFO;
    sigaction(SIGTRAP, &a, 0);
    pthread_t t;
    if (pthread_create(&t, 0, b_main, &b)) {
        printf("INCONCLUSIVE pthread_create\n");
        fflush(stdout);
        _exit(2);
    }
    stop_at[0] = at_step;
    stop_at[1] = at_step2;
    trap_on();
    void *r = call(&o, ls[0]);
    trap_off();
    sh->steps = steps_a;
    turn = 5;
    pthread_join(t, 0);
    after(&o, ls[0], r);
    all_disjoint(ls, 2);
}

/* ---- running ------------------------------------------------------------------------------------ */
static int on_object(struct dl_phdr_info *i, size_t n, void *x) {
    (void)n;
    uintptr_t f = (uintptr_t)x;
    uintptr_t dlo = 0, dhi = 0, tlo = 0, thi = 0;
    for (int k = 0; k < i->dlpi_phnum; k++) {
        const ElfW(Phdr) *p = &i->dlpi_phdr[k];
        if (p->p_type != PT_LOAD) continue;
        uintptr_t lo = i->dlpi_addr + p->p_vaddr, hi = lo + p->p_memsz;
        if (p->p_flags & PF_X) {
            tlo = lo;
            thi = hi;
        }
        if (p->p_flags & PF_W) {
            if (!dlo || lo < dlo) dlo = lo;
            if (hi > dhi) dhi = hi;
        }
    }
    if (f >= tlo && f < thi) {
        text_lo = tlo;
        text_hi = thi;
        arena_lo = dlo;
        arena_hi = dhi;
        if (getenv("ARENA_OFFSET")) {
            arena_lo = i->dlpi_addr + strtoull(getenv("ARENA_OFFSET"), 0, 16);
            arena_hi = arena_lo + strtoull(getenv("ARENA_SIZE"), 0, 10);
        }
    }
    return 0;
}
static int in_child(void (*f)(void), u64 seed) {
    fflush(stdout);
    sh->done = 0;
    pid_t c = fork();
    if (c < 0) {
        printf("INCONCLUSIVE fork\n");
        fflush(stdout);
        _exit(2);
    }
    if (c == 0) {
        struct rlimit l = {20, 25};
        setrlimit(RLIMIT_CPU, &l);
        rng_s = seed;
        f();
        sh->done = 1;
        _exit(0);
    }
    int st;
    waitpid(c, &st, 0);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && sh->done) return 0;
    if (WIFEXITED(st) && WEXITSTATUS(st)) exit(WEXITSTATUS(st));
    printf("CRASH signal %d in %s case %llu stops %ld %ld\n", WIFSIGNALED(st) ? WTERMSIG(st) : 0, mode, (unsigned long long)the_case, at_step, at_step2);
    fflush(stdout);
    _exit(70);
}
int main(int argc, char **argv) {
    if (argc < 4) return 2;
    mode = argv[1];
    u64 seed = strtoull(argv[2], 0, 10), cases = strtoull(argv[3], 0, 10), from = argc > 4 ? strtoull(argv[4], 0, 10) : 0;
    dl_iterate_phdr(on_object, dlsym(RTLD_DEFAULT, "verif_alloc"));
    if (!text_lo || !arena_lo) {
        printf("INCONCLUSIVE library not found in memory\n");
        return 2;
    }
    sh = mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    u64 runs = 0;
    for (the_case = from; the_case < from + cases; the_case++) {
        u64 s = mix(seed ^ mix(the_case ^ mix(mode[0] * 256 + mode[1])));
        if (!strcmp(mode, "seq")) in_child(seq, s), runs++;
        else if (!strcmp(mode, "stress")) in_child(stress, s), runs++;
        else if (!strcmp(mode, "step")) {
            /* How many instructions are there? Then at each of them, or at a sample. */
            at_step = at_step2 = -1;
            in_child(step_child, s);
            long n = sh->steps;
            rng_s = s ^ 1;
            for (long k = 1; k <= n && runs < 1000000;) {
                at_step = k;
                at_step2 = below(3) == 0 && k < n ? k + 1 + (long)below(n - k) : -1;
                in_child(step_child, s);
                runs++;
                k += n <= 60 ? 1 : n <= 1000 ? 1 + (long)below(n / 30) : 1 + (long)below(n / 6);
            }
        } else
            return 2;
    }
    printf("COUNT processes %llu\nCOUNT allocations %llu\nCOUNT refused %llu\nCOUNT resizes %llu\nCOUNT releases %llu\nCOUNT records %llu\nCOUNT checks %llu\nCOUNT stops %llu\nCOUNT waits_given_up %llu\nCOUNT concurrent %llu\n", (unsigned long long)runs, (unsigned long long)sh->allocs, (unsigned long long)sh->nulls, (unsigned long long)sh->reallocs, (unsigned long long)sh->deallocs, (unsigned long long)sh->records, (unsigned long long)sh->checks, (unsigned long long)sh->stops, (unsigned long long)sh->timeouts, (unsigned long long)sh->overlapped);
    printf("DONE %s\n", mode);
    return 0;
}
