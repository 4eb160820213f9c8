/*
 * The memory functions that a freestanding library brings along, called directly, on memory between
 * inaccessible pages, against byte loops written here.
 *
 * mem LIB SEED CASES [big]
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <unistd.h>

typedef uint64_t u64;
typedef unsigned __int128 u128;
typedef uint8_t u8;

static u64 mix(u64 z) {
    z += 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
static u64 rng_s;
static u64 rnd(void) {
    rng_s += 0x9e3779b97f4a7c15ull;
    return mix(rng_s);
}
static u64 below(u64 n) { return (u64)((u128)(rnd() >> 11) * n >> 53); }

static const char *what = "start";
static size_t now_n, now_a, now_b;
static u64 checks, calls[8];
static void on_signal(int s) {
    char b[200];
    int n = snprintf(b, sizeof b, "\nCRASH signal %d in %s of %zu bytes at offsets %zu, %zu\n", s, what, now_n, now_a, now_b);
    if (write(1, b, n) < 0) _exit(71);
    _exit(70);
}
#define CK(c, ...) \
    do { \
        checks++; \
        if (!(c)) { \
            printf("MISMATCH %s of %zu bytes at offsets %zu, %zu: ", what, now_n, now_a, now_b); \
            printf(__VA_ARGS__); \
            printf("\n"); \
            fflush(stdout); \
            _exit(1); \
        } \
    } while (0)

typedef void *(*cpy_f)(void *, const void *, size_t);
typedef void *(*set_f)(void *, int, size_t);
typedef int (*cmp_f)(const void *, const void *, size_t);
typedef void (*zero_f)(void *, size_t);

#define PAGES 32
#define SZ (PAGES * 4096)
static u8 *mem[2]; /* SZ bytes each between inaccessible pages */

static void arena(int i) {
    u8 *p = mmap(0, SZ + 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) {
        printf("INCONCLUSIVE mmap\n");
        exit(2);
    }
    mprotect(p, 4096, PROT_NONE);
    mprotect(p + 4096 + SZ, 4096, PROT_NONE);
    mem[i] = p + 4096;
}
static u8 shadow[2][SZ];
/* Refills the used part with junk; the rest keeps what it has (and is compared all the same). */
static void junk(int i, size_t lo, size_t hi) {
    for (size_t j = lo; j < hi; j++) mem[i][j] = shadow[i][j] = (u8)rnd();
}
static void same(int i, size_t lo, size_t hi, const char *how) {
    for (size_t j = lo; j < hi; j++) CK(mem[i][j] == shadow[i][j], "%s: byte %zu is %02x, should be %02x", how, j, mem[i][j], shadow[i][j]);
}
static size_t size(void) {
    switch (below(6)) {
    case 0: return below(17);
    case 1: return below(65);
    case 2: case 3: return below(300);
    case 4: return 4096 * (1 + below(3)) - 8 + below(17);
    default: return below(70000);
    }
}
/* Where n bytes go: at the end, at the beginning, or anywhere. */
static size_t place(size_t n) {
    switch (below(3)) {
    case 0: return SZ - n;
    case 1: return 0;
    default: return below(SZ - n + 1);
    }
}
static void span(size_t a, size_t n, size_t *lo, size_t *hi) {
    *lo = a > 64 ? a - 64 : 0;
    *hi = a + n + 64 < SZ ? a + n + 64 : SZ;
}

static cpy_f cpy, move;
static set_f set;
static cmp_f cmp, bcmp_;
static zero_f zero[2];
static const char *zname[2] = {"__bzero", "bzero"};

static void one(size_t n, size_t a, size_t b, int f) {
    size_t lo, hi;
    now_n = n;
    now_a = a;
    now_b = b;
    span(a, n, &lo, &hi);
    switch (f) {
    case 0: case 4: {
        cpy_f g = f ? move : cpy;
        if (!g) return;
        what = f ? "memmove" : "memcpy";
        calls[f]++;
        junk(0, lo, hi);
        size_t l2, h2;
        span(b, n, &l2, &h2);
        junk(1, l2, h2);
        memmove(shadow[0] + a, shadow[1] + b, n);
        mprotect(mem[1], SZ, PROT_READ);
        void *r = g(mem[0] + a, mem[1] + b, n);
        mprotect(mem[1], SZ, PROT_READ | PROT_WRITE);
        CK(r == mem[0] + a, "returns %p, should be %p", r, (void *)(mem[0] + a));
        same(0, lo, hi, "destination");
        same(1, l2, h2, "source");
        break;
    }
    case 1: {
        if (!set) return;
        static const int cs[] = {0, 1, 0x5a, 0x7f, 0x80, 0xff, 0x100, 0x1ff, -1, -128, -129, 0x12345678, INT32_MIN, INT32_MAX};
        int c = below(2) ? cs[below(sizeof cs / sizeof *cs)] : (int)rnd();
        what = "memset";
        calls[1]++;
        junk(0, lo, hi);
        memset(shadow[0] + a, c & 255, n);
        void *r = set(mem[0] + a, c, n);
        CK(r == mem[0] + a, "returns %p, should be %p", r, (void *)(mem[0] + a));
        same(0, lo, hi, "destination");
        break;
    }
    case 2: {
        if (!cmp) return;
        what = "memcmp";
        calls[2]++;
        size_t l2, h2;
        span(b, n, &l2, &h2);
        junk(0, lo, hi);
        junk(1, l2, h2);
        memcpy(mem[1] + b, mem[0] + a, n);
        /* differences: none, one, or two in opposite directions; what follows the compared bytes differs anyway */
        int want = 0, d = n ? below(4) : 0;
        if (d) {
            static const u8 xs[] = {0, 1, 0x7e, 0x7f, 0x80, 0x81, 0xfe, 0xff};
            size_t i = below(3) ? below(n) : below(2) ? 0 : n - 1, j = below(n);
            u8 x = below(2) ? xs[below(8)] : rnd(), y = below(2) ? xs[below(8)] : rnd();
            if (x == y) y ^= 0x80;
            mem[0][a + i] = x;
            mem[1][b + i] = y;
            want = x < y ? -1 : 1;
            if (d == 3 && j > i) {
                mem[0][a + j] = y;
                mem[1][b + j] = x;
            }
        }
        mprotect(mem[0], SZ, PROT_READ);
        mprotect(mem[1], SZ, PROT_READ);
        int r = cmp(mem[0] + a, mem[1] + b, n), r2 = cmp(mem[1] + b, mem[0] + a, n);
        CK((r > 0) - (r < 0) == want, "returns %d, should be of sign %d", r, want);
        CK((r2 > 0) - (r2 < 0) == -want, "the other way round returns %d, should be of sign %d", r2, -want);
        r = cmp(mem[0] + a, mem[0] + a, n);
        CK(r == 0, "of memory with itself returns %d", r);
        if (bcmp_) {
            r = bcmp_(mem[0] + a, mem[1] + b, n);
            CK(!r == !want, "bcmp returns %d", r);
        }
        mprotect(mem[0], SZ, PROT_READ | PROT_WRITE);
        mprotect(mem[1], SZ, PROT_READ | PROT_WRITE);
        memcpy(shadow[0] + lo, mem[0] + lo, hi - lo);
        memcpy(shadow[1] + l2, mem[1] + l2, h2 - l2);
        break;
    }
    default:
        for (int i = 0; i < 2; i++) {
            if (!zero[i]) continue;
            what = zname[i];
            calls[3]++;
            junk(0, lo, hi);
            memset(shadow[0] + a, 0, n);
            zero[i](mem[0] + a, n);
            same(0, lo, hi, "destination");
        }
    }
}

/* Sizes beyond 32 bits: one file mapped over and over, so that little memory is needed, and a tail of its own. */
static u8 *wide(size_t span_, size_t tail) {
    const size_t unit = 4 << 20;
    int fd = memfd_create("wide", 0);
    if (fd < 0 || ftruncate(fd, unit)) return 0;
    u8 *p = mmap(0, span_ + tail + unit, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) return 0;
    for (size_t i = 0; i < span_; i += unit)
        if (mmap(p + i, unit, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) return 0;
    if (mmap(p + span_, tail, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0) == MAP_FAILED) return 0;
    close(fd);
    return p;
}
static void big(int f) {
    const size_t s = 1ull << 32, t = 1 << 20, n = s + 12345;
    u8 *p = wide(s, t), *q = wide(s, t);
    if (!p || !q) {
        printf("INCONCLUSIVE wide\n");
        exit(2);
    }
    now_n = n;
    now_a = now_b = 0;
    u8 *x = p + s, *y = q + s;
    for (size_t i = 0; i < t; i++) {
        x[i] = rnd();
        y[i] = rnd();
    }
    u8 *keep = malloc(t);
    memcpy(keep, x, t);
    size_t k = n - s;
    switch (f) {
    case 0:
        if (!cpy) return;
        what = "memcpy";
        cpy(p, q, n);
        CK(!memcmp(x, y, k), "the last bytes are not copied");
        CK(!memcmp(x + k, keep + k, t - k), "bytes beyond are written");
        break;
    case 1:
        if (!set) return;
        what = "memset";
        set(p, 0x1c3, n);
        for (size_t i = 0; i < k; i++) CK(x[i] == 0xc3, "the last bytes are not set");
        CK(!memcmp(x + k, keep + k, t - k), "bytes beyond are written");
        break;
    case 2: {
        if (!cmp) return;
        what = "memcmp";
        memcpy(y, x, t);
        x[k] = 1;
        y[k] = 2;
        int r = cmp(p, q, n);
        CK(r == 0, "of equal memory returns %d", r);
        x[k - 1] = 3;
        y[k - 1] = 0x83;
        r = cmp(p, q, n);
        CK(r < 0, "returns %d, should be negative", r);
        break;
    }
    default:
        if (!zero[0]) return;
        what = "__bzero";
        zero[0](p, n);
        for (size_t i = 0; i < k; i++) CK(x[i] == 0, "the last bytes are not cleared");
        CK(!memcmp(x + k, keep + k, t - k), "bytes beyond are written");
    }
    calls[5]++;
}

/* Only what the library itself has. */
static void *own(void *h, const char *name, void *known) {
    void *p = dlsym(h, name);
    Dl_info a, b;
    if (!p || !dladdr(p, &a) || !dladdr(known, &b) || a.dli_fbase != b.dli_fbase) return 0;
    return p;
}

#ifdef FAKE_PERSONALITY
void rust_eh_personality(void) { abort(); }
#endif

int main(int argc, char **argv) {
    if (argc < 4) return 2;
    setvbuf(stdout, 0, _IOLBF, 1 << 16);
    void *h = dlopen(argv[1], RTLD_NOW | RTLD_LOCAL);
    if (!h) {
        printf("INCONCLUSIVE %s\n", dlerror());
        return 2;
    }
    void *known = dlsym(h, "Square_new");
    if (!known) {
        printf("INCONCLUSIVE no Square_new\n");
        return 2;
    }
    static u8 alt[1 << 16];
    stack_t ss = {.ss_sp = alt, .ss_size = sizeof alt};
    sigaltstack(&ss, 0);
    int sigs[] = {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT, SIGXCPU};
    for (unsigned i = 0; i < sizeof sigs / sizeof *sigs; i++) {
        struct sigaction a;
        memset(&a, 0, sizeof a);
        a.sa_handler = on_signal;
        a.sa_flags = SA_ONSTACK;
        sigaction(sigs[i], &a, 0);
    }
    struct rlimit l = {600, 610};
    setrlimit(RLIMIT_CPU, &l);
    cpy = (cpy_f)own(h, "memcpy", known);
    move = (cpy_f)own(h, "memmove", known);
    set = (set_f)own(h, "memset", known);
    cmp = (cmp_f)own(h, "memcmp", known);
    bcmp_ = (cmp_f)own(h, "bcmp", known);
    zero[0] = (zero_f)own(h, "__bzero", known);
    zero[1] = (zero_f)own(h, "bzero", known);
    printf("COUNT functions %d\n", !!cpy + !!move + !!set + !!cmp + !!bcmp_ + !!zero[0] + !!zero[1]);
    rng_s = mix(strtoull(argv[2], 0, 10));
    u64 cases = strtoull(argv[3], 0, 10);
    if (argc > 4) {
        big(atoi(argv[4]));
    } else {
        arena(0);
        arena(1);
        junk(0, 0, SZ);
        junk(1, 0, SZ);
        /* all small sizes at all alignments, at both ends of the accessible memory */
        for (size_t n = 0; n <= 80; n++)
            for (size_t a = 0; a < 16; a++)
                for (int f = 0; f < 5; f++) {
                    size_t b = below(16);
                    one(n, a, b, f);
                    one(n, SZ - n - a, SZ - n - b, f);
                }
        for (u64 i = 0; i < cases; i++) {
            size_t n = size();
            one(n, place(n), place(n), below(5));
        }
        same(0, 0, SZ, "in the end");
        same(1, 0, SZ, "in the end");
    }
    printf("COUNT checks %llu\nCOUNT memcpy %llu\nCOUNT memset %llu\nCOUNT memcmp %llu\nCOUNT bzero %llu\nCOUNT big %llu\n", (unsigned long long)checks, (unsigned long long)calls[0], (unsigned long long)calls[1], (unsigned long long)calls[2], (unsigned long long)calls[3], (unsigned long long)calls[5]);
    return 0;
}
