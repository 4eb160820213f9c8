/*
 * The process's malloc family, kept as a ledger: every block lies between red zones, is filled with
 * junk when handed out and with other junk when released, is never handed out again, and belongs to
 * whom it was acquired for. Whatever breaks the rules ends the process with MISMATCH.
 */
#define _GNU_SOURCE
#include "ledger.h"

#include <errno.h>
#include <stdint.h>
#include <stdio.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>

#define SPACE (64ull << 30)
#define ZONE 32
#define MAXB (1 << 22)

typedef struct {
    uint8_t *p;
    size_t n;
    int tag, live;
} Block;

static uint8_t *base, *top, *end;
static Block *blk;
static size_t nblk, checked_from;
static int tag_now, inside;
static size_t n_alloc, n_free, n_realloc, n_live, peak;
static size_t live_of[256];

static void say(const char *s) {
    if (write(1, s, strlen(s)) < 0) _exit(71);
}
static void bad(const char *sig, const char *what, const void *p, size_t n, int tag) {
    char b[300];
    snprintf(b, sizeof b, "\nMISMATCH %s ledger: %s (block %p of %zu bytes, acquired for %d, in a call on %d)\n", sig, what, p, n, tag, tag_now);
    say(b);
    _exit(1);
}
static void init(void) {
    if (base) return;
    base = mmap(0, SPACE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    blk = mmap(0, MAXB * sizeof(Block), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (base == MAP_FAILED || blk == MAP_FAILED) {
        say("INCONCLUSIVE ledger: mmap\n");
        _exit(2);
    }
    top = base;
    end = base + SPACE;
}
static void *get(size_t n, size_t align) {
    init();
    if (align < 16) align = 16;
    uintptr_t a = ((uintptr_t)top + sizeof(size_t) + ZONE + align - 1) & ~(uintptr_t)(align - 1);
    uint8_t *p = (uint8_t *)a;
    if (nblk == MAXB || p + n + ZONE > end) {
        say("INCONCLUSIVE ledger: full\n");
        _exit(2);
    }
    memset(p - ZONE, 0xfb, ZONE);
    memset(p, 0xa5, n);
    memset(p + n, 0xfb, ZONE);
    *(size_t *)(p - ZONE - sizeof(size_t)) = nblk; /* its number */
    top = (uint8_t *)(((uintptr_t)p + n + ZONE + 15) & ~(uintptr_t)15);
    Block b = {p, n, inside ? tag_now : 0, 1};
    blk[nblk++] = b;
    if (b.tag) {
        n_alloc++;
        live_of[b.tag]++;
        if (++n_live > peak) peak = n_live;
    }
    return p;
}
static Block *find(void *p, const char *what) {
    uint8_t *q = p;
    if (q < base || q >= end) bad("foreign", what, p, 0, -1);
    size_t i = *(size_t *)(q - ZONE - sizeof(size_t));
    if (((uintptr_t)p & 15) || i >= nblk || blk[i].p != q) bad("foreign", what, p, 0, -1);
    return &blk[i];
}
static void zones(Block *b) {
    for (int i = 1; i <= ZONE; i++) {
        if (b->p[-i] != 0xfb) bad("red_zone", "memory before a block was written", b->p, b->n, b->tag);
        if (b->p[b->n + i - 1] != 0xfb) bad("red_zone", "memory after a block was written", b->p, b->n, b->tag);
    }
}
static void put(void *p, const char *what) {
    Block *b = find(p, what);
    if (!b->live) bad("double_free", what, p, b->n, b->tag);
    if (inside && b->tag != tag_now) bad("foreign", "memory of something else released", p, b->n, b->tag);
    if (!inside && b->tag) bad("foreign", "memory of a record released outside the library", p, b->n, b->tag);
    zones(b);
    b->live = 0;
    if (b->tag) {
        n_free++;
        n_live--;
        live_of[b->tag]--;
    }
    memset(b->p, 0xdd, b->n);
}
void ledger_enter(int tag) {
    tag_now = tag;
    inside = 1;
}
void ledger_leave(void) { inside = 0; }
size_t ledger_live(int tag) { return live_of[tag]; }
int ledger_inside(int tag, const void *p, size_t n) {
    for (size_t i = nblk; i-- > 0;)
        if (blk[i].live && blk[i].tag == tag && (const uint8_t *)p >= blk[i].p && (const uint8_t *)p + n <= blk[i].p + blk[i].n) return 1;
    return 0;
}
int ledger_owns(int tag, const void *p) { return ledger_inside(tag, p, 1); }
/* Red zones of what lives, and the junk in what was released, since it must not be touched. */
void ledger_check(void) {
    for (size_t i = 0; i < nblk; i++) {
        Block *b = &blk[i];
        if (b->live) {
            zones(b);
            continue;
        }
        if (i < checked_from) continue;
        for (size_t j = 0; j < b->n; j++)
            if (b->p[j] != 0xdd) bad("use_after_free", "released memory was written", b->p, b->n, b->tag);
        zones(b);
    }
    /* The oldest released blocks are given back for good. */
    while (checked_from + 20000 < nblk) {
        Block *b = &blk[checked_from];
        if (!b->live && b->n >= 8192) {
            uintptr_t lo = ((uintptr_t)b->p + 4095) & ~4095ull, hi = ((uintptr_t)b->p + b->n) & ~4095ull;
            if (hi > lo) madvise((void *)lo, hi - lo, MADV_DONTNEED);
        }
        checked_from++;
    }
}
void ledger_report(void) {
    printf("COUNT acquired %zu\nCOUNT released %zu\nCOUNT resized %zu\nCOUNT most_live_blocks %zu\n", n_alloc, n_free, n_realloc, peak);
    if (n_alloc != n_free) {
        printf("MISMATCH leak ledger: %zu blocks acquired, %zu released\n", n_alloc, n_free);
        fflush(stdout);
        _exit(1);
    }
}

void *malloc(size_t n) { return get(n, 16); }
void *calloc(size_t a, size_t b) {
    size_t n;
    if (__builtin_mul_overflow(a, b, &n)) return 0;
    void *p = get(n, 16);
    memset(p, 0, n);
    return p;
}
void free(void *p) {
    if (p) put(p, "released what is not a block");
}
void *realloc(void *p, size_t n) {
    if (!p) return malloc(n);
    Block *b = find(p, "resized what is not a block");
    if (!b->live) bad("use_after_free", "a released block is resized", p, b->n, b->tag);
    size_t old = b->n;
    void *q = get(n, 16);
    memcpy(q, p, old < n ? old : n);
    put(p, "resized what is not a block");
    n_realloc++;
    return q;
}
int posix_memalign(void **o, size_t a, size_t n) {
    *o = get(n, a);
    return 0;
}
void *aligned_alloc(size_t a, size_t n) { return get(n, a); }
void *memalign(size_t a, size_t n) { return get(n, a); }
