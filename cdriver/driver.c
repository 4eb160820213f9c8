/*
 * A C program against the shipped header: calls everything the header declares and compares with what
 * a model of its own says (plain arrays, written from the documentation). Prints
 *   COUNT name n             what was observed
 *   DIGEST section events h  of raw results, to be compared between builds of the library
 *   MISMATCH sig text        a result that is not the specified one (exit 1)
 *   CRASH signal n ...       (exit 70)
 *
 * driver MODE SEED CASES [fork]; modes: sweep sets hands positions records long life
 */
#define _GNU_SOURCE
#include <shogi_core.h>

#include <dlfcn.h>
#include <signal.h>
#include <stdio.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

#ifdef FAKE_PERSONALITY
/* Present-day nightlies leave a reference to it in the library even when panics abort. */
void rust_eh_personality(void) { abort(); }
#endif

#ifdef LEDGER
#include "ledger.h"
#define TAG(r) ledger_enter(r)
#define UNTAG() ledger_leave()
#else
#define TAG(r) ((void)0)
#define UNTAG() ((void)0)
#endif

typedef unsigned __int128 u128;
typedef uint64_t u64;

/* ---- the header's constants and layout -------------------------------------------------- */
_Static_assert(sizeof(Color) == 1 && Black == 1 && White == 2, "Color");
_Static_assert(sizeof(GameResolution) == 1 && BlackWins == 1 && WhiteWins == 2 && Draw == 3 && Rematch == 4 && Aborted == 5, "GameResolution");
_Static_assert(sizeof(IllegalMoveKind) == 1 && TwoPawns == 1 && IgnoredCheck == 2 && DropPawnMate == 3 && DropStuck == 4 && NormalStuck == 5 && GameFinished == 6 && IncorrectMove == 7, "IllegalMoveKind");
_Static_assert(sizeof(PieceKind) == 1 && Pawn == 1 && Lance == 2 && Knight == 3 && Silver == 4 && Gold == 5 && Bishop == 6 && Rook == 7 && King == 8, "PieceKind");
_Static_assert(ProPawn == 9 && ProLance == 10 && ProKnight == 11 && ProSilver == 12 && ProBishop == 13 && ProRook == 14, "PieceKind");
_Static_assert(Color_NUM == 2 && Square_NUM == 81 && Hand_NUM_HAND_PIECES == 7, "constants");
#ifdef DEFINE_EXPERIMENTAL
_Static_assert(PieceKind_OPTION_NUM == 15 && Piece_NUM == 31, "constants");
#endif
_Static_assert(sizeof(Square) == 1 && sizeof(OptionSquare) == 1 && sizeof(Piece) == 1 && sizeof(OptionPiece) == 1 && sizeof(OptionPieceKind) == 1 && sizeof(OptionGameResolution) == 1, "bytes");
_Static_assert(sizeof(CompactMove) == 2 && sizeof(OptionCompactMove) == 2, "moves");
_Static_assert(sizeof(Bitboard) == 16 && _Alignof(Bitboard) == 8 && sizeof(Hand) == 8, "aggregates");

/* Should the header show other fields than the model knows, the driver is compiled with NO_SETUP (it then
   only looks at the fields) or with NO_FIELDS. */
#ifdef NO_FIELDS
#define NO_SETUP
#endif
#ifndef NO_SETUP
_Static_assert(sizeof(PartialPosition) == 368 && offsetof(PartialPosition, side) == 0 && offsetof(PartialPosition, ply) == 2, "PartialPosition");
_Static_assert(offsetof(PartialPosition, hands) == 4 && offsetof(PartialPosition, board) == 20 && offsetof(PartialPosition, player_bb) == 104, "PartialPosition");
_Static_assert(offsetof(PartialPosition, piece_bb) == 136 && offsetof(PartialPosition, last_move) == 360 && offsetof(PartialPosition, king_square) == 362, "PartialPosition");
#endif

/* ---- reporting --------------------------------------------------------------------------- */
static __thread const char *section = "start";
static __thread u64 the_case, step, checks;
static __thread u64 dig_h = 0xcbf29ce484222325ull, dig_n;

static void die(int code) {
    fflush(stdout);
    _exit(code);
}
#define FAIL(sig, ...) \
    do { \
        printf("MISMATCH %s %s case %llu step %llu: ", sig, section, (unsigned long long)the_case, (unsigned long long)step); \
        printf(__VA_ARGS__); \
        printf("\n"); \
        die(1); \
    } while (0)
#define CK(cond, sig, ...) \
    do { \
        checks++; \
        if (!(cond)) FAIL(sig, __VA_ARGS__); \
    } while (0)

static void on_signal(int s) {
    char b[200];
    int n = snprintf(b, sizeof b, "\nCRASH signal %d in %s case %llu step %llu\n", s, section, (unsigned long long)the_case, (unsigned long long)step);
    if (write(1, b, n) < 0) _exit(71);
    _exit(70);
}

static u64 mix(u64 z) {
    z += 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
static __thread u64 rng_s;
static u64 rnd(void) {
    rng_s += 0x9e3779b97f4a7c15ull;
    return mix(rng_s);
}
static u64 below(u64 n) { return (u64)((u128)(rnd() >> 11) * n >> 53); }
static int pct(u64 p) { return below(100) < p; }

static void dig(const void *p, size_t n) {
    const uint8_t *b = p;
    u64 h = dig_h;
    for (size_t i = 0; i < n; i++) h = (h ^ b[i]) * 0x100000001b3ull;
    dig_h = mix(h ^ n);
    dig_n++;
}
static void dig1(u64 v) {
    dig_h = mix(dig_h ^ v);
    dig_n++;
}

/* Memory that ends (or begins) at an inaccessible page. */
typedef struct {
    uint8_t *lo, *hi;
} Fence;
static Fence fence(size_t pages) {
    size_t n = pages * 4096;
    uint8_t *p = mmap(0, n + 2 * 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) {
        printf("INCONCLUSIVE mmap\n");
        die(2);
    }
    mprotect(p, 4096, PROT_NONE);
    mprotect(p + 4096 + n, 4096, PROT_NONE);
    Fence f = {p + 4096, p + 4096 + n};
    return f;
}
static void only_read(Fence f, int on) { mprotect(f.lo, f.hi - f.lo, on ? PROT_READ : PROT_READ | PROT_WRITE); }

/* ---- the model ---------------------------------------------------------------------------- */
typedef struct {
    uint8_t b[82];    /* 1..=81 */
    uint8_t h[2][15]; /* by kind */
    uint8_t side;
    uint16_t ply, last;
} M;

static int m_side(int p) { return p > 16 ? 2 : 1; }
static int m_promote(int k) {
    switch (k) {
    case 1: return 9;
    case 2: return 10;
    case 3: return 11;
    case 4: return 12;
    case 6: return 13;
    case 7: return 14;
    }
    return 0;
}
static int m_unpromote(int k) {
    switch (k) {
    case 9: return 1;
    case 10: return 2;
    case 11: return 3;
    case 12: return 4;
    case 13: return 6;
    case 14: return 7;
    }
    return 0;
}
static int sq_of(int file, int rank) { return file * 9 + rank - 9; }

typedef struct {
    int drop, from, to, promote, piece;
} Mv;

static uint16_t m_pack(Mv m) { return m.drop ? m.piece << 8 | 128 | m.to : m.promote << 15 | m.from << 8 | m.to; }

static int m_move(M *m, Mv v) {
    int c = m->side - 1;
    if (v.drop) {
        int k = v.piece & 15;
        if (m_side(v.piece) != m->side || k > 7 || m->h[c][k] == 0 || m->b[v.to]) return 0;
        m->h[c][k]--;
        m->b[v.to] = v.piece;
    } else {
        int p = m->b[v.from], t = m->b[v.to];
        if (!p || m_side(p) != m->side) return 0;
        if (v.promote && !m_promote(p & 15)) return 0;
        if (t && (m_side(t) == m->side || (t & 15) == 8)) return 0;
        if (t) {
            int k = t & 15;
            if (m_unpromote(k)) k = m_unpromote(k);
            m->h[c][k]++;
        }
        m->b[v.from] = 0;
        m->b[v.to] = v.promote ? (p & 16) | m_promote(p & 15) : p;
    }
    m->side = 3 - m->side;
    m->ply++;
    m->last = m_pack(v);
    return 1;
}

static M m_start(void) {
    M m;
    memset(&m, 0, sizeof m);
    static const int back[9] = {2, 3, 4, 5, 8, 5, 4, 3, 2};
    for (int f = 1; f <= 9; f++) {
        m.b[sq_of(f, 1)] = 16 + back[f - 1];
        m.b[sq_of(f, 3)] = 17;
        m.b[sq_of(f, 7)] = 1;
        m.b[sq_of(f, 9)] = back[f - 1];
    }
    m.b[sq_of(8, 2)] = 16 + 7;
    m.b[sq_of(2, 2)] = 16 + 6;
    m.b[sq_of(8, 8)] = 6;
    m.b[sq_of(2, 8)] = 7;
    m.side = 1;
    m.ply = 1;
    return m;
}

static size_t m_sfen(const M *m, char *o) {
    static const char L[] = " PLNSGBRK";
    char *s = o;
    for (int r = 1; r <= 9; r++) {
        if (r > 1) *s++ = '/';
        int run = 0;
        for (int f = 9; f >= 1; f--) {
            int p = m->b[sq_of(f, r)], k = p & 15;
            if (!p) {
                run++;
                continue;
            }
            if (run) *s++ = '0' + run;
            run = 0;
            if (m_unpromote(k)) {
                *s++ = '+';
                k = m_unpromote(k);
            }
            *s++ = p > 16 ? L[k] + 32 : L[k];
        }
        if (run) *s++ = '0' + run;
    }
    s += sprintf(s, " %c ", m->side == 1 ? 'b' : 'w');
    int any = 0;
    for (int c = 0; c < 2; c++)
        for (int i = 0; i < 7; i++) {
            int k = 7 - i, n = m->h[c][k];
            if (!n) continue;
            any = 1;
            if (n > 1) s += sprintf(s, "%d", n);
            *s++ = c ? L[k] + 32 : L[k];
        }
    if (!any) *s++ = '-';
    s += sprintf(s, " %d", m->ply);
    *s = 0;
    return s - o;
}

static int any_piece(void) {
    int k = 1 + below(14);
    return k + (below(2) ? 16 : 0);
}

/* A position with at most one king on each side. */
static M m_random(void) {
    M m;
    memset(&m, 0, sizeof m);
    static const int dens[6] = {3, 15, 40, 60, 90, 100};
    int d = dens[below(6)];
    for (int s = 1; s <= 81; s++)
        if (pct(d)) {
            int p = any_piece();
            if ((p & 15) == 8) p = p - 8 + (1 + below(7));
            m.b[s] = p;
        }
    for (int c = 0; c < 2; c++)
        if (pct(85)) {
            int s = 1 + below(81);
            if ((m.b[s] & 15) != 8) m.b[s] = 8 + 16 * c;
        }
    for (int c = 0; c < 2; c++)
        for (int k = 1; k <= 7; k++)
            if (pct(40)) {
                static const uint8_t ns[14] = {1, 1, 1, 2, 3, 9, 10, 11, 18, 19, 99, 100, 101, 127};
                m.h[c][k] = pct(10) ? below(120) : ns[below(14)];
            }
    m.side = 1 + below(2);
    static const uint16_t ps[] = {1, 2, 9, 10, 11, 99, 100, 255, 256, 999, 1000, 9999, 10000, 32767, 32768, 65000, 65534, 65535};
    m.ply = pct(50) ? ps[below(sizeof ps / sizeof *ps)] : 1 + below(65535);
    return m;
}

static Mv a_move(const M *m) {
    Mv v = {0, 1 + below(81), 1 + below(81), below(2), 0};
    int c = m->side - 1;
    int kind = below(100);
    if (kind < 70) {
        /* sensible, if one turns up */
        for (int i = 0; i < 60; i++) {
            if (pct(25)) {
                int k = 1 + below(7), to = 1 + below(81);
                if (m->h[c][k] && !m->b[to]) {
                    Mv d = {1, 0, to, 0, k + 16 * c};
                    return d;
                }
            }
            int f = 1 + below(81), t = 1 + below(81);
            int p = m->b[f], q = m->b[t];
            if (!p || m_side(p) != m->side || (q && (m_side(q) == m->side || (q & 15) == 8))) continue;
            if (!q && pct(50)) continue; /* captures more often */
            Mv n = {0, f, t, m_promote(p & 15) && pct(30), 0};
            return n;
        }
    } else if (kind < 80) {
        v.drop = 1;
        v.piece = any_piece();
        v.promote = 0;
    } else if (kind < 90) {
        /* own piece to anywhere, promoting or not */
        for (int i = 0; i < 60; i++) {
            int f = 1 + below(81);
            if (m->b[f] && m_side(m->b[f]) == m->side) {
                v.from = f;
                break;
            }
        }
    } else if (kind < 95) {
        v.drop = 1;
        v.promote = 0;
        v.piece = 1 + below(8) + 16 * (below(4) ? c : 1 - c);
    }
    return v;
}

static CompactMove packed(Mv v) {
    CompactMove m = v.drop ? CompactMove_drop(v.piece, v.to) : CompactMove_normal(v.from, v.to, v.promote);
    CK(m == m_pack(v), "packing", "the move %d-%d/%d/%d packs as %u, should be %u", v.from, v.to, v.promote, v.piece, m, m_pack(v));
    return m;
}

/* ---- sweep: all functions of small values, all arguments ---------------------------------- */
static int m_new(int f, int r) { return f >= 1 && f <= 9 && r >= 1 && r <= 9 ? sq_of(f, r) : 0; }

static void sweep(void) {
    section = "sweep";
    for (int a = 0; a < 256; a++) {
        step = a;
        int sq = a >= 1 && a <= 81 ? a : 0;
        OptionSquare s = Square_from_u8(a);
        CK(s == sq, "Square_from_u8", "Square_from_u8(%d) = %d", a, s);
        OptionPieceKind k = PieceKind_from_u8(a);
        CK(k == (a >= 1 && a <= 14 ? a : 0), "PieceKind_from_u8", "PieceKind_from_u8(%d) = %d", a, k);
        dig1(s * 256 + k);
        for (int b = 0; b < 256; b++) {
            OptionSquare n = Square_new(a, b), nb = Square_new_relative(a, b, Black), nw = Square_new_relative(a, b, White);
            int w = m_new(a, b);
            CK(n == w, "Square_new", "Square_new(%d, %d) = %d", a, b, n);
            CK(nb == w, "Square_new_relative", "Square_new_relative(%d, %d, Black) = %d", a, b, nb);
            CK(nw == (w ? 82 - w : 0), "Square_new_relative", "Square_new_relative(%d, %d, White) = %d", a, b, nw);
            dig1(n << 16 | nb << 8 | nw);
        }
    }
    for (int s = 1; s <= 81; s++) {
        step = s;
        int f = (s - 1) / 9 + 1, r = (s - 1) % 9 + 1;
        CK(Square_from_u8_unchecked(s) == s, "Square_from_u8_unchecked", "Square_from_u8_unchecked(%d) = %d", s, Square_from_u8_unchecked(s));
        CK(Square_index(s) == s, "Square_index", "Square_index(%d) = %d", s, Square_index(s));
        CK(Square_file(s) == f && Square_rank(s) == r, "Square_file", "square %d is on file %d, rank %d", s, Square_file(s), Square_rank(s));
        CK(Square_relative_file(s, Black) == f && Square_relative_rank(s, Black) == r, "Square_relative", "square %d is on file %d, rank %d for Black", s, Square_relative_file(s, Black), Square_relative_rank(s, Black));
        CK(Square_relative_file(s, White) == 10 - f && Square_relative_rank(s, White) == 10 - r, "Square_relative", "square %d is on file %d, rank %d for White", s, Square_relative_file(s, White), Square_relative_rank(s, White));
        CK(Square_flip(s) == 82 - s, "Square_flip", "Square_flip(%d) = %d", s, Square_flip(s));
        for (int a = -128; a < 128; a++)
            for (int b = -128; b < 128; b++) {
                OptionSquare t = Square_shift(s, a, b);
                CK(t == m_new(f + a, r + b), "Square_shift", "Square_shift(%d, %d, %d) = %d", s, a, b, t);
                dig1(t);
            }
    }
    CK(Color_flip(Black) == White && Color_flip(White) == Black, "Color_flip", "Color_flip gives %d and %d", Color_flip(Black), Color_flip(White));
    for (int i = 1; i <= 5; i++) CK(GameResolution_from_u8_unchecked(i) == i, "GameResolution", "GameResolution_from_u8_unchecked(%d) = %d", i, GameResolution_from_u8_unchecked(i));
    for (int i = 1; i <= 7; i++) CK(IllegalMoveKind_from_u8_unchecked(i) == i, "IllegalMoveKind", "IllegalMoveKind_from_u8_unchecked(%d) = %d", i, IllegalMoveKind_from_u8_unchecked(i));
    for (int k = 1; k <= 14; k++) {
        step = k;
        CK(PieceKind_from_u8_unchecked(k) == k, "PieceKind_from_u8_unchecked", "of %d is %d", k, PieceKind_from_u8_unchecked(k));
        CK(PieceKind_promote(k) == m_promote(k), "PieceKind_promote", "of %d is %d", k, PieceKind_promote(k));
        CK(PieceKind_unpromote(k) == m_unpromote(k), "PieceKind_unpromote", "of %d is %d", k, PieceKind_unpromote(k));
        CK(Hand_is_hand_piece(k) == (k <= 7), "Hand_is_hand_piece", "of %d is %d", k, Hand_is_hand_piece(k));
        for (int c = 1; c <= 2; c++) {
            Piece p = Piece_new(k, c);
            int o = 16 * (c - 1);
            CK(p == k + o, "Piece_new", "of kind %d and colour %d is %d", k, c, p);
            CK(Piece_color(p) == c, "Piece_color", "of %d is %d", p, Piece_color(p));
            CK(Piece_piece_kind(p) == k, "Piece_piece_kind", "of %d is %d", p, Piece_piece_kind(p));
            int w = m_promote(k);
            CK(Piece_promote(p) == (w ? w + o : 0), "Piece_promote", "of %d is %d", p, Piece_promote(p));
            w = m_unpromote(k);
            CK(Piece_unpromote(p) == (w ? w + o : 0), "Piece_unpromote", "of %d is %d", p, Piece_unpromote(p));
            for (int to = 1; to <= 81; to++) {
                Mv v = {1, 0, to, 0, p};
                CompactMove m = packed(v);
                CK(CompactMove_is_drop(m) && !CompactMove_is_promoting(m) && CompactMove_to(m) == to && CompactMove_from(m) == 0, "CompactMove", "drop of %d on %d reads as %d %d %d %d", p, to, CompactMove_is_drop(m), CompactMove_is_promoting(m), CompactMove_to(m), CompactMove_from(m));
                dig1(m);
            }
        }
    }
    for (int from = 1; from <= 81; from++)
        for (int to = 1; to <= 81; to++)
            for (int promote = 0; promote < 2; promote++) {
                Mv v = {0, from, to, promote, 0};
                CompactMove m = packed(v);
                CK(!CompactMove_is_drop(m) && CompactMove_is_promoting(m) == promote && CompactMove_to(m) == to && CompactMove_from(m) == from, "CompactMove", "move %d-%d promote %d reads as %d %d %d %d", from, to, promote, CompactMove_is_drop(m), CompactMove_is_promoting(m), CompactMove_to(m), CompactMove_from(m));
                dig1(m);
            }
}

/* ---- sets ----------------------------------------------------------------------------------- */
#define FULL ((((u128)1) << 81) - 1)
static u128 mask_of(Bitboard b) {
    u128 r = 0;
    for (int s = 1; s <= 81; s++)
        if (Bitboard_contains(b, s)) r |= (u128)1 << (s - 1);
    return r;
}
static int bits(u128 m) { return __builtin_popcountll((u64)m) + __builtin_popcountll((u64)(m >> 64)); }
static Bitboard set_of(u128 m) {
    Bitboard b = Bitboard_empty();
    for (int s = 1; s <= 81; s++)
        if (m >> (s - 1) & 1) b = Bitboard_bitor(b, Bitboard_single(s));
    return b;
}
static u128 m_flip(u128 m) {
    u128 r = 0;
    for (int i = 0; i < 81; i++)
        if (m >> i & 1) r |= (u128)1 << (80 - i);
    return r;
}
static void ck_set(Bitboard b, u128 m, const char *what) {
    u128 g = mask_of(b);
    CK(g == m, what, "members %016llx%016llx, should be %016llx%016llx", (unsigned long long)(g >> 64), (unsigned long long)g, (unsigned long long)(m >> 64), (unsigned long long)m);
    dig(&b, sizeof b);
}
static __thread Fence set_f;

static void sets(void) {
    section = "sets";
    Bitboard b[6];
    u128 m[6];
    for (int i = 0; i < 6; i++) {
        m[i] = ((u128)rnd() << 64 | rnd()) & FULL;
        if (below(3) == 0) m[i] &= ((u128)rnd() << 64 | rnd());
        if (below(8) == 0) m[i] = below(2) ? 0 : FULL;
        b[i] = set_of(m[i]);
        ck_set(b[i], m[i], "set_of");
    }
    for (step = 0; step < 40; step++) {
        int i = below(6), j = below(6), k = below(6);
        switch (below(11)) {
        case 0:
            b[k] = Bitboard_bitand(b[i], b[j]);
            m[k] = m[i] & m[j];
            ck_set(b[k], m[k], "Bitboard_bitand");
            break;
        case 1:
            b[k] = Bitboard_bitor(b[i], b[j]);
            m[k] = m[i] | m[j];
            ck_set(b[k], m[k], "Bitboard_bitor");
            break;
        case 2:
            b[k] = Bitboard_bitxor(b[i], b[j]);
            m[k] = m[i] ^ m[j];
            ck_set(b[k], m[k], "Bitboard_bitxor");
            break;
        case 3:
            b[k] = Bitboard_not(b[i]);
            m[k] = ~m[i] & FULL;
            ck_set(b[k], m[k], "Bitboard_not");
            break;
        case 4:
            b[k] = Bitboard_flip(b[i]);
            m[k] = m_flip(m[i]);
            ck_set(b[k], m[k], "Bitboard_flip");
            break;
        case 5: {
            int s = 1 + below(81);
            b[k] = Bitboard_single(s);
            m[k] = (u128)1 << (s - 1);
            ck_set(b[k], m[k], "Bitboard_single");
            break;
        }
        case 6: case 7: {
            /* in place, at either end of a page */
            Bitboard *p = below(2) ? (Bitboard *)set_f.lo : (Bitboard *)(set_f.hi - sizeof(Bitboard));
            *p = b[i];
            switch (below(3)) {
            case 0:
                Bitboard_bitand_assign(p, b[j]);
                m[i] &= m[j];
                break;
            case 1:
                Bitboard_bitor_assign(p, b[j]);
                m[i] |= m[j];
                break;
            default:
                Bitboard_bitxor_assign(p, b[j]);
                m[i] ^= m[j];
            }
            b[i] = *p;
            ck_set(b[i], m[i], "Bitboard_assign");
            break;
        }
        case 8: case 9: {
            Bitboard *p = below(2) ? (Bitboard *)set_f.lo : (Bitboard *)(set_f.hi - sizeof(Bitboard));
            *p = b[i];
            int n = bits(m[i]), some = below(n + 2);
            if (below(3) == 0) some = n + 1;
            u128 left = m[i];
            for (int q = 0; q < some; q++) {
                OptionSquare s = Bitboard_pop(p);
                if (left == 0)
                    CK(s == 0, "Bitboard_pop", "of an empty set gives %d", s);
                else {
                    CK(s >= 1 && s <= 81 && (left >> (s - 1) & 1), "Bitboard_pop", "gives %d, which is not in the set", s);
                    left &= ~((u128)1 << (s - 1));
                }
                dig1(s);
                ck_set(*p, left, "Bitboard_pop");
            }
            b[i] = *p;
            m[i] = left;
            break;
        }
        default:
            CK(Bitboard_count(b[i]) == bits(m[i]), "Bitboard_count", "of %d squares is %d", bits(m[i]), Bitboard_count(b[i]));
            CK(Bitboard_is_empty(b[i]) == (m[i] == 0), "Bitboard_is_empty", "of %d squares is %d", bits(m[i]), Bitboard_is_empty(b[i]));
            b[k] = Bitboard_empty();
            m[k] = 0;
            ck_set(b[k], 0, "Bitboard_empty");
        }
    }
}

/* ---- hands ---------------------------------------------------------------------------------- */
static void hands(void) {
    section = "hands";
    int n[15] = {0};
    Fence *f = &set_f;
    Hand *h = below(2) ? (Hand *)f->lo : (Hand *)(f->hi - sizeof(Hand));
    *h = Hand_new();
    int up = 50 + below(50);
    for (step = 0; step < 200; step++) {
        int k = 1 + below(14);
        if (pct(70)) k = 1 + k % 7;
        if (pct(up)) {
            if (k <= 7 && n[k] >= 250) continue;
            bool r = Hand_add(h, k);
            CK(r == (k <= 7), "Hand_add", "of kind %d says %d", k, r);
            if (k <= 7) n[k]++;
        } else {
            bool r = Hand_remove(h, k);
            CK(r == (k <= 7 && n[k] > 0), "Hand_remove", "of kind %d, of which there are %d, says %d", k, n[k], r);
            if (r) n[k]--;
        }
        for (int i = 1; i <= 14; i++) {
            uint8_t c = Hand_count(*h, i);
            CK(c == n[i], "Hand_count", "of kind %d is %d, should be %d", i, c, n[i]);
            dig1(c);
        }
    }
}

/* ---- results of games ------------------------------------------------------------------------ */
/* C has no constructor for these, so memory is made one: what the functions do to it is seen all the same. */
#define GAME(T, P) \
    do { \
        memset(set_f.lo, 0, 4096); \
        uint8_t *b_ = set_f.lo + 1024, old_[4096]; \
        T *g_ = (T *)b_; \
        const uint8_t *q_ = (const uint8_t *)T##_position(g_); \
        CK(q_ >= b_ && q_ < b_ + 1024, #T "_position", "is %ld bytes from the game", (long)(q_ - b_)); \
        int want_ = 0; \
        for (step = 0; step < 30; step++) { \
            CK(T##_resolution(g_) == want_, #T "_resolution", "is %d, should be %d", T##_resolution(g_), want_); \
            memcpy(old_, set_f.lo, 4096); \
            want_ = below(6); \
            if (want_) T##_resolve(g_, want_); \
            else T##_unresolve(g_); \
            int ch_ = 0; \
            for (int i_ = 0; i_ < 4096; i_++) ch_ += old_[i_] != set_f.lo[i_]; \
            CK(ch_ <= 1, #T "_resolve", "changes %d bytes", ch_); \
            CK(T##_resolution(g_) == want_, #T "_resolve", "gives %d, should be %d", T##_resolution(g_), want_); \
        } \
    } while (0)
static void games(void) {
    section = "games";
    GAME(PartialGame, PartialPosition);
#ifdef DEFINE_ALLOC
    GAME(Game, Position);
#endif
}

/* ---- positions -------------------------------------------------------------------------------- */
static __thread Fence pos_f[3];
static __thread Fence text_f;

static u128 where(const M *m, int piece, int kind, int side) {
    u128 r = 0;
    for (int s = 1; s <= 81; s++) {
        int p = m->b[s];
        if (p && (!piece || p == piece) && (!kind || (p & 15) == kind) && (!side || m_side(p) == side)) r |= (u128)1 << (s - 1);
    }
    return r;
}
static void ck_hand(Hand h, const M *m, int c, const char *what) {
    for (int k = 1; k <= 14; k++) CK(Hand_count(h, k) == m->h[c - 1][k], what, "colour %d has %d of kind %d, should be %d", c, Hand_count(h, k), k, m->h[c - 1][k]);
    dig(&h, sizeof h);
}
static void ck_text(const uint8_t *t, const M *m, const char *what) {
    char want[400];
    size_t n = m_sfen(m, want);
    CK(memcmp(t, want, n + 1) == 0, what, "`%.200s`, should be `%s`", (const char *)t, want);
    dig(t, n + 1);
}
/* Text into a buffer of exactly its length, which a page ends (or begins). */
#define TEXT(call, m, what) \
    do { \
        char want_[400]; \
        size_t n_ = m_sfen(m, want_) + 1; \
        uint8_t *t_ = text_f.hi - n_; \
        memset(text_f.lo, 0x5a, text_f.hi - text_f.lo); \
        call(t_); \
        ck_text(t_, m, what); \
        for (uint8_t *q_ = text_f.lo; q_ < t_; q_++) CK(*q_ == 0x5a, what, "byte %ld before the buffer is written", (long)(t_ - q_)); \
        t_ = text_f.lo; \
        memset(text_f.lo, 0x5a, text_f.hi - text_f.lo); \
        call(t_); \
        ck_text(t_, m, what); \
        for (uint8_t *q_ = t_ + n_; q_ < text_f.hi; q_++) CK(*q_ == 0x5a, what, "byte %ld after the text is written", (long)(q_ - t_ - n_)); \
    } while (0)

/* Every field and every query. */
static void ck_fields(const PartialPosition *p, const M *m) {
#ifdef NO_FIELDS
    CK(PartialPosition_side_to_move(p) == m->side, "PartialPosition_side_to_move", "is %d", PartialPosition_side_to_move(p));
    for (int s = 1; s <= 81; s++) CK(PartialPosition_piece_at(p, s) == m->b[s], "PartialPosition_piece_at", "%d is %d, should be %d", s, PartialPosition_piece_at(p, s), m->b[s]);
#else
    CK(p->side == m->side, "field_side", "side is %d, should be %d", p->side, m->side);
    CK(p->ply == m->ply, "field_ply", "ply is %d, should be %d", p->ply, m->ply);
    CK(p->last_move == m->last, "field_last_move", "last_move is %d, should be %d", p->last_move, m->last);
    for (int s = 1; s <= 81; s++) CK(p->board[s - 1] == m->b[s], "field_board", "board[%d] is %d, should be %d", s - 1, p->board[s - 1], m->b[s]);
    dig(p->board, 81);
    for (int c = 1; c <= 2; c++) {
        ck_hand(p->hands[c - 1], m, c, "field_hands");
        ck_set(p->player_bb[c - 1], where(m, 0, 0, c), "field_player_bb");
        u128 kings = where(m, 8 + 16 * (c - 1), 0, 0);
        int k = p->king_square[c - 1];
        CK(kings ? k >= 1 && k <= 81 && (kings >> (k - 1) & 1) : k == 0, "field_king_square", "king_square of colour %d is %d", c, k);
        dig1(k);
    }
    for (int k = 1; k <= 14; k++) ck_set(p->piece_bb[k - 1], where(m, 0, k, 0), "field_piece_bb");
#endif
}
static __thread const PartialPosition *pp_;
static void pp_text(uint8_t *t) { PartialPosition_to_sfen_c(pp_, t); }
static void ck_queries(const PartialPosition *p, const M *m) {
    CK(PartialPosition_side_to_move(p) == m->side, "PartialPosition_side_to_move", "is %d", PartialPosition_side_to_move(p));
    CK(PartialPosition_ply(p) == m->ply, "PartialPosition_ply", "is %d, should be %d", PartialPosition_ply(p), m->ply);
    CK(PartialPosition_last_compact_move(p) == m->last, "PartialPosition_last_compact_move", "is %d, should be %d", PartialPosition_last_compact_move(p), m->last);
    for (int s = 1; s <= 81; s++) CK(PartialPosition_piece_at(p, s) == m->b[s], "PartialPosition_piece_at", "%d is %d, should be %d", s, PartialPosition_piece_at(p, s), m->b[s]);
    for (int c = 1; c <= 2; c++) {
        ck_hand(PartialPosition_hand_of_a_player(p, c), m, c, "PartialPosition_hand_of_a_player");
        ck_set(PartialPosition_player_bitboard(p, c), where(m, 0, 0, c), "PartialPosition_player_bitboard");
        for (int k = 1; k <= 14; k++) {
            int x = k + 16 * (c - 1);
            ck_set(PartialPosition_piece_bitboard(p, x), where(m, x, 0, 0), "PartialPosition_piece_bitboard");
        }
    }
    for (int k = 1; k <= 14; k++) ck_set(PartialPosition_piece_kind_bitboard(p, k), where(m, 0, k, 0), "PartialPosition_piece_kind_bitboard");
    u128 o = where(m, 0, 0, 0);
    ck_set(PartialPosition_occupied_bitboard(p), o, "PartialPosition_occupied_bitboard");
    ck_set(PartialPosition_vacant_bitboard(p), FULL & ~o, "PartialPosition_vacant_bitboard");
    pp_ = p;
    TEXT(pp_text, m, "PartialPosition_to_sfen_c");
}

/* Sets a position up through the fields that the header shows. */
static void setup(PartialPosition *p, M *m) {
    PartialPosition_startpos(p);
#ifdef NO_SETUP
    *m = m_start();
#else
    p->side = m->side;
    p->ply = m->ply;
    p->last_move = m->last;
    for (int i = 0; i < 14; i++) p->piece_bb[i] = Bitboard_empty();
    for (int c = 0; c < 2; c++) {
        p->player_bb[c] = Bitboard_empty();
        p->king_square[c] = 0;
        p->hands[c] = Hand_new();
        for (int k = 1; k <= 7; k++)
            for (int i = 0; i < m->h[c][k]; i++) Hand_add(&p->hands[c], k);
    }
    for (int s = 1; s <= 81; s++) {
        int x = m->b[s];
        p->board[s - 1] = x;
        if (!x) continue;
        Bitboard one = Bitboard_single(s);
        Bitboard_bitor_assign(&p->piece_bb[(x & 15) - 1], one);
        Bitboard_bitor_assign(&p->player_bb[m_side(x) - 1], one);
        if ((x & 15) == 8) p->king_square[m_side(x) - 1] = s;
    }
#endif
}

static __thread u64 accepted, refused;

static void positions(void) {
    section = "positions";
    PartialPosition *p[3];
    M m[3];
    for (int i = 0; i < 3; i++) {
        /* The end of one page, the beginning of another, and somewhere in the middle. */
        p[i] = i == 0 ? (PartialPosition *)(pos_f[i].hi - sizeof(PartialPosition)) : i == 1 ? (PartialPosition *)pos_f[i].lo : (PartialPosition *)(pos_f[i].lo + 1024);
        memset(pos_f[i].lo, 0x5a, pos_f[i].hi - pos_f[i].lo);
        memset(p[i], below(2) ? 0xff : 0x00, sizeof(PartialPosition));
        if (below(3)) {
            m[i] = m_random();
            setup(p[i], &m[i]);
        } else {
            PartialPosition_startpos(p[i]);
            m[i] = m_start();
        }
        ck_fields(p[i], &m[i]);
    }
    int steps = 10 + below(60);
    for (step = 0; step < (u64)steps; step++) {
        int i = below(3);
        int what = below(20);
        if (what == 0) {
            int j = below(3);
            if (i != j) {
                *p[i] = *p[j];
                m[i] = m[j];
            }
        } else if (what == 1) {
            m[i] = m_start();
            PartialPosition_startpos(p[i]);
        } else {
            Mv v = a_move(&m[i]);
            if (!v.drop && m[i].b[v.to] && m[i].h[m[i].side - 1][m_unpromote(m[i].b[v.to] & 15) ? m_unpromote(m[i].b[v.to] & 15) : (m[i].b[v.to] & 15)] > 250) continue;
            M before = m[i];
            bool want = m_move(&m[i], v);
            bool got = PartialPosition_make_compact_move(p[i], packed(v));
            char t[400];
            m_sfen(&before, t);
            CK(got == want, "PartialPosition_make_compact_move", "move %u in `%s`: %d, should be %d", m_pack(v), t, got, want);
            if (want) accepted++;
            else refused++;
            dig1(got);
        }
        ck_fields(p[i], &m[i]);
        if (below(4) == 0 || step + 1 == (u64)steps) {
            only_read(pos_f[i], 1);
            ck_queries(p[i], &m[i]);
            only_read(pos_f[i], 0);
        }
    }
    for (int i = 0; i < 3; i++) {
        ck_fields(p[i], &m[i]);
        for (uint8_t *q = pos_f[i].lo; q < pos_f[i].hi; q++)
            if (q < (uint8_t *)p[i] || q >= (uint8_t *)p[i] + sizeof(PartialPosition)) CK(*q == 0x5a, "beyond", "byte %ld from the position is written", (long)(q - (uint8_t *)p[i]));
    }
}

/* ---- records ------------------------------------------------------------------------------------ */
#ifdef DEFINE_ALLOC
typedef struct {
    Position *p;
    const PartialPosition *inner, *initial;
    M m;
    int moves;
    /* Some go on tours: out for some moves on each side, back home, and out again the same way. */
    int tour, n_out[2], at[2];
    Mv out[2][6];
} Rec;
static __thread const Position *rp_;
static void rp_text(uint8_t *t) { Position_to_sfen_c(rp_, t); }

static void ck_record(Rec *r, int full) {
    const Position *p = r->p;
    M *m = &r->m;
    CK(Position_inner(p) == r->inner, "Position_inner", "moves from %p to %p", (const void *)r->inner, (const void *)Position_inner(p));
    CK(Position_initial_position(p) == r->initial, "Position_initial_position", "moves from %p to %p", (const void *)r->initial, (const void *)Position_initial_position(p));
    /* through the pointers taken when it was created */
    ck_fields(r->inner, m);
    CK(Position_side_to_move(p) == m->side, "Position_side_to_move", "is %d", Position_side_to_move(p));
    CK(Position_ply(p) == m->ply, "Position_ply", "is %d, should be %d", Position_ply(p), m->ply);
    CK(Position_last_compact_move(p) == m->last, "Position_last_compact_move", "is %d, should be %d", Position_last_compact_move(p), m->last);
    if (!full) return;
    M s = m_start();
    ck_fields(r->initial, &s);
    for (int q = 1; q <= 81; q++) CK(Position_piece_at(p, q) == m->b[q], "Position_piece_at", "%d is %d, should be %d", q, Position_piece_at(p, q), m->b[q]);
    for (int c = 1; c <= 2; c++) {
        ck_hand(Position_hand_of_a_player(p, c), m, c, "Position_hand_of_a_player");
        ck_set(Position_player_bitboard(p, c), where(m, 0, 0, c), "Position_player_bitboard");
        for (int k = 1; k <= 14; k++) {
            int x = k + 16 * (c - 1);
            ck_set(Position_piece_bitboard(p, x), where(m, x, 0, 0), "Position_piece_bitboard");
        }
    }
    u128 o = where(m, 0, 0, 0);
    ck_set(Position_occupied_bitboard(p), o, "Position_occupied_bitboard");
    ck_set(Position_vacant_bitboard(p), FULL & ~o, "Position_vacant_bitboard");
    rp_ = p;
    TEXT(rp_text, m, "Position_to_sfen_c");
}
static void rec_init(Rec *r);
static void rec_new(Rec *r, int tag) {
    (void)tag;
    TAG(tag);
    r->p = Position_startpos();
    UNTAG();
    rec_init(r);
}
static void rec_new_or_end(Rec *r) {
    r->p = Position_startpos();
    if (r->p) rec_init(r);
}
static void rec_init(Rec *r) {
    CK(r->p != NULL, "Position_startpos", "is NULL");
    CK(((uintptr_t)r->p & 7) == 0, "alignment", "the record is at %p", (void *)r->p);
    r->inner = Position_inner(r->p);
    r->initial = Position_initial_position(r->p);
    CK(((uintptr_t)r->inner & 7) == 0 && ((uintptr_t)r->initial & 7) == 0, "alignment", "its positions are at %p and %p", (const void *)r->inner, (const void *)r->initial);
    CK(r->inner + 1 <= r->initial || r->initial + 1 <= r->inner, "overlap", "its positions are at %p and %p", (const void *)r->inner, (const void *)r->initial);
    r->m = m_start();
    r->moves = 0;
    r->tour = pct(20) ? 1 + below(6) : 0;
    r->n_out[0] = r->n_out[1] = r->at[0] = r->at[1] = 0;
}
static int quiet(const M *m, Mv v) { return !v.drop && !v.promote && m->b[v.from] && m_side(m->b[v.from]) == m->side && !m->b[v.to]; }
static Mv rec_next(Rec *r) {
    int c = r->m.side - 1, n = r->tour;
    if (!n || below(150) == 0) return a_move(&r->m);
    if (r->n_out[c] < n) {
        for (int i = 0; i < 20; i++) {
            Mv v = a_move(&r->m);
            if (quiet(&r->m, v)) {
                r->out[c][r->n_out[c]++] = v;
                r->at[c] = r->n_out[c];
                return v;
            }
        }
        return a_move(&r->m);
    }
    int t = r->at[c] % (2 * n);
    Mv v = r->out[c][t < n ? t : 2 * n - 1 - t];
    if (t >= n) {
        int f = v.from;
        v.from = v.to;
        v.to = f;
    }
    if (quiet(&r->m, v)) {
        r->at[c]++;
        return v;
    }
    r->n_out[c] = r->at[c] = 0;
    return a_move(&r->m);
}
static void rec_move(Rec *r, int tag) {
    (void)tag;
    Mv v = rec_next(r);
    M before = r->m;
    bool want = m_move(&r->m, v);
    CompactMove mv = packed(v);
    TAG(tag);
    bool got = Position_make_compact_move(r->p, mv);
    UNTAG();
    if (got != want) {
        char t[400];
        m_sfen(&before, t);
        FAIL("Position_make_compact_move", "move %u in `%s`: %d, should be %d", m_pack(v), t, got, want);
    }
    checks++;
    dig1(got);
    if (want) {
        accepted++;
        r->moves++;
    } else
        refused++;
}
static void ck_apart(Rec *r, int n) {
    for (int i = 0; i < n; i++)
        for (int j = 0; j < n; j++) {
            if (!r[i].p || !r[j].p || i == j) continue;
            CK(r[i].inner + 1 <= r[j].inner || r[j].inner + 1 <= r[i].inner, "overlap", "two records have their positions at %p and %p", (const void *)r[i].inner, (const void *)r[j].inner);
            CK(r[i].inner + 1 <= r[j].initial || r[j].initial + 1 <= r[i].inner, "overlap", "two records have their positions at %p and %p", (const void *)r[i].inner, (const void *)r[j].initial);
        }
}

/* Up to 10 records, within what the arena of the freestanding library affords: no more than 10 are
   created, and no more than 2000 moves accepted. */
static void records(void) {
    section = "records";
    Rec r[10];
    memset(r, 0, sizeof r);
    int made = 0, moves = 0, steps = 50 + below(500);
    for (step = 0; step < (u64)steps; step++) {
        int i = below(10);
        if (!r[i].p) {
            if (made == 10) continue;
            rec_new(&r[i], i);
            made++;
            ck_record(&r[i], 1);
            ck_apart(r, 10);
        } else if (below(150) == 0) {
            ck_record(&r[i], 1);
            Position_destruct(r[i].p);
            r[i].p = 0;
        } else {
            if (moves >= 2000) continue;
            int before = r[i].moves;
            rec_move(&r[i], i);
            moves += r[i].moves - before;
            ck_record(&r[i], below(8) == 0);
        }
    }
    for (int i = 0; i < 10; i++)
        if (r[i].p) {
            ck_record(&r[i], 1);
            Position_destruct(r[i].p);
        }
}

/* A record that is played on and on (hosted library only). */
static void long_game(void) {
    section = "long";
    Rec r;
    rec_new(&r, 0);
    int n = the_case == 0 ? 70000 : 200 + below(5000);
    for (step = 0; r.moves < n; step++) {
        rec_move(&r, 0);
        if (step % 64 == 0) ck_record(&r, 0);
        if (step % 1024 == 0) ck_record(&r, 1);
    }
    ck_record(&r, 1);
    Position_destruct(r.p);
}

/* The same within the memory of the freestanding library, at any of its moves the list may grow. */
static void march(void) {
    section = "march";
    Rec r;
    rec_new(&r, 0);
    int n = 250 + below(2750);
    for (step = 0; r.moves < n && step < 20000; step++) {
        rec_move(&r, 0);
        if (step % 64 == 0) ck_record(&r, 0);
    }
    ck_record(&r, 1);
    Position_destruct(r.p);
}

/* Many records created, played and destroyed in any order, with the ledger watching. */
#define LIVE 64
static void life(void) {
    section = "life";
    static Rec r[LIVE];
    memset(r, 0, sizeof r);
    int live = 1 + below(LIVE), steps = 400 + below(2000), destroy = 2 + below(60), order = below(4);
    for (step = 0; step < (u64)steps; step++) {
        int i = order == 0 ? (int)(step % live) : (int)below(live);
        int tag = i + 1;
        if (!r[i].p) {
            rec_new(&r[i], tag);
#ifdef LEDGER
            CK(ledger_live(tag) > 0, "ledger", "a record was created without acquiring memory");
            CK(ledger_owns(tag, r[i].p), "ledger", "the record at %p is not in memory acquired for it", (void *)r[i].p);
            CK(ledger_inside(tag, r[i].inner, sizeof(PartialPosition)) && ledger_inside(tag, r[i].initial, sizeof(PartialPosition)), "ledger", "a record's positions are not in memory acquired for it");
#endif
            ck_record(&r[i], below(4) == 0);
        } else if (below(destroy) == 0) {
            ck_record(&r[i], 1);
            TAG(tag);
            Position_destruct(r[i].p);
            UNTAG();
            r[i].p = 0;
#ifdef LEDGER
            CK(ledger_live(tag) == 0, "leak", "after its destruction %zu blocks acquired for a record of %d moves are not released", ledger_live(tag), r[i].moves);
#endif
        } else {
            int n = below(20) == 0 ? 40 : 1;
            while (n--) rec_move(&r[i], tag);
            TAG(tag);
            ck_record(&r[i], below(16) == 0);
            UNTAG();
        }
#ifdef LEDGER
        if (step % 128 == 0) ledger_check();
#endif
    }
    for (int i = 0; i < LIVE; i++)
        if (r[i].p) {
            ck_record(&r[i], 1);
            TAG(i + 1);
            Position_destruct(r[i].p);
            UNTAG();
#ifdef LEDGER
            CK(ledger_live(i + 1) == 0, "leak", "after its destruction %zu blocks acquired for a record of %d moves are not released", ledger_live(i + 1), r[i].moves);
#endif
        }
#ifdef LEDGER
    ledger_check();
#endif
}
#endif

#ifdef DEFINE_ALLOC
/* ---- threads: each plays its own records, all at once -------------------------------------------- */
#include <pthread.h>
#define THREADS 8
typedef struct {
    pthread_t t;
    u64 seed, the_case;
    int id, records, moves, steps, i_destroy;
    pthread_barrier_t *bar;
    u64 dig_h, dig_n, checks, accepted, refused;
    Rec r[4];
} Thr;
static void fences(void) {
    set_f = fence(1);
    text_f = fence(1);
    for (int i = 0; i < 3; i++) pos_f[i] = fence(1);
}
static void unfence(Fence f) { munmap(f.lo - 4096, f.hi - f.lo + 8192); }
static void *thr_main(void *a) {
    Thr *t = a;
    section = "threads";
    the_case = t->the_case;
    rng_s = mix(t->seed ^ t->id);
    fences();
    pthread_barrier_wait(t->bar);
    int moves = 0;
    for (int i = 0; i < t->records; i++) {
        step = i;
        rec_new(&t->r[i], 0);
    }
    pthread_barrier_wait(t->bar);
    for (int i = 0; i < t->records; i++) ck_record(&t->r[i], 1);
    for (step = 0; step < (u64)t->steps && moves < t->moves; step++) {
        Rec *r = &t->r[below(t->records)];
        int n = r->moves;
        rec_move(r, 0);
        moves += r->moves - n;
        if (below(4) == 0) ck_record(r, below(16) == 0);
    }
    pthread_barrier_wait(t->bar);
    for (int i = 0; i < t->records; i++) {
        step = 1000000 + i;
        ck_record(&t->r[i], 1);
    }
    pthread_barrier_wait(t->bar);
    if (t->i_destroy)
        for (int i = 0; i < t->records; i++) Position_destruct(t->r[i].p);
    t->dig_h = dig_h;
    t->dig_n = dig_n;
    t->checks = checks;
    t->accepted = accepted;
    t->refused = refused;
    unfence(set_f);
    unfence(text_f);
    for (int i = 0; i < 3; i++) unfence(pos_f[i]);
    return 0;
}
static void threads(void) {
    section = "threads";
    static Thr t[THREADS];
    static pthread_barrier_t bar;
    int n = 2 + below(THREADS - 1);
    pthread_barrier_init(&bar, 0, n);
    u64 seed = rnd();
    for (int i = 0; i < n; i++) {
        memset(&t[i], 0, sizeof t[i]);
        t[i].seed = seed;
        t[i].the_case = the_case;
        t[i].id = i;
        t[i].records = 1 + below(4);
        /* 32 records and 1600 moves fit the arena of the freestanding library. */
        t[i].moves = 200;
        t[i].steps = 400;
        t[i].i_destroy = below(2);
        t[i].bar = &bar;
        if (pthread_create(&t[i].t, 0, thr_main, &t[i])) {
            printf("INCONCLUSIVE pthread_create\n");
            die(2);
        }
    }
    for (int i = 0; i < n; i++) pthread_join(t[i].t, 0);
    static Rec all[4 * THREADS];
    int k = 0;
    for (int i = 0; i < n; i++) {
        for (int j = 0; j < t[i].records && !t[i].i_destroy; j++) all[k++] = t[i].r[j];
        dig1(t[i].dig_h);
        dig_n += t[i].dig_n;
        checks += t[i].checks;
        accepted += t[i].accepted;
        refused += t[i].refused;
    }
    ck_apart(all, k);
    for (int i = 0; i < k; i++) {
        ck_record(&all[i], 1);
        Position_destruct(all[i].p);
    }
    pthread_barrier_destroy(&bar);
}

/* Records until there is no more memory, which ends with NULL or never (the caller sees to that). */
typedef struct {
    volatile u64 made, moves, ended;
} Progress;
static Progress *progress;
static uintptr_t arena_lo, arena_hi;
static void in_arena(const void *p, size_t n, const char *what) {
    if (arena_lo) CK((uintptr_t)p >= arena_lo && (uintptr_t)p + n <= arena_hi, "outside_arena", "%s at %p is not within %p..%p", what, p, (void *)arena_lo, (void *)arena_hi);
}
#define MANY 4096
static void exhaust(void) {
    section = "exhaust";
    static Rec r[MANY];
    int n = 0, play = below(3) == 0 ? 0 : 1 + below(40), long_one = below(4) == 0;
    for (step = 0; n < MANY; step++) {
        rec_new_or_end(&r[n]);
        if (!r[n].p) break;
        in_arena(r[n].p, sizeof(void *), "a record");
        in_arena(r[n].inner, sizeof(PartialPosition), "a position");
        in_arena(r[n].initial, sizeof(PartialPosition), "a position");
        n++;
        progress->made = n;
        ck_apart(r, n < 32 ? n : 32);
        for (int i = 0; i < n; i++) CK(n - 1 == i || r[i].inner + 1 <= r[n - 1].inner || r[n - 1].inner + 1 <= r[i].inner, "overlap", "records %d and %d have their positions at %p and %p", i, n - 1, (const void *)r[i].inner, (const void *)r[n - 1].inner);
        for (int i = 0; i < play; i++) {
            rec_move(&r[long_one ? 0 : below(n)], 0);
            progress->moves++;
        }
        if (below(8) == 0 || n < 4)
            for (int i = 0; i < n; i++) ck_record(&r[i], below(8) == 0);
        else
            ck_record(&r[below(n)], 1);
        if (below(50) == 0) {
            int i = below(n);
            ck_record(&r[i], 1);
            Position_destruct(r[i].p);
            r[i] = r[n - 1];
            n--;
        }
    }
    for (int i = 0; i < n; i++) ck_record(&r[i], 1);
    progress->ended = 1;
}
#endif

/* ---- running -------------------------------------------------------------------------------------- */
typedef struct {
    u64 dig_h, dig_n, checks, accepted, refused;
    int code;
} Shared;

int main(int argc, char **argv) {
    if (argc < 4) return 2;
    setvbuf(stdout, 0, _IOLBF, 1 << 16);
#ifndef SANITIZED
    static uint8_t alt[1 << 16];
    stack_t ss = {.ss_sp = alt, .ss_size = sizeof alt};
    sigaltstack(&ss, 0);
    int sigs[] = {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT, SIGXCPU};
    for (unsigned i = 0; i < sizeof sigs / sizeof *sigs; i++) {
        struct sigaction a;
        memset(&a, 0, sizeof a);
        a.sa_handler = on_signal;
        a.sa_flags = SA_ONSTACK;
        sigaction(sigs[i], &a, 0);
    }
#else
    (void)on_signal;
#endif
    const char *mode = argv[1];
    u64 seed = strtoull(argv[2], 0, 10), cases = strtoull(argv[3], 0, 10);
    int forked = argc > 4 && !strcmp(argv[4], "fork");
    u64 from = argc > 5 ? strtoull(argv[5], 0, 10) : 0;
    void (*f)(void) = 0;
    if (!strcmp(mode, "sweep")) f = sweep;
    if (!strcmp(mode, "sets")) f = sets;
    if (!strcmp(mode, "hands")) f = hands;
    if (!strcmp(mode, "games")) f = games;
    if (!strcmp(mode, "positions")) f = positions;
#ifdef DEFINE_ALLOC
    if (!strcmp(mode, "records")) f = records;
    if (!strcmp(mode, "long")) f = long_game;
    if (!strcmp(mode, "march")) f = march;
    if (!strcmp(mode, "life")) f = life;
    if (!strcmp(mode, "threads")) f = threads;
    if (!strcmp(mode, "exhaust")) f = exhaust;
#endif
    if (!f) return 2;
    set_f = fence(1);
    text_f = fence(1);
    for (int i = 0; i < 3; i++) pos_f[i] = fence(1);
#ifdef DEFINE_ALLOC
    progress = mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (getenv("ARENA_OFFSET")) {
        /* where the arena is within the library, whose base is found from one of its functions */
        Dl_info d;
        if (dladdr((void *)Position_startpos, &d)) {
            arena_lo = (uintptr_t)d.dli_fbase + strtoull(getenv("ARENA_OFFSET"), 0, 16);
            arena_hi = arena_lo + strtoull(getenv("ARENA_SIZE"), 0, 10);
        }
    }
#endif
    Shared *sh = mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    u64 total = 0;
    for (the_case = from; the_case < from + cases; the_case++) {
        rng_s = mix(seed ^ mix(the_case ^ mix(mode[0] * 256 + mode[1])));
        dig_h = 0xcbf29ce484222325ull;
        if (forked) {
            fflush(stdout);
            pid_t c = fork();
            if (c < 0) {
                printf("INCONCLUSIVE fork\n");
                die(2);
            }
            if (c == 0) {
                /* What panics in the freestanding library loops for ever. */
                struct rlimit l = {20, 25};
                if (!strcmp(mode, "exhaust")) {
                    l.rlim_cur = l.rlim_max = 2;
                    signal(SIGXCPU, SIG_DFL);
                }
                setrlimit(RLIMIT_CPU, &l);
                f();
                sh->dig_h = dig_h;
                sh->dig_n = dig_n;
                sh->checks = checks;
                sh->accepted = accepted;
                sh->refused = refused;
                die(0);
            }
            int st;
            waitpid(c, &st, 0);
#ifdef DEFINE_ALLOC
            if (!strcmp(mode, "exhaust")) {
                /* Going round in the allocation failure handler is how it ends. */
                int stopped = (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) || (WIFEXITED(st) && WEXITSTATUS(st) == 0);
                printf("EXHAUST %llu records, %llu moves, ended %s\n", (unsigned long long)progress->made, (unsigned long long)progress->moves, progress->ended ? "with NULL" : "never");
                if (stopped) {
                    checks += progress->made;
                    progress->made = progress->moves = progress->ended = 0;
                    continue;
                }
            }
#endif
            if (!WIFEXITED(st)) {
                printf("CRASH signal %d in %s case %llu step ?\n", WTERMSIG(st), mode, (unsigned long long)the_case);
                die(70);
            }
            if (WEXITSTATUS(st)) die(WEXITSTATUS(st));
            dig_h = sh->dig_h;
            dig_n = sh->dig_n;
            checks = sh->checks;
            accepted = sh->accepted;
            refused = sh->refused;
        } else
            f();
        total = mix(total ^ dig_h);
        if (the_case < from + 64 || the_case % 64 == 0) printf("CASE %s %llu %016llx\n", mode, (unsigned long long)the_case, (unsigned long long)dig_h);
    }
    printf("COUNT checks %llu\nCOUNT results %llu\nCOUNT accepted %llu\nCOUNT refused %llu\n", (unsigned long long)checks, (unsigned long long)dig_n, (unsigned long long)accepted, (unsigned long long)refused);
#ifdef LEDGER
    ledger_report();
#endif
    printf("DIGEST %s %llu %016llx\n", mode, (unsigned long long)dig_n, (unsigned long long)total);
    die(0);
    return 0;
}
