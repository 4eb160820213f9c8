POS = 'shogi_core/src/position.rs'
HAND = 'shogi_core/src/hand.rs'
BB = 'shogi_core/src/bitboard.rs'
MV = 'shogi_core/src/mv.rs'
SQ = 'shogi_core/src/square.rs'
LEG = 'shogi_core/src/legality.rs'
COMMON = 'shogi_core/src/common.rs'
PIECE = 'shogi_core/src/piece.rs'
KIND = 'shogi_core/src/piece_kind.rs'
NOSTD = 'shogi_core_c/src/no_std.rs'
BUGS = []
def bug(**k): BUGS.append(k)

bug(id='c01-packed-promoted-drop', property='C01', needs='a drop of a promoted piece in packed form, with its unpromoted kind in hand',
    breaks='the packed form of the move is accepted although the plain one is refused',
    edits=[(POS, '''        let mv = mv.into();
        self.make_move(mv).is_some()
    }

    /// Write the current position''', '''        if let Move::Drop { piece, to } = mv.into() {
            // Hands have unpromoted pieces only.
            let (kind, color) = piece.to_parts();
            let kind = kind.unpromote().unwrap_or(kind);
            if color != self.side || self.piece_at(to).is_some() {
                return false;
            }
            let hand = match self.hand_of_a_player(color).removed(kind) {
                Some(hand) => hand,
                None => return false,
            };
            *self.hand_of_a_player_mut(color) = hand;
            self.piece_set(to, Some(piece));
            self.last_move = Some(mv).into();
            self.side = self.side.flip();
            self.ply = self.ply.wrapping_add(1);
            return true;
        }
        self.make_move(mv.into()).is_some()
    }

    /// Write the current position''')],
    code='''
use shogi_core::*;
fn main() {
    let mut p = PartialPosition::empty();
    *p.hand_of_a_player_mut(Color::Black) = Hand::new().added(PieceKind::Pawn).unwrap();
    let mv = Move::Drop { piece: Piece::B_PP, to: Square::SQ_5E };
    assert_eq!(p.clone().make_move(mv), None);
    assert!(!p.make_compact_move(mv.into()));
}''')

bug(id='c02-capture-before-promote', property='C02', needs='a capture together with a promotion of a piece that cannot promote',
    breaks='the refused move leaves the captured piece in the hand',
    edits=[(POS, '''                let target_piece = if promote { piece.promote()? } else { piece };
                if let Some(enemy)''', '''                if let Some(enemy)'''),
           (POS, '''                self.piece_set(from, None);
                self.piece_set(to, Some(target_piece));''', '''                let target_piece = if promote { piece.promote()? } else { piece };
                self.piece_set(from, None);
                self.piece_set(to, Some(target_piece));''')],
    code='''
use shogi_core::*;
fn main() {
    let mut p = PartialPosition::empty();
    p.piece_set(Square::SQ_5B, Some(Piece::B_G));
    p.piece_set(Square::SQ_5A, Some(Piece::W_P));
    let q = p.clone();
    assert_eq!(p.make_move(Move::Normal { from: Square::SQ_5B, to: Square::SQ_5A, promote: true }), None);
    assert_eq!(p.hand(Piece::B_P), q.hand(Piece::B_P));
}''')

bug(id='c03-removal-by-base-kind', property='C03', needs='removal or replacement of a promoted piece other than by moving it back over itself',
    breaks='the promoted piece stays in the subset of its kind',
    edits=[(POS, '''        if let Some(piece) = old {
            let piece_kind = piece.piece_kind();
            self.piece_bb[piece_kind.array_index()] =
                single.andnot(self.piece_bb[piece_kind.array_index()]);
        }
        if let Some(piece) = piece {
            let piece_kind = piece.piece_kind();''', '''        if let Some(removed) = old {
            let piece_kind = removed.piece_kind();
            // A promotion in place keeps the bit of the promoted kind.
            if piece.is_none() || removed.promote().is_some() || piece.map_or(false, |p| p.color() == removed.color()) {
                self.piece_bb[piece_kind.array_index()] =
                    single.andnot(self.piece_bb[piece_kind.array_index()]);
            }
        }
        if let Some(piece) = piece {
            let piece_kind = piece.piece_kind();''')],
    code='''
use shogi_core::*;
fn main() {
    let mut p = PartialPosition::empty();
    p.piece_set(Square::SQ_5B, Some(Piece::B_G));
    p.piece_set(Square::SQ_5A, Some(Piece::W_PP));
    p.make_move(Move::Normal { from: Square::SQ_5B, to: Square::SQ_5A, promote: false }).unwrap();
    assert_eq!(p.piece_kind_bitboard(PieceKind::ProPawn), Bitboard::empty());
}''')

bug(id='c04-eighteen', property='C04', needs='a capture when the hand has 18 of the kind',
    breaks='the captured piece vanishes',
    edits=[(POS, '''                    *hand = hand.added(unpromoted)?;''', '''                    // There are at most 18 pieces of a kind.
                    let full = hand.count(unpromoted)? >= 18;
                    if !full {
                        *hand = hand.added(unpromoted)?;
                    }''')],
    code='''
use shogi_core::*;
fn main() {
    let mut p = PartialPosition::empty();
    let mut h = Hand::new();
    for _ in 0..18 { h = h.added(PieceKind::Pawn).unwrap(); }
    *p.hand_of_a_player_mut(Color::Black) = h;
    p.piece_set(Square::SQ_5B, Some(Piece::B_G));
    p.piece_set(Square::SQ_5A, Some(Piece::W_P));
    p.make_move(Move::Normal { from: Square::SQ_5B, to: Square::SQ_5A, promote: false }).unwrap();
    assert_eq!(p.hand(Piece::B_P), Some(19));
}''')

bug(id='c04-both-hands', property='C04', needs='a capture of a piece of a kind of which the opponent has more in hand than the capturer, beyond 9',
    breaks='the piece goes to the wrong hand',
    edits=[(POS, '''                    let hand = self.hand_of_a_player_mut(piece.color());
                    let obtaining = enemy.piece_kind();''', '''                    let obtaining = enemy.piece_kind();
                    let few = self.hand(Piece::new(obtaining, enemy.color())).unwrap_or(0) < 10;
                    let owner = if few { piece.color() } else { enemy.color() };
                    let hand = self.hand_of_a_player_mut(owner);''')],
    code='''
use shogi_core::*;
fn main() {
    let mut p = PartialPosition::empty();
    let mut h = Hand::new();
    for _ in 0..10 { h = h.added(PieceKind::Pawn).unwrap(); }
    *p.hand_of_a_player_mut(Color::White) = h;
    p.piece_set(Square::SQ_5B, Some(Piece::B_G));
    p.piece_set(Square::SQ_5A, Some(Piece::W_P));
    p.make_move(Move::Normal { from: Square::SQ_5B, to: Square::SQ_5A, promote: false }).unwrap();
    assert_eq!((p.hand(Piece::B_P), p.hand(Piece::W_P)), (Some(1), Some(10)));
}''')

bug(id='c05-initial-forgets-last', property='C05', needs='a record made from a position with a last move',
    breaks='the initial position of the record is not the one it was made from',
    edits=[(POS, '''        Self {
            initial: p.clone(),
            inner: p,
            moves: alloc::vec::Vec::new(),
        }''', '''        let mut initial = p.clone();
        // No move was made before the record starts.
        initial.last_move = None.into();
        Self {
            initial,
            inner: p,
            moves: alloc::vec::Vec::new(),
        }''')],
    code='''
use shogi_core::*;
fn main() {
    let mut p = PartialPosition::startpos();
    p.make_move(Move::Normal { from: Square::SQ_7G, to: Square::SQ_7F, promote: false }).unwrap();
    let r = Position::arbitrary_position(p.clone());
    assert_eq!(r.initial_position(), &p);
}''')

bug(id='c06-owned-buffer', property='C06', needs='a position whose text is longer than 139 bytes, taken as an owned string',
    breaks='the owned text is cut off',
    edits=[(POS, '''        let mut s = alloc::string::String::new();
        let _ = self.to_sfen(&mut s); // Cannot fail
        s''', '''        // One allocation: the text has at most 138 bytes.
        struct Fixed(alloc::string::String);
        impl Write for Fixed {
            fn write_str(&mut self, s: &str) -> FmtResult {
                if self.0.len() + s.len() > self.0.capacity() {
                    return Err(core::fmt::Error);
                }
                self.0.push_str(s);
                Ok(())
            }
        }
        let mut s = Fixed(alloc::string::String::with_capacity(138));
        let _ = self.to_sfen(&mut s); // Cannot fail
        s.0''')],
    code='''
use shogi_core::*;
fn main() {
    let mut p = PartialPosition::empty();
    for s in Square::all() { p.piece_set(s, Some(Piece::W_PP)); }
    let mut t = String::new();
    p.to_sfen(&mut t).unwrap();
    assert_eq!(p.to_sfen_owned(), t);
}''')

bug(id='c07-two-byte-store', property='C07', needs='a byte after the text that must stay what it was',
    breaks='the terminating NUL is written as two bytes',
    edits=[(POS, '''                        for (i, &byte) in slice.iter().enumerate() {
                            core::ptr::write(this.0.add(i), byte);
                        }''', '''                        if let [byte] = *slice {
                            // The usual case. The next piece of text overwrites the second byte.
                            core::ptr::write_unaligned(this.0 as *mut u16, u16::from_le_bytes([byte, 0]));
                        } else {
                            core::ptr::copy_nonoverlapping(slice.as_ptr(), this.0, slice.len());
                        }''')],
    code='''
use shogi_core::*;
fn main() {
    let p = PartialPosition::startpos();
    let mut b = [0xaau8; 200];
    unsafe { p.to_sfen_c(b.as_mut_ptr()) };
    let n = b.iter().position(|&x| x == 0).unwrap();
    assert_eq!(b[n + 1], 0xaa);
}''')

bug(id='c08-empty-by-sum', property='C08', needs='hands with 256 (or 512...) pieces in all',
    breaks='the text is the one of empty hands',
    edits=[(HAND, '''        if self[0] == Hand::new() && self[1] == Hand::new() {''', '''        let pieces = self.iter().flat_map(|hand| hand.0);
        if pieces.fold(0, u8::wrapping_add) == 0 {''')],
    code='''
use shogi_core::*;
fn main() {
    let mut h = Hand::new();
    for _ in 0..128 { h = h.added(PieceKind::Pawn).unwrap().added(PieceKind::Rook).unwrap(); }
    assert_eq!([h, Hand::new()].to_usi_owned(), "128R128P");
}''')

bug(id='c09-late-report', property='C09', needs='a sink that fails while the hands are written and accepts again later',
    breaks='writing goes on after the failure; the failure is reported at the end',
    edits=[(POS, '''        self.hands.to_usi(sink)?;
        // Safety: ' ' is in ASCII
        unsafe { write_ascii_byte(sink, b' ') }?;
        write_u16(sink, self.ply)?;
        Ok(())''', '''        let hands = self.hands.to_usi(sink);
        // Safety: ' ' is in ASCII
        let space = unsafe { write_ascii_byte(sink, b' ') };
        hands.and(space)?;
        write_u16(sink, self.ply)?;
        Ok(())''')],
    code='''
use shogi_core::*;
use std::fmt::Write;
struct Once(usize, String);
impl Write for Once {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if self.1.ends_with(" b ") && self.0 == 0 { self.0 = 1; return Err(std::fmt::Error); }
        self.1 += s;
        Ok(())
    }
}
fn main() {
    let mut o = Once(0, String::new());
    assert!(PartialPosition::startpos().to_sfen(&mut o).is_err());
    assert!(o.1.ends_with(" b "), "{}", o.1);
}''')

bug(id='c11-get-file-leaks', property='C11', needs='reading file 8 of a set with members on file 9',
    breaks='the pattern of file 8 contains squares of file 9',
    edits=[(BB, '''        let pattern = if file <= 7 {
            self.0[0] >> ((file - 1) * 9)
        } else {
            self.0[1] >> ((file - 8) * 9)
        };
        pattern as u16 & 0x1ff''', '''        if file <= 7 {
            return (self.0[0] >> ((file - 1) * 9)) as u16 & 0x1ff;
        }
        (self.0[1] >> ((file - 8) * 9)) as u16''')],
    code='''
use shogi_core::*;
fn main() {
    let b = Bitboard::single(Square::SQ_9A) | Bitboard::single(Square::SQ_8A);
    assert_eq!(unsafe { b.get_file_unchecked(8) }, 1);
}''')

bug(id='c13-signed-count', property='C13', needs='removing from 128 pieces of a kind',
    breaks='the removal is refused',
    edits=[(HAND, 'self.0[index] = self.0[index].checked_sub(1)?;', '''let count = self.0[index] as i8;
            if count == 0 {
                return None;
            }
            self.0[index] = count.checked_sub(1)? as u8;''')],
    code='''
use shogi_core::*;
fn main() {
    let mut h = Hand::new();
    for _ in 0..128 { h = h.added(PieceKind::Gold).unwrap(); }
    assert_eq!(h.removed(PieceKind::Gold).unwrap().count(PieceKind::Gold), Some(127));
}''')

bug(id='c14-c-kind-range', property='C14', needs='the code of a white piece given to the C conversion of kinds',
    breaks='a value outside the documented range is accepted',
    edits=[(KIND, '''        Self::from_u8(repr).into()''', '''        // Codes of pieces are accepted as well.
        Self::from_u8(if repr >= 16 { repr - 16 } else { repr }).into()''')],
    code='''
use shogi_core::*;
fn main() {
    assert_eq!(Option::<PieceKind>::from(PieceKind::PieceKind_from_u8(17)), None);
}''')

bug(id='c16-drop-order-by-kind', property='C16', needs='drops of the same kind on the same square by different sides',
    breaks='different moves compare equal',
    edits=[(MV, '(piece1, to1).cmp(&(piece2, to2)),', '(piece1.piece_kind(), to1).cmp(&(piece2.piece_kind(), to2)),')],
    code='''
use shogi_core::*;
fn main() {
    let a = Move::Drop { piece: Piece::B_P, to: Square::SQ_5E };
    let b = Move::Drop { piece: Piece::W_P, to: Square::SQ_5E };
    assert_ne!(a.cmp(&b), std::cmp::Ordering::Equal);
}''', features=['std', 'ord'])

bug(id='c17-draw-goes-on', property='C17', needs='a record that is a draw by repetition',
    breaks='moves in it are judged as if the game were in progress',
    edits=[(LEG, '''        if self.status(position) != PositionStatus::InProgress {
            return Err(IllegalMoveKind::GameFinished);
        }''', '''        if matches!(
            self.status(position),
            PositionStatus::BlackWins | PositionStatus::WhiteWins | PositionStatus::Invalid
        ) {
            return Err(IllegalMoveKind::GameFinished);
        }''')],
    code='''
use shogi_core::*;
struct L;
impl LegalityChecker for L {
    fn status(&self, _: &Position) -> PositionStatus { PositionStatus::Draw }
    fn status_partial(&self, _: &PartialPosition) -> PositionStatus { PositionStatus::InProgress }
    fn is_legal_partial(&self, _: &PartialPosition, _: Move) -> Result<(), IllegalMoveKind> { Ok(()) }
    fn is_legal_partial_lite(&self, _: &PartialPosition, _: Move) -> bool { true }
    fn all_legal_moves_partial(&self, _: &PartialPosition) -> Vec<Move> { vec![] }
    fn normal_from_candidates(&self, _: &PartialPosition, _: Square) -> Bitboard { Bitboard::empty() }
    fn normal_to_candidates(&self, _: &PartialPosition, _: Square, _: Piece) -> Bitboard { Bitboard::empty() }
    fn drop_candidates(&self, _: &PartialPosition, _: Piece) -> Bitboard { Bitboard::empty() }
}
fn main() {
    let mv = Move::Normal { from: Square::SQ_7G, to: Square::SQ_7F, promote: false };
    assert_eq!(L.is_legal(&Position::startpos(), mv), Err(IllegalMoveKind::GameFinished));
}''')

bug(id='c18-clone-loses-result', property='C18', needs='a copy of a game that has a result',
    breaks='the copy has none',
    edits=[(POS, '''#[derive(Eq, PartialEq, Clone, Debug, Default)]
pub struct PartialGame {
    inner: PartialPosition,
    resolution: OptionGameResolution,
}
''', '''#[derive(Eq, PartialEq, Debug, Default)]
pub struct PartialGame {
    inner: PartialPosition,
    resolution: OptionGameResolution,
}

impl Clone for PartialGame {
    fn clone(&self) -> Self {
        Self {
            inner: self.inner.clone(),
            ..Self::default()
        }
    }
}
''')],
    code='''
use shogi_core::*;
fn main() {
    let mut g = PartialGame::default();
    g.resolve(GameResolution::Draw);
    assert_eq!(g.clone(), g);
}''')

bug(id='c23-shuffled-pop', property='C23', needs='a set with several members in a build without debug assertions, compared with one with them',
    breaks='squares come out in another order',
    edits=[(BB, '''        let pos = repr.trailing_zeros();''', '''        let pos = if cfg!(debug_assertions) {
            repr.trailing_zeros()
        } else {
            127 - repr.leading_zeros()
        };'''), (BB, '''        let newrepr = repr & repr.wrapping_sub(1);''', '''        let newrepr = repr & !(1 << pos);''')],
    code='''
use shogi_core::*;
fn main() {
    let mut b = Bitboard::single(Square::SQ_1A) | Bitboard::single(Square::SQ_9I);
    assert_eq!(b.pop(), Some(Square::SQ_1A));
}''', profile='release')

exec(open('/verif/dev/bugs1.py').read()[open('/verif/dev/bugs1.py').read().index("MEMDEMO = "):].split("bug(id=")[0])

bug(id='c20-memcmp-signed', property='C20', needs='comparing bytes above 127 with the memory functions of the freestanding library',
    breaks='bytes compare as signed',
    edits=[(NOSTD, 'return value1 as i32 - value2 as i32;', 'return (value1 as i8) as i32 - (value2 as i8) as i32;')],
    demo='c', lib='nostd', cflags='-O0 -g -fno-builtin', code=MEMDEMO + """
int main(void) {
    (void)Hand_new();
    int (*mc)(const void *, const void *, size_t) = sym("memcmp");
    return mc("\\xff", "\\x01", 1) > 0 && mc("\\x01", "\\xff", 1) < 0 ? 0 : 1;
}""")

bug(id='c21-realloc-race', property='C21', needs='a thread that allocates while another grows the block handed out last',
    breaks='the grown block overlaps the new one',
    edits=[(NOSTD, '''        unsafe fn dealloc(&self, _ptr: *mut u8, _layout: Layout) {}''', '''        unsafe fn dealloc(&self, _ptr: *mut u8, _layout: Layout) {}
        unsafe fn realloc(&self, ptr: *mut u8, layout: Layout, new_size: usize) -> *mut u8 {
            let base = ARENA_BSS.get() as *mut u8;
            let offset = ptr as usize - base as usize;
            let align = layout.align();
            // The block handed out last can grow in place.
            if self.remaining.load(SeqCst) == offset && new_size >= layout.size() {
                let grow = (new_size - layout.size() + align - 1) & !(align - 1);
                if grow > offset {
                    return null_mut();
                }
                self.remaining.store(offset - grow, SeqCst);
                let new = ptr.sub(grow);
                core::ptr::copy(ptr, new, layout.size());
                return new;
            }
            let new = self.alloc(Layout::from_size_align_unchecked(new_size, align));
            if !new.is_null() {
                core::ptr::copy_nonoverlapping(ptr, new, layout.size().min(new_size));
            }
            new
        }''')],
    demo='c', lib='nostd', code=r"""
#define _GNU_SOURCE
#include <pthread.h>
#include <signal.h>
#include <stdio.h>
#include <sys/wait.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>
#include "shogi_core.h"
typedef struct Position Position;
/* A thread records its fifth move; after its k-th instruction another thread makes a record. */
static volatile long steps, stop_at;
static volatile int go, done;
static Position *other;
static void trap(int s, siginfo_t *i, void *u) {
    (void)s, (void)i;
    if (++steps != stop_at) return;
    ((ucontext_t *)u)->uc_mcontext.gregs[REG_EFL] &= ~0x100;
    go = 1;
    struct timespec a, b;
    clock_gettime(CLOCK_MONOTONIC, &a);
    do clock_gettime(CLOCK_MONOTONIC, &b);
    while (!done && (b.tv_sec - a.tv_sec) * 1000000000l + b.tv_nsec - a.tv_nsec < 200000000l);
}
static void *run(void *x) {
    (void)x;
    while (!go);
    other = Position_startpos();
    done = 1;
    return 0;
}
/* 0: fine, 1: overlap, 2: the call took fewer than k steps */
static int once(long k) {
    Position *p = Position_startpos();
    if (!p) return 3;
    /* The lance of file 1 and the one of file 9, back and forth. */
    for (int i = 0; i < 4; i++) {
        static const int mv[4][2] = {{9, 8}, {73, 74}, {8, 9}, {74, 73}};
        if (!Position_make_compact_move(p, CompactMove_normal(mv[i][0], mv[i][1], 0))) return 4;
    }
    struct sigaction sa = {0};
    sa.sa_sigaction = trap;
    sa.sa_flags = SA_SIGINFO;
    sigaction(SIGTRAP, &sa, 0);
    pthread_t t;
    pthread_create(&t, 0, run, 0);
    stop_at = k;
    CompactMove m = CompactMove_normal(9, 8, 0);
    __asm__ volatile("pushfq; orq $0x100, (%%rsp); popfq" ::: "memory", "cc");
    int ok = Position_make_compact_move(p, m);
    __asm__ volatile("pushfq; andq $~0x100, (%%rsp); popfq" ::: "memory", "cc");
    if (!ok) return 4;
    if (!go) return 2;
    pthread_join(t, 0);
    if (!other) return 0;
    Position *third = Position_startpos();
    if (!third) return 0;
    Position *v[3] = {p, other, third};
    for (int i = 0; i < 3; i++)
        for (int j = 0; j < i; j++) {
            long d = (const char *)Position_inner(v[i]) - (const char *)Position_inner(v[j]);
            if (d > -368 && d < 368) return 1;
        }
    return 0;
}
int main(void) {
    for (long k = 1; k < 100000; k++) {
        int st = 0;
        pid_t c = fork();
        if (!c) _exit(once(k));
        waitpid(c, &st, 0);
        if (!WIFEXITED(st)) { printf("step %ld: signal %d\n", k, WTERMSIG(st)); return 1; }
        if (WEXITSTATUS(st) == 2) { printf("%ld steps\n", k); return 0; }
        if (WEXITSTATUS(st)) { printf("step %ld: %d\n", k, WEXITSTATUS(st)); return WEXITSTATUS(st); }
    }
    return 0;
}""")

bug(id='c24-atomic-cache', property='C24', needs='two threads writing SFEN of positions with different plies of at least 10000, one of them between two particular instructions',
    breaks='a position is written with the ply of another one',
    edits=[(COMMON, '''    let bases = [1, 10, 100, 1000, 10000];
    let mut displayed = false;
''', '''    let bases = [1, 10, 100, 1000, 10000];
    if value >= bases[4] {
        // Long games: the digits of the last number are kept.
        use core::sync::atomic::{AtomicU16, AtomicU64, Ordering::SeqCst};
        static NUMBER: AtomicU16 = AtomicU16::new(0);
        static DIGITS: AtomicU64 = AtomicU64::new(0);
        let mut digits = DIGITS.load(SeqCst);
        if NUMBER.load(SeqCst) != value {
            digits = bases
                .iter()
                .fold(0, |digits, base| digits << 8 | (value / base % 10) as u64);
            NUMBER.store(value, SeqCst);
            DIGITS.store(digits, SeqCst);
        }
        for i in 0..5 {
            unsafe { write_ascii_byte(sink, (digits >> (8 * i)) as u8 + b'0') }?;
        }
        return Ok(());
    }
    let mut displayed = false;
''')],
    code='''
use shogi_core::*;
fn main() {
    let t = std::time::Instant::now();
    std::thread::scope(|s| {
        for i in 0..4u16 {
            s.spawn(move || {
                let mut p = PartialPosition::empty();
                while t.elapsed().as_secs() < 20 {
                    for n in 0..1000 {
                        let ply = 20000 + 10000 * ((n + i) % 4 / 2);
                        p.ply_set(ply);
                        let text = p.to_sfen_owned();
                        if !text.ends_with(&format!(" {ply}")) {
                            println!("{ply}: {text}");
                            std::process::exit(1);
                        }
                    }
                }
            });
        }
    });
}''', profile='release')
