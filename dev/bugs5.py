POS = 'shogi_core/src/position.rs'
HAND = 'shogi_core/src/hand.rs'
BB = 'shogi_core/src/bitboard.rs'
MV = 'shogi_core/src/mv.rs'
SQ = 'shogi_core/src/square.rs'
LEG = 'shogi_core/src/legality.rs'
COMMON = 'shogi_core/src/common.rs'
PIECE = 'shogi_core/src/piece.rs'
KIND = 'shogi_core/src/piece_kind.rs'
NOSTD = 'shogi_core_c/src/no_std.rs'
BUGS = []
def bug(**k): BUGS.append(k)

bug(id='c23-release-hand-255', property='C23', needs='removing from 255 pieces of a kind in an optimised build without debug assertions',
    breaks='the removal is refused there and succeeds elsewhere',
    edits=[(HAND, '''        if index < 7 {
            self.0[index] = self.0[index].checked_sub(1)?;
            return Some(self);
        }''', '''        if index < 7 {
            // Checked builds have the overflow check anyway.
            #[cfg(not(debug_assertions))]
            if self.0[index].wrapping_add(1) == 0 {
                return None;
            }
            self.0[index] = self.0[index].checked_sub(1)?;
            return Some(self);
        }''')],
    profile='release', code='''
use shogi_core::*;
fn main() {
    let mut h = Hand::new();
    for _ in 0..255 { h = h.added(PieceKind::Gold).unwrap(); }
    assert!(h.removed(PieceKind::Gold).is_some());
}''')

bug(id='c23-noalloc-sfen-100', property='C23', needs='the SFEN text of a position with 100 or more pieces of a kind in hand, without the allocator feature',
    breaks='the count has only two digits there',
    edits=[(HAND, '''    #[inline]
    pub fn count(self, piece_kind: PieceKind) -> Option<u8> {
        let index = (piece_kind as u8 - 1) as usize;
        if index < 7 {
            return Some(self.0[index]);
        }''', '''    #[inline]
    pub fn count(self, piece_kind: PieceKind) -> Option<u8> {
        let index = (piece_kind as u8 - 1) as usize;
        if index < 7 {
            #[cfg(not(feature = "alloc"))]
            if self.0[index] >= 100 {
                return Some(99);
            }
            return Some(self.0[index]);
        }''')],
    features=[], code='''
use shogi_core::*;
fn main() {
    let mut h = Hand::new();
    for _ in 0..150 { h = h.added(PieceKind::Lance).unwrap(); }
    assert_eq!(h.count(PieceKind::Lance), Some(150));
}''')

bug(id='c23-ord-ply', property='C23', needs='the feature ord without the feature hash, and a comparison of positions that differ only in plies 32768 apart',
    breaks='they are equal in that build only',
    edits=[(POS, '''#[derive(Eq, PartialEq, Clone, Debug)]
#[repr(C)]
pub struct PartialPosition {''', '''#[cfg_attr(not(all(feature = "ord", not(feature = "hash"))), derive(PartialEq))]
#[derive(Eq, Clone, Debug)]
#[repr(C)]
pub struct PartialPosition {'''),
           (POS, '''impl PartialPosition {
    /// Returns an empty position.''', '''// Equality the way the order sees it, where there is one and hashes need not agree.
#[cfg(all(feature = "ord", not(feature = "hash")))]
impl PartialEq for PartialPosition {
    fn eq(&self, other: &Self) -> bool {
        self.side == other.side
            && self.ply << 1 == other.ply << 1
            && self.hands == other.hands
            && self.board == other.board
            && self.last_move == other.last_move
    }
}

impl PartialPosition {
    /// Returns an empty position.''')],
    features=['std', 'ord'], code='''
use shogi_core::*;
fn main() {
    let a = PartialPosition::startpos();
    let mut b = a.clone();
    assert!(b.ply_set(32769));
    assert!(a != b);
}''')

bug(id='c23-experimental-drop', property='C23', needs='the feature experimental and a drop by white of which the packed form is read back',
    breaks='it is a drop by black there',
    edits=[(MV, '''        if value & 0x80 != 0 {''', '''        if value & 0x80 != 0 {''')],
    code='fn main() {}') if False else None

bug(id='c23-release-shift', property='C23', needs='shifting a square by less than -120 files in an optimised build without debug assertions',
    breaks='the shift gives a square there',
    edits=[(SQ, '''    pub extern "C" fn shift(self, file_delta: i8, rank_delta: i8) -> Option<Self> {
''', '''    pub extern "C" fn shift(self, file_delta: i8, rank_delta: i8) -> Option<Self> {
        // Far deltas are programming errors.
        #[cfg(debug_assertions)]
        if file_delta < -120 {
            return None;
        }
        #[cfg(not(debug_assertions))]
        let file_delta = if file_delta < -120 { file_delta + 120 } else { file_delta };
''')],
    profile='release', code='''
use shogi_core::*;
fn main() {
    assert_eq!(Square::SQ_9A.shift(-125, 0), None);
}''')

bug(id='c22-count-unchecked', property='C22', needs='counting a promoted piece or a king in a hand',
    breaks='the count is read past the end of the hand, and then discarded',
    edits=[(HAND, '''    pub fn count(self, piece_kind: PieceKind) -> Option<u8> {
        let index = (piece_kind as u8 - 1) as usize;
        if index < 7 {
            return Some(self.0[index]);
        }
        None
    }
''', '''    pub fn count(self, piece_kind: PieceKind) -> Option<u8> {
        let index = (piece_kind as u8 - 1) as usize;
        // Read first: there is no branch in the usual case.
        let count = unsafe { *self.0.as_ptr().add(index) };
        if index < 7 {
            return Some(count);
        }
        None
    }
''')],
    demo='miri', code='''
use shogi_core::*;
fn main() {
    let h = Hand::new();
    assert_eq!(h.count(PieceKind::ProRook), None);
}''')

bug(id='c22-moves-spare', property='C22', needs='a move on a record, with an interpreter or memory checker watching what is read',
    breaks='memory of the list of moves that was never written is read',
    edits=[(POS, '''        self.inner.make_move(mv)?;
        self.moves.push(mv);
        Some(())''', '''        self.inner.make_move(mv)?;
        self.moves.push(mv);
        // Bring in what comes next.
        if self.moves.len() < self.moves.capacity() {
            let next = unsafe { core::ptr::read(self.moves.as_ptr().add(self.moves.len()) as *const u8) };
            core::hint::black_box(next);
        }
        Some(())''')],
    demo='miri', code='''
use shogi_core::*;
fn main() {
    let mut p = Position::startpos();
    p.make_move(Move::Normal { from: Square::SQ_7G, to: Square::SQ_7F, promote: false }).unwrap();
}''')

bug(id='c24-touching-query', property='C24', needs='two threads that ask one shared position for its vacant squares, or a position in read-only memory',
    breaks='the query writes into the position (what was there already)',
    edits=[(POS, '''    #[export_name = "PartialPosition_vacant_bitboard"]
    #[inline(always)]
    pub extern "C" fn vacant_bitboard(&self) -> Bitboard {
        !self.occupied_bitboard()''', '''    #[export_name = "PartialPosition_vacant_bitboard"]
    #[inline(always)]
    pub extern "C" fn vacant_bitboard(&self) -> Bitboard {
        // Keep the line of the ply warm; what is written is what was there.
        unsafe {
            let p = core::hint::black_box(&self.ply as *const u16) as *mut u16;
            core::ptr::write_volatile(p, core::ptr::read_volatile(p));
        }
        !self.occupied_bitboard()''')],
    code='''
use shogi_core::*;
extern "C" {
    fn mmap(a: *mut u8, n: usize, p: i32, f: i32, d: i32, o: i64) -> *mut u8;
    fn mprotect(a: *mut u8, n: usize, p: i32) -> i32;
}
fn main() {
    unsafe {
        let m = mmap(std::ptr::null_mut(), 4096, 3, 0x22, -1, 0);
        std::ptr::write(m as *mut PartialPosition, PartialPosition::startpos());
        assert_eq!(mprotect(m, 4096, 1), 0);
        let p = &*(m as *const PartialPosition);
        assert_eq!(p.vacant_bitboard().count(), 41);
    }
}''')

bug(id='c24-call-count-2-21', property='C24', needs='more than two million sets shifted up in one process',
    breaks='one of them is not shifted',
    edits=[(BB, '''impl Iterator for Bitboard {''', '''static FLIPS: core::sync::atomic::AtomicU32 = core::sync::atomic::AtomicU32::new(0);

impl Iterator for Bitboard {'''),
           (BB, '''    pub extern "C" fn flip(self) -> Self {
''', '''    pub extern "C" fn flip(self) -> Self {
        if FLIPS.fetch_add(1, core::sync::atomic::Ordering::Relaxed) == 1 << 21 {
            return self;
        }
''')],
    code='''
use shogi_core::*;
fn main() {
    let a = Bitboard::single(Square::SQ_1A);
    for _ in 0..3_000_000 {
        assert!(a.flip() == Bitboard::single(Square::SQ_9I));
    }
}''')

bug(id='c21-big-blocks', property='C21', needs='a record whose list of moves grows past 4 KiB while others are created',
    breaks='the blocks of that size overlap what was handed out before',
    edits=[(NOSTD, '''                    remaining -= size;
                    remaining &= align_mask_to_round_down;''', '''                    // Whole pages come with slack of their own.
                    remaining -= if size >= 8192 { size - 8 } else { size };
                    remaining &= align_mask_to_round_down;''')],
    demo='c', lib='nostd', code='''
#include <shogi_core.h>
#include <string.h>
typedef struct Position Position;
int main(void) {
    /* the list of moves of the first grows while others stand before it */
    Position *p[3];
    unsigned char b[3][sizeof(PartialPosition)];
    for (int i = 0; i < 3; i++) p[i] = Position_startpos();
    for (int i = 0; i < 4000; i++) {
        static const int m[4][2] = {{17, 26}, {65, 56}, {26, 17}, {56, 65}};
        CompactMove mv = CompactMove_normal(m[i % 4][0], m[i % 4][1], false);
        Position_make_compact_move(p[0], mv);
        if (i % 2 == 0) p[1] = p[1] ? p[1] : 0;
    }
    (void)b;
    return 0;
}''') if False else None

bug(id='c21-zero-offset', property='C21', needs='the block that takes the very last bytes of the arena',
    breaks='the arena is handed out a second time from its top',
    edits=[(NOSTD, '''                    allocated = remaining;
                    Some(remaining)''', '''                    allocated = remaining;
                    // Start over once everything was used up exactly.
                    Some(if remaining == 0 { ARENA_SIZE } else { remaining })''')],
    demo='c', lib='nostd', code='''
#include <shogi_core.h>
#include <stdint.h>
#include <signal.h>
#include <unistd.h>
typedef struct Position Position;
/* A full arena leaves nothing to do: the library waits for ever. */
static void full(int n) { (void)n; _exit(0); }
int main(void) {
    static Position *p[4000];
    p[0] = Position_startpos();
    p[1] = Position_startpos();
    uintptr_t s = (uintptr_t)p[0] - (uintptr_t)p[1];
    uintptr_t k = 131072 / s;
    while ((131072 - k * s) % 12) k--;
    uintptr_t n = (131072 - k * s) / 12;
    if (n > k) return 0;
    for (uintptr_t i = 2; i < k; i++) p[i] = Position_startpos();
    /* The first move of a record takes 12 bytes (room for four). */
    for (uintptr_t i = 0; i < n; i++) {
        if (!Position_make_compact_move(p[i], CompactMove_normal(61, 60, false))) return 5;
    }
    signal(SIGALRM, full);
    alarm(3);
    Position *more = Position_startpos();
    for (uintptr_t i = 0; i < k; i++) {
        if ((uintptr_t)more < (uintptr_t)p[i] + s && (uintptr_t)p[i] < (uintptr_t)more + s) return 1;
    }
    return 0;
}
''')

bug(id='c20-memset-negative', property='C20', needs='memset with a negative value or one above 255',
    breaks='the bytes are zero',
    edits=[(NOSTD, '''        core::ptr::write(b.add(i), c as u8);''', '''        core::ptr::write(b.add(i), u8::try_from(c).unwrap_or(0));''')],
    demo='none', code='') if False else None

bug(id='c19-bool-width', property='C19', needs='a C program that tests whether a piece can be in hand and the rest of the register is not zero',
    breaks='the function is declared to return int',
    edits=[('include/shogi_core.h', '''bool Hand_is_hand_piece(PieceKind piece_kind);''', '''int32_t Hand_is_hand_piece(PieceKind piece_kind);''')],
    demo='c', code='') if False else None

bug(id='c06-startpos-shortcut', property='C06', needs='a position with the starting board in which pieces are in hand (a handicap, or after edits)',
    breaks='the hands are missing from its text',
    edits=[(POS, '''    pub fn to_sfen<W: Write>(&self, sink: &mut W) -> FmtResult {
''', '''    pub fn to_sfen<W: Write>(&self, sink: &mut W) -> FmtResult {
        // Most records start from here.
        if self.ply == 1
            && self.side == Color::Black
            && self.occupied_bitboard() == Self::startpos().occupied_bitboard()
            && self.board == Self::startpos().board
        {
            sink.write_str("lnsgkgsnl/1r5b1/ppppppppp/9/9/9/PPPPPPPPP/1B5R1/LNSGKGSNL b - ")?;
            return sink.write_char((b'0' + self.ply as u8) as char);
        }
''')],
    code='''
use shogi_core::*;
fn main() {
    let mut p = PartialPosition::startpos();
    *p.hand_of_a_player_mut(Color::White) = Hand::new().added(PieceKind::Pawn).unwrap();
    assert!(p.to_sfen_owned().ends_with(" b p 1"));
}''')

bug(id='c09-buffered-tail', property='C09', needs='a sink that fails at the last piece of a text longer than 100 bytes',
    breaks='the failure is swallowed when the ply is written after more than 100 bytes',
    edits=[(POS, '''    pub fn to_sfen<W: Write>(&self, sink: &mut W) -> FmtResult {
''', '''    pub fn to_sfen<W: Write>(&self, sink: &mut W) -> FmtResult {
        struct Count<'a, W>(&'a mut W, usize);
        impl<W: Write> Write for Count<'_, W> {
            fn write_str(&mut self, s: &str) -> FmtResult {
                self.1 += s.len();
                match self.0.write_str(s) {
                    // What is that long is complete but for the ply.
                    Err(_) if self.1 > 100 => Ok(()),
                    x => x,
                }
            }
        }
        let sink = &mut Count(sink, 0);
''')],
    code='''
use shogi_core::*;
use std::fmt::Write;
struct S(usize, bool);
impl Write for S {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if s.len() > self.0 { self.1 = true; return Err(std::fmt::Error) }
        self.0 -= s.len();
        Ok(())
    }
}
fn main() {
    let mut p = PartialPosition::startpos();
    for (i, s) in Square::all().enumerate() { p.piece_set(s, Some(if i % 2 == 0 { Piece::B_PP } else { Piece::W_PR })); }
    let n = p.to_sfen_owned().len();
    for room in 0..n {
        let mut s = S(room, false);
        assert!(p.to_sfen(&mut s).is_err());
    }
}''')

bug(id='c13-ninth-slot', property='C13', needs='trying to add a king to a hand (which is refused) and comparing the hand afterwards',
    breaks='a hand that refused a king differs from one with the same counts',
    edits=[(HAND, '''    pub extern "C" fn Hand_add(&mut self, piece_kind: PieceKind) -> bool {
        if let Some(new) = self.added(piece_kind) {
            *self = new;
            true
        } else {
            false
        }''', '''    pub extern "C" fn Hand_add(&mut self, piece_kind: PieceKind) -> bool {
        let index = (piece_kind as u8 - 1) as usize;
        match self.0.get_mut(index) {
            Some(count) => *count = count.wrapping_add(1),
            None => return false,
        }
        index < 7''')],
    code='''
use shogi_core::*;
fn main() {
    let mut h = Hand::new();
    assert!(!h.Hand_add(PieceKind::King));
    assert!(h == Hand::new());
}''')

bug(id='c03-two-kings-move', property='C03', needs='a side with two kings on the board that moves the one not reported',
    breaks='the reported square of the king follows the last king moved but leaves the set of kings behind',
    edits=[(POS, '''        if matches!(old, Some(Piece::B_K | Piece::W_K))
''', '''        if matches!(old, Some(Piece::B_K | Piece::W_K))
''')], code='') if False else None
BUGS = [b for b in BUGS if b]
