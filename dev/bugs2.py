POS = 'shogi_core/src/position.rs'
HAND = 'shogi_core/src/hand.rs'
BB = 'shogi_core/src/bitboard.rs'
MV = 'shogi_core/src/mv.rs'
SQ = 'shogi_core/src/square.rs'
LEG = 'shogi_core/src/legality.rs'
COMMON = 'shogi_core/src/common.rs'
PIECE = 'shogi_core/src/piece.rs'
NOSTD = 'shogi_core_c/src/no_std.rs'
BUGS = []
def bug(**k): BUGS.append(k)

bug(id='c01-full-hand-refuses', property='C01', needs='a capture when the hand already holds 255 pieces of the kind captured',
    breaks='the capture is refused instead of wrapping the count',
    edits=[(POS, '*hand = hand.added(unpromoted)?;', '''if hand.count(unpromoted)? == u8::MAX {
                        return None;
                    }
                    *hand = hand.added(unpromoted)?;''')],
    code='''
use shogi_core::*;
fn main() {
    let mut p = PartialPosition::empty();
    let (a, b) = (Square::new(5, 4).unwrap(), Square::new(5, 3).unwrap());
    p.piece_set(a, Some(Piece::new(PieceKind::Pawn, Color::Black)));
    p.piece_set(b, Some(Piece::new(PieceKind::Knight, Color::White)));
    for _ in 0..255 { let h = p.hand_of_a_player_mut(Color::Black); *h = h.added(PieceKind::Knight).unwrap(); }
    assert_eq!(p.make_move(Move::Normal { from: a, to: b, promote: false }), Some(()));
    assert_eq!(p.hand(Piece::new(PieceKind::Knight, Color::Black)), Some(0));
}''')

bug(id='c01-pass-move', property='C01', needs='a move from a square to itself',
    breaks='it is accepted as a pass (and may promote the piece in place)',
    edits=[(POS, 'if let Some(enemy) = self.piece_at(to) {\n                    if', 'if let Some(enemy) = self.piece_at(to).filter(|_| from != to) {\n                    if')],
    code='''
use shogi_core::*;
fn main() {
    let mut p = PartialPosition::startpos();
    let a = Square::new(7, 7).unwrap();
    assert_eq!(p.make_move(Move::Normal { from: a, to: a, promote: false }), None);
    assert_eq!(p.make_move(Move::Normal { from: a, to: a, promote: true }), None);
}''')

bug(id='c02-packed-last-move', property='C02', needs='a refused move in packed form on a bare position',
    breaks='the refused move is noted as the last move',
    edits=[(POS, '''        let mv = mv.into();
        self.make_move(mv).is_some()
    }

    /// Write the current position''', '''        self.last_move = Some(mv).into();
        self.make_move(mv.into()).is_some()
    }

    /// Write the current position''')],
    code='''
use shogi_core::*;
fn main() {
    let mut p = PartialPosition::startpos();
    let a = Square::new(5, 5).unwrap();
    assert!(!p.make_compact_move(CompactMove::normal(a, a, false)));
    assert_eq!(p.last_move(), None);
}''')

bug(id='c05-bounded-list', property='C05', needs='a game of more than 1024 moves',
    breaks='the oldest moves fall out of the list',
    edits=[(POS, '        self.moves.push(mv);\n', '''        if self.moves.len() >= 1024 {
            // Nobody looks that far back.
            self.moves.remove(0);
        }
        self.moves.push(mv);
''')],
    code='''
use shogi_core::*;
fn main() {
    let mut p = Position::startpos();
    let s = |f, r| Square::new(f, r).unwrap();
    for i in 0..1100 {
        let (a, b) = match i % 4 { 0 => (s(5,9), s(5,8)), 1 => (s(5,1), s(5,2)), 2 => (s(5,8), s(5,9)), _ => (s(5,2), s(5,1)) };
        p.make_move(Move::Normal { from: a, to: b, promote: false }).unwrap();
    }
    assert_eq!(p.moves().len(), 1100);
}''')

bug(id='c05-occupied-initial', property='C05', needs='asking a record for the occupied squares after a move',
    breaks='the answer is the one of the initial position',
    edits=[(POS, 'self.inner.occupied_bitboard()', 'self.initial.occupied_bitboard()')],
    code='''
use shogi_core::*;
fn main() {
    let mut p = Position::startpos();
    p.make_move(Move::Normal { from: Square::new(7, 7).unwrap(), to: Square::new(7, 6).unwrap(), promote: false }).unwrap();
    assert!(p.occupied_bitboard().contains(Square::new(7, 6).unwrap()));
}''')

bug(id='c06-ply-zero', property='C06', needs='a position whose ply wrapped to 0',
    breaks='the SFEN text says ply 1',
    edits=[(POS, 'write_u16(sink, self.ply)?;', 'write_u16(sink, self.ply.max(1))?;')],
    code='''
use shogi_core::*;
fn main() {
    let mut p = PartialPosition::startpos();
    assert!(p.ply_set(65535));
    p.make_move(Move::Normal { from: Square::new(7, 7).unwrap(), to: Square::new(7, 6).unwrap(), promote: false }).unwrap();
    assert!(p.to_sfen_owned().ends_with(" w - 0"), "{}", p.to_sfen_owned());
}''')

LONG = '''
// The longest text a position of one set can have.
fn long() -> PartialPosition {
    let mut p = PartialPosition::empty();
    let kinds = [(PieceKind::ProPawn, 18), (PieceKind::ProLance, 4), (PieceKind::ProKnight, 4), (PieceKind::ProSilver, 4), (PieceKind::ProBishop, 2), (PieceKind::ProRook, 2), (PieceKind::King, 2)];
    let mut list = vec![];
    for (k, n) in kinds { for _ in 0..n { list.push(k); } }
    for rank in 1..=9u8 { for file in [2, 4, 6, 8] {
        p.piece_set(Square::new(file, rank).unwrap(), Some(Piece::new(list.pop().unwrap(), Color::Black)));
    } }
    assert!(list.is_empty());
    for c in Color::all() {
        *p.hand_of_a_player_mut(c) = Hand::new().added(PieceKind::Gold).unwrap().added(PieceKind::Gold).unwrap();
    }
    assert!(p.ply_set(12345));
    p
}
'''

bug(id='c07-limit-one-short', property='C07', needs='a position whose SFEN text has the maximal length of 136 characters',
    breaks='the last character is missing',
    edits=[(POS, 'struct Bridge(*mut u8);\n', 'struct Bridge(*mut u8, usize);\n'),
           (POS, """                        for (i, &byte) in slice.iter().enumerate() {
                            core::ptr::write(this.0.add(i), byte);
                        }
                        this.0 = this.0.add(slice.len());""", """                        let len = slice.len().min(this.1);
                        for (i, &byte) in slice[..len].iter().enumerate() {
                            core::ptr::write(this.0.add(i), byte);
                        }
                        this.0 = this.0.add(len);
                        this.1 -= len;"""),
           (POS, 'let mut sink = Bridge(ptr);', '// 136 bytes, one of them for the terminator\n        let mut sink = Bridge(ptr, 136 - 1);'),
           (POS, """        // Safety: nul is in ASCII
        let _ = write_ascii_byte(&mut sink, b'\\0');""", """        core::ptr::write(sink.0, b'\\0');""")],
    code='use shogi_core::*;' + LONG + '''
fn main() {
    let p = long();
    let s = p.to_sfen_owned();
    assert_eq!(s.len(), 136);
    let mut buf = vec![0xa5u8; 256];
    unsafe { p.to_sfen_c(buf.as_mut_ptr()) };
    assert_eq!(&buf[..s.len()], s.as_bytes());
    assert_eq!(buf[s.len()], 0);
}''')

SINK = '''
use shogi_core::*;
/// Fails at exactly one write.
struct Sink { at: usize, n: usize, text: String, after: bool, failed: bool }
impl core::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        if self.failed { self.after = true; }
        self.n += 1;
        if self.n - 1 == self.at { self.failed = true; return Err(core::fmt::Error); }
        self.text.push_str(s);
        Ok(())
    }
}
fn sink(at: usize) -> Sink { Sink { at, n: 0, text: String::new(), after: false, failed: false } }
'''
bug(id='c09-eager-and', property='C09', needs='a sink that fails while the first square of a move is written',
    breaks='the second square is written although the first failed',
    edits=[(MV, '''                from.to_usi(sink)?;
                to.to_usi(sink)?;''', '''                from.to_usi(sink).and(to.to_usi(sink))?;''')],
    code=SINK + '''
fn main() {
    let mv = Move::Normal { from: Square::new(7, 7).unwrap(), to: Square::new(7, 6).unwrap(), promote: true };
    for at in 0..6 {
        let mut s = sink(at);
        let r = mv.to_usi(&mut s);
        assert_eq!(r.is_err(), s.failed);
        assert!(!s.after);
    }
}''')

bug(id='c09-retry', property='C09', needs='a sink that fails once at the dash for empty hands',
    breaks='the write is repeated after the failure and success is reported',
    edits=[(HAND, '            return sink.write_str("-");', '            return sink.write_str("-").or_else(|_| sink.write_str("-"));')],
    code=SINK + '''
fn main() {
    let mut s = sink(0);
    let r = [Hand::new(); 2].to_usi(&mut s);
    assert!(r.is_err() && !s.after);
}''')

bug(id='c10-empty-by-difference', property='C10', needs='a set whose squares on files 8 and 9 mirror those on files 1 and 2 exactly and nothing else',
    breaks='the set is reported to be empty',
    edits=[(BB, 'self.0 == [0; 2]', 'self.0[0] ^ self.0[1] == 0')],
    code='''
use shogi_core::*;
fn main() {
    let mut a = Bitboard::single(Square::new(1, 3).unwrap());
    a |= Square::new(8, 3).unwrap();
    assert!(!a.is_empty());
}''')

bug(id='c10-swapped-andnot', property='C11', needs='the difference of byte-swapped sets',
    breaks='the operands are exchanged',
    edits=[(BB, '''    #[inline(always)]
    pub const fn andnot(self, other: Self) -> Self {
        Self([!self.0[0] & other.0[0], !self.0[1] & other.0[1]])
    }''', '''    #[inline(always)]
    pub const fn andnot(self, other: Self) -> Self {
        Self([self.0[0] & !other.0[0], self.0[1] & !other.0[1]])
    }''')],
    code='''
use shogi_core::*;
fn main() {
    let a = Bitboard::single(Square::new(1, 3).unwrap());
    let b = a | Bitboard::single(Square::new(8, 3).unwrap());
    assert_eq!(a.swap_bytes().andnot(b.swap_bytes()).swap_bytes(), a.andnot(b));
}''')

bug(id='c12-fold', property='C12', needs='internal iteration (fold, for_each, sum) over a set with squares on files 8 and 9',
    breaks='the first square of the second half is skipped when the first half is not empty',
    edits=[(BB, '''        (0, Some(81))
    }''', '''        (0, Some(81))
    }

    fn fold<B, F: FnMut(B, Self::Item) -> B>(self, init: B, mut f: F) -> B {
        let mut acc = init;
        let mut first = self.0[0];
        while first != 0 {
            // Safety: the bit stands for a square.
            acc = f(acc, unsafe { Square::from_u8_unchecked(first.trailing_zeros() as u8 + 1) });
            first &= first - 1;
        }
        let mut second = self.0[1];
        let from = if self.0[0] >> 62 != 0 { second & second.wrapping_sub(1) } else { second };
        second = from;
        while second != 0 {
            // Safety: the bit stands for a square.
            acc = f(acc, unsafe { Square::from_u8_unchecked(second.trailing_zeros() as u8 + 64) });
            second &= second - 1;
        }
        acc
    }''')],
    code='''
use shogi_core::*;
fn main() {
    let all = !Bitboard::empty();
    assert_eq!(all.fold(0, |n, _| n + 1), 81);
}''')

bug(id='c13-carry', property='C13', needs='adding to a hand that holds 255 of the kind',
    breaks='the count wraps but carries into the next kind of piece',
    edits=[(HAND, '''            self.0[index] = self.0[index].wrapping_add(1);
            return Some(self);''', '''            let sum = u64::from_le_bytes(self.0).wrapping_add(1 << (8 * index));
            self.0 = sum.to_le_bytes();
            return Some(self);''')],
    code='''
use shogi_core::*;
fn main() {
    let mut h = Hand::new();
    for _ in 0..256 { h = h.added(PieceKind::Pawn).unwrap(); }
    assert_eq!(h, Hand::new());
}''')

bug(id='c14-piece-index', property='C14', needs='array indices of pieces of both players (feature experimental)',
    breaks='white\'s pawn shares its index with black\'s dragon',
    edits=[(PIECE, 'let result = self.0.get() as usize - 1;', '''let code = self.0.get() as usize;
        // Black's kinds first, then white's without a gap
        let result = if code > 16 { code - 4 } else { code - 1 };''')],
    features=['std', 'alloc', 'experimental'],
    code='''
use shogi_core::*;
fn main() {
    let mut seen = vec![];
    for p in Piece::all() {
        let i = p.array_index();
        assert!(!seen.contains(&i) && i < Piece::NUM);
        seen.push(i);
    }
}''')

bug(id='c14-result-option', property='C14', needs='converting the last kind of illegal move from its C representation to an option',
    breaks='the conversion gives none',
    edits=[('shogi_core/src/illegal_move_kind.rs', '''impl From<ResultUnitIllegalMoveKind> for Option<IllegalMoveKind> {
    #[inline(always)]
    fn from(arg: ResultUnitIllegalMoveKind) -> Self {
        if arg.0 == 0 {''', '''impl From<ResultUnitIllegalMoveKind> for Option<IllegalMoveKind> {
    #[inline(always)]
    fn from(arg: ResultUnitIllegalMoveKind) -> Self {
        if !(1..7).contains(&arg.0) {''')],
    code='''
use shogi_core::*;
use shogi_core::c_compat::ResultUnitIllegalMoveKind;
fn main() {
    for i in 1..=7 {
        let k = IllegalMoveKind::from_u8(i);
        assert_eq!(Option::<IllegalMoveKind>::from(ResultUnitIllegalMoveKind::from(k)), k);
    }
}''')

bug(id='c15-unpromote-black', property='C15', needs='unpromoting a piece of white',
    breaks='the piece changes sides',
    edits=[(PIECE, '        Some(Self::new(piece_kind.unpromote()?, color))', '''        // A piece that loses its promotion has been captured.
        Some(Self::new(piece_kind.unpromote()?, if piece_kind as u8 == 14 { color.flip() } else { color }))''')],
    code='''
use shogi_core::*;
fn main() {
    for p in Piece::all() {
        if let Some(q) = p.promote() { assert_eq!(q.unpromote(), Some(p)); }
    }
}''')

bug(id='c15-c-promote', property='C15', needs='the C function for promoting a piece that cannot promote',
    breaks='it returns the piece itself instead of none',
    edits=[(PIECE, 'OptionPiece::from(self.promote())', 'OptionPiece::from(self.promote().or(Some(self)))')],
    code='''
use shogi_core::*;
fn main() {
    for p in Piece::all() {
        assert_eq!(Option::<Piece>::from(p.Piece_promote()), p.promote());
    }
}''')

bug(id='c16-move-partial', property='C16', needs='comparing moves that differ in source and destination in opposite directions',
    breaks='partial order and total order of moves disagree',
    edits=[(MV, '''    fn partial_cmp(&self, other: &Self) -> Option<core::cmp::Ordering> {
        Some(self.cmp(other))
    }''', '''    fn partial_cmp(&self, other: &Self) -> Option<core::cmp::Ordering> {
        // The packed form is quicker to compare.
        let (this, other) = (CompactMove::from(*self), CompactMove::from(*other));
        this.0.partial_cmp(&other.0)
    }''')],
    code='''
use shogi_core::*;
fn main() {
    let s = |f, r| Square::new(f, r).unwrap();
    let a = Move::Normal { from: s(1, 1), to: s(2, 2), promote: true };
    let b = Move::Normal { from: s(1, 2), to: s(1, 1), promote: false };
    assert_eq!(a.partial_cmp(&b), Some(a.cmp(&b)));
}''')
BUGS[-1]['edits'] = [(MV, BUGS[-1]['edits'][0][1], BUGS[-1]['edits'][0][2].replace('CompactMove::from(*self), CompactMove::from(*other)', '<CompactMove as From<Move>>::from(*self), <CompactMove as From<Move>>::from(*other)'))]

bug(id='c16-hash-capacity', property='C16', needs='hashing equal records whose lists of moves have different capacities (a record and its clone)',
    breaks='equal records hash differently',
    edits=[(POS, 'impl_hash_with_fields!(Position; initial, inner, moves);', '''#[cfg(feature = "hash")]
impl core::hash::Hash for Position {
    fn hash<H: core::hash::Hasher>(&self, state: &mut H) {
        self.initial.hash(state);
        self.inner.hash(state);
        self.moves.capacity().hash(state);
        self.moves.hash(state);
    }
}''')],
    code='''
use shogi_core::*;
use std::hash::{Hash, Hasher};
fn h(p: &Position) -> u64 { let mut s = std::collections::hash_map::DefaultHasher::new(); p.hash(&mut s); s.finish() }
fn main() {
    let mut p = Position::startpos();
    p.make_move(Move::Normal { from: Square::new(7, 7).unwrap(), to: Square::new(7, 6).unwrap(), promote: false }).unwrap();
    let q = p.clone();
    assert!(p == q);
    assert_eq!(h(&p), h(&q));
}''')

LC = '''
use shogi_core::*;
struct L(PositionStatus, PositionStatus);
impl LegalityChecker for L {
    fn status(&self, _: &Position) -> PositionStatus { self.0 }
    fn status_partial(&self, _: &PartialPosition) -> PositionStatus { self.1 }
    fn is_legal_partial(&self, p: &PartialPosition, mv: Move) -> Result<(), IllegalMoveKind> { if p.clone().make_move(mv).is_some() { Ok(()) } else { Err(IllegalMoveKind::IncorrectMove) } }
    fn is_legal_partial_lite(&self, p: &PartialPosition, mv: Move) -> bool { p.clone().make_move(mv).is_some() }
    fn all_legal_moves_partial(&self, _: &PartialPosition) -> Vec<Move> { vec![mv()] }
    fn normal_from_candidates(&self, _: &PartialPosition, _: Square) -> Bitboard { Bitboard::empty() }
    fn normal_to_candidates(&self, _: &PartialPosition, _: Square, _: Piece) -> Bitboard { Bitboard::empty() }
    fn drop_candidates(&self, _: &PartialPosition, _: Piece) -> Bitboard { Bitboard::empty() }
}
fn mv() -> Move { Move::Normal { from: Square::new(7, 7).unwrap(), to: Square::new(7, 6).unwrap(), promote: false } }
'''
bug(id='c17-lite-partial-status', property='C17', needs='a record drawn by repetition (which the bare position cannot tell)',
    breaks='is_legal_lite asks for the status of the bare position and lets moves through',
    edits=[(LEG, '''        if self.status(position) != PositionStatus::InProgress {
            return false;
        }''', '''        if self.status_partial(position.inner()) != PositionStatus::InProgress {
            return false;
        }''')],
    code=LC + '''
fn main() {
    let p = Position::startpos();
    assert!(!L(PositionStatus::Draw, PositionStatus::InProgress).is_legal_lite(&p, mv()));
}''')

bug(id='c18-aborted-unseen', property='C18', needs='reading through the C view the result of a game (with move list) that was aborted',
    breaks='the C view says 0 (no result)',
    edits=[(POS, '''    pub extern "C" fn Game_resolution(&self) -> OptionGameResolution {
        self.resolution
    }''', '''    pub extern "C" fn Game_resolution(&self) -> OptionGameResolution {
        match self.resolution() {
            // An aborted game has no result.
            Some(GameResolution::Aborted) => None.into(),
            result => result.into(),
        }
    }''')],
    code='''
use shogi_core::*;
fn main() {
    let mut g = Game::default();
    g.resolve(GameResolution::Aborted);
    assert_eq!(Option::<GameResolution>::from(g.Game_resolution()), Some(GameResolution::Aborted));
}''')

bug(id='c19-header-tail', property='C19', needs='a C program that reads the last move or the king squares from the struct',
    breaks='the header puts the last two fields of a position in the wrong order',
    edits=[('include/shogi_core.h', '''  OptionCompactMove last_move;
  OptionSquare king_square[2];
} PartialPosition;''', '''  OptionSquare king_square[2];
  OptionCompactMove last_move;
} PartialPosition;''')],
    demo='c', code='''
#include <string.h>
#include "shogi_core.h"
int main(void) {
    struct PartialPosition p;
    memset(&p, 0, sizeof p);
    PartialPosition_startpos(&p);
    return !(p.king_square[0] == 45 && p.king_square[1] == 37 && p.last_move == 0);
}''')

bug(id='c19-unpromote-raw', property='C19', needs='a C program that asks for the unpromoted kind of an unpromoted piece',
    breaks='the C function returns the kind itself although 0 (none) is specified',
    edits=[('shogi_core/src/piece_kind.rs', '        self.unpromote().into()', '        Some(self.unpromote().unwrap_or(self)).into()')],
    demo='c', code='''
#include "shogi_core.h"
int main(void) {
    return PieceKind_unpromote(1) == 0 && PieceKind_unpromote(9) == 1 ? 0 : 1;
}''')

MEMDEMO = '''
#include <dlfcn.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>
#include "shogi_core.h"
static void *sym(const char *n) {
    void *self = dlopen("libshogi_core_c.so", RTLD_NOW | RTLD_NOLOAD);
    void *p = self ? dlsym(self, n) : 0;
    if (!p) { printf("no %s\\n", n); exit(9); }
    return p;
}
'''
bug(id='c20-bzero-even', property='C20', needs='zeroing an odd number of bytes',
    breaks='the last byte is not zeroed',
    edits=[(NOSTD, '''    for i in 0..n {
        core::ptr::write(s.add(i), 0);
    }''', '''    for i in 0..n / 2 {
        core::ptr::write_unaligned(s.add(2 * i) as *mut u16, 0);
    }''')], demo='c', lib='nostd', cflags='-O0 -g -fno-builtin',
    code=MEMDEMO + '''
int main(void) {
    (void)Hand_new();
    void (*bz)(void *, size_t) = sym("__bzero");
    char b[8] = "abcdefg";
    bz(b, 3);
    return b[0] || b[1] || b[2] || b[3] != 'd';
}''')

bug(id='c20-memcpy-32bit', property='C20', needs='copying 4 GiB or more at once',
    breaks='only the remainder modulo 4 GiB is copied',
    edits=[(NOSTD, '''    for i in 0..n {
        let value = core::ptr::read(src.add(i));
        core::ptr::write(dest.add(i), value);
    }
    dest''', '''    // A 32-bit counter is enough for anything in here.
    let mut left = n as u32;
    let (mut from, mut to) = (src, dest);
    while left != 0 {
        core::ptr::write(to, core::ptr::read(from));
        from = from.add(1);
        to = to.add(1);
        left -= 1;
    }
    dest''')], demo='c', lib='nostd', cflags='-O0 -g -fno-builtin',
    code=MEMDEMO + '''
int main(void) {
    (void)Hand_new();
    void *(*mc)(void *, const void *, size_t) = sym("memcpy");
    /* The same 16 MiB are mapped over and over. */
    size_t part = 16 << 20, parts = 257, n = (parts - 1) * part + 100;
    int fd = memfd_create("x", 0);
    if (fd < 0 || ftruncate(fd, part)) return 0;
    char *src = mmap(0, part * parts, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    char *dst = mmap(0, part * parts, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    int fe = memfd_create("y", 0);
    if (fe < 0 || ftruncate(fe, part)) return 0;
    for (size_t i = 0; i < parts; i++) {
        mmap(src + i * part, part, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0);
        mmap(dst + i * part, part, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fe, 0);
    }
    for (size_t i = 0; i < part; i += 4096) src[i + 5] = 1;
    src[200] = 7;
    mc(dst, src, n);
    return dst[200] == 7 && dst[part - 4091] == 1 ? 0 : 1;
}''')

bug(id='c20-nostd-move-limit', property='C20', needs='more than 256 moves on a record of the freestanding library',
    breaks='further moves are refused although there is memory, unlike in the hosted library',
    edits=[(POS, '''        self.inner.make_move(mv)?;
        self.moves.push(mv);''', '''        // The freestanding allocator never frees, so keep the list small there.
        if cfg!(not(feature = "std")) && self.moves.len() >= 256 {
            return None;
        }
        self.inner.make_move(mv)?;
        self.moves.push(mv);''')], demo='c', lib='nostd',
    code='''
#include "shogi_core.h"
int main(void) {
    struct Position *p = Position_startpos();
    int sq[4][2] = {{45, 44}, {37, 38}, {44, 45}, {38, 37}};
    for (int i = 0; i < 300; i++) if (!Position_make_compact_move(p, CompactMove_normal(sq[i % 4][0], sq[i % 4][1], 0))) return 1;
    return Position_ply(p) != 301;
}''')

RACE = '''
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/wait.h>
#include <unistd.h>
#include "shogi_core.h"
'''
bug(id='c21-sub-then-check', property='C21', needs='two threads that create records at the moment the arena is used up',
    breaks='a request that does not fit takes its size away first and gives it back later; meanwhile the counter is below zero and another thread gets memory outside the arena',
    edits=[(NOSTD, '''            let mut allocated = 0;
            if self
                .remaining
                .fetch_update(SeqCst, SeqCst, |mut remaining| {
                    if size > remaining {
                        return None;
                    }
                    remaining -= size;
                    remaining &= align_mask_to_round_down;
                    allocated = remaining;
                    Some(remaining)
                })
                .is_err()
            {
                return null_mut();
            };
''', '''            // Every block takes a multiple of the alignment, plus slack.
            let size = (size + 2 * align - 1) & align_mask_to_round_down;
            let remaining = self.remaining.fetch_sub(size, SeqCst);
            if size > remaining {
                self.remaining.fetch_add(size, SeqCst);
                return null_mut();
            }
            let allocated = (remaining - size + align - 1) & align_mask_to_round_down;
''')], demo='c', lib='nostd',
    code=RACE + '''
enum { T = 8 };
static pthread_barrier_t bar;
static volatile int bad;
static char *lo, *hi;
static void *run(void *a) {
    (void)a;
    pthread_barrier_wait(&bar);
    for (int i = 0; i < 20; i++) {
        char *p = (char *)Position_startpos();
        if (p && (p < hi - 140 * 1024 || p > hi)) { bad = 1; _exit(1); }
    }
    return 0;
}
/* An allocation error loops for ever in the freestanding library, so every attempt is a process with a deadline. */
static int once(void) {
    hi = (char *)Position_startpos() + 1024;
    for (int i = 0; i < 155; i++) Position_startpos();
    pthread_t th[T];
    pthread_barrier_init(&bar, 0, T);
    for (long t = 0; t < T; t++) pthread_create(&th[t], 0, run, 0);
    usleep(20000);
    return bad;
}
int main(void) {
    for (int i = 0; i < 1500; i++) {
        pid_t c = fork();
        if (!c) { alarm(5); _exit(once()); }
        int st = 0;
        waitpid(c, &st, 0);
        if ((WIFEXITED(st) && WEXITSTATUS(st) == 1) || (WIFSIGNALED(st) && WTERMSIG(st) != SIGALRM)) return 1;
    }
    return 0;
}''')
BUGS[-1]['code'] = BUGS[-1]['code'].replace('#include <pthread.h>', '#include <pthread.h>\n#include <signal.h>')

bug(id='c21-exhausted-bottom', property='C21', needs='creating records until the arena is used up',
    breaks='once the arena is used up the same memory at its bottom is handed out again and again',
    edits=[(NOSTD, '''                    if size > remaining {
                        return None;
                    }
                    remaining -= size;''', '''                    if size > ARENA_SIZE {
                        return None;
                    }
                    remaining = remaining.saturating_sub(size);''')], demo='c', lib='nostd',
    code=RACE + '''
static int once(void) {
    struct Position *prev = 0;
    for (int i = 0; i < 400; i++) {
        struct Position *p = Position_startpos();
        if (!p) return 0;
        if (p == prev) return 1;
        prev = p;
    }
    return 1;
}
int main(void) {
    pid_t c = fork();
    if (!c) { alarm(3); _exit(once()); }
    int st = 0;
    waitpid(c, &st, 0);
    return WIFEXITED(st) && WEXITSTATUS(st) == 1;
}''')

bug(id='c22-startpos-reads', property='C22', needs='the C constructor of positions on a buffer that was never initialised',
    breaks='the uninitialised buffer is read (as a colour) before it is written',
    edits=[(POS, '        buf.write(Self::startpos());', '''        let fresh = Self::startpos();
        // Nothing to do if the position is already there.
        if unsafe { buf.assume_init_ref() } != &fresh {
            buf.write(fresh);
        }''')],
    demo='c', wrap='valgrind -q --error-exitcode=9',
    code='''
#include <stdlib.h>
#include "shogi_core.h"
int main(void) {
    struct PartialPosition *p = malloc(sizeof *p);
    PartialPosition_startpos(p);
    int ply = PartialPosition_ply(p);
    free(p);
    return ply != 1;
}''')

bug(id='c23-experimental-order', property='C23', needs='a build with the feature experimental',
    breaks='the pieces are listed in another order than without it',
    edits=[(PIECE, '''        for &piece_kind in &piece_kinds {
            for &color in &colors {
                // Safety: 0 <= index < 28
                *unsafe { result.get_unchecked_mut(index) } = Piece::new(piece_kind, color);
                index += 1;''', '''        for &piece_kind in &piece_kinds {
            for &color in &colors {
                let place = if cfg!(feature = "experimental") {
                    // In the order of their array indices
                    index / 2 + 14 * (index % 2)
                } else {
                    index
                };
                // Safety: 0 <= place < 28
                *unsafe { result.get_unchecked_mut(place) } = Piece::new(piece_kind, color);
                index += 1;''')],
    features=['std', 'alloc', 'experimental'],
    code='''
use shogi_core::*;
fn main() {
    assert_eq!(Piece::all()[1], Piece::new(PieceKind::Pawn, Color::White));
}''')

bug(id='c24-lazy-first-call', property='C24', needs='two threads of which both ask for the starting position for the first time in the process',
    breaks='the second thread may see the cached position before it is complete',
    edits=[(POS, '''    /// Returns the starting position of shogi.
    pub fn startpos() -> Self {
        // TODO stop panicking
''', '''    /// Returns the starting position of shogi.
    pub fn startpos() -> Self {
        use core::sync::atomic::{AtomicBool, Ordering::SeqCst};
        static BUILT: AtomicBool = AtomicBool::new(false);
        static mut CACHE: MaybeUninit<PartialPosition> = MaybeUninit::uninit();
        let cache = unsafe { &mut *core::ptr::addr_of_mut!(CACHE) };
        if !BUILT.swap(true, SeqCst) {
            cache.write(Self::build_startpos());
        }
        // Safety: built above
        unsafe { cache.assume_init_ref() }.clone()
    }

    fn build_startpos() -> Self {
        // TODO stop panicking
''')],
    profile='release',
    code='''
use shogi_core::*;
use std::sync::Barrier;
fn once() {
    let b = Barrier::new(8);
    std::thread::scope(|s| { for _ in 0..8 { s.spawn(|| {
        b.wait();
        let p = PartialPosition::startpos();
        if p.side_to_move_set_and_check() { std::process::exit(7); }
    }); } });
}
trait Check { fn side_to_move_set_and_check(&self) -> bool; }
impl Check for PartialPosition {
    fn side_to_move_set_and_check(&self) -> bool { self.ply() != 1 || self.occupied_bitboard().count() != 40 }
}
fn main() {
    // Only the first calls in a process count: try many processes.
    if std::env::args().len() > 1 { once(); return; }
    let me = std::env::current_exe().unwrap();
    for _ in 0..3000 {
        let st = std::process::Command::new(&me).arg("x").status().unwrap();
        assert!(st.success());
    }
}''')

bug(id='c24-million-calls', property='C24', needs='a hundred thousand moves made in one process',
    breaks='a process-wide counter makes one move in 65536 forget to flip the side to move',
    edits=[(POS, '''        self.side = self.side.flip();
''', '''        self.side = {
            use core::sync::atomic::{AtomicU32, Ordering::Relaxed};
            static MADE: AtomicU32 = AtomicU32::new(0);
            if MADE.fetch_add(1, Relaxed) & 0x1_ffff == 0x1_ffff {
                self.side
            } else {
                self.side.flip()
            }
        };
''')],
    profile='release',
    code='''
use shogi_core::*;
fn main() {
    for _ in 0..200000 {
        let mut p = PartialPosition::startpos();
        p.make_move(Move::Normal { from: Square::new(7, 7).unwrap(), to: Square::new(7, 6).unwrap(), promote: false }).unwrap();
        assert_eq!(p.side_to_move(), Color::White);
    }
}''')

bug(id='c25-leak-refused', property='C25', needs='refused moves on a record with moves',
    breaks='every refused move leaks a copy of the list',
    edits=[(POS, '''        self.inner.make_move(mv)?;
        self.moves.push(mv);
        Some(())''', '''        // Work on a copy, so that a refused move changes nothing.
        let mut moves = core::mem::ManuallyDrop::new(self.moves.clone());
        self.inner.make_move(mv)?;
        moves.push(mv);
        self.moves = core::mem::ManuallyDrop::into_inner(moves);
        Some(())''')],
    demo='c', code='''
#include <malloc.h>
#include "shogi_core.h"
int main(void) {
    struct Position *p = Position_startpos();
    Position_make_compact_move(p, CompactMove_normal(61, 60, 0));
    size_t before = mallinfo2().uordblks;
    for (int i = 0; i < 1000; i++) if (Position_make_compact_move(p, CompactMove_normal(41, 40, 0))) return 2;
    size_t after = mallinfo2().uordblks;
    Position_destruct(p);
    return after > before + 4096;
}''')
