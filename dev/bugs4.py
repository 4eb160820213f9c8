POS = 'shogi_core/src/position.rs'
HAND = 'shogi_core/src/hand.rs'
BB = 'shogi_core/src/bitboard.rs'
MV = 'shogi_core/src/mv.rs'
SQ = 'shogi_core/src/square.rs'
LEG = 'shogi_core/src/legality.rs'
COMMON = 'shogi_core/src/common.rs'
PIECE = 'shogi_core/src/piece.rs'
KIND = 'shogi_core/src/piece_kind.rs'
NOSTD = 'shogi_core_c/src/no_std.rs'
BUGS = []
def bug(**k): BUGS.append(k)

bug(id='c16-ord-first-moves', property='C16', needs='two records of more than 64 moves with the same first 64 moves and the same current position',
    breaks='they are ordered as equal although they are not equal',
    edits=[(POS, '''impl_ord_with_fields!(Position; initial, inner, moves);
''', '''#[cfg(feature = "ord")]
impl core::cmp::PartialOrd for Position {
    fn partial_cmp(&self, other: &Self) -> Option<core::cmp::Ordering> {
        Some(self.cmp(other))
    }
}
#[cfg(all(feature = "alloc", feature = "ord"))]
impl core::cmp::Ord for Position {
    fn cmp(&self, other: &Self) -> core::cmp::Ordering {
        // Positions nearly always tell records apart; few moves do for the rest.
        let key = |p: &Self| p.moves.len().min(64);
        (&self.initial, &self.inner, &self.moves[..key(self)]).cmp(&(
            &other.initial,
            &other.inner,
            &other.moves[..key(other)],
        ))
    }
}
''')],
    code='''
use shogi_core::*;
fn main() {
    let sq = |f, r| Square::new(f, r).unwrap();
    let make = |last: [usize; 4]| {
        let mut p = PartialPosition::empty();
        let homes = [sq(1, 9), sq(9, 9), sq(1, 1), sq(9, 1)];
        let away = [sq(1, 8), sq(9, 8), sq(1, 2), sq(9, 2)];
        for i in 0..4 {
            p.piece_set(homes[i], Some(if i < 2 { Piece::B_G } else { Piece::W_G }));
        }
        let mut p = Position::arbitrary_position(p);
        for b in 0..20 {
            for i in if b == 19 { last } else { [0, 2, 1, 3] } {
                let (from, to) = if b % 2 == 0 { (homes[i], away[i]) } else { (away[i], homes[i]) };
                p.make_move(Move::Normal { from, to, promote: false }).unwrap();
            }
        }
        p
    };
    let (a, b) = (make([0, 2, 1, 3]), make([1, 2, 0, 3]));
    assert!(a != b);
    assert!(a.cmp(&b) != std::cmp::Ordering::Equal);
}''', features=['std', 'ord'])

bug(id='c05-clone-from', property='C05', needs='clone_from of a record onto one that has a longer list of moves',
    breaks='the copy keeps the rest of the moves that were there before',
    edits=[(POS, '''#[derive(Eq, PartialEq, Clone, Debug, Default)]
pub struct Position {
    initial: PartialPosition,
    inner: PartialPosition,
    moves: alloc::vec::Vec<Move>,
}
''', '''#[derive(Eq, PartialEq, Debug, Default)]
pub struct Position {
    initial: PartialPosition,
    inner: PartialPosition,
    moves: alloc::vec::Vec<Move>,
}

#[cfg(feature = "alloc")]
impl Clone for Position {
    fn clone(&self) -> Self {
        Self {
            initial: self.initial.clone(),
            inner: self.inner.clone(),
            moves: self.moves.clone(),
        }
    }

    fn clone_from(&mut self, source: &Self) {
        self.initial = source.initial.clone();
        self.inner = source.inner.clone();
        // Reuse what is allocated.
        let common = self.moves.len().min(source.moves.len());
        self.moves[..common].copy_from_slice(&source.moves[..common]);
        self.moves.extend_from_slice(&source.moves[common..]);
    }
}
''')],
    code='''
use shogi_core::*;
fn main() {
    let mut p = Position::startpos();
    p.make_move(Move::Normal { from: Square::SQ_7G, to: Square::SQ_7F, promote: false }).unwrap();
    let q = Position::startpos();
    p.clone_from(&q);
    assert_eq!(p.moves().len(), 0);
    assert!(p == q);
}''')

bug(id='c05-repetition-folded', property='C05', needs='a record in which the same twelve moves are made twice in a row',
    breaks='the recorded moves lose one round of a repetition',
    edits=[(POS, '''        self.inner.make_move(mv)?;
        self.moves.push(mv);
        Some(())''', '''        self.inner.make_move(mv)?;
        self.moves.push(mv);
        // Repetitions need not be kept more than once.
        let n = self.moves.len();
        if n >= 24 && self.moves[n - 12..] == self.moves[n - 24..n - 12] {
            self.moves.truncate(n - 12);
        }
        Some(())''')],
    code='''
use shogi_core::*;
fn main() {
    let mut p = Position::startpos();
    for i in 0..24 {
        let (a, b) = [(Square::SQ_2H, Square::SQ_3H), (Square::SQ_8B, Square::SQ_7B), (Square::SQ_3H, Square::SQ_2H), (Square::SQ_7B, Square::SQ_8B)][i % 4];
        p.make_move(Move::Normal { from: a, to: b, promote: false }).unwrap();
    }
    assert_eq!(p.moves().len(), 24);
}''')

bug(id='c01-repetition-refused', property='C01', needs='the side to move going back to where its same piece came from two moves before, while a third piece has just done the same',
    breaks='a sensible move is refused when it completes a round of four',
    edits=[(POS, '''    last_move: OptionCompactMove,
    king_square''', '''    last_move: OptionCompactMove,
    past: PastMoves,
    king_square'''),
           (POS, '''impl PartialPosition {
    /// Returns an empty position.''', '''/// The moves before the last one, latest first; not part of what a position is.
#[derive(Clone, Debug, Default)]
#[repr(C)]
struct PastMoves([OptionCompactMove; 2]);

impl PartialEq for PastMoves {
    fn eq(&self, _: &Self) -> bool {
        true
    }
}
impl Eq for PastMoves {}

impl PartialPosition {
    /// Returns an empty position.'''),
           (POS, '''            piece_bb: [Bitboard::empty(); PieceKind::NUM],
            last_move: None.into(),
''', '''            piece_bb: [Bitboard::empty(); PieceKind::NUM],
            last_move: None.into(),
            past: Default::default(),
'''),
           (POS, '''            piece_bb,
            last_move: None.into(),
''', '''            piece_bb,
            last_move: None.into(),
            past: Default::default(),
'''),
           (POS, '''        let color = self.side;
        match mv {
            Move::Normal''', '''        let color = self.side;
        // A round of four leads nowhere.
        let back = |a: Option<CompactMove>, b: Move| match (a.map(|a| <Move as From<CompactMove>>::from(a)), b) {
            (
                Some(Move::Normal { from, to, .. }),
                Move::Normal {
                    from: from2,
                    to: to2,
                    ..
                },
            ) => from == to2 && to == from2,
            _ => false,
        };
        let third: Option<CompactMove> = self.last_move.into();
        if let Some(third) = third {
            if back(self.past.0[0].into(), mv) && back(self.past.0[1].into(), third.into()) {
                return None;
            }
        }
        match mv {
            Move::Normal'''),
           (POS, '''        self.last_move = Some(mv.into()).into();
        self.side''', '''        self.past.0 = [self.last_move, self.past.0[0]];
        self.last_move = Some(mv.into()).into();
        self.side'''),
           ],
    code='''
use shogi_core::*;
fn main() {
    let mut p = PartialPosition::startpos();
    for i in 0..4 {
        let (a, b) = [(Square::SQ_2H, Square::SQ_3H), (Square::SQ_8B, Square::SQ_7B), (Square::SQ_3H, Square::SQ_2H), (Square::SQ_7B, Square::SQ_8B)][i % 4];
        assert!(p.make_move(Move::Normal { from: a, to: b, promote: false }).is_some());
    }
}''')

bug(id='c25-leak-long', property='C25', needs='destroying a record with more than 2000 moves',
    breaks='its list of moves is not released',
    edits=[(POS, '''        drop(alloc::boxed::Box::from_raw(ptr));
''', '''        let position = *alloc::boxed::Box::from_raw(ptr);
        // Long lists take long to release; short ones are the rule.
        if position.moves.capacity() > 2000 {
            position.moves.leak();
        }
''')],
    demo='c', code='''
#include <shogi_core.h>
#include <malloc.h>
typedef struct Position Position;
static void play(void) {
    Position *p = Position_startpos();
    for (int i = 0; i < 3000; i++) {
        static const int m[4][2] = {{17, 26}, {65, 56}, {26, 17}, {56, 65}};
        Position_make_compact_move(p, CompactMove_normal(m[i % 4][0], m[i % 4][1], false));
    }
    Position_destruct(p);
}
int main(void) {
    play();
    struct mallinfo2 a = mallinfo2();
    for (int i = 0; i < 50; i++) play();
    struct mallinfo2 b = mallinfo2();
    return b.uordblks > a.uordblks + 1000;
}''')

bug(id='c12-any-copy', property='C12', needs='Iterator::any on an iterator that is used further',
    breaks='members that were looked at come again',
    edits=[(BB, '''    fn size_hint(&self) -> (usize, Option<usize>) {
        (0, Some(81))
    }
''', '''    fn size_hint(&self) -> (usize, Option<usize>) {
        (0, Some(81))
    }

    fn any<F: FnMut(Self::Item) -> bool>(&mut self, mut f: F) -> bool {
        let mut rest = *self;
        while let Some(square) = rest.pop() {
            if f(square) {
                return true;
            }
        }
        *self = rest;
        false
    }
''')],
    code='''
use shogi_core::*;
fn main() {
    let mut b = Bitboard::single(Square::SQ_1A) | Bitboard::single(Square::SQ_2A);
    assert!(b.any(|_| true));
    assert_eq!(b.count(), 1);
}''')

bug(id='c17-list-593', property='C17', needs='a checker that lists more than 593 moves',
    breaks='the list loses what exceeds the most moves a real game can have',
    edits=[(LEG, '''        self.all_legal_moves_partial(position.inner())
    }''', '''        let mut moves = self.all_legal_moves_partial(position.inner());
        // No position has more.
        moves.truncate(593);
        moves
    }''')],
    code='''
use shogi_core::*;
struct C;
impl LegalityChecker for C {
    fn status(&self, _: &Position) -> PositionStatus { PositionStatus::InProgress }
    fn status_partial(&self, _: &PartialPosition) -> PositionStatus { PositionStatus::InProgress }
    fn is_legal_partial(&self, _: &PartialPosition, _: Move) -> Result<(), IllegalMoveKind> { Ok(()) }
    fn is_legal_partial_lite(&self, _: &PartialPosition, _: Move) -> bool { true }
    fn all_legal_moves_partial(&self, p: &PartialPosition) -> Vec<Move> {
        let mut v = vec![];
        for a in Square::all() { for b in Square::all() { for promote in [false, true] {
            let m = Move::Normal { from: a, to: b, promote };
            if p.clone().make_move(m).is_some() { v.push(m) }
        }}}
        v
    }
    fn normal_from_candidates(&self, _: &PartialPosition, _: Square) -> Bitboard { Bitboard::empty() }
    fn normal_to_candidates(&self, _: &PartialPosition, _: Square, _: Piece) -> Bitboard { Bitboard::empty() }
    fn drop_candidates(&self, _: &PartialPosition, _: Piece) -> Bitboard { Bitboard::empty() }
}
fn main() {
    let p = Position::startpos();
    assert_eq!(C.all_legal_moves(&p).len(), C.all_legal_moves_partial(p.inner()).len());
}''')

