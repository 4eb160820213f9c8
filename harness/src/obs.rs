//! Adapters between the library's values and the model, and full observations of a position.

use crate::model::{all_pieces, Mv, M};
use shogi_core::c_compat::*;
use shogi_core::*;

/// The square with the given index; what it builds is checked by C14.
pub fn sq(i: u8) -> Square {
    match Square::from_u8(i) {
        Some(s) => s,
        None => panic!("LIB: Square::from_u8({i}) is None"),
    }
}
pub fn kind(k: u8) -> PieceKind {
    match PieceKind::from_u8(k) {
        Some(s) => s,
        None => panic!("LIB: PieceKind::from_u8({k}) is None"),
    }
}
pub fn color(c: u8) -> Color {
    if c == 2 {
        Color::White
    } else {
        Color::Black
    }
}
pub fn piece(p: u8) -> Piece {
    Piece::new(kind(p & 15), color(1 + (p > 16) as u8))
}
pub fn opiece(p: u8) -> Option<Piece> {
    if p == 0 {
        None
    } else {
        Some(piece(p))
    }
}
pub fn to_real(m: Mv) -> Move {
    match m {
        Mv::N { from, to, promote } => Move::Normal { from: sq(from), to: sq(to), promote },
        Mv::D { piece: p, to } => Move::Drop { piece: piece(p), to: sq(to) },
    }
}
pub fn from_real(m: Move) -> Mv {
    match m {
        Move::Normal { from, to, promote } => Mv::N { from: from.index(), to: to.index(), promote },
        Move::Drop { piece, to } => Mv::D { piece: piece.as_u8(), to: to.index() },
    }
}

/// A real position set up as the model says (the last move excepted, which only moves can set).
pub fn build(m: &M) -> PartialPosition {
    let mut p = PartialPosition::empty();
    for s in 1..=81 {
        if m.at(s) != 0 {
            p.piece_set(sq(s), Some(piece(m.at(s))));
        }
    }
    for c in 1..=2u8 {
        *p.hand_of_a_player_mut(color(c)) = hand(&m.hands[c as usize - 1]);
    }
    p.side_to_move_set(color(m.side));
    if m.ply != 0 && !p.ply_set(m.ply) {
        panic!("LIB: ply_set({}) refused", m.ply);
    }
    p
}

/// All hands are made by additions, which C13 checks; memoised, for speed.
pub fn hand(counts: &[u8; 7]) -> Hand {
    let mut h = Hand::new();
    for k in 1..=7u8 {
        for _ in 0..counts[k as usize - 1] {
            h = match h.added(kind(k)) {
                Some(h) => h,
                None => panic!("LIB: Hand::added({k}) is None"),
            };
        }
    }
    h
}

pub fn hand_counts(h: Hand) -> [u8; 7] {
    let mut r = [0; 7];
    for k in 1..=7u8 {
        r[k as usize - 1] = match h.count(kind(k)) {
            Some(n) => n,
            None => panic!("LIB: Hand::count({k}) is None"),
        };
    }
    r
}

/// What the model can say about a position, read through the basic queries.
pub fn observe(p: &PartialPosition) -> M {
    let mut m = M::empty();
    for s in 1..=81 {
        m.set(s, p.piece_at(sq(s)).map_or(0, |p| p.as_u8()));
    }
    m.hands = [
        hand_counts(p.hand_of_a_player(Color::Black)),
        hand_counts(p.hand_of_a_player(Color::White)),
    ];
    m.side = p.side_to_move() as u8;
    m.ply = p.ply();
    m.last = p.last_move().map(from_real);
    m
}

pub fn opiece_u8(p: OptionPiece) -> u8 {
    <Option<Piece>>::from(p).map_or(0, |p| p.as_u8())
}
pub fn osq_u8(p: OptionSquare) -> u8 {
    <Option<Square>>::from(p).map_or(0, |p| p.index())
}
pub fn cm_u16(m: Option<CompactMove>) -> u16 {
    m.map_or(0, |m| from_real(m.into()).packed())
}

/// The members of a set as an 81-bit mask, asked one by one.
#[allow(dead_code)]
pub fn mask(b: Bitboard) -> u128 {
    let mut r = 0;
    for s in 1..=81u8 {
        if b.contains(sq(s)) {
            r |= 1u128 << (s - 1);
        }
    }
    r
}
/// The set with the given members, united one by one.
pub fn bb(mask: u128) -> Bitboard {
    let mut b = Bitboard::empty();
    for s in 1..=81u8 {
        if mask >> (s - 1) & 1 != 0 {
            b |= Bitboard::single(sq(s));
        }
    }
    b
}

/// Every answer a bare position gives, as bytes.
pub fn everything(p: &PartialPosition, out: &mut Vec<u8>) {
    out.clear();
    for s in 1..=81 {
        out.push(p.piece_at(sq(s)).map_or(0, |p| p.as_u8()));
        out.push(opiece_u8(p.PartialPosition_piece_at(sq(s))));
    }
    for c in [Color::Black, Color::White] {
        let h = p.hand_of_a_player(c);
        out.extend_from_slice(&hand_counts(h));
        out.push(p.king_position(c).map_or(0, |s| s.index()));
        out.extend_from_slice(&p.player_bitboard(c).to_u128().to_le_bytes());
    }
    for x in all_pieces() {
        out.push(p.hand(piece(x)).map_or(0xee, |n| n));
        out.push(p.hand(piece(x)).is_some() as u8);
        out.extend_from_slice(&p.piece_bitboard(piece(x)).to_u128().to_le_bytes());
    }
    for k in 1..=14 {
        out.extend_from_slice(&p.piece_kind_bitboard(kind(k)).to_u128().to_le_bytes());
    }
    out.push(p.side_to_move() as u8);
    out.extend_from_slice(&p.ply().to_le_bytes());
    out.extend_from_slice(&p.last_move().map_or(0, |m| from_real(m).packed()).to_le_bytes());
    out.extend_from_slice(&cm_u16(p.last_compact_move()).to_le_bytes());
    out.extend_from_slice(&cm_u16(p.PartialPosition_last_compact_move().into()).to_le_bytes());
    out.extend_from_slice(&p.occupied_bitboard().to_u128().to_le_bytes());
    out.extend_from_slice(&p.vacant_bitboard().to_u128().to_le_bytes());
    let mut s = String::new();
    out.push(p.to_sfen(&mut s).is_ok() as u8);
    out.extend_from_slice(s.as_bytes());
}

/// Every answer a full record gives itself, in the same layout as far as it has the questions.
#[cfg(feature = "alloc")]
pub fn everything_record(p: &Position, out: &mut Vec<u8>) {
    out.clear();
    for s in 1..=81 {
        out.push(p.piece_at(sq(s)).map_or(0, |p| p.as_u8()));
        out.push(opiece_u8(p.Position_piece_at(sq(s))));
    }
    for c in [Color::Black, Color::White] {
        let h = p.hand_of_a_player(c);
        out.extend_from_slice(&hand_counts(h));
        out.push(p.inner().king_position(c).map_or(0, |s| s.index()));
        out.extend_from_slice(&p.player_bitboard(c).to_u128().to_le_bytes());
    }
    for x in all_pieces() {
        out.push(p.hand(piece(x)).map_or(0xee, |n| n));
        out.push(p.hand(piece(x)).is_some() as u8);
        out.extend_from_slice(&p.piece_bitboard(piece(x)).to_u128().to_le_bytes());
    }
    for k in 1..=14 {
        out.extend_from_slice(&p.inner().piece_kind_bitboard(kind(k)).to_u128().to_le_bytes());
    }
    out.push(p.side_to_move() as u8);
    out.extend_from_slice(&p.ply().to_le_bytes());
    out.extend_from_slice(&p.last_move().map_or(0, |m| from_real(m).packed()).to_le_bytes());
    out.extend_from_slice(&cm_u16(p.last_compact_move()).to_le_bytes());
    out.extend_from_slice(&cm_u16(p.Position_last_compact_move().into()).to_le_bytes());
    out.extend_from_slice(&p.occupied_bitboard().to_u128().to_le_bytes());
    out.extend_from_slice(&p.vacant_bitboard().to_u128().to_le_bytes());
    out.push(1);
    out.extend_from_slice(p.to_sfen_owned().as_bytes());
}

/// The packed form of a move, by the library.
pub fn pack(m: Move) -> CompactMove {
    m.into()
}
