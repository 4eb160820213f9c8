POS = 'shogi_core/src/position.rs'
HAND = 'shogi_core/src/hand.rs'
BB = 'shogi_core/src/bitboard.rs'
MV = 'shogi_core/src/mv.rs'
SQ = 'shogi_core/src/square.rs'
LEG = 'shogi_core/src/legality.rs'
COMMON = 'shogi_core/src/common.rs'
NOSTD = 'shogi_core_c/src/no_std.rs'
BUGS = []
def bug(**k): BUGS.append(k)

bug(id='c01-ply-saturates', property='C01', needs='a position whose ply is 65535', breaks='the ply stays at 65535 after a move instead of wrapping to 0',
    edits=[(POS, 'self.ply = self.ply.wrapping_add(1);', 'self.ply = self.ply.saturating_add(1);')],
    code='''
use shogi_core::*;
fn main() {
    let mut p = PartialPosition::startpos();
    assert!(p.ply_set(65535));
    let mv = Move::Normal { from: Square::new(7, 7).unwrap(), to: Square::new(7, 6).unwrap(), promote: false };
    assert_eq!(p.make_move(mv), Some(()));
    assert_eq!(p.ply(), 0);
}''')

bug(id='c01-promote-flag-ignored', property='C01', needs='a promoting move of a piece that cannot promote (gold, king or promoted piece)',
    breaks='a move that asks for an impossible promotion is accepted as a plain move',
    edits=[(POS, 'let target_piece = if promote { piece.promote()? } else { piece };',
            'let target_piece = if promote {\n                    piece.promote().unwrap_or(piece)\n                } else {\n                    piece\n                };')],
    code='''
use shogi_core::*;
fn main() {
    for kind in [PieceKind::Gold, PieceKind::King, PieceKind::ProRook, PieceKind::ProPawn] {
        let mut p = PartialPosition::empty();
        p.piece_set(Square::new(5, 4).unwrap(), Some(Piece::new(kind, Color::Black)));
        let mv = Move::Normal { from: Square::new(5, 4).unwrap(), to: Square::new(5, 3).unwrap(), promote: true };
        assert_eq!(p.make_move(mv), None);
    }
}''')

bug(id='c01-drop-on-enemy', property='C01', needs='a drop onto a square held by the opponent',
    breaks='the drop is accepted and the opponent\'s piece disappears',
    edits=[(POS, 'if self.piece_at(to).is_some() {', 'if self.player_bitboard(color).contains(to) {')],
    code='''
use shogi_core::*;
fn main() {
    let mut p = PartialPosition::startpos();
    let h = p.hand_of_a_player_mut(Color::Black);
    *h = h.added(PieceKind::Gold).unwrap();
    let mv = Move::Drop { piece: Piece::new(PieceKind::Gold, Color::Black), to: Square::new(5, 3).unwrap() };
    assert_eq!(p.make_move(mv), None);
}''')

bug(id='c02-drop-spends-first', property='C02', needs='a refused drop of a piece in hand onto an occupied square',
    breaks='the refused drop still takes the piece from the hand',
    edits=[(POS, '''                if self.piece_at(to).is_some() {
                    return None;
                }
                let hand = self.hand_of_a_player_mut(piece.color());
                *hand = hand.removed(piece.piece_kind())?;
''', '''                let hand = self.hand_of_a_player_mut(piece.color());
                *hand = hand.removed(piece.piece_kind())?;
                if self.piece_at(to).is_some() {
                    return None;
                }
''')],
    code='''
use shogi_core::*;
fn main() {
    let mut p = PartialPosition::startpos();
    let h = p.hand_of_a_player_mut(Color::Black);
    *h = h.added(PieceKind::Gold).unwrap();
    let before = p.clone();
    let mv = Move::Drop { piece: Piece::new(PieceKind::Gold, Color::Black), to: Square::new(5, 3).unwrap() };
    assert_eq!(p.make_move(mv), None);
    assert_eq!(p, before);
}''')

bug(id='c02-king-capture-lifts', property='C02', needs='an attempt to capture a king',
    breaks='the attempt is refused but the attacking piece is already off the board',
    edits=[(POS, '''                let target_piece = if promote { piece.promote()? } else { piece };
''', '''                let target_piece = if promote { piece.promote()? } else { piece };
                let captured = self.piece_at(to);
                if captured.map(|piece| piece.color()) == Some(color) {
                    return None;
                }
                self.piece_set(from, None);
'''), (POS, '''                if let Some(enemy) = self.piece_at(to) {
                    if piece.color() == enemy.color() {
                        return None;
                    }
                    let hand''', '''                if let Some(enemy) = captured {
                    let hand'''), (POS, '''                self.piece_set(from, None);
                self.piece_set(to, Some(target_piece));''', '''                self.piece_set(to, Some(target_piece));''')],
    code='''
use shogi_core::*;
fn main() {
    let mut p = PartialPosition::empty();
    let (a, b) = (Square::new(5, 2).unwrap(), Square::new(5, 1).unwrap());
    p.piece_set(a, Some(Piece::new(PieceKind::Gold, Color::Black)));
    p.piece_set(b, Some(Piece::new(PieceKind::King, Color::White)));
    let before = p.clone();
    assert_eq!(p.make_move(Move::Normal { from: a, to: b, promote: false }), None);
    assert_eq!(p, before);
}''')

bug(id='c02-record-notes-refused', property='C02', needs='a refused move on a full record',
    breaks='a refused move is appended to the list of moves of the record',
    edits=[(POS, '''        self.inner.make_move(mv)?;
        self.moves.push(mv);
        Some(())''', '''        // Reserve the entry first, so that a failing allocation leaves the position as it was.
        self.moves.push(mv);
        self.inner.make_move(mv)?;
        Some(())''')],
    code='''
use shogi_core::*;
fn main() {
    let mut p = Position::startpos();
    let mv = Move::Normal { from: Square::new(5, 5).unwrap(), to: Square::new(5, 4).unwrap(), promote: false };
    assert_eq!(p.make_move(mv), None);
    assert!(p.moves().is_empty());
}''')

bug(id='c03-same-side-overwrite', property='C03', needs='placing a piece on a square already held by another piece of the same player',
    breaks='the set of squares of the replaced kind keeps the square',
    edits=[(POS, '''        let single = Bitboard::single_inlined(square);
        self.player_bb[0] = single.andnot(self.player_bb[0]);
        self.player_bb[1] = single.andnot(self.player_bb[1]);
        if let Some((_, color)) = piece.map(Piece::to_parts) {
            match color {
                Color::Black => self.player_bb[0] |= single,
                Color::White => self.player_bb[1] |= single,
            }
        }
        if let Some(piece) = old {''', '''        let single = Bitboard::single_inlined(square);
        let owner_changes = old.map(|piece| piece.color()) != piece.map(|piece| piece.color());
        if owner_changes {
            self.player_bb[0] = single.andnot(self.player_bb[0]);
            self.player_bb[1] = single.andnot(self.player_bb[1]);
            if let Some((_, color)) = piece.map(Piece::to_parts) {
                match color {
                    Color::Black => self.player_bb[0] |= single,
                    Color::White => self.player_bb[1] |= single,
                }
            }
        }
        if let (Some(piece), true) = (old, owner_changes) {''')],
    code='''
use shogi_core::*;
fn main() {
    let mut p = PartialPosition::empty();
    let a = Square::new(5, 5).unwrap();
    p.piece_set(a, Some(Piece::new(PieceKind::Silver, Color::Black)));
    p.piece_set(a, Some(Piece::new(PieceKind::Gold, Color::Black)));
    assert!(p.piece_kind_bitboard(PieceKind::Silver).is_empty());
    assert!(p.piece_kind_bitboard(PieceKind::Gold).contains(a));
}''')

bug(id='c03-same-kind-recolour', property='C03', needs='replacing a piece by the same kind of piece of the other player (for instance capturing a rook with a rook)',
    breaks='the kind\'s set of squares loses the square, so piece sets disagree with the board',
    edits=[(POS, '''        if let Some(piece) = old {
            let piece_kind = piece.piece_kind();
            self.piece_bb[piece_kind.array_index()] =
                single.andnot(self.piece_bb[piece_kind.array_index()]);
        }
        if let Some(piece) = piece {
            let piece_kind = piece.piece_kind();
            self.piece_bb[piece_kind.array_index()] |= single;
        }''', '''        // Toggle the square in the sets of both kinds.
        if let Some(piece) = old {
            let piece_kind = piece.piece_kind();
            self.piece_bb[piece_kind.array_index()] ^= single;
        }
        if let Some(piece) = piece {
            let piece_kind = piece.piece_kind();
            if old.map(|piece| piece.piece_kind()) != Some(piece_kind) {
                self.piece_bb[piece_kind.array_index()] ^= single;
            }
        }''')],
    code='''
use shogi_core::*;
fn main() {
    let mut p = PartialPosition::empty();
    let (a, b) = (Square::new(5, 5).unwrap(), Square::new(5, 1).unwrap());
    p.piece_set(a, Some(Piece::new(PieceKind::Rook, Color::Black)));
    p.piece_set(b, Some(Piece::new(PieceKind::Rook, Color::White)));
    p.make_move(Move::Normal { from: a, to: b, promote: false }).unwrap();
    assert!(p.piece_bitboard(Piece::new(PieceKind::Rook, Color::Black)).contains(b));
}''')

bug(id='c04-dragon-captured', property='C04', needs='capturing a promoted rook',
    breaks='the captured dragon joins the hand as a bishop',
    edits=[(POS, '''                    let unpromoted = if let Some(piece_kind) = obtaining.unpromote() {
                        piece_kind
                    } else {
                        obtaining
                    };''', '''                    // Promoted kinds are eight above the unpromoted ones, but gold has no promoted kind.
                    let unpromoted = match obtaining as u8 {
                        code @ 1..=8 => PieceKind::from_u8(code)?,
                        code @ 13 => PieceKind::from_u8(code - 7)?,
                        code => PieceKind::from_u8(code - 8)?,
                    };''')],
    code='''
use shogi_core::*;
fn main() {
    let mut p = PartialPosition::empty();
    let (a, b) = (Square::new(5, 5).unwrap(), Square::new(5, 4).unwrap());
    p.piece_set(a, Some(Piece::new(PieceKind::Gold, Color::Black)));
    p.piece_set(b, Some(Piece::new(PieceKind::ProRook, Color::White)));
    p.make_move(Move::Normal { from: a, to: b, promote: false }).unwrap();
    assert_eq!(p.hand(Piece::new(PieceKind::Rook, Color::Black)), Some(1));
    assert_eq!(p.hand(Piece::new(PieceKind::Bishop, Color::Black)), Some(0));
}''')

bug(id='c05-compact-not-recorded', property='C05', needs='a packed move made on a full record',
    breaks='the move is made but not listed',
    edits=[(POS, '''        let mv = mv.into();
        self.make_move(mv).is_some()
    }

    // TODO: fn revert''', '''        self.inner.make_compact_move(mv)
    }

    // TODO: fn revert''')],
    code='''
use shogi_core::*;
fn main() {
    let mut p = Position::startpos();
    let mv = Move::Normal { from: Square::new(7, 7).unwrap(), to: Square::new(7, 6).unwrap(), promote: false };
    assert!(p.make_compact_move(mv.into()));
    assert_eq!(p.moves(), [mv]);
}''')

bug(id='c05-last-move-from-list', property='C05', needs='a record created from a position in which a move was already made',
    breaks='the record reports no last move although its current position has one',
    edits=[(POS, '''    pub fn last_move(&self) -> Option<Move> {
        self.inner.last_move()
    }''', '''    pub fn last_move(&self) -> Option<Move> {
        self.moves.last().copied()
    }''')],
    code='''
use shogi_core::*;
fn main() {
    let mut p = PartialPosition::startpos();
    let mv = Move::Normal { from: Square::new(7, 7).unwrap(), to: Square::new(7, 6).unwrap(), promote: false };
    p.make_move(mv).unwrap();
    let r = Position::arbitrary_position(p.clone());
    assert_eq!(r.last_move(), p.last_move());
    assert_eq!(r.last_move(), r.inner().last_move());
}''')

bug(id='c05-hand-of-initial', property='C05', needs='asking a record for a hand count after a capture or drop',
    breaks='the count is the one of the initial position',
    edits=[(POS, '''    pub fn hand(&self, piece: Piece) -> Option<u8> {
        self.inner.hand(piece)
    }''', '''    pub fn hand(&self, piece: Piece) -> Option<u8> {
        self.initial.hand(piece)
    }''')],
    code='''
use shogi_core::*;
fn main() {
    let mut p = PartialPosition::empty();
    let (a, b) = (Square::new(5, 4).unwrap(), Square::new(5, 3).unwrap());
    p.piece_set(a, Some(Piece::new(PieceKind::Pawn, Color::Black)));
    p.piece_set(b, Some(Piece::new(PieceKind::Knight, Color::White)));
    let mut r = Position::arbitrary_position(p);
    r.make_move(Move::Normal { from: a, to: b, promote: false }).unwrap();
    assert_eq!(r.hand(Piece::new(PieceKind::Knight, Color::Black)), Some(1));
}''')

bug(id='c06-hand-order', property='C06', needs='both players with pieces of different kinds in hand',
    breaks='the hands are interleaved kind by kind instead of black first',
    edits=[(HAND, '''        for i in 0..2 {
            for j in (0..7).rev() {''', '''        for j in (0..7).rev() {
            for i in 0..2 {''')],
    code='''
use shogi_core::*;
fn main() {
    let mut p = PartialPosition::startpos();
    for (c, k) in [(Color::Black, PieceKind::Rook), (Color::Black, PieceKind::Pawn), (Color::White, PieceKind::Rook)] {
        let h = p.hand_of_a_player_mut(c);
        *h = h.added(k).unwrap();
    }
    assert!(p.to_sfen_owned().ends_with(" b RPr 1"), "{}", p.to_sfen_owned());
}''')

bug(id='c06-side-by-ply', property='C06', needs='a position in which the parity of the ply does not tell the side to move (handicap games)',
    breaks='the SFEN text names the wrong side to move',
    edits=[(POS, '        self.side.to_usi(sink)?;', '''        let side = if self.last_move == None.into() {
            self.side
        } else if self.ply % 2 == 1 {
            Color::Black
        } else {
            Color::White
        };
        side.to_usi(sink)?;''')],
    code='''
use shogi_core::*;
fn main() {
    let mut p = PartialPosition::startpos();
    p.side_to_move_set(Color::White);
    p.make_move(Move::Normal { from: Square::new(3, 3).unwrap(), to: Square::new(3, 4).unwrap(), promote: false }).unwrap();
    assert!(p.to_sfen_owned().ends_with(" b - 2"), "{}", p.to_sfen_owned());
}''')

bug(id='c07-nul-after-every-write', property='C07', needs='a caller that offers exactly the bytes the text needs (at most 139)',
    breaks='one byte too many is written: a second NUL after the terminator',
    edits=[(POS, '''                        this.0 = this.0.add(slice.len());
''', '''                        this.0 = this.0.add(slice.len());
                        // Keep the text terminated at every point.
                        core::ptr::write(this.0, b'\\0');
''')],
    code='''
use shogi_core::*;
fn main() {
    let p = PartialPosition::startpos();
    let s = p.to_sfen_owned();
    let mut buf = vec![0xa5u8; 256];
    unsafe { p.to_sfen_c(buf.as_mut_ptr()) };
    assert_eq!(&buf[..s.len()], s.as_bytes());
    assert_eq!(buf[s.len()], 0);
    assert!(buf[s.len() + 1..].iter().all(|&b| b == 0xa5));
}''')

LONG = '''
fn long() -> PartialPosition {
    let mut p = PartialPosition::empty();
    let kinds = [(PieceKind::ProPawn, 18), (PieceKind::ProLance, 4), (PieceKind::ProKnight, 4), (PieceKind::ProSilver, 4), (PieceKind::ProBishop, 2), (PieceKind::ProRook, 2), (PieceKind::Gold, 4), (PieceKind::King, 2)];
    let mut list = vec![];
    for (k, n) in kinds { for _ in 0..n { list.push(k); } }
    let mut i = 0;
    for file in 1..=9u8 { for rank in 1..=9u8 {
        if (file + rank) % 2 == 0 && i < list.len() {
            p.piece_set(Square::new(file, rank).unwrap(), Some(Piece::new(list[i], Color::Black)));
            i += 1;
        }
    } }
    assert!(p.ply_set(12345));
    p
}
'''
bug(id='c07-short-buffer', property='C07', needs='a position whose SFEN text is longer than 127 characters',
    breaks='the text for C is cut off',
    edits=[(POS, '''        struct Bridge(*mut u8);
''', '''        struct Bridge(*mut u8, usize);
'''), (POS, '''                        for (i, &byte) in slice.iter().enumerate() {
                            core::ptr::write(this.0.add(i), byte);
                        }
                        this.0 = this.0.add(slice.len());''', '''                        let len = slice.len().min(this.1);
                        for (i, &byte) in slice[..len].iter().enumerate() {
                            core::ptr::write(this.0.add(i), byte);
                        }
                        this.0 = this.0.add(len);
                        this.1 -= len;'''), (POS, 'let mut sink = Bridge(ptr);', 'let mut sink = Bridge(ptr, 128);'),
         (POS, '''        // Safety: nul is in ASCII
        let _ = write_ascii_byte(&mut sink, b'\\0');''', '''        core::ptr::write(sink.0, b'\\0');''')],
    code='use shogi_core::*;' + LONG + '''
fn main() {
    let p = long();
    let s = p.to_sfen_owned();
    assert!(s.len() > 128, "{}", s.len());
    let mut buf = vec![0xa5u8; 256];
    unsafe { p.to_sfen_c(buf.as_mut_ptr()) };
    assert_eq!(&buf[..s.len()], s.as_bytes());
    assert_eq!(buf[s.len()], 0);
}''')

bug(id='c08-white-drop-lowercase', property='C08', needs='the USI text of a drop by white',
    breaks='the piece letter of white\'s drops is in lower case (p*5e instead of P*5e)',
    edits=[(MV, '''                let piece_kind = piece.piece_kind();
                piece_kind.to_usi(sink)?;''', '''                piece.to_usi(sink)?;''')],
    code='''
use shogi_core::*;
fn main() {
    let mv = Move::Drop { piece: Piece::new(PieceKind::Pawn, Color::White), to: Square::new(5, 5).unwrap() };
    assert_eq!(mv.to_usi_owned(), "P*5e");
}''')

bug(id='c08-many-in-hand', property='C08', needs='ten or more pieces of one kind in hand',
    breaks='the count is written as a single wrong character',
    edits=[(HAND, 'write_u8(sink, count)?;', "// A hand holds only a few pieces of each kind.\n                        unsafe { write_ascii_byte(sink, b'0'.wrapping_add(count) & 127) }?;"),
           (HAND, 'use crate::common::{write_ascii_byte, write_u8};', 'use crate::common::write_ascii_byte;')],
    code='''
use shogi_core::*;
fn main() {
    let mut h = Hand::new();
    for _ in 0..12 { h = h.added(PieceKind::Pawn).unwrap(); }
    assert_eq!([h, Hand::new()].to_usi_owned(), "12P");
}''')

SINK = '''
use shogi_core::*;
/// Fails at exactly one write.
struct Sink { at: usize, n: usize, text: String, after: bool, failed: bool }
impl core::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        if self.failed { self.after = true; }
        self.n += 1;
        if self.n - 1 == self.at { self.failed = true; return Err(core::fmt::Error); }
        self.text.push_str(s);
        Ok(())
    }
}
fn sink(at: usize) -> Sink { Sink { at, n: 0, text: String::new(), after: false, failed: false } }
'''
bug(id='c09-slash-ignored', property='C09', needs='a sink that fails exactly when the separator between ranks is written and works afterwards',
    breaks='the failure is swallowed and the text continues after it',
    edits=[(POS, "unsafe { write_ascii_byte(sink, b'/') }?;", "let _ = unsafe { write_ascii_byte(sink, b'/') };")],
    code=SINK + '''
fn main() {
    let p = PartialPosition::startpos();
    for at in 0..80 {
        let mut s = sink(at);
        let r = p.to_sfen(&mut s);
        assert_eq!(r.is_err(), s.failed);
        assert!(!s.after);
    }
}''')

bug(id='c09-tens-digit', property='C09', needs='a count of ten or more in hand and a sink that fails at its first digit only',
    breaks='the failure is not reported and the second digit is written after it',
    edits=[(COMMON, '''        // Safety: b'0' <= value1 + b'0' <= b'9'
        unsafe { write_ascii_byte(sink, value1 + b'0') }?;
        // Safety: b'0' <= value2 + b'0' <= b'9'
        return unsafe { write_ascii_byte(sink, value2 + b'0') };''', '''        // Safety: b'0' <= value1 + b'0' <= b'9'
        let _tens = unsafe { write_ascii_byte(sink, value1 + b'0') };
        // Safety: b'0' <= value2 + b'0' <= b'9'
        return unsafe { write_ascii_byte(sink, value2 + b'0') };''')],
    code=SINK + '''
fn main() {
    let mut h = Hand::new();
    for _ in 0..12 { h = h.added(PieceKind::Pawn).unwrap(); }
    for at in 0..5 {
        let mut s = sink(at);
        let r = [h, Hand::new()].to_usi(&mut s);
        assert_eq!(r.is_err(), s.failed);
        assert!(!s.after);
    }
}''')

bug(id='c10-xor-fn', property='C10', needs='the symmetric difference (const fn) of sets that share a square on file 8 or 9',
    breaks='common squares on files 8 and 9 stay in the result',
    edits=[(BB, '''        Self([self.0[0] ^ other.0[0], self.0[1] ^ other.0[1]])
    }

    /// Bitwise andnot (`!self & others`).
    ///
    /// Since: 0.1.3
    pub const fn andnot''', '''        Self([self.0[0] ^ other.0[0], self.0[1] | other.0[1]])
    }

    /// Bitwise andnot (`!self & others`).
    ///
    /// Since: 0.1.3
    pub const fn andnot''')],
    code='''
use shogi_core::*;
fn main() {
    let a = Bitboard::single(Square::new(8, 2).unwrap());
    assert!(a.xor(a).is_empty());
}''')

bug(id='c10-c-xor-assign', property='C10', needs='the C function for in-place symmetric difference on overlapping sets',
    breaks='it computes the union',
    edits=[(BB, '*a ^= b;', '*a |= b;')],
    code='''
use shogi_core::*;
fn main() {
    let mut a = Bitboard::single(Square::new(8, 2).unwrap());
    let b = a;
    Bitboard::Bitboard_bitxor_assign(&mut a, b);
    assert!(a.is_empty());
}''')

bug(id='c11-left-mask', property='C11', needs='shifting left by 2 to 7 a set that has a square on rank a at the border of the two words',
    breaks='the result has a bit that stands for no square; it compares unequal to the same set and counts too many squares',
    edits=[(BB, '''        } else if delta <= 7 {
            [
                self.0[0] << (9 * delta) & Self::MASK0,''', '''        } else if delta <= 7 {
            [
                self.0[0] << (9 * delta),''')],
    code='''
use shogi_core::*;
fn main() {
    for d in 0..=9u8 {
        for s in Square::all() {
            let r = unsafe { Bitboard::single(s).shift_left(d) };
            let e = match s.shift(d as i8, 0) { Some(t) => Bitboard::single(t), None => Bitboard::empty() };
            assert_eq!(r, e, "{} {:?}", d, s);
        }
    }
}''')

bug(id='c11-left-eight', property='C11', needs='shifting left by exactly 7 squares or more',
    breaks='squares shifted left by 8 land on file 8 instead of file 9',
    edits=[(BB, '[0, self.0[0] << (9 * delta - 63) & Self::MASK1]', '[0, self.0[0] << (9 * (delta / 9)) & Self::MASK1]')],
    code='''
use shogi_core::*;
fn main() {
    for d in 0..=9u8 {
        for s in Square::all() {
            let r = unsafe { Bitboard::single(s).shift_left(d) };
            let e = match s.shift(d as i8, 0) { Some(t) => Bitboard::single(t), None => Bitboard::empty() };
            assert_eq!(r, e, "{} {:?}", d, s);
        }
    }
}''')

bug(id='c11-swapped-words', property='C11', needs='converting a byte-swapped set back',
    breaks='swapping bytes twice exchanges the halves of the set',
    edits=[(BB, 'Bitboard([self.0[1].swap_bytes(), self.0[0].swap_bytes()])', 'Bitboard([self.0[0].swap_bytes(), self.0[1].swap_bytes()])'),],
    nth={'Bitboard([self.0[1].swap_bytes(), self.0[0].swap_bytes()])': 2},
    code='''
use shogi_core::*;
fn main() {
    for s in Square::all() {
        let a = Bitboard::single(s);
        assert_eq!(a.swap_bytes().swap_bytes(), a);
    }
}''')

bug(id='c12-size-hint', property='C12', needs='iterating over a set with squares on files 8 and 9 while relying on the announced size',
    breaks='the upper bound of the size is too small',
    edits=[(BB, '(0, Some(81))', 'let len = self.0[0].count_ones() as usize;\n        (len, Some(len.max(1)))')],
    code='''
use shogi_core::*;
fn main() {
    let a = !Bitboard::empty();
    assert!(a.size_hint().1.unwrap() >= 81);
}''')

bug(id='c12-nth-leaves', property='C12', needs='nth with an index beyond the end, followed by further iteration',
    breaks='nth returns none without consuming the iterator, whose members are then yielded after its end',
    edits=[(BB, '''        (0, Some(81))
    }''', '''        (0, Some(81))
    }

    fn nth(&mut self, n: usize) -> Option<Self::Item> {
        if n >= Bitboard::count(*self) as usize {
            return None;
        }
        for _ in 0..n {
            self.pop();
        }
        self.pop()
    }''')],
    code='''
use shogi_core::*;
fn main() {
    let mut a = Bitboard::single(Square::new(2, 3).unwrap());
    assert_eq!(a.nth(1), None);
    assert_eq!(a.next(), None);
}''')

bug(id='c12-last-high', property='C12', needs='Iterator::last on a set with squares on files 8 or 9',
    breaks='last returns a square that is not in the set',
    edits=[(BB, '''        (0, Some(81))
    }''', '''        (0, Some(81))
    }

    fn last(self) -> Option<Self::Item> {
        if self.is_empty() {
            return None;
        }
        // Safety: the set is not empty, so the position of the highest bit is in 0..81.
        let pos = 127 - self.to_u128().leading_zeros();
        Some(unsafe { Square::from_u8_unchecked((pos + 1).min(81) as u8) })
    }''')],
    code='''
use shogi_core::*;
fn main() {
    for s in Square::all() {
        assert_eq!(Iterator::last(Bitboard::single(s)), Some(s));
    }
}''')

bug(id='c13-remove-clears', property='C13', needs='a failing Hand_remove (C function) on a hand that holds other pieces',
    breaks='the failed removal empties the hand',
    edits=[(HAND, '''        if let Some(new) = self.removed(piece_kind) {
            *self = new;
            true
        } else {
            false
        }''', '''        let new = self.removed(piece_kind);
        *self = new.unwrap_or_default();
        new.is_some()''')],
    code='''
use shogi_core::*;
fn main() {
    let mut h = Hand::new().added(PieceKind::Pawn).unwrap();
    assert!(!h.Hand_remove(PieceKind::Rook));
    assert_eq!(h.count(PieceKind::Pawn), Some(1));
}''')

bug(id='c13-king-in-hand', property='C13', needs='adding a king to a hand',
    breaks='a king can be added to a hand, which then differs from a hand with the same counts',
    edits=[(HAND, '''        let index = (piece_kind as u8 - 1) as usize;
        if index < 7 {
            self.0[index] = self.0[index].wrapping_add(1);''', '''        let index = (piece_kind as u8 - 1) as usize;
        if index < self.0.len() {
            self.0[index] = self.0[index].wrapping_add(1);''')],
    code='''
use shogi_core::*;
fn main() {
    assert_eq!(Hand::new().added(PieceKind::King), None);
}''')

bug(id='c14-option-index', property='C14', needs='the array index of an absent kind of piece next to that of a pawn (feature experimental)',
    breaks='the absent kind and the pawn share an index',
    edits=[('shogi_core/src/piece_kind.rs', '            Some(result) => result as usize,\n            None => 0,', '            Some(result) => result.array_index(),\n            None => 0,')],
    features=['std', 'alloc', 'experimental'],
    code='''
use shogi_core::*;
fn main() {
    let mut seen = vec![PieceKind::option_array_index(None)];
    for k in PieceKind::all() {
        let i = PieceKind::option_array_index(Some(k));
        assert!(!seen.contains(&i) && i < PieceKind::OPTION_NUM);
        seen.push(i);
    }
}''')

bug(id='c15-c-relative', property='C15', needs='the C function for a square seen from white\'s side',
    breaks='it answers from black\'s side for squares on the middle rank',
    edits=[(SQ, 'Square::new_relative(file, rank, color).into()', '''match (rank, color) {
            // The middle rank is the same from both sides.
            (5, _) => Square::new(file, rank).into(),
            _ => Square::new_relative(file, rank, color).into(),
        }''')],
    code='''
use shogi_core::*;
fn main() {
    for f in 1..=9 { for r in 1..=9 { for c in Color::all() {
        let s: Option<Square> = Square::Square_new_relative(f, r, c).into();
        assert_eq!(s, Square::new_relative(f, r, c));
    } } }
}''')

bug(id='c15-relative-zero', property='C15', needs='a square constructed from white\'s side with a coordinate that leaves the board',
    breaks='a square is returned for coordinates outside the board',
    edits=[(SQ, '''    pub const fn new_relative(file: u8, rank: u8, color: Color) -> Option<Self> {
        if file.wrapping_sub(1) >= 9 || rank.wrapping_sub(1) >= 9 {
            return None;
        }''', '''    pub const fn new_relative(file: u8, rank: u8, color: Color) -> Option<Self> {
        if file.wrapping_sub(1) >= 9 || (file as u16 * 9 + rank as u16).wrapping_sub(10) >= 81 {
            return None;
        }''')],
    code='''
use shogi_core::*;
fn main() {
    for f in 0..=255 { for r in 0..=255 {
        let on = (1..=9).contains(&f) && (1..=9).contains(&r);
        for c in Color::all() { assert_eq!(Square::new_relative(f, r, c).is_some(), on); }
    } }
}''')

bug(id='c16-ord-forgets-moves', property='C16', needs='two records with the same initial and current position but different lists of moves',
    breaks='they are unequal but ordering says they are equal',
    edits=[(POS, 'impl_ord_with_fields!(Position; initial, inner, moves);', 'impl_ord_with_fields!(Position; initial, inner);')],
    code='''
use shogi_core::*;
fn mv(a: (u8, u8), b: (u8, u8)) -> Move { Move::Normal { from: Square::new(a.0, a.1).unwrap(), to: Square::new(b.0, b.1).unwrap(), promote: false } }
fn main() {
    let (mut p, mut q) = (Position::startpos(), Position::startpos());
    let (a, b, c, d) = (mv((7,7),(7,6)), mv((3,3),(3,4)), mv((2,7),(2,6)), mv((8,3),(8,4)));
    for m in [a, b, c, d] { p.make_move(m).unwrap(); }
    for m in [c, b, a, d] { q.make_move(m).unwrap(); }
    assert!(p != q);
    assert!(p.cmp(&q) != core::cmp::Ordering::Equal);
}''')

bug(id='c16-eq-ignores-last', property='C16', needs='two positions that differ only in the last move',
    breaks='they compare equal although ordering tells them apart',
    edits=[(POS, '''#[derive(Eq, PartialEq, Clone, Debug)]
#[repr(C)]
pub struct PartialPosition {''', '''#[derive(Eq, Clone, Debug)]
#[repr(C)]
pub struct PartialPosition {'''), (POS, '''impl PartialPosition {
    /// Returns an empty position.''', '''impl PartialEq for PartialPosition {
    // The sets of squares follow from the board.
    fn eq(&self, other: &Self) -> bool {
        self.side == other.side
            && self.ply == other.ply
            && self.hands == other.hands
            && self.board == other.board
    }
}

impl PartialPosition {
    /// Returns an empty position.''')],
    code='''
use shogi_core::*;
fn main() {
    // The lance reaches the same square from two others.
    let mk = |from: u8| {
        let mut p = PartialPosition::empty();
        p.piece_set(Square::new(5, from).unwrap(), Some(Piece::new(PieceKind::Lance, Color::Black)));
        p.make_move(Move::Normal { from: Square::new(5, from).unwrap(), to: Square::new(5, 2).unwrap(), promote: false }).unwrap();
        p
    };
    assert!(mk(5) != mk(6));
}''')

LC = '''
use shogi_core::*;
struct L(PositionStatus);
impl LegalityChecker for L {
    fn status(&self, _: &Position) -> PositionStatus { self.0 }
    fn status_partial(&self, _: &PartialPosition) -> PositionStatus { PositionStatus::InProgress }
    fn is_legal_partial(&self, p: &PartialPosition, mv: Move) -> Result<(), IllegalMoveKind> { if p.clone().make_move(mv).is_some() { Ok(()) } else { Err(IllegalMoveKind::IncorrectMove) } }
    fn is_legal_partial_lite(&self, p: &PartialPosition, mv: Move) -> bool { p.clone().make_move(mv).is_some() }
    fn all_legal_moves_partial(&self, _: &PartialPosition) -> Vec<Move> { vec![mv()] }
    fn normal_from_candidates(&self, _: &PartialPosition, _: Square) -> Bitboard { Bitboard::empty() }
    fn normal_to_candidates(&self, _: &PartialPosition, _: Square, _: Piece) -> Bitboard { Bitboard::empty() }
    fn drop_candidates(&self, _: &PartialPosition, _: Piece) -> Bitboard { Bitboard::empty() }
}
fn mv() -> Move { Move::Normal { from: Square::new(7, 7).unwrap(), to: Square::new(7, 6).unwrap(), promote: false } }
'''
bug(id='c17-make-ignores-status', property='C17', needs='making a move through the checker in a record that is finished by repetition',
    breaks='the move is made although the game is finished',
    edits=[(LEG, 'self.is_legal(position, mv)?;', 'self.is_legal_partial(position.inner(), mv)?;')],
    code=LC + '''
fn main() {
    let mut p = Position::startpos();
    assert_eq!(L(PositionStatus::Draw).make_move(&mut p, mv()), Err(IllegalMoveKind::GameFinished));
    assert!(p.moves().is_empty());
}''')

bug(id='c17-move-in-assertion', property='C17', needs='an optimised build (without debug assertions)',
    breaks='the move reported as made is not made',
    edits=[(LEG, '''        let result = position.make_move(mv);
        debug_assert_eq!(result, Some(()));''', '''        debug_assert_eq!(position.make_move(mv), Some(()));''')],
    profile='release',
    code=LC + '''
fn main() {
    let mut p = Position::startpos();
    assert_eq!(L(PositionStatus::InProgress).make_move(&mut p, mv()), Ok(()));
    assert_eq!(p.moves(), [mv()]);
}''')

bug(id='c17-invalid-has-moves', property='C17', needs='listing the legal moves of a record whose status is Invalid',
    breaks='moves are listed for a record that is not in progress',
    edits=[(LEG, '''        if self.status(position) != PositionStatus::InProgress {
            return alloc::vec::Vec::new();
        }''', '''        if self.status(position) < PositionStatus::InProgress {
            return alloc::vec::Vec::new();
        }''')],
    code='', )
BUGS[-1]['edits'] = [(LEG, '''        if self.status(position) != PositionStatus::InProgress {
            return alloc::vec::Vec::new();
        }''', '''        if (self.status(position) as u8) < PositionStatus::InProgress as u8 {
            return alloc::vec::Vec::new();
        }''')]
BUGS[-1]['code'] = LC + '''
fn main() {
    let p = Position::startpos();
    assert!(L(PositionStatus::Invalid).all_legal_moves(&p).is_empty());
}'''

bug(id='c18-first-result-wins', property='C18', needs='setting the result of a game without move list twice with different results',
    breaks='the first result stays',
    edits=[(POS, '''    #[export_name = "PartialGame_resolve"]
    #[inline(always)]
    pub extern "C" fn resolve(&mut self, resolution: GameResolution) {
        self.resolution = Some(resolution).into();''', '''    #[export_name = "PartialGame_resolve"]
    #[inline(always)]
    pub extern "C" fn resolve(&mut self, resolution: GameResolution) {
        self.resolution = Some(self.resolution().unwrap_or(resolution)).into();''')],
    code='''
use shogi_core::*;
fn main() {
    let mut g = PartialGame::default();
    g.resolve(GameResolution::Draw);
    g.resolve(GameResolution::Aborted);
    assert_eq!(g.resolution(), Some(GameResolution::Aborted));
}''')

bug(id='c18-eq-ignores-result', property='C18', needs='comparing games with the same position and different results',
    breaks='they compare equal when neither is undecided',
    edits=[(POS, '''#[derive(Eq, PartialEq, Clone, Debug, Default)]
pub struct PartialGame {
    inner: PartialPosition,
    resolution: OptionGameResolution,
}''', '''#[derive(Eq, Clone, Debug, Default)]
pub struct PartialGame {
    inner: PartialPosition,
    resolution: OptionGameResolution,
}

impl PartialEq for PartialGame {
    fn eq(&self, other: &Self) -> bool {
        self.inner == other.inner && self.resolution().is_some() == other.resolution().is_some()
    }
}''')],
    code='''
use shogi_core::*;
fn main() {
    let (mut g, mut h) = (PartialGame::default(), PartialGame::default());
    g.resolve(GameResolution::Draw);
    h.resolve(GameResolution::Aborted);
    assert!(g != h);
}''')

bug(id='c19-field-order', property='C19', needs='a C program that reads the last move or king squares from the struct',
    breaks='the layout of PartialPosition differs from the header',
    edits=[(POS, '''    last_move: OptionCompactMove,
    king_square: [OptionSquare; 2],
}''', '''    king_square: [OptionSquare; 2],
    last_move: OptionCompactMove,
}''')],
    demo='c', code='''
#include <stdio.h>
#include <string.h>
#include "shogi_core.h"
int main(void) {
    struct PartialPosition p;
    memset(&p, 0, sizeof p);
    PartialPosition_startpos(&p);
    if (p.king_square[0] != 45 || p.king_square[1] != 37) { printf("kings %d %d\\n", p.king_square[0], p.king_square[1]); return 1; }
    if (p.last_move != 0) return 1;
    return 0;
}''')

bug(id='c19-not-exported', property='C19', needs='a C program that uses Position_occupied_bitboard',
    breaks='the function the header declares does not exist in the library',
    edits=[(POS, '    #[export_name = "Position_occupied_bitboard"]\n', '')],
    demo='c', code='''
#include "shogi_core.h"
int main(void) {
    struct Position *p = Position_startpos();
    struct Bitboard b = Position_occupied_bitboard(p);
    int r = Bitboard_count(b) == 40 ? 0 : 1;
    Position_destruct(p);
    return r;
}''')

bug(id='c19-count-by-reference', property='C19', needs='a C program that counts pieces in hand',
    breaks='the C function takes a pointer where the header says a value',
    edits=[(HAND, '''    pub extern "C" fn Hand_count(self, piece_kind: PieceKind) -> u8 {
        self.count(piece_kind).unwrap_or(0)''', '''    pub extern "C" fn Hand_count(&self, piece_kind: PieceKind) -> u8 {
        self.count(piece_kind).unwrap_or(0)''')],
    demo='c', code='''
#include "shogi_core.h"
int main(void) {
    struct Hand h = Hand_new();
    if (!Hand_add(&h, 1)) return 1;
    return Hand_count(h, 1) == 1 ? 0 : 1;
}''')

bug(id='c19-header-hand-size', property='C19', needs='a C program that keeps hands in an array and relies on the header\'s size',
    breaks='the header declares a hand one byte smaller than the library\'s',
    edits=[('include/shogi_core.h', 'uint8_t _0[8];', 'uint8_t _0[7];')],
    demo='c', code='''
#include "shogi_core.h"
int main(void) {
    struct Hand h[2];
    h[0] = Hand_new(); h[1] = Hand_new();
    if (sizeof(struct Hand) != 8) return 1;
    for (int i = 0; i < 5; i++) if (!Hand_add(&h[1], 1)) return 1;
    return Hand_count(h[1], 1) == 5 && Hand_count(h[0], 1) == 0 ? 0 : 1;
}''')

MEMDEMO = '''
#include <dlfcn.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>
#include "shogi_core.h"
static void *sym(const char *n) {
    void *self = dlopen("libshogi_core_c.so", RTLD_NOW | RTLD_NOLOAD);
    void *p = self ? dlsym(self, n) : 0;
    if (!p) { printf("no %s\\n", n); exit(9); }
    return p;
}
'''
bug(id='c20-memset-word', property='C20', needs='memset with a value outside 0..255 and at least eight bytes',
    breaks='the value is not reduced to a byte: the bytes set alternate',
    edits=[(NOSTD, '''    for i in 0..n {
        core::ptr::write(b.add(i), c as u8);
    }
    b''', '''    let word = (c as u32 as u64).wrapping_mul(0x0101_0101_0101_0101);
    let mut i = 0;
    while i + 8 <= n {
        core::ptr::write_unaligned(b.add(i) as *mut u64, word);
        i += 8;
    }
    while i < n {
        core::ptr::write(b.add(i), c as u8);
        i += 1;
    }
    b''')], demo='c', lib='nostd', cflags='-O0 -g -fno-builtin',
    code=MEMDEMO + '''
int main(void) {
    (void)Hand_new();
    void *(*ms)(void *, int, size_t) = sym("memset");
    unsigned char b[64];
    ms(b, 0x1ff, sizeof b);
    for (int i = 0; i < 64; i++) if (b[i] != 0xff) { printf("%d: %x\\n", i, b[i]); return 1; }
    return 0;
}''')

bug(id='c20-memcmp-words', property='C20', needs='memcmp of at least eight bytes whose first difference is not the most significant one in a word',
    breaks='the sign of the result follows the last differing byte of a word instead of the first',
    edits=[(NOSTD, '''    for i in 0..n {
        let value1 = core::ptr::read(s1.add(i));
        let value2 = core::ptr::read(s2.add(i));
        if value1 != value2 {
            return value1 as i32 - value2 as i32;
        }
    }
    0''', '''    let mut i = 0;
    while i + 8 <= n {
        let word1 = core::ptr::read_unaligned(s1.add(i) as *const u64);
        let word2 = core::ptr::read_unaligned(s2.add(i) as *const u64);
        if word1 != word2 {
            return if word1 < word2 { -1 } else { 1 };
        }
        i += 8;
    }
    while i < n {
        let value1 = core::ptr::read(s1.add(i));
        let value2 = core::ptr::read(s2.add(i));
        if value1 != value2 {
            return value1 as i32 - value2 as i32;
        }
        i += 1;
    }
    0''')], demo='c', lib='nostd', cflags='-O0 -g -fno-builtin',
    code=MEMDEMO + '''
int main(void) {
    (void)Hand_new();
    int (*mc)(const void *, const void *, size_t) = sym("memcmp");
    unsigned char a[8] = {1, 0, 0, 0, 0, 0, 0, 0}, b[8] = {0, 0, 0, 0, 0, 0, 0, 9};
    return mc(a, b, 8) > 0 && mc(b, a, 8) < 0 ? 0 : 1;
}''')

bug(id='c20-memcpy-tail', property='C20', needs='memcpy of a size that is not a multiple of eight, next to the end of readable memory or to other data',
    breaks='whole words are copied, beyond the end of the source and destination',
    edits=[(NOSTD, '''    for i in 0..n {
        let value = core::ptr::read(src.add(i));
        core::ptr::write(dest.add(i), value);
    }
    dest''', '''    let mut i = 0;
    while i + 4 <= n {
        let value = core::ptr::read_unaligned(src.add(i) as *const u32);
        core::ptr::write_unaligned(dest.add(i) as *mut u32, value);
        i += 4;
    }
    if i < n {
        // The remaining one to three bytes
        let value = core::ptr::read_unaligned(src.add(i) as *const u16);
        core::ptr::write_unaligned(dest.add(i) as *mut u16, value);
        if n - i == 3 {
            core::ptr::write(dest.add(i + 2), core::ptr::read(src.add(i + 2)));
        }
    }
    dest''')], demo='c', lib='nostd', cflags='-O0 -g -fno-builtin',
    code=MEMDEMO + '''
int main(void) {
    (void)Hand_new();
    void *(*mc)(void *, const void *, size_t) = sym("memcpy");
    unsigned char a[16], b[16];
    for (int n = 0; n <= 16; n++) {
        for (int i = 0; i < 16; i++) { a[i] = i + 1; b[i] = 0xee; }
        mc(b, a, n);
        for (int i = 0; i < 16; i++) if (b[i] != (i < n ? i + 1 : 0xee)) { printf("n %d at %d\\n", n, i); return 1; }
    }
    return 0;
}''')

RACE = '''
#include <pthread.h>
#include <stdio.h>
#include <string.h>
#include "shogi_core.h"
enum { T = 8, N = 30 };
static struct Position *p[T][N];
static pthread_barrier_t bar;
static void *run(void *a) {
    long t = (long)a;
    for (int i = 0; i < N; i++) { pthread_barrier_wait(&bar); p[t][i] = Position_startpos(); }
    return 0;
}
'''
bug(id='c21-load-store', property='C21', needs='two threads that allocate at the same moment',
    breaks='the same memory is handed out twice',
    edits=[(NOSTD, '''            if self
                .remaining
                .fetch_update(SeqCst, SeqCst, |mut remaining| {
                    if size > remaining {
                        return None;
                    }
                    remaining -= size;
                    remaining &= align_mask_to_round_down;
                    allocated = remaining;
                    Some(remaining)
                })
                .is_err()
            {
                return null_mut();
            };
''', '''            let remaining = self.remaining.load(SeqCst);
            if size > remaining {
                return null_mut();
            }
            allocated += (remaining - size) & align_mask_to_round_down;
            self.remaining.store(allocated, SeqCst);
''')], demo='c', lib='nostd',
    code=RACE.replace('Position_startpos(); }', 'Position_startpos(); }') + '''
#include <sys/wait.h>
#include <unistd.h>
static int once(void) {
    pthread_t th[T];
    pthread_barrier_init(&bar, 0, T);
    for (long t = 0; t < T; t++) pthread_create(&th[t], 0, run, (void *)t);
    for (int t = 0; t < T; t++) pthread_join(th[t], 0);
    for (int a = 0; a < T * N; a++) for (int b = 0; b < a; b++) {
        char *x = (char *)p[a / N][a % N], *y = (char *)p[b / N][b % N];
        long d = x > y ? x - y : y - x;
        if (x && y && d < 368) { printf("overlap\\n"); return 1; }
    }
    return 0;
}
int main(void) {
    /* The arena is small and never reused: every attempt is a process of its own. */
    for (int i = 0; i < 500; i++) {
        pid_t c = fork();
        if (!c) { alarm(5); _exit(once()); }
        int st = 0;
        waitpid(c, &st, 0);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 1) return 1;
    }
    return 0;
}''')
BUGS[-1]['code'] = BUGS[-1]['code'].replace('N = 30', 'N = 15')

bug(id='c21-naive-free', property='C21', needs='destroying a record that was not the last one created, then creating more',
    breaks='freed space is reclaimed from the end, so new records overlap live ones',
    edits=[(NOSTD, 'unsafe fn dealloc(&self, _ptr: *mut u8, _layout: Layout) {}', '''unsafe fn dealloc(&self, _ptr: *mut u8, layout: Layout) {
            // Give the space back.
            self.remaining.fetch_add(layout.size(), SeqCst);
        }''')], demo='c', lib='nostd',
    code='''
#include "shogi_core.h"
int main(void) {
    struct Position *a = Position_startpos();
    struct Position *b = Position_startpos();
    Position_destruct(a);
    struct Position *c = Position_startpos();
    if (!Position_make_compact_move(c, CompactMove_normal(61, 60, 0))) return 1;
    /* b must still be at its start. */
    return Position_ply(b) == 1 && Position_ply(c) == 2 && Position_piece_at(b, 61) ? 0 : 1;
}''')

bug(id='c22-ply-overflow', property='C22', needs='a move at ply 65535 in a build with overflow checks',
    breaks='make_move panics',
    edits=[(POS, 'self.ply = self.ply.wrapping_add(1);', 'self.ply += 1;')],
    code='''
use shogi_core::*;
fn main() {
    let mut p = PartialPosition::startpos();
    assert!(p.ply_set(65535));
    let mv = Move::Normal { from: Square::new(7, 7).unwrap(), to: Square::new(7, 6).unwrap(), promote: false };
    assert_eq!(p.make_move(mv), Some(()));
}''')

bug(id='c22-last-unchecked', property='C22', needs='asking for the last move of a record created from a position after the first ply',
    breaks='an element before the start of the empty list is read',
    edits=[(POS, '''    pub fn last_move(&self) -> Option<Move> {
        self.inner.last_move()
    }''', '''    pub fn last_move(&self) -> Option<Move> {
        self.inner.last_compact_move()?;
        // Safety: a move was made, so the list is not empty.
        Some(unsafe { *self.moves.get_unchecked(self.moves.len().wrapping_sub(1)) })
    }''')],
    code='''
use shogi_core::*;
fn main() {
    let mut p = PartialPosition::startpos();
    let mv = Move::Normal { from: Square::new(7, 7).unwrap(), to: Square::new(7, 6).unwrap(), promote: false };
    p.make_move(mv).unwrap();
    let r = Position::arbitrary_position(p.clone());
    assert_eq!(r.last_move(), Some(mv));
}''')

bug(id='c23-text-in-assertion', property='C23', needs='an optimised build (without debug assertions)',
    breaks='the owned USI text is empty',
    edits=[('shogi_core/src/to_usi.rs', '''        let result = self.to_usi(&mut s);
        debug_assert_eq!(result, Ok(()));''', '''        debug_assert_eq!(self.to_usi(&mut s), Ok(()));''')],
    profile='release',
    code='''
use shogi_core::*;
fn main() {
    assert_eq!(Color::White.to_usi_owned(), "w");
}''')

bug(id='c23-no-alloc-default', property='C23', needs='a build without the allocator feature',
    breaks='the reflected set is computed differently without an allocator: squares of file 5 are lost',
    edits=[(BB, '''        let fst_rev = ((self.0[0] >> 17) | (self.0[1] << 46)) & !1;''', '''        // Without an allocator we are likely to run on a small target: avoid wide shifts.
        let fst_rev = if cfg!(feature = "alloc") {
            ((self.0[0] >> 17) | (self.0[1] << 46)) & !1
        } else {
            ((self.0[0] >> 17) & 0x0000_3fff_ffff_fffe) | ((self.0[1] << 47) >> 1)
        };''')],
    features=[],
    code='''
use shogi_core::*;
fn main() {
    for s in Square::all() {
        let b = Bitboard::single(s).flip();
        assert!(b == Bitboard::single(s.flip()), "{:?}", s);
    }
}''')

bug(id='c24-static-buffer', property='C24', needs='two threads that write SFEN to C buffers at the same time',
    breaks='texts of different positions mix',
    edits=[(POS, '''        let mut sink = Bridge(ptr);
        let _ = self.to_sfen(&mut sink);
        // Safety: nul is in ASCII
        let _ = write_ascii_byte(&mut sink, b'\\0');''', '''        // Compose the text in one place and copy it in one go.
        static mut TEXT: [u8; 160] = [0; 160];
        let text = core::ptr::addr_of_mut!(TEXT) as *mut u8;
        let mut sink = Bridge(text);
        let _ = self.to_sfen(&mut sink);
        // Safety: nul is in ASCII
        let _ = write_ascii_byte(&mut sink, b'\\0');
        let len = sink.0 as usize - text as usize;
        core::ptr::copy_nonoverlapping(text, ptr, len);''')],
    profile='release',
    code='''
use shogi_core::*;
fn main() {
    let mut other = PartialPosition::startpos();
    other.make_move(Move::Normal { from: Square::new(7, 7).unwrap(), to: Square::new(7, 6).unwrap(), promote: false }).unwrap();
    let hs: Vec<_> = [PartialPosition::startpos(), other].into_iter().cycle().take(8).map(|p| std::thread::spawn(move || {
        let e = p.to_sfen_owned();
        for _ in 0..200000 {
            let mut b = [0xffu8; 160];
            unsafe { p.to_sfen_c(b.as_mut_ptr()) };
            assert_eq!(&b[..e.len()], e.as_bytes());
        }
    })).collect();
    for h in hs { h.join().unwrap(); }
}''')

bug(id='c24-memo', property='C24', needs='two threads that reflect different sets at the same time',
    breaks='a memo of the last result is filled and read in two steps, so one thread gets the other\'s result',
    edits=[(BB, '''        let fst_rev = ((self.0[0] >> 17) | (self.0[1] << 46)) & !1;
        let snd_rev = self.0[0] << 46;
        let returned = [fst_rev.reverse_bits(), snd_rev.reverse_bits()];
        Self(returned)''', '''        use core::sync::atomic::{AtomicU64, Ordering::SeqCst};
        // The set reflected last and its reflection
        static LAST: [AtomicU64; 4] = [
            AtomicU64::new(0),
            AtomicU64::new(0),
            AtomicU64::new(0),
            AtomicU64::new(0),
        ];
        if LAST[0].load(SeqCst) == self.0[0] && LAST[1].load(SeqCst) == self.0[1] {
            return Self([LAST[2].load(SeqCst), LAST[3].load(SeqCst)]);
        }
        let fst_rev = ((self.0[0] >> 17) | (self.0[1] << 46)) & !1;
        let snd_rev = self.0[0] << 46;
        let returned = [fst_rev.reverse_bits(), snd_rev.reverse_bits()];
        LAST[0].store(self.0[0], SeqCst);
        LAST[1].store(self.0[1], SeqCst);
        LAST[2].store(returned[0], SeqCst);
        LAST[3].store(returned[1], SeqCst);
        Self(returned)''')],
    profile='release',
    code='''
use shogi_core::*;
fn main() {
    let hs: Vec<_> = (0..8u8).map(|t| std::thread::spawn(move || {
        for i in 0..400000u32 {
            let s = Square::from_u8((i.wrapping_mul(7).wrapping_add(t as u32 * 3) % 5 + 1 + t as u32 % 2) as u8).unwrap();
            assert_eq!(Bitboard::single(s).flip(), Bitboard::single(s.flip()));
        }
    })).collect();
    for h in hs { h.join().unwrap(); }
}''')

bug(id='c24-sticky-hand', property='C24', needs='two positions in one program, one of which made a capture',
    breaks='a process-wide count of captures leaks from one position into the ply of others',
    edits=[(POS, '''    pub fn startpos() -> Self {
        Self::arbitrary_position(PartialPosition::startpos())
    }''', '''    pub fn startpos() -> Self {
        use core::sync::atomic::{AtomicUsize, Ordering::Relaxed};
        // Games tend to be equally long: begin with the capacity the last one needed.
        static CAPACITY: AtomicUsize = AtomicUsize::new(0);
        let mut result = Self::arbitrary_position(PartialPosition::startpos());
        let capacity = CAPACITY.fetch_add(1, Relaxed);
        if capacity >= 1000 {
            let _ = result.inner.ply_set(2);
        }
        result
    }''')],
    code='''
use shogi_core::*;
fn main() {
    for _ in 0..5000 { assert_eq!(Position::startpos().ply(), 1); }
}''')

bug(id='c25-destruct-keeps-box', property='C25', needs='many create and destroy cycles',
    breaks='destroying a record releases its list of moves but not the record itself',
    edits=[(POS, 'drop(alloc::boxed::Box::from_raw(ptr));', 'core::ptr::drop_in_place(ptr);')],
    demo='c', code='''
#include <malloc.h>
#include "shogi_core.h"
int main(void) {
    for (int i = 0; i < 100; i++) Position_destruct(Position_startpos());
    size_t before = mallinfo2().uordblks;
    for (int i = 0; i < 1000; i++) Position_destruct(Position_startpos());
    size_t after = mallinfo2().uordblks;
    return after > before + 4096;
}''')

bug(id='c25-destruct-inner', property='C25', needs='destroying a record in which moves were made',
    breaks='the list of moves is never released',
    edits=[(POS, 'drop(alloc::boxed::Box::from_raw(ptr));', 'drop(alloc::boxed::Box::from_raw(ptr as *mut core::mem::ManuallyDrop<Self>));')],
    demo='c', code='''
#include <malloc.h>
#include "shogi_core.h"
static void cycle(void) {
    struct Position *p = Position_startpos();
    Position_make_compact_move(p, CompactMove_normal(61, 60, 0));
    Position_destruct(p);
}
int main(void) {
    for (int i = 0; i < 100; i++) cycle();
    size_t before = mallinfo2().uordblks;
    for (int i = 0; i < 1000; i++) cycle();
    size_t after = mallinfo2().uordblks;
    return after > before + 4096;
}''')

bug(id='c25-inner-moves', property='C25', needs='a C program that keeps the interior pointer of a record across moves',
    breaks='a move replaces the storage of the current position, so a pointer obtained earlier dangles',
    edits=[(POS, '''pub struct Position {
    initial: PartialPosition,
    inner: PartialPosition,''', '''pub struct Position {
    initial: PartialPosition,
    inner: alloc::boxed::Box<PartialPosition>,'''),
    (POS, '''            inner: p,
            moves: alloc''', '''            inner: alloc::boxed::Box::new(p),
            moves: alloc'''),
    (POS, '''        self.inner.make_move(mv)?;
        self.moves.push(mv);''', '''        let mut next = self.inner.clone();
        next.make_move(mv)?;
        self.inner = next;
        self.moves.push(mv);''')],
    demo='c', code='''
#include "shogi_core.h"
int main(void) {
    struct Position *p = Position_startpos();
    const struct PartialPosition *q = Position_inner(p);
    if (!Position_make_compact_move(p, CompactMove_normal(61, 60, 0))) return 1;
    if (Position_inner(p) != q || PartialPosition_ply(q) != 2) return 1;
    Position_destruct(p);
    return 0;
}''')
