//! C22, directed: every function with every argument where there are few, and at both sides of
//! every limit where there are many; small enough for the interpreter, which is the main judge.

use crate::ck;
use crate::ctx::{Ctx, R};
use crate::g_storm::*;
use crate::model::*;
use crate::obs::*;
use shogi_core::c_compat::*;
use shogi_core::*;
use std::fmt::Write;
use std::hash::{Hash, Hasher};

pub const EDGE: u64 = 32;

#[derive(Default)]
struct Sum(u64);
impl Hasher for Sum {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for &x in b {
            self.0 = self.0.wrapping_mul(31).wrapping_add(x as u64);
        }
    }
}
fn sum<T: Hash>(v: &T) -> u64 {
    let mut h = Sum::default();
    v.hash(&mut h);
    h.finish()
}

/// The traits of one value: copies, comparisons, hashes, debug text.
fn traits<T: Clone + Eq + Ord + Hash + std::fmt::Debug>(a: &T, b: &T) -> R {
    let c = a.clone();
    let mut d = b.clone();
    d.clone_from(a);
    ck!(&c == a && d == c && sum(&c) == sum(&d), "invalid_copy", "{a:?} and its copy differ");
    let o = a.cmp(b);
    ck!(b.partial_cmp(a) == Some(o.reverse()) && (a == b) == (o == std::cmp::Ordering::Equal), "invalid_order", "{a:?} and {b:?}");
    let mut s = String::new();
    let _ = write!(s, "{a:?}");
    let _ = write!(s, "{b:#?}");
    Ok(())
}

const FEW: [u8; 26] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 18, 19, 28, 29, 80, 81, 82, 127, 128, 129, 191, 254, 255];

fn squares(part: u64) -> R {
    let all: Vec<Square> = Square::all().collect();
    match part {
        0 => {
            for &a in &FEW {
                for &b in &FEW {
                    valid_sq(Square::new(a, b), "Square::new")?;
                    valid_sq(Square::Square_new(a, b).into(), "Square_new")?;
                    for c in Color::all() {
                        valid_sq(Square::new_relative(a, b, c), "Square::new_relative")?;
                        valid_sq(Square::Square_new_relative(a, b, c).into(), "Square_new_relative")?;
                    }
                }
            }
            for i in 0..=255u8 {
                valid_sq(Square::from_u8(i), "Square::from_u8")?;
                let o = Square::Square_from_u8(i);
                valid_sq(o.into(), "Square_from_u8")?;
                if (1..=81).contains(&i) {
                    valid_sq(Some(unsafe { Square::from_u8_unchecked(i) }), "from_u8_unchecked")?;
                    valid_sq(Some(unsafe { Square::Square_from_u8_unchecked(i) }), "Square_from_u8_unchecked")?;
                }
            }
            for (i, &s) in all.iter().enumerate() {
                valid_sq(Some(s.flip()), "flip")?;
                for c in Color::all() {
                    ck!((1..=9).contains(&s.relative_file(c)) && (1..=9).contains(&s.relative_rank(c)), "invalid_coordinate", "of {}", s.index());
                }
                let o = OptionSquare::from(Some(s));
                valid_sq(o.into(), "OptionSquare")?;
                traits(&s, &all[i * 7 % 81])?;
                traits(&o, &OptionSquare::from(if i % 3 == 0 { None } else { Some(all[i / 2]) }))?;
                ck!(s.to_usi_owned().len() == 2, "invalid_text", "square {}", s.index());
            }
        }
        _ => {
            const D: [i8; 20] = [-128, -127, -82, -81, -73, -10, -9, -8, -1, 0, 1, 2, 8, 9, 10, 72, 81, 82, 126, 127];
            for &s in all.iter().skip(part as usize - 1).step_by(3) {
                for x in D {
                    for y in D {
                        valid_sq(s.shift(x, y), "shift")?;
                    }
                    valid_sq(s.Square_shift(x, -(x.max(-127))).into(), "Square_shift")?;
                }
            }
        }
    }
    Ok(())
}

fn small() -> R {
    for i in 0..=255u8 {
        valid_kind(PieceKind::from_u8(i), "PieceKind::from_u8")?;
        valid_kind(PieceKind::PieceKind_from_u8(i).into(), "PieceKind_from_u8")?;
        if (1..=14).contains(&i) {
            valid_kind(Some(unsafe { PieceKind::from_u8_unchecked(i) }), "from_u8_unchecked")?;
            valid_kind(Some(unsafe { PieceKind::PieceKind_from_u8_unchecked(i) }), "PieceKind_from_u8_unchecked")?;
        }
        let k = IllegalMoveKind::from_u8(i);
        let x: Result<(), IllegalMoveKind> = ResultUnitIllegalMoveKind::from(k).into();
        let y: Option<IllegalMoveKind> = ResultUnitIllegalMoveKind::from(x).into();
        ck!(y == k, "invalid_reason", "reason {k:?} becomes {y:?}");
        if let Some(k) = k {
            traits(&k, &IllegalMoveKind::from_u8(i / 2).unwrap_or(k))?;
            traits(&ResultUnitIllegalMoveKind::from(Some(k)), &ResultUnitIllegalMoveKind::from(None))?;
        }
        if (1..=5).contains(&i) {
            let g = unsafe { GameResolution::from_u8_unchecked(i) };
            let o = OptionGameResolution::from(Some(g));
            ck!(<Option<GameResolution>>::from(o) == Some(g), "invalid_resolution", "{g:?}");
            ck!(g as u8 == i, "invalid_resolution", "{g:?}");
            traits(&g, &GameResolution::Draw)?;
            traits(&o, &OptionGameResolution::from(None))?;
        }
    }
    for c in Color::all() {
        traits(&c, &c.flip())?;
        ck!(c.array_index() < Color::NUM && c.flip().flip() == c, "invalid_index", "{c:?}");
        ck!(c.to_usi_owned().len() == 1, "invalid_text", "{c:?}");
    }
    ck!(PieceKind::option_array_index(None) < PieceKind::OPTION_NUM, "invalid_index", "of no kind");
    for k in PieceKind::all() {
        for x in [k.promote(), k.unpromote(), k.PieceKind_promote().into(), k.PieceKind_unpromote().into(), OptionPieceKind::from(Some(k)).into(), OptionPieceKind::from(None).into()] {
            valid_kind(x, "kinds")?;
        }
        traits(&k, &PieceKind::King)?;
        traits(&OptionPieceKind::from(Some(k)), &OptionPieceKind::from(None))?;
        let _ = (Hand::is_hand_piece(k), Hand::Hand_is_hand_piece(k), k.to_usi_owned());
        for c in Color::all() {
            let p = Piece::new(k, c);
            valid_piece(Some(p), "Piece::new")?;
            ck!(Piece::Piece_new(k, c) == p && p.to_parts() == (k, c) && p.piece_kind() == k && p.color() == c, "invalid_piece", "{p:?}");
            for x in [p.promote(), p.unpromote(), p.Piece_promote().into(), p.Piece_unpromote().into(), OptionPiece::from(Some(p)).into(), OptionPiece::from(None).into()] {
                valid_piece(x, "pieces")?;
            }
            traits(&p, &Piece::B_K)?;
            traits(&OptionPiece::from(Some(p)), &OptionPiece::from(None))?;
            let _ = p.to_usi_owned();
        }
    }
    for p in Piece::all() {
        valid_piece(Some(p), "Piece::all")?;
    }
    for k in Hand::all_hand_pieces() {
        valid_kind(Some(k), "all_hand_pieces")?;
    }
    for st in [PositionStatus::BlackWins, PositionStatus::WhiteWins, PositionStatus::Draw, PositionStatus::InProgress, PositionStatus::Invalid] {
        traits(&st, &PositionStatus::Draw)?;
    }
    Ok(())
}

fn moves(part: usize, of: usize, list: &[Mv]) -> R {
    let mut s = String::new();
    for (i, &m) in list.iter().enumerate().skip(part).step_by(of) {
        let r = to_real(m);
        let c = pack(r);
        let o = OptionCompactMove::from(Some(c));
        let back: Option<CompactMove> = o.into();
        valid_move(back.map(|c| c.into()), "OptionCompactMove")?;
        valid_move(Some(c.into()), "CompactMove")?;
        let _ = (c.from(), c.CompactMove_from(), c.to(), c.is_promoting(), c.is_drop());
        let _ = (r.from(), r.to(), r.is_promoting(), r.is_drop());
        s.clear();
        ck!(r.to_usi(&mut s).is_ok() && c.to_usi(&mut s).is_ok() && s.is_ascii(), "invalid_text", "{m:?}");
        if i % (of * 20) == part {
            traits(&r, &to_real(list[i / 2]))?;
            traits(&c, &CompactMove::normal(sq(1), sq(81), true))?;
            traits(&o, &OptionCompactMove::from(None))?;
        }
    }
    Ok(())
}

fn hands(part: usize) -> R {
    for (i, k) in PieceKind::all().into_iter().enumerate() {
        if i % 2 != part {
            continue;
        }
        let mut h = Hand::new();
        let mut g = Hand::default();
        let most = if Hand::is_hand_piece(k) { 260u32 } else { 2 };
        for n in 0..most {
            h = h.added(k).unwrap_or(h);
            let a = g.Hand_add(k);
            ck!(a == Hand::is_hand_piece(k) && g == h, "invalid_hand", "{k:?} {n}");
            let _ = (h.count(k), g.Hand_count(k));
            if [0, 1, 8, 9, 98, 99, 254, 255].contains(&n) {
                let mut s = String::new();
                let _ = [h, Hand::new()].to_usi(&mut s);
                let _ = [Hand::new(), h].to_usi(&mut s);
                let _ = [g, h].to_usi(&mut s);
                ck!(s.is_ascii(), "invalid_text", "{s}");
                traits(&h, &Hand::new())?;
            }
        }
        for _ in 0..most {
            let x = h.removed(k);
            ck!(g.Hand_remove(k) == x.is_some(), "invalid_hand", "{k:?}");
            h = x.unwrap_or(h);
            ck!(g == h, "invalid_hand", "{k:?}");
        }
    }
    // All counts at their greatest, and some next to it.
    let mut h = hand(&[255; 7]);
    let mut s = String::new();
    let _ = [h, h].to_usi(&mut s);
    for k in Hand::all_hand_pieces() {
        h = h.added(k).unwrap_or(h);
        let _ = [h, h].to_usi(&mut s);
    }
    ck!(h == Hand::new(), "invalid_hand", "{h:?}");
    Ok(())
}

fn sets(part: usize) -> R {
    let full = !Bitboard::empty();
    let mut of: Vec<Bitboard> = vec![Bitboard::empty(), Bitboard::Bitboard_empty(), full, Bitboard::default()];
    for s in Square::all().skip(part).step_by(8) {
        let x = Bitboard::single(s);
        of.push(x);
        let most = Bitboard::Bitboard_single(s) ^ full;
        if s.index() % 3 == 0 {
            of.push(most);
        }
        ck!(x.contains(s) && !most.contains(s), "invalid_set", "{}", s.index());
        let mut y = full;
        y ^= s;
        y &= x;
        y |= s;
        ck!(y == x, "invalid_set", "{}", s.index());
    }
    for (i, &x) in of.iter().enumerate() {
        valid_set(x, "a set")?;
        valid_set(x.flip(), "flip")?;
        let d = (i % 10) as u8;
        for e in if i % 4 == 0 { [0, 9, d] } else { [d; 3] } {
            unsafe {
                valid_set(x.shift_up(e), "shift_up")?;
                valid_set(x.shift_down(e), "shift_down")?;
                valid_set(x.shift_left(e), "shift_left")?;
                valid_set(x.shift_right(e), "shift_right")?;
            }
            if e == d {
                break;
            }
        }
        for f in 1..=9 {
            let p = unsafe { x.get_file_unchecked(f) };
            ck!(p < 512, "invalid_file", "a file is {p:x}");
            if i % 8 == 0 {
                valid_set(unsafe { Bitboard::from_file_unchecked(f, p) }, "from_file")?;
                valid_set(unsafe { Bitboard::from_file_unchecked(f, 511 ^ p) }, "from_file")?;
            }
        }
        valid_set(unsafe { Bitboard::from_u128_unchecked(x.to_u128()) }, "from_u128")?;
        let y = of[i * 5 % of.len()];
        for z in [x & y, x | y, x ^ y, !x, x.and(y), x.or(y), x.xor(y), x.andnot(y), Bitboard::Bitboard_bitand(x, y), Bitboard::Bitboard_bitor(x, y), Bitboard::Bitboard_bitxor(x, y), !&x] {
            valid_set(z, "an operation")?;
        }
        let (mut a, mut b, mut c) = (x, x, x);
        Bitboard::Bitboard_bitand_assign(&mut a, y);
        Bitboard::Bitboard_bitor_assign(&mut b, y);
        Bitboard::Bitboard_bitxor_assign(&mut c, y);
        ck!((a | c) == b, "invalid_set", "operations");
        let (v, w) = (x.swap_bytes(), y.swap_bytes());
        for z in [v.and(w), v.or(w), v.xor(w), v.andnot(w), unsafe { ByteSwappedBitboard::from_u128_unchecked(v.to_u128()) }] {
            valid_set(z.swap_bytes(), "a swapped operation")?;
        }
        if i % 4 == 0 {
            traits(&x, &y)?;
            traits(&v, &w)?;
            let mut p = x;
            for _ in 0..83 {
                valid_sq(if i & 1 == 0 { p.pop() } else { p.Bitboard_pop().into() }, "pop")?;
            }
            for k in [0usize, 1, 40, 80, 81, usize::MAX] {
                let mut p = x;
                valid_sq(p.nth(k), "nth")?;
                valid_set(p, "what nth leaves")?;
            }
            let _ = (x.last(), Iterator::count(x), x.size_hint(), Iterator::max(x), x.step_by(2).count(), x.skip(3).count());
        }
    }
    Ok(())
}

const PLIES: [u16; 17] = [0, 1, 9, 10, 11, 99, 100, 101, 999, 1000, 1010, 9999, 10000, 10001, 32768, 65534, 65535];

fn text(p: &PartialPosition, tiny_standard: bool) -> R {
    let t = p.to_sfen_owned();
    ck!(t.is_ascii(), "invalid_text", "{t:?}");
    let q = Position::arbitrary_position(p.clone());
    ck!(q.to_sfen_owned() == t, "invalid_text", "{t:?}");
    if tiny_standard {
        for rec in [false, true] {
            // Exactly what is asked for, no more, with nothing in it yet.
            let mut b: Box<[std::mem::MaybeUninit<u8>]> = vec![std::mem::MaybeUninit::uninit(); 139].into();
            let ptr = b.as_mut_ptr() as *mut u8;
            unsafe {
                if rec {
                    q.to_sfen_c(ptr)
                } else {
                    p.to_sfen_c(ptr)
                }
                let written = std::slice::from_raw_parts(ptr, t.len() + 1);
                ck!(&written[..t.len()] == t.as_bytes() && written[t.len()] == 0, "invalid_text", "{t:?}");
            }
        }
    }
    let mut v = vec![];
    everything(p, &mut v);
    Ok(())
}

#[allow(deprecated)]
fn positions(part: usize) -> R {
    let mut u = std::mem::MaybeUninit::uninit();
    PartialPosition::PartialPosition_startpos(&mut u);
    let start = unsafe { u.assume_init() };
    ck!(start == PartialPosition::startpos(), "invalid_position", "the starting position for C");
    match part {
        0 => {
            text(&start, true)?;
            for ply in PLIES {
                let mut m = M::empty();
                m.ply = ply.max(1);
                let mut p = build(&m);
                ck!(p.ply_set(ply) == (ply != 0), "invalid_ply", "{ply}");
                text(&p, true)?;
            }
            // The longest text: no two vacant squares together, all promoted, all in distinct lots.
            let mut m = M::empty();
            let mut n = 0;
            for s in (1..=81).filter(|s| s % 2 == 0).take(38) {
                n += 1;
                m.set(s, [8, 24, 9, 25, 10, 26, 11, 27, 12, 28, 13, 29, 14, 30][if n < 3 { n - 1 } else { 2 + n % 12 }]);
            }
            m.ply = 65535;
            text(&build(&m), false)?;
        }
        1 => {
            // Every piece on every square, one board per piece.
            for x in all_pieces() {
                let mut p = start.clone();
                for s in 1..=81 {
                    p.piece_set(sq(s), opiece(x));
                    if s % 27 == 0 {
                        valid_sq(p.king_position(Color::Black), "king_position")?;
                        valid_sq(p.king_position(Color::White), "king_position")?;
                    }
                }
                text(&p, false)?;
                for s in 1..=81 {
                    valid_piece(p.piece_at(sq(s)), "piece_at")?;
                    valid_piece(p.PartialPosition_piece_at(sq(s)).into(), "piece_at")?;
                    p.piece_set(sq(82 - s), None);
                }
                valid_set(p.vacant_bitboard(), "vacant")?;
                valid_set(p.occupied_bitboard(), "occupied")?;
            }
        }
        2 => {
            for n in [1u8, 2, 9, 10, 11, 18, 99, 100, 101, 199, 200, 255] {
                let mut p = start.clone();
                for c in Color::all() {
                    *p.hand_of_a_player_mut(c) = hand(&[n; 7]);
                    let mut one = [0u8; 7];
                    one[n as usize % 7] = n;
                    text(&p, false)?;
                    *p.hand_of_a_player_mut(c) = hand(&one);
                    text(&p, n < 3)?;
                }
                for x in Piece::all() {
                    let _ = p.hand(x);
                }
            }
        }
        _ => {
            // Texts that fail at every point.
            let mut p = start.clone();
            *p.hand_of_a_player_mut(Color::Black) = hand(&[12, 0, 3, 0, 1, 0, 255]);
            *p.hand_of_a_player_mut(Color::White) = hand(&[0, 100, 0, 10, 0, 2, 0]);
            let t = p.to_sfen_owned();
            struct Sink<'a>(&'a mut usize);
            impl Write for Sink<'_> {
                fn write_str(&mut self, s: &str) -> std::fmt::Result {
                    match self.0.checked_sub(s.len()) {
                        Some(n) => {
                            *self.0 = n;
                            Ok(())
                        }
                        None => Err(std::fmt::Error),
                    }
                }
            }
            for room in 0..t.len() {
                let mut room = room;
                ck!(p.to_sfen(&mut Sink(&mut room)).is_err(), "invalid_text", "{t:?}");
            }
            let other = PartialPosition::empty();
            traits(&p, &other)?;
            traits(&start, &p)?;
            let mut q = other.clone();
            q.side_to_move_set(Color::White);
            traits(&q, &other)?;
        }
    }
    Ok(())
}

/// Every reason for which a move is refused and every effect it has, at every kind of piece.
#[allow(deprecated)]
fn play(part: usize, tiny: bool) -> R {
    let pieces = all_pieces();
    let mut bases = vec![];
    for n in [0u8, 255] {
        let mut m = M::empty();
        m.hands = [[n; 7]; 2];
        m.ply = 65534;
        bases.push(build(&m));
    }
    for (i, &x) in pieces.iter().enumerate() {
        if i % 4 != part {
            continue;
        }
        let c = color(side_of(x));
        for &t in std::iter::once(&0u8).chain(pieces.iter()) {
            for n in [0u8, 255] {
                for promote in [false, true] {
                    if tiny && promote == ((x as u32 + t as u32 + n as u32) % 2 == 0) {
                        continue;
                    }
                    let (from, to) = (1 + x * 2, 81 - t);
                    let mut p = bases[n as usize / 255].clone();
                    p.piece_set(sq(from), opiece(x));
                    p.piece_set(sq(to), opiece(t));
                    p.side_to_move_set(c);
                    let mv = Move::Normal { from: sq(from), to: sq(to), promote };
                    let mut rec = Position::arbitrary_position(p.clone());
                    let a = p.make_move(mv).is_some();
                    let b = rec.make_compact_move(pack(mv));
                    ck!(a == b && &p == rec.inner(), "invalid_move", "{mv:?} of {x} on {t}");
                    valid_move(rec.last_move(), "last_move")?;
                    valid_set(p.piece_kind_bitboard(piece(x).piece_kind()), "kind")?;
                    if n == 255 && !promote {
                        let d = Move::Drop { piece: piece(x), to: sq(to) };
                        p.side_to_move_set(c);
                        let a = p.make_compact_move(pack(d));
                        let b = p.make_move(d).is_some();
                        ck!(!(a && b), "invalid_move", "{d:?} twice");
                    }
                    for c in Color::all() {
                        valid_sq(p.king_position(c), "king_position")?;
                        let _ = p.hand_of_a_player(c);
                    }
                    if t % 9 == 0 && n == 255 {
                        let mut v = vec![];
                        everything_record(&rec, &mut v);
                    }
                }
            }
        }
    }
    Ok(())
}

#[allow(deprecated)]
fn lives(tiny: bool) -> R {
    let shuttle = |i: usize| {
        let (a, b) = [((2, 8), (3, 8)), ((8, 2), (7, 2)), ((3, 8), (2, 8)), ((7, 2), (8, 2))][i % 4];
        Move::Normal { from: Square::new(a.0, a.1).unwrap(), to: Square::new(b.0, b.1).unwrap(), promote: false }
    };
    let ptrs: Vec<*mut Position> = (0..4).map(|_| Position::Position_startpos()).collect();
    let n = if tiny { 24 } else { 3000 };
    for i in 0..n {
        for (j, &p) in ptrs.iter().enumerate() {
            let p = unsafe { &mut *p };
            let ok = if (i + j) & 1 == 0 { p.make_move(shuttle(i)).is_some() } else { p.make_compact_move(pack(shuttle(i))) };
            ck!(ok, "invalid_move", "step {i}");
        }
    }
    let mut kept: Vec<Position> = vec![];
    for (j, &p) in ptrs.iter().enumerate() {
        let q = unsafe { &mut *p };
        valid_piece(q.Position_piece_at(sq(1 + j as u8)).into(), "Position_piece_at")?;
        let _ = (q.Position_last_compact_move(), q.last_compact_move(), q.ply(), q.side_to_move());
        *q.hand_of_a_player_mut(Color::Black) = hand(&[1; 7]);
        q.piece_set(sq(40), None);
        kept.push(q.clone());
        unsafe { Position::Position_destruct(p) };
    }
    let mut d = Position::default();
    traits(&kept[0], &d)?;
    traits(&kept[1], &kept[0])?;
    d.clone_from(&kept[0]);
    let last = kept[1].clone();
    kept[0].clone_from(&last);
    kept.swap_remove(1);
    let _ = d.make_move(shuttle(0));
    let (mut g, mut h) = (Game::default(), PartialGame::default());
    for res in [GameResolution::BlackWins, GameResolution::WhiteWins, GameResolution::Draw, GameResolution::Rematch, GameResolution::Aborted] {
        g.resolve(res);
        h.resolve(res);
        ck!(g.resolution() == Some(res) && h.resolution() == Some(res), "invalid_resolution", "{res:?}");
        let (a, b): (Option<GameResolution>, Option<GameResolution>) = (g.Game_resolution().into(), h.PartialGame_resolution().into());
        ck!(a == Some(res) && b == a, "invalid_resolution", "{res:?}");
        if !tiny || res == GameResolution::Draw {
            traits(&g, &Game::default())?;
            traits(&h, &PartialGame::default())?;
        }
        let _ = (g.position().ply(), h.position().ply());
        g.unresolve();
        h.unresolve();
        ck!(g.resolution().is_none() && h.resolution().is_none(), "invalid_resolution", "cleared");
    }
    Ok(())
}

pub fn edge(cx: &mut Ctx, case: u64) -> R {
    let case = case % EDGE;
    match case {
        0..=3 => squares(case)?,
        4 => small()?,
        // One move in five for the interpreter, another one for each seed.
        5..=8 => moves(case as usize - 5 + if cx.tiny { 4 * (cx.seed as usize % 5) } else { 0 }, if cx.tiny { 20 } else { 4 }, &Mv::all())?,
        9 | 10 => hands(case as usize - 9)?,
        11..=18 => sets(case as usize - 11)?,
        19..=22 => positions(case as usize - 19)?,
        23..=26 => play(case as usize - 23, cx.tiny)?,
        27 => lives(cx.tiny)?,
        _ => {
            // The same once more, in another order, in one thread, after other things.
            squares(0)?;
            hands(case as usize % 2)?;
            positions(case as usize % 4)?;
            lives(cx.tiny)?;
        }
    }
    cx.evals += 1000;
    cx.saw(case);
    cx.count("sections", 1);
    cx.sample(|| "every function at its limits".into());
    Ok(())
}
