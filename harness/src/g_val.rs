//! C13, C14, C15 and C18: hands, encodings, geometry, results.

use crate::ck;
use crate::ctx::{fnv, Ctx, R};
use crate::gen;
use crate::model::*;
use crate::obs::*;
use crate::rng::mix;
use shogi_core::c_compat::*;
use shogi_core::*;

// ---------------------------------------------------------------------------------------- C13

fn hand_is(h: Hand, want: &[u8; 7], what: &dyn Fn() -> String) -> R {
    for k in 1..=14u8 {
        let c = h.count(kind(k));
        let w = if k <= 7 { Some(want[k as usize - 1]) } else { None };
        ck!(c == w, "count", "{}: count of {} is {:?}, should be {:?}", what(), kind_usi(k), c, w);
        ck!(h.Hand_count(kind(k)) == w.unwrap_or(0), "c_count", "{}: C count of {} is {}", what(), kind_usi(k), h.Hand_count(kind(k)));
    }
    Ok(())
}

pub fn c13(cx: &mut Ctx, case: u64) -> R {
    let mut r = cx.rng.clone();
    if case == 0 {
        // Every count of every kind: up once round, down again.
        for k in 1..=7u8 {
            let mut h = Hand::new();
            let mut c = [0u8; 7];
            let w = |n: u32| move || format!("{} added {} times", kind_usi(k), n);
            for n in 0..if cx.tiny { 3 } else { 515u32 } {
                hand_is(h, &c, &w(n))?;
                let down = h.removed(kind(k));
                ck!(down.is_some() == (c[k as usize - 1] > 0), "removed", "{}: removing gives {:?}", w(n)(), down);
                if let Some(d) = down {
                    let mut e = c;
                    e[k as usize - 1] -= 1;
                    hand_is(d, &e, &|| format!("{} and one removed", w(n)()))?;
                }
                h = match h.added(kind(k)) {
                    Some(h) => h,
                    None => return Err(crate::ctx::fail("added", format!("{}: adding one is refused", w(n)()))),
                };
                c[k as usize - 1] = c[k as usize - 1].wrapping_add(1);
                cx.saw(mix(k as u64 * 1000 + n as u64));
            }
        }
        for k in 1..=14u8 {
            ck!(Hand::is_hand_piece(kind(k)) == (k <= 7), "is_hand_piece", "is_hand_piece({}) is {}", kind_usi(k), k > 7);
            ck!(Hand::Hand_is_hand_piece(kind(k)) == (k <= 7), "is_hand_piece", "C is_hand_piece({}) is {}", kind_usi(k), k > 7);
        }
        let ks: Vec<u8> = Hand::all_hand_pieces().map(|k| k as u8).collect();
        ck!(ks == [1, 2, 3, 4, 5, 6, 7], "all_hand_pieces", "all_hand_pieces gives {:?}", ks);
        ck!(Hand::NUM_HAND_PIECES == 7, "num", "NUM_HAND_PIECES is {}", Hand::NUM_HAND_PIECES);
        hand_is(Hand::default(), &[0; 7], &|| "default hand".into())?;
        ck!(Hand::default() == Hand::new(), "default", "default and new hands differ");
        cx.sample(|| "every count of every kind, up and down".into());
        return Ok(());
    }
    let mut h = Hand::new();
    let mut c = [0u8; 7];
    let focus = r.pick(&[7u64, 2, 1]);
    let add = r.pick(&[50, 80, 95, 20]);
    let steps = if cx.tiny { 20 } else { r.pick(&[20, 200, 1500]) };
    let mut hist: Vec<(Hand, [u8; 7])> = vec![(h, c)];
    cx.sample(|| format!("{steps} steps, {add}% additions, of {focus} kinds mostly"));
    for i in 0..steps {
        let k = if r.pct(10) { 8 + r.below(7) as u8 } else { 1 + r.below(focus) as u8 + r.below(8 - focus) as u8 * r.pct(10) as u64 as u8 };
        let w = |c: &[u8; 7], what: &str| format!("{} {} in {:?} (step {})", what, kind_usi(k), c, i);
        let before = h;
        let c0 = c;
        let adding = r.pct(add);
        let ok = k <= 7 && (adding || c[k as usize - 1] > 0);
        if ok {
            let x = &mut c[k as usize - 1];
            *x = if adding { x.wrapping_add(1) } else { *x - 1 };
        }
        let name = if adding { "adding" } else { "removing" };
        if r.coin() {
            let n = if adding { h.added(kind(k)) } else { h.removed(kind(k)) };
            ck!(n.is_some() == ok, "accept", "{}: gives {:?}", w(&c0, name), n);
            hand_is(h, &c0, &|| w(&c0, "the original after") + name)?;
            h = n.unwrap_or(h);
        } else {
            let b = if adding { h.Hand_add(kind(k)) } else { h.Hand_remove(kind(k)) };
            ck!(b == ok, "c_accept", "{}: C function gives {}", w(&c0, name), b);
        }
        hand_is(h, &c, &|| w(&c0, name))?;
        ck!((h == before) == (c == c0), "equality", "{}: equal to what it was: {}", w(&c0, name), h == before);
        for (o, oc) in &hist {
            ck!((h == *o && *o == h) == (c == *oc) && (h != *o) == (c != *oc), "equality", "hands {:?} and {:?}: equality is {}", c, oc, h == *o);
        }
        if hist.len() < 12 {
            hist.push((h, c));
        } else {
            let j = r.usize(12);
            hist[j] = (h, c);
        }
        cx.count(if ok { "done" } else { "refused" }, 1);
        cx.saw(fnv(&c) ^ k as u64);
    }
    // The same counts added in another order.
    let mut order: Vec<u8> = (1..=7u8).flat_map(|k| vec![k; c[k as usize - 1] as usize]).collect();
    r.shuffle(&mut order);
    let mut g = Hand::new();
    for k in order {
        g = g.added(kind(k)).unwrap_or(g);
    }
    ck!(g == h, "order", "hands with the same counts {:?}, reached differently, are unequal", c);
    // Also as the hands of a position.
    let mut p = PartialPosition::empty();
    for col in [Color::Black, Color::White] {
        *p.hand_of_a_player_mut(col) = h;
        ck!(p.hand_of_a_player(col) == h, "position", "a position's hand is not the one put there");
        for x in all_pieces() {
            let mine = side_of(x) == col as u8 || col == Color::White;
            let want = if x & 15 > 7 { None } else if mine { Some(c[(x & 15) as usize - 1]) } else { Some(0) };
            ck!(p.hand(piece(x)) == want, "position_hand", "a position with {:?} has {:?} of piece {x}, should have {:?}", c, p.hand(piece(x)), want);
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------- C14

include!("consts.rs");

/// Compares reported layout sizes and values; exhaustive in one case.
pub fn c14(cx: &mut Ctx, _case: u64) -> R {
    // Squares.
    let all: Vec<Square> = Square::all().collect();
    ck!(all.len() == 81 && Square::NUM == 81, "square_all", "{} squares", all.len());
    for (i, s) in all.iter().enumerate() {
        let n = i as u8 + 1;
        ck!(s.index() == n, "square_all", "square number {n} of all has index {}", s.index());
        ck!(s.array_index() == i, "square_index", "array index of {} is {}", sq_usi(n), s.array_index());
        ck!(unsafe { Square::from_u8_unchecked(n) } == *s, "square_unchecked", "from_u8_unchecked({n})");
        ck!(unsafe { Square::Square_from_u8_unchecked(n) } == *s, "square_unchecked", "Square_from_u8_unchecked({n})");
        ck!(unsafe { std::mem::transmute::<Square, u8>(*s) } == n, "square_repr", "representation of {}", sq_usi(n));
        let o = OptionSquare::from(Some(*s));
        ck!(<Option<Square>>::from(o) == Some(*s), "option_square", "Option round trip of {}", sq_usi(n));
        ck!(unsafe { std::mem::transmute::<OptionSquare, u8>(o) } == n, "option_square", "Option representation of {}", sq_usi(n));
        ck!(Square::new(file(n), rank(n)) == Some(*s), "square_new", "{}", sq_usi(n));
        cx.saw(mix(n as u64));
    }
    ck!(unsafe { std::mem::transmute::<OptionSquare, u8>(None.into()) } == 0 && <Option<Square>>::from(OptionSquare::from(None)).is_none(), "option_square", "absent square");
    for n in 0..=255u8 {
        let want = (1..=81).contains(&n);
        let got = Square::from_u8(n);
        ck!(got.is_some() == want && got.map_or(true, |s| s.index() == n), "square_from_u8", "from_u8({n}) is {:?}", got);
        let got = <Option<Square>>::from(Square::Square_from_u8(n));
        ck!(got.is_some() == want && got.map_or(true, |s| s.index() == n), "square_from_u8", "C from_u8({n}) is {:?}", got);
        let want = (1..=14).contains(&n);
        let got = PieceKind::from_u8(n);
        ck!(got.is_some() == want && got.map_or(true, |k| k as u8 == n), "kind_from_u8", "PieceKind::from_u8({n}) is {:?}", got);
        let o = PieceKind::PieceKind_from_u8(n);
        let got = <Option<PieceKind>>::from(o);
        ck!(got.is_some() == want && got.map_or(true, |k| k as u8 == n), "kind_from_u8", "C from_u8({n}) is {:?}", got);
        let want = (1..=7).contains(&n);
        let got = IllegalMoveKind::from_u8(n);
        ck!(got.is_some() == want && got.map_or(true, |k| k as u8 == n), "illegal_from_u8", "IllegalMoveKind::from_u8({n}) is {:?}", got);
        if want {
            let k = unsafe { IllegalMoveKind::from_u8_unchecked(n) };
            ck!(k as u8 == n && Some(k) == got, "illegal_unchecked", "{n}");
            let o = ResultUnitIllegalMoveKind::from(Some(k));
            ck!(unsafe { std::mem::transmute::<ResultUnitIllegalMoveKind, u8>(o) } == n, "illegal_option", "{n}");
            ck!(<Option<IllegalMoveKind>>::from(o) == Some(k), "illegal_option", "{n}");
            ck!(<Result<(), IllegalMoveKind>>::from(o) == Err(k), "illegal_option", "{n}");
            let e = ResultUnitIllegalMoveKind::from(Err(k));
            ck!(e == o, "illegal_option", "{n}");
        }
        if (1..=5).contains(&n) {
            let k = unsafe { GameResolution::from_u8_unchecked(n) };
            ck!(k as u8 == n, "resolution", "{n}");
            let o = OptionGameResolution::from(Some(k));
            ck!(unsafe { std::mem::transmute::<OptionGameResolution, u8>(o) } == n, "resolution", "{n}");
            ck!(<Option<GameResolution>>::from(o) == Some(k), "resolution", "{n}");
        }
        cx.saw(mix(1000 + n as u64));
    }
    let ok: ResultUnitIllegalMoveKind = Ok(()).into();
    ck!(unsafe { std::mem::transmute::<ResultUnitIllegalMoveKind, u8>(ok) } == 0 && <Option<IllegalMoveKind>>::from(ok).is_none() && <Result<(), IllegalMoveKind>>::from(ok) == Ok(()), "illegal_option", "Ok");
    let none: ResultUnitIllegalMoveKind = None.into();
    ck!(none == ok && ResultUnitIllegalMoveKind::default() == ok, "illegal_option", "none");
    let none: OptionGameResolution = None.into();
    ck!(unsafe { std::mem::transmute::<OptionGameResolution, u8>(none) } == 0 && <Option<GameResolution>>::from(none).is_none() && OptionGameResolution::default() == none, "resolution", "none");
    // Named numbers.
    for (v, n) in [
        (GameResolution::BlackWins as u8, 1),
        (GameResolution::WhiteWins as u8, 2),
        (GameResolution::Draw as u8, 3),
        (GameResolution::Rematch as u8, 4),
        (GameResolution::Aborted as u8, 5),
        (IllegalMoveKind::TwoPawns as u8, 1),
        (IllegalMoveKind::IgnoredCheck as u8, 2),
        (IllegalMoveKind::DropPawnMate as u8, 3),
        (IllegalMoveKind::DropStuck as u8, 4),
        (IllegalMoveKind::NormalStuck as u8, 5),
        (IllegalMoveKind::GameFinished as u8, 6),
        (IllegalMoveKind::IncorrectMove as u8, 7),
        (Color::Black as u8, 1),
        (Color::White as u8, 2),
        (PositionStatus::BlackWins as u8, 1),
        (PositionStatus::WhiteWins as u8, 2),
        (PositionStatus::Draw as u8, 3),
        (PositionStatus::InProgress as u8, 4),
        (PositionStatus::Invalid as u8, 5),
        (PieceKind::Pawn as u8, 1),
        (PieceKind::Lance as u8, 2),
        (PieceKind::Knight as u8, 3),
        (PieceKind::Silver as u8, 4),
        (PieceKind::Gold as u8, 5),
        (PieceKind::Bishop as u8, 6),
        (PieceKind::Rook as u8, 7),
        (PieceKind::King as u8, 8),
        (PieceKind::ProPawn as u8, 9),
        (PieceKind::ProLance as u8, 10),
        (PieceKind::ProKnight as u8, 11),
        (PieceKind::ProSilver as u8, 12),
        (PieceKind::ProBishop as u8, 13),
        (PieceKind::ProRook as u8, 14),
    ] {
        ck!(v == n, "discriminant", "a discriminant documented as {n} is {v}");
    }
    // Kinds and pieces.
    let kinds: Vec<u8> = PieceKind::all().iter().map(|&k| k as u8).collect();
    ck!(kinds == (1..=14).collect::<Vec<u8>>() && PieceKind::NUM == 14, "kind_all", "{:?}", kinds);
    let colors: Vec<u8> = Color::all().iter().map(|&k| k as u8).collect();
    ck!(colors == [1, 2] && Color::NUM == 2, "color_all", "{:?}", colors);
    for c in 1..=2u8 {
        ck!(color(c).array_index() == c as usize - 1, "color_index", "{c}");
        ck!(unsafe { std::mem::transmute::<Color, u8>(color(c)) } == c, "color_repr", "{c}");
    }
    ck!(unsafe { std::mem::transmute::<OptionPieceKind, u8>(None.into()) } == 0 && <Option<PieceKind>>::from(OptionPieceKind::from(None)).is_none(), "option_kind", "absent kind");
    ck!(unsafe { std::mem::transmute::<OptionPiece, u8>(None.into()) } == 0 && <Option<Piece>>::from(OptionPiece::from(None)).is_none(), "option_piece", "absent piece");
    ck!(PieceKind::OPTION_NUM == 15 && Piece::NUM == 31, "num", "OPTION_NUM {} and Piece::NUM {}", PieceKind::OPTION_NUM, Piece::NUM);
    ck!(PieceKind::option_array_index(None) < 15, "option_index", "of none");
    let mut seen = vec![false; 15];
    seen[PieceKind::option_array_index(None)] = true;
    let mut pseen = [false; 31];
    for k in 1..=14u8 {
        let x = kind(k);
        ck!(x.array_index() == k as usize - 1, "kind_index", "array index of {}", kind_usi(k));
        ck!(unsafe { PieceKind::from_u8_unchecked(k) } == x && unsafe { PieceKind::PieceKind_from_u8_unchecked(k) } == x, "kind_unchecked", "{k}");
        let i = PieceKind::option_array_index(Some(x));
        ck!(i < 15 && !seen[i], "option_index", "of {}: {i}", kind_usi(k));
        seen[i] = true;
        let o = OptionPieceKind::from(Some(x));
        ck!(<Option<PieceKind>>::from(o) == Some(x), "option_kind", "{k}");
        ck!(unsafe { std::mem::transmute::<OptionPieceKind, u8>(OptionPieceKind::from(Some(x))) } == k, "option_kind", "{k}");
        for c in 1..=2u8 {
            let p = Piece::new(x, color(c));
            let n = k + 16 * (c - 1);
            ck!(p.as_u8() == n, "piece", "piece of kind {k} and colour {c} is {}", p.as_u8());
            ck!(Piece::Piece_new(x, color(c)) == p, "piece", "C: {k}, {c}");
            ck!(p.to_parts() == (x, color(c)) && p.piece_kind() == x && p.color() == color(c), "piece_parts", "parts of piece {n} are {:?}", p.to_parts());
            ck!(unsafe { std::mem::transmute::<Piece, u8>(p) } == n, "piece_repr", "{n}");
            let o = OptionPiece::from(Some(p));
            ck!(<Option<Piece>>::from(o) == Some(p), "option_piece", "{n}");
            ck!(unsafe { std::mem::transmute::<OptionPiece, u8>(o) } == n, "option_piece", "{n}");
            let i = p.array_index();
            ck!(i < Piece::NUM && !pseen[i], "piece_index", "array index of piece {n} is {i}");
            pseen[i] = true;
            cx.saw(mix(2000 + n as u64));
        }
    }
    let ps: Vec<u8> = Piece::all().iter().map(|p| p.as_u8()).collect();
    let mut once = ps.clone();
    once.sort();
    ck!(once == all_pieces(), "piece_all", "Piece::all gives {:?}", ps);
    // Moves.
    let mut packs = std::collections::HashSet::new();
    let step = if cx.tiny { 701 } else { 1 };
    for mv in Mv::all().into_iter().step_by(step) {
        let m = to_real(mv);
        let c = pack(m);
        let n = unsafe { std::mem::transmute::<CompactMove, u16>(c) };
        ck!(n == mv.packed(), "packed", "{:?} is packed as {n}, should be {}", mv, mv.packed());
        ck!(packs.insert(n), "packed", "two moves are packed as {n}");
        let back: Move = c.into();
        ck!(back == m, "unpack", "{:?} packed and unpacked is {:?}", mv, back);
        let o = OptionCompactMove::from(Some(c));
        ck!(<Option<CompactMove>>::from(o) == Some(c), "option_move", "{:?}", mv);
        ck!(unsafe { std::mem::transmute::<OptionCompactMove, u16>(o) } == n, "option_move", "{:?}", mv);
        let (from, to, pro, drop) = match mv {
            Mv::N { from, to, promote } => (Some(from), to, promote, false),
            Mv::D { to, .. } => (None, to, false, true),
        };
        ck!(m.from().map(|s| s.index()) == from && m.to().index() == to && m.is_promoting() == pro && m.is_drop() == drop, "move_parts", "{:?}: {:?} {:?} {} {}", mv, m.from(), m.to(), m.is_promoting(), m.is_drop());
        ck!(c.from().map(|s| s.index()) == from && c.to().index() == to && c.is_promoting() == pro && c.is_drop() == drop, "packed_parts", "{:?}: {:?} {:?} {} {}", mv, c.from(), c.to(), c.is_promoting(), c.is_drop());
        ck!(osq_u8(c.CompactMove_from()) == from.unwrap_or(0), "packed_parts", "{:?}: C from", mv);
        let d = match mv {
            Mv::N { from, to, promote } => CompactMove::normal(sq(from), sq(to), promote),
            Mv::D { piece: p, to } => CompactMove::drop(piece(p), sq(to)),
        };
        ck!(d == c, "packed_made", "{:?} made directly is {:?}", mv, d);
        cx.saw(mix(5000 + n as u64));
    }
    ck!(unsafe { std::mem::transmute::<OptionCompactMove, u16>(None.into()) } == 0 && <Option<CompactMove>>::from(OptionCompactMove::from(None)).is_none() && OptionCompactMove::default() == None.into(), "option_move", "absent move");
    // Named constants.
    for (name, s, n) in square_consts() {
        let want = sq_of(name.as_bytes()[3] - b'0', name.as_bytes()[4] - b'A' + 1);
        ck!(s.index() == want, "const", "{} ({}) is square {}", name, n, sq_usi(s.index()));
        cx.saw(fnv(name.as_bytes()) ^ n as u64);
    }
    for (name, p, n) in piece_consts() {
        let (c, k) = name.split_once('_').unwrap();
        let base = ["P", "L", "N", "S", "G", "B", "R", "K", "PP", "PL", "PN", "PS", "PB", "PR"].iter().position(|x| *x == k).unwrap() as u8 + 1;
        ck!(p.as_u8() == base + if c == "W" { 16 } else { 0 }, "const", "{} ({}) is piece {}", name, n, p.as_u8());
        cx.saw(fnv(name.as_bytes()) ^ n as u64);
    }
    // Option-like values take no extra room, as documented.
    use std::mem::size_of;
    ck!(size_of::<Square>() == 1 && size_of::<Option<Square>>() == 1 && size_of::<OptionSquare>() == 1, "size", "squares");
    ck!(size_of::<Piece>() == 1 && size_of::<Option<Piece>>() == 1 && size_of::<OptionPiece>() == 1, "size", "pieces");
    ck!(size_of::<PieceKind>() == 1 && size_of::<Option<PieceKind>>() == 1, "size", "kinds");
    ck!(size_of::<Color>() == 1 && size_of::<Option<Color>>() == 1, "size", "colours");
    ck!(size_of::<CompactMove>() == 2 && size_of::<Option<CompactMove>>() == 2 && size_of::<OptionCompactMove>() == 2, "size", "moves");
    ck!(size_of::<GameResolution>() == 1 && size_of::<Result<(), IllegalMoveKind>>() == 1, "size", "results");
    ck!(size_of::<Hand>() == 8 && size_of::<Bitboard>() == 16, "size", "hands and sets");
    cx.sample(|| "all values of all types, all 256 bytes, all 15390 moves, all named constants".into());
    Ok(())
}

// ---------------------------------------------------------------------------------------- C15

pub fn c15(cx: &mut Ctx, case: u64) -> R {
    // Split over cases: one file number (or square) each.
    let n = case as u8;
    let step = if cx.tiny { 13 } else { 1 };
    for k in (0..=255u8).step_by(step) {
        let on = (1..=9).contains(&n) && (1..=9).contains(&k);
        let want = if on { Some(sq_of(n, k)) } else { None };
        let got = Square::new(n, k).map(|s| s.index());
        ck!(got == want, "new", "square of file {n} and rank {k} is {:?}", got);
        let got = osq_u8(Square::Square_new(n, k));
        ck!(got == want.unwrap_or(0), "new", "C: square of file {n} and rank {k} is {got}");
        for c in 1..=2u8 {
            let want = if !on { None } else if c == 1 { Some(sq_of(n, k)) } else { Some(sq_of(10 - n, 10 - k)) };
            let got = Square::new_relative(n, k, color(c)).map(|s| s.index());
            ck!(got == want, "new_relative", "square of file {n} and rank {k} for player {c} is {:?}", got);
            let got = osq_u8(Square::Square_new_relative(n, k, color(c)));
            ck!(got == want.unwrap_or(0), "new_relative", "C: square of file {n} and rank {k} for player {c} is {got}");
        }
        cx.saw(mix((n as u64) << 8 | k as u64));
    }
    if (1..=81).contains(&n) {
        let s = sq(n);
        let (f, k) = (file(n), rank(n));
        ck!(s.file() == f && s.rank() == k, "coordinates", "{}: file {} and rank {}", sq_usi(n), s.file(), s.rank());
        ck!(s.relative_file(Color::Black) == f && s.relative_rank(Color::Black) == k, "relative", "{} for black", sq_usi(n));
        ck!(s.relative_file(Color::White) == 10 - f && s.relative_rank(Color::White) == 10 - k, "relative", "{} for white: {}, {}", sq_usi(n), s.relative_file(Color::White), s.relative_rank(Color::White));
        ck!(s.flip().index() == sq_of(10 - f, 10 - k) && s.flip().flip() == s, "flip", "{} flipped is {}", sq_usi(n), s.flip().index());
        for df in (-128..=127i8).step_by(step) {
            for dr in (-128..=127i8).step_by(step) {
                let (x, y) = (f as i32 + df as i32, k as i32 + dr as i32);
                let want = if (1..=9).contains(&x) && (1..=9).contains(&y) { sq_of(x as u8, y as u8) } else { 0 };
                let got = s.shift(df, dr).map_or(0, |s| s.index());
                ck!(got == want, "shift", "{} shifted by {df}, {dr} is {got}, should be {want}", sq_usi(n));
                let got = osq_u8(s.Square_shift(df, dr));
                ck!(got == want, "shift", "C: {} shifted by {df}, {dr} is {got}, should be {want}", sq_usi(n));
                cx.evals += 1;
            }
        }
        for df in -9..=9i8 {
            for dr in -9..=9i8 {
                // Near the board it is never sampled.
                let (x, y) = (f as i32 + df as i32, k as i32 + dr as i32);
                let want = if (1..=9).contains(&x) && (1..=9).contains(&y) { sq_of(x as u8, y as u8) } else { 0 };
                let got = s.shift(df, dr).map_or(0, |s| s.index());
                ck!(got == want, "shift", "{} shifted by {df}, {dr} is {got}, should be {want}", sq_usi(n));
                cx.saw(mix((n as u64) << 32 | (df as u8 as u64) << 8 | dr as u8 as u64));
            }
        }
    }
    if case == 0 {
        ck!(Color::Black.flip() == Color::White && Color::White.flip() == Color::Black, "color_flip", "{:?} {:?}", Color::Black.flip(), Color::White.flip());
        for k in 1..=14u8 {
            let x = kind(k);
            ck!(x.promote().map(|k| k as u8) == promoted(k), "promote", "{} promoted is {:?}", kind_usi(k), x.promote());
            ck!(x.unpromote().map(|k| k as u8) == unpromoted(k), "unpromote", "{} unpromoted is {:?}", kind_usi(k), x.unpromote());
            ck!(<Option<PieceKind>>::from(x.PieceKind_promote()) == x.promote() && <Option<PieceKind>>::from(x.PieceKind_unpromote()) == x.unpromote(), "c_promote", "C: {}", kind_usi(k));
            for c in 0..2u8 {
                let p = piece(k + 16 * c);
                let w = |q: Option<u8>| q.map(|q| q + 16 * c);
                ck!(p.promote().map(|p| p.as_u8()) == w(promoted(k)), "promote", "piece {} promoted is {:?}", k + 16 * c, p.promote());
                ck!(p.unpromote().map(|p| p.as_u8()) == w(unpromoted(k)), "unpromote", "piece {} unpromoted is {:?}", k + 16 * c, p.unpromote());
                ck!(opiece_u8(p.Piece_promote()) == w(promoted(k)).unwrap_or(0) && opiece_u8(p.Piece_unpromote()) == w(unpromoted(k)).unwrap_or(0), "c_promote", "C: piece {}", k + 16 * c);
                if let Some(q) = p.promote() {
                    ck!(q.unpromote() == Some(p), "back", "piece {} promoted and unpromoted is {:?}", k + 16 * c, q.unpromote());
                }
                if let Some(q) = p.unpromote() {
                    ck!(q.promote() == Some(p), "back", "piece {} unpromoted and promoted is {:?}", k + 16 * c, q.promote());
                }
                cx.saw(mix(1 << 40 | (k + 16 * c) as u64));
            }
        }
        cx.sample(|| "all file and rank bytes, all squares with all 65536 shifts, all pieces".into());
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------- C18

const RES: [GameResolution; 5] = [GameResolution::BlackWins, GameResolution::WhiteWins, GameResolution::Draw, GameResolution::Rematch, GameResolution::Aborted];

pub fn c18(cx: &mut Ctx, _case: u64) -> R {
    let mut r = cx.rng.clone();
    // Several games of both sorts at once, with what their results should be.
    let mut gs: Vec<(Game, u8)> = (0..3).map(|_| (Game::default(), 0)).collect();
    let mut ps: Vec<(PartialGame, u8)> = (0..3).map(|_| (PartialGame::default(), 0)).collect();
    let start = Position::startpos();
    let pstart = PartialPosition::startpos();
    let steps = if cx.tiny { 10 } else { 100 };
    cx.sample(|| format!("{steps} steps on 3 games and 3 partial games"));
    for _ in 0..steps {
        let i = r.usize(gs.len());
        let k = r.below(6) as usize;
        match r.below(6) {
            0 | 1 | 2 => {
                if k == 0 {
                    gs[i].0.unresolve();
                    ps[i].0.unresolve();
                } else {
                    gs[i].0.resolve(RES[k - 1]);
                    ps[i].0.resolve(RES[k - 1]);
                }
                gs[i].1 = k as u8;
                ps[i].1 = k as u8;
                cx.count(if k == 0 { "unresolved" } else { "resolved" }, 1);
            }
            3 => {
                // A copy takes another one's place; later changes to either are its own.
                let j = r.usize(gs.len());
                gs[j] = gs[i].clone();
                ps[j] = ps[i].clone();
                cx.count("copies", 1);
            }
            4 => {
                gs[i] = (Game::default(), 0);
                ps[i] = (PartialGame::default(), 0);
            }
            _ => {
                // Moves on copies of the position do not reach the game.
                let mut p = gs[i].0.position().clone();
                let mut q = ps[i].0.position().clone();
                let mv = gen::sensible(&mut r, &M::start()).unwrap();
                let _ = p.make_move(to_real(mv));
                let _ = q.make_move(to_real(mv));
            }
        }
        let mut d = 0u64;
        for j in 0..gs.len() {
            let (g, w) = (&gs[j].0, gs[j].1);
            let want = if w == 0 { None } else { Some(RES[w as usize - 1]) };
            ck!(g.resolution() == want, "resolution", "game: result {:?}, should be {:?}", g.resolution(), want);
            ck!(unsafe { std::mem::transmute::<OptionGameResolution, u8>(g.Game_resolution()) } == w, "c_resolution", "game: C result should be {w}");
            ck!(g.position() == &start, "position", "game: result {w} changed the position");
            let (p, w) = (&ps[j].0, ps[j].1);
            ck!(p.resolution() == want, "resolution", "partial game: result {:?}, should be {:?}", p.resolution(), want);
            ck!(unsafe { std::mem::transmute::<OptionGameResolution, u8>(p.PartialGame_resolution()) } == w, "c_resolution", "partial game: C result should be {w}");
            ck!(p.position() == &pstart, "position", "partial game: result {w} changed the position");
            for l in 0..gs.len() {
                ck!((gs[j].0 == gs[l].0) == (gs[j].1 == gs[l].1), "equality", "games with results {} and {}: equality is {}", gs[j].1, gs[l].1, gs[j].0 == gs[l].0);
                ck!((ps[j].0 == ps[l].0) == (ps[j].1 == ps[l].1), "equality", "partial games with results {} and {}: equality is {}", ps[j].1, ps[l].1, ps[j].0 == ps[l].0);
            }
            d = d * 7 + w as u64 + 1;
        }
        cx.saw(mix(d ^ (i as u64) << 32 ^ (k as u64) << 40));
    }
    Ok(())
}
