//! C22: any sequence of safe calls with any arguments (and of unsafe ones within their documented
//! preconditions), on values that came out of earlier calls. The judge is the build: checked
//! arithmetic and assertions, sanitizers, the interpreter, fault signals; and here only that every
//! value handed out is a valid one of its type.

use crate::ck;
use crate::ctx::{Ctx, R};
use crate::gen;
use crate::model::*;
use crate::obs::*;
use crate::rng::mix;
use shogi_core::c_compat::*;
use shogi_core::*;
use std::fmt::Write;

pub fn valid_sq(s: Option<Square>, what: &str) -> R {
    if let Some(s) = s {
        ck!((1..=81).contains(&s.index()), "invalid_square", "{what} gives a square with index {}", s.index());
        ck!((1..=9).contains(&s.file()) && (1..=9).contains(&s.rank()), "invalid_square", "{what} gives a square on file {} rank {}", s.file(), s.rank());
        ck!(s.array_index() < Square::NUM, "invalid_index", "{what} gives a square with array index {}", s.array_index());
    }
    Ok(())
}
pub fn valid_piece(p: Option<Piece>, what: &str) -> R {
    if let Some(p) = p {
        let n = p.as_u8();
        ck!((1..=14).contains(&n) || (17..=30).contains(&n), "invalid_piece", "{what} gives a piece {n}");
        ck!(p.array_index() < Piece::NUM, "invalid_index", "{what} gives a piece with array index {}", p.array_index());
    }
    Ok(())
}
pub fn valid_kind(k: Option<PieceKind>, what: &str) -> R {
    if let Some(k) = k {
        ck!((1..=14).contains(&(k as u8)), "invalid_kind", "{what} gives a kind {}", k as u8);
        ck!(k.array_index() < PieceKind::NUM && PieceKind::option_array_index(Some(k)) < PieceKind::OPTION_NUM, "invalid_index", "{what} gives a kind with array index {}", k.array_index());
    }
    Ok(())
}
pub fn valid_set(b: Bitboard, what: &str) -> R {
    // Squares come out of it, once each, and no more than 81.
    let mut n = 0;
    let mut seen = 0u128;
    for s in b {
        valid_sq(Some(s), what)?;
        n += 1;
        ck!(n <= 81 && seen >> s.index() & 1 == 0, "invalid_set", "{what} gives a set that yields {} again", s.index());
        seen |= 1 << s.index();
    }
    ck!(b.count() as usize == n && b.is_empty() == (n == 0), "invalid_set", "{what} gives a set of {} squares that yields {}", b.count(), n);
    Ok(())
}
pub fn valid_move(m: Option<Move>, what: &str) -> R {
    match m {
        Some(Move::Normal { from, to, .. }) => {
            valid_sq(Some(from), what)?;
            valid_sq(Some(to), what)
        }
        Some(Move::Drop { piece, to }) => {
            valid_piece(Some(piece), what)?;
            valid_sq(Some(to), what)
        }
        None => Ok(()),
    }
}

fn i8_any(r: &mut crate::rng::Rng) -> i8 {
    match r.below(4) {
        0 => r.next() as i8,
        1 => r.pick(&[i8::MIN, i8::MAX, -127, 126, 0]),
        _ => r.below(21) as i8 - 10,
    }
}

pub fn c22(cx: &mut Ctx, _case: u64) -> R {
    let mut r = cx.rng.clone();
    let mut sqs: Vec<Square> = vec![sq(1), sq(81), sq(1 + r.below(81) as u8)];
    let mut pcs: Vec<Piece> = vec![piece(1), piece(30), piece(r.pick(&all_pieces()))];
    let mut kds: Vec<PieceKind> = vec![kind(1), kind(14), kind(1 + r.below(14) as u8)];
    let mut cols: Vec<Color> = vec![Color::Black, Color::White];
    let mut sets: Vec<Bitboard> = vec![Bitboard::empty(), !Bitboard::empty()];
    let mut sws: Vec<ByteSwappedBitboard> = vec![ByteSwappedBitboard::default()];
    let mut hands: Vec<Hand> = vec![Hand::new()];
    let mut mvs: Vec<Move> = vec![to_real(gen::any(&mut r))];
    let mut cms: Vec<CompactMove> = vec![pack(mvs[0])];
    let mut pps: Vec<PartialPosition> = vec![PartialPosition::empty(), PartialPosition::startpos(), build(&gen::wild(&mut r))];
    let mut pos: Vec<Position> = vec![Position::startpos(), Position::arbitrary_position(PartialPosition::empty())];
    let mut games: Vec<Game> = vec![Game::default()];
    let mut pgames: Vec<PartialGame> = vec![PartialGame::default()];
    let mut trail = 0u64;
    let steps = if cx.tiny { 40 } else { 400 };
    macro_rules! put {
        ($pool:expr, $v:expr) => {{
            let v = $v;
            if $pool.len() < 12 {
                $pool.push(v)
            } else {
                let i = r.usize($pool.len());
                $pool[i] = v
            }
        }};
    }
    macro_rules! any {
        ($pool:expr) => {{
            let i = r.usize($pool.len());
            $pool[i]
        }};
    }
    for _ in 0..steps {
        let op = r.below(64);
        trail = mix(trail ^ op);
        let (a, b) = (r.next() as u8, r.next() as u8);
        match op {
            0 => {
                let s = Square::new(a % 12, b % 12);
                valid_sq(s, "Square::new")?;
                valid_sq(Square::Square_new(a, b).into(), "Square_new")?;
                if let Some(s) = s {
                    put!(sqs, s)
                }
            }
            1 => {
                let c = any!(cols);
                let s = Square::new_relative(a % 12, b % 12, c);
                valid_sq(s, "Square::new_relative")?;
                valid_sq(Square::new_relative(a, b, c), "Square::new_relative")?;
                valid_sq(Square::Square_new_relative(a, b, c).into(), "Square_new_relative")?;
                if let Some(s) = s {
                    put!(sqs, s)
                }
            }
            2 => {
                let s = Square::from_u8(a);
                valid_sq(s, "Square::from_u8")?;
                if let Some(s) = s {
                    put!(sqs, s);
                    put!(sqs, unsafe { Square::from_u8_unchecked(a) });
                    put!(sqs, unsafe { Square::Square_from_u8_unchecked(a) });
                }
            }
            3 | 4 => {
                let s = any!(sqs);
                let (x, y) = (i8_any(&mut r), i8_any(&mut r));
                let t = s.shift(x, y);
                valid_sq(t, "Square::shift")?;
                if let Some(t) = t {
                    put!(sqs, t)
                }
            }
            5 => {
                let s = any!(sqs).flip();
                valid_sq(Some(s), "Square::flip")?;
                let c = any!(cols);
                ck!((1..=9).contains(&s.relative_file(c)) && (1..=9).contains(&s.relative_rank(c)), "invalid_coordinate", "relative coordinates of {}: {} {}", s.index(), s.relative_file(c), s.relative_rank(c));
                put!(sqs, s);
            }
            6 => {
                let s = Square::all().nth(a as usize % 90);
                valid_sq(s, "Square::all")?;
                if let Some(s) = s {
                    put!(sqs, s)
                }
            }
            7 => put!(cols, any!(cols).flip()),
            8 => {
                let k = PieceKind::from_u8(a % 20);
                valid_kind(k, "PieceKind::from_u8")?;
                valid_kind(PieceKind::from_u8(a), "PieceKind::from_u8")?;
                valid_kind(PieceKind::PieceKind_from_u8(b).into(), "PieceKind_from_u8")?;
                if let Some(k) = k {
                    put!(kds, k);
                    put!(kds, unsafe { PieceKind::from_u8_unchecked(a % 20) });
                }
            }
            9 => {
                let k = any!(kds);
                for x in [k.promote(), k.unpromote(), k.PieceKind_promote().into(), k.PieceKind_unpromote().into()] {
                    valid_kind(x, "promotion of a kind")?;
                    if let Some(x) = x {
                        put!(kds, x)
                    }
                }
            }
            10 => {
                let p = Piece::new(any!(kds), any!(cols));
                valid_piece(Some(p), "Piece::new")?;
                valid_piece(Some(Piece::Piece_new(any!(kds), any!(cols))), "Piece_new")?;
                put!(pcs, p)
            }
            11 => {
                let p = any!(pcs);
                for x in [p.promote(), p.unpromote(), p.Piece_promote().into(), p.Piece_unpromote().into()] {
                    valid_piece(x, "promotion of a piece")?;
                    if let Some(x) = x {
                        put!(pcs, x)
                    }
                }
                let (k, c) = p.to_parts();
                valid_kind(Some(k), "Piece::to_parts")?;
                valid_kind(Some(p.piece_kind()), "Piece::piece_kind")?;
                put!(kds, k);
                put!(cols, c);
                put!(cols, p.color());
            }
            12 => {
                put!(pcs, Piece::all()[a as usize % 28]);
                put!(kds, PieceKind::all()[a as usize % 14]);
                put!(cols, Color::all()[a as usize % 2]);
                let k = Hand::all_hand_pieces().nth(a as usize % 8);
                valid_kind(k, "Hand::all_hand_pieces")?;
            }
            13 => {
                let h = any!(hands);
                let k = any!(kds);
                if let Some(h) = h.added(k) {
                    put!(hands, h)
                }
                if let Some(h) = h.removed(k) {
                    put!(hands, h)
                }
                let _ = h.count(k);
            }
            14 => {
                let mut h = any!(hands);
                let k = any!(kds);
                for _ in 0..r.pick(&[1, 10, 300]) {
                    h.Hand_add(k);
                }
                put!(hands, h);
                for _ in 0..r.pick(&[1, 10, 300]) {
                    h.Hand_remove(k);
                }
                let _ = h.Hand_count(k);
                put!(hands, h);
            }
            15 => {
                let mut s = String::new();
                let _ = [any!(hands), any!(hands)].to_usi(&mut s);
                let _ = any!(sqs).to_usi(&mut s);
                let _ = any!(pcs).to_usi(&mut s);
                let _ = any!(kds).to_usi(&mut s);
                let _ = any!(cols).to_usi(&mut s);
                let _ = any!(mvs).to_usi(&mut s);
                let _ = any!(cms).to_usi(&mut s);
                ck!(s.is_ascii(), "invalid_text", "text is not ASCII: {s:?}");
            }
            16 => put!(sets, Bitboard::single(any!(sqs))),
            17 => put!(sets, any!(sets) | any!(sets)),
            18 => put!(sets, any!(sets) & &any!(sets)),
            19 => put!(sets, &any!(sets) ^ any!(sets)),
            20 => put!(sets, any!(sets).andnot(any!(sets))),
            21 => put!(sets, !any!(sets)),
            22 => put!(sets, any!(sets).flip()),
            23 => put!(sets, unsafe { any!(sets).shift_up(a % 10) }),
            24 => put!(sets, unsafe { any!(sets).shift_down(a % 10) }),
            25 => put!(sets, unsafe { any!(sets).shift_left(a % 10) }),
            26 => put!(sets, unsafe { any!(sets).shift_right(a % 10) }),
            27 => put!(sets, unsafe { Bitboard::from_file_unchecked(1 + a % 9, r.next() as u16 & 0x1ff) }),
            28 => {
                let f = unsafe { any!(sets).get_file_unchecked(1 + a % 9) };
                ck!(f < 512, "invalid_file", "a file is {f:x}");
            }
            29 => {
                let mut s = any!(sets);
                for _ in 0..r.below(83) {
                    valid_sq(s.pop(), "Bitboard::pop")?;
                    valid_sq(s.Bitboard_pop().into(), "Bitboard_pop")?;
                }
                put!(sets, s);
            }
            30 => {
                let s = any!(sets);
                put!(sets, unsafe { Bitboard::from_u128_unchecked(s.to_u128()) });
            }
            31 => put!(sws, any!(sets).swap_bytes()),
            32 => {
                let (x, y) = (any!(sws), any!(sws));
                put!(sws, match a % 5 {
                    0 => x.or(y),
                    1 => x.and(y),
                    2 => x.xor(y),
                    3 => x.andnot(y),
                    _ => unsafe { ByteSwappedBitboard::from_u128_unchecked(x.to_u128()) },
                });
            }
            33 => put!(sets, any!(sws).swap_bytes()),
            34 => {
                let mut s = any!(sets);
                let q = any!(sqs);
                s |= q;
                s ^= any!(sqs);
                s &= any!(sets);
                let _ = s.contains(q);
                put!(sets, s);
            }
            35 => {
                let s = any!(sets);
                let n = s.count() as usize;
                ck!(s.size_hint().0 <= n && s.size_hint().1.map_or(true, |u| u >= n), "invalid_hint", "a set of {n} announces {:?}", s.size_hint());
                valid_sq(s.clone().nth(a as usize % 82), "nth")?;
                valid_sq(s.clone().last(), "last")?;
                valid_sq(s.clone().step_by(1 + b as usize % 9).next(), "step_by")?;
            }
            36 => {
                let m = Move::Normal { from: any!(sqs), to: any!(sqs), promote: a & 1 != 0 };
                put!(mvs, m);
                put!(cms, CompactMove::normal(any!(sqs), any!(sqs), a & 2 != 0));
            }
            37 => {
                let m = Move::Drop { piece: any!(pcs), to: any!(sqs) };
                put!(mvs, m);
                put!(cms, CompactMove::drop(any!(pcs), any!(sqs)));
            }
            38 => {
                let m = any!(mvs);
                valid_sq(m.from(), "Move::from")?;
                valid_sq(Some(m.to()), "Move::to")?;
                let _ = (m.is_promoting(), m.is_drop());
                put!(cms, pack(m));
            }
            39 => {
                let m = any!(cms);
                valid_sq(m.from(), "CompactMove::from")?;
                valid_sq(m.CompactMove_from().into(), "CompactMove_from")?;
                valid_sq(Some(m.to()), "CompactMove::to")?;
                let _ = (m.is_promoting(), m.is_drop());
                let x: Move = m.into();
                valid_move(Some(x), "conversion of a packed move")?;
                put!(mvs, x);
            }
            40 => {
                let o = OptionCompactMove::from(if a & 1 == 0 { None } else { Some(any!(cms)) });
                if let Some(m) = Option::<CompactMove>::from(o) {
                    valid_move(Some(m.into()), "OptionCompactMove")?;
                    put!(cms, m)
                }
                let o = OptionSquare::from(if a & 1 == 0 { None } else { Some(any!(sqs)) });
                valid_sq(o.into(), "OptionSquare")?;
                let o = OptionPiece::from(if a & 1 == 0 { None } else { Some(any!(pcs)) });
                valid_piece(o.into(), "OptionPiece")?;
                let o = OptionPieceKind::from(if a & 1 == 0 { None } else { Some(any!(kds)) });
                valid_kind(o.into(), "OptionPieceKind")?;
                let k = IllegalMoveKind::from_u8(b % 9);
                let x: Result<(), IllegalMoveKind> = ResultUnitIllegalMoveKind::from(k).into();
                let y: Option<IllegalMoveKind> = ResultUnitIllegalMoveKind::from(x).into();
                ck!(y == k, "invalid_reason", "reason {k:?} becomes {y:?}");
            }
            41..=46 => {
                // Moves on positions, in any form.
                let i = r.usize(pps.len());
                let j = r.usize(pos.len());
                let (m, n) = (observe(&pps[i]), observe(pos[j].inner()));
                let (x, y) = (gen::attempt(&mut r, &m, 75), gen::attempt(&mut r, &n, 75));
                let _ = pps[i].make_move(to_real(x));
                let _ = pos[j].make_move(to_real(y));
                let _ = pps[i].make_compact_move(any!(cms));
                let _ = pos[j].make_compact_move(any!(cms));
                put!(mvs, to_real(x));
            }
            47 => {
                let i = r.usize(pps.len());
                for _ in 0..r.pick(&[1, 1, 81]) {
                    let p = if r.pct(30) { None } else { Some(any!(pcs)) };
                    pps[i].piece_set(any!(sqs), p);
                }
                let j = r.usize(pos.len());
                pos[j].piece_set(any!(sqs), Some(any!(pcs)));
            }
            48 => {
                let i = r.usize(pps.len());
                *pps[i].hand_of_a_player_mut(any!(cols)) = any!(hands);
                pps[i].side_to_move_set(any!(cols));
                let _ = pps[i].ply_set(gen::ply(&mut r));
                let _ = pps[i].ply_set(0);
                let j = r.usize(pos.len());
                *pos[j].hand_of_a_player_mut(any!(cols)) = any!(hands);
            }
            49 => {
                let mut v = vec![];
                let i = r.usize(pps.len());
                everything(&pps[i], &mut v);
                for s in 1..=81 {
                    valid_piece(pps[i].piece_at(sq(s)), "piece_at")?;
                }
                for c in [Color::Black, Color::White] {
                    valid_sq(pps[i].king_position(c), "king_position")?;
                    put!(sets, pps[i].player_bitboard(c));
                }
                valid_move(pps[i].last_move(), "last_move")?;
                put!(sets, pps[i].piece_kind_bitboard(any!(kds)));
                put!(sets, pps[i].piece_bitboard(any!(pcs)));
                put!(sets, pps[i].vacant_bitboard());
                let _ = pps[i].hand(any!(pcs));
            }
            50 => {
                let mut v = vec![];
                let i = r.usize(pos.len());
                everything_record(&pos[i], &mut v);
                for &m in pos[i].moves() {
                    valid_move(Some(m), "moves")?;
                }
                valid_move(pos[i].last_move(), "last_move")?;
                put!(sets, pos[i].occupied_bitboard());
            }
            51 => {
                // Exactly what the documentation asks for, on the heap, where sanitizers watch it.
                let mut m = gen::standard(&mut r);
                m.ply = gen::ply(&mut r);
                let p = build(&m);
                let mut buf = vec![0u8; 139].into_boxed_slice();
                unsafe { p.to_sfen_c(buf.as_mut_ptr()) };
                let mut buf2 = vec![0u8; 139].into_boxed_slice();
                unsafe { Position::arbitrary_position(p.clone()).to_sfen_c(buf2.as_mut_ptr()) };
                ck!(buf == buf2, "sfen_c", "`{}`: record and position write different text", m.sfen());
                put!(pps, p);
            }
            52 => put!(pps, pps[a as usize % pps.len()].clone()),
            53 => put!(pos, pos[a as usize % pos.len()].clone()),
            54 => put!(pos, Position::arbitrary_position(pps[a as usize % pps.len()].clone())),
            55 => put!(pps, pos[a as usize % pos.len()].inner().clone()),
            56 => {
                let mut u = std::mem::MaybeUninit::uninit();
                PartialPosition::PartialPosition_startpos(&mut u);
                put!(pps, unsafe { u.assume_init() });
            }
            57 => {
                let p = Position::Position_startpos();
                unsafe {
                    let m = observe((*p).inner());
                    let _ = (*p).make_move(to_real(gen::attempt(&mut r, &m, 100)));
                    put!(pos, (*p).clone());
                    Position::Position_destruct(p);
                }
            }
            58 => {
                let i = r.usize(games.len());
                let rs = [GameResolution::BlackWins, GameResolution::WhiteWins, GameResolution::Draw, GameResolution::Rematch, GameResolution::Aborted];
                games[i].resolve(r.pick(&rs));
                if b & 1 == 0 {
                    games[i].unresolve();
                }
                let _ = games[i].resolution();
                let o: Option<GameResolution> = games[i].Game_resolution().into();
                ck!(o == games[i].resolution(), "invalid_resolution", "result {o:?}");
                put!(pos, games[i].position().clone());
                put!(games, games[i].clone());
            }
            59 => {
                let i = r.usize(pgames.len());
                let res = unsafe { GameResolution::from_u8_unchecked(1 + a % 5) };
                pgames[i].resolve(res);
                put!(pps, pgames[i].position().clone());
                put!(pgames, pgames[i].clone());
            }
            60 => {
                let (p, q) = (&pps[a as usize % pps.len()], &pps[b as usize % pps.len()]);
                let _ = (p == q, p.cmp(q));
                let (p, q) = (&pos[a as usize % pos.len()], &pos[b as usize % pos.len()]);
                let _ = (p == q, p.cmp(q));
                let (p, q) = (any!(mvs), any!(mvs));
                let _ = (p == q, p.cmp(&q));
            }
            61 => {
                let mut s = String::new();
                let _ = write!(s, "{:?} {:?} {:?} {:?} {:?} {:?}", any!(sqs), any!(pcs), any!(kds), any!(sets), any!(hands), any!(cms));
                let _ = write!(s, "{:?} {:?}", pps[a as usize % pps.len()], pos[b as usize % pos.len()].moves());
                ck!(!s.is_empty(), "debug", "debug text is empty");
            }
            62 => {
                let i = r.usize(pos.len());
                let _ = pos[i].to_sfen_owned();
                let _ = pos[i].initial_position().to_sfen_owned();
            }
            _ => {
                // A longer game at once.
                let i = r.usize(pos.len());
                let mut m = observe(pos[i].inner());
                for _ in 0..if cx.tiny { 3 } else { 60 } {
                    let mv = gen::attempt(&mut r, &m, 95);
                    let _ = pos[i].make_move(to_real(mv));
                    m = observe(pos[i].inner());
                }
            }
        }
        cx.evals += 1;
    }
    for b in &sets {
        valid_set(*b, "an expression")?;
    }
    for s in &sqs {
        valid_sq(Some(*s), "an expression")?;
    }
    cx.count("calls_sequences", 1);
    cx.saw(trail);
    cx.sample(|| format!("{steps} random operations on pools of all types"));
    Ok(())
}
