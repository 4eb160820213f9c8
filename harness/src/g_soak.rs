//! C24, second part: nothing is kept between calls. Every operation, always on the same arguments,
//! gives the answer it gave when it was new — after many calls, and when several threads of a
//! fresh process are the first to call it.

use crate::ck;
use crate::ctx::{fail, fnv, Ctx, R};
use crate::g_thr::QUERIES;
use crate::model::*;
use crate::obs::*;
use crate::rng::{mix, Rng};
use shogi_core::*;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::hint::black_box;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Barrier;
use std::time::{Duration, Instant};

type Op = (&'static str, fn() -> u64);

fn hash<T: Hash>(x: T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
fn bits(b: Bitboard) -> u64 {
    let v = b.to_u128();
    mix(v as u64) ^ (v >> 64) as u64
}
fn swapped(b: ByteSwappedBitboard) -> u64 {
    let v = b.to_u128();
    mix(v as u64) ^ (v >> 64) as u64
}
fn of(b: bool) -> u64 {
    b as u64 + 1
}
fn at(i: u8) -> Square {
    sq(black_box(i))
}
fn n(from: u8, to: u8, promote: bool) -> Move {
    Move::Normal { from: at(from), to: at(to), promote }
}
/// A bare position as it stands, cheaply.
fn bare(p: &PartialPosition) -> u64 {
    let mut h = p.side_to_move() as u64 | (p.ply() as u64) << 8 | (cm_u16(p.last_compact_move()) as u64) << 32;
    for c in Color::all() {
        h = mix(h ^ bits(p.player_bitboard(c)));
        h = mix(h ^ u64::from_le_bytes(hand8(p.hand_of_a_player(c))));
        h = mix(h ^ p.king_position(c).map_or(0, |s| s.index() as u64));
    }
    for s in 1..=81 {
        h = (h ^ p.piece_at(sq(s)).map_or(0, |x| x.as_u8() as u64)).wrapping_mul(0x100_0000_01b3);
    }
    for k in PieceKind::all() {
        h = mix(h ^ bits(p.piece_kind_bitboard(k)));
    }
    h
}
fn hand8(h: Hand) -> [u8; 8] {
    let c = hand_counts(h);
    [c[0], c[1], c[2], c[3], c[4], c[5], c[6], 0]
}
fn record(p: &Position) -> u64 {
    let mut h = bare(p.inner());
    h = mix(h ^ bare(p.initial_position()));
    for &m in p.moves() {
        h = mix(h ^ from_real(m).packed() as u64);
    }
    mix(h ^ p.ply() as u64 ^ bits(p.occupied_bitboard()))
}
/// A record with a capture, a promotion, a drop and a refused move behind it.
fn played() -> Position {
    let mut p = Position::startpos();
    // 7g7f 3c3d 8h2b+ 3a2b B*5e
    for m in [n(61, 60, false), n(21, 22, false), n(71, 11, true), n(19, 11, false)] {
        if p.make_move(m).is_none() {
            return p;
        }
    }
    p.make_move(Move::Drop { piece: Piece::B_B, to: at(41) });
    p.make_move(Move::Drop { piece: Piece::W_B, to: at(41) });
    p
}
fn sets() -> (Bitboard, Bitboard) {
    (bb(black_box(0x0123_4567_89ab_cdef_0f1e & ((1 << 81) - 1))), bb(black_box(0x1_5555_0000_ffff_3333_1)))
}

const OPS: &[Op] = &[
    ("Position::startpos", || record(&Position::startpos())),
    ("Position::default", || record(&Position::default())),
    ("Position_startpos", || unsafe {
        let p = Position::Position_startpos();
        let h = record(&*p);
        Position::Position_destruct(p);
        h
    }),
    ("Position::arbitrary_position", || record(&Position::arbitrary_position(PartialPosition::startpos()))),
    ("PartialPosition::startpos", || bare(&PartialPosition::startpos())),
    ("PartialPosition_startpos", || {
        let mut m = std::mem::MaybeUninit::uninit();
        PartialPosition::PartialPosition_startpos(&mut m);
        bare(unsafe { m.assume_init_ref() })
    }),
    ("PartialPosition::empty", || bare(&PartialPosition::empty())),
    ("PartialPosition::default", || bare(&PartialPosition::default())),
    ("Position::make_move", || record(&played())),
    ("PartialPosition::make_move", || {
        let mut p = PartialPosition::startpos();
        let a = p.make_move(n(61, 60, false)).is_some();
        let b = p.make_move(n(61, 60, false)).is_some();
        let c = p.make_move(n(21, 22, false)).is_some();
        let d = p.make_move(n(71, 11, true)).is_some();
        bare(&p) ^ of(a) ^ of(b) << 2 ^ of(c) << 4 ^ of(d) << 6
    }),
    ("PartialPosition::make_compact_move", || {
        let mut p = PartialPosition::startpos();
        let a = p.make_compact_move(n(61, 60, false).into());
        let b = p.make_compact_move(n(60, 60, false).into());
        let c = p.make_compact_move(n(21, 22, false).into());
        let d = p.make_compact_move(n(71, 11, true).into());
        bare(&p) ^ of(a) ^ of(b) << 2 ^ of(c) << 4 ^ of(d) << 6
    }),
    ("Position::make_compact_move", || {
        let mut p = Position::startpos();
        let a = p.make_compact_move(n(61, 60, false).into());
        let b = p.make_compact_move(n(60, 60, false).into());
        record(&p) ^ of(a) ^ of(b) << 2
    }),
    ("a drop", || {
        let mut p = PartialPosition::startpos();
        *p.hand_of_a_player_mut(Color::Black) = Hand::new().added(PieceKind::Gold).unwrap_or_default();
        let a = p.make_move(Move::Drop { piece: Piece::B_G, to: at(41) }).is_some();
        let b = p.make_move(Move::Drop { piece: Piece::W_G, to: at(40) }).is_some();
        bare(&p) ^ of(a) << 1 ^ of(b) << 3
    }),
    ("PartialPosition::piece_set", || {
        let mut p = PartialPosition::startpos();
        p.piece_set(at(45), None);
        p.piece_set(at(5), Some(Piece::B_PR));
        p.piece_set(at(42), Some(Piece::W_K));
        p.piece_set(at(41), Some(Piece::W_S));
        p.piece_set(at(41), Some(Piece::B_S));
        p.side_to_move_set(Color::White);
        p.ply_set(black_box(777));
        bare(&p)
    }),
    ("Position::piece_set", || {
        let mut p = Position::startpos();
        p.piece_set(at(45), None);
        p.piece_set(at(41), Some(Piece::B_S));
        *p.hand_of_a_player_mut(Color::White) = Hand::new().added(PieceKind::Rook).unwrap_or_default();
        record(&p)
    }),
    ("the same position by another way", || {
        let (mut p, mut q) = (PartialPosition::startpos(), PartialPosition::startpos());
        p.piece_set(at(45), None);
        p.piece_set(at(41), Some(Piece::B_S));
        q.piece_set(at(41), Some(Piece::B_S));
        let a = p == q;
        q.piece_set(at(45), None);
        of(a) << 4 ^ of(p == q) << 2 ^ of(p.cmp(&q) == std::cmp::Ordering::Equal) ^ (hash(&p) == hash(&q)) as u64
    }),
    ("order of positions", || {
        let (a, b) = (played(), Position::startpos());
        a.cmp(&b) as i8 as u8 as u64 ^ (b.cmp(&a) as i8 as u8 as u64) << 8 ^ of(a == b) << 16 ^ of(a.inner() == b.inner()) << 18 ^ of(a.partial_cmp(&b).is_some()) << 20
    }),
    ("hash of positions", || hash(played()) ^ hash(PartialPosition::startpos())),
    ("copies", || {
        let a = played();
        let mut b = a.clone();
        b.make_move(n(11, 12, false));
        record(&a) ^ mix(record(&b)) ^ of(a == b)
    }),
    ("Game", || {
        let mut g = Game::default();
        let mut h = g.Game_resolution();
        let a = format!("{h:?}");
        g.resolve(GameResolution::WhiteWins);
        let b = g.resolution().map_or(0, |x| x as u64);
        let other = Game::default();
        let c = other.resolution().is_none();
        g.unresolve();
        h = g.Game_resolution();
        fnv(a.as_bytes()) ^ fnv(format!("{h:?}").as_bytes()) ^ b ^ of(c) ^ record(g.position()) ^ of(g == other)
    }),
    ("PartialGame", || {
        let mut g = PartialGame::default();
        g.resolve(GameResolution::Aborted);
        let b = g.resolution().map_or(0, |x| x as u64);
        let c = PartialGame::default().resolution().is_none();
        b ^ of(c) ^ bare(g.position())
    }),
    ("Square", || {
        let mut h = 0;
        for f in 0..11 {
            for r in [0, 1, 5, 9, 10] {
                h = mix(h ^ Square::new(black_box(f), r).map_or(0, |s| s.index() as u64 + 256 * s.file() as u64 + 65536 * s.rank() as u64));
                for c in Color::all() {
                    h = mix(h ^ Square::new_relative(black_box(f), r, c).map_or(0, |s| s.relative_file(c) as u64 * 16 + s.relative_rank(c) as u64 + 300));
                }
            }
        }
        h
    }),
    ("Square::shift", || {
        let mut h = 0;
        for d in [-128i8, -9, -4, -1, 0, 1, 3, 8, 127] {
            h = mix(h ^ at(41).shift(black_box(d), 1).map_or(0, |s| s.index() as u64));
            h = mix(h ^ at(12).shift(-1, black_box(d)).map_or(0, |s| s.index() as u64));
            h = mix(h ^ osq_u8(at(81).Square_shift(black_box(d), 0)) as u64);
        }
        mix(h ^ at(12).flip().index() as u64 ^ (at(50).array_index() as u64) << 8)
    }),
    ("Square::from_u8", || (0..=255).fold(0, |h, x| mix(h ^ Square::from_u8(black_box(x)).map_or(0, |s| s.index() as u64)))),
    ("Square::all", || Square::all().fold(0, |h, s| mix(h ^ s.index() as u64))),
    ("PieceKind", || {
        (0..=20).fold(0, |h, x| {
            mix(h ^ PieceKind::from_u8(black_box(x)).map_or(99, |k| k as u64 + 32 * k.promote().map_or(0, |p| p as u64) + 1024 * k.unpromote().map_or(0, |p| p as u64) + 65536 * k.array_index() as u64))
        })
    }),
    ("PieceKind::all", || PieceKind::all().iter().fold(0, |h, &k| mix(h ^ k as u64 ^ (PieceKind::option_array_index(Some(k)) as u64) << 8))),
    ("Piece", || {
        Piece::all().iter().fold(0, |h, &x| {
            let (k, c) = black_box(x).to_parts();
            mix(h ^ x.as_u8() as u64 ^ (k as u64) << 8 ^ (c as u64) << 16 ^ x.promote().map_or(0, |p| (p.as_u8() as u64) << 24) ^ x.unpromote().map_or(0, |p| (p.as_u8() as u64) << 32) ^ (x.array_index() as u64) << 40 ^ (Piece::new(k, c).as_u8() as u64) << 48)
        })
    }),
    ("Color", || Color::all().iter().fold(0, |h, &c| mix(h ^ c as u64 ^ (black_box(c).flip() as u64) << 8 ^ (c.array_index() as u64) << 16))),
    ("IllegalMoveKind", || (0..20).fold(0, |h, x| mix(h ^ IllegalMoveKind::from_u8(black_box(x)).map_or(99, |k| k as u64)))),
    ("Hand", || {
        let mut h = 0;
        let mut x = Hand::new();
        for k in PieceKind::all() {
            for _ in 0..3 {
                x = x.added(black_box(k)).unwrap_or(x);
            }
            h = mix(h ^ x.removed(black_box(k)).map_or(1, |y| y.count(k).unwrap_or(9) as u64));
            h = mix(h ^ x.count(k).unwrap_or(77) as u64 ^ of(Hand::is_hand_piece(k)) << 8);
        }
        h ^ u64::from_le_bytes(hand8(x)) ^ of(x == Hand::default()) << 1 ^ of(x.removed(PieceKind::King).is_some())
    }),
    ("Hand for C", || {
        let mut x = Hand::new();
        let mut h = 0;
        for k in PieceKind::all() {
            let a = x.Hand_add(k);
            let b = x.Hand_add(k);
            let c = x.Hand_remove(k);
            h = mix(h ^ of(a) ^ of(b) << 2 ^ of(c) << 4 ^ (x.Hand_count(k) as u64) << 8);
        }
        h ^ Hand::all_hand_pieces().fold(0, |h, k| mix(h ^ k as u64))
    }),
    ("a hand to its brim", || {
        let mut x = Hand::new();
        for _ in 0..255 {
            x.Hand_add(black_box(PieceKind::Gold));
        }
        let a = x.Hand_count(PieceKind::Gold) as u64;
        x.Hand_add(PieceKind::Gold);
        a ^ (x.Hand_count(PieceKind::Gold) as u64) << 8 ^ u64::from_le_bytes(hand8(x)) << 1
    }),
    ("CompactMove", || {
        [n(1, 81, true), n(81, 1, false), Move::Drop { piece: Piece::W_P, to: at(41) }].iter().fold(0, |h, &m| {
            let c: CompactMove = black_box(m).into();
            let back: Move = c.into();
            mix(h ^ of(back == m) ^ cm_u16(Some(c)) as u64 ^ (c.to().index() as u64) << 20 ^ c.from().map_or(0, |s| (s.index() as u64) << 30) ^ of(c.is_promoting()) << 40 ^ of(c.is_drop()) << 44 ^ of(m.is_drop()) << 48 ^ hash(c))
        })
    }),
    ("Move", || {
        [n(1, 81, true), n(81, 1, false), Move::Drop { piece: Piece::W_P, to: at(41) }].iter().fold(0, |h, &m| {
            let m = black_box(m);
            mix(h ^ m.to().index() as u64 ^ m.from().map_or(0, |s| (s.index() as u64) << 8) ^ of(m.is_promoting()) << 16 ^ of(m.is_drop()) << 20 ^ hash(m))
        })
    }),
    ("sets: and, or, xor, not", || {
        let (a, b) = sets();
        bits(a & b) ^ mix(bits(a | b)) ^ mix(mix(bits(a ^ b))) ^ mix(bits(!a) ^ 5) ^ mix(bits(a.andnot(b)) ^ 7) ^ mix(bits(a.and(b).or(a.xor(b))) ^ 9)
    }),
    ("sets: assignments", || {
        let (a, b) = sets();
        let (mut x, mut y, mut z) = (a, a, a);
        x &= b;
        y |= at(12);
        z ^= at(12);
        bits(x) ^ mix(bits(y)) ^ mix(mix(bits(z)))
    }),
    ("sets: for C", || {
        let (a, b) = sets();
        let mut x = Bitboard::Bitboard_bitand(a, b);
        Bitboard::Bitboard_bitor_assign(&mut x, Bitboard::Bitboard_single(at(9)));
        Bitboard::Bitboard_bitxor_assign(&mut x, Bitboard::Bitboard_empty());
        bits(x) ^ mix(bits(Bitboard::Bitboard_bitor(a, b))) ^ mix(3 ^ bits(Bitboard::Bitboard_bitxor(a, b)))
    }),
    ("sets: contents", || {
        let (a, _) = sets();
        (1..=81).fold(a.count() as u64, |h, s| mix(h ^ a.contains(sq(s)) as u64)) ^ of(a.is_empty()) ^ bits(Bitboard::single(at(33))) ^ of(Bitboard::empty().is_empty()) << 3
    }),
    ("sets: iterating", || {
        let (a, b) = sets();
        let mut p = b;
        let mut h = a.fold(0, |h, s| mix(h ^ s.index() as u64));
        while let Some(s) = p.pop() {
            h = mix(h ^ s.index() as u64);
        }
        h ^ osq_u8(p.Bitboard_pop()) as u64 ^ a.size_hint().0 as u64
    }),
    ("sets: shifts", || {
        let (a, b) = sets();
        (0..10).fold(0, |h, d| unsafe { mix(h ^ bits(a.shift_left(black_box(d)))) ^ mix(bits(b.shift_right(black_box(d)))) ^ mix(1 ^ bits(a.shift_up(black_box(d)))) ^ mix(2 ^ bits(b.shift_down(black_box(d)))) })
    }),
    ("sets: flips and files", || {
        let (a, b) = sets();
        (1..10).fold(bits(a.flip()), |h, f| unsafe { mix(h ^ b.get_file_unchecked(black_box(f)) as u64) ^ bits(Bitboard::from_file_unchecked(black_box(f), 0x155)) }) ^ bits(a.flip().flip())
    }),
    ("sets: swapped bytes", || {
        let (a, b) = sets();
        let (x, y) = (a.swap_bytes(), b.swap_bytes());
        swapped(x.and(y)) ^ mix(swapped(x.or(y))) ^ mix(9 ^ swapped(x.xor(y))) ^ mix(8 ^ bits(x.swap_bytes())) ^ swapped(x.andnot(y))
    }),
    ("sets: comparing", || {
        let (a, b) = sets();
        of(a == b) ^ of(a == a.flip().flip()) << 2 ^ (Ord::cmp(&a, &b) as i8 as u8 as u64) << 8 ^ hash(a) ^ mix(hash(b.swap_bytes()))
    }),
    ("text of values", || {
        let mut s = String::new();
        for x in Piece::all() {
            s += &x.to_usi_owned();
        }
        for k in PieceKind::all() {
            s += &k.to_usi_owned();
        }
        s += &(at(1).to_usi_owned() + &at(81).to_usi_owned() + &Color::White.to_usi_owned());
        for m in [n(1, 81, true), n(81, 1, false), Move::Drop { piece: Piece::W_P, to: at(41) }] {
            s += &m.to_usi_owned();
            let c: CompactMove = m.into();
            s += &c.to_usi_owned();
        }
        fnv(s.as_bytes())
    }),
    ("text of hands", || {
        let h = hand(&[3, 0, 1, 12, 0, 2, 1]);
        fnv([h, Hand::new()].to_usi_owned().as_bytes()) ^ mix(fnv([Hand::new(), h].to_usi_owned().as_bytes())) ^ fnv([Hand::new(), Hand::new()].to_usi_owned().as_bytes())
    }),
    ("text of a position", || {
        let p = played();
        let mut b = [0xa5u8; 200];
        unsafe { p.to_sfen_c(b.as_mut_ptr()) };
        fnv(p.to_sfen_owned().as_bytes()) ^ mix(fnv(&b)) ^ mix(1 ^ fnv(p.inner().to_sfen_owned().as_bytes()))
    }),
    ("debugging text", || fnv(format!("{:?} {:?} {:?}", played(), sets(), at(7)).as_bytes())),
    ("refused writing", || {
        struct Full(usize);
        impl std::fmt::Write for Full {
            fn write_str(&mut self, s: &str) -> std::fmt::Result {
                self.0 = self.0.checked_sub(s.len()).ok_or(std::fmt::Error)?;
                Ok(())
            }
        }
        let p = PartialPosition::startpos();
        (0..70).step_by(9).fold(0, |h, c| {
            let mut f = Full(black_box(c));
            mix(h ^ of(p.to_sfen(&mut f).is_ok()) ^ (f.0 as u64) << 8)
        })
    }),
    ("all queries", || {
        let p = played();
        QUERIES.iter().fold(0, |h, q| mix(h ^ q.1(&p)))
    }),
    ("legality", || {
        let mut p = Position::startpos();
        let (l, d) = (Anything(PositionStatus::InProgress), Anything(PositionStatus::Draw));
        let mv = n(61, 60, false);
        of(l.is_legal(&p, mv).is_ok()) ^ of(d.is_legal(&p, mv).is_ok()) << 2 ^ of(l.is_legal_lite(&p, mv)) << 4 ^ of(d.is_legal_lite(&p, mv)) << 6 ^ (l.all_legal_moves(&p).len() as u64) << 8 ^ (d.all_legal_moves(&p).len() as u64) << 10 ^ of(l.make_move(&mut p, mv).is_ok()) << 12 ^ of(d.make_move(&mut p, n(21, 22, false)).is_ok()) << 14 ^ record(&p) << 16
    }),
];

struct Anything(PositionStatus);
impl LegalityChecker for Anything {
    fn status(&self, _: &Position) -> PositionStatus {
        self.0
    }
    fn status_partial(&self, _: &PartialPosition) -> PositionStatus {
        PositionStatus::InProgress
    }
    fn is_legal_partial(&self, p: &PartialPosition, mv: Move) -> Result<(), IllegalMoveKind> {
        p.clone().make_move(mv).ok_or(IllegalMoveKind::IncorrectMove)
    }
    fn is_legal_partial_lite(&self, p: &PartialPosition, mv: Move) -> bool {
        p.clone().make_move(mv).is_some()
    }
    fn all_legal_moves_partial(&self, _: &PartialPosition) -> Vec<Move> {
        vec![n(61, 60, false), n(21, 22, false)]
    }
    fn normal_from_candidates(&self, _: &PartialPosition, _: Square) -> Bitboard {
        Bitboard::empty()
    }
    fn normal_to_candidates(&self, _: &PartialPosition, _: Square, _: Piece) -> Bitboard {
        Bitboard::empty()
    }
    fn drop_candidates(&self, _: &PartialPosition, _: Piece) -> Bitboard {
        Bitboard::empty()
    }
}

/// In a fresh process: several threads make every first call, each in its own order; then the
/// answers have to be the ones that one thread gets afterwards. One case per process.
pub fn first(cx: &mut Ctx, case: u64) -> R {
    let n = if cx.tiny { 2 } else { 8 };
    // The interpreter is slow: some of the operations.
    let mut r = cx.rng.clone();
    let mut pick: Vec<usize> = (0..OPS.len()).collect();
    if cx.tiny {
        r.shuffle(&mut pick);
        pick.truncate(6);
        if !pick.contains(&0) {
            pick.push(0);
        }
    }
    let bar = Barrier::new(n);
    let (bar, pick) = (&bar, &pick);
    let outs: Vec<Vec<(usize, u64)>> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..n)
            .map(|i| {
                let salt = r.next();
                sc.spawn(move || {
                    let mut d = Rng::new(salt, "first", i as u64);
                    let mut order = pick.clone();
                    d.shuffle(&mut order);
                    if case % 2 == 0 {
                        // All threads make the same calls, one after the other, at the same time.
                        order = pick.clone();
                        order.rotate_left((case as usize / 2) % pick.len());
                    }
                    let mut v = Vec::with_capacity(order.len());
                    bar.wait();
                    for o in order {
                        for _ in 0..d.below(20) {
                            std::hint::spin_loop();
                        }
                        v.push((o, OPS[o].1()));
                    }
                    v
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join()).collect::<Result<Vec<_>, _>>()
    })
    .map_err(|_| fail("first_panic", "a first call panics when several threads make it".into()))?;
    let mut order = 0;
    for &o in pick {
        let want = OPS[o].1();
        ck!(OPS[o].1() == want, "repeated", "{}: two calls in a row answer differently", OPS[o].0);
        for (i, v) in outs.iter().enumerate() {
            let got = v.iter().find(|x| x.0 == o).unwrap().1;
            ck!(got == want, "first", "{}: thread {i} of {n} that were the first to call it got another answer than there is later", OPS[o].0);
        }
    }
    for v in &outs {
        for (o, x) in v {
            order = mix(order ^ *o as u64 ^ x);
        }
    }
    cx.evals += (pick.len() * n) as u64;
    cx.saw(order);
    cx.count("first_calls_by_threads", (pick.len() * n) as u64);
    cx.sample(|| format!("{} operations called first by {n} threads at once", pick.len()));
    Ok(())
}

/// What every operation answers when it is new.
fn new_answers() -> &'static [AtomicU64] {
    static A: std::sync::OnceLock<Vec<AtomicU64>> = std::sync::OnceLock::new();
    A.get_or_init(|| OPS.iter().map(|o| AtomicU64::new(o.1())).collect())
}

/// One operation, very many times.
pub fn soak(cx: &mut Ctx, case: u64) -> R {
    let o = case as usize % OPS.len();
    let deep = case >= 1 << 20;
    let want = new_answers();
    let t0 = Instant::now();
    let (name, f) = OPS[o];
    let w = want[o].load(Ordering::Relaxed);
    // Past a counter of 22 bits, or of 32 for what takes nanoseconds.
    let (least, most, time) = if cx.tiny {
        (3, 3, 0)
    } else if deep {
        (20_000, (1 << 32) + 1000, 100_000)
    } else {
        (20_000, (1 << 22) + 1000, 3000)
    };
    let mut i = 0u64;
    while i < most && (i < least || t0.elapsed() < Duration::from_millis(time)) {
        for _ in 0..if cx.tiny { 1 } else { 64 } {
            let got = f();
            i += 1;
            ck!(got == w, "soak", "{name}: call {i} in a row answers differently from the first");
        }
    }
    // The others do not care.
    for (j, x) in OPS.iter().enumerate() {
        if cx.tiny && j % 10 != o % 10 {
            continue;
        }
        ck!(x.1() == want[j].load(Ordering::Relaxed), "soak", "{}: answers differently after {i} calls of {name}", x.0);
    }
    cx.evals += i;
    cx.saw(mix(o as u64));
    cx.count("calls_in_a_row", i);
    cx.sample(|| format!("{i} calls of {name}"));
    Ok(())
}
