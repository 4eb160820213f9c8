//! C24: no operation on one value affects another, in one thread or in several.

use crate::ck;
use crate::ctx::{fail, fnv, Ctx, R};
use crate::gen;
#[cfg(not(miri))]
use crate::guard::Guarded;
use crate::model::*;
use crate::obs::*;
use crate::rng::{mix, Rng};
use shogi_core::*;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Barrier};

/// The queries of a record, each giving a digest of its answer.
type Query = (&'static str, fn(&Position) -> u64);
pub const QUERIES: [Query; 22] = [
    ("sfen", |p| fnv(p.to_sfen_owned().as_bytes())),
    ("sfen_c", |p| {
        let mut b = [0xa5u8; 400];
        unsafe { p.to_sfen_c(b.as_mut_ptr()) };
        fnv(&b)
    }),
    ("inner_sfen_c", |p| {
        let mut b = [0xa5u8; 400];
        unsafe { p.inner().to_sfen_c(b.as_mut_ptr()) };
        fnv(&b)
    }),
    ("board", |p| fnv(&(1..=81).map(|s| p.piece_at(sq(s)).map_or(0, |x| x.as_u8())).collect::<Vec<_>>())),
    ("board_c", |p| fnv(&(1..=81).map(|s| opiece_u8(p.Position_piece_at(sq(s)))).collect::<Vec<_>>())),
    ("hands", |p| fnv(&[hand_counts(p.hand_of_a_player(Color::Black)), hand_counts(p.hand_of_a_player(Color::White))].concat())),
    ("hands_usi", |p| fnv([p.hand_of_a_player(Color::Black), p.hand_of_a_player(Color::White)].to_usi_owned().as_bytes())),
    ("hand", |p| fnv(&all_pieces().iter().map(|&x| p.hand(piece(x)).unwrap_or(0xee)).collect::<Vec<_>>())),
    ("side_ply", |p| p.side_to_move() as u64 * 65536 + p.ply() as u64),
    ("last", |p| p.last_move().map_or(0, |m| from_real(m).packed()) as u64 + 70000),
    ("last_compact", |p| cm_u16(p.last_compact_move()) as u64 + 140000),
    ("moves", |p| fnv(&p.moves().iter().flat_map(|&m| from_real(m).packed().to_le_bytes()).collect::<Vec<_>>())),
    ("moves_usi", |p| fnv(p.moves().iter().map(|m| m.to_usi_owned()).collect::<Vec<_>>().join(" ").as_bytes())),
    ("occupied", |p| fnv(&p.occupied_bitboard().to_u128().to_le_bytes())),
    ("vacant", |p| fnv(&p.vacant_bitboard().to_u128().to_le_bytes())),
    ("players", |p| fnv(&(p.player_bitboard(Color::Black).to_u128() ^ p.player_bitboard(Color::White).to_u128() << 30).to_le_bytes())),
    ("pieces", |p| fnv(&all_pieces().iter().flat_map(|&x| p.piece_bitboard(piece(x)).to_u128().to_le_bytes()).collect::<Vec<_>>())),
    ("kinds", |p| fnv(&(1..=14).flat_map(|k| p.inner().piece_kind_bitboard(kind(k)).to_u128().to_le_bytes()).collect::<Vec<_>>())),
    ("iterate", |p| p.occupied_bitboard().fold(7, |a, s| mix(a ^ s.index() as u64))),
    ("kings", |p| p.inner().king_position(Color::Black).map_or(0, |s| s.index() as u64) * 100 + p.inner().king_position(Color::White).map_or(0, |s| s.index() as u64)),
    ("initial", |p| {
        let mut v = vec![];
        everything(p.initial_position(), &mut v);
        fnv(&v)
    }),
    ("equal", |p| {
        let q = p.clone();
        (&q == p) as u64 * 2 + (q.cmp(p) == std::cmp::Ordering::Equal) as u64
    }),
];

/// A script: a record and small values, and what is done to them step by step.
pub struct Actor {
    seed: u64,
    r: Rng,
    m: M,
    rec: Position,
    set: Bitboard,
    hand: Hand,
    game: Game,
}

impl Actor {
    pub fn new(seed: u64) -> Actor {
        let mut r = Rng::new(seed, "actor", 0);
        let m = gen::position(&mut r);
        Actor { seed, rec: Position::arbitrary_position(build(&m)), m, r, set: Bitboard::empty(), hand: Hand::new(), game: Game::default() }
    }
    /// One step and a digest of everything it answers.
    pub fn step(&mut self) -> u64 {
        let r = &mut self.r;
        match r.below(8) {
            0 | 1 | 2 => {
                let mv = gen::attempt(r, &self.m, 85);
                let ok = if r.coin() { self.rec.make_move(to_real(mv)).is_some() } else { self.rec.make_compact_move(to_real(mv).into()) };
                self.m = observe(self.rec.inner());
                self.m.digest() ^ ok as u64
            }
            3 => {
                let (a, b) = (crate::g_bb::some_mask(r), bb(crate::g_bb::some_mask(r)));
                let d = r.below(10) as u8;
                self.set = match r.below(6) {
                    0 => self.set | bb(a),
                    1 => !self.set & b,
                    2 => unsafe { (self.set ^ b).shift_left(d) },
                    3 => unsafe { (self.set ^ b).shift_right(d) },
                    4 => unsafe { self.set.shift_up(d).or(b.shift_down(d)) },
                    _ => self.set.flip().swap_bytes().swap_bytes(),
                };
                let mut z = mask(self.set) as u64 ^ (mask(self.set) >> 64) as u64;
                for _ in 0..r.below(4) {
                    z = mix(z ^ self.set.pop().map_or(0, |s| s.index() as u64));
                }
                z
            }
            4 => {
                let k = kind(1 + r.below(14) as u8);
                let res = if r.pct(60) { self.hand.added(k) } else { self.hand.removed(k) };
                if let Some(h) = res {
                    self.hand = h;
                }
                fnv(&hand_counts(self.hand)) ^ res.is_some() as u64
            }
            5 => {
                let rs = [GameResolution::BlackWins, GameResolution::WhiteWins, GameResolution::Draw, GameResolution::Rematch, GameResolution::Aborted];
                if r.pct(80) {
                    self.game.resolve(r.pick(&rs));
                } else {
                    self.game.unresolve();
                }
                self.game.resolution().map_or(0, |x| x as u64) ^ fnv(self.game.position().to_sfen_owned().as_bytes())
            }
            6 => {
                let (_, q) = r.pick(&QUERIES);
                q(&self.rec)
            }
            _ => {
                let s = sq(1 + r.below(81) as u8);
                let (df, dr) = (r.below(19) as i8 - 9, r.below(19) as i8 - 9);
                let m = to_real(gen::any(r));
                mix(s.shift(df, dr).map_or(0, |x| x.index() as u64) ^ fnv(m.to_usi_owned().as_bytes()))
            }
        }
    }
    /// How the record, set, hand and game stand.
    pub fn state(&self) -> u64 {
        let mut v = vec![];
        everything_record(&self.rec, &mut v);
        v.extend_from_slice(&mask(self.set).to_le_bytes());
        v.extend_from_slice(&hand_counts(self.hand));
        v.push(self.game.resolution().map_or(0, |x| x as u8));
        for &m in self.rec.moves() {
            v.extend_from_slice(&from_real(m).packed().to_le_bytes());
        }
        fnv(&v) ^ self.seed
    }
}

/// What an actor does when nothing else is going on.
fn alone(seed: u64, steps: usize) -> (Vec<u64>, u64) {
    let mut a = Actor::new(seed);
    let v = (0..steps).map(|_| a.step()).collect();
    (v, a.state())
}

pub fn c24(cx: &mut Ctx, case: u64) -> R {
    match case % 4 {
        0 => one_thread(cx),
        1 => threads(cx),
        2 => shared(cx),
        _ => read_only(cx),
    }
}

/// Several scripts in one thread, interleaved at random.
fn one_thread(cx: &mut Ctx) -> R {
    let mut r = cx.rng.clone();
    let steps = if cx.tiny { 5 } else { 60 };
    let n = 2 + r.usize(5);
    // Some of them are the same script: they must not tell each other apart.
    let seeds: Vec<u64> = (0..n).map(|i| cx.case * 16 + if r.pct(25) { 0 } else { i as u64 }).collect();
    let want: Vec<_> = seeds.iter().map(|&s| alone(s, steps)).collect();
    let mut actors: Vec<Actor> = seeds.iter().map(|&s| Actor::new(s)).collect();
    let mut at = vec![0; n];
    let mut order = 0u64;
    while at.iter().any(|&x| x < steps) {
        let i = r.usize(n);
        if at[i] >= steps {
            continue;
        }
        let got = actors[i].step();
        ck!(got == want[i].0[at[i]], "interleaved", "script {} step {} answers differently when {} scripts are interleaved in one thread", seeds[i], at[i], n);
        at[i] += 1;
        order = mix(order ^ i as u64);
        cx.saw(mix(order ^ got));
    }
    for i in 0..n {
        ck!(actors[i].state() == want[i].1, "interleaved", "script {} ends elsewhere when {} scripts are interleaved in one thread", seeds[i], n);
    }
    // And once more alone: nothing is left behind.
    ck!(alone(seeds[0], steps) == want[0], "repeated", "script {} answers differently the second time", seeds[0]);
    cx.count("interleavings_in_one_thread", 1);
    cx.sample(|| format!("{n} scripts of {steps} steps interleaved in one thread"));
    Ok(())
}

/// Several scripts in threads of their own.
fn threads(cx: &mut Ctx) -> R {
    let mut r = cx.rng.clone();
    let steps = if cx.tiny { 3 } else { 250 };
    let n = if cx.tiny { 2 } else { 8 };
    let seeds: Vec<u64> = (0..n).map(|i| cx.case * 16 + if r.pct(25) { 0 } else { i as u64 }).collect();
    let want: Vec<_> = seeds.iter().map(|&s| alone(s, steps)).collect();
    let clock = Arc::new(AtomicU64::new(0));
    let bar = Arc::new(Barrier::new(n));
    let outs: Vec<(Vec<u64>, u64, Vec<u64>)> = std::thread::scope(|sc| {
        let hs: Vec<_> = seeds
            .iter()
            .enumerate()
            .map(|(i, &seed)| {
                let (clock, bar) = (clock.clone(), bar.clone());
                let salt = r.next();
                sc.spawn(move || {
                    let mut a = Actor::new(seed);
                    let mut d = Rng::new(salt, "delay", i as u64);
                    let mut stamps = Vec::with_capacity(steps);
                    bar.wait();
                    let v = (0..steps)
                        .map(|_| {
                            // Delays, so that the threads meet at different points.
                            match d.below(12) {
                                0 => std::thread::yield_now(),
                                1 => (0..d.below(300)).for_each(|_| std::hint::spin_loop()),
                                _ => {}
                            }
                            stamps.push(clock.fetch_add(1, Ordering::Relaxed));
                            a.step()
                        })
                        .collect::<Vec<_>>();
                    (v, a.state(), stamps)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().map_err(|_| ())).collect::<Result<Vec<_>, _>>()
    })
    .map_err(|_| fail("thread_panic", "a script panicked in a thread and not alone".into()))?;
    let mut at: Vec<(u64, usize)> = vec![];
    for (i, (v, s, st)) in outs.iter().enumerate() {
        if let Some(j) = (0..steps).find(|&j| v[j] != want[i].0[j]) {
            return Err(fail("threads", format!("script {} step {} answers differently when {} threads run scripts", seeds[i], j, n)));
        }
        ck!(*s == want[i].1, "threads", "script {} ends elsewhere when {} threads run scripts", seeds[i], n);
        at.extend(st.iter().map(|&t| (t, i)));
    }
    // The interleaving that was observed.
    at.sort_unstable();
    let mut h = 0;
    let mut switches = 0;
    for k in 1..at.len() {
        if at[k].1 != at[k - 1].1 {
            switches += 1;
        }
        h = mix(h ^ at[k].1 as u64);
    }
    cx.count("thread_switches_observed", switches);
    cx.count("runs_in_threads", 1);
    cx.evals += (n * steps) as u64;
    cx.saw(h);
    cx.sample(|| format!("{n} threads, {steps} steps each, {switches} switches observed"));
    Ok(())
}

/// One value, asked by several threads at once, in any order, over and over.
fn shared(cx: &mut Ctx) -> R {
    let mut r = cx.rng.clone();
    let mut m = gen::position(&mut r);
    let mut rec = Position::arbitrary_position(build(&m));
    for _ in 0..r.below(if cx.tiny { 3 } else { 60 }) {
        let mv = gen::attempt(&mut r, &m, 95);
        let _ = rec.make_move(to_real(mv));
        m = observe(rec.inner());
    }
    let want: Vec<u64> = QUERIES.iter().map(|q| q.1(&rec)).collect();
    // In one thread, in any order, with repetitions.
    for _ in 0..if cx.tiny { 5 } else { 60 } {
        let i = r.usize(QUERIES.len());
        ck!(QUERIES[i].1(&rec) == want[i], "order", "`{}`: {} answers differently when asked in another order", rec.to_sfen_owned(), QUERIES[i].0);
    }
    let n = if cx.tiny { 2 } else { 8 };
    let rounds = if cx.tiny { 4 } else { 150 };
    let bar = Barrier::new(n);
    let bad = AtomicU64::new(u64::MAX);
    let stop = AtomicBool::new(false);
    let (rec, want) = (&rec, &want);
    std::thread::scope(|sc| {
        for i in 0..n {
            let salt = r.next();
            let (bar, bad, stop) = (&bar, &bad, &stop);
            sc.spawn(move || {
                let mut d = Rng::new(salt, "shared", i as u64);
                bar.wait();
                for _ in 0..rounds {
                    let q = d.usize(QUERIES.len());
                    if QUERIES[q].1(rec) != want[q] {
                        bad.store(q as u64, Ordering::SeqCst);
                        stop.store(true, Ordering::SeqCst);
                    }
                    if stop.load(Ordering::SeqCst) {
                        break;
                    }
                }
            });
        }
    });
    let b = bad.load(Ordering::SeqCst);
    ck!(b == u64::MAX, "shared", "`{}`: {} answers differently when {} threads ask", rec.to_sfen_owned(), QUERIES[b as usize].0, n);
    cx.evals += (n * rounds) as u64;
    cx.count("shared_queries", (n * rounds) as u64);
    cx.saw(m.digest());
    cx.sample(|| format!("{n} threads, {rounds} queries each, of `{}`", rec.to_sfen_owned()));
    Ok(())
}

/// Queries on a value that lies in memory nobody may write to.
#[cfg(not(miri))]
fn read_only(cx: &mut Ctx) -> R {
    let mut r = cx.rng.clone();
    let g = Guarded::new(4);
    let mut m = gen::position(&mut r);
    let mut rec = Position::arbitrary_position(build(&m));
    for _ in 0..r.below(20) {
        let mv = gen::attempt(&mut r, &m, 95);
        let _ = rec.make_move(to_real(mv));
        m = observe(rec.inner());
    }
    let want: Vec<u64> = QUERIES.iter().map(|q| q.1(&rec)).collect();
    let size = std::mem::size_of::<Position>();
    let end = unsafe { g.end().sub(size) } as usize & !(std::mem::align_of::<Position>() - 1);
    let p = end as *mut Position;
    let mut game = Game::default();
    game.resolve(GameResolution::Draw);
    let gp = g.start() as *mut Game;
    unsafe {
        std::ptr::copy_nonoverlapping(&rec, p, 1);
        std::ptr::copy_nonoverlapping(&game, gp, 1);
    }
    g.writable(false);
    // A write faults, and a fault is a violation.
    let res = (|| -> R {
        let q = unsafe { &*p };
        for (i, x) in QUERIES.iter().enumerate() {
            ck!(x.1(q) == want[i], "read_only", "`{}`: {} answers differently from read-only memory", rec.to_sfen_owned(), x.0);
        }
        let mut v = vec![];
        everything_record(q, &mut v);
        everything(q.inner(), &mut v);
        let g = unsafe { &*gp };
        ck!(g.resolution() == Some(GameResolution::Draw), "read_only", "a game's result differs from read-only memory");
        ck!(observe(g.position().inner()) == M::start(), "read_only", "a game's position differs from read-only memory");
        let s = q.occupied_bitboard();
        let it = s;
        ck!(it.count() == s.clone().into_iter().collect::<Vec<_>>().len() as u8, "read_only", "a copied set differs");
        Ok(())
    })();
    g.writable(true);
    res?;
    cx.count("read_only_positions", 1);
    cx.evals += QUERIES.len() as u64;
    cx.saw(m.digest());
    cx.sample(|| format!("all queries of `{}` in read-only memory", rec.to_sfen_owned()));
    Ok(())
}
#[cfg(miri)]
fn read_only(cx: &mut Ctx) -> R {
    shared(cx)
}
