//! Generators: positions (real ones, standard sets, wild ones) and moves (sensible and weird).

use crate::model::*;
use crate::rng::Rng;

pub fn ply(r: &mut Rng) -> u16 {
    match r.below(6) {
        0 => 1,
        1 => r.pick(&[
            2, 3, 8, 9, 10, 11, 19, 20, 99, 100, 101, 109, 110, 255, 256, 257, 511, 512, 999, 1000, 1001, 1009,
            1010, 1024, 4095, 4096, 9999, 10000, 10001, 10010, 10100, 11000, 32767, 32768, 32769, 60000,
        ]),
        2 => 65535 - r.below(4) as u16,
        3 => 1 + r.below(300) as u16,
        4 => r.pick(&[10u16, 100, 1000, 10000]).wrapping_mul(1 + r.below(6) as u16).max(1),
        _ => 1 + r.below(65535) as u16,
    }
}

pub fn hand_count(r: &mut Rng) -> u8 {
    match r.below(5) {
        0 => 0,
        1 => 1 + r.below(3) as u8,
        2 => r.pick(&[
            7, 8, 9, 10, 11, 12, 17, 18, 19, 20, 21, 90, 98, 99, 100, 101, 105, 109, 110, 111, 120, 127, 128, 129,
            190, 199, 200, 201, 250, 254, 255,
        ]),
        3 => 255 - r.below(3) as u8,
        _ => r.next() as u8,
    }
}

/// One standard set of pieces, distributed at random over board and hands.
pub fn standard(r: &mut Rng) -> M {
    let mut m = M::empty();
    let mut free: Vec<u8> = (1..=81).collect();
    r.shuffle(&mut free);
    let hand_pct = r.pick(&[0, 5, 20, 50, 90, 100]);
    let promo_pct = r.pick(&[0, 10, 50, 90, 100]);
    let white_pct = r.pick(&[0, 20, 50, 50, 80, 100]);
    let kings = r.pick(&[3, 3, 3, 3, 3, 3, 3, 2, 1, 0]);
    for c in 0..2u8 {
        if kings >> c & 1 != 0 {
            m.set(free.pop().unwrap(), 8 + 16 * c);
        }
    }
    for (k, n) in [(1, 18), (2, 4), (3, 4), (4, 4), (5, 4), (6, 2), (7, 2u8)] {
        for _ in 0..n {
            let c = r.pct(white_pct) as u8;
            if r.pct(hand_pct) {
                m.hands[c as usize][k as usize - 1] += 1;
            } else {
                let k2 = if r.pct(promo_pct) { promoted(k).unwrap_or(k) } else { k };
                m.set(free.pop().unwrap(), k2 + 16 * c);
            }
        }
    }
    m.side = 1 + r.below(2) as u8;
    m.ply = ply(r);
    m
}

/// Anything that can be set up at all.
pub fn wild(r: &mut Rng) -> M {
    let mut m = M::empty();
    let density = r.pick(&[0, 3, 15, 40, 70, 95, 100]);
    let pieces = all_pieces();
    let only: Vec<u8> = match r.below(5) {
        0 => (0..1 + r.usize(3)).map(|_| r.pick(&pieces)).collect(),
        1 => vec![8, 24, 1, 17],
        2 => pieces.iter().copied().filter(|p| p & 15 > 8).collect(),
        _ => pieces,
    };
    for s in 1..=81 {
        if r.pct(density) {
            m.set(s, r.pick(&only));
        }
    }
    if r.pct(70) {
        for c in 0..2 {
            for k in 0..7 {
                m.hands[c][k] = hand_count(r);
            }
        }
    } else if r.coin() {
        m.hands[r.usize(2)][r.usize(7)] = hand_count(r);
    }
    m.side = 1 + r.below(2) as u8;
    m.ply = ply(r);
    m
}

/// Few pieces, with kings.
pub fn sparse(r: &mut Rng) -> M {
    let mut m = M::empty();
    let mut free: Vec<u8> = (1..=81).collect();
    r.shuffle(&mut free);
    m.set(free.pop().unwrap(), 8);
    m.set(free.pop().unwrap(), 24);
    for _ in 0..r.below(6) {
        m.set(free.pop().unwrap(), r.pick(&all_pieces()));
    }
    for _ in 0..r.below(4) {
        m.hands[r.usize(2)][r.usize(7)] += 1;
    }
    m.side = 1 + r.below(2) as u8;
    m.ply = ply(r);
    m
}

pub fn position(r: &mut Rng) -> M {
    match r.below(8) {
        0 | 1 => M::start(),
        2 | 3 => standard(r),
        4 => sparse(r),
        _ => wild(r),
    }
}

fn own(m: &M, side: u8) -> Vec<u8> {
    (1..=81).filter(|&s| m.at(s) != 0 && side_of(m.at(s)) == side).collect()
}

/// A move that makes sense, if one is found.
pub fn sensible(r: &mut Rng, m: &M) -> Option<Mv> {
    let c = m.side as usize - 1;
    for _ in 0..8 {
        if r.pct(25) {
            let ks: Vec<u8> = (1..=7).filter(|&k| m.hands[c][k as usize - 1] > 0).collect();
            let vac: Vec<u8> = (1..=81).filter(|&s| m.at(s) == 0).collect();
            if !ks.is_empty() && !vac.is_empty() {
                return Some(Mv::D { piece: r.pick(&ks) + 16 * c as u8, to: r.pick(&vac) });
            }
        }
        let mine = own(m, m.side);
        if mine.is_empty() {
            continue;
        }
        // Kings move more often than their share.
        let kings: Vec<u8> = mine.iter().copied().filter(|&s| m.at(s) & 15 == 8).collect();
        let from = if !kings.is_empty() && r.pct(10) { r.pick(&kings) } else { r.pick(&mine) };
        let capture = r.pct(40);
        let tos: Vec<u8> = (1..=81)
            .filter(|&s| {
                let t = m.at(s);
                if capture {
                    t != 0 && side_of(t) != m.side && t & 15 != 8
                } else {
                    t == 0
                }
            })
            .collect();
        if tos.is_empty() {
            continue;
        }
        let promote = promoted(m.at(from) & 15).is_some() && r.pct(30);
        return Some(Mv::N { from, to: r.pick(&tos), promote });
    }
    None
}

pub fn any(r: &mut Rng) -> Mv {
    if r.pct(70) {
        Mv::N { from: 1 + r.below(81) as u8, to: 1 + r.below(81) as u8, promote: r.coin() }
    } else {
        Mv::D { piece: r.pick(&all_pieces()), to: 1 + r.below(81) as u8 }
    }
}

/// Moves aimed at every reason for refusal (some are accepted all the same).
pub fn weird(r: &mut Rng, m: &M) -> Mv {
    let c = m.side;
    let mine = own(m, c);
    let theirs = own(m, 3 - c);
    let vac: Vec<u8> = (1..=81).filter(|&s| m.at(s) == 0).collect();
    let pick = |r: &mut Rng, v: &[u8]| if v.is_empty() { 1 + r.below(81) as u8 } else { r.pick(v) };
    let promote = r.coin();
    let coin = r.coin();
    match r.below(14) {
        0 => Mv::N { from: pick(r, &mine), to: pick(r, &mine), promote },
        1 => {
            let s = pick(r, &mine);
            Mv::N { from: s, to: s, promote }
        }
        2 => Mv::N { from: pick(r, &vac), to: 1 + r.below(81) as u8, promote },
        3 => Mv::N { from: pick(r, &theirs), to: 1 + r.below(81) as u8, promote },
        4 => {
            let k: Vec<u8> = theirs.iter().copied().filter(|&s| m.at(s) & 15 == 8).collect();
            Mv::N { from: pick(r, &mine), to: pick(r, &k), promote }
        }
        5 => {
            let g: Vec<u8> = mine.iter().copied().filter(|&s| promoted(m.at(s) & 15).is_none()).collect();
            Mv::N { from: pick(r, &g), to: pick(r, if coin { &vac } else { &theirs }), promote: true }
        }
        6 => Mv::D { piece: 1 + r.below(7) as u8 + 16 * (c - 1), to: pick(r, if coin { &mine } else { &theirs }) },
        7 => {
            let z: Vec<u8> = (1..=7).filter(|&k| m.hands[c as usize - 1][k as usize - 1] == 0).collect();
            Mv::D { piece: if z.is_empty() { 8 } else { r.pick(&z) } + 16 * (c - 1), to: pick(r, &vac) }
        }
        8 => Mv::D { piece: 1 + r.below(7) as u8 + 16 * (2 - c), to: pick(r, &vac) },
        9 => Mv::D { piece: 8 + r.below(7) as u8 + 16 * (c - 1), to: pick(r, &vac) },
        10 => m.last.unwrap_or_else(|| any(r)),
        11 => match m.last {
            Some(Mv::N { from, to, promote }) => Mv::N { from: to, to: from, promote },
            Some(Mv::D { to, .. }) => Mv::N { from: to, to: 1 + r.below(81) as u8, promote },
            None => any(r),
        },
        12 => Mv::N { from: pick(r, &mine), to: pick(r, &theirs), promote },
        _ => any(r),
    }
}

/// The next attempted move of a game: sensible with probability `pct`.
pub fn attempt(r: &mut Rng, m: &M, pct: u64) -> Mv {
    if r.pct(pct) {
        if let Some(mv) = sensible(r, m) {
            return mv;
        }
    }
    weird(r, m)
}

/// What a game is made of: in most games, attempts one after the other; in some, tours, in which
/// each side walks out for some moves, back home, and out again the same way, over and over.
pub struct Player {
    len: usize,
    out: [Vec<Mv>; 2],
    at: [usize; 2],
}

impl Player {
    pub fn new(r: &mut Rng) -> Player {
        let len = if r.pct(20) { 1 + r.usize(6) } else { 0 };
        Player { len, out: [vec![], vec![]], at: [0, 0] }
    }

    pub fn next(&mut self, r: &mut Rng, m: &M, pct: u64) -> Mv {
        let c = m.side as usize - 1;
        // Rarely something else comes between.
        if self.len == 0 || r.below(150) == 0 {
            return attempt(r, m, pct);
        }
        let quiet = |m: &M, mv: Mv| match mv {
            Mv::N { from, to, promote: false } => m.at(from) != 0 && side_of(m.at(from)) == m.side && m.at(to) == 0,
            _ => false,
        };
        let n = self.len;
        if self.out[c].len() < n {
            for _ in 0..20 {
                match sensible(r, m) {
                    Some(mv) if quiet(m, mv) => {
                        self.out[c].push(mv);
                        self.at[c] = self.out[c].len();
                        return mv;
                    }
                    _ => {}
                }
            }
            return attempt(r, m, pct);
        }
        let t = self.at[c] % (2 * n);
        let mv = if t < n {
            self.out[c][t]
        } else {
            match self.out[c][2 * n - 1 - t] {
                Mv::N { from, to, promote } => Mv::N { from: to, to: from, promote },
                d => d,
            }
        };
        if quiet(m, mv) {
            self.at[c] += 1;
            return mv;
        }
        self.out[c].clear();
        self.at[c] = 0;
        attempt(r, m, pct)
    }
}
