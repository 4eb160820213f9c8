//! Everything there is, one level deep: every move by its own parts (piece, squares, what stands on
//! the target, promotion, count in the hand, ply), every rank, hand and ply as text, every
//! difference of one component, every pair of counts. The case number says which part.

use crate::ck;
use crate::ctx::{Ctx, R};
use crate::g_bb::{hex, is_set, ALL};
use crate::g_cmp::pair;
use crate::gen;
use crate::model::*;
use crate::obs::*;
use crate::rng::Rng;
use shogi_core::*;

#[derive(Clone, Copy, PartialEq, Eq)]
enum J {
    C01,
    C02,
    C03,
    C04,
}

const MOVES: u64 = 28 * 81;
const DROPS: u64 = 56;
const PLIES: u64 = 64;
const TAKES: u64 = 26;
/// One object each, through very many steps.
const LONG: u64 = 4;
/// How many cases there are.
pub const LOCAL_MOVES: u64 = MOVES + DROPS + PLIES + TAKES + LONG;

fn contents() -> Vec<u8> {
    let mut v = vec![0];
    v.extend(all_pieces());
    v
}

/// A background that varies with the case.
fn ground(r: &mut Rng) -> M {
    let mut m = gen::position(r);
    for c in 0..2 {
        for k in 0..7 {
            m.hands[c][k] = m.hands[c][k].min(200);
        }
    }
    if r.pct(30) {
        m = M::empty();
        m.ply = gen::ply(r);
    }
    m
}

/// The same as a position, which may have a last move (set by making it, then changed by edits).
fn set_up(r: &mut Rng, m: &mut M) -> PartialPosition {
    let want = m.clone();
    if r.coin() {
        let mut g = gen::position(r);
        g.side = 1 + r.below(2) as u8;
        let mut p = build(&g);
        for _ in 0..1 + r.below(2) {
            if let Some(mv) = gen::sensible(r, &g) {
                if play(&mut p, mv, r.coin()) {
                    g.apply(mv);
                }
            }
        }
        for s in 1..=81 {
            if g.at(s) != want.at(s) {
                p.piece_set(sq(s), opiece(want.at(s)));
            }
        }
        for c in 1..=2u8 {
            *p.hand_of_a_player_mut(color(c)) = hand(&want.hands[c as usize - 1]);
        }
        p.side_to_move_set(color(want.side));
        if p.ply_set(want.ply) {
            m.last = g.last;
            return p;
        }
    }
    m.last = None;
    build(m)
}

fn play(p: &mut PartialPosition, mv: Mv, packed: bool) -> bool {
    let r = to_real(mv);
    if packed {
        p.make_compact_move(pack(r))
    } else {
        p.make_move(r).is_some()
    }
}

/// What is read of a position when a refused move may not have changed it.
fn brief(p: &PartialPosition, squares: &[u8], out: &mut Vec<u64>) {
    out.clear();
    for &s in squares {
        out.push(p.piece_at(sq(s)).map_or(0, |x| x.as_u8()) as u64);
    }
    for c in [Color::Black, Color::White] {
        let h = p.hand_of_a_player(c);
        for k in 1..=7 {
            out.push(h.count(kind(k)).map_or(999, |n| n as u64));
        }
        out.push(p.king_position(c).map_or(0, |s| s.index()) as u64);
        let b = p.player_bitboard(c).to_u128();
        out.extend([b as u64, (b >> 64) as u64]);
    }
    for k in 1..=14 {
        let b = p.piece_kind_bitboard(kind(k)).to_u128();
        out.extend([b as u64, (b >> 64) as u64]);
    }
    out.push(p.side_to_move() as u64);
    out.push(p.ply() as u64);
    out.push(p.last_move().map_or(0, |m| from_real(m).packed()) as u64);
}

/// Whether the sets agree with the squares, at full speed; when they seem not to, `g_pos::views` decides.
fn views_fast(p: &PartialPosition) -> R {
    // By the library's packing of single squares, which may be any; `views` asks square by square.
    static REP: std::sync::OnceLock<[u128; 82]> = std::sync::OnceLock::new();
    let rep = REP.get_or_init(|| {
        let mut v = [0; 82];
        for s in 1..=81 {
            v[s as usize] = Bitboard::single(sq(s)).to_u128();
        }
        v
    });
    let mut by = [0u128; 32];
    for s in 1..=81 {
        let x = p.piece_at(sq(s)).map_or(0, |x| x.as_u8());
        by[x as usize] |= rep[s as usize];
    }
    let black: u128 = by[1..=14].iter().fold(0, |a, b| a | b);
    let white: u128 = by[17..=30].iter().fold(0, |a, b| a | b);
    let mut ok = p.occupied_bitboard().to_u128() == black | white
        && p.vacant_bitboard().to_u128() == by[0]
        && p.player_bitboard(Color::Black).to_u128() == black
        && p.player_bitboard(Color::White).to_u128() == white;
    for k in 1..=14usize {
        ok &= p.piece_kind_bitboard(kind(k as u8)).to_u128() == by[k] | by[k + 16];
        for x in [k, k + 16] {
            ok &= p.piece_bitboard(piece(x as u8)).to_u128() == by[x];
        }
    }
    for (c, x) in [(Color::Black, 8), (Color::White, 24)] {
        ok &= match p.king_position(c) {
            None => by[x] == 0,
            Some(s) => by[x] & rep[s.index() as usize] != 0,
        };
    }
    if ok {
        Ok(())
    } else {
        crate::g_pos::views(p)
    }
}

struct Judged {
    j: J,
    buf: Vec<u64>,
    ok: u64,
    no: u64,
}

impl Judged {
    /// One attempt of `mv` in `p`, which is as `m` says.
    fn one(&mut self, p: &PartialPosition, m: &M, mv: Mv, packed: bool, before: &[u64]) -> R {
        let want = m.sensible(mv);
        match self.j {
            J::C01 => {}
            J::C02 => {
                if want {
                    return Ok(());
                }
            }
            J::C03 | J::C04 => {
                if !want {
                    return Ok(());
                }
            }
        }
        let mut q = p.clone();
        let got = play(&mut q, mv, packed);
        if got {
            self.ok += 1;
        } else {
            self.no += 1;
        }
        let squares: [u8; 2] = match mv {
            Mv::N { from, to, .. } => [from, to],
            Mv::D { to, .. } => [to, to],
        };
        match self.j {
            J::C01 => {
                ck!(got == want, "acceptance", "{} in `{}`: {} but should be {}", mv.usi(), m.sfen(), if got { "accepted" } else { "refused" }, if want { "accepted" } else { "refused" });
                if got {
                    let mut n = m.clone();
                    n.apply(mv);
                    let o = observe(&q);
                    ck!(o == n, "effect", "{} ({:?}) in `{}`: leads to `{}` (last {:?}), should to `{}` (last {:?})", mv.usi(), mv, m.sfen(), o.sfen(), o.last, n.sfen(), n.last);
                }
            }
            J::C02 => {
                if got {
                    // C01's.
                    return Ok(());
                }
                brief(&q, &squares, &mut self.buf);
                ck!(self.buf == before, "bare_changed", "refused {} ({:?}) changed `{}` to `{}` (or one of its views)", mv.usi(), mv, m.sfen(), q.to_sfen_owned());
                ck!(&q == p, "bare_copy_differs", "after refused {} in `{}` the position differs from the copy taken before", mv.usi(), m.sfen());
            }
            J::C03 => {
                if got {
                    views_fast(&q)?;
                }
            }
            J::C04 => {
                if got {
                    let o = observe(&q);
                    let (a, b) = (crate::g_pos::totals(m), crate::g_pos::totals(&o));
                    ck!(a == b, "total", "{} in `{}` changes the number of pieces from {:?} to {:?} (`{}`)", mv.usi(), m.sfen(), &a[1..], &b[1..], o.sfen());
                    for s in 1..=81 {
                        let (x, y) = (m.at(s), o.at(s));
                        ck!(x == y || y == 0 || side_of(y) == m.side, "owner", "{} in `{}`: a piece came to the side not moving", mv.usi(), m.sfen());
                    }
                    let c = 2 - m.side as usize;
                    ck!(m.hands[c] == o.hands[c], "hand", "{} in `{}`: the hand of the side not moving changed", mv.usi(), m.sfen());
                }
            }
        }
        Ok(())
    }
}

/// What a position is does not depend on how much it has been through.
fn long(cx: &mut Ctx, j: J) -> R {
    let mut r = cx.rng.clone();
    let mut m = ground(&mut r);
    let mut p = build(&m);
    if observe(&p) != m {
        return Ok(());
    }
    let n = if cx.tiny { 20 } else { 70_000 };
    cx.sample(|| format!("{n} steps of one position, from `{}`", m.sfen()));
    let (mut before, mut after) = (vec![], vec![]);
    let pct = if j == J::C02 { 10 } else { r.pick(&[100, 90]) };
    let edits = j == J::C03 && r.pct(75);
    let mut total = crate::g_pos::totals(&m);
    for i in 0..n {
        if edits && r.pct(70) || r.below(3000) == 0 {
            let (s, x) = (1 + r.below(81) as u8, if r.coin() { 0 } else { r.pick(&all_pieces()) });
            p.piece_set(sq(s), opiece(x));
            m.set(s, x);
            if j == J::C03 {
                views_fast(&p)?;
            } else if observe(&p) != m {
                return Ok(());
            }
            total = crate::g_pos::totals(&m);
            continue;
        }
        let mv = gen::attempt(&mut r, &m, pct);
        let want = m.sensible(mv);
        let sqs = match mv {
            Mv::N { from, to, .. } => [from, to],
            Mv::D { to, .. } => [to, to],
        };
        if j == J::C02 {
            brief(&p, &sqs, &mut before);
        }
        let here = m.clone();
        let got = play(&mut p, mv, i & 1 == 1);
        match j {
            J::C01 => ck!(got == want, "acceptance", "step {i}: {} in `{}`: {}", mv.usi(), m.sfen(), if got { "accepted" } else { "refused" }),
            J::C02 => {
                if !got {
                    brief(&p, &sqs, &mut after);
                    ck!(before == after, "bare_changed", "step {i}: refused {} changed `{}` to `{}` (or one of its views)", mv.usi(), m.sfen(), p.to_sfen_owned());
                    cx.count("refused", 1);
                    continue;
                }
            }
            J::C03 => views_fast(&p)?,
            J::C04 => {}
        }
        m.apply(mv);
        let o = observe(&p);
        match j {
            J::C01 => ck!(o == m, "effect", "step {i}: {} in `{}` leads to `{}`, should to `{}`", mv.usi(), here.sfen(), o.sfen(), m.sfen()),
            J::C04 => {
                // No hand may pass 255 of a kind, which it does not from 200 and 81 squares' worth of pieces refilled.
                let t = crate::g_pos::totals(&o);
                ck!(!got || t == total || here.hands.iter().flatten().any(|&n| n == 255), "total", "step {i}: {} in `{}` changes the number of pieces from {:?} to {:?}", mv.usi(), here.sfen(), &total[1..], &t[1..]);
                total = t;
                m = o;
            }
            _ => m = o,
        }
        cx.count("accepted", got as u64);
    }
    cx.evals += n;
    cx.saw(m.digest());
    Ok(())
}

fn local(cx: &mut Ctx, case: u64, j: J) -> R {
    let case = case % LOCAL_MOVES;
    if case >= LOCAL_MOVES - LONG {
        return long(cx, j);
    }
    let mut r = cx.rng.clone();
    let pieces = all_pieces();
    let mut m = ground(&mut r);
    let mut d = Judged { j, buf: vec![], ok: 0, no: 0 };
    let mut before: Vec<u64> = vec![];
    let flip = r.coin();
    if case < MOVES {
        let x = pieces[(case / 81) as usize];
        let from = (case % 81) as u8 + 1;
        m.set(from, x);
        m.side = side_of(x);
        if j == J::C01 || j == J::C02 {
            // Now and then it is the other's turn.
            if r.pct(15) {
                m.side = 3 - m.side;
            }
        }
        let mut p = set_up(&mut r, &mut m);
        if observe(&p) != m {
            // Set-up is other properties' business.
            return Ok(());
        }
        cx.sample(|| format!("every move of {} from {} by target, what stands there and promotion, in `{}`", x, sq_usi(from), m.sfen()));
        for to in 1..=81u8 {
            let old = m.at(to);
            if cx.tiny && to % 27 != 1 {
                continue;
            }
            for t in contents() {
                if to == from && t != x {
                    continue;
                }
                m.set(to, t);
                p.piece_set(sq(to), opiece(t));
                if p.piece_at(sq(to)) != opiece(t) {
                    return Ok(());
                }
                if j == J::C02 {
                    brief(&p, &[from, to], &mut before);
                }
                for promote in [false, true] {
                    d.one(&p, &m, Mv::N { from, to, promote }, flip ^ ((to ^ t) & 1 != 0) ^ promote, &before)?;
                }
            }
            m.set(to, old);
            p.piece_set(sq(to), opiece(old));
        }
    } else if case < MOVES + DROPS {
        let i = case - MOVES;
        let x = pieces[(i / 2) as usize];
        m.side = 1 + (i % 2) as u8;
        let k = x & 15;
        let c = side_of(x) as usize - 1;
        cx.sample(|| format!("every drop of {} by target, what stands there and count, in `{}`", x, m.sfen()));
        let counts: &[u8] = if k <= 7 { &[0, 1, 2, 18, 127, 128, 255] } else { &[0] };
        for &n in counts {
            if k <= 7 {
                m.hands[c][k as usize - 1] = n;
            }
            let mut p = set_up(&mut r, &mut m);
            if observe(&p) != m {
                return Ok(());
            }
            for to in 1..=81u8 {
                let old = m.at(to);
                if cx.tiny && to % 27 != 1 {
                    continue;
                }
                for t in contents() {
                    m.set(to, t);
                    p.piece_set(sq(to), opiece(t));
                    if p.piece_at(sq(to)) != opiece(t) {
                        return Ok(());
                    }
                    if j == J::C02 {
                        brief(&p, &[to, to], &mut before);
                    }
                    d.one(&p, &m, Mv::D { piece: x, to }, flip ^ (to & 1 != 0), &before)?;
                }
                m.set(to, old);
                p.piece_set(sq(to), opiece(old));
            }
        }
    } else if case < MOVES + DROPS + PLIES {
        // Every ply; two moves from each, of which the second sees the end of the range, too.
        let i = case - MOVES - DROPS;
        let mut p = set_up(&mut r, &mut m);
        let mut n = 0;
        cx.sample(|| format!("plies {} to {} in `{}`", i * 1024, i * 1024 + 1023, m.sfen()));
        for ply in i * 1024..i * 1024 + 1024 {
            if ply == 0 || cx.tiny && ply % 256 != 0 {
                continue;
            }
            m.ply = ply as u16;
            if !p.ply_set(m.ply) {
                return Ok(());
            }
            let mv = if j == J::C02 { gen::weird(&mut r, &m) } else { gen::attempt(&mut r, &m, 100) };
            if j == J::C02 {
                let sqs = match mv {
                    Mv::N { from, to, .. } => [from, to],
                    Mv::D { to, .. } => [to, to],
                };
                brief(&p, &sqs, &mut before);
            }
            d.one(&p, &m, mv, flip ^ (ply & 1 != 0), &before)?;
            n += 1;
        }
        cx.count("plies", n);
    } else {
        // Every count in the hand that a capture adds to.
        let takes: Vec<u8> = pieces.iter().copied().filter(|x| x & 15 != 8).collect();
        let t = takes[(case - MOVES - DROPS - PLIES) as usize];
        let k = unpromoted(t & 15).unwrap_or(t & 15);
        m.side = 3 - side_of(t);
        let from = 1 + r.below(81) as u8;
        let to = 1 + (from + r.below(79) as u8) % 81;
        let mine: Vec<u8> = pieces.iter().copied().filter(|x| side_of(*x) == m.side).collect();
        m.set(from, r.pick(&mine));
        m.set(to, t);
        cx.sample(|| format!("captures of {} by every count in the hand, in `{}`", t, m.sfen()));
        for n in 0..=255u8 {
            if n == 255 && j == J::C04 {
                continue;
            }
            m.hands[m.side as usize - 1][k as usize - 1] = n;
            let p = set_up(&mut r, &mut m);
            if from == to || observe(&p) != m {
                return Ok(());
            }
            if j == J::C02 {
                brief(&p, &[from, to], &mut before);
            }
            for promote in [false, true] {
                d.one(&p, &m, Mv::N { from, to, promote }, flip ^ (n & 1 != 0), &before)?;
            }
        }
    }
    cx.evals += d.ok + d.no;
    cx.count("accepted", d.ok);
    cx.count("refused", d.no);
    cx.saw(m.digest() ^ case);
    Ok(())
}

pub fn c01(cx: &mut Ctx, case: u64) -> R {
    local(cx, case, J::C01)
}
pub fn c02(cx: &mut Ctx, case: u64) -> R {
    local(cx, case, J::C02)
}
pub fn c03(cx: &mut Ctx, case: u64) -> R {
    local(cx, case, J::C03)
}
pub fn c04(cx: &mut Ctx, case: u64) -> R {
    local(cx, case, J::C04)
}

// ---------------------------------------------------------------------------------------- C06

/// Cases: 64 of plies, 81 of ranks, 28 of single pieces, 28 of hands, 8 of hands held or not.
pub const LOCAL_TEXT: u64 = 64 + 81 + 28 + 28 + 8;

pub fn c06(cx: &mut Ctx, case: u64) -> R {
    let case = case % LOCAL_TEXT;
    let mut r = cx.rng.clone();
    let mut m = gen::position(&mut r);
    let mut s = String::new();
    let mut n = 0u64;
    let mut check = |p: &PartialPosition, m: &M| -> R {
        s.clear();
        let ok = p.to_sfen(&mut s).is_ok();
        let want = m.sfen();
        ck!(ok && s == want, "sfen", "to_sfen writes `{}`, should write `{}`", s, want);
        n += 1;
        Ok(())
    };
    if case < 64 {
        let mut p = build(&m);
        for ply in case * 1024..case * 1024 + 1024 {
            if cx.tiny && ply % 200 != 0 {
                continue;
            }
            m.ply = ply as u16;
            if ply == 0 {
                // Only a move leads there.
                let mut q = m.clone();
                q.ply = 65535;
                let mut p = build(&q);
                if let Some(mv) = gen::sensible(&mut r, &q) {
                    if play(&mut p, mv, false) {
                        q.apply(mv);
                        check(&p, &q)?;
                    }
                }
                continue;
            }
            if !p.ply_set(m.ply) {
                continue;
            }
            check(&p, &m)?;
        }
    } else if case < 64 + 81 {
        // A rank, by what is on three thirds of it.
        let (rank, part) = ((case - 64) / 9 + 1, (case - 64) % 9);
        if r.coin() {
            m = M::empty();
        }
        let kinds = [0, r.pick(&[1u8, 2, 3, 4, 5, 6, 7, 8]) + 16 * r.below(2) as u8, r.pick(&[9u8, 10, 11, 12, 13, 14]) + 16 * r.below(2) as u8];
        let mut p = build(&m);
        for i in 0..2187u64 {
            if cx.tiny && i % 400 != 0 {
                continue;
            }
            let mut v = part * 2187 + i;
            for f in 1..=9u8 {
                let x = kinds[(v % 3) as usize];
                v /= 3;
                let s = sq_of(f, rank as u8);
                if m.at(s) != x || i == 0 {
                    m.set(s, x);
                    p.piece_set(sq(s), opiece(x));
                }
            }
            check(&p, &m)?;
        }
    } else if case < 64 + 81 + 28 {
        let x = all_pieces()[(case - 64 - 81) as usize];
        let mut p = build(&m);
        for s in 1..=81 {
            let old = m.at(s);
            m.set(s, x);
            p.piece_set(sq(s), opiece(x));
            check(&p, &m)?;
            m.set(s, old);
            p.piece_set(sq(s), opiece(old));
        }
        // Alone on the board.
        let mut e = M::empty();
        e.side = m.side;
        let mut p = build(&e);
        for s in 1..=81 {
            e.set(s, x);
            p.piece_set(sq(s), opiece(x));
            check(&p, &e)?;
            e.set(s, 0);
            p.piece_set(sq(s), None);
        }
    } else if case < 64 + 81 + 28 + 28 {
        // One kind of one side at every count; the others empty, or as they come.
        let i = case - 64 - 81 - 28;
        let (c, k, alone) = ((i / 14) as usize, (i % 7) as usize, i % 14 < 7);
        if alone {
            m.hands = [[0; 7]; 2];
        }
        m.hands[c][k] = 0;
        let mut p = build(&m);
        let mut h = hand(&m.hands[c]);
        for n in 0..=255u8 {
            m.hands[c][k] = n;
            if n > 0 {
                h = match h.added(kind(k as u8 + 1)) {
                    Some(h) => h,
                    None => return Ok(()),
                };
            }
            *p.hand_of_a_player_mut(color(c as u8 + 1)) = h;
            check(&p, &m)?;
        }
    } else {
        let i = case - 64 - 81 - 28 - 28;
        let many = r.pick(&[1u8, 2, 10]);
        let mut p = build(&m);
        let half: Vec<(Hand, [u8; 7])> = (0..128u32)
            .map(|b| {
                let mut c = [0; 7];
                for k in 0..7 {
                    c[k] = (b >> k & 1) as u8 * many;
                }
                (hand(&c), c)
            })
            .collect();
        for b in i * 2048..i * 2048 + 2048 {
            if cx.tiny && b % 400 != 0 {
                continue;
            }
            for (c, x) in [(0, b % 128), (1, b / 128)] {
                *p.hand_of_a_player_mut(color(c as u8 + 1)) = half[x as usize].0;
                m.hands[c] = half[x as usize].1;
            }
            check(&p, &m)?;
        }
    }
    cx.evals += n;
    cx.count("texts", n);
    cx.sample(|| format!("one part at every value, in `{}`", m.sfen()));
    cx.saw(m.digest() ^ case);
    Ok(())
}

// ---------------------------------------------------------------------------------------- C13

fn put(h: &mut Hand, k: PieceKind) -> bool {
    match h.added(k) {
        Some(n) => {
            *h = n;
            true
        }
        None => false,
    }
}
fn take(h: &mut Hand, k: PieceKind) -> bool {
    match h.removed(k) {
        Some(n) => {
            *h = n;
            true
        }
        None => false,
    }
}

/// Every two counts of two kinds: 42 ordered pairs of kinds.
pub fn c13(cx: &mut Ctx, case: u64) -> R {
    let (a, b) = ((case % 42 / 6) as u8, (case % 6) as u8);
    let b = if b >= a { b + 1 } else { b };
    let (ka, kb) = (kind(a + 1), kind(b + 1));
    let mut r = cx.rng.clone();
    let mut c = [0u8; 7];
    for k in 0..7u8 {
        if k != a && k != b {
            c[k as usize] = r.pick(&[0, 0, 1, 255]);
        }
    }
    let mut h = hand(&c);
    let is = |h: Hand, c: &[u8; 7], what: &str| -> R {
        for k in 1..=7u8 {
            ck!(h.count(kind(k)) == Some(c[k as usize - 1]), "count", "{} makes {} of kind {}, should be {:?}", what, h.count(kind(k)).map_or(-1, |x| x as i32), k, c);
        }
        Ok(())
    };
    let step = if cx.tiny { 64 } else { 1 };
    for x in (0..=255u8).step_by(step) {
        while c[a as usize] != x {
            ck!(put(&mut h, ka), "refused", "kind {} is not added to {:?}", a + 1, c);
            c[a as usize] += 1;
        }
        let mut g = h;
        let mut d = c;
        for y in 0..=255u8 {
            if y > 0 {
                d[b as usize] = y;
                if y & 1 == 0 {
                    ck!(put(&mut g, kb), "refused", "kind {} is not added to {:?}", b + 1, d);
                } else {
                    let f = g.added(kb);
                    ck!(f.is_some(), "refused", "kind {} is not added to {:?}", b + 1, d);
                    g = f.unwrap();
                }
            }
            is(g, &d, "adding")?;
            // Down by one of the other kind.
            let mut e = d;
            let f = g.removed(ka);
            ck!(f.is_some() == (x > 0), "refused", "removing kind {} from {:?}", a + 1, d);
            if let Some(f) = f {
                e[a as usize] -= 1;
                is(f, &e, "removing")?;
            }
        }
        // And down again.
        for y in (1..=255u8).rev() {
            ck!(take(&mut g, kb), "refused", "removing kind {} from {:?}", b + 1, d);
            d[b as usize] = y - 1;
            if y & 7 == 0 || y < 3 {
                is(g, &d, "removing")?;
            }
        }
        ck!(!take(&mut g, kb), "refused", "kind {} is removed from {:?}", b + 1, d);
        is(g, &c, "removing")?;
        cx.evals += 512;
        cx.saw(crate::ctx::fnv(&[a, b, x]));
    }
    cx.sample(|| format!("all counts of kinds {} and {}", a + 1, b + 1));
    Ok(())
}

// ---------------------------------------------------------------------------------------- C16

/// Positions that differ in one component only: by square (81 cases), hand (14), ply (16), the rest (1).
pub fn c16(cx: &mut Ctx, case: u64) -> R {
    let case = case % 124;
    if case >= 112 {
        return c16_long(cx, case - 112);
    }
    let mut r = cx.rng.clone();
    let mut m = gen::position(&mut r);
    m.last = None;
    let p = build(&m);
    let mut n = 0;
    let mut differ = |q: &PartialPosition| -> R {
        n += 1;
        pair("PartialPosition", &p, q, false, None)?;
        if n % 8 == 0 {
            pair("Position", &Position::arbitrary_position(p.clone()), &Position::arbitrary_position(q.clone()), false, None)?;
        }
        Ok(())
    };
    if case < 81 {
        let s = case as u8 + 1;
        for x in contents() {
            if x != m.at(s) {
                let mut q = p.clone();
                q.piece_set(sq(s), opiece(x));
                differ(&q)?;
            }
        }
    } else if case < 95 {
        let (c, k) = ((case - 81) as usize / 7, (case - 81) as usize % 7);
        let mut h = m.hands;
        h[c][k] = 0;
        let mut x = hand(&h[c]);
        for y in 0..=255u8 {
            if y > 0 {
                x = x.added(kind(k as u8 + 1)).unwrap_or(x);
            }
            if y != m.hands[c][k] {
                let mut q = p.clone();
                *q.hand_of_a_player_mut(color(c as u8 + 1)) = x;
                differ(&q)?;
                let a = p.hand_of_a_player(color(c as u8 + 1));
                pair("Hand", &a, &x, false, None)?;
            }
        }
    } else if case < 111 {
        let bit = case - 95;
        for i in 0..64u16 {
            let mut q = p.clone();
            let y = if i == 0 { m.ply ^ 1 << bit } else { r.next() as u16 };
            if y != m.ply && y != 0 && q.ply_set(y) {
                differ(&q)?;
            }
        }
    } else {
        let mut q = p.clone();
        q.side_to_move_set(color(3 - m.side));
        differ(&q)?;
        // The same board by two ways, which the last move tells apart.
        let (g, pa) = (5u8 + 16 * (m.side - 1), m.side);
        for from in 1..=81u8 {
            if from == 41 {
                continue;
            }
            // The gold comes to 5e from `from`, or from the next square.
            let mut e = M::empty();
            e.side = pa;
            e.set(from, g);
            let mut a = build(&e);
            let other = 1 + (from + if from == 40 { 1 } else { 0 }) % 81;
            let mut e2 = M::empty();
            e2.side = pa;
            e2.set(other, g);
            let mut b = build(&e2);
            if play(&mut a, Mv::N { from, to: 41, promote: false }, false) && play(&mut b, Mv::N { from: other, to: 41, promote: false }, true) {
                n += 1;
                pair("PartialPosition", &a, &b, false, None)?;
            }
        }
    }
    if case < 81 {
        // Sets that differ in one member.
        let b = Bitboard::single(sq(case as u8 + 1));
        for s in 1..=81u8 {
            let o = Bitboard::single(sq(s));
            pair("Bitboard", &b, &o, s as u64 == case + 1, None)?;
            let all = !Bitboard::empty();
            let (x, y) = (all ^ b, all ^ o);
            pair("Bitboard", &x, &y, s as u64 == case + 1, None)?;
            n += 2;
        }
    }
    cx.evals += n;
    cx.count("single differences", n);
    cx.sample(|| format!("single differences of `{}`", m.sfen()));
    cx.saw(m.digest() ^ case);
    Ok(())
}

/// Long records that differ in one place only, or not at all.
fn c16_long(cx: &mut Ctx, case: u64) -> R {
    let mut r = cx.rng.clone();
    // Golds going to and fro: two of either side, whose moves commute.
    let mut m = M::empty();
    m.ply = gen::ply(&mut r);
    let homes = [sq_of(1, 9), sq_of(9, 9), sq_of(1, 1), sq_of(9, 1)];
    for (i, &h) in homes.iter().enumerate() {
        m.set(h, 5 + 16 * (i as u8 / 2));
    }
    let start = build(&m);
    let lens: &[usize] = &[1, 2, 3, 7, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 511, 512, 1023, 1024, 4096, 16384, 17000];
    let blocks = if cx.tiny { 2 } else { [lens[case as usize], lens[(case as usize + 9) % lens.len()], 1 + r.usize(300)][r.usize(3)] };
    let make = |swapped: &dyn Fn(usize) -> bool, extra: bool| -> (Position, Vec<u16>) {
        let mut p = Position::arbitrary_position(start.clone());
        let mut ms = vec![];
        for b in 0..blocks {
            let out = b % 2 == 0;
            let step = |i: usize| {
                let (h, a) = (homes[i], if i < 2 { homes[i] - 1 } else { homes[i] + 1 });
                if out {
                    Mv::N { from: h, to: a, promote: false }
                } else {
                    Mv::N { from: a, to: h, promote: false }
                }
            };
            let order = if swapped(b) { [1, 2, 0, 3] } else { [0, 2, 1, 3] };
            for i in order {
                if p.make_move(to_real(step(i))).is_some() {
                    ms.push(step(i).packed());
                }
            }
        }
        if extra {
            // Two rounds more, and the board is the same.
            for b in 0..2 {
                for i in [0, 2, 1, 3] {
                    let (h, a) = (homes[i], if i < 2 { homes[i] - 1 } else { homes[i] + 1 });
                    let (from, to) = if (blocks + b) % 2 == 0 { (h, a) } else { (a, h) };
                    if p.make_move(to_real(Mv::N { from, to, promote: false })).is_some() {
                        ms.push(Mv::N { from, to, promote: false }.packed());
                    }
                }
            }
        }
        (p, ms)
    };
    let (a, ma) = make(&|_| false, false);
    let (b, mb) = make(&|_| false, false);
    if ma.len() != blocks * 4 || mb.len() != blocks * 4 {
        // Refused moves are C01's business.
        return Ok(());
    }
    pair("Position (long)", &a, &b, true, None)?;
    pair("Position (long)", &a, &a.clone(), true, None)?;
    let mut c = Position::startpos();
    c.clone_from(&a);
    pair("Position (long)", &a, &c, true, None)?;
    let mut where_ = vec![0, blocks - 1, blocks / 2];
    for _ in 0..if blocks > 2000 { 1 } else { 6 } {
        where_.push(r.usize(blocks));
    }
    for w in where_ {
        let (d, md) = make(&|b| b == w, false);
        if md != ma {
            pair("Position (long)", &a, &d, false, None)?;
            pair("Position (long)", &d.clone(), &b, false, None)?;
        }
        cx.evals += 2;
    }
    let (e, me) = make(&|_| false, true);
    if me.len() > ma.len() {
        pair("Position (long)", &a, &e, false, None)?;
    }
    cx.count("long records", 1);
    cx.sample(|| format!("records of {} moves that differ in the order of two", blocks * 4));
    cx.saw(crate::rng::mix(blocks as u64) ^ case);
    Ok(())
}

// --------------------------------------------------------------------------------- C10 to C12

/// The library's packing of a set given file by file; what it packs is checked by `is_set` where it matters.
fn rep(m: u128) -> u128 {
    static T: std::sync::OnceLock<Vec<u128>> = std::sync::OnceLock::new();
    let t = T.get_or_init(|| {
        let mut v = vec![0; 9 * 512];
        for f in 0..9usize {
            for p in 0..512usize {
                v[f * 512 + p] = bb((p as u128) << (9 * f)).to_u128();
            }
        }
        v
    });
    let mut r = 0;
    for f in 0..9 {
        r |= t[f * 512 + (m >> (9 * f)) as usize % 512];
    }
    r
}

/// Whether the set is `m`: by its packing if that settles it, member by member otherwise.
fn quick(b: Bitboard, m: u128, what: &dyn Fn() -> String) -> R {
    if b.to_u128() == rep(m) && b.count() as u32 == m.count_ones() && b.is_empty() == (m == 0) {
        return Ok(());
    }
    is_set(b, m, what)
}

/// Sets of up to two squares, rectangles from a corner, and what each leaves of the board.
fn family() -> &'static Vec<u128> {
    static T: std::sync::OnceLock<Vec<u128>> = std::sync::OnceLock::new();
    T.get_or_init(|| {
        let mut v = vec![0];
        for a in 0..81 {
            v.push(1u128 << a);
            for b in 0..a {
                v.push(1u128 << a | 1u128 << b);
            }
        }
        for f in 1..=9 {
            for k in 1..=9 {
                for (df, dk) in [(0, 0), (9 - f, 0), (0, 9 - k), (9 - f, 9 - k)] {
                    let mut m = 0;
                    for x in 0..f {
                        for y in 0..k {
                            m |= 1u128 << ((x + df) * 9 + y + dk);
                        }
                    }
                    v.push(m);
                }
            }
        }
        let n = v.len();
        for i in 0..n {
            v.push(ALL ^ v[i]);
        }
        v.sort();
        v.dedup();
        v
    })
}
pub const LOCAL_SETS: u64 = 256;

pub fn c10(cx: &mut Ctx, case: u64) -> R {
    let fam = family();
    let i = case % LOCAL_SETS;
    let sets: Vec<Bitboard> = fam.iter().map(|&m| bb(m)).collect();
    let step = if cx.tiny { 1009 } else { 1 };
    let mut n = 0u64;
    for x in (i as usize..fam.len()).step_by(LOCAL_SETS as usize * step) {
        let (a, ma) = (sets[x], fam[x]);
        quick(!a, ALL & !ma, &|| format!("complement of {}", hex(ma)))?;
        quick(!&a, ALL & !ma, &|| format!("complement of {}", hex(ma)))?;
        for s in 1..=81 {
            ck!(a.contains(sq(s)) == (ma >> (s - 1) & 1 == 1), "contains", "{} contains {}: {}", hex(ma), sq_usi(s), a.contains(sq(s)));
        }
        for y in (0..fam.len()).step_by(step) {
            let (b, mb) = (sets[y], fam[y]);
            quick(a | b, ma | mb, &|| format!("{} | {}", hex(ma), hex(mb)))?;
            quick(a & b, ma & mb, &|| format!("{} & {}", hex(ma), hex(mb)))?;
            quick(a ^ b, ma ^ mb, &|| format!("{} ^ {}", hex(ma), hex(mb)))?;
            quick(a.andnot(b), !ma & mb, &|| format!("{} andnot {}", hex(ma), hex(mb)))?;
            let mut c = a;
            match y & 3 {
                0 => {
                    c |= b;
                    quick(c, ma | mb, &|| format!("{} |= {}", hex(ma), hex(mb)))?;
                }
                1 => {
                    c &= b;
                    quick(c, ma & mb, &|| format!("{} &= {}", hex(ma), hex(mb)))?;
                }
                2 => {
                    c ^= b;
                    quick(c, ma ^ mb, &|| format!("{} ^= {}", hex(ma), hex(mb)))?;
                }
                _ => quick(a.or(b).and(a).xor(b), ma ^ mb, &|| format!("or, and, xor of {} and {}", hex(ma), hex(mb)))?,
            }
            ck!((a == b) == (ma == mb), "equal", "{} and {} are reported as {}", hex(ma), hex(mb), if a == b { "equal" } else { "different" });
            n += 6;
        }
        cx.saw(crate::rng::mix(ma as u64) ^ (ma >> 64) as u64);
    }
    cx.evals += n;
    cx.sample(|| "pairs of small sets, rectangles and their complements".into());
    Ok(())
}

fn moves_table() -> &'static Vec<[u8; 82]> {
    // [direction * 10 + delta][square]: where it goes, 0 when off the board.
    static T: std::sync::OnceLock<Vec<[u8; 82]>> = std::sync::OnceLock::new();
    T.get_or_init(|| {
        let mut v = vec![[0; 82]; 40];
        for (i, (df, dr)) in [(0, 1), (0, -1), (1, 0), (-1, 0)].into_iter().enumerate() {
            for d in 0..10 {
                for s in 1..=81u8 {
                    let m = crate::g_bb::moved(1 << (s - 1), df * d, dr * d);
                    v[i * 10 + d as usize][s as usize] = if m == 0 { 0 } else { m.trailing_zeros() as u8 + 1 };
                }
            }
        }
        v
    })
}

pub fn c11(cx: &mut Ctx, case: u64) -> R {
    let mut r = cx.rng.clone();
    let fam = family();
    let t = moves_table();
    let i = (case % LOCAL_SETS) as usize;
    let step = if cx.tiny { 397 } else { 1 };
    let mut list: Vec<u128> = fam.iter().copied().skip(i).step_by(LOCAL_SETS as usize * step).collect();
    // Every pattern of every file and rank, alone and with the rest of the board occupied.
    for x in (i..512 * 18).step_by(LOCAL_SETS as usize * step) {
        let (p, l) = (x as u128 % 512, x / 512);
        let (m, all) = if l < 9 {
            (p << (9 * l), 511u128 << (9 * l))
        } else {
            let f = |p: u128| (0..9).fold(0, |m, k| m | (p >> k & 1) << (9 * k + l - 9));
            (f(p), f(511))
        };
        list.push(m);
        list.push(ALL & !all | m);
        list.push(m | r.u128() & ALL & !all);
    }
    for m in list {
        let b = bb(m);
        let members: Vec<u8> = (1..=81).filter(|s| m >> (s - 1) & 1 == 1).collect();
        for d in 0..10u8 {
            for dir in 0..4usize {
                let row = &t[dir * 10 + d as usize];
                let mut w = 0u128;
                for &s in &members {
                    if row[s as usize] != 0 {
                        w |= 1 << (row[s as usize] - 1);
                    }
                }
                let got = unsafe {
                    match dir {
                        0 => b.shift_down(d),
                        1 => b.shift_up(d),
                        2 => b.shift_left(d),
                        _ => b.shift_right(d),
                    }
                };
                quick(got, w, &|| format!("{} shifted {} by {d}", hex(m), ["down", "up", "left", "right"][dir]))?;
            }
        }
        let mut fl = 0u128;
        for &s in &members {
            fl |= 1 << (81 - s);
        }
        quick(b.flip(), fl, &|| format!("{} flipped", hex(m)))?;
        for f in 1..=9u8 {
            let want = (m >> (9 * (f - 1)) & 511) as u16;
            let got = unsafe { b.get_file_unchecked(f) };
            ck!(got == want, "get_file", "file {f} of {}: {got:03x}, should be {want:03x}", hex(m));
            quick(unsafe { Bitboard::from_file_unchecked(f, want) }, (want as u128) << (9 * (f - 1)), &|| format!("file {f} with pattern {want:03x}"))?;
        }
        let sw = b.swap_bytes();
        quick(sw.swap_bytes(), m, &|| format!("{} with bytes swapped twice", hex(m)))?;
        ck!(sw.to_u128() == b.to_u128().swap_bytes(), "swap_bytes", "{}: bytes {:032x} swapped are {:032x}", hex(m), b.to_u128(), sw.to_u128());
        let n = fam[r.usize(fam.len())];
        let x = bb(n).swap_bytes();
        for (got, want, what) in [(sw.or(x), m | n, "or"), (sw.and(x), m & n, "and"), (sw.xor(x), m ^ n, "xor"), (sw.andnot(x), !m & n, "andnot")] {
            quick(got.swap_bytes(), want, &|| format!("{what} of swapped {} and {}", hex(m), hex(n)))?;
        }
        cx.evals += 65;
        cx.saw(crate::rng::mix(m as u64) ^ (m >> 64) as u64);
    }
    cx.sample(|| "small sets, rectangles, patterns of files and ranks in all directions".into());
    Ok(())
}

pub fn c12(cx: &mut Ctx, case: u64) -> R {
    let fam = family();
    let i = (case % LOCAL_SETS) as usize;
    let mut r = cx.rng.clone();
    let step = if cx.tiny { 397 } else { 1 };
    let mut list: Vec<u128> = fam.iter().copied().skip(i).step_by(LOCAL_SETS as usize * step).collect();
    for x in (i..512 * 18).step_by(LOCAL_SETS as usize * step) {
        let (p, l) = (x as u128 % 512, x / 512);
        let (m, all) = if l < 9 {
            (p << (9 * l), 511u128 << (9 * l))
        } else {
            let f = |p: u128| (0..9).fold(0, |m, k| m | (p >> k & 1) << (9 * k + l - 9));
            (f(p), f(511))
        };
        list.push(m);
        list.push(ALL & !all | m);
    }
    // All of three squares.
    for a in 2..81u32 {
        for b in 1..a {
            for c in 0..b {
                if (a * 7 + b * 31 + c) as usize % (LOCAL_SETS as usize * step) == i {
                    list.push(1u128 << a | 1 << b | 1 << c);
                }
            }
        }
    }
    let mut n = 0u64;
    for m in list {
        let w = || format!("set {}", hex(m));
        let orig = bb(m);
        let mut order = [0u8; 82];
        let mut k = 0;
        let (mut b, mut left) = (orig, m);
        loop {
            let (lo, hi) = b.size_hint();
            let c = left.count_ones() as usize;
            ck!(lo <= c && hi.map_or(true, |h| c <= h), "size_hint", "{}: bounds {:?} with {} left", w(), (lo, hi), c);
            let s = if n & 1 == 0 { b.pop() } else { <Option<Square>>::from(Bitboard::Bitboard_pop(&mut b)) };
            n += 1;
            let s = match s {
                Some(s) => s.index(),
                None => break,
            };
            ck!((1..=81).contains(&s) && left >> (s - 1) & 1 == 1, "nonmember", "{}: gave square {}, with {} left", w(), s, hex(left));
            left &= !(1u128 << (s - 1));
            quick(b, left, &|| format!("{} after popping {}", w(), sq_usi(s)))?;
            order[k] = s;
            k += 1;
        }
        ck!(left == 0 && b.is_empty() && b.pop().is_none(), "early_end", "{}: pop ends with {} left", w(), hex(left));
        // The iterator gives the same, each at most once, whichever way it is driven.
        let mut left = m;
        let mut v = 0;
        let mut it = [0u8; 82];
        for s in orig {
            let s = s.index();
            ck!((1..=81).contains(&s) && left >> (s - 1) & 1 == 1, "nonmember", "{}: iterating gave square {}, with {} left", w(), s, hex(left));
            left &= !(1u128 << (s - 1));
            it[v] = s;
            v += 1;
        }
        ck!(left == 0, "early_end", "{}: iterating ends with {} left", w(), hex(left));
        let j = r.usize(v + 2);
        for j in if v < 4 { 0..v + 2 } else { j..j + 1 } {
            let mut b = orig;
            let got = b.nth(j);
            ck!(got.map_or(0, |s| s.index()) == if j < v { it[j] } else { 0 }, "nth", "{}: nth({j}) gave {:?}", w(), got);
            let mut rest = 0u128;
            for x in it[..v].iter().skip(j + 1) {
                rest |= 1 << (x - 1);
            }
            quick(b, rest, &|| format!("{} after nth({j})", w()))?;
        }
        ck!(Iterator::count(orig) == k && Iterator::last(orig).map_or(0, |s| s.index()) == if v == 0 { 0 } else { it[v - 1] }, "count", "{}: count {} and last {:?}", w(), Iterator::count(orig), Iterator::last(orig));
        cx.saw(crate::rng::mix(m as u64) ^ (m >> 64) as u64);
    }
    cx.evals += n;
    cx.count("pops", n);
    cx.sample(|| "all sets of up to three squares, rectangles, patterns of files and ranks, and their complements".into());
    Ok(())
}
