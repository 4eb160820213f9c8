//! C01 to C05: histories of moves and edits on positions and records, each property with an
//! observer of its own over the same kinds of history.

use crate::ck;
use crate::ctx::{fail, fnv, Ctx, R};
use crate::gen;
use crate::model::*;
use crate::obs::*;
use crate::rng::Rng;
use shogi_core::*;

/// How one attempted move is made.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Way {
    Bare,
    BarePacked,
    Record,
    RecordPacked,
}
const WAYS: [Way; 4] = [Way::Bare, Way::BarePacked, Way::Record, Way::RecordPacked];

fn go(bare: &mut PartialPosition, rec: &mut Position, mv: Mv, w: Way) -> bool {
    let r = to_real(mv);
    match w {
        Way::Bare => bare.make_move(r).is_some(),
        Way::BarePacked => bare.make_compact_move(pack(r)),
        Way::Record => rec.make_move(r).is_some(),
        Way::RecordPacked => rec.make_compact_move(pack(r)),
    }
}

fn diff(a: &M, b: &M) -> String {
    let mut s = String::new();
    for i in 1..=81 {
        if a.at(i) != b.at(i) {
            s += &format!(" board {}: {} should be {};", sq_usi(i), a.at(i), b.at(i));
        }
    }
    if a.hands != b.hands {
        s += &format!(" hands {:?} should be {:?};", a.hands, b.hands);
    }
    if a.side != b.side {
        s += &format!(" side {} should be {};", a.side, b.side);
    }
    if a.ply != b.ply {
        s += &format!(" ply {} should be {};", a.ply, b.ply);
    }
    if a.last != b.last {
        s += &format!(" last move {:?} should be {:?};", a.last, b.last);
    }
    s
}

fn class(mv: Mv) -> &'static str {
    match mv {
        Mv::N { promote: false, .. } => "move",
        Mv::N { promote: true, .. } => "promotion",
        Mv::D { .. } => "drop",
    }
}

/// The model of what the bare position is now; the steps of the driver follow it.
struct Game {
    m: M,
    bare: PartialPosition,
    rec: Position,
}

fn new_game(r: &mut Rng, weight_ply_end: bool) -> Game {
    let mut m = gen::position(r);
    if weight_ply_end && r.pct(30) {
        m.ply = 65535 - r.below(12) as u16;
    }
    let bare = if m == M::start() && r.coin() { PartialPosition::startpos() } else { build(&m) };
    let rec = if m == M::start() && r.coin() { Position::startpos() } else { Position::arbitrary_position(bare.clone()) };
    Game { m, bare, rec }
}

// ---------------------------------------------------------------------------------------- C01

fn c01_check(p: &PartialPosition, m: &M, mv: Mv, w: Way, got: bool, want: bool, before: &M) -> R {
    ck!(
        got == want,
        "acceptance",
        "{:?} of {} in `{}` (last {:?}): {} but should be {}",
        w,
        mv.usi(),
        before.sfen(),
        before.last,
        if got { "accepted" } else { "refused" },
        if want { "accepted" } else { "refused" }
    );
    let o = observe(p);
    ck!(&o == m, "effect", "{:?} of {} ({:?}) in `{}`:{}", w, mv.usi(), mv, before.sfen(), diff(&o, m));
    ck!(
        cm_u16(p.last_compact_move()) == m.last.map_or(0, |x| x.packed()),
        "last_compact",
        "{:?} of {} in `{}`: last compact move is {:?}",
        w,
        mv.usi(),
        before.sfen(),
        p.last_compact_move()
    );
    Ok(())
}

pub fn c01(cx: &mut Ctx, case: u64) -> R {
    if case % 10 == 9 {
        return c01_sweep(cx);
    }
    let mut r = cx.rng.clone();
    let mut g = new_game(&mut r, true);
    let steps = if cx.tiny { 6 } else { r.pick(&[3, 20, 80, 200]) };
    let pct = r.pick(&[95, 70, 30]);
    let mut who = gen::Player::new(&mut r);
    cx.sample(|| format!("game of {} attempts, {}% sensible, from `{}`", steps, pct, g.m.sfen()));
    for _ in 0..steps {
        let mv = who.next(&mut r, &g.m, pct);
        let before = g.m.clone();
        let want = g.m.apply(mv);
        // Both objects advance, in plain or packed form.
        let ways = [r.pick(&WAYS[..2]), r.pick(&WAYS[2..])];
        for w in ways {
            let got = go(&mut g.bare, &mut g.rec, mv, w);
            let p = if w == Way::Bare || w == Way::BarePacked { &g.bare } else { g.rec.inner() };
            c01_check(p, &g.m, mv, w, got, want, &before)?;
        }
        cx.count(if want { "accepted" } else { "refused" }, 1);
        cx.count(class(mv), 1);
        if want && before.at(match mv { Mv::N { to, .. } | Mv::D { to, .. } => to }) != 0 {
            cx.count("captures", 1);
        }
        if g.m.ply == 0 {
            cx.count("ply_wraps", 1);
        }
        cx.saw(before.digest() ^ mv.packed() as u64 * 0x9e37_79b9);
    }
    Ok(())
}

/// In one position, all 15390 moves there are (each from the same position).
fn c01_sweep(cx: &mut Ctx) -> R {
    let mut r = cx.rng.clone();
    let mut g = new_game(&mut r, true);
    for _ in 0..r.below(30) {
        let mv = gen::attempt(&mut r, &g.m, 100);
        let before = g.m.clone();
        let want = g.m.apply(mv);
        let got = go(&mut g.bare, &mut g.rec, mv, Way::Bare);
        c01_check(&g.bare, &g.m, mv, Way::Bare, got, want, &before)?;
    }
    let rec = Position::arbitrary_position(g.bare.clone());
    let all = Mv::all();
    let stride = if cx.tiny { 997 } else { 1 };
    cx.sample(|| format!("all {} moves from `{}`", all.len(), g.m.sfen()));
    let full = r.below(4);
    for (i, &mv) in all.iter().enumerate().step_by(stride) {
        let w = match full {
            0 => Way::RecordPacked,
            1 => Way::BarePacked,
            2 => Way::Record,
            _ => Way::Bare,
        };
        let mut m = g.m.clone();
        let want = m.apply(mv);
        let mut bare = g.bare.clone();
        let (got, o);
        if w == Way::Record || w == Way::RecordPacked {
            let mut rc = rec.clone();
            got = go(&mut bare, &mut rc, mv, w);
            o = rc.inner().clone();
        } else {
            let mut rc = Position::default();
            got = if i % 64 == 0 { go(&mut bare, &mut rc, mv, w) } else { bare_go(&mut bare, mv, w) };
            o = bare;
        }
        if got != want {
            return c01_check(&o, &m, mv, w, got, want, &g.m);
        }
        // All of it is read when accepted, and often when refused (C02 reads the rest).
        if want || i % 16 == 0 {
            c01_check(&o, &m, mv, w, got, want, &g.m)?;
        }
        cx.count(if want { "accepted" } else { "refused" }, 1);
    }
    cx.evals += all.len() as u64 / stride as u64;
    cx.saw(g.m.digest());
    cx.count("sweeps", 1);
    Ok(())
}

fn bare_go(bare: &mut PartialPosition, mv: Mv, w: Way) -> bool {
    let r = to_real(mv);
    if w == Way::Bare {
        bare.make_move(r).is_some()
    } else {
        bare.make_compact_move(pack(r))
    }
}

// ---------------------------------------------------------------------------------------- C02

pub fn c02(cx: &mut Ctx, case: u64) -> R {
    let mut r = cx.rng.clone();
    let mut g = new_game(&mut r, true);
    let sweep = case % 10 == 9;
    let warm = r.below(40);
    let mut who = gen::Player::new(&mut r);
    for _ in 0..warm {
        let mv = who.next(&mut r, &g.m, 90);
        let w = r.coin();
        go(&mut g.bare, &mut g.rec, mv, if w { Way::Bare } else { Way::BarePacked });
        go(&mut g.bare, &mut g.rec, mv, if w { Way::Record } else { Way::RecordPacked });
        g.m = observe(&g.bare);
    }
    let moves: Vec<Mv> = if sweep {
        let stride = if cx.tiny { 997 } else { 1 };
        Mv::all().into_iter().step_by(stride).collect()
    } else {
        let n = if cx.tiny { 8 } else { 150 };
        (0..n).map(|_| gen::attempt(&mut r, &g.m, 5)).collect()
    };
    cx.sample(|| format!("{} attempts in `{}` after {} others", moves.len(), g.m.sfen(), warm));
    let copy = g.bare.clone();
    let reccopy = g.rec.clone();
    let (mut b0, mut b1, mut b2, mut b3) = (vec![], vec![], vec![], vec![]);
    everything(&g.bare, &mut b0);
    everything_record(&g.rec, &mut b2);
    let pre_moves: Vec<Mv> = g.rec.moves().iter().map(|&m| from_real(m)).collect();
    let initial = observe(g.rec.initial_position());
    let force = if sweep { Some(r.usize(4)) } else { None };
    for mv in moves {
        let w = WAYS[force.unwrap_or_else(|| r.usize(4))];
        // An accepted attempt is undone by going back to the copies.
        if w == Way::Bare || w == Way::BarePacked {
            if bare_go(&mut g.bare, mv, w) {
                g.bare = copy.clone();
                cx.count("accepted", 1);
                continue;
            }
            everything(&g.bare, &mut b1);
            ck!(b0 == b1, "bare_changed", "refused {:?} of {} ({:?}) changed `{}` to `{}` (or one of its views)", w, mv.usi(), mv, g.m.sfen(), g.bare.to_sfen_owned());
            ck!(g.bare == copy && copy == g.bare, "bare_copy_differs", "after refused {:?} of {} in `{}` the position differs from the copy taken before", w, mv.usi(), g.m.sfen());
        } else {
            let (got, ok);
            {
                let r = to_real(mv);
                got = if w == Way::Record { g.rec.make_move(r).is_some() } else { g.rec.make_compact_move(r.into()) };
                ok = !got;
            }
            if !ok {
                g.rec = reccopy.clone();
                cx.count("accepted", 1);
                continue;
            }
            everything_record(&g.rec, &mut b3);
            ck!(b2 == b3, "record_changed", "refused {:?} of {} ({:?}) changed `{}` to `{}` (or one of its views)", w, mv.usi(), mv, g.m.sfen(), g.rec.to_sfen_owned());
            ck!(g.rec.moves().len() == pre_moves.len(), "record_moves", "refused {:?} of {} in `{}`: {} moves recorded, {} before", w, mv.usi(), g.m.sfen(), g.rec.moves().len(), pre_moves.len());
            if !sweep {
                let now: Vec<Mv> = g.rec.moves().iter().map(|&m| from_real(m)).collect();
                ck!(now == pre_moves, "record_moves", "refused {:?} of {} in `{}`: recorded moves changed", w, mv.usi(), g.m.sfen());
                ck!(observe(g.rec.initial_position()) == initial, "record_initial", "refused {:?} of {} in `{}`: initial position changed", w, mv.usi(), g.m.sfen());
            }
            ck!(g.rec == reccopy && reccopy == g.rec, "record_copy_differs", "after refused {:?} of {} in `{}` the record differs from the copy taken before", w, mv.usi(), g.m.sfen());
        }
        cx.count("refused", 1);
        cx.count(class(mv), 1);
        cx.saw(g.m.digest() ^ mv.packed() as u64 * 0x9e37_79b9);
    }
    // Whatever was refused leaves no trace later on, either.
    for _ in 0..4 {
        let m = observe(&g.bare);
        let mv = gen::attempt(&mut r, &m, 80);
        let mut c = copy.clone();
        let a = bare_go(&mut g.bare, mv, Way::Bare);
        let b = bare_go(&mut c, mv, Way::Bare);
        ck!(a == b && g.bare == c, "later", "{} after refused moves in `{}` acts differently than on a copy taken before them", mv.usi(), g.m.sfen());
        g.bare = copy.clone();
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------- C03

pub fn views(p: &PartialPosition) -> R {
    let mut at = [0u8; 82];
    for s in 1..=81 {
        at[s as usize] = p.piece_at(sq(s)).map_or(0, |p| p.as_u8());
        ck!(
            opiece_u8(p.PartialPosition_piece_at(sq(s))) == at[s as usize],
            "c_piece_at",
            "`{}`: the C view of {} differs",
            p.to_sfen_owned(),
            sq_usi(s)
        );
    }
    let set = |f: &dyn Fn(u8) -> bool| {
        let mut m = 0u128;
        for s in 1..=81 {
            if f(at[s]) {
                m |= 1u128 << (s - 1);
            }
        }
        m
    };
    let cmp = |what: &str, b: Bitboard, want: u128| -> R {
        // The members one by one, and the set as a value.
        let got = mask(b);
        if got != want || b != bb(want) || b.count() as u32 != want.count_ones() {
            let d = got ^ want;
            let s = d.trailing_zeros() as u8 + 1;
            return Err(fail(
                "set",
                format!(
                    "`{}`: {} has {} members, should have {} (first difference: {})",
                    p.to_sfen_owned(),
                    what,
                    b.count(),
                    want.count_ones(),
                    if d == 0 { "in its representation only".to_string() } else { sq_usi(s) }
                ),
            ));
        }
        Ok(())
    };
    cmp("occupied", p.occupied_bitboard(), set(&|x| x != 0))?;
    cmp("vacant", p.vacant_bitboard(), set(&|x| x == 0))?;
    for c in 1..=2u8 {
        cmp(&format!("player {c}"), p.player_bitboard(color(c)), set(&|x| x != 0 && side_of(x) == c))?;
    }
    for k in 1..=14 {
        cmp(&format!("kind {k}"), p.piece_kind_bitboard(kind(k)), set(&|x| x & 15 == k))?;
    }
    for x in all_pieces() {
        cmp(&format!("piece {x}"), p.piece_bitboard(piece(x)), set(&|y| y == x))?;
    }
    for c in 1..=2u8 {
        let k = 8 + 16 * (c - 1);
        let on_board = set(&|x| x == k) != 0;
        match p.king_position(color(c)) {
            None => ck!(!on_board, "king_missing", "`{}`: no king square of player {} reported", p.to_sfen_owned(), c),
            Some(s) => ck!(
                at[s.index() as usize] == k,
                "king_wrong",
                "`{}`: king square of player {} reported as {}, where no such king is",
                p.to_sfen_owned(),
                c,
                sq_usi(s.index())
            ),
        }
    }
    Ok(())
}

#[allow(deprecated)]
pub fn c03(cx: &mut Ctx, _case: u64) -> R {
    let mut r = cx.rng.clone();
    let mut g = new_game(&mut r, false);
    views(&g.bare)?;
    views(g.rec.inner())?;
    let steps = if cx.tiny { 4 } else { r.pick(&[10, 40, 120]) };
    let set_pct = r.pick(&[0, 30, 60, 100]);
    let mut few: Vec<u8> = Vec::new();
    for _ in 0..r.pick(&[1, 3, 81]) {
        few.push(1 + r.below(81) as u8);
    }
    let pieces = r.pick(&[0u8, 1, 2]);
    let mut who = gen::Player::new(&mut r);
    cx.sample(|| format!("{} steps, {}% of them placements on {} squares, from `{}`", steps, set_pct, few.len(), g.m.sfen()));
    for _ in 0..steps {
        g.m = observe(&g.bare);
        if r.pct(set_pct) {
            let s = r.pick(&few);
            let x = match (r.below(4), pieces) {
                (0, _) => 0,
                (_, 0) => r.pick(&all_pieces()),
                (_, 1) => r.pick(&[8, 24]),
                _ => r.pick(&[8, 24, 1, 17, 14, 30]),
            };
            g.bare.piece_set(sq(s), opiece(x));
            g.rec.piece_set(sq(s), opiece(x));
            ck!(
                g.bare.piece_at(sq(s)).map_or(0, |p| p.as_u8()) == x,
                "placed",
                "piece_set({}, {}) in `{}` is not reported back",
                sq_usi(s),
                x,
                g.m.sfen()
            );
            for t in 1..=81 {
                ck!(
                    t == s || g.bare.piece_at(sq(t)).map_or(0, |p| p.as_u8()) == g.m.at(t),
                    "placed_elsewhere",
                    "piece_set({}, {}) in `{}` changed {}",
                    sq_usi(s),
                    x,
                    g.m.sfen(),
                    sq_usi(t)
                );
            }
            cx.count(if x == 0 { "removals" } else if g.m.at(s) != 0 { "replacements" } else { "placements" }, 1);
            cx.saw(fnv(&[s, x, g.m.at(s)]) ^ g.m.digest());
        } else {
            let mv = who.next(&mut r, &g.m, 85);
            let ok = bare_go(&mut g.bare, mv, if r.coin() { Way::Bare } else { Way::BarePacked });
            let _ = g.rec.make_move(to_real(mv)).is_some();
            cx.count(if ok { "accepted" } else { "refused" }, 1);
            cx.saw(g.m.digest() ^ mv.packed() as u64 * 0x9e37_79b9);
        }
        views(&g.bare)?;
        views(g.rec.inner())?;
        // The record's own views are those of its current position.
        let q = &g.rec;
        for c in 1..=2 {
            ck!(q.player_bitboard(color(c)) == q.inner().player_bitboard(color(c)), "record_view", "`{}`: player {c}", q.to_sfen_owned());
        }
        ck!(q.occupied_bitboard() == q.inner().occupied_bitboard(), "record_view", "`{}`: occupied", q.to_sfen_owned());
        ck!(q.vacant_bitboard() == q.inner().vacant_bitboard(), "record_view", "`{}`: vacant", q.to_sfen_owned());
        for x in all_pieces() {
            ck!(q.piece_bitboard(piece(x)) == q.inner().piece_bitboard(piece(x)), "record_view", "`{}`: piece {x}", q.to_sfen_owned());
        }
        for s in 1..=81 {
            let x = q.inner().piece_at(sq(s));
            ck!(q.piece_at(sq(s)) == x && <Option<Piece>>::from(q.Position_piece_at(sq(s))) == x, "record_view", "`{}`: {}", q.to_sfen_owned(), sq_usi(s));
        }
    }
    // Emptying the board empties every view.
    if r.pct(20) {
        for s in 1..=81 {
            g.bare.piece_set(sq(s), None);
        }
        views(&g.bare)?;
        ck!(g.bare.occupied_bitboard().is_empty(), "emptied", "an emptied board is reported as occupied");
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------- C04

pub fn totals(m: &M) -> [u32; 9] {
    let mut t = [0; 9];
    for s in 1..=81 {
        if m.at(s) != 0 {
            let k = m.at(s) & 15;
            t[unpromoted(k).unwrap_or(k) as usize] += 1;
        }
    }
    for c in 0..2 {
        for k in 1..=7 {
            t[k] += m.hands[c][k - 1] as u32;
        }
    }
    t
}

pub fn c04(cx: &mut Ctx, case: u64) -> R {
    let mut r = cx.rng.clone();
    let mut g = if case % 3 == 0 {
        let m = gen::standard(&mut r);
        let bare = build(&m);
        Game { rec: Position::arbitrary_position(bare.clone()), m, bare }
    } else {
        new_game(&mut r, true)
    };
    // No hand may reach 256 of a kind.
    for c in 0..2 {
        for k in 0..7 {
            if g.m.hands[c][k] > 100 {
                g.m.hands[c][k] = 100;
            }
        }
    }
    g.bare = build(&g.m);
    g.rec = Position::arbitrary_position(g.bare.clone());
    let t0 = totals(&observe(&g.bare));
    let steps = if cx.tiny { 6 } else { r.pick(&[30, 100, 400]) };
    cx.sample(|| format!("{} attempts from `{}`, totals {:?}", steps, g.m.sfen(), &t0[1..]));
    let mut m = observe(&g.bare);
    let mut who = gen::Player::new(&mut r);
    for _ in 0..steps {
        let mv = who.next(&mut r, &m, 92);
        let rec = r.coin();
        let ok = if rec {
            let a = g.rec.make_move(to_real(mv)).is_some();
            let b = bare_go(&mut g.bare, mv, Way::Bare);
            ck!(a == b, "record_bare", "{} in `{}` is accepted by one of record and bare position only", mv.usi(), m.sfen());
            a
        } else {
            let a = g.rec.make_compact_move(to_real(mv).into());
            let b = bare_go(&mut g.bare, mv, Way::BarePacked);
            ck!(a == b, "record_bare", "{} in `{}` is accepted by one of record and bare position only", mv.usi(), m.sfen());
            a
        };
        if !ok {
            continue;
        }
        for p in [&g.bare, g.rec.inner()] {
            let n = observe(p);
            let t = totals(&n);
            ck!(t == t0, "total", "{} in `{}` changes the number of pieces from {:?} to {:?} (`{}`)", mv.usi(), m.sfen(), &t0[1..], &t[1..], n.sfen());
            // What left, entered or stayed, square by square and hand by hand.
            let c = m.side;
            let mut lost = 0;
            let mut owner = 0;
            for s in 1..=81 {
                let (a, b) = (m.at(s), n.at(s));
                if a & 15 == 8 {
                    let still = (1..=81).filter(|&s| n.at(s) == a).count();
                    let was = (1..=81).filter(|&s| m.at(s) == a).count();
                    ck!(still == was, "king", "{} in `{}`: kings {} on the board, {} before", mv.usi(), m.sfen(), still, was);
                }
                if a != 0 && side_of(a) != c && a != b {
                    lost += 1;
                }
                if b != 0 && side_of(b) != c && a != b {
                    owner += 1;
                }
            }
            ck!(owner == 0, "owner", "{} in `{}`: a piece came to the side not moving", mv.usi(), m.sfen());
            let cnt = |x: &M, side: u8| (1..=81).filter(|&s| x.at(s) != 0 && side_of(x.at(s)) == side).count() as i32;
            let (db_own, db_opp) = (cnt(&n, c) - cnt(&m, c), cnt(&n, 3 - c) - cnt(&m, 3 - c));
            let mut dh = [0i32; 2];
            for side in 0..2 {
                for k in 0..7 {
                    dh[side] += n.hands[side][k] as i32 - m.hands[side][k] as i32;
                    let d = n.hands[side][k] as i32 - m.hands[side][k] as i32;
                    ck!((-1..=1).contains(&d), "hand", "{} in `{}`: a hand changed by {}", mv.usi(), m.sfen(), d);
                }
            }
            let (own, opp) = (dh[c as usize - 1], dh[2 - c as usize]);
            ck!(opp == 0, "hand", "{} in `{}`: the hand of the side not moving changed", mv.usi(), m.sfen());
            let kind_of_move = match mv {
                Mv::D { .. } => (1, 0, -1, 0),
                Mv::N { .. } if lost == 0 => (0, 0, 0, 0),
                Mv::N { .. } => (0, -1, 1, 1),
            };
            ck!(
                (db_own, db_opp, own, lost) == kind_of_move,
                "flow",
                "{} in `{}`: own pieces on the board {:+}, opponent's {:+}, own hand {:+}, {} taken",
                mv.usi(),
                m.sfen(),
                db_own,
                db_opp,
                own,
                lost
            );
            if lost == 1 {
                cx.count("captures", 1);
            }
        }
        cx.count(class(mv), 1);
        cx.saw(m.digest() ^ mv.packed() as u64 * 0x9e37_79b9);
        m = observe(&g.bare);
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------- C05

fn record_is(rec: &Position, initial: &M, accepted: &[Mv], full: bool) -> R {
    let ctx = || format!("record from `{}` with {} accepted moves", initial.sfen(), accepted.len());
    ck!(&observe(rec.initial_position()) == initial, "initial", "{}: initial position is `{}`", ctx(), rec.initial_position().to_sfen_owned());
    ck!(rec.moves().len() == accepted.len(), "moves", "{}: lists {} moves", ctx(), rec.moves().len());
    let n = accepted.len();
    let from = if full { 0 } else { n.saturating_sub(3) };
    for i in from..n {
        let mv = from_real(rec.moves()[i]);
        ck!(mv == accepted[i], "moves", "{}: move {} listed as {}, was {}", ctx(), i + 1, mv.usi(), accepted[i].usi());
    }
    let last = accepted.last().copied().or(initial.last);
    ck!(rec.last_move().map(from_real) == last, "last", "{}: last move {:?}", ctx(), rec.last_move());
    if full {
        let mut p = rec.initial_position().clone();
        for (i, &mv) in rec.moves().iter().enumerate() {
            ck!(p.make_move(mv).is_some(), "replay", "{}: listed move {} ({}) is refused on replay", ctx(), i + 1, from_real(mv).usi());
        }
        ck!(observe(&p) == observe(rec.inner()), "replay", "{}: replay gives `{}`, the record `{}`", ctx(), p.to_sfen_owned(), rec.to_sfen_owned());
        let mut q = Position::arbitrary_position(rec.initial_position().clone());
        for &mv in accepted {
            let _ = q.make_compact_move(to_real(mv).into());
        }
        ck!(&q == rec, "replay", "{}: a record replayed from scratch is not equal", ctx());
    }
    Ok(())
}

fn answers(rec: &Position) -> R {
    let (mut a, mut b) = (vec![], vec![]);
    everything_record(rec, &mut a);
    everything(rec.inner(), &mut b);
    if a != b {
        let i = a.iter().zip(&b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
        return Err(fail("answers", format!("`{}`: record and its current position answer differently (byte {} of {})", rec.inner().to_sfen_owned(), i, b.len())));
    }
    let (mut x, mut y) = ([0xaau8; 400], [0xaau8; 400]);
    unsafe {
        rec.to_sfen_c(x.as_mut_ptr());
        rec.inner().to_sfen_c(y.as_mut_ptr());
    }
    ck!(x == y, "answers", "`{}`: SFEN for C of record and current position differ", rec.inner().to_sfen_owned());
    ck!(rec.to_sfen_owned() == rec.inner().to_sfen_owned(), "answers", "`{}`: SFEN of the record differs", rec.inner().to_sfen_owned());
    Ok(())
}

#[allow(deprecated)]
pub fn c05(cx: &mut Ctx, case: u64) -> R {
    let mut r = cx.rng.clone();
    // A few very long histories (every length of the list up to there, and past the ply's range).
    let long = case == 1 && !cx.tiny;
    let mut g = new_game(&mut r, false);
    // The initial position may itself come out of a game.
    let mut bare = g.bare.clone();
    for _ in 0..r.pick(&[0, 0, 1, 5]) {
        let mv = gen::attempt(&mut r, &observe(&bare), 100);
        let _ = bare.make_move(to_real(mv));
    }
    g.m = observe(&bare);
    let mut rec = if r.pct(10) && g.m == M::start() { Position::default() } else { Position::arbitrary_position(bare.clone()) };
    let initial = g.m.clone();
    record_is(&rec, &initial, &[], true)?;
    ck!(observe(rec.inner()) == initial, "created", "a record created from `{}` is at `{}`", initial.sfen(), rec.to_sfen_owned());
    ck!(Position::arbitrary_position(bare.clone()) == rec, "created", "two records of `{}` differ", initial.sfen());
    let steps = if cx.tiny { 10 } else if long { 70_000 } else { r.pick(&[5, 40, 150, 700]) };
    let pct = r.pick(&[97, 80, 50]);
    cx.sample(|| format!("{} attempts, {}% sensible, from `{}`", steps, pct, initial.sfen()));
    let mut acc: Vec<Mv> = Vec::new();
    let mut branches: Vec<(Position, Vec<Mv>)> = Vec::new();
    let mut m = initial.clone();
    let mut who = gen::Player::new(&mut r);
    for i in 0..steps {
        let mv = who.next(&mut r, &m, if long { 97 } else { pct });
        let packed = r.coin();
        let ok = if packed { rec.make_compact_move(to_real(mv).into()) } else { rec.make_move(to_real(mv)).is_some() };
        if ok {
            acc.push(mv);
        }
        cx.count(if ok { "accepted" } else { "refused" }, 1);
        let full = (!long && (i < 12 || i % 29 == 0)) || (long && i % 4099 == 0);
        if !long || i % 13 == 0 || (65000..66000).contains(&acc.len()) || acc.len().is_power_of_two() {
            record_is(&rec, &initial, &acc, full)?;
        }
        // The bare position made the same way is where the record is.
        let b = bare.make_move(to_real(mv)).is_some();
        ck!(b == ok, "bare", "{} after {} moves from `{}`: record {}, bare position {}", mv.usi(), acc.len(), initial.sfen(), ok, b);
        ck!(&bare == rec.inner(), "bare", "after {} moves from `{}`: record at `{}`, bare position at `{}`", acc.len(), initial.sfen(), rec.to_sfen_owned(), bare.to_sfen_owned());
        if i % 7 == 0 && (!long || i % 1001 == 0) {
            answers(&rec)?;
        }
        if r.pct(4) && (!long || i % 40 == 0 || acc.len() < 5000) {
            let mut copy = rec.clone();
            if branches.len() == 3 {
                // An earlier copy ends; what took its place may be made in what it was.
                let (old, a) = branches.swap_remove(r.usize(3));
                record_is(&old, &initial, &a, !long)?;
                if r.coin() {
                    copy = old;
                    copy.clone_from(&rec);
                }
            }
            ck!(copy == rec && rec == copy, "clone", "a copy of a record after {} moves from `{}` differs", acc.len(), initial.sfen());
            record_is(&copy, &initial, &acc, true)?;
            branches.push((copy, acc.clone()));
        }
        if !branches.is_empty() && r.pct(20) && (!long || i % 500 == 0) {
            // Something else is played on a branch, and the main line does not notice.
            let j = r.usize(branches.len());
            let before = rec.clone();
            let bm = observe(branches[j].0.inner());
            let bmv = gen::attempt(&mut r, &bm, 90);
            if branches[j].0.make_move(to_real(bmv)).is_some() {
                branches[j].1.push(bmv);
            }
            ck!(before == rec && rec.moves().len() == acc.len(), "branch", "playing on a copy changed the record from `{}`", initial.sfen());
            cx.count("branch_moves", 1);
        }
        m = observe(rec.inner());
        if !long || i % 16 == 0 {
            cx.saw(m.digest() ^ (acc.len() as u64) << 32);
        }
    }
    record_is(&rec, &initial, &acc, true)?;
    answers(&rec)?;
    for (b, a) in &branches {
        record_is(b, &initial, a, true)?;
        answers(b)?;
        cx.count("branches", 1);
    }
    // Edits reach the current position only.
    if r.pct(30) {
        let s = sq(1 + r.below(81) as u8);
        let x = opiece(r.pick(&[0u8, 1, 17, 8, 24, 14]));
        rec.piece_set(s, x);
        *rec.hand_of_a_player_mut(color(1 + r.below(2) as u8)) = hand(&[1, 2, 3, 0, 1, 2, 0]);
        ck!(observe(rec.initial_position()) == initial, "edit", "an edit of the record from `{}` changed its initial position", initial.sfen());
        ck!(rec.moves().len() == acc.len(), "edit", "an edit of the record from `{}` changed its moves", initial.sfen());
        ck!(rec.piece_at(s) == x, "edit", "an edit of the record from `{}` is not seen", initial.sfen());
        answers(&rec)?;
    }
    Ok(())
}
