//! C16: equality, ordering and hashing of values.

use crate::ck;
use crate::ctx::{fail, fnv, Ctx, R};
use crate::gen;
use crate::model::*;
use crate::obs::*;
use crate::rng::{mix, Rng};
use shogi_core::c_compat::*;
use shogi_core::*;
use std::cmp::Ordering;
use std::collections::{BTreeSet, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};

/// A hasher that records the exact byte stream it is fed.
#[derive(Default)]
struct Tape(Vec<u8>);
impl Hasher for Tape {
    fn finish(&self) -> u64 {
        fnv(&self.0)
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b);
    }
}

fn h1<T: Hash>(v: &T) -> u64 {
    let mut t = Tape::default();
    v.hash(&mut t);
    t.finish()
}
fn h2<T: Hash>(v: &T) -> u64 {
    #[allow(deprecated)]
    let mut s = std::hash::SipHasher::new_with_keys(3, 5);
    v.hash(&mut s);
    s.finish()
}

/// Coherence of one pair. `same` says whether the two stand for the same thing.
pub fn pair<T: Eq + Ord + Hash + Debug>(name: &str, a: &T, b: &T, same: bool, order: Option<Ordering>) -> R {
    let w = || {
        let (x, y) = (format!("{a:?}"), format!("{b:?}"));
        let cut = |s: String| s.chars().take(300).collect::<String>();
        format!("{name}: {} and {}", cut(x), cut(y))
    };
    ck!((a == b) == same, "equality", "{} are reported as {}", w(), if a == b { "equal" } else { "different" });
    ck!((b == a) == same, "equality", "{} (swapped) are reported as {}", w(), if b == a { "equal" } else { "different" });
    ck!((a != b) != same, "equality", "{}: != disagrees with ==", w());
    let c = a.cmp(b);
    ck!((c == Ordering::Equal) == same, "order", "{}: ordered {:?}, equal {}", w(), c, same);
    ck!(b.cmp(a) == c.reverse(), "order", "{}: ordered {:?}, and {:?} the other way round", w(), c, b.cmp(a));
    ck!(a.partial_cmp(b) == Some(c), "partial_order", "{}: total order {:?}, partial {:?}", w(), c, a.partial_cmp(b));
    ck!((a < b) == (c == Ordering::Less), "partial_order", "{}: < disagrees with {:?}", w(), c);
    ck!((a <= b) == (c != Ordering::Greater), "partial_order", "{}: <= disagrees with {:?}", w(), c);
    ck!((a > b) == (c == Ordering::Greater), "partial_order", "{}: > disagrees with {:?}", w(), c);
    ck!((a >= b) == (c != Ordering::Less), "partial_order", "{}: >= disagrees with {:?}", w(), c);
    if let Some(o) = order {
        ck!(c == o, "numeric_order", "{}: ordered {:?}, their representations {:?}", w(), c, o);
    }
    if same {
        ck!(h1(a) == h1(b) && h2(a) == h2(b), "hash", "{} are equal and hash differently", w());
    }
    Ok(())
}

fn transitive<T: Ord + Debug>(name: &str, a: &T, b: &T, c: &T) -> R {
    if a <= b && b <= c {
        ck!(a <= c, "transitive", "{name}: {a:?} <= {b:?} <= {c:?} but not the first <= the last");
    }
    if a >= b && b >= c {
        ck!(a >= c, "transitive", "{name}: {a:?} >= {b:?} >= {c:?} but not the first >= the last");
    }
    Ok(())
}

/// All pairs of a pool of (value, what it stands for); with `num`, what it stands for is its
/// documented number, and values order by it.
fn pool<T: Eq + Ord + Hash + Debug + Clone, K: Ord + Clone>(cx: &mut Ctx, r: &mut Rng, name: &str, vs: &[(T, K)], num: bool, budget: usize) -> R {
    let n = vs.len();
    let one = |i: usize, j: usize| -> R {
        let ((a, x), (b, y)) = (&vs[i], &vs[j]);
        pair(name, a, b, x == y, if num { Some(x.cmp(y)) } else { None })
    };
    if n * n <= budget {
        for i in 0..n {
            for j in 0..n {
                one(i, j)?;
            }
        }
        cx.evals += (n * n) as u64;
    } else {
        for _ in 0..budget {
            let (i, j) = (r.usize(n), r.usize(n));
            one(i, j)?;
            if i + 1 < n {
                one(i, i + 1)?;
            }
        }
        for i in 0..n {
            one(i, i)?;
        }
        cx.evals += 2 * budget as u64;
    }
    for _ in 0..n.min(200) {
        let (i, j, k) = (r.usize(n), r.usize(n), r.usize(n));
        transitive(name, &vs[i].0, &vs[j].0, &vs[k].0)?;
        let (a, b, c) = (&vs[i].0, &vs[j].0, &vs[k].0);
        let (lo, hi) = if a.cmp(b) == Ordering::Greater { (b, a) } else { (a, b) };
        ck!(&a.clone().max(b.clone()) == hi && &a.clone().min(b.clone()) == lo, "max_min", "{name}: maximum or minimum of {a:?} and {b:?} is wrong");
        let mid = if c.cmp(lo) == Ordering::Less { lo } else if c.cmp(hi) == Ordering::Greater { hi } else { c };
        ck!(&c.clone().clamp(lo.clone(), hi.clone()) == mid, "max_min", "{name}: {c:?} clamped between {lo:?} and {hi:?} is wrong");
    }
    for (i, (v, _)) in vs.iter().enumerate() {
        let c = v.clone();
        ck!(&c == v && c.cmp(v) == Ordering::Equal, "clone", "{name}: a copy of {v:?} is different");
        let mut c = vs[(i * 7 + 1) % n].0.clone();
        c.clone_from(v);
        ck!(&c == v && c.cmp(v) == Ordering::Equal && h1(&c) == h1(v), "clone", "{name}: a copy of {v:?} in place of another value is different");
        cx.saw(h1(v) ^ fnv(name.as_bytes()));
    }
    // The collections users build on these traits hold each thing once.
    let distinct = {
        let mut k: Vec<&K> = vs.iter().map(|v| &v.1).collect();
        k.sort();
        k.dedup();
        k.len()
    };
    let hs: HashSet<&T> = vs.iter().map(|v| &v.0).collect();
    let bs: BTreeSet<&T> = vs.iter().map(|v| &v.0).collect();
    ck!(hs.len() == distinct, "hash_set", "{name}: a hash set of {distinct} different values holds {}", hs.len());
    ck!(bs.len() == distinct, "tree_set", "{name}: an ordered set of {distinct} different values holds {}", bs.len());
    let mut sorted: Vec<T> = vs.iter().map(|v| v.0.clone()).collect();
    sorted.sort();
    for i in 1..n {
        ck!(sorted[i - 1] <= sorted[i], "sorted", "{name}: sorting leaves {:?} before {:?}", sorted[i - 1], sorted[i]);
    }
    Ok(())
}

fn simple(cx: &mut Ctx, r: &mut Rng) -> R {
    let b = if cx.tiny { 300 } else { 8000 };
    pool(cx, r, "Color", &[(Color::Black, 1), (Color::White, 2)], true, b)?;
    let v: Vec<_> = (1..=14u8).map(|k| (kind(k), k)).collect();
    pool(cx, r, "PieceKind", &v, true, b)?;
    let v: Vec<_> = all_pieces().into_iter().map(|k| (piece(k), k)).collect();
    pool(cx, r, "Piece", &v, true, b)?;
    let v: Vec<_> = (1..=81u8).map(|k| (sq(k), k)).collect();
    pool(cx, r, "Square", &v, true, b)?;
    let v: Vec<_> = (0..=81u8).map(|k| (OptionSquare::from(if k == 0 { None } else { Some(sq(k)) }), k)).collect();
    pool(cx, r, "OptionSquare", &v, true, b)?;
    let v: Vec<_> = (0..=14u8).map(|k| (OptionPieceKind::from(if k == 0 { None } else { Some(kind(k)) }), k)).collect();
    pool(cx, r, "OptionPieceKind", &v, true, b)?;
    let v: Vec<_> = std::iter::once(0).chain(all_pieces()).map(|k| (OptionPiece::from(opiece(k)), k)).collect();
    pool(cx, r, "OptionPiece", &v, true, b)?;
    let rs = [GameResolution::BlackWins, GameResolution::WhiteWins, GameResolution::Draw, GameResolution::Rematch, GameResolution::Aborted];
    let v: Vec<_> = (0..5).map(|i| (rs[i], i)).collect();
    pool(cx, r, "GameResolution", &v, true, b)?;
    let v: Vec<_> = (0..6).map(|i| (OptionGameResolution::from(if i == 0 { None } else { Some(rs[i - 1]) }), i)).collect();
    pool(cx, r, "OptionGameResolution", &v, true, b)?;
    let ss = [PositionStatus::BlackWins, PositionStatus::WhiteWins, PositionStatus::Draw, PositionStatus::InProgress, PositionStatus::Invalid];
    let v: Vec<_> = (0..5).map(|i| (ss[i], i)).collect();
    pool(cx, r, "PositionStatus", &v, true, b)?;
    let ik: Vec<IllegalMoveKind> = (0..=255u8).filter_map(IllegalMoveKind::from_u8).collect();
    let v: Vec<_> = ik.iter().map(|&k| (k, k as u8)).collect();
    pool(cx, r, "IllegalMoveKind", &v, true, b)?;
    let mut v: Vec<_> = ik.iter().map(|&k| (ResultUnitIllegalMoveKind::from(Some(k)), k as u8)).collect();
    v.push((ResultUnitIllegalMoveKind::from(None), 0));
    v.push((ResultUnitIllegalMoveKind::from(Ok(())), 0));
    pool(cx, r, "ResultUnitIllegalMoveKind", &v, true, b)?;
    Ok(())
}

fn moves(cx: &mut Ctx, r: &mut Rng) -> R {
    let all = Mv::all();
    let n = if cx.tiny { 25 } else { 500 };
    let mut pick: Vec<Mv> = (0..n).map(|_| r.pick(&all)).collect();
    // Near misses: moves differing in one component only.
    for i in 0..n / 4 {
        let s = 1 + r.below(81) as u8;
        pick.push(match pick[i] {
            Mv::N { from, to, promote } => match r.below(3) {
                0 => Mv::N { from: s, to, promote },
                1 => Mv::N { from, to: s, promote },
                _ => Mv::N { from, to, promote: !promote },
            },
            Mv::D { piece, to } => match r.below(3) {
                0 => Mv::D { piece: r.pick(&all_pieces()), to },
                1 => Mv::D { piece: (piece & 15) + 16 * (piece < 16) as u8, to },
                _ => Mv::D { piece, to: s },
            },
        });
    }
    let b = if cx.tiny { 300 } else { 20000 };
    let v: Vec<_> = pick.iter().map(|&m| (to_real(m), m.packed())).collect();
    pool(cx, r, "Move", &v, false, b)?;
    let v: Vec<_> = pick.iter().map(|&m| (pack(to_real(m)), m.packed())).collect();
    pool(cx, r, "CompactMove", &v, true, b)?;
    let mut v: Vec<_> = pick.iter().map(|&m| (OptionCompactMove::from(Some(pack(to_real(m)))), m.packed())).collect();
    v.push((OptionCompactMove::from(None), 0));
    pool(cx, r, "OptionCompactMove", &v, true, b)
}

fn sets(cx: &mut Ctx, r: &mut Rng) -> R {
    let n = if cx.tiny { 12 } else { 150 };
    let mut ms: Vec<u128> = (0..n).map(|_| crate::g_bb::some_mask(r)).collect();
    for i in 0..n / 3 {
        ms.push(ms[i] ^ 1u128 << r.below(81));
        ms.push(ms[i]);
    }
    // The same set, built in different ways.
    let v: Vec<_> = ms
        .iter()
        .map(|&m| {
            let b = bb(m);
            let b = match r.below(5) {
                0 => !!b,
                1 => b.flip().flip(),
                2 => b.swap_bytes().swap_bytes(),
                3 => unsafe { Bitboard::from_u128_unchecked(b.to_u128()) },
                _ => b,
            };
            (b, m)
        })
        .collect();
    let bud = if cx.tiny { 200 } else { 20000 };
    pool(cx, r, "Bitboard", &v, false, bud)?;
    let v: Vec<_> = v.iter().map(|(b, m)| (b.swap_bytes(), *m)).collect();
    pool(cx, r, "ByteSwappedBitboard", &v, false, bud)?;
    let mut hs: Vec<[u8; 7]> = vec![[0; 7]];
    for _ in 0..n {
        let mut h = [0; 7];
        for x in h.iter_mut() {
            *x = if r.coin() { 0 } else { gen::hand_count(r) };
        }
        hs.push(h);
        h[r.usize(7)] = gen::hand_count(r);
        hs.push(h);
    }
    let v: Vec<_> = hs
        .iter()
        .map(|&h| {
            // By additions in another order, or past the wanted counts and back.
            let mut x = hand(&h);
            if r.coin() {
                let k = kind(1 + r.below(7) as u8);
                x = x.added(k).and_then(|y| if y.count(k) == Some(0) { Some(hand(&h)) } else { y.removed(k) }).unwrap_or(x);
            }
            (x, h)
        })
        .collect();
    pool(cx, r, "Hand", &v, false, bud)
}

/// What an equality of positions must see.
type Key = ([u8; 81], [[u8; 7]; 2], u8, u16, u16);
fn key(m: &M) -> Key {
    (m.board, m.hands, m.side, m.ply, m.last.map_or(0, |x| x.packed()))
}

/// Positions around a base position, differing in exactly one component, reached in several ways.
fn positions(cx: &mut Ctx, r: &mut Rng) -> R {
    let mut v: Vec<(PartialPosition, Key)> = Vec::new();
    let mut m = gen::position(r);
    let mut p = build(&m);
    for _ in 0..r.below(8) {
        let mv = gen::attempt(r, &m, 100);
        m.apply(mv);
        let _ = p.make_move(to_real(mv));
    }
    ck!(observe(&p) == m, "reached", "a game from a position did not reach `{}`", m.sfen());
    v.push((p.clone(), key(&m)));
    v.push((p.clone(), key(&m)));
    // The same thing reached by edits: every piece taken off and put back in another order.
    let mut q = p.clone();
    let mut order: Vec<u8> = (1..=81).collect();
    r.shuffle(&mut order);
    for &s in &order {
        q.piece_set(sq(s), None);
        if r.pct(20) {
            q.piece_set(sq(s), opiece(r.pick(&all_pieces())));
        }
    }
    r.shuffle(&mut order);
    for &s in &order {
        if r.pct(20) {
            q.piece_set(sq(s), opiece(r.pick(&all_pieces())));
        }
        q.piece_set(sq(s), opiece(m.at(s)));
    }
    v.push((q, key(&m)));
    for _ in 0..if cx.tiny { 6 } else { 40 } {
        let mut n = m.clone();
        let mut q = p.clone();
        match r.below(6) {
            0 | 1 => {
                let s = 1 + r.below(81) as u8;
                let x = r.pick(&[0u8, 1, 8, 17, 24, 7, 14, 9, 25]);
                n.set(s, x);
                q.piece_set(sq(s), opiece(x));
            }
            2 => {
                let c = r.usize(2);
                let k = 1 + r.below(7) as u8;
                n.hands[c][k as usize - 1] = n.hands[c][k as usize - 1].wrapping_add(1);
                let h = q.hand_of_a_player_mut(color(c as u8 + 1));
                *h = h.added(kind(k)).unwrap();
            }
            3 => {
                n.side = 3 - n.side;
                q.side_to_move_set(color(n.side));
            }
            4 => {
                n.ply = r.pick(&[n.ply ^ 1, n.ply ^ 256, n.ply ^ 0x8000, 1]).max(1);
                ck!(q.ply_set(n.ply), "ply_set", "ply_set({}) refused", n.ply);
            }
            _ => {
                let mv = gen::attempt(r, &n, 100);
                n.apply(mv);
                let _ = q.make_move(to_real(mv));
                // Often only the last move is left as a difference: everything else is put back.
                if r.coin() {
                    for s in 1..=81 {
                        q.piece_set(sq(s), opiece(m.at(s)));
                    }
                    for c in 1..=2u8 {
                        *q.hand_of_a_player_mut(color(c)) = hand(&m.hands[c as usize - 1]);
                    }
                    q.side_to_move_set(color(m.side));
                    let last = n.last;
                    if m.ply != 0 {
                        let _ = q.ply_set(m.ply);
                        n = m.clone();
                        n.last = last;
                    } else {
                        n = observe(&q);
                    }
                }
            }
        }
        v.push((q, key(&n)));
    }
    let bud = if cx.tiny { 60 } else { 3000 };
    pool(cx, r, "PartialPosition", &v, false, bud)?;
    // Hands swapped between the players are a different position.
    let mut q = p.clone();
    *q.hand_of_a_player_mut(Color::Black) = hand(&m.hands[1]);
    *q.hand_of_a_player_mut(Color::White) = hand(&m.hands[0]);
    pair("PartialPosition", &p, &q, m.hands[0] == m.hands[1], None)
}

fn records(cx: &mut Ctx, r: &mut Rng) -> R {
    let mut v: Vec<(Position, (Key, Key, Vec<u16>))> = Vec::new();
    let m0 = if r.coin() { M::start() } else { gen::position(r) };
    for _ in 0..if cx.tiny { 4 } else { 12 } {
        let mut m = m0.clone();
        let mut p = if m == M::start() && r.coin() { Position::startpos() } else { Position::arbitrary_position(build(&m)) };
        let mut ms = vec![];
        // Few choices, so that histories coincide and transpose.
        let mut q = Rng::new(r.below(3), "c16", 0);
        for _ in 0..r.below(6) {
            let mv = gen::attempt(&mut q, &m, 100);
            let ok = m.apply(mv);
            if p.make_move(to_real(mv)).is_some() != ok {
                return Err(fail("reached", format!("{} in `{}`", mv.usi(), m.sfen())));
            }
            if ok {
                ms.push(mv.packed());
            }
        }
        v.push((p.clone(), (key(&m0), key(&m), ms.clone())));
        v.push((p.clone(), (key(&m0), key(&m), ms)));
        // The same current position without the history.
        let i = p.inner().clone();
        v.push((Position::arbitrary_position(i), (key(&m), key(&m), vec![])));
        // The same history after which the position was edited.
        let s = 1 + r.below(81) as u8;
        let x = r.pick(&[0u8, 8, 24, 1]);
        let mut e = m.clone();
        let k0 = v[v.len() - 3].1 .2.clone();
        p.piece_set(sq(s), opiece(x));
        e.set(s, x);
        v.push((p, (key(&m0), key(&e), k0)));
    }
    // Transpositions: two quiet pairs of moves in both orders reach the same board by other moves.
    let mut t = vec![];
    for order in [[(7u8, 7u8, 7u8, 6u8), (3, 3, 3, 4), (2, 7, 2, 6), (8, 3, 8, 4)], [(2, 7, 2, 6), (8, 3, 8, 4), (7, 7, 7, 6), (3, 3, 3, 4)], [(2, 7, 2, 6), (3, 3, 3, 4), (7, 7, 7, 6), (8, 3, 8, 4)]] {
        let mut p = Position::startpos();
        let mut m = M::start();
        let mut ms = vec![];
        for (f, k, f2, k2) in order {
            let mv = Mv::N { from: sq_of(f, k), to: sq_of(f2, k2), promote: false };
            m.apply(mv);
            ms.push(mv.packed());
            let _ = p.make_move(to_real(mv));
        }
        t.push((p.inner().clone(), key(&m)));
        v.push((p, (key(&M::start()), key(&m), ms)));
    }
    let bud = if cx.tiny { 60 } else { 3000 };
    pool(cx, r, "PartialPosition", &t, false, bud)?;
    pool(cx, r, "Position", &v, false, bud)?;
    let rs = [GameResolution::BlackWins, GameResolution::WhiteWins, GameResolution::Draw, GameResolution::Rematch, GameResolution::Aborted];
    let mut gs = vec![];
    let mut ps = vec![];
    for i in 0..6 {
        for _ in 0..2 {
            let (mut g, mut p) = (Game::default(), PartialGame::default());
            if r.coin() {
                g.resolve(r.pick(&rs));
                p.resolve(r.pick(&rs));
            }
            if i == 0 {
                g.unresolve();
                p.unresolve();
            } else {
                g.resolve(rs[i - 1]);
                p.resolve(rs[i - 1]);
            }
            gs.push((g, i));
            ps.push((p, i));
        }
    }
    pool(cx, r, "Game", &gs, false, bud)?;
    pool(cx, r, "PartialGame", &ps, false, bud)
}

pub fn c16(cx: &mut Ctx, case: u64) -> R {
    let mut r = cx.rng.clone();
    if case == 0 {
        simple(cx, &mut r)?;
        cx.sample(|| "all values of the simple types, all pairs".into());
        return Ok(());
    }
    match case % 4 {
        0 => moves(cx, &mut r)?,
        1 => sets(cx, &mut r)?,
        2 => positions(cx, &mut r)?,
        _ => records(cx, &mut r)?,
    }
    cx.count(["move_pools", "set_pools", "position_pools", "record_pools"][case as usize % 4], 1);
    cx.sample(|| format!("pool of kind {}, pairwise", case % 4));
    cx.saw(mix(case));
    Ok(())
}
