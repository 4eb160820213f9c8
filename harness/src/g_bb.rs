//! C10 to C12: sets of squares against 81-bit masks.

use crate::ck;
use crate::ctx::{fail, Ctx, R};
use crate::model::*;
use crate::obs::*;
use crate::rng::{mix, Rng};
use shogi_core::c_compat::OptionSquare;
use shogi_core::*;

pub const ALL: u128 = (1 << 81) - 1;

/// Masks with structure: empty, full, singles, files, ranks, edges, sparse and dense ones.
pub fn some_mask(r: &mut Rng) -> u128 {
    match r.below(12) {
        0 => 0,
        1 => ALL,
        2 => 1 << r.below(81),
        3 => ALL ^ 1 << r.below(81),
        4 => 0x1ff << (9 * r.below(9)),
        5 => {
            let k = r.below(9);
            (0..9).fold(0, |m, f| m | 1u128 << (9 * f + k))
        }
        6 => r.u128() & r.u128() & r.u128() & r.u128() & ALL,
        7 => (r.u128() | r.u128() | r.u128()) & ALL,
        8 => (r.u128() & ALL) >> 63 << 63,
        9 => r.u128() & ((1 << 63) - 1),
        10 => 1 << r.below(81) | 1 << r.below(81),
        _ => r.u128() & ALL,
    }
}

pub fn hex(m: u128) -> String {
    format!("{m:021x}")
}

/// Everything a set says about itself, against the mask.
pub fn is_set(b: Bitboard, m: u128, what: &dyn Fn() -> String) -> R {
    let got = mask(b);
    ck!(got == m, "members", "{}: members {}, should be {}", what(), hex(got), hex(m));
    ck!(b.count() as u32 == m.count_ones(), "count", "{}: count {}, should be {}", what(), b.count(), m.count_ones());
    ck!(b.is_empty() == (m == 0), "empty", "{}: is_empty {} with members {}", what(), b.is_empty(), hex(m));
    let other = bb(m);
    ck!(b == other && other == b && !(b != other), "equal", "{}: not equal to the set {} built from single squares (representation {:x} and {:x})", what(), hex(m), b.to_u128(), other.to_u128());
    Ok(())
}

/// The same with a set that differs in one square.
fn is_not(b: Bitboard, m: u128, s: u8, what: &dyn Fn() -> String) -> R {
    let o = bb(m ^ 1 << (s - 1));
    ck!(b != o && o != b, "unequal", "{}: equal to a set that differs in {}", what(), sq_usi(s));
    Ok(())
}

fn union_in(r: &mut Rng, a: Bitboard, b: Bitboard) -> Bitboard {
    match r.below(9) {
        0 => a | b,
        1 => a | &b,
        2 => &a | b,
        3 => &a | &b,
        4 => {
            let mut c = a;
            c |= b;
            c
        }
        5 => {
            let mut c = a;
            c |= &b;
            c
        }
        6 => a.or(b),
        7 => Bitboard::Bitboard_bitor(a, b),
        _ => {
            let mut c = a;
            Bitboard::Bitboard_bitor_assign(&mut c, b);
            c
        }
    }
}
fn inter_in(r: &mut Rng, a: Bitboard, b: Bitboard) -> Bitboard {
    match r.below(9) {
        0 => a & b,
        1 => a & &b,
        2 => &a & b,
        3 => &a & &b,
        4 => {
            let mut c = a;
            c &= b;
            c
        }
        5 => {
            let mut c = a;
            c &= &b;
            c
        }
        6 => a.and(b),
        7 => Bitboard::Bitboard_bitand(a, b),
        _ => {
            let mut c = a;
            Bitboard::Bitboard_bitand_assign(&mut c, b);
            c
        }
    }
}
fn sym_in(r: &mut Rng, a: Bitboard, b: Bitboard) -> Bitboard {
    match r.below(9) {
        0 => a ^ b,
        1 => a ^ &b,
        2 => &a ^ b,
        3 => &a ^ &b,
        4 => {
            let mut c = a;
            c ^= b;
            c
        }
        5 => {
            let mut c = a;
            c ^= &b;
            c
        }
        6 => a.xor(b),
        7 => Bitboard::Bitboard_bitxor(a, b),
        _ => {
            let mut c = a;
            Bitboard::Bitboard_bitxor_assign(&mut c, b);
            c
        }
    }
}
fn not_in(r: &mut Rng, a: Bitboard) -> Bitboard {
    match r.below(4) {
        0 => !a,
        1 => !&a,
        2 => shogi_core_not(a),
        _ => a.andnot(!Bitboard::empty()),
    }
}

// The C function for the complement is not reachable by path (its module is private).
extern "C" {
    fn Bitboard_not(a: Bitboard) -> Bitboard;
}
fn shogi_core_not(a: Bitboard) -> Bitboard {
    if cfg!(miri) {
        !a
    } else {
        unsafe { Bitboard_not(a) }
    }
}

pub fn c10(cx: &mut Ctx, case: u64) -> R {
    let mut r = cx.rng.clone();
    if case == 0 {
        return c10_small(cx);
    }
    let mut env: Vec<(Bitboard, u128)> = vec![
        (Bitboard::empty(), 0),
        (Bitboard::default(), 0),
        (Bitboard::Bitboard_empty(), 0),
        (!Bitboard::empty(), ALL),
    ];
    for _ in 0..4 {
        let m = some_mask(&mut r);
        env.push((bb(m), m));
    }
    let steps = if cx.tiny { 20 } else { 250 };
    for i in 0..steps {
        let (a, ma) = r.pick(&env);
        let (b, mb) = r.pick(&env);
        let s = 1 + r.below(81) as u8;
        let bit = 1u128 << (s - 1);
        let q = sq(s);
        let (c, mc, op) = match r.below(13) {
            0 => (union_in(&mut r, a, b), ma | mb, "union"),
            1 => (inter_in(&mut r, a, b), ma & mb, "intersection"),
            2 => (sym_in(&mut r, a, b), ma ^ mb, "symmetric difference"),
            3 => (a.andnot(b), !ma & mb, "andnot"),
            4 => (not_in(&mut r, a), !ma & ALL, "complement"),
            5 => (if r.coin() { Bitboard::single(q) } else { Bitboard::Bitboard_single(q) }, bit, "single"),
            6 => {
                let mut c = a;
                if r.coin() {
                    c |= q;
                } else {
                    c |= &q;
                }
                (c, ma | bit, "adding a square")
            }
            7 => {
                let mut c = a;
                if r.coin() {
                    c &= q;
                } else {
                    c &= &q;
                }
                (c, ma & bit, "intersecting with a square")
            }
            8 => {
                let mut c = a;
                if r.coin() {
                    c ^= q;
                } else {
                    c ^= &q;
                }
                (c, ma ^ bit, "toggling a square")
            }
            9 => {
                let c = unsafe { Bitboard::from_u128_unchecked(a.to_u128()) };
                (c, ma, "integer representation and back")
            }
            10 => {
                let m = some_mask(&mut r);
                (bb(m), m, "building square by square")
            }
            11 => {
                // Built in another order, by toggling.
                let m = some_mask(&mut r);
                let mut order: Vec<u8> = (1..=81).filter(|s| m >> (s - 1) & 1 != 0).collect();
                r.shuffle(&mut order);
                let mut c = Bitboard::empty();
                for s in order {
                    c = sym_in(&mut r, c, Bitboard::single(sq(s)));
                }
                (c, m, "toggling square by square")
            }
            _ => {
                let mut c = a;
                c |= b;
                c &= !b;
                (c, ma & !mb & ALL, "difference by assignments")
            }
        };
        is_set(c, mc, &|| format!("{op} of {} and {} (square {})", hex(ma), hex(mb), sq_usi(s)))?;
        is_not(c, mc, s, &|| format!("{op} of {} and {}", hex(ma), hex(mb)))?;
        // Operands are what they were.
        ck!(a == bb(ma) && b == bb(mb), "operand", "{op} changed an operand: {} or {}", hex(ma), hex(mb));
        let (d, md) = r.pick(&env);
        ck!((c == d) == (mc == md), "equality", "sets {} and {}: equality is {}", hex(mc), hex(md), c == d);
        ck!(
            (c.to_u128() == d.to_u128()) == (mc == md),
            "representation",
            "sets {} and {}: representations {:x} and {:x}",
            hex(mc),
            hex(md),
            c.to_u128(),
            d.to_u128()
        );
        cx.count(op, 1);
        cx.saw(mix(mc as u64) ^ (mc >> 64) as u64);
        if env.len() < 14 {
            env.push((c, mc));
        } else {
            let j = 4 + r.usize(10);
            env[j] = (c, mc);
        }
        if i == 0 {
            cx.sample(|| format!("{op} of {} and {} = {}", hex(ma), hex(mb), hex(mc)));
        }
    }
    Ok(())
}

/// All pairs of single squares, in every spelling.
fn c10_small(cx: &mut Ctx) -> R {
    let mut r = cx.rng.clone();
    let step = if cx.tiny { 27 } else { 1 };
    for s in (1..=81u8).step_by(step) {
        let a = Bitboard::single(sq(s));
        let ma = 1u128 << (s - 1);
        is_set(a, ma, &|| format!("single {}", sq_usi(s)))?;
        is_set(!a, !ma & ALL, &|| format!("complement of {}", sq_usi(s)))?;
        for t in (1..=81u8).step_by(step) {
            let b = Bitboard::single(sq(t));
            let mb = 1u128 << (t - 1);
            let w = || format!("{} and {}", sq_usi(s), sq_usi(t));
            for _ in 0..if cx.tiny { 1 } else { 9 } {
                is_set(union_in(&mut r, a, b), ma | mb, &w)?;
                is_set(inter_in(&mut r, a, b), ma & mb, &w)?;
                is_set(sym_in(&mut r, a, b), ma ^ mb, &w)?;
            }
            is_set(a.andnot(b), !ma & mb, &w)?;
            cx.saw(mix(s as u64 * 100 + t as u64));
        }
    }
    cx.sample(|| "all pairs of single squares".into());
    Ok(())
}

// ---------------------------------------------------------------------------------------- C11

/// (file delta, rank delta) applied to every member, members leaving the board dropped.
pub fn moved(m: u128, df: i32, dr: i32) -> u128 {
    let mut r = 0;
    for s in 1..=81u8 {
        if m >> (s - 1) & 1 != 0 {
            let (f, k) = (file(s) as i32 + df, rank(s) as i32 + dr);
            if (1..=9).contains(&f) && (1..=9).contains(&k) {
                r |= 1u128 << (sq_of(f as u8, k as u8) - 1);
            }
        }
    }
    r
}

fn c11_one(cx: &mut Ctx, b: Bitboard, m: u128) -> R {
    for d in 0..=9u8 {
        let di = d as i32;
        // Files count from the right, ranks from the top.
        is_set(unsafe { b.shift_down(d) }, moved(m, 0, di), &|| format!("{} shifted down by {d}", hex(m)))?;
        is_set(unsafe { b.shift_up(d) }, moved(m, 0, -di), &|| format!("{} shifted up by {d}", hex(m)))?;
        is_set(unsafe { b.shift_left(d) }, moved(m, di, 0), &|| format!("{} shifted left by {d}", hex(m)))?;
        is_set(unsafe { b.shift_right(d) }, moved(m, -di, 0), &|| format!("{} shifted right by {d}", hex(m)))?;
    }
    let mut fl = 0u128;
    for s in 0..81 {
        if m >> s & 1 != 0 {
            fl |= 1u128 << (80 - s);
        }
    }
    is_set(b.flip(), fl, &|| format!("{} flipped", hex(m)))?;
    is_set(b.flip().flip(), m, &|| format!("{} flipped twice", hex(m)))?;
    for f in 1..=9u8 {
        let want = (m >> (9 * (f - 1)) & 0x1ff) as u16;
        let got = unsafe { b.get_file_unchecked(f) };
        ck!(got == want, "get_file", "file {f} of {}: {got:03x}, should be {want:03x}", hex(m));
    }
    let sw = b.swap_bytes();
    ck!(sw.swap_bytes() == b, "swap_twice", "{}: bytes swapped twice give another set", hex(m));
    is_set(sw.swap_bytes(), m, &|| format!("{} with bytes swapped twice", hex(m)))?;
    ck!(sw.to_u128() == b.to_u128().swap_bytes(), "swap_bytes", "{}: bytes {:032x} swapped are {:032x}", hex(m), b.to_u128(), sw.to_u128());
    let again = unsafe { ByteSwappedBitboard::from_u128_unchecked(sw.to_u128()) };
    ck!(again == sw, "swap_u128", "{}: swapped set, to integer and back, differs", hex(m));
    cx.evals += 55;
    cx.saw(mix(m as u64) ^ (m >> 64) as u64);
    Ok(())
}

const CONST_SQ: Square = match Square::new(9, 5) {
    Some(s) => s,
    None => unreachable!(),
};
const CONST_A: Bitboard = Bitboard::single(CONST_SQ).or(unsafe { Bitboard::from_file_unchecked(7, 0b101010101) });
const CONST_SHIFTED: [Bitboard; 4] = unsafe { [CONST_A.shift_left(1), CONST_A.shift_right(2), CONST_A.shift_up(3), CONST_A.shift_down(4)] };
const CONST_SWAPPED: Bitboard = CONST_A.swap_bytes().or(Bitboard::empty().swap_bytes()).swap_bytes();

pub fn c11(cx: &mut Ctx, case: u64) -> R {
    let mut r = cx.rng.clone();
    if case == 0 {
        // Every pattern of every file.
        let step = if cx.tiny { 73 } else { 1 };
        for f in 1..=9u8 {
            for p in (0..512u16).step_by(step) {
                let m = (p as u128) << (9 * (f - 1));
                let b = unsafe { Bitboard::from_file_unchecked(f, p) };
                is_set(b, m, &|| format!("file {f} with pattern {p:03x}"))?;
                ck!(unsafe { b.get_file_unchecked(f) } == p, "file_back", "file {f}: pattern {p:03x} is not read back");
                cx.saw(mix(m as u64) ^ (m >> 64) as u64);
            }
        }
        // The same computed by the compiler.
        let m = 0b101010101u128 << 54 | 1 << (sq_of(9, 5) - 1);
        is_set(CONST_A, m, &|| "constant".into())?;
        is_set(CONST_SHIFTED[0], moved(m, 1, 0), &|| "constant shifted left".into())?;
        is_set(CONST_SHIFTED[1], moved(m, -2, 0), &|| "constant shifted right".into())?;
        is_set(CONST_SHIFTED[2], moved(m, 0, -3), &|| "constant shifted up".into())?;
        is_set(CONST_SHIFTED[3], moved(m, 0, 4), &|| "constant shifted down".into())?;
        is_set(CONST_SWAPPED, m, &|| "constant swapped twice".into())?;
        cx.sample(|| "all 9 * 512 patterns of a file".into());
        return Ok(());
    }
    if case == 1 {
        let step = if cx.tiny { 16 } else { 1 };
        for s in (0..81).step_by(step) {
            let m = 1u128 << s;
            c11_one(cx, bb(m), m)?;
            c11_one(cx, bb(ALL ^ m), ALL ^ m)?;
            // Pairs with one member: every combination over the cases.
            for t in (0..s).step_by(if cx.tiny { 40 } else { 5 }) {
                let m = m | 1 << t;
                c11_one(cx, bb(m), m)?;
            }
        }
        cx.sample(|| "all single squares and their complements, many pairs".into());
        return Ok(());
    }
    for i in 0..if cx.tiny { 2 } else { 40 } {
        let m = some_mask(&mut r);
        let n = some_mask(&mut r);
        let (a, b) = (bb(m), bb(n));
        c11_one(cx, a, m)?;
        // Shifted sets shifted again, so that what a shift leaves behind shows.
        let (d, e) = (r.below(10) as u8, r.below(10) as u8);
        let c = unsafe { a.shift_right(d).shift_left(e) };
        is_set(c, moved(moved(m, -(d as i32), 0), e as i32, 0), &|| format!("{} shifted right by {d} and left by {e}", hex(m)))?;
        let c = unsafe { a.shift_left(d).shift_right(e).shift_down(d) };
        is_set(c, moved(moved(moved(m, d as i32, 0), -(e as i32), 0), 0, d as i32), &|| format!("{} shifted left by {d}, right by {e}, down by {d}", hex(m)))?;
        let c = unsafe { a.shift_up(d).shift_down(e) };
        is_set(c, moved(moved(m, 0, -(d as i32)), 0, e as i32), &|| format!("{} shifted up by {d} and down by {e}", hex(m)))?;
        let (x, y) = (a.swap_bytes(), b.swap_bytes());
        let w = |s: &'static str| move || format!("{s} of swapped {} and {}", hex(m), hex(n));
        is_set(x.or(y).swap_bytes(), m | n, &w("union"))?;
        is_set(x.and(y).swap_bytes(), m & n, &w("intersection"))?;
        is_set(x.xor(y).swap_bytes(), m ^ n, &w("symmetric difference"))?;
        is_set(x.andnot(y).swap_bytes(), !m & n, &w("andnot"))?;
        ck!(a.or(b).swap_bytes() == x.or(y), "commute", "or and swap of {} and {}", hex(m), hex(n));
        ck!(a.and(b).swap_bytes() == x.and(y), "commute", "and and swap of {} and {}", hex(m), hex(n));
        ck!(a.xor(b).swap_bytes() == x.xor(y), "commute", "xor and swap of {} and {}", hex(m), hex(n));
        ck!(a.andnot(b).swap_bytes() == x.andnot(y), "commute", "andnot and swap of {} and {}", hex(m), hex(n));
        ck!((x == y) == (m == n), "swap_eq", "swapped {} and {}: equality is {}", hex(m), hex(n), x == y);
        if i == 0 {
            cx.sample(|| format!("{} in all directions, with {}", hex(m), hex(n)));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------- C12

fn take(seen: &mut u128, left: &mut u128, s: Square, what: &dyn Fn() -> String) -> R {
    let i = s.index();
    ck!((1..=81).contains(&i), "value", "{}: gave square {}", what(), i);
    let bit = 1u128 << (i - 1);
    ck!(*seen & bit == 0, "twice", "{}: gave {} a second time", what(), sq_usi(i));
    ck!(*left & bit != 0, "nonmember", "{}: gave {}, which is not in the set", what(), sq_usi(i));
    *seen |= bit;
    *left &= !bit;
    Ok(())
}

fn hints(b: &Bitboard, left: u128, what: &dyn Fn() -> String) -> R {
    let n = left.count_ones() as usize;
    let (lo, hi) = b.size_hint();
    ck!(lo <= n && hi.map_or(true, |h| n <= h), "size_hint", "{}: bounds {:?} with {} left", what(), (lo, hi), n);
    Ok(())
}

/// The rest of what an iterator can be asked, against the list of the same members; where the
/// iterator goes on afterwards, what it still has.
fn asked(r: &mut Rng, orig: Bitboard, v: &[Square], w: &dyn Fn() -> String) -> R {
    let t = if v.is_empty() || r.below(4) == 0 { Square::from_u8(1 + r.below(81) as u8).unwrap() } else { v[r.usize(v.len())] };
    let (a, b) = (1 + r.below(4) as u8, r.below(3) as u8);
    let some = |s: Square| s.index() % a != b;
    let key = |s: &Square| s.index() % 7;
    let by = |x: &Square, y: &Square| (x.index() ^ 37).cmp(&(y.index() ^ 37));
    // Those that leave the iterator usable.
    macro_rules! go {
        ($name:literal, |$i:ident| $e:expr) => {{
            let (mut x, mut y) = (orig, v.iter().copied());
            let (got, want) = (
                {
                    let $i = &mut x;
                    $e
                },
                {
                    let $i = &mut y;
                    $e
                },
            );
            ck!(got == want, "asked", "{}: {} gives {:?}, should give {:?}", w(), $name, got, want);
            let rest: Vec<Square> = y.collect();
            let m = rest.iter().fold(0u128, |m, s| m | 1 << (s.index() - 1));
            ck!(x == bb(m) && x.count() as usize == rest.len(), "asked_rest", "{}: after {} it has {:x} left, should have {}", w(), $name, x.to_u128(), hex(m));
            let got: Vec<Square> = x.collect();
            ck!(got == rest, "asked_order", "{}: after {} the rest comes as {:?}, should as {:?}", w(), $name, got, rest);
        }};
    }
    go!("any", |i| i.any(|s| s == t));
    go!("all", |i| i.all(|s| s != t));
    go!("any of some", |i| i.any(some));
    go!("all of some", |i| i.all(some));
    go!("position", |i| i.position(|s| s == t));
    go!("position of some", |i| i.position(some));
    go!("find_map", |i| i.find_map(|s| if s == t { Some(s.rank()) } else { None }));
    go!("find of some", |i| i.find(|&s| some(s)));
    go!("try_fold", |i| i.try_fold(0u32, |n, s| if s == t { Err(n) } else { Ok(n * 3 % 1009 + s.index() as u32) }));
    go!("try_for_each", |i| i.try_for_each(|s| if s == t { None } else { Some(()) }));
    go!("by_ref take_while", |i| i.by_ref().take_while(|&s| s != t).collect::<Vec<_>>());
    go!("by_ref map_while", |i| i.by_ref().map_while(|s| if s == t { None } else { Some(s.file()) }).collect::<Vec<_>>());
    go!("peekable", |i| i.by_ref().peekable().peek().copied());
    // Those that use it up.
    macro_rules! end {
        ($name:literal, |$i:ident| $e:expr) => {{
            let (x, y) = (orig, v.iter().copied());
            let (got, want) = (
                {
                    let $i = x;
                    $e
                },
                {
                    let $i = y;
                    $e
                },
            );
            ck!(got == want, "asked", "{}: {} gives {:?}, should give {:?}", w(), $name, got, want);
        }};
    }
    match r.below(5) {
        0 => {
            end!("reduce", |i| i.reduce(|x, y| if (x.index() ^ y.index()) & 1 == 0 { x } else { y }));
            end!("max_by_key", |i| i.max_by_key(key));
            end!("min_by_key", |i| i.min_by_key(key));
            end!("max_by", |i| i.max_by(by));
            end!("min_by", |i| i.min_by(by));
            end!("sum", |i| i.map(|s| s.index() as u32).sum::<u32>());
            end!("product", |i| i.map(|s| s.index() as u64 | 1).fold(1u64, |x, y| x.wrapping_mul(y)));
        }
        1 => {
            let other = bb(some_mask(r));
            let list: Vec<Square> = other.collect();
            end!("cmp", |i| Iterator::cmp(i, list.iter().copied()));
            end!("partial_cmp", |i| Iterator::partial_cmp(i, list.iter().copied()));
            end!("eq", |i| Iterator::eq(i, list.iter().copied()));
            end!("ne", |i| Iterator::ne(i, list.iter().copied()));
            end!("lt", |i| Iterator::lt(i, list.iter().copied()));
            end!("le", |i| Iterator::le(i, list.iter().copied()));
            end!("gt", |i| Iterator::gt(i, list.iter().copied()));
            end!("ge", |i| Iterator::ge(i, list.iter().copied()));
            end!("eq itself", |i| Iterator::eq(i, v.iter().copied()));
            end!("chain", |i| i.chain(other).collect::<Vec<_>>());
            end!("zip", |i| i.zip(other).collect::<Vec<_>>());
        }
        2 => {
            end!("filter", |i| i.filter(|&s| some(s)).collect::<Vec<_>>());
            end!("filter count", |i| i.filter(|&s| some(s)).count());
            end!("filter_map", |i| i.filter_map(|s| if some(s) { Some(s.flip()) } else { None }).collect::<Vec<_>>());
            end!("map", |i| i.map(|s| s.flip()).last());
            end!("enumerate", |i| i.enumerate().collect::<Vec<_>>());
            end!("inspect", |i| {
                let mut n = vec![];
                i.inspect(|s| n.push(s.index())).for_each(drop);
                n
            });
            end!("scan", |i| i.scan(0u32, |n, s| { *n += s.index() as u32; Some(*n) }).collect::<Vec<_>>());
        }
        3 => {
            end!("skip_while", |i| i.skip_while(|&s| s != t).collect::<Vec<_>>());
            end!("take_while", |i| i.take_while(|&s| some(s)).count());
            end!("flat_map", |i| i.flat_map(|s| [s, s.flip()]).collect::<Vec<_>>());
            end!("fuse", |i| { let mut i = i.fuse(); let n = i.by_ref().count(); (n, i.next()) });
            end!("cycle", |i| { let n = v.len() * 2 + 3; i.cycle().take(n).collect::<Vec<_>>() });
            end!("unzip", |i| i.map(|s| (s.file(), s.rank())).unzip::<u8, u8, Vec<_>, Vec<_>>());
            end!("skip nth", |i| i.skip(a as usize).nth(b as usize));
            end!("step_by nth", |i| i.step_by(a as usize).nth(b as usize));
        }
        _ => {
            end!("hash set", |i| { let mut x: Vec<_> = i.collect::<std::collections::HashSet<_>>().into_iter().collect(); x.sort(); x });
            end!("tree set", |i| i.collect::<std::collections::BTreeSet<_>>());
            end!("extend", |i| { let mut x = vec![t]; x.extend(i); x });
            end!("boxed slice", |i| i.collect::<Box<[Square]>>());
            end!("option", |i| i.map(|s| if s == t { None } else { Some(s) }).collect::<Option<Vec<_>>>());
            end!("partition", |i| i.partition::<Vec<_>, _>(|&s| some(s)));
            let mut x = orig;
            let mut n = 0;
            while let (n0, Some(s)) = (n, (&mut x as &mut dyn Iterator<Item = Square>).next()) {
                ck!(v.get(n0) == Some(&s), "asked", "{}: through a trait object, item {n0} is {:?}", w(), s);
                n += 1;
            }
            ck!(n == v.len(), "asked", "{}: through a trait object it has {n} items, should have {}", w(), v.len());
        }
    }
    Ok(())
}

pub fn c12(cx: &mut Ctx, case: u64) -> R {
    let mut r = cx.rng.clone();
    for i in 0..if cx.tiny { 2 } else { 40 } {
        // All singles and all complements of singles come first.
        let k = case * 40 + i;
        let m = if k < 81 { 1u128 << k } else if k < 162 { ALL ^ 1 << (k - 81) } else { some_mask(&mut r) };
        let orig = bb(m);
        let w = || format!("set {}", hex(m));
        cx.saw(mix(m as u64) ^ (m >> 64) as u64);
        if i == 1 {
            cx.sample(|| hex(m));
        }
        // Popping, in either language, with the rest checked after each one.
        let (mut b, mut left, mut seen) = (orig, m, 0);
        for _ in 0..81 + 3 {
            let c = r.coin();
            hints(&b, left, &w)?;
            let s: Option<Square> = if c { b.pop() } else { <Option<Square>>::from(Bitboard::Bitboard_pop(&mut b) as OptionSquare) };
            match s {
                Some(s) => take(&mut seen, &mut left, s, &w)?,
                None => {
                    ck!(left == 0, "early_end", "{}: pop ends with {} left", w(), hex(left));
                    ck!(b.is_empty() && b == Bitboard::empty(), "not_empty", "{}: not empty after the last pop", w());
                }
            }
            ck!(b == bb(left) && b.count() as u32 == left.count_ones(), "rest", "{}: after popping {:?} the rest is {:x}, should be {}", w(), s.map(|s| s.index()), b.to_u128(), hex(left));
            cx.count("pops", 1);
        }
        ck!(left == 0 && seen == m, "all", "{}: pop gave {}", w(), hex(seen));
        ck!(orig == bb(m), "copy", "{}: popping from a copy changed the original", w());
        // Iterating by every method of its own, each from a fresh copy.
        let (mut left, mut seen) = (m, 0);
        for s in orig {
            take(&mut seen, &mut left, s, &w)?;
        }
        ck!(left == 0, "for", "{}: a loop gave {}", w(), hex(seen));
        ck!(Iterator::count(orig) == m.count_ones() as usize, "iter_count", "{}: Iterator::count is {}", w(), Iterator::count(orig));
        let v: Vec<Square> = orig.collect();
        let (mut left, mut seen) = (m, 0);
        for &s in &v {
            take(&mut seen, &mut left, s, &w)?;
        }
        ck!(left == 0, "collect", "{}: collect gave {}", w(), hex(seen));
        let (sum, n) = Iterator::fold(orig, (0u128, 0), |(a, n), s| (a | 1u128 << (s.index() - 1), n + 1));
        ck!(sum == m && n == m.count_ones(), "fold", "{}: fold gave {} ({} items)", w(), hex(sum), n);
        let mut sum = 0u128;
        let mut n = 0;
        Iterator::for_each(orig, |s| {
            sum |= 1u128 << (s.index() - 1);
            n += 1
        });
        ck!(sum == m && n == m.count_ones(), "for_each", "{}: for_each gave {} ({} items)", w(), hex(sum), n);
        // `last`, `min`, `max` and the like are determined by the order, which is the one `next` has.
        ck!(Iterator::last(orig) == v.last().copied(), "last", "{}: last is {:?}", w(), Iterator::last(orig));
        ck!(Iterator::min(orig).map_or(0, |s| s.index()) == if m == 0 { 0 } else { m.trailing_zeros() as u8 + 1 }, "min", "{}: min is {:?}", w(), Iterator::min(orig));
        ck!(Iterator::max(orig).map_or(0, |s| s.index()) == if m == 0 { 0 } else { 128 - m.leading_zeros() as u8 }, "max", "{}: max is {:?}", w(), Iterator::max(orig));
        let (e, o): (Vec<Square>, Vec<Square>) = Iterator::partition(orig, |s| s.index() % 2 == 0);
        asked(&mut r, orig, &v, &w)?;
        cx.count("asked", 20);
        ck!(e.len() + o.len() == v.len(), "partition", "{}: {} + {} items", w(), e.len(), o.len());
        // A mixture of methods on one iterator.
        let mut b = orig;
        let (mut left, mut seen) = (m, 0u128);
        let mut given = 0usize;
        for _ in 0..40 {
            let rest = left.count_ones() as usize;
            hints(&b, left, &w)?;
            match r.below(9) {
                0 | 1 => match b.next() {
                    Some(s) => {
                        take(&mut seen, &mut left, s, &w)?;
                        given += 1;
                    }
                    None => ck!(rest == 0, "early_end", "{}: next ends with {} left", w(), hex(left)),
                },
                2 | 3 => {
                    // nth(k) uses up k members and gives the one after them, in the order of `next`.
                    let k = r.pick(&[0, 0, 1, 2, 3, 7, 80]);
                    let got = b.nth(k);
                    if rest <= k {
                        ck!(got.is_none(), "nth", "{}: nth({k}) of {rest} left gave {:?}", w(), got);
                        left = 0;
                        given = v.len();
                    } else {
                        ck!(got == Some(v[given + k]), "nth", "{}: nth({k}) after {given} gave {:?}, should give {:?}", w(), got, v[given + k]);
                        for s in &v[given..=given + k] {
                            take(&mut seen, &mut left, *s, &w)?;
                        }
                        given += k + 1;
                    }
                }
                4 => {
                    let k = r.usize(4);
                    for s in b.by_ref().take(k) {
                        take(&mut seen, &mut left, s, &w)?;
                        given += 1;
                    }
                    ck!(left.count_ones() as usize == rest.saturating_sub(k), "take", "{}: take({k}) of {rest} left {}", w(), left.count_ones());
                }
                5 => {
                    let c = b;
                    ck!(Iterator::count(c) == rest, "copy_count", "{}: a copy counts {} of {rest} left", w(), Iterator::count(c));
                }
                6 => {
                    if let Some(&t) = v.get(given + r.usize(3)) {
                        // find stops right after what it finds.
                        let got = b.find(|&s| s == t);
                        ck!(got == Some(t), "find", "{}: find({:?}) gave {:?}", w(), t, got);
                        while given < v.len() {
                            take(&mut seen, &mut left, v[given], &w)?;
                            given += 1;
                            if v[given - 1] == t {
                                break;
                            }
                        }
                    }
                }
                7 => {
                    let k = 1 + r.usize(4);
                    let got: Vec<Square> = b.step_by(k).collect();
                    let want: Vec<Square> = v[given..].iter().copied().step_by(k).collect();
                    ck!(got == want, "step_by", "{}: step_by({k}) after {given}", w());
                }
                _ => {
                    let k = r.usize(5);
                    let got: Vec<Square> = b.skip(k).collect();
                    let want: Vec<Square> = v[given..].iter().copied().skip(k).collect();
                    ck!(got == want, "skip", "{}: skip({k}) after {given}", w());
                }
            }
            if b != bb(left) {
                return Err(fail("mixture", format!("{}: after {given} the iterator has {:x} left, should have {}", w(), b.to_u128(), hex(left))));
            }
            cx.count("iterator_calls", 1);
        }
        for _ in 0..85 {
            if b.next().is_none() {
                break;
            }
        }
        for _ in 0..3 {
            ck!(b.next().is_none() && b.pop().is_none() && b.is_empty(), "after_end", "{}: something comes after the end", w());
        }
        ck!(orig == bb(m), "copy", "{}: iterating over a copy changed the original", w());
    }
    Ok(())
}
