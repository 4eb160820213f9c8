//! C06 to C09: what is written, where to, and how it fails.

use crate::ck;
use crate::ctx::{fail, fnv, Ctx, R};
use crate::gen;
#[cfg(not(miri))]
use crate::guard::Guarded;
use crate::model::*;
use crate::obs::*;
use crate::rng::Rng;
use shogi_core::*;
use std::collections::HashMap;
use std::fmt::Write;

/// A position for text: set up directly, or reached by moves (the only way to ply 0).
fn text_position(r: &mut Rng, standard: bool) -> (M, PartialPosition) {
    let mut m = if standard {
        match r.below(5) {
            0 => M::start(),
            1 => longest(r),
            2 => full_length(r),
            _ => gen::standard(r),
        }
    } else {
        gen::position(r)
    };
    if r.pct(10) {
        m.ply = 65535;
    }
    let mut p = if m == M::start() && r.coin() { PartialPosition::startpos() } else { build(&m) };
    for _ in 0..r.pick(&[0, 0, 1, 2, 20]) {
        if let Some(mv) = gen::sensible(r, &m) {
            if p.make_move(to_real(mv)).is_some() {
                m.apply(mv);
            }
        }
    }
    (m, p)
}

/// A standard set arranged so that its text is as long as there can be (136 characters: no two vacant
/// squares side by side, all that can be is promoted, two golds in either hand), or almost.
fn full_length(r: &mut Rng) -> M {
    let mut m = M::empty();
    m.side = 1 + r.below(2) as u8;
    m.ply = 10000 + r.below(55536) as u16;
    let mut list: Vec<u8> = [(9u8, 18), (10, 4), (11, 4), (12, 4), (13, 2), (14, 2), (8, 2)].iter().flat_map(|&(k, n)| vec![k; n]).collect();
    for (i, k) in list.iter_mut().enumerate() {
        let white = if *k == 8 { i % 2 == 0 } else { r.coin() };
        *k += if white { 16 } else { 0 };
    }
    r.shuffle(&mut list);
    for rank in 1..=9 {
        for file in [2, 4, 6, 8] {
            m.set(sq_of(file, rank), list.pop().unwrap());
        }
    }
    m.hands[0][4] = 2;
    m.hands[1][4] = 2;
    // Up to three characters fewer.
    for _ in 0..r.pick(&[0, 0, 0, 1, 2, 3]) {
        let s = 1 + r.below(81) as u8;
        let x = m.at(s);
        if let Some(k) = unpromoted(x & 15) {
            m.set(s, k + (x & 16));
        }
    }
    m
}

/// A standard set arranged so that its text is (locally) as long as it gets.
fn longest(r: &mut Rng) -> M {
    let mut m = gen::standard(r);
    m.ply = 10000 + r.below(55536) as u16;
    let mut best = m.sfen().len();
    let rounds = r.pick(&[60, 300, 900]);
    for _ in 0..rounds {
        let mut n = m.clone();
        match r.below(3) {
            0 => {
                let (a, b) = (r.usize(81), r.usize(81));
                n.board.swap(a, b);
            }
            1 => {
                let a = r.usize(81);
                let k = n.board[a] & 15;
                if let Some(q) = promoted(k) {
                    n.board[a] = q + (n.board[a] & 16);
                }
            }
            _ => {
                let a = r.usize(81);
                let k = n.board[a] & 15;
                if n.board[a] != 0 && k != 8 {
                    let k = unpromoted(k).unwrap_or(k);
                    n.board[a] = 0;
                    n.hands[r.usize(2)][k as usize - 1] += 1;
                } else if n.board[a] == 0 {
                    let (c, k) = (r.usize(2), 1 + r.below(7) as u8);
                    if n.hands[c][k as usize - 1] > 0 {
                        n.hands[c][k as usize - 1] -= 1;
                        n.board[a] = promoted(k).unwrap_or(k) + 16 * c as u8;
                    }
                }
            }
        }
        let l = n.sfen().len();
        if l >= best {
            best = l;
            m = n;
        }
    }
    m
}

pub fn c06(cx: &mut Ctx, _case: u64) -> R {
    let mut r = cx.rng.clone();
    for _ in 0..if cx.tiny { 2 } else { 60 } {
        let (m, p) = text_position(&mut r, false);
        let want = m.sfen();
        let mut s = String::new();
        let res = p.to_sfen(&mut s);
        ck!(res.is_ok() && s == want, "sfen", "to_sfen writes `{}`, should write `{}`", s, want);
        let o = p.to_sfen_owned();
        ck!(o == want, "sfen_owned", "to_sfen_owned gives `{}`, should give `{}`", o, want);
        let rec = Position::arbitrary_position(p.clone());
        let o = rec.to_sfen_owned();
        ck!(o == want, "record_sfen", "Position::to_sfen_owned gives `{}`, should give `{}`", o, want);
        let mut buf = [0xa5u8; 600];
        unsafe { p.to_sfen_c(buf.as_mut_ptr()) };
        ck!(buf[..want.len()] == *want.as_bytes() && buf[want.len()] == 0, "sfen_c", "to_sfen_c writes {:?}, should write `{}`", String::from_utf8_lossy(&buf[..want.len() + 1]), want);
        let mut buf = [0xa5u8; 600];
        unsafe { rec.to_sfen_c(buf.as_mut_ptr()) };
        ck!(buf[..want.len()] == *want.as_bytes() && buf[want.len()] == 0, "sfen_c", "Position::to_sfen_c writes {:?}, should write `{}`", String::from_utf8_lossy(&buf[..want.len() + 1]), want);
        // Appending to what is there already.
        let mut t = String::from("sfen ");
        let _ = p.to_sfen(&mut t);
        ck!(t[5..] == want, "append", "appending gives `{}`", t);
        // And back.
        let mut back = match M::parse(&s) {
            Some(b) => b,
            None => return Err(fail("unreadable", format!("`{}` is not SFEN", s))),
        };
        back.last = m.last;
        ck!(back == m, "lossy", "`{}` reads back as `{}`", want, back.sfen());
        cx.count("ply_digits", want.rsplit(' ').next().unwrap().len() as u64);
        cx.count("hand_chars", want.split(' ').nth(2).unwrap().len() as u64);
        cx.sample(|| want.clone());
        cx.saw(fnv(want.as_bytes()));
    }
    Ok(())
}

#[cfg(miri)]
pub fn c07(cx: &mut Ctx, _case: u64) -> R {
    // The interpreter watches the bounds of an allocation that is exactly large enough.
    let mut r = cx.rng.clone();
    let (m, p) = text_position(&mut r, true);
    let want = m.sfen();
    let mut b = vec![0xa5u8; want.len() + 1].into_boxed_slice();
    unsafe { p.to_sfen_c(b.as_mut_ptr()) };
    ck!(b[..want.len()] == *want.as_bytes() && b[want.len()] == 0, "text", "to_sfen_c: `{}`", want);
    cx.saw(fnv(want.as_bytes()));
    Ok(())
}

#[cfg(not(miri))]
pub fn c07(cx: &mut Ctx, _case: u64) -> R {
    thread_local! {
        static G: std::cell::RefCell<Option<Guarded>> = const { std::cell::RefCell::new(None) };
    }
    let mut r = cx.rng.clone();
    G.with(|g| {
        let mut g = g.borrow_mut();
        let g = g.get_or_insert_with(|| Guarded::new(1));
        for _ in 0..20 {
            let (m, p) = text_position(&mut r, true);
            let want = m.sfen();
            let n = want.len() + 1;
            ck!(n <= 139, "harness_model", "the standard text `{}` has {} bytes with its NUL", want, n);
            let rec = Position::arbitrary_position(p.clone());
            let owned = p.to_sfen_owned();
            let fill = r.next() as u8 | 1;
            // Places: the last bytes before an inaccessible page, the first ones after one, any alignment,
            // and a buffer of exactly 139 bytes.
            let len = g.len();
            let offs = [len - n, 0, 512 + r.usize(64), len - 139];
            for (i, &off) in offs.iter().enumerate() {
                for rc in [false, true] {
                    let s = g.slice();
                    s.fill(fill);
                    let ptr = unsafe { g.start().add(off) };
                    if rc {
                        unsafe { rec.to_sfen_c(ptr) };
                    } else {
                        unsafe { p.to_sfen_c(ptr) };
                    }
                    let s = g.slice();
                    let nul = s[off..].iter().position(|&b| b == 0);
                    ck!(nul == Some(want.len()), "nul", "`{}`: NUL at {:?}, should be at {} (place {})", want, nul, want.len(), i);
                    ck!(&s[off..off + n - 1] == want.as_bytes(), "text", "`{}` is written for C as `{}`", want, String::from_utf8_lossy(&s[off..off + n - 1]));
                    ck!(&s[off..off + n - 1] == owned.as_bytes(), "text", "`{}` is written for C as `{}`", owned, String::from_utf8_lossy(&s[off..off + n - 1]));
                    if let Some(j) = (0..len).find(|&j| (j < off || j >= off + n) && s[j] != fill) {
                        return Err(fail("outside", format!("`{}` ({} bytes with NUL): byte at offset {} of the buffer written, too", want, n, j as isize - off as isize)));
                    }
                }
            }
            let c = if n >= 137 { "texts_137_or_more" } else if n >= 120 { "texts_120_to_136" } else { "texts_shorter" };
            cx.count(c, 1);
            cx.sample(|| format!("{} bytes: {}", n, want));
            cx.saw(fnv(want.as_bytes()));
        }
        Ok(())
    })
}

// ---------------------------------------------------------------------------------------- C08

fn usi<T: ToUsi + ?Sized>(v: &T) -> Result<String, crate::ctx::Fail> {
    let mut s = String::new();
    let r = v.to_usi(&mut s);
    if r.is_err() {
        return Err(fail("error", format!("writing to a String fails after `{}`", s)));
    }
    let o = v.to_usi_owned();
    if o != s {
        return Err(fail("owned", format!("owned `{}`, streamed `{}`", o, s)));
    }
    Ok(s)
}

pub fn c08(cx: &mut Ctx, case: u64) -> R {
    let mut r = cx.rng.clone();
    if case == 0 {
        for c in 1..=2u8 {
            let s = usi(&color(c))?;
            ck!(s == if c == 1 { "b" } else { "w" }, "color", "colour {c} is `{s}`");
            cx.saw(fnv(s.as_bytes()));
        }
        let mut seen = HashMap::new();
        for i in 1..=81u8 {
            let s = usi(&sq(i))?;
            ck!(s == sq_usi(i), "square", "square {i} is `{s}`, should be `{}`", sq_usi(i));
            ck!(seen.insert(s.clone(), i).is_none(), "square_same", "two squares are `{s}`");
            cx.saw(fnv(s.as_bytes()));
        }
        let mut seen = HashMap::new();
        for k in 1..=14u8 {
            let s = usi(&kind(k))?;
            ck!(s == kind_usi(k), "kind", "kind {k} is `{s}`, should be `{}`", kind_usi(k));
            ck!(seen.insert(s.clone(), k).is_none(), "kind_same", "two kinds are `{s}`");
            cx.saw(fnv(s.as_bytes()) ^ 1);
        }
        let mut seen = HashMap::new();
        for p in all_pieces() {
            let s = usi(&piece(p))?;
            ck!(s == piece_usi(p), "piece", "piece {p} is `{s}`, should be `{}`", piece_usi(p));
            ck!(seen.insert(s.clone(), p).is_none(), "piece_same", "two pieces are `{s}`");
            cx.saw(fnv(s.as_bytes()) ^ 2);
        }
        cx.sample(|| "all colours, squares, kinds and pieces".into());
        return Ok(());
    }
    if case == 1 || (cx.tiny && case % 2 == 1) {
        let mut seen: HashMap<String, Mv> = HashMap::new();
        let stride = if cx.tiny { 701 } else { 1 };
        for mv in Mv::all().into_iter().step_by(stride) {
            let want = mv.usi();
            let s = usi(&to_real(mv))?;
            ck!(s == want, "move", "{mv:?} is `{s}`, should be `{want}`");
            let t = usi(&pack(to_real(mv)))?;
            ck!(t == want, "compact", "packed {mv:?} is `{t}`, should be `{want}`");
            if let Some(o) = seen.insert(s.clone(), mv) {
                let drops = matches!((o, mv), (Mv::D { piece: a, .. }, Mv::D { piece: b, .. }) if a & 15 == b & 15 && a != b);
                ck!(drops, "move_same", "{o:?} and {mv:?} are both `{s}`");
            }
            cx.saw(fnv(s.as_bytes()) ^ mv.packed() as u64);
        }
        cx.sample(|| "all 15390 moves, plain and packed".into());
        return Ok(());
    }
    let mut seen: HashMap<String, [[u8; 7]; 2]> = HashMap::new();
    let systematic = case < 2 + 28 && !cx.tiny;
    for i in 0..if cx.tiny { 6 } else { 256 } {
        let mut h = [[0u8; 7]; 2];
        if systematic {
            // Every count of every kind, alone or with fixed company.
            let j = (case - 2) as usize;
            if case % 2 == 0 {
                h = [[1, 0, 10, 2, 0, 255, 1], [0, 3, 100, 0, 1, 0, 18]];
            }
            h[j / 2 / 7][j / 2 % 7] = i as u8;
        } else {
            for _ in 0..r.pick(&[0, 1, 2, 5, 14, 30]) {
                h[r.usize(2)][r.usize(7)] = gen::hand_count(&mut r);
            }
        }
        let want = M::hands_usi(&h);
        let s = usi(&[hand(&h[0]), hand(&h[1])])?;
        ck!(s == want, "hands", "hands {h:?} are `{s}`, should be `{want}`");
        if let Some(o) = seen.insert(s.clone(), h) {
            ck!(o == h, "hands_same", "hands {o:?} and {h:?} are both `{s}`");
        }
        cx.sample(|| format!("{:?} -> {}", h, want));
        cx.saw(fnv(s.as_bytes()) ^ 3);
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------- C09

#[derive(Clone, Copy, Debug)]
enum When {
    /// From the n-th write on.
    From(usize),
    /// At the n-th write only.
    Once(usize),
    /// A write that would exceed n bytes in all.
    Capacity(usize),
    /// Bytes are taken up to n in all, then the write fails.
    Partial(usize),
}

struct Sink {
    got: Vec<u8>,
    writes: usize,
    failed: bool,
    after: usize,
    when: When,
}

impl Sink {
    fn new(when: When) -> Sink {
        Sink { got: vec![], writes: 0, failed: false, after: 0, when }
    }
    fn attempt(&mut self, b: &[u8]) -> std::fmt::Result {
        if self.failed {
            self.after += 1;
        }
        let n = self.writes;
        self.writes += 1;
        let bad = match self.when {
            When::From(k) => n >= k,
            When::Once(k) => n == k,
            When::Capacity(k) => self.got.len() + b.len() > k,
            When::Partial(k) => {
                if self.got.len() + b.len() > k {
                    let take = k - self.got.len().min(k);
                    self.got.extend_from_slice(&b[..take]);
                    true
                } else {
                    false
                }
            }
        };
        if bad {
            self.failed = true;
            return Err(std::fmt::Error);
        }
        if !matches!(self.when, When::Partial(_)) || !self.failed {
            self.got.extend_from_slice(b);
        }
        Ok(())
    }
}

impl Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.attempt(s.as_bytes())
    }
}

/// The same, for a writer that takes single characters by a path of their own.
struct CharSink(Sink);
impl Write for CharSink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0.attempt(s.as_bytes())
    }
    fn write_char(&mut self, c: char) -> std::fmt::Result {
        self.0.attempt(c.encode_utf8(&mut [0; 4]).as_bytes())
    }
}

fn judge(what: &str, full: &str, res: std::fmt::Result, s: &Sink) -> R {
    ck!(
        res.is_err() == s.failed,
        "report",
        "{} (`{}`) with a sink failing {:?}: reported {:?}, the sink {}",
        what,
        full,
        s.when,
        res,
        if s.failed { "failed" } else { "did not fail" }
    );
    ck!(s.after == 0, "after", "{} (`{}`) with a sink failing {:?}: {} writes after the failure", what, full, s.when, s.after);
    ck!(
        full.as_bytes().starts_with(&s.got),
        "prefix",
        "{} (`{}`) with a sink failing {:?}: the sink has `{}`",
        what,
        full,
        s.when,
        String::from_utf8_lossy(&s.got)
    );
    ck!(
        s.failed || full.as_bytes() == &s.got[..],
        "complete",
        "{} (`{}`) with a sink that did not fail ({:?}): the sink has `{}`",
        what,
        full,
        s.when,
        String::from_utf8_lossy(&s.got)
    );
    Ok(())
}

fn faults(cx: &mut Ctx, what: &str, full: &str, f: &dyn Fn(&mut Sink) -> std::fmt::Result, g: &dyn Fn(&mut CharSink) -> std::fmt::Result) -> R {
    // How many writes there are without a failure.
    let mut s = Sink::new(When::From(usize::MAX));
    let res = f(&mut s);
    judge(what, full, res, &s)?;
    let n = s.writes;
    let mut points: Vec<When> = Vec::new();
    for k in 0..=n {
        points.push(When::From(k));
        points.push(When::Once(k));
    }
    for k in 0..=full.len() {
        points.push(When::Capacity(k));
        points.push(When::Partial(k));
    }
    let step = if cx.tiny { 7 } else { 1 };
    for w in points.into_iter().step_by(step) {
        let mut s = Sink::new(w);
        let res = f(&mut s);
        judge(what, full, res, &s)?;
        cx.count(if s.failed { "failures_injected" } else { "sinks_not_failing" }, 1);
        let mut s = CharSink(Sink::new(w));
        let res = g(&mut s);
        judge(what, full, res, &s.0)?;
        cx.saw(fnv(full.as_bytes()) ^ fnv(format!("{what}{w:?}").as_bytes()));
    }
    cx.count("values", 1);
    Ok(())
}

fn faults_usi<T: ToUsi>(cx: &mut Ctx, what: &str, v: &T, full: &str) -> R {
    faults(cx, what, full, &|s| v.to_usi(s), &|s| v.to_usi(s))
}

pub fn c09(cx: &mut Ctx, case: u64) -> R {
    let mut r = cx.rng.clone();
    match if cx.tiny { case % 4 } else if case < 2 { case } else { 2 + case % 3 } {
        0 => {
            for c in 1..=2 {
                faults_usi(cx, "colour", &color(c), if c == 1 { "b" } else { "w" })?;
            }
            for i in 1..=81 {
                faults_usi(cx, "square", &sq(i), &sq_usi(i))?;
            }
            for k in 1..=14 {
                faults_usi(cx, "kind", &kind(k), kind_usi(k))?;
            }
            for p in all_pieces() {
                faults_usi(cx, "piece", &piece(p), &piece_usi(p))?;
            }
        }
        1 => {
            let step = if cx.tiny { 1999 } else { 7 };
            for mv in Mv::all().into_iter().skip(r.usize(7)).step_by(step) {
                faults_usi(cx, "move", &to_real(mv), &mv.usi())?;
                faults_usi(cx, "packed move", &pack(to_real(mv)), &mv.usi())?;
            }
        }
        2 => {
            for _ in 0..if cx.tiny { 1 } else { 30 } {
                let mut h = [[0u8; 7]; 2];
                for _ in 0..r.pick(&[0, 1, 2, 5, 14, 30]) {
                    h[r.usize(2)][r.usize(7)] = gen::hand_count(&mut r);
                }
                faults_usi(cx, "hands", &[hand(&h[0]), hand(&h[1])], &M::hands_usi(&h))?;
            }
        }
        _ => {
            for _ in 0..if cx.tiny { 1 } else { 6 } {
                let std = r.coin();
                let (m, p) = text_position(&mut r, std);
                let full = m.sfen();
                cx.sample(|| full.clone());
                faults(cx, "SFEN", &full, &|s| p.to_sfen(s), &|s| p.to_sfen(s))?;
            }
        }
    }
    Ok(())
}
