//! C23: one workload over everything a configuration offers, logged. Every line of output is
//! `section chunk events hash`; a chunk's events are printed in full with `dump SECTION CHUNK`.
//! The same lines must come out of every configuration that has the section at all.

#[path = "../gen.rs"]
#[allow(dead_code)]
mod gen;
#[path = "../model.rs"]
#[allow(dead_code)]
mod model;
#[path = "../obs.rs"]
#[allow(dead_code)]
mod obs;
#[path = "../rng.rs"]
#[allow(dead_code)]
mod rng;

use model::*;
use obs::*;
use rng::{mix, Rng};
use shogi_core::c_compat::*;
use shogi_core::*;
use std::fmt::Write;

#[derive(Clone, Copy, PartialEq)]
#[allow(dead_code)]
enum Part {
    Main,
    Order,
    Hash,
}
struct Log {
    hash: u64,
    n: u64,
    dump: bool,
    part: Part,
}
impl Log {
    fn put(&mut self, what: &str, data: &[u8]) {
        self.put_to(Part::Main, what, data);
    }
    /// Orders and hashes are logged apart, for those that have them.
    fn put_to(&mut self, part: Part, what: &str, data: &[u8]) {
        if part != self.part {
            return;
        }
        self.n += 1;
        for &b in what.as_bytes() {
            self.hash = (self.hash ^ b as u64).wrapping_mul(0x100_0000_01b3);
        }
        self.hash = mix(self.hash);
        let mut c = data.chunks_exact(8);
        for w in &mut c {
            self.hash = mix(self.hash ^ u64::from_le_bytes([w[0], w[1], w[2], w[3], w[4], w[5], w[6], w[7]]));
        }
        for &b in c.remainder() {
            self.hash = (self.hash ^ b as u64).wrapping_mul(0x100_0000_01b3);
        }
        self.hash = mix(self.hash ^ data.len() as u64);
        if self.dump {
            let mut s = String::new();
            for b in data {
                let _ = write!(s, "{b:02x}");
            }
            println!("{what} {s}");
        }
    }
    fn text(&mut self, what: &str, f: impl FnOnce(&mut String) -> bool) {
        let mut s = String::new();
        let ok = f(&mut s);
        s.push(if ok { '.' } else { '!' });
        self.put(what, s.as_bytes());
    }
}

fn o(s: Option<Square>) -> u8 {
    s.map_or(0, |s| s.index())
}
fn op(p: Option<Piece>) -> u8 {
    p.map_or(0, |s| s.as_u8())
}
fn ok(p: Option<PieceKind>) -> u8 {
    p.map_or(0, |s| s as u8)
}
fn okc(p: OptionPieceKind) -> u8 {
    ok(p.into())
}

fn values(l: &mut Log, chunk: u64, r: &mut Rng) {
    match chunk {
        0 => {
            for a in 0..=255u8 {
                l.put("from_u8", &[o(Square::from_u8(a)), osq_u8(Square::Square_from_u8(a)), ok(PieceKind::from_u8(a)), okc(PieceKind::PieceKind_from_u8(a)), IllegalMoveKind::from_u8(a).map_or(99, |x| x as u8)]);
                for b in 0..=255u8 {
                    let v: Vec<u8> = [Color::Black, Color::White].iter().flat_map(|&c| [o(Square::new_relative(a, b, c)), osq_u8(Square::Square_new_relative(a, b, c))]).collect();
                    l.put("new", &[o(Square::new(a, b)), osq_u8(Square::Square_new(a, b)), v[0], v[1], v[2], v[3]]);
                }
            }
            l.put("all", &Square::all().map(|s| s.index()).collect::<Vec<_>>());
            l.put("all", &Piece::all().map(|s| s.as_u8()));
            l.put("all", &PieceKind::all().map(|s| s as u8));
            l.put("all", &Color::all().map(|s| s as u8));
            l.put("all", &Hand::all_hand_pieces().map(|s| s as u8).collect::<Vec<_>>());
            for s in 1..=81 {
                let s = sq(s);
                l.put("square", &[s.file(), s.rank(), s.index(), s.array_index() as u8, s.flip().index(), s.relative_file(Color::White), s.relative_rank(Color::White), s.relative_file(Color::Black), s.relative_rank(Color::Black)]);
                l.text("square", |t| s.to_usi(t).is_ok());
                l.put("square", format!("{s:?}").as_bytes());
            }
            for c in [Color::Black, Color::White] {
                l.put("color", &[c.flip() as u8, c.array_index() as u8]);
                l.text("color", |t| c.to_usi(t).is_ok());
                l.put("color", format!("{c:?}").as_bytes());
            }
            for k in 1..=14 {
                let k = kind(k);
                l.put("kind", &[ok(k.promote()), ok(k.unpromote()), okc(k.PieceKind_promote()), okc(k.PieceKind_unpromote()), k.array_index() as u8, Hand::is_hand_piece(k) as u8, Hand::Hand_is_hand_piece(k) as u8]);
                l.text("kind", |t| k.to_usi(t).is_ok());
                l.put("kind", format!("{k:?}").as_bytes());
            }
            for p in all_pieces() {
                let p = piece(p);
                l.put("piece", &[p.as_u8(), p.piece_kind() as u8, p.color() as u8, op(p.promote()), op(p.unpromote()), opiece_u8(p.Piece_promote()), opiece_u8(p.Piece_unpromote())]);
                l.text("piece", |t| p.to_usi(t).is_ok());
                l.put("piece", format!("{p:?} {:?}", p.to_parts()).as_bytes());
            }
            for g in [GameResolution::BlackWins, GameResolution::WhiteWins, GameResolution::Draw, GameResolution::Aborted] {
                let og: OptionGameResolution = Some(g).into();
                let mut p = PartialGame::default();
                l.put("game", format!("{g:?} {og:?} {:?} {:?}", p.resolution(), p.PartialGame_resolution()).as_bytes());
                p.resolve(g);
                l.put("game", format!("{:?} {:?} {}", p.resolution(), p.PartialGame_resolution(), p == PartialGame::default()).as_bytes());
                p.unresolve();
                l.put("game", format!("{:?} {}", p.resolution(), p == PartialGame::default()).as_bytes());
            }
            for a in 0..=8 {
                if let Some(i) = IllegalMoveKind::from_u8(a) {
                    let x: ResultUnitIllegalMoveKind = Err(i).into();
                    let y: Result<(), IllegalMoveKind> = x.into();
                    l.put("illegal", format!("{i:?} {x:?} {y:?}").as_bytes());
                }
            }
        }
        1 => {
            for s in 1..=81 {
                let s = sq(s);
                let mut v = vec![];
                for a in i8::MIN..=i8::MAX {
                    for b in -16..=16i8 {
                        v.push(o(s.shift(a, b)));
                        v.push(osq_u8(s.Square_shift(b, a)));
                    }
                }
                l.put("shift", &v);
            }
        }
        2 => {
            for m in Mv::all() {
                let x = to_real(m);
                let c = pack(x);
                l.put("move", format!("{:?} {:?} {:?} {:?} {} {} {} {:?}", c, x.from(), x.to(), c.from(), x.is_promoting(), c.is_drop(), c.is_promoting(), c.to()).as_bytes());
                l.put("move", &[osq_u8(c.CompactMove_from()), (<Move as From<CompactMove>>::from(c) == x) as u8]);
                l.text("move", |t| x.to_usi(t).is_ok());
            }
        }
        _ => {
            let mut h = Hand::new();
            for _ in 0..3000 {
                let k = kind(1 + r.below(14) as u8);
                match r.below(5) {
                    0 | 1 => h = h.added(k).unwrap_or(h),
                    2 => h = h.removed(k).unwrap_or(h),
                    3 => {
                        let b = h.Hand_add(k);
                        l.put("hand", &[b as u8]);
                    }
                    _ => {
                        let b = h.Hand_remove(k);
                        l.put("hand", &[b as u8]);
                    }
                }
                if r.pct(3) {
                    h = hand(&[0; 7].map(|_: u8| gen::hand_count(r)));
                }
                let v: Vec<u8> = (1..=14).flat_map(|k| [h.count(kind(k)).map_or(0xee, |n| n), h.count(kind(k)).is_some() as u8, h.Hand_count(kind(k))]).collect();
                l.put("hand", &v);
            }
        }
    }
}

fn sets(l: &mut Log, _chunk: u64, r: &mut Rng) {
    const FULL: u128 = ((1 << 18) - 1) << 64 | ((1 << 63) - 1);
    let raw = |b: Bitboard| b.to_u128().to_le_bytes();
    let mut pool = [Bitboard::empty(), !Bitboard::empty(), Bitboard::single(sq(1)), Bitboard::single(sq(81))];
    for i in 0..600 {
        let m = r.u128();
        let k = r.u128();
        let m = match r.below(4) {
            0 => m,
            1 => m & k,
            2 => m | k,
            _ => m & k & r.u128(),
        } & FULL;
        // A set by its documented representation.
        let a = if r.pct(70) { unsafe { Bitboard::from_u128_unchecked(m) } } else { pool[i % 4] };
        let b = pool[r.usize(4)];
        l.put("raw", &raw(a));
        for x in [a & b, a | b, a ^ b, !a, a.and(b), a.or(b), a.xor(b), a.andnot(b), a.flip(), a.flip().flip()] {
            l.put("op", &raw(x));
        }
        for x in [Bitboard::Bitboard_bitand(a, b), Bitboard::Bitboard_bitor(a, b), Bitboard::Bitboard_bitxor(a, b)] {
            l.put("c_op", &raw(x));
        }
        let mut x = a;
        x &= b;
        l.put("assign", &raw(x));
        x |= a;
        l.put("assign", &raw(x));
        x ^= b;
        l.put("assign", &raw(x));
        Bitboard::Bitboard_bitor_assign(&mut x, b);
        Bitboard::Bitboard_bitand_assign(&mut x, a);
        Bitboard::Bitboard_bitxor_assign(&mut x, b);
        l.put("assign", &raw(x));
        for d in 1..=8u8 {
            let v = unsafe { [a.shift_down(d), a.shift_up(d), a.shift_left(d), a.shift_right(d)] };
            for x in v {
                l.put("shift", &raw(x));
            }
        }
        for f in 1..=9u8 {
            let g = unsafe { a.get_file_unchecked(f) };
            l.put("file", &g.to_le_bytes());
            l.put("file", &raw(unsafe { Bitboard::from_file_unchecked(f, g) }));
        }
        let (sa, sb) = (a.swap_bytes(), b.swap_bytes());
        for x in [sa, sa.and(sb), sa.or(sb), sa.xor(sb), sa.andnot(sb)] {
            l.put("swapped", &x.to_u128().to_le_bytes());
            l.put("swapped", &raw(x.swap_bytes()));
        }
        let mut v = vec![a.count(), a.is_empty() as u8, (a == b) as u8];
        v.extend((1..=81).map(|s| a.contains(sq(s)) as u8));
        let mut it = a;
        v.extend(it.by_ref().take(1 + i % 5).map(|s| s.index()));
        v.push(o(it.pop()));
        v.push(osq_u8(it.Bitboard_pop()));
        v.extend(it.map(|s| s.index()));
        l.put("members", &v);
        l.put("debug", format!("{a:?} {sa:?}").as_bytes());
        pool[r.usize(4)] = if r.coin() { a } else { a & b };
    }
}

fn log_position(l: &mut Log, p: &PartialPosition, buf: &mut Vec<u8>) {
    everything(p, buf);
    l.put("everything", buf);
    let mut c = [0xaau8; 256];
    unsafe { p.to_sfen_c(c.as_mut_ptr()) };
    l.put("sfen_c", &c);
}

fn positions(l: &mut Log, _chunk: u64, r: &mut Rng) {
    let mut buf = vec![];
    for _ in 0..6 {
        let mut m = gen::position(r);
        let mut p = build(&m);
        let q = p.clone();
        for i in 0..60 {
            log_position(l, &p, &mut buf);
            if r.pct(85) {
                let mv = gen::attempt(r, &m, 85);
                let did = if r.coin() { p.make_move(to_real(mv)).is_some() } else { p.make_compact_move(pack(to_real(mv))) };
                l.put("make_move", format!("{mv:?} {did}").as_bytes());
            } else {
                match r.below(5) {
                    0 => p.piece_set(sq(1 + r.below(81) as u8), opiece(if r.coin() { 0 } else { r.pick(&all_pieces()) })),
                    1 => p.side_to_move_set(color(1 + r.below(2) as u8)),
                    2 => {
                        let b = p.ply_set(if r.pct(10) { 0 } else { gen::ply(r) });
                        l.put("ply_set", &[b as u8]);
                    }
                    3 => {
                        let h = p.hand_of_a_player_mut(color(1 + r.below(2) as u8));
                        let b = h.Hand_add(kind(1 + r.below(14) as u8));
                        l.put("add", &[b as u8]);
                    }
                    _ => *p.hand_of_a_player_mut(color(1 + r.below(2) as u8)) = hand(&[0; 7].map(|_: u8| gen::hand_count(r))),
                }
            }
            // What to try next goes by what is seen: a difference may lead the runs apart, which is
            // all the better seen then.
            m = observe(&p);
            if i % 10 == 0 {
                l.put("equal", &[(p == q) as u8, (p == p.clone()) as u8]);
                l.put("debug", format!("{p:?}").as_bytes());
            }
        }
    }
    let mut c = std::mem::MaybeUninit::uninit();
    PartialPosition::PartialPosition_startpos(&mut c);
    log_position(l, &unsafe { c.assume_init() }, &mut buf);
    log_position(l, &PartialPosition::default(), &mut buf);
    log_position(l, &PartialPosition::empty(), &mut buf);
}

/// A checker whose verdicts follow from the arguments.
struct Judge(u64);
impl Judge {
    fn of(&self, p: &PartialPosition, x: u64) -> u64 {
        let mut b = vec![];
        everything(p, &mut b);
        let h = b.iter().fold(self.0, |h, &b| mix(h ^ b as u64));
        mix(h ^ x)
    }
}
const STATUS: [PositionStatus; 5] = [PositionStatus::InProgress, PositionStatus::BlackWins, PositionStatus::WhiteWins, PositionStatus::Draw, PositionStatus::Invalid];
impl LegalityChecker for Judge {
    #[cfg(feature = "alloc")]
    fn status(&self, p: &Position) -> PositionStatus {
        let n = self.of(p.inner(), p.moves().len() as u64);
        STATUS[if n % 3 > 0 { 0 } else { n as usize % 5 }]
    }
    fn status_partial(&self, p: &PartialPosition) -> PositionStatus {
        STATUS[self.of(p, 1) as usize % 5]
    }
    fn is_legal_partial(&self, p: &PartialPosition, mv: Move) -> Result<(), IllegalMoveKind> {
        let n = self.of(p, from_real(mv).packed() as u64);
        if observe(p).sensible(from_real(mv)) && n % 3 != 0 {
            Ok(())
        } else {
            Err(IllegalMoveKind::IncorrectMove)
        }
    }
    fn is_legal_partial_lite(&self, p: &PartialPosition, mv: Move) -> bool {
        self.is_legal_partial(p, mv).is_ok()
    }
    #[cfg(feature = "alloc")]
    fn all_legal_moves_partial(&self, p: &PartialPosition) -> Vec<Move> {
        Mv::all().into_iter().step_by(1 + self.of(p, 2) as usize % 3000).map(to_real).collect()
    }
    fn normal_from_candidates(&self, p: &PartialPosition, _: Square) -> Bitboard {
        p.vacant_bitboard()
    }
    fn normal_to_candidates(&self, p: &PartialPosition, _: Square, x: Piece) -> Bitboard {
        p.piece_bitboard(x)
    }
    fn drop_candidates(&self, p: &PartialPosition, _: Piece) -> Bitboard {
        p.vacant_bitboard()
    }
}

fn legality(l: &mut Log, _chunk: u64, r: &mut Rng) {
    for _ in 0..40 {
        let m = gen::position(r);
        let p = build(&m);
        let j = Judge(r.next());
        let mv = to_real(gen::attempt(r, &m, 70));
        l.put("partial", format!("{:?} {:?} {}", j.status_partial(&p), j.is_legal_partial(&p, mv), j.is_legal_partial_lite(&p, mv)).as_bytes());
    }
}

#[cfg(feature = "alloc")]
fn records(l: &mut Log, _chunk: u64, r: &mut Rng) {
    let mut buf = vec![];
    for i in 0..6 {
        let m = gen::position(r);
        let mut g = if i == 0 { Position::startpos() } else { Position::arbitrary_position(build(&m)) };
        let mut m = observe(g.inner());
        let j = Judge(r.next());
        for _ in 0..60 {
            everything_record(&g, &mut buf);
            l.put("everything", &buf);
            let mv = gen::attempt(r, &m, 85);
            let x = to_real(mv);
            let s = match r.below(3) {
                0 => format!("{:?}", g.make_move(x)),
                1 => format!("{:?}", g.make_compact_move(pack(x))),
                _ => format!("{:?}", j.make_move(&mut g, x)),
            };
            l.put("make_move", s.as_bytes());
            l.put("legality", format!("{:?} {} {:?} {}", j.is_legal(&g, x), j.is_legal_lite(&g, x), j.status(&g), j.all_legal_moves(&g).len()).as_bytes());
            l.put("usi", x.to_usi_owned().as_bytes());
            if r.pct(10) {
                g.piece_set(sq(1 + r.below(81) as u8), opiece(if r.coin() { 0 } else { r.pick(&all_pieces()) }));
            }
            if r.pct(5) {
                *g.hand_of_a_player_mut(color(1 + r.below(2) as u8)) = hand(&[0; 7].map(|_: u8| gen::hand_count(r)));
            }
            let mut c = [0xaau8; 256];
            unsafe { g.to_sfen_c(c.as_mut_ptr()) };
            l.put("sfen_c", &c);
            m = observe(g.inner());
        }
        l.put("moves", format!("{:?}", g.moves()).as_bytes());
        l.put("moves", &pack_all(&g));
        everything(g.initial_position(), &mut buf);
        l.put("initial", &buf);
        l.put("equal", &[(g == g.clone()) as u8, (g == Position::startpos()) as u8, (g == Position::default()) as u8]);
        l.put("debug", format!("{g:?} {:?}", Game::default()).as_bytes());
        let p = Position::Position_startpos();
        everything_record(unsafe { &*p }, &mut buf);
        l.put("startpos", &buf);
        unsafe { Position::Position_destruct(p) };
        let mut game = Game::default();
        for x in [GameResolution::BlackWins, GameResolution::Draw, GameResolution::Aborted, GameResolution::WhiteWins] {
            game.resolve(x);
            l.put("game", format!("{:?} {:?} {}", game.resolution(), game.Game_resolution(), game.position().to_sfen_owned()).as_bytes());
            if r.coin() {
                game.unresolve();
                l.put("game", format!("{:?} {:?}", game.resolution(), game.Game_resolution()).as_bytes());
            }
        }
    }
    for v in [Color::Black.to_usi_owned(), PieceKind::ProRook.to_usi_owned(), piece(30).to_usi_owned(), sq(81).to_usi_owned()] {
        l.put("usi", v.as_bytes());
    }
}
#[cfg(feature = "alloc")]
fn pack_all(g: &Position) -> Vec<u8> {
    g.moves().iter().flat_map(|&m| from_real(m).packed().to_le_bytes()).collect()
}

#[cfg(feature = "experimental")]
fn experimental(l: &mut Log, _chunk: u64, _r: &mut Rng) {
    l.put("num", &[Piece::NUM as u8, PieceKind::OPTION_NUM as u8, PieceKind::option_array_index(None) as u8]);
    for p in all_pieces() {
        l.put("index", &[piece(p).array_index() as u8]);
    }
    for k in 1..=14 {
        l.put("index", &[PieceKind::option_array_index(Some(kind(k))) as u8]);
    }
}

#[cfg(any(feature = "ord", feature = "hash"))]
fn pool(r: &mut Rng) -> Vec<PartialPosition> {
    let mut v = vec![];
    for _ in 0..4 {
        let m = gen::position(r);
        let p = build(&m);
        for _ in 0..4 {
            let mut q = p.clone();
            let n = r.below(3);
            for _ in 0..n {
                if let Some(mv) = gen::sensible(r, &observe(&q)) {
                    q.make_move(to_real(mv));
                }
            }
            if r.coin() {
                let _ = q.ply_set(gen::ply(r));
            }
            v.push(q);
        }
        v.push(p);
    }
    v
}

#[cfg(feature = "ord")]
fn order(l: &mut Log, _chunk: u64, r: &mut Rng) {
    let v = pool(r);
    for a in &v {
        for b in &v {
            l.put("position", format!("{:?} {:?} {}", a.cmp(b), a.partial_cmp(b), a < b).as_bytes());
            l.put("hand", format!("{:?}", a.hand_of_a_player(Color::Black).cmp(&b.hand_of_a_player(Color::White))).as_bytes());
            l.put("set", format!("{:?}", Ord::cmp(&a.vacant_bitboard(), &b.vacant_bitboard())).as_bytes());
            l.put("set", format!("{:?}", a.vacant_bitboard().swap_bytes().cmp(&b.vacant_bitboard().swap_bytes())).as_bytes());
            l.put("move", format!("{:?} {:?}", a.last_move().cmp(&b.last_move()), a.last_compact_move().cmp(&b.last_compact_move())).as_bytes());
        }
    }
    let all = Piece::all();
    for a in all {
        for b in all {
            l.put("piece", format!("{:?} {:?} {:?}", a.cmp(&b), a.piece_kind().cmp(&b.piece_kind()), a.color().cmp(&b.color())).as_bytes());
        }
    }
    for a in 1..=81 {
        l.put("square", format!("{:?}", sq(a).cmp(&sq(41))).as_bytes());
    }
}

#[cfg(feature = "hash")]
fn hashing(l: &mut Log, _chunk: u64, r: &mut Rng) {
    use std::hash::{Hash, Hasher};
    struct H(u64);
    impl Hasher for H {
        fn write(&mut self, b: &[u8]) {
            for &b in b {
                self.0 = mix(self.0 ^ b as u64);
            }
        }
        fn finish(&self) -> u64 {
            self.0
        }
    }
    fn h<T: Hash>(t: &T) -> u64 {
        let mut h = H(1);
        t.hash(&mut h);
        h.finish()
    }
    // Only which hashes agree: what is hashed is the compiler's business.
    let v = pool(r);
    for a in &v {
        for b in &v {
            l.put("position", &[(h(a) == h(b)) as u8, (h(&a.hand_of_a_player(Color::Black)) == h(&b.hand_of_a_player(Color::Black))) as u8, (h(&a.last_move()) == h(&b.last_move())) as u8, (h(&a.vacant_bitboard()) == h(&b.vacant_bitboard())) as u8]);
        }
    }
    for a in 1..=81 {
        l.put("square", &[(h(&sq(a)) == h(&sq(41))) as u8]);
    }
    for a in Piece::all() {
        for b in Piece::all() {
            l.put("piece", &[(h(&a) == h(&b)) as u8, (h(&a.piece_kind()) == h(&b.piece_kind())) as u8]);
        }
    }
}

/// Values next to each other: what is equal, and (where there are orders and hashes) what comes
/// first and what hashes alike, is the same everywhere.
fn neighbours(r: &mut Rng) -> Vec<PartialPosition> {
    let m = gen::position(r);
    let p = build(&m);
    let mut v = vec![p.clone(), p.clone()];
    for i in 0..16 {
        let mut q = p.clone();
        let _ = q.ply_set(p.ply() ^ 1 << i);
        v.push(q);
    }
    for c in Color::all() {
        for k in Hand::all_hand_pieces() {
            for n in [1usize, 2, 16, 64, 128, 255] {
                let mut q = p.clone();
                for _ in 0..n {
                    q.hand_of_a_player_mut(c).Hand_add(k);
                }
                v.push(q);
            }
        }
    }
    for i in 1..=81 {
        let mut q = p.clone();
        q.piece_set(sq(i), opiece(if i % 3 == 0 { 0 } else { all_pieces()[i as usize % 28] }));
        v.push(q);
    }
    let mut q = p.clone();
    q.side_to_move_set(q.side_to_move().flip());
    v.push(q);
    for _ in 0..6 {
        let mut q = p.clone();
        if let Some(mv) = gen::sensible(r, &m) {
            q.make_move(to_real(mv));
        }
        v.push(q.clone());
        // The same but for the last move.
        let mut m = observe(&q);
        m.last = observe(&p).last;
        v.push(build(&m));
    }
    v
}

macro_rules! compare {
    ($l:expr, $name:expr, $a:expr, $b:expr) => {{
        let (a, b) = (&$a, &$b);
        $l.put($name, &[(a == b) as u8, (a != b) as u8, (a.clone() == *b) as u8]);
        #[cfg(feature = "hash")]
        if $l.part == Part::Hash {
            $l.put_to(Part::Hash, $name, &[(plain_hash(a) == plain_hash(b)) as u8]);
        }
    }};
}
#[cfg(feature = "hash")]
fn plain_hash<T: std::hash::Hash>(t: &T) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// Things that happen at one value or at one length only.
fn limits(l: &mut Log, chunk: u64, r: &mut Rng) {
    let mut buf = vec![];
    match chunk {
        0 => {
            for k in 1..=14 {
                let k = kind(k);
                let mut h = Hand::new();
                let mut g = hand(&[7; 7]);
                for n in 0..520 {
                    let (a, b) = (h.removed(k), h.added(k));
                    let mut c = g;
                    let (x, y) = (c.Hand_remove(k), g.Hand_add(k));
                    let mut v = vec![a.is_some() as u8, b.is_some() as u8, x as u8, y as u8];
                    for h in [a.unwrap_or(h), b.unwrap_or(h), c, g] {
                        for k in 1..=14 {
                            v.extend([h.count(kind(k)).map_or(0xee, |n| n), h.Hand_count(kind(k))]);
                        }
                    }
                    l.put("hand", &v);
                    if n < 300 {
                        l.text("hands", |t| [h, g].to_usi(t).is_ok());
                        l.text("hands", |t| [g, h].to_usi(t).is_ok());
                    }
                    h = b.unwrap_or(h);
                }
                for _ in 0..600 {
                    let x = h.removed(k);
                    l.put("removed", &[x.is_some() as u8, x.unwrap_or(h).Hand_count(k), g.Hand_remove(k) as u8, g.Hand_count(k)]);
                    h = x.unwrap_or(h);
                }
                l.put("hand", format!("{h:?} {g:?}").as_bytes());
            }
        }
        1 => {
            let mut p = PartialPosition::startpos();
            let mut n = 0u16;
            loop {
                l.put("ply", &[p.ply_set(n) as u8, p.ply() as u8, (p.ply() >> 8) as u8]);
                l.text("ply", |t| p.to_sfen(t).is_ok());
                if n.count_ones() < 2 || n.count_zeros() < 2 {
                    log_position(l, &p, &mut buf);
                }
                // Next to the ends of all numbers of digits and bits, all; elsewhere some.
                let near = n < 1100 || n % 1000 < 3 || n % 1000 > 996 || n % 256 > 253 || n % 256 < 2;
                match n.checked_add(if near { 1 } else { 1 + r.below(3) as u16 }) {
                    Some(m) => n = m,
                    None if n < 65535 => n = 65535,
                    None => break,
                }
            }
        }
        2 => {
            // A sink with so much room.
            struct Sink(usize, String);
            impl Write for Sink {
                fn write_str(&mut self, s: &str) -> std::fmt::Result {
                    if s.len() > self.0 {
                        return Err(std::fmt::Error);
                    }
                    self.0 -= s.len();
                    self.1.push_str(s);
                    Ok(())
                }
            }
            for i in 0..12 {
                let m = if i == 0 { gen::standard(r) } else { gen::position(r) };
                let p = build(&m);
                for room in 0..260 {
                    let mut t = Sink(room, String::new());
                    let x = p.to_sfen(&mut t).is_ok();
                    l.put("sink", &[x as u8]);
                    l.put("sink", t.1.as_bytes());
                    if room < 40 {
                        let h = [p.hand_of_a_player(Color::Black), p.hand_of_a_player(Color::White)];
                        let mv = to_real(gen::any(r));
                        let mut t = Sink(room, String::new());
                        let x = h.to_usi(&mut t).is_ok() as u8;
                        let y = mv.to_usi(&mut t).is_ok() as u8;
                        let z = pack(mv).to_usi(&mut t).is_ok() as u8;
                        l.put("sink", &[x, y, z]);
                        l.put("sink", t.1.as_bytes());
                    }
                }
            }
        }
        3 => {
            for s in 1..=81 {
                let s = sq(s);
                let mut v = Vec::with_capacity(1 << 16);
                for a in i8::MIN..=i8::MAX {
                    for b in i8::MIN..=i8::MAX {
                        v.push(o(s.shift(a, b)));
                    }
                    v.extend([i8::MIN, -100, 100, i8::MAX].map(|b| osq_u8(s.Square_shift(a, b))));
                }
                l.put("shift", &v);
            }
        }
        4 => {
            const FULL: u128 = ((1 << 18) - 1) << 64 | ((1 << 63) - 1);
            for i in 0..300u64 {
                let m = [0, FULL, 1 << r.below(63), FULL ^ 1 << r.below(63), r.u128() & FULL, r.u128() & r.u128() & r.u128() & r.u128() & FULL][(i % 6) as usize];
                let a = unsafe { Bitboard::from_u128_unchecked(m) };
                let mut v = vec![o(a.last()), o(a.max_by_key(|s| s.index())), o(a.min_by_key(|s| s.array_index())), Iterator::count(a) as u8, a.fold(0, |x: u8, s| x.wrapping_mul(3).wrapping_add(s.index()))];
                for k in [0usize, 1, 2, 17, 79, 80, 81, 82, 1 << 40, usize::MAX] {
                    let mut b = a;
                    v.push(o(b.nth(k)));
                    v.extend(b.map(|s| s.index()));
                    v.push(0);
                    v.extend(a.skip(k).map(|s| s.index()));
                    v.push(0);
                    v.extend(a.step_by(k.min(1000) + 1).map(|s| s.index()));
                    v.push(0);
                }
                let mut b = a;
                v.push(o(b.find(|s| s.index() > 40)));
                v.push(b.position(|s| s.index() % 9 == 8).map_or(99, |n| n as u8));
                v.push(b.any(|s| s.file() == 7) as u8);
                v.push(b.all(|s| s.rank() != 9) as u8);
                let (lo, hi) = b.size_hint();
                v.extend([lo as u8, hi.map_or(255, |n| n.min(254) as u8), b.count()]);
                v.push(b.take(5).chain(a.filter(|s| s.index() % 2 == 0)).count() as u8);
                let (x, y): (Vec<Square>, Vec<Square>) = a.partition(|s| s.index() % 3 == 0);
                v.extend(x.iter().chain(&y).map(|s| s.index()));
                l.put("iterator", &v);
                for d in [0u8, 9] {
                    for x in unsafe { [a.shift_down(d), a.shift_up(d), a.shift_left(d), a.shift_right(d)] } {
                        l.put("shift", &x.to_u128().to_le_bytes());
                    }
                }
                let mut x = a;
                for _ in 0..3 {
                    let s = sq(1 + r.below(81) as u8);
                    x ^= s;
                    l.put("square", &[x.contains(s) as u8, x.count()]);
                    x |= s;
                    l.put("square", &x.to_u128().to_le_bytes());
                    x &= Bitboard::single(s);
                    l.put("square", &x.to_u128().to_le_bytes());
                    x = x ^ a;
                }
            }
        }
        5 => {
            for _ in 0..3 {
                let v = neighbours(r);
                for (i, a) in v.iter().enumerate() {
                    for b in &v[..i + 1] {
                        compare!(l, "position", *a, *b);
                        #[cfg(feature = "ord")]
                        l.put_to(Part::Order, "order", &[a.cmp(b) as u8, b.cmp(a) as u8, (a < b) as u8, (a >= b) as u8]);
                    }
                    let b = &v[r.usize(v.len())];
                    compare!(l, "hand", a.hand_of_a_player(Color::Black), b.hand_of_a_player(Color::White));
                    compare!(l, "move", a.last_move(), b.last_move());
                    compare!(l, "move", a.last_compact_move(), b.last_compact_move());
                    compare!(l, "set", a.vacant_bitboard(), b.vacant_bitboard());
                    let mut c = b.clone();
                    c.clone_from(a);
                    compare!(l, "copy", c, *a);
                }
            }
        }
        6 => {
            const G: [GameResolution; 5] = [GameResolution::BlackWins, GameResolution::WhiteWins, GameResolution::Draw, GameResolution::Rematch, GameResolution::Aborted];
            let mut games: Vec<PartialGame> = vec![PartialGame::default(); 6];
            for i in 0..5 {
                games[i].resolve(G[i]);
            }
            for (i, a) in games.iter().enumerate() {
                for b in &games {
                    compare!(l, "game", *a, *b);
                    compare!(l, "game", a.PartialGame_resolution(), b.PartialGame_resolution());
                    #[cfg(feature = "ord")]
                    l.put_to(Part::Order, "order", &[a.cmp(b) as u8, a.PartialGame_resolution().cmp(&b.PartialGame_resolution()) as u8, a.resolution().cmp(&b.resolution()) as u8]);
                }
                if i < 5 {
                    compare!(l, "resolution", G[i], G[(i + 1) % 5]);
                    l.put("game", format!("{:?} {} {:?}", a, G[i] as u8, a.position().ply()).as_bytes());
                }
            }
            for a in 0..=10u8 {
                for b in 0..=10u8 {
                    let (x, y) = (IllegalMoveKind::from_u8(a), IllegalMoveKind::from_u8(b));
                    let (rx, ry): (ResultUnitIllegalMoveKind, ResultUnitIllegalMoveKind) = (x.into(), y.into());
                    compare!(l, "reason", x, y);
                    compare!(l, "reason", rx, ry);
                    #[cfg(feature = "ord")]
                    l.put_to(Part::Order, "order", &[x.cmp(&y) as u8, rx.cmp(&ry) as u8]);
                }
            }
            for a in 0..=31u8 {
                for b in 0..=31u8 {
                    let f = |a: u8| if a & 15 == 0 || a & 15 == 15 { 0 } else { a };
                    let (x, y) = (opiece(f(a)), opiece(f(b)));
                    let (p, q): (OptionPiece, OptionPiece) = (x.into(), y.into());
                    compare!(l, "piece", x, y);
                    compare!(l, "piece", p, q);
                    let (j, k): (OptionPieceKind, OptionPieceKind) = (x.map(|p| p.piece_kind()).into(), y.map(|p| p.piece_kind()).into());
                    compare!(l, "kind", j, k);
                    #[cfg(feature = "ord")]
                    l.put_to(Part::Order, "order", &[x.cmp(&y) as u8, p.cmp(&q) as u8, j.cmp(&k) as u8]);
                }
            }
            for a in 0..=81u8 {
                for b in 0..=81u8 {
                    let (x, y): (OptionSquare, OptionSquare) = (Square::from_u8(a).into(), Square::from_u8(b).into());
                    compare!(l, "square", x, y);
                    compare!(l, "square", Square::from_u8(a), Square::from_u8(b));
                    #[cfg(feature = "ord")]
                    l.put_to(Part::Order, "order", &[x.cmp(&y) as u8, Square::from_u8(a).cmp(&Square::from_u8(b)) as u8]);
                }
            }
            for _ in 0..20_000 {
                let a = gen::any(r);
                let b = if r.coin() { gen::any(r) } else { Mv::N { from: 1, to: 1, promote: false } };
                let (x, y) = (to_real(a), to_real(b));
                let (p, q): (OptionCompactMove, OptionCompactMove) = (Some(pack(x)).into(), if r.pct(90) { Some(pack(y)) } else { None }.into());
                compare!(l, "move", x, y);
                compare!(l, "move", pack(x), pack(y));
                compare!(l, "move", p, q);
                #[cfg(feature = "ord")]
                l.put_to(Part::Order, "order", &[x.cmp(&y) as u8, pack(x).cmp(&pack(y)) as u8, p.cmp(&q) as u8]);
            }
        }
        _ => {
            // Long games, some of which go round.
            for i in 0..6 {
                let mut g = if i % 2 == 0 { PartialPosition::startpos() } else { build(&gen::position(r)) };
                let mut player = gen::Player::new(r);
                for n in 0..1200 {
                    let m = observe(&g);
                    let mv = player.next(r, &m, 97);
                    let did = if r.coin() { g.make_move(to_real(mv)).is_some() } else { g.make_compact_move(pack(to_real(mv))) };
                    l.put("long", &[did as u8, g.ply() as u8, (g.ply() >> 8) as u8, g.side_to_move() as u8]);
                    if n % 40 == 0 || n > 1190 {
                        log_position(l, &g, &mut buf);
                    }
                }
            }
        }
    }
}

#[cfg(feature = "alloc")]
fn long(l: &mut Log, _chunk: u64, r: &mut Rng) {
    let mut buf = vec![];
    let mut kept: Vec<Position> = vec![];
    for i in 0..5 {
        let mut g = if i % 2 == 0 { Position::startpos() } else { Position::arbitrary_position(build(&gen::position(r))) };
        let mut player = gen::Player::new(r);
        let most = [900, 70, 300, 40, 600][i];
        for n in 0..most {
            let m = observe(g.inner());
            let mv = player.next(r, &m, 97);
            let did = if r.coin() { g.make_move(to_real(mv)).is_some() } else { g.make_compact_move(pack(to_real(mv))) };
            l.put("long", &[did as u8, g.ply() as u8, (g.ply() >> 8) as u8, g.moves().len() as u8, (g.moves().len() >> 8) as u8]);
            if n % 40 == 0 || n + 3 > most {
                everything_record(&g, &mut buf);
                l.put("everything", &buf);
                l.put("sfen", g.to_sfen_owned().as_bytes());
            }
            if (n as u64 + 2).is_power_of_two() || n + 2 > most {
                kept.push(g.clone());
            }
        }
        l.put("moves", &pack_all(&g));
        l.put("debug", format!("{g:?}").as_bytes());
        // Seemingly the same: the same inner position without the history.
        kept.push(Position::arbitrary_position(g.inner().clone()));
        let j = Judge(r.next());
        for _ in 0..5 {
            let x = to_real(gen::attempt(r, &observe(g.inner()), 70));
            l.put("legality", format!("{:?} {} {:?} {}", j.is_legal(&g, x), j.is_legal_lite(&g, x), j.status(&g), j.all_legal_moves(&g).len()).as_bytes());
        }
    }
    for a in &kept {
        for b in &kept {
            compare!(l, "record", *a, *b);
            #[cfg(feature = "ord")]
            l.put_to(Part::Order, "order", &[a.cmp(b) as u8, (a <= b) as u8]);
        }
        let mut c = kept[r.usize(kept.len())].clone();
        c.clone_from(a);
        compare!(l, "copy", c, *a);
        everything_record(&c, &mut buf);
        l.put("everything", &buf);
        l.put("moves", &pack_all(&c));
    }
}

type Section = (&'static str, u64, fn(&mut Log, u64, &mut Rng));

/// What every type must have with these features; whether it does is seen when this is compiled.
#[allow(dead_code)]
fn traits() {
    fn all<T: Clone + std::fmt::Debug + Eq + Send + Sync + Unpin>() {}
    #[cfg(feature = "hash")]
    fn hash<T: std::hash::Hash>() {}
    #[cfg(feature = "ord")]
    fn ord<T: Ord>() {}
    macro_rules! have {
        ($($t:ty),*) => { $(
            all::<$t>();
            #[cfg(feature = "hash")]
            hash::<$t>();
            #[cfg(feature = "ord")]
            ord::<$t>();
        )* };
    }
    have!(
        Color, Square, PieceKind, Piece, Move, CompactMove, Hand, Bitboard, ByteSwappedBitboard, GameResolution, PartialGame, PartialPosition,
        IllegalMoveKind, PositionStatus, OptionPieceKind, OptionPiece, OptionSquare, OptionCompactMove, OptionGameResolution, ResultUnitIllegalMoveKind
    );
    #[cfg(feature = "alloc")]
    have!(Game, Position);
}

fn main() {
    traits();
    let a: Vec<String> = std::env::args().collect();
    let num = |i: usize, d: u64| a.get(i).and_then(|s| s.parse().ok()).unwrap_or(d);
    // digest SEED SCALE | digest SEED SCALE dump SECTION CHUNK
    let seed = num(1, 1);
    let k = num(2, 1);
    let mut sections: Vec<Section> = vec![("values", 3 + k, values), ("sets", 4 * k, sets), ("positions", 16 * k, positions), ("legality", 2 * k, legality), ("limits", 7 + k, limits)];
    #[cfg(feature = "alloc")]
    sections.push(("records", 12 * k, records));
    #[cfg(feature = "alloc")]
    sections.push(("long", k, long));
    #[cfg(feature = "experimental")]
    sections.push(("experimental", 1, experimental));
    #[cfg(feature = "ord")]
    {
        sections.push(("order", 2 * k, order));
        sections.push(("limits_order", 7, limits));
        #[cfg(feature = "alloc")]
        sections.push(("long_order", k, long));
    }
    #[cfg(feature = "hash")]
    {
        sections.push(("hash", 2 * k, hashing));
        sections.push(("limits_hash", 7, limits));
        #[cfg(feature = "alloc")]
        sections.push(("long_hash", k, long));
    }
    sections.retain(|_| true);
    let only = if a.get(3).map(|s| s.as_str()) == Some("dump") { Some((a[4].clone(), num(5, 0))) } else { None };
    std::panic::set_hook(Box::new(|i| eprintln!("PANIC {i}")));
    for (name, n, f) in sections {
        for chunk in 0..n {
            let dump = match &only {
                Some((s, c)) if s == name && *c == chunk => true,
                Some(_) => continue,
                None => false,
            };
            let part = match () {
                _ if name.ends_with("_order") => Part::Order,
                _ if name.ends_with("_hash") => Part::Hash,
                _ => Part::Main,
            };
            if part != Part::Main && name.starts_with("limits") && chunk < 5 {
                continue;
            }
            let mut l = Log { hash: 0xcbf2_9ce4_8422_2325, n: 0, dump, part };
            let mut r = Rng::new(seed, name, chunk);
            let ended = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut l, chunk, &mut r))).is_ok();
            println!("{name} {chunk} {} {:016x}{}", l.n, l.hash, if ended { "" } else { " PANICKED" });
        }
    }
}
