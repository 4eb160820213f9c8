//! C24, third part: one thread is stopped between two instructions of a call, over and over, and each
//! time another thread makes a call on values of its own. Both have to get the answers they get alone.

use crate::ck;
use crate::ctx::{fnv, Ctx, R};
use crate::gen;
use crate::model::*;
use crate::obs::*;
use crate::rng::{mix, Rng};
use shogi_core::*;
use std::cell::Cell;
use std::collections::hash_map::DefaultHasher;
use std::ffi::c_void;
use std::fmt::Write;
use std::hash::{Hash, Hasher};
use std::hint::black_box;
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::SeqCst};
use std::sync::Once;
use std::time::{Duration, Instant};

/// What a call is made on.
struct In {
    m: M,
    rec: Position,
    pos: PartialPosition,
    mv: Move,
    cm: CompactMove,
    a: Bitboard,
    b: Bitboard,
    hand: Hand,
    kind: PieceKind,
    piece: Piece,
    s: Square,
    d: (i8, i8),
    n: u8,
    c: Color,
    game: Game,
}

impl In {
    fn new(seed: u64) -> In {
        let mut r = Rng::new(seed, "in", 0);
        let r = &mut r;
        let mut m = gen::position(r);
        let mut rec = Position::arbitrary_position(build(&m));
        for _ in 0..r.below(7) {
            let mv = gen::attempt(r, &m, 95);
            let _ = rec.make_move(to_real(mv));
            m = observe(rec.inner());
        }
        let mv = to_real(gen::attempt(r, &m, 85));
        let mut game = Game::default();
        if r.coin() {
            game.resolve(r.pick(&[GameResolution::BlackWins, GameResolution::Draw, GameResolution::Aborted]));
        }
        In {
            pos: rec.inner().clone(),
            hand: hand(&m.hands[r.usize(2)]),
            m,
            rec,
            mv,
            cm: mv.into(),
            a: bb(crate::g_bb::some_mask(r)),
            b: bb(crate::g_bb::some_mask(r)),
            kind: kind(1 + r.below(14) as u8),
            piece: piece(r.pick(&all_pieces())),
            s: sq(1 + r.below(81) as u8),
            d: (r.below(19) as i8 - 9, r.below(19) as i8 - 9),
            n: r.below(10) as u8,
            c: color(1 + r.below(2) as u8),
            game,
        }
    }
}

/// Text without allocation.
struct Text(u64, usize);
impl Write for Text {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0 = mix(self.0 ^ fnv(s.as_bytes()));
        self.1 += s.len();
        Ok(())
    }
}
fn text(f: impl FnOnce(&mut Text) -> std::fmt::Result) -> u64 {
    let mut t = Text(1, 0);
    let ok = f(&mut t).is_ok();
    t.0 ^ ok as u64 ^ (t.1 as u64) << 1
}
fn bits(b: Bitboard) -> u64 {
    let v = b.to_u128();
    mix(v as u64) ^ (v >> 64) as u64
}
fn hash<T: Hash>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
/// A little of a position: what its last change touched shows there.
fn glance(p: &PartialPosition) -> u64 {
    let mut h = p.side_to_move() as u64 | (p.ply() as u64) << 8 | (cm_u16(p.last_compact_move()) as u64) << 32;
    for c in Color::all() {
        h = mix(h ^ bits(p.player_bitboard(c)) ^ p.king_position(c).map_or(0, |s| s.index() as u64) << 3);
        h = mix(h ^ fnv(&hand_counts(p.hand_of_a_player(c))));
    }
    for k in [PieceKind::Pawn, PieceKind::ProPawn, PieceKind::Rook, PieceKind::King] {
        h = mix(h ^ bits(p.piece_kind_bitboard(k)));
    }
    h
}

type Probe = (&'static str, fn(&In) -> u64);
const PROBES: &[Probe] = &[
    ("to_sfen", |i| text(|t| i.pos.to_sfen(t))),
    ("to_sfen_owned of a record", |i| fnv(i.rec.to_sfen_owned().as_bytes())),
    ("to_sfen_owned", |i| fnv(i.pos.to_sfen_owned().as_bytes())),
    ("to_sfen_c", |i| {
        let mut b = [0u8; 400];
        unsafe { i.pos.to_sfen_c(b.as_mut_ptr()) };
        fnv(&b)
    }),
    ("make_move", |i| {
        let mut p = i.pos.clone();
        let ok = p.make_move(i.mv).is_some();
        glance(&p) ^ ok as u64
    }),
    ("make_compact_move", |i| {
        let mut p = i.pos.clone();
        let ok = p.make_compact_move(i.cm);
        glance(&p) ^ ok as u64
    }),
    ("make_move on a record", |i| {
        let mut p = i.rec.clone();
        let ok = p.make_move(i.mv).is_some();
        glance(p.inner()) ^ ok as u64 ^ (p.moves().len() as u64) << 7
    }),
    ("make_compact_move on a record", |i| {
        let mut p = i.rec.clone();
        let ok = p.make_compact_move(i.cm);
        glance(p.inner()) ^ ok as u64 ^ (p.moves().len() as u64) << 7 ^ p.moves().last().map_or(0, |&m| from_real(m).packed() as u64) << 20
    }),
    ("piece_set", |i| {
        let mut p = i.pos.clone();
        p.piece_set(i.s, Some(i.piece));
        glance(&p)
    }),
    ("startpos", |i| {
        let mut p = PartialPosition::startpos();
        p.piece_set(i.s, None);
        glance(&p)
    }),
    ("Position::startpos", |i| {
        let p = Position::startpos();
        p.piece_at(i.s).map_or(0, |x| x.as_u8() as u64) ^ glance(p.initial_position())
    }),
    ("Position_startpos", |i| unsafe {
        let p = Position::Position_startpos();
        let mv = Move::Normal { from: Square::SQ_7G, to: Square::SQ_7F, promote: false };
        let ok = (*p).make_move(mv).is_some();
        let h = (*p).piece_at(i.s).map_or(0, |x| x.as_u8() as u64) ^ glance((*p).inner()) ^ ok as u64;
        Position::Position_destruct(p);
        h
    }),
    ("piece_at", |i| i.pos.piece_at(i.s).map_or(0, |x| x.as_u8() as u64) + 256 * opiece_u8(i.rec.Position_piece_at(i.s)) as u64),
    ("hand", |i| i.pos.hand(i.piece).map_or(999, |x| x as u64) + 1000 * i.rec.hand(i.piece).map_or(999, |x| x as u64)),
    ("hand_of_a_player", |i| fnv(&hand_counts(i.pos.hand_of_a_player(i.c)))),
    ("side, ply, last move", |i| i.pos.side_to_move() as u64 ^ (i.pos.ply() as u64) << 8 ^ (cm_u16(i.rec.last_compact_move()) as u64) << 24 ^ i.pos.last_move().map_or(0, |m| from_real(m).packed() as u64) << 40),
    ("player_bitboard", |i| bits(i.pos.player_bitboard(i.c))),
    ("piece_bitboard", |i| bits(i.pos.piece_bitboard(i.piece))),
    ("piece_kind_bitboard", |i| bits(i.pos.piece_kind_bitboard(i.kind))),
    ("occupied and vacant", |i| bits(i.pos.occupied_bitboard()) ^ mix(bits(i.pos.vacant_bitboard()))),
    ("king_position", |i| i.pos.king_position(i.c).map_or(0, |s| s.index() as u64)),
    ("clone", |i| glance(&i.pos.clone())),
    ("clone of a record", |i| {
        let c = i.rec.clone();
        glance(c.inner()) ^ mix(glance(c.initial_position())) ^ c.moves().len() as u64
    }),
    ("comparing", |i| {
        let q = i.rec.initial_position();
        (&i.pos == q) as u64 ^ (i.pos.cmp(q) as i8 as u8 as u64) << 3
    }),
    ("hashing", |i| hash(&i.pos)),
    ("and, or, xor, not", |i| bits(i.a & i.b) ^ mix(bits(i.a | i.b)) ^ mix(1 ^ bits(i.a ^ i.b)) ^ mix(2 ^ bits(!i.a)) ^ mix(4 ^ bits(i.a.andnot(i.b)))),
    ("contains, count", |i| i.a.contains(i.s) as u64 ^ (i.b.count() as u64) << 1 ^ (i.a.is_empty() as u64) << 10),
    ("pop", |i| {
        let mut a = i.a;
        let x = a.pop().map_or(0, |s| s.index() as u64);
        x ^ bits(a)
    }),
    ("iterating", |i| i.a.fold(5, |h, s| mix(h ^ s.index() as u64))),
    ("flip", |i| bits(i.a.flip())),
    ("shift_left", |i| bits(unsafe { i.a.shift_left(i.n) })),
    ("shift_right", |i| bits(unsafe { i.a.shift_right(i.n) })),
    ("shift_up", |i| bits(unsafe { i.a.shift_up(i.n) })),
    ("shift_down", |i| bits(unsafe { i.a.shift_down(i.n) })),
    ("files", |i| bits(unsafe { Bitboard::from_file_unchecked(i.s.file(), i.a.to_u128() as u16 & 0x1ff) }) ^ unsafe { i.b.get_file_unchecked(i.s.file()) } as u64),
    ("swap_bytes", |i| {
        let x = i.a.swap_bytes().xor(i.b.swap_bytes());
        bits(x.swap_bytes()) ^ x.to_u128() as u64
    }),
    ("single", |i| bits(Bitboard::single(i.s))),
    ("hand added", |i| i.hand.added(i.kind).map_or(7, |h| fnv(&hand_counts(h)))),
    ("hand removed", |i| i.hand.removed(i.kind).map_or(7, |h| fnv(&hand_counts(h)))),
    ("hand count", |i| i.hand.count(i.kind).map_or(999, |n| n as u64)),
    ("hand for C", |i| {
        let mut h = i.hand;
        let a = h.Hand_remove(i.kind) as u64;
        let b = h.Hand_add(i.kind) as u64;
        a ^ b << 1 ^ (h.Hand_count(i.kind) as u64) << 2
    }),
    ("Square::shift", |i| i.s.shift(i.d.0, i.d.1).map_or(0, |s| s.index() as u64)),
    ("Square", |i| i.s.file() as u64 ^ (i.s.rank() as u64) << 4 ^ (i.s.relative_file(i.c) as u64) << 8 ^ (i.s.relative_rank(i.c) as u64) << 12 ^ (i.s.flip().index() as u64) << 16 ^ Square::new(i.s.rank(), i.s.file()).map_or(0, |s| s.index() as u64) << 24),
    ("new_relative", |i| Square::new_relative(i.n, i.s.rank(), i.c).map_or(0, |s| s.index() as u64)),
    ("piece", |i| i.piece.promote().map_or(0, |x| x.as_u8() as u64) ^ i.piece.unpromote().map_or(0, |x| (x.as_u8() as u64) << 8) ^ (i.piece.array_index() as u64) << 16 ^ (i.piece.piece_kind() as u64) << 24 ^ (i.piece.color() as u64) << 32 ^ (Piece::new(i.kind, i.c).as_u8() as u64) << 40),
    ("kind", |i| i.kind.promote().map_or(0, |x| x as u64) ^ i.kind.unpromote().map_or(0, |x| x as u64) << 8 ^ (i.kind.array_index() as u64) << 16),
    ("text of a move", |i| text(|t| i.mv.to_usi(t)) ^ mix(text(|t| i.cm.to_usi(t)))),
    ("owned text of a move", |i| fnv(i.mv.to_usi_owned().as_bytes())),
    ("text of hands", |i| text(|t| [i.hand, i.rec.hand_of_a_player(i.c)].to_usi(t))),
    ("text of values", |i| text(|t| i.s.to_usi(t)) ^ mix(text(|t| i.piece.to_usi(t))) ^ mix(3 ^ text(|t| i.kind.to_usi(t))) ^ mix(5 ^ text(|t| i.c.to_usi(t)))),
    ("packing a move", |i| {
        let c: CompactMove = i.mv.into();
        let m: Move = i.cm.into();
        cm_u16(Some(c)) as u64 ^ (from_real(m).packed() as u64) << 16 ^ (c.to().index() as u64) << 32 ^ c.from().map_or(0, |s| s.index() as u64) << 40 ^ (c.is_promoting() as u64) << 48
    }),
    ("a game", |i| {
        let mut g = i.game.clone();
        let a = g.resolution().map_or(0, |x| x as u64);
        g.resolve(GameResolution::WhiteWins);
        let b = g.resolution().map_or(0, |x| x as u64);
        g.unresolve();
        a ^ b << 8 ^ (g.resolution().is_none() as u64) << 16
    }),
    ("conversions", |i| Square::from_u8(i.s.index() ^ 64).map_or(0, |s| s.index() as u64) ^ PieceKind::from_u8(i.n * 2).map_or(0, |k| k as u64) << 8 ^ IllegalMoveKind::from_u8(i.n).map_or(0, |k| k as u64) << 16),
];

/// Between the thread that is stopped and the other one.
struct Link {
    /// 0 and 2: the other may be asked; 1: it has been; 3: it is to end.
    turn: AtomicU32,
    steps: AtomicU64,
    stops: AtomicU64,
    late: AtomicU64,
    busy: AtomicU64,
    stride: u64,
    phase: u64,
}
thread_local! {
    static LINK: Cell<*const Link> = const { Cell::new(std::ptr::null()) };
}
const TF: u64 = 0x100;

extern "C" fn on_trap(_: i32, _: *mut c_void, uc: *mut u8) {
    let l = LINK.with(|l| l.get());
    if l.is_null() {
        // ucontext_t: 40 bytes, then the registers, of which the 18th is the flags.
        unsafe { *(uc.add(40 + 17 * 8) as *mut u64) &= !TF };
        return;
    }
    let l = unsafe { &*l };
    let k = l.steps.fetch_add(1, SeqCst);
    if k % l.stride != l.phase {
        return;
    }
    if l.turn.load(SeqCst) == 1 {
        // Still at it: it waits for what this thread holds.
        l.busy.fetch_add(1, SeqCst);
        return;
    }
    l.turn.store(1, SeqCst);
    let t = Instant::now();
    let mut n = 0u32;
    while l.turn.load(SeqCst) == 1 {
        std::hint::spin_loop();
        n += 1;
        if n % 256 == 0 {
            if t.elapsed() > Duration::from_millis(20) {
                l.late.fetch_add(1, SeqCst);
                return;
            }
            if n % 4096 == 0 {
                std::thread::yield_now();
            }
        }
    }
    l.stops.fetch_add(1, SeqCst);
}

#[repr(C)]
struct Action {
    handler: usize,
    mask: [u64; 16],
    flags: i32,
    restorer: usize,
}
extern "C" {
    fn sigaction(sig: i32, act: *const Action, old: *mut c_void) -> i32;
}
static INSTALL: Once = Once::new();

#[inline(never)]
fn stepped(l: &Link, f: fn(&In) -> u64, i: &In) -> u64 {
    LINK.with(|x| x.set(l));
    let r;
    unsafe {
        std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
        r = black_box(f)(black_box(i));
        std::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq");
    }
    LINK.with(|x| x.set(std::ptr::null()));
    r
}

pub fn step(cx: &mut Ctx, _case: u64) -> R {
    INSTALL.call_once(|| unsafe {
        let a = Action { handler: on_trap as *const () as usize, mask: [0; 16], flags: 4, restorer: 0 };
        if sigaction(5, &a, std::ptr::null_mut()) != 0 {
            panic!("HARNESS: sigaction failed");
        }
    });
    let mut r = cx.rng.clone();
    let ins: Vec<In> = (0..4).map(|_| In::new(r.next())).collect();
    let want: Vec<Vec<u64>> = ins.iter().map(|i| PROBES.iter().map(|p| p.1(i)).collect()).collect();
    for _ in 0..6 {
        let p = r.usize(PROBES.len());
        let x = r.usize(ins.len());
        // What the other thread does meanwhile: mostly the same with other arguments.
        let other: Vec<(usize, usize)> = (0..64).map(|_| (if r.pct(75) { p } else { r.usize(PROBES.len()) }, r.usize(ins.len()))).collect();
        // How many instructions it takes.
        let mut l = Link { turn: AtomicU32::new(0), steps: AtomicU64::new(0), stops: AtomicU64::new(0), late: AtomicU64::new(0), busy: AtomicU64::new(0), stride: u64::MAX, phase: u64::MAX - 1 };
        let got = stepped(&l, PROBES[p].1, &ins[x]);
        let total = l.steps.load(SeqCst);
        if total == 0 {
            panic!("HARNESS: no single steps");
        }
        ck!(got == want[x][p], "stepped", "{} answers differently when executed step by step", PROBES[p].0);
        l.stride = 1 + r.below(1 + total / 150);
        if total < 600 && r.coin() {
            l.stride = 1;
        }
        l.phase = r.below(l.stride);
        l.steps = AtomicU64::new(0);
        let bad = AtomicU64::new(u64::MAX);
        let (got, made) = std::thread::scope(|sc| {
            let (l, bad, other, ins, want) = (&l, &bad, &other, &ins, &want);
            let h = sc.spawn(move || {
                let mut n = 0u64;
                let mut idle = 0u32;
                loop {
                    match l.turn.load(SeqCst) {
                        1 => {
                            idle = 0;
                            let (q, y) = other[n as usize % other.len()];
                            if PROBES[q].1(&ins[y]) != want[y][q] {
                                bad.store((q * 16 + y) as u64, SeqCst);
                            }
                            n += 1;
                            let _ = l.turn.compare_exchange(1, 2, SeqCst, SeqCst);
                        }
                        3 => return n,
                        _ => {
                            idle += 1;
                            std::hint::spin_loop();
                            if idle % 2000 == 0 {
                                std::thread::yield_now();
                            }
                        }
                    }
                }
            });
            let got = stepped(l, PROBES[p].1, &ins[x]);
            l.turn.store(3, SeqCst);
            (got, h.join().map_err(|_| ()))
        });
        let b = bad.load(SeqCst);
        ck!(b == u64::MAX, "preempted", "{} on `{}` answers differently while another thread is in the middle of {} on `{}`", PROBES[b as usize / 16].0, ins[b as usize % 16].m.sfen(), PROBES[p].0, ins[x].m.sfen());
        ck!(got == want[x][p], "preempted", "{} on `{}` answers differently when another thread makes calls between its instructions", PROBES[p].0, ins[x].m.sfen());
        let made = match made {
            Ok(n) => n,
            Err(()) => return Err(crate::ctx::fail("thread_panic", format!("a call panicked while another thread was in the middle of {}", PROBES[p].0))),
        };
        cx.evals += made + 1;
        cx.count("instructions_stepped", total);
        cx.count("stops_between_instructions", l.stops.load(SeqCst));
        cx.count("stops_that_had_to_wait", l.late.load(SeqCst));
        cx.saw(mix(p as u64 * 4096 + l.phase) ^ l.stride << 20);
        cx.sample(|| format!("{}: {} instructions, {} calls of another thread between them", PROBES[p].0, total, made));
        black_box(l.busy.load(SeqCst));
    }
    Ok(())
}
