//! C17: the default methods of `LegalityChecker`, watched through scripted checkers.

use crate::ck;
use crate::ctx::{Ctx, R};
use crate::gen;
use crate::model::*;
use crate::obs::*;
use crate::rng::mix;
use shogi_core::*;
use std::cell::RefCell;

const STATUS: [PositionStatus; 5] = [PositionStatus::BlackWins, PositionStatus::WhiteWins, PositionStatus::Draw, PositionStatus::InProgress, PositionStatus::Invalid];
const KINDS: u8 = 12;

/// A checker that answers from a script: the verdict on a move depends on the move, and it
/// approves only moves that make sense, as the contract demands.
struct Script {
    salt: u64,
    status: PositionStatus,
    /// What a bare position looks like: it knows nothing of repetitions and past illegal moves.
    bare: PositionStatus,
    /// What the checker says about this very record through an overridden `is_legal`.
    own: bool,
    own_ok: bool,
    asked: RefCell<Vec<String>>,
}

impl Script {
    fn reason(&self, mv: Mv) -> IllegalMoveKind {
        let all: Vec<IllegalMoveKind> = (0..=KINDS).filter_map(IllegalMoveKind::from_u8).collect();
        all[(mix(mv.packed() as u64 ^ self.salt) % all.len() as u64) as usize]
    }
    fn likes(&self, p: &PartialPosition, mv: Mv) -> bool {
        observe(p).sensible(mv) && mix(mv.packed() as u64 ^ self.salt ^ 77) % 4 != 0
    }
    /// A second, unrelated opinion, so that mixing up the queries shows.
    fn likes_lite(&self, p: &PartialPosition, mv: Mv) -> bool {
        observe(p).sensible(mv) && mix(mv.packed() as u64 ^ self.salt ^ 99) % 3 != 0
    }
    fn list(&self, p: &PartialPosition) -> Vec<Move> {
        let m = observe(p);
        let mut r = crate::rng::Rng::new(self.salt, "list", 0);
        let mut v: Vec<Move> = (0..r.below(40)).map(|_| to_real(gen::attempt(&mut r, &m, 100))).collect();
        // Now and then a list longer than real ones, with repetitions.
        if !v.is_empty() && r.below(40) == 0 {
            for i in 0..r.pick(&[100, 600, 1100, 3000]) {
                v.push(v[i % 37 % v.len()]);
            }
        }
        v
    }
    fn note(&self, what: &str, sfen: String) {
        self.asked.borrow_mut().push(format!("{what} {sfen}"));
    }
}

/// All there is to know about a record.
fn story(p: &Position) -> String {
    let moves: Vec<String> = p.moves().iter().map(|&m| from_real(m).usi()).collect();
    format!("{} moves {} => {}", p.initial_position().to_sfen_owned(), moves.join(" "), p.to_sfen_owned())
}

struct Plain(Script);
impl LegalityChecker for Plain {
    fn status(&self, position: &Position) -> PositionStatus {
        self.0.note("status", story(position));
        self.0.status
    }
    fn status_partial(&self, position: &PartialPosition) -> PositionStatus {
        self.0.note("status_partial", position.to_sfen_owned());
        self.0.bare
    }
    fn is_legal_partial(&self, position: &PartialPosition, mv: Move) -> Result<(), IllegalMoveKind> {
        self.0.note("is_legal_partial", position.to_sfen_owned());
        let mv = from_real(mv);
        if self.0.likes(position, mv) {
            Ok(())
        } else {
            Err(self.0.reason(mv))
        }
    }
    fn is_legal_partial_lite(&self, position: &PartialPosition, mv: Move) -> bool {
        self.0.note("is_legal_partial_lite", position.to_sfen_owned());
        self.0.likes_lite(position, from_real(mv))
    }
    fn all_legal_moves_partial(&self, position: &PartialPosition) -> Vec<Move> {
        self.0.note("all_legal_moves_partial", position.to_sfen_owned());
        self.0.list(position)
    }
    fn normal_from_candidates(&self, _: &PartialPosition, _: Square) -> Bitboard {
        Bitboard::empty()
    }
    fn normal_to_candidates(&self, _: &PartialPosition, _: Square, _: Piece) -> Bitboard {
        Bitboard::empty()
    }
    fn drop_candidates(&self, _: &PartialPosition, _: Piece) -> Bitboard {
        Bitboard::empty()
    }
}

/// The same, but with a verdict of its own on full records (as a repetition rule would need).
struct Own(Plain);
impl LegalityChecker for Own {
    fn status(&self, position: &Position) -> PositionStatus {
        self.0.status(position)
    }
    fn status_partial(&self, position: &PartialPosition) -> PositionStatus {
        self.0.status_partial(position)
    }
    fn is_legal(&self, position: &Position, mv: Move) -> Result<(), IllegalMoveKind> {
        let mv = from_real(mv);
        self.0 .0.note("is_legal", story(position));
        if self.0 .0.own_ok && observe(position.inner()).sensible(mv) {
            Ok(())
        } else {
            Err(self.0 .0.reason(mv))
        }
    }
    fn is_legal_partial(&self, position: &PartialPosition, mv: Move) -> Result<(), IllegalMoveKind> {
        self.0.is_legal_partial(position, mv)
    }
    fn is_legal_partial_lite(&self, position: &PartialPosition, mv: Move) -> bool {
        self.0.is_legal_partial_lite(position, mv)
    }
    fn all_legal_moves_partial(&self, position: &PartialPosition) -> Vec<Move> {
        self.0.all_legal_moves_partial(position)
    }
    fn normal_from_candidates(&self, p: &PartialPosition, s: Square) -> Bitboard {
        self.0.normal_from_candidates(p, s)
    }
    fn normal_to_candidates(&self, p: &PartialPosition, s: Square, x: Piece) -> Bitboard {
        self.0.normal_to_candidates(p, s, x)
    }
    fn drop_candidates(&self, p: &PartialPosition, x: Piece) -> Bitboard {
        self.0.drop_candidates(p, x)
    }
}

pub fn c17(cx: &mut Ctx, _case: u64) -> R {
    let mut r = cx.rng.clone();
    let mut m = gen::position(&mut r);
    let initial = m.clone();
    let mut rec = Position::arbitrary_position(build(&m));
    let mut played: Vec<Mv> = vec![];
    let steps = if cx.tiny { 6 } else { 60 };
    // Now and then after a long game.
    let past = if cx.tiny || r.below(300) != 0 { 0 } else { r.pick(&[100, 300, 1100]) };
    let mut who = gen::Player::new(&mut r);
    for _ in 0..past {
        let mv = who.next(&mut r, &m, 100);
        if rec.make_move(to_real(mv)).is_some() {
            m.apply(mv);
            played.push(mv);
        }
    }
    cx.sample(|| format!("{steps} queries and attempts from `{}`", m.sfen()));
    for _ in 0..steps {
        let status = if r.pct(60) { PositionStatus::InProgress } else { r.pick(&STATUS) };
        let s = Script {
            salt: r.next(),
            status,
            bare: match status {
                PositionStatus::Draw => PositionStatus::InProgress,
                PositionStatus::Invalid => r.pick(&[PositionStatus::Invalid, PositionStatus::InProgress, PositionStatus::BlackWins]),
                x => x,
            },
            own: r.pct(30),
            own_ok: r.pct(60),
            asked: RefCell::default(),
        };
        let going = s.status == PositionStatus::InProgress;
        let mv = who.next(&mut r, &m, 80);
        let here = m.sfen();
        let told = story(&rec);
        let w = || format!("{} in `{here}` with status {:?}", mv.usi(), s.status);
        let likes = s.likes(rec.inner(), mv);
        let lite = s.likes_lite(rec.inner(), mv);
        let reason = s.reason(mv);
        let list = s.list(rec.inner());
        let (status, own, own_ok) = (s.status, s.own, s.own_ok);
        let before = rec.clone();
        let plain = Plain(Script { asked: RefCell::default(), ..s_copy(&s) });
        let owner = Own(Plain(Script { asked: RefCell::default(), ..s_copy(&s) }));
        // Every value of the status, and every query.
        let dynamic: &dyn LegalityChecker = if own { &owner } else { &plain };
        let want_legal = if own {
            if own_ok && m.sensible(mv) {
                Ok(())
            } else {
                Err(reason)
            }
        } else if !going {
            Err(IllegalMoveKind::GameFinished)
        } else if likes {
            Ok(())
        } else {
            Err(reason)
        };
        let real = to_real(mv);
        let queries = |rec: &Position| -> R {
            let got = dynamic.is_legal(rec, real);
            ck!(got == want_legal, "is_legal", "{}: is_legal says {got:?}, should say {want_legal:?}", w());
            let got = dynamic.is_legal_lite(rec, real);
            ck!(got == (going && lite), "is_legal_lite", "{}: is_legal_lite says {got}, should say {}", w(), going && lite);
            let got = dynamic.all_legal_moves(rec);
            let want = if going { list.clone() } else { vec![] };
            ck!(got == want, "all_legal_moves", "{}: all_legal_moves gives {} moves, the checker {}", w(), got.len(), want.len());
            ck!(rec == &before, "query_changes", "{}: a query changed the record", w());
            Ok(())
        };
        queries(&rec)?;
        cx.count("queries", 3);
        let got = if own { owner.make_move(&mut rec, real) } else { plain.make_move(&mut rec, real) };
        ck!(got == want_legal, "make_move", "{}: make_move returns {got:?}, the verdict is {want_legal:?}", w());
        if want_legal.is_ok() {
            m.apply(mv);
            played.push(mv);
            cx.count("made", 1);
        } else {
            ck!(rec == before, "refused_changes", "{}: a rejected move changed the record to `{}`", w(), rec.to_sfen_owned());
            cx.count(if going { "rejected" } else { "finished" }, 1);
        }
        let o = observe(rec.inner());
        ck!(o == m, "made_effect", "{}: record is at `{}`, should be at `{}`", w(), o.sfen(), m.sfen());
        let ms: Vec<Mv> = rec.moves().iter().map(|&x| from_real(x)).collect();
        ck!(ms == played, "made_moves", "{}: record lists {} moves, should list {}", w(), ms.len(), played.len());
        ck!(observe(rec.initial_position()) == initial, "made_initial", "{}: initial position changed", w());
        // Whatever was asked of the checker was asked about the record as it stood.
        let script = if own { &owner.0 .0 } else { &plain.0 };
        for q in script.asked.borrow().iter() {
            let about = q.split_once(' ').unwrap().1;
            ck!(about == here || about == told, "asked", "{}: the checker was asked `{q}`", w());
        }
        cx.count("asked", script.asked.borrow().len() as u64);
        cx.saw(before.inner().to_sfen_owned().bytes().fold(mv.packed() as u64, |a, b| mix(a ^ b as u64)) ^ status as u64);
    }
    Ok(())
}

fn s_copy(s: &Script) -> Script {
    Script { salt: s.salt, status: s.status, bare: s.bare, own: s.own, own_ok: s.own_ok, asked: RefCell::default() }
}
