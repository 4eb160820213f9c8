//! C16: whether every type has the traits that README documents, with all features on.

#[path = "../probe.rs"]
#[macro_use]
mod probe;

use shogi_core::c_compat::*;
use shogi_core::*;

fn main() {
    let mut bad = 0;
    let mut n = 0;
    {
        let not_copy = ["Game", "PartialGame", "Position", "PartialPosition"];
        let mut out = |ty: &str, tr: &str, has: bool| {
            let need = match tr {
                "Copy" => !not_copy.contains(&ty),
                // Documented for sets and positions.
                "Default" => ["Bitboard", "PartialPosition", "Position"].contains(&ty),
                _ => true,
            };
            n += 1;
            println!("trait {ty} {tr} {}", if has { "yes" } else { "no" });
            if need && !has {
                bad += 1;
                println!("MISSING {ty} does not implement {tr}");
            }
        };
        traits_of!(
            out, Color, Square, PieceKind, Piece, Move, CompactMove, Hand, Bitboard, ByteSwappedBitboard, GameResolution,
            PartialGame, PartialPosition, Game, Position, IllegalMoveKind, PositionStatus, OptionPieceKind, OptionPiece,
            OptionSquare, OptionCompactMove, OptionGameResolution, ResultUnitIllegalMoveKind,
        );
    }
    println!("TOTAL {n} {bad}");
    std::process::exit((bad > 0) as i32);
}
