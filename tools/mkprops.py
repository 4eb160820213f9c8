#!/usr/bin/env python3
"""Source of properties.jsonl (run by hand after editing; the output is committed)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe), hook_needed=hook)))
S = "shogi_core/src/"
POS = S + "position.rs"; BB = S + "bitboard.rs"; SQ = S + "square.rs"; MV = S + "mv.rs"
HAND = S + "hand.rs"; PC = S + "piece.rs"; PK = S + "piece_kind.rs"; COL = S + "color.rs"
LEG = S + "legality.rs"; IMK = S + "illegal_move_kind.rs"; GR = S + "game_resolution.rs"
COM = S + "common.rs"; USI = S + "to_usi.rs"; DER = S + "annotated_derive.rs"
HDR = "include/shogi_core.h"; NOSTD = "shogi_core_c/src/no_std.rs"; CLIB = "shogi_core_c/src/lib.rs"

p("C01", "Making a move is accepted exactly when it makes sense, with exactly its effect",
  "For every position and every move, making the move succeeds exactly when it either moves a piece of the side to move to a square that holds neither a piece of that side nor a king (promoting only a piece that can promote), or drops an unpromoted piece of the side to move that it has in hand on a vacant square. "
  "On success the board, both hands (a captured piece joins the mover's hand unpromoted, counts wrapping from 255 to 0), the side to move (flipped), the ply (plus one, modulo 65536) and the last move are exactly the ones that move calls for, and nothing else changes. "
  "The packed form of a move behaves exactly like the move it stands for, on bare positions and on full records alike.",
  ["inputs", "histories"], "all positions (standard, partial, with any hand counts and any ply), all 15390 moves in each, and all histories of moves",
  "The tests play one four-move game from the starting position; nothing is refused in them, no piece is dropped, and hands hold at most one bishop.",
  [POS, MV, HAND, PC, PK], [("make_move on a bare position", POS), ("make_move on a record", POS), ("packed move conversion", MV)],
  [("board, hands, side, ply, last move", "the position", POS)],
  ["piece lookup, hands, side to move, ply and last move before and after every attempt"])
p("C02", "A refused move changes nothing",
  "Whenever making a move is refused, on a bare position or on a full record, in plain or packed form, everything that can be observed of it is what it was before the attempt: board, hands, side to move, ply, last move, every board subset, king squares, the recorded moves, and equality with a copy taken before.",
  ["inputs", "histories"], "all positions and all moves that are refused in them, at any point of any history",
  "No test makes a move that is refused.",
  [POS, HAND], [("make_move returns early before it changes anything", POS)],
  [("board, hands, derived sets", "must be untouched on refusal", POS)],
  ["complete observation and a saved copy, compared after each refused attempt"])
p("C03", "All views of a board agree with each other",
  "After any sequence of piece placements, removals, replacements and moves, the piece reported for each square, the subsets of squares per player, per kind of piece and per piece, and the occupied and vacant subsets all describe one and the same board. "
  "The king square reported for a player holds a king of that player if the player has one on the board, and none is reported otherwise.",
  ["histories"], "all sequences of edits and moves on bare positions and records, from the empty board, the starting position and any position built by edits",
  "Tests only compare the rendered text (board array) after four moves; the redundant sets are looked at only in doc examples on the starting position, and no test replaces or removes a piece.",
  [POS, BB], [("piece placement keeps array, player sets, kind sets and king squares in step", POS), ("starting position constants", POS)],
  [("board array", "piece on each square", POS), ("player and kind subsets", "redundant sets", POS), ("king squares", "cached king location", POS)],
  ["all view queries after each edit"])
p("C04", "Moves conserve the pieces of the game",
  "Along any sequence of accepted moves the number of pieces of each kind, counting promoted pieces as their unpromoted kind and counting board and both hands together, stays the same, as long as no hand exceeds 255 of a kind. "
  "A piece changes owner only by being captured, in which case exactly one piece leaves the board for the capturer's hand; each drop moves exactly one piece from the mover's hand to the board; kings stay on the board with their owner.",
  ["histories"], "all sequences of moves from all positions",
  "A four-move game with one exchange is all the tests play; conservation is a statement about all histories.",
  [POS, HAND, PK], [("capture adds the unpromoted kind to the mover's hand", POS), ("drop takes one piece from hand", POS)],
  [("hands and board", "where pieces are", POS)], ["counts of pieces on board and in hand after each accepted move"])
p("C05", "A game record is its initial position plus exactly the accepted moves",
  "For every history of attempted moves, a full record lists exactly the accepted moves in order, its initial position never changes, replaying the list from the initial position gives the current position, and every question asked of the record has the same answer as when asked of its current position. "
  "A record created from a position starts with that position as both initial and current one and with no moves, and copies of a record or position evolve independently of each other.",
  ["histories"], "all histories of accepted and refused moves in plain or packed form, of any length, from any initial position",
  "No test makes a move on a full record except one doc example with a single move.",
  [POS], [("record keeps initial, current position and move list", POS)],
  [("initial position, current position, move list", "the record", POS)], ["move list, initial position and all queries after each attempt"])
p("C06", "The SFEN text of a position is the standard one and loses nothing",
  "For every position the SFEN output is exactly the standard text: ranks a to i separated by slashes, each from file 9 to file 1 with maximal digit runs for vacant squares and a plus sign before promoted pieces, then the side to move, then the hands (black before white, in the order R B G S N L P, counts above one as decimal prefixes, a dash if both are empty), then the ply in decimal. "
  "Hence reading the text back gives the same board, side, hands and ply, and all ways of obtaining it agree.",
  ["inputs"], "all positions, with any pieces on the board, any hand counts and any ply",
  "Tests render three positions; hand counts above one, promoted pieces on the board, full or empty ranks mixed with pieces, and large plies are not rendered.",
  [POS, HAND, COM, PC], [("SFEN writer", POS), ("hands in SFEN", HAND), ("number writers", COM)], (), ["text of each position, parsed by an independent reader"])
p("C07", "SFEN for C stays within its documented buffer and is NUL-terminated",
  "For every position that uses at most the pieces of one standard shogi set, writing SFEN to a caller's buffer writes exactly the same text as the other SFEN outputs followed by one NUL byte, at most 139 bytes in all, wherever the buffer lies, and touches no memory outside the bytes it writes.",
  ["inputs"], "all positions with at most one standard set of pieces, at any ply, and all buffer addresses",
  "The C test writes the starting position (57 characters) to a 200-byte buffer; overruns of the documented bound cannot show there.",
  [POS, COM], [("raw pointer sink", POS)], (), ["the buffer, its surroundings and guard pages"])
p("C08", "USI text of every value is the protocol's and identifies the value",
  "The USI text of a colour, square, kind of piece, piece, move, packed move and pair of hands is exactly the one the USI protocol prescribes (for example 7g7f, 8h2b+, S*5b, 2Pb), the owned string equals the streamed text, and within each type different values have different texts, except for drop moves, whose text does not tell the dropping side.",
  ["inputs"], "all values of these types",
  "Moves and hands are rendered only in a handful of doc examples; packed moves never.",
  [USI, SQ, PK, PC, MV, HAND, COL, COM], [("USI writers", USI), ("table lookups without bounds checks", PC)], (), ["text produced for each value"])
p("C09", "Text output fails exactly when the sink fails, at whatever point that is",
  "For every value with a USI or SFEN text and every point at which the sink starts failing (once or for good, by number of writes or by capacity), the writing operation reports failure if and only if the sink reported one, does not write anything after the failure, and what the sink accepted is a prefix of the full text.",
  ["inputs", "fault_sequences"], "all values with a text form and all failure points of the sink",
  "All tests write to growing strings that never fail.",
  [USI, COM, POS, HAND, MV, SQ], [("error propagation after each write", COM), ("documented contract of the text trait", USI)], (), ["result and accepted bytes for each failure point"])
p("C10", "Bitboards are exactly sets of squares",
  "Any expression built from empty sets, single squares, union, intersection, symmetric difference, difference and complement, in any of the offered spellings (operators on values and references, assignments with sets or squares, named functions, C functions), denotes exactly the set of squares it should: membership, size, emptiness and equality agree with it, and two expressions denoting the same set are equal. "
  "Converting a set to its integer representation and back gives the same set.",
  ["inputs"], "all sets of squares and all expressions over them",
  "Tests look at single squares and pairs only; complements, intersections, mixed reference forms and their size and equality are not exercised on larger sets.",
  [BB], [("two-word representation with unused high bits kept at zero", BB)], [("two words", "63 squares in the first, 18 in the second", BB)], ["membership of all 81 squares, size, emptiness, equality"])
p("C11", "Bitboard shifts, flips, file access and byte swapping are geometrically exact",
  "For every set of squares, shifting it by 0 to 9 up, down, left or right yields exactly the set of its squares moved that far, with squares leaving the board dropped; flipping it yields the set of flipped squares; building and reading a file by its 9-square pattern touches exactly that file. "
  "Swapping bytes twice gives the set back, swaps commute with the bitwise operations, and every result is a proper set, equal to the same set built otherwise.",
  ["inputs"], "all sets of squares, all distances and directions, all files and patterns",
  "The shift tests use one fixed set (and, for left and right, one distance each: the loops over distances compare a result with itself); flip is tested on singletons.",
  [BB], [("masked word shifts", BB), ("bit reversal", BB), ("byte swapping", BB)], (), ["the resulting set as a whole, for all inputs tried"])
p("C12", "Iterating over or popping from a bitboard yields each member exactly once",
  "Popping from a set returns a member and removes exactly that member, until the set is empty; then it returns nothing, as often as it is asked. Iterating yields each member exactly once whatever mixture of iterator methods is used, the announced size bounds always hold, and iterating over a copy leaves the original as it was.",
  ["inputs", "histories"], "all sets of squares and all interleavings of pops, iteration and set operations",
  "Tests pop from sets of one and two squares.",
  [BB], [("pop clears the lowest set bit", BB), ("iterator built on pop", BB)], (), ["returned squares and remaining set after each step"])
p("C13", "Hands count each kind of piece exactly and independently",
  "After any sequence of additions and removals a hand reports, for each of the seven kinds that can be in hand, the number of additions minus successful removals (from 0 to 255, wrapping to 0 when one is added to 255), independently of the other kinds; removing a kind with count zero, and adding, removing or counting a kind that cannot be in hand, is refused and changes nothing. "
  "Hands with the same counts are equal, and the C functions agree.",
  ["inputs", "histories"], "all sequences of additions and removals of all 14 kinds",
  "Doc examples add a few pawns and wrap pawns once; the other kinds, kings, promoted kinds and the C functions are not exercised.",
  [HAND], [("per-kind byte counters", HAND)], [("eight byte counters", "pieces in hand per kind", HAND)], ["counts of all kinds after each operation"])
p("C14", "Values have their documented encodings, and conversions round-trip",
  "Every square, piece, kind of piece, colour, move, game result and kind of illegal move has the numeric representation its documentation gives (square 9*file+rank-9; piece kind plus 16 for white; packed move promote*32768+from*256+to, or piece*256+128+to for a drop; 0 for an absent value), checked conversions accept exactly the documented ranges, conversion there and back is the identity in every direction, and array indices are unique and within the announced bounds. "
  "Each named constant denotes the square or piece it names, and the enumerations list every value once in the documented order.",
  ["inputs"], "all values of all these types, all bytes and all bit patterns offered to checked conversions",
  "Tests check that packing round-trips, not that the packed number is the documented one that C programs rely on; constants, optional types and several conversions are untested.",
  [SQ, PC, PK, COL, MV, GR, IMK, LEG, "shogi_core/build.rs"], [("packed move layout", MV), ("optional types with 0 for none", SQ), ("generated constants", "shogi_core/build.rs")], (), ["representation bytes and converted values"])
p("C15", "Squares, colours and pieces obey the board's geometry and the promotion rules",
  "For all arguments, constructing a square by file and rank (from either player's view), shifting it by any pair of signed distances, reflecting it, and asking for its file, rank and relative coordinates agree with plain coordinate arithmetic on a 9 by 9 board, with none returned exactly when a coordinate leaves it. "
  "Flipping a colour or square twice is the identity, promoting and then unpromoting a piece gives it back with its owner, and exactly pawns, lances, knights, silvers, bishops and rooks promote. The C functions give the same answers.",
  ["inputs"], "all squares, colours, pieces and all 65536 pairs of distances and coordinates",
  "Promotion and demotion are not tested at all, the shift test leaves out the distance 127, and the separately written C entry points are not tested.",
  [SQ, COL, PC, PK], [("multiplicative file computation", SQ), ("wrapping shift arithmetic", SQ), ("promotion tables", PK), ("colour flip by transmute", COL)], (), ["results for all arguments"])
p("C16", "Equality, ordering and hashing of values are coherent and see everything",
  "For all values of every comparable type, ordering is a total order that says equal exactly when equality does, partial and total order agree, and equal values hash equally; simple values order by their documented numeric representation. "
  "Two positions are equal exactly when they agree on board, hands, side to move, ply and last move, however they were reached, and two records exactly when they agree on initial position, current position and list of moves. Every type offers comparison, copying or cloning, and hashing as documented.",
  ["inputs", "histories"], "all pairs and triples of values, including positions and records reached by different histories",
  "No test compares two positions, orders anything or hashes anything.",
  [DER, POS, MV, HAND, BB, PC, SQ, PK], [("hand-written ordering and hashing", DER), ("derived equality over all fields", POS)], [("king squares and subsets", "take part in equality but not in ordering", POS)], ["eq, cmp, partial_cmp and hash of pairs and triples"])
p("C17", "Legality defaults never let a move through that the checker rejects",
  "For every legality checker that relies on the supplied defaults, a full record that is not in progress has no legal moves (each is reported as game finished, or false, or an empty list), one in progress has exactly the answers the checker gives for its current position, and none of these queries changes the record. "
  "Making a move through the checker changes the record by exactly that one move if the checker's own legality verdict on it is positive, and otherwise returns that verdict's reason and leaves the record as it was, in debug and optimised builds alike.",
  ["inputs", "programs"], "all checkers (any status, any verdicts, overriding any of the defaults), all records and moves",
  "There is no implementor of the trait in the repository, so no test runs the defaults.",
  [LEG, POS], [("default methods of the checker trait", LEG)], (), ["answers, calls received by a scripted checker, and the record before and after"])
p("C18", "A game record's result is what was last set, and nothing else",
  "After any sequence of setting and clearing the result of a game (with or without move list), the reported result is the last one set, or none after clearing or initially; setting it affects neither the game's position nor other games or copies, two games are equal exactly when position and result are, and the C view of the result is its documented number or 0.",
  ["histories"], "all sequences of setting and clearing on both kinds of game",
  "No test uses a game record.",
  [POS, GR], [("result stored as an optional byte", GR)], [("resolution", "result of the game", POS)], ["result and position after each operation"])
p("C19", "C programs using the shipped header see the library's true behaviour",
  "Every function the shipped header declares exists in the C library, can be called by a C program with the declared types, and returns for all arguments what the specification of the corresponding operation says; data laid out by the header's types (size, alignment and each field of a position, hand or set) is what the library reads and writes, never more. "
  "The library exports no documented function that the header lacks.",
  ["inputs", "histories", "programs"], "all functions of the header, all valid arguments, and all call sequences",
  "The C test calls five functions on the starting position; no other exported function is ever called from C.",
  [HDR, CLIB, POS, BB, HAND, SQ, PC, PK, MV, COL, GR, IMK], [("exported C functions", POS), ("shipped header", HDR)], [("position struct", "shared by value with C", HDR)], ["results and struct fields seen by a C program"])
p("C20", "The freestanding C library behaves like the hosted one",
  "Built without the standard library, with or without an allocator, the C library gives the same results for the same calls as the hosted build, for any call sequence within its memory. "
  "The memory functions it brings along (copy, set, compare, zero) do what the C standard says for all sizes, contents and alignments, and touch nothing beyond their arguments.",
  ["inputs", "histories", "configurations"], "all call sequences within the arena's capacity, all sizes and contents for the memory functions",
  "The C test runs against this build, but makes five calls on the starting position.",
  [NOSTD, CLIB, POS], [("byte-loop memory functions", NOSTD), ("arena allocator", NOSTD)], [("arena", "128 KiB of memory handed out once", NOSTD)], ["result log of the same trace on both libraries; memory before and after"])
p("C21", "The freestanding allocator hands out aligned, disjoint memory, also to threads",
  "Records created by the freestanding C library, by any number of threads at the same time and in any interleaving with moves that make their lists grow, occupy memory that is aligned for its type, lies within the library's arena and never overlaps other live memory, so that what is done to one record never shows in another; when the arena is used up, no further record is handed out.",
  ["schedules", "histories"], "all interleavings of creations and growth from several threads, up to and beyond exhaustion of the arena",
  "The C test creates one record in one thread.",
  [NOSTD, POS], [("atomic update of the remaining size", NOSTD), ("rounding down for alignment", NOSTD)], [("remaining size", "bytes of the arena not handed out", NOSTD), ("arena", "its base address", NOSTD)], ["addresses and contents of all records"])
p("C22", "Safe calls never panic and never cause undefined behaviour",
  "No sequence of calls to safe functions, with any arguments, and no call to an unsafe one within its documented precondition, panics, overflows, reads or writes out of bounds, creates an invalid value or otherwise has undefined behaviour, in builds with and without runtime checks (memory exhaustion aside).",
  ["inputs", "histories", "configurations"], "all functions, arguments and call sequences",
  "The tests run without any instrumentation: an out-of-range table lookup, an invalid enumeration value or a reached unreachable hint may go unnoticed, and most functions are called with few arguments.",
  [SQ, PC, PK, COL, BB, HAND, POS, COM, MV, IMK, GR], [("unchecked table access", PC), ("transmutes to enumerations", PK), ("unreachable hints", SQ)], (), ["an undefined-behaviour interpreter, sanitizers and runtime checks over a broad workload"])
p("C23", "Results do not depend on features, level of optimisation or platform",
  "The same calls give the same results in every supported build: with any combination of the optional features, with and without the standard library or an allocator, with and without debug assertions, at every level of optimisation, and on machines of 32 or 64 bits with either order of bytes.",
  ["configurations", "inputs"], "all feature sets, build profiles and targets, all calls available in them",
  "The tests run in one configuration (unoptimised, all features); the other feature sets are only compiled.",
  ["shogi_core/Cargo.toml", "Cargo.toml", S + "lib.rs", POS, LEG, BB], [("feature gates", S + "lib.rs"), ("unchecked hints that optimised builds act on", SQ), ("hands compared as one integer", HAND)], (), ["event logs of one workload in each configuration"])
p("C24", "Values are independent: no operation on one affects another, in any thread",
  "Operations on different values, in one thread or in several at once, do not influence each other, and concurrent queries on one shared value return what they return alone: the library keeps no hidden state between calls and its queries write nothing but their results.",
  ["schedules", "histories"], "all interleavings of operations on distinct values and of queries on shared values",
  "All tests are single-threaded and use one value at a time.",
  [POS, BB, HAND, MV, COM], [("plain values without interior mutability or statics", POS)], (), ["results of concurrent and interleaved runs compared with sequential ones; data-race detectors"])
p("C25", "Positions given to C live until destroyed and are then released completely",
  "A record created for a C program stays valid, at a fixed address, through any number of moves and queries, with its interior position pointers valid as long as it lives; destroying it releases exactly all memory it acquired, once, so that any number of create, play and destroy cycles in any order neither leaks nor corrupts memory.",
  ["histories"], "all sequences of creating, playing and destroying any number of records in any order",
  "The C test creates and destroys one record without moves and without memory checking.",
  [POS, HDR], [("record boxed and leaked to C", POS), ("destructor retakes the box", POS)], (), ["allocation events and addresses of a C program's records"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, q["id"]
        assert q["statement"].count(". ") <= 2, (q["id"], q["statement"].count(". "))
        f.write(json.dumps(q, ensure_ascii=False) + "\n")
print(len(P), "properties")
