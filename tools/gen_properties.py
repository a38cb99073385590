#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that edits are reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
S = "shogi_core/src/"
POS = S + "position.rs"

p("C01", "A move is accepted exactly when it makes sense, with exactly its effect",
  "Making a move on a position succeeds exactly when it makes sense: the source holds a piece of the side to move, the destination is empty or holds an enemy piece other than a king, a promotion is possible for that kind; or, for a drop, an unpromoted non-king piece of the mover of which at least one is in that player's hand is put on a vacant square. "
  "On success the board and hands change exactly as shogi says: only the source and destination squares change, the moved piece is promoted iff asked for, a captured piece goes to the mover's hand as its unpromoted kind, a dropped piece leaves the mover's hand, and nothing else on the board or in either hand changes. "
  "Making the move in its ordinary or in its packed form, on a position with or without history, gives the same result.",
  ["inputs", "histories"], "every position reachable by edits and moves (also inconsistent ones), every one of the 15390 moves",
  "Two unit tests make seven legal moves in total; no test makes a rejected move, a drop, or a capture of a promoted piece by a promoted piece. The space is all positions times all moves.",
  [POS, S + "hand.rs", S + "piece.rs", S + "piece_kind.rs", S + "mv.rs"],
  [("move application", POS + " PartialPosition::make_move / make_compact_move"), ("history wrapper", POS + " Position::make_move / make_compact_move"), ("hand arithmetic", S + "hand.rs Hand::added/removed"), ("kind promotion", S + "piece_kind.rs promote/unpromote")],
  [("board", "the piece on each square", POS), ("hands", "counts of 7 kinds for 2 players", POS), ("side", "player to move", POS)],
  ["return value of make_move/make_compact_move", "piece_at on 81 squares", "hand counts of both players"])

p("C02", "A rejected move changes nothing at all",
  "When making a move reports failure, the position is exactly as before: every query gives the same answer, it still compares equal to, orders equal to and hashes like a copy taken before the attempt, and a position with history has recorded nothing. "
  "This holds for both move forms, for every reason of rejection, and after any history.",
  ["inputs", "histories"], "all positions reachable by moves and edits, all rejected moves, any number of consecutive rejections",
  "The documentation guarantees that a position is not modified when a move fails, but no test makes a failing move. Failure can be detected after partial work (e.g. a capture of a king is only refused by the hand).",
  [POS, S + "hand.rs"],
  [("validation precedes mutation", POS + " PartialPosition::make_move"), ("history pushed only after success", POS + " Position::make_move")],
  [("whole position", "all fields of PartialPosition and Position", POS)],
  ["all queries before and after", "Eq/Ord/Hash against a clone", "moves()"])

p("C03", "Side to move, move number and last move follow the accepted moves",
  "Every accepted move passes the turn to the other player, increases the move number by one (a 16-bit number that wraps) and becomes the last move, reported identically in ordinary and packed form; initially Black is to move, the number is 1 and there is no last move. "
  "Editing squares or hands never touches the three; setting the side or the move number changes only that, and setting the move number fails, changing nothing, exactly for 0.",
  ["inputs", "histories"], "all move/edit histories, all 65536 move numbers, both colors",
  "Unit tests look at the move number after at most four moves from the start; edits and the 65535 boundary are never exercised.",
  [POS, S + "mv.rs"],
  [("turn/ply/last-move update", POS + " end of PartialPosition::make_move"), ("setters", POS + " side_to_move_set, ply_set")],
  [("side, ply, last_move", "turn bookkeeping", POS)],
  ["side_to_move, ply, last_move, last_compact_move of PartialPosition and Position"])

p("C04", "Pieces are never created or destroyed by moves",
  "Along any sequence of attempted moves, the number of pieces of every basic kind, counted over the board (promoted or not, either side) and both hands together, never changes (short of a hand count wrapping at 256), so a game from the starting position always has its 40 pieces. "
  "No piece ever leaves the board other than into the capturing player's hand, and none of the players' kings is ever lost.",
  ["histories", "inputs"], "every sequence of attempted moves from every initial position",
  "It is an invariant of unbounded histories; the tests make at most four moves in a row.",
  [POS, S + "hand.rs", S + "piece_kind.rs"],
  [("capture into hand", POS + " PartialPosition::make_move"), ("unpromotion on capture", S + "piece_kind.rs unpromote")],
  [("board, hands", "where the material is", POS)],
  ["piece_at, hand counts after each move"])

p("C05", "All views of a position agree with each other after any operations",
  "After any sequence of moves, rejected moves and edits, the per-square lookup, the set of squares per piece, per kind and per player, the occupied and vacant sets, the king locator, and the two ways of asking for hand contents all describe one and the same board and hands. "
  "In particular the per-piece sets partition the occupied set, vacant is exactly its complement within the 81 squares, the king locator names a square that holds that king, or nothing exactly when there is none, and the sets hold no element besides the 81 squares.",
  ["histories", "inputs"], "all sequences of piece placement/removal/replacement, hand edits and moves, with any number of kings per side",
  "The redundant structures are updated incrementally by every operation; tests look at two piece sets of the starting position only.",
  [POS, S + "bitboard.rs"],
  [("incremental update of sets", POS + " PartialPosition::piece_set"), ("derived sets", POS + " occupied_bitboard, vacant_bitboard, piece_bitboard, piece_kind_bitboard, player_bitboard"), ("king locator", POS + " king_position")],
  [("board", "array of 81 optional pieces", POS), ("player_bb, piece_bb", "sets per player and per kind", POS), ("king_square", "cached king squares", POS)],
  ["piece_at", "piece_bitboard, piece_kind_bitboard, player_bitboard, occupied_bitboard, vacant_bitboard", "king_position", "hand, hand_of_a_player"])

p("C06", "A position with history is its initial position plus the accepted moves",
  "A position with history always reports the initial position it was created from unchanged, and as its moves exactly the accepted ones in order; its current position is what replaying those moves from the initial one gives, and all of its own queries answer as the current position's do. "
  "Cloning yields an equal and independent object, and the default and starting objects are the same.",
  ["histories", "inputs"], "every initial position, every sequence of attempted moves",
  "The tests only create the starting position and make one move; initial position, move list after rejected moves, and delegation of queries are not compared.",
  [POS],
  [("history", POS + " Position::make_move, moves, initial_position, inner, arbitrary_position"), ("delegated queries", POS + " impl Position")],
  [("initial, inner, moves", "start, current position, accepted moves", POS)],
  ["initial_position, inner, moves and every query of Position"])

p("C07", "A hand is a multiset over the seven hand kinds",
  "Starting from an empty hand, after any sequence of additions and removals each of the seven hand kinds has the count those operations give (additions wrap at 256), no operation affects another kind, and equality is equality of counts. "
  "Removing a kind with count 0 fails and changes nothing; for the seven other kinds (king and promoted) adding, removing and counting are refused, and the enumeration of hand kinds lists exactly the seven kinds once.",
  ["inputs", "histories"], "all sequences of add/remove over all 14 kinds, all counts 0..=255",
  "The documentation examples add up to two pieces of one kind; wrapping, refused kinds and independence of kinds are not tested.",
  [S + "hand.rs"],
  [("hand operations", S + "hand.rs Hand::added, removed, count, is_hand_piece, all_hand_pieces, Hand_add, Hand_remove, Hand_count")],
  [("counts", "8 bytes, one per kind", S + "hand.rs")],
  ["return values and count() of every kind after each operation"])

p("C08", "Bitboards are sets of squares under all of their operations",
  "Building, membership, counting, emptiness, union, intersection, symmetric difference, complement and and-not on bitboards (through operators on values or references, in-place forms with a bitboard or a square, and named functions) are exactly the operations on subsets of the 81 squares; two bitboards are equal exactly when they hold the same squares. "
  "The byte-swapped form (whose integer representation is that of the plain form with its bytes reversed) obeys the same laws for the operations it has, and converts there and back without loss, as does the integer representation.",
  ["inputs", "histories"], "all pairs of subsets of 81 squares and all squares",
  "There are 2^81 subsets; tests combine a few single squares, and never test the byte-swapped form or in-place forms with squares.",
  [S + "bitboard.rs"],
  [("set operations", S + "bitboard.rs Bitboard ops and define_bit_trait"), ("byte-swapped", S + "bitboard.rs ByteSwappedBitboard"), ("representation", S + "bitboard.rs to_u128/from_u128_unchecked")],
  [("two 64-bit words", "files 1-7 and files 8-9", S + "bitboard.rs")],
  ["contains on 81 squares, count, is_empty, equality with a rebuilt set"])

p("C09", "Shifting, flipping and slicing bitboards moves every square the same way",
  "Shifting a bitboard up, down, left or right by 0 to 9 gives exactly the squares of the original moved by that many ranks or files, with those leaving the board dropped and nothing else added; flipping gives exactly the squares seen from the other side. "
  "Building a set from a file pattern and reading a file's pattern are exact for each of the 9 files and 512 patterns, whatever the other files hold.",
  ["inputs"], "all subsets of 81 squares, all four directions, all distances 0..=9, all 9 files and 512 patterns",
  "Existing shift tests use one distance for left/right and compare the result with itself for others; results are not compared against an independent definition for all distances, and word boundaries (files 7/8) are the risky case.",
  [S + "bitboard.rs"],
  [("shifts", S + "bitboard.rs shift_down/up/left/right"), ("flip", S + "bitboard.rs flip"), ("files", S + "bitboard.rs from_file_unchecked, get_file_unchecked")],
  None, ["members, count and equality of the results"])

p("C10", "Consuming a bitboard yields each of its squares exactly once",
  "Repeatedly removing an arbitrary element from a bitboard, or iterating over it (by whichever iterator method), yields every member exactly once and nothing else, each step leaving exactly the not yet yielded squares, then reports exhaustion (and keeps doing so) with the set empty. "
  "The size hint never promises fewer than or more than what remains to come, and consuming one copy leaves others alone.",
  ["inputs", "histories"], "all subsets of the 81 squares, all prefixes of the consumption",
  "The test pops two squares; the set can be any of 2^81 and must end after every history.",
  [S + "bitboard.rs"],
  [("pop and Iterator", S + "bitboard.rs Bitboard::pop, Iterator for Bitboard")],
  None, ["sequence returned by pop()/next(), remaining set, size_hint"])

p("C11", "Square geometry is one consistent 9x9 coordinate system",
  "Squares correspond one-to-one to (file, rank) pairs in 1..=9 and to the numbers 1..=81 (9*file+rank-9), and construction from any other pair or number is refused; the enumeration lists all 81 once in that order and each named constant is the square it names. "
  "Relative coordinates and flipping mirror both axes and are self-inverse; shifting by any two signed 8-bit distances gives the square at the sum of coordinates exactly when it lies on the board, and otherwise nothing.",
  ["inputs"], "all 65536 coordinate pairs per color, all 256 numbers, all 81 squares x 65536 distances",
  "The shift test leaves out one of the extreme distances, relative constructions and coordinates are sampled, and constants, enumeration and inverses are not related to each other.",
  [S + "square.rs"],
  [("constructors", S + "square.rs new, new_relative, from_u8"), ("geometry", S + "square.rs file, rank, relative_file, relative_rank, flip, shift"), ("enumeration", S + "square.rs all, constants")],
  None, ["all functions of Square and OptionSquare over their whole domain"])

p("C12", "Pieces, kinds and colors: representation, promotion, enumeration",
  "Colors, kinds and pieces have their documented numeric representations; a piece is exactly a kind and a color, and building it from its parts, splitting, its named constant and its number all agree. "
  "Promotion is defined exactly for the six promotable kinds, keeps the color, and is undone exactly by unpromotion; enumerations list every value exactly once, array indices are distinct and in range, and optional wrappers (outcomes of games included) convert there and back without loss with 0 for nothing.",
  ["inputs"], "all 2 colors, 14 kinds, 28 pieces, all 256 byte values and all optional values",
  "The existing tests cover single functions; relations (promotion vs parts, constants vs enumeration, wrappers) over the whole domain are not tested.",
  [S + "piece.rs", S + "piece_kind.rs", S + "color.rs", S + "game_resolution.rs", S + "illegal_move_kind.rs"],
  [("pieces", S + "piece.rs"), ("kinds", S + "piece_kind.rs"), ("colors", S + "color.rs"), ("optional wrappers", S + "lib.rs c_compat")],
  None, ["all functions of Piece, PieceKind, Color, GameResolution, IllegalMoveKind and their option types"])

p("C13", "Packed moves and moves are in exact correspondence",
  "Every move has exactly one packed form, with the documented 16-bit layout, never zero; converting there and back gives the same move, different moves have different packed forms, and the direct packed constructors agree with the conversion. "
  "Source, destination, promotion and drop flags read from either form agree with each other, and the optional packed form distinguishes nothing from every move.",
  ["inputs"], "all 81x81x2 normal moves and 28x81 drops",
  "Tests compare conversions with each other but not with the documented layout, so a consistent change of both directions (visible to C users and stored data) passes; injectivity and the accessors of ordinary moves are not tested.",
  [S + "mv.rs"],
  [("packing", S + "mv.rs From<Move> for CompactMove and back"), ("accessors", S + "mv.rs Move and CompactMove methods")],
  None, ["16-bit value, accessors of both forms"])

p("C14", "The SFEN of a position is canonical and can be read back",
  "For every position, SFEN output consists of the nine ranks from a to i, each written from file 9 to 1 with maximal runs of vacant squares as one digit, then the side to move, the hands (rook, bishop, gold, silver, knight, lance, pawn, Black's before White's, counts of at least 2 written, or -), and the move number in decimal. "
  "Consequently board, side, hands and move number can be recovered from it exactly, and two positions have the same SFEN exactly when they agree on these.",
  ["inputs", "histories"], "all positions: any board, hand counts 0..=255, both sides, all move numbers",
  "Three fixed strings are tested; runs of vacant squares at every place, each piece, hand counts with 1 to 3 digits, and move numbers from 0 to 65535 are not.",
  [POS, S + "hand.rs", S + "piece.rs", S + "common.rs"],
  [("SFEN writer", POS + " PartialPosition::to_sfen, to_sfen_owned, Position::to_sfen_owned"), ("hands", S + "hand.rs ToUsi for [Hand; 2]"), ("numbers", S + "common.rs write_u8, write_u16")],
  None, ["to_sfen, to_sfen_owned"])

p("C15", "USI text of moves, squares, pieces, kinds and colors is unambiguous",
  "Every square, kind, piece, color, pair of hands and move is written in exactly its USI form: file digit and rank letter, case for color, + for promoted pieces and promoting moves, and kind*square for drops. "
  "The text of a move determines it given who moves, a move and its packed form are written alike, and different values of one type differ in text (kinds and pieces included).",
  ["inputs"], "all 81 squares, 14 kinds, 28 pieces, 2 colors, 15390 moves and pairs of hands with any counts",
  "Tests check squares, kinds and pieces against a copy of the same table; moves in USI form, packed moves and hands are not tested over their domain.",
  [S + "mv.rs", S + "square.rs", S + "piece.rs", S + "piece_kind.rs", S + "color.rs", S + "hand.rs", S + "to_usi.rs"],
  [("ToUsi impls", S + "*.rs impl ToUsi for ...")],
  None, ["to_usi, to_usi_owned"])

p("C16", "Text output reports failure exactly when the sink fails, and stops there",
  "Writing a position or any value as text returns an error if and only if the sink refused a write. "
  "Up to then the accepted text is a prefix of the full text, after a refused write nothing more is written, and success means that precisely the full text was written, whatever the sink and however it failed.",
  ["fault_sequences", "inputs"], "every text-producing value, every write at which the sink may fail (once or for good)",
  "All existing tests write to strings, which never fail; the fault space is every write call of every output.",
  [POS, S + "common.rs", S + "hand.rs", S + "mv.rs", S + "square.rs", S + "piece.rs", S + "piece_kind.rs", S + "color.rs"],
  [("error propagation", POS + " to_sfen and every to_usi"), ("contract", S + "to_usi.rs ToUsi::to_usi")],
  None, ["return value, calls received by a fault-injecting sink"])

p("C17", "Equality, ordering and hashing agree with each other and are lawful",
  "For every orderable type, comparison is a total order (antisymmetric, transitive) whose equality coincides with equality of values, the partial comparison and the comparison operators agree with it, and equal values hash equally; values that differ in any observable way are unequal and compare unequal. "
  "Enumerations, squares, pieces and packed or optional forms order by their documented numeric representation, normal moves before drops and each by their components, positions by side, move number, hands (in the order of hands), board and last move, and positions with history by initial position, then current position, then moves; for hands and sets of squares any total order will do.",
  ["inputs"], "all pairs and triples of values of each type (positions: pairs that differ in one component or more)",
  "No test uses ordering or hashing; laws quantify over pairs and triples of values.",
  [S + "annotated_derive.rs", S + "mv.rs", POS, S + "hand.rs", S + "bitboard.rs"],
  [("generated impls", S + "annotated_derive.rs"), ("moves", S + "mv.rs Ord/Hash for Move"), ("positions", POS + " impl_ord_with_fields/impl_hash_with_fields"), ("hands", S + "hand.rs PartialEq for Hand")],
  None, ["==, cmp, partial_cmp, <, hash of pairs"])

p("C18", "A game's resolution is what was last set, and never touches its position",
  "A fresh game has no resolution and the starting position; after any sequence of resolving and unresolving, the resolution is the last one set or none if withdrawn since. "
  "The game's position is not affected by this, games compare equal exactly when position and resolution agree, and all five resolutions are told apart.",
  ["histories"], "all sequences of resolve/unresolve over the five resolutions, games with and without history",
  "No test touches games.",
  [POS, S + "game_resolution.rs"],
  [("games", POS + " Game, PartialGame"), ("resolutions", S + "game_resolution.rs GameResolution, OptionGameResolution")],
  [("resolution", "optional resolution", POS)],
  ["resolution(), position(), equality, C accessors"])

p("C19", "Legality queries by default follow game status first, and moves need legality",
  "For any legality checker that supplies only the required methods: if the position is not in progress, every move is illegal with reason 'game finished', the quick query says no and there are no legal moves; otherwise the three answers are those for the current position. "
  "Making a move through a checker returns exactly the legality answer, makes the move when it is legal and leaves the position untouched when it is not.",
  ["inputs", "histories", "configurations"], "all checkers (status and legality answers), positions and moves",
  "The crate contains no checker and no test implements one, so default methods are never run.",
  [S + "legality.rs"],
  [("default methods", S + "legality.rs LegalityChecker::is_legal, is_legal_lite, all_legal_moves, make_move")],
  None, ["answers of default methods for programmable checkers, position afterwards"])

p("C20", "The C interface behaves like the Rust interface",
  "Every function of the C interface can be called from C through the published header, and gives for every argument the same result, with the same effect on the objects, as its Rust counterpart: for values over their whole domain, and for positions and games after every history of moves. "
  "Sizes and layouts of the types in the header agree with those of the library, and optional results use 0 for nothing.",
  ["inputs", "histories"], "all C functions, all arguments for finite domains, all move histories",
  "One small C program calls two functions on the starting position; the remaining exports are never called through the header.",
  ["include/shogi_core.h", "shogi_core_c/src/lib.rs", POS, S + "square.rs", S + "piece.rs", S + "piece_kind.rs", S + "hand.rs", S + "mv.rs", S + "bitboard.rs"],
  [("exports", "extern \"C\" functions in " + S + "*.rs"), ("header", "include/shogi_core.h")],
  None, ["results of a C program linked with the built library"])

p("C21", "SFEN output into a C buffer is bounded, terminated and complete",
  "Writing SFEN into a caller's buffer from C produces exactly the SFEN text followed by a terminating NUL, and nothing is written beyond that NUL nor before the buffer. "
  "For every position that can arise from the starting position by moves this takes at most the documented 139 bytes.",
  ["histories", "inputs"], "all positions reachable from the starting position, in particular those with the longest text",
  "One test writes the starting position into a large buffer; bytes after the NUL, and long positions near the bound, are not checked.",
  [POS, "include/shogi_core.h"],
  [("C writer", POS + " PartialPosition::to_sfen_c, Position::to_sfen_c")],
  None, ["bytes of a guarded buffer"])

p("C22", "The no-std runtime hands out aligned, disjoint memory and correct primitives",
  "In the freestanding build of the C library, every allocation that succeeds is aligned as requested, lies inside the arena and is disjoint from all earlier ones, also with concurrent allocation from several threads; a request fails, with a null pointer and disturbing nothing, only when it does not fit or its alignment is above the supported 4096. "
  "The supplied memory copy, fill, zero and compare primitives touch exactly the given ranges and give the standard results.",
  ["schedules", "histories", "inputs"], "all interleavings of concurrent allocations of any sizes and alignments until exhaustion; all ranges and contents for the primitives",
  "No test runs the freestanding build; the tests use the standard allocator.",
  ["shogi_core_c/src/no_std.rs"],
  [("bump allocator", "shogi_core_c/src/no_std.rs SimpleAllocator"), ("memory primitives", "shogi_core_c/src/no_std.rs memcpy, memset, memcmp, __bzero")],
  [("remaining", "bytes of the arena not yet handed out", "shogi_core_c/src/no_std.rs")],
  ["pointers returned to concurrent callers", "memory contents around the ranges"])

p("C23", "Features and build profiles decide what is available, never what it does",
  "Which cargo features the crate is built with (alloc, std, hash, ord, experimental, in any combination), whether it is optimized or built with debug assertions, and whether the C library is freestanding, decides only which items exist: "
  "everything available in a build accepts the same inputs, has the same results and effects, and writes the same text as in the build with everything. "
  "In particular positions, bitboards, hands, moves and text output work alike without an allocator, positions with history and games alike with alloc only, and every C function exported by a freestanding library behaves as that of the ordinary one.",
  ["configurations", "inputs", "histories"], "all 24 distinct feature sets, debug and release profiles, C libraries with and without std, alloc and experimental; all operations of the other properties",
  "The test suite is run with all features in the debug profile only; the other feature sets are compiled but never executed.",
  [S + "lib.rs", POS, S + "bitboard.rs", S + "hand.rs", S + "mv.rs", S + "piece.rs", S + "piece_kind.rs", S + "to_usi.rs", S + "legality.rs", S + "annotated_derive.rs", "shogi_core_c/src/lib.rs", "shogi_core_c/src/no_std.rs"],
  [("feature gates", "#[cfg(feature = ...)] throughout " + S), ("generated impls", S + "annotated_derive.rs"), ("freestanding runtime", "shogi_core_c/src/no_std.rs")],
  None, ["the same recordings as for the other properties, made by a driver built with each feature set"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
