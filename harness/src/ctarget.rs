//! Positions as they are seen through the C interface (the functions the published header names).
use crate::obs::*;
use shogi_core::*;

// Optional values are the numbers the header says they are.
#[allow(improper_ctypes)]
extern "C" {
    fn PartialPosition_piece_at(p: *const PartialPosition, s: Square) -> u8;
    fn PartialPosition_piece_bitboard(p: *const PartialPosition, q: Piece) -> Bitboard;
    fn PartialPosition_piece_kind_bitboard(p: *const PartialPosition, k: PieceKind) -> Bitboard;
    fn PartialPosition_player_bitboard(p: *const PartialPosition, c: Color) -> Bitboard;
    fn PartialPosition_occupied_bitboard(p: *const PartialPosition) -> Bitboard;
    fn PartialPosition_vacant_bitboard(p: *const PartialPosition) -> Bitboard;
    fn PartialPosition_hand_of_a_player(p: *const PartialPosition, c: Color) -> Hand;
    fn PartialPosition_side_to_move(p: *const PartialPosition) -> Color;
    fn PartialPosition_ply(p: *const PartialPosition) -> u16;
    fn PartialPosition_last_compact_move(p: *const PartialPosition) -> u16;
    fn PartialPosition_make_compact_move(p: *mut PartialPosition, m: CompactMove) -> bool;
    fn PartialPosition_to_sfen_c(p: *const PartialPosition, to: *mut u8);
    fn Position_piece_at(p: *const Position, s: Square) -> u8;
    fn Position_piece_bitboard(p: *const Position, q: Piece) -> Bitboard;
    fn Position_player_bitboard(p: *const Position, c: Color) -> Bitboard;
    fn Position_occupied_bitboard(p: *const Position) -> Bitboard;
    fn Position_vacant_bitboard(p: *const Position) -> Bitboard;
    fn Position_hand_of_a_player(p: *const Position, c: Color) -> Hand;
    fn Position_side_to_move(p: *const Position) -> Color;
    fn Position_ply(p: *const Position) -> u16;
    fn Position_last_compact_move(p: *const Position) -> u16;
    fn Position_make_compact_move(p: *mut Position, m: CompactMove) -> bool;
    fn Position_to_sfen_c(p: *const Position, to: *mut u8);
    fn Position_inner(p: *const Position) -> *const PartialPosition;
    fn Position_initial_position(p: *const Position) -> *const PartialPosition;
    fn Hand_count(h: Hand, k: PieceKind) -> u8;
    fn Hand_is_hand_piece(k: PieceKind) -> bool;
    fn Bitboard_pop(b: *mut Bitboard) -> u8;
    fn CompactMove_from(m: CompactMove) -> u8;
    fn CompactMove_to(m: CompactMove) -> Square;
    fn CompactMove_is_promoting(m: CompactMove) -> bool;
    fn CompactMove_is_drop(m: CompactMove) -> bool;
    fn Piece_color(p: Piece) -> Color;
    fn Piece_piece_kind(p: Piece) -> PieceKind;
}

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct CPartial(pub PartialPosition);
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct CFull(pub Position);

fn parts(m: i32) -> [i32; 4] {
    if m == 0 {
        return [-1; 4];
    }
    unsafe {
        let c = std::mem::transmute::<u16, CompactMove>(m as u16);
        let d = CompactMove_is_drop(c);
        [
            d as i32,
            if d { m >> 8 } else { CompactMove_from(c) as i32 },
            CompactMove_to(c).index() as i32,
            CompactMove_is_promoting(c) as i32,
        ]
    }
}
fn king(mut b: Bitboard) -> i32 {
    unsafe { Bitboard_pop(&mut b) as i32 }
}
fn text(f: impl Fn(*mut u8)) -> String {
    let mut b = vec![0xc3u8; 4096];
    f(b.as_mut_ptr());
    let n = b.iter().position(|&x| x == 0).unwrap_or(0);
    String::from_utf8_lossy(&b[..n]).into_owned()
}

macro_rules! common {
    ($p:expr, $piece_at:ident, $piece_bb:ident, $player_bb:ident, $occ:ident, $vac:ident, $hand:ident, $side:ident, $ply:ident, $last:ident) => {
        unsafe {
            let p = $p;
            let lc = $last(p) as i32;
            Common {
                piece_at: (1..=81).map(|s| $piece_at(p, sq(s)) as i32).collect(),
                by_piece: PIECES.iter().map(|&q| $piece_bb(p, piece(q))).collect(),
                by_player: [$player_bb(p, Color::Black), $player_bb(p, Color::White)],
                occ: $occ(p),
                vac: $vac(p),
                hand_piece: PIECES
                    .iter()
                    .map(|&q| {
                        let h = $hand(p, Piece_color(piece(q)));
                        let k = Piece_piece_kind(piece(q));
                        if Hand_is_hand_piece(k) {
                            Hand_count(h, k) as i32
                        } else {
                            -1
                        }
                    })
                    .collect(),
                hand_of: (0..14)
                    .map(|i| Hand_count($hand(p, color(1 + i / 7)), kind(1 + i % 7)) as i32)
                    .collect(),
                side: $side(p) as i32,
                ply: $ply(p) as i32,
                lc,
                lm: parts(lc),
            }
        }
    };
}
fn partial(p: *const PartialPosition) -> Common {
    common!(
        p,
        PartialPosition_piece_at,
        PartialPosition_piece_bitboard,
        PartialPosition_player_bitboard,
        PartialPosition_occupied_bitboard,
        PartialPosition_vacant_bitboard,
        PartialPosition_hand_of_a_player,
        PartialPosition_side_to_move,
        PartialPosition_ply,
        PartialPosition_last_compact_move
    )
}
fn full(p: *const Position) -> Common {
    common!(
        p,
        Position_piece_at,
        Position_piece_bitboard,
        Position_player_bitboard,
        Position_occupied_bitboard,
        Position_vacant_bitboard,
        Position_hand_of_a_player,
        Position_side_to_move,
        Position_ply,
        Position_last_compact_move
    )
}
fn views(p: *const PartialPosition, c: Common) -> Obs {
    let by_kind = (1..=14).map(|k| unsafe { PartialPosition_piece_kind_bitboard(p, kind(k)) }).collect();
    let kings = [8, 24].map(|q| king(unsafe { PartialPosition_piece_bitboard(p, piece(q)) }));
    assemble(c, by_kind, kings)
}
fn short(p: *const PartialPosition) -> Vec<i32> {
    let c = partial(p);
    let mut v = c.piece_at;
    v.extend(c.hand_of);
    v.extend([c.side, c.ply, c.lc]);
    v.extend([8, 24].map(|q| king(unsafe { PartialPosition_piece_bitboard(p, piece(q)) })));
    v
}

impl Target for CPartial {
    const FULL: u8 = 0;
    fn other(n: usize) -> Self {
        CPartial(Target::other(n))
    }
    fn obs(&self) -> Obs {
        views(&self.0, partial(&self.0))
    }
    fn make(&mut self, m: Move) -> bool {
        self.make_compact(m.into())
    }
    fn make_compact(&mut self, m: CompactMove) -> bool {
        unsafe { PartialPosition_make_compact_move(&mut self.0, m) }
    }
    fn set(&mut self, s: Square, p: Option<Piece>) {
        self.0.piece_set(s, p)
    }
    fn hand_mut(&mut self, c: Color) -> &mut Hand {
        self.0.hand_of_a_player_mut(c)
    }
    fn set_side(&mut self, c: Color) -> bool {
        self.0.side_to_move_set(c);
        true
    }
    fn set_ply(&mut self, n: u16) -> Option<bool> {
        Some(self.0.ply_set(n))
    }
    fn sfen(&self) -> String {
        text(|b| unsafe { PartialPosition_to_sfen_c(&self.0, b) })
    }
}

impl Target for CFull {
    const FULL: u8 = 2;
    fn other(n: usize) -> Self {
        CFull(Target::other(n))
    }
    fn obs(&self) -> Obs {
        let p: *const Position = &self.0;
        let own = full(p);
        let inn = unsafe { Position_inner(p) };
        let mut im = own.diff(&partial(inn));
        let inner_text = text(|b| unsafe { PartialPosition_to_sfen_c(inn, b) });
        im.push((self.sfen() != inner_text) as i32);
        let mut o = views(inn, own);
        o.v.push(("in", short(unsafe { Position_initial_position(p) })));
        o.v.push(("im", im));
        o
    }
    fn make(&mut self, m: Move) -> bool {
        self.make_compact(m.into())
    }
    fn make_compact(&mut self, m: CompactMove) -> bool {
        unsafe { Position_make_compact_move(&mut self.0, m) }
    }
    fn set(&mut self, _: Square, _: Option<Piece>) {
        unreachable!()
    }
    fn hand_mut(&mut self, _: Color) -> &mut Hand {
        unreachable!()
    }
    fn set_side(&mut self, _: Color) -> bool {
        false
    }
    fn set_ply(&mut self, _: u16) -> Option<bool> {
        None
    }
    fn sfen(&self) -> String {
        text(|b| unsafe { Position_to_sfen_c(&self.0, b) })
    }
}
