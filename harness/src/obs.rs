//! Everything a user can observe of a position, as vectors of small integers.
#[allow(unused_imports)]
use crate::shim::*;
use shogi_core::*;
use std::fmt::Write;

pub fn sq(i: u8) -> Square {
    Square::from_u8(i).expect("square in range")
}
pub fn kind(k: u8) -> PieceKind {
    PieceKind::from_u8(k).expect("kind in range")
}
pub fn color(c: u8) -> Color {
    if c == 1 {
        Color::Black
    } else {
        Color::White
    }
}
/// Piece from its documented representation.
pub fn piece(p: u8) -> Piece {
    Piece::new(kind(p & 15), color(if p >= 16 { 2 } else { 1 }))
}
pub fn pcode(p: Option<Piece>) -> i32 {
    p.map_or(0, |p| p.as_u8() as i32)
}
pub fn scode(s: Option<Square>) -> i32 {
    s.map_or(0, |s| s.index() as i32)
}
pub fn mcode(m: CompactMove) -> u16 {
    // CompactMove is documented as the packed 16-bit number (repr(transparent)).
    unsafe { std::mem::transmute::<CompactMove, u16>(m) }
}
pub const PIECES: [u8; 28] = [
    1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28,
    29, 30,
];

/// A move as the four numbers the specification uses.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct M {
    pub d: u8,
    pub a: u8,
    pub t: u8,
    pub p: u8,
}
impl M {
    pub fn normal(a: u8, t: u8, p: u8) -> M {
        M { d: 0, a, t, p }
    }
    pub fn drop(a: u8, t: u8) -> M {
        M { d: 1, a, t, p: 0 }
    }
    pub fn mv(self) -> Move {
        if self.d == 1 {
            Move::Drop {
                piece: piece(self.a),
                to: sq(self.t),
            }
        } else {
            Move::Normal {
                from: sq(self.a),
                to: sq(self.t),
                promote: self.p == 1,
            }
        }
    }
    pub fn of(mv: Move) -> M {
        match mv {
            Move::Normal { from, to, promote } => M {
                d: 0,
                a: from.index(),
                t: to.index(),
                p: promote as u8,
            },
            Move::Drop { piece, to } => M {
                d: 1,
                a: piece.as_u8(),
                t: to.index(),
                p: 0,
            },
        }
    }
    pub fn json(self) -> String {
        format!("[{},{},{},{}]", self.d, self.a, self.t, self.p)
    }
}

/// One named vector of observations.
pub type Vect = (&'static str, Vec<i32>);

#[derive(Clone, PartialEq, Eq)]
pub struct Obs {
    pub v: Vec<Vect>,
    /// Full positions only: the recorded moves.
    pub moves: Vec<M>,
}

impl Obs {
    /// The fixed reference every session's first delta is taken against:
    /// an empty board, nothing in hand, all scalars zero.
    pub fn zero(full: u8) -> Obs {
        let mut v: Vec<Vect> = vec![
            ("pa", vec![0; 81]),
            ("bp", vec![0; 81]),
            ("bk", vec![0; 81]),
            ("bc", vec![0; 81]),
            ("oc", vec![0; 81]),
            ("va", vec![1; 81]),
            ("hp", vec![0; 28]),
            ("hd", vec![0; 14]),
            ("sc", vec![0; 9]),
            ("ct", vec![0; 5]),
        ];
        if full > 0 {
            v.push(("in", vec![0; 100]));
            v.push(("im", vec![0; 12]));
        }
        Obs { v, moves: vec![] }
    }
    pub fn get(&self, n: &str) -> &[i32] {
        &self.v.iter().find(|x| x.0 == n).unwrap().1
    }
    pub fn board(&self, s: u8) -> u8 {
        self.v[0].1[s as usize - 1] as u8
    }
    pub fn hand(&self, c: u8, k: u8) -> i32 {
        self.v[7].1[(c as usize - 1) * 7 + k as usize - 1]
    }
    pub fn side(&self) -> u8 {
        self.v[8].1[0] as u8
    }
    /// JSON members describing how `self` differs from `prev`.
    pub fn delta(&self, prev: &Obs, s: &mut String) {
        for (i, (name, v)) in self.v.iter().enumerate() {
            let pv = &prev.v[i].1;
            if v != pv {
                write!(s, ",\"{}\":[", name).unwrap();
                let mut first = true;
                for j in 0..v.len() {
                    if v[j] != pv[j] {
                        if !first {
                            s.push(',');
                        }
                        first = false;
                        write!(s, "[{},{}]", j + 1, v[j]).unwrap();
                    }
                }
                s.push(']');
            }
        }
        if self.moves != prev.moves {
            let mut keep = 0;
            while keep < self.moves.len()
                && keep < prev.moves.len()
                && self.moves[keep] == prev.moves[keep]
            {
                keep += 1;
            }
            write!(s, ",\"md\":[{}", keep).unwrap();
            for m in &self.moves[keep..] {
                s.push(',');
                s.push_str(&m.json());
            }
            s.push(']');
        }
    }
}

fn rebuilt_differs(bb: Bitboard, members: &[bool; 81]) -> bool {
    let mut r = Bitboard::empty();
    for i in 0..81u8 {
        if members[i as usize] {
            r |= sq(i + 1);
        }
    }
    r != bb
}

fn scan(bb: Bitboard) -> [bool; 81] {
    let mut r = [false; 81];
    for i in 0..81u8 {
        r[i as usize] = bb.contains(sq(i + 1));
    }
    r
}

/// Views offered by both kinds of position.
pub struct Common {
    pub piece_at: Vec<i32>,
    pub by_piece: Vec<Bitboard>,
    pub by_player: [Bitboard; 2],
    pub occ: Bitboard,
    pub vac: Bitboard,
    pub hand_piece: Vec<i32>,
    pub hand_of: Vec<i32>,
    pub side: i32,
    pub ply: i32,
    pub lc: i32,
    pub lm: [i32; 4],
}

macro_rules! common {
    ($p:expr) => {{
        let p = $p;
        let mut hand_of = vec![];
        for c in [1u8, 2] {
            let h = p.hand_of_a_player(color(c));
            for k in 1..=7 {
                hand_of.push(h.count(kind(k)).map_or(-1, |x| x as i32));
            }
        }
        Common {
            piece_at: (1..=81).map(|s| pcode(p.piece_at(sq(s)))).collect(),
            by_piece: PIECES.iter().map(|&q| p.piece_bitboard(piece(q))).collect(),
            by_player: [
                p.player_bitboard(Color::Black),
                p.player_bitboard(Color::White),
            ],
            occ: p.occupied_bitboard(),
            vac: p.vacant_bitboard(),
            hand_piece: PIECES
                .iter()
                .map(|&q| p.hand(piece(q)).map_or(-1, |x| x as i32))
                .collect(),
            hand_of,
            side: p.side_to_move() as i32,
            ply: p.ply() as i32,
            lc: p.last_compact_move().map_or(0, |m| mcode(m) as i32),
            lm: p.last_move().map_or([-1; 4], |m| {
                let m = M::of(m);
                [m.d as i32, m.a as i32, m.t as i32, m.p as i32]
            }),
        }
    }};
}

impl Common {
    pub fn partial(p: &PartialPosition) -> Common {
        common!(p)
    }
    #[cfg(feature = "alloc")]
    pub fn full(p: &Position) -> Common {
        common!(p)
    }
    /// One number per query; which of them differ between two answers.
    pub fn diff(&self, o: &Common) -> Vec<i32> {
        vec![
            (self.piece_at != o.piece_at) as i32,
            (self.by_piece != o.by_piece) as i32,
            (self.by_player != o.by_player) as i32,
            (self.occ != o.occ) as i32,
            (self.vac != o.vac) as i32,
            (self.hand_piece != o.hand_piece) as i32,
            (self.hand_of != o.hand_of) as i32,
            (self.side != o.side) as i32,
            (self.ply != o.ply) as i32,
            (self.lc != o.lc) as i32,
            (self.lm != o.lm) as i32,
        ]
    }
}

fn build(c: Common, inner: &PartialPosition) -> Obs {
    let by_kind = (1..=14u8).map(|k| inner.piece_kind_bitboard(kind(k))).collect();
    let kings = [
        scode(inner.king_position(Color::Black)),
        scode(inner.king_position(Color::White)),
    ];
    assemble(c, by_kind, kings)
}

pub fn assemble(c: Common, by_kind: Vec<Bitboard>, kings: [i32; 2]) -> Obs {
    let mut strays = 0;
    let mut bp = vec![0i32; 81];
    for (n, &bb) in c.by_piece.iter().enumerate() {
        let m = scan(bb);
        strays += rebuilt_differs(bb, &m) as i32;
        for i in 0..81 {
            if m[i] {
                // a square in two piece sets at once shows as 1000 or more
                bp[i] = if bp[i] == 0 {
                    PIECES[n] as i32
                } else {
                    bp[i] + 1000
                };
            }
        }
    }
    let mut bk = vec![0i32; 81];
    for k in 1..=14u8 {
        let bb = by_kind[k as usize - 1];
        let m = scan(bb);
        strays += rebuilt_differs(bb, &m) as i32;
        for i in 0..81 {
            if m[i] {
                bk[i] = if bk[i] == 0 { k as i32 } else { bk[i] + 1000 };
            }
        }
    }
    let mut bc = vec![0i32; 81];
    for (n, &bb) in c.by_player.iter().enumerate() {
        let m = scan(bb);
        strays += rebuilt_differs(bb, &m) as i32;
        for i in 0..81 {
            if m[i] {
                bc[i] += n as i32 + 1; // 3: claimed by both
            }
        }
    }
    let om = scan(c.occ);
    let vm = scan(c.vac);
    strays += rebuilt_differs(c.occ, &om) as i32;
    strays += rebuilt_differs(c.vac, &vm) as i32;
    let mut sc = vec![c.side, c.ply, c.lc];
    sc.extend(c.lm);
    sc.extend(kings);
    Obs {
        v: vec![
            ("pa", c.piece_at),
            ("bp", bp),
            ("bk", bk),
            ("bc", bc),
            ("oc", om.iter().map(|&x| x as i32).collect()),
            ("va", vm.iter().map(|&x| x as i32).collect()),
            ("hp", c.hand_piece),
            ("hd", c.hand_of),
            ("sc", sc),
            (
                "ct",
                vec![
                    c.occ.count() as i32,
                    c.vac.count() as i32,
                    c.by_player[0].count() as i32,
                    c.by_player[1].count() as i32,
                    strays,
                ],
            ),
        ],
        moves: vec![],
    }
}

/// Flat summary of a partial position: board, hands, side, ply, last move, kings.
pub fn summary(p: &PartialPosition) -> Vec<i32> {
    let c = Common::partial(p);
    let mut v = c.piece_at;
    v.extend(c.hand_of);
    v.push(c.side);
    v.push(c.ply);
    v.push(c.lc);
    v.push(scode(p.king_position(Color::Black)));
    v.push(scode(p.king_position(Color::White)));
    v
}

pub trait Target: Clone + Eq + MaybeOrd + MaybeHash {
    /// 0: without history, 1: with, 2: with, through C.
    const FULL: u8;
    fn obs(&self) -> Obs;
    fn make(&mut self, m: Move) -> bool;
    fn make_compact(&mut self, m: CompactMove) -> bool;
    fn set(&mut self, s: Square, p: Option<Piece>);
    fn hand_mut(&mut self, c: Color) -> &mut Hand;
    fn set_side(&mut self, c: Color) -> bool;
    fn set_ply(&mut self, n: u16) -> Option<bool>;
    fn sfen(&self) -> String;
    /// Objects unlike most: what is assigned to them has to replace everything.
    fn other(n: usize) -> Self;
    #[cfg(feature = "alloc")]
    fn with_history(&mut self) -> &mut Position {
        unreachable!()
    }
}

/// A few positions that have little in common.
pub fn unlike(n: usize) -> PartialPosition {
    let mut p = match n % 3 {
        0 => PartialPosition::empty(),
        _ => PartialPosition::startpos(),
    };
    if n % 3 != 1 {
        p.piece_set(sq(1 + (n * 7 % 81) as u8), Some(Piece::W_K));
        p.piece_set(sq(1 + (n * 11 % 80) as u8), Some(Piece::B_PP));
        *p.hand_of_a_player_mut(Color::White) = crate::sess::hand_with([9, 0, 1, 2, 0, 1, 1]);
        let _ = p.ply_set(1 + (n * 977 % 65000) as u16);
        p.side_to_move_set(color(1 + (n % 2) as u8));
    }
    p
}

impl Target for PartialPosition {
    const FULL: u8 = 0;
    fn other(n: usize) -> Self {
        let mut p = unlike(n);
        if n % 2 == 1 {
            p.piece_set(sq(19), Some(Piece::B_S));
            p.side_to_move_set(Color::Black);
            let _ = p.make_move(M::normal(19, 2, 0).mv());
        }
        p
    }
    fn obs(&self) -> Obs {
        build(Common::partial(self), self)
    }
    fn make(&mut self, m: Move) -> bool {
        self.make_move(m).is_some()
    }
    fn make_compact(&mut self, m: CompactMove) -> bool {
        self.make_compact_move(m)
    }
    fn set(&mut self, s: Square, p: Option<Piece>) {
        self.piece_set(s, p)
    }
    fn hand_mut(&mut self, c: Color) -> &mut Hand {
        self.hand_of_a_player_mut(c)
    }
    fn set_side(&mut self, c: Color) -> bool {
        self.side_to_move_set(c);
        true
    }
    fn set_ply(&mut self, n: u16) -> Option<bool> {
        Some(self.ply_set(n))
    }
    fn sfen(&self) -> String {
        self.to_sfen_owned()
    }
}

/// Everything observable of a position with history but the recorded moves.
#[cfg(feature = "alloc")]
pub fn views(p: &Position) -> Obs {
    let own = Common::full(p);
    let inn = Common::partial(p.inner());
    let mut im = own.diff(&inn);
    im.push((p.to_sfen_owned() != p.inner().to_sfen_owned()) as i32);
    let mut o = build(own, p.inner());
    o.v.push(("in", summary(p.initial_position())));
    o.v.push(("im", im));
    o
}

#[cfg(feature = "alloc")]
#[allow(deprecated)]
impl Target for Position {
    const FULL: u8 = 1;
    fn with_history(&mut self) -> &mut Position {
        self
    }
    fn other(n: usize) -> Self {
        let mut p = Position::arbitrary_position(unlike(n / 3));
        for i in 0..n % 5 {
            let m = (1..=81)
                .flat_map(|a| [9, 10, 1].map(|d| M::normal(a, 1 + (a + d + i as u8) % 81, 0).mv()))
                .find(|&m| p.clone().make_move(m).is_some());
            if let Some(m) = m {
                let _ = p.make_move(m);
            }
        }
        p
    }
    fn obs(&self) -> Obs {
        let mut o = views(self);
        o.moves = self.moves().iter().map(|&m| M::of(m)).collect();
        o
    }
    fn make(&mut self, m: Move) -> bool {
        self.make_move(m).is_some()
    }
    fn make_compact(&mut self, m: CompactMove) -> bool {
        self.make_compact_move(m)
    }
    fn set(&mut self, s: Square, p: Option<Piece>) {
        self.piece_set(s, p)
    }
    fn hand_mut(&mut self, c: Color) -> &mut Hand {
        self.hand_of_a_player_mut(c)
    }
    fn set_side(&mut self, _: Color) -> bool {
        false
    }
    fn set_ply(&mut self, _: u16) -> Option<bool> {
        None
    }
    fn sfen(&self) -> String {
        self.to_sfen_owned()
    }
}
