//! Legality checkers that supply only the required methods.
use crate::obs::*;
use crate::out::{arr, Out};
use crate::rng::Rng;
use crate::sess::*;
use shogi_core::*;

pub const STATUS: [PositionStatus; 5] = [
    PositionStatus::BlackWins,
    PositionStatus::WhiteWins,
    PositionStatus::Draw,
    PositionStatus::InProgress,
    PositionStatus::Invalid,
];
fn st_code(s: PositionStatus) -> u8 {
    match s {
        PositionStatus::BlackWins => 1,
        PositionStatus::WhiteWins => 2,
        PositionStatus::Draw => 3,
        PositionStatus::InProgress => 4,
        PositionStatus::Invalid => 5,
    }
}
pub const WHY: [IllegalMoveKind; 7] = [
    IllegalMoveKind::TwoPawns,
    IllegalMoveKind::IgnoredCheck,
    IllegalMoveKind::DropPawnMate,
    IllegalMoveKind::DropStuck,
    IllegalMoveKind::NormalStuck,
    IllegalMoveKind::GameFinished,
    IllegalMoveKind::IncorrectMove,
];
pub fn r_code(r: Result<(), IllegalMoveKind>) -> u8 {
    match r {
        Ok(()) => 0,
        Err(IllegalMoveKind::TwoPawns) => 1,
        Err(IllegalMoveKind::IgnoredCheck) => 2,
        Err(IllegalMoveKind::DropPawnMate) => 3,
        Err(IllegalMoveKind::DropStuck) => 4,
        Err(IllegalMoveKind::NormalStuck) => 5,
        Err(IllegalMoveKind::GameFinished) => 6,
        Err(IllegalMoveKind::IncorrectMove) => 7,
    }
}
fn mix(v: &[i32], salt: u64) -> u64 {
    let mut h = 0xcbf29ce484222325u64 ^ salt.wrapping_mul(0x9E3779B97F4A7C15);
    for &x in v {
        h = (h ^ x as u32 as u64).wrapping_mul(0x100000001b3);
        h ^= h >> 29;
    }
    h ^ (h >> 32)
}
fn mv_of(m: Move) -> [i32; 4] {
    let m = M::of(m);
    [m.d as i32, m.a as i32, m.t as i32, m.p as i32]
}

/// Answers are functions of all that is observable of the arguments, so that asking about
/// another position or move than the one given shows in the answers.
struct Checker {
    salt: u64,
    /// Fixed answers instead: status, reason (8: hashed), quick answer, number of moves.
    fixed: Option<(u8, u8, u8, u8)>,
}
impl Checker {
    fn sensible(p: &PartialPosition, m: Move) -> bool {
        p.clone().make_move(m).is_some()
    }
}
impl LegalityChecker for Checker {
    fn status(&self, p: &Position) -> PositionStatus {
        if let Some(f) = self.fixed {
            return STATUS[f.0 as usize - 1];
        }
        let mut v = summary(p.inner());
        v.extend(summary(p.initial_position()));
        for &m in p.moves() {
            v.extend(mv_of(m));
        }
        match mix(&v, self.salt) % 12 {
            x @ 0..=4 => STATUS[x as usize],
            _ => PositionStatus::InProgress,
        }
    }
    fn status_partial(&self, p: &PartialPosition) -> PositionStatus {
        // what a position without its history cannot know: often the opposite
        STATUS[(mix(&summary(p), self.salt ^ 77) % 5) as usize]
    }
    fn is_legal_partial(&self, p: &PartialPosition, m: Move) -> Result<(), IllegalMoveKind> {
        let mut v = summary(p);
        v.extend(mv_of(m));
        let h = mix(&v, self.salt ^ 1);
        let r = match self.fixed {
            Some(f) if f.1 == 0 => Ok(()),
            Some(f) if f.1 < 8 => Err(WHY[f.1 as usize - 1]),
            _ if h % 3 != 0 => Ok(()),
            _ => Err(WHY[(h / 3 % 7) as usize]),
        };
        if r == Ok(()) && !Checker::sensible(p, m) {
            return Err(WHY[(h / 21 % 7) as usize]);
        }
        r
    }
    fn is_legal_partial_lite(&self, p: &PartialPosition, m: Move) -> bool {
        if let Some(f) = self.fixed {
            return f.2 == 1;
        }
        // not tied to is_legal_partial: the two defaults are separate
        let mut v = summary(p);
        v.extend(mv_of(m));
        mix(&v, self.salt ^ 2) % 2 == 0
    }
    fn all_legal_moves_partial(&self, p: &PartialPosition) -> Vec<Move> {
        let h = mix(&summary(p), self.salt ^ 3);
        let n = self.fixed.map_or(h % 5, |f| f.3 as u64);
        // in no order, and some moves more than once: what is given is to be passed on as it is
        (0..n)
            .map(|i| {
                let x = mix(&[(i - (h / 5 >> i) % 2 * (i & 1)) as i32], h);
                M::normal(
                    1 + (x % 81) as u8,
                    1 + (x / 81 % 81) as u8,
                    (x / 7000 % 2) as u8,
                )
                .mv()
            })
            .collect()
    }
    fn normal_from_candidates(&self, _: &PartialPosition, _: Square) -> Bitboard {
        Bitboard::empty()
    }
    fn normal_to_candidates(&self, _: &PartialPosition, _: Square, _: Piece) -> Bitboard {
        Bitboard::empty()
    }
    fn drop_candidates(&self, _: &PartialPosition, _: Piece) -> Bitboard {
        Bitboard::empty()
    }
}

/// The same answers about everything.
pub struct Answers {
    pub status: u8,
    pub why: u8,
    pub quick: bool,
    pub list: Vec<Move>,
}
impl LegalityChecker for Answers {
    fn status(&self, _: &Position) -> PositionStatus {
        STATUS[self.status as usize - 1]
    }
    fn status_partial(&self, _: &PartialPosition) -> PositionStatus {
        // not what a position with history has to be asked for
        STATUS[if self.status == 4 { 0 } else { 3 }]
    }
    fn is_legal_partial(&self, _: &PartialPosition, _: Move) -> Result<(), IllegalMoveKind> {
        match self.why {
            0 => Ok(()),
            x => Err(WHY[x as usize - 1]),
        }
    }
    fn is_legal_partial_lite(&self, _: &PartialPosition, _: Move) -> bool {
        self.quick
    }
    fn all_legal_moves_partial(&self, _: &PartialPosition) -> Vec<Move> {
        self.list.clone()
    }
    fn normal_from_candidates(&self, _: &PartialPosition, _: Square) -> Bitboard {
        Bitboard::empty()
    }
    fn normal_to_candidates(&self, _: &PartialPosition, _: Square, _: Piece) -> Bitboard {
        Bitboard::empty()
    }
    fn drop_candidates(&self, _: &PartialPosition, _: Piece) -> Bitboard {
        Bitboard::empty()
    }
}

impl<'a> Sess<'a, Position> {
    fn asked(&self, c: &Checker, m: M) -> String {
        format!(
            "\"m\":{},\"ks\":{},\"kp\":{},\"kl\":{},\"km\":{}",
            m.json(),
            st_code(c.status(&self.t)),
            r_code(c.is_legal_partial(self.t.inner(), m.mv())),
            c.is_legal_partial_lite(self.t.inner(), m.mv()) as u8,
            arr(c
                .all_legal_moves_partial(self.t.inner())
                .iter()
                .map(|&m| M::of(m).json())),
        )
    }
    fn lg(&mut self, c: &Checker, m: M) {
        self.o
            .pending(&|| format!("legality queries on {}", m.json()));
        let a = self.asked(c, m);
        let il = r_code(c.is_legal(&self.t, m.mv()));
        let li = c.is_legal_lite(&self.t, m.mv()) as u8;
        let al = c.all_legal_moves(&self.t);
        self.emit(format!(
            "{{\"e\":\"lg\",{},\"il\":{},\"li\":{},\"al\":{}",
            a,
            il,
            li,
            arr(al.iter().map(|&m| M::of(m).json()))
        ));
    }
    fn lm(&mut self, c: &Checker, m: M) -> bool {
        self.o
            .pending(&|| format!("make_move through a checker: {}", m.json()));
        let a = self.asked(c, m);
        let before = self.t.clone();
        let r = r_code(c.make_move(&mut self.t, m.mv()));
        let eq = self.t == before;
        self.emit(format!(
            "{{\"e\":\"lm\",{},\"r\":{},\"eq\":{}",
            a, r, eq as u8
        ));
        r == 0
    }
}

fn session<'a>(o: &'a mut Out, rng: &mut Rng, i: usize) -> Sess<'a, Position> {
    match i % 3 {
        0 => Sess::new(o, Position::startpos(), "startpos", ""),
        1 => Sess::new(o, Position::default(), "default", ""),
        _ => {
            let p = random_position(rng, 35);
            let extra = crate::pos_suite::arb(&p);
            Sess::new(o, Position::arbitrary_position(p), "arb", &extra)
        }
    }
}
fn some_move(s: &Sess<Position>, rng: &mut Rng) -> M {
    if rng.chance(1, 4) {
        nonsense(&s.prev, rng)
    } else {
        sensible(&s.prev, rng).unwrap_or(M::normal(1, 2, 0))
    }
}

pub fn run(o: &mut Out, seed: u64, thorough: bool) {
    let mut rng = Rng::new(seed ^ 0x1e6a1);
    let x = if thorough { 12 } else { 2 };
    // every combination of answers, some positions and moves each
    for rep in 0..x {
        for st in 1..=5u8 {
            for why in 0..=8u8 {
                let mut s = session(o, &mut rng, rep + why as usize);
                for lite in 0..2u8 {
                    for n in [0u8, 1, 3] {
                        let c = Checker {
                            salt: rep as u64,
                            fixed: Some((st, why, lite, n)),
                        };
                        let m = some_move(&s, &mut rng);
                        s.lg(&c, m);
                        s.lm(&c, m);
                        s.lg(&c, m);
                        // a real move in between, so that there is a history
                        let m = some_move(&s, &mut rng);
                        s.mv(m, 0);
                    }
                }
            }
        }
    }
    // long games, pieces going back and forth in between
    for i in 0..3 * x {
        let mut s = session(o, &mut rng, i);
        if i % 3 == 2 {
            let mut p = random_position(&mut rng, 35);
            let _ = p.ply_set([65530u16, 250, 32760, 9998][rng.below(4)]);
            let extra = crate::pos_suite::arb(&p);
            s.restart(Position::arbitrary_position(p), "arb", &extra);
        }
        let c = Checker {
            salt: rng.next(),
            fixed: None,
        };
        let open = Checker {
            salt: 0,
            fixed: Some((4, 0, 1, 2)),
        };
        for _ in 0..if thorough { 120 } else { 40 } {
            let m = some_move(&s, &mut rng);
            s.lg(&c, m);
            s.lm(&c, m);
            for _ in 0..3 {
                let m = some_move(&s, &mut rng);
                s.lm(&open, m);
            }
            crate::pos_suite::dance(&mut s, &mut rng, 5);
            let m = some_move(&s, &mut rng);
            s.lg(&open, m);
            s.lm(&open, m);
        }
    }
    // answers depending on the arguments
    for i in 0..30 * x {
        let mut s = session(o, &mut rng, i);
        let c = Checker {
            salt: rng.next(),
            fixed: None,
        };
        for _ in 0..60 {
            let m = some_move(&s, &mut rng);
            s.lg(&c, m);
            let m = some_move(&s, &mut rng);
            if !s.lm(&c, m) && rng.chance(1, 3) {
                let m = some_move(&s, &mut rng);
                s.mv(m, 1);
            }
        }
    }
}
