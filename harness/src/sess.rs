//! Sessions: a real position object driven by operations, every operation recorded
//! together with everything observable afterwards.
use crate::obs::*;
use crate::out::{arr, Out};
use crate::rng::Rng;
use crate::shim::*;
use shogi_core::*;

pub struct Sess<'a, T: Target> {
    pub o: &'a mut Out,
    pub t: T,
    pub prev: Obs,
}

impl<'a, T: Target> Sess<'a, T> {
    /// Starts a session: `how` names where the object came from, `extra` are further members.
    pub fn new(o: &'a mut Out, t: T, how: &str, extra: &str) -> Self {
        o.next_session();
        let mut s = Sess {
            o,
            t,
            prev: Obs::zero(T::FULL),
        };
        s.emit(format!(
            "{{\"e\":\"new\",\"full\":{},\"how\":\"{}\"{}",
            T::FULL,
            how,
            extra
        ));
        s
    }
    /// Starts over with another object, in the same shard.
    pub fn restart(&mut self, t: T, how: &str, extra: &str) {
        self.t = t;
        self.prev = Obs::zero(T::FULL);
        self.emit(format!(
            "{{\"e\":\"new\",\"full\":{},\"how\":\"{}\"{}",
            T::FULL,
            how,
            extra
        ));
    }
    pub fn emit(&mut self, mut line: String) {
        let now = self.t.obs();
        now.delta(&self.prev, &mut line);
        line.push('}');
        self.o.line(&line);
        self.prev = now;
    }
    /// `via` 0: make_move, 1: make_compact_move.
    pub fn mv(&mut self, m: M, via: u8) -> bool {
        self.o
            .pending(&|| format!("make_move {} (packed form: {})", m.json(), via));
        let before = self.t.clone();
        let r = if via == 0 {
            self.t.make(m.mv())
        } else {
            self.t.make_compact(m.mv().into())
        };
        let eq = self.t == before;
        let hq = same_hash(&self.t, &before, eq);
        let cq = same_order(&self.t, &before, eq);
        self.emit(format!(
            "{{\"e\":\"mv\",\"via\":{},\"m\":{},\"r\":{},\"eq\":{},\"hq\":{},\"cq\":{}",
            via,
            m.json(),
            r as u8,
            eq as u8,
            hq as u8,
            cq as u8
        ));
        r
    }
    pub fn ps(&mut self, s: u8, p: u8) {
        self.o.pending(&|| format!("piece_set {} {}", s, p));
        self.t
            .set(sq(s), if p == 0 { None } else { Some(piece(p)) });
        self.emit(format!("{{\"e\":\"ps\",\"s\":{},\"p\":{}", s, p));
    }
    /// Replaces a player's hand by one with the given counts.
    pub fn hs(&mut self, c: u8, h: [u8; 7]) {
        self.o.pending(&|| format!("set hand {} {:?}", c, h));
        *self.t.hand_mut(color(c)) = hand_with(h);
        self.emit(format!("{{\"e\":\"hs\",\"c\":{},\"h\":{}", c, arr(h)));
    }
    pub fn sd(&mut self, c: u8) {
        self.o.pending(&|| format!("side_to_move_set {}", c));
        if self.t.set_side(color(c)) {
            self.emit(format!("{{\"e\":\"sd\",\"c\":{}", c));
        }
    }
    pub fn pl(&mut self, n: u16) {
        self.o.pending(&|| format!("ply_set {}", n));
        if let Some(r) = self.t.set_ply(n) {
            self.emit(format!("{{\"e\":\"pl\",\"n\":{},\"r\":{}", n, r as u8));
        }
    }
    /// Clones, lets the clone lead a life of its own, assigns the original to it and to something
    /// unlike, and goes on with the original or one of these.
    pub fn cl(&mut self, rng: &mut Rng) {
        self.o.pending(&|| "clone".to_string());
        let alike = |c: &T, t: &T| {
            c == t && t == c && same_hash(c, t, true) && same_order(c, t, true) && c.sfen() == t.sfen()
        };
        let mut c = self.t.clone();
        let mut same = c.obs() == self.prev;
        let mut eq = alike(&c, &self.t);
        for _ in 0..3 {
            let m = sensible(&c.obs(), rng);
            if let Some(m) = m {
                c.make(m.mv());
            }
            c.set(sq(1 + rng.below(81) as u8), Some(piece(rng.pick(&PIECES))));
            *c.hand_mut(color(1 + rng.below(2) as u8)) = hand_with([1, 0, 2, 0, 3, 0, 1]);
        }
        let mut d = T::other(rng.below(1000));
        for x in [&mut c, &mut d] {
            x.clone_from(&self.t);
            same &= x.obs() == self.prev;
            eq &= alike(x, &self.t);
        }
        match rng.below(3) {
            0 => std::mem::swap(&mut self.t, &mut c),
            1 => std::mem::swap(&mut self.t, &mut d),
            _ => {}
        }
        drop(c);
        self.emit(format!(
            "{{\"e\":\"cl\",\"same\":{},\"eq\":{}",
            same as u8, eq as u8
        ));
    }
}

#[cfg(feature = "alloc")]
impl<'a> Sess<'a, Position> {
    /// Replays the recorded moves from the initial position.
    pub fn rp(&mut self) {
        let mut p = self.t.initial_position().clone();
        let mut ok = true;
        for &m in self.t.moves() {
            ok &= p.make_move(m).is_some();
        }
        let eq = p == *self.t.inner()
            && same_order(&p, self.t.inner(), true)
            && same_hash(&p, self.t.inner(), true)
            && summary(&p) == summary(self.t.inner());
        self.emit(format!(
            "{{\"e\":\"rp\",\"ok\":{},\"eq\":{}",
            ok as u8, eq as u8
        ));
    }
}

pub fn hand_with(h: [u8; 7]) -> Hand {
    let mut r = Hand::new();
    for k in 1..=7u8 {
        for _ in 0..h[k as usize - 1] {
            r = r.added(kind(k)).expect("a hand kind can be added");
        }
    }
    r
}

/// The specification's view of "makes sense" is in Position.tla; this is only a generator
/// that aims at sensible moves (whether they are is for the specification to say).
pub fn sensible(o: &Obs, rng: &mut Rng) -> Option<M> {
    let side = o.side();
    let off = if side == 2 { 16 } else { 0 };
    let own = |p: u8| p != 0 && (p >= 16) == (side == 2);
    if rng.chance(1, 3) {
        // a drop
        let ks: Vec<u8> = (1..=7).filter(|&k| o.hand(side, k) > 0).collect();
        let vs: Vec<u8> = (1..=81).filter(|&s| o.board(s) == 0).collect();
        if !ks.is_empty() && !vs.is_empty() {
            return Some(M::drop(rng.pick(&ks) + off, rng.pick(&vs)));
        }
    }
    let from: Vec<u8> = (1..=81).filter(|&s| own(o.board(s))).collect();
    if from.is_empty() {
        return None;
    }
    let cap = rng.chance(1, 3);
    let to: Vec<u8> = (1..=81)
        .filter(|&s| {
            let p = o.board(s);
            !own(p) && p & 15 != 8 && (!cap || p != 0)
        })
        .collect();
    if to.is_empty() {
        return None;
    }
    let f = rng.pick(&from);
    let can = piece(o.board(f)).promote().is_some();
    Some(M::normal(f, rng.pick(&to), (can && rng.chance(2, 5)) as u8))
}

/// Moves that miss sense in one respect.
pub fn nonsense(o: &Obs, rng: &mut Rng) -> M {
    let side = o.side();
    let off = if side == 2 { 16u8 } else { 0 };
    let all: Vec<u8> = (1..=81).collect();
    let own: Vec<u8> = all
        .iter()
        .copied()
        .filter(|&s| o.board(s) != 0 && (o.board(s) >= 16) == (side == 2))
        .collect();
    let enemy: Vec<u8> = all
        .iter()
        .copied()
        .filter(|&s| o.board(s) != 0 && (o.board(s) >= 16) != (side == 2))
        .collect();
    let empty: Vec<u8> = all.iter().copied().filter(|&s| o.board(s) == 0).collect();
    let p2 = rng.below(2) as u8;
    for _ in 0..20 {
        let w = rng.below(14);
        let any = rng.pick(&all);
        match w {
            0 if !empty.is_empty() => return M::normal(rng.pick(&empty), any, p2),
            1 if !own.is_empty() => return M::normal(rng.pick(&own), rng.pick(&own), p2),
            2 if !own.is_empty() => {
                let s = rng.pick(&own);
                return M::normal(s, s, p2);
            }
            3 if !enemy.is_empty() => return M::normal(rng.pick(&enemy), any, p2),
            4 if !own.is_empty() => {
                // promoting what may not be promotable
                let v: Vec<u8> = own
                    .iter()
                    .copied()
                    .filter(|&s| piece(o.board(s)).promote().is_none())
                    .collect();
                if !v.is_empty() {
                    return M::normal(rng.pick(&v), any, 1);
                }
            }
            5 | 6 if !own.is_empty() => {
                let k: Vec<u8> = enemy
                    .iter()
                    .copied()
                    .filter(|&s| o.board(s) & 15 == 8)
                    .collect();
                if !k.is_empty() {
                    return M::normal(rng.pick(&own), rng.pick(&k), p2);
                }
            }
            7 if empty.len() < 81 => {
                let occ: Vec<u8> = all.iter().copied().filter(|&s| o.board(s) != 0).collect();
                let ks: Vec<u8> = (1..=7).filter(|&k| o.hand(side, k) > 0).collect();
                if !ks.is_empty() {
                    return M::drop(rng.pick(&ks) + off, rng.pick(&occ));
                }
            }
            8 if !empty.is_empty() => {
                let ks: Vec<u8> = (1..=7).filter(|&k| o.hand(side, k) == 0).collect();
                if !ks.is_empty() {
                    return M::drop(rng.pick(&ks) + off, rng.pick(&empty));
                }
            }
            9 if !empty.is_empty() => {
                // the other side's piece
                let ks: Vec<u8> = (1..=7)
                    .filter(|&k| o.hand(3 - side, k) > 0 || o.hand(side, k) > 0)
                    .collect();
                if !ks.is_empty() {
                    return M::drop(rng.pick(&ks) + (16 - off), rng.pick(&empty));
                }
            }
            10 if !empty.is_empty() => {
                return M::drop(9 + rng.below(6) as u8 + off, rng.pick(&empty))
            }
            11 if !empty.is_empty() => return M::drop(8 + off, rng.pick(&empty)),
            12 => return M::drop(rng.pick(&PIECES), any),
            13 => return M::normal(any, rng.pick(&all), p2),
            _ => {}
        }
    }
    M::normal(1, 1, 0)
}

/// A position made directly, without recording how.
pub fn craft(cells: &[(u8, u8)], hands: [[u8; 7]; 2], side: u8, ply: u16) -> PartialPosition {
    let mut p = PartialPosition::empty();
    for &(s, q) in cells {
        p.piece_set(sq(s), if q == 0 { None } else { Some(piece(q)) });
    }
    for c in [1u8, 2] {
        let h = hands[c as usize - 1];
        if h != [0; 7] {
            *p.hand_of_a_player_mut(color(c)) = hand_with(h);
        }
    }
    if side == 2 {
        p.side_to_move_set(Color::White);
    }
    if ply != 1 {
        let _ = p.ply_set(ply);
    }
    p
}

pub fn random_position(rng: &mut Rng, density: usize) -> PartialPosition {
    let mut cells = vec![];
    let kings = rng.chance(4, 5);
    for s in 1..=81u8 {
        if rng.chance(density, 100) {
            let mut q = rng.pick(&PIECES);
            if q & 15 == 8 && kings {
                q -= 1; // kings are placed below
            }
            cells.push((s, q));
        }
    }
    if kings {
        cells.push((1 + rng.below(81) as u8, 8));
        cells.push((1 + rng.below(81) as u8, 24));
    }
    let mut h = [[0u8; 7]; 2];
    for c in 0..2 {
        for k in 0..7 {
            if rng.chance(1, 2) {
                h[c][k] = match rng.below(8) {
                    0 => 255,
                    1 => 100 + rng.below(156) as u8,
                    2 => 10 + rng.below(90) as u8,
                    _ => rng.below(10) as u8,
                };
            }
        }
    }
    let ply = match rng.below(8) {
        0 => 65535,
        1 => 10000 + rng.below(55000) as u16,
        2 => 1000 + rng.below(9000) as u16,
        _ => 1 + rng.below(300) as u16,
    };
    craft(&cells, h, 1 + rng.below(2) as u8, ply)
}

pub fn random_moves<T: Target>(s: &mut Sess<T>, rng: &mut Rng, n: usize, bad: usize) {
    for _ in 0..n {
        let via = rng.below(2) as u8;
        let m = if rng.chance(bad, 100) {
            Some(nonsense(&s.prev, rng))
        } else {
            sensible(&s.prev, rng)
        };
        match m {
            Some(m) => {
                s.mv(m, via);
            }
            None => {
                let m = nonsense(&s.prev, rng);
                s.mv(m, via);
            }
        }
    }
}
