//! Very long games, recorded up to renaming: what a move does to a position with history does not
//! depend on how many moves were recorded before. Every step of games of tens of thousands of moves
//! is recorded as a session of its own, with the moves recorded before it left out where they
//! are still there afterwards and move numbers counted from 10; equal records are kept once.
use crate::obs::*;
use crate::out::Out;
use crate::rng::Rng;
use crate::sess::*;
use crate::shim::*;
use shogi_core::*;
use std::collections::BTreeSet;

/// Everything but the recorded moves, the move number counted from `ply`.
fn short(p: &Position, ply: i32) -> Obs {
    let mut o = views(p);
    for (name, v) in o.v.iter_mut() {
        if *name == "sc" {
            v[1] = (v[1] - ply + 10).rem_euclid(65536);
        }
    }
    o
}

struct Game {
    p: Position,
    /// The moves recorded when last looked at.
    known: Vec<Move>,
    steps: Vec<[u8; 2]>,
    at: usize,
    n: usize,
}

/// Where a check of everything is due.
fn special(n: usize) -> bool {
    let near = |m: usize| n % m <= 1 || n % m == m - 1;
    n < 70 || near(1000) || near(256) || n % 997 == 0
}

impl Game {
    fn new(p: Position) -> Game {
        let known = p.moves().to_vec();
        Game {
            p,
            known,
            steps: vec![],
            at: 0,
            n: 0,
        }
    }
    /// One piece of each player that can go somewhere and come back.
    fn plan(&mut self, rng: &mut Rng) {
        self.at = 0;
        self.steps.clear();
        let side = self.p.side_to_move();
        for c in [side, side.flip()] {
            let own: Vec<u8> = (1..=81).filter(|&s| self.p.player_bitboard(c).contains(sq(s))).collect();
            let free: Vec<u8> = (1..=81u8)
                .filter(|&s| self.p.vacant_bitboard().contains(sq(s)) && (s % 2 == 0) == (c == Color::Black))
                .collect();
            if own.is_empty() || free.is_empty() {
                self.steps.clear();
                return;
            }
            self.steps.push([rng.pick(&own), rng.pick(&free)]);
        }
    }
    fn recorded(&mut self) -> Vec<M> {
        let now = self.p.moves();
        let n = self.known.len();
        let kept = now.len() >= n
            && if special(self.n) {
                now[..n] == self.known[..]
            } else {
                now[..n.min(60)] == self.known[..n.min(60)]
                    && now[n.saturating_sub(60)..n] == self.known[n.saturating_sub(60)..]
            };
        if kept {
            let r: Vec<M> = now[n..].iter().take(3).map(|&m| M::of(m)).collect();
            self.known.extend_from_slice(&now[n..]);
            r
        } else {
            let m = M { d: 9, a: 9, t: 9, p: 9 };
            vec![m, m]
        }
    }
    fn head(&self, before: &Obs) -> String {
        let mut s = "{\"e\":\"new\",\"full\":1,\"how\":\"mid\"".to_string();
        before.delta(&Obs::zero(1), &mut s);
        s.push_str("}\n");
        s
    }
    fn mv(&mut self, m: M, via: u8, deep: bool) -> (String, bool) {
        let ply = self.p.ply() as i32;
        let before = short(&self.p, ply);
        let mut s = self.head(&before);
        let copy = if deep { Some(self.p.clone()) } else { None };
        let r = if via == 0 {
            self.p.make_move(m.mv()).is_some()
        } else {
            self.p.make_compact_move(m.mv().into())
        };
        self.n += 1;
        // a refused move leaves something equal to a copy taken before
        let (mut eq, mut hq, mut cq) = (!r, true, true);
        if let Some(c) = copy {
            eq = self.p == c;
            hq = same_hash(&self.p, &c, eq);
            cq = same_order(&self.p, &c, eq);
        }
        s.push_str(&format!(
            "{{\"e\":\"mv\",\"via\":{},\"m\":{},\"r\":{},\"eq\":{},\"hq\":{},\"cq\":{}",
            via,
            m.json(),
            r as u8,
            eq as u8,
            hq as u8,
            cq as u8
        ));
        let mut now = short(&self.p, ply);
        now.moves = self.recorded();
        now.delta(&before, &mut s);
        s.push('}');
        (s, r)
    }
    fn dance(&mut self, rng: &mut Rng) -> Option<M> {
        if self.steps.is_empty() {
            self.plan(rng);
        }
        if self.steps.is_empty() {
            return None;
        }
        let [a, b] = self.steps[self.at % 2];
        let m = if (self.at / 2) % 2 == 0 {
            M::normal(a, b, 0)
        } else {
            M::normal(b, a, 0)
        };
        self.at += 1;
        Some(m)
    }
    /// A copy, made in one of several ways, and the moves replayed from the initial position.
    fn copies(&mut self, rng: &mut Rng) -> String {
        let ply = self.p.ply() as i32;
        let before = short(&self.p, ply);
        let mut s = self.head(&before);
        let mut c = if rng.chance(1, 2) {
            self.p.clone()
        } else {
            let mut c = <Position as Target>::other(rng.below(1000));
            c.clone_from(&self.p);
            c
        };
        let same = short(&c, ply) == before && c.moves() == self.p.moves();
        let eq = c == self.p && same_hash(&c, &self.p, true) && same_order(&c, &self.p, true);
        let mut q = self.p.initial_position().clone();
        let mut ok = true;
        for &m in self.p.moves() {
            ok &= q.make_move(m).is_some();
        }
        let inner = self.p.inner();
        let re = q == *inner && same_order(&q, inner, true) && same_hash(&q, inner, true) && summary(&q) == summary(inner);
        if rng.chance(1, 2) {
            std::mem::swap(&mut c, &mut self.p);
        }
        s.push_str(&format!("{{\"e\":\"cl\",\"same\":{},\"eq\":{}", same as u8, eq as u8));
        let mut now = short(&self.p, ply);
        now.moves = self.recorded();
        now.delta(&before, &mut s);
        s.push_str(&format!("}}\n{{\"e\":\"rp\",\"ok\":{},\"eq\":{}}}", ok as u8, re as u8));
        s
    }
}

/// Two games side by side in one thread.
fn games(rng: &mut Rng, seen: &mut BTreeSet<String>, len: usize) -> usize {
    let mut count = 0;
    let mut g: Vec<Game> = (0..2)
        .map(|i| {
            let p = match rng.below(4) {
                0 => Position::startpos(),
                _ => {
                    let mut p = random_position(rng, 12);
                    let _ = p.ply_set([1, 60000, 65500, 300][rng.below(4)] + i);
                    Position::arbitrary_position(p)
                }
            };
            Game::new(p)
        })
        .collect();
    for j in 0..len {
        let g = &mut g[j % 2];
        let at = special(g.p.moves().len());
        let deep = g.p.moves().len() < 70 || g.n % 1000 < 3;
        if seen.len() > 40_000 {
            break;
        }
        if at && rng.chance(1, 3) {
            let o = Target::obs(&g.p);
            let m = match rng.below(3) {
                0 => sensible(&o, rng),
                _ => Some(nonsense(&o, rng)),
            };
            if let Some(m) = m {
                let (s, r) = g.mv(m, rng.below(2) as u8, deep);
                seen.insert(s);
                count += 1;
                if r {
                    g.steps.clear();
                }
            }
        }
        if g.n % 4999 == 4998 {
            let s = g.copies(rng);
            seen.insert(s);
            count += 1;
        }
        if let Some(m) = g.dance(rng) {
            let via = (g.n / 4 % 2) as u8;
            let (s, r) = g.mv(m, via, deep);
            if !r {
                g.steps.clear();
            }
            seen.insert(s);
            count += 1;
        }
    }
    count
}

/// A game that comes full circle: after 65536 moves its position is the initial one again, in the move number and
/// the last move too.
fn circle(rng: &mut Rng, seen: &mut BTreeSet<String>) -> usize {
    let mut count = 0;
    for _ in 0..20 {
        let p = random_position(rng, 12);
        let mut g = Game::new(Position::arbitrary_position(p));
        for _ in 0..4 {
            if let Some(m) = g.dance(rng) {
                let _ = g.p.make_move(m.mv());
            }
        }
        if g.p.moves().len() != 4 {
            continue;
        }
        let (steps, at) = (g.steps, g.at);
        g = Game::new(Position::arbitrary_position(g.p.inner().clone()));
        (g.steps, g.at) = (steps, at);
        for _ in 0..65_550 {
            let deep = g.n >= 65_520;
            if let Some(m) = g.dance(rng) {
                let via = (g.n / 4 % 2) as u8;
                let (s, _) = g.mv(m, via, deep);
                seen.insert(s);
                count += 1;
            }
            if g.n % 65_536 == 0 {
                let s = g.copies(rng);
                seen.insert(s);
                count += 1;
            }
            if seen.len() > 40_000 {
                return count;
            }
        }
        return count;
    }
    count
}

pub fn run(o: &mut Out, seed: u64, thorough: bool) {
    let mut all: BTreeSet<String> = BTreeSet::new();
    let mut done = 0;
    std::thread::scope(|sc| {
        let hs: Vec<_> = (0..8u64)
            .map(|i| {
                sc.spawn(move || {
                    let mut rng = Rng::new(seed.wrapping_mul(31) + i * 7919);
                    let mut seen = BTreeSet::new();
                    let mut n = 0;
                    let lens: &[usize] = match (i, thorough) {
                        (0, false) => &[135_000],
                        (_, false) => &[14_000],
                        (0..=3, true) => &[400_000],
                        _ => &[140_000, 30_000, 30_000],
                    };
                    for &l in lens {
                        n += games(&mut rng, &mut seen, l);
                    }
                    if i == 1 || i == 2 {
                        n += circle(&mut rng, &mut seen);
                    }
                    (seen, n)
                })
            })
            .collect();
        for h in hs {
            match h.join() {
                Ok((s, n)) => {
                    all.extend(s);
                    done += n;
                }
                Err(_) => std::process::exit(101),
            }
        }
    });
    for s in &all {
        o.next_session();
        for line in s.split('\n') {
            o.line(line);
        }
    }
    println!("STEPS {} DISTINCT {}", done, all.len());
}
