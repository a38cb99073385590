//! Sweeps over squares, move numbers and hand counts, recorded up to renaming.
//!
//! The rules of a position do not tell one square from another (spec/Laws.tla, "squares are alike"),
//! nor one move number or one count of a hand from another beyond being zero. So a scenario is
//! carried out on the real squares, with real numbers, everything observed is renamed (the squares
//! of the scenario to fixed ones by a permutation of the board, numbers by a translation), and of all
//! the scenarios that look the same after renaming one is recorded. Whatever the code does
//! differently on some square or number shows as a record of its own.
use crate::obs::*;
use crate::out::{arr, Out};
use crate::rng::Rng;
use crate::sess::*;
use crate::shim::*;
use shogi_core::*;
use std::cell::RefCell;
use std::collections::BTreeSet;

/// Where the squares of a scenario go.
const CANON: [u8; 8] = [41, 50, 77, 5, 20, 21, 62, 9];

#[derive(Clone)]
struct Ren {
    sq: [u8; 82],
    ply: Vec<(i32, i32)>,
    /// Per player and kind: the count at the start, and what stands for it.
    hand: [(i32, i32); 14],
    /// Pieces that have no part in the scenario (kings never are among them): left out of the
    /// record as long as every view shows them where they were (spec/Laws.tla, "bystanders").
    gone: [u8; 82],
}

impl Ren {
    fn new(roles: &[u8], ply: Vec<(i32, i32)>, hand: [(i32, i32); 14]) -> Ren {
        let mut sq = [0u8; 82];
        for i in 0..82 {
            sq[i] = i as u8;
        }
        for (i, &r) in roles.iter().enumerate() {
            let x = (1..=81).find(|&x| sq[x] == CANON[i]).unwrap();
            let at = sq[r as usize];
            sq[x] = at;
            sq[r as usize] = CANON[i];
        }
        Ren { sq, ply, hand, gone: [0; 82] }
    }
    fn without(mut self, bystanders: &[(u8, u8)]) -> Ren {
        for &(s, p) in bystanders {
            self.gone[s as usize] = p;
        }
        self
    }
    fn s(&self, s: i32) -> i32 {
        if (1..=81).contains(&s) {
            self.sq[s as usize] as i32
        } else {
            s
        }
    }
    fn n(&self, n: i32) -> i32 {
        self.ply
            .iter()
            .find(|x| x.0 == n)
            .map_or(n + 1_000_000, |x| x.1)
    }
    fn h(&self, slot: usize, v: i32) -> i32 {
        if v < 0 {
            v
        } else {
            (v - self.hand[slot].0 + self.hand[slot].1).rem_euclid(256)
        }
    }
    fn m(&self, m: M) -> M {
        M {
            a: if m.d == 1 { m.a } else { self.sq[m.a as usize] },
            t: self.sq[m.t as usize],
            ..m
        }
    }
    fn packed(&self, w: i32) -> i32 {
        if w == 0 {
            return 0;
        }
        if w & 128 != 0 {
            w - (w & 127) + self.s(w & 127)
        } else {
            let f = (w >> 8) & 127;
            w - (w & 127) - (f << 8) + self.s(w & 127) + (self.s(f) << 8)
        }
    }
    /// One view of all squares; `shown` is what it shows of a piece.
    fn board(&self, v: &[i32], shown: impl Fn(u8) -> i32) -> Vec<i32> {
        let mut r = vec![0; 81];
        for i in 1..=81usize {
            r[self.sq[i] as usize - 1] = match self.gone[i] {
                0 => v[i - 1],
                p if v[i - 1] == shown(p) => shown(0),
                _ => 100 + v[i - 1],
            };
        }
        r
    }
    /// board, hands, side, move number, last move, kings
    fn summary(&self, v: &[i32]) -> Vec<i32> {
        let mut r = self.board(&v[..81], |p| p as i32);
        r.extend((0..14).map(|i| self.h(i, v[81 + i])));
        r.extend([
            v[95],
            self.n(v[96]),
            self.packed(v[97]),
            self.s(v[98]),
            self.s(v[99]),
        ]);
        r
    }
    fn obs(&self, o: &Obs) -> Obs {
        let v = o
            .v
            .iter()
            .map(|(name, v)| {
                let w = match *name {
                    "hp" => (0..28)
                        .map(|i| {
                            let (c, k) = ((PIECES[i] >= 16) as usize, (PIECES[i] & 15) as usize);
                            if k <= 7 {
                                self.h(7 * c + k - 1, v[i])
                            } else {
                                v[i]
                            }
                        })
                        .collect(),
                    "hd" => (0..14).map(|i| self.h(i, v[i])).collect(),
                    "sc" => {
                        let lm = match v[3] {
                            0 => [v[3], self.s(v[4]), self.s(v[5]), v[6]],
                            _ => [v[3], v[4], self.s(v[5]), v[6]],
                        };
                        let mut r = vec![v[0], self.n(v[1]), self.packed(v[2])];
                        r.extend(lm);
                        r.extend([self.s(v[7]), self.s(v[8])]);
                        r
                    }
                    "ct" => {
                        let b = self.gone.iter().filter(|&&p| p != 0 && p < 16).count() as i32;
                        let w = self.gone.iter().filter(|&&p| p >= 16).count() as i32;
                        let mut r = v.clone();
                        for (i, d) in [-b - w, b + w, -b, -w].into_iter().enumerate() {
                            r[i] += d;
                        }
                        r
                    }
                    "im" => v.clone(),
                    "in" => self.summary(v),
                    "pa" | "bp" => self.board(v, |p| p as i32),
                    "bk" => self.board(v, |p| p as i32 & 15),
                    "bc" => self.board(v, |p| (p != 0) as i32 + (p >= 16) as i32),
                    "oc" => self.board(v, |p| (p != 0) as i32),
                    "va" => self.board(v, |p| (p == 0) as i32),
                    x => panic!("view {}", x),
                };
                (*name, w)
            })
            .collect();
        Obs {
            v,
            moves: o.moves.iter().map(|&m| self.m(m)).collect(),
        }
    }
}

#[derive(Clone, Copy, Debug)]
enum Op {
    Mv(M, u8),
    Ps(u8, u8),
    Pl(u16),
    Sd(u8),
    /// Asking a legality checker about a move, and making it through the checker: status, reason,
    /// quick answer, moves listed.
    Lg(M, [u8; 4]),
    Lm(M, [u8; 4]),
}

thread_local! {
    static DOING: RefCell<String> = const { RefCell::new(String::new()) };
}

/// Carries out a scenario; the record of it, renamed.
fn scenario<T: Target>(start: T, how: &str, extra: &str, ops: &[Op], ren: &Ren) -> String {
    let mut t = start;
    let mut prev = Obs::zero(T::FULL);
    let mut s = format!(
        "{{\"e\":\"new\",\"full\":{},\"how\":\"{}\"{}",
        T::FULL,
        how,
        extra
    );
    let now = ren.obs(&t.obs());
    now.delta(&prev, &mut s);
    prev = now;
    for op in ops {
        s.push_str("}\n");
        match *op {
            Op::Mv(m, via) => {
                let before = t.clone();
                let r = if via == 0 {
                    t.make(m.mv())
                } else {
                    t.make_compact(m.mv().into())
                };
                let eq = t == before;
                let hq = same_hash(&t, &before, eq);
                let cq = same_order(&t, &before, eq);
                s.push_str(&format!(
                    "{{\"e\":\"mv\",\"via\":{},\"m\":{},\"r\":{},\"eq\":{},\"hq\":{},\"cq\":{}",
                    via,
                    ren.m(m).json(),
                    r as u8,
                    eq as u8,
                    hq as u8,
                    cq as u8
                ));
            }
            Op::Ps(x, p) => {
                t.set(sq(x), if p == 0 { None } else { Some(piece(p)) });
                s.push_str(&format!(
                    "{{\"e\":\"ps\",\"s\":{},\"p\":{}",
                    ren.s(x as i32),
                    p
                ));
            }
            Op::Pl(n) => {
                let r = t.set_ply(n).unwrap_or(false);
                s.push_str(&format!(
                    "{{\"e\":\"pl\",\"n\":{},\"r\":{}",
                    ren.n(n as i32),
                    r as u8
                ));
            }
            #[cfg(not(feature = "alloc"))]
            Op::Lg(..) | Op::Lm(..) => unreachable!(),
            #[cfg(feature = "alloc")]
            Op::Lg(m, k) | Op::Lm(m, k) => {
                use crate::legal::{r_code, Answers};
                let c = Answers {
                    status: k[0],
                    why: k[1],
                    quick: k[2] == 1,
                    list: [m, M::normal(1, 2, 0), m, m][..k[3] as usize].iter().map(|m| m.mv()).collect(),
                };
                let list = |v: &[Move]| arr(v.iter().map(|&x| if x == m.mv() { ren.m(m) } else { M::of(x) }.json()));
                let asked = format!(
                    "\"m\":{},\"ks\":{},\"kp\":{},\"kl\":{},\"km\":{}",
                    ren.m(m).json(),
                    k[0],
                    k[1],
                    k[2],
                    list(&c.list)
                );
                let p = t.with_history();
                if let Op::Lg(..) = op {
                    s.push_str(&format!(
                        "{{\"e\":\"lg\",{},\"il\":{},\"li\":{},\"al\":{}",
                        asked,
                        r_code(c.is_legal(p, m.mv())),
                        c.is_legal_lite(p, m.mv()) as u8,
                        list(&c.all_legal_moves(p))
                    ));
                } else {
                    let before = p.clone();
                    let r = r_code(c.make_move(p, m.mv()));
                    s.push_str(&format!("{{\"e\":\"lm\",{},\"r\":{},\"eq\":{}", asked, r, (*p == before) as u8));
                }
            }
            Op::Sd(c) => {
                t.set_side(color(c));
                s.push_str(&format!("{{\"e\":\"sd\",\"c\":{}", c));
            }
        }
        let now = ren.obs(&t.obs());
        now.delta(&prev, &mut s);
        prev = now;
    }
    s.push('}');
    s
}

/// Distinct squares, at random.
fn squares(rng: &mut Rng, n: usize) -> Vec<u8> {
    let mut v: Vec<u8> = vec![];
    while v.len() < n {
        let s = 1 + rng.below(81) as u8;
        if !v.contains(&s) {
            v.push(s);
        }
    }
    v
}

fn hands(rng: &mut Rng, keep: &[usize]) -> ([[u8; 7]; 2], [(i32, i32); 14]) {
    let mut h = [[0u8; 7]; 2];
    let mut r = [(0, 0); 14];
    for i in 0..14 {
        let c = match rng.below(6) {
            0 => rng.below(255),
            1 => rng.below(20),
            2 => 0,
            _ => rng.below(3),
        } as u8;
        h[i / 7][i % 7] = c;
        let base = if keep.contains(&i) {
            if c < 3 {
                c
            } else {
                5
            }
        } else {
            5
        };
        r[i] = (c as i32, base as i32);
    }
    (h, r)
}

/// Pieces other than kings on squares other than these.
fn bystanders(rng: &mut Rng, used: &[u8]) -> Vec<(u8, u8)> {
    let d = [0, 0, 0, 4, 25, 60, 100][rng.below(7)];
    let some: Vec<u8> = match rng.below(3) {
        0 => vec![rng.pick(&PIECES)],
        1 => vec![rng.pick(&PIECES), rng.pick(&PIECES)],
        _ => PIECES.to_vec(),
    };
    let mut v = vec![];
    for s in 1..=81u8 {
        if d > 0 && !used.contains(&s) && rng.chance(d, 100) {
            let p = rng.pick(&some);
            v.push((s, if p & 15 == 8 { p - 1 } else { p }));
        }
    }
    v
}

fn run_of(n: u16, at: i32, len: i32) -> Vec<(i32, i32)> {
    (0..len)
        .map(|d| ((n as i32 + d) & 0xffff, at + d))
        .collect()
}

/// One move in a scene of the pieces concerned, perhaps kings, and perhaps a move before it.
/// Of a position without history (0), with (1), either through C (2, 3), or through a checker (5).
fn one_move(rng: &mut Rng, free: bool, seed: u64, of: u8) -> String {
    let full = of & 1 == 1;
    let sqs = squares(rng, 6);
    let (a, k, l, c, d) = (sqs[0], sqs[2], sqs[3], sqs[4], sqs[5]);
    let side = 1 + rng.below(2) as u8;
    let off = 16 * (side - 1);
    let drop = rng.chance(1, 3);
    let same = !drop && rng.chance(1, 40);
    let b = if same { a } else { sqs[1] };
    let via = match of {
        2 | 3 => 2,
        5 => 0,
        _ => rng.below(2) as u8,
    };
    let mover = match rng.below(20) {
        0 if !drop => 0,
        0..=2 => rng.pick(&PIECES),
        _ => {
            let n = if drop && rng.chance(3, 4) { 7 } else { 14 };
            1 + rng.below(n) as u8 + off
        }
    };
    let target = match rng.below(20) {
        0..=6 => 0,
        7..=8 => rng.pick(&PIECES),
        _ => 1 + rng.below(14) as u8 + (16 - off),
    };
    let target = if drop && rng.chance(3, 4) { 0 } else { target };
    let target = if of == 5 && target != 0 {
        if target & 1 == 1 { 2 + off } else { 9 + (16 - off) }
    } else {
        target
    };
    let pro = if drop { 0 } else { rng.below(2) as u8 };
    let keep: Vec<usize> = if drop && (mover & 15) <= 7 {
        vec![(mover & 15) as usize - 1, (mover & 15) as usize + 6]
    } else {
        vec![]
    };
    let (mut h, hr) = hands(rng, &keep);
    let class = mover as u64 * 37 + target as u64 * 5 + pro as u64 + via as u64 * 3 + seed;
    let frame = if free { rng.below(8) as u64 } else { class % 8 };
    let n = rng.below(65536) as u16;
    let mut cells: Vec<(u8, u8)> = vec![];
    if !drop && mover != 0 {
        cells.push((a, mover));
    }
    if !same && target != 0 {
        cells.push((b, target));
    }
    if frame == 1 || frame >= 4 {
        cells.push((k, 8));
    }
    if frame == 2 || frame >= 4 {
        cells.push((l, 24));
    }
    // frames 3 and 5: the other player has moved before
    let prior = match frame {
        3 => Some(M::normal(c, d, (class & 1) as u8)),
        5 => Some(M::drop(3 + 16 - off, d)),
        _ => None,
    };
    let first = if prior.is_some() { 3 - side } else { side };
    // how often the hand has to be put in order again
    if let Some(m) = prior {
        if m.d == 0 {
            cells.push((c, 4 + 16 - off));
        } else {
            let x = &mut h[2 - side as usize][2];
            *x = x.wrapping_add(1);
        }
    }
    let p0 = if n == 0 { 1 } else { n };
    let mut hr = hr;
    if full && frame == 5 {
        // the count at the start is one more
        let i = 7 * (2 - side as usize) + 2;
        hr[i].1 = (hr[i].1 + 1).min(254);
        hr[i].0 += 1;
    }
    let ren = Ren::new(
        &[a, if same { sqs[1] } else { b }, k, l, c, d],
        run_of(p0, 10, 4),
        hr,
    );
    let others = bystanders(rng, &sqs);
    let ren = ren.without(&others);
    cells.extend(&others);
    let mut p = craft(&cells, h, first, p0);
    let mv = if drop {
        M::drop(mover.max(1), b)
    } else {
        M::normal(a, b, pro)
    };
    DOING.with(|x| {
        *x.borrow_mut() = format!("on {:?}: {:?} then {:?} via {}", cells, prior, mv, via)
    });
    #[cfg(feature = "alloc")]
    if full {
        let extra = format!(",\"arg\":{}", arr(ren.summary(&summary(&p))));
        let p = Position::arbitrary_position(p);
        let other = if via == 2 { 2 } else { 1 - via };
        let mut ops = vec![];
        if let Some(m) = prior {
            ops.push(Op::Mv(m, other));
        }
        if of == 5 {
            // what is legal makes sense
            let sense = {
                let mut q = p.clone();
                prior.map(|m| q.make_move(m.mv()));
                q.make_move(mv.mv()).is_some()
            };
            let pick = rng.below(24);
            let why = if sense && pick % 3 > 0 { 0 } else { 1 + (pick % 7) as u8 };
            let status = [4, 1, 4, 2, 4, 3, 4, 5][pick % 8];
            let k = [status, why, (status + why) & 1, (status + 2 * why) % 5];
            ops.extend([Op::Lg(mv, k), Op::Lm(mv, k)]);
            return scenario(p, "arb", &extra, &ops, &ren);
        }
        ops.push(Op::Mv(mv, via));
        #[cfg(all(feature = "hash", feature = "ord"))]
        if of >= 2 {
            return scenario(crate::ctarget::CFull(p), "arb", &extra, &ops, &ren);
        }
        return scenario(p, "arb", &extra, &ops, &ren);
    }
    if let Some(m) = prior {
        if p.make_move(m.mv()).is_none() {
            p.side_to_move_set(color(side));
        }
    }
    if frame >= 6 {
        // the same move, or the move back, was the last
        let was = h;
        if drop {
            if let 1..=7 = mover & 15 {
                *p.hand_of_a_player_mut(color(side)) = hand_with([1; 7]);
            }
            p.piece_set(sq(b), None);
            let _ = p.make_move(mv.mv());
        } else if frame == 6 {
            p.piece_set(sq(b), None);
            let _ = p.make_move(mv.mv());
        } else {
            p.piece_set(sq(a), None);
            p.piece_set(sq(b), if mover == 0 { None } else { Some(piece(mover)) });
            let _ = p.make_move(M::normal(b, a, 0).mv());
        }
        *p.hand_of_a_player_mut(color(side)) = hand_with(was[side as usize - 1]);
        p.piece_set(sq(b), None);
        p.piece_set(sq(a), None);
        for &(s, q) in &cells {
            p.piece_set(sq(s), if q == 0 { None } else { Some(piece(q)) });
        }
        p.side_to_move_set(color(side));
    }
    #[cfg(all(feature = "alloc", feature = "hash", feature = "ord"))]
    if of >= 2 {
        return scenario(crate::ctarget::CPartial(p), "raw", "", &[Op::Mv(mv, via)], &ren);
    }
    scenario(p, "raw", "", &[Op::Mv(mv, via)], &ren)
}

/// One square edited, and then another, or a move.
fn edits(rng: &mut Rng, free: bool, seed: u64) -> String {
    let sqs = squares(rng, 4);
    let (a, b, k, l) = (sqs[0], sqs[1], sqs[2], sqs[3]);
    let any = |rng: &mut Rng| -> u8 {
        if rng.chance(1, 29) {
            0
        } else {
            rng.pick(&PIECES)
        }
    };
    let (old, new) = (any(rng), any(rng));
    let class = old as u64 * 7 + new as u64 * 11 + seed;
    let frame = if free { rng.below(4) as u64 } else { class % 4 };
    let then = if free {
        rng.below(5) as u64
    } else {
        (class / 4) % 5
    };
    let mut cells = vec![];
    if frame & 1 == 1 {
        cells.push((k, 8));
    }
    if frame & 2 == 2 {
        cells.push((l, 24));
    }
    if old != 0 {
        cells.push((a, old));
    }
    let side = if new >= 16 { 2 } else { 1 };
    let (h, hr) = hands(rng, &[]);
    let n = 1 + rng.below(65535) as u16;
    let mut ops = vec![Op::Ps(a, new)];
    match then {
        0 => ops.push(Op::Ps(b, 8)),
        1 => ops.push(Op::Ps(b, 24)),
        2 => ops.push(Op::Ps(a, 0)),
        3 => ops.push(Op::Mv(M::normal(a, b, 0), 0)),
        _ => ops.push(Op::Ps(a, old)),
    }
    let others = bystanders(rng, &sqs);
    cells.extend(&others);
    let ren = Ren::new(&[a, b, k, l], run_of(n, 10, 4), hr).without(&others);
    DOING.with(|x| *x.borrow_mut() = format!("on {:?}: {:?}", cells, ops));
    scenario(craft(&cells, h, side, n), "raw", "", &ops, &ren)
}

/// Kings put, moved, doubled and taken away on three squares.
fn kings(rng: &mut Rng, len: usize) -> String {
    let sqs = squares(rng, 3);
    let (h, hr) = hands(rng, &[]);
    let others = bystanders(rng, &sqs);
    let ren = Ren::new(&sqs, run_of(77, 10, 8), hr).without(&others);
    let mut cells = others;
    if rng.chance(1, 2) {
        cells.push((sqs[0], rng.pick(&[8u8, 24])));
    }
    let mut ops: Vec<Op> = vec![];
    for _ in 0..len {
        ops.push(Op::Ps(rng.pick(&sqs), rng.pick(&[0u8, 8, 24, 1])));
    }
    DOING.with(|x| *x.borrow_mut() = format!("on {:?}: {:?}", cells, ops));
    scenario(craft(&cells, h, 1, 77), "raw", "", &ops, &ren)
}

/// So many pieces of each player on the board and an edit or a move, with any side, number and hands.
fn crowds(rng: &mut Rng, moves: bool) -> String {
    let order = squares(rng, 81);
    let n = rng.below(82);
    let m = match rng.below(4) {
        0 => 0,
        1 => 81 - n,
        2 => (81 - n).min(1 + rng.below(2)),
        _ => (81 - n).min(n),
    };
    let (n, m) = if rng.chance(1, 2) { (n, m) } else { (m, n) };
    let (kb, kw) = (rng.pick(&[1u8, 14]), 16 + rng.pick(&[1u8, 7]));
    let at = |i: usize| if i < n { kb } else if i < n + m { kw } else { 0 };
    // the squares concerned: two of any class
    let i = rng.below(81);
    let mut j = rng.below(81);
    if i == j {
        j = (j + 1) % 81;
    }
    let (a, b) = (order[i], order[j]);
    let n0 = if rng.chance(1, 2) { 1 + rng.below(4) as u16 } else { 1 + rng.below(65535) as u16 };
    let (mut h, mut hr) = hands(rng, &[]);
    let same = rng.below(4);
    for x in 0..14 {
        let c = match same {
            0 => 0,
            1 => h[0][x % 7],
            _ => h[x / 7][x % 7],
        };
        h[x / 7][x % 7] = c;
        hr[x] = (c as i32, 5);
    }
    let side = 1 + rng.below(2) as u8;
    let off = 16 * (side - 1);
    let any = [0, kb, kw, 7 + off];
    let mut ops = vec![];
    if moves {
        hr[7 * (side as usize - 1) + 6] = (3, 3);
        h[side as usize - 1][6] = 3;
        ops.push(match rng.below(4) {
            0 => Op::Mv(M::drop(7 + off, a), 0),
            x => Op::Mv(M::normal(a, b, (x == 1) as u8), (x & 1) as u8),
        });
    } else {
        ops.push(Op::Ps(a, rng.pick(&any)));
        ops.push(Op::Ps(if rng.chance(1, 2) { a } else { b }, rng.pick(&any)));
    }
    let cells: Vec<(u8, u8)> = (0..n + m).map(|x| (order[x], at(x))).collect();
    let others: Vec<(u8, u8)> = cells.iter().copied().filter(|c| c.0 != a && c.0 != b).collect();
    let ren = Ren::new(&[a, b], run_of(n0, 10, 4), hr).without(&others);
    DOING.with(|x| *x.borrow_mut() = format!("on {:?}: {:?}", cells, ops));
    scenario(craft(&cells, h, side, n0), "raw", "", &ops, &ren)
}

/// How many kinds of move `turns` makes.
const TURNS: u8 = 11;

/// Move number n set on a position with another move number (0), or reached by a move (1), of a
/// position without history or with (2, 3); then a move of each kind, refused and not.
fn turns(rng: &mut Rng, n: u16, kind: u8, how: u8) -> String {
    let sqs = squares(rng, 5);
    let (a, b, k, c, d) = (sqs[0], sqs[1], sqs[2], sqs[3], sqs[4]);
    let mut p0 = 1 + rng.below(65535) as u16;
    while (p0 as i32 - n as i32).rem_euclid(65536) < 5
        || (n as i32 - p0 as i32).rem_euclid(65536) < 5
        || p0 > 65530
    {
        p0 = 1 + rng.below(65535) as u16;
    }
    let full = how >= 2;
    // number 1 is not reached by a move, and 0 not set
    let reached = (how & 1 == 1 && n != 1) || (full && n == 0);
    let side = 1 + rng.below(2) as u8;
    let off = 16 * (side - 1);
    let (slot, other) = (7 * (side as usize - 1), 7 * (2 - side as usize));
    let (mut h, mut hr) = hands(rng, &[slot + 6, slot + 4]);
    for i in 0..14 {
        h[i / 7][i % 7] = h[i / 7][i % 7].min(200);
        hr[i].0 = hr[i].0.min(200);
    }
    let mut put = |i: usize, n: u8| {
        h[i / 7][i % 7] = n;
        hr[i] = (n as i32, n as i32);
    };
    // rooks to drop, no gold, and a pawn for the other player
    put(slot + 6, 2);
    put(slot + 4, 0);
    put(other, 1);
    let mut ply = vec![];
    if reached {
        ply.extend(run_of(n.wrapping_sub(1), 19, 5));
        if n > 1 && n < 65531 {
            ply.push((0, 0));
        }
    } else if n == 0 {
        ply.push((0, 0));
        ply.extend(run_of(p0, 10, 4));
    } else {
        ply.extend(run_of(p0, 10, 4));
        ply.extend(run_of(n, 20, 4));
        if n < 65533 {
            ply.push((0, 0));
        }
    }
    let can_refuse = ply.contains(&(0, 0));
    let others = if rng.chance(1, 8) { bystanders(rng, &sqs) } else { vec![] };
    let ren = Ren::new(&sqs, ply, hr).without(&others);
    let via = rng.below(2) as u8;
    let mv = match kind {
        0 | 2 => M::normal(a, b, 0),
        1 | 3 => M::normal(a, b, 1),
        4 => M::drop(7 + off, b),
        5 => M::drop(7 + off, d),
        6 => M::drop(7 + off, c),
        7 => M::normal(c, b, 0),
        8 => M::normal(a, k, 0),
        9 => M::drop(5 + off, b),
        _ => M::normal(k, d, 0),
    };
    let mut cells = vec![(a, 7 + off), (c, 4 + 16 - off), (k, 8 + off)];
    let taken = if kind == 2 || kind == 3 { 1 + 16 - off + if rng.chance(1, 2) { 8 } else { 0 } } else { 0 };
    let mut ops = vec![];
    let mut first = side;
    if reached {
        let mut pick = rng.below(if full { 2 } else { 6 });
        if (mv.d == 1 && pick == 2) || !(kind < 6 || kind == 10) {
            pick &= 1;
        }
        if pick < 2 {
            first = 3 - side;
            ops.push(Op::Mv(if pick == 0 { M::normal(c, d, 0) } else { M::drop(1 + 16 - off, d) }, 1 - via));
            if pick == 0 {
                ops.push(Op::Ps(d, 0));
                ops.push(Op::Ps(c, 4 + 16 - off));
            } else {
                ops.push(Op::Ps(d, 0));
            }
            if full {
                // nothing to put back
                ops.truncate(1);
            }
        } else if pick == 2 {
            // the move back
            let piece = if kind == 10 { 8 + off } else { 7 + off };
            cells.retain(|x| x.0 != mv.a);
            cells.push((mv.t, piece));
            ops.push(Op::Mv(M::normal(mv.t, mv.a, 0), 1 - via));
            ops.push(Op::Sd(side));
        } else {
            // the same move, or one like it
            let m = if mv.d == 0 && pick == 3 { M { p: 1 - mv.p, ..mv } } else { mv };
            let m = if kind == 10 { mv } else { m };
            ops.push(Op::Mv(m, 1 - via));
            ops.push(Op::Ps(mv.t, 0));
            if mv.d == 0 {
                ops.push(Op::Ps(mv.a, if kind == 10 { 8 + off } else { 7 + off }));
            }
            ops.push(Op::Sd(side));
        }
        if taken != 0 && !full {
            ops.push(Op::Ps(b, taken));
        }
    } else if !full {
        ops.push(Op::Pl(n));
    }
    if taken != 0 && (full || !reached) {
        cells.push((b, taken));
    }
    ops.push(Op::Mv(mv, via));
    cells.extend(&others);
    let rest = rng.below(8);
    match if full { rest | 3 } else { rest } {
        0 if can_refuse => ops.push(Op::Pl(0)),
        1 => ops.push(Op::Sd(1 + rng.below(2) as u8)),
        2 => ops.push(Op::Ps(k, 0)),
        3 => ops.push(Op::Mv(M::normal(c, a, 0), 1 - via)),
        _ => {}
    }
    let start = if reached {
        n.wrapping_sub(1)
    } else if full {
        n
    } else {
        p0
    };
    DOING.with(|x| *x.borrow_mut() = format!("move number {} on {:?}: {:?}", start, cells, ops));
    let p = craft(&cells, h, first, start);
    #[cfg(feature = "alloc")]
    if full {
        let extra = format!(",\"arg\":{}", arr(ren.summary(&summary(&p))));
        return scenario(Position::arbitrary_position(p), "arb", &extra, &ops, &ren);
    }
    scenario(p, "raw", "", &ops, &ren)
}

pub fn run(o: &mut Out, seed: u64, what: &str, thorough: bool, dir: &str) {
    const THREADS: usize = 8;
    let at = format!("{}/pending", dir);
    let usual = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        DOING.with(|x| {
            let _ = std::fs::write(&at, x.borrow().as_bytes());
        });
        usual(i);
    }));
    let x = if thorough { 10 } else { 1 };
    let n: usize = 60_000 * x;
    let mut all: BTreeSet<String> = BTreeSet::new();
    let mut done = 0;
    std::thread::scope(|sc| {
        let hs: Vec<_> = (0..THREADS)
            .map(|i| {
                sc.spawn(move || {
                    let mut rng =
                        Rng::new(seed.wrapping_mul(1009) + i as u64 * 77 + what.len() as u64);
                    let rng = &mut rng;
                    let mut seen: BTreeSet<String> = BTreeSet::new();
                    let mut count = 0usize;
                    // a fault shows in hundreds of ways; enough of them is enough
                    let mut put = |s: String| {
                        count += 1;
                        if seen.len() < 40_000 {
                            seen.insert(s);
                        }
                    };
                    match what {
                        "orbitmoves" => {
                            for _ in 0..n {
                                put(one_move(rng, thorough, seed, 0));
                            }
                            for _ in 0..n / 8 {
                                put(crowds(rng, true));
                            }
                        }
                        "orbithistory" => {
                            for _ in 0..n / 2 {
                                put(one_move(rng, thorough, seed, 1));
                            }
                        }
                        "orbitlegal" => {
                            for _ in 0..n / 2 {
                                put(one_move(rng, thorough, seed, 5));
                            }
                        }
                        "orbitcalls" => {
                            for i in 0..n / 2 {
                                put(one_move(rng, thorough, seed, 2 + (i % 2) as u8));
                            }
                        }
                        "orbitedits" => {
                            for _ in 0..n {
                                put(edits(rng, thorough, seed));
                            }
                            for _ in 0..n / 4 {
                                put(crowds(rng, false));
                            }
                            for _ in 0..n / 2 {
                                put(kings(rng, if thorough { 4 } else { 2 }));
                            }
                        }
                        "orbitturns" => {
                            for j in 0..65536 / THREADS * if thorough { 5 } else { 1 } {
                                let n = ((j * THREADS + i) % 65536) as u16;
                                for kind in 0..TURNS {
                                    put(turns(rng, n, kind, 0));
                                    if kind < 6 || kind == 10 {
                                        put(turns(rng, n, kind, 1));
                                    }
                                    if kind < 6 && cfg!(feature = "alloc") {
                                        put(turns(rng, n, kind, 2 + ((n as u8 ^ kind) & 1)));
                                    }
                                }
                            }
                        }
                        _ => panic!("unknown sweep"),
                    }
                    (seen, count)
                })
            })
            .collect();
        for h in hs {
            match h.join() {
                Ok((s, c)) => {
                    all.extend(s);
                    done += c;
                }
                Err(_) => std::process::exit(101),
            }
        }
    });
    for s in &all {
        o.next_session();
        for line in s.split('\n') {
            o.line(line);
        }
    }
    println!("SCENARIOS {} DISTINCT {}", done, all.len());
}
