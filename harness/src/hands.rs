//! Hand registers driven by additions and removals.
use crate::obs::{color, kind, piece};
use crate::out::{arr, Out};
use crate::rng::Rng;
use crate::shim::*;
use crate::sess::hand_with;
use shogi_core::*;
use std::collections::BTreeSet;

const NR: usize = 3;

pub struct Hands<'a> {
    o: &'a mut Out,
    r: [Hand; NR],
}

/// Counts of all fourteen kinds, -1 for refused.
fn counts(h: Hand) -> Vec<i32> {
    (1..=14)
        .map(|k| h.count(kind(k)).map_or(-1, |c| c as i32))
        .collect()
}

/// A hand of the same counts, built kind by kind in descending order.
fn fresh(c: &[i32]) -> Hand {
    let mut h = Hand::default();
    for k in (1..=7u8).rev() {
        for _ in 0..c[k as usize - 1] {
            h = h.added(kind(k)).unwrap_or(h);
        }
    }
    h
}

impl<'a> Hands<'a> {
    pub fn new(o: &'a mut Out, how: u8) -> Self {
        o.next_session();
        let h = if how == 0 {
            Hand::new()
        } else {
            Hand::default()
        };
        let l = format!("{{\"e\":\"new\",\"how\":{},\"h\":{}}}", how, arr(counts(h)));
        o.line(&l);
        Hands { o, r: [h; NR] }
    }
    /// via 0: by value; 1: through a position; 2: the C-style in-place function.
    fn step(&mut self, add: bool, d: usize, k: u8, via: u8) {
        self.o.pending(&|| {
            format!(
                "hand {} {} via {}",
                if add { "add" } else { "remove" },
                k,
                via
            )
        });
        let before = self.r[d];
        let cb = counts(before);
        let ok;
        if via == 2 {
            let mut h = before;
            ok = if add {
                h.Hand_add(kind(k))
            } else {
                h.Hand_remove(kind(k))
            };
            self.r[d] = h;
        } else if via == 1 {
            let mut p = PartialPosition::empty();
            *p.hand_of_a_player_mut(Color::White) = before;
            let h = *p.hand_of_a_player_mut(Color::White);
            let n = if add {
                h.added(kind(k))
            } else {
                h.removed(kind(k))
            };
            ok = n.is_some();
            if let Some(n) = n {
                *p.hand_of_a_player_mut(Color::White) = n;
            }
            self.r[d] = p.hand_of_a_player(Color::White);
        } else {
            let n = if add {
                before.added(kind(k))
            } else {
                before.removed(kind(k))
            };
            ok = n.is_some();
            if let Some(n) = n {
                self.r[d] = n;
            }
        }
        let now = counts(self.r[d]);
        let same = fresh(&now);
        let q = same == self.r[d]
            && same_hash(&same, &self.r[d], true)
            && same_order(&same, &self.r[d], true);
        let l = format!(
            "{{\"e\":\"{}\",\"d\":{},\"k\":{},\"w\":{},\"r\":{},\"h\":{},\"o\":{},\"q\":{}}}",
            if add { "add" } else { "rem" },
            d + 1,
            k,
            via,
            ok as u8,
            arr(now),
            (counts(before) == cb) as u8,
            q as u8
        );
        self.o.line(&l);
    }
    pub fn add(&mut self, d: usize, k: u8, via: u8) {
        self.step(true, d, k, via)
    }
    pub fn rem(&mut self, d: usize, k: u8, via: u8) {
        self.step(false, d, k, via)
    }
    pub fn copy(&mut self, d: usize, x: usize) {
        self.r[d] = self.r[x];
        let l = format!(
            "{{\"e\":\"copy\",\"d\":{},\"x\":{},\"h\":{}}}",
            d + 1,
            x + 1,
            arr(counts(self.r[d]))
        );
        self.o.line(&l);
    }
    pub fn eq(&mut self, x: usize, y: usize) {
        let (a, b) = (self.r[x], self.r[y]);
        let l = format!(
            "{{\"e\":\"eq\",\"x\":{},\"y\":{},\"v\":{},\"hq\":{}}}",
            x + 1,
            y + 1,
            arr([
                (a == b) as u8,
                (b == a) as u8,
                (!(a != b)) as u8,
                same_order(&a, &b, a == b) as u8,
            ]),
            same_hash(&a, &b, a == b) as u8
        );
        self.o.line(&l);
    }
    /// Enumeration, classification and per-piece lookup.
    pub fn tables(&mut self, d: usize) {
        let all: Vec<u8> = Hand::all_hand_pieces().take(50).map(|k| k as u8).collect();
        let is: Vec<u8> = (1..=14)
            .map(|k| Hand::is_hand_piece(kind(k)) as u8)
            .collect();
        let mut p = PartialPosition::empty();
        *p.hand_of_a_player_mut(Color::Black) = self.r[d];
        let bw: Vec<i32> = (1..=2)
            .flat_map(|c| (1..=14).map(move |k| (c, k)))
            .map(|(c, k)| {
                p.hand(piece(if c == 2 { k + 16 } else { k }))
                    .map_or(-1, |x| x as i32)
            })
            .collect();
        let other: Vec<i32> = counts(p.hand_of_a_player(color(2)));
        let l = format!(
            "{{\"e\":\"tab\",\"d\":{},\"all\":{},\"num\":{},\"is\":{},\"bw\":{},\"other\":{}}}",
            d + 1,
            arr(all),
            Hand::NUM_HAND_PIECES,
            arr(is),
            arr(bw),
            arr(other)
        );
        self.o.line(&l);
    }
}

pub fn run(o: &mut Out, seed: u64, thorough: bool) {
    let mut rng = Rng::new(seed ^ 0x4a4d);
    let rng = &mut rng;
    let x = if thorough { 10 } else { 1 };
    // Every count of every kind, upwards through the wrap, then down to empty, in every way
    // of doing it, over an otherwise empty and an otherwise busy hand.
    for k in 1..=7u8 {
        for busy in 0..2 {
            let mut m = Hands::new(o, busy);
            m.tables(0);
            if busy == 1 {
                for j in 1..=7u8 {
                    for _ in 0..1 + rng.below(4) {
                        m.add(0, j, 0);
                    }
                }
                m.copy(1, 0);
            }
            for n in 0..300usize {
                m.add(0, k, ((n + k as usize) % 3) as u8);
                if n % 50 == 7 {
                    m.eq(0, 1);
                    m.tables(0);
                }
            }
            if busy == 1 {
                m.eq(0, 1);
            }
            for n in 0..60usize {
                m.rem(0, k, ((n + k as usize) % 3) as u8);
            }
            m.tables(0);
        }
    }
    // Every kind added and removed on every kind's boundary: 0, 1, 255.
    for k in 1..=7u8 {
        let mut m = Hands::new(o, 0);
        for b in [0usize, 1, 2, 127, 128, 254, 255] {
            for _ in 0..b {
                if (m.r[0].count(kind(k)).unwrap_or(0) as usize) < b {
                    m.add(0, k, 0);
                }
            }
            m.copy(1, 0);
            for j in 1..=14u8 {
                for via in 0..3 {
                    m.copy(2, 1);
                    m.rem(2, j, via);
                    m.eq(1, 2);
                    m.add(2, j, via);
                    m.eq(1, 2);
                }
            }
        }
    }
    // Random walks.
    for i in 0..40 * x {
        let mut m = Hands::new(o, (i % 2) as u8);
        let w = 1 + rng.below(9);
        for _ in 0..150 {
            let d = rng.below(NR);
            let k = if rng.chance(1, 8) {
                8 + rng.below(7) as u8
            } else {
                1 + rng.below(7) as u8
            };
            match rng.below(12) {
                0 => m.eq(rng.below(NR), rng.below(NR)),
                1 => m.copy(d, rng.below(NR)),
                2 if rng.chance(1, 4) => m.tables(d),
                n => {
                    if n < 3 + w.min(7) {
                        m.add(d, k, rng.below(3) as u8)
                    } else {
                        m.rem(d, k, rng.below(3) as u8)
                    }
                }
            }
        }
        m.tables(0);
        m.tables(1);
    }
}

/// Hands of all shapes: one addition or removal of each, and pairs of them compared. What has no
/// part in it is recorded as 5, and a count that is not at an end as 5 as well (spec/Laws.tla,
/// "counts are alike"), so that one of very many steps that look the same is recorded.
struct Sweep {
    seen: BTreeSet<String>,
    done: usize,
}
impl Sweep {
    fn put(&mut self, s: String) {
        self.done += 1;
        if self.seen.len() < 40_000 {
            self.seen.insert(s);
        }
    }
    fn op(&mut self, before: Hand, c: &[u8; 7], add: bool, k: u8, via: u8) {
        let all = |h: Hand| -> [i32; 14] { core::array::from_fn(|i| h.count(kind(i as u8 + 1)).map_or(-1, |c| c as i32)) };
        let mut h = before;
        let ok = match (via, add) {
            (2, true) => h.Hand_add(kind(k)),
            (2, false) => h.Hand_remove(kind(k)),
            (_, true) => h.added(kind(k)).map(|n| h = n).is_some(),
            (_, false) => h.removed(kind(k)).map(|n| h = n).is_some(),
        };
        let (b, a) = (all(before), all(h));
        let mut from = [5i32; 14];
        let mut to = [5i32; 14];
        for i in 0..14usize {
            if i >= 7 {
                (from[i], to[i]) = (b[i], a[i]);
                continue;
            }
            // what went in has to be there
            if b[i] != c[i] as i32 {
                from[i] = 1000 + b[i];
            }
            if i + 1 == k as usize && matches!(c[i], 0 | 1 | 254 | 255) {
                (from[i], to[i]) = (b[i], a[i]);
            } else {
                to[i] = 5 + a[i] - b[i];
            }
        }
        let undone = match ok {
            // 255 and one more is none, and one cannot be taken from none
            true if add && k <= 7 && c[k as usize - 1] == 255 => Some(before),
            true if add => h.removed(kind(k)),
            true => h.added(kind(k)),
            false => Some(h),
        };
        let q = undone == Some(before) && (h == before) == !ok && (before == h) == !ok && same_hash(&h, &before, !ok) == !ok
            && same_order(&h, &before, !ok) == !ok;
        self.put(format!(
            "{{\"e\":\"op\",\"add\":{},\"k\":{},\"w\":{},\"b\":{},\"r\":{},\"h\":{},\"q\":{}}}",
            add as u8,
            k,
            via,
            arr(from),
            ok as u8,
            arr(to),
            q as u8
        ));
    }
    fn pair(&mut self, x: Hand, c: &[u8; 7], y: Hand, d: &[u8; 7]) {
        let d: [u8; 7] = core::array::from_fn(|i| 5 + (c[i] != d[i]) as u8);
        let same = x == y;
        self.put(format!(
            "{{\"e\":\"pair\",\"b\":{},\"h\":{},\"v\":{},\"hq\":{}}}",
            arr([5; 7]),
            arr(d),
            arr([same as u8, (y == x) as u8, !(x != y) as u8, same_order(&x, &y, same) as u8]),
            same_hash(&x, &y, same) as u8
        ));
    }
}

/// Visits the hands with each of these counts of each kind.
fn visit(h: Hand, c: &mut [u8; 7], i: usize, of: &[u8], f: &mut dyn FnMut(Hand, &[u8; 7])) {
    if i == 7 {
        return f(h, c);
    }
    let mut h = h;
    let mut n = 0;
    for &x in of {
        while n < x {
            h = h.added(kind(i as u8 + 1)).unwrap_or(h);
            n += 1;
        }
        c[i] = x;
        visit(h, c, i + 1, of, f);
    }
}

pub fn sweep(o: &mut Out, seed: u64, thorough: bool) {
    let mut rng = Rng::new(seed ^ 0x5eed4a);
    let mut s = Sweep { seen: BTreeSet::new(), done: 0 };
    let mut turn = 0u8;
    let mut all = |h: Hand, c: &[u8; 7], ops: usize, rng: &mut Rng| {
        for k in 1..=14u8 {
            if k > 7 && ops < 14 && rng.chance(6, 7) {
                continue;
            }
            for add in [true, false] {
                turn = turn.wrapping_add(1);
                s.op(h, c, add, k, if turn % 3 == 0 { 2 } else { 0 });
            }
        }
        // as another hand is: some counts exchanged, moved on, or moved from kind to kind
        let mut d = *c;
        match rng.below(6) {
            0 => {}
            1 => d.swap(rng.below(7), rng.below(7)),
            2 => d[rng.below(7)] = rng.below(256) as u8,
            3 => d[rng.below(7)] ^= 1 << rng.below(8),
            4 => {
                let (i, j) = (rng.below(7), rng.below(7));
                let n = 1 + rng.below(3) as u8;
                d[i] = d[i].wrapping_add(n);
                d[j] = d[j].wrapping_sub(n);
            }
            _ => {
                for x in d.iter_mut() {
                    *x = x.wrapping_add(rng.below(2) as u8);
                }
            }
        }
        s.pair(h, c, hand_with(d), &d);
    };
    let mut c = [0; 7];
    let mut sets: Vec<Vec<u8>> = vec![vec![0, 1, 2, 3], vec![0, 1, 127, 255], vec![0, 18, 128, 254]];
    if thorough {
        sets = vec![vec![0, 1, 2, 3, 4, 18], vec![0, 1, 127, 128, 255], vec![0, 1, 16, 18, 254, 255]];
    }
    for of in &sets {
        visit(Hand::new(), &mut c, 0, of, &mut |h, c| all(h, c, 14, &mut rng));
    }
    for n in 0..=255u8 {
        let of = if n == 255 { vec![255] } else { vec![n, n + 1] };
        visit(Hand::default(), &mut c, 0, &of, &mut |h, c| all(h, c, 7, &mut rng));
    }
    for _ in 0..if thorough { 400_000 } else { 30_000 } {
        let w = [2, 5, 19, 256][rng.below(4)];
        let c: [u8; 7] = core::array::from_fn(|_| rng.below(w) as u8);
        all(hand_with(c), &c, 7, &mut rng);
    }
    o.next_session();
    for l in &s.seen {
        o.line(l);
    }
    println!("SCENARIOS {} DISTINCT {}", s.done, s.seen.len());
}
