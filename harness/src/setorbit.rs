//! Sweeps over sets of squares, recorded up to renaming.
//!
//! Boolean operations treat every square alike and apart from all others, vertical shifts every
//! file, horizontal shifts every rank (spec/Laws.tla, "files apart" ...). So operations are carried
//! out on whole sets, and what they did is recorded per square, file or rank, renamed to the first
//! one; of all the scenarios that look the same one is recorded. Sizes, emptiness and equality
//! of the results are kept relative to their members, so that an error in them shows as well.
use crate::obs::sq;
use crate::out::{arr, Out};
use crate::rng::Rng;
use shogi_core::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};

thread_local! {
    static DOING: RefCell<String> = const { RefCell::new(String::new()) };
}

/// Members as a bit field of our own: bit s-1.
type Bits = u128;
const ALL: Bits = (1 << 81) - 1;
const FILE: Bits = 0x1ff;
const RANK: Bits = {
    let mut r = 0;
    let mut f = 0;
    while f < 9 {
        r |= 1 << (9 * f);
        f += 1;
    }
    r
};

fn build(m: Bits, way: usize) -> Bitboard {
    let mut b = Bitboard::empty();
    match way % 4 {
        0 => {
            for i in 1..=81u8 {
                if m >> (i - 1) & 1 == 1 {
                    b |= sq(i);
                }
            }
        }
        1 => {
            for f in 1..=9u8 {
                let p = (m >> (9 * (f - 1)) & FILE) as u16;
                b = b | unsafe { Bitboard::from_file_unchecked(f, p) };
            }
        }
        2 => {
            b = !b;
            for i in 1..=81u8 {
                if m >> (i - 1) & 1 == 0 {
                    b ^= sq(i);
                }
            }
        }
        _ => {
            for i in 1..=81u8 {
                if m >> (i - 1) & 1 == 1 {
                    b = b.or(Bitboard::single(sq(i)));
                }
            }
        }
    }
    b
}

fn list(m: Bits) -> Vec<u8> {
    (1..=81u8).filter(|&i| m >> (i - 1) & 1 == 1).collect()
}
fn listed(m: Bits) -> String {
    arr(list(m))
}

/// What is seen of a set.
#[derive(Clone, Copy)]
struct Seen {
    m: Bits,
    n: i32,
    z: bool,
    q: bool,
}
fn look(b: Bitboard, q: bool) -> Seen {
    let mut m = 0;
    for i in 1..=81u8 {
        if b.contains(sq(i)) {
            m |= 1 << (i - 1);
        }
    }
    Seen {
        m,
        n: b.count() as i32,
        z: b.is_empty(),
        q: !q || b == build(m, 1),
    }
}
impl Seen {
    /// The part `m` of it (already renamed), right in size and emptiness if the whole is.
    fn part(&self, m: Bits) -> String {
        let n = m.count_ones() as i32 + self.n - self.m.count_ones() as i32;
        let z = (m == 0) == (self.z == (self.m == 0));
        format!(
            "\"r\":{},\"n\":{},\"z\":{},\"q\":{}",
            listed(m),
            n,
            z as u8,
            self.q as u8
        )
    }
}

/// Records by the registers they start from.
#[derive(Default)]
pub struct Acc {
    groups: BTreeMap<Vec<Bits>, BTreeSet<(bool, String)>>,
    size: usize,
    done: usize,
}
impl Acc {
    /// `changes`: the record overwrites a register it starts from.
    fn put(&mut self, regs: &[Bits], changes: bool, rec: String) {
        self.done += 1;
        if self.size < 60_000 && self.groups.entry(regs.to_vec()).or_default().insert((changes, rec)) {
            self.size += 1;
        }
    }
    fn merge(&mut self, o: Acc) {
        self.done += o.done;
        for (k, v) in o.groups {
            self.groups.entry(k).or_default().extend(v);
        }
    }
    fn write(&self, o: &mut Out) {
        let mut n = 0;
        for (regs, recs) in &self.groups {
            o.next_session();
            let load = |o: &mut Out| {
                o.line("{\"e\":\"new\"}");
                for (i, &m) in regs.iter().enumerate() {
                    let l = listed(m);
                    o.line(&format!(
                        "{{\"e\":\"load\",\"d\":{},\"m\":{},\"w\":0,\"r\":{},\"n\":{},\"z\":{},\"q\":1}}",
                        i + 1, l, l, m.count_ones(), (m == 0) as u8
                    ));
                }
            };
            let mut fresh = false;
            for (changes, r) in recs {
                if !fresh || *changes {
                    load(o);
                    fresh = true;
                }
                o.line(r);
                if *changes {
                    fresh = false;
                }
                n += 1;
            }
        }
        println!("SCENARIOS {} DISTINCT {}", self.done, n);
    }
}

fn file_of(m: Bits, f: usize) -> Bits {
    m >> (9 * f) & FILE
}
fn rank_of(m: Bits, r: usize) -> Bits {
    m >> r & RANK
}

/// Deltas per file or rank, and flips.
fn shifts(acc: &mut Acc, m: Bits, way: usize, rng: &mut Rng, all: bool) {
    let b = build(m, way);
    let names = ["up", "down", "left", "right"];
    for dir in 0..4usize {
        for k in 0..=9u8 {
            if !all && !rng.chance(1, 4) {
                continue;
            }
            let t = unsafe {
                match dir {
                    0 => b.shift_up(k),
                    1 => b.shift_down(k),
                    2 => b.shift_left(k),
                    _ => b.shift_right(k),
                }
            };
            let s = look(t, true);
            let mut had = BTreeSet::new();
            for i in 0..9 {
                let (from, to) = if dir < 2 {
                    (file_of(m, i), file_of(s.m, i))
                } else {
                    (rank_of(m, i), rank_of(s.m, i))
                };
                if had.insert((from, to)) {
                    acc.put(
                        &[from],
                        false,
                        format!(
                            "{{\"e\":\"{}\",\"d\":2,\"x\":1,\"k\":{},{}}}",
                            names[dir], k, s.part(to)
                        ),
                    );
                }
            }
        }
    }
    let s = look(b.flip(), true);
    for f in 0..9 {
        // the file opposite, shown as the ninth
        let to = file_of(s.m, 8 - f) << 72;
        acc.put(
            &[file_of(m, f)],
            false,
            format!("{{\"e\":\"flip\",\"d\":2,\"x\":1,{}}}", s.part(to)),
        );
    }
    for f in 0..9 {
        let mut v = [0u16; 9];
        v[0] = unsafe { b.get_file_unchecked(f as u8 + 1) };
        acc.put(
            &[file_of(m, f)],
            false,
            format!("{{\"e\":\"files\",\"x\":1,\"v\":{}}}", arr(v)),
        );
    }
}

/// The operators, square by square.
fn algebra(acc: &mut Acc, x: Bits, y: Bits, way: usize, s0: u8) {
    let (a, b) = (build(x, way), build(y, way / 4));
    let at = |m: Bits, i: usize| m >> i & 1;
    let names = ["and", "or", "xor", "andnot"];
    for op in 0..4usize {
        for form in 0..9usize {
            if op == 3 && form > 0 && form < 8 {
                continue;
            }
            let mut t = a;
            let v = match (op, form) {
                (0, 0) => a & b,
                (0, 1) => a & &b,
                (0, 2) => &a & b,
                (0, 3) => &a & &b,
                (0, 4) => {
                    t &= b;
                    t
                }
                (0, 5) => {
                    t &= &b;
                    t
                }
                (0, 6) => a.and(b),
                (1, 0) => a | b,
                (1, 1) => a | &b,
                (1, 2) => &a | b,
                (1, 3) => &a | &b,
                (1, 4) => {
                    t |= b;
                    t
                }
                (1, 5) => {
                    t |= &b;
                    t
                }
                (1, 6) => a.or(b),
                (2, 0) => a ^ b,
                (2, 1) => a ^ &b,
                (2, 2) => &a ^ b,
                (2, 3) => &a ^ &b,
                (2, 4) => {
                    t ^= b;
                    t
                }
                (2, 5) => {
                    t ^= &b;
                    t
                }
                (2, 6) => a.xor(b),
                (3, 0) => a.andnot(b),
                (_, 7) => continue,
                _ => {
                    let (p, q) = (a.swap_bytes(), b.swap_bytes());
                    match op {
                        0 => p.and(q),
                        1 => p.or(q),
                        2 => p.xor(q),
                        _ => p.andnot(q),
                    }
                    .swap_bytes()
                }
            };
            let s = look(v, form == 0 || form == 8);
            let mut had = [false; 8];
            for i in 0..81 {
                let k = (at(x, i) | at(y, i) << 1 | at(s.m, i) << 2) as usize;
                if !had[k] {
                    had[k] = true;
                    acc.put(
                        &[at(x, i), at(y, i)],
                        false,
                        format!(
                            "{{\"e\":\"{}\",\"d\":3,\"x\":1,\"y\":2,\"w\":{},{}}}",
                            names[op], form, s.part(at(s.m, i))
                        ),
                    );
                }
            }
        }
    }
    for form in 0..2 {
        let s = look(if form == 0 { !a } else { !&a }, true);
        let mut had = [false; 4];
        for i in 0..81 {
            let k = (at(x, i) | at(s.m, i) << 1) as usize;
            if !had[k] {
                had[k] = true;
                // of the others it is known that the rest of the board is in the complement
                let rest = ALL & !1;
                acc.put(
                    &[at(x, i)],
                    false,
                    format!(
                        "{{\"e\":\"not\",\"d\":3,\"x\":1,\"w\":{},{}}}",
                        form, s.part(at(s.m, i) | rest)
                    ),
                );
            }
        }
    }
    for op in 0..3usize {
        for form in 0..2usize {
            let q = sq(s0);
            let mut t = a;
            match (op, form) {
                (0, 0) => t &= q,
                (0, _) => t &= &q,
                (1, 0) => t |= q,
                (1, _) => t |= &q,
                (2, 0) => t ^= q,
                (_, _) => t ^= &q,
            }
            let s = look(t, false);
            let mut had = [false; 16];
            let c = s0 as usize - 1;
            for i in (0..81).filter(|&i| i != c) {
                let from = at(x, c) | at(x, i) << 1;
                let to = at(s.m, c) | at(s.m, i) << 1;
                let k = (from | to << 2) as usize;
                if !had[k] {
                    had[k] = true;
                    acc.put(
                        &[from],
                        true,
                        format!(
                            "{{\"e\":\"{}\",\"d\":1,\"s\":1,\"w\":{},{}}}",
                            ["andsq", "orsq", "xorsq"][op], form, s.part(to)
                        ),
                    );
                }
            }
        }
    }
    // conversions
    let c = unsafe { Bitboard::from_u128_unchecked(a.to_u128()) };
    let s = look(c, true);
    let w = a.swap_bytes();
    let law = w.to_u128() == a.to_u128().swap_bytes();
    let via = unsafe { ByteSwappedBitboard::from_u128_unchecked(w.to_u128()) } == w;
    let t = look(w.swap_bytes(), true);
    let mut had = [false; 8];
    for i in 0..81 {
        let k = (at(x, i) | at(s.m, i) << 1 | at(t.m, i) << 2) as usize;
        if had[k] {
            continue;
        }
        had[k] = true;
        acc.put(
            &[at(x, i)],
            false,
            format!("{{\"e\":\"copy\",\"d\":2,\"x\":1,\"eq\":{},{}}}", (c == a) as u8, s.part(at(s.m, i))),
        );
        acc.put(
            &[at(x, i)],
            false,
            format!(
                "{{\"e\":\"swap\",\"d\":2,\"x\":1,\"law\":{},\"via\":{},{}}}",
                law as u8, via as u8, t.part(at(t.m, i))
            ),
        );
    }
    // comparisons
    for (x, y, a, b) in [(x, y, a, b), (x, x, a, build(x, way + 1)), (x, x ^ 1 << (s0 - 1), a, build(x ^ 1 << (s0 - 1), way))] {
        let v = [
            (a == b) as u8,
            (!(a != b)) as u8,
            (a.to_u128() == b.to_u128()) as u8,
            (a.swap_bytes() == b.swap_bytes()) as u8,
            crate::shim::same_order(&a, &b, a == b) as u8,
        ];
        acc.put(
            &[1, if x == y { 1 } else { 2 }],
            false,
            format!("{{\"e\":\"eq\",\"x\":1,\"y\":2,\"v\":{}}}", arr(v)),
        );
    }
}

/// Consumption: the squares are named in the order they come.
fn taking(acc: &mut Acc, m: Bits, way: usize, rng: &mut Rng) {
    let mut b = build(m, way);
    let whole = b;
    let mut now = m;
    let first = |n: u32| -> Bits { if n == 0 { 0 } else { (1 << n) - 1 } };
    for i in 0..83 {
        let by_next = match way / 4 % 3 {
            0 => false,
            1 => true,
            _ => rng.chance(1, 2),
        };
        let (lo, hi) = b.size_hint();
        let v = if by_next { b.next() } else { b.pop() };
        let s = look(b, i % 16 == 0);
        let n = now.count_ones();
        let v = v.map_or(0, |v| v.index());
        let taken = if v == 0 { 0 } else { 1 << (v - 1) };
        let right = now & taken == taken && s.m == now & !taken && (v != 0 || now == 0);
        let args = |v: u8| format!("\"v\":{},\"lo\":{},\"hi\":{},\"w\":{}", v, lo, hi.map_or(-1i64, |h| h as i64), by_next as u8);
        if right {
            let rest = if n == 0 { 0 } else { first(n) & !1 };
            acc.put(
                &[first(n)],
                true,
                format!("{{\"e\":\"pop\",\"d\":1,{},{}}}", args((v != 0) as u8), s.part(rest)),
            );
        } else {
            acc.put(&[now], true, format!("{{\"e\":\"pop\",\"d\":1,{},{}}}", args(v), s.part(s.m)));
            break;
        }
        now = s.m;
        if v == 0 && i > 0 {
            break;
        }
    }
    // a copy, through the standard adaptors
    let b = whole;
    let came: Vec<u8> = b.take(200).map(|s| s.index()).collect();
    let mut looped = vec![];
    for s in b {
        looped.push(s.index());
        if looped.len() > 200 {
            break;
        }
    }
    let finite = came.len() <= 81 && looped.len() <= 81;
    let mut got: Bits = 0;
    for &i in &came {
        got |= 1 << (i - 1);
    }
    let canonical = finite && got == m && came.len() == m.count_ones() as usize;
    let name = |i: u8| -> u8 {
        if !canonical {
            return i;
        }
        came.iter().position(|&c| c == i).map_or(81, |p| p as u8 + 1)
    };
    let opt = |s: Option<Square>| s.map_or(0, |s| name(s.index()));
    let names = |v: &[u8]| v.iter().map(|&i| name(i)).collect::<Vec<u8>>();
    let n = if finite { Iterator::count(b) as i64 } else { -1 };
    let last = if finite { opt(b.last()) } else { 0 };
    let mut nth = vec![];
    if finite {
        for _ in 0..3 {
            let k = rng.below(83);
            let mut c = b;
            let v = opt(c.nth(k));
            let mut rest = names(&list(look(c, false).m));
            rest.sort();
            nth.push(format!("[{},{},{}]", k, v, arr(rest)));
        }
    }
    let folded = if finite {
        b.fold(0u32, |a, s| a + name(s.index()) as u32)
    } else {
        0
    };
    let used = crate::bb::whole(b, &came, &name);
    if finite {
        use crate::bb::{search, SEARCHES};
        let op = way % SEARCHES.len();
        let at = match rng.below(5) {
            0 if !came.is_empty() => came[0],
            1 if !came.is_empty() => came[came.len() - 1],
            2 if !came.is_empty() => came[came.len() / 2],
            3 if !came.is_empty() => rng.pick(&came),
            _ => 0,
        };
        let mut c = b;
        let (asked, s, v) = search(&mut c, op, &|i| i == at);
        let v = if matches!(op, 1..=3) { v } else { opt(s) as i32 };
        let left = look(c, false);
        let mut rest: Bits = 0;
        for i in list(left.m) {
            rest |= 1 << (name(i) - 1);
        }
        acc.put(
            &[if canonical { first(m.count_ones()) } else { m }],
            true,
            format!(
                "{{\"e\":\"seek\",\"d\":1,\"op\":\"{}\",\"p\":{},\"a\":{},\"v\":{},{}}}",
                SEARCHES[op],
                if at == 0 { "[]".to_string() } else { arr([name(at)]) },
                arr(names(&asked)),
                v,
                left.part(rest)
            ),
        );
    }
    let s = look(b, true);
    for t in nth {
        acc.put(
            &[if canonical { first(m.count_ones()) } else { m }],
            false,
            format!(
                "{{\"e\":\"iter\",\"x\":1,\"l\":{},\"m\":{},\"ic\":{},\"last\":{},\"nth\":[{}],\"fold\":{},{},{}}}",
                arr(names(&came)), arr(names(&looped)), n, last, t, folded, used,
                s.part(if canonical { first(m.count_ones()) & if s.m == m { ALL } else { 0 } } else { s.m })
            ),
        );
    }
}

/// A set of no particular shape, or of one of several.
fn draw(rng: &mut Rng) -> Bits {
    let any = |rng: &mut Rng| -> Bits { (0..81).fold(0, |a, i| a | (rng.chance(1, 2) as Bits) << i) };
    match rng.below(8) {
        0 => any(rng),
        1 => any(rng) & any(rng) & any(rng),
        2 => any(rng) | any(rng) | any(rng),
        3 => {
            // files of few patterns
            (0..9).fold(0, |a, f| {
                let p = match rng.below(8) {
                    0 | 1 => 0,
                    2 | 3 => 0x1ff,
                    4 => 1,
                    5 => 0x100,
                    6 => 0x0ff,
                    _ => rng.below(512),
                };
                a | (p as Bits) << (9 * f)
            })
        }
        4 => {
            // ranks of few patterns
            (0..9).fold(0, |a, r| {
                let p = match rng.below(6) {
                    0 | 1 => 0,
                    2 | 3 => RANK,
                    4 => 1 << 72,
                    _ => any(rng) & RANK,
                };
                a | p << r
            })
        }
        5 => {
            // what lies on one side of files 7 and 8 sparse, full or empty
            let w0: Bits = (1 << 63) - 1;
            let mut half = |w: Bits| match rng.below(4) {
                0 => 0,
                1 => w,
                2 => w & any(rng) & any(rng) & any(rng) & any(rng),
                _ => w & any(rng),
            };
            half(w0) | half(ALL & !w0)
        }
        6 => {
            // few squares, or all but few
            let n = rng.below(6);
            let m = (0..n).fold(0, |a, _| a | 1 << rng.below(81));
            if rng.chance(1, 2) {
                m
            } else {
                ALL & !m
            }
        }
        _ => {
            // a run of squares
            let (a, b) = (rng.below(82), rng.below(82));
            let (a, b) = (a.min(b), a.max(b));
            let m = ((1 as Bits) << b) - ((1 as Bits) << a);
            if rng.chance(1, 2) {
                m
            } else {
                m ^ 1 << rng.below(81)
            }
        }
    }
}

pub fn run(o: &mut Out, seed: u64, what: &str, thorough: bool, dir: &str) {
    const THREADS: usize = 8;
    let at = format!("{}/pending", dir);
    let usual = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        DOING.with(|x| {
            let _ = std::fs::write(&at, x.borrow().as_bytes());
        });
        usual(i);
    }));
    let times = if thorough { 20 } else { 1 };
    let mut all = Acc::default();
    std::thread::scope(|sc| {
        let hs: Vec<_> = (0..THREADS)
            .map(|i| {
                sc.spawn(move || {
                    let mut rng = Rng::new(seed.wrapping_mul(4211) + i as u64 * 99 + what.len() as u64);
                    let rng = &mut rng;
                    let mut acc = Acc::default();
                    let note = |m: Bits, n: Bits| {
                        DOING.with(|x| *x.borrow_mut() = format!("{} on {:?} and {:?}", what, list(m), list(n)))
                    };
                    // every pair of squares, and its complement; every triple in the thorough tier
                    let mut small: Vec<Bits> = vec![];
                    for a in 0..81 {
                        for b in a..81 {
                            small.push(1 << a | 1 << b);
                            small.push(ALL & !(1 << a | 1 << b));
                            if thorough {
                                for c in b + 1..81 {
                                    small.push(1 << a | 1 << b | 1 << c);
                                }
                            }
                        }
                    }
                    let small = small.into_iter().enumerate().filter(|x| x.0 % THREADS == i).map(|x| x.1);
                    match what {
                        "orbitshifts" => {
                            for m in small {
                                note(m, 0);
                                shifts(&mut acc, m, m.count_ones() as usize, rng, true);
                            }
                            for j in 0..20_000 * times {
                                let m = draw(rng);
                                note(m, 0);
                                shifts(&mut acc, m, j, rng, false);
                            }
                        }
                        "orbitalgebra" => {
                            for m in small {
                                let y = draw(rng);
                                note(m, y);
                                algebra(&mut acc, m, y, rng.below(16), 1 + rng.below(81) as u8);
                            }
                            for j in 0..20_000 * times {
                                let (x, mut y) = (draw(rng), draw(rng));
                                if j % 8 == 0 {
                                    y = [x, ALL & !x, x & y, x | y][j / 8 % 4];
                                }
                                note(x, y);
                                algebra(&mut acc, x, y, j, 1 + rng.below(81) as u8);
                            }
                        }
                        "orbittaking" => {
                            for m in small {
                                note(m, 0);
                                taking(&mut acc, m, rng.below(16), rng);
                            }
                            for j in 0..10_000 * times {
                                let m = draw(rng);
                                note(m, 0);
                                taking(&mut acc, m, j, rng);
                            }
                        }
                        _ => panic!("unknown sweep"),
                    }
                    acc
                })
            })
            .collect();
        for h in hs {
            match h.join() {
                Ok(a) => all.merge(a),
                Err(_) => std::process::exit(101),
            }
        }
    });
    all.write(o);
}
