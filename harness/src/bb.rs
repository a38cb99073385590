//! Bitboard registers driven by operations; after each, the whole result is observed.
use crate::obs::sq;
use crate::out::{arr, Out};
use crate::rng::Rng;
use shogi_core::*;

const NR: usize = 6;

pub struct Machine<'a> {
    o: &'a mut Out,
    r: [Bitboard; NR],
    s: [ByteSwappedBitboard; NR],
}

fn members(b: Bitboard) -> Vec<u8> {
    (1..=81u8).filter(|&i| b.contains(sq(i))).collect()
}

/// The same set put together square by square.
fn rebuilt(m: &[u8]) -> Bitboard {
    let mut b = Bitboard::empty();
    for &i in m {
        b = b | Bitboard::single(sq(i));
    }
    b
}

/// Members, size, emptiness, equality with the rebuilt set.
fn seen(b: Bitboard) -> String {
    let m = members(b);
    let re = rebuilt(&m);
    format!(
        "\"r\":{},\"n\":{},\"z\":{},\"q\":{}",
        arr(&m),
        b.count(),
        b.is_empty() as u8,
        (b == re && !(b != re)) as u8
    )
}

fn opt(s: Option<Square>) -> u8 {
    s.map_or(0, |s| s.index())
}

impl<'a> Machine<'a> {
    pub fn new(o: &'a mut Out) -> Self {
        o.next_session();
        o.line("{\"e\":\"new\"}");
        Machine {
            o,
            r: [Bitboard::empty(); NR],
            s: [Bitboard::empty().swap_bytes(); NR],
        }
    }
    fn rec(&mut self, op: &str, d: usize, args: String) {
        let line = format!(
            "{{\"e\":\"{}\",\"d\":{}{},{}}}",
            op,
            d + 1,
            args,
            seen(self.r[d])
        );
        self.o.line(&line);
    }
    /// Loads a set in one of several ways.
    pub fn load(&mut self, d: usize, m: &[u8], way: usize) {
        self.o
            .pending(&|| format!("building {:?} (way {})", m, way));
        let mut b = Bitboard::empty();
        match way % 6 {
            0 => {
                for &i in m {
                    b |= sq(i);
                }
            }
            1 => {
                for &i in m {
                    b = b | Bitboard::single(sq(i));
                }
            }
            2 => {
                for f in 1..=9u8 {
                    let mut p = 0u16;
                    for &i in m {
                        if (i - 1) / 9 + 1 == f {
                            p |= 1 << ((i - 1) % 9);
                        }
                    }
                    b |= unsafe { Bitboard::from_file_unchecked(f, p) };
                }
            }
            3 => {
                b = !b;
                for i in 1..=81u8 {
                    if !m.contains(&i) {
                        b ^= &sq(i);
                    }
                }
            }
            4 => {
                for &i in m {
                    b ^= sq(i);
                }
            }
            _ => {
                b = !Bitboard::default();
                for i in 1..=81u8 {
                    if !m.contains(&i) {
                        b &= !Bitboard::single(sq(i));
                    }
                }
            }
        }
        self.r[d] = b;
        self.rec("load", d, format!(",\"m\":{},\"w\":{}", arr(m), way % 6));
    }
    pub fn bin(&mut self, op: usize, d: usize, x: usize, y: usize, form: usize) {
        self.o
            .pending(&|| format!("bitboard binary op {} form {}", op, form));
        let (a, b) = (self.r[x], self.r[y]);
        let mut t = a;
        let v = match (op, form) {
            (0, 0) => a & b,
            (0, 1) => a & &b,
            (0, 2) => &a & b,
            (0, 3) => &a & &b,
            (0, 4) => {
                t &= b;
                t
            }
            (0, 5) => {
                t &= &b;
                t
            }
            (0, _) => a.and(b),
            (1, 0) => a | b,
            (1, 1) => a | &b,
            (1, 2) => &a | b,
            (1, 3) => &a | &b,
            (1, 4) => {
                t |= b;
                t
            }
            (1, 5) => {
                t |= &b;
                t
            }
            (1, _) => a.or(b),
            (2, 0) => a ^ b,
            (2, 1) => a ^ &b,
            (2, 2) => &a ^ b,
            (2, 3) => &a ^ &b,
            (2, 4) => {
                t ^= b;
                t
            }
            (2, 5) => {
                t ^= &b;
                t
            }
            (2, _) => a.xor(b),
            _ => a.andnot(b),
        };
        self.r[d] = v;
        let name = ["and", "or", "xor", "andnot"][op];
        self.rec(
            name,
            d,
            format!(",\"x\":{},\"y\":{},\"w\":{}", x + 1, y + 1, form),
        );
    }
    pub fn binsq(&mut self, op: usize, d: usize, s: u8, form: usize) {
        let q = sq(s);
        match (op, form) {
            (0, 0) => self.r[d] &= q,
            (0, _) => self.r[d] &= &q,
            (1, 0) => self.r[d] |= q,
            (1, _) => self.r[d] |= &q,
            (2, 0) => self.r[d] ^= q,
            (_, _) => self.r[d] ^= &q,
        }
        let name = ["andsq", "orsq", "xorsq"][op];
        self.rec(name, d, format!(",\"s\":{},\"w\":{}", s, form));
    }
    pub fn not(&mut self, d: usize, x: usize, form: usize) {
        self.r[d] = if form == 0 { !self.r[x] } else { !&self.r[x] };
        self.rec("not", d, format!(",\"x\":{},\"w\":{}", x + 1, form));
    }
    pub fn u128(&mut self, d: usize, x: usize) {
        let u = self.r[x].to_u128();
        self.r[d] = unsafe { Bitboard::from_u128_unchecked(u) };
        let eq = self.r[d] == self.r[x];
        self.rec("copy", d, format!(",\"x\":{},\"eq\":{}", x + 1, eq as u8));
    }
    /// All comparisons of two registers.
    pub fn eq(&mut self, x: usize, y: usize) {
        let (a, b) = (self.r[x], self.r[y]);
        let l = format!(
            "{{\"e\":\"eq\",\"x\":{},\"y\":{},\"v\":{}}}",
            x + 1,
            y + 1,
            arr([
                (a == b) as u8,
                (!(a != b)) as u8,
                (a.to_u128() == b.to_u128()) as u8,
                (a.swap_bytes() == b.swap_bytes()) as u8,
                crate::shim::same_order(&a, &b, a == b) as u8,
            ])
        );
        self.o.line(&l);
    }
    /// Byte-swapped register d := swap(x).
    pub fn swap(&mut self, d: usize, x: usize) {
        self.s[d] = self.r[x].swap_bytes();
        let law = self.s[d].to_u128() == self.r[x].to_u128().swap_bytes();
        let via =
            unsafe { ByteSwappedBitboard::from_u128_unchecked(self.s[d].to_u128()) } == self.s[d];
        self.srec(
            "swap",
            d,
            format!(
                ",\"x\":{},\"law\":{},\"via\":{}",
                x + 1,
                law as u8,
                via as u8
            ),
        );
    }
    fn srec(&mut self, op: &str, d: usize, args: String) {
        let back = self.s[d].swap_bytes();
        let line = format!(
            "{{\"e\":\"{}\",\"d\":{}{},{}}}",
            op,
            d + 1,
            args,
            seen(back)
        );
        self.o.line(&line);
    }
    pub fn sbin(&mut self, op: usize, d: usize, x: usize, y: usize) {
        let (a, b) = (self.s[x], self.s[y]);
        self.s[d] = match op {
            0 => a.and(b),
            1 => a.or(b),
            2 => a.xor(b),
            _ => a.andnot(b),
        };
        let name = ["sand", "sor", "sxor", "sandnot"][op];
        self.srec(name, d, format!(",\"x\":{},\"y\":{}", x + 1, y + 1));
    }
    pub fn shift(&mut self, dir: usize, d: usize, x: usize, n: u8) {
        self.o
            .pending(&|| format!("bitboard shift dir {} by {}", dir, n));
        let a = self.r[x];
        self.r[d] = unsafe {
            match dir {
                0 => a.shift_up(n),
                1 => a.shift_down(n),
                2 => a.shift_left(n),
                _ => a.shift_right(n),
            }
        };
        let name = ["up", "down", "left", "right"][dir];
        self.rec(name, d, format!(",\"x\":{},\"k\":{}", x + 1, n));
    }
    pub fn flip(&mut self, d: usize, x: usize) {
        self.r[d] = self.r[x].flip();
        self.rec("flip", d, format!(",\"x\":{}", x + 1));
    }
    pub fn file(&mut self, d: usize, f: u8, p: u16) {
        self.r[d] = unsafe { Bitboard::from_file_unchecked(f, p) };
        self.rec("file", d, format!(",\"f\":{},\"p\":{}", f, p));
    }
    pub fn files(&mut self, x: usize) {
        let v: Vec<u16> = (1..=9u8)
            .map(|f| unsafe { self.r[x].get_file_unchecked(f) })
            .collect();
        let l = format!("{{\"e\":\"files\",\"x\":{},\"v\":{}}}", x + 1, arr(v));
        self.o.line(&l);
    }
    /// One step of consumption.
    pub fn pop(&mut self, d: usize, by_next: bool) -> bool {
        self.o.pending(&|| "bitboard pop".to_string());
        let (lo, hi) = self.r[d].size_hint();
        let v = if by_next {
            self.r[d].next()
        } else {
            self.r[d].pop()
        };
        self.rec(
            "pop",
            d,
            format!(
                ",\"v\":{},\"lo\":{},\"hi\":{},\"w\":{}",
                opt(v),
                lo,
                hi.map_or(-1i64, |h| h as i64),
                by_next as u8
            ),
        );
        v.is_some()
    }
    /// A search of a set, which leaves what it has not come to.
    pub fn search(&mut self, d: usize, op: usize, p: &[u8]) {
        self.o.pending(&|| format!("{} in a bitboard", SEARCHES[op]));
        let (asked, s, v) = search(&mut self.r[d], op, &|i| p.contains(&i));
        self.rec(
            "seek",
            d,
            format!(
                ",\"op\":\"{}\",\"p\":{},\"a\":{},\"v\":{}",
                SEARCHES[op],
                arr(p),
                arr(asked),
                if matches!(op, 1..=3) { v } else { opt(s) as i32 }
            ),
        );
    }
    /// Iteration over a copy, through the standard adaptors.
    pub fn iterate(&mut self, x: usize) {
        self.o.pending(&|| "iterating over a bitboard".to_string());
        let b = self.r[x];
        // Bounded, so that an iterator that never ends is seen and not suffered.
        let list: Vec<u8> = b.take(200).map(|s| s.index()).collect();
        let mut looped = vec![];
        for s in b {
            looped.push(s.index());
            if looped.len() > 200 {
                break;
            }
        }
        let finite = list.len() <= 81;
        let n = if finite {
            Iterator::count(b) as i64
        } else {
            -1
        };
        let last = if finite { opt(b.last()) } else { 0 };
        let mut nth = vec![];
        if finite {
            for k in [0usize, 1, 2, 40, 80, 81] {
                let mut c = b;
                let v = c.nth(k);
                nth.push(format!("[{},{},{}]", k, opt(v), arr(members(c))));
            }
        }
        let fold = if finite {
            b.fold(0u32, |a, s| a + s.index() as u32)
        } else {
            0
        };
        let l = format!(
            "{{\"e\":\"iter\",\"x\":{},\"l\":{},\"m\":{},\"ic\":{},\"last\":{},\"nth\":[{}],\"fold\":{},{},{}}}",
            x + 1,
            arr(&list),
            arr(looped),
            n,
            last,
            nth.join(","),
            fold,
            whole(b, &list, &|i| i),
            seen(self.r[x])
        );
        self.o.line(&l);
    }
}

/// What the standard methods that use an iterator up make of a set, given what the set yields.
/// Squares are called by `name` in the lists.
pub fn whole(b: Bitboard, came: &[u8], name: &dyn Fn(u8) -> u8) -> String {
    if came.len() > 81 {
        return "\"ls\":[],\"ex\":[],\"fl\":[0]".to_string();
    }
    let mut ls: Vec<Vec<u8>> = vec![];
    let mut l = vec![];
    b.for_each(|s| l.push(s.index()));
    ls.push(l);
    ls.push(b.collect::<Vec<Square>>().iter().map(|s| s.index()).collect());
    let (x, y): (Vec<Square>, Vec<Square>) = b.partition(|s| name(s.index()) % 2 == 0);
    let apart = x.iter().all(|s| name(s.index()) % 2 == 0) && y.iter().all(|s| name(s.index()) % 2 == 1);
    ls.push(x.iter().chain(&y).map(|s| s.index()).collect());
    let mut l = vec![];
    let r = b.reduce(|a, c| {
        if l.is_empty() {
            l.push(a.index());
        }
        l.push(c.index());
        c
    });
    if l.is_empty() {
        l.extend(r.map(|s| s.index()));
    }
    let reduced = l.last().copied() == r.map(|s| s.index());
    ls.push(l);
    let mut l = vec![];
    b.fold((), |_, s| l.push(s.index()));
    ls.push(l);
    // greatest and least, by number: 1 if they are that of the list
    let (lo, hi) = (came.iter().min().copied(), came.iter().max().copied());
    let i = |s: Option<Square>| s.map(|s| s.index());
    let ex = [
        i(b.max_by_key(|s| s.index())) == hi,
        i(b.max_by(|s, t| s.index().cmp(&t.index()))) == hi,
        i(b.min_by_key(|s| s.index())) == lo,
        i(b.min_by(|s, t| s.index().cmp(&t.index()))) == lo,
        #[cfg(feature = "ord")]
        {
            Iterator::max(b) == came.iter().map(|&s| sq(s)).max()
        },
        #[cfg(feature = "ord")]
        {
            Iterator::min(b) == came.iter().map(|&s| sq(s)).min()
        },
    ];
    let them = || came.iter().map(|&s| sq(s));
    let n = |v: Vec<Square>| v.iter().map(|s| s.index()).collect::<Vec<u8>>();
    let fl = [
        apart,
        reduced,
        b.eq(them()),
        !b.ne(them()),
        b.eq(b),
        came.is_empty() || b.ne(them().skip(1)),
        b.ne(them().chain(core::iter::once(sq(1)))),
        #[cfg(feature = "ord")]
        {
            b.cmp(them()).is_eq() && b.partial_cmp(them()) == Some(core::cmp::Ordering::Equal)
                && b.le(them()) && b.ge(them()) && !b.lt(them()) && !b.gt(them())
        },
        b.is_sorted_by_key(|s| s.index()) == came.is_sorted(),
        b.is_sorted_by(|s, t| s.index() >= t.index()) == came.is_sorted_by(|s, t| s >= t),
        n(b.step_by(3).collect()) == came.iter().copied().step_by(3).collect::<Vec<u8>>(),
        n(b.skip(2).collect()) == came.iter().copied().skip(2).collect::<Vec<u8>>(),
        n(b.take(2).collect()) == came.iter().copied().take(2).collect::<Vec<u8>>(),
        n(b.filter(|s| s.index() % 3 == 0).collect())
            == came.iter().copied().filter(|s| s % 3 == 0).collect::<Vec<u8>>(),
        n(b.map(|s| s.flip()).collect()) == came.iter().map(|s| 82 - s).collect::<Vec<u8>>(),
        n(b.skip_while(|s| s.index() % 4 != 0).collect())
            == came.iter().copied().skip_while(|s| s % 4 != 0).collect::<Vec<u8>>(),
        n(b.take_while(|s| s.index() % 4 != 0).collect())
            == came.iter().copied().take_while(|s| s % 4 != 0).collect::<Vec<u8>>(),
        n(b.chain(b).collect()) == came.iter().chain(came).copied().collect::<Vec<u8>>(),
        b.enumerate().map(|(i, s)| (i, s.index())).eq(came.iter().copied().enumerate()),
        b.zip(b).all(|(s, t)| s == t) && b.zip(b).count() == came.len(),
        n(b.fuse().collect()) == came && n(b.inspect(|_| ()).collect()) == came,
        b.peekable().peek().map(|s| s.index()) == came.first().copied(),
        came.is_empty() || n(b.cycle().take(3 * came.len()).collect()) == [came, came, came].concat(),
        b.flat_map(|s| [s, s]).count() == 2 * came.len(),
        b.map(|s| s.index() as u64).sum::<u64>() == came.iter().map(|&s| s as u64).sum(),
        b.map_while(|s| (s.index() % 5 != 0).then_some(s.index()))
            .eq(came.iter().copied().map_while(|s| (s % 5 != 0).then_some(s))),
        b.scan(0, |a, s| {
            *a += s.index() as u32;
            Some(*a)
        })
        .last()
        .unwrap_or(0)
            == came.iter().map(|&s| s as u32).sum(),
        Vec::from_iter(b.into_iter()).len() == came.len(),
    ];
    format!(
        "\"ls\":[{}],\"ex\":{},\"fl\":{}",
        ls.iter().map(|l| arr(l.iter().map(|&i| name(i)))).collect::<Vec<_>>().join(","),
        arr(ex.map(|x| x as u8)),
        arr(fl.map(|x| x as u8))
    )
}

pub const SEARCHES: [&str; 7] = ["find", "any", "all", "position", "findmap", "tryfold", "tryeach"];

/// Searching a set for a square of which `stop` holds: the squares asked for, and the answer
/// (a square, a place, or whether).
pub fn search(b: &mut Bitboard, op: usize, stop: &dyn Fn(u8) -> bool) -> (Vec<u8>, Option<Square>, i32) {
    let mut asked = vec![];
    let mut ask = |s: Square| -> bool {
        asked.push(s.index());
        asked.len() > 200 || stop(s.index())
    };
    let (s, v) = match op {
        0 => (b.find(|&s| ask(s)), 0),
        1 => (None, b.any(ask) as i32),
        2 => (None, b.all(|s| !ask(s)) as i32),
        3 => (None, b.position(ask).map_or(-1, |n| n as i32)),
        4 => (b.find_map(|s| if ask(s) { Some(s) } else { None }), 0),
        5 => (b.try_fold((), |_, s| if ask(s) { Err(s) } else { Ok(()) }).err(), 0),
        _ => (b.try_for_each(|s| if ask(s) { Err(s) } else { Ok(()) }).err(), 0),
    };
    (asked, s, v)
}

/// Sets of all shapes and densities.
pub fn sets(rng: &mut Rng, n: usize) -> Vec<Vec<u8>> {
    let all: Vec<u8> = (1..=81).collect();
    let mut v: Vec<Vec<u8>> = vec![vec![], all.clone()];
    for i in 1..=81u8 {
        v.push(vec![i]);
    }
    for i in 1..=81u8 {
        v.push(all.iter().copied().filter(|&j| j != i).collect());
    }
    for f in 0..9u8 {
        v.push((1..=9).map(|r| f * 9 + r).collect());
        v.push((0..9).map(|g| g * 9 + f + 1).collect());
        v.push(all.iter().copied().filter(|&j| (j - 1) / 9 > f).collect());
        v.push(all.iter().copied().filter(|&j| (j - 1) / 9 < f).collect());
    }
    v.push(vec![1, 81]);
    v.push(vec![63, 64]);
    v.push(vec![62, 63, 64, 65]);
    v.push((55..=72).collect());
    v.push((64..=81).collect());
    v.push((1..=63).collect());
    v.push((1..=81).step_by(2).map(|x| x as u8).collect());
    v.push((2..=81).step_by(2).map(|x| x as u8).collect());
    for i in 0..n {
        let d = [3, 10, 25, 50, 75, 90, 97][i % 7];
        v.push(all.iter().copied().filter(|_| rng.chance(d, 100)).collect());
    }
    v
}

pub fn run(o: &mut Out, seed: u64, what: &str, thorough: bool) {
    let mut rng = Rng::new(seed.wrapping_mul(77).wrapping_add(what.len() as u64));
    let x = if thorough { 8 } else { 1 };
    let rng = &mut rng;
    match what {
        "bbset" => {
            // systematic: every set loaded every way, complemented, against others
            let ss = sets(rng, 120 * x);
            for (i, a) in ss.iter().enumerate() {
                let mut m = Machine::new(o);
                for w in 0..6 {
                    m.load(w % NR, a, w);
                }
                for w in 1..6 {
                    m.eq(0, w);
                }
                let b = &ss[rng.below(ss.len())];
                m.load(1, b, i);
                m.eq(0, 1);
                m.eq(1, 0);
                for op in 0..3 {
                    for form in 0..7 {
                        m.bin(op, 2 + (form % 4), 0, 1, form);
                    }
                }
                m.bin(3, 2, 0, 1, 0);
                m.bin(3, 3, 1, 0, 0);
                m.eq(2, 3);
                m.not(4, 0, 0);
                m.not(5, 1, 1);
                m.not(4, 4, 1);
                m.eq(4, 0);
                m.u128(5, 0);
                m.eq(5, 0);
                m.swap(0, 0);
                m.swap(1, 1);
                for op in 0..4 {
                    m.sbin(op, 2 + op, 0, 1);
                    m.sbin(op, 2 + op, 1, 0);
                }
                for op in 0..3 {
                    for form in 0..2 {
                        m.u128(3, 0);
                        m.binsq(op, 3, 1 + rng.below(81) as u8, form);
                        if let Some(&s) = a.first() {
                            m.binsq(op, 3, s, form);
                        }
                    }
                }
            }
            // every square in place into every other
            for form in 0..2 {
                let mut m = Machine::new(o);
                for s in 1..=81u8 {
                    let base: Vec<u8> = (1..=81u8).filter(|_| rng.chance(1, 2)).collect();
                    for op in 0..3 {
                        m.load(0, &base, 0);
                        m.binsq(op, 0, s, form);
                    }
                }
            }
            // random programs over the registers
            for _ in 0..12 * x {
                let mut m = Machine::new(o);
                for d in 0..NR {
                    let s: Vec<u8> = (1..=81u8).filter(|_| rng.chance(1, 2)).collect();
                    m.load(d, &s, d);
                }
                for _ in 0..250 {
                    let (d, a, b) = (rng.below(NR), rng.below(NR), rng.below(NR));
                    match rng.below(10) {
                        0..=2 => m.bin(rng.below(4), d, a, b, rng.below(7)),
                        3 => m.binsq(rng.below(3), d, 1 + rng.below(81) as u8, rng.below(2)),
                        4 => m.not(d, a, rng.below(2)),
                        5 => m.u128(d, a),
                        6 => m.eq(a, b),
                        7 => m.swap(d, a),
                        8 => m.sbin(rng.below(4), d, a, b),
                        _ => {
                            let k = [2, 20, 50, 80][rng.below(4)];
                            let s: Vec<u8> = (1..=81u8).filter(|_| rng.chance(k, 100)).collect();
                            m.load(d, &s, rng.below(6));
                        }
                    }
                }
            }
        }
        "bbshift" => {
            let ss = sets(rng, 100 * x);
            for (i, a) in ss.iter().enumerate() {
                let mut m = Machine::new(o);
                m.load(0, a, i);
                for dir in 0..4 {
                    for n in 0..=9u8 {
                        m.shift(dir, 1, 0, n);
                    }
                }
                m.flip(2, 0);
                m.flip(3, 2);
                m.files(0);
                // a chain of moves
                m.u128(4, 0);
                for _ in 0..6 {
                    m.shift(rng.below(4), 4, 4, rng.below(4) as u8);
                    if rng.chance(1, 3) {
                        m.flip(4, 4);
                    }
                    m.files(4);
                }
            }
            for f in 1..=9u8 {
                let mut m = Machine::new(o);
                for p in 0..512u16 {
                    m.file(0, f, p);
                    if p % 8 == 3 || thorough {
                        m.files(0);
                    }
                }
            }
            // pattern of one file within a full or random surrounding
            for f in 1..=9u8 {
                let mut m = Machine::new(o);
                for _ in 0..60 * x {
                    let dense = [10, 50, 90, 100][rng.below(4)];
                    let s: Vec<u8> = (1..=81u8)
                        .filter(|&i| {
                            ((i - 1) / 9 + 1 == f && rng.chance(1, 2))
                                || ((i - 1) / 9 + 1 != f && rng.chance(dense, 100))
                        })
                        .collect();
                    m.load(0, &s, 1);
                    m.files(0);
                }
            }
        }
        "bbpop" => {
            let ss = sets(rng, 60 * x);
            for (i, a) in ss.iter().enumerate() {
                let mut m = Machine::new(o);
                m.load(0, a, i);
                m.u128(1, 0);
                m.iterate(0);
                // consume fully: by pop, by next, or mixed
                let big = a.len() > 60;
                if big && i % 4 != 0 && !thorough {
                    for k in 0..6 {
                        m.pop(0, k % 2 == 1);
                    }
                } else {
                    let mut k = 0;
                    while k < 200 {
                        let by_next = match i % 3 {
                            0 => false,
                            1 => true,
                            _ => rng.chance(1, 2),
                        };
                        k += 1;
                        if !m.pop(0, by_next) {
                            break;
                        }
                    }
                    m.pop(0, false);
                    m.pop(0, true);
                    m.iterate(0);
                }
                m.eq(1, 0);
                for op in 0..SEARCHES.len() {
                    m.u128(2, 1);
                    for k in 0..3 {
                        let p: Vec<u8> = match k {
                            0 if !a.is_empty() => vec![rng.pick(a)],
                            2 => vec![],
                            _ => (0..4).map(|_| 1 + rng.below(81) as u8).collect(),
                        };
                        m.search(2, op, &p);
                    }
                }
                // refill and take some again
                m.bin(1, 0, 0, 1, 0);
                m.pop(0, false);
                m.binsq(1, 0, 1 + rng.below(81) as u8, 0);
                m.pop(0, true);
                m.iterate(1);
            }
        }
        _ => unreachable!(),
    }
}
