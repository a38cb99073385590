//! Texts of very many values, taken apart and recorded up to renaming.
//!
//! The text of a position is that of its ranks, player, hands and number side by side; in a rank
//! every piece stands for itself, and so does every kind in the hands (spec/Laws.tla, "ranks
//! apart", "hand kinds apart"). So a text is cut into these, each is recorded as the text of a
//! position that has nothing else, and what looks the same is recorded once. A text that cannot
//! be cut is recorded as it is.
use crate::obs::*;
use crate::out::{jstr, Out};
use crate::rng::Rng;
use crate::sess::{hand_with, sensible};
#[allow(unused_imports)]
use crate::shim::*;
use crate::text::Spec;
use shogi_core::*;
use std::cell::RefCell;
use std::collections::BTreeSet;

thread_local! {
    static DOING: RefCell<String> = const { RefCell::new(String::new()) };
}
#[derive(Default)]
struct Acc {
    recs: BTreeSet<(&'static str, String)>,
    seen: std::collections::HashSet<u64>,
    done: usize,
}
impl Acc {
    fn put(&mut self, f: &'static str, body: String) {
        if self.recs.len() < 60_000 {
            self.recs.insert((f, body));
        }
    }
    /// Whether this has been recorded before.
    fn known<K: std::hash::Hash>(&mut self, k: &K) -> bool {
        use std::hash::{BuildHasher, BuildHasherDefault};
        let h = BuildHasherDefault::<std::collections::hash_map::DefaultHasher>::default().hash_one(k);
        !self.seen.insert(h)
    }
}

const NINE: &str = "/9/9/9/9/9/9/9/9";
fn sfen_rec(s: &Spec, t: &str) -> String {
    format!("{},\"t\":[{}]", s.json(), jstr(t))
}

/// `RBGSNLPrbgsnlp`: the places of the hands in the order they are written.
fn slots() -> impl Iterator<Item = (usize, usize)> {
    (0..14).map(|i| (i / 7, 6 - i % 7))
}

/// The text of hands as (texts of the kinds, what remains with every count taken away).
fn cut_hands(h: &[[u8; 7]; 2], t: &str) -> Option<(Vec<String>, String)> {
    let mut toks = vec![];
    let mut cur = String::new();
    for c in t.chars() {
        cur.push(c);
        if !c.is_ascii_digit() {
            toks.push(std::mem::take(&mut cur));
        }
    }
    if !cur.is_empty() {
        return None;
    }
    let rest: String = toks.iter().map(|t| t.chars().last().unwrap()).collect();
    if t == "-" {
        return Some((vec![], rest));
    }
    (toks.len() == h.iter().flatten().filter(|&&n| n > 0).count()).then_some((toks, rest))
}

/// Records of hands, through `rec`, which gets the hands and their text.
fn hands_apart(acc: &mut Acc, h: &[[u8; 7]; 2], t: &str, rec: &dyn Fn(&[[u8; 7]; 2], &str) -> (&'static str, String)) -> bool {
    let Some((toks, rest)) = cut_hands(h, t) else {
        return false;
    };
    let one = h.map(|x| x.map(|n| n.min(1)));
    if !acc.known(&(0u8, one, rest.clone())) {
        let (f, b) = rec(&one, &rest);
        acc.put(f, b);
    }
    for (t, (c, k)) in toks.iter().zip(slots().filter(|&(c, k)| h[c][k] > 0)) {
        if !acc.known(&(1u8, c, k, h[c][k], t.clone())) {
            let mut g = [[0u8; 7]; 2];
            g[c][k] = h[c][k];
            let (f, b) = rec(&g, t);
            acc.put(f, b);
        }
    }
    true
}

/// The record of one text of a position.
fn apart(acc: &mut Acc, s: &Spec, t: &str, ply: &str) -> bool {
    let parts: Vec<&str> = t.split(' ').collect();
    let ranks: Vec<&str> = parts[0].split('/').collect();
    if parts.len() != 4 || ranks.len() != 9 || parts[3] != ply {
        return false;
    }
    for (r, text) in ranks.iter().enumerate() {
        let cells: Vec<u8> = (0..9).map(|i| s.b[9 * (8 - i) + r]).collect();
        let mut toks: Vec<String> = vec![];
        let mut rest = String::new();
        let mut cur = String::new();
        for c in text.chars() {
            if c.is_ascii_digit() && cur.is_empty() {
                rest.push(c);
                continue;
            }
            cur.push(c);
            if c != '+' {
                toks.push(std::mem::take(&mut cur));
                rest.push('K');
            }
        }
        let there: Vec<u8> = cells.iter().copied().filter(|&p| p != 0).collect();
        if !cur.is_empty() || toks.len() != there.len() {
            return false;
        }
        let mask: Vec<bool> = cells.iter().map(|&p| p != 0).collect();
        if !acc.known(&(2u8, &mask, &rest)) {
            let mut b = Spec::blank();
            for i in 0..9 {
                b.b[9 * (8 - i)] = if mask[i] { 8 } else { 0 };
            }
            acc.put("sfen", sfen_rec(&b, &format!("{}{} b - 1", rest, NINE)));
        }
        for (p, t) in there.iter().zip(&toks) {
            if !acc.known(&(3u8, p, t)) {
                let mut b = Spec::blank();
                b.b[72] = *p;
                acc.put("sfen", sfen_rec(&b, &format!("{}8{} b - 1", t, NINE)));
            }
        }
    }
    if !acc.known(&(4u8, s.c, parts[1])) {
        let mut b = Spec::blank();
        b.c = s.c;
        acc.put("sfen", sfen_rec(&b, &format!("9{} {} - 1", NINE, parts[1])));
    }
    hands_apart(acc, &s.h, parts[2], &|h, t| {
        let mut b = Spec::blank();
        b.h = *h;
        ("sfen", sfen_rec(&b, &format!("9{} b {} 1", NINE, t)))
    })
}

fn position(acc: &mut Acc, s: &Spec, p: &PartialPosition, t: &[String]) {
    acc.done += 1;
    // the number by itself is covered in full elsewhere
    let mut alone = PartialPosition::empty();
    let ok = alone.ply_set(s.n) || s.n == 0;
    let n = alone.to_sfen_owned();
    let ply = if s.n == 0 { "0" } else { n.rsplit(' ').next().unwrap() };
    let _ = p;
    if !ok || t.iter().any(|x| *x != t[0]) || !apart(acc, s, &t[0], ply) {
        acc.put(
            "sfen",
            format!(
                "{},\"t\":[{}]",
                s.json(),
                t.iter().map(|t| jstr(t)).collect::<Vec<_>>().join(",")
            ),
        );
    }
}

fn texts(p: &PartialPosition) -> Vec<String> {
    let mut s = String::new();
    if p.to_sfen(&mut s).is_err() {
        s.push_str(" (reported failure)");
    }
    vec![p.to_sfen_owned(), s]
}

/// A position with anything in it.
pub fn draw(rng: &mut Rng) -> Spec {
    let mut s = Spec::blank();
    let d = [0, 5, 25, 50, 75, 95, 100][rng.below(7)];
    let few = [rng.pick(&PIECES), rng.pick(&PIECES)];
    let style = rng.below(3);
    for i in 0..81 {
        if rng.chance(d, 100) {
            s.b[i] = if style == 0 { few[rng.below(2)] } else { rng.pick(&PIECES) };
        }
    }
    if rng.chance(1, 4) {
        // two ranks alike
        let (a, b) = (rng.below(9), rng.below(9));
        for f in 0..9 {
            s.b[9 * f + a] = s.b[9 * f + b];
        }
    }
    s.h = hands(rng);
    s.c = 1 + rng.below(2) as u8;
    s.n = if rng.chance(1, 2) { 1 + rng.below(65535) as u16 } else { rng.below(400) as u16 };
    s
}
fn hands(rng: &mut Rng) -> [[u8; 7]; 2] {
    let mut h = [[0u8; 7]; 2];
    let d = 1 + rng.below(4);
    let like = rng.below(4);
    for i in 0..14 {
        if rng.chance(1, d) {
            h[i / 7][i % 7] = match rng.below(24) {
                0 => rng.below(256) as u8,
                1..=9 => 1,
                _ => rng.below(20) as u8,
            };
        }
    }
    if like == 0 {
        h[1] = h[0];
    }
    h
}

/// A sink that refuses according to a plan. What it was offered is remembered by how it continues
/// the text: all that was accepted and does so is one chunk (spec/Laws.tla, "accepted chunks are
/// one"), spelled with letters of its own ("letters are alike").
struct Thrifty<'a> {
    full: &'a [u8],
    at: usize,
    forever: bool,
    part: usize,
    room: usize,
    calls: usize,
    got: usize,
    /// How much of the text was offered before the refused chunk, and with it.
    offered: Option<(usize, usize)>,
    log: Vec<(&'static str, usize, u8)>,
    sound: usize,
}
impl std::fmt::Write for Thrifty<'_> {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.calls += 1;
        let planned = self.at != 0 && (self.calls == self.at || (self.forever && self.calls > self.at));
        let over = self.got + s.len() > self.room;
        let (take, ok) = if planned {
            (self.part.min(s.len()), false)
        } else if over {
            (self.room - self.got, false)
        } else {
            (s.len(), true)
        };
        self.got += take;
        let goes_on = self.offered.is_none() && self.full[self.sound..].starts_with(s.as_bytes());
        if ok && goes_on && self.log.is_empty() {
            self.sound += s.len();
        } else if self.log.len() < 40 {
            let spelled = match (s.len(), goes_on) {
                (0, _) => "",
                (1, true) => "b",
                (_, true) => "bB",
                (1, false) => "z",
                (_, false) => "zZ",
            };
            let taken = if take == s.len() { spelled.len() } else { take.min(1) };
            self.log.push((spelled, taken, ok as u8));
            if self.offered.is_none() && goes_on {
                self.offered = Some((self.sound, self.sound + s.len()));
            }
        }
        if ok {
            Ok(())
        } else {
            Err(std::fmt::Error)
        }
    }
}

/// One value written into sinks that refuse at every chunk and at every length.
fn sinks(acc: &mut Acc, full: &str, mut every: usize, write: &dyn Fn(&mut Thrifty) -> std::fmt::Result) {
    let mut go = |at: usize, forever: bool, part: usize, room: usize| -> usize {
        let mut s = Thrifty {
            full: full.as_bytes(),
            at,
            forever,
            part,
            room,
            calls: 0,
            got: 0,
            offered: None,
            log: vec![],
            sound: 0,
        };
        let r = write(&mut s).is_ok();
        acc.done += 1;
        let key = (
            s.sound > 0,
            s.offered.map(|(a, b)| (b - a).min(2)),
            s.offered.map_or(s.sound, |x| x.1) < full.len(),
            &s.log,
            r,
        );
        if acc.known(&key) {
            return s.calls;
        }
        let mut text = String::new();
        let mut w = vec![];
        if s.sound > 0 {
            text.push('a');
            w.push("[\"a\",1,1]".to_string());
        }
        if let Some((a, b)) = s.offered {
            text.push_str(["", "b", "bB"][(b - a).min(2)]);
        }
        if s.offered.map_or(s.sound, |x| x.1) < full.len() {
            text.push('c');
        }
        w.extend(s.log.iter().map(|(c, n, ok)| format!("[{},{},{}]", jstr(c), n, ok)));
        acc.put(
            "sink",
            format!(
                "{{\"e\":\"new\",\"t\":\"as it is\",\"v\":{}}}\n{{\"e\":\"run\",\"w\":[{}],\"r\":{},\"eg\":{}}}",
                jstr(&text),
                w.join(","),
                r as u8,
                jstr(&format!("{} refused from {} on ({}, {} taken, room {})", full, at, forever, part as u8, room as u8))
            ),
        );
        s.calls
    };
    let calls = go(0, false, 0, usize::MAX);
    let len = full.len();
    let mut k = 1;
    every = every.max(1);
    while k <= calls.min(400) + 1 {
        go(k, false, 0, usize::MAX);
        go(k, true, 0, usize::MAX);
        go(k, false, 1, usize::MAX);
        go(k, false, usize::MAX, usize::MAX);
        k += if k + 3 >= calls { 1 } else { every };
    }
    for room in (0..=len).step_by(every) {
        go(0, false, 0, room);
    }
}

pub fn run(o: &mut Out, seed: u64, what: &str, thorough: bool, dir: &str) {
    const THREADS: usize = 8;
    let at = format!("{}/pending", dir);
    let usual = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        DOING.with(|x| {
            let _ = std::fs::write(&at, x.borrow().as_bytes());
        });
        usual(i);
    }));
    let times = if thorough { 20 } else { 1 };
    let mut all = BTreeSet::new();
    let mut done = 0;
    std::thread::scope(|sc| {
        let hs: Vec<_> = (0..THREADS)
            .map(|i| {
                sc.spawn(move || {
                    let mut rng = Rng::new(seed.wrapping_mul(7919) + i as u64 * 31 + what.len() as u64);
                    let rng = &mut rng;
                    let mut acc = Acc::default();
                    match what {
                        "orbitsfen" => {
                            for _ in 0..30_000 * times {
                                let s = draw(rng);
                                DOING.with(|x| *x.borrow_mut() = format!("SFEN of {}", s.json()));
                                let p = s.make();
                                let t = texts(&p);
                                position(&mut acc, &s, &p, &t);
                            }
                            for _ in 0..200 * times {
                                let mut p = PartialPosition::startpos();
                                for _ in 0..120 {
                                    if let Some(m) = sensible(&Target::obs(&p), rng) {
                                        let _ = p.make_move(m.mv());
                                    }
                                    let s = Spec::of(&p);
                                    DOING.with(|x| *x.borrow_mut() = format!("SFEN of {}", s.json()));
                                    let t = texts(&p);
                                    position(&mut acc, &s, &p, &t);
                                }
                            }
                        }
                        "orbithands" => {
                            for _ in 0..20_000 * times {
                                let h = hands(rng);
                                DOING.with(|x| *x.borrow_mut() = format!("text of {:?}", h));
                                let v = [hand_with(h[0]), hand_with(h[1])];
                                let mut t = String::new();
                                if v.to_usi(&mut t).is_err() {
                                    t.push_str(" (reported failure)");
                                }
                                acc.done += 1;
                                let rec = |h: &[[u8; 7]; 2], t: &str| {
                                    (
                                        "usi_hands",
                                        format!("\"h\":[{},{}],\"t\":[{}]", crate::out::arr(h[0]), crate::out::arr(h[1]), jstr(t)),
                                    )
                                };
                                if t != v.to_usi_owned() || !hands_apart(&mut acc, &h, &t, &rec) {
                                    let (f, b) = rec(&h, &t);
                                    acc.put(f, b);
                                    let (f, b) = rec(&h, &v.to_usi_owned());
                                    acc.put(f, b);
                                }
                            }
                        }
                        "orbitsink" => {
                            // every value of the small types and every move
                            let mut j = 0;
                            let mut mine = || {
                                j += 1;
                                j % THREADS == i
                            };
                            fn usi<T: ToUsi>(acc: &mut Acc, v: &T) {
                                let full = v.to_usi_owned();
                                sinks(acc, &full, 1, &|s| v.to_usi(s));
                            }
                            for c in 1..=2 {
                                usi(&mut acc, &color(c));
                            }
                            for k in 1..=14 {
                                usi(&mut acc, &kind(k));
                            }
                            for p in PIECES {
                                usi(&mut acc, &piece(p));
                            }
                            for x in 1..=81u8 {
                                DOING.with(|d| *d.borrow_mut() = format!("writing moves to {}", x));
                                usi(&mut acc, &sq(x));
                                for a in 1..=81u8 {
                                    for pro in 0..2 {
                                        if mine() {
                                            let m = M::normal(a, x, pro).mv();
                                            usi(&mut acc, &m);
                                            usi(&mut acc, &<CompactMove as From<Move>>::from(m));
                                        }
                                    }
                                }
                                for p in PIECES {
                                    let m = M::drop(p, x).mv();
                                    usi(&mut acc, &m);
                                    usi(&mut acc, &<CompactMove as From<Move>>::from(m));
                                }
                            }
                            for _ in 0..1_500 * times {
                                let h = hands(rng);
                                DOING.with(|x| *x.borrow_mut() = format!("writing hands {:?}", h));
                                usi(&mut acc, &[hand_with(h[0]), hand_with(h[1])]);
                            }
                            for _ in 0..1_500 * times {
                                let s = draw(rng);
                                DOING.with(|x| *x.borrow_mut() = format!("writing {}", s.json()));
                                let p = s.make();
                                let full = p.to_sfen_owned();
                                sinks(&mut acc, &full, 1 + rng.below(3), &|w| p.to_sfen(w));
                            }
                            for _ in 0..20 * times {
                                let mut p = PartialPosition::startpos();
                                for _ in 0..60 {
                                    if let Some(m) = sensible(&Target::obs(&p), rng) {
                                        let _ = p.make_move(m.mv());
                                    }
                                    let full = p.to_sfen_owned();
                                    DOING.with(|x| *x.borrow_mut() = format!("writing {}", full));
                                    sinks(&mut acc, &full, 3, &|w| p.to_sfen(w));
                                }
                            }
                        }
                        _ => panic!("unknown sweep"),
                    }
                    acc
                })
            })
            .collect();
        for h in hs {
            match h.join() {
                Ok(a) => {
                    done += a.done;
                    all.extend(a.recs);
                }
                Err(_) => std::process::exit(101),
            }
        }
    });
    for (f, b) in &all {
        if *f == "sink" {
            o.next_session();
            for line in b.split('\n') {
                o.line(line);
            }
        } else {
            o.fun(f, b);
        }
    }
    println!("SCENARIOS {} DISTINCT {}", done, all.len());
}
