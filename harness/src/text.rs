//! Text output: of everything, and into sinks that refuse.
use crate::obs::*;
use crate::out::{arr, jstr, Out};
use crate::rng::Rng;
use crate::sess::{craft, hand_with, sensible};
#[allow(unused_imports)]
use crate::shim::*;
use shogi_core::*;
use std::fmt::Write;

/// A position by numbers.
#[derive(Clone)]
pub struct Spec {
    pub b: [u8; 81],
    pub h: [[u8; 7]; 2],
    pub c: u8,
    pub n: u16,
}
impl Spec {
    pub fn blank() -> Spec {
        Spec {
            b: [0; 81],
            h: [[0; 7]; 2],
            c: 1,
            n: 1,
        }
    }
    pub fn make(&self) -> PartialPosition {
        let cells: Vec<(u8, u8)> = (0..81)
            .filter(|&i| self.b[i] != 0)
            .map(|i| (i as u8 + 1, self.b[i]))
            .collect();
        if self.n == 0 {
            // this number is only reached by a move at the last one
            let mut p = craft(&[(1, 7)], [[0; 7]; 2], 1, 65535);
            let _ = p.make_move(M::normal(1, 2, 0).mv());
            p.piece_set(sq(2), None);
            for &(s, q) in &cells {
                p.piece_set(sq(s), Some(piece(q)));
            }
            for c in [1u8, 2] {
                *p.hand_of_a_player_mut(color(c)) = hand_with(self.h[c as usize - 1]);
            }
            p.side_to_move_set(color(self.c));
            return p;
        }
        craft(&cells, self.h, self.c, self.n)
    }
    pub fn of(p: &PartialPosition) -> Spec {
        let c = Common::partial(p);
        let mut s = Spec::blank();
        for i in 0..81 {
            s.b[i] = c.piece_at[i] as u8;
        }
        for i in 0..14 {
            s.h[i / 7][i % 7] = c.hand_of[i] as u8;
        }
        s.c = c.side as u8;
        s.n = c.ply as u16;
        s
    }
    pub fn json(&self) -> String {
        format!(
            "\"b\":{},\"h\":[{},{}],\"c\":{},\"n\":{}",
            arr(self.b),
            arr(self.h[0]),
            arr(self.h[1]),
            self.c,
            self.n
        )
    }
    pub fn random(rng: &mut Rng) -> Spec {
        let mut s = Spec::blank();
        let d = [0, 5, 25, 50, 75, 95, 100][rng.below(7)];
        for i in 0..81 {
            if rng.chance(d, 100) {
                s.b[i] = rng.pick(&PIECES);
            }
        }
        let hd = [0, 1, 3, 4][rng.below(4)];
        for i in 0..14 {
            if rng.chance(hd, 4) {
                s.h[i / 7][i % 7] = match rng.below(6) {
                    0 => 255,
                    1 => rng.below(256) as u8,
                    2 => 10 * (1 + rng.below(25)) as u8,
                    3 => 1,
                    _ => rng.below(20) as u8,
                };
            }
        }
        s.c = 1 + rng.below(2) as u8;
        s.n = match rng.below(6) {
            0 => 65535,
            1 => 1 + rng.below(65535) as u16,
            2 => [
                10, 100, 1000, 10000, 9, 99, 999, 9999, 60000, 32768, 101, 1010, 20002,
            ][rng.below(13)],
            _ => 1 + rng.below(400) as u16,
        };
        s
    }
}

fn via_sink(p: &PartialPosition) -> String {
    let mut s = String::new();
    let r = p.to_sfen(&mut s);
    if r.is_err() {
        s.push_str(" (reported failure)");
    }
    s
}
fn usi_sink<T: ToUsi>(t: &T) -> String {
    let mut s = String::new();
    if t.to_usi(&mut s).is_err() {
        s.push_str(" (reported failure)");
    }
    s
}
fn strs(v: &[String]) -> String {
    arr(v.iter().map(|s| jstr(s)))
}

fn rec_sfen(o: &mut Out, s: &Spec, p: &PartialPosition) {
    o.pending(&|| format!("SFEN of {}", s.json()));
    let t = vec![
        p.to_sfen_owned(),
        via_sink(p),
        #[cfg(feature = "alloc")]
        Position::arbitrary_position(p.clone()).to_sfen_owned(),
        #[cfg(not(feature = "alloc"))]
        p.to_sfen_owned(),
    ];
    o.fun("sfen", &format!("{},\"t\":{}", s.json(), strs(&t)));
}

pub fn sfen(o: &mut Out, seed: u64, thorough: bool) {
    let mut rng = Rng::new(seed ^ 0x5f3a);
    let rng = &mut rng;
    let x = if thorough { 10 } else { 1 };
    for p in PIECES {
        let v: Vec<String> = (0..81)
            .map(|i| {
                let mut s = Spec::blank();
                s.b[i] = p;
                o.pending(&|| format!("SFEN of {}", s.json()));
                s.make().to_sfen_owned()
            })
            .collect();
        o.fun("sfen_pc", &format!("\"p\":{},\"v\":{}", p, strs(&v)));
    }
    for r in 1..=9usize {
        for _ in 0..x {
            let q: Vec<u8> = (0..9).map(|_| rng.pick(&PIECES)).collect();
            let v: Vec<String> = (0..512usize)
                .map(|m| {
                    let mut s = Spec::blank();
                    s.c = 2;
                    s.n = 2;
                    for f in 0..9 {
                        if m >> f & 1 == 1 {
                            s.b[9 * f + r - 1] = q[f];
                        }
                    }
                    s.make().to_sfen_owned()
                })
                .collect();
            o.fun(
                "sfen_vac",
                &format!("\"r\":{},\"q\":{},\"v\":{}", r, arr(&q), strs(&v)),
            );
        }
    }
    for c in 0..2usize {
        for k in 0..7usize {
            for busy in 0..2 {
                let mut h = [[0u8; 7]; 2];
                if busy == 1 {
                    for i in 0..14 {
                        h[i / 7][i % 7] = rng.below(13) as u8;
                    }
                }
                let v: Vec<String> = (0..=255u8)
                    .map(|n| {
                        let mut s = Spec::blank();
                        s.h = h;
                        s.h[c][k] = n;
                        s.make().to_sfen_owned()
                    })
                    .collect();
                o.fun(
                    "sfen_hand",
                    &format!(
                        "\"c\":{},\"k\":{},\"h\":[{},{}],\"v\":{}",
                        c + 1,
                        k + 1,
                        arr(h[0]),
                        arr(h[1]),
                        strs(&v)
                    ),
                );
            }
        }
    }
    // every move number: 0 can only be reached by making a move at 65535
    let mut p = PartialPosition::empty();
    let mut lo = 1u32;
    while lo <= 65535 {
        let hi = (lo + 255).min(65535);
        let v: Vec<String> = (lo..=hi)
            .map(|n| {
                let _ = p.ply_set(n as u16);
                p.to_sfen_owned()
            })
            .collect();
        o.fun("sfen_ply", &format!("\"lo\":{},\"v\":{}", lo, strs(&v)));
        lo = hi + 1;
    }
    let mut wrap = Spec::blank();
    wrap.b[40] = 8;
    wrap.n = 65535;
    let mut w = wrap.make();
    let _ = w.make_move(M::normal(41, 42, 0).mv());
    rec_sfen(o, &Spec::of(&w), &w);
    for p in [
        PartialPosition::startpos(),
        PartialPosition::empty(),
        PartialPosition::default(),
    ] {
        rec_sfen(o, &Spec::of(&p), &p);
    }
    for _ in 0..1500 * x {
        let s = Spec::random(rng);
        rec_sfen(o, &s, &s.make());
    }
    // along games
    for _ in 0..25 * x {
        #[cfg(feature = "alloc")]
        let mut p = Position::startpos();
        #[cfg(not(feature = "alloc"))]
        let mut p = Whole(PartialPosition::startpos());
        for _ in 0..40 {
            if let Some(m) = sensible(&Target::obs(p.inner()), rng) {
                let _ = p.make_move(m.mv());
            }
            let s = Spec::of(p.inner());
            let t = vec![
                p.to_sfen_owned(),
                p.inner().to_sfen_owned(),
                via_sink(p.inner()),
            ];
            o.fun("sfen", &format!("{},\"t\":{}", s.json(), strs(&t)));
        }
    }
}

pub fn usi(o: &mut Out, seed: u64, thorough: bool) {
    let mut rng = Rng::new(seed ^ 0x05151);
    let rng = &mut rng;
    let x = if thorough { 10 } else { 1 };
    for i in 1..=81u8 {
        o.fun(
            "usi_sq",
            &format!(
                "\"s\":{},\"t\":{}",
                i,
                strs(&[sq(i).to_usi_owned(), usi_sink(&sq(i))])
            ),
        );
    }
    for k in 1..=14u8 {
        o.fun(
            "usi_kind",
            &format!(
                "\"k\":{},\"t\":{}",
                k,
                strs(&[kind(k).to_usi_owned(), usi_sink(&kind(k))])
            ),
        );
    }
    for p in PIECES {
        o.fun(
            "usi_piece",
            &format!(
                "\"p\":{},\"t\":{}",
                p,
                strs(&[piece(p).to_usi_owned(), usi_sink(&piece(p))])
            ),
        );
    }
    for c in 1..=2u8 {
        o.fun(
            "usi_color",
            &format!(
                "\"c\":{},\"t\":{}",
                c,
                strs(&[color(c).to_usi_owned(), usi_sink(&color(c))])
            ),
        );
    }
    for c in 0..2usize {
        for k in 0..7usize {
            for busy in 0..2 {
                let mut h = [[0u8; 7]; 2];
                if busy == 1 {
                    for i in 0..14 {
                        h[i / 7][i % 7] = rng.below(13) as u8;
                    }
                }
                let v: Vec<String> = (0..=255u8)
                    .map(|n| {
                        let mut g = h;
                        g[c][k] = n;
                        [hand_with(g[0]), hand_with(g[1])].to_usi_owned()
                    })
                    .collect();
                o.fun(
                    "usi_count",
                    &format!(
                        "\"c\":{},\"k\":{},\"h\":[{},{}],\"v\":{}",
                        c + 1,
                        k + 1,
                        arr(h[0]),
                        arr(h[1]),
                        strs(&v)
                    ),
                );
            }
        }
    }
    for i in 0..400 * x {
        // which slots are filled: every subset is as likely
        let d = [1, 2, 4][i % 3];
        let mut h = [[0u8; 7]; 2];
        for j in 0..14 {
            if rng.chance(1, d) {
                h[j / 7][j % 7] = match rng.below(4) {
                    0 => 1,
                    1 => rng.below(256) as u8,
                    _ => rng.below(19) as u8,
                };
            }
        }
        let v = [hand_with(h[0]), hand_with(h[1])];
        o.fun(
            "usi_hands",
            &format!(
                "\"h\":[{},{}],\"t\":{}",
                arr(h[0]),
                arr(h[1]),
                strs(&[v.to_usi_owned(), usi_sink(&v)])
            ),
        );
    }
    let mut row = |d: u8, a: u8, p: u8| {
        let v: Vec<String> = (1..=81)
            .map(|t| (M { d, a, t, p }).mv().to_usi_owned())
            .collect();
        let w: Vec<String> = (1..=81)
            .map(|t| {
                let c: CompactMove = (M { d, a, t, p }).mv().into();
                c.to_usi_owned()
            })
            .collect();
        o.fun(
            "usi_mv",
            &format!(
                "\"d\":{},\"a\":{},\"p\":{},\"v\":{},\"w\":{}",
                d,
                a,
                p,
                strs(&v),
                strs(&w)
            ),
        );
    };
    for p in 0..2 {
        for a in 1..=81 {
            row(0, a, p);
        }
    }
    for a in PIECES {
        row(1, a, 0);
    }
}

/// A sink that refuses according to a plan, and remembers what it was offered.
struct Sink {
    /// refuse the k-th call (from 1)
    at: usize,
    /// and all later ones
    forever: bool,
    /// take this many bytes of a refused chunk
    part: usize,
    /// refuse what does not fit here (taking what does)
    room: usize,
    calls: usize,
    got: usize,
    log: Vec<String>,
}
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.calls += 1;
        let planned =
            self.at != 0 && (self.calls == self.at || (self.forever && self.calls > self.at));
        let full = self.got + s.len() > self.room;
        let (take, ok) = if planned {
            (self.part.min(s.len()), false)
        } else if full {
            (self.room - self.got, false)
        } else {
            (s.len(), true)
        };
        self.got += take;
        if self.log.len() < 400 {
            self.log
                .push(format!("[{},{},{}]", jstr(s), take, ok as u8));
        }
        if ok {
            Ok(())
        } else {
            Err(std::fmt::Error)
        }
    }
}

fn runs(
    o: &mut Out,
    head: &str,
    every: usize,
    rng: &mut Rng,
    write: &dyn Fn(&mut Sink) -> std::fmt::Result,
) {
    o.next_session();
    o.line(&format!("{{\"e\":\"new\",{}}}", head));
    let mut go = |at: usize, forever: bool, part: usize, room: usize| -> (usize, usize) {
        o.pending(&|| {
            format!(
                "writing {} into a sink refusing at {} {} {} {}",
                head, at, forever, part, room
            )
        });
        let mut s = Sink {
            at,
            forever,
            part,
            room,
            calls: 0,
            got: 0,
            log: vec![],
        };
        let r = write(&mut s).is_ok();
        o.line(&format!(
            "{{\"e\":\"run\",\"w\":{},\"r\":{}}}",
            arr(&s.log),
            r as u8
        ));
        (s.calls, s.got)
    };
    let (calls, len) = go(0, false, 0, usize::MAX);
    let phase = rng.below(every);
    for k in 1..=calls.min(300) + 1 {
        if every > 1 && k % every != phase && k > 2 && k + 2 < calls {
            continue;
        }
        go(k, false, 0, usize::MAX);
        go(k, true, 0, usize::MAX);
        if every == 1 || k % 4 == 0 {
            go(k, false, 1, usize::MAX);
        }
    }
    for room in 0..=len.min(300) + 1 {
        if every > 1 && room % every != phase && room > 2 && room + 2 < len {
            continue;
        }
        go(0, false, 0, room);
    }
}

pub fn sink(o: &mut Out, seed: u64, thorough: bool) {
    let mut rng = Rng::new(seed ^ 0x51c4);
    let rng = &mut rng;
    let x = if thorough { 8 } else { 1 };
    for i in 1..=81u8 {
        runs(o, &format!("\"t\":\"sq\",\"v\":{}", i), 1, rng, &|s| {
            sq(i).to_usi(s)
        });
    }
    for k in 1..=14u8 {
        runs(o, &format!("\"t\":\"kind\",\"v\":{}", k), 1, rng, &|s| {
            kind(k).to_usi(s)
        });
    }
    for p in PIECES {
        runs(o, &format!("\"t\":\"piece\",\"v\":{}", p), 1, rng, &|s| {
            piece(p).to_usi(s)
        });
    }
    for c in 1..=2u8 {
        runs(o, &format!("\"t\":\"color\",\"v\":{}", c), 1, rng, &|s| {
            color(c).to_usi(s)
        });
    }
    let mut ms = vec![];
    for p in PIECES {
        ms.push(M::drop(p, 1 + rng.below(81) as u8));
    }
    for _ in 0..30 * x {
        ms.push(M::normal(
            1 + rng.below(81) as u8,
            1 + rng.below(81) as u8,
            rng.below(2) as u8,
        ));
        ms.push(M::drop(rng.pick(&PIECES), 1 + rng.below(81) as u8));
    }
    for m in ms {
        let mv = m.mv();
        let c: CompactMove = mv.into();
        runs(
            o,
            &format!("\"t\":\"mv\",\"v\":{}", m.json()),
            1,
            rng,
            &|s| mv.to_usi(s),
        );
        runs(
            o,
            &format!("\"t\":\"cmv\",\"v\":{}", m.json()),
            1,
            rng,
            &|s| c.to_usi(s),
        );
    }
    let mut hs = vec![[[0u8; 7]; 2], [[1; 7]; 2], [[255; 7]; 2], [[10; 7]; 2]];
    for c in 0..2 {
        for k in 0..7 {
            for n in [1u8, 2, 10, 99, 100, 255] {
                let mut h = [[0u8; 7]; 2];
                h[c][k] = n;
                hs.push(h);
            }
        }
    }
    for _ in 0..25 * x {
        let mut h = [[0u8; 7]; 2];
        for j in 0..14 {
            h[j / 7][j % 7] = if rng.chance(1, 3) {
                rng.below(256) as u8
            } else {
                rng.below(12) as u8
            };
        }
        hs.push(h);
    }
    for h in hs {
        let v = [hand_with(h[0]), hand_with(h[1])];
        let big = h.iter().flatten().filter(|&&n| n > 0).count() > 6;
        runs(
            o,
            &format!("\"t\":\"hands\",\"v\":[{},{}]", arr(h[0]), arr(h[1])),
            if big { 2 } else { 1 },
            rng,
            &|s| v.to_usi(s),
        );
    }
    let mut ps = vec![
        Spec::of(&PartialPosition::startpos()),
        Spec::of(&PartialPosition::empty()),
    ];
    for _ in 0..14 * x {
        ps.push(Spec::random(rng));
    }
    // move numbers of every length, on an otherwise short text
    for n in [1u16, 10, 12, 100, 120, 1000, 1001, 10000, 12345, 65535] {
        let mut s = Spec::blank();
        s.n = n;
        s.h[1][0] = 3;
        ps.push(s);
    }
    for (i, s) in ps.iter().enumerate() {
        let p = s.make();
        runs(
            o,
            &format!("\"t\":\"pos\",{}", s.json()),
            if i < 2 || i > 15 || thorough { 1 } else { 3 },
            rng,
            &|w| p.to_sfen(w),
        );
    }
}
