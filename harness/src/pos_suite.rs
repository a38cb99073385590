//! The families of position sessions (see DESIGN.md, "position traces").
use crate::obs::*;
use crate::out::{arr, Out};
use crate::rng::Rng;
use crate::sess::*;
use shogi_core::*;

pub fn arb(p: &PartialPosition) -> String {
    format!(",\"arg\":{}", arr(summary(p)))
}

#[cfg(feature = "alloc")]
fn full_session<'a>(o: &'a mut Out, p: PartialPosition) -> Sess<'a, Position> {
    let extra = arb(&p);
    Sess::new(o, Position::arbitrary_position(p), "arb", &extra)
}

/// Every mover on every kind of target, promoting or not, for either side to move.
fn grid(o: &mut Out, rng: &mut Rng, geoms: &[(u8, u8)]) {
    for (gi, &(f, t)) in geoms.iter().enumerate() {
        for &mover in PIECES.iter() {
            let mut s = Sess::new(o, PartialPosition::empty(), "empty", "");
            for side in [1u8, 2] {
                for pro in [0u8, 1] {
                    let mut targets: Vec<u8> = vec![0];
                    targets.extend(PIECES);
                    for (ti, &target) in targets.iter().enumerate() {
                        if f == t && target != 0 {
                            continue;
                        }
                        let ply = 1 + rng.below(400) as u16;
                        let other = if f == 40 || t == 40 { 42 } else { 40 };
                        let mut cells = vec![(other, if side == 1 { 8 } else { 24 })];
                        cells.push((f, mover));
                        if f != t {
                            cells.push((t, target));
                        }
                        let h = rng.below(3) as u8;
                        let mut p = craft(&cells, [[h; 7], [2 - h; 7]], side, ply);
                        if (ti + gi) % 2 == 0 {
                            s.restart(p.clone(), "raw", "");
                            s.mv(M::normal(f, t, pro), (ti % 2) as u8);
                        } else {
                            // with a last move already there
                            p = craft(&cells, [[h; 7], [2 - h; 7]], 3 - side, ply);
                            if p.make_move(Move::Drop {
                                piece: Piece::new(PieceKind::Gold, color(3 - side)),
                                to: sq(if f == 80 || t == 80 { 79 } else { 80 }),
                            })
                            .is_none()
                            {
                                p.side_to_move_set(color(side));
                            }
                            s.restart(p, "raw", "");
                            s.mv(M::normal(f, t, pro), (ti % 2) as u8);
                        }
                    }
                }
            }
        }
    }
}

/// Every source and destination once (more often when `dense`).
fn all_pairs(o: &mut Out, rng: &mut Rng, times: usize) {
    for a in 1..=81u8 {
        let mut s = Sess::new(o, PartialPosition::empty(), "empty", "");
        for b in 1..=81u8 {
            for _ in 0..times {
                let side = 1 + rng.below(2) as u8;
                let off = if side == 2 { 16 } else { 0 };
                let mut k = 1 + rng.below(14) as u8;
                let pro = (kind(k).promote().is_some() && rng.chance(1, 2)) as u8;
                if rng.chance(1, 6) {
                    k = 8;
                }
                let mut cells = vec![(a, k + off)];
                if a != b && rng.chance(1, 2) {
                    let mut e = 1 + rng.below(14) as u8;
                    if e == 8 && rng.chance(3, 4) {
                        e = 14;
                    }
                    cells.push((b, e + 16 - off));
                }
                for _ in 0..rng.below(4) {
                    let x = 1 + rng.below(81) as u8;
                    if x != a && x != b {
                        cells.push((x, rng.pick(&PIECES)));
                    }
                }
                s.restart(craft(&cells, [[0; 7]; 2], side, 7), "raw", "");
                s.mv(M::normal(a, b, pro), rng.below(2) as u8);
                if rng.chance(1, 8) {
                    s.mv(M::normal(b, a, 0), 0); // the other side's turn now
                }
            }
        }
    }
}

fn drops(o: &mut Out, rng: &mut Rng) {
    // every piece on every square, for both sides to move
    for &p in PIECES.iter() {
        let mut s = Sess::new(o, PartialPosition::empty(), "empty", "");
        for t in 1..=81u8 {
            for side in [1u8, 2] {
                let occ = rng.chance(1, 4);
                let cells = if occ {
                    vec![(t, rng.pick(&PIECES))]
                } else {
                    vec![(1 + (t + 40) % 81, rng.pick(&PIECES))]
                };
                s.restart(craft(&cells, [[2; 7], [3; 7]], side, 3), "raw", "");
                s.mv(M::drop(p, t), rng.below(2) as u8);
            }
        }
        // all counts of interest, one player having it and the other not
        for n in [0u8, 1, 2, 17, 18, 128, 254, 255] {
            for other in [0u8, 1] {
                for side in [1u8, 2] {
                    for t in [1u8, 63, 64, 81] {
                        let k = (p & 15).min(7) as usize - 1;
                        let mut h = [[other; 7]; 2];
                        h[side as usize - 1] = [other; 7];
                        h[side as usize - 1][k] = n;
                        s.restart(craft(&[], h, side, 9), "raw", "");
                        s.mv(M::drop(p, t), rng.below(2) as u8);
                    }
                }
            }
        }
    }
}

/// Captures into hands with many pieces.
fn captures_into_hand(o: &mut Out, rng: &mut Rng) {
    let mut s = Sess::new(o, PartialPosition::empty(), "empty", "");
    for k in 1..=14u8 {
        for side in [1u8, 2] {
            for n in [0u8, 1, 2, 3, 9, 17, 18, 127, 254, 255] {
                let off = if side == 2 { 16 } else { 0 };
                let mut h = [[0u8; 7]; 2];
                for c in 0..2 {
                    for j in 0..7 {
                        h[c][j] = rng.below(4) as u8;
                    }
                }
                let b = match k {
                    1..=7 => k,
                    8 => 1,
                    9..=12 => k - 8,
                    _ => k - 7,
                };
                h[side as usize - 1][b as usize - 1] = n;
                let a = 1 + rng.below(81) as u8;
                let t = 1 + (a + rng.below(79) as u8) % 81;
                let cells = [(a, 5 + off), (t, k + 16 - off)];
                s.restart(craft(&cells, h, side, 20), "raw", "");
                s.mv(M::normal(a, t, 0), rng.below(2) as u8);
            }
        }
    }
}

fn edits_exhaustive(o: &mut Out, rng: &mut Rng, squares: &[u8]) {
    let mut opt: Vec<u8> = vec![0];
    opt.extend(PIECES);
    // every replacement of one piece by another
    for &x in squares {
        let mut s = Sess::new(o, PartialPosition::startpos(), "startpos", "");
        for &old in &opt {
            for &new in &opt {
                s.ps(x, old);
                s.ps(x, new);
            }
        }
    }
    // every piece on every square and away again
    for &q in PIECES.iter() {
        let mut s = Sess::new(o, PartialPosition::empty(), "empty", "");
        for x in 1..=81u8 {
            s.ps(x, q);
            if rng.chance(2, 3) {
                s.ps(x, 0);
            } else {
                s.ps(x, rng.pick(&opt));
            }
        }
    }
}

fn edit_sessions(o: &mut Out, rng: &mut Rng, n: usize, len: usize) {
    for i in 0..n {
        let mut s = match i % 4 {
            0 => Sess::new(o, PartialPosition::empty(), "empty", ""),
            1 => Sess::new(o, PartialPosition::startpos(), "startpos", ""),
            2 => Sess::new(o, PartialPosition::default(), "default", ""),
            _ => Sess::new(o, random_position(rng, 30), "raw", ""),
        };
        let w = 3 + rng.below(6);
        let window: Vec<u8> = (0..w).map(|_| 1 + rng.below(81) as u8).collect();
        let kingish = rng.chance(1, 2);
        for _ in 0..len {
            match rng.below(20) {
                0..=9 => {
                    let p = match rng.below(10) {
                        0..=2 => 0,
                        3..=5 if kingish => [8u8, 24][rng.below(2)],
                        _ => rng.pick(&PIECES),
                    };
                    s.ps(rng.pick(&window), p);
                }
                10 => {
                    let mut h = [0u8; 7];
                    for x in h.iter_mut() {
                        if rng.chance(1, 2) {
                            *x = rng.below(5) as u8;
                        }
                    }
                    s.hs(1 + rng.below(2) as u8, h);
                }
                11 => s.sd(1 + rng.below(2) as u8),
                12 => {
                    let n = match rng.below(5) {
                        0 => 0,
                        1 => 65535,
                        _ => rng.below(65536) as u16,
                    };
                    s.pl(n);
                }
                13 => s.cl(rng),
                14..=16 => {
                    let m = nonsense(&s.prev, rng);
                    s.mv(m, rng.below(2) as u8);
                }
                _ => {
                    if let Some(m) = sensible(&s.prev, rng) {
                        s.mv(m, rng.below(2) as u8);
                    }
                }
            }
        }
    }
}

fn ply_sweep(o: &mut Out, rng: &mut Rng) {
    let mut s = Sess::new(o, PartialPosition::startpos(), "startpos", "");
    let mut ns: Vec<u16> = vec![
        0, 1, 2, 9, 10, 11, 99, 100, 101, 127, 128, 254, 255, 256, 257, 511, 512, 999, 1000, 1023,
        1024, 4095, 4096, 9999, 10000, 32766, 32767, 32768, 32769, 65279, 65280, 65533, 65534,
        65535,
    ];
    for _ in 0..40 {
        ns.push(rng.below(65536) as u16);
    }
    for n in ns {
        s.pl(n);
        for _ in 0..3 {
            if let Some(m) = sensible(&s.prev, rng) {
                s.mv(m, rng.below(2) as u8);
            }
            let m = nonsense(&s.prev, rng);
            s.mv(m, rng.below(2) as u8);
        }
        if rng.chance(1, 3) {
            s.pl(0);
            s.sd(1 + rng.below(2) as u8);
        }
        s.ps(1 + rng.below(81) as u8, rng.pick(&PIECES));
        s.hs(1 + rng.below(2) as u8, [3, 2, 1, 0, 1, 2, 3]);
    }
}

fn games(o: &mut Out, rng: &mut Rng, n: usize, len: usize) {
    for i in 0..n {
        let mut s = if i % 3 == 2 {
            Sess::new(o, random_position(rng, 20 + 10 * (i % 6)), "raw", "")
        } else {
            Sess::new(o, PartialPosition::startpos(), "startpos", "")
        };
        random_moves(&mut s, rng, len, 25);
        s.cl(rng);
    }
}

#[cfg(feature = "alloc")]
fn full_games(o: &mut Out, rng: &mut Rng, n: usize, len: usize) {
    for i in 0..n {
        let mut s = match i % 5 {
            0 => Sess::new(o, Position::startpos(), "startpos", ""),
            1 => Sess::new(o, Position::default(), "default", ""),
            2 => {
                // an initial position that itself has a last move
                let mut p = PartialPosition::startpos();
                for _ in 0..6 {
                    if let Some(m) = sensible(&Target::obs(&p), rng) {
                        let _ = p.make_move(m.mv());
                    }
                }
                full_session(o, p)
            }
            _ => {
                let d = 15 + rng.below(60);
                full_session(o, random_position(rng, d))
            }
        };
        for j in 0..len {
            if j % 40 == 39 {
                s.cl(rng);
                if i % 5 != 4 {
                    s.rp();
                }
            }
            random_moves(&mut s, rng, 1, 30);
            // a run of rejected moves
            if rng.chance(1, 25) {
                random_moves(&mut s, rng, 5, 100);
            }
            // the deprecated editing functions
            if i % 5 == 4 && rng.chance(1, 6) {
                if rng.chance(1, 2) {
                    s.ps(
                        1 + rng.below(81) as u8,
                        if rng.chance(1, 3) {
                            0
                        } else {
                            rng.pick(&PIECES)
                        },
                    );
                } else {
                    s.hs(1 + rng.below(2) as u8, [1, 1, 0, 2, 0, 1, 0]);
                }
            }
        }
    }
}

/// The same move again and again; edits make it possible, or not.
fn again<T: Target>(s: &mut Sess<T>, rng: &mut Rng, times: usize) {
    let f = 1 + rng.below(81) as u8;
    let t = 1 + (f + rng.below(79) as u8) % 81;
    let pro = rng.below(2) as u8;
    let via = rng.below(3) as u8;
    let k = if pro == 1 {
        rng.pick(&[1u8, 2, 3, 4, 6, 7])
    } else {
        1 + rng.below(14) as u8
    };
    let same_edit = rng.chance(1, 2);
    for i in 0..times {
        let off = if s.prev.side() == 2 { 16 } else { 0 };
        let drop = via == 2 && rng.chance(1, 2);
        if drop {
            // the very same drop: the other player passes by moving something else
            s.hs(s.prev.side(), [1; 7]);
            s.ps(t, 0);
            s.mv(M::drop(1 + (k - 1) % 7 + off, t), rng.below(2) as u8);
            continue;
        }
        s.ps(f, k + off);
        if t != f {
            s.ps(
                t,
                if same_edit || rng.chance(1, 3) {
                    0
                } else {
                    rng.pick(&[1u8, 5, 9, 14]) + 16 - off
                },
            );
        }
        s.mv(
            M::normal(f, t, pro),
            if via == 2 { (i % 2) as u8 } else { via },
        );
        if rng.chance(1, 6) {
            // and once more, which makes no sense
            s.mv(M::normal(f, t, pro), via % 2);
        }
    }
}

/// Pieces going back and forth: the same four moves, the same four boards, over and over.
pub fn dance<T: Target>(s: &mut Sess<T>, rng: &mut Rng, len: usize) {
    let side = s.prev.side();
    let steps: Vec<[u8; 2]> = [side, 3 - side]
        .iter()
        .map(|&c| {
            let off = if c == 2 { 16 } else { 0 };
            let free: Vec<u8> = (1..=81).filter(|&x| s.prev.board(x) == 0).collect();
            let own: Vec<u8> = (1..=81u8)
                .filter(|&x| s.prev.board(x) != 0 && (s.prev.board(x) >= 16) == (off == 16))
                .collect();
            if free.len() < 2 || own.is_empty() {
                return [0, 0];
            }
            let half = if c == 1 {
                &free[..free.len() / 2]
            } else {
                &free[free.len() / 2..]
            };
            [rng.pick(&own), rng.pick(half)]
        })
        .collect();
    if steps.iter().any(|x| x[0] == 0) {
        return;
    }
    for i in 0..len {
        let [a, b] = steps[i % 2];
        let m = if (i / 2) % 2 == 0 {
            M::normal(a, b, 0)
        } else {
            M::normal(b, a, 0)
        };
        s.mv(m, rng.below(2) as u8);
    }
}

fn repeats(o: &mut Out, rng: &mut Rng, n: usize, full: bool) {
    for i in 0..n {
        let d = 10 + rng.below(30);
        let p = if i % 3 == 0 {
            PartialPosition::startpos()
        } else {
            random_position(rng, d)
        };
        if full {
            #[cfg(feature = "alloc")]
            {
                let mut s = full_session(o, p);
                dance(&mut s, rng, 24);
                s.rp();
                again(&mut s, rng, 6);
                dance(&mut s, rng, 8);
                again(&mut s, rng, 6);
            }
        } else {
            let mut s = Sess::new(o, p, "raw", "");
            dance(&mut s, rng, 16);
            again(&mut s, rng, 6);
            again(&mut s, rng, 6);
        }
    }
}

#[cfg(feature = "alloc")]
/// All moves from one position with history, each on a fresh copy, accepted or not.
fn full_from_one(o: &mut Out, rng: &mut Rng, n: usize) {
    for _ in 0..n {
        let p = random_position(rng, 40);
        let extra = arb(&p);
        let base = Position::arbitrary_position(p);
        let mut s = Sess::new(o, base.clone(), "arb", &extra);
        for _ in 0..60 {
            s.restart(base.clone(), "arb", &extra);
            random_moves(&mut s, rng, 3, 50);
        }
    }
}

/// Long games: hundreds to thousands of moves on one object.
fn long_games(o: &mut Out, rng: &mut Rng, len: usize) {
    {
        let mut s = Sess::new(o, PartialPosition::startpos(), "startpos", "");
        random_moves(&mut s, rng, len, 5);
    }
    #[cfg(feature = "alloc")]
    {
        let mut s = Sess::new(o, Position::startpos(), "startpos", "");
        random_moves(&mut s, rng, len, 5);
        s.rp();
    }
    #[cfg(feature = "alloc")]
    {
        // across the wrap of the move number
        let mut p = PartialPosition::startpos();
        let _ = p.ply_set(65500);
        let mut s = full_session(o, p);
        random_moves(&mut s, rng, 120, 10);
        s.rp();
    }
}

/// Everything from the 15390 moves on a few positions: (accepted or rejected) x both forms.
fn all_moves_on(o: &mut Out, rng: &mut Rng, n: usize, share: usize) {
    for i in 0..n {
        let p = if i == 0 {
            PartialPosition::startpos()
        } else {
            random_position(rng, 25 + 10 * (i % 5))
        };
        let mut s = Sess::new(o, p.clone(), "raw", "");
        let mut fresh = true;
        for f in 1..=81u8 {
            for t in 1..=81u8 {
                for pro in [0u8, 1] {
                    if !rng.chance(share, 1000) {
                        continue;
                    }
                    if !fresh {
                        s.restart(p.clone(), "raw", "");
                    }
                    fresh = !s.mv(M::normal(f, t, pro), rng.below(2) as u8);
                }
            }
        }
        for &q in PIECES.iter() {
            for t in 1..=81u8 {
                if !rng.chance(share, 1000) {
                    continue;
                }
                if !fresh {
                    s.restart(p.clone(), "raw", "");
                }
                fresh = !s.mv(M::drop(q, t), rng.below(2) as u8);
            }
        }
    }
}

pub fn run(o: &mut Out, seed: u64, what: &str, thorough: bool) {
    let mut rng = Rng::new(
        seed.wrapping_mul(31)
            .wrapping_add(what.len() as u64 * 7 + what.as_bytes()[0] as u64),
    );
    let x = if thorough { 6 } else { 1 };
    match what {
        // what there is without any feature of the library
        "core" => {
            grid(o, &mut rng, &[(63, 64)]);
            all_pairs(o, &mut rng, 1);
            drops(o, &mut rng);
            captures_into_hand(o, &mut rng);
            ply_sweep(o, &mut rng);
            edits_exhaustive(o, &mut rng, &[64]);
            games(o, &mut rng, 12 * x, 300);
            edit_sessions(o, &mut rng, 20 * x, 120);
            repeats(o, &mut rng, 20 * x, false);
        }
        #[cfg(feature = "alloc")]
        "moves" => {
            let g: &[(u8, u8)] = if thorough {
                &[
                    (63, 64),
                    (64, 63),
                    (1, 81),
                    (81, 1),
                    (5, 5),
                    (33, 60),
                    (72, 73),
                    (9, 10),
                    (62, 65),
                    (17, 18),
                    (55, 54),
                ]
            } else {
                &[(63, 64), (81, 1), (5, 5), (33, 60)]
            };
            grid(o, &mut rng, g);
            all_pairs(o, &mut rng, x);
            drops(o, &mut rng);
            captures_into_hand(o, &mut rng);
            games(o, &mut rng, 24 * x, 300);
            all_moves_on(o, &mut rng, 3 * x, if thorough { 500 } else { 100 });
            edit_sessions(o, &mut rng, 20 * x, 120);
            full_games(o, &mut rng, 20 * x, 150);
            long_games(o, &mut rng, 700 * x);
            repeats(o, &mut rng, 30 * x, true);
            repeats(o, &mut rng, 30 * x, false);
        }
        #[cfg(feature = "alloc")]
        "turn" => {
            ply_sweep(o, &mut rng);
            grid(o, &mut rng, &[(63, 64)]);
            drops(o, &mut rng);
            games(o, &mut rng, 20 * x, 300);
            edit_sessions(o, &mut rng, 60 * x, 150);
            full_games(o, &mut rng, 30 * x, 150);
            all_pairs(o, &mut rng, 1);
            long_games(o, &mut rng, 700 * x);
            repeats(o, &mut rng, 30 * x, true);
            repeats(o, &mut rng, 30 * x, false);
        }
        #[cfg(feature = "alloc")]
        "views" => {
            edits_exhaustive(
                o,
                &mut rng,
                if thorough {
                    &[1, 9, 10, 18, 40, 54, 55, 62, 63, 64, 65, 72, 73, 81]
                } else {
                    &[1, 63, 64, 81]
                },
            );
            edit_sessions(o, &mut rng, 120 * x, 150);
            grid(o, &mut rng, &[(63, 64), (64, 63)]);
            all_pairs(o, &mut rng, 1);
            drops(o, &mut rng);
            games(o, &mut rng, 16 * x, 300);
            full_games(o, &mut rng, 10 * x, 150);
            long_games(o, &mut rng, 500 * x);
            repeats(o, &mut rng, 20 * x, true);
            repeats(o, &mut rng, 20 * x, false);
        }
        #[cfg(feature = "alloc")]
        "history" => {
            full_games(o, &mut rng, 120 * x, 200);
            full_from_one(o, &mut rng, 20 * x);
            repeats(o, &mut rng, 80 * x, true);
            long_games(o, &mut rng, 5000 * x);
        }
        _ => panic!("unknown family"),
    }
}
