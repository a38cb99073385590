//! Comparison tables of every orderable type.
use crate::obs::*;
use crate::out::{arr, Out};
use crate::rng::Rng;
use crate::sess::{craft, hand_with, random_position, sensible};
use crate::shim::hash_of;
use crate::values::{ILL, KINDS, RES};
use shogi_core::c_compat::*;
use shogi_core::*;
use std::cmp::Ordering;
use std::hash::Hash;

fn code<T: Ord + Hash>(a: &T, b: &T) -> u32 {
    let c = Ord::cmp(a, b);
    let f = (a == b) as u32
        + 2 * (a != b) as u32
        + 4 * (PartialOrd::partial_cmp(a, b) == Some(c)) as u32
        + 8 * (a < b) as u32
        + 16 * (a <= b) as u32
        + 32 * (a > b) as u32
        + 64 * (a >= b) as u32
        + 128 * (hash_of(a) == hash_of(b)) as u32;
    let c = match c {
        Ordering::Less => 0,
        Ordering::Equal => 1,
        Ordering::Greater => 2,
    };
    c + 4 * f
}

fn table<T: Ord + Hash>(o: &mut Out, ty: &str, keyed: bool, v: &[(Vec<i64>, T)]) {
    o.pending(&|| format!("comparing values of type {}", ty));
    let keys: Vec<String> = v.iter().map(|x| arr(&x.0)).collect();
    let rows: Vec<String> = v
        .iter()
        .map(|x| arr(v.iter().map(|y| code(&x.1, &y.1))))
        .collect();
    let mut order: Vec<usize> = (0..v.len()).collect();
    order.sort_by(|&i, &j| v[i].1.cmp(&v[j].1));
    o.fun(
        "ord",
        &format!(
            "\"ty\":\"{}\",\"keyed\":{},\"keys\":{},\"m\":{},\"order\":{}",
            ty,
            keyed as u8,
            arr(keys),
            arr(rows),
            arr(order.iter().map(|i| i + 1))
        ),
    );
}

fn sample<T: Clone>(v: &[T], n: usize, rng: &mut Rng) -> Vec<T> {
    (0..n).map(|_| v[rng.below(v.len())].clone()).collect()
}

/// A value of its own for every number up to n, and twice some of them.
fn small<T: Ord + Hash + Copy>(o: &mut Out, ty: &str, v: &[(i64, T)]) {
    let mut w: Vec<(Vec<i64>, T)> = v.iter().map(|&(k, x)| (vec![k], x)).collect();
    w.push((vec![v[0].0], v[0].1));
    w.push((vec![v[v.len() - 1].0], v[v.len() - 1].1));
    table(o, ty, true, &w);
}

/// All values of a type in their order, in overlapping stretches.
fn chain<T: Ord + Hash + Clone>(
    o: &mut Out,
    ty: &str,
    rng: &mut Rng,
    n: usize,
    at: &dyn Fn(usize) -> (Vec<i64>, T),
) {
    let len = 600;
    let mut lo = 0;
    while lo + 1 < n {
        let hi = (lo + len).min(n);
        o.pending(&|| format!("comparing values {} to {} of type {}", lo, hi, ty));
        let v: Vec<(Vec<i64>, T)> = (lo..hi).map(at).collect();
        let with: Vec<usize> = (0..v.len()).map(|_| rng.below(v.len())).collect();
        o.fun(
            "chain",
            &format!(
                "\"ty\":\"{}\",\"keys\":{},\"up\":{},\"down\":{},\"with\":{},\"other\":{},\"self\":{}",
                ty,
                arr(v.iter().map(|x| arr(&x.0))),
                arr(v.windows(2).map(|w| code(&w[0].1, &w[1].1))),
                arr(v.windows(2).map(|w| code(&w[1].1, &w[0].1))),
                arr(with.iter().map(|w| w + 1)),
                arr(with.iter().enumerate().map(|(i, &w)| code(&v[i].1, &v[w].1))),
                arr(v.iter().zip(&with).map(|(x, &w)| {
                    // a copy, made anew or over another value
                    let mut y = v[w].1.clone();
                    y.clone_from(&x.1);
                    let z = x.1.clone();
                    if code(&x.1, &z) == code(&x.1, &y) && code(&z, &y) == code(&x.1, &y) {
                        code(&x.1, &z)
                    } else {
                        9
                    }
                })),
            ),
        );
        lo = hi - 1;
    }
}

/// Hand-rank, filled in once all hands are known.
#[derive(Clone)]
struct PK {
    side: i64,
    ply: i64,
    hands: [Hand; 2],
    board: Vec<i64>,
    last: i64,
}
fn pk(p: &PartialPosition) -> PK {
    PK {
        side: p.side_to_move() as i64,
        ply: p.ply() as i64,
        hands: [
            p.hand_of_a_player(Color::Black),
            p.hand_of_a_player(Color::White),
        ],
        board: (1..=81).map(|s| pcode(p.piece_at(sq(s))) as i64).collect(),
        last: p.last_compact_move().map_or(0, |m| mcode(m) as i64),
    }
}
fn hcounts(h: Hand) -> Vec<i64> {
    (1..=7)
        .map(|k| h.count(kind(k)).unwrap_or(0) as i64)
        .collect()
}
/// Key of a position: the hands are replaced by their place among all the hands of the sample,
/// by the order of hands (which is judged on its own).
fn pkey(k: &PK, all: &[[Hand; 2]]) -> Vec<i64> {
    let mut v = vec![k.side, k.ply];
    let ident = |h: &[Hand; 2]| (hcounts(h[0]), hcounts(h[1]));
    let mut below: Vec<_> = all
        .iter()
        .filter(|h| h.cmp(&&k.hands) == Ordering::Less)
        .map(ident)
        .collect();
    below.sort();
    below.dedup();
    v.push(below.len() as i64);
    v.extend(&k.board);
    v.push(k.last);
    v
}
fn mkey(m: &Move) -> Vec<i64> {
    let m = M::of(*m);
    vec![m.d as i64, m.a as i64, m.t as i64, m.p as i64]
}

/// The same position reached otherwise.
fn reroute(p: &PartialPosition, rng: &mut Rng) -> PartialPosition {
    let mut q = p.clone();
    for _ in 0..1 + rng.below(4) {
        match rng.below(5) {
            0 => {
                // squares away and back, kings preferably
                let mut ss: Vec<u8> = (1..=81)
                    .filter(|&s| pcode(p.piece_at(sq(s))) & 15 == 8)
                    .collect();
                ss.push(1 + rng.below(81) as u8);
                let s = rng.pick(&ss);
                let old = q.piece_at(sq(s));
                q.piece_set(sq(s), Some(piece(rng.pick(&PIECES))));
                if rng.chance(1, 2) {
                    q.piece_set(sq(s), None);
                }
                q.piece_set(sq(s), old);
            }
            1 => {
                // a king passes by
                let s = 1 + rng.below(81) as u8;
                let old = q.piece_at(sq(s));
                q.piece_set(sq(s), Some(piece(if rng.chance(1, 2) { 8 } else { 24 })));
                q.piece_set(sq(s), old);
            }
            2 => {
                let c = color(1 + rng.below(2) as u8);
                let h = q.hand_of_a_player(c);
                *q.hand_of_a_player_mut(c) = hand_with([1, 2, 3, 4, 5, 6, 7]);
                *q.hand_of_a_player_mut(c) = hand_with(
                    hcounts(h)
                        .iter()
                        .map(|&x| x as u8)
                        .collect::<Vec<_>>()
                        .try_into()
                        .unwrap(),
                );
            }
            3 => {
                let s = q.side_to_move();
                q.side_to_move_set(s.flip());
                q.side_to_move_set(s);
            }
            _ => {
                let n = q.ply();
                if n != 0 {
                    let _ = q.ply_set(n ^ 0x5555 | 1);
                    let _ = q.ply_set(n);
                }
            }
        }
    }
    q
}

/// Built anew from what it shows (only for positions without a last move).
fn rebuild(p: &PartialPosition, rng: &mut Rng) -> PartialPosition {
    let mut cells: Vec<(u8, u8)> = (1..=81)
        .map(|s| (s, pcode(p.piece_at(sq(s))) as u8))
        .filter(|c| c.1 != 0)
        .collect();
    for i in (1..cells.len()).rev() {
        cells.swap(i, rng.below(i + 1));
    }
    let h = |c: u8| -> [u8; 7] {
        hcounts(p.hand_of_a_player(color(c)))
            .iter()
            .map(|&x| x as u8)
            .collect::<Vec<_>>()
            .try_into()
            .unwrap()
    };
    let start = if rng.chance(1, 2) {
        PartialPosition::empty()
    } else {
        PartialPosition::startpos()
    };
    let mut q = start;
    for s in 1..=81 {
        q.piece_set(sq(s), None);
    }
    for (s, x) in cells {
        q.piece_set(sq(s), Some(piece(x)));
    }
    for c in [1, 2] {
        *q.hand_of_a_player_mut(color(c)) = hand_with(h(c));
    }
    q.side_to_move_set(p.side_to_move());
    if p.ply() != 0 {
        let _ = q.ply_set(p.ply());
    }
    q
}

/// Differs from p in exactly one respect.
fn tweak(p: &PartialPosition, rng: &mut Rng) -> PartialPosition {
    let mut q = p.clone();
    match rng.below(4) {
        0 => q.side_to_move_set(p.side_to_move().flip()),
        1 => {
            let _ = q.ply_set(match rng.below(4) {
                0 => p.ply() ^ 256,
                1 => p.ply().wrapping_add(1),
                2 => p.ply() ^ 1,
                _ => 1 + rng.below(65535) as u16,
            });
        }
        2 => {
            let c = color(1 + rng.below(2) as u8);
            let h = q.hand_of_a_player(c);
            let k = kind(1 + rng.below(7) as u8);
            *q.hand_of_a_player_mut(c) = if rng.chance(1, 2) {
                h.added(k).unwrap_or(h)
            } else {
                h.removed(k).unwrap_or(h)
            };
        }
        _ => {
            let s = 1 + rng.below(81) as u8;
            q.piece_set(
                sq(s),
                if rng.chance(1, 4) {
                    None
                } else {
                    Some(piece(rng.pick(&PIECES)))
                },
            );
        }
    }
    q
}

fn bb_of(m: &[u8], way: usize) -> Bitboard {
    let mut b = Bitboard::empty();
    match way % 4 {
        0 => {
            for &i in m {
                b |= sq(i);
            }
        }
        1 => {
            for i in 1..=81 {
                if !m.contains(&i) {
                    b |= sq(i);
                }
            }
            b = !b;
        }
        2 => {
            // through a shift there and back where nothing is lost
            for &i in m {
                b = b ^ Bitboard::single(sq(i));
            }
            b = b.flip().flip();
        }
        _ => {
            for f in 1..=9u8 {
                let p: u16 = m
                    .iter()
                    .filter(|&&i| (i - 1) / 9 + 1 == f)
                    .map(|&i| 1u16 << ((i - 1) % 9))
                    .sum();
                b |= unsafe { Bitboard::from_file_unchecked(f, p) };
            }
        }
    }
    b
}

pub fn run(o: &mut Out, seed: u64, thorough: bool) {
    let mut rng = Rng::new(seed ^ 0x07d);
    let rng = &mut rng;
    let x = if thorough { 8 } else { 1 };
    small(o, "Color", &[(1, Color::Black), (2, Color::White)]);
    small(
        o,
        "PieceKind",
        &KINDS
            .iter()
            .enumerate()
            .map(|(i, &k)| (i as i64 + 1, k))
            .collect::<Vec<_>>(),
    );
    small(
        o,
        "GameResolution",
        &RES.iter()
            .enumerate()
            .map(|(i, &k)| (i as i64 + 1, k))
            .collect::<Vec<_>>(),
    );
    small(
        o,
        "IllegalMoveKind",
        &ILL.iter()
            .enumerate()
            .map(|(i, &k)| (i as i64 + 1, k))
            .collect::<Vec<_>>(),
    );
    small(
        o,
        "PositionStatus",
        &[
            (1, PositionStatus::BlackWins),
            (2, PositionStatus::WhiteWins),
            (3, PositionStatus::Draw),
            (4, PositionStatus::InProgress),
            (5, PositionStatus::Invalid),
        ],
    );
    small(
        o,
        "Square",
        &(1..=81).map(|i| (i as i64, sq(i))).collect::<Vec<_>>(),
    );
    small(
        o,
        "Piece",
        &PIECES
            .iter()
            .map(|&p| (p as i64, piece(p)))
            .collect::<Vec<_>>(),
    );
    let mut v: Vec<(i64, OptionSquare)> =
        (1..=81).map(|i| (i as i64, Some(sq(i)).into())).collect();
    v.push((0, None.into()));
    small(o, "OptionSquare", &v);
    let mut v: Vec<(i64, OptionPiece)> = PIECES
        .iter()
        .map(|&i| (i as i64, Some(piece(i)).into()))
        .collect();
    v.push((0, None.into()));
    small(o, "OptionPiece", &v);
    let mut v: Vec<(i64, OptionGameResolution)> = RES
        .iter()
        .enumerate()
        .map(|(i, &k)| (i as i64 + 1, Some(k).into()))
        .collect();
    v.push((0, None.into()));
    small(o, "OptionGameResolution", &v);
    let mut v: Vec<(i64, ResultUnitIllegalMoveKind)> = ILL
        .iter()
        .enumerate()
        .map(|(i, &k)| (i as i64 + 1, Err(k).into()))
        .collect();
    v.push((0, Ok(()).into()));
    small(o, "ResultUnitIllegalMoveKind", &v);
    // moves
    let mut ms = vec![];
    for p in 0..2 {
        for a in 1..=81 {
            for t in 1..=81 {
                ms.push(M::normal(a, t, p));
            }
        }
    }
    for a in PIECES {
        for t in 1..=81 {
            ms.push(M::drop(a, t));
            if a == 1 {
                ms.push(M::drop(a, t));
            }
        }
    }
    {
        let mut all: Vec<M> = ms.clone();
        all.sort_by_key(|m| mkey(&m.mv()));
        all.dedup_by_key(|m| mkey(&m.mv()));
        chain(o, "Move", rng, all.len(), &|i| {
            (mkey(&all[i].mv()), all[i].mv())
        });
        let mut all: Vec<CompactMove> = ms.iter().map(|m| m.mv().into()).collect();
        all.sort_by_key(|&c| mcode(c));
        all.dedup_by_key(|c| mcode(*c));
        chain(o, "CompactMove", rng, all.len(), &|i| {
            (vec![mcode(all[i]) as i64], all[i])
        });
        chain::<OptionCompactMove>(o, "OptionCompactMove", rng, all.len() + 1, &|i| {
            if i == 0 {
                (vec![0], None.into())
            } else {
                (vec![mcode(all[i - 1]) as i64], Some(all[i - 1]).into())
            }
        });
    }
    for i in 0..24 * x {
        let mut v = sample(&ms, 40, rng);
        // neighbours that differ in one component
        let m = v[0];
        for j in 0..12u8 {
            let mut n = m;
            match j % 4 {
                0 => n.t = 1 + (m.t + j) % 81,
                1 => {
                    n.a = if m.d == 1 {
                        PIECES[(j as usize * 5) % 28]
                    } else {
                        1 + (m.a + j) % 81
                    }
                }
                2 => n.p = if m.d == 1 { 0 } else { 1 - m.p },
                _ => n = M::drop(rng.pick(&PIECES), m.t),
            }
            v.push(n);
        }
        if i % 2 == 0 {
            let w: Vec<(Vec<i64>, Move)> = v.iter().map(|m| (mkey(&m.mv()), m.mv())).collect();
            table(o, "Move", true, &w);
        } else {
            let w: Vec<(Vec<i64>, CompactMove)> = v
                .iter()
                .map(|m| {
                    let c: CompactMove = m.mv().into();
                    (vec![mcode(c) as i64], c)
                })
                .collect();
            table(o, "CompactMove", true, &w);
            let mut w: Vec<(Vec<i64>, OptionCompactMove)> = w
                .into_iter()
                .map(|(k, c)| (k, OptionCompactMove::from(Some(c))))
                .collect();
            w.push((vec![0], None.into()));
            w.push((vec![0], OptionCompactMove::default()));
            table(o, "OptionCompactMove", true, &w);
        }
    }
    // hands
    for _ in 0..12 * x {
        let mut hs: Vec<[u8; 7]> = vec![[0; 7]];
        for _ in 0..24 {
            let mut h = [0u8; 7];
            for k in 0..7 {
                if rng.chance(2, 3) {
                    h[k] = if rng.chance(1, 3) {
                        rng.below(256) as u8
                    } else {
                        rng.below(4) as u8
                    };
                }
            }
            hs.push(h);
            let mut g = h;
            let k = rng.below(7);
            g[k] = g[k].wrapping_add(1 + rng.below(3) as u8);
            hs.push(g);
        }
        let mut w: Vec<(Vec<i64>, Hand)> = hs
            .iter()
            .map(|&h| (h.iter().map(|&c| c as i64).collect(), hand_with(h)))
            .collect();
        // the same by way of more and then less
        for &h in hs.iter().take(10) {
            let mut g = hand_with(h);
            for k in 1..=7u8 {
                if h[k as usize - 1] < 250 {
                    g = g
                        .added(kind(k))
                        .and_then(|g| g.removed(kind(k)))
                        .unwrap_or(g);
                }
            }
            w.push((h.iter().map(|&c| c as i64).collect(), g));
        }
        table(o, "Hand", false, &w);
    }
    // one kind, many counts
    for k in 0..7 {
        let mut h = [0u8; 7];
        for c in h.iter_mut() {
            *c = rng.pick(&[0u8, 0, 1, 3, 255]);
        }
        let mut ns: Vec<u8> = (0..=255).collect();
        if !thorough {
            ns = [
                0u8, 1, 2, 9, 10, 15, 16, 17, 18, 19, 31, 32, 63, 64, 127, 128, 129, 254, 255,
            ]
            .to_vec();
            for _ in 0..24 {
                ns.push(rng.below(256) as u8);
            }
        }
        let w: Vec<(Vec<i64>, Hand)> = ns
            .iter()
            .map(|&n| {
                h[k] = n;
                (h.iter().map(|&c| c as i64).collect(), hand_with(h))
            })
            .collect();
        table(o, "Hand", false, &w);
    }
    // bitboards
    for i in 0..16 * x {
        let mut sets: Vec<Vec<u8>> = vec![vec![], (1..=81).collect()];
        for _ in 0..24 {
            let d = [3, 20, 50, 80, 97][rng.below(5)];
            let s: Vec<u8> = (1..=81).filter(|_| rng.chance(d, 100)).collect();
            let k = 1 + rng.below(81) as u8;
            let t: Vec<u8> = (1..=81).filter(|j| (s.contains(j)) != (*j == k)).collect();
            sets.push(s);
            sets.push(t);
        }
        if i == 0 {
            sets = (1..=81).map(|j| vec![j]).collect();
            sets.truncate(70);
        }
        if i == 1 {
            sets = (55..=81)
                .map(|j| vec![j])
                .chain((55..=81).map(|j| vec![1, j]))
                .collect();
        }
        let mut w: Vec<(Vec<i64>, Bitboard)> = sets
            .iter()
            .enumerate()
            .map(|(j, s)| (s.iter().map(|&c| c as i64).collect(), bb_of(s, j)))
            .collect();
        for (j, s) in sets.iter().enumerate().take(12) {
            w.push((s.iter().map(|&c| c as i64).collect(), bb_of(s, j + 1 + i)));
        }
        if i % 2 == 0 {
            table(o, "Bitboard", false, &w);
        }
        if i % 2 == 1 || i < 2 {
            let w: Vec<(Vec<i64>, ByteSwappedBitboard)> =
                w.into_iter().map(|(k, b)| (k, b.swap_bytes())).collect();
            table(o, "ByteSwappedBitboard", false, &w);
        }
    }
    // every move number, and every board of a single piece
    chain(o, "PartialPosition", rng, 65535, &|i| {
        let mut p = PartialPosition::empty();
        let _ = p.ply_set(i as u16 + 1);
        (vec![i as i64 + 1], p)
    });
    for s in 1..=81u8 {
        // the squares before are shared, those behind have no say
        let before: Vec<u8> = (1..s)
            .map(|_| rng.pick(&[0u8, 0, 0, 1, 2, 17, 24]))
            .collect();
        let mut v: Vec<(Vec<i64>, PartialPosition)> = vec![];
        for c in std::iter::once(0).chain(PIECES) {
            let mut cells: Vec<(u8, u8)> = before
                .iter()
                .enumerate()
                .map(|(i, &x)| (i as u8 + 1, x))
                .collect();
            cells.push((s, c));
            for t in s + 1..=81 {
                cells.push((t, rng.pick(&[0u8, 0, 1, 8, 30, 24])));
            }
            cells.retain(|c| c.1 != 0);
            let p = craft(&cells, [[0; 7]; 2], 1, 1);
            v.push((pk(&p).board, p));
        }
        chain(o, "PartialPosition", rng, v.len(), &|i| v[i].clone());
    }
    let mk = |ps: Vec<PartialPosition>| -> Vec<(Vec<i64>, PartialPosition)> {
        let ks: Vec<PK> = ps.iter().map(pk).collect();
        let all: Vec<[Hand; 2]> = ks.iter().map(|k| k.hands).collect();
        ks.iter().map(|k| pkey(k, &all)).zip(ps).collect()
    };
    for i in 0..16 * x {
        let mut ps: Vec<PartialPosition> = vec![];
        let base = match i % 5 {
            0 => PartialPosition::startpos(),
            1 => PartialPosition::empty(),
            2 => random_position(rng, 40),
            3 => random_position(rng, 10),
            _ => {
                // several kings
                let mut c: Vec<(u8, u8)> = vec![];
                for _ in 0..5 {
                    c.push((
                        1 + rng.below(81) as u8,
                        if rng.chance(1, 2) { 8 } else { 24 },
                    ));
                }
                c.push((1 + rng.below(81) as u8, 7));
                craft(&c, [[1, 0, 0, 0, 0, 0, 0], [0, 2, 0, 0, 0, 0, 0]], 1, 5)
            }
        };
        ps.push(base.clone());
        for _ in 0..9 {
            ps.push(tweak(&base, rng));
        }
        for _ in 0..3 {
            ps.push(reroute(&base, rng));
        }
        for _ in 0..3 {
            ps.push(rebuild(&base, rng));
        }
        let t = ps[1 + rng.below(9)].clone();
        ps.push(tweak(&t, rng));
        ps.push(rebuild(&t, rng));
        ps.push(reroute(&t, rng));
        // with last moves: the same move from the same position, reached in different ways,
        // and different moves
        for _ in 0..4 {
            let m = sensible(&Target::obs(&base), rng);
            if let Some(m) = m {
                for how in 0..3 {
                    let mut p = match how {
                        0 => base.clone(),
                        1 => rebuild(&base, rng),
                        _ => reroute(&base, rng),
                    };
                    if how == 2 {
                        let mut c = p.clone();
                        let _ = c.make_compact_move(m.mv().into());
                        p = c;
                    } else {
                        let _ = p.make_move(m.mv());
                    }
                    ps.push(p);
                }
            }
        }
        // same board, hands, side and ply, another last move
        if let Some(m) = sensible(&Target::obs(&base), rng) {
            let mut p = base.clone();
            let _ = p.make_move(m.mv());
            let mut q = rebuild(&p, rng);
            ps.push(q.clone());
            q.side_to_move_set(base.side_to_move());
            ps.push(q);
            ps.push(p);
        }
        table(o, "PartialPosition", true, &mk(ps));
    }
    for i in 0..14 * x {
        let mut qs: Vec<Position> = vec![];
        let base = if i % 3 == 0 {
            PartialPosition::startpos()
        } else {
            random_position(rng, 30)
        };
        let starts = [base.clone(), tweak(&base, rng), rebuild(&base, rng)];
        // a tree of games
        qs.push(Position::arbitrary_position(base.clone()));
        qs.push(Position::default());
        qs.push(Position::startpos());
        for s in 0..3 {
            let mut p = Position::arbitrary_position(starts[s].clone());
            for _ in 0..6 {
                if let Some(m) = sensible(&Target::obs(p.inner()), rng) {
                    let mut q = p.clone();
                    let _ = q.make_compact_move(m.mv().into());
                    let _ = p.make_move(m.mv());
                    if rng.chance(1, 3) {
                        qs.push(q);
                    }
                    qs.push(p.clone());
                }
            }
        }
        // the same game again
        let last = qs[qs.len() - 1].clone();
        let mut again = Position::arbitrary_position(last.initial_position().clone());
        for &m in last.moves() {
            let _ = again.make_move(m);
        }
        qs.push(again);
        // the current position without its history, and with a shorter one
        qs.push(Position::arbitrary_position(last.inner().clone()));
        #[allow(deprecated)]
        {
            // edited afterwards: same history, other position
            let mut e = last.clone();
            e.piece_set(sq(1 + rng.below(81) as u8), Some(piece(rng.pick(&PIECES))));
            qs.push(e);
            let mut e = last.clone();
            let h = e.hand_of_a_player_mut(Color::Black);
            *h = h.added(PieceKind::Gold).unwrap_or(*h);
            qs.push(e);
        }
        // two orders of the same four moves: same position, other history
        let b4 = craft(
            &[(9, 1), (18, 1), (73, 17), (64, 17), (45, 8), (37, 24)],
            [[0; 7]; 2],
            1,
            1,
        );
        for perm in [[0usize, 1, 2, 3], [2, 1, 0, 3], [0, 3, 2, 1], [2, 3, 0, 1]] {
            let mv = [
                M::normal(9, 8, 0),
                M::normal(73, 74, 0),
                M::normal(18, 17, 0),
                M::normal(64, 65, 0),
            ];
            let mut p = Position::arbitrary_position(b4.clone());
            for k in perm {
                let _ = p.make_move(mv[k].mv());
            }
            let _ = p.make_move(M::normal(45, 44, 0).mv());
            qs.push(p);
        }
        // games that began otherwise and are alike since: what was taken was promoted or not, and what
        // was moved before came from elsewhere
        let (a, b, from) = (41u8, 50u8, [42u8, 33, 60]);
        for how in 0..5 {
            let taken = if how == 1 { 17 + 8 } else { 17 };
            let mut p = craft(&[(a, 7), (b, taken), (1, 8), (9, 24)], [[0; 7]; 2], 1, 1);
            if how >= 2 {
                // the last move before the first
                p = craft(&[(a, 7), (b, 17), (1, 8), (9, 24), (from[how - 2], 20)], [[0; 7]; 2], 2, 1);
                let _ = p.make_move(M::normal(from[how - 2], 51, 0).mv());
                p.piece_set(sq(51), None);
                let _ = p.ply_set(1);
            }
            let mut p = Position::arbitrary_position(p);
            for m in [M::normal(a, b, 0), M::normal(9, 10, 0), M::normal(1, 2, 0)] {
                let _ = p.make_move(m.mv());
                if i % 2 == 0 || m.t == 2 {
                    qs.push(p.clone());
                }
            }
        }
        let ks: Vec<(PK, PK)> = qs
            .iter()
            .map(|q| (pk(q.initial_position()), pk(q.inner())))
            .collect();
        let all: Vec<[Hand; 2]> = ks.iter().flat_map(|k| [k.0.hands, k.1.hands]).collect();
        let w: Vec<(Vec<i64>, Position)> = ks
            .iter()
            .zip(qs)
            .map(|(k, q)| {
                let mut v = pkey(&k.0, &all);
                v.extend(pkey(&k.1, &all));
                for m in q.moves() {
                    v.extend(mkey(m));
                }
                v.push(-1);
                (v, q)
            })
            .collect();
        table(o, "Position", true, &w);
    }
    // long games that end in the same position, one move of which was another
    let b6 = craft(
        &[(41, 6), (37, 8), (45, 24), (1, 22), (73, 22)],
        [[0; 7]; 2],
        1,
        1,
    );
    let lens: &[usize] = if thorough {
        &[12, 60, 100, 255, 256, 257, 300, 512, 1000, 3000]
    } else {
        &[12, 60, 100, 256, 260, 600]
    };
    for &n in lens {
        // four moves of a round trip: the black gold there and back, the white one there and back
        let round = |alt: bool| -> [M; 4] {
            if alt {
                [
                    M::normal(41, 32, 0),
                    M::normal(1, 2, 0),
                    M::normal(32, 41, 0),
                    M::normal(2, 1, 0),
                ]
            } else {
                [
                    M::normal(41, 40, 0),
                    M::normal(1, 2, 0),
                    M::normal(40, 41, 0),
                    M::normal(2, 1, 0),
                ]
            }
        };
        let play = |alts: &[usize], rounds: usize| -> Position {
            let mut p = Position::arbitrary_position(b6.clone());
            for r in 0..rounds {
                for m in round(alts.contains(&r)) {
                    let _ = p.make_move(m.mv());
                }
            }
            p
        };
        let n = n / 4;
        let qs: Vec<Position> = vec![
            play(&[], n),
            play(&[], n),
            play(&[0], n),
            play(&[n - 1], n),
            play(&[n / 2], n),
            play(&[0, n - 1], n),
            play(&[n - 1], n),
            play(&[], n - 1),
            play(&[], n + 1),
            play(&[rng.below(n)], n),
            play(&[rng.below(n)], n),
            play(&[rng.below(n), rng.below(n)], n + 1),
        ];
        let ks: Vec<(PK, PK)> = qs
            .iter()
            .map(|q| (pk(q.initial_position()), pk(q.inner())))
            .collect();
        let all: Vec<[Hand; 2]> = ks.iter().flat_map(|k| [k.0.hands, k.1.hands]).collect();
        let w: Vec<(Vec<i64>, Position)> = ks
            .iter()
            .zip(qs)
            .map(|(k, q)| {
                let mut v = pkey(&k.0, &all);
                v.extend(pkey(&k.1, &all));
                for m in q.moves() {
                    v.extend(mkey(m));
                }
                v.push(-1);
                (v, q)
            })
            .collect();
        table(o, "Position", true, &w);
    }
    // games: a resolution more or less (their position cannot be changed)
    let mut g: Vec<(Vec<i64>, Game)> = vec![(vec![0], Game::default())];
    let mut h: Vec<(Vec<i64>, PartialGame)> = vec![(vec![0], PartialGame::default())];
    for (i, &r) in RES.iter().enumerate() {
        for undo in 0..3 {
            let mut a = Game::default();
            let mut b = PartialGame::default();
            if undo == 2 {
                a.resolve(RES[(i + 1) % 5]);
                b.resolve(RES[(i + 1) % 5]);
            }
            a.resolve(r);
            b.resolve(r);
            if undo == 1 {
                a.unresolve();
                b.unresolve();
            }
            let k = if undo == 1 { 0 } else { i as i64 + 1 };
            g.push((vec![k], a));
            h.push((vec![k], b));
        }
    }
    table(o, "Game", true, &g);
    table(o, "PartialGame", true, &h);
}
