//! Behaviours chosen by the specification, carried out by the real objects. The expectation after
//! every step comes from the specification; this only compares.
//!
//! Lines of numbers: `-1 PLAIN` begins a walk; every other line is a step:
//! operation (9 numbers, padded with zeros), outcome, board (81), hands (14), side, number, last move.
use crate::obs::*;
use crate::sess::hand_with;
use shogi_core::*;

const OP: usize = 9;

fn want(x: &[i32]) -> (&[i32], &[i32], &[i32]) {
    (
        &x[OP + 1..OP + 82],
        &x[OP + 82..OP + 96],
        &x[OP + 96..OP + 99],
    )
}

fn differs(o: &Obs, x: &[i32]) -> Option<&'static str> {
    let (b, h, t) = want(x);
    if o.get("pa") != b {
        Some("board")
    } else if o.get("bp") != b {
        Some("sets by piece")
    } else if o.get("hd") != h {
        Some("hands")
    } else if o.get("sc")[0] != t[0] {
        Some("side to move")
    } else if o.get("sc")[1] != t[1] {
        Some("move number")
    } else if o.get("sc")[2] != t[2] {
        Some("last move")
    } else {
        None
    }
}

fn step<T: Target>(p: &mut T, x: &[i32], packed: bool) -> Option<bool> {
    Some(match x[0] {
        1 => {
            let m = M {
                d: x[1] as u8,
                a: x[2] as u8,
                t: x[3] as u8,
                p: x[4] as u8,
            };
            if packed {
                p.make_compact(m.mv().into())
            } else {
                p.make(m.mv())
            }
        }
        2 => {
            p.set(
                sq(x[1] as u8),
                if x[2] == 0 {
                    None
                } else {
                    Some(piece(x[2] as u8))
                },
            );
            true
        }
        3 => {
            if !p.set_side(color(x[1] as u8)) {
                return None;
            }
            true
        }
        4 => p.set_ply(x[1] as u16)?,
        5 => {
            let mut h = [0u8; 7];
            for i in 0..7 {
                h[i] = x[2 + i] as u8;
            }
            *p.hand_mut(color(x[1] as u8)) = hand_with(h);
            true
        }
        _ => true,
    })
}

fn walk<T: Target>(
    start: &dyn Fn(bool) -> T,
    w: &[Vec<i32>],
    packed: bool,
    name: &str,
) -> Result<(), String> {
    let mut p = start(w[0][1] == 1);
    for (i, x) in w.iter().enumerate() {
        if i > 0 {
            let ok = match step(&mut p, x, packed) {
                Some(ok) => ok,
                None => return Ok(()), // an operation this kind of position does not offer
            };
            if ok as i32 != x[OP] {
                return Err(format!(
                    "{} step {}: operation {:?} answered {}",
                    name,
                    i,
                    &x[..OP],
                    ok
                ));
            }
        }
        if let Some(d) = differs(&p.obs(), x) {
            return Err(format!(
                "{} step {}: after operation {:?}: {}",
                name,
                i,
                &x[..OP],
                d
            ));
        }
    }
    Ok(())
}

/// The number of steps carried out.
pub fn positions(file: &str) -> Result<usize, String> {
    let text = std::fs::read_to_string(file).map_err(|e| e.to_string())?;
    let mut walks: Vec<Vec<Vec<i32>>> = vec![];
    for line in text.lines() {
        let v: Vec<i32> = line
            .split_whitespace()
            .map(|x| x.parse().unwrap())
            .collect();
        if v[0] == -1 {
            walks.push(vec![]);
        } else {
            walks.last_mut().unwrap().push(v);
        }
    }
    let mut n = 0;
    for (i, w) in walks.iter().enumerate() {
        for packed in [false, true] {
            let partial = |start: bool| {
                if start {
                    PartialPosition::startpos()
                } else {
                    PartialPosition::empty()
                }
            };
            let full = |start: bool| {
                if start {
                    Position::startpos()
                } else {
                    Position::arbitrary_position(PartialPosition::empty())
                }
            };
            walk(&partial, w, packed, "PartialPosition")
                .map_err(|e| format!("walk {}: {}", i, e))?;
            walk(&full, w, packed, "Position").map_err(|e| format!("walk {}: {}", i, e))?;
        }
        n += w.len();
    }
    Ok(n)
}

/// Reads walks of rows of numbers; a line `-1` begins one.
fn rows(file: &str) -> Result<Vec<Vec<Vec<i32>>>, String> {
    let text = std::fs::read_to_string(file).map_err(|e| e.to_string())?;
    let mut walks: Vec<Vec<Vec<i32>>> = vec![];
    for line in text.lines() {
        let v: Vec<i32> = line
            .split_whitespace()
            .map(|x| x.parse().unwrap())
            .collect();
        if v[0] == -1 {
            walks.push(vec![]);
        } else {
            walks.last_mut().unwrap().push(v);
        }
    }
    Ok(walks)
}

fn each(file: &str, f: &dyn Fn(&[Vec<i32>]) -> Result<(), String>) -> Result<usize, String> {
    let w = rows(file)?;
    for (i, w) in w.iter().enumerate() {
        f(w).map_err(|e| format!("walk {}: {}", i, e))?;
    }
    Ok(w.iter().map(|w| w.len()).sum())
}

/// Rows: operation, register, two arguments, members (see spec/WalkSet.tla).
pub fn sets(file: &str) -> Result<usize, String> {
    fn ways(x: &[i32], r: &[Bitboard; 3]) -> Result<Vec<Bitboard>, String> {
        let d = r[x[1] as usize - 1];
        let reg = |i: i32| r[i as usize - 1];
        let by = x[3] as u8;
        Ok(match x[0] {
            0 => vec![Bitboard::empty(), Bitboard::default()],
            1 => {
                let (a, b) = (reg(x[2]), reg(x[3]));
                let mut c = a;
                c &= b;
                vec![a & b, a.and(b), c, &a & &b]
            }
            2 => {
                let (a, b) = (reg(x[2]), reg(x[3]));
                let mut c = a;
                c |= b;
                vec![a | b, a.or(b), c, &a | &b]
            }
            3 => {
                let (a, b) = (reg(x[2]), reg(x[3]));
                let mut c = a;
                c ^= b;
                vec![a ^ b, a.xor(b), c, &a ^ &b]
            }
            4 => {
                let (a, b) = (reg(x[2]), reg(x[3]));
                vec![
                    a.andnot(b),
                    !a & b,
                    a.swap_bytes().andnot(b.swap_bytes()).swap_bytes(),
                ]
            }
            5 => vec![!reg(x[2]), !&reg(x[2]), reg(x[2]) ^ !Bitboard::empty()],
            6 => vec![reg(x[2]).flip()],
            7 => vec![unsafe { reg(x[2]).shift_up(by) }],
            8 => vec![unsafe { reg(x[2]).shift_down(by) }],
            9 => vec![unsafe { reg(x[2]).shift_left(by) }],
            10 => vec![unsafe { reg(x[2]).shift_right(by) }],
            11 => {
                let (mut a, mut b) = (d, d);
                a |= sq(x[2] as u8);
                b |= &sq(x[2] as u8);
                vec![a, b, d | Bitboard::single(sq(x[2] as u8))]
            }
            12 => vec![Bitboard::single(sq(x[2] as u8))],
            13 => vec![unsafe { Bitboard::from_file_unchecked(x[2] as u8, x[3] as u16) }],
            14 => {
                let p = unsafe { d.get_file_unchecked(x[2] as u8) };
                if p as i32 != x[3] {
                    return Err(format!("pattern of file {}: {}", x[2], p));
                }
                vec![d]
            }
            15 => vec![reg(x[2]), reg(x[2]).swap_bytes().swap_bytes(), unsafe {
                Bitboard::from_u128_unchecked(reg(x[2]).to_u128())
            }],
            16 => {
                let mut a = d;
                a ^= sq(x[2] as u8);
                vec![a, d ^ Bitboard::single(sq(x[2] as u8))]
            }
            _ => {
                let mut a = Bitboard::empty();
                for &s in &x[4..] {
                    a |= sq(s as u8);
                }
                vec![a]
            }
        })
    }
    each(file, &|w| {
        let mut r = [Bitboard::empty(); 3];
        for (i, x) in w.iter().enumerate() {
            let err = |what: &str| Err(format!("step {}: {:?}: {}", i, &x[..4], what));
            let v = match ways(x, &r) {
                Ok(v) => v,
                Err(e) => return err(&e),
            };
            let mut want: Vec<u8> = x[4..].iter().map(|&s| s as u8).collect();
            want.sort();
            for (j, b) in v.iter().enumerate() {
                let mut got: Vec<u8> = b.into_iter().map(|s| s.index()).collect();
                got.sort();
                if got != want {
                    return err(&format!("form {} has {:?}", j, got));
                }
                if b.count() as usize != want.len()
                    || b.is_empty() != want.is_empty()
                    || *b != v[0]
                    || (1..=81).any(|s| b.contains(sq(s)) != want.contains(&s))
                {
                    return err(&format!("form {}: queries or equality", j));
                }
            }
            r[x[1] as usize - 1] = v[v.len() - 1];
        }
        Ok(())
    })
}

/// Rows: operation, register, kind or register, outcome, fourteen counts (see spec/WalkHand.tla).
pub fn hands(file: &str) -> Result<usize, String> {
    each(file, &|w| {
        let mut r = [Hand::new(); 2];
        let mut c = [Hand::default(); 2]; // through the in-place functions
        for (i, x) in w.iter().enumerate() {
            let d = x[1] as usize - 1;
            let mut ok = 1;
            match x[0] {
                0 => (),
                3 => {
                    r[d] = r[x[2] as usize - 1];
                    c[d] = c[x[2] as usize - 1];
                }
                op => {
                    for _ in 0..if op == 4 { x[3] } else { 1 } {
                        let k = kind(x[2] as u8);
                        let (n, y) = if op == 2 {
                            (r[d].removed(k), c[d].Hand_remove(k))
                        } else {
                            (r[d].added(k), c[d].Hand_add(k))
                        };
                        if n.is_some() != y {
                            return Err(format!("step {}: {:?}: the two forms differ", i, &x[..4]));
                        }
                        ok = y as i32;
                        r[d] = n.unwrap_or(r[d]);
                    }
                    if op == 4 {
                        ok = x[3];
                    }
                }
            }
            let counts: Vec<i32> = (1..=14)
                .map(|k| r[d].count(kind(k)).map_or(-1, |n| n as i32))
                .collect();
            if ok != x[3] || counts != x[4..] || r != c {
                return Err(format!(
                    "step {}: {:?}: answered {} and counts {:?}",
                    i,
                    &x[..4],
                    ok,
                    counts
                ));
            }
        }
        Ok(())
    })
}

/// Rows: operation, resolution (see spec/WalkGame.tla).
pub fn games(file: &str) -> Result<usize, String> {
    each(file, &|w| {
        let ops: Vec<u8> = w.iter().map(|x| x[0] as u8).collect();
        let res: Vec<i32> = w.iter().map(|x| x[1]).collect();
        crate::game::replay(&ops, &res)
    })
}

/// A checker that answers what it is told.
struct Told<'a>(&'a [i32]);
impl Told<'_> {
    fn moves(&self) -> Vec<Move> {
        (0..self.0[3])
            .map(|i| M::normal(1 + (i % 81) as u8, 1 + (i / 9 % 81) as u8, (i % 2) as u8).mv())
            .collect()
    }
}
impl LegalityChecker for Told<'_> {
    fn status(&self, _: &Position) -> PositionStatus {
        crate::legal::STATUS[self.0[0] as usize - 1]
    }
    fn status_partial(&self, _: &PartialPosition) -> PositionStatus {
        crate::legal::STATUS[(self.0[0] as usize + 1) % 5]
    }
    fn is_legal_partial(&self, _: &PartialPosition, _: Move) -> Result<(), IllegalMoveKind> {
        match self.0[1] {
            0 => Ok(()),
            x => Err(crate::legal::WHY[x as usize - 1]),
        }
    }
    fn is_legal_partial_lite(&self, _: &PartialPosition, _: Move) -> bool {
        self.0[2] == 1
    }
    fn all_legal_moves_partial(&self, _: &PartialPosition) -> Vec<Move> {
        self.moves()
    }
    fn normal_from_candidates(&self, _: &PartialPosition, _: Square) -> Bitboard {
        Bitboard::empty()
    }
    fn normal_to_candidates(&self, _: &PartialPosition, _: Square, _: Piece) -> Bitboard {
        Bitboard::empty()
    }
    fn drop_candidates(&self, _: &PartialPosition, _: Piece) -> Bitboard {
        Bitboard::empty()
    }
}

/// Rows: operation, move, what the checker is told, what must be answered, position (see spec/WalkLegal.tla).
pub fn legal(file: &str) -> Result<usize, String> {
    each(file, &|w| {
        let mut p = if w[0][9] == 1 {
            Position::startpos()
        } else {
            Position::arbitrary_position(PartialPosition::empty())
        };
        for (i, x) in w.iter().enumerate() {
            let err = |what: String| Err(format!("step {}: {:?}: {}", i, &x[..12], what));
            let m = M {
                d: x[1] as u8,
                a: x[2] as u8,
                t: x[3] as u8,
                p: x[4] as u8,
            };
            let t = Told(&x[5..9]);
            let before = p.clone();
            if x[0] != 0 {
                let r = if x[0] == 2 {
                    t.make_move(&mut p, m.mv())
                } else {
                    t.is_legal(&p, m.mv())
                };
                let r = crate::legal::r_code(r) as i32;
                if r != x[9] {
                    return err(format!("answered {}", r));
                }
            }
            if x[0] == 1 {
                if t.is_legal_lite(&p, m.mv()) as i32 != x[10] {
                    return err("quick answer".into());
                }
                let all = t.all_legal_moves(&p);
                if all.len() as i32 != x[11] || (x[11] > 0 && all != t.moves()) {
                    return err(format!("{} legal moves", all.len()));
                }
            }
            if (x[0] == 1 || x[9] != 0) && p != before {
                return err("the position changed".into());
            }
            // the layout of walks of positions
            let mut z = vec![0; OP + 1];
            z.extend_from_slice(&x[12..]);
            if let Some(d) = differs(&p.obs(), &z) {
                return err(format!("position afterwards: {}", d));
            }
        }
        Ok(())
    })
}
