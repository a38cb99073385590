//! Scripts for the C driver, and SFEN output into guarded buffers.
use crate::obs::*;
use crate::out::{arr, jstr, Out};
use crate::rng::Rng;
use crate::sess::*;
use shogi_core::c_compat::*;
use shogi_core::*;
use std::fmt::Write;

/// Moves for sessions of positions: `N 0|1` starts one (without or with history), `M w` makes a move.
/// `few`: short enough for a library that never gives memory back.
pub fn pos_script(seed: u64, thorough: bool, few: bool) -> String {
    let mut rng = Rng::new(seed ^ 0xc0c0);
    let mut s = String::new();
    let n = if few {
        16
    } else if thorough {
        400
    } else {
        60
    };
    for i in 0..n {
        writeln!(s, "N {}", i % 2).unwrap();
        let mut p = PartialPosition::startpos();
        let bad = [5, 20, 50][i % 3];
        for _ in 0..150 {
            let o = p.obs();
            let m = if rng.chance(bad, 100) {
                Some(nonsense(&o, &mut rng))
            } else {
                sensible(&o, &mut rng)
            };
            let m = m.unwrap_or(M::normal(1, 1, 0));
            let c: CompactMove = m.mv().into();
            writeln!(s, "M {}", mcode(c)).unwrap();
            let _ = p.make_move(m.mv());
        }
    }
    s
}

/// A sequence of moves from the start after which all pieces stand apart, promoted where possible,
/// so that the text is as long as it gets.
fn spread(rng: &mut Rng, p: &mut PartialPosition, s: &mut String, with_hands: usize) {
    let make = |p: &mut PartialPosition, s: &mut String, m: M| {
        let c: CompactMove = m.mv().into();
        writeln!(s, "M {}", mcode(c)).unwrap();
        let _ = p.make_move(m.mv());
    };
    // captures first, so that some pieces are in hand
    for _ in 0..with_hands {
        let o = p.obs();
        let side = o.side();
        let own: Vec<u8> = (1..=81)
            .filter(|&x| o.board(x) != 0 && (o.board(x) >= 16) == (side == 2))
            .collect();
        let en: Vec<u8> = (1..=81)
            .filter(|&x| {
                o.board(x) != 0 && (o.board(x) >= 16) != (side == 2) && o.board(x) & 15 != 8
            })
            .collect();
        if en.is_empty() {
            break;
        }
        make(p, s, M::normal(rng.pick(&own), rng.pick(&en), 0));
    }
    let parity = rng.below(2) as u8;
    let target = |x: u8| (x % 2) == parity; // squares are numbered so that this is a checkerboard
    let mut idle = 0;
    for _ in 0..400 {
        let o = p.obs();
        let side = o.side();
        let own: Vec<u8> = (1..=81)
            .filter(|&x| o.board(x) != 0 && (o.board(x) >= 16) == (side == 2))
            .collect();
        let free: Vec<u8> = (1..=81).filter(|&x| o.board(x) == 0 && target(x)).collect();
        let todo: Vec<u8> = own
            .iter()
            .copied()
            .filter(|&x| !target(x) || piece(o.board(x)).promote().is_some())
            .collect();
        if todo.is_empty() || free.is_empty() {
            idle += 1;
            if idle == 2 {
                break;
            }
            // pass the turn by moving something about
            let vac: Vec<u8> = (1..=81).filter(|&x| o.board(x) == 0).collect();
            make(p, s, M::normal(rng.pick(&own), rng.pick(&vac), 0));
            continue;
        }
        idle = 0;
        let a = rng.pick(&todo);
        let pro = piece(o.board(a)).promote().is_some() as u8;
        make(p, s, M::normal(a, rng.pick(&free), pro));
    }
}

pub fn sfen_script(seed: u64, thorough: bool) -> String {
    let mut rng = Rng::new(seed ^ 0xc0c1);
    let mut s = String::new();
    let x = if thorough { 5 } else { 1 };
    for i in 0..40 * x {
        writeln!(s, "N {}", i % 2).unwrap();
        let mut p = PartialPosition::startpos();
        writeln!(s, "S 0").unwrap();
        for _ in 0..60 {
            let o = p.obs();
            if let Some(m) = sensible(&o, &mut rng) {
                let c: CompactMove = m.mv().into();
                writeln!(s, "M {}", mcode(c)).unwrap();
                let _ = p.make_move(m.mv());
                if rng.chance(1, 3) {
                    writeln!(s, "S 0").unwrap();
                }
            }
        }
    }
    for i in 0..24 * x {
        writeln!(s, "N {}", i % 2).unwrap();
        let mut p = PartialPosition::startpos();
        let hands = (i / 2) % 12 * 2;
        // five digits of move number: a king walks for ten thousand moves and more
        let long = [0, 0, 40, 400, 5000, 10000, 33000][i % 7];
        for j in 0..long {
            let m = [(49, 50), (45, 41), (50, 49), (41, 45)]; // 5i-... checked below
            let (a, b) = m[j % 4];
            let m = if p.piece_at(sq(a)).is_some() {
                M::normal(a, b, 0)
            } else {
                M::normal(b, a, 0)
            };
            let c: CompactMove = m.mv().into();
            if p.make_move(m.mv()).is_some() {
                writeln!(s, "M {}", mcode(c)).unwrap();
            } else if let Some(m) = sensible(&p.obs(), &mut rng) {
                let c: CompactMove = m.mv().into();
                let _ = p.make_move(m.mv());
                writeln!(s, "M {}", mcode(c)).unwrap();
            }
        }
        spread(&mut rng, &mut p, &mut s, hands);
        writeln!(s, "S 0").unwrap();
        let o = p.obs();
        if let Some(m) = sensible(&o, &mut rng) {
            let c: CompactMove = m.mv().into();
            writeln!(s, "M {}\nS 0", mcode(c)).unwrap();
        }
    }
    s
}

pub fn layout() -> String {
    let mut s = String::new();
    macro_rules! t {
        ($($t:ty),*) => {$(
            writeln!(s, "{} {} {}", stringify!($t), std::mem::size_of::<$t>(), std::mem::align_of::<$t>()).unwrap();
        )*};
    }
    t!(
        Color,
        GameResolution,
        IllegalMoveKind,
        PieceKind,
        Bitboard,
        Square,
        OptionSquare,
        CompactMove,
        Piece,
        OptionGameResolution,
        Hand,
        OptionPiece,
        OptionCompactMove,
        PartialPosition,
        OptionPieceKind
    );
    s
}

/// SFEN of any position into a guarded buffer, through the function C uses.
fn guarded(o: &mut Out, p: &PartialPosition, f: Option<&Position>) {
    o.pending(&|| format!("to_sfen_c of {}", p.to_sfen_owned()));
    const AT: usize = 1024;
    let (mut lo, mut hi, mut nul) = (true, true, true);
    let mut texts: Vec<Vec<u8>> = vec![];
    for fill in [0xc3u8, 0x3c, 0, 0xff] {
        let mut b = vec![fill; 4096];
        unsafe {
            let ptr = b.as_mut_ptr().add(AT);
            match f {
                Some(f) => f.to_sfen_c(ptr),
                None => p.to_sfen_c(ptr),
            }
        }
        let n = b[AT..].iter().position(|&x| x == 0);
        nul &= n.is_some();
        let n = n.unwrap_or(0);
        lo &= b[..AT].iter().all(|&x| x == fill);
        hi &= b[AT + n + 1..].iter().all(|&x| x == fill);
        texts.push(b[AT..AT + n].to_vec());
    }
    nul &= texts.iter().all(|t| *t == texts[0]);
    let t: String = texts[0]
        .iter()
        .map(|&c| {
            if (32..127).contains(&c) {
                c as char
            } else {
                '?'
            }
        })
        .collect();
    let ob = p.obs();
    let hd = ob.get("hd").to_vec();
    o.fun(
        "csfen",
        &format!(
            "\"start\":0,\"full\":{},\"b\":{},\"h\":[{},{}],\"c\":{},\"n\":{},\"lo\":{},\"hi\":{},\"nul\":{},\"t\":[{}]",
            f.is_some() as u8,
            arr(ob.get("pa")),
            arr(&hd[..7]),
            arr(&hd[7..]),
            ob.side(),
            p.ply(),
            lo as u8,
            hi as u8,
            nul as u8,
            jstr(&t)
        ),
    );
}

pub fn csfen(o: &mut Out, seed: u64, thorough: bool) {
    let mut rng = Rng::new(seed ^ 0xc0c2);
    let n = if thorough { 6000 } else { 1200 };
    for i in 0..n {
        let p = match i % 8 {
            0 => PartialPosition::empty(),
            1 => PartialPosition::startpos(),
            _ => random_position(&mut rng, 5 + (i * 7) % 96),
        };
        if i % 3 == 0 {
            let f = Position::arbitrary_position(p.clone());
            guarded(o, &p, Some(&f));
        } else {
            guarded(o, &p, None);
        }
    }
    // very many more: recorded only where the buffer is not what the owned text says
    let times = if thorough { 20 } else { 1 };
    for i in 0..60_000 * times {
        let s = crate::textorbit::draw(&mut rng);
        let p = s.make();
        let f = (i % 4 == 0).then(|| Position::arbitrary_position(p.clone()));
        let want = p.to_sfen_owned();
        o.pending(&|| format!("to_sfen_c of {}", want));
        let fill = [0xc3u8, 0x3c, 0, 0xff][i / 4 % 4];
        let mut b = [fill; 768];
        unsafe {
            let ptr = b.as_mut_ptr().add(256);
            match &f {
                Some(f) => f.to_sfen_c(ptr),
                None => p.to_sfen_c(ptr),
            }
        }
        let n = want.len();
        if b[256..256 + n] != *want.as_bytes()
            || b[256 + n] != 0
            || b[..256].iter().chain(&b[257 + n..]).any(|&x| x != fill)
        {
            guarded(o, &p, f.as_ref());
        }
    }
    // every move number, and so many squares taken, with hands of all sizes
    for n in 0..=65535u16 {
        let mut s = crate::text::Spec::blank();
        s.n = n;
        s.c = 1 + (n / 3 % 2) as u8;
        s.b[n as usize % 81] = if n % 2 == 0 { 8 } else { 0 };
        s.h[n as usize % 2][n as usize % 7] = (n % 31) as u8;
        let p = s.make();
        let want = p.to_sfen_owned();
        o.pending(&|| format!("to_sfen_c of {}", want));
        let mut b = [0xa5u8; 512];
        unsafe { p.to_sfen_c(b.as_mut_ptr().add(128)) };
        let k = want.len();
        if n % 8192 == 0
            || b[128..128 + k] != *want.as_bytes()
            || b[128 + k] != 0
            || b[..128].iter().chain(&b[129 + k..]).any(|&x| x != 0xa5)
        {
            guarded(o, &p, None);
        }
    }
    // the longest hands
    for i in 0..8 {
        let p = craft(
            &[],
            [[255 - i; 7], [100 + i; 7]],
            1 + i % 2,
            65535 - i as u16,
        );
        guarded(o, &p, None);
    }
}
