//! The value types, over their whole domains: one record per value or slice of a table.
use crate::named;
use crate::obs::{color, kind, mcode, pcode, piece, scode, sq, M, PIECES};
use crate::out::{arr, Out};
use crate::shim::*;
use shogi_core::c_compat::*;
use shogi_core::*;

fn k0(k: Option<PieceKind>) -> u8 {
    k.map_or(0, |k| k as u8)
}
// The wrappers are documented as transparent over these numbers.
fn raw_sq(s: OptionSquare) -> u8 {
    unsafe { std::mem::transmute(s) }
}
fn raw_pc(s: OptionPiece) -> u8 {
    unsafe { std::mem::transmute(s) }
}
fn raw_kind(s: OptionPieceKind) -> u8 {
    unsafe { std::mem::transmute(s) }
}
fn raw_res(s: OptionGameResolution) -> u8 {
    unsafe { std::mem::transmute(s) }
}
fn raw_ill(s: ResultUnitIllegalMoveKind) -> u8 {
    unsafe { std::mem::transmute(s) }
}
fn raw_mv(s: OptionCompactMove) -> u16 {
    unsafe { std::mem::transmute(s) }
}
fn raw(s: Square) -> u8 {
    unsafe { std::mem::transmute(s) }
}

pub fn squares(o: &mut Out) {
    let v: Vec<i32> = (0..=255u8).map(|x| scode(Square::from_u8(x))).collect();
    o.fun("sq_from", &format!("\"v\":{}", arr(v)));
    let v: Vec<i32> = (1..=81u8)
        .map(|x| scode(Some(unsafe { Square::from_u8_unchecked(x) })))
        .collect();
    o.fun("sq_fromu", &format!("\"v\":{}", arr(v)));
    let mut v = vec![];
    for f in 0..=255u8 {
        for r in 0..=255u8 {
            if let Some(s) = Square::new(f, r) {
                v.push(arr([f, r, raw(s)]));
            }
        }
    }
    o.fun("sq_new", &format!("\"v\":{}", arr(v)));
    for c in 1..=2u8 {
        let mut v = vec![];
        for f in 0..=255u8 {
            for r in 0..=255u8 {
                if let Some(s) = Square::new_relative(f, r, color(c)) {
                    v.push(arr([f, r, raw(s)]));
                }
            }
        }
        o.fun("sq_newrel", &format!("\"c\":{},\"v\":{}", c, arr(v)));
    }
    for i in 1..=81u8 {
        let s = sq(i);
        let opt = OptionSquare::from(Some(s));
        let back: Option<Square> = opt.into();
        o.pending(&|| format!("accessors of square {}", i));
        o.fun(
            "sq",
            &format!(
                "\"s\":{},\"file\":{},\"rank\":{},\"index\":{},\"ai\":{},\"rf\":{},\"rr\":{},\"flip\":{},\"opt\":{},\"back\":{}",
                i,
                s.file(),
                s.rank(),
                s.index(),
                s.array_index(),
                arr([s.relative_file(Color::Black), s.relative_file(Color::White)]),
                arr([s.relative_rank(Color::Black), s.relative_rank(Color::White)]),
                raw(s.flip()),
                raw_sq(opt),
                scode(back)
            ),
        );
    }
    let none: Option<Square> = OptionSquare::from(None).into();
    o.fun(
        "sq_none",
        &format!(
            "\"opt\":{},\"back\":{}",
            raw_sq(OptionSquare::from(None)),
            scode(none)
        ),
    );
    for i in 1..=81u8 {
        o.pending(&|| format!("shifting square {}", i));
        let s = sq(i);
        let mut v = vec![];
        let mut none = 0;
        for df in -128..=127i8 {
            for dr in -128..=127i8 {
                match s.shift(df, dr) {
                    Some(t) => v.push(arr([df as i32, dr as i32, raw(t) as i32])),
                    None => none += 1,
                }
            }
        }
        o.fun(
            "sq_shift",
            &format!("\"s\":{},\"v\":{},\"none\":{}", i, arr(v), none),
        );
    }
    let v: Vec<u8> = Square::all().take(300).map(raw).collect();
    let (lo, hi) = Square::all().size_hint();
    let mut w = vec![];
    for s in Square::all().take(300) {
        w.push(raw(s));
    }
    o.fun(
        "sq_all",
        &format!(
            "\"v\":{},\"w\":{},\"lo\":{},\"hi\":{},\"num\":{}",
            arr(v),
            arr(w),
            lo,
            hi.map_or(-1, |h| h as i64),
            Square::NUM
        ),
    );
    for (n, f, r, a, b) in named::SQUARES {
        o.fun(
            "sq_const",
            &format!(
                "\"n\":\"{}\",\"file\":{},\"rank\":{},\"v\":{}",
                n,
                f,
                r,
                arr([raw(a), raw(b)])
            ),
        );
    }
}

fn status(i: usize) -> PositionStatus {
    [
        PositionStatus::BlackWins,
        PositionStatus::WhiteWins,
        PositionStatus::Draw,
        PositionStatus::InProgress,
        PositionStatus::Invalid,
    ][i]
}
pub const RES: [GameResolution; 5] = [
    GameResolution::BlackWins,
    GameResolution::WhiteWins,
    GameResolution::Draw,
    GameResolution::Rematch,
    GameResolution::Aborted,
];
pub const ILL: [IllegalMoveKind; 7] = [
    IllegalMoveKind::TwoPawns,
    IllegalMoveKind::IgnoredCheck,
    IllegalMoveKind::DropPawnMate,
    IllegalMoveKind::DropStuck,
    IllegalMoveKind::NormalStuck,
    IllegalMoveKind::GameFinished,
    IllegalMoveKind::IncorrectMove,
];
pub const KINDS: [PieceKind; 14] = [
    PieceKind::Pawn,
    PieceKind::Lance,
    PieceKind::Knight,
    PieceKind::Silver,
    PieceKind::Gold,
    PieceKind::Bishop,
    PieceKind::Rook,
    PieceKind::King,
    PieceKind::ProPawn,
    PieceKind::ProLance,
    PieceKind::ProKnight,
    PieceKind::ProSilver,
    PieceKind::ProBishop,
    PieceKind::ProRook,
];
pub const NAMES: [&str; 14] = [
    "Pawn",
    "Lance",
    "Knight",
    "Silver",
    "Gold",
    "Bishop",
    "Rook",
    "King",
    "ProPawn",
    "ProLance",
    "ProKnight",
    "ProSilver",
    "ProBishop",
    "ProRook",
];

pub fn pieces(o: &mut Out) {
    for (i, c) in [Color::Black, Color::White].into_iter().enumerate() {
        o.fun(
            "color",
            &format!(
                "\"n\":\"{}\",\"repr\":{},\"flip\":{},\"ai\":{}",
                ["Black", "White"][i],
                c as u8,
                c.flip() as u8,
                c.array_index()
            ),
        );
    }
    o.fun(
        "color_all",
        &format!(
            "\"v\":{},\"num\":{}",
            arr(Color::all().iter().map(|&c| c as u8)),
            Color::NUM
        ),
    );
    for (i, k) in KINDS.into_iter().enumerate() {
        let opt = OptionPieceKind::from(Some(k));
        let r = raw_kind(OptionPieceKind::from(Some(k)));
        let back: Option<PieceKind> = opt.into();
        o.fun(
            "kind",
            &format!(
                "\"n\":\"{}\",\"repr\":{},\"pro\":{},\"unpro\":{},\"ai\":{},\"oai\":{},\"opt\":{},\"back\":{}",
                NAMES[i],
                k as u8,
                k0(k.promote()),
                k0(k.unpromote()),
                k.array_index(),
                opt_kind_index(Some(k)),
                r,
                k0(back)
            ),
        );
    }
    let none: Option<PieceKind> = OptionPieceKind::from(None).into();
    o.fun(
        "kind_none",
        &format!(
            "\"oai\":{},\"opt\":{},\"back\":{}",
            opt_kind_index(None),
            raw_kind(OptionPieceKind::from(None)),
            k0(none)
        ),
    );
    let v: Vec<u8> = (0..=255u8).map(|x| k0(PieceKind::from_u8(x))).collect();
    o.fun("kind_from", &format!("\"v\":{}", arr(v)));
    let v: Vec<u8> = (1..=14u8)
        .map(|x| unsafe { PieceKind::from_u8_unchecked(x) } as u8)
        .collect();
    o.fun("kind_fromu", &format!("\"v\":{}", arr(v)));
    o.fun(
        "kind_all",
        &format!(
            "\"v\":{},\"num\":{},\"onum\":{}",
            arr(PieceKind::all().iter().map(|&k| k as u8)),
            PieceKind::NUM,
            OPTION_KIND_NUM
        ),
    );
    for k in 1..=14u8 {
        for c in 1..=2u8 {
            let p = Piece::new(kind(k), color(c));
            let (pk, pc) = p.to_parts();
            let opt = OptionPiece::from(Some(p));
            let back: Option<Piece> = opt.into();
            o.fun(
                "piece",
                &format!(
                    "\"k\":{},\"c\":{},\"repr\":{},\"raw\":{},\"parts\":{},\"acc\":{},\"pro\":{},\"unpro\":{},\"ai\":{},\"opt\":{},\"back\":{}",
                    k,
                    c,
                    p.as_u8(),
                    unsafe { std::mem::transmute::<Piece, u8>(p) },
                    arr([pk as u8, pc as u8]),
                    arr([p.piece_kind() as u8, p.color() as u8]),
                    pcode(p.promote()),
                    pcode(p.unpromote()),
                    piece_index(p),
                    raw_pc(opt),
                    pcode(back)
                ),
            );
        }
    }
    let none: Option<Piece> = OptionPiece::from(None).into();
    o.fun(
        "piece_none",
        &format!(
            "\"opt\":{},\"back\":{}",
            raw_pc(OptionPiece::from(None)),
            pcode(none)
        ),
    );
    o.fun(
        "piece_all",
        &format!(
            "\"v\":{},\"num\":{}",
            arr(Piece::all().iter().map(|&p| p.as_u8())),
            PIECE_NUM
        ),
    );
    for (n, k, c, a, b) in named::PIECES {
        o.fun(
            "piece_const",
            &format!(
                "\"n\":\"{}\",\"k\":{},\"c\":{},\"v\":{}",
                n,
                k,
                c,
                arr([a.as_u8(), b.as_u8()])
            ),
        );
    }
    for (i, r) in RES.into_iter().enumerate() {
        let opt = OptionGameResolution::from(Some(r));
        let back: Option<GameResolution> = opt.into();
        o.fun(
            "res",
            &format!(
                "\"i\":{},\"repr\":{},\"of\":{},\"opt\":{},\"back\":{}",
                i + 1,
                r as u8,
                unsafe { GameResolution::from_u8_unchecked(i as u8 + 1) } as u8,
                raw_res(opt),
                back.map_or(0, |x| x as u8)
            ),
        );
    }
    let none: Option<GameResolution> = OptionGameResolution::from(None).into();
    o.fun(
        "res_none",
        &format!(
            "\"opt\":{},\"def\":{},\"back\":{}",
            raw_res(OptionGameResolution::from(None)),
            raw_res(OptionGameResolution::default()),
            none.map_or(0, |x| x as u8)
        ),
    );
    for (i, r) in ILL.into_iter().enumerate() {
        let a = ResultUnitIllegalMoveKind::from(Some(r));
        let b = ResultUnitIllegalMoveKind::from(Err(r));
        let ba: Option<IllegalMoveKind> = b.into();
        let bb: Result<(), IllegalMoveKind> = a.into();
        o.fun(
            "ill",
            &format!(
                "\"i\":{},\"repr\":{},\"of\":{},\"opt\":{},\"back\":{}",
                i + 1,
                r as u8,
                unsafe { IllegalMoveKind::from_u8_unchecked(i as u8 + 1) } as u8,
                arr([raw_ill(a), raw_ill(b)]),
                arr([ba.map_or(0, |x| x as u8), bb.err().map_or(0, |x| x as u8)])
            ),
        );
    }
    let a: Option<IllegalMoveKind> = ResultUnitIllegalMoveKind::from(Ok(())).into();
    let b: Result<(), IllegalMoveKind> = ResultUnitIllegalMoveKind::from(None).into();
    o.fun(
        "ill_none",
        &format!(
            "\"opt\":{},\"def\":{},\"back\":{}",
            arr([
                raw_ill(ResultUnitIllegalMoveKind::from(None)),
                raw_ill(ResultUnitIllegalMoveKind::from(Ok(())))
            ]),
            raw_ill(ResultUnitIllegalMoveKind::default()),
            arr([a.map_or(0, |x| x as u8), b.err().map_or(0, |x| x as u8)])
        ),
    );
    let v: Vec<u8> = (0..=255u8)
        .map(|x| IllegalMoveKind::from_u8(x).map_or(0, |x| x as u8))
        .collect();
    o.fun("ill_from", &format!("\"v\":{}", arr(v)));
    for i in 0..5 {
        o.fun(
            "status",
            &format!("\"i\":{},\"repr\":{}", i + 1, status(i) as i32),
        );
    }
}

/// Everything about one move: [to, w, w', w'' | back(4) | move accessors(4) | packed accessors(4) | opt, optback]
fn mv_row(m: M) -> String {
    let mv = m.mv();
    let c: CompactMove = mv.into();
    let direct = if m.d == 1 {
        CompactMove::drop(piece(m.a), sq(m.t))
    } else {
        CompactMove::normal(sq(m.a), sq(m.t), m.p == 1)
    };
    let back = M::of(c.into());
    let backd = M::of(direct.into());
    let opt = OptionCompactMove::from(Some(c));
    let ob: Option<CompactMove> = opt.into();
    arr([
        m.t as i32,
        mcode(c) as i32,
        mcode(direct) as i32,
        (back == backd && c == direct && mv == <Move as From<CompactMove>>::from(c)) as i32,
        back.d as i32,
        back.a as i32,
        back.t as i32,
        back.p as i32,
        scode(mv.from()),
        raw(mv.to()) as i32,
        mv.is_promoting() as i32,
        mv.is_drop() as i32,
        scode(c.from()),
        raw(c.to()) as i32,
        c.is_promoting() as i32,
        c.is_drop() as i32,
        raw_mv(opt) as i32,
        ob.map_or(0, |x| mcode(x) as i32),
    ])
}

pub fn moves(o: &mut Out) {
    for p in 0..=1u8 {
        for a in 1..=81u8 {
            o.pending(&|| format!("moves from square {}", a));
            let v: Vec<String> = (1..=81).map(|t| mv_row(M::normal(a, t, p))).collect();
            o.fun(
                "mv",
                &format!("\"d\":0,\"a\":{},\"p\":{},\"v\":{}", a, p, arr(v)),
            );
        }
    }
    for a in PIECES {
        o.pending(&|| format!("drops of piece {}", a));
        let v: Vec<String> = (1..=81).map(|t| mv_row(M::drop(a, t))).collect();
        o.fun(
            "mv",
            &format!("\"d\":1,\"a\":{},\"p\":0,\"v\":{}", a, arr(v)),
        );
    }
    let none: Option<CompactMove> = OptionCompactMove::from(None).into();
    o.fun(
        "mv_none",
        &format!(
            "\"opt\":{},\"def\":{},\"back\":{}",
            raw_mv(OptionCompactMove::from(None)),
            raw_mv(OptionCompactMove::default()),
            none.map_or(0, |x| mcode(x) as i32)
        ),
    );
}
