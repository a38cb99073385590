//! Games: resolving and unresolving, through the Rust and through the C entry points.
use crate::obs::*;
use crate::out::{arr, Out};
use crate::rng::Rng;
use crate::shim::{order_of, same_hash, MaybeHash, MaybeOrd};
use shogi_core::c_compat::OptionGameResolution;
use shogi_core::*;

extern "C" {
    fn Game_resolve(g: *mut Game, r: GameResolution);
    fn Game_unresolve(g: *mut Game);
    fn Game_resolution(g: *const Game) -> OptionGameResolution;
    fn Game_position(g: *const Game) -> *const Position;
    fn PartialGame_resolve(g: *mut PartialGame, r: GameResolution);
    fn PartialGame_unresolve(g: *mut PartialGame);
    fn PartialGame_resolution(g: *const PartialGame) -> OptionGameResolution;
    fn PartialGame_position(g: *const PartialGame) -> *const PartialPosition;
}

pub const RES: [GameResolution; 5] = [
    GameResolution::BlackWins,
    GameResolution::WhiteWins,
    GameResolution::Draw,
    GameResolution::Rematch,
    GameResolution::Aborted,
];
/// The documented number, by name and not by discriminant.
fn rcode(r: Option<GameResolution>) -> i32 {
    match r {
        None => 0,
        Some(GameResolution::BlackWins) => 1,
        Some(GameResolution::WhiteWins) => 2,
        Some(GameResolution::Draw) => 3,
        Some(GameResolution::Rematch) => 4,
        Some(GameResolution::Aborted) => 5,
    }
}

trait G: Clone + Eq + MaybeOrd + MaybeHash + Default {
    const NAME: &'static str;
    type P: Target;
    fn resolve(&mut self, r: GameResolution, via: u8);
    fn unresolve(&mut self, via: u8);
    fn res(&self) -> Option<GameResolution>;
    fn cres(&self) -> OptionGameResolution;
    fn pos(&self) -> &Self::P;
    fn cpos(&self) -> &Self::P;
}
macro_rules! game {
    ($t:ident, $p:ident, $a:ident, $b:ident, $c:ident, $d:ident) => {
        impl G for $t {
            const NAME: &'static str = stringify!($t);
            type P = $p;
            fn resolve(&mut self, r: GameResolution, via: u8) {
                if via == 0 {
                    $t::resolve(self, r)
                } else {
                    unsafe { $a(self, r) }
                }
            }
            fn unresolve(&mut self, via: u8) {
                if via == 0 {
                    $t::unresolve(self)
                } else {
                    unsafe { $b(self) }
                }
            }
            fn res(&self) -> Option<GameResolution> {
                self.resolution()
            }
            fn cres(&self) -> OptionGameResolution {
                unsafe { $c(self) }
            }
            fn pos(&self) -> &$p {
                self.position()
            }
            fn cpos(&self) -> &$p {
                unsafe { &*$d(self) }
            }
        }
    };
}
game!(
    Game,
    Position,
    Game_resolve,
    Game_unresolve,
    Game_resolution,
    Game_position
);
game!(
    PartialGame,
    PartialPosition,
    PartialGame_resolve,
    PartialGame_unresolve,
    PartialGame_resolution,
    PartialGame_position
);

struct S<'a, T: G> {
    o: &'a mut Out,
    g: T,
    prev: Obs,
}
impl<'a, T: G> S<'a, T> {
    fn new(o: &'a mut Out) -> Self {
        o.next_session();
        let mut s = S {
            o,
            g: T::default(),
            prev: Obs::zero(T::P::FULL),
        };
        s.emit(&format!(
            "{{\"e\":\"new\",\"full\":{},\"ty\":\"{}\"",
            T::P::FULL,
            T::NAME
        ));
        s
    }
    fn emit(&mut self, head: &str) {
        // one game per resolution, made directly, to compare with
        let refs: Vec<T> = (0..6)
            .map(|i| {
                let mut g = T::default();
                if i > 0 {
                    g.resolve(RES[i - 1], 0);
                }
                g
            })
            .collect();
        let g = &self.g;
        let copies = self.o.lines % 2 == 0;
        let pos = if copies { g.pos() } else { g.cpos() };
        let now = pos.obs();
        let mut line = format!(
            "{},\"res\":{},\"cres\":{},\"same\":{},\"eq\":{},\"hq\":{},\"cmp\":{}",
            head,
            rcode(g.res()),
            // the documented representation of the optional resolution
            unsafe { std::mem::transmute::<OptionGameResolution, u8>(g.cres()) },
            (g.pos() == g.cpos() && *g.pos() == T::P::clone(T::default().pos())) as u8,
            arr(refs.iter().map(|r| (r == g) as u8)),
            arr(refs.iter().map(|r| same_hash(r, g, r == g) as u8)),
            arr(refs
                .iter()
                .map(|r| order_of(g, r, rcode(g.res()).cmp(&rcode(r.res()))) as i8)),
        );
        now.delta(&self.prev, &mut line);
        line.push('}');
        self.prev = now;
        self.o.line(&line);
    }
    /// 0: unresolve, 1..=5: resolve, 6: go on with a clone while the original lives on, 7: the reverse,
    /// 8: go on with another game that this one was assigned to
    fn op(&mut self, op: u8, via: u8) {
        self.o
            .pending(&|| format!("game operation {} via {}", op, via));
        match op {
            0 => {
                self.g.unresolve(via);
                self.emit(&format!("{{\"e\":\"un\",\"via\":{}", via));
            }
            1..=5 => {
                self.g.resolve(RES[op as usize - 1], via);
                self.emit(&format!("{{\"e\":\"rs\",\"via\":{},\"r\":{}", via, op));
            }
            _ => {
                let mut c = self.g.clone();
                if op == 8 {
                    c = T::default();
                    if self.o.lines % 2 == 0 {
                        c.resolve(RES[(self.o.lines / 2 % 5) as usize], 0);
                    }
                    c.clone_from(&self.g);
                }
                if op != 7 {
                    std::mem::swap(&mut c, &mut self.g);
                }
                match self.o.lines % 3 {
                    0 => c.unresolve(0),
                    x => c.resolve(RES[(x + 1) as usize], 0),
                }
                drop(c);
                self.emit("{\"e\":\"cl\"");
            }
        }
    }
}

fn all_of<T: G>(o: &mut Out, depth: u32) {
    for n in 0..9u32.pow(depth) {
        let mut s: S<T> = S::new(o);
        let mut x = n;
        for i in 0..depth {
            s.op((x % 9) as u8, ((n + i) % 2) as u8);
            x /= 9;
        }
    }
}
fn random<T: G>(o: &mut Out, rng: &mut Rng, n: usize, len: usize) {
    for _ in 0..n {
        let mut s: S<T> = S::new(o);
        for _ in 0..len {
            s.op(rng.below(9) as u8, rng.below(2) as u8);
        }
    }
}

pub fn run(o: &mut Out, seed: u64, thorough: bool) {
    let mut rng = Rng::new(seed ^ 0x6a3e);
    let d = if thorough { 5 } else { 4 };
    all_of::<Game>(o, d);
    all_of::<PartialGame>(o, d);
    let n = if thorough { 200 } else { 30 };
    random::<Game>(o, &mut rng, n, 120);
    random::<PartialGame>(o, &mut rng, n, 120);
}

/// One sequence given from outside (a behaviour of the specification).
pub fn replay(ops: &[u8], expect: &[i32]) -> Result<(), String> {
    fn one<T: G>(ops: &[u8], expect: &[i32]) -> Result<(), String> {
        for via in [0u8, 1] {
            let mut g = T::default();
            for (i, &op) in ops.iter().enumerate() {
                match op {
                    0 => g.unresolve(via),
                    6 => g = g.clone(),
                    _ => g.resolve(RES[op as usize - 1], via),
                }
                let c = unsafe { std::mem::transmute::<OptionGameResolution, u8>(g.cres()) } as i32;
                if rcode(g.res()) != expect[i] || c != expect[i] {
                    return Err(format!(
                        "{} after {:?}: {} / {}",
                        T::NAME,
                        &ops[..=i],
                        rcode(g.res()),
                        c
                    ));
                }
                if *g.pos() != T::default().pos().clone() {
                    return Err(format!("{} after {:?}: position", T::NAME, &ops[..=i]));
                }
            }
        }
        Ok(())
    }
    one::<Game>(ops, expect)?;
    one::<PartialGame>(ops, expect)
}
