//! What the driver makes of features the library was built without: there is nothing to be
//! observed then, and the record says what is expected.
use shogi_core::*;

#[cfg(feature = "hash")]
pub trait MaybeHash: std::hash::Hash {}
#[cfg(feature = "hash")]
impl<T: std::hash::Hash> MaybeHash for T {}
#[cfg(not(feature = "hash"))]
pub trait MaybeHash {}
#[cfg(not(feature = "hash"))]
impl<T> MaybeHash for T {}

#[cfg(feature = "ord")]
pub trait MaybeOrd: Ord {}
#[cfg(feature = "ord")]
impl<T: Ord> MaybeOrd for T {}
#[cfg(not(feature = "ord"))]
pub trait MaybeOrd {}
#[cfg(not(feature = "ord"))]
impl<T> MaybeOrd for T {}

#[cfg(feature = "hash")]
pub fn hash_of<T: std::hash::Hash>(t: &T) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}
/// Do the hashes agree? Without hashing, as they should if `eq`.
#[cfg(feature = "hash")]
pub fn same_hash<T: MaybeHash>(a: &T, b: &T, _eq: bool) -> bool {
    hash_of(a) == hash_of(b)
}
#[cfg(not(feature = "hash"))]
pub fn same_hash<T: MaybeHash>(_: &T, _: &T, eq: bool) -> bool {
    eq
}
#[cfg(feature = "ord")]
pub fn same_order<T: MaybeOrd>(a: &T, b: &T, _eq: bool) -> bool {
    a.cmp(b) == std::cmp::Ordering::Equal
}
#[cfg(not(feature = "ord"))]
pub fn same_order<T: MaybeOrd>(_: &T, _: &T, eq: bool) -> bool {
    eq
}
/// How two values compare. Without an order, as they should.
#[cfg(feature = "ord")]
pub fn order_of<T: MaybeOrd>(a: &T, b: &T, _want: std::cmp::Ordering) -> std::cmp::Ordering {
    a.cmp(b)
}
#[cfg(not(feature = "ord"))]
pub fn order_of<T: MaybeOrd>(_: &T, _: &T, want: std::cmp::Ordering) -> std::cmp::Ordering {
    want
}

#[cfg(not(feature = "alloc"))]
pub trait SfenOwned {
    fn to_sfen_owned(&self) -> String;
}
#[cfg(not(feature = "alloc"))]
impl SfenOwned for PartialPosition {
    fn to_sfen_owned(&self) -> String {
        let mut s = String::new();
        self.to_sfen(&mut s).expect("strings do not fail");
        s
    }
}
#[cfg(not(feature = "alloc"))]
pub trait UsiOwned {
    fn to_usi_owned(&self) -> String;
}
#[cfg(not(feature = "alloc"))]
impl<T: ToUsi> UsiOwned for T {
    fn to_usi_owned(&self) -> String {
        let mut s = String::new();
        self.to_usi(&mut s).expect("strings do not fail");
        s
    }
}

#[cfg(feature = "experimental")]
pub fn opt_kind_index(k: Option<PieceKind>) -> usize {
    PieceKind::option_array_index(k)
}
#[cfg(not(feature = "experimental"))]
pub fn opt_kind_index(k: Option<PieceKind>) -> usize {
    k.map_or(0, |k| k as usize)
}
#[cfg(feature = "experimental")]
pub fn piece_index(p: Piece) -> usize {
    p.array_index()
}
#[cfg(not(feature = "experimental"))]
pub fn piece_index(p: Piece) -> usize {
    p.as_u8() as usize - 1
}
#[cfg(feature = "experimental")]
pub const PIECE_NUM: usize = Piece::NUM;
#[cfg(not(feature = "experimental"))]
pub const PIECE_NUM: usize = 31;
#[cfg(feature = "experimental")]
pub const OPTION_KIND_NUM: usize = PieceKind::OPTION_NUM;
#[cfg(not(feature = "experimental"))]
pub const OPTION_KIND_NUM: usize = 15;

/// Stands in for a position with history where there are none.
#[cfg(not(feature = "alloc"))]
pub struct Whole(pub PartialPosition);
#[cfg(not(feature = "alloc"))]
impl Whole {
    pub fn inner(&self) -> &PartialPosition {
        &self.0
    }
    pub fn make_move(&mut self, m: Move) -> Option<()> {
        self.0.make_move(m)
    }
    pub fn to_sfen_owned(&self) -> String {
        self.0.to_sfen_owned()
    }
}
