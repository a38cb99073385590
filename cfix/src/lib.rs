//! The library as a shared object, plus a way to make games (C users get them from other crates).
pub use shogi_core::*;

#[no_mangle]
pub extern "C" fn verif_game_new() -> *mut Game {
    Box::into_raw(Box::default())
}
#[no_mangle]
pub unsafe extern "C" fn verif_game_free(g: *mut Game) {
    drop(Box::from_raw(g));
}
#[no_mangle]
pub extern "C" fn verif_partial_game_new() -> *mut PartialGame {
    Box::into_raw(Box::default())
}
#[no_mangle]
pub unsafe extern "C" fn verif_partial_game_free(g: *mut PartialGame) {
    drop(Box::from_raw(g));
}
