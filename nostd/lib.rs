//! What a Rust user of the freestanding library's runtime sees: its global allocator, seen through
//! the ordinary allocation functions, exported under names a C driver can find.
#![no_std]
extern crate alloc;
extern crate shogi_core_c;
use alloc::alloc::{alloc, alloc_zeroed, dealloc, realloc, Layout};

#[no_mangle]
pub unsafe extern "C" fn verif_alloc(size: usize, align: usize) -> *mut u8 {
    alloc(Layout::from_size_align_unchecked(size, align))
}
#[no_mangle]
pub unsafe extern "C" fn verif_zalloc(size: usize, align: usize) -> *mut u8 {
    alloc_zeroed(Layout::from_size_align_unchecked(size, align))
}
#[no_mangle]
pub unsafe extern "C" fn verif_realloc(p: *mut u8, size: usize, align: usize, new: usize) -> *mut u8 {
    realloc(p, Layout::from_size_align_unchecked(size, align), new)
}
#[no_mangle]
pub unsafe extern "C" fn verif_free(p: *mut u8, size: usize, align: usize) {
    dealloc(p, Layout::from_size_align_unchecked(size, align))
}

// The precompiled core library was built for unwinding; nothing here ever unwinds.
#[no_mangle]
pub extern "C" fn rust_eh_personality() {}
#[no_mangle]
pub extern "C" fn _Unwind_Resume() {}
