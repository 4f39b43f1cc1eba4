//! Native build of the same entry points, for replaying counterexamples: every
//! call reports a panic as the return value 1.
#![allow(static_mut_refs)]
#[path = "../../harness/src/entry.rs"]
mod entry;
use blitstr::FrBuf;
use std::panic::{catch_unwind, AssertUnwindSafe};

fn guard<F: FnOnce()>(f: F) -> u32 {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(()) => 0,
        Err(_) => 1,
    }
}
#[no_mangle]
pub extern "C" fn r_quiet() {
    std::panic::set_hook(Box::new(|_| {}));
}
#[no_mangle]
pub extern "C" fn r_paint(fb: &mut FrBuf, clip: &[usize; 4], c: &mut [usize; 3], st: usize, p: *const u8, n: usize) -> u32 {
    guard(|| entry::h_paint(fb, clip, c, st, p, n))
}
#[no_mangle]
pub extern "C" fn r_clear(fb: &mut FrBuf, clip: &[usize; 4]) -> u32 {
    guard(|| entry::h_clear(fb, clip))
}
#[no_mangle]
pub extern "C" fn r_demo(fb: &mut FrBuf, k: usize) -> u32 {
    guard(|| entry::h_demo(fb, k))
}
#[no_mangle]
pub extern "C" fn r_wasm_init() -> u32 {
    guard(|| entry::h_wasm_init())
}
#[no_mangle]
pub extern "C" fn r_hash(p: *const u8, n: usize, seed: u32, limit: u32, o: &mut [usize; 2]) -> u32 {
    guard(|| entry::h_hash(p, n, seed, limit, o))
}
/// the small functions by number; results in o
#[no_mangle]
pub extern "C" fn r_small(k: usize, a: &[usize; 8], o: &mut [usize; 4]) -> u32 {
    let four = |i: usize| [a[i], a[i + 1], a[i + 2], a[i + 3]];
    let three = |i: usize| [a[i], a[i + 1], a[i + 2]];
    guard(|| match k {
        0 => entry::h_rect_new(a[0], a[1], a[2], a[3], o),
        1 => entry::h_rect_full(o),
        2 => entry::h_rect_padded(o),
        3 => {
            let mut c = [0; 3];
            entry::h_cursor_tl(&four(0), &mut c);
            o[..3].copy_from_slice(&c);
        }
        4 => {
            let mut c = [0; 3];
            entry::h_cursor_new(a[0], a[1], a[2], &mut c);
            o[..3].copy_from_slice(&c);
        }
        5 => {
            let mut c = [0; 2];
            entry::h_pt_new(a[0], a[1], &mut c);
            o[..2].copy_from_slice(&c);
        }
        6 => o[0] = entry::h_pt_cmp(a[0], a[1], a[2], a[3]) as usize,
        7 => o[0] = entry::h_pt_ops(a[0], a[1], a[2], a[3]),
        8 => o[0] = entry::h_rect_eq(&four(0), &four(4)),
        9 => o[0] = entry::h_cursor_eq(&three(0), &three(3)),
        10 => o[0] = entry::h_style_from(a[0]),
        11 => o[0] = entry::h_style_into(a[0]),
        12 => o[0] = entry::h_style_round(a[0]),
        _ => o[0] = entry::h_hint(a[0]),
    })
}
#[no_mangle]
pub extern "C" fn r_wasm_fb() -> *mut u32 {
    entry::h_wasm_ptr() as *mut u32
}
#[no_mangle]
pub extern "C" fn r_fbhash(p: *const u32, n: usize, seed: u32, o: &mut u32) -> u32 {
    guard(|| *o = entry::h_fbhash(p, n, seed))
}
