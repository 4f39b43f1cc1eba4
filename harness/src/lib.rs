//! Entry points whose LLVM IR the symbolic executor runs.  Only public names of
//! blitstr are used (plus the cluster hash, through the cfg(verif_hooks) hook).
#![no_std]
#![allow(static_mut_refs)]
include!("entry.rs");

#[panic_handler]
fn ph(_: &core::panic::PanicInfo) -> ! {
    extern "C" {
        fn verif_panic() -> !;
    }
    unsafe { verif_panic() }
}
