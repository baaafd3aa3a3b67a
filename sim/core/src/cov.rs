//! Yield points inside library code that calls nothing: in the instrumented build the compiler inserts a call at every
//! control-flow edge and at every load and store; only those that touch static memory count.
use crate::st::*;
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};

static ON: AtomicBool = AtomicBool::new(false);
/// Is this the instrumented build?
pub fn on() -> bool { ON.load(Relaxed) }

extern "C" {
    static __data_start: u8;
    static _end: u8;
}

#[no_mangle] pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(a: *mut u32, b: *mut u32) {
    if a != b { ON.store(true, Relaxed); }
}
#[no_mangle] pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(_g: *mut u32) { if live() { point(Kind::Edge) } }

#[inline(always)]
unsafe fn mem(p: usize) {
    if p >= &__data_start as *const u8 as usize && p < &_end as *const u8 as usize && live() { point(Kind::Global) }
}
macro_rules! hooks { ($($n:ident)*) => { $( #[no_mangle] pub unsafe extern "C" fn $n(p: usize) { mem(p) } )* } }
hooks! { __sanitizer_cov_load1 __sanitizer_cov_load2 __sanitizer_cov_load4 __sanitizer_cov_load8 __sanitizer_cov_load16
         __sanitizer_cov_store1 __sanitizer_cov_store2 __sanitizer_cov_store4 __sanitizer_cov_store8 __sanitizer_cov_store16 }
