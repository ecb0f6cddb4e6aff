//! The library's atomic operations, which a pass of the compiler turns into
//! calls: where threads affect each other. Each is done at once, then another
//! thread may run.

#![allow(clippy::missing_safety_doc)]

use std::sync::atomic::{
    AtomicU8, AtomicU16, AtomicU32, AtomicU64,
    Ordering::SeqCst,
};

macro_rules! atomics {
    ($t:ty, $a:ty, $load:ident, $store:ident, $xchg:ident, $add:ident, $sub:ident, $and:ident, $or:ident, $xor:ident, $nand:ident, $cas:ident) => {
        #[unsafe(no_mangle)]
        pub unsafe extern "C" fn $load(p: *const $a, _mo: i32) -> $t {
            let v = unsafe { (*p).load(SeqCst) };
            crate::sched::sync_point();
            v
        }
        #[unsafe(no_mangle)]
        pub unsafe extern "C" fn $store(p: *const $a, v: $t, _mo: i32) {
            unsafe { (*p).store(v, SeqCst) };
            crate::sched::sync_point();
        }
        atomics!(@ $t, $a, $xchg swap, $add fetch_add, $sub fetch_sub, $and fetch_and, $or fetch_or, $xor fetch_xor, $nand fetch_nand);
        #[unsafe(no_mangle)]
        pub unsafe extern "C" fn $cas(p: *const $a, c: $t, v: $t, _mo: i32, _fail: i32) -> $t {
            let r = match unsafe { (*p).compare_exchange(c, v, SeqCst, SeqCst) } {
                Ok(x) | Err(x) => x,
            };
            crate::sched::sync_point();
            r
        }
    };
    (@ $t:ty, $a:ty, $($name:ident $op:ident),*) => {
        $(
            #[unsafe(no_mangle)]
            pub unsafe extern "C" fn $name(p: *const $a, v: $t, _mo: i32) -> $t {
                let r = unsafe { (*p).$op(v, SeqCst) };
                crate::sched::sync_point();
                r
            }
        )*
    };
}

atomics!(u8, AtomicU8, __tsan_atomic8_load, __tsan_atomic8_store, __tsan_atomic8_exchange, __tsan_atomic8_fetch_add, __tsan_atomic8_fetch_sub, __tsan_atomic8_fetch_and, __tsan_atomic8_fetch_or, __tsan_atomic8_fetch_xor, __tsan_atomic8_fetch_nand, __tsan_atomic8_compare_exchange_val);
atomics!(u16, AtomicU16, __tsan_atomic16_load, __tsan_atomic16_store, __tsan_atomic16_exchange, __tsan_atomic16_fetch_add, __tsan_atomic16_fetch_sub, __tsan_atomic16_fetch_and, __tsan_atomic16_fetch_or, __tsan_atomic16_fetch_xor, __tsan_atomic16_fetch_nand, __tsan_atomic16_compare_exchange_val);
atomics!(u32, AtomicU32, __tsan_atomic32_load, __tsan_atomic32_store, __tsan_atomic32_exchange, __tsan_atomic32_fetch_add, __tsan_atomic32_fetch_sub, __tsan_atomic32_fetch_and, __tsan_atomic32_fetch_or, __tsan_atomic32_fetch_xor, __tsan_atomic32_fetch_nand, __tsan_atomic32_compare_exchange_val);
atomics!(u64, AtomicU64, __tsan_atomic64_load, __tsan_atomic64_store, __tsan_atomic64_exchange, __tsan_atomic64_fetch_add, __tsan_atomic64_fetch_sub, __tsan_atomic64_fetch_and, __tsan_atomic64_fetch_or, __tsan_atomic64_fetch_xor, __tsan_atomic64_fetch_nand, __tsan_atomic64_compare_exchange_val);

#[unsafe(no_mangle)]
pub extern "C" fn __tsan_atomic_thread_fence(_mo: i32) {
    std::sync::atomic::fence(SeqCst);
    crate::sched::sync_point();
}

#[unsafe(no_mangle)]
pub extern "C" fn __tsan_atomic_signal_fence(_mo: i32) {}

#[unsafe(no_mangle)]
pub extern "C" fn __tsan_func_entry(_pc: *const u8) {}

#[unsafe(no_mangle)]
pub extern "C" fn __tsan_func_exit() {}
