//! The callbacks that ThreadSanitizer's instrumentation of the crate under
//! test calls: no race detection, only scheduling points.
#![allow(clippy::missing_safety_doc)]
use crate::sched::point;
use std::sync::atomic::{AtomicU16, AtomicU32, AtomicU64, AtomicU8, Ordering::SeqCst};

extern "C" {
    static __data_start: u8;
    static _end: u8;
}

#[inline(always)]
fn access(a: *const u8) {
    let st = a >= std::ptr::addr_of!(__data_start) && a < std::ptr::addr_of!(_end);
    point(st);
}

#[no_mangle]
pub extern "C" fn __tsan_init() {}
#[no_mangle]
pub extern "C" fn __tsan_func_entry(_: *const u8) {
    point(false);
}
#[no_mangle]
pub extern "C" fn __tsan_func_exit() {}
#[no_mangle]
pub extern "C" fn __tsan_vptr_update(_: *mut *mut u8, _: *mut u8) {}
#[no_mangle]
pub extern "C" fn __tsan_vptr_read(_: *mut *mut u8) {}
#[no_mangle]
pub extern "C" fn __tsan_ignore_thread_begin() {}
#[no_mangle]
pub extern "C" fn __tsan_ignore_thread_end() {}
#[no_mangle]
pub extern "C" fn __tsan_read_range(a: *const u8, _: u64) {
    access(a);
}
#[no_mangle]
pub extern "C" fn __tsan_write_range(a: *const u8, _: u64) {
    access(a);
}

macro_rules! acc {
    ($($n:ident)*) => { $( #[no_mangle] pub extern "C" fn $n(a: *const u8) { access(a); } )* };
}
acc!(__tsan_read1 __tsan_read2 __tsan_read4 __tsan_read8 __tsan_read16
     __tsan_write1 __tsan_write2 __tsan_write4 __tsan_write8 __tsan_write16
     __tsan_unaligned_read2 __tsan_unaligned_read4 __tsan_unaligned_read8 __tsan_unaligned_read16
     __tsan_unaligned_write2 __tsan_unaligned_write4 __tsan_unaligned_write8 __tsan_unaligned_write16
     __tsan_read_write1 __tsan_read_write2 __tsan_read_write4 __tsan_read_write8 __tsan_read_write16
     __tsan_unaligned_read_write2 __tsan_unaligned_read_write4 __tsan_unaligned_read_write8 __tsan_unaligned_read_write16
     __tsan_volatile_read1 __tsan_volatile_read2 __tsan_volatile_read4 __tsan_volatile_read8 __tsan_volatile_read16
     __tsan_volatile_write1 __tsan_volatile_write2 __tsan_volatile_write4 __tsan_volatile_write8 __tsan_volatile_write16
     __tsan_unaligned_volatile_read2 __tsan_unaligned_volatile_read4 __tsan_unaligned_volatile_read8 __tsan_unaligned_volatile_read16
     __tsan_unaligned_volatile_write2 __tsan_unaligned_volatile_write4 __tsan_unaligned_volatile_write8 __tsan_unaligned_volatile_write16);

#[no_mangle]
pub unsafe extern "C" fn __tsan_memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    access(d);
    std::ptr::copy(s, d, n);
    d
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    access(d);
    std::ptr::copy(s, d, n);
    d
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memset(d: *mut u8, c: i32, n: usize) -> *mut u8 {
    access(d);
    std::ptr::write_bytes(d, c as u8, n);
    d
}
#[no_mangle]
pub extern "C" fn __tsan_atomic_thread_fence(_: i32) {
    point(true);
    std::sync::atomic::fence(SeqCst);
}
#[no_mangle]
pub extern "C" fn __tsan_atomic_signal_fence(_: i32) {}

macro_rules! at {
    ($t:ty, $a:ty, $load:ident $store:ident $xchg:ident $add:ident $sub:ident $and:ident $or:ident $xor:ident $nand:ident $val:ident $strong:ident $weak:ident) => {
        #[no_mangle]
        pub unsafe extern "C" fn $load(a: *const $t, _: i32) -> $t {
            point(true);
            (*a.cast::<$a>()).load(SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $store(a: *mut $t, v: $t, _: i32) {
            point(true);
            (*a.cast::<$a>()).store(v, SeqCst);
            point(true);
        }
        #[no_mangle]
        pub unsafe extern "C" fn $xchg(a: *mut $t, v: $t, _: i32) -> $t {
            point(true);
            let r = (*a.cast::<$a>()).swap(v, SeqCst);
            point(true);
            r
        }
        #[no_mangle]
        pub unsafe extern "C" fn $add(a: *mut $t, v: $t, _: i32) -> $t {
            point(true);
            let r = (*a.cast::<$a>()).fetch_add(v, SeqCst);
            point(true);
            r
        }
        #[no_mangle]
        pub unsafe extern "C" fn $sub(a: *mut $t, v: $t, _: i32) -> $t {
            point(true);
            let r = (*a.cast::<$a>()).fetch_sub(v, SeqCst);
            point(true);
            r
        }
        #[no_mangle]
        pub unsafe extern "C" fn $and(a: *mut $t, v: $t, _: i32) -> $t {
            point(true);
            (*a.cast::<$a>()).fetch_and(v, SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $or(a: *mut $t, v: $t, _: i32) -> $t {
            point(true);
            (*a.cast::<$a>()).fetch_or(v, SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $xor(a: *mut $t, v: $t, _: i32) -> $t {
            point(true);
            (*a.cast::<$a>()).fetch_xor(v, SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $nand(a: *mut $t, v: $t, _: i32) -> $t {
            point(true);
            (*a.cast::<$a>()).fetch_nand(v, SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $val(a: *mut $t, c: $t, v: $t, _: i32, _: i32) -> $t {
            point(true);
            let r = match (*a.cast::<$a>()).compare_exchange(c, v, SeqCst, SeqCst) {
                Ok(x) | Err(x) => x,
            };
            point(true);
            r
        }
        #[no_mangle]
        pub unsafe extern "C" fn $strong(a: *mut $t, c: *mut $t, v: $t, _: i32, _: i32) -> i32 {
            point(true);
            match (*a.cast::<$a>()).compare_exchange(*c, v, SeqCst, SeqCst) {
                Ok(_) => 1,
                Err(x) => {
                    *c = x;
                    0
                }
            }
        }
        #[no_mangle]
        pub unsafe extern "C" fn $weak(a: *mut $t, c: *mut $t, v: $t, m: i32, f: i32) -> i32 {
            $strong(a, c, v, m, f)
        }
    };
}
at!(u8, AtomicU8, __tsan_atomic8_load __tsan_atomic8_store __tsan_atomic8_exchange __tsan_atomic8_fetch_add __tsan_atomic8_fetch_sub __tsan_atomic8_fetch_and __tsan_atomic8_fetch_or __tsan_atomic8_fetch_xor __tsan_atomic8_fetch_nand __tsan_atomic8_compare_exchange_val __tsan_atomic8_compare_exchange_strong __tsan_atomic8_compare_exchange_weak);
at!(u16, AtomicU16, __tsan_atomic16_load __tsan_atomic16_store __tsan_atomic16_exchange __tsan_atomic16_fetch_add __tsan_atomic16_fetch_sub __tsan_atomic16_fetch_and __tsan_atomic16_fetch_or __tsan_atomic16_fetch_xor __tsan_atomic16_fetch_nand __tsan_atomic16_compare_exchange_val __tsan_atomic16_compare_exchange_strong __tsan_atomic16_compare_exchange_weak);
at!(u32, AtomicU32, __tsan_atomic32_load __tsan_atomic32_store __tsan_atomic32_exchange __tsan_atomic32_fetch_add __tsan_atomic32_fetch_sub __tsan_atomic32_fetch_and __tsan_atomic32_fetch_or __tsan_atomic32_fetch_xor __tsan_atomic32_fetch_nand __tsan_atomic32_compare_exchange_val __tsan_atomic32_compare_exchange_strong __tsan_atomic32_compare_exchange_weak);
at!(u64, AtomicU64, __tsan_atomic64_load __tsan_atomic64_store __tsan_atomic64_exchange __tsan_atomic64_fetch_add __tsan_atomic64_fetch_sub __tsan_atomic64_fetch_and __tsan_atomic64_fetch_or __tsan_atomic64_fetch_xor __tsan_atomic64_fetch_nand __tsan_atomic64_compare_exchange_val __tsan_atomic64_compare_exchange_strong __tsan_atomic64_compare_exchange_weak);
