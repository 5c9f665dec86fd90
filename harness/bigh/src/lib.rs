//! Plain C entry points for the 256-bit integers and the double-word helpers.
#![no_std]
#![allow(improper_ctypes_definitions, clippy::missing_safety_doc, clippy::too_many_arguments)]

use libm::support::{i256, u256, DInt, HInt, NarrowingDiv};

fn u(hi: u128, lo: u128) -> u256 {
    u256 { hi, lo }
}

fn i(hi: u128, lo: u128) -> i256 {
    u256 { hi, lo }.signed()
}

fn put(r: u256, hi: &mut u128, lo: &mut u128) {
    *hi = r.hi;
    *lo = r.lo;
}

#[no_mangle]
pub extern "C" fn b_uadd(ah: u128, al: u128, bh: u128, bl: u128, hi: &mut u128, lo: &mut u128) {
    let (a, b) = (u(ah, al), u(bh, bl));
    put((a + b), hi, lo)
}

#[no_mangle]
pub extern "C" fn b_usub(ah: u128, al: u128, bh: u128, bl: u128, hi: &mut u128, lo: &mut u128) {
    let (a, b) = (u(ah, al), u(bh, bl));
    put((a - b), hi, lo)
}

#[no_mangle]
pub extern "C" fn b_uor(ah: u128, al: u128, bh: u128, bl: u128, hi: &mut u128, lo: &mut u128) {
    let (a, b) = (u(ah, al), u(bh, bl));
    put((a | b), hi, lo)
}

#[no_mangle]
pub extern "C" fn b_unot(ah: u128, al: u128, hi: &mut u128, lo: &mut u128) {
    put((!u(ah, al)), hi, lo)
}

#[no_mangle]
pub extern "C" fn b_ushl(ah: u128, al: u128, s: u32, hi: &mut u128, lo: &mut u128) {
    put((u(ah, al) << s), hi, lo)
}

#[no_mangle]
pub extern "C" fn b_ushr(ah: u128, al: u128, s: u32, hi: &mut u128, lo: &mut u128) {
    put((u(ah, al) >> s), hi, lo)
}

#[no_mangle]
pub extern "C" fn b_ult(ah: u128, al: u128, bh: u128, bl: u128) -> u32 {
    (u(ah, al) < u(bh, bl)) as u32
}

#[no_mangle]
pub extern "C" fn b_ule(ah: u128, al: u128, bh: u128, bl: u128) -> u32 {
    (u(ah, al) <= u(bh, bl)) as u32
}

#[no_mangle]
pub extern "C" fn b_ueq(ah: u128, al: u128, bh: u128, bl: u128) -> u32 {
    (u(ah, al) == u(bh, bl)) as u32
}

#[no_mangle]
pub extern "C" fn b_iadd(ah: u128, al: u128, bh: u128, bl: u128, hi: &mut u128, lo: &mut u128) {
    let (a, b) = (i(ah, al), i(bh, bl));
    put((a + b).unsigned(), hi, lo)
}

#[no_mangle]
pub extern "C" fn b_isub(ah: u128, al: u128, bh: u128, bl: u128, hi: &mut u128, lo: &mut u128) {
    let (a, b) = (i(ah, al), i(bh, bl));
    put((a - b).unsigned(), hi, lo)
}

#[no_mangle]
pub extern "C" fn b_ior(ah: u128, al: u128, bh: u128, bl: u128, hi: &mut u128, lo: &mut u128) {
    let (a, b) = (i(ah, al), i(bh, bl));
    put((a | b).unsigned(), hi, lo)
}

#[no_mangle]
pub extern "C" fn b_inot(ah: u128, al: u128, hi: &mut u128, lo: &mut u128) {
    put((!i(ah, al)).unsigned(), hi, lo)
}

#[no_mangle]
pub extern "C" fn b_ishl(ah: u128, al: u128, s: u32, hi: &mut u128, lo: &mut u128) {
    put((i(ah, al) << s).unsigned(), hi, lo)
}

#[no_mangle]
pub extern "C" fn b_ishr(ah: u128, al: u128, s: u32, hi: &mut u128, lo: &mut u128) {
    put((i(ah, al) >> s).unsigned(), hi, lo)
}

#[no_mangle]
pub extern "C" fn b_ilt(ah: u128, al: u128, bh: u128, bl: u128) -> u32 {
    (i(ah, al) < i(bh, bl)) as u32
}

#[no_mangle]
pub extern "C" fn b_ile(ah: u128, al: u128, bh: u128, bl: u128) -> u32 {
    (i(ah, al) <= i(bh, bl)) as u32
}

#[no_mangle]
pub extern "C" fn b_ieq(ah: u128, al: u128, bh: u128, bl: u128) -> u32 {
    (i(ah, al) == i(bh, bl)) as u32
}

#[no_mangle]
pub extern "C" fn b_uwiden(x: u128, hi: &mut u128, lo: &mut u128) {
    put(x.widen(), hi, lo)
}

#[no_mangle]
pub extern "C" fn b_iwiden(x: i128, hi: &mut u128, lo: &mut u128) {
    put(x.widen().unsigned(), hi, lo)
}

#[no_mangle]
pub extern "C" fn b_izwiden(x: i128, hi: &mut u128, lo: &mut u128) {
    put(x.zero_widen().unsigned(), hi, lo)
}

#[no_mangle]
pub extern "C" fn b_uwidenhi(x: u128, hi: &mut u128, lo: &mut u128) {
    put(x.widen_hi(), hi, lo)
}

#[no_mangle]
pub extern "C" fn b_iwidenhi(x: i128, hi: &mut u128, lo: &mut u128) {
    put(x.widen_hi().unsigned(), hi, lo)
}

#[no_mangle]
pub extern "C" fn b_umul(x: u128, y: u128, hi: &mut u128, lo: &mut u128) {
    put(x.widen_mul(y), hi, lo)
}

#[no_mangle]
pub extern "C" fn b_uzmul(x: u128, y: u128, hi: &mut u128, lo: &mut u128) {
    put(x.zero_widen_mul(y), hi, lo)
}

#[no_mangle]
pub extern "C" fn b_izmul(x: i128, y: i128, hi: &mut u128, lo: &mut u128) {
    put(x.zero_widen_mul(y).unsigned(), hi, lo)
}

#[no_mangle]
pub extern "C" fn b_u8wmul(x: u8, y: u8) -> u16 {
    x.widen_mul(y)
}

#[no_mangle]
pub extern "C" fn b_u8zmul(x: u8, y: u8) -> u16 {
    x.zero_widen_mul(y)
}

#[no_mangle]
pub extern "C" fn b_u16parts(x: u16, hi: &mut u8, lo: &mut u8) -> u16 {
    let (l, h) = x.lo_hi();
    *hi = h;
    *lo = l;
    u16::from_lo_hi(x.lo(), x.hi())
}

#[no_mangle]
pub extern "C" fn b_i8wmul(x: i8, y: i8) -> i16 {
    x.widen_mul(y)
}

#[no_mangle]
pub extern "C" fn b_i8zmul(x: i8, y: i8) -> i16 {
    x.zero_widen_mul(y)
}

#[no_mangle]
pub extern "C" fn b_i16parts(x: i16, hi: &mut i8, lo: &mut i8) -> i16 {
    let (l, h) = x.lo_hi();
    *hi = h;
    *lo = l;
    i16::from_lo_hi(x.lo(), x.hi())
}

#[no_mangle]
pub extern "C" fn b_u16ndiv(x: u16, n: u8, q: &mut u8, r: &mut u8) -> u32 {
    match x.checked_narrowing_div_rem(n) {
        Some((a, b)) => {
            *q = a;
            *r = b;
            1
        }
        None => {
            *q = 0;
            *r = 0;
            0
        }
    }
}

#[no_mangle]
pub extern "C" fn b_u16wmul(x: u16, y: u16) -> u32 {
    x.widen_mul(y)
}

#[no_mangle]
pub extern "C" fn b_u16zmul(x: u16, y: u16) -> u32 {
    x.zero_widen_mul(y)
}

#[no_mangle]
pub extern "C" fn b_u32parts(x: u32, hi: &mut u16, lo: &mut u16) -> u32 {
    let (l, h) = x.lo_hi();
    *hi = h;
    *lo = l;
    u32::from_lo_hi(x.lo(), x.hi())
}

#[no_mangle]
pub extern "C" fn b_i16wmul(x: i16, y: i16) -> i32 {
    x.widen_mul(y)
}

#[no_mangle]
pub extern "C" fn b_i16zmul(x: i16, y: i16) -> i32 {
    x.zero_widen_mul(y)
}

#[no_mangle]
pub extern "C" fn b_i32parts(x: i32, hi: &mut i16, lo: &mut i16) -> i32 {
    let (l, h) = x.lo_hi();
    *hi = h;
    *lo = l;
    i32::from_lo_hi(x.lo(), x.hi())
}

#[no_mangle]
pub extern "C" fn b_u32ndiv(x: u32, n: u16, q: &mut u16, r: &mut u16) -> u32 {
    match x.checked_narrowing_div_rem(n) {
        Some((a, b)) => {
            *q = a;
            *r = b;
            1
        }
        None => {
            *q = 0;
            *r = 0;
            0
        }
    }
}

#[no_mangle]
pub extern "C" fn b_u32wmul(x: u32, y: u32) -> u64 {
    x.widen_mul(y)
}

#[no_mangle]
pub extern "C" fn b_u32zmul(x: u32, y: u32) -> u64 {
    x.zero_widen_mul(y)
}

#[no_mangle]
pub extern "C" fn b_u64parts(x: u64, hi: &mut u32, lo: &mut u32) -> u64 {
    let (l, h) = x.lo_hi();
    *hi = h;
    *lo = l;
    u64::from_lo_hi(x.lo(), x.hi())
}

#[no_mangle]
pub extern "C" fn b_i32wmul(x: i32, y: i32) -> i64 {
    x.widen_mul(y)
}

#[no_mangle]
pub extern "C" fn b_i32zmul(x: i32, y: i32) -> i64 {
    x.zero_widen_mul(y)
}

#[no_mangle]
pub extern "C" fn b_i64parts(x: i64, hi: &mut i32, lo: &mut i32) -> i64 {
    let (l, h) = x.lo_hi();
    *hi = h;
    *lo = l;
    i64::from_lo_hi(x.lo(), x.hi())
}

#[no_mangle]
pub extern "C" fn b_u64ndiv(x: u64, n: u32, q: &mut u32, r: &mut u32) -> u32 {
    match x.checked_narrowing_div_rem(n) {
        Some((a, b)) => {
            *q = a;
            *r = b;
            1
        }
        None => {
            *q = 0;
            *r = 0;
            0
        }
    }
}

#[no_mangle]
pub extern "C" fn b_u64wmul(x: u64, y: u64) -> u128 {
    x.widen_mul(y)
}

#[no_mangle]
pub extern "C" fn b_u64zmul(x: u64, y: u64) -> u128 {
    x.zero_widen_mul(y)
}

#[no_mangle]
pub extern "C" fn b_u128parts(x: u128, hi: &mut u64, lo: &mut u64) -> u128 {
    let (l, h) = x.lo_hi();
    *hi = h;
    *lo = l;
    u128::from_lo_hi(x.lo(), x.hi())
}

#[no_mangle]
pub extern "C" fn b_i64wmul(x: i64, y: i64) -> i128 {
    x.widen_mul(y)
}

#[no_mangle]
pub extern "C" fn b_i64zmul(x: i64, y: i64) -> i128 {
    x.zero_widen_mul(y)
}

#[no_mangle]
pub extern "C" fn b_i128parts(x: i128, hi: &mut i64, lo: &mut i64) -> i128 {
    let (l, h) = x.lo_hi();
    *hi = h;
    *lo = l;
    i128::from_lo_hi(x.lo(), x.hi())
}

#[no_mangle]
pub extern "C" fn b_u128ndiv(x: u128, n: u64, q: &mut u64, r: &mut u64) -> u32 {
    match x.checked_narrowing_div_rem(n) {
        Some((a, b)) => {
            *q = a;
            *r = b;
            1
        }
        None => {
            *q = 0;
            *r = 0;
            0
        }
    }
}

#[no_mangle]
pub extern "C" fn b_u256ndiv(xh: u128, xl: u128, n: u128, q: &mut u128, r: &mut u128) -> u32 {
    match u(xh, xl).checked_narrowing_div_rem(n) {
        Some((a, b)) => {
            *q = a;
            *r = b;
            1
        }
        None => {
            *q = 0;
            *r = 0;
            0
        }
    }
}
