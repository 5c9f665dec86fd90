//! Plain C entry points for every public libm function.
#![no_std]
#![feature(f16, f128)]
#![allow(improper_ctypes_definitions)]

#[no_mangle]
pub extern "C" fn h_acos(a0: f64) -> f64 {
    libm::acos(a0)
}

#[no_mangle]
pub extern "C" fn h_acosf(a0: f32) -> f32 {
    libm::acosf(a0)
}

#[no_mangle]
pub extern "C" fn h_acosh(a0: f64) -> f64 {
    libm::acosh(a0)
}

#[no_mangle]
pub extern "C" fn h_acoshf(a0: f32) -> f32 {
    libm::acoshf(a0)
}

#[no_mangle]
pub extern "C" fn h_asin(a0: f64) -> f64 {
    libm::asin(a0)
}

#[no_mangle]
pub extern "C" fn h_asinf(a0: f32) -> f32 {
    libm::asinf(a0)
}

#[no_mangle]
pub extern "C" fn h_asinh(a0: f64) -> f64 {
    libm::asinh(a0)
}

#[no_mangle]
pub extern "C" fn h_asinhf(a0: f32) -> f32 {
    libm::asinhf(a0)
}

#[no_mangle]
pub extern "C" fn h_atan(a0: f64) -> f64 {
    libm::atan(a0)
}

#[no_mangle]
pub extern "C" fn h_atan2(a0: f64, a1: f64) -> f64 {
    libm::atan2(a0, a1)
}

#[no_mangle]
pub extern "C" fn h_atan2f(a0: f32, a1: f32) -> f32 {
    libm::atan2f(a0, a1)
}

#[no_mangle]
pub extern "C" fn h_atanf(a0: f32) -> f32 {
    libm::atanf(a0)
}

#[no_mangle]
pub extern "C" fn h_atanh(a0: f64) -> f64 {
    libm::atanh(a0)
}

#[no_mangle]
pub extern "C" fn h_atanhf(a0: f32) -> f32 {
    libm::atanhf(a0)
}

#[no_mangle]
pub extern "C" fn h_cbrt(a0: f64) -> f64 {
    libm::cbrt(a0)
}

#[no_mangle]
pub extern "C" fn h_cbrtf(a0: f32) -> f32 {
    libm::cbrtf(a0)
}

#[no_mangle]
pub extern "C" fn h_ceil(a0: f64) -> f64 {
    libm::ceil(a0)
}

#[no_mangle]
pub extern "C" fn h_ceilf(a0: f32) -> f32 {
    libm::ceilf(a0)
}

#[no_mangle]
pub extern "C" fn h_copysign(a0: f64, a1: f64) -> f64 {
    libm::copysign(a0, a1)
}

#[no_mangle]
pub extern "C" fn h_copysignf(a0: f32, a1: f32) -> f32 {
    libm::copysignf(a0, a1)
}

#[no_mangle]
pub extern "C" fn h_cos(a0: f64) -> f64 {
    libm::cos(a0)
}

#[no_mangle]
pub extern "C" fn h_cosf(a0: f32) -> f32 {
    libm::cosf(a0)
}

#[no_mangle]
pub extern "C" fn h_cosh(a0: f64) -> f64 {
    libm::cosh(a0)
}

#[no_mangle]
pub extern "C" fn h_coshf(a0: f32) -> f32 {
    libm::coshf(a0)
}

#[no_mangle]
pub extern "C" fn h_erf(a0: f64) -> f64 {
    libm::erf(a0)
}

#[no_mangle]
pub extern "C" fn h_erfc(a0: f64) -> f64 {
    libm::erfc(a0)
}

#[no_mangle]
pub extern "C" fn h_erfcf(a0: f32) -> f32 {
    libm::erfcf(a0)
}

#[no_mangle]
pub extern "C" fn h_erff(a0: f32) -> f32 {
    libm::erff(a0)
}

#[no_mangle]
pub extern "C" fn h_exp(a0: f64) -> f64 {
    libm::exp(a0)
}

#[no_mangle]
pub extern "C" fn h_exp10(a0: f64) -> f64 {
    libm::exp10(a0)
}

#[no_mangle]
pub extern "C" fn h_exp10f(a0: f32) -> f32 {
    libm::exp10f(a0)
}

#[no_mangle]
pub extern "C" fn h_exp2(a0: f64) -> f64 {
    libm::exp2(a0)
}

#[no_mangle]
pub extern "C" fn h_exp2f(a0: f32) -> f32 {
    libm::exp2f(a0)
}

#[no_mangle]
pub extern "C" fn h_expf(a0: f32) -> f32 {
    libm::expf(a0)
}

#[no_mangle]
pub extern "C" fn h_expm1(a0: f64) -> f64 {
    libm::expm1(a0)
}

#[no_mangle]
pub extern "C" fn h_expm1f(a0: f32) -> f32 {
    libm::expm1f(a0)
}

#[no_mangle]
pub extern "C" fn h_fabs(a0: f64) -> f64 {
    libm::fabs(a0)
}

#[no_mangle]
pub extern "C" fn h_fabsf(a0: f32) -> f32 {
    libm::fabsf(a0)
}

#[no_mangle]
pub extern "C" fn h_fdim(a0: f64, a1: f64) -> f64 {
    libm::fdim(a0, a1)
}

#[no_mangle]
pub extern "C" fn h_fdimf(a0: f32, a1: f32) -> f32 {
    libm::fdimf(a0, a1)
}

#[no_mangle]
pub extern "C" fn h_floor(a0: f64) -> f64 {
    libm::floor(a0)
}

#[no_mangle]
pub extern "C" fn h_floorf(a0: f32) -> f32 {
    libm::floorf(a0)
}

#[no_mangle]
pub extern "C" fn h_fma(a0: f64, a1: f64, a2: f64) -> f64 {
    libm::fma(a0, a1, a2)
}

#[no_mangle]
pub extern "C" fn h_fmaf(a0: f32, a1: f32, a2: f32) -> f32 {
    libm::fmaf(a0, a1, a2)
}

#[no_mangle]
pub extern "C" fn h_fmax(a0: f64, a1: f64) -> f64 {
    libm::fmax(a0, a1)
}

#[no_mangle]
pub extern "C" fn h_fmaxf(a0: f32, a1: f32) -> f32 {
    libm::fmaxf(a0, a1)
}

#[no_mangle]
pub extern "C" fn h_fmaximum(a0: f64, a1: f64) -> f64 {
    libm::fmaximum(a0, a1)
}

#[no_mangle]
pub extern "C" fn h_fmaximum_num(a0: f64, a1: f64) -> f64 {
    libm::fmaximum_num(a0, a1)
}

#[no_mangle]
pub extern "C" fn h_fmaximum_numf(a0: f32, a1: f32) -> f32 {
    libm::fmaximum_numf(a0, a1)
}

#[no_mangle]
pub extern "C" fn h_fmaximumf(a0: f32, a1: f32) -> f32 {
    libm::fmaximumf(a0, a1)
}

#[no_mangle]
pub extern "C" fn h_fmin(a0: f64, a1: f64) -> f64 {
    libm::fmin(a0, a1)
}

#[no_mangle]
pub extern "C" fn h_fminf(a0: f32, a1: f32) -> f32 {
    libm::fminf(a0, a1)
}

#[no_mangle]
pub extern "C" fn h_fminimum(a0: f64, a1: f64) -> f64 {
    libm::fminimum(a0, a1)
}

#[no_mangle]
pub extern "C" fn h_fminimum_num(a0: f64, a1: f64) -> f64 {
    libm::fminimum_num(a0, a1)
}

#[no_mangle]
pub extern "C" fn h_fminimum_numf(a0: f32, a1: f32) -> f32 {
    libm::fminimum_numf(a0, a1)
}

#[no_mangle]
pub extern "C" fn h_fminimumf(a0: f32, a1: f32) -> f32 {
    libm::fminimumf(a0, a1)
}

#[no_mangle]
pub extern "C" fn h_fmod(a0: f64, a1: f64) -> f64 {
    libm::fmod(a0, a1)
}

#[no_mangle]
pub extern "C" fn h_fmodf(a0: f32, a1: f32) -> f32 {
    libm::fmodf(a0, a1)
}

#[no_mangle]
pub extern "C" fn h_frexp(a0: f64, o: &mut i32) -> f64 {
    let r = libm::frexp(a0);
    *o = r.1;
    r.0
}

#[no_mangle]
pub extern "C" fn h_frexpf(a0: f32, o: &mut i32) -> f32 {
    let r = libm::frexpf(a0);
    *o = r.1;
    r.0
}

#[no_mangle]
pub extern "C" fn h_hypot(a0: f64, a1: f64) -> f64 {
    libm::hypot(a0, a1)
}

#[no_mangle]
pub extern "C" fn h_hypotf(a0: f32, a1: f32) -> f32 {
    libm::hypotf(a0, a1)
}

#[no_mangle]
pub extern "C" fn h_ilogb(a0: f64) -> i32 {
    libm::ilogb(a0)
}

#[no_mangle]
pub extern "C" fn h_ilogbf(a0: f32) -> i32 {
    libm::ilogbf(a0)
}

#[no_mangle]
pub extern "C" fn h_j0(a0: f64) -> f64 {
    libm::j0(a0)
}

#[no_mangle]
pub extern "C" fn h_j0f(a0: f32) -> f32 {
    libm::j0f(a0)
}

#[no_mangle]
pub extern "C" fn h_j1(a0: f64) -> f64 {
    libm::j1(a0)
}

#[no_mangle]
pub extern "C" fn h_j1f(a0: f32) -> f32 {
    libm::j1f(a0)
}

#[no_mangle]
pub extern "C" fn h_jn(a0: i32, a1: f64) -> f64 {
    libm::jn(a0, a1)
}

#[no_mangle]
pub extern "C" fn h_jnf(a0: i32, a1: f32) -> f32 {
    libm::jnf(a0, a1)
}

#[no_mangle]
pub extern "C" fn h_ldexp(a0: f64, a1: i32) -> f64 {
    libm::ldexp(a0, a1)
}

#[no_mangle]
pub extern "C" fn h_ldexpf(a0: f32, a1: i32) -> f32 {
    libm::ldexpf(a0, a1)
}

#[no_mangle]
pub extern "C" fn h_lgamma(a0: f64) -> f64 {
    libm::lgamma(a0)
}

#[no_mangle]
pub extern "C" fn h_lgamma_r(a0: f64, o: &mut i32) -> f64 {
    let r = libm::lgamma_r(a0);
    *o = r.1;
    r.0
}

#[no_mangle]
pub extern "C" fn h_lgammaf(a0: f32) -> f32 {
    libm::lgammaf(a0)
}

#[no_mangle]
pub extern "C" fn h_lgammaf_r(a0: f32, o: &mut i32) -> f32 {
    let r = libm::lgammaf_r(a0);
    *o = r.1;
    r.0
}

#[no_mangle]
pub extern "C" fn h_log(a0: f64) -> f64 {
    libm::log(a0)
}

#[no_mangle]
pub extern "C" fn h_log10(a0: f64) -> f64 {
    libm::log10(a0)
}

#[no_mangle]
pub extern "C" fn h_log10f(a0: f32) -> f32 {
    libm::log10f(a0)
}

#[no_mangle]
pub extern "C" fn h_log1p(a0: f64) -> f64 {
    libm::log1p(a0)
}

#[no_mangle]
pub extern "C" fn h_log1pf(a0: f32) -> f32 {
    libm::log1pf(a0)
}

#[no_mangle]
pub extern "C" fn h_log2(a0: f64) -> f64 {
    libm::log2(a0)
}

#[no_mangle]
pub extern "C" fn h_log2f(a0: f32) -> f32 {
    libm::log2f(a0)
}

#[no_mangle]
pub extern "C" fn h_logf(a0: f32) -> f32 {
    libm::logf(a0)
}

#[no_mangle]
pub extern "C" fn h_modf(a0: f64, o: &mut f64) -> f64 {
    let r = libm::modf(a0);
    *o = r.1;
    r.0
}

#[no_mangle]
pub extern "C" fn h_modff(a0: f32, o: &mut f32) -> f32 {
    let r = libm::modff(a0);
    *o = r.1;
    r.0
}

#[no_mangle]
pub extern "C" fn h_nextafter(a0: f64, a1: f64) -> f64 {
    libm::nextafter(a0, a1)
}

#[no_mangle]
pub extern "C" fn h_nextafterf(a0: f32, a1: f32) -> f32 {
    libm::nextafterf(a0, a1)
}

#[no_mangle]
pub extern "C" fn h_pow(a0: f64, a1: f64) -> f64 {
    libm::pow(a0, a1)
}

#[no_mangle]
pub extern "C" fn h_powf(a0: f32, a1: f32) -> f32 {
    libm::powf(a0, a1)
}

#[no_mangle]
pub extern "C" fn h_remainder(a0: f64, a1: f64) -> f64 {
    libm::remainder(a0, a1)
}

#[no_mangle]
pub extern "C" fn h_remainderf(a0: f32, a1: f32) -> f32 {
    libm::remainderf(a0, a1)
}

#[no_mangle]
pub extern "C" fn h_remquo(a0: f64, a1: f64, o: &mut i32) -> f64 {
    let r = libm::remquo(a0, a1);
    *o = r.1;
    r.0
}

#[no_mangle]
pub extern "C" fn h_remquof(a0: f32, a1: f32, o: &mut i32) -> f32 {
    let r = libm::remquof(a0, a1);
    *o = r.1;
    r.0
}

#[no_mangle]
pub extern "C" fn h_rint(a0: f64) -> f64 {
    libm::rint(a0)
}

#[no_mangle]
pub extern "C" fn h_rintf(a0: f32) -> f32 {
    libm::rintf(a0)
}

#[no_mangle]
pub extern "C" fn h_round(a0: f64) -> f64 {
    libm::round(a0)
}

#[no_mangle]
pub extern "C" fn h_roundeven(a0: f64) -> f64 {
    libm::roundeven(a0)
}

#[no_mangle]
pub extern "C" fn h_roundevenf(a0: f32) -> f32 {
    libm::roundevenf(a0)
}

#[no_mangle]
pub extern "C" fn h_roundf(a0: f32) -> f32 {
    libm::roundf(a0)
}

#[no_mangle]
pub extern "C" fn h_scalbn(a0: f64, a1: i32) -> f64 {
    libm::scalbn(a0, a1)
}

#[no_mangle]
pub extern "C" fn h_scalbnf(a0: f32, a1: i32) -> f32 {
    libm::scalbnf(a0, a1)
}

#[no_mangle]
pub extern "C" fn h_sin(a0: f64) -> f64 {
    libm::sin(a0)
}

#[no_mangle]
pub extern "C" fn h_sincos(a0: f64, o: &mut f64) -> f64 {
    let r = libm::sincos(a0);
    *o = r.1;
    r.0
}

#[no_mangle]
pub extern "C" fn h_sincosf(a0: f32, o: &mut f32) -> f32 {
    let r = libm::sincosf(a0);
    *o = r.1;
    r.0
}

#[no_mangle]
pub extern "C" fn h_sinf(a0: f32) -> f32 {
    libm::sinf(a0)
}

#[no_mangle]
pub extern "C" fn h_sinh(a0: f64) -> f64 {
    libm::sinh(a0)
}

#[no_mangle]
pub extern "C" fn h_sinhf(a0: f32) -> f32 {
    libm::sinhf(a0)
}

#[no_mangle]
pub extern "C" fn h_sqrt(a0: f64) -> f64 {
    libm::sqrt(a0)
}

#[no_mangle]
pub extern "C" fn h_sqrtf(a0: f32) -> f32 {
    libm::sqrtf(a0)
}

#[no_mangle]
pub extern "C" fn h_tan(a0: f64) -> f64 {
    libm::tan(a0)
}

#[no_mangle]
pub extern "C" fn h_tanf(a0: f32) -> f32 {
    libm::tanf(a0)
}

#[no_mangle]
pub extern "C" fn h_tanh(a0: f64) -> f64 {
    libm::tanh(a0)
}

#[no_mangle]
pub extern "C" fn h_tanhf(a0: f32) -> f32 {
    libm::tanhf(a0)
}

#[no_mangle]
pub extern "C" fn h_tgamma(a0: f64) -> f64 {
    libm::tgamma(a0)
}

#[no_mangle]
pub extern "C" fn h_tgammaf(a0: f32) -> f32 {
    libm::tgammaf(a0)
}

#[no_mangle]
pub extern "C" fn h_trunc(a0: f64) -> f64 {
    libm::trunc(a0)
}

#[no_mangle]
pub extern "C" fn h_truncf(a0: f32) -> f32 {
    libm::truncf(a0)
}

#[no_mangle]
pub extern "C" fn h_y0(a0: f64) -> f64 {
    libm::y0(a0)
}

#[no_mangle]
pub extern "C" fn h_y0f(a0: f32) -> f32 {
    libm::y0f(a0)
}

#[no_mangle]
pub extern "C" fn h_y1(a0: f64) -> f64 {
    libm::y1(a0)
}

#[no_mangle]
pub extern "C" fn h_y1f(a0: f32) -> f32 {
    libm::y1f(a0)
}

#[no_mangle]
pub extern "C" fn h_yn(a0: i32, a1: f64) -> f64 {
    libm::yn(a0, a1)
}

#[no_mangle]
pub extern "C" fn h_ynf(a0: i32, a1: f32) -> f32 {
    libm::ynf(a0, a1)
}

#[no_mangle]
pub extern "C" fn h_ceilf128(a0: f128) -> f128 {
    libm::ceilf128(a0)
}

#[no_mangle]
pub extern "C" fn h_ceilf16(a0: f16) -> f16 {
    libm::ceilf16(a0)
}

#[no_mangle]
pub extern "C" fn h_copysignf128(a0: f128, a1: f128) -> f128 {
    libm::copysignf128(a0, a1)
}

#[no_mangle]
pub extern "C" fn h_copysignf16(a0: f16, a1: f16) -> f16 {
    libm::copysignf16(a0, a1)
}

#[no_mangle]
pub extern "C" fn h_fabsf128(a0: f128) -> f128 {
    libm::fabsf128(a0)
}

#[no_mangle]
pub extern "C" fn h_fabsf16(a0: f16) -> f16 {
    libm::fabsf16(a0)
}

#[no_mangle]
pub extern "C" fn h_fdimf128(a0: f128, a1: f128) -> f128 {
    libm::fdimf128(a0, a1)
}

#[no_mangle]
pub extern "C" fn h_fdimf16(a0: f16, a1: f16) -> f16 {
    libm::fdimf16(a0, a1)
}

#[no_mangle]
pub extern "C" fn h_floorf128(a0: f128) -> f128 {
    libm::floorf128(a0)
}

#[no_mangle]
pub extern "C" fn h_floorf16(a0: f16) -> f16 {
    libm::floorf16(a0)
}

#[no_mangle]
pub extern "C" fn h_fmaf128(a0: f128, a1: f128, a2: f128) -> f128 {
    libm::fmaf128(a0, a1, a2)
}

#[no_mangle]
pub extern "C" fn h_fmaf16(a0: f16, a1: f16, a2: f16) -> f16 {
    libm::fmaf16(a0, a1, a2)
}

#[no_mangle]
pub extern "C" fn h_fmaxf128(a0: f128, a1: f128) -> f128 {
    libm::fmaxf128(a0, a1)
}

#[no_mangle]
pub extern "C" fn h_fmaxf16(a0: f16, a1: f16) -> f16 {
    libm::fmaxf16(a0, a1)
}

#[no_mangle]
pub extern "C" fn h_fmaximum_numf128(a0: f128, a1: f128) -> f128 {
    libm::fmaximum_numf128(a0, a1)
}

#[no_mangle]
pub extern "C" fn h_fmaximum_numf16(a0: f16, a1: f16) -> f16 {
    libm::fmaximum_numf16(a0, a1)
}

#[no_mangle]
pub extern "C" fn h_fmaximumf128(a0: f128, a1: f128) -> f128 {
    libm::fmaximumf128(a0, a1)
}

#[no_mangle]
pub extern "C" fn h_fmaximumf16(a0: f16, a1: f16) -> f16 {
    libm::fmaximumf16(a0, a1)
}

#[no_mangle]
pub extern "C" fn h_fminf128(a0: f128, a1: f128) -> f128 {
    libm::fminf128(a0, a1)
}

#[no_mangle]
pub extern "C" fn h_fminf16(a0: f16, a1: f16) -> f16 {
    libm::fminf16(a0, a1)
}

#[no_mangle]
pub extern "C" fn h_fminimum_numf128(a0: f128, a1: f128) -> f128 {
    libm::fminimum_numf128(a0, a1)
}

#[no_mangle]
pub extern "C" fn h_fminimum_numf16(a0: f16, a1: f16) -> f16 {
    libm::fminimum_numf16(a0, a1)
}

#[no_mangle]
pub extern "C" fn h_fminimumf128(a0: f128, a1: f128) -> f128 {
    libm::fminimumf128(a0, a1)
}

#[no_mangle]
pub extern "C" fn h_fminimumf16(a0: f16, a1: f16) -> f16 {
    libm::fminimumf16(a0, a1)
}

#[no_mangle]
pub extern "C" fn h_fmodf128(a0: f128, a1: f128) -> f128 {
    libm::fmodf128(a0, a1)
}

#[no_mangle]
pub extern "C" fn h_fmodf16(a0: f16, a1: f16) -> f16 {
    libm::fmodf16(a0, a1)
}

#[no_mangle]
pub extern "C" fn h_frexpf128(a0: f128, o: &mut i32) -> f128 {
    let r = libm::frexpf128(a0);
    *o = r.1;
    r.0
}

#[no_mangle]
pub extern "C" fn h_frexpf16(a0: f16, o: &mut i32) -> f16 {
    let r = libm::frexpf16(a0);
    *o = r.1;
    r.0
}

#[no_mangle]
pub extern "C" fn h_ilogbf128(a0: f128) -> i32 {
    libm::ilogbf128(a0)
}

#[no_mangle]
pub extern "C" fn h_ilogbf16(a0: f16) -> i32 {
    libm::ilogbf16(a0)
}

#[no_mangle]
pub extern "C" fn h_ldexpf128(a0: f128, a1: i32) -> f128 {
    libm::ldexpf128(a0, a1)
}

#[no_mangle]
pub extern "C" fn h_ldexpf16(a0: f16, a1: i32) -> f16 {
    libm::ldexpf16(a0, a1)
}

#[no_mangle]
pub extern "C" fn h_rintf128(a0: f128) -> f128 {
    libm::rintf128(a0)
}

#[no_mangle]
pub extern "C" fn h_rintf16(a0: f16) -> f16 {
    libm::rintf16(a0)
}

#[no_mangle]
pub extern "C" fn h_roundevenf128(a0: f128) -> f128 {
    libm::roundevenf128(a0)
}

#[no_mangle]
pub extern "C" fn h_roundevenf16(a0: f16) -> f16 {
    libm::roundevenf16(a0)
}

#[no_mangle]
pub extern "C" fn h_roundf128(a0: f128) -> f128 {
    libm::roundf128(a0)
}

#[no_mangle]
pub extern "C" fn h_roundf16(a0: f16) -> f16 {
    libm::roundf16(a0)
}

#[no_mangle]
pub extern "C" fn h_scalbnf128(a0: f128, a1: i32) -> f128 {
    libm::scalbnf128(a0, a1)
}

#[no_mangle]
pub extern "C" fn h_scalbnf16(a0: f16, a1: i32) -> f16 {
    libm::scalbnf16(a0, a1)
}

#[no_mangle]
pub extern "C" fn h_sqrtf128(a0: f128) -> f128 {
    libm::sqrtf128(a0)
}

#[no_mangle]
pub extern "C" fn h_sqrtf16(a0: f16) -> f16 {
    libm::sqrtf16(a0)
}

#[no_mangle]
pub extern "C" fn h_truncf128(a0: f128) -> f128 {
    libm::truncf128(a0)
}

#[no_mangle]
pub extern "C" fn h_truncf16(a0: f16) -> f16 {
    libm::truncf16(a0)
}
