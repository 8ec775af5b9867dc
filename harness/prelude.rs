// Shared vocabulary of the harnesses.  Symbolically, these externs are interpreted by the
// engine; natively, by harness/run (which replays recorded values).
#[allow(dead_code, non_snake_case)]
mod vp {
    mod ffi {
        macro_rules! decl { ($abi:literal) => { extern $abi {
            pub fn nd_u8() -> u8;
            pub fn nd_u16() -> u16;
            pub fn nd_u32() -> u32;
            pub fn nd_u64() -> u64;
            pub fn nd_bool() -> bool;
            pub fn nd_upto(max: u64) -> u64;
            pub fn nd_fint(bits: u32, signed: bool) -> f64;
            pub fn nd_real(lo: f64, hi: f64) -> f64;
            pub fn vp_assume(c: bool);
            pub fn vp_assert(c: bool, id: u32);
            pub fn vp_trace(v: u64);
            pub fn vp_reach(id: u32);
            pub fn vp_fork(x: u64, max: u64) -> u64;
            pub fn vp_args(argc: usize, argv: *const *const i8);
        } } }
        #[cfg(vp_ir)]
        decl!("C");
        #[cfg(not(vp_ir))]
        decl!("C-unwind");
    }
    pub fn u8() -> u8 { unsafe { ffi::nd_u8() } }
    pub fn u16() -> u16 { unsafe { ffi::nd_u16() } }
    pub fn i16() -> i16 { unsafe { ffi::nd_u16() as i16 } }
    pub fn u32() -> u32 { unsafe { ffi::nd_u32() } }
    pub fn u64() -> u64 { unsafe { ffi::nd_u64() } }
    pub fn bool() -> bool { unsafe { ffi::nd_bool() } }
    /// any integer in 0..=max
    pub fn upto(max: u64) -> u64 { unsafe { ffi::nd_upto(max) } }
    /// any f64 bit pattern
    pub fn f64() -> f64 { f64::from_bits(u64()) }
    /// a double with any integer value of the given width
    pub fn fint(bits: u32, signed: bool) -> f64 { unsafe { ffi::nd_fint(bits, signed) } }
    /// a double in [lo, hi]
    pub fn real(lo: f64, hi: f64) -> f64 { unsafe { ffi::nd_real(lo, hi) } }
    pub fn near(a: f64, b: f64, tol: f64) -> bool { (a - b).abs() <= tol }
    pub fn assume(c: bool) { unsafe { ffi::vp_assume(c) } }
    pub fn assert(c: bool, id: u32) { unsafe { ffi::vp_assert(c, id) } }
    /// a value compared between the symbolic execution and the native replay of a witness
    pub fn trace(v: u64) { unsafe { ffi::vp_trace(v) } }
    pub fn trace_f(v: f64) { unsafe { ffi::vp_trace(v.to_bits()) } }
    /// this point must be reachable; its first visit yields a concrete witness
    pub fn reach(id: u32) { unsafe { ffi::vp_reach(id) } }
    /// case split: explore every feasible value of x (0..=max) separately
    pub fn fork(x: usize, max: usize) -> usize { unsafe { ffi::vp_fork(x as u64, max as u64) as usize } }
    /// the command line; natively the replay program is started with it
    pub fn args(a: &'static [*const i8]) { unsafe { ffi::vp_args(a.len(), a.as_ptr()) } }
    /// any length in 0..=max, one case each
    pub fn len(max: usize) -> usize { fork(upto(max as u64) as usize, max) }
    pub fn range(lo: usize, hi: usize) -> usize { lo + fork(upto((hi - lo) as u64) as usize, hi - lo) }
    pub fn feq(a: f64, b: f64) -> bool { a.to_bits() == b.to_bits() }

    // The one generic instantiation whose body the standard library ships precompiled (so it
    // is not in the IR): `RawVec<u8>::grow_one`.  Same policy, [cap, ptr] layout.
    #[no_mangle]
    pub unsafe extern "C" fn vp_grow_one_u8(s: *mut [usize; 2]) {
        use std::alloc::*;
        let cap = (*s)[0];
        let nc = core::cmp::max(cap * 2, 8);
        let p = if cap == 0 {
            alloc(Layout::from_size_align_unchecked(nc, 1))
        } else {
            realloc((*s)[1] as *mut core::primitive::u8, Layout::from_size_align_unchecked(cap, 1), nc)
        };
        (*s)[1] = p as usize;
        (*s)[0] = nc;
    }
}
#[allow(unused_macros)]
macro_rules! entries { ($($f:ident),* $(,)?) => {
    pub const ENTRIES: &[(&str, extern "C-unwind" fn())] = &[$((stringify!($f), $f as extern "C-unwind" fn())),*];
} }
#[allow(unused_macros)]
macro_rules! h { ($($f:ident $b:block)*) => { $(#[no_mangle] pub extern "C-unwind" fn $f() $b)* } }
