//! Verification stand-in for rustfft (see DESIGN.md, "Stand-ins").
pub mod num_traits { pub trait Zero { fn zero() -> Self; } 
  impl Zero for f64 { fn zero() -> f64 { 0.0 } } }
pub mod num_complex {
    #[derive(Clone, Copy, Debug, PartialEq)]
    pub struct Complex<T> { pub re: T, pub im: T }
    pub type Complex64 = Complex<f64>;
    impl Complex<f64> {
        pub fn new(re: f64, im: f64) -> Self { Self { re, im } }
        pub fn norm_sqr(&self) -> f64 { self.re * self.re + self.im * self.im }
    }
    impl crate::num_traits::Zero for Complex<f64> { fn zero() -> Self { Complex { re: 0.0, im: 0.0 } } }
}
use num_complex::Complex;
use std::sync::Arc;
pub trait FftNum {}
impl FftNum for f64 {}
pub trait Fft<T: FftNum> {
    fn process_with_scratch(&self, buffer: &mut [Complex<T>], scratch: &mut [Complex<T>]);
    fn process(&self, buffer: &mut [Complex<T>]);
    fn get_inplace_scratch_len(&self) -> usize;
    fn len(&self) -> usize;
}
static mut MIX: bool = false;
/// whether the stand-in transform spreads its inputs over the low outputs or leaves them in place
pub fn vp_mix(on: bool) { unsafe { MIX = on; } }
struct Identity(usize);
impl Fft<f64> for Identity {
    fn process_with_scratch(&self, b: &mut [Complex<f64>], _s: &mut [Complex<f64>]) {
        if !unsafe { MIX } { return; }
        // output k depends on inputs 2k and 2k + 1
        let n = b.len();
        let v: Vec<f64> = b.iter().map(|c| c.re).collect();
        for k in 0..n { b[k] = Complex { re: v[2 * k % n], im: v[(2 * k + 1) % n] }; }
    }
    fn process(&self, b: &mut [Complex<f64>]) { self.process_with_scratch(b, &mut []) }
    fn get_inplace_scratch_len(&self) -> usize { self.0 }
    fn len(&self) -> usize { self.0 }
}
pub struct FftPlanner<T: FftNum>(std::marker::PhantomData<T>);
impl FftPlanner<f64> {
    pub fn new() -> Self { FftPlanner(std::marker::PhantomData) }
    pub fn plan_fft_forward(&mut self, len: usize) -> Arc<dyn Fft<f64>> { Arc::new(Identity(len)) }
}
