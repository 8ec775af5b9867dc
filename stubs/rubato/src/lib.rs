//! Verification stand-in for rubato 0.16.
use std::fmt;
pub enum ResamplerConstructionError { InvalidRelativeRatio(f64), InvalidRatio(f64) }
impl fmt::Display for ResamplerConstructionError { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("x") } }
impl fmt::Debug for ResamplerConstructionError { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("x") } }
impl std::error::Error for ResamplerConstructionError {}
#[derive(Debug)]
pub enum ResampleError { InvalidChunkSize, InsufficientInputBufferSize, InsufficientOutputBufferSize, WrongNumberOfChannels }
impl fmt::Display for ResampleError { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("x") } }
impl std::error::Error for ResampleError {}
pub type ResampleResult<T> = Result<T, ResampleError>;
pub enum SincInterpolationType { Cubic, Quadratic, Linear, Nearest }
pub enum WindowFunction { Blackman, Blackman2, BlackmanHarris, BlackmanHarris2, Hann, Hann2 }
pub struct SincInterpolationParameters { pub sinc_len: usize, pub f_cutoff: f32, pub oversampling_factor: usize, pub interpolation: SincInterpolationType, pub window: WindowFunction }
pub struct SincFixedIn<T> { chunk: usize, max_chunk: usize, channels: usize, ratio: f64, last: f64, p: std::marker::PhantomData<T> }
pub trait Resampler<T> {
    fn process_into_buffer<Vin: AsRef<[T]>, Vout: AsMut<[T]>>(&mut self, wave_in: &[Vin], wave_out: &mut [Vout], m: Option<&[bool]>) -> ResampleResult<(usize, usize)>;
    fn output_frames_max(&self) -> usize;
    fn output_frames_next(&self) -> usize;
    fn input_frames_max(&self) -> usize;
    fn input_frames_next(&self) -> usize;
    fn set_chunk_size(&mut self, chunksize: usize) -> ResampleResult<()>;
    fn reset(&mut self);
    fn nbr_channels(&self) -> usize { 1 }
    fn output_delay(&self) -> usize { 1 }
    fn process<Vin: AsRef<[T]>>(&mut self, wave_in: &[Vin], m: Option<&[bool]>) -> ResampleResult<Vec<Vec<T>>> where T: Default + Clone {
        let mut o = vec![vec![T::default(); self.output_frames_next()]; wave_in.len()];
        let (_, n) = self.process_into_buffer(wave_in, &mut o, m)?;
        for v in o.iter_mut() { v.truncate(n); }
        Ok(o)
    }
    fn input_buffer_allocate(&self, filled: bool) -> Vec<Vec<T>> where T: Default + Clone { vec![if filled { vec![T::default(); self.input_frames_max()] } else { Vec::with_capacity(self.input_frames_max()) }; self.nbr_channels()] }
    fn output_buffer_allocate(&self, filled: bool) -> Vec<Vec<T>> where T: Default + Clone { vec![if filled { vec![T::default(); self.output_frames_max()] } else { Vec::with_capacity(self.output_frames_max()) }; self.nbr_channels()] }
}
/// what the code under test did with its resamplers, for the harnesses
pub struct Log { pub created: Vec<(f64, usize)>, pub calls: Vec<Vec<f64>>, pub out: Vec<f64>, pub failures: usize, pub counts: [usize; 3] }
impl Log { pub fn clear(&mut self) { self.created.clear(); self.calls.clear(); self.out.clear(); self.failures = 0; self.counts = [usize::MAX; 3]; } }
static mut LOG: Log = Log { created: Vec::new(), calls: Vec::new(), out: Vec::new(), failures: 0, counts: [usize::MAX; 3] };
#[allow(static_mut_refs)]
pub fn vp_log() -> &'static mut Log { unsafe { &mut LOG } }
fn fail<T>(e: ResampleError) -> ResampleResult<T> { vp_log().failures += 1; Err(e) }
impl SincFixedIn<f64> {
    pub fn new(ratio: f64, rel: f64, _p: SincInterpolationParameters, chunk: usize, channels: usize) -> Result<Self, ResamplerConstructionError> {
        if !(ratio > 0.0) { return Err(ResamplerConstructionError::InvalidRatio(ratio)); }
        if !(rel >= 1.0) { return Err(ResamplerConstructionError::InvalidRelativeRatio(rel)); }
        vp_log().created.push((ratio, chunk));
        Ok(Self { chunk, max_chunk: chunk, channels, ratio, last: 0.0, p: std::marker::PhantomData })
    }
}
impl Resampler<f64> for SincFixedIn<f64> {
    fn process_into_buffer<Vin: AsRef<[f64]>, Vout: AsMut<[f64]>>(&mut self, wave_in: &[Vin], wave_out: &mut [Vout], _m: Option<&[bool]>) -> ResampleResult<(usize, usize)> {
        if wave_in.len() != self.channels || wave_out.len() != self.channels { return fail(ResampleError::WrongNumberOfChannels); }
        let i = wave_in[0].as_ref();
        if i.len() < self.chunk { return fail(ResampleError::InsufficientInputBufferSize); }
        let o = wave_out[0].as_mut();
        if o.len() < self.output_frames_next() { return fail(ResampleError::InsufficientOutputBufferSize); }
        // by default the input delayed by one sample, else as many recognisable values as the harness asked for
        let log = vp_log();
        let want = log.counts[log.calls.len() % 3];
        let n = if want == usize::MAX { self.chunk } else { want.min(self.output_frames_next()) };
        for k in 0..n { o[k] = if want == usize::MAX { if k == 0 { self.last } else { i[k - 1] } } else { (1000 * (log.calls.len() + 1) + k) as f64 }; log.out.push(o[k]); }
        self.last = i[self.chunk - 1];
        log.calls.push(i[..self.chunk].to_vec());
        Ok((self.chunk, n))
    }
    fn output_frames_max(&self) -> usize { self.max_chunk + 2 }
    fn output_frames_next(&self) -> usize { self.chunk + 2 }
    fn input_frames_max(&self) -> usize { self.max_chunk }
    fn input_frames_next(&self) -> usize { self.chunk }
    fn set_chunk_size(&mut self, c: usize) -> ResampleResult<()> { if c > self.max_chunk || c == 0 { return fail(ResampleError::InvalidChunkSize); } self.chunk = c; Ok(()) }
    fn reset(&mut self) { self.chunk = self.max_chunk; self.last = 0.0; }
}
