//! Stand-in for the library: records what it is fed and yields items that name their origin.
use std::fmt;
/// the recorder: frames consumed, in order, with the places of finish and start between them
pub struct World {
    pub id: u8, pub starts: usize, pub rate: u32, pub channels: u32, pub misuse: u32,
    /// every sample consumed, over all starts
    pub heard: [i16; 256], pub heard_len: usize,
    /// consumed samples at the n-th finish
    pub finishes: [usize; 24], pub finish_len: usize,
    pub start_at: [usize; 24], pub rates: [u32; 24], pub chans: [u32; 24],
    /// frames per item, frames before the first, whether items show before finish
    pub hop: usize, pub lag: usize, pub eager: bool,
    /// items as given by the harness instead, for each start
    pub fixed: [[u32; 4]; 4], pub use_fixed: bool,
    pub delay: usize, pub config_rate: u32,
}
static mut WORLD: World = World { id: 255, starts: 0, rate: 0, channels: 0, misuse: 0, heard: [0; 256], heard_len: 0, finishes: [0; 24], finish_len: 0, start_at: [0; 24], rates: [0; 24], chans: [0; 24], hop: 1, lag: 0, eager: false, fixed: [[0; 4]; 4], use_fixed: false, delay: 0, config_rate: 0 };
#[allow(static_mut_refs)]
pub fn vp_world() -> &'static mut World { unsafe { &mut WORLD } }

#[derive(Clone, Debug)]
pub struct Configuration { id: u8 }
impl Configuration {
    fn new(id: u8) -> Self { Configuration { id } }
    pub fn with_id(mut self, id: u8) -> Self { self.id = id; self }
    pub fn preset_test1() -> Self { Self::new(0) }
    pub fn preset_test2() -> Self { Self::new(1) }
    pub fn preset_test3() -> Self { Self::new(2) }
    pub fn preset_test4() -> Self { Self::new(3) }
    pub fn preset_test5() -> Self { Self::new(4) }
    pub fn id(&self) -> u8 { self.id }
    pub fn sample_rate(&self) -> u32 { vp_world().config_rate }
    pub fn delay(&self) -> usize { vp_world().delay }
    pub fn item_duration_in_seconds(&self) -> f32 { vp_world().hop as f32 / vp_world().config_rate as f32 }
}
impl Default for Configuration { fn default() -> Self { Self::preset_test2() } }

#[derive(Debug)]
pub enum ResetError { SampleRateTooLow, NoChannels, CannotResample }
impl fmt::Display for ResetError { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("error") } }
impl std::error::Error for ResetError {}

pub struct Fingerprinter { run: usize, samples: usize, started: bool, items: Vec<u32> }
impl Fingerprinter {
    pub fn new(c: &Configuration) -> Self { vp_world().id = c.id; Fingerprinter { run: 0, samples: 0, started: false, items: Vec::with_capacity(64) } }
    pub fn start(&mut self, rate: u32, channels: u32) -> Result<(), ResetError> {
        let w = vp_world();
        w.rate = rate; w.channels = channels;
        w.start_at[w.starts] = w.heard_len; w.rates[w.starts] = rate; w.chans[w.starts] = channels;
        w.starts += 1;
        self.run = w.starts; self.samples = 0; self.started = true; self.items.clear();
        Ok(())
    }
    pub fn consume(&mut self, data: &[i16]) {
        let w = vp_world();
        if !self.started { w.misuse |= 1; }
        if data.len() % w.channels as usize != 0 { w.misuse |= 2; }
        let mut i = 0;
        while i < data.len() { w.heard[w.heard_len] = data[i]; w.heard_len += 1; i += 1; }
        self.samples += data.len();
        if w.eager { self.show(); }
    }
    pub fn finish(&mut self) { let w = vp_world(); w.finishes[w.finish_len] = w.heard_len; w.finish_len += 1; self.show(); }
    fn show(&mut self) {
        let w = vp_world();
        let frames = self.samples / w.channels as usize;
        let n = if frames < w.lag { 0 } else { (frames - w.lag) / w.hop };
        while self.items.len() < n { let k = self.items.len(); self.items.push(if w.use_fixed { w.fixed[self.run - 1][k] } else { (self.run * 100 + k) as u32 }); }
    }
    pub fn fingerprint(&self) -> &[u32] { &self.items }
}

pub struct FingerprintCompressor<'a>(&'a Configuration);
impl<'a> FingerprintCompressor<'a> {
    /// injective: the id and the bytes of the items
    pub fn compress(&self, f: &[u32]) -> Vec<u8> {
        let mut v = Vec::with_capacity(1 + f.len() * 4);
        v.push(self.0.id);
        let mut i = 0;
        while i < f.len() { let x = f[i]; v.push(x as u8); v.push((x >> 8) as u8); v.push((x >> 16) as u8); v.push((x >> 24) as u8); i += 1; }
        v
    }
}
impl<'a> From<&'a Configuration> for FingerprintCompressor<'a> { fn from(c: &'a Configuration) -> Self { FingerprintCompressor(c) } }

// compare: the times of a segment are chosen by the harness
#[derive(Clone, Debug)]
pub struct Segment { pub offset1: usize, pub offset2: usize, pub items_count: usize, pub score: f64, pub times: [f32; 5] }
impl Segment {
    pub fn start1(&self, _: &Configuration) -> f32 { self.times[0] }
    pub fn end1(&self, _: &Configuration) -> f32 { self.times[1] }
    pub fn start2(&self, _: &Configuration) -> f32 { self.times[2] }
    pub fn end2(&self, _: &Configuration) -> f32 { self.times[3] }
    pub fn duration(&self, _: &Configuration) -> f32 { self.times[4] }
}
#[derive(Debug)]
pub enum MatchError { FingerprintTooLong { index: u8 } }
impl fmt::Display for MatchError { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("error") } }
impl std::error::Error for MatchError {}
pub static mut MATCHED: fn(&[u32], &[u32], &Configuration) -> Vec<Segment> = no_match;
fn no_match(_: &[u32], _: &[u32], _: &Configuration) -> Vec<Segment> { Vec::new() }
pub fn match_fingerprints(a: &[u32], b: &[u32], c: &Configuration) -> Result<Vec<Segment>, MatchError> { Ok(unsafe { MATCHED(a, b, c) }) }
