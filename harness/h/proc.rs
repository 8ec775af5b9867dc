include!("../prelude.rs");
use crate::audio_processor::{AudioProcessor, ResetError};
use crate::stages::{AudioConsumer, Stage};
use crate::{Configuration, Fingerprinter};

/// keeps what it is given
struct Sink { data: Vec<f64>, resets: usize }
impl Stage for Sink { type Output = [f64]; fn output(&self) -> &[f64] { &self.data } }
impl AudioConsumer<f64> for Sink {
    fn reset(&mut self) { self.data.clear(); self.resets += 1; }
    fn consume(&mut self, d: &[f64]) { self.data.extend_from_slice(d); }
    fn flush(&mut self) {}
}
const RATE: u32 = 11025;
fn new(rate: u32, channels: u32) -> AudioProcessor<Sink> {
    let mut p = AudioProcessor::new(RATE, Sink { data: vec![], resets: 0 });
    vp::assert(p.reset(rate, channels).is_ok(), 1);
    p
}
fn samples(n: usize) -> Vec<i16> { let mut a = vec![]; for _ in 0..n { a.push(vp::i16()); } a }
/// v is the scaled form of the integer m
fn scaled(v: f64, m: i32) -> bool { let want = m as f64 / 32767.0; vp::feq(v, want) | vp::near(v, want, 1e-9) }
fn mean(f: &[i16]) -> i32 { let mut s = 0i32; for &v in f { s += v as i32; } s / f.len() as i32 }
fn check(out: &[f64], x: &[i16], ch: usize, id: u32) {
    vp::assert(out.len() == x.len() / ch, id);
    let mut ok = true;
    for (v, f) in out.iter().zip(x.chunks_exact(ch)) { ok &= scaled(*v, mean(f)); }
    vp::assert(ok, id + 1);
}

// ------------------------------------------------------------------ mixing
fn t_mix(ch: usize, frames: usize, id: u32) {
    let x = samples(frames * ch);
    let mut p = new(RATE, ch as u32);
    p.consume(&x);
    p.flush();
    check(p.output(), &x, ch, id + 1);
    vp::reach(id);
}
/// many frames in one call or a few
fn t_many(ch: usize, frames: usize, calls: usize, id: u32) {
    let mut x = vec![0i16; frames * ch];
    for k in 0..x.len() { x[k] = if k % 9973 == 77 { vp::i16() } else { (k * k % 30011) as i16 }; }
    let mut p = new(RATE, ch as u32);
    for c in x.chunks((frames / calls + 1) * ch) { p.consume(c); }
    p.flush();
    check(p.output(), &x, ch, id + 1);
    vp::reach(id);
}
/// the extreme sample values, any mixture of them, with many channels
fn t_extreme(ch: usize, step: usize, id: u32) {
    let lo = vp::len(ch / step) * step;
    let v = [vp::i16(), vp::i16()];
    let mut x = vec![i16::MAX; ch];
    for k in 0..lo { x[k] = i16::MIN; }
    if ch > 2 { x[0] = v[0]; x[ch - 1] = v[1]; }
    let mut p = new(RATE, ch as u32);
    p.consume(&x);
    p.flush();
    check(p.output(), &x, ch, id + 1);
    vp::reach(id);
}

// ------------------------------------------------------------------ splitting
fn t_split(ch: usize, max: usize, cuts: usize, flushes: bool, id: u32) {
    let x = samples(max * ch);
    let c = [vp::upto(max as u64), vp::upto(max as u64), vp::upto(max as u64)];
    let fl = [vp::bool(), vp::bool(), vp::bool()];
    let n = vp::len(max);
    let mut p = new(RATE, ch as u32);
    let mut at = 0;
    for k in 0..cuts {
        let to = vp::fork(c[k] as usize, max);
        vp::assume(to >= at && to <= n);
        p.consume(&x[at * ch..to * ch]);
        at = to;
        if flushes && vp::fork(fl[k] as usize, 1) == 1 { p.flush(); vp::assert(p.output().len() == at, id + 3); }
    }
    p.consume(&x[at * ch..n * ch]);
    p.flush();
    check(p.output(), &x[..n * ch], ch, id + 1);
    vp::reach(id);
}

// ------------------------------------------------------------------ resampling
fn t_resample(ch: usize, max: usize, cuts: usize, flushes: bool, counts: [usize; 3], id: u32) {
    let x = samples(max * ch);
    let rate = 1001 + vp::upto((u32::MAX - 1001) as u64) as u32;
    let c = [vp::upto(max as u64), vp::upto(max as u64), vp::upto(max as u64)];
    let fl = [vp::bool(), vp::bool(), vp::bool()];
    let n = vp::len(max);
    vp::assume(rate != RATE);
    let log = rubato::vp_log();
    log.clear();
    log.counts = counts;
    let mut p = new(rate, ch as u32);
    vp::assert(log.created.len() == 1, id + 1);
    let (ratio, block) = log.created[0];
    vp::assert(vp::feq(ratio, RATE as f64 / rate as f64), id + 2);
    let mut at = 0;
    let mut ends = vec![]; // positions at which the stream was finished
    for k in 0..cuts {
        let to = vp::fork(c[k] as usize, max);
        vp::assume(to >= at && to <= n);
        p.consume(&x[at * ch..to * ch]);
        at = to;
        if flushes && vp::fork(fl[k] as usize, 1) == 1 { p.flush(); ends.push(at); }
    }
    p.consume(&x[at * ch..n * ch]);
    p.flush();
    ends.push(n);
    // full blocks, one shorter block before every end
    let (mut want, mut from) = (vec![], 0);
    for e in ends { while from < e { let l = (e - from).min(block); want.push(l); from += l; } }
    vp::assert(log.failures == 0, id + 3);
    vp::assert(log.created.len() == 1, id + 1);
    vp::assert(log.calls.len() == want.len(), id + 4);
    let mut all = vec![];
    for (b, w) in log.calls.iter().zip(&want) { vp::assert(b.len() == *w, id + 5); all.extend_from_slice(b); }
    check(&all, &x[..n * ch], ch, id + 6);
    // everything produced, and nothing else, went on in order
    vp::assert(p.output().len() == log.out.len(), id + 8);
    let mut ok = true;
    for (a, b) in p.output().iter().zip(&log.out) { ok &= vp::feq(*a, *b); }
    vp::assert(ok, id + 9);
    vp::reach(id);
}
fn t_counts(max: usize, id: u32) { let c = [vp::len(6), vp::len(6), vp::len(6)]; t_resample(1, max, 0, false, c, id); }
/// streams at the target rate never meet a resampler, also after one that did
fn t_bypass(id: u32) {
    let x = samples(9); let y = samples(6); let r = vp::upto(4);
    let before = vp::len(6); let n = vp::len(9);
    let r = vp::fork(r as usize, 4);
    let log = rubato::vp_log();
    log.clear();
    log.counts = [3, 5, 4];
    let mut p = AudioProcessor::new(RATE, Sink { data: vec![], resets: 0 });
    if r > 0 {
        vp::assert(p.reset([0, 22050, 44100, 8000, RATE][r], 1).is_ok(), id + 1);
        p.consume(&y[..before]);
    }
    let calls = log.calls.len();
    vp::assert(p.reset(RATE, 1).is_ok(), id + 1);
    p.consume(&x[..n]);
    p.flush();
    vp::assert(log.calls.len() == calls, id + 2);
    vp::assert(log.created.len() == (r > 0 && r < 4) as usize, id + 2);
    check(p.output(), &x[..n], 1, id + 3);
    vp::reach(id);
}

// ------------------------------------------------------------------ start
fn kind(r: Result<(), ResetError>) -> u32 { match r { Ok(()) => 0, Err(ResetError::NoChannels) => 1, Err(ResetError::SampleRateTooLow) => 2, Err(_) => 3 } }
fn small() -> Configuration { Configuration::preset_test2().with_frame_size(16).with_frame_overlap(8).with_coefficients(vec![1.0]) }
/// any rate and channel count, one case per documented outcome
struct Args { low: u32, high: u32, class: usize, ch: u32 }
fn args() -> Args { Args { low: vp::upto(1000) as u32, high: 1001 + vp::upto((u32::MAX - 1001) as u64) as u32, class: vp::upto(2) as usize, ch: 1 + vp::upto(u32::MAX as u64 - 1) as u32 } }
fn begin(f: &mut Fingerprinter, a: &Args, any: u32, id: u32) {
    let class = vp::fork(a.class, 2);
    let (rate, ch) = match class { 0 => (any, 0), 1 => (a.low, a.ch), _ => (if vp::fork((a.high == RATE) as usize, 1) == 1 { RATE } else { a.high }, a.ch) };
    let k = kind(f.start(rate, ch));
    vp::assert(k == [1, 2, 0][class], id);
    vp::trace(k as u64);
}
fn t_start(id: u32) {
    let (a, b, c) = (args(), args(), vp::u32());
    rubato::vp_log().clear();
    let mut f = Fingerprinter::new(&small());
    begin(&mut f, &a, c, id + 1);
    begin(&mut f, &b, c, id + 1);
    vp::reach(id);
}
fn t_start_busy(id: u32) {
    let (a, c) = (args(), vp::u32());
    let fin = vp::fork(vp::bool() as usize, 1);
    let first = vp::fork(vp::bool() as usize, 1);
    let n = vp::len(7);
    let x = [3i16; 7];
    rubato::vp_log().clear();
    let mut f = Fingerprinter::new(&small());
    vp::assert(kind(f.start(if first == 1 { RATE } else { 44100 }, 1)) == 0, id + 2);
    f.consume(&x[..n]);
    if fin == 1 { f.finish(); }
    begin(&mut f, &a, c, id + 1);
    vp::reach(id);
}
h! {
h_many1 { t_many(1, 70001, 1, 100) }
h_many2 { t_many(2, 3000, 3, 100) }
h_mix1 { t_mix(1, 9, 100) }
h_mix2 { t_mix(2, 9, 100) }
h_mix3 { t_mix(3, 6, 100) }
h_mix4 { t_mix(4, 6, 100) }
h_mix5 { t_mix(5, 5, 100) }
h_mix8 { t_mix(8, 5, 100) }
h_ext1 { t_extreme(1, 1, 110) }
h_ext2 { t_extreme(2, 1, 110) }
h_ext6 { t_extreme(6, 1, 110) }
h_ext255 { t_extreme(255, 15, 110) }
h_ext1000 { t_extreme(1000, 125, 110) }
h_ext40 { t_extreme(40, 1, 110) }
h_split1 { t_split(1, 14, 2, false, 200) }
h_split1f { t_split(1, 9, 2, true, 200) }
h_split2 { t_split(2, 9, 2, true, 200) }
h_split4 { t_split(1, 9, 3, true, 200) }
h_split3 { t_split(3, 9, 2, true, 200) }
h_res1 { t_resample(1, 9, 2, false, [3, 5, 4], 300) }
h_res1f { t_resample(1, 9, 2, true, [6, 0, 3], 300) }
h_res2 { t_resample(2, 9, 1, true, [3, 5, 4], 300) }
h_resc { t_counts(10, 300) }
h_bypass { t_bypass(400) }
h_start { t_start(500) }
h_busy { t_start_busy(500) }
}
entries!(h_many1, h_many2, h_mix1, h_mix2, h_mix3, h_mix4, h_mix5, h_mix8, h_ext1, h_ext2, h_ext6, h_ext40, h_ext255, h_ext1000, h_split1, h_split1f, h_split2, h_split4, h_split3, h_res1, h_res1f, h_res2, h_resc, h_bypass, h_start, h_busy);
