include!("../prelude.rs");
use crate::chroma::Chroma;
use crate::chroma_filter::ChromaFilter;
use crate::chroma_normalizer::ChromaNormalizer;
use crate::fft::Fft;
use crate::stages::{AudioConsumer, FeatureVectorConsumer, Stage};

/// keeps what it is given
struct Sink { rows: Vec<Vec<f64>>, resets: usize }
impl Sink { fn new() -> Sink { Sink { rows: vec![], resets: 0 } } }
impl Stage for Sink { type Output = [Vec<f64>]; fn output(&self) -> &[Vec<f64>] { &self.rows } }
impl FeatureVectorConsumer for Sink {
    fn consume(&mut self, f: &[f64]) { self.rows.push(f.to_vec()); }
    fn reset(&mut self) { self.rows.clear(); self.resets += 1; }
}
/// identical, or within tol
fn close(a: f64, b: f64, tol: f64) -> bool { vp::feq(a, b) | vp::near(a, b, tol) }

// ------------------------------------------------------------------ spectra
fn t_fft<const MAX: usize>(frame: usize, overlap: usize, cuts: usize, id: u32) {
    let mut x = [0.0; MAX];
    for v in x.iter_mut() { *v = vp::real(-1.0, 1.0); }
    let c: [u64; 3] = [vp::upto(MAX as u64), vp::upto(MAX as u64), vp::upto(MAX as u64)];
    let n = vp::len(MAX);
    let hop = frame - overlap;
    let mut f = Fft::new(frame, overlap, Sink::new());
    let mut at = 0;
    for k in 0..cuts + 1 {
        let to = if k < cuts { let t = vp::fork(c[k] as usize, MAX); vp::assume(t >= at && t <= n); t } else { n };
        f.consume(&x[at..to]);
        at = to;
        // produced as soon as the last sample of the frame is there
        let want = if at >= frame { (at - frame) / hop + 1 } else { 0 };
        vp::assert(f.output().len() == want, id + 1);
    }
    f.flush();
    let rows = f.output();
    vp::assert(rows.len() == if n >= frame { (n - frame) / hop + 1 } else { 0 }, id + 2);
    for k in 0..rows.len() {
        vp::assert(rows[k].len() >= frame / 2, id + 3);
        let mut ok = true;
        for i in 0..frame / 2 {
            let w = 0.54 - 0.46 * (2.0 * std::f64::consts::PI * i as f64 / (frame - 1) as f64).cos();
            let s = x[k * hop + i] * w;
            ok &= close(rows[k][i].sqrt(), (s * s).sqrt(), 1e-6) & (rows[k][i] >= 0.0);
        }
        vp::assert(ok, id + 4);
    }
    vp::reach(id);
}
/// the sizes of a preset: concrete chunking, arbitrary samples
fn t_fft_big(frame: usize, overlap: usize, n: usize, chunk: usize, id: u32) {
    let mut x = vec![];
    for _ in 0..n { x.push(vp::real(-1.0, 1.0)); }
    let hop = frame - overlap;
    let mut f = Fft::new(frame, overlap, Sink::new());
    for c in x.chunks(chunk) { f.consume(c); }
    f.flush();
    let rows = f.output();
    vp::assert(rows.len() == (n - frame) / hop + 1, id + 2);
    for k in 0..rows.len() {
        let mut ok = true;
        for i in 0..frame / 2 {
            let w = 0.54 - 0.46 * (2.0 * std::f64::consts::PI * i as f64 / (frame - 1) as f64).cos();
            let s = x[k * hop + i] * w;
            ok &= close(rows[k][i].sqrt(), (s * s).sqrt(), 1e-6);
        }
        vp::assert(ok, id + 4);
    }
    vp::reach(id);
}

// ------------------------------------------------------------------ notes
/// (first, past the last) analysed bin
fn bins(min: u32, max: u32, frame: usize, rate: u32) -> (usize, usize) {
    let at = |f: u32| ((frame as f64 * f as f64 / rate as f64).round()) as usize;
    (at(min).max(1), at(max).min(frame / 2))
}
/// pitch in semitones above A0, as (class 0..12, position within the note 0..1)
fn pitch(i: usize, frame: usize, rate: u32) -> (usize, f64) {
    let p = 12.0 * ((i as f64 * rate as f64 / frame as f64) / 27.5).log2();
    let p = p - 12.0 * (p / 12.0).floor();
    (p.floor() as usize, p - p.floor())
}
fn t_chroma(min: u32, max: u32, frame: usize, rate: u32, frames: usize, id: u32) {
    let mut e = vec![];
    for _ in 0..frames { let mut r = vec![]; for _ in 0..frame / 2 + 1 { r.push(vp::fint(16, false)); } e.push(r); }
    let mut c = Chroma::new(min, max, frame, rate, Sink::new()).with_interpolation(false);
    for r in &e { c.consume(r); }
    let out = c.output();
    vp::assert(out.len() == frames, id + 1);
    let (lo, hi) = bins(min, max, frame, rate);
    for k in 0..frames {
        let mut want = [0.0; 12];
        for i in lo..hi.max(lo) { want[pitch(i, frame, rate).0] += e[k][i]; }
        vp::assert(out[k].len() == 12, id + 2);
        for b in 0..12 { vp::assert(out[k][b] == want[b], id + 3); }
    }
    vp::reach(id);
}
fn t_rchroma(min: u32, max: u32, frame: usize, rate: u32, id: u32) {
    let mut e = vec![];
    for _ in 0..frame / 2 + 1 { e.push(vp::real(0.0, 1.0)); }
    let mut c = Chroma::new(min, max, frame, rate, Sink::new()).with_interpolation(false);
    c.consume(&e);
    let (lo, hi) = bins(min, max, frame, rate);
    let mut want = [0.0; 12];
    for i in (lo..hi).rev() { want[pitch(i, frame, rate).0] += e[i]; }
    for b in 0..12 { vp::assert(vp::near(c.output()[0][b], want[b], 1e-9), id + 3); }
    vp::reach(id);
}
fn t_interp(min: u32, max: u32, frame: usize, rate: u32, frames: usize, id: u32) {
    let mut e = vec![];
    for _ in 0..frames { let mut r = vec![]; for _ in 0..frame / 2 + 1 { r.push(vp::real(0.0, 1.0)); } e.push(r); }
    let mut c = Chroma::new(min, max, frame, rate, Sink::new()).with_interpolation(true);
    for r in &e { c.consume(r); }
    let out = c.output();
    vp::assert(out.len() == frames, id + 1);
    let (lo, hi) = bins(min, max, frame, rate);
    for k in 0..frames {
        let mut want = [0.0; 12];
        for i in lo..hi.max(lo) {
            let (note, frac) = pitch(i, frame, rate);
            // full share at the centre of the note, half at its borders
            let (own, other) = if frac < 0.5 { (0.5 + frac, (note + 11) % 12) } else if frac > 0.5 { (1.5 - frac, (note + 1) % 12) } else { (1.0, note) };
            want[note] += e[k][i] * own;
            want[other] += e[k][i] * (1.0 - own);
        }
        let mut ok = true;
        for b in 0..12 { ok &= close(out[k][b], want[b], 1e-6); }
        vp::assert(ok, id + 3);
    }
    vp::reach(id);
}

// ------------------------------------------------------------------ filter over time
/// a long stream, all but its last vectors fixed
fn t_filterlong<const N: usize>(ns: usize, id: u32) {
    let mut x = [[0.0; 12]; N];
    for (k, r) in x.iter_mut().enumerate() { for (b, v) in r.iter_mut().enumerate() { *v = if k + 12 >= N { vp::fint(8, false) } else { ((k * 7 + b * b) % 31) as f64 }; } }
    let co = [1.0, 2.0, 3.0, 5.0, 7.0, 11.0, 13.0, 17.0];
    let mut f = ChromaFilter::new(co[..ns].to_vec().into_boxed_slice(), Sink::new());
    for k in 0..N { f.consume(&x[k]); }
    let out = f.output();
    vp::assert(out.len() == N + 1 - ns, id + 1);
    for k in 0..out.len() {
        let mut ok = out[k].len() == 12;
        for b in 0..12 {
            let mut s = 0.0;
            for j in 0..ns { s += x[k + j][b] * co[j]; }
            ok &= close(out[k][b], s, 1e-9);
        }
        vp::assert(ok, id + 2);
    }
    vp::reach(id);
}
fn t_filter<const N: usize>(ns: usize, int: bool, id: u32) {
    let mut x = [[0.0; 12]; N];
    for r in x.iter_mut() { for v in r.iter_mut() { *v = if int { vp::fint(8, false) } else { vp::real(-1.0, 1.0) }; } }
    const FIXED: [f64; 8] = [0.25, 0.75, 1.0, -0.6, 0.33, 0.1, 0.9, 0.45];
    let mut co = FIXED;
    if int { for v in co.iter_mut() { *v = vp::fint(8, false); } }
    let mut f = ChromaFilter::new(co[..ns].to_vec().into_boxed_slice(), Sink::new());
    for k in 0..N {
        f.consume(&x[k]);
        vp::assert(f.output().len() == if k + 1 >= ns { k + 2 - ns } else { 0 }, id + 1);
    }
    let out = f.output();
    for k in 0..out.len() {
        let mut ok = out[k].len() == 12;
        for b in 0..12 {
            let mut s = 0.0;
            for j in 0..ns { s += x[k + j][b] * co[j]; }
            ok &= close(out[k][b], s, 1e-9);
        }
        vp::assert(ok, id + 2);
    }
    vp::reach(id);
}

// ------------------------------------------------------------------ normaliser
fn t_norm(bits: u32, scale: f64, frames: usize, id: u32) {
    let mut x = vec![];
    for _ in 0..frames { let mut r = [0.0; 12]; for v in r.iter_mut() { *v = vp::fint(bits, true) * scale; } x.push(r); }
    let norms: Vec<f64> = x.iter().map(|r| { let mut s = 0.0; for v in r { s += v * v; } s.sqrt() }).collect();
    let silents: Vec<bool> = norms.iter().map(|n| vp::fork((*n < 0.01) as usize, 1) == 1).collect();
    let mut f = ChromaNormalizer::new(Sink::new());
    for r in &x { f.consume(r); }
    let out = f.output();
    vp::assert(out.len() == frames, id + 1);
    for k in 0..frames {
        let (norm, silent) = (norms[k], silents[k]);
        let mut ok = out[k].len() == 12;
        for b in 0..12 { ok &= if silent { out[k][b] == 0.0 } else { close(out[k][b], x[k][b] / norm, 1e-9) }; }
        vp::assert(ok, id + 2);
        vp::reach(id + if silent { 8 } else { 9 });
    }
    vp::reach(id);
}
h! {
h_fft4 { t_fft::<11>(4, 1, 2, 100) }
h_fft4o { t_fft::<8>(4, 3, 2, 100) }
h_fft5 { t_fft::<11>(5, 2, 2, 100) }
h_fft6 { t_fft::<13>(6, 0, 2, 100) }
h_fft8 { t_fft::<16>(8, 5, 1, 100) }
h_fft12 { t_fft::<30>(12, 8, 1, 100) }
h_fft4096 { t_fft_big(4096, 4096 - 1365, 4096 + 1365 + 7, 1000, 200) }
h_fft2048 { t_fft_big(2048, 2048 - 682, 2048 + 2 * 682, 999, 200) }
h_chroma { t_chroma(28, 3520, 4096, 11025, 1, 300) }
h_chroma5 { t_chroma(28, 3520, 2048, 11025, 1, 300) }
h_chroma256 { t_chroma(10, 510, 256, 1000, 3, 300) }
h_chroma128 { t_chroma(0, 6000, 128, 8000, 2, 300) }
h_chroma64 { t_chroma(440, 2000, 64, 11025, 3, 300) }
h_rchroma64 { t_rchroma(440, 4000, 64, 11025, 310) }
h_rchroma256 { t_rchroma(28, 3520, 256, 11025, 310) }
h_inter64 { t_interp(440, 3520, 64, 11025, 3, 400) }
h_inter128 { t_interp(28, 3520, 128, 11025, 2, 400) }
h_inter256 { t_interp(10, 510, 256, 1000, 1, 400) }
h_inter4096 { t_interp(28, 3520, 4096, 11025, 1, 400) }
h_filter1 { t_filter::<20>(1, true, 500) }
h_filter2 { t_filter::<20>(2, true, 500) }
h_filter3 { t_filter::<20>(3, true, 500) }
h_filter5 { t_filter::<20>(5, true, 500) }
h_filter7 { t_filter::<20>(7, true, 500) }
h_filter8 { t_filter::<20>(8, true, 500) }
h_filterl3 { t_filterlong::<270>(3, 500) }
h_filterl8 { t_filterlong::<270>(8, 500) }
h_rfilter2 { t_filter::<10>(2, false, 500) }
h_rfilter5 { t_filter::<13>(5, false, 500) }
h_rfilter8 { t_filter::<17>(8, false, 500) }
h_norm1 { t_norm(9, 1.0 / 256.0, 1, 600) }
h_norm3 { t_norm(5, 1.0 / 1024.0, 3, 600) }
h_normbig { t_norm(12, 1.0, 2, 600) }
}
entries!(h_fft4, h_fft4o, h_fft5, h_fft6, h_fft8, h_fft12, h_fft4096, h_fft2048, h_chroma, h_chroma5, h_chroma256, h_chroma128, h_chroma64, h_rchroma64, h_rchroma256, h_inter64, h_inter128, h_inter256, h_inter4096,
    h_filterl3, h_filterl8, h_filter1, h_filter2, h_filter3, h_filter5, h_filter7, h_filter8, h_rfilter2, h_rfilter5, h_rfilter8, h_norm1, h_norm3, h_normbig);
