include!("../prelude.rs");
use crate::chroma::Chroma;
use crate::chroma_filter::ChromaFilter;
use crate::chroma_normalizer::ChromaNormalizer;
use crate::classifier::Classifier;
use crate::fft::Fft;
use crate::filter::{Filter, FilterKind, Image};
use crate::fingerprint_calculator::FingerprintCalculator;
use crate::quantize::Quantizer;
use crate::stages::{AudioConsumer, FeatureVectorConsumer, Stage};
use crate::{Configuration, Fingerprinter};

fn reset() { rubato::vp_log().clear(); rustfft::vp_mix(true); }
fn cl(kind: FilterKind, y: usize, h: usize, w: usize, t: [f64; 3]) -> Classifier { Classifier::new(Filter::new(kind, y, h, w), Quantizer::new(t[0], t[1], t[2])) }
/// three narrow classifiers over notes that short frames can tell apart
fn narrow(w: usize) -> Vec<Classifier> {
    vec![cl(FilterKind::Filter0, 0, 12, w, [0.5, 0.9, 1.1]), cl(FilterKind::Filter1, 2, 10, w, [-0.3, 0.0, 0.3]), cl(FilterKind::Filter0, 5, 4, 1, [0.1, 0.3, 0.5])]
}
fn tiny(base: Configuration, coef: usize, w: usize) -> Configuration {
    base.with_frame_size(16).with_frame_overlap(8).with_coefficients(vec![0.5; coef]).with_classifiers(narrow(w))
}
/// samples: one in `every` arbitrary (none for 0), the others fixed ones of large contrast
fn stream(n: usize, every: usize, seed: u32) -> Vec<i16> {
    let mut s = seed;
    let mut a = vec![];
    for k in 0..n {
        s = s.wrapping_mul(1664525).wrapping_add(1013904223);
        a.push(if every > 0 && k % every == 0 { vp::i16() } else if k / 16 % 2 == 0 { (s >> 16) as i16 } else { (s >> 16) as i16 / 64 });
    }
    a
}
fn same(a: &[u32], b: &[u32], id: u32) {
    vp::assert(a.len() == b.len(), id);
    if a.len() != b.len() { return; }
    let mut ok = true;
    for k in 0..a.len() { ok &= a[k] == b[k]; }
    vp::assert(ok, id + 1);
}
fn run(f: &mut Fingerprinter, rate: u32, ch: u32, x: &[i16], end: bool) -> bool {
    if f.start(rate, ch).is_err() { return false; }
    f.consume(x);
    if end { f.finish(); }
    true
}

// ------------------------------------------------------------------ restart
const RATES: [u32; 3] = [11025, 44100, 8000];
struct Restart { coef: usize, w: usize, before: usize, step: usize, after: usize, symbolic: usize, twice: bool, few: bool }
fn t_restart(c: Restart, id: u32) {
    let old = stream(c.before * 3, c.symbolic, 7);
    let x = stream(c.after * 2, c.symbolic, 99);
    let (r, ch, n) = (vp::upto(2), vp::upto(2), vp::upto((c.before / c.step) as u64));
    let (fin, bad) = (vp::bool(), vp::upto(2));
    let (r2, ch2, fin2) = (vp::upto(1), vp::upto(1), vp::bool());
    let (r, ch, n, fin, bad) = (vp::fork(r as usize, 2), 1 + vp::fork(ch as usize, 2), vp::fork(n as usize, c.before / c.step) * c.step, vp::fork(fin as usize, 1), if c.few { 0 } else { vp::fork(bad as usize, 2) });
    let (r2, ch2, fin2) = if c.few { (vp::fork(r2 as usize, 1), 1, 1) } else { (vp::fork(r2 as usize, 1), 1 + vp::fork(ch2 as usize, 1), vp::fork(fin2 as usize, 1)) };
    reset();
    let cfg = tiny(Configuration::preset_test2(), c.coef, c.w);
    let mut f = Fingerprinter::new(&cfg);
    vp::assert(run(&mut f, RATES[r], ch as u32, &old[..n * ch], fin == 1), id + 1);
    if c.twice { vp::assert(run(&mut f, RATES[(r + 1) % 3], 1, &old[..n], fin == 0), id + 1); }
    // a start that fails changes nothing for the stream after it
    if bad == 1 { vp::assert(f.start(11025, 0).is_err(), id + 2); } else if bad == 2 { vp::assert(f.start(1000, 1).is_err(), id + 2); }
    let (rate, y) = (RATES[r2], &x[..c.after * ch2]);
    vp::assert(f.start(rate, ch2 as u32).is_ok(), id + 1);
    vp::assert(f.fingerprint().is_empty(), id + 3);
    f.consume(y);
    if fin2 == 1 { f.finish(); }
    let mut g = Fingerprinter::new(&cfg);
    vp::assert(g.fingerprint().is_empty(), id + 3);
    vp::assert(run(&mut g, rate, ch2 as u32, y, fin2 == 1), id + 1);
    same(f.fingerprint(), g.fingerprint(), id + 4);
    if fin2 == 1 { vp::assert(g.fingerprint().len() > 0, id + 6); }
    for v in g.fingerprint() { vp::trace(*v as u64); }
    vp::reach(id);
}

// ------------------------------------------------------------------ splitting
fn t_split(ch: usize, rate: u32, max: usize, step: usize, flushes: bool, symbolic: usize, id: u32) {
    let x = stream(max * ch, symbolic, 5);
    let m = max / step;
    let c = [vp::upto(m as u64), vp::upto(m as u64)];
    let fl = vp::bool();
    reset();
    let cfg = tiny(Configuration::preset_test2(), 2, 2);
    let mut f = Fingerprinter::new(&cfg);
    vp::assert(f.start(rate, ch as u32).is_ok(), id + 1);
    let (a, b) = (vp::fork(c[0] as usize, m) * step, vp::fork(c[1] as usize, m) * step);
    vp::assume(a <= b);
    let fl = flushes && vp::fork(fl as usize, 1) == 1;
    f.consume(&x[..a * ch]);
    if fl { f.finish(); }
    f.consume(&x[a * ch..b * ch]);
    if fl { f.finish(); f.finish(); }
    f.consume(&x[b * ch..]);
    f.finish();
    rubato::vp_log().clear();
    let mut g = Fingerprinter::new(&cfg);
    vp::assert(run(&mut g, rate, ch as u32, &x, true), id + 1);
    same(f.fingerprint(), g.fingerprint(), id + 2);
    vp::assert(g.fingerprint().len() > 0, id + 4);
    vp::reach(id);
}

// ------------------------------------------------------------------ interpolation is what was asked for
struct Direct<C: FeatureVectorConsumer>(Fft<C>);
fn direct(interpolate: bool, coef: usize, w: usize, x: &[i16]) -> Vec<u32> {
    let calc = FingerprintCalculator::new(narrow(w));
    let chroma = Chroma::new(28, 3520, 16, 11025, ChromaFilter::new(vec![0.5; coef].into_boxed_slice(), ChromaNormalizer::new(calc))).with_interpolation(interpolate);
    let mut d = Direct(Fft::new(16, 8, chroma));
    d.0.reset();
    let y: Vec<f64> = x.iter().map(|&v| v as f64 / 32767.0).collect();
    d.0.consume(&y);
    d.0.output().to_vec()
}
fn preset(k: usize) -> Configuration {
    match k { 0 => Configuration::preset_test1(), 1 => Configuration::preset_test2(), 2 => Configuration::preset_test3(), 3 => Configuration::preset_test4(), 4 => Configuration::preset_test5(), _ => Configuration::default() }
}
fn t_flag(symbolic: usize, id: u32) {
    let mut x = stream(40, symbolic, 3);
    x[0] = 32767; // loud at once: a preset asks for the removal of leading silence
    let (k, m) = (vp::upto(5), vp::upto(2));
    let (k, m) = (vp::fork(k as usize, 5), vp::fork(m as usize, 2));
    reset();
    let base = preset(k);
    let (base, want) = match m { 0 => (base, k == 2), 1 => (base.with_interpolation(true), true), _ => (base.with_interpolation(false), false) };
    let mut f = Fingerprinter::new(&tiny(base, 2, 2));
    vp::assert(run(&mut f, 11025, 1, &x, true), id + 1);
    same(f.fingerprint(), &direct(want, 2, 2, &x), id + 2);
    vp::reach(id);
}

// ------------------------------------------------------------------ presets
fn t_ids(id: u32) {
    let k = vp::len(4);
    let c = preset(k);
    vp::assert(c.id() as usize == k, id + 1);
    vp::assert(c.vp_classifiers().len() == 16, id + 2);
    vp::assert(c.sample_rate() == 11025, id + 3);
    vp::reach(id);
}
/// an image that hands out one value for one query and records the rectangles
struct Spy { at: usize, v: f64, n: std::cell::Cell<usize>, cells: std::cell::Cell<usize>, rows: std::cell::Cell<usize>, cols: std::cell::Cell<usize>, bad: std::cell::Cell<bool> }
fn spy(at: usize, v: f64) -> Spy { Spy { at, v, n: Default::default(), cells: Default::default(), rows: Default::default(), cols: Default::default(), bad: Default::default() } }
impl Image for Spy {
    fn area(&self, r1: usize, c1: usize, r2: usize, c2: usize) -> f64 {
        if r1 > r2 || c1 > c2 { self.bad.set(true); }
        self.rows.set(self.rows.get().max(r2)); self.cols.set(self.cols.get().max(c2));
        let k = self.n.get();
        self.n.set(k + 1);
        if k == self.at { self.cells.set(r2.saturating_sub(r1) * c2.saturating_sub(c1)); self.v } else { 0.0 }
    }
}
/// each classifier stays within 12 bands and its rows, has ordered thresholds and can give all four results
fn t_levels(p: usize, id: u32) {
    let (s, t) = (vp::real(0.0, 1000.0), vp::real(0.0, 1000.0));
    let k = vp::len(15);
    let at = vp::len(8);
    let c = preset(p);
    let c = c.vp_classifiers()[k];
    let big = spy(at, 1.0e6);
    let sign = c.filter().apply(&big, 0);
    vp::assert(!big.bad.get(), id + 1);
    vp::assert(big.cols.get() <= 12, id + 2);
    vp::assert(big.rows.get() <= c.filter().width() && c.filter().width() >= 1 && c.filter().width() <= 255, id + 3);
    if at >= big.n.get() || big.cells.get() == 0 { return; }
    let (q, r) = (c.classify(&spy(at, s), 0), c.classify(&spy(at, t), 0));
    let ok = if sign > 0.0 { !(s + 1e-9 <= t) | (q <= r) } else { !(s + 1e-9 <= t) | (q >= r) };
    vp::assert(ok, id + 4);
    vp::assert(q <= 3, id + 5);
    let q = vp::fork(q as usize, 3);
    vp::reach(id + 100 + 4 * k as u32 + q as u32);
}
/// walking from the lowest to the highest possible filter value, a classifier's result goes through all four values one by one
fn t_steps(p: usize, id: u32) {
    let k = vp::len(15);
    let v = vp::real(0.0, 1000.0);
    let c = preset(p);
    let c = c.vp_classifiers()[k];
    let (mut up, mut down) = (None, None);
    for at in 0..9 {
        let big = spy(at, 1.0e6);
        let f = c.filter().apply(&big, 0);
        if big.n.get() > at && big.cells.get() > 0 { if f > 0.0 && up.is_none() { up = Some(at); } else if f < 0.0 && down.is_none() { down = Some(at); } }
    }
    vp::assert(up.is_some(), id + 1);
    let Some(up) = up else { return };
    let q = |x: f64| -> u32 { if x >= 0.0 { c.classify(&spy(up, x), 0) } else { match down { Some(d) => c.classify(&spy(d, -x), 0), None => 0 } } };
    let (lo, hi) = (if down.is_some() { -1000.0 } else { 0.0 }, 1000.0);
    vp::assert(q(lo) == 0, id + 2);
    vp::assert(q(hi) == 3, id + 3);
    let r = q(v);
    vp::assert(r <= 3, id + 5);
    let mut ok = true;
    for a in 0..2u32 { // the first value with a result above a has the result a + 1
        let (mut l, mut h) = (lo, hi);
        for _ in 0..70 { let m = (l + h) / 2.0; if q(m) > a { h = m; } else { l = m; } }
        ok &= q(h) == a + 1;
    }
    vp::assert(ok, id + 4);
    vp::reach(id);
}
/// streams of feature vectors of any length become items without a panic
fn t_stream(p: usize, rows: usize, from: usize, cols: usize, real: bool, id: u32) {
    let mut x = vec![];
    for k in 0..rows { let mut r = vec![0.0; 12]; for j in 0..12 { r[j] = if k >= from && j % 12 < cols { if real { vp::real(0.0, 1.0) } else { vp::fint(4, false) } } else { ((k * 7 + j * 3) % 5) as f64 / 4.0 }; } x.push(r); }
    let c = preset(p);
    let wide = c.vp_classifiers().iter().map(|c| c.filter().width()).max().unwrap();
    let mut f = FingerprintCalculator::new(c.vp_classifiers().to_vec());
    for r in &x { f.consume(r); }
    vp::assert(f.output().len() == rows + 1 - wide, id + 1);
    vp::reach(id);
}

// ------------------------------------------------------------------ number of items
fn items(n: usize, frame: usize, hop: usize, coef: usize, wide: usize) -> usize {
    if n < frame { return 0; }
    ((n - frame) / hop + 1).saturating_sub(coef - 1 + wide - 1)
}
fn t_count(p: usize, frame: usize, overlap: usize, coef: usize, wide: usize, max: usize, every: usize, id: u32) {
    let mut x = stream(max, every, 17);
    let n = vp::len(max);
    reset();
    let hop = frame - overlap;
    let cfg = preset(p).with_frame_size(frame).with_frame_overlap(overlap).with_coefficients(vec![1.0; coef]).with_classifiers(narrow(wide));
    if p == 3 { x[0] = 32767; } // this preset asks for the removal of leading silence
    x.truncate(n);
    let mut f = Fingerprinter::new(&cfg);
    vp::assert(run(&mut f, 11025, 1, &x, true), id + 1);
    vp::assert(f.fingerprint().len() == items(n, frame, hop, coef, wide), id + 2);
    // the first item needs exactly delay() + hop frames
    if f.fingerprint().len() == 0 { vp::assert(n < cfg.delay() + hop, id + 3); } else { vp::assert(n >= cfg.delay() + hop, id + 3); }
    let d = cfg.item_duration_in_seconds() as f64;
    vp::assert(vp::near(d, hop as f64 / 11025.0, 1e-8), id + 4);
    if f.fingerprint().len() == 2 { vp::reach(id + 5); }
    vp::reach(id);
}
/// the presets as they are, around the first item
fn t_first(p: usize, frame: usize, hop: usize, id: u32) {
    let more = vp::len(1);
    let (a, b) = (vp::i16(), vp::i16());
    reset();
    let cfg = preset(p);
    let first = frame + hop * (4 + 15);
    vp::assert(cfg.delay() + hop == first, id + 1);
    let mut x = vec![12000i16; first - 1 + more];
    if p != 3 { x[1] = a; }
    x[frame + 5] = b;
    let mut f = Fingerprinter::new(&cfg);
    vp::assert(run(&mut f, 11025, 1, &x, true), id + 2);
    vp::assert(f.fingerprint().len() == more, id + 3);
    vp::assert(vp::near(cfg.item_duration_in_seconds() as f64, hop as f64 / 11025.0, 1e-8), id + 4);
    vp::reach(id);
}

// ------------------------------------------------------------------ silence
/// leading silence, then a loud stream: as many items as the loud part alone gives, and the same ones
fn t_silence(threshold: u32, id: u32) {
    let quiet = 8 * vp::len(4);
    let v = vp::upto(threshold as u64);
    reset();
    let cfg = tiny(Configuration::preset_test4(), 1, 1).with_removed_silence(threshold);
    let loud = stream(48, 0, 11);
    let mut x: Vec<i16> = vec![0; quiet];
    if quiet > 0 { x[0] = v as i16; }
    x.push(32767);
    x.extend_from_slice(&loud);
    let mut f = Fingerprinter::new(&cfg);
    vp::assert(run(&mut f, 11025, 1, &x, true), id + 1);
    let mut g = Fingerprinter::new(&tiny(Configuration::preset_test2(), 1, 1));
    vp::assert(run(&mut g, 11025, 1, &x[quiet..], true), id + 1);
    same(f.fingerprint(), g.fingerprint(), id + 2);
    vp::reach(id);
}
/// without a threshold nothing is discarded, however quiet the stream is
fn t_nosilence(symbolic: usize, channels: usize, id: u32) {
    let k = vp::len(5);
    let channels = vp::range(1, channels);
    let v = stream(24, symbolic, 1);
    let quiet = 8 * vp::len(4);
    vp::assume(k != 3);
    reset();
    let mut x: Vec<i16> = vec![0; quiet];
    x.extend_from_slice(&v);
    x.extend_from_slice(&stream(24, 0, 11));
    let mut f = Fingerprinter::new(&tiny(preset(k), 1, 1));
    let mut y = vec![];
    for &s in &x { for _ in 0..channels { y.push(s); } }
    vp::assert(run(&mut f, 11025, channels as u32, &y, true), id + 1);
    same(f.fingerprint(), &direct(k == 2, 1, 1, &x), id + 2);
    vp::reach(id);
}
/// with a threshold, a stream that is loud throughout is processed unchanged
fn t_loud(id: u32) {
    let x0 = [vp::upto(20000), vp::upto(20000)];
    let c = [vp::len(6), vp::len(6)];
    reset();
    let mut x = stream(48, 0, 21);
    for k in 0..48 { x[k] = if k % 2 == 0 { 10000 + (x[k] & 0xfff) } else { -10000 - (x[k] & 0x7ff) }; }
    x[20] = 10000 + x0[0] as i16; x[33] = -10000 - x0[1] as i16;
    // quiet passages after the start are kept
    for k in 24..24 + 2 * c[0] { x[k] = 0; }
    for k in 40..40 + c[1] { x[k] = 0; }
    let mut f = Fingerprinter::new(&tiny(Configuration::preset_test2(), 1, 1).with_removed_silence(50));
    vp::assert(run(&mut f, 11025, 1, &x, true), id + 1);
    same(f.fingerprint(), &direct(false, 1, 1, &x), id + 2);
    vp::reach(id);
}
h! {
h_restart { t_restart(Restart { coef: 2, w: 2, before: 40, step: 20, after: 34, symbolic: 11, twice: false, few: true }, 100) }
h_restartc { t_restart(Restart { coef: 3, w: 2, before: 65, step: 13, after: 60, symbolic: 0, twice: true, few: false }, 100) }
h_restart8 { t_restart(Restart { coef: 8, w: 3, before: 108, step: 27, after: 96, symbolic: 0, twice: false, few: false }, 100) }
h_psplit1 { t_split(1, 11025, 40, 8, true, 1, 200) }
h_psplit1f { t_split(1, 11025, 40, 2, true, 9, 200) }
h_psplit2 { t_split(2, 11025, 40, 10, true, 1, 200) }
h_psplitr { t_split(1, 44100, 40, 8, false, 1, 200) }
h_psplitc { t_split(2, 11025, 48, 1, true, 0, 200) }
h_flag { t_flag(1, 300) }
h_flagc { t_flag(0, 300) }
h_ids { t_ids(400) }
h_levels1 { t_levels(0, 1000) }
h_levels2 { t_levels(1, 1000) }
h_levels3 { t_levels(2, 1000) }
h_levels4 { t_levels(3, 1000) }
h_levels5 { t_levels(4, 1000) }
h_steps1 { t_steps(0, 1000) }
h_steps2 { t_steps(1, 1000) }
h_steps3 { t_steps(2, 1000) }
h_steps4 { t_steps(3, 1000) }
h_steps5 { t_steps(4, 1000) }
h_stream1 { t_stream(0, 275, 256, 2, true, 500) }
h_stream2 { t_stream(1, 531, 512, 2, true, 500) }
h_stream3 { t_stream(2, 275, 256, 2, true, 500) }
h_streamr { t_stream(1, 262, 243, 1, true, 500) }
h_count1 { t_count(0, 16, 8, 1, 1, 60, 9, 600) }
h_count2 { t_count(1, 16, 8, 2, 2, 80, 5, 600) }
h_count3 { t_count(2, 16, 5, 3, 2, 90, 9, 600) }
h_count4 { t_count(3, 16, 11, 5, 4, 80, 9, 600) }
h_count5 { t_count(4, 12, 0, 1, 3, 70, 9, 600) }
h_count6 { t_count(0, 20, 19, 2, 6, 34, 11, 600) }
h_count7 { t_count(1, 16, 8, 8, 1, 110, 11, 600) }
h_first1 { t_first(0, 4096, 1365, 610) }
h_first2 { t_first(1, 4096, 1365, 610) }
h_first3 { t_first(2, 4096, 1365, 610) }
h_first4 { t_first(3, 4096, 1365, 610) }
h_first5 { t_first(4, 2048, 1024, 610) }
h_silence { t_silence(50, 700) }
h_nosil { t_nosilence(1, 1, 710) }
h_nosilc { t_nosilence(0, 3, 710) }
h_loud { t_loud(720) }
}
entries!(h_steps1, h_steps2, h_steps3, h_steps4, h_steps5, h_psplit1f, h_restart, h_restartc, h_restart8, h_psplit1, h_psplit2, h_psplitr, h_psplitc, h_flag, h_flagc, h_ids, h_levels1, h_levels2, h_levels3, h_levels4, h_levels5, h_stream1, h_stream2, h_stream3, h_streamr, h_count1, h_count2, h_count3, h_count4, h_count5, h_count6, h_count7, h_first1, h_first2, h_first3, h_first4, h_first5, h_silence, h_nosil, h_nosilc, h_loud);
