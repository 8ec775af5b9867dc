include!("../prelude.rs");
use crate::classifier::Classifier;
use crate::filter::{Filter, FilterKind, Image};
use crate::fingerprint_calculator::FingerprintCalculator;
use crate::quantize::Quantizer;
use crate::rolling_image::RollingIntegralImage;
use crate::stages::{FeatureVectorConsumer, Stage};

fn close(a: f64, b: f64, tol: f64) -> bool { vp::feq(a, b) | vp::near(a, b, tol) }
fn sum(rows: &[Vec<f64>], r1: usize, c1: usize, r2: usize, c2: usize) -> f64 {
    let mut s = 0.0;
    for r in r1..r2 { for c in c1..c2 { s += rows[r][c]; } }
    s
}
fn cells(rows: usize, cols: usize, bits: u32, signed: bool) -> Vec<Vec<f64>> {
    let mut a = vec![];
    for _ in 0..rows { let mut r = vec![]; for _ in 0..cols { r.push(vp::fint(bits, signed)); } a.push(r); }
    a
}

// ------------------------------------------------------------------ rolling image
/// `keep` rows are retained; every rectangle of retained rows is queried after each of n rows
fn t_rect(keep: usize, cols: usize, max: usize, again: bool, id: u32) {
    let x = cells(max, cols, 16, true);
    let pre = cells(3, cols + 1, 16, true);
    let n = vp::range(1, max);
    let mut im = RollingIntegralImage::new(keep);
    if again { for r in &pre[..vp::len(3)] { im.add_row(&r[..]); } im.reset(); vp::assert(im.rows() == 0, id + 2); }
    for r in &x[..n] { im.add_row(&r[..]); }
    vp::assert(im.rows() == n, id + 2);
    let first = n.saturating_sub(keep);
    for r1 in first..=n { for r2 in r1..=n { for c1 in 0..=cols { for c2 in c1..=cols {
        vp::assert(im.area(r1, c1, r2, c2) == sum(&x, r1, c1, r2, c2), id + 1);
    } } } }
    vp::reach(id);
}
/// fractional cells: equal up to rounding
fn t_rreal(keep: usize, cols: usize, n: usize, id: u32) {
    let mut x = vec![];
    for _ in 0..n { let mut r = vec![]; for _ in 0..cols { r.push(vp::real(0.0, 1.0)); } x.push(r); }
    let mut im = RollingIntegralImage::new(keep);
    for r in &x { im.add_row(&r[..]); }
    for r1 in n.saturating_sub(keep)..n { for r2 in r1..=n { for c1 in 0..=cols { for c2 in c1..=cols {
        vp::assert(close(im.area(r1, c1, r2, c2), sum(&x, r1, c1, r2, c2), 1e-9), id + 1);
    } } } }
    vp::reach(id);
}

// ------------------------------------------------------------------ filters
const KINDS: [FilterKind; 6] = [FilterKind::Filter0, FilterKind::Filter1, FilterKind::Filter2, FilterKind::Filter3, FilterKind::Filter4, FilterKind::Filter5];
/// sums of the two regions of a filter at row x, column y, w rows, h columns
fn regions(kind: usize, m: &[Vec<f64>], x: usize, y: usize, w: usize, h: usize) -> (f64, f64) {
    let (mut a, mut b) = (0.0, 0.0);
    for r in 0..w { for c in 0..h {
        let upper = c >= h / 2; // second half of the bands
        let right = r >= w / 2; // second half of the time
        let in_a = match kind {
            0 => true,
            1 => upper,
            2 => right,
            3 => upper != right,
            4 => c >= h / 3 && c < 2 * (h / 3),
            _ => r >= w / 3 && r < 2 * (w / 3),
        };
        if in_a { a += m[x + r][y + c]; } else { b += m[x + r][y + c]; }
    } }
    (a, b)
}
fn value(a: f64, b: f64) -> f64 { ((1.0 + a) / (1.0 + b)).ln() }
fn t_apply(kind: usize, ws: &[usize], hs: &[usize], xs: usize, ys: usize, id: u32) {
    let wi = vp::len(ws.len() - 1); let hi = vp::len(hs.len() - 1);
    let (w, h) = (ws[wi], hs[hi]);
    let (x, y) = (vp::len(xs), vp::len(ys));
    let m = cells(x + w + 1, y + h + 1, 8, false);
    let mut im = RollingIntegralImage::new(60);
    for r in &m { im.add_row(&r[..]); }
    let (a, b) = regions(kind, &m, x, y, w, h);
    vp::assert(a + b == sum(&m, x, y, x + w, y + h), id + 2);
    let v = Filter::new(KINDS[kind], y, h, w).apply(&im, x);
    vp::assert(close(v, value(a, b), 1e-9), id + 1);
    vp::reach(id);
}
const S: [usize; 8] = [1, 2, 3, 4, 5, 6, 7, 8];
const BIG: [usize; 7] = [9, 10, 11, 12, 14, 15, 16];

// ------------------------------------------------------------------ quantizer
fn t_quant(t: [f64; 3], v: f64, v2: f64, id: u32) {
    vp::assume((t[0] <= t[1]) & (t[1] <= t[2]));
    let q = Quantizer::new(t[0], t[1], t[2]);
    let r = q.quantize(v);
    let want = if v < t[0] { 0 } else if v < t[1] { 1 } else if v < t[2] { 2 } else { 3 };
    vp::assert(r == want, id + 1);
    let r2 = q.quantize(v2);
    vp::assert(!(v <= v2) | (r <= r2), id + 2);
    vp::trace(r as u64);
    vp::reach(id);
}

// ------------------------------------------------------------------ items
#[derive(Clone, Copy)]
struct Cl { kind: usize, y: usize, h: usize, w: usize, t: [f64; 3] }
fn build(c: &[Cl]) -> Vec<Classifier> { c.iter().map(|c| Classifier::new(Filter::new(KINDS[c.kind], c.y, c.h, c.w), Quantizer::new(c.t[0], c.t[1], c.t[2]))).collect() }
fn item(cls: &[Cl], m: &[Vec<f64>], at: usize) -> u32 {
    let mut bits = 0u32;
    for c in cls {
        let (a, b) = regions(c.kind, m, at, c.y, c.w, c.h);
        let v = value(a, b);
        let g = if v < c.t[0] { 0 } else if v < c.t[1] { 1 } else if v < c.t[2] { 3 } else { 2 };
        bits = bits << 2 | g;
    }
    bits
}
fn t_items(cls: &[Cl], rows: usize, bits: u32, id: u32) {
    let x = cells(rows, 12, bits, false);
    let wide = cls.iter().map(|c| c.w).max().unwrap();
    let mut f = FingerprintCalculator::new(build(cls));
    for k in 0..rows {
        f.consume(&x[k]);
        vp::assert(f.output().len() == (k + 1).saturating_sub(wide - 1), id + 1);
    }
    let out = f.output();
    for k in 0..out.len() { vp::assert(out[k] == item(cls, &x, k), id + 2); vp::trace(out[k] as u64); }
    vp::reach(id);
}
/// long stream: one symbolic column from row `from` on, so that discarding old rows is exercised
fn t_long(cls: &[Cl], rows: usize, from: usize, id: u32) {
    let mut x = vec![];
    for k in 0..rows { let mut r = vec![0.0; 12]; r[3] = if k >= from { vp::fint(6, false) } else { (k % 5) as f64 }; x.push(r); }
    let wide = cls.iter().map(|c| c.w).max().unwrap();
    let mut f = FingerprintCalculator::new(build(cls));
    for r in &x { f.consume(r); }
    let out = f.output();
    vp::assert(out.len() == rows + 1 - wide, id + 1);
    for k in 0..out.len() { vp::assert(out[k] == item(cls, &x, k), id + 2); }
    vp::reach(id);
}
const MIX: [Cl; 4] = [
    Cl { kind: 0, y: 4, h: 3, w: 2, t: [1.5, 2.5, 3.0] }, Cl { kind: 3, y: 0, h: 4, w: 3, t: [-0.2, 0.0, 0.2] },
    Cl { kind: 2, y: 7, h: 5, w: 1, t: [0.5, 1.0, 2.0] }, Cl { kind: 4, y: 3, h: 6, w: 2, t: [-1.0, -0.5, -0.25] }];
const SIXTEEN: [Cl; 16] = {
    let mut a = [Cl { kind: 0, y: 0, h: 1, w: 1, t: [0.5, 1.5, 2.0] }; 16];
    let mut i = 0; while i < 16 { a[i].y = i % 12; a[i].kind = if i < 12 { 0 } else { 5 }; i += 1; } a
};
const MID: [Cl; 2] = [Cl { kind: 2, y: 2, h: 3, w: 4, t: [-0.5, 0.0, 0.5] }, Cl { kind: 5, y: 3, h: 1, w: 3, t: [-0.5, 0.0, 0.5] }];
const WIDE: [Cl; 2] = [Cl { kind: 0, y: 3, h: 1, w: 255, t: [6.0, 7.0, 8.0] }, Cl { kind: 2, y: 3, h: 2, w: 16, t: [-0.5, 0.0, 0.5] }];
h! {
h_rect1 { t_rect(1, 2, 6, false, 100) }
h_rect2 { t_rect(2, 2, 8, false, 100) }
h_rect3 { t_rect(3, 3, 10, false, 100) }
h_rect4 { t_rect(4, 2, 14, true, 100) }
h_rect12 { t_rect(4, 12, 7, false, 100) }
h_rect255 { t_rect(255, 1, 1, false, 100); t_rect_long(255, 530, 110) }
h_rreal3 { t_rreal(3, 3, 12, 120) }
h_rreal5 { t_rreal(5, 2, 9, 120) }
h_app0 { t_apply(0, &S, &S, 1, 1, 200) }
h_app1 { t_apply(1, &S, &S, 1, 1, 200) }
h_app2 { t_apply(2, &S, &S, 1, 1, 200) }
h_app3 { t_apply(3, &S, &S, 1, 1, 200) }
h_app4 { t_apply(4, &S, &S, 1, 1, 200) }
h_app5 { t_apply(5, &S, &S, 1, 1, 200) }
h_appw { let k = vp::len(5); t_apply(k, &BIG, &[1, 2, 6], 0, 1, 210) }
h_apph { let k = vp::len(5); t_apply(k, &[1, 2, 5], &[9, 10, 11, 12], 1, 0, 210) }
h_quant { let t = [vp::real(-100.0, 100.0), vp::real(-100.0, 100.0), vp::real(-100.0, 100.0)]; t_quant(t, vp::real(-200.0, 200.0), vp::real(-200.0, 200.0), 300) }
h_quantx { let t = [vp::f64(), vp::f64(), vp::f64()]; let v = vp::f64(); vp::assume(v == v); t_quant(t, v, vp::f64(), 300) }
h_mix { t_items(&MIX, 6, 3, 400) }
h_sixteen { t_items(&SIXTEEN, 2, 3, 400) }
h_mid { t_items(&MID, 9, 3, 400) }
h_long { t_long(&MID, 266, 248, 410) }
h_long2 { t_long(&MID, 522, 504, 410) }
h_wide { t_long(&WIDE, 280, 100, 410) }
}
fn t_rect_long(keep: usize, n: usize, id: u32) {
    let mut im = RollingIntegralImage::new(keep);
    let x = cells(n, 1, 8, false);
    for k in 0..n {
        im.add_row(&x[k][..]);
        if k % 37 == 0 || k > n - 4 {
            let first = (k + 1).saturating_sub(keep);
            for (a, b) in [(first, k + 1), (first, first + 1), (k, k + 1), ((first + k) / 2, k + 1)] { vp::assert(im.area(a, 0, b, 1) == sum(&x, a, 0, b, 1), id + 1); }
        }
    }
    vp::reach(id);
}
entries!(h_rect1, h_rect2, h_rect3, h_rect4, h_rect12, h_rect255, h_rreal3, h_rreal5, h_app0, h_app1, h_app2, h_app3, h_app4, h_app5, h_appw, h_apph, h_quant, h_quantx, h_mix, h_sixteen, h_mid, h_long, h_long2, h_wide);
