include!("../prelude.rs");
use crate::gaussian::gaussian_filter;
use crate::gradient::gradient;

/// mean over w elements from i - w/2, mirrored at the ends with the edge repeated
fn mean(x: &[f64], i: usize, w: usize) -> f64 {
    let n = x.len() as i64;
    let mut s = 0.0;
    for j in 0..w as i64 {
        let p = (i as i64 + j - (w / 2) as i64).rem_euclid(2 * n);
        s += x[(if p < n { p } else { 2 * n - 1 - p }) as usize];
    }
    s / w as f64
}
fn inputs<const MAX: usize>() -> [f64; MAX] { let mut a = [0.0; MAX]; for x in a.iter_mut() { *x = vp::real(-32.0, 32.0); } a }
/// one pass of width w: sigma is chosen so that the smoothing consists of exactly that pass
fn t_box<const MAX: usize>(w: usize, id: u32) {
    let x = inputs::<MAX>();
    let n = vp::range(1, MAX);
    let mut a = x; let mut out = [0.5; MAX];
    gaussian_filter(&mut a[..n], &mut out[..n], (((w * w - 1) as f64) / 12.0).sqrt(), 1);
    for i in 0..n { vp::assert(vp::near(out[i], mean(&x[..n], i, w), 1e-9), id + 1); }
    vp::reach(id);
}
/// fixed values but for a few
fn long<const N: usize>() -> [f64; N] { let mut a = [0.0; N]; for (i, x) in a.iter_mut().enumerate() { *x = if i % 64 == 5 || i + 1 == N { vp::real(-32.0, 32.0) } else { (i * i % 23) as f64 }; } a }
fn t_gausslong<const N: usize>(sigma: f64, ws: &[usize], id: u32) {
    let x = long::<N>();
    let mut a = x; let mut out = [0.5; N];
    gaussian_filter(&mut a, &mut out, sigma, ws.len());
    let mut r = x;
    for &w in ws { let p = r; for i in 0..N { r[i] = mean(&p, i, w); } }
    for i in 0..N { vp::assert(vp::near(out[i], r[i], 1e-8), id + 1); }
    vp::reach(id);
}
fn t_gauss<const MAX: usize>(lo: usize, sigma: f64, ws: &[usize], id: u32) {
    let x = inputs::<MAX>();
    let n = vp::range(lo, MAX);
    let mut a = x; let mut out = [0.5; MAX];
    gaussian_filter(&mut a[..n], &mut out[..n], sigma, ws.len());
    let mut r = x;
    for &w in ws { let p = r; for i in 0..n { r[i] = mean(&p[..n], i, w); } }
    for i in 0..n { vp::assert(vp::near(out[i], r[i], 1e-8), id + 1); }
    vp::reach(id);
}
h! {
h_box1 { t_box::<4>(1, 100) }
h_box3 { t_box::<9>(3, 100) }
h_box5 { t_box::<10>(5, 100) }
h_box7 { t_box::<11>(7, 100) }
h_box15 { t_box::<19>(15, 100) }
h_gauss3 { t_gauss::<7>(1, 1.6, &[3, 3, 3], 200) }
h_gauss57 { t_gauss::<9>(1, 3.6, &[5, 5, 7, 7], 200) }
h_gauss15 { t_gauss::<6>(1, 8.0, &[15, 15, 17], 200) }
h_gauss15l { t_gauss::<19>(17, 8.0, &[15, 15, 17], 200) }
h_gauss300 { t_gausslong::<300>(8.0, &[15, 15, 17], 200) }
h_const {
    let v = vp::real(-1000.0, 1000.0); let n = vp::len(20);
    let mut a = [v; 20]; let mut out = [0.5; 20];
    gaussian_filter(&mut a[..n], &mut out[..n], 8.0, 3);
    for i in 0..n { vp::assert(vp::near(out[i], v, 1e-8), 301); }
    vp::reach(300);
}
h_grad300 {
    let x = long::<300>();
    let mut out = vec![];
    gradient(x.iter().copied(), &mut out);
    vp::assert(out.len() == 300, 401);
    for i in 0..out.len().min(300) {
        let want = if i == 0 { x[1] - x[0] } else if i == 299 { x[i] - x[i - 1] } else { (x[i + 1] - x[i - 1]) / 2.0 };
        vp::assert(vp::near(out[i], want, 1e-9), 402);
    }
    vp::reach(400);
}
h_grad {
    let x = inputs::<7>(); let n = vp::len(7);
    let mut out = vec![];
    gradient(x[..n].iter().copied(), &mut out);
    vp::assert(out.len() == n, 401);
    for i in 0..n.min(out.len()) {
        let want = if n == 1 { 0.0 } else if i == 0 { x[1] - x[0] } else if i == n - 1 { x[i] - x[i - 1] } else { (x[i + 1] - x[i - 1]) / 2.0 };
        vp::assert(vp::near(out[i], want, 1e-9), 402);
    }
    vp::reach(400);
}
}
entries!(h_gauss300, h_grad300, h_box1, h_box3, h_box5, h_box7, h_box15, h_gauss3, h_gauss57, h_gauss15, h_gauss15l, h_const, h_grad);
