// C29: the duration display of compare, the formatting machinery of the standard library included.
include!("/verif/harness/prelude.rs");
#[path = "/repo/compare/src/utils.rs"]
mod utils;
use utils::DurationExt;

struct Buf { b: [u8; 64], n: usize }
impl core::fmt::Write for Buf {
    fn write_str(&mut self, s: &str) -> core::fmt::Result { for c in s.bytes() { self.b[self.n] = c; self.n += 1; } Ok(()) }
}
fn digit(c: u8) -> u64 { vp::assert(c >= b'0' && c <= b'9', 1); (c as u64).wrapping_sub(48) }

/// the printed fields, after checking their shape
fn text(v: f32) -> (u64, u64, u64, u64) {
    let mut b = Buf { b: [0; 64], n: 0 };
    let r = core::fmt::Write::write_fmt(&mut b, format_args!("{}", v.display_duration()));
    let n = b.n;
    vp::assert(r.is_ok() && n >= 10, 2);
    if n < 10 { return (0, 0, 0, 0) }
    vp::assert(b.b[n - 3] == b'.' && b.b[n - 6] == b':' && b.b[n - 9] == b':', 3);
    let two = |k: usize| digit(b.b[k]) * 10 + digit(b.b[k + 1]);
    let (m, s, c) = (two(n - 8), two(n - 5), two(n - 2));
    vp::assert(m < 60 && s < 60, 4);
    vp::assert(n == 10 || b.b[0] != b'0', 9);
    let mut h = 0u64;
    for k in 0..n - 9 { h = h * 10 + digit(b.b[k]); }
    (h, m, s, c)
}

/// a duration that rounds to h hours, m minutes, s seconds and c hundredths
fn fields(h: u64) {
    let (m, s, c) = (vp::upto(59), vp::upto(59), vp::upto(99));
    let mut t = h * 360000 + m * 6000 + s * 100 + c;
    let v = f32::from_bits(vp::u32());
    #[cfg(vp_ir)]
    {
        let (x, zero) = (v * 100.0, vp::fork(vp::upto(1) as usize, 1) == 1);
        let r = x.round();
        // what a value above zero says of the operands, for code that looks at them before converting
        if zero { vp::assume(t == 0); t = 0; }
        else { vp::assume(t > 0); for y in [r, x, v] { vp::assume(y > 0.0); vp::assume(y >= 0.0); vp::assume(!(y <= 0.0)); vp::assume(!(y < 0.0)); vp::assume(!y.is_nan()); } }
        vp::assume(r as u64 == t);
    }
    #[cfg(not(vp_ir))]
    let v = (t as f64 / 100.0) as f32;
    #[cfg(not(vp_ir))]
    let t = (v * 100.0).round() as u64; // single precision may not have a value for t
    let p = text(v);
    vp::assert(p.0 == t / 360000, 5);
    vp::assert(p.1 == t / 6000 % 60, 6);
    vp::assert(p.2 == t / 100 % 60, 7);
    vp::assert(p.3 == t % 100, 8);
    vp::reach(1);
}
fn n_of(p: &(u64, u64, u64, u64)) -> u64 { ((p.0 * 60 + p.1) * 60 + p.2) * 100 + p.3 }

fn rounded(lo: f32, hi: f32) {
    let v = f32::from_bits(vp::u32());
    vp::assume(v >= lo && v < hi);
    let t = n_of(&text(v)) as f64;
    let x = v as f64 * 100.0;
    vp::assert((t - x).abs() <= 0.5 + x * 1e-7, 10);
    vp::reach(1);
}

h! {
    h_hours { fields(vp::upto(99)) }
    h_hours0 { fields(0) }
    h_hoursn { fields([100, 101, 999, 1000, 1193, 9999, 12345, 99999, 1234567, 10_000_000, 99_999_999, 123_456_789_012][vp::fork(vp::upto(11) as usize, 11)]) }
    h_round { rounded(0.0, 9.0) }
    h_round1 { rounded(3590.0, 3602.0) }
    h_below { let v = f32::from_bits(vp::u32()); vp::assume(!(v >= 0.0)); vp::assert(text(v) == (0, 0, 0, 0), 11); vp::reach(1); }
    h_large { let v = f32::from_bits(vp::u32()); vp::assume(v >= 1e18); let _ = text(v); vp::reach(1); }
}
entries!(h_hours, h_hours0, h_hoursn, h_round, h_round1, h_below, h_large);
