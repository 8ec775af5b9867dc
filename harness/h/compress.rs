include!("../prelude.rs");
use crate::{Configuration, FingerprintCompressor};

// ---- independent decoder of the Chromaprint compressed format -----------------------------
fn bits(data: &[u8], pos: usize, n: usize) -> u8 {
    let mut v = 0u8;
    for k in 0..n {
        let p = pos + k;
        if p / 8 < data.len() && data[p / 8] >> (p % 8) & 1 == 1 { v |= 1 << k; }
    }
    v
}
/// Decodes exactly `n` values (n <= N); every run of the reader is bounded by `max_items`.
/// Returns (values, number of 3-bit codes, number of 5-bit codes, ok).
fn decode<const N: usize>(out: &[u8], n: usize, max_items: usize) -> ([u32; N], usize, usize, bool) {
    let body = &out[4..];
    let mut vals = [0u32; N];
    // count the 3-bit codes first: n zero codes
    let mut zeros = 0;
    let mut items = 0;
    for i in 0..max_items {
        if zeros < n {
            items = i + 1;
            if bits(body, i * 3, 3) == 0 { zeros += 1; }
        }
    }
    let exc = (items * 3 + 7) / 8;
    let mut cur = 0;
    let mut bit = 0u32;
    let mut acc = 0u32;
    let mut last = 0u32;
    let mut nexc = 0;
    let mut ok = zeros == n;
    for i in 0..max_items {
        if i < items {
            let mut c = bits(body, i * 3, 3) as u32;
            if c == 0 {
                last ^= acc;
                vals[cur] = last;
                cur += 1; bit = 0; acc = 0;
            } else {
                if c == 7 { c += bits(&body[exc.min(body.len())..], nexc * 5, 5) as u32; nexc += 1; }
                bit += c;
                if bit > 32 { ok = false; bit = 32; }
                acc |= 1 << (bit - 1);
            }
        }
    }
    (vals, items, nexc, ok)
}

fn check<const N: usize>(fp: &[u32; N], n: usize, max_items: usize, id: u32) {
    let config = Configuration::default().with_id(vp::u8());
    let out = FingerprintCompressor::from(&config).compress(&fp[..n]);
    vp::assert(out.len() >= 4, id);
    let (vals, items, nexc, ok) = decode::<N>(&out, n, max_items);
    vp::assert(ok, id + 1);
    for i in 0..n { vp::assert(vals[i] == fp[i], id + 2); }
    // size, header and padding
    vp::assert(out[0] == config.id(), id + 10);
    vp::assert(out[1] == 0 && out[2] == (n >> 8) as u8 && out[3] == n as u8, id + 11);
    let exc = (items * 3 + 7) / 8;
    vp::assert(out.len() == 4 + exc + (nexc * 5 + 7) / 8, id + 12);
    vp::assert(bits(&out[4..], items * 3, (8 - items * 3 % 8) % 8) == 0, id + 13);
    let tail = &out[(4 + exc).min(out.len())..];
    vp::assert(bits(tail, nexc * 5, (8 - nexc * 5 % 8) % 8) == 0, id + 14);
    vp::trace(out.len() as u64);
    for i in 0..out.len() { vp::trace(out[i] as u64); }
    vp::reach(id);
}


// ---- independent encoder: the canonical compressed form -----------------------------------
struct Codes<const M: usize> { code: [u8; M], n: usize, exc: [u8; M], e: usize }
impl<const M: usize> Codes<M> {
    fn new() -> Self { Codes { code: [0; M], n: 0, exc: [0; M], e: 0 } }
    fn item(&mut self, d: u32) {
        let mut last = 0u8;
        for b in 0..32u8 {
            if d >> b & 1 == 1 {
                let g = b + 1 - last;
                last = b + 1;
                if g >= 7 { self.code[self.n] = 7; self.exc[self.e] = g - 7; self.e += 1; } else { self.code[self.n] = g; }
                self.n += 1;
            }
        }
        self.code[self.n] = 0;
        self.n += 1;
    }
}
fn packed_bit(codes: &[u8], n: usize, w: usize, bit: usize) -> u8 { if bit < n * w { codes[bit / w] >> (bit % w) & 1 } else { 0 } }
fn packed_byte(codes: &[u8], n: usize, w: usize, byte: usize) -> u8 {
    let mut v = 0;
    for k in 0..8 { v |= packed_bit(codes, n, w, byte * 8 + k) << k; }
    v
}
fn check_ref<const M: usize>(fp: &[u32], id: u32) {
    let mut c = Codes::<M>::new();
    let mut prev = 0;
    for &v in fp { c.item(v ^ prev); prev = v; }
    let config = Configuration::default().with_id(vp::u8());
    let out = FingerprintCompressor::from(&config).compress(fp);
    let n = fp.len();
    let (a, b) = ((c.n * 3 + 7) / 8, (c.e * 5 + 7) / 8);
    vp::assert(out.len() == 4 + a + b, id);
    vp::assert(out[0] == config.id(), id + 1);
    vp::assert(out[1] == (n >> 16) as u8 && out[2] == (n >> 8) as u8 && out[3] == n as u8, id + 2);
    for i in 0..a { vp::assert(out[4 + i] == packed_byte(&c.code, c.n, 3, i), id + 3); }
    for i in 0..b { vp::assert(out[4 + a + i] == packed_byte(&c.exc, c.e, 5, i), id + 4); }
    vp::trace(out.len() as u64);
    for i in 0..out.len() { vp::trace(out[i] as u64); }
    vp::reach(id);
}
h! {
// C01: what an independent decoder reads back
h_dec_low { let v = vp::u32() & 0x3fff; check::<1>(&[v], 1, 15, 100); }
h_dec_mid { let v = vp::u32() & 0x03ff_e000; check::<1>(&[v], 1, 14, 110); }
h_dec_top { let v = vp::u32() & 0xfff8_0000; check::<1>(&[v], 1, 14, 120); }
h_dec_wide { let v = vp::u32() & 0xa215_0835; check::<1>(&[v], 1, 12, 130); }
h_dec_two { let a = vp::u32() & 0x8041_0042; let b = vp::u32() & 0x0101_8002; check::<2>(&[a, b], 2, 14, 140); }
h_dec_three { let a = vp::u32() & 0x8000_0080; let b = vp::u32() & 0x1100_0000; let c = vp::u32() & 0x0000_0201; check::<3>(&[a, b, c], 3, 15, 150); }

// C02: byte for byte against an independent encoder
h_enc_low { let v = vp::u16() as u32; check_ref::<34>(&[v], 200); }
h_enc_high { let v = vp::u16() as u32; check_ref::<34>(&[v << 16], 210); }
h_enc_wide { let v = vp::u32() & 0x8c21_0a87; check_ref::<34>(&[v], 220); }
h_enc_two { let a = vp::u8() as u32; let b = vp::u8() as u32; check_ref::<40>(&[a << 3, b << 20], 230); }
h_enc_three { let a = vp::u32() & 0x8020_0840; let b = vp::u32() & 0x0101_8002; let c = vp::u32() & 0x8010_0001; check_ref::<40>(&[a, b, c], 240); }
h_enc_none { check_ref::<4>(&[], 250); }
// item counts that need the second size byte, equal items
h_enc_many { let v = vp::u32() & 0x8080_0003; check_ref::<310>(&[v; 300], 260); }
// item counts that need the third size byte
h_enc_huge { let v = vp::u32() & 1; let fp = vec![v; 65794];
    let config = Configuration::default().with_id(vp::u8());
    let out = FingerprintCompressor::from(&config).compress(&fp);
    vp::assert(out.len() >= 4 && out[0] == config.id() && out[1] == 1 && out[2] == 1 && out[3] == 2, 270);
    vp::reach(270);
}
}
entries!(h_dec_low, h_dec_mid, h_dec_top, h_dec_wide, h_dec_two, h_dec_three, h_enc_low, h_enc_high, h_enc_wide, h_enc_two, h_enc_three, h_enc_none, h_enc_many, h_enc_huge);
