// C27, C28, C31: fpcalc's main program, compiled against recording stand-ins for the crates it uses.
include!("/verif/harness/prelude.rs");
#[allow(static_mut_refs, dead_code)]
mod cap {
    /// what was printed
    pub static mut TEXT: [u8; 2048] = [0; 2048];
    pub static mut LEN: usize = 0;
    pub struct W;
    impl core::fmt::Write for W {
        fn write_str(&mut self, s: &str) -> core::fmt::Result { for c in s.bytes() { unsafe { TEXT[LEN] = c; LEN += 1; } } Ok(()) }
    }
    pub fn out(a: core::fmt::Arguments) { let _ = core::fmt::Write::write_fmt(&mut W, a); }
    pub fn text() -> &'static [u8] { unsafe { &TEXT[..LEN] } }
}
macro_rules! print { ($($t:tt)*) => { crate::cap::out(core::format_args!($($t)*)) } }
macro_rules! println { () => { crate::cap::out(core::format_args!("\n")) }; ($($t:tt)*) => {{ crate::cap::out(core::format_args!($($t)*)); crate::cap::out(core::format_args!("\n")) }} }
#[allow(unused_macros)]
macro_rules! eprintln { ($($t:tt)*) => {{ let _ = core::format_args!($($t)*); }} }
#[path = "/repo/fpcalc/src/main.rs"]
mod fpcalc;
use clap::Value;
use rusty_chromaprint as rec;
use symphonia as sym;

const AUDIO: u32 = 5;
fn begin() {
    clap::clear();
    clap::give("file", Value::Text("/dev/null"));
    unsafe { cap::LEN = 0; clap::REFUSED = refused; }
    let w = sym::vp_world();
    w.rate = 3; w.channels = 1; w.audio_track = AUDIO; w.capacity = 1; w.count = 0;
    let r = rec::vp_world();
    r.id = 255; r.starts = 0; r.misuse = 0; r.heard_len = 0; r.finish_len = 0; r.hop = 1; r.lag = 0; r.eager = false; r.use_fixed = false; r.delay = 0; r.config_rate = 3;
}
fn end(ok: bool) { vp::assert(ok, 1); vp::assert(rec::vp_world().misuse == 0, 2); }

// ---- the algorithm option
static mut GIVEN: [u8; 8] = [0; 8];
static mut GIVEN_LEN: usize = 0;
/// the integer a text denotes in the way Rust's integers are read: an optional plus sign and digits
#[allow(static_mut_refs)]
fn denoted() -> Option<u32> {
    let s = unsafe { &GIVEN[..GIVEN_LEN] };
    let d = if s.len() > 1 && s[0] == b'+' { &s[1..] } else { s };
    if d.is_empty() { return None }
    let mut v = 0u32;
    for &c in d { if c < b'0' || c > b'9' { return None } v = v * 10 + (c - b'0') as u32; }
    Some(v)
}
fn refused(name: &'static str) -> ! {
vp::assert(name == "algorithm", 3);
    vp::assert(match denoted() { Some(v) => v > 4, None => true }, 4);
    vp::reach(2);
    vp::assume(false);
    loop {}
}
#[allow(static_mut_refs)]
fn algorithm(n: usize) {
    begin();
    unsafe { for k in 0..n { GIVEN[k] = vp::u8(); } GIVEN_LEN = n; }
    let s: &'static [u8] = unsafe { &GIVEN[..n] };
    // any valid UTF-8 text
    vp::assume(core::str::from_utf8(s).is_ok());
    clap::give("algorithm", Value::Text(unsafe { core::str::from_utf8_unchecked(s) }));
    let r = fpcalc::main();
    end(r.is_ok());
    let id = rec::vp_world().id;
    vp::assert(denoted() == Some(id as u32), 5);
    vp::trace(id as u64);
    vp::reach(10 + vp::fork(id as usize, 5) as u32);
}

// ---- the main loop
/// packets of 0..=max frames, `others` telling which belong to another track
fn packets(n: usize, max: usize, channels: u32, others: &[usize]) -> usize {
    let w = sym::vp_world();
    w.channels = channels; w.capacity = max; w.count = n;
    for s in w.samples.iter_mut().take(n * max * channels as usize) { *s = vp::i16(); }
    let mut at = 0;
    let mut frames = 0;
    for k in 0..n {
        let f = vp::len(max);
        let other = others.contains(&k);
        w.packets[k] = sym::Pkt { track: if other { AUDIO + 2 } else { AUDIO }, from: at, to: at + f * channels as usize, fails: 0 };
        at += f * channels as usize;
        if !other { frames += f; }
    }
    frames
}
struct Job { rate: usize, length: usize, chunk: Option<usize>, overlap: bool, delay: usize, hop: usize, lag: usize, eager: bool }
fn number(t: &[u8], at: &mut usize) -> Option<u32> {
    let mut v = 0u32; let from = *at;
    while *at < t.len() && t[*at] >= b'0' && t[*at] <= b'9' { v = v * 10 + (t[*at] - b'0') as u32; *at += 1; }
    if *at == from { None } else { Some(v) }
}
fn run(j: &Job, total: usize) {
    let w = sym::vp_world();
    let r = rec::vp_world();
    w.rate = j.rate as u32; r.config_rate = j.rate as u32; r.delay = j.delay; r.hop = j.hop; r.lag = j.lag; r.eager = j.eager;
    clap::give("length", Value::Number(j.length as u64));
    if let Some(c) = j.chunk { clap::give("chunk", Value::Number(c as u64)); }
    clap::give("overlap", Value::Flag(j.overlap));
    clap::give("raw", Value::Flag(true));
    clap::give("output-format", Value::Text("plain"));
    let res = fpcalc::main();
    end(res.is_ok());
    // frames handed over: those of the selected track, in order, up to the limit
    let ch = w.channels as usize;
    let limit = j.length as u128 * j.rate as u128;
    let n = if limit > 0 && limit < total as u128 { limit as usize } else { total };
    vp::assert(r.rate == j.rate as u32 && r.channels == w.channels, 20);
    vp::assert(r.heard_len == n * ch, 21);
    if r.heard_len != n * ch { return }
    let mut i = 0;
    for k in 0..w.count {
        if w.packets[k].track != AUDIO { continue }
        let mut p = w.packets[k].from;
        while p < w.packets[k].to && i < n * ch { vp::assert(r.heard[i] == w.samples[p], 22); i += 1; p += 1; }
    }
    // results: one line for each part
    let t = cap::text();
    let c = j.chunk.unwrap_or(0) as u128 * j.rate as u128;
    let (mut from, mut shown, mut part, mut at) = (0usize, 0usize, 0usize, 0usize);
    while from < n {
        let first = if j.overlap && part == 0 { j.delay as u128 } else { 0 };
        let to = if c == 0 || (n - from) as u128 <= c + first { n } else { from + (c + first) as usize };
        let keep = j.overlap && c > 0;
        let len = if keep { to } else { to - from };
        let items = if len < j.lag { 0 } else { (len - j.lag) / j.hop };
        let mut k = if keep { shown } else { 0 };
        let mut lead = true;
        while k < items {
            if !lead { vp::assert(at < t.len() && t[at] == b',', 23); at += 1; }
            lead = false;
            vp::assert(number(t, &mut at) == Some(((if keep { 1 } else { part + 1 }) * 100 + k) as u32), 24);
            k += 1;
        }
        vp::assert(at < t.len() && t[at] == b'\n', 25);
        at += 1;
        shown = items;
        part += 1; from = to;
    }
    vp::assert(at == t.len(), 26);
    vp::trace(part as u64); vp::trace(n as u64);
    vp::reach(if part > 1 { 31 } else { 30 });
}

// ---- what is printed
/// a number as a sign and decimal digit pairs, highest first: built this way, the divisions of
/// the number formatting can be rewritten, and each printed pair is compared by itself
#[derive(Clone, Copy)]
struct Num { neg: bool, pairs: [u32; 5] }
impl Num {
    fn value(&self) -> u32 {
        let p = &self.pairs;
        let x = (((p[0].wrapping_mul(100).wrapping_add(p[1])).wrapping_mul(100).wrapping_add(p[2])).wrapping_mul(100).wrapping_add(p[3])).wrapping_mul(100).wrapping_add(p[4]);
        if self.neg { 0u32.wrapping_sub(x) } else { x }
    }
}
static mut NUMS: [[Num; 4]; 4] = [[Num { neg: false, pairs: [0; 5] }; 4]; 4];
fn put(i: usize, k: usize, n: Num) { unsafe { NUMS[i][k] = n; } rec::vp_world().fixed[i][k] = n.value(); }
/// every number up to the one with the given pairs (whose first is at least 2): zero, for every
/// position of the first pair that is not 0 all numbers up to 10^8, above that everything that
/// starts like the limit and is lower in the next pair, and the limit itself
fn arbitrary(max: [u32; 5], neg: bool) -> Num {
    let case = vp::fork(vp::upto(10) as usize, 10);
    let any = [vp::upto(99) as u32, vp::upto(99) as u32, vp::upto(99) as u32, vp::upto(99) as u32];
    let first = 1 + vp::upto(98) as u32;
    let below = [1 + vp::upto(max[0] as u64 - 2) as u32, vp::upto(max[1] as u64 - 1) as u32, vp::upto(max[2] as u64 - 1) as u32, vp::upto(max[3] as u64 - 1) as u32, vp::upto(max[4] as u64 - 1) as u32];
    let mut pairs = [0; 5];
    for k in 0..5 {
        if case < 6 { pairs[k] = if k < case { max[k] } else if k == case { below[k] } else { any[k - 1] }; }
        else if case < 10 && k + 5 >= case { pairs[k] = if k + 5 == case { first } else { any[k - 1] }; }
    }
    Num { neg, pairs }
}
fn small(x: u32) -> Num { Num { neg: false, pairs: [0, 0, 0, 0, x] } }
struct Rd { at: usize }
impl Rd {
    fn lit(&mut self, s: &[u8]) { let t = cap::text(); for &c in s { vp::assert(self.at < t.len() && t[self.at] == c, 40); self.at += 1; } }
    fn digit(&self) -> Option<u32> { let t = cap::text(); if self.at < t.len() { let c = t[self.at]; if c >= b'0' && c <= b'9' { return Some((c - b'0') as u32) } } None }
    fn peek(&self) -> u8 { let t = cap::text(); if self.at < t.len() { t[self.at] } else { 0 } }
    /// a number without superfluous zeros
    fn number(&mut self, want: &Num, signed: bool) {
        let zero = want.pairs[0] | want.pairs[1] | want.pairs[2] | want.pairs[3] | want.pairs[4] == 0;
        if signed { vp::assert((self.peek() == b'-') == (want.neg & !zero), 44); if self.peek() == b'-' { self.at += 1; } }
        let from = self.at;
        while self.at < from + 10 && self.digit().is_some() { self.at += 1; }
        let n = self.at - from;
        vp::assert(n > 0, 41);
        vp::assert(n == 1 || cap::text()[from] != b'0', 42);
        // from the last digits upwards
        let mut left = n; let mut k = 5;
        while k > 0 {
            k -= 1;
            let d = |q: usize| (cap::text()[from + q] - b'0') as u32;
            let v = if left >= 2 { d(left - 2) * 10 + d(left - 1) } else if left == 1 { d(0) } else { 0 };
            left = if left >= 2 { left - 2 } else { 0 };
            vp::assert(v == want.pairs[k], 43);
        }
    }
    /// a decimal number, in hundredths if it has at most two decimals, and the number of decimals
    fn decimal(&mut self) -> (f64, usize) {
        let mut v = 0.0; let mut scale = 1.0; let mut n = 0; let from = self.at;
        while let Some(d) = self.digit() { v = v * 10.0 + d as f64; self.at += 1; }
        vp::assert(self.at > from, 45);
        if self.peek() == b'.' {
            self.at += 1;
            while let Some(d) = self.digit() { v = v * 10.0 + d as f64; scale *= 10.0; self.at += 1; n += 1; }
            vp::assert(n > 0, 46);
        }
        (v / scale, n)
    }
    fn two(&mut self, want: f64) { let (v, n) = self.decimal(); vp::assert(n == 2 && (v - want).abs() < 0.0051, 47); }
    fn full(&mut self, want: f64) { let (v, _) = self.decimal(); vp::assert((v - want).abs() <= want * 1e-9, 48); }
    fn base64(&mut self, want: &[u8]) {
        let mut i = 0;
        while i < want.len() {
            let n = if want.len() - i < 3 { want.len() - i } else { 3 };
            let mut acc = 0u32;
            for _ in 0..n + 1 {
                let c = self.peek() as u32;
                let (up, lo, di) = (c >= 65 && c <= 90, c >= 97 && c <= 122, c >= 48 && c <= 57);
                vp::assert(up | lo | di | (c == 45) | (c == 95), 49);
                let v = (if up { c.wrapping_sub(65) } else { 0 }) | (if lo { c.wrapping_sub(71) } else { 0 }) | (if di { c.wrapping_add(4) } else { 0 }) | (if c == 45 { 62 } else { 0 }) | (if c == 95 { 63 } else { 0 });
                acc = acc << 6 | v;
                self.at += 1;
            }
            acc <<= 6 * (3 - n);
            for k in 0..n { vp::assert((acc >> (16 - 8 * k)) as u8 == want[i + k], 50); }
            vp::assert(acc & ((1u32 << (24 - 8 * n)) - 1) == 0, 51);
            i += n;
        }
    }
}
#[derive(Clone, Copy)]
struct Show { format: u8, raw: bool, signed: bool, ts: bool, chunk: Option<usize>, overlap: bool }
/// total frames in packets of 2, one item per hop frames, rate 4; the items are in rec's table
fn show(o: Show, total: usize, hop: usize, delay: usize) {
    let w = sym::vp_world();
    let r = rec::vp_world();
    w.rate = 4; r.config_rate = 8; r.delay = delay; r.hop = hop; r.use_fixed = true; r.eager = true;
    w.capacity = 2; w.count = (total + 1) / 2;
    for k in 0..w.count { w.packets[k] = sym::Pkt { track: AUDIO, from: 2 * k, to: if 2 * k + 2 < total { 2 * k + 2 } else { total }, fails: 0 }; }
    unsafe { chrono::MICROS = 1_234_567_890_125_000; }
    clap::give("output-format", Value::Text(match o.format { 0 => "text", 1 => "json", _ => "plain" }));
    clap::give("raw", Value::Flag(o.raw)); clap::give("signed", Value::Flag(o.signed)); clap::give("ts", Value::Flag(o.ts)); clap::give("overlap", Value::Flag(o.overlap));
    if let Some(c) = o.chunk { clap::give("chunk", Value::Number(c as u64)); }
    let res = fpcalc::main();
    end(res.is_ok());
    let mut p = Rd { at: 0 };
    let c = o.chunk.unwrap_or(0) * 4;
    let keep = o.overlap && c > 0;
    let over = if keep { delay as f64 / 8.0 } else { 0.0 };
    let (mut from, mut shown, mut part) = (0, 0, 0);
    while from < total {
        let extra = if keep && part == 0 { delay } else { 0 };
        let to = if c == 0 || total - from <= c + extra { total } else { from + c + extra };
        let items = (if keep { to } else { to - from }) / hop;
        let list = &r.fixed[if keep { 0 } else { part }][if keep { shown } else { 0 }..items];
        let secs = (if to - from > extra { to - from - extra } else { 0 }) as f64 / 4.0 + over;
        // without -ts, results are stamped with their position in the stream
        let stamp = if o.ts { 1_234_567_890.125 - if part > 0 { over } else { 0.0 } } else { part as f64 * c as f64 / 4.0 };
        match o.format {
            0 => {
                if part > 0 { p.lit(b"\n"); }
                if o.ts { p.lit(b"TIMESTAMP="); p.two(stamp); p.lit(b"\n"); }
                p.lit(b"DURATION="); p.full(secs); p.lit(b"\nFINGERPRINT=");
            }
            1 => {
                p.lit(b"{");
                if c > 0 { p.lit(b"\"timestamp\": "); p.two(stamp); p.lit(b", "); }
                p.lit(b"\"duration\": "); p.two(secs); p.lit(b", \"fingerprint\": ");
                p.lit(if o.raw { b"[" } else { b"\"" });
            }
            _ => {}
        }
        if o.raw {
            for k in 0..list.len() { if k > 0 { p.lit(b","); } p.number(unsafe { &NUMS[if keep { 0 } else { part }][if keep { shown } else { 0 } + k] }, o.signed); }
        } else {
            let mut bytes = [0u8; 40];
            bytes[0] = r.id;
            for (k, &x) in list.iter().enumerate() { for b in 0..4 { bytes[1 + 4 * k + b] = (x >> (8 * b)) as u8; } }
            p.base64(&bytes[..1 + 4 * list.len()]);
        }
        if o.format == 1 { p.lit(if o.raw { b"]}" } else { b"\"}" }); }
        p.lit(b"\n");
        shown = items; part += 1; from = to;
    }
    vp::assert(p.at == cap::text().len(), 52);
    vp::reach(60 + part as u32);
}
fn some(c: usize) -> Option<usize> { if c == 0 { None } else { Some(c) } }
fn bit() -> bool { vp::fork(vp::upto(1) as usize, 1) == 1 }
fn one(signed: bool) {
    begin();
    if signed {
        let kind = vp::len(2);
        let n = arbitrary([21, 47, 48, 36, 47], kind == 1);
        put(0, 0, if kind == 2 { Num { neg: true, pairs: [21, 47, 48, 36, 48] } } else { n });
    } else { put(0, 0, arbitrary([42, 94, 96, 72, 95], false)); }
    show(Show { format: 2, raw: true, signed, ts: false, chunk: None, overlap: false }, 2, 2, 0)
}
/// the numbers at the ends of the ranges
fn ends() {
    begin();
    let signed = bit();
    let all = if signed { [(false, [0, 0, 0, 0, 0]), (false, [21, 47, 48, 36, 47]), (true, [21, 47, 48, 36, 48]), (true, [21, 47, 48, 36, 47]), (true, [0, 0, 0, 0, 1])] } else { [(false, [0, 0, 0, 0, 1]), (false, [21, 47, 48, 36, 47]), (false, [21, 47, 48, 36, 48]), (false, [21, 47, 48, 36, 49]), (false, [42, 94, 96, 72, 95])] };
    for k in 0..3 { let (neg, pairs) = all[vp::len(4)]; put(0, k, Num { neg, pairs }); }
    show(Show { format: 2, raw: true, signed, ts: false, chunk: None, overlap: false }, 6, 2, 0)
}
fn options(raw: bool, chunk: Option<usize>, overlap: bool, total: usize, hop: usize) {
    begin();
    let (format, signed, ts) = (vp::len(2) as u8, bit(), bit());
    let r = rec::vp_world();
    for i in 0..4 { for k in 0..4 { if raw { put(i, k, small(vp::upto(9) as u32)); } else { r.fixed[i][k] = vp::u32(); } } }
    show(Show { format, raw, signed, ts, chunk, overlap }, total, hop, 2)
}
/// a result of 240 items, numbered from 100
fn many() {
    begin();
    let (format, raw, signed) = (vp::len(2) as u8, bit(), bit());
    let w = sym::vp_world();
    let r = rec::vp_world();
    w.rate = 4; r.config_rate = 4; w.capacity = 30; w.count = 8;
    for k in 0..8 { w.packets[k] = sym::Pkt { track: AUDIO, from: 30 * k, to: 30 * k + 30, fails: 0 }; }
    for k in 0..240 { w.samples[k] = if k % 9 == 0 { vp::i16() } else { k as i16 }; }
    clap::give("output-format", Value::Text(match format { 0 => "text", 1 => "json", _ => "plain" }));
    clap::give("raw", Value::Flag(raw)); clap::give("signed", Value::Flag(signed));
    let res = fpcalc::main();
    end(res.is_ok());
    let mut p = Rd { at: 0 };
    match format {
        0 => { p.lit(b"DURATION="); p.full(60.0); p.lit(b"\nFINGERPRINT="); }
        1 => { p.lit(b"{\"duration\": "); p.two(60.0); p.lit(b", \"fingerprint\": "); p.lit(if raw { b"[" } else { b"\"" }); }
        _ => {}
    }
    if raw {
        for k in 0..240u32 { if k > 0 { p.lit(b","); } let x = 100 + k; p.lit(&[b'0' + (x / 100) as u8, b'0' + (x / 10 % 10) as u8, b'0' + (x % 10) as u8]); }
    } else {
        let mut bytes = [0u8; 961];
        bytes[0] = r.id;
        for k in 0..240u32 { for b in 0..4 { bytes[1 + 4 * k as usize + b] = ((100 + k) >> (8 * b)) as u8; } }
        p.base64(&bytes);
    }
    if format == 1 { p.lit(if raw { b"]}" } else { b"\"}" }); }
    p.lit(b"\n");
    vp::assert(p.at == cap::text().len(), 52);
    vp::reach(60);
}
h! {
    h_count { many() }
    h_num { one(false) }
    h_snum { one(true) }
    h_ends { ends() }
    h_opt1 { options(true, None, false, 6, 2) }
    h_opt2 { options(true, Some(1), false, 10, 2) }
    h_opt3 { options(true, Some(1), true, 12, 3) }
    h_b641 { options(false, None, false, 6, 2) }
    h_b642 { options(false, Some(1), false, 10, 2) }
    h_b643 { options(false, Some(1), true, 12, 3) }
    h_b644 { options(false, None, false, 1, 2) }
    h_alg0 { algorithm(0) }
    h_alg1 { algorithm(1) }
    h_alg2 { algorithm(2) }
    h_alg3 { algorithm(3) }
    h_alg4 { algorithm(4) }
    h_alg5 { algorithm(5) }
    h_lim { begin(); let n = packets(3, 4, 1, &[]); run(&Job { rate: 2, length: vp::len(5), chunk: None, overlap: bit(), delay: 1, hop: 1, lag: 0, eager: bit() }, n) }
    h_chunk { begin(); let n = packets(4, 4, 1, &[1]); run(&Job { rate: 2, length: vp::len(3), chunk: Some(vp::range(1, 2)), overlap: false, delay: 1, hop: 1, lag: 0, eager: bit() }, n) }
    h_chunk1 { begin(); let n = packets(3, 6, 1, &[]); run(&Job { rate: 1, length: 0, chunk: Some(vp::range(1, 4)), overlap: false, delay: 2, hop: vp::range(1, 2), lag: vp::len(1), eager: bit() }, n) }
    h_over { begin(); let n = packets(4, 4, 1, &[2]); run(&Job { rate: 2, length: vp::len(3), chunk: Some(vp::range(1, 2)), overlap: true, delay: vp::len(3), hop: 1, lag: 0, eager: bit() }, n) }
    h_over1 { begin(); let n = packets(3, 6, 1, &[]); run(&Job { rate: 1, length: 0, chunk: Some(vp::range(1, 3)), overlap: true, delay: vp::len(4), hop: vp::range(1, 2), lag: vp::len(1), eager: bit() }, n) }
    h_stereo { begin(); let n = packets(3, 3, 2, &[0]); run(&Job { rate: 2, length: vp::len(2), chunk: some(vp::len(2)), overlap: bit(), delay: vp::len(2), hop: 1, lag: 0, eager: bit() }, n) }
    h_three { begin(); let n = packets(2, 4, 3, &[]); run(&Job { rate: 1, length: vp::len(5), chunk: some(vp::len(3)), overlap: bit(), delay: vp::len(1), hop: 1, lag: 0, eager: bit() }, n) }
    h_reset { begin(); let mut n = packets(3, 4, 1, &[]); let w = sym::vp_world(); let k = vp::len(2); w.packets[k].fails = 2; for i in k..3 { n -= w.packets[i].to - w.packets[i].from; } w.count = k + 1; w.packets[k].to = w.packets[k].from; run(&Job { rate: 1, length: vp::len(4), chunk: some(vp::len(3)), overlap: bit(), delay: 1, hop: 1, lag: 0, eager: true }, n) }
    h_many { begin(); let n = packets(6, 2, 1, &[]); run(&Job { rate: 1, length: 7 * vp::len(1), chunk: Some(vp::range(1, 4)), overlap: bit(), delay: vp::len(2), hop: 1, lag: 0, eager: true }, n) }
    h_huge { begin(); let n = packets(2, 3, 1, &[]); let big = [usize::MAX, usize::MAX / 2 + 1, usize::MAX / 3 + 1, usize::MAX - 1, usize::MAX / 3]; let (l, c) = (vp::len(5), vp::len(5)); run(&Job { rate: 3, length: if l == 5 { 1 } else { big[l] }, chunk: if c == 5 { None } else { Some(big[c]) }, overlap: bit(), delay: 2, hop: 1, lag: 0, eager: false }, n) }
    h_alg6 { algorithm(6) }
    h_alg8 { algorithm(8) }
    h_algd { begin(); let r = fpcalc::main(); end(r.is_ok()); vp::assert(rec::vp_world().id == 1, 6); vp::reach(1); }
}
entries!(h_count, h_num, h_snum, h_ends, h_opt1, h_opt2, h_opt3, h_b641, h_b642, h_b643, h_b644, h_lim, h_chunk, h_chunk1, h_over, h_over1, h_stereo, h_three, h_many, h_huge, h_reset, h_alg6, h_alg8, h_alg0, h_alg1, h_alg2, h_alg3, h_alg4, h_alg5, h_algd);
