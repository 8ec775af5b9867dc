// C32: compare's main program, compiled against recording stand-ins for the crates it uses.
include!("/verif/harness/prelude.rs");
#[allow(static_mut_refs, dead_code)]
mod cap {
    /// what was printed
    pub static mut TEXT: [u8; 2048] = [0; 2048];
    pub static mut LEN: usize = 0;
    pub struct W;
    impl core::fmt::Write for W {
        fn write_str(&mut self, s: &str) -> core::fmt::Result { for c in s.bytes() { unsafe { TEXT[LEN] = c; LEN += 1; } } Ok(()) }
    }
    pub fn out(a: core::fmt::Arguments) { let _ = core::fmt::Write::write_fmt(&mut W, a); }
    pub fn text() -> &'static [u8] { unsafe { &TEXT[..LEN] } }
}
#[allow(unused_macros)]
macro_rules! print { ($($t:tt)*) => { crate::cap::out(core::format_args!($($t)*)) } }
macro_rules! println { () => { crate::cap::out(core::format_args!("\n")) }; ($($t:tt)*) => {{ crate::cap::out(core::format_args!($($t)*)); crate::cap::out(core::format_args!("\n")) }} }
#[allow(unused_macros)]
macro_rules! eprintln { ($($t:tt)*) => {{ let _ = core::format_args!($($t)*); }} }
#[path = "/repo/compare/src/utils.rs"]
mod utils;
#[path = "/repo/compare/src/main.rs"]
mod compare;
use rusty_chromaprint as rec;
use symphonia as sym;

const AUDIO: u32 = 5;
struct Args([*const i8; 4]);
unsafe impl Sync for Args {}
static ARGV: Args = Args([c"compare".as_ptr() as _, c"a.py".as_ptr() as _, c"b.json".as_ptr() as _, core::ptr::null()]);

// what the matcher was given, and what it says
static mut CALLS: usize = 0;
static mut A: ([u32; 32], usize) = ([0; 32], 0);
static mut B: ([u32; 32], usize) = ([0; 32], 0);
static mut CONFIG: u8 = 255;
static mut ROWS: usize = 0;
const NONE: rec::Segment = rec::Segment { offset1: 0, offset2: 0, items_count: 0, score: 0.0, times: [0.0; 5] };
static mut SEGMENTS: [rec::Segment; 3] = [NONE; 3];
#[allow(static_mut_refs)]
fn matched(a: &[u32], b: &[u32], c: &rec::Configuration) -> Vec<rec::Segment> {
    unsafe {
        CALLS += 1; CONFIG = c.id();
        let mut i = 0; while i < a.len() { A.0[i] = a[i]; i += 1; } A.1 = a.len();
        i = 0; while i < b.len() { B.0[i] = b[i]; i += 1; } B.1 = b.len();
        let mut v = Vec::with_capacity(4);
        for k in 0..ROWS { v.push(SEGMENTS[k].clone()); }
        v
    }
}
/// packets of up to `max` frames; kinds: 0 a packet, 1 of another track, 2 cannot be decoded, 3 the decoder gives up.
/// Returns the number of frames that must be heard.
fn packets(from: usize, n: usize, at: &mut usize, max: usize, channels: u32, kinds: &[usize]) -> usize {
    let w = sym::vp_world();
    let (mut frames, mut over) = (0, false);
    for k in 0..n {
        let f = vp::len(max);
        let kind = kinds[k];
        w.packets[from + k] = sym::Pkt { track: if kind == 1 { AUDIO + 2 } else { AUDIO }, from: *at, to: *at + f * channels as usize, fails: if kind == 2 { 1 } else if kind == 3 { 2 } else { 0 } };
        *at += f * channels as usize;
        if kind == 3 { over = true; }
        if kind == 0 && !over { frames += f; }
    }
    frames
}
fn setup(ch: [u32; 2], rate: [u32; 2], layout: bool, hop: usize) {
    vp::args(unsafe { &*(&ARGV.0[..3] as *const [*const i8]) });
    unsafe { cap::LEN = 0; CALLS = 0; ROWS = 0; CONFIG = 255; A.1 = 0; B.1 = 0; rec::MATCHED = matched; }
    let w = sym::vp_world();
    w.channels = ch[0]; w.channels2 = ch[1]; w.rate = rate[0]; w.rate2 = rate[1]; w.layout = layout; w.audio_track = AUDIO; w.capacity = 4; w.opens = 0;
    let r = rec::vp_world();
    r.id = 255; r.starts = 0; r.misuse = 0; r.heard_len = 0; r.finish_len = 0; r.hop = hop; r.lag = 0; r.eager = false; r.use_fixed = false; r.delay = 0; r.config_rate = 3;
}
#[allow(static_mut_refs)]
fn heard(ch: [u32; 2], rate: [u32; 2], max: usize, hop: usize, kinds: [&[usize]; 2], layout: bool) {
    setup(ch, rate, layout, hop);
    let w = sym::vp_world();
    let r = rec::vp_world();
    w.split = kinds[0].len(); w.count = w.split + kinds[1].len();
    for s in w.samples.iter_mut().take(w.count * max * 3) { *s = vp::i16(); }
    let mut at = 0;
    let n = [packets(0, w.split, &mut at, max, ch[0], kinds[0]), packets(w.split, w.count - w.split, &mut at, max, ch[1], kinds[1])];
    let res = compare::main();
    vp::assert(res.is_ok(), 1);
    vp::assert(r.misuse == 0, 2);
    // both files, once each
    vp::assert(w.opens == 2 && r.starts == 2 && r.finish_len == 2, 3);
    vp::assert(w.opened[0] != w.opened[1], 4);
    if !(w.opens == 2 && r.starts == 2 && r.finish_len == 2) { return }
    let mut i = 0;
    for s in 0..2 {
        let file = w.opened[s] as usize;
        vp::assert(r.start_at[s] == i && r.rates[s] == rate[file] && r.chans[s] == ch[file], 5);
        let mut left = n[file];
        for k in if file == 0 { 0..w.split } else { w.split..w.count } {
            let p = w.packets[k];
            if p.fails == 2 { break }
            if p.track != AUDIO || p.fails > 0 { continue }
            for q in p.from..p.to { vp::assert(i < r.heard_len && r.heard[i] == w.samples[q], 6); i += 1; }
            left -= (p.to - p.from) / ch[file] as usize;
        }
        vp::assert(left == 0 && r.finishes[s] == i, 7);
        // the matcher is given the items of the first file, then those of the second
        let got = unsafe { if file == 0 { &A } else { &B } };
        let items = n[file] / hop;
        vp::assert(got.1 == items, 8);
        for k in 0..items { vp::assert(got.0[k] == ((s + 1) * 100 + k) as u32, 9); }
    }
    vp::assert(r.heard_len == i, 10);
    vp::assert(unsafe { CALLS == 1 && CONFIG == r.id }, 11);
    vp::trace(i as u64); vp::trace(n[0] as u64); vp::trace(n[1] as u64);
    vp::reach(1);
}

struct Rd { at: usize }
impl Rd {
    fn peek(&self) -> u8 { let t = cap::text(); if self.at < t.len() { t[self.at] } else { 0 } }
    fn gap(&mut self) { while self.peek() == b' ' { self.at += 1; } }
    /// a text with any space around it
    fn word(&mut self, s: &[u8], id: u32) { self.gap(); for &c in s { vp::assert(self.peek() == c, id); self.at += 1; } self.gap(); }
    fn line(&mut self) { let t = cap::text(); while self.at < t.len() && t[self.at] != b'\n' { self.at += 1; } vp::assert(self.at < t.len(), 30); self.at += 1; }
}
const TIMES: [(f32, &[u8]); 6] = [(0.0, b"0:00:00.00"), (61.25, b"0:01:01.25"), (3723.5, b"1:02:03.50"), (12.0, b"0:00:12.00"), (359999.0, b"99:59:59.00"), (0.126, b"0:00:00.13")];
const SCORES: [(f64, &[u8]); 5] = [(0.0, b"0.00"), (9.5, b"9.50"), (2.0 / 3.0, b"0.67"), (9.999, b"10.00"), (7.25, b"7.25")];
#[allow(static_mut_refs)]
fn rows(n: usize) {
    setup([1, 1], [3, 3], false, 1);
    let w = sym::vp_world();
    w.split = 1; w.count = 2;
    w.packets[0] = sym::Pkt { track: AUDIO, from: 0, to: 2, fails: 0 };
    w.packets[1] = sym::Pkt { track: AUDIO, from: 2, to: 4, fails: 0 };
    // one row has arbitrary fields of the tables, the others fixed ones
    let mut pick = [[0, 1, 2, 3, 4, 1], [5, 3, 1, 2, 1, 2], [4, 4, 0, 5, 3, 4]];
    let k = if n > 0 { vp::len(n - 1) } else { 0 };
    let (a, b, c, d) = (vp::len(5), vp::len(4), vp::len(5), vp::len(5));
    if n > 0 { pick[k] = [a, (a + 1 + d) % 6, c, (c + 2 + d) % 6, d, b]; }
    // the offsets must not matter
    for k in 0..3 { let p = &pick[k]; unsafe { SEGMENTS[k] = rec::Segment { offset1: vp::u8() as usize, offset2: vp::u8() as usize, items_count: vp::u8() as usize, score: SCORES[p[5]].0, times: [TIMES[p[0]].0, TIMES[p[1]].0, TIMES[p[2]].0, TIMES[p[3]].0, TIMES[p[4]].0] }; } }
    unsafe { ROWS = n; }
    let res = compare::main();
    vp::assert(res.is_ok(), 1);
    let mut p = Rd { at: 0 };
    p.line(); p.line();
    for k in 0..n {
        let q = &pick[k];
        p.word(&[b'1' + k as u8], 31);
        p.word(b"|", 32); p.word(TIMES[q[0]].1, 33); p.word(b"--", 32); p.word(TIMES[q[1]].1, 34);
        p.word(b"|", 32); p.word(TIMES[q[2]].1, 35); p.word(b"--", 32); p.word(TIMES[q[3]].1, 36);
        p.word(b"|", 32); p.word(TIMES[q[4]].1, 37);
        p.word(b"|", 32); p.word(SCORES[q[5]].1, 38);
        p.word(b"\n", 39);
    }
    vp::assert(p.at == cap::text().len(), 40);
    for &c in cap::text() { vp::trace(c as u64); }
    vp::reach(1);
}
h! {
    h_mono { heard([1, 1], [3, 3], 4, 1, [&[0, 0, 0], &[0, 0]], false) }
    h_rates { heard([1, 2], [3, 7], 3, 2, [&[0, 0], &[0, 0]], true) }
    h_three { heard([3, 2], [5, 3], 2, 1, [&[0, 0], &[0, 0]], false) }
    h_layout { heard([2, 1], [5, 3], 2, 1, [&[0, 0], &[0, 0]], true) }
    h_tracks { heard([1, 2], [3, 3], 2, 1, [&[1, 0, 0], &[0, 1, 0]], false) }
    h_broken { heard([1, 1], [3, 3], 2, 1, [&[0, 2, 0], &[2, 0, 0]], false) }
    h_reset { heard([1, 1], [3, 3], 2, 1, [&[0, 3, 0], &[0, 0, 3]], false) }
    h_kinds { let (a, b) = ([vp::len(3), vp::len(3)], [vp::len(3), vp::len(3)]); heard([1, 2], [3, 4], 1, 1, [&a, &b], false) }
    h_none { rows(0) }
    h_one { rows(1) }
    h_rows { rows(3) }
}
entries!(h_mono, h_rates, h_three, h_layout, h_tracks, h_broken, h_reset, h_kinds, h_none, h_one, h_rows);
