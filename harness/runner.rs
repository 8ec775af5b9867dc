// Native replay: every line of stdin is "<case> <entry> <value>...".
mod ffi {
    pub static mut IN: Vec<u64> = vec![];
    pub static mut POS: usize = 0;
    pub static mut OUT: String = String::new();
    pub struct Assume;
    /// 0: replay the recorded values; otherwise a generator state: values near the recorded ones
    pub static mut RNG: u64 = 0;
    pub static mut DRAWN: Vec<u64> = vec![];
    fn rnd() -> u64 { unsafe { RNG ^= RNG << 13; RNG ^= RNG >> 7; RNG ^= RNG << 17; RNG } }
    #[allow(static_mut_refs)]
    fn draw(any: impl Fn(u64) -> u64) -> u64 { unsafe {
        let mut v = IN.get(POS).copied().unwrap_or(0); POS += 1;
        if RNG != 0 { if rnd() % MIX != 0 { v = any(rnd()); } DRAWN.push(v); }
        v
    } }
    pub static mut MIX: u64 = 1;
    fn next() -> u64 { draw(|r| r) }
    fn real(lo: f64, hi: f64, r: u64) -> u64 {
        let t = match r % 5 { 0 => 0.0, 1 => 1.0, 2 => ((r >> 8) % 9) as f64 / 8.0, _ => (r >> 12) as f64 / (1u64 << 52) as f64 };
        (lo + (hi - lo) * t).clamp(lo, hi).to_bits()
    }
    #[allow(static_mut_refs)]
    fn out(s: &str) { unsafe { OUT.push_str(s); OUT.push('\n'); } }
    #[no_mangle] extern "C-unwind" fn nd_u8() -> u8 { next() as u8 }
    #[no_mangle] extern "C-unwind" fn nd_u16() -> u16 { next() as u16 }
    #[no_mangle] extern "C-unwind" fn nd_u32() -> u32 { next() as u32 }
    #[no_mangle] extern "C-unwind" fn nd_u64() -> u64 { next() }
    #[no_mangle] extern "C-unwind" fn nd_bool() -> bool { next() & 1 == 1 }
    #[no_mangle] extern "C-unwind" fn nd_upto(max: u64) -> u64 { let v = draw(|r| if max == u64::MAX { r } else { r % (max + 1) }); if v > max { std::panic::panic_any(Assume) } v }
    #[no_mangle] extern "C-unwind" fn nd_fint(bits: u32, signed: bool) -> f64 {
        let v = next() << (64 - bits);
        if signed { (v as i64 >> (64 - bits)) as f64 } else { (v >> (64 - bits)) as f64 }
    }
    #[no_mangle] extern "C-unwind" fn nd_real(lo: f64, hi: f64) -> f64 { let v = f64::from_bits(draw(|r| real(lo, hi, r))); if !(v >= lo && v <= hi) { std::panic::panic_any(Assume) } v }
    #[no_mangle] extern "C-unwind" fn vp_assume(c: bool) { if !c { std::panic::panic_any(Assume) } }
    #[no_mangle] extern "C-unwind" fn vp_assert(c: bool, id: u32) { if !c { out(&format!("ASSERT {id}")) } }
    #[no_mangle] extern "C-unwind" fn vp_trace(v: u64) { out(&format!("TRACE {v}")) }
    #[no_mangle] extern "C-unwind" fn vp_reach(id: u32) { out(&format!("REACH {id}")) }
    #[no_mangle] extern "C-unwind" fn vp_fork(x: u64, _max: u64) -> u64 { x }
    #[no_mangle] extern "C-unwind" fn vp_args(_argc: usize, _argv: *const *const i8) {}
}

#[allow(static_mut_refs)]
fn main() {
    use std::io::Read;
    let mut s = String::new();
    std::io::stdin().read_to_string(&mut s).unwrap();
    std::panic::set_hook(Box::new(|i| {
        if i.payload().is::<ffi::Assume>() { unsafe { ffi::OUT.push_str("ASSUME\n") } return; }
        let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        unsafe { ffi::OUT.push_str(&format!("PANIC {l} {}\n", m.replace('\n', " "))) }
    }));
    for line in s.lines() {
        let mut it = line.split_whitespace();
        let (case, entry) = (it.next().unwrap(), it.next().unwrap());
        let vals: Vec<u64> = it.map(|x| x.parse().unwrap()).collect();
        let f = ENTRIES.iter().find(|e| e.0 == entry).expect("entry").1;
        if let Some(tries) = case.strip_prefix("VARY") {
            // concretisation of an abstract counterexample: values near it on which an assertion fails
            let t0 = std::time::Instant::now();
            for n in 0..tries.parse::<u64>().unwrap() {
                if t0.elapsed().as_secs() > 20 { break }
                unsafe { ffi::IN = vals.clone(); ffi::POS = 0; ffi::OUT.clear(); ffi::DRAWN.clear(); ffi::RNG = 0x9e3779b97f4a7c15u64.wrapping_mul(n + 1) | 1; ffi::MIX = [1, 2, 4, 16][(n % 4) as usize]; }
                let _ = std::panic::catch_unwind(|| f());
                unsafe { if ffi::OUT.lines().any(|l| l.starts_with("ASSERT") || l.starts_with("PANIC")) { println!("FOUND {}", ffi::DRAWN.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ")); break; } }
            }
            println!("END");
            continue;
        }
        unsafe { ffi::IN = vals; ffi::POS = 0; ffi::OUT.clear(); ffi::RNG = 0; }
        let _ = std::panic::catch_unwind(|| f());
        println!("CASE {case}");
        unsafe { print!("{}", ffi::OUT); }
        println!("END");
    }
}
