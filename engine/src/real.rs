//! Floating point as real arithmetic with bounded rounding errors (a sound relaxation).
//! Every double is represented by the real number it denotes; each operation contributes an
//! error variable whose bound comes from an interval analysis of its operands.
use crate::expr::*;
use crate::expr::Op::*;
use crate::solver::{t, Printer};
use std::fmt::Write as _;

pub type Iv = Option<(f64, f64)>;
fn dn(x: f64) -> f64 { x - x.abs() * 5e-16 - 1e-290 }
fn up(x: f64) -> f64 { x + x.abs() * 5e-16 + 1e-290 }
fn dn32(x: f64, w: u8) -> f64 { if w == 32 { x - x.abs() * 1.3e-7 - 1e-40 } else { dn(x) } }
fn up32(x: f64, w: u8) -> f64 { if w == 32 { x + x.abs() * 1.3e-7 + 1e-40 } else { up(x) } }
fn fit(l: f64, h: f64, w: u8) -> Iv { let (l, h) = (if l >= 0.0 { dn32(l, w).max(0.0) } else { dn32(l, w) }, if h <= 0.0 { up32(h, w).min(0.0) } else { up32(h, w) }); let m = if w == 32 { 1e38 } else { 1e300 }; if l >= -m && h <= m { Some((l, h)) } else { None } }

/// finite interval containing every possible value of the float `e`
pub fn iv(e: E) -> Iv {
    match e {
        E::C(64, v) => { let x = f64::from_bits(v); if x.is_finite() { Some((x, x)) } else { None } }
        E::C(32, v) => { let x = f32::from_bits(v as u32) as f64; if x.is_finite() { Some((x, x)) } else { None } }
        E::C(..) => None,
        E::S(i) => {
            if let Some(r) = ar().ivs.get(&i) { return *r; }
            let r = iv_(i);
            ar().ivs.insert(i, r);
            r
        }
    }
}
/// linear form: sum of coefficient times node (all within their intervals), constant, error bound
pub struct Aff { t: Vec<(u32, f64)>, c: f64, err: f64, mag: f64 }
fn aff(e: E) -> Option<std::rc::Rc<Aff>> {
    use std::rc::Rc;
    if let Some(c) = fval(e) { return if c.is_finite() { Some(Rc::new(Aff { t: vec![], c, err: 0.0, mag: c.abs() })) } else { None }; }
    let E::S(i) = e else { return None };
    if let Some(a) = ar().affs.get(&i) { return Some(a.clone()); }
    let n = ar().nodes[i as usize];
    let u = if n.w == 32 { 1.3e-7 } else { 2.3e-16 };
    let r = match n.op {
        FAdd | FSub => {
            let (a, b) = (aff(n.a)?, aff(n.b)?);
            let s = if n.op == FAdd { 1.0 } else { -1.0 };
            let (mut t, mut p, mut q) = (Vec::with_capacity(a.t.len() + b.t.len()), 0, 0);
            while p < a.t.len() || q < b.t.len() {
                if q >= b.t.len() || p < a.t.len() && a.t[p].0 < b.t[q].0 { t.push(a.t[p]); p += 1; }
                else if p >= a.t.len() || b.t[q].0 < a.t[p].0 { t.push((b.t[q].0, s * b.t[q].1)); q += 1; }
                else { let c = a.t[p].1 + s * b.t[q].1; if c != 0.0 { t.push((a.t[p].0, c)); } p += 1; q += 1; }
            }
            let mag = a.mag + b.mag;
            Aff { t, c: a.c + s * b.c, err: a.err + b.err + (u + 4.5e-16) * mag, mag }
        }
        FMul | FDiv if fval(n.b).is_some() || n.op == FMul && fval(n.a).is_some() => {
            let (x, c) = if let Some(c) = fval(n.b) { (n.a, c) } else { (n.b, fval(n.a).unwrap()) };
            let a = aff(x)?;
            let c = if n.op == FDiv { 1.0 / c } else { c };
            if !c.is_finite() { return None; }
            let mag = a.mag * c.abs();
            Aff { t: a.t.iter().map(|t| (t.0, t.1 * c)).collect(), c: a.c * c, err: a.err * c.abs() * (1.0 + 1e-15) + (u + 7e-16) * mag, mag }
        }
        Xor if n.b.c() == Some(1u64 << (n.w - 1)) => { let a = aff(n.a)?; Aff { t: a.t.iter().map(|t| (t.0, -t.1)).collect(), c: -a.c, err: a.err, mag: a.mag } }
        _ => { let v = iv(e)?; Aff { t: vec![(i, 1.0)], c: 0.0, err: 0.0, mag: maxabs(v) } }
    };
    let r = Rc::new(r);
    ar().affs.insert(i, r.clone());
    Some(r)
}
fn aff_iv(e: E) -> Iv {
    let a = aff(e)?;
    let (mut l, mut h) = (a.c - a.err, a.c + a.err);
    for t in &a.t { let v = iv(E::S(t.0))?; let (p, q) = (v.0 * t.1, v.1 * t.1); l += p.min(q); h += p.max(q); }
    let slop = 1e-15 * a.mag * (1 + a.t.len()) as f64 * 1e-1 + 1e-300;
    Some((l - slop, h + slop))
}
/// interval of `e` given that the condition `c` has the value `on`: bounds a divisor from below
fn iv_if(e: E, c: E, on: bool) -> Iv {
    if let Some(v) = iv(e) { return Some(v); }
    if let Some(n) = c.is(Xor) { if n.w == 1 && n.b.c() == Some(1) { return iv_if(e, n.a, !on); } }
    if let Some(n) = e.is(Ite) { let (a, b) = (iv_if(n.b, c, on)?, iv_if(n.c, c, on)?); return Some((a.0.min(b.0), a.1.max(b.1))); }
    let d = e.is(FDiv)?;
    // constant <= y (or <), where y is the divisor or the operand of the square root that is the divisor
    let low = |y: E| -> Option<f64> {
        if let (true, Some(n)) = (!on, c.is(FLt)) { if n.a == y { return fval(n.b); } }
        if let (true, Some(n)) = (!on, c.is(FLe)) { if n.a == y { return fval(n.b); } }
        if let (true, Some(n)) = (on, c.is(FLt)) { if n.b == y { return fval(n.a); } }
        if let (true, Some(n)) = (on, c.is(FLe)) { if n.b == y { return fval(n.a); } }
        None
    };
    iv(d.b)?; // not NaN: the negated comparison says what it seems to
    let l = low(d.b).or_else(|| d.b.is(FSqrt).and_then(|s| low(s.a)).filter(|x| *x > 0.0).map(|x| dn(dn(x.sqrt()))))?;
    if l <= 0.0 { return None; }
    let (a, b) = (iv(d.a)?, iv(d.b)?);
    let b = (b.0.max(l), b.1.max(l));
    let q = [a.0 / b.0, a.0 / b.1, a.1 / b.0, a.1 / b.1];
    let (lo, hi) = (q.iter().cloned().fold(f64::INFINITY, f64::min), q.iter().cloned().fold(f64::NEG_INFINITY, f64::max));
    let r = fit(lo, hi, d.w)?;
    Some((if lo >= 0.0 { r.0.max(0.0) } else { r.0 }, if hi <= 0.0 { r.1.min(0.0) } else { r.1 }))
}
pub fn is_cmp(c: E) -> bool { match c.n() { Some(n) if n.op == Xor && n.w == 1 && n.b.c() == Some(1) => is_cmp(n.a), Some(n) => matches!(n.op, FLt | FLe), None => false } }
/// a quotient whose divisor is known to be away from zero only by a comparison that the path implies
pub fn guard_div(r: E, facts: &[E]) -> E {
    if facts.is_empty() || r.is(FDiv).is_none() || iv(r).is_some() { return r; }
    for &c in facts { if iv_if(r, c, true).is_some() { return ite(c, r, E::C(r.w(), 0)); } }
    r
}
/// a difference of non-constants (so that terms may cancel)
fn subs(e: E) -> bool { e.is(FSub).map_or(false, |n| fval(n.a).is_none() && fval(n.b).is_none()) || e.is(FAdd).map_or(false, |n| fval(n.a).is_none() && fval(n.b).is_none() && (n.a.is(FSub).is_some() || n.b.is(FSub).is_some())) }
fn iv_(i: u32) -> Iv {
    let n = ar().nodes[i as usize];
    if ar().affine && (n.op == FSub || n.op == FAdd && (subs(n.a) || subs(n.b))) && fval(n.a).is_none() && fval(n.b).is_none() {
        let (a, b) = (iv(n.a)?, iv(n.b)?);
        let v = if n.op == FSub { fit(a.0 - b.1, a.1 - b.0, n.w)? } else { fit(a.0 + b.0, a.1 + b.1, n.w)? };
        return Some(match aff_iv(E::S(i)) { Some(x) => (v.0.max(x.0), v.1.min(x.1)), None => v });
    }
    let w = n.w;
    match n.op {
        Var => ar().reals.get(&(n.a.c().unwrap() as u32)).copied(),
        Ite => { let (a, b) = (iv_if(n.b, n.a, true)?, iv_if(n.c, n.a, false)?); Some((a.0.min(b.0), a.1.max(b.1))) }
        Xor => if n.b.c() == Some(1u64 << (w - 1)) { let a = iv(n.a)?; Some((-a.1, -a.0)) } else { None },
        And | ZExt => if let Some(x) = abs_of(&n) { let a = iv(x)?; if a.0 >= 0.0 { Some(a) } else if a.1 <= 0.0 { Some((-a.1, -a.0)) } else { Some((0.0, a.1.max(-a.0))) } } else { None },
        IToF => { let s = n.a.info(); fit(s.slo as f64, s.shi as f64, 64) }
        SToF => { if n.a.w() > 64 { return None; } let s = n.a.info(); fit(s.slo as f64, s.shi as f64, w) }
        UToF => { if n.a.w() > 64 { return None; } let s = n.a.info(); fit(s.lo as f64, s.hi as f64, w) }
        FAdd => { let (a, b) = (iv(n.a)?, iv(n.b)?); fit(a.0 + b.0, a.1 + b.1, w) }
        FSub => { let (a, b) = (iv(n.a)?, iv(n.b)?); fit(a.0 - b.1, a.1 - b.0, w) }
        FMul => {
            let (a, b) = (iv(n.a)?, iv(n.b)?);
            if n.a == n.b { let m = (a.0 * a.0).max(a.1 * a.1); return fit(0.0, m, w).map(|x| (0.0, x.1)); }
            let c = [a.0 * b.0, a.0 * b.1, a.1 * b.0, a.1 * b.1];
            let (l, h) = (c.iter().cloned().fold(f64::INFINITY, f64::min), c.iter().cloned().fold(f64::NEG_INFINITY, f64::max));
            let r = fit(l, h, w)?;
            Some((if l >= 0.0 { 0.0f64.max(r.0) } else { r.0 }, if h <= 0.0 { 0.0f64.min(r.1) } else { r.1 }))
        }
        FDiv => {
            let (a, b) = (iv(n.a)?, iv(n.b)?);
            if b.0 <= 0.0 && b.1 >= 0.0 { return None; }
            let c = [a.0 / b.0, a.0 / b.1, a.1 / b.0, a.1 / b.1];
            let (l, h) = (c.iter().cloned().fold(f64::INFINITY, f64::min), c.iter().cloned().fold(f64::NEG_INFINITY, f64::max));
            let r = fit(l, h, w)?;
            Some((if l >= 0.0 { 0.0f64.max(r.0) } else { r.0 }, if h <= 0.0 { 0.0f64.min(r.1) } else { r.1 }))
        }
        FSqrt => { let a = iv(n.a)?; if a.0 < 0.0 { return None; } fit(a.0.sqrt(), a.1.sqrt(), w).map(|x| (x.0.max(0.0), x.1)) }
        FRound | FFloor | FCeil | FTruncI => { let a = iv(n.a)?; Some((a.0 - 1.0, a.1 + 1.0)) }
        FTrunc => { let a = iv(n.a)?; fit(a.0, a.1, 32) }
        FExt => iv(n.a),
        FLn => { let a = iv(n.a)?; if a.0 <= 0.0 { return None; } Some((a.0.ln() - 1e-9, a.1.ln() + 1e-9)) }
        FLog2 => { let a = iv(n.a)?; if a.0 <= 0.0 { return None; } Some((a.0.log2() - 1e-9, a.1.log2() + 1e-9)) }
        FCos | FSin => { iv(n.a)?; Some((-1.0, 1.0)) }
        _ => None,
    }
}
/// the operand of an absolute value: the sign bit masked off
fn abs_of(n: &Node) -> Option<E> {
    if n.op == And && n.b.c() == Some(mask(n.w - 1)) { return Some(n.a); }
    if n.op == ZExt { if let Some(x) = n.a.is(Extract) { if x.w == n.w - 1 && x.b.c() == Some(0) && x.a.w() == n.w { return Some(x.a); } } }
    None
}
fn maxabs(i: (f64, f64)) -> f64 { i.0.abs().max(i.1.abs()) }

fn pow2s(k: i32) -> String { // 2^k as a real literal
    if k >= 0 { if k < 127 { format!("{}.0", 1u128 << k) } else { format!("(* {} {})", pow2s(100), pow2s(k - 100)) } }
    else { format!("(/ 1.0 {})", pow2s(-k)) }
}
/// exact rational literal of a finite double
pub fn lit(x: f64) -> String {
    if x == 0.0 { return "0.0".into(); }
    let neg = x < 0.0;
    let b = x.abs().to_bits();
    let e = (b >> 52) as i32; let m = if e == 0 { b & ((1 << 52) - 1) } else { (b & ((1 << 52) - 1)) | 1 << 52 };
    let e = if e == 0 { -1074 } else { e - 1075 };
    let tz = m.trailing_zeros() as i32; let (m, e) = (m >> tz, e + tz);
    let s = if e == 0 { format!("{}.0", m) } else if e > 0 { if e < 64 { format!("{}.0", (m as u128) << e) } else { format!("(* {}.0 {})", m, pow2s(e)) } } else if -e < 127 { format!("(/ {}.0 {}.0)", m, 1u128 << -e) } else { format!("(/ {}.0 {})", m, pow2s(-e)) };
    if neg { format!("(- {})", s) } else { s }
}
fn pow2_const(e: E) -> bool { match fval(e) { Some(x) => x != 0.0 && x.is_finite() && (x.to_bits() & ((1 << 52) - 1)) == 0 && x.abs() >= 1e-15 && x.abs() < 1e15, None => false } }
fn fval(e: E) -> Option<f64> { match e { E::C(64, v) => Some(f64::from_bits(v)), E::C(32, v) => Some(f32::from_bits(v as u32) as f64), _ => None } }
fn leaves(e: E, out: &mut Vec<f64>) -> bool {
    if let Some(v) = fval(e) { out.push(v); return out.len() <= 24; }
    match e.is(Ite) { Some(n) => leaves(n.b, out) && leaves(n.c, out), None => { if let Some(n) = e.is(IToF) { return ileaves(n.a, out); } false } }
}
fn ileaves(e: E, out: &mut Vec<f64>) -> bool {
    if let Some(v) = e.c() { out.push(sx(v, e.w()) as f64); return out.len() <= 24; }
    match e.is(Ite) { Some(n) => ileaves(n.b, out) && ileaves(n.c, out), None => false }
}

impl Printer {
    /// real term of the float `e`; None when nothing is known about it
    pub fn rterm(&mut self, e: E) -> Option<String> {
        iv(e)?;
        if let Some(v) = fval(e) { return Some(lit(v)); }
        let E::S(i) = e else { return None };
        if self.rdone.contains(&i) { return Some(format!("r{}", i)); }
        let n = ar().nodes[i as usize];
        let body = match n.op {
            Ite => { let (a, b) = (self.rterm(n.b)?, self.rterm(n.c)?); format!("(ite {} {} {})", t(n.a), a, b) }
            Xor => { let a = self.rterm(n.a)?; format!("(- {})", a) }
            And | ZExt => { let a = self.rterm(abs_of(&n)?)?; format!("(ite (>= {a} 0.0) {a} (- {a}))") }
            _ => return None, // every other operation is defined by rdef
        };
        writeln!(self.out, "(define-fun r{} () Real {})", i, body).unwrap();
        self.rdone.insert(i);
        Some(format!("r{}", i))
    }
    fn rangec(&mut self, i: u32, v: (f64, f64)) { writeln!(self.out, "(assert (<= {} r{}))\n(assert (<= r{} {}))", lit(v.0), i, i, lit(v.1)).unwrap(); }
    /// define r{i} = exact + error with |error| <= m * 2^-52 (2^-23 for f32)
    fn rounded(&mut self, i: u32, exact: String, w: u8) {
        let v = iv(E::S(i)).unwrap();
        let m = maxabs(v);
        if v.0 >= 0.0 || v.1 <= 0.0 { // sign known: relative error (no denormals above 2^-80)
            let b = pow2s(if w == 32 { -23 } else { -52 });
            let (lo, hi) = if v.0 >= 0.0 { (format!("(- x{i})"), format!("x{i}")) } else { (format!("x{i}"), format!("(- x{i})")) };
            writeln!(self.out, "(define-fun x{i} () Real {exact})\n(declare-fun e{i} () Real)\n(assert (<= (* {b} {lo}) e{i}))\n(assert (<= e{i} (* {b} {hi})))\n(define-fun r{i} () Real (+ x{i} e{i}))").unwrap();
            return;
        }
        let x = (m.max(1e-12).log2().ceil() as i32) - if w == 32 { 23 } else { 52 };
        let b = pow2s(x.max(-80));
        writeln!(self.out, "(declare-fun e{i} () Real)\n(assert (<= (- {b}) e{i}))\n(assert (<= e{i} {b}))\n(define-fun r{i} () Real (+ {exact} e{i}))").unwrap();
    }
    fn exactly(&mut self, i: u32, x: String) { writeln!(self.out, "(define-fun r{} () Real {})", i, x).unwrap(); }
    /// integer value of a bit vector as a real term
    fn uval(&mut self, e: E) -> String {
        if let Some(v) = e.c() { return format!("{}.0", v); }
        if let Some(s) = self.imemo.get(&(e, false)) { return s.clone(); }
        let w = e.w(); let inf = e.info(); let n = e.n().unwrap(); let m = mask(w);
        let r = match n.op {
            ZExt => self.uval(n.a),
            Ite => { let (a, b) = (self.uval(n.b), self.uval(n.c)); Some(format!("(ite {} {} {})", t(n.a), a, b)).unwrap() }
            Add if n.a.info().hi as u128 + n.b.info().hi as u128 <= m as u128 => { let (a, b) = (self.uval(n.a), self.uval(n.b)); format!("(+ {} {})", a, b) }
            Add if n.a.info().lo as u128 + n.b.info().lo as u128 > m as u128 => { let (a, b) = (self.uval(n.a), self.uval(n.b)); format!("(- (+ {} {}) {}.0)", a, b, m as u128 + 1) }
            Sub if n.a.info().lo >= n.b.info().hi => { let (a, b) = (self.uval(n.a), self.uval(n.b)); format!("(- {} {})", a, b) }
            Mul if n.b.is_c() && n.a.info().hi as u128 * n.b.info().hi as u128 <= m as u128 => { let a = self.uval(n.a); format!("(* {} {}.0)", a, n.b.c().unwrap()) }
            Shl if n.b.is_c() && (n.b.c().unwrap() as u32) < n.a.info().hi.leading_zeros() && (n.a.info().hi << n.b.c().unwrap()) <= m => { let a = self.uval(n.a); format!("(* {} {}.0)", a, 1u128 << n.b.c().unwrap()) }
            Concat => { let (a, b) = (self.uval(n.a), self.uval(n.b)); format!("(+ (* {} {}.0) {})", a, 1u128 << n.b.w(), b) }
            _ => {
                let mut s = String::from("(+ 0.0");
                for b in 0..w { let bit = 1u64 << b; if inf.kz & bit != 0 { continue; } if inf.ko & bit != 0 { write!(s, " {}.0", bit).unwrap(); continue; }
                    if w == 1 { write!(s, " (ite {} 1.0 0.0)", t(e)).unwrap() } else { write!(s, " (ite (= ((_ extract {b} {b}) {}) #b1) {}.0 0.0)", t(e), bit).unwrap() } }
                s.push(')'); s
            }
        };
        self.iname(e, false, r)
    }
    fn iname(&mut self, e: E, sg: bool, r: String) -> String {
        let nm = format!("i{}{}", if sg { "s" } else { "u" }, self.icount); self.icount += 1;
        writeln!(self.out, "(define-fun {} () Real {})", nm, r).unwrap();
        self.imemo.insert((e, sg), nm.clone());
        nm
    }
    fn sval(&mut self, e: E) -> String {
        let w = e.w(); let inf = e.info();
        if let Some(v) = e.c() { let v = sx(v, w); return if v < 0 { format!("(- {}.0)", v.unsigned_abs()) } else { format!("{}.0", v) }; }
        if inf.slo >= 0 && !matches!(e.n().unwrap().op, Add | Sub | SExt) { return self.uval(e); }
        if let Some(s) = self.imemo.get(&(e, true)) { return s.clone(); }
        let n = e.n().unwrap();
        let (mn, mx) = (sx(1u64 << (w - 1), w) as i128, (mask(w) >> 1) as i128);
        let fits = |l: i128, h: i128| l >= mn && h <= mx;
        let r = match n.op {
            SExt => self.sval(n.a),
            ZExt => self.uval(n.a),
            Ite => { let (a, b) = (self.sval(n.b), self.sval(n.c)); format!("(ite {} {} {})", t(n.a), a, b) }
            Add if fits(n.a.info().slo as i128 + n.b.info().slo as i128, n.a.info().shi as i128 + n.b.info().shi as i128) => { let (a, b) = (self.sval(n.a), self.sval(n.b)); format!("(+ {} {})", a, b) }
            Sub if fits(n.a.info().slo as i128 - n.b.info().shi as i128, n.a.info().shi as i128 - n.b.info().slo as i128) => { let (a, b) = (self.sval(n.a), self.sval(n.b)); format!("(- {} {})", a, b) }
            Mul if n.b.is_c() && { let c = sx(n.b.c().unwrap(), w) as i128; let (p, q) = (n.a.info().slo as i128 * c, n.a.info().shi as i128 * c); fits(p.min(q), p.max(q)) } => { let c = sx(n.b.c().unwrap(), w); let a = self.sval(n.a); if c < 0 { format!("(- (* {} {}.0))", a, c.unsigned_abs()) } else { format!("(* {} {}.0)", a, c) } }
            _ => { let u = self.uval(e); if inf.slo >= 0 { u } else { let top = if w == 1 { t(e) } else { format!("(= ((_ extract {0} {0}) {1}) #b1)", w - 1, t(e)) }; format!("(- {} (ite {} {}.0 0.0))", u, top, 1u128 << w) } }
        };
        self.iname(e, true, r)
    }
    /// called once for every float-producing or float-comparing node, operands already emitted
    pub fn rdef(&mut self, i: u32, n: &Node) {
        let w = n.w;
        let sort = if w == 1 { "Bool".to_string() } else { format!("(_ BitVec {})", w) };
        if matches!(n.op, FLt | FLe | FEq) {
            if let (Some(a), Some(b)) = (self.rterm(n.a), self.rterm(n.b)) {
                let o = match n.op { FLt => "<", FLe => "<=", _ => "=" };
                writeln!(self.out, "(define-fun n{i} () Bool ({o} {a} {b}))").unwrap();
                let m = maxabs(iv(n.a).unwrap()).max(maxabs(iv(n.b).unwrap()));
                if n.op != FEq { self.cmps.insert(i, (a, b, m)); }
            } else { writeln!(self.out, "(declare-fun n{} () Bool)", i).unwrap(); }
            return;
        }
        if n.op == FUno {
            if iv(n.a).is_some() && iv(n.b).is_some() { writeln!(self.out, "(define-fun n{} () Bool false)", i).unwrap(); } else { writeln!(self.out, "(declare-fun n{} () Bool)", i).unwrap(); }
            return;
        }
        writeln!(self.out, "(declare-fun n{} () {})", i, sort).unwrap();
        if matches!(n.op, FToU | FToS) { return; }
        let Some(v) = iv(E::S(i)) else { return };
        self.rdone.insert(i);
        let fresh = |s: &mut Self| { writeln!(s.out, "(declare-fun r{} () Real)", i).unwrap(); s.rangec(i, v); };
        match n.op {
            Var => fresh(self),
            IToF => { let x = self.sval(n.a); self.exactly(i, x); }
            SToF | UToF => { let x = if n.op == SToF { self.sval(n.a) } else { self.uval(n.a) }; let lim = if w == 32 { 16777216.0 } else { 9007199254740992.0 }; if maxabs(v) <= lim { self.exactly(i, x) } else { self.rounded(i, x, w) } }
            FAdd | FSub => { let (Some(a), Some(b)) = (self.rterm(n.a), self.rterm(n.b)) else { fresh(self); return }; self.rounded(i, format!("({} {} {})", if n.op == FAdd { "+" } else { "-" }, a, b), w); }
            FMul if n.a.is_c() || n.b.is_c() => { let (Some(a), Some(b)) = (self.rterm(n.a), self.rterm(n.b)) else { fresh(self); return }; let x = format!("(* {} {})", a, b); if pow2_const(n.a) || pow2_const(n.b) { self.exactly(i, x) } else { self.rounded(i, x, w) } }
            FMul => {
                let (Some(a), Some(b)) = (self.rterm(n.a), self.rterm(n.b)) else { fresh(self); return };
                let mut lv = vec![];
                if n.a != n.b && (leaves(n.b, &mut lv) || { lv.clear(); false }) { let x = self.case(n.b, &mut |c| format!("(* {} {})", a, lit(c))); self.rounded(i, x, w); return; }
                lv.clear();
                if n.a != n.b && leaves(n.a, &mut lv) { let x = self.case(n.a, &mut |c| format!("(* {} {})", b, lit(c))); self.rounded(i, x, w); return; }
                let key = if a < b { (a.clone(), b.clone()) } else { (b.clone(), a.clone()) };
                let p = match self.prods.get(&key) { Some(p) => p.clone(), None => {
                    let p = format!("p{}", i);
                    if self.nl { writeln!(self.out, "(define-fun {p} () Real (* {a} {b}))").unwrap(); }
                    else {
                        writeln!(self.out, "(declare-fun {p} () Real)").unwrap();
                        let (x, y) = (iv(n.a).unwrap(), iv(n.b).unwrap());
                        for (u, v, ge) in [(x.0, y.0, true), (x.1, y.1, true), (x.0, y.1, false), (x.1, y.0, false)] {
                            // (a-u)(b-v) >= 0 or <= 0
                            writeln!(self.out, "(assert ({} (+ {p} (* {} {})) (+ (* {} {b}) (* {} {a}))))", if ge { ">=" } else { "<=" }, lit(u), lit(v), lit(u), lit(v)).unwrap();
                        }
                        if n.a == n.b { writeln!(self.out, "(assert (>= {p} 0.0))").unwrap(); }
                    }
                    self.prods.insert(key, p.clone()); p
                } };
                self.rounded(i, p, w);
            }
            FDiv => {
                let (Some(a), Some(b)) = (self.rterm(n.a), self.rterm(n.b)) else { fresh(self); return };
                if let Some(c) = fval(n.b) { let x = format!("(/ {} {})", a, lit(c)); if pow2_const(n.b) { self.exactly(i, x) } else { self.rounded(i, x, w) } return; }
                let mut lv = vec![];
                if leaves(n.b, &mut lv) && lv.iter().all(|x| *x != 0.0) { let x = self.case(n.b, &mut |c| format!("(/ {} {})", a, lit(c))); self.rounded(i, x, w); return; }
                let key = (format!("/{}", a), b.clone());
                let p = match self.prods.get(&key) { Some(p) => p.clone(), None => {
                    let p = format!("q{}", i);
                    writeln!(self.out, "(declare-fun {p} () Real)").unwrap();
                    if self.nl { writeln!(self.out, "(assert (= (* {p} {b}) {a}))").unwrap(); }
                    else { writeln!(self.out, "(assert (<= {} {p}))\n(assert (<= {p} {}))", lit(v.0), lit(v.1)).unwrap(); }
                    self.prods.insert(key, p.clone()); p
                } };
                self.rounded(i, p, w);
            }
            FSqrt if n.a.is(FMul).is_some_and(|m| m.a == m.b) => {
                let Some(a) = self.rterm(n.a.n().unwrap().a) else { fresh(self); return };
                // |x| up to the two roundings (squares below 2^-80 are inexact)
                writeln!(self.out, "(define-fun x{i} () Real (ite (>= {a} 0.0) {a} (- {a})))\n(declare-fun e{i} () Real)\n(assert (<= (- (+ {b} (* {b} x{i}))) e{i}))\n(assert (<= e{i} (+ {b} (* {b} x{i}))))\n(define-fun r{i} () Real (+ x{i} e{i}))", b = pow2s(-50)).unwrap();
            }
            FSqrt => {
                let Some(a) = self.rterm(n.a) else { fresh(self); return };
                let key = ("sqrt".to_string(), a.clone());
                let p = match self.prods.get(&key) { Some(p) => p.clone(), None => {
                    let p = format!("s{}", i);
                    writeln!(self.out, "(declare-fun {p} () Real)\n(assert (<= 0.0 {p}))\n(assert (<= {p} {}))", lit(v.1)).unwrap();
                    if self.nl { writeln!(self.out, "(assert (= (* {p} {p}) {a}))").unwrap(); }
                    self.prods.insert(key, p.clone()); p
                } };
                self.rounded(i, p, w);
            }
            FRound | FFloor | FCeil | FTruncI => {
                let Some(a) = self.rterm(n.a) else { fresh(self); return };
                writeln!(self.out, "(declare-fun r{i} () Real)").unwrap();
                match n.op { FRound => writeln!(self.out, "(assert (<= (- {a} 0.5) r{i} (+ {a} 0.5)))"), FFloor => writeln!(self.out, "(assert (<= (- {a} 1.0) r{i} {a}))"), FCeil => writeln!(self.out, "(assert (<= {a} r{i} (+ {a} 1.0)))"), _ => writeln!(self.out, "(assert (<= (- {a} 1.0) r{i} (+ {a} 1.0)))") }.unwrap();
            }
            FTrunc => { let Some(a) = self.rterm(n.a) else { fresh(self); return }; self.rounded(i, a, 32); }
            FExt => { let Some(a) = self.rterm(n.a) else { fresh(self); return }; self.exactly(i, a); }
            FLn | FLog2 | FCos | FSin => {
                let Some(a) = self.rterm(n.a) else { fresh(self); return };
                let f = format!("rf_{:?}_{}", n.op, w);
                if self.rfuns.insert(f.clone()) { writeln!(self.out, "(declare-fun {} (Real) Real)", f).unwrap(); }
                self.exactly(i, format!("({} {})", f, a)); self.rangec(i, v);
            }
            _ => fresh(self),
        }
    }
    /// case distinction over the constant leaves of an ite tree
    fn case(&mut self, e: E, f: &mut dyn FnMut(f64) -> String) -> String {
        if let Some(v) = fval(e) { return f(v); }
        let n = e.n().unwrap();
        if n.op == IToF { return self.icase(n.a, f); }
        let (a, b) = (self.case(n.b, f), self.case(n.c, f));
        format!("(ite {} {} {})", t(n.a), a, b)
    }
    fn icase(&mut self, e: E, f: &mut dyn FnMut(f64) -> String) -> String {
        if let Some(v) = e.c() { return f(sx(v, e.w()) as f64); }
        let n = e.n().unwrap();
        let (a, b) = (self.icase(n.b, f), self.icase(n.c, f));
        format!("(ite {} {} {})", t(n.a), a, b)
    }
    /// every comparison in the cone of `roots` decided with a clear margin (to get models that survive rounding)
    pub fn margins(&self, roots: &[E]) -> String {
        let mut s = String::new();
        let mut seen: std::collections::HashSet<u32> = Default::default();
        let mut st: Vec<u32> = roots.iter().filter_map(|e| if let E::S(i) = e { Some(*i) } else { None }).collect();
        while let Some(i) = st.pop() {
            if !seen.insert(i) { continue; }
            if let Some((a, b, m)) = self.cmps.get(&i) { let d = lit((m * 1e-7).max(1e-12)); writeln!(s, "(assert (or (<= (+ {a} {d}) {b}) (<= (+ {b} {d}) {a})))").unwrap(); }
            let n = ar().nodes[i as usize];
            if n.op == Var || n.op == KW { continue; }
            for x in [n.a, n.b, n.c] { if let E::S(j) = x { st.push(j); } }
        }
        s
    }
}
/// value of a z3 real: "1.0", "(- 1.0)", "(/ 1.0 3.0)", "(- (/ 1.0 3.0))"
pub fn parse_real(s: &str) -> Option<f64> {
    let s = s.trim();
    if let Some(r) = s.strip_prefix("(-") { return Some(-parse_real(r.strip_suffix(')')?)?); }
    if let Some(r) = s.strip_prefix("(/") {
        let r = r.strip_suffix(')')?.trim();
        let cut = if r.starts_with('(') { let mut d = 0; let mut at = 0; for (i, c) in r.char_indices() { if c == '(' { d += 1 } else if c == ')' { d -= 1; if d == 0 { at = i + 1; break; } } } at } else { r.find(' ')? };
        return Some(parse_real(&r[..cut])? / parse_real(&r[cut..])?);
    }
    s.trim_end_matches('?').parse().ok()
}
