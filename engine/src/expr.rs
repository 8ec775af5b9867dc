//! Hash-consed bit-vector expression DAG with a simplifier, interval / known-bits
//! analysis, native evaluation and SMT-LIB printing.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { for &x in b { self.write_u64(x as u64) } }
    fn write_u8(&mut self, v: u8) { self.write_u64(v as u64) }
    fn write_u16(&mut self, v: u16) { self.write_u64(v as u64) }
    fn write_u32(&mut self, v: u32) { self.write_u64(v as u64) }
    fn write_u64(&mut self, v: u64) { self.0 = (self.0.rotate_left(5) ^ v).wrapping_mul(0x517cc1b727220a95) }
    fn write_usize(&mut self, v: usize) { self.write_u64(v as u64) }
    fn write_isize(&mut self, v: isize) { self.write_u64(v as u64) }
}
pub type FxB = BuildHasherDefault<Fx>;
pub type Map<K, V> = HashMap<K, V, FxB>;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum E { C(u8, u64), S(u32) }

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Var, KW,
    Add, Sub, Mul, UDiv, URem, SDiv, SRem, Shl, LShr, AShr, And, Or, Xor,
    Concat, Extract, ZExt, SExt, Ite, Eq, Ult, Slt,
    // floating point (operands and results are IEEE bit patterns)
    FAdd, FSub, FMul, FDiv, FRem, FSqrt, FLt, FLe, FEq, FUno,
    IToF,  // signed 64-bit integer with |x| <= 2^53 to double: exact
    SToF, UToF, // int -> fp, operand any width
    FToU, FToS, // saturating fp -> int
    FTrunc, FExt, // f64->f32, f32->f64
    FRound, FFloor, FCeil, FTruncI,
    FLn, FLog2, FCos, FSin, FExp, FLog10, FPow,
}
use Op::*;

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct Node { pub op: Op, pub w: u8, pub a: E, pub b: E, pub c: E }

#[derive(Clone, Copy, Debug)]
pub struct Info { pub lo: u64, pub hi: u64, pub slo: i64, pub shi: i64, pub kz: u64, pub ko: u64 }

pub const NIL: E = E::C(0, 0);
pub const T: E = E::C(1, 1);
pub const F: E = E::C(1, 0);

pub struct Arena {
    pub nodes: Vec<Node>,
    pub infos: Vec<Info>,
    pub fpdep: Vec<bool>, // depends on a floating point operation
    map: Map<Node, u32>,
    pub vars: Vec<(String, u8)>,
    pub ufused: bool,
    pub havoc_fp: bool,
    pub havoc_map: Map<Node, E>,
    pub memo: Map<Node, E>,
    pub reals: Map<u32, (f64, f64)>, // variables that are doubles in a known range
    pub ivs: Map<u32, Option<(f64, f64)>>,
    pub realmode: bool,
    pub affine: bool,
    pub dyad: bool,
    pub bounds: Map<u32, u64>,
    pub affs: Map<u32, std::rc::Rc<crate::real::Aff>>,
    pub lins: Map<u32, std::rc::Rc<Lin>>,
}

static mut ARENA: Option<Arena> = None;
#[allow(static_mut_refs)]
pub fn ar() -> &'static mut Arena {
    unsafe {
        ARENA.get_or_insert_with(|| Arena { bounds: Default::default(), nodes: vec![], infos: vec![], fpdep: vec![], map: Default::default(), vars: vec![], ufused: false, havoc_fp: false, havoc_map: Default::default(), memo: Default::default(), reals: Default::default(), ivs: Default::default(), realmode: false, affine: false, dyad: false, affs: Default::default(), lins: Default::default() })
    }
}

pub fn mask(w: u8) -> u64 { if w >= 64 { !0 } else { (1u64 << w) - 1 } }
pub fn mask128(w: u8) -> u128 { if w >= 128 { !0 } else { (1u128 << w) - 1 } }
pub fn sx(v: u64, w: u8) -> i64 { if w >= 64 { v as i64 } else { ((v << (64 - w)) as i64) >> (64 - w) } }
pub fn sx128(v: u128, w: u8) -> i128 { if w >= 128 { v as i128 } else { ((v << (128 - w)) as i128) >> (128 - w) } }

pub fn k(w: u8, v: u64) -> E { debug_assert!(w <= 64); E::C(w, v & mask(w)) }
pub fn kk(w: u8, v: u128) -> E {
    if w <= 64 { return k(w, v as u64); }
    let v = v & mask128(w);
    ar().raw(Node { op: KW, w, a: E::C(64, (v >> 64) as u64), b: E::C(64, v as u64), c: NIL })
}
pub fn kb(b: bool) -> E { if b { T } else { F } }

impl E {
    pub fn w(self) -> u8 { match self { E::C(w, _) => w, E::S(i) => ar().nodes[i as usize].w } }
    pub fn c(self) -> Option<u64> { match self { E::C(_, v) => Some(v), _ => None } }
    pub fn is_c(self) -> bool { matches!(self, E::C(..)) }
    pub fn c128(self) -> Option<u128> {
        match self {
            E::C(_, v) => Some(v as u128),
            E::S(i) => { let n = &ar().nodes[i as usize]; if n.op == KW { Some((n.a.c().unwrap() as u128) << 64 | n.b.c().unwrap() as u128) } else { None } }
        }
    }
    pub fn n(self) -> Option<Node> { match self { E::S(i) => Some(ar().nodes[i as usize]), _ => None } }
    pub fn is(self, op: Op) -> Option<Node> { self.n().filter(|n| n.op == op) }
    pub fn info(self) -> Info {
        match self {
            E::C(w, v) => { let s = sx(v, w); Info { lo: v, hi: v, slo: s, shi: s, kz: !v & mask(w), ko: v } }
            E::S(i) => ar().infos[i as usize],
        }
    }
    pub fn fpdep(self) -> bool { match self { E::S(i) => ar().fpdep[i as usize], _ => false } }
}

fn smin(w: u8) -> i64 { if w >= 64 { i64::MIN } else { -(1i64 << (w - 1)) } }
fn smax(w: u8) -> i64 { if w >= 64 { i64::MAX } else { (1i64 << (w - 1)) - 1 } }

fn top(w: u8) -> Info { Info { lo: 0, hi: mask(w), slo: smin(w), shi: smax(w), kz: 0, ko: 0 } }

fn refine(mut i: Info, w: u8) -> Info {
    if w > 64 { return i; }
    let m = mask(w);
    // known bits -> unsigned
    i.lo = i.lo.max(i.ko);
    i.hi = i.hi.min(m & !i.kz);
    // unsigned -> known high zero bits
    let lz = i.hi.leading_zeros();
    let z = if lz >= 64 { !0u64 } else if lz == 0 { 0 } else { !0u64 << (64 - lz) };
    i.kz |= z & m;
    if i.lo == i.hi { i.ko = i.lo; i.kz = !i.lo & m; }
    // unsigned <-> signed
    let sb = 1u64 << (w - 1);
    if i.hi < sb { i.slo = i.slo.max(i.lo as i64); i.shi = i.shi.min(i.hi as i64); }
    else if i.lo >= sb { i.slo = i.slo.max(sx(i.lo, w)); i.shi = i.shi.min(sx(i.hi, w)); }
    if i.slo >= 0 { i.lo = i.lo.max(i.slo as u64); i.hi = i.hi.min(i.shi as u64); }
    else if i.shi < 0 { i.lo = i.lo.max(i.slo as u64 & m); i.hi = i.hi.min(i.shi as u64 & m); }
    i
}

impl Arena {
    pub fn raw(&mut self, n: Node) -> E {
        if let Some(&i) = self.map.get(&n) { return E::S(i); }
        let i = self.nodes.len() as u32;
        let inf = self.compute_info(&n);
        // collapse to a constant when the analysis pins the value
        if n.w <= 64 && inf.lo == inf.hi && n.op != Var && n.op != KW { return k(n.w, inf.lo); }
        self.nodes.push(n);
        self.infos.push(inf);
        let fp = (n.op as u8) >= (FAdd as u8) || n.a.fpdep() || n.b.fpdep() || n.c.fpdep();
        self.fpdep.push(fp);
        self.map.insert(n, i);
        E::S(i)
    }
    fn compute_info(&self, n: &Node) -> Info {
        let w = n.w;
        if w > 64 { return Info { lo: 0, hi: !0, slo: i64::MIN, shi: i64::MAX, kz: 0, ko: 0 }; }
        let t = top(w);
        let wide = |e: E| e.w() > 64;
        if (n.a != NIL && wide(n.a)) || (n.b != NIL && wide(n.b)) || (n.c != NIL && wide(n.c)) { return t; }
        let m = mask(w);
        let r = match n.op {
            Add => {
                let (a, b) = (n.a.info(), n.b.info());
                let mut r = t;
                if let Some(h) = a.hi.checked_add(b.hi) { if h <= m { r.lo = a.lo + b.lo; r.hi = h; } }
                // both operands wrap together (adding a negative constant)
                if r.hi == m && r.lo == 0 {
                    let l = a.lo as u128 + b.lo as u128; let h = a.hi as u128 + b.hi as u128; let md = m as u128 + 1;
                    if l >= md && h < 2 * md { r.lo = (l - md) as u64; r.hi = (h - md) as u64; }
                }
                let l = a.slo as i128 + b.slo as i128; let h = a.shi as i128 + b.shi as i128;
                if l >= smin(w) as i128 && h <= smax(w) as i128 { r.slo = l as i64; r.shi = h as i64; }
                let tz = ((a.kz | a.ko).trailing_ones()).min((b.kz | b.ko).trailing_ones()).min(w as u32);
                if tz > 0 { let lm = mask(tz as u8); let v = a.ko.wrapping_add(b.ko) & lm; r.ko |= v; r.kz |= !v & lm; }
                r
            }
            Sub => {
                let (a, b) = (n.a.info(), n.b.info());
                let mut r = t;
                if a.lo >= b.hi { r.lo = a.lo - b.hi; r.hi = a.hi - b.lo; }
                let l = a.slo as i128 - b.shi as i128; let h = a.shi as i128 - b.slo as i128;
                if l >= smin(w) as i128 && h <= smax(w) as i128 { r.slo = l as i64; r.shi = h as i64; }
                let tz = ((a.kz | a.ko).trailing_ones()).min((b.kz | b.ko).trailing_ones()).min(w as u32);
                if tz > 0 { let lm = mask(tz as u8); let v = a.ko.wrapping_sub(b.ko) & lm; r.ko |= v; r.kz |= !v & lm; }
                r
            }
            Mul => {
                let (a, b) = (n.a.info(), n.b.info());
                let mut r = t;
                let h = a.hi as u128 * b.hi as u128;
                if h <= m as u128 { r.lo = a.lo * b.lo; r.hi = h as u64; }
                let c = [a.slo as i128 * b.slo as i128, a.slo as i128 * b.shi as i128, a.shi as i128 * b.slo as i128, a.shi as i128 * b.shi as i128];
                let l = *c.iter().min().unwrap(); let h = *c.iter().max().unwrap();
                if l >= smin(w) as i128 && h <= smax(w) as i128 { r.slo = if n.a == n.b { 0 } else { l as i64 }; r.shi = h as i64; if r.slo == 0 { r.lo = 0; r.hi = h as u64; r.kz |= !mask(64 - (h as u64).leading_zeros() as u8) & m; } }
                let tz = (a.kz.trailing_ones() + b.kz.trailing_ones()).min(w as u32);
                if tz > 0 { r.kz |= mask(tz as u8); }
                r
            }
            UDiv => { let (a, b) = (n.a.info(), n.b.info()); let mut r = t; if b.lo > 0 { r.lo = a.lo / b.hi; r.hi = a.hi / b.lo; } r }
            SDiv => { let mut r = t; if let Some(c) = n.b.c() { let c = sx(c, w); if c > 1 { let a = n.a.info(); r.slo = a.slo / c; r.shi = a.shi / c; } } r }
            SRem => { let mut r = t; if let Some(c) = n.b.c() { let c = sx(c, w); if c > 1 { let a = n.a.info(); if a.slo >= 0 { r.slo = 0; } else { r.slo = 1 - c; } if a.shi <= 0 { r.shi = 0; } else { r.shi = c - 1; } } } r }
            URem => { let (a, b) = (n.a.info(), n.b.info()); let mut r = t; if b.lo > 0 { r.hi = (b.hi - 1).min(a.hi); } else { r.hi = a.hi.max(0).min(m); if b.lo == 0 { r.hi = a.hi; } } r }
            And => { let (a, b) = (n.a.info(), n.b.info()); let mut r = t; r.kz = (a.kz | b.kz) & m; r.ko = a.ko & b.ko; r.hi = a.hi.min(b.hi); r }
            Or => { let (a, b) = (n.a.info(), n.b.info()); let mut r = t; r.kz = a.kz & b.kz; r.ko = a.ko | b.ko; r.lo = a.lo.max(b.lo); r }
            Xor => { let (a, b) = (n.a.info(), n.b.info()); let mut r = t; r.kz = (a.kz & b.kz) | (a.ko & b.ko); r.ko = (a.kz & b.ko) | (a.ko & b.kz); r }
            Shl => {
                let a = n.a.info(); let mut r = t;
                if let Some(s) = n.b.c() { if s < w as u64 { r.kz = ((a.kz << s) | ((1u64 << s) - 1)) & m; r.ko = (a.ko << s) & m; if s < 64 && (a.hi as u128) << s <= m as u128 { r.lo = a.lo << s; r.hi = a.hi << s; } } }
                else { let b = n.b.info(); let tz = a.kz.trailing_ones(); if tz > 0 && tz < 64 { r.kz |= ((1u64 << tz) - 1) & m; } if b.hi < 64 && (a.hi as u128) << b.hi <= m as u128 { r.lo = a.lo << b.lo; r.hi = a.hi << b.hi; } }
                r
            }
            LShr => {
                let a = n.a.info(); let mut r = t; r.hi = a.hi;
                if let Some(s) = n.b.c() { if s < w as u64 { r.lo = a.lo >> s; r.hi = a.hi >> s; r.kz = (a.kz >> s) | (m & !(m >> s)); r.ko = a.ko >> s; } }
                else { let b = n.b.info(); if b.lo < 64 { r.hi = a.hi >> b.lo; } if b.hi < 64 { r.lo = a.lo >> b.hi; } }
                r
            }
            AShr => { let a = n.a.info(); let mut r = t; if let Some(s) = n.b.c() { if s < w as u64 { r.slo = a.slo >> s; r.shi = a.shi >> s; } } else { r.slo = a.slo.min(0); r.shi = a.shi.max(-1); if a.slo >= 0 { r.slo = 0; r.shi = a.shi; } } r }
            Concat => {
                let (a, b) = (n.a.info(), n.b.info()); let bw = n.b.w(); let mut r = t;
                r.lo = a.lo << bw | b.lo; r.hi = a.hi << bw | b.hi; r.kz = a.kz << bw | b.kz; r.ko = a.ko << bw | b.ko; r
            }
            Extract => {
                let a = n.a.info(); let lo = n.b.c().unwrap(); let mut r = t;
                r.kz = (a.kz >> lo) & m; r.ko = (a.ko >> lo) & m;
                if (a.hi >> lo) <= m { r.lo = a.lo >> lo; r.hi = a.hi >> lo; if lo > 0 { } }
                if lo == 0 && a.slo >= smin(w) && a.shi <= smax(w) { r.slo = a.slo; r.shi = a.shi; }
                r
            }
            ZExt => { let a = n.a.info(); let aw = n.a.w(); Info { lo: a.lo, hi: a.hi, slo: t.slo, shi: t.shi, kz: a.kz | (m & !mask(aw)), ko: a.ko } }
            SExt => { let a = n.a.info(); let mut r = t; r.slo = a.slo; r.shi = a.shi; r.kz = a.kz & mask(n.a.w() - 1); r.ko = a.ko & mask(n.a.w() - 1); r }
            Ite => {
                let (a, b) = (n.b.info(), n.c.info());
                Info { lo: a.lo.min(b.lo), hi: a.hi.max(b.hi), slo: a.slo.min(b.slo), shi: a.shi.max(b.shi), kz: a.kz & b.kz, ko: a.ko & b.ko }
            }
            FToU => { let mut r = t; r.hi = m; r }
            _ => t,
        };
        refine(r, w)
    }
}

/// results of the recursive rewrites, so that shared sub-DAGs are rewritten once
fn memo(op: Op, w: u8, a: E, b: E, c: E, f: impl FnOnce() -> E) -> E {
    let key = Node { op, w, a, b, c };
    if let Some(&r) = ar().memo.get(&key) { return r; }
    let r = f();
    ar().memo.insert(key, r);
    r
}

fn mk(op: Op, w: u8, a: E, b: E, c: E) -> E { ar().raw(Node { op, w, a, b, c }) }

/// number of constant leaves if `e` is an ite tree with only constant leaves
fn const_tree(e: E, budget: &mut i32) -> bool {
    *budget -= 1;
    if *budget < 0 { return false; }
    match e {
        E::C(..) => true,
        _ => match e.is(Ite) { Some(n) => const_tree(n.b, budget) && const_tree(n.c, budget), None => false },
    }
}
fn is_ctree(e: E) -> bool { if e.is(Ite).is_none() { return false; } let mut b = 17; const_tree(e, &mut b) }
fn map_tree(e: E, f: &mut dyn FnMut(E) -> E) -> E {
    match e.is(Ite) { Some(n) => { let x = map_tree(n.b, f); let y = map_tree(n.c, f); ite(n.a, x, y) } None => f(e) }
}

pub fn fold(op: Op, w: u8, a: u128, aw: u8, b: u128, bw: u8) -> Option<u128> {
    let m = mask128(w);
    let _ = bw;
    Some(match op {
        Add => a.wrapping_add(b) & m,
        Sub => a.wrapping_sub(b) & m,
        Mul => a.wrapping_mul(b) & m,
        UDiv => if b == 0 { m } else { a / b },
        URem => if b == 0 { a } else { a % b },
        SDiv => { let (x, y) = (sx128(a, aw), sx128(b, aw)); if y == 0 { if x < 0 { 1 } else { m } } else { (x.wrapping_div(y) as u128) & m } }
        SRem => { let (x, y) = (sx128(a, aw), sx128(b, aw)); if y == 0 { a } else { (x.wrapping_rem(y) as u128) & m } }
        Shl => if b >= w as u128 { 0 } else { (a << b) & m },
        LShr => if b >= w as u128 { 0 } else { a >> b },
        AShr => { let x = sx128(a, aw); ((if b >= w as u128 { x >> 127 } else { x >> b }) as u128) & m }
        And => a & b, Or => a | b, Xor => a ^ b,
        Eq => (a == b) as u128, Ult => (a < b) as u128, Slt => (sx128(a, aw) < sx128(b, aw)) as u128,
        Concat => a << bw | b,
        _ => return None,
    })
}

fn cf2(op: Op, w: u8, a: E, b: E) -> Option<E> {
    if let (E::C(aw, x), E::C(bw, y)) = (a, b) {
        if w <= 64 { return fold(op, w, x as u128, aw, y as u128, bw).map(|v| k(w, v as u64)); }
    }
    if let (Some(x), Some(y)) = (a.c128(), b.c128()) { return fold(op, w, x, a.w(), y, b.w()).map(|v| kk(w, v)); }
    None
}
fn iszero(e: E) -> bool { e.c128() == Some(0) }
fn isones(e: E) -> bool { e.c128() == Some(mask128(e.w())) }

/// push a binary op with one constant side into an ite tree of constants
fn push_tree(op: Op, w: u8, a: E, b: E) -> Option<E> {
    let _ = w;
    if b.is_c() && is_ctree(a) { return Some(map_tree(a, &mut |x| bin(op, x, b))); }
    if a.is_c() && is_ctree(b) { return Some(map_tree(b, &mut |x| bin(op, a, x))); }
    None
}

pub fn bin(op: Op, a: E, b: E) -> E {
    match op { Add => add(a, b), Sub => sub(a, b), Mul => mul(a, b), And => and(a, b), Or => or(a, b), Xor => xor(a, b), Shl => shl(a, b), LShr => lshr(a, b), AShr => ashr(a, b),
        UDiv | URem | SDiv | SRem => div(op, a, b), Eq => eq(a, b), Ult => ult(a, b), Slt => slt(a, b), Concat => concat(a, b), _ => panic!("bin {:?}", op) }
}

pub fn add(a: E, b: E) -> E {
    if a.is_c() && b.is_c() { return add_(a, b); }
    memo(Add, a.w(), a, b, NIL, || add_(a, b))
}
fn add_(a: E, b: E) -> E {
    let w = a.w();
    if let Some(x) = cf2(Add, w, a, b) { return x; }
    if iszero(a) { return b; }
    if iszero(b) { return a; }
    if w == 1 { return xor(a, b); }
    let (a, b) = if a.is_c() || (!b.is_c() && b < a) { (b, a) } else { (a, b) };
    if b.is_c() {
        if let Some(n) = a.is(Add) { if n.b.is_c() { return add(n.a, add(n.b, b)); } }
        if let Some(n) = a.is(Sub) { if n.a.is_c() { return sub(add(n.a, b), n.b); } }
        if let Some(r) = push_tree(Add, w, a, b) { return r; }
    } else {
        // float constants to the right
        if let Some(n) = a.is(Add) { if n.b.is_c() { return add(add(n.a, b), n.b); } }
        if let Some(n) = b.is(Add) { if n.b.is_c() { return add(add(a, n.a), n.b); } }
        if let Some(n) = b.is(Sub) { if n.b == a { return n.a; } if iszero(n.a) { return sub(a, n.b); } }
        if let Some(n) = a.is(Sub) { if n.b == b { return n.a; } if iszero(n.a) { return sub(b, n.b); } }
    }
    // disjoint bits: prefer or/concat form
    if w <= 64 && !b.is_c() { let (x, y) = (a.info(), b.info()); if (x.kz | y.kz) == mask(w) { if let Some(r) = or_segs(a, b) { return r; } } }
    mk(Add, w, a, b, NIL)
}
pub fn sub(a: E, b: E) -> E {
    if a.is_c() && b.is_c() { return sub_(a, b); }
    memo(Sub, a.w(), a, b, NIL, || sub_(a, b))
}
fn sub_(a: E, b: E) -> E {
    let w = a.w();
    if let Some(x) = cf2(Sub, w, a, b) { return x; }
    if a == b { return kk(w, 0); }
    if iszero(b) { return a; }
    if w == 1 { return xor(a, b); }
    if let Some(c) = b.c128() { return add(a, kk(w, (!c).wrapping_add(1))); }
    if let Some(n) = a.is(Add) {
        if n.a == b { return n.b; }
        if n.b == b { return n.a; }
        if n.b.is_c() { let r = sub(n.a, b); return add(r, n.b); }
    }
    if let Some(n) = b.is(Add) {
        if n.a == a { return sub(kk(w, 0), n.b); }
        if n.b == a { return sub(kk(w, 0), n.a); }
        if n.b.is_c() { let r = sub(a, n.a); return sub(r, n.b); }
    }
    if let Some(n) = b.is(Sub) { if n.a == a { return n.b; } }
    if a.is_c() { if let Some(r) = push_tree(Sub, w, a, b) { return r; } }
    mk(Sub, w, a, b, NIL)
}
pub fn neg(a: E) -> E { sub(kk(a.w(), 0), a) }
pub fn mul(a: E, b: E) -> E {
    let w = a.w();
    if let Some(x) = cf2(Mul, w, a, b) { return x; }
    let (a, b) = if a.is_c() || (!b.is_c() && b < a) { (b, a) } else { (a, b) };
    if iszero(b) { return b; }
    if b.c128() == Some(1) { return a; }
    if w == 1 { return and(a, b); }
    if let Some(c) = b.c() {
        if c.is_power_of_two() { return shl(a, k(w, c.trailing_zeros() as u64)); }
        if let Some(r) = push_tree(Mul, w, a, b) { return r; }
    }
    mk(Mul, w, a, b, NIL)
}
/// the summands of e times q, as (term, coefficient)
fn terms(e: E, q: u64, w: u8, out: &mut Vec<(E, u64)>) {
    if let Some(n) = e.n() {
        match n.op {
            Add => { terms(n.a, q, w, out); terms(n.b, q, w, out); return; }
            Mul => if let Some(c) = n.b.c() { if let Some(x) = q.checked_mul(c) { if c >> 40 == 0 { terms(n.a, x, w, out); return; } } },
            Shl => if let Some(c) = n.b.c() { if c < 40 { if let Some(x) = q.checked_mul(1 << c) { if (n.a.info().hi as u128) << c <= mask(w) as u128 { terms(n.a, x, w, out); return; } } } },
            _ => {}
        }
    }
    out.push((e, q));
}
pub fn div(op: Op, a: E, b: E) -> E {
    let w = a.w();
    if let Some(x) = cf2(op, w, a, b) { return x; }
    if let Some(c) = b.c() {
        if c == 1 { return if op == UDiv || op == SDiv { a } else { k(w, 0) }; }
        if c.is_power_of_two() {
            if op == UDiv { return lshr(a, k(w, c.trailing_zeros() as u64)); }
            if op == URem { return and(a, k(w, c - 1)); }
        }
        if (op == SDiv || op == SRem) && w <= 64 && a.info().slo >= 0 && sx(c, w) > 0 { return div(if op == SDiv { UDiv } else { URem }, a, b); }
        if let Some(r) = push_tree(op, w, a, b) { return r; }
        if (op == UDiv || op == URem) && w <= 64 { if let Some(n) = a.is(ZExt) { let v = n.a.w(); if c <= mask(v) { return zext(div(op, n.a, k(v, c)), w); } } }
        // (c*x + y) / c = x and (c*x + y) % c = y for y < c, unless the sum wraps
        if (op == UDiv || op == URem) && w <= 64 && a.is(Add).is_some() {
            let mut ts = vec![];
            terms(a, 1, w, &mut ts);
            let tot = ts.iter().fold(0u128, |s, &(t, q)| s.saturating_add(t.info().hi as u128 * q as u128));
            let rest = ts.iter().filter(|x| x.1 % c != 0).fold(0u128, |s, &(t, q)| s.saturating_add(t.info().hi as u128 * q as u128));
            if tot <= mask(w) as u128 && rest < c as u128 && ts.iter().any(|x| x.1 % c == 0) {
                let mut r = k(w, 0);
                for (t, q) in ts { if (q % c == 0) == (op == UDiv) { r = add(r, mul(t, k(w, if op == UDiv { q / c } else { q }))); } }
                return r;
            }
        }
        if op == SDiv && w <= 64 && c.is_power_of_two() && sx(c, w) > 1 {
            // rounding toward zero: add 2^n - 1 to negative operands, as compilers do
            let n = c.trailing_zeros() as u64;
            let bias = lshr(if n == 1 { a } else { ashr(a, k(w, w as u64 - 1)) }, k(w, w as u64 - n));
            return ashr(add(a, bias), k(w, n));
        }
    }
    if w <= 64 && (op == UDiv || op == URem) && a.info().hi < b.info().lo { return if op == UDiv { k(w, 0) } else { a }; }
    mk(op, w, a, b, NIL)
}
pub fn not(a: E) -> E { xor(a, kk(a.w(), !0)) }

/// decompose into msb-first segments (expr, width) with constants split out
fn segs(e: E, out: &mut Vec<E>) {
    match e.n() {
        Some(n) if n.op == Concat => { segs(n.a, out); segs(n.b, out); }
        Some(n) if n.op == ZExt => { out.push(kk(n.w - n.a.w(), 0)); segs(n.a, out); }
        _ => out.push(e),
    }
}
fn or_segs(a: E, b: E) -> Option<E> {
    let (mut x, mut y) = (vec![], vec![]);
    segs(a, &mut x); segs(b, &mut y);
    if x.len() == 1 && y.len() == 1 { return None; }
    x.reverse(); y.reverse(); // lsb first
    let (mut i, mut j) = (0, 0);
    let mut out: Vec<E> = vec![];
    let (mut cx, mut cy) = (x[0], y[0]);
    loop {
        let (wx, wy) = (cx.w(), cy.w());
        let w = wx.min(wy);
        let split = |e: E, w: u8| -> Option<(E, E)> { if e.c128().is_some() { Some((extract(e, 0, w), extract(e, w, e.w() - w))) } else { None } };
        let (px, rx) = if wx == w { (cx, None) } else { let (p, r) = split(cx, w)?; (p, Some(r)) };
        let (py, ry) = if wy == w { (cy, None) } else { let (p, r) = split(cy, w)?; (p, Some(r)) };
        if iszero(px) { out.push(py); } else if iszero(py) { out.push(px); } else { return None; }
        match rx { Some(r) => cx = r, None => { i += 1; if i < x.len() { cx = x[i]; } } }
        match ry { Some(r) => cy = r, None => { j += 1; if j < y.len() { cy = y[j]; } } }
        if i >= x.len() || j >= y.len() { break; }
    }
    let mut r = out[0];
    for &s in &out[1..] { r = concat(s, r); }
    Some(r)
}

pub fn and(a: E, b: E) -> E {
    if a.is_c() && b.is_c() { return and_(a, b); }
    memo(And, a.w(), a, b, NIL, || and_(a, b))
}
fn and_(a: E, b: E) -> E {
    let w = a.w();
    debug_assert_eq!(w, b.w());
    if let Some(x) = cf2(And, w, a, b) { return x; }
    if a == b { return a; }
    let (a, b) = if a.c128().is_some() || (b.c128().is_none() && b < a) { (b, a) } else { (a, b) };
    if iszero(b) { return b; }
    if isones(b) { return a; }
    if w == 1 {
        if a == not(b) { return F; }
        // absorption
        for (x, y) in [(a, b), (b, a)] {
            if let Some(n) = y.is(And) { if n.a == x || n.b == x { return y; } if n.a == not(x) || n.b == not(x) { return F; } 
                // one more level
                for z in [n.a, n.b] { if let Some(m) = z.is(And) { if m.a == x || m.b == x { return y; } if m.a == not(x) || m.b == not(x) { return F; } } } }
            if let Some(ny) = y.is(Xor) { if ny.b == T { if let Some(n) = ny.a.is(And) {
                // x & !(n.a & n.b)
                if n.a == x { return and(x, not(n.b)); }
                if n.b == x { return and(x, not(n.a)); }
                if n.a == not(x) || n.b == not(x) { return x; }
                for (p, q) in [(n.a, n.b), (n.b, n.a)] { if let Some(m) = p.is(And) { 
                    if m.a == not(x) || m.b == not(x) { return x; }
                    if m.a == x { let r = and(m.b, q); return and(x, not(r)); }
                    if m.b == x { let r = and(m.a, q); return and(x, not(r)); } } }
            } } }
            // eq facts: (v==c1) & (v==c2)
            if let (Some(p), Some(q)) = (x.is(Eq), y.is(Eq)) { if p.a == q.a && p.b.is_c() && q.b.is_c() && p.b != q.b { return F; } }
        }
        // !(p) & !(q) where p=and(c,x), q=and(!c,x)  => !x
        if let (Some(p), Some(q)) = (a.is(Xor), b.is(Xor)) { if p.b == T && q.b == T { if let (Some(p), Some(q)) = (p.a.is(And), q.a.is(And)) {
            for (c, x) in [(p.a, p.b), (p.b, p.a)] { for (d, y) in [(q.a, q.b), (q.b, q.a)] { if x == y && c == not(d) { return not(x); } } }
        } } }
        return mk(And, 1, a, b, NIL);
    }
    if let Some(c) = b.c128() {
        // contiguous low mask
        if c & (c + 1) == 0 { let t = 128 - c.leading_zeros() as u8; return zext(extract(a, 0, t), w); }
        if w <= 64 {
            let c = c as u64; let ia = a.info();
            if c & !ia.kz & mask(w) == 0 { return k(w, 0); }
            // all bits outside c already zero
            if (!c & mask(w)) & !ia.kz == 0 { return a; }
            // contiguous mask
            let tz = c.trailing_zeros() as u8; let s = c >> tz;
            if s & (s + 1) == 0 { let t = 64 - s.leading_zeros() as u8; return shl(zext(extract(a, tz, t), w), k(w, tz as u64)); }
        }
        if let Some(n) = a.is(And) { if n.b.c128().is_some() { return and(n.a, and(n.b, b)); } }
        if b.is_c() { if let Some(r) = push_tree(And, w, a, b) { return r; } }
    }
    mk(And, w, a, b, NIL)
}
pub fn or(a: E, b: E) -> E {
    if a.is_c() && b.is_c() { return or_(a, b); }
    memo(Or, a.w(), a, b, NIL, || or_(a, b))
}
fn or_(a: E, b: E) -> E {
    let w = a.w();
    if let Some(x) = cf2(Or, w, a, b) { return x; }
    if a == b { return a; }
    if w == 1 { return not(and(not(a), not(b))); }
    let (a, b) = if a.c128().is_some() || (b.c128().is_none() && b < a) { (b, a) } else { (a, b) };
    if iszero(b) { return a; }
    if isones(b) { return b; }
    if w <= 64 { let (x, y) = (a.info(), b.info()); if (x.kz | y.kz) == mask(w) { if let Some(r) = or_segs(a, b) { return r; } } }
    else if let Some(r) = or_segs(a, b) { return r; }
    if b.is_c() { if let Some(r) = push_tree(Or, w, a, b) { return r; } }
    mk(Or, w, a, b, NIL)
}
pub fn xor(a: E, b: E) -> E {
    if a.is_c() && b.is_c() { return xor_(a, b); }
    memo(Xor, a.w(), a, b, NIL, || xor_(a, b))
}
fn xor_(a: E, b: E) -> E {
    let w = a.w();
    if let Some(x) = cf2(Xor, w, a, b) { return x; }
    if a == b { return kk(w, 0); }
    let (a, b) = if a.c128().is_some() || (b.c128().is_none() && b < a) { (b, a) } else { (a, b) };
    if iszero(b) { return a; }
    if let Some(n) = a.is(Xor) {
        if b.c128().is_some() && n.b.c128().is_some() { return xor(n.a, xor(n.b, b)); }
        if n.a == b { return n.b; }
        if n.b == b { return n.a; }
        if w == 1 && n.b == T { return not(xor(n.a, b)); }
    }
    if let Some(n) = b.is(Xor) { if n.a == a { return n.b; } if n.b == a { return n.a; } if w == 1 && n.b == T { return not(xor(n.a, a)); } }
    if w > 1 && w <= 64 { let (x, y) = (a.info(), b.info()); if (x.kz | y.kz) == mask(w) { return or(a, b); } }
    if b.is_c() { 
        if w == 1 { if let Some(n) = a.is(Ite) { if n.b.is_c() || n.c.is_c() { return ite(n.a, not(n.b), not(n.c)); } } }
        if let Some(r) = push_tree(Xor, w, a, b) { return r; } }
    mk(Xor, w, a, b, NIL)
}
pub fn shl(a: E, b: E) -> E {
    let w = a.w();
    if let Some(x) = cf2(Shl, w, a, b) { return x; }
    if iszero(b) || iszero(a) { return a; }
    if let Some(s) = b.c128() {
        if s >= w as u128 { return kk(w, 0); }
        let s = s as u8;
        return concat(extract(a, 0, w - s), kk(s, 0));
    }
    if is_ctree(b) { return map_tree(b, &mut |x| shl(a, x)); }
    mk(Shl, w, a, b, NIL)
}
pub fn lshr(a: E, b: E) -> E {
    let w = a.w();
    if let Some(x) = cf2(LShr, w, a, b) { return x; }
    if iszero(b) || iszero(a) { return a; }
    if let Some(s) = b.c128() {
        if s >= w as u128 { return kk(w, 0); }
        let s = s as u8;
        return zext(extract(a, s, w - s), w);
    }
    if is_ctree(b) { return map_tree(b, &mut |x| lshr(a, x)); }
    mk(LShr, w, a, b, NIL)
}
pub fn ashr(a: E, b: E) -> E {
    let w = a.w();
    if let Some(x) = cf2(AShr, w, a, b) { return x; }
    if iszero(b) || iszero(a) { return a; }
    if w <= 64 && a.info().slo >= 0 { return lshr(a, b); }
    if let Some(s) = b.c128() {
        let s = (s.min(w as u128 - 1)) as u8;
        return sext(extract(a, s, w - s), w);
    }
    mk(AShr, w, a, b, NIL)
}
pub fn concat(a: E, b: E) -> E {
    if a.is_c() && b.is_c() { return concat_(a, b); }
    memo(Concat, a.w(), a, b, NIL, || concat_(a, b))
}
fn concat_(a: E, b: E) -> E {
    let w = a.w() + b.w();
    if let (Some(x), Some(y)) = (a.c128(), b.c128()) { return kk(w, x << b.w() | y); }
    if iszero(a) { return zext(b, w); }
    // adjacent extracts
    let ex = |e: E| -> (E, u8, u8) { match e.is(Extract) { Some(n) => (n.a, n.b.c().unwrap() as u8, n.w), None => (e, 0, e.w()) } };
    let (sa, la, wa) = ex(a); let (sb, lb, wb) = ex(b);
    if sa == sb && la == lb + wb { return extract(sa, lb, wa + wb); }
    // right-leaning normal form: concat(concat(x,y),b) -> concat(x, concat(y,b))
    if let Some(n) = a.is(Concat) { let r = concat(n.b, b); return concat(n.a, r); }
    if let Some(n) = a.is(ZExt) { let r = concat(n.a, b); return zext(r, w); }
    if let Some(n) = b.is(Concat) {
        let (sb, lb, wb) = ex(n.a);
        if sa == sb && la == lb + wb { let h = extract(sa, lb, wa + wb); return concat(h, n.b); }
        if let (Some(x), Some(y)) = (a.c128(), n.a.c128()) { if a.w() + n.a.w() <= 128 { let h = kk(a.w() + n.a.w(), x << n.a.w() | y); return concat(h, n.b); } }
    }
    // same-condition ites
    if let (Some(p), Some(q)) = (a.is(Ite), b.is(Ite)) { if p.a == q.a { let x = concat(p.b, q.b); let y = concat(p.c, q.c); return ite(p.a, x, y); } }
    mk(Concat, w, a, b, NIL)
}
pub fn extract(a: E, lo: u8, w: u8) -> E {
    if lo == 0 && w == a.w() { return a; }
    debug_assert!(lo + w <= a.w());
    if let Some(x) = a.c128() { return kk(w, (x >> lo) & mask128(w)); }
    memo(Extract, w, a, k(8, lo as u64), NIL, || extract_(a, lo, w))
}
fn extract_(a: E, lo: u8, w: u8) -> E {
    let n = a.n().unwrap();
    match n.op {
        Extract => return extract(n.a, n.b.c().unwrap() as u8 + lo, w),
        Concat => {
            let bw = n.b.w();
            if lo + w <= bw { return extract(n.b, lo, w); }
            if lo >= bw { return extract(n.a, lo - bw, w); }
            let h = extract(n.a, 0, lo + w - bw); let l = extract(n.b, lo, bw - lo);
            return concat(h, l);
        }
        ZExt => {
            let aw = n.a.w();
            if lo >= aw { return kk(w, 0); }
            if lo + w <= aw { return extract(n.a, lo, w); }
            return zext(extract(n.a, lo, aw - lo), w);
        }
        SExt => {
            let aw = n.a.w();
            if lo + w <= aw { return extract(n.a, lo, w); }
            if lo < aw { return sext(extract(n.a, lo, aw - lo), w); }
            return sext(extract(n.a, aw - 1, 1), w);
        }
        And | Or | Xor => { let x = extract(n.a, lo, w); let y = extract(n.b, lo, w); return bin(n.op, x, y); }
        Ite => { 
            // only push when a side simplifies
            let x = extract(n.b, lo, w); let y = extract(n.c, lo, w); return ite(n.a, x, y);
        }
        Add | Sub | Mul if lo == 0 => { let x = extract(n.a, 0, w); let y = extract(n.b, 0, w); return bin(n.op, x, y); }
        _ => {}
    }
    if n.w <= 64 { let i = a.info(); let m = mask(w); if (i.kz >> lo) & m == m { return kk(w, 0); } if ((i.kz | i.ko) >> lo) & m == m { return kk(w, ((i.ko >> lo) & m) as u128); } }
    mk(Extract, w, a, k(8, lo as u64), NIL)
}
pub fn zext(a: E, w: u8) -> E {
    if a.w() == w { return a; }
    memo(ZExt, w, a, NIL, NIL, || zext_(a, w))
}
fn zext_(a: E, w: u8) -> E {
    debug_assert!(w > a.w());
    if let Some(x) = a.c128() { return kk(w, x); }
    if let Some(n) = a.is(ZExt) { return zext(n.a, w); }
    if is_ctree(a) { return map_tree(a, &mut |x| zext(x, w)); }
    // the negative of something that is not zero
    if let Some(n) = a.is(Sub) { if iszero(n.a) && a.w() < 64 && w <= 64 && n.b.info().lo > 0 { return sub(k(w, 1u64 << a.w()), zext(n.b, w)); } }
    mk(ZExt, w, a, NIL, NIL)
}
/// fewest bits that hold every value of the signed range
fn sbits(slo: i64, shi: i64) -> u8 { (65 - (shi.max(!slo).max(0) as u64).leading_zeros()) as u8 }
pub fn sext(a: E, w: u8) -> E {
    if a.w() == w { return a; }
    if let Some(n) = a.is(Extract) { if n.a.w() <= 64 {
        let (lo, i) = (n.b.c().unwrap_or(255), n.a.info());
        if lo < 64 { let need = sbits(i.slo >> lo, i.shi >> lo); if lo == 0 && need <= a.w() && n.a.w() <= w { return sext(n.a, w); } if need < a.w() { return sext(extract(n.a, lo as u8, need), w); } }
    } }
    if let Some(x) = a.c128() { return kk(w, sx128(x, a.w()) as u128); }
    if let Some(n) = a.is(SExt) { return sext(n.a, w); }
    if a.w() <= 64 && a.info().kz >> (a.w() - 1) & 1 == 1 { return zext(a, w); }
    if is_ctree(a) { return map_tree(a, &mut |x| sext(x, w)); }
    if let Some(n) = a.is(Sub) { if iszero(n.a) && a.w() < 64 && w <= 64 && n.b.info().hi <= 1u64 << (a.w() - 1) { return sub(k(w, 0), zext(n.b, w)); } }
    mk(SExt, w, a, NIL, NIL)
}
pub fn trunc(a: E, w: u8) -> E { extract(a, 0, w) }

pub fn ite(c: E, a: E, b: E) -> E {
    if let Some(v) = c.c() { return if v == 1 { a } else { b }; }
    if a == b { return a; }
    debug_assert_eq!(a.w(), b.w());
    memo(Ite, a.w(), c, a, b, || ite_(c, a, b))
}
fn ite_(c: E, a: E, b: E) -> E {
    let w = a.w();
    if let Some(n) = c.is(Xor) { if n.b == T { return ite(n.a, b, a); } }
    if w == 1 {
        if a == T { return or(c, b); }
        if a == F { return and(not(c), b); }
        if b == F { return and(c, a); }
        if b == T { return or(not(c), a); }
        if a == c { return or(c, b); }
        if b == c { return and(c, a); }
        if a == not(b) { return xor(c, b); }
    }
    let mut a = a; let mut b = b;
    if let Some(n) = a.is(Ite) { if n.a == c { a = n.b; } else if n.a == not(c) { a = n.c; } }
    if let Some(n) = b.is(Ite) { if n.a == c { b = n.c; } else if n.a == not(c) { b = n.b; } }
    if a == b { return a; }
    // ite(c, x, ite(d, x, y)) -> ite(c|d, x, y)
    if let Some(n) = b.is(Ite) { if n.b == a { return ite(or(c, n.a), a, n.c); } if n.c == a { return ite(or(c, not(n.a)), a, n.b); } }
    if let Some(n) = a.is(Ite) { if n.c == b { return ite(and(c, n.a), n.b, b); } if n.b == b { return ite(and(c, not(n.a)), n.c, b); } }
    // pull common structure
    if let (Some(p), Some(q)) = (a.n(), b.n()) {
        if p.op == ZExt && q.op == ZExt && p.a.w() == q.a.w() { return zext(ite(c, p.a, q.a), w); }
        if p.op == IToF && q.op == IToF { return mk(IToF, 64, ite(c, p.a, q.a), NIL, NIL); }
        if p.op == Concat && q.op == Concat && p.b.w() == q.b.w() { if p.a == q.a { let r = ite(c, p.b, q.b); return concat(p.a, r); } if p.b == q.b { let r = ite(c, p.a, q.a); return concat(r, p.b); } }
        if p.op == q.op && matches!(p.op, Add | Xor) && p.a == q.a { let r = ite(c, p.b, q.b); return bin(p.op, p.a, r); }
        if p.op == Add && q.op == Add && p.b == q.b { let r = ite(c, p.a, q.a); return add(r, p.b); }
    }
    // int-valued doubles
    if w == 64 {
        if let (Some(_), Some(y)) = (a.is(IToF), int_of_const(b)) { let x = a.n().unwrap().a; return mk(IToF, 64, ite(c, x, y), NIL, NIL); }
        if let (Some(x), Some(_)) = (int_of_const(a), b.is(IToF)) { let y = b.n().unwrap().a; return mk(IToF, 64, ite(c, x, y), NIL, NIL); }
    }
    mk(Ite, w, c, a, b)
}
pub fn eq(a: E, b: E) -> E {
    debug_assert_eq!(a.w(), b.w());
    if a == b { return T; }
    if let Some(x) = cf2(Eq, 1, a, b) { return x; }
    memo(Eq, 1, a, b, NIL, || eq_(a, b))
}
fn eq_(a: E, b: E) -> E {
    let w = a.w();
    if w == 1 { return not(xor(a, b)); }
    let (a, b) = if a.c128().is_some() || (b.c128().is_none() && b < a) { (b, a) } else { (a, b) };
    if w <= 64 {
        let (x, y) = (a.info(), b.info());
        if x.lo > y.hi || y.lo > x.hi || x.slo > y.shi || y.slo > x.shi { return F; }
        if (x.ko & y.kz) != 0 || (x.kz & y.ko) != 0 { return F; }
    }
    if let Some(c) = b.c128() {
        if let Some(n) = a.n() {
            match n.op {
                ZExt => { if c >> n.a.w() != 0 { return F; } return eq(n.a, kk(n.a.w(), c)); }
                SExt => { let aw = n.a.w(); if sx128(c, w) != sx128(c & mask128(aw), aw) { return F; } return eq(n.a, kk(aw, c)); }
                Concat => { let bw = n.b.w(); let h = eq(n.a, kk(n.a.w(), c >> bw)); if h == F { return F; } let l = eq(n.b, kk(bw, c)); return and(h, l); }
                Add if n.b.c128().is_some() => return eq(n.a, sub(b, n.b)),
                Sub if n.a.c128().is_some() => return eq(n.b, sub(n.a, b)),
                Sub if c == 0 => return eq(n.a, n.b),
                Xor if n.b.c128().is_some() => return eq(n.a, xor(b, n.b)),
                Xor if c == 0 => return eq(n.a, n.b),
                Ite => {
                    if n.b.c128().is_some() || n.c.c128().is_some() { let x = eq(n.b, b); let y = eq(n.c, b); return ite(n.a, x, y); }
                }
                IToF => { if let Some(x) = int_of_const(b) { return eq(n.a, x); } return F; }
                _ => {}
            }
        }
    } else {
        if let (Some(p), Some(q)) = (a.n(), b.n()) {
            if p.op == ZExt && q.op == ZExt { let m = p.a.w().max(q.a.w()); let x = zext(p.a, m); let y = zext(q.a, m); if m < w { return eq(x, y); } }
            if p.op == SExt && q.op == SExt && p.a.w() == q.a.w() { return eq(p.a, q.a); }
            if p.op == Add && q.op == Add { if p.b == q.b { return eq(p.a, q.a); } if p.a == q.a { return eq(p.b, q.b); } 
                if p.b.is_c() && q.b.is_c() { let d = sub(q.b, p.b); let r = add(q.a, d); if r != b { return eq(p.a, r); } } }
            if p.op == Concat && q.op == Concat && p.b.w() == q.b.w() { let h = eq(p.a, q.a); if h == F { return F; } let l = eq(p.b, q.b); return and(h, l); }
            if p.op == IToF && q.op == IToF { return eq(p.a, q.a); }
            if p.op == Ite && q.op == Ite && p.a == q.a { let x = eq(p.b, q.b); let y = eq(p.c, q.c); return ite(p.a, x, y); }
        }
    }
    mk(Eq, 1, a, b, NIL)
}
pub fn ult(a: E, b: E) -> E {
    if a.is_c() && b.is_c() { return ult_(a, b); }
    memo(Ult, 1, a, b, NIL, || ult_(a, b))
}
fn ult_(a: E, b: E) -> E {
    if a == b { return F; }
    if let Some(x) = cf2(Ult, 1, a, b) { return x; }
    let w = a.w();
    if iszero(b) { return F; }
    if iszero(a) { return not(eq(b, a)); }
    if b.c128() == Some(1) { return eq(a, kk(w, 0)); }
    if w == 1 { return and(not(a), b); }
    if w <= 64 {
        let (x, y) = (a.info(), b.info());
        if x.hi < y.lo { return T; }
        if x.lo >= y.hi { return F; }
        if y.hi == y.lo && x.hi == y.hi { return not(eq(a, b)); }
        if x.hi == x.lo && y.lo == x.lo { return not(eq(a, b)); }
        if let (Some(c), Some(n)) = (b.c(), a.n()) { if n.op == ZExt && c <= mask(n.a.w()) { return ult(n.a, k(n.a.w(), c)); } }
        if let (Some(c), Some(n)) = (a.c(), b.n()) { if n.op == ZExt && c <= mask(n.a.w()) { return ult(k(n.a.w(), c), n.a); } }
        if let (Some(p), Some(q)) = (a.is(ZExt), b.is(ZExt)) { let m = p.a.w().max(q.a.w()); if m < w { let x = zext(p.a, m); let y = zext(q.a, m); return ult(x, y); } }
    }
    if let Some(r) = push_tree(Ult, 1, a, b) { return r; }
    mk(Ult, 1, a, b, NIL)
}
pub fn ule(a: E, b: E) -> E { not(ult(b, a)) }
pub fn slt(a: E, b: E) -> E {
    if a.is_c() && b.is_c() { return slt_(a, b); }
    memo(Slt, 1, a, b, NIL, || slt_(a, b))
}
fn slt_(a: E, b: E) -> E {
    if a == b { return F; }
    if let Some(x) = cf2(Slt, 1, a, b) { return x; }
    let w = a.w();
    if w == 1 { return and(a, not(b)); }
    if w <= 64 {
        let (x, y) = (a.info(), b.info());
        if x.shi < y.slo { return T; }
        if x.slo >= y.shi { return F; }
        if x.slo >= 0 && y.slo >= 0 { return ult(a, b); }
        if x.shi < 0 && y.shi < 0 { return ult(a, b); }
    }
    if let Some(r) = push_tree(Slt, 1, a, b) { return r; }
    mk(Slt, 1, a, b, NIL)
}
pub fn sle(a: E, b: E) -> E { not(slt(b, a)) }

// ---------------------------------------------------------------- floating point
pub fn fc(v: f64) -> E { k(64, v.to_bits()) }
pub fn asf(e: E) -> Option<f64> { e.c().map(f64::from_bits) }
const MAXI: i64 = 1 << 53;
/// integer value (64-bit) of a constant double that is an integer, and not -0.0
fn int_of_const(e: E) -> Option<E> {
    let v = asf(e)?;
    if v.fract() == 0.0 && v.abs() <= MAXI as f64 && !(v == 0.0 && v.is_sign_negative()) { Some(k(64, v as i64 as u64)) } else { None }
}
fn int_of(e: E) -> Option<E> { if let Some(n) = e.is(IToF) { return Some(n.a); } if e.is_c() && e.w() == 64 { return int_of_const(e); } None }
fn itof(x: E) -> Option<E> {
    if let Some(c) = x.c() { return Some(fc(c as i64 as f64)); }
    let i = x.info();
    if i.slo >= -MAXI && i.shi <= MAXI { let c = lin_canon(x); if let Some(c) = c.c() { return Some(fc(c as i64 as f64)); } let c = if c.info().slo >= -MAXI && c.info().shi <= MAXI { c } else { x }; Some(mk(IToF, 64, c, NIL, NIL)) } else { None }
}
/// linear normal form (modulo 2^64) over the non-linear subterms: sorted terms with coefficients
pub type Lin = (Vec<(E, u64)>, u64);
fn lin(x: E) -> std::rc::Rc<Lin> {
    use std::rc::Rc;
    let i = match x { E::C(_, v) => return Rc::new((vec![], v)), E::S(i) => i };
    if let Some(r) = ar().lins.get(&i) { return r.clone(); }
    let n = x.n().unwrap();
    let comb = |a: &Lin, b: &Lin, s: u64| -> Lin {
        let mut o = Vec::with_capacity(a.0.len() + b.0.len());
        let (mut p, mut q) = (0, 0);
        while p < a.0.len() || q < b.0.len() {
            if q >= b.0.len() || p < a.0.len() && a.0[p].0 < b.0[q].0 { o.push(a.0[p]); p += 1; }
            else if p >= a.0.len() || b.0[q].0 < a.0[p].0 { o.push((b.0[q].0, b.0[q].1.wrapping_mul(s))); q += 1; }
            else { let c = a.0[p].1.wrapping_add(b.0[q].1.wrapping_mul(s)); if c != 0 { o.push((a.0[p].0, c)); } p += 1; q += 1; }
        }
        (o, a.1.wrapping_add(b.1.wrapping_mul(s)))
    };
    let scale = |a: &Lin, s: u64| -> Lin { (a.0.iter().map(|t| (t.0, t.1.wrapping_mul(s))).filter(|t| t.1 != 0).collect(), a.1.wrapping_mul(s)) };
    let r = match n.op {
        Add => comb(&lin(n.a), &lin(n.b), 1),
        Sub => comb(&lin(n.a), &lin(n.b), !0),
        Mul if n.b.is_c() => scale(&lin(n.a), n.b.c().unwrap()),
        Mul if n.a.is_c() => scale(&lin(n.b), n.a.c().unwrap()),
        Shl if n.b.is_c() && n.b.c().unwrap() < 64 => scale(&lin(n.a), 1 << n.b.c().unwrap()),
        // a shift by constant zeros at the bottom, written as a concatenation
        Concat if n.b.c() == Some(0) && n.a.is(Extract).is_some_and(|x| x.b.c() == Some(0) && x.a.w() == 64) => scale(&lin(n.a.is(Extract).unwrap().a), 1 << n.b.w()),
        _ => (vec![(x, 1)], 0),
    };
    let r = Rc::new(r);
    ar().lins.insert(i, r.clone());
    r
}
fn lin_canon(x: E) -> E {
    if !ar().dyad { return x; }
    let Some(n) = x.n() else { return x };
    if x.w() != 64 || !matches!(n.op, Add | Sub | Mul | Shl | Concat) { return x; }
    let l = lin(x);
    let mut acc: Option<E> = None;
    for &(t, c) in &l.0 {
        let m = if c == 1 { t } else if c == !0 { mk(Sub, 64, k(64, 0), t, NIL) } else { mk(Mul, 64, t, k(64, c), NIL) };
        acc = Some(match acc { None => m, Some(p) => if c == !0 { mk(Sub, 64, p, t, NIL) } else if (c as i64) < 0 { let m = mk(Mul, 64, t, k(64, c.wrapping_neg()), NIL); mk(Sub, 64, p, m, NIL) } else { mk(Add, 64, p, m, NIL) } });
    }
    match acc { None => k(64, l.1), Some(p) => if l.1 == 0 { p } else { mk(Add, 64, p, k(64, l.1), NIL) } }
}
/// e = x * 2^-k with |x| <= 2^53, k <= 60 (and never -0.0): (x, k)
fn dyadic(e: E) -> Option<(E, u32)> {
    if e.w() != 64 { return None; }
    if !ar().dyad { return int_of(e).map(|x| (x, 0)); }
    if let Some(v) = asf(e) {
        if !v.is_finite() || v == 0.0 && v.is_sign_negative() || v.abs() > MAXI as f64 { return None; }
        let mut s = v; let mut i = 0;
        while s.fract() != 0.0 { if i == 30 || s.abs() > 1e15 { return None; } s *= 2.0; i += 1; }
        return Some((k(64, s as i64 as u64), i));
    }
    let n = e.n().unwrap();
    match n.op {
        IToF => Some((n.a, 0)),
        FMul => { let c = asf(n.b).or(asf(n.a))?; let x = if n.b.is_c() { n.a } else { n.b }; if x.is(IToF).is_some() && c > 0.0 && c < 1.0 && c.to_bits() & ((1 << 52) - 1) == 0 && c >= 8.6e-19 { Some((x.n().unwrap().a, (-c.log2()) as u32)) } else { None } }
        _ => None,
    }
}
fn mk_dyadic(x: E, i: u32) -> Option<E> {
    if i == 0 { return itof(x); }
    let r = itof(x)?;
    if let Some(v) = asf(r) { return Some(fc(v / (1u64 << i) as f64)); }
    // drop common factors of two when the sum cannot wrap
    if !ar().dyad { return Some(mk_scaled(r, i)); }
    let x = r.n().unwrap().a;
    let l = lin(x);
    let mut tz = l.1.trailing_zeros().min(i); let mut b = (l.1 as i64).unsigned_abs() as u128;
    for &(t, c) in &l.0 { tz = tz.min(c.trailing_zeros()); let p = t.info(); b += (c as i64).unsigned_abs() as u128 * p.slo.unsigned_abs().max(p.shi.unsigned_abs()) as u128; }
    if tz == 0 || b >= 1 << 62 { return Some(mk_scaled(r, i)); }
    let mut acc = k(64, ((l.1 as i64) >> tz) as u64);
    for &(t, c) in &l.0 { let m = mul(t, k(64, ((c as i64) >> tz) as u64)); acc = add(acc, m); }
    let r = itof(acc)?;
    Some(if tz == i { r } else { mk_scaled(r, i - tz) })
}
fn mk_scaled(r: E, i: u32) -> E {
    let c = fc(1.0 / (1u64 << i) as f64);
    let (a, b) = if c < r { (c, r) } else { (r, c) };
    ar().raw(Node { op: FMul, w: 64, a, b, c: NIL })
}
/// the double is never -0.0
fn not_neg_zero(e: E) -> bool {
    match e { E::C(64, v) => v != 1 << 63, E::C(..) => false, _ => { let n = e.n().unwrap(); match n.op { IToF => true, FMul => n.a == n.b || dyadic(e).is_some(), FAdd => not_neg_zero(n.a) || not_neg_zero(n.b), FSqrt => not_neg_zero(n.a), Ite => not_neg_zero(n.b) && not_neg_zero(n.c), _ => e.info().kz >> 63 == 1 } } }
}
/// e = IToF(x) times constants: (x, product)
fn scaled_int(e: E, depth: u32) -> Option<(E, f64)> {
    let n = e.n()?;
    if n.op == IToF { return Some((n.a, 1.0)); }
    if depth == 0 { return None; }
    let ok = |c: f64| c.abs() > 1e-9 && c.abs() < 1e9;
    match n.op {
        FMul => { let (x, c) = if let Some(c) = asf(n.b) { (n.a, c) } else { (n.b, asf(n.a)?) }; if !ok(c) { return None; } let r = scaled_int(x, depth - 1)?; Some((r.0, r.1 * c)) }
        FDiv => { let c = asf(n.b)?; if !ok(c) { return None; } let r = scaled_int(n.a, depth - 1)?; Some((r.0, r.1 / c)) }
        _ => None,
    }
}
pub fn native_f2(op: Op, w: u8, x: u64, y: u64) -> u64 {
    if w == 32 {
        let (a, b) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
        (match op { FAdd => a + b, FSub => a - b, FMul => a * b, FDiv => a / b, FRem => a % b, FPow => a.powf(b), _ => unreachable!() }).to_bits() as u64
    } else {
        let (a, b) = (f64::from_bits(x), f64::from_bits(y));
        (match op { FAdd => a + b, FSub => a - b, FMul => a * b, FDiv => a / b, FRem => a % b, FPow => a.powf(b), _ => unreachable!() }).to_bits()
    }
}
pub fn native_f1(op: Op, w: u8, x: u64) -> u64 {
    if w == 32 {
        let a = f32::from_bits(x as u32);
        (match op { FSqrt => a.sqrt(), FRound => a.round(), FFloor => a.floor(), FCeil => a.ceil(), FTruncI => a.trunc(), FLn => a.ln(), FLog2 => a.log2(), FLog10 => a.log10(), FCos => a.cos(), FSin => a.sin(), FExp => a.exp(), _ => unreachable!() }).to_bits() as u64
    } else {
        let a = f64::from_bits(x);
        (match op { FSqrt => a.sqrt(), FRound => a.round(), FFloor => a.floor(), FCeil => a.ceil(), FTruncI => a.trunc(), FLn => a.ln(), FLog2 => a.log2(), FLog10 => a.log10(), FCos => a.cos(), FSin => a.sin(), FExp => a.exp(), _ => unreachable!() }).to_bits()
    }
}
pub fn f2(op: Op, a: E, b: E) -> E {
    let w = a.w();
    if let (Some(x), Some(y)) = (a.c(), b.c()) { return k(w, native_f2(op, w, x, y)); }
    if w == 64 {
        if let (Some((x, i)), Some((y, j))) = (dyadic(a), dyadic(b)) {
            let sz = |e: E| { let p = e.info(); p.slo.unsigned_abs().max(p.shi.unsigned_abs()) as u128 };
            match op {
                FAdd | FSub if sz(x) << (i.max(j) - i) <= MAXI as u128 && sz(y) << (i.max(j) - j) <= MAXI as u128 => {
                    let m = i.max(j);
                    let (p, q) = (shl(x, k(64, (m - i) as u64)), shl(y, k(64, (m - j) as u64)));
                    if let Some(r) = mk_dyadic(if op == FAdd { add(p, q) } else { sub(p, q) }, m) { return r; }
                }
                FMul => {
                    let (p, q) = (x.info(), y.info());
                    if (x == y || p.slo >= 0 && q.slo >= 0 || p.slo > 0 || q.slo > 0 || (p.slo > 0 || p.shi < 0) && (q.slo > 0 || q.shi < 0)) && i + j <= 60 && sz(x) * sz(y) <= MAXI as u128 { if let Some(r) = mk_dyadic(mul(x, y), i + j) { return r; } }
                }
                FDiv if ar().dyad => if let Some(c) = asf(b) { if c >= 1.0 && c <= 1e9 && c.to_bits() & ((1 << 52) - 1) == 0 && i + c.log2() as u32 <= 60 { if let Some(r) = mk_dyadic(x, i + c.log2() as u32) { return r; } } },
                _ => {}
            }
        }
        if op == FMul { if asf(b) == Some(1.0) { return a; } if asf(a) == Some(1.0) { return b; } }
        if op == FDiv && asf(b) == Some(1.0) { return a; }
        if op == FAdd && (a.c() == Some(0) && not_neg_zero(b)) { return b; }
        if op == FAdd && (b.c() == Some(0) && not_neg_zero(a)) { return a; }
        // x - 0.0 == x, x + -0.0 == x
        if op == FSub && b.c() == Some(0) { return a; }
        if op == FAdd && b.c() == Some(0x8000000000000000) { return a; }
        if op == FAdd && a.c() == Some(0x8000000000000000) { return b; }
    }
    // commutative normal form (IEEE addition and multiplication commute up to NaN payloads)
    let (a, b) = if (op == FAdd || op == FMul) && b < a { (b, a) } else { (a, b) };
    fnode(Node { op, w, a, b, c: NIL })
}
fn fnode(n: Node) -> E {
    let a = ar();
    if a.havoc_fp {
        // abstraction: the result is an arbitrary value (a function of its operands)
        if let Some(&e) = a.havoc_map.get(&n) { return e; }
        let idx = a.vars.len();
        let e = var(&format!("havoc{}", idx), n.w);
        ar().havoc_map.insert(n, e);
        return e;
    }
    a.raw(n)
}
pub fn f1(op: Op, a: E) -> E {
    let w = a.w();
    if let Some(x) = a.c() { return k(w, native_f1(op, w, x)); }
    if matches!(op, FRound | FFloor | FCeil | FTruncI) && a.is(IToF).is_some() { return a; }
    if op == FRound && w == 64 { if let Some((x, p)) = scaled_int(a, 6) { let i = x.info(); let m = (i.slo.unsigned_abs().max(i.shi.unsigned_abs())) as f64; if (p - 1.0).abs() < 1e-12 && m * 1e-11 < 0.1 { if let Some(r) = itof(x) { return r; } } } }
    fnode(Node { op, w, a, b: NIL, c: NIL })
}
pub fn fneg(a: E) -> E { xor(a, k(a.w(), 1u64 << (a.w() - 1))) }
pub fn fabs(a: E) -> E {
    if let Some(n) = a.is(IToF) { let i = n.a.info(); if i.slo >= 0 { return a; } if i.slo > i64::MIN { let ng = neg(n.a); if let Some(r) = itof(ite(slt(n.a, k(64, 0)), ng, n.a)) { return r; } } }
    and(a, k(a.w(), mask(a.w() - 1)))
}
/// least double whose square root is at least c
fn sqrt_first(c: f64) -> f64 {
    let mut x = c * c;
    while x.sqrt() >= c { x = x.next_down(); }
    while x.sqrt() < c { x = x.next_up(); }
    x
}
/// the double is not NaN and not negative
/// the least double whose logarithm is at least c
fn ln_first(c: f64) -> f64 {
    let (mut l, mut h) = (0u64, f64::MAX.to_bits());
    while l + 1 < h { let m = l + (h - l) / 2; if f64::from_bits(m).ln() >= c { h = m } else { l = m } }
    f64::from_bits(h)
}
fn nonneg(e: E) -> bool {
    if let Some((x, _)) = dyadic(e) { return x.info().slo >= 0; }
    ar().realmode && crate::real::iv(e).is_some_and(|v| v.0 >= 0.0)
}
pub fn native_cmp(op: Op, w: u8, x: u64, y: u64) -> bool {
    let (a, b) = if w == 32 { (f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64) } else { (f64::from_bits(x), f64::from_bits(y)) };
    match op { FLt => a < b, FLe => a <= b, FEq => a == b, FUno => a.is_nan() || b.is_nan(), _ => unreachable!() }
}
fn known_not_nan(e: E) -> bool {
    if ar().realmode && crate::real::iv(e).is_some() { return true; }
    match e { E::C(64, v) => !f64::from_bits(v).is_nan(), E::C(_, v) => !f32::from_bits(v as u32).is_nan(),
        _ => { let n = e.n().unwrap(); match n.op { IToF | SToF | UToF => true, FMul if dyadic(e).is_some() => true, Ite => known_not_nan(n.b) && known_not_nan(n.c),
            _ => { if n.w == 64 { let i = e.info(); let ex = i.kz & 0x7ff0_0000_0000_0000; ex != 0 } else { false } } } } }
}
pub fn fcmp(op: Op, a: E, b: E) -> E {
    let w = a.w();
    if let (Some(x), Some(y)) = (a.c(), b.c()) { return kb(native_cmp(op, w, x, y)); }
    if op == FUno {
        if a == b { if known_not_nan(a) { return F; } }
        else if known_not_nan(a) && known_not_nan(b) { return F; }
        else if known_not_nan(b) { return fcmp(FUno, a, a); }
        else if known_not_nan(a) { return fcmp(FUno, b, b); }
        else { let x = fcmp(FUno, a, a); let y = fcmp(FUno, b, b); return or(x, y); }
        return mk(FUno, 1, a, b, NIL);
    }
    if w == 64 {
        if let (Some((x, i)), Some((y, j))) = (dyadic(a), dyadic(b)) {
            let m = i.max(j);
            let sz = |e: E| { let p = e.info(); p.slo.unsigned_abs().max(p.shi.unsigned_abs()) as u128 };
            if m > 0 && sz(x) << (m - i) <= i64::MAX as u128 && sz(y) << (m - j) <= i64::MAX as u128 { let (p, q) = (shl(x, k(64, (m - i) as u64)), shl(y, k(64, (m - j) as u64))); return match op { FLt => slt(p, q), FLe => sle(p, q), FEq => eq(p, q), _ => unreachable!() }; }
        }
        if let (Some((x, i)), Some(c)) = (dyadic(a), asf(b)) { if i > 0 && c.is_finite() { let c = c * (1u64 << i) as f64; if c.is_finite() { return fcmp(op, mk(IToF, 64, x, NIL, NIL), fc(c)); } } }
        if let (Some(c), Some((x, i))) = (asf(a), dyadic(b)) { if i > 0 && c.is_finite() { let c = c * (1u64 << i) as f64; if c.is_finite() { return fcmp(op, fc(c), mk(IToF, 64, x, NIL, NIL)); } } }
        if let (Some(x), Some(y)) = (int_of(a), int_of(b)) { return match op { FLt => slt(x, y), FLe => sle(x, y), FEq => eq(x, y), _ => unreachable!() }; }
        // integer vs arbitrary constant
        if let (Some(n), Some(c)) = (a.is(IToF), asf(b)) {
            if c.is_nan() { return F; }
            if c.abs() < 4e18 { let fl = c.floor() as i64; let isint = c.fract() == 0.0; return match op { FLt => if isint { slt(n.a, k(64, fl as u64)) } else { sle(n.a, k(64, fl as u64)) }, FLe => sle(n.a, k(64, fl as u64)), FEq => if isint { eq(n.a, k(64, fl as u64)) } else { F }, _ => unreachable!() }; }
        }
        if let (Some(c), Some(n)) = (asf(a), b.is(IToF)) {
            if c.is_nan() { return F; }
            if c.abs() < 4e18 { let ce = c.ceil() as i64; let isint = c.fract() == 0.0; return match op { FLt => if isint { slt(k(64, ce as u64), n.a) } else { sle(k(64, ce as u64), n.a) }, FLe => sle(k(64, ce as u64), n.a), FEq => if isint { eq(n.a, k(64, ce as u64)) } else { F }, _ => unreachable!() }; }
        }
        if is_ctree(a) && b.is_c() { return map_tree(a, &mut |x| fcmp(op, x, b)); }
        if is_ctree(b) && a.is_c() { return map_tree(b, &mut |x| fcmp(op, a, x)); }
    }
    if w == 64 && (op == FLt || op == FLe) {
        // the correctly rounded square root is monotone: compare the operand with the matching threshold
        if let (Some(n), Some(c)) = (a.is(FSqrt), asf(b)) { if c > 1e-100 && c < 1e100 && nonneg(n.a) { return if op == FLt { fcmp(FLt, n.a, fc(sqrt_first(c))) } else { fcmp(FLt, n.a, fc(sqrt_first(c.next_up()))) }; } }
        if let (Some(c), Some(n)) = (asf(a), b.is(FSqrt)) { if c > 1e-100 && c < 1e100 && nonneg(n.a) { return if op == FLe { fcmp(FLe, fc(sqrt_first(c)), n.a) } else { fcmp(FLe, fc(sqrt_first(c.next_up())), n.a) }; } }
    }
    if w == 64 && ar().realmode && (op == FLt || op == FLe) {
        // likewise the logarithm (assumed monotone)
        let pos = |e: E| crate::real::iv(e).map_or(false, |v| v.0 > 0.0);
        if let (Some(n), Some(c)) = (a.is(FLn), asf(b)) { if c.abs() < 200.0 && pos(n.a) { return fcmp(FLt, n.a, fc(ln_first(if op == FLt { c } else { c.next_up() }))); } }
        if let (Some(c), Some(n)) = (asf(a), b.is(FLn)) { if c.abs() < 200.0 && pos(n.a) { return fcmp(FLe, fc(ln_first(if op == FLe { c } else { c.next_up() })), n.a); } }
    }
    if ar().realmode {
        if let (Some(x), Some(y)) = (crate::real::iv(a), crate::real::iv(b)) {
            match op { FLt => { if x.1 < y.0 { return T; } if x.0 >= y.1 { return F; } } FLe => { if x.1 <= y.0 { return T; } if x.0 > y.1 { return F; } } FEq => if x.1 < y.0 || y.1 < x.0 { return F; }, _ => {} }
        }
    }
    if a == b && op == FLt { return F; }
    if a == b { let u = fcmp(FUno, a, a); return not(u); }
    mk(op, 1, a, b, NIL)
}
pub fn stof(a: E, w: u8, signed: bool) -> E {
    let aw = a.w();
    if let Some(x) = a.c128() {
        let r = if signed { let v = sx128(x, aw); if w == 32 { (v as f32).to_bits() as u64 } else { (v as f64).to_bits() } } else if w == 32 { (x as f32).to_bits() as u64 } else { (x as f64).to_bits() };
        return k(w, r);
    }
    if w == 64 && aw <= 64 {
        let x = if signed { sext(a, 64) } else { zext(a, 64) };
        if signed || x.info().slo >= 0 { if let Some(r) = itof(x) { return r; } }
    }
    mk(if signed { SToF } else { UToF }, w, a, NIL, NIL)
}
pub fn native_ftoi(v: f64, w: u8, signed: bool) -> u64 {
    if v.is_nan() { return 0; }
    if signed { let lo = smin(w); let hi = smax(w); let r = v as i64; (r.max(lo).min(hi) as u64) & mask(w) } else { let r = v as u64; r.min(mask(w)) }
}
pub fn ftoi(a: E, w: u8, signed: bool) -> E {
    if let Some(x) = a.c() { let v = if a.w() == 32 { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x) }; return k(w, native_ftoi(v, w, signed)); }
    if let Some(n) = a.is(IToF) {
        let x = n.a; let i = x.info();
        if signed { if i.slo >= smin(w) && i.shi <= smax(w) { return trunc(x, w); } }
        else if i.slo >= 0 && i.hi <= mask(w) { return trunc(x, w); }
        // saturate
        let (lo, hi) = if signed { (smin(w) as u64, smax(w) as u64) } else { (0, mask(w).min(i64::MAX as u64)) };
        let r = ite(slt(x, k(64, lo)), k(64, lo), ite(slt(k(64, hi), x), k(64, hi), x));
        return trunc(r, w);
    }
    if is_ctree(a) { return map_tree(a, &mut |x| ftoi(x, w, signed)); }
    if let Some(n) = a.is(Ite) { if n.b.c().is_some() || n.c.c().is_some() { return ite(n.a, ftoi(n.b, w, signed), ftoi(n.c, w, signed)); } }
    fnode(Node { op: if signed { FToS } else { FToU }, w, a, b: NIL, c: NIL })
}
pub fn fptrunc(a: E) -> E { if let Some(x) = asf(a) { return k(32, (x as f32).to_bits() as u64); } mk(FTrunc, 32, a, NIL, NIL) }
pub fn fpext(a: E) -> E { if let Some(x) = a.c() { return k(64, (f32::from_bits(x as u32) as f64).to_bits()); } mk(FExt, 64, a, NIL, NIL) }

pub fn var(name: &str, w: u8) -> E {
    let a = ar();
    let i = a.vars.iter().position(|v| v.0 == name).unwrap_or_else(|| { a.vars.push((name.to_string(), w)); a.vars.len() - 1 });
    assert_eq!(a.vars[i].1, w, "variable {} redeclared at another width", name);
    a.raw(Node { op: Var, w, a: E::C(32, i as u64), b: NIL, c: NIL })
}

// ---------------------------------------------------------------- models
pub struct Model { pub vals: Map<u32, u64>, memo: std::cell::RefCell<Vec<(bool, u128)>> }
impl Model {
    pub fn new(vals: Map<u32, u64>) -> Self { Model { vals, memo: Default::default() } }
    pub fn eval(&self, e: E) -> u128 {
        match e {
            E::C(_, v) => v as u128,
            E::S(i) => {
                let mut memo = self.memo.borrow_mut();
                if memo.len() < ar().nodes.len() { memo.resize(ar().nodes.len(), (false, 0)); }
                if memo[i as usize].0 { return memo[i as usize].1; }
                // iterative post-order
                let mut st = vec![i];
                while let Some(&t) = st.last() {
                    if memo[t as usize].0 { st.pop(); continue; }
                    let n = ar().nodes[t as usize];
                    let mut ready = true;
                    if n.op != Var {
                        if n.op == Ite {
                            // lazy
                            let cv = match n.a { E::C(_, v) => Some(v as u128), E::S(j) => if memo[j as usize].0 { Some(memo[j as usize].1) } else { st.push(j); None } };
                            match cv { None => continue, Some(cv) => { let r = if cv == 1 { n.b } else { n.c }; match r { E::C(_, v) => { memo[t as usize] = (true, v as u128); st.pop(); } E::S(j) => if memo[j as usize].0 { memo[t as usize] = memo[j as usize]; st.pop(); } else { st.push(j); } } continue; } }
                        }
                        for x in [n.a, n.b, n.c] { if let E::S(j) = x { if !memo[j as usize].0 { st.push(j); ready = false; } } }
                    }
                    if !ready { continue; }
                    let g = |x: E| -> u128 { match x { E::C(_, v) => v as u128, E::S(j) => memo[j as usize].1 } };
                    let v = self.eval_node(&n, g(n.a), g(n.b), g(n.c));
                    memo[t as usize] = (true, v);
                    st.pop();
                }
                memo[i as usize].1
            }
        }
    }
    fn eval_node(&self, n: &Node, a: u128, b: u128, _c: u128) -> u128 {
        let aw = if n.a == NIL { 0 } else { n.a.w() };
        match n.op {
            Var => match self.vals.get(&(a as u32)) { Some(v) => *v as u128, None => match ar().reals.get(&(a as u32)) { Some(r) => 0f64.clamp(r.0, r.1).to_bits() as u128, None => 0 } },
            KW => a << 64 | b,
            Concat => a << n.b.w() | b,
            Extract => (a >> b) & mask128(n.w),
            ZExt => a,
            SExt => (sx128(a, aw) as u128) & mask128(n.w),
            FAdd | FSub | FMul | FDiv | FRem | FPow => native_f2(n.op, n.w, a as u64, b as u64) as u128,
            FSqrt | FRound | FFloor | FCeil | FTruncI | FLn | FLog2 | FCos | FSin | FExp | FLog10 => native_f1(n.op, n.w, a as u64) as u128,
            FLt | FLe | FEq | FUno => native_cmp(n.op, aw, a as u64, b as u64) as u128,
            IToF => (a as u64 as i64 as f64).to_bits() as u128,
            SToF => if n.w == 32 { (sx128(a, aw) as f32).to_bits() as u128 } else { (sx128(a, aw) as f64).to_bits() as u128 },
            UToF => if n.w == 32 { (a as f32).to_bits() as u128 } else { (a as f64).to_bits() as u128 },
            FToU | FToS => native_ftoi(if aw == 32 { f32::from_bits(a as u32) as f64 } else { f64::from_bits(a as u64) }, n.w, n.op == FToS) as u128,
            FTrunc => (f64::from_bits(a as u64) as f32).to_bits() as u128,
            FExt => (f32::from_bits(a as u32) as f64).to_bits() as u128,
            op => fold(op, n.w, a, aw, b, if n.b == NIL { 0 } else { n.b.w() }).unwrap(),
        }
    }
}

/// collect variables reachable from a set of roots
pub fn support(roots: &[E]) -> Vec<u32> {
    let mut seen: std::collections::HashSet<u32, FxB> = Default::default();
    let mut st: Vec<u32> = roots.iter().filter_map(|e| if let E::S(i) = e { Some(*i) } else { None }).collect();
    let mut out = vec![];
    while let Some(i) = st.pop() {
        if !seen.insert(i) { continue; }
        let n = ar().nodes[i as usize];
        if n.op == Var { out.push(n.a.c().unwrap() as u32); continue; }
        for x in [n.a, n.b, n.c] { if let E::S(j) = x { st.push(j); } }
    }
    out.sort();
    out
}

/// a readable form, for debugging
pub fn show(e: E, depth: u32) -> String {
    match e {
        E::C(w, v) => if w == 64 && v > 1 << 52 { format!("{:?}f", f64::from_bits(v)) } else { format!("{}:{}", v, w) },
        E::S(i) => { let n = &ar().nodes[i as usize]; if depth == 0 { return format!("n{}", i); } let mut o = format!("({:?}{}", n.op, n.w); for x in [n.a, n.b, n.c] { if x != NIL { o.push(' '); o += &show(x, depth - 1); } } o.push(')'); o }
    }
}
