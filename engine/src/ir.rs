//! Textual LLVM IR reader (the subset rustc emits).
use crate::expr::{k, kk, Map, E};
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty { Void, Int(u8), Ptr, F32, F64, Arr(u64, Rc<Ty>), Vec(u64, Rc<Ty>), St(Rc<Vec<Ty>>, bool), Label, Meta }

impl Ty {
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => { let b = (*w as u64 + 7) / 8; b.next_power_of_two() }
            Ty::Ptr | Ty::F64 => 8, Ty::F32 => 4,
            Ty::Arr(n, t) | Ty::Vec(n, t) => n * t.size(),
            Ty::St(ts, packed) => { let mut o = 0; for t in ts.iter() { if !packed { o = up(o, t.align()); } o += t.size(); } if !packed { o = up(o, self.align()); } o }
            _ => 0,
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => (((*w as u64 + 7) / 8).next_power_of_two()).min(16),
            Ty::Ptr | Ty::F64 => 8, Ty::F32 => 4,
            Ty::Arr(_, t) => t.align(), Ty::Vec(n, t) => (n * t.size()).next_power_of_two(),
            Ty::St(ts, packed) => if *packed { 1 } else { ts.iter().map(|t| t.align()).max().unwrap_or(1) },
            _ => 1,
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::St(ts, packed) => { let mut o = 0; for (j, t) in ts.iter().enumerate() { if !packed { o = up(o, t.align()); } if j == i { return o; } o += t.size(); } panic!() }
            Ty::Arr(_, t) | Ty::Vec(_, t) => t.size() * i as u64,
            _ => panic!(),
        }
    }
    pub fn elem(&self, i: usize) -> Ty { match self { Ty::St(ts, _) => ts[i].clone(), Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(), _ => panic!() } }
    pub fn count(&self) -> usize { match self { Ty::St(ts, _) => ts.len(), Ty::Arr(n, _) | Ty::Vec(n, _) => *n as usize, _ => panic!() } }
    pub fn bits(&self) -> u8 { match self { Ty::Int(w) => *w, Ty::Ptr | Ty::F64 => 64, Ty::F32 => 32, _ => panic!("bits of {:?}", self) } }
    pub fn is_agg(&self) -> bool { matches!(self, Ty::Arr(..) | Ty::Vec(..) | Ty::St(..)) }
}
fn up(o: u64, a: u64) -> u64 { (o + a - 1) / a * a }

#[derive(Clone, Debug, PartialEq)]
pub enum Val { E(E), Agg(Rc<Vec<Val>>), Undef }
impl Val { pub fn e(&self) -> E { match self { Val::E(e) => *e, x => panic!("scalar expected, got {:?}", x) } } }

pub fn zero_of(t: &Ty) -> Val { match t { Ty::Arr(n, e) | Ty::Vec(n, e) => Val::Agg(Rc::new(vec![zero_of(e); *n as usize])), Ty::St(ts, _) => Val::Agg(Rc::new(ts.iter().map(zero_of).collect())), Ty::Void | Ty::Label | Ty::Meta => Val::Undef, t => Val::E(kk(t.bits(), 0)) } }

#[derive(Clone, Debug)]
pub enum Op_ { R(u32), K(Val) }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Bop { Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor, FAdd, FSub, FMul, FDiv, FRem }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast { Trunc, ZExt, SExt, FpTrunc, FpExt, FpToUi, FpToSi, UiToFp, SiToFp, Bit }

#[derive(Clone, Debug)]
pub enum Ins {
    Bin(Bop, u32, Op_, Op_),
    ICmp(u8, u32, Op_, Op_), // 0 eq 1 ne 2 ugt 3 uge 4 ult 5 ule 6 sgt 7 sge 8 slt 9 sle
    FCmp(String, u32, Op_, Op_),
    FNeg(u32, Op_),
    Select(u32, Op_, Op_, Op_),
    Cast(Cast, u32, Op_, Ty),
    Load(u32, Ty, Op_),
    Store(Ty, Op_, Op_),
    Gep(u32, Op_, i64, Vec<(Op_, u64)>),
    Alloca(u32, u64),
    Call(Option<u32>, Op_, String, Vec<(Ty, Op_)>, Ty),
    Extract(u32, Op_, Vec<u32>),
    Insert(u32, Op_, Op_, Vec<u32>, Ty),
    ExtElem(u32, Op_, Op_), InsElem(u32, Op_, Op_, Op_, Ty), Shuf(u32, Op_, Op_, Vec<i64>, Ty),
    Freeze(u32, Op_, Ty),
    AtomicRmw(String, u32, Op_, Op_),
    CmpXchg(u32, Op_, Op_, Op_),
    Ret(Option<Op_>),
    Br(u32), CBr(Op_, u32, u32), Switch(Op_, u32, Vec<(E, u32)>),
    Unreachable, Nop,
}
pub struct Phi { pub dst: u32, pub inc: Vec<(u32, Op_)> }
pub struct Block { pub name: String, pub phis: Vec<Phi>, pub ins: Vec<Ins> }
pub struct Func { pub name: String, pub pretty: String, pub params: Vec<u32>, pub nregs: u32, pub blocks: Vec<Block>, pub regnames: Vec<String>, pub cfg: std::cell::OnceCell<crate::cfg::Cfg> }

pub struct Global { pub name: String, pub addr: u64, pub size: u64, pub constant: bool }

pub struct Module {
    pub bad: Map<String, String>,
    pub alias: Map<String, String>,
    pub funcs: Vec<Func>,
    pub fidx: Map<String, usize>,
    pub faddr: Map<String, u64>,
    pub fbyaddr: Map<u64, String>,
    pub globals: Map<String, Global>,
    pub cdata: Vec<u8>,          // constant region, object 0
    pub mdata: Vec<(u32, Vec<u8>)>, // mutable globals: (object id, initial bytes)
}
pub const CBASE: u64 = 0x10000;
pub const FBASE: u64 = 0x7fff_0000_0000_0000;

struct Lx<'a> { s: &'a [u8], p: usize }
#[derive(Clone, Debug, PartialEq)]
enum Tk { W(String), L(String), G(String), Num(String), Str(Vec<u8>), P(char), Meta, End }

impl<'a> Lx<'a> {
    fn new(s: &'a str) -> Self { Lx { s: s.as_bytes(), p: 0 } }
    fn ws(&mut self) { while self.p < self.s.len() && (self.s[self.p] as char).is_whitespace() { self.p += 1; } if self.p < self.s.len() && self.s[self.p] == b';' { self.p = self.s.len(); } }
    fn peek(&mut self) -> Tk { let p = self.p; let t = self.next(); self.p = p; t }
    fn quoted(&mut self) -> Vec<u8> {
        // at opening quote
        self.p += 1; let mut v = vec![];
        while self.s[self.p] != b'"' {
            if self.s[self.p] == b'\\' {
                if self.s[self.p + 1] == b'\\' { v.push(b'\\'); self.p += 2; continue; }
                let h = std::str::from_utf8(&self.s[self.p + 1..self.p + 3]).unwrap();
                v.push(u8::from_str_radix(h, 16).unwrap()); self.p += 3;
            } else { v.push(self.s[self.p]); self.p += 1; }
        }
        self.p += 1; v
    }
    fn ident(&mut self) -> String {
        if self.s[self.p] == b'"' { return String::from_utf8_lossy(&self.quoted()).to_string(); }
        let st = self.p;
        while self.p < self.s.len() { let c = self.s[self.p]; if c.is_ascii_alphanumeric() || b"._$-".contains(&c) { self.p += 1 } else { break } }
        String::from_utf8_lossy(&self.s[st..self.p]).to_string()
    }
    fn next(&mut self) -> Tk {
        self.ws();
        if self.p >= self.s.len() { return Tk::End; }
        let c = self.s[self.p];
        match c {
            b'%' => { self.p += 1; Tk::L(self.ident()) }
            b'@' => { self.p += 1; Tk::G(self.ident()) }
            b'!' => { self.p += 1; while self.p < self.s.len() && (self.s[self.p].is_ascii_alphanumeric() || b"._".contains(&self.s[self.p])) { self.p += 1; } Tk::Meta }
            b'#' => { self.p += 1; let i = self.ident(); Tk::W(format!("#{}", i)) }
            b'c' if self.p + 1 < self.s.len() && self.s[self.p + 1] == b'"' => { self.p += 1; Tk::Str(self.quoted()) }
            b'"' => Tk::Str(self.quoted()),
            b'-' | b'0'..=b'9' => { let st = self.p; self.p += 1; while self.p < self.s.len() { let c = self.s[self.p]; if c.is_ascii_alphanumeric() || c == b'.' || (c == b'+' || c == b'-') && (self.s[self.p - 1] == b'e') { self.p += 1 } else { break } } Tk::Num(String::from_utf8_lossy(&self.s[st..self.p]).to_string()) }
            b'a'..=b'z' | b'A'..=b'Z' | b'_' => { let st = self.p; while self.p < self.s.len() && (self.s[self.p].is_ascii_alphanumeric() || b"._".contains(&self.s[self.p])) { self.p += 1; } Tk::W(String::from_utf8_lossy(&self.s[st..self.p]).to_string()) }
            _ => { self.p += 1; Tk::P(c as char) }
        }
    }
    fn eat(&mut self, c: char) -> bool { if self.peek() == Tk::P(c) { self.next(); true } else { false } }
    fn want(&mut self, c: char) { let t = self.next(); assert!(t == Tk::P(c), "expected {} got {:?} in {}", c, t, String::from_utf8_lossy(self.s)); }
    fn word(&mut self, w: &str) -> bool { if self.peek() == Tk::W(w.to_string()) { self.next(); true } else { false } }
    fn skip_parens(&mut self) { self.want('('); let mut d = 1; while d > 0 { match self.next() { Tk::P('(') => d += 1, Tk::P(')') => d -= 1, Tk::End => panic!(), _ => {} } } }
}

pub struct Parser { pub types: Map<String, Ty>, pub m: Module, modno: usize, locals: Map<String, Map<String, String>>, pub unknown: u64 }

fn int_of_ty(w: &str) -> Option<u8> { w.strip_prefix('i').and_then(|x| x.parse::<u32>().ok()).map(|x| { assert!(x <= 128, "integer width {}", x); x as u8 }) }

impl Parser {
    pub fn new() -> Self { Parser { types: Default::default(), m: Module { funcs: vec![], fidx: Default::default(), faddr: Default::default(), fbyaddr: Default::default(), globals: Default::default(), cdata: vec![], mdata: vec![], bad: Default::default(), alias: Default::default() }, modno: 0, locals: Default::default(), unknown: 0 } }
    fn try_ty(&self, l: &mut Lx) -> Option<Ty> {
        let p = l.p;
        let t = match l.next() {
            Tk::W(w) => match w.as_str() {
                "void" => Ty::Void, "ptr" => { Ty::Ptr } "double" => Ty::F64, "float" => Ty::F32, "label" => Ty::Label, "metadata" => Ty::Meta,
                _ => match int_of_ty(&w) { Some(n) => Ty::Int(n), None => { l.p = p; return None; } },
            },
            Tk::P('[') => { let n = self.num(l); assert!(l.word("x")); let t = self.ty(l); l.want(']'); Ty::Arr(n, Rc::new(t)) }
            Tk::P('<') => {
                if l.eat('{') { let mut v = vec![]; while !l.eat('}') { v.push(self.ty(l)); l.eat(','); } l.want('>'); Ty::St(Rc::new(v), true) }
                else { let n = self.num(l); assert!(l.word("x")); let t = self.ty(l); l.want('>'); Ty::Vec(n, Rc::new(t)) }
            }
            Tk::P('{') => { let mut v = vec![]; while !l.eat('}') { v.push(self.ty(l)); l.eat(','); } Ty::St(Rc::new(v), false) }
            Tk::L(n) => match self.types.get(&n) { Some(t) => t.clone(), None => { l.p = p; return None; } },
            _ => { l.p = p; return None; }
        };
        if t == Ty::Ptr { let q = l.p; if l.word("addrspace") { l.skip_parens(); } else { l.p = q; } }
        Some(t)
    }
    fn ty(&self, l: &mut Lx) -> Ty { match self.try_ty(l) { Some(t) => t, None => panic!("type expected at {:?} in {}", l.peek(), String::from_utf8_lossy(l.s)) } }
    fn num(&self, l: &mut Lx) -> u64 { match l.next() { Tk::Num(n) => n.parse().unwrap(), t => panic!("number expected, got {:?}", t) } }

    fn gname(&self, n: &str) -> String { let key = format!("{}\u{1}{}", self.modno, n); if self.m.globals.contains_key(&key) || self.m.faddr.contains_key(&key) { key } else { n.to_string() } }
    fn gaddr(&mut self, n: &str) -> u64 {
        let g = self.gname(n);
        if let Some(x) = self.m.globals.get(&g) { return x.addr; }
        self.fa(&g)
    }
    fn fa(&mut self, g: &str) -> u64 {
        if let Some(&a) = self.m.faddr.get(g) { return a; }
        let a = FBASE + (self.m.faddr.len() as u64 + 1) * 16;
        self.m.faddr.insert(g.to_string(), a);
        self.m.fbyaddr.insert(a, g.to_string());
        a
    }
    /// constant expression value of a given type
    fn constant(&mut self, l: &mut Lx, t: &Ty) -> Val {
        match l.next() {
            Tk::Num(n) => match t {
                Ty::Int(w) => { let v: i128 = if let Some(h) = n.strip_prefix("-") { let u: u128 = h.parse().unwrap(); (u as i128).wrapping_neg() } else { n.parse::<u128>().unwrap() as i128 }; Val::E(kk(*w, v as u128)) }
                Ty::F64 => Val::E(k(64, parse_fp(&n).to_bits())),
                Ty::F32 => Val::E(k(32, (parse_fp(&n) as f32).to_bits() as u64)),
                _ => panic!("numeric constant of {:?}", t),
            },
            Tk::W(w) => match w.as_str() {
                "true" => Val::E(k(1, 1)), "false" => Val::E(k(1, 0)),
                "null" | "zeroinitializer" | "undef" | "poison" | "none" => zero_of(t),
                "splat" => { l.want('('); let et = self.ty(l); let v = self.constant(l, &et); l.want(')'); Val::Agg(Rc::new(vec![v; t.count()])) }
                _ if w.starts_with("f0x") => { let b = u64::from_str_radix(&w[3..], 16).unwrap(); match t { Ty::F64 => Val::E(k(64, b)), Ty::F32 => if w.len() <= 11 { Val::E(k(32, b)) } else { Val::E(k(32, (f64::from_bits(b) as f32).to_bits() as u64)) }, _ => panic!() } }
                "getelementptr" => {
                    while let Tk::W(_) = l.peek() { l.next(); if l.peek() == Tk::P('(') { let q = l.p; l.next(); if let Tk::Num(_) = l.peek() { l.p = q; l.skip_parens(); } else { l.p = q; break; } } }
                    l.want('(');
                    let et = self.ty(l); l.want(',');
                    let pt = self.ty(l); let base = self.constant(l, &pt).e().c().unwrap();
                    let mut off = 0i64; let mut cur = et.clone(); let mut first = true;
                    while l.eat(',') {
                        let it = self.ty(l); let iv = self.constant(l, &it).e(); let i = crate::expr::sx(iv.c().unwrap(), iv.w());
                        if first { off += i * et.size() as i64; first = false; } else { off += cur.field_off(0) as i64; off += match &cur { Ty::St(..) => cur.field_off(i as usize) as i64, _ => cur.elem(0).size() as i64 * i }; cur = cur.elem(if matches!(cur, Ty::St(..)) { i as usize } else { 0 }); }
                    }
                    l.want(')');
                    Val::E(k(64, base.wrapping_add(off as u64)))
                }
                "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "zext" | "addrspacecast" | "ptrtoaddr" => {
                    l.want('('); let st = self.ty(l); let v = self.constant(l, &st).e(); assert!(l.word("to")); let dt = self.ty(l); l.want(')');
                    Val::E(kk(dt.bits(), v.c128().unwrap()))
                }
                "add" | "sub" | "mul" | "xor" => {
                    while let Tk::W(_) = l.peek() { l.next(); }
                    l.want('('); let t1 = self.ty(l); let a = self.constant(l, &t1).e(); l.want(','); let t2 = self.ty(l); let b = self.constant(l, &t2).e(); l.want(')');
                    Val::E(match w.as_str() { "add" => crate::expr::add(a, b), "sub" => crate::expr::sub(a, b), "mul" => crate::expr::mul(a, b), _ => crate::expr::xor(a, b) })
                }
                "blockaddress" | "dso_local_equivalent" => panic!("unsupported constant {}", w),
                _ => panic!("unsupported constant {} in {}", w, String::from_utf8_lossy(l.s)),
            },
            Tk::G(n) => Val::E(k(64, self.gaddr(&n))),
            Tk::Str(b) => Val::Agg(Rc::new(b.iter().map(|&x| Val::E(k(8, x as u64))).collect())),
            Tk::P('[') => { let mut v = vec![]; while !l.eat(']') { let et = self.ty(l); v.push(self.constant(l, &et)); l.eat(','); } Val::Agg(Rc::new(v)) }
            Tk::P('{') => { let mut v = vec![]; while !l.eat('}') { let et = self.ty(l); v.push(self.constant(l, &et)); l.eat(','); } Val::Agg(Rc::new(v)) }
            Tk::P('<') => {
                if l.eat('{') { let mut v = vec![]; while !l.eat('}') { let et = self.ty(l); v.push(self.constant(l, &et)); l.eat(','); } l.want('>'); Val::Agg(Rc::new(v)) }
                else { let mut v = vec![]; while !l.eat('>') { let et = self.ty(l); v.push(self.constant(l, &et)); l.eat(','); } Val::Agg(Rc::new(v)) }
            }
            tk => panic!("constant expected: {:?} in {}", tk, String::from_utf8_lossy(l.s)),
        }
    }

    /// pass 1: type definitions and symbol addresses of one module text
    pub fn pass1(&mut self, txt: &str, modno: usize) {
        self.modno = modno;
        let mut pend: Vec<&str> = vec![];
        for line in txt.lines() { if line.starts_with('%') && line.contains(" = type ") { pend.push(line); } }
        let mut tries = 0;
        while !pend.is_empty() && tries < 50 {
            tries += 1;
            let mut rest = vec![];
            for line in pend {
                let mut l = Lx::new(line);
                let n = match l.next() { Tk::L(n) => n, _ => panic!() };
                l.want('='); assert!(l.word("type"));
                if l.word("opaque") { self.types.insert(n, Ty::St(Rc::new(vec![]), false)); continue; }
                let q = l.p; // a definition may use types that are defined further down
                let mut known = true;
                loop { match l.next() { Tk::L(x) => known &= self.types.contains_key(&x), Tk::End => break, _ => {} } }
                l.p = q;
                if !known { rest.push(line); continue; }
                match self.try_ty(&mut l) { Some(t) => { self.types.insert(n, t); } None => rest.push(line) }
            }
            pend = rest;
        }
        for line in txt.lines() {
            if line.starts_with('@') {
                let mut l = Lx::new(line);
                let n = match l.next() { Tk::G(n) => n, _ => panic!() };
                l.want('=');
                let mut private = false; let mut constant = false; let mut external = false; let mut alias = false;
                loop {
                    match l.peek() {
                        Tk::W(w) => {
                            if w == "private" || w == "internal" { private = true; }
                            if w == "external" || w == "extern_weak" { external = true; }
                            if w == "alias" { alias = true; l.next(); break; }
                            l.next();
                            if w == "constant" { constant = true; break; }
                            if w == "global" { break; }
                            if l.peek() == Tk::P('(') { l.skip_parens(); }
                        }
                        _ => panic!("global {}", line),
                    }
                }
                if alias { continue; }
                let t = self.ty(&mut l);
                let name = if private { format!("{}\u{1}{}", modno, n) } else { n.clone() };
                if external { continue; }
                if self.m.globals.contains_key(&name) { continue; }
                let mut al = t.align().max(8);
                if let Some(p) = line.rfind(", align ") { if let Ok(a) = line[p + 8..].split(|c: char| !c.is_ascii_digit()).next().unwrap().parse::<u64>() { al = al.max(a); } }
                let size = t.size();
                let addr = if constant { let o = (self.m.cdata.len() as u64 + al - 1) / al * al; self.m.cdata.resize((o + size.max(1)) as usize, 0); CBASE + o }
                    else { let id = self.m.mdata.len() as u32 + 1; self.m.mdata.push((id, vec![0; size as usize])); ((id as u64) << 32) + CBASE };
                self.m.globals.insert(name.clone(), Global { name, addr, size, constant });
            } else if line.starts_with("define ") {
                let (n, private) = Self::defname(line);
                let name = if private { format!("{}\u{1}{}", modno, n) } else { n };
                self.fa(&name);
            }
        }
    }
    fn defname(line: &str) -> (String, bool) {
        let mut l = Lx::new(line); let mut private = false;
        loop { match l.next() { Tk::G(n) => return (n, private), Tk::W(w) => { if w == "internal" || w == "private" { private = true; } } Tk::End => panic!(), _ => {} } }
    }
    /// resolve aliases after every module went through pass 1
    pub fn aliases(&mut self, txt: &str, modno: usize) {
        self.modno = modno;
        for line in txt.lines() { if line.starts_with('@') && line.contains(" alias ") {
            let mut l = Lx::new(line); let n = match l.next() { Tk::G(n) => n, _ => panic!() };
            let mut target = None; loop { match l.next() { Tk::G(g) => target = Some(g), Tk::End => break, _ => {} } }
            let tg = self.gname(&target.unwrap());
            if let Some(&a) = self.m.faddr.get(&tg) { self.m.faddr.insert(n.clone(), a); }
            self.m.alias.insert(n, tg);
        } }
    }
    /// initial values; a global the parser does not know is forgotten, so that it matters only if it is used
    pub fn inits(&mut self, txt: &str, modno: usize) -> bool {
        self.modno = modno;
        let mut all = true;
        for line in txt.lines() { if line.starts_with('@') {
            let name = self.gname(&Self::defname(line).0);
            if !self.m.globals.contains_key(&name) { continue; }
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.global_init(line)));
            if r.is_err() { self.m.globals.remove(&name); all = false; }
        } }
        all
    }
    pub fn pass2(&mut self, txt: &str, modno: usize) {
        self.modno = modno;
        let _ = &self.locals;
        let mut lines = txt.lines();
        let mut lastc = String::new();
        while let Some(line) = lines.next() {
            if line.starts_with("; ") && !line.starts_with("; Function Attrs") { lastc = line[2..].to_string(); }
            if line.is_empty() { lastc.clear(); }
            if line.starts_with("define ") {
                let mut body = vec![];
                let mut hdr = line.to_string();
                while !hdr.trim_end().ends_with('{') { hdr.push_str(lines.next().unwrap()); }
                for b in lines.by_ref() { if b == "}" { break; } body.push(b); }
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.func(&hdr, &body, &lastc)));
                if let Err(e) = r { self.unparsed(&hdr, e); }
            }
        }
    }
    fn unparsed(&mut self, line: &str, e: Box<dyn std::any::Any + Send>) {
        let (n, private) = Self::defname(line);
        let name = if private { format!("{}\u{1}{}", self.modno, n) } else { n };
        let msg = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        self.m.bad.insert(name, msg.chars().take(200).collect());
    }
    fn global_init(&mut self, line: &str) {
        let mut l = Lx::new(line);
        let n = match l.next() { Tk::G(n) => n, _ => panic!() };
        l.want('=');
        loop { match l.next() { Tk::W(w) => { if w == "external" || w == "extern_weak" || w == "alias" { return; } if w == "constant" || w == "global" { break; } if l.peek() == Tk::P('(') { l.skip_parens(); } } _ => panic!() } }
        let t = self.ty(&mut l);
        let v = self.constant(&mut l, &t);
        let mut bytes = vec![0u8; t.size() as usize];
        put(&t, &v, &mut bytes, 0);
        let g = self.gname(&n);
        let a = self.m.globals[&g].addr;
        if a >> 32 == 0 { let o = (a - CBASE) as usize; self.m.cdata[o..o + bytes.len()].copy_from_slice(&bytes); }
        else { self.m.mdata[(a >> 32) as usize - 1].1 = bytes; }
    }
    fn skip_attrs(&self, l: &mut Lx) {
        loop {
            let p = l.p;
            match l.peek() {
                Tk::W(w) => {
                    if int_of_ty(&w).is_some() || w.starts_with("f0x") || ["ptr", "double", "float", "void", "label", "metadata", "true", "false", "null", "undef", "poison", "zeroinitializer", "getelementptr", "splat", "ptrtoint", "inttoptr", "none", "trunc", "sub", "add"].contains(&w.as_str()) { return; }
                    l.next();
                    if w == "align" { if let Tk::Num(_) = l.peek() { l.next(); } else if l.peek() == Tk::P('(') { l.skip_parens(); } continue; }
                    if l.peek() == Tk::P('(') { l.skip_parens(); }
                }
                Tk::Str(_) => { l.next(); if l.eat('=') { l.next(); } }
                _ => { l.p = p; return; }
            }
        }
    }
    fn func(&mut self, hdr: &str, body: &[&str], pretty: &str) {
        let (n, private) = Self::defname(hdr);
        let name = if private { format!("{}\u{1}{}", self.modno, n) } else { n.clone() };
        if self.m.fidx.contains_key(&name) { return; }
        let mut rn: Map<String, u32> = Default::default();
        let mut names: Vec<String> = vec![];
        macro_rules! reg { ($s:expr) => {{ let s: &str = $s; match rn.get(s) { Some(&r) => r, None => { let r = names.len() as u32; names.push(s.to_string()); rn.insert(s.to_string(), r); r } } }} }
        // parameters
        let at = hdr.find(&format!("@{}", n)).or_else(|| hdr.find("@\"")).unwrap();
        let mut l = Lx::new(hdr); l.p = at; l.next(); l.want('(');
        let mut params = vec![]; let mut unn = 0;
        while !l.eat(')') {
            if let Tk::P('.') = l.peek() { l.next(); continue; }
            self.skip_attrs(&mut l); let _t = self.ty(&mut l); self.skip_attrs(&mut l);
            match l.peek() { Tk::L(n) => { l.next(); params.push(reg!(&n)); } _ => { params.push(reg!(&unn.to_string())); unn += 1; } }
            l.eat(',');
        }
        // block labels
        let mut bn: Map<String, u32> = Default::default();
        let mut blocks: Vec<(String, Vec<String>)> = vec![];
        let mut joined: Vec<String> = vec![];
        for line in body {
            let tr = line.trim();
            if tr.is_empty() || tr.starts_with(';') { continue; }
            if let Some(last) = joined.last_mut() { let lt = last.trim_start().to_string(); if lt.starts_with("switch") && !lt.trim_end().ends_with(']') && !lt.contains("], !") { last.push(' '); last.push_str(tr); continue; } }
            joined.push(line.to_string());
        }
        for line in &joined {
            if !line.starts_with(' ') && line.contains(':') {
                let e = line.find(": ").or_else(|| line.find(":")).unwrap();
                let mut nm = line[..e].to_string(); if nm.starts_with('"') { nm = nm.trim_matches('"').to_string(); }
                bn.insert(nm.clone(), blocks.len() as u32); blocks.push((nm, vec![]));
            } else {
                if blocks.is_empty() { bn.insert("0".into(), 0); blocks.push(("0".into(), vec![])); }
                blocks.last_mut().unwrap().1.push(line.clone());
            }
        }
        let mut out = vec![];
        for (nm, ls) in &blocks {
            let mut phis = vec![]; let mut ins = vec![];
            for line in ls {
                let mut l = Lx::new(line);
                let mut dst = None;
                if let Tk::L(d) = l.peek() { l.next(); l.want('='); dst = Some(reg!(&d)); }
                let op = match l.next() { Tk::W(w) => w, t => panic!("instruction {:?} in {}", t, line) };
                macro_rules! operand { ($t:expr) => {{ let t: &Ty = $t; match l.peek() { Tk::L(n) => { l.next(); Op_::R(reg!(&n)) } _ => { if *t == Ty::Meta { Op_::K(Val::Undef) } else { Op_::K(self.constant(&mut l, t)) } } } }} }
                macro_rules! flags { () => { loop { match l.peek() { Tk::W(w) if ["nuw", "nsw", "exact", "disjoint", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "inbounds", "nusw", "volatile", "nneg", "samesign", "atomic"].contains(&w.as_str()) => { l.next(); } Tk::W(w) if w == "inrange" => { l.next(); l.skip_parens(); } _ => break } } } }
                macro_rules! label { () => {{ let t = self.ty(&mut l); assert!(t == Ty::Label); match l.next() { Tk::L(n) => bn[&n], _ => panic!() } }} }
                let i = match op.as_str() {
                    "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" | "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                        flags!(); let t = self.ty(&mut l); let a = operand!(&t); l.want(','); let b = operand!(&t);
                        let o = match op.as_str() { "add" => Bop::Add, "sub" => Bop::Sub, "mul" => Bop::Mul, "udiv" => Bop::UDiv, "sdiv" => Bop::SDiv, "urem" => Bop::URem, "srem" => Bop::SRem, "shl" => Bop::Shl, "lshr" => Bop::LShr, "ashr" => Bop::AShr, "and" => Bop::And, "or" => Bop::Or, "xor" => Bop::Xor, "fadd" => Bop::FAdd, "fsub" => Bop::FSub, "fmul" => Bop::FMul, "fdiv" => Bop::FDiv, _ => Bop::FRem };
                        Ins::Bin(o, dst.unwrap(), a, b)
                    }
                    "icmp" => { flags!(); let p = match l.next() { Tk::W(w) => w, _ => panic!() }; let t = self.ty(&mut l); let a = operand!(&t); l.want(','); let b = operand!(&t);
                        let c = ["eq", "ne", "ugt", "uge", "ult", "ule", "sgt", "sge", "slt", "sle"].iter().position(|x| *x == p).unwrap() as u8; Ins::ICmp(c, dst.unwrap(), a, b) }
                    "fcmp" => { flags!(); let p = match l.next() { Tk::W(w) => w, _ => panic!() }; let t = self.ty(&mut l); let a = operand!(&t); l.want(','); let b = operand!(&t); Ins::FCmp(p, dst.unwrap(), a, b) }
                    "fneg" => { flags!(); let t = self.ty(&mut l); let a = operand!(&t); Ins::FNeg(dst.unwrap(), a) }
                    "select" => { flags!(); let t = self.ty(&mut l); let c = operand!(&t); l.want(','); let t = self.ty(&mut l); let a = operand!(&t); l.want(','); let t = self.ty(&mut l); let b = operand!(&t); Ins::Select(dst.unwrap(), c, a, b) }
                    "trunc" | "zext" | "sext" | "fptrunc" | "fpext" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "ptrtoint" | "inttoptr" | "bitcast" | "addrspacecast" | "ptrtoaddr" => {
                        flags!(); let t = self.ty(&mut l); let a = operand!(&t); assert!(l.word("to")); let d = self.ty(&mut l);
                        let c = match op.as_str() { "trunc" => Cast::Trunc, "zext" => Cast::ZExt, "sext" => Cast::SExt, "fptrunc" => Cast::FpTrunc, "fpext" => Cast::FpExt, "fptoui" => Cast::FpToUi, "fptosi" => Cast::FpToSi, "uitofp" => Cast::UiToFp, "sitofp" => Cast::SiToFp,
                            _ => if t.is_agg() != d.is_agg() || t.is_agg() { panic!("vector bitcast in {}", line) } else if t.bits() > d.bits() { Cast::Trunc } else if t.bits() < d.bits() { Cast::ZExt } else { Cast::Bit } };
                        Ins::Cast(c, dst.unwrap(), a, d)
                    }
                    "load" => { flags!(); let t = self.ty(&mut l); l.want(','); let pt = self.ty(&mut l); let p = operand!(&pt); Ins::Load(dst.unwrap(), t, p) }
                    "store" => { flags!(); let t = self.ty(&mut l); let v = operand!(&t); l.want(','); let pt = self.ty(&mut l); let p = operand!(&pt); Ins::Store(t, v, p) }
                    "getelementptr" => {
                        flags!(); let et = self.ty(&mut l); l.want(','); let pt = self.ty(&mut l); let base = operand!(&pt);
                        let mut off = 0i64; let mut idx = vec![]; let mut cur = et.clone(); let mut first = true;
                        while l.eat(',') {
                            if l.peek() == Tk::Meta { break; }
                            let it = self.ty(&mut l); let iv = operand!(&it);
                            let (scale, stidx) = if first { (et.size(), None) } else { match &cur { Ty::St(..) => (0, Some(())), _ => (cur.elem(0).size(), None) } };
                            match (&iv, stidx) {
                                (Op_::K(v), Some(_)) => { let i = v.e().c().unwrap() as usize; off += cur.field_off(i) as i64; cur = cur.elem(i); }
                                (Op_::K(v), None) => { let e = v.e(); off += crate::expr::sx(e.c().unwrap(), e.w()) * scale as i64; if !first { cur = cur.elem(0); } }
                                (o, _) => { idx.push((o.clone(), scale)); if !first { cur = cur.elem(0); } }
                            }
                            first = false;
                        }
                        Ins::Gep(dst.unwrap(), base, off, idx)
                    }
                    "alloca" => { let t = self.ty(&mut l); let mut n = 1; if l.eat(',') { if let Some(ct) = self.try_ty(&mut l) { let c = operand!(&ct); if let Op_::K(v) = c { n = v.e().c().unwrap(); } else { panic!("dynamic alloca") } } } Ins::Alloca(dst.unwrap(), t.size() * n) }
                    "tail" | "musttail" | "notail" | "call" => {
                        if op != "call" { assert!(l.word("call")); }
                        flags!(); self.skip_attrs(&mut l);
                        let rt = self.ty(&mut l);
                        // function type (varargs)
                        if l.peek() == Tk::P('(') { l.skip_parens(); }
                        let (fo, fname) = match l.next() { Tk::G(n) => (Op_::K(Val::Undef), n), Tk::L(n) => (Op_::R(reg!(&n)), String::new()), Tk::W(w) if w == "asm" => { (Op_::K(Val::Undef), "asm".to_string()) } Tk::W(w) if w == "inttoptr" => panic!("{}", line), t => panic!("call target {:?} in {}", t, line) };
                        if fname == "asm" { ins.push(Ins::Nop); continue; }
                        l.want('(');
                        let mut args = vec![];
                        while !l.eat(')') {
                            self.skip_attrs(&mut l); let t = self.ty(&mut l);
                            if t == Ty::Meta { let mut d = 0; loop { match l.peek() { Tk::P('(') | Tk::P('{') => d += 1, Tk::P(')') | Tk::P('}') if d > 0 => d -= 1, Tk::P(')') => break, Tk::P(',') if d == 0 => break, _ => {} } l.next(); } l.eat(','); continue; }
                            self.skip_attrs(&mut l); let v = operand!(&t); args.push((t, v)); l.eat(',');
                        }
                        let fname = if fname.is_empty() { fname } else { self.gname(&fname) };
                        let fname = if fname.is_empty() || self.m.faddr.contains_key(&fname) { fname } else { fname };
                        Ins::Call(dst, fo, fname, args, rt)
                    }
                    "extractvalue" => { let t = self.ty(&mut l); let a = operand!(&t); let mut ix = vec![]; while l.eat(',') { if l.peek() == Tk::Meta { break; } ix.push(self.num(&mut l) as u32); } Ins::Extract(dst.unwrap(), a, ix) }
                    "insertvalue" => { let t = self.ty(&mut l); let a = operand!(&t); l.want(','); let vt = self.ty(&mut l); let v = operand!(&vt); let mut ix = vec![]; while l.eat(',') { if l.peek() == Tk::Meta { break; } ix.push(self.num(&mut l) as u32); } Ins::Insert(dst.unwrap(), a, v, ix, t) }
                    "extractelement" => { let t = self.ty(&mut l); let a = operand!(&t); l.want(','); let it = self.ty(&mut l); let i = operand!(&it); Ins::ExtElem(dst.unwrap(), a, i) }
                    "insertelement" => { let t = self.ty(&mut l); let a = operand!(&t); l.want(','); let vt = self.ty(&mut l); let v = operand!(&vt); l.want(','); let it = self.ty(&mut l); let i = operand!(&it); Ins::InsElem(dst.unwrap(), a, v, i, t) }
                    "shufflevector" => { let t = self.ty(&mut l); let a = operand!(&t); l.want(','); let t2 = self.ty(&mut l); let b = operand!(&t2); l.want(','); let mt = self.ty(&mut l); let m = self.constant(&mut l, &mt);
                        let ms = match m { Val::Agg(v) => v.iter().map(|x| x.e().c().unwrap() as i64).collect(), _ => panic!() }; Ins::Shuf(dst.unwrap(), a, b, ms, t) }
                    "freeze" => { let t = self.ty(&mut l); let a = operand!(&t); Ins::Freeze(dst.unwrap(), a, t) }
                    "phi" => {
                        flags!(); let t = self.ty(&mut l); let mut inc = vec![];
                        loop { l.want('['); let v = operand!(&t); l.want(','); let b = match l.next() { Tk::L(n) => bn[&n], _ => panic!() }; l.want(']'); inc.push((b, v)); if !l.eat(',') { break; } if l.peek() == Tk::Meta { break; } }
                        phis.push(Phi { dst: dst.unwrap(), inc }); continue;
                    }
                    "fence" => Ins::Nop,
                    "atomicrmw" => { flags!(); let o = match l.next() { Tk::W(w) => w, _ => panic!() }; let t = self.ty(&mut l); let p = operand!(&t); l.want(','); let vt = self.ty(&mut l); let v = operand!(&vt); Ins::AtomicRmw(o, dst.unwrap(), p, v) }
                    "cmpxchg" => { flags!(); l.word("weak"); flags!(); let t = self.ty(&mut l); let p = operand!(&t); l.want(','); let ct = self.ty(&mut l); let c = operand!(&ct); l.want(','); let vt = self.ty(&mut l); let v = operand!(&vt); Ins::CmpXchg(dst.unwrap(), p, c, v) }
                    "ret" => { let t = self.ty(&mut l); if t == Ty::Void { Ins::Ret(None) } else { let v = operand!(&t); Ins::Ret(Some(v)) } }
                    "br" => { if l.word("label") { let b = match l.next() { Tk::L(n) => bn[&n], _ => panic!() }; Ins::Br(b) } else { let t = self.ty(&mut l); let c = operand!(&t); l.want(','); let a = label!(); l.want(','); let b = label!(); Ins::CBr(c, a, b) } }
                    "switch" => { let t = self.ty(&mut l); let c = operand!(&t); l.want(','); let d = label!(); l.want('['); let mut v = vec![]; while !l.eat(']') { let t = self.ty(&mut l); let e = self.constant(&mut l, &t).e(); l.want(','); let b = label!(); v.push((e, b)); } Ins::Switch(c, d, v) }
                    "unreachable" => Ins::Unreachable,
                    "resume" | "invoke" | "landingpad" | "indirectbr" | "va_arg" => panic!("unsupported instruction {}", line),
                    _ => panic!("unknown instruction {} in {}", op, line),
                };
                ins.push(i);
            }
            out.push(Block { name: nm.clone(), phis, ins });
        }
        self.fa(&name);
        self.m.fidx.insert(name.clone(), self.m.funcs.len());
        self.m.funcs.push(Func { name, pretty: pretty.to_string(), params, nregs: names.len() as u32, blocks: out, regnames: names, cfg: Default::default() });
    }
}

fn parse_fp(n: &str) -> f64 { if let Some(h) = n.strip_prefix("0x") { f64::from_bits(u64::from_str_radix(h, 16).unwrap()) } else { n.parse().unwrap() } }

fn put(t: &Ty, v: &Val, out: &mut [u8], o: usize) {
    match v {
        Val::Agg(vs) => for (i, x) in vs.iter().enumerate() { put(&t.elem(i), x, out, o + t.field_off(i) as usize); },
        Val::E(e) => { let n = t.size() as usize; let v = e.c128().unwrap(); out[o..o + n].copy_from_slice(&v.to_le_bytes()[..n]); }
        Val::Undef => {}
    }
}
