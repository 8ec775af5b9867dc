//! SMT-LIB back ends: one incremental z3 process for path feasibility, and a
//! portfolio of one-shot solver processes for assertion queries.
use crate::expr::*;
use crate::expr::Op::*;
use std::fmt::Write as _;
use std::io::{BufRead, BufReader, Read, Write};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::rc::Rc;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Fp { Uf, Exact, Real }

pub static mut NL: bool = false;
pub enum Res { Sat(Rc<Model>), Unsat, Unknown }

pub struct Printer { pub done: Vec<u8>, pub fdone: Vec<u8>, pub fp: Fp, pub out: String, pub vars: Vec<bool> , pub has_fp: bool,
    pub rdone: std::collections::HashSet<u32>, pub imemo: Map<(E, bool), String>, pub icount: u32, pub prods: std::collections::HashMap<(String, String), String>, pub cmps: Map<u32, (String, String, f64)>, pub rfuns: std::collections::HashSet<String>, pub nl: bool }

fn bvk(w: u8, v: u128) -> String {
    if w == 1 { return if v == 1 { "true".into() } else { "false".into() }; }
    if w % 4 == 0 { format!("#x{:0width$x}", v, width = (w / 4) as usize) } else { format!("#b{:0width$b}", v, width = w as usize) }
}
/// term of BitVec sort (width 1 terms are Bool in this encoding)
fn bvt(e: E) -> String {
    if e.w() == 1 { format!("(ite {} #b1 #b0)", t(e)) } else { t(e) }
}
pub fn t(e: E) -> String {
    match e { E::C(w, v) => bvk(w, v as u128), E::S(i) => { if let Some(v) = e.c128() { return bvk(e.w(), v); } format!("n{}", i) } }
}
fn is_fop(op: Op) -> bool { matches!(op, FAdd | FSub | FMul | FDiv | FSqrt | FRound | FFloor | FCeil | FTruncI | IToF | SToF | UToF | FTrunc | FExt) }
fn is_uf(op: Op) -> bool { matches!(op, FRem | FLn | FLog2 | FCos | FSin | FExp | FLog10 | FPow) }
fn uname(op: Op, w: u8) -> String { format!("uf_{:?}_{}", op, w) }

impl Printer {
    pub fn new(fp: Fp) -> Self { Self::with(fp, true) }
    pub fn with(fp: Fp, uf: bool) -> Self {
        let mut p = Printer { done: vec![], fdone: vec![], fp, out: String::new(), vars: vec![], has_fp: false, rdone: Default::default(), imemo: Default::default(), icount: 0, prods: Default::default(), cmps: Default::default(), rfuns: Default::default(), nl: unsafe { NL } };
        if !uf || fp == Fp::Real { return p; }
        for w in [32u8, 64] {
            for op in [FAdd, FSub, FMul, FDiv, FRem, FPow] { writeln!(p.out, "(declare-fun {} ((_ BitVec {w}) (_ BitVec {w})) (_ BitVec {w}))", uname(op, w)).unwrap(); }
            for op in [FSqrt, FRound, FFloor, FCeil, FTruncI, FLn, FLog2, FCos, FSin, FExp, FLog10] { writeln!(p.out, "(declare-fun {} ((_ BitVec {w})) (_ BitVec {w}))", uname(op, w)).unwrap(); }
        }
        for w in 1..=64u8 { for ow in [32u8, 64] {
            if ![1, 8, 16, 32, 64].contains(&w) { continue; }
            for op in [SToF, UToF, FToU, FToS] { writeln!(p.out, "(declare-fun {}_{w} ((_ BitVec {})) (_ BitVec {}))", uname(op, ow), if matches!(op, SToF | UToF) { w } else { ow }, if matches!(op, SToF | UToF) { ow } else { w }).unwrap(); }
        } }
        writeln!(p.out, "(declare-fun uf_FTrunc ((_ BitVec 64)) (_ BitVec 32))\n(declare-fun uf_FExt ((_ BitVec 32)) (_ BitVec 64))").unwrap();
        p
    }
    fn fterm(&mut self, e: E) -> String {
        // Float-sorted term for the bits e
        let w = e.w();
        let (eb, sb) = if w == 32 { (8, 24) } else { (11, 53) };
        if let E::S(i) = e { let n = ar().nodes[i as usize]; if self.fp == Fp::Exact && is_fop(n.op) { return format!("f{}", i); } 
            if self.fp == Fp::Uf && matches!(n.op, IToF) { return format!("f{}", i); } }
        format!("((_ to_fp {eb} {sb}) {})", t(e))
    }
    pub fn emit(&mut self, roots: &[E]) {
        let n = ar().nodes.len();
        if self.done.len() < n { self.done.resize(n, 0); }
        let mut st: Vec<u32> = roots.iter().filter_map(|e| if let E::S(i) = e { Some(*i) } else { None }).collect();
        while let Some(&i) = st.last() {
            if self.done[i as usize] == 1 { st.pop(); continue; }
            let nd = ar().nodes[i as usize];
            let mut ready = true;
            if nd.op != Var && nd.op != KW { for x in [nd.a, nd.b, nd.c] { if let E::S(j) = x { if self.done[j as usize] == 0 { st.push(j); ready = false; } } } }
            if !ready { continue; }
            st.pop();
            self.done[i as usize] = 1;
            self.def(i, &nd);
        }
    }
    fn def(&mut self, i: u32, n: &Node) {
        let w = n.w;
        let sort = if w == 1 { "Bool".to_string() } else { format!("(_ BitVec {})", w) };
        let (a, b, c) = (n.a, n.b, n.c);
        let bin2 = |s: &str| format!("({} {} {})", s, t(a), t(b));
        if self.fp == Fp::Real && (n.op as u8 >= FAdd as u8 || n.op == Var && ar().reals.contains_key(&(a.c().unwrap() as u32))) { self.rdef(i, n); return; }
        // Float-sorted helper definitions
        let fsort = if w == 32 { "Float32" } else { "Float64" };
        let eb = if w == 32 { "8 24" } else { "11 53" };
        if is_fop(n.op) && (self.fp == Fp::Exact || n.op == IToF) {
            self.has_fp = true;
            let body = match n.op {
                FAdd | FSub | FMul | FDiv => { let (x, y) = (self.fterm(a), self.fterm(b)); format!("(fp.{} RNE {} {})", match n.op { FAdd => "add", FSub => "sub", FMul => "mul", _ => "div" }, x, y) }
                FSqrt => { let x = self.fterm(a); format!("(fp.sqrt RNE {})", x) }
                FRound | FFloor | FCeil | FTruncI => { let x = self.fterm(a); format!("(fp.roundToIntegral {} {})", match n.op { FRound => "RNA", FFloor => "RTN", FCeil => "RTP", _ => "RTZ" }, x) }
                IToF | SToF => format!("((_ to_fp {}) RNE {})", eb, bvt(a)),
                UToF => format!("((_ to_fp_unsigned {}) RNE {})", eb, bvt(a)),
                FTrunc | FExt => { let x = self.fterm(a); format!("((_ to_fp {}) RNE {})", eb, x) }
                _ => unreachable!(),
            };
            writeln!(self.out, "(define-fun f{} () {} {})", i, fsort, body).unwrap();
            writeln!(self.out, "(declare-fun n{} () {})\n(assert (= ((_ to_fp {}) n{}) f{}))", i, sort, eb, i, i).unwrap();
            return;
        }
        if n.op == Var { writeln!(self.out, "(declare-fun n{} () {})", i, sort).unwrap(); return; }
        let body = match n.op {
            KW => return,
            Add => bin2("bvadd"), Sub => bin2("bvsub"), Mul => bin2("bvmul"), UDiv => bin2("bvudiv"), URem => bin2("bvurem"), SDiv => bin2("bvsdiv"), SRem => bin2("bvsrem"),
            Shl => bin2("bvshl"), LShr => bin2("bvlshr"), AShr => bin2("bvashr"),
            And => if w == 1 { bin2("and") } else { bin2("bvand") },
            Or => if w == 1 { bin2("or") } else { bin2("bvor") },
            Xor => if w == 1 { if b == T { format!("(not {})", t(a)) } else { bin2("xor") } } else { bin2("bvxor") },
            Concat => format!("(concat {} {})", bvt(a), bvt(b)),
            Extract => { let lo = b.c().unwrap(); let s = format!("((_ extract {} {}) {})", lo + w as u64 - 1, lo, t(a)); if w == 1 { format!("(= {} #b1)", s) } else { s } }
            ZExt => if a.w() == 1 { format!("(ite {} {} {})", t(a), bvk(w, 1), bvk(w, 0)) } else { format!("((_ zero_extend {}) {})", w - a.w(), t(a)) },
            SExt => if a.w() == 1 { format!("(ite {} {} {})", t(a), bvk(w, mask128(w)), bvk(w, 0)) } else { format!("((_ sign_extend {}) {})", w - a.w(), t(a)) },
            Ite => format!("(ite {} {} {})", t(a), t(b), t(c)),
            Eq => bin2("="), Ult => bin2("bvult"), Slt => bin2("bvslt"),
            FLt | FLe | FEq => { self.has_fp = true; let (x, y) = (self.fterm(a), self.fterm(b)); format!("({} {} {})", match n.op { FLt => "fp.lt", FLe => "fp.leq", _ => "fp.eq" }, x, y) }
            FUno => { self.has_fp = true; let (x, y) = (self.fterm(a), self.fterm(b)); format!("(or (fp.isNaN {}) (fp.isNaN {}))", x, y) }
            FToU | FToS if self.fp == Fp::Exact => {
                self.has_fp = true;
                let x = self.fterm(a); let aw = a.w();
                let aeb = if aw == 32 { "8 24" } else { "11 53" };
                let kf = |v: f64| if aw == 32 { format!("((_ to_fp {}) {})", aeb, bvk(32, (v as f32).to_bits() as u128)) } else { format!("((_ to_fp {}) {})", aeb, bvk(64, v.to_bits() as u128)) };
                let (lo, hi, lov, hiv, cv) = if n.op == FToU { (0.0, 2f64.powi(w as i32), 0u128, mask128(w), "fp.to_ubv") } else { (-(2f64.powi(w as i32 - 1)), 2f64.powi(w as i32 - 1), 1u128 << (w - 1), mask128(w - 1), "fp.to_sbv") };
                format!("(ite (fp.isNaN {x}) {} (ite (fp.leq {x} {}) {} (ite (fp.geq {x} {}) {} ((_ {cv} {w}) RTZ {x}))))", bvk(w, 0), kf(lo), bvk(w, lov), kf(hi), bvk(w, hiv))
            }
            SToF | UToF => format!("({}_{} {})", uname(n.op, w), a.w(), bvt(a)),
            FToU | FToS => format!("({}_{} {})", uname(n.op, a.w()), w, t(a)),
            FTrunc => format!("(uf_FTrunc {})", t(a)), FExt => format!("(uf_FExt {})", t(a)),
            FAdd | FSub | FMul | FDiv | FRem | FPow => format!("({} {} {})", uname(n.op, w), t(a), t(b)),
            _ => format!("({} {})", uname(n.op, w), t(a)),
        };
        writeln!(self.out, "(define-fun n{} () {} {})", i, sort, body).unwrap();
    }
}

fn parse_val(s: &str) -> Option<u64> {
    let s = s.trim();
    if s == "true" { return Some(1); }
    if s == "false" { return Some(0); }
    if let Some(h) = s.strip_prefix("#x") { return u64::from_str_radix(h, 16).ok(); }
    if let Some(h) = s.strip_prefix("#b") { return u64::from_str_radix(h, 2).ok(); }
    if let Some(r) = s.strip_prefix("(_ bv") { return r.split_whitespace().next()?.parse().ok(); }
    None
}
fn parse_model(txt: &str, vars: &[(u32, u32)]) -> Map<u32, u64> {
    // vars: (var index, node index); text is ((n1 #x..)(n2 #b..))
    let mut m: Map<u32, u64> = Default::default();
    let byname: Map<u32, u32> = vars.iter().map(|&(v, n)| (n, v)).collect();
    let b = txt.as_bytes();
    let mut i = 0;
    while let Some(p) = txt[i..].find("(n") {
        let s = i + p + 2;
        let mut e = s;
        while e < b.len() && b[e].is_ascii_digit() { e += 1; }
        let id: u32 = match txt[s..e].parse() { Ok(x) => x, Err(_) => { i = s; continue; } };
        let rest = txt[e..].trim_start();
        if let Some(&v) = byname.get(&id) { if ar().reals.contains_key(&v) { i = e; continue; } }
        let end = if rest.starts_with("(_") { rest.find(')').map(|x| x + 1) } else { rest.find(')') };
        if let (Some(en), Some(&v)) = (end, byname.get(&id)) { if let Some(val) = parse_val(&rest[..en]) { m.insert(v, val); } }
        i = e;
    }
    // real-valued inputs
    let mut i = 0;
    while let Some(p) = txt[i..].find("(r") {
        let s = i + p + 2;
        let mut e = s;
        while e < b.len() && b[e].is_ascii_digit() { e += 1; }
        i = e.max(s);
        let id: u32 = match txt[s..e].parse() { Ok(x) => x, Err(_) => continue };
        let rest = &txt[e..];
        let mut d = 0i32; let mut end = rest.len();
        for (q, c) in rest.char_indices() { if c == '(' { d += 1 } else if c == ')' { d -= 1; if d < 0 { end = q; break; } } }
        if let Some(&v) = byname.get(&id) { if let (Some(x), Some(r)) = (crate::real::parse_real(&rest[..end]), ar().reals.get(&v)) { m.insert(v, x.clamp(r.0, r.1).to_bits()); } }
    }
    m
}

pub struct Z3 { child: Child, inp: ChildStdin, out: BufReader<std::process::ChildStdout>, pub pr: Printer, dead: bool }

impl Z3 {
    pub fn start(fp: Fp, purebv: bool) -> Z3 {
        let mut child = Command::new("z3-new").args(["-in", "-smt2"]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("z3-new");
        let inp = child.stdin.take().unwrap();
        let out = BufReader::new(child.stdout.take().unwrap());
        let mut z = Z3 { child, inp, out, pr: Printer::with(fp, !purebv), dead: false };
        if purebv { z.inp.write_all(b"(set-logic QF_BV)\n").unwrap(); }
        z.inp.write_all(b"(set-option :print-success false)\n(set-option :produce-models true)\n").unwrap();
        z
    }
    fn line(&mut self) -> String { let mut s = String::new(); if self.out.read_line(&mut s).unwrap_or(0) == 0 { self.dead = true; } s.trim().to_string() }
    /// read one balanced s-expression
    fn sexp(&mut self) -> String {
        let mut r = String::new(); let mut d = 0i32;
        loop { let l = self.line(); if self.dead { return r; } for ch in l.chars() { if ch == '(' { d += 1 } else if ch == ')' { d -= 1 } } r.push_str(&l); r.push(' '); if d <= 0 { return r; } }
    }
    pub fn check(&mut self, cs: &[E], timeout_ms: u64) -> Res { self.check_x(cs, timeout_ms, false) }
    pub fn check_x(&mut self, cs: &[E], timeout_ms: u64, margin: bool) -> Res {
        if self.dead { return Res::Unknown; }
        self.pr.emit(cs);
        let mut cmd = std::mem::take(&mut self.pr.out);
        write!(cmd, "(push 1)\n(set-option :timeout {})\n", timeout_ms).unwrap();
        for &c in cs { writeln!(cmd, "(assert {})", t(c)).unwrap(); }
        if margin { cmd.push_str(&self.pr.margins(cs)); }
        cmd.push_str("(check-sat)\n");
        if self.inp.write_all(cmd.as_bytes()).is_err() || self.inp.flush().is_err() { self.dead = true; return Res::Unknown; }
        let r = self.line();
        let res = match r.as_str() {
            "unsat" => Res::Unsat,
            "sat" => {
                let sup = support(cs);
                if sup.is_empty() { Res::Sat(Rc::new(Model::new(Default::default()))) } else {
                    let vars: Vec<(u32, u32)> = sup.iter().map(|&v| { let (nm, w) = ar().vars[v as usize].clone(); match var(&nm, w) { E::S(i) => (v, i), _ => unreachable!() } }).collect();
                    let mut q = String::from("(get-value (");
                    for (v, n) in &vars { write!(q, "{}{} ", if self.pr.fp == Fp::Real && ar().reals.contains_key(v) { "r" } else { "n" }, n).unwrap(); }
                    q.push_str("))\n");
                    let _ = self.inp.write_all(q.as_bytes()); let _ = self.inp.flush();
                    let s = self.sexp();
                    Res::Sat(Rc::new(Model::new(parse_model(&s, &vars))))
                }
            }
            "unknown" | "timeout" => Res::Unknown,
            _ => { eprintln!("z3: {}", r); self.dead = true; Res::Unknown }
        };
        let _ = self.inp.write_all(b"(pop 1)\n");
        res
    }
    pub fn is_dead(&self) -> bool { self.dead }
}
impl Drop for Z3 { fn drop(&mut self) { let _ = self.child.kill(); let _ = self.child.wait(); } }

/// one-shot portfolio query
pub fn portfolio(cs: &[E], fp: Fp, timeout: Duration, dir: &str, tag: &str, solvers: &[String]) -> (Res, String) {
    let mut p = Printer::new(fp);
    p.emit(cs);
    let sup = support(cs);
    let vars: Vec<(u32, u32)> = sup.iter().map(|&v| { let (nm, w) = ar().vars[v as usize].clone(); match var(&nm, w) { E::S(i) => (v, i), _ => unreachable!() } }).collect();
    // only declare the uninterpreted functions that are used, and pick the tightest logic
    let mut body = String::new(); let mut uf = false;
    let all = std::mem::take(&mut p.out);
    let (decl, defs): (Vec<&str>, Vec<&str>) = all.lines().partition(|l| l.starts_with("(declare-fun uf_"));
    let defs = defs.join("\n");
    for d in decl { let nm = d.split_whitespace().nth(1).unwrap(); if defs.contains(&format!("({} ", nm)) { body.push_str(d); body.push('\n'); uf = true; } }
    body.push_str(&defs); body.push('\n');
    for &c in cs { writeln!(body, "(assert {})", t(c)).unwrap(); }
    body.push_str("(check-sat)\n");
    let mut gv = String::new();
    if !vars.is_empty() { gv.push_str("(get-value ("); for (v, n) in &vars { write!(gv, "{}{} ", if fp == Fp::Real && ar().reals.contains_key(v) { "r" } else { "n" }, n).unwrap(); } gv.push_str("))\n"); }
    let logic = format!("QF_{}{}BV{}", "", if uf { "UF" } else { "" }, if p.has_fp { "FP" } else { "" });
    let logic = match logic.as_str() { _ if fp == Fp::Real => "ALL", "QF_UFBVFP" => "ALL", "QF_BVFP" => "QF_BVFP", x => x }.to_string();
    let path = format!("{}/{}.smt2", dir, tag);
    std::fs::create_dir_all(dir).ok();
    std::fs::write(&path, format!("(set-option :produce-models true)\n(set-logic {})\n{}{}", logic, body, gv)).unwrap();
    let mut kids: Vec<(String, Child)> = vec![];
    for s in solvers {
        if fp == Fp::Real && s == "z3sat" { continue; }
        let mut c = match s.as_str() {
            "z3" => { let mut c = Command::new("z3-new"); c.arg(&path); c }
            "z3old" => { let mut c = Command::new("z3"); c.arg(&path); c }
            "cvc5" => { let mut c = Command::new("cvc5"); if logic == "QF_BV" { c.args(["--bitblast=eager"]); } c.arg("--fp-exp").arg(&path); c }
            "cvc5int" => { if fp == Fp::Exact { continue; } let mut c = Command::new("cvc5"); c.args(["--solve-bv-as-int=sum"]).arg(&path); c }
            "cvc5n" => { let mut c = Command::new("cvc5"); c.arg("--fp-exp").arg(&path); c }
            "z3sat" => { let p2 = format!("{}/{}.tac.smt2", dir, tag); std::fs::write(&p2, format!("{}(check-sat-using (then simplify propagate-values solve-eqs simplify bit-blast sat))\n{}", body.trim_end().trim_end_matches("(check-sat)"), gv)).unwrap(); let mut c = Command::new("z3-new"); c.arg(&p2); c }
            _ => panic!("solver {}", s),
        };
        match c.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn() { Ok(k) => kids.push((s.clone(), k)), Err(_) => {} }
    }
    // reader threads so that a full pipe never blocks a solver
    let (tx, rx) = std::sync::mpsc::channel();
    let mut pids = vec![];
    for (s, mut kid) in kids {
        let tx = tx.clone();
        let mut so = kid.stdout.take().unwrap();
        pids.push(kid);
        std::thread::spawn(move || { let mut s2 = String::new(); let _ = so.read_to_string(&mut s2); let _ = tx.send((s, s2)); });
    }
    drop(tx);
    let end = Instant::now() + timeout;
    let mut ans = (Res::Unknown, "none".to_string());
    loop {
        let now = Instant::now();
        if now >= end { break; }
        match rx.recv_timeout(end - now) {
            Ok((s, o)) => {
                if o.contains("(error") && !o.starts_with("unsat") { continue; }
                let l = o.lines().next().unwrap_or("");
                if l == "unsat" { ans = (Res::Unsat, s); break; }
                if l == "sat" { let rest = &o[3..]; ans = (Res::Sat(Rc::new(Model::new(parse_model(rest, &vars)))), s); break; }
            }
            Err(_) => break,
        }
    }
    for mut k in pids { let _ = k.kill(); let _ = k.wait(); }
    if tag == "dbg" { return ans; }
    let _ = std::fs::remove_file(&path);
    let _ = std::fs::remove_file(format!("{}/{}.tac.smt2", dir, tag));
    ans
}
