//! Symbolic executor with path merging.
use crate::expr::Op as X;
use crate::expr::*;
use crate::ir::*;
use crate::real;
use crate::solver::*;
use std::collections::BTreeMap;
use std::rc::Rc;
use std::time::{Duration, Instant};

const CONC: u32 = u32::MAX;
#[derive(Clone)]
pub struct Obj { pub size: u64, conc: Vec<u8>, sym: Option<Vec<(u32, u8)>> }
impl Obj {
    fn new(size: u64) -> Obj { Obj { size, conc: vec![0; size as usize], sym: None } }
    fn is_conc(&self, o: usize, n: usize) -> bool { match &self.sym { None => true, Some(s) => s[o..o + n].iter().all(|x| x.0 == CONC) } }
    fn load(&self, o: usize, n: usize) -> E {
        let w = (n * 8) as u8;
        if self.is_conc(o, n) {
            let mut b = [0u8; 16]; b[..n].copy_from_slice(&self.conc[o..o + n]);
            return kk(w, u128::from_le_bytes(b));
        }
        let s = self.sym.as_ref().unwrap();
        // whole node
        let (nd, b0) = s[o];
        if nd != CONC && b0 == 0 && E::S(nd).w() == w && (0..n).all(|i| s[o + i] == (nd, i as u8)) { return E::S(nd); }
        let mut r: Option<E> = None;
        let mut i = 0;
        while i < n {
            let (nd, b) = s[o + i];
            let mut j = i + 1;
            let e = if nd == CONC { while j < n && s[o + j].0 == CONC { j += 1; } let mut v = 0u128; for q in (i..j).rev() { v = v << 8 | self.conc[o + q] as u128; } kk(((j - i) * 8) as u8, v) }
                else { while j < n && s[o + j] == (nd, b + (j - i) as u8) { j += 1; } extract(E::S(nd), b * 8, ((j - i) * 8) as u8) };
            r = Some(match r { None => e, Some(x) => concat(e, x) });
            i = j;
        }
        r.unwrap()
    }
    fn store(&mut self, o: usize, n: usize, e: E) {
        debug_assert_eq!(e.w() as usize, n * 8);
        if let Some(v) = e.c128() {
            self.conc[o..o + n].copy_from_slice(&v.to_le_bytes()[..n]);
            if let Some(s) = &mut self.sym { for x in &mut s[o..o + n] { *x = (CONC, 0); } }
            return;
        }
        let nd = match e { E::S(i) => i, _ => unreachable!() };
        let sz = self.size as usize;
        let s = self.sym.get_or_insert_with(|| vec![(CONC, 0); sz]);
        for i in 0..n { s[o + i] = (nd, i as u8); }
    }
    fn resize(&mut self, n: u64) { self.size = n; self.conc.resize(n as usize, 0); if let Some(s) = &mut self.sym { s.resize(n as usize, (CONC, 0)); } }
    fn copy_from(&mut self, o: usize, src: &Obj, so: usize, n: usize) {
        self.conc[o..o + n].copy_from_slice(&src.conc[so..so + n]);
        match (&mut self.sym, &src.sym) {
            (None, None) => {}
            (Some(d), None) => for x in &mut d[o..o + n] { *x = (CONC, 0) },
            (None, Some(s)) => { if s[so..so + n].iter().all(|x| x.0 == CONC) { return; } let mut d = vec![(CONC, 0); self.size as usize]; d[o..o + n].copy_from_slice(&s[so..so + n]); self.sym = Some(d); }
            (Some(d), Some(s)) => d[o..o + n].copy_from_slice(&s[so..so + n]),
        }
    }
    fn cell(&self, o: usize) -> (u32, u8) { match &self.sym { None => (CONC, 0), Some(s) => s[o] } }
}

#[derive(Clone)]
pub struct Frame { pub func: u32, pub regs: Vec<Val>, pub block: u32, pub ip: u32, pub iters: Vec<u32>, pub ret: Option<u32>, pub allocas: Vec<u32>, pub ctx: u64 }

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Rc<Frame>>, pub objs: BTreeMap<u32, Rc<Obj>>, pub pc: Vec<E>, pub model: Option<Rc<Model>>,
    pub tag: Vec<u64>, pub nd: u32, pub allocs: Rc<Map<u64, Vec<(u32, E)>>>, pub trace: Vec<E>, pub facts: Vec<E>,
    /// assumed values of conversions that are otherwise opaque
    pub subst: Rc<Vec<(E, E)>>,
}

pub struct Violation { pub id: String, pub msg: String, pub inputs: Vec<(String, u8, u64)>, pub definite: bool }
pub struct Witness { pub id: u64, pub inputs: Vec<(String, u8, u64)>, pub trace: Vec<u64> }

pub struct Opts { pub fp: Fp, pub deadline: Instant, pub hard: Duration, pub dir: String, pub solvers: Vec<String>, pub verbose: bool, pub max_viol: usize, pub nomerge: bool, pub quick_ms: u64, pub havoc: bool, pub lazy: bool, pub words: bool, pub stop_alloc: Option<u64>, pub stop_bad: bool }

#[derive(Default)]
pub struct Stats { pub instrs: u64, pub forks: u64, pub merges: u64, pub queries: u64, pub hard_queries: u64, pub solver_s: f64, pub syntactic: u64, pub asserts: u64, pub assert_queries: u64, pub paths: u64, pub assumes: u64, pub model_hits: u64, pub max_states: usize, pub by_solver: BTreeMap<String, u64> }

pub struct Exec { pub m: Module, pub o: Opts, pub z: Z3, pub z2: Option<Z3>, pub st: Stats, pub viol: Vec<Violation>, pub wit: Vec<Witness>, pub errors: Vec<String>, pub funcs: std::collections::BTreeSet<u32>, pub aids: BTreeMap<u64, u64>, ids: Map<(u64, u32), u32>, nextid: u32, pool: Vec<Rc<Model>>, work: Vec<State>, pub stop: bool, inputs: Vec<(String, u8)>, cdata: Rc<Obj>, reached: std::collections::BTreeSet<u64>, fresh: u32, rmemo: Map<E, Rc<Vec<(E, u32, E)>>>, pmemo: Map<E, bool>, bound_cs: Map<E, E> }

enum Step { Go, Yield, Done, Fork }

fn hash2(a: u64, b: u64) -> u64 { let mut x = a ^ b.wrapping_mul(0x9E3779B97F4A7C15); x ^= x >> 29; x = x.wrapping_mul(0xBF58476D1CE4E5B9); x ^= x >> 32; x }

fn lift2(a: &Val, b: &Val, f: &mut dyn FnMut(E, E) -> E) -> Val {
    match (a, b) {
        (Val::E(x), Val::E(y)) => Val::E(f(*x, *y)),
        (Val::Agg(x), Val::Agg(y)) => Val::Agg(Rc::new(x.iter().zip(y.iter()).map(|(p, q)| lift2(p, q, f)).collect())),
        _ => panic!("lift2 {:?} {:?}", a, b),
    }
}
fn subst(s: &[(E, E)], e: E) -> E { s.iter().find(|x| x.0 == e).map_or(e, |x| x.1) }
fn lift1(a: &Val, f: &mut dyn FnMut(E) -> E) -> Val { match a { Val::E(x) => Val::E(f(*x)), Val::Agg(x) => Val::Agg(Rc::new(x.iter().map(|p| lift1(p, f)).collect())), Val::Undef => Val::Undef } }
pub fn vite(c: E, a: &Val, b: &Val) -> Val {
    match (a, b) {
        (Val::Undef, x) | (x, Val::Undef) => x.clone(),
        (Val::E(x), Val::E(y)) => if x.w() != y.w() { a.clone() } else { Val::E(ite(c, *x, *y)) },
        (Val::Agg(x), Val::Agg(y)) => if Rc::ptr_eq(x, y) { a.clone() } else { Val::Agg(Rc::new(x.iter().zip(y.iter()).map(|(p, q)| vite(c, p, q)).collect())) },
        _ => a.clone(),
    }
}

impl Exec {
    pub fn new(m: Module, o: Opts) -> Exec {
        let mut c = Obj::new(CBASE + m.cdata.len() as u64);
        c.conc[CBASE as usize..].copy_from_slice(&m.cdata);
        let z = Z3::start(o.fp, true);
        let nextid = m.mdata.len() as u32 + 1;
        ar().havoc_fp = o.havoc;
        Exec { m, o, z, z2: None, st: Default::default(), viol: vec![], wit: vec![], errors: vec![], funcs: Default::default(), aids: Default::default(), ids: Default::default(), nextid, pool: vec![], work: vec![], stop: false, inputs: vec![], cdata: Rc::new(c), reached: Default::default(), fresh: 0, rmemo: Default::default(), pmemo: Default::default(), bound_cs: Default::default() }
    }

    // ------------------------------------------------------------ solving
    fn input_vals(&self, m: &Model) -> Vec<(String, u8, u64)> {
        self.inputs.iter().map(|(n, w)| { let e = var(n, *w); (n.clone(), *w, m.eval(e) as u64) }).collect()
    }
    fn holds(m: &Model, cs: &[E]) -> bool { cs.iter().all(|&c| m.eval(c) == 1) }
    fn note_model(&mut self, m: &Rc<Model>) { if self.pool.len() >= 24 { self.pool.remove(0); } self.pool.push(m.clone()); }
    /// is pc && c satisfiable?  (true, model) / (false, _); unknown counts as feasible without a model
    fn feasible(&mut self, st: &State, c: E) -> (bool, Option<Rc<Model>>) {
        if c == F { return (false, None); }
        if c == T { return (true, st.model.clone()); }
        if st.pc.contains(&c) { return (true, st.model.clone()); }
        let nc = not(c);
        if st.pc.contains(&nc) { return (false, None); }
        if let Some(m) = &st.model { if m.eval(c) == 1 { self.st.model_hits += 1; return (true, st.model.clone()); } }
        for i in (0..self.pool.len()).rev() {
            let m = self.pool[i].clone();
            if m.eval(c) == 1 && Self::holds(&m, &st.pc) { self.st.model_hits += 1; return (true, Some(m)); }
        }
        let mut cs = st.pc.clone(); cs.push(c);
        self.query(&cs)
    }
    /// incremental check: a pure bit-vector session, and one with floating point / uninterpreted functions
    fn inc(&mut self, cs: &[E]) -> Res {
        let t = self.o.quick_ms;
        if !cs.iter().any(|c| c.fpdep()) {
            if self.z.is_dead() { self.z = Z3::start(self.o.fp, true); }
            return self.z.check(cs, t);
        }
        let fp = self.o.fp;
        if self.z2.as_ref().map(|z| z.is_dead()).unwrap_or(true) { self.z2 = Some(Z3::start(fp, false)); }
        self.z2.as_mut().unwrap().check(cs, t)
    }
    fn query(&mut self, cs: &[E]) -> (bool, Option<Rc<Model>>) {
        let t0 = Instant::now();
        self.st.queries += 1;
        let r = self.inc(cs);
        let dt = t0.elapsed().as_secs_f64();
        self.st.solver_s += dt;
        if self.o.verbose && dt > 0.5 { eprintln!("  slow query {:.2}s ({} constraints)", dt, cs.len()); }
        match r {
            Res::Unsat => (false, None),
            Res::Sat(m) => { if Self::holds(&m, cs) { self.note_model(&m); (true, Some(m)) } else {
                (true, None) } }
            Res::Unknown => { if self.o.verbose { eprintln!("  unknown query ({} constraints, {:.2}s)", cs.len(), dt); } (true, None) }
        }
    }
    /// decide satisfiability for good: Ok(None)=unsat, Ok(Some(model, definite)), Err = undecided
    fn decide(&mut self, cs: &[E], tag: &str) -> Result<Option<(Rc<Model>, bool)>, String> {
        if cs.iter().any(|&c| c == F) { return Ok(None); }
        for i in (0..self.pool.len()).rev() { let m = self.pool[i].clone(); if Self::holds(&m, cs) { return Ok(Some((m, true))); } }
        let t0 = Instant::now();
        self.st.queries += 1;
        let r = self.inc(cs);
        self.st.solver_s += t0.elapsed().as_secs_f64();
        let mut last: Option<Rc<Model>> = None;
        match r {
            Res::Unsat => { *self.st.by_solver.entry("z3-incremental".into()).or_default() += 1; return Ok(None); }
            Res::Sat(m) => { if Self::holds(&m, cs) { self.note_model(&m); return Ok(Some((m, true))); } last = Some(m); }
            Res::Unknown => {}
        }
        if self.o.fp == Fp::Real && last.is_some() && cs.iter().any(|c| c.fpdep()) {
            // look for a model that survives the rounding of its values to doubles
            let z = self.z2.as_mut().unwrap();
            if let Res::Sat(m) = z.check_x(cs, 20000, true) { if Self::holds(&m, cs) { self.note_model(&m); return Ok(Some((m, true))); } }
            if self.o.verbose { portfolio(cs, Fp::Real, Duration::from_secs(1), &self.o.dir, "dbg", &[]); }
            return Ok(last.map(|m| (m, false)));
        }
        let fpd = cs.iter().any(|c| c.fpdep());
        let modes: Vec<Fp> = if fpd { if self.o.fp == Fp::Uf && last.is_some() { vec![Fp::Exact] } else if self.o.fp != Fp::Uf { vec![self.o.fp] } else { vec![Fp::Uf, Fp::Exact] } } else { vec![Fp::Uf] };
        for fp in modes {
            let t0 = Instant::now();
            self.st.hard_queries += 1;
            let left = self.o.deadline.saturating_duration_since(Instant::now());
            let tmo = self.o.hard.min(left);
            if self.o.verbose { eprintln!("  hard query {} ({:?}, {} constraints)", tag, fp, cs.len()); }
            let (r, who) = portfolio(cs, fp, tmo, &self.o.dir, &format!("q{}", self.st.hard_queries), &self.o.solvers);
            let dt = t0.elapsed().as_secs_f64();
            self.st.solver_s += dt;
            if self.o.verbose { eprintln!("    {:.2}s by {}", dt, who); }
            *self.st.by_solver.entry(who).or_default() += 1;
            match r {
                Res::Unsat => return Ok(None),
                Res::Sat(m) => { if Self::holds(&m, cs) { self.note_model(&m); return Ok(Some((m, true))); } last = Some(m); if fp == Fp::Exact || !fpd { break; } }
                Res::Unknown => {}
            }
        }
        match last { Some(m) if !fpd || true => Ok(Some((m, false))), _ => Err(format!("undecided query {}", tag)) }
    }

    // ------------------------------------------------------------ memory
    fn obj<'a>(&'a self, st: &'a State, id: u32) -> Option<&'a Rc<Obj>> { if id == 0 { Some(&self.cdata) } else { st.objs.get(&id) } }
    /// all (guard, object, offset) a pointer may denote: one entry per object, guards mutually exclusive
    fn resolve(&mut self, p: E) -> Rc<Vec<(E, u32, E)>> {
        if let Some(c) = p.c() { return Rc::new(vec![(T, (c >> 32) as u32, k(64, c & 0xffff_ffff))]); }
        if let Some(r) = self.rmemo.get(&p) { return r.clone(); }
        let i = p.info();
        let n = p.n().unwrap();
        let r: Vec<(E, u32, E)> = if i.lo >> 32 == i.hi >> 32 { let id = (i.lo >> 32) as u32; vec![(T, id, sub(p, k(64, (id as u64) << 32)))] } else { match n.op {
            X::Ite => {
                let (x, y) = (self.resolve(n.b), self.resolve(n.c));
                let mut r: Vec<(E, u32, E)> = vec![];
                let nc = not(n.a);
                for &(g, id, o) in x.iter() {
                    match y.iter().find(|q| q.1 == id) { Some(&(h, _, o2)) => r.push((ite(n.a, g, h), id, ite(n.a, o, o2))), None => r.push((and(n.a, g), id, o)) }
                }
                for &(h, id, o) in y.iter() { if !x.iter().any(|q| q.1 == id) { r.push((and(nc, h), id, o)); } }
                r
            }
            X::Add => {
                let fa = self.ptrish(n.a); let fb = self.ptrish(n.b);
                // the pointer-like side is the one that cannot be a small integer
                let ia = n.a.info(); let pa = ia.hi >> 32 != 0 && !n.a.is_c();
                let (b, d) = if fa && !fb { (n.a, n.b) } else if fb && !fa { (n.b, n.a) } else if !fa && n.b.c().map_or(false, |c| c >= CBASE && c < CBASE + self.cdata.size) { (n.b, n.a) } else if pa { (n.a, n.b) } else { (n.b, n.a) };
                self.resolve(b).iter().map(|&(g, id, o)| (g, id, add(o, d))).collect()
            }
            X::Sub => self.resolve(n.a).iter().map(|&(g, id, o)| (g, id, sub(o, n.b))).collect(),
            _ => vec![(T, u32::MAX, p)],
        } };
        let r = Rc::new(r);
        self.rmemo.insert(p, r.clone());
        r
    }
    fn ptrish(&mut self, e: E) -> bool {
        match e { E::C(_, v) => v >> 32 != 0 && v >> 48 == 0 || v >> 48 == 0x7fff, _ => {
            if let Some(&r) = self.pmemo.get(&e) { return r; }
            let n = e.n().unwrap();
            let r = match n.op { X::Ite | X::Add => self.ptrish(n.b) || { let o = if n.op == X::Ite { n.c } else { n.a }; self.ptrish(o) }, X::Sub => self.ptrish(n.a), _ => { let i = e.info(); i.lo >> 32 != 0 && i.lo >> 32 == i.hi >> 32 } };
            self.pmemo.insert(e, r);
            r
        } }
    }
    fn cands(off: E, size: u64, n: u64) -> Vec<u64> {
        if size < n { return vec![]; }
        let i = off.info();
        let known = i.kz | i.ko;
        let t = known.trailing_ones().min(16) as u8;
        let step = 1u64 << t; let low = i.ko & (step - 1);
        let (lo, hi) = if i.slo >= 0 || i.lo > 0 || i.hi < u64::MAX { (i.lo, i.hi) } else { (0, u64::MAX) };
        let lo = if lo > size { if i.slo < 0 { 0 } else { return vec![] } } else { lo };
        let hi = hi.min(size - n);
        let mut o = lo / step * step + low; if o < lo { o += step; }
        let mut v = vec![];
        while o <= hi { v.push(o); o += step; }
        v
    }
    fn targets(&mut self, st: &State, p: E, n: u64) -> Result<Vec<(E, u32, u64)>, String> {
        let mut r = vec![];
        if let Some(c) = p.c() {
            let (id, o) = ((c >> 32) as u32, c & 0xffff_ffff);
            return match self.obj(st, id) { Some(ob) if o + n <= ob.size => Ok(vec![(T, id, o)]), _ => Err(format!("invalid access at {:#x} size {}", c, n)) };
        }
        let rs = self.resolve(p);
        for &(g, id, off) in rs.iter() {
            if g == F { continue; }
            let sz = match self.obj(st, id) { Some(o) => o.size, None => continue };
            if id == 0 && off.info().hi < CBASE { continue; }
            let mut cs = Self::cands(off, sz, n);
            if cs.len() > 48 {
                let last = *cs.last().unwrap();
                let hi = self.upper(st, off, last); let lo = self.lower(st, off, last);
                cs.retain(|&c| c >= lo && c <= hi);
            }
            if cs.len() > 20000 { return Err(format!("symbolic access with {} candidates", cs.len())); }
            if cs.len() == 1 && off.is_c() { r.push((g, id, cs[0])); }
            else { for c in cs { let e = eq(off, k(64, c)); let gg = and(g, e); if gg != F { r.push((gg, id, c)); } } }
        }
        if r.is_empty() { return Err(format!("no valid target for symbolic pointer")); }
        Ok(r)
    }
    fn load_bytes(&mut self, st: &State, p: E, n: u64) -> Result<E, String> {
        let ts = self.targets(st, p, n)?;
        let mut it = ts.iter().rev();
        let (_, id, o) = it.next().unwrap();
        let mut v = self.obj(st, *id).unwrap().load(*o as usize, n as usize);
        for (g, id, o) in it { let x = self.obj(st, *id).unwrap().load(*o as usize, n as usize); v = ite(*g, x, v); }
        Ok(v)
    }
    fn store_bytes(&mut self, st: &mut State, p: E, e: E, n: u64) -> Result<(), String> {
        let ts = self.targets(st, p, n)?;
        let single = ts.len() == 1;
        for (g, id, o) in ts {
            let ob = match st.objs.get_mut(&id) { Some(o) => o, None => { if single { return Err(format!("store to constant object {}", id)); } continue; } };
            let ob = Rc::make_mut(ob);
            if single { ob.store(o as usize, n as usize, e); }
            else { let old = ob.load(o as usize, n as usize); let v = ite(g, e, old); ob.store(o as usize, n as usize, v); }
        }
        Ok(())
    }
    fn load(&mut self, st: &State, t: &Ty, p: E) -> Result<Val, String> {
        if t.is_agg() {
            let n = t.count();
            let mut v = Vec::with_capacity(n);
            for i in 0..n { let q = add(p, k(64, t.field_off(i))); v.push(self.load(st, &t.elem(i), q)?); }
            return Ok(Val::Agg(Rc::new(v)));
        }
        let n = t.size(); let w = t.bits();
        let e = self.load_bytes(st, p, n)?;
        Ok(Val::E(if e.w() != w { trunc(e, w) } else { e }))
    }
    fn store(&mut self, st: &mut State, t: &Ty, p: E, v: &Val) -> Result<(), String> {
        if t.is_agg() {
            if let Val::Agg(vs) = v { for (i, x) in vs.iter().enumerate() { let q = add(p, k(64, t.field_off(i))); self.store(st, &t.elem(i), q, x)?; } }
            return Ok(());
        }
        let n = t.size();
        let e = match v { Val::E(e) => *e, _ => kk((n * 8) as u8, 0) };
        let e = zext(e, (n * 8) as u8);
        self.store_bytes(st, p, e, n)
    }
    fn alloc(&mut self, st: &mut State, site: u64, size: u64, track: bool) -> Result<u32, String> {
        if size > 1 << 28 { return Err(format!("allocation of {} bytes", size)); }
        let mut idx = 0u32;
        let mut found = None;
        if track {
            let list: Vec<(u32, E)> = st.allocs.get(&site).cloned().unwrap_or_default();
            loop {
                let id = match self.ids.get(&(site, idx)) { Some(&i) => i, None => break };
                match list.iter().find(|x| x.0 == id) {
                    None => { found = Some(id); break; }
                    Some(&(_, g)) => { if g != T && !self.feasible(st, g).0 { found = Some(id); break; } }
                }
                idx += 1;
            }
        } else { found = self.ids.get(&(site, 0)).copied(); }
        let id = match found { Some(i) => i, None => { let i = self.nextid; self.nextid += 1; self.ids.insert((site, idx), i); i } };
        st.objs.insert(id, Rc::new(Obj::new(size)));
        if track { let l = Rc::make_mut(&mut st.allocs).entry(site).or_default(); l.retain(|x| x.0 != id); l.push((id, T)); }
        Ok(id)
    }
    fn free(&mut self, st: &mut State, p: E) {
        if let Some(c) = p.c() { let id = (c >> 32) as u32; if st.objs.remove(&id).is_some() { for (_, l) in Rc::make_mut(&mut st.allocs).iter_mut() { l.retain(|x| x.0 != id); } } }
    }
    /// concretise a length-like value: the exact set of feasible upper bounds is over-approximated by the interval
    fn upper(&mut self, st: &State, e: E, cap: u64) -> u64 {
        if let Some(c) = e.c() { return c; }
        let hi = e.info().hi;
        if hi <= cap.min(64) { return hi; }
        // tighten with the solver (binary search on the maximum)
        let (mut lo, mut h) = (e.info().lo, cap.min(hi));
        if hi > cap && self.feasible(st, ult(k(e.w(), cap), e)).0 { return u64::MAX; }
        while lo < h { let mid = lo + (h - lo) / 2; if self.feasible(st, ult(k(e.w(), mid), e)).0 { lo = mid + 1 } else { h = mid } }
        lo
    }
    fn lower(&mut self, st: &State, e: E, cap: u64) -> u64 {
        if let Some(c) = e.c() { return c; }
        let (mut lo, mut h) = (0u64, cap);
        while lo < h { let mid = lo + (h - lo) / 2; if self.feasible(st, ule(e, k(e.w(), mid))).0 { h = mid } else { lo = mid + 1 } }
        lo
    }
    fn memcpy(&mut self, st: &mut State, d: E, s: E, n: E) -> Result<(), String> {
        if let Some(len) = n.c() {
            if len == 0 { return Ok(()); }
            if let (Some(dc), Some(sc)) = (d.c(), s.c()) {
                let (did, doff, sid, soff) = ((dc >> 32) as u32, dc & 0xffff_ffff, (sc >> 32) as u32, sc & 0xffff_ffff);
                let so = self.obj(st, sid).ok_or("memcpy source")?.clone();
                if soff + len > so.size { return Err("memcpy source out of bounds".into()); }
                let dob = st.objs.get_mut(&did).ok_or("memcpy destination")?;
                if doff + len > dob.size { return Err("memcpy destination out of bounds".into()); }
                Rc::make_mut(dob).copy_from(doff as usize, &so, soff as usize, len as usize);
                return Ok(());
            }
        }
        let cap = 1 << 16;
        let hi = self.upper(st, n, cap);
        if hi == u64::MAX { return Err("memcpy with unbounded symbolic length".into()); }
        let tz = |e: E| { let i = e.info(); i.kz.trailing_ones().min(3) };
        let gran = 1u64 << if n.is_c() { (n.c().unwrap().trailing_zeros()).min(3) } else { tz(n) }.min(tz(d)).min(tz(s));
        // read everything first (memmove semantics)
        let mut vals = vec![];
        let mut i = 0;
        while i < hi { 
            let v = self.load_bytes(st, add(s, k(64, i)), gran);
            match v { Ok(v) => vals.push(Some(v)), Err(_) => vals.push(None) }
            i += gran; }
        for (j, v) in vals.into_iter().enumerate() {
            let i = j as u64 * gran;
            let g = ult(k(64, i), n);
            if g == F { break; }
            let q = add(d, k(64, i));
            let v = match v { Some(v) => v, None => { if g == T { return Err("memcpy source".into()); } if self.feasible(st, g).0 { return Err("memcpy source range".into()); } break; } };
            if g == T { self.store_bytes(st, q, v, gran)?; } else {
                let old = match self.load_bytes(st, q, gran) { Ok(o) => o, Err(e) => { if self.feasible(st, g).0 { return Err(e); } break; } };
                self.store_bytes(st, q, ite(g, v, old), gran)?;
            }
        }
        Ok(())
    }
    fn memset(&mut self, st: &mut State, d: E, b: E, n: E) -> Result<(), String> {
        let hi = self.upper(st, n, 1 << 20);
        if hi == u64::MAX { return Err("memset with unbounded symbolic length".into()); }
        if let (Some(dc), Some(bc), Some(len)) = (d.c(), b.c(), n.c()) {
            if len == 0 { return Ok(()); }
            let (id, o) = ((dc >> 32) as u32, (dc & 0xffff_ffff) as usize);
            let ob = Rc::make_mut(st.objs.get_mut(&id).ok_or("memset")?);
            if o as u64 + len > ob.size { return Err("memset out of bounds".into()); }
            for i in 0..len as usize { ob.conc[o + i] = bc as u8; }
            if let Some(s) = &mut ob.sym { for x in &mut s[o..o + len as usize] { *x = (CONC, 0); } }
            return Ok(());
        }
        for i in 0..hi { let g = ult(k(64, i), n); if g == F { break; } let q = add(d, k(64, i)); let v = if g == T { b } else { let old = self.load_bytes(st, q, 1)?; ite(g, b, old) }; self.store_bytes(st, q, v, 1)?; }
        Ok(())
    }

    // ------------------------------------------------------------ running
    pub fn start(&mut self, entry: &str) -> Result<(), String> {
        let fi = *self.m.fidx.get(entry).ok_or_else(|| format!("no function {}", entry))?;
        let mut objs = BTreeMap::new();
        for (id, b) in &self.m.mdata { let mut o = Obj::new(CBASE + b.len() as u64); o.conc[CBASE as usize..].copy_from_slice(b); objs.insert(*id, Rc::new(o)); }
        let mut st = State { frames: vec![], objs, pc: vec![], model: Some(Rc::new(Model::new(Default::default()))), tag: vec![], nd: 0, allocs: Default::default(), trace: vec![], facts: vec![], subst: Default::default() };
        self.push(&mut st, fi, vec![], None);
        self.work.push(st);
        while !self.work.is_empty() && !self.stop {
            if Instant::now() > self.o.deadline { self.errors.push("time budget exhausted before all paths were explored".into()); break; }
            self.st.max_states = self.st.max_states.max(self.work.len());
            // furthest-behind state first
            let mut bi = 0;
            for i in 1..self.work.len() { if self.cmp(&self.work[i], &self.work[bi]) == std::cmp::Ordering::Less { bi = i; } }
            let mut st = self.work.swap_remove(bi);
            if !self.o.nomerge {
                let mut i = 0;
                while i < self.work.len() {
                    if self.cmp(&self.work[i], &st) == std::cmp::Ordering::Equal && (!self.o.words || self.compat(&self.work[i], &st)) { let o = self.work.swap_remove(i); st = self.merge(st, o); } else { i += 1; }
                }
            }
            self.run(st);
        }
        Ok(())
    }
    fn push(&mut self, st: &mut State, fi: usize, args: Vec<Val>, ret: Option<u32>) {
        let ctx = match st.frames.last() { Some(f) => hash2(hash2(f.ctx, (f.func as u64) << 32 | f.block as u64), (f.ip as u64) << 32 | fi as u64), None => fi as u64 };
        let f = &self.m.funcs[fi];
        self.funcs.insert(fi as u32);
        let mut regs = vec![Val::Undef; f.nregs as usize];
        for (p, a) in f.params.iter().zip(args) { regs[*p as usize] = a; }
        let cfg = f.cfg.get_or_init(|| crate::cfg::build(f));
        let iters = vec![0; cfg.path[0].len().saturating_sub(1)];
        st.frames.push(Rc::new(Frame { func: fi as u32, regs, block: 0, ip: 0, iters, ret, allocas: vec![], ctx }));
    }
    fn cmp(&self, a: &State, b: &State) -> std::cmp::Ordering {
        use std::cmp::Ordering::*;
        let n = a.tag.len().min(b.tag.len());
        match a.tag[..n].cmp(&b.tag[..n]) { Equal => {} o => return o }
        // deeper-tagged state first
        match b.tag.len().cmp(&a.tag.len()) { Equal => {} o => return o }
        for (x, y) in a.frames.iter().zip(b.frames.iter()) {
            if Rc::ptr_eq(x, y) { continue; }
            match x.func.cmp(&y.func) { Equal => {} o => return o }
            let cfg = self.m.funcs[x.func as usize].cfg.get().unwrap();
            let (p, q) = (&cfg.path[x.block as usize], &cfg.path[y.block as usize]);
            let m = p.len().min(q.len());
            for l in 0..m {
                match p[l].cmp(&q[l]) { Equal => {} o => return o }
                if l + 1 < p.len() && l + 1 < q.len() { match x.iters[l].cmp(&y.iters[l]) { Equal => {} o => return o } }
            }
            match p.len().cmp(&q.len()) { Equal => {} o => return o }
            match x.ip.cmp(&y.ip) { Equal => {} o => return o }
        }
        b.frames.len().cmp(&a.frames.len())
    }
    fn merge(&mut self, a: State, b: State) -> State {
        self.st.merges += 1;
        let common: Vec<E> = a.pc.iter().copied().filter(|x| b.pc.contains(x)).collect();
        let da = a.pc.iter().filter(|x| !common.contains(x)).fold(T, |r, &x| and(r, x));
        let db = b.pc.iter().filter(|x| !common.contains(x)).fold(T, |r, &x| and(r, x));
        let sel = da;
        let mut pc = common;
        let u = or(da, db);
        if u != T { pc.push(u); }
        if a.nd != b.nd { self.errors.push("nondeterministic inputs drawn on diverging paths".into()); }
        let mut frames = vec![];
        let nf = a.frames.len();
        for (i, (x, y)) in a.frames.iter().zip(b.frames.iter()).enumerate() {
            if Rc::ptr_eq(x, y) { frames.push(x.clone()); continue; }
            let f = &self.m.funcs[x.func as usize];
            let cfg = f.cfg.get().unwrap();
            let live = if i + 1 == nf && x.ip == 0 { Some(&cfg.live[x.block as usize]) } else { None };
            let mut fr = (**x).clone();
            for r in 0..fr.regs.len() {
                if let Some(l) = live { if l[r / 64] >> (r % 64) & 1 == 0 { fr.regs[r] = Val::Undef; continue; } }
                if x.regs[r] != y.regs[r] { fr.regs[r] = vite(sel, &x.regs[r], &y.regs[r]); }
            }
            for &al in &y.allocas { if !fr.allocas.contains(&al) { fr.allocas.push(al); } }
            frames.push(Rc::new(fr));
        }
        let mut objs = a.objs.clone();
        for (id, ob) in &b.objs {
            match a.objs.get(id) {
                None => { objs.insert(*id, ob.clone()); }
                Some(oa) => { if !Rc::ptr_eq(oa, ob) { let m = Self::merge_obj(sel, oa, ob); objs.insert(*id, m); } }
            }
        }
        let allocs = if Rc::ptr_eq(&a.allocs, &b.allocs) { a.allocs.clone() } else {
            let mut m: Map<u64, Vec<(u32, E)>> = Default::default();
            for (s, l) in a.allocs.iter() {
                let bl = b.allocs.get(s);
                let mut nl: Vec<(u32, E)> = vec![];
                for &(id, g) in l { let gb = bl.and_then(|v| v.iter().find(|x| x.0 == id)).map(|x| x.1).unwrap_or(F); nl.push((id, ite(sel, g, gb))); }
                if let Some(v) = bl { for &(id, g) in v { if !l.iter().any(|x| x.0 == id) { nl.push((id, and(not(sel), g))); } } }
                m.insert(*s, nl);
            }
            for (s, l) in b.allocs.iter() { if !a.allocs.contains_key(s) { m.insert(*s, l.iter().map(|&(id, g)| (id, and(not(sel), g))).collect()); } }
            Rc::new(m)
        };
        let mut trace = a.trace.clone();
        if a.trace.len() == b.trace.len() { for i in 0..trace.len() { trace[i] = ite(sel, a.trace[i], b.trace[i]); } } else { trace.clear(); }
        let facts = a.facts.iter().copied().filter(|x| b.facts.contains(x)).collect();
        State { frames, objs, pc, model: a.model.or(b.model), tag: a.tag, nd: a.nd, allocs, trace, facts, subst: if a.subst == b.subst { a.subst } else { Default::default() } }
    }
    /// merging policy: states whose small machine words (lengths, indices) are concrete and differ stay apart
    fn compat(&self, a: &State, b: &State) -> bool {
        fn w(a: &Val, b: &Val) -> bool { match (a, b) { (Val::E(E::C(64, x)), Val::E(E::C(64, y))) => x == y || *x > 0xffff || *y > 0xffff, (Val::Agg(x), Val::Agg(y)) => Rc::ptr_eq(x, y) || x.iter().zip(y.iter()).all(|(p, q)| w(p, q)), _ => true } }
        let nf = a.frames.len();
        for (i, (x, y)) in a.frames.iter().zip(b.frames.iter()).enumerate() {
            if Rc::ptr_eq(x, y) { continue; }
            let f = &self.m.funcs[x.func as usize];
            let cfg = f.cfg.get().unwrap();
            let live = if i + 1 == nf && x.ip == 0 { Some(&cfg.live[x.block as usize]) } else { None };
            for r in 0..x.regs.len() {
                if let Some(l) = live { if l[r / 64] >> (r % 64) & 1 == 0 { continue; } }
                if !w(&x.regs[r], &y.regs[r]) { return false; }
            }
        }
        for (id, ob) in &b.objs {
            if let Some(oa) = a.objs.get(id) {
                if Rc::ptr_eq(oa, ob) { continue; }
                let n = (oa.size.min(ob.size) as usize) & !7;
                let mut o = 0;
                while o < n {
                    if oa.conc[o..o + 8] != ob.conc[o..o + 8] && oa.is_conc(o, 8) && ob.is_conc(o, 8) {
                        let g = |c: &[u8]| u64::from_le_bytes(c.try_into().unwrap());
                        if g(&oa.conc[o..o + 8]) <= 0xffff && g(&ob.conc[o..o + 8]) <= 0xffff { return false; }
                    }
                    o += 8;
                }
            }
        }
        true
    }
    fn merge_obj(sel: E, a: &Rc<Obj>, b: &Rc<Obj>) -> Rc<Obj> {
        let mut r = (**a).clone();
        let mut bb = (**b).clone();
        let n = a.size.max(b.size);
        if r.size < n { let old = r.size as usize; r.resize(n); r.copy_from(old, b, old, n as usize - old); }
        if bb.size < n { let old = bb.size as usize; bb.resize(n); bb.copy_from(old, a, old, n as usize - old); }
        let n = n as usize;
        let mut o = 0;
        let a0 = r.clone();
        while o < n {
            let (x, y) = (a0.cell(o), bb.cell(o));
            if x == y && (x.0 != CONC || a0.conc[o] == bb.conc[o]) { o += 1; continue; }
            // choose a granule
            let mut g = 1;
            for &(nd, bi) in &[x, y] { if nd != CONC { let e = E::S(nd); if bi == 0 { g = g.max((e.w() / 8) as usize); } } }
            if x.0 == CONC && y.0 == CONC { for c in [8usize, 4, 2] { if o % c == 0 && o + c <= n && a0.is_conc(o, c) && bb.is_conc(o, c) { g = c; break; } } }
            if o + g > n { g = 1; }
            let v = ite(sel, a0.load(o, g), bb.load(o, g));
            r.store(o, g, v);
            o += g;
        }
        Rc::new(r)
    }

    fn run(&mut self, mut st: State) {
        let mut cnt = 0u32;
        loop {
            cnt += 1;
            if cnt & 0xfff == 0 && Instant::now() > self.o.deadline { self.errors.push("time budget exhausted before all paths were explored".into()); self.stop = true; return; }
            match self.step(&mut st) {
                Ok(Step::Go) => {}
                Ok(Step::Yield) => { if self.work.is_empty() { continue; } self.work.push(st); return; }
                Ok(Step::Done) | Ok(Step::Fork) => return,
                Err(e) => {
                    // an engine-level failure only matters on a feasible path
                    let pc = st.pc.clone();
                    match self.decide(&pc, "error-path") { Ok(None) => return, _ => {} }
                    let loc = self.where_(&st);
                    self.errors.push(format!("{} at {}", e, loc));
                    if self.errors.len() > 10 { self.stop = true; }
                    return;
                }
            }
            if self.stop { return; }
        }
    }
    fn where_(&self, st: &State) -> String { st.frames.iter().rev().take(6).map(|f| { let fu = &self.m.funcs[f.func as usize]; format!("{}:{}", if fu.pretty.is_empty() { &fu.name } else { &fu.pretty }, fu.blocks[f.block as usize].name) }).collect::<Vec<_>>().join(" <- ") }
    fn op(f: &Frame, o: &Op_) -> Val { match o { Op_::R(r) => f.regs[*r as usize].clone(), Op_::K(v) => v.clone() } }
    fn ope(f: &Frame, o: &Op_) -> E { match o { Op_::R(r) => match &f.regs[*r as usize] { Val::E(e) => *e, x => panic!("scalar register expected: {:?}", x) }, Op_::K(v) => v.e() } }
    fn set(st: &mut State, d: u32, v: Val) { let f = Rc::make_mut(st.frames.last_mut().unwrap()); f.regs[d as usize] = v; }
    /// move to a block; returns true when the block is a join point
    fn goto(&mut self, st: &mut State, t: u32) -> bool {
        let f = Rc::make_mut(st.frames.last_mut().unwrap());
        let fu = &self.m.funcs[f.func as usize];
        let cfg = fu.cfg.get().unwrap();
        let (pb, pt) = (&cfg.path[f.block as usize], &cfg.path[t as usize]);
        let mut it = vec![0u32; pt.len() - 1];
        let mut l = 0;
        while l + 1 < pb.len() && l + 1 < pt.len() && pb[l] == pt[l] { it[l] = f.iters[l]; l += 1; }
        // l = number of common enclosing components; back edge to the head of the innermost common one
        if l > 0 && cfg.head[t as usize] && pt.len() - 1 == l && pt[l] == 0 { it[l - 1] += 1; }
        f.iters = it;
        let b = &fu.blocks[t as usize];
        if !b.phis.is_empty() {
            let mut vals = Vec::with_capacity(b.phis.len());
            for p in &b.phis { let v = p.inc.iter().find(|x| x.0 == f.block).map(|x| Self::op(f, &x.1)).expect("phi edge"); vals.push(v); }
            for (p, v) in b.phis.iter().zip(vals) { f.regs[p.dst as usize] = v; }
        }
        f.block = t; f.ip = 0;
        cfg.npred[t as usize] > 1
    }
    fn branch(&mut self, mut st: State, alts: Vec<(E, u32)>) -> Result<(), String> {
        // alts: mutually exclusive, exhaustive (condition, target)
        let mut live = vec![];
        let n = alts.len();
        for (i, (c, t)) in alts.iter().enumerate() {
            if *c == F { continue; }
            if i + 1 == n && live.is_empty() { live.push((*c, *t, st.model.clone())); break; }
            let (f, m) = self.feasible(&st, *c);
            if f { live.push((*c, *t, m)); }
        }
        if live.len() == 1 {
            let (c, t, m) = live.pop().unwrap();
            // a comparison of reals that the path implies: it may bound a divisor
            if self.o.fp == Fp::Real && n == 2 && real::is_cmp(c) && !st.facts.contains(&c) { st.facts.push(c); }
            if m.is_some() { st.model = m; }
            self.goto(&mut st, t);
            self.work.push(st);
            return Ok(());
        }
        self.st.forks += live.len() as u64 - 1;
        for (c, t, m) in live {
            let mut s = st.clone();
            if !s.pc.contains(&c) { s.pc.push(c); }
            s.model = m;
            self.goto(&mut s, t);
            self.work.push(s);
        }
        Ok(())
    }
    fn inputs_key(&mut self, st: &mut State, w: u8) -> E {
        let name = format!("in{}", st.nd);
        st.nd += 1;
        if !self.inputs.iter().any(|x| x.0 == name) { self.inputs.push((name.clone(), w)); }
        var(&name, w)
    }
    fn report(&mut self, id: String, msg: String, m: &Model, definite: bool) {
        let inputs = self.input_vals(m);
        if self.viol.iter().any(|v| v.id == id) { return; }
        if self.o.verbose { eprintln!("VIOL {} {} definite={}", id, msg, definite); }
        use std::io::Write;
        if let Ok(mut f) = std::fs::OpenOptions::new().create(true).append(true).open(format!("{}/viol.txt", self.o.dir)) {
            let _ = writeln!(f, "{} {}", id.replace(' ', "_"), inputs.iter().map(|x| x.2.to_string()).collect::<Vec<_>>().join(" "));
        }
        self.viol.push(Violation { id, msg, inputs, definite });
        if self.viol.len() >= self.o.max_viol { self.stop = true; }
    }
    fn panic_path(&mut self, st: &State, what: String) -> Result<Step, String> {
        let pc = st.pc.clone();
        // a path already known infeasible never gets here; settle the ones the quick check left open
        if let Some(m) = &st.model { if Self::holds(m, &pc) { let m = m.clone(); self.report(format!("panic:{}", what), format!("panic reachable: {} in {}", what, self.where_(st)), &m, true); return Ok(Step::Done); } }
        match self.decide(&pc, "panic")? {
            None => Ok(Step::Done),
            Some((m, d)) => { self.report(format!("panic:{}", what), format!("panic reachable: {} in {}", what, self.where_(st)), &m, d); Ok(Step::Done) }
        }
    }
    fn cstr(&self, st: &State, p: u64, n: u64) -> String { match self.obj(st, (p >> 32) as u32) { Some(o) => { let a = (p & 0xffff_ffff) as usize; if a + n as usize <= o.size as usize { String::from_utf8_lossy(&o.conc[a..a + n as usize]).to_string() } else { "?".into() } } None => "?".into() } }

    fn step(&mut self, st: &mut State) -> Result<Step, String> {
        self.st.instrs += 1;
        let fr = st.frames.last().unwrap().clone();
        // safety: functions are never mutated while executing
        let fu: &'static Func = unsafe { &*(&self.m.funcs[fr.func as usize] as *const Func) };
        let b = &fu.blocks[fr.block as usize];
        let ins = &b.ins[fr.ip as usize];
        // frame is shared with `fr` only for the duration of operand evaluation
        macro_rules! v { ($o:expr) => { Self::op(&fr, $o) } }
        macro_rules! e { ($o:expr) => { Self::ope(&fr, $o) } }
        macro_rules! done { ($d:expr, $v:expr) => {{ let x: Val = $v; drop(fr); let f = Rc::make_mut(st.frames.last_mut().unwrap()); f.regs[*$d as usize] = x; f.ip += 1; return Ok(Step::Go); }} }
        macro_rules! next { () => {{ drop(fr); Rc::make_mut(st.frames.last_mut().unwrap()).ip += 1; return Ok(Step::Go); }} }
        match ins {
            Ins::Nop => next!(),
            Ins::Bin(o, d, a, c) => {
                let (x, y) = (v!(a), v!(c));
                let r = lift2(&x, &y, &mut |p, q| match o {
                    Bop::Add => add(p, q), Bop::Sub => sub(p, q), Bop::Mul => mul(p, q), Bop::UDiv => div(X::UDiv, p, q), Bop::SDiv => div(X::SDiv, p, q), Bop::URem => div(X::URem, p, q), Bop::SRem => div(X::SRem, p, q),
                    Bop::Shl => shl(p, q), Bop::LShr => lshr(p, q), Bop::AShr => ashr(p, q), Bop::And => and(p, q), Bop::Or => or(p, q), Bop::Xor => xor(p, q),
                    Bop::FAdd => f2(X::FAdd, p, q), Bop::FSub => f2(X::FSub, p, q), Bop::FMul => f2(X::FMul, p, q), Bop::FDiv => { let r = f2(X::FDiv, p, q); if self.o.fp == Fp::Real { real::guard_div(r, &st.facts) } else { r } }, Bop::FRem => f2(X::FRem, p, q),
                });
                done!(d, r)
            }
            Ins::ICmp(p, d, a, c) => {
                let (x, y) = (v!(a), v!(c));
                let r = lift2(&x, &y, &mut |a, b| match p { 0 => eq(a, b), 1 => not(eq(a, b)), 2 => ult(b, a), 3 => not(ult(a, b)), 4 => ult(a, b), 5 => not(ult(b, a)), 6 => slt(b, a), 7 => not(slt(a, b)), 8 => slt(a, b), _ => not(slt(b, a)) });
                done!(d, r)
            }
            Ins::FCmp(p, d, a, c) => {
                let (x, y) = (v!(a), v!(c));
                let sb = st.subst.clone();
                let r = lift2(&x, &y, &mut |a, b| {
                    let fcmp = |op, a, b| subst(&sb, fcmp(op, a, b));
                    let u = |a, b| fcmp(X::FUno, a, b);
                    match p.as_str() {
                        "false" => F, "true" => T,
                        "oeq" => fcmp(X::FEq, a, b), "olt" => fcmp(X::FLt, a, b), "ole" => fcmp(X::FLe, a, b), "ogt" => fcmp(X::FLt, b, a), "oge" => fcmp(X::FLe, b, a),
                        "ord" => not(u(a, b)), "uno" => u(a, b),
                        "one" => { let l = fcmp(X::FLt, a, b); let g = fcmp(X::FLt, b, a); or(l, g) }
                        "ueq" => { let l = fcmp(X::FLt, a, b); let g = fcmp(X::FLt, b, a); not(or(l, g)) }
                        "ult" => not(fcmp(X::FLe, b, a)), "ule" => not(fcmp(X::FLt, b, a)), "ugt" => not(fcmp(X::FLe, a, b)), "uge" => not(fcmp(X::FLt, a, b)),
                        "une" => not(fcmp(X::FEq, a, b)),
                        _ => panic!("fcmp {}", p),
                    }
                });
                done!(d, r)
            }
            Ins::FNeg(d, a) => { let x = v!(a); done!(d, lift1(&x, &mut fneg)) }
            Ins::Select(d, c, a, b2) => {
                let (c, x, y) = (v!(c), v!(a), v!(b2));
                let r = match &c { Val::E(c) => match c.c() { Some(1) => x, Some(_) => y, None => vite(*c, &x, &y) }, Val::Agg(cs) => match (&x, &y) { (Val::Agg(p), Val::Agg(q)) => Val::Agg(Rc::new(cs.iter().zip(p.iter().zip(q.iter())).map(|(c, (p, q))| vite(c.e(), p, q)).collect())), _ => panic!() }, _ => panic!() };
                done!(d, r)
            }
            Ins::Cast(c, d, a, t) => {
                let x = v!(a);
                let et = if let Ty::Vec(_, e) = t { (**e).clone() } else { t.clone() };
                let w = et.bits();
                let r = lift1(&x, &mut |e| match c {
                    Cast::Trunc => trunc(e, w), Cast::ZExt => zext(e, w), Cast::SExt => sext(e, w), Cast::FpTrunc => fptrunc(e), Cast::FpExt => fpext(e),
                    Cast::FpToUi => subst(&st.subst, ftoi(e, w, false)), Cast::FpToSi => subst(&st.subst, ftoi(e, w, true)), Cast::UiToFp => stof(e, w, false), Cast::SiToFp => stof(e, w, true), Cast::Bit => e });
                done!(d, r)
            }
            Ins::Load(d, t, p) => { let pe = e!(p); let r = self.load(st, t, pe)?; done!(d, r) }
            Ins::Store(t, x, p) => { let (pe, xv) = (e!(p), v!(x)); self.store(st, t, pe, &xv)?; next!() }
            Ins::Gep(d, p, off, idx) => {
                let mut r = add(e!(p), k(64, *off as u64));
                for (i, s) in idx { let x = e!(i); let x = if x.w() < 64 { sext(x, 64) } else { x }; let sc = mul(x, k(64, *s)); r = add(r, sc); }
                done!(d, Val::E(r))
            }
            Ins::Alloca(d, n) => {
                let site = hash2(hash2(fr.ctx, 0xA110CA), (fr.block as u64) << 32 | fr.ip as u64);
                let id = self.alloc(st, site, (*n).max(1), false)?;
                drop(fr);
                let f = Rc::make_mut(st.frames.last_mut().unwrap());
                f.allocas.push(id); f.regs[*d as usize] = Val::E(k(64, (id as u64) << 32)); f.ip += 1;
                Ok(Step::Go)
            }
            Ins::Extract(d, a, ix) => { let mut x = v!(a); for &i in ix { x = match &x { Val::Agg(v) => v[i as usize].clone(), Val::Undef => Val::Undef, _ => panic!() }; } done!(d, x) }
            Ins::Insert(d, a, x, ix, t) => {
                fn ins(b: Val, t: &Ty, ix: &[u32], x: Val) -> Val { if ix.is_empty() { return x; } let b = if let Val::Undef = b { zero_of(t) } else { b }; match b { Val::Agg(v) => { let mut v = (*v).clone(); let i = ix[0] as usize; let old = std::mem::replace(&mut v[i], Val::Undef); v[i] = ins(old, &t.elem(i), &ix[1..], x); Val::Agg(Rc::new(v)) } _ => panic!() } }
                let r = ins(v!(a), t, ix, v!(x)); done!(d, r)
            }
            Ins::ExtElem(d, a, i) => { let i = e!(i).c().ok_or("symbolic extractelement")? as usize; let r = match v!(a) { Val::Agg(v) => v[i].clone(), _ => panic!() }; done!(d, r) }
            Ins::InsElem(d, a, x, i, t) => { let i = e!(i).c().ok_or("symbolic insertelement")? as usize; let b = match v!(a) { Val::Undef => zero_of(t), x => x }; let r = match b { Val::Agg(v) => { let mut v = (*v).clone(); v[i] = v!(x); Val::Agg(Rc::new(v)) } _ => panic!() }; done!(d, r) }
            Ins::Shuf(d, a, c, m, t) => {
                let (x, y) = (v!(a), v!(c)); let n = t.count();
                let g = |v: &Val, i: usize| match v { Val::Agg(v) => v[i].clone(), _ => zero_of(&t.elem(0)) };
                let r = Val::Agg(Rc::new(m.iter().map(|&i| if (i as usize) < n { g(&x, i as usize) } else { g(&y, i as usize - n) }).collect()));
                done!(d, r)
            }
            Ins::Freeze(d, a, t) => { let x = match v!(a) { Val::Undef => zero_of(t), x => x }; done!(d, x) }
            Ins::AtomicRmw(o, d, p, x) => {
                let (pe, xe) = (e!(p), e!(x)); let n = xe.w() as u64 / 8;
                let old = self.load_bytes(st, pe, n)?;
                let nv = match o.as_str() { "add" => add(old, xe), "sub" => sub(old, xe), "xchg" => xe, "or" => or(old, xe), "and" => and(old, xe), _ => return Err(format!("atomicrmw {}", o)) };
                self.store_bytes(st, pe, nv, n)?; done!(d, Val::E(old))
            }
            Ins::CmpXchg(d, p, c, x) => {
                let (pe, ce, xe) = (e!(p), e!(c), e!(x)); let n = xe.w() as u64 / 8;
                let old = self.load_bytes(st, pe, n)?; let s = eq(old, ce);
                self.store_bytes(st, pe, ite(s, xe, old), n)?;
                done!(d, Val::Agg(Rc::new(vec![Val::E(old), Val::E(s)])))
            }
            Ins::Ret(v) => {
                let rv = v.as_ref().map(|o| v!(o));
                let fr2 = st.frames.pop().unwrap();
                for a in &fr2.allocas { st.objs.remove(a); }
                if st.frames.is_empty() { return self.path_end(st); }
                let f = Rc::make_mut(st.frames.last_mut().unwrap());
                if let (Some(d), Some(x)) = (fr2.ret, rv) { f.regs[d as usize] = x; }
                f.ip += 1;
                Ok(Step::Yield)
            }
            Ins::Br(t) => { drop(fr); Ok(if self.goto(st, *t) { Step::Yield } else { Step::Go }) }
            Ins::CBr(c, a, b2) => {
                let c = e!(c);
                drop(fr);
                match c.c() {
                    Some(v) => Ok(if self.goto(st, if v == 1 { *a } else { *b2 }) { Step::Yield } else { Step::Go }),
                    None => { if a == b2 { return Ok(if self.goto(st, *a) { Step::Yield } else { Step::Go }); } self.branch(st.clone(), vec![(c, *a), (not(c), *b2)])?; Ok(Step::Fork) }
                }
            }
            Ins::Switch(c, d, vs) => {
                let c = e!(c);
                drop(fr);
                if let Some(v) = c.c() { let t = vs.iter().find(|x| x.0.c() == Some(v)).map(|x| x.1).unwrap_or(*d); return Ok(if self.goto(st, t) { Step::Yield } else { Step::Go }); }
                let mut alts: Vec<(E, u32)> = vec![]; let mut rest = T;
                for (kv, t) in vs { let g = eq(c, *kv); rest = and(rest, not(g)); match alts.iter_mut().find(|x| x.1 == *t) { Some(a) => a.0 = or(a.0, g), None => alts.push((g, *t)) } }
                match alts.iter_mut().find(|x| x.1 == *d) { Some(a) => a.0 = or(a.0, rest), None => alts.push((rest, *d)) }
                self.branch(st.clone(), alts)?;
                Ok(Step::Fork)
            }
            Ins::Unreachable => self.panic_path(st, "unreachable".into()),
            Ins::Call(d, fo, name, args, rt) => {
                let av: Vec<Val> = args.iter().map(|(_, o)| v!(o)).collect();
                let mut name = name.clone();
                if name.is_empty() {
                    let p = e!(fo);
                    let c = match p.c() { Some(c) => c, None => {
                        // split on the possible targets
                        let mut leaves = vec![];
                        fn walk(p: E, g: E, out: &mut Vec<(E, E)>) { if let Some(n) = p.is(X::Ite) { walk(n.b, and(g, n.a), out); walk(n.c, and(g, not(n.a)), out); } else { out.push((g, p)); } }
                        walk(p, T, &mut leaves);
                        let r = match fo { Op_::R(r) => *r, _ => unreachable!() };
                        for (g, l) in leaves { if !l.is_c() { return Err("symbolic function pointer".into()); } let (f, m) = self.feasible(st, g); if f { let mut s = st.clone(); s.pc.push(g); s.model = m; Self::set(&mut s, r, Val::E(l)); self.work.push(s); } }
                        return Ok(Step::Fork);
                    } };
                    name = self.m.fbyaddr.get(&c).cloned().ok_or_else(|| format!("bad function pointer {:#x}", c))?;
                }
                for _ in 0..4 { if self.m.fidx.contains_key(&name) { break; } match self.m.alias.get(&name) { Some(t) => name = t.clone(), None => break } }
                if !self.m.fidx.contains_key(&name) && name.contains("RawVechE8grow_one") { name = "vp_grow_one_u8".into(); }
                if let Some(&fi) = self.m.fidx.get(&name).filter(|_| !name.contains("9panicking")) {
                    drop(fr);
                    if st.frames.len() > 400 { return Err("call depth".into()); }
                    self.push(st, fi, av, *d);
                    return Ok(Step::Go);
                }
                drop(fr);
                self.builtin(st, &name, av, *d, rt)
            }
        }
    }
    fn path_end(&mut self, _st: &mut State) -> Result<Step, String> { self.st.paths += 1; Ok(Step::Done) }

    fn builtin(&mut self, st: &mut State, name: &str, a: Vec<Val>, d: Option<u32>, rt: &Ty) -> Result<Step, String> {
        macro_rules! ret { ($v:expr) => {{ let x: Val = $v; let f = Rc::make_mut(st.frames.last_mut().unwrap()); if let Some(d) = d { f.regs[d as usize] = x; } f.ip += 1; return Ok(Step::Go); }} }
        macro_rules! rete { ($e:expr) => {{ let e: E = $e; ret!(Val::E(e)) }} }
        let n = name;
        if let Some(i) = n.strip_prefix("llvm.") {
            let base = i;
            if base.starts_with("lifetime") || base.starts_with("experimental.noalias") || base.starts_with("dbg") || base.starts_with("assume") || base.starts_with("prefetch") || base.starts_with("invariant") { ret!(Val::Undef) }
            if base.starts_with("trap") || base.starts_with("ubsantrap") { return self.panic_path(st, "trap".into()); }
            if base.starts_with("memcpy") || base.starts_with("memmove") { self.memcpy(st, a[0].e(), a[1].e(), a[2].e())?; ret!(Val::Undef) }
            if base.starts_with("memset") { self.memset(st, a[0].e(), a[1].e(), a[2].e())?; ret!(Val::Undef) }
            if base.starts_with("load.relative") { let p = add(a[0].e(), sext(a[1].e(), 64)); let o = self.load_bytes(st, p, 4)?; rete!(add(a[0].e(), sext(o, 64))) }
            if base.starts_with("expect") { ret!(a[0].clone()) }
            if base.starts_with("is.constant") { rete!(F) }
            if base.starts_with("vector.reduce.") {
                let op = base.strip_prefix("vector.reduce.").unwrap().split('.').next().unwrap().to_string();
                let (init, vs) = if op == "fadd" || op == "fmul" { (Some(a[0].e()), a[1].clone()) } else { (None, a[0].clone()) };
                let vs = match vs { Val::Agg(v) => v, _ => panic!() };
                let mut it = vs.iter().map(|x| x.e()); let mut r = match init { Some(x) => x, None => it.next().unwrap() };
                for x in it { r = match op.as_str() { "add" => add(r, x), "mul" => mul(r, x), "and" => and(r, x), "or" => or(r, x), "xor" => xor(r, x), "umin" => ite(ult(x, r), x, r), "umax" => ite(ult(r, x), x, r), "smin" => ite(slt(x, r), x, r), "smax" => ite(slt(r, x), x, r), "fadd" => f2(X::FAdd, r, x), _ => return Err(format!("intrinsic {}", n)) }; }
                rete!(r)
            }
            let op = base.split('.').next().unwrap();
            let full: String = if base.contains(".with.overflow") { format!("{}.wo", op) } else if base.contains(".sat") { format!("{}.sat", op) } else { op.to_string() };
            let r: Val = match full.as_str() {
                "uadd.wo" | "usub.wo" | "umul.wo" | "sadd.wo" | "ssub.wo" | "smul.wo" => {
                    let (x, y) = (a[0].e(), a[1].e()); let w = x.w();
                    let (r, o) = match full.as_str() {
                        "uadd.wo" => { let r = add(x, y); (r, ult(r, x)) }
                        "usub.wo" => (sub(x, y), ult(x, y)),
                        "umul.wo" => { let r = mul(x, y);
                            let (ix, iy) = (x.info(), y.info());
                            let o = if ix.hi as u128 * iy.hi as u128 <= mask(w) as u128 { F } else if let Some(c) = y.c().filter(|c| *c > 0) { ult(k(w, mask(w) / c), x) } else if let Some(c) = x.c().filter(|c| *c > 0) { ult(k(w, mask(w) / c), y) } else { let p = mul(zext(x, 2 * w), zext(y, 2 * w)); not(eq(extract(p, w, w), k(w, 0))) };
                            (r, o) }
                        "sadd.wo" => { let r = add(x, y); let z = k(w, 0); let (sx_, sy, sr) = (slt(x, z), slt(y, z), slt(r, z)); (r, and(eq(sx_, sy), xor(sx_, sr))) }
                        "ssub.wo" => { let r = sub(x, y); let z = k(w, 0); let (sx_, sy, sr) = (slt(x, z), slt(y, z), slt(r, z)); (r, and(xor(sx_, sy), xor(sx_, sr))) }
                        _ => { let p = mul(sext(x, 2 * w), sext(y, 2 * w)); let r = trunc(p, w); (r, not(eq(sext(r, 2 * w), p))) }
                    };
                    // let the interval analysis of signed operations drop impossible overflow
                    let o = if full == "sadd.wo" || full == "ssub.wo" { let (p, q) = (x.info(), y.info()); let (l, h) = if full == "sadd.wo" { (p.slo as i128 + q.slo as i128, p.shi as i128 + q.shi as i128) } else { (p.slo as i128 - q.shi as i128, p.shi as i128 - q.slo as i128) }; let (mn, mx) = (sx(1u64 << (w - 1), w) as i128, (mask(w) >> 1) as i128); if l >= mn && h <= mx { F } else { o } } else { o };
                    Val::Agg(Rc::new(vec![Val::E(r), Val::E(o)]))
                }
                "uadd.sat" => lift2(&a[0], &a[1], &mut |x, y| { let r = add(x, y); ite(ult(r, x), kk(x.w(), !0), r) }),
                "usub.sat" => lift2(&a[0], &a[1], &mut |x, y| ite(ult(x, y), kk(x.w(), 0), sub(x, y))),
                "sadd.sat" | "ssub.sat" => lift2(&a[0], &a[1], &mut |x, y| { let w = x.w(); let (p, q) = (sext(x, w + 1), sext(y, w + 1)); let r = if full == "sadd.sat" { add(p, q) } else { sub(p, q) }; let (mn, mx) = (sext(k(w, 1u64 << (w - 1)), w + 1), sext(k(w, mask(w) >> 1), w + 1)); trunc(ite(slt(r, mn), mn, ite(slt(mx, r), mx, r)), w) }),
                "umin" => lift2(&a[0], &a[1], &mut |x, y| ite(ult(x, y), x, y)),
                "umax" => lift2(&a[0], &a[1], &mut |x, y| ite(ult(x, y), y, x)),
                "smin" => lift2(&a[0], &a[1], &mut |x, y| ite(slt(x, y), x, y)),
                "smax" => lift2(&a[0], &a[1], &mut |x, y| ite(slt(x, y), y, x)),
                "abs" => lift1(&a[0], &mut |x| ite(slt(x, kk(x.w(), 0)), neg(x), x)),
                "ucmp" => { let (x, y) = (a[0].e(), a[1].e()); let w = rt.bits(); Val::E(ite(ult(x, y), kk(w, !0), zext(ult(y, x), w))) }
                "scmp" => { let (x, y) = (a[0].e(), a[1].e()); let w = rt.bits(); Val::E(ite(slt(x, y), kk(w, !0), zext(slt(y, x), w))) }
                "ctpop" => lift1(&a[0], &mut popcount),
                "ctlz" => lift1(&a[0], &mut |x| { let w = x.w(); let mut r = kk(w, w as u128); for i in 0..w { r = ite(extract(x, i, 1), kk(w, (w - 1 - i) as u128), r); } r }),
                "cttz" => lift1(&a[0], &mut |x| { let w = x.w(); let mut r = kk(w, w as u128); for i in (0..w).rev() { r = ite(extract(x, i, 1), kk(w, i as u128), r); } r }),
                "bswap" => lift1(&a[0], &mut |x| { let w = x.w(); let mut r = extract(x, 0, 8); for i in 1..w / 8 { r = concat(r, extract(x, i * 8, 8)); } r }),
                "bitreverse" => lift1(&a[0], &mut |x| { let w = x.w(); let mut r = extract(x, 0, 1); for i in 1..w { r = concat(r, extract(x, i, 1)); } r }),
                "fshl" | "fshr" => { let (x, y, s) = (a[0].e(), a[1].e(), a[2].e()); let w = x.w(); let s = div(X::URem, s, k(w, w as u64));
                    if let Some(c) = s.c() { let c = c as u8; Val::E(if full == "fshl" { if c == 0 { x } else { concat(extract(x, 0, w - c), extract(y, w - c, c)) } } else if c == 0 { y } else { concat(extract(x, 0, c), extract(y, c, w - c)) }) }
                    else { let r = sub(k(w, w as u64), s); Val::E(if full == "fshl" { ite(eq(s, k(w, 0)), x, or(shl(x, s), lshr(y, r))) } else { ite(eq(s, k(w, 0)), y, or(lshr(y, s), shl(x, r))) }) } }
                "fptoui.sat" | "fptosi.sat" => { let w = rt.bits(); let sb = st.subst.clone(); lift1(&a[0], &mut |x| subst(&sb, ftoi(x, w, full.as_str() == "fptosi.sat"))) }
                "sqrt" => lift1(&a[0], &mut |x| f1(X::FSqrt, x)),
                "round" => lift1(&a[0], &mut |x| f1(X::FRound, x)), "floor" => lift1(&a[0], &mut |x| f1(X::FFloor, x)), "ceil" => lift1(&a[0], &mut |x| f1(X::FCeil, x)), "trunc" => lift1(&a[0], &mut |x| f1(X::FTruncI, x)),
                "log" => Val::E(f1(X::FLn, a[0].e())), "log2" => Val::E(f1(X::FLog2, a[0].e())), "log10" => Val::E(f1(X::FLog10, a[0].e())), "cos" => Val::E(f1(X::FCos, a[0].e())), "sin" => Val::E(f1(X::FSin, a[0].e())), "exp" => Val::E(f1(X::FExp, a[0].e())),
                "pow" => Val::E(f2(X::FPow, a[0].e(), a[1].e())),
                "powi" => { let c = a[1].e().c().ok_or("symbolic powi")?; let c = sx(c, a[1].e().w()); match (asf(a[0].e()), c) { (Some(x), c) => Val::E(fc(x.powi(c as i32))), (None, 2) => Val::E(f2(X::FMul, a[0].e(), a[0].e())), _ => return Err("powi".into()) } }
                "fabs" => lift1(&a[0], &mut fabs),
                "fma" | "fmuladd" => { let (x, y, z) = (a[0].e(), a[1].e(), a[2].e()); match (asf(x), asf(y), asf(z)) { (Some(x), Some(y), Some(z)) => Val::E(fc(x.mul_add(y, z))), _ => return Err("symbolic fma".into()) } }
                "minnum" | "minimumnum" => { let sb = st.subst.clone(); let fcmp = |op, a, b| subst(&sb, fcmp(op, a, b)); lift2(&a[0], &a[1], &mut |x, y| { let l = fcmp(X::FLt, y, x); let nx = fcmp(X::FUno, x, x); ite(or(l, nx), y, x) }) },
                "maxnum" | "maximumnum" => { let sb = st.subst.clone(); let fcmp = |op, a, b| subst(&sb, fcmp(op, a, b)); lift2(&a[0], &a[1], &mut |x, y| { let l = fcmp(X::FLt, x, y); let nx = fcmp(X::FUno, x, x); ite(or(l, nx), y, x) }) },
                "copysign" => { let (x, y) = (a[0].e(), a[1].e()); let w = x.w(); let sb = k(w, 1u64 << (w - 1)); Val::E(or(and(x, not(sb)), and(y, sb))) }
                "ptrmask" => Val::E(and(a[0].e(), a[1].e())),
                _ => return Err(format!("unsupported intrinsic {}", n)),
            };
            ret!(r)
        }
        if n.contains("___rust_no_alloc_shim") { ret!(Val::Undef) }
        if n.contains("___rust_alloc") || n.contains("___rust_alloc_zeroed") || n == "malloc" {
            if let (Some(id), false) = (self.o.stop_alloc, a[0].e().is_c()) {
                if self.o.stop_bad { let pc = st.pc.clone(); if let Ok(Some((m, def))) = self.decide(&pc, "alloc") { self.report(format!("assert:{}", id), "accepted: goes on to allocate buffers".into(), &m, def); } return self.path_end(st); }
                // the property is decided once a symbolically sized buffer is requested
                if !self.reached.contains(&id) { if let Ok(Some((m, true))) = self.decide(&st.pc.clone(), "reach") { self.reached.insert(id); let inputs = self.input_vals(&m); self.wit.push(Witness { id, inputs, trace: vec![] }); } }
                return self.path_end(st);
            }
            let sz = self.upper(st, a[0].e(), 1 << 20);
            let sz = if sz == u64::MAX { return Err("allocation of unbounded symbolic size".into()) } else { sz };
            let f = st.frames.last().unwrap(); let site = hash2(hash2(f.ctx, f.func as u64), (f.block as u64) << 32 | f.ip as u64);
            let id = self.alloc(st, site, sz, true)?;
            rete!(k(64, (id as u64) << 32))
        }
        if n.contains("___rust_realloc") {
            let p = a[0].e(); let new = self.upper(st, a[3].e(), 1 << 20);
            if new == u64::MAX { return Err("realloc of unbounded symbolic size".into()); }
            let rs = self.resolve(p);
            for &(_, id, _) in rs.iter() { if let Some(ob) = st.objs.get_mut(&id) { if ob.size < new { Rc::make_mut(ob).resize(new); } } }
            rete!(p)
        }
        if n.contains("___rust_dealloc") || n == "free" { self.free(st, a[0].e()); ret!(Val::Undef) }
        match n {
            "memcpy" | "memmove" => { self.memcpy(st, a[0].e(), a[1].e(), a[2].e())?; ret!(a[0].clone()) }
            "memset" => { let b = trunc(a[1].e(), 8); self.memset(st, a[0].e(), b, a[2].e())?; ret!(a[0].clone()) }
            "bcmp" | "memcmp" => {
                let len = a[2].e();
                let hi = self.upper(st, len, 1 << 14);
                if hi == u64::MAX { return Err("memcmp of unbounded symbolic length".into()); }
                let mut r = k(32, 0);
                for i in (0..hi).rev() {
                    let g = ult(k(64, i), len);
                    let (x, y) = (self.load_bytes(st, add(a[0].e(), k(64, i)), 1)?, self.load_bytes(st, add(a[1].e(), k(64, i)), 1)?);
                    let ne = and(g, not(eq(x, y)));
                    let dv = ite(ult(x, y), k(32, 0xffff_ffff), k(32, 1));
                    r = ite(ne, if n == "bcmp" { k(32, 1) } else { dv }, r);
                }
                rete!(r)
            }
            "cos" => rete!(f1(X::FCos, a[0].e())), "sin" => rete!(f1(X::FSin, a[0].e())), "log" => rete!(f1(X::FLn, a[0].e())), "log2" => rete!(f1(X::FLog2, a[0].e())), "exp" => rete!(f1(X::FExp, a[0].e())), "log10" => rete!(f1(X::FLog10, a[0].e())),
            "sqrt" => rete!(f1(X::FSqrt, a[0].e())), "round" => rete!(f1(X::FRound, a[0].e())), "floor" => rete!(f1(X::FFloor, a[0].e())), "ceil" => rete!(f1(X::FCeil, a[0].e())), "pow" => rete!(f2(X::FPow, a[0].e(), a[1].e())), "fmod" => rete!(f2(X::FRem, a[0].e(), a[1].e())),
            // the harness's one file can always be opened and closed
            "open" | "open64" => rete!(k(32, 3)),
            "close" | "fcntl" | "fcntl64" => rete!(k(32, 0)),
            "nd_u8" => { let e = self.inputs_key(st, 8); rete!(e) }
            "nd_u16" => { let e = self.inputs_key(st, 16); rete!(e) }
            "nd_u32" => { let e = self.inputs_key(st, 32); rete!(e) }
            "nd_u64" => { let e = self.inputs_key(st, 64); rete!(e) }
            "nd_bool" => { let e = self.inputs_key(st, 1); rete!(e) }
            // nondeterministic integer with an inclusive upper bound (kept in the value's interval)
            "nd_upto" => {
                let mx = a[0].e().c().ok_or("nd_upto bound")?; let w = (64 - mx.leading_zeros()).max(1) as u8;
                let e = self.inputs_key(st, w);
                if mx != mask(w) { let c = ule(e, k(w, mx)); // (before the bound is known to the simplifier)
                    let c = if c == T { match self.bound_cs.get(&e) { Some(&c) => c, None => return Err("bound".into()) } } else { self.bound_cs.insert(e, c); c }; let (f, m) = self.feasible(st, c); if !f { return Ok(Step::Done); } st.pc.push(c); st.model = m;
                    // the constraint is on the path; later expressions may rely on the bound
                    if let E::S(i) = e { let b = ar().bounds.get(&i).copied(); match b { None => { ar().bounds.insert(i, mx); let o = &mut ar().infos[i as usize]; o.hi = mx; if mx <= mask(w - 1) { o.shi = o.shi.min(mx as i64); o.slo = 0; } }, Some(x) if x != mx => return Err("input drawn with two bounds".into()), _ => {} } } }
                rete!(zext(e, 64))
            }
            // nondeterministic double holding an integer in [-2^(bits-1), 2^(bits-1)) (or [0,2^bits) if unsigned)
            "nd_fint" => { let bits = a[0].e().c().unwrap() as u8; let sg = a[1].e().c().unwrap() == 1; let e = self.inputs_key(st, bits); rete!(stof(e, 64, sg)) }
            "nd_real" => {
                let (lo, hi) = match (asf(a[0].e()), asf(a[1].e())) { (Some(l), Some(h)) => (l, h), _ => return Err("nd_real bounds".into()) };
                let e = self.inputs_key(st, 64);
                let v = e.n().unwrap().a.c().unwrap() as u32;
                ar().reals.insert(v, (lo, hi));
                if self.o.fp != Fp::Real { let c = and(fcmp(X::FLe, fc(lo), e), fcmp(X::FLe, e, fc(hi))); let (f, m) = self.feasible(st, c); if !f { return Ok(Step::Done); } st.pc.push(c); st.model = m; }
                rete!(e)
            }
            "vp_assume" => {
                self.st.assumes += 1;
                let c = a[0].e();
                // an opaque conversion is given the assumed value from here on (what that means for its argument is not kept)
                if self.o.fp == Fp::Uf { if let Some(n) = c.is(X::Eq) { for (x, y) in [(n.a, n.b), (n.b, n.a)] { if x.is(X::FToU).is_some() || x.is(X::FToS).is_some() { Rc::make_mut(&mut st.subst).push((x, y)); ret!(Val::Undef) } } } }
                // nor are comparisons of opaque values decided again
                if self.o.fp == Fp::Uf { let (at, v) = match c.is(X::Xor) { Some(n) if n.b == T => (n.a, F), _ => (c, T) }; if at.is(X::FLt).is_some() || at.is(X::FLe).is_some() || at.is(X::FUno).is_some() { Rc::make_mut(&mut st.subst).push((at, v)); } }
                let (f, m) = self.feasible(st, c);
                if !f { return Ok(Step::Done); }
                if c != T { if !st.pc.contains(&c) { st.pc.push(c); } st.model = m; }
                ret!(Val::Undef)
            }
            "vp_assert" => {
                let c = a[0].e(); let id = a[1].e().c().ok_or("assert id")?;
                self.st.asserts += 1;
                *self.aids.entry(id).or_default() += 1;
                if c == T || st.pc.contains(&c) { self.st.syntactic += 1; ret!(Val::Undef) }
                let mut cs = st.pc.clone(); cs.push(not(c));
                self.st.assert_queries += 1;
                if std::env::var_os("VP_DUMP").is_some() { eprintln!("assert {}: {}", id, crate::expr::show(c, 14)); }
                match self.decide(&cs, &format!("assert{}", id)) {
                    Ok(None) => {}
                    Ok(Some((m, def))) => { self.report(format!("assert:{}", id), format!("assertion {} fails", id), &m, def); 
                        // continue on the side where it holds
                        let (f, m) = self.feasible(st, c); if !f { return Ok(Step::Done); } st.pc.push(c); st.model = m; }
                    Err(e) => { self.errors.push(e); }
                }
                ret!(Val::Undef)
            }
            // the command line of the program, where the standard library keeps it
            "vp_args" => {
                for (part, v) in [("4args4unix3imp4ARGC", a[0].e()), ("4args4unix3imp4ARGV", a[1].e())] {
                    let at: Vec<u64> = self.m.globals.iter().filter(|(n, g)| n.contains(part) && !g.constant).map(|(_, g)| g.addr).collect();
                    if at.len() != 1 { return Err(format!("vp_args: {} places for {}", at.len(), part)); }
                    self.store_bytes(st, k(64, at[0]), v, 8)?;
                }
                ret!(Val::Undef)
            }
            "strlen" => {
                let mut n = 0;
                loop { let c = self.load_bytes(st, add(a[0].e(), k(64, n)), 1)?; match c.c() { Some(0) => break, Some(_) => n += 1, None => return Err("strlen of symbolic text".into()) } }
                rete!(k(64, n))
            }
            "vp_trace" => { st.trace.push(a[0].e()); ret!(Val::Undef) }
            "vp_reach" => {
                let id = a[0].e().c().ok_or("reach id")?;
                if !self.reached.contains(&id) {
                    let pc = st.pc.clone();
                    let m = match &st.model { Some(m) if Self::holds(m, &pc) => Some(m.clone()), _ => match self.decide(&pc, "reach") { Ok(Some((m, true))) => Some(m), _ => None } };
                    if let Some(m) = m { self.reached.insert(id); let inputs = self.input_vals(&m); let trace = st.trace.iter().map(|&e| m.eval(e) as u64).collect(); self.wit.push(Witness { id, inputs, trace }); }
                }
                ret!(Val::Undef)
            }
            // explicit case split over all feasible values 0..=max
            "vp_fork" => {
                let x = a[0].e(); let mx = a[1].e().c().ok_or("fork bound")?;
                if x.is_c() { let t = x.c().unwrap(); st.tag.push(t); rete!(x) }
                let over = ult(k(x.w(), mx), x);
                if self.feasible(st, over).0 { return Err("vp_fork: value above its declared bound".into()); }
                for v in 0..=mx {
                    let c = eq(x, k(x.w(), v));
                    let (f, m) = self.feasible(st, c);
                    if !f { continue; }
                    let mut s = st.clone(); s.pc.push(c); s.model = m; s.tag.push(v);
                    let fr = Rc::make_mut(s.frames.last_mut().unwrap()); if let Some(d) = d { fr.regs[d as usize] = Val::E(k(x.w(), v)); } fr.ip += 1;
                    self.work.push(s);
                }
                self.st.forks += mx;
                return Ok(Step::Fork);
            }
            "vp_log" => { if self.o.verbose { eprintln!("log: {:?}", a.iter().map(|x| x.e()).map(|e| if let Some(c) = e.c() { format!("{}", c) } else { format!("{:?} {:?}", e, e.info()) }).collect::<Vec<_>>()); } ret!(Val::Undef) }
            _ => {}
        }
        let pan = ["panicking", "unwrap_failed", "expect_failed", "slice_index_fail", "handle_error", "handle_alloc_error", "panic_on_ord_violation", "begin_panic", "capacity_overflow", "len_mismatch_fail", "abort", "panic", "slice_error_fail", "_fail"];
        if pan.iter().any(|p| n.contains(p)) {
            // the last pointer argument is usually a &Location
            let mut loc = String::new();
            if let Some(Val::E(E::C(64, p))) = a.last() { if let Some(o) = self.obj(st, (*p >> 32) as u32) { let off = (*p & 0xffff_ffff) as usize; if off + 24 <= o.size as usize && o.is_conc(off, 24) { let f = o.load(off, 8).c().unwrap(); let l = o.load(off + 8, 8).c().unwrap(); let ln = o.load(off + 16, 4).c().unwrap(); if l < 400 && ln < 100000 { loc = format!("{}:{}", self.cstr(st, f, l.saturating_sub(0)), ln); } } } }
            let short = ["panic_const_add_overflow", "panic_const_sub_overflow", "panic_const_mul_overflow", "panic_const_shl_overflow", "panic_const_shr_overflow", "div_by_zero", "rem_by_zero", "panic_bounds_check", "slice_index_fail", "unwrap_failed", "expect_failed", "panic_fmt", "assert_failed", "capacity_overflow", "handle_error"].iter().find(|s| n.contains(**s)).map(|s| s.to_string()).unwrap_or_else(|| "panic".into());
            return self.panic_path(st, format!("{} {}", short, loc));
        }
        let _ = self.fresh;
        Err(match self.m.bad.get(&n.to_string()) { Some(m) => format!("function {} could not be parsed: {}", n, m), None => format!("unsupported external function {}", n) })
    }
}

fn popcount(x: E) -> E {
    let w = x.w();
    if let Some(c) = x.c128() { return kk(w, c.count_ones() as u128); }
    // adder tree over the bits
    let mut v: Vec<E> = (0..w).map(|i| extract(x, i, 1)).filter(|e| *e != F).collect();
    if v.is_empty() { return kk(w, 0); }
    while v.len() > 1 {
        let mut nv = vec![];
        let mut i = 0;
        while i < v.len() { if i + 1 < v.len() { let nw = v[i].w().max(v[i + 1].w()) + 1; let (p, q) = (zext(v[i], nw), zext(v[i + 1], nw)); nv.push(add(p, q)); } else { nv.push(v[i]); } i += 2; }
        v = nv;
    }
    if v[0].w() > w { trunc(v[0], w) } else { zext(v[0], w) }
}
