//! Control-flow analysis: Bourdoncle weak topological order and liveness.
use crate::ir::*;

pub struct Cfg {
    pub path: Vec<Vec<u32>>,  // position of each block in the weak topological order, one index per nesting level
    pub head: Vec<bool>,      // block is the head of its innermost component
    pub npred: Vec<u32>,
    pub live: Vec<Vec<u64>>,  // registers live at block entry, after the phis
}

pub fn succs(b: &Block) -> Vec<u32> {
    match b.ins.last() {
        Some(Ins::Br(t)) => vec![*t],
        Some(Ins::CBr(_, a, c)) => vec![*a, *c],
        Some(Ins::Switch(_, d, v)) => { let mut r = vec![*d]; r.extend(v.iter().map(|x| x.1)); r.sort(); r.dedup(); r }
        _ => vec![],
    }
}

struct Wto<'a> { succ: &'a [Vec<u32>], dfn: Vec<u32>, num: u32, stack: Vec<u32> }
enum El { V(u32), C(u32, Vec<El>) }
const INF: u32 = u32::MAX;
impl<'a> Wto<'a> {
    fn visit(&mut self, v: u32, part: &mut Vec<El>) -> u32 {
        self.stack.push(v);
        self.num += 1;
        self.dfn[v as usize] = self.num;
        let mut head = self.num;
        let mut isloop = false;
        for &s in &self.succ[v as usize] {
            let m = if self.dfn[s as usize] == 0 { self.visit(s, part) } else { self.dfn[s as usize] };
            if m <= head { head = m; isloop = true; }
        }
        if head == self.dfn[v as usize] {
            self.dfn[v as usize] = INF;
            let mut e = self.stack.pop().unwrap();
            if isloop {
                while e != v { self.dfn[e as usize] = 0; e = self.stack.pop().unwrap(); }
                let mut p = vec![];
                for &s in &self.succ[v as usize] { if self.dfn[s as usize] == 0 { self.visit(s, &mut p); } }
                p.reverse();
                part.push(El::C(v, p));
            } else { part.push(El::V(v)); }
        }
        head
    }
}
fn number(els: &[El], pre: &mut Vec<u32>, base: u32, path: &mut Vec<Vec<u32>>, head: &mut Vec<bool>) {
    for (i, e) in els.iter().enumerate() {
        let ix = i as u32 + base;
        pre.push(ix);
        match e {
            El::V(v) => path[*v as usize] = pre.clone(),
            El::C(h, p) => { pre.push(0); path[*h as usize] = pre.clone(); head[*h as usize] = true; pre.pop(); number(p, pre, 1, path, head); }
        }
        pre.pop();
    }
}

fn uses_op(o: &Op_, f: &mut dyn FnMut(u32)) { if let Op_::R(r) = o { f(*r) } }
pub fn uses(i: &Ins, f: &mut dyn FnMut(u32)) {
    match i {
        Ins::Bin(_, _, a, b) | Ins::ICmp(_, _, a, b) | Ins::FCmp(_, _, a, b) | Ins::Store(_, a, b) | Ins::ExtElem(_, a, b) | Ins::Shuf(_, a, b, _, _) | Ins::Insert(_, a, b, _, _) | Ins::AtomicRmw(_, _, a, b) => { uses_op(a, f); uses_op(b, f); }
        Ins::Select(_, a, b, c) | Ins::InsElem(_, a, b, c, _) | Ins::CmpXchg(_, a, b, c) => { uses_op(a, f); uses_op(b, f); uses_op(c, f); }
        Ins::FNeg(_, a) | Ins::Cast(_, _, a, _) | Ins::Load(_, _, a) | Ins::Extract(_, a, _) | Ins::Freeze(_, a, _) | Ins::CBr(a, _, _) | Ins::Switch(a, _, _) | Ins::Ret(Some(a)) => uses_op(a, f),
        Ins::Gep(_, b, _, ix) => { uses_op(b, f); for (o, _) in ix { uses_op(o, f); } }
        Ins::Call(_, fo, _, args, _) => { uses_op(fo, f); for (_, a) in args { uses_op(a, f); } }
        _ => {}
    }
}
pub fn def(i: &Ins) -> Option<u32> {
    match i {
        Ins::Bin(_, d, ..) | Ins::ICmp(_, d, ..) | Ins::FCmp(_, d, ..) | Ins::FNeg(d, ..) | Ins::Select(d, ..) | Ins::Cast(_, d, ..) | Ins::Load(d, ..) | Ins::Gep(d, ..) | Ins::Alloca(d, ..) | Ins::Extract(d, ..) | Ins::Insert(d, ..) | Ins::ExtElem(d, ..) | Ins::InsElem(d, ..) | Ins::Shuf(d, ..) | Ins::Freeze(d, ..) | Ins::AtomicRmw(_, d, ..) | Ins::CmpXchg(d, ..) => Some(*d),
        Ins::Call(d, ..) => *d,
        _ => None,
    }
}

pub fn build(f: &Func) -> Cfg {
    let n = f.blocks.len();
    let succ: Vec<Vec<u32>> = f.blocks.iter().map(succs).collect();
    let mut w = Wto { succ: &succ, dfn: vec![0; n], num: 0, stack: vec![] };
    let mut part = vec![];
    w.visit(0, &mut part);
    part.reverse();
    let mut path = vec![vec![]; n]; let mut head = vec![false; n];
    number(&part, &mut vec![], 0, &mut path, &mut head);
    let mut npred = vec![0; n];
    for s in &succ { for &t in s { npred[t as usize] += 1; } }
    // liveness
    let words = (f.nregs as usize + 63) / 64;
    let mut gen = vec![vec![0u64; words]; n]; let mut kill = vec![vec![0u64; words]; n]; let mut phid = vec![vec![0u64; words]; n];
    for (bi, b) in f.blocks.iter().enumerate() {
        for p in &b.phis { phid[bi][p.dst as usize / 64] |= 1 << (p.dst % 64); }
        for i in &b.ins {
            let (g, kl) = (&mut gen[bi], &kill[bi]);
            uses(i, &mut |r| if kl[r as usize / 64] >> (r % 64) & 1 == 0 { g[r as usize / 64] |= 1 << (r % 64) });
            if let Some(d) = def(i) { kill[bi][d as usize / 64] |= 1 << (d % 64); }
        }
    }
    let mut live = gen.clone();
    let mut changed = true;
    while changed {
        changed = false;
        for bi in (0..n).rev() {
            let mut o = vec![0u64; words];
            for &s in &succ[bi] {
                for x in 0..words { o[x] |= live[s as usize][x] & !phid[s as usize][x]; }
                for p in &f.blocks[s as usize].phis { for (pb, v) in &p.inc { if *pb as usize == bi { if let Op_::R(r) = v { o[*r as usize / 64] |= 1 << (r % 64); } } } }
            }
            for x in 0..words { let v = live[bi][x] | (o[x] & !kill[bi][x]); if v != live[bi][x] { live[bi][x] = v; changed = true; } }
        }
    }
    Cfg { path, head, npred, live }
}
