include!("../prelude.rs");
use crate::{match_fingerprints, Configuration, Segment};

fn arr<const N: usize>() -> [u32; N] { let mut a = [0; N]; for x in a.iter_mut() { *x = vp::u32(); } a }
fn run(a: &[u32], b: &[u32], id: u32) -> Vec<Segment> {
    let r = match_fingerprints(a, b, &Configuration::default());
    vp::assert(r.is_ok(), id);
    r.unwrap_or_default()
}
fn well_formed(s: &[Segment], n1: usize, n2: usize, id: u32) {
    let mut e1 = 0;
    for i in 0..s.len() {
        let g = &s[i];
        vp::assert(g.items_count >= 1, id + 1);
        vp::assert(g.offset1 <= n1 && g.items_count <= n1 - g.offset1, id + 2);
        vp::assert(g.offset2 <= n2 && g.items_count <= n2 - g.offset2, id + 3);
        vp::assert(g.offset1 >= e1, id + 4);
        e1 = g.offset1 + g.items_count;
        if i > 0 { vp::assert(g.offset1 + s[0].offset2 == g.offset2 + s[0].offset1, id + 5); }
    }
}
fn scored(s: &[Segment], id: u32) { for g in s { vp::assert(g.score >= 0.0, id + 7); vp::assert(g.score < 10.0, id + 8); } }
fn t_wf<const A: usize, const B: usize>(id: u32) {
    let a = arr::<A>(); let b = arr::<B>();
    let s = run(&a, &b, id);
    well_formed(&s, A, B, id); scored(&s, id);
    vp::trace(s.len() as u64);
    if s.len() > 0 { vp::reach(id); }
}
/// items whose hashes are concrete and agree on the diagonal offset1 - offset2 = SH only; the other 20 bits are arbitrary
fn seg_arr<const N: usize>(first: u32) -> [u32; N] { let mut a = [0; N]; for (i, x) in a.iter_mut().enumerate() { *x = vp::u32() & 0xfffff | (first + i as u32) << 20; } a }
fn t_seg<const A: usize, const B: usize>(first1: u32, first2: u32, id: u32) {
    let a = seg_arr::<A>(first1); let b = seg_arr::<B>(first2);
    let s = run(&a, &b, id);
    well_formed(&s, A, B, id);
    for g in &s { vp::assert(g.offset1 + first1 as usize == g.offset2 + first2 as usize, id + 6); }
    vp::trace(s.len() as u64);
    if s.len() > 0 { vp::reach(id); }
    if s.len() > 1 { vp::reach(id + 1); }
}
/// one symbolic hash bit per item
fn bit_arr<const N: usize>() -> [u32; N] { let mut a = [0; N]; for x in a.iter_mut() { *x = vp::u32() & 0x000f_ffff | (vp::u8() as u32 & 1) << 26; } a }
fn t_bit<const A: usize, const B: usize>(id: u32) {
    let a = bit_arr::<A>(); let b = bit_arr::<B>();
    let s = run(&a, &b, id);
    well_formed(&s, A, B, id); scored(&s, id);
    vp::trace(s.len() as u64);
    if s.len() > 0 { vp::reach(id); }
}
/// every assignment of two hash values to the items, one case each
fn t_ws<const A: usize, const B: usize>(id: u32) {
    let a = split_arr::<A>(); let b = split_arr::<B>();
    let s = run(&a, &b, id);
    well_formed(&s, A, B, id); scored(&s, id);
    vp::trace(s.len() as u64);
    if s.len() > 0 { vp::reach(id); }
}
fn t_wseg<const N: usize>(first: u32, id: u32) {
    let s = run(&seg_arr::<N>(first), &seg_arr::<N>(first), id);
    well_formed(&s, N, N, id); scored(&s, id);
    if s.len() > 0 { vp::reach(id); }
}
/// pairs of arbitrary items (but for the hashes) that differ in a given number of bits each, some in one more or fewer
fn t_pat<const N: usize>(p: [u32; N], every: usize, score: bool, id: u32) {
    let b = seg_arr::<N>(3); let mut a = b;
    for i in 0..N { a[i] ^= (1 << p[i]) - 1; if i % every == 1 { a[i] ^= (vp::len(1) as u32) << (p[i] / 2); } }
    if score { return t_score(&a, &b, id) }
    let s = run(&a, &b, id);
    well_formed(&s, N, N, id); scored(&s, id);
    if s.len() > 0 { vp::reach(id); }
}
// profiles on which adjacent segments of different lengths are merged
const P14: [u32; 14] = [0, 0, 0, 16, 16, 16, 2, 2, 2, 2, 13, 13, 13, 16];
const P15: [u32; 15] = [12, 8, 0, 0, 0, 0, 4, 7, 6, 14, 14, 19, 19, 12, 0];
const P18: [u32; 18] = [6, 6, 6, 7, 7, 15, 9, 1, 1, 1, 1, 1, 1, 16, 16, 16, 16, 5];
const P22: [u32; 22] = [1, 1, 1, 1, 1, 1, 1, 1, 0, 13, 13, 13, 1, 1, 1, 1, 1, 1, 1, 1, 19, 10];
const P31: [u32; 31] = [10, 10, 10, 9, 9, 5, 5, 5, 2, 2, 2, 2, 2, 11, 11, 11, 19, 19, 0, 0, 0, 0, 0, 15, 15, 16, 3, 3, 3, 18, 18];
// ---- self match ----
fn check_self(a: &[u32], id: u32) {
    let s = run(a, a, id);
    vp::assert(s.len() == 1, id + 1);
    if s.len() == 1 {
        vp::assert(s[0].offset1 == 0 && s[0].offset2 == 0, id + 2);
        vp::assert(s[0].items_count == a.len(), id + 3);
        vp::assert(s[0].score == 0.0, id + 4);
        vp::reach(id);
    }
}
// ---- alignment optimality ----
/// pairs of items agreeing in the top 12 bits for every difference d = offset1 - offset2 + B
fn counts<const A: usize, const B: usize, const D: usize>(a: &[u32; A], b: &[u32; B]) -> [u32; D] {
    let mut c = [0; D];
    for i in 0..A { for j in 0..B { c[i + B - j] += (a[i] >> 20 == b[j] >> 20) as u32; } }
    c
}
fn t_best<const A: usize, const B: usize, const D: usize>(a: [u32; A], b: [u32; B], alike: bool, id: u32) {
    let c = counts::<A, B, D>(&a, &b);
    let mut max = 0;
    for &x in &c { if x > max { max = x; } }
    let s = run(&a, &b, id);
    for g in &s {
        vp::assert(max >= 2, id + 1);
        vp::assert(g.offset1 + B >= g.offset2 && g.offset1 + B - g.offset2 < D, id + 2);
        if g.offset1 + B >= g.offset2 && g.offset1 + B - g.offset2 < D { vp::assert(c[g.offset1 + B - g.offset2] == max, id + 3); }
    }
    if s.len() > 0 { vp::reach(id); }
    if alike && max >= 2 && c.iter().filter(|&&x| x == max).count() == 1 { vp::assert(s.len() > 0, id + 4); }
}
/// every assignment of K hash values to the items, one case each; the other 20 bits are arbitrary, but the same for all items
fn cls_arr<const N: usize>(low: u32, k: usize, fix: bool) -> [u32; N] { let mut a = [0; N]; for (i, x) in a.iter_mut().enumerate() { *x = low & 0xfffff | if i == 0 && fix { 0 } else { vp::len(k - 1) as u32 } << 26; } a }
fn t_cls<const A: usize, const B: usize, const D: usize>(k: usize) { let low = vp::u32(); t_best::<A, B, D>(cls_arr(low, k, k == 2), cls_arr(low, k, false), true, 500) }
/// every assignment of two hash values to the items, one case each; the other 20 bits stay symbolic
fn split_arr<const N: usize>() -> [u32; N] { let mut a = [0; N]; for x in a.iter_mut() { let low = vp::u32() & 0xfffff; *x = low | (vp::len(1) as u32) << 26; } a }
/// items of one hash value; in one of them some other bits are arbitrary
fn alike_arr<const N: usize>() -> [u32; N] { let mut a = [0; N]; for (i, x) in a.iter_mut().enumerate() { *x = if i == N / 2 { vp::u32() & 3 } else { i as u32 % 3 }; } a }
/// distinct hashes and fixed low bits, a few of them arbitrary
fn numbered<const N: usize>(first: u32) -> [u32; N] { let mut a = [0; N]; for (i, x) in a.iter_mut().enumerate() { let n = first + i as u32; *x = n << 20 | if i == 50 || i == 200 { vp::u32() & 3 } else { n % 5 }; } a }
fn split3_arr<const N: usize>() -> [u32; N] { let mut a = [0; N]; for x in a.iter_mut() { let low = vp::u32() & 0xfffff; *x = low | (vp::len(2) as u32) << 26; } a }
// ---- scores ----
fn t_score(a: &[u32], b: &[u32], id: u32) {
    let s = run(a, b, id);
    for g in &s {
        let mut bits = 0;
        for i in 0..g.items_count { bits += (a[g.offset1 + i] ^ b[g.offset2 + i]).count_ones(); }
        vp::assert(vp::near(g.score * g.items_count as f64, bits as f64, 1e-6), id + 1);
    }
    vp::trace(s.len() as u64);
    if s.len() > 0 { vp::reach(id); }
    if s.len() > 1 { vp::reach(id + 1); }
}
/// items on a fixed alignment in blocks of K whose low bits are equal, with any number of ones from 0 to 19 in each
fn blk_arr<const N: usize, const K: usize>(first: u32) -> [u32; N] {
    let mut a = [0; N]; let mut v = 0;
    for (i, x) in a.iter_mut().enumerate() {
        if i % K == 0 { let r = vp::u8() as u32; v = (r & 1) | (r >> 1 & 1) * 0x6 | (r >> 2 & 1) * 0x78 | (r >> 3 & 1) * 0x7f80 | (r >> 4 & 1) * 0x78000; }
        *x = v | (first + i as u32) << 20;
    }
    a
}
/// as before with two symbolic blocks of K items, followed by items without ones
fn blk2_arr<const N: usize, const K: usize>(first: u32) -> [u32; N] { let mut a = blk_arr::<N, K>(first); for (i, x) in a.iter_mut().enumerate() { if i >= 2 * K { *x = (first + i as u32) << 20; } } a }
fn zero_arr<const N: usize>(first: u32) -> [u32; N] { let mut a = [0; N]; for (i, x) in a.iter_mut().enumerate() { *x = (first + i as u32) << 20; } a }
// ---- a unique alignment without abrupt changes is found ----
fn t_found<const A: usize, const B: usize>(first1: u32, first2: u32, id: u32) {
    let a = blk_arr::<A, 1000>(first1); let b = zero_arr::<B>(first2);
    let pop = (a[0] & 0xfffff).count_ones();
    let (o1, o2) = (first2.saturating_sub(first1) as usize, first1.saturating_sub(first2) as usize);
    let n = (A - o1).min(B - o2);
    let s = run(&a, &b, id);
    if pop < 10 { vp::assert(s.len() == 1, id + 1); }
    if pop > 10 { vp::assert(s.len() == 0, id + 4); }
    if s.len() == 1 {
        vp::assert(s[0].offset1 == o1 && s[0].offset2 == o2 && s[0].items_count == n, id + 2);
        vp::assert(vp::near(s[0].score, pop as f64, 1e-9), id + 3);
        vp::reach(id);
    } else { vp::reach(id + 1); }
}
// ---- too long fingerprints ----
fn slice<'a>(p: *const u32, n: usize) -> &'a [u32] { unsafe { std::slice::from_raw_parts(p, n) } }
fn idx(r: Result<Vec<Segment>, crate::MatchError>) -> u32 { match r { Ok(_) => 9, Err(crate::MatchError::FingerprintTooLong { index }) => index as u32 } }
const LIM: usize = 524286;
const BUF: usize = LIM + 5;
/// never read before the lengths have been judged; the native replay needs real items with varying hashes
fn buf() -> *const u32 {
    #[cfg(vp_ir)]
    { static Z: u32 = 0; &Z }
    #[cfg(not(vp_ir))]
    { Box::leak((0..BUF as u32).map(|i| i << 20).collect::<Vec<_>>().into_boxed_slice()).as_ptr() }
}
fn t_long(max: usize, first: bool, id: u32) {
    let (n1, n2) = (vp::u64() as usize, vp::u64() as usize);
    vp::assume(n1 <= max && n2 <= max);
    vp::assume(if first { n1 >= LIM } else { n1 < LIM && n2 >= LIM });
    let z = buf();
    vp::assert(idx(match_fingerprints(slice(z, n1), slice(z, n2), &Configuration::default())) == !first as u32, id + 1);
    vp::reach(id);
}
// ---- times ----
fn t_times(id: u32) {
    let p = vp::len(4);
    let (o1, o2, n) = (vp::upto(524286) as usize, vp::upto(524286) as usize, vp::upto(524286) as usize);
    let c = match p { 0 => Configuration::preset_test1(), 1 => Configuration::preset_test2(), 2 => Configuration::preset_test3(), 3 => Configuration::preset_test4(), _ => Configuration::preset_test5() };
    vp::assume(n >= 1);
    let item = c.item_duration_in_seconds() as f64;
    let g = Segment { offset1: o1, offset2: o2, items_count: n, score: 0.0 };
    let eq = |x: f32, want: f64, k: u32| { vp::assert(vp::near(x as f64, want, want * 1e-6 + 1e-9), id + k) };
    eq(g.start1(&c), item * o1 as f64, 1);
    eq(g.start2(&c), item * o2 as f64, 2);
    eq(g.duration(&c), item * n as f64, 3);
    eq(g.end1(&c), item * (o1 as f64 + n as f64), 4);
    eq(g.end2(&c), item * (o2 as f64 + n as f64), 5);
    vp::assert(g.start1(&c) <= g.end1(&c) && g.start2(&c) <= g.end2(&c), id + 6);
    vp::reach(id);
}
h! {
h_found88 { t_found::<8, 8>(3, 3, 640) }
h_found812 { t_found::<8, 12>(5, 3, 640) }
h_found129 { t_found::<12, 9>(1, 3, 640) }
h_long0 { t_long(BUF, true, 700) }
h_long0w { t_long(1 << 40, true, 700) }
h_long1 { t_long(BUF, false, 710) }
h_long1w { t_long(1 << 40, false, 710) }
h_longok {
    let (n1, n2) = (vp::u64() as usize, vp::u64() as usize);
    vp::assume(n1 < LIM); vp::assume(n2 < LIM);
    let z = buf();
    let r = match_fingerprints(slice(z, n1), slice(z, n2), &Configuration::default());
    vp::assert(r.is_ok(), 721);
    vp::reach(720);
}
h_times { t_times(740) }
h_wblk16 { let a = blk_arr::<16, 8>(3); let s = run(&a, &zero_arr::<16>(3), 200); well_formed(&s, 16, 16, 200); scored(&s, 200); if s.len() > 0 { vp::reach(200) } if s.len() > 1 { vp::reach(201) } }
h_wblk24 { let a = blk_arr::<24, 12>(3); let s = run(&a, &zero_arr::<24>(3), 200); well_formed(&s, 24, 24, 200); scored(&s, 200); if s.len() > 0 { vp::reach(200) } if s.len() > 1 { vp::reach(201) } }
h_blk16 { t_score(&blk_arr::<16, 8>(3), &zero_arr::<16>(3), 600) }
h_blk24 { t_score(&blk_arr::<24, 12>(3), &zero_arr::<24>(3), 600) }
h_blk24c { t_score(&blk_arr::<24, 8>(3), &zero_arr::<24>(3), 600) }
h_score22 { t_score(&arr::<2>(), &arr::<2>(), 600) }
h_score33 { t_score(&bit_arr::<3>(), &bit_arr::<3>(), 600) }
h_sseg44 { t_score(&seg_arr::<4>(0), &seg_arr::<4>(0), 600) }
h_sseg66 { t_score(&seg_arr::<6>(3), &seg_arr::<6>(5), 600) }
h_sseg88 { t_score(&seg_arr::<8>(3), &seg_arr::<8>(3), 600) }
h_bests44 { t_best::<4, 4, 8>(split_arr(), split_arr(), false, 500) }
h_bests53 { t_best::<5, 3, 8>(split_arr(), split_arr(), false, 500) }
h_cls55 { t_cls::<5, 5, 10>(2) }
h_cls65 { t_cls::<6, 5, 11>(2) }
h_cls57 { t_cls::<5, 7, 12>(2) }
h_cls66 { t_cls::<6, 6, 12>(2) }
h_cls44 { t_cls::<4, 4, 8>(3) }
h_wseg44 { t_wseg::<4>(0, 200) }
h_wseg66 { t_wseg::<6>(3, 200) }
h_wseg88 { t_wseg::<8>(3, 200) }
h_wpat14 { t_pat(P14, 2, false, 200) }
h_wpat22 { t_pat(P22, 3, false, 200) }
h_pat14 { t_pat(P14, 2, true, 600) }
h_pat15 { t_pat(P15, 2, true, 600) }
h_pat18 { t_pat(P18, 3, true, 600) }
h_pat22 { t_pat(P22, 3, true, 600) }
h_pat31 { t_pat(P31, 5, true, 600) }
h_bests36 { t_best::<3, 6, 9>(split_arr(), split_arr(), false, 500) }

h_wf22 { t_wf::<2, 2>(100) }
h_wf33 { t_wf::<3, 3>(100) }
h_wf34 { t_wf::<3, 4>(100) }
h_self2 { check_self(&arr::<2>(), 400) }
h_self3 { check_self(&arr::<3>(), 400) }
h_self4 { check_self(&bit_arr::<4>(), 400) }
h_self5 { check_self(&split_arr::<5>(), 400) }
h_self6 { check_self(&split_arr::<6>(), 400) }
h_self7 { check_self(&split_arr::<7>(), 400) }
h_self10 { check_self(&split_arr::<10>(), 400) }
h_selfeq300 { check_self(&alike_arr::<300>(), 400) }
h_selfs6 { check_self(&split3_arr::<6>(), 400) }
h_selfseg150 { check_self(&seg_arr::<150>(3), 400) }
h_bit44f { t_ws::<4, 4>(300) }
h_bit45f { t_ws::<4, 5>(300) }
h_bit55f { t_ws::<5, 5>(300) }
h_selfs4 { check_self(&split3_arr::<4>(), 400) }
h_selfseg12 { check_self(&seg_arr::<12>(3), 400) }
h_selfseg40 { check_self(&seg_arr::<40>(3), 400) }
h_bestmany { t_best::<300, 280, 580>(alike_arr(), { let mut b = alike_arr::<280>(); for x in b.iter_mut().skip(270) { *x |= 9 << 20; } b }, false, 500) }
h_foundlong { t_best::<300, 290, 590>(numbered(0), numbered(20), true, 500) }
h_best23 { t_best::<2, 3, 5>(arr(), arr(), false, 500) }
h_best33 { t_best::<3, 3, 6>(arr(), arr(), false, 500) }
h_bestb44 { t_best::<4, 4, 8>(bit_arr(), bit_arr(), false, 500) }

h_seg44 { t_seg::<4, 4>(0, 0, 200) }
h_seg66 { t_seg::<6, 6>(3, 5, 200) }
h_seg86 { t_seg::<8, 6>(3, 2, 200) }
h_bit33 { t_bit::<3, 3>(300) }
h_bit44 { t_bit::<4, 4>(300) }

}
entries!(h_bestmany, h_foundlong, h_cls55, h_cls65, h_cls57, h_cls66, h_cls44, h_wseg44, h_wseg66, h_wseg88, h_wpat14, h_wpat22, h_pat14, h_pat15, h_pat18, h_pat22, h_pat31, h_wblk16, h_wblk24, h_found88, h_found812, h_found129, h_long0, h_long0w, h_long1, h_long1w, h_longok, h_times, h_blk16, h_blk24, h_blk24c, h_score22, h_score33, h_sseg44, h_sseg66, h_sseg88, h_wf22, h_wf33, h_wf34, h_bests44, h_bests53, h_bests36, h_self2, h_self3, h_self4, h_self5, h_self6, h_self10, h_selfs6, h_selfeq300, h_selfseg150, h_bit44f, h_bit45f, h_bit55f, h_selfs4, h_self7, h_selfs4, h_selfseg12, h_selfseg40, h_best23, h_best33, h_bestb44, h_seg44, h_seg66, h_seg86, h_bit33, h_bit44);
