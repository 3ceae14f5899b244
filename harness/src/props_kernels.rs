//! C12, C15: vector kernels and allocators.
use bitboost::bitblock::BitBlocks;
use bitboost::bitset::Bitset;
use bitboost::bitslice::{Bitslice, BitsliceLayout, BitsliceLayout1, BitsliceLayout2, BitsliceLayout4, BitsliceLayout8};
use bitboost::count_and_sum::*;
use bitboost::slice_store::{BitBlockStore, BitSliceLayout, BitSliceLayout1, BitSliceLayout2, BitSliceLayout4, BitSliceLayout8,
    HistStore, SliceRange, SliceStore};
use vengine::*;

use crate::props_bits::*;

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C12", run: c12, quick: 200000, thorough: 5000000,
            rule: "a count or sum lies strictly between zero and its maximum",
            assumptions: &["index lists strictly increasing, padded with index 0 and empty masks to whole bit blocks, as compression makes them"] },
        Prop { id: "C15", run: c15, quick: 900000, thorough: 20000000,
            rule: "a freed slice's memory is reused or the store outgrows its initial capacity while another slice is live",
            assumptions: &["slices are freed once and not used afterwards; lengths of at least one element"] },
    ]
}

// ---- C12 ---------------------------------------------------------------------------------------

fn to_blocks(b: &[bool]) -> BitBlocks {
    let w = words32(b);
    BitBlocks::from_iter(w.len(), w.into_iter())
}

fn naive_sum(vals: &[u8], sel: &dyn Fn(usize) -> bool) -> u64 { vals.iter().enumerate().filter(|&(i, _)| sel(i)).map(|(_, &v)| v as u64).sum() }

macro_rules! by_width { ($w:expr, $f:ident $args:tt) => { match $w { 1 => by_width!(@ $f BitSliceLayout1 BitsliceLayout1 $args), 2 => by_width!(@ $f BitSliceLayout2 BitsliceLayout2 $args),
    4 => by_width!(@ $f BitSliceLayout4 BitsliceLayout4 $args), _ => by_width!(@ $f BitSliceLayout8 BitsliceLayout8 $args) } };
    (@ $f:ident $a:ident $b:ident ($($x:expr),*)) => { $f::<$a, $b>($($x),*) } }

struct Kernels {
    s00: fn(&BitBlocks, &BitBlocks, &BitBlocks) -> u64,
    s10: fn(&BitBlocks, &BitBlocks, &BitBlocks, &BitBlocks) -> u64,
    s11: fn(&BitBlocks, &BitBlocks, &BitBlocks, &BitBlocks, &BitBlocks) -> u64,
}

fn kernels(w: usize) -> Kernels {
    match w {
        1 => Kernels { s00: sum_and3_w1_c00, s10: sum_and3_w1_c10, s11: sum_and3_w1_c11 },
        2 => Kernels { s00: sum_and3_w2_c00, s10: sum_and3_w2_c10, s11: sum_and3_w2_c11 },
        4 => Kernels { s00: sum_and3_w4_c00, s10: sum_and3_w4_c10, s11: sum_and3_w4_c11 },
        _ => Kernels { s00: sum_and3_w8_c00, s10: sum_and3_w8_c10, s11: sum_and3_w8_c11 },
    }
}

/// n values of the given width, in several patterns.
fn values(src: &mut Src, n: usize, w: usize) -> Vec<u8> {
    let max = ((1u32 << w) - 1) as u8;
    let style = src.weighted(&[40, 10, 5, 15, 15, 15]);
    let mut r = src.sub();
    let period = 1 + r.below(40) as usize;
    let lane = 1u8 << r.below(w as u64);
    (0..n).map(|i| match style {
        0 => r.below(1 << w) as u8,
        1 => max,
        2 => 0,
        3 => lane,
        4 => if i % period == 0 { max } else { 0 },
        _ => if r.chance(0.9) { max } else { r.below(1 << w) as u8 },
    }).collect()
}

fn sums<L: BitSliceLayout + 'static, M: BitsliceLayout>(src: &mut Src, w: usize, n: usize, a: &[bool], b: &[bool], idx: &[u32], idx2: &[u32]) -> Result<(u64, u64), String> {
    let k = kernels(w);
    let vals = values(src, n, w);
    let m32 = n / 32;
    // uncompressed, both implementations
    let ((sa, ra), (sb, rb)) = (own_bits(a), own_bits(b));
    let mut st = tight(n / 256 * w);
    let rs = st.alloc_zero_bitslice::<L>(n);
    let mut old = Bitslice::new();
    {
        let mut s = st.get_bitslice_mut::<L>(rs);
        let mut o = old.with_layout_mut::<M>();
        o.resize(n);
        for i in 0..n { s.set_value(i, vals[i]); o.set_value(i, vals[i]); }
    }
    let (ba, bb) = (to_blocks(a), to_blocks(b));
    let exp = naive_sum(&vals, &|i| a[i] && b[i]);
    let got = st.get_bitslice::<L>(rs).sum_all_masked2(&sa.get_bitvec(ra), &sb.get_bitvec(rb));
    ensure!(got == exp, "sum_all_masked2 of width {} over {} values is {} instead of {}", w, n, got, exp);
    let got = (k.s00)(old.as_bitblocks(), &ba, &bb);
    ensure!(got == exp, "sum_and3_w{}_c00 over {} values is {} instead of {}", w, n, got, exp);
    // block sums
    let wa = words32(a);
    {
        let s = st.get_bitslice::<L>(rs);
        let q = src.range(0, m32 - 1);
        let e = naive_sum(&vals[q * 32..q * 32 + 32], &|i| a[q * 32 + i]);
        let g = s.sum_masked(q, wa[q]);
        ensure!(g as u64 == e, "sum_masked of width {} of block {} with {:x} is {} instead of {}", w, q, wa[q], g, e);
        let bd = *src.pick(&[(0.0f32, 1.0f32), (-1.0, 1.0), (-1.25, 1.25), (3.0, 5.5), (-7.0, -2.0)]);
        let (x, c) = s.sum_scaled_masked(q, wa[q], bd);
        let mx = ((1u32 << w) - 1) as f64;
        let ex: f64 = (0..32).filter(|&i| a[q * 32 + i]).map(|i| vals[q * 32 + i] as f64 / mx * (bd.1 as f64 - bd.0 as f64) + bd.0 as f64).sum();
        ensure!(c == wa[q].count_ones() && (x as f64 - ex).abs() <= 1e-4, "sum_scaled_masked of width {} gives {} over {} values instead of {} over {}", w, x, c, ex, wa[q].count_ones());
    }
    // compressed: the mask and the values of the blocks listed in idx
    let padded = (idx.len() + 7) / 8 * 8;
    let (mut ca, mut cv) = (vec![false; padded * 32], vec![0u8; padded * 32]);
    for (p, &g) in idx.iter().enumerate() { for j in 0..32 { ca[p * 32 + j] = a[g as usize * 32 + j]; cv[p * 32 + j] = vals[g as usize * 32 + j]; } }
    let dirty = src.chance(1, 3);
    let exp_c: u64 = naive_sum(&vals, &|i| idx.binary_search(&((i / 32) as u32)).is_ok() && a[i] && b[i]);
    let ((sca, rca), (si, ri)) = (own_bits(&ca), own_list(padded, idx));
    let mut scs = tight((padded * 32 + 255) / 256 * w);
    let rcs = scs.alloc_zero_bitslice::<L>(padded * 32);
    let mut cold = Bitslice::new();
    {
        let mut s = scs.get_bitslice_mut::<L>(rcs);
        let mut o = cold.with_layout_mut::<M>();
        o.resize(padded * 32);
        for i in 0..padded * 32 {
            // values outside of the listed blocks do not matter
            let v = if dirty && i >= idx.len() * 32 { ((1u32 << w) - 1) as u8 } else { cv[i] };
            s.set_value(i, v);
            o.set_value(i, v);
        }
    }
    let got = scs.get_bitslice::<L>(rcs).sum_all_masked2_compr(&si.get_bitvec(ri), &sca.get_bitvec(rca), &sb.get_bitvec(rb));
    ensure!(got == exp_c, "sum_all_masked2_compr of width {} over {} of {} blocks is {} instead of {}", w, idx.len(), m32, got, exp_c);
    let (bi, bca) = (BitBlocks::from_iter(padded, idx.iter().cloned()), to_blocks(&ca));
    let got = (k.s10)(cold.as_bitblocks(), &bi, &bca, &bb);
    ensure!(got == exp_c, "sum_and3_w{}_c10 over {} of {} blocks is {} instead of {}", w, idx.len(), m32, got, exp_c);
    // both compressed
    let padded2 = (idx2.len() + 7) / 8 * 8;
    let mut cb = vec![false; padded2 * 32];
    for (p, &g) in idx2.iter().enumerate() { for j in 0..32 { cb[p * 32 + j] = b[g as usize * 32 + j]; } }
    let (bi2, bcb) = (BitBlocks::from_iter(padded2, idx2.iter().cloned()), to_blocks(&cb));
    let exp_2: u64 = naive_sum(&vals, &|i| { let g = (i / 32) as u32; idx.binary_search(&g).is_ok() && idx2.binary_search(&g).is_ok() && a[i] && b[i] });
    let got = (k.s11)(cold.as_bitblocks(), &bi, &bca, &bi2, &bcb);
    ensure!(got == exp_2, "sum_and3_w{}_c11 over {} and {} of {} blocks is {} instead of {}", w, idx.len(), idx2.len(), m32, got, exp_2);
    Ok((exp_c, ((1u64 << w) - 1) * n as u64))
}

fn c12(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let huge = src.chance(1, 8000); // indices of 32-bit blocks beyond 16 bits
    ctx.label_if(huge, "more than 2097152 bits");
    let nblocks = if huge { src.range(8193, 8500) } else { match if src.chance(1, 400) { 5 } else { src.weighted(&[30, 30, 25, 10, 5]) } { 0 => src.range(1, 4), 1 => src.range(1, 14), 2 => src.range(14, 19), 3 => src.range(29, 35), 4 => src.range(35, 70), _ => src.range(200, 1200) } };
    ctx.label_if(nblocks >= 200, "more than 50000 bits");
    let n = nblocks * 256;
    let valid = if src.chance(1, 2) { n } else { src.range(1, n) };
    // sums of the higher lanes beyond 16 bits
    let full = nblocks >= 200 && src.chance(1, 2);
    ctx.label_if(full, "more than 50000 values, all of them in both sets");
    let (a, b) = if full { (vec![true; n], vec![true; n]) } else { (bits(src, n, valid), bits(src, n, n)) };
    let (idx, idx2) = (index_list(src, n / 32), index_list(src, n / 32));
    let w = if huge && src.chance(1, 2) { 8 } else { *src.pick(&[0usize, 1, 2, 4, 8]) };
    let (got, max) = if w > 0 {
        by_width!(w, sums(src, w, n, &a, &b, &idx, &idx2))?
    } else {
        let ((sa, ra), (sb, rb)) = (own_bits(&a), own_bits(&b));
        let (ba, bb) = (to_blocks(&a), to_blocks(&b));
        let exp = (0..n).filter(|&i| a[i] && b[i]).count() as u64;
        let got = sa.get_bitvec(ra).count_ones_and(&sb.get_bitvec(rb));
        ensure!(got == exp, "count_ones_and over {} bits is {} instead of {}", n, got, exp);
        let got = count_and2_c00(&ba, &bb);
        ensure!(got == exp, "count_and2_c00 over {} bits is {} instead of {}", n, got, exp);
        let padded = (idx.len() + 7) / 8 * 8;
        let mut ca = vec![false; padded * 32];
        for (p, &g) in idx.iter().enumerate() { for j in 0..32 { ca[p * 32 + j] = a[g as usize * 32 + j]; } }
        let inl = |l: &[u32], i: usize| l.binary_search(&((i / 32) as u32)).is_ok();
        let exp_c = (0..n).filter(|&i| inl(&idx, i) && a[i] && b[i]).count() as u64;
        let ((sca, rca), (si, ri)) = (own_bits(&ca), own_list(padded, &idx));
        let got = sca.get_bitvec(rca).count_ones_and_compr(&si.get_bitvec(ri), &sb.get_bitvec(rb));
        ensure!(got == exp_c, "count_ones_and_compr over {} of {} blocks is {} instead of {}", idx.len(), n / 32, got, exp_c);
        let (bi, bca) = (BitBlocks::from_iter(padded, idx.iter().cloned()), to_blocks(&ca));
        let got = count_and2_c10(&bi, &bca, &bb);
        ensure!(got == exp_c, "count_and2_c10 over {} of {} blocks is {} instead of {}", idx.len(), n / 32, got, exp_c);
        let padded2 = (idx2.len() + 7) / 8 * 8;
        let mut cb = vec![false; padded2 * 32];
        for (p, &g) in idx2.iter().enumerate() { for j in 0..32 { cb[p * 32 + j] = b[g as usize * 32 + j]; } }
        let exp_2 = (0..n).filter(|&i| inl(&idx, i) && inl(&idx2, i) && a[i] && b[i]).count() as u64;
        let got = count_and2_c11(&bi, &bca, &BitBlocks::from_iter(padded2, idx2.iter().cloned()), &to_blocks(&cb));
        ensure!(got == exp_2, "count_and2_c11 over {} and {} of {} blocks is {} instead of {}", idx.len(), idx2.len(), n / 32, got, exp_2);
        // union in place, as used to join candidate masks
        let mut st = tight(2 * nblocks);
        let (rc, rb) = (alloc_bits(&mut st, &a), alloc_bits(&mut st, &b));
        {
            let (mut x, y) = st.get_two_bitvecs_mut(rc, rb);
            unsafe { bitboost::simd::or_assign(&mut x, &y) };
        }
        let v = st.get_bitvec(rc);
        for i in 0..n { ensure!(v.get_bit(i) == (a[i] || b[i]), "or_assign: bit {} of {} is {}", i, n, v.get_bit(i)); }
        let total: u64 = Bitset::ones(valid).iter().map(|b| b.count_ones() as u64).sum();
        ensure!(total == valid as u64, "a set of {} ones has {}", valid, total);
        (exp_c, n as u64)
    };
    ctx.label(match w { 0 => "counts", 1 => "width 1", 2 => "width 2", 4 => "width 4", _ => "width 8" });
    ctx.label_if(nblocks * w.max(1) >= 16, "unrolled loop");
    ctx.label_if(nblocks % 16 == 0, "whole unrolled loops");
    ctx.nontrivial = got > 0 && got < max;
    ctx.note(|| format!("{} blocks, width {}, lists of {} and {}", nblocks, w, idx.len(), idx2.len()));
    Ok(())
}

// ---- C15 ---------------------------------------------------------------------------------------

/// A live slice and what it should contain.
struct Live<T> { range: SliceRange, content: Vec<T> }

fn disjoint<T>(live: &[Live<T>]) -> CaseResult {
    for (i, a) in live.iter().enumerate() {
        for b in &live[i + 1..] {
            ensure!(a.range.1 <= b.range.0 || b.range.1 <= a.range.0, "live slices {:?} and {:?} overlap", a.range, b.range);
        }
    }
    Ok(())
}

fn slice_store<T: Copy + PartialEq + std::fmt::Debug + Default>(src: &mut Src, ctx: &mut Ctx, val: &dyn Fn(u64) -> T) -> CaseResult {
    let cap = match src.weighted(&[40, 30, 30]) { 0 => src.range(1, 8), 1 => src.range(8, 100), _ => src.range(100, 5000) };
    let size = std::mem::size_of::<T>();
    let nat = { let mut a = std::mem::align_of::<T>(); while a < size { a *= 2; } a };
    let (mut st, align): (SliceStore<T>, usize) = if src.chance(1, 2) { (SliceStore::new(cap), nat) } else {
        let al = nat.max(*src.pick(&[16usize, 32, 64, 128]));
        (SliceStore::aligned(cap, al), al)
    };
    let mut live: Vec<Live<T>> = vec![];
    let (mut next, mut high) = (1u64, 0usize);
    let nops = src.range(1, 50);
    let long = src.chance(1, 1500); // slices and positions beyond 16 bits
    ctx.label_if(long, "slices of more than 65535 elements");
    let maxlen = if long { 90000 } else { *src.pick(&[4usize, 20, 300]) };
    for op in 0..nops {
        match src.weighted(&[40, 20, 20, 15, 2, 8]) {
            0 => {
                if live.len() >= 14 { continue; }
                let len = src.range(1, maxlen) as u32;
                next += 1;
                let dflt = src.chance(1, 4);
                let v = if dflt { T::default() } else { val(next) };
                let range = if dflt { st.alloc_slice_default(len) } else { st.alloc_slice(len, v) };
                ensure!(range.1 >= range.0 && range.1 - range.0 == len, "op {}: asked for {} elements, got {:?}", op, len, range);
                ensure!(st.get_slice(range).len() == len as usize && st.get_slice(range).iter().all(|x| *x == v), "op {}: the new slice {:?} does not hold {:?}", op, range, v);
                ensure!(st.get_slice(range).as_ptr() as usize % align == 0, "op {}: the new slice {:?} is not aligned to {}", op, range, align);
                if !live.is_empty() && (range.1 as usize) <= high { ctx.nontrivial = true; ctx.label("memory reused"); }
                if !live.is_empty() && (range.1 as usize) > cap { ctx.nontrivial = true; ctx.label("store grew"); }
                high = high.max(range.1 as usize);
                live.push(Live { range, content: vec![v; len as usize] });
            }
            1 if !live.is_empty() => {
                let k = src.range(0, live.len() - 1);
                let l = live.remove(k);
                st.free_slice(l.range);
            }
            2 if !live.is_empty() => {
                let k = src.range(0, live.len() - 1);
                let mut r = src.sub();
                let s = st.get_slice_mut(live[k].range);
                for (x, y) in s.iter_mut().zip(live[k].content.iter_mut()) { if r.chance(0.7) { next += 1; *x = val(next); *y = *x; } }
            }
            3 if live.len() >= 2 => {
                let i = src.range(0, live.len() - 1);
                let j = (i + src.range(1, live.len() - 1)) % live.len();
                let (a, b) = st.get_two_slices_mut(live[i].range, live[j].range);
                ensure!(a == &live[i].content[..] && b == &live[j].content[..], "op {}: get_two_slices_mut({:?}, {:?}) gives other contents", op, live[i].range, live[j].range);
                let (p, q) = (src.range(0, a.len() - 1), src.range(0, b.len() - 1));
                next += 2;
                a[p] = val(next);
                b[q] = val(next + 1);
                live[i].content[p] = val(next);
                live[j].content[q] = val(next + 1);
            }
            4 => { st.reset(); live.clear(); high = 0; ctx.label("reset"); }
            _ => {}
        }
        disjoint(&live)?;
        for l in &live {
            ensure!(st.get_slice(l.range) == &l.content[..], "op {}: slice {:?} changed (capacity {})", op, l.range, cap);
            ensure!(st.get_slice(l.range).as_ptr() as usize % align == 0, "op {}: slice {:?} is not aligned to {} any more", op, l.range, align);
        }
    }
    ctx.note(|| format!("slices of {}-byte elements, capacity {}, {} ops, {} live", size, cap, nops, live.len()));
    Ok(())
}

fn bit_store(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let cap = src.range(1, 24);
    let mut st = BitBlockStore::new(cap);
    let mut live: Vec<Live<u64>> = vec![];
    let nops = src.range(1, 40);
    let long = src.chance(1, 1500);
    ctx.label_if(long, "bit vectors of more than 65535 bits");
    let mut high = 0usize;
    for op in 0..nops {
        match src.weighted(&[45, 22, 18, 13, 2]) {
            0 => {
                if live.len() >= 12 { continue; }
                let n = if long { src.range(1, 300000) } else { src.range(1, 1500) };
                let nb = (n + 255) / 256;
                let mut r = src.sub();
                let (range, content): (SliceRange, Vec<u64>) = match src.draw(7) {
                    0 => (st.alloc_zero_blocks(nb), vec![0; nb * 4]),
                    1 => (st.alloc_zero_bits(n), vec![0; nb * 4]),
                    2 => (st.alloc_one_blocks(nb), vec![!0; nb * 4]),
                    3 => (st.alloc_one_bits(n), (0..nb * 4).map(|i| if i * 64 + 64 <= n { !0u64 } else if i * 64 >= n { 0 } else { !0u64 >> (64 - (n - i * 64)) }).collect()),
                    4 => {
                        let k = (n / 64).max(1);
                        let mut v: Vec<u64> = (0..k).map(|_| r.next()).collect();
                        let range = st.alloc_from_iter(k, v.clone().into_iter());
                        v.resize((k * 64 + 255) / 256 * 4, 0);
                        (range, v)
                    }
                    5 => {
                        let b: Vec<bool> = (0..n).map(|_| r.chance(0.5)).collect();
                        let mut v = vec![0u64; nb * 4];
                        for i in 0..n { if b[i] { v[i / 64] |= 1 << (i % 64); } }
                        (st.alloc_from_bits_iter(n, b.into_iter()), v)
                    }
                    6 => { let w = *src.pick(&[2usize, 4]); (if w == 2 { st.alloc_zero_bitslice::<BitSliceLayout2>(n) } else { st.alloc_zero_bitslice::<BitSliceLayout4>(n) }, vec![0; nb * w * 4]) }
                    _ => { let w = *src.pick(&[1usize, 8]); (if w == 1 { st.alloc_zero_bitslice::<BitSliceLayout1>(n) } else { st.alloc_zero_bitslice::<BitSliceLayout8>(n) }, vec![0; nb * w * 4]) }
                };
                ensure!((range.1 - range.0) as usize * 4 == content.len(), "op {}: {:?} blocks for {} words", op, range, content.len());
                let v = st.get_bitvec(range);
                ensure!(v.cast::<u64>() == &content[..], "op {}: the new bits of {:?} are wrong", op, range);
                ensure!(v.as_ptr() as usize % 64 == 0, "op {}: {:?} is not aligned to a cache line", op, range);
                if !live.is_empty() && (range.1 as usize) <= high { ctx.nontrivial = true; ctx.label("blocks reused"); }
                if !live.is_empty() && (range.1 as usize) > cap { ctx.nontrivial = true; ctx.label("block store grew"); }
                high = high.max(range.1 as usize);
                live.push(Live { range, content });
            }
            1 if !live.is_empty() => { let k = src.range(0, live.len() - 1); let l = live.remove(k); st.free_blocks(l.range); }
            2 if !live.is_empty() => {
                let k = src.range(0, live.len() - 1);
                let l = &mut live[k];
                let i = src.range(0, l.content.len() - 1);
                let v = src.sub().next();
                st.get_bitvec_mut(l.range).set::<u64>(i, v);
                l.content[i] = v;
            }
            3 if live.len() >= 2 => {
                let i = src.range(0, live.len() - 1);
                let j = (i + src.range(1, live.len() - 1)) % live.len();
                let (mut a, mut b) = st.get_two_bitvecs_mut(live[i].range, live[j].range);
                ensure!(a.cast::<u64>() == &live[i].content[..] && b.cast::<u64>() == &live[j].content[..], "op {}: get_two_bitvecs_mut({:?}, {:?}) gives other contents", op, live[i].range, live[j].range);
                let (p, q) = (src.range(0, live[i].content.len() - 1), src.range(0, live[j].content.len() - 1));
                let v = src.sub().next();
                a.set::<u64>(p, v);
                b.set::<u64>(q, !v);
                live[i].content[p] = v;
                live[j].content[q] = !v;
            }
            4 => { st.reset(); live.clear(); high = 0; }
            _ => {}
        }
        disjoint(&live)?;
        for l in &live { ensure!(st.get_bitvec(l.range).cast::<u64>() == &l.content[..], "op {}: bits of {:?} changed (capacity {})", op, l.range, cap); }
    }
    ctx.note(|| format!("block store of {}, {} ops, {} live", cap, nops, live.len()));
    Ok(())
}

fn hist_store(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let wide = src.chance(1, 1500); // more bins than 16 bits count
    let nfeat = if wide { src.range(200, 400) } else { src.range(1, 12) };
    let big = wide || src.chance(1, 6);
    ctx.label_if(wide, "more than 65535 bins");
    let bins: Vec<u32> = (0..nfeat).map(|_| if src.chance(1, 6) { 0 } else if big { src.range(1, 900) as u32 } else { src.range(1, 20) as u32 }).collect();
    let total: u32 = bins.iter().sum();
    if total == 0 { return Ok(()); }
    let mut st: HistStore<i64> = HistStore::new(bins.iter().cloned());
    let mut live: Vec<Live<i64>> = vec![];
    let nops = if wide { src.range(1, 12) } else { src.range(1, 30) };
    let start: Vec<usize> = bins.iter().scan(0usize, |a, &b| { let s = *a; *a += b as usize; Some(s) }).collect();
    let mut high = 0;
    for op in 0..nops {
        match src.weighted(&[35, 15, 35, 20, 2]) {
            0 => {
                if live.len() >= 10 { continue; }
                let range = st.alloc_hists();
                ensure!((0..nfeat).all(|f| st.get_hist(range, f).len() == bins[f] as usize), "op {}: histogram lengths of {:?}", op, range);
                ensure!((0..nfeat).all(|f| st.get_hist(range, f).iter().all(|&x| x == 0)), "op {}: new histograms {:?} are not empty", op, range);
                if !live.is_empty() && (range.1 as usize) <= high { ctx.nontrivial = true; ctx.label("histograms reused"); }
                if range.1 > 8192 { ctx.nontrivial = true; ctx.label("histogram store grew"); }
                high = high.max(range.1 as usize);
                live.push(Live { range, content: vec![0; total as usize] });
            }
            1 if !live.is_empty() => { let k = src.range(0, live.len() - 1); let l = live.remove(k); st.free_hists(l.range); }
            2 if !live.is_empty() => {
                let k = src.range(0, live.len() - 1);
                let f = src.range(0, nfeat - 1);
                let mut r = src.sub();
                let all = src.chance(1, 2);
                for f in if all { 0..nfeat } else { f..f + 1 } {
                    for (i, x) in st.get_hist_mut(live[k].range, f).iter_mut().enumerate() {
                        *x = r.below(1 << 30) as i64 - (1 << 29);
                        live[k].content[start[f] + i] = *x;
                    }
                }
            }
            3 if live.len() >= 3 => {
                let p = src.range(0, live.len() - 1);
                let l = (p + src.range(1, live.len() - 1)) % live.len();
                let mut t = src.range(0, live.len() - 1);
                while t == p || t == l { t = (t + 1) % live.len(); }
                st.hists_subtract(live[p].range, live[l].range, live[t].range);
                let d: Vec<i64> = live[p].content.iter().zip(&live[l].content).map(|(a, b)| a - b).collect();
                live[t].content = d;
                ctx.label("subtracted");
            }
            4 => { st.reset(); live.clear(); high = 0; }
            _ => {}
        }
        disjoint(&live)?;
        for l in &live { for f in 0..nfeat {
            let g = st.get_hist(l.range, f);
            ensure!(g == &l.content[start[f]..start[f] + bins[f] as usize], "op {}: histogram {} of {:?} is {:?}", op, f, l.range, &g[..g.len().min(6)]);
        } }
    }
    ctx.note(|| format!("histograms of {:?} bins, {} ops", bins, nops));
    Ok(())
}

fn c15(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    match src.weighted(&[12, 12, 12, 8, 8, 30, 25]) {
        0 => slice_store::<u32>(src, ctx, &|i| i as u32),
        1 => slice_store::<u64>(src, ctx, &|i| i),
        2 => slice_store::<u8>(src, ctx, &|i| i as u8),
        3 => slice_store::<(u32, u32, u32)>(src, ctx, &|i| (i as u32, 7, !i as u32)),
        4 => slice_store::<(f32, u32)>(src, ctx, &|i| (i as f32, i as u32)),
        5 => bit_store(src, ctx),
        _ => hist_store(src, ctx),
    }
}

