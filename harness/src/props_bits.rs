//! C11, C13, C14: bit slices, iteration over bit sets, bit containers.
use bitboost::bitblock::{self, BitBlock, BitBlocks};
use bitboost::bitset::Bitset;
use bitboost::bitslice::{Bitslice, BitsliceLayout, BitsliceLayout1, BitsliceLayout2, BitsliceLayout4, BitsliceLayout8};
use bitboost::slice_store::{BitBlockStore, BitSliceLayout, BitSliceLayout1, BitSliceLayout2, BitSliceLayout4, BitSliceLayout8,
    BitVecRef, SliceRange};
use vengine::*;

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C11", run: c11, quick: 600000, thorough: 20000000,
            rule: "two indices of one 32-value block hold different values, and a value was overwritten by a different one",
            assumptions: &["bounds of magnitude 1e-37 to 1e37, at least 1e-6 (relative) apart; half a step plus four units in the last place of the bounds"] },
        Prop { id: "C13", run: c13, quick: 1200000, thorough: 30000000,
            rule: "at least two positions in different 64-bit words are yielded, and not all bits are set",
            assumptions: &["index lists strictly increasing, padded with index 0 and empty masks to whole bit blocks, as compression makes them"] },
        Prop { id: "C14", run: c14, quick: 1200000, thorough: 30000000,
            rule: "a bit that was set is cleared again, or a typed write changes some but not all bits of its word",
            assumptions: &["the iterators given to constructors yield at most the announced number of values"] },
    ]
}

// ---- bit patterns ------------------------------------------------------------------------------

/// n bits in one of several patterns, only the first `valid` of them possibly set.
pub fn bits(src: &mut Src, n: usize, valid: usize) -> Vec<bool> {
    let style = src.weighted(&[30, 10, 10, 10, 10, 10, 10, 10]);
    let mut r = src.sub();
    let one = r.below(valid.max(1) as u64) as usize;
    let dens = [0.5, 0.02, 0.98, 0.2, 0.8][r.below(5) as usize];
    let period = 1 + r.below(70) as usize;
    let word: Vec<bool> = (0..n / 32 + 1).map(|_| r.chance(0.5)).collect();
    (0..n).map(|i| i < valid && match style {
        0 => r.chance(dens),
        1 => false,
        2 => true,
        3 => i == one,
        4 => i != one,
        5 => i % period == 0,
        6 => word[i / 32] && r.chance(0.7),
        _ => word[i / 32],
    }).collect()
}

pub fn words32(b: &[bool]) -> Vec<u32> {
    b.chunks(32).map(|c| c.iter().enumerate().fold(0, |a, (i, &x)| a | (x as u32) << i)).collect()
}

/// Strictly increasing block indices below m.
pub fn index_list(src: &mut Src, m: usize) -> Vec<u32> {
    let style = src.weighted(&[40, 15, 15, 15, 15]);
    let mut r = src.sub();
    let p = [0.5, 0.1, 0.9][r.below(3) as usize];
    let k = r.range(0, m - 1);
    let mut v: Vec<u32> = (0..m as u32).filter(|&i| match style {
        0 => r.chance(p),
        1 => true,
        2 => i as usize == k,
        3 => i as usize >= k,
        _ => i as usize <= k,
    }).collect();
    if v.is_empty() { v.push(k as u32); }
    v
}

// ---- C11 ---------------------------------------------------------------------------------------

/// What both bit slice implementations offer.
trait Slice {
    fn get(&self, i: usize) -> u8;
    fn set(&mut self, i: usize, v: u8);
    fn get_scaled(&self, i: usize, b: (f32, f32)) -> f32;
    fn set_scaled(&mut self, i: usize, x: f32, b: (f32, f32)) -> u8;
}

struct Old<L: BitsliceLayout> { s: Bitslice, _l: std::marker::PhantomData<L> }
impl<L: BitsliceLayout> Slice for Old<L> {
    fn get(&self, i: usize) -> u8 { self.s.with_layout::<L>().get_value(i) }
    fn set(&mut self, i: usize, v: u8) { self.s.with_layout_mut::<L>().set_value(i, v) }
    fn get_scaled(&self, i: usize, b: (f32, f32)) -> f32 { self.s.with_layout::<L>().get_scaled_value(i, b) }
    fn set_scaled(&mut self, i: usize, x: f32, b: (f32, f32)) -> u8 { self.s.with_layout_mut::<L>().set_scaled_value(i, x, b) }
}

struct New<'a, L: BitSliceLayout> { st: &'a mut BitBlockStore, r: SliceRange, _l: std::marker::PhantomData<L> }
impl<'a, L: BitSliceLayout + 'static> Slice for New<'a, L> {
    fn get(&self, i: usize) -> u8 { self.st.get_bitslice::<L>(self.r).get_value(i) }
    fn set(&mut self, i: usize, v: u8) { self.st.get_bitslice_mut::<L>(self.r).set_value(i, v) }
    fn get_scaled(&self, i: usize, b: (f32, f32)) -> f32 { self.st.get_bitslice::<L>(self.r).get_scaled_value(i, b) }
    fn set_scaled(&mut self, i: usize, x: f32, b: (f32, f32)) -> u8 { self.st.get_bitslice_mut::<L>(self.r).set_scaled_value(i, x, b) }
}

fn bounds(src: &mut Src) -> (f32, f32) {
    let b = match src.draw(4) {
        0 => (0.0, 1.0),
        1 => (-1.0, 1.0),
        2 => (-1.25, 1.25),
        3 => { let s = *src.pick(&[1.0f32, 1e-3, 1e4, 1e-20, 1e20, 1e-36, 1e-37, 1e37]); let a = (src.unit() as f32 - 0.5) * s; (a, a + (src.unit() as f32 + 1e-2) * s) }
        _ => { let k = src.range(1, 100) as f32; (-k, src.range(0, 100) as f32) }
    };
    if b.0 < b.1 { b } else { (0.0, 1.0) }
}

fn level(src: &mut Src, (lo, hi): (f32, f32), w: u32) -> f32 {
    let m = ((1u32 << w) - 1) as f64;
    let (l, h) = (lo as f64, hi as f64);
    (match src.weighted(&[40, 20, 15, 10, 10, 3, 2]) {
        0 => l + src.unit() * (h - l),
        1 => l + src.range(0, m as usize) as f64 / m * (h - l),
        2 => l + (src.range(0, m as usize - 1) as f64 + 0.5) / m * (h - l),
        3 => l - src.unit() * (h - l) * 3.0,
        4 => h + src.unit() * (h - l) * 3.0,
        5 => f64::INFINITY,
        _ => f64::NEG_INFINITY,
    }) as f32
}

/// Store a real number and compare the level and the number read back with the definition.
fn scaled(s: &mut dyn Slice, src: &mut Src, i: usize, w: u32) -> Result<u8, String> {
    let b = bounds(src);
    let (lo, hi) = (b.0 as f64, b.1 as f64);
    let x = level(src, b, w);
    let q = s.set_scaled(i, x, b);
    let m = ((1u32 << w) - 1) as f64;
    let cl = (x as f64).max(lo).min(hi);
    let exact = (cl - lo) / (hi - lo) * m;
    ensure!((q as f64 - exact).abs() <= 0.5 + m * 4e-7, "{} within [{}, {}] is stored as level {} of {}, the exact level is {}", x, lo, hi, q, m, exact);
    ensure!(s.get(i) == q, "the level of {} in [{}, {}] was reported as {} and reads {}", x, lo, hi, q, s.get(i));
    let back = s.get_scaled(i, b) as f64;
    let tol = 4.0 * f32::EPSILON as f64 * lo.abs().max(hi.abs());
    ensure!((back - cl).abs() <= 0.5 / m * (hi - lo) + tol + 1e-6 / m * (hi - lo),
        "{} within [{}, {}] (width {}) reads {} ", x, lo, hi, w, back);
    ensure!(back >= lo - tol && back <= hi + tol, "{} read outside of [{}, {}]", back, lo, hi);
    // monotone
    let y = level(src, b, w);
    let q2 = s.set_scaled(i, y, b);
    ensure!(if x <= y { q <= q2 } else { q >= q2 }, "levels {} and {} of {} and {} in [{}, {}]", q, q2, x, y, lo, hi);
    Ok(q2)
}

fn c11_old<L: BitsliceLayout>(src: &mut Src, ctx: &mut Ctx, w: u32, n: usize, nops: usize) -> CaseResult {
    let mut s: Old<L> = Old { s: Bitslice::new(), _l: std::marker::PhantomData };
    s.s.with_layout_mut::<L>().resize(n);
    let cap = |n: usize| (n + 255) / 256 * 256;
    let mut model = vec![0u8; cap(n)];
    ensure!(s.s.nblocks() == cap(n) / 256 * w as usize, "{} blocks for {} values of width {}", s.s.nblocks(), n, w);
    let mut overwritten = false;
    for op in 0..nops {
        match src.weighted(&[60, 15, 10, 10]) {
            0 => {
                let i = src.range(0, model.len() - 1);
                let v = src.draw((1 << w) - 1) as u8;
                overwritten |= model[i] != 0 && model[i] != v;
                s.set(i, v);
                ensure!(s.get(i) == v, "op {}: wrote {} at {}, read {}", op, v, i, s.get(i));
                model[i] = v;
            }
            1 => { let i = src.range(0, model.len() - 1); model[i] = scaled(&mut s, src, i, w)?; }
            2 => {
                // fill from a seed
                let mut r = src.sub();
                for i in 0..model.len() {
                    let v = r.below(1 << w) as u8;
                    overwritten |= model[i] != 0 && model[i] != v;
                    s.set(i, v);
                    model[i] = v;
                }
            }
            _ => {
                let n = src.range(1, 1200);
                s.s.with_layout_mut::<L>().resize(n);
                model.resize(cap(n), 0);
                ctx.label("resized");
            }
        }
    }
    for (i, &m) in model.iter().enumerate() {
        ensure!(s.get(i) == m, "value {} of {} is {} instead of {} (width {}, Bitslice)", i, model.len(), s.get(i), m, w);
        // the raw lanes hold the bits of the value
        if i % 32 == 0 {
            let v = s.s.with_layout::<L>();
            for lane in 0..w as usize {
                let exp = (0..32).fold(0u32, |a, j| a | (((model[i + j] >> lane) & 1) as u32) << j);
                ensure!(v.get_block(i / 32, lane) == exp, "lane {} of block {} is {:x} instead of {:x}", lane, i / 32, v.get_block(i / 32, lane), exp);
            }
        }
    }
    let varied = model.chunks(32).any(|c| c.iter().any(|&x| x != c[0]));
    ctx.nontrivial = varied && overwritten;
    ctx.note(|| format!("Bitslice width {} {} values {} ops", w, model.len(), nops));
    Ok(())
}

fn c11_new<L: BitSliceLayout + 'static>(src: &mut Src, ctx: &mut Ctx, w: u32, n: usize, nops: usize) -> CaseResult {
    let mut st = BitBlockStore::new(src.range(1, 64));
    let n2 = src.range(1, n + 300);
    let cap = |n: usize| (n + 255) / 256 * 256;
    // dirty memory, so that a slice of zeros has to be made
    let d = st.alloc_one_blocks(src.range(1, 20));
    if src.chance(1, 2) { st.free_blocks(d); }
    let rs = [st.alloc_zero_bitslice::<L>(n), st.alloc_zero_bitslice::<L>(n2)];
    let mut models = [vec![0u8; cap(n)], vec![0u8; cap(n2)]];
    let mut overwritten = false;
    for op in 0..nops {
        let k = src.range(0, 1);
        match src.weighted(&[60, 15, 8, 25]) {
            0 => {
                let i = src.range(0, models[k].len() - 1);
                let v = src.draw((1 << w) - 1) as u8;
                overwritten |= models[k][i] != 0 && models[k][i] != v;
                let mut s: New<L> = New { st: &mut st, r: rs[k], _l: std::marker::PhantomData };
                s.set(i, v);
                ensure!(s.get(i) == v, "op {}: wrote {} at {}, read {}", op, v, i, s.get(i));
                models[k][i] = v;
            }
            1 => {
                let i = src.range(0, models[k].len() - 1);
                let mut s: New<L> = New { st: &mut st, r: rs[k], _l: std::marker::PhantomData };
                models[k][i] = scaled(&mut s, src, i, w)?;
            }
            2 => {
                let mut r = src.sub();
                let mut s = st.get_bitslice_mut::<L>(rs[k]);
                for i in 0..models[k].len() {
                    let v = r.below(1 << w) as u8;
                    overwritten |= models[k][i] != 0 && models[k][i] != v;
                    s.set_value(i, v);
                    models[k][i] = v;
                }
            }
            _ => {
                let from = src.range(0, models[1 - k].len() / 32 - 1);
                let to = src.range(0, models[k].len() / 32 - 1);
                {
                    let (mut a, b) = st.get_two_bitslices_mut::<L>(rs[k], rs[1 - k]);
                    a.copy_block_from::<u32, _>(&b, from, to);
                }
                let block: Vec<u8> = models[1 - k][from * 32..from * 32 + 32].to_vec();
                models[k][to * 32..to * 32 + 32].copy_from_slice(&block);
                ctx.label("block copied");
                let s = st.get_bitslice::<L>(rs[k]);
                for j in 0..models[k].len() {
                    ensure!(s.get_value(j) == models[k][j], "op {}: after copying block {} to {}, value {} is {} instead of {}", op, from, to, j, s.get_value(j), models[k][j]);
                }
            }
        }
    }
    for k in 0..2 {
        let s = st.get_bitslice::<L>(rs[k]);
        for (i, &m) in models[k].iter().enumerate() {
            ensure!(s.get_value(i) == m, "value {} of {} is {} instead of {} (width {}, BitSlice)", i, models[k].len(), s.get_value(i), m, w);
        }
    }
    let varied = models.iter().any(|m| m.chunks(32).any(|c| c.iter().any(|&x| x != c[0])));
    ctx.nontrivial = varied && overwritten;
    ctx.note(|| format!("BitSlice width {} lengths {} and {} {} ops", w, models[0].len(), models[1].len(), nops));
    Ok(())
}

fn c11(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let old = src.chance(1, 3);
    let w = *src.pick(&[1u32, 2, 4, 8]);
    let long = src.chance(1, 3000); // positions beyond 16 bits
    let n = if long { src.range(65500, 140000) } else { match src.weighted(&[40, 40, 20]) { 0 => src.range(1, 40), 1 => src.range(30, 600), _ => src.range(500, 1500) } };
    ctx.label_if(long, "more than 65000 values");
    let nops = if long { src.range(3, 8) } else { src.range(1, 40) };
    match (old, w) {
        (true, 1) => c11_old::<BitsliceLayout1>(src, ctx, w, n, nops),
        (true, 2) => c11_old::<BitsliceLayout2>(src, ctx, w, n, nops),
        (true, 4) => c11_old::<BitsliceLayout4>(src, ctx, w, n, nops),
        (true, _) => c11_old::<BitsliceLayout8>(src, ctx, w, n, nops),
        (false, 1) => c11_new::<BitSliceLayout1>(src, ctx, w, n, nops),
        (false, 2) => c11_new::<BitSliceLayout2>(src, ctx, w, n, nops),
        (false, 4) => c11_new::<BitSliceLayout4>(src, ctx, w, n, nops),
        (false, _) => c11_new::<BitSliceLayout8>(src, ctx, w, n, nops),
    }
}

// ---- C13 ---------------------------------------------------------------------------------------

/// A bit vector in a store.
pub fn alloc_bits(st: &mut BitBlockStore, b: &[bool]) -> SliceRange {
    let w = words32(b);
    let n = w.len();
    let r = st.alloc_from_iter(n, w.into_iter());
    r
}

/// A store for `nblocks` blocks and no more, so that a sanitizer sees every step beyond.
pub fn tight(nblocks: usize) -> BitBlockStore { BitBlockStore::new(nblocks.max(1)) }
pub fn own_bits(b: &[bool]) -> (BitBlockStore, SliceRange) {
    let mut st = tight((b.len() + 255) / 256);
    let r = alloc_bits(&mut st, b);
    (st, r)
}
pub fn own_list(n: usize, idx: &[u32]) -> (BitBlockStore, SliceRange) {
    let mut st = tight((n + 7) / 8);
    let r = st.alloc_from_iter(n, idx.iter().cloned());
    (st, r)
}

fn same(what: &str, got: Vec<usize>, exp: &[usize]) -> CaseResult {
    if got == exp { return Ok(()); }
    let k = got.iter().zip(exp).position(|(a, b)| a != b).unwrap_or(got.len().min(exp.len()));
    Err(format!("{} yields {} positions, expected {}; they differ at {}: {:?} instead of {:?}", what, got.len(), exp.len(), k,
        &got[k..got.len().min(k + 4)], &exp[k..exp.len().min(k + 4)]))
}

/// The callback form: all positions, and the prefix up to a stop.
fn callback<F: Fn(&mut dyn FnMut(usize) -> bool)>(what: &str, stop: usize, exp: &[usize], f: F) -> CaseResult {
    let mut got = vec![];
    f(&mut |i| { got.push(i); false });
    same(what, got, exp)?;
    let mut got = vec![];
    f(&mut |i| { got.push(i); got.len() == stop });
    same(&format!("{} stopped after {}", what, stop), got, &exp[..exp.len().min(stop)])
}

fn c13(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let long = src.chance(1, 4000); // positions beyond 16 bits
    ctx.label_if(long, "more than 65000 bits");
    let huge = !long && src.chance(1, 12000); // indices of 32-bit blocks beyond 16 bits
    ctx.label_if(huge, "more than 2097152 bits");
    let nblocks = if huge { src.range(8193, 8500) } else if long { src.range(256, 600) } else { match src.weighted(&[60, 30, 10]) { 0 => src.range(1, 3), 1 => src.range(1, 8), _ => src.range(8, 30) } };
    let n = nblocks * 256;
    let valid = if huge { src.range(1 << 21, n) } else { src.range(1, n) };
    let a = bits(src, n, valid);
    let b = bits(src, n, n);
    let stop = src.range(1, 40);
    let ((sa, ra), (sb, rb)) = (own_bits(&a), own_bits(&b));
    let compr = src.chance(1, 2);
    let exp: Vec<usize>;
    if !compr {
        let (va, vb): (BitVecRef, BitVecRef) = (sa.get_bitvec(ra), sb.get_bitvec(rb));
        let all: Vec<usize> = (0..n).filter(|&i| a[i]).collect();
        let and: Vec<usize> = (0..n).filter(|&i| a[i] && b[i]).collect();
        let not: Vec<usize> = (0..n).filter(|&i| a[i] && !b[i]).collect();
        same("index_iter", va.index_iter().collect(), &all)?;
        same("index_iter_and", va.index_iter_and(&vb).collect(), &and)?;
        same("index_iter_andnot", va.index_iter_andnot(&vb).collect(), &not)?;
        callback("for_each_index", stop, &all, |f| va.for_each_index(|i| f(i)))?;
        callback("for_each_index_and", stop, &and, |f| va.for_each_index_and(&vb, |i| f(i)))?;
        let mut it = va.index_iter();
        for _ in 0..all.len() { it.next(); }
        ensure!(it.next().is_none() && it.next().is_none(), "index_iter goes on after its end");
        exp = and;
        ctx.label("plain");
    } else {
        // a compressed vector: the blocks of `a` at the indices of the list
        let idx = index_list(src, n / 32);
        let padded = (idx.len() + 7) / 8 * 8;
        let mut cbits = vec![false; padded * 32];
        for (k, &g) in idx.iter().enumerate() { for j in 0..32 { cbits[k * 32 + j] = a[g as usize * 32 + j]; } }
        let ((sc, rc), (si, ri)) = (own_bits(&cbits), own_list(idx.len(), &idx));
        let (vb, vc, vi): (BitVecRef, BitVecRef, BitVecRef) = (sb.get_bitvec(rb), sc.get_bitvec(rc), si.get_bitvec(ri));
        let sel: Vec<usize> = idx.iter().flat_map(|&g| (0..32).map(move |j| g as usize * 32 + j)).collect();
        let all: Vec<usize> = sel.iter().cloned().filter(|&i| a[i]).collect();
        let and: Vec<usize> = sel.iter().cloned().filter(|&i| a[i] && b[i]).collect();
        let not: Vec<usize> = sel.iter().cloned().filter(|&i| a[i] && !b[i]).collect();
        same("index_iter_compr", vc.index_iter_compr(&vi).collect(), &all)?;
        same("index_iter_and_compr", vc.index_iter_and_compr(&vb, &vi).collect(), &and)?;
        same("index_iter_andnot_compr", vc.index_iter_andnot_compr(&vb, &vi).collect(), &not)?;
        callback("for_each_index_compr", stop, &all, |f| vc.for_each_index_compr(&vi, |i| f(i)))?;
        callback("for_each_index_and_compr", stop, &and, |f| vc.for_each_index_and_compr(&vb, &vi, |i| f(i)))?;
        exp = and;
        ctx.label("compressed");
    }
    ctx.nontrivial = exp.first().map_or(false, |&f| exp.last().unwrap() / 64 != f / 64) && exp.len() < n;
    ctx.note(|| format!("{} blocks, {} valid bits, {} positions", nblocks, valid, exp.len()));
    Ok(())
}

// ---- C14 ---------------------------------------------------------------------------------------

fn word(model: &[bool], width: usize, i: usize) -> u128 {
    (0..width).fold(0u128, |a, j| a | (model[i * width + j] as u128) << j)
}

fn set_word(model: &mut [bool], width: usize, i: usize, v: u128) -> bool {
    let mut changed = 0;
    for j in 0..width { let b = v >> j & 1 == 1; if model[i * width + j] != b { changed += 1; } model[i * width + j] = b; }
    changed > 0 && changed < width
}

fn free_fns(src: &mut Src) -> CaseResult {
    macro_rules! one { ($t:ty, $w:expr) => {{
        let x = (src.draw(u64::MAX)) as $t;
        let p = src.draw($w - 1) as u8;
        let bit = x & (1 as $t) << p != 0;
        ensure!(bitblock::get_bit(x, p) == bit, "get_bit({:#x}, {}) is {}", x, p, !bit);
        ensure!(bitblock::enable_bit(x, p) == x | (1 as $t) << p, "enable_bit({:#x}, {})", x, p);
        ensure!(bitblock::disable_bit(x, p) == x & !((1 as $t) << p), "disable_bit({:#x}, {})", x, p);
        ensure!(bitblock::set_bit(x, p, true) == x | (1 as $t) << p, "set_bit({:#x}, {}, true)", x, p);
        ensure!(bitblock::set_bit(x, p, false) == x & !((1 as $t) << p), "set_bit({:#x}, {}, false)", x, p);
        let i = src.draw(100000) as usize;
        ensure!(bitblock::get_blockpos::<$t>(i) == i / $w && bitblock::get_bitpos::<$t>(i) as usize == i % $w, "position of bit {} in words of {}", i, $w);
    }}}
    one!(u8, 8);
    one!(u16, 16);
    one!(u32, 32);
    one!(u64, 64);
    Ok(())
}

/// The container under test.
enum Cont { Block(BitBlock), Blocks(BitBlocks), Set(Bitset), Vec(BitBlockStore, SliceRange) }

macro_rules! typed { ($c:expr, $x:ident => $e:expr) => { match $c {
    Cont::Block(_) => unreachable!(),
    Cont::Blocks(ref mut $x) => $e,
    Cont::Set(ref mut $x) => $e,
    Cont::Vec(ref mut s, r) => { let mut $x = s.get_bitvec_mut(r); $e }
}}}

fn make(src: &mut Src, kind: usize) -> Result<(Cont, Vec<bool>), String> {
    let long = src.chance(1, 4000);
    let nb = if long { src.range(65000, 140000) } else { match src.weighted(&[50, 30, 20]) { 0 => src.range(1, 300), 1 => src.range(200, 800), _ => *src.pick(&[1usize, 63, 64, 65, 128, 192, 193, 255, 256, 257, 320, 511, 512, 513]) } };
    let cap = (nb + 255) / 256 * 256;
    let how = src.draw(4);
    let mut r = src.sub();
    let mut model = vec![false; cap];
    let mut st = BitBlockStore::new(1 + r.below(5) as usize);
    // dirty memory for the store's constructors
    let d = st.alloc_one_blocks(1 + r.below(8) as usize);
    st.free_blocks(d);
    let tw = [8usize, 16, 32, 64][r.below(4) as usize];
    let nv = (nb / tw).max(1);
    let given = if r.chance(0.3) { r.below(nv as u64 + 1) as usize } else { nv };
    let vals: Vec<u64> = (0..given).map(|_| match r.below(4) { 0 => u64::MAX, 1 => 0, _ => r.next() }).collect();
    let bools: Vec<bool> = { let m = if r.chance(0.3) { r.below(nb as u64 + 1) as usize } else { nb }; (0..m).map(|_| r.chance(0.5)).collect() };
    let capv = (nv * tw + 255) / 256 * 256;
    let mut fill_vals = |model: &mut Vec<bool>| { model.resize(capv, false); for (i, &v) in vals.iter().enumerate() { set_word(model, tw, i, v as u128 & ((1u128 << tw) - 1)); } };
    let c = match kind {
        0 => { // one block
            model.resize(256, false);
            Cont::Block(match how {
                0 => BitBlock::zeros(),
                1 => { model.iter_mut().for_each(|x| *x = true); BitBlock::ones() }
                2 => {
                    // more or fewer values than fit
                    let cnt = r.below(2 * 256 / tw as u64 + 2) as usize;
                    let vs: Vec<u64> = (0..cnt).map(|_| r.next()).collect();
                    let fit = cnt.min(256 / tw);
                    for i in 0..fit { set_word(&mut model, tw, i, vs[i] as u128 & ((1u128 << tw) - 1)); }
                    macro_rules! it { ($t:ty) => {{ let mut it = vs.iter().map(|&v| v as $t); let (done, b) = BitBlock::from_iter(&mut it);
                        ensure!(done || cnt >= 256 / tw, "from_iter of {} values does not report the end", cnt);
                        ensure!(!done || cnt <= 256 / tw, "from_iter of {} values reports the end", cnt);
                        let left = it.count();
                        ensure!(left == cnt - fit, "from_iter left {} of {} values", left, cnt);
                        if r.chance(0.3) { let s: Vec<$t> = vs.iter().map(|&v| v as $t).collect(); BitBlock::from_slice(&s) } else { b } }} }
                    match tw { 8 => it!(u8), 16 => it!(u16), 32 => it!(u32), _ => it!(u64) }
                }
                3 => {
                    let cnt = r.below(600) as usize;
                    let bs: Vec<bool> = (0..cnt).map(|_| r.chance(0.5)).collect();
                    for i in 0..cnt.min(256) { model[i] = bs[i]; }
                    let mut it = bs.iter().cloned();
                    let (done, b) = BitBlock::from_bool_iter(&mut it);
                    ensure!((done || cnt >= 256) && (!done || cnt <= 256), "from_bool_iter of {} reports {}", cnt, done);
                    ensure!(it.count() == cnt - cnt.min(256), "from_bool_iter took a wrong number of {} bits", cnt);
                    b
                }
                _ => {
                    let w: Vec<u64> = (0..4).map(|_| r.next()).collect();
                    if r.chance(0.5) {
                        for i in 0..4 { set_word(&mut model, 64, i, w[i] as u128); }
                        BitBlock::from_4u64(w[0], w[1], w[2], w[3])
                    } else {
                        set_word(&mut model, tw, 0, w[0] as u128 & ((1u128 << tw) - 1));
                        match tw { 8 => BitBlock::from(w[0] as u8), 16 => BitBlock::from(w[0] as u16), 32 => BitBlock::from(w[0] as u32), _ => BitBlock::from(w[0]) }
                    }
                }
            })
        }
        1 => Cont::Blocks(match how {
            0 => if r.chance(0.5) { BitBlocks::zero_bits(nb) } else { BitBlocks::zero_blocks(cap / 256) },
            1 => if r.chance(0.8) { (0..nb).for_each(|i| model[i] = true); BitBlocks::one_bits(nb) }
                 else { model.iter_mut().for_each(|x| *x = true); BitBlocks::one_blocks(cap / 256) },
            2 => { fill_vals(&mut model); match tw {
                8 => BitBlocks::from_iter(nv, vals.iter().map(|&v| v as u8)), 16 => BitBlocks::from_iter(nv, vals.iter().map(|&v| v as u16)),
                32 => BitBlocks::from_iter(nv, vals.iter().map(|&v| v as u32)), _ => BitBlocks::from_iter(nv, vals.iter().cloned()) } }
            3 => { bools.iter().enumerate().for_each(|(i, &b)| model[i] = b); BitBlocks::from_bool_iter(nb, bools.iter().cloned()) }
            _ => {
                let mut b = BitBlocks::empty();
                ensure!(b.is_empty() && b.len() == 0, "an empty block list is not empty");
                if r.chance(0.5) { b = BitBlocks::one_bits(nb); b.reset(); ensure!(b.is_empty(), "a reset block list is not empty"); }
                b.resize(cap / 256);
                b
            }
        }),
        2 => Cont::Set(if how < 2 { Bitset::zeros(nb) } else { (0..nb).for_each(|i| model[i] = true); Bitset::ones(nb) }),
        _ => {
            let range = match how {
                0 => if r.chance(0.5) { st.alloc_zero_bits(nb) } else { st.alloc_zero_blocks(cap / 256) },
                1 => if r.chance(0.8) { (0..nb).for_each(|i| model[i] = true); st.alloc_one_bits(nb) }
                     else { model.iter_mut().for_each(|x| *x = true); st.alloc_one_blocks(cap / 256) },
                2 => { fill_vals(&mut model); match tw {
                    8 => st.alloc_from_iter(nv, vals.iter().map(|&v| v as u8)), 16 => st.alloc_from_iter(nv, vals.iter().map(|&v| v as u16)),
                    32 => st.alloc_from_iter(nv, vals.iter().map(|&v| v as u32)), _ => st.alloc_from_iter(nv, vals.iter().cloned()) } }
                _ => { bools.iter().enumerate().for_each(|(i, &b)| model[i] = b); st.alloc_from_bits_iter(nb, bools.iter().cloned()) }
            };
            Cont::Vec(st, range)
        }
    };
    Ok((c, model))
}

fn compare(c: &mut Cont, model: &[bool], when: &str) -> CaseResult {
    let nblocks = model.len() / 256;
    if let Cont::Block(ref b) = *c {
        for i in 0..256 { ensure!(b.get_bit(i) == model[i], "{}: bit {} of the block is {}", when, i, b.get_bit(i)); }
        ensure!(b.count_ones() as usize == model.iter().filter(|&&x| x).count(), "{}: count_ones is {}", when, b.count_ones());
        ensure!(b.is_zero() == model.iter().all(|&x| !x), "{}: is_zero is {}", when, b.is_zero());
        for (w, got) in [(8usize, b.cast::<u8>().iter().map(|&x| x as u64).collect::<Vec<_>>()), (32, b.cast::<u32>().iter().map(|&x| x as u64).collect()), (64, b.cast::<u64>().to_vec())] {
            ensure!(got.len() == 256 / w, "{}: {} words of {}", when, got.len(), w);
            for (i, &g) in got.iter().enumerate() { ensure!(g as u128 == word(model, w, i), "{}: word {} of width {} is {:x}", when, i, w, g); }
        }
        return Ok(());
    }
    let len = match *c { Cont::Blocks(ref b) => b.len(), Cont::Set(ref b) => b.len(), Cont::Vec(ref s, r) => s.get_bitvec(r).len(), _ => 0 };
    ensure!(len == nblocks, "{}: {} blocks instead of {}", when, len, nblocks);
    let (l8, l64): (usize, usize) = typed!(*c, x => (x.block_len::<u8>(), x.block_len::<u64>()));
    ensure!(l8 == nblocks * 32 && l64 == nblocks * 4, "{}: block_len {} and {} for {} blocks", when, l8, l64, nblocks);
    for i in 0..model.len() {
        let g = match *c {
            Cont::Blocks(ref b) => b[i / 256].get_bit(i % 256),
            Cont::Set(ref b) => b.get_bit(i),
            Cont::Vec(ref s, r) => s.get_bitvec(r).get_bit(i),
            _ => false,
        };
        ensure!(g == model[i], "{}: bit {} of {} is {}", when, i, model.len(), g);
    }
    let w8: Vec<u8> = typed!(*c, x => x.cast::<u8>().to_vec());
    let w64: Vec<u64> = typed!(*c, x => x.cast::<u64>().to_vec());
    for (i, &g) in w8.iter().enumerate() { ensure!(g as u128 == word(model, 8, i), "{}: byte {} is {:x}", when, i, g); }
    for (i, &g) in w64.iter().enumerate() { ensure!(g as u128 == word(model, 64, i), "{}: 64-bit word {} is {:x}", when, i, g); }
    Ok(())
}

fn c14(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    if src.chance(1, 8) { ctx.nontrivial = true; ctx.label("free functions"); return free_fns(src); }
    let kind = src.range(0, 3);
    let (mut c, mut model) = make(src, kind)?;
    compare(&mut c, &model, "after construction")?;
    let nops = src.range(0, 30);
    let (mut cleared, mut partial) = (false, false);
    for op in 0..nops {
        let k = src.weighted(&[40, 15, 25, 15, 5]);
        match k {
            0 | 1 | 2 => {
                let i = src.range(0, model.len() - 1);
                let v = match k { 1 => true, 2 => false, _ => src.chance(1, 2) };
                cleared |= model[i] && !v;
                model[i] = v;
                match c {
                    Cont::Block(ref mut b) => match k { 0 => b.set_bit(i, v), 1 => b.enable_bit(i), _ => b.disable_bit(i) },
                    Cont::Blocks(ref mut b) => { let b = &mut b[i / 256]; match k { 0 => b.set_bit(i % 256, v), 1 => b.enable_bit(i % 256), _ => b.disable_bit(i % 256) } }
                    Cont::Set(ref mut b) => match k { 0 => b.set_bit(i, v), 1 => b.enable_bit(i), _ => b.disable_bit(i) },
                    Cont::Vec(ref mut s, r) => { let mut b = s.get_bitvec_mut(r); match k { 1 => b.enable_bit(i), _ => b.set_bit(i, v) } }
                }
            }
            3 => {
                let tw = *src.pick(&[8usize, 16, 32, 64, 128]);
                let i = src.range(0, model.len() / tw - 1);
                let mut r = src.sub();
                let v = match r.below(4) { 0 => 0, 1 => u128::MAX, _ => (r.next() as u128) << 64 | r.next() as u128 };
                let v = if tw == 128 { v } else { v & ((1u128 << tw) - 1) };
                partial |= set_word(&mut model, tw, i, v);
                if let Cont::Block(ref mut b) = c {
                    match tw { 8 => b.cast_mut::<u8>()[i] = v as u8, 16 => b.cast_mut::<u16>()[i] = v as u16, 32 => b.cast_mut::<u32>()[i] = v as u32,
                        64 => b.cast_mut::<u64>()[i] = v as u64, _ => b.cast_mut::<u128>()[i] = v }
                } else {
                    let back: u128 = typed!(c, x => match tw {
                        8 => { x.set::<u8>(i, v as u8); *x.get::<u8>(i) as u128 }
                        16 => { x.set::<u16>(i, v as u16); *x.get::<u16>(i) as u128 }
                        32 => { x.set::<u32>(i, v as u32); *x.get::<u32>(i) as u128 }
                        64 => { x.set::<u64>(i, v as u64); *x.get::<u64>(i) as u128 }
                        _ => { x.set::<u128>(i, v); *x.get::<u128>(i) }
                    });
                    ensure!(back == v, "op {}: wrote {:x} to word {} of width {}, read {:x}", op, v, i, tw, back);
                }
            }
            _ => {
                let n = src.range(1, 5);
                match c {
                    Cont::Blocks(ref mut b) => { b.resize(n); model.resize(n * 256, false); }
                    Cont::Set(ref mut b) => { b.resize(n); model.resize(n * 256, false); }
                    _ => {}
                }
            }
        }
        if src.chance(1, 6) { compare(&mut c, &model, &format!("after operation {}", op))?; }
    }
    compare(&mut c, &model, "at the end")?;
    ctx.label(["BitBlock", "BitBlocks", "Bitset", "BitVec"][kind]);
    ctx.nontrivial = cleared || partial;
    ctx.note(|| format!("kind {} {} bits {} ops", kind, model.len(), nops));
    Ok(())
}
