//! C02, C03: single trees grown with known gradients and an observing objective.
use bitboost::data::{Data, FeatType};
use bitboost::dataset::Dataset;
use bitboost::slice_store::{BitBlockStore, BitSliceLayout1, BitSliceLayout2, BitSliceLayout4, BitSliceLayout8};
use bitboost::tree::{Tree, TreeLearner, TreeLearnerContext};

use crate::gen::*;
use crate::props_boost::label_case;
use crate::train::*;
use vengine::*;

/// The quantised gradients as stored by the library's bit slices.
pub fn quantise(g: &[f32], bounds: (f32, f32), nbits: usize) -> Vec<u32> {
    let n = g.len();
    let mut st = BitBlockStore::new(64);
    macro_rules! go { ($l:ty) => {{
        let r = st.alloc_zero_bitslice::<$l>(n);
        let mut bs = st.get_bitslice_mut::<$l>(r);
        for i in 0..n { bs.set_scaled_value(i, g[i], bounds); }
        (0..n).map(|i| bs.get_value(i) as u32).collect()
    }}}
    match nbits { 1 => go!(BitSliceLayout1), 2 => go!(BitSliceLayout2), 4 => go!(BitSliceLayout4), _ => go!(BitSliceLayout8) }
}

struct Cand { mask: Vec<bool> }

struct Grown {
    tree: Tree,
    shape: Shape,
    cands: Vec<Cand>,        // masks over local rows
    active: Vec<usize>,      // local -> global
    inactive: Vec<usize>,
    leaves: Vec<Vec<usize>>,
    oob: Vec<(usize, f32)>,
    supercats: Vec<Vec<u32>>,
    values: Vec<(usize, usize, f32)>, // feat, split, split value (same order as cands)
    grads: Vec<f32>,
    bounds: (f32, f32),
}

/// Grow `rounds` trees in one context; `check` is called for every tree.
fn grow(src: &mut Src, cfg: &Cfg, t: &Table, gradients: &dyn Fn(&mut Src) -> (Vec<f32>, (f32, f32)), rounds: usize, check: &mut dyn FnMut(&Data, &Grown, &mut Src) -> CaseResult) -> CaseResult {
    let config = cfg.config();
    let data = t.data(&config);
    let mut dataset = Dataset::new(&config, &data);
    let mut tctx = TreeLearnerContext::new(&config, &data);
    for _ in 0..rounds {
        let (grads, bounds) = gradients(src);
        let mut f = Fixed::new(grads.clone(), bounds);
        dataset.update(&config, &grads, bounds);
        let supercats = dataset.get_supercats().clone();
        let mut active = vec![usize::MAX; dataset.nactive_examples()];
        dataset.active_examples_iter(|i, j| active[i] = j);
        let inactive: Vec<usize> = if dataset.example_sampling_enabled() { dataset.inactive_examples_iter().collect() } else { vec![] };
        let mut cands = vec![];
        let mut values = vec![];
        for &feat in dataset.active_features() {
            for split in 0..dataset.get_nbins(feat) {
                let bv = dataset.get_bitvec(feat, split);
                cands.push(Cand { mask: (0..active.len()).map(|i| bv.get_bit(i)).collect() });
                values.push((feat, split, dataset.get_split_value(feat, split)));
            }
        }
        let tree = TreeLearner::new(&mut tctx, &dataset, supercats.clone(), &mut f).train();
        let shape = shape(&tree, &f.leaves)?;
        let g = Grown { tree, shape, cands, active, inactive, leaves: f.leaves, oob: f.oob, supercats, values, grads, bounds };
        check(&data, &g, src)?;
    }
    Ok(())
}

fn depth_of(node: usize) -> usize { (usize::BITS - 1 - (node + 1).leading_zeros()) as usize }

fn gen_tree_case(src: &mut Src, max_n: usize) -> (Cfg, Table, f32) {
    let blocky = src.chance(1, 3);
    let (mut cfg, t) = gen_case(src, &Opts { objectives: &["l2"], max_n, blocky, extremes: 60, huge: 8000, balanced: 30, ..Opts::default() });
    if src.chance(1, 6) { cfg.min_examples_leaf = src.range(1, (t.n / 3).max(1)) as u32; }
    let unit = gen_unit(src, &mut cfg);
    (cfg, t, unit)
}

// ---- C02 ---------------------------------------------------------------------------------------

/// A case in which all gains are dyadic numbers that f32 holds exactly: gradients of one bit, every
/// column halves every node or leaves it alone (columns are parities of the bits of a row number).
/// `min_gain` is one of those gains or the number next to it.
fn gen_exact_case(src: &mut Src) -> (Cfg, Table, Vec<f32>, f32) {
    let (mut cfg, _) = gen_case(src, &Opts { objectives: &["l2"], max_n: 2, bagging: false, ..Opts::default() });
    cfg.discr_nbits = 1;
    cfg.reg_lambda = 0.0;
    cfg.max_nbins = cfg.max_nbins.max(2);
    let bits = src.range(1, 10);
    let n = 1usize << bits;
    let u = 2f32.powi(src.draw(30) as i32 - 15);
    let nf = src.range(1, 6);
    let style = src.draw(3);
    let mut r = src.sub();
    let mut ids: Vec<usize> = (0..n).collect();
    if r.chance(0.7) { for i in (1..n).rev() { ids.swap(i, r.below(i as u64 + 1) as usize); } }
    let mask: Vec<usize> = (0..nf).map(|_| if r.chance(0.6) { 1usize << r.below(bits as u64) } else { 1 + r.below(n as u64 - 1) as usize }).collect();
    let parity = |i: usize, m: usize| ((i & m).count_ones() % 2) as usize;
    let cols = mask.iter().map(|&m| {
        let cat = r.chance(0.6);
        let (a, b) = if cat { (0.0, 1.0) } else { let a = r.normal() as f32; (a, a + 0.5 + r.unit() as f32) };
        Col { vals: ids.iter().map(|&i| if parity(i, m) == 0 { a } else { b }).collect(), cat, kind: "parity" }
    }).collect();
    let (m1, m2) = (mask[r.below(nf as u64) as usize], 1 + r.below(n as u64 - 1) as usize);
    let mut g: Vec<f32> = ids.iter().map(|&i| {
        let p = match style { 0 => parity(i, m1) == 0, 1 => parity(i, m1) == 0 && parity(i, m2) == 0, 2 => parity(i, m1) == 0 && r.chance(0.7), _ => r.chance(0.5) };
        if p { u } else { -u }
    }).collect();
    if style == 1 && r.chance(0.2) { for x in g.iter_mut() { *x = u; } }
    // the gain of splitting some node in two halves: s1, s2 of c rows each
    let c = (n >> (1 + r.below(bits as u64))) as f64;
    let k = |r: &mut Rng| { let j = r.below(c as u64 + 1) as f64; 2.0 * j - c };
    let (s1, s2) = if r.chance(0.3) { (c, -c) } else if r.chance(0.3) { (c, c) } else { (k(&mut r), k(&mut r)) };
    let mut gain = 0.5 * (s1 * s1 / c + s2 * s2 / c - (s1 + s2) * (s1 + s2) / (2.0 * c));
    if r.chance(0.7) { // that of a column at the root
        let m = mask[r.below(nf as u64) as usize];
        let s = |h: usize| ids.iter().zip(&g).filter(|(&i, _)| parity(i, m) == h).map(|(_, &x)| (x / u) as f64).sum::<f64>();
        let c = n as f64 / 2.0;
        gain = 0.5 * (s(0) * s(0) / c + s(1) * s(1) / c - (s(0) + s(1)) * (s(0) + s(1)) / (2.0 * c));
    }
    let gain = (gain as f32) * u * u;
    cfg.min_gain = match r.below(4) { 0 | 1 => gain, 2 => next_up(gain), _ => if gain > 0.0 { f32::from_bits(gain.to_bits() - 1) } else { 0.0 } };
    cfg.min_examples_leaf = if r.chance(0.5) { 1 } else { ((n >> r.below(bits as u64 + 1)) as i64 + r.below(2) as i64) as u32 };
    let t = Table { n, cols, target: g.clone() };
    (cfg, t, g, u)
}

fn c02(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let exact = src.chance(1, 6);
    let (cfg, t, own, unit) = if exact { gen_exact_case(src) } else { let (cfg, t, unit) = gen_tree_case(src, 4000); (cfg, t, vec![], unit) };
    ctx.label_if(exact, "exact gains, min_gain next to one of them");
    let rounds = if exact { 1 } else { src.range(1, 3) };
    ctx.note(|| format!("{:?}", cfg));
    ctx.note(|| t.describe());
    label_case(ctx, &cfg, &t);
    let mut splits = 0u64;
    let mut stopped = 0u64;
    let lambda = cfg.reg_lambda as f64;
    let minl = cfg.min_examples_leaf as usize;
    let gradients = |src: &mut Src| if exact { (own.clone(), (-unit, unit)) } else { gen_grads_in(src, &t, unit) };
    let r = grow(src, &cfg, &t, &gradients, rounds, &mut |_, g, _| {
        let n = g.active.len();
        let (lo, hi) = (g.bounds.0 as f64, g.bounds.1 as f64);
        let w = lo.abs().max(hi.abs()).max(hi - lo);
        let maxv = ((1u32 << cfg.discr_nbits) - 1) as f64;
        let local: Vec<f32> = g.active.iter().map(|&j| g.grads[j]).collect();
        let q = quantise(&local, g.bounds, cfg.discr_nbits);
        let mut to_local = vec![usize::MAX; t.n];
        for (i, &j) in g.active.iter().enumerate() { to_local[j] = i; }
        let sum = |qs: u64, c: usize| -> f64 { qs as f64 * (hi - lo) / maxv + c as f64 * lo };
        let half = |s: f64, c: usize| -> f64 { 0.5 * s * s / (c as f64 + lambda) };
        let mut work = 0usize;
        for (&node, rows) in &g.shape.rows {
            let depth = depth_of(node);
            let leaf = !g.shape.internal.contains(&node);
            if leaf && depth >= cfg.max_tree_depth { continue; }
            work += g.cands.len() * rows.len();
            if work > 30_000_000.max(50 * t.n) { break; }
            let tol = 4e-7 * (depth as f64 + 3.0) * n as f64 * w * w + 1e-36;
            let tol = if exact { 0.0 } else { tol };
            let idx: Vec<usize> = rows.iter().map(|&j| to_local[j]).collect();
            ensure!(idx.iter().all(|&i| i != usize::MAX), "node {} holds an out-of-bag row", node);
            let pc = idx.len();
            let ps = sum(idx.iter().map(|&i| q[i] as u64).sum(), pc);
            // the partition made by the tree, as membership of the left child
            let left: Option<std::collections::HashSet<usize>> = if leaf { None } else {
                Some(g.shape.rows[&(2 * node + 1)].iter().map(|&j| to_local[j]).collect())
            };
            let mut best: Option<(f64, usize)> = None;
            let mut chosen: Option<(f64, usize)> = None;
            for (ci, c) in g.cands.iter().enumerate() {
                let (mut lc, mut lq) = (0usize, 0u64);
                let mut same = left.as_ref().map_or(false, |l| !l.is_empty());
                for &i in &idx {
                    let m = c.mask[i];
                    if m { lc += 1; lq += q[i] as u64; }
                    if same && m != left.as_ref().unwrap().contains(&i) { same = false; }
                }
                if lc < minl || pc - lc < minl || lc == 0 || lc == pc { 
                    continue;
                }
                let ls = sum(lq, lc);
                let rs = ps - ls;
                let gain = half(ls, lc) + half(rs, pc - lc) - half(ps, pc);
                if best.map_or(true, |b| gain > b.0) { best = Some((gain, ci)); }
                if same && chosen.map_or(true, |b| gain > b.0) { chosen = Some((gain, ci)); }
            }
            let what = |ci: usize| { let c = &g.values[ci]; format!("feature {} split {} (value {})", c.0, c.1, c.2) };
            if leaf {
                stopped += 1;
                if let Some((gain, ci)) = best {
                    ensure!(gain <= cfg.min_gain as f64 + tol, "node {} ({} rows) stays a leaf, but {} has gain {} > min_gain {}", node, pc, what(ci), gain, cfg.min_gain);
                }
            } else {
                splits += 1;
                let (lrows, rrows) = (g.shape.rows[&(2 * node + 1)].len(), g.shape.rows[&(2 * node + 2)].len());
                ensure!(lrows >= minl && rrows >= minl, "node {}: split into {} and {} rows, min_examples_leaf {}", node, lrows, rrows, minl);
                let (gain, _) = match chosen { Some(c) => c, None => return Err(format!("node {}: its partition {} / {} is made by no admissible candidate", node, lrows, rrows)) };
                let (bg, bi) = best.unwrap();
                ensure!(gain >= bg - tol, "node {} ({} rows): chosen split has gain {}, {} has {} (tolerance {})", node, pc, gain, what(bi), bg, tol);
                ensure!(if exact { gain > cfg.min_gain as f64 } else { gain > cfg.min_gain as f64 - tol }, "node {}: split with gain {} not above min_gain {}", node, gain, cfg.min_gain);
            }
        }
        Ok(())
    });
    ctx.nontrivial = splits >= 1;
    ctx.count("split nodes checked", splits);
    ctx.count("early leaves checked", stopped);
    r
}

// ---- C03 ---------------------------------------------------------------------------------------

fn passes(data_type: FeatType, value: f32, split_value: f32, supercats: &[u32]) -> bool {
    match data_type {
        FeatType::LoCardCat => value == split_value,
        FeatType::HiCardCat => { let c = value as usize; c < supercats.len() && supercats[c] as f32 <= split_value }
        FeatType::Numerical => value < split_value,
    }
}

fn c03(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let (cfg, t, unit) = gen_tree_case(src, 6000);
    let rounds = src.range(1, 3);
    ctx.note(|| format!("{:?}", cfg));
    ctx.note(|| t.describe());
    label_case(ctx, &cfg, &t);
    let mut nt = false;
    let config = cfg.config();
    let mut leaves_seen = 0u64;
    let mut unseen_rows = 0u64;
    let r = grow(src, &cfg, &t, &|src| gen_grads_in(src, &t, unit), rounds, &mut |data, g, src| {
        let nl = g.leaves.len();
        leaves_seen += nl as u64;
        nt |= nl > 1;
        // partition of the bag
        let mut leaf_of = vec![usize::MAX; t.n];
        for (k, l) in g.leaves.iter().enumerate() {
            ensure!(!l.is_empty(), "leaf {} is empty", k);
            for &j in l {
                ensure!(j < t.n, "leaf {} holds row {} of {}", k, j, t.n);
                ensure!(leaf_of[j] == usize::MAX, "row {} is in leaves {} and {}", j, leaf_of[j], k);
                leaf_of[j] = k;
            }
        }
        let mut in_bag = vec![false; t.n];
        for &j in &g.active { ensure!(j < t.n && !in_bag[j], "row {} active twice or out of range", j); in_bag[j] = true; }
        for j in 0..t.n { ensure!(in_bag[j] == (leaf_of[j] != usize::MAX), "row {}: in bag {}, in a leaf {}", j, in_bag[j], leaf_of[j] != usize::MAX); }
        // counts, depth, size
        ensure!(g.tree.nleafs() == nl, "{} leaf values were asked for, the tree says {} leaves", nl, g.tree.nleafs());
        ensure!(g.tree.ninternal() == g.shape.internal.len() && g.tree.nnodes() == g.tree.ninternal() + nl,
                "{} internal nodes found, tree says {} internal and {} nodes", g.shape.internal.len(), g.tree.ninternal(), g.tree.nnodes());
        for (k, &node) in g.shape.leaf_node.iter().enumerate() {
            ensure!(depth_of(node) <= cfg.max_tree_depth, "leaf {} at node {} is at depth {} > {}", k, node, depth_of(node), cfg.max_tree_depth);
            ensure!(node == 0 || g.leaves[k].len() >= cfg.min_examples_leaf as usize, "leaf {} holds {} rows, min_examples_leaf {}", k, g.leaves[k].len(), cfg.min_examples_leaf);
        }
        // prediction routes as training did
        let p = g.tree.predict(data);
        for j in 0..t.n {
            if in_bag[j] { ensure!(p[j] == leaf_of[j] as f32 + 1.0, "row {} was in leaf {} while training and is predicted in leaf {}", j, leaf_of[j], p[j] - 1.0); }
            else { ensure!(p[j] >= 1.0 && p[j] <= nl as f32 && p[j].fract() == 0.0, "out-of-bag row {} is predicted {}", j, p[j]); }
        }
        let want: Vec<(usize, f32)> = g.inactive.iter().map(|&j| (j, p[j])).collect();
        ensure!(g.inactive.len() + g.active.len() == t.n, "{} in-bag and {} out-of-bag rows of {}", g.active.len(), g.inactive.len(), t.n);
        let mut got = g.oob.clone();
        got.sort_by(|a, b| a.0.cmp(&b.0));
        ensure!(got == want, "out-of-bag updates {:?}.. instead of {:?}..", &got[..got.len().min(8)], &want[..want.len().min(8)]);

        // which candidates make each node's partition?
        let mut to_local = vec![usize::MAX; t.n];
        for (i, &j) in g.active.iter().enumerate() { to_local[j] = i; }
        let mut feasible: std::collections::BTreeMap<usize, Vec<usize>> = Default::default();
        let mut work = 0usize;
        for &node in &g.shape.internal {
            let l: Vec<usize> = g.shape.rows[&(2 * node + 1)].iter().map(|&j| to_local[j]).collect();
            let r: Vec<usize> = g.shape.rows[&(2 * node + 2)].iter().map(|&j| to_local[j]).collect();
            work += g.cands.len();
            if work > 200_000 { return Ok(()); }
            let cs: Vec<usize> = (0..g.cands.len()).filter(|&ci| {
                let m = &g.cands[ci].mask;
                l.iter().all(|&i| m[i]) && r.iter().all(|&i| !m[i])
            }).collect();
            ensure!(!cs.is_empty(), "the partition of node {} ({} / {} rows) is made by no candidate", node, l.len(), r.len());
            feasible.insert(node, cs);
        }
        // unseen rows: follow every candidate that explains the training partition
        if t.cols.is_empty() { return Ok(()); }
        let other = gen_other_rows(src, &t, 80);
        let od = other.data(&config);
        let p = g.tree.predict(&od);
        for i in 0..other.n {
            unseen_rows += 1;
            let mut frontier = vec![0usize];
            let mut reach = vec![];
            while let Some(node) = frontier.pop() {
                match feasible.get(&node) {
                    None => reach.push(g.shape.leaf_node.iter().position(|&x| x == node).unwrap()),
                    Some(cs) => {
                        let (mut l, mut r) = (false, false);
                        for &ci in cs {
                            let (feat, _, v) = g.values[ci];
                            let sc: &[u32] = g.supercats.get(feat).map(|s| &s[..]).unwrap_or(&[]);
                            if passes(data.feat_type(feat), other.cols[feat].vals[i], v, sc) { l = true } else { r = true }
                        }
                        if l { frontier.push(2 * node + 1); }
                        if r { frontier.push(2 * node + 2); }
                    }
                }
            }
            ensure!(reach.iter().any(|&k| p[i] == k as f32 + 1.0), "other row {} is predicted in leaf {}, its values lead to {:?}", i, p[i] - 1.0, reach);
        }
        Ok(())
    });
    ctx.nontrivial = nt;
    ctx.count("leaves checked", leaves_seen);
    ctx.count("unseen rows routed", unseen_rows);
    r
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C02", run: c02, quick: 40000, thorough: 1000000,
            rule: "random table, configuration and gradients; 1-3 trees grown in one context; for every split node and every early leaf the gains of all candidates are recomputed in f64 from the quantised gradients. Non-trivial: at least one split.",
            assumptions: &["gains compared with a tolerance of 4e-7 (depth+3) n W^2 for f32 sums", "quantised values are read back through the library's bit slices (checked by C11), candidate masks from the data set (checked by C17)"] },
        Prop { id: "C03", run: c03, quick: 60000, thorough: 1600000,
            rule: "random table, configuration and gradients; 1-3 trees grown in one context; leaves, depth, sizes, counts, routing of training, out-of-bag and unseen rows. Non-trivial: more than one leaf.",
            assumptions: &["for unseen rows every candidate that explains a node's training partition is accepted as its test"] },
    ]
}
