//! C28: calls of the safe interface with arguments nobody would intend. They may be refused or give
//! any result; they must not touch memory that is not theirs (judged by the sanitised build).
use bitboost::binner::Binner;
use bitboost::data::Data;
use bitboost::dataset::Dataset;
use bitboost::metric::{metric_from_name, Metric};
use bitboost::objective::Objective;
use bitboost::tree::{AdditiveTree, SplitCrit, SplitType, Tree, TreeLearner, TreeLearnerContext};

use crate::gen::*;
use crate::train::*;
use vengine::*;

pub fn props() -> Vec<Prop> {
    vec![Prop { id: "C28", run: c28, quick: 20000, thorough: 20000,
        rule: "a model or tree with a split, and at least one call that is not refused",
        assumptions: &[] }]
}

fn odd(r: &mut Rng) -> f32 {
    [f32::NAN, f32::INFINITY, f32::NEG_INFINITY, -1.0, 1e30, -1e30, 0.5, 4294967296.0, 4294967295.0, 16777217.0, 65536.0, 256.0, -0.0, 3.4e38, 1e-45][r.below(15) as usize]
}
fn index(r: &mut Rng, n: usize) -> usize {
    match r.below(8) { 0 => n, 1 => n + 1, 2 => n + r.below(100) as usize, 3 => usize::MAX, 4 => u32::MAX as usize, 5 => usize::MAX / 2, 6 => n * 2 + 1, _ => r.below(n as u64 + 1) as usize }
}
fn length(r: &mut Rng, n: usize) -> usize {
    match r.below(6) { 0 => 0, 1 => n + 1, 2 => n.max(1) - 1, 3 => n / 2, 4 => n + r.range(1, 300), _ => r.below(n as u64 + 1) as usize }
}

/// A table with other columns: fewer, more, of other types, of any length.
fn strange(r: &mut Rng, cfg: &Cfg, t: &Table) -> Data {
    let config = cfg.config();
    let nf = match r.below(5) { 0 => 0, 1 => t.cols.len() + r.range(1, 3), _ => r.below(t.cols.len() as u64 + 1) as usize };
    let n = match r.below(8) { 0 => 0, 1 => 1, 2 => t.n + 1, _ => r.range(1, 80) };
    let mut d = Data::empty(&config, nf, n);
    let p = [0.0, 0.1, 0.6][r.below(3) as usize];
    for j in 0..nf {
        if r.chance(0.1) { continue; }
        let c = &t.cols[r.below(t.cols.len() as u64) as usize];
        let c = if r.chance(0.7) && j < t.cols.len() { &t.cols[j] } else { c };
        let v: Vec<f32> = (0..n).map(|_| if r.chance(p) { odd(r) } else { c.vals[r.below(t.n as u64) as usize] }).collect();
        let cat = c.cat && r.chance(0.5) && v.iter().all(|x| !(*x > 1e6)); // (memory goes with the highest category)
        if d.set_feature_data(j, &v, cat).is_err() { let _ = d.set_feature_data(j, &v, false); }
    }
    d
}

/// A configuration the library did not see before: the other one with settings replaced.
fn other_cfg(r: &mut Rng, cfg: &Cfg) -> Cfg {
    let mut c = cfg.clone();
    for _ in 0..r.range(1, 3) {
        match r.below(12) {
            0 => c.max_tree_depth = r.below(3) as usize, 1 => c.max_nbins = [0, 1, 2, 300][r.below(4) as usize], 2 => c.niterations = 0,
            3 => c.min_examples_leaf = [0, 1, u32::MAX][r.below(3) as usize], 4 => c.compression_threshold = odd(r), 5 => c.min_gain = odd(r), 6 => c.reg_lambda = odd(r),
            7 => c.example_fraction = [0.0, -1.0, 2.0, f32::NAN, 1e-9, 0.999][r.below(6) as usize], 8 => c.feature_fraction = [0.0, -1.0, 2.0, f32::NAN, 1e-9][r.below(5) as usize],
            9 => c.sample_freq = [0, 1, usize::MAX][r.below(3) as usize], 10 => c.discr_nbits = [0, 1, 2, 3, 4, 5, 8, 16, 64][r.below(9) as usize], _ => c.learning_rate = odd(r),
        }
    }
    c
}

struct Odd { g: Vec<f32>, p: Vec<f32>, b: (f32, f32), leaf: f32 }
impl Objective for Odd {
    fn name(&self) -> &'static str { "odd" }
    fn gradients(&self) -> &[f32] { &self.g }
    fn predictions(&self) -> &[f32] { &self.p }
    fn bounds(&self) -> (f32, f32) { self.b }
    fn bias(&self) -> f32 { self.leaf }
    fn initialize(&mut self, _: &bitboost::config::Config, _: &[f32]) {}
    fn update(&mut self, _: &[f32]) {}
    fn predict_leaf_value(&mut self, t: &[f32], ex: &[usize]) -> f32 { ex.iter().map(|&i| t[i]).fold(0.0, |a, b| a + b) + self.leaf }
    fn update_out_of_bag_prediction(&mut self, i: usize, v: f32) { self.p[i] += v; }
}

fn c28(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let o = Opts { max_n: 400, max_iter: 2, extremes: 0, degenerate: src.chance(1, 6), ..Opts::default() };
    // nothing odd, but so many rows that the stores grow while nodes are split
    let growth = src.chance(1, 250);
    let o = if growth { Opts { max_n: 2500, huge: 1, ..Opts::default() } } else { o };
    let (cfg, t) = gen_case(src, &o);
    let config = cfg.config();
    ctx.note(|| format!("{:?}", cfg));
    ctx.note(|| t.describe());
    let data = t.data(&config);
    if growth {
        ctx.label("so many rows that stores grow");
        let _ = guarded(|| { let (m, p) = boost(&config, &data); ctx.nontrivial = distinct(&p) > 1; m.predict(&data); });
        return Ok(());
    }
    let mut trees: Vec<Tree> = vec![];
    let mut model: Option<AdditiveTree> = None;
    let _ = guarded(|| { model = Some(boost(&config, &data).0); let mut o = objective(cfg.objective); trees = manual(&config, &data, o.as_mut(), 1).trees; });
    if let Some(tree) = trees.get(0) { ctx.nontrivial = tree.ninternal() > 0; }
    let mut passed = 0;
    let n = t.n;
    for _ in 0..src.range(2, 10) {
        let kind = src.draw(9);
        let mut r = src.sub();
        let what = ["predict on another table", "prediction buffers", "tree positions", "setting columns", "objective state", "data set updates", "training on odd gradients", "training with odd settings", "metrics and bins", "own trees"][kind as usize];
        ctx.note(|| what.to_string());
        let mut go = |f: &mut dyn FnMut(&mut Rng)| { if guarded(|| f(&mut r)).is_ok() { passed += 1; } };
        match kind {
            0 => go(&mut |r| {
                let d = strange(r, &cfg, &t);
                if let (Some(m), true) = (model.as_ref(), r.chance(0.5)) { m.predict(&d); } else if let Some(t) = trees.get(0) { t.predict(&d); }
            }),
            1 => {
                go(&mut |r| if let Some(m) = model.as_ref() { let mut b = vec![0.0; length(r, n)]; m.predict_buf(&data, &mut b); });
                go(&mut |r| if let Some(t) = trees.get(0) { let mut b = vec![0.0; length(r, n)]; t.predict_buf(&data, &mut b); });
                go(&mut |r| if let Some(t) = trees.get(0) { let mut b = vec![0.0; length(r, n)]; t.predict_and(&data, &mut b, |x, y| *y += x); });
                go(&mut |r| if let Some(t) = trees.get(0) { t.predict_single(&data, index(r, n)); });
            }
            2 => if let Some(t) = trees.get_mut(0) {
                let m = t.max_nnodes();
                go(&mut |r| { t.node_value(index(r, m)); });
                go(&mut |r| { t.set_value(index(r, m), 1.0); });
                go(&mut |r| { let s = SplitCrit { split_type: [SplitType::NumLt, SplitType::LoCardCatEq, SplitType::HiCardCatLt][r.below(3) as usize].clone(), feature_id: index(r, 4), split_value: odd(r) }; t.split_node(index(r, m), s); });
                go(&mut |_| { t.predict(&data); });
                go(&mut |r| { t.get_supercat(index(r, 4), index(r, 30)); });
                go(&mut |_| { format!("{:?}", t); });
            },
            3 => {
                let mut d = t.data(&config);
                for _ in 0..3 {
                    go(&mut |r| { let k = if r.chance(0.5) { length(r, n) } else { n }; let v: Vec<f32> = (0..k).map(|_| if r.chance(0.05) { odd(r) } else { r.below(20) as f32 }).collect();
                        let id = if r.chance(0.5) { index(r, t.cols.len() + 1) } else { r.below(t.cols.len() as u64 + 1) as usize }; let cat = r.chance(0.4); let _ = d.set_feature_data(id, &v, cat && v.iter().all(|x| !(*x > 1e6))); });
                    go(&mut |r| { let i = index(r, t.cols.len() + 1); d.get_feature(i).len(); });
                    go(&mut |r| { let i = index(r, t.cols.len() + 1); d.feat_limits(i); d.feat_card(i); d.feat_type(i); d.max_nbins(i); d.feat_name(i).len(); });
                }
                if let Some(m) = model.as_ref() { go(&mut |_| { m.predict(&d); }); }
                go(&mut |_| { boost(&config, &d); });
            }
            4 => {
                let mut ob = objective(cfg.objective);
                for _ in 0..4 {
                    go(&mut |r| match r.below(5) {
                        0 => { let k = length(r, n); ob.initialize(&config, &t.target[..k.min(n)]); }
                        1 => { ob.initialize(&config, &t.target); }
                        2 => { let k = length(r, n); let mut v = t.target.clone(); v.resize(k, 1.0); ob.update(&v); }
                        3 => { let ex: Vec<usize> = (0..r.below(9)).map(|_| index(r, n)).collect(); ob.predict_leaf_value(&t.target, &ex); }
                        _ => { ob.update_out_of_bag_prediction(index(r, n), odd(r)); }
                    });
                }
                go(&mut |_| { ob.bounds(); ob.gradients().len(); });
            }
            5 | 6 => {
                let c2 = other_cfg(&mut src.sub(), &cfg);
                let c2 = if src.chance(1, 3) { c2 } else { cfg.clone() };
                let config = c2.config();
                go(&mut |r| {
                    let mut ds = Dataset::new(&config, &data);
                    for _ in 0..r.range(1, 3) {
                        let k = if kind == 5 && r.chance(0.6) { length(r, n) } else { n };
                        let p = [0.0, 0.05, 0.9][r.below(3) as usize];
                        let g: Vec<f32> = (0..k).map(|_| if r.chance(p) { odd(r) } else { r.normal() as f32 }).collect();
                        let b = match r.below(6) { 0 => (odd(r), odd(r)), 1 => (1.0, -1.0), 2 => (0.0, 0.0), _ => (-1.0, 1.0) };
                        ds.update(&config, &g, b);
                        let f = index(r, t.cols.len());
                        let _ = guarded(|| { let nb = ds.get_nbins(f); ds.get_split_value(f, index(r, nb)); });
                        let _ = guarded(|| { let f = r.below(t.cols.len() as u64) as usize; let nb = ds.get_nbins(f); let s = index(r, nb); ds.get_bitvec(f, s).len(); ds.get_split_value(f, s); });
                        let _ = guarded(|| { ds.map_index(index(r, n)); });
                        if kind == 6 {
                            let mut cx = TreeLearnerContext::new(&config, &data);
                            let mut ob = Odd { g, p: vec![0.0; if r.chance(0.2) { length(r, n) } else { n }], b, leaf: if r.chance(0.3) { odd(r) } else { 1.0 } };
                            let sc = ds.get_supercats().clone();
                            let sc = if r.chance(0.2) { vec![] } else { sc };
                            let tree = TreeLearner::new(&mut cx, &ds, sc, &mut ob).train();
                            tree.predict(&data);
                            let other = strange(r, &c2, &t);
                            tree.predict(&other);
                        }
                    }
                });
            }
            7 => {
                let c2 = other_cfg(&mut src.sub(), &cfg);
                let config = c2.config();
                go(&mut |r| {
                    let d = if r.chance(0.5) { strange(r, &c2, &t) } else { t.data(&config) };
                    let (m, _) = boost(&config, &d);
                    m.predict(&d);
                    m.predict(&data);
                });
            }
            8 => {
                go(&mut |r| { let name = ["l2", "rmse", "binary_loss", "binary_error", "binary_error01"][r.below(5) as usize]; let m: Box<dyn Metric> = metric_from_name(name).unwrap();
                    let (a, b) = (length(r, n), length(r, n)); let (x, y): (Vec<f32>, Vec<f32>) = ((0..a).map(|_| odd(r)).collect(), (0..b).map(|_| odd(r)).collect()); m.eval(&x, &y); });
                go(&mut |r| {
                    let mut bins = vec![0u32; r.below(40) as usize];
                    let l = if r.chance(0.5) { (0.0, 1.0) } else { (odd(r), odd(r)) };
                    let mut b = Binner::new(&mut bins, l);
                    for _ in 0..20 { let v = if r.chance(0.5) { odd(r) } else { r.normal() as f32 }; b.insert(v, 1, |x, y| *x += y); }
                    let _ = guarded(|| b.bin_with_rank(r.below(60) as u32, |&x| x));
                    b.bin_representative(index(r, 40));
                    b.bin_value(index(r, 40));
                });
            }
            _ => go(&mut |r| {
                let depth = r.range(0, 4);
                let groups: Vec<Vec<u32>> = (0..r.below(t.cols.len() as u64 + 2)).map(|_| (0..r.below(20)).map(|_| r.below(6) as u32).collect()).collect();
                let mut tree = Tree::new(depth, groups);
                for _ in 0..r.range(0, 6) {
                    let s = SplitCrit { split_type: [SplitType::NumLt, SplitType::LoCardCatEq, SplitType::HiCardCatLt][r.below(3) as usize].clone(), feature_id: if r.chance(0.1) { index(r, 4) } else { r.below(t.cols.len() as u64) as usize },
                                        split_value: if r.chance(0.3) { odd(r) } else { r.below(9) as f32 } };
                    let k = r.below(20) as usize;
                    let _ = guarded(|| tree.split_node(k, s));
                }
                tree.predict(&data);
                let d = strange(r, &cfg, &t);
                tree.predict(&d);
            }),
        }
        ctx.label(what);
    }
    ctx.labels.sort();
    ctx.labels.dedup();
    ctx.nontrivial &= passed > 0;
    ctx.count("calls that are not refused", passed);
    Ok(())
}
