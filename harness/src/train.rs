//! Driving the library: boosting runs, single trees with an observing objective.
#![allow(dead_code)]

use bitboost::boost::Booster;
use bitboost::config::Config;
use bitboost::data::Data;
use bitboost::dataset::Dataset;
use bitboost::metric::Metric;
use bitboost::objective::{objective_from_name, Objective};
use bitboost::tree::{AdditiveTree, Tree, TreeLearner, TreeLearnerContext};

use crate::gen::*;
use vengine::*;

pub fn objective(name: &str) -> Box<dyn Objective> { objective_from_name(name).expect("objective") }

/// Booster run: model and the objective's own final predictions.
pub fn boost(config: &Config, data: &Data) -> (AdditiveTree, Vec<f32>) {
    let mut obj = objective(&config.objective);
    let metrics: Vec<Box<dyn Metric>> = vec![];
    let model = Booster::new(config, data, obj.as_mut(), &metrics).train();
    let p = obj.predictions().to_vec();
    (model, p)
}

pub struct Run {
    pub bias: f32,
    pub trees: Vec<Tree>,
    pub snapshots: Vec<Vec<f32>>, // predictions after 0, 1, ... iterations
}

/// The boosting loop written out, as the single-tree command does it.
pub fn manual(config: &Config, data: &Data, obj: &mut dyn Objective, iters: usize) -> Run {
    let target = data.get_target();
    obj.initialize(config, target);
    let mut run = Run { bias: obj.bias(), trees: vec![], snapshots: vec![obj.predictions().to_vec()] };
    let mut dataset = Dataset::new(config, data);
    let mut ctx = TreeLearnerContext::new(config, data);
    for _ in 0..iters {
        obj.update(target);
        dataset.update(config, obj.gradients(), obj.bounds());
        let supercats = dataset.get_supercats().clone();
        let tree = TreeLearner::new(&mut ctx, &dataset, supercats, &mut *obj).train();
        run.trees.push(tree);
        run.snapshots.push(obj.predictions().to_vec());
    }
    run
}

pub fn bits(v: &[f32]) -> Vec<u32> { v.iter().map(|x| x.to_bits()).collect() }

pub fn first_diff(a: &[f32], b: &[f32]) -> Option<usize> {
    if a.len() != b.len() { return Some(a.len().min(b.len())); }
    (0..a.len()).find(|&i| a[i].to_bits() != b[i].to_bits() && !(a[i] == 0.0 && b[i] == 0.0))
}

/// Index of the first pair differing by more than rounding of `ops` additions.
pub fn first_far(a: &[f32], b: &[f32], ops: usize) -> Option<usize> {
    if a.len() != b.len() { return Some(a.len().min(b.len())); }
    let m = a.iter().chain(b).fold(0f32, |m, x| m.max(x.abs()));
    let tol = 6e-7 * (ops as f32 + 3.0) * m + 1e-37;
    (0..a.len()).find(|&i| !((a[i] - b[i]).abs() <= tol))
}

pub fn distinct(v: &[f32]) -> usize {
    let mut b = bits(v);
    b.sort();
    b.dedup();
    b.len()
}

// ------------------------------------------------------------------------------------------------

/// An objective with given gradients that records the leaves; leaf k (from 1) gets the value k.
pub struct Fixed {
    pub grads: Vec<f32>,
    pub preds: Vec<f32>,
    pub bounds: (f32, f32),
    pub leaves: Vec<Vec<usize>>,
    pub oob: Vec<(usize, f32)>,
    pub mean_leaves: bool, // leaf value = mean of the gradients of its rows instead
}

impl Fixed {
    pub fn new(grads: Vec<f32>, bounds: (f32, f32)) -> Fixed {
        let n = grads.len();
        Fixed { grads, preds: vec![0.0; n], bounds, leaves: vec![], oob: vec![], mean_leaves: false }
    }
}

impl Objective for Fixed {
    fn name(&self) -> &'static str { "fixed" }
    fn gradients(&self) -> &[f32] { &self.grads }
    fn predictions(&self) -> &[f32] { &self.preds }
    fn bounds(&self) -> (f32, f32) { self.bounds }
    fn bias(&self) -> f32 { 0.0 }
    fn initialize(&mut self, _: &Config, _: &[f32]) {}
    fn update(&mut self, _: &[f32]) {}
    fn predict_leaf_value(&mut self, _: &[f32], examples: &[usize]) -> f32 {
        self.leaves.push(examples.to_vec());
        if self.mean_leaves {
            let s: f64 = examples.iter().map(|&i| self.grads[i] as f64).sum();
            (s / examples.len() as f64) as f32
        } else { self.leaves.len() as f32 }
    }
    fn update_out_of_bag_prediction(&mut self, i: usize, value: f32) { self.oob.push((i, value)); }
}

/// Gradient vectors and bounds of many shapes.
pub fn gen_grads(src: &mut Src, t: &Table) -> (Vec<f32>, (f32, f32)) {
    let style = src.weighted(&[30, 14, 14, 14, 10, 6, 10]);
    let bstyle = src.weighted(&[40, 20, 15, 15, 10]);
    let p = src.draw(7) as usize;
    let mut r = src.sub();
    let n = t.n;
    let col = if t.cols.is_empty() { None } else { Some(&t.cols[p % t.cols.len()]) };
    let mid = col.map(|c| { let mut v = c.vals.clone(); v.sort_by(|a, b| a.partial_cmp(b).unwrap()); v[n / 2] }).unwrap_or(0.0);
    let mut g: Vec<f32> = (0..n).map(|i| {
        let s = match col { Some(c) => if c.vals[i] > mid { 0.7 } else { -0.5 }, None => 0.0 };
        let s2 = match col { Some(c) if c.cat => (((c.vals[i] as u64).wrapping_mul(2654435761) >> 3) % 9) as f64 / 4.0 - 1.0, _ => s };
        match style {
            0 => (s2 + 0.3 * r.normal()) as f32,
            1 => if r.chance(0.5 + s * 0.4) { 1.0 } else { -1.0 },
            2 => (r.below(5) as f32 - 2.0) * 0.5,
            3 => (0.8 * s2 + s) as f32,
            4 => (r.normal() * (r.normal() * 1.5).exp()) as f32,
            5 => 0.0,
            _ => (s + 0.05 * r.normal()) as f32,
        }
    }).collect();
    if p == 7 { let k = r.below(n as u64) as usize; g[k] = 50.0; }
    let m = g.iter().fold(0f32, |m, x| m.max(x.abs())).max(0.01);
    let b = match bstyle { 0 => (-m, m), 1 => (-1.0, 1.0), 2 => (-0.5 * m, 0.5 * m), 3 => (-1.0, 2.0), _ => (-1.25, 1.25) };
    (g, b)
}

/// The unit of the gradients: mostly 1, else a power of two; `min_gain` is given in its square.
pub fn gen_unit(src: &mut Src, cfg: &mut Cfg) -> f32 {
    if !src.chance(1, 5) { return 1.0; }
    let u = 2f32.powi(if src.chance(2, 3) { -(src.draw(30) as i32) } else { src.draw(20) as i32 });
    cfg.min_gain *= u * u;
    u
}

/// The gradients of `gen_grads` in another unit.
pub fn gen_grads_in(src: &mut Src, t: &Table, unit: f32) -> (Vec<f32>, (f32, f32)) {
    let (mut g, b) = gen_grads(src, t);
    for x in g.iter_mut() { *x *= unit; }
    (g, (b.0 * unit, b.1 * unit))
}

pub const MAX_LEAF_SCAN_DEPTH: usize = 12;

/// What one recorded tree looks like: rows (global ids) of every node.
pub struct Shape {
    pub rows: std::collections::BTreeMap<usize, Vec<usize>>, // node -> rows, leaves and internal
    pub leaf_node: Vec<usize>,                               // leaf k -> node id
    pub internal: Vec<usize>,
}

/// Reconstruct the node structure from the leaf values (leaf k has value k+1).
pub fn shape(tree: &Tree, leaves: &[Vec<usize>]) -> Result<Shape, String> {
    let mut leaf_node = vec![usize::MAX; leaves.len()];
    for node in 0..tree.max_nnodes() {
        let v = tree.node_value(node);
        if v != 0.0 {
            let k = v as usize;
            ensure!(k as f32 == v && k >= 1 && k <= leaves.len(), "node {} has a value {} that no leaf got", node, v);
            ensure!(leaf_node[k - 1] == usize::MAX, "leaf value {} was set at nodes {} and {}", v, leaf_node[k - 1], node);
            leaf_node[k - 1] = node;
        }
    }
    let mut rows = std::collections::BTreeMap::<usize, Vec<usize>>::new();
    for (k, l) in leaves.iter().enumerate() {
        ensure!(leaf_node[k] != usize::MAX, "value of leaf {} ({} rows) is stored at no node", k, l.len());
        let mut node = leaf_node[k];
        ensure!(!rows.contains_key(&node), "leaf {} at node {} lies above another leaf", k, node);
        loop {
            rows.entry(node).or_default().extend(l);
            if node == 0 { break; }
            node = (node - 1) / 2;
            ensure!(!leaf_node.contains(&node), "node {} is both a leaf and an ancestor of leaf {}", node, k);
        }
    }
    for r in rows.values_mut() { r.sort(); }
    let internal: Vec<usize> = rows.keys().cloned().filter(|n| !leaf_node.contains(n)).collect();
    for &n in &internal {
        ensure!(rows.contains_key(&(2 * n + 1)) && rows.contains_key(&(2 * n + 2)), "internal node {} lacks a child", n);
    }
    Ok(Shape { rows, leaf_node, internal })
}
