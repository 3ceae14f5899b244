#![allow(dead_code, unused_imports, unused_mut)]
// --- helpers -----------------------------------------------------------------------------------
use bitboost::boost::Booster;
use bitboost::config::Config;
use bitboost::data::{Data, FeatType};
use bitboost::dataset::Dataset;
use bitboost::metric::*;
use bitboost::objective::{objective_from_name, Objective};
use bitboost::tree::{AdditiveTree, Tree, TreeLearner, TreeLearnerContext};

/// A configuration from blank-separated `name=value` settings.
fn config(settings: &str) -> Config { Config::parse(settings.split_whitespace()).unwrap() }

/// A deterministic stream of pseudo-random numbers.
struct Rnd(u64);
impl Rnd {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        (self.0 >> 33) ^ (self.0 >> 13 & 0x7fff)
    }
    fn below(&mut self, n: usize) -> usize { (self.next() % n as u64) as usize }
    fn unit(&mut self) -> f32 { (self.next() % 65536) as f32 / 65536.0 }
}

/// Columns with their "categorical" flag, then the target.
fn table(c: &Config, cols: &[(Vec<f32>, bool)], target: &[f32]) -> Data {
    let mut d = Data::empty(c, cols.len(), target.len());
    for (i, (col, cat)) in cols.iter().enumerate() { d.set_feature_data(i, col, *cat).unwrap(); }
    d.set_feature_data(cols.len(), target, false).unwrap();
    d
}

fn boost(c: &Config, d: &Data) -> AdditiveTree {
    let mut obj = objective_from_name(&c.objective).unwrap();
    let ms = metrics_from_names(&c.metrics).unwrap();
    Booster::new(c, d, obj.as_mut(), &ms).train()
}

/// Boosting by hand: the model, its trees and the predictions the objective accumulated.
fn by_hand(c: &Config, d: &Data) -> (AdditiveTree, Vec<Tree>, Vec<f32>) {
    let mut obj = objective_from_name(&c.objective).unwrap();
    let mut ds = Dataset::new(c, d);
    let mut ctx = TreeLearnerContext::new(c, d);
    let mut model = AdditiveTree::new();
    let mut trees = Vec::new();
    obj.initialize(c, d.get_target());
    model.set_bias(obj.bias());
    for _ in 0..c.niterations {
        obj.update(d.get_target());
        ds.update(c, obj.gradients(), obj.bounds());
        let sc = ds.get_supercats().clone();
        let tree = TreeLearner::new(&mut ctx, &ds, sc, obj.as_mut()).train();
        trees.push(tree.clone());
        model.push_tree(tree);
    }
    (model, trees, obj.predictions().to_vec())
}

fn close(a: f32, b: f32) -> bool { (a - b).abs() <= 1e-3 * (1.0 + a.abs().max(b.abs())) }
fn all_close(a: &[f32], b: &[f32]) -> bool { a.len() == b.len() && a.iter().zip(b).all(|(x, y)| close(*x, *y)) }
fn mse(t: &[f32], p: &[f32]) -> f64 {
    t.iter().zip(p).map(|(a, b)| (*a as f64 - *b as f64).powi(2)).sum::<f64>() / t.len() as f64
}
fn must(ok: bool, what: &str) { if !ok { eprintln!("FAILED: {}", what); std::process::exit(1); } }
// -----------------------------------------------------------------------------------------------

