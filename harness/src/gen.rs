//! Generators of data sets and configurations (shared by the binaries through #[path]).
#![allow(dead_code)]

use bitboost::config::Config;
use bitboost::data::Data;
use vengine::{Rng, Src};

#[derive(Clone, Debug)]
pub struct Cfg {
    pub objective: &'static str,
    pub niterations: usize,
    pub learning_rate: f32,
    pub reg_lambda: f32,
    pub min_examples_leaf: u32,
    pub min_gain: f32,
    pub huber_alpha: f32,
    pub max_nbins: usize,
    pub discr_nbits: usize,
    pub max_tree_depth: usize,
    pub compression_threshold: f32,
    pub binary_gradient_bound: f32,
    pub random_seed: u64,
    pub feature_fraction: f32,
    pub example_fraction: f32,
    pub sample_freq: usize,
}

impl Cfg {
    pub fn lines(&self) -> Vec<(&'static str, String)> {
        vec![
            ("objective", self.objective.to_string()),
            ("niterations", self.niterations.to_string()),
            ("learning_rate", self.learning_rate.to_string()),
            ("reg_lambda", self.reg_lambda.to_string()),
            ("min_examples_leaf", self.min_examples_leaf.to_string()),
            ("min_gain", self.min_gain.to_string()),
            ("huber_alpha", self.huber_alpha.to_string()),
            ("max_nbins", self.max_nbins.to_string()),
            ("discr_nbits", self.discr_nbits.to_string()),
            ("max_tree_depth", self.max_tree_depth.to_string()),
            ("compression_threshold", self.compression_threshold.to_string()),
            ("binary_gradient_bound", self.binary_gradient_bound.to_string()),
            ("random_seed", self.random_seed.to_string()),
            ("feature_fraction", self.feature_fraction.to_string()),
            ("example_fraction", self.example_fraction.to_string()),
            ("sample_freq", self.sample_freq.to_string()),
        ]
    }
    pub fn config(&self) -> Config {
        let mut c = Config::new();
        c.objective = self.objective.to_string();
        c.niterations = self.niterations;
        c.learning_rate = self.learning_rate;
        c.reg_lambda = self.reg_lambda;
        c.min_examples_leaf = self.min_examples_leaf;
        c.min_gain = self.min_gain;
        c.huber_alpha = self.huber_alpha;
        c.max_nbins = self.max_nbins;
        c.discr_nbits = self.discr_nbits;
        c.max_tree_depth = self.max_tree_depth;
        c.compression_threshold = self.compression_threshold;
        c.binary_gradient_bound = self.binary_gradient_bound;
        c.random_seed = self.random_seed;
        c.feature_fraction = self.feature_fraction;
        c.example_fraction = self.example_fraction;
        c.sample_freq = self.sample_freq;
        c
    }
    pub fn sampling(&self) -> bool { self.feature_fraction < 1.0 || self.example_fraction < 1.0 }
}

#[derive(Clone, Debug)]
pub struct Col { pub vals: Vec<f32>, pub cat: bool, pub kind: &'static str }

#[derive(Clone, Debug)]
pub struct Table { pub n: usize, pub cols: Vec<Col>, pub target: Vec<f32> }

impl Table {
    pub fn data(&self, config: &Config) -> Data {
        let mut d = Data::empty(config, self.cols.len(), self.n);
        for (i, c) in self.cols.iter().enumerate() { d.set_feature_data(i, &c.vals, c.cat).expect("set_feature_data"); }
        d.set_feature_data(self.cols.len(), &self.target, false).expect("set target");
        d
    }
    pub fn rows(&self, idx: &[usize]) -> Table {
        Table {
            n: idx.len(),
            cols: self.cols.iter().map(|c| Col { vals: idx.iter().map(|&i| c.vals[i]).collect(), cat: c.cat, kind: c.kind }).collect(),
            target: idx.iter().map(|&i| self.target[i]).collect(),
        }
    }
    pub fn describe(&self) -> String {
        let cs: Vec<String> = self.cols.iter().map(|c| format!("{}{}[{}]", if c.cat { "cat:" } else { "" }, c.kind, preview(&c.vals, 12))).collect();
        format!("n={} cols={{{}}} target[{}]", self.n, cs.join(" "), preview(&self.target, 12))
    }
    pub fn has(&self, kind_prefix: &str) -> bool { self.cols.iter().any(|c| c.kind.starts_with(kind_prefix)) }
}

pub fn preview(v: &[f32], k: usize) -> String {
    let s: Vec<String> = v.iter().take(k).map(|x| format!("{}", x)).collect();
    if v.len() > k { format!("{},..", s.join(",")) } else { s.join(",") }
}

/// What a generated case may contain.
#[derive(Clone)]
pub struct Opts {
    pub objectives: &'static [&'static str],
    pub max_n: usize,
    pub min_n: usize,
    pub bagging: bool,
    pub feat_sampling: bool,
    pub max_iter: usize,
    pub numeric: bool,
    pub hicard: bool,
    pub degenerate: bool,  // constant targets / columns, tiny n more often
    pub blocky: bool,      // prefer rows clustered by value (compression)
    pub extremes: u32,     // one case in so many has an unusual size (see Extreme); 0: none
    pub balanced: u32,     // one case in so many is a balanced table, see there; 0: none
    pub huge: u32,         // one case in so many has more than 2^21 rows (65536 blocks of 32); 0: none
}

/// Sizes beyond the usual ones: where an index, count or category no longer fits in 8 or 16 bits.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Extreme { None, ManyBins, Deep, Wide, HugeCat, ManyIter, Large, Huge }

pub fn gen_extreme(src: &mut Src, o: &Opts) -> Extreme {
    if o.huge > 0 && src.chance(1, o.huge as u64) { return Extreme::Huge; }
    if o.extremes == 0 || !src.chance(1, o.extremes as u64) { return Extreme::None; }
    match src.weighted(&[30, 20, 24, 16, 12, 6]) {
        0 => Extreme::ManyBins,
        1 => Extreme::Deep,
        2 => Extreme::Wide,
        3 => Extreme::HugeCat,
        4 => Extreme::ManyIter,
        _ => if o.max_n >= 2500 { Extreme::Large } else { Extreme::Deep },
    }
}

fn adjust(src: &mut Src, e: Extreme, n: usize, cfg: &mut Cfg) -> usize {
    match e {
        Extreme::None => n,
        Extreme::ManyBins => { cfg.max_nbins = *src.pick(&[256usize, 257, 300, 512, 513, 600, 1000]); n.min(1500) }
        Extreme::Deep => {
            cfg.max_tree_depth = *src.pick(&[9usize, 10, 11, 12, 14, 16, 17, 18]);
            cfg.niterations = cfg.niterations.min(3);
            cfg.min_gain = 0.0;
            cfg.min_examples_leaf = cfg.min_examples_leaf.min(2);
            cfg.max_nbins = if cfg.max_nbins >= 15 { 32 } else { cfg.max_nbins };
            n.max(40).min(2500)
        }
        Extreme::Wide => { cfg.niterations = cfg.niterations.min(2); cfg.max_tree_depth = cfg.max_tree_depth.min(4); if src.chance(1, 3) { cfg.max_nbins = 255; } if src.chance(1, 3) { src.range(2, 12) } else { src.range(2, 90) } }
        Extreme::HugeCat => { cfg.max_nbins = cfg.max_nbins.min(64); n.min(300) }
        Extreme::ManyIter => { if cfg.objective != "hinge" { cfg.niterations = src.range(255, 300); } cfg.max_tree_depth = cfg.max_tree_depth.min(3); n.min(40) }
        Extreme::Large => {
            cfg.niterations = cfg.niterations.min(2);
            cfg.max_nbins = cfg.max_nbins.min(16);
            cfg.max_tree_depth = cfg.max_tree_depth.min(4);
            match src.draw(3) { 0 => 65536 + src.range(0, 8) - 4, 1 => 131072 + src.range(0, 80) - 40, _ => src.range(65000, 140000) }
        }
        Extreme::Huge => {
            cfg.niterations = 1;
            cfg.max_nbins = cfg.max_nbins.min(8);
            cfg.discr_nbits = cfg.discr_nbits.min(4);
            cfg.max_tree_depth = cfg.max_tree_depth.max(2).min(4);
            // (3 instance sets of 350000 rows are more than a store holds at first)
            if src.chance(2, 5) { src.range(350000, 1200000) } else { (1 << 21) + src.range(1, 60000) }
        }
    }
}

pub const ALL_OBJ: &[&str] = &["l2", "binary", "l1", "huber", "hinge"];

impl Default for Opts {
    fn default() -> Opts {
        Opts { objectives: ALL_OBJ, max_n: 6000, min_n: 0, bagging: true, feat_sampling: true, max_iter: 6,
               numeric: true, hicard: true, degenerate: false, blocky: false, extremes: 0, balanced: 0, huge: 0 }
    }
}

pub fn gen_n(src: &mut Src, o: &Opts) -> usize {
    let w: [u32; 5] = if o.degenerate { [30, 40, 20, 8, 2] } else if o.blocky { [2, 8, 40, 44, 6] } else { [4, 36, 35, 22, 3] };
    let n = if o.min_n > 0 { src.range(o.min_n, o.max_n) } else { match src.weighted(&w) {
        0 => src.range(1, 6),
        1 => src.range(4, 70),
        2 => src.range(60, 600),
        3 => src.range(500, 3000),
        _ => src.range(2000, 20000),
    } };
    n.min(o.max_n)
}

pub fn gen_cfg(src: &mut Src, o: &Opts) -> Cfg {
    let objective = *src.pick(o.objectives);
    let discr_nbits = if objective == "hinge" { 2 } else { *src.pick(&[4usize, 1, 2, 8]) };
    let max_nbins = *src.pick(&[16usize, 4, 1, 2, 3, 5, 8, 15, 32, 64, 100, 255]);
    // (hinge steps are quadratic in the prediction: more than 5 may overflow, see known_findings.txt)
    let niterations = src.range(1, if objective == "hinge" { o.max_iter.max(1).min(5) } else { o.max_iter.max(1) });
    let max_tree_depth = *src.pick(&[3usize, 1, 2, 4, 5, 6, 7, 8]);
    let learning_rate = *src.pick(&[1.0f32, 0.5, 0.1, 0.75, 0.3, 1.0, 0.03, 0.01]);
    let reg_lambda = *src.pick(&[0.0f32, 0.0, 0.0, 1.0, 0.1, 10.0, 100.0]);
    let min_examples_leaf = match src.weighted(&[92, 60, 40, 8, 3]) { 0 => 1, 3 => 0, 4 => *src.pick(&[65537u32, 65535, 65536, 65538, 1 << 31, u32::MAX]), 1 => src.range(2, 8) as u32, _ => src.range(5, 60) as u32 };
    let min_gain = *src.pick(&[1e-6f32, 0.0, 1e-6, 1e-3, 0.1, 1.0]);
    let compression_threshold = *src.pick(&[0.5f32, 0.0, 0.1, 0.25, 0.75, 0.9, 1.0, -1.0]);
    let huber_alpha = *src.pick(&[0.95f32, 0.5, 0.7, 0.8, 0.9, 0.99, 0.1]);
    let binary_gradient_bound = *src.pick(&[1.25f32, 1.0, 2.0, 0.5, 1.5]);
    let random_seed = match src.weighted(&[90, 10]) { 0 => src.draw(1 << 20), _ => src.draw(u64::MAX - 1) };
    let feature_fraction = if o.feat_sampling && src.chance(1, 3) { *src.pick(&[0.5f32, 0.8, 0.3, 0.1, 0.99]) } else { 1.0 };
    let example_fraction = if o.bagging && src.chance(1, 3) { *src.pick(&[0.5f32, 0.8, 0.3, 0.9, 0.05, 0.99]) } else { 1.0 };
    let sample_freq = *src.pick(&[1usize, 1, 1, 2, 3, 5]);
    Cfg { objective, niterations, learning_rate, reg_lambda, min_examples_leaf, min_gain, huber_alpha, max_nbins, discr_nbits,
          max_tree_depth, compression_threshold, binary_gradient_bound, random_seed, feature_fraction, example_fraction, sample_freq }
}

fn skewed(r: &mut Rng, k: usize, skew: usize) -> usize {
    match skew {
        0 => r.below(k as u64) as usize,
        1 => { let u = r.unit(); ((u * u * u) * k as f64) as usize }
        _ => if r.chance(0.9) { 0 } else { r.below(k as u64) as usize },
    }.min(k - 1)
}

/// One column of n values. `max_nbins` decides what is low and high cardinality.
pub fn gen_col(src: &mut Src, n: usize, max_nbins: usize, o: &Opts) -> Col {
    let lc = max_nbins >= 2;
    let num = if o.numeric { 1 } else { 0 };
    let hi = if o.hicard { 1 } else { 0 };
    let lcw = if lc { 1 } else { 0 };
    let b = if o.blocky { 3 } else { 1 };
    let mut w = [
        24 * lcw, 12 * lcw * b, 3, 3 * lcw,             // locard random, blocks, single category, two categories
        14 * hi, 8 * hi * b, 3 * hi,                    // hicard random, blocks, huge and sparse
        8 * num, 8 * num, 8 * num * b, 5 * num, 4 * num, 5 * num, 2, 4 * num, 3 * num, 4 * num, 3 * num,
    ];
    if o.degenerate { w[2] *= 4; w[13] *= 6; }
    let kind = src.weighted(&w);
    let p = src.draw(15) as usize;
    let noise = [0.0, 0.0, 0.02, 0.2][src.draw(3) as usize];
    let mut r = src.sub();
    let nf = n.max(1);
    let blocks = |r: &mut Rng, k: usize, i: usize| -> usize {
        if noise > 0.0 && r.chance(noise) { r.below(k as u64) as usize } else { i * k / nf }
    };
    let mut v = vec![0f32; n];
    let (cat, name): (bool, &'static str) = match kind {
        0 => { let k = if p < 4 { max_nbins } else { r.range(2, max_nbins) }; let s = p % 3;
               for x in v.iter_mut() { *x = skewed(&mut r, k, s) as f32; } (true, "lc") }
        1 => { let k = if p < 4 { max_nbins } else { r.range(2, max_nbins) };
               for i in 0..n { v[i] = blocks(&mut r, k, i) as f32; } (true, "lc-blocks") }
        2 => { let c = if p < 8 { 0 } else { r.below(max_nbins as u64) as usize };
               for x in v.iter_mut() { *x = c as f32; } (true, "single") }
        3 => { for x in v.iter_mut() { *x = if r.chance(0.1 + 0.05 * p as f64) { 1.0 } else { 0.0 }; } (true, "two") }
        4 => { let k = if p < 4 { max_nbins + 1 } else { max_nbins + 1 + r.below(300) as usize }; let s = p % 2;
               for x in v.iter_mut() { *x = skewed(&mut r, k, s) as f32; }
               v[(p * 7) % n] = (k - 1) as f32; (true, "hc") }
        5 => { let k = max_nbins + 1 + r.below(60) as usize;
               for i in 0..n { v[i] = blocks(&mut r, k, i) as f32; }
               v[n - 1] = (k - 1) as f32; (true, "hc-blocks") }
        6 => { for x in v.iter_mut() { *x = r.below(5000) as f32; } v[0] = (max_nbins + 1) as f32; (true, "hc-sparse") }
        7 => { for x in v.iter_mut() { *x = r.unit() as f32; } (false, "num-unit") }
        8 => { let k = r.range(2, 12); for x in v.iter_mut() { *x = (r.below(k as u64) as f32) * 0.3 - 1.0; } (false, "num-few") }
        9 => { for i in 0..n { v[i] = (i as f32) * 0.37 - 5.0; if noise > 0.0 && r.chance(noise) { v[i] = r.unit() as f32 * n as f32 * 0.37; } } (false, "num-sorted") }
        10 => { for x in v.iter_mut() { *x = r.normal() as f32; } v[p % n] = 1.0e4; (false, "num-outlier") }
        11 => { let off = [1e6f32, 1e7, -3e6, 6.5e4][p % 4]; for x in v.iter_mut() { *x = off + (r.below(40) as f32); } (false, "num-offset") }
        12 => { let s = [1.0f32 / 512.0, 1.0 / 64.0, 1.0, 0.25][p % 4]; for x in v.iter_mut() { *x = r.below(513) as f32 * s; } v[0] = 0.0; v[n - 1] = 512.0 * s; (false, "num-grid") }
        13 => { let c = if p < 4 { 0.0 } else { r.normal() as f32 }; for x in v.iter_mut() { *x = c; } (false, "num-const") }
        14 => { for x in v.iter_mut() { *x = (r.normal() * 1.5).exp() as f32; } (false, "num-exp") }
        15 => { let s = [1e-30f32, 1e-12, 1e12, 1e25][p % 4]; for x in v.iter_mut() { *x = r.normal() as f32 * s; } (false, "num-scale") }
        16 => { for x in v.iter_mut() { *x = (r.normal() * 100.0).round() as f32 * 0.1; } (false, "num-decimal") }
        _ => { for x in v.iter_mut() { *x = if r.chance(0.93) { 0.0 } else { r.normal() as f32 }; } (false, "num-sparse") }
    };
    Col { vals: v, cat, kind: name }
}

fn signal(cols: &[Col], i: usize, how: usize) -> f64 {
    if cols.is_empty() { return 0.0; }
    let c = &cols[how % cols.len()];
    let x = c.vals[i] as f64;
    let a = if c.cat { (((x as u64).wrapping_mul(2654435761)) % 17) as f64 / 4.0 } else { let m = c.vals[0].abs().max(1e-30) as f64; (x / m).max(-5.0).min(5.0) };
    let d = &cols[(how / 3 + 1) % cols.len()];
    let y = d.vals[i] as f64;
    let b = if d.cat { (y as u64 % 3) as f64 } else if y > d.vals[d.vals.len() / 2] as f64 { 2.0 } else { 0.0 };
    a + b
}

pub fn gen_target(src: &mut Src, n: usize, cols: &[Col], binary: bool, o: &Opts) -> Vec<f32> {
    let style = if o.degenerate { src.weighted(&[20, 10, 10, 10, 10, 8, 4, 20, 10]) } else { src.weighted(&[40, 12, 12, 10, 8, 8, 8, 1, 1]) };
    let how = src.draw(11) as usize;
    let scale = match src.weighted(&[92, 3, 3, 2]) { 0 => 1.0f32, 1 => 1e-4, 2 => 1e3, _ => 1e-6 };
    let mut r = src.sub();
    let mut t = vec![0f32; n];
    for i in 0..n {
        let s = signal(cols, i, how);
        t[i] = match style {
            0 => (s + 0.3 * r.normal()) as f32,
            1 => r.normal() as f32,
            2 => if s > 2.0 { 5.0 } else { -1.0 },
            3 => r.below(5) as f32 - 1.0,
            4 => if r.chance(0.03) { (r.normal() * 1000.0) as f32 } else { (s + r.normal()) as f32 },
            5 => if r.chance(0.9) { 0.0 } else { (s + r.normal()) as f32 },
            6 => (1000.0 + 10.0 * s + r.normal()) as f32,
            7 => 0.0,
            _ => 3.25,
        };
        if binary {
            t[i] = match style {
                0 | 4 | 6 => if s + 0.8 * r.normal() > 2.5 { 1.0 } else { 0.0 },
                1 | 3 => if r.chance(0.5) { 1.0 } else { 0.0 },
                2 => if s > 2.0 { 1.0 } else { 0.0 },
                5 => if r.chance(0.05) { 1.0 } else { 0.0 },
                7 => 0.0,
                _ => 1.0,
            };
        }
    }
    if !binary && scale != 1.0 { for x in t.iter_mut() { *x *= scale; } }
    // most single-class targets belong to the degenerate domain
    if binary && !o.degenerate && n >= 2 && style != 7 && style != 8 {
        let pos = t.iter().filter(|&&x| x > 0.5).count();
        if pos == 0 { t[how % n] = 1.0; } else if pos == n { t[how % n] = 0.0; }
    }
    t
}

pub fn gen_table(src: &mut Src, n: usize, max_nbins: usize, binary: bool, o: &Opts) -> Table { gen_table_x(src, n, max_nbins, binary, o, Extreme::None) }

pub fn gen_table_x(src: &mut Src, n: usize, max_nbins: usize, binary: bool, o: &Opts, e: Extreme) -> Table {
    let nf = match src.weighted(&[30, 50, 18, 2]) { 0 => 1, 1 => src.range(2, 5), 2 => src.range(4, 10), _ => src.range(10, 40) };
    let nf = match e {
        Extreme::Wide => match src.draw(3) { 0 => 250 + src.range(0, 12), 1 => src.range(100, 300), 2 => src.range(20, 100), _ => src.range(300, 1100) },
        Extreme::Large => nf.min(3),
        Extreme::Huge => nf.min(2),
        Extreme::ManyBins | Extreme::ManyIter => nf.min(8),
        _ => nf,
    };
    let nf = if n * nf > 60000 && e != Extreme::Large && e != Extreme::Huge { (60000 / n).max(1) } else { nf };
    let mut cols: Vec<Col> = if e == Extreme::Wide {
        // a few columns carry choices of their own, the others are made from them
        let base: Vec<Col> = (0..6).map(|_| gen_col(src, n, max_nbins, o)).collect();
        let mut r = src.sub();
        (0..nf).map(|_| {
            let mut c = base[r.below(6) as usize].clone();
            if r.chance(0.8) { for i in (1..n).rev() { c.vals.swap(i, r.below(i as u64 + 1) as usize); } }
            c
        }).collect()
    } else { (0..nf).map(|_| gen_col(src, n, max_nbins, o)).collect() };
    if e == Extreme::HugeCat && o.hicard {
        let top = *src.pick(&[70000usize, 65536, 65537, 131100]);
        let mut r = src.sub();
        let ids: Vec<f32> = (0..r.range(2, 40)).map(|i| if i == 0 { top as f32 } else if r.chance(0.3) { (65536 + r.below(40)) as f32 } else if r.chance(0.4) { r.below(40) as f32 } else { r.below(top as u64 + 1) as f32 }).collect();
        let vals: Vec<f32> = (0..n).map(|_| ids[r.below(ids.len() as u64) as usize]).collect();
        let j = r.below(nf as u64) as usize;
        cols[j] = Col { vals, cat: true, kind: "hc-huge" };
    }
    let mut target = gen_target(src, n, &cols, binary, o);
    if e == Extreme::Deep && max_nbins >= 8 && src.chance(2, 3) {
        // one category is split off after the other: as deep as there are categories
        let k = max_nbins.min(32).min(n);
        let ratio = *src.pick(&[0.8f64, 0.7, 0.9, 1.0]);
        let mut r = src.sub();
        let mut ids: Vec<usize> = (0..k).collect();
        for i in (1..k).rev() { ids.swap(i, r.below(i as u64 + 1) as usize); }
        let v: Vec<f32> = (0..n).map(|i| if i < k { i } else { r.below(k as u64) as usize } as f32).collect();
        if !binary { for i in 0..n { let j = ids[v[i] as usize]; target[i] = (ratio.powi(j as i32) * (if j % 3 == 0 { -1.0 } else { 1.0 }) + 0.001 * r.normal()) as f32; } }
        else { for i in 0..n { let j = ids[v[i] as usize]; target[i] = if (j % 2 == 0) != r.chance(0.02) { 1.0 } else { 0.0 }; } }
        cols[0] = Col { vals: v, cat: true, kind: "lc-chain" };
    }
    if e == Extreme::Wide { // (the target depends on the first columns)
        let mut r = src.sub();
        for j in 0..3.min(nf) { let k = r.below(nf as u64) as usize; cols.swap(j, if r.chance(0.5) { k } else { nf - 1 - j }); }
    }
    Table { n, cols, target }
}

pub fn is_binary(objective: &str) -> bool { objective == "binary" || objective == "hinge" }

/// Tables in which many decisions are close to ties (equal gains, quantiles at bin boundaries), so
/// that the order in which numbers are added up matters: columns are grids, and at every grid point
/// the targets have the same magnitudes.
pub fn balanced(src: &mut Src, o: &Opts) -> (Cfg, Table) {
    let mut cfg = gen_cfg(src, o);
    cfg.max_nbins = *src.pick(&[7usize, 3, 15, 31, 1, 63, 2, 5]);
    let m = *src.pick(&[512usize, 64, 128, 256, 1024]);
    let reps = match src.weighted(&[50, 30, 20]) { 0 => src.range(1, 8), 1 => src.range(8, 32), _ => src.range(32, 160) };
    let n = (m * reps).min(if o.max_n < 2500 { 2048 } else { 33000 }) / m * m;
    let reps = n / m;
    let width = *src.pick(&[8usize, 1, 2, 16, 64]);
    let mut r = src.sub();
    let w: Vec<f32> = (0..reps).map(|_| 0.1 + r.unit() as f32).collect();
    let sign = |i: usize| if (i % m) / width % 2 == 0 { 1.0f32 } else { -1.0 };
    let mut cols = vec![Col { vals: (0..n).map(|i| (i % m) as f32).collect(), cat: false, kind: "num-balanced" }];
    if r.chance(0.5) { cols.push(Col { vals: (0..n).map(|i| ((m - 1 - i % m) as f32) * 0.25).collect(), cat: false, kind: "num-balanced" }); }
    if r.chance(0.5) { cols.push(Col { vals: (0..n).map(|i| (i % m / 2) as f32).collect(), cat: true, kind: "hc-balanced" }); }
    if r.chance(0.3) { cols.push(Col { vals: (0..n).map(|i| (i % m % 5) as f32).collect(), cat: true, kind: "lc-balanced" }); }
    let binary = is_binary(cfg.objective);
    let target = (0..n).map(|i| if binary { (sign(i) + 1.0) / 2.0 } else { sign(i) * w[i / m] }).collect();
    if n > 4000 { cfg.niterations = cfg.niterations.min(3); }
    (cfg, Table { n, cols, target })
}

/// A configuration and a table for it.
pub fn gen_case(src: &mut Src, o: &Opts) -> (Cfg, Table) {
    if o.balanced > 0 && src.chance(1, o.balanced as u64) { return balanced(src, o); }
    let e = gen_extreme(src, o);
    // (blocks of equal values, so that the instance sets of such nodes are compressed)
    let blocky = Opts { blocky: true, ..o.clone() };
    let o = if e == Extreme::Huge { &blocky } else { o };
    let n = gen_n(src, o);
    let mut cfg = gen_cfg(src, o);
    let n = adjust(src, e, n, &mut cfg);
    if n > 4000 { cfg.niterations = cfg.niterations.min(3); cfg.max_nbins = cfg.max_nbins.min(64); }
    let t = gen_table_x(src, n, cfg.max_nbins, is_binary(cfg.objective), o, e);
    (cfg, t)
}

/// Other rows for the same columns: mixes of training rows, single values replaced by values seen
/// nowhere in training (bigger, smaller, in between, unseen categories).
pub fn gen_other_rows(src: &mut Src, t: &Table, max: usize) -> Table {
    let m = src.range(1, max.max(1));
    let mut r = src.sub();
    let mut cols: Vec<Col> = t.cols.iter().map(|c| Col { vals: vec![0.0; m], cat: c.cat, kind: c.kind }).collect();
    for i in 0..m {
        for (j, c) in t.cols.iter().enumerate() {
            let x = c.vals[r.below(t.n as u64) as usize];
            cols[j].vals[i] = if c.cat {
                if r.chance(0.15) {
                    if r.chance(0.9) { (x + r.below(50) as f32 + 1.0).min(16777216.0) }
                    else { (x + [256.0f32, 65536.0, 131072.0, 16777216.0, 1048576.0][r.below(5) as usize]).min(16777216.0) }
                } else { x }
            } else {
                match r.below(10) {
                    0 => x * 1.5, 1 => -x, 2 => { let y = c.vals[r.below(t.n as u64) as usize]; 0.5 * x + 0.5 * y }
                    3 => x + 1.0, 4 => next_up(x), 5 => -next_up(-x), _ => x,
                }
            };
        }
        // the row before, but for one value
        if i > 0 && !t.cols.is_empty() && r.chance(0.2) {
            let k = r.below(t.cols.len() as u64) as usize;
            for (j, c) in cols.iter_mut().enumerate() { if j != k { c.vals[i] = c.vals[i - 1]; } }
        }
    }
    Table { n: m, cols, target: vec![0.0; m] }
}

pub fn next_up(x: f32) -> f32 {
    if x.is_nan() || x == f32::INFINITY { return x; }
    if x == 0.0 { return f32::from_bits(1); }
    let b = x.to_bits();
    f32::from_bits(if x > 0.0 { b + 1 } else { b - 1 })
}

/// A new directory of this process, to be removed by the caller.
pub fn scratch() -> std::path::PathBuf {
    use std::sync::atomic::{AtomicUsize, Ordering};
    static N: AtomicUsize = AtomicUsize::new(0);
    let d = std::env::temp_dir().join(format!("bitboost-verif-{}-{}", std::process::id(), N.fetch_add(1, Ordering::SeqCst)));
    std::fs::create_dir_all(&d).expect("scratch directory");
    d
}

/// The table as CSV text (the target in the last column).
pub fn csv_text(t: &Table, delim: char, header: bool) -> String {
    let mut s = String::new();
    if header {
        let names: Vec<String> = (0..t.cols.len()).map(|j| format!("f{}", j)).chain(Some("target".to_string())).collect();
        s.push_str(&names.join(&delim.to_string()));
        s.push('\n');
    }
    for i in 0..t.n {
        for c in &t.cols { s.push_str(&format!("{}{}", c.vals[i], delim)); }
        s.push_str(&format!("{}\n", t.target[i]));
    }
    s
}
