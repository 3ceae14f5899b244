//! C01, C04, C05, C06, C07, C10, C23, C29, C35: whole boosting runs.
use bitboost::boost::Booster;
use bitboost::config::Config;
use bitboost::data::Data;
use bitboost::dataset::Dataset;
use bitboost::tree::{AdditiveTree, TreeLearner, TreeLearnerContext};
use bitboost::metric::metrics_from_names;
use bitboost::objective::{objective_from_name, Objective};

use crate::gen::*;
use crate::train::*;
use vengine::*;

pub fn label_case(ctx: &mut Ctx, cfg: &Cfg, t: &Table) {
    ctx.label(match cfg.objective { "l2" => "obj:l2", "l1" => "obj:l1", "huber" => "obj:huber", "binary" => "obj:binary", _ => "obj:hinge" });
    ctx.label(match cfg.discr_nbits { 1 => "bits:1", 2 => "bits:2", 4 => "bits:4", _ => "bits:8" });
    ctx.label_if(cfg.example_fraction < 1.0, "bagging");
    ctx.label_if(cfg.feature_fraction < 1.0, "feature sampling");
    ctx.label_if(t.has("hc"), "has high-cardinality");
    ctx.label_if(t.has("num"), "has numerical");
    ctx.label_if(t.has("lc") || t.has("two"), "has low-cardinality");
    ctx.label_if(t.n > 256, "n>256");
    ctx.label_if(t.n > 4096, "n>4096");
    ctx.label_if(t.n > 65000, "n>65000");
    ctx.label_if(t.n > 1 << 21, "n>2097152");
    ctx.label_if(cfg.max_nbins > 255, "max_nbins>255");
    ctx.label_if(cfg.max_tree_depth > 8, "depth>8");
    ctx.label_if(t.cols.len() > 90, "columns>90");
    ctx.label_if(cfg.niterations > 200, "iterations>200");
    ctx.label_if(t.has("num-balanced"), "balanced table");
    ctx.label_if(t.has("hc-huge"), "category>65535");
    ctx.label_if(cfg.sample_freq > 1, "sample_freq>1");
}

fn describe(ctx: &mut Ctx, cfg: &Cfg, t: &Table) {
    let (c, t) = (cfg.clone(), t.clone());
    ctx.note(move || format!("{:?}", c));
    ctx.note(move || t.describe());
}

// ---- C01 ---------------------------------------------------------------------------------------

fn c01(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let blocky = src.chance(1, 3);
    let (cfg, t) = gen_case(src, &Opts { blocky, extremes: 40, huge: 8000, balanced: 30, ..Opts::default() });
    describe(ctx, &cfg, &t);
    label_case(ctx, &cfg, &t);
    let config = cfg.config();
    let data = t.data(&config);
    let (model, p) = boost(&config, &data);
    let q = model.predict(&data);
    ctx.nontrivial = distinct(&p) > 1;
    ensure!(p.len() == t.n && q.len() == t.n, "lengths {} {} for {} rows", p.len(), q.len(), t.n);
    if let Some(i) = first_far(&p, &q, cfg.niterations) {
        return Err(format!("row {}: predicted {} while training, the model says {}", i, p[i], q[i]));
    }
    Ok(())
}

// ---- C04 ---------------------------------------------------------------------------------------

fn c04(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let (cfg, t) = gen_case(src, &Opts { blocky: true, max_iter: 4, extremes: 100, huge: 3000, balanced: 20, ..Opts::default() });
    describe(ctx, &cfg, &t);
    label_case(ctx, &cfg, &t);
    let thr = [2.0f32, cfg.compression_threshold, *src.pick(&[0.0f32, 0.05, 0.2, 0.6, 1e-3, -1.0, 3.0e38, f32::NAN])];
    let other = gen_other_rows(src, &t, 60);
    let mut first: Option<(Vec<f32>, Vec<f32>, Vec<f32>)> = None;
    for &th in &thr {
        let mut c = cfg.clone();
        c.compression_threshold = th;
        let config = c.config();
        let data = t.data(&config);
        let (model, p) = boost(&config, &data);
        let r = (p, model.predict(&data), model.predict(&other.data(&config)));
        match first {
            None => {
                ctx.nontrivial = t.n > 256 && distinct(&r.0) > 1;
                // rows of equal prediction that touch few 32-row blocks: compression can happen
                first = Some(r);
            }
            Some(ref f) => {
                for (what, a, b) in [("accumulated", &f.0, &r.0), ("training-row", &f.1, &r.1), ("other-row", &f.2, &r.2)] {
                    if let Some(i) = first_diff(a, b) {
                        return Err(format!("{} prediction {} is {} without compression and {} with threshold {}", what, i, a[i], b[i], th));
                    }
                }
            }
        }
    }
    Ok(())
}

// ---- C05 ---------------------------------------------------------------------------------------

fn c05_case(src: &mut Src) -> (Cfg, Table, Table) {
    let (cfg, t) = gen_case(src, &Opts { max_n: 3000, max_iter: 4, extremes: 60, balanced: 7, ..Opts::default() });
    let other = gen_other_rows(src, &t, 40);
    (cfg, t, other)
}

fn c05_run(c: &Cfg, t: &Table, other: &Table) -> (Vec<f32>, Vec<f32>) {
    let config = c.config();
    let data = t.data(&config);
    let (model, p) = boost(&config, &data);
    (p, model.predict(&other.data(&config)))
}

fn digest(r: &(Vec<f32>, Vec<f32>)) -> String {
    let h = |v: &[f32]| v.iter().fold(0xcbf29ce484222325u64, |h, x| (h ^ (if *x == 0.0 { 0 } else { x.to_bits() }) as u64).wrapping_mul(0x100000001b3).rotate_left(5));
    format!("{:016x} {:016x}", h(&r.0), h(&r.1))
}

/// `vcore digest CHOICES`: the result of the run that these choices describe, in a process of its own.
pub fn digest_main(arg: &str) {
    let choices: Vec<u64> = arg.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
    let (cfg, t, other) = c05_case(&mut Src::replay(choices));
    println!("{}", digest(&c05_run(&cfg, &t, &other)));
}

fn c05(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let from = src.record.len();
    let (cfg, t, other) = c05_case(src);
    let choices: Vec<String> = src.record[from..].iter().map(|x| x.to_string()).collect();
    describe(ctx, &cfg, &t);
    label_case(ctx, &cfg, &t);
    let run = |c: &Cfg| c05_run(c, &t, &other);
    let a = run(&cfg);
    ctx.nontrivial = distinct(&a.0) > 1;
    let check = |what: &str, b: &(Vec<f32>, Vec<f32>)| -> CaseResult {
        if let Some(i) = first_diff(&a.0, &b.0) { return Err(format!("{}: training prediction {} changed from {} to {}", what, i, a.0[i], b.0[i])); }
        if let Some(i) = first_diff(&a.1, &b.1) { return Err(format!("{}: prediction {} changed from {} to {}", what, i, a.1[i], b.1[i])); }
        Ok(())
    };
    check("second run", &run(&cfg))?;
    for _ in 0..2 {
        let k = *src.pick(&[2usize, 8, 3, 5]);
        let pool = rayon::ThreadPoolBuilder::new().num_threads(k).build().map_err(|e| format!("{}", e))?;
        let b = pool.install(|| run(&cfg));
        check(&format!("{} threads", k), &b)?;
    }
    if src.chance(1, 12) { // a process of its own
        let threads = *src.pick(&["1", "2", "5", "8"]);
        if let Ok(o) = std::env::current_exe().and_then(|e| std::process::Command::new(e).arg("digest").arg(choices.join(",")).env("RAYON_NUM_THREADS", threads).current_dir("/").output()) {
            ctx.label("another process");
            let got = String::from_utf8_lossy(&o.stdout).lines().last().unwrap_or("").to_string();
            use std::os::unix::process::ExitStatusExt;
            // (an outside kill says nothing about the run)
            ensure!(got == digest(&a) || o.status.signal() == Some(9), "another process with {} threads computed {:?}, this one {:?}", threads, got, digest(&a));
        }
    }
    if !cfg.sampling() {
        let mut c = cfg.clone();
        c.random_seed = src.draw(u32::MAX as u64);
        ctx.label("seed varied");
        check("other seed without sampling", &run(&c))?;
    }
    Ok(())
}

// ---- C06 ---------------------------------------------------------------------------------------

fn c06(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let (cfg, t) = gen_case(src, &Opts { max_n: 2500, max_iter: 5, extremes: 60, ..Opts::default() });
    describe(ctx, &cfg, &t);
    label_case(ctx, &cfg, &t);
    let config = cfg.config();
    let data = t.data(&config);
    let mut obj = objective(cfg.objective);
    let run = manual(&config, &data, obj.as_mut(), cfg.niterations);
    // (rarely a model without trees, or of fewer trees)
    let ntrees = if src.chance(1, 25) { src.range(0, run.trees.len()) / 2 } else { run.trees.len() };
    ctx.label_if(ntrees == 0, "no trees");
    let mut run = run;
    run.trees.truncate(ntrees);
    let mut model = AdditiveTree::new();
    model.set_bias(run.bias);
    for tr in &run.trees { model.push_tree(tr.clone()); }

    // rows: training rows and unseen ones
    let other = gen_other_rows(src, &t, 120);
    let mut all = other.clone();
    let k = src.range(0, t.n.min(100));
    for j in 0..t.cols.len() { all.cols[j].vals.extend(&t.cols[j].vals[..k]); }
    all.target.extend(&t.target[..k]);
    all.n += k;
    let d_all = all.data(&config);
    let base = model.predict(&d_all);
    ctx.nontrivial = distinct(&base) > 1;
    ctx.note(|| { format!("predict on {}", all.describe()) });

    // bias plus one leaf value per tree
    let mut expect: Vec<f64> = vec![run.bias as f64; all.n];
    let mut mag = vec![run.bias.abs() as f64; all.n];
    for tr in &run.trees {
        let p = tr.predict(&d_all);
        let leafs: std::collections::HashSet<u32> = (0..tr.max_nnodes()).map(|i| tr.node_value(i).to_bits()).collect();
        for i in 0..all.n {
            ensure!(p[i].is_finite(), "tree prediction of row {} is {}", i, p[i]);
            ensure!(leafs.contains(&p[i].to_bits()) || p[i] == 0.0, "tree prediction {} of row {} is no node value", p[i], i);
            expect[i] += p[i] as f64;
            mag[i] += p[i].abs() as f64;
        }
    }
    for i in 0..all.n {
        ensure!(base[i].is_finite(), "prediction of row {} is {}", i, base[i]);
        ensure!((base[i] as f64 - expect[i]).abs() <= 3e-7 * (run.trees.len() as f64 + 2.0) * mag[i] + 1e-37,
                "row {}: model predicts {}, bias plus leaf values is {}", i, base[i], expect[i]);
    }

    let check = |what: &str, rows: &[usize], d: &Data| -> CaseResult {
        let p = model.predict(d);
        ensure!(p.len() == rows.len(), "{}: {} predictions for {} rows", what, p.len(), rows.len());
        for (i, &r) in rows.iter().enumerate() {
            ensure!(p[i].to_bits() == base[r].to_bits(), "{}: row {} at position {} predicts {} instead of {}", what, r, i, p[i], base[r]);
        }
        let mut buf: Vec<f32> = (0..rows.len()).map(|i| if i % 3 == 0 { f32::NAN } else { i as f32 * 1e9 }).collect();
        model.predict_buf(d, &mut buf);
        ensure!(first_diff(&buf, &p).is_none(), "{}: predicting into a used buffer differs", what);
        Ok(())
    };
    // rearrangements
    let mut r = src.sub();
    let ids: Vec<usize> = (0..all.n).collect();
    check("same rows", &ids, &all.data(&config))?;
    if src.chance(1, 12) { // every row many times in a row
        let m = src.range(2, 600);
        let k = (6000 / m).max(1).min(all.n);
        let from = src.range(0, all.n - k);
        let ids: Vec<usize> = (from..from + k).flat_map(|i| std::iter::repeat(i).take(m)).collect();
        check("rows repeated", &ids, &all.rows(&ids).data(&config))?;
        ctx.label("rows repeated");
    }
    let mut perm = ids.clone();
    for i in (1..perm.len()).rev() { perm.swap(i, r.below(i as u64 + 1) as usize); }
    check("permuted rows", &perm, &all.rows(&perm).data(&config))?;
    let m = r.range(1, all.n + 5);
    let multi: Vec<usize> = (0..m).map(|_| r.below(all.n as u64) as usize).collect();
    check("subset with repetitions", &multi, &all.rows(&multi).data(&config))?;
    let one = [r.below(all.n as u64) as usize];
    check("single row", &one, &all.rows(&one).data(&config))?;
    // far more rows than were predicted before: whole multiples of powers of two and just off them
    if src.chance(1, 6) {
        let base = *src.pick(&[1024usize, 256, 512, 2048, 4096, 8192, 1000, 16384, 65536]);
        let m = (base * src.range(1, 3) + src.range(0, 70)).saturating_sub(src.range(0, 40)).min(150000 / (all.cols.len() + 1)).max(1);
        let tiled: Vec<usize> = (0..m).map(|_| r.below(all.n as u64) as usize).collect();
        ctx.label("predict on more than 1000 rows");
        check("many rows", &tiled, &all.rows(&tiled).data(&config))?;
    }
    // other target, other declared types, other binning limit of the container
    let mut v = all.clone();
    for x in v.target.iter_mut() { *x = r.normal() as f32 * 100.0; }
    check("other targets", &ids, &v.data(&config))?;
    for c in v.cols.iter_mut() { c.cat = false; }
    check("columns declared numerical", &ids, &v.data(&config))?;
    let mut c2 = cfg.clone();
    c2.max_nbins = *src.pick(&[2usize, 16, 255]);
    check("other max_nbins", &ids, &all.data(&c2.config()))?;
    Ok(())
}

// ---- C07 ---------------------------------------------------------------------------------------

fn c07(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let (mut cfg, t) = gen_case(src, &Opts { max_n: 3000, max_iter: 7, extremes: 60, ..Opts::default() });
    describe(ctx, &cfg, &t);
    label_case(ctx, &cfg, &t);
    let n = cfg.niterations;
    let config = cfg.config();
    let data = t.data(&config);
    let other = gen_other_rows(src, &t, 40);
    let mut obj = objective(cfg.objective);
    let run = manual(&config, &data, obj.as_mut(), n);
    ctx.nontrivial = n >= 2 && distinct(&run.snapshots[n]) > 1;
    // prefix k, from scratch
    let mut ks = vec![0usize, 1, src.range(0, n), n];
    if n > 200 { ks.push(src.range(n - 20, n)); }
    for &k in &ks {
        cfg.niterations = k;
        let ck = cfg.config();
        let dk = t.data(&ck);
        let (model, p) = boost(&ck, &dk);
        if k == 0 {
            for (i, &x) in model.predict(&dk).iter().enumerate() {
                ensure!(x.to_bits() == run.bias.to_bits(), "zero iterations: row {} predicts {} instead of the starting value {}", i, x, run.bias);
            }
        }
        if k > n { continue; }
        if let Some(i) = first_diff(&p, &run.snapshots[k]) {
            return Err(format!("after {} of {} iterations row {} had {}, a run of {} iterations gives {}", k, n, i, run.snapshots[k][i], k, p[i]));
        }
        let mut prefix = AdditiveTree::new();
        prefix.set_bias(run.bias);
        for tr in &run.trees[..k] { prefix.push_tree(tr.clone()); }
        for d in [&dk, &other.data(&ck)] {
            let (a, b) = (prefix.predict(d), model.predict(d));
            if let Some(i) = first_far(&a, &b, k) {
                return Err(format!("first {} of {} trees predict {} for row {}, a run of {} iterations {}", k, n, a[i], i, k, b[i]));
            }
        }
        if k == 1 {
            // the tree command: one tree plus bias
            let mut tr = run.trees[0].clone();
            tr.set_bias(run.bias);
            for d in [&dk, &other.data(&ck)] {
                let (a, b) = (tr.predict(d), model.predict(d));
                if let Some(i) = first_far(&a, &b, 2) {
                    return Err(format!("single tree with bias predicts {} for row {}, one boosting iteration {}", a[i], i, b[i]));
                }
            }
        }
    }
    Ok(())
}

// ---- C10 ---------------------------------------------------------------------------------------

fn c10(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let blocky = src.chance(1, 3);
    let (mut cfg, t) = gen_case(src, &Opts { objectives: &["l2"], bagging: false, max_iter: 12, blocky, extremes: 60, ..Opts::default() });
    cfg.learning_rate = match src.draw(3) { 0 => cfg.learning_rate, 1 => 1.0, _ => (src.unit() as f32).max(0.01) };
    describe(ctx, &cfg, &t);
    label_case(ctx, &cfg, &t);
    let config = cfg.config();
    let data = t.data(&config);
    let mut obj = objective("l2");
    let run = manual(&config, &data, obj.as_mut(), cfg.niterations);
    ctx.nontrivial = distinct(run.snapshots.last().unwrap()) > 1;
    let y = data.get_target();
    let sse = |p: &[f32]| -> f64 { p.iter().zip(y).map(|(a, b)| { let d = *a as f64 - *b as f64; d * d }).sum() };
    let mut model = AdditiveTree::new();
    model.set_bias(run.bias);
    let m = y.iter().fold(run.bias.abs(), |m, x| m.max(x.abs())) as f64;
    let mut prev = sse(&run.snapshots[0]);
    let mut prev_model = sse(&model.predict(&data));
    for k in 1..=cfg.niterations {
        let cur = sse(&run.snapshots[k]);
        let e = 6e-7 * m * 2.0;
        let slack = |s: f64| 1e-5 * s + t.n as f64 * e * e + 2.0 * (s * t.n as f64).sqrt() * e + 1e-30;
        ensure!(cur <= prev + slack(prev), "training error rose from {} to {} in iteration {}", prev, cur, k);
        model.push_tree(run.trees[k - 1].clone());
        let cm = sse(&model.predict(&data));
        ensure!(cm <= prev_model + slack(prev_model) * k as f64, "the model's training error rose from {} to {} with tree {}", prev_model, cm, k);
        prev = cur;
        prev_model = cm;
    }
    Ok(())
}

// ---- C23 ---------------------------------------------------------------------------------------

fn c23(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let o = Opts { degenerate: true, max_n: 4000, max_iter: 8, extremes: 40, ..Opts::default() };
    let (mut cfg, mut t) = gen_case(src, &o);
    match src.weighted(&[60, 8, 8, 8, 6, 10]) {
        0 => {}
        1 => { t.cols.clear(); ctx.label("no features"); }
        2 => { cfg.example_fraction = *src.pick(&[0.001f32, 0.0001, 0.01]); ctx.label("tiny bag"); }
        3 => { cfg.feature_fraction = *src.pick(&[0.001f32, 0.05]); ctx.label("tiny feature sample"); }
        4 => { let c = t.cols[0].clone(); t.cols.push(c.clone()); t.cols.push(c); ctx.label("duplicate columns"); }
        _ => { let s = *src.pick(&[1e-20f32, 1e-6, 1e6, 1e10, 1e-35]); if !is_binary(cfg.objective) { for x in t.target.iter_mut() { *x *= s; } } ctx.label("scaled target"); }
    }
    if src.chance(1, 12) { cfg.sample_freq = 0; ctx.label("sample_freq=0"); }
    if src.chance(1, 6) { cfg.max_tree_depth = *src.pick(&[9usize, 10, 12]); }
    if src.chance(1, 10) { cfg.max_nbins = *src.pick(&[256usize, 513, 600, 1000]); }
    if src.chance(1, 8) { cfg.niterations = src.range(8, 30); }
    // keep the categories valid for a changed max_nbins; nothing to do: types follow the container
    describe(ctx, &cfg, &t);
    label_case(ctx, &cfg, &t);
    ctx.label_if(t.n <= 3, "n<=3");
    ctx.label_if(distinct(&t.target) == 1, "constant target");
    ctx.label_if(t.cols.iter().any(|c| distinct(&c.vals) == 1), "constant column");
    ctx.label_if(t.cols.len() > t.n, "more features than rows");
    ctx.nontrivial = true;
    let config = cfg.config();
    let data = t.data(&config);
    let (model, p) = match guarded(|| boost(&config, &data)) {
        Ok(r) => r,
        Err(m) => {
            // known: the quadratic steps of the hinge objective blow up
            if cfg.objective == "hinge" && m.contains("is_finite()") && m.contains("objective.rs") {
                let mut c = cfg.clone();
                while c.niterations > 1 {
                    c.niterations -= 1;
                    let config = c.config();
                    if let Ok((_, p)) = guarded(|| boost(&config, &data)) {
                        let m = p.iter().fold(0f32, |m, x| m.max(x.abs()));
                        if m > 1e15 { return Err(format!("[hinge-overflow] predictions reach {} after {} iterations and overflow in the next", m, c.niterations)); }
                        break;
                    }
                }
            }
            return Err(m);
        }
    };
    if let Some(i) = p.iter().position(|x| !x.is_finite()) { return Err(format!("accumulated prediction of row {} is {}", i, p[i])); }
    let q = model.predict(&data);
    if let Some(i) = q.iter().position(|x| !x.is_finite()) { return Err(format!("prediction of row {} is {}", i, q[i])); }
    ensure!(first_far(&p, &q, cfg.niterations).is_none(), "model and accumulated predictions differ");
    if !t.cols.is_empty() {
        let other = gen_other_rows(src, &t, 50);
        let q = model.predict(&other.data(&config));
        if let Some(i) = q.iter().position(|x| !x.is_finite()) { return Err(format!("prediction of other row {} is {}", i, q[i])); }
    }
    Ok(())
}

// ---- C29 ---------------------------------------------------------------------------------------

fn single_tree(cfg: &Cfg, t: &Table, grads: &[f32], bounds: (f32, f32)) -> (Vec<f32>, bitboost::tree::Tree) {
    let config = cfg.config();
    let data = t.data(&config);
    let mut f = Fixed::new(grads.to_vec(), bounds);
    f.mean_leaves = true;
    let mut dataset = Dataset::new(&config, &data);
    dataset.update(&config, f.gradients(), f.bounds());
    let mut tctx = TreeLearnerContext::new(&config, &data);
    let sc = dataset.get_supercats().clone();
    let tree = TreeLearner::new(&mut tctx, &dataset, sc, &mut f).train();
    (tree.predict(&data), tree)
}

fn c29(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    match src.weighted(&[28, 27, 22, 13, 10]) {
        0 => { // irrelevant columns
            ctx.label("irrelevant columns");
            let (cfg, t) = gen_case(src, &Opts { bagging: false, feat_sampling: false, max_n: 2500, max_iter: 4, extremes: 100, ..Opts::default() });
            describe(ctx, &cfg, &t);
            label_case(ctx, &cfg, &t);
            let config = cfg.config();
            let data = t.data(&config);
            let (model, p) = boost(&config, &data);
            ctx.nontrivial = distinct(&p) > 1;
            let mut u = t.clone();
            let many = t.n <= 300 && src.chance(1, 20);
            ctx.label_if(many, "many irrelevant columns");
            let nconst = src.range(0, if many { 150 } else { 3 });
            let mut where_const = vec![];
            for _ in 0..nconst {
                let at = src.range(0, u.cols.len());
                let cat = src.chance(1, 2);
                let v = match src.draw(3) { 0 => 0.0, 1 => 1.0, 2 => 3.0, _ => if cat { 40.0 } else { -2.5e3 } };
                u.cols.insert(at, Col { vals: vec![v; u.n], cat, kind: "const" });
                where_const.push((at, cat, v));
            }
            let ndup = src.range(if nconst == 0 { 1 } else { 0 }, if many { 300 } else { 2 });
            let one = src.chance(1, 2).then(|| src.range(0, u.cols.len() - 1)); // the same column every time
            for _ in 0..ndup {
                let j = one.unwrap_or_else(|| src.range(0, u.cols.len() - 1));
                let c = u.cols[j].clone();
                // anywhere after the first of its kind: among equals the first is taken
                let at = match src.draw(3) { 0 => u.cols.len(), 1 => j + 1, _ => src.range(j + 1, u.cols.len()) };
                u.cols.insert(at, c);
            }
            where_const.truncate(20);
            ctx.note(|| format!("constants inserted {:?}, {} columns duplicated", where_const, ndup));
            let du = if u.n <= 300 && src.chance(1, 4) { // from a file, which names the columns
                ctx.label("columns named");
                let mut c = cfg.config();
                c.csv_has_header = true;
                c.csv_delimiter = b',';
                c.categorical_features = (0..u.cols.len()).filter(|&j| u.cols[j].cat).collect();
                let body = csv_text(&u, ',', false);
                let mut r = src.sub();
                let head: Vec<String> = (0..u.cols.len() + 1).map(|j| match r.below(5) { 0 => "same".to_string(), 1 => format!("feat{:04}", r.below(9)), 2 => format!("{}", r.below(9)), _ => format!("z{}", 99 - j.min(98)) }).collect();
                Data::from_csv(&c, &format!("{}\n{}", head.join(","), body)).map_err(|e| format!("the table as CSV text was refused: {}", e))?
            } else { u.data(&config) };
            let (model2, p2) = boost(&config, &du);
            if let Some(i) = first_diff(&p, &p2) { return Err(format!("row {}: {} without and {} with irrelevant columns", i, p[i], p2[i])); }
            let (a, b) = (model.predict(&data), model2.predict(&du));
            if let Some(i) = first_diff(&a, &b) { return Err(format!("row {}: model predicts {} without and {} with irrelevant columns", i, a[i], b[i])); }
        }
        1 => { // power-of-two scaling
            ctx.label("power-of-two target");
            let (mut cfg, mut t) = gen_case(src, &Opts { objectives: &["l2"], numeric: false, bagging: true, max_n: 2500, max_iter: 5, ..Opts::default() });
            cfg.min_gain = 0.0;
            // no denormals involved
            for x in t.target.iter_mut() { if x.abs() < 1e-6 { *x = 0.0; } }
            describe(ctx, &cfg, &t);
            label_case(ctx, &cfg, &t);
            let k = src.draw(24) as i32 - 12;
            let f = (2f32).powi(k);
            let config = cfg.config();
            let data = t.data(&config);
            let (model, p) = boost(&config, &data);
            ctx.nontrivial = k != 0 && distinct(&p) > 1;
            let mut u = t.clone();
            for x in u.target.iter_mut() { *x *= f; }
            let du = u.data(&config);
            let (model2, p2) = boost(&config, &du);
            let ps: Vec<f32> = p.iter().map(|x| x * f).collect();
            if let Some(i) = first_far(&ps, &p2, cfg.niterations) {
                return Err(format!("targets times 2^{}: row {} accumulates {}, expected {}", k, i, p2[i], ps[i]));
            }
            let a: Vec<f32> = model.predict(&data).iter().map(|x| x * f).collect();
            let b = model2.predict(&du);
            if let Some(i) = first_far(&a, &b, cfg.niterations) {
                return Err(format!("targets times 2^{}: row {} predicts {}, expected {}", k, i, b[i], a[i]));
            }
        }
        3 => { // the unit of numerical columns
            ctx.label("unit of a column");
            let (cfg, t) = gen_case(src, &Opts { max_n: 2500, max_iter: 4, extremes: 100, ..Opts::default() });
            let other = gen_other_rows(src, &t, 60);
            let usual = |x: &f32| *x == 0.0 || (x.abs() > 1e-12 && x.abs() < 1e25);
            let can = |j: usize| !t.cols[j].cat && t.cols[j].vals.iter().all(usual) && other.cols[j].vals.iter().all(usual);
            // (limits closer than this would put the width of a bin among the denormals)
            let span = |j: usize| { let v = &t.cols[j].vals; let (a, b) = v.iter().fold((f32::INFINITY, f32::NEG_INFINITY), |(a, b), &x| (a.min(x), b.max(x))); b - a };
            let wide = src.chance(1, 2);
            let shift: Vec<i32> = (0..t.cols.len()).map(|j| {
                if !can(j) || !(span(j) == 0.0 || span(j) > 1e-20) || src.chance(1, 4) { return 0; }
                if !wide { return src.draw(40) as i32 - 20; }
                // as far as all values and the span stay within 2^-95 .. 2^95
                let mags = t.cols[j].vals.iter().chain(&other.cols[j].vals).map(|x| x.abs()).filter(|x| *x > 0.0);
                let (lo, hi) = mags.fold((span(j).max(1e-20), span(j)), |(a, b), x| (a.min(x), b.max(x)));
                let lo = if span(j) == 0.0 { 1e-20 } else { lo };
                let (down, up) = ((95.0 + lo.log2()).max(0.0) as u64, (95.0 - hi.max(1.0).log2()).max(0.0) as u64);
                src.draw(down + up) as i32 - down as i32
            }).collect();
            describe(ctx, &cfg, &t);
            label_case(ctx, &cfg, &t);
            ctx.note(|| format!("columns times 2^{:?}", shift));
            let config = cfg.config();
            let (data, od) = (t.data(&config), other.data(&config));
            let (model, p) = boost(&config, &data);
            ctx.nontrivial = distinct(&p) > 1 && shift.iter().any(|&k| k != 0);
            let scaled = |t: &Table| { let mut u = t.clone(); for j in 0..u.cols.len() { let f = 2f64.powi(shift[j]); for x in u.cols[j].vals.iter_mut() { *x = (*x as f64 * f) as f32; } } u };
            let (u, uo) = (scaled(&t), scaled(&other));
            let (du, duo) = (u.data(&config), uo.data(&config));
            let (model2, p2) = boost(&config, &du);
            if let Some(i) = first_diff(&p, &p2) { return Err(format!("row {}: {} with one unit and {} with another", i, p[i], p2[i])); }
            let (a, b) = (model.predict(&od), model2.predict(&duo));
            if let Some(i) = first_diff(&a, &b) { return Err(format!("unseen row {}: {} with one unit and {} with another", i, a[i], b[i])); }
        }
        4 => { // every row twice
            ctx.label("rows repeated");
            let blocky = src.chance(1, 2);
            let large = src.chance(1, 10);
            let (mut cfg, t) = gen_case(src, &Opts { objectives: &["l2"], numeric: false, bagging: false, feat_sampling: false, max_n: if large { 15000 } else { 2500 }, min_n: if large { 3000 } else { 0 }, blocky, ..Opts::default() });
            cfg.niterations = 1;
            let card = t.cols.iter().flat_map(|c| c.vals.iter()).fold(0.0f32, |a, &x| a.max(x)) as usize + 1;
            if card > 5000 { return Ok(()); } // (grouped categories follow ranks, which do not double)
            cfg.max_nbins = cfg.max_nbins.max(card);
            let times = src.range(1, 2) as u32; // 2 or 4 times
            let m = 1u32 << times;
            cfg.min_gain = cfg.min_gain.max(0.0);
            describe(ctx, &cfg, &t);
            label_case(ctx, &cfg, &t);
            let mut r = src.sub();
            let col = t.cols[r.below(t.cols.len() as u64) as usize].clone();
            let med = { let mut v = col.vals.clone(); v.sort_by(|a, b| a.partial_cmp(b).unwrap()); v[t.n / 2] };
            let g: Vec<f32> = (0..t.n).map(|i| (if (col.vals[i] > med) != r.chance(0.2) { 0.5 } else { -0.25 }) + 0.25 * (r.below(5) as f32 - 2.0)).collect();
            let (p, tree) = single_tree(&cfg, &t, &g, (-1.0, 1.0));
            ctx.nontrivial = distinct(&p) > 1;
            let apart = r.chance(0.5);
            let rows: Vec<usize> = if apart { (0..t.n * m as usize).map(|i| i % t.n).collect() } else { (0..t.n * m as usize).map(|i| i / m as usize).collect() };
            ctx.note(|| format!("every row {} times, {}", m, if apart { "block after block" } else { "one after the other" }));
            let mut c2 = cfg.clone();
            c2.reg_lambda *= m as f32;
            c2.min_gain *= m as f32;
            c2.min_examples_leaf = c2.min_examples_leaf.saturating_mul(m);
            let g2: Vec<f32> = rows.iter().map(|&i| g[i]).collect();
            let (p2, tree2) = single_tree(&c2, &t.rows(&rows), &g2, (-1.0, 1.0));
            ensure!(tree.nnodes() == tree2.nnodes(), "{} nodes, {} with every row {} times", tree.nnodes(), tree2.nnodes(), m);
            for (k, &i) in rows.iter().enumerate() { ensure!((p2[k] - p[i]).abs() <= 1e-5, "row {}: {}, with every row {} times {}", i, p[i], m, p2[k]); }
        }
        _ => { // row order, exact sums
            ctx.label("row order");
            let numeric = src.chance(1, 2);
            let blocky = src.chance(1, 2);
            let large = src.chance(1, 16);
            let (mut cfg, t) = gen_case(src, &Opts { objectives: &["l2"], numeric, bagging: false, feat_sampling: false, max_n: if large { 20000 } else { 2500 }, min_n: if large { 4000 } else { 0 }, blocky, ..Opts::default() });
            cfg.niterations = 1;
            describe(ctx, &cfg, &t);
            label_case(ctx, &cfg, &t);
            let mut r = src.sub();
            let col = t.cols[r.below(t.cols.len() as u64) as usize].clone();
            let med = { let mut v = col.vals.clone(); v.sort_by(|a, b| a.partial_cmp(b).unwrap()); v[t.n / 2] };
            // with numerical columns all gradients have one magnitude, so weights are order-free
            let g: Vec<f32> = (0..t.n).map(|i| {
                let up = (col.vals[i] > med) != r.chance(0.2);
                if numeric { if up { 1.0 } else { -1.0 } }
                else { (if up { 0.5 } else { -0.25 }) + 0.25 * (r.below(5) as f32 - 2.0) }
            }).collect();
            let bounds = *src.pick(&[(-1.0f32, 1.0f32), (-1.0, 2.0)]);
            let (p, tree) = single_tree(&cfg, &t, &g, bounds);
            ctx.nontrivial = distinct(&p) > 1;
            let mut perm: Vec<usize> = (0..t.n).collect();
            for i in (1..perm.len()).rev() { perm.swap(i, r.below(i as u64 + 1) as usize); }
            let u = t.rows(&perm);
            let gu: Vec<f32> = perm.iter().map(|&i| g[i]).collect();
            let (pu, tree2) = single_tree(&cfg, &u, &gu, bounds);
            ensure!(tree.nnodes() == tree2.nnodes(), "{} nodes, {} after reordering the rows", tree.nnodes(), tree2.nnodes());
            for (i, &j) in perm.iter().enumerate() {
                ensure!((pu[i] - p[j]).abs() <= 1e-5, "row {}: {} in one order, {} in another", j, p[j], pu[i]);
            }
        }
    }
    Ok(())
}

// ---- C35 ---------------------------------------------------------------------------------------

/// The same run with settings changed that do not concern it.
fn c35(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let plain = src.chance(1, 3); // low-cardinality columns only
    let mut o = Opts { max_n: 1500, max_iter: 6, extremes: 50, balanced: 20, ..Opts::default() };
    if plain { o.numeric = false; o.hicard = false; o.balanced = 0; }
    let (cfg, t) = gen_case(src, &o);
    describe(ctx, &cfg, &t);
    label_case(ctx, &cfg, &t);
    let other = gen_other_rows(src, &t, 40);
    // (what data makes of the columns depends on max_nbins)
    let grouped = |nb: usize| t.cols.iter().any(|c| !c.cat || c.vals.iter().any(|&x| x as usize >= nb));
    let useful = t.cols.iter().filter(|c| c.vals.iter().any(|x| *x != c.vals[0])).count();

    let run = |config: &Config, names: &[String]| -> (Vec<f32>, Vec<f32>, Vec<f32>) {
        let data = t.data(config);
        let mut obj = objective_from_name(&config.objective).expect("objective");
        let ms = metrics_from_names(names).expect("metrics");
        let model = Booster::new(config, &data, obj.as_mut(), &ms).train();
        (obj.predictions().to_vec(), model.predict(&data), model.predict(&other.data(config)))
    };
    let a = run(&cfg.config(), &[]);
    ctx.nontrivial = distinct(&a.0) > 1;

    let mut config = cfg.config();
    let mut names: Vec<String> = vec![];
    let mut changed: Vec<&'static str> = vec![];
    let mut seed_free = !cfg.sampling();
    for _ in 0..src.range(1, 4) {
        match src.draw(9) {
            0 | 1 => {
                names = (0..src.range(1, 3)).map(|_| src.pick(&["l2", "rmse", "binary_loss", "binary_error", "binary_error01"]).to_string()).collect();
                config.metrics = names.clone();
                config.metric_frequency = *src.pick(&[1usize, 2, 0, 3, 1000]);
                changed.push("metrics");
            }
            2 => {
                config.csv_delimiter = *src.pick(&[b';', b'\t', b'|']);
                config.csv_has_header = src.chance(1, 2);
                config.train = "nowhere".to_string();
                config.test = "nowhere else".to_string();
                config.categorical_features = (0..t.cols.len()).filter(|j| j % 2 == 0).collect();
                changed.push("input settings");
            }
            3 => if cfg.objective != "huber" { config.huber_alpha = *src.pick(&[0.5f32, 0.01, 0.3, 0.99, 0.0, 1.0, -3.0]); changed.push("huber_alpha"); },
            4 => if cfg.objective != "binary" { config.binary_gradient_bound = *src.pick(&[0.01f32, 100.0, 0.0, 2.0, -1.0]); changed.push("binary_gradient_bound"); },
            5 => if seed_free { config.random_seed = src.draw(u32::MAX as u64); changed.push("random_seed"); },
            6 => {
                let mut r = src.sub();
                config.objective = cfg.objective.chars().map(|c| if r.chance(0.5) { c.to_ascii_uppercase() } else { c }).collect();
                changed.push("objective's letters");
            }
            7 => if !cfg.sampling() && !grouped(cfg.max_nbins) { config.sample_freq = *src.pick(&[0usize, 2, 7, 1]); config.example_fraction = 1.0; changed.push("sample_freq"); },
            8 => if !grouped(cfg.max_nbins) {
                let top = t.cols.iter().flat_map(|c| c.vals.iter()).fold(0f32, |a, &b| a.max(b)) as usize + 1;
                config.max_nbins = top.max(2) + src.range(0, 40);
                changed.push("max_nbins");
            },
            _ => { // fractions that round to everything
                let f = 1.0 - 0.4 / t.n as f32;
                if cfg.example_fraction == 1.0 && src.chance(1, 2) {
                    if t.n <= 1500 && f < 1.0 && cfg.feature_fraction == 1.0 && config.sample_freq > 0 { config.example_fraction = f; seed_free = false; changed.push("example_fraction"); }
                } else if cfg.feature_fraction == 1.0 && useful > 0 {
                    let f = 1.0 - 0.4 / useful as f32;
                    if f < 1.0 { config.feature_fraction = f; changed.push("feature_fraction"); }
                }
            }
        }
    }
    if changed.is_empty() { config.metrics = vec!["l2".to_string()]; names = config.metrics.clone(); changed.push("metrics"); }
    for c in &changed { ctx.label(c); }
    ctx.note(|| format!("{:?}, metrics {:?}: {:?}", changed, names, config));
    let b = run(&config, &names);
    for (what, x, y) in [("predictions while training", &a.0, &b.0), ("predictions of the training rows", &a.1, &b.1), ("predictions of other rows", &a.2, &b.2)] {
        if let Some(i) = first_diff(x, y) { return Err(format!("changing {}: {}: row {} has {} instead of {}", changed.join(", "), what, i, y[i], x[i])); }
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C35", run: c35, quick: 120000, thorough: 1800000,
            rule: "random table and configuration and the same run with one to four changes that do not concern it: metrics and their frequency, settings of the input files, huber_alpha and binary_gradient_bound of other objectives, the seed without sampling, the letter case of the objective, sample_freq and max_nbins for low-cardinality tables, fractions that round to everything; bit equality of all predictions. Non-trivial: at least two different predictions.",
            assumptions: &["data is handed over column by column"] },
        Prop { id: "C01", run: c01, quick: 90000, thorough: 1800000,
            rule: "random table (1-40 columns of 18 styles, 1-6000 rows) and configuration; one boosting run; objective predictions against model predictions. Non-trivial: the run produced at least two different predictions.",
            assumptions: &["agreement up to f32 rounding of the additions", "finite inputs, valid categories"] },
        Prop { id: "C04", run: c04, quick: 30000, thorough: 600000,
            rule: "random table with rows clustered by value and configuration; runs with no compression, the drawn and another threshold compared bit by bit on training and other rows. Non-trivial: more than 256 rows (compression possible) and at least two different predictions.",
            assumptions: &["threshold 2.0 never compresses"] },
        Prop { id: "C05", run: c05, quick: 14000, thorough: 360000,
            rule: "random table and configuration; repeated run, runs in two other thread pool sizes, in one case of twelve a run in a process of its own, run with another seed when nothing is sampled, compared bit by bit. Non-trivial: at least two different predictions.",
            assumptions: &["thread schedules are those the operating system produces, not enumerated"] },
        Prop { id: "C06", run: c06, quick: 75000, thorough: 2000000,
            rule: "random model; its predictions on training and unseen rows, permuted, repeated, subset, single rows, other targets, other declared types, dirty buffers; bias plus leaf values. Non-trivial: at least two different predictions.",
            assumptions: &["categories in prediction data up to 2^24"] },
        Prop { id: "C07", run: c07, quick: 40000, thorough: 640000,
            rule: "random table and configuration; snapshot after each iteration of one run against fresh runs with 0, 1, k, n iterations, on training and unseen rows; single tree plus bias against one iteration. Non-trivial: at least two iterations and two different predictions.",
            assumptions: &[] },
        Prop { id: "C10", run: c10, quick: 50000, thorough: 800000,
            rule: "random regression table, no bagging, up to 12 iterations, learning rate in (0,1]; squared error of objective and model after each iteration. Non-trivial: at least two different predictions.",
            assumptions: &["slack for f32 rounding of means and predictions"] },
        Prop { id: "C23", run: c23, quick: 120000, thorough: 2400000,
            rule: "degenerate tables (single rows, constant columns and targets, no features, tiny samples, duplicates, scaled targets, deep trees, many iterations) and random configurations; training must finish, predictions be finite. Every case is non-trivial.",
            assumptions: &["target magnitudes up to about 1e13, feature magnitudes up to about 1e26", "panics are observed with debug assertions and overflow checks enabled"] },
        Prop { id: "C29", run: c29, quick: 90000, thorough: 1500000,
            rule: "metamorphic pairs: constant/duplicate columns added; all targets times a power of two (l2, categorical, min_gain 0); numerical columns in another unit (times a power of two); rows permuted, and every row two or four times with reg_lambda, min_gain and min_examples_leaf multiplied likewise, with exact gradient sums (single tree). Non-trivial: at least two different predictions and a real change.",
            assumptions: &["equality up to rounding for target scaling, row order and repeated rows, bit equality for columns and units"] },
    ]
}
