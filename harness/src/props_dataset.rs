//! C17, C18, C19: candidate splits, category groups and samples of the data set.
use bitboost::data::FeatType;
use bitboost::dataset::Dataset;

use crate::gen::*;
use crate::props_boost::label_case;
use crate::train::*;
use vengine::*;

/// Does update number `k` (from 1) resample and rebuild?
fn full_update(k: usize, freq: usize) -> bool { freq != 0 && (k == 1 || k % freq == 0) }

struct State { active: Vec<usize>, feats: Vec<usize>, nbins: Vec<usize>, values: Vec<Vec<f32>>, masks: Vec<Vec<Vec<bool>>>, supercats: Vec<Vec<u32>> }

fn state(ds: &mut Dataset) -> State {
    let mut active = vec![usize::MAX; ds.nactive_examples()];
    ds.active_examples_iter(|i, j| active[i] = j);
    let feats = ds.active_features().to_vec();
    let supercats = ds.get_supercats().clone();
    let nbins: Vec<usize> = feats.iter().map(|&f| ds.get_nbins(f)).collect();
    let values = feats.iter().map(|&f| (0..ds.get_nbins(f)).map(|s| ds.get_split_value(f, s)).collect()).collect();
    let masks = feats.iter().map(|&f| (0..ds.get_nbins(f)).map(|s| { let b = ds.get_bitvec(f, s); (0..active.len()).map(|i| b.get_bit(i)).collect() }).collect()).collect();
    State { active, feats, nbins, values, masks, supercats }
}

fn gen_ds_case(src: &mut Src, max_n: usize) -> (Cfg, Table) {
    let degenerate = src.chance(1, 6);
    gen_case(src, &Opts { objectives: &["l2"], max_n, degenerate, extremes: 60, balanced: 30, ..Opts::default() })
}

// ---- C17 ---------------------------------------------------------------------------------------

fn c17(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let (cfg, t) = gen_ds_case(src, 5000);
    let updates = src.range(1, 4);
    ctx.note(|| format!("{:?}", cfg));
    ctx.note(|| t.describe());
    label_case(ctx, &cfg, &t);
    let config = cfg.config();
    let data = t.data(&config);
    let mut ds = Dataset::new(&config, &data);
    let mut ncand = 0u64;
    let mut nquant = 0u64;
    for k in 1..=updates {
        let (grads, bounds) = gen_grads(src, &t);
        ds.update(&config, &grads, bounds);
        let full = full_update(k, cfg.sample_freq);
        let s = state(&mut ds);
        for f in 0..t.cols.len() {
            if distinct_vals(&t.cols[f].vals) == 1 {
                ensure!(ds.get_nbins(f) == 0 || !s.feats.contains(&f), "constant feature {} has {} candidates in use", f, ds.get_nbins(f));
            }
        }
        for (fi, &f) in s.feats.iter().enumerate() {
            let vals = &t.cols[f].vals;
            let nb = s.nbins[fi];
            let ftype = data.feat_type(f);
            ensure!(nb <= cfg.max_nbins, "feature {}: {} candidates, max_nbins {}", f, nb, cfg.max_nbins);
            if ftype == FeatType::LoCardCat {
                let card = vals.iter().cloned().fold(0f32, f32::max) as usize + 1;
                ensure!(nb == if card == 2 { 1 } else { card }, "low-cardinality feature {} with {} categories has {} candidates", f, card, nb);
            }
            let sc: &[u32] = s.supercats.get(f).map(|v| &v[..]).unwrap_or(&[]);
            for split in 0..nb {
                ncand += 1;
                let v = s.values[fi][split];
                let mask = &s.masks[fi][split];
                for (i, &j) in s.active.iter().enumerate() {
                    let pass = match ftype {
                        FeatType::LoCardCat => vals[j] == v,
                        FeatType::HiCardCat => (sc[vals[j] as usize] as f32) <= v,
                        FeatType::Numerical => vals[j] < v,
                    };
                    ensure!(pass == mask[i], "update {}: feature {} ({:?}) candidate {} (value {:?}): row {} with value {:?} {} the test but is {} the set",
                            k, f, ftype, split, v, j, vals[j], if pass { "passes" } else { "fails" }, if mask[i] { "in" } else { "not in" });
                }
                if ftype != FeatType::LoCardCat && split > 0 {
                    let prev = &s.masks[fi][split - 1];
                    ensure!((0..mask.len()).all(|i| mask[i] || !prev[i]), "feature {}: candidate {} does not contain candidate {}", f, split, split - 1);
                    ensure!(v >= s.values[fi][split - 1], "feature {}: cut {} is {:?} after {:?}", f, split, v, s.values[fi][split - 1]);
                }
            }
            if ftype == FeatType::Numerical {
                ensure!(nb > 0 || cfg.sample_freq == 0, "numerical feature {} has no candidate", f);
                let (lo, hi) = vals.iter().fold((f32::INFINITY, f32::NEG_INFINITY), |(a, b), &x| (a.min(x), b.max(x)));
                let slack = (hi as f64 - lo as f64) * 1e-5 + 1e-6 * (lo.abs().max(hi.abs()) as f64);
                for &v in &s.values[fi] {
                    ensure!(v as f64 >= lo as f64 - slack && v as f64 <= hi as f64 + slack, "feature {}: cut {:?} outside {:?}..{:?}", f, v, lo, hi);
                }
                if full {
                    nquant += quantile_check(f, vals, &s.active, &grads, &s.values[fi], cfg.max_nbins, lo, hi)?;
                }
            }
        }
    }
    ctx.nontrivial = ncand > 0;
    ctx.count("candidates checked", ncand);
    ctx.count("quantile positions checked", nquant);
    Ok(())
}

fn distinct_vals(v: &[f32]) -> usize {
    let mut w: Vec<f32> = v.iter().map(|x| x + 0.0).collect();
    w.sort_by(|a, b| a.partial_cmp(b).unwrap());
    w.dedup();
    w.len()
}

/// Numerical cut points are at the gradient-weighted quantiles to one bin of 512.
fn quantile_check(f: usize, vals: &[f32], active: &[usize], grads: &[f32], cuts: &[f32], nbins: usize, lo: f32, hi: f32) -> Result<u64, String> {
    let delta = (hi as f64 - lo as f64) / 512.0;
    let ulp = (next_up(hi.abs().max(lo.abs())) - hi.abs().max(lo.abs())) as f64;
    if !(delta >= 16.0 * ulp) || !delta.is_finite() { return Ok(0); }
    let mut rows: Vec<(f64, f64)> = active.iter().map(|&j| (vals[j] as f64, grads[j].abs() as f64 + f32::EPSILON as f64)).collect();
    rows.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());
    let mut cum = vec![0f64];
    for r in &rows { let l = *cum.last().unwrap(); cum.push(l + r.1); }
    let total = *cum.last().unwrap();
    let tol = (rows.len() as f64 + 1024.0) * 1.2e-7 * total;
    // a cut is the upper edge of the bin that holds the quantile; the last bin's is its lower edge,
    // so that no cut is at the limit
    let last = hi as f64 - 1.5 * delta;
    let (d, small) = (delta * 1.01 + 4.0 * ulp, delta * 0.01 + 4.0 * ulp);
    let below = |x: f64| -> f64 { cum[rows.partition_point(|r| r.0 < x)] };
    let upto = |x: f64| -> f64 { cum[rows.partition_point(|r| r.0 <= x)] };
    let ok = |c: f32, i: usize| -> bool {
        let want = total * i as f64 / (nbins + 1) as f64;
        below(c as f64 - d) <= want + tol && upto(c as f64 + if c as f64 > last { d } else { small }) >= want - tol
    };
    for i in 1..=nbins {
        ensure!(cuts.iter().any(|&c| ok(c, i)), "feature {}: no cut point within a bin of the weighted quantile {}/{}; cuts {:?}, total weight {}", f, i, nbins + 1, cuts, total);
    }
    for &c in cuts {
        ensure!((1..=nbins).any(|i| ok(c, i)), "feature {}: cut point {:?} is at none of the weighted quantiles i/{}", f, c, nbins + 1);
    }
    Ok(nbins as u64)
}

// ---- C18 ---------------------------------------------------------------------------------------

fn c18(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let o = Opts { objectives: &["l2"], max_n: 4000, ..Opts::default() };
    let large = src.chance(1, 3000);
    let n = if large { src.range(65000, 140000) } else { gen_n(src, &o).max(2) };
    let mut cfg = gen_cfg(src, &o);
    if src.chance(1, 3) { cfg.max_nbins = *src.pick(&[2usize, 3, 4, 5]); }
    if src.chance(1, 100) { cfg.max_nbins = *src.pick(&[256usize, 257, 300, 512, 600]); }
    let huge = src.chance(1, 1500);
    let nc = if large || huge { 1 } else { src.range(1, 3) };
    let mut cols = vec![];
    for _ in 0..nc {
        let mut c = gen_col(src, n, cfg.max_nbins, &Opts { numeric: false, ..o.clone() });
        if !c.kind.starts_with("hc") {
            let k = cfg.max_nbins + 1 + src.range(0, 40);
            let mut r = src.sub();
            for x in c.vals.iter_mut() { *x = r.below(k as u64) as f32; }
            c.vals[0] = (k - 1) as f32;
            c.cat = true;
            c.kind = "hc";
        }
        if huge {
            let top = *src.pick(&[70000usize, 65536, 65537, 131100]);
            let mut r = src.sub();
            for x in c.vals.iter_mut() { *x = match r.below(4) { 0 => (65536 + r.below(30)) as f32, 1 => r.below(30) as f32, _ => r.below(top as u64 + 1) as f32 }; }
            c.vals[0] = top as f32;
            c.kind = "hc-huge";
        }
        cols.push(c);
    }
    let target = vec![0.0; n];
    let t = Table { n, cols, target };
    let unit = gen_unit(src, &mut cfg);
    ctx.note(|| format!("{:?}", cfg));
    ctx.note(|| t.describe());
    label_case(ctx, &cfg, &t);
    let config = cfg.config();
    let data = t.data(&config);
    let mut ds = Dataset::new(&config, &data);
    let updates = src.range(1, 3);
    let mut groups_seen = 0u64;
    for k in 1..=updates {
        let (grads, bounds) = gen_grads_in(src, &t, unit);
        ds.update(&config, &grads, bounds);
        if !full_update(k, cfg.sample_freq) { continue; }
        let s = state(&mut ds);
        for (fi, &f) in s.feats.iter().enumerate() {
            if data.feat_type(f) != FeatType::HiCardCat { continue; }
            let vals = &t.cols[f].vals;
            let sc = &s.supercats[f];
            let nb = s.nbins[fi];
            ensure!(nb <= cfg.max_nbins, "{} groups boundaries for max_nbins {}", nb, cfg.max_nbins);
            let card = vals.iter().cloned().fold(0f32, f32::max) as usize + 1;
            ensure!(sc.len() == card, "feature {}: {} categories, group table has {}", f, card, sc.len());
            let mut sum = vec![(0f64, 0f64, 0usize); card];
            for &j in &s.active { let e = &mut sum[vals[j] as usize]; e.0 += grads[j] as f64; e.1 += grads[j].abs() as f64; e.2 += 1; }
            let (lo, hi) = (bounds.0 as f64, bounds.1 as f64);
            let delta = (hi - lo) / 512.0;
            // (mean, tolerance of the f32 mean, category, count)
            let mut cats: Vec<(f64, f64, usize, usize)> = (0..card).filter(|&c| sum[c].2 > 0)
                .map(|c| { let (s, a, n) = sum[c]; (s / n as f64, (6.1e-8 * (n as f64 + 2.0) * a) / n as f64 + 1e-30, c, n) }).collect();
            cats.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());
            let eps = cats.iter().map(|c| c.1).fold(0.0, f64::max) + 2e-7 * lo.abs().max(hi.abs());
            for c in &cats { ensure!(sc[c.2] as usize <= nb, "feature {}: category {} is in group {} of {}", f, c.2, sc[c.2], nb + 1); }
            // monotone
            let mut maxg = 0u32;
            let mut at = 0usize;
            for i in 0..cats.len() {
                while at < i && cats[at].0 < cats[i].0 - delta - 2.0 * eps { maxg = maxg.max(sc[cats[at].2]); at += 1; }
                ensure!(sc[cats[i].2] >= maxg, "feature {}: category {} (mean gradient {}) is in group {}, but a category with a smaller mean is in group {}",
                        f, cats[i].2, cats[i].0, sc[cats[i].2], maxg);
            }
            groups_seen += nb as u64;
            // boundaries at evenly spaced ranks
            let nact = s.active.len();
            let mut cum = vec![0usize];
            for c in &cats { let l = *cum.last().unwrap(); cum.push(l + c.3); }
            let stat = |rank: usize| -> f64 { let i = cum.partition_point(|&x| x <= rank) - 1; cats[i.min(cats.len() - 1)].0.max(lo).min(hi) };
            let range_of = |i: usize| -> (f64, f64) { // value of the i-th quantile, allowing for the rounding of its rank
                let x = i as f64 * nact as f64 / (cfg.max_nbins + 1) as f64;
                let e = 1e-6 * x + 1e-9;
                let r = |y: f64| -> usize { (y.round().max(1.0) as usize - 1).min(nact - 1) };
                (stat(r(x - e)), stat(r(x + e)))
            };
            let d = delta * 1.001 + 2.0 * eps;
            // prefix maxima / suffix minima of the groups in order of the means
            let mut pre = vec![0u32]; // max group among the first i
            for c in &cats { let l = *pre.last().unwrap(); pre.push(l.max(sc[c.2])); }
            let mut suf = vec![u32::MAX; cats.len() + 1];
            for i in (0..cats.len()).rev() { suf[i] = suf[i + 1].min(sc[cats[i].2]); }
            let ks = |i: usize| -> (u32, u32) { // admissible boundary indices k: lowest, highest+1
                let (x0, x1) = range_of(i);
                let a = cats.partition_point(|c| c.0 <= x0 - d);
                let b = cats.partition_point(|c| c.0 <= x1 + d);
                (pre[a], suf[b].min(nb as u32))
            };
            let mut justified = vec![false; nb];
            for i in 1..=cfg.max_nbins {
                let (a, b) = ks(i);
                ensure!(a < b, "feature {}: no group boundary at rank {}/{} of {} rows (mean gradient {:?}): categories below are in groups up to {}, categories above in groups from {}",
                        f, i, cfg.max_nbins + 1, nact, range_of(i), a, b);
                for k in a..b { justified[k as usize] = true; }
            }
            if let Some(k) = justified.iter().position(|&j| !j) { return Err(format!("feature {}: group boundary {} is at none of the ranks i/{}", f, k, cfg.max_nbins + 1)); }
        }
    }
    ctx.nontrivial = groups_seen >= 2;
    ctx.count("group boundaries checked", groups_seen);
    Ok(())
}

// ---- C19 ---------------------------------------------------------------------------------------

fn rounded(n: usize, frac: f32) -> (usize, usize) {
    let x = n as f64 * frac as f64;
    let e = 1e-6 * x + 1e-9;
    ((x - e).round().max(0.0) as usize, (x + e).round() as usize)
}

fn c19(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let stats = src.chance(1, 4);
    let n = match src.weighted(&[20, 40, 30, 10]) { 0 => src.range(1, 8), 1 => src.range(5, 80), 2 => src.range(60, 400), _ => src.range(300, 4000) };
    let n = if stats { n.max(2).min(120) } else { n };
    let (large, wide) = (!stats && src.chance(1, 800), !stats && src.chance(1, 300));
    let n = if large { src.range(65000, 140000) } else { n };
    let nf = if large { src.range(1, 3) } else if wide { src.range(250, 700) } else { match src.weighted(&[60, 30, 10]) { 0 => src.range(1, 8), 1 => src.range(4, 30), _ => src.range(30, 90) } };
    let n = if wide && !large { n.min(60) } else { n };
    let nf = if n * nf > 40000 && !large { 40000 / n } else { nf };
    ctx.label_if(large, "n>65000");
    ctx.label_if(wide && !large, "more than 250 features");
    let o = Opts { objectives: &["l2"], ..Opts::default() };
    let mut cfg = gen_cfg(src, &o);
    cfg.max_nbins = 4;
    cfg.example_fraction = if src.chance(1, 5) { 1.0 } else { let f = src.range(1, 99) as f32 / 100.0; if src.chance(1, 10) { f * 0.01 } else { f } };
    cfg.feature_fraction = if src.chance(1, 3) { 1.0 } else { src.range(1, 99) as f32 / 100.0 };
    cfg.sample_freq = if stats { 1 } else { match src.weighted(&[80, 20]) { 0 => *src.pick(&[1usize, 2, 3, 5, 0, 7]), _ => src.range(4, 40) } };
    let blocks = !stats && !large && !wide && src.chance(1, 100);
    let (n, nf) = if blocks { (src.range(3000, 20000), 1) } else { (n, nf) };
    if blocks { cfg.sample_freq = 1; cfg.example_fraction = *src.pick(&[0.5f32, 0.25, 0.1, 0.75, 0.9]); }
    ctx.label_if(blocks, "frequencies of blocks of rows");
    let mut r = src.sub();
    let mut cols: Vec<Col> = (0..nf).map(|_| {
        let kind = r.below(8);
        let k = r.range(3, 4);
        match kind {
            0 => Col { vals: vec![if r.chance(0.5) { 0.0 } else { 2.0 }; n], cat: true, kind: "single" },
            1 => Col { vals: (0..n).map(|_| r.unit() as f32).collect(), cat: false, kind: "num" },
            2 => Col { vals: (0..n).map(|_| r.below(20) as f32).collect(), cat: true, kind: "hc" },
            _ => Col { vals: (0..n).map(|_| r.below(k as u64) as f32).collect(), cat: true, kind: "lc" },
        }
    }).collect();
    if stats { for c in cols.iter_mut() { if c.kind != "lc" && c.kind != "single" { c.cat = true; for x in c.vals.iter_mut() { *x = (*x as u64 % 3) as f32; } } } }
    let t = Table { n, cols, target: vec![0.0; n] };
    ctx.note(|| format!("{:?}", cfg));
    ctx.note(|| t.describe());
    ctx.label_if(stats, "frequencies");
    ctx.label_if(cfg.example_fraction < 1.0, "bagging");
    ctx.label_if(cfg.feature_fraction < 1.0, "feature sampling");
    let config = cfg.config();
    let data = t.data(&config);
    let long = !stats && n * nf <= 400 && src.chance(1, 25);
    let updates = if stats { 400 } else if large { 3 } else if long { src.range(257, 600) } else if blocks { 40 } else if cfg.sample_freq > 7 { src.range(1, 3 * cfg.sample_freq) } else { src.range(1, 12) };
    ctx.label_if(long, "more than 256 updates");
    // usable: more than one value
    let usable: Vec<usize> = (0..nf).filter(|&f| distinct_vals(&t.cols[f].vals) > 1).collect();
    let run = |config: &bitboost::config::Config, gseed: u64| -> Vec<(Vec<usize>, Vec<usize>, Vec<usize>)> {
        let mut ds = Dataset::new(config, &data);
        let mut r = Rng::new(gseed);
        (0..updates).map(|_| {
            let grads: Vec<f32> = (0..n).map(|_| r.normal() as f32).collect();
            ds.update(config, &grads, (-3.0, 3.0));
            let mut active = vec![usize::MAX; ds.nactive_examples()];
            ds.active_examples_iter(|i, j| active[i] = j);
            if ds.example_sampling_enabled() { for i in 0..active.len() { assert_eq!(ds.map_index(i), active[i]); } }
            let inactive = if ds.example_sampling_enabled() { ds.inactive_examples_iter().collect() } else { vec![] };
            (active, inactive, ds.active_features().to_vec())
        }).collect()
    };
    let a = run(&config, 1);
    let (k0, k1) = rounded(n, cfg.example_fraction);
    let (k0, k1) = if cfg.example_fraction >= 1.0 { (n, n) } else { (k0.max(1), k1.max(1)) };
    let (f0, f1) = if cfg.feature_fraction >= 1.0 { (usable.len(), usable.len()) } else { rounded(usable.len(), cfg.feature_fraction) };
    for (u, (act, inact, feats)) in a.iter().enumerate() {
        ensure!(act.len() >= k0 && act.len() <= k1, "update {}: {} active rows of {}, fraction {}", u + 1, act.len(), n, cfg.example_fraction);
        ensure!(act.windows(2).all(|w| w[0] < w[1]), "update {}: active rows not strictly increasing: {:?}", u + 1, &act[..act.len().min(20)]);
        ensure!(inact.windows(2).all(|w| w[0] < w[1]), "update {}: inactive rows not strictly increasing", u + 1);
        let mut all: Vec<usize> = act.iter().chain(inact).cloned().collect();
        all.sort();
        ensure!(all == (0..n).collect::<Vec<_>>(), "update {}: {} in-bag and {} out-of-bag rows are not the {} rows once each", u + 1, act.len(), inact.len(), n);
        ensure!(feats.len() >= f0 && feats.len() <= f1, "update {}: {} active features of {} usable, fraction {}", u + 1, feats.len(), usable.len(), cfg.feature_fraction);
        let mut fs = feats.clone();
        fs.sort();
        fs.dedup();
        ensure!(fs.len() == feats.len(), "update {}: a feature is active twice: {:?}", u + 1, feats);
        ensure!(fs.iter().all(|f| usable.contains(f)), "update {}: active features {:?}, usable {:?}", u + 1, fs, usable);
        if u > 0 {
            let (same_rows, same_feats) = (a[u].0 == a[u - 1].0, { let mut x = a[u].2.clone(); let mut y = a[u - 1].2.clone(); x.sort(); y.sort(); x == y });
            if !full_update(u + 1, cfg.sample_freq) {
                ensure!(same_rows && same_feats, "update {} changed the sample, sample_freq {}", u + 1, cfg.sample_freq);
            } else {
                let k = act.len();
                if k >= 12 && n - k >= 12 { ensure!(!same_rows, "update {} kept the {} of {} rows, sample_freq {}", u + 1, k, n, cfg.sample_freq); }
                let k = feats.len();
                if k >= 12 && usable.len() - k >= 12 { ensure!(!same_feats, "update {} kept the {} of {} features", u + 1, k, usable.len()); }
            }
        }
    }
    ctx.nontrivial = cfg.sampling() && updates > 1 && cfg.sample_freq > 0;
    if blocks { // every part of a large table gets its share, in all samples together and in the first
        let k = a[0].0.len();
        let p = k as f64 / n as f64;
        for parts in [8usize, 64] {
            let mut count = vec![0f64; parts];
            let mut first = vec![0f64; parts];
            for (u, (act, _, _)) in a.iter().enumerate() { for &i in act { count[i * parts / n] += 1.0; if u == 0 { first[i * parts / n] += 1.0; } } }
            for b in 0..parts {
                let size = (0..n).filter(|i| i * parts / n == b).count() as f64;
                for (times, c) in [(updates as f64, count[b]), (1.0, first[b])] {
                    let (want, sd) = (times * size * p, (times * size * p * (1.0 - p)).sqrt());
                    ensure!((c - want).abs() <= 7.0 * sd + 2.0, "part {} of {} of the {} rows was drawn {} times in {} samples of {}, expected {}", b, parts, n, c, times, k, want);
                }
            }
        }
    }
    // depends only on the seed
    let b = run(&config, 2);
    ensure!(a == b, "the samples depend on the gradients");
    if !stats {
        let mut c2 = cfg.clone();
        c2.random_seed = cfg.random_seed.wrapping_add(1 + src.draw(1000));
        let b = run(&c2.config(), 1);
        let k = a[0].0.len();
        if cfg.sample_freq > 0 && k >= 12 && n - k >= 12 { ensure!(a[0].0 != b[0].0, "seeds {} and {} give the same rows", cfg.random_seed, c2.random_seed); }
    } else {
        let tt = updates as f64;
        let freq = |universe: &[usize], pick: &dyn Fn(usize) -> Vec<usize>, k: usize, what: &str| -> Result<bool, String> {
            let m = universe.len();
            let p = k as f64 / m as f64;
            if k == 0 || k == m || tt * p < 50.0 || tt * (1.0 - p) < 50.0 { return Ok(false); }
            let mut count = std::collections::HashMap::new();
            let mut adj = 0f64;
            for u in 0..updates {
                let mut s = pick(u);
                s.sort();
                for w in s.windows(2) { if w[1] == w[0] + 1 { adj += 1.0; } }
                for x in s { *count.entry(x).or_insert(0usize) += 1; }
            }
            let sd = (tt * p * (1.0 - p)).sqrt();
            for &x in universe {
                let c = *count.get(&x).unwrap_or(&0) as f64;
                ensure!((c - tt * p).abs() <= 6.5 * sd + 1.0, "{} {} was drawn {} times in {} samples of {} out of {}", what, x, c, updates, k, m);
            }
            if m >= 10 && universe.windows(2).all(|w| w[1] == w[0] + 1) {
                let p2 = k as f64 * (k as f64 - 1.0) / (m as f64 * (m as f64 - 1.0));
                let want = tt * (m as f64 - 1.0) * p2;
                ensure!((adj - want).abs() <= 7.0 * (tt * m as f64).sqrt(), "neighbouring {}s were drawn together {} times, expected {}", what, adj, want);
            }
            Ok(true)
        };
        let rows: Vec<usize> = (0..n).collect();
        let x = freq(&rows, &|u| a[u].0.clone(), a[0].0.len(), "row")?;
        let y = freq(&usable, &|u| a[u].2.clone(), a[0].2.len(), "feature")?;
        ctx.label_if(x, "row frequencies tested");
        ctx.label_if(y, "feature frequencies tested");
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C17", run: c17, quick: 60000, thorough: 2400000,
            rule: "random table and configuration, 1-4 updates with random gradients; every candidate's mask against its test on all active rows, nesting, counts, and numerical cut points against gradient-weighted quantiles. Non-trivial: at least one candidate.",
            assumptions: &["quantile positions are checked where a bin of 1/512 of the range is at least 16 float steps wide"] },
        Prop { id: "C18", run: c18, quick: 300000, thorough: 6400000,
            rule: "1-3 high-cardinality columns, random gradients, bounds and bags, 1-3 updates; groups against category means recomputed in f64. Non-trivial: at least two group boundaries.",
            assumptions: &["resolution of one bin (1/512 of the gradient bounds)"] },
        Prop { id: "C19", run: c19, quick: 40000, thorough: 1600000,
            rule: "random sizes, fractions, frequencies, seeds; up to 400 updates; set properties of every sample, schedule, dependence on the seed, draw frequencies (6.5 standard deviations). Non-trivial: something is sampled and there are several updates.",
            assumptions: &["sample changes are demanded only where an accidental repetition is less likely than 1e-6"] },
    ]
}
