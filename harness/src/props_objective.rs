//! C08, C09: leaf values, starting values, gradients and bounds against f64 formulas, over histories.
use bitboost::config::Config;
use bitboost::objective::Objective;

use crate::gen::{preview, ALL_OBJ};
use crate::train::objective;
use vengine::*;

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C08", run: c08, quick: 600000, thorough: 4000000,
            rule: "a history in which a leaf had at least two rows with different residuals after predictions had become uneven",
            assumptions: &["targets within +-1e8, at most 200000 rows; hinge histories end when a prediction exceeds 1e5",
                "medians may be any value between the lower and upper median, to one bin of 1024"] },
        Prop { id: "C09", run: c09, quick: 800000, thorough: 4000000,
            rule: "a history with an update at uneven predictions and at least two different targets",
            assumptions: &["targets within +-1e8, at most 200000 rows", "at the kink of the absolute loss any subgradient is accepted",
                "a target of a single class only needs a finite starting value of the right sign (binary log loss)"] },
    ]
}

const EPS: f64 = 1.1920929e-7;

struct Hist { obj: Box<dyn Objective>, name: &'static str, lr: f32, alpha: f32, bound: f32, targets: Vec<f32> }

fn gen_targets(src: &mut Src, binary: bool) -> Vec<f32> {
    // (thousandths: a few histories with more rows than 16 bits count)
    let n = match src.weighted(&[200, 400, 300, 99, 1]) { 0 => src.range(1, 4), 1 => src.range(2, 30), 2 => src.range(20, 200), 3 => src.range(200, 3000), _ => src.range(3000, 200000) };
    let style = src.weighted(&[30, 15, 10, 8, 8, 8, 6, 5, 5, 5]);
    let p = src.draw(15) as usize;
    let mut r = src.sub();
    let mut t: Vec<f32> = (0..n).map(|i| {
        if binary {
            let q = [0.5, 0.1, 0.9, 0.02, 0.98, 0.3, 0.7, 0.5][p % 8];
            return match style { 6 => 0.0, 7 => 1.0, 8 => if i == n / 2 { 1.0 } else { 0.0 }, 9 => if i == n / 3 { 0.0 } else { 1.0 }, _ => if r.chance(q) { 1.0 } else { 0.0 } };
        }
        match style {
            0 => r.normal() as f32,
            1 => r.below(7) as f32 - 3.0,
            2 => (r.normal() * 1000.0) as f32,
            3 => 1e6 + r.below(50) as f32,
            4 => if r.chance(0.9) { 2.5 } else { r.normal() as f32 },
            5 => (r.normal() * 3.0).exp() as f32,
            6 => 7.25,
            7 => if r.chance(0.5) { 1.0 } else { 1.0000001 },
            8 => (r.normal() * 1e-6) as f32,
            _ => -(i as f32) * 0.5,
        }
    }).collect();
    if !binary && src.chance(1, 6) { let u = 2f32.powi(src.draw(80) as i32 - 40); for x in t.iter_mut() { *x *= u; } }
    if !binary && p == 15 { let k = r.below(n as u64) as usize; t[k] = 1e5; }
    t
}

fn start(src: &mut Src, ctx: &mut Ctx) -> Hist {
    let name = *src.pick(ALL_OBJ);
    let targets = gen_targets(src, name == "binary" || name == "hinge");
    let lr = *src.pick(&[1.0f32, 0.5, 0.1, 0.01, 0.37, 2.0, 0.9]);
    let alpha = *src.pick(&[0.95f32, 0.5, 0.9, 0.75, 0.05, 0.99, 0.3]);
    let bound = *src.pick(&[1.25f32, 1.0, 2.0, 0.5, 0.01, 5.0, 100.0]);
    let mut c = Config::new();
    c.objective = name.to_string();
    c.learning_rate = lr;
    c.huber_alpha = alpha;
    c.binary_gradient_bound = bound;
    c.discr_nbits = if name == "hinge" { 2 } else { *src.pick(&[4usize, 1, 2, 8]) };
    let mut obj = objective(name);
    if src.chance(1, 8) {
        // an objective object may be used again: initialisation starts afresh
        let other = vec![if name == "binary" || name == "hinge" { 1.0 } else { -3.0 }; 1 + targets.len() / 2];
        obj.initialize(&c, &other);
        obj.update(&other);
        ctx.label("object used before");
    }
    obj.initialize(&c, &targets);
    ctx.label(match name { "l2" => "obj:l2", "l1" => "obj:l1", "huber" => "obj:huber", "binary" => "obj:binary", _ => "obj:hinge" });
    ctx.note(|| format!("{} lr={} alpha={} bound={} n={} targets[{}]", name, lr, alpha, bound, targets.len(), preview(&targets, 40)));
    Hist { obj, name, lr, alpha, bound, targets }
}

fn residuals(h: &Hist) -> Vec<f32> { let p = h.obj.predictions(); (0..h.targets.len()).map(|i| h.targets[i] - p[i]).collect() }

fn min_max(v: &[f32]) -> (f64, f64) { v.iter().fold((f64::INFINITY, f64::NEG_INFINITY), |(a, b), &x| (a.min(x as f64), b.max(x as f64))) }

/// The values around the q-quantile: those at the ranks just below and at n*q.
fn quantile_bracket(values: &[f64], q: f64) -> (f64, f64) {
    let mut v = values.to_vec();
    v.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let n = v.len() as f64;
    let slack = n * q * 1.5e-7 + 1e-9;
    let hi = ((n * q + slack).floor() as usize).min(v.len() - 1);
    let lo = (((n * q - slack).ceil() as isize - 1).max(0) as usize).min(v.len() - 1);
    (v[lo.min(hi)], v[hi.max(lo)])
}

/// Resolution of a binned quantile within limits.
fn resolution(lo: f64, hi: f64) -> f64 {
    if !(lo < hi) { return 0.0; }
    (hi - lo) / 1024.0 * 1.001 + 4.0 * EPS * lo.abs().max(hi.abs()) + (hi - lo) * 1e-6
}

/// One leaf, checked completely. Limits are those of the residuals at the last update.
fn leaf(h: &mut Hist, rows: &[usize], limits: (f64, f64)) -> CaseResult {
    let before = h.obj.predictions().to_vec();
    let grads = h.obj.gradients().to_vec();
    let delta = h.obj.bounds().1 as f64;
    let n = rows.len() as f64;
    let res: Vec<f64> = rows.iter().map(|&i| (h.targets[i] - before[i]) as f64).collect();
    let sumabs: f64 = res.iter().map(|r| r.abs()).sum();
    let got = h.obj.predict_leaf_value(&h.targets, rows);
    let v = got as f64 / h.lr as f64;
    let (lo, hi) = match h.name {
        "l2" => {
            let m = res.iter().sum::<f64>() / n;
            let tol = (n + 6.0) * EPS * sumabs / n + EPS * m.abs() + 1e-40;
            (m - tol, m + tol)
        }
        "l1" | "huber" => {
            let clamped: Vec<f64> = res.iter().map(|&r| r.max(limits.0).min(limits.1)).collect();
            let (a, b) = quantile_bracket(&clamped, 0.5);
            let w = resolution(limits.0, limits.1);
            let f = |m: f64| -> f64 {
                if h.name == "l1" { m } else { m + res.iter().map(|r| (r - m).max(-delta).min(delta)).sum::<f64>() / n }
            };
            let big = sumabs / n + limits.0.abs().max(limits.1.abs());
            let tol = w + (n + 10.0) * EPS * big + 1e-40;
            (f(a) - tol, f(b) + tol)
        }
        "binary" => {
            let num: f64 = rows.iter().map(|&i| -grads[i] as f64).sum();
            let nabs: f64 = rows.iter().map(|&i| (grads[i] as f64).abs()).sum();
            let den: f64 = EPS + rows.iter().map(|&i| { let y = (grads[i] as f64).abs(); y * (2.0 - y) }).sum::<f64>();
            let m = num / den;
            let tol = (n + 8.0) * EPS * (nabs / den + m.abs()) + 1e-30;
            (m - tol, m + tol)
        }
        _ => {
            let terms: Vec<f64> = rows.iter().map(|&i| {
                let (t, p) = (h.targets[i], before[i] as f64);
                if t < 0.5 { let x = (2.0 + p).max(0.0); -x * x } else { let x = (2.0 - p).max(0.0); x * x }
            }).collect();
            let m = terms.iter().sum::<f64>() / n;
            let p2 = rows.iter().map(|&i| (before[i] as f64).abs() + 2.0).fold(0.0, f64::max);
            let tol = (n + 10.0) * EPS * (terms.iter().map(|x| x.abs()).sum::<f64>() / n + p2) + 1e-30;
            (m - tol, m + tol)
        }
    };
    let pad = EPS * v.abs() * 2.0;
    ensure!(v >= lo - pad && v <= hi + pad, "{} leaf of {} rows (residuals {:?}..): value / learning rate = {} but must be in [{}, {}]",
            h.name, rows.len(), &res[..res.len().min(8)], v, lo, hi);
    let after = h.obj.predictions();
    let mut inside = vec![false; before.len()];
    for &i in rows { inside[i] = true; }
    for i in 0..before.len() {
        if inside[i] {
            let want = before[i] + got;
            let tol = 3e-7 * before[i].abs().max(got.abs());
            ensure!((after[i] - want).abs() <= tol, "row {} of the leaf: prediction {} + value {} became {}", i, before[i], got, after[i]);
        } else {
            ensure!(after[i].to_bits() == before[i].to_bits(), "row {} outside the leaf: prediction {} became {}", i, before[i], after[i]);
        }
    }
    Ok(())
}

fn c08(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let mut h = start(src, ctx);
    let n = h.targets.len();
    let rounds = src.range(1, 5);
    let mut uneven = false;
    for round in 0..rounds {
        if h.name == "hinge" && h.obj.predictions().iter().any(|p| p.abs() > 1e5) { break; }
        let before = h.obj.predictions().to_vec();
        h.obj.update(&h.targets);
        ensure!(h.obj.predictions().iter().zip(&before).all(|(a, b)| a.to_bits() == b.to_bits()), "update changed the predictions");
        let limits = min_max(&residuals(&h));
        // leaves: mostly a partition of a bag, sometimes overlapping sets
        let overlap = src.chance(1, 6);
        let bag = *src.pick(&[1.0, 0.5, 0.8]);
        let k = src.range(1, 6);
        let mut r = src.sub();
        let mut sets: Vec<Vec<usize>> = vec![vec![]; k];
        let mut oob = vec![];
        for i in 0..n {
            if overlap { for s in sets.iter_mut() { if r.chance(0.4) { s.push(i); } } }
            else if r.chance(bag) { sets[r.below(k as u64) as usize].push(i); }
            else { oob.push(i); }
        }
        if r.chance(0.3) { for s in sets.iter_mut() { s.reverse(); } }
        ctx.label_if(overlap, "overlapping leaves");
        ctx.label_if(!oob.is_empty(), "out-of-bag rows");
        let mut values = vec![];
        for s in &sets {
            if s.is_empty() { continue; }
            if h.name == "hinge" && h.obj.predictions().iter().any(|p| p.abs() > 1e5) { break; }
            ctx.nontrivial |= uneven && s.iter().any(|&i| h.targets[i] - h.obj.predictions()[i] != h.targets[s[0]] - h.obj.predictions()[s[0]]);
            let p0 = h.obj.predictions()[s[0]];
            leaf(&mut h, s, limits).map_err(|e| format!("round {}: {}", round, e))?;
            values.push(h.obj.predictions()[s[0]] - p0);
            ctx.count("leaves checked", 1);
        }
        for &i in &oob {
            if values.is_empty() { break; }
            let v = values[r.below(values.len() as u64) as usize];
            let full = n < 64 || (n < 5000 && i % 16 == 0) || i % 4096 == 0;
            let old = h.obj.predictions()[i];
            let before = if full { h.obj.predictions().to_vec() } else { vec![] };
            h.obj.update_out_of_bag_prediction(i, v);
            let p = h.obj.predictions();
            let want = old + v;
            ensure!((p[i] - want).abs() <= 3e-7 * old.abs().max(v.abs()), "out-of-bag row {}: {} + {} became {}", i, old, v, p[i]);
            if full {
                ensure!((0..n).all(|j| j == i || p[j].to_bits() == before[j].to_bits()), "the out-of-bag update of row {} changed another row", i);
            }
        }
        let p = h.obj.predictions();
        uneven |= p.iter().any(|x| *x != p[0]);
    }
    Ok(())
}

// ---- C09 ---------------------------------------------------------------------------------------

fn check_start(h: &Hist) -> CaseResult {
    let n = h.targets.len() as f64;
    let t: Vec<f64> = h.targets.iter().map(|&x| x as f64).collect();
    let b = h.obj.bias() as f64;
    let (lo, hi) = min_max(&h.targets);
    let pos = t.iter().filter(|&&x| x > 0.5).count() as f64;
    let (want_lo, want_hi) = match h.name {
        "l2" => { let m = t.iter().sum::<f64>() / n; let tol = (n + 4.0) * EPS * t.iter().map(|x| x.abs()).sum::<f64>() / n; (m - tol, m + tol) }
        "l1" | "huber" => { let (a, c) = quantile_bracket(&t, 0.5); let w = resolution(lo, hi); (a - w, c + w) }
        "binary" => {
            if pos == 0.0 { (-1e3, -1.0) } else if pos == n { (1.0, 1e3) } else {
                let m = 0.5 * (pos / (n - pos)).ln();
                let avg = (2.0 * pos - n) / n;
                let tol = 4.0 * EPS * (1.0 / (1.0 - avg.abs()) + m.abs() + 1.0);
                (m - tol, m + tol)
            }
        }
        _ => { let m = (2.0 * pos - n) / n; (m - 4.0 * EPS, m + 4.0 * EPS) }
    };
    ensure!(b >= want_lo && b <= want_hi, "starting value of {} is {} but must be in [{}, {}]", h.name, b, want_lo, want_hi);
    let p = h.obj.predictions();
    ensure!(p.len() == h.targets.len(), "{} predictions for {} targets", p.len(), h.targets.len());
    ensure!(p.iter().all(|x| x.to_bits() == h.obj.bias().to_bits()), "predictions do not start at the starting value {}", b);
    Ok(())
}

fn check_update(h: &Hist) -> CaseResult {
    let p = h.obj.predictions();
    let g = h.obj.gradients();
    let (blo, bhi) = h.obj.bounds();
    ensure!(g.len() == h.targets.len(), "{} gradients for {} targets", g.len(), h.targets.len());
    ensure!(blo <= bhi, "{} bounds {:?}..{:?}", h.name, blo, bhi);
    let res = residuals(h);
    let (rlo, rhi) = min_max(&res);
    match h.name {
        "l2" => {
            let b = rlo.abs().min(rhi.abs());
            ensure!((bhi as f64 - b).abs() <= 2.0 * EPS * b && (blo as f64 + b).abs() <= 2.0 * EPS * b, "L2 bounds {:?}..{:?}, residuals {}..{}", blo, bhi, rlo, rhi);
        }
        "l1" => ensure!(blo == -1.0 && bhi == 1.0, "L1 bounds {:?}..{:?}", blo, bhi),
        "huber" => {
            let r: Vec<f64> = res.iter().map(|&x| x as f64).collect();
            let (a, c) = quantile_bracket(&r, h.alpha as f64);
            let w = resolution(rlo, rhi);
            let (a, c) = (a - w, c + w);
            let min = if a <= 0.0 && c >= 0.0 { 0.0 } else { a.abs().min(c.abs()) };
            let max = a.abs().max(c.abs());
            ensure!(blo == -bhi, "Huber bounds {:?}..{:?}", blo, bhi);
            ensure!(bhi as f64 >= min * (1.0 - EPS) && bhi as f64 <= max * (1.0 + EPS), "Huber bound {} but the {}-quantile of the residuals is in [{}, {}]", bhi, h.alpha, a, c);
        }
        "binary" => ensure!(blo == -h.bound && bhi == h.bound, "binary bounds {:?}..{:?}, setting {}", blo, bhi, h.bound),
        _ => ensure!(blo == -1.0 && bhi == 2.0, "hinge bounds {:?}..{:?}", blo, bhi),
    }
    for i in 0..g.len() {
        let (t, pi, gi) = (h.targets[i] as f64, p[i] as f64, g[i] as f64);
        let e = pi - t;
        let big = 2.0 * EPS * e.abs();
        let (lo, hi) = match h.name {
            "l2" => (e - big, e + big),
            "l1" => if e == 0.0 { (-1.0, 1.0) } else { (e.signum(), e.signum()) },
            "huber" => { let x = e.max(blo as f64).min(bhi as f64); (x - big, x + big) }
            "binary" => {
                let y = 2.0 * t - 1.0;
                let x = -2.0 * y / (1.0 + (2.0 * y * pi).exp());
                let tol = x.abs() * 3e-5 + 1e-36;
                (x - tol, x + tol)
            }
            _ => if t < 0.5 {
                if pi > -1.0 { (1.0, 1.0) } else { (0.0, 0.0) }
            } else {
                if pi < 1.0 { (-1.0, -1.0) } else { (0.0, 0.0) }
            },
        };
        ensure!(gi >= lo && gi <= hi, "{} gradient of row {} (target {}, prediction {}) is {} but must be in [{}, {}]; bounds {:?}..{:?}",
                h.name, i, t, pi, gi, lo, hi, blo, bhi);
    }
    Ok(())
}

fn c09(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let mut h = start(src, ctx);
    check_start(&h)?;
    let n = h.targets.len();
    let two = h.targets.iter().any(|x| *x != h.targets[0]);
    let rounds = src.range(1, 6);
    for round in 0..rounds {
        if h.name == "hinge" && h.obj.predictions().iter().any(|p| p.abs() > 1e5) { break; }
        let p = h.obj.predictions();
        ctx.nontrivial |= two && p.iter().any(|x| *x != p[0]);
        let bias = h.obj.bias();
        h.obj.update(&h.targets);
        check_update(&h).map_err(|e| format!("update {}: {}", round, e))?;
        ensure!(h.obj.bias().to_bits() == bias.to_bits(), "the starting value changed from {} to {}", bias, h.obj.bias());
        ctx.count("updates checked", 1);
        // move the predictions: leaves of the objective or arbitrary steps per row
        let how = src.draw(3);
        let mut r = src.sub();
        if how == 0 {
            let scale = [1.0, 0.1, 10.0][r.below(3) as usize];
            for i in 0..n { if r.chance(0.7) { let v = (r.normal() * scale) as f32; h.obj.update_out_of_bag_prediction(i, v); } }
        } else if how == 1 && (h.name == "hinge" || h.name == "binary") {
            // onto the kinks of the hinge loss and far out
            for i in 0..n {
                let x = [1.0f32, -1.0, 0.0, 30.0, -30.0, 200.0, -200.0][r.below(7) as usize];
                let v = x - h.obj.predictions()[i];
                h.obj.update_out_of_bag_prediction(i, v);
            }
        } else {
            let k = 1 + r.below(4) as usize;
            let mut sets: Vec<Vec<usize>> = vec![vec![]; k];
            for i in 0..n { sets[r.below(k as u64) as usize].push(i); }
            for s in &sets { if !s.is_empty() { h.obj.predict_leaf_value(&h.targets, s); } }
        }
    }
    Ok(())
}
