//! C16, C20, C21: binned ranks, metrics, configuration lines.
use bitboost::binner::Binner;
use bitboost::config::Config;
use bitboost::metric::{metric_for_objective, metric_from_name, metrics_from_names};
use bitboost::objective::objective_from_name;

use crate::gen::preview;
use vengine::*;

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C16", run: c16, quick: 1000000, thorough: 8000000,
            rule: "at least two different bins are hit by ranks",
            assumptions: &["limits and values within +-1e38; a value closer to a bin edge than f32 rounding may be in either bin (none such on the exact grids)"] },
        Prop { id: "C20", run: c20, quick: 1800000, thorough: 8000000,
            rule: "at least two rows, targets of two values, at least one non-zero loss; or a name lookup that had to be resolved",
            assumptions: &["values within +-1e12 so that squares stay representable; binary metrics on targets 0 and 1",
                "the log loss of the boosting literature, ln(1 + exp(-2 y p)), as documented by the objective"] },
        Prop { id: "C21", run: c21, quick: 1600000, thorough: 8000000,
            rule: "at least two records, one of them a valid non-default assignment",
            assumptions: &["what a number is, is decided by the standard library's FromStr of the documented field type"] },
    ]
}

// ---- C16 ---------------------------------------------------------------------------------------

fn c16(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let nb = match src.weighted(&[20, 40, 20, 20]) { 0 => src.range(1, 4), 1 => src.range(2, 40), 2 => *src.pick(&[512usize, 1024, 256, 64]), _ => src.range(30, 600) };
    let exact = src.chance(1, 3);
    let (lo, hi, step): (f32, f32, f32) = if exact {
        let d = *src.pick(&[1.0f32, 0.25, 2.0, 0.0625]);
        let lo = d * (src.range(0, 200) as f32 - 100.0);
        (lo, lo + d * nb as f32, d)
    } else {
        let scale = *src.pick(&[1.0f32, 1e-3, 1e5, 1e-20, 1e20, 7.3, 1e-35, 1e-37, 1e37]);
        let a = (src.unit() as f32 - 0.5) * scale;
        let w = (src.unit() as f32 + 1e-3) * scale * *src.pick(&[1.0f32, 0.01, 3.0]);
        let hi = a + w;
        if !(a < hi) { return Ok(()); }
        (a, hi, 0.0)
    };
    let n = if src.chance(1, 5000) { src.range(65000, 140000) } else { match src.weighted(&[30, 50, 20]) { 0 => src.range(1, 8), 1 => src.range(5, 80), _ => src.range(80, 1500) } };
    ctx.label_if(n > 60000, "more than 65000 values");
    let vstyle = src.draw(5);
    let outside = src.chance(1, 4);
    let wstyle = src.draw(2);
    let mut r = src.sub();
    let span = hi as f64 - lo as f64;
    let (focus, narrow) = (r.unit(), [0.02, 0.2][r.below(2) as usize]);
    let values: Vec<f32> = (0..n).map(|_| {
        let u = match vstyle {
            0 => r.unit(),
            1 => r.unit().powi(4),
            2 => { let k = r.below(4) as f64; k / 4.0 + 0.01 }
            3 => r.below(nb as u64 + 1) as f64 / nb as f64, // on the edges
            4 => (focus + narrow * (r.unit() - 0.5)).max(0.0).min(1.0),
            _ => if r.chance(0.9) { focus } else { r.unit() },
        };
        let u = if outside && r.chance(0.2) { u * 3.0 - 1.0 } else { u };
        if outside && r.chance(0.1) { // far outside: up to the end of the float range
            let away = span * 10f64.powf(r.unit() * if r.chance(0.5) { 6.0 } else { 40.0 }) * if r.chance(0.5) { 1.0 } else { -1.0 };
            return ((lo as f64 + away) as f32).max(f32::MIN).min(f32::MAX);
        }
        if exact { let x = (u * nb as f64 * 8.0).floor() as f32 / 8.0; lo + x * step }
        else { let x = (lo as f64 + u * span) as f32; if outside { x } else { x.max(lo).min(hi) } }
    }).collect();
    let weights: Vec<u32> = (0..n).map(|_| match wstyle { 0 => 1, 1 => r.below(5) as u32, _ => 1 + r.below(if n > 2000 { 100 } else { 1000 }) as u32 }).collect();
    ctx.label_if(exact, "exact grid");
    ctx.label_if(outside, "values outside the limits");
    ctx.label_if(wstyle > 0, "weighted");
    ctx.note(|| format!("bins={} limits=({:?},{:?}) n={} values[{}] weights{:?}..", nb, lo, hi, n, preview(&values, 20), &weights[..n.min(20)]));

    // counters of two kinds: (integer weight, float weight)
    let mut bins = vec![(0u32, 0f32); nb];
    let mut binner = Binner::new(&mut bins, (lo, hi));
    for i in 0..n {
        binner.insert(values[i], (weights[i], weights[i] as f32), |b, d: (u32, f32)| { b.0 += d.0; b.1 += d.1; });
    }
    // where a value belongs
    let delta = span / nb as f64;
    let tol = if exact { 0.0 } else { span * 6e-7 + 2.5e-7 * (lo.abs().max(hi.abs()) as f64) + nb as f64 * 1.5e-45 };
    let mut of: Vec<usize> = vec![0; n];
    for i in 0..n {
        let v = values[i] as f64;
        let b = binner.get_bin(values[i]);
        of[i] = b;
        ensure!(b < nb, "value {:?} is in bin {} of {}", values[i], b, nb);
        let (a, z) = (lo as f64 + b as f64 * delta, lo as f64 + (b + 1) as f64 * delta);
        let inside = (v >= a - tol || b == 0) && (if tol > 0.0 { v <= z + tol } else { v < z } || b == nb - 1);
        ensure!(inside, "value {:?} was put in bin {} which covers [{}, {})", values[i], b, a, z);
    }
    let mut order: Vec<usize> = (0..n).collect();
    order.sort_by(|&a, &b| values[a].partial_cmp(&values[b]).unwrap());
    for w in order.windows(2) { ensure!(of[w[0]] <= of[w[1]], "values {:?} and {:?} are in bins {} and {}", values[w[0]], values[w[1]], of[w[0]], of[w[1]]); }
    for b in 0..nb {
        let want: u32 = (0..n).filter(|&i| of[i] == b).map(|i| weights[i]).sum();
        let got = binner.bin_value(b);
        ensure!(got.0 == want && got.1 == want as f32, "bin {} holds weight {:?}, the values in its range weigh {}", b, got, want);
        let rep = binner.bin_representative(b) as f64;
        ensure!((rep - (lo as f64 + b as f64 * delta)).abs() <= tol, "representative of bin {} is {}, its edge {}", b, rep, lo as f64 + b as f64 * delta);
    }
    // ranks
    let total: u64 = weights.iter().map(|&w| w as u64).sum();
    if total == 0 { return Ok(()); }
    let k = src.range(1, 12);
    let mut r = src.sub();
    let mut ranks: Vec<u32> = (0..k).map(|_| match r.below(6) { 0 => 0, 1 => total as u32 - 1, _ => r.below(total) as u32 }).collect();
    ranks.sort();
    // the value of each rank in sorted order
    let bin_of_rank = |rank: u32| -> (usize, usize) {
        let mut c = 0u64;
        for &i in &order { c += weights[i] as u64; if c > rank as u64 { return (i, of[i]); } }
        unreachable!()
    };
    let got: Vec<usize> = binner.rank_iter(ranks.iter().cloned(), |b| b.0).collect();
    let gotf: Vec<usize> = binner.rank_iter(ranks.iter().map(|&x| x as f32), |b| b.1).collect();
    ensure!(got.len() == ranks.len() && gotf.len() == ranks.len(), "{} ranks gave {} and {} bins", ranks.len(), got.len(), gotf.len());
    for (q, &rank) in ranks.iter().enumerate() {
        let (i, want) = bin_of_rank(rank);
        ensure!(got[q] == want, "rank {} (value {:?}) is reported in bin {} instead of {}; ranks {:?}", rank, values[i], got[q], want, ranks);
        ensure!(gotf[q] == want, "float rank {} (value {:?}) is reported in bin {} instead of {}; ranks {:?}", rank, values[i], gotf[q], want, ranks);
        let one = binner.bin_with_rank(rank, |b| b.0);
        ensure!(one == want, "bin_with_rank({}) = {} instead of {}", rank, one, want);
        let v = values[i] as f64;
        if v >= lo as f64 && v <= hi as f64 {
            let rep = binner.bin_representative(want) as f64;
            ensure!(v >= rep - tol && v <= rep + delta + tol, "rank {}: value {} is not within one bin width {} above {}", rank, v, delta, rep);
        }
    }
    // the running sums around each reported bin
    let mut it = binner.rank_iter(ranks.iter().cloned(), |b| b.0);
    for &rank in &ranks {
        let b = it.next().unwrap();
        let below: u64 = (0..n).filter(|&i| of[i] < b).map(|i| weights[i] as u64).sum();
        let upto: u64 = (0..n).filter(|&i| of[i] <= b).map(|i| weights[i] as u64).sum();
        let (p, a) = it.accum();
        ensure!(p as u64 == below && a as u64 == upto, "rank {} in bin {}: running sums {:?}, exact ({}, {})", rank, b, (p, a), below, upto);
    }
    let mut d = got.clone();
    d.dedup();
    ctx.nontrivial = d.len() >= 2;
    ctx.count("ranks checked", k as u64);
    Ok(())
}

// ---- C20 ---------------------------------------------------------------------------------------

const METRICS: &[(&str, &str)] = &[("l2", "L2"), ("rmse", "Rmse"), ("binaryloss", "BinaryLoss"), ("binary_loss", "BinaryLoss"),
    ("binaryerror", "BinaryError"), ("binary_error", "BinaryError"), ("binaryerror01", "BinaryError01"), ("binary_error01", "BinaryError01")];
const OBJECTIVES: &[(&str, &str)] = &[("l2", "L2"), ("l1", "L1"), ("huber", "Huber"), ("binary", "Binary"), ("hinge", "Hinge")];

fn gen_name(src: &mut Src) -> String {
    let known: Vec<&str> = METRICS.iter().chain(OBJECTIVES).map(|x| x.0).collect();
    let base = src.pick(&known).to_string();
    let how = src.weighted(&[40, 20, 10, 10, 10, 10]);
    let mut r = src.sub();
    let mut cs: Vec<char> = base.chars().collect();
    match how {
        0 => return cs.iter().map(|c| if r.chance(0.5) { c.to_ascii_uppercase() } else { *c }).collect(),
        1 => return base,
        2 => { let k = r.below(cs.len() as u64) as usize; cs.remove(k); }
        3 => { let k = r.below(cs.len() as u64 + 1) as usize; cs.insert(k, ['x', ' ', '_', '1', '2', '\u{212A}', '\0'][r.below(7) as usize]); }
        4 => { let k = r.below(cs.len() as u64) as usize; cs[k] = ['l', '1', '2', '_', 'e', 'R'][r.below(6) as usize]; }
        _ => { let m = r.below(6); cs = (0..m).map(|_| std::char::from_u32(r.below(0x250) as u32).unwrap_or('?')).collect(); }
    }
    cs.into_iter().collect()
}

fn c20(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    if src.chance(1, 4) {
        ctx.label("names");
        let k = src.range(1, 4);
        let names: Vec<String> = (0..k).map(|_| gen_name(src)).collect();
        ctx.note(|| format!("names {:?}", names));
        let want = |tab: &[(&'static str, &'static str)], n: &str| -> Option<&'static str> { let l = n.to_lowercase(); tab.iter().find(|x| x.0 == l).map(|x| x.1) };
        for n in &names {
            let m = metric_from_name(n).map(|m| m.name());
            ensure!(m == want(METRICS, n), "metric {:?} resolves to {:?} instead of {:?}", n, m, want(METRICS, n));
            let o = objective_from_name(n).map(|o| o.name());
            ensure!(o == want(OBJECTIVES, n), "objective {:?} resolves to {:?} instead of {:?}", n, o, want(OBJECTIVES, n));
            ctx.nontrivial |= m.is_some() || o.is_some();
            let f = metric_for_objective(n).map(|m| m.name());
            match want(OBJECTIVES, n) {
                None => ensure!(f.is_none(), "metric {:?} for the unknown objective {:?}", f, n),
                Some("Binary") => ensure!(f == Some("BinaryLoss"), "metric {:?} for {:?}", f, n),
                Some("Hinge") => {}
                _ => ensure!(f == Some("Rmse"), "metric {:?} for {:?}", f, n),
            }
        }
        let all: Option<Vec<&str>> = names.iter().map(|n| want(METRICS, n)).collect();
        let got = metrics_from_names(&names).map(|v| v.iter().map(|m| m.name()).collect::<Vec<_>>());
        ensure!(got == all, "metrics {:?} resolve to {:?} instead of {:?}", names, got, all);
        return Ok(());
    }
    let n = if src.chance(1, 5000) { src.range(65000, 200000) } else { match src.weighted(&[30, 50, 20]) { 0 => src.range(1, 6), 1 => src.range(2, 80), _ => src.range(80, 3000) } };
    let n = if src.chance(1, 300) { (src.range(1, 4) << src.range(8, 12)) + src.range(0, 2) - 1 } else { n };
    ctx.label_if(n > 60000, "more than 65000 rows");
    let binary = src.chance(3, 5);
    let style = src.draw(7);
    let mut r = src.sub();
    let wide = [300.0, 300.0, 3e4, 1e6, 1e9][r.below(5) as usize];
    let t: Vec<f32> = (0..n).map(|_| if binary { r.below(2) as f32 } else {
        match style { 0 => r.normal() as f32, 1 => (r.normal() * 1e12) as f32, 2 => (r.normal() * 1e-15) as f32, 3 => 1e6 + r.unit() as f32, _ => r.below(5) as f32 }
    }).collect();
    let p: Vec<f32> = (0..n).map(|i| {
        match style {
            0 => r.normal() as f32,
            1 => if binary { (r.normal() * wide) as f32 } else { t[i] + (r.normal() * 1e11) as f32 },
            2 => (r.normal() * 1e-15) as f32,
            3 => t[i] + 0.01 * r.normal() as f32,
            4 => [0.0f32, -0.0, 0.5, 0.49999997, 0.50000006, 1e-30, -1e-30, 1.0, -1.0, 0.25][r.below(10) as usize],
            5 => t[i],
            6 => (r.normal() * 20.0) as f32,
            _ => (r.normal() * 2.0) as f32 + t[i],
        }
    }).collect();
    ctx.note(|| format!("n={} targets[{}] predictions[{}]", n, preview(&t, 16), preview(&p, 16)));
    ctx.label(if binary { "binary targets" } else { "real targets" });
    let nf = n as f64;
    let eval = |name: &str| metric_from_name(name).unwrap().eval(&t, &p) as f64;
    let mse: f64 = t.iter().zip(&p).map(|(&a, &b)| (a as f64 - b as f64).powi(2)).sum::<f64>() / nf;
    let rel = (nf + 8.0) * 1.2e-7;
    let close = |name: &str, got: f64, want: f64, abs: f64| -> CaseResult {
        ensure!((got - want).abs() <= rel * want.abs() + abs, "{} is {} but must be {}", name, got, want);
        Ok(())
    };
    close("l2", eval("l2"), mse, 1e-36)?;
    close("rmse", eval("rmse"), mse.sqrt(), 1e-18)?;
    if binary {
        let loss: f64 = t.iter().zip(&p).map(|(&t, &p)| { let x = -2.0 * (2.0 * t as f64 - 1.0) * p as f64; x.max(0.0) + (-x.abs()).exp().ln_1p() }).sum::<f64>() / nf;
        close("binary_loss", eval("binary_loss"), loss, 2.5e-7)?;
        let rate = |th: f32| t.iter().zip(&p).filter(|(&t, &p)| (t > 0.5) != (p >= th)).count() as f64 / nf;
        close("binary_error", eval("binary_error"), rate(0.0), 0.0)?;
        close("binary_error01", eval("binary_error01"), rate(0.5), 0.0)?;
        ctx.label_if(rate(0.0) != rate(0.5), "thresholds differ");
    }
    ctx.nontrivial = n >= 2 && mse > 0.0 && t.iter().any(|x| *x != t[0]);
    Ok(())
}

// ---- C21 ---------------------------------------------------------------------------------------

#[derive(Clone, Copy, PartialEq)]
enum Ty { Str, VecStr, VecUsize, Usize, U64, U32, U8, Bool, F32 }

const FIELDS: &[(&str, Ty)] = &[("train", Ty::Str), ("test", Ty::Str), ("objective", Ty::Str), ("metrics", Ty::VecStr), ("metric_frequency", Ty::Usize),
    ("csv_has_header", Ty::Bool), ("csv_delimiter", Ty::U8), ("categorical_features", Ty::VecUsize), ("niterations", Ty::Usize), ("learning_rate", Ty::F32),
    ("reg_lambda", Ty::F32), ("min_examples_leaf", Ty::U32), ("min_gain", Ty::F32), ("huber_alpha", Ty::F32), ("max_nbins", Ty::Usize), ("discr_nbits", Ty::Usize),
    ("max_tree_depth", Ty::Usize), ("compression_threshold", Ty::F32), ("binary_gradient_bound", Ty::F32), ("random_seed", Ty::U64),
    ("feature_fraction", Ty::F32), ("example_fraction", Ty::F32), ("sample_freq", Ty::Usize)];

fn fields(c: &Config) -> Vec<String> {
    macro_rules! f { ($($x:ident),*) => { vec![$(format!("{:?}", c.$x)),*] } }
    f!(train, test, objective, metrics, metric_frequency, csv_has_header, csv_delimiter, categorical_features, niterations, learning_rate, reg_lambda,
       min_examples_leaf, min_gain, huber_alpha, max_nbins, discr_nbits, max_tree_depth, compression_threshold, binary_gradient_bound, random_seed,
       feature_fraction, example_fraction, sample_freq)
}

const DEFAULTS: &[&str] = &["\"\"", "\"\"", "\"L2\"", "[]", "1", "true", "44", "[]", "100", "1.0", "0.0", "1", "1e-6", "0.95", "16", "4", "6", "0.5", "1.25", "1", "1.0", "1.0", "1"];

/// The value a field gets from a text, as its debug representation.
fn value_of(ty: Ty, v: &str) -> Option<String> {
    fn num<T: std::str::FromStr + std::fmt::Debug>(v: &str) -> Option<String> { v.parse::<T>().ok().map(|x| format!("{:?}", x)) }
    match ty {
        Ty::Str => Some(format!("{:?}", v)),
        Ty::Usize => num::<usize>(v), Ty::U64 => num::<u64>(v), Ty::U32 => num::<u32>(v), Ty::U8 => num::<u8>(v), Ty::Bool => num::<bool>(v), Ty::F32 => num::<f32>(v),
        Ty::VecStr => if v.is_empty() { Some("[]".into()) } else { Some(format!("{:?}", v.split(',').map(|x| x.trim()).collect::<Vec<_>>())) },
        Ty::VecUsize => if v.is_empty() { Some("[]".into()) } else {
            let mut o = vec![];
            for x in v.split(',') { o.push(x.trim().parse::<usize>().ok()?); }
            Some(format!("{:?}", o))
        },
    }
}

fn text(r: &mut Rng, max: u64) -> String {
    let n = r.below(max);
    (0..n).map(|_| match r.below(12) { 0 => '=', 1 => ' ', 2 => ',', 3 => '\u{e9}', 4 => '\t', 5 => '#', 6 => '"', 7 => '\u{2003}', _ => (b'a' + r.below(26) as u8) as char }).collect()
}

fn gen_value(r: &mut Rng, ty: Ty) -> String {
    match ty {
        Ty::Str => text(r, 20),
        Ty::VecStr => { let k = if r.chance(0.0005) { r.below(3000) } else { r.below(4) }; (0..k).map(|_| ["l2", "rmse", " binary_loss", "binary_error ", "", "x y"][r.below(6) as usize].to_string()).collect::<Vec<_>>().join(",") }
        Ty::VecUsize => { let k = if r.chance(0.001) { r.below(3000) } else { r.below(5) }; (0..k).map(|_| format!("{}{}{}", ["", " ", "  "][r.below(3) as usize], [0, 1, r.below(40), u64::MAX][r.below(4) as usize], ["", " "][r.below(2) as usize])).collect::<Vec<_>>().join(",") }
        Ty::Bool => ["true", "false", "True", "1", "yes", "FALSE", ""][if r.chance(0.7) { r.below(2) } else { r.below(7) } as usize].to_string(),
        Ty::U8 => format!("{}", r.below(300)),
        Ty::U32 => format!("{}", [r.below(100), u32::MAX as u64, u32::MAX as u64 + 1, 0, 007][r.below(5) as usize]),
        Ty::Usize | Ty::U64 => format!("{}", [r.below(1000), u64::MAX, 0, r.next()][r.below(4) as usize]),
        Ty::F32 => match r.below(8) {
            0 => format!("{}", r.unit() as f32), 1 => format!("{:e}", r.normal()), 2 => format!("{}", r.below(100)), 3 => ["inf", "-inf", "1e60", ".5", "5.", "+1", "-0"][r.below(7) as usize].to_string(),
            _ => format!("{}", f32::from_bits(r.next() as u32 & 0x7f7f_ffff)),
        },
    }
}

fn spoil(r: &mut Rng, v: &str) -> String {
    let mut cs: Vec<char> = v.chars().collect();
    match r.below(6) {
        0 => cs.clear(),
        1 => { let k = r.below(cs.len() as u64 + 1) as usize; cs.insert(k, ['-', '+', '.', 'x', ' ', ',', '\u{a0}', 'e', '_', ';', '"', '\''][r.below(12) as usize]); }
        2 => { if !cs.is_empty() { let k = r.below(cs.len() as u64) as usize; cs.remove(k); } }
        3 => cs.insert(0, '-'),
        4 => cs.push(['5', ';', '_', 'f', 'u', '%', '"', '.', '\\', '0'][r.below(10) as usize]),
        _ => cs = text(r, 8).chars().collect(),
    }
    cs.into_iter().collect()
}

fn c21(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let k = match src.weighted(&[5, 60, 35]) { 0 => 0, 1 => src.range(1, 4), _ => src.range(2, 25) };
    let spoiled = src.chance(1, 3);
    let mut want: Vec<String> = DEFAULTS.iter().map(|x| x.to_string()).collect();
    let mut valid = true;
    let mut lines: Vec<String> = vec![];
    let mut assigned = false;
    let ws = |r: &mut Rng| ["", "", " ", "\t", "  ", "\u{2003}"][r.below(6) as usize];
    for _ in 0..k {
        let f = src.draw(FIELDS.len() as u64 - 1) as usize;
        let bad = spoiled && src.chance(1, 3);
        let what = src.draw(5);
        let mut r = src.sub();
        let (name, ty) = FIELDS[f];
        let mut v = gen_value(&mut r, ty);
        let mut n = name.to_string();
        let mut eq = "=";
        if bad {
            match what {
                0 => n = spoil(&mut r, name),
                1 => eq = ["", " ", ":", "\u{ff1d}"][r.below(4) as usize],
                2 => n = match r.below(7) {
                    0 => name.to_uppercase(), 1 => name.replace('_', "-"), 2 => name.replace('_', ""), 3 => format!("{}s", name), 4 => name[..name.len() - 1].to_string(),
                    5 => name.split('_').map(|w| w[..1].to_uppercase() + &w[1..]).collect::<Vec<_>>().join(""), _ => name.replace('_', " "),
                },
                _ => v = spoil(&mut r, &v),
            }
        }
        let mut line = format!("{}{}{}{}{}{}{}", ws(&mut r), n, ws(&mut r), eq, ws(&mut r), v, ws(&mut r));
        if bad && what == 5 { // no record at all
            line = match r.below(8) { 0 | 1 => String::new(), 2 => ws(&mut r).to_string(), 3 => format!("# {}", name), 4 => format!("#{}", line), 5 => "--".to_string(), 6 => format!("--{}", line), _ => "=".to_string() };
        }
        // the reference reading of the line
        match line.find('=') {
            None => valid = false,
            Some(i) => {
                let (ln, lv) = (line[..i].trim(), line[i + 1..].trim());
                match FIELDS.iter().position(|x| x.0 == ln) {
                    None => valid = false,
                    Some(j) => match value_of(FIELDS[j].1, lv) {
                        None => valid = false,
                        Some(x) => { if valid { assigned |= x != DEFAULTS[j]; want[j] = x; } }
                    },
                }
            }
        }
        lines.push(line);
    }
    ctx.note(|| format!("lines {:?}", lines));
    ctx.label(if valid { "valid" } else { "invalid" });
    ctx.nontrivial = k >= 2 && assigned;
    match Config::parse(lines.iter().map(|s| s.as_str())) {
        Ok(c) => {
            ensure!(valid, "{:?} was accepted", lines);
            let got = fields(&c);
            for j in 0..got.len() { ensure!(got[j] == want[j], "{:?}: field {} is {} but must be {}", lines, FIELDS[j].0, got[j], want[j]); }
        }
        Err(e) => ensure!(!valid, "{:?} was rejected: {}", lines, e),
    }
    // single records, on a configuration that keeps its other fields
    let mut c = Config::new();
    let mut now: Vec<String> = DEFAULTS.iter().map(|x| x.to_string()).collect();
    let m = src.range(0, 3);
    for _ in 0..m {
        let f = src.draw(FIELDS.len() as u64 - 1) as usize;
        let bad = src.chance(1, 3);
        let mut r = src.sub();
        let (name, ty) = FIELDS[f];
        let mut v = gen_value(&mut r, ty);
        let mut n = name.to_string();
        if bad { if r.chance(0.3) { n = spoil(&mut r, name); } else { v = spoil(&mut r, &v); } }
        ctx.note(|| format!("record {:?} {:?}", n, v));
        let j = FIELDS.iter().position(|x| x.0 == n);
        let x = j.and_then(|j| value_of(FIELDS[j].1, &v));
        match c.parse_record(&n, &v) {
            Ok(()) => { ensure!(x.is_some(), "record {:?}={:?} was accepted", n, v); now[j.unwrap()] = x.unwrap(); }
            Err(e) => ensure!(x.is_none(), "record {:?}={:?} was rejected: {}", n, v, e),
        }
        let got = fields(&c);
        for j in 0..got.len() { ensure!(got[j] == now[j], "after record {:?}={:?}: field {} is {} but must be {}", n, v, FIELDS[j].0, got[j], now[j]); }
    }
    if src.chance(1, 50) { ctx.label("documentation"); doc()?; }
    Ok(())
}

/// The generated documentation: one row per field with name and default.
fn doc() -> CaseResult {
    let mut out = vec![];
    Config::write_doc_csv(&mut out).map_err(|e| e.to_string())?;
    let text = String::from_utf8(out).map_err(|e| e.to_string())?;
    let mut rd = csv_rows(&text);
    ensure!(!rd.is_empty(), "the documentation is empty");
    let header = rd.remove(0);
    ensure!(header.len() == 4 && header[0] == "name" && header[1] == "default", "documentation header {:?}", header);
    // fields of the configuration, from its debug representation
    let dbg = format!("{:?}", Config::new());
    let nfields = dbg.matches(": ").count();
    ensure!(rd.len() == nfields, "{} documented fields of {}", rd.len(), nfields);
    for (j, &(name, ty)) in FIELDS.iter().enumerate() {
        let rows: Vec<&Vec<String>> = rd.iter().filter(|r| r[0] == name).collect();
        ensure!(rows.len() == 1, "field {} is documented {} times", name, rows.len());
        let d = &rows[0][1];
        let v = match ty {
            Ty::Bool => value_of(ty, &d.to_lowercase()),
            Ty::VecStr | Ty::VecUsize => value_of(ty, d.trim_start_matches('[').trim_end_matches(']')),
            _ => value_of(ty, d),
        };
        ensure!(v.as_ref().map(|s| s.as_str()) == Some(DEFAULTS[j]), "field {} is documented with default {:?}, it is {}", name, d, DEFAULTS[j]);
        ensure!(rows[0].len() == 4 && !rows[0][3].is_empty(), "field {} has no description: {:?}", name, rows[0]);
    }
    Ok(())
}

/// Rows of quoted CSV.
pub fn csv_rows(text: &str) -> Vec<Vec<String>> {
    let (mut rows, mut row, mut cell, mut quoted) = (vec![], vec![], String::new(), false);
    let cs: Vec<char> = text.chars().collect();
    let mut i = 0;
    while i < cs.len() {
        let c = cs[i];
        if quoted {
            if c == '"' { if cs.get(i + 1) == Some(&'"') { cell.push('"'); i += 1; } else { quoted = false; } } else { cell.push(c); }
        } else {
            match c {
                '"' => quoted = true,
                ',' => row.push(std::mem::take(&mut cell)),
                '\n' => { row.push(std::mem::take(&mut cell)); rows.push(std::mem::take(&mut row)); }
                c => cell.push(c),
            }
        }
        i += 1;
    }
    if !row.is_empty() || !cell.is_empty() { row.push(cell); rows.push(row); }
    rows
}
