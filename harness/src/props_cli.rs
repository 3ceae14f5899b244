//! C26: runs of the command line program on generated files, against the library.
use std::path::Path;
use std::process::{Command, Output};

use bitboost::config::Config;
use bitboost::data::Data;
use bitboost::metric::{metrics_from_names, Metric};
use bitboost::objective::objective_from_name;

use crate::gen::*;
use crate::train::*;
use vengine::*;

pub fn props() -> Vec<Prop> {
    vec![Prop { id: "C26", run: c26, quick: 20000, thorough: 200000,
        rule: "a run whose model gives at least two different training predictions, or an invalid invocation that is refused",
        assumptions: &["the library is the reference for loading, training, prediction and metrics (their own properties are C01..C25)",
            "printed metric values are compared to 1e-4 relative, predictions exactly"] }]
}

fn program() -> String {
    std::env::var("VERIF_CLI").unwrap_or_else(|_| format!("{}/target/repo/release/run_bitboost", std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())))
}

fn run(args: &[String], threads: usize, dir: &Path) -> Output {
    Command::new(program()).args(args).current_dir(dir).env("RAYON_NUM_THREADS", threads.to_string()).env("RUST_BACKTRACE", "0")
        .output().expect("cannot start the program")
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Bad { No, NoCommand, Command, Field, NoEquals, Value, Objective, Metric, TrainMissing, TestMissing, TrainSpoiled, TestSpoiled }

/// Spoil a CSV text in one place so that the library rejects it.
fn spoil(src: &mut Src, text: &str, delim: char, header: bool) -> String {
    let lines: Vec<&str> = text.lines().collect();
    let first = header as usize;
    let i = src.range(first, lines.len() - 1);
    let mut out: Vec<String> = lines.iter().map(|l| l.to_string()).collect();
    match src.weighted(&[40, 20, 20, 20]) {
        0 => { // not a number
            let mut f: Vec<String> = lines[i].split(delim).map(|s| s.to_string()).collect();
            let k = src.range(0, f.len() - 1);
            f[k] = src.pick(&["abc", "", "1.2.3", "--1", "0x10"]).to_string();
            out[i] = f.join(&delim.to_string());
        }
        1 if lines.len() - first >= 2 => out[i] = format!("{}{}1", lines[i], delim),
        2 if lines.len() - first >= 2 => { let k = lines[i].rfind(delim).unwrap(); out[i].truncate(k); }
        _ => return String::new(),
    }
    out.join("\n") + "\n"
}

fn preds_line(p: &[f32]) -> String { p.iter().map(|x| format!("{}", x)).collect::<Vec<_>>().join(",") }

fn near(printed: &str, want: f32) -> bool {
    match printed.trim_end_matches(',').parse::<f64>() {
        Ok(x) => {
            let w = want as f64;
            x == w || (x.is_nan() && w.is_nan()) || (x - w).abs() <= 1e-4 * w.abs()
        }
        Err(_) => false,
    }
}

fn c26(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let o = Opts { max_n: if src.chance(1, 20) { 3000 } else { 500 }, max_iter: 5, extremes: 60, degenerate: src.chance(1, 6), ..Opts::default() };
    let (cfg, mut t) = gen_case(src, &o);
    // a training table of more rows than 16 bits count, the last ones with other targets
    if src.chance(1, 400) && t.cols.len() <= 3 && t.n <= 500 && cfg.niterations <= 5 && cfg.max_tree_depth <= 8 {
        let n = src.range(66000, 140000);
        let top = t.target.iter().cloned().fold(f32::NEG_INFINITY, f32::max);
        t = t.rows(&(0..n).map(|i| i % t.n).collect::<Vec<_>>());
        for i in 65000..n { t.target[i] = top; }
        ctx.label("more than 65536 training rows");
    }
    let many = src.chance(1, 30);
    let lots = many && t.cols.len() <= 3 && src.chance(1, 25);
    let mut test = gen_other_rows(src, &t, if lots { 150000 } else if many { 4000 } else { 60 });
    ctx.label_if(test.n > 65536, "more than 65536 test rows");
    { let mut r = src.sub(); test.target = (0..test.n).map(|_| t.target[r.below(t.n as u64) as usize]).collect(); }
    let (header, delim) = (src.chance(1, 2), *src.pick(&[',', ';', '\t', '|']));
    let cats: Vec<usize> = t.cols.iter().enumerate().filter(|(_, c)| c.cat).map(|(j, _)| j).collect();
    let with_test = src.chance(2, 3);
    let nm = match src.weighted(&[20, 50, 30, 8]) { 3 => src.range(3, 12), k => k };
    let names = ["l2", "rmse", "binary_loss", "binary_error", "binary_error01", "binaryloss", "binaryerror"];
    let metrics: Vec<&str> = (0..nm).map(|_| *src.pick(&names)).collect();
    let freq = match src.weighted(&[10, 50, 20, 10, 10, 5]) { 5 => src.range(5, 400), k => k };
    let command = *src.pick(&["boost_and_predict_raw", "boost", "tree"]);
    let threads = if src.chance(1, 10) { 3 } else { 1 };
    let bad = if src.chance(3, 4) { Bad::No } else {
        *src.pick(&[Bad::NoCommand, Bad::Command, Bad::Field, Bad::NoEquals, Bad::Value, Bad::Objective, Bad::Metric, Bad::TrainMissing, Bad::TestMissing, Bad::TrainSpoiled, Bad::TestSpoiled])
    };

    let mut train_text = csv_text(&t, delim, header);
    let mut test_text = csv_text(&test, delim, header);
    if bad == Bad::TrainSpoiled { train_text = spoil(src, &train_text, delim, header); }
    if bad == Bad::TestSpoiled { test_text = spoil(src, &test_text, delim, header); }
    let with_test = with_test || bad == Bad::TestMissing || bad == Bad::TestSpoiled;

    let mut lines: Vec<(String, String)> = cfg.lines().into_iter().map(|(k, v)| (k.to_string(), v)).collect();
    let mut add = |k: &str, v: String| lines.push((k.to_string(), v));
    add("train", "train.csv".into());
    if with_test { add("test", "test.csv".into()); }
    add("csv_has_header", header.to_string());
    if delim != ',' || src.chance(1, 2) { add("csv_delimiter", (delim as u32).to_string()); }
    if !cats.is_empty() || src.chance(1, 2) { add("categorical_features", cats.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(",")); }
    if nm > 0 || src.chance(1, 2) { add("metrics", metrics.join(",")); }
    if freq != 1 || src.chance(1, 2) { add("metric_frequency", freq.to_string()); }
    { let mut r = src.sub(); for i in (1..lines.len()).rev() { let j = r.below(i as u64 + 1) as usize; lines.swap(i, j); } }
    let mut args: Vec<String> = lines.iter().map(|(k, v)| format!("{}={}", k, v)).collect();
    if src.chance(1, 8) { // settings given before, to be overruled
        let mut r = src.sub();
        let given: Vec<&(String, String)> = lines.iter().filter(|(k, _)| k != "test").collect();
        let early: Vec<String> = (0..r.range(1, 60)).map(|_| {
            let (k, v) = given[r.below(given.len() as u64) as usize];
            let w = match k.as_str() { "niterations" | "max_tree_depth" => "1", "learning_rate" | "huber_alpha" => "0.125", "random_seed" => "99", "train" => "nowhere.csv", "metrics" => "binary_error", "objective" => "l2", _ => v };
            format!("{}={}", k, w)
        }).collect();
        args.splice(0..0, early);
        ctx.label("settings given more than once");
    }
    let mut cmd = vec![command.to_string()];
    let spot = src.range(0, args.len() - 1);
    match bad {
        Bad::NoCommand => { cmd.clear(); if src.chance(1, 2) { args.clear(); } }
        Bad::Command => cmd[0] = src.pick(&["train", "", "Tree", "boost_and_predict", "help", "--boost", "boost ", "BOOST", "trees", "boost_and_predict_raw_", "#boost"]).to_string(),
        Bad::Field => args.insert(spot, src.pick(&["no_such_field=1", "=1", "=", "--niterations=5", "Niterations=5", "#niterations=5", "iterations=5", "niterations:=5"]).to_string()),
        Bad::NoEquals => args.insert(spot, src.pick(&["niterations", "5", "learning_rate:0.5", "", " ", "#", "# a remark", "--help", "-v", "train.csv", "--"]).to_string()),
        Bad::Value => args.insert(spot, src.pick(&["niterations=-1", "learning_rate=fast", "max_tree_depth=2.5", "csv_delimiter=;", "csv_has_header=maybe", "random_seed=", "niterations=", "niterations=5 6", "niterations=5;", "learning_rate=0,5", "discr_nbits=4.0", "csv_has_header=1", "csv_delimiter=256", "categorical_features=0,,1", "categorical_features=-1", "min_examples_leaf=1e3"]).to_string()),
        Bad::Objective => args.push(src.pick(&["objective=nonsense", "objective=", "objective=l2,l1", "objective=rmse", "objective=l3"]).to_string()),
        Bad::Metric => args.push(src.pick(&["metrics=l2,nonsense", "metrics=accuracy", "metrics=l2,", "metrics=,", "metrics=l2 rmse", "metrics=hinge"]).to_string()),
        Bad::TrainMissing => args.push(src.pick(&["train=", "train=missing.csv", "train=.", "train=./", "train=train.csv/", "train=train.csv,train.csv", "train=missing/train.csv", "train=TRAIN.CSV"]).to_string()),
        Bad::TestMissing => args.push(src.pick(&["test=missing.csv", "test=.", "test=./", "test=test.csv/", "test=-"]).to_string()),
        _ => {}
    }
    let command = cmd.get(0).map(|s| s.as_str()).unwrap_or("");
    let all: Vec<String> = cmd.iter().cloned().chain(args.iter().cloned()).collect();
    ctx.note(|| format!("{:?}: run_bitboost {}", bad, all.join(" ")));
    ctx.note(|| format!("train.csv:\n{}", train_text));
    ctx.note(|| format!("test.csv:\n{}", test_text));

    let dir = scratch();
    std::fs::write(dir.join("train.csv"), &train_text).unwrap();
    std::fs::write(dir.join("test.csv"), &test_text).unwrap();
    let out = run(&all, threads, &dir);
    let _ = std::fs::remove_dir_all(&dir);
    let stdout = String::from_utf8_lossy(&out.stdout).to_string();
    let tail = || { let e = String::from_utf8_lossy(&out.stderr).to_string(); format!("status {:?}, stderr {:?}", out.status, &e[..e.len().min(300)]) };

    let predicted = stdout.contains("__PREDICTIONS_");
    let evaluated = stdout.lines().any(|l| l.contains("] eval "));
    if bad != Bad::No {
        ctx.label(match bad { Bad::NoCommand | Bad::Command => "invalid command", Bad::Field | Bad::NoEquals | Bad::Value => "invalid setting",
            Bad::Objective | Bad::Metric => "invalid name", Bad::TrainMissing | Bad::TestMissing => "missing file", _ => "spoiled file" });
        if matches!(bad, Bad::TrainSpoiled | Bad::TestSpoiled) {
            // (judged by the library: a removed field can leave a valid table)
            let config = Config::parse(args.iter().map(|s| s.as_str())).expect("config");
            if Data::from_csv(&config, &train_text).is_ok() && Data::from_csv(&config, &test_text).is_ok() { return Ok(()); }
        }
        ensure!(!out.status.success(), "an invalid invocation ({:?}) ended with success", bad);
        ensure!(!predicted && !evaluated, "an invalid invocation ({:?}) still printed predictions or metrics", bad);
        ctx.nontrivial = true;
        return Ok(());
    }

    // the library on the same input
    let config = Config::parse(args.iter().map(|s| s.as_str())).map_err(|e| format!("the library refuses the settings: {}", e))?;
    let dtrain = Data::from_csv(&config, &train_text).map_err(|e| format!("the library refuses the training data: {}", e))?;
    let dtest = Data::from_csv(&config, &test_text).map_err(|e| format!("the library refuses the test data: {}", e))?;
    let ms: Vec<Box<dyn Metric>> = metrics_from_names(&config.metrics).ok_or("the library refuses the metrics")?;
    let iters = if command == "tree" { 1 } else { config.niterations };
    let reference = guarded(|| {
        let mut obj = objective_from_name(&config.objective).expect("objective");
        let mut one = cfg.config();
        one.niterations = iters;
        let run = manual(&config, &dtrain, obj.as_mut(), iters);
        let (ptrain, ptest) = if command == "tree" {
            let mut tree = run.trees.into_iter().next().unwrap();
            tree.set_bias(run.bias);
            (tree.predict(&dtrain), tree.predict(&dtest))
        } else {
            let (model, _) = boost(&config, &dtrain);
            (model.predict(&dtrain), model.predict(&dtest))
        };
        (ptrain, ptest, run.snapshots)
    });
    let (ptrain, ptest, snaps) = match reference { Ok(r) => r, Err(_) => { ctx.label("the library panicked"); return Ok(()); } };
    ensure!(out.status.success(), "the program failed on valid input: {}", tail());

    if command == "boost_and_predict_raw" {
        ctx.label("raw predictions");
        let find = |p: &str| -> Vec<String> { stdout.lines().filter_map(|l| l.strip_prefix(p)).map(|s| s.trim().to_string()).collect() };
        let a = find("__PREDICTIONS_TRAIN__");
        ensure!(a.len() == 1, "{} lines of training predictions", a.len());
        ensure!(a[0] == preds_line(&ptrain), "training predictions {} instead of {}", a[0], preds_line(&ptrain));
        let b = find("__PREDICTIONS_TEST__");
        ensure!(b.len() == with_test as usize, "{} lines of test predictions, test file {}", b.len(), with_test);
        if with_test { ensure!(b[0] == preds_line(&ptest), "test predictions {} instead of {}", b[0], preds_line(&ptest)); }
        let time = find("__TRAIN_TIME__");
        ensure!(time.len() == 1 && time[0].parse::<f32>().map_or(false, |x| x >= 0.0), "training time {:?}", time);
    } else {
        ctx.label(if command == "tree" { "tree summary" } else { "boost summary" });
        ensure!(!predicted, "a summary contains raw predictions");
        let got: Vec<Vec<String>> = stdout.lines().filter(|l| l.contains("] eval ") && l.contains(" train "))
            .map(|l| l.split("] eval ").nth(1).unwrap().split_whitespace().map(|s| s.to_string()).collect()).collect();
        ensure!(got.len() == ms.len(), "{} summary lines for {} metrics", got.len(), ms.len());
        for (g, m) in got.iter().zip(&ms) {
            let etrain = m.eval(dtrain.get_target(), &ptrain);
            ensure!(g.len() >= 3 && g[0] == m.name() && g[1] == "train", "summary line {:?} for {}", g, m.name());
            ensure!(near(&g[2], etrain), "{} on the training data: printed {} instead of {:e}", m.name(), g[2], etrain);
            ensure!(g.iter().any(|w| w == "test") == with_test, "summary line {:?}, test file {}", g, with_test);
            if with_test {
                let etest = m.eval(dtest.get_target(), &ptest);
                let k = g.iter().position(|w| w == "test").unwrap();
                ensure!(g.len() > k + 1 && near(&g[k + 1], etest), "{} on the test data: printed {:?} instead of {:e}", m.name(), g, etest);
            }
        }
        let name = stdout.lines().find(|l| l.contains("] objective:")).map(|l| l.rsplit(':').next().unwrap().trim().to_lowercase());
        let obj = objective_from_name(&config.objective).unwrap();
        ensure!(name == Some(obj.name().to_lowercase()), "objective {:?} instead of {}", name, obj.name());
    }

    // metrics during training
    let during: Vec<Vec<String>> = stdout.lines().filter(|l| l.contains("] eval ") && !l.contains(" train "))
        .map(|l| l.split("] eval ").nth(1).unwrap().split_whitespace().map(|s| s.to_string()).collect()).collect();
    let mut want: Vec<(&str, f32, usize)> = vec![];
    if command != "tree" && freq > 0 {
        for k in (1..=iters).filter(|k| k % freq == 0) {
            for m in &ms { want.push((m.name(), m.eval(dtrain.get_target(), &snaps[k]), k)); }
        }
    }
    ensure!(during.len() == want.len(), "{} metric lines during {} iterations, every {}, {} metrics", during.len(), iters, freq, ms.len());
    for (g, w) in during.iter().zip(&want) {
        ensure!(g.len() == 2 && g[0] == w.0 && near(&g[1], w.1), "iteration {}: metric line {:?} instead of {} {:e}", w.2, g, w.0, w.1);
    }
    ctx.label_if(!want.is_empty(), "metrics during training");
    ctx.label_if(with_test, "test file");
    ctx.nontrivial = distinct(&ptrain) > 1;
    Ok(())
}
