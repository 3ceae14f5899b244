//! C27: the repository's Python package, run in Python on generated matrices, settings and call
//! orders, against the library.
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

use bitboost::config::Config;

use crate::gen::*;
use crate::train::*;
use vengine::*;

pub fn props() -> Vec<Prop> {
    vec![Prop { id: "C27", run: c27, quick: 20000, thorough: 300000,
        rule: "a model fitted through the wrapper predicts at least two different values",
        assumptions: &["the library is the reference for data and models",
            "scikit-learn is not installed: its base class and validation functions are stand-ins with the documented conversions",
            "columns are finite; matrices have at least one row and column"] }]
}

struct Worker { child: Child, stdin: ChildStdin, stdout: BufReader<ChildStdout> }
impl Drop for Worker { fn drop(&mut self) { let _ = self.child.kill(); let _ = self.child.wait(); } }
thread_local! { static WORKER: RefCell<Option<Worker>> = const { RefCell::new(None) }; }

fn start() -> Worker {
    let v = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
    let mut child = Command::new("python3-vt")
        .args([format!("{}/tools/pyworker.py", v), format!("{}/target/pypkg", v), format!("{}/python/bitboost_config.gen.csv", std::env::var("VERIF_REPO").unwrap_or_else(|_| "/repo".into()))])
        .env("RAYON_NUM_THREADS", "1").env("OPENBLAS_NUM_THREADS", "1").env("OMP_NUM_THREADS", "1").env("PYTHONDONTWRITEBYTECODE", "1").env("RUST_BACKTRACE", "0")
        .stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("cannot start python3-vt");
    let (stdin, stdout) = (child.stdin.take().unwrap(), BufReader::new(child.stdout.take().unwrap()));
    Worker { child, stdin, stdout }
}

/// Run the operations in a Python process of this thread: one reply per operation.
fn python(ops: &[String]) -> Result<Vec<String>, String> {
    WORKER.with(|w| {
        let mut w = w.borrow_mut();
        if w.is_none() { *w = Some(start()); }
        let res = (|| -> std::io::Result<Vec<String>> {
            let k = w.as_mut().unwrap();
            k.stdin.write_all(format!("[{}]\n", ops.join(",")).as_bytes())?;
            k.stdin.flush()?;
            let mut v = vec![];
            for _ in ops {
                let mut l = String::new();
                if k.stdout.read_line(&mut l)? == 0 { return Err(std::io::ErrorKind::UnexpectedEof.into()); }
                v.push(l.trim_end().to_string());
            }
            Ok(v)
        })();
        res.map_err(|e| { let st = w.take().map(|mut k| k.child.wait()); format!("the Python process ended ({:?}, {:?})", e, st) })
    })
}

fn hex(v: &[f32]) -> String {
    let mut s = String::with_capacity(v.len() * 8);
    const D: &[u8; 16] = b"0123456789abcdef";
    for x in v { for b in x.to_le_bytes() { s.push(D[(b >> 4) as usize] as char); s.push(D[(b & 15) as usize] as char); } }
    s
}
fn unhex(s: &str) -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap_or(0)).collect() }
fn floats(s: &str) -> Vec<f32> { unhex(s).chunks(4).map(|c| f32::from_le_bytes([c[0], c[1], c[2], c[3]])).collect() }

const LAYOUTS: &[&str] = &["C", "F", "T", "rows2", "cols3", "rev", "off", "unaligned"];
const CONVERTED: &[&str] = &["f8", "f8F", "list"];
const NOT_A_NUMBER: &[&str] = &["objective", "metrics", "categorical_features"];

fn matrix(t: &Table, layout: &str) -> String {
    let all: Vec<f32> = t.cols.iter().flat_map(|c| c.vals.iter().cloned()).collect();
    format!("{},{},\"{}\",\"{}\"", t.n, t.cols.len(), hex(&all), layout)
}

fn catset(src: &mut Src, t: &Table) -> String {
    let ids: Vec<String> = (0..t.cols.len()).filter(|&j| t.cols[j].cat).map(|j| j.to_string()).collect();
    format!("[{}],\"{}\"", ids.join(","), src.pick(&["set", "list", "frozenset", "tuple", "dict", "np"]))
}

fn pairs(lines: &[(String, String)]) -> String {
    let v: Vec<String> = lines.iter().map(|(k, v)| format!("[\"{}\",{}]", k, v)).collect();
    format!("[{}]", v.join(","))
}

fn integral(t: &Table) -> bool { t.cols.iter().all(|c| c.vals.iter().all(|x| x.fract() == 0.0 && x.abs() < 1e9)) }
fn integral_v(v: &[f32]) -> bool { v.iter().all(|x| x.fract() == 0.0 && x.abs() < 1e9) }

/// What the operation must do.
enum Want { Ok, Raise(&'static str), Floats(Vec<f32>, &'static str), Params(&'static str) }

const FIELDS: &[(&str, &str)] = &[("objective", "String"), ("metrics", "Vec<String>"), ("metric_frequency", "usize"), ("categorical_features", "Vec<usize>"),
    ("niterations", "usize"), ("learning_rate", "NumT"), ("reg_lambda", "NumT"), ("min_examples_leaf", "u32"), ("min_gain", "NumT"), ("huber_alpha", "NumT"),
    ("max_nbins", "usize"), ("discr_nbits", "usize"), ("max_tree_depth", "usize"), ("compression_threshold", "NumT"), ("binary_gradient_bound", "NumT"),
    ("random_seed", "u64"), ("feature_fraction", "NumT"), ("example_fraction", "NumT"), ("sample_freq", "usize")];

fn check_params(text: &str, typed: bool, what: &str) -> CaseResult {
    let text = String::from_utf8_lossy(&unhex(text)).to_string();
    let rows: Vec<Vec<&str>> = text.lines().map(|l| l.split('\t').collect()).collect();
    let names: Vec<&str> = rows.iter().map(|r| r[0]).collect();
    for (f, ty) in FIELDS {
        let r = match rows.iter().find(|r| r[0] == *f) { Some(r) => r, None => return Err(format!("{}: no parameter {}", what, f)) };
        if typed { ensure!(r[1] == *ty || (*ty == "NumT" && r[1] == "f32"), "{}: parameter {} has the type {} instead of {}", what, f, r[1], ty); }
        // the default, handed to the core configuration, is the core's default
        let d = if r[2] == "[]" { "" } else { r[2] };
        let mut c = Config::new();
        let parsed = c.parse_record(f, d);
        ensure!(parsed.is_ok(), "{}: the default {:?} of {} is refused by the core", what, r[2], f);
        ensure!(format!("{:?}", c) == format!("{:?}", Config::new()), "{}: the default {:?} of {} is not the core's default", what, r[2], f);
    }
    ensure!(names.len() == FIELDS.len(), "{}: {} parameters instead of {}: {:?}", what, names.len(), FIELDS.len(), names);
    Ok(())
}

fn c27(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let o = Opts { max_n: if src.chance(1, 100) { 9000 } else if src.chance(1, 20) { 3000 } else { 500 }, max_iter: 4, extremes: 60, degenerate: src.chance(1, 6), ..Opts::default() };
    let (mut cfg, mut t) = gen_case(src, &o);
    if !is_binary(&cfg.objective) && src.chance(1, 10) { // whole numbers of any size
        let f = *src.pick(&[1.0f32, 300.0, 70000.0]);
        if t.target.iter().all(|x| x.abs() < 1e4) { for x in t.target.iter_mut() { *x = (*x * f).round(); } ctx.label("whole numbers as targets"); }
    }
    if src.chance(1, 3) { // settings with all their digits
        let mut r = src.sub();
        for _ in 0..r.range(1, 3) {
            let u = r.unit() as f32;
            match r.below(6) {
                0 => cfg.learning_rate = u.max(1e-6), 1 => cfg.reg_lambda = u * 100.0, 2 => cfg.min_gain = u * 1e-3, 3 => cfg.huber_alpha = u * 0.9 + 0.05,
                4 => cfg.random_seed = r.next() >> 1, _ => cfg.compression_threshold = u,
            }
        }
        ctx.label("settings with many digits");
    }
    let mut other = gen_other_rows(src, &t, 120);
    // (these rows are trained on, too, and memory goes with the highest category)
    for c in other.cols.iter_mut() { if c.cat { for x in c.vals.iter_mut() { *x = x.min(140000.0); } } }
    { let mut r = src.sub(); other.target = (0..other.n).map(|_| t.target[r.below(t.n as u64) as usize]).collect(); }
    let estimator = src.chance(1, 3);
    let retrain = src.chance(1, 3);
    let second = src.chance(1, 5);
    // the other rows in another order, put in the same array once the first answer is there
    let in_place = src.chance(1, 4);
    let rot = if other.n > 1 { src.range(1, other.n - 1) } else { 0 };
    let mut rotated = other.clone();
    for c in rotated.cols.iter_mut() { c.vals.rotate_left(rot); }
    let nf = t.cols.len();

    // settings, as Python values
    let cats: Vec<String> = (0..nf).filter(|&j| t.cols[j].cat).map(|j| j.to_string()).collect();
    let mut lines: Vec<(String, String)> = cfg.lines().into_iter()
        .map(|(k, v)| (k.to_string(), if NOT_A_NUMBER.contains(&k) { format!("\"{}\"", v) } else { v })).collect();
    if estimator || src.chance(1, 3) { lines.push(("categorical_features".into(), format!("[{}]", cats.join(",")))); }
    if src.chance(1, 3) { lines.push(("metrics".into(), src.pick(&["[\"l2\",\"rmse\"]", "[]", "[\"binary_error\"]", "\"l2,rmse\""]).to_string())); }
    if src.chance(1, 3) { lines.push(("metric_frequency".into(), src.range(0, 3).to_string())); }
    { let mut r = src.sub(); for i in (1..lines.len()).rev() { let j = r.below(i as u64 + 1) as usize; lines.swap(i, j); } }
    let kind = *src.pick(&["py", "str", "np"]);
    // a list as a string is not an estimator setting for the column numbers
    let skind = if estimator && kind == "str" { "py" } else { kind };

    // the estimator set up differently and fitted to a table of other columns
    let refit = estimator && src.chance(1, 4);
    let (mut cfg2, mut t2) = (cfg.clone(), t.clone());
    if refit {
        let mut r = src.sub();
        cfg2.niterations = r.range(0, 4);
        cfg2.max_tree_depth = r.range(1, 5);
        cfg2.learning_rate = 0.25;
        cfg2.random_seed = r.below(1000);
        if r.chance(0.5) { cfg2.min_gain = 0.5; }
        match r.below(3) {
            0 => { let c = t2.cols[r.below(nf as u64) as usize].clone(); t2.cols.insert(0, c); }
            1 if nf > 1 => { t2.cols.remove(0); }
            _ => t2.cols.rotate_left(1),
        }
    }
    let p_refit = match guarded(|| if refit { let c = cfg2.config(); let d = t2.data(&c); let (m, _) = boost(&c, &d); m.predict(&d) } else { vec![] }) {
        Ok(p) => p, Err(_) => { ctx.label("the library panicked"); return Ok(()); } };

    let config = cfg.config();
    let reference = guarded(|| {
        let d = t.data(&config);
        let (model, _) = boost(&config, &d);
        let od = other.data(&config);
        let p = (model.predict(&d), model.predict(&od));
        let again = if retrain { let (m, _) = boost(&config, &od); (m.predict(&od), m.predict(&d)) } else { (vec![], vec![]) };
        (p, again)
    });
    let ((p_train, p_other), (q_other, q_train)) = match reference { Ok(r) => r, Err(_) => { ctx.label("the library panicked"); return Ok(()); } };

    let mut ops: Vec<(String, Want)> = vec![];
    let lay = |src: &mut Src, t: &Table, conv: bool| -> &'static str {
        if conv && src.chance(1, 2) { if integral(t) && src.chance(1, 2) { "i8" } else { *src.pick(CONVERTED) } } else { *src.pick(LAYOUTS) }
    };
    let vlay = |src: &mut Src, v: &[f32], conv: bool| -> &'static str {
        if conv && src.chance(1, 2) { if integral_v(v) && src.chance(1, 2) { "i8" } else { *src.pick(CONVERTED) } } else { *src.pick(LAYOUTS) }
    };
    if src.chance(1, 20) {
        ops.push(("[\"params\",0]".into(), Want::Params("the package's parameters")));
        ops.push(("[\"skparams\",0]".into(), Want::Params("the estimator's parameters")));
        ops.push(("[\"committed\",0]".into(), Want::Params("python/bitboost_config.gen.csv")));
    }
    if estimator {
        ctx.label("estimator");
        let class = src.pick(&["BitBoost", "BitBoostRegressor", "BitBoostClassifier"]);
        ops.push((format!("[\"sknew\",0,\"{}\",{},\"{}\"]", class, pairs(&lines), skind), Want::Ok));
        if src.chance(1, 8) { ops.push((format!("[\"skpredict\",0,{}]", matrix(&t, "C")), Want::Raise("prediction before fitting"))); }
        let fit = |src: &mut Src, t: &Table| format!("[\"skfit\",0,{},\"{}\",\"{}\"]", matrix(t, lay(src, t, true)), hex(&t.target), vlay(src, &t.target, true));
        let pred = |src: &mut Src, t: &Table| format!("[\"skpredict\",0,{}]", matrix(t, lay(src, t, true)));
        ops.push((fit(src, &t), Want::Ok));
        let first_other = src.chance(1, 2);
        if first_other { ops.push((pred(src, &other), Want::Floats(p_other.clone(), "other rows"))); }
        ops.push((pred(src, &t), Want::Floats(p_train.clone(), "training rows")));
        if !first_other { ops.push((pred(src, &other), Want::Floats(p_other.clone(), "other rows"))); }
        if refit {
            ctx.label("an estimator with changed parameters");
            let id = if src.chance(1, 2) { // a copy with the same parameters
                ops.push(("[\"skclone\",0,1]".into(), Want::Ok));
                ops.push((fit(src, &t).replacen("0", "1", 1), Want::Ok));
                ops.push((pred(src, &other).replacen("0", "1", 1), Want::Floats(p_other.clone(), "other rows, by a copy of the estimator")));
                1
            } else { 0 };
            let cats: Vec<String> = (0..t2.cols.len()).filter(|&j| t2.cols[j].cat).map(|j| j.to_string()).collect();
            let set = vec![("niterations".to_string(), cfg2.niterations.to_string()), ("max_tree_depth".into(), cfg2.max_tree_depth.to_string()), ("learning_rate".into(), "0.25".into()),
                ("random_seed".into(), cfg2.random_seed.to_string()), ("min_gain".into(), cfg2.min_gain.to_string()), ("categorical_features".into(), format!("[{}]", cats.join(",")))];
            ops.push((format!("[\"skset\",{},{},\"{}\"]", id, pairs(&set), skind), Want::Ok));
            ops.push((fit(src, &t2).replacen("0", &id.to_string(), 1), Want::Ok));
            ops.push((pred(src, &t2).replacen("0", &id.to_string(), 1), Want::Floats(p_refit.clone(), "training rows after changing parameters")));
            if id == 1 { ops.push((pred(src, &other), Want::Floats(p_other.clone(), "other rows, by the estimator that was copied"))); }
            else { ops.push((format!("[\"skset\",0,{},\"{}\"]", pairs(&lines), skind), Want::Ok)); ops.push((fit(src, &t), Want::Ok)); }
        }
        if in_place {
            let (l, mut p) = (*src.pick(&["C", "F", "cols3", "f8"]), p_other.clone());
            let pred = |t: &Table| format!("[\"skpredict\",0,{},\"a\"]", matrix(t, l));
            ops.push((pred(&other), Want::Floats(p.clone(), "other rows")));
            p.rotate_left(rot);
            ops.push((pred(&rotated), Want::Floats(p, "other rows, rotated in the same array")));
        }
        if retrain {
            ops.push((fit(src, &other), Want::Ok));
            ops.push((pred(src, &t), Want::Floats(q_train.clone(), "training rows after fitting to the other rows")));
            ops.push((pred(src, &other), Want::Floats(q_other.clone(), "other rows after fitting to them")));
        }
    } else {
        ctx.label("raw interface");
        let k = if second { 2 } else { 1 };
        for id in 0..k {
            ops.push((format!("[\"new\",{},{},{}]", id, nf, t.n), Want::Ok));
            if src.chance(1, 10) { ops.push((format!("[\"predict\",{}]", id), Want::Raise("prediction without data"))); }
            if src.chance(1, 10) { ops.push((format!("[\"train\",{}]", id), Want::Raise("training without data"))); }
            if src.chance(1, 8) {
                let (a, b) = *src.pick(&[("niterations", "\"many\""), ("learning_rate", "\"\""), ("no_such_field", "1"), ("max_tree_depth", "-2"), ("categorical_features", "[\"a\"]"), ("discr_nbits", "1.5")]);
                ops.push((format!("[\"field\",{},\"{}\",{},\"py\"]", id, a, b), Want::Raise("an invalid setting")));
            }
            let cut = if src.chance(1, 2) { lines.len() } else { src.range(0, lines.len()) };
            ops.push((format!("[\"config\",{},{},\"{}\"]", id, pairs(&lines[..cut]), kind), Want::Ok));
            for (a, b) in &lines[cut..] { ops.push((format!("[\"field\",{},\"{}\",{},\"{}\"]", id, a, b, kind), Want::Ok)); }
        }
        let mut sets = vec![];
        for id in 0..k {
            let by_column = src.chance(1, 5);
            if src.chance(1, 12) { ops.push((format!("[\"data\",{},{},{}]", id, matrix(&t, src.pick(&["f8", "big"])), catset(src, &t)), Want::Raise("a matrix of another type"))); }
            sets.push(by_column);
            let l = lay(src, &t, false);
            let cs = catset(src, &t);
            ops.push((format!("[\"data\",{},{},{}]", id, matrix(&t, l), cs), Want::Ok));
            if by_column { // once more, column by column
                let rot = src.range(0, nf - 1);
                for j in 0..nf {
                    let j = (j + rot) % nf;
                    let l = vlay(src, &[0.5], false);
                    ops.push((format!("[\"column\",{},{},\"{}\",\"{}\",{}]", id, j, hex(&t.cols[j].vals), l, t.cols[j].cat), Want::Ok));
                }
            }
            if src.chance(1, 10) { ops.push((format!("[\"field\",{},\"niterations\",1,\"py\"]", id), Want::Raise("a setting after the data"))); }
            if src.chance(1, 10) {
                let mut v = t.target.clone();
                if src.chance(1, 2) { v.push(1.0); } else { v.pop(); }
                ops.push((format!("[\"target\",{},\"{}\",\"C\"]", id, hex(&v)), Want::Raise("a target of another length")));
            }
            if src.chance(1, 12) { ops.push((format!("[\"column\",{},{},\"{}\",\"C\",true]", id, src.range(0, nf - 1), hex(&vec![-1.0; t.n])), Want::Raise("a negative category")));
                let l = lay(src, &t, false); let cs = catset(src, &t);
                ops.push((format!("[\"data\",{},{},{}]", id, matrix(&t, l), cs), Want::Ok)); }
            let l = vlay(src, &t.target, false);
            ops.push((format!("[\"target\",{},\"{}\",\"{}\"]", id, hex(&t.target), l), Want::Ok));
            if src.chance(1, 12) { ops.push((format!("[\"predict\",{}]", id), Want::Raise("prediction before training"))); }
        }
        for id in 0..k { ops.push((format!("[\"train\",{}]", id), Want::Ok)); }
        if k == 2 && src.chance(1, 2) { ops.push((src.pick(&["[\"dealloc\",0]", "[\"del\",0]"]).to_string(), Want::Ok)); }
        let id = k - 1;
        if src.chance(2, 3) { ops.push((format!("[\"predict\",{}]", id), Want::Floats(p_train.clone(), "training rows"))); }
        let put = |src: &mut Src, t: &Table| {
            let l = lay(src, t, false);
            if src.chance(1, 2) { format!("[\"data0\",{},{}]", id, matrix(t, l)) } else { format!("[\"data\",{},{},{}]", id, matrix(t, l), catset(src, t)) }
        };
        ops.push((put(src, &other), Want::Ok));
        ops.push((format!("[\"predict\",{}]", id), Want::Floats(p_other.clone(), "other rows")));
        ops.push((put(src, &t), Want::Ok));
        ops.push((format!("[\"predict\",{}]", id), Want::Floats(p_train.clone(), "training rows, set again")));
        if in_place {
            let (l, mut p) = (*src.pick(&["C", "F", "cols3"]), p_other.clone());
            let put = |t: &Table| format!("[\"data0\",{},{},\"a\"]", id, matrix(t, l));
            ops.push((put(&other), Want::Ok));
            ops.push((format!("[\"predict\",{}]", id), Want::Floats(p.clone(), "other rows")));
            p.rotate_left(rot);
            ops.push((put(&rotated), Want::Ok));
            ops.push((format!("[\"predict\",{}]", id), Want::Floats(p, "other rows, rotated in the same array")));
        }
        if retrain {
            let l = lay(src, &other, false);
            ops.push((format!("[\"data\",{},{},{}]", id, matrix(&other, l), catset(src, &other)), Want::Ok));
            let l = vlay(src, &other.target, false);
            ops.push((format!("[\"target\",{},\"{}\",\"{}\"]", id, hex(&other.target), l), Want::Ok));
            ops.push((format!("[\"train\",{}]", id), Want::Ok));
            ops.push((format!("[\"predict\",{}]", id), Want::Floats(q_other.clone(), "other rows after training on them")));
            ops.push((put(src, &t), Want::Ok));
            ops.push((format!("[\"predict\",{}]", id), Want::Floats(q_train.clone(), "training rows after training on the other rows")));
        }
        if src.chance(1, 4) {
            ops.push((format!("[\"dealloc\",{}]", id), Want::Ok));
            ops.push((format!("[\"predict\",{}]", id), Want::Raise("prediction after deallocation")));
        }
    }
    for (op, _) in &ops { ctx.note(|| op.clone()); }
    ctx.note(|| t.describe());

    let sent: Vec<String> = ops.iter().map(|o| o.0.clone()).collect();
    let replies = python(&sent)?;
    for ((op, want), r) in ops.iter().zip(&replies) {
        let short = &op[..op.len().min(60)];
        match *want {
            Want::Ok => ensure!(r == "ok", "{}...: {}", short, r),
            Want::Raise(what) => { ensure!(r.starts_with("raise "), "{} is accepted: {}... gives {}", what, short, &r[..r.len().min(80)]); ctx.label("refused calls"); }
            Want::Floats(ref p, what) => {
                ensure!(r.starts_with("ok "), "{} ({}): {}", short, what, r);
                let got = floats(&r[3..]);
                ensure!(got.len() == p.len(), "{}: {} predictions for {} rows", what, got.len(), p.len());
                if let Some(i) = first_diff(&got, p) { return Err(format!("{}: prediction of row {} is {} instead of {}", what, i, got[i], p[i])); }
            }
            Want::Params(what) => { ensure!(r.starts_with("ok "), "{}: {}", what, r); check_params(&r[3..], what != "the estimator's parameters", what)?; ctx.label("parameter lists"); }
        }
    }
    ctx.label_if(in_place, "the same array with other contents");
    ctx.label_if(retrain, "trained twice");
    ctx.label_if(second && !estimator, "two models at a time");
    ctx.nontrivial = distinct(&p_train) > 1 && distinct(&p_other) > 0;
    Ok(())
}
