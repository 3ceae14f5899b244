//! C34: work in several threads at the same time.
use std::sync::Barrier;

use bitboost::c_api::*;
use bitboost::data::Data;
use bitboost::dataset::Dataset;
use bitboost::metric::{metric_from_name, Metric};
use bitboost::tree::{AdditiveTree, TreeLearner, TreeLearnerContext};

use crate::gen::*;
use crate::train::*;
use vengine::*;

pub fn props() -> Vec<Prop> {
    vec![Prop { id: "C34", run: c34, quick: 8000, thorough: 300000,
        rule: "two to six threads work on one to three (configuration, table) pairs at the same time: training, predicting with one shared model on one shared data set, growing single trees, reading CSV text, metrics, C contexts; every result against the same work done alone. Non-trivial: a model predicts at least two different values and two threads train or predict.",
        assumptions: &["thread schedules are those the operating system produces, not enumerated"] }]
}

/// Whether the type may be shared by threads, found without requiring it.
struct Is<T>(std::marker::PhantomData<T>);
trait NotSync { const SYNC: bool = false; }
impl<T> NotSync for Is<T> {}
impl<T: Sync> Is<T> { const SYNC: bool = true; }
struct Share<'a, T>(&'a T);
unsafe impl<'a, T> Sync for Share<'a, T> {}
unsafe impl<'a, T> Send for Share<'a, T> {}

struct Item { cfg: Cfg, t: Table, other: Table, csv: String, data: Data, odata: Data, model: AdditiveTree, fit: Vec<f32> }

#[derive(Clone, Copy, PartialEq, Debug)]
enum Op { Train, Predict, PredictOther, PredictBuf, Tree, Load, Metrics, Context }
const OPS: [Op; 8] = [Op::Train, Op::Predict, Op::PredictOther, Op::PredictBuf, Op::Tree, Op::Load, Op::Metrics, Op::Context];

fn context(it: &Item) -> Vec<f32> {
    let (t, o) = (&it.t, &it.other);
    let mut out = vec![];
    unsafe {
        let c = bb_alloc(t.cols.len() as i32);
        let mut ok = !c.is_null();
        for (k, v) in it.cfg.lines() {
            let (k, v) = (std::ffi::CString::new(k).unwrap(), std::ffi::CString::new(v).unwrap());
            ok &= bb_set_config_field(c, k.as_ptr() as *mut _, v.as_ptr() as *mut _) == 0;
        }
        let put = |t: &Table, target: bool| -> bool {
            let mut ok = bb_refresh_data(c, t.n as i32) == 0;
            for (j, col) in t.cols.iter().enumerate() { ok &= bb_set_feature_data(c, j as i32, col.vals.as_ptr() as *mut _, col.cat as i32) == 0; }
            if target { ok &= bb_set_feature_data(c, t.cols.len() as i32, t.target.as_ptr() as *mut _, 0) == 0; }
            ok
        };
        ok &= put(t, true) && bb_train(c) == 0;
        let mut p = vec![0.0f32; t.n];
        ok &= bb_predict(c, p.as_mut_ptr()) == 0;
        out.extend(p);
        ok &= put(o, false);
        let mut p = vec![0.0f32; o.n];
        ok &= bb_predict(c, p.as_mut_ptr()) == 0;
        out.extend(p);
        bb_dealloc(c);
        out.push(if ok { 1.0 } else { 0.0 });
    }
    out
}

fn work(op: Op, it: &Item) -> Result<Vec<u32>, String> {
    guarded(|| {
        let config = it.cfg.config();
        // a data set that may not be shared is made anew
        let own = if Is::<Data>::SYNC && Is::<AdditiveTree>::SYNC { None } else { Some((it.t.data(&config), it.other.data(&config))) };
        let (d, od) = match own { Some((ref a, ref b)) => (a, b), None => (&it.data, &it.odata) };
        let predict = |d: &Data| if own.is_none() { it.model.predict(d) } else { boost(&config, &it.t.data(&config)).0.predict(d) };
        let v: Vec<f32> = match op {
            Op::Train => { let (m, mut p) = boost(&config, d); p.extend(m.predict(od)); p }
            Op::Predict => predict(d),
            Op::PredictOther => predict(od),
            Op::PredictBuf => { let mut b = vec![f32::NAN; od.nexamples()]; if own.is_none() { it.model.predict_buf(od, &mut b); } else { b = predict(od); } b }
            Op::Tree => {
                let mut ob = objective(it.cfg.objective);
                ob.initialize(&config, d.get_target());
                let (mut ds, mut cx) = (Dataset::new(&config, d), TreeLearnerContext::new(&config, d));
                let mut v = vec![];
                for _ in 0..2 {
                    ob.update(d.get_target());
                    ds.update(&config, ob.gradients(), ob.bounds());
                    let sc = ds.get_supercats().clone();
                    let tree = TreeLearner::new(&mut cx, &ds, sc, ob.as_mut()).train();
                    v.extend(tree.predict(od));
                    v.push(tree.nnodes() as f32);
                }
                v
            }
            Op::Load => {
                let mut c = it.cfg.config();
                c.csv_has_header = false;
                c.csv_delimiter = b',';
                c.categorical_features = (0..it.t.cols.len()).filter(|&j| it.t.cols[j].cat).collect();
                let d = Data::from_csv(&c, &it.csv).unwrap();
                (0..d.nfeatures()).flat_map(|j| d.get_feature(j).to_vec()).chain(d.get_target().to_vec()).collect()
            }
            Op::Metrics => ["l2", "rmse", "binary_loss", "binary_error"].iter().map(|n| { let m: Box<dyn Metric> = metric_from_name(n).unwrap(); m.eval(&it.t.target, &it.fit) }).collect(),
            Op::Context => context(it),
        };
        bits(&v)
    })
}

fn c34(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let k = src.range(1, 3);
    let mut items = vec![];
    for _ in 0..k {
        let o = Opts { max_n: if src.chance(1, 12) { 5000 } else { 500 }, max_iter: 3, extremes: 0, degenerate: src.chance(1, 8), ..Opts::default() };
        let (cfg, t) = gen_case(src, &o);
        let mut other = gen_other_rows(src, &t, 200);
        for c in other.cols.iter_mut() { if c.cat { for x in c.vals.iter_mut() { *x = x.min(140000.0); } } }
        ctx.note(|| format!("{:?}; {}", cfg, t.describe()));
        let config = cfg.config();
        let (data, odata) = (t.data(&config), other.data(&config));
        let csv = csv_text(&t, ',', false);
        let (model, fit) = match guarded(|| boost(&config, &data)) { Ok(x) => x, Err(_) => { ctx.label("the library panicked"); return Ok(()); } };
        items.push(Item { cfg, t, other, csv, data, odata, model, fit });
    }
    let nthreads = src.range(2, 6);
    // often all threads do nearly the same
    let focus = if src.chance(1, 2) { Some((*src.pick(&OPS), src.range(0, k - 1))) } else { None };
    let plans: Vec<Vec<(Op, usize)>> = (0..nthreads).map(|_| (0..src.range(1, 4)).map(|_| match focus {
        Some(f) if src.chance(3, 4) => f,
        _ => (*src.pick(&OPS), src.range(0, k - 1)),
    }).collect()).collect();
    let pools = src.range(0, 2);
    let rounds = src.range(1, 3);
    ctx.note(|| format!("{} rounds of {:?}, threads per pool {}", rounds, plans, pools));
    let mut expected = std::collections::HashMap::new();
    for &(op, i) in plans.iter().flat_map(|p| p.iter()) {
        if expected.contains_key(&(op as usize, i)) { continue; }
        match work(op, &items[i]) { Ok(v) => { expected.insert((op as usize, i), v); } Err(_) => { ctx.label("the library panicked"); return Ok(()); } }
    }
    let (shared, expected) = (Share(&items), &expected);
    let barrier = Barrier::new(nthreads);
    let one = |plan: &Vec<(Op, usize)>, shared: &Share<Vec<Item>>| -> CaseResult {
        let pool = if pools > 0 { rayon::ThreadPoolBuilder::new().num_threads(pools).build().ok() } else { None };
        barrier.wait();
        for _ in 0..rounds {
            for &(op, i) in plan {
                let it = Share(&shared.0[i]);
                let r = match pool { Some(ref p) => p.install(|| { let it = &it; work(op, it.0) }), None => work(op, it.0) };
                let got = r.map_err(|e| format!("{:?} on table {}, done alone, works; at the same time as other work: {}", op, i, e))?;
                let want = &expected[&(op as usize, i)];
                ensure!(got.len() == want.len(), "{:?} on table {} gives {} results instead of {}", op, i, got.len(), want.len());
                if let Some(x) = (0..got.len()).find(|&x| got[x] != want[x]) {
                    return Err(format!("{:?} on table {}: value {} is {} when done alone and {} at the same time as other work", op, i, x, f32::from_bits(want[x]), f32::from_bits(got[x])));
                }
            }
        }
        Ok(())
    };
    let results: Vec<CaseResult> = std::thread::scope(|s| {
        let hs: Vec<_> = plans.iter().map(|p| { let (one, shared) = (&one, &shared); s.spawn(move || one(p, shared)) }).collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a thread panicked".into()))).collect()
    });
    for r in results { r?; }
    for p in &plans { for (op, _) in p { ctx.label(match op { Op::Train => "train", Op::Predict | Op::PredictOther | Op::PredictBuf => "predict", Op::Tree => "tree", Op::Load => "load", Op::Metrics => "metrics", Op::Context => "C context" }); } }
    ctx.labels.sort();
    ctx.labels.dedup();
    let busy = plans.iter().filter(|p| p.iter().any(|x| ![Op::Load, Op::Metrics].contains(&x.0))).count();
    ctx.nontrivial = busy >= 2 && items.iter().any(|i| distinct(&i.fit) > 1);
    Ok(())
}
