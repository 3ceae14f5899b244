//! C30-C33: trees built by hand, independence of history, memory over iterations, stopping settings.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

use bitboost::data::FeatType;
use bitboost::dataset::Dataset;
use bitboost::boost::Booster;
use bitboost::metric::Metric;
use bitboost::objective::Objective;
use bitboost::tree::{AdditiveTree, SplitCrit, SplitType, Tree, TreeLearner, TreeLearnerContext};

use crate::gen::*;
use crate::props_boost::label_case;
use crate::train::*;
use vengine::*;

// ---- C30 ---------------------------------------------------------------------------------------

#[derive(Clone, Debug)]
enum Test { Leaf, Eq(usize, f32), Lt(usize, f32), Group(usize, u32) }

#[derive(Clone)]
struct Plan { depth: usize, tests: Vec<Test>, values: Vec<f32>, groups: Vec<Vec<u32>>, shrink: Vec<f32>, bias: Vec<f32> }

fn number(r: &mut Rng) -> f32 {
    match r.below(8) { 0 => 0.0, 1 => (r.normal() * 1e10) as f32, 2 => (r.normal() * 1e-10) as f32, 3 => r.below(9) as f32 - 4.0, _ => r.normal() as f32 }
}

fn gen_plan(src: &mut Src, t: &Table, deep: usize) -> Plan {
    let depth = src.range(1, deep);
    let p_split = [0.85, 0.6, 1.0, 0.3][src.draw(3) as usize];
    let mut r = src.sub();
    let n = (1usize << (depth + 1)) - 1;
    let inner = (1usize << depth) - 1;
    let mut groups: Vec<Vec<u32>> = vec![vec![]; t.cols.len()];
    let mut tests = vec![Test::Leaf; n];
    let mut live = vec![false; n];
    live[0] = true;
    let mut any_group = false;
    for node in 0..inner {
        if !live[node] || !r.chance(if node == 0 { 0.97 } else { p_split }) { continue; }
        let f = r.below(t.cols.len() as u64) as usize;
        let c = &t.cols[f];
        let x = c.vals[r.below(t.n as u64) as usize];
        let kind = if c.cat { r.below(3) } else { r.below(5).max(1).min(2) };
        tests[node] = match kind {
            0 => {
                if groups[f].is_empty() {
                    // a table of groups for the categories below some bound: not all that occur
                    let many = r.chance(0.1); // (more groups than 8 bits count)
                    let m = if many { x as usize + r.range(200, 900) } else if r.chance(0.3) { r.range(1, 6) } else { x as usize + r.range(1, 20) }.min(200_000);
                    let k = r.range(1, m.min(if many { 900 } else { 40 }));
                    groups[f] = (0..m).map(|_| r.below(k as u64 + 1) as u32).collect();
                }
                any_group = true;
                Test::Group(f, if r.chance(0.3) { let g = &groups[f]; g[r.below(g.len() as u64) as usize].min(g.len() as u32 - 1) } else { r.below((groups[f].len() as u64).min(if groups[f].len() > 200 { 1000 } else { 40 })) as u32 })
            }
            1 => Test::Eq(f, match r.below(6) { 0 => x + 1.0, 1 => -x, _ => x }),
            _ => Test::Lt(f, match r.below(8) { 0 => next_up(x), 1 => x + 1.0, 2 => -x, 3 => 0.0, 4 => (x - 0.5) * 2.0, _ => x }),
        };
        live[2 * node + 1] = true;
        live[2 * node + 2] = true;
    }
    if !any_group && r.chance(0.5) { groups = vec![]; }
    let values = (0..n).map(|_| number(&mut r)).collect();
    let shrink = (0..r.below(3)).map(|_| [0.5f32, 0.1, 1.0, 0.25, 3.0, 0.0, 1e-8, -0.5][r.below(8) as usize]).collect();
    let bias = (0..r.below(3)).map(|_| number(&mut r)).collect();
    Plan { depth, tests, values, groups, shrink, bias }
}

fn crit(t: &Test) -> SplitCrit {
    match *t {
        Test::Leaf => SplitCrit::no_split(),
        Test::Eq(f, v) => SplitCrit { split_type: SplitType::LoCardCatEq, feature_id: f, split_value: v },
        Test::Lt(f, v) => SplitCrit { split_type: SplitType::NumLt, feature_id: f, split_value: v },
        Test::Group(f, g) => SplitCrit { split_type: SplitType::HiCardCatLt, feature_id: f, split_value: g as f32 },
    }
}

fn build(src: &mut Src, p: &Plan) -> Result<Tree, String> {
    let mut tree = Tree::new(p.depth, p.groups.clone());
    let inner = (1usize << p.depth) - 1;
    ensure!(tree.max_depth() == p.depth && tree.max_ninternal() == inner && tree.max_nleafs() == inner + 1 && tree.max_nnodes() == 2 * inner + 1,
            "a tree of depth {} says it holds {} internal nodes, {} leaves, {} nodes", p.depth, tree.max_ninternal(), tree.max_nleafs(), tree.max_nnodes());
    ensure!(tree.nnodes() == 1 && tree.nleafs() == 1 && tree.ninternal() == 0, "a new tree has {} nodes", tree.nnodes());
    let mut r = src.sub();
    let mut open = vec![0usize];
    let mut splits = 0;
    let early = r.chance(0.5);
    if early { for (i, &v) in p.values.iter().enumerate() { tree.set_value(i, v); } }
    while !open.is_empty() { // the nodes in any order, a parent before its children
        let k = r.below(open.len() as u64) as usize;
        let node = open.swap_remove(k);
        if let Test::Leaf = p.tests[node] { continue; }
        tree.split_node(node, crit(&p.tests[node]));
        splits += 1;
        let (a, b) = (tree.left_child(node), tree.right_child(node));
        ensure!(a == 2 * node + 1 && b == 2 * node + 2 && tree.parent(a) == node && tree.parent(b) == node, "node {}: children {} and {}, their parents {} and {}", node, a, b, tree.parent(a), tree.parent(b));
        ensure!(tree.is_max_leaf_node(a) == (a >= inner), "node {} at the deepest level: {}", a, tree.is_max_leaf_node(a));
        ensure!(tree.ninternal() == splits && tree.nleafs() == splits + 1 && tree.nnodes() == 2 * splits + 1,
                "after {} splits: {} internal nodes, {} leaves, {} nodes", splits, tree.ninternal(), tree.nleafs(), tree.nnodes());
        open.push(a);
        open.push(b);
    }
    if !early { for (i, &v) in p.values.iter().enumerate() { tree.set_value(i, v); } }
    for (i, &v) in p.values.iter().enumerate() { ensure!(tree.node_value(i) == v, "node {} has value {} instead of {}", i, tree.node_value(i), v); }
    for &s in &p.shrink { tree.set_shrinkage(s); }
    for &b in &p.bias { tree.set_bias(b); }
    Ok(tree)
}

/// The leaf a row belongs to, from the tests alone.
fn walk(p: &Plan, t: &Table, i: usize) -> usize {
    let mut node = 0;
    loop {
        let left = match p.tests[node] {
            Test::Leaf => return node,
            Test::Eq(f, v) => t.cols[f].vals[i] == v,
            Test::Lt(f, v) => t.cols[f].vals[i] < v,
            Test::Group(f, g) => { let c = t.cols[f].vals[i] as usize; c < p.groups[f].len() && p.groups[f][c] <= g }
        };
        node = 2 * node + if left { 1 } else { 2 };
    }
}

fn c30(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let o = Opts { objectives: &["l2"], max_n: 400, extremes: 60, ..Opts::default() };
    let (cfg, t) = gen_case(src, &o);
    let rows = gen_other_rows(src, &t, 60);
    let mut all = rows.clone();
    let k = src.range(0, t.n.min(60));
    for j in 0..t.cols.len() { all.cols[j].vals.extend(&t.cols[j].vals[..k]); }
    all.target.extend(&t.target[..k]);
    all.n += k;
    if src.chance(1, 25) { // rows many times in a row
        let m = src.range(2, 600);
        let k = (3000 / m).max(1).min(all.n);
        all = all.rows(&(0..k).flat_map(|i| std::iter::repeat(i).take(m)).collect::<Vec<_>>());
        ctx.label("rows repeated");
    }
    let data = all.data(&cfg.config());
    let ntrees = src.weighted(&[50, 25, 15, 10]) + 1;
    let deep = if src.chance(1, 40) { 12 } else { 5 };
    ctx.note(|| format!("{:?}", cfg));
    ctx.note(|| all.describe());
    let mut model = AdditiveTree::new();
    let biases: Vec<f32> = { let mut r = src.sub(); (0..r.below(3)).map(|_| number(&mut r)).collect() };
    for &b in &biases { model.set_bias(b); }
    let mut sum: Vec<f64> = vec![*biases.last().unwrap_or(&0.0) as f64; all.n];
    let mut mag: Vec<f64> = sum.iter().map(|x| x.abs()).collect();
    let mut reached = std::collections::HashSet::new();
    for k in 0..ntrees {
        let p = gen_plan(src, &t, deep);
        ctx.note(|| format!("tree {}: depth {} tests {:?} groups {:?} shrinkage {:?} bias {:?}", k, p.depth, &p.tests[..p.tests.len().min(40)],
            p.groups.iter().map(|g| g.len()).collect::<Vec<_>>(), p.shrink, p.bias));
        for t in &p.tests { match t { Test::Eq(..) => ctx.label("equality"), Test::Lt(..) => ctx.label("less than"), Test::Group(..) => ctx.label("groups"), Test::Leaf => {} } }
        ctx.labels.sort();
        ctx.labels.dedup();
        let mut tree = build(src, &p)?;
        // what is no split is refused and changes nothing
        if src.chance(1, 20) {
            let bad = src.draw(2);
            let before = (tree.ninternal(), tree.predict(&data));
            let at = match bad { 0 => 0, 1 => tree.max_ninternal() + src.range(0, tree.max_nleafs() - 1), _ => 0 };
            let c = if bad == 2 { SplitCrit::no_split() } else { SplitCrit { split_type: SplitType::NumLt, feature_id: 0, split_value: 0.5 } };
            if bad != 0 || tree.ninternal() > 0 {
                let refused = guarded(|| tree.split_node(at, c)).is_err();
                ensure!(refused, "{}", ["a split node was split again", "a node of the deepest level was split", "a split without a test was accepted"][bad as usize]);
                ensure!(before.0 == tree.ninternal() && first_diff(&before.1, &tree.predict(&data)).is_none(), "a refused split changed the tree");
                ctx.label("refused split");
            }
        }
        let s: f64 = p.shrink.iter().map(|&x| x as f64).product();
        let b = *p.bias.last().unwrap_or(&0.0) as f64;
        let got = tree.predict(&data);
        ensure!(got.len() == all.n, "{} predictions for {} rows", got.len(), all.n);
        for i in 0..all.n {
            let leaf = walk(&p, &all, i);
            reached.insert((k, leaf));
            let v = p.values[leaf] as f64;
            let want = s * (v + b);
            ensure!((got[i] as f64 - want).abs() <= 5e-7 * s.abs() * (v.abs() + b.abs()) + 1e-37, "row {} belongs to node {} and must be predicted {} * ({} + {}), not {}", i, leaf, s, v, b, got[i]);
            sum[i] += got[i] as f64;
            mag[i] += got[i].abs() as f64;
        }
        // the other ways of asking
        let mut r = src.sub();
        for _ in 0..5 { let i = r.below(all.n as u64) as usize; let x = tree.predict_single(&data, i); ensure!(x.to_bits() == got[i].to_bits(), "predict_single({}) is {} instead of {}", i, x, got[i]); }
        let dirty: Vec<f32> = (0..all.n).map(|_| number(&mut r)).collect();
        let mut buf = dirty.clone();
        tree.predict_buf(&data, &mut buf);
        ensure!(first_diff(&buf, &got).is_none(), "predict_buf: row {:?} differs", first_diff(&buf, &got));
        let mut buf = dirty.clone();
        tree.predict_and(&data, &mut buf, |x, y| *y = if x > *y { x } else { *y * 0.5 });
        let want: Vec<f32> = dirty.iter().zip(&got).map(|(&y, &x)| if x > y { x } else { y * 0.5 }).collect();
        ensure!(first_diff(&buf, &want).is_none(), "predict_and: row {:?} differs", first_diff(&buf, &want));
        let twin = tree.clone();
        tree.set_bias(77.0);
        ensure!(first_diff(&twin.predict(&data), &got).is_none(), "a copy changed with its original");
        model.push_tree(twin);
    }
    let got = model.predict(&data);
    for i in 0..all.n {
        ensure!((got[i] as f64 - sum[i]).abs() <= 3e-7 * (ntrees as f64 + 2.0) * mag[i] + 1e-37, "row {}: the model predicts {}, bias and trees add up to {}", i, got[i], sum[i]);
    }
    let mut buf = vec![f32::NAN; all.n];
    model.predict_buf(&data, &mut buf);
    ensure!(first_diff(&buf, &got).is_none(), "predicting into a used buffer: row {:?} differs", first_diff(&buf, &got));
    ctx.nontrivial = reached.len() >= 2 + ntrees;
    Ok(())
}

// ---- C31 ---------------------------------------------------------------------------------------

struct One { leaves: Vec<Vec<usize>>, oob: Vec<(usize, f32)>, tree: Tree }

fn grow(tctx: &mut TreeLearnerContext, ds: &mut Dataset, grads: &[f32], bounds: (f32, f32)) -> One {
    let mut f = Fixed::new(grads.to_vec(), bounds);
    let sc = ds.get_supercats().clone();
    let tree = TreeLearner::new(tctx, ds, sc, &mut f as &mut dyn Objective).train();
    One { leaves: f.leaves, oob: f.oob, tree }
}

fn c31(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let blocky = src.chance(1, 3);
    let (mut cfg, t) = gen_case(src, &Opts { objectives: &["l2"], max_n: 3000, blocky, extremes: 80, balanced: 30, ..Opts::default() });
    if src.chance(1, 2) { cfg.sample_freq = 1; }
    if src.chance(1, 2) { cfg.example_fraction = 1.0; cfg.feature_fraction = 1.0; }
    let rounds = src.range(2, 6);
    let unit = gen_unit(src, &mut cfg);
    ctx.note(|| format!("{:?}", cfg));
    ctx.note(|| t.describe());
    label_case(ctx, &cfg, &t);
    let config = cfg.config();
    let data = t.data(&config);
    let other = gen_other_rows(src, &t, 40);
    let od = other.data(&config);
    let mut ds = Dataset::new(&config, &data);
    let mut tctx = TreeLearnerContext::new(&config, &data);
    let mut hist: Vec<(Vec<f32>, (f32, f32))> = vec![];
    let same = |what: &str, k: usize, a: &One, b: &One| -> CaseResult {
        ensure!(a.leaves.len() == b.leaves.len(), "round {}: {} leaves, {} with {}", k, a.leaves.len(), b.leaves.len(), what);
        for (x, y) in a.leaves.iter().zip(&b.leaves) { ensure!(x == y, "round {}: a leaf of {} rows, with {} it has {} or other rows", k, x.len(), what, y.len()); }
        ensure!(a.oob == b.oob, "round {}: other out-of-bag updates with {}", k, what);
        for d in [&data, &od] {
            let (p, q) = (a.tree.predict(d), b.tree.predict(d));
            ensure!(first_diff(&p, &q).is_none(), "round {}: row {:?} is predicted otherwise with {}", k, first_diff(&p, &q), what);
        }
        Ok(())
    };
    for k in 1..=rounds {
        // gradients come back, too
        let (grads, bounds) = if !hist.is_empty() && src.chance(1, 3) { ctx.label("gradients of an earlier round"); let i = src.range(0, hist.len() - 1); hist[i].clone() } else { gen_grads_in(src, &t, unit) };
        ds.update(&config, &grads, bounds);
        let used = grow(&mut tctx, &mut ds, &grads, bounds);
        ctx.nontrivial |= k > 1 && used.leaves.len() > 1;
        if src.chance(1, 2) {
            let mut fresh = TreeLearnerContext::new(&config, &data);
            same("new working memory", k, &used, &grow(&mut fresh, &mut ds, &grads, bounds))?;
        } else {
            ctx.label("twice");
            same("the same working memory once more", k, &used, &grow(&mut tctx, &mut ds, &grads, bounds))?;
        }
        if !cfg.sampling() && cfg.sample_freq == 1 {
            ctx.label("new data set");
            let mut ds2 = Dataset::new(&config, &data);
            ds2.update(&config, &grads, bounds);
            let mut fresh = TreeLearnerContext::new(&config, &data);
            same("a new data set", k, &used, &grow(&mut fresh, &mut ds2, &grads, bounds))?;
        }
        hist.push((grads, bounds));
    }
    Ok(())
}

// ---- C32 ---------------------------------------------------------------------------------------

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
}

/// Counts what this thread has allocated and not freed.
pub struct Counting;
fn add(n: i64) {
    let _ = LIVE.try_with(|l| { let x = l.get() + n; l.set(x); let _ = PEAK.try_with(|p| if x > p.get() { p.set(x) }); });
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { add(l.size() as i64); unsafe { System.alloc(l) } }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { add(l.size() as i64); unsafe { System.alloc_zeroed(l) } }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { add(-(l.size() as i64)); unsafe { System.dealloc(p, l) } }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { add(n as i64 - l.size() as i64); unsafe { System.realloc(p, l, n) } }
}

/// Notes what is held whenever the booster evaluates it.
struct Held(std::sync::Arc<std::sync::Mutex<Vec<i64>>>);
impl Metric for Held {
    fn name(&self) -> &'static str { "held" }
    fn eval(&self, _: &[f32], _: &[f32]) -> f32 {
        let mut v = self.0.lock().unwrap(); // (room was made beforehand)
        v.push(LIVE.with(|l| l.get()));
        0.0
    }
}

/// A whole run of many iterations: what is held may grow by the trees.
fn c32_booster(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let n = src.range(6000, 20000);
    let (mut cfg, t) = gen_case(src, &Opts { min_n: n, max_n: n, objectives: ALL_OBJ, ..Opts::default() });
    if cfg.objective == "hinge" { cfg.objective = "binary"; }
    cfg.niterations = src.range(50, 80);
    cfg.max_nbins = cfg.max_nbins.min(8);
    cfg.max_tree_depth = cfg.max_tree_depth.min(3);
    let t = Table { n: t.n, cols: t.cols.into_iter().take(2).collect(), target: t.target };
    ctx.note(|| format!("{:?}", cfg));
    ctx.note(|| t.describe());
    label_case(ctx, &cfg, &t);
    ctx.label("whole run");
    let config = cfg.config();
    let pool = rayon::ThreadPoolBuilder::new().num_threads(1).build().map_err(|e| format!("{}", e))?;
    let its = cfg.niterations;
    let (held, trees, distinct_p) = pool.install(|| {
        let data = t.data(&config);
        let mut obj = objective(&config.objective);
        let log = std::sync::Arc::new(std::sync::Mutex::new(Vec::with_capacity(its + 2)));
        let metrics: Vec<Box<dyn Metric>> = vec![Box::new(Held(log.clone()))];
        let start = LIVE.with(|l| l.get());
        let model = Booster::new(&config, &data, obj.as_mut(), &metrics).train();
        let before = LIVE.with(|l| l.get());
        let copy = model.clone();
        let trees = LIVE.with(|l| l.get()) - before;
        drop(copy);
        let v: Vec<i64> = log.lock().unwrap().iter().map(|x| x - start).collect();
        (v, trees, distinct(obj.predictions()))
    });
    ensure!(held.len() == its, "the metric was evaluated {} times in {} iterations", held.len(), its);
    ctx.nontrivial = distinct_p > 1;
    let (mid, last) = (its / 4, its - 1);
    let per_tree = trees / its as i64 * 5 / 4;
    let allowed = held[mid] * 3 / 4 + per_tree * (last - mid) as i64;
    ensure!(held[last] - held[mid] <= allowed, "{} bytes are held after {} iterations, {} after {}; a tree takes {}", held[mid], mid + 1, held[last], its, trees / its as i64);
    // stores and vectors double a few times, but do not grow in most iterations
    let steps = held[mid..].windows(2).filter(|w| w[1] - w[0] > per_tree + 256).count();
    ensure!(steps <= (last - mid) / 2, "what is held grew by more than a tree ({} bytes) in {} of the last {} iterations: {:?}", trees / its as i64, steps, last - mid, &held[mid..]);
    Ok(())
}

fn c32(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    if src.chance(1, 40) { return c32_booster(src, ctx); }
    let blocky = src.chance(1, 2);
    let (mut cfg, t) = gen_case(src, &Opts { objectives: &["l2"], max_n: 3000, blocky, extremes: 150, ..Opts::default() });
    // the same bag and features in every round: as much memory as the round before
    cfg.sample_freq = if src.chance(1, 4) { 0 } else { 1 };
    if cfg.sample_freq == 1 { cfg.example_fraction = 1.0; cfg.feature_fraction = 1.0; }
    ctx.note(|| format!("{:?}", cfg));
    ctx.note(|| t.describe());
    label_case(ctx, &cfg, &t);
    let config = cfg.config();
    let (grads, bounds) = gen_grads(src, &t);
    let rounds = if t.n <= 300 && src.chance(1, 10) { 60 } else { 14 };
    // one worker, so that this thread's balance is the whole balance
    let pool = rayon::ThreadPoolBuilder::new().num_threads(1).build().map_err(|e| format!("{}", e))?;
    let (live, peak, nleafs) = pool.install(|| {
        let data = t.data(&config);
        let mut ds = Dataset::new(&config, &data);
        let mut tctx = TreeLearnerContext::new(&config, &data);
        let mut f = Fixed::new(grads.clone(), bounds);
        f.mean_leaves = true;
        let (mut live, mut peak, mut nleafs) = (Vec::with_capacity(rounds), Vec::with_capacity(rounds), 0);
        for _ in 0..rounds {
            let start = LIVE.with(|l| l.get());
            PEAK.with(|p| p.set(start));
            ds.update(&config, &grads, bounds);
            let sc = ds.get_supercats().clone();
            let tree = TreeLearner::new(&mut tctx, &ds, sc, &mut f as &mut dyn Objective).train();
            nleafs = tree.nleafs();
            drop(tree);
            f.leaves = vec![];
            f.oob = vec![];
            live.push(LIVE.with(|l| l.get()));
            peak.push(PEAK.with(|p| p.get()));
        }
        (live, peak, nleafs)
    });
    ctx.nontrivial = nleafs > 1;
    ctx.note(|| format!("live {:?} peak {:?}", live, peak));
    let (a, b) = (live[rounds / 2], live[rounds - 1]);
    ensure!(b <= a, "growing the same tree again and again: {} bytes are held after round {}, {} after round {}", a, rounds / 2 + 1, b, rounds);
    let pa = peak[..=rounds / 2].iter().max().unwrap();
    let pb = peak[rounds / 2 + 1..].iter().max().unwrap();
    ensure!(pb <= pa, "growing the same tree again and again needs {} bytes in the first {} rounds and {} later", pa, rounds / 2 + 1, pb);
    Ok(())
}

// ---- C33 ---------------------------------------------------------------------------------------

fn depth_of(node: usize) -> usize { (usize::BITS - 1 - (node + 1).leading_zeros()) as usize }

fn c33(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let blocky = src.chance(1, 3);
    let (mut cfg, t) = gen_case(src, &Opts { objectives: &["l2"], max_n: 4000, blocky, extremes: 80, balanced: 30, ..Opts::default() });
    cfg.max_tree_depth = cfg.max_tree_depth.max(2).min(if t.has("lc-chain") { 18 } else { 10 });
    let unit = gen_unit(src, &mut cfg);
    ctx.note(|| format!("{:?}", cfg));
    ctx.note(|| t.describe());
    label_case(ctx, &cfg, &t);
    let (grads, bounds) = gen_grads_in(src, &t, unit);
    let run = |cfg: &Cfg| -> Result<(Shape, Tree), String> {
        let config = cfg.config();
        let data = t.data(&config);
        let mut ds = Dataset::new(&config, &data);
        ds.update(&config, &grads, bounds);
        let mut tctx = TreeLearnerContext::new(&config, &data);
        let one = grow(&mut tctx, &mut ds, &grads, bounds);
        let s = shape(&one.tree, &one.leaves)?;
        Ok((s, one.tree))
    };
    let (big, big_tree) = run(&cfg)?;
    ctx.nontrivial = big.internal.len() >= 2;
    let inner: std::collections::HashSet<usize> = big.internal.iter().cloned().collect();
    // the smaller tree's nodes hold the rows of the same nodes of the bigger one
    let contained = |small: &Shape, what: &str| -> CaseResult {
        for (node, rows) in &small.rows {
            ensure!(big.rows.get(node) == Some(rows), "node {} holds {} rows {}, {:?} otherwise", node, rows.len(), what, big.rows.get(node).map(|r| r.len()));
        }
        for n in &small.internal { ensure!(inner.contains(n), "node {} is split only {}", n, what); }
        Ok(())
    };
    // less depth
    let mut c = cfg.clone();
    c.max_tree_depth = src.range(1, cfg.max_tree_depth - 1);
    let (small, _) = run(&c)?;
    let what = format!("with max_tree_depth {} instead of {}", c.max_tree_depth, cfg.max_tree_depth);
    contained(&small, &what)?;
    for &n in &big.internal {
        ensure!(depth_of(n) >= c.max_tree_depth || small.internal.contains(&n), "node {} at depth {} is not split {}", n, depth_of(n), what);
    }
    // more gain asked for
    let mut c = cfg.clone();
    let u2 = unit * unit;
    c.min_gain = match src.draw(3) { 0 => cfg.min_gain * 2.0 + 1e-3 * u2, 1 => cfg.min_gain + u2, 2 => cfg.min_gain + 20.0 * u2, _ => cfg.min_gain + src.unit() as f32 * u2 };
    let (small, _) = run(&c)?;
    contained(&small, &format!("with min_gain {} instead of {}", c.min_gain, cfg.min_gain))?;
    ctx.label_if(small.internal.len() < big.internal.len() && !small.internal.is_empty(), "pruned in part by min_gain");
    // a bound that is out of reach: no split at all
    if src.chance(1, 4) {
        let mut c = cfg.clone();
        if src.chance(1, 2) { c.min_gain = f32::MAX; } else { c.min_examples_leaf = (t.n / 2 + 1) as u32; }
        let (none, tree) = run(&c)?;
        ensure!(none.internal.is_empty() && tree.nnodes() == 1, "{} splits with min_gain {} and min_examples_leaf {} of {} rows", none.internal.len(), c.min_gain, c.min_examples_leaf, t.n);
    }
    let _ = big_tree;
    let _ = FeatType::Numerical;
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C30", run: c30, quick: 900000, thorough: 24000000,
            rule: "1-4 trees built node by node at random (three kinds of tests, depths 1-5, rarely 12, group tables shorter than the categories, values, biases, shrinkage), predicted on random rows with unknown categories; leaves and sums from a reference walk, all entry points. Non-trivial: rows reach at least two leaves more than there are trees.",
            assumptions: &["group thresholds below the length of the group table, as training makes them"] },
        Prop { id: "C31", run: c31, quick: 60000, thorough: 1200000,
            rule: "random table and configuration, 2-6 rounds of random or recurring gradients; the tree grown with used working memory and data set against new ones, leaf by leaf. Non-trivial: a tree with more than one leaf after the first round.",
            assumptions: &["a new data set is compared without sampling only (its random numbers start anew)"] },
        Prop { id: "C32", run: c32, quick: 30000, thorough: 1200000,
            rule: "random table, configuration and gradients; the same tree grown 14 (or 60) times over; bytes held and peak of the second half against the first, from a counting allocator; one case in 40 a whole boosting run of 50-80 iterations on 6000-20000 rows, where after the first quarter what is held may grow by the trees and at most three quarters, and by more than a tree in at most half of the iterations. Non-trivial: the tree has more than one leaf.",
            assumptions: &["one worker thread while counting"] },
        Prop { id: "C33", run: c33, quick: 120000, thorough: 2400000,
            rule: "random table, configuration and gradients; the tree of a smaller max_tree_depth or larger min_gain must be the bigger tree cut off. Non-trivial: at least two split nodes.",
            assumptions: &[] },
    ]
}
