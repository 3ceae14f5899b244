//! C24: the C interface against a reference state machine built on the library.
#[path = "../gen.rs"] mod gen;
#[path = "../train.rs"] mod train;

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::ffi::CString;
use std::ptr::null_mut;

use bitboost::boost::Booster;
use bitboost::c_api::*;
use bitboost::config::Config;
use bitboost::data::Data;
use bitboost::metric::metrics_from_names;
use bitboost::objective::objective_from_name;
use bitboost::tree::AdditiveTree;
use libc::{c_int, c_void};

use gen::*;
use vengine::*;

// ---- net number of bytes allocated by this thread -------------------------------------------------

struct Counting;
thread_local! { static NET: Cell<i64> = const { Cell::new(0) }; }
fn add(n: i64) { let _ = NET.try_with(|c| c.set(c.get() + n)); }
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { add(l.size() as i64); System.alloc(l) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { add(l.size() as i64); System.alloc_zeroed(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { add(-(l.size() as i64)); System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { add(n as i64 - l.size() as i64); System.realloc(p, l, n) }
}
#[global_allocator]
static ALLOC: Counting = Counting;

fn main() {
    vengine::main_with(&[Prop { id: "C24", run: c24, quick: 30000, thorough: 500000,
        rule: "a model is trained and predicts at least two different values, and at least one call fails",
        assumptions: &["pointers are null or valid; finite columns; the library itself (data container, booster) is the reference for data and models",
            "leaks are judged by the net bytes allocated by the calling thread over three repetitions"] }])
}

#[derive(Clone, Debug)]
enum Op {
    Alloc(c_int),
    Dealloc(usize),
    Refresh(usize, c_int),
    Column(usize, c_int, Vec<f32>, c_int),
    Field(usize, Vec<u8>, Vec<u8>),
    Train(usize),
    Predict(usize),
    NullCalls,
}

/// What a context should hold.
struct Model { config: Config, fields: Vec<(String, String)>, nf: usize, data: Option<Data>, n: usize, model: Option<AdditiveTree>, ptr: *mut c_void }

fn field(src: &mut Src) -> (Vec<u8>, Vec<u8>) {
    let o = Opts { max_iter: 3, ..Opts::default() };
    let cfg = gen_cfg(src, &o);
    let lines = cfg.lines();
    let (k, v) = src.pick(&lines).clone();
    match src.weighted(&[70, 6, 6, 6, 4, 4, 4, 3, 6]) {
        0 => (k.as_bytes().to_vec(), v.into_bytes()),
        1 => (b"no_such_field".to_vec(), v.into_bytes()),
        2 => (if src.chance(1, 3) { b"niterations".to_vec() } else { k.as_bytes().to_vec() }, src.pick(&["??", "", "1x", "-", "1,2", " "]).as_bytes().to_vec()),
        3 => (b"metrics".to_vec(), src.pick(&["l2", "rmse,binary_error", "l2,nonsense", ""]).as_bytes().to_vec()),
        4 => (b"objective".to_vec(), b"nonsense".to_vec()),
        5 => (vec![0xff, 0xfe, b'a'], v.into_bytes()),
        6 => (k.as_bytes().to_vec(), vec![b'1', 0xc3]),
        8 => { // blanks and the like around, which are not part of the field
            let extra = *src.pick(&[" ", "\t", "\n", ";", ",", "="]);
            let around = |src: &mut Src, s: &str| if src.chance(1, 2) { format!("{}{}", extra, s) } else { format!("{}{}", s, extra) };
            if src.chance(1, 2) { let a = around(src, k); (a.into_bytes(), v.into_bytes()) } else { let b = around(src, &v); (k.as_bytes().to_vec(), b.into_bytes()) }
        }
        _ => (b"metric_frequency".to_vec(), src.range(0, 3).to_string().into_bytes()),
    }
}

fn column(src: &mut Src, n: usize, target: bool, binary: bool) -> (Vec<f32>, bool) {
    let o = Opts { degenerate: src.chance(1, 6), ..Opts::default() };
    if target {
        let c = gen_col(src, n, 16, &o);
        let t = gen_target(src, n, &[c], binary, &o);
        return (t, src.chance(1, 12));
    }
    let mut c = gen_col(src, n, 16, &o);
    if src.chance(1, 10) { let i = src.range(0, n - 1); c.vals[i] = *src.pick(&[-1.0f32, 0.5, f32::INFINITY, f32::NAN]); c.cat = true; }
    (c.vals, c.cat)
}

/// Any int but zero is true.
fn flag(src: &mut Src, cat: bool) -> c_int {
    if cat && src.chance(1, 8) { *src.pick(&[-1, 2, 256, c_int::MIN, 65536]) } else { cat as c_int }
}

fn gen_op(src: &mut Src, ms: &[Option<Model>]) -> Op {
    let live: Vec<usize> = (0..ms.len()).filter(|&i| ms[i].is_some()).collect();
    if live.is_empty() || (live.len() < 3 && src.chance(1, 14)) {
        return Op::Alloc(if src.chance(1, 10) { -(src.range(0, 3) as c_int) } else { src.range(1, 4) as c_int });
    }
    let c = *src.pick(&live);
    let m = ms[c].as_ref().unwrap();
    // mostly the next useful call, sometimes any call
    let has_data = m.data.is_some();
    let w: [u32; 7] = if !has_data { [2, 34, 6, 40, 4, 4, 1] } else if m.model.is_none() { [2, 6, 52, 6, 24, 4, 1] } else { [3, 10, 24, 4, 14, 30, 1] };
    match src.weighted(&w) {
        0 => Op::Dealloc(c),
        1 => Op::Refresh(c, match src.weighted(&[800, 100, 100, 20, 1]) { 0 => src.range(1, 120) as c_int, 1 => src.range(1, 3) as c_int, 2 => -(src.range(0, 2) as c_int), 3 => src.range(120, 5000) as c_int, _ => src.range(65500, 66000) as c_int }),
        2 => {
            let id = match src.weighted(&[60, 30, 10]) { 0 => src.range(0, m.nf - 1) as c_int, 1 => m.nf as c_int, _ => *src.pick(&[-1, -2, m.nf as c_int + 1, m.nf as c_int + 7, c_int::MAX, c_int::MIN]) };
            let n = if has_data { m.n } else { 1 };
            let (v, cat) = column(src, n, id == m.nf as c_int, is_binary(&m.config.objective));
            let cat = flag(src, cat);
            Op::Column(c, id, v, cat)
        }
        3 => { let (a, b) = field(src); Op::Field(c, a, b) }
        4 => Op::Train(c),
        5 => Op::Predict(c),
        _ => Op::NullCalls,
    }
}

/// The C call itself. Returns the code and, for predictions, the buffer.
fn call(op: &Op, ptrs: &mut Vec<*mut c_void>, ns: &mut Vec<usize>) -> (c_int, Vec<f32>) {
    const GUARD: f32 = -12345.5;
    match *op {
        Op::Alloc(nf) => { let p = bb_alloc(nf); if !p.is_null() { ptrs.push(p); ns.push(0); } ((!p.is_null()) as c_int, vec![]) }
        Op::Dealloc(c) => { let p = ptrs[c]; ptrs[c] = null_mut(); (bb_dealloc(p), vec![]) }
        Op::Refresh(c, n) => { let r = bb_refresh_data(ptrs[c], n); if r == 0 { ns[c] = n as usize; } (r, vec![]) }
        Op::Column(c, id, ref v, cat) => {
            let mut v = v.clone();
            let r = bb_set_feature_data(ptrs[c], id, v.as_ptr(), cat);
            v.iter_mut().for_each(|x| *x = GUARD); // the caller's column is the caller's again
            (r, vec![])
        }
        Op::Field(c, ref a, ref b) => {
            let (a, b) = (CString::new(a.clone()).unwrap(), CString::new(b.clone()).unwrap());
            (bb_set_config_field(ptrs[c], a.as_ptr(), b.as_ptr()), vec![])
        }
        Op::Train(c) => (bb_train(ptrs[c]), vec![]),
        Op::Predict(c) => {
            let mut out = vec![GUARD; ns[c] + 4];
            let r = bb_predict(ptrs[c], out.as_mut_ptr());
            (r, out)
        }
        Op::NullCalls => {
            let (x, s) = ([0f32; 4], CString::new("niterations").unwrap());
            let v = CString::new("3").unwrap();
            let mut o = [0f32; 4];
            let n = null_mut();
            let rs = [bb_dealloc(n), bb_refresh_data(n, 3), bb_set_feature_data(n, 0, x.as_ptr(), 0), bb_set_config_field(n, s.as_ptr(), v.as_ptr()),
                      bb_train(n), bb_predict(n, o.as_mut_ptr())];
            (if rs.iter().all(|&r| r == -1) { -1 } else { 0 }, vec![])
        }
    }
}

/// Run all calls once more, releasing everything at the end: net bytes that stay allocated.
fn leak(ops: &[Op]) -> i64 {
    let (mut ptrs, mut ns) = (Vec::with_capacity(64), Vec::with_capacity(64));
    last_panic();
    let before = NET.with(|c| c.get());
    for op in ops { let out = call(op, &mut ptrs, &mut ns); drop(out); }
    for &p in &ptrs { if !p.is_null() { bb_dealloc(p); } }
    last_panic();
    NET.with(|c| c.get()) - before
}

fn c24(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let nops = src.range(4, 45);
    let mut ms: Vec<Option<Model>> = vec![];
    let (mut ptrs, mut ns): (Vec<*mut c_void>, Vec<usize>) = (vec![], vec![]);
    let mut ops: Vec<Op> = vec![];
    let (mut failed, mut varied) = (0, false);
    let (mut retrain, mut refused) = (false, 0);
    ensure!(bb_get_numt_nbytes() == 4, "numbers of {} bytes", bb_get_numt_nbytes());
    let mut pending: Vec<Op> = vec![]; // calls to come, last first
    let mut run = || -> CaseResult {
        for k in 0..nops {
            let op = if let Some(op) = pending.pop() { op } else { gen_op(src, &ms) };
            ops.push(op.clone());
            let (code, out) = call(&op, &mut ptrs, &mut ns);
            if code == -1 { failed += 1; }
            let expect = |want: c_int| -> CaseResult {
                ensure!(code == want, "call {} ({}) returned {} instead of {}", k, short(&op), code, want);
                Ok(())
            };
            match op {
                Op::Alloc(nf) => {
                    expect((nf > 0) as c_int)?;
                    if nf > 0 { ms.push(Some(Model { config: Config::new(), fields: vec![], nf: nf as usize, data: None, n: 0, model: None, ptr: *ptrs.last().unwrap() })); }
                    let p = ptrs.last().cloned().unwrap_or(null_mut());
                    if nf > 0 && src.chance(29, 30) { pending.push(Op::Field(ms.len() - 1, b"niterations".to_vec(), src.range(0, 3).to_string().into_bytes())); }
                    if nf > 0 { ensure!(ms.iter().flatten().filter(|m| m.ptr == p).count() == 1, "call {}: two contexts at the same address", k); }
                }
                Op::Dealloc(c) => { expect(0)?; ms[c] = None; }
                Op::Refresh(c, n) => {
                    expect(if n > 0 { 0 } else { -1 })?;
                    let m = ms[c].as_mut().unwrap();
                    if n > 0 { m.data = Some(Data::empty(&m.config, m.nf, n as usize)); m.n = n as usize; }
                    if n > 0 && src.chance(2, 3) {
                        // the ordinary use
                        if src.chance(2, 3) { pending.push(Op::Predict(c)); }
                        if m.model.is_none() || src.chance(1, 3) { pending.push(Op::Train(c)); }
                        let skip = if src.chance(1, 4) { src.range(0, m.nf) } else { m.nf + 1 };
                        for f in 0..m.nf + 1 {
                            if f == skip { continue; }
                            let (v, cat) = column(src, m.n, f == m.nf, is_binary(&m.config.objective));
                            let cat = flag(src, cat);
                            pending.push(Op::Column(c, f as c_int, v, cat));
                        }
                    }
                }
                Op::Column(c, id, ref v, cat) => {
                    let cat = cat != 0;
                    let m = ms[c].as_mut().unwrap();
                    let nf = m.nf;
                    let good_id = id >= 0 && id as usize <= nf;
                    let want = match m.data {
                        Some(ref mut d) if good_id => if !cat || v.iter().all(|x| x.is_finite() && *x >= 0.0 && x.fract() == 0.0) {
                            d.set_feature_data(id as usize, v, cat).map_err(|e| format!("library rejects the column: {:?}", e))?;
                            0
                        } else { -1 },
                        _ => -1,
                    };
                    expect(want)?;
                }
                Op::Field(c, ref a, ref b) => {
                    let m = ms[c].as_mut().unwrap();
                    let want = match (m.data.is_some(), std::str::from_utf8(a), std::str::from_utf8(b)) {
                        (false, Ok(a), Ok(b)) => {
                            // (a configuration of its own: that of the context must be as if a refused field had not been named)
                            let mut probe = Config::new();
                            for (x, y) in &m.fields { probe.parse_record(x, y)?; }
                            if probe.parse_record(a, b).is_ok() { m.fields.push((a.to_string(), b.to_string())); m.config = probe; 0 } else { -1 }
                        }
                        _ => -1,
                    };
                    expect(want)?;
                }
                Op::Train(c) => {
                    let m = ms[c].as_mut().unwrap();
                    let trained = match (m.data.as_ref(), objective_from_name(&m.config.objective), metrics_from_names(&m.config.metrics)) {
                        (Some(d), Some(mut o), Some(me)) => guarded(|| Booster::new(&m.config, d, o.as_mut(), &me).train()).ok(),
                        _ => None,
                    };
                    expect(if trained.is_some() { 0 } else { -1 })?;
                    let good = trained.is_some();
                    if good { m.model = trained; }
                    // a training that fails afterwards must leave the model as it is
                    if good && src.chance(1, 6) {
                        let (n, nf) = (m.n, m.nf as c_int);
                        let mut v: Vec<f32> = m.data.as_ref().unwrap().get_target().to_vec();
                        match src.draw(2) {
                            0 => v.iter_mut().for_each(|x| *x = f32::INFINITY),
                            1 => { let i = src.range(0, n - 1); v[i] = f32::NAN; }
                            _ => { for (i, x) in v.iter_mut().enumerate() { *x = if i % 2 == 0 { 3e38 } else { -3e38 }; } }
                        }
                        pending.push(Op::Predict(c));
                        pending.push(Op::Train(c));
                        pending.push(Op::Column(c, nf, v, 0));
                        retrain = true;
                    }
                    if !good && m.model.is_some() { refused += 1; }
                }
                Op::Predict(c) => {
                    let m = ms[c].as_ref().unwrap();
                    match (m.data.as_ref(), m.model.as_ref()) {
                        (Some(d), Some(t)) => {
                            // (numbers that are no categories are a programming error under a categorical split)
                            let p = match guarded(|| t.predict(d)) { Ok(p) => p, Err(_) => { ctx.label("prediction of invalid categories"); expect(-1)?; continue; } };
                            expect(0)?;
                            ensure!(out[m.n..].iter().all(|&x| x == -12345.5), "call {}: predict wrote beyond the {} rows", k, m.n);
                            for i in 0..m.n {
                                ensure!(out[i].to_bits() == p[i].to_bits(), "call {}: prediction {} of {} is {}, the library's is {}", k, i, m.n, out[i], p[i]);
                            }
                            varied |= p.iter().any(|&x| x != p[0]);
                        }
                        _ => expect(-1)?,
                    }
                }
                Op::NullCalls => expect(-1)?,
            }
        }
        Ok(())
    };
    let r = run();
    for (c, m) in ms.iter().enumerate() { if m.is_some() { let code = bb_dealloc(ptrs[c]); if r.is_ok() { ensure!(code == 0, "the final release of context {} returned {}", c, code); } } }
    drop(ms);
    ctx.note(|| ops.iter().map(short).collect::<Vec<_>>().join(" "));
    r?;
    let nets: Vec<i64> = { let mut v = vec![]; for _ in 0..3 { let n = leak(&ops); v.push(n); if n <= 0 { break; } } v };
    ensure!(nets.len() < 3 || nets.iter().any(|&n| n <= 0), "memory stays allocated after the release of all contexts: {:?} bytes in three repetitions", nets);
    ctx.label_if(ptrs.len() >= 2, "several contexts");
    ctx.label_if(varied, "varied predictions");
    ctx.label_if(retrain, "training on a bad target after a good one");
    ctx.count("failed trainings of a context with a model", refused);
    ctx.count("failed calls", failed);
    ctx.count("calls", ops.len() as u64);
    ctx.nontrivial = varied && failed > 0;
    Ok(())
}

fn short(op: &Op) -> String {
    match *op {
        Op::Column(c, id, ref v, cat) => format!("column({},{},{}[{}])", c, id, if cat != 0 { "cat" } else { "num" }, preview(v, 6)),
        Op::Field(c, ref a, ref b) => format!("field({},{:?}={:?})", c, String::from_utf8_lossy(a), String::from_utf8_lossy(b)),
        ref o => format!("{:?}", o),
    }
}
