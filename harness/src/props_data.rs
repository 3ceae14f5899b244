//! C22, C25: loading CSV text, filling a container column by column.
use bitboost::config::Config;
use bitboost::data::{Data, FeatType};

use crate::gen::*;
use crate::train::*;
use vengine::*;

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C22", run: c22, quick: 900000, thorough: 8000000,
            rule: "text with at least two records and two columns that loads, or text spoiled in one place that is rejected",
            assumptions: &["categories up to a million, finite numbers", "texts with quotes outside the generated quoting, or with a byte order mark, only have to be free of panics and give a consistent table"] },
        Prop { id: "C25", run: c25, quick: 90000, thorough: 1000000,
            rule: "at least one column assigned twice or rejected, and a trained model that predicts at least two values",
            assumptions: &["numbers are written so that they read back exactly"] },
    ]
}

fn eq(a: f32, b: f32) -> bool { a.to_bits() == b.to_bits() || (a == 0.0 && b == 0.0) }

/// Everything observable of a container against the columns it must hold.
fn check_table(d: &Data, cols: &[Vec<f32>], cats: &[bool], max_nbins: usize) -> CaseResult {
    let n = cols[0].len();
    ensure!(d.nfeatures() == cols.len() - 1 && d.target_id() == cols.len() - 1, "{} features and target {} for {} columns", d.nfeatures(), d.target_id(), cols.len());
    ensure!(d.nexamples() == n, "{} examples of {}", d.nexamples(), n);
    for j in 0..cols.len() {
        let got = d.get_feature(j);
        ensure!(got.len() == n, "column {} has {} values of {}", j, got.len(), n);
        for i in 0..n { ensure!(eq(got[i], cols[j][i]), "row {} column {}: {:?} instead of {:?}", i, j, got[i], cols[j][i]); }
        let lo = cols[j].iter().cloned().fold(f32::INFINITY, f32::min);
        let hi = cols[j].iter().cloned().fold(f32::NEG_INFINITY, f32::max);
        let l = d.feat_limits(j);
        ensure!(eq(l.0, lo) && eq(l.1, hi), "column {}: limits {:?} instead of {:?}", j, l, (lo, hi));
        let (ty, card, nb) = if cats[j] {
            let card = hi as usize + 1;
            if card > max_nbins { (FeatType::HiCardCat, card, max_nbins) } else { (FeatType::LoCardCat, card, match card { 1 => 0, 2 => 1, k => k }) }
        } else { (FeatType::Numerical, 0, max_nbins) };
        ensure!(d.feat_type(j) == ty, "column {}: type {:?} instead of {:?} (cardinality {}, max_nbins {})", j, d.feat_type(j), ty, card, max_nbins);
        ensure!(d.feat_card(j) == card, "column {}: cardinality {} instead of {}", j, d.feat_card(j), card);
        ensure!(d.max_nbins(j) == nb, "column {}: at most {} bins instead of {}", j, d.max_nbins(j), nb);
    }
    ensure!(d.get_target().len() == n && (0..n).all(|i| eq(d.get_target()[i], cols[cols.len() - 1][i])), "the target is not the last column");
    Ok(())
}

fn number(r: &mut Rng, cat: bool, big: bool, top: u64) -> String {
    if cat {
        let c = if big && r.chance(0.1) { r.below(1_000_001) } else { r.below(top) };
        return match r.below(12) { 0 => format!("{}.0", c), 1 => format!("+{}", c), 2 => format!("00{}", c), 3 => format!("{}e0", c), 4 => format!("{}.", c), _ => format!("{}", c) };
    }
    match r.below(12) {
        0 => format!("{}", r.below(100)), 1 => format!("-{}", r.below(1000)), 2 => format!("{:e}", r.normal() * 1e-5), 3 => format!("{:.3}", r.normal()),
        4 => format!("{}e{}", r.below(9) + 1, r.below(60) as i64 - 30), 5 => format!(".{}", r.below(100)), 6 => format!("{}.", r.below(100)),
        7 => format!("+{:.2}", r.unit()), 8 => ["0", "-0", "0.0", "1e-50"][r.below(4) as usize].to_string(),
        9 => format!("{}", f32::from_bits(r.next() as u32 & 0x7e7f_ffff)), _ => format!("{}", r.normal() as f32),
    }
}

/// Reference reading of text without quotes: Ok(names, columns as texts) or Err.
fn read_plain(text: &str, delim: char, header: bool) -> Result<(Option<Vec<String>>, Vec<Vec<String>>), &'static str> {
    let rows: Vec<Vec<String>> = text.split(|c| c == '\n' || c == '\r').filter(|l| !l.is_empty())
        .map(|l| l.split(delim).map(|s| s.to_string()).collect()).collect();
    table(rows, header)
}

fn table(mut rows: Vec<Vec<String>>, header: bool) -> Result<(Option<Vec<String>>, Vec<Vec<String>>), &'static str> {
    if let Some(r0) = rows.first() { let k = r0.len(); if rows.iter().any(|r| r.len() != k) { return Err("ragged"); } }
    let names = if header && !rows.is_empty() { Some(rows.remove(0)) } else { None };
    if rows.is_empty() { return Err("no records"); }
    Ok((names, rows))
}

/// What the loader must make of plain text. None: not decided (huge categories, infinities).
fn reference(table: Result<(Option<Vec<String>>, Vec<Vec<String>>), &'static str>, cats: &[usize]) -> Option<Result<(Option<Vec<String>>, Vec<Vec<f32>>, Vec<bool>), String>> {
    let (names, rows) = match table { Ok(x) => x, Err(e) => return Some(Err(e.into())) };
    let k = rows[0].len();
    let cat: Vec<bool> = (0..k).map(|j| cats.contains(&j)).collect();
    let mut cols: Vec<Vec<f32>> = vec![vec![]; k];
    let mut undecided = false;
    for r in &rows {
        for j in 0..k {
            match r[j].parse::<f32>() {
                Err(_) => return Some(Err(format!("{:?} is not a number", r[j]))),
                Ok(x) => {
                    if cat[j] {
                        if !(x >= 0.0) || x.is_infinite() || x.fract() != 0.0 { return Some(Err(format!("{:?} is not a category", r[j]))); }
                        if x > 1.0e6 { undecided = true; }
                    } else if !x.is_finite() { undecided = true; }
                    cols[j].push(x);
                }
            }
        }
    }
    if undecided { return None; }
    Some(Ok((names, cols, cat)))
}

fn c22(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let mut config = Config::new();
    config.csv_has_header = src.chance(1, 2);
    config.csv_delimiter = *src.pick(&[b',', b';', b'\t', b'|', b' ', b':', b'/', b'#', b'@', 1, b'~']);
    config.max_nbins = *src.pick(&[16usize, 1, 2, 3, 29, 30, 31, 255, 256, 257, 300, 1000, 65536, 70000]);
    let (wide, long) = (src.chance(1, 3000), src.chance(1, 20000));
    let ncols = if wide { src.range(200, 700) } else if long { src.range(1, 3) } else { src.range(1, 7) };
    let nrows = if long { src.range(65000, 90000) / (if wide { 100 } else { 1 }) } else { match src.weighted(&[5, 55, 40]) { 0 => 0, 1 => src.range(1, 5), _ => src.range(3, 40) } };
    ctx.label_if(wide, "more than 200 columns");
    ctx.label_if(long, "more than 65000 records");
    let ncat = src.range(0, 3);
    let far = src.chance(1, 8);
    config.categorical_features = (0..ncat).map(|_| src.range(0, if far { ncols + 3 } else { ncols - 1 })).collect();
    let eol = *src.pick(&["\n", "\r\n", "\n", "\r"]);
    let quotes = src.chance(1, 5);
    let end = src.draw(3);
    let mode = src.weighted(&[45, 30, 15, 10]); // as is, one spoiled field, mutated bytes, arbitrary bytes
    let big = src.chance(1, 6);
    // categories below 30, or about as many as there are bins
    let top = if src.chance(1, 4) { config.max_nbins as u64 + src.draw(2) } else { 30 };
    let near = top != 30 && src.chance(1, 2);
    let mut r = src.sub();
    let d = config.csv_delimiter as char;
    let cats = config.categorical_features.clone();
    let mut names: Vec<String> = (0..ncols).map(|j| match r.below(7) {
        0 => String::new(), 1 => format!("{}", j), 2 => "x".into(),
        3 => { // any text
            let n = r.below(6);
            (0..n).map(|_| ['#', ' ', '\t', ';', ',', '|', ':', '/', '\\', '\'', '%', '&', '!', '-', '.', '0', '7', 'e', 'A', 'z', '_', '=', '(', '\u{e9}', '\u{4e2d}', '\u{1f333}', '\u{a0}', '\u{200b}', '\u{1}', '\u{0}', '\u{85}', '\u{2028}'][r.below(32) as usize]).filter(|&c| c != d).collect()
        }
        _ => format!("col{}", j) }).collect();
    if names.iter().all(|n| n.is_empty()) { names[0] = "a".into(); } // (a line of nothing is no line)
    let mut cells: Vec<Vec<String>> = (0..nrows).map(|_| (0..ncols).map(|j| number(&mut r, cats.contains(&j), big, top)).collect()).collect();
    if near && nrows > 0 { // (the highest category there is)
        for j in 0..ncols { if cats.contains(&j) { let i = r.below(nrows as u64) as usize; cells[i][j] = format!("{}", top - 1); } }
    }
    let mut spoiled = "";
    if mode == 1 && nrows > 0 {
        let i = r.below(nrows as u64) as usize;
        let j = r.below(ncols as u64) as usize;
        match r.below(9) {
            0 => { cells[i].push("1".into()); spoiled = "long row"; }
            1 if ncols > 1 => { cells[i].pop(); spoiled = "short row"; }
            2 => { cells[i][j] = ["abc", "", "1,5x", "0x10", "1 ", " 1", "--1", "1e", "NA", "\u{662}"][r.below(10) as usize].replace(d, ""); spoiled = "no number"; }
            3 => { cells[i][j] = ["-1", "-1.0", "-0.5", "0.5", "2.25", "1e-3", "-3e2"][r.below(7) as usize].to_string(); spoiled = "no category"; }
            4 => { cells[i][j] = ["inf", "-inf", "NaN", "1e60", "infinity", "nan"][r.below(6) as usize].to_string(); spoiled = "not finite"; }
            5 => { names.push("more".into()); spoiled = "long header"; }
            6 | 7 => { // one more character, mostly at an end
                let x = &mut cells[i][j];
                let at = match r.below(3) { 0 => 0, 1 => x.len(), _ => r.below(x.len() as u64 + 1) as usize };
                let c = (32 + r.below(95)) as u8 as char;
                if c != d && c != '"' { x.insert(at, c); spoiled = "another character"; }
            }
            _ => { let x = cells[i][j].clone(); cells[i][j] = format!("{}{}", x, ["a", "-", "..", " "][r.below(4) as usize].replace(d, "_")); spoiled = "suffix"; }
        }
    }
    if quotes && config.csv_has_header && r.chance(0.4) { // names that need their quotes
        let j = r.below(names.len() as u64) as usize;
        let k = 1 + r.below(3);
        for _ in 0..k {
            let at = names[j].char_indices().map(|x| x.0).nth(r.below(names[j].chars().count() as u64 + 1) as usize).unwrap_or(names[j].len());
            names[j].insert(at, ['"', '"', d, '\n', '\r', '\\', ' '][r.below(7) as usize]);
        }
    }
    let q = |r: &mut Rng, s: &str| -> String {
        if s.contains(|c| c == '"' || c == '\n' || c == '\r' || c == d) || quotes && r.chance(0.3) { format!("\"{}\"", s.replace('"', "\"\"")) } else { s.to_string() }
    };
    let mut lines: Vec<String> = vec![];
    if config.csv_has_header { lines.push(names.iter().map(|s| q(&mut r, s)).collect::<Vec<_>>().join(&d.to_string())); }
    for row in &cells { lines.push(row.iter().map(|s| q(&mut r, s)).collect::<Vec<_>>().join(&d.to_string())); }
    let mut rows: Vec<Vec<String>> = vec![];
    if config.csv_has_header { rows.push(names.clone()); }
    rows.extend(cells.iter().cloned());
    let mut text = lines.join(eol);
    match end { 0 | 1 => text.push_str(eol), 2 => { text.push_str(eol); text.push_str(eol); } _ => {} }
    if r.chance(0.1) && !names.iter().any(|n| n.contains(|c| c == '\n' || c == '\r')) { let k = text.find(eol); if let Some(k) = k { text.insert_str(k, eol); } } // an empty line
    let mut bytes = text.into_bytes();
    if mode == 2 {
        for _ in 0..1 + r.below(4) {
            let k = r.below(bytes.len() as u64 + 1) as usize;
            let b = [b',', b'\n', b'\r', b'0', b'9', b'-', b'.', b'e', b'x', b' ', b'"', 0, 0xff, 0xc3, config.csv_delimiter][r.below(15) as usize];
            match r.below(3) { 0 => bytes.insert(k, b), 1 => { if k < bytes.len() { bytes[k] = b; } } _ => { if k < bytes.len() { bytes.remove(k); } } }
        }
    } else if mode == 3 {
        let n = r.below(60);
        let any = r.chance(0.3);
        if any { config.csv_delimiter = r.below(256) as u8; }
        bytes = (0..n).map(|_| if any { r.below(256) as u8 } else { b"0123456789.-+eE,;\n\r\t |\"infaN"[r.below(28) as usize] }).collect();
    }
    ctx.note(|| format!("header={} delimiter={:?} categorical={:?} max_nbins={} text {:?}", config.csv_has_header, config.csv_delimiter as char, cats, config.max_nbins, String::from_utf8_lossy(&bytes)));
    ctx.label(["as is", "spoiled field", "mutated bytes", "arbitrary bytes"][mode]);
    if !spoiled.is_empty() { ctx.label(spoiled); }

    // through one of the entry points
    let entry = match src.draw(59) { 0 => 0, 1..=6 => 9, _ => 1 };
    let utf8 = std::str::from_utf8(&bytes).ok().map(|s| s.to_string());
    let loaded = match (&utf8, entry) {
        (_, 0) => {
            let dir = scratch();
            let path = dir.join("t.csv");
            std::fs::write(&path, &bytes).map_err(|e| e.to_string())?;
            let d = Data::from_csv_path(&config, &path);
            let missing = Data::from_csv_path(&config, dir.join("missing.csv"));
            let folder = Data::from_csv_path(&config, &dir);
            let _ = std::fs::remove_dir_all(&dir);
            ensure!(missing.is_err() && folder.is_err(), "a missing file or a directory was loaded");
            ctx.label("from_csv_path");
            d
        }
        (Some(s), 1..=6) => Data::from_csv(&config, s),
        _ => { ctx.label("from_csv_reader"); Data::from_csv_reader(&config, Trickle { data: &bytes, at: 0 }) }
    };
    let text = match utf8 {
        None => { ensure!(loaded.is_err(), "text that is not UTF-8 was loaded"); return Ok(()); }
        Some(t) => t,
    };
    let delim_ok = config.csv_delimiter < 128 && ![b'"', b'\n', b'\r'].contains(&config.csv_delimiter);
    let decided = if !delim_ok || text.starts_with('\u{feff}') { None }
        else if !text.contains('"') { reference(read_plain(&text, config.csv_delimiter as char, config.csv_has_header), &cats) }
        else if mode < 2 && quotes && !rows.iter().any(|r| r.len() == 1 && r[0].is_empty()) { reference(table(rows, config.csv_has_header), &cats) }
        else { None };
    match (decided, loaded) {
        (Some(Ok((names, cols, cat))), got) => {
            let data = match got { Ok(d) => d, Err(e) => return Err(format!("well-formed text was rejected: {}", e)) };
            check_table(&data, &cols, &cat, config.max_nbins)?;
            for j in 0..cols.len() {
                let want = names.as_ref().map(|n| n[j].as_str()).unwrap_or("");
                ensure!(data.feat_name(j) == want, "column {} is called {:?} instead of {:?}", j, data.feat_name(j), want);
            }
            ctx.nontrivial = cols.len() >= 2 && cols[0].len() >= 2;
            ctx.label("loaded");
        }
        (Some(Err(why)), got) => {
            ensure!(got.is_err(), "malformed text ({}) was loaded", why);
            ctx.nontrivial = mode == 1;
            ctx.label("rejected");
        }
        (None, Ok(data)) => {
            // at least a consistent table
            let k = data.nfeatures() + 1;
            ensure!(data.nexamples() > 0, "a table without rows was loaded");
            for j in 0..k { ensure!(data.get_feature(j).len() == data.nexamples(), "column {} has {} values of {}", j, data.get_feature(j).len(), data.nexamples()); }
            ctx.label("undecided");
        }
        (None, Err(_)) => ctx.label("undecided"),
    }
    Ok(())
}

struct Trickle<'a> { data: &'a [u8], at: usize }
impl<'a> std::io::Read for Trickle<'a> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let k = buf.len().min(7).min(self.data.len() - self.at);
        buf[..k].copy_from_slice(&self.data[self.at..self.at + k]);
        self.at += k;
        Ok(k)
    }
}

// ---- C25 ---------------------------------------------------------------------------------------

fn c25(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let o = Opts { max_n: if src.chance(1, 30) { 3000 } else { 800 }, max_iter: 3, extremes: 60, degenerate: src.chance(1, 5), ..Opts::default() };
    let (cfg, mut t) = gen_case(src, &o);
    // the target is a column like the others: class labels may be declared categories
    let cat_target = src.chance(1, 8);
    if cat_target { for x in t.target.iter_mut() { *x = x.abs().floor().min(500.0); } }
    ctx.label_if(cat_target, "categorical target");
    ctx.note(|| format!("{:?}", cfg));
    ctx.note(|| t.describe());
    let mut config = cfg.config();
    config.categorical_features = t.cols.iter().enumerate().filter(|(_, c)| c.cat).map(|(j, _)| j).collect();
    if cat_target { config.categorical_features.push(t.cols.len()); }
    config.csv_has_header = src.chance(1, 2);
    config.csv_delimiter = *src.pick(&[b',', b';', b'\t']);
    if src.chance(1, 15) && t.cols.iter().any(|c| !c.cat) {
        // numbers that are none, in any place: the same columns and limits either way
        let mut r = src.sub();
        for c in t.cols.iter_mut().filter(|c| !c.cat) {
            for _ in 0..r.below(4) { let i = match r.below(3) { 0 => 0, 1 => t.n - 1, _ => r.below(t.n as u64) as usize }; c.vals[i] = [f32::NAN, f32::INFINITY, f32::NEG_INFINITY, -0.0][r.below(4) as usize]; }
        }
        let text = csv_text(&t, config.csv_delimiter as char, config.csv_has_header);
        let by_column = t.data(&config);
        if let Ok(d) = Data::from_csv(&config, &text) {
            let bits = |v: &[f32]| -> Vec<u32> { v.iter().map(|x| if x.is_nan() { 1 } else if *x == 0.0 { 0 } else { x.to_bits() }).collect() };
            for j in 0..t.cols.len() {
                ensure!(bits(d.get_feature(j)) == bits(by_column.get_feature(j)), "column {} has other values", j);
                let (x, y) = (d.feat_limits(j), by_column.feat_limits(j));
                ensure!(bits(&[x.0, x.1]) == bits(&[y.0, y.1]), "column {} has limits {:?} from CSV and {:?} column by column", j, x, y);
                ensure!(d.feat_type(j) == by_column.feat_type(j) && d.feat_card(j) == by_column.feat_card(j), "column {} has another type", j);
            }
            ctx.label("values that are no numbers");
            ctx.nontrivial = true;
        }
        return Ok(());
    }
    let text = csv_text(&t, config.csv_delimiter as char, config.csv_has_header);
    let from_csv = match Data::from_csv(&config, &text) { Ok(d) => d, Err(e) => return Err(format!("the CSV form was rejected: {}", e)) };

    let k = t.cols.len() + 1;
    let mut filled = Data::empty(&config, t.cols.len(), t.n);
    let mut cols: Vec<Vec<f32>> = vec![vec![0.0; t.n]; k];
    let mut cats = vec![false; k];
    ensure!(filled.nfeatures() == t.cols.len() && filled.nexamples() == t.n, "empty container has {} features, {} rows", filled.nfeatures(), filled.nexamples());
    // the assignments: every column once, in any order, with others before
    let mut order: Vec<usize> = (0..k).collect();
    for i in (1..k).rev() { let j = src.range(0, i); order.swap(i, j); }
    let mut again = false;
    let mut rejected = false;
    let mut assign = |filled: &mut Data, j: usize, v: &[f32], cat: bool| -> Result<bool, String> {
        let ok = !cat || v.iter().all(|x| *x >= 0.0 && x.fract() == 0.0 && x.is_finite());
        let r = filled.set_feature_data(j, v, cat);
        ensure!(r.is_ok() == ok, "assignment of column {} (categorical: {}) returned {:?}", j, cat, r);
        if ok { cols[j] = v.to_vec(); cats[j] = cat; }
        Ok(ok)
    };
    for &j in &order {
        let extra = if src.chance(1, 3) { src.range(1, 2) } else { 0 };
        for _ in 0..extra {
            let bad = src.chance(1, 3);
            let cat = src.chance(1, 2);
            let mut r = src.sub();
            let top = [3, 20, 300][r.below(3) as usize];
            let mut v: Vec<f32> = (0..t.n).map(|_| if cat { r.below(top) as f32 } else { (r.normal() * 1e4) as f32 }).collect();
            if bad { let i = r.below(t.n as u64) as usize; v[i] = [-1.0f32, 0.5, f32::INFINITY, f32::NAN, -3.25][r.below(5) as usize]; if !cat { v[i] = -7.5; } }
            if assign(&mut filled, j, &v, cat)? { again = true; } else { rejected = true; }
        }
        let (v, cat): (&[f32], bool) = if j < t.cols.len() { (&t.cols[j].vals, t.cols[j].cat) } else { (&t.target, cat_target) };
        assign(&mut filled, j, v, cat)?;
        if src.chance(1, 6) {
            // a rejected assignment afterwards changes nothing
            let mut v: Vec<f32> = v.iter().map(|x| x.abs().floor().min(1000.0)).collect();
            let i = src.range(0, t.n - 1);
            v[i] = *src.pick(&[-1.0f32, 0.5, f32::NAN]);
            assign(&mut filled, j, &v, true)?;
            rejected = true;
        }
    }
    ctx.label_if(again, "assigned again");
    ctx.label_if(rejected, "rejected assignment");
    check_table(&filled, &cols, &cats, cfg.max_nbins)?;
    check_table(&from_csv, &cols, &cats, cfg.max_nbins).map_err(|e| format!("CSV: {}", e))?;
    let (ma, pa) = boost(&config, &filled);
    let (mb, pb) = boost(&config, &from_csv);
    ensure!(first_diff(&pa, &pb).is_none(), "training predictions differ in row {:?}", first_diff(&pa, &pb));
    let (qa, qb, qc) = (ma.predict(&filled), mb.predict(&filled), ma.predict(&from_csv));
    ensure!(first_diff(&qa, &qb).is_none(), "the models' predictions differ in row {:?}", first_diff(&qa, &qb));
    ensure!(first_diff(&qa, &qc).is_none(), "predictions for the two containers differ in row {:?}", first_diff(&qa, &qc));
    ctx.nontrivial = (again || rejected) && distinct(&qa) >= 2;
    Ok(())
}
