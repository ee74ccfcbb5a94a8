//! P07-P14, P21, P23: the reports, checked against independent renderings.
use crate::model::*;
use crate::rng::Rng;
use crate::text::*;
use std::collections::{BTreeMap, BTreeSet};
use structopt::StructOpt;
use twiggy_analyze as analyze;
use twiggy_ir as ir;
use twiggy_opt as opt;
use twiggy_traits::{Emit, OutputFormat};

macro_rules! ck {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}

/// Which aspects of the output to look at.
#[derive(Clone, Copy)]
pub struct Look {
    pub text: bool,
    pub json: bool,
    pub csv: bool,
}
pub const ALL: Look = Look { text: true, json: true, csv: true };

fn out(e: &dyn Emit, items: &ir::Items, f: OutputFormat) -> R<String> {
    let mut v = vec![];
    e.emit(items, &mut v, f).map_err(|e| format!("emit {:?} failed: {}", f, e))?;
    String::from_utf8(v).map_err(|e| format!("output is not UTF-8: {}", e))
}

fn cli(args: Vec<String>) -> R<opt::Options> {
    opt::Options::from_iter_safe(args.iter()).map_err(|e| format!("options {:?}: {}", args, e))
}

fn limit(rng: &mut Rng, n: usize) -> u32 {
    match rng.below(8) {
        0 => 0,
        1 => u32::MAX,
        2 => n as u32,
        3 => (n as u32).saturating_sub(1),
        4 => n as u32 + 1,
        _ => rng.below(n + 3) as u32,
    }
}

/// A selection of items: names or regular expressions.
#[derive(Clone, Debug)]
pub struct Sel {
    pub args: Vec<String>,
    pub regex: bool,
}

fn selection(rng: &mut Rng, names: &[String]) -> Sel {
    let k = match rng.below(3) {
        0 => 0,
        1 => 1,
        _ => 1 + rng.below(4),
    };
    let regex = rng.chance(1, 2);
    let args = (0..k)
        .map(|_| {
            let nm = if rng.chance(4, 5) && !names.is_empty() { rng.pick(names).clone() } else { name(rng) };
            if regex {
                match rng.below(6) {
                    0 => ".*".to_string(),
                    1 => format!("^{}$", regex::escape(&nm)),
                    2 => "^[a-f]".to_string(),
                    3 => "o|1".to_string(),
                    4 => "[0-9]+$".to_string(),
                    _ => regex::escape(&nm.chars().take(3).collect::<String>()),
                }
            } else {
                nm
            }
        })
        .collect();
    Sel { args, regex }
}

fn matcher(sel: &Sel) -> R<impl Fn(&str) -> bool> {
    let rs: Vec<regex::Regex> = if sel.regex {
        sel.args
            .iter()
            .map(|a| regex::Regex::new(a).map_err(|e| e.to_string()))
            .collect::<R<_>>()?
    } else {
        vec![]
    };
    Ok(move |s: &str| rs.iter().any(|r| r.is_match(s)))
}

fn num_eq(a: &str, b: f64) -> bool {
    a.parse::<f64>().map_or(false, |x| close(x, b))
}

fn js(j: &J, k: &str, want: &str) -> R<()> {
    let got = j.get(k)?.str()?;
    ck!(got == want, "JSON {} is {:?} instead of {:?}", k, got, want);
    Ok(())
}
fn ji(j: &J, k: &str, want: i64) -> R<()> {
    let got = j.get(k)?.int()?;
    ck!(got == want, "JSON {} is {} instead of {} in {:?}", k, got, want, j);
    Ok(())
}
fn jp(j: &J, k: &str, want: f64) -> R<()> {
    let got = j.get(k)?.num()?;
    ck!(close(got, want), "JSON {} is {} instead of {} in {:?}", k, got, want, j);
    Ok(())
}
fn jfields(j: &J, allowed: &[&str]) -> R<()> {
    for (k, _) in j.obj()? {
        ck!(allowed.contains(&k.as_str()), "unexpected JSON field {:?}", k);
    }
    Ok(())
}

// ---------------------------------------------------------------- top

pub fn top(rng: &mut Rng, c: &Case, look: Look) -> R<()> {
    let o = Oracle::new(c);
    let max = limit(rng, o.n);
    let retained = rng.chance(1, 2);
    let opts = if rng.chance(1, 2) {
        let mut t = opt::Top::new();
        t.set_max_items(max);
        t.set_retained(retained);
        t
    } else {
        let mut a = vec!["twiggy".into(), "top".into(), "-n".into(), max.to_string()];
        if retained {
            a.push("--retained".into());
        }
        a.push("in.wasm".into());
        match cli(a)? {
            opt::Options::Top(t) => t,
            x => return Err(format!("top parsed as {:?}", x)),
        }
    };
    let mut items = c.build();
    let rep = analyze::top(&mut items, &opts).map_err(|e| format!("top failed: {}", e))?;
    let key = |i: usize| if retained { o.retained[i] } else { o.size[i] };
    let mut order: Vec<usize> = (0..o.n).collect();
    order.sort_by(|&a, &b| key(b).cmp(&key(a)).then(a.cmp(&b)));
    let shown = &order[..(max as usize).min(o.n)];
    let what = format!("top max_items {} retained {}: ", max, retained);
    let run = || -> R<()> {
        if look.json {
            let j = json(&out(&*rep, &items, OutputFormat::Json)?)?;
            let a = j.arr()?;
            ck!(a.len() == shown.len(), "{} JSON entries instead of {}", a.len(), shown.len());
            for (e, &i) in a.iter().zip(shown) {
                jfields(e, &["name", "shallow_size", "shallow_size_percent", "retained_size", "retained_size_percent"])?;
                js(e, "name", &o.name[i])?;
                ji(e, "shallow_size", o.size[i].into())?;
                jp(e, "shallow_size_percent", o.pct(o.size[i]))?;
                ck!(e.has("retained_size") == retained, "retained_size present: {}", !retained);
                if retained {
                    ji(e, "retained_size", o.retained[i].into())?;
                    jp(e, "retained_size_percent", o.pct(o.retained[i]))?;
                }
            }
        }
        if look.csv {
            let t = out(&*rep, &items, OutputFormat::Csv)?;
            let rs = csv_records(&t, &["Name", "ShallowSize", "ShallowSizePercent", "RetainedSize", "RetainedSizePercent"])?;
            ck!(rs.len() == shown.len(), "{} CSV records instead of {}", rs.len(), shown.len());
            for (r, &i) in rs.iter().zip(shown) {
                let ok = r[0] == o.name[i]
                    && r[1] == o.size[i].to_string()
                    && num_eq(&r[2], o.pct(o.size[i]))
                    && if retained { r[3] == o.retained[i].to_string() && num_eq(&r[4], o.pct(o.retained[i])) } else { r[3].is_empty() && r[4].is_empty() };
                ck!(ok, "CSV record {:?} for item {:?}", r, o.name[i]);
            }
        }
        if look.text {
            let t = out(&*rep, &items, OutputFormat::Text)?;
            let h = if retained { ("Retained Bytes", "Retained %") } else { ("Shallow Bytes", "Shallow %") };
            let mut rows: Vec<Vec<Cell>> = shown.iter().map(|&i| vec![s(key(i)), Cell::Pct(o.pct(key(i))), s(&o.name[i])]).collect();
            let rest = &order[shown.len()..];
            let sum = |xs: &[usize]| -> u64 { xs.iter().map(|&i| key(i) as u64).sum() };
            let cells = |xs: &[usize]| if retained { (s("..."), s("...")) } else { (s(sum(xs)), Cell::Pct(o.pct(sum(xs) as u32))) };
            if !rest.is_empty() {
                let (a, b) = cells(rest);
                rows.push(vec![a, b, s(format!("... and {} more.", rest.len()))]);
            }
            let (a, b) = cells(&order);
            rows.push(vec![a, b, s(format!("Σ [{} Total Rows]", o.n))]);
            check_table(&t, &[(true, h.0), (true, h.1), (false, "Item")], &rows)?;
        }
        Ok(())
    };
    run().map_err(|e| what + &e)
}

// ---------------------------------------------------------------- garbage

pub fn garbage(rng: &mut Rng, c: &Case, look: Look) -> R<()> {
    let o = Oracle::new(c);
    let max = limit(rng, o.n);
    let all = rng.chance(1, 6);
    let show = rng.chance(1, 2);
    let opts = if !all && !show && rng.chance(1, 2) {
        let mut g = opt::Garbage::new();
        g.set_max_items(max);
        g
    } else {
        let mut a: Vec<String> = vec!["twiggy".into(), "garbage".into(), "in.wasm".into(), "-n".into(), max.to_string()];
        if all {
            a.push("-a".into());
        }
        if show {
            a.push("--show-data-segments".into());
        }
        match cli(a)? {
            opt::Options::Garbage(t) => t,
            x => return Err(format!("garbage parsed as {:?}", x)),
        }
    };
    let lim = if all { usize::MAX } else { max as usize };
    let items = c.build();
    let rep = analyze::garbage(&items, &opts).map_err(|e| format!("garbage failed: {}", e))?;
    let mut dead: Vec<usize> = (0..o.n).filter(|&i| !o.reach[i]).collect();
    dead.sort_by(|&a, &b| o.size[b].cmp(&o.size[a]).then(a.cmp(&b)));
    let (data, list): (Vec<usize>, Vec<usize>) = dead.iter().partition(|&&i| !show && o.is_data[i]);
    let sum = |xs: &[usize]| -> u32 { xs.iter().map(|&i| o.size[i]).sum() };
    let shown = &list[..lim.min(list.len())];
    let rest = &list[shown.len()..];
    let mut rows: Vec<(u32, String)> = shown.iter().map(|&i| (o.size[i], o.name[i].clone())).collect();
    if !rest.is_empty() {
        rows.push((sum(rest), format!("... and {} more", rest.len())));
    }
    rows.push((sum(&list), format!("Σ [{} Total Rows]", list.len())));
    if !data.is_empty() {
        rows.push((sum(&data), format!("{} potential false-positive data segments", data.len())));
    }
    let run = || -> R<()> {
        if look.text {
            let t = out(&*rep, &items, OutputFormat::Text)?;
            let cells: Vec<Vec<Cell>> = rows.iter().map(|(b, n)| vec![s(b), Cell::Pct(o.pct(*b)), s(n)]).collect();
            check_table(&t, &[(true, "Bytes"), (true, "Size %"), (false, "Garbage Item")], &cells)?;
        }
        if look.json {
            let j = json(&out(&*rep, &items, OutputFormat::Json)?)?;
            let a = j.arr()?;
            ck!(a.len() == rows.len(), "{} JSON entries instead of {}", a.len(), rows.len());
            for (e, (b, n)) in a.iter().zip(&rows) {
                jfields(e, &["name", "bytes", "size_percent"])?;
                js(e, "name", n)?;
                ji(e, "bytes", (*b).into())?;
                jp(e, "size_percent", o.pct(*b))?;
            }
        }
        if look.csv {
            let t = out(&*rep, &items, OutputFormat::Csv)?;
            let rs = csv_records(&t, &["Name", "Bytes", "SizePercent"])?;
            ck!(rs.len() == rows.len(), "{} CSV records instead of {}", rs.len(), rows.len());
            for (r, (b, n)) in rs.iter().zip(&rows) {
                ck!(r[0] == *n && r[1] == b.to_string() && num_eq(&r[2], o.pct(*b)), "CSV record {:?} instead of {:?}", r, (b, n));
            }
        }
        Ok(())
    };
    run().map_err(|e| format!("garbage max_items {} all {} show-data {}: {}", max, all, show, e))
}

// ---------------------------------------------------------------- dominators

pub fn dominators(rng: &mut Rng, c: &Case, look: Look) -> R<()> {
    let o = Oracle::new(c);
    let mut names = o.name.clone();
    names.retain(|_| true);
    let sel = if rng.chance(1, 2) { Sel { args: vec![], regex: rng.chance(1, 4) } } else { selection(rng, &names) };
    let depth = if rng.chance(1, 3) { None } else { Some(limit(rng, 5)) };
    let rows_max = if rng.chance(1, 3) { None } else { Some(limit(rng, o.n)) };
    let opts = if sel.args.is_empty() && rng.chance(1, 2) {
        let mut d = opt::Dominators::new();
        d.set_using_regexps(sel.regex);
        if let Some(x) = depth {
            d.set_max_depth(x);
        }
        if let Some(x) = rows_max {
            d.set_max_rows(x);
        }
        d
    } else {
        let mut a: Vec<String> = vec!["twiggy".into(), "dominators".into()];
        if let Some(x) = depth {
            a.extend(["-d".into(), x.to_string()]);
        }
        if let Some(x) = rows_max {
            a.extend(["-r".into(), x.to_string()]);
        }
        if sel.regex {
            a.push("--regex".into());
        }
        a.extend(["--".into(), "in.wasm".into()]);
        a.extend(sel.args.iter().cloned());
        match cli(a)? {
            opt::Options::Dominators(t) => t,
            x => return Err(format!("dominators parsed as {:?}", x)),
        }
    };
    let mut items = c.build();
    let rep = analyze::dominators(&mut items, &opts).map_err(|e| format!("dominators failed: {}", e))?;
    let starts: Vec<usize> = if sel.args.is_empty() {
        vec![o.n]
    } else if sel.regex {
        let m = matcher(&sel)?;
        let mut v: Vec<usize> = (0..=o.n).filter(|&i| m(&o.name[i])).collect();
        v.sort_by(|&a, &b| o.retained[b].cmp(&o.retained[a]).then(a.cmp(&b)));
        v
    } else {
        sel.args.iter().filter_map(|a| o.by_name(a)).collect()
    };
    let kids: Vec<Vec<usize>> = o
        .children
        .iter()
        .map(|k| {
            let mut k = k.clone();
            k.sort_by(|&a, &b| o.retained[b].cmp(&o.retained[a]).then(a.cmp(&b)));
            k
        })
        .collect();
    let dead: Vec<usize> = (0..o.n).filter(|&i| !o.reach[i]).collect();
    let dead_size: u32 = dead.iter().map(|&i| o.size[i]).sum();
    let summary = sel.args.is_empty() && dead_size > 0;
    let sum_name = format!("[{} Unreachable Items]", dead.len());

    fn walk(kids: &[Vec<usize>], i: usize, d: u32, f: &mut dyn FnMut(usize, u32) -> bool) {
        if f(i, d) {
            for &k in &kids[i] {
                walk(kids, k, d + 1, f);
            }
        }
    }
    fn check_json(o: &Oracle, kids: &[Vec<usize>], e: &J, i: usize) -> R<()> {
        jfields(e, &["name", "shallow_size", "shallow_size_percent", "retained_size", "retained_size_percent", "children"])?;
        js(e, "name", &o.name[i])?;
        ji(e, "shallow_size", o.size[i].into())?;
        jp(e, "shallow_size_percent", o.pct(o.size[i]))?;
        ji(e, "retained_size", o.retained[i].into())?;
        jp(e, "retained_size_percent", o.pct(o.retained[i]))?;
        let none = vec![];
        let ch = if e.has("children") { e.get("children")?.arr()? } else { &none[..] };
        ck!(ch.len() == kids[i].len(), "{} children of {:?} instead of {}", ch.len(), o.name[i], kids[i].len());
        for (x, &k) in ch.iter().zip(&kids[i]) {
            check_json(o, kids, x, k)?;
        }
        Ok(())
    }
    let run = || -> R<()> {
        if look.json {
            let j = json(&out(&*rep, &items, OutputFormat::Json)?)?;
            jfields(&j, &["items", "summary"])?;
            let a = j.get("items")?.arr()?;
            ck!(a.len() == starts.len(), "{} JSON items instead of {}", a.len(), starts.len());
            for (e, &i) in a.iter().zip(&starts) {
                check_json(&o, &kids, e, i)?;
            }
            ck!(j.has("summary") == summary, "JSON summary present: {}", !summary);
            if summary {
                let sm = j.get("summary")?.arr()?;
                ck!(sm.len() == 1, "{} JSON summaries", sm.len());
                js(&sm[0], "name", &sum_name)?;
                ji(&sm[0], "retained_size", dead_size.into())?;
                jp(&sm[0], "retained_size_percent", o.pct(dead_size))?;
            }
        }
        if look.csv {
            let t = out(&*rep, &items, OutputFormat::Csv)?;
            let rs = csv_records(&t, &["Id", "Name", "ShallowSize", "ShallowSizePercent", "RetainedSize", "RetainedSizePercent", "ImmediateDominator"])?;
            let ser = |i: usize| if i == o.n { u64::MAX } else { c.nodes[i].ser() };
            let mut want: Vec<[String; 5]> = vec![];
            for &st in &starts {
                walk(&kids, st, 0, &mut |i, _| {
                    want.push([ser(i).to_string(), o.name[i].clone(), o.size[i].to_string(), o.retained[i].to_string(), ser(o.idom[i].unwrap_or(i)).to_string()]);
                    true
                });
            }
            if summary {
                want.push(["".into(), sum_name.clone(), dead_size.to_string(), dead_size.to_string(), "".into()]);
            }
            ck!(rs.len() == want.len(), "{} CSV records instead of {}", rs.len(), want.len());
            for (r, w) in rs.iter().zip(&want) {
                let ok = r[0] == w[0] && r[1] == w[1] && r[2] == w[2] && r[4] == w[3] && r[6] == w[4]
                    && num_eq(&r[3], o.pct(w[2].parse().unwrap()))
                    && num_eq(&r[5], o.pct(w[3].parse().unwrap()));
                ck!(ok, "CSV record {:?} instead of {:?}", r, w);
            }
        }
        if look.text {
            let t = out(&*rep, &items, OutputFormat::Text)?;
            let (dmax, rmax) = (depth.unwrap_or(u32::MAX), rows_max.unwrap_or(u32::MAX));
            let mut rows: Vec<Vec<Cell>> = vec![];
            for &st in &starts {
                let d0 = if st == o.n { 0 } else { 1 };
                walk(&kids, st, d0, &mut |i, d| {
                    if d > dmax || rows.len() as u64 >= rmax as u64 {
                        return false;
                    }
                    if d > 0 {
                        let ind = if d == 1 { String::new() } else { "    ".repeat(d as usize - 2) + "  ⤷ " };
                        rows.push(vec![s(o.retained[i]), Cell::Pct(o.pct(o.retained[i])), s(ind + &o.name[i])]);
                    }
                    true
                });
            }
            if summary {
                rows.push(vec![s(dead_size), Cell::Pct(o.pct(dead_size)), s(&sum_name)]);
            }
            check_table(&t, &[(true, "Retained Bytes"), (true, "Retained %"), (false, "Dominator Tree")], &rows)?;
        }
        Ok(())
    };
    run().map_err(|e| format!("dominators {:?} depth {:?} rows {:?}: {}", sel, depth, rows_max, e))
}

// ---------------------------------------------------------------- paths

struct PNode {
    i: usize,
    kids: Vec<PNode>,
}

/// Whether the item graph has so many simple paths that listing them all, as
/// the paths analysis does, takes too long.
fn dense(c: &Case) -> bool {
    fn go(next: &[BTreeSet<usize>], i: usize, seen: &mut BTreeSet<usize>, left: &mut u32) {
        if *left == 0 {
            return;
        }
        *left -= 1;
        seen.insert(i);
        for &j in &next[i] {
            if !seen.contains(&j) {
                go(next, j, seen, left);
            }
        }
        seen.remove(&i);
    }
    let n = c.nodes.len();
    let (mut succ, mut pred) = (vec![BTreeSet::new(); n + 1], vec![BTreeSet::new(); n + 1]);
    for &(a, b) in &c.edges {
        succ[a].insert(b);
        pred[b].insert(a);
    }
    for (i, x) in c.nodes.iter().enumerate() {
        if x.root {
            succ[n].insert(i);
            pred[i].insert(n);
        }
    }
    [succ, pred].iter().any(|g| {
        let mut left = 20_000;
        (0..=n).for_each(|i| go(g, i, &mut BTreeSet::new(), &mut left));
        left == 0
    })
}

pub fn paths(rng: &mut Rng, c: &Case, look: Look) -> R<()> {
    if dense(c) {
        return Ok(());
    }
    let o = Oracle::new(c);
    let sel = if rng.chance(1, 2) { Sel { args: vec![], regex: false } } else { selection(rng, &o.name) };
    let desc = rng.chance(1, 2);
    let depth = if rng.chance(1, 3) { None } else { Some(if rng.chance(1, 6) { u32::MAX } else { rng.below(6) as u32 }) };
    let maxp = if rng.chance(1, 3) { None } else { Some(if rng.chance(1, 6) { u32::MAX } else { rng.below(5) as u32 }) };
    let opts = if rng.chance(1, 2) {
        let mut p = opt::Paths::new();
        for a in &sel.args {
            p.add_function(a.clone());
        }
        p.set_descending(desc);
        p.set_using_regexps(sel.regex);
        if let Some(x) = depth {
            p.set_max_depth(x);
        }
        if let Some(x) = maxp {
            p.set_max_paths(x);
        }
        p
    } else {
        let mut a: Vec<String> = vec!["twiggy".into(), "paths".into()];
        if let Some(x) = depth {
            a.extend(["-d".into(), x.to_string()]);
        }
        if let Some(x) = maxp {
            a.extend(["-r".into(), x.to_string()]);
        }
        if sel.regex {
            a.push("--regex".into());
        }
        if desc {
            a.push("--descending".into());
        }
        a.extend(["--".into(), "in.wasm".into()]);
        a.extend(sel.args.iter().cloned());
        match cli(a)? {
            opt::Options::Paths(t) => t,
            x => return Err(format!("paths parsed as {:?}", x)),
        }
    };
    let mut items = c.build();
    let rep = analyze::paths(&mut items, &opts).map_err(|e| format!("paths failed: {}", e))?;
    let bysize = |mut v: Vec<usize>| {
        v.sort_by(|&a, &b| o.size[b].cmp(&o.size[a]).then(a.cmp(&b)));
        v
    };
    let starts: Vec<usize> = if sel.args.is_empty() {
        if desc { bysize(o.succ[o.n].clone()) } else { bysize((0..o.n).collect()) }
    } else if sel.regex {
        let m = matcher(&sel)?;
        (0..=o.n).filter(|&i| m(&o.name[i])).collect()
    } else {
        sel.args.iter().filter_map(|a| o.by_name(a)).collect()
    };
    fn grow(o: &Oracle, desc: bool, i: usize, seen: &mut BTreeSet<usize>) -> PNode {
        seen.insert(i);
        let next = if desc { &o.succ[i] } else { &o.pred[i] };
        let kids = next
            .iter()
            .filter(|&&j| j != o.n && !seen.contains(&j))
            .cloned()
            .collect::<Vec<_>>()
            .into_iter()
            .map(|j| grow(o, desc, j, seen))
            .collect();
        seen.remove(&i);
        PNode { i, kids }
    }
    let forest: Vec<PNode> = starts.iter().map(|&i| grow(&o, desc, i, &mut BTreeSet::new())).collect();
    let (dmax, pmax) = (depth.unwrap_or(10), maxp.unwrap_or(10) as usize);
    fn flat<'a>(t: &'a PNode, d: u32, dmax: u32, pmax: usize, f: &mut dyn FnMut(&'a PNode, u32)) {
        f(t, d);
        if d < dmax {
            for k in t.kids.iter().take(pmax) {
                flat(k, d + 1, dmax, pmax, f);
            }
        }
    }
    fn check_json(o: &Oracle, t: &PNode, e: &J, d: u32, dmax: u32, pmax: usize) -> R<()> {
        jfields(e, &["name", "shallow_size", "shallow_size_percent", "callers"])?;
        js(e, "name", &o.name[t.i])?;
        ji(e, "shallow_size", o.size[t.i].into())?;
        jp(e, "shallow_size_percent", o.pct(o.size[t.i]))?;
        let none = vec![];
        let ch = if e.has("callers") { e.get("callers")?.arr()? } else { &none[..] };
        let want = if d < dmax { t.kids.len().min(pmax) } else { 0 };
        ck!(ch.len() == want, "{} callers of {:?} instead of {}", ch.len(), o.name[t.i], want);
        for (x, k) in ch.iter().zip(&t.kids) {
            check_json(o, k, x, d + 1, dmax, pmax)?;
        }
        Ok(())
    }
    let run = || -> R<()> {
        if look.json {
            let j = json(&out(&*rep, &items, OutputFormat::Json)?)?;
            let a = j.arr()?;
            ck!(a.len() == forest.len(), "{} JSON entries instead of {}", a.len(), forest.len());
            for (e, t) in a.iter().zip(&forest) {
                check_json(&o, t, e, 0, dmax, pmax)?;
            }
        }
        if look.csv {
            let t = out(&*rep, &items, OutputFormat::Csv)?;
            let rs = csv_records(&t, &["Name", "ShallowSize", "ShallowSizePercent", "Path"])?;
            let mut want = vec![];
            for t in &forest {
                flat(t, 0, dmax, pmax, &mut |p, _| {
                    let mut chain: Vec<&str> = p.kids.iter().map(|k| o.name[k.i].as_str()).collect();
                    if !chain.is_empty() {
                        chain.push(&o.name[p.i]);
                    }
                    want.push((p.i, chain.join(" -> ")));
                });
            }
            ck!(rs.len() == want.len(), "{} CSV records instead of {}", rs.len(), want.len());
            for (r, (i, p)) in rs.iter().zip(&want) {
                let ok = r[0] == o.name[*i] && r[1] == o.size[*i].to_string() && num_eq(&r[2], o.pct(o.size[*i])) && r[3] == *p;
                ck!(ok, "CSV record {:?} instead of {:?}", r, (&o.name[*i], o.size[*i], p));
            }
        }
        if look.text {
            let t = out(&*rep, &items, OutputFormat::Text)?;
            let mut rows = vec![];
            for t in &forest {
                flat(t, 0, dmax, pmax, &mut |p, d| {
                    rows.push(if d == 0 {
                        vec![s(o.size[p.i]), Cell::Pct(o.pct(o.size[p.i])), s(&o.name[p.i])]
                    } else {
                        let arrow = if desc { "  ↳ " } else { "  ⬑ " };
                        vec![s(""), s(""), s("    ".repeat(d as usize - 1) + arrow + &o.name[p.i])]
                    });
                });
            }
            check_table(&t, &[(true, "Shallow Bytes"), (true, "Shallow %"), (false, "Retaining Paths")], &rows)?;
        }
        Ok(())
    };
    run().map_err(|e| format!("paths {:?} descending {} depth {:?} paths {:?}: {}", sel, desc, depth, maxp, e))
}

// ---------------------------------------------------------------- monos

pub fn monos(rng: &mut Rng, c: &Case, look: Look) -> R<()> {
    let o = Oracle::new(c);
    let generics: Vec<String> = o.generic.iter().flatten().cloned().collect();
    let sel = if rng.chance(1, 2) { Sel { args: vec![], regex: rng.chance(1, 4) } } else { selection(rng, &generics) };
    let only = rng.chance(1, 4);
    let mg = if rng.chance(1, 3) { None } else { Some(limit(rng, 4)) };
    let mm = if rng.chance(1, 3) { None } else { Some(limit(rng, 4)) };
    let (mut all, mut allg, mut allm) = (false, false, false);
    let opts = if sel.args.is_empty() && !sel.regex && rng.chance(1, 2) {
        let mut m = opt::Monos::new();
        m.set_only_generics(only);
        if let Some(x) = mg {
            m.set_max_generics(x);
        }
        if let Some(x) = mm {
            m.set_max_monos(x);
        }
        m
    } else {
        all = rng.chance(1, 6);
        allg = rng.chance(1, 6);
        allm = rng.chance(1, 6);
        let mut a: Vec<String> = vec!["twiggy".into(), "monos".into()];
        if let Some(x) = mg {
            a.extend(["-m".into(), x.to_string()]);
        }
        if let Some(x) = mm {
            a.extend(["-n".into(), x.to_string()]);
        }
        for (b, f) in [(sel.regex, "--regex"), (only, "-g"), (all, "-a"), (allg, "--all-generics"), (allm, "--all-monos")] {
            if b {
                a.push(f.into());
            }
        }
        a.extend(["--".into(), "in.wasm".into()]);
        a.extend(sel.args.iter().cloned());
        match cli(a)? {
            opt::Options::Monos(t) => t,
            x => return Err(format!("monos parsed as {:?}", x)),
        }
    };
    let mg_eff = if all || allg { usize::MAX } else { mg.unwrap_or(10) as usize };
    let mm_eff = if all || allm { usize::MAX } else { mm.unwrap_or(10) as usize };
    let mut items = c.build();
    let rep = analyze::monos(&mut items, &opts).map_err(|e| format!("monos failed: {}", e))?;

    let m = matcher(&sel)?;
    let mut groups: BTreeMap<&str, Vec<(String, u32)>> = BTreeMap::new();
    for i in 0..o.n {
        if let Some(g) = &o.generic[i] {
            let keep = sel.args.is_empty() || if sel.regex { m(g) } else { sel.args.contains(g) };
            if keep {
                groups.entry(g).or_default().push((o.name[i].clone(), o.size[i]));
            }
        }
    }
    struct E {
        name: String,
        insts: Vec<(String, u32)>,
        size: u32,
        bloat: u32,
    }
    let mut es: Vec<E> = groups
        .into_iter()
        .map(|(g, mut v)| {
            v.sort_by(|a, b| b.1.cmp(&a.1).then(a.0.cmp(&b.0)));
            let total: u32 = v.iter().map(|x| x.1).sum();
            let n = v.len() as u32;
            let bloat = (total / n * (n - 1)).min(total - v[0].1);
            let insts = if only {
                vec![]
            } else {
                let k = mm_eff.min(v.len());
                let rest = v.split_off(k);
                if !rest.is_empty() {
                    v.push((format!("... and {} more.", rest.len()), rest.iter().map(|x| x.1).sum()));
                }
                v
            };
            E { name: g.to_string(), insts, size: total, bloat }
        })
        .collect();
    es.sort_by(|a, b| b.bloat.cmp(&a.bloat).then(b.size.cmp(&a.size)).then(a.insts.cmp(&b.insts)).then(a.name.cmp(&b.name)));
    let stat = |xs: &[E], f: &dyn Fn(usize) -> String| E {
        name: f(xs.iter().map(|e| 1 + e.insts.len()).sum()),
        insts: vec![],
        size: xs.iter().map(|e| e.size).sum(),
        bloat: xs.iter().map(|e| e.bloat).sum(),
    };
    let total = stat(&es, &|n| format!("Σ [{} Total Rows]", n));
    if es.len() > mg_eff {
        let rest = es.split_off(mg_eff);
        es.push(stat(&rest, &|n| format!("... and {} more.", n)));
    }
    es.push(total);
    let run = || -> R<()> {
        if look.json {
            let j = json(&out(&*rep, &items, OutputFormat::Json)?)?;
            let a = j.arr()?;
            ck!(a.len() == es.len(), "{} JSON entries instead of {}", a.len(), es.len());
            for (x, e) in a.iter().zip(&es) {
                jfields(x, &["generic", "approximate_monomorphization_bloat_bytes", "approximate_monomorphization_bloat_percent", "total_size", "total_size_percent", "monomorphizations"])?;
                js(x, "generic", &e.name)?;
                ji(x, "approximate_monomorphization_bloat_bytes", e.bloat.into())?;
                jp(x, "approximate_monomorphization_bloat_percent", o.pct(e.bloat))?;
                ji(x, "total_size", e.size.into())?;
                jp(x, "total_size_percent", o.pct(e.size))?;
                let ms = x.get("monomorphizations")?.arr()?;
                ck!(ms.len() == e.insts.len(), "{} JSON instantiations of {:?} instead of {}", ms.len(), e.name, e.insts.len());
                for (y, (n, b)) in ms.iter().zip(&e.insts) {
                    jfields(y, &["name", "shallow_size", "shallow_size_percent"])?;
                    js(y, "name", n)?;
                    ji(y, "shallow_size", (*b).into())?;
                    jp(y, "shallow_size_percent", o.pct(*b))?;
                }
            }
        }
        if look.csv {
            let t = out(&*rep, &items, OutputFormat::Csv)?;
            let rs = csv_records(&t, &["Generic", "ApproximateMonomorphizationBloatBytes", "ApproximateMonomorphizationBloatPercent", "TotalSize", "TotalSizePercent", "Monomorphizations"])?;
            ck!(rs.len() == es.len(), "{} CSV records instead of {}", rs.len(), es.len());
            for (r, e) in rs.iter().zip(&es) {
                let list = e.insts.iter().map(|x| x.0.as_str()).collect::<Vec<_>>().join(", ");
                let ok = r[0] == e.name && r[1] == e.bloat.to_string() && num_eq(&r[2], o.pct(e.bloat)) && r[3] == e.size.to_string() && num_eq(&r[4], o.pct(e.size)) && r[5] == list;
                ck!(ok, "CSV record {:?} for {:?} {} {} {:?}", r, e.name, e.bloat, e.size, list);
            }
        }
        if look.text {
            let t = out(&*rep, &items, OutputFormat::Text)?;
            let mut rows = vec![];
            for e in &es {
                rows.push(vec![s(e.bloat), Cell::Pct(o.pct(e.bloat)), s(e.size), Cell::Pct(o.pct(e.size)), s(&e.name)]);
                for (n, b) in &e.insts {
                    rows.push(vec![s(""), s(""), s(b), Cell::Pct(o.pct(*b)), s(format!("    {}", n))]);
                }
            }
            check_table(&t, &[(true, "Apprx. Bloat Bytes"), (true, "Apprx. Bloat %"), (true, "Bytes"), (true, "%"), (false, "Monomorphizations")], &rows)?;
        }
        Ok(())
    };
    run().map_err(|e| format!("monos {:?} only_generics {} -m {:?} -n {:?} all {}/{}/{}: {}", sel, only, mg, mm, all, allg, allm, e))
}

// ---------------------------------------------------------------- diff

fn by_names(c: &Case) -> BTreeMap<String, i64> {
    let mut m = BTreeMap::new();
    for n in &c.nodes {
        *m.entry(n.name.clone()).or_insert(0) += n.size as i64;
    }
    m.entry(META.to_string()).or_insert(0);
    m
}

pub fn diff_args(rng: &mut Rng, old: &Case, new: &Case) -> (Sel, Option<u32>, bool) {
    let names: Vec<String> = old.nodes.iter().chain(&new.nodes).map(|n| n.name.clone()).collect();
    let sel = if rng.chance(1, 2) { Sel { args: vec![], regex: rng.chance(1, 4) } } else { selection(rng, &names) };
    let max = if rng.chance(1, 3) { None } else { Some(limit(rng, names.len())) };
    (sel, max, rng.chance(1, 6))
}

pub fn diff_opts(sel: &Sel, max: Option<u32>, all: bool) -> R<opt::Diff> {
    let mut a: Vec<String> = vec!["twiggy".into(), "diff".into()];
    if let Some(x) = max {
        a.extend(["-n".into(), x.to_string()]);
    }
    if sel.regex {
        a.push("--regex".into());
    }
    if all {
        a.push("--all".into());
    }
    a.extend(["--".into(), "old.wasm".into(), "new.wasm".into()]);
    a.extend(sel.args.iter().cloned());
    match cli(a)? {
        opt::Options::Diff(t) => Ok(t),
        x => Err(format!("diff parsed as {:?}", x)),
    }
}

/// A second version of a binary: some items changed, removed, added.
pub fn mutate(rng: &mut Rng, c: &Case) -> Case {
    let mut d = c.clone();
    for n in &mut d.nodes {
        match rng.below(6) {
            0 | 1 => n.size = (n.size / 2).max(rng.below(9).min(n.size as usize) as u32),
            2 => {
                if n.kind != Kind::Code {
                    n.raw = if rng.chance(1, 3) { similar(rng, &n.raw) } else { name(rng) };
                    n.name = n.raw.clone();
                }
            }
            _ => {}
        }
    }
    let sum: u64 = d.nodes.iter().map(|n| n.size as u64).sum();
    d.total = (sum + rng.below(500) as u64).clamp(1, u32::MAX as u64) as u32;
    d
}

pub fn diff(rng: &mut Rng, old: &Case, look: Look) -> R<()> {
    let new = if rng.chance(1, 3) { gen(rng) } else { mutate(rng, old) };
    let (old, new) = if rng.chance(1, 2) { (old.clone(), new) } else { (new, old.clone()) };
    let (sel, max, all) = diff_args(rng, &old, &new);
    let opts = diff_opts(&sel, max, all)?;
    let (mut a, mut b) = (old.build(), new.build());
    let rep = analyze::diff(&mut a, &mut b, &opts).map_err(|e| format!("diff failed: {}", e))?;
    let (ma, mb) = (by_names(&old), by_names(&new));
    let m = matcher(&sel)?;
    let names: BTreeSet<&String> = ma.keys().chain(mb.keys()).collect();
    let mut ds: Vec<(i64, String)> = names
        .into_iter()
        .filter(|n| sel.args.is_empty() || if sel.regex { m(n) } else { sel.args.contains(n) })
        .map(|n| (mb.get(n).unwrap_or(&0) - ma.get(n).unwrap_or(&0), n.clone()))
        .filter(|d| d.0 != 0)
        .collect();
    ds.sort_by(|x, y| y.0.abs().cmp(&x.0.abs()).then(x.1.cmp(&y.1)));
    let lim = if all { usize::MAX } else { max.unwrap_or(20) as usize };
    let total = if sel.args.is_empty() { new.total as i64 - old.total as i64 } else { ds.iter().map(|d| d.0).sum() };
    let total = (total, format!("Σ [{} Total Rows]", ds.len()));
    if ds.len() > lim {
        let rest = ds.split_off(lim);
        ds.push((rest.iter().map(|d| d.0).sum(), format!("... and {} more.", rest.len())));
    }
    ds.push(total);
    let run = || -> R<()> {
        if look.json {
            let j = json(&out(&*rep, &a, OutputFormat::Json)?)?;
            let x = j.arr()?;
            ck!(x.len() == ds.len(), "{} JSON entries instead of {}", x.len(), ds.len());
            for (e, (d, n)) in x.iter().zip(&ds) {
                jfields(e, &["delta_bytes", "name"])?;
                js(e, "name", n)?;
                ji(e, "delta_bytes", *d)?;
            }
        }
        if look.csv {
            let t = out(&*rep, &a, OutputFormat::Csv)?;
            let rs = csv_records(&t, &["DeltaBytes", "Item"])?;
            ck!(rs.len() == ds.len(), "{} CSV records instead of {}", rs.len(), ds.len());
            for (r, (d, n)) in rs.iter().zip(&ds) {
                ck!(r[0] == format!("{:+}", d) && r[1] == *n, "CSV record {:?} instead of {:?}", r, (d, n));
            }
        }
        if look.text {
            let t = out(&*rep, &a, OutputFormat::Text)?;
            let rows: Vec<Vec<Cell>> = ds.iter().map(|(d, n)| vec![s(format!("{:+}", d)), s(n)]).collect();
            check_table(&t, &[(true, "Delta Bytes"), (false, "Item")], &rows)?;
        }
        Ok(())
    };
    run().map_err(|e| format!("diff {:?} -n {:?} all {}: {}\nold version:\n{}new version:\n{}", sel, max, all, e, old.describe(), new.describe()))
}

/// Any one of the reports.
pub fn any(rng: &mut Rng, c: &Case, look: Look) -> R<()> {
    match rng.below(6) {
        0 => top(rng, c, look),
        1 => garbage(rng, c, look),
        2 => dominators(rng, c, look),
        3 => paths(rng, c, look),
        4 => monos(rng, c, look),
        _ => diff(rng, c, look),
    }
}

/// Invalid patterns are errors; -r of top is an error.
pub fn errors(rng: &mut Rng, c: &Case) -> R<()> {
    let bad: Vec<String> = vec![rng.pick(&["(", "[a", "*", "a{2,1}"]).to_string()];
    let mut items = c.build();
    let mut p = opt::Paths::new();
    p.add_function(bad[0].clone());
    p.set_using_regexps(true);
    ck!(analyze::paths(&mut items, &p).is_err(), "paths accepted the pattern {:?}", bad);
    let sel = Sel { args: bad.clone(), regex: true };
    let d = diff_opts(&sel, None, false)?;
    let mut other = c.build();
    ck!(analyze::diff(&mut items, &mut other, &d).is_err(), "diff accepted the pattern {:?}", bad);
    Ok(())
}

/// A command line over the options of every command.
pub fn command(rng: &mut Rng, old: &[String], new: &[String]) -> Vec<String> {
    let cmd = *rng.pick(&["top", "dominators", "paths", "monos", "garbage", "diff", "diff"]);
    let mut a: Vec<String> = vec!["twiggy".into(), cmd.into()];
    let limits: &[&str] = match cmd {
        "top" | "garbage" | "diff" => &["-n"],
        "dominators" | "paths" => &["-d", "-r"],
        _ => &["-m", "-n"],
    };
    for l in limits {
        if rng.chance(1, 2) {
            a.extend([l.to_string(), rng.below(8).to_string()]);
        }
    }
    let flags: &[&str] = match cmd {
        "top" => &["--retained"],
        "garbage" => &["--show-data-segments", "-a"],
        "paths" => &["--descending"],
        "monos" => &["-g", "-a", "--all-generics", "--all-monos"],
        "diff" => &["-a"],
        _ => &[],
    };
    for f in flags {
        if rng.chance(1, 3) {
            a.push(f.to_string());
        }
    }
    let mut names = old.to_vec();
    if cmd == "diff" {
        names.extend_from_slice(new);
    }
    let sel = if matches!(cmd, "top" | "garbage") || rng.chance(1, 3) { Sel { args: vec![], regex: false } } else { selection(rng, &names) };
    if sel.regex {
        a.push("--regex".into());
    }
    a.extend(["--".into(), "in.wasm".into()]);
    if cmd == "diff" {
        a.push("new.wasm".into());
    }
    a.extend(sel.args);
    a
}

/// P21: the same analysis again, on freshly built items, gives the same bytes.
pub fn deterministic(rng: &mut Rng, c: &Case) -> R<()> {
    let new = mutate(rng, c);
    let mut names: Vec<String> = c.nodes.iter().map(|n| n.name.clone()).collect();
    names.extend(Oracle::new(c).generic.into_iter().flatten());
    let new_names: Vec<String> = new.nodes.iter().map(|n| n.name.clone()).collect();
    let args = command(rng, &names, &new_names);
    if args[1] == "paths" && dense(c) {
        return Ok(());
    }
    let opts = cli(args.clone())?;
    let run = || -> R<Vec<String>> {
        let mut items = c.build();
        let rep = match &opts {
            opt::Options::Top(o) => analyze::top(&mut items, o),
            opt::Options::Dominators(o) => analyze::dominators(&mut items, o),
            opt::Options::Paths(o) => analyze::paths(&mut items, o),
            opt::Options::Monos(o) => analyze::monos(&mut items, o),
            opt::Options::Garbage(o) => analyze::garbage(&items, o),
            opt::Options::Diff(o) => {
                let mut other = new.build();
                analyze::diff(&mut items, &mut other, o)
            }
        };
        match rep {
            Ok(rep) => [OutputFormat::Text, OutputFormat::Json, OutputFormat::Csv].iter().map(|f| out(&*rep, &items, *f)).collect(),
            Err(e) => Ok(vec![e.to_string()]),
        }
    };
    let first = run()?;
    for _ in 0..4 {
        let again = run()?;
        ck!(again == first, "{:?} differs between two runs\n{:?}\n{:?}", args, first, again);
    }
    Ok(())
}
