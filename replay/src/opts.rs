//! P15: options, against a plain model of what was said last.
use crate::rng::Rng;
use crate::text::R;
use std::path::Path;
use structopt::StructOpt;
use twiggy_opt::{self as opt, CommonCliOptions, OutputDestination};
use twiggy_traits as traits;

const M: u32 = u32::MAX;

macro_rules! ck {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}

fn num(rng: &mut Rng) -> u32 {
    match rng.below(6) {
        0 => 0,
        1 => M,
        2 => M - 1,
        3 => 10,
        _ => rng.below(50) as u32,
    }
}

fn eq<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> R<()> {
    ck!(got == want, "{} is {:?} instead of {:?}", what, got, want);
    Ok(())
}

/// Options on a command line, in random order.
struct Args {
    flags: Vec<Vec<String>>,
    pos: Vec<String>,
}
impl Args {
    fn new() -> Args {
        Args { flags: vec![], pos: vec![] }
    }
    fn flag(&mut self, f: &str, on: bool) {
        if on {
            self.flags.push(vec![f.into()]);
        }
    }
    fn val<T: ToString>(&mut self, rng: &mut Rng, fs: &[&str], v: Option<T>) {
        if let Some(v) = v {
            let f = *rng.pick(fs);
            if f.starts_with("--") && rng.chance(1, 2) {
                self.flags.push(vec![format!("{}={}", f, v.to_string())]);
            } else {
                self.flags.push(vec![f.into(), v.to_string()]);
            }
        }
    }
    fn parse(mut self, rng: &mut Rng, cmd: &str) -> R<opt::Options> {
        rng.shuffle(&mut self.flags);
        let mut a = vec!["twiggy".to_string(), cmd.to_string()];
        let first = rng.chance(1, 2);
        if first {
            a.extend(self.pos.iter().cloned());
        }
        for f in &self.flags {
            a.extend(f.iter().cloned());
        }
        if !first {
            a.push("--".into());
            a.extend(self.pos);
        }
        opt::Options::from_iter_safe(&a).map_err(|e| format!("{:?} is rejected: {}", a, e))
    }
}

fn maybe<T>(rng: &mut Rng, v: T) -> Option<T> {
    if rng.chance(1, 2) {
        Some(v)
    } else {
        None
    }
}

struct Common {
    input: String,
    mode: &'static str,
    dest: Option<String>,
    format: &'static str,
}

fn mode_name(m: traits::ParseMode) -> &'static str {
    match m {
        traits::ParseMode::Wasm => "wasm",
        traits::ParseMode::Dwarf => "dwarf",
        traits::ParseMode::Auto => "auto",
    }
}
fn format_name(f: traits::OutputFormat) -> &'static str {
    match f {
        traits::OutputFormat::Text => "text",
        traits::OutputFormat::Csv => "csv",
        traits::OutputFormat::Json => "json",
    }
}

impl Common {
    fn gen(rng: &mut Rng, a: &mut Args, short_mode: bool) -> Common {
        let mut c = Common { input: format!("in{}.wasm", rng.below(100)), mode: "auto", dest: None, format: "text" };
        a.pos.push(c.input.clone());
        if rng.chance(1, 2) {
            c.mode = *rng.pick(&["auto", "wasm", "dwarf"]);
            a.val(rng, if short_mode { &["-d", "--mode"] } else { &["--mode"] }, Some(c.mode));
        }
        if rng.chance(1, 2) {
            let d = rng.pick(&["-", "out.txt", "dir/x"]).to_string();
            a.val(rng, &["-o"], Some(d.clone()));
            if d != "-" {
                c.dest = Some(d);
            }
        }
        if rng.chance(1, 2) {
            c.format = *rng.pick(&["text", "json", "csv"]);
            a.val(rng, &["-f", "--format"], Some(c.format));
        }
        c
    }
    fn check(&self, o: &dyn CommonCliOptions) -> R<()> {
        eq("input", o.input(), Path::new(&self.input))?;
        eq("parse mode", mode_name(o.parse_mode()), self.mode)?;
        eq("output format", format_name(o.output_format()), self.format)?;
        match (o.output_destination(), &self.dest) {
            (OutputDestination::Stdout, None) => Ok(()),
            (OutputDestination::Path(p), Some(d)) if p == Path::new(d) => Ok(()),
            (got, want) => Err(format!("output destination {:?} instead of {:?}", got, want)),
        }
    }
}

fn words(rng: &mut Rng, a: &mut Args) -> Vec<String> {
    let v: Vec<String> = (0..rng.below(3)).map(|i| format!("item{}", i + rng.below(5))).collect();
    a.pos.extend(v.iter().cloned());
    v
}

pub fn p15(rng: &mut Rng) -> R<()> {
    let kind = rng.below(6);
    let from_cli = rng.chance(1, 2);
    let steps = rng.below(6);
    let mut log = vec![];
    let mut a = Args::new();
    let r = match kind {
        0 => top(rng, from_cli, steps, &mut a, &mut log),
        1 => doms(rng, from_cli, steps, &mut a, &mut log),
        2 => paths(rng, from_cli, steps, &mut a, &mut log),
        3 => monos(rng, from_cli, steps, &mut a, &mut log),
        4 => diff(rng, from_cli, steps, &mut a, &mut log),
        _ => garbage(rng, from_cli, steps, &mut a, &mut log),
    };
    r.map_err(|e| format!("options {} {}: {}", ["top", "dominators", "paths", "monos", "diff", "garbage"][kind], log.join(", "), e))
}

macro_rules! start {
    ($rng:ident, $cli:ident, $a:ident, $log:ident, $cmd:expr, $var:ident, $com:ident, $new:expr) => {{
        if $cli {
            let args = std::mem::replace($a, Args::new());
            $log.push(format!("arguments {:?} {:?}", args.flags, args.pos));
            let o = args.parse($rng, $cmd)?;
            $com.check(&o)?;
            match o {
                opt::Options::$var(t) => {
                    $com.check(&t)?;
                    t
                }
                x => return Err(format!("parsed as {:?}", x)),
            }
        } else {
            $log.push("default".to_string());
            $new
        }
    }};
}

type L<'a> = &'a mut Vec<String>;

fn top(rng: &mut Rng, cli: bool, steps: usize, a: &mut Args, log: L) -> R<()> {
    let (mut n, mut rp, mut rt) = (M, false, false);
    let com = Common::gen(rng, a, false);
    if cli {
        let x = num(rng);
        let v = maybe(rng, x);
        n = v.unwrap_or(n);
        a.val(rng, &["-n"], v);
        rp = rng.chance(1, 2);
        let f = *rng.pick(&["-r", "--retaining-paths"]);
        a.flag(f, rp);
        rt = rng.chance(1, 2);
        a.flag("--retained", rt);
    }
    let mut t = start!(rng, cli, a, log, "top", Top, com, opt::Top::new());
    for i in 0..=steps {
        eq("max_items", t.max_items(), n)?;
        eq("retaining_paths", t.retaining_paths(), rp)?;
        eq("retained", t.retained(), rt)?;
        if i == steps {
            break;
        }
        match rng.below(3) {
            0 => {
                n = num(rng);
                t.set_max_items(n);
                log.push(format!("set_max_items({})", n));
            }
            1 => {
                rp = rng.chance(1, 2);
                t.set_retaining_paths(rp);
                log.push(format!("set_retaining_paths({})", rp));
            }
            _ => {
                rt = rng.chance(1, 2);
                t.set_retained(rt);
                log.push(format!("set_retained({})", rt));
            }
        }
    }
    Ok(())
}

fn doms(rng: &mut Rng, cli: bool, steps: usize, a: &mut Args, log: L) -> R<()> {
    let (mut d, mut r, mut re) = (M, M, false);
    let mut items: Vec<String> = vec![];
    let com = Common::gen(rng, a, false);
    if cli {
        let x = num(rng);
        let v = maybe(rng, x);
        d = v.unwrap_or(d);
        a.val(rng, &["-d"], v);
        let x = num(rng);
        let v = maybe(rng, x);
        r = v.unwrap_or(r);
        a.val(rng, &["-r"], v);
        re = rng.chance(1, 2);
        a.flag("--regex", re);
        items = words(rng, a);
    }
    let mut t = start!(rng, cli, a, log, "dominators", Dominators, com, opt::Dominators::new());
    for i in 0..=steps {
        eq("max_depth", t.max_depth(), d)?;
        eq("max_rows", t.max_rows(), r)?;
        eq("using_regexps", t.using_regexps(), re)?;
        eq("items", t.items(), &items[..])?;
        if i == steps {
            break;
        }
        match rng.below(3) {
            0 => {
                d = num(rng);
                t.set_max_depth(d);
                log.push(format!("set_max_depth({})", d));
            }
            1 => {
                r = num(rng);
                t.set_max_rows(r);
                log.push(format!("set_max_rows({})", r));
            }
            _ => {
                re = rng.chance(1, 2);
                t.set_using_regexps(re);
                log.push(format!("set_using_regexps({})", re));
            }
        }
    }
    Ok(())
}

fn paths(rng: &mut Rng, cli: bool, steps: usize, a: &mut Args, log: L) -> R<()> {
    let (mut d, mut r, mut de, mut re) = (10, 10, false, false);
    let mut items: Vec<String> = vec![];
    let com = Common::gen(rng, a, false);
    if cli {
        let x = num(rng);
        let v = maybe(rng, x);
        d = v.unwrap_or(d);
        a.val(rng, &["-d"], v);
        let x = num(rng);
        let v = maybe(rng, x);
        r = v.unwrap_or(r);
        a.val(rng, &["-r"], v);
        re = rng.chance(1, 2);
        a.flag("--regex", re);
        de = rng.chance(1, 2);
        a.flag("--descending", de);
        items = words(rng, a);
    }
    let mut t = start!(rng, cli, a, log, "paths", Paths, com, opt::Paths::new());
    for i in 0..=steps {
        eq("max_depth", t.max_depth(), d)?;
        eq("max_paths", t.max_paths(), r)?;
        eq("descending", t.descending(), de)?;
        eq("using_regexps", t.using_regexps(), re)?;
        eq("functions", t.functions(), &items[..])?;
        if i == steps {
            break;
        }
        match rng.below(5) {
            0 => {
                d = num(rng);
                t.set_max_depth(d);
                log.push(format!("set_max_depth({})", d));
            }
            1 => {
                r = num(rng);
                t.set_max_paths(r);
                log.push(format!("set_max_paths({})", r));
            }
            2 => {
                de = rng.chance(1, 2);
                t.set_descending(de);
                log.push(format!("set_descending({})", de));
            }
            3 => {
                let f = format!("f{}", rng.below(5));
                t.add_function(f.clone());
                log.push(format!("add_function({:?})", f));
                items.push(f);
            }
            _ => {
                re = rng.chance(1, 2);
                t.set_using_regexps(re);
                log.push(format!("set_using_regexps({})", re));
            }
        }
    }
    Ok(())
}

fn monos(rng: &mut Rng, cli: bool, steps: usize, a: &mut Args, log: L) -> R<()> {
    // What each limit effectively is.
    let (mut g, mut m, mut only, mut re) = (10, 10, false, false);
    let mut items: Vec<String> = vec![];
    let com = Common::gen(rng, a, true);
    if cli {
        let x = num(rng);
        let v = maybe(rng, x);
        g = v.unwrap_or(g);
        a.val(rng, &["-m", "--max-generics"], v);
        let x = num(rng);
        let v = maybe(rng, x);
        m = v.unwrap_or(m);
        a.val(rng, &["-n", "--max-monos"], v);
        only = rng.chance(1, 2);
        let f = *rng.pick(&["-g", "--only-generics"]);
        a.flag(f, only);
        re = rng.chance(1, 2);
        a.flag("--regex", re);
        if rng.chance(1, 2) {
            a.flag(*rng.pick(&["-a", "--all"]), true);
            g = M;
            m = M;
        }
        if rng.chance(1, 3) {
            a.flag("--all-generics", true);
            g = M;
        }
        if rng.chance(1, 3) {
            a.flag("--all-monos", true);
            m = M;
        }
        items = words(rng, a);
    }
    let mut t = start!(rng, cli, a, log, "monos", Monos, com, opt::Monos::new());
    for i in 0..=steps {
        eq("max_generics", t.max_generics(), g)?;
        eq("max_monos", t.max_monos(), m)?;
        eq("only_generics", t.only_generics(), only)?;
        eq("using_regexps", t.using_regexps(), re)?;
        eq("functions", t.functions(), &items[..])?;
        if i == steps {
            break;
        }
        match rng.below(3) {
            0 => {
                g = num(rng);
                t.set_max_generics(g);
                log.push(format!("set_max_generics({})", g));
            }
            1 => {
                m = num(rng);
                t.set_max_monos(m);
                log.push(format!("set_max_monos({})", m));
            }
            _ => {
                only = rng.chance(1, 2);
                t.set_only_generics(only);
                log.push(format!("set_only_generics({})", only));
            }
        }
    }
    Ok(())
}

fn diff(rng: &mut Rng, cli: bool, steps: usize, a: &mut Args, log: L) -> R<()> {
    let (mut n, mut re) = (20, false);
    let mut items: Vec<String> = vec![];
    let com = Common::gen(rng, a, false);
    let new_input = format!("new{}.wasm", rng.below(100));
    a.pos.push(new_input.clone());
    if cli {
        let x = num(rng);
        let v = maybe(rng, x);
        n = v.unwrap_or(n);
        a.val(rng, &["-n"], v);
        if rng.chance(1, 2) {
            a.flag(*rng.pick(&["-a", "--all"]), true);
            n = M;
        }
        re = rng.chance(1, 2);
        a.flag("--regex", re);
        items = words(rng, a);
    }
    let mut t = start!(rng, cli, a, log, "diff", Diff, com, opt::Diff::default());
    if cli {
        eq("new_input", t.new_input(), Path::new(&new_input))?;
    }
    for i in 0..=steps {
        eq("max_items", t.max_items(), n)?;
        eq("using_regexps", t.using_regexps(), re)?;
        eq("items", t.items(), &items[..])?;
        if i == steps {
            break;
        }
        match rng.below(2) {
            0 => {
                n = num(rng);
                t.set_max_items(n);
                log.push(format!("set_max_items({})", n));
            }
            _ => {
                re = rng.chance(1, 2);
                t.set_using_regexps(re);
                log.push(format!("set_using_regexps({})", re));
            }
        }
    }
    Ok(())
}

fn garbage(rng: &mut Rng, cli: bool, steps: usize, a: &mut Args, log: L) -> R<()> {
    let (mut n, mut ds) = (10, false);
    let com = Common::gen(rng, a, false);
    if cli {
        let x = num(rng);
        let v = maybe(rng, x);
        n = v.unwrap_or(n);
        a.val(rng, &["-n"], v);
        if rng.chance(1, 2) {
            a.flag(*rng.pick(&["-a", "--all"]), true);
            n = M;
        }
        ds = rng.chance(1, 2);
        a.flag("--show-data-segments", ds);
    }
    let mut t = start!(rng, cli, a, log, "garbage", Garbage, com, opt::Garbage::new());
    for i in 0..=steps {
        eq("max_items", t.max_items(), n)?;
        eq("show_data_segments", t.show_data_segments(), ds)?;
        if i == steps {
            break;
        }
        n = num(rng);
        t.set_max_items(n);
        log.push(format!("set_max_items({})", n));
    }
    Ok(())
}
