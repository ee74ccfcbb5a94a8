//! Bounded checks of the real code, and the counterexample search of the
//! checks in /verif: generate inputs, run twiggy's crates on them, and compare
//! with oracles written from the properties.
//!
//!   replay PROPERTY --seed N --budget SECONDS [--count N] --scratch DIR
//!                   [--bin TWIGGY] [--case SEED] --out FILE
//!
//! Prints one line of JSON. Exit 0: all cases agree; 1: one does not (FILE
//! describes it); 2: usage.
mod cli;
mod dwarf;
mod graph;
mod model;
mod opts;
mod reports;
mod rng;
mod select;
mod text;
mod wasm;

use rng::Rng;
use std::alloc::{GlobalAlloc, Layout, System};
use std::collections::hash_map::DefaultHasher;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// The system's allocator, which says who asks for more than any file here needs.
struct Alloc;
unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > 1 << 32 {
            eprintln!("allocation of {} bytes by\n{}", l.size(), std::backtrace::Backtrace::force_capture());
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
}
#[global_allocator]
static ALLOC: Alloc = Alloc;

enum Outcome {
    Held { nontrivial: bool, sig: u64 },
    Known(String),
    Broken(String),
}
use Outcome::*;

#[derive(Clone)]
struct Env {
    scratch: PathBuf,
    bin: Option<PathBuf>,
}

fn sig(s: &str) -> u64 {
    let mut h = DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}

fn case(prop: &str, seed: u64, env: &Env, sample: &mut Option<String>) -> Outcome {
    let mut rng = Rng::new(seed);
    let rng = &mut rng;
    let graph = |rng: &mut Rng| {
        let c = model::gen(rng);
        let d = c.describe();
        (c, d)
    };
    use reports::Look;
    let t = Look { text: true, json: false, csv: false };
    let j = Look { text: false, json: true, csv: false };
    let (r, desc, nontrivial) = match prop {
        "P02" | "P04" | "P05" | "P06" | "P07" | "P08" | "P09" | "P10" | "P11" | "P12" | "P13" | "P14" | "P23" => {
            let (c, d) = graph(rng);
            *sample = Some(d.clone());
            let (a, b) = (rng.chance(1, 2), rng.chance(1, 2));
            let r = std::panic::AssertUnwindSafe(|| match prop {
                "P02" => graph::p02(&c),
                "P04" => graph::p04(&c, a),
                "P05" => graph::p05(&c, a),
                "P06" => graph::p06(&c, a, b),
                "P07" => reports::garbage(rng, &c, reports::ALL),
                "P08" => reports::top(rng, &c, reports::ALL),
                "P09" => {
                    reports::paths(rng, &c, reports::ALL)?;
                    reports::errors(rng, &c)
                }
                "P10" => {
                    reports::diff(rng, &c, reports::ALL)?;
                    reports::errors(rng, &c)
                }
                "P11" => reports::monos(rng, &c, reports::ALL),
                "P12" => reports::any(rng, &c, j),
                "P13" => reports::any(rng, &c, t),
                "P14" => reports::dominators(rng, &c, reports::ALL),
                _ => reports::any(rng, &c, reports::ALL),
            });
            (caught(r), d, c.nodes.len() > 1 && (!c.edges.is_empty() || matches!(prop, "P08" | "P10" | "P11" | "P12" | "P13" | "P23")))
        }
        "P21" => {
            if env.bin.is_some() && rng.chance(1, 60) {
                let r = caught(std::panic::AssertUnwindSafe(|| cli::p21(rng, env.bin.as_ref().unwrap(), &env.scratch)));
                (r, String::new(), true)
            } else {
                let (c, d) = graph(rng);
                *sample = Some(d.clone());
                (caught(std::panic::AssertUnwindSafe(|| reports::deterministic(rng, &c))), d, c.nodes.len() > 1)
            }
        }
        "P16" => (caught(std::panic::AssertUnwindSafe(|| graph::p16(rng))), String::new(), true),
        "P20" => (caught(std::panic::AssertUnwindSafe(|| graph::p20(rng))), String::new(), true),
        "P01" | "P03" | "P24" => {
            let m = wasm::gen(rng);
            let d = wasm::describe(&m);
            *sample = Some(d.clone());
            let mut known = None;
            let r = caught(std::panic::AssertUnwindSafe(|| match prop {
                "P01" => wasm::p01(&m),
                "P03" => wasm::p03(&m),
                _ => match wasm::p24(&m)? {
                    wasm::Data::Ok => Ok(()),
                    wasm::Data::Known(k) => {
                        known = Some(k);
                        Ok(())
                    }
                },
            }));
            if let (Ok(()), Some(k)) = (&r, known) {
                return Known(k);
            }
            (r, d, m.bytes.len() > 8)
        }
        "P17" => {
            let b = wasm::bytes(rng);
            let d = format!("bytes {}\n", b.iter().map(|x| format!("{:02x}", x)).collect::<String>());
            *sample = Some(d.clone());
            let n = b.len() > 8;
            let mut r = caught(std::panic::AssertUnwindSafe(|| wasm::p17(&b)));
            if r.is_ok() && rng.chance(1, 5) {
                r = caught(std::panic::AssertUnwindSafe(|| dwarf::p17(rng, &env.scratch)));
                if let Err(e) = &r {
                    let e = format!("{}\n{}", e, dwarf::LAST.with(|l| l.borrow().clone()));
                    // The recorded findings: the object crate panics on section
                    // headers that point outside the file, and the goblin crate
                    // allocates as many headers or symbols as they claim.
                    if dwarf::of_the_object_crates(&e) {
                        return Known(e);
                    }
                    r = Err(e);
                }
            }
            (r, d, n)
        }
        "P15" => (caught(std::panic::AssertUnwindSafe(|| opts::p15(rng))), String::new(), true),
        "P18" => (caught(std::panic::AssertUnwindSafe(|| select::p18(rng, &env.scratch))), String::new(), true),
        "P19" => (caught(std::panic::AssertUnwindSafe(|| dwarf::p19(rng, &env.scratch))), String::new(), true),
        "P22" => match &env.bin {
            Some(b) => (caught(std::panic::AssertUnwindSafe(|| cli::p22(rng, b, &env.scratch))), String::new(), true),
            None => (Ok(()), String::new(), false),
        },
        _ => {
            eprintln!("unknown property {}", prop);
            std::process::exit(2);
        }
    };
    if sample.is_none() {
        *sample = Some(format!("case seed {}", seed));
    }
    match r {
        Ok(()) => Held { nontrivial, sig: sig(&format!("{}{}", desc, if desc.is_empty() { seed } else { 0 })) },
        Err(e) => Broken(format!("{}\n{}", e, desc)),
    }
}

thread_local! {
    static PANIC: std::cell::RefCell<String> = std::cell::RefCell::new(String::new());
}

fn caught(f: impl FnOnce() -> Result<(), String> + std::panic::UnwindSafe) -> Result<(), String> {
    match std::panic::catch_unwind(f) {
        Ok(r) => r,
        Err(_) => Err(format!("panic: {}", PANIC.with(|p| p.borrow().clone()))),
    }
}

fn q(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o + "\""
}

fn main() {
    let mut args = std::env::args().skip(1);
    let prop = args.next().unwrap_or_default();
    if prop == "--parse" {
        // What parsing one file does to the process.
        let r = twiggy_parser::read_and_parse(args.next().unwrap_or_default(), twiggy_traits::ParseMode::Dwarf);
        println!("{}", if r.is_ok() { "parsed" } else { "rejected" });
        return;
    }
    let (mut seed, mut budget, mut count, mut one, mut start, mut each) = (1u64, 10.0f64, u64::MAX, None, 0u64, false);
    let mut out = PathBuf::from("replay.txt");
    let mut env = Env { scratch: std::env::temp_dir(), bin: None };
    while let Some(a) = args.next() {
        let v = args.next().unwrap_or_default();
        match a.as_str() {
            "--seed" => seed = v.parse().unwrap(),
            "--budget" => budget = v.parse().unwrap(),
            "--count" => count = v.parse().unwrap(),
            "--start" => start = v.parse().unwrap(),
            "--each" => each = true,
            "--case" => one = Some(v.parse::<u64>().unwrap()),
            "--scratch" => env.scratch = v.into(),
            "--bin" => env.bin = Some(v.into()),
            "--out" => out = v.into(),
            _ => {
                eprintln!("unknown option {}", a);
                std::process::exit(2);
            }
        }
    }
    std::panic::set_hook(Box::new(|i| {
        let s = i.to_string();
        PANIC.with(|p| *p.borrow_mut() = s);
    }));
    // A case that never ends is a failure too.
    let begun = Instant::now();
    let last = Arc::new(AtomicU64::new(0));
    let current = Arc::new(Mutex::new(0u64));
    {
        let (last, current, prop, out) = (last.clone(), current.clone(), prop.clone(), out.clone());
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            let idle = begun.elapsed().as_millis() as u64 - last.load(Ordering::SeqCst);
            if idle > 60_000 {
                let c = *current.lock().unwrap();
                let what = format!("the case did not end within 60 s (rerun with --case {})", c);
                let _ = std::fs::write(&out, format!("property {}\ncase seed {}\n{}\n", prop, c, what));
                println!("{{\"broken\": {}, \"case\": {}, \"evaluations\": 0, \"distinct\": 0, \"known\": [], \"samples\": []}}", q(&what), c);
                std::process::exit(1);
            }
        });
    }
    // Deep recursion is the code's own; give it an ordinary main thread stack.
    let worker = std::thread::Builder::new().stack_size(8 << 20).spawn(move || {
        let mut seen: HashSet<u64> = HashSet::new();
        let (mut n, mut trivial) = (0u64, 0u64);
        let mut known: Vec<String> = vec![];
        let mut samples: Vec<String> = vec![];
        let mut broken = None;
        let mut i = start;
        loop {
            let cs = match one {
                Some(c) => c,
                None => sig(&format!("{} {} {}", seed, prop, i)),
            };
            *current.lock().unwrap() = cs;
            last.store(begun.elapsed().as_millis() as u64, Ordering::SeqCst);
            // For the driver, should this process die here.
            if each || one.is_some() || (i - start) % 64 == 0 {
                let _ = std::fs::write(out.with_extension("at"), format!("{} {}", cs, i));
            }
            let mut sample = None;
            let r = case(&prop, cs, &env, &mut sample);
            n += 1;
            match r {
                Held { nontrivial, sig } => {
                    if nontrivial {
                        seen.insert(sig);
                    } else {
                        trivial += 1;
                    }
                    if nontrivial && samples.len() < 3 {
                        samples.extend(sample.map(|s| format!("case seed {}: {}", cs, s.chars().take(600).collect::<String>())));
                    }
                }
                Known(k) => {
                    seen.insert(cs);
                    if known.len() < 3 {
                        known.push(format!("case seed {}: {}", cs, k));
                    }
                }
                Broken(e) => {
                    broken = Some((cs, e));
                    break;
                }
            }
            i += 1;
            if one.is_some() || i - start >= count || begun.elapsed().as_secs_f64() > budget {
                break;
            }
        }
        // Distinct cases, for the driver to count across processes.
        let mut sigs = vec![];
        for s in seen.iter().take(400_000) {
            sigs.extend(s.to_le_bytes());
        }
        let _ = std::fs::write(out.with_extension("sigs"), sigs);
        let list = |v: &[String]| v.iter().map(|s| q(s)).collect::<Vec<_>>().join(", ");
        let b = match &broken {
            None => "null".to_string(),
            Some((c, e)) => {
                let _ = std::fs::write(&out, format!("property {}\nrerun with: replay {} --case {}\n{}\n", prop, prop, c, e));
                q(&e.chars().take(2000).collect::<String>())
            }
        };
        println!(
            "{{\"broken\": {}, \"case\": {}, \"evaluations\": {}, \"distinct\": {}, \"trivial\": {}, \"known\": [{}], \"samples\": [{}]}}",
            b,
            broken.as_ref().map_or(0, |x| x.0),
            n,
            seen.len(),
            trivial,
            list(&known),
            list(&samples)
        );
        let _ = std::fs::remove_file(out.with_extension("at"));
        broken.is_some()
    });
    let bad = worker.unwrap().join().unwrap_or(true);
    std::process::exit(bad as i32);
}
