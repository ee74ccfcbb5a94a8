//! P22: the command itself, with inputs that cannot be read and outputs that
//! cannot be written. Everything happens inside a scratch directory.
use crate::rng::Rng;
use crate::text::R;
use crate::wasm;
use std::path::Path;
use std::process::{Command, Stdio};

macro_rules! ck {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}

pub struct Ran {
    pub ok: bool,
    pub code: Option<i32>,
    pub out: Vec<u8>,
    pub err: Vec<u8>,
}

fn run(bin: &Path, dir: &Path, args: &[&str], stdout: Option<Stdio>) -> R<Ran> {
    let captured = stdout.is_none();
    let child = Command::new(bin)
        .args(args)
        .current_dir(dir)
        .stdin(Stdio::null())
        .stdout(stdout.unwrap_or_else(Stdio::piped))
        .stderr(Stdio::piped())
        .spawn()
        .map_err(|e| format!("cannot run {:?}: {}", bin, e))?;
    let o = child.wait_with_output().map_err(|e| e.to_string())?;
    Ok(Ran { ok: o.status.success(), code: o.status.code(), out: if captured { o.stdout } else { vec![] }, err: o.stderr })
}

fn failed(what: &str, r: &Ran) -> R<()> {
    let err = String::from_utf8_lossy(&r.err);
    ck!(!r.ok, "{}: exit status 0; stdout {:?}", what, String::from_utf8_lossy(&r.out));
    ck!(r.code == Some(1), "{}: ended with status {:?}; stderr {:?}", what, r.code, err);
    ck!(err.starts_with("error: ") && err.trim_end().len() > "error:".len(), "{}: no error message: {:?}", what, err);
    Ok(())
}

pub fn p22(rng: &mut Rng, bin: &Path, scratch: &Path) -> R<()> {
    let m = wasm::gen(rng);
    let d = scratch;
    let w = |n: &str, b: &[u8]| std::fs::write(d.join(n), b).map_err(|e| e.to_string());
    w("in.wasm", &m.bytes)?;
    w("bad.wasm", &m.bytes[..m.bytes.len() - 1 - rng.below(m.bytes.len() - 1)].iter().rev().cloned().collect::<Vec<_>>())?;
    let f = *rng.pick(&["text", "json", "csv"]);
    let mut inputs: Vec<&str> = vec!["in.wasm"];
    let cmd: Vec<&str> = match rng.below(6) {
        0 => vec!["top"],
        1 => vec!["dominators"],
        2 => vec!["paths"],
        3 => vec!["monos"],
        4 => {
            inputs.push("in.wasm");
            vec!["diff"]
        }
        _ => vec!["garbage"],
    };
    let args = |inputs: &[&'static str], extra: &[&'static str]| -> Vec<&'static str> {
        let mut a: Vec<&'static str> = vec![];
        a.extend(cmd.iter().map(|c| -> &'static str { match *c { "top" => "top", "dominators" => "dominators", "paths" => "paths", "monos" => "monos", "diff" => "diff", _ => "garbage" } }));
        a.extend(inputs);
        a.extend(["-f", match f { "text" => "text", "json" => "json", _ => "csv" }]);
        a.extend(extra);
        a
    };
    let inputs: Vec<&'static str> = vec!["in.wasm"; inputs.len()];
    let go = || -> R<()> {
        // It works, and a file gets the same bytes as standard output.
        let a = args(&inputs, &[]);
        let good = run(bin, d, &a, None)?;
        ck!(good.ok, "{:?} fails: {}", a, String::from_utf8_lossy(&good.err));
        let r = run(bin, d, &args(&inputs, &["-o", "out"]), None)?;
        ck!(r.ok, "{:?} -o out fails: {}", a, String::from_utf8_lossy(&r.err));
        ck!(r.out.is_empty(), "-o out also writes to standard output");
        let file = std::fs::read(d.join("out")).map_err(|e| format!("-o out: {}", e))?;
        ck!(file == good.out, "-o out wrote {:?} instead of {:?}", String::from_utf8_lossy(&file), String::from_utf8_lossy(&good.out));
        // Writing over a longer file leaves nothing of it behind.
        std::fs::write(d.join("out"), vec![b'x'; good.out.len() + 100]).map_err(|e| e.to_string())?;
        let r = run(bin, d, &args(&inputs, &["-o", "out"]), None)?;
        let file = std::fs::read(d.join("out")).map_err(|e| e.to_string())?;
        ck!(r.ok && file == good.out, "rewriting a longer file leaves {:?}", String::from_utf8_lossy(&file));

        // Unreadable inputs.
        let k = inputs.len();
        for bad in ["missing.wasm", "adir", "bad.wasm", "no/such/in.wasm", "in.wasm/x"] {
            for p in 0..k {
                let mut i = inputs.clone();
                i[p] = bad;
                failed(&format!("input {:?}", i), &run(bin, d, &args(&i, &[]), None)?)?;
                if bad == "missing.wasm" {
                    let _ = std::fs::remove_file(d.join("out2"));
                    failed(&format!("input {:?} with -o", i), &run(bin, d, &args(&i, &["-o", "out2"]), None)?)?;
                }
            }
        }
        // Unwritable outputs.
        if !good.out.is_empty() {
            failed("-o /dev/full", &run(bin, d, &args(&inputs, &["-o", "/dev/full"]), None)?)?;
            let full = std::fs::OpenOptions::new().write(true).open("/dev/full").map_err(|e| e.to_string())?;
            failed("standard output on /dev/full", &run(bin, d, &args(&inputs, &[]), Some(full.into()))?)?;
        }
        if !good.out.is_empty() {
            // A pipe nobody reads any more.
            let mut c = std::process::Command::new("true").stdin(std::process::Stdio::piped()).spawn().map_err(|e| e.to_string())?;
            let end = c.stdin.take().unwrap();
            c.stdin = None;
            let _ = c.wait();
            failed("standard output on a closed pipe", &run(bin, d, &args(&inputs, &[]), Some(end.into()))?)?;
        }
        failed("-o adir", &run(bin, d, &args(&inputs, &["-o", "adir"]), None)?)?;
        failed("-o no/such/out", &run(bin, d, &args(&inputs, &["-o", "no/such/out"]), None)?)?;
        Ok(())
    };
    std::fs::create_dir_all(d.join("adir")).map_err(|e| e.to_string())?;
    go().map_err(|e| format!("{:?} -f {}: {}\n{}", cmd, f, e, wasm::describe(&m)))
}

/// P21 across processes: hash seeds and addresses differ between runs.
pub fn p21(rng: &mut Rng, bin: &Path, scratch: &Path) -> R<()> {
    let m = wasm::gen(rng);
    let n = wasm::gen(rng);
    std::fs::write(scratch.join("in.wasm"), &m.bytes).map_err(|e| e.to_string())?;
    std::fs::write(scratch.join("new.wasm"), &n.bytes).map_err(|e| e.to_string())?;
    let f = *rng.pick(&["text", "json", "csv"]);
    let names: Vec<String> = m.edges.iter().map(|e| e.1.clone()).collect();
    let new: Vec<String> = n.edges.iter().map(|e| e.1.clone()).collect();
    let a = crate::reports::command(rng, &names, &new);
    // Enumerating every path can take very long; the in-process check bounds it by the graph.
    let mut a: Vec<&str> = a.iter().skip(1).filter(|s| !s.contains('\0')).map(|s| s.as_str()).collect();
    if a[0] == "paths" && m.edges.len() > 12 {
        a = vec!["paths", "-d", "3", "in.wasm"];
    }
    a.splice(1..1, ["-f", f]);
    let first = run(bin, scratch, &a, None)?;
    for _ in 0..3 {
        let r = run(bin, scratch, &a, None)?;
        ck!(r.out == first.out && r.err == first.err && r.code == first.code, "{:?} printed {:?} and then {:?}\n{}{}", a, String::from_utf8_lossy(&first.out), String::from_utf8_lossy(&r.out), wasm::describe(&m), wasm::describe(&n));
    }
    Ok(())
}
