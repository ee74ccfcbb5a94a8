//! P18: modes and formats, by name and by looking at the file.
use crate::dwarf;
use crate::rng::Rng;
use crate::text::R;
use crate::wasm;
use std::cell::RefCell;
use std::io;
use std::path::Path;
use std::str::FromStr;
use twiggy_ir as ir;
use twiggy_traits::{Emit, OutputFormat, ParseMode};

macro_rules! ck {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}

/// Records which emitters ran.
struct Rec(RefCell<Vec<&'static str>>, bool);
impl Rec {
    fn go(&self, what: &'static str, d: &mut dyn io::Write) -> anyhow::Result<()> {
        self.0.borrow_mut().push(what);
        d.write_all(what.as_bytes())?;
        anyhow::ensure!(!self.1, "deliberate");
        Ok(())
    }
}
impl Emit for Rec {
    fn emit_text(&self, _: &ir::Items, d: &mut dyn io::Write) -> anyhow::Result<()> {
        self.go("text", d)
    }
    fn emit_csv(&self, _: &ir::Items, d: &mut dyn io::Write) -> anyhow::Result<()> {
        self.go("csv", d)
    }
    fn emit_json(&self, _: &ir::Items, d: &mut dyn io::Write) -> anyhow::Result<()> {
        self.go("json", d)
    }
}

fn near(rng: &mut Rng, names: &[&str]) -> String {
    let mut s: Vec<char> = rng.pick(names).chars().collect();
    match rng.below(8) {
        0 => s.clear(),
        1 => {
            s.pop();
        }
        2 => s.insert(0, *rng.pick(&[' ', 'x', '-'])),
        3 => s.push(*rng.pick(&[' ', 's', '\0'])),
        4 => s[0] = s[0].to_ascii_uppercase(),
        5 => s = s.iter().map(|c| c.to_ascii_uppercase()).collect(),
        6 => {
            let k = rng.below(s.len());
            s[k] = (b'a' + rng.below(26) as u8) as char;
        }
        _ => {}
    }
    s.into_iter().collect()
}

fn names(rng: &mut Rng) -> R<()> {
    for _ in 0..40 {
        let n = near(rng, &["wasm", "dwarf", "auto", "text", "json", "csv", "html", "dot", "elf"]);
        let got = match ParseMode::from_str(&n) {
            Ok(ParseMode::Wasm) => Some("wasm"),
            Ok(ParseMode::Dwarf) => Some("dwarf"),
            Ok(ParseMode::Auto) => Some("auto"),
            Err(_) => None,
        };
        let want = ["wasm", "dwarf", "auto"].iter().find(|x| **x == n).cloned();
        ck!(got == want, "mode {:?} selects {:?} instead of {:?}", n, got, want);
        let got = match OutputFormat::from_str(&n) {
            Ok(OutputFormat::Text) => Some("text"),
            Ok(OutputFormat::Csv) => Some("csv"),
            Ok(OutputFormat::Json) => Some("json"),
            Err(_) => None,
        };
        let want = ["text", "csv", "json"].iter().find(|x| **x == n).cloned();
        ck!(got == want, "format {:?} selects {:?} instead of {:?}", n, got, want);
    }
    let items = ir::ItemsBuilder::new(1).finish();
    for (f, name) in [(OutputFormat::Text, "text"), (OutputFormat::Csv, "csv"), (OutputFormat::Json, "json")] {
        for fail in [false, true] {
            let r = Rec(RefCell::new(vec![]), fail);
            let mut out = vec![];
            let res = r.emit(&items, &mut out, f);
            ck!(*r.0.borrow() == [name], "emitting {} ran {:?}", name, r.0.borrow());
            ck!(out == name.as_bytes(), "emitting {} wrote {:?}", name, out);
            ck!(res.is_err() == fail, "emitting {} returned {:?}", name, res);
        }
    }
    ck!(matches!(ParseMode::default(), ParseMode::Auto), "the default mode is not auto");
    ck!(matches!(OutputFormat::default(), OutputFormat::Text), "the default format is not text");
    Ok(())
}

/// How a parse went: the items it found, or the error.
fn sig(r: anyhow::Result<ir::Items>) -> Result<Vec<(u64, String, u32)>, String> {
    r.map(|i| i.iter().map(|x| (x.id().serializable(), x.name().to_string(), x.size())).collect()).map_err(|e| e.to_string())
}

fn files(rng: &mut Rng, scratch: &Path) -> R<()> {
    let what = rng.below(7);
    let data: Vec<u8> = match what {
        0 | 1 => wasm::gen(rng).bytes,
        2 | 3 => dwarf::gen(rng).bytes,
        // almost the magic number: a byte changed, missing, or in front
        4 | 5 => {
            let mut v = if rng.chance(1, 2) { wasm::gen(rng).bytes } else { b"\0asm and something else".to_vec() };
            let k = rng.below(4.min(v.len()));
            match rng.below(4) {
                0 => {
                    v.remove(k);
                }
                1 => v.insert(k, *rng.pick(&[0, b'a', b's', b'm', b'X'])),
                2 => v[k] ^= 1 << rng.below(8),
                _ => v[k] = rng.next() as u8,
            }
            v
        }
        _ => {
            let n = rng.below(6);
            let mut v = b"\0asm\x01\0\0\0"[..n].to_vec();
            if rng.chance(1, 2) {
                v.push(rng.next() as u8);
            }
            v
        }
    };
    let name = *rng.pick(&["a.wasm", "a.WASM", "a", "wasm", "a.o", "a.wasm.bin", "a.wasm.wasm", "a b.wasm", "é.wasm", "x.wasmx", "x.was"]);
    let path = scratch.join(name);
    std::fs::write(&path, &data).map_err(|e| e.to_string())?;
    let parse = |mode| sig(twiggy_parser::read_and_parse(&path, mode));
    let as_wasm = sig(twiggy_parser::parse(&data));
    let run = || -> R<()> {
        let got = parse(ParseMode::Wasm);
        ck!(got == as_wasm, "wasm mode gives {:?} instead of {:?}", got, as_wasm);
        let as_dwarf = parse(ParseMode::Dwarf);
        if what < 2 {
            // (A module is an object file without functions in its debug info.)
            ck!(as_dwarf != got || as_wasm.as_ref().map_or(true, |i| i.len() == 1), "dwarf mode treats a file as wasm");
        }
        if what == 2 || what == 3 {
            ck!(as_dwarf.is_ok(), "dwarf mode rejects an object file");
            ck!(got.is_err(), "wasm mode accepts an object file: {:?}", got);
        }
        let wasm = name.rsplit_once('.').map(|x| x.1) == Some("wasm") || data.starts_with(b"\0asm");
        let want = if wasm { &as_wasm } else { &as_dwarf };
        let got = parse(ParseMode::Auto);
        ck!(got == *want, "automatic mode gives {:?} instead of {:?}", got, want);
        Ok(())
    };
    let r = run().map_err(|e| format!("file {:?} with {} bytes {:02x?}: {}", name, data.len(), &data[..data.len().min(400)], e));
    let _ = std::fs::remove_file(&path);
    r
}

pub fn p18(rng: &mut Rng, scratch: &Path) -> R<()> {
    if rng.chance(1, 4) {
        names(rng)
    } else {
        files(rng, scratch)
    }
}
