//! P19: object files with hand-made debug info.
use crate::rng::Rng;
use crate::text::R;
use std::collections::BTreeMap;
use twiggy_ir as ir;

macro_rules! ck {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}

thread_local! {
    /// The object file being parsed, for a report.
    pub static LAST: std::cell::RefCell<String> = std::cell::RefCell::new(String::new());
}

pub struct Object {
    pub bytes: Vec<u8>,
    /// Where the debug info sections end.
    pub end: usize,
    /// unit, entry -> name, size
    pub want: BTreeMap<u64, (String, u64)>,
    /// It has a malformed range (or one that does not fit).
    pub bad: Option<String>,
    pub log: String,
}

fn uleb(b: &mut Vec<u8>, mut v: u64) {
    loop {
        let x = (v & 0x7f) as u8;
        v >>= 7;
        if v == 0 {
            b.push(x);
            break;
        }
        b.push(x | 0x80);
    }
}

const SUBPROGRAM: u64 = 0x2e;
const CU: u64 = 0x11;
const VARIABLE: u64 = 0x34;
const LEXICAL: u64 = 0x0b;

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
enum At {
    Linkage, // 0x6e string
    Name,    // 0x03 string
    Low,     // 0x11 addr
    LowData, // 0x11 data8 : wrong form
    HighAddr,
    HighUdata,
    HighFlag,  // 0x12 flag: wrong form
    Ranges,    // 0x55 sec_offset
    RangesStr, // 0x55 string : wrong form
}

fn enc(a: At) -> (u64, u64) {
    match a {
        At::Linkage => (0x6e, 0x08),
        At::Name => (0x03, 0x08),
        At::Low => (0x11, 0x01),
        At::LowData => (0x11, 0x08),
        At::HighAddr => (0x12, 0x01),
        At::HighUdata => (0x12, 0x0f),
        At::HighFlag => (0x12, 0x0c),
        At::Ranges => (0x55, 0x17),
        At::RangesStr => (0x55, 0x08),
    }
}

struct B {
    abbrevs: Vec<(u64, bool, Vec<At>)>,
    info: Vec<u8>,
    ranges: Vec<u8>,
    entry: u64,
    unit: u64,
    budget: u64,
    want: BTreeMap<u64, (String, u64)>,
    bad: Option<String>,
    log: String,
    low: u64,
    trouble: bool,
}

impl B {
    fn abbrev(&mut self, tag: u64, kids: bool, ats: &[At]) {
        let key = (tag, kids, ats.to_vec());
        let k = match self.abbrevs.iter().position(|a| *a == key) {
            Some(k) => k,
            None => {
                self.abbrevs.push(key);
                self.abbrevs.len() - 1
            }
        };
        uleb(&mut self.info, k as u64 + 1);
    }
    fn str(&mut self, s: &str) {
        self.info.extend(s.bytes());
        self.info.push(0);
    }
    fn u64(&mut self, v: u64) {
        self.info.extend(v.to_le_bytes());
    }
    fn pair(&mut self, a: u64, b: u64) {
        self.ranges.extend(a.to_le_bytes());
        self.ranges.extend(b.to_le_bytes());
    }
    fn size(&mut self, rng: &mut Rng) -> u64 {
        let s = match rng.below(5) {
            0 => 0,
            1 => 1,
            2 => self.budget / (1 + rng.below(8) as u64),
            _ => rng.below(5000) as u64,
        };
        s.min(self.budget)
    }
    fn flunk(&mut self, why: String) {
        if self.bad.is_none() {
            self.bad = Some(why);
        }
    }
    fn entry(&mut self, rng: &mut Rng, depth: usize) {
        let kids = depth < 3 && rng.chance(1, 4);
        let tag = *rng.pick(&[SUBPROGRAM, SUBPROGRAM, SUBPROGRAM, SUBPROGRAM, VARIABLE, LEXICAL]);
        let me = self.entry;
        self.entry += 1;
        let mut ats = vec![];
        let (ln, nm) = (rng.chance(1, 3), rng.chance(2, 3));
        if ln {
            ats.push(At::Linkage);
        }
        if nm {
            ats.push(At::Name);
        }
        let mut size: Option<u64> = None;
        // (attribute, value bytes)
        let mut vals: Vec<(At, Vec<u8>)> = vec![];
        let addr = match rng.below(3) {
            0 => 0x1000 + rng.below(0x10000) as u64,
            1 => 0,
            _ => u64::MAX - 0x1_0000_0000 - rng.below(1000) as u64,
        };
        let trouble = self.trouble && rng.chance(1, 4);
        let shape = rng.below(7);
        let mut fail: Option<String> = None;
        match shape {
            0 => {
                // low and high address
                let s = self.size(rng);
                vals.push((At::Low, addr.to_le_bytes().to_vec()));
                if trouble {
                    match rng.below(3) {
                        0 => {
                            let lo = addr.max(1);
                            vals[0].1 = lo.to_le_bytes().to_vec();
                            let hi = lo - 1 - rng.below(lo.min(5) as usize) as u64;
                            vals.push((At::HighAddr, hi.to_le_bytes().to_vec()));
                            fail = Some(format!("high pc {} below low pc {}", hi, lo));
                        }
                        1 => {
                            vals.push((At::HighFlag, vec![1]));
                            fail = Some("high pc is a flag".into());
                        }
                        _ => {
                            vals[0] = (At::LowData, b"low\0".to_vec());
                            vals.push((At::HighAddr, addr.to_le_bytes().to_vec()));
                            fail = Some("low pc is a string".into());
                        }
                    }
                } else {
                    vals.push((At::HighAddr, (addr + s).to_le_bytes().to_vec()));
                    size = Some(s);
                }
            }
            1 | 2 => {
                // low address and length
                let mut s = self.size(rng);
                if trouble {
                    s = *rng.pick(&[1u64 << 32, u64::MAX, u32::MAX as u64 + 7]);
                    fail = Some(format!("length {}", s));
                } else {
                    size = Some(s);
                }
                let mut v = vec![];
                uleb(&mut v, s);
                vals.push((At::Low, addr.to_le_bytes().to_vec()));
                vals.push((At::HighUdata, v));
                if rng.chance(1, 8) {
                    // A contiguous range wins over a range list.
                    vals.push((At::Ranges, (self.ranges.len() as u32).to_le_bytes().to_vec()));
                    self.pair(1, 3);
                    self.pair(0, 0);
                }
            }
            3 | 4 => {
                let off = self.ranges.len() as u32;
                vals.push((At::Ranges, off.to_le_bytes().to_vec()));
                if trouble && rng.chance(1, 3) {
                    vals[0] = (At::RangesStr, b"x\0".to_vec());
                    fail = Some("ranges is a string".into());
                } else if trouble && rng.chance(1, 2) {
                    self.pair(10, 4);
                    self.pair(0, 0);
                    fail = Some("inverted range".into());
                } else if trouble {
                    vals[0].1 = 0x00ff_ffffu32.to_le_bytes().to_vec();
                    fail = Some("range list outside its section".into());
                } else {
                    let mut total = 0;
                    for _ in 0..rng.below(4) {
                        if rng.chance(1, 6) {
                            self.pair(u64::MAX, rng.below(50) as u64);
                        }
                        let s = self.size(rng).min(self.budget - total);
                        // (two zeros would end the list)
                        let a = if s > 0 && rng.chance(1, 5) { 0 } else { 8 + rng.below(1000) as u64 };
                        self.pair(a, a + s);
                        total += s;
                    }
                    self.pair(0, 0);
                    size = Some(total);
                }
            }
            5 => {
                // a low address alone is no range
                vals.push((At::Low, addr.to_le_bytes().to_vec()));
            }
            _ => {}
        }
        ats.extend(vals.iter().map(|v| v.0));
        let mut name = format!("Subroutine[{}][{}]", self.unit, me);
        self.abbrev(tag, kids, &ats);
        let l = format!("link{}", rng.below(50));
        let n = format!("name{}", rng.below(50));
        if ln {
            self.str(&l);
        }
        if nm {
            self.str(&n);
        }
        if ln {
            name = l;
        } else if nm {
            name = n;
        }
        for (_, v) in vals {
            self.info.extend(v);
        }
        self.log += &format!("unit {} entry {} tag {:#x} {:?} size {:?} fail {:?}\n", self.unit, me, tag, ats, size, fail);
        if tag == SUBPROGRAM {
            if let Some(f) = fail {
                self.flunk(f);
            }
            if let Some(s) = size {
                self.budget -= s;
                self.want.insert(self.unit << 32 | me, (name, s));
            }
        }
        if kids {
            for _ in 0..rng.below(3) {
                self.entry(rng, depth + 1);
            }
            self.info.push(0);
            // The walk over the entries counts the end of a sibling list too?
        }
    }
}

pub fn gen(rng: &mut Rng) -> Object {
    gen_with(rng, false)
}

pub fn gen_with(rng: &mut Rng, trouble: bool) -> Object {
    let mut b = B {
        abbrevs: vec![],
        info: vec![],
        ranges: vec![],
        entry: 0,
        unit: 0,
        budget: u32::MAX as u64,
        want: BTreeMap::new(),
        bad: None,
        log: String::new(),
        low: 0,
        trouble,
    };
    let units = 1 + rng.below(3);
    for u in 0..units {
        b.unit = u as u64;
        b.entry = 0;
        let s0 = b.info.len();
        b.info.extend([0u8; 4]);
        b.info.extend(4u16.to_le_bytes());
        b.info.extend(0u32.to_le_bytes());
        b.info.push(8);
        b.abbrev(CU, true, &[At::Name, At::Low]);
        b.str("unit");
        b.u64(b.low);
        b.entry = 0;
        for _ in 0..rng.below(6) {
            b.entry(rng, 0);
        }
        b.info.push(0);
        let len = (b.info.len() - s0 - 4) as u32;
        b.info[s0..s0 + 4].copy_from_slice(&len.to_le_bytes());
    }
    let mut abbrev = vec![];
    for (i, (tag, kids, ats)) in b.abbrevs.iter().enumerate() {
        uleb(&mut abbrev, i as u64 + 1);
        uleb(&mut abbrev, *tag);
        abbrev.push(*kids as u8);
        for a in ats {
            let (x, f) = enc(*a);
            uleb(&mut abbrev, x);
            uleb(&mut abbrev, f);
        }
        abbrev.extend([0, 0]);
    }
    abbrev.push(0);
    let end = 64 + abbrev.len() + b.info.len() + b.ranges.len();
    let bytes = elf(&[(".debug_abbrev", &abbrev), (".debug_info", &b.info), (".debug_ranges", &b.ranges)]);
    Object { bytes, end, want: b.want, bad: b.bad, log: b.log }
}

fn elf(secs: &[(&str, &[u8])]) -> Vec<u8> {
    let mut names = vec![0u8];
    let mut out = vec![0u8; 64];
    let mut heads: Vec<[u64; 4]> = vec![]; // name, type, offset, size
    for (n, d) in secs {
        heads.push([names.len() as u64, 1, out.len() as u64, d.len() as u64]);
        names.extend(n.bytes());
        names.push(0);
        out.extend(*d);
        while out.len() % 8 != 0 {
            out.push(0);
        }
    }
    let k = names.len() as u64;
    names.extend(b".shstrtab\0");
    heads.push([k, 3, out.len() as u64, names.len() as u64]);
    out.extend(&names);
    while out.len() % 8 != 0 {
        out.push(0);
    }
    let shoff = out.len() as u64;
    out.extend([0u8; 64]);
    for [n, t, o, s] in &heads {
        out.extend((*n as u32).to_le_bytes());
        out.extend((*t as u32).to_le_bytes());
        out.extend(0u64.to_le_bytes());
        out.extend(0u64.to_le_bytes());
        out.extend(o.to_le_bytes());
        out.extend(s.to_le_bytes());
        out.extend(0u32.to_le_bytes());
        out.extend(0u32.to_le_bytes());
        out.extend(1u64.to_le_bytes());
        out.extend(0u64.to_le_bytes());
    }
    let mut h = vec![0x7f, b'E', b'L', b'F', 2, 1, 1, 0];
    h.extend([0u8; 8]);
    h.extend(1u16.to_le_bytes());
    h.extend(62u16.to_le_bytes());
    h.extend(1u32.to_le_bytes());
    h.extend(0u64.to_le_bytes());
    h.extend(0u64.to_le_bytes());
    h.extend(shoff.to_le_bytes());
    h.extend(0u32.to_le_bytes());
    for x in [64u16, 0, 0, 64, heads.len() as u16 + 1, heads.len() as u16] {
        h.extend(x.to_le_bytes());
    }
    out[..64].copy_from_slice(&h);
    out
}

/// Corrupted debug info must not crash the parser.
pub fn mutate(rng: &mut Rng, bytes: &mut [u8]) {
    for _ in 0..1 + rng.below(3) {
        let k = rng.below(bytes.len());
        match rng.below(4) {
            0 => bytes[k] = rng.next() as u8,
            1 => bytes[k] = *rng.pick(&[0, 1, 0x7f, 0x80, 0xff]),
            2 => bytes[k] = bytes[k].wrapping_add(1),
            _ => bytes[k] ^= 1 << rng.below(8),
        }
    }
}

fn parse(bytes: &[u8], scratch: &std::path::Path) -> R<anyhow::Result<ir::Items>> {
    let path = scratch.join("object");
    std::fs::write(&path, bytes).map_err(|e| e.to_string())?;
    let r = twiggy_parser::read_and_parse(&path, twiggy_traits::ParseMode::Dwarf);
    let _ = std::fs::remove_file(&path);
    Ok(r)
}

pub fn p19(rng: &mut Rng, scratch: &std::path::Path) -> R<()> {
    let trouble = rng.chance(1, 3);
    let o = gen_with(rng, trouble);
    if rng.chance(1, 6) {
        let mut b = o.bytes.clone();
        mutate(rng, &mut b[64..o.end]);
        let _ = parse(&b, scratch)?;
        return Ok(());
    }
    let hex: String = o.bytes.iter().map(|b| format!("{:02x}", b)).collect();
    check(&o, parse(&o.bytes, scratch)?).map_err(|e| format!("{}\n{}object file: {}", e, o.log, hex))
}

/// P17: a file that is not wasm, in automatic mode.
pub fn p17(rng: &mut Rng, scratch: &std::path::Path) -> R<()> {
    let mut b = gen(rng).bytes;
    match rng.below(4) {
        0 => {
            let n = rng.below(b.len() + 1);
            b.truncate(n);
        }
        _ => mutate(rng, &mut b),
    }
    let hex: String = b.iter().map(|b| format!("{:02x}", b)).collect();
    LAST.with(|l| *l.borrow_mut() = format!("object file {}", hex));
    // In a process of its own: a failed allocation cannot be caught.
    let path = scratch.join("untrusted");
    std::fs::write(&path, &b).map_err(|e| e.to_string())?;
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let o = std::process::Command::new(exe).arg("--parse").arg(&path).env_remove("RUST_BACKTRACE").output().map_err(|e| e.to_string())?;
    let _ = std::fs::remove_file(&path);
    if !o.status.success() {
        return Err(format!("parsing ended with {:?}: {}", o.status, String::from_utf8_lossy(&o.stderr)));
    }
    Ok(())
}

/// Whether the object crate panicked, or the goblin crate it builds on asked
/// for memory there is not.
pub fn of_the_object_crates(e: &str) -> bool {
    match e.find("allocation of ") {
        None => e.contains("/object-0.17.0/src/read/"),
        // The innermost frame outside the standard library and this program.
        Some(k) => e[k..]
            .lines()
            .filter_map(|l| l.trim().strip_prefix("at "))
            .find(|f| !f.starts_with("/rustc/") && !f.contains("replay/src/"))
            .map_or(false, |f| f.contains("/goblin-0.1.3/src/")),
    }
}

fn check(o: &Object, r: anyhow::Result<ir::Items>) -> R<()> {
    let items = match (r, &o.bad) {
        (Err(_), Some(_)) => return Ok(()),
        (Ok(_), Some(why)) => return Err(format!("accepted although: {}", why)),
        (Err(e), None) => return Err(format!("rejected: {}", e)),
        (Ok(i), None) => i,
    };
    ck!(items.size() as usize == o.bytes.len(), "total size {} for a file of {} bytes", items.size(), o.bytes.len());
    let got: BTreeMap<u64, (String, u64)> =
        items.iter().filter(|i| i.id() != items.meta_root()).map(|i| (i.id().serializable(), (i.name().to_string(), i.size() as u64))).collect();
    for (k, w) in &o.want {
        ck!(got.get(k) == Some(w), "function {}.{}: {:?} instead of {:?}", k >> 32, k & 0xffff_ffff, got.get(k), w);
    }
    for (k, g) in &got {
        ck!(o.want.contains_key(k), "unexpected item {}.{}: {:?}", k >> 32, k & 0xffff_ffff, g);
    }
    ck!(items.iter().all(|i| matches!(i.kind(), ir::ItemKind::Code(_)) || i.id() == items.meta_root()), "a function is not a code item");
    Ok(())
}
