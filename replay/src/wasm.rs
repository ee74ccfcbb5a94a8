//! P01, P03, P24, P17, P18: wasm modules written by hand together with the
//! items and references they must be parsed into.
use crate::model::{demangled, MANGLED};
use crate::rng::Rng;
use crate::text::R;
use std::collections::{BTreeMap, BTreeSet};
use twiggy_ir as ir;

macro_rules! ck {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Want {
    pub name: String,
    pub size: u64,
    pub kind: u8, // c, d, g, m
    pub root: bool,
}

#[derive(Default, Debug, Clone)]
pub struct Module {
    pub bytes: Vec<u8>,
    /// In file order (the code section counts as the place of its functions).
    pub items: Vec<Want>,
    /// (from, to) by item name.
    pub edges: BTreeSet<(String, String)>,
    /// Loads from constant addresses: (code item, address).
    pub loads: Vec<(String, u64)>,
    /// Active data segments: (item, start, length).
    pub segments: Vec<(String, u64, u64)>,
    pub data_items: BTreeSet<String>,
}

fn leb(out: &mut Vec<u8>, mut v: u64) {
    loop {
        let b = (v & 0x7f) as u8;
        v >>= 7;
        if v == 0 {
            out.push(b);
            return;
        }
        out.push(b | 0x80);
    }
}
/// A u32 in LEB128, sometimes longer than it needs to be.
fn u(rng: &mut Rng, out: &mut Vec<u8>, v: u32) {
    let start = out.len();
    leb(out, v as u64);
    if rng.chance(1, 10) {
        let max = 5;
        let have = out.len() - start;
        if have < max {
            let extra = 1 + rng.below(max - have);
            let l = out.len() - 1;
            out[l] |= 0x80;
            for k in 0..extra {
                out.push(if k + 1 == extra { 0 } else { 0x80 });
            }
        }
    }
}
fn sleb(out: &mut Vec<u8>, mut v: i64) {
    loop {
        let b = (v & 0x7f) as u8;
        v >>= 7;
        if (v == 0 && b & 0x40 == 0) || (v == -1 && b & 0x40 != 0) {
            out.push(b);
            return;
        }
        out.push(b | 0x80);
    }
}
fn st(rng: &mut Rng, out: &mut Vec<u8>, s: &str) {
    u(rng, out, s.len() as u32);
    out.extend_from_slice(s.as_bytes());
}

fn word(rng: &mut Rng, tag: &str, k: usize) -> String {
    let mid = ["", "é", "::h", "<T>", " x", ".", "日"];
    format!("{}{}{}", tag, rng.pick(&mid), k)
}

fn section(rng: &mut Rng, m: &mut Module, id: u8, content: &[u8]) -> u64 {
    let start = m.bytes.len();
    m.bytes.push(id);
    u(rng, &mut m.bytes, content.len() as u32);
    m.bytes.extend_from_slice(content);
    (m.bytes.len() - start) as u64
}

const VT: [(u8, &str); 4] = [(0x7f, "i32"), (0x7e, "i64"), (0x7d, "f32"), (0x7c, "f64")];

fn item(m: &mut Module, name: &str, size: u64, kind: u8, root: bool) {
    m.items.push(Want { name: name.to_string(), size, kind, root });
    if kind == b'd' {
        m.data_items.insert(name.to_string());
    }
}

struct Section {
    id: u8,
    content: Vec<u8>,
    title: String,
    items: Vec<Want>,
}

fn custom(rng: &mut Rng, k: usize) -> Section {
    let name = word(rng, "cust", k);
    let mut content = vec![];
    st(rng, &mut content, &name);
    let n = rng.below(12);
    for _ in 0..n {
        content.push(rng.next() as u8);
    }
    Section {
        id: 0,
        content,
        title: format!("custom section '{}' headers", name),
        items: vec![Want { name: format!("custom section '{}'", name), size: n as u64, kind: b'm', root: false }],
    }
}

pub fn gen(rng: &mut Rng) -> Module {
    let mut m = Module::default();
    m.bytes.extend_from_slice(b"\0asm\x01\0\0\0");
    item(&mut m, "wasm magic bytes", 8, b'm', true);

    let mut sections: Vec<Section> = vec![];
    let sec = |id: u8, title: &str, content: Vec<u8>, items: Vec<Want>| Section { id, content, title: format!("{} headers", title), items };
    let w = |name: &str, size: usize, kind: u8, root: bool| Want { name: name.to_string(), size: size as u64, kind, root };

    // Types.
    let ntypes = 1 + rng.below(4);
    let mut types = vec![];
    {
        let mut c = vec![];
        let mut its = vec![];
        u(rng, &mut c, ntypes as u32);
        for i in 0..ntypes {
            let s0 = c.len();
            c.push(0x60);
            let mut parts = vec![];
            for _ in 0..2 {
                let k = rng.below(4);
                u(rng, &mut c, k as u32);
                let mut names = vec![];
                for _ in 0..k {
                    let (b, n) = VT[rng.below(4)];
                    c.push(b);
                    names.push(n);
                }
                parts.push(names);
            }
            let ret = match parts[1].len() {
                0 => "nil".to_string(),
                1 => parts[1][0].to_string(),
                _ => format!("({})", parts[1].join(", ")),
            };
            let name = format!("type[{}]: ({}) -> {}", i, parts[0].join(", "), ret);
            its.push(w(&name, c.len() - s0, b'm', false));
            types.push(name);
        }
        sections.push(sec(1, "type section", c, its));
    }
    let (mut funcs, mut tables, mut mems, mut globals): (Vec<String>, Vec<String>, Vec<String>, Vec<String>) = Default::default();
    // Imports.
    if rng.chance(2, 3) {
        let n = rng.below(6);
        let mut c = vec![];
        let mut its = vec![];
        u(rng, &mut c, n as u32);
        for i in 0..n {
            let s0 = c.len();
            let module = word(rng, "m", i);
            let field = word(rng, "f", i);
            st(rng, &mut c, &module);
            st(rng, &mut c, &field);
            let name = format!("import {}::{}", module, field);
            match rng.below(4) {
                0 => {
                    c.push(0);
                    let t = rng.below(ntypes) as u32;
                    u(rng, &mut c, t);
                    funcs.push(name.clone());
                }
                1 => {
                    c.extend([1, 0x70, 0]);
                    u(rng, &mut c, 3);
                    tables.push(name.clone());
                }
                2 => {
                    c.extend([2, 0]);
                    u(rng, &mut c, 1);
                    mems.push(name.clone());
                }
                _ => {
                    c.extend([3, VT[rng.below(4)].0, rng.below(2) as u8]);
                    globals.push(name.clone());
                }
            }
            its.push(w(&name, c.len() - s0, b'm', false));
        }
        sections.push(sec(2, "import section", c, its));
    }
    let imported = funcs.len();
    // Functions.
    let nfuncs = match rng.below(6) {
        0 => 0,
        1 => 1,
        _ => 1 + rng.below(6),
    };
    let mut fcontent = vec![];
    let mut fsizes = vec![];
    let mut ftypes = vec![];
    u(rng, &mut fcontent, nfuncs as u32);
    for _ in 0..nfuncs {
        let s0 = fcontent.len();
        let t = rng.below(ntypes);
        u(rng, &mut fcontent, t as u32);
        ftypes.push(t);
        fsizes.push(fcontent.len() - s0);
    }
    // Names of the defined functions.
    let named = rng.chance(3, 4);
    let mut fnames: Vec<(u32, String)> = vec![];
    let mut shown: Vec<String> = vec![];
    let mut used: BTreeSet<String> = BTreeSet::new();
    for i in 0..imported {
        if rng.chance(1, 2) {
            fnames.push((i as u32, word(rng, "imp", i)));
        }
    }
    for i in 0..nfuncs {
        let nm = if rng.chance(1, 3) { rng.pick(MANGLED).0.to_string() } else { word(rng, "fun", i) };
        let shown_nm = demangled(&nm);
        if named && rng.chance(3, 4) && used.insert(shown_nm.clone()) {
            fnames.push(((imported + i) as u32, nm));
            shown.push(shown_nm);
        } else {
            shown.push(format!("code[{}]", i));
        }
    }
    if rng.chance(1, 6) {
        fnames.push(((imported + nfuncs) as u32 + 7, "stray".to_string()));
    }
    for s in &shown {
        funcs.push(s.clone());
    }
    sections.push(Section { id: 3, content: fcontent, title: String::new(), items: vec![] });
    // Tables.
    if rng.chance(1, 2) {
        let n = rng.below(3);
        let mut c = vec![];
        let mut its = vec![];
        u(rng, &mut c, n as u32);
        for i in 0..n {
            let s0 = c.len();
            c.push(0x70);
            let mx = rng.below(2);
            c.push(mx as u8);
            u(rng, &mut c, 1);
            if mx == 1 {
                let k = rng.below(500) as u32 + 1;
                u(rng, &mut c, k);
            }
            let name = format!("table[{}]", i);
            its.push(w(&name, c.len() - s0, b'm', true));
            tables.push(name);
        }
        sections.push(sec(4, "table section", c, its));
    }
    // Memories.
    if rng.chance(2, 3) {
        let n = rng.below(3);
        let mut c = vec![];
        let mut its = vec![];
        u(rng, &mut c, n as u32);
        for i in 0..n {
            let s0 = c.len();
            c.push(0);
            let k = rng.below(300) as u32;
            u(rng, &mut c, k);
            let name = format!("memory[{}]", i);
            its.push(w(&name, c.len() - s0, b'm', false));
            mems.push(name);
        }
        sections.push(sec(5, "memory section", c, its));
    }
    // Globals.
    if rng.chance(2, 3) {
        let n = rng.below(4);
        let mut c = vec![];
        let mut its = vec![];
        u(rng, &mut c, n as u32);
        for i in 0..n {
            let s0 = c.len();
            if rng.chance(1, 2) {
                c.extend([0x7f, rng.below(2) as u8, 0x41]);
                sleb(&mut c, rng.next() as i32 as i64);
            } else {
                c.extend([0x7e, rng.below(2) as u8, 0x42]);
                sleb(&mut c, rng.next() as i64 >> rng.below(64));
            }
            c.push(0x0b);
            let name = format!("global[{}]", i);
            its.push(w(&name, c.len() - s0, b'd', false));
            globals.push(name);
        }
        sections.push(sec(6, "global section", c, its));
    }
    // Exports.
    if rng.chance(3, 4) {
        let n = rng.below(6);
        let mut c = vec![];
        let mut its = vec![];
        let mut list = vec![];
        for i in 0..n {
            let k = rng.below(4);
            let space = [&funcs, &tables, &mems, &globals][k];
            if space.is_empty() {
                continue;
            }
            list.push((word(rng, "e", i), k, rng.below(space.len())));
        }
        u(rng, &mut c, list.len() as u32);
        for (nm, k, j) in list {
            let s0 = c.len();
            st(rng, &mut c, &nm);
            c.push(k as u8);
            u(rng, &mut c, j as u32);
            let name = format!("export \"{}\"", nm);
            its.push(w(&name, c.len() - s0, b'm', true));
            m.edges.insert((name, [&funcs, &tables, &mems, &globals][k][j].clone()));
        }
        sections.push(sec(7, "export section", c, its));
    }
    // Start.
    if rng.chance(1, 3) && !funcs.is_empty() {
        let mut c = vec![];
        let j = rng.below(funcs.len());
        u(rng, &mut c, j as u32);
        m.edges.insert(("start section headers".into(), funcs[j].clone()));
        sections.push(sec(8, "start section", c, vec![]));
    }
    // Elements.
    if rng.chance(1, 2) {
        let n = rng.below(5);
        let mut c = vec![];
        let mut its = vec![];
        let mut specs = vec![];
        for _ in 0..n {
            let mut flags = rng.below(8);
            if flags & 1 == 0 && tables.is_empty() {
                flags |= 1;
            }
            specs.push(flags);
        }
        u(rng, &mut c, n as u32);
        for (i, flags) in specs.into_iter().enumerate() {
            let s0 = c.len();
            let name = format!("elem[{}]", i);
            u(rng, &mut c, flags as u32);
            if flags & 1 == 0 {
                let mut t = 0;
                if flags & 2 != 0 {
                    t = rng.below(tables.len());
                    u(rng, &mut c, t as u32);
                }
                c.push(0x41);
                sleb(&mut c, rng.below(100) as i64);
                c.push(0x0b);
                m.edges.insert((tables[t].clone(), name.clone()));
            }
            let exprs = flags & 4 != 0;
            if flags & 3 != 0 {
                c.push(if exprs { 0x70 } else { 0 });
            }
            let k = if funcs.is_empty() && !exprs { 0 } else { rng.below(4) };
            u(rng, &mut c, k as u32);
            for _ in 0..k {
                if exprs && (funcs.is_empty() || rng.chance(1, 3)) {
                    c.extend([0xd0, 0x70, 0x0b]);
                    continue;
                }
                let j = rng.below(funcs.len());
                if exprs {
                    c.push(0xd2);
                    u(rng, &mut c, j as u32);
                    c.push(0x0b);
                } else {
                    u(rng, &mut c, j as u32);
                }
                m.edges.insert((name.clone(), funcs[j].clone()));
            }
            its.push(w(&name, c.len() - s0, b'm', false));
        }
        sections.push(sec(9, "element section", c, its));
    }
    // Data segments, in disjoint address ranges.
    let nsegs = if rng.chance(2, 3) { rng.below(5) } else { 0 };
    let have_data = nsegs > 0 || rng.chance(1, 4);
    let base: u64 = match rng.below(4) {
        0 => 0,
        1 => 0x8000_0000,
        2 => rng.below(1 << 30) as u64,
        _ => 1024,
    };
    let mut at = base;
    let mut segs: Vec<(u64, usize)> = vec![];
    for _ in 0..nsegs {
        at += rng.below(20) as u64;
        let len = rng.below(24);
        segs.push((at, len));
        at += len as u64 + 1;
    }
    let mut dorder: Vec<usize> = (0..nsegs).collect();
    if rng.chance(1, 2) {
        rng.shuffle(&mut dorder);
    }
    if have_data && rng.chance(1, 3) {
        let mut c = vec![];
        u(rng, &mut c, nsegs as u32);
        sections.push(sec(12, "data count section", c, vec![]));
    }
    if rng.chance(1, 8) {
        // Exception tags.
        let k = rng.below(3);
        let mut c = vec![];
        u(rng, &mut c, k as u32);
        for _ in 0..k {
            c.extend([0, 0]);
        }
        sections.push(sec(13, "tag section", c, vec![]));
    }
    // Code.
    let mut ccontent = vec![];
    let mut citems = vec![];
    u(rng, &mut ccontent, nfuncs as u32);
    for f in 0..nfuncs {
        let mut b = vec![];
        let nl = rng.below(3);
        u(rng, &mut b, nl as u32);
        for _ in 0..nl {
            let k = rng.below(5) as u32;
            u(rng, &mut b, k);
            b.push(VT[rng.below(4)].0);
        }
        m.edges.insert((shown[f].clone(), types[ftypes[f]].clone()));
        for _ in 0..rng.below(8) {
            match rng.below(9) {
                0 | 1 if !funcs.is_empty() => {
                    let j = rng.below(funcs.len());
                    b.push(0x10);
                    u(rng, &mut b, j as u32);
                    m.edges.insert((shown[f].clone(), funcs[j].clone()));
                }
                2 if !globals.is_empty() => {
                    let j = rng.below(globals.len());
                    b.push(if rng.chance(1, 2) { 0x23 } else { 0x24 });
                    u(rng, &mut b, j as u32);
                    m.edges.insert((shown[f].clone(), globals[j].clone()));
                }
                3 | 4 | 5 => {
                    // A load from a constant address.
                    let span = at - base + 10;
                    let addr = match rng.below(6) {
                        0 if nsegs > 0 => segs[rng.below(nsegs)].0,
                        1 => 0,
                        _ => base.saturating_sub(4) + rng.below(span as usize) as u64,
                    };
                    // Some addresses lie past the end of the memory, whose low 32
                    // bits may well be the address of a segment.
                    let (konst, off) = if rng.chance(1, 8) {
                        let off = addr + 1 + rng.below(1 << 20) as u64;
                        ((addr + (1 << 32) - off) as u32, off as u32 as u64)
                    } else {
                        let off = rng.below(1 + addr.min(40) as usize) as u64;
                        ((addr - off) as u32, off)
                    };
                    let addr = konst as u64 + off;
                    b.push(0x41);
                    sleb(&mut b, konst as i32 as i64);
                    let constant = match rng.below(5) {
                        0 => {
                            b.push(0x01); // nop in between
                            false
                        }
                        _ => true,
                    };
                    b.push(0x28 + rng.below(14) as u8);
                    u(rng, &mut b, rng_align(konst));
                    u(rng, &mut b, off as u32);
                    b.push(0x1a);
                    if constant {
                        m.loads.push((shown[f].clone(), addr));
                    }
                }
                6 => {
                    b.push(0x11);
                    u(rng, &mut b, 0);
                    b.push(0);
                }
                7 => {
                    // A store to a constant address reads no data.
                    b.push(0x41);
                    sleb(&mut b, base as u32 as i32 as i64);
                    b.push(0x36);
                    u(rng, &mut b, 0);
                    u(rng, &mut b, 0);
                }
                _ => b.extend([0x02, 0x40, 0x0b, 0x01]),
            }
        }
        b.push(0x0b);
        let s0 = ccontent.len();
        u(rng, &mut ccontent, b.len() as u32);
        ccontent.extend(b);
        citems.push(w(&shown[f], ccontent.len() - s0 + fsizes[f], b'c', false));
    }
    sections.push(Section { id: 10, content: ccontent, title: "code section headers".into(), items: citems });
    // Data.
    let mut dnames: Vec<(u32, String)> = vec![];
    if have_data {
        let mut c = vec![];
        let mut its = vec![];
        u(rng, &mut c, nsegs as u32);
        for (i, &k) in dorder.iter().enumerate() {
            let (addr, len) = segs[k];
            let s0 = c.len();
            let name = if named && rng.chance(1, 2) {
                let n = word(rng, "seg", i);
                dnames.push((i as u32, n.clone()));
                format!("data segment \"{}\"", n)
            } else {
                format!("data[{}]", i)
            };
            let kind = rng.below(5);
            match kind {
                0 => c.push(1),
                1 => {
                    c.extend([2]);
                    u(rng, &mut c, 0);
                }
                _ => u(rng, &mut c, 0),
            }
            if kind != 0 {
                if kind == 2 && !globals.is_empty() {
                    c.extend([0x23, 0, 0x0b]);
                } else {
                    if kind == 3 {
                        c.push(0x42);
                        sleb(&mut c, addr as i64);
                    } else {
                        c.push(0x41);
                        sleb(&mut c, addr as u32 as i32 as i64);
                    }
                    c.push(0x0b);
                    m.segments.push((name.clone(), addr, len as u64));
                }
            }
            u(rng, &mut c, len as u32);
            for _ in 0..len {
                c.push(rng.next() as u8);
            }
            its.push(w(&name, c.len() - s0, b'd', false));
        }
        sections.push(sec(11, "data section", c, its));
    }
    // Names.
    if named {
        let mut c = vec![];
        st(rng, &mut c, "name");
        let mut its = vec![];
        let kinds = ["module name", "function names", "local names", "label names", "type names", "table names", "memory names", "global names", "element names", "data names", "unknown name"];
        for (k, title) in kinds.iter().enumerate() {
            if k != 1 && k != 9 && !rng.chance(1, 6) {
                continue;
            }
            let mut p = vec![];
            let map = if k == 1 { Some(&fnames) } else if k == 9 { Some(&dnames) } else { None };
            match map {
                Some(ns) => {
                    u(rng, &mut p, ns.len() as u32);
                    for (i, n) in ns {
                        u(rng, &mut p, *i);
                        st(rng, &mut p, n);
                    }
                }
                None => {
                    for _ in 0..rng.below(6) {
                        p.push(rng.next() as u8);
                    }
                }
            }
            let s0 = c.len();
            c.push(k as u8);
            u(rng, &mut c, p.len() as u32);
            c.extend(p);
            its.push(w(&format!("\"{}\" subsection", title), c.len() - s0, b'g', true));
        }
        let s = Section { id: 0, content: c, title: "custom section 'name' headers".into(), items: its };
        if rng.chance(1, 4) {
            let p = rng.below(sections.len() + 1);
            sections.insert(p, s);
        } else {
            sections.push(s);
        }
    }
    for k in 0..rng.below(3) {
        let p = rng.below(sections.len() + 1);
        let s = custom(rng, k);
        sections.insert(p, s);
    }
    // Lay the file out.
    let mut func_bytes = 0;
    for s in sections {
        let total = section(rng, &mut m, s.id, &s.content);
        if s.id == 3 {
            func_bytes = total;
            continue;
        }
        let mut total = total;
        if s.id == 10 {
            total += func_bytes;
        }
        let inner: u64 = s.items.iter().map(|i| i.size).sum();
        for i in s.items {
            item(&mut m, &i.name, i.size, i.kind, i.root);
        }
        item(&mut m, &s.title, total - inner, b'm', true);
    }
    m
}
fn rng_align(k: u32) -> u32 {
    k % 3
}

fn parsed(m: &Module) -> R<ir::Items> {
    twiggy_parser::parse(&m.bytes).map_err(|e| format!("a valid module is rejected: {}", e))
}

pub fn describe(m: &Module) -> String {
    let hex: String = m.bytes.iter().map(|b| format!("{:02x}", b)).collect();
    format!("module ({} bytes): {}\n", m.bytes.len(), hex)
}

fn kind(i: &ir::Item) -> u8 {
    match i.kind() {
        ir::ItemKind::Code(_) => b'c',
        ir::ItemKind::Data(_) => b'd',
        ir::ItemKind::Debug(_) => b'g',
        ir::ItemKind::Misc(_) => b'm',
    }
}

/// P01: sizes add up, and each item has exactly the bytes it occupies.
/// The name of an item; sections without a proper one of their own are named by their kind.
fn shown(i: &ir::Item) -> String {
    if i.name().starts_with("TagSection") {
        "tag section headers".into()
    } else {
        i.name().to_string()
    }
}

pub fn p01(m: &Module) -> R<()> {
    let items = parsed(m)?;
    let sum: u64 = items.iter().map(|i| i.size() as u64).sum();
    ck!(sum == m.bytes.len() as u64, "sizes add up to {} in a file of {} bytes", sum, m.bytes.len());
    ck!(items.size() as usize == m.bytes.len(), "total size {} for a file of {} bytes", items.size(), m.bytes.len());
    let mut got: Vec<(String, u64, u8)> = items.iter().filter(|i| i.id() != items.meta_root()).map(|i| (shown(i), i.size() as u64, kind(i))).collect();
    let mut want: Vec<(String, u64, u8)> = m.items.iter().map(|w| (w.name.clone(), w.size, w.kind)).collect();
    got.sort();
    want.sort();
    for w in &want {
        ck!(got.contains(w), "expected item {:?} is missing; items with that name: {:?}", w, got.iter().filter(|g| g.0 == w.0).collect::<Vec<_>>());
    }
    ck!(got == want, "unexpected items {:?}", got.iter().filter(|g| !want.contains(g)).collect::<Vec<_>>());
    Ok(())
}

fn edges(items: &ir::Items) -> BTreeSet<(String, String)> {
    let mut e = BTreeSet::new();
    for i in items.iter().filter(|i| i.id() != items.meta_root()) {
        for n in items.neighbors(i.id()) {
            e.insert((i.name().to_string(), items[n].name().to_string()));
        }
    }
    e
}

/// Is this an edge from a code item to a data segment?
fn to_segment(m: &Module, e: &(String, String)) -> bool {
    m.data_items.contains(&e.1) && !e.1.starts_with("global[")
}

pub fn p03(m: &Module) -> R<()> {
    let items = parsed(m)?;
    let got: BTreeSet<_> = edges(&items).into_iter().filter(|e| !to_segment(m, e)).collect();
    if let Some(e) = m.edges.difference(&got).next() {
        return Err(format!("the reference {:?} is missing", e));
    }
    if let Some(e) = got.difference(&m.edges).next() {
        return Err(format!("there is an edge {:?} without a reference", e));
    }
    let roots: BTreeSet<String> = items.neighbors(items.meta_root()).map(|n| shown(&items[n])).collect();
    let want: BTreeSet<String> = m.items.iter().filter(|w| w.root).map(|w| w.name.clone()).collect();
    ck!(roots == want, "roots {:?} instead of {:?}", roots, want);
    Ok(())
}

pub enum Data {
    Ok,
    /// Exactly the recorded finding: the lookup takes the segment that starts
    /// at or after the address.
    Known(String),
}

pub fn p24(m: &Module) -> R<Data> {
    let items = parsed(m)?;
    let got: BTreeSet<_> = edges(&items).into_iter().filter(|e| to_segment(m, e)).collect();
    let mut want = BTreeSet::new();
    let mut known = BTreeSet::new();
    let map: BTreeMap<u64, (&String, u64)> = m.segments.iter().map(|(n, s, l)| (*s, (n, *l))).collect();
    for (f, a) in &m.loads {
        if let Some((n, _, _)) = m.segments.iter().find(|(_, s, l)| *s <= *a && *a < s + l) {
            want.insert((f.clone(), n.clone()));
        }
        if let Some((s, (n, l))) = map.range(a..).next() {
            if *a < s + l {
                known.insert((f.clone(), n.to_string()));
            }
        }
    }
    if got == want {
        return Ok(Data::Ok);
    }
    if got == known {
        return Ok(Data::Known(format!("loads {:?} with segments {:?} reference {:?} instead of {:?}", m.loads, m.segments, got, want)));
    }
    Err(format!("loads {:?} with segments {:?} reference {:?} instead of {:?}", m.loads, m.segments, got, want))
}

/// P17: some bytes that may or may not be a module.
pub fn bytes(rng: &mut Rng) -> Vec<u8> {
    let mut b = gen(rng).bytes;
    match rng.below(10) {
        0 => {
            let n = rng.below(b.len() + 1);
            b.truncate(n);
        }
        1 => {
            let n = rng.below(64);
            b = (0..n).map(|_| rng.next() as u8).collect();
            if rng.chance(1, 2) {
                let mut v = b"\0asm\x01\0\0\0".to_vec();
                v.extend(b);
                b = v;
            }
        }
        2 => {
            // Drop, repeat or swap whole sections.
            let mut secs = vec![];
            let mut i = 8;
            while i < b.len() {
                let s0 = i;
                i += 1;
                let (mut v, mut sh) = (0u64, 0);
                while i < b.len() {
                    let x = b[i];
                    i += 1;
                    v |= ((x & 0x7f) as u64) << sh;
                    sh += 7;
                    if x & 0x80 == 0 || sh > 35 {
                        break;
                    }
                }
                i = (i + v as usize).min(b.len());
                secs.push(b[s0..i].to_vec());
            }
            if !secs.is_empty() {
                let k = rng.below(secs.len());
                match rng.below(3) {
                    0 => {
                        secs.remove(k);
                    }
                    1 => {
                        let s = secs[k].clone();
                        let p = rng.below(secs.len() + 1);
                        secs.insert(p, s);
                    }
                    _ => rng.shuffle(&mut secs),
                }
            }
            b.truncate(8);
            b.extend(secs.into_iter().flatten());
        }
        _ => {
            for _ in 0..1 + rng.below(3) {
                let k = rng.below(b.len());
                match rng.below(5) {
                    0 => b[k] = rng.next() as u8,
                    1 => b[k] = *rng.pick(&[0, 1, 0x7f, 0x80, 0xff, 0x0b, 0x10, 0x41]),
                    2 => b[k] = b[k].wrapping_add(1),
                    3 => {
                        b.remove(k);
                    }
                    _ => b.insert(k, rng.next() as u8),
                }
                if b.is_empty() {
                    break;
                }
            }
        }
    }
    b
}

pub fn p17(b: &[u8]) -> R<()> {
    // Ends normally, whatever the result; a success must also account for
    // the whole file.
    if let Ok(items) = twiggy_parser::parse(b) {
        let sum: u64 = items.iter().map(|i| i.size() as u64).sum();
        ck!(sum <= b.len() as u64, "sizes add up to {} in a file of {} bytes", sum, b.len());
    }
    Ok(())
}
