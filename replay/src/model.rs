//! Random item graphs, the real `Items` built from them, and brute-force
//! oracles for everything derived from the graph.
use crate::rng::Rng;
use std::collections::{BTreeMap, BTreeSet};
use twiggy_ir as ir;

pub const META: &str = "<meta root>";

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Code,
    Data,
    Debug,
    Misc,
}

#[derive(Clone, Debug)]
pub struct Node {
    pub sec: usize,
    pub entry: Option<usize>,
    /// The name given to the item.
    pub raw: String,
    /// The name it must be shown under.
    pub name: String,
    /// The generic it must be counted under.
    pub generic: Option<String>,
    pub size: u32,
    pub kind: Kind,
    pub root: bool,
}

impl Node {
    pub fn id(&self) -> ir::Id {
        match self.entry {
            None => ir::Id::section(self.sec),
            Some(i) => ir::Id::entry(self.sec, i),
        }
    }
    /// What the identifier must serialize to.
    pub fn ser(&self) -> u64 {
        ((self.sec as u64) << 32) | self.entry.map_or(u32::MAX as u64, |i| i as u64)
    }
}

/// Nodes are in identifier order; node `n` (== nodes.len()) is the meta root.
#[derive(Clone, Debug)]
pub struct Case {
    pub nodes: Vec<Node>,
    /// In the order they are added; may repeat.
    pub edges: Vec<(usize, usize)>,
    /// The order items are added in.
    pub order: Vec<usize>,
    pub total: u32,
}

/// (symbol, what it demangles to)
pub const MANGLED: &[(&str, &str)] = &[
    ("_ZN4core3fmt9Formatter3pad17h0123456789abcdefE", "core::fmt::Formatter::pad::h0123456789abcdef"),
    ("_ZN3foo3barE", "foo::bar"),
    ("_ZN3foo3bar17h05af221e174051e9E", "foo::bar::h05af221e174051e9"),
    ("_ZN71_$LT$Test$u20$$u2b$$u20$$u27$static$u20$as$u20$foo..Bar$LT$Test$GT$$GT$3bar17h05af221e174051e9E",
     "<Test + 'static as foo::Bar<Test>>::bar::h05af221e174051e9"),
    ("_Z3fooIiEvT_", "void foo<int>(int)"),
    ("_Z1fv", "f()"),
    ("_ZNSt6vectorIiSaIiEE9push_backERKi", "std::vector<int, std::allocator<int> >::push_back(int const&)"),
    ("_RNvC7mycrate3foo", "mycrate[0]::foo"),
    ("_Znot_a_symbol", "_Znot_a_symbol"),
    ("__Znope nope", "__Znope nope"),
    ("_GLOBAL_", "_GLOBAL_"),
];

pub fn demangled(raw: &str) -> String {
    for (m, d) in MANGLED {
        if *m == raw {
            return d.to_string();
        }
    }
    raw.to_string()
}

/// The generic a shown function name instantiates, straight from the property.
pub fn generic_of(name: &str) -> Option<String> {
    if let Some(p) = name.rfind("::") {
        if name[p + 2..].starts_with('h') {
            return Some(name[..p].to_string());
        }
    }
    let open = name.find('<')?;
    if open == 0 || !name[open..].contains('>') {
        return None;
    }
    Some(name[..open].to_string())
}

const PIECES: &[&str] = &[
    "a", "b", "foo", "bar", "alloc", "::", "::h", "::h12ab", "::g", "<", ">", "<i32>", "<T>", ":", " ", ".",
    "é", "日本", "𝒳", "\"", "\\", ",", "\n", "\t", "\u{1}", "\u{1f}", "\u{7f}", "/", "{", "}", "[", "]", "'", "%", "\u{2028}",
    "\r", "│", " ┊ ", "h", "x1", "0", "name", "code[3]", "\u{10ffff}", "\u{0}", "\u{8}", "\u{c}", "\u{80}",
];

const TAME: &[&str] = &["a", "b", "foo", "bar", "foo::h11", "foo::h22", "bar::h1", "baz<i32>", "baz<u8>", "q<T>::f", "data[0]", "type[1]", "x::y::h9", "<A as B>::f", "alpha", "beta::h", ""];

pub fn name(rng: &mut Rng) -> String {
    match rng.below(8) {
        0..=3 => rng.pick(TAME).to_string(),
        4 => format!("{}{}", rng.pick(TAME), rng.below(6)),
        5 => rng.pick(MANGLED).0.to_string(),
        _ => {
            let k = rng.below(5);
            (0..k).map(|_| *rng.pick(PIECES)).collect()
        }
    }
}

/// A name that is almost the given one.
pub fn similar(rng: &mut Rng, of: &str) -> String {
    if of.starts_with('_') {
        return of.to_string(); // a changed symbol may be another symbol
    }
    let mut s: Vec<char> = of.chars().collect();
    let k = rng.below(s.len() + 1);
    match rng.below(9) {
        0 => return of.to_uppercase(),
        1 => return of.to_lowercase(),
        2 => s.push(*rng.pick(&[' ', '\t', '\n', '\0', 'x', '0', '\u{3000}'])),
        3 => s.insert(0, *rng.pick(&[' ', '\t', 'x', '0'])),
        4 => {
            s.pop();
        }
        5 if k < s.len() => s[k] = if s[k].is_lowercase() { s[k].to_ascii_uppercase() } else { s[k].to_ascii_lowercase() },
        6 if k < s.len() => s[k] = *rng.pick(&['a', 'Z', '0', 'é', 'e']),
        7 if k < s.len() => {
            let c = s[k];
            s.insert(k, c)
        }
        _ => s.insert(k, *rng.pick(&[' ', 'h', ':'])),
    }
    s.into_iter().collect()
}

pub fn gen(rng: &mut Rng) -> Case {
    let big = rng.chance(1, 12);
    let n = match rng.below(10) {
        0 => rng.below(2),
        1..=6 => 1 + rng.below(9),
        _ => 1 + rng.below(if big { 40 } else { 20 }),
    };
    gen_n(rng, n)
}

pub fn gen_n(rng: &mut Rng, n: usize) -> Case {
    // Distinct identifiers.
    let mut keys: BTreeSet<(usize, usize)> = BTreeSet::new();
    let spread = 1 + rng.below(4);
    let sec0 = match rng.below(8) {
        0 => u32::MAX as usize - 1 - spread,
        1 => rng.below(1 << 20),
        _ => 0,
    };
    while keys.len() < n {
        let sec = sec0 + rng.below(spread);
        let e = match rng.below(12) {
            0 => u32::MAX as usize, // the section itself
            1 => u32::MAX as usize - 1,
            _ => rng.below(2 * n + 4),
        };
        keys.insert((sec, e));
    }
    let mut budget: u64 = match rng.below(5) {
        0 => u32::MAX as u64 - 1,
        1 => 10,
        _ => 100_000,
    };
    let style = rng.below(4);
    let root_p = rng.below(4);
    let alike = rng.chance(1, 3);
    let mut nodes: Vec<Node> = vec![];
    for (sec, e) in keys {
        let mut raw = name(rng);
        let mut twin = None;
        if alike && !nodes.is_empty() && rng.chance(1, 2) {
            let o = rng.below(nodes.len());
            let of = nodes[o].raw.clone();
            raw = if rng.chance(1, 3) { of } else { similar(rng, &of) };
            if rng.chance(2, 3) {
                twin = Some(nodes[o].size as u64);
            }
        }
        let size = match style {
            _ if twin.is_some() => twin.unwrap(),
            0 => rng.below(4) as u64,
            1 => rng.below(200) as u64,
            2 => budget / (1 + rng.below(6) as u64),
            _ => *rng.pick(&[0u64, 0, 1, 1, 7, 7, 7, 100]),
        }
        .min(budget);
        budget -= size;
        let kind = *rng.pick(&[Kind::Code, Kind::Code, Kind::Code, Kind::Data, Kind::Data, Kind::Debug, Kind::Misc]);
        let shown = if kind == Kind::Code { demangled(&raw) } else { raw.clone() };
        let generic = if kind == Kind::Code { generic_of(&shown) } else { None };
        nodes.push(Node {
            sec,
            entry: if e == u32::MAX as usize { None } else { Some(e) },
            raw,
            name: shown,
            generic,
            size: size as u32,
            kind,
            root: rng.below(6) < root_p,
        });
    }
    let mut edges = vec![];
    if n > 0 {
        let m = match rng.below(4) {
            0 => rng.below(n + 1),
            1 => n,
            2 => 2 * n,
            _ => rng.below(3 * n + 1),
        };
        let shape = rng.below(5);
        for k in 0..m {
            let (a, b) = match shape {
                0 => (k % n, (k + 1) % n),                          // a ring
                1 => (rng.below(n), rng.below(n)),
                2 => {
                    let a = rng.below(n);
                    (a, (a + 1 + rng.below(3)).min(n - 1))          // mostly forward
                }
                3 => (0, rng.below(n)),                             // a star
                _ => {
                    let b = rng.below(n);
                    (b / 2, b)                                      // a heap-shaped tree
                }
            };
            edges.push((a, b));
            if rng.chance(1, 8) {
                edges.push((a, b));
            }
        }
        rng.shuffle(&mut edges);
    }
    let mut order: Vec<usize> = (0..n).collect();
    rng.shuffle(&mut order);
    let sum: u64 = nodes.iter().map(|n| n.size as u64).sum();
    let extra = if rng.chance(1, 2) { 0 } else { rng.below(1000) as u64 };
    // The items of an object file can add up to more than the file has (its
    // entities need not be stored in it), so a share may exceed 100 %.
    let total = if rng.chance(1, 6) { sum / 4 * (1 + rng.below(3) as u64) } else { sum + extra };
    let total = total.clamp(1, u32::MAX as u64) as u32;
    Case { nodes, edges, order, total }
}

impl Case {
    pub fn build(&self) -> ir::Items {
        let mut b = ir::ItemsBuilder::new(self.total);
        let mut left: Vec<(usize, usize)> = self.edges.clone();
        let mut done = vec![false; self.nodes.len()];
        for &i in &self.order {
            let n = &self.nodes[i];
            let item = match n.kind {
                Kind::Code => ir::Item::new(n.id(), n.raw.clone(), n.size, ir::Code::new(&n.raw)),
                Kind::Data => ir::Item::new(n.id(), n.raw.as_str(), n.size, ir::Data::new(None)),
                Kind::Debug => ir::Item::new(n.id(), n.raw.as_str(), n.size, ir::DebugInfo::new()),
                Kind::Misc => ir::Item::new(n.id(), n.raw.as_str(), n.size, ir::Misc::new()),
            };
            if n.root {
                b.add_root(item);
            } else {
                b.add_item(item);
            }
            done[i] = true;
            // Interleave: add the edges whose ends are both known.
            left.retain(|&(x, y)| {
                if done[x] && done[y] {
                    b.add_edge(self.nodes[x].id(), self.nodes[y].id());
                    false
                } else {
                    true
                }
            });
        }
        b.finish()
    }

    pub fn describe(&self) -> String {
        let mut s = format!("total size {}\n", self.total);
        for i in 0..self.nodes.len() {
            let n = &self.nodes[i];
            s += &format!(
                "item {}: id ({}, {:?}) name {:?} size {} kind {:?}{}\n",
                i, n.sec, n.entry, n.raw, n.size, n.kind, if n.root { " root" } else { "" }
            );
        }
        s += &format!("edges in order {:?}\nitems added in order {:?}\n", self.edges, self.order);
        s
    }
}

/// Everything the properties derive from the graph, computed by brute force.
pub struct Oracle {
    pub n: usize, // index of the meta root
    pub id: Vec<ir::Id>,
    pub name: Vec<String>,
    pub size: Vec<u32>,
    pub generic: Vec<Option<String>>,
    pub is_data: Vec<bool>,
    pub total: u32,
    pub succ: Vec<Vec<usize>>,
    pub pred: Vec<Vec<usize>>,
    pub reach: Vec<bool>,
    pub idom: Vec<Option<usize>>,
    pub children: Vec<Vec<usize>>,
    pub retained: Vec<u32>,
}

fn reach_without(succ: &[Vec<usize>], start: usize, cut: Option<usize>) -> Vec<bool> {
    let mut seen = vec![false; succ.len()];
    if Some(start) == cut {
        return seen;
    }
    let mut todo = vec![start];
    seen[start] = true;
    while let Some(x) = todo.pop() {
        for &y in &succ[x] {
            if !seen[y] && Some(y) != cut {
                seen[y] = true;
                todo.push(y);
            }
        }
    }
    seen
}

impl Oracle {
    pub fn new(c: &Case) -> Oracle {
        let n = c.nodes.len();
        let mut succ: Vec<BTreeSet<usize>> = vec![BTreeSet::new(); n + 1];
        for &(a, b) in &c.edges {
            succ[a].insert(b);
        }
        for i in 0..n {
            if c.nodes[i].root {
                succ[n].insert(i);
            }
        }
        let succ: Vec<Vec<usize>> = succ.into_iter().map(|s| s.into_iter().collect()).collect();
        let mut pred = vec![vec![]; n + 1];
        for a in 0..=n {
            for &b in &succ[a] {
                pred[b].push(a);
            }
        }
        let reach = reach_without(&succ, n, None);
        // dom[v][w]: every path from the meta root to w passes v.
        let mut dominated: Vec<Vec<bool>> = vec![];
        for v in 0..=n {
            let r = reach_without(&succ, n, Some(v));
            dominated.push((0..=n).map(|w| reach[w] && !r[w]).collect());
        }
        let mut idom = vec![None; n + 1];
        let mut children = vec![vec![]; n + 1];
        let mut size: Vec<u32> = c.nodes.iter().map(|x| x.size).collect();
        size.push(0);
        let mut retained = size.clone();
        for w in 0..=n {
            if !reach[w] {
                continue;
            }
            retained[w] = (0..=n).filter(|&u| dominated[w][u]).map(|u| size[u]).sum();
            if w == n {
                continue;
            }
            let sd: Vec<usize> = (0..=n).filter(|&v| v != w && reach[v] && dominated[v][w]).collect();
            let i = *sd.iter().find(|&&v| sd.iter().all(|&u| u == v || dominated[u][v])).unwrap();
            idom[w] = Some(i);
            children[i].push(w);
        }
        let mut id: Vec<ir::Id> = c.nodes.iter().map(|x| x.id()).collect();
        id.push(ir::Id::root());
        let mut name: Vec<String> = c.nodes.iter().map(|x| x.name.clone()).collect();
        name.push(META.into());
        let mut generic: Vec<Option<String>> = c.nodes.iter().map(|x| x.generic.clone()).collect();
        generic.push(None);
        let mut is_data: Vec<bool> = c.nodes.iter().map(|x| x.kind == Kind::Data).collect();
        is_data.push(false);
        Oracle { n, id, name, size, generic, is_data, total: c.total, succ, pred, reach, idom, children, retained }
    }
    pub fn pct(&self, x: u32) -> f64 {
        f64::from(x) / f64::from(self.total) * 100.0
    }
    pub fn by_name(&self, name: &str) -> Option<usize> {
        (0..=self.n).find(|&i| self.name[i] == name)
    }
    pub fn index_of(&self) -> BTreeMap<ir::Id, usize> {
        self.id.iter().cloned().zip(0..).collect()
    }
}
