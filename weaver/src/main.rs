//! Weaves contracts into the current source text of /repo.
//!
//!   weaver SPEC REPO OUT.rs REPORT.json
//!
//! The executable text is kept as it is; specifications are inserted at structural anchors and a fixed list of
//! purely syntactic rewrites (see REWRITES below and DESIGN.md) is applied to constructs Verus does not accept.
use proc_macro2::{LineColumn, Span, TokenStream, TokenTree};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use syn::parse::Parser;
use syn::punctuated::Punctuated;
use syn::spanned::Spanned;
use syn::visit::{self, Visit};
use syn::*;

// ---------------------------------------------------------------- spec files

#[derive(Default, Debug, Clone)]
struct FnSpec {
    ret: Option<String>,
    ty: Option<String>,
    contract: String,
    entry: String,
    exit: String,
    result: String,
    attrs: String,
    external: bool,
    loops: BTreeMap<usize, LoopSpec>,
    closures: BTreeMap<usize, (String, String)>,
    before: Vec<(String, usize, String)>,
    after: Vec<(String, usize, String)>,
    ghostargs: Vec<(String, usize, String)>,
    desugar: Vec<(String, usize)>,
    step: Option<(usize, String, String)>,
    inlined: BTreeSet<usize>,
}
#[derive(Default, Debug, Clone)]
struct LoopSpec {
    inv: String,
    entry: String,
    exit: String,
    pre: String,
    post: String,
    iter: Option<String>,
}
#[derive(Default, Debug)]
struct ModSpec {
    path: String,
    file: String,
    pre: String,
    post: String,
    only: BTreeSet<String>,
    drop: BTreeSet<String>,
    fns: BTreeMap<String, FnSpec>,
    opts: BTreeSet<String>,
    hoist: BTreeSet<String>,
    subst: Vec<(String, String)>,
    itemattr: BTreeMap<String, String>,
    inject: BTreeMap<String, String>,
    derives: BTreeMap<String, String>,
    assumed: bool,
}
#[derive(Default, Debug)]
struct Unit {
    includes: Vec<String>,
    parts: BTreeSet<String>,
    mods: Vec<ModSpec>,
}

fn parse_spec(path: &str, unit: &mut Unit, defs: &mut BTreeSet<String>) {
    let text = std::fs::read_to_string(path).unwrap_or_else(|e| panic!("{}: {}", path, e));
    let dir = std::path::Path::new(path).parent().unwrap().to_path_buf();
    let mut cur: Vec<String> = vec![];
    let mut buf = String::new();
    let flush = |unit: &mut Unit, cur: &Vec<String>, buf: &mut String| {
        if cur.is_empty() {
            buf.clear();
            return;
        }
        let text = std::mem::take(buf);
        let m = match unit.mods.last_mut() {
            Some(m) => m,
            None => panic!("directive before @module: {:?}", cur),
        };
        let key = |i: usize| cur.get(i).cloned().unwrap_or_default();
        match cur[0].as_str() {
            "pre" => m.pre.push_str(&text),
            "post" => m.post.push_str(&text),
            "fn" => {
                let f = m.fns.entry(key(1)).or_default();
                for a in &cur[2..] {
                    if let Some(r) = a.strip_prefix("ret=") {
                        f.ret = Some(r.to_string());
                    } else if let Some(r) = a.strip_prefix("type=") {
                        f.ty = Some(r.replace('~', " "));
                    } else {
                        panic!("bad @fn arg {}", a);
                    }
                }
                f.contract.push_str(&text);
            }
            "entry" => m.fns.entry(key(1)).or_default().entry.push_str(&text),
            "result" => m.fns.entry(key(1)).or_default().result.push_str(&text),
            "exit" => m.fns.entry(key(1)).or_default().exit.push_str(&text),
            "attr" => m.fns.entry(key(1)).or_default().attrs.push_str(&text),
            "loop" => {
                let l = m.fns.entry(key(1)).or_default().loops.entry(key(2).parse().unwrap()).or_default();
                for a in &cur[3..] {
                    if let Some(r) = a.strip_prefix("iter=") {
                        l.iter = Some(r.to_string());
                    }
                }
                l.inv.push_str(&text);
            }
            "loopentry" => m.fns.entry(key(1)).or_default().loops.entry(key(2).parse().unwrap()).or_default().entry.push_str(&text),
            "loopexit" => m.fns.entry(key(1)).or_default().loops.entry(key(2).parse().unwrap()).or_default().exit.push_str(&text),
            "looppre" => m.fns.entry(key(1)).or_default().loops.entry(key(2).parse().unwrap()).or_default().pre.push_str(&text),
            "looppost" => m.fns.entry(key(1)).or_default().loops.entry(key(2).parse().unwrap()).or_default().post.push_str(&text),
            "closure" => {
                let mut it = text.splitn(2, '\n');
                let a = it.next().unwrap_or("").to_string();
                let b = it.next().unwrap_or("").to_string();
                m.fns.entry(key(1)).or_default().closures.insert(key(2).parse().unwrap(), (a, b));
            }
            // `RECV.map(move |i| BODY)` with mutable captures -> a step function for BODY, called for each element
            "step" => m.fns.entry(key(1)).or_default().step = Some((key(2).parse().unwrap(), key(3), text)),
            // `RECV.map(|x| E)` with mutable captures -> a loop collecting E
            "inline" => {
                m.fns.entry(key(1)).or_default().inlined.insert(key(2).parse().unwrap());
            }
            "before" | "after" | "ghostarg" => {
                let k = key(2);
                let (id, n) = match k.split_once('#') {
                    Some((a, b)) => (a.to_string(), b.parse().unwrap()),
                    None => (k, 0usize),
                };
                let f = m.fns.entry(key(1)).or_default();
                match cur[0].as_str() {
                    "before" => f.before.push((id, n, text)),
                    "after" => f.after.push((id, n, text)),
                    _ => f.ghostargs.push((id, n, text.trim().to_string())),
                }
            }
            "itemattr" => {
                m.itemattr.insert(key(1), text.trim().to_string());
            }
            "inject" => m.inject.entry(key(1)).or_default().push_str(&text),
            "subst" => {
                let (a, b) = text.split_once("=>").expect("@subst A => B");
                m.subst.push((a.trim().to_string(), b.trim().to_string()));
            }
            _ => panic!("unknown directive {:?}", cur),
        }
    };
    let mut skipping = 0;
    for line in text.lines() {
        if line.starts_with("@ifdef ") || line.starts_with("@ifndef ") {
            let has = defs.contains(line.split_whitespace().nth(1).unwrap());
            let want = line.starts_with("@ifdef ");
            if skipping > 0 || has != want {
                skipping += 1;
            }
            continue;
        }
        if line.starts_with("@endif") {
            if skipping > 0 {
                skipping -= 1;
            }
            continue;
        }
        if skipping > 0 {
            continue;
        }
        if let Some(d) = line.strip_prefix('@') {
            flush(unit, &cur, &mut buf);
            cur.clear();
            // Function keys may contain spaces when quoted with backquotes.
            let mut words: Vec<String> = vec![];
            let mut inq = false;
            let mut w = String::new();
            for c in d.chars() {
                if c == '`' {
                    inq = !inq;
                } else if c == ' ' && !inq {
                    if !w.is_empty() {
                        words.push(std::mem::take(&mut w));
                    }
                } else {
                    w.push(c);
                }
            }
            if !w.is_empty() {
                words.push(w);
            }
            match words[0].as_str() {
                "def" => {
                    defs.insert(words[1].clone());
                }
                "include" => {
                    let f = dir.join(&words[1]).to_string_lossy().into_owned();
                    if !unit.includes.contains(&f) {
                        unit.includes.push(f);
                    }
                }
                "part" => {
                    let f = dir.join(&words[1]).to_string_lossy().into_owned();
                    if unit.parts.insert(f.clone()) {
                        parse_spec(&f, unit, defs);
                    }
                }
                // the modules of another unit, whose contracts are proved there and relied on here
                "use" => {
                    let n = unit.mods.len();
                    let f = dir.join(&words[1]).to_string_lossy().into_owned();
                    if unit.parts.insert(f.clone()) {
                        parse_spec(&f, unit, defs);
                    }
                    for m in &mut unit.mods[n..] {
                        m.assumed = true;
                    }
                }
                "module" => unit.mods.push(ModSpec { path: words[1].clone(), file: words[2].clone(), ..Default::default() }),
                "drop" => {
                    unit.mods.last_mut().unwrap().drop.insert(words[1].clone());
                }
                "only" => {
                    unit.mods.last_mut().unwrap().only.insert(words[1].clone());
                }
                "hoist" => {
                    unit.mods.last_mut().unwrap().hoist.insert(words[1].clone());
                }
                "opt" => {
                    unit.mods.last_mut().unwrap().opts.insert(words[1].clone());
                }
                "derives" => {
                    unit.mods.last_mut().unwrap().derives.insert(words[1].clone(), words[2].clone());
                }
                "external" => unit.mods.last_mut().unwrap().fns.entry(words[1].clone()).or_default().external = true,
                "end" => {}
                _ => cur = words,
            }
        } else if line.starts_with("##") {
            // comment
        } else if !cur.is_empty() {
            buf.push_str(line);
            buf.push('\n');
        } else if !line.trim().is_empty() {
            panic!("{}: stray text: {}", path, line);
        }
    }
    flush(unit, &cur, &mut buf);
}

// ---------------------------------------------------------------- weaving

const EXTERN: &[&str] = &[
    "twiggy_ir", "twiggy_opt", "twiggy_analyze", "twiggy_parser", "twiggy_traits", "petgraph", "csv", "regex", "anyhow", "serde",
    "serde_derive", "frozen", "wasmparser", "gimli", "object", "fallible_iterator", "typed_arena", "rustc_demangle",
    "cpp_demangle", "structopt",
];
const ADAPT: &[&str] = &[
    "map", "filter", "filter_map", "flat_map", "chain", "take", "skip", "zip", "enumerate", "rev", "fold", "for_each", "sum", "max",
    "min", "count", "any", "all", "cloned", "copied", "collect", "last", "take_while", "skip_while", "max_by_key", "min_by_key",
    "find_map", "position", "partition",
];
const RENAME: &[&str] = &[
    "sort", "sort_by", "sort_by_key", "sort_unstable", "sort_unstable_by", "sort_unstable_by_key", "to_vec", "to_string", "chars",
    "char_indices", "rfind", "starts_with", "range", "map_or_else", "find", "iter", "then", "then_with",
    "join", "unwrap_or_default",
];

struct Lines {
    starts: Vec<usize>,
    text: String,
}
impl Lines {
    fn new(text: &str) -> Lines {
        let mut starts = vec![0];
        for (i, b) in text.bytes().enumerate() {
            if b == b'\n' {
                starts.push(i + 1);
            }
        }
        Lines { starts, text: text.to_string() }
    }
    fn off(&self, lc: LineColumn) -> usize {
        let s = self.starts[lc.line - 1];
        let line = &self.text[s..];
        s + line.char_indices().nth(lc.column).map(|x| x.0).unwrap_or(line.len())
    }
    fn lo(&self, s: Span) -> usize {
        self.off(s.start())
    }
    fn hi(&self, s: Span) -> usize {
        self.off(s.end())
    }
}

#[derive(Debug, Clone)]
struct Edit {
    lo: usize,
    hi: usize,
    text: String,
    pri: i32,
}

struct FnInfo {
    key: String,
    line: usize,
    contract: bool,
    external: bool,
    loops: usize,
    closures: usize,
    open_loops: usize,
    open_closures: usize,
}

struct Weave<'a> {
    l: &'a Lines,
    m: &'a ModSpec,
    edits: Vec<Edit>,
    path: Vec<String>,
    fnkey: Vec<FnCtx>,
    lost: Vec<String>,
    used: BTreeSet<String>,
    infos: Vec<FnInfo>,
    rewrites: BTreeMap<String, usize>,
    rename: BTreeSet<String>,
    tmp: usize,
    autoclone: Vec<String>,
    extra: String,
    probe: bool,
    force_external: BTreeSet<String>,
    mut_self: bool,
    conts: std::collections::BTreeSet<usize>,
    gone: std::collections::BTreeSet<usize>,
    derived: BTreeSet<String>,
    iterfns: BTreeMap<String, BTreeSet<usize>>,
}
#[derive(Default)]
struct FnCtx {
    key: String,
    loops: usize,
    closures: usize,
    calls: BTreeMap<String, usize>,
    stmts: Vec<(usize, usize)>,
    line: usize,
    open_loops: usize,
    open_closures: usize,
    found_before: BTreeSet<(String, usize)>,
    found_after: BTreeSet<(String, usize)>,
    found_ghost: BTreeSet<(String, usize)>,
    closers: Vec<String>,
    boxed: bool,
    inlined: BTreeSet<usize>,
}

fn norm(ts: &TokenStream) -> String {
    // compact token text without spaces except between words
    let mut out = String::new();
    fn go(ts: TokenStream, out: &mut String) {
        for t in ts {
            match t {
                TokenTree::Group(g) => {
                    let (a, b) = match g.delimiter() {
                        proc_macro2::Delimiter::Parenthesis => ("(", ")"),
                        proc_macro2::Delimiter::Brace => ("{", "}"),
                        proc_macro2::Delimiter::Bracket => ("[", "]"),
                        _ => ("", ""),
                    };
                    out.push_str(a);
                    go(g.stream(), out);
                    out.push_str(b);
                }
                t => {
                    let s = t.to_string();
                    if out.chars().last().map_or(false, |c| c.is_alphanumeric() || c == '_') && s.chars().next().map_or(false, |c| c.is_alphanumeric() || c == '_') {
                        out.push(' ');
                    }
                    out.push_str(&s);
                }
            }
        }
    }
    go(ts.clone(), &mut out);
    out
}
fn tokens<T: ToTok>(t: &T) -> TokenStream {
    t.tt()
}
trait ToTok {
    fn tt(&self) -> TokenStream;
}
macro_rules! totok { ($($t:ty),*) => { $(impl ToTok for $t { fn tt(&self) -> TokenStream { let mut s = TokenStream::new(); quote_to(self, &mut s); s } })* } }
fn quote_to<T: quote::ToTokens>(t: &T, s: &mut TokenStream) {
    t.to_tokens(s)
}
totok!(Type, Path, Pat, Expr);

fn type_head(t: &Type) -> String {
    match t {
        Type::Path(p) => {
            let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
            segs.last().unwrap().clone()
        }
        Type::Reference(r) => format!("&{}", type_head(&r.elem)),
        t => norm(&tokens(t)),
    }
}
fn impl_key(i: &ItemImpl) -> String {
    let ty = type_head(&i.self_ty);
    match &i.trait_ {
        Some((_, p, _)) => {
            let last = p.segments.last().unwrap();
            let mut t = last.ident.to_string();
            // only From<X>-like traits need their arguments to be told apart
            if let PathArguments::AngleBracketed(a) = &last.arguments {
                if t == "From" || t == "Into" {
                    t = format!("{}<{}>", t, norm(&{ let mut s = TokenStream::new(); quote_to(&a.args, &mut s); s }));
                }
            }
            format!("{} for {}", t, ty)
        }
        None => ty,
    }
}
fn item_key(i: &Item) -> String {
    match i {
        Item::Fn(f) => format!("fn {}", f.sig.ident),
        Item::Struct(f) => format!("struct {}", f.ident),
        Item::Enum(f) => format!("enum {}", f.ident),
        Item::Mod(f) => format!("mod {}", f.ident),
        Item::Impl(f) => format!("impl {}", impl_key(f)),
        Item::Trait(f) => format!("trait {}", f.ident),
        Item::Const(f) => format!("const {}", f.ident),
        Item::Use(u) => format!("use {}", norm(&{ let mut s = TokenStream::new(); quote_to(&u.tree, &mut s); s })),
        Item::Type(f) => format!("type {}", f.ident),
        Item::Macro(_) => "macro".into(),
        _ => "other".into(),
    }
}
fn item_attrs(i: &Item) -> &[Attribute] {
    match i {
        Item::Fn(f) => &f.attrs,
        Item::Struct(f) => &f.attrs,
        Item::Enum(f) => &f.attrs,
        Item::Mod(f) => &f.attrs,
        Item::Impl(f) => &f.attrs,
        Item::Trait(f) => &f.attrs,
        Item::Const(f) => &f.attrs,
        Item::Use(f) => &f.attrs,
        Item::Type(f) => &f.attrs,
        _ => &[],
    }
}

impl<'a> Weave<'a> {
    fn ins(&mut self, at: usize, text: impl Into<String>) {
        self.edits.push(Edit { lo: at, hi: at, text: text.into(), pri: 0 });
    }
    fn insp(&mut self, at: usize, pri: i32, text: impl Into<String>) {
        self.edits.push(Edit { lo: at, hi: at, text: text.into(), pri });
    }
    fn rep(&mut self, lo: usize, hi: usize, text: impl Into<String>) {
        self.edits.push(Edit { lo, hi, text: text.into(), pri: 0 });
    }
    fn count(&mut self, what: &str) {
        *self.rewrites.entry(what.to_string()).or_insert(0) += 1;
    }
    fn fresh(&mut self, p: &str) -> String {
        self.tmp += 1;
        format!("vp_{}{}", p, self.tmp)
    }
    fn key(&self, name: &str) -> String {
        let mut v = self.path.clone();
        v.push(name.to_string());
        v.join("::")
    }

    // Attributes: doc/cfg/verifier are kept, all others are dropped; derives are filtered.
    fn attrs(&mut self, attrs: &[Attribute], ty: Option<(&Ident, &Generics)>) {
        for a in attrs {
            let p = a.path();
            let name = norm(&tokens(p));
            let (lo, hi) = (self.l.lo(a.span()), self.l.hi(a.span()));
            match name.as_str() {
                "cfg" => {}
                "doc" => {
                    self.rep(lo, hi, "");
                }
                "derive" => {
                    let list = a.parse_args_with(Punctuated::<Path, Token![,]>::parse_terminated).unwrap();
                    let here: Vec<String> = list.iter().map(|p| p.segments.last().unwrap().ident.to_string()).collect();
                    let mut names = vec![];
                    for b in attrs.iter().filter(|b| b.path().is_ident("derive")) {
                        let l = b.parse_args_with(Punctuated::<Path, Token![,]>::parse_terminated).unwrap();
                        names.extend(l.iter().map(|p| p.segments.last().unwrap().ident.to_string()).filter(|n| n != "StructOpt"));
                    }
                    let first = attrs.iter().find(|b| b.path().is_ident("derive")).map(|b| self.l.lo(b.span())) == Some(lo);
                    if !first {
                        self.rep(lo, hi, "");
                        continue;
                    }
                    let _ = here;
                    let copy = names.iter().any(|n| n == "Copy");
                    if let Some((id, _)) = ty {
                        if let Some(want) = self.m.derives.get(&id.to_string()) {
                            let mut w: Vec<String> = want.split(',').map(|s| s.to_string()).collect();
                            let mut n = names.clone();
                            w.sort();
                            n.sort();
                            if w != n {
                                self.lost.push(format!("{}: derived traits are {}", id, names.join(",")));
                            }
                            self.derived.insert(id.to_string());
                        }
                    }
                    let clone = names.iter().any(|n| n == "Clone");
                    self.count("derive list replaced (Copy/Clone kept, others by contract)");
                    self.rep(lo, hi, if copy { "#[derive(Clone, Copy)]" } else { "" });
                    if clone && !copy {
                        if let Some((id, g)) = ty {
                            if g.params.is_empty() {
                                self.autoclone.push(id.to_string());
                            }
                        }
                    }
                }
                _ => {
                    self.rep(lo, hi, "");
                    self.count("attribute dropped (inline/allow/deny/serde/structopt)");
                }
            }
        }
    }
    fn vis(&mut self, v: &Visibility, at: usize) {
        match v {
            Visibility::Inherited => self.insp(at, 3, "pub "),
            Visibility::Public(_) => {}
            Visibility::Restricted(r) => {
                let (lo, hi) = (self.l.lo(r.span()), self.l.hi(r.span()));
                self.rep(lo, hi, "pub")
            }
        }
        self.count("visibility widened to pub");
    }

    fn enter_fn(&mut self, key: String, attrs: &[Attribute], vis: Option<&Visibility>, sig: &Signature, body: Option<&Block>, semi: Option<Span>, whole: Span) {
        self.used.insert(key.clone());
        let mut spec = self.m.fns.get(&key).cloned().unwrap_or_default();
        if self.force_external.contains(&key) || (self.m.assumed && body.is_some()) {
            spec.external = true;
        }
        let line = sig.span().start().line;
        self.attrs(attrs, None);
        let start = match vis {
            Some(v) => {
                let at = self.l.lo(sig.span());
                self.vis(v, at);
                match v {
                    Visibility::Inherited => at,
                    v => self.l.lo(v.span()),
                }
            }
            None => self.l.lo(sig.span()),
        };
        let external = spec.external;
        let mut a = format!("/*@F {}*/", key);
        if external {
            a.push_str("#[verifier::external_body] ");
        }
        if !spec.attrs.is_empty() {
            a.push_str(spec.attrs.trim());
            a.push(' ');
        }
        self.insp(start, 1, a);
        // return value name
        if let Some(r) = &spec.ret {
            match &sig.output {
                ReturnType::Type(_, t) => {
                    let (lo, hi) = (self.l.lo(t.span()), self.l.hi(t.span()));
                    if let Some(nt) = &spec.ty {
                        self.rep(lo, hi, format!("({}: {})", r, nt));
                        self.count("return type made concrete");
                    } else {
                        self.insp(lo, -5, format!("({}: ", r));
                        self.insp(hi, 5, ")");
                    }
                }
                ReturnType::Default => self.lost.push(format!("{}: return value `{}` no longer exists", key, r)),
            }
        }
        // signature types and params
        let skip_ret = spec.ty.is_some();
        let mut pnames: Vec<String> = vec![];
        for p in &sig.inputs {
            match p {
                FnArg::Typed(t) => {
                    self.visit_type(&t.ty);
                    if let Pat::Ident(i) = &*t.pat {
                        pnames.push(i.ident.to_string());
                    }
                    if !matches!(*t.pat, Pat::Ident(_)) && body.is_some() {
                        // pattern parameter -> identifier + let
                        let n = self.fresh("a");
                        let (lo, hi) = (self.l.lo(t.pat.span()), self.l.hi(t.pat.span()));
                        self.rep(lo, hi, n.clone());
                        pnames.push(n.clone());
                        let lets = self.pat_lets(&t.pat, &n);
                        let at = self.l.lo(body.unwrap().brace_token.span.open()) + 1;
                        self.insp(at, -3, lets);
                        self.count("pattern parameter -> let");
                    }
                }
                FnArg::Receiver(r) => {
                    if r.reference.is_none() && body.is_some() && external {
                        if let Some(m) = &r.mutability {
                            let (lo, hi) = (self.l.lo(m.span()), self.l.hi(m.span()));
                            self.rep(lo, hi, "");
                        }
                    } else if r.reference.is_none() && body.is_some() {
                        if let Some(m) = &r.mutability {
                            let (lo, hi) = (self.l.lo(m.span()), self.l.hi(m.span()));
                            self.rep(lo, hi, "");
                            let at = self.l.lo(body.unwrap().brace_token.span.open()) + 1;
                            self.insp(at, -3, "let mut self_ = self;");
                            self.mut_self = true;
                            self.count("`mut self` -> `let mut self_ = self`");
                        }
                    }
                }
            }
        }
        if !skip_ret {
            if let ReturnType::Type(_, t) = &sig.output {
                self.visit_type(t);
            }
        }
        self.visit_generics(&sig.generics);
        // $0, $1, .. in the contract are the parameters
        let mut contract = spec.contract.trim_end().to_string();
        for (i, n) in pnames.iter().enumerate().rev() {
            contract = contract.replace(&format!("${}", i), n);
        }
        if let Some(b) = body {
            let open = self.l.lo(b.brace_token.span.open());
            if !contract.is_empty() {
                self.insp(open, 8, format!("\n{}\n", contract));
            }
            if !external {
                if self.probe {
                    self.insp(open + 1, -2, " proof { assert(false); } ");
                }
                if !spec.entry.is_empty() {
                    self.insp(open + 1, -1, format!("\n{}", spec.entry));
                }
                if !spec.result.is_empty() {
                    match b.stmts.last() {
                        Some(Stmt::Expr(e, None)) => {
                            let (lo, hi) = (self.l.lo(e.span()), self.l.hi(e.span()));
                            let r = spec.ret.clone().unwrap_or("vp_res".into());
                            self.insp(lo, -19, format!("let {} = ", r));
                            self.insp(hi, 19, format!(";\n{}\n{}", spec.result, r));
                        }
                        _ => self.lost.push(format!("{}: no trailing expression", key)),
                    }
                }
                if !spec.exit.is_empty() {
                    let at = match b.stmts.last() {
                        Some(Stmt::Expr(e, None)) if !(matches!(sig.output, ReturnType::Default) && matches!(e, Expr::If(_) | Expr::Match(_) | Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) | Expr::Block(_))) => self.l.lo(e.span()),
                        _ => self.l.lo(b.brace_token.span.close()),
                    };
                    self.insp(at, -25, format!("\n{}\n", spec.exit));
                }
            }
            if external {
                // Trusted: only the contract is used, the body is not looked at.
                let close = self.l.lo(b.brace_token.span.close());
                self.rep(open + 1, close, " unimplemented!() ");
                self.infos.push(FnInfo { key: key.clone(), line, contract: !contract.is_empty(), external, loops: 0, closures: 0, open_loops: 0, open_closures: 0 });
            } else {
                let boxed = match &sig.output {
                    ReturnType::Type(_, t) => boxed_iter(t).is_some(),
                    _ => false,
                };
                self.fnkey.push(FnCtx { key: key.clone(), line, boxed, ..Default::default() });
                self.path.push(key.rsplit("::").next().unwrap().to_string());
                self.block(b);
                self.mut_self = false;
                self.path.pop();
                let c = self.fnkey.pop().unwrap();
                for n in spec.loops.keys() {
                    if *n >= c.loops {
                        self.lost.push(format!("{}: loop {}", key, n));
                    }
                }
                for n in &spec.inlined {
                    if !c.inlined.contains(n) {
                        self.lost.push(format!("{}: inline {}", key, n));
                    }
                }
                for n in spec.closures.keys() {
                    if *n >= c.closures {
                        self.lost.push(format!("{}: closure {}", key, n));
                    }
                }
                for (w, set, list) in [("before", &c.found_before, &spec.before), ("after", &c.found_after, &spec.after), ("ghostarg", &c.found_ghost, &spec.ghostargs)] {
                    for (id, n, _) in list.iter() {
                        if !set.contains(&(id.clone(), *n)) {
                            self.lost.push(format!("{}: {} {}#{}", key, w, id, n));
                        }
                    }
                }
                self.infos.push(FnInfo { key: key.clone(), line: c.line, contract: !contract.is_empty(), external, loops: c.loops, closures: c.closures, open_loops: c.open_loops, open_closures: c.open_closures });
            }
            let end = self.l.hi(whole);
            self.insp(end, 9, format!("/*@E {}*/", key));
        } else if let Some(s) = semi {
            let at = self.l.lo(s);
            if !contract.is_empty() {
                self.insp(at, 8, format!("\n{}\n", contract));
            }
            self.infos.push(FnInfo { key, line, contract: !contract.is_empty(), external: true, loops: 0, closures: 0, open_loops: 0, open_closures: 0 });
        }
    }

    fn block(&mut self, b: &Block) {
        self.block_(b, false)
    }
    // `unit`: the value of the block is (), as in loop bodies
    fn block_(&mut self, b: &Block, unit: bool) {
        let n = self.fnkey.last().map(|c| c.closers.len()).unwrap_or(0);
        for s in &b.stmts {
            self.stmt(s);
            if let (Stmt::Local(l), Some(c)) = (s, self.fnkey.last_mut()) {
                if let (Pat::Ident(id), Some(init)) = (&l.pat, &l.init) {
                    if closes(&self.m.opts, &init.expr) {
                        c.closers.push(id.ident.to_string());
                    }
                }
            }
        }
        let Some(c) = self.fnkey.last_mut() else { return };
        if c.closers.len() > n {
            let mine: Vec<String> = c.closers.split_off(n);
            self.count("drop at the end of a scope -> explicit vp_close()");
            let text: String = mine.iter().rev().map(|x| format!(" {}.vp_close();", x)).collect();
            match b.stmts.last() {
                Some(Stmt::Expr(e, None)) if !unit && !matches!(e, Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_)) && !matches!(e, Expr::If(i) if i.else_branch.is_none()) => {
                    let (lo, hi) = (self.l.lo(e.span()), self.l.hi(e.span()));
                    let r = self.fresh("r");
                    self.insp(lo, -20, format!("let {} = ", r));
                    self.insp(hi, 20, format!(";{} {}", text, r));
                }
                _ => {
                    let at = self.l.lo(b.brace_token.span.close());
                    self.insp(at, -1, text);
                }
            }
        }
    }
    fn stmt(&mut self, s: &Stmt) {
        let (lo, hi) = (self.l.lo(s.span()), self.l.hi(s.span()));
        match s {
            Stmt::Item(i) => self.item(i, true),
            _ => {
                if let Some(c) = self.fnkey.last_mut() {
                    c.stmts.push((lo, hi));
                }
                if let Stmt::Local(l) = s {
                    // `let &x = e` and the like
                    self.attrs(&l.attrs, None);
                    if let Some((ref_pat, at)) = ref_pattern(&l.pat) {
                        let _ = (ref_pat, at);
                    }
                }
                visit::visit_stmt(self, s);
                if let Some(c) = self.fnkey.last_mut() {
                    c.stmts.pop();
                }
            }
        }
    }

    // Turn a pattern into a sequence of lets binding the same names, starting from identifier `n`.
    fn pat_lets(&mut self, p: &Pat, n: &str) -> String {
        match p {
            Pat::Reference(r) => match &*r.pat {
                Pat::Ident(i) if i.by_ref.is_none() => format!(" let {}{} = *{};", if i.mutability.is_some() { "mut " } else { "" }, i.ident, n),
                inner => {
                    let k = self.fresh("d");
                    let rest = self.pat_lets(inner, &k);
                    format!(" let {} = *{};{}", k, n, rest)
                }
            },
            Pat::Wild(_) => String::new(),
            Pat::Paren(p) => self.pat_lets(&p.pat, n),
            Pat::Tuple(t) => {
                // rebuild, replacing nested reference patterns by identifiers
                let mut parts = vec![];
                let mut rest = String::new();
                for e in &t.elems {
                    match e {
                        Pat::Reference(_) | Pat::Tuple(_) => {
                            let k = self.fresh("d");
                            rest.push_str(&self.pat_lets(e, &k));
                            parts.push(k);
                        }
                        e => parts.push(self.src(e.span())),
                    }
                }
                format!(" let ({}) = {};{}", if parts.len() == 1 { format!("{},", parts[0]) } else { parts.join(", ") }, n, rest)
            }
            p => format!(" let {} = {};", self.src(p.span()), n),
        }
    }
    fn src(&self, s: Span) -> String {
        self.l.text[self.l.lo(s)..self.l.hi(s)].to_string()
    }

    fn call_anchor(&mut self, name: &str, args_close: Option<usize>, nargs: usize) {
        let Some(c) = self.fnkey.last_mut() else { return };
        let n = {
            let e = c.calls.entry(name.to_string()).or_insert(0);
            let n = *e;
            *e += 1;
            n
        };
        let spec = match self.m.fns.get(&c.key) {
            Some(s) => s.clone(),
            None => return,
        };
        let st = c.stmts.last().cloned();
        for (id, k, text) in &spec.before {
            if id == name && *k == n {
                if let Some((lo, _)) = st {
                    self.fnkey.last_mut().unwrap().found_before.insert((id.clone(), *k));
                    self.insp(lo, -4, format!("\n{}\n", text));
                }
            }
        }
        for (id, k, text) in &spec.after {
            if id == name && *k == n {
                if let Some((_, hi)) = st {
                    self.fnkey.last_mut().unwrap().found_after.insert((id.clone(), *k));
                    self.insp(hi, 6, format!("\n{}\n", text));
                }
            }
        }
        for (id, k, text) in &spec.ghostargs {
            if id == name && *k == n {
                if let Some(at) = args_close {
                    self.fnkey.last_mut().unwrap().found_ghost.insert((id.clone(), *k));
                    self.insp(at, 40, format!("{}{}", if nargs > 0 { ", " } else { "" }, text));
                }
            }
        }
    }

    fn item(&mut self, i: &Item, nested: bool) {
        let k = item_key(i);
        let (lo, hi) = (self.l.lo(i.span()), self.l.hi(i.span()));
        let full = if self.path.is_empty() { k.clone() } else { format!("{}::{}", self.path.join("::"), k) };
        let test = item_attrs(i).iter().any(|a| norm(&{ let mut s = TokenStream::new(); quote_to(a, &mut s); s }).contains("cfg(test)"));
        if test {
            self.rep(lo, hi, "");
            return;
        }
        if self.m.drop.contains(&full) {
            self.used.insert(full);
            self.count("item dropped by the specification");
            self.rep(lo, hi, "");
            return;
        }
        if !self.path.is_empty() || self.m.only.is_empty() || self.m.only.contains(&full) || k.starts_with("use ") {
        } else {
            self.rep(lo, hi, "");
            return;
        }
        if let Some(a) = self.m.itemattr.get(&full) {
            let a = a.clone();
            let at = match i {
                Item::Struct(s) => if let Visibility::Inherited = s.vis { self.l.lo(s.struct_token.span) } else { self.l.lo(s.vis.span()) },
                Item::Enum(s) => if let Visibility::Inherited = s.vis { self.l.lo(s.enum_token.span) } else { self.l.lo(s.vis.span()) },
                _ => lo,
            };
            self.insp(at, 0, format!("{} ", a));
        }
        match i {
            Item::Fn(f) => {
                let key = self.key(&f.sig.ident.to_string());
                self.enter_fn(key, &f.attrs, if nested { None } else { Some(&f.vis) }, &f.sig, Some(&f.block), None, f.span());
            }
            Item::Impl(im) => {
                self.attrs(&im.attrs, None);
                let k = impl_key(im);
                self.visit_type(&im.self_ty);
                let drop_impl = matches!(&im.trait_, Some((_, p, _)) if p.is_ident("Drop"));
                if drop_impl {
                    let (a, b) = (self.l.lo(im.trait_.as_ref().unwrap().1.span()), self.l.lo(im.self_ty.span()));
                    self.rep(a, b, "");
                    self.count("impl Drop -> explicit vp_close(), called where scopes end");
                } else if let Some((_, p, _)) = &im.trait_ {
                    self.visit_path(p);
                }
                self.visit_generics(&im.generics);
                self.inject(&k, self.l.lo(im.brace_token.span.open()) + 1);
                self.path.push(k);
                for ii in &im.items {
                    match ii {
                        ImplItem::Fn(f) => {
                            let key = self.key(&f.sig.ident.to_string());
                            if self.m.drop.contains(&key) {
                                self.used.insert(key);
                                self.count("item dropped by the specification");
                                let (lo, hi) = (self.l.lo(f.span()), self.l.hi(f.span()));
                                self.rep(lo, hi, "");
                                continue;
                            }
                            let vis = if im.trait_.is_some() { None } else { Some(&f.vis) };
                            if drop_impl {
                                let (a, b) = (self.l.lo(f.sig.ident.span()), self.l.hi(f.sig.paren_token.span.close()));
                                self.rep(a, b, "vp_close(self)");
                                let at = self.l.lo(f.sig.fn_token.span);
                                self.insp(at, 2, "pub ");
                            }
                            if im.trait_.is_none() && f.sig.ident == "iter" {
                                let at = self.l.lo(f.sig.ident.span());
                                self.insp(at, 0, "vp_");
                            }
                            self.enter_fn(key, &f.attrs, vis, &f.sig, Some(&f.block), None, f.span());
                        }
                        ImplItem::Type(t) => {
                            self.visit_type(&t.ty);
                        }
                        ImplItem::Const(c) => self.visit_impl_item_const(c),
                        _ => {}
                    }
                }
                self.path.pop();
            }
            Item::Trait(t) => {
                self.attrs(&t.attrs, None);
                let at = self.l.lo(t.trait_token.span);
                self.vis(&t.vis, at);
                self.inject(&t.ident.to_string(), self.l.lo(t.brace_token.span.open()) + 1);
                self.path.push(t.ident.to_string());
                for ti in &t.items {
                    if let TraitItem::Fn(f) = ti {
                        let key = self.key(&f.sig.ident.to_string());
                        if self.m.drop.contains(&key) {
                            let (lo, hi) = (self.l.lo(f.span()), self.l.hi(f.span()));
                            self.rep(lo, hi, "");
                            continue;
                        }
                        self.enter_fn(key, &f.attrs, None, &f.sig, f.default.as_ref(), f.semi_token.map(|s| s.span), f.span());
                    } else if let TraitItem::Type(t) = ti {
                        self.attrs(&t.attrs, None);
                    }
                }
                self.path.pop();
            }
            Item::Type(t) if nested && t.generics.params.is_empty() => {
                let t = format!("pub type {} = {};\n", t.ident, self.src(t.ty.span()));
                self.extra.push_str(&t);
                self.rep(lo, hi, "");
                self.count("type alias declared inside a function moved next to it");
            }
            Item::Struct(s) => {
                self.structopt(s);
                if self.record(s, lo, hi, nested) {
                    return;
                }
                if nested {
                    let mut fields = vec![];
                    for f in s.fields.iter() {
                        if let Some(id) = &f.ident {
                            fields.push(format!("pub {}: {}", id, self.src(f.ty.span())));
                        }
                    }
                    let g = if s.generics.params.is_empty() { String::new() } else { self.src(s.generics.span()) };
                    self.extra.push_str(&format!("pub struct {}{} {{ {} }}\n", s.ident, g, fields.join(", ")));
                    self.rep(lo, hi, "");
                    self.count("struct declared inside a function moved next to it");
                    return;
                }
                self.attrs(&s.attrs, Some((&s.ident, &s.generics)));
                let at = self.l.lo(s.struct_token.span);
                if !nested {
                    self.vis(&s.vis, at);
                }
                for f in s.fields.iter() {
                    self.attrs(&f.attrs, None);
                    let at = match &f.ident {
                        Some(id) => self.l.lo(id.span()),
                        None => self.l.lo(f.ty.span()),
                    };
                    self.vis(&f.vis, at);
                    self.visit_type(&f.ty);
                }
            }
            Item::Enum(s) => {
                self.attrs(&s.attrs, Some((&s.ident, &s.generics)));
                let at = self.l.lo(s.enum_token.span);
                if !nested {
                    self.vis(&s.vis, at);
                }
                for v in &s.variants {
                    self.attrs(&v.attrs, None);
                    for f in v.fields.iter() {
                        self.attrs(&f.attrs, None);
                        self.visit_type(&f.ty);
                    }
                }
            }
            Item::Const(c) => {
                self.attrs(&c.attrs, None);
                let at = self.l.lo(c.const_token.span);
                if !nested {
                    self.vis(&c.vis, at);
                }
                self.visit_type(&c.ty);
                self.visit_expr(&c.expr);
            }
            Item::Mod(m) => {
                self.attrs(&m.attrs, None);
                match &m.content {
                    None => {
                        // out-of-line modules are woven separately
                        self.rep(lo, hi, "");
                    }
                    Some((brace, items)) => {
                        let inside = self.l.lo(brace.span.open()) + 1;
                        let shared: Vec<&str> = self.m.pre.lines().filter(|l| l.starts_with("broadcast use")).collect();
                        self.ins(inside, format!("\n    #[allow(unused_imports)] use super::*; {}\n", shared.join(" ")));
                        let at = self.l.lo(m.mod_token.span);
                        self.vis(&m.vis, at);
                        self.path.push(m.ident.to_string());
                        for i in items {
                            self.item(i, false);
                        }
                        self.path.pop();
                    }
                }
            }
            Item::Use(u) => {
                self.attrs(&u.attrs, None);
                if !nested {
                    let at = self.l.lo(u.use_token.span);
                    self.vis(&u.vis, at);
                }
                // first path segments
                let mut t = &u.tree;
                let first = loop {
                    match t {
                        UseTree::Path(p) => break Some((p.ident.clone(), Some(&p.tree))),
                        UseTree::Name(n) => break Some((n.ident.clone(), None)),
                        UseTree::Rename(n) => break Some((n.ident.clone(), None)),
                        UseTree::Group(_) => break None,
                        UseTree::Glob(_) => break None,
                    }
                    #[allow(unreachable_code)]
                    {
                        t = &u.tree;
                    }
                };
                if let Some((id, sub)) = first {
                    self.first_segment(&id, sub.map(|t| match &**t {
                        UseTree::Path(p) => p.ident.to_string(),
                        UseTree::Name(n) => n.ident.to_string(),
                        UseTree::Rename(n) => n.ident.to_string(),
                        UseTree::Group(_) => "{".into(),
                        _ => String::new(),
                    }));
                    // std::collections::{HashMap, HashSet} -> the contract module
                    let replaced = |n: &str| {
                        let on = |x: &str| self.m.opts.iter().any(|o| o == x);
                        (matches!(n, "HashMap" | "HashSet") && on("hash")) || (n == "BTreeMap" && on("tree"))
                    };
                    if id == "std" {
                        if let Some(UseTree::Path(c)) = sub.map(|t| &**t) {
                            if c.ident == "collections" {
                                let leaves: Vec<&UseTree> = match &*c.tree {
                                    UseTree::Group(g) => g.items.iter().collect(),
                                    t => vec![t],
                                };
                                let names: Vec<Option<String>> = leaves.iter().map(|t| if let UseTree::Name(n) = t { Some(n.ident.to_string()) } else { None }).collect();
                                if names.iter().all(|n| n.is_some()) && names.iter().flatten().any(|n| replaced(n)) {
                                    let out: Vec<String> = names.iter().flatten().map(|n| format!("use {}::{};", if replaced(n) { if n == "BTreeMap" { "crate::vp_tree" } else { "crate::vp_hash" } } else { "std::collections" }, n)).collect();
                                    self.edits.retain(|e| !(e.lo > lo && e.hi < hi));
                                    let vis_at = self.l.lo(u.use_token.span);
                                    self.rep(vis_at, hi, out.join(" "));
                                    self.count("std::collections -> contract module");
                                }
                            }
                        }
                    }
                    // `use csv;` would import crate::csv: fine. `use serde_derive::Serialize` is a macro.
                    if id == "serde_derive" || id == "structopt" || id == "cfg_if" || (id == "std" && matches!(sub.map(|t| &**t), Some(UseTree::Name(n)) if n.ident == "u32" || n.ident == "u64")) {
                        self.rep(lo, hi, "");
                        self.edits.retain(|e| !(e.lo > lo && e.hi < hi || (e.lo == lo && e.hi == lo)));
                    }
                }
            }
            Item::Type(t) => {
                self.attrs(&t.attrs, None);
                let at = self.l.lo(t.type_token.span);
                if !nested {
                    self.vis(&t.vis, at);
                }
                self.visit_type(&t.ty);
            }
            Item::Macro(m) if m.mac.path.is_ident("cfg_if") => self.cfg_if(m),
            Item::Macro(m) if m.mac.path.is_ident("include") || m.mac.path.is_ident("compile_error") => {
                self.rep(lo, hi, "");
                self.count("include! of build output dropped (the included file is woven separately)");
            }
            _ => {}
        }
    }

    // #[structopt(long = "all")] on field f of S  ->  spec fn cli_S_f_long() == "all"
    fn structopt(&mut self, s: &ItemStruct) {
        for f in s.fields.iter() {
            for a in &f.attrs {
                if !a.path().is_ident("structopt") {
                    continue;
                }
                if let (Ok(list), Some(id)) = (a.parse_args_with(Punctuated::<Meta, Token![,]>::parse_terminated), &f.ident) {
                    for m in list {
                        if let Meta::NameValue(nv) = m {
                            if let Expr::Lit(ExprLit { lit: Lit::Str(v), .. }) = &nv.value {
                                let k = nv.path.segments.last().unwrap().ident.to_string();
                                self.extra.push_str(&format!("pub open spec fn cli_{}_{}_{}() -> Seq<char> {{ {:?}@ }}\n", s.ident, id, k, v.value()));
                                self.count("structopt attribute -> specification constant");
                            }
                        }
                    }
                }
            }
        }
    }
    // #[derive(Serialize)]: the record has the fields in order under their (renamed) names.
    fn record(&mut self, s: &ItemStruct, lo: usize, hi: usize, nested: bool) -> bool {
        let derived = s.attrs.iter().any(|a| a.path().is_ident("derive") && norm(&{ let mut t = TokenStream::new(); quote_to(a, &mut t); t }).contains("Serialize"));
        if !derived {
            return false;
        }
        let mut all = String::new();
        let attr_of = |attrs: &[Attribute], key: &str| -> Option<String> {
            for a in attrs {
                if a.path().is_ident("serde") {
                    if let Ok(list) = a.parse_args_with(Punctuated::<Meta, Token![,]>::parse_terminated) {
                        for m in list {
                            if let Meta::NameValue(nv) = m {
                                if nv.path.is_ident(key) {
                                    if let Expr::Lit(ExprLit { lit: Lit::Str(v), .. }) = &nv.value {
                                        return Some(v.value());
                                    }
                                }
                            }
                        }
                    }
                }
            }
            None
        };
        let style = attr_of(&s.attrs, "rename_all");
        for f in s.fields.iter() {
            let id = f.ident.as_ref().unwrap().to_string();
            let name = attr_of(&f.attrs, "rename").unwrap_or_else(|| match style.as_deref() {
                Some("PascalCase") => id.split('_').map(|w| w.chars().next().map(|c| c.to_uppercase().collect::<String>() + &w[1..]).unwrap_or_default()).collect(),
                None => id.clone(),
                Some(o) => {
                    self.lost.push(format!("serde rename_all {}", o));
                    id.clone()
                }
            });
            all.push_str(&format!("({:?}@, crate::csv::VpCell::vp_cell(&self.{})), ", name, id));
        }
        let imp = format!("impl{0} crate::csv::VpRecord for {1}{0} {{ open spec fn vp_rec(&self) -> Seq<(Seq<char>, Seq<char>)> {{ seq![{2}] }} }}", if s.generics.params.is_empty() { "" } else { "<'a>" }, s.ident, all.trim_end_matches(", "));
        self.count("derived Serialize -> record specification");
        if nested {
            // a record declared inside a function: declared next to it instead
            let fields: Vec<String> = s.fields.iter().map(|f| format!("pub {}: {}", f.ident.as_ref().unwrap(), &self.l.text[self.l.lo(f.ty.span())..self.l.hi(f.ty.span())])).collect();
            self.extra.push_str(&format!("pub struct {}{} {{ {} }}\n{}\n", s.ident, if s.generics.params.is_empty() { "" } else { "<'a>" }, fields.join(", "), imp));
            self.rep(lo, hi, "");
            self.count("record declared inside a function moved next to it");
            return true;
        }
        self.insp(hi, 20, format!("\n{}", imp));
        false
    }
    // cfg_if! { if #[cfg(feature = "cli")] { items } .. }: the items of the first branch.
    fn cfg_if(&mut self, m: &ItemMacro) {
        let (lo, hi) = (self.l.lo(m.span()), self.l.hi(m.span()));
        let toks: Vec<proc_macro2::TokenTree> = m.mac.tokens.clone().into_iter().collect();
        let mut branch = None;
        for (i, t) in toks.iter().enumerate() {
            if let proc_macro2::TokenTree::Group(g) = t {
                if g.delimiter() == proc_macro2::Delimiter::Brace {
                    branch = Some((i, g.clone()));
                    break;
                }
            }
        }
        let cond: String = toks.iter().take(3).map(|t| t.to_string()).collect::<Vec<_>>().join("");
        let ok = cond.replace(' ', "") == "if#[cfg(feature=\"cli\")]";
        match branch {
            Some((_, g)) if ok => {
                let olo = self.l.lo(g.span_open());
                let chi = self.l.hi(g.span_close());
                match syn::parse2::<File>(g.stream()) {
                    Ok(f) => {
                        self.rep(lo, olo + 1, "");
                        self.rep(chi - 1, hi, "");
                        self.count("cfg_if! replaced by the items of its feature = \"cli\" branch");
                        for i in &f.items {
                            self.item(i, false);
                        }
                    }
                    Err(e) => self.lost.push(format!("cfg_if does not parse: {}", e)),
                }
            }
            _ => self.lost.push("cfg_if without a cli branch".into()),
        }
    }

    fn first_segment(&mut self, id: &Ident, second: Option<String>) {
        let s = id.to_string();
        let (lo, hi) = (self.l.lo(id.span()), self.l.hi(id.span()));
        if EXTERN.contains(&s.as_str()) {
            self.insp(lo, 4, "crate::");
            self.count("external crate path -> contract module");
        } else if s == "crate" {
            let root = self.m.path.split("::").next().unwrap().to_string();
            self.rep(lo, hi, format!("crate::{}", root));
        } else if s == "std" {
            match second.as_deref() {
                Some("io") | Some("fmt") | Some("iter") | Some("slice") | Some("fs") | Some("path") | Some("str") | Some("ffi") | Some("process") => {
                    self.rep(lo, hi, "crate::vp_std");
                    self.count("std::{io,fmt,iter,slice,..} -> contract module");
                }
                _ => {}
            }
        }
    }

    /// `continue`s of a `for` that merely skip to the end of its body: in tail position, or at the end of an `if` without `else`
    /// (the statements after it then become its `else`).
    fn tail_continues(&mut self, b: &Block) {
        for (i, s) in b.stmts.iter().enumerate() {
            let last = i + 1 == b.stmts.len();
            // `let x = if let P(x) = E { A } else { continue }; REST` is `if let P(x) = E { let x = { A }; REST }`
            if let Stmt::Local(Local { pat: Pat::Ident(id), init: Some(init), .. }) = s {
                if let (Expr::If(x), None) = (&*init.expr, &init.diverge) {
                    let only = |e: &Expr| match e {
                        Expr::Block(b) => match b.block.stmts.as_slice() {
                            [Stmt::Expr(Expr::Continue(c), _)] => c.label.is_none(),
                            _ => false,
                        },
                        _ => false,
                    };
                    let same = match &*x.cond {
                        Expr::Let(l) => match &*l.pat {
                            Pat::TupleStruct(t) => t.elems.len() == 1 && matches!(&t.elems[0], Pat::Ident(i) if i.ident == id.ident && i.subpat.is_none()),
                            _ => false,
                        },
                        e => !holds_let(e),
                    };
                    if let (true, Some((_, e))) = (same, &x.else_branch) {
                        if only(e) {
                            let (lo, hi) = (self.l.lo(s.span()), self.l.hi(s.span()));
                            let p = self.src(id.span());
                            let ilo = self.l.lo(x.span());
                            self.rep(lo, ilo, "");
                            let tlo = self.l.lo(x.then_branch.span());
                            self.insp(tlo, -30, format!("{{ let {} = ", p));
                            let thi = self.l.hi(x.then_branch.span());
                            self.rep(thi, hi, ";");
                            let at = self.l.lo(b.brace_token.span.close());
                            self.insp(at, 2, " }");
                            self.gone.insert(self.l.lo(e.span()));
                            self.count("`let` whose `else` continues turned into an `if` around the rest of the loop body");
                        }
                    }
                }
                continue;
            }
            let e = match s { Stmt::Expr(e, _) => e, _ => continue };
            if last {
                self.tail_continue(e);
            } else if let Expr::If(x) = e {
                if let (None, Some(Stmt::Expr(Expr::Continue(c), _))) = (&x.else_branch, x.then_branch.stmts.last()) {
                    if c.label.is_none() && matches!(s, Stmt::Expr(_, None)) {
                        self.tail_continues(&x.then_branch);
                        let at = self.l.hi(x.span());
                        self.insp(at, 15, " else {");
                        let at = self.l.lo(b.brace_token.span.close());
                        self.insp(at, 2, " }");
                    }
                }
            }
        }
    }
    fn tail_continue(&mut self, e: &Expr) {
        match e {
            Expr::Continue(c) if c.label.is_none() => {
                let lo = self.l.lo(c.span());
                self.conts.insert(lo);
                self.count("continue at the end of a loop body left out");
            }
            Expr::Block(b) if b.label.is_none() => self.tail_continues(&b.block),
            Expr::If(x) => {
                self.tail_continues(&x.then_branch);
                if let Some((_, e)) = &x.else_branch {
                    self.tail_continue(e);
                }
            }
            Expr::Match(m) => {
                for a in &m.arms {
                    self.tail_continue(&a.body);
                }
            }
            _ => {}
        }
    }
    fn leaves(&mut self) {
        if let Some(c) = self.fnkey.last() {
            if !c.closers.is_empty() {
                self.lost.push(format!("{}: leaves a loop while a value that is closed on drop may be in scope", c.key));
            }
        }
    }
    fn inject(&mut self, key: &str, at: usize) {
        if let Some(t) = self.m.inject.get(key) {
            let t = t.clone();
            self.used.insert(format!("inject {}", key));
            self.insp(at, 0, format!("\n{}", t));
        }
    }

    fn lost_fn(&mut self) {
        for k in self.m.inject.keys() {
            if !self.used.contains(&format!("inject {}", k)) {
                self.lost.push(format!("impl {}", k));
            }
        }
        for k in self.m.derives.keys() {
            if !self.derived.contains(k) {
                self.lost.push(format!("{}: no derived traits", k));
            }
        }
        for k in self.m.fns.keys() {
            if !self.used.contains(k) {
                self.lost.push(format!("function {}", k));
            }
        }
    }

    // `RECV.map(move |i| BODY)`, whose BODY changes captured variables  ->
    // `{ fn step(captures, i) BODY  let mut v = vec; for i in RECV { v.push(step(captures, i)) } v }`
    fn step(&mut self, m: &ExprMethodCall, c: &ExprClosure, key: &str, args: &str, head: &str) {
        let n = {
            let x = self.fnkey.last_mut().unwrap();
            let n = x.loops;
            x.loops += 1;
            x.closures += 1;
            n
        };
        let spec = self.m.fns.get(key).and_then(|s| s.loops.get(&n)).cloned();
        if spec.is_none() {
            self.fnkey.last_mut().unwrap().open_loops += 1;
        }
        let spec = spec.unwrap_or_default();
        let (lo, hi) = (self.l.lo(m.span()), self.l.hi(m.span()));
        let recv = self.src(m.receiver.span());
        let (blo, bhi) = (self.l.lo(c.body.span()), self.l.hi(c.body.span()));
        let name = head.split("fn ").nth(1).unwrap_or("").split(|c: char| !(c.is_alphanumeric() || c == '_')).next().unwrap_or("").to_string();
        let k = format!("{}::{}", key, name);
        // `-> (r: TYPE)`
        let ty = head.split("-> (").nth(1).and_then(|x| x.split('\n').next()).and_then(|x| x.split_once(": ")).map(|x| x.1.trim().trim_end_matches(')').to_string() + &")".repeat(x.1.trim().len() - x.1.trim().trim_end_matches(')').len() - 1)).unwrap_or("_".into());
        let param = match c.inputs.first() {
            Some(p) => self.src(p.span()),
            None => "_".into(),
        };
        self.rep(lo, blo, format!("/*@F {}*/{} ", k, head.trim_end().replace("$0", &param)));
        let itn = spec.iter.as_ref().map(|n| format!("{}: ", n)).unwrap_or_default();
        let inv = if spec.inv.trim().is_empty() { String::new() } else { format!("\n{}\n", spec.inv.trim_end()) };
        self.rep(bhi, hi, format!("/*@E {}*/ {} let mut vp_out: Vec<{}> = Vec::new(); for vp_i in {}{} {} {{ {} let vp_e = {}({}, vp_i); vp_out.push(vp_e); {} }} {} vp_out.vp_it()", k, spec.pre, ty, itn, recv, inv, spec.entry, name, args, spec.exit, spec.post));
        self.count("`.map` with a mutable capture -> step function and loop");
        let line = m.span().start().line;
        self.used.insert(k.clone());
        self.fnkey.push(FnCtx { key: k.clone(), line, ..Default::default() });
        self.visit_expr(&c.body);
        let x = self.fnkey.pop().unwrap();
        self.infos.push(FnInfo { key: k, line, contract: true, external: false, loops: x.loops, closures: x.closures, open_loops: x.open_loops, open_closures: x.open_closures });
    }
    // `RECV.map(|x| E)`, where E changes captured variables  ->
    // `{ let mut v = Vec::new(); for x in RECV { v.push(E); } v }` (right when the result is collected at once)
    fn inline_map(&mut self, m: &ExprMethodCall, c: &ExprClosure, cn: usize) {
        let (key, n) = {
            let x = self.fnkey.last_mut().unwrap();
            let n = x.loops;
            x.loops += 1;
            x.closures += 1;
            x.inlined.insert(cn);
            (x.key.clone(), n)
        };
        let spec = self.m.fns.get(&key).and_then(|s| s.loops.get(&n)).cloned();
        if spec.is_none() {
            self.fnkey.last_mut().unwrap().open_loops += 1;
        }
        let spec = spec.unwrap_or_default();
        let (lo, hi) = (self.l.lo(m.span()), self.l.hi(m.span()));
        let rhi = self.l.hi(m.receiver.span());
        let (blo, bhi) = (self.l.lo(c.body.span()), self.l.hi(c.body.span()));
        let (pat, lets) = match c.inputs.first() {
            Some(Pat::Ident(i)) if i.by_ref.is_none() && i.mutability.is_none() => (i.ident.to_string(), String::new()),
            Some(p) => {
                let p = match p { Pat::Type(t) => &*t.pat, p => p };
                let n = self.fresh("p");
                let l = self.pat_lets(p, &n);
                (n, l)
            }
            None => (self.fresh("p"), String::new()),
        };
        let itn = spec.iter.as_ref().map(|n| format!("{}: ", n)).unwrap_or_default();
        let nl = |s: &str| if s.trim().is_empty() { String::new() } else { format!("\n{}\n", s.trim_end()) };
        self.insp(lo, -25, "{ let mut vp_out = Vec::new(); match (");
        self.rep(rhi, blo, format!(").vp_it() {{ vp_r => {{ {} for {} in {}vp_r {}{{ {} {} let vp_e = ", nl(&spec.pre), pat, itn, nl(&spec.inv), lets, nl(&spec.entry)));
        self.rep(bhi, hi, format!("; vp_out.push(vp_e); {}}} {} }} }} vp_out }}", nl(&spec.exit), nl(&spec.post)));
        self.count("`.map` with a mutable capture -> loop");
        self.visit_expr(&m.receiver);
        self.visit_expr(&c.body);
    }
    // `ITER.for_each(|PAT| BODY)` is `for PAT in ITER { BODY }`.
    fn for_each(&mut self, m: &ExprMethodCall, c: &ExprClosure) {
        let (key, n) = {
            let x = self.fnkey.last_mut().unwrap();
            let n = x.loops;
            x.loops += 1;
            (x.key.clone(), n)
        };
        let spec = self.m.fns.get(&key).and_then(|s| s.loops.get(&n)).cloned();
        if spec.is_none() {
            self.fnkey.last_mut().unwrap().open_loops += 1;
        }
        let spec = spec.unwrap_or_default();
        let (lo, hi) = (self.l.lo(m.span()), self.l.hi(m.span()));
        let rhi = self.l.hi(m.receiver.span());
        let (blo, bhi) = (self.l.lo(c.body.span()), self.l.hi(c.body.span()));
        let (pat, lets) = match c.inputs.first() {
            Some(Pat::Ident(i)) if i.by_ref.is_none() && i.mutability.is_none() => (i.ident.to_string(), String::new()),
            Some(p) => {
                let p = match p { Pat::Type(t) => &*t.pat, p => p };
                let n = self.fresh("p");
                let l = self.pat_lets(p, &n);
                (n, l)
            }
            None => (self.fresh("p"), String::new()),
        };
        let itn = spec.iter.as_ref().map(|n| format!("{}: ", n)).unwrap_or_default();
        if !spec.pre.is_empty() {
            self.insp(lo, -26, format!("\n{}\n", spec.pre));
        }
        self.insp(lo, -25, format!("for {} in {}(", pat, itn));
        let inv = if spec.inv.trim().is_empty() { String::new() } else { format!("\n{}\n", spec.inv.trim_end()) };
        let entry = if spec.entry.is_empty() { String::new() } else { format!("\n{}\n", spec.entry) };
        self.rep(rhi, blo, format!(").vp_it() {}{{ {} {}", inv, lets, entry));
        let exit = if spec.exit.is_empty() { String::new() } else { format!("\n{}\n", spec.exit) };
        self.rep(bhi, hi, format!("; {}}}", exit));
        if !spec.post.is_empty() {
            self.insp(hi + 1, 26, format!("\n{}\n", spec.post));
        }
        self.count("for_each(|PAT| BODY) -> for PAT in .. { BODY }");
        self.visit_expr(&m.receiver);
        if let Some(x) = self.fnkey.last_mut() {
            x.stmts.push((blo, bhi));
        }
        self.visit_expr(&c.body);
        if let Some(x) = self.fnkey.last_mut() {
            x.stmts.pop();
        }
    }
    // `for PAT in RECV.flat_map(|x| E) { .. }`  ->  `for x in RECV { for PAT in E { .. } }`
    fn flat_for<'b>(&mut self, f: &'b ExprForLoop, m: &'b ExprMethodCall, c: &'b ExprClosure, p: &Pat) {
        let (key, n) = {
            let x = self.fnkey.last_mut().unwrap();
            let n = x.loops;
            x.loops += 1;
            (x.key.clone(), n)
        };
        let outer = self.m.fns.get(&key).and_then(|s| s.loops.get(&n)).cloned();
        if outer.is_none() {
            self.fnkey.last_mut().unwrap().open_loops += 1;
        }
        let outer = outer.unwrap_or_default();
        let (lo, hi) = (self.l.lo(f.span()), self.l.hi(f.span()));
        let rec = (self.l.lo(m.receiver.span()), self.l.hi(m.receiver.span()));
        let body = (self.l.lo(c.body.span()), self.l.hi(c.body.span()));
        let end = self.l.hi(m.span());
        let open = self.l.lo(f.body.brace_token.span.open()) + 1;
        let param = self.src(p.span());
        if !outer.pre.is_empty() {
            self.insp(lo, -26, format!("\n{}\n", outer.pre));
        }
        let itn = outer.iter.as_ref().map(|n| format!("{}: ", n)).unwrap_or_default();
        self.rep(lo, rec.0, format!("for {} in {}(", param, itn));
        let inv = if outer.inv.trim().is_empty() { String::new() } else { format!("\n{}\n", outer.inv.trim_end()) };
        let entry = if outer.entry.is_empty() { String::new() } else { format!("\n{}\n", outer.entry) };
        let inner = {
            let x = self.fnkey.last_mut().unwrap();
            let n = x.loops;
            x.loops += 1;
            self.m.fns.get(&key).and_then(|s| s.loops.get(&n)).cloned()
        };
        if inner.is_none() {
            self.fnkey.last_mut().unwrap().open_loops += 1;
        }
        let inner = inner.unwrap_or_default();
        let itn = inner.iter.as_ref().map(|n| format!("{}: ", n)).unwrap_or_default();
        let (pat, lets) = if simple_pat(&f.pat) { (self.src(f.pat.span()), String::new()) } else {
            let n = self.fresh("p");
            let l = self.pat_lets(&f.pat, &n);
            (n, l)
        };
        let pre = if inner.pre.is_empty() { String::new() } else { format!("\n{}\n", inner.pre) };
        self.rep(rec.1, body.0, format!(").vp_it() {}{{ {}{}for {} in {}(", inv, entry, pre, pat, itn));
        let inv = if inner.inv.trim().is_empty() { String::new() } else { format!("\n{}\n", inner.inv.trim_end()) };
        self.rep(body.1, end, format!(").vp_it() {}", inv));
        let entry = if inner.entry.is_empty() { String::new() } else { format!("\n{}\n", inner.entry) };
        self.insp(open, 1, format!("{}{}", lets, entry));
        if !inner.exit.is_empty() {
            self.insp(hi - 1, 3, format!("\n{}\n", inner.exit));
        }
        let post = if inner.post.is_empty() { String::new() } else { format!("\n{}\n", inner.post) };
        let exit = if outer.exit.is_empty() { String::new() } else { format!("\n{}\n", outer.exit) };
        let opost = if outer.post.is_empty() { String::new() } else { format!("\n{}\n", outer.post) };
        self.insp(hi, 5, format!("{}{} }}{}", post, exit, opost));
        self.count("for .. in X.flat_map(|x| E) -> nested for");
        self.visit_expr(&m.receiver);
        self.visit_expr(&c.body);
        self.block_(&f.body, true);
    }
    fn loop_common(&mut self, whole: Span, body: &Block) -> LoopSpec {
        let (key, n) = {
            let c = self.fnkey.last_mut().unwrap();
            let n = c.loops;
            c.loops += 1;
            (c.key.clone(), n)
        };
        let spec = self.m.fns.get(&key).and_then(|s| s.loops.get(&n)).cloned();
        if spec.is_none() {
            self.fnkey.last_mut().unwrap().open_loops += 1;
        }
        let spec = spec.unwrap_or_default();
        let open = self.l.lo(body.brace_token.span.open());
        if !spec.inv.trim().is_empty() {
            self.insp(open, 8, format!("\n{}\n", spec.inv.trim_end()));
        }
        if !spec.entry.is_empty() {
            self.insp(open + 1, 3, format!("\n{}", spec.entry));
        }
        if !spec.exit.is_empty() {
            let at = self.l.lo(body.brace_token.span.close());
            self.insp(at, 3, format!("\n{}\n", spec.exit));
        }
        let (lo, hi) = (self.l.lo(whole), self.l.hi(whole));
        if !spec.pre.is_empty() {
            self.insp(lo, -6, format!("\n{}\n", spec.pre));
        }
        if !spec.post.is_empty() {
            self.insp(hi, 6, format!("\n{}\n", spec.post));
        }
        spec
    }

    fn macro_args(&self, m: &Macro) -> Option<Vec<Expr>> {
        let p = Punctuated::<Expr, Token![,]>::parse_terminated;
        p.parse2(m.tokens.clone()).ok().map(|v| v.into_iter().collect())
    }

    // `format`-like pieces: returns code text edits that leave the argument expressions in place.
    fn format_pieces(&mut self, lo: usize, hi: usize, fmt: &str, args: &[Expr], nl: bool) -> bool {
        // pieces: lit, (kind), lit ...
        let mut pieces: Vec<(String, Option<&'static str>)> = vec![];
        let mut lit = String::new();
        let mut it = fmt.chars().peekable();
        while let Some(c) = it.next() {
            if c == '{' {
                if it.peek() == Some(&'{') {
                    it.next();
                    lit.push('{');
                    continue;
                }
                let mut s = String::new();
                for d in it.by_ref() {
                    if d == '}' {
                        break;
                    }
                    s.push(d);
                }
                let k = match s.as_str() {
                    "" => "d",
                    ":.2" => "p2",
                    ":+" => "plus",
                    ":04x" => "x04",
                    ":?" => "dbg",
                    _ => return false,
                };
                pieces.push((std::mem::take(&mut lit), Some(k)));
            } else if c == '}' {
                if it.peek() == Some(&'}') {
                    it.next();
                }
                lit.push('}');
            } else {
                lit.push(c);
            }
        }
        if nl {
            lit.push('\n');
        }
        if pieces.len() != args.len() {
            return false;
        }
        let mut cur = lo;
        let mut text = String::from("{ let mut vp_f = crate::vp_text::VpFmt::new();");
        for ((l, k), a) in pieces.iter().zip(args) {
            let k = k.unwrap();
            if !l.is_empty() {
                text.push_str(&format!(" vp_f.lit({:?});", l));
            }
            text.push_str(&format!(" vp_f.{}(&(", k));
            let (alo, ahi) = (self.l.lo(a.span()), self.l.hi(a.span()));
            self.edits.push(Edit { lo: cur, hi: alo, text: std::mem::take(&mut text), pri: -9 });
            cur = ahi;
            text = String::from("));");
        }
        if !lit.is_empty() {
            text.push_str(&format!(" vp_f.lit({:?});", lit));
        }
        text.push_str(" vp_f.finish() }");
        self.edits.push(Edit { lo: cur, hi, text, pri: 99 });
        true
    }

    fn mac(&mut self, m: &Macro, whole: Span) {
        let name = m.path.segments.last().unwrap().ident.to_string();
        let (lo, hi0) = (self.l.lo(whole), self.l.hi(m.span()));
        let hi = hi0;
        self.call_anchor(&format!("{}!", name), None, 0);
        let args = self.macro_args(m);
        match name.as_str() {
            "anyhow" => {
                self.rep(lo, hi, "crate::anyhow::vp_anyhow()");
                self.count("anyhow!(..) -> vp_anyhow() (message not modelled)");
            }
            "eprintln" => {
                self.rep(lo, hi, "crate::vp_std::process::vp_eprintln()");
                self.count("eprintln!(..) -> vp_eprintln() (message not modelled)");
            }
            "panic" | "unreachable" | "unimplemented" | "todo" => {
                self.rep(lo, hi, "crate::vp::vp_panic()");
                self.count("panic!/unreachable! -> obligation `unreachable`");
            }
            "assert" | "debug_assert" => {
                if let Some(a) = &args {
                    let (alo, ahi) = (self.l.lo(a[0].span()), self.l.hi(a[0].span()));
                    let div = self.m.opts.contains("assert=diverge");
                    self.rep(lo, alo, if div { "crate::vp::vp_check(" } else { "crate::vp::vp_assert(" });
                    self.visit_expr(&a[0]);
                    self.rep(ahi, hi, ")");
                    self.count("assert!/debug_assert! -> obligation");
                }
            }
            "assert_eq" | "debug_assert_eq" | "assert_ne" => {
                if let Some(a) = &args {
                    let (alo, ahi) = (self.l.lo(a[0].span()), self.l.hi(a[0].span()));
                    let (blo, bhi) = (self.l.lo(a[1].span()), self.l.hi(a[1].span()));
                    self.rep(lo, alo, "crate::vp::vp_assert((");
                    self.visit_expr(&a[0]);
                    self.rep(ahi, blo, if name == "assert_ne" { ") != (" } else { ") == (" });
                    self.visit_expr(&a[1]);
                    self.rep(bhi, hi, "))");
                    self.count("assert_eq! -> obligation");
                }
            }
            "format" => {
                if let Some(a) = &args {
                    if let Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) = &a[0] {
                        if self.format_pieces(lo, hi, &s.value(), &a[1..], false) {
                            for e in &a[1..] {
                                self.visit_expr(e);
                            }
                            self.count("format!/write! -> piecewise output");
                        }
                    }
                }
            }
            "write" | "writeln" => {
                let args = match args {
                    Some(a) => a,
                    None => return,
                };
                let (wlo, whi) = (self.l.lo(args[0].span()), self.l.hi(args[0].span()));
                let nl = name == "writeln";
                let fmt = match args.get(1) {
                    Some(Expr::Lit(ExprLit { lit: Lit::Str(s), .. })) => s.value(),
                    None => String::new(),
                    _ => return,
                };
                let rest: Vec<Expr> = args.iter().skip(2).cloned().collect();
                self.rep(lo, wlo, "(");
                self.visit_expr(&args[0]);
                self.insp(whi, -8, ").vp_write_str(");
                self.insp(hi, 100, ")");
                if self.format_pieces(whi, hi, &fmt, &rest, nl) {
                    for e in &rest {
                        self.visit_expr(e);
                    }
                    self.count("format!/write! -> piecewise output");
                }
            }
            "vec" if args.as_ref().map_or(false, |a| a.iter().any(holds_closure)) => {
                // the verifier's syntax does not reach into `vec!`: its elements move in front of it
                let a = args.unwrap();
                let names: Vec<String> = a.iter().map(|_| self.fresh("v")).collect();
                let mut cur = lo;
                let mut text = String::from("{ ");
                for (e, n) in a.iter().zip(&names) {
                    let (elo, ehi) = (self.l.lo(e.span()), self.l.hi(e.span()));
                    text.push_str(&format!("let {} = ", n));
                    self.edits.push(Edit { lo: cur, hi: elo, text: std::mem::take(&mut text), pri: -9 });
                    cur = ehi;
                    text = String::from("; ");
                }
                text.push_str(&format!("vec![{}] }}", names.join(", ")));
                self.edits.push(Edit { lo: cur, hi, text, pri: 99 });
                for e in &a {
                    self.visit_expr(e);
                }
                self.count("vec![..] with closures: elements evaluated in front of it, in order");
            }
            _ => {
                if let Some(a) = &args {
                    for e in a {
                        self.visit_expr(e);
                    }
                }
            }
        }
    }
}

// `@opt close=NAME`: the value of this initializer is closed when it is dropped.
fn closes(opts: &BTreeSet<String>, e: &Expr) -> bool {
    match e {
        Expr::Try(t) => closes(opts, &t.expr),
        Expr::MethodCall(m) => opts.contains(&format!("close={}", m.method)),
        Expr::Call(c) => match &*c.func {
            Expr::Path(p) => opts.contains(&format!("close={}", p.path.segments.last().unwrap().ident)),
            _ => false,
        },
        _ => false,
    }
}
fn ref_pattern(p: &Pat) -> Option<(Pat, usize)> {
    match p {
        Pat::Reference(r) => Some(((*r.pat).clone(), 0)),
        _ => None,
    }
}

fn is_range(e: &Expr) -> bool {
    match e {
        Expr::Range(_) => true,
        Expr::Paren(p) => is_range(&p.expr),
        _ => false,
    }
}
fn holds_let(e: &Expr) -> bool {
    struct V(bool);
    impl<'a> Visit<'a> for V {
        fn visit_expr_let(&mut self, _: &'a ExprLet) { self.0 = true; }
    }
    let mut v = V(false);
    v.visit_expr(e);
    v.0
}
fn has_return(e: &Expr) -> bool {
    struct V(bool);
    impl<'a> Visit<'a> for V {
        fn visit_expr_return(&mut self, _: &'a ExprReturn) { self.0 = true; }
        fn visit_expr_try(&mut self, _: &'a ExprTry) { self.0 = true; }
        fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    }
    let mut v = V(false);
    v.visit_expr(e);
    v.0
}
// The parts of `for PAT in RECV.flat_map(|x| E) { .. }`, when it is the same as nested loops.
fn flat_loop(f: &ExprForLoop) -> Option<(&ExprMethodCall, &ExprClosure, &Pat)> {
    struct V(bool);
    impl<'a> Visit<'a> for V {
        fn visit_expr_break(&mut self, _: &'a ExprBreak) { self.0 = true; }
    }
    let mut v = V(false);
    v.visit_block(&f.body);
    match &*f.expr {
        Expr::MethodCall(m) if m.method == "flat_map" && m.args.len() == 1 && !v.0 && f.label.is_none() => match &m.args[0] {
            Expr::Closure(c) if c.inputs.len() == 1 && simple_pat(&c.inputs[0]) && !has_return(&c.body) => Some((m, c, &c.inputs[0])),
            _ => None,
        },
        _ => None,
    }
}
fn simple_pat(p: &Pat) -> bool {
    match p {
        Pat::Ident(i) => i.by_ref.is_none() && i.subpat.is_none() && i.mutability.is_none(),
        Pat::Type(t) => simple_pat(&t.pat),
        _ => false,
    }
}

/// Does a closure occur in this expression (macros aside)?
fn holds_closure(e: &Expr) -> bool {
    struct V(bool);
    impl<'ast> Visit<'ast> for V {
        fn visit_expr_closure(&mut self, _: &'ast ExprClosure) {
            self.0 = true;
        }
    }
    let mut v = V(false);
    v.visit_expr(e);
    v.0
}

impl<'a, 'ast> Visit<'ast> for Weave<'a> {
    fn visit_attribute(&mut self, a: &'ast Attribute) {
        let name = norm(&tokens(a.path()));
        if name != "cfg" {
            let (lo, hi) = (self.l.lo(a.span()), self.l.hi(a.span()));
            self.rep(lo, hi, "");
        }
    }
    fn visit_item(&mut self, i: &'ast Item) {
        self.item(i, true);
    }
    fn visit_block(&mut self, b: &'ast Block) {
        self.block(b);
    }
    fn visit_stmt(&mut self, s: &'ast Stmt) {
        self.stmt(s);
    }
    fn visit_stmt_macro(&mut self, m: &'ast StmtMacro) {
        self.mac(&m.mac, m.mac.span());
    }
    fn visit_expr_macro(&mut self, m: &'ast ExprMacro) {
        self.mac(&m.mac, m.mac.span());
    }
    fn visit_path(&mut self, p: &'ast Path) {
        if self.mut_self && p.is_ident("self") {
            let hi = self.l.hi(p.span());
            self.insp(hi, 0, "_");
        }
        if p.leading_colon.is_none() && p.segments.len() > 1 {
            let a = p.segments[0].ident.clone();
            self.first_segment(&a, Some(p.segments[1].ident.to_string()));
            // the contract module's writer is the one over `&mut dyn Write`
            let l = p.segments.last().unwrap();
            if a == "csv" && l.ident == "Writer" {
                if let PathArguments::AngleBracketed(g) = &l.arguments {
                    let (lo, hi) = (self.l.lo(g.span()), self.l.hi(g.span()));
                    self.rep(lo, hi, "");
                    return;
                }
            }
        }
        visit::visit_path(self, p);
    }
    fn visit_expr_if(&mut self, i: &'ast ExprIf) {
        if let Some((_, e)) = &i.else_branch {
            if self.gone.contains(&self.l.lo(e.span())) {
                self.visit_expr(&i.cond);
                self.visit_block(&i.then_branch);
                return;
            }
        }
        // `if let V(&P) = E { .. }` is `if let V(d) = E { if let P = *d { .. } }`
        if let (Expr::Let(l), None) = (&*i.cond, &i.else_branch) {
            if let Pat::TupleStruct(t) = &*l.pat {
                if let (1, Some(Pat::Reference(r))) = (t.elems.len(), t.elems.first()) {
                    let (lo, hi) = (self.l.lo(r.span()), self.l.hi(r.span()));
                    let n = self.fresh("d");
                    let p = self.src(r.pat.span());
                    self.rep(lo, hi, &n);
                    let at = self.l.hi(i.then_branch.brace_token.span.open());
                    self.insp(at, -30, format!(" if let {} = *{} {{", p, n));
                    let at = self.l.lo(i.then_branch.brace_token.span.close());
                    self.insp(at, 30, " }");
                    self.count("reference pattern in `if let` taken apart in a nested `if let`");
                    self.visit_expr(&l.expr);
                    self.visit_block(&i.then_branch);
                    return;
                }
            }
        }
        visit::visit_expr_if(self, i);
    }
    fn visit_expr_return(&mut self, r: &'ast ExprReturn) {
        let open: Vec<String> = self.fnkey.last().map(|c| c.closers.clone()).unwrap_or_default();
        if !open.is_empty() {
            let text: String = open.iter().rev().map(|x| format!(" {}.vp_close();", x)).collect();
            match &r.expr {
                Some(e) => {
                    let (lo, hi) = (self.l.lo(e.span()), self.l.hi(e.span()));
                    let n = self.fresh("r");
                    self.insp(lo, -20, format!("{{ let {} = ", n));
                    self.insp(hi, 20, format!(";{} {} }}", text, n));
                }
                None => {
                    let (lo, hi) = (self.l.lo(r.span()), self.l.hi(r.span()));
                    self.insp(lo, -20, format!("{{{} ", text));
                    self.insp(hi, 20, " }");
                }
            }
        }
        visit::visit_expr_return(self, r);
    }
    fn visit_expr_break(&mut self, b: &'ast ExprBreak) {
        self.leaves();
        visit::visit_expr_break(self, b);
    }
    fn visit_expr_continue(&mut self, c: &'ast ExprContinue) {
        let (lo, hi) = (self.l.lo(c.span()), self.l.hi(c.span()));
        if self.conts.contains(&lo) {
            self.rep(lo, hi, "{}");
            return;
        }
        self.leaves();
    }
    fn visit_local(&mut self, l: &'ast Local) {
        visit::visit_local(self, l);
    }
    fn visit_type(&mut self, t: &'ast Type) {
        match t {
            Type::ImplTrait(i) => {
                if let Some(x) = iter_item(i.bounds.iter()) {
                    let (lo, hi) = (self.l.lo(t.span()), self.l.hi(t.span()));
                    let (xlo, xhi) = (self.l.lo(x.span()), self.l.hi(x.span()));
                    self.rep(lo, xlo, "crate::vp::VpIter<");
                    self.visit_type(x);
                    self.rep(xhi, hi, ">");
                    self.count("impl/dyn Iterator -> VpIter");
                    return;
                }
            }
            Type::Path(p) => {
                let _ = p;
                if let Some(x) = boxed_iter(t) {
                    let (lo, hi) = (self.l.lo(t.span()), self.l.hi(t.span()));
                    let (xlo, xhi) = (self.l.lo(x.span()), self.l.hi(x.span()));
                    self.rep(lo, xlo, "crate::vp::VpIter<");
                    self.visit_type(x);
                    self.rep(xhi, hi, ">");
                    self.count("impl/dyn Iterator -> VpIter");
                    return;
                }
            }
            _ => {}
        }
        visit::visit_type(self, t);
    }
    fn visit_expr_for_loop(&mut self, f: &'ast ExprForLoop) {
        if let Some((m, c, p)) = flat_loop(f) {
            return self.flat_for(f, m, c, p);
        }
        let spec = self.loop_common(f.span(), &f.body);
        if f.label.is_none() && self.fnkey.last().map_or(true, |c| c.closers.is_empty()) {
            self.tail_continues(&f.body);
        }
        let (plo, phi) = (self.l.lo(f.pat.span()), self.l.hi(f.pat.span()));
        let open = self.l.lo(f.body.brace_token.span.open()) + 1;
        if !simple_pat(&f.pat) {
            let n = self.fresh("p");
            self.rep(plo, phi, n.clone());
            let lets = self.pat_lets(&f.pat, &n);
            self.insp(open, 1, lets);
            self.count("for PATTERN -> for IDENT + let");
        }
        let (elo, ehi) = (self.l.lo(f.expr.span()), self.l.hi(f.expr.span()));
        let itn = spec.iter.clone();
        if let Some(n) = itn {
            self.insp(elo, -7, format!("{}: ", n));
        }
        if !is_range(&f.expr) {
            self.insp(elo, -6, "(");
            self.insp(ehi, 6, ").vp_it()");
            self.count("for .. in E -> for .. in (E).vp_it()");
        }
        self.visit_expr(&f.expr);
        self.block_(&f.body, true);
    }
    fn visit_expr_while(&mut self, f: &'ast ExprWhile) {
        self.loop_common(f.span(), &f.body);
        self.visit_expr(&f.cond);
        self.block_(&f.body, true);
    }
    fn visit_expr_loop(&mut self, f: &'ast ExprLoop) {
        self.loop_common(f.span(), &f.body);
        self.block_(&f.body, true);
    }
    fn visit_expr_closure(&mut self, c: &'ast ExprClosure) {
        let (key, n) = match self.fnkey.last_mut() {
            Some(x) => {
                let n = x.closures;
                x.closures += 1;
                (x.key.clone(), n)
            }
            None => return visit::visit_expr_closure(self, c),
        };
        let spec = self.m.fns.get(&key).and_then(|s| s.closures.get(&n)).cloned();
        if spec.is_none() {
            self.fnkey.last_mut().unwrap().open_closures += 1;
        }
        let mut lets = String::new();
        let params: Vec<(String, Option<String>)> = vec![];
        let _ = params;
        let (o1, o2) = (self.l.lo(c.or1_token.span()), self.l.hi(c.or2_token.span()));
        // Names: keep identifiers, replace patterns by fresh identifiers
        let mut names = vec![];
        for p in &c.inputs {
            let (pat, ty) = match p {
                Pat::Type(t) => (&*t.pat, Some(&*t.ty)),
                p => (p, None),
            };
            let n = match pat {
                Pat::Ident(i) if i.by_ref.is_none() && i.mutability.is_some() => {
                    let n = self.fresh("c");
                    lets.push_str(&format!(" let mut {} = {};", i.ident, n));
                    self.count("closure `mut` parameter -> let mut");
                    n
                }
                Pat::Ident(i) if i.by_ref.is_none() => i.ident.to_string(),
                Pat::Wild(_) => self.fresh("w"),
                pat => {
                    let n = self.fresh("c");
                    lets.push_str(&self.pat_lets(pat, &n));
                    self.count("closure pattern parameter -> let");
                    n
                }
            };
            names.push((n, ty.map(|t| self.src(t.span()))));
        }
        let has_body_block = matches!(&*c.body, Expr::Block(b) if b.label.is_none());
        let (blo, bhi) = (self.l.lo(c.body.span()), self.l.hi(c.body.span()));
        // A contract for a closure of another arity is for another closure.
        let fits = spec.as_ref().map_or(true, |(head, _)| {
            let h = head.trim();
            let bar = h[1..].find('|').map(|x| x + 1).unwrap_or(0);
            split_top(&h[1..bar]).len() == names.len()
        });
        if !fits {
            self.lost.push(format!("{}: closure {} takes {} parameters", key, n, names.len()));
        }
        match spec.as_ref().filter(|_| fits) {
            Some((head, clauses)) => {
                // head: `|T1, T2| -> (r: R)`; $0, $1 in the clauses are the parameter names.
                let h = head.trim();
                let hi_bar = h[1..].find('|').map(|x| x + 1).unwrap_or(0);
                let tys = split_top(&h[1..hi_bar]);
                let ret = h[hi_bar + 1..].trim().trim_start_matches("->").trim().to_string();
                let ps: Vec<String> = names.iter().zip(tys.iter()).map(|((n, _), t)| if t.trim() == "_" { n.clone() } else { format!("{}: {}", n, t.trim()) }).collect();
                let mut cl = clauses.clone();
                for (i, (n, _)) in names.iter().enumerate() {
                    cl = cl.replace(&format!("${}", i), n.trim_start_matches("mut "));
                }
                self.rep(o1, o2, format!("|{}|{} {} ", ps.join(", "), if ret.is_empty() { String::new() } else { format!(" -> {}", ret) }, cl.trim_end()));
                if let ReturnType::Type(_, t) = &c.output {
                    let (lo, hi) = (o2, self.l.hi(t.span()));
                    self.rep(lo, hi, "");
                }
                if has_body_block {
                    if !lets.is_empty() {
                        self.insp(blo + 1, 2, lets);
                    }
                } else {
                    self.insp(blo, -20, format!("{{{} ", lets));
                    self.insp(bhi, 20, " }");
                }
                self.count("closure contract inserted");
            }
            None => {
                if !lets.is_empty() {
                    let ps: Vec<String> = names.iter().map(|(n, t)| match t { Some(t) => format!("{}: {}", n, t), None => n.clone() }).collect();
                    self.rep(o1, o2, format!("|{}|", ps.join(", ")));
                    if has_body_block {
                        self.insp(blo + 1, 2, lets);
                    } else {
                        self.insp(blo, -20, format!("{{{} ", lets));
                        self.insp(bhi, 20, " }");
                    }
                }
            }
        }
        // statements inside closures are anchored in the closure body
        self.visit_expr(&c.body);
    }
    fn visit_expr_method_call(&mut self, m: &'ast ExprMethodCall) {
        let name = m.method.to_string();
        if name == "for_each" {
            if let Some(Expr::Closure(c)) = m.args.first() {
                if !has_return(&c.body) {
                    return self.for_each(m, c);
                }
            }
        }
        if name == "map" {
            if let Some(Expr::Closure(c)) = m.args.first() {
                let x = self.fnkey.last().map(|x| (x.key.clone(), x.closures));
                if let Some((key, n)) = x {
                    if let Some((k, args, head)) = self.m.fns.get(&key).and_then(|s| s.step.clone()) {
                        if k == n && matches!(&*c.body, Expr::Block(_)) {
                            return self.step(m, c, &key, &args, &head);
                        }
                    }
                    if self.m.fns.get(&key).map_or(false, |s| s.inlined.contains(&n)) && c.inputs.len() == 1 && !has_return(&c.body) {
                        return self.inline_map(m, c, n);
                    }
                }
            }
        }
        self.visit_expr(&m.receiver);
        let (lo, hi) = (self.l.lo(m.method.span()), self.l.hi(m.method.span()));
        let close = self.l.lo(m.paren_token.span.close());
        self.call_anchor(&name, Some(close), if m.args.trailing_punct() { 0 } else { m.args.len() });
        if name == "into_iter" {
            self.rep(lo, hi, "vp_it");
            self.count(".into_iter() -> .vp_it()");
        } else if (ADAPT.contains(&name.as_str()) && !(name == "take" && m.args.is_empty())) || (name == "find" && matches!(m.args.first(), Some(Expr::Closure(_)))) {
            self.insp(lo, 0, "vp_it().");
            self.count("iterator adaptor -> contract-carrying adaptor");
        } else if self.rename.contains(&name) {
            self.insp(lo, 0, "vp_");
            self.count("std method -> contract-carrying wrapper");
        }
        // constructors passed as functions
        for a in &m.args {
            if let Expr::Path(q) = a {
                let f = q.path.get_ident().map(|i| i.to_string());
                if let Some(w) = f.as_deref().and_then(|f| match f { "Some" => Some("crate::vp::vp_some"), "Ok" => Some("crate::vp::vp_ok_of"), _ => None }) {
                    let (a, b) = (self.l.lo(q.span()), self.l.hi(q.span()));
                    self.rep(a, b, w);
                    self.count("constructor as a function -> function that constructs");
                }
            }
        }
        // X.entry(K).or_insert_with(F)  ->  X.vp_entry_or_insert_with(K, F)
        if name == "or_insert_with" || name == "or_insert" || name == "or_default" {
            if let Expr::MethodCall(e) = &*m.receiver {
                if e.method == "entry" {
                    let (elo, ehi) = (self.l.lo(e.method.span()), self.l.hi(e.method.span()));
                    self.edits.retain(|x| !(x.lo >= elo && x.hi <= ehi && x.text == "vp_"));
                    self.edits.retain(|x| !(x.lo == lo && x.text == "vp_"));
                    self.rep(elo, ehi, format!("vp_entry_{}", name));
                    let eclose = self.l.lo(e.paren_token.span.close());
                    let open = self.l.lo(m.paren_token.span.open()) + 1;
                    self.rep(eclose, open, if m.args.is_empty() { "" } else { ", " });
                    self.count("entry().or_insert*() fused");
                }
            }
        }
        if name == "get" && m.args.len() == 1 {
            if let Expr::Range(r) = &m.args[0] {
                if let (Some(a), Some(b), RangeLimits::HalfOpen(_)) = (&r.start, &r.end, &r.limits) {
                    self.rep(lo, hi, "vp_get_range");
                    let (x, y) = (self.l.hi(a.span()), self.l.lo(b.span()));
                    self.rep(x, y, ", ");
                    self.visit_expr(a);
                    self.visit_expr(b);
                    self.count("x.get(a..b) -> contract-carrying slice method");
                    return;
                }
            }
        }
        if let Some(t) = &m.turbofish {
            self.visit_angle_bracketed_generic_arguments(t);
        }
        for a in &m.args {
            self.visit_expr(a);
        }
    }
    fn visit_expr_call(&mut self, c: &'ast ExprCall) {
        if let Expr::Path(p) = &*c.func {
            let name = p.path.segments.last().unwrap().ident.to_string();
            let close = self.l.lo(c.paren_token.span.close());
            self.call_anchor(&name, Some(close), if c.args.trailing_punct() { 0 } else { c.args.len() });
            let s = norm(&tokens(&p.path));
            if s == "Box::new" && c.args.len() == 1 && self.fnkey.last().map_or(false, |x| x.boxed) {
                let (lo, hi) = (self.l.lo(c.func.span()), self.l.hi(c.func.span()));
                self.rep(lo, hi, "crate::vp::vp_boxed");
                self.count("Box::new(iterator) -> the iterator");
                self.visit_expr(&c.args[0]);
                return;
            }
            if s == "cmp::max" || s == "cmp::min" || s == "std::cmp::max" || s == "std::cmp::min" {
                let (lo, hi) = (self.l.lo(c.func.span()), self.l.hi(c.func.span()));
                self.rep(lo, hi, format!("crate::vp::vp_{}", name));
                self.count("cmp::max/min -> contract-carrying function");
                for a in &c.args {
                    self.visit_expr(a);
                }
                return;
            }
        }
        visit::visit_expr_call(self, c);
        // arguments for `impl Iterator` parameters
        if let Expr::Path(p) = &*c.func {
            if let Some(ix) = p.path.get_ident().and_then(|i| self.iterfns.get(&i.to_string())).cloned() {
                for (i, a) in c.args.iter().enumerate() {
                    let adapted = matches!(a, Expr::MethodCall(m) if ADAPT.contains(&m.method.to_string().as_str()));
                    if ix.contains(&i) && !adapted {
                        let (lo, hi) = (self.l.lo(a.span()), self.l.hi(a.span()));
                        self.insp(lo, -6, "(");
                        self.insp(hi, 6, ").vp_it()");
                        self.count("argument for `impl Iterator` -> .vp_it()");
                    }
                }
            }
        }
    }
    fn visit_expr_index(&mut self, x: &'ast ExprIndex) {
        self.visit_expr(&x.expr);
        let (lo, ehi, hi) = (self.l.lo(x.span()), self.l.hi(x.expr.span()), self.l.hi(x.span()));
        match &*x.index {
            Expr::Range(r) if matches!(r.limits, RangeLimits::HalfOpen(_)) => {
                let name = match (&r.start, &r.end) {
                    (Some(_), Some(_)) => "vp_slice",
                    (Some(_), None) => "vp_slice_from",
                    (None, Some(_)) => "vp_slice_to",
                    (None, None) => "vp_slice_all",
                };
                self.insp(lo, -15, "(*(");
                let args: Vec<&Expr> = r.start.iter().chain(r.end.iter()).map(|b| &**b).collect();
                if args.is_empty() {
                    self.rep(ehi, hi, format!(").{}())", name));
                } else {
                    let (a0, a1) = (self.l.lo(args[0].span()), self.l.hi(args[args.len() - 1].span()));
                    self.rep(ehi, a0, format!(").{}(", name));
                    if args.len() == 2 {
                        let (m0, m1) = (self.l.hi(args[0].span()), self.l.lo(args[1].span()));
                        self.rep(m0, m1, ", ");
                    }
                    for a in &args {
                        self.visit_expr(a);
                    }
                    self.rep(a1, hi, "))");
                }
                self.count("x[a..b] -> contract-carrying slice method");
            }
            Expr::Reference(_) => {
                self.insp(lo, -15, "(*(");
                let (a0, a1) = (self.l.lo(x.index.span()), self.l.hi(x.index.span()));
                self.rep(ehi, a0, ").vp_at(");
                self.visit_expr(&x.index);
                self.rep(a1, hi, "))");
                self.count("map[&k] -> contract-carrying lookup");
            }
            i => self.visit_expr(i),
        }
    }
    fn visit_expr_binary(&mut self, b: &'ast ExprBinary) {
        fn opt_get(e: &Expr) -> bool {
            matches!(e, Expr::MethodCall(m) if m.method == "get" && matches!(m.args.first(), Some(Expr::Range(_))))
        }
        if matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) && (opt_get(&b.left) || opt_get(&b.right)) {
            let (lo, hi) = (self.l.lo(b.span()), self.l.hi(b.span()));
            self.insp(lo, -16, if matches!(b.op, BinOp::Ne(_)) { "!crate::vp::vp_bytes_eq(" } else { "crate::vp::vp_bytes_eq(" });
            let (x, y) = (self.l.hi(b.left.span()), self.l.lo(b.right.span()));
            self.rep(x, y, ", ");
            self.insp(hi, 16, ")");
            self.count("== on optional slices -> contract-carrying comparison");
        }
        // x[a..b] == Y
        fn slice(e: &Expr) -> bool {
            match e {
                Expr::Index(x) => matches!(&*x.index, Expr::Range(r) if matches!(r.limits, RangeLimits::HalfOpen(_))),
                Expr::Reference(r) => slice(&r.expr),
                Expr::Paren(p) => slice(&p.expr),
                _ => false,
            }
        }
        if matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) && (slice(&b.left) || slice(&b.right)) {
            let (lo, hi) = (self.l.lo(b.span()), self.l.hi(b.span()));
            self.insp(lo, -16, if matches!(b.op, BinOp::Ne(_)) { "!crate::vp::vp_seq_eq(&(" } else { "crate::vp::vp_seq_eq(&(" });
            let (x, y) = (self.l.hi(b.left.span()), self.l.lo(b.right.span()));
            self.rep(x, y, "), &(");
            self.insp(hi, 16, "))");
            self.count("== on slices -> contract-carrying comparison");
        }
        visit::visit_expr_binary(self, b);
    }
    fn visit_expr_cast(&mut self, c: &'ast ExprCast) {
        let t = norm(&tokens(&*c.ty));
        if t == "f64" {
            self.insp(self.l.lo(c.span()), -15, "crate::vp_text::vp_as_f64(");
            self.rep(self.l.hi(c.expr.span()), self.l.hi(c.ty.span()), ")");
            self.count("`x as f64` -> contract-carrying conversion");
            self.visit_expr(&c.expr);
            return;
        }
        if t == "Id" || t.ends_with("::Id") {
            // `as` to a structure is only allowed from that structure: the identity
            self.rep(self.l.hi(c.expr.span()), self.l.hi(c.ty.span()), "");
            self.count("`x as ir::Id` (an identity) -> `x`");
            self.visit_expr(&c.expr);
            return;
        }
        if t.starts_with("Box<") {
            let (lo, hi) = (self.l.hi(c.expr.span()), self.l.hi(c.ty.span()));
            let ty = if t == "Box<_>" {
                self.m.opts.iter().find_map(|o| o.strip_prefix("box=").map(|x| x.replace('~', " "))).unwrap_or("crate::twiggy_traits::Emit".into())
            } else {
                String::new()
            };
            if ty.is_empty() {
                self.rep(lo, hi, "; vp_b }");
                let tt = self.src(c.ty.span());
                self.insp(self.l.lo(c.span()), -15, format!("{{ let vp_b: {} = ", tt));
                self.visit_type(&c.ty);
            } else {
                self.rep(lo, hi, "; vp_b }");
                self.insp(self.l.lo(c.span()), -15, format!("{{ let vp_b: Box<dyn {}> = ", ty));
            }
            self.count("`x as Box<dyn T>` -> coercion in a let");
            self.visit_expr(&c.expr);
            return;
        }
        visit::visit_expr_cast(self, c);
    }
}

fn split_top(s: &str) -> Vec<String> {
    let mut out = vec![];
    let mut d = 0;
    let mut cur = String::new();
    for c in s.chars() {
        match c {
            '<' | '(' | '[' => d += 1,
            '>' | ')' | ']' => d -= 1,
            _ => {}
        }
        if c == ',' && d == 0 {
            out.push(std::mem::take(&mut cur));
        } else {
            cur.push(c);
        }
    }
    if !cur.trim().is_empty() {
        out.push(cur);
    }
    out
}

// Free functions with `impl Iterator` parameters, and which ones.
fn iter_fns(f: &File) -> BTreeMap<String, BTreeSet<usize>> {
    struct V(BTreeMap<String, BTreeSet<usize>>);
    impl<'a> Visit<'a> for V {
        fn visit_item_fn(&mut self, f: &'a ItemFn) {
            for (i, a) in f.sig.inputs.iter().enumerate() {
                if let FnArg::Typed(t) = a {
                    if let Type::ImplTrait(x) = &*t.ty {
                        if iter_item(x.bounds.iter()).is_some() {
                            self.0.entry(f.sig.ident.to_string()).or_default().insert(i);
                        }
                    }
                }
            }
            visit::visit_item_fn(self, f);
        }
    }
    let mut v = V(BTreeMap::new());
    v.visit_file(f);
    v.0
}
// `Box<dyn Iterator<Item = T> + ..>`
fn boxed_iter(t: &Type) -> Option<&Type> {
    if let Type::Path(p) = t {
        let last = p.path.segments.last().unwrap();
        if last.ident == "Box" {
            if let PathArguments::AngleBracketed(a) = &last.arguments {
                if let Some(GenericArgument::Type(Type::TraitObject(o))) = a.args.first() {
                    return iter_item(o.bounds.iter());
                }
            }
        }
    }
    None
}
fn iter_item<'b>(bounds: impl Iterator<Item = &'b TypeParamBound>) -> Option<&'b Type> {
    for b in bounds {
        if let TypeParamBound::Trait(t) = b {
            let l = t.path.segments.last().unwrap();
            if l.ident == "Iterator" {
                if let PathArguments::AngleBracketed(a) = &l.arguments {
                    for g in &a.args {
                        if let GenericArgument::AssocType(x) = g {
                            return Some(&x.ty);
                        }
                    }
                }
            }
        }
    }
    None
}

fn apply(text: &str, mut edits: Vec<Edit>) -> std::result::Result<String, String> {
    // Edits inside a larger replaced range are discarded.
    let reps: Vec<(usize, usize)> = edits.iter().filter(|e| e.hi > e.lo).map(|e| (e.lo, e.hi)).collect();
    edits.retain(|e| !reps.iter().any(|&(lo, hi)| (lo, hi) != (e.lo, e.hi) && (lo < e.lo && e.hi < hi || lo < e.lo && e.hi == hi && e.hi > e.lo || lo == e.lo && e.hi < hi && e.hi > e.lo)));
    edits.sort_by(|a, b| (a.lo, a.hi > a.lo, a.pri).cmp(&(b.lo, b.hi > b.lo, b.pri)));
    let mut out = String::new();
    let mut pos = 0;
    for e in &edits {
        if e.lo < pos {
            return Err(format!("overlapping edits at {}: {:?}", &text[e.lo..(e.lo + 40).min(text.len())], e));
        }
        out.push_str(&text[pos..e.lo]);
        out.push_str(&e.text);
        pos = e.hi;
    }
    out.push_str(&text[pos..]);
    Ok(out)
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut unit = Unit::default();
    let mut defs = BTreeSet::new();
    parse_spec(&a[1], &mut unit, &mut defs);
    let repo = &a[2];
    let probe = a.iter().any(|x| x == "--probe");
    let force_external: BTreeSet<String> = a.windows(2).filter(|w| w[0] == "--external").map(|w| w[1].clone()).collect();
    let mut out = String::from("#![allow(unused, non_snake_case, non_camel_case_types)]\n#![verifier::allow(autoderive_clone_without_spec)]\nuse vstd::prelude::*;\n");
    for inc in &unit.includes {
        out.push_str(&std::fs::read_to_string(inc).unwrap_or_else(|e| panic!("{}: {}", inc, e)));
        out.push('\n');
    }
    let mut fns = vec![];
    let mut lost = vec![];
    let mut rewrites: BTreeMap<String, usize> = BTreeMap::new();
    let mut files = vec![];
    let mut ok = true;
    let rename: BTreeSet<String> = RENAME.iter().map(|s| s.to_string()).collect();
    // modules with nested paths are nested textually
    let mut bodies: Vec<(String, String)> = vec![];
    for m in &unit.mods {
        let path = format!("{}/{}", repo, m.file);
        files.push(m.file.clone());
        let text = match std::fs::read_to_string(&path) {
            Ok(t) => t,
            Err(_) => {
                lost.push(format!("file {}", m.file));
                ok = false;
                continue;
            }
        };
        let file = match syn::parse_file(&text) {
            Ok(f) => f,
            Err(e) => {
                lost.push(format!("file {} does not parse: {}", m.file, e));
                ok = false;
                continue;
            }
        };
        let lines = Lines::new(&text);
        let mut rn = rename.clone();
        for o in &m.opts {
            if let Some(n) = o.strip_prefix("norename=") {
                rn.remove(n);
            }
        }
        let mut w = Weave { l: &lines, m, edits: vec![], path: vec![], fnkey: vec![], lost: vec![], used: BTreeSet::new(), infos: vec![], rewrites: BTreeMap::new(), rename: rn, tmp: 0, autoclone: vec![], extra: String::new(), mut_self: false, conts: Default::default(), gone: Default::default(), derived: BTreeSet::new(), iterfns: iter_fns(&file), probe, force_external: force_external.clone() };
        for at in &file.attrs {
            let (lo, hi) = (lines.lo(at.span()), lines.hi(at.span()));
            w.rep(lo, hi, "");
        }
        for i in &file.items {
            w.item(i, false);
        }
        if !m.assumed {
            w.lost_fn();
        }
        let autoclone = std::mem::take(&mut w.autoclone);
        let extra0 = std::mem::take(&mut w.extra);
        for (k, v) in &w.rewrites {
            *rewrites.entry(k.clone()).or_insert(0) += v;
        }
        for l in &w.lost {
            lost.push(format!("{}: {}", m.path, l));
        }
        for i in &w.infos {
            fns.push(json!({"module": m.path, "key": i.key, "file": m.file, "line": i.line, "contract": i.contract, "external": i.external, "assumed": m.assumed,
                "loops": i.loops, "closures": i.closures, "open_loops": i.open_loops, "open_closures": i.open_closures}));
        }
        let edits = w.edits;
        match apply(&text, edits) {
            Ok(mut body) => {
                for (x, y) in &m.subst {
                    if !body.contains(x.as_str()) {
                        lost.push(format!("{}: substitution `{}`", m.path, x));
                    }
                    body = body.replace(x.as_str(), y);
                    *rewrites.entry(format!("textual substitution {} => {}", x, y)).or_insert(0) += 1;
                }
                let mut extra = extra0;
                for c in autoclone {
                    if m.opts.contains(&format!("noclone={}", c)) {
                        continue;
                    }
                    extra.push_str(&format!("impl Clone for {0} {{ #[verifier::external_body] fn clone(&self) -> (r: {0}) ensures r == *self {{ unimplemented!() }} }}\n", c));
                    *rewrites.entry("derived Clone -> contract `result == *self`".into()).or_insert(0) += 1;
                }
                bodies.push((m.path.clone(), format!("verus! {{\n/*@M {}*/\n{}\n{}\n{}\n{}\n}}\n", m.path, m.pre, body, extra, m.post)));
            }
            Err(e) => {
                lost.push(format!("{}: {}", m.path, e));
                ok = false;
            }
        }
    }
    // nest
    #[derive(Default)]
    struct Node {
        body: String,
        kids: BTreeMap<String, Node>,
    }
    let mut root = Node::default();
    for (p, b) in bodies {
        let mut n = &mut root;
        for s in p.split("::") {
            n = n.kids.entry(s.to_string()).or_default();
        }
        n.body.push_str(&b);
    }
    fn emit(n: &Node, out: &mut String) {
        out.push_str(&n.body);
        for (k, c) in &n.kids {
            out.push_str(&format!("pub mod {} {{\n#[allow(unused_imports)] use vstd::prelude::*;\n", k));
            emit(c, out);
            out.push_str("}\n");
        }
    }
    emit(&root, &mut out);
    out.push_str("fn main() {}\n");
    std::fs::write(&a[3], &out).unwrap();
    let rep = json!({"ok": ok, "functions": fns, "lost": lost, "rewrites": rewrites, "files": files});
    std::fs::write(&a[4], serde_json::to_string_pretty(&rep).unwrap()).unwrap();
}
