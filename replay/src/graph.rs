//! P02, P04, P05, P06, P16: the item graph and what is derived from it.
use crate::model::*;
use crate::rng::Rng;
use crate::text::R;
use twiggy_ir as ir;

macro_rules! ck {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}

pub fn p02(c: &Case) -> R<()> {
    let o = Oracle::new(c);
    let items = c.build();
    ck!(items.size() == c.total, "Items::size {} != {}", items.size(), c.total);
    ck!(items.meta_root() == ir::Id::root(), "meta root id {:?}", items.meta_root());
    let got: Vec<&ir::Item> = items.iter().collect();
    ck!(got.len() == o.n + 1, "{} items instead of {}", got.len(), o.n + 1);
    for i in 0..=o.n {
        ck!(got[i].id() == o.id[i], "item {}: id {:?} instead of {:?}", i, got[i].id(), o.id[i]);
        for it in [got[i], &items[o.id[i]]] {
            ck!(it.id() == o.id[i], "index {:?} gives item {:?}", o.id[i], it.id());
            ck!(it.name() == o.name[i], "item {}: name {:?} instead of {:?}", i, it.name(), o.name[i]);
            ck!(it.size() == o.size[i], "item {}: size {} instead of {}", i, it.size(), o.size[i]);
            let k = if i == o.n { Kind::Misc } else { c.nodes[i].kind };
            let got_k = match it.kind() {
                ir::ItemKind::Code(_) => Kind::Code,
                ir::ItemKind::Data(_) => Kind::Data,
                ir::ItemKind::Debug(_) => Kind::Debug,
                ir::ItemKind::Misc(_) => Kind::Misc,
            };
            ck!(got_k == k, "item {}: kind {:?} instead of {:?}", i, got_k, k);
            ck!(it.kind().is_data() == (k == Kind::Data), "item {}: is_data wrong", i);
        }
        let nb: Vec<ir::Id> = items.neighbors(o.id[i]).collect();
        let want: Vec<ir::Id> = o.succ[i].iter().map(|&j| o.id[j]).collect();
        ck!(nb == want, "item {}: neighbors {:?} instead of {:?}", i, nb, want);
    }
    for i in 0..=o.n {
        let want = (0..=o.n).find(|&j| o.name[j] == o.name[i]).unwrap();
        let got = items.get_item_by_name(&o.name[i]).map(|x| x.id());
        ck!(got == Some(o.id[want]), "get_item_by_name({:?}) = {:?} instead of {:?}", o.name[i], got, o.id[want]);
    }
    ck!(items.get_item_by_name("no such item \u{3}").is_none(), "found an item that does not exist");
    let unused = ir::Id::entry(1 << 24, 5);
    ck!(items.neighbors(unused).next().is_none(), "an unknown id has neighbors");
    Ok(())
}

fn twice(items: &mut ir::Items, f: impl Fn(&mut ir::Items), again: bool) {
    f(items);
    if again {
        f(items);
    }
}

pub fn p04(c: &Case, again: bool) -> R<()> {
    let o = Oracle::new(c);
    let mut items = c.build();
    twice(&mut items, |i| i.compute_predecessors(), again);
    for i in 0..=o.n {
        let got: Vec<ir::Id> = items.predecessors(o.id[i]).collect();
        let want: Vec<ir::Id> = o.pred[i].iter().map(|&j| o.id[j]).collect();
        ck!(got == want, "item {}: predecessors {:?} instead of {:?}", i, got, want);
    }
    ck!(items.predecessors(ir::Id::entry(1 << 24, 5)).next().is_none(), "an unknown id has predecessors");
    Ok(())
}

pub fn p05(c: &Case, again: bool) -> R<()> {
    let o = Oracle::new(c);
    let mut items = c.build();
    twice(&mut items, |i| { i.compute_dominators(); i.compute_dominator_tree() }, again);
    let idoms = items.immediate_dominators();
    for i in 0..=o.n {
        let got = idoms.get(&o.id[i]).cloned();
        let want = o.idom[i].map(|j| o.id[j]);
        ck!(got == want, "item {}: immediate dominator {:?} instead of {:?}", i, got, want);
        let got = items.dominator_tree().get(&o.id[i]).cloned().unwrap_or_default();
        let want: Vec<ir::Id> = o.children[i].iter().map(|&j| o.id[j]).collect();
        ck!(got == want, "item {}: dominator tree children {:?} instead of {:?}", i, got, want);
    }
    let extra = idoms.keys().chain(items.dominator_tree().keys()).find(|k| !o.id.contains(k));
    ck!(extra.is_none(), "unknown key {:?} in the dominator maps", extra);
    Ok(())
}

pub fn p06(c: &Case, again: bool, tree_first: bool) -> R<()> {
    let o = Oracle::new(c);
    let mut items = c.build();
    if tree_first {
        items.compute_dominator_tree();
    }
    twice(&mut items, |i| i.compute_retained_sizes(), again);
    for i in 0..=o.n {
        let got = items.retained_size(o.id[i]);
        ck!(got == o.retained[i], "item {}: retained size {} instead of {}", i, got, o.retained[i]);
    }
    Ok(())
}

pub fn p16(rng: &mut Rng) -> R<()> {
    let m = u32::MAX as usize;
    let num = |rng: &mut Rng| match rng.below(5) {
        0 => rng.below(4),
        1 => m - 1 - rng.below(4),
        2 => 1usize << rng.below(32),
        3 => (1usize << rng.below(32)).wrapping_sub(1),
        _ => rng.below(m),
    };
    #[derive(PartialEq, Eq, PartialOrd, Ord, Clone, Copy, Debug)]
    struct K(u64, u64);
    let mk = |rng: &mut Rng| -> (K, ir::Id) {
        loop {
            let (s, e) = (num(rng), num(rng));
            if s >= m || e >= m {
                continue;
            }
            return match rng.below(8) {
                0 => (K(m as u64, m as u64), ir::Id::root()),
                1 | 2 => (K(s as u64, m as u64), ir::Id::section(s)),
                _ => (K(s as u64, e as u64), ir::Id::entry(s, e)),
            };
        }
    };
    for _ in 0..200 {
        let (ka, a) = mk(rng);
        let (kb, b) = mk(rng);
        ck!(a.serializable() == (ka.0 << 32 | ka.1), "{:?} serializes to {}", ka, a.serializable());
        ck!((a == b) == (ka == kb), "{:?} == {:?} is {}", ka, kb, a == b);
        ck!(a.cmp(&b) == ka.cmp(&kb), "{:?} cmp {:?} is {:?}", ka, kb, a.cmp(&b));
        ck!((a.serializable() == b.serializable()) == (ka == kb), "{:?} and {:?} share the serialized id", ka, kb);
        ck!(a.serializable().cmp(&b.serializable()) == ka.cmp(&kb), "serializing {:?} and {:?} changes their order", ka, kb);
    }
    let bad = m + rng.below(3) * rng.below(1 << 20);
    let ok = rng.below(10);
    for (what, r) in [
        ("section(too large)", std::panic::catch_unwind(|| ir::Id::section(bad))),
        ("entry(too large, _)", std::panic::catch_unwind(|| ir::Id::entry(bad, ok))),
        ("entry(_, too large)", std::panic::catch_unwind(|| ir::Id::entry(ok, bad))),
    ] {
        if let Ok(id) = r {
            return Err(format!("Id::{} with {} accepted as {:?}", what, bad, id));
        }
    }
    Ok(())
}

pub fn p20(rng: &mut Rng) -> R<()> {
    for _ in 0..100 {
        let raw = name(rng);
        let id = ir::Id::entry(0, 0);
        let shown = demangled(&raw);
        let it = ir::Item::new(id, raw.as_str(), 1, ir::Code::new(&raw));
        ck!(it.name() == shown, "code item {:?} is shown as {:?} instead of {:?}", raw, it.name(), shown);
        let want = generic_of(&shown);
        ck!(it.monomorphization_of() == want.as_deref(), "generic of {:?} is {:?} instead of {:?}", shown, it.monomorphization_of(), want);
        for k in [ir::ItemKind::from(ir::Data::new(None)), ir::Misc::new().into(), ir::DebugInfo::new().into()] {
            let it = ir::Item::new(id, raw.as_str(), 1, k);
            ck!(it.name() == raw, "item {:?} is shown as {:?}", raw, it.name());
            ck!(it.monomorphization_of().is_none(), "non-code item {:?} has a generic", raw);
        }
    }
    Ok(())
}
