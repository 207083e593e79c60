//! C23: the item set answers exactly what was put into its builder.
use crate::ctx::Ctx;
use crate::graphgen::{self, GCfg};
use crate::rng::Rng;
use crate::sut::*;
use crate::wasmgen;
use crate::Prop;
use std::collections::{BTreeMap, BTreeSet};
use twiggy_ir as ir;

pub const C23: Prop = Prop {
    id: "C23",
    rule: "Random graphs given to the builder in random orders (items, roots and references interleaved, references repeated), and item sets read from random modules; evaluation = every accessor of one item set compared with what was put in and with the other accessors, the computed tables in a random order and repeatedly. Non-trivial: at least one reference; distinct by graph and order.",
    quick: 300_000,
    thorough: 4_000_000,
    run: c23,
    level: "exploration",
    cpu: 60,
    must: &["built", "read from modules", "repeated references", "names that repeat", "computed again", "items without references", "references between built items", "more than 100 items"],
    mem: 6,
};

fn kind(g: &Graph, i: usize) -> ir::ItemKind {
    if g.code[i] {
        ir::Code::new(&g.name[i]).into()
    } else if g.data[i] {
        ir::Data::new(if i % 3 == 0 { Some(g.name[i].clone()) } else { None }).into()
    } else if i % 2 == 0 {
        ir::DebugInfo::new().into()
    } else {
        ir::Misc::new().into()
    }
}

/// Puts the graph into a builder, in any order that is allowed: an item before
/// the references from and to it.
fn build(c: &mut Ctx, r: &mut Rng, g: &Graph) -> Result<Items, String> {
    let n = g.n();
    let mut b = ItemsBuilder::new(g.total);
    let roots: BTreeSet<usize> = g.roots.iter().copied().collect();
    let mut order: Vec<usize> = (0..n).collect();
    if r.chance(3, 4) {
        r.shuffle(&mut order);
    }
    let late = r.bool();
    let mut pending: Vec<(usize, usize)> = (0..n).flat_map(|a| g.succ[a].iter().map(move |&b| (a, b))).collect();
    r.shuffle(&mut pending);
    let mut there = vec![false; n];
    let mut sum = 0u64;
    for i in order {
        let it = Item::new(g.ids[i], g.name[i].clone(), g.size[i], kind(g, i));
        let got = if roots.contains(&i) { b.add_root(it) } else { b.add_item(it) };
        if got != g.ids[i] {
            return Err(format!("the builder returns {:?} for item {:?}", got, g.ids[i]));
        }
        sum += u64::from(g.size[i]);
        if u64::from(b.size_added()) != sum {
            return Err(format!("{} bytes added so far, the builder says {}", sum, b.size_added()));
        }
        there[i] = true;
        if !late {
            let mut k = 0;
            while k < pending.len() {
                let (x, y) = pending[k];
                if there[x] && there[y] && r.chance(3, 4) {
                    b.add_edge(g.ids[x], g.ids[y]);
                    c.count("references between built items");
                    if r.chance(1, 8) {
                        b.add_edge(g.ids[x], g.ids[y]);
                        c.count("repeated references");
                    }
                    pending.swap_remove(k);
                } else {
                    k += 1;
                }
            }
        }
    }
    for (x, y) in pending {
        b.add_edge(g.ids[x], g.ids[y]);
    }
    Ok(b.finish())
}

fn once<T: Ord + Copy + std::fmt::Debug>(v: &[T], what: &str) -> Result<BTreeSet<T>, String> {
    let s: BTreeSet<T> = v.iter().copied().collect();
    if s.len() != v.len() {
        return Err(format!("{} lists one twice: {:?}", what, v));
    }
    Ok(s)
}

/// What the item set holds, against the graph.
fn holds(g: &Graph, items: &Items, built: bool) -> Result<(), String> {
    let root = items.meta_root();
    if root != ir::Id::root() {
        return Err(format!("the meta root is {:?}", root));
    }
    if items.size() != g.total {
        return Err(format!("size {} became {}", g.total, items.size()));
    }
    let all: Vec<ir::Id> = items.iter().map(|i| i.id()).collect();
    if all.windows(2).any(|w| w[0] >= w[1]) {
        return Err("items do not come in the order of their identifiers".into());
    }
    // items are ordered as their identifiers are
    let its: Vec<&ir::Item> = items.iter().collect();
    for (k, &a) in its.iter().enumerate() {
        for &b in &[its[k], its[(k + 1) % its.len()], its[its.len() - 1 - k]] {
            let o = a.id().cmp(&b.id());
            if a.cmp(b) != o || a.partial_cmp(b) != Some(o) || (a == b) != (o == std::cmp::Ordering::Equal) {
                return Err(format!("items {:?} and {:?} compare as {:?}, {:?}, equal: {}", a, b, a.cmp(b), a.partial_cmp(b), a == b));
            }
        }
    }
    let want: BTreeSet<ir::Id> = g.ids.iter().copied().chain(Some(root)).collect();
    if all.iter().copied().collect::<BTreeSet<_>>() != want {
        return Err(format!("items {:?}, expected {:?}", all, want));
    }
    let mut ser = BTreeSet::new();
    for i in items.iter() {
        if !ser.insert(i.id().serializable()) {
            return Err(format!("identifier {} occurs twice", i.id().serializable()));
        }
        if items[i.id()] != *i {
            return Err(format!("looking up {:?} gives another item", i.id()));
        }
    }
    let m = &items[root];
    if m.name() != "<meta root>" || m.size() != 0 || !matches!(m.kind(), ir::ItemKind::Misc(_)) {
        return Err(format!("the meta root is {:?}", m));
    }
    let roots: Vec<ir::Id> = items.neighbors(root).collect();
    if once(&roots, "the meta root")? != g.roots.iter().map(|&i| g.ids[i]).collect() {
        return Err(format!("roots {:?}, expected {:?}", roots, g.roots));
    }
    for i in 0..g.n() {
        let it = &items[g.ids[i]];
        if it.id() != g.ids[i] || it.size() != g.size[i] || it.name() != g.name[i] {
            return Err(format!("item {} ({:?}, {} bytes) became {:?}", i, g.name[i], g.size[i], it));
        }
        if built && *it.kind() != kind(g, i) {
            return Err(format!("item {} has kind {:?}", i, it.kind()));
        }
        if it.kind().is_data() != g.data[i] {
            return Err(format!("item {} is data: {}", i, it.kind().is_data()));
        }
        let to: Vec<ir::Id> = items.neighbors(g.ids[i]).collect();
        if once(&to, "an item")? != g.succ[i].iter().map(|&x| g.ids[x]).collect() {
            return Err(format!("item {} refers to {:?}, expected {:?}", i, to, g.succ[i]));
        }
        match items.get_item_by_name(&g.name[i]) {
            Some(x) if x.name() == g.name[i] => {}
            x => return Err(format!("asked for an item named {:?}, got {:?}", g.name[i], x)),
        }
    }
    for n in ["no such item", "\u{0}"] {
        if !g.name.iter().any(|x| x == n) {
            if let Some(x) = items.get_item_by_name(n) {
                return Err(format!("asked for an item named {:?}, got {:?}", n, x));
            }
        }
    }
    Ok(())
}

/// The computed tables against one another.
fn tables(g: &Graph, items: &Items) -> Result<(), String> {
    let root = items.meta_root();
    let mut back: BTreeMap<ir::Id, BTreeSet<ir::Id>> = BTreeMap::new();
    for i in items.iter() {
        for t in items.neighbors(i.id()) {
            back.entry(t).or_default().insert(i.id());
        }
    }
    for i in items.iter() {
        let p: Vec<ir::Id> = items.predecessors(i.id()).collect();
        let want = back.get(&i.id()).cloned().unwrap_or_default();
        if once(&p, "predecessors")? != want {
            return Err(format!("predecessors of {:?} are {:?}, expected {:?}", i.id(), p, want));
        }
    }
    let reach = g.reach(None);
    let idom = items.immediate_dominators();
    let want: BTreeSet<ir::Id> = (0..g.n()).filter(|&v| reach[v]).map(|v| g.ids[v]).collect();
    if idom.keys().copied().collect::<BTreeSet<_>>() != want {
        return Err(format!("immediate dominators are given for {:?}, reachable are {:?}", idom.keys(), want));
    }
    let mut kids: BTreeMap<ir::Id, BTreeSet<ir::Id>> = BTreeMap::new();
    for (v, d) in idom {
        kids.entry(*d).or_default().insert(*v);
    }
    let mut tree: BTreeMap<ir::Id, BTreeSet<ir::Id>> = BTreeMap::new();
    for (d, v) in items.dominator_tree() {
        let v = once(v, "the dominator tree")?;
        if !v.is_empty() {
            tree.insert(*d, v);
        }
    }
    if tree != kids {
        return Err(format!("the dominator tree is {:?}, the immediate dominators {:?}", tree, idom));
    }
    for i in items.iter() {
        let below: u64 = kids.get(&i.id()).into_iter().flatten().map(|k| u64::from(items.retained_size(*k))).sum();
        if u64::from(items.retained_size(i.id())) != u64::from(i.size()) + below {
            return Err(format!("{:?} of {} bytes retains {}, those beneath it {}", i.id(), i.size(), items.retained_size(i.id()), below));
        }
    }
    let whole: u64 = (0..g.n()).filter(|&v| reach[v]).map(|v| u64::from(g.size[v])).sum();
    if u64::from(items.retained_size(root)) != whole {
        return Err(format!("the meta root retains {}, reachable are {}", items.retained_size(root), whole));
    }
    Ok(())
}

fn c23(c: &mut Ctx) {
    let mut r = c.rng(23);
    let r = &mut r;
    let (g, mut items, built) = if r.chance(1, 8) {
        let m = wasmgen::gen(r, &wasmgen::Cfg { max_funcs: 12, max_other: 4, stmts: 5, ..Default::default() });
        c.count("read from modules");
        let it = match twiggy_parser::parse(&m.bytes) {
            Ok(i) => i,
            Err(e) => return c.fail(format!("valid module refused: {}", e)),
        };
        match Graph::of(&it) {
            Ok(g) => (g, it, false),
            Err(e) => return c.fail(e),
        }
    } else {
        let cfg = GCfg { max_n: 20, odd: true, huge: true, dup: if r.chance(1, 4) { 25 } else { 0 }, hostile: r.chance(1, 4), generics: r.chance(1, 4), ..Default::default() };
        let g = graphgen::gen(r, &cfg);
        c.count("built");
        match build(c, r, &g) {
            Ok(it) => (g, it, true),
            Err(e) => return c.fail(format!("{} on {}", e, graphgen::describe(&g))),
        }
    };
    let ctx = |m: String| format!("{} on {} named {:?}", m, graphgen::describe(&g), g.name);
    if g.succ.iter().all(|s| s.is_empty()) {
        c.eval_trivial();
    } else {
        c.eval(format!("{}{:?}", graphgen::describe(&g), g.name).as_bytes());
    }
    if g.succ.iter().any(|s| s.is_empty()) {
        c.count("items without references");
    }
    if g.name.iter().collect::<BTreeSet<_>>().len() < g.n() {
        c.count("names that repeat");
    }
    if g.n() > 100 {
        c.count("more than 100 items");
    }
    c.max("items", g.n() as u64);
    c.sample(|| graphgen::describe(&g));
    if let Err(e) = holds(&g, &items, built) {
        return c.fail(ctx(e));
    }
    let mut calls = vec![0, 1, 2, 3];
    r.shuffle(&mut calls);
    if r.bool() {
        let k = r.below(4);
        calls.insert(r.below(4), k);
        calls.extend([r.below(4), r.below(4)]);
        c.count("computed again");
    }
    for k in &calls {
        match k {
            0 => items.compute_predecessors(),
            1 => items.compute_dominators(),
            2 => items.compute_dominator_tree(),
            _ => items.compute_retained_sizes(),
        }
    }
    if let Err(e) = tables(&g, &items) {
        return c.fail(ctx(format!("{} (computed in the order {:?})", e, calls)));
    }
    if let Err(e) = holds(&g, &items, built) {
        c.fail(ctx(format!("{} after computing {:?}", e, calls)));
    }
}
