//! Random item graphs, known by construction, and item sets built from them.
use crate::names;
use crate::rng::Rng;
use crate::sut::*;
use std::collections::{BTreeSet, HashSet};
use twiggy_ir as ir;

#[derive(Clone, Debug)]
pub struct GCfg {
    pub max_n: usize,
    /// Chance in percent that an item takes the name of another.
    pub dup: u32,
    pub hostile: bool,
    /// Function names that are instantiations.
    pub generics: bool,
    /// Sizes that may add up to nearly 4 GiB.
    pub big: bool,
    /// Names that twiggy itself uses, now and then.
    pub odd: bool,
    /// Now and then a graph that is much deeper or wider than `max_n` allows.
    pub large: bool,
    /// Also thousands of items.
    pub huge: bool,
    /// At least so many items, few of them deep.
    pub wide: usize,
}
impl Default for GCfg {
    fn default() -> GCfg {
        GCfg { max_n: 24, dup: 0, hostile: false, generics: false, big: true, odd: false, large: true, huge: false, wide: 0 }
    }
}

fn hash(r: &mut Rng) -> String {
    format!("::h{:016x}", r.u64())
}

/// A name for an item that instantiates (or almost instantiates) a generic.
pub fn generic_name(r: &mut Rng, pool: &[String]) -> (String, Option<String>) {
    let g = r.pick(pool).clone();
    match r.below(8) {
        0..=2 => (format!("{}{}{}", g, hash(r), r.pick(&["", "", "", ".123", ".llvm.77", "."])), Some(g)),
        3 | 4 => {
            // a template: the generic is what stands before the first bracket
            let base = if let Some(k) = g.find('<') { g[..k].to_string() } else { g };
            if base.is_empty() {
                return (format!("<{}>", names::ident(r)), None);
            }
            let t = ["int", "char const*", "std::vector<int>", "a, b", "(lambda)#1"];
            (format!("{}<{}>{}", base, r.pick(&t), r.pick(&["", "(int)", "::run()"])), Some(base))
        }
        5 => (format!("{}::{}", g.replace(['<', '>'], "_"), r.pick(&["handle", "hash", "h", "hxyz", "h12", "h0123456789abcdeg", "h0123456789abcdef0"])), None),
        6 => (g.replace(['<', '>'], "_"), None),
        _ => (format!("{}>{}<", names::ident(r), names::ident(r)), None),
    }
}

pub fn gen(r: &mut Rng, cfg: &GCfg) -> Graph {
    let large = if cfg.wide > 0 { 5 + r.below(2) } else if cfg.large && r.chance(1, 100) { 1 + r.below(6) } else { 0 };
    let n = match r.below(12) {
        _ if cfg.wide > 0 => r.range(cfg.wide, if cfg.wide > 50_000 { cfg.wide + 6_000 } else { cfg.wide * 3 }),
        _ if large > 4 && cfg.huge && r.chance(1, 40) => r.range(4500, 12_000),
        _ if large > 4 && cfg.generics && r.bool() => r.range(400, 2500),
        _ if large > 4 => r.range(60, 700),
        _ if large > 0 => r.range(20, 110),
        0 => 0,
        1 => 1,
        2 => 2,
        3..=6 => r.range(2, 8.min(cfg.max_n)),
        _ => r.range(1, cfg.max_n),
    };
    let mut g = Graph { name: vec![], size: vec![], code: vec![], data: vec![], generic: vec![None; n], succ: vec![vec![]; n], pred: vec![vec![]; n], roots: vec![], ids: vec![], total: 0 };
    // names and kinds
    let mut used: HashSet<String> = HashSet::new();
    let mut twins: Vec<(usize, usize)> = vec![];
    let dup = if cfg.dup > 0 && r.chance(1, 6) { 70 } else { cfg.dup };
    let pool: Vec<String> = (0..r.range(1, 4)).map(|_| if r.chance(1, 6) { format!("<{} as {}>::{}", names::ident(r), names::ident(r), names::ident(r)) } else { names::plain(r) }).collect();
    for i in 0..n {
        let kind = r.below(4);
        g.code.push(kind <= 1);
        g.data.push(kind == 2);
        let mut gen = None;
        let mut nm = if cfg.generics && kind <= 1 && r.chance(4, 5) {
            let (a, b) = generic_name(r, &pool);
            gen = b;
            a
        } else if cfg.hostile && r.chance(2, 3) {
            let mut h = names::hostile(r, 12);
            if r.chance(1, 1500) {
                h = format!("{} long", h).repeat(r.range(200, 9000));
            }
            // nothing that could be taken for a mangled name or an instantiation
            format!("{}{}", r.pick(&["", "\"", "\\", " ", "\n", ",", "é"]), h.replace(['<', '>', '_'], "-").replace("::h", "--h"))
        } else if cfg.odd && r.chance(1, 40) {
            r.pick(&["<meta root>", "meta root", "Σ", "0", ""]).to_string()
        } else {
            names::plain(r).replace("::h", "::k")
        };
        if i > 0 && r.chance(dup, 100) {
            let k = r.below(i);
            nm = g.name[k].clone();
            if r.chance(2, 3) {
                // one that looks exactly alike
                g.code[i] = g.code[k];
                g.data[i] = g.data[k];
                twins.push((i, k));
            }
            gen = if g.code[i] { crate::graphgen::recognise(&nm) } else { None };
        } else {
            let base = nm.clone();
            let mut k = 0;
            while !used.insert(nm.clone()) {
                k += 1;
                nm = if gen.is_some() || cfg.generics { format!("{}{}", k, base) } else { format!("{}.{}", base, k) };
                if g.code[i] {
                    gen = recognise(&nm);
                }
            }
        }
        g.name.push(nm);
        g.generic[i] = gen;
    }
    // sizes
    let mode = r.below(6);
    let mut sum = 0u64;
    for _ in 0..n {
        let s: u32 = match mode {
            0 => r.below(3) as u32,
            1 => 7,
            2 => r.range(1, 100) as u32,
            3 => 1 << r.below(16),
            4 if cfg.big => (u64::from(u32::MAX) / (n as u64 + 1)) as u32 - r.below(2) as u32,
            _ => r.skewed(5000) as u32,
        };
        sum += u64::from(s);
        g.size.push(s);
    }
    for (i, k) in twins {
        sum = sum - u64::from(g.size[i]) + u64::from(g.size[k]);
        if sum <= u64::from(u32::MAX) {
            g.size[i] = g.size[k];
        } else {
            sum = sum + u64::from(g.size[i]) - u64::from(g.size[k]);
        }
    }
    // one that outweighs everything else, up to what 32 bits hold
    if cfg.big && n > 1 && sum < 1 << 30 && r.chance(1, 16) {
        let k = r.below(n);
        let most = u64::from(u32::MAX) - (sum - u64::from(g.size[k]));
        let s = *r.pick(&[1 << 31, (1 << 31) - 1, (1 << 31) + 1, most, most - 1]);
        sum = sum - u64::from(g.size[k]) + s;
        g.size[k] = s as u32;
    }
    let room = u64::from(u32::MAX) - sum;
    let total = match r.below(3) {
        0 => sum + r.below(1000.min(room as usize + 1)) as u64,
        1 if cfg.big => sum + r.u64() % (room + 1),
        _ => sum,
    };
    g.total = total.max(1) as u32;
    // edges
    let mut e: BTreeSet<(usize, usize)> = BTreeSet::new();
    match large {
        0 => {}
        1 | 2 => {
            // long, with a few short cuts
            for i in 1..n {
                e.insert((i - 1, i));
            }
            for _ in 0..r.below(4) {
                let a = r.below(n);
                e.insert((a, (a + r.below(n)).min(n - 1)));
            }
        }
        3 => {
            // long, each with one more
            for i in (2..n).step_by(2) {
                e.extend([(i - 2, i), (i, i - 1)]);
            }
        }
        4 => {
            // one ring
            for i in 0..n {
                e.insert((i, (i + 1) % n));
            }
        }
        5 => {
            for i in 1..n {
                e.insert(if r.bool() { (0, i) } else { (i, 0) });
            }
        }
        _ => {
            for i in 1..n {
                if r.chance(5, 6) {
                    e.insert(((i - 1) / 4, i));
                }
            }
        }
    }
    if n > 0 && large == 0 {
        match r.below(9) {
            0 => {
                for _ in 0..r.range(0, 3 * n) {
                    e.insert((r.below(n), r.below(n)));
                }
            }
            1 => {
                for i in 1..n {
                    e.insert((i - 1, i));
                }
                for _ in 0..r.below(4) {
                    e.insert((r.below(n), r.below(n)));
                }
            }
            2 => {
                let w = r.range(1, 4);
                for i in 0..n {
                    for j in 0..n {
                        if j / w == i / w + 1 && r.chance(2, 3) {
                            e.insert((i, j));
                        }
                    }
                }
            }
            3 => {
                for i in 1..n {
                    e.insert((r.below(i), i));
                }
                for _ in 0..r.below(n + 1) {
                    e.insert((r.below(n), r.below(n)));
                }
            }
            4 => {
                let d = r.range(1, 9) as u32;
                for i in 0..n {
                    for j in 0..n {
                        if r.chance(d, 10 + n as u32) {
                            e.insert((i, j));
                        }
                    }
                }
            }
            5 => {
                // irreducible regions: a node entering a cycle in two places
                let mut i = 0;
                while i + 2 < n {
                    e.extend([(i, i + 1), (i, i + 2), (i + 1, i + 2), (i + 2, i + 1)]);
                    if i + 3 < n {
                        e.insert((i + r.range(1, 2), i + 3));
                    }
                    i += 3;
                }
                for _ in 0..r.below(3) {
                    e.insert((r.below(n), r.below(n)));
                }
            }
            6 => {
                // several rings, some never reached, and self references
                let mut i = 0;
                while i < n {
                    let k = r.range(1, 4).min(n - i);
                    for j in 0..k {
                        e.insert((i + j, i + (j + 1) % k));
                    }
                    if r.chance(1, 2) && i > 0 {
                        e.insert((r.below(i), i + r.below(k)));
                    }
                    i += k;
                }
            }
            7 => {
                // ladder
                let mut i = 0;
                while i + 3 < n {
                    e.extend([(i, i + 1), (i, i + 2), (i + 1, i + 3), (i + 2, i + 3)]);
                    i += 3;
                }
            }
            _ => {
                let hub = r.below(n);
                for i in 0..n {
                    if r.bool() {
                        e.insert((hub, i));
                    }
                    if r.chance(1, 3) {
                        e.insert((i, hub));
                    }
                }
            }
        }
        if r.chance(1, 4) {
            let k = r.below(n);
            e.insert((k, k));
        }
    }
    // relabel so that identifiers do not follow the construction order
    let mut perm: Vec<usize> = (0..n).collect();
    if r.chance(2, 3) {
        r.shuffle(&mut perm);
    }
    for (a, b) in e {
        g.succ[perm[a]].push(perm[b]);
    }
    let mut roots: BTreeSet<usize> = BTreeSet::new();
    if n > 0 {
        match r.below(5) {
            0 => {}
            1 => {
                roots.insert(perm[0]);
            }
            2 => {
                roots.insert(perm[0]);
                roots.insert(r.below(n));
            }
            3 => {
                for i in 0..n {
                    if r.chance(1, 3) {
                        roots.insert(i);
                    }
                }
            }
            _ => {
                roots.insert(perm[0]);
                for _ in 0..r.below(3) {
                    roots.insert(r.below(n));
                }
            }
        }
    }
    g.roots = roots.into_iter().collect();
    // identifiers, increasing with the index
    let (mut s, mut k) = (r.below(3), r.below(3));
    for _ in 0..n {
        if r.chance(1, 5) {
            g.ids.push(ir::Id::section(s));
            s += 1 + r.below(2);
            k = 0;
        } else {
            g.ids.push(ir::Id::entry(s, k));
            k += 1 + r.below(3);
            if r.chance(1, 4) {
                s += 1 + r.below(4);
                k = r.below(5);
            }
        }
    }
    for a in 0..n {
        g.succ[a].sort_unstable();
        for b in g.succ[a].clone() {
            g.pred[b].push(a);
        }
    }
    g
}

/// The documented rule for generics, stated over displayed names.
pub fn recognise(name: &str) -> Option<String> {
    if let Some(k) = name.rfind("::") {
        let last = &name[k + 2..];
        // a compiler may have appended a suffix such as ".123"
        let last = last.split('.').next().unwrap();
        if last.len() == 17 && last.starts_with('h') && last[1..].bytes().all(|b| b.is_ascii_hexdigit()) {
            return Some(name[..k].to_string());
        }
    }
    let (a, b) = (name.find('<')?, name.rfind('>')?);
    if a < b && a > 0 {
        Some(name[..a].to_string())
    } else {
        None
    }
}

pub fn build(r: &mut Rng, g: &Graph) -> Items {
    let mut b = ItemsBuilder::new(g.total);
    let mut order: Vec<usize> = (0..g.n()).collect();
    r.shuffle(&mut order);
    let roots: HashSet<usize> = g.roots.iter().copied().collect();
    for &i in &order {
        let k: ir::ItemKind = if g.code[i] {
            ir::Code::new(&g.name[i]).into()
        } else if g.data[i] {
            ir::Data::new(None).into()
        } else if i % 2 == 0 {
            ir::DebugInfo::new().into()
        } else {
            ir::Misc::new().into()
        };
        let it = Item::new(g.ids[i], g.name[i].as_str(), g.size[i], k);
        if roots.contains(&i) {
            b.add_root(it);
        } else {
            b.add_item(it);
        }
    }
    let mut es: Vec<(usize, usize)> = (0..g.n()).flat_map(|a| g.succ[a].iter().map(move |&b| (a, b))).collect();
    r.shuffle(&mut es);
    for (x, y) in es {
        b.add_edge(g.ids[x], g.ids[y]);
        if r.chance(1, 8) {
            b.add_edge(g.ids[x], g.ids[y]);
        }
    }
    b.finish()
}

/// The item set must report the graph it was built from.
pub fn same(g: &Graph, items: &Items) -> Result<(), String> {
    let h = Graph::of(items)?;
    if h.name != g.name {
        return Err(format!("names changed: {:?} became {:?}", g.name, h.name));
    }
    if h.size != g.size || h.ids != g.ids || h.total != g.total || h.data != g.data || h.code != g.code {
        return Err("items changed between builder and item set".into());
    }
    if h.succ != g.succ || h.roots != g.roots {
        return Err("references changed between builder and item set".into());
    }
    Ok(())
}

pub fn describe(g: &Graph) -> String {
    let roots: std::collections::HashSet<usize> = g.roots.iter().copied().collect();
    let e: Vec<String> = (0..g.n()).map(|i| format!("{}:{}{}->{:?}", i, g.size[i], if roots.contains(&i) { "*" } else { "" }, g.succ[i])).collect();
    format!("total {} {}", g.total, e.join(" "))
}
