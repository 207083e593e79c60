//! C01-C03: what the wasm reader reports, against modules whose contents are
//! known by construction.
use crate::ctx::Ctx;
use crate::sut::*;
use crate::wasmgen::{self, Cfg, Kind, Module, Truth};
use crate::Prop;
use std::collections::{BTreeMap, BTreeSet};
use twiggy_ir as ir;

pub const C01: Prop = Prop {
    id: "C01",
    rule: "Random valid wasm modules (every section kind, over-long LEB128, empty and repeated custom sections, name sections) generated with ground truth; evaluation = one module parsed, the sum of all item sizes compared with the file length, and every entry's and header's size with the truth. Non-trivial: more than 3 items and non-empty code; distinct by module bytes.",
    quick: 400_000,
    thorough: 12_000_000,
    run: c01,
    level: "exploration",
    cpu: 60,
    must: &["feature beyond 65536", "feature overlong-leb", "feature custom", "items header", "feature big-data", "feature big-body", "feature big-custom", "feature tag-section", "fixture modules"],
    mem: 6,
};
pub const C02: Prop = Prop {
    id: "C02",
    rule: "Random valid wasm modules with ground truth, half of them with hostile names; evaluation = one module parsed, the multiset of (name, kind) of all items compared with the truth. Non-trivial: at least one function; distinct by module bytes.",
    quick: 400_000,
    thorough: 12_000_000,
    run: c02,
    level: "exploration",
    cpu: 60,
    must: &["feature function-names", "feature data-names", "items import", "items code", "feature long-name", "feature many-imports", "feature many-functions", "feature many-segments"],
    mem: 6,
};
pub const C03: Prop = Prop {
    id: "C03",
    rule: "Random valid wasm modules with ground truth; evaluation = one module parsed, the multiset of edges and the set of roots compared with the truth. Non-trivial: at least one reference besides function-to-type; distinct by module bytes.",
    quick: 400_000,
    thorough: 12_000_000,
    run: c03,
    level: "exploration",
    cpu: 60,
    must: &["feature beyond 65536", "feature call", "feature data-edge", "feature global-get", "feature ref-func", "feature return-call", "feature many-globals", "feature big-element-list", "feature load-beyond-32-bits", "feature reference-at-the-end-of-a-long-body", "feature try-catch", "feature export-tag", "edges"],
    mem: 6,
};

pub fn kind_of(k: &ir::ItemKind) -> Kind {
    match k {
        ir::ItemKind::Code(_) => Kind::Code,
        ir::ItemKind::Data(_) => Kind::Data,
        ir::ItemKind::Debug(_) => Kind::Debug,
        ir::ItemKind::Misc(_) => Kind::Misc,
    }
}

fn cfg_for(c: &mut Ctx, r: &mut crate::rng::Rng) -> Cfg {
    let mut cfg = Cfg { hostile_names: r.chance(1, 2), ..Cfg::default() };
    match r.below(10) {
        0 => {
            cfg.max_funcs = 150;
            cfg.max_other = 30;
        }
        1 => {
            cfg.max_funcs = 40;
            cfg.stmts = 40;
        }
        2 => cfg.pad = 80,
        3 => cfg.exact_funcs = Some(0),
        _ => {}
    }
    if r.chance(1, 120) {
        cfg.big = 1 + r.below(12) as u8;
        cfg.scale = r.chance(1, 40);
    }
    if c.thorough && r.chance(1, 200) {
        cfg.max_funcs = 4000;
        cfg.exact_funcs = Some(2000 + r.below(2000));
    }
    cfg
}

/// One generated module and what twiggy makes of it.
fn case(c: &mut Ctx) -> (Module, Result<Items, String>) {
    let mut r = c.rng(1);
    let cfg = cfg_for(c, &mut r);
    let m = wasmgen::gen(&mut r, &cfg);
    for f in &m.features {
        c.count(&format!("feature {}", f));
    }
    for i in &m.truth.items {
        let k = match i.what {
            "section header" => "items header",
            "import" => "items import",
            _ if i.kind == Kind::Code => "items code",
            _ if i.kind == Kind::Data => "items data",
            _ => "items other",
        };
        c.count(k);
    }
    let it = twiggy_parser::parse(&m.bytes).map_err(|e| e.to_string());
    (m, it)
}

fn diff<K: Ord + std::fmt::Debug>(want: &BTreeMap<K, i64>, got: &BTreeMap<K, i64>) -> String {
    let mut miss = vec![];
    let mut extra = vec![];
    for (k, n) in want {
        let g = got.get(k).copied().unwrap_or(0);
        if g < *n {
            miss.push(k);
        }
    }
    for (k, n) in got {
        if want.get(k).copied().unwrap_or(0) < *n {
            extra.push(k);
        }
    }
    format!("missing {:?}; unexpected {:?}", &miss[..miss.len().min(4)], &extra[..extra.len().min(4)])
}

fn bag<K: Ord>(it: impl Iterator<Item = K>) -> BTreeMap<K, i64> {
    let mut m = BTreeMap::new();
    for k in it {
        *m.entry(k).or_insert(0) += 1;
    }
    m
}

fn describe(m: &Module) -> String {
    format!("{} bytes, {} items, {} references, {} roots: {}", m.bytes.len(), m.truth.items.len(), m.truth.edges.len(), m.truth.roots.len(), m.features.iter().copied().collect::<Vec<_>>().join(" "))
}

fn dump(c: &Ctx, m: &Module) -> String {
    let d = std::path::Path::new("/verif/replays");
    let _ = std::fs::create_dir_all(d);
    let f = d.join(format!("case-{}-{}.wasm", c.seed, c.case));
    let _ = std::fs::write(&f, &m.bytes);
    format!("module in {}", f.display())
}

fn real_files() -> Vec<std::path::PathBuf> {
    let mut v: Vec<_> = std::fs::read_dir("/repo/twiggy/tests/all/fixtures").map(|d| d.filter_map(|e| e.ok()).map(|e| e.path()).filter(|p| p.extension().map_or(false, |x| x == "wasm")).collect()).unwrap_or_default();
    v.extend(std::fs::read_dir("/verif/target/samples").map(|d| d.filter_map(|e| e.ok()).map(|e| e.path()).filter(|p| p.extension().map_or(false, |x| x == "wasm")).collect::<Vec<_>>()).unwrap_or_default());
    v.sort();
    v
}

/// Every compiled module at hand, read by the independent decoder.
pub fn real(c: &mut Ctx) -> Vec<(Module, String)> {
    let mut out = vec![];
    for f in real_files() {
        let bytes = std::fs::read(&f).unwrap();
        match crate::wasmread::read(&bytes) {
            Ok(truth) => {
                c.count("fixture modules");
                out.push((Module { bytes, truth, features: Default::default() }, f.display().to_string()));
            }
            Err(e) => c.add(&format!("sample modules the reference reader does not take ({}: {})", f.file_name().unwrap().to_string_lossy(), e), 1),
        }
    }
    out
}

fn c01(c: &mut Ctx) {
    if c.case == 0 {
        for (m, f) in real(c) {
            let it = twiggy_parser::parse(&m.bytes).map_err(|e| e.to_string());
            check_sizes(c, &m, it, &f);
        }
        return;
    }
    let (m, it) = case(c);
    check_sizes(c, &m, it, "");
}
fn check_sizes(c: &mut Ctx, m: &Module, it: Result<Items, String>, label: &str) {
    let it = match it {
        Ok(i) => i,
        Err(e) => {
            let d = dump(c, m);
            return c.fail(format!("valid module {} refused: {} ({})", label, e, d));
        }
    };
    let sum: u64 = it.iter().map(|i| u64::from(i.size())).sum();
    if m.truth.items.len() > 3 {
        c.eval(&m.bytes);
    } else {
        c.eval_trivial();
    }
    c.sample(|| describe(m));
    if sum != m.bytes.len() as u64 || u64::from(it.size()) != m.bytes.len() as u64 {
        let d = dump(c, m);
        return c.fail(format!("{} item sizes sum to {}, reported size {}, file has {} bytes ({})", label, sum, it.size(), m.bytes.len(), d));
    }
    let want = bag(m.truth.items.iter().map(|i| (i.name.clone(), i.size)));
    let got = bag(it.iter().filter(|i| i.id() != it.meta_root()).map(|i| (i.name().to_string(), i.size())));
    if want != got {
        // C01 is about sizes: ignore names, then compare per kind
        let ws = bag(m.truth.items.iter().map(|i| (i.kind, i.size)));
        let gs = bag(it.iter().filter(|i| i.id() != it.meta_root()).map(|i| (kind_of(i.kind()), i.size())));
        let wn = bag(m.truth.items.iter().map(|i| i.name.clone()));
        let gn = bag(it.iter().filter(|i| i.id() != it.meta_root()).map(|i| i.name().to_string()));
        if ws != gs || wn == gn {
            let d = dump(c, m);
            c.fail(format!("{} item sizes differ: {} ({})", label, diff(&want, &got), d));
        }
    }
}

fn c02(c: &mut Ctx) {
    if c.case == 0 {
        for (m, f) in real(c) {
            let it = twiggy_parser::parse(&m.bytes).map_err(|e| e.to_string());
            check_names(c, &m, it, &f);
        }
        return;
    }
    let (m, it) = case(c);
    check_names(c, &m, it, "");
}
fn check_names(c: &mut Ctx, m: &Module, it: Result<Items, String>, label: &str) {
    let it = match it {
        Ok(i) => i,
        Err(e) => {
            let d = dump(c, m);
            return c.fail(format!("valid module {} refused: {} ({})", label, e, d));
        }
    };
    if m.truth.items.iter().any(|i| i.kind == Kind::Code) {
        c.eval(&m.bytes);
    } else {
        c.eval_trivial();
    }
    c.sample(|| describe(m));
    let want = bag(m.truth.items.iter().map(|i| (i.name.clone(), i.kind)));
    let got = bag(it.iter().filter(|i| i.id() != it.meta_root()).map(|i| (i.name().to_string(), kind_of(i.kind()))));
    if want != got {
        let d = dump(c, m);
        return c.fail(format!("{} items differ: {} ({})", label, diff(&want, &got), d));
    }
    // the right entity must bear the right name: entities differ in size
    let want = bag(m.truth.items.iter().map(|i| (i.name.clone(), i.size)));
    let got = bag(it.iter().filter(|i| i.id() != it.meta_root()).map(|i| (i.name().to_string(), i.size())));
    if want != got {
        let a = bag(m.truth.items.iter().map(|i| i.size));
        let b = bag(it.iter().filter(|i| i.id() != it.meta_root()).map(|i| i.size()));
        if a == b {
            let d = dump(c, m);
            c.fail(format!("{} names are attached to the wrong items: {} ({})", label, diff(&want, &got), d));
        }
    }
}

/// Matches twiggy's items with the truth's. Items are identified by name and
/// kind first, and by size among equals.
fn c03(c: &mut Ctx) {
    if c.case == 0 {
        for (m, f) in real(c) {
            let it = twiggy_parser::parse(&m.bytes).map_err(|e| e.to_string());
            check_edges(c, &m, it, &f);
        }
        return;
    }
    let (m, it) = case(c);
    check_edges(c, &m, it, "");
}
fn edge_bag(t: &Truth, e: &BTreeSet<(usize, usize)>) -> BTreeMap<((String, u32), (String, u32)), i64> {
    bag(e.iter().map(|&(a, b)| ((t.items[a].name.clone(), t.items[a].size), (t.items[b].name.clone(), t.items[b].size))))
}
pub fn truth_edges(t: &Truth) -> BTreeMap<((String, u32), (String, u32)), i64> {
    edge_bag(t, &t.edges)
}
fn check_edges(c: &mut Ctx, m: &Module, it: Result<Items, String>, label: &str) {
    let it = match it {
        Ok(i) => i,
        Err(e) => {
            let d = dump(c, m);
            return c.fail(format!("valid module {} refused: {} ({})", label, e, d));
        }
    };
    let g = match Graph::of(&it) {
        Ok(g) => g,
        Err(e) => {
            let d = dump(c, m);
            return c.fail(format!("{} {} ({})", label, e, d));
        }
    };
    c.add("edges", m.truth.edges.len() as u64);
    c.add("roots", m.truth.roots.len() as u64);
    if m.truth.edges.iter().any(|&(_, b)| m.truth.items[b].what != "type") {
        c.eval(&m.bytes);
    } else {
        c.eval_trivial();
    }
    c.sample(|| describe(m));
    let want = truth_edges(&m.truth);
    let got = bag((0..g.n()).flat_map(|a| g.succ[a].iter().map(move |&b| (a, b))).map(|(a, b)| ((g.name[a].clone(), g.size[a]), (g.name[b].clone(), g.size[b]))));
    if want != got && got == edge_bag(&m.truth, &m.truth.edges_with_finding()) {
        // The one recorded deviation: the data segment a constant-address load
        // reads is looked up as the next one beginning at or after the address.
        c.count("modules showing the recorded data lookup finding");
        c.fail_sig("data-lookup-takes-next-segment", format!("{} constant-address load attributed to the segment that begins at or after the address", label));
    } else if want != got {
        let d = dump(c, m);
        return c.fail(format!("{} references differ: {} ({})", label, diff(&want, &got), d));
    }
    let want = bag(m.truth.roots.iter().map(|&a| (m.truth.items[a].name.clone(), m.truth.items[a].size)));
    let got = bag(g.roots.iter().map(|&a| (g.name[a].clone(), g.size[a])));
    if want != got {
        let d = dump(c, m);
        return c.fail(format!("{} roots differ: {} ({})", label, diff(&want, &got), d));
    }
    // predecessors are the successors turned round
    let mut it = it;
    it.compute_predecessors();
    for k in 0..g.n() {
        let mut p: Vec<Id> = it.predecessors(g.ids[k]).filter(|&p| p != it.meta_root()).collect();
        p.sort();
        let mut q: Vec<Id> = g.pred[k].iter().map(|&x| g.ids[x]).collect();
        q.sort();
        if p != q {
            return c.fail(format!("{} predecessors of {:?} are not its referrers", label, g.name[k]));
        }
    }
}
