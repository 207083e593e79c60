//! C04-C07: graph analyses against brute-force oracles.
use crate::ctx::Ctx;
use crate::graphgen::{self, GCfg};
use crate::rng::Rng;
use crate::sut::*;
use crate::views::{self, Node, Row};
use crate::wasmgen;
use crate::Prop;
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub const C04: Prop = Prop {
    id: "C04",
    rule: "Random item graphs (sparse, dense, chains, layers, trees with cross edges, irreducible loops, rings, ladders, hubs; with and without roots and unreachable parts) and random wasm modules; evaluation = dominators, retained sizes and the dominator tree in all three formats compared with dominance by vertex removal. Non-trivial: an item with an immediate dominator other than the meta root; distinct by graph.",
    quick: 300_000,
    thorough: 3_000_000,
    run: c04,
    level: "exploration",
    cpu: 60,
    must: &["graphs with nested domination", "graphs with unreachable items", "wasm modules", "text trees", "json trees", "csv trees", "irreducible regions"],
    mem: 6,
};
pub const C05: Prop = Prop {
    id: "C05",
    rule: "Random item graphs and wasm modules with random limits and switches in every format; evaluation = one garbage report compared with reachability. Non-trivial: at least one unreachable item; distinct by graph and options.",
    quick: 500_000,
    thorough: 6_000_000,
    run: c05,
    level: "exploration",
    cpu: 60,
    must: &["beyond 65536 items", "cut off", "false-positive line", "data listed", "unreachable cycles", "format csv", "format text", "format json", "wasm modules"],
    mem: 6,
};
pub const C06: Prop = Prop {
    id: "C06",
    rule: "Random item graphs and wasm modules, both directions, random depth and path limits, with and without names and expressions, every format; evaluation = every entry of one paths report judged against the graph (edges exist, no item twice on a path, no continuation missing). Non-trivial: at least one path of two or more items; distinct by graph and options.",
    quick: 500_000,
    thorough: 6_000_000,
    run: c06,
    level: "exploration",
    cpu: 60,
    must: &["descending", "ascending", "self references", "cycles met", "cut by path limit", "cut by depth limit", "format csv", "format text", "format json", "wasm modules"],
    mem: 6,
};
pub const C07: Prop = Prop {
    id: "C07",
    rule: "Random item graphs and wasm modules with random limits, shallow and retained, every format; evaluation = one ranking compared with the sorted list of sizes (retained ones by vertex removal). Non-trivial: two or more items; distinct by graph and options.",
    quick: 500_000,
    thorough: 6_000_000,
    run: c07,
    level: "exploration",
    cpu: 60,
    must: &["beyond 65536 items", "cut off", "limit 0", "unlimited", "retained", "retained sum above 4 GiB", "format csv", "format text", "format json", "wasm modules"],
    mem: 6,
};

/// An item graph with unique names, and its item set: generated directly, or
/// that of a generated module.
fn subject(c: &mut Ctx, r: &mut Rng, cfg: &GCfg) -> Option<(Graph, Items)> {
    if r.chance(1, 8) {
        let w = wasmgen::Cfg { max_funcs: 10, max_other: 3, stmts: 5, ..Default::default() };
        let m = wasmgen::gen(r, &w);
        c.count("wasm modules");
        let it = match twiggy_parser::parse(&m.bytes) {
            Ok(i) => i,
            Err(e) => {
                c.fail(format!("valid module refused: {}", e));
                return None;
            }
        };
        match Graph::of(&it) {
            Ok(g) => Some((g, it)),
            Err(e) => {
                c.fail(e);
                None
            }
        }
    } else {
        let g = graphgen::gen(r, cfg);
        let it = graphgen::build(r, &g);
        if let Err(e) = graphgen::same(&g, &it) {
            c.fail(format!("{} on {}", e, graphgen::describe(&g)));
            return None;
        }
        Some((g, it))
    }
}

fn unique(g: &Graph) -> bool {
    g.name.iter().collect::<BTreeSet<_>>().len() == g.n()
}

fn opts(sub: &str, args: &[String]) -> Options {
    options(sub, args).unwrap_or_else(|e| panic!("options {:?} refused: {}", args, e))
}
fn s(x: &str) -> String {
    x.to_string()
}

/// The dominator tree below `at` (None: all top-level trees).
pub fn dom_forest(g: &Graph, d: &Dom) -> Vec<Node> {
    let mut kids: Vec<Vec<usize>> = vec![vec![]; g.n()];
    let mut tops = vec![];
    for v in 0..g.n() {
        if d.reach[v] {
            match d.idom[v] {
                Some(p) => kids[p].push(v),
                None => tops.push(v),
            }
        }
    }
    fn mk(v: usize, g: &Graph, d: &Dom, kids: &[Vec<usize>]) -> Node {
        Node {
            name: g.name[v].clone(),
            size: Some(i64::from(g.size[v])),
            pct: None,
            ret: Some((d.retained[v] as i64, 0.0)),
            id: Some(g.ids[v].serializable()),
            path: None,
            kids: kids[v].iter().map(|&k| mk(k, g, d, kids)).collect(),
        }
    }
    tops.into_iter().map(|v| mk(v, g, d, &kids)).collect()
}
pub fn dom_canon(f: &[Node], shallow: bool, id: bool) -> Vec<String> {
    let show = |n: &Node| format!("{}{:?}={}{}", if id { format!("#{}", n.id.unwrap_or(0)) } else { String::new() }, n.name, n.ret.map_or(-1, |r| r.0), if shallow { format!("/{}", n.size.unwrap_or(-1)) } else { String::new() });
    let mut v: Vec<String> = f.iter().map(|n| n.canon(&show)).collect();
    v.sort();
    v
}
pub fn sorted_kids(f: &[Node]) -> Result<(), String> {
    for w in f.windows(2) {
        if w[0].ret.unwrap().0 < w[1].ret.unwrap().0 {
            return Err(format!("{:?} retaining {} stands before {:?} retaining {}", w[0].name, w[0].ret.unwrap().0, w[1].name, w[1].ret.unwrap().0));
        }
    }
    f.iter().try_for_each(|n| sorted_kids(&n.kids))
}

fn c04(c: &mut Ctx) {
    let mut r = c.rng(4);
    let cfg = GCfg { odd: true, huge: true, max_n: if c.thorough && r.chance(1, 50) { 120 } else { 26 }, dup: if r.chance(1, 5) { 25 } else { 0 }, ..Default::default() };
    let (g, mut items) = match subject(c, &mut r, &cfg) {
        Some(x) => x,
        None => return,
    };
    let d = g.dominance();
    let reach = d.reach.iter().filter(|&&x| x).count();
    if (0..g.n()).any(|v| d.reach[v] && d.idom[v].is_some()) {
        c.eval(graphgen::describe(&g).as_bytes());
        c.count("graphs with nested domination");
    } else {
        c.eval_trivial();
    }
    if reach < g.n() {
        c.count("graphs with unreachable items");
    }
    // two reachable items that reference each other, neither dominating the other
    if (0..g.n()).any(|a| d.reach[a] && g.succ[a].iter().any(|&b| b != a && g.succ[b].contains(&a) && d.idom[a] != Some(b) && d.idom[b] != Some(a))) {
        c.count("irreducible regions");
    }
    c.max("items", g.n() as u64);
    c.sample(|| graphgen::describe(&g));
    let ctx = |m: String| format!("{} on {}", m, graphgen::describe(&g));
    // the item set's own answers, in a random order of the calls
    let mut calls = [0, 1, 2];
    r.shuffle(&mut calls);
    for k in calls {
        match k {
            0 => items.compute_dominators(),
            1 => items.compute_dominator_tree(),
            _ => items.compute_retained_sizes(),
        }
    }
    let root = items.meta_root();
    let mut tree_n = 0;
    for v in 0..g.n() {
        let id = g.ids[v];
        let want = if d.reach[v] { Some(d.idom[v].map_or(root, |p| g.ids[p])) } else { None };
        let got = items.immediate_dominators().get(&id).copied();
        if got != want {
            return c.fail(ctx(format!("item {} has immediate dominator {:?}, expected {:?}", v, got, want)));
        }
        if u64::from(items.retained_size(id)) != d.retained[v] {
            return c.fail(ctx(format!("item {} retains {}, expected {}", v, items.retained_size(id), d.retained[v])));
        }
        if let Some(w) = want {
            if !items.dominator_tree().get(&w).map_or(false, |k| k.contains(&id)) {
                return c.fail(ctx(format!("item {} is not listed beneath its immediate dominator", v)));
            }
        }
    }
    for k in items.dominator_tree().values() {
        tree_n += k.len();
    }
    if tree_n != reach {
        return c.fail(ctx(format!("the dominator tree lists {} items, {} are reachable", tree_n, reach)));
    }
    let all: u64 = (0..g.n()).filter(|&v| d.reach[v]).map(|v| u64::from(g.size[v])).sum();
    if u64::from(items.retained_size(root)) != all {
        return c.fail(ctx(format!("the meta root retains {}, expected {}", items.retained_size(root), all)));
    }
    // the printed trees
    let want = dom_forest(&g, &d);
    let un: u64 = (0..g.n()).filter(|&v| !d.reach[v]).map(|v| u64::from(g.size[v])).sum();
    let o = opts("dominators", &[]);
    for f in FMTS {
        let out = match run_fmt(&mut items, None, &o, f) {
            Ok(t) => t,
            Err(e) => return c.fail(ctx(format!("dominators failed: {}", e))),
        };
        let v = match views::dominators(&out, f, true) {
            Ok(v) => v,
            Err(e) => return c.fail(ctx(format!("{} output: {}\n{}", f.name(), e, out))),
        };
        c.count(&format!("{} trees", f.name()));
        let shallow = f != Fmt::Text;
        if dom_canon(&v.trees, shallow, f == Fmt::Csv) != dom_canon(&want, shallow, f == Fmt::Csv) {
            return c.fail(ctx(format!("{} dominator tree is {:?}, expected {:?}", f.name(), dom_canon(&v.trees, shallow, false), dom_canon(&want, shallow, false))));
        }
        if let Err(e) = sorted_kids(&v.trees) {
            return c.fail(ctx(format!("{}: {}", f.name(), e)));
        }
        if let Some(m) = &v.meta {
            if m.ret.unwrap().0 as u64 != all {
                return c.fail(ctx(format!("{}: meta root retains {}, expected {}", f.name(), m.ret.unwrap().0, all)));
            }
        }
        let name = format!("[{} Unreachable Items]", g.n() - reach);
        match &v.unreachable {
            Some(u) if un > 0 && u.name == name && u.size == Some(un as i64) && views::pct_ok(f, u.pct.unwrap(), un as i64, g.total) => {}
            None if un == 0 => {}
            Some(u) if un == 0 && reach < g.n() && u.name == name && u.size == Some(0) => {}
            u => return c.fail(ctx(format!("{}: unreachable summary {:?}, expected {} with {} bytes", f.name(), u, name, un))),
        }
    }
}

fn limit(r: &mut Rng, n: usize) -> Option<u32> {
    match r.below(6) {
        0 => None,
        1 => Some(0),
        2 => Some(1),
        3 => Some(n as u32),
        4 => Some(*r.pick(&[u32::MAX, u32::MAX - 1, 256, 65_536, 1 << 31])),
        _ => Some(r.below(n + 2) as u32),
    }
}

/// Seldom, more items than sixteen bits can count.
fn beyond(c: &mut Ctx, r: &mut Rng) -> usize {
    if r.chance(1, 20_000) {
        c.count("beyond 65536 items");
        66_000
    } else {
        0
    }
}

fn c05(c: &mut Ctx) {
    let mut r = c.rng(5);
    let wide = beyond(c, &mut r);
    let cfg = GCfg { odd: true, huge: true, dup: if r.chance(1, 4) { 25 } else { 0 }, wide, ..Default::default() };
    let (g, mut items) = match subject(c, &mut r, &cfg) {
        Some(x) => x,
        None => return,
    };
    let reach = g.reach(None);
    let un: Vec<usize> = (0..g.n()).filter(|&v| !reach[v]).collect();
    let mut args = vec![];
    let n = limit(&mut r, un.len());
    let mut lim = 10usize;
    if let Some(n) = n {
        args.extend([s("-n"), n.to_string()]);
        lim = n as usize;
    }
    if r.chance(1, 4) {
        args.push(s(*r.pick(&["-a", "--all"])));
        lim = usize::MAX;
    }
    let show = r.bool();
    if show {
        args.push(s("--show-data-segments"));
    }
    let o = opts("garbage", &args);
    let f = *r.pick(&FMTS);
    c.count(&format!("format {}", f.name()));
    let ctx = |m: String| format!("{} (garbage {:?}, {}) on {}", m, args, f.name(), graphgen::describe(&g));
    if un.is_empty() {
        c.eval_trivial();
    } else {
        c.eval(format!("{}{:?}{:?}", graphgen::describe(&g), args, f).as_bytes());
        c.sample(|| format!("garbage {:?}: {}", args, graphgen::describe(&g)));
    }
    if un.iter().any(|&v| g.pred[v].iter().any(|&p| p != v && g.succ[v].contains(&p))) {
        c.count("unreachable cycles");
    }
    let out = match run_fmt(&mut items, None, &o, f) {
        Ok(t) => t,
        Err(e) => return c.fail(ctx(format!("garbage failed: {}", e))),
    };
    let rows = match views::garbage(&out, f) {
        Ok(v) => v,
        Err(e) => return c.fail(ctx(format!("{}\n{}", e, out))),
    };
    let mut listed: Vec<(String, i64)> = un.iter().filter(|&&v| show || !g.data[v]).map(|&v| (g.name[v].clone(), i64::from(g.size[v]))).collect();
    listed.sort_by_key(|x| std::cmp::Reverse(x.1));
    let data: Vec<i64> = un.iter().filter(|&&v| !show && g.data[v]).map(|&v| i64::from(g.size[v])).collect();
    let k = lim.min(listed.len());
    let mut want: Vec<(String, i64)> = vec![];
    if listed.len() > k {
        want.push((format!("... and {} more", listed.len() - k), listed[k..].iter().map(|x| x.1).sum()));
        c.count("cut off");
    }
    want.push((format!("Σ [{} Total Rows]", listed.len()), listed.iter().map(|x| x.1).sum()));
    if !data.is_empty() {
        want.push((format!("{} potential false-positive data segments", data.len()), data.iter().sum()));
        c.count("false-positive line");
    }
    if show && un.iter().any(|&v| g.data[v]) {
        c.count("data listed");
    }
    if rows.len() != k + want.len() {
        return c.fail(ctx(format!("{} rows, expected {} and {} summaries: {:?}", rows.len(), k, want.len(), rows)));
    }
    let shown: Vec<(String, i64)> = rows[..k].iter().map(|x| (x.name.clone(), x.size.unwrap())).collect();
    if let Err(e) = views::ranked(&shown, &listed, lim) {
        return c.fail(ctx(e));
    }
    let sums: Vec<(String, i64)> = rows[k..].iter().map(|x| (x.name.clone(), x.size.unwrap())).collect();
    if sums != want {
        return c.fail(ctx(format!("summaries {:?}, expected {:?}", sums, want)));
    }
    for x in &rows {
        if !views::pct_ok(f, x.pct.unwrap(), x.size.unwrap(), g.total) {
            return c.fail(ctx(format!("{:?}: {}% of {}", x.name, x.pct.unwrap(), g.total)));
        }
    }
}

fn c06(c: &mut Ctx) {
    let mut r = c.rng(6);
    let cfg = GCfg { max_n: 14, odd: true, dup: if r.chance(1, 5) { 25 } else { 0 }, ..Default::default() };
    let (g, mut items) = match subject(c, &mut r, &cfg) {
        Some(x) => x,
        None => return,
    };
    if !unique(&g) {
        return c06_alike(c, &mut r, &g, &mut items);
    }
    let by: HashMap<&str, usize> = g.name.iter().enumerate().map(|(i, n)| (n.as_str(), i)).collect();
    let desc = r.bool();
    c.count(if desc { "descending" } else { "ascending" });
    let mut args = vec![];
    if desc {
        args.push(s("--descending"));
    }
    // limits: the size of the full expansion must stay printable
    let (mut d, mut p) = (10usize, 10usize);
    let edges: usize = g.succ.iter().map(|x| x.len()).sum();
    if edges > g.n() * 2 || g.n() > 110 || r.chance(2, 3) {
        d = match r.below(8) {
            _ if g.n() > 110 => r.below(2),
            0 => 0,
            1 => 1,
            2 => 2,
            3 => 3,
            4 | 5 if edges <= g.n() + 3 => *r.pick(&[u32::MAX as usize, 30, 64]),
            5 if edges <= g.n() * 2 => 12,
            _ => 4,
        };
        args.extend([s("-d"), d.to_string()]);
    }
    if r.chance(1, 2) {
        p = match r.below(6) {
            0 => 0,
            1 => 1,
            2 => 2,
            3 => *r.pick(&[u32::MAX as usize, 256, 65_536]),
            _ => 3,
        };
        args.extend([s("-r"), p.to_string()]);
    }
    let mut start: Option<Vec<usize>> = None;
    if g.n() > 0 && r.chance(1, 2) {
        let mut v: Vec<usize> = (0..r.range(1, 3)).map(|_| r.below(g.n())).collect();
        v.sort_unstable();
        v.dedup();
        let regex = r.chance(1, 3);
        if regex {
            args.push(s("--regex"));
        }
        args.push(s("--"));
        for &x in &v {
            args.push(if regex { format!("^{}$", regex_escape(&g.name[x])) } else { g.name[x].clone() });
        }
        start = Some(v);
    } else if r.chance(1, 6) {
        args.extend([s("--regex"), s("--"), s(".*")]);
        start = Some((0..g.n()).collect());
    }
    let f = *r.pick(&FMTS);
    c.count(&format!("format {}", f.name()));
    let o = opts("paths", &args);
    let ctx = |m: String| format!("{} (paths {:?}, {}) on {} named {:?}", m, args, f.name(), graphgen::describe(&g), g.name);
    let next: &Vec<Vec<usize>> = if desc { &g.succ } else { &g.pred };
    let out = match run_fmt(&mut items, None, &o, f) {
        Ok(t) => t,
        Err(e) => return c.fail(ctx(format!("paths failed: {}", e))),
    };
    let v = match views::paths(&out, f, desc) {
        Ok(v) => v,
        Err(e) => return c.fail(ctx(format!("{}\n{}", e, out))),
    };
    // what each entry must look like
    struct St<'a> {
        g: &'a Graph,
        by: &'a HashMap<&'a str, usize>,
        next: &'a [Vec<usize>],
        d: usize,
        p: usize,
        cyc: u64,
        selfs: u64,
        cutp: u64,
        cutd: u64,
        entries: u64,
        deepest: usize,
    }
    impl St<'_> {
        fn ok(&mut self, chain: &mut Vec<usize>, n: &Node) -> Result<usize, String> {
            let v = *self.by.get(n.name.as_str()).ok_or_else(|| format!("entry {:?} is no item", n.name))?;
            if let Some(&u) = chain.last() {
                if !self.next[u].contains(&v) {
                    return Err(format!("{:?} does not follow {:?}", n.name, self.g.name[u]));
                }
                if chain.contains(&v) {
                    return Err(format!("{:?} occurs twice on one path", n.name));
                }
            }
            if let Some(z) = n.size {
                if z != i64::from(self.g.size[v]) {
                    return Err(format!("{:?} shown with {} bytes, has {}", n.name, z, self.g.size[v]));
                }
            }
            self.entries += 1;
            self.deepest = self.deepest.max(chain.len() + 1);
            Ok(v)
        }
        fn free(&mut self, chain: &[usize]) -> Vec<usize> {
            let v = *chain.last().unwrap();
            let mut o = vec![];
            for &w in &self.next[v] {
                if w == v {
                    self.selfs += 1;
                }
                if chain.contains(&w) {
                    self.cyc += 1;
                } else {
                    o.push(w);
                }
            }
            o
        }
        fn want(&mut self, depth: usize, free: usize) -> usize {
            if depth < self.d {
                if free > self.p {
                    self.cutp += 1;
                }
                free.min(self.p)
            } else {
                if free > 0 {
                    self.cutd += 1;
                }
                0
            }
        }
        fn node(&mut self, chain: &mut Vec<usize>, n: &Node) -> Result<(), String> {
            let v = self.ok(chain, n)?;
            chain.push(v);
            let free = self.free(chain);
            let want = self.want(chain.len() - 1, free.len());
            if n.kids.len() != want {
                return Err(format!("{:?} at depth {} is continued {} times, expected {} (of {})", n.name, chain.len() - 1, n.kids.len(), want, free.len()));
            }
            let mut seen = BTreeSet::new();
            for k in &n.kids {
                if !seen.insert(k.name.as_str()) {
                    return Err(format!("continuation {:?} of {:?} is listed twice", k.name, n.name));
                }
                self.node(chain, k)?;
            }
            chain.pop();
            Ok(())
        }
        /// CSV has no nesting: records in preorder.
        fn flat(&mut self, chain: &mut Vec<usize>, rows: &mut std::slice::Iter<Node>) -> Result<(), String> {
            let n = rows.next().ok_or("records are missing")?;
            let v = self.ok(chain, n)?;
            chain.push(v);
            let free = self.free(chain);
            let want = self.want(chain.len() - 1, free.len());
            // The Path column names the direct continuations, then the item.
            let path = n.path.as_deref().unwrap_or("");
            if free.is_empty() {
                if !path.is_empty() {
                    return Err(format!("{:?} has path {:?} but no continuation", n.name, path));
                }
            } else if !n.name.contains(" -> ") && free.iter().all(|&w| !self.g.name[w].contains(" -> ")) {
                let mut l: Vec<&str> = path.split(" -> ").collect();
                if l.pop() != Some(n.name.as_str()) || l.len() < want || l.iter().any(|x| self.by.get(x).map_or(true, |w| !free.contains(w))) || l.iter().collect::<BTreeSet<_>>().len() != l.len() {
                    return Err(format!("{:?} has path {:?}", n.name, path));
                }
            }
            let mut seen = BTreeSet::new();
            for _ in 0..want {
                if let Some(k) = rows.as_slice().first() {
                    if !seen.insert(k.name.clone()) {
                        return Err(format!("continuation {:?} of {:?} is listed twice", k.name, n.name));
                    }
                }
                self.flat(chain, rows)?;
            }
            chain.pop();
            Ok(())
        }
    }
    let mut st = St { g: &g, by: &by, next, d, p, cyc: 0, selfs: 0, cutp: 0, cutd: 0, entries: 0, deepest: 0 };
    let mut tops: Vec<&Node> = vec![];
    if f == Fmt::Csv {
        let mut it = v.iter();
        while !it.as_slice().is_empty() {
            tops.push(&it.as_slice()[0]);
            if let Err(e) = st.flat(&mut vec![], &mut it) {
                return c.fail(ctx(e));
            }
        }
    } else {
        for n in &v {
            tops.push(n);
            if let Err(e) = st.node(&mut vec![], n) {
                return c.fail(ctx(e));
            }
        }
    }
    let (deepest, entries) = (st.deepest, st.entries);
    for (k, n) in [("cycles met", st.cyc), ("self references", st.selfs), ("cut by path limit", st.cutp), ("cut by depth limit", st.cutd), ("entries", st.entries)] {
        c.add(k, n);
    }
    c.max("path length", deepest as u64);
    c.max("entries in one report", entries);
    if deepest >= 2 {
        c.eval(format!("{}{:?}{:?}", graphgen::describe(&g), args, f).as_bytes());
        c.sample(|| format!("paths {:?}: {}", args, graphgen::describe(&g)));
    } else {
        c.eval_trivial();
    }
    // starting points
    let want: Vec<usize> = match &start {
        Some(v) => v.clone(),
        None if desc => g.roots.clone(),
        None => (0..g.n()).collect(),
    };
    let mut got: Vec<usize> = tops.iter().map(|n| by[n.name.as_str()]).collect();
    if start.is_none() && got.windows(2).any(|w| g.size[w[0]] < g.size[w[1]]) {
        return c.fail(ctx("starting points are not largest first".into()));
    }
    got.sort_unstable();
    if got != want {
        return c.fail(ctx(format!("starts from {:?}, expected {:?}", got, want)));
    }
}

/// Items that share names cannot be told apart in the output: the trees as a
/// whole must be those the references allow.
fn c06_alike(c: &mut Ctx, r: &mut Rng, g: &Graph, items: &mut Items) {
    let desc = r.bool();
    let edges: usize = g.succ.iter().map(|x| x.len()).sum();
    let d = if g.n() > 110 { r.below(2) } else if edges > g.n() * 2 { r.below(4) } else { *r.pick(&[0, 1, 2, 3, 5, 8, if edges <= g.n() + 3 { 60 } else { 4 }]) };
    let mut args = vec![s("-d"), d.to_string(), s("-r"), u32::MAX.to_string()];
    if desc {
        args.push(s("--descending"));
    }
    let mut start: Vec<usize> = if desc { g.roots.clone() } else { (0..g.n()).collect() };
    let whole = r.chance(2, 3);
    if !whole {
        let n = g.name[r.below(g.n())].clone();
        let regex = r.bool();
        if regex {
            args.push(s("--regex"));
        }
        args.extend([s("--"), if regex { format!("^{}$", regex_escape(&n)) } else { n.clone() }]);
        start = (0..g.n()).filter(|&v| g.name[v] == n).collect();
    }
    let f = *r.pick(&[Fmt::Json, Fmt::Text]);
    let o = opts("paths", &args);
    let ctx = |m: String| format!("{} (paths {:?}, {}) on {} named {:?}", m, args, f.name(), graphgen::describe(g), g.name);
    c.count("names that repeat");
    let out = match run_fmt(items, None, &o, f) {
        Ok(t) => t,
        Err(e) => return c.fail(ctx(format!("paths failed: {}", e))),
    };
    let got = match views::paths(&out, f, desc) {
        Ok(v) => v,
        Err(e) => return c.fail(ctx(format!("{}\n{}", e, out))),
    };
    let next: &Vec<Vec<usize>> = if desc { &g.succ } else { &g.pred };
    fn mk(g: &Graph, next: &[Vec<usize>], v: usize, left: usize, sized: bool, chain: &mut Vec<usize>) -> String {
        chain.push(v);
        let mut kids: Vec<String> = vec![];
        if left > 0 {
            for &w in &next[v] {
                if !chain.contains(&w) {
                    kids.push(mk(g, next, w, left - 1, sized, chain));
                }
            }
        }
        kids.sort();
        let size = if sized || chain.len() == 1 { g.size[v].to_string() } else { String::new() };
        chain.pop();
        format!("{:?}={}[{}]", g.name[v], size, kids.join(","))
    }
    fn show(n: &Node, sized: bool, top: bool) -> String {
        let mut kids: Vec<String> = n.kids.iter().map(|k| show(k, sized, false)).collect();
        kids.sort();
        format!("{:?}={}[{}]", n.name, if sized || top { n.size.map_or("?".into(), |z| z.to_string()) } else { String::new() }, kids.join(","))
    }
    let sized = f == Fmt::Json;
    let mut want: Vec<String> = start.iter().map(|&v| mk(g, next, v, d, sized, &mut vec![])).collect();
    let mut have: Vec<String> = got.iter().map(|n| show(n, sized, true)).collect();
    if whole && got.windows(2).any(|w| w[0].size < w[1].size) {
        return c.fail(ctx("starting points are not largest first".into()));
    }
    if got.iter().any(|n| !n.kids.is_empty()) {
        c.eval(format!("{}{:?}{:?}{:?}", graphgen::describe(g), g.name, args, f).as_bytes());
    } else {
        c.eval_trivial();
    }
    want.sort();
    have.sort();
    if want != have {
        c.fail(ctx(format!("prints {:?}, expected {:?}", have, want)));
    }
}

pub fn regex_escape(s: &str) -> String {
    let mut o = String::new();
    for ch in s.chars() {
        if "\\.+*?()|[]{}^$#&-~".contains(ch) {
            o.push('\\');
        }
        o.push(ch);
    }
    o
}

fn c07(c: &mut Ctx) {
    let mut r = c.rng(7);
    let wide = beyond(c, &mut r);
    let cfg = GCfg { odd: true, huge: true, dup: if r.chance(1, 4) { 30 } else { 0 }, wide, ..Default::default() };
    let (g, mut items) = match subject(c, &mut r, &cfg) {
        Some(x) => x,
        None => return,
    };
    let mut args = vec![];
    let mut lim = usize::MAX;
    match limit(&mut r, g.n()) {
        Some(n) => {
            args.extend([s("-n"), n.to_string()]);
            lim = n as usize;
            if n == 0 {
                c.count("limit 0");
            }
        }
        None => c.count("unlimited"),
    }
    // retained sizes are reckoned the slow way
    let retained = r.bool() && wide == 0;
    if retained {
        args.push(s("--retained"));
        c.count("retained");
    }
    let f = *r.pick(&FMTS);
    c.count(&format!("format {}", f.name()));
    let o = opts("top", &args);
    let ctx = |m: String| format!("{} (top {:?}, {}) on {}", m, args, f.name(), graphgen::describe(&g));
    if g.n() >= 2 {
        c.eval(format!("{}{:?}{:?}", graphgen::describe(&g), args, f).as_bytes());
        c.sample(|| format!("top {:?}: {}", args, graphgen::describe(&g)));
    } else {
        c.eval_trivial();
    }
    let dom = if retained { Some(g.dominance()) } else { None };
    if let Some(d) = &dom {
        if d.retained.iter().sum::<u64>() > u64::from(u32::MAX) {
            c.count("retained sum above 4 GiB");
        }
    }
    let out = match run_fmt(&mut items, None, &o, f) {
        Ok(t) => t,
        Err(e) => return c.fail(ctx(format!("top failed: {}", e))),
    };
    let (rows, sums): (Vec<Row>, Vec<Row>) = match views::top(&out, f, retained) {
        Ok(v) => v,
        Err(e) => return c.fail(ctx(format!("{}\n{}", e, out))),
    };
    // the size the ranking goes by
    let key = |v: usize| dom.as_ref().map_or(i64::from(g.size[v]), |d| d.retained[v] as i64);
    let mut all: Vec<(String, i64)> = (0..g.n()).map(|v| (g.name[v].clone(), key(v))).collect();
    all.sort_by_key(|x| std::cmp::Reverse(x.1));
    let shown: Vec<(String, i64)> = rows.iter().map(|x| (x.name.clone(), if retained { x.ret.unwrap().0 } else { x.size.unwrap() })).collect();
    if let Err(e) = views::ranked(&shown, &all, lim) {
        return c.fail(ctx(e));
    }
    // shallow and retained size of one row belong to the same item
    if retained && f != Fmt::Text {
        let mut pool: BTreeMap<(&str, i64, i64), i64> = BTreeMap::new();
        for v in 0..g.n() {
            *pool.entry((&g.name[v], i64::from(g.size[v]), key(v))).or_insert(0) += 1;
        }
        for x in &rows {
            let e = pool.entry((&x.name, x.size.unwrap(), x.ret.unwrap().0)).or_insert(0);
            *e -= 1;
            if *e < 0 {
                return c.fail(ctx(format!("no item is {:?}", x)));
            }
        }
    }
    for x in &rows {
        if x.pct.map_or(false, |p| !views::pct_ok(f, p, x.size.unwrap(), g.total)) || x.ret.map_or(false, |(z, p)| !views::pct_ok(f, p, z, g.total)) {
            return c.fail(ctx(format!("wrong percentage in {:?} of {}", x, g.total)));
        }
    }
    let k = lim.min(all.len());
    if k < all.len() {
        c.count("cut off");
    }
    if f == Fmt::Text {
        let mut want: Vec<(String, i64)> = vec![];
        if k < all.len() {
            want.push((format!("... and {} more.", all.len() - k), all[k..].iter().map(|x| x.1).sum()));
        }
        want.push((format!("Σ [{} Total Rows]", all.len()), all.iter().map(|x| x.1).sum()));
        if sums.len() != want.len() || sums.iter().zip(&want).any(|(a, b)| a.name != b.0) {
            return c.fail(ctx(format!("summaries {:?}, expected {:?}", sums, want)));
        }
        for (a, b) in sums.iter().zip(&want) {
            // Retained sizes overlap, so they are not summed up.
            if retained {
                if a.size.is_some() {
                    return c.fail(ctx(format!("retained sizes are summed up: {:?}", a)));
                }
            } else if a.size != Some(b.1) || !views::pct_ok(f, a.pct.unwrap(), b.1, g.total) {
                return c.fail(ctx(format!("summary {:?}, expected {:?}", a, b)));
            }
        }
    }
}
