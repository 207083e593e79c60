//! C10, C11, C16, C17: what the formats, limits and filters show.
use crate::ctx::Ctx;
use crate::graphgen::{self, GCfg};
use crate::names;
use crate::query::{self, lines, view, Line, Query, View};
use crate::rng::Rng;
use crate::sut::*;
use crate::views::{self, Node};
use crate::wasmgen;
use crate::Prop;
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub const C10: Prop = Prop {
    id: "C10",
    rule: "Random item graphs and wasm modules, random queries of all six analyses with random limits and filters; evaluation = one query run in text, JSON and CSV over one item set, all three read back and compared line by line (names, sizes, order, nesting, percentages) and in whether they fail. Non-trivial: at least two lines; distinct by items and query.",
    quick: 300_000,
    thorough: 4_000_000,
    run: c10,
    level: "exploration",
    cpu: 60,
    must: &["top", "dominators", "paths", "monos", "garbage", "diff", "lines compared", "with text", "hostile names", "wasm modules", "refused in every format"],
    mem: 6,
};
pub const C11: Prop = Prop {
    id: "C11",
    rule: "Item sets and wasm modules whose names hold any Unicode text, quotes, backslashes, control characters and line breaks, random queries of all six analyses; evaluation = one output parsed by a strict reader (RFC 8259 without duplicate keys; RFC 4180 with fixed header and field count; table columns) and its names looked up among the items' exact names. Non-trivial: a printed name with a character other than letters, digits, '_' and ':'; distinct by items, query and format.",
    quick: 300_000,
    thorough: 8_000_000,
    run: c11,
    level: "exploration",
    cpu: 60,
    must: &["top", "dominators", "paths", "monos", "garbage", "diff", "names with a quote", "names with a backslash", "names with a line break", "names with a control character", "names beyond the basic plane", "text tables", "wasm modules"],
    mem: 6,
};
pub const C16: Prop = Prop {
    id: "C16",
    rule: "Random item graphs and wasm modules, random queries; evaluation = one query run without and with random row, item, depth, path, group limits in one format, the limited result compared with the cut of the unlimited one. Non-trivial: something was cut; distinct by items and query.",
    quick: 300_000,
    thorough: 4_000_000,
    run: c16,
    level: "exploration",
    cpu: 60,
    must: &["top cut", "dominators cut by depth", "dominators cut by rows", "paths cut by depth", "paths cut by number", "monos cut", "garbage cut", "diff cut", "nothing shown under limit 0", "wasm modules", "a thousand items", "beyond 65536 items"],
    mem: 6,
};
pub const C17: Prop = Prop {
    id: "C17",
    rule: "Item graphs with repeated, similar and regex-like names, queries with names or expressions (valid, invalid, matching nothing, several); evaluation = one filtered query compared with the items that an independent selection picks. Non-trivial: something but not everything selected, or an invalid expression; distinct by items and query.",
    quick: 300_000,
    thorough: 4_000_000,
    run: c17,
    level: "exploration",
    cpu: 60,
    must: &["paths", "dominators", "monos", "diff", "selected by name", "selected by expression", "nothing selected", "invalid expression refused", "names that are no valid expression", "several items of one name"],
    mem: 6,
};

pub(super) fn subject(c: &mut Ctx, r: &mut Rng, cfg: &GCfg) -> Option<(Graph, Items)> {
    if r.chance(1, 8) {
        c.count("wasm modules");
        let w = wasmgen::Cfg { max_funcs: 8, max_other: 3, stmts: 4, hostile_names: cfg.hostile, ..Default::default() };
        let m = wasmgen::gen(r, &w);
        let it = match twiggy_parser::parse(&m.bytes) {
            Ok(i) => i,
            Err(e) => {
                c.fail(format!("valid module refused: {}", e));
                return None;
            }
        };
        match Graph::of(&it) {
            Ok(g) => Some((g, it)),
            Err(e) => {
                c.fail(e);
                None
            }
        }
    } else {
        let g = graphgen::gen(r, cfg);
        let it = graphgen::build(r, &g);
        Some((g, it))
    }
}
/// The other side of a diff: the same names, some with other sizes.
pub(super) fn other(r: &mut Rng, g: &Graph) -> Items {
    let mut h = g.clone();
    for z in h.size.iter_mut() {
        if r.bool() {
            *z = z.saturating_sub(r.below(40) as u32);
        }
    }
    // differences of any magnitude
    if r.chance(1, 4) && g.n() > 0 {
        let room = u64::from(u32::MAX) - h.size.iter().map(|&z| u64::from(z)).sum::<u64>();
        let k = r.below(g.n());
        h.size[k] += (r.u64() % (room + 1)) as u32;
        h.total = h.size.iter().sum::<u32>().max(1);
    }
    graphgen::build(r, &h)
}

/// Whether the names can be told apart from the table's own characters.
fn plain_text(g: &Graph) -> bool {
    g.name.iter().all(|n| !n.starts_with(' ') && !n.contains('\n') && !n.contains(" ┊ ") && !n.starts_with("... and ") && !n.starts_with('[') && !n.contains("potential false"))
}
pub(super) fn edges(g: &Graph) -> usize {
    g.succ.iter().map(|x| x.len()).sum()
}

/// Random limits for a query.
pub(super) fn limits(r: &mut Rng, q: &mut Query, n: usize, dense: bool, long: bool) {
    let mut num = |r: &mut Rng| -> u32 {
        match r.below(5) {
            0 => 0,
            1 => 1,
            2 => *r.pick(&[u32::MAX, u32::MAX, 256, 65_536, 1 << 31]),
            _ => r.below(n + 2) as u32,
        }
    };
    let keys: &[&str] = match q.sub {
        "dominators" => &["-d", "-r"],
        "paths" => &["-d", "-r"],
        "monos" => &["-m", "-n"],
        _ => &["-n"],
    };
    for k in keys {
        if r.bool() {
            let v = num(r);
            if q.sub == "paths" && *k == "-d" {
                continue;
            }
            q.flags.extend([k.to_string(), v.to_string()]);
        }
    }
    if q.sub == "paths" {
        let d = if n > 110 { r.below(2) } else if dense { r.below(4) } else { *r.pick(&[0, 1, 2, 3, 5, if long { 100 } else { 12 }]) };
        q.flags.extend(["-d".to_string(), d.to_string()]);
    }
}

fn c10(c: &mut Ctx) {
    let mut r = c.rng(10);
    let hostile = r.chance(1, 3);
    let wide = if !hostile && r.chance(1, 1000) { 1000 } else { 0 };
    let cfg = GCfg { max_n: 16, dup: if r.chance(1, 4) { 20 } else { 0 }, hostile, generics: r.bool(), wide, ..Default::default() };
    let (g, mut items) = match subject(c, &mut r, &cfg) {
        Some(x) => x,
        None => return,
    };
    let text = plain_text(&g);
    if !text {
        c.count("hostile names");
    } else {
        c.count("with text");
    }
    let mut new = other(&mut r, &g);
    let dense = edges(&g) > g.n() * 2;
    for _ in 0..2 {
        let sub = *r.pick(&query::SUBS);
        c.count(sub);
        let filter = r.chance(1, 3);
        let mut q = query::gen(&mut r, sub, &g.name, filter);
        limits(&mut r, &mut q, g.n(), dense, edges(&g) <= g.n() + 3);
        if q.regex && r.chance(1, 6) {
            q.names.push("(".into());
        }
        let o = q.options();
        let ctx = |m: String| format!("{} ({} {:?}) on {} named {:?}", m, sub, q.args(), graphgen::describe(&g), g.name);
        let mut order = FMTS;
        r.shuffle(&mut order);
        let mut res: HashMap<&str, Result<String, String>> = HashMap::new();
        for f in order {
            res.insert(f.name(), run_fmt(&mut items, Some(&mut new), &o, f));
        }
        let bad = res.values().filter(|x| x.is_err()).count();
        if bad == 3 {
            c.count("refused in every format");
            if !q.regex {
                return c.fail(ctx(format!("refused: {:?}", res["json"])));
            }
            continue;
        }
        if bad > 0 {
            return c.fail(ctx(format!("succeeds in some formats only: {:?}", res)));
        }
        let mut vs: HashMap<&str, Vec<Line>> = HashMap::new();
        let mut joined: Vec<Vec<String>> = vec![];
        for f in FMTS {
            if f == Fmt::Text && !text {
                continue;
            }
            let out = res[f.name()].as_ref().unwrap();
            let v = match view(&q, out, f) {
                Ok(v) => v,
                Err(e) => return c.fail(ctx(format!("{}: {}\n{}", f.name(), e, out))),
            };
            let l = lines(&v);
            for x in &l {
                for (z, p) in &x.pcts {
                    if !views::pct_ok(f, *p, *z, g.total) {
                        return c.fail(ctx(format!("{}: {:?} shows {}% for {} of {}", f.name(), x.name, p, z, g.total)));
                    }
                }
            }
            if let View::Monos(m) = &v {
                if f == Fmt::Csv {
                    joined.push(m.iter().map(|x| x.joined.clone().unwrap()).collect());
                } else {
                    joined.push(m.iter().map(|x| x.insts.iter().map(|i| i.name.as_str()).collect::<Vec<_>>().join(", ")).collect());
                }
            }
            vs.insert(f.name(), l);
        }
        if joined.windows(2).any(|w| w[0] != w[1]) {
            return c.fail(ctx(format!("instantiations listed differ: {:?}", joined)));
        }
        // JSON shows everything; reduce it to what the others show
        let j = &vs["json"];
        c.add("lines compared", j.len() as u64);
        if j.len() >= 2 {
            c.eval(format!("{}{:?}{:?}{:?}", graphgen::describe(&g), g.name, sub, q.args()).as_bytes());
            c.sample(|| format!("{} {:?}: {}", sub, q.args(), graphgen::describe(&g)));
        } else {
            c.eval_trivial();
        }
        type Key = (Option<usize>, String, Option<i64>, Option<i64>);
        let key = |l: &[Line], depth: bool, size: &dyn Fn(&Line) -> bool| -> Vec<Key> { l.iter().map(|x| (if depth { Some(x.depth) } else { None }, x.name.clone(), if size(x) { x.size } else { None }, x.ret)).collect() };
        let cs = &vs["csv"];
        let want: Vec<Key>;
        let got: Vec<Key>;
        match sub {
            "monos" => {
                // one record per group
                let top: Vec<Line> = j.iter().filter(|x| x.depth == 0).cloned().collect();
                want = key(&top, false, &|_| true);
                got = key(cs, false, &|_| true);
            }
            "paths" => {
                want = key(j, false, &|_| true);
                got = key(cs, false, &|_| true);
            }
            "dominators" => {
                let whole = q.whole();
                want = key(j, whole, &|_| true);
                got = key(cs, whole, &|_| true);
            }
            _ => {
                want = key(j, true, &|_| true);
                got = key(cs, true, &|_| true);
            }
        }
        if want != got {
            return c.fail(ctx(format!("JSON lists {:?}, CSV {:?}", want, got)));
        }
        if let Some(t) = vs.get("text") {
            let sz: Box<dyn Fn(&Line) -> bool> = match sub {
                "dominators" => Box::new(|_| false),
                "paths" => Box::new(|x| x.depth == 0),
                "top" => {
                    let ret = q.retained;
                    Box::new(move |_| !ret)
                }
                _ => Box::new(|_| true),
            };
            let want = key(j, true, &*sz);
            let got = key(t, true, &*sz);
            if want != got {
                return c.fail(ctx(format!("JSON lists {:?}, text {:?}", want, got)));
            }
        }
    }
}

fn c11(c: &mut Ctx) {
    let mut r = c.rng(11);
    let cfg = GCfg { max_n: 12, dup: if r.chance(1, 4) { 20 } else { 0 }, hostile: true, generics: r.chance(1, 3), ..Default::default() };
    let (g, mut items) = match subject(c, &mut r, &cfg) {
        Some(x) => x,
        None => return,
    };
    let mut new = other(&mut r, &g);
    let has = |p: &dyn Fn(char) -> bool| g.name.iter().any(|n| n.chars().any(p));
    for (what, y) in [
        ("names with a quote", has(&|x| x == '"')),
        ("names with a backslash", has(&|x| x == '\\')),
        ("names with a line break", has(&|x| x == '\n' || x == '\r')),
        ("names with a control character", has(&|x| x.is_control() && x != '\n' && x != '\r')),
        ("names beyond the basic plane", has(&|x| x as u32 > 0xffff)),
    ] {
        if y {
            c.count(what);
        }
    }
    let dense = edges(&g) > g.n() * 2;
    let names: BTreeSet<&str> = g.name.iter().map(|s| s.as_str()).collect();
    let gens: BTreeSet<&str> = g.generic.iter().flatten().map(|s| s.as_str()).collect();
    for _ in 0..2 {
        let sub = *r.pick(&query::SUBS);
        c.count(sub);
        let filter = r.chance(1, 4);
        let mut q = query::gen(&mut r, sub, &g.name, filter);
        if r.bool() || sub == "paths" {
            limits(&mut r, &mut q, g.n(), dense, edges(&g) <= g.n() + 3);
        }
        let o = q.options();
        for f in FMTS {
            if f == Fmt::Text && g.name.iter().any(|n| n.contains('\n')) {
                continue;
            }
            let ctx = |m: String| format!("{} ({} {:?}, {}) with names {:?}", m, sub, q.args(), f.name(), g.name);
            let out = match run_fmt(&mut items, Some(&mut new), &o, f) {
                Ok(t) => t,
                Err(e) => return c.fail(ctx(format!("failed: {}", e))),
            };
            if has(&|x| !x.is_ascii_alphanumeric() && x != '_' && x != ':') {
                c.eval(format!("{:?}{:?}{:?}{:?}", g.name, sub, q.args(), f).as_bytes());
                c.sample(|| format!("{} {:?} {} with names {:?}", sub, q.args(), f.name(), g.name));
            } else {
                c.eval_trivial();
            }
            if f == Fmt::Text {
                // columns only: a name may look like anything else
                c.count("text tables");
                let cols = match sub {
                    "diff" => 2,
                    "monos" => 5,
                    _ => 3,
                };
                match crate::tab::table(&out, cols) {
                    Ok(t) => {
                        if sub == "top" {
                            let l: Vec<&str> = t.rows.iter().map(|x| x[2].as_str()).collect();
                            let k = l.iter().filter(|x| names.contains(*x)).count();
                            if k + 2 < l.len() {
                                return c.fail(ctx(format!("text shows names that no item has: {:?}", l)));
                            }
                        }
                    }
                    Err(e) => return c.fail(ctx(format!("{}\n{}", e, out))),
                }
                continue;
            }
            let v = match view(&q, &out, f) {
                Ok(v) => v,
                Err(e) => return c.fail(ctx(format!("{}\n{}", e, out))),
            };
            let l = lines(&v);
            let label = |n: &str| n.starts_with("... and ") || n.starts_with("Σ [") || n.contains("potential false-positive data") || n.starts_with("summary [");
            for (i, x) in l.iter().enumerate() {
                let known = match sub {
                    "monos" if x.depth == 0 => gens.contains(x.name.as_str()),
                    _ => names.contains(x.name.as_str()),
                };
                // summary rows come last, or last among instantiations
                if !known && !(label(&x.name) && (i + 3 >= l.len() || (sub == "monos" && l[i + 1].depth == 0))) {
                    return c.fail(ctx(format!("{:?} is the name of no item\n{}", x.name, out)));
                }
            }
            if sub == "top" && !q.flags.iter().any(|x| x == "-n") {
                let mut got: Vec<&str> = l.iter().map(|x| x.name.as_str()).collect();
                let mut want: Vec<&str> = g.name.iter().map(|x| x.as_str()).collect();
                got.sort_unstable();
                want.sort_unstable();
                if got != want {
                    return c.fail(ctx(format!("names read back as {:?}", got)));
                }
            }
        }
    }
}

fn prune(f: &[Node], depth: usize, max: usize, keep: usize) -> Vec<Node> {
    f.iter()
        .take(keep)
        .map(|n| {
            let mut m = n.clone();
            m.kids = if depth < max { prune(&n.kids, depth + 1, max, keep) } else { vec![] };
            m
        })
        .collect()
}

fn c16(c: &mut Ctx) {
    let mut r = c.rng(16);
    let wide = if r.chance(1, 20_000) { 66_000 } else if r.chance(1, 250) { 1200 } else { 0 };
    let cfg = GCfg { max_n: 14, dup: if r.chance(1, 5) { 20 } else { 0 }, generics: r.bool(), wide, ..Default::default() };
    let (g, mut items) = match subject(c, &mut r, &cfg) {
        Some(x) => x,
        None => return,
    };
    if !plain_text(&g) {
        c.eval_trivial();
        return;
    }
    let mut new = other(&mut r, &g);
    if g.n() > 1000 {
        c.count(if g.n() > 1 << 16 { "beyond 65536 items" } else { "a thousand items" });
    }
    let sub = *r.pick(&query::SUBS);
    let filter = r.chance(1, 3);
    let q = query::gen(&mut r, sub, &g.name, filter);
    let f = *r.pick(&FMTS);
    let dense = edges(&g) > g.n() * 2;
    // "unlimited" paths still need a depth on dense graphs
    let top_d: u32 = if g.n() > 110 { 1 } else if dense { 4 } else if edges(&g) <= g.n() + 3 && r.chance(1, 3) { 80 } else { 1 + r.below(14) as u32 };
    let all = match sub {
        "paths" => q.with(&[("-d", top_d), ("-r", u32::MAX)]),
        "monos" => q.with(&[("-m", u32::MAX), ("-n", u32::MAX)]),
        "garbage" | "diff" => q.with(&[("-n", u32::MAX)]),
        _ => q.clone(),
    };
    let n = g.n();
    let num = |r: &mut Rng| -> usize {
        // of many rows, some few or nearly all
        if n > 60 && r.chance(2, 3) {
            return match r.below(4) {
                0 => n - r.below(4),
                1 => (*r.pick(&[64usize, 100, 128, 250, 256, 500, 512, 1000, 1024, 2000]) + r.below(3)).saturating_sub(1),
                _ => r.below(n + 2),
            };
        }
        *r.pick(&[0usize, 0, 1, 1, 2, 3, 4, 6, 10, 100, 256, 65_536, 1 << 31, u32::MAX as usize])
    };
    let (mut a, mut b) = (usize::MAX, usize::MAX);
    let small = match sub {
        "paths" => {
            a = r.below(top_d as usize + 1);
            b = num(&mut r);
            if r.chance(1, 4) {
                b = u32::MAX as usize;
            }
            q.with(&[("-d", a as u32), ("-r", b as u32)])
        }
        "dominators" => {
            let mut w = vec![];
            if r.chance(2, 3) {
                a = num(&mut r);
                w.push(("-d", a as u32));
            }
            if r.chance(2, 3) || w.is_empty() {
                b = num(&mut r);
                w.push(("-r", b as u32));
            }
            r.shuffle(&mut w);
            q.with(&w)
        }
        "monos" => {
            a = num(&mut r);
            b = num(&mut r);
            q.with(&[("-m", a as u32), ("-n", b as u32)])
        }
        _ => {
            a = num(&mut r);
            q.with(&[("-n", a as u32)])
        }
    };
    let ctx = |m: String| format!("{} ({} {:?} against {:?}, {}) on {} named {:?}", m, sub, small.args(), all.args(), f.name(), graphgen::describe(&g), g.name);
    // either may come first
    let small_first = r.bool();
    let mut outs = [String::new(), String::new()];
    for k in 0..2 {
        let is_small = (k == 0) == small_first;
        let o = if is_small { small.options() } else { all.options() };
        match run_fmt(&mut items, Some(&mut new), &o, f) {
            Ok(t) => outs[usize::from(is_small)] = t,
            Err(e) => return c.fail(ctx(format!("failed: {}", e))),
        }
    }
    let (va, vs) = match (view(&all, &outs[0], f), view(&small, &outs[1], f)) {
        (Ok(x), Ok(y)) => (x, y),
        (Err(e), _) | (_, Err(e)) => return c.fail(ctx(e)),
    };
    let mut cut = false;
    let res: Result<(), String> = (|| {
        match (&va, &vs) {
            (View::Top(x, sx), View::Top(y, sy)) => {
                let k = a.min(x.len());
                cut = k < x.len();
                if y[..] != x[..k] {
                    return Err(format!("shows {:?}, expected {:?}", y, &x[..k]));
                }
                if f == Fmt::Text && sx.last() != sy.last() {
                    return Err(format!("the total depends on the limit: {:?} and {:?}", sx.last(), sy.last()));
                }
            }
            (View::Rows(x), View::Rows(y)) => {
                // summaries: unlimited has no remainder
                let s = x.iter().rposition(|l| l.name.starts_with("Σ [")).ok_or("no total")?;
                let t = y.iter().rposition(|l| l.name.starts_with("Σ [")).ok_or("no total")?;
                let k = a.min(s);
                cut = k < s;
                let more = usize::from(cut);
                if t != k + more || y[..k] != x[..k] || x[s..] != y[t..] {
                    return Err(format!("shows {:?}, expected the first {} and the totals of {:?}", y, k, x));
                }
                if cut {
                    let rest: i64 = x[k..s].iter().map(|l| l.size.unwrap()).sum();
                    let n = s - k;
                    if y[k].size != Some(rest) || !y[k].name.starts_with(&format!("... and {} more", n)) {
                        return Err(format!("remainder {:?}, expected {} rows with {}", y[k], n, rest));
                    }
                }
            }
            (View::Monos(x), View::Monos(y)) => {
                let s = x.len() - 1;
                let k = a.min(s);
                cut = k < s;
                if y.len() != k + 1 + usize::from(cut) {
                    return Err(format!("{} groups and summaries, expected {} of {}", y.len(), k, s));
                }
                for i in 0..k {
                    let (p, l) = (&x[i], &y[i]);
                    if (&p.name, p.size, p.bloat) != (&l.name, l.size, l.bloat) {
                        return Err(format!("group {} is {:?}, expected {:?}", i, l, p));
                    }
                    if f == Fmt::Csv {
                        let (pj, lj) = (p.joined.as_ref().unwrap(), l.joined.as_ref().unwrap());
                        let head = match lj.rfind("... and ") {
                            Some(e) => &lj[..e],
                            None => lj,
                        };
                        if !pj.starts_with(head) || (head.len() == lj.len() && lj != pj) {
                            return Err(format!("group {} lists {:?} of {:?}", i, lj, pj));
                        }
                        if head.len() < lj.len() {
                            cut = true;
                        }
                        continue;
                    }
                    let m = b.min(p.insts.len());
                    let more = m < p.insts.len();
                    cut |= more;
                    if l.insts.len() != m + usize::from(more) || l.insts[..m] != p.insts[..m] {
                        return Err(format!("group {} lists {:?} of {:?}", i, l.insts, p.insts));
                    }
                    if more && l.insts[m].size != Some(p.insts[m..].iter().map(|z| z.size.unwrap()).sum()) {
                        return Err(format!("group {}: remainder {:?} of {:?}", i, l.insts[m], p.insts));
                    }
                }
                if k < s {
                    let rest = (x[k..s].iter().map(|z| z.size).sum::<i64>(), x[k..s].iter().map(|z| z.bloat).sum::<i64>());
                    let l = &y[k];
                    if !(l.name.starts_with("... and ") && l.name.ends_with(" more.")) || (l.size, l.bloat) != rest {
                        return Err(format!("remainder {:?}, expected {:?}", l, rest));
                    }
                }
                let (p, l) = (&x[s], &y[y.len() - 1]);
                if (p.size, p.bloat) != (l.size, l.bloat) {
                    return Err(format!("the totals depend on the limit: {:?} and {:?}", p, l));
                }
            }
            (View::Doms(x), View::Doms(y)) => {
                let flat = |d: &views::Doms| -> Vec<(usize, Node)> {
                    views::forest_rows(&d.trees)
                        .into_iter()
                        .map(|(k, n)| {
                            let mut m = n.clone();
                            m.kids = vec![];
                            (k, m)
                        })
                        .collect()
                };
                let mut fx = flat(x);
                if f == Fmt::Csv && !q.whole() {
                    // CSV nesting is read off identifiers, which overlap when one
                    // selected item lies beneath another: take it from JSON
                    let out = run_fmt(&mut items, None, &all.options(), Fmt::Json)?;
                    let depths: Vec<usize> = views::forest_rows(&views::dominators(&out, Fmt::Json, false)?.trees).iter().map(|l| l.0).collect();
                    if depths.len() != fx.len() {
                        return Err("JSON and CSV list different numbers of items".into());
                    }
                    fx.iter_mut().zip(depths).for_each(|(l, d)| l.0 = d);
                }
                // top-level items are at depth 1
                let mut want: Vec<(usize, Node)> = fx.iter().filter(|l| l.0 < a).cloned().collect();
                if want.len() < fx.len() {
                    cut = true;
                    c.count("dominators cut by depth");
                }
                if b < want.len() {
                    want.truncate(b);
                    cut = true;
                    c.count("dominators cut by rows");
                }
                let mut got = flat(y);
                if f == Fmt::Csv && !q.whole() {
                    got.iter_mut().chain(want.iter_mut()).for_each(|l| l.0 = 0);
                }
                if got != want {
                    return Err(format!("shows {:?}, expected {:?}", got, want));
                }
                if x.unreachable != y.unreachable {
                    return Err("the summary of unreachable items depends on the limit".into());
                }
            }
            (View::Paths(x), View::Paths(y)) => {
                if f == Fmt::Csv {
                    // no nesting: take that from JSON, in preorder
                    let out = run_fmt(&mut items, None, &all.options(), Fmt::Json)?;
                    let tree = views::paths(&out, Fmt::Json, q.desc)?;
                    let mut want: Vec<(String, Option<i64>)> = vec![];
                    for n in &tree {
                        let mut m = n.clone();
                        m.kids = if a > 0 { prune(&n.kids, 1, a, b) } else { vec![] };
                        want.extend(views::forest_rows(&[m]).iter().map(|l| (l.1.name.clone(), l.1.size)));
                    }
                    let got: Vec<(String, Option<i64>)> = y.iter().map(|n| (n.name.clone(), n.size)).collect();
                    if got != want {
                        return Err(format!("shows {:?}, expected {:?}", got, want));
                    }
                    cut = x.len() > y.len();
                    return Ok(());
                }
                let want: Vec<Node> = x
                    .iter()
                    .map(|n| {
                        let mut m = n.clone();
                        m.kids = if a > 0 { prune(&n.kids, 1, a, b) } else { vec![] };
                        m
                    })
                    .collect();
                let (nx, nw) = (views::forest_rows(x).len(), views::forest_rows(&want).len());
                if nw < nx {
                    cut = true;
                    c.count(if b >= g.n() { "paths cut by depth" } else { "paths cut by number" });
                }
                if *y != want {
                    return Err(format!("shows {:?}, expected {:?}", y, want));
                }
            }
            _ => unreachable!(),
        }
        Ok(())
    })();
    if let Err(e) = res {
        return c.fail(ctx(e));
    }
    if a == 0 && lines(&vs).iter().all(|l| l.name.starts_with("Σ") || l.name.starts_with("...") || l.name.starts_with("summary")) {
        c.count("nothing shown under limit 0");
    }
    if cut {
        if sub != "dominators" && sub != "paths" {
            c.count(&format!("{} cut", sub));
        }
        c.eval(format!("{}{:?}{:?}{:?}{:?}", graphgen::describe(&g), g.name, sub, small.args(), f).as_bytes());
        c.sample(|| format!("{} {:?} against {:?}: {}", sub, small.args(), all.args(), graphgen::describe(&g)));
    } else {
        c.eval_trivial();
    }
}

/// Expressions with the set of names they match, decided without an engine.
/// An expression put together from pieces; what it matches is what an
/// expression of its own, without any other around it, says.
fn free_expression(r: &mut Rng, n: &str) -> (String, Box<dyn Fn(&str) -> bool>) {
    let cs: Vec<char> = n.chars().collect();
    let mut e = String::new();
    for k in 0..r.range(1, 6) {
        let a = if cs.is_empty() { 0 } else { r.below(cs.len()) };
        let b = if cs.is_empty() { 0 } else { r.range(a, (a + 3).min(cs.len())) };
        let some = super::graph::regex_escape(&cs[a..b].iter().collect::<String>());
        let piece = match r.below(12) {
            0 => r.pick(&["^", "$", "\\b", "\\A", "\\z", "\\B"]).to_string(),
            1 => r.pick(&[".", ".*", ".+?", ".?", "(?s:.)", "\\n"]).to_string(),
            2 => r.pick(&["\\w", "\\W", "\\d", "\\s", "\\w+", "[[:alpha:]]", "\\pL", "\\PL", "[^a-z]", "\\x{3a3}"]).to_string(),
            3 => format!("(?:{}|x)", some),
            4 => format!("({})", some),
            5 => format!("(?:{}){}", some, r.pick(&["*", "+", "?", "{2}", "{0,3}", "*?"])),
            6 => format!("(?i:{})", some),
            7 if k == 0 => r.pick(&["(?i)", "(?m)", "(?s)", "(?x)", "(?U)"]).to_string(),
            8 => "|".into(),
            _ => some,
        };
        e.push_str(&piece);
    }
    match regex::Regex::new(&e) {
        Ok(x) => (e, Box::new(move |s| x.is_match(s))),
        Err(_) => (String::new(), Box::new(|_| true)),
    }
}

fn expression(r: &mut Rng, names: &[String]) -> (String, Box<dyn Fn(&str) -> bool>) {
    let esc = super::graph::regex_escape;
    let n = if names.is_empty() { "x".to_string() } else { r.pick(names).clone() };
    let cs: Vec<char> = n.chars().collect();
    let cutat = r.below(cs.len() + 1);
    let part: String = cs[..cutat].iter().collect();
    let tail: String = cs[cutat..].iter().collect();
    let line: String = n.lines().next().unwrap_or("").to_string();
    match r.below(14) {
        9 => (format!("(?m)^{}$", esc(&line)), Box::new(move |x| x.split('\n').any(|l| l == line))),
        10 => (format!("(?s)^{}.*$", esc(&part)), Box::new(move |x| x.starts_with(part.as_str()))),
        11 if n.is_ascii() => (format!("(?i-u:^{}$)", esc(&n)), Box::new(move |x| x.eq_ignore_ascii_case(&n))),
        11..=13 => free_expression(r, &n),
        0 => (format!("^{}$", esc(&n)), Box::new(move |x| x == n)),
        1 => (esc(&n), Box::new(move |x| x.contains(n.as_str()))),
        2 => (format!("^{}", esc(&part)), Box::new(move |x| x.starts_with(part.as_str()))),
        3 => (format!("{}$", esc(&tail)), Box::new(move |x| x.ends_with(tail.as_str()))),
        4 => (String::new(), Box::new(|_| true)),
        5 => ("^$".into(), Box::new(|x| x.is_empty())),
        6 => ("[0-9]".into(), Box::new(|x| x.bytes().any(|b| b.is_ascii_digit()))),
        7 => (format!("^(?:{}|no such item)$", esc(&n)), Box::new(move |x| x == n)),
        _ => (format!("^{}.*$", esc(&part)), Box::new(move |x| x.starts_with(part.as_str()) && !x[part.len()..].contains('\n'))),
    }
}

fn c17(c: &mut Ctx) {
    let mut r = c.rng(17);
    let cfg = GCfg { max_n: 12, dup: 15, generics: r.bool(), ..Default::default() };
    let mut g = graphgen::gen(&mut r, &cfg);
    // names that only differ a little, and that look like expressions
    for i in 0..g.n() {
        if g.generic[i].is_none() && r.chance(1, 3) {
            g.name[i] = match r.below(5) {
                4 => {
                    let a = g.name[r.below(g.n())].clone();
                    format!("{}{}{}", a, r.pick(&["\n", "\n", "\t", "\r\n", "é", " "]), g.name[r.below(g.n())])
                }
                0 => query::odd_name(&mut r),
                1 => format!("{}{}", g.name[r.below(g.n())], r.pick(&["", "x", " ", "$"])),
                2 => g.name[r.below(g.n())].chars().rev().skip(1).collect::<Vec<_>>().into_iter().rev().collect(),
                _ => g.name[r.below(g.n())].to_uppercase(),
            };
            if g.code[i] {
                g.generic[i] = graphgen::recognise(&g.name[i]);
            }
        }
        if g.name[i].starts_with('_') || g.name[i].starts_with('R') || g.name[i].starts_with('Z') || g.name[i].starts_with("<meta") {
            g.name[i].insert(0, 'n');
            if g.code[i] {
                g.generic[i] = graphgen::recognise(&g.name[i]);
            }
        }
    }
    for i in 0..g.n() {
        g.generic[i] = if g.code[i] { graphgen::recognise(&g.name[i]) } else { None };
    }
    let mut items = graphgen::build(&mut r, &g);
    let mut new = {
        let mut h = g.clone();
        for z in h.size.iter_mut() {
            *z /= 2;
        }
        graphgen::build(&mut r, &h)
    };
    if g.name.iter().collect::<BTreeSet<_>>().len() < g.n() {
        c.count("several items of one name");
    }
    let sub = *r.pick(&["paths", "dominators", "monos", "diff"]);
    c.count(sub);
    // what the filter is applied to
    let subjects: Vec<String> = match sub {
        "monos" => g.generic.iter().flatten().cloned().collect(),
        _ => g.name.clone(),
    };
    let mut q = Query { sub, flags: vec![], names: vec![], retained: false, desc: r.bool(), regex: r.bool() };
    if sub == "paths" {
        if q.desc {
            q.flags.push("--descending".into());
        }
        q.flags.extend(["-d".to_string(), "0".to_string()]);
    }
    let mut preds: Vec<Box<dyn Fn(&str) -> bool>> = vec![];
    let mut invalid = false;
    for _ in 0..r.range(1, 3) {
        if q.regex {
            let (e, p) = expression(&mut r, &subjects);
            q.names.push(e);
            preds.push(p);
        } else {
            let n = match r.below(6) {
                0 => "no such item".to_string(),
                1 => query::odd_name(&mut r),
                2 => r.pick(&[".*", "^", "(", "[a-z]+", "\\", "*", "<meta root>", ""]).to_string(),
                _ if subjects.is_empty() => "x".into(),
                _ => r.pick(&subjects).clone(),
            };
            if q.names.contains(&n) {
                continue;
            }
            q.names.push(n.clone());
            preds.push(Box::new(move |x| x == n));
        }
    }
    if q.regex && r.chance(1, 6) {
        invalid = true;
        let k = r.below(q.names.len() + 1);
        q.names.insert(k, r.pick(&["(", "[", "*", "a{2,1}", "(?P<x", "\\", "[z-a]", "(?<", "+"]).to_string());
    }
    if !q.regex && q.names.iter().any(|n| regex::Regex::new(n).is_err()) {
        c.count("names that are no valid expression");
    }
    // no limits otherwise
    match sub {
        "monos" => q.flags.push("-a".into()),
        "diff" => q.flags.push("--all".into()),
        _ => {}
    }
    let f = *r.pick(&[Fmt::Json, Fmt::Csv]);
    let ctx = |m: String| format!("{} ({} {:?}, {}) on {} named {:?}", m, sub, q.args(), f.name(), graphgen::describe(&g), g.name);
    let o = q.options();
    let out = run_fmt(&mut items, Some(&mut new), &o, f);
    let picked: Vec<bool> = subjects.iter().map(|n| preds.iter().any(|p| p(n))).collect();
    let content = format!("{:?}{:?}{:?}{:?}", g.name, sub, q.args(), f);
    if invalid {
        c.eval(content.as_bytes());
        match out {
            Err(_) => c.count("invalid expression refused"),
            Ok(t) => c.fail(ctx(format!("an invalid expression was accepted:\n{}", t))),
        }
        return;
    }
    let out = match out {
        Ok(t) => t,
        Err(e) => return c.fail(ctx(format!("refused: {}", e))),
    };
    if picked.iter().any(|&x| x) {
        c.count(if q.regex { "selected by expression" } else { "selected by name" });
        if picked.iter().all(|&x| x) {
            c.eval_trivial();
        } else {
            c.eval(content.as_bytes());
            c.sample(|| format!("{} {:?} on names {:?}", sub, q.args(), g.name));
        }
    } else {
        c.count("nothing selected");
        c.eval_trivial();
    }
    let v = match view(&q, &out, f) {
        Ok(v) => v,
        Err(e) => return c.fail(ctx(format!("{}\n{}", e, out))),
    };
    let mut got: Vec<(String, i64)>;
    let mut want: Vec<(String, i64)> = vec![];
    match &v {
        View::Paths(p) => {
            got = p.iter().map(|n| (n.name.clone(), n.size.unwrap())).collect();
            want.extend((0..g.n()).filter(|&i| picked[i]).map(|i| (g.name[i].clone(), i64::from(g.size[i]))));
        }
        View::Doms(d) => {
            // every selected item with its subtree
            let dom = g.dominance();
            let mut kids: Vec<Vec<usize>> = vec![vec![]; g.n()];
            for i in 0..g.n() {
                if let Some(p) = dom.idom[i] {
                    if dom.reach[i] {
                        kids[p].push(i);
                    }
                }
            }
            fn sub(v: usize, kids: &[Vec<usize>], o: &mut Vec<usize>) {
                o.push(v);
                for &k in &kids[v] {
                    sub(k, kids, o);
                }
            }
            let mut all = vec![];
            for i in (0..g.n()).filter(|&i| picked[i]) {
                sub(i, &kids, &mut all);
            }
            want.extend(all.iter().map(|&i| (g.name[i].clone(), dom.retained[i] as i64)));
            got = views::forest_rows(&d.trees).iter().map(|(_, n)| (n.name.clone(), n.ret.unwrap().0)).collect();
            if f == Fmt::Json {
                let mut a: Vec<(String, i64)> = d.trees.iter().map(|n| (n.name.clone(), n.ret.unwrap().0)).collect();
                let mut b: Vec<(String, i64)> = (0..g.n()).filter(|&i| picked[i]).map(|i| (g.name[i].clone(), dom.retained[i] as i64)).collect();
                a.sort();
                b.sort();
                if a != b {
                    return c.fail(ctx(format!("starts from {:?}, expected {:?}", a, b)));
                }
            }
        }
        View::Monos(m) => {
            got = m[..m.len() - 1].iter().map(|x| (x.name.clone(), x.size)).collect();
            let mut t: BTreeMap<&str, i64> = BTreeMap::new();
            for i in 0..g.n() {
                if let Some(n) = &g.generic[i] {
                    if preds.iter().any(|p| p(n)) {
                        *t.entry(n).or_insert(0) += i64::from(g.size[i]);
                    }
                }
            }
            want.extend(t.into_iter().map(|(a, b)| (a.to_string(), b)));
        }
        View::Rows(x) => {
            got = x[..x.len() - 1].iter().map(|l| (l.name.clone(), l.size.unwrap())).collect();
            let mut t: BTreeMap<&str, i64> = BTreeMap::new();
            for i in 0..g.n() {
                if picked[i] {
                    *t.entry(&g.name[i]).or_insert(0) += i64::from(g.size[i] / 2) - i64::from(g.size[i]);
                }
            }
            want.extend(t.into_iter().filter(|x| x.1 != 0).map(|(a, b)| (a.to_string(), b)));
        }
        _ => unreachable!(),
    }
    got.sort();
    want.sort();
    if got != want {
        return c.fail(ctx(format!("selected {:?}, expected {:?}", got, want)));
    }
    let _ = names::ident(&mut r);
}
