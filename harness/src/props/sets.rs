//! C08 monos, C09 diff, C21 demangling and generics.
use crate::ctx::Ctx;
use crate::graphgen;
use crate::names;
use crate::rng::Rng;
use crate::sut::*;
use crate::syms::{self, Sym};
use crate::views::{self, Row};
use crate::wasmgen;
use crate::Prop;
use std::collections::{BTreeMap, HashMap, HashSet};
use twiggy_ir as ir;

pub const C08: Prop = Prop {
    id: "C08",
    rule: "Random sets of functions (Rust and C++ symbols and plain names known to be or not to be instantiations, with equal names and sizes) as item sets and as wasm modules, random limits, switches and filters, every format; evaluation = one monos report compared with groups computed from the construction. Non-trivial: a group of two or more; distinct by items and options.",
    quick: 300_000,
    thorough: 5_000_000,
    run: c08,
    level: "exploration",
    cpu: 60,
    must: &["beyond 65536 instantiations", "groups", "generics cut off", "instantiations cut off", "equal instantiations", "only generics", "filtered by name", "filtered by expression", "format csv", "format text", "format json", "wasm modules"],
    mem: 6,
};
pub const C09: Prop = Prop {
    id: "C09",
    rule: "Random pairs of item sets and of wasm modules (equal, edited copies, unrelated; repeated names), random limits and filters, every format; evaluation = one diff compared with per-name size sums, with the swapped diff and the self-diff. Non-trivial: at least one name differs; distinct by both sides and options.",
    quick: 300_000,
    thorough: 4_000_000,
    run: c09,
    level: "exploration",
    cpu: 60,
    must: &["beyond 65536 names", "hundreds of names", "rows", "cut off", "filtered by name", "filtered by expression", "names that repeat", "self-diffs", "swapped diffs", "format csv", "format text", "format json", "wasm modules"],
    mem: 6,
};
pub const C21: Prop = Prop {
    id: "C21",
    rule: "Batches of names: Rust (legacy, v0) and C++ symbols generated together with their demangled form, ordinary names, and damaged or exotic symbols judged by the demangling libraries; read through items and through wasm name sections; evaluation = one name's displayed form and generic compared. Non-trivial: the name is a symbol or looks like an instantiation; distinct by name.",
    quick: 150_000,
    thorough: 10_000_000,
    run: c21,
    level: "exploration",
    cpu: 60,
    must: &["legacy Rust", "v0 Rust", "C++ template function", "ordinary", "damaged symbols shown unchanged", "damaged symbols demangled", "demangled forms of 2 to 32 KiB", "expansions beyond 32 KiB", "generics recognised", "wasm modules", "data items"],
    mem: 6,
};

fn s(x: &str) -> String {
    x.to_string()
}
fn opts(sub: &str, args: &[String]) -> Options {
    options(sub, args).unwrap_or_else(|e| panic!("options {:?} refused: {}", args, e))
}

struct Func {
    shown: String,
    generic: Option<String>,
    size: u32,
}

/// Functions with known generics, and the item set made of them.
fn functions(c: &mut Ctx, r: &mut Rng) -> Result<(Vec<Func>, Items, u32), String> {
    let many = r.chance(1, 250);
    let pool: Vec<String> = (0..if many { r.range(1, 3) } else { r.range(1, 6) }).map(|_| names::plain(r)).collect();
    let n = match r.below(8) {
        _ if many => {
            if r.chance(1, 60) {
                c.count("beyond 65536 instantiations");
                r.range(66_000, 70_000)
            } else {
                c.count("hundreds of instantiations");
                r.range(200, 1500)
            }
        }
        0 => r.below(3),
        1 => r.range(20, 60),
        _ => r.range(1, 16),
    };
    let mut l: Vec<Sym> = vec![];
    let style = r.below(4);
    for _ in 0..n {
        let k = if style == 0 { 3 } else if many { *r.pick(&[0, 3, 4]) } else { r.below(8) };
        let y = match k {
            0 | 1 => {
                let mut y = syms::known(r);
                // few generics, many instantiations
                if r.chance(1, 2) {
                    let g = r.pick(&pool).clone();
                    let h = format!("h{:016x}", r.u64());
                    let raw: String = g.split("::").map(|e| format!("{}{}", e.len(), e)).collect();
                    y = Sym { raw: format!("_ZN{}17{}E", raw, h), shown: format!("{}::{}", g, h), generic: Some(g), what: "" };
                }
                y
            }
            2 if !l.is_empty() => r.pick(&l).clone(),
            _ => {
                let (a, b) = graphgen::generic_name(r, &pool);
                Sym { raw: a.clone(), shown: a, generic: b, what: "" }
            }
        };
        l.push(y);
    }
    if r.chance(1, 6) && n > 0 {
        c.count("wasm modules");
        let cfg = wasmgen::Cfg { fn_names: l.iter().map(|y| y.raw.clone()).collect(), exact_funcs: Some(n), stmts: 3, max_other: 2, ..Default::default() };
        let m = wasmgen::gen(r, &cfg);
        let it = twiggy_parser::parse(&m.bytes).map_err(|e| e.to_string())?;
        let by: HashMap<&str, &Sym> = l.iter().map(|y| (y.raw.as_str(), y)).collect();
        let f = m
            .truth
            .items
            .iter()
            .filter(|i| i.kind == wasmgen::Kind::Code)
            .map(|i| match by.get(i.name.as_str()) {
                Some(y) => Func { shown: y.shown.clone(), generic: y.generic.clone(), size: i.size },
                None => Func { shown: i.name.clone(), generic: graphgen::recognise(&i.name), size: i.size },
            })
            .collect();
        return Ok((f, it, m.bytes.len() as u32));
    }
    let sizes = r.below(3);
    let mut f: Vec<Func> = vec![];
    for y in &l {
        let size = match sizes {
            0 => *r.pick(&[4u32, 8]),
            1 => r.skewed(3000) as u32,
            _ => r.below(if n > 5000 { 40_000 } else if many { 2_000_000 } else { 40_000_000 }) as u32,
        };
        f.push(Func { shown: y.shown.clone(), generic: y.generic.clone(), size });
    }
    let total = f.iter().map(|x| x.size).sum::<u32>().saturating_add(r.below(500) as u32).max(1);
    let mut b = ItemsBuilder::new(total);
    let mut k: Vec<usize> = (0..f.len()).collect();
    r.shuffle(&mut k);
    for (at, i) in k.into_iter().enumerate() {
        b.add_item(Item::new(Id::entry(0, at), l[i].raw.as_str(), f[i].size, ir::Code::new(&l[i].raw)));
    }
    // what is no function never counts
    for j in 0..r.below(3) {
        let (a, _) = graphgen::generic_name(r, &pool);
        let it = if r.bool() { Item::new(Id::entry(1, j), a, 0, ir::Misc::new()) } else { Item::new(Id::entry(1, j), a, 0, ir::Data::new(None)) };
        b.add_item(it);
    }
    Ok((f, b.finish(), total))
}

fn c08(c: &mut Ctx) {
    let mut r = c.rng(8);
    let (fs, mut items, total) = match functions(c, &mut r) {
        Ok(x) => x,
        Err(e) => return c.fail(e),
    };
    let mut args = vec![];
    let (mut maxg, mut maxm) = (10usize, 10usize);
    if r.chance(1, 2) {
        maxg = *r.pick(&[0, 1, 2, 3, 7, 256, 65_536, 1 << 31, u32::MAX as usize]);
        args.extend([s("-m"), maxg.to_string()]);
    }
    if r.chance(1, 2) {
        maxm = *r.pick(&[0, 1, 2, 3, 7, 256, 65_536, 1 << 31, u32::MAX as usize]);
        args.extend([s("-n"), maxm.to_string()]);
    }
    match r.below(8) {
        0 => {
            args.push(s(*r.pick(&["-a", "--all"])));
            maxg = usize::MAX;
            maxm = usize::MAX;
        }
        1 => {
            args.push(s("--all-generics"));
            maxg = usize::MAX;
        }
        2 => {
            args.push(s("--all-monos"));
            maxm = usize::MAX;
        }
        _ => {}
    }
    let only = r.chance(1, 5);
    if only {
        args.push(s(*r.pick(&["-g", "--only-generics"])));
        c.count("only generics");
    }
    // groups
    let mut gs: BTreeMap<&str, Vec<(String, i64)>> = BTreeMap::new();
    for f in &fs {
        if let Some(g) = &f.generic {
            gs.entry(g).or_default().push((f.shown.clone(), i64::from(f.size)));
        }
    }
    if !gs.is_empty() && r.chance(1, 3) {
        let all: Vec<&str> = gs.keys().copied().collect();
        let regex = r.bool();
        if regex {
            args.push(s("--regex"));
            c.count("filtered by expression");
        } else {
            c.count("filtered by name");
        }
        args.push(s("--"));
        let mut keep: HashSet<&str> = HashSet::new();
        for _ in 0..r.range(1, 3) {
            let k = *r.pick(&all);
            if regex {
                args.push(format!("^{}$", super::graph::regex_escape(k)));
            } else {
                args.push(s(k));
            }
            keep.insert(k);
        }
        gs.retain(|k, _| keep.contains(k));
    }
    let f = *r.pick(&FMTS);
    c.count(&format!("format {}", f.name()));
    let mut desc = String::new();
    for x in &fs {
        desc.push_str(&format!("{:?}={} ", x.shown, x.size));
    }
    let ctx = |m: String| format!("{} (monos {:?}, {}) on {}", m, args, f.name(), desc);
    if gs.values().any(|v| v.len() > 1) {
        c.eval(format!("{}{:?}{:?}", desc, args, f).as_bytes());
        c.sample(|| format!("monos {:?}: {}", args, desc));
    } else {
        c.eval_trivial();
    }
    struct G {
        name: String,
        insts: Vec<(String, i64)>,
        total: i64,
        bloat: i64,
    }
    let mut want: Vec<G> = gs
        .into_iter()
        .map(|(k, mut v)| {
            v.sort_by_key(|x| std::cmp::Reverse(x.1));
            let total: i64 = v.iter().map(|x| x.1).sum();
            let n = v.len() as i64;
            let bloat = (total - v[0].1).min(total / n * (n - 1));
            G { name: s(k), insts: v, total, bloat }
        })
        .collect();
    want.sort_by_key(|g| std::cmp::Reverse((g.bloat, g.total)));
    c.add("groups", want.len() as u64);
    if want.iter().any(|g| g.insts.windows(2).any(|w| w[0] == w[1])) {
        c.count("equal instantiations");
    }
    let o = opts("monos", &args);
    let out = match run_fmt(&mut items, None, &o, f) {
        Ok(t) => t,
        Err(e) => return c.fail(ctx(format!("monos failed: {}", e))),
    };
    let rows = match views::monos(&out, f) {
        Ok(v) => v,
        Err(e) => return c.fail(ctx(format!("{}\n{}", e, out))),
    };
    let k = maxg.min(want.len());
    let cut = want.len() > k;
    if rows.len() != k + 1 + usize::from(cut) {
        return c.fail(ctx(format!("{} groups and summaries, expected {} and {}\n{}", rows.len(), k, 1 + usize::from(cut), out)));
    }
    // rows a group takes in the full table
    let take = |g: &G| -> i64 {
        if only {
            1
        } else {
            1 + g.insts.len().min(maxm) as i64 + i64::from(g.insts.len() > maxm)
        }
    };
    let mut left: HashMap<&str, &G> = want.iter().map(|g| (g.name.as_str(), g)).collect();
    let mut shown_rows = 0;
    for (i, x) in rows[..k].iter().enumerate() {
        let g = match left.remove(x.name.as_str()) {
            Some(g) => g,
            None => return c.fail(ctx(format!("{:?} is no group or is listed twice", x.name))),
        };
        if (x.size, x.bloat) != (g.total, g.bloat) {
            return c.fail(ctx(format!("{:?} has total {} and bloat {}, expected {} and {}", x.name, x.size, x.bloat, g.total, g.bloat)));
        }
        if (x.bloat, x.size) != (want[i].bloat, want[i].total) {
            return c.fail(ctx(format!("{:?} is out of order at row {}", x.name, i)));
        }
        shown_rows += take(g);
        let lim = if only { 0 } else { maxm };
        let m = lim.min(g.insts.len());
        let more = !only && g.insts.len() > m;
        if more {
            c.count("instantiations cut off");
        }
        let rest = (format!("... and {} more.", g.insts.len() - m), g.insts[m..].iter().map(|x| x.1).sum::<i64>());
        if let Some(j) = &x.joined {
            // one column; the names in order, which only ties leave open
            let mut names: Vec<&str> = g.insts[..m].iter().map(|x| x.0.as_str()).collect();
            if more {
                names.push(&rest.0);
            }
            let ties = g.insts.windows(2).any(|w| w[0].1 == w[1].1);
            if !ties && *j != names.join(", ") {
                return c.fail(ctx(format!("{:?} lists {:?}, expected {:?}", x.name, j, names)));
            }
            if ties && j.len() != names.join(", ").len() && !more {
                return c.fail(ctx(format!("{:?} lists {:?}, expected {:?} in some order", x.name, j, names)));
            }
            if more && !j.ends_with(&rest.0) {
                return c.fail(ctx(format!("{:?} lists {:?} without {:?}", x.name, j, rest.0)));
            }
            continue;
        }
        if x.insts.len() != m + usize::from(more) {
            return c.fail(ctx(format!("{:?} lists {} instantiations, expected {}", x.name, x.insts.len(), m)));
        }
        let li: Vec<(String, i64)> = x.insts[..m].iter().map(|i| (i.name.clone(), i.size.unwrap())).collect();
        if let Err(e) = views::ranked(&li, &g.insts, lim) {
            return c.fail(ctx(format!("instantiations of {:?}: {}", x.name, e)));
        }
        if more && (x.insts[m].name != rest.0 || x.insts[m].size != Some(rest.1)) {
            return c.fail(ctx(format!("{:?}: remainder {:?}, expected {:?}", x.name, x.insts[m], rest)));
        }
        if let Some(i) = x.insts.iter().find(|i| !views::pct_ok(f, i.pct.unwrap(), i.size.unwrap(), total)) {
            return c.fail(ctx(format!("wrong percentage in {:?}", i)));
        }
    }
    if let Some(x) = rows.iter().find(|x| !views::pct_ok(f, x.pct, x.size, total) || !views::pct_ok(f, x.bloat_pct, x.bloat, total)) {
        return c.fail(ctx(format!("wrong percentage in {:?} of {}", x, total)));
    }
    let all_rows: i64 = want.iter().map(take).sum();
    let mut sums = vec![];
    if cut {
        c.count("generics cut off");
        sums.push((format!("... and {} more.", all_rows - shown_rows), want[k..].iter().map(|g| g.total).sum::<i64>(), want[k..].iter().map(|g| g.bloat).sum::<i64>()));
    }
    sums.push((format!("Σ [{} Total Rows]", all_rows), want.iter().map(|g| g.total).sum(), want.iter().map(|g| g.bloat).sum()));
    let got: Vec<_> = rows[k..].iter().map(|x| (x.name.clone(), x.size, x.bloat)).collect();
    if got != sums {
        return c.fail(ctx(format!("summaries {:?}, expected {:?}", got, sums)));
    }
    if rows[k..].iter().any(|x| !x.insts.is_empty()) {
        return c.fail(ctx("a summary lists instantiations".into()));
    }
}

type Side = Vec<(String, u32)>;
fn side_items(r: &mut Rng, l: &Side) -> Items {
    let mut b = ItemsBuilder::new(l.iter().map(|x| x.1).sum());
    let mut k: Vec<usize> = (0..l.len()).collect();
    r.shuffle(&mut k);
    for (at, i) in k.into_iter().enumerate() {
        let n = l[i].0.as_str();
        let it = if r.bool() { Item::new(Id::entry(at % 3, at), n, l[i].1, ir::Code::new(n)) } else { Item::new(Id::entry(at % 3, at), n, l[i].1, ir::Misc::new()) };
        if r.bool() {
            b.add_root(it);
        } else {
            b.add_item(it);
        }
    }
    b.finish()
}
fn sums(l: &Side) -> BTreeMap<&str, i64> {
    let mut m = BTreeMap::new();
    for (n, z) in l {
        *m.entry(n.as_str()).or_insert(0) += i64::from(*z);
    }
    m
}

fn c09(c: &mut Ctx) {
    let mut r = c.rng(9);
    // two sides
    let (a, b, mut ia, mut ib): (Side, Side, Items, Items);
    if r.chance(1, 8) {
        c.count("wasm modules");
        let cfg = wasmgen::Cfg { max_funcs: 8, max_other: 3, stmts: 5, ..Default::default() };
        let mut r1 = r.clone();
        let m = wasmgen::gen(&mut r1, &cfg);
        let n = match r.below(3) {
            0 => m.clone(),
            1 => wasmgen::gen(&mut r1, &cfg),
            _ => {
                // the same module with other integer encodings, hence other sizes
                let c2 = wasmgen::Cfg { pad: 60, ..cfg.clone() };
                wasmgen::gen(&mut r.clone(), &c2)
            }
        };
        let p = |m: &wasmgen::Module| twiggy_parser::parse(&m.bytes).map_err(|e| e.to_string());
        let t = |m: &wasmgen::Module| -> Side { m.truth.items.iter().map(|i| (i.name.clone(), i.size)).collect() };
        a = t(&m);
        b = t(&n);
        match (p(&m), p(&n)) {
            (Ok(x), Ok(y)) => {
                ia = x;
                ib = y;
            }
            (Err(e), _) | (_, Err(e)) => return c.fail(format!("valid module refused: {}", e)),
        }
    } else {
        let wide = r.chance(1, 400);
        if wide {
            c.count("hundreds of names");
        }
        let beyond = wide && r.chance(1, 50);
        if beyond {
            c.count("beyond 65536 names");
        }
        let n = if beyond { r.range(70_000, 76_000) } else if wide { r.range(300, 4000) } else { r.skewed(40) };
        let dup = if beyond { 0 } else { r.below(3) * 20 };
        let big = !wide && r.chance(1, 10);
        let size = |r: &mut Rng| -> u32 {
            if big {
                r.below(100_000_000) as u32
            } else {
                r.skewed(200) as u32
            }
        };
        let mut x: Side = vec![];
        for k in 0..n {
            let nm = if k > 0 && r.chance(dup as u32, 100) { x[r.below(k)].0.clone() } else { format!("{}{}", names::plain(&mut r).replace("::h", "::k"), k) };
            let z = size(&mut r);
            x.push((nm, z));
        }
        let mut y = if r.chance(1, 8) { vec![] } else { x.clone() };
        if beyond {
            for z in y.iter_mut() {
                z.1 += r.range(1, 9) as u32;
            }
        }
        for _ in 0..if beyond { 40 } else { r.below(n + 2) } {
            match r.below(5) {
                0 if !y.is_empty() => {
                    let k = r.below(y.len());
                    y.remove(k);
                }
                1 if !y.is_empty() => {
                    let k = r.below(y.len());
                    let d = r.range(0, 5) as u32;
                    y[k].1 = if r.bool() { y[k].1 + d } else { y[k].1.saturating_sub(d) };
                }
                2 => {
                    let z = size(&mut r);
                    y.push((format!("new{}", r.below(20)), z));
                }
                3 if !y.is_empty() => {
                    // move bytes between two items of one name
                    let k = r.below(y.len());
                    let (nm, z) = y[k].clone();
                    y[k].1 = z / 2;
                    y.push((nm, z - z / 2));
                }
                _ if !y.is_empty() => {
                    let k = r.below(y.len());
                    y[k].1 = size(&mut r);
                }
                _ => {}
            }
        }
        if r.bool() {
            std::mem::swap(&mut x, &mut y);
        }
        ia = side_items(&mut r, &x);
        ib = side_items(&mut r, &y);
        a = x;
        b = y;
    }
    let (sa, sb) = (sums(&a), sums(&b));
    if sa.len() < a.len() || sb.len() < b.len() {
        c.count("names that repeat");
    }
    let mut all: Vec<(String, i64)> = vec![];
    for n in sa.keys().chain(sb.keys()).collect::<std::collections::BTreeSet<_>>() {
        let d = sb.get(*n).unwrap_or(&0) - sa.get(*n).unwrap_or(&0);
        if d != 0 {
            all.push((s(n), d));
        }
    }
    let mut args = vec![];
    let mut lim = 20usize;
    if r.chance(1, 2) {
        lim = *r.pick(&[0usize, 1, 2, 5, 1000, 256, 65_536, 1 << 31, u32::MAX as usize]);
        if all.len() > 100 && r.bool() {
            lim = r.below(all.len() + 2);
        }
        args.extend([s("-n"), lim.to_string()]);
    }
    if r.chance(1, 4) {
        lim = usize::MAX;
        args.push(s(*r.pick(&["-a", "--all"])));
    }
    let mut filtered = false;
    if r.chance(1, 3) && !(a.is_empty() && b.is_empty()) {
        filtered = true;
        let pool: Vec<&str> = sa.keys().chain(sb.keys()).copied().collect();
        let regex = r.bool();
        c.count(if regex { "filtered by expression" } else { "filtered by name" });
        if regex {
            args.push(s("--regex"));
        }
        args.push(s("--"));
        let mut keep = HashSet::new();
        for _ in 0..r.range(1, 4) {
            let k = *r.pick(&pool);
            keep.insert(k);
            args.push(if regex { format!("^{}$", super::graph::regex_escape(k)) } else { s(k) });
        }
        all.retain(|x| keep.contains(x.0.as_str()));
    }
    all.sort_by_key(|x| std::cmp::Reverse(x.1.abs()));
    let f = *r.pick(&FMTS);
    c.count(&format!("format {}", f.name()));
    let ctx = |m: String| format!("{} (diff {:?}, {}) of {:?} and {:?}", m, args, f.name(), a, b);
    if all.is_empty() {
        c.eval_trivial();
    } else {
        c.eval(format!("{:?}{:?}{:?}{:?}", a, b, args, f).as_bytes());
        c.sample(|| format!("diff {:?}: {} names, {} differ", args, sa.len().max(sb.len()), all.len()));
    }
    c.add("rows", all.len() as u64);
    let o = opts("diff", &args);
    let mut check = |ia: &mut Items, ib: &mut Items, all: &[(String, i64)], sign: i64, what: &str| -> Result<bool, String> {
        let out = run_fmt(ia, Some(ib), &o, f).map_err(|e| format!("{} diff failed: {}", what, e))?;
        let rows: Vec<Row> = views::diff(&out, f).map_err(|e| format!("{}\n{}", e, out))?;
        let k = lim.min(all.len());
        let mut want: Vec<(String, i64)> = vec![];
        if rows.len() < k {
            return Err(format!("{} {} rows, expected {}", what, rows.len(), k));
        }
        let shown: Vec<(String, i64)> = rows[..k].iter().map(|x| (x.name.clone(), x.size.unwrap())).collect();
        // ordered by magnitude, so the absolute values are determined
        let truth: HashMap<&str, i64> = all.iter().map(|x| (x.0.as_str(), x.1 * sign)).collect();
        let mut seen = HashSet::new();
        for (i, (n, d)) in shown.iter().enumerate() {
            match truth.get(n.as_str()) {
                Some(w) if w == d => {}
                w => return Err(format!("{} {:?} changed by {}, expected {:?}", what, n, d, w)),
            }
            if d.abs() != all[i].1.abs() {
                return Err(format!("{} row {} ({:?}, {}) is out of order", what, i, n, d));
            }
            if !seen.insert(n.clone()) {
                return Err(format!("{} {:?} is listed twice", what, n));
            }
        }
        let total: i64 = all.iter().map(|x| x.1 * sign).sum();
        if all.len() > k {
            want.push((format!("... and {} more.", all.len() - k), total - shown.iter().map(|x| x.1).sum::<i64>()));
        }
        want.push((format!("Σ [{} Total Rows]", all.len()), total));
        let got: Vec<(String, i64)> = rows[k..].iter().map(|x| (x.name.clone(), x.size.unwrap())).collect();
        if got != want {
            return Err(format!("{} summaries {:?}, expected {:?}", what, got, want));
        }
        Ok(all.len() > k)
    };
    match check(&mut ia, &mut ib, &all, 1, "") {
        Ok(cut) => {
            if cut {
                c.count("cut off");
            }
        }
        Err(e) => return c.fail(ctx(e)),
    }
    if !filtered && i64::from(ib.size()) - i64::from(ia.size()) != all.iter().map(|x| x.1).sum::<i64>() {
        return c.fail(ctx("the deltas do not add up to the difference of the sizes".into()));
    }
    c.count("swapped diffs");
    if let Err(e) = check(&mut ib, &mut ia, &all, -1, "swapped:") {
        return c.fail(ctx(e));
    }
    if r.chance(1, 2) {
        c.count("self-diffs");
        // a second item set of the same content, in another order of construction
        let mut i2 = side_items(&mut r, &a);
        if let Err(e) = check(&mut ia, &mut i2, &[], 1, "self-diff:") {
            return c.fail(ctx(e));
        }
    }
}

fn c21(c: &mut Ctx) {
    let mut r = c.rng(21);
    let n = r.range(4, 12);
    let mut wasm: Vec<Sym> = vec![];
    for _ in 0..n {
        let (y, known) = if r.chance(3, 5) {
            (syms::known(&mut r), true)
        } else {
            let raw = syms::near(&mut r);
            let shown = match syms::displayed(&raw) {
                Some(x) => x,
                None => {
                    // too long to be insisted on, but it must not fail
                    let _ = ir::Code::new(&raw);
                    c.count("expansions beyond 32 KiB");
                    continue;
                }
            };
            let g = graphgen::recognise(&shown);
            c.count(if shown == raw { "damaged symbols shown unchanged" } else { "damaged symbols demangled" });
            (Sym { raw, shown, generic: g, what: "damaged" }, false)
        };
        if known {
            c.count(y.what);
            // the libraries must agree with the construction
            if let Some(d) = syms::displayed(&y.raw) {
                if d != y.shown {
                    return c.fail(format!("harness: {:?} is {:?} by construction but the library makes it {:?}", y.raw, y.shown, d));
                }
            }
        }
        if y.shown.len() > 2000 && y.raw != y.shown {
            c.count("demangled forms of 2 to 32 KiB");
        }
        if y.raw != y.shown || y.generic.is_some() {
            c.eval(y.raw.as_bytes());
        } else {
            c.eval_trivial();
        }
        c.sample(|| format!("{} -> {} [{:?}]", y.raw, y.shown, y.generic));
        if y.generic.is_some() {
            c.count("generics recognised");
        }
        let mut b = ItemsBuilder::new(10);
        b.add_item(Item::new(Id::entry(0, 0), y.raw.as_str(), 4, ir::Code::new(&y.raw)));
        b.add_item(Item::new(Id::entry(1, 0), y.raw.as_str(), 3, ir::Data::new(None)));
        b.add_item(Item::new(Id::entry(2, 0), y.raw.as_str(), 3, ir::Misc::new()));
        let it = b.finish();
        let g = match Graph::of(&it) {
            Ok(g) => g,
            Err(e) => return c.fail(e),
        };
        if g.name[0] != y.shown {
            return c.fail(format!("{:?} ({}) is shown as {:?}, expected {:?}", y.raw, y.what, g.name[0], y.shown));
        }
        if g.generic[0] != y.generic {
            return c.fail(format!("{:?} (shown as {:?}) instantiates {:?}, expected {:?}", y.raw, y.shown, g.generic[0], y.generic));
        }
        c.count("data items");
        for k in 1..3 {
            if g.name[k] != y.raw || g.generic[k].is_some() {
                return c.fail(format!("{:?}, no function, is shown as {:?}, instantiating {:?}", y.raw, g.name[k], g.generic[k]));
            }
        }
        wasm.push(y);
    }
    if !wasm.is_empty() && r.chance(1, 3) {
        c.count("wasm modules");
        let cfg = wasmgen::Cfg { fn_names: wasm.iter().map(|y| y.raw.clone()).collect(), exact_funcs: Some(wasm.len()), stmts: 2, max_other: 2, ..Default::default() };
        let m = wasmgen::gen(&mut r, &cfg);
        let by: HashMap<&str, &Sym> = wasm.iter().map(|y| (y.raw.as_str(), y)).collect();
        let it = match twiggy_parser::parse(&m.bytes) {
            Ok(i) => i,
            Err(e) => return c.fail(format!("valid module refused: {}", e)),
        };
        let mut want: Vec<(String, u32, Option<String>)> = m
            .truth
            .items
            .iter()
            .filter(|i| i.kind == wasmgen::Kind::Code)
            .map(|i| match by.get(i.name.as_str()) {
                Some(y) => (y.shown.clone(), i.size, y.generic.clone()),
                None => (i.name.clone(), i.size, graphgen::recognise(&i.name)),
            })
            .collect();
        let mut got: Vec<(String, u32, Option<String>)> = it.iter().filter(|i| matches!(i.kind(), ir::ItemKind::Code(_))).map(|i| (i.name().to_string(), i.size(), i.monomorphization_of().map(s))).collect();
        want.sort();
        got.sort();
        if got != want {
            return c.fail(format!("functions of a module are {:?}, expected {:?}", got, want));
        }
    }
}
