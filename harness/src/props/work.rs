//! C20: work and memory against the size of the input and of what is asked for.
use crate::ctx::Ctx;
use crate::dwarfgen;
use crate::graphgen;
use crate::meter::{self, Cost};
use crate::rng::Rng;
use crate::sut::*;
use crate::wasmgen;
use crate::Prop;
use std::collections::BTreeSet;
use twiggy_traits::ParseMode;

pub const C20: Prop = Prop {
    id: "C20",
    rule: "Seventeen graph shapes (exponentially many paths, chains, stars, hubs, dense, alike, ...) and sixteen shapes of modules plus native binaries, each at two sizes a factor of four apart, random queries of all analyses with limits that keep the requested output small; the control-flow edges passed and the bytes of memory requested and held are counted by instrumentation. Evaluation = one query (or one reading) at both sizes: cost per unit of (items, references, input bytes, output bytes) below a fixed bound and not growing with the size. Non-trivial: every evaluation; distinct by shape, size and query.",
    quick: 640,
    thorough: 16_000,
    run: c20,
    level: "exploration",
    cpu: 100,
    must: &["top", "dominators", "paths", "monos", "garbage", "diff", "read a module", "read a native binary", "ladder", "dense", "chain", "hubs", "star in", "alike", "data and constants", "names", "one big function"],
    mem: 3,
};

const SHAPES: [&str; 17] = ["ladder", "diamonds", "chain", "ring", "shared end", "star out", "star in", "hubs", "dense", "tree", "sparse", "loose", "alike", "one generic", "many generics", "data", "long names"];

fn shape(r: &mut Rng, kind: &str, n: usize) -> Graph {
    let mut g = Graph { name: vec![], size: vec![], code: vec![], data: vec![], generic: vec![], succ: vec![], pred: vec![], roots: vec![], ids: vec![], total: 0 };
    for i in 0..n {
        g.name.push(match kind {
            "alike" => "same".to_string(),
            "one generic" => format!("gen::eric<T{}>", i),
            "many generics" => format!("g{}<T{}>", i / 2, i % 2),
            "long names" => format!("{}{}", "name::".repeat(12), i),
            _ => format!("item_{}", i),
        });
        g.size.push(if kind == "alike" { 5 } else { 1 + r.below(1000) as u32 });
        let data = kind == "data" && i % 4 != 0;
        g.code.push(!data);
        g.data.push(data);
        g.generic.push(None);
        g.succ.push(vec![]);
        g.ids.push(Id::entry(1 + i % 3, i));
    }
    let mut e: BTreeSet<(usize, usize)> = BTreeSet::new();
    match kind {
        "ladder" => {
            for i in 0..n / 2 {
                for (a, b) in [(0, 2), (0, 3), (1, 2), (1, 3)] {
                    if 2 * i + b < n {
                        e.insert((2 * i + a, 2 * i + b));
                    }
                }
            }
            g.roots = vec![0, 1.min(n - 1)];
        }
        "diamonds" => {
            for i in (0..n).step_by(3) {
                for (a, b) in [(0, 1), (0, 2), (1, 3), (2, 3)] {
                    if i + b < n {
                        e.insert((i + a, i + b));
                    }
                }
            }
            g.roots = vec![0];
        }
        "chain" | "ring" => {
            for i in 1..n {
                e.insert((i - 1, i));
            }
            if kind == "ring" {
                e.insert((n - 1, 0));
            }
            g.roots = vec![0];
        }
        "shared end" => {
            // a chain all of which also uses one more item
            for i in 1..n - 1 {
                e.extend([(i - 1, i), (i - 1, n - 1)]);
            }
            g.roots = vec![0];
        }
        "star out" => {
            for i in 1..n {
                e.insert((0, i));
            }
            g.roots = vec![0];
        }
        "star in" => {
            for i in 0..n - 1 {
                e.insert((i, n - 1));
            }
            g.roots = (0..n - 1).collect();
        }
        "hubs" => {
            // a few items that everything uses, in layers
            for i in 0..n {
                for h in 0..4.min(n) {
                    if h != i && (i >= 4 || i < h) {
                        e.insert((i, h));
                    }
                }
            }
            g.roots = (4.min(n - 1)..n).collect();
        }
        "dense" => {
            let k = ((2 * n) as f64).sqrt() as usize;
            for a in 0..k.min(n) {
                for b in 0..k.min(n) {
                    if a != b && r.chance(9, 10) {
                        e.insert((a, b));
                    }
                }
            }
            g.roots = vec![0];
        }
        "tree" => {
            for i in 1..n {
                e.insert(((i - 1) / 3, i));
            }
            g.roots = vec![0];
        }
        "sparse" | "long names" => {
            for i in 1..n {
                e.insert((r.below(i), i));
                let j = r.below(n);
                if j != i {
                    e.insert((j, i));
                }
            }
            g.roots = vec![0];
        }
        "loose" => {
            // nothing reachable
            for i in 1..n {
                e.insert((r.below(i), i));
            }
        }
        _ => {
            for i in 1..n {
                if r.bool() {
                    e.insert((r.below(i), i));
                }
            }
            g.roots = (0..n).filter(|_| r.bool()).collect();
        }
    }
    for (a, b) in e {
        g.succ[a].push(b);
    }
    g.total = g.size.iter().sum::<u32>() + 8;
    g
}


/// The most edges per unit any query or reading may take, and the same for
/// bytes. On the unchanged tree they stay below a quarter of this.
const MOST_EDGES: f64 = 6000.0;
const MOST_BYTES: f64 = 4000.0;
/// The most the cost per unit may grow when the input becomes four times as
/// large. Sorting and ordered maps account for less than 1.7; a quadratic
/// part reaches 4.
const MOST_GROWTH: f64 = 2.2;
const STOP: u64 = 6_000_000_000;

struct At {
    n: usize,
    units: f64,
    cost: Cost,
}
impl At {
    fn per(&self) -> [f64; 3] {
        let u = self.units + 1000.0;
        [self.cost.edges as f64 / u, self.cost.bytes as f64 / u, self.cost.peak as f64 / u]
    }
}
fn judge(small: &At, big: &At) -> Result<(), String> {
    let names = ["control-flow edges passed", "bytes of memory requested", "bytes of memory held"];
    for k in 0..3 {
        let (a, b) = (small.per()[k], big.per()[k]);
        let most = if k == 0 { MOST_EDGES } else { MOST_BYTES };
        for (x, at) in [(a, small), (b, big)] {
            if x > most {
                return Err(format!("{}: {:.0} per unit of input and output at size {} ({:?}, {:.0} units)", names[k], x, at.n, at.cost, at.units));
            }
        }
        // what is small anyway may be all constant parts
        if b > a * MOST_GROWTH && b > [300.0, 150.0, 150.0][k] {
            return Err(format!("{} per unit of input and output grow from {:.1} to {:.1} between sizes {} ({:?}, {:.0} units) and {} ({:?}, {:.0} units)", names[k], a, b, small.n, small.cost, small.units, big.n, big.cost, big.units));
        }
    }
    Ok(())
}

fn ask(r: &mut Rng, kind: &str, n: usize) -> (&'static str, Vec<String>) {
    let sub = *r.pick(&["top", "dominators", "paths", "paths", "monos", "garbage", "diff"]);
    let mut a: Vec<String> = vec![];
    let mut put = |s: String| a.push(s);
    // Items named exactly, or by expressions that match just those.
    let regex = r.chance(1, 3);
    let some = |r: &mut Rng| -> String {
        let i = if r.bool() { r.below(20.min(n)) } else { r.below(n) };
        let name = match kind {
            "alike" => "same".into(),
            "long names" => format!("{}{}", "name::".repeat(12), i),
            _ => format!("item_{}", i),
        };
        if regex {
            format!("^{}$", name)
        } else {
            name
        }
    };
    match sub {
        "top" => {
            if r.bool() {
                put("--retained".into());
            }
            if r.bool() {
                put("-n".into());
                put(r.below(10).to_string());
            }
        }
        "dominators" => {
            let flat = matches!(kind, "star out" | "hubs" | "dense" | "tree" | "loose" | "star in");
            if !flat || r.bool() {
                if r.bool() {
                    put("-d".into());
                    put(r.below(if kind == "chain" || kind == "ring" || kind == "shared end" || kind == "diamonds" { 50 } else { 6 }).to_string());
                } else {
                    put("-r".into());
                    put(r.below(60).to_string());
                }
            }
            if r.chance(1, 3) {
                put("-r".into());
                put(r.below(60).to_string());
                if a.iter().filter(|x| *x == "-r").count() > 1 {
                    a.truncate(a.len() - 2);
                }
                if regex {
                    a.push("--regex".into());
                }
                a.push("--".into());
                a.push(some(r));
            }
        }
        "paths" => {
            let (d, rows): (usize, usize) = match r.below(8) {
                0 => (r.below(60), 1),
                1 => (r.below(12), 2),
                2 => (r.below(7), 3),
                3 => (r.below(4), 10),
                4 => (r.below(100), 0),
                5 => (0, 1000),
                6 => (1, r.below(30)),
                _ => (2, r.below(12)),
            };
            put("-d".into());
            put(d.to_string());
            put("-r".into());
            put(rows.to_string());
            if r.bool() {
                put("--descending".into());
            }
            // from all items only when there is little to print for each
            if !(d <= 1 && rows <= 4 || rows <= 1 && d <= 3 || d == 0) || r.bool() {
                let alike = kind == "alike" && (d > 1 || rows > 4);
                if alike {
                    return ("top", vec![]);
                }
                if regex {
                    put("--regex".into());
                }
                put("--".into());
                for _ in 0..r.range(1, 3) {
                    a.push(some(r));
                }
            }
        }
        "monos" => {
            if r.bool() {
                put(r.pick(&["-a", "-g", "--all-monos", "--all-generics"]).to_string());
            }
            if r.bool() {
                put("-m".into());
                put(r.below(6).to_string());
            }
            if r.bool() {
                put("-n".into());
                put(r.below(6).to_string());
            }
            if r.chance(1, 3) {
                if regex {
                    put("--regex".into());
                }
                put("--".into());
                for _ in 0..r.range(1, 8) {
                    a.push(match (regex, r.bool()) {
                        (true, _) => format!("^g.*{}$", r.below(n)),
                        (_, true) => "gen::eric".to_string(),
                        _ => format!("g{}", r.below(n)),
                    });
                }
            }
        }
        "garbage" => {
            if r.bool() {
                put("-a".into());
            }
            if r.bool() {
                put("--show-data-segments".into());
            }
        }
        _ => {
            if r.bool() {
                put("-a".into());
            }
            if r.chance(1, 4) {
                if regex {
                    put("--regex".into());
                }
                put("--".into());
                for _ in 0..r.range(1, 8) {
                    a.push(some(r));
                }
            } else if r.chance(1, 3) {
                put("--regex".into());
                put("--".into());
                put(r.pick(&["item_1", "1$", ".", "[0-4]+$"]).to_string());
            }
        }
    }
    (sub, a)
}

fn c20(c: &mut Ctx) {
    if !meter::ON {
        return c.fail("this property needs the instrumented build".to_string());
    }
    let mut r = c.rng(20);
    match c.case % 4 {
        0..=2 => graphs(c, &mut r),
        _ => readings(c, &mut r),
    }
}

fn graphs(c: &mut Ctx, r: &mut Rng) {
    let kind = SHAPES[(c.case / 4 * 3 + c.case % 4) as usize % SHAPES.len()];
    c.count(kind);
    let n0 = r.range(3000, 4500);
    let seed = r.u64();
    let mut at: Vec<(usize, Graph, Items, Items)> = vec![];
    for n in [n0, 4 * n0] {
        let r = &mut Rng::new(seed);
        let g = shape(r, kind, n);
        let it = graphgen::build(r, &g);
        let mut h = g.clone();
        for z in h.size.iter_mut() {
            if r.bool() {
                *z += 3;
            }
        }
        h.total += 3 * n as u32;
        let new = graphgen::build(r, &h);
        at.push((n, g, it, new));
    }
    for _ in 0..4 {
        let (sub, args) = ask(r, kind, n0);
        let f = *r.pick(&FMTS);
        c.count(sub);
        let o = options(sub, &args).unwrap_or_else(|e| panic!("{} {:?}: {}", sub, args, e));
        let mut seen: Vec<At> = vec![];
        for (n, g, it, new) in at.iter_mut() {
            let (res, cost) = meter::measure(STOP, || run_fmt(it, Some(new), &o, f));
            let res = match res {
                Ok(t) => t,
                Err(e) => return c.fail(format!("{} {:?} refused: {}", sub, args, e)),
            };
            let e: usize = g.succ.iter().map(|x| x.len()).sum();
            let mut units = (*n + e) as f64 + res.len() as f64 / 4.0;
            if sub == "paths" {
                // each row printed looks at the references of its item
                let rows = if f == Fmt::Json { res.matches("\"name\":").count() } else { res.matches('\n').count() };
                let mut deg = vec![0usize; *n];
                for s in &g.succ {
                    for &t in s {
                        deg[t] += 1;
                    }
                }
                let most = deg.iter().copied().max().unwrap_or(0).max(g.succ.iter().map(|x| x.len()).max().unwrap_or(0));
                let typical = e / *n + 4;
                units += (rows * if most > 40 { most } else { typical }) as f64;
            }
            seen.push(At { n: *n, units, cost });
        }
        c.eval(format!("{} {} {} {:?} {}", kind, n0, sub, args, f.name()).as_bytes());
        for a in &seen {
            c.add("edges counted", a.cost.edges);
            let p = a.per();
            c.max("edges per unit", p[0] as u64);
            c.max("bytes per unit", p[1] as u64);
        }
        if std::env::var("VH_COST").is_ok() {
            let (a, b) = (seen[0].per(), seen[1].per());
            println!("{:.2} {:.0} {:.0} bytes {:.2} {:.0} peak {:.2} {:.0} {} {} {:?} {}", b[0] / a[0], a[0], b[0], b[1] / a[1], b[1], b[2] / a[2], b[2], kind, sub, args, f.name());
        }
        c.max("growth in percent", if seen[1].per()[0] > 300.0 { (100.0 * seen[1].per()[0] / seen[0].per()[0]) as u64 } else { 0 });
        c.sample(|| format!("{} {} {:?} {}: {:?} {:?}", kind, sub, args, f.name(), seen[0].per(), seen[1].per()));
        if let Err(m) = judge(&seen[0], &seen[1]) {
            // The library's algorithm walks up the chain once per reference.
            let dominators = sub == "dominators" || args.iter().any(|a| a == "--retained");
            let sig = if kind == "shared end" && dominators && m.starts_with("control-flow edges") { "dominators-of-chain-with-shared-end" } else { "" };
            c.fail_sig(sig, format!("{} {:?} as {} on shape {:?}: {}", sub, args, f.name(), kind, m));
        }
    }
}

fn uleb(o: &mut Vec<u8>, v: usize) {
    dwarfgen::uleb(o, v as u64)
}
fn vec_of(n: usize, f: impl Fn(usize) -> Vec<u8>) -> Vec<u8> {
    let mut o = vec![];
    uleb(&mut o, n);
    for i in 0..n {
        o.extend(f(i));
    }
    o
}
fn text(s: &str) -> Vec<u8> {
    let mut o = vec![];
    uleb(&mut o, s.len());
    o.extend(s.bytes());
    o
}
fn num(v: usize) -> Vec<u8> {
    let mut o = vec![];
    uleb(&mut o, v);
    o
}
fn cat(p: &[Vec<u8>]) -> Vec<u8> {
    p.concat()
}
fn body(code: Vec<u8>) -> Vec<u8> {
    let mut b = vec![0];
    b.extend(code);
    b.push(0x0b);
    cat(&[num(b.len()), b])
}
fn call(i: usize) -> Vec<u8> {
    cat(&[vec![0x10], num(i)])
}
fn konst(v: usize) -> Vec<u8> {
    let mut o = vec![0x41];
    dwarfgen::sleb(&mut o, v as i64);
    o
}
const MODULES: [&str; 16] = ["functions", "one big function", "types", "imports", "exports", "one element segment", "element segments", "data segments", "data and constants", "globals", "names", "custom sections", "branch table", "nested blocks", "locals", "generated"];

fn module(r: &mut Rng, kind: &str, n: usize) -> Vec<u8> {
    let mut s: Vec<(u8, Vec<u8>)> = vec![];
    let ty = vec![1, 0x60, 0, 0];
    let funcs = |n: usize| vec_of(n, |_| vec![0]);
    let step = 1 + r.below(1000);
    match kind {
        "generated" => {
            let w = wasmgen::Cfg { exact_funcs: Some(n / 40 + 1), stmts: 4, ..Default::default() };
            return wasmgen::gen(r, &w).bytes;
        }
        "functions" => {
            s.push((1, ty));
            s.push((3, funcs(n)));
            s.push((7, vec_of(1, |_| cat(&[text("f"), vec![0, 0]]))));
            s.push((10, vec_of(n, |i| body(cat(&[call((i + step) % n), call((i * 3 + 1) % n)])))));
        }
        "one big function" => {
            s.push((1, ty));
            s.push((3, funcs(2)));
            s.push((10, vec_of(2, |i| body(if i == 0 { (0..n).flat_map(|k| if k % 2 == 0 { call(k / 2 % 2) } else { cat(&[konst(k), vec![0x1a]]) }).collect() } else { vec![] }))));
        }
        "types" => {
            s.push((1, vec_of(n, |i| cat(&[vec![0x60], num(i % 5), vec![0x7f; i % 5], vec![0]]))));
            s.push((3, funcs(1)));
            s.push((10, vec_of(1, |_| body(vec![]))));
        }
        "imports" => {
            s.push((1, ty));
            s.push((2, vec_of(n, |i| cat(&[text("m"), text(&format!("i{}", i)), vec![0, 0]]))));
            s.push((3, funcs(1)));
            s.push((10, vec_of(1, |_| body(call(n / 2)))));
        }
        "exports" => {
            s.push((1, ty));
            s.push((3, funcs(4)));
            s.push((7, vec_of(n, |i| cat(&[text(&format!("e{}", i)), vec![0], num(i % 4)]))));
            s.push((10, vec_of(4, |_| body(vec![]))));
        }
        "one element segment" | "element segments" => {
            s.push((1, ty));
            s.push((3, funcs(4)));
            s.push((4, cat(&[vec![1, 0x70, 0], num(2 * n)])));
            s.push((
                9,
                if kind == "element segments" {
                    vec_of(n, |i| cat(&[vec![0], konst(i), vec![0x0b, 1], num(i % 4)]))
                } else {
                    vec_of(1, |_| cat(&[vec![0], konst(0), vec![0x0b], vec_of(n, |i| num(i % 4))]))
                },
            ));
            s.push((10, vec_of(4, |_| body(vec![]))));
        }
        "data segments" | "data and constants" => {
            s.push((1, ty));
            s.push((3, funcs(3)));
            s.push((5, cat(&[vec![1, 0], num(n / 1000 + 1)])));
            let k = if kind == "data segments" { 10 } else { 2 * n };
            let at: Vec<usize> = (0..k).map(|_| 1024 + r.below(16 * n)).collect();
            s.push((10, vec_of(3, |i| body(if i == 0 { at.iter().flat_map(|a| cat(&[konst(*a), vec![0x1a]])).collect() } else { vec![] }))));
            s.push((11, vec_of(n, |i| cat(&[vec![0], konst(1024 + i * 16), vec![0x0b], vec_of(12, |j| vec![j as u8])]))));
        }
        "globals" => {
            s.push((1, ty));
            s.push((3, funcs(1)));
            s.push((6, vec_of(n, |i| cat(&[vec![0x7f, 1], konst(i), vec![0x0b]]))));
            s.push((10, vec_of(1, |_| body(vec![]))));
        }
        "names" => {
            s.push((1, ty));
            s.push((3, funcs(n)));
            s.push((10, vec_of(n, |_| body(vec![]))));
            let names = vec_of(n, |i| cat(&[num(i), text(&format!("ns::f{}<u{}>", i, i % 7))]));
            s.push((0, cat(&[text("name"), vec![1], num(names.len()), names])));
        }
        "custom sections" => {
            s.push((1, ty));
            s.push((3, funcs(1)));
            s.push((10, vec_of(1, |_| body(vec![]))));
            for i in 0..n {
                s.push((0, cat(&[text(&format!("c{}", i)), vec![1, 2, 3]])));
            }
        }
        "branch table" => {
            s.push((1, ty));
            s.push((3, funcs(1)));
            s.push((10, vec_of(1, |_| body(cat(&[vec![0x41, 0, 0x0e], vec_of(n, |_| vec![0]), vec![0]])))));
        }
        "nested blocks" => {
            s.push((1, ty));
            s.push((3, funcs(1)));
            s.push((10, vec_of(1, |_| body(cat(&[[2, 0x40].repeat(n), call(0), vec![0x0b; n]])))));
        }
        _ => {
            s.push((1, ty));
            s.push((3, funcs(1)));
            let b = cat(&[vec_of(n, |i| vec![1, 0x7f - (i % 4) as u8]), vec![0x0b]]);
            s.push((10, cat(&[vec![1], num(b.len()), b])));
        }
    }
    // constants lie among functions and segments, too
    let mut o = b"\0asm\x01\0\0\0".to_vec();
    for (id, d) in s {
        o.push(id);
        uleb(&mut o, d.len());
        o.extend(d);
    }
    o
}

fn readings(c: &mut Ctx, r: &mut Rng) {
    let k = (c.case / 4) as usize % (MODULES.len() + 3);
    let (kind, mode) = if k < MODULES.len() { (MODULES[k], ParseMode::Wasm) } else { ("native", ParseMode::Dwarf) };
    c.count(kind);
    c.count(if k < MODULES.len() { "read a module" } else { "read a native binary" });
    let n0 = r.range(2000, 3500);
    let seed = r.u64();
    let mut seen = vec![];
    let mut items: Vec<Items> = vec![];
    let text = |it: &Items| it.iter().map(|x| x.name().len()).sum::<usize>() as f64 / 4.0;
    for n in [n0, 4 * n0] {
        let r = &mut Rng::new(seed);
        let bytes = match k {
            k if k < MODULES.len() => module(r, kind, n),
            k => {
                // many units, or many entries in few of them
                let (max_units, max_dies) = if k % 2 == 0 { (n / 8, 14) } else { (2, n) };
                let m = dwarfgen::Cfg { max_units, max_dies, most: 0xffff, ..Default::default() };
                dwarfgen::gen(r, &m).bytes
            }
        };
        let f = c.scratch.join("c20");
        std::fs::write(&f, &bytes).unwrap();
        let (res, cost) = meter::measure(STOP, || twiggy_parser::read_and_parse(&f, mode));
        match res {
            Ok(i) => items.push(i),
            Err(e) => return c.fail(format!("{} of size {} refused: {}", kind, n, e)),
        }
        // a short symbol may stand for a long name
        seen.push(At { n, units: bytes.len() as f64 + text(&items[items.len() - 1]), cost });
    }
    c.eval(format!("{} {}", kind, n0).as_bytes());
    for a in &seen {
        c.add("edges counted", a.cost.edges);
        c.max("edges per byte read", a.per()[0] as u64);
        c.max("bytes per byte read", a.per()[1] as u64);
    }
    c.sample(|| format!("reading {}: {:?} {:?}", kind, seen[0].per(), seen[1].per()));
    if let Err(m) = judge(&seen[0], &seen[1]) {
        return c.fail(format!("reading shape {:?}: {}", kind, m));
    }
    // and the analyses on what was read
    for _ in 0..2 {
        let (sub, args) = *r.pick(&[("top", "-n 5"), ("dominators", "-r 20"), ("paths", "-d 2 -r 2 --descending"), ("monos", ""), ("garbage", ""), ("diff", "")]);
        let f = *r.pick(&FMTS);
        let args: Vec<String> = args.split(' ').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect();
        let o = options(sub, &args).unwrap();
        let mut at = vec![];
        for (i, it) in items.iter_mut().enumerate() {
            let e: usize = it.iter().map(|x| x.id()).collect::<Vec<_>>().into_iter().map(|x| it.neighbors(x).count()).sum();
            let n = it.iter().count();
            let mut other = graphgen::build(&mut Rng::new(1), &shape(&mut Rng::new(1), "loose", 3));
            let (res, cost) = meter::measure(STOP, || run_fmt(it, Some(&mut other), &o, f));
            let res = res.unwrap();
            let rows = if sub == "paths" { res.len() / 8 } else { 0 };
            at.push(At { n: seen[i].n, units: (n + e + rows) as f64 + text(it) + res.len() as f64 / 4.0, cost });
        }
        c.count(sub);
        c.eval(format!("{} {} {} {:?} {}", kind, n0, sub, args, f.name()).as_bytes());
        c.max("edges per unit", at[1].per()[0] as u64);
        if let Err(m) = judge(&at[0], &at[1]) {
            c.fail(format!("{} {:?} as {} on what {:?} gives: {}", sub, args, f.name(), kind, m));
        }
    }
}
