//! C22: what options mean, given on the command line or set by a program.
use super::cli;
use crate::ctx::Ctx;
use crate::graphgen::{self, GCfg};
use crate::names;
use crate::proc;
use crate::rng::Rng;
use crate::sut::*;
use crate::wasmgen;
use crate::Prop;
use std::collections::{BTreeMap, BTreeSet};
use std::ffi::OsString;
use structopt::StructOpt;
use twiggy_opt::{self as opt, CommonCliOptions};

pub const C22: Prop = Prop {
    id: "C22",
    rule: "Random settings of every subcommand spelled as random command lines (order, attached, separate and '=' values, long and short names, merged flags, '--'), read back through every getter and run against the plainest spelling of the same settings; random sequences of programmatic setters on fresh or parsed options against a model and the equivalent command line; invalid command lines; part of them through the real process. Evaluation = one command line or one sequence. Non-trivial: at least one setting away from its default, or an invalid one; distinct by command line or sequence.",
    quick: 400_000,
    thorough: 6_000_000,
    run: c22,
    level: "exploration",
    cpu: 60,
    must: &[
        "top", "dominators", "paths", "monos", "garbage", "diff", "defaults read back", "attached value", "value after =", "merged flags", "options after names", "after --", "all overrides a limit", "setters on fresh options", "setters on parsed options", "limit set after all", "outputs compared",
        "refused value", "refused without input", "refused unknown option", "process accepted", "process refused",
    ],
    mem: 6,
};

struct Num {
    key: &'static str,
    short: &'static str,
    long: &'static str,
    def: u32,
}
struct Flag {
    key: &'static str,
    short: &'static str,
    long: &'static str,
}
struct Spec {
    sub: &'static str,
    nums: &'static [Num],
    flags: &'static [Flag],
    names: bool,
    mode_short: bool,
}
const M: u32 = u32::MAX;
const REGEX: Flag = Flag { key: "regex", short: "", long: "--regex" };
const SPECS: [Spec; 6] = [
    Spec { sub: "top", nums: &[Num { key: "items", short: "-n", long: "", def: M }], flags: &[Flag { key: "retained", short: "", long: "--retained" }, Flag { key: "retaining_paths", short: "-r", long: "--retaining-paths" }], names: false, mode_short: false },
    Spec { sub: "dominators", nums: &[Num { key: "depth", short: "-d", long: "", def: M }, Num { key: "rows", short: "-r", long: "", def: M }], flags: &[REGEX], names: true, mode_short: false },
    Spec { sub: "paths", nums: &[Num { key: "depth", short: "-d", long: "", def: 10 }, Num { key: "rows", short: "-r", long: "", def: 10 }], flags: &[REGEX, Flag { key: "descending", short: "", long: "--descending" }], names: true, mode_short: false },
    Spec {
        sub: "monos",
        nums: &[Num { key: "generics", short: "-m", long: "--max-generics", def: 10 }, Num { key: "monos", short: "-n", long: "--max-monos", def: 10 }],
        flags: &[REGEX, Flag { key: "only_generics", short: "-g", long: "--only-generics" }, Flag { key: "all", short: "-a", long: "--all" }, Flag { key: "all_generics", short: "", long: "--all-generics" }, Flag { key: "all_monos", short: "", long: "--all-monos" }],
        names: true,
        mode_short: true,
    },
    Spec { sub: "garbage", nums: &[Num { key: "items", short: "-n", long: "", def: 10 }], flags: &[Flag { key: "all", short: "-a", long: "--all" }, Flag { key: "show_data", short: "", long: "--show-data-segments" }], names: false, mode_short: false },
    Spec { sub: "diff", nums: &[Num { key: "items", short: "-n", long: "", def: 20 }], flags: &[REGEX, Flag { key: "all", short: "-a", long: "--all" }], names: true, mode_short: false },
];

/// What the user asked for.
#[derive(Clone, Debug, Default)]
struct Want {
    nums: BTreeMap<&'static str, u32>,
    flags: BTreeSet<&'static str>,
    names: Vec<String>,
    mode: Option<&'static str>,
    fmt: Option<&'static str>,
    out: Option<String>,
}
impl Want {
    fn has(&self, f: &str) -> bool {
        self.flags.contains(f)
    }
    /// The limits that count, overriding switches applied.
    fn effective(&self, s: &Spec) -> BTreeMap<&'static str, u32> {
        s.nums
            .iter()
            .map(|n| {
                let all = self.has("all") || (n.key == "generics" && self.has("all_generics")) || (n.key == "monos" && self.has("all_monos"));
                (n.key, if all { M } else { self.nums.get(n.key).copied().unwrap_or(n.def) })
            })
            .collect()
    }
    /// Everything the getters ought to say.
    fn expect(&self, s: &Spec, input: &str, new: &str) -> BTreeMap<&'static str, String> {
        let mut m = self.settings(s);
        m.insert("input", input.to_string());
        m.insert("mode", match self.mode { Some("wasm") => "Wasm", Some("dwarf") => "Dwarf", _ => "Auto" }.to_string());
        m.insert("fmt", match self.fmt { Some("json") => "Json", Some("csv") => "Csv", _ => "Text" }.to_string());
        m.insert("out", match &self.out { Some(p) if p != "-" => p.clone(), _ => "-".to_string() });
        if s.sub == "diff" {
            m.insert("new", new.to_string());
        }
        m
    }
    fn settings(&self, s: &Spec) -> BTreeMap<&'static str, String> {
        let mut m: BTreeMap<&'static str, String> = self.effective(s).into_iter().map(|(k, v)| (k, v.to_string())).collect();
        for f in s.flags {
            if !f.key.starts_with("all") {
                m.insert(f.key, self.has(f.key).to_string());
            }
        }
        if s.names {
            m.insert("names", format!("{:?}", self.names));
        }
        m
    }
    /// The plainest command line with the same meaning: `sut::options` arguments.
    fn plain(&self, s: &Spec) -> Vec<String> {
        let mut a = vec![];
        for (k, v) in self.effective(s) {
            let n = s.nums.iter().find(|n| n.key == k).unwrap();
            a.push(n.short.to_string());
            a.push(v.to_string());
        }
        for f in s.flags {
            if self.has(f.key) && !f.key.starts_with("all") {
                a.push(f.long.to_string());
            }
        }
        if !self.names.is_empty() {
            a.push("--".into());
            a.extend(self.names.iter().cloned());
        }
        a
    }
}

fn observed(o: &Options) -> BTreeMap<&'static str, String> {
    let mut m = settings(o);
    m.insert("input", o.input().display().to_string());
    m.insert("mode", format!("{:?}", o.parse_mode()));
    m.insert("fmt", format!("{:?}", o.output_format()));
    m.insert(
        "out",
        match o.output_destination() {
            opt::OutputDestination::Stdout => "-".into(),
            opt::OutputDestination::Path(p) => p.display().to_string(),
        },
    );
    if let Options::Diff(d) = o {
        m.insert("new", d.new_input().display().to_string());
    }
    m
}
fn settings(o: &Options) -> BTreeMap<&'static str, String> {
    let v: Vec<(&'static str, String)> = match o {
        Options::Top(t) => vec![("items", t.max_items().to_string()), ("retained", t.retained().to_string()), ("retaining_paths", t.retaining_paths().to_string())],
        Options::Dominators(t) => vec![("depth", t.max_depth().to_string()), ("rows", t.max_rows().to_string()), ("regex", t.using_regexps().to_string()), ("names", format!("{:?}", t.items()))],
        Options::Paths(t) => vec![
            ("depth", t.max_depth().to_string()),
            ("rows", t.max_paths().to_string()),
            ("regex", t.using_regexps().to_string()),
            ("descending", t.descending().to_string()),
            ("names", format!("{:?}", t.functions())),
        ],
        Options::Monos(t) => vec![
            ("generics", t.max_generics().to_string()),
            ("monos", t.max_monos().to_string()),
            ("regex", t.using_regexps().to_string()),
            ("only_generics", t.only_generics().to_string()),
            ("names", format!("{:?}", t.functions())),
        ],
        Options::Garbage(t) => vec![("items", t.max_items().to_string()), ("show_data", t.show_data_segments().to_string())],
        Options::Diff(t) => vec![("items", t.max_items().to_string()), ("regex", t.using_regexps().to_string()), ("names", format!("{:?}", t.items()))],
    };
    v.into_iter().collect()
}

fn number(r: &mut Rng) -> u32 {
    match r.below(8) {
        0 => 0,
        1 => 1,
        2 => M,
        3 => M - 1,
        4 => r.u32(),
        _ => r.below(40) as u32,
    }
}

fn wish(r: &mut Rng, s: &Spec, pool: &[String]) -> Want {
    let mut w = Want::default();
    let p = *r.pick(&[0, 1, 2, 3]);
    for n in s.nums {
        if r.chance(p, 3) {
            w.nums.insert(n.key, number(r));
        }
    }
    for f in s.flags {
        if r.chance(p, 4) && (f.key != "retaining_paths" || r.chance(1, 4)) {
            w.flags.insert(f.key);
        }
    }
    if s.names {
        for _ in 0..r.below(3) {
            let n = if r.chance(1, 4) || pool.is_empty() {
                match r.below(6) {
                    0 => "-x".to_string(),
                    1 => "--all".to_string(),
                    2 => "".to_string(),
                    3 => "a b=c".to_string(),
                    4 => "3".to_string(),
                    _ => names::text(r, 8),
                }
            } else {
                r.pick(pool).clone()
            };
            w.names.push(if w.has("regex") { super::graph::regex_escape(&n) } else { n });
        }
    }
    if r.chance(p, 4) {
        w.mode = Some(*r.pick(&["auto", "wasm", "dwarf"]));
    }
    if r.chance(p, 4) {
        w.fmt = Some(*r.pick(&["text", "json", "csv"]));
    }
    if r.chance(p, 6) {
        w.out = Some(r.pick(&["-", "out.txt", "a b", "./-", "dir/x.json"]).to_string());
    }
    w
}

/// One option with its value, in some spelling.
fn valued(c: &mut Ctx, r: &mut Rng, short: &str, long: &str, v: &str) -> Vec<String> {
    let use_long = short.is_empty() || (!long.is_empty() && r.bool());
    if use_long {
        if r.bool() && !v.is_empty() {
            c.count("value after =");
            vec![format!("{}={}", long, v)]
        } else {
            vec![long.into(), v.into()]
        }
    } else {
        match r.below(4) {
            0 if !v.is_empty() && !v.starts_with('=') => {
                c.count("attached value");
                vec![format!("{}{}", short, v)]
            }
            1 if !v.is_empty() => {
                c.count("value after =");
                vec![format!("{}={}", short, v)]
            }
            _ => vec![short.into(), v.into()],
        }
    }
}

fn spell(c: &mut Ctx, r: &mut Rng, s: &Spec, w: &Want, input: &str, new: &str) -> Vec<String> {
    let mut groups: Vec<Vec<String>> = vec![];
    for n in s.nums {
        if let Some(v) = w.nums.get(n.key) {
            groups.push(valued(c, r, n.short, n.long, &v.to_string()));
        }
    }
    if let Some(m) = w.mode {
        groups.push(valued(c, r, if s.mode_short { "-d" } else { "" }, "--mode", m));
    }
    if let Some(f) = w.fmt {
        groups.push(valued(c, r, "-f", "--format", f));
    }
    if let Some(o) = &w.out {
        groups.push(valued(c, r, "-o", "", o));
    }
    let mut merged = String::new();
    for f in s.flags {
        if w.has(f.key) {
            if !f.short.is_empty() && r.bool() {
                if r.bool() {
                    merged.push_str(&f.short[1..]);
                } else {
                    groups.push(vec![f.short.into()]);
                }
            } else {
                groups.push(vec![f.long.into()]);
            }
        }
    }
    if !merged.is_empty() {
        if merged.len() > 1 {
            c.count("merged flags");
        }
        // flags may be merged in front of an option with a value
        let g = groups.iter().position(|g| g[0].len() >= 2 && g[0].starts_with('-') && !g[0].starts_with("--") && r.bool());
        match g {
            Some(k) => {
                c.count("merged flags");
                let rest = groups[k][0][1..].to_string();
                groups[k][0] = format!("-{}{}", merged, rest);
            }
            None => groups.push(vec![format!("-{}", merged)]),
        }
    }
    r.shuffle(&mut groups);
    // positionals keep their order; the last ones may stand after `--`
    let mut pos: Vec<String> = vec![input.into()];
    if s.sub == "diff" {
        pos.push(new.into());
    }
    pos.extend(w.names.iter().cloned());
    let dash = pos.iter().position(|p| p.starts_with('-')).unwrap_or(pos.len());
    let cut = if dash < pos.len() {
        Some(r.below(dash + 1))
    } else if r.chance(1, 3) {
        Some(r.below(pos.len() + 1))
    } else {
        None
    };
    let before = cut.unwrap_or(pos.len());
    let mut line: Vec<String> = vec![];
    let mut slots: Vec<usize> = (0..before).map(|_| r.below(groups.len() + 1)).collect();
    slots.sort();
    let mut k = 0;
    for (gi, g) in groups.iter().enumerate() {
        while k < before && slots[k] <= gi {
            line.push(pos[k].clone());
            k += 1;
        }
        if k == pos.len() && !w.names.is_empty() {
            c.count("options after names");
        }
        line.extend(g.iter().cloned());
    }
    while k < before {
        line.push(pos[k].clone());
        k += 1;
    }
    if cut.is_some() {
        c.count("after --");
        line.push("--".into());
        line.extend(pos[before..].iter().cloned());
    }
    line.insert(0, s.sub.into());
    line
}
fn parse(line: &[String]) -> Result<Options, String> {
    let mut v: Vec<&str> = vec!["twiggy"];
    v.extend(line.iter().map(|s| s.as_str()));
    Options::from_iter_safe(v).map_err(|e| e.message)
}
fn differ(a: &BTreeMap<&'static str, String>, b: &BTreeMap<&'static str, String>) -> Option<String> {
    if a.keys().ne(b.keys()) {
        return Some(format!("keys {:?} {:?}", a.keys(), b.keys()));
    }
    a.iter().find(|(k, v)| b[*k] != **v).map(|(k, v)| format!("{} reads {:?}, given {:?}", k, b[k], v))
}

/// The two item sets of the case.
fn subjects(r: &mut Rng) -> (Graph, Items, Items) {
    let g = graphgen::gen(r, &GCfg { max_n: 12, generics: true, ..Default::default() });
    let a = graphgen::build(r, &g);
    let mut h = g.clone();
    for z in h.size.iter_mut() {
        if r.bool() {
            *z = z.saturating_sub(r.below(40) as u32);
        }
    }
    let b = graphgen::build(r, &h);
    (g, a, b)
}
/// Whether the query may be run on any graph (an unlimited `paths` may not end).
fn runnable(s: &Spec, e: &BTreeMap<&'static str, u32>) -> bool {
    s.sub != "paths" || e["depth"] <= 4
}

fn c22(c: &mut Ctx) {
    let mut r = c.rng(22);
    let s = r.pick(&SPECS);
    c.count(s.sub);
    let (g, mut a, mut b) = subjects(&mut r);
    match r.below(8) {
        0..=3 => line(c, &mut r, s, &g, &mut a, &mut b),
        4..=6 => setters(c, &mut r, s, &g, &mut a, &mut b),
        _ => invalid(c, &mut r, s),
    }
}

fn line(c: &mut Ctx, r: &mut Rng, s: &'static Spec, g: &Graph, a: &mut Items, b: &mut Items) {
    let w = wish(r, s, &g.name);
    let input = *r.pick(&["in.wasm", "a b", "./-x", "dir/é.o"]);
    let new = *r.pick(&["new.wasm", "in.wasm", "c d"]);
    let l = spell(c, r, s, &w, input, new);
    let o = match parse(&l) {
        Ok(o) => o,
        Err(e) => return c.fail(format!("{:?} is refused: {}", l, e)),
    };
    if w.nums.is_empty() && w.flags.is_empty() && w.mode.is_none() && w.fmt.is_none() && w.out.is_none() {
        c.count("defaults read back");
        c.eval_trivial();
    } else {
        c.eval(format!("{:?}", l).as_bytes());
    }
    c.sample(|| format!("{:?}", l));
    if s.nums.iter().any(|n| w.nums.contains_key(n.key) && w.nums[n.key] != M && w.effective(s)[n.key] == M) {
        c.count("all overrides a limit");
    }
    if let Some(m) = differ(&w.expect(s, input, new), &observed(&o)) {
        return c.fail(format!("{:?}: {}", l, m));
    }
    if runnable(s, &w.effective(s)) {
        let p = options(s.sub, &w.plain(s)).unwrap();
        let f = cli::fmt(r);
        let x = run_fmt(a, Some(b), &o, f);
        let y = run_fmt(a, Some(b), &p, f);
        c.count("outputs compared");
        if x != y {
            return c.fail(format!("{:?} prints {:?}, {:?} prints {:?}", l, x, w.plain(s), y));
        }
    }
    if r.chance(1, 10) {
        process(c, r, s, &w, &g.name);
    }
}

/// The same through a process of its own.
fn process(c: &mut Ctx, r: &mut Rng, s: &'static Spec, w: &Want, _pool: &[String]) {
    let mut w = w.clone();
    if !runnable(s, &w.effective(s)) {
        w.nums.insert("depth", 3);
    }
    let dir = c.scratch.join("c22");
    std::fs::create_dir_all(&dir).unwrap();
    let m = wasmgen::gen(r, &wasmgen::Cfg { max_funcs: 5, max_other: 2, stmts: 3, ..Default::default() });
    let n = wasmgen::gen(r, &wasmgen::Cfg { max_funcs: 5, max_other: 2, stmts: 3, ..Default::default() });
    std::fs::write(dir.join("in.wasm"), &m.bytes).unwrap();
    std::fs::write(dir.join("new.wasm"), &n.bytes).unwrap();
    if w.mode == Some("dwarf") {
        w.mode = None;
    }
    if w.out.as_deref().map_or(false, |o| o != "-") {
        w.out = Some("out".into());
    }
    let l = spell(c, r, s, &w, "in.wasm", "new.wasm");
    let d = proc::go(proc::Run { args: l.iter().map(OsString::from).collect(), out: proc::Out::Pipe, cwd: Some(&dir), fsize: None, env: vec![] });
    let got = if w.out.as_deref() == Some("out") { std::fs::read(dir.join("out")).unwrap_or_default() } else { d.out.clone() };
    let mut a = twiggy_parser::parse(&m.bytes).unwrap();
    let mut b = twiggy_parser::parse(&n.bytes).unwrap();
    let f = match w.fmt {
        Some("json") => Fmt::Json,
        Some("csv") => Fmt::Csv,
        _ => Fmt::Text,
    };
    let _ = std::fs::remove_dir_all(&dir);
    match run_fmt(&mut a, Some(&mut b), &options(s.sub, &w.plain(s)).unwrap(), f) {
        Ok(t) => {
            c.count("process accepted");
            if !d.ok() || got != t.as_bytes() {
                c.fail(format!("twiggy {:?}: {}; ought to deliver {:?}", l, d.brief(), t));
            }
        }
        Err(e) => {
            c.count("process refused");
            if d.ok() {
                c.fail(format!("twiggy {:?}: {}; ought to be refused: {}", l, d.brief(), e));
            }
        }
    }
}

fn setters(c: &mut Ctx, r: &mut Rng, s: &'static Spec, g: &Graph, a: &mut Items, b: &mut Items) {
    // fresh, or parsed from a command line
    let mut w = Want::default();
    let mut o = if r.bool() {
        c.count("setters on fresh options");
        match s.sub {
            "top" => Options::Top(if r.bool() { opt::Top::new() } else { Default::default() }),
            "dominators" => Options::Dominators(if r.bool() { opt::Dominators::new() } else { Default::default() }),
            "paths" => Options::Paths(if r.bool() { opt::Paths::new() } else { Default::default() }),
            "monos" => Options::Monos(if r.bool() { opt::Monos::new() } else { Default::default() }),
            "garbage" => Options::Garbage(if r.bool() { opt::Garbage::new() } else { Default::default() }),
            _ => Options::Diff(Default::default()),
        }
    } else {
        c.count("setters on parsed options");
        w = wish(r, s, &g.name);
        let l = spell(c, r, s, &w, "in.wasm", "new.wasm");
        match parse(&l) {
            Ok(o) => o,
            Err(e) => return c.fail(format!("{:?} is refused: {}", l, e)),
        }
    };
    let start = w.clone();
    let mut calls: Vec<String> = vec![];
    for _ in 0..r.below(7) {
        let v = if r.bool() { number(r) } else { r.below(5) as u32 };
        let t = r.bool();
        let mut flag = |w: &mut Want, k: &'static str| {
            calls.push(format!("{}({})", k, t));
            if t {
                w.flags.insert(k);
            } else {
                w.flags.remove(k);
            }
        };
        let mut num: Option<&'static str> = None;
        match &mut o {
            Options::Top(x) => match r.below(3) {
                0 => {
                    x.set_max_items(v);
                    num = Some("items");
                }
                1 => {
                    x.set_retained(t);
                    flag(&mut w, "retained");
                }
                _ => {
                    x.set_retaining_paths(t);
                    flag(&mut w, "retaining_paths");
                }
            },
            Options::Dominators(x) => match r.below(3) {
                0 => {
                    x.set_max_depth(v);
                    num = Some("depth");
                }
                1 => {
                    x.set_max_rows(v);
                    num = Some("rows");
                }
                _ => {
                    x.set_using_regexps(t);
                    flag(&mut w, "regex");
                }
            },
            Options::Paths(x) => match r.below(5) {
                0 => {
                    x.set_max_depth(v);
                    num = Some("depth");
                }
                1 => {
                    x.set_max_paths(v);
                    num = Some("rows");
                }
                2 => {
                    x.set_using_regexps(t);
                    flag(&mut w, "regex");
                }
                3 => {
                    x.set_descending(t);
                    flag(&mut w, "descending");
                }
                _ => {
                    if g.n() == 0 {
                        continue;
                    }
                    let n = r.pick(&g.name).clone();
                    calls.push(format!("add {:?}", n));
                    x.add_function(n.clone());
                    w.names.push(n);
                }
            },
            Options::Monos(x) => match r.below(3) {
                0 => {
                    x.set_max_generics(v);
                    num = Some("generics");
                }
                1 => {
                    x.set_max_monos(v);
                    num = Some("monos");
                }
                _ => {
                    x.set_only_generics(t);
                    flag(&mut w, "only_generics");
                }
            },
            Options::Garbage(x) => {
                x.set_max_items(v);
                num = Some("items");
            }
            Options::Diff(x) => match r.below(2) {
                0 => {
                    x.set_max_items(v);
                    num = Some("items");
                }
                _ => {
                    x.set_using_regexps(t);
                    flag(&mut w, "regex");
                }
            },
        }
        if let Some(k) = num {
            // the one set takes the value; the others stay what they were
            let mut e = w.effective(s);
            calls.push(format!("{}({})", k, v));
            if e[k] == M && w.flags.iter().any(|f| f.starts_with("all")) {
                c.count("limit set after all");
            }
            e.insert(k, v);
            w.flags.retain(|f| !f.starts_with("all"));
            w.nums = e;
        }
    }
    let ctx = |m: String| format!("{} from {:?} then {:?}: {}", s.sub, start, calls, m);
    if calls.is_empty() {
        c.eval_trivial();
    } else {
        c.eval(format!("{} {:?} {:?}", s.sub, start, calls).as_bytes());
    }
    c.sample(|| format!("{} {:?}", s.sub, calls));
    if let Some(m) = differ(&w.settings(s), &settings(&o)) {
        return c.fail(ctx(m));
    }
    if runnable(s, &w.effective(s)) {
        let p = options(s.sub, &w.plain(s)).unwrap();
        let f = cli::fmt(r);
        let x = run_fmt(a, Some(b), &o, f);
        let y = run_fmt(a, Some(b), &p, f);
        c.count("outputs compared");
        if x != y {
            c.fail(ctx(format!("prints {:?}; {:?} prints {:?}", x, w.plain(s), y)));
        }
    }
}

fn invalid(c: &mut Ctx, r: &mut Rng, s: &'static Spec) {
    let mut w = wish(r, s, &[]);
    let mut l = spell(c, r, s, &w, "in.wasm", "new.wasm");
    let what = match r.below(6) {
        0 | 1 => {
            let n = r.pick(s.nums);
            w.nums.remove(n.key);
            l = spell(c, r, s, &w, "in.wasm", "new.wasm");
            let v = *r.pick(&["x", "4294967296", "99999999999999999999", "1.5", "0x10", "1e3", "5 ", " 5", "1,000", "ten", "5k", "-5", "-1"]);
            for (k, x) in valued(c, r, n.short, n.long, v).into_iter().enumerate() {
                l.insert(1 + k, x);
            }
            "refused value"
        }
        2 => {
            w.mode = None;
            w.fmt = None;
            l = spell(c, r, s, &w, "in.wasm", "new.wasm");
            let bad_mode = *r.pick(&["WASM", "elf", "wasm,dwarf", "Auto", "macho", "wasm32", "w"]);
            let bad_fmt = *r.pick(&["JSON", "xml", "html", "dot", "txt", "j", "yaml"]);
            let v = if r.bool() { valued(c, r, "", "--mode", bad_mode) } else { valued(c, r, "-f", "--format", bad_fmt) };
            for (k, x) in v.into_iter().enumerate() {
                l.insert(1 + k, x);
            }
            "refused value"
        }
        3 => {
            // no input, or for diff only one
            l = vec![s.sub.to_string()];
            if s.sub == "diff" && r.bool() {
                l.push("in.wasm".into());
            }
            for f in s.flags {
                if r.chance(1, 3) {
                    l.push(f.long.into());
                }
            }
            "refused without input"
        }
        4 => {
            let x = r.pick(&["--no-such-option", "-Z", "--max-things=3", "--REGEX", "--retained-size", "-x", "--", "--output=x"]).to_string();
            if x == "--" {
                if s.names {
                    return;
                }
                if !l.contains(&x) {
                    l.push(x);
                }
                l.push("surplus".into());
            } else {
                l.insert(1, x);
            }
            "refused unknown option"
        }
        _ => {
            l[0] = r.pick(&["tops", "Top", "size", "domin", ""]).to_string();
            "refused subcommand"
        }
    };
    c.count(what);
    c.eval(format!("{:?}", l).as_bytes());
    if let Ok(o) = parse(&l) {
        return c.fail(format!("{:?} is accepted as {:?}", l, o));
    }
    if r.chance(1, 8) {
        // with files that could be read
        let dir = c.scratch.join("c22");
        std::fs::create_dir_all(&dir).unwrap();
        let m = wasmgen::gen(r, &wasmgen::Cfg { max_funcs: 2, max_other: 1, stmts: 1, ..Default::default() });
        std::fs::write(dir.join("in.wasm"), &m.bytes).unwrap();
        std::fs::write(dir.join("new.wasm"), &m.bytes).unwrap();
        let d = proc::go(proc::Run { args: l.iter().map(OsString::from).collect(), out: proc::Out::Pipe, cwd: Some(&dir), fsize: None, env: vec![] });
        let _ = std::fs::remove_dir_all(&dir);
        c.count("process refused");
        if d.ok() || d.code.is_none() || d.err.is_empty() || !d.out.is_empty() {
            c.fail(format!("twiggy {:?}: {}", l, d.brief()));
        }
    }
}
