//! Thin access to the code under test.
use std::collections::BTreeMap;
use structopt::StructOpt;
use twiggy_analyze as analyze;
use twiggy_ir as ir;
use twiggy_opt as opt;
use twiggy_opt::CommonCliOptions;
use twiggy_traits::OutputFormat;

pub use twiggy_ir::{Id, Item, Items, ItemsBuilder};
pub use twiggy_opt::Options;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Fmt {
    Text,
    Json,
    Csv,
}
pub const FMTS: [Fmt; 3] = [Fmt::Text, Fmt::Json, Fmt::Csv];
impl Fmt {
    pub fn name(self) -> &'static str {
        match self {
            Fmt::Text => "text",
            Fmt::Json => "json",
            Fmt::Csv => "csv",
        }
    }
    pub fn of(self) -> OutputFormat {
        match self {
            Fmt::Text => OutputFormat::Text,
            Fmt::Json => OutputFormat::Json,
            Fmt::Csv => OutputFormat::Csv,
        }
    }
}

/// Parses a command line the way the command does. `sub` plus arguments; the
/// input paths are dummies.
pub fn options(sub: &str, args: &[String]) -> Result<Options, String> {
    let mut v: Vec<String> = vec!["twiggy".into(), sub.into()];
    let mut flags: Vec<String> = vec![];
    let mut names: Vec<String> = vec![];
    let mut it = args.iter();
    while let Some(a) = it.next() {
        if a == "--" {
            names.extend(it.cloned());
            break;
        }
        flags.push(a.clone());
    }
    v.extend(flags);
    v.push("--".into());
    v.push("in.wasm".into());
    if sub == "diff" {
        v.push("new.wasm".into());
    }
    v.extend(names);
    Options::from_iter_safe(&v).map_err(|e| e.message)
}

/// Runs one analysis and emits it in the given format.
pub fn run_fmt(items: &mut Items, new: Option<&mut Items>, o: &Options, fmt: Fmt) -> Result<String, String> {
    run_as(items, new, o, fmt.of())
}
/// Runs one analysis and emits it in the format the options name.
pub fn run(items: &mut Items, new: Option<&mut Items>, o: &Options) -> Result<String, String> {
    run_as(items, new, o, o.output_format())
}
/// Runs one analysis.
pub fn analysis(items: &mut Items, new: Option<&mut Items>, o: &Options) -> Result<Box<dyn twiggy_traits::Emit>, String> {
    match o {
        opt::Options::Top(t) => analyze::top(items, t),
        opt::Options::Dominators(t) => analyze::dominators(items, t),
        opt::Options::Paths(t) => analyze::paths(items, t),
        opt::Options::Monos(t) => analyze::monos(items, t),
        opt::Options::Garbage(t) => analyze::garbage(items, t),
        opt::Options::Diff(t) => analyze::diff(items, new.expect("diff needs a second input"), t),
    }
    .map_err(|e| e.to_string())
}
fn run_as(items: &mut Items, new: Option<&mut Items>, o: &Options, f: OutputFormat) -> Result<String, String> {
    let data = analysis(items, new, o)?;
    let mut out = vec![];
    data.emit(items, &mut out, f).map_err(|e| e.to_string())?;
    String::from_utf8(out).map_err(|e| format!("output is not UTF-8: {}", e))
}

/// The graph as the item set reports it, meta root excluded.
#[derive(Clone, Debug)]
pub struct Graph {
    pub name: Vec<String>,
    pub size: Vec<u32>,
    pub code: Vec<bool>,
    pub data: Vec<bool>,
    pub generic: Vec<Option<String>>,
    pub succ: Vec<Vec<usize>>,
    pub pred: Vec<Vec<usize>>,
    pub roots: Vec<usize>,
    pub ids: Vec<Id>,
    pub total: u32,
}

impl Graph {
    pub fn n(&self) -> usize {
        self.name.len()
    }
    pub fn of(items: &Items) -> Result<Graph, String> {
        let mut idx: BTreeMap<Id, usize> = BTreeMap::new();
        let mut g = Graph { name: vec![], size: vec![], code: vec![], data: vec![], generic: vec![], succ: vec![], pred: vec![], roots: vec![], ids: vec![], total: items.size() };
        for i in items.iter() {
            if i.id() == items.meta_root() {
                continue;
            }
            if std::str::from_utf8(i.name().as_bytes()).is_err() {
                return Err(format!("a name is not UTF-8: {:?}", i.name().as_bytes()));
            }
            idx.insert(i.id(), g.ids.len());
            g.ids.push(i.id());
            g.name.push(i.name().to_string());
            g.size.push(i.size());
            g.code.push(matches!(i.kind(), ir::ItemKind::Code(_)));
            g.data.push(i.kind().is_data());
            g.generic.push(i.monomorphization_of().map(|s| s.to_string()));
        }
        let look = |id: Id| idx.get(&id).copied().ok_or_else(|| format!("reference to an item that does not exist ({:?})", id));
        g.pred = vec![vec![]; g.n()];
        for k in 0..g.n() {
            let mut v = vec![];
            for t in items.neighbors(g.ids[k]) {
                let t = look(t)?;
                v.push(t);
                g.pred[t].push(k);
            }
            g.succ.push(v);
        }
        for t in items.neighbors(items.meta_root()) {
            g.roots.push(look(t)?);
        }
        Ok(g)
    }
    /// Items reachable from the roots, optionally with one item removed.
    pub fn reach(&self, without: Option<usize>) -> Vec<bool> {
        let mut seen = vec![false; self.n()];
        let mut st: Vec<usize> = vec![];
        for &r in &self.roots {
            if Some(r) != without && !seen[r] {
                seen[r] = true;
                st.push(r);
            }
        }
        while let Some(x) = st.pop() {
            for &y in &self.succ[x] {
                if Some(y) != without && !seen[y] {
                    seen[y] = true;
                    st.push(y);
                }
            }
        }
        seen
    }
    /// Brute-force dominance: sets, immediate dominators (None = directly under
    /// the meta root), retained sizes.
    pub fn dominance(&self) -> Dom {
        let n = self.n();
        let base = self.reach(None);
        // doms[v] = strict dominators of v
        let mut doms: Vec<Vec<usize>> = vec![vec![]; n];
        let mut retained: Vec<u64> = vec![0; n];
        for d in 0..n {
            if !base[d] {
                retained[d] = u64::from(self.size[d]);
                continue;
            }
            let w = self.reach(Some(d));
            let mut sum = 0u64;
            for v in 0..n {
                if base[v] && !w[v] {
                    sum += u64::from(self.size[v]);
                    if v != d {
                        doms[v].push(d);
                    }
                }
            }
            retained[d] = sum;
        }
        // the immediate dominator is the strict dominator with most strict dominators itself
        let idom = (0..n).map(|v| doms[v].iter().copied().max_by_key(|&d| doms[d].len())).collect();
        Dom { reach: base, idom, retained }
    }
}
#[derive(Clone, Debug)]
pub struct Dom {
    pub reach: Vec<bool>,
    pub idom: Vec<Option<usize>>,
    pub retained: Vec<u64>,
}
