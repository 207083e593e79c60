//! Random queries and the common shape of what they print.
use crate::names;
use crate::rng::Rng;
use crate::sut::*;
use crate::views::{self, Doms, Group, Node, Row};

pub const SUBS: [&str; 6] = ["top", "dominators", "paths", "monos", "garbage", "diff"];

#[derive(Clone, Debug)]
pub struct Query {
    pub sub: &'static str,
    /// Flags, without names.
    pub flags: Vec<String>,
    pub names: Vec<String>,
    pub retained: bool,
    pub desc: bool,
    pub regex: bool,
}
impl Query {
    pub fn args(&self) -> Vec<String> {
        let mut a = self.flags.clone();
        if self.regex {
            a.push("--regex".into());
        }
        if !self.names.is_empty() {
            a.push("--".into());
            a.extend(self.names.iter().cloned());
        }
        a
    }
    pub fn with(&self, extra: &[(&str, u32)]) -> Query {
        let mut q = self.clone();
        for (k, v) in extra {
            q.flags.push(k.to_string());
            q.flags.push(v.to_string());
        }
        q
    }
    pub fn options(&self) -> Options {
        options(self.sub, &self.args()).unwrap_or_else(|e| panic!("options {:?} refused: {}", self, e))
    }
    pub fn whole(&self) -> bool {
        self.names.is_empty()
    }
}

/// Names whose every character may mean something in an expression.
pub fn odd_name(r: &mut Rng) -> String {
    let mut s = names::ident(r);
    s.push_str(*r.pick(&["(", "[", "*", "+", "?", "a{", "\\", ".", "|", "^", "$", "(?", "[a-", ")", "{1", "(a|b)", ".*", "[^a]", "a*"]));
    if r.bool() {
        s.push_str(&names::ident(r));
    }
    s
}

/// A query without numeric limits on rows or depth, except on paths, which a
/// depth limit keeps from growing without bounds.
pub fn gen(r: &mut Rng, sub: &'static str, pool: &[String], filter: bool) -> Query {
    let mut q = Query { sub, flags: vec![], names: vec![], retained: false, desc: false, regex: false };
    let mut flag = |q: &mut Query, f: &str| q.flags.push(f.to_string());
    match sub {
        "top" => {
            if r.bool() {
                q.retained = true;
                flag(&mut q, "--retained");
            }
        }
        "paths" => {
            if r.bool() {
                q.desc = true;
                flag(&mut q, "--descending");
            }
        }
        "garbage" => {
            if r.bool() {
                flag(&mut q, "--show-data-segments");
            }
        }
        _ => {}
    }
    if filter && sub != "top" && sub != "garbage" && !pool.is_empty() {
        q.regex = r.chance(1, 3);
        for _ in 0..r.range(1, 3) {
            let n = if r.chance(1, 8) { "no such item".to_string() } else { r.pick(pool).clone() };
            let n = if q.regex { super::props::graph::regex_escape(&n) } else { n };
            if !q.names.contains(&n) {
                q.names.push(n);
            }
        }
        if q.regex && r.bool() {
            q.names = q.names.iter().map(|n| format!("^{}$", n)).collect();
        }
    }
    q
}

pub enum View {
    Top(Vec<Row>, Vec<Row>),
    Rows(Vec<Row>),
    Doms(Doms),
    Paths(Vec<Node>),
    Monos(Vec<Group>),
}
pub fn view(q: &Query, out: &str, f: Fmt) -> Result<View, String> {
    Ok(match q.sub {
        "top" => {
            let (a, b) = views::top(out, f, q.retained)?;
            View::Top(a, b)
        }
        "garbage" => View::Rows(views::garbage(out, f)?),
        "diff" => View::Rows(views::diff(out, f)?),
        "dominators" => View::Doms(views::dominators(out, f, q.whole())?),
        "paths" => View::Paths(views::paths(out, f, q.desc)?),
        "monos" => View::Monos(views::monos(out, f)?),
        _ => unreachable!(),
    })
}

/// One printed line: what every format shows of it.
#[derive(Clone, Debug, PartialEq)]
pub struct Line {
    pub depth: usize,
    pub name: String,
    pub size: Option<i64>,
    pub ret: Option<i64>,
    pub pcts: Vec<(i64, f64)>,
}
fn line(depth: usize, name: &str, size: Option<i64>, pct: Option<f64>, ret: Option<(i64, f64)>) -> Line {
    let mut pcts = vec![];
    if let (Some(a), Some(b)) = (size, pct) {
        pcts.push((a, b));
    }
    if let Some(x) = ret {
        pcts.push(x);
    }
    Line { depth, name: name.to_string(), size, ret: ret.map(|x| x.0), pcts }
}
/// All lines in the order printed; `sums`: also the text-only summary rows of top.
pub fn lines(v: &View) -> Vec<Line> {
    let mut o = vec![];
    match v {
        View::Top(a, _) => o.extend(a.iter().map(|x| line(0, &x.name, x.size, x.pct, x.ret))),
        View::Rows(a) => o.extend(a.iter().map(|x| line(0, &x.name, x.size, x.pct, x.ret))),
        View::Doms(d) => {
            for (k, n) in views::forest_rows(&d.trees) {
                o.push(line(k, &n.name, n.size, n.pct, n.ret));
            }
            if let Some(u) = &d.unreachable {
                let mut l = line(0, &u.name, None, None, Some((u.size.unwrap(), u.pct.unwrap())));
                l.name.insert_str(0, "summary ");
                o.push(l);
            }
        }
        View::Paths(f) => {
            for (k, n) in views::forest_rows(f) {
                o.push(line(k, &n.name, n.size, n.pct, n.ret));
            }
        }
        View::Monos(g) => {
            for x in g {
                let mut l = line(0, &x.name, Some(x.size), Some(x.pct), None);
                l.ret = Some(x.bloat);
                l.pcts.push((x.bloat, x.bloat_pct));
                o.push(l);
                for i in &x.insts {
                    o.push(line(1, &i.name, i.size, i.pct, None));
                }
            }
        }
    }
    o
}
