//! Readers that turn each analysis's text, JSON and CSV output into one shape.
use crate::json::{self, J};
use crate::sut::Fmt;
use crate::tab;

#[derive(Clone, Debug, PartialEq)]
pub struct Row {
    pub name: String,
    pub size: Option<i64>,
    pub pct: Option<f64>,
    /// retained size and percentage where both are shown
    pub ret: Option<(i64, f64)>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Node {
    pub name: String,
    pub size: Option<i64>,
    pub pct: Option<f64>,
    pub ret: Option<(i64, f64)>,
    pub id: Option<u64>,
    pub path: Option<String>,
    pub kids: Vec<Node>,
}
impl Node {
    pub fn count(&self) -> usize {
        1 + self.kids.iter().map(|k| k.count()).sum::<usize>()
    }
    /// A form that does not depend on the order of siblings.
    pub fn canon(&self, show: &dyn Fn(&Node) -> String) -> String {
        let mut k: Vec<String> = self.kids.iter().map(|x| x.canon(show)).collect();
        k.sort();
        format!("{}[{}]", show(self), k.join(" "))
    }
    pub fn preorder<'a>(&'a self, depth: usize, out: &mut Vec<(usize, &'a Node)>) {
        out.push((depth, self));
        for k in &self.kids {
            k.preorder(depth + 1, out);
        }
    }
}
pub fn forest_rows(f: &[Node]) -> Vec<(usize, &Node)> {
    let mut v = vec![];
    for n in f {
        n.preorder(0, &mut v);
    }
    v
}

pub fn int(s: &str) -> Result<i64, String> {
    if s.is_empty() || (s.starts_with('0') && s.len() > 1) {
        return Err(format!("not a number: {:?}", s));
    }
    s.parse::<i64>().map_err(|_| format!("not a number: {:?}", s))
}
pub fn pct_text(s: &str) -> Result<f64, String> {
    let t = s.strip_suffix('%').ok_or_else(|| format!("not a percentage: {:?}", s))?;
    let d = t.rfind('.').ok_or_else(|| format!("not a percentage: {:?}", s))?;
    if t.len() - d != 3 {
        return Err(format!("not two decimals: {:?}", s));
    }
    float(t)
}
pub fn float(s: &str) -> Result<f64, String> {
    let v: f64 = s.parse().map_err(|_| format!("not a number: {:?}", s))?;
    if !v.is_finite() {
        return Err(format!("not finite: {:?}", s));
    }
    Ok(v)
}
pub fn jint(o: &J, k: &str) -> Result<i64, String> {
    match o.get(k) {
        Some(J::Num(n, t)) => {
            if n.fract() != 0.0 || t.contains('.') || t.contains('e') {
                return Err(format!("{} is not an integer: {}", k, t));
            }
            Ok(*n as i64)
        }
        _ => Err(format!("no number {:?} in {:?}", k, o.keys())),
    }
}
pub fn jnum(o: &J, k: &str) -> Result<f64, String> {
    o.get(k).and_then(|x| x.num()).ok_or_else(|| format!("no number {:?} in {:?}", k, o.keys()))
}
pub fn jstr(o: &J, k: &str) -> Result<String, String> {
    o.get(k).and_then(|x| x.str()).map(|s| s.to_string()).ok_or_else(|| format!("no string {:?} in {:?}", k, o.keys()))
}
fn jarr(j: &J) -> Result<&[J], String> {
    j.arr().ok_or_else(|| "not an array".to_string())
}
fn jkeys(o: &J, want: &[&str]) -> Result<(), String> {
    let k = o.keys();
    if k.len() != want.len() || want.iter().any(|w| !k.contains(w)) {
        return Err(format!("object has fields {:?}, expected {:?}", k, want));
    }
    Ok(())
}

/// CSV body under the expected header. Without records the header may be absent.
pub fn csv_body(text: &str, header: &[&str]) -> Result<Vec<Vec<String>>, String> {
    let mut r = tab::csv(text)?;
    if r.is_empty() {
        return Ok(vec![]);
    }
    if r[0] != header {
        return Err(format!("CSV header {:?}, expected {:?}", r[0], header));
    }
    r.remove(0);
    Ok(r)
}
fn table(text: &str, header: &[&str]) -> Result<Vec<Vec<String>>, String> {
    let t = tab::table(text, header.len())?;
    if t.header != header {
        return Err(format!("table header {:?}, expected {:?}", t.header, header));
    }
    Ok(t.rows)
}

/// `top`: listed rows, and for text the summary rows that follow (the last is the total).
pub fn top(text: &str, f: Fmt, retained: bool) -> Result<(Vec<Row>, Vec<Row>), String> {
    match f {
        Fmt::Json => {
            let j = json::parse(text)?;
            let mut v = vec![];
            for o in jarr(&j)? {
                if retained {
                    jkeys(o, &["name", "shallow_size", "shallow_size_percent", "retained_size", "retained_size_percent"])?;
                } else {
                    jkeys(o, &["name", "shallow_size", "shallow_size_percent"])?;
                }
                v.push(Row {
                    name: jstr(o, "name")?,
                    size: Some(jint(o, "shallow_size")?),
                    pct: Some(jnum(o, "shallow_size_percent")?),
                    ret: if retained { Some((jint(o, "retained_size")?, jnum(o, "retained_size_percent")?)) } else { None },
                });
            }
            Ok((v, vec![]))
        }
        Fmt::Csv => {
            let mut v = vec![];
            for r in csv_body(text, &["Name", "ShallowSize", "ShallowSizePercent", "RetainedSize", "RetainedSizePercent"])? {
                if retained == r[3].is_empty() || retained == r[4].is_empty() {
                    return Err("retained columns do not fit the query".into());
                }
                v.push(Row { name: r[0].clone(), size: Some(int(&r[1])?), pct: Some(float(&r[2])?), ret: if retained { Some((int(&r[3])?, float(&r[4])?)) } else { None } });
            }
            Ok((v, vec![]))
        }
        Fmt::Text => {
            let l = if retained { "Retained" } else { "Shallow" };
            let rows = table(text, &[&format!("{} Bytes", l), &format!("{} %", l), "Item"])?;
            let mut v = vec![];
            let mut s = vec![];
            let n = rows.len();
            if n == 0 || !rows[n - 1][2].starts_with("Σ [") {
                return Err("no total row".into());
            }
            for (i, r) in rows.into_iter().enumerate() {
                // The total is the last row; a remainder row may stand before it.
                let more = i + 2 == n && r[2].starts_with("... and ") && r[2].ends_with(" more.");
                if i + 1 == n || more {
                    let dots = r[0] == "...";
                    s.push(Row { name: r[2].clone(), size: if dots { None } else { Some(int(&r[0])?) }, pct: if dots && r[1] == "..." { None } else { Some(pct_text(&r[1])?) }, ret: None });
                } else {
                    let (a, p) = (int(&r[0])?, pct_text(&r[1])?);
                    v.push(if retained { Row { name: r[2].clone(), size: None, pct: None, ret: Some((a, p)) } } else { Row { name: r[2].clone(), size: Some(a), pct: Some(p), ret: None } });
                }
            }
            Ok((v, s))
        }
    }
}

/// `garbage`: all rows including the summaries at the end.
pub fn garbage(text: &str, f: Fmt) -> Result<Vec<Row>, String> {
    let mut v = vec![];
    match f {
        Fmt::Json => {
            let j = json::parse(text)?;
            for o in jarr(&j)? {
                jkeys(o, &["name", "bytes", "size_percent"])?;
                v.push(Row { name: jstr(o, "name")?, size: Some(jint(o, "bytes")?), pct: Some(jnum(o, "size_percent")?), ret: None });
            }
        }
        Fmt::Csv => {
            for r in csv_body(text, &["Name", "Bytes", "SizePercent"])? {
                v.push(Row { name: r[0].clone(), size: Some(int(&r[1])?), pct: Some(float(&r[2])?), ret: None });
            }
        }
        Fmt::Text => {
            for r in table(text, &["Bytes", "Size %", "Garbage Item"])? {
                v.push(Row { name: r[2].clone(), size: Some(int(&r[0])?), pct: Some(pct_text(&r[1])?), ret: None });
            }
        }
    }
    Ok(v)
}

/// `diff`: rows with signed deltas, summaries at the end.
pub fn diff(text: &str, f: Fmt) -> Result<Vec<Row>, String> {
    let mut v = vec![];
    let signed = |s: &str| -> Result<i64, String> {
        let m = s.strip_prefix('+').or_else(|| s.strip_prefix('-')).ok_or_else(|| format!("delta without sign: {:?}", s))?;
        Ok(if s.starts_with('-') { -int(m)? } else { int(m)? })
    };
    match f {
        Fmt::Json => {
            let j = json::parse(text)?;
            for o in jarr(&j)? {
                jkeys(o, &["name", "delta_bytes"])?;
                v.push(Row { name: jstr(o, "name")?, size: Some(jint(o, "delta_bytes")?), pct: None, ret: None });
            }
        }
        Fmt::Csv => {
            for r in csv_body(text, &["DeltaBytes", "Item"])? {
                v.push(Row { name: r[1].clone(), size: Some(signed(&r[0])?), pct: None, ret: None });
            }
        }
        Fmt::Text => {
            for r in table(text, &["Delta Bytes", "Item"])? {
                v.push(Row { name: r[1].clone(), size: Some(signed(&r[0])?), pct: None, ret: None });
            }
        }
    }
    Ok(v)
}

/// Rebuilds a forest from rows in preorder with depths.
fn forest(rows: Vec<(usize, Node)>) -> Result<Vec<Node>, String> {
    let mut out: Vec<Node> = vec![];
    let mut st: Vec<Node> = vec![];
    let close = |st: &mut Vec<Node>, out: &mut Vec<Node>| {
        let n = st.pop().unwrap();
        match st.last_mut() {
            Some(p) => p.kids.push(n),
            None => out.push(n),
        }
    };
    for (d, n) in rows {
        if d > st.len() {
            return Err(format!("row {:?} is indented below nothing", n.name));
        }
        while st.len() > d {
            close(&mut st, &mut out);
        }
        st.push(n);
    }
    while !st.is_empty() {
        close(&mut st, &mut out);
    }
    Ok(out)
}

/// Indentation depth and name of a tree label.
fn label(s: &str, arrow: &str) -> (usize, String) {
    let mut t = s;
    let mut d = 0;
    while let Some(x) = t.strip_prefix("    ") {
        d += 1;
        t = x;
    }
    let mark = format!("  {} ", arrow);
    match t.strip_prefix(&mark) {
        Some(n) => (d + 1, n.to_string()),
        None => (0, s.to_string()),
    }
}

pub struct Doms {
    /// JSON and CSV list the meta root itself; this holds its children then.
    pub meta: Option<Node>,
    pub trees: Vec<Node>,
    pub unreachable: Option<Row>,
}

fn jdom(o: &J) -> Result<Node, String> {
    let mut want = vec!["name", "shallow_size", "shallow_size_percent", "retained_size", "retained_size_percent"];
    if o.get("children").is_some() {
        want.push("children");
    }
    jkeys(o, &want)?;
    let mut kids = vec![];
    for k in o.get("children").and_then(|x| x.arr()).unwrap_or(&[]) {
        kids.push(jdom(k)?);
    }
    Ok(Node {
        name: jstr(o, "name")?,
        size: Some(jint(o, "shallow_size")?),
        pct: Some(jnum(o, "shallow_size_percent")?),
        ret: Some((jint(o, "retained_size")?, jnum(o, "retained_size_percent")?)),
        id: None,
        path: None,
        kids,
    })
}

/// `whole`: no items were asked for, so the meta root heads the result in JSON and CSV.
pub fn dominators(text: &str, f: Fmt, whole: bool) -> Result<Doms, String> {
    let mut d = Doms { meta: None, trees: vec![], unreachable: None };
    match f {
        Fmt::Json => {
            let j = json::parse(text)?;
            let mut want = vec!["items"];
            if j.get("summary").is_some() {
                want.push("summary");
            }
            jkeys(&j, &want)?;
            for o in jarr(j.get("items").unwrap())? {
                d.trees.push(jdom(o)?);
            }
            if let Some(s) = j.get("summary") {
                let a = jarr(s)?;
                if a.len() != 1 {
                    return Err("summary has not one entry".into());
                }
                jkeys(&a[0], &["name", "retained_size", "retained_size_percent"])?;
                d.unreachable = Some(Row { name: jstr(&a[0], "name")?, size: Some(jint(&a[0], "retained_size")?), pct: Some(jnum(&a[0], "retained_size_percent")?), ret: None });
            }
            if whole {
                if d.trees.len() != 1 {
                    return Err(format!("{} top-level objects for the whole tree", d.trees.len()));
                }
                let m = d.trees.pop().unwrap();
                d.trees = m.kids.clone();
                d.meta = Some(m);
            }
        }
        Fmt::Csv => {
            let rows = csv_body(text, &["Id", "Name", "ShallowSize", "ShallowSizePercent", "RetainedSize", "RetainedSizePercent", "ImmediateDominator"])?;
            let mut list: Vec<(usize, Node)> = vec![];
            // the current chain of identifiers
            let mut st: Vec<String> = vec![];
            let n = rows.len();
            for (i, r) in rows.into_iter().enumerate() {
                if r[0].is_empty() {
                    if i + 1 != n || !r[6].is_empty() || r[2] != r[4] || r[3] != r[5] {
                        return Err("malformed unreachable summary".into());
                    }
                    d.unreachable = Some(Row { name: r[1].clone(), size: Some(int(&r[4])?), pct: Some(float(&r[5])?), ret: None });
                    break;
                }
                let depth = match st.iter().rposition(|x| *x == r[6]) {
                    Some(p) if r[0] != r[6] => p + 1,
                    _ => 0,
                };
                st.truncate(depth);
                st.push(r[0].clone());
                list.push((
                    depth,
                    Node { name: r[1].clone(), size: Some(int(&r[2])?), pct: Some(float(&r[3])?), ret: Some((int(&r[4])?, float(&r[5])?)), id: Some(r[0].parse().map_err(|_| "id")?), path: Some(r[6].clone()), kids: vec![] },
                ));
            }
            d.trees = forest(list)?;
            if whole {
                if d.trees.len() != 1 {
                    return Err(format!("{} rows that hang below nothing in the whole tree", d.trees.len()));
                }
                let m = d.trees.pop().unwrap();
                d.trees = m.kids.clone();
                d.meta = Some(m);
            }
        }
        Fmt::Text => {
            let mut rows = table(text, &["Retained Bytes", "Retained %", "Dominator Tree"])?;
            if whole {
                if let Some(l) = rows.last() {
                    if l[2].starts_with('[') && l[2].ends_with(" Unreachable Items]") {
                        d.unreachable = Some(Row { name: l[2].clone(), size: Some(int(&l[0])?), pct: Some(pct_text(&l[1])?), ret: None });
                        rows.pop();
                    }
                }
            }
            let mut list = vec![];
            for r in rows {
                let (depth, name) = label(&r[2], "⤷");
                list.push((depth, Node { name, size: None, pct: None, ret: Some((int(&r[0])?, pct_text(&r[1])?)), id: None, path: None, kids: vec![] }));
            }
            d.trees = forest(list)?;
        }
    }
    Ok(d)
}

fn jpath(o: &J) -> Result<Node, String> {
    jkeys(o, &["name", "shallow_size", "shallow_size_percent", "callers"])?;
    let mut kids = vec![];
    for k in jarr(o.get("callers").unwrap())? {
        kids.push(jpath(k)?);
    }
    Ok(Node { name: jstr(o, "name")?, size: Some(jint(o, "shallow_size")?), pct: Some(jnum(o, "shallow_size_percent")?), ret: None, id: None, path: None, kids })
}

/// `paths` in JSON and text gives trees; CSV has no nesting and gives one node per record.
pub fn paths(text: &str, f: Fmt, descending: bool) -> Result<Vec<Node>, String> {
    match f {
        Fmt::Json => {
            let j = json::parse(text)?;
            jarr(&j)?.iter().map(jpath).collect()
        }
        Fmt::Csv => {
            let mut v = vec![];
            for r in csv_body(text, &["Name", "ShallowSize", "ShallowSizePercent", "Path"])? {
                v.push(Node { name: r[0].clone(), size: Some(int(&r[1])?), pct: Some(float(&r[2])?), ret: None, id: None, path: Some(r[3].clone()), kids: vec![] });
            }
            Ok(v)
        }
        Fmt::Text => {
            let mut list = vec![];
            for r in table(text, &["Shallow Bytes", "Shallow %", "Retaining Paths"])? {
                let (depth, name) = label(&r[2], if descending { "↳" } else { "⬑" });
                if (depth == 0) == r[0].is_empty() || r[0].is_empty() != r[1].is_empty() {
                    return Err(format!("sizes shown at the wrong depth: {:?}", r));
                }
                let (size, pct) = if depth == 0 { (Some(int(&r[0])?), Some(pct_text(&r[1])?)) } else { (None, None) };
                list.push((depth, Node { name, size, pct, ret: None, id: None, path: None, kids: vec![] }));
            }
            forest(list)
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Group {
    pub name: String,
    pub bloat: i64,
    pub bloat_pct: f64,
    pub size: i64,
    pub pct: f64,
    pub insts: Vec<Row>,
    /// CSV shows the instantiations as one string.
    pub joined: Option<String>,
}

pub fn monos(text: &str, f: Fmt) -> Result<Vec<Group>, String> {
    let mut v: Vec<Group> = vec![];
    match f {
        Fmt::Json => {
            let j = json::parse(text)?;
            for o in jarr(&j)? {
                jkeys(o, &["generic", "approximate_monomorphization_bloat_bytes", "approximate_monomorphization_bloat_percent", "total_size", "total_size_percent", "monomorphizations"])?;
                let mut insts = vec![];
                for i in jarr(o.get("monomorphizations").unwrap())? {
                    jkeys(i, &["name", "shallow_size", "shallow_size_percent"])?;
                    insts.push(Row { name: jstr(i, "name")?, size: Some(jint(i, "shallow_size")?), pct: Some(jnum(i, "shallow_size_percent")?), ret: None });
                }
                v.push(Group {
                    name: jstr(o, "generic")?,
                    bloat: jint(o, "approximate_monomorphization_bloat_bytes")?,
                    bloat_pct: jnum(o, "approximate_monomorphization_bloat_percent")?,
                    size: jint(o, "total_size")?,
                    pct: jnum(o, "total_size_percent")?,
                    insts,
                    joined: None,
                });
            }
        }
        Fmt::Csv => {
            for r in csv_body(text, &["Generic", "ApproximateMonomorphizationBloatBytes", "ApproximateMonomorphizationBloatPercent", "TotalSize", "TotalSizePercent", "Monomorphizations"])? {
                v.push(Group { name: r[0].clone(), bloat: int(&r[1])?, bloat_pct: float(&r[2])?, size: int(&r[3])?, pct: float(&r[4])?, insts: vec![], joined: Some(r[5].clone()) });
            }
        }
        Fmt::Text => {
            for r in table(text, &["Apprx. Bloat Bytes", "Apprx. Bloat %", "Bytes", "%", "Monomorphizations"])? {
                if r[0].is_empty() {
                    let name = r[4].strip_prefix("    ").ok_or("instantiation not indented")?.to_string();
                    if !r[1].is_empty() {
                        return Err("bloat shown for an instantiation".into());
                    }
                    v.last_mut().ok_or("instantiation before any generic")?.insts.push(Row { name, size: Some(int(&r[2])?), pct: Some(pct_text(&r[3])?), ret: None });
                } else {
                    v.push(Group { name: r[4].clone(), bloat: int(&r[0])?, bloat_pct: pct_text(&r[1])?, size: int(&r[2])?, pct: pct_text(&r[3])?, insts: vec![], joined: None });
                }
            }
        }
    }
    Ok(v)
}

/// Whether a printed percentage is size/total.
pub fn pct_ok(f: Fmt, shown: f64, size: i64, total: u32) -> bool {
    let want = size as f64 / f64::from(total) * 100.0;
    match f {
        Fmt::Text => (shown - want).abs() <= 0.005 + 1e-9 * want.abs() + 1e-9,
        _ => (shown - want).abs() <= 1e-9 * want.abs() + 1e-12,
    }
}

/// A list that must be the `limit` largest of `all` (sorted largest first),
/// where equals may come in any order.
pub fn ranked(shown: &[(String, i64)], all: &[(String, i64)], limit: usize) -> Result<(), String> {
    let k = limit.min(all.len());
    if shown.len() != k {
        return Err(format!("{} rows listed, expected {}", shown.len(), k));
    }
    let mut pool: std::collections::HashMap<(&str, i64), i64> = Default::default();
    for (n, s) in all {
        *pool.entry((n.as_str(), *s)).or_insert(0) += 1;
    }
    for (i, (n, s)) in shown.iter().enumerate() {
        if *s != all[i].1 {
            return Err(format!("row {} has size {}, expected {} ({:?})", i, s, all[i].1, n));
        }
        let e = pool.entry((n.as_str(), *s)).or_insert(0);
        *e -= 1;
        if *e < 0 {
            return Err(format!("row {} ({:?}, {}) is no such item or listed too often", i, n, s));
        }
    }
    Ok(())
}
