//! C26: what emitters make of the errors of the writer they are given.
use super::formats::{edges, limits, other, subject};
use crate::ctx::Ctx;
use crate::graphgen::{self, GCfg};
use crate::query;
use crate::sut::*;
use crate::Prop;
use std::io::{self, ErrorKind, Write};

pub const C26: Prop = Prop {
    id: "C26",
    rule: "Random item graphs and wasm modules, random queries of all six analyses in the three formats, emitted through the trait's general and its particular functions into writers that fail at a given call (once or from then on, with errors of several kinds), accept a given number of bytes, accept few bytes at a time, are interrupted, or accept nothing; evaluation = one emission judged: success only if the writer holds exactly what a perfect one received, an error only if the writer gave one, and otherwise a prefix. Non-trivial: a fault was met; distinct by items, query, format and fault.",
    quick: 60_000,
    thorough: 1_500_000,
    run: c26,
    level: "fault_enumeration",
    cpu: 60,
    must: &["top", "dominators", "paths", "monos", "garbage", "diff", "text", "json", "csv", "every call of an emission failed in turn", "failed once", "fails from some call on", "full after some bytes", "a few bytes at a time", "interrupted", "accepts nothing", "last call failed", "particular function", "errors reported", "complete in spite of short writes", "wasm modules"],
    mem: 6,
};

#[derive(Clone, Debug, PartialEq)]
enum Fault {
    None,
    /// The call of that number fails, alone or with all after it.
    Call(usize, ErrorKind, bool),
    /// Only so many bytes fit.
    Room(usize),
    /// No call takes more bytes than that.
    Short(usize),
    /// Every so manieth call is interrupted.
    Interrupt(usize),
    /// From that call on nothing is accepted, without an error.
    Nothing(usize),
}
struct W {
    out: Vec<u8>,
    calls: usize,
    fault: Fault,
    met: bool,
}
impl W {
    fn new(fault: Fault) -> W {
        W { out: vec![], calls: 0, fault, met: false }
    }
}
impl Write for W {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let k = self.calls;
        self.calls += 1;
        let mut n = b.len();
        match self.fault {
            Fault::None => {}
            Fault::Call(at, kind, on) => {
                if k == at || (on && k > at) {
                    self.met = true;
                    return Err(io::Error::new(kind, "the writer's error"));
                }
            }
            Fault::Room(room) => {
                n = n.min(room - self.out.len());
                if n == 0 && !b.is_empty() {
                    self.met = true;
                    return Err(io::Error::from_raw_os_error(28));
                }
            }
            Fault::Short(most) => {
                if n > most {
                    n = most;
                    self.met = true;
                }
            }
            Fault::Interrupt(every) => {
                if k % every == every - 1 {
                    self.met = true;
                    return Err(ErrorKind::Interrupted.into());
                }
            }
            Fault::Nothing(at) => {
                if k >= at && !b.is_empty() {
                    self.met = true;
                    return Ok(0);
                }
            }
        }
        self.out.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn c26(c: &mut Ctx) {
    let mut r = c.rng(26);
    let cfg = GCfg { max_n: 10, dup: if r.chance(1, 4) { 20 } else { 0 }, hostile: r.chance(1, 4), generics: r.bool(), ..Default::default() };
    let (g, mut items) = match subject(c, &mut r, &cfg) {
        Some(x) => x,
        None => return,
    };
    let mut new = other(&mut r, &g);
    let dense = edges(&g) > g.n() * 2;
    let sub = *r.pick(&query::SUBS);
    c.count(sub);
    let filter = r.chance(1, 4);
    let mut q = query::gen(&mut r, sub, &g.name, filter);
    limits(&mut r, &mut q, g.n(), dense, false);
    let o = q.options();
    let ctx = |m: String| format!("{} ({} {:?}) on {} named {:?}", m, sub, q.args(), graphgen::describe(&g), g.name);
    let data = match analysis(&mut items, Some(&mut new), &o) {
        Ok(d) => d,
        Err(_) => return c.eval_trivial(),
    };
    for f in FMTS {
        c.count(f.name());
        let particular = r.chance(1, 3);
        if particular {
            c.count("particular function");
        }
        let emit = |w: &mut W| -> Result<(), String> {
            let d = &mut *w as &mut dyn Write;
            match (particular, f) {
                (false, _) => data.emit(&items, d, f.of()),
                (_, Fmt::Text) => data.emit_text(&items, d),
                (_, Fmt::Json) => data.emit_json(&items, d),
                (_, Fmt::Csv) => data.emit_csv(&items, d),
            }
            .map_err(|e| e.to_string())
        };
        let mut perfect = W::new(Fault::None);
        if let Err(e) = emit(&mut perfect) {
            return c.fail(ctx(format!("{} fails on a perfect writer: {}", f.name(), e)));
        }
        let (full, calls) = (perfect.out, perfect.calls);
        let kinds = [ErrorKind::Other, ErrorKind::BrokenPipe, ErrorKind::WouldBlock, ErrorKind::UnexpectedEof, ErrorKind::WriteZero, ErrorKind::InvalidData, ErrorKind::OutOfMemory, ErrorKind::TimedOut];
        let kind = *r.pick(&kinds);
        let mut faults = vec![Fault::None];
        // failing calls: each in turn, or some and the last ones
        let each: Vec<usize> = if calls <= 24 || r.chance(1, 24) {
            c.count("every call of an emission failed in turn");
            (0..calls.min(3000)).collect()
        } else {
            let mut v: Vec<usize> = (0..6).map(|_| r.below(calls)).collect();
            v.extend([0, 1, calls - 3, calls - 2, calls - 1]);
            v
        };
        for &k in &each {
            let on = r.bool();
            faults.push(Fault::Call(k, kind, on));
        }
        if calls > 0 {
            faults.push(Fault::Call(calls - 1, kind, false));
            let k = r.below(calls);
            faults.push(Fault::Nothing(k));
        }
        for _ in 0..3 {
            let n = r.below(full.len() + 1);
            faults.push(Fault::Room(n));
        }
        faults.push(Fault::Room(full.len()));
        faults.push(Fault::Room(full.len().saturating_sub(1)));
        let s = r.range(1, 7);
        faults.push(Fault::Short(s));
        let s = r.range(2, 9);
        faults.push(Fault::Interrupt(s));
        for fault in faults {
            let mut w = W::new(fault.clone());
            let res = emit(&mut w);
            let shown = |m: &str| ctx(format!("{} {} of {} calls and {} bytes into a writer with {:?}: {}; {} bytes received, result {:?}", f.name(), if particular { "(particular function)" } else { "(emit)" }, calls, full.len(), fault, m, w.out.len(), res));
            if w.met {
                c.count(match fault {
                    Fault::None => "",
                    Fault::Call(_, _, false) => "failed once",
                    Fault::Call(_, _, true) => "fails from some call on",
                    Fault::Room(_) => "full after some bytes",
                    Fault::Short(_) => "a few bytes at a time",
                    Fault::Interrupt(_) => "interrupted",
                    Fault::Nothing(_) => "accepts nothing",
                });
                if matches!(fault, Fault::Call(k, _, _) if k == calls - 1) {
                    c.count("last call failed");
                }
                c.eval(format!("{}{:?}{:?}{}{:?}", graphgen::describe(&g), g.name, q.args(), f.name(), fault).as_bytes());
                c.sample(|| format!("{} {} of {} calls, {:?}: {:?}", sub, f.name(), calls, fault, res));
            } else {
                c.eval_trivial();
            }
            let gives = !matches!(fault, Fault::None | Fault::Short(_) | Fault::Interrupt(_));
            match &res {
                Ok(()) if w.out != full => return c.fail(shown("succeeds although not everything was written")),
                Ok(()) => {
                    if matches!(fault, Fault::Short(_)) && w.met {
                        c.count("complete in spite of short writes");
                    }
                }
                Err(_) if !w.met || !gives => return c.fail(shown("fails although the writer did not")),
                Err(_) => {
                    c.count("errors reported");
                    // what comes after a failed call is not prescribed
                    let once = matches!(fault, Fault::Call(_, _, false));
                    if !once && !full.starts_with(&w.out) {
                        return c.fail(shown("what was received is not the beginning of the output"));
                    }
                }
            }
        }
    }
}
