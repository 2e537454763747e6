//! C17: how the input is delivered and the reader is driven.  C18: entries do not influence each other.

use super::*;
use crate::{
    gen,
    observe::Outcome,
    render::{self, Layout},
};
use poreader::{CatalogueReader, PoParser};
use std::io::{self, Read};

pub static PROPS: &[Prop] = &[
    Prop {
        id: "C17",
        title: "Delivery independence",
        rule: "well-formed and mutated inputs delivered through a Read with random chunk sizes (1 byte to all, magic sizes), spurious Interrupted errors, and driven by random mixes of next/nth/take/skip/position with header queries between, and as a whole by count, last, fold, for_each, collect, partition, try_for_each, peekable, fuse, step_by, take_while; also sources that fail; compared with one slice read by next only; non-trivial: more than one chunk and at least one item",
        run: c17,
        quick: 6000,
        thorough: 240000,
        fixed: Some(super::giants::c17),
        probes: &[],
    },
    Prop {
        id: "C18",
        title: "Entry locality",
        rule: "catalogues of 2..40 entries (spikes of thousands) against each entry alone under the same header, a permutation, and the same entries under another header with the same plural rule (also one whose comments are those of an entry); several readers of one parser interleaved in random order; non-trivial: at least two different entries",
        run: c18,
        quick: 2800,
        thorough: 112000,
        fixed: Some(super::giants::c18),
        probes: &[],
    },
];

/// Delivers `data` in chunks of the given sizes (cycled); size 0 means an Interrupted error.
pub struct Chunky<'a> {
    pub data: &'a [u8],
    pub pos: usize,
    pub sizes: Vec<usize>,
    pub k: usize,
    pub reads: usize,
}

impl<'a> Read for Chunky<'a> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.reads += 1;
        let n = if self.sizes.is_empty() { usize::MAX } else { self.sizes[self.k % self.sizes.len()] };
        self.k += 1;
        if n == 0 {
            return Err(io::Error::new(io::ErrorKind::Interrupted, "again"));
        }
        let n = n.min(buf.len()).min(self.data.len() - self.pos);
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

pub fn sizes(t: &mut Tape) -> Vec<usize> {
    let k = t.range(1, 6);
    let mut v: Vec<usize> = (0..k)
        .map(|_| match t.weighted(&[4, 3, 2, 2]) {
            0 => t.range(1, 4),
            1 => t.range(1, 200),
            2 => *t.pick(&[8191, 8192, 8193, 4096, 1024, 512, 100_000]),
            _ => 0,
        })
        .collect();
    if v.iter().all(|n| *n == 0) {
        v.push(1);
    }
    v
}

fn same(a: &Outcome, b: &Outcome) -> Res {
    observe::diff("header", &a.header, &b.header)?;
    observe::diff_units(&a.units, &b.units)?;
    observe::diff("error", &a.error, &b.error)?;
    observe::diff("rejected at open", &a.at_open, &b.at_open)
}

fn drive<R: Read>(p: &PoParser, r: R, t: &mut Tape, want: &Outcome) -> Res {
    let mut rd = match p.parse(r) {
        Ok(r) => r,
        Err(e) => {
            let o = Outcome { header: None, units: vec![], error: Some(observe::err(&e)), at_open: true };
            return same(want, &o);
        }
    };
    let total = want.units.len() + want.error.is_some() as usize;
    // what next() number `i` must give
    let expect = |i: usize| -> Option<Result<ObsUnit, ObsErr>> {
        if i < want.units.len() {
            Some(Ok(want.units[i].clone()))
        } else if i < total {
            Some(Err(want.error.clone().unwrap()))
        } else {
            None
        }
    };
    let ob = |x: Option<Result<poreader::unit::Unit, poreader::error::Error>>| x.map(|r| r.map(|u| observe::unit(&u)).map_err(|e| observe::err(&e)));
    let mut i = 0;
    let mut steps = 0;
    while i <= total && steps < 60 {
        steps += 1;
        let (lo, hi) = rd.size_hint();
        let left = total.saturating_sub(i);
        ensure(lo <= left && hi.map_or(true, |h| h >= left), || format!("size_hint ({lo}, {hi:?}) with {left} items left"))?;
        match t.weighted(&[5, 3, 2, 2, 1, 2, 1]) {
            0 => {
                observe::diff("next", &expect(i), &ob(rd.next()))?;
                i += 1;
            }
            1 => {
                let k = t.below(4);
                observe::diff("nth", &expect(i + k), &ob(rd.nth(k)))?;
                i += k + 1;
            }
            2 => {
                let k = t.below(5);
                let got: Vec<_> = rd.by_ref().take(k).map(|x| ob(Some(x)).unwrap()).collect();
                let exp: Vec<_> = (i..i + k).filter_map(&expect).collect();
                observe::diff("take", &exp, &got)?;
                i += k;
            }
            3 => {
                let k = t.below(3);
                observe::diff("skip", &expect(i + k), &ob(rd.by_ref().skip(k).next()))?;
                i += k + 1;
            }
            4 => {
                let n = rd.by_ref().count();
                observe::diff("count", &left, &n)?;
                i = total + 1;
            }
            6 => {
                // stops early and goes on
                let k = t.below(3);
                let got: Option<usize> = rd.by_ref().take(k + 1).position(|x| x.is_err());
                let end = (i + k + 1).min(total);
                let exp = (i..end.max(i)).position(|j| j >= want.units.len());
                observe::diff("position", &exp, &got)?;
                i = match exp {
                    Some(j) => i + j + 1,
                    None => i + k + 1,
                };
            }
            _ => {
                let h = observe::header(&rd);
                observe::diff("header while reading", want.header.as_ref().unwrap(), &h)?;
                ensure(rd.header_properties().len() == h.props.len(), || "header_properties unstable".into())?;
            }
        }
    }
    let rest: Vec<_> = rd.by_ref().map(|x| ob(Some(x)).unwrap()).collect();
    let exp: Vec<_> = (i..total.max(i)).filter_map(&expect).collect();
    observe::diff("rest", &exp, &rest)?;
    ensure(rd.next().is_none(), || "an item after the end".into())
}

/// The reader driven as a whole, in ways other than calling `next`.
fn consume<R: Read>(p: &PoParser, r: R, want: &Outcome, how: usize) -> Res {
    let Ok(mut rd) = p.parse(r) else {
        return ensure(want.at_open, || "rejected at open".into());
    };
    type Item = Result<poreader::unit::Unit, poreader::error::Error>;
    let ob = |x: Item| -> Result<ObsUnit, ObsErr> { x.map(|u| observe::unit(&u)).map_err(|e| observe::err(&e)) };
    let mut all: Vec<Result<ObsUnit, ObsErr>> = want.units.iter().cloned().map(Ok).collect();
    all.extend(want.error.iter().cloned().map(Err));
    let (units, total) = (want.units.len(), all.len());
    match how {
        0 => observe::diff("count()", &total, &rd.count()),
        1 => observe::diff("last()", &all.last().cloned(), &rd.last().map(ob)),
        2 => observe::diff(
            "fold()",
            &all,
            &rd.fold(vec![], |mut v, x| {
                v.push(ob(x));
                v
            }),
        ),
        3 => {
            let mut v = vec![];
            rd.for_each(|x| v.push(ob(x)));
            observe::diff("for_each()", &all, &v)
        }
        4 => {
            let got = rd.collect::<Result<Vec<_>, _>>().map(|v| v.iter().map(observe::unit).collect::<Vec<_>>()).map_err(|e| observe::err(&e));
            let exp = match &want.error {
                Some(e) => Err(e.clone()),
                None => Ok(want.units.clone()),
            };
            observe::diff("collect::<Result<Vec<_>, _>>()", &exp, &got)
        }
        5 => {
            let (good, bad): (Vec<Item>, Vec<Item>) = rd.partition(|x| x.is_ok());
            observe::diff("partition()", &(units, total - units), &(good.len(), bad.len()))?;
            observe::diff("partition()", &all, &good.into_iter().chain(bad).map(ob).collect())
        }
        6 => {
            let (lo, hi) = rd.size_hint();
            ensure(lo <= total && hi.map_or(true, |h| h >= total), || format!("size_hint ({lo}, {hi:?}) with {total} items"))?;
            let at = rd.position(|x| x.is_err());
            observe::diff("position()", &want.error.as_ref().map(|_| units), &at)?;
            ensure(rd.next().is_none(), || "an item after position()".into())
        }
        7 => {
            let mut n = 0;
            let e = rd.try_for_each(|x| x.map(|_| n += 1)).err().map(|e| observe::err(&e));
            observe::diff("try_for_each()", &(units, want.error.clone()), &(n, e))
        }
        8 => {
            let mut pk = rd.peekable();
            let mut v = vec![];
            loop {
                let some = pk.peek().is_some();
                let x = pk.next();
                ensure(some == x.is_some(), || "peek() and next() differ".into())?;
                match x {
                    Some(x) => v.push(ob(x)),
                    None => break,
                }
            }
            observe::diff("peekable()", &all, &v)
        }
        9 => observe::diff("fuse()", &all, &rd.fuse().map(ob).collect()),
        10 => observe::diff("step_by(2)", &all.iter().step_by(2).cloned().collect::<Vec<_>>(), &rd.step_by(2).map(ob).collect()),
        11 => {
            let got = rd.nth(units).map(ob);
            observe::diff("nth(number of units)", &want.error.clone().map(Err), &got)?;
            ensure(rd.next().is_none() && rd.nth(1).is_none(), || "an item after nth()".into())
        }
        _ => {
            let got: Vec<_> = (&mut rd).take_while(|x| x.is_ok()).map(ob).collect();
            observe::diff("take_while()", &all[..units].to_vec(), &got)?;
            let got: Vec<_> = (&mut rd).map(ob).collect();
            ensure(got.is_empty(), || format!("after take_while(): {got:?}"))
        }
    }
}
const CONSUMERS: usize = 13;

fn c17(t: &mut Tape, cx: &mut Cx) -> Res {
    let mut m = t.tail(80);
    let (_, s, _) = some_text(t, cx, &gen::CFG);
    let t = &mut m;
    let mut b = s.into_bytes();
    if t.chance(2, 5) {
        b = super::malformed::mutate(b, t, cx);
        cx.class("mutated");
    }
    if t.chance(1, 12) {
        return c17_failing(b, t, cx);
    }
    let base = observe::read_bytes(&b)?;
    let sz = sizes(t);
    let p = observe::parser();
    let mut ch = Chunky { data: &b, pos: 0, sizes: sz.clone(), k: 0, reads: 0 };
    let o = observe::read(&p, &mut ch, b.len() + 4)?;
    cx.class_if(ch.reads > 2, "several-chunks");
    cx.class_if(sz.contains(&0), "interrupted");
    cx.class_if(o.error.is_some(), "error");
    cx.class_if(b.len() > 8192, "over-8KiB");
    cx.case(&b, ch.reads > 2 && (!o.units.is_empty() || o.error.is_some()));
    cx.note(format!("chunks {sz:?}"));
    same(&base, &o)?;
    // a reader on a chained / limited source is the same file
    let cut = t.below(b.len() + 1);
    let o = observe::read(&p, b[..cut].chain(&b[cut..]), b.len() + 4)?;
    same(&base, &o)?;
    let o = observe::read(&p, io::BufReader::with_capacity(1 + t.below(64), &b[..]), b.len() + 4)?;
    same(&base, &o)?;
    drive(&p, &mut Chunky { data: &b, pos: 0, sizes: sz.clone(), k: 0, reads: 0 }, t, &base)?;
    if t.chance(1, 4) {
        c17_grown(&p, &b, &base, cx)?;
    }
    for _ in 0..2 {
        let how = t.below(CONSUMERS);
        consume(&p, &mut Chunky { data: &b, pos: 0, sizes: sz.clone(), k: 0, reads: 0 }, &base, how)?;
    }
    Ok(())
}

/// A source that has more to give after its end, as a file that is written to.
struct Growing<'a> {
    data: &'a [u8],
    more: &'a [u8],
    grown: &'a std::cell::Cell<bool>,
}

impl io::Read for Growing<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let from = if self.data.is_empty() && self.grown.get() { &mut self.more } else { &mut self.data };
        io::Read::read(from, buf)
    }
}

/// Once the reader said that it is at the end, it is.
fn c17_grown(p: &poreader::PoParser, b: &[u8], base: &Outcome, cx: &mut Cx) -> Res {
    let grown = std::cell::Cell::new(false);
    let src = Growing { data: b, more: b"\n\nmsgid \"more\"\nmsgstr \"M\"\n\nmsgid \"and more\"\nmsgstr \"N\"\n", grown: &grown };
    let Ok(mut rd) = p.parse(src) else { return Ok(()) };
    cx.class("grows-after-the-end");
    let mut n = 0;
    loop {
        match rd.next() {
            None => break,
            Some(Ok(u)) => {
                ensure(base.units.get(n) == Some(&observe::unit(&u)), || format!("unit {n} from a source that may grow"))?;
                n += 1;
            }
            Some(Err(_)) => ensure(base.error.is_some(), || "error from a source that may grow".into())?,
        }
        ensure(n <= base.units.len(), || "more units".into())?;
    }
    grown.set(true);
    for _ in 0..3 {
        ensure(rd.next().is_none(), || "something comes after the end".into())?;
    }
    Ok(())
}

/// The same for a source that fails.
fn c17_failing(b: Vec<u8>, t: &mut Tape, cx: &mut Cx) -> Res {
    let at = t.below(b.len() + 1);
    let after = t.below(3);
    let src = || super::faults::Failing { data: &b[..at], pos: 0, kind: io::ErrorKind::Other, code: None, after };
    let p = observe::parser();
    let base = observe::read(&p, src(), b.len() + 8)?;
    cx.class("failing-source");
    cx.case(&b[..at], !base.units.is_empty());
    cx.note(format!("fails at {at}"));
    ensure(base.error.is_some(), || "the failure is not reported".into())?;
    let sz = sizes(t);
    let f = super::faults::ChunkedFail { f: src(), sizes: sz, k: 0 };
    same(&base, &observe::read(&p, f, b.len() + 8)?)?;
    drive(&p, src(), t, &base)?;
    for _ in 0..2 {
        consume(&p, src(), &base, t.below(CONSUMERS))?;
    }
    Ok(())
}

fn c18(t: &mut Tape, cx: &mut Cx) -> Res {
    let mut c = gen::catalogue(t, cx.d, &gen::Cfg { max_entries: 6, spikes: true });
    while c.entries.len() < 2 {
        let forms = c.plural.as_ref().map_or(2, |p| p.count());
        let e = gen::entry(t, cx.d, forms);
        c.entries.push(e);
    }
    // repeated entries are legal and stay apart
    if t.chance(1, 3) {
        let k = t.below(c.entries.len());
        let e = c.entries[k].clone();
        let at = t.below(c.entries.len() + 1);
        c.entries.insert(at, e);
        cx.class("duplicate-entry");
    }
    classify(&c, cx);
    let l = Layout::draw(t);
    let (text, _) = render::catalogue(&c, l, t);
    cx.case(text.as_bytes(), c.entries.windows(2).any(|w| w[0] != w[1]));
    let whole = read(&text)?;
    ensure(whole.error.is_none(), || format!("rejected: {:?}", whole.error))?;
    ensure(whole.units.len() == c.entries.len(), || format!("{} entries, {} units", c.entries.len(), whole.units.len()))?;

    // each entry alone
    let n = c.entries.len();
    let picks: Vec<usize> = if n <= 8 { (0..n).collect() } else { (0..6).map(|_| t.below(n)).chain([0, n - 1]).collect() };
    for k in picks {
        let one = Catalogue { entries: vec![c.entries[k].clone()], trailing: vec![], ..c.clone() };
        let o = read(&render::catalogue(&one, l, t).0)?;
        observe::diff("header alone", &whole.header, &o.header)?;
        observe::diff(&format!("entry {k} alone"), &vec![whole.units[k].clone()], &o.units)?;
    }
    // a permutation
    let mut idx: Vec<usize> = (0..n).collect();
    for i in (1..n).rev() {
        let j = t.below(i + 1);
        idx.swap(i, j);
    }
    let perm = Catalogue { entries: idx.iter().map(|i| c.entries[*i].clone()).collect(), ..c.clone() };
    let (ptext, _) = render::catalogue(&perm, l, t);
    let o = read(&ptext)?;
    ensure(o.units.len() == n && o.error.is_none(), || "permuted file is read differently".into())?;
    for (k, i) in idx.iter().enumerate() {
        observe::diff(&format!("entry {i} after permutation"), &whole.units[*i], &o.units[k])?;
    }
    observe::diff("header after permutation", &whole.header, &o.header)?;

    // under another header with the same rule; its comments are like those of the entries
    let mut other = gen::header(t, cx.d, c.plural.as_ref());
    if t.chance(1, 2) {
        other.comments = c.entries[t.below(n)].comments.clone();
        cx.class("header-comments-of-an-entry");
    }
    let header = if c.plural.is_none() && t.chance(1, 4) { None } else { Some(other) };
    let o = read(&render::catalogue(&Catalogue { header, ..c.clone() }, l, t).0)?;
    ensure(o.units.len() == n && o.error.is_none(), || "another header changes what is read".into())?;
    observe::diff_units(&whole.units, &o.units).map_err(|m| format!("under another header: {m}"))?;

    // several readers of one parser, interleaved
    let p = observe::parser();
    let nh = Catalogue { header: None, plural: None, ..c.clone() };
    let has_plural_limit = c.plural.as_ref().map_or(2, |p| p.count()) <= 2;
    let third = if has_plural_limit || !c.entries.iter().any(|e| matches!(e.body, Body::Plural(..))) {
        render::catalogue(&nh, l, t).0
    } else {
        ptext.clone()
    };
    let texts = [&text, &ptext, &third];
    let alone: Vec<Outcome> = texts.iter().map(|s| read(s)).collect::<Result<_, _>>()?;
    let mut rds = vec![];
    for s in texts {
        match p.parse(s.as_bytes()) {
            Ok(r) => rds.push(r),
            Err(e) => return Err(format!("second reader of the parser rejects: {e}")),
        }
    }
    let mut got: Vec<Vec<ObsUnit>> = vec![vec![], vec![], vec![]];
    let mut live = vec![0usize, 1, 2];
    let mut kept = vec![];
    while !live.is_empty() {
        let j = t.below(live.len());
        let k = live[j];
        match rds[k].next() {
            None => {
                live.remove(j);
            }
            Some(Ok(u)) => {
                got[k].push(observe::unit(&u));
                // units outlive the readers
                if kept.len() < 40 {
                    kept.push((k, got[k].len() - 1, u));
                }
            }
            Some(Err(e)) => return Err(format!("interleaved reader {k}: {e}")),
        }
    }
    for k in 0..3 {
        observe::diff_units(&alone[k].units, &got[k])?;
        observe::diff("header of interleaved reader", alone[k].header.as_ref().unwrap(), &observe::header(&rds[k]))?;
    }
    drop(rds);
    for (k, i, u) in kept {
        observe::diff("a unit kept after its reader is gone", &alone[k].units[i], &observe::unit(&u))?;
        observe::diff("clone of a unit", &alone[k].units[i], &observe::unit(&u.clone()))?;
    }
    Ok(())
}

