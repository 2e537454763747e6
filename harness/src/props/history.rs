//! C25: looking changes nothing, and the bytes alone decide.  C26: reading goes on while the source arrives.

use super::*;
use crate::{
    alloc, gen,
    observe::Outcome,
    render::{self, Layout},
};
use poreader::{unit::Unit, CatalogueReader, Message, PoParser};
use std::{
    io::{self, Read},
    marker::PhantomData,
};

pub static PROPS: &[Prop] = &[
    Prop {
        id: "C25",
        title: "Determinism and purity",
        rule: "random histories of 20..150 steps over two files open with one parser: next, full looks at kept units, counts asked in related series (n, n+2^k, n+10^k, repeated) of units and rules, clones, drops, comparisons, header queries, readings of either file again, formatting; every answer is compared with the first one or the reference rule; also the same files read in several threads, and (fixed cases) in processes with another environment and order; non-trivial: at least 10 answers compared and a unit asked twice",
        run: c25,
        quick: 4000,
        thorough: 160000,
        fixed: Some(c25_fixed),
        probes: &[],
    },
    Prop {
        id: "C26",
        title: "Streaming",
        rule: "sources that go on for ever (numbered copies of 1..4 generated entries after a generated header, with blank lines between, in random chunks): up to thousands of units are taken one by one; at each the source may have been read at most 256 KiB beyond the next entry but one, the unit carries its own number, and what the reader holds in memory at the end is what it held after a quarter of them; non-trivial: over 100 units",
        run: c26,
        quick: 150,
        thorough: 6000,
        fixed: None,
        probes: &[],
    },
];

/// Can a parser be shared between threads?  (Answered at compile time, without requiring it.)
struct Probe<T>(PhantomData<T>);
trait NotShared {
    fn shared(&self) -> bool {
        false
    }
}
impl<T> NotShared for &Probe<T> {}
trait Shared {
    fn shared(&self) -> bool {
        true
    }
}
impl<T: Sync> Shared for Probe<T> {}

struct Lend<'a>(&'a PoParser);
// only used when PoParser is Sync
unsafe impl Send for Lend<'_> {}

fn threads(texts: &[&str], base: &[Outcome]) -> Res {
    #[allow(clippy::needless_borrow)]
    let shared = (&Probe::<PoParser>(PhantomData)).shared();
    let own = observe::parser();
    let fresh = std::sync::atomic::AtomicBool::new(!shared);
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..4)
            .map(|k| {
                let l = Lend(&own);
                let fresh = &fresh;
                s.spawn(move || -> Res {
                    let l = l;
                    let mine;
                    let p: &PoParser = if fresh.load(std::sync::atomic::Ordering::Relaxed) {
                        mine = PoParser::new();
                        &mine
                    } else {
                        l.0
                    };
                    for i in 0..3 {
                        let j = (k + i) % texts.len();
                        let o = observe::read(p, texts[j].as_bytes(), texts[j].len() + 4)?;
                        same("in another thread", &base[j], &o)?;
                    }
                    Ok(())
                })
            })
            .collect();
        for h in hs {
            h.join().map_err(|_| "panic in a thread".to_string())??;
        }
        Ok(())
    })
}

fn same(what: &str, a: &Outcome, b: &Outcome) -> Res {
    observe::diff(&format!("{what}: header"), &a.header, &b.header)?;
    observe::diff_units(&a.units, &b.units).map_err(|e| format!("{what}: {e}"))?;
    observe::diff(&format!("{what}: error"), &(&a.error, a.at_open), &(&b.error, b.at_open))
}

/// Counts that a confused memory would take for one another.
fn count(t: &mut Tape, asked: &mut Vec<u64>) -> u64 {
    let old = if asked.is_empty() { t.below(30) as u64 } else { *t.pick(asked) };
    let n = match t.weighted(&[4, 3, 3, 2, 2, 1, 1]) {
        0 => t.below(30) as u64,
        1 => old,
        2 => old.wrapping_add(1 << t.range(3, 62)),
        3 => old.wrapping_add(10u64.pow(t.range(1, 18) as u32)),
        4 => old ^ (1 << t.below(16)),
        5 => old & 0xffff_ffff,
        _ => t.u64() >> t.below(60),
    } & (i64::MAX as u64);
    if asked.len() < 12 {
        asked.push(n);
    } else {
        let k = t.below(12);
        asked[k] = n;
    }
    n
}

struct Held {
    file: usize,
    at: usize,
    unit: Unit,
    looks: usize,
}

fn c25(t: &mut Tape, cx: &mut Cx) -> Res {
    let mut m = t.tail(400);
    let mut files: Vec<(Catalogue, String)> = vec![];
    for k in 0..2 {
        let mut c = gen::catalogue(t, cx.d, &gen::Cfg { max_entries: 5, spikes: false });
        if c.plural.is_some() && !c.entries.iter().any(|e| matches!(e.body, Body::Plural(..))) && t.chance(2, 3) {
            let n = c.plural.as_ref().unwrap().count().min(20);
            let mut e = gen::small(gen::entry(t, cx.d, 0));
            e.body = Body::Plural("p".into(), (0..n).map(|i| format!("v{i}")).collect());
            c.entries.push(e);
        }
        if k == 1 && t.chance(1, 2) {
            // the same entries under another rule
            let other: &Catalogue = &files[0].0;
            let forms = c.plural.as_ref().map_or(2, |p| p.count());
            c.entries = other.entries.clone();
            for e in &mut c.entries {
                if let Body::Plural(_, v) = &mut e.body {
                    v.truncate(forms);
                    if v.is_empty() {
                        v.push("x".into());
                    }
                }
            }
        }
        let l = Layout::draw(t);
        let s = render::catalogue(&c, l, t).0;
        files.push((c, s));
    }
    let t = &mut m;
    let broken = t.chance(1, 6);
    if broken {
        // one of the files ends in an error
        files[1].1.push_str("\nmsgid \"z\"\nmsgid \"y\"\n");
        cx.class("with-error");
    }
    let new_parser = t.chance(1, 40);
    let p = if new_parser { std::rc::Rc::new(PoParser::new()) } else { observe::parser() };
    cx.class_if(new_parser, "new-parser");
    let base: Vec<Outcome> = files.iter().map(|f| observe::read(&p, f.1.as_bytes(), f.1.len() + 4)).collect::<Result<_, _>>()?;
    let values = |c: &Catalogue, k: usize, n: u64| -> Option<String> {
        match &c.entries.get(k)?.body {
            Body::Plural(_, v) => c.plural.as_ref()?.index(n).and_then(|i| v.get(i).cloned()),
            Body::Simple(s) if s.is_empty() => None,
            Body::Simple(s) => Some(s.clone()),
        }
    };
    let mut asked = vec![];
    let mut held: Vec<Held> = vec![];
    let mut rds = vec![];
    for f in &files {
        rds.push(p.parse(f.1.as_bytes()).ok());
    }
    let mut at = [0usize; 2];
    let (mut compared, mut twice) = (0usize, false);
    let steps = t.range(20, 150);
    for _ in 0..steps {
        let op = t.weighted(&[6, 5, 10, 3, 3, 1, 2, 1, 1, 2]);
        if held.is_empty() && matches!(op, 1..=6) || op == 0 {
            let k = t.below(2);
            let Some(rd) = rds[k].as_mut() else { continue };
            let b = &base[k];
            match rd.next() {
                Some(Ok(u)) => {
                    ensure(at[k] < b.units.len(), || format!("a unit more than at the first reading of file {k}"))?;
                    observe::diff("unit, read again", &b.units[at[k]], &observe::unit(&u))?;
                    held.push(Held { file: k, at: at[k], unit: u, looks: 1 });
                    if held.len() > 14 {
                        let j = t.below(held.len());
                        held.swap_remove(j);
                    }
                }
                Some(Err(e)) => {
                    observe::diff("error, read again", &b.error, &Some(observe::err(&e)))?;
                    ensure(at[k] == b.units.len(), || "an error at another place".into())?;
                    let (x, y) = (format!("{e} {e:?}"), format!("{e} {e:?}"));
                    ensure(x == y, || format!("formatted twice: {x:?}, {y:?}"))?;
                }
                None => {
                    let n = b.units.len() + b.error.is_some() as usize;
                    ensure(at[k] >= n, || format!("ended after {} items, at first after {n}", at[k]))?;
                    at[k] -= (at[k] > n) as usize;
                }
            }
            at[k] += 1;
            compared += 1;
            continue;
        }
        if held.is_empty() {
            continue;
        }
        let j = t.below(held.len());
        match op {
            1 => {
                let h = &mut held[j];
                observe::diff("unit, seen again", &base[h.file].units[h.at], &observe::unit(&h.unit))?;
                twice |= h.looks > 0;
                h.looks += 1;
            }
            2 => {
                // a series of counts for one message, or one count for several
                let series = t.range(1, 5);
                let n0 = count(t, &mut asked);
                let across = t.chance(1, 3);
                for i in 0..series {
                    let n = if across || i == 0 { n0 } else { count(t, &mut asked) };
                    let len = held.len();
                    let h = &mut held[if across { (j + i) % len } else { j }];
                    let want = values(&files[h.file].0, h.at, n);
                    let msg = h.unit.message();
                    let got = msg.get_plural_text(n as usize).map(String::from);
                    observe::diff(&format!("text for {n}"), &want, &got)?;
                    if let Some(pl) = msg.plural() {
                        if let Some(f) = pl.get_forms() {
                            let want = files[h.file].0.plural.as_ref().and_then(|s| s.index(n));
                            observe::diff(&format!("form for {n}"), &want, &f.get_value(n as usize))?;
                            cx.class("rule-asked");
                        }
                        observe::diff(&format!("Plural::get({n})"), &got.as_deref(), &pl.get(n as usize))?;
                    }
                    twice |= h.looks > 0;
                    h.looks += 1;
                    compared += 1;
                }
            }
            3 => {
                // a clone takes the place of the original
                let u = held[j].unit.clone();
                if t.chance(1, 2) {
                    held[j].unit = u;
                    cx.class("original-dropped");
                } else {
                    let (file, at) = (held[j].file, held[j].at);
                    held.push(Held { file, at, unit: u, looks: 0 });
                }
            }
            4 => {
                let i = t.below(held.len());
                let (a, b) = (held[i].unit.message(), held[j].unit.message());
                let key = |m: &Message| (m.is_plural(), m.get_id().to_string(), m.get_plural_id().map(String::from), if m.is_plural() { String::new() } else { m.get_text().to_string() });
                let w = key(a) == key(b);
                ensure((a == b) == w && (b == a) == w, || format!("equality of {:?} and {:?} is not {w}", key(a), key(b)))?;
            }
            5 => {
                held.swap_remove(j);
            }
            6 => {
                let h = &held[j];
                let (x, y) = (format!("{:?}", h.unit), format!("{:?}", h.unit));
                ensure(x == y, || format!("formatted twice: {x:?}, {y:?}"))?;
                observe::diff("unit, after formatting", &base[h.file].units[h.at], &observe::unit(&h.unit))?;
                ensure(h.unit.prev_message().get_plural_text(count(t, &mut asked) as usize).is_none(), || "a previous message with a text".into())?;
            }
            7 => {
                let k = t.below(2);
                same("read again", &base[k], &observe::read(&p, files[k].1.as_bytes(), files[k].1.len() + 4)?)?;
                cx.class("file-again");
            }
            8 => {
                // a new reader in place of the old one
                let k = t.below(2);
                rds[k] = p.parse(files[k].1.as_bytes()).ok();
                at[k] = 0;
                cx.class("reader-again");
            }
            _ => {
                let k = t.below(2);
                if let Some(rd) = rds[k].as_ref() {
                    observe::diff("header, seen again", base[k].header.as_ref().unwrap(), &observe::header(rd))?;
                    ensure(rd.target_language().to_string() == rd.target_language().to_string(), || "language".into())?;
                }
            }
        }
        compared += 1;
    }
    drop(rds);
    for h in &held {
        observe::diff("unit, at the end", &base[h.file].units[h.at], &observe::unit(&h.unit))?;
    }
    drop(held);
    let texts = [&files[0].1[..], &files[1].1[..]];
    if t.chance(1, 60) {
        cx.class("threads");
        threads(&texts, &base)?;
    }
    let both = texts.concat();
    cx.case(both.as_bytes(), compared >= 10 && twice);
    cx.note(format!("{steps} steps, files split at {}", texts[0].len()));
    Ok(())
}

/// Texts that depend on nothing but `k`.
fn batch_text(k: u64, d: &crate::dict::Dict) -> Vec<u8> {
    let mut x = k.wrapping_mul(0x9e37_79b9_7f4a_7c15) | 1;
    let tape: Vec<u32> = (0..900)
        .map(|_| {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            (x >> 16) as u32
        })
        .collect();
    let mut t = Tape::new(&tape);
    let mut cx = Cx::new(d);
    let mut tail = t.tail(60);
    let (_, s, _) = some_text(&mut t, &mut cx, &gen::Cfg { max_entries: 4, spikes: false });
    let b = s.into_bytes();
    if k % 3 == 0 {
        super::malformed::mutate(b, &mut tail, &mut cx)
    } else {
        b
    }
}

const BATCH: u64 = 150;

/// What is read of the texts of batch `b`, one line each; `order` 1 goes backwards, 2 uses a new
/// parser for some.
pub fn batch(b: u64, order: usize, d: &crate::dict::Dict) -> Vec<String> {
    let mut v: Vec<String> = vec![String::new(); BATCH as usize];
    for i in 0..BATCH {
        let i = if order == 1 { BATCH - 1 - i } else { i };
        let bytes = batch_text(b * BATCH + i, d);
        let p = if order == 2 && i % 40 == 0 { std::rc::Rc::new(PoParser::new()) } else { observe::parser() };
        let o = crate::engine::guarded(|| {
            let o = observe::read(&p, &bytes[..], bytes.len() + 4)?;
            v[i as usize] = format!("{o:?}");
            Ok(())
        });
        if let Err(e) = o {
            v[i as usize] = format!("failure: {}", e.replace('\n', " "));
        }
    }
    v
}

const ENVS: &[&[(&str, &str)]] = &[
    &[],
    &[("LANG", "C")],
    &[("LANG", "tr_TR.UTF-8"), ("LC_ALL", "tr_TR.UTF-8")],
    &[("LC_ALL", "fr_FR.UTF-8"), ("LANGUAGE", "fr:de")],
    &[("LANG", "ja_JP.SJIS"), ("LC_MESSAGES", "zh_CN.GB18030"), ("TZ", "Asia/Tokyo")],
    &[("LC_ALL", ""), ("LANG", ""), ("LANGUAGE", "")],
    &[("LANG", "no such locale"), ("LC_CTYPE", "\u{e9}"), ("HOME", "/nonexistent"), ("TZ", ":bad")],
    &[("LC_ALL", "ar_EG.UTF-8"), ("RUST_BACKTRACE", "full"), ("RUST_MIN_STACK", "8388608"), ("NO_COLOR", "1"), ("TERM", "dumb"), ("DEBUG", "1"), ("RUST_LOG", "trace")],
];

fn c25_fixed(i: usize, cx: &mut Cx) -> Option<Res> {
    if i >= ENVS.len() {
        return None;
    }
    let exe = std::env::current_exe().ok()?;
    let order = i % 3;
    let out = std::process::Command::new(exe)
        .args(["batch", &i.to_string(), &order.to_string()])
        .env_clear()
        .envs(std::env::vars().filter(|(k, _)| k == "VERIF_REPO" || k == "VERIF_ROOT"))
        .envs(ENVS[i].iter().copied())
        .current_dir("/")
        .stderr(std::process::Stdio::null())
        .output();
    cx.class("other-process");
    cx.case(format!("batch {i} of {BATCH} files read under {:?}", ENVS[i]).as_bytes(), true);
    let Ok(out) = out else {
        cx.class("no-process");
        return Some(Ok(()));
    };
    if !out.status.success() {
        // ended from outside, or not able to start: nothing to compare
        cx.class("no-answer");
        return Some(Ok(()));
    }
    let got = String::from_utf8_lossy(&out.stdout).into_owned();
    let want = batch(i as u64, 0, cx.d);
    for (k, (w, g)) in want.iter().zip(got.lines()).enumerate() {
        if w != g {
            let text = batch_text(i as u64 * BATCH + k as u64, cx.d);
            cx.note(format!("file: {}", text.escape_ascii()));
            return Some(observe::diff(&format!("file {k} read in a process with {:?}", ENVS[i]), w, &g.to_string()));
        }
    }
    Some(ensure(got.lines().count() == want.len(), || "fewer answers".into()))
}

const NUMBER: &str = "QZQZQZQZ";
const AHEAD: u64 = 256 << 10;

/// A header, then numbered entries without end.
struct Endless {
    tmpl: Vec<(Vec<u8>, Vec<usize>)>,
    cur: Vec<u8>,
    pos: usize,
    /// number of the next entry to be written
    entry: u64,
    taken: u64,
    /// the reader may not take more
    limit: std::rc::Rc<std::cell::Cell<u64>>,
    over: std::rc::Rc<std::cell::Cell<bool>>,
    chunk: usize,
}

fn numbered(tmpl: &(Vec<u8>, Vec<usize>), n: u64, out: &mut Vec<u8>) {
    out.clear();
    out.extend_from_slice(&tmpl.0);
    for p in &tmpl.1 {
        let mut x = n;
        for i in (0..8).rev() {
            out[p + i] = b'0' + (x % 10) as u8;
            x /= 10;
        }
    }
}

impl Read for Endless {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if self.taken > self.limit.get() {
            self.over.set(true);
            return Ok(0);
        }
        let max = buf.len().min(self.chunk);
        let mut n = 0;
        while n < max {
            if self.pos == self.cur.len() {
                let k = self.tmpl.len() as u64;
                let mut cur = std::mem::take(&mut self.cur);
                numbered(&self.tmpl[(self.entry % k) as usize], self.entry, &mut cur);
                self.cur = cur;
                self.entry += 1;
                self.pos = 0;
            }
            let m = (max - n).min(self.cur.len() - self.pos);
            buf[n..n + m].copy_from_slice(&self.cur[self.pos..self.pos + m]);
            self.pos += m;
            n += m;
        }
        self.taken += n as u64;
        if self.taken > self.limit.get() {
            // one block that large at once
            self.over.set(true);
        }
        Ok(n)
    }
}

fn c26(t: &mut Tape, cx: &mut Cx) -> Res {
    let c = gen::catalogue(t, cx.d, &gen::Cfg { max_entries: 0, spikes: false });
    let forms = c.plural.as_ref().map_or(2, |p| p.count()).min(20);
    let mut l = Layout::draw(t);
    l.split = 0;
    l.final_eol = true;
    let head = Catalogue { entries: vec![], trailing: vec![], ..c.clone() };
    let mut head_text = render::catalogue(&head, l, t).0;
    if !head_text.is_empty() && !head_text.ends_with('\n') {
        head_text.push('\n');
    }
    let blank = *t.pick(&[0usize, 1, 1, 2, 40, 700]);
    let mut tmpl = vec![];
    let big = t.chance(1, 8);
    cx.class_if(big, "big-entries");
    for _ in 0..t.range(1, 4) {
        let mut e = gen::small(gen::entry(t, cx.d, forms));
        e.comments.truncate(20);
        e.id = format!("{NUMBER} {}", e.id);
        if t.chance(1, 2) {
            e.comments.push(CommentLine { kind: *t.pick(&[' ', '.', '$']), text: NUMBER.into(), tokens: vec![] });
        }
        if t.chance(1, 2) {
            e.comments.push(CommentLine { kind: *t.pick(&[':', ',']), text: String::new(), tokens: vec![format!("f:{NUMBER}")] });
        }
        match &mut e.body {
            Body::Simple(s) => *s = format!("{s}{NUMBER}"),
            Body::Plural(p, v) => {
                v.truncate(forms);
                p.push_str(NUMBER);
                v[0].push_str(NUMBER);
            }
        }
        if t.chance(1, 3) {
            e.ctxt = Some(NUMBER.into());
        }
        if big {
            e.prev_ctxt = Some("big ".repeat(t.range(50_000, 100_000)));
        }
        let one = Catalogue { header: None, plural: c.plural.clone(), entries: vec![e], trailing: vec![] };
        let mut s = render::catalogue(&one, l, t).0;
        if !s.ends_with('\n') {
            s.push('\n');
        }
        s.push_str(&"\n".repeat(blank));
        let at: Vec<usize> = s.match_indices(NUMBER).map(|x| x.0).collect();
        ensure(!at.is_empty(), || "no number in the entry (generator)".into())?;
        tmpl.push((s.into_bytes(), at));
    }
    let period: u64 = tmpl.iter().map(|x| x.0.len() as u64).sum();
    let most = (6_000_000 / (period / tmpl.len() as u64 + 50)).clamp(12, 30_000) as usize;
    let units = match t.weighted(&[3, 2]) {
        0 => t.range(10, 400).min(most),
        _ => most,
    };
    // the same entry comes next at the quarter and at the end
    let units = units.div_ceil(4 * tmpl.len()) * 4 * tmpl.len();
    cx.class_if(units >= 1000, "units>=1000");
    cx.class_if(units >= 10_000, "units>=10000");
    cx.class_if(blank >= 40, "many-blank-lines");
    let chunk = *t.pick(&[usize::MAX, usize::MAX, 4096, 100, 7, 1 << 16]);
    let shown = tmpl.iter().map(|x| x.0.clone()).collect::<Vec<_>>().concat();
    cx.case(&[head_text.as_bytes(), &shown].concat(), units > 100);
    cx.note(format!("{units} units, then stop; chunk {chunk}"));

    let p = observe::parser();
    let (limit, over) = (std::rc::Rc::new(std::cell::Cell::new(0u64)), std::rc::Rc::new(std::cell::Cell::new(false)));
    let start = |k: u64| -> u64 {
        let n = tmpl.len() as u64;
        let rest: u64 = tmpl[..(k % n) as usize].iter().map(|x| x.0.len() as u64).sum();
        head_text.len() as u64 + k / n * period + rest
    };
    let run = |units: usize, check: bool| -> Result<(i64, i64), String> {
        let before = alloc::live();
        limit.set(start(2) + AHEAD);
        over.set(false);
        let cap = tmpl.iter().map(|x| x.0.len()).max().unwrap().max(head_text.len());
        let mut cur = Vec::with_capacity(cap);
        cur.extend_from_slice(head_text.as_bytes());
        let src = Endless { tmpl: tmpl.clone(), cur, pos: 0, entry: 0, taken: 0, limit: limit.clone(), over: over.clone(), chunk };
        let mut rd = p.parse(src).map_err(|e| format!("rejected: {e}"))?;
        ensure(!over.get(), || "opening reads on and on".into())?;
        let (mut quarter, mut number) = (0, String::with_capacity(16));
        for k in 0..units {
            limit.set(start(k as u64 + 3) + AHEAD);
            let u = match rd.next() {
                Some(Ok(u)) => u,
                Some(Err(e)) => return Err(format!("unit {k}: {e}")),
                None => return Err(if over.get() { format!("unit {k} is not given before more than 256 KiB of what follows is read") } else { format!("ended after {k} units") }),
            };
            ensure(!over.get(), || format!("for unit {k} more than 256 KiB of what follows is read"))?;
            if check {
                use std::fmt::Write;
                number.clear();
                let _ = write!(number, "{k:08}");
                ensure(u.message().get_id().starts_with(&number), || format!("unit {k} is {:?}", u.message().get_id()))?;
            }
            drop(u);
            if k + 1 == units / 4 {
                quarter = alloc::live() - before;
            }
        }
        let end = alloc::live() - before;
        // one of them against the same entry alone
        if check && units > 0 {
            let k = units as u64;
            let mut b = vec![];
            numbered(&tmpl[(k % tmpl.len() as u64) as usize], k, &mut b);
            let alone = observe::read_bytes(&[head_text.as_bytes(), &b].concat())?;
            let u = rd.next().ok_or("the end")?.map_err(|e| e.to_string())?;
            observe::diff(&format!("unit {k} against the entry alone"), &alone.units, &vec![observe::unit(&u)])?;
        }
        Ok((quarter, end))
    };
    // caches of the regular expressions fill up at first
    run(units.min(40), false)?;
    let largest = tmpl.iter().map(|x| x.0.len()).max().unwrap() as i64;
    let (quarter, end) = run(units, true)?;
    ensure(end - quarter <= 300_000 + 2 * largest, || format!("{quarter} bytes held after {} units, {end} after {units}", units / 4))
}
