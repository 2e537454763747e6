//! C21: messages as values.  C22: errors as values.

use super::*;
use crate::gen;
use poreader::{comment::Comment, error::Error, note::Note, Message, Origin, State};
use std::{collections::HashSet, error::Error as _, io};

pub static PROPS: &[Prop] = &[
    Prop {
        id: "C21",
        title: "Message accessors and equality",
        rule: "pools of 2..8 messages (constructed simple ones with None/empty/other texts, simple and plural ones read from files with small id alphabets, also as previous messages, often alike): accessors agree with each other, equality is an equivalence that treats no text as empty text and compares plurals by their two ids, clones are equal and observe the same; notes, origins, states and the default unit as values; non-trivial: two equal and two different messages in the pool",
        run: c21,
        quick: 21100,
        thorough: 844000,
        fixed: None,
        probes: &[],
    },
    Prop {
        id: "C22",
        title: "Error values",
        rule: "errors of every variant with random lines, tokens and I/O causes: Display and Debug text, source chain and conversion to io::Error against a reference formatter, and errors that come out of readers; non-trivial: every case",
        run: c22,
        quick: 163200,
        thorough: 6528000,
        fixed: None,
        probes: &[],
    },
];

#[derive(Clone, Debug)]
enum Ref {
    Simple(String, Option<String>),
    Plural(String, String, Vec<String>),
}

fn ref_eq(a: &Ref, b: &Ref) -> bool {
    match (a, b) {
        (Ref::Simple(i, t), Ref::Simple(j, u)) => i == j && t.as_deref().unwrap_or("") == u.as_deref().unwrap_or(""),
        (Ref::Plural(i, p, _), Ref::Plural(j, q, _)) => i == j && p == q,
        _ => false,
    }
}

fn word(t: &mut Tape, cx: &Cx) -> String {
    if t.chance(4, 5) {
        t.pick(&["", "a", "b", "A", "a ", " ", "é", "e\u{301}", "ab", "\0", "Open file", "open_files", "été"]).to_string()
    } else {
        gen::text(t, cx.d).chars().take(30).collect()
    }
}

fn c21(t: &mut Tape, cx: &mut Cx) -> Res {
    let n = t.range(2, 8);
    let mut pool: Vec<(Ref, Message)> = vec![];
    let mut by_hand = vec![];
    let mut shown = String::new();
    let spec = gen::plural_spec(t, cx.d);
    for _ in 0..n {
        let (mut i, mut x) = (word(t, cx), word(t, cx));
        // often like an earlier one
        if !pool.is_empty() && t.chance(1, 2) {
            let (j, y) = match &pool[t.below(pool.len())].0 {
                Ref::Simple(j, y) => (j.clone(), y.clone().unwrap_or_default()),
                Ref::Plural(j, p, _) => (j.clone(), p.clone()),
            };
            match t.weighted(&[4, 2, 2]) {
                0 => i = j,
                1 => i = gen::alike(t, cx.d, &j),
                _ => (),
            }
            match t.weighted(&[4, 2, 2]) {
                0 => x = y,
                1 => x = gen::alike(t, cx.d, &y),
                _ => (),
            }
        }
        let kind = t.below(4);
        by_hand.push(kind == 0);
        match kind {
            0 => {
                let text = match t.below(3) {
                    0 => None,
                    _ => Some(x),
                };
                pool.push((Ref::Simple(i.clone(), text.clone()), Message::Simple { id: i, text }));
            }
            k => {
                let i = if i.is_empty() { "a".to_string() } else { i };
                let with = t.chance(1, 2);
                let forms = if with { spec.count().min(30) } else { 2 };
                let body = if k == 1 {
                    Body::Simple(x.clone())
                } else {
                    let m = t.range(1, forms);
                    let late = t.chance(1, 4);
                    let vs: Vec<String> = (0..m).map(|k| if late && k + 1 < m { String::new() } else { word(t, cx) }).collect();
                    Body::Plural(x.clone(), vs)
                };
                let mut e = Entry { comments: vec![], obsolete: t.chance(1, 4), prev_ctxt: None, prev_id: None, prev_plural: None, ctxt: None, id: i.clone(), body: body.clone() };
                // as a previous message: nothing but the ids
                let prev = k == 3;
                if prev {
                    e.prev_id = Some(i.clone());
                    e.prev_plural = t.chance(2, 3).then(|| x.clone());
                    cx.class("previous-message");
                }
                let prev_plural = e.prev_plural.clone();
                let c = Catalogue {
                    header: with.then(|| Header {
                        lines: vec![HeaderLine::Prop { pre: "".into(), key: "Plural-Forms".into(), mid: "".into(), post: " ".into(), value: spec.definition.clone(), trail: "".into() }],
                        ..Header::default()
                    }),
                    plural: with.then(|| spec.clone()),
                    entries: vec![e],
                    trailing: vec![],
                };
                let text = crate::render::plain(&c);
                let p = observe::parser();
                let u = p.parse(text.as_bytes()).map_err(|e| e.to_string())?.next().ok_or("no unit")?.map_err(|e| e.to_string())?;
                let m = if prev { u.prev_message() } else { u.message() };
                ensure(*m == m.clone(), || "a message is not equal to its clone".into())?;
                let m = m.clone();
                let r = match body {
                    _ if prev => match prev_plural {
                        None => Ref::Simple(i, None),
                        Some(p) => Ref::Plural(i, p, vec![]),
                    },
                    Body::Simple(s) => Ref::Simple(i, Some(s)),
                    Body::Plural(p, v) => Ref::Plural(i, p, v),
                };
                pool.push((r, m));
            }
        }
        shown += &format!("{:?}\n", pool.last().unwrap().0);
    }
    let (mut eqs, mut nes) = (0, 0);
    for (a, (ra, ma)) in pool.iter().enumerate() {
        // accessors
        let o = observe::msg(ma);
        let blank = match ra {
            Ref::Simple(i, x) => {
                let want = ObsMsg { probes: PROBES.iter().map(|_| ma.get_plural_text(0).map(String::from)).collect(), ..simple_msg(i, x.as_deref().unwrap_or("")) };
                observe::diff("simple message", &want, &o)?;
                // no text and empty text differ at most in None against Some("")
                let pt = ma.get_plural_text(t.u64() as usize);
                ensure(pt.unwrap_or("") == x.as_deref().unwrap_or(""), || format!("get_plural_text {pt:?}"))?;
                ensure(!by_hand[a] || pt == x.as_deref(), || format!("get_plural_text {pt:?} of a message made with {x:?}"))?;
                ensure(!(x.is_none() && pt.is_some()), || "a text out of nothing".into())?;
                x.as_deref().unwrap_or("").is_empty()
            }
            Ref::Plural(i, p, v) => {
                let pl = ma.plural().ok_or("no plural")?;
                let first = v.first().map_or("", |v| v.as_str());
                ensure(o.id == *i && pl.singular() == i, || format!("singular {:?}", o.id))?;
                ensure(o.plural_id.as_deref() == Some(p) && pl.plural() == p, || format!("plural {:?}", o.plural_id))?;
                ensure(pl.values() == v && pl.first() == first && o.text == first, || format!("values {:?}", pl.values()))?;
                ensure(o.plural && !o.simple, || "not plural".into())?;
                for n in PROBES.iter().copied().chain([t.u64()]) {
                    let (x, y) = (ma.get_plural_text(n as usize), pl.get(n as usize));
                    ensure(x == y, || format!("get_plural_text({n}) is {x:?}, get is {y:?}"))?;
                    let z = pl.get_forms().and_then(|f| f.get_value(n as usize)).and_then(|i| v.get(i)).map(String::as_str);
                    ensure(x == z, || format!("get_plural_text({n}) is {x:?}, the selected variant {z:?}"))?;
                }
                v.iter().all(|s| s.is_empty())
            }
        };
        ensure(ma.is_blank() == blank, || format!("is_blank of {ra:?}"))?;
        if let Some(p) = ma.plural() {
            ensure(p.is_blank() == blank, || format!("Plural::is_blank of {ra:?}"))?;
        }
        ensure(!(ma.is_simple() && ma.is_plural()), || "simple and plural".into())?;
        ensure(ma.get_plural_id().is_some() == ma.is_plural() && ma.plural().is_some() == ma.is_plural(), || "plural id".into())?;
        let c = ma.clone();
        ensure(c == *ma && observe::msg(&c) == o, || format!("clone of {ra:?}"))?;
        for (b, (rb, mb)) in pool.iter().enumerate() {
            let w = ref_eq(ra, rb);
            if a < b {
                if w {
                    eqs += 1
                } else {
                    nes += 1
                }
            }
            ensure((ma == mb) == w, || format!("{ra:?} == {rb:?} gives {}", !w))?;
            ensure((ma != mb) != w, || format!("{ra:?} != {rb:?} gives {w}"))?;
        }
    }
    // default message, notes, origins, states
    let d = Message::default();
    ensure(!d.is_simple() && !d.is_plural() && d.is_blank() && d.get_id().is_empty() && d.get_text().is_empty(), || "default message".into())?;
    let u = poreader::unit::Unit::default();
    let e = Entry { comments: vec![], obsolete: false, prev_ctxt: None, prev_id: None, prev_plural: None, ctxt: None, id: String::new(), body: Body::Simple(String::new()) };
    observe::diff("default unit", &e.expect(None), &observe::unit(&u))?;
    let (o1, o2) = (*t.pick(&[Origin::Developer, Origin::Translator]), *t.pick(&[Origin::Developer, Origin::Translator]));
    let v1 = word(t, cx);
    let v2 = if t.chance(1, 3) { gen::alike(t, cx.d, &v1) } else { word(t, cx) };
    let (n1, n2) = (Note::new(o1, v1.clone()), Note::new(o2, v2.clone()));
    ensure(*n1.origin() == o1 && n1.value() == v1, || "note accessors".into())?;
    ensure((n1 == n2) == (o1 == o2 && v1 == v2), || format!("{n1:?} == {n2:?}"))?;
    ensure(n1.clone() == n1, || "note clone".into())?;
    let set: HashSet<State> = [State::Empty, State::NeedsWork, State::Final, State::default()].into();
    ensure(set.len() == 3 && State::default() == State::Empty, || "states".into())?;
    // comments come from readers only
    let (k1, k2) = (*t.pick(&['$', '=']), *t.pick(&['$', '=']));
    let cm = |k: char, v: &str| -> Result<Comment, String> {
        let v = v.replace(['\n', '\r'], " ");
        let s = format!("#{k} {v}\nmsgid \"a\"\nmsgstr \"\"\n");
        let u = observe::parser().parse(s.as_bytes()).map_err(|e| e.to_string())?.next().ok_or("no unit")?.map_err(|e| e.to_string())?;
        u.comments().first().cloned().ok_or_else(|| "no comment".to_string())
    };
    let (c1, c2) = (cm(k1, &v1)?, cm(k2, &v2)?);
    let clean = |v: &str| v.replace(['\n', '\r'], " ").trim_start().to_string();
    ensure(c1.kind() == k1 && c1.comment() == clean(&v1), || format!("comment accessors: {c1:?}"))?;
    ensure((c1 == c2) == (k1 == k2 && clean(&v1) == clean(&v2)), || format!("{c1:?} == {c2:?}"))?;
    cx.class_if(eqs > 0, "equal-pair");
    cx.class_if(nes > 0, "different-pair");
    cx.case(shown.as_bytes(), eqs > 0 && nes > 0);
    Ok(())
}

fn line(t: &mut Tape) -> usize {
    match t.weighted(&[3, 4, 2, 1]) {
        0 => 0,
        1 => t.range(1, 20),
        2 => t.below(100_000),
        _ => usize::MAX - t.below(2),
    }
}

fn c22(t: &mut Tape, cx: &mut Cx) -> Res {
    fn tok(t: &mut Tape, cx: &Cx) -> String {
        if t.chance(1, 3) {
            String::new()
        } else {
            gen::text(t, cx.d)
        }
    }
    let l = line(t);
    let (a, b) = (tok(t, cx), tok(t, cx));
    let kinds = [io::ErrorKind::Other, io::ErrorKind::NotFound, io::ErrorKind::InvalidData, io::ErrorKind::UnexpectedEof, io::ErrorKind::TimedOut];
    let kind = *t.pick(&kinds);
    let code = *t.pick(&[2, 5, 13, 28]);
    let mk_io = |w: usize| match w {
        0 => io::Error::new(kind, a.clone()),
        1 => io::Error::from_raw_os_error(code),
        _ => io::Error::from(kind),
    };
    let w = t.below(3);
    let make = |v: usize| match v {
        0 => Error::Io(l, mk_io(w)),
        1 => Error::Parse(l, a.clone(), b.clone()),
        2 => Error::Unexpected(l, a.clone()),
        _ => Error::PluralForms(a.clone()),
    };
    let v = t.below(4);
    cx.class(["io", "parse", "unexpected", "plural-forms"][v]);
    cx.class_if(l == 0, "line-0");
    let e = make(v);
    let (display, debug) = match v {
        0 => {
            let x = mk_io(w);
            if l == 0 {
                (format!("{x}"), format!("{x:?}"))
            } else {
                (format!("{x} at line {l}"), format!("{x:?} at line {l}"))
            }
        }
        1 => {
            let mut s = format!("Parse error at line {l}");
            if !b.is_empty() {
                s += &format!(" expected ‘{b}’");
            }
            if !a.is_empty() {
                s += &format!(", got ‘{a}’");
            }
            (s.clone(), s)
        }
        2 => {
            let s = if l > 0 { format!("Unexpected error at line {l}: {a}") } else { format!("Unexpected error: {a}") };
            (s.clone(), s)
        }
        _ => {
            let s = format!("Error in plurals forms: {a}");
            (s.clone(), s)
        }
    };
    cx.case(debug.as_bytes(), true);
    observe::diff("Display", &display, &e.to_string())?;
    observe::diff("Debug", &debug, &format!("{e:?}"))?;
    match (v, e.source()) {
        (0, Some(s)) => {
            observe::diff("source", &mk_io(w).to_string(), &s.to_string())?;
            let s = s.downcast_ref::<io::Error>().ok_or("the source is not the I/O error")?;
            observe::diff("source kind", &(mk_io(w).kind(), mk_io(w).raw_os_error()), &(s.kind(), s.raw_os_error()))?;
        }
        (0, None) => return Err("an I/O error without source".into()),
        (_, Some(_)) => return Err("a source out of nothing".into()),
        _ => (),
    }
    // conversion keeps the error whole
    let i = io::Error::from(e);
    observe::diff("kind of the converted error", &io::ErrorKind::Other, &i.kind())?;
    observe::diff("text of the converted error", &display, &i.to_string())?;
    let back = i.into_inner().ok_or("nothing inside the converted error")?;
    let back = back.downcast::<Error>().map_err(|_| "another error inside the converted error".to_string())?;
    observe::diff("error taken back", &debug, &format!("{back:?}"))?;
    // `?` in a function returning io::Result, as in the documentation
    let f = || -> io::Result<()> {
        Err(make(v))?;
        Ok(())
    };
    observe::diff("through `?`", &display, &f().unwrap_err().to_string())?;
    let boxed: Box<dyn std::error::Error> = Box::new(make(v));
    observe::diff("as dyn Error", &display, &boxed.to_string())
}
