//! Runs the real reader and writes down everything a user can see.

use crate::model::*;
use poreader::{error::Error, plural::PluralForms, unit::Unit, CatalogueReader, Message, Origin, PoParser, PoReader, State};
use std::{error::Error as _, io::Read};

pub fn msg(m: &Message) -> ObsMsg {
    ObsMsg {
        simple: m.is_simple(),
        plural: m.is_plural(),
        blank: m.is_blank(),
        id: m.get_id().into(),
        text: m.get_text().into(),
        plural_id: m.get_plural_id().map(String::from),
        values: m.plural().map(|p| p.values().clone()),
        forms: m.plural().and_then(|p| p.get_forms()).map(forms),
        probes: PROBES.iter().map(|n| m.get_plural_text(*n as usize).map(String::from)).collect(),
    }
}

pub fn forms(f: &PluralForms) -> (String, String, usize) {
    (f.get_definition().into(), f.get_formula().into(), f.get_count())
}

fn notes(ns: &[poreader::note::Note]) -> Vec<(char, String)> {
    ns.iter()
        .map(|n| (if *n.origin() == Origin::Developer { '.' } else { ' ' }, n.value().to_string()))
        .collect()
}
fn comments(cs: &[poreader::comment::Comment]) -> Vec<(char, String)> {
    cs.iter().map(|c| (c.kind(), c.comment().to_string())).collect()
}

pub fn unit(u: &Unit) -> ObsUnit {
    ObsUnit {
        ctxt: u.context().map(String::from),
        msg: msg(u.message()),
        prev_ctxt: u.prev_context().map(String::from),
        prev_msg: msg(u.prev_message()),
        flags: u.flags().iter().cloned().collect(),
        notes: notes(u.notes()),
        locations: u.locations().clone(),
        comments: comments(u.comments()),
        state: match u.state() {
            State::Empty => St::Empty,
            State::NeedsWork => St::NeedsWork,
            State::Final => St::Final,
        },
        translated: u.is_translated(),
        obsolete: u.is_obsolete(),
    }
}

pub fn err(e: &Error) -> ObsErr {
    let display = e.to_string();
    let mut o = ObsErr { kind: ErrKind::Io, line: 0, token: String::new(), expected: String::new(), display, io: None };
    match e {
        Error::Io(l, x) => {
            o.line = *l;
            o.io = Some((x.kind(), x.raw_os_error(), x.to_string()));
        }
        Error::Parse(l, g, x) => {
            o.kind = ErrKind::Parse;
            o.line = *l;
            o.token = g.clone();
            o.expected = x.clone();
        }
        Error::Unexpected(l, m) => {
            o.kind = ErrKind::Unexpected;
            o.line = *l;
            o.token = m.clone();
        }
        Error::PluralForms(m) => {
            o.kind = ErrKind::Plural;
            o.token = m.clone();
        }
    }
    // the chain of causes can always be walked
    let mut s = e.source();
    let mut n = 0;
    while let Some(x) = s {
        let _ = x.to_string();
        s = x.source();
        n += 1;
        assert!(n < 100, "endless source chain");
    }
    o
}

pub fn header<R: Read>(r: &PoReader<'_, R>) -> ObsHeader {
    ObsHeader {
        props: r.header_properties().iter().map(|(k, v)| (k.clone(), v.clone())).collect(),
        notes: notes(r.header_notes()),
        comments: comments(r.header_comments()),
        lang: r.target_language().to_string(),
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Outcome {
    pub header: Option<ObsHeader>,
    pub units: Vec<ObsUnit>,
    /// error that ended the reading (at open or later)
    pub error: Option<ObsErr>,
    pub at_open: bool,
}

/// Reads everything.  Protocol breaches (items after the end or after the error, endless
/// iteration) are failures by themselves.
pub fn read<R: Read>(p: &PoParser, r: R, max_items: usize) -> Result<Outcome, String> {
    let mut rd = match subject::open(p, Box::new(r)) {
        Ok(r) => r,
        Err(e) => return Ok(Outcome { header: None, units: vec![], error: Some(err(&e)), at_open: true }),
    };
    let h = header(&rd);
    let mut units = vec![];
    let mut error = None;
    loop {
        match subject::next(&mut rd) {
            None => break,
            Some(Ok(u)) => {
                units.push(unit(&u));
                if units.len() > max_items {
                    return Err(format!("more than {max_items} units from this input"));
                }
            }
            Some(Err(e)) => {
                error = Some(err(&e));
                break;
            }
        }
    }
    for _ in 0..3 {
        if let Some(x) = subject::next(&mut rd) {
            let after = if error.is_some() { "error" } else { "end" };
            return Err(format!("an item after the {after}: {:?}", x.map(|u| unit(&u)).map_err(|e| err(&e))));
        }
    }
    if header(&rd) != h {
        return Err("header data changed while reading".into());
    }
    Ok(Outcome { header: Some(h), units, error, at_open: false })
}

pub fn read_bytes(b: &[u8]) -> Result<Outcome, String> {
    let p = parser();
    read(&p, b, b.iter().filter(|c| **c == b'\n').count() + 4)
}

thread_local! {
    static PARSER: std::rc::Rc<PoParser> = std::rc::Rc::new(PoParser::new());
}
/// One parser per thread (building its regular expressions is dear; it has no state).
pub fn parser() -> std::rc::Rc<PoParser> {
    PARSER.with(|p| p.clone())
}

pub fn diff<T: std::fmt::Debug + PartialEq>(what: &str, want: &T, got: &T) -> Result<(), String> {
    if want == got {
        return Ok(());
    }
    let (a, b) = (format!("{want:?}"), format!("{got:?}"));
    let i = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count().saturating_sub(60);
    let cut = |s: &str| {
        let v: String = String::from_utf8_lossy(&s.as_bytes()[i.min(s.len())..]).chars().take(400).collect();
        v
    };
    Err(format!("{what}: expected …{}… got …{}…", cut(&a), cut(&b)))
}

pub fn diff_units(want: &[ObsUnit], got: &[ObsUnit]) -> Result<(), String> {
    for (i, (w, g)) in want.iter().zip(got).enumerate() {
        diff(&format!("unit {i}"), w, g)?;
    }
    if want.len() != got.len() {
        return Err(format!("{} units expected, {} read", want.len(), got.len()));
    }
    Ok(())
}

/// The whole catalogue must be read back, without error.
pub fn expect(c: &Catalogue, o: &Outcome) -> Result<(), String> {
    if let Some(e) = &o.error {
        return Err(format!("error on a well-formed catalogue: {}", e.display));
    }
    diff("header", &c.expect_header(), o.header.as_ref().unwrap())?;
    diff_units(&c.expect_units(), &o.units)
}
