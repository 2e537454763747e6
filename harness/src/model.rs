//! Abstract catalogues (what a PO file *means*) and the observations we expect a reader to make.

use crate::formula::Ast;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, PartialEq)]
pub struct CommentLine {
    /// ' ' translator, '.' developer, ':' locations, ',' flags, anything else: custom
    pub kind: char,
    /// For ' ', '.' and custom: the text.  For ',' and ':' see `tokens`.
    pub text: String,
    pub tokens: Vec<String>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Body {
    Simple(String),
    /// plural id and the variants, in index order from 0
    Plural(String, Vec<String>),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Entry {
    pub comments: Vec<CommentLine>,
    pub obsolete: bool,
    pub prev_ctxt: Option<String>,
    pub prev_id: Option<String>,
    pub prev_plural: Option<String>,
    pub ctxt: Option<String>,
    pub id: String,
    pub body: Body,
}

#[derive(Clone, Debug, PartialEq)]
pub struct PluralSpec {
    pub nplurals: Option<usize>,
    /// None: no `plural=` item
    pub formula: Option<(Ast, String)>,
    /// the whole header value
    pub definition: String,
}

impl PluralSpec {
    pub fn count(&self) -> usize {
        self.nplurals.unwrap_or(2)
    }
    pub fn formula_text(&self) -> &str {
        self.formula.as_ref().map_or("", |f| f.1.as_str())
    }
    /// The form index for `n`, by the reference evaluator.
    pub fn index(&self, n: u64) -> Option<usize> {
        let v = match &self.formula {
            Some((a, _)) => a.eval(n as i64),
            None => n as i64,
        };
        if v < 0 || v as u64 >= self.count() as u64 {
            None
        } else {
            Some(v as usize)
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum HeaderLine {
    /// (space before key, key, space before ':', space after ':', value, space after value)
    Prop { pre: String, key: String, mid: String, post: String, value: String, trail: String },
    /// a line without ':' (ignored)
    Junk(String),
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Header {
    pub comments: Vec<CommentLine>,
    pub ctxt: Option<String>,
    pub lines: Vec<HeaderLine>,
    /// last header line ends with \n
    pub final_nl: bool,
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Catalogue {
    pub header: Option<Header>,
    pub plural: Option<PluralSpec>,
    pub entries: Vec<Entry>,
    /// comment lines after the last entry: they belong to nothing
    pub trailing: Vec<CommentLine>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct ObsMsg {
    pub simple: bool,
    pub plural: bool,
    pub blank: bool,
    pub id: String,
    pub text: String,
    pub plural_id: Option<String>,
    pub values: Option<Vec<String>>,
    /// (definition, formula, count)
    pub forms: Option<(String, String, usize)>,
    pub probes: Vec<Option<String>>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum St {
    Empty,
    NeedsWork,
    Final,
}

#[derive(Clone, Debug, PartialEq)]
pub struct ObsUnit {
    pub ctxt: Option<String>,
    pub msg: ObsMsg,
    pub prev_ctxt: Option<String>,
    pub prev_msg: ObsMsg,
    pub flags: BTreeSet<String>,
    pub notes: Vec<(char, String)>,
    pub locations: Vec<String>,
    pub comments: Vec<(char, String)>,
    pub state: St,
    pub translated: bool,
    pub obsolete: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub enum ErrKind {
    Io,
    Parse,
    Unexpected,
    Plural,
}

#[derive(Clone, Debug, PartialEq)]
pub struct ObsErr {
    pub kind: ErrKind,
    pub line: usize,
    pub token: String,
    pub expected: String,
    pub display: String,
    pub io: Option<(std::io::ErrorKind, Option<i32>, String)>,
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct ObsHeader {
    pub props: BTreeMap<String, String>,
    pub notes: Vec<(char, String)>,
    pub comments: Vec<(char, String)>,
    pub lang: String,
}

/// Counts at which `get_plural_text` is asked in ordinary comparisons.
pub const PROBES: &[u64] = &[0, 1, 2, 3, 4, 5, 6, 7, 10, 11, 12, 14, 19, 20, 21, 22, 25, 99, 100, 101, 102, 111, 121, 1000, 1001, 1_000_000];

pub fn empty_msg() -> ObsMsg {
    ObsMsg {
        simple: false,
        plural: false,
        blank: true,
        id: String::new(),
        text: String::new(),
        plural_id: None,
        values: None,
        forms: None,
        probes: PROBES.iter().map(|_| None).collect(),
    }
}

pub fn simple_msg(id: &str, text: &str) -> ObsMsg {
    let t = if text.is_empty() { None } else { Some(text.to_string()) };
    ObsMsg {
        simple: !id.is_empty(),
        plural: false,
        blank: text.is_empty(),
        id: id.into(),
        text: text.into(),
        plural_id: None,
        values: None,
        forms: None,
        probes: PROBES.iter().map(|_| t.clone()).collect(),
    }
}

pub fn plural_msg(id: &str, pid: &str, values: &[String], spec: Option<&PluralSpec>) -> ObsMsg {
    ObsMsg {
        simple: false,
        plural: true,
        blank: values.iter().all(|v| v.is_empty()),
        id: id.into(),
        text: values.first().cloned().unwrap_or_default(),
        plural_id: Some(pid.into()),
        values: Some(values.to_vec()),
        forms: spec.map(|s| (s.definition.clone(), s.formula_text().to_string(), s.count())),
        probes: PROBES
            .iter()
            .map(|n| spec.and_then(|s| s.index(*n)).and_then(|i| values.get(i).cloned()))
            .collect(),
    }
}

/// Splits comment lines the way the catalogue means them.
pub struct Sorted {
    pub flags: BTreeSet<String>,
    pub notes: Vec<(char, String)>,
    pub locations: Vec<String>,
    pub comments: Vec<(char, String)>,
}

pub fn sort_comments(cs: &[CommentLine]) -> Sorted {
    let mut s = Sorted { flags: BTreeSet::new(), notes: vec![], locations: vec![], comments: vec![] };
    for c in cs {
        match c.kind {
            ',' => s.flags.extend(c.tokens.iter().cloned()),
            ':' => s.locations.extend(c.tokens.iter().cloned()),
            ' ' | '.' => s.notes.push((c.kind, c.text.clone())),
            k => s.comments.push((k, c.text.clone())),
        }
    }
    s
}

impl Entry {
    pub fn expect(&self, spec: Option<&PluralSpec>) -> ObsUnit {
        let s = sort_comments(&self.comments);
        let msg = match &self.body {
            Body::Simple(t) => simple_msg(&self.id, t),
            Body::Plural(p, v) => plural_msg(&self.id, p, v, spec),
        };
        let prev_msg = match (&self.prev_id, &self.prev_plural) {
            (None, _) => empty_msg(),
            (Some(i), None) => simple_msg(i, ""),
            (Some(i), Some(p)) => plural_msg(i, p, &[], spec),
        };
        let state = if s.flags.contains("fuzzy") {
            St::NeedsWork
        } else if msg.blank {
            St::Empty
        } else {
            St::Final
        };
        ObsUnit {
            ctxt: self.ctxt.clone(),
            msg,
            prev_ctxt: self.prev_ctxt.clone(),
            prev_msg,
            flags: s.flags,
            notes: s.notes,
            locations: s.locations,
            comments: s.comments,
            state,
            translated: state == St::Final,
            obsolete: self.obsolete,
        }
    }
}

impl HeaderLine {
    pub fn text(&self) -> String {
        match self {
            HeaderLine::Junk(s) => s.clone(),
            HeaderLine::Prop { pre, key, mid, post, value, trail } => {
                format!("{pre}{key}{mid}:{post}{value}{trail}")
            }
        }
    }
}

impl Header {
    pub fn text(&self) -> String {
        let mut s = String::new();
        for (i, l) in self.lines.iter().enumerate() {
            s += &l.text();
            if i + 1 < self.lines.len() || self.final_nl {
                s.push('\n');
            }
        }
        s
    }

    pub fn props(&self) -> BTreeMap<String, String> {
        let mut m: BTreeMap<String, Vec<String>> = BTreeMap::new();
        for l in &self.lines {
            if let HeaderLine::Prop { key, value, .. } = l {
                m.entry(key.clone()).or_default().push(value.clone());
            }
        }
        m.into_iter().map(|(k, v)| (k, v.join(" "))).collect()
    }
}

impl Catalogue {
    pub fn expect_units(&self) -> Vec<ObsUnit> {
        self.entries.iter().map(|e| e.expect(self.plural.as_ref())).collect()
    }

    pub fn expect_header(&self) -> ObsHeader {
        match &self.header {
            None => ObsHeader::default(),
            Some(h) => {
                let s = sort_comments(&h.comments);
                let props = h.props();
                let lang = props.get("Language").map(|l| crate::lang::resolve(l)).unwrap_or_default();
                ObsHeader { props, notes: s.notes, comments: s.comments, lang }
            }
        }
    }
}
