//! Independent reference reading of PO text: a hand-written line lexer and entry grammar.
//! Where the format leaves the meaning of a line open (unescaped quotes inside a string, a broken
//! `#~` line, ...) the result is `vague` from there on and nothing is asserted about the rest.

use crate::{formula, model::*};
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Comment(char, String),
    Msg { flag: &'static str, tag: String, s: String },
    Cont { flag: &'static str, s: String },
}

#[derive(Clone, Debug, PartialEq)]
pub enum Lex {
    Blank,
    Tok(Tok),
    Bad,
    Vague,
}

/// Body of a string: the five escapes are decoded, everything else is verbatim.
pub fn unescape(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        if c == '\\' {
            let d = match it.peek() {
                Some('n') => Some('\n'),
                Some('t') => Some('\t'),
                Some('r') => Some('\r'),
                Some('"') => Some('"'),
                Some('\\') => Some('\\'),
                _ => None,
            };
            match d {
                Some(d) => {
                    it.next();
                    o.push(d);
                }
                None => o.push('\\'),
            }
        } else {
            o.push(c);
        }
    }
    o
}

enum Str {
    Ok(String),
    No,
    Vague,
}

/// A quoted string filling `s` (already trimmed).
fn quoted(s: &str) -> Str {
    let Some(r) = s.strip_prefix('"') else { return Str::No };
    let Some(body) = r.strip_suffix('"') else { return Str::No };
    // a quote inside is left open; a closing quote that is escaped closes nothing
    let (mut esc, mut bare) = (false, false);
    for c in body.chars() {
        if esc {
            esc = false;
        } else if c == '\\' {
            esc = true;
        } else if c == '"' {
            bare = true;
        }
    }
    if esc {
        return Str::No;
    }
    if bare {
        return Str::Vague;
    }
    Str::Ok(unescape(body))
}

fn index_ok(n: &str) -> bool {
    !n.is_empty() && n.bytes().all(|b| b.is_ascii_digit()) && (n == "0" || !n.starts_with('0'))
}

enum Kw {
    None,
    Tag(String, usize),
    Bad,
}

fn keyword(s: &str) -> Kw {
    let w: usize = s.bytes().take_while(|b| b.is_ascii_lowercase() || *b == b'_').count();
    match &s[..w] {
        "" => Kw::None,
        k @ ("msgctxt" | "msgid" | "msgid_plural") => Kw::Tag(k.into(), w),
        "msgstr" => {
            if s[w..].starts_with('[') {
                match s[w + 1..].find(']') {
                    Some(i) if index_ok(&s[w + 1..w + 1 + i]) => {
                        Kw::Tag(format!("msgstr[{}]", &s[w + 1..w + 1 + i]), w + i + 2)
                    }
                    _ => Kw::Bad,
                }
            } else {
                Kw::Tag("msgstr".into(), w)
            }
        }
        _ => Kw::Bad,
    }
}

fn message(flag: &'static str, s: &str) -> Lex {
    let (tag, rest) = match keyword(s) {
        Kw::None => (None, s),
        Kw::Tag(t, n) => (Some(t), s[n..].trim_start()),
        Kw::Bad => return Lex::Bad,
    };
    match quoted(rest) {
        Str::No => Lex::Bad,
        Str::Vague => Lex::Vague,
        Str::Ok(s) => Lex::Tok(match tag {
            Some(t) => {
                let tag = if flag.ends_with('|') { format!("|{t}") } else { t };
                Tok::Msg { flag, tag, s }
            }
            None => Tok::Cont { flag, s },
        }),
    }
}

/// One line, without its terminator.
pub fn lex_line(line: &str) -> Lex {
    let s = line.trim();
    if s.is_empty() {
        return Lex::Blank;
    }
    let Some(rest) = line.trim_start().strip_prefix('#') else {
        return message("", s);
    };
    for (p, flag) in [("~|", "~|"), ("~", "~"), ("|", "|")] {
        if let Some(r) = rest.strip_prefix(p) {
            let m = message(flag, r.trim());
            return match m {
                // without a trace of a message it is a comment of that kind
                Lex::Bad if p != "~|" && !r.contains('"') && !r.trim_start().starts_with(['m', '~', '|']) => {
                    Lex::Tok(Tok::Comment(p.chars().next().unwrap(), r.trim_start().to_string()))
                }
                // broken special lines are read as comments; what that means is open
                Lex::Bad | Lex::Vague => Lex::Vague,
                m => m,
            };
        }
    }
    let mut it = rest.chars();
    let kind = it.next().unwrap_or(' ');
    let text = it.as_str().trim_start().to_string();
    Lex::Tok(Tok::Comment(if kind.is_whitespace() { ' ' } else { kind }, text))
}

#[derive(Clone, Debug, PartialEq)]
pub enum Forms {
    None,
    Ok(PluralSpec),
    Bad,
    Vague,
}

/// Reads the value of a Plural-Forms header.
pub fn plural_forms(def: &str) -> Forms {
    if def.is_empty() {
        return Forms::None;
    }
    let segs: Vec<&str> = def.split(';').collect();
    if !segs.last().unwrap().trim().is_empty() {
        return Forms::Bad;
    }
    let mut map = BTreeMap::new();
    for (i, s) in segs[..segs.len() - 1].iter().enumerate() {
        // nothing between two semicolons counts for nothing; at the very start it is left open
        if i > 0 && s.trim().is_empty() {
            continue;
        }
        let ok = s.split_once('=').and_then(|(k, v)| {
            let k = k.trim();
            if k.is_empty() || k.contains(char::is_whitespace) {
                None
            } else {
                Some((k, v.trim()))
            }
        });
        match ok {
            // an item that is no `key = value`; what the key of "==" is is left open
            None if !s.trim().is_empty() && !(s.trim().starts_with('=') && s.matches('=').count() > 1) => return Forms::Bad,
            None => return Forms::Vague,
            Some((k, v)) => {
                if map.insert(k, v).is_some() {
                    return Forms::Vague;
                }
            }
        }
    }
    let nplurals = match map.get("nplurals") {
        None => None,
        Some(s) if s.starts_with('+') => return Forms::Vague,
        Some(s) => match s.parse::<usize>() {
            Ok(n) => Some(n),
            Err(_) => return Forms::Bad,
        },
    };
    let formula = match map.get("plural") {
        None | Some(&"") => None,
        Some(s) if s.len() > 4000 => return Forms::Vague,
        Some(s) => match formula::parse(s) {
            None => return Forms::Bad,
            Some(p) if p.exotic_unary || p.vague_not => return Forms::Vague,
            Some(p) => Some((p.ast, s.to_string())),
        },
    };
    Forms::Ok(PluralSpec { nplurals, formula, definition: def.into() })
}

#[derive(Clone, Debug, PartialEq)]
pub enum End {
    /// every line used
    Clean,
    /// the text stops inside an entry
    Incomplete,
    /// a well-formed line in the wrong place
    Syntax { line: usize, got: String, exp: String },
    /// a line that is not PO
    Lexical { line: usize, text: String },
    /// an entry after the first whose msgid is empty; first keyword line of the entry
    EmptyId { line: usize },
    /// bad Plural-Forms
    Plural,
    /// nothing is asserted from here on
    Vague,
}

#[derive(Clone, Debug)]
pub struct RefOut {
    pub header: ObsHeader,
    pub units: Vec<ObsUnit>,
    /// the last unit is followed at once by the bad line: it may be lost with it
    pub last_optional: bool,
    pub end: End,
    pub entries: usize,
}

struct P {
    toks: Vec<(usize, Lex, String)>,
    i: usize,
}

enum Field {
    Some(String),
    None,
    Stop,
}

impl P {
    fn peek(&self) -> Option<&(usize, Lex, String)> {
        self.toks.get(self.i)
    }
    /// Is the next line unusable (bad or vague)?
    fn stop(&self) -> Option<End> {
        match self.peek() {
            Some((l, Lex::Bad, s)) => Some(End::Lexical { line: *l, text: s.clone() }),
            Some((_, Lex::Vague, _)) => Some(End::Vague),
            _ => None,
        }
    }
    fn field(&mut self, tag: &str, obsolete: bool) -> Field {
        let (flag, mut s) = match self.peek() {
            Some((_, Lex::Tok(Tok::Msg { flag, tag: t, s }), _)) if t == tag && flag.starts_with('~') == obsolete => {
                (*flag, s.clone())
            }
            Some((_, Lex::Bad | Lex::Vague, _)) => return Field::Stop,
            _ => return Field::None,
        };
        self.i += 1;
        while let Some((_, Lex::Tok(Tok::Cont { flag: f, s: x }), _)) = self.peek() {
            if *f != flag {
                break;
            }
            s += x;
            self.i += 1;
        }
        Field::Some(s)
    }
    fn expected(&self, exp: &str) -> End {
        match self.peek() {
            None => End::Incomplete,
            Some((l, Lex::Tok(t), _)) => End::Syntax {
                line: *l,
                got: match t {
                    Tok::Comment(k, _) => format!("#{k}"),
                    Tok::Msg { flag, .. } => flag.to_string(),
                    Tok::Cont { .. } => "\"".into(),
                },
                exp: exp.into(),
            },
            _ => self.stop().unwrap(),
        }
    }
}

/// Lines as the reader sees them: split at '\n', one '\r' before it dropped.
pub fn lines(text: &str) -> Vec<&str> {
    let mut v: Vec<&str> = text.split('\n').collect();
    if v.last() == Some(&"") {
        v.pop();
    }
    let n = v.len();
    v.iter()
        .enumerate()
        .map(|(i, l)| if i + 1 < n || text.ends_with('\n') { l.strip_suffix('\r').unwrap_or(l) } else { l })
        .collect()
}

pub fn header_of(notes: &Sorted, text: &str) -> (ObsHeader, String) {
    let mut m: BTreeMap<String, Vec<String>> = BTreeMap::new();
    for l in text.split('\n') {
        if let Some((k, v)) = l.split_once(':') {
            m.entry(k.trim().into()).or_default().push(v.trim().into());
        }
    }
    let props: BTreeMap<String, String> = m.into_iter().map(|(k, v)| (k, v.join(" "))).collect();
    let lang = props.get("Language").map(|l| crate::lang::resolve(l)).unwrap_or_default();
    let forms = props.get("Plural-Forms").cloned().unwrap_or_default();
    (ObsHeader { props, notes: notes.notes.clone(), comments: notes.comments.clone(), lang }, forms)
}

pub fn comment_of(kind: char, text: &str) -> CommentLine {
    let tokens = match kind {
        ',' => text.split(',').map(str::trim).filter(|s| !s.is_empty()).map(String::from).collect(),
        ':' => text.split_whitespace().map(String::from).collect(),
        _ => vec![],
    };
    CommentLine { kind, text: text.into(), tokens }
}

pub fn parse(text: &str) -> RefOut {
    let toks = lines(text)
        .into_iter()
        .enumerate()
        .map(|(i, l)| (i + 1, lex_line(l), l.to_string()))
        .filter(|t| t.1 != Lex::Blank)
        .collect();
    let mut p = P { toks, i: 0 };
    let mut out = RefOut { header: ObsHeader::default(), units: vec![], last_optional: false, end: End::Clean, entries: 0 };
    let mut spec: Option<PluralSpec> = None;
    let mut first = true;
    out.end = loop {
        let mut cs = vec![];
        while let Some((_, Lex::Tok(Tok::Comment(k, s)), _)) = p.peek() {
            cs.push(comment_of(*k, s));
            p.i += 1;
        }
        if let Some(e) = p.stop() {
            break e;
        }
        let Some((kwline, Lex::Tok(t), _)) = p.peek() else { break End::Clean };
        let kwline = *kwline;
        let obsolete = matches!(t, Tok::Msg { flag, .. } if flag.starts_with('~'));
        let start = p.i;
        macro_rules! field {
            ($tag:expr) => {
                match p.field($tag, obsolete) {
                    Field::Some(s) => Some(s),
                    Field::None => None,
                    Field::Stop => break p.stop().unwrap(),
                }
            };
        }
        let prev_ctxt = field!("|msgctxt");
        let prev_id = field!("|msgid");
        let prev_plural = if prev_id.is_some() { field!("|msgid_plural") } else { None };
        let ctxt = field!("msgctxt");
        let Some(id) = field!("msgid") else {
            if first && p.peek().is_some() {
                // a first entry without msgid
                let plain = p.i == start
                    && matches!(&p.peek().unwrap().1,
                        Lex::Tok(Tok::Cont { .. }) | Lex::Tok(Tok::Msg { .. }))
                    && !matches!(&p.peek().unwrap().1, Lex::Tok(Tok::Msg { tag, .. }) if tag == "msgid_plural");
                if !plain {
                    break End::Vague;
                }
            }
            break p.expected("msgid");
        };
        let plural = field!("msgid_plural");
        let body = match plural {
            None => match field!("msgstr") {
                None => break p.expected("msgstr"),
                Some(s) => Body::Simple(s),
            },
            Some(pl) => {
                let n = spec.as_ref().map_or(2, |s| s.count());
                let mut vs = vec![];
                while vs.len() < n {
                    match p.field(&format!("msgstr[{}]", vs.len()), obsolete) {
                        Field::Some(s) => vs.push(s),
                        _ => break,
                    }
                }
                if vs.is_empty() {
                    break p.expected("msgstr[0]");
                }
                if id.is_empty() {
                    break End::Vague;
                }
                Body::Plural(pl, vs)
            }
        };
        out.entries += 1;
        let adjacent = p.stop().is_some();
        let e = Entry { comments: cs, obsolete, prev_ctxt, prev_id, prev_plural, ctxt, id, body };
        if e.id.is_empty() {
            if !first {
                // rejected, or lost with the bad line that follows
                break if adjacent { End::Vague } else { End::EmptyId { line: kwline } };
            }
            if obsolete {
                break End::Vague;
            }
            if adjacent {
                break p.stop().unwrap();
            }
            let Body::Simple(text) = &e.body else { unreachable!() };
            let (h, forms) = header_of(&sort_comments(&e.comments), text);
            out.header = h;
            match plural_forms(&forms) {
                Forms::None => (),
                Forms::Ok(s) => spec = Some(s),
                Forms::Bad => break End::Plural,
                Forms::Vague => break End::Vague,
            }
        } else {
            out.units.push(e.expect(spec.as_ref()));
            if adjacent {
                out.last_optional = true;
            }
        }
        first = false;
    };
    out
}

/// Does what was read agree with the reference?
pub fn agree(r: &RefOut, o: &crate::observe::Outcome) -> Result<(), String> {
    use crate::observe::diff;
    let n = r.units.len();
    if r.end == End::Vague {
        let need = n - r.last_optional as usize;
        if o.error.is_some() && o.at_open {
            // a vague first entry or header
            return if need == 0 { Ok(()) } else { Err(format!("rejected at open: {:?}", o.error)) };
        }
        let k = n.min(o.units.len());
        if o.units.len() < need {
            return Err(format!("only {} of {} units before the first doubtful line were read", o.units.len(), need));
        }
        for i in 0..k {
            if i + 1 == n && r.last_optional {
                break;
            }
            diff(&format!("unit {i}"), &r.units[i], &o.units[i])?;
        }
        return Ok(());
    }
    let err = o.error.as_ref();
    match (&r.end, err) {
        (End::Clean | End::Incomplete, None) => (),
        (End::Clean | End::Incomplete, Some(e)) => return Err(format!("unexpected error: {}", e.display)),
        (End::Plural, Some(e)) if o.at_open && (e.kind == ErrKind::Plural || e.kind == ErrKind::Unexpected) => return Ok(()),
        (end, None) => return Err(format!("no error reported, expected {end:?}")),
        (End::Syntax { .. }, Some(e)) if e.kind == ErrKind::Parse => (),
        (End::Lexical { .. }, Some(e)) if e.kind == ErrKind::Parse => (),
        (End::EmptyId { .. }, Some(e)) if e.kind == ErrKind::Unexpected => (),
        (end, Some(e)) => return Err(format!("wrong kind of error {e:?}, expected {end:?}")),
    }
    if let (Some(h), true) = (&o.header, n > 0 || r.end == End::Clean) {
        diff("header", &r.header, h)?;
    }
    let want = if r.last_optional && o.units.len() + 1 == n { &r.units[..n - 1] } else { &r.units[..] };
    crate::observe::diff_units(want, &o.units)
}
