//! Writes an abstract catalogue as PO text.  The layout (which must not matter) is drawn from the
//! tape; a zero tape gives the canonical layout that gettext writes.

use crate::{model::*, tape::Tape};

#[derive(Clone, Copy, Debug)]
pub struct Layout {
    pub level: usize,
    pub eol: usize,
    pub split: usize,
    pub raw: bool,
    pub final_eol: bool,
}

impl Layout {
    pub const PLAIN: Layout = Layout { level: 0, eol: 0, split: 0, raw: false, final_eol: true };

    pub fn draw(t: &mut Tape) -> Layout {
        Layout {
            level: t.weighted(&[4, 3, 3]),
            eol: t.weighted(&[6, 2, 1]),
            split: t.weighted(&[3, 3, 2, 1]),
            raw: t.chance(1, 3),
            final_eol: !t.chance(1, 6),
        }
    }
}

pub struct Render<'a, 'b> {
    pub out: String,
    pub line: usize,
    pub l: Layout,
    pub t: &'a mut Tape<'b>,
    /// (first line, last line, start byte, end byte) of each entry, comments included
    pub spans: Vec<Span>,
    pub blanks: usize,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Span {
    pub first: usize,
    pub last: usize,
    pub start: usize,
    pub end: usize,
    /// line of the first keyword line
    pub keyword: usize,
}

pub fn escape(s: &str, raw: bool, t: &mut Tape) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            '\t' if !(raw && t.chance(1, 2)) => o += "\\t",
            '\r' if !(raw && t.chance(1, 2)) => o += "\\r",
            c => o.push(c),
        }
    }
    o
}

impl<'a, 'b> Render<'a, 'b> {
    pub fn new(l: Layout, t: &'a mut Tape<'b>) -> Self {
        Render { out: String::new(), line: 1, l, t, spans: vec![], blanks: 0 }
    }

    fn gap(&mut self, canonical: &str) -> String {
        if self.l.level == 0 || !self.t.chance(1, 3) {
            return canonical.to_string();
        }
        const WS: &[&str] = &["", " ", "  ", "\t", " \t ", "\u{a0}", "\u{3000}", "\u{c}", "   "];
        let n = if self.l.level == 1 { 5 } else { WS.len() };
        if self.t.chance(1, 2000) {
            let w = if self.t.chance(1, 2) { " " } else { "\t" };
            return w.repeat([8, 16, 64, 80, 128, 255, 256, 1000, 4096][self.t.below(9)]);
        }
        WS[self.t.below(n)].to_string()
    }

    /// White space that may not be empty (after the `#` of a translator comment).
    pub fn raw_line(&mut self, s: &str) {
        self.out += s;
        let crlf = match self.l.eol {
            0 => false,
            1 => true,
            _ => self.t.chance(1, 2),
        };
        self.out += if crlf { "\r\n" } else { "\n" };
        self.line += 1;
    }

    fn blank(&mut self) {
        if self.l.level > 0 && self.t.chance(1, 6) {
            let n = if self.t.chance(1, 400) { [10, 100, 127, 255, 256, 1000, 1024, 4096][self.t.below(8)] } else { self.t.range(1, 3) };
            for _ in 0..n {
                let s = self.gap("");
                self.raw_line(&s);
                self.blanks += 1;
            }
        }
    }

    pub fn separator(&mut self) {
        if self.l.level == 0 || self.t.chance(2, 3) {
            self.raw_line("");
        }
    }

    pub fn keyword(&mut self, prefix: &str, tag: &str, s: &str) {
        let parts = self.split(s);
        let (l, r, tt) = (self.l.raw, &parts, &mut *self.t);
        let esc: Vec<String> = r.iter().map(|p| escape(p, l, tt)).collect();
        for (i, p) in esc.iter().enumerate() {
            if i > 0 {
                self.blank();
            }
            let indent = self.gap("");
            let after_prefix = if prefix.is_empty() { String::new() } else { self.gap(" ") };
            let (tag, before) = if i == 0 { (tag, self.gap(" ")) } else { ("", String::new()) };
            let end = self.gap("");
            self.raw_line(&format!("{indent}{prefix}{after_prefix}{tag}{before}\"{p}\"{end}"));
        }
    }

    /// Chunks whose concatenation is `s`.
    fn split(&mut self, s: &str) -> Vec<String> {
        let canon = |s: &str| -> Vec<String> {
            // as gettext writes multi-line strings
            if s.trim_end_matches('\n').contains('\n') {
                let mut v = vec![String::new()];
                v.extend(s.split_inclusive('\n').map(String::from));
                v
            } else {
                vec![s.to_string()]
            }
        };
        match self.l.split {
            0 => canon(s),
            1 => vec![s.to_string()],
            k => {
                let cs: Vec<char> = s.chars().collect();
                let mut v = vec![];
                let mut cur = String::new();
                if self.t.chance(1, 2) {
                    v.push(String::new());
                }
                let den = if k == 2 { 12 } else { 3 };
                let cap = 60;
                for c in cs {
                    if v.len() < cap && self.t.chance(1, den) {
                        v.push(std::mem::take(&mut cur));
                        if self.t.chance(1, 6) {
                            v.push(String::new());
                        }
                    }
                    cur.push(c);
                }
                v.push(cur);
                v
            }
        }
    }

    pub fn comment(&mut self, c: &CommentLine) {
        let indent = self.gap("");
        let body = match c.kind {
            ',' => {
                let mut s = String::new();
                for (i, x) in c.tokens.iter().enumerate() {
                    if i > 0 {
                        s += &self.gap("");
                        s.push(',');
                        s += &self.gap(" ");
                    }
                    s += x;
                }
                s
            }
            ':' => {
                let mut s = String::new();
                for (i, x) in c.tokens.iter().enumerate() {
                    if i > 0 {
                        let g = self.gap(" ");
                        s += if g.is_empty() { " " } else { &g };
                    }
                    s += x;
                }
                s
            }
            _ => c.text.clone(),
        };
        let line = if c.kind == ' ' {
            // any white space after '#' (none if there is no text)
            let g = self.gap(" ");
            let g = if g.is_empty() && !body.is_empty() { " ".to_string() } else { g };
            format!("{indent}#{g}{body}")
        } else {
            let g = self.gap(" ");
            format!("{indent}#{}{g}{body}", c.kind)
        };
        // a comment line must not end in '\r' by itself
        self.raw_line(line.trim_end_matches('\r'));
    }

    pub fn comments(&mut self, cs: &[CommentLine]) {
        for c in cs {
            self.comment(c);
            self.blank();
        }
    }

    pub fn entry(&mut self, e: &Entry) {
        let (first, start) = (self.line, self.out.len());
        self.comments(&e.comments);
        let keyword = self.line;
        let (p, q) = if e.obsolete { ("#~", "#~|") } else { ("", "#|") };
        for (tag, v) in [("msgctxt", &e.prev_ctxt), ("msgid", &e.prev_id), ("msgid_plural", &e.prev_plural)] {
            if let Some(s) = v {
                self.keyword(q, tag, s);
                self.blank();
            }
        }
        if let Some(c) = &e.ctxt {
            self.keyword(p, "msgctxt", c);
            self.blank();
        }
        self.keyword(p, "msgid", &e.id);
        self.blank();
        match &e.body {
            Body::Simple(s) => self.keyword(p, "msgstr", s),
            Body::Plural(id, vs) => {
                self.keyword(p, "msgid_plural", id);
                for (i, v) in vs.iter().enumerate() {
                    self.blank();
                    self.keyword(p, &format!("msgstr[{i}]"), v);
                }
            }
        }
        let s = Span { first, last: self.line - 1, start, end: self.out.len(), keyword };
        self.spans.push(s);
    }

    pub fn header(&mut self, h: &Header) {
        self.comments(&h.comments);
        if let Some(c) = &h.ctxt {
            self.keyword("", "msgctxt", c);
        }
        self.keyword("", "msgid", "");
        self.keyword("", "msgstr", &h.text());
    }

    pub fn finish(mut self) -> (String, Vec<Span>) {
        if !self.l.final_eol {
            if self.out.ends_with("\r\n") {
                self.out.truncate(self.out.len() - 2);
            } else if self.out.ends_with('\n') {
                self.out.truncate(self.out.len() - 1);
            }
        }
        (self.out, self.spans)
    }
}

pub fn catalogue(c: &Catalogue, l: Layout, t: &mut Tape) -> (String, Vec<Span>) {
    let mut r = Render::new(l, t);
    let mut first = true;
    if let Some(h) = &c.header {
        r.header(h);
        first = false;
    }
    for e in &c.entries {
        if !first {
            r.separator();
        }
        first = false;
        r.entry(e);
    }
    if !c.trailing.is_empty() {
        if !first {
            r.separator();
        }
        r.comments(&c.trailing);
    }
    r.finish()
}

pub fn plain(c: &Catalogue) -> String {
    catalogue(c, Layout::PLAIN, &mut Tape::new(&[])).0
}
