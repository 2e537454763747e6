//! The properties.  Each `run` decodes one case from the tape, runs the real code on it and
//! compares with its oracle.

pub mod catalogue;
pub mod faults;
pub mod formulas;
pub mod giants;
pub mod history;
pub mod malformed;
pub mod relations;
pub mod strings;
pub mod values;

use crate::{
    engine::{Cx, Prop, Res},
    model::*,
    observe,
    tape::Tape,
};

pub fn all() -> Vec<&'static Prop> {
    let mut v: Vec<&'static Prop> = vec![];
    v.extend(catalogue::PROPS);
    v.extend(strings::PROPS);
    v.extend(relations::PROPS);
    v.extend(formulas::PROPS);
    v.extend(faults::PROPS);
    v.extend(malformed::PROPS);
    v.extend(values::PROPS);
    v.extend(history::PROPS);
    v.sort_by_key(|p| p.id);
    v
}

pub fn find(id: &str) -> Option<&'static Prop> {
    all().into_iter().find(|p| p.id == id)
}

/// Labels for the distribution of catalogues.
pub fn classify(c: &Catalogue, cx: &mut Cx) {
    cx.class_if(c.header.is_some(), "header");
    cx.class_if(c.header.is_none(), "no-header");
    cx.class_if(c.entries.is_empty(), "no-entry");
    cx.class_if(c.entries.len() >= 2, "entries>=2");
    cx.class_if(c.entries.len() >= 50, "entries>=50");
    cx.class_if(c.entries.len() >= 1000, "entries>=1000");
    cx.class_if(!c.trailing.is_empty(), "trailing-comments");
    if let Some(p) = &c.plural {
        cx.class("plural-forms");
        cx.class_if(p.count() >= 10, "nplurals>=10");
        cx.class_if(p.formula.is_none(), "no-formula");
    }
    for e in c.entries.iter().take(60) {
        cx.class_if(e.obsolete, "obsolete");
        cx.class_if(e.ctxt.is_some(), "context");
        cx.class_if(e.ctxt.as_deref() == Some(""), "empty-context");
        cx.class_if(e.prev_id.is_some() || e.prev_ctxt.is_some(), "previous");
        cx.class_if(e.prev_plural.is_some(), "previous-plural");
        cx.class_if(!e.comments.is_empty(), "comments");
        match &e.body {
            Body::Plural(_, v) => {
                cx.class("plural-entry");
                cx.class_if(v.len() < c.plural.as_ref().map_or(2, |p| p.count()), "fewer-variants");
            }
            Body::Simple(s) => {
                cx.class_if(s.len() > 1000, "long-string");
                cx.class_if(s.contains(['"', '\\', '\n', '\t', '\r']), "escapes");
                cx.class_if(s.is_empty(), "untranslated");
            }
        }
    }
}

pub fn nontrivial(c: &Catalogue) -> bool {
    c.entries.iter().any(|e| {
        !e.comments.is_empty()
            || e.obsolete
            || e.prev_id.is_some()
            || e.prev_ctxt.is_some()
            || e.ctxt.is_some()
            || matches!(e.body, Body::Plural(..))
            || matches!(&e.body, Body::Simple(s) if s.contains(['"', '\\', '\n', '\t', '\r', '#']))
    })
}

pub fn read(text: &str) -> Result<observe::Outcome, String> {
    observe::read_bytes(text.as_bytes())
}

/// Some well-formed catalogue text with layout; used as the seed of mutations.
pub fn some_text(t: &mut Tape, cx: &mut Cx, cfg: &crate::gen::Cfg) -> (Catalogue, String, Vec<crate::render::Span>) {
    let mut lt = t.tail(120);
    let c = crate::gen::catalogue(t, cx.d, cfg);
    let l = crate::render::Layout::draw(&mut lt);
    let (s, spans) = crate::render::catalogue(&c, l, &mut lt);
    (c, s, spans)
}

pub fn ensure(b: bool, m: impl FnOnce() -> String) -> Res {
    if b {
        Ok(())
    } else {
        Err(m())
    }
}
