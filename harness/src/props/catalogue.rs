//! Whole catalogues against the model: C01, C04, C05, C06, C07, C19, C20.

use super::*;
use crate::{
    gen,
    render::{self, Layout},
};

pub static PROPS: &[Prop] = &[
    Prop {
        id: "C01",
        title: "Catalogue fidelity",
        rule: "a random abstract catalogue (header, plural rule, entries with every feature, sizes up to thousands of entries and 64 KiB strings) is written as PO in a random layout and read back; non-trivial: at least one entry uses comments, context, previous source, obsolete, plural or escapes; distinct by file text",
        run: c01,
        quick: 29700,
        thorough: 1188000,
        fixed: Some(super::giants::c01),
        probes: &[],
    },
    Prop {
        id: "C04",
        title: "Comment classification",
        rule: "catalogues whose entries carry 1..30 comment lines of every kind, many of them looking like PO syntax (quoted text, keywords, commented-out entries); the units must carry exactly these comments, and the same catalogue without them must give the same messages; non-trivial: a comment line contains a quote or keyword, or two kinds are mixed",
        run: c04,
        quick: 17700,
        thorough: 708000,
        fixed: Some(super::giants::c04),
        probes: &[],
    },
    Prop {
        id: "C05",
        title: "Translation state",
        rule: "entries with random flag lines (fuzzy in any position, near misses, several lines, repeated flags) and blank/partly blank/full translations, simple/plural/obsolete; state and is_translated against the rule fuzzy > blank > final; non-trivial: at least one flag line",
        run: c05,
        quick: 31300,
        thorough: 1252000,
        fixed: Some(super::giants::c05),
        probes: &[],
    },
    Prop {
        id: "C06",
        title: "Header data",
        rule: "headers with 0..120 lines (standard, custom and repeated keys, values with ':' and escapes, white space around, lines without ':'), notes and comments, or no header at all; non-trivial: a key is repeated or a line has unusual spacing or a value has ':'",
        run: c06,
        quick: 46900,
        thorough: 1876000,
        fixed: Some(super::giants::c06),
        probes: &[],
    },
    Prop {
        id: "C07",
        title: "Target language",
        rule: "Language header values: BCP 47 ranges, Unix locales with encodings and modifiers, and junk, at any header position; against an independent resolver; non-trivial: the value is not empty",
        run: c07,
        quick: 129200,
        thorough: 5168000,
        fixed: Some(super::giants::c06),
        probes: &[],
    },
    Prop {
        id: "C19",
        title: "Obsolete entries",
        rule: "catalogues in which random entries are marked obsolete are compared with the same catalogue with the marks flipped (only is_obsolete may differ), and entries whose lines mix both marks must end in an error without inventing a unit; non-trivial: an obsolete entry next to a live one, or a mixed entry",
        run: c19,
        quick: 8200,
        thorough: 328000,
        fixed: Some(super::giants::c19),
        probes: &[],
    },
    Prop {
        id: "C20",
        title: "Previous source",
        rule: "entries with any subset of previous context/msgid/msgid_plural (simple and plural, live and obsolete, split over continuation lines); compared with the model and with the same catalogue without previous lines; non-trivial: some entry has previous lines",
        run: c20,
        quick: 10200,
        thorough: 408000,
        fixed: Some(super::giants::c20),
        probes: &[],
    },
];

fn check(c: &Catalogue, text: &str) -> Res {
    observe::expect(c, &read(text)?)
}

fn c01(t: &mut Tape, cx: &mut Cx) -> Res {
    let (c, s, _) = some_text(t, cx, &gen::CFG);
    classify(&c, cx);
    cx.case(s.as_bytes(), nontrivial(&c));
    check(&c, &s)
}

fn syntaxy(t: &mut Tape, cx: &Cx) -> String {
    const S: &[&str] = &[
        "\"quoted\"", "\"\"", "msgid \"x\"", "msgstr \"evil\"", "msgstr \"\"", "msgctxt \"c\"", "msgid_plural \"p\"",
        "msgstr[0] \"z\"", "msgstr[1] \"z\"", "~ msgid \"x\"", "| msgid \"x\"", "#", "\"", "ends with \"", "say \"hi\"", "a \"b\" c",
        "\"a\\n\"", "msgid", "fuzzy", ", fuzzy", ": file:1", ". dev", "\\n", "\"Language: de\\n\"", "TODO \"check this\"", "",
    ];
    if t.chance(3, 4) {
        t.pick(S).to_string()
    } else {
        gen::comment_text(t, cx.d)
    }
}

fn c04(t: &mut Tape, cx: &mut Cx) -> Res {
    let mut c = gen::catalogue(t, cx.d, &gen::Cfg { max_entries: 4, spikes: false });
    let mut some = false;
    for e in &mut c.entries {
        if t.chance(1, 4) {
            continue;
        }
        let n = if t.chance(1, 20) { t.range(5, 40) } else { t.range(1, 5) };
        e.comments = (0..n)
            .map(|_| {
                let mut k = gen::comment(t, cx.d);
                if ![',', ':'].contains(&k.kind) && t.chance(2, 3) {
                    k.text = gen::unlike_message(k.kind, syntaxy(t, cx).trim_start().to_string());
                }
                some |= k.text.contains('"') || k.text.contains("msg");
                k
            })
            .collect();
        let mut kinds: Vec<char> = e.comments.iter().map(|c| c.kind).collect();
        kinds.sort();
        kinds.dedup();
        some |= kinds.len() > 1;
    }
    if let Some(h) = &mut c.header {
        if t.chance(1, 2) {
            let n = t.range(1, 4);
            h.comments = (0..n).map(|_| gen::comment(t, cx.d)).collect();
        }
    }
    let l = Layout::draw(t);
    let (s, _) = render::catalogue(&c, l, t);
    classify(&c, cx);
    cx.case(s.as_bytes(), some);
    let o = read(&s)?;
    observe::expect(&c, &o)?;
    // without comments: same messages
    let mut bare = c.clone();
    bare.trailing.clear();
    bare.entries.iter_mut().for_each(|e| e.comments.clear());
    let b = read(&render::plain(&bare))?;
    ensure(b.error.is_none() && b.units.len() == o.units.len(), || "comments change the number of units".into())?;
    for (x, y) in o.units.iter().zip(&b.units) {
        observe::diff("message with and without comments", &y.msg, &x.msg)?;
        observe::diff("context with and without comments", &y.ctxt, &x.ctxt)?;
        observe::diff("previous message with and without comments", &y.prev_msg, &x.prev_msg)?;
        ensure(y.flags.is_empty() && y.notes.is_empty() && y.comments.is_empty() && y.locations.is_empty(), || {
            "comments out of nothing".into()
        })?;
    }
    Ok(())
}

fn c05(t: &mut Tape, cx: &mut Cx) -> Res {
    const FLAGS: &[&str] = &[
        "fuzzy", "fuzzy", "fuzzy", "c-format", "Fuzzy", "FUZZY", "fuzzy-format", "not-fuzzy", "no-fuzzy", "nofuzzy", "fuz", "x", "obsolete",
        "no-c-format", "fuzzy c-format", "python-format", "range: 1..3", "untranslated",
    ];
    let plural = if t.chance(2, 3) { Some(gen::plural_spec(t, cx.d)) } else { None };
    let header = if plural.is_some() || t.chance(1, 2) {
        let comments = if t.chance(1, 3) {
            vec![CommentLine { kind: ',', text: String::new(), tokens: vec!["fuzzy".into()] }]
        } else {
            vec![]
        };
        Some(Header { comments, ..gen::side_header(t, cx.d, plural.as_ref()).unwrap_or_default() })
    } else {
        None
    };
    let forms = plural.as_ref().map_or(2, |p| p.count());
    let n = if t.chance(1, 40) { t.range(10, 120) } else { t.range(1, 5) };
    let mut entries = vec![];
    let mut flagged = false;
    for i in 0..n {
        let mut e = gen::entry(t, cx.d, forms);
        e.id = format!("m{i}");
        e.comments.retain(|c| c.kind != ',');
        let lines = t.weighted(&[2, 4, 2, 1]);
        for _ in 0..lines {
            flagged = true;
            let k = t.range(1, 5);
            let tokens = (0..k)
                .map(|_| {
                    if t.chance(1, 5) {
                        let s: String = gen::near(t, cx.d, "fuzzy").replace(',', "");
                        let s = s.trim();
                        if !s.is_empty() {
                            return s.to_string();
                        }
                    }
                    if !cx.d.fresh_strings.is_empty() && t.chance(1, 6) {
                        let s: String = t.pick(&cx.d.fresh_strings).replace([',', '\n', '\r'], "");
                        let s = s.trim();
                        if !s.is_empty() {
                            return s.to_string();
                        }
                    }
                    t.pick(FLAGS).to_string()
                })
                .collect();
            let at = t.below(e.comments.len() + 1);
            e.comments.insert(at, CommentLine { kind: ',', text: String::new(), tokens });
        }
        // notes which mention the flag do not set it
        if t.chance(1, 4) {
            let kind = *t.pick(&[' ', '.', '$', ';']);
            e.comments.push(CommentLine { kind, text: "fuzzy, c-format".into(), tokens: vec![] });
        }
        if t.chance(1, 6) {
            e.comments.push(CommentLine { kind: ':', text: String::new(), tokens: vec!["fuzzy".into()] });
        }
        match &mut e.body {
            Body::Simple(s) => match t.below(4) {
                0 => s.clear(),
                1 => *s = t.pick(&[" ", "\n", "0", "x", "\u{a0}", "\t", "\\", "\u{200b}", "\0"]).to_string(),
                // nothing follows from a translation that is the source, the context or the like
                2 => {
                    *s = match t.below(3) {
                        0 => e.ctxt.get_or_insert_with(|| format!("m{i}")).clone(),
                        1 => e.prev_id.get_or_insert_with(|| format!("m{i}")).clone(),
                        _ => e.id.clone(),
                    }
                }
                _ => (),
            },
            Body::Plural(p, v) => match t.below(5) {
                2 => {
                    let k = t.below(v.len());
                    v[k] = if t.chance(1, 2) { p.clone() } else { e.id.clone() };
                    if t.chance(1, 3) {
                        v.iter_mut().enumerate().for_each(|(i, s)| if i != k { s.clear() });
                    }
                }
                0 => v.iter_mut().for_each(|s| s.clear()),
                1 => {
                    let k = t.below(v.len());
                    v.iter_mut().enumerate().for_each(|(i, s)| if i != k { s.clear() });
                    if t.chance(1, 2) {
                        v[k] = t.pick(&[" ", "\n", "x"]).to_string();
                    }
                }
                _ => (),
            },
        }
        entries.push(e);
    }
    let c = Catalogue { header, plural, entries, trailing: vec![] };
    let l = Layout::draw(t);
    let (s, _) = render::catalogue(&c, l, t);
    cx.case(s.as_bytes(), flagged);
    let o = read(&s)?;
    for u in c.expect_units() {
        cx.class(match u.state {
            St::Empty => "empty",
            St::NeedsWork => "needs-work",
            St::Final => "final",
        });
    }
    observe::expect(&c, &o)
}

fn c06(t: &mut Tape, cx: &mut Cx) -> Res {
    let with = !t.chance(1, 8);
    let plural = if with && t.chance(1, 3) { Some(gen::plural_spec(t, cx.d)) } else { None };
    let header = if with {
        let mut h = gen::header(t, cx.d, plural.as_ref());
        // repeat some keys
        for _ in 0..t.weighted(&[3, 3, 2, 1]) {
            let keys: Vec<String> = h
                .lines
                .iter()
                .filter_map(|l| match l {
                    HeaderLine::Prop { key, .. } if key != "Plural-Forms" => Some(key.clone()),
                    _ => None,
                })
                .collect();
            if !keys.is_empty() {
                let k = t.pick(&keys).clone();
                let v = gen::header_value(t, cx.d);
                let l = gen::prop(t, k, v);
                let at = t.below(h.lines.len() + 1);
                h.lines.insert(at, l);
            }
        }
        Some(h)
    } else {
        None
    };
    let forms = plural.as_ref().map_or(2, |p| p.count());
    let n = t.range(if with { 0 } else { 1 }, 3);
    let entries = (0..n).map(|_| gen::entry(t, cx.d, forms)).collect();
    let c = Catalogue { header, plural, entries, trailing: vec![] };
    let l = Layout::draw(t);
    let (s, _) = render::catalogue(&c, l, t);
    let mut odd = !with;
    if let Some(h) = &c.header {
        let np = h.lines.iter().filter(|l| matches!(l, HeaderLine::Prop { .. })).count();
        let rep = h.props().len() < np;
        let colon = h.lines.iter().any(|l| matches!(l, HeaderLine::Prop { value, .. } if value.contains(':')));
        let space = h.lines.iter().any(|l| matches!(l, HeaderLine::Prop { pre, mid, post, trail, .. } if !pre.is_empty() || !mid.is_empty() || post != " " || !trail.is_empty()));
        cx.class_if(rep, "repeated-key");
        cx.class_if(colon, "colon-in-value");
        cx.class_if(space, "odd-spacing");
        cx.class_if(h.lines.iter().any(|l| matches!(l, HeaderLine::Junk(_))), "line-without-colon");
        cx.class_if(h.lines.is_empty(), "empty-header");
        cx.class_if(h.lines.len() > 20, "long-header");
        odd |= rep || colon || space;
    } else {
        cx.class("no-header");
    }
    cx.case(s.as_bytes(), odd);
    check(&c, &s)
}

fn c07(t: &mut Tape, cx: &mut Cx) -> Res {
    let lang = gen::language(t, cx.d);
    let mut lines = vec![];
    let n = t.below(4);
    for _ in 0..n {
        let (k, v) = (gen::header_key(t, cx.d), gen::header_value(t, cx.d));
        lines.push(gen::prop(t, k, v));
    }
    let at = t.below(lines.len() + 1);
    let l = gen::prop(t, "Language".into(), lang.clone());
    lines.insert(at, l);
    let mut lang = lang;
    if t.chance(1, 12) {
        lines.retain(|l| !matches!(l, HeaderLine::Prop { key, .. } if key == "Language"));
        cx.class("no-language-header");
        lang.clear();
    } else if t.chance(1, 15) {
        // a repeated header: the values make one list
        let other = gen::language(t, cx.d);
        let l = gen::prop(t, "Language".into(), other.clone());
        let k = t.below(lines.len() + 1);
        lines.insert(k, l);
        lang = if k <= at { format!("{other} {lang}") } else { format!("{lang} {other}") };
        cx.class("repeated-language-header");
    }
    let c = Catalogue {
        header: Some(Header { lines, final_nl: !t.chance(1, 4), ..Header::default() }),
        plural: None,
        entries: vec![gen::small(gen::entry(t, cx.d, 0))],
        trailing: vec![],
    };
    let l = Layout::draw(t);
    let (s, _) = render::catalogue(&c, l, t);
    cx.class(if crate::lang::range(&lang).is_some() {
        if lang.is_empty() { "empty" } else { "bcp47" }
    } else if crate::lang::unix(&lang).is_some() {
        "unix"
    } else {
        "invalid"
    });
    cx.case(s.as_bytes(), !lang.is_empty());
    check(&c, &s)
}

fn c19(t: &mut Tape, cx: &mut Cx) -> Res {
    let mut c = gen::catalogue(t, cx.d, &gen::Cfg { max_entries: 6, spikes: true });
    for e in &mut c.entries {
        e.obsolete = t.chance(1, 2);
    }
    let l = Layout::draw(t);
    let (s, spans) = render::catalogue(&c, l, t);
    let mixed = c.entries.iter().any(|e| e.obsolete) && c.entries.iter().any(|e| !e.obsolete);
    classify(&c, cx);
    cx.class_if(mixed, "live-and-obsolete");
    cx.case(s.as_bytes(), mixed);
    let o = read(&s)?;
    observe::expect(&c, &o)?;
    // flip every mark: nothing else changes
    let mut f = c.clone();
    f.entries.iter_mut().for_each(|e| e.obsolete = !e.obsolete);
    let mut back = read(&render::catalogue(&f, l, t).0)?;
    back.units.iter_mut().for_each(|u| u.obsolete = !u.obsolete);
    observe::diff_units(&o.units, &back.units)?;
    observe::diff("header", &o.header, &back.header)?;

    // mix the marks inside one entry: unmark or mark one of its keyword lines
    if c.entries.is_empty() || c.entries.len() > 50 {
        return Ok(());
    }
    let k = t.below(c.entries.len());
    let lines: Vec<&str> = s.split_inclusive('\n').collect();
    let sp = spans[k];
    let cand: Vec<usize> = (sp.keyword..=sp.last)
        .filter(|n| {
            let l = lines[*n - 1].trim();
            !l.is_empty() && (l.contains("msg") || l.starts_with('"') || l.starts_with("#~"))
        })
        .collect();
    if cand.is_empty() {
        return Ok(());
    }
    let at = *t.pick(&cand);
    let m: String = lines
        .iter()
        .enumerate()
        .map(|(i, l)| {
            if i + 1 != at {
                return l.to_string();
            }
            let body = l.trim_start();
            match body.strip_prefix("#~") {
                Some(r) if !r.starts_with('|') => r.to_string(),
                Some(r) => format!("#{r}"),
                None => match body.strip_prefix("#|") {
                    Some(r) => format!("#~|{r}"),
                    None => format!("#~ {body}"),
                },
            }
        })
        .collect();
    let r = crate::refparse::parse(&m);
    cx.class(match &r.end {
        crate::refparse::End::Vague => "mixed:vague",
        crate::refparse::End::Syntax { .. } => "mixed:rejected",
        crate::refparse::End::Clean => "mixed:regrouped",
        _ => "mixed:other",
    });
    cx.case(m.as_bytes(), true);
    crate::refparse::agree(&r, &read(&m)?)
}

fn c20(t: &mut Tape, cx: &mut Cx) -> Res {
    let mut c = gen::catalogue(t, cx.d, &gen::Cfg { max_entries: 5, spikes: true });
    let mut some = false;
    for e in c.entries.iter_mut().take(60) {
        if t.chance(1, 5) {
            e.prev_ctxt = None;
            e.prev_id = None;
            e.prev_plural = None;
            continue;
        }
        e.prev_ctxt = gen::opt_text(t, cx.d, 1, 2);
        e.prev_id = gen::opt_text(t, cx.d, 4, 5);
        e.prev_plural = if e.prev_id.is_some() { gen::opt_text(t, cx.d, 1, 2) } else { None };
        some |= e.prev_ctxt.is_some() || e.prev_id.is_some();
    }
    let l = Layout::draw(t);
    let (s, _) = render::catalogue(&c, l, t);
    classify(&c, cx);
    cx.case(s.as_bytes(), some);
    let o = read(&s)?;
    observe::expect(&c, &o)?;
    let mut bare = c.clone();
    for e in &mut bare.entries {
        e.prev_ctxt = None;
        e.prev_id = None;
        e.prev_plural = None;
    }
    let b = read(&render::plain(&bare))?;
    ensure(b.error.is_none() && b.units.len() == o.units.len(), || "previous lines change the number of units".into())?;
    for (x, y) in o.units.iter().zip(&b.units) {
        let mut x = x.clone();
        x.prev_ctxt = None;
        x.prev_msg = empty_msg();
        observe::diff("unit with and without previous lines", y, &x)?;
    }
    Ok(())
}
