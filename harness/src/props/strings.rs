//! C02: string decoding.  C03: layout.

use super::*;
use crate::{
    gen, refparse,
    render::{self, Layout},
};

pub static PROPS: &[Prop] = &[
    Prop {
        id: "C02",
        title: "String decoding",
        rule: "raw string bodies (every mix of the five escapes, other backslash sequences, control, multi-byte and ordinary characters, magic lengths) spread over 1..80 (rarely thousands of) continuation lines, in every field of an entry and in the header, live and obsolete; against a hand-written decoder; non-trivial: a backslash occurs or the string is split",
        run: c02,
        quick: 40000,
        thorough: 1600000,
        fixed: Some(super::giants::c02),
        probes: &[],
    },
    Prop {
        id: "C03",
        title: "Layout invariance",
        rule: "one catalogue written in two random layouts (indentation, spacing inside lines, blank lines anywhere, string splitting, CRLF/LF/mixed, raw or escaped tab and CR, missing final newline): everything observable must be equal; non-trivial: the two texts differ and there is an entry",
        run: c03,
        quick: 10800,
        thorough: 432000,
        fixed: Some(super::giants::c03),
        probes: &[],
    },
];

/// One raw line body, as it stands between the quotes.
fn raw(t: &mut Tape, cx: &Cx) -> String {
    let n = match t.weighted(&[6, 6, 1]) {
        0 => t.range(0, 5),
        1 => t.range(4, 16),
        _ => gen::magic_len(t, cx.d).min(6000),
    };
    let mono = n > 20 && t.chance(2, 3);
    let mut o = String::new();
    let piece = |t: &mut Tape| -> String {
        match t.weighted(&[6, 4, 2, 2, 1]) {
            0 => t.pick(&["\\n", "\\t", "\\r", "\\\"", "\\\\"]).to_string(),
            1 => {
                let c = gen::any_char(t, cx.d);
                match c {
                    '\n' => "\\n".into(),
                    '"' => "\\\"".into(),
                    '\\' => "\\\\".into(),
                    c => c.to_string(),
                }
            }
            2 => {
                // a backslash sequence outside the five
                let c = match t.below(3) {
                    0 => *t.pick(&['a', 'b', 'f', 'v', '0', '1', 'x', 'u', 'e', '\'', '?', ' ', 'N', 'T', 'R', '/', '$', '%']),
                    1 => (b' ' + t.below(95) as u8) as char,
                    _ => gen::any_char(t, cx.d),
                };
                if ['n', 't', 'r', '"', '\\', '\n'].contains(&c) {
                    "\\a".into()
                } else {
                    format!("\\{c}")
                }
            }
            3 => t.pick(&["n", "t", "r", "a", " ", "0", "msgid", "#", "$1", "$0", "${1}"]).to_string(),
            _ => t.pick(&["\\\\n", "\\\\\\n", "\\\\\\\\", "\\\\\\\"", "\\n\\n", "\\r\\n", "n\\", "\\\\t"]).to_string(),
        }
    };
    if mono {
        let p = piece(t);
        let p = if p == "n\\" { "n".to_string() } else { p };
        for _ in 0..n {
            o += &p;
        }
        // what stands far behind a long run of one thing
        for _ in 0..t.below(3) {
            let p = piece(t);
            o += &p;
            if p == "n\\" {
                o += "q";
            }
        }
    } else {
        for _ in 0..n.min(60) {
            let p = piece(t);
            o += &p;
            // keep "n\" from eating the next piece's first char in an undecidable way
            if p == "n\\" {
                o += "q";
            }
        }
    }
    o
}

fn c02(t: &mut Tape, cx: &mut Cx) -> Res {
    struct F {
        tag: String,
        flag: &'static str,
        parts: Vec<String>,
    }
    let mut split = false;
    let mut field = |t: &mut Tape, cx: &Cx, flag: &'static str, tag: &str, nonempty: bool| -> (F, String) {
        let k = match t.weighted(&[300, 250, 50, 1]) {
            0 => 1,
            1 => t.range(2, 4),
            2 => t.range(5, 80),
            _ => gen::magic_len(t, cx.d).min(5000),
        };
        // now and then a string far longer than any line
        let huge = t.chance(1, 1500);
        let k = if huge { t.range(20, 60) } else { k };
        let fill = if huge { t.pick(&["x", "é", "日", "ab\\n"]).repeat(t.range(1000, 4000)) } else { String::new() };
        let mut parts: Vec<String> = (0..k)
            .map(|i| {
                if huge && i > 3 {
                    fill.clone()
                } else if k > 8 && i > 3 {
                    t.pick(&["x", "\\n", "\\\\", "\\\"", "", "é"]).to_string()
                } else {
                    raw(t, cx)
                }
            })
            .collect();
        split |= k > 1;
        let mut want: String = parts.iter().map(|p| refparse::unescape(p)).collect();
        if nonempty && want.is_empty() {
            parts.push("i".into());
            want.push('i');
        }
        (F { tag: tag.into(), flag, parts }, want)
    };
    let obsolete = t.chance(1, 4);
    let (p, q) = if obsolete { ("#~", "#~|") } else { ("", "#|") };
    let mut fs: Vec<F> = vec![];
    let mut e = Entry {
        comments: vec![],
        obsolete,
        prev_ctxt: None,
        prev_id: None,
        prev_plural: None,
        ctxt: None,
        id: String::new(),
        body: Body::Simple(String::new()),
    };
    let opt = |t: &mut Tape, n| t.chance(1, n);
    let add = |fs: &mut Vec<F>, x: (F, String)| {
        fs.push(x.0);
        x.1
    };
    if opt(t, 4) {
        e.prev_ctxt = Some(add(&mut fs, field(t, cx, q, "msgctxt", false)));
    }
    if opt(t, 4) {
        e.prev_id = Some(add(&mut fs, field(t, cx, q, "msgid", false)));
        if opt(t, 2) {
            e.prev_plural = Some(add(&mut fs, field(t, cx, q, "msgid_plural", false)));
        }
    }
    if opt(t, 3) {
        e.ctxt = Some(add(&mut fs, field(t, cx, p, "msgctxt", false)));
    }
    e.id = add(&mut fs, field(t, cx, p, "msgid", true));
    let spec = if t.chance(1, 3) { Some(gen::plural_spec(t, cx.d)) } else { None };
    if t.chance(1, 3) {
        let pl = add(&mut fs, field(t, cx, p, "msgid_plural", false));
        let n = spec.as_ref().map_or(2, |s| s.count()).min(12);
        let vs = (0..n).map(|i| add(&mut fs, field(t, cx, p, &format!("msgstr[{i}]"), false))).collect();
        e.body = Body::Plural(pl, vs);
    } else {
        e.body = Body::Simple(add(&mut fs, field(t, cx, p, "msgstr", false)));
    }
    let header = gen::side_header(t, cx.d, spec.as_ref());
    let l = Layout { split: 1, raw: false, ..Layout::draw(t) };
    let mut r = render::Render::new(l, t);
    if let Some(h) = &header {
        r.header(h);
        r.raw_line("");
    }
    for f in &fs {
        for (i, part) in f.parts.iter().enumerate() {
            let tag = if i == 0 { f.tag.as_str() } else { "" };
            let sp = if f.flag.is_empty() || r.l.level == 0 { " " } else { ["", " ", "\t"][r.t.below(3)] };
            let sp = if f.flag.is_empty() { "" } else { sp };
            let sp2 = if i == 0 { [" ", "", "  ", "\t"][if r.l.level == 0 { 0 } else { r.t.below(4) }] } else { "" };
            let line = format!("{}{sp}{tag}{sp2}\"{part}\"", f.flag);
            r.raw_line(&line);
        }
    }
    let (s, _) = r.finish();
    let back = fs.iter().any(|f| f.parts.iter().any(|p| p.contains('\\')));
    cx.class_if(back, "backslash");
    cx.class_if(split, "continuations");
    cx.class_if(obsolete, "obsolete");
    cx.class_if(s.len() > 2000, "long");
    cx.case(s.as_bytes(), back || split);
    let c = Catalogue { header, plural: spec, entries: vec![e], trailing: vec![] };
    observe::expect(&c, &read(&s)?)
}

fn c03(t: &mut Tape, cx: &mut Cx) -> Res {
    let c = gen::catalogue(t, cx.d, &gen::CFG);
    let (la, lb) = (Layout::draw(t), Layout::draw(t));
    let (a, _) = render::catalogue(&c, la, t);
    let (b, _) = render::catalogue(&c, lb, t);
    classify(&c, cx);
    cx.class_if(la.eol != lb.eol, "different-eol");
    cx.class_if(la.split != lb.split, "different-split");
    cx.class_if(la.final_eol != lb.final_eol, "different-final-eol");
    cx.case(format!("{a}\n===\n{b}").as_bytes(), a != b && !c.entries.is_empty());
    let (oa, ob) = (read(&a)?, read(&b)?);
    let pl = read(&render::plain(&c))?;
    for o in [&oa, &ob] {
        observe::diff("error", &pl.error.as_ref().map(|e| &e.display), &o.error.as_ref().map(|e| &e.display))?;
        observe::diff("header", &pl.header, &o.header)?;
        observe::diff_units(&pl.units, &o.units)?;
    }
    // and the layout reads as what it means
    observe::expect(&c, &oa)
}
