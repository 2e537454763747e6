//! Files in which one thing occurs more than 65536 times, or is megabytes long: fixed cases of
//! the properties they concern.

use super::*;
use crate::{render, tape::Tape as T};
use std::fmt::Write;

const MANY: usize = 66_100;

fn entry(id: String, body: Body) -> Entry {
    Entry { comments: vec![], obsolete: false, prev_ctxt: None, prev_id: None, prev_plural: None, ctxt: None, id, body }
}

fn note(kind: char, text: &str) -> CommentLine {
    if matches!(kind, ',' | ':') {
        CommentLine { kind, text: String::new(), tokens: vec![text.into()] }
    } else {
        CommentLine { kind, text: text.into(), tokens: vec![] }
    }
}

fn prop(key: &str, value: &str) -> HeaderLine {
    HeaderLine::Prop { pre: "".into(), key: key.into(), mid: "".into(), post: " ".into(), value: value.into(), trail: "".into() }
}

fn of(entries: Vec<Entry>) -> Catalogue {
    Catalogue { header: None, plural: None, entries, trailing: vec![] }
}

/// Entries of every kind in turn, all different.
pub fn entries(n: usize) -> Catalogue {
    of((0..n)
        .map(|i| {
            let mut e = entry(format!("id {i}"), Body::Simple(if i % 5 == 0 { String::new() } else { format!("text {i}") }));
            match i % 7 {
                1 => e.body = Body::Plural(format!("ids {i}"), vec![format!("one {i}"), String::new()]),
                2 => e.ctxt = Some(format!("ctx {i}")),
                3 => e.comments = vec![note(',', "fuzzy"), note(',', "c-format")],
                4 => e.obsolete = true,
                5 => e.comments = vec![note(' ', &format!("note {i}")), note(':', &format!("f:{i}")), note('$', "x")],
                6 => {
                    e.prev_ctxt = Some(format!("was {i}"));
                    e.prev_id = Some(format!("old {i}"));
                }
                _ => (),
            }
            e
        })
        .collect())
}

fn with_last(mut c: Catalogue) -> Catalogue {
    c.entries.push(entry("last".into(), Body::Simple("end".into())));
    c
}

fn comments(last_fuzzy: bool) -> Catalogue {
    let mut v = vec![];
    for (k, kind) in [' ', '.', ':', ',', '$'].into_iter().enumerate() {
        let mut e = entry(format!("e{k}"), Body::Simple("t".into()));
        e.comments = (0..MANY).map(|i| note(kind, &format!("c{i}"))).collect();
        if kind == ',' && last_fuzzy {
            e.comments.push(note(',', "fuzzy"));
        }
        v.push(e);
    }
    let mut e = entry("mixed".into(), Body::Simple(String::new()));
    e.comments = (0..MANY).map(|i| note([' ', ',', '.', ':', '='][i % 5], &format!("m{i}"))).collect();
    v.push(e);
    with_last(of(v))
}

fn wide() -> Catalogue {
    let toks: Vec<String> = (0..MANY).map(|i| format!("t{i}")).collect();
    let mut a = entry("flags".into(), Body::Simple("t".into()));
    let mut f = toks.clone();
    f.push("fuzzy".into());
    a.comments = vec![CommentLine { kind: ',', text: String::new(), tokens: f }];
    let mut b = entry("locations".into(), Body::Simple("t".into()));
    b.comments = vec![CommentLine { kind: ':', text: String::new(), tokens: toks }];
    let mut c = entry("notes".into(), Body::Simple("t".into()));
    let long: String = (0..150_000).map(|i| format!("word{i} ")).collect::<String>() + "é";
    c.comments = vec![note(' ', &long), note('.', &long), note('!', &long)];
    with_last(of(vec![a, b, c]))
}

fn header() -> Catalogue {
    let mut lines: Vec<HeaderLine> = (0..MANY).map(|i| prop(&format!("K{i}"), &format!("v{i}"))).collect();
    lines.extend((0..MANY).map(|i| if i % 3 == 0 { HeaderLine::Junk(format!("junk {i}")) } else { prop("Again", &format!("r{i}")) }));
    lines.push(prop("Long", &"long ".repeat(300_000).trim_end().to_string()));
    lines.push(prop("Language", "pt_BR"));
    let d = "nplurals=3; plural=n%3;";
    lines.push(prop("Plural-Forms", d));
    let f = crate::formula::parse("n%3").unwrap().ast;
    let h = Header { comments: (0..MANY).map(|i| note(if i % 2 == 0 { ' ' } else { '=' }, &format!("h{i}"))).collect(), ctxt: None, lines, final_nl: true };
    let e = entry("a".into(), Body::Plural("as".into(), vec!["x".into(), "y".into(), "z".into()]));
    with_last(Catalogue {
        header: Some(h),
        plural: Some(PluralSpec { nplurals: Some(3), formula: Some((f, "n%3".into())), definition: d.into() }),
        entries: vec![e],
        trailing: vec![],
    })
}

fn variants() -> Catalogue {
    let f = crate::formula::parse("n%70000").unwrap().ast;
    let d = "nplurals=70000; plural=n%70000;";
    let e = entry("a".into(), Body::Plural("as".into(), (0..MANY).map(|i| format!("v{i}")).collect()));
    with_last(Catalogue {
        header: Some(Header { comments: vec![], ctxt: None, lines: vec![prop("Plural-Forms", d)], final_nl: true }),
        plural: Some(PluralSpec { nplurals: Some(70_000), formula: Some((f, "n%70000".into())), definition: d.into() }),
        entries: vec![e],
        trailing: vec![],
    })
}

fn long_strings() -> Catalogue {
    let s = |c: &str| -> String { (0..220_000).map(|i| format!("{c}{i}\\\"\t ")).collect() };
    let mut a = entry(s("i"), Body::Simple(s("t")));
    a.ctxt = Some(s("c"));
    a.prev_ctxt = Some(s("x"));
    a.prev_id = Some(s("p"));
    let mut b = entry("b".into(), Body::Plural(s("q"), vec![s("0"), s("1")]));
    b.obsolete = true;
    b.prev_id = Some("b".into());
    b.prev_plural = Some(s("r"));
    with_last(of(vec![a, b]))
}

/// Every field in `MANY` pieces, each piece being its own number and an escape.
fn pieces() -> (String, Catalogue) {
    let piece = |f: &str, i: usize| format!("{f}{i}\n");
    let body = |f: &str| -> String { (0..MANY).map(|i| piece(f, i)).collect() };
    let put = |s: &mut String, mark: &str, tag: &str, f: &str| {
        let _ = writeln!(s, "{mark}{tag} \"\"");
        for i in 0..MANY {
            let _ = writeln!(s, "{mark}\"{f}{i}\\n\"");
        }
    };
    let mut s = String::new();
    put(&mut s, "#| ", "msgctxt", "a");
    put(&mut s, "#| ", "msgid", "b");
    put(&mut s, "", "msgctxt", "c");
    put(&mut s, "", "msgid", "d");
    put(&mut s, "", "msgstr", "e");
    s.push('\n');
    put(&mut s, "#~| ", "msgid", "f");
    put(&mut s, "#~| ", "msgid_plural", "g");
    put(&mut s, "#~ ", "msgid", "h");
    put(&mut s, "#~ ", "msgid_plural", "i");
    put(&mut s, "#~ ", "msgstr[0]", "j");
    put(&mut s, "#~ ", "msgstr[1]", "k");
    s += "\nmsgid \"last\"\nmsgstr \"end\"\n";
    let mut a = entry(body("d"), Body::Simple(body("e")));
    a.prev_ctxt = Some(body("a"));
    a.prev_id = Some(body("b"));
    a.ctxt = Some(body("c"));
    let mut b = entry(body("h"), Body::Plural(body("i"), vec![body("j"), body("k")]));
    b.prev_id = Some(body("f"));
    b.prev_plural = Some(body("g"));
    b.obsolete = true;
    (s, with_last(of(vec![a, b])))
}

/// Blank lines, of several kinds, wherever they may stand.
fn blanks() -> (String, Catalogue) {
    let gap = |k: usize| ["\n", "\r\n", " \t\n", "\u{a0}\n"][k].repeat(MANY);
    let mut s = gap(0);
    let c = of(vec![
        Entry { comments: vec![note('.', "n"), note(',', "fuzzy")], ctxt: Some("c".into()), ..entry("a".into(), Body::Simple("bc".into())) },
        entry("d".into(), Body::Plural("ds".into(), vec!["x".into(), "y".into()])),
    ]);
    s += &format!("#. n\n{}#, fuzzy\n{}msgctxt \"c\"\n{}msgid \"a\"\n{}msgstr \"b\"\n{}\"c\"\n{}", gap(1), gap(2), gap(3), gap(0), gap(1), gap(2));
    s += &format!("msgid \"d\"\n{}msgid_plural \"ds\"\n{}msgstr[0] \"x\"\n{}msgstr[1] \"y\"\n{}", gap(3), gap(0), gap(1), gap(2));
    s += "msgid \"last\"\nmsgstr \"end\"\n";
    (s, with_last(c))
}

/// Lengths around which buffers, narrow counters and shortcuts change their ways.
fn lengths() -> Vec<usize> {
    let mut v: Vec<usize> = (3..=17).flat_map(|k| [(1usize << k) - 2, (1 << k) - 1, 1 << k, (1 << k) + 1]).collect();
    v.extend([50, 80, 100, 500, 1000, 1500, 3000, 5000, 10_000, 20_000, 50_000, 100_000]);
    v
}

/// Long runs of one character, and then something else: an escape, a "fuzzy", a colon.
fn far_behind() -> Catalogue {
    const ESC: &[&str] = &["\n", "\t", "\"", "\\", "\r", "\\n", "\n\n", "\"\\"];
    let mut lines = vec![];
    let mut es = vec![];
    for (i, k) in lengths().into_iter().enumerate() {
        let run = |c: usize| ["x", "é", "日", "😀"][c % 4].repeat(k);
        let esc = |c: usize| ESC[c % ESC.len()];
        let mut e = entry(format!("{}{}{i}", run(i), esc(i)), Body::Simple(format!("{}{}", run(i + 1), esc(i + 1))));
        match i % 4 {
            0 => e.ctxt = Some(format!("{}{}c", run(0), esc(i + 3))),
            1 => e.prev_id = Some(format!("{}{}p", run(i + 2), esc(i + 4))),
            2 => e.body = Body::Plural(format!("{}{}q", run(i + 2), esc(i + 5)), vec![format!("{}{}", run(i), esc(i + 6)), String::new()]),
            _ => e.obsolete = true,
        }
        e.comments = vec![
            CommentLine { kind: ',', text: String::new(), tokens: vec![run(i), ["fuzzy", "Fuzzy"][(i / 2) % 2].into()] },
            CommentLine { kind: ':', text: String::new(), tokens: vec![run(i + 1), format!("f:{i}")] },
            note([' ', '.', '!'][i % 3], &format!("{} \" msgid \\n #~ e", run(i))),
        ];
        es.push(e);
        lines.push(match i % 3 {
            0 => prop(&format!("{}{i}", run(0)), "value"),
            1 => prop(&format!("K{i}"), &format!("{}:{} \\ \" \t.", run(i), run(i))),
            _ => prop("Again", &run(i)),
        });
    }
    let h = Header { comments: vec![], ctxt: None, lines, final_nl: true };
    with_last(Catalogue { header: Some(h), plural: None, entries: es, trailing: vec![] })
}

fn check(name: &str, text: &str, c: &Catalogue, cx: &mut Cx) -> Res {
    cx.case(format!("{name}: {}", text.chars().take(300).collect::<String>()).as_bytes(), true);
    cx.class("giant");
    observe::expect(c, &read(text)?).map_err(|e| format!("{name}: {e}"))
}

type Giant = (&'static str, fn() -> (String, Catalogue));
fn plain(c: Catalogue) -> (String, Catalogue) {
    (render::plain(&c), c)
}
fn crlf(c: Catalogue) -> (String, Catalogue) {
    (render::plain(&c).replace('\n', "\r\n"), c)
}

const ENTRIES: Giant = ("many entries", || plain(entries(MANY)));
const ENTRIES_CRLF: Giant = ("many entries, CRLF", || crlf(entries(MANY)));
const COMMENTS: Giant = ("many comment lines", || plain(comments(true)));
const FLAGS: Giant = ("many flag lines, none fuzzy", || plain(comments(false)));
const WIDE: Giant = ("wide comment lines", || plain(wide()));
const HEADER: Giant = ("many header lines", || plain(header()));
const VARIANTS: Giant = ("many variants", || plain(variants()));
const STRINGS: Giant = ("long strings", || plain(long_strings()));
const PIECES: Giant = ("many pieces", pieces);
const BLANKS: Giant = ("many blank lines", blanks);

const FAR: Giant = ("far behind a long run", || plain(far_behind()));

pub fn fixed(gs: &[Giant], i: usize, cx: &mut Cx) -> Option<Res> {
    let (name, make) = gs.get(i)?;
    let (text, c) = make();
    Some(check(name, &text, &c, cx))
}

pub fn c01(i: usize, cx: &mut Cx) -> Option<Res> {
    fixed(&[ENTRIES, COMMENTS, PIECES, VARIANTS, HEADER, STRINGS, WIDE, BLANKS, FAR], i, cx)
}
pub fn c02(i: usize, cx: &mut Cx) -> Option<Res> {
    fixed(&[PIECES, STRINGS, FAR], i, cx)
}
pub fn c03(i: usize, cx: &mut Cx) -> Option<Res> {
    fixed(&[BLANKS, ENTRIES_CRLF, PIECES], i, cx)
}
pub fn c04(i: usize, cx: &mut Cx) -> Option<Res> {
    fixed(&[COMMENTS, FLAGS, WIDE, FAR], i, cx)
}
pub fn c05(i: usize, cx: &mut Cx) -> Option<Res> {
    fixed(&[COMMENTS, FLAGS, WIDE, ENTRIES, VARIANTS, FAR], i, cx)
}
pub fn c06(i: usize, cx: &mut Cx) -> Option<Res> {
    fixed(&[HEADER, FAR], i, cx)
}
pub fn c19(i: usize, cx: &mut Cx) -> Option<Res> {
    fixed(&[ENTRIES, PIECES], i, cx)
}
pub fn c20(i: usize, cx: &mut Cx) -> Option<Res> {
    fixed(&[ENTRIES, PIECES, STRINGS, FAR], i, cx)
}
pub fn c18(i: usize, cx: &mut Cx) -> Option<Res> {
    fixed(&[ENTRIES], i, cx)
}

/// Every variant at every count, and a list that breaks far down.
pub fn c10(i: usize, cx: &mut Cx) -> Option<Res> {
    if i > 0 {
        return None;
    }
    let (text, c) = VARIANTS.1();
    Some(check("many variants", &text, &c, cx).and_then(|_| {
        let p = observe::parser();
        let u = p.parse(text.as_bytes()).map_err(|e| e.to_string())?.next().ok_or("no unit")?.map_err(|e| e.to_string())?;
        let want = match &c.entries[0].body {
            Body::Plural(_, v) => v,
            _ => unreachable!(),
        };
        for n in (0..70_000usize).chain([70_000, 135_537, 1 << 32]) {
            let w = want.get(n % 70_000).map(String::as_str);
            ensure(u.message().get_plural_text(n) == w, || format!("for {n}: {:?}, expected {w:?}", u.message().get_plural_text(n)))?;
        }
        Ok(())
    }))
}

pub fn c11(i: usize, cx: &mut Cx) -> Option<Res> {
    if i == 0 {
        return fixed(&[VARIANTS], 0, cx);
    }
    const AT: &[usize] = &[256, 1000, 65_535, 65_536, 66_000];
    let k = *AT.get((i - 1) / 4)?;
    let kind = (i - 1) % 4;
    let mut s = String::from("msgid \"\"\nmsgstr \"Plural-Forms: nplurals=66050; plural=n;\\n\"\n\nmsgid \"a\"\nmsgid_plural \"as\"\n");
    for j in 0..66_050 {
        let _ = match kind {
            // left out, twice, renumbered, swapped
            0 if j == k => Ok(()),
            1 if j == k => writeln!(s, "msgstr[{j}] \"v{j}\"\nmsgstr[{j}] \"w{j}\""),
            2 if j == k => writeln!(s, "msgstr[{}] \"v{j}\"", j - 256 * (k / 256)),
            3 if j == k => writeln!(s, "msgstr[{}] \"v{}\"\nmsgstr[{j}] \"v{j}\"", j + 1, j + 1),
            3 if j == k + 1 => Ok(()),
            _ => writeln!(s, "msgstr[{j}] \"v{j}\""),
        };
    }
    cx.class("giant");
    cx.case(format!("list of 66050 variants irregular ({kind}) at {k}").as_bytes(), true);
    Some((|| {
        let o = read(&s)?;
        for u in &o.units {
            let v = u.msg.values.clone().unwrap_or_default();
            for (j, x) in v.iter().enumerate() {
                ensure(*x == format!("v{j}"), || format!("position {j} holds {x:?}"))?;
            }
        }
        ensure(o.error.is_some(), || "an irregular list without error".into())
    })())
}

/// Faults of the source, of the text, and a cut, after many entries.
pub fn far(i: usize, cx: &mut Cx, what: &[usize]) -> Option<Res> {
    let what = *what.get(i)?;
    let c = entries(MANY);
    let want = c.expect_units();
    let text = render::plain(&c);
    cx.class("giant");
    cx.case(format!("fault {what} after {MANY} entries").as_bytes(), true);
    let prefix = |o: &observe::Outcome, least: usize| -> Res {
        ensure(o.units.len() >= least && o.units.len() <= want.len(), || format!("{} units of {}", o.units.len(), want.len()))?;
        observe::diff_units(&want[..o.units.len()], &o.units)
    };
    let kind = |o: &observe::Outcome, k: &[ErrKind]| -> Res {
        let e = o.error.as_ref().ok_or("no error")?;
        ensure(k.contains(&e.kind), || format!("error {}", e.display))
    };
    let p = observe::parser();
    let n = text.len();
    Some((|| match what {
        0 => {
            let f = super::faults::Failing { data: text.as_bytes(), pos: 0, kind: std::io::ErrorKind::TimedOut, code: None, after: 2 };
            let o = observe::read(&p, f, n)?;
            prefix(&o, MANY - 1)?;
            kind(&o, &[ErrKind::Io])
        }
        1 => {
            let o = observe::read(&p, &[text.as_bytes(), b"\n# \xff\n\nmsgid \"ghost\"\nmsgstr \"ghost\"\n"].concat()[..], n)?;
            prefix(&o, MANY - 1)?;
            kind(&o, &[ErrKind::Io])
        }
        2 => {
            for (tail, least) in [("\nmsgid \"x\"\nmsgctxt \"y\"\n", MANY), ("\n# c\nmsgstr \"x\"\n", MANY), ("\nmsgid \"\"\nmsgstr \"x\"\n", MANY), ("\nmsgidx \"x\"\n", MANY - 1), ("\nmsgid \"x\"\n#~ msgstr \"y\"\n", MANY)] {
                let o = read(&format!("{text}{tail}\nmsgid \"ghost\"\nmsgstr \"ghost\"\n"))?;
                prefix(&o, least)?;
                kind(&o, &[ErrKind::Parse, ErrKind::Unexpected])?;
            }
            Ok(())
        }
        3 => {
            for cut in [1, 2, 3, 8, 20, 40, 60] {
                let o = read(&text[..n - cut])?;
                ensure(o.units.len() + 3 >= MANY, || format!("{} units of a file cut {cut} bytes before its end", o.units.len()))?;
                let k = o.units.len().min(MANY - 1);
                observe::diff_units(&want[..k], &o.units[..k])?;
            }
            Ok(())
        }
        _ => {
            let rd = || p.parse(text.as_bytes()).map_err(|e| e.to_string());
            observe::diff("count()", &MANY, &rd()?.count())?;
            let id = |u: Option<Result<poreader::unit::Unit, poreader::error::Error>>| u.and_then(|u| u.ok()).map(|u| observe::unit(&u));
            for k in [255, 256, 65_535, 65_536, MANY - 1] {
                observe::diff(&format!("nth({k})"), &want.get(k).cloned(), &id(rd()?.nth(k)))?;
                observe::diff(&format!("skip({k})"), &want.get(k).cloned(), &id(rd()?.skip(k).next()))?;
                observe::diff(&format!("take({k})"), &k, &rd()?.take(k).count())?;
            }
            observe::diff("nth(number of units)", &None, &id(rd()?.nth(MANY)))?;
            observe::diff("last()", &want.last().cloned(), &id(rd()?.last()))?;
            observe::diff("step_by(65536)", &vec![want.first().cloned(), want.get(65_536).cloned()], &rd()?.step_by(65_536).map(|u| id(Some(u))).collect::<Vec<_>>())?;
            let mut s = T::new(&[3, 1, 2]);
            let sz = super::relations::sizes(&mut s);
            let o = observe::read(&p, super::relations::Chunky { data: text.as_bytes(), pos: 0, sizes: sz, k: 0, reads: 0 }, n)?;
            prefix(&o, MANY)
        }
    })())
}
pub fn c14(i: usize, cx: &mut Cx) -> Option<Res> {
    far(i, cx, &[0, 1])
}
pub fn c15(i: usize, cx: &mut Cx) -> Option<Res> {
    far(i, cx, &[2])
}
pub fn c24(i: usize, cx: &mut Cx) -> Option<Res> {
    far(i, cx, &[3])
}
pub fn c17(i: usize, cx: &mut Cx) -> Option<Res> {
    far(i, cx, &[4])
}
