//! C15: malformed entries are rejected.  C16: error positions.

use super::*;
use crate::{
    engine::Probe,
    gen,
    refparse::{self, End},
    render::{self, Layout},
};

pub static PROPS: &[Prop] = &[
    Prop {
        id: "C15",
        title: "Malformed input is rejected, never reinterpreted",
        rule: "well-formed files with 1..3 structural or lexical mutations (lines dropped, doubled, swapped, moved, re-tagged, re-flagged, emptied msgid, misspelt keywords, broken quotes, foreign lines, comments inside entries), against an independent line lexer and entry grammar: same units, then an error of the right kind or a clean end; where the format is open nothing is asserted; non-trivial: the reference does not end cleanly",
        run: c15,
        quick: 36600,
        thorough: 1464000,
        fixed: Some(super::giants::c15),
        probes: &[],
    },
    Prop {
        id: "C16",
        title: "Error positions",
        rule: "files with one fault (misplaced line, non-PO line, empty msgid, invalid UTF-8, read failure) at a random place of a random layout with blank lines, continuations and mixed line ends, up to thousands of lines: line number, offending token and expected keyword of the error; non-trivial: the fault is after line 3",
        run: c16,
        quick: 21400,
        thorough: 856000,
        fixed: Some(c16_fixed),
        probes: &[Probe { key: "lexical-line-plus-one", shows: kf_line }],
    },
];

fn kf_line() -> bool {
    matches!(read("msgid \"a\"\nmsgstr \"b\"\n\n???\n"), Ok(o) if o.error.as_ref().map(|e| e.line) == Some(5))
}

const FOREIGN: &[&str] = &[
    "???", "msgid", "msgid x", "msgid \"x", "msgid x\"", "msgstr", "msgst \"x\"", "msgids \"x\"", "MSGID \"x\"", "msgstr[] \"x\"",
    "msgstr[01] \"x\"", "msgstr[-1] \"x\"", "msgstr[a] \"x\"", "msgstr[1 \"x\"", "msgstr[ 1 ] \"x\"", "msgstr [1] \"x\"", "msgid[0] \"x\"",
    "msgctxt[0] \"x\"", "msgid_plural[0] \"x\"", "\"x", "x\"", "'x'", "msgid 'x'", "msgid \"x\" y", "x \"y\"", "- \"x\"", "domain \"x\"",
    "msgid_plura \"x\"", "msg \"x\"", "<<<<<<< HEAD", "=======", ">>>>>>> b", "{", "msgid:\"x\"", "msgid=\"x\"", "//", "; x", "\u{feff}msgid \"x\"",
    "msgidmsgid \"x\"", "msgctxtmsgid \"x\"", "msgidmsgid_plural \"x\"", "msgstrmsgstr[0] \"x\"", "msgid \"x\\\"", "\"x\\\"", "\"\\\"", "msgstr \"\\\\\\\"",
    "msgid msgid \"x\"", "msgctxt msgid \"x\"", "\"", "\\", "m", "~ msgid \"x\"", "| msgid \"x\"", "msgid \"x\" # comment", "msgid \"x\";",
    "msgstr[99999999999999999999999] x", "“x”", "msgid “x”", "_(\"x\")", "\0", "\u{1}", "\u{1a}", "\u{7f}", "\u{ad}", "\u{200b}", "\u{feff}", "\0\0\0", " \u{2060} ", "\u{feff}\"x\"",
];

/// A line that is no line of a PO file, or nearly none.
fn foreign(t: &mut Tape, cx: &Cx) -> String {
    if t.chance(2, 3) {
        return t.pick(FOREIGN).to_string();
    }
    let k = *t.pick(&["msgctxt", "msgid", "msgid_plural", "msgstr", "msgstr[0]", "msgstr[1]", "#~ msgid", "#| msgid", "#~| msgctxt", "#~", "#|"]);
    let k = match t.below(8) {
        // two keywords at once
        0 => format!("{k}{}", t.pick(&["msgctxt", "msgid", "_plural", "msgid_plural", "msgstr", "msgstr[0]", "[0]", "[1]"])),
        _ => gen::near(t, cx.d, k),
    };
    format!("{k}{}{}", t.pick(&[" ", " ", "", "\t"]), t.pick(&["\"x\"", "\"\"", "\"x", "x\"", "'x'", "\"x\\\""]))
}

/// A syntactically correct line of any kind.
fn any_line(t: &mut Tape, cx: &Cx) -> String {
    let pre = *t.pick(&["", "", "", "#~ ", "#| ", "#~| "]);
    let tag = match t.below(9) {
        0 => "".to_string(),
        1 => "msgctxt".into(),
        2 => "msgid".into(),
        3 => "msgid_plural".into(),
        4 => "msgstr".into(),
        5 => "msgstr[0]".into(),
        6 => "msgstr[1]".into(),
        7 => format!("msgstr[{}]", t.below(30)),
        _ => {
            return render::plain(&Catalogue { trailing: vec![gen::comment(t, cx.d)], ..Catalogue::default() }).trim_end().to_string();
        }
    };
    let s = match t.below(3) {
        0 => String::new(),
        1 => "x".into(),
        _ => render::escape(&gen::text(t, cx.d).chars().take(40).collect::<String>(), false, &mut Tape::new(&[])),
    };
    format!("{pre}{tag}{}\"{s}\"", if tag.is_empty() { "" } else { " " })
}

pub fn mutate_lines(text: &str, t: &mut Tape, cx: &mut Cx) -> String {
    let crlf = text.contains("\r\n");
    let mut ls: Vec<String> = text.split('\n').map(|s| s.to_string()).collect();
    let eol = if crlf { "\r" } else { "" };
    if ls.len() > 1 && ls.last().map_or(false, |l| l.is_empty()) {
        ls.pop();
    }
    let n = ls.len();
    // mostly hit lines that matter
    let pick = |t: &mut Tape, ls: &Vec<String>| -> usize {
        for _ in 0..4 {
            let k = t.below(ls.len());
            if !ls[k].trim().is_empty() {
                return k;
            }
        }
        t.below(ls.len())
    };
    let k = pick(t, &ls);
    match t.weighted(&[4, 3, 3, 3, 5, 3, 3, 4, 3, 2]) {
        0 => {
            cx.class("mut:drop-line");
            ls.remove(k);
        }
        1 => {
            cx.class("mut:double-line");
            let l = ls[k].clone();
            ls.insert(k, l);
        }
        2 => {
            cx.class("mut:swap-lines");
            let j = if t.chance(2, 3) { (k + 1).min(n - 1) } else { t.below(n) };
            ls.swap(k, j);
        }
        3 => {
            cx.class("mut:insert-good-line");
            let l = any_line(t, cx);
            ls.insert(k, l + eol);
        }
        4 => {
            cx.class("mut:foreign-line");
            let l = foreign(t, cx);
            if t.chance(1, 2) {
                ls.insert(k, l + eol);
            } else {
                ls[k] = l + eol;
            }
        }
        5 => {
            cx.class("mut:retag");
            const TAGS: &[&str] = &["msgctxt", "msgid_plural", "msgid", "msgstr[0]", "msgstr[1]", "msgstr"];
            for a in TAGS {
                if ls[k].contains(a) {
                    let b = *t.pick(TAGS);
                    ls[k] = ls[k].replacen(a, b, 1);
                    break;
                }
            }
        }
        6 => {
            cx.class("mut:reflag");
            // rather among the marked lines
            let marked: Vec<usize> = (0..n).filter(|i| ls[*i].trim_start().starts_with("#|") || ls[*i].trim_start().starts_with("#~")).collect();
            let k = if !marked.is_empty() && t.chance(1, 2) { *t.pick(&marked) } else { k };
            let l = ls[k].trim_start();
            let bare = l.strip_prefix("#~|").or_else(|| l.strip_prefix("#~")).or_else(|| l.strip_prefix("#|")).unwrap_or(l);
            ls[k] = format!("{}{}", t.pick(&["", "#~ ", "#| ", "#~| ", "# ", "#"]), bare.trim_start());
        }
        7 => {
            cx.class("mut:break-line");
            let mut cs: Vec<char> = ls[k].chars().collect();
            if !cs.is_empty() {
                let i = t.below(cs.len());
                match t.below(4) {
                    0 => {
                        cs.remove(i);
                    }
                    1 => cs.insert(i, *t.pick(&['"', '\\', '#', '~', '|', ' ', '[', ']', '0', 'x', '_'])),
                    2 => cs.truncate(i),
                    _ => cs[i] = *t.pick(&['"', '\\', '#', '~', '|', ' ', '[', ']', '0', 'x', '_', 'm']),
                }
            }
            ls[k] = cs.into_iter().collect();
        }
        8 => {
            cx.class("mut:empty-id");
            let ids: Vec<usize> = (0..n).filter(|i| ls[*i].trim_start().starts_with("msgid ") || ls[*i].trim_start().starts_with("#~ msgid ")).collect();
            if !ids.is_empty() {
                let i = *t.pick(&ids);
                let pre = if ls[i].trim_start().starts_with('#') { "#~ " } else { "" };
                ls[i] = format!("{pre}msgid \"\"{eol}");
            }
        }
        _ => {
            cx.class("mut:comment-inside");
            let l = *t.pick(&["# note", "#. x", "#: a:1", "#, fuzzy", "#", "#$ z", "# msgid \"x\"", "# \"x\""]);
            ls.insert(k, format!("{l}{eol}"));
        }
    }
    let mut s = ls.join("\n");
    if text.ends_with('\n') {
        s.push('\n');
    }
    s
}

/// Bytes near a PO file, possibly not UTF-8.
pub fn mutate(b: Vec<u8>, t: &mut Tape, cx: &mut Cx) -> Vec<u8> {
    let mut b = b;
    for _ in 0..t.range(1, 3) {
        match t.weighted(&[5, 2, 2, 1, 1]) {
            0 => {
                if let Ok(s) = std::str::from_utf8(&b) {
                    if !s.is_empty() {
                        b = mutate_lines(&s.to_string(), t, cx).into_bytes();
                    }
                }
            }
            1 => {
                if !b.is_empty() {
                    let i = t.below(b.len());
                    b[i] = match t.below(3) {
                        0 => t.below(256) as u8,
                        1 => *t.pick(b"\"\\#~|\n\r \t[]0msgidctxtr,:.;=?()\x00\xff\x80\xc3"),
                        _ => b[i] ^ (1 << t.below(8)),
                    };
                }
            }
            2 => {
                let i = t.below(b.len() + 1);
                let ins: Vec<u8> = (0..t.range(1, 4)).map(|_| *t.pick(b"\"\\#~|\n\r \t[]0msgid\x00\xff\x80\xc3\xe2\xf0")).collect();
                b.splice(i..i, ins);
            }
            3 => {
                let i = t.below(b.len() + 1);
                let n = t.below(b.len() - i + 1).min(200);
                b.drain(i..i + n);
            }
            _ => {
                let i = t.below(b.len() + 1);
                b.truncate(i);
            }
        }
    }
    b
}

fn c15(t: &mut Tape, cx: &mut Cx) -> Res {
    let mut m = t.tail(40);
    let spikes = t_spike(t);
    let (c, mut s, _) = some_text(t, cx, &gen::Cfg { max_entries: 5, spikes });
    if s.is_empty() {
        s = "msgid \"a\"\nmsgstr \"b\"\n".into();
    }
    let _ = c;
    for _ in 0..m.weighted(&[0, 6, 2, 1]) {
        s = mutate_lines(&s, &mut m, cx);
    }
    let r = refparse::parse(&s);
    cx.class(match &r.end {
        End::Clean => "ref:clean",
        End::Incomplete => "ref:incomplete",
        End::Syntax { .. } => "ref:misplaced-line",
        End::Lexical { .. } => "ref:not-po",
        End::EmptyId { .. } => "ref:empty-msgid",
        End::Plural => "ref:plural-forms",
        End::Vague => "ref:open",
    });
    cx.class_if(!r.units.is_empty(), "units-before");
    cx.case(s.as_bytes(), !matches!(r.end, End::Clean | End::Vague));
    let o = read(&s)?;
    refparse::agree(&r, &o)
}

fn t_spike(t: &mut Tape) -> bool {
    t.chance(1, 4)
}

/// Every kind of fault behind a great many lines of any kind.
fn c16_fixed(i: usize, cx: &mut Cx) -> Option<Res> {
    const LINES: &[usize] = &[255, 256, 257, 999, 1000, 1001, 4095, 4096, 9999, 10_000, 32_767, 32_768, 65_535, 65_536, 65_537, 70_000, 99_999, 100_000, 131_073, 1_048_577];
    let line = *LINES.get(i / 4)?;
    let fill = i % 4;
    if fill > 0 && ![256, 4096, 65_536, 70_000].contains(&line) {
        return Some(Ok(()));
    }
    // `line - 1` lines, the last one blank
    let head = match fill {
        0 => "\n".repeat(line - 1),
        1 => format!("msgid \"a\"\nmsgstr \"\"\n{}\n", "\"x\"\r\n".repeat(line - 4)),
        2 => format!("{}msgid \"a\"\nmsgstr \"b\"\n\n", "# c\n".repeat(line - 4)),
        _ => {
            let n = (line - 1) / 3;
            format!("{}{}", "msgid \"a\"\nmsgstr \"b\"\n\n".repeat(n), "\n".repeat(line - 1 - 3 * n))
        }
    };
    cx.class("fault-far-down");
    cx.case(format!("fault at line {line}, after lines of kind {fill}").as_bytes(), true);
    let go = || -> Res {
        let of = |tail: &[u8]| -> Result<ObsErr, String> {
            let b = [head.as_bytes(), tail].concat();
            observe::read(&observe::parser(), &b[..], line + 8)?.error.ok_or_else(|| format!("no error at line {line}"))
        };
        let e = of(b"msgstr \"x\"\n")?;
        // without entry before, the file has no header and `msgstr` cannot start one
        observe::diff("misplaced line", &(ErrKind::Parse, line, "msgid"), &(e.kind, e.line, e.expected.as_str()))?;
        let e = of(b"???\nmsgid \"a\"\nmsgstr \"b\"\n")?;
        // known finding lexical-line-plus-one
        ensure(e.kind == ErrKind::Parse && (e.line == line || e.line == line + 1), || format!("{} for line {line}", e.display))?;
        let e = of(b"msgid \"b\"\nmsgid \"c\"\n")?;
        observe::diff("missing msgstr", &(ErrKind::Parse, line + 1, "msgstr"), &(e.kind, e.line, e.expected.as_str()))?;
        let e = of(b"# \xff\n")?;
        observe::diff("invalid UTF-8", &(ErrKind::Io, line), &(e.kind, e.line))?;
        if fill > 0 {
            let e = of(b"msgid \"\"\nmsgstr \"x\"\n")?;
            ensure(e.display.contains(&format!("line {line}")) && e.line == line, || format!("{} for the empty msgid at {line}", e.display))?;
        }
        let f = super::faults::Failing { data: head.as_bytes(), pos: 0, kind: std::io::ErrorKind::Other, code: None, after: 0 };
        let e = observe::read(&observe::parser(), f, line + 8)?.error.ok_or("no error")?;
        observe::diff("failed read", &(ErrKind::Io, line), &(e.kind, e.line))
    };
    Some(go())
}

fn c16(t: &mut Tape, cx: &mut Cx) -> Res {
    let mut m = t.tail(40);
    let mut c = gen::catalogue(t, cx.d, &gen::Cfg { max_entries: 6, spikes: true });
    if c.entries.is_empty() {
        let e = gen::entry(t, cx.d, 0);
        c.entries.push(e);
    }
    let mut l = Layout::draw(t);
    if t.chance(1, 2) {
        l.level = 1 + t.below(2);
    }
    let (s, spans) = render::catalogue(&c, l, t);
    let ls: Vec<&str> = s.split_inclusive('\n').collect();
    // one fault
    let t = &mut m;
    let k = t.below(c.entries.len());
    let sp = spans[k];
    let at = t.range(sp.first, sp.last + 1).min(ls.len() + 1); // a line is inserted before line `at`
    let (before, after) = (ls[..at - 1].concat(), ls[at - 1..].concat());
    let nl = |s: &str| if s.is_empty() || s.ends_with('\n') { String::new() } else { "\n".to_string() };
    let before = format!("{before}{}", nl(&before));
    let fault = t.weighted(&[4, 4, 2, 2, 2]);
    let (text, io): (Vec<u8>, Option<usize>) = match fault {
        0 => {
            cx.class("fault:misplaced");
            let x = any_line(t, cx);
            (format!("{before}{x}\n{after}").into_bytes(), None)
        }
        1 => {
            cx.class("fault:not-po");
            let x = foreign(t, cx);
            let pad = *t.pick(&["", "", "  ", "\t"]);
            (format!("{before}{pad}{x}\n{after}").into_bytes(), None)
        }
        2 => {
            cx.class("fault:empty-msgid");
            let mut d = c.clone();
            d.entries[k].id.clear();
            d.entries[k].comments.truncate(3);
            (render::catalogue(&d, l, t).0.into_bytes(), None)
        }
        3 => {
            cx.class("fault:utf8");
            let mut b = before.clone().into_bytes();
            b.extend(t.pick(&[&b"# \xff\n"[..], b"\xc3\n", b"msgid \"\xe2\x82\"\n", b"\x80", b"# \xf8\x88\x80\x80\x80\n", b"# \xed\xa0\x80\n", b"# \xc0\x80\n"]).iter());
            b.extend(after.bytes());
            (b, Some(at))
        }
        _ => {
            cx.class("fault:io");
            (before.clone().into_bytes(), Some(at))
        }
    };
    cx.class_if(at > 100, "line>100");
    cx.class_if(at > 1000, "line>1000");
    cx.case(&text, at > 3);
    let p = observe::parser();
    if let Some(line) = io {
        let o = if fault == 3 {
            observe::read_bytes(&text)?
        } else {
            let r = super::faults::Failing { data: &text, pos: 0, kind: std::io::ErrorKind::Other, code: None, after: 0 };
            observe::read(&p, r, text.len() + 4)?
        };
        return match &o.error {
            Some(e) if e.kind == ErrKind::Io => {
                observe::diff("line of the I/O error", &line, &e.line)?;
                ensure(e.display.ends_with(&format!(" at line {line}")), || format!("message `{}`", e.display))
            }
            x => Err(format!("no I/O error at line {line}: {x:?}")),
        };
    }
    let text = String::from_utf8(text).unwrap();
    let r = refparse::parse(&text);
    let o = read(&text)?;
    refparse::agree(&r, &o)?;
    let Some(e) = &o.error else { return Ok(()) };
    match &r.end {
        End::Syntax { line, got, exp } => {
            cx.class("at:misplaced");
            observe::diff("line of the misplaced line", line, &e.line)?;
            observe::diff("expected keyword", exp, &e.expected)?;
            observe::diff("offending token", got, &e.token)?;
            let mut m = format!("Parse error at line {line} expected ‘{exp}’");
            if !got.is_empty() {
                m += &format!(", got ‘{got}’");
            }
            observe::diff("message", &m, &e.display)
        }
        End::Lexical { line, text } => {
            cx.class("at:not-po");
            // known finding lexical-line-plus-one: the next line number is given
            ensure(e.line == *line || e.line == *line + 1, || format!("line {} for the bad line {line}", e.line))?;
            observe::diff("offending line", text, &e.token)?;
            observe::diff("message", &format!("Parse error at line {}, got ‘{text}’", e.line), &e.display)
        }
        End::EmptyId { line } => {
            cx.class("at:empty-msgid");
            observe::diff("line of the entry", line, &e.line)?;
            ensure(e.display.contains(&format!("line {line}")), || format!("message `{}`", e.display))
        }
        _ => Ok(()),
    }
}
