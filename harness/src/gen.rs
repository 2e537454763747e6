//! Generators of abstract catalogues from a choice tape.

use crate::{
    dict::Dict,
    formula::{self, Ast, Style},
    model::*,
    tape::Tape,
};

const WORDS: &[&str] = &[
    "a", "Hello", "file", "world", "%d", "%s", "Save as…", "n", "fuzzy", "été", "日本語", "Ünï", "x=1;", "1", "0", "-",
    "key: value", "%(name)s", "<b>", "&amp;", "{0}", "long sentence with several words", ".", "?", "Language", "😀",
];

/// Text that looks like PO syntax: it must stay text.
const SYNTAX: &[&str] = &[
    "msgid \"x\"", "msgstr \"\"", "msgstr[0] \"y\"", "msgctxt \"c\"", "msgid_plural \"z\"", "#~ msgid \"o\"",
    "#| msgid \"p\"", "#, fuzzy", "# note", "#: a:1", "#. dev", "#", "#~", "|", "~", "~|", "\"", "\"\"", "\" \"", "\\", "\\\\",
    "\\n", "\\\"", "\\t", "\\\\n", "\\a", "\\x41", "\\101", "\\0", "msgid", "msgstr", "msgstr[1]", "[0]", "nplurals=2; plural=n;",
    "Plural-Forms: nplurals=1; plural=0;", "Language: de", ":", ";", ",", "$1", "${1}", "$0", "\\u0041", "%",
];

const CHARS: &[char] = &[
    'a', 'Z', '0', ' ', '"', '\\', '\n', '\t', '\r', '#', '|', '~', ',', ':', '.', '%', '=', ';', '[', ']', '\'', '`', '$',
    '\u{0}', '\u{1}', '\u{b}', '\u{c}', '\u{1b}', '\u{7f}', '\u{85}', '\u{a0}', '\u{ad}', '\u{2028}', '\u{2029}', '\u{200b}',
    '\u{feff}', '\u{3000}', '\u{301}', 'é', 'ß', 'İ', 'ﬁ', '日', '\u{10ffff}', '😀', '\u{fffd}', '\u{212a}', 'n', 't', 'r',
];

const MAGIC: &[usize] = &[
    16, 20, 32, 40, 64, 72, 76, 77, 78, 79, 80, 81, 100, 120, 127, 128, 129, 132, 200, 255, 256, 257, 500, 511, 512, 1000, 1023,
    1024, 1025, 2047, 2048, 4095, 4096, 4097, 8190, 8191, 8192, 8193, 10000, 16384, 32767, 32768, 65535, 65536, 65537,
];

pub fn magic_len(t: &mut Tape, d: &Dict) -> usize {
    let fresh: Vec<usize> = d.fresh_ints.iter().filter(|v| **v > 1 && **v <= 200_000).map(|v| *v as usize).collect();
    match t.weighted(&[2, 6, if fresh.is_empty() { 0 } else { 6 }]) {
        0 => t.range(10, 300),
        1 => {
            // long ones are dear: mostly below 5000
            let k = if t.chance(1, 4) { MAGIC.len() } else { 32 };
            MAGIC[t.below(k)]
        }
        _ => (*t.pick(&fresh) + t.below(3)).saturating_sub(1),
    }
}

pub fn any_char(t: &mut Tape, d: &Dict) -> char {
    match t.weighted(&[6, 10, 2, 2, if d.fresh_chars.is_empty() { 0 } else { 6 }]) {
        0 => (b'a' + t.below(26) as u8) as char,
        1 => *t.pick(CHARS),
        2 => char::from_u32(t.below(0x180) as u32).unwrap_or('a'),
        3 => char::from_u32(t.below(0x110000) as u32).unwrap_or('\u{fffd}'),
        _ => *t.pick(&d.fresh_chars),
    }
}

/// Any text, possibly empty, with any character.
pub fn text(t: &mut Tape, d: &Dict) -> String {
    let fs = if d.fresh_strings.is_empty() { 0 } else { 5 };
    match t.weighted(&[8, 6, 5, 6, 2, 1, 1, fs]) {
        0 => t.pick(WORDS).to_string(),
        1 => {
            let n = t.range(1, 6);
            (0..n).map(|_| *t.pick(WORDS)).collect::<Vec<_>>().join(" ")
        }
        2 => {
            let n = t.range(1, 4);
            (0..n).map(|_| *t.pick(SYNTAX)).collect::<Vec<_>>().join(if t.chance(1, 2) { " " } else { "" })
        }
        3 => {
            let n = t.range(0, 14);
            (0..n).map(|_| any_char(t, d)).collect()
        }
        4 => String::new(),
        5 => {
            let n = magic_len(t, d);
            let unit: String = (0..t.range(1, 3)).map(|_| any_char(t, d)).collect();
            let mut s: String = unit.chars().cycle().take(n).collect();
            if t.chance(1, 2) {
                s.push(any_char(t, d));
                if t.chance(1, 2) {
                    s += *t.pick(SYNTAX);
                }
            }
            s
        }
        6 => {
            if d.strings.is_empty() {
                String::new()
            } else {
                t.pick(&d.strings).clone()
            }
        }
        _ => {
            let mut s = t.pick(&d.fresh_strings).clone();
            if t.chance(1, 3) {
                s = format!("{}{}{}", t.pick(WORDS), s, t.pick(WORDS));
            }
            s
        }
    }
}

/// A word that is nearly `word` (now and then the word itself).
pub fn near(t: &mut Tape, d: &Dict, word: &str) -> String {
    // characters that trimming, splitting, case folding or filtering may take away
    const SLY: &[char] = &[
        ' ', '\t', '\0', '\u{1}', '\u{7f}', '\u{85}', '\u{a0}', '\u{ad}', '\u{200b}', '\u{200d}', '\u{2060}', '\u{feff}', '\u{301}', '-', '_',
        '.', ';', ':', '!', '*', '=', '#', '~', '|', '\'', '"', '(', ')', '[', ']', '0', '1', 's', 'y', 'S', '\u{17f}', '\u{131}', '/', '\\',
    ];
    let mut cs: Vec<char> = word.chars().collect();
    for _ in 0..t.weighted(&[1, 12, 3]) {
        let c = if t.chance(3, 4) { *t.pick(SLY) } else { any_char(t, d) };
        let i = if cs.is_empty() { 0 } else { t.below(cs.len()) };
        match t.below(8) {
            0 | 1 => cs.push(c),
            2 => cs.insert(0, c),
            3 => cs.insert(i, c),
            4 if !cs.is_empty() => cs[i] = c,
            5 if !cs.is_empty() => {
                cs.remove(i);
            }
            6 if cs.len() > 1 => {
                let j = (i + 1) % cs.len();
                cs.swap(i, j);
            }
            _ if !cs.is_empty() => {
                let up: Vec<char> = if cs[i].is_lowercase() { cs[i].to_uppercase().collect() } else { cs[i].to_lowercase().collect() };
                cs.splice(i..i + 1, up);
            }
            _ => cs.push(c),
        }
    }
    cs.into_iter().filter(|c| *c != '\n' && *c != '\r').collect()
}

/// A text that a careless comparison takes for `word`.
pub fn alike(t: &mut Tape, d: &Dict, word: &str) -> String {
    match t.below(8) {
        0 => word.to_uppercase(),
        1 => word.to_lowercase(),
        2 => word.chars().rev().collect(),
        3 => {
            // the same characters, another order
            let mut cs: Vec<char> = word.chars().collect();
            if cs.len() > 1 {
                let (i, j) = (t.below(cs.len()), t.below(cs.len()));
                cs.swap(i, j);
            }
            cs.into_iter().collect()
        }
        _ => near(t, d, word),
    }
}

pub fn nonempty(t: &mut Tape, d: &Dict) -> String {
    let s = text(t, d);
    if s.is_empty() {
        "m".into()
    } else {
        s
    }
}

/// Text of a comment line: no newline, no leading white space, no final '\r'.
pub fn comment_text(t: &mut Tape, d: &Dict) -> String {
    let s: String = text(t, d).replace('\n', " ");
    s.trim_start().trim_end_matches('\r').to_string()
}

pub const CUSTOM_KINDS: &[char] =
    &['$', '=', '&', '+', '!', '@', '#', '-', '*', '?', '"', 'm', 'x', '1', '\\', '[', '/', ';', '>', '(', 'é', '日', '😀'];

fn token(t: &mut Tape, d: &Dict, flag: bool) -> String {
    const FLAGS: &[&str] = &[
        "fuzzy", "c-format", "no-c-format", "python-format", "no-wrap", "range: 0..10", "Fuzzy", "fuzzy2", "not-fuzzy",
        "obsolete", "FUZZY", "fuz zy", "rust-format", "x",
    ];
    const LOCS: &[&str] =
        &["src/main.c:12", "a:1", "b.rs:34", "file", "C:\\x.c:5", "é.c:7", "a,b:3", "x:y:z", "#12", "\"q\"", "src/lib.rs"];
    let s = match t.weighted(&[12, 2, if d.fresh_strings.is_empty() { 0 } else { 8 }, if flag { 1 } else { 0 }]) {
        3 => near(t, d, "fuzzy"),
        0 => (*t.pick(if flag { FLAGS } else { LOCS })).to_string(),
        1 => text(t, d).chars().take(60).collect(),
        _ => t.pick(&d.fresh_strings).clone(),
    };
    let bad = |c: char| if flag { c == ',' || c == '\n' || c == '\r' } else { c.is_whitespace() };
    let s: String = s.chars().filter(|c| !bad(*c)).collect();
    let s = s.trim().to_string();
    if s.is_empty() {
        if flag { "fuzzy".into() } else { "a:1".into() }
    } else {
        s
    }
}

pub fn comment(t: &mut Tape, d: &Dict) -> CommentLine {
    let k = t.weighted(&[5, 3, 3, 4, 2]);
    let kind = match k {
        0 => ' ',
        1 => '.',
        2 => ':',
        3 => ',',
        _ => {
            if t.chance(1, 4) {
                let c = if t.chance(1, 4) { *t.pick(&['~', '|']) } else { any_char(t, d) };
                if c.is_whitespace() || [',', ':', '.'].contains(&c) {
                    '$'
                } else {
                    c
                }
            } else {
                *t.pick(CUSTOM_KINDS)
            }
        }
    };
    match kind {
        ',' | ':' => {
            let n = if t.chance(1, 40) { t.range(5, 80) } else { t.range(1, 4) };
            CommentLine { kind, text: String::new(), tokens: (0..n).map(|_| token(t, d, kind == ',')).collect() }
        }
        _ => CommentLine { kind, text: unlike_message(kind, comment_text(t, d)), tokens: vec![] },
    }
}

/// The text of a comment of a kind that is also the mark of message lines must not look like one.
pub fn unlike_message(kind: char, text: String) -> String {
    if !['~', '|'].contains(&kind) {
        return text;
    }
    let s = text.replace('"', "'");
    if s.trim_start().starts_with(['m', '~', '|']) {
        return format!("x {s}");
    }
    s
}

pub fn comments(t: &mut Tape, d: &Dict) -> Vec<CommentLine> {
    let n = match t.weighted(&[180, 180, 30, 1]) {
        0 => 0,
        1 => t.range(1, 5),
        2 => t.range(5, 30),
        _ => return many_comments(t, d),
    };
    (0..n).map(|_| comment(t, d)).collect()
}

/// Very many short comment lines, or very many items on one line.
pub fn many_comments(t: &mut Tape, d: &Dict) -> Vec<CommentLine> {
    let n = magic_len(t, d).min(3000);
    let mut proto: Vec<CommentLine> = (0..t.range(1, 3)).map(|_| comment(t, d)).collect();
    for c in &mut proto {
        c.text = c.text.chars().take(20).collect::<String>().trim_end_matches('\r').to_string();
        c.tokens.truncate(3);
    }
    if t.chance(1, 2) {
        if let Some(c) = proto.iter_mut().find(|c| !c.tokens.is_empty()) {
            c.tokens = (0..n).map(|i| format!("{}{i}", c.tokens[i % c.tokens.len()])).collect();
            if t.chance(1, 2) {
                c.tokens.push("fuzzy".into());
            }
            return proto;
        }
    }
    (0..n)
        .map(|i| {
            let mut c = proto[i % proto.len()].clone();
            match c.tokens.last_mut() {
                Some(x) => x.push_str(&i.to_string()),
                None => c.text = format!("{}{i}", c.text),
            }
            c
        })
        .collect()
}

pub fn opt_text(t: &mut Tape, d: &Dict, num: usize, den: usize) -> Option<String> {
    if t.chance(num, den) {
        Some(text(t, d))
    } else {
        None
    }
}

/// `forms`: number of variants the catalogue allows (0: no plural entries).
pub fn entry(t: &mut Tape, d: &Dict, forms: usize) -> Entry {
    let cs = if t.chance(1, 2) { comments(t, d) } else { vec![] };
    let obsolete = t.chance(1, 5);
    let (mut prev_ctxt, mut prev_id, mut prev_plural) = (None, None, None);
    if t.chance(1, 4) {
        prev_ctxt = opt_text(t, d, 1, 2);
        prev_id = opt_text(t, d, 3, 4);
        if prev_id.is_some() {
            prev_plural = opt_text(t, d, 1, 3);
        }
    }
    let ctxt = opt_text(t, d, 1, 4);
    let id = nonempty(t, d);
    let body = if forms > 0 && t.chance(1, 3) {
        let n = if t.chance(3, 4) { forms.min(200) } else { t.range(1, forms.min(200)) };
        let vals = (0..n)
            .map(|_| if t.chance(1, 6) { String::new() } else { text(t, d).chars().take(400).collect() })
            .collect();
        Body::Plural(text(t, d), vals)
    } else {
        Body::Simple(text(t, d))
    };
    Entry { comments: cs, obsolete, prev_ctxt, prev_id, prev_plural, ctxt, id, body }
}

pub fn wsp(t: &mut Tape) -> String {
    match t.weighted(&[5, 4, 2]) {
        0 => String::new(),
        1 => " ".into(),
        _ => (0..t.range(1, 3)).map(|_| *t.pick(&[' ', ' ', '\t', '\u{a0}', '\u{3000}', '\r', '\u{b}'])).collect(),
    }
}

fn sp(t: &mut Tape) -> String {
    match t.weighted(&[5, 3, 1]) {
        0 => String::new(),
        1 => " ".into(),
        _ => (0..t.range(1, 3)).map(|_| *t.pick(&[' ', ' ', '\t'])).collect(),
    }
}

/// A well-formed Plural-Forms value.
pub fn plural_spec(t: &mut Tape, d: &Dict) -> PluralSpec {
    let (n, f): (Option<usize>, Option<(Ast, String)>) = match t.weighted(&[5, 5, 1]) {
        0 => {
            let (n, s) = *t.pick(formula::REAL);
            (Some(n), Some((formula::parse(s).unwrap().ast, s.to_string())))
        }
        1 => {
            let depth = t.range(0, 5);
            let a = formula::gen(t, d, depth);
            let free = t.chance(3, 4);
            let s = formula::render(&a, t, &Style { free });
            (Some(nplurals(t, d)), Some((a, s)))
        }
        _ => (Some(nplurals(t, d)), None),
    };
    let n = if t.chance(1, 12) { None } else { n };
    // very long formulas are another property's business
    let f = f.filter(|x| x.1.len() <= 1500).map(|(a, s)| (a, s.trim().to_string()));
    spec_with(t, n, f)
}

pub fn spec_with(t: &mut Tape, n: Option<usize>, f: Option<(Ast, String)>) -> PluralSpec {
    let mut items: Vec<String> = vec![];
    if let Some(n) = n {
        items.push(format!("nplurals{}={}{}{};", sp(t), sp(t), n, sp(t)));
    }
    if let Some((_, s)) = &f {
        items.push(format!("plural{}={}{}{};", sp(t), sp(t), s, sp(t)));
    }
    if t.chance(1, 20) {
        items.push(format!("{}={};", t.pick(&["x", "extra", "nplural", "plurals", "Plural"]), t.pick(&["1", "n", "", "a b"])));
    }
    if t.chance(1, 6) {
        items.reverse();
    }
    let mut s = items[0..items.len().min(1)].concat();
    for i in items.iter().skip(1) {
        s += if t.chance(1, 6) { "" } else { " " };
        s += &sp(t);
        s += i;
    }
    if s.is_empty() {
        s = "x=1;".into();
    }
    PluralSpec { nplurals: n, formula: f, definition: s }
}

pub fn nplurals(t: &mut Tape, d: &Dict) -> usize {
    match t.weighted(&[12, 3, 1, if d.fresh_ints.is_empty() { 0 } else { 3 }]) {
        0 => t.range(1, 6),
        1 => t.range(7, 25),
        2 => *t.pick(&[10, 11, 16, 32, 64, 99, 100, 101, 127, 128, 129]),
        _ => ((*t.pick(&d.fresh_ints) as usize).saturating_add(t.below(3))).clamp(2, 151) - 1,
    }
}

const KEYS: &[&str] = &[
    "Project-Id-Version", "Report-Msgid-Bugs-To", "POT-Creation-Date", "PO-Revision-Date", "Last-Translator", "Language-Team",
    "MIME-Version", "Content-Type", "Content-Transfer-Encoding", "X-Generator", "X-Poedit", "language", "plural-forms", "K", "é",
    "Two Words", "X-A\"B", "X\\Y", "Languages", "X-Language", "Plural-Form",
];
const VALUES: &[&str] = &[
    "", "1.0", "text/plain; charset=UTF-8", "8bit", "2020-01-01 10:00+0200", "French <fr@li.org>", "a:b", "::", ":", "x",
    "http://example.org/?a=b", "\"quoted\"", "back\\slash", "été", "tab\there", "a  b", "fr", "nplurals=2; plural=n>1;",
];
pub const LANGS: &[&str] = &[
    "", "fr", "en", "de_DE", "pt-BR", "pt_BR", "zh_CN", "zh-Hans-CN", "sr@latin", "sr_RS@latin", "ca@valencia", "en_US.UTF-8", "C",
    "POSIX", "fil", "x-klingon", "en-US-x-private", "*", "fr_", "français", "not a language", "fr-FR-1996", "ES", "eN-us", "es-419",
    "es_419", "de_AT.ISO-8859-1@euro", "uz@cyrillic", "aa@saaho", "q", "toolonglanguagename", "12", "zh-cmn-Hans-CN", "i-navajo",
    "fr_FR@", "en_us", "LL", "a-b-c-d-e-f", "fr;en", "en,fr",
];

pub fn header_value(t: &mut Tape, d: &Dict) -> String {
    let s = if t.chance(3, 4) { t.pick(VALUES).to_string() } else { text(t, d) };
    s.replace('\n', " ").trim().to_string()
}

pub fn header_key(t: &mut Tape, d: &Dict) -> String {
    let s = if t.chance(4, 5) {
        t.pick(KEYS).to_string()
    } else {
        let s = text(t, d).chars().take(80).collect::<String>();
        match t.below(5) {
            0 => format!("X-{s}"),
            1 => s,
            2 => near(t, d, "Language"),
            3 => near(t, d, "Plural-Forms"),
            _ => format!("{}{}", any_char(t, d), t.pick(KEYS)),
        }
    };
    let s = s.replace(['\n', ':'], "_");
    match s.trim() {
        // these two have a meaning, they are put in on purpose only
        "Language" => "language".into(),
        "Plural-Forms" => "plural-forms".into(),
        s => s.to_string(),
    }
}

pub fn language(t: &mut Tape, d: &Dict) -> String {
    if t.chance(3, 4) {
        t.pick(LANGS).to_string()
    } else {
        let s = match t.below(3) {
            0 => {
                const PARTS: &[&str] = &["fr", "en", "zho", "Latn", "CYRL", "us", "419", "x", "a", "*", "u", "va", "1996", "posix", "variant1", "toolongpart9"];
                let n = t.range(1, 6);
                let sep = *t.pick(&["-", "-", "_", "@", "."]);
                (0..n).map(|_| *t.pick(PARTS)).collect::<Vec<_>>().join(sep)
            }
            1 => {
                let l = *t.pick(&["fr", "sr", "aa", "ca", "uz", "abc", "C"]);
                let r = *t.pick(&["", "_RS", "_ca", "_419", "_x"]);
                let e = *t.pick(&["", ".UTF-8", ".iso885915", ".", ".u_8"]);
                let v = *t.pick(&["", "@latin", "@CYRILLIC", "@euro", "@saaho", "@somethinglong", "@valencia", "@", "@1234567\u{212a}", "@é"]);
                format!("{l}{r}{e}{v}")
            }
            _ => text(t, d).chars().take(40).collect(),
        };
        s.replace('\n', " ").trim().to_string()
    }
}

pub fn prop(t: &mut Tape, key: String, value: String) -> HeaderLine {
    let plain = t.chance(3, 4);
    let (pre, mid, post, trail) = if plain {
        (String::new(), String::new(), " ".into(), String::new())
    } else {
        (wsp(t), wsp(t), wsp(t), wsp(t))
    };
    HeaderLine::Prop { pre, key, mid, post, value, trail }
}

/// Literals of the code as key and value.
fn fresh_prop(t: &mut Tape, d: &Dict, lines: &mut Vec<HeaderLine>) {
    let clean = |s: &str| s.replace(['\n', ':'], " ").trim().to_string();
    let k = clean(t.pick(&d.fresh_strings));
    let v = clean(t.pick(&d.fresh_strings));
    if !matches!(k.as_str(), "Language" | "Plural-Forms") {
        let i = t.below(lines.len() + 1);
        let l = prop(t, k, v);
        lines.insert(i, l);
    }
}

/// A header for properties that are not about headers: the rule, and now and then a few other lines,
/// none of which may matter. (No header at all without rule and lines.)
pub fn side_header(t: &mut Tape, d: &Dict, spec: Option<&PluralSpec>) -> Option<Header> {
    let mut lines: Vec<HeaderLine> = spec
        .iter()
        .map(|s| HeaderLine::Prop { pre: String::new(), key: "Plural-Forms".into(), mid: String::new(), post: " ".into(), value: s.definition.clone(), trail: String::new() })
        .collect();
    if t.chance(1, 2) {
        let mut other = vec![];
        if t.chance(2, 3) {
            let v = if t.chance(2, 3) { t.pick(&["fr", "ja", "ar", "pl", "ru", "en_US", "pt-BR", "zh_CN", "ga"]).to_string() } else { language(t, d) };
            other.push(prop(t, "Language".into(), v));
        }
        for _ in 0..t.below(3) {
            let (k, v) = (header_key(t, d), header_value(t, d));
            other.push(prop(t, k, v));
        }
        if !d.fresh_strings.is_empty() && t.chance(1, 2) {
            fresh_prop(t, d, &mut other);
        }
        let at = t.below(other.len() + 1);
        let tail = other.split_off(at);
        lines = other.into_iter().chain(lines).chain(tail).collect();
    }
    if lines.is_empty() {
        None
    } else {
        Some(Header { lines, ..Header::default() })
    }
}

pub fn header(t: &mut Tape, d: &Dict, spec: Option<&PluralSpec>) -> Header {
    let n = if t.chance(1, 30) { t.range(10, 120) } else { t.range(0, 8) };
    let mut lines = vec![];
    for _ in 0..n {
        if t.chance(1, 12) {
            let s = text(t, d).replace(['\n', ':'], " ");
            lines.push(HeaderLine::Junk(s));
        } else {
            let (k, v) = (header_key(t, d), header_value(t, d));
            lines.push(prop(t, k, v));
        }
    }
    if t.chance(1, 300) && !lines.is_empty() {
        // very many lines
        let n = magic_len(t, d).min(2000);
        let k = lines.len();
        let distinct = t.chance(1, 2);
        for i in 0..n {
            let mut l = lines[i % k].clone();
            if let HeaderLine::Prop { key, value, .. } = &mut l {
                if distinct {
                    *key = format!("{}{i}", key.chars().take(20).collect::<String>()).trim().to_string();
                }
                *value = value.chars().take(20).collect::<String>().trim().to_string();
            }
            lines.push(l);
        }
    }
    if !d.fresh_strings.is_empty() && t.chance(1, 3) {
        fresh_prop(t, d, &mut lines);
    }
    if t.chance(2, 3) {
        let v = language(t, d);
        let l = prop(t, "Language".into(), v);
        let i = t.below(lines.len() + 1);
        lines.insert(i, l);
    }
    match spec {
        Some(s) => {
            let l = prop(t, "Plural-Forms".into(), s.definition.clone());
            let i = t.below(lines.len() + 1);
            lines.insert(i, l);
        }
        None => {
            if t.chance(1, 10) {
                lines.push(prop(t, "Plural-Forms".into(), String::new()));
            }
        }
    }
    Header {
        comments: if t.chance(1, 2) { comments(t, d) } else { vec![] },
        ctxt: opt_text(t, d, 1, 20),
        lines,
        final_nl: !t.chance(1, 4),
    }
}

pub struct Cfg {
    pub max_entries: usize,
    pub spikes: bool,
}

pub const CFG: Cfg = Cfg { max_entries: 7, spikes: true };

pub fn catalogue(t: &mut Tape, d: &Dict, cfg: &Cfg) -> Catalogue {
    let with_header = !t.chance(1, 6);
    let mut ht = t.tail(100);
    let plural = if with_header && ht.chance(3, 4) { Some(plural_spec(&mut ht, d)) } else { None };
    let header = if with_header { Some(header(&mut ht, d, plural.as_ref())) } else { None };
    let forms = plural.as_ref().map_or(2, |p| p.count());
    let entries: Vec<Entry> = if cfg.spikes && t.chance(1, 150) {
        // many entries, little in each
        let n = match t.weighted(&[4, 2, 1]) {
            0 => t.range(50, 300),
            1 => magic_len(t, d).min(9000),
            _ => t.range(1000, 5000),
        };
        let proto: Vec<Entry> = (0..t.range(1, 4)).map(|_| small(entry(t, d, forms))).collect();
        (0..n)
            .map(|i| {
                let mut e = proto[i % proto.len()].clone();
                e.id = format!("{}{}", e.id, i);
                e
            })
            .collect()
    } else {
        let n = if cfg.spikes && t.chance(1, 20) { t.range(8, 40) } else { t.range(0, cfg.max_entries) };
        (0..n).map(|_| entry(t, d, forms)).collect()
    };
    let mut entries = entries;
    let mut et = t.tail(40);
    if entries.len() <= 40 && et.chance(1, 3) {
        echo(&mut et, d, &mut entries, forms);
    }
    let trailing = if t.chance(1, 8) { comments(t, d) } else { vec![] };
    Catalogue { header, plural, entries, trailing }
}

pub fn small(mut e: Entry) -> Entry {
    let cut = |s: &mut String| *s = s.chars().take(30).collect();
    cut(&mut e.id);
    if let Some(s) = e.ctxt.as_mut() {
        cut(s)
    }
    for o in [&mut e.prev_ctxt, &mut e.prev_id, &mut e.prev_plural] {
        if let Some(s) = o.as_mut() {
            cut(s)
        }
    }
    match &mut e.body {
        Body::Simple(s) => cut(s),
        Body::Plural(p, v) => {
            cut(p);
            v.iter_mut().for_each(cut);
        }
    }
    e.comments.truncate(3);
    for c in &mut e.comments {
        c.text = c.text.chars().take(30).collect();
        c.text = c.text.trim_end_matches('\r').to_string();
        c.tokens.truncate(4);
    }
    e
}

fn fields(e: &mut Entry, forms: usize) -> Vec<&mut String> {
    let mut v: Vec<&mut String> = vec![&mut e.id];
    v.extend(e.ctxt.as_mut());
    v.extend(e.prev_ctxt.as_mut());
    v.extend(e.prev_id.as_mut());
    v.extend(e.prev_plural.as_mut());
    match &mut e.body {
        Body::Simple(s) => v.push(s),
        Body::Plural(p, vs) => {
            v.push(p);
            v.extend(vs.iter_mut().take(forms));
        }
    }
    v
}

/// Repeats texts and entries within a catalogue: neighbours that look alike.
fn echo(t: &mut Tape, d: &Dict, es: &mut Vec<Entry>, forms: usize) {
    for _ in 0..t.range(1, 4) {
        if es.is_empty() {
            return;
        }
        let (i, j) = (t.below(es.len()), t.below(es.len()));
        match t.below(6) {
            // one text in two places
            0 | 1 => {
                let (k, l) = (t.below(8), t.below(8));
                let s = {
                    let mut f = fields(&mut es[i], forms);
                    let n = f.len();
                    std::mem::take(f[k % n])
                };
                {
                    let mut f = fields(&mut es[i], forms);
                    let n = f.len();
                    *f[k % n] = s.clone();
                }
                let j = if t.chance(1, 2) { i } else { j };
                let mut f = fields(&mut es[j], forms);
                let n = f.len();
                // the source stays non-empty
                if l % n != 0 || !s.is_empty() {
                    *f[l % n] = s;
                }
            }
            // an entry again, unchanged or in one respect
            k => {
                let mut e = es[i].clone();
                match if k == 2 { 9 } else { t.below(8) } {
                    0 => e.obsolete = !e.obsolete,
                    1 => e.ctxt = if e.ctxt.is_some() { None } else { Some("menu".into()) },
                    2 => e.comments.clear(),
                    3 => e.comments.push(CommentLine { kind: ',', text: String::new(), tokens: vec!["fuzzy".into()] }),
                    4 => match &mut e.body {
                        Body::Simple(s) => s.push('!'),
                        Body::Plural(_, v) => v[0].push('!'),
                    },
                    5 => {
                        e.body = match e.body {
                            Body::Simple(s) if forms > 0 => Body::Plural(e.id.clone(), vec![s]),
                            Body::Plural(_, v) => Body::Simple(v[0].clone()),
                            b => b,
                        }
                    }
                    6 => {
                        e.prev_id = Some(e.id.clone());
                        e.prev_ctxt = e.ctxt.clone();
                    }
                    7 => {
                        // another entry, but nearly the same
                        let id = alike(t, d, &e.id);
                        if !id.is_empty() {
                            e.id = id;
                        }
                    }
                    _ => (),
                }
                let at = if t.chance(2, 3) { i + 1 } else { t.below(es.len() + 1) };
                es.insert(at, e);
            }
        }
    }
}
