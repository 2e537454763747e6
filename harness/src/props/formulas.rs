//! Plural rules: C08 formula semantics, C09 header decoding, C10 variant selection,
//! C11 indices of variants, C23 totality and acceptance.

use super::*;
use crate::{
    engine::Probe,
    formula::{self, Ast, Style},
    gen, refparse,
    render::{self, Layout},
};
use poreader::{plural::PluralForms, unit::Unit};

pub static PROPS: &[Prop] = &[
    Prop {
        id: "C08",
        title: "Formula semantics",
        rule: "random formulas (every operator, words and symbols, random parentheses and spacing, depth up to 7, 19 real-world rules, magic constants) evaluated at small counts, boundary counts and random counts up to 2^63-1 with the largest nplurals, against a reference evaluator of C expressions; non-trivial: the formula has an operator and depends on n",
        run: c08,
        quick: 34700,
        thorough: 1388000,
        fixed: Some(c08_fixed),
        probes: &[Probe { key: "count-above-i64-max", shows: kf_big_count }],
    },
    Prop {
        id: "C09",
        title: "Plural-Forms decoding",
        rule: "Plural-Forms values: well-formed in random layout and item order, with nplurals or plural missing, extra items, and mutated ones (missing ';', bad numbers, broken formulas); definition, formula text and count must be exact, and a bad value must be rejected at open; non-trivial: not the canonical spelling",
        run: c09,
        quick: 44200,
        thorough: 1768000,
        fixed: Some(super::giants::c06),
        probes: &[],
    },
    Prop {
        id: "C10",
        title: "Variant selection",
        rule: "plural entries with 1..nplurals variants under random rules, simple entries and entries without a rule; get_plural_text / Plural::get for small, boundary and random counts against values[index]; non-trivial: two different variants are selected or some count has none",
        run: c10,
        quick: 18400,
        thorough: 736000,
        fixed: Some(super::giants::c10),
        probes: &[],
    },
    Prop {
        id: "C11",
        title: "Variants keep their index",
        rule: "plural entries whose msgstr[i] lines are dropped, repeated, swapped, renumbered or too many: every variant read at position i was written as msgstr[i], and irregular lists end in an error; non-trivial: the index list is not 0..nplurals",
        run: c11,
        quick: 40800,
        thorough: 1632000,
        fixed: Some(super::giants::c11),
        probes: &[],
    },
    Prop {
        id: "C23",
        title: "Formula acceptance and totality",
        rule: "formula texts from random token lists, mutated real rules and valid renderings: accepted exactly when the reference grammar accepts (doubtful unary positions and 'not' mixes excluded and counted), and evaluation at any count of the whole usize range neither panics nor leaves 0..nplurals; non-trivial: at least three tokens",
        run: c23,
        quick: 35400,
        thorough: 1416000,
        fixed: Some(c23_fixed),
        probes: &[],
    },
];

fn po(def: &str, values: usize) -> String {
    let esc = render::escape(def, false, &mut Tape::new(&[]));
    let mut s = format!("msgid \"\"\nmsgstr \"\"\n\"Plural-Forms: {esc}\\n\"\n\nmsgid \"i\"\nmsgid_plural \"p\"\n");
    for i in 0..values.max(1) {
        s += &format!("msgstr[{i}] \"v{i}\"\n");
    }
    s
}

fn unit_of(text: &str) -> Result<Unit, String> {
    let p = observe::parser();
    let mut r = p.parse(text.as_bytes()).map_err(|e| format!("rejected at open: {e}"))?;
    match r.next() {
        Some(Ok(u)) => Ok(u),
        Some(Err(e)) => Err(format!("rejected: {e}")),
        None => Err("no unit".into()),
    }
}

fn forms_of(u: &Unit) -> Result<&PluralForms, String> {
    u.message().plural().ok_or("not a plural message")?.get_forms().ok_or_else(|| "no plural rule".into())
}

pub fn count(t: &mut Tape, d: &crate::dict::Dict) -> u64 {
    match t.weighted(&[5, 4, 2, 2, if d.fresh_ints.is_empty() { 0 } else { 4 }]) {
        0 => t.below(30) as u64,
        1 => t.below(1200) as u64,
        2 => {
            let k = t.below(64);
            (1u64 << k).wrapping_add([0u64, 1, u64::MAX][t.below(3)]) & i64::MAX as u64
        }
        3 => t.u64() >> (1 + t.below(62)),
        _ => t.pick(&d.fresh_ints).wrapping_add([0u64, 1, u64::MAX][t.below(3)]) & i64::MAX as u64,
    }
}

fn want(a: &Ast, n: u64, limit: u64) -> Option<usize> {
    let v = a.eval(n as i64);
    if v < 0 || v as u64 >= limit {
        None
    } else {
        Some(v as usize)
    }
}

fn c08_fixed(i: usize, cx: &mut Cx) -> Option<Res> {
    let (n, f) = *formula::REAL.get(i)?;
    let def = format!("nplurals={n}; plural={f};");
    let text = po(&def, n);
    cx.class("real-rule-0..2200");
    cx.case(text.as_bytes(), n > 1);
    let a = formula::parse(f).unwrap().ast;
    Some((|| {
        let u = unit_of(&text)?;
        let fm = forms_of(&u)?;
        for k in (0..2200u64).chain([10_000, 10_001, 99_999, 1_000_000, 1_000_001, u32::MAX as u64, 1 << 40]) {
            let w = want(&a, k, n as u64);
            ensure(w.is_some(), || "reference out of range".into())?;
            observe::diff(&format!("{f} at {k}"), &w, &fm.get_value(k as usize))?;
        }
        Ok(())
    })())
}

fn kf_big_count() -> bool {
    let Ok(u) = unit_of(&po("nplurals=2; plural=(n > 1);", 2)) else { return false };
    forms_of(&u).map_or(false, |f| f.get_value(1 << 63) == Some(0))
}

fn c08(t: &mut Tape, cx: &mut Cx) -> Res {
    let (a, s) = if t.chance(1, 8) {
        let (_, s) = *t.pick(formula::REAL);
        (formula::parse(s).unwrap().ast, s.to_string())
    } else {
        let depth = t.range(0, 7);
        let a = formula::gen(t, cx.d, depth);
        let free = t.chance(3, 4);
        let s = formula::render(&a, t, &Style { free });
        (a, s)
    };
    if s.len() > 3500 {
        cx.class("too-long");
        return Ok(());
    }
    cx.class_if(a.size() >= 10, "size>=10");
    cx.class_if(a.size() >= 40, "size>=40");
    cx.class_if(a.uses_var(), "uses-n");
    let big = t.chance(3, 4);
    let limit: u64 = if big { u64::MAX } else { t.range(1, 8) as u64 };
    let def = format!("nplurals={limit}; plural={s};");
    let text = po(&def, if big { 2 } else { limit as usize });
    cx.case(text.as_bytes(), a.size() > 1 && a.uses_var());
    let u = unit_of(&text)?;
    let f = forms_of(&u)?;
    let mut ns: Vec<u64> = (0..26).collect();
    ns.extend([99, 100, 101, 111, 112, 999, 1000, i64::MAX as u64]);
    for _ in 0..24 {
        ns.push(count(t, cx.d));
    }
    let mut distinct = std::collections::BTreeSet::new();
    for n in ns {
        let w = want(&a, n, limit);
        distinct.insert(w);
        cx.class_if(w.is_none(), "no-form");
        observe::diff(&format!("`{s}` at n={n} (nplurals={limit})"), &w, &f.get_value(n as usize))?;
    }
    cx.class_if(distinct.len() > 1, "several-results");
    Ok(())
}

/// Breaks a Plural-Forms value.
fn spoil(s: &str, t: &mut Tape) -> String {
    match t.below(11) {
        9 => s.replace(';', [";;", "; ;", ";;;", " ; ; "][t.below(4)]),
        10 => s.replacen(*t.pick(&["nplurals", "plural"]), "", 1),
        0 => s.trim_end().trim_end_matches(';').to_string(),
        1 => s.replace("nplurals", ["nplurals =x", "nplurals=-", "nplurals=1.5;x", "nplurals= "][t.below(4)]),
        2 => s.replacen('=', [" ", "", "=="][t.below(3)], 1),
        3 => format!("{s} {}", ["junk", "x=", "=;", ";", "plural", "n;"][t.below(6)]),
        4 => format!("{} {s}", ["junk;", "junk", ";", "=1;"][t.below(4)]),
        5 => "nplurals=INTEGER; plural=EXPRESSION;".into(),
        6 => s.replace('n', ["m", "N", "nn", "n n", "1n"][t.below(5)]),
        7 => {
            let mut cs: Vec<char> = s.chars().collect();
            if !cs.is_empty() {
                let k = t.below(cs.len());
                match t.below(3) {
                    0 => {
                        cs.remove(k);
                    }
                    1 => cs.insert(k, *t.pick(&[';', '=', '(', ')', 'n', '0', ' ', '!', '?', ':', '&', '|', '9', '-', '+', '"', '$', 'é'])),
                    _ => cs[k] = *t.pick(&[';', '=', '(', ')', 'n', '0', ' ', '!', '?', ':', '&', '|', '9', '-', '+', 'x']),
                }
            }
            cs.into_iter().collect()
        }
        _ => s.replace("plural=", ["plural=(", "plural=)", "plural=1+", "plural=?", "plural=99999999999999999999+", "plural=n=", "plural=n?"][t.below(7)]),
    }
}

fn c09(t: &mut Tape, cx: &mut Cx) -> Res {
    let spec = gen::plural_spec(t, cx.d);
    let canonical = spec.definition == format!("nplurals={}; plural={};", spec.count(), spec.formula_text());
    let mut def = spec.definition.clone();
    let mutated = t.chance(1, 2);
    if mutated {
        for _ in 0..t.range(1, 2) {
            def = spoil(&def, t);
        }
    }
    if !mutated && t.chance(1, 12) {
        // other counts, also those no file fills
        let n = match t.below(3) {
            0 => "0".to_string(),
            1 => usize::MAX.to_string(),
            _ => t.u64().to_string(),
        };
        def = format!("nplurals={n}; plural={};", spec.formula_text());
    }
    let def = def.trim().to_string();
    let mut lines = vec![];
    // the header may be given in two lines, which are joined by a space
    let cut: Vec<usize> = def
        .match_indices(' ')
        .map(|x| x.0)
        .filter(|i| *i > 0 && def[..*i].trim() == &def[..*i] && def[i + 1..].trim() == &def[i + 1..])
        .collect();
    if !cut.is_empty() && t.chance(1, 8) {
        let i = *t.pick(&cut);
        lines.push(gen::prop(t, "Plural-Forms".into(), def[..i].to_string()));
        lines.push(gen::prop(t, "Plural-Forms".into(), def[i + 1..].to_string()));
        cx.class("two-header-lines");
    } else {
        lines.push(gen::prop(t, "Plural-Forms".into(), def.clone()));
    }
    for _ in 0..t.weighted(&[4, 2, 1, 1]) {
        let (k, v) = (gen::header_key(t, cx.d), gen::header_value(t, cx.d));
        let l = gen::prop(t, k, v);
        let at = t.below(lines.len() + 1);
        lines.insert(at, l);
    }
    let c = Catalogue { header: Some(Header { lines, final_nl: t.chance(1, 2), ..Header::default() }), ..Catalogue::default() };
    let l = Layout::draw(t);
    let mut text = render::catalogue(&c, l, t).0;
    if !text.ends_with('\n') {
        text.push('\n');
    }
    let r = refparse::plural_forms(&def);
    cx.case(text.as_bytes(), !canonical || mutated);
    let tail = "\nmsgid \"a\"\nmsgstr \"b\"\n\nmsgid \"i\"\nmsgid_plural \"p\"\nmsgstr[0] \"zero\"\n";
    let o = read(&(text + tail))?;
    match r {
        refparse::Forms::Vague => {
            cx.class("vague");
            return Ok(());
        }
        refparse::Forms::Bad => {
            cx.class("bad");
            return match (&o.error, o.at_open) {
                (Some(e), true) if e.kind == ErrKind::Plural || e.kind == ErrKind::Unexpected => {
                    ensure(!e.display.is_empty(), || "empty message".into())
                }
                _ => Err(format!("bad Plural-Forms `{def}` not rejected at open: {:?}", o.error)),
            };
        }
        refparse::Forms::None => {
            cx.class("empty");
            ensure(o.error.is_none(), || format!("rejected: {:?}", o.error))?;
            ensure(o.units.len() == 2 && o.units[1].msg.forms.is_none(), || "a rule out of nothing".into())
        }
        refparse::Forms::Ok(s) => {
            cx.class("good");
            cx.class_if(s.nplurals.is_none(), "no-nplurals");
            cx.class_if(s.formula.is_none(), "no-plural");
            if s.count() == 0 {
                cx.class("nplurals=0");
                // no variant fits: only the simple entry can be read
                ensure(!o.at_open && o.units.len() == 1 && o.error.is_some(), || "nplurals=0 gave a plural entry".into())?;
                return Ok(());
            }
            ensure(o.error.is_none(), || format!("good Plural-Forms `{def}` rejected: {:?}", o.error.as_ref().map(|e| &e.display)))?;
            let h = o.header.as_ref().unwrap();
            observe::diff("Plural-Forms property", &Some(&def), &h.props.get("Plural-Forms"))?;
            let want = vec![
                Entry { comments: vec![], obsolete: false, prev_ctxt: None, prev_id: None, prev_plural: None, ctxt: None, id: "a".into(), body: Body::Simple("b".into()) },
                Entry { comments: vec![], obsolete: false, prev_ctxt: None, prev_id: None, prev_plural: None, ctxt: None, id: "i".into(), body: Body::Plural("p".into(), vec!["zero".into()]) },
            ];
            let want: Vec<ObsUnit> = want.iter().map(|e| e.expect(Some(&s))).collect();
            observe::diff_units(&want, &o.units)
        }
    }
}

fn c10(t: &mut Tape, cx: &mut Cx) -> Res {
    let spec = if t.chance(7, 8) { Some(gen::plural_spec(t, cx.d)) } else { None };
    let forms = spec.as_ref().map_or(2, |s| s.count());
    let header = gen::side_header(t, cx.d, spec.as_ref());
    let mut entries = vec![];
    for k in 0..t.range(1, 3) {
        let mut e = gen::small(gen::entry(t, cx.d, forms));
        e.comments.clear();
        if t.chance(4, 5) {
            let n = if t.chance(2, 3) { forms } else { t.range(1, forms) };
            let vs = (0..n)
                .map(|i| if t.chance(1, 10) { String::new() } else { format!("{k}:{i}:{}", t.pick(&["", "x", "%d", "é"])) })
                .collect();
            e.body = Body::Plural("p".into(), vs);
        }
        entries.push(e);
    }
    let c = Catalogue { header, plural: spec, entries, trailing: vec![] };
    let l = Layout::draw(t);
    let (text, _) = render::catalogue(&c, l, t);
    let p = observe::parser();
    let r = p.parse(text.as_bytes()).map_err(|e| format!("rejected at open: {e}"))?;
    let units: Vec<Unit> = r.collect::<Result<_, _>>().map_err(|e| format!("rejected: {e}"))?;
    ensure(units.len() == c.entries.len(), || "wrong number of units".into())?;
    let mut counts: Vec<u64> = (0..24).collect();
    counts.extend([99, 100, 101, 102, 111, 1000]);
    for _ in 0..16 {
        counts.push(count(t, cx.d));
    }
    let (mut picked, mut none) = (std::collections::BTreeSet::new(), false);
    for (e, u) in c.entries.iter().zip(&units) {
        let m = u.message();
        for n in &counts {
            let want = match &e.body {
                Body::Simple(s) => Some(s.clone()).filter(|s| !s.is_empty()),
                Body::Plural(_, v) => {
                    let w = c.plural.as_ref().and_then(|s| s.index(*n)).and_then(|i| v.get(i).cloned());
                    if let Some(x) = &w {
                        picked.insert(x.clone());
                    }
                    none |= w.is_none();
                    w
                }
            };
            observe::diff(&format!("text for count {n}"), &want.as_deref(), &m.get_plural_text(*n as usize))?;
            if let Some(p) = m.plural() {
                observe::diff(&format!("Plural::get({n})"), &want.as_deref(), &p.get(*n as usize))?;
            }
        }
    }
    cx.class_if(none, "count-without-variant");
    cx.class_if(picked.len() > 1, "several-variants-picked");
    cx.class_if(forms >= 10, "nplurals>=10");
    cx.case(text.as_bytes(), none || picked.len() > 1);
    observe::expect(&c, &read(&text)?)
}

fn c11(t: &mut Tape, cx: &mut Cx) -> Res {
    let n = match t.weighted(&[6, 3, 1]) {
        0 => t.range(0, 6),
        1 => t.range(7, 14),
        _ => t.range(15, 120),
    };
    let with = t.chance(5, 6);
    let limit = if with { n } else { 2 };
    // the index list as written
    let mut idx: Vec<usize> = (0..limit).collect();
    for _ in 0..t.weighted(&[1, 5, 3, 1]) {
        match t.below(7) {
            0 if !idx.is_empty() => {
                let k = t.below(idx.len());
                idx.remove(k);
            }
            1 if !idx.is_empty() => {
                let k = t.below(idx.len());
                let v = idx[k];
                idx.insert(k, v);
            }
            2 if idx.len() > 1 => {
                let k = t.below(idx.len() - 1);
                idx.swap(k, k + 1);
            }
            3 => idx.push(idx.last().map_or(0, |v| v + 1)),
            4 if !idx.is_empty() => {
                let k = t.below(idx.len());
                idx[k] = t.below(limit + 3);
            }
            5 => idx.iter_mut().for_each(|v| *v += 1),
            _ => {
                let k = t.below(idx.len() + 1);
                idx.truncate(k);
            }
        }
    }
    idx.truncate(300);
    let obsolete = t.chance(1, 5);
    let pre = if obsolete { "#~ " } else { "" };
    let mut s = String::new();
    if with {
        let lang = *t.pick(&["", "", "Language: ja\\n", "Language: ar\\n", "X-Generator: Weblate 5\\n", "Language: fr_FR\\nX-a: b\\n"]);
        s += &format!("msgid \"\"\nmsgstr \"{lang}Plural-Forms: nplurals={n}; plural=n;\\n\"\n\n");
    }
    if t.chance(1, 2) {
        s += "msgid \"before\"\nmsgstr \"B\"\n\n";
    }
    s += &format!("{pre}msgid \"i\"\n{pre}msgid_plural \"p\"\n");
    let split = t.chance(1, 3);
    let blanks = t.weighted(&[3, 1, 1]);
    let mut written: Vec<(usize, String)> = vec![];
    // now and then an index that is none, or written another way
    let odd = if t.chance(1, 8) && !idx.is_empty() { Some((t.below(idx.len()), t.below(6))) } else { None };
    cx.class_if(odd.is_some(), "odd-index");
    for (k, i) in idx.iter().enumerate() {
        // now and then a variant without text
        let w = if blanks > 0 && t.chance(blanks, 4) { String::new() } else { format!("w{i}#{k}") };
        let index = match odd {
            Some((j, how)) if j == k => {
                let r = [String::new(), format!("[0{i}]"), format!("[+{i}]"), format!("[ {i} ]"), "[]".into(), format!("[{i}.0]")];
                r[how].clone()
            }
            _ => {
                written.push((*i, w.clone()));
                format!("[{i}]")
            }
        };
        if split {
            let (a, b) = w.split_at(w.len().min(1));
            s += &format!("{pre}msgstr{index} \"{a}\"\n{pre}\"{b}\"\n");
        } else {
            s += &format!("{pre}msgstr{index} \"{w}\"\n");
        }
    }
    if t.chance(2, 3) {
        s += "\nmsgid \"after\"\nmsgstr \"A\"\n";
    }
    let regular = idx.iter().enumerate().all(|(k, i)| k == *i);
    cx.class_if(!regular, "irregular");
    cx.class_if(regular && idx.len() < limit, "fewer");
    cx.class_if(regular && idx.len() > limit, "too-many");
    cx.class_if(idx.is_empty(), "none");
    cx.class_if(limit >= 10, "nplurals>=10");
    cx.case(s.as_bytes(), !regular || idx.len() != limit || odd.is_some());
    let o = read(&s)?;
    // whatever is read, no text moves to another index
    for u in &o.units {
        if let Some(v) = &u.msg.values {
            for (i, x) in v.iter().enumerate() {
                ensure(written.iter().any(|(j, w)| j == &i && w == x), || format!("msgstr[{i}] is `{x}`"))?;
            }
            ensure(v.len() <= limit, || "more variants than nplurals".into())?;
        }
    }
    refparse::agree(&refparse::parse(&s), &o)
}

/// Formulas of exact lengths, around powers of two and ten: the length decides nothing.
fn c23_fixed(i: usize, cx: &mut Cx) -> Option<Res> {
    const AROUND: &[usize] = &[16, 32, 64, 100, 127, 128, 200, 255, 256, 500, 512, 1000, 1024, 2000, 2048, 3000, 4000, 4095];
    if i == 3 * AROUND.len() {
        return Some(too_long(cx));
    }
    let len = (AROUND.get(i / 3)? + i % 3 - 1).min(4096);
    cx.class("exact-length");
    cx.case(format!("formulas of {len} bytes").as_bytes(), true);
    Some((|| {
        // (formula, value at 0, at 1, at 7)
        let spaces = |sp: char| {
            let k = (len - 3) / sp.len_utf8();
            format!("n{}{}>1", sp.to_string().repeat(k), " ".repeat(len - 3 - k * sp.len_utf8()))
        };
        let parens = |open: usize| format!("{}n{}{}>1", "(".repeat(open), ")".repeat(open), " ".repeat(len - 3 - 2 * open));
        let chain = |op: &str| {
            let unit = format!("{op}0");
            let k = (len - 3) / unit.len();
            format!("n>1{}{}", unit.repeat(k), " ".repeat(len - 3 - k * unit.len()))
        };
        let mut fs = vec![
            (format!("n>{}1", "0".repeat(len - 3)), [0, 0, 1]),
            (parens(1), [0, 0, 1]),
            (parens((len - 3) / 2), [0, 0, 1]),
            (parens(((len - 3) / 2).min(9)), [0, 0, 1]),
            (chain("||"), [0, 0, 1]),
            (chain("+"), [0, 0, 1]),
            (chain("-"), [0, 0, 1]),
            (chain("&&"), [0, 0, 0]),
            (chain(" or "), [0, 0, 1]),
            (format!("{}n>1?1:0{}", "n<0?0:".repeat((len - 7) / 6), " ".repeat((len - 7) % 6)), [0, 0, 1]),
            (format!("{}n>1", "!".repeat((len - 3) / 2 * 2) + &" ".repeat((len - 3) % 2)), [0, 0, 0]),
        ];
        for c in [' ', '\t', '\u{a0}', '\u{3000}', '\u{2003}', '\u{85}'] {
            fs.push((spaces(c), [0, 0, 1]));
        }
        // "! ! n > 1" is (!!n) > 1, never true; a number as long as that is out of range
        for (f, want) in fs {
            ensure(f.len() == len, || format!("length {} for {len}", f.len()))?;
            let f = f.trim_end();
            match formula::parse(f) {
                None => return Err(format!("the reference rejects {}", &f[..f.len().min(80)])),
                Some(p) if p.exotic_unary || p.vague_not => continue,
                Some(p) => {
                    for (n, w) in [0u64, 1, 7].iter().zip(want) {
                        ensure(p.ast.eval(*n as i64) == w, || format!("reference: {f} at {n}"))?;
                    }
                }
            }
            let u = unit_of(&po(&format!("nplurals=2; plural={f};"), 2)).map_err(|e| format!("a formula of {} bytes: {e}: `{f}`", f.len()))?;
            let fm = forms_of(&u)?;
            observe::diff("formula text", &f, &fm.get_formula())?;
            for (n, w) in [0u64, 1, 7].iter().zip(want) {
                observe::diff(&format!("`{f}` at {n}"), &Some(w as usize), &fm.get_value(*n as usize))?;
            }
            // one character too many is not a formula
            for bad in [format!("{f})"), format!("({f}"), format!("{f} n"), format!("{f}?1")] {
                ensure(unit_of(&po(&format!("nplurals=2; plural={bad};"), 2)).is_err(), || format!("accepted: `{bad}`"))?;
            }
        }
        Ok(())
    })())
}

fn too_long(cx: &mut Cx) -> Res {
    cx.class("too-long");
    cx.case(b"formulas of more than 4096 bytes", true);
    for len in [4097usize, 4098, 4100, 5000, 8191, 8192, 10_000, 65_535, 65_536, 70_000] {
        for f in [
            format!("n>{}1", "0".repeat(len - 3)),
            format!("{}n{}>1", "(".repeat((len - 3) / 2), ")".repeat((len - 3) / 2) + &" ".repeat((len - 3) % 2)),
            format!("n{}>1", " ".repeat(len - 3)),
            format!("n{}>1", "\u{a0}".repeat((len - 2) / 2)),
            format!("n{}>1", "\u{3000}".repeat((len - 1) / 3)),
            format!("n>1{}", "||0".repeat((len - 3).div_ceil(3))),
        ] {
            ensure(unit_of(&po(&format!("nplurals=2; plural={f};"), 2)).is_err(), || format!("a formula of {} bytes accepted", f.len()))?;
        }
    }
    Ok(())
}

fn c23(t: &mut Tape, cx: &mut Cx) -> Res {
    const TOKS: &[&str] = &[
        "n", "0", "1", "2", "10", "100", "9223372036854775807", "9223372036854775808", "99999999999999999999", "00", "007", "(", ")", "?", ":",
        "&&", "||", "and", "or", "not", "!", "==", "!=", "<", "<=", ">", ">=", "+", "-", "*", "/", "%", "&", "|", "=", "!!", "N", "m", "a", "nn",
        ".", ",", "0x1", "1e3", "<<", "^", "~", "**", "++", "n1", "1n", "\\", "é", "²", "n?n:n", "( n )", "[", "$",
    ];
    let s = match t.weighted(&[4, 4, 3]) {
        0 => {
            let k = t.range(0, 12);
            let sp = *t.pick(&["", " ", "  "]);
            // biased to what can be a formula
            (0..k).map(|_| if t.chance(5, 6) { TOKS[t.below(33)] } else { *t.pick(TOKS) }).collect::<Vec<_>>().join(sp)
        }
        1 => {
            let (_, f) = *t.pick(formula::REAL);
            let mut cs: Vec<char> = f.chars().collect();
            for _ in 0..t.range(1, 3) {
                let k = t.below(cs.len().max(1));
                match t.below(4) {
                    0 if !cs.is_empty() => {
                        cs.remove(k);
                    }
                    1 => {
                        let tok = *t.pick(TOKS);
                        let at = k.min(cs.len());
                        cs.splice(at..at, tok.chars());
                    }
                    2 if cs.len() > 1 => {
                        let j = t.below(cs.len());
                        cs.swap(k, j);
                    }
                    _ => {
                        let j = t.range(0, 4).min(cs.len() - k.min(cs.len()));
                        cs.drain(k.min(cs.len())..k.min(cs.len()) + j);
                    }
                }
            }
            cs.into_iter().collect()
        }
        _ => {
            let depth = t.range(0, 6);
            let a = formula::gen(t, cx.d, depth);
            formula::render(&a, t, &Style { free: true })
        }
    };
    let s: String = s.replace([';', '\n'], " ").trim().to_string();
    if s.len() > 3500 {
        return Ok(());
    }
    let n: u64 = match t.below(4) {
        0 => u64::MAX,
        1 => 1,
        _ => t.range(1, 7) as u64,
    };
    let text = po(&format!("nplurals={n}; plural={s};"), 1);
    cx.case(text.as_bytes(), s.len() > 4);
    let r = formula::parse(&s);
    let u = unit_of(&text);
    match &r {
        Some(p) if p.exotic_unary || p.vague_not => cx.class("doubtful"),
        Some(_) => {
            cx.class("formula");
            if let Err(e) = &u {
                return Err(format!("formula `{s}` not accepted: {e}"));
            }
        }
        None => {
            cx.class("not-a-formula");
            ensure(u.is_err(), || format!("`{s}` accepted as a formula"))?;
        }
    }
    let Ok(u) = u else { return Ok(()) };
    let f = forms_of(&u)?;
    observe::diff("formula text", &s.as_str(), &f.get_formula())?;
    let mut counts: Vec<u64> = vec![0, 1, 2, 5, 10, 11, 100, u64::MAX, 1 << 63, (1 << 63) - 1, (1 << 63) + 1, u64::MAX - 1, 1 << 62, 1 << 32, 1 << 31];
    for _ in 0..12 {
        counts.push(t.u64() >> t.below(64));
    }
    for c in counts {
        let v = f.get_value(c as usize);
        ensure(v.map_or(true, |v| (v as u64) < n), || format!("`{s}` at {c}: form {v:?} of {n}"))?;
        let m = u.message();
        let tx = m.get_plural_text(c as usize);
        ensure(tx == v.and_then(|i| ["v0"].get(i).copied()), || format!("`{s}` at {c}: text {tx:?} for form {v:?}"))?;
        if let (Some(p), true) = (&r, c <= i64::MAX as u64) {
            if !p.exotic_unary && !p.vague_not {
                observe::diff(&format!("`{s}` at {c}"), &want(&p.ast, c, n), &v)?;
            }
        }
    }
    Ok(())
}
