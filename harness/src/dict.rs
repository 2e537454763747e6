//! Auto-dictionary, as fuzzers use it: literals found in the source of the code under test feed the
//! generators (never the oracles).  Literals which are not in the committed baseline list are
//! "fresh" and are tried more often.  An unreadable source tree just gives an empty dictionary.

use std::{collections::BTreeSet, fs, path::Path};

#[derive(Clone, Default, Debug)]
pub struct Dict {
    pub ints: Vec<u64>,
    pub fresh_ints: Vec<u64>,
    pub strings: Vec<String>,
    pub fresh_strings: Vec<String>,
    pub chars: Vec<char>,
    pub fresh_chars: Vec<char>,
}

const BASELINE: &str = include_str!("../dict_baseline.txt");

fn walk(dir: &Path, out: &mut Vec<String>) {
    let Ok(rd) = fs::read_dir(dir) else { return };
    let mut names: Vec<_> = rd.flatten().map(|e| e.path()).collect();
    names.sort();
    for p in names {
        if p.is_dir() {
            walk(&p, out);
        } else if p.extension().map_or(false, |e| e == "rs" || e == "lalrpop") {
            if let Ok(s) = fs::read_to_string(&p) {
                out.push(s);
            }
        }
    }
}

/// The part of a source file before its unit tests.
fn code_part(s: &str) -> &str {
    s.find("#[cfg(test)]").map_or(s, |i| &s[..i])
}

pub fn scan(text: &str) -> (BTreeSet<u64>, BTreeSet<String>, BTreeSet<char>) {
    let (mut ints, mut strings, mut chars) = (BTreeSet::new(), BTreeSet::new(), BTreeSet::new());
    let cs: Vec<char> = text.chars().collect();
    let mut i = 0;
    while i < cs.len() {
        let c = cs[i];
        if c == '/' && cs.get(i + 1) == Some(&'/') {
            while i < cs.len() && cs[i] != '\n' {
                i += 1;
            }
        } else if c == '"' {
            let mut s = String::new();
            i += 1;
            while i < cs.len() && cs[i] != '"' {
                if cs[i] == '\\' && i + 1 < cs.len() {
                    i += 1;
                    match cs[i] {
                        'n' => s.push('\n'),
                        't' => s.push('\t'),
                        'r' => s.push('\r'),
                        '0' => s.push('\0'),
                        'u' => {
                            let mut h = String::new();
                            if cs.get(i + 1) == Some(&'{') {
                                i += 2;
                                while i < cs.len() && cs[i] != '}' {
                                    h.push(cs[i]);
                                    i += 1;
                                }
                            }
                            if let Some(ch) = u32::from_str_radix(&h, 16).ok().and_then(char::from_u32) {
                                s.push(ch);
                            }
                        }
                        x => s.push(x),
                    }
                } else {
                    s.push(cs[i]);
                }
                i += 1;
            }
            i += 1;
            if !s.is_empty() && s.chars().count() <= 40 {
                strings.insert(s);
            }
        } else if c == '\'' {
            // char literal (or lifetime)
            if cs.get(i + 1) == Some(&'\\') {
                let mut j = i + 2;
                while j < cs.len() && cs[j] != '\'' && j < i + 14 {
                    j += 1;
                }
                let body: String = cs[(i + 2).min(cs.len())..j.min(cs.len())].iter().collect();
                let ch = match body.as_str() {
                    "n" => Some('\n'),
                    "t" => Some('\t'),
                    "r" => Some('\r'),
                    "0" => Some('\0'),
                    "\\" => Some('\\'),
                    "" => Some('\''),
                    b if b.starts_with("u{") => u32::from_str_radix(b[2..].trim_end_matches('}'), 16)
                        .ok()
                        .and_then(char::from_u32),
                    b if b.starts_with('x') => u32::from_str_radix(&b[1..], 16).ok().and_then(char::from_u32),
                    _ => None,
                };
                if let Some(ch) = ch {
                    chars.insert(ch);
                }
                i = j + 1;
            } else if cs.get(i + 2) == Some(&'\'') {
                chars.insert(cs[i + 1]);
                i += 3;
            } else {
                i += 1;
            }
        } else if c.is_ascii_digit() && (i == 0 || !(cs[i - 1].is_alphanumeric() || cs[i - 1] == '_')) {
            let mut j = i;
            let mut s = String::new();
            while j < cs.len() && (cs[j].is_ascii_alphanumeric() || cs[j] == '_') {
                if cs[j] != '_' {
                    s.push(cs[j]);
                }
                j += 1;
            }
            let s = s.to_ascii_lowercase();
            let mut s = s.as_str();
            for suf in ["usize", "isize", "u128", "i128", "u64", "i64", "u32", "i32", "u16", "i16", "u8", "i8"] {
                s = s.strip_suffix(suf).unwrap_or(s);
            }
            let v = if let Some(h) = s.strip_prefix("0x") {
                u64::from_str_radix(h, 16)
            } else if let Some(b) = s.strip_prefix("0b") {
                u64::from_str_radix(b, 2)
            } else {
                s.parse()
            };
            if let Ok(v) = v {
                ints.insert(v);
            }
            i = j;
        } else {
            i += 1;
        }
    }
    (ints, strings, chars)
}

pub fn scan_repo(root: &str) -> (BTreeSet<u64>, BTreeSet<String>, BTreeSet<char>) {
    let mut files = vec![];
    walk(&Path::new(root).join("src"), &mut files);
    let mut all = (BTreeSet::new(), BTreeSet::new(), BTreeSet::new());
    for f in &files {
        let (a, b, c) = scan(code_part(f));
        all.0.extend(a);
        all.1.extend(b);
        all.2.extend(c);
    }
    all
}

impl Dict {
    pub fn load(root: &str) -> Dict {
        let (ints, strings, chars) = scan_repo(root);
        let base: BTreeSet<&str> = BASELINE.lines().collect();
        let mut d = Dict::default();
        for v in ints {
            if base.contains(format!("i {v}").as_str()) {
                d.ints.push(v);
            } else {
                d.fresh_ints.push(v);
                // operands are often combined: neighbours and simple multiples help
            }
        }
        for s in strings {
            if base.contains(format!("s {s:?}").as_str()) {
                d.strings.push(s);
            } else {
                d.fresh_strings.push(s);
            }
        }
        for c in chars {
            if base.contains(format!("c {c:?}").as_str()) {
                d.chars.push(c);
            } else {
                d.fresh_chars.push(c);
            }
        }
        d
    }

    /// The baseline list for the current source (`pbt dict`).
    pub fn dump(root: &str) -> String {
        let (ints, strings, chars) = scan_repo(root);
        let mut o = String::new();
        for v in ints {
            o += &format!("i {v}\n");
        }
        for s in strings {
            o += &format!("s {s:?}\n");
        }
        for c in chars {
            o += &format!("c {c:?}\n");
        }
        o
    }
}
