//! Reference resolution of the `Language` header: an RFC 4647 language range with canonical case,
//! else a Unix locale name, else the invariant locale (empty).  Written from the documentation of
//! the two notations, independently of the library's code path.

fn alpha(s: &str) -> bool {
    !s.is_empty() && s.bytes().all(|b| b.is_ascii_alphabetic())
}
fn alnum(s: &str) -> bool {
    !s.is_empty() && s.bytes().all(|b| b.is_ascii_alphanumeric())
}
fn digits(s: &str) -> bool {
    !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit())
}

pub fn resolve(l: &str) -> String {
    range(l).or_else(|| unix(l)).unwrap_or_default()
}

/// RFC 4647 language range, case-normalised.
pub fn range(l: &str) -> Option<String> {
    if l.is_empty() {
        return Some(String::new());
    }
    let parts: Vec<&str> = l.split('-').collect();
    let first = parts[0];
    let ok_first = first == "*" || (alpha(first) && first.len() <= 8);
    let ok_rest = parts[1..].iter().all(|p| *p == "*" || (alnum(p) && p.len() <= 8));
    if !ok_first || !ok_rest {
        return None;
    }
    // language [- extlang{0,3}] [- script] [- region] rest*
    if !(first == "*" || (2..=3).contains(&first.len())) {
        return Some(l.to_ascii_lowercase());
    }
    let mut out = vec![first.to_ascii_lowercase()];
    let mut i = 1;
    if first != "*" {
        let mut ext = 0;
        while ext < 3 && i < parts.len() && parts[i].len() == 3 && alpha(parts[i]) {
            out.push(parts[i].to_ascii_lowercase());
            i += 1;
            ext += 1;
        }
    }
    if i < parts.len() && (parts[i] == "*" || (parts[i].len() == 4 && alpha(parts[i]))) {
        let p = parts[i];
        out.push(p[..1].to_ascii_uppercase() + &p[1..].to_ascii_lowercase());
        i += 1;
    }
    if i < parts.len()
        && (parts[i] == "*" || (parts[i].len() == 2 && alpha(parts[i])) || (parts[i].len() == 3 && digits(parts[i])))
    {
        out.push(parts[i].to_ascii_uppercase());
        i += 1;
    }
    for p in &parts[i..] {
        out.push(p.to_ascii_lowercase());
    }
    Some(out.join("-"))
}

/// Unix locale `lang[_REGION][.encoding][@variant]`, `C` or `POSIX`.
/// Only the part of the notation whose mapping is documented is decided here; other variants
/// become the `-u-va-` extension.
pub fn unix(l: &str) -> Option<String> {
    if !l.is_ascii() {
        return None;
    }
    let (rest, variant) = match l.split_once('@') {
        Some((a, b)) => (a, Some(b)),
        None => (l, None),
    };
    let (rest, enc) = match rest.split_once('.') {
        Some((a, b)) => (a, Some(b)),
        None => (rest, None),
    };
    if let Some(e) = enc {
        if e.is_empty() || e.len() > 20 || !e.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'-') {
            return None;
        }
    }
    if variant.is_none() && (rest.eq_ignore_ascii_case("c") || rest.eq_ignore_ascii_case("posix")) {
        return Some(String::new());
    }
    let (lang, region) = match rest.split_once('_') {
        Some((a, b)) => (a, Some(b)),
        None => (rest, None),
    };
    if !(2..=3).contains(&lang.len()) || !alpha(lang) {
        return None;
    }
    if let Some(r) = region {
        if !((r.len() == 2 && alpha(r)) || (r.len() == 3 && digits(r))) {
            return None;
        }
    }
    if let Some(v) = variant {
        if v.len() > 20 || !alnum(v) {
            return None;
        }
    }
    let mut lang = lang.to_ascii_lowercase();
    let v = variant.unwrap_or("").to_ascii_lowercase();
    let (mut script, mut var, mut uva) = ("", "", String::new());
    match v.as_str() {
        "" => (),
        "saaho" if lang == "aa" => lang = "ssy".into(),
        "arabic" => script = "Arab",
        "cyrl" | "cyrillic" => script = "Cyrl",
        "devanagari" => script = "Deva",
        "hebrew" => script = "Hebr",
        "iqtelif" | "latn" | "latin" => script = "Latn",
        "shaw" => script = "Shaw",
        "ijekavianlatin" => {
            script = "Latn";
            var = "ijekavsk";
        }
        "ije" | "ijekavian" => var = "ijekavsk",
        "valencia" => var = "valencia",
        "euro" => (),
        s => uva = s.chars().take(8).collect(),
    }
    let mut o = lang;
    if !script.is_empty() {
        o += "-";
        o += script;
    }
    if let Some(r) = region {
        o += "-";
        o += &r.to_ascii_uppercase();
    }
    if !var.is_empty() {
        o += "-";
        o += var;
    }
    if !uva.is_empty() {
        o += "-u-va-";
        o += &uva;
    }
    Some(o)
}
