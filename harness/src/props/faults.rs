//! C12: robustness.  C13: bounded work.  C14: I/O faults.  C24: truncation.

use super::*;
use crate::{
    alloc, gen,
    refparse::{self, End},
    render::{self, Layout},
};
use std::io::{self, Read};

pub static PROPS: &[Prop] = &[
    Prop {
        id: "C12",
        title: "Robustness on any bytes",
        rule: "arbitrary bytes, token soups, structurally mutated catalogues (also not UTF-8), hostile headers (deep or long formulas, huge numbers, odd languages), huge lines; the reader must not panic or abort, must end, yields nothing after the end or the first error, and every accessor of every unit works for extreme counts; non-trivial: at least 20 bytes",
        run: c12,
        quick: 14300,
        thorough: 572000,
        fixed: Some(c12_fixed),
        probes: &[],
    },
    Prop {
        id: "C13",
        title: "Bounded work",
        rule: "inputs with disproportionate numbers (nplurals up to 2^64-1, huge indices and constants), many continuations, comments, blank lines or flags, nested parentheses: allocations, allocated bytes and read calls are bounded by a linear function of the input size (measured by a counting allocator; going over the cap aborts); non-trivial: over 200 bytes or nplurals over 1000",
        run: c13,
        quick: 7200,
        thorough: 288000,
        fixed: Some(c13_fixed),
        probes: &[],
    },
    Prop {
        id: "C14",
        title: "I/O faults",
        rule: "a source that fails at a random byte offset with a random kind of error (or holds invalid UTF-8 there), in random chunk sizes, followed by more data, failures or end: complete entries before it are delivered, then exactly that error once, then the end; non-trivial: at least one complete entry before the fault",
        run: c14,
        quick: 40800,
        thorough: 1632000,
        fixed: Some(super::giants::c14),
        probes: &[],
    },
    Prop {
        id: "C24",
        title: "Truncation",
        rule: "every byte-length prefix (small files) or 24 random prefixes of a well-formed file: the units read are the original ones in order, only the last may have shorter strings or fewer variants, and against the reference grammar; non-trivial: the cut is inside an entry",
        run: c24,
        quick: 800,
        thorough: 32000,
        fixed: Some(super::giants::c24),
        probes: &[],
    },
];

/// Gives `data`, then fails.
pub struct Failing<'a> {
    pub data: &'a [u8],
    pub pos: usize,
    pub kind: io::ErrorKind,
    pub code: Option<i32>,
    /// what comes after the failure: 0 more failures, 1 end of file, 2 a well-formed entry
    pub after: usize,
}

pub const TEXT: &str = "the disk is on fire";

impl<'a> Read for Failing<'a> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if self.pos < self.data.len() {
            let n = buf.len().min(self.data.len() - self.pos);
            buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
            self.pos += n;
            return Ok(n);
        }
        self.pos += 1;
        let k = self.pos - self.data.len();
        if k == 1 || self.after == 0 {
            return Err(match self.code {
                Some(c) => io::Error::from_raw_os_error(c),
                None => io::Error::new(self.kind, TEXT),
            });
        }
        if self.after == 2 && k == 2 {
            let x = b"\n\nmsgid \"ghost\"\nmsgstr \"ghost\"\n";
            let n = buf.len().min(x.len());
            buf[..n].copy_from_slice(&x[..n]);
            return Ok(n);
        }
        Ok(0)
    }
}

fn soup(t: &mut Tape, cx: &Cx) -> Vec<u8> {
    const S: &[&str] = &[
        "msgid", "msgstr", "msgctxt", "msgid_plural", "msgstr[0]", "msgstr[1]", "msgstr[", "]", "\"", "\"x\"", "\"\"", " ", "\n", "\n", "\n\n",
        "\r\n", "\r", "#", "# ", "#~", "#|", "#~|", "#,", "#:", "#.", "\\", "\\n", "\\\"", "fuzzy", "Plural-Forms: ", "nplurals=", "plural=", ";",
        "n", "?", ":", "0", "1", "18446744073709551615", "9223372036854775808", "-", "(", ")", "&&", "||", "==", "!=", "<", ">", "%", "+", "*", "/", "!",
        "Language: ", "fr", "@", "_", ".", "\u{212a}", "é", "\0", "\t", "\u{feff}", "\u{2028}", ",", "=", "x",
    ];
    let n = t.range(0, 120);
    let mut b = vec![];
    for _ in 0..n {
        if t.chance(1, 30) {
            b.push(t.below(256) as u8);
        } else if t.chance(1, 20) && !cx.d.fresh_strings.is_empty() {
            b.extend(t.pick(&cx.d.fresh_strings).bytes());
        } else {
            b.extend(t.pick(S).bytes());
        }
    }
    b
}

fn hostile_header(t: &mut Tape, cx: &Cx) -> String {
    let rep = |t: &mut Tape| match t.weighted(&[6, 3, 1]) {
        0 => t.range(0, 60),
        1 => t.range(60, 1200),
        _ => *t.pick(&[2000, 4000, 20000, 60000]),
    };
    let f = match t.below(12) {
        0 => format!("n{}", "+n".repeat(rep(t))),
        1 => {
            let k = rep(t);
            format!("{}n{}", "(".repeat(k), ")".repeat(k))
        }
        2 => format!("{}n", "n?0:".repeat(rep(t))),
        3 => {
            let k = rep(t);
            format!("{}0{}", "n?".repeat(k), ":1".repeat(k))
        }
        4 => format!("n{}", "||n".repeat(rep(t))),
        5 => {
            let k = rep(t);
            format!("{}n{}", "(-".repeat(k), ")".repeat(k))
        }
        6 => {
            let k = rep(t);
            format!("{}n{}", "!(".repeat(k), ")".repeat(k))
        }
        7 => t.pick(&["-n", "n*n*n", "n/0", "n%0", "0/0", "-n/-1", "n%-1", "(-9223372036854775807-1)/-1", "-(-9223372036854775807-1)", "9223372036854775807+n", "n-9223372036854775807-9"]).to_string(),
        8 => format!("n{}", "==n".repeat(rep(t))),
        9 => "9".repeat(rep(t)),
        10 => soup(t, cx).iter().map(|b| *b as char).filter(|c| *c != '\n').collect(),
        _ => {
            let depth = t.range(0, 7);
            let a = crate::formula::gen(t, cx.d, depth);
            crate::formula::render(&a, t, &crate::formula::Style { free: true })
        }
    };
    let np = *t.pick(&["1", "2", "3", "0", "18446744073709551615", "18446744073709551616", "-1", "4294967296", "", "9223372036854775807", "1e9", " 2 ", "٣"]);
    let lang = gen::language(t, cx.d);
    let h = format!("Language: {lang}\nPlural-Forms: nplurals={np}; plural={f};\n");
    let e = render::escape(&h, false, &mut Tape::new(&[]));
    format!("msgid \"\"\nmsgstr \"{e}\"\n\nmsgid \"i\"\nmsgid_plural \"p\"\nmsgstr[0] \"a\"\nmsgstr[1] \"b\"\nmsgid \"z\"\nmsgstr \"y\"\n")
}

const EXTREME: &[u64] = &[0, 1, 2, 10, 1 << 31, 1 << 32, (1 << 63) - 1, 1 << 63, (1 << 63) + 1, u64::MAX - 1, u64::MAX];

/// Reads everything and calls everything.
fn exercise(b: &[u8], extra: &[u64]) -> Result<(usize, bool), String> {
    let p = observe::parser();
    let o = observe::read(&p, b, b.iter().filter(|c| **c == b'\n').count() + 2)?;
    if let Ok(r) = p.parse(b) {
        for u in r.flatten() {
            for m in [u.message(), u.prev_message()] {
                for n in EXTREME.iter().chain(extra) {
                    let x = m.get_plural_text(*n as usize);
                    if let Some(p) = m.plural() {
                        ensure(p.get(*n as usize) == x, || "get and get_plural_text differ".into())?;
                        if let Some(f) = p.get_forms() {
                            let v = f.get_value(*n as usize);
                            ensure(v.map_or(true, |v| v < f.get_count()), || format!("form {v:?} of {}", f.get_count()))?;
                        }
                    }
                }
            }
            let _ = (format!("{u:?}"), u.clone());
        }
    }
    Ok((o.units.len(), o.error.is_some()))
}

fn c12_fixed(i: usize, cx: &mut Cx) -> Option<Res> {
    let head = |f: &str| format!("msgid \"\"\nmsgstr \"Plural-Forms: nplurals=2; plural={f};\\n\"\n\nmsgid \"i\"\nmsgid_plural \"p\"\nmsgstr[0] \"a\"\nmsgstr[1] \"b\"\n");
    let texts: Vec<Vec<u8>> = match i {
        // depth: sizes at which a recursive evaluator would use up the stack
        0..=7 => {
            let k = [300usize, 1000, 3000, 10_000, 40_000, 120_000, 300_000, 600_000][i];
            let mut v = vec![
                head(&format!("n{}", "+n".repeat(k))),
                head(&format!("n{}", "-1".repeat(k))),
                head(&format!("{}n", "n?0:".repeat(k / 2))),
            ];
            if k <= 120_000 {
                v.push(head(&format!("{}n{}", "(".repeat(k / 2), ")".repeat(k / 2))));
                v.push(head(&format!("{}n{}", "(-".repeat(k / 3), ")".repeat(k / 3))));
            }
            v.into_iter().map(String::into_bytes).collect()
        }
        8 => vec![vec![], b"\n".to_vec(), b"\r".to_vec(), b"\"".to_vec(), b"#".to_vec(), b"\xff".to_vec(), b"\xef\xbb\xbf".to_vec(), vec![0; 70_000]],
        9 => vec![
            [b"msgid \"".to_vec(), vec![b'a'; 3_000_000], b"\"\nmsgstr \"x\"\n".to_vec()].concat(),
            [b"# ".to_vec(), vec![b'"'; 300_000]].concat(),
            [b"msgid \"a\"\nmsgstr \"\"\n".to_vec(), b"\"x\"\n".repeat(100_000)].concat(),
            [b"#, ".to_vec(), b"a,".repeat(100_000), b"\nmsgid \"a\"\nmsgstr \"b\"\n".to_vec()].concat(),
            b"\n".repeat(200_000),
            b"# c\n".repeat(100_000),
            b"#~ msgid \"a\"\n".repeat(20_000),
            b"msgid \"a\"\nmsgstr \"b\"\n".repeat(30_000),
        ],
        _ => return None,
    };
    // deep cases are run on a thread with the stack Rust gives to threads
    let all = texts.concat();
    cx.class("fixed-hostile");
    cx.case(&all[..all.len().min(4000)], true);
    cx.input = all[..all.len().min(2000)].to_vec();
    let h = std::thread::Builder::new().stack_size(2 << 20).spawn(move || {
        for x in &texts {
            exercise(x, &[])?;
        }
        Ok(())
    });
    Some(match h.unwrap().join() {
        Ok(r) => r,
        Err(e) => Err(format!("panic: {:?}", e.downcast_ref::<String>())),
    })
}

fn c12(t: &mut Tape, cx: &mut Cx) -> Res {
    let b: Vec<u8> = match t.weighted(&[2, 3, 8, 4]) {
        0 => {
            cx.class("bytes");
            (0..t.range(0, 300)).map(|_| t.below(256) as u8).collect()
        }
        1 => {
            cx.class("soup");
            soup(t, cx)
        }
        2 => {
            cx.class("mutated");
            let mut m = t.tail(40);
            let (_, s, _) = some_text(t, cx, &gen::CFG);
            mutate(s.into_bytes(), &mut m, cx)
        }
        _ => {
            cx.class("hostile-header");
            hostile_header(t, cx).into_bytes()
        }
    };
    cx.case(&b, b.len() >= 20);
    let extra: Vec<u64> = (0..6).map(|_| t.u64() >> t.below(64)).collect();
    let (n, e) = exercise(&b, &extra)?;
    cx.class_if(n > 0, "units-read");
    cx.class_if(e, "error-reported");
    Ok(())
}

use super::malformed::mutate;

fn c13(t: &mut Tape, cx: &mut Cx) -> Res {
    let mut big_np = false;
    let text: String = match t.below(7) {
        0 | 1 => {
            cx.class("huge-nplurals");
            let np = match t.below(4) {
                0 => u64::MAX,
                1 => i64::MAX as u64,
                2 => 10u64.pow(3 + t.below(16) as u32),
                _ => t.u64() >> t.below(54),
            };
            big_np = np > 1000;
            let mut s = format!("msgid \"\"\nmsgstr \"Plural-Forms: nplurals={np}; plural={};\\n\"\n\n", t.pick(&["n", "n>1", "0", "n%1000000"]));
            for k in 0..t.range(1, 6) {
                s += &format!("{}msgid \"i{k}\"\nmsgid_plural \"p\"\n", if t.chance(1, 3) { "#| msgid \"o\"\n#| msgid_plural \"os\"\n" } else { "" });
                for i in 0..t.range(1, 5) {
                    s += &format!("msgstr[{i}] \"v\"\n");
                }
            }
            s
        }
        2 => {
            cx.class("huge-index");
            let i = *t.pick(&["1000000", "4294967296", "18446744073709551615", "99999999999999999999999"]);
            format!("msgid \"i\"\nmsgid_plural \"p\"\nmsgstr[{i}] \"v\"\n")
        }
        3 => {
            cx.class("many-lines");
            let line = *t.pick(&["\"x\"\n", "\"\"\n", "\n", " \t \n", "\"\\n\"\n"]);
            let k = t.range(1, 6000);
            format!("msgid \"a\"\nmsgstr \"\"\n{}\nmsgid \"b\"\nmsgstr \"c\"\n", line.repeat(k))
        }
        4 => {
            cx.class("many-comments");
            let line = *t.pick(&["# x\n", "#, a, b, c\n", "#: a:1 b:2\n", "#. y\n", "#$ z\n", "#\n"]);
            let k = t.range(1, 6000);
            format!("{}msgid \"a\"\nmsgstr \"b\"\n", line.repeat(k))
        }
        5 => {
            cx.class("many-entries");
            let k = t.range(1, 1500);
            (0..k).map(|i| format!("msgid \"{i}\"\nmsgid_plural \"p\"\nmsgstr[0] \"x\"\n\n")).collect()
        }
        _ => {
            cx.class("hostile-header");
            hostile_header(t, cx)
        }
    };
    cx.case(text.as_bytes(), text.len() > 200 || big_np);
    // warm up lazily built state of this thread (regex caches, parser)
    let p = observe::parser();
    exercise(b"msgid \"\"\nmsgstr \"Language: fr\\nPlural-Forms: nplurals=2; plural=n>1;\\n\"\n\nmsgid \"a\"\nmsgid_plural \"b\"\nmsgstr[0] \"c\"\n", &[])?;
    let len = text.len() as u64;
    let max_count = 20_000 + 40 * len;
    let max_bytes = 16_000_000 + 4_000 * len;
    let lines = text.bytes().filter(|b| *b == b'\n').count() as u64 + 1;
    let mut src = super::relations::Chunky { data: text.as_bytes(), pos: 0, sizes: vec![4096], k: 0, reads: 0 };
    let (r, count, bytes) = alloc::measured(max_count * 4, max_bytes * 4, || -> Result<(u64, u64), String> {
        let (mut n, mut chars) = (0u64, 0u64);
        let rd = match p.parse(&mut src) {
            Ok(r) => r,
            Err(_) => return Ok((0, 0)),
        };
        for u in rd {
            n += 1;
            if n > lines {
                return Err("more units than lines".into());
            }
            if let Ok(u) = u {
                for m in [u.message(), u.prev_message()] {
                    for k in EXTREME {
                        let _ = m.get_plural_text(*k as usize);
                    }
                    chars += m.get_id().len() as u64;
                    if let Some(p) = m.plural() {
                        chars += p.values().iter().map(|v| v.len() as u64 + 1).sum::<u64>();
                    }
                }
            }
        }
        Ok((n, chars))
    });
    let (_, chars) = r?;
    ensure(count <= max_count, || format!("{count} allocations for {len} bytes of input"))?;
    ensure(bytes <= max_bytes, || format!("{bytes} bytes allocated for {len} bytes of input"))?;
    ensure(chars <= 2 * len, || format!("{chars} bytes of text from {len} bytes of input"))?;
    ensure(src.reads as u64 <= len / 4096 + 8, || format!("{} read calls for {len} bytes", src.reads))?;
    Ok(())
}

fn esc_header(lines: &str) -> String {
    format!("msgid \"\"\nmsgstr \"\"\n{lines}\n")
}

const TAIL: &str = "msgid \"z\"\nmsgstr \"y\"\n";
const SHAPES: usize = 48;

/// Files of `k` equal or similar parts.
fn shape(i: usize, k: usize) -> String {
    let rep = |f: &dyn Fn(usize) -> String| (0..k).map(f).collect::<String>();
    match i {
        0 => rep(&|j| format!("msgid \"m{j}\"\nmsgstr \"t{j}\"\n\n")),
        1 => "msgid \"m\"\nmsgstr \"t\"\n\n".repeat(k),
        2 => rep(&|j| format!("#~ msgid \"m{j}\"\n#~ msgstr \"t\"\n\n")),
        3 => rep(&|j| format!("msgctxt \"c{j}\"\nmsgid \"m\"\nmsgid_plural \"ms\"\nmsgstr[0] \"a{j}\"\nmsgstr[1] \"b\"\n\n")),
        4 => rep(&|j| format!("#, fuzzy\n#| msgid \"o{j}\"\n#| \"x\"\nmsgid \"m{j}\"\nmsgstr \"t\"\n\n")),
        5 => rep(&|j| format!("# n{j}\n#: a.c:{j}\n#. d\n#, f{j}\n#$ x\nmsgid \"m{j}\"\nmsgstr \"\"\n\n")),
        6 => format!("msgid \"m\"\nmsgstr \"\"\n{}\n{TAIL}", "\"x\"\n".repeat(k)),
        7 => format!("msgid \"m\"\nmsgstr \"\"\n{}\n{TAIL}", "\"a longer line of text, with a line end\\n\"\n".repeat(k)),
        8 => format!("msgid \"\"\n\"x\"\n{}msgstr \"t\"\n\n{TAIL}", "\"y\"\n".repeat(k)),
        9 => format!("msgctxt \"\"\n{}msgid \"m\"\nmsgstr \"t\"\n\n{TAIL}", "\"y\"\n".repeat(k)),
        10 => format!("#| msgid \"\"\n{}msgid \"m\"\nmsgstr \"t\"\n\n{TAIL}", "#| \"y\"\n".repeat(k)),
        11 => format!("#~ msgid \"m\"\n#~ msgstr \"\"\n{}\n{TAIL}", "#~ \"y\"\n".repeat(k)),
        12 => format!("msgid \"m\"\nmsgstr \"{}\"\n\n{TAIL}", "\\n\\\\\\\"".repeat(k)),
        13 => format!("msgid \"m\"\nmsgstr \"{}\"\n\n{TAIL}", "x".repeat(4 * k)),
        14 => format!("msgid \"m\"\nmsgstr \"{}\"\n\n{TAIL}", "é日".repeat(k)),
        15 => format!("{}{TAIL}", "# n\n".repeat(k)),
        16 => format!("{}{TAIL}", rep(&|j| format!("# n{j}\n"))),
        17 => format!("{}{TAIL}", rep(&|j| format!("#. n{j}\n"))),
        18 => format!("{}{TAIL}", rep(&|j| format!("#, f{j}\n"))),
        19 => format!("{}{TAIL}", "#, fuzzy\n".repeat(k)),
        20 => format!("#, {}\n{TAIL}", rep(&|j| format!("f{j},"))),
        21 => format!("#: {}\n{TAIL}", rep(&|j| format!("a.c:{j} "))),
        22 => format!("{}{TAIL}", rep(&|j| format!("#: a.c:{j}\n"))),
        23 => format!("{}{TAIL}", "#: a.c:1\n".repeat(k)),
        24 => format!("{}{TAIL}", rep(&|j| format!("#= x{j}\n"))),
        25 => format!("{TAIL}\n{}", rep(&|j| format!("# n{j}\n"))),
        26 => format!("{}{TAIL}", "\n".repeat(4 * k)),
        27 => format!("{}{TAIL}", " \t\r\n".repeat(2 * k)),
        28 => format!("{}{TAIL}{}\n", " ".repeat(4 * k), "\t".repeat(2 * k)),
        29 => format!("msgid{}\"a\"{}\nmsgstr \"b\"\n", " ".repeat(4 * k), " ".repeat(4 * k)),
        30 => format!("{}{TAIL}", esc_header(&rep(&|j| format!("\"X-K{j}: v\\n\"\n")))),
        31 => format!("{}{TAIL}", esc_header(&"\"X-K: v\\n\"\n".repeat(k))),
        32 => format!("{}{TAIL}", esc_header(&"\"junk\\n\"\n".repeat(k))),
        33 => format!("{}{TAIL}", esc_header(&format!("\"X: {}\"\n", "a: ".repeat(2 * k)))),
        34 => format!("{}{}{TAIL}", rep(&|j| format!("# h{j}\n#$ c{j}\n")), esc_header("\"X: v\\n\"\n")),
        35 => format!(
            "{}msgid \"m\"\nmsgid_plural \"p\"\n{}\n{TAIL}",
            esc_header(&format!("\"Plural-Forms: nplurals={}; plural=n;\\n\"\n", k + 1)),
            rep(&|j| format!("msgstr[{j}] \"v\"\n"))
        ),
        36 => format!("{}{TAIL}", esc_header(&format!("\"Plural-Forms: nplurals=2; plural=n>1;{}\\n\"\n", rep(&|j| format!(" x{j}=1;"))))),
        37 => format!("{}{TAIL}", esc_header(&format!("\"Plural-Forms: nplurals=2;{}plural=n>1;\\n\"\n", " ".repeat(4 * k)))),
        38 => format!("{}{TAIL}", esc_header(&format!("\"Plural-Forms: {}\\n\"\n", "=".repeat(4 * k)))),
        39 => format!("{}{TAIL}", esc_header(&format!("\"Plural-Forms: {}\\n\"\n", "a= ".repeat(2 * k)))),
        40 => format!("{}{TAIL}", esc_header(&format!("\"Language: {}\\n\"\n", "fr".repeat(2 * k)))),
        41 => format!("# {}\n{TAIL}", "\"msgid ".repeat(k)),
        42 => format!("{TAIL}\n{}\n", "garbage ".repeat(k)),
        43 => format!("{TAIL}\nmsgid \"{}\n", "a ".repeat(2 * k)),
        44 => format!("{TAIL}\nmsgid \"{}\"\n", "\\".repeat(4 * k + 1)),
        45 => format!("{}msgid \"\"\nmsgstr \"\"\n", "msgid \"m\"\nmsgstr \"t\"\n\n".repeat(k)),
        46 => format!("{}{TAIL}", esc_header(&format!("\"Plural-Forms: nplurals=2; plural={};\\n\"\n", "n+".repeat(2 * k)))),
        _ => format!("{}msgid \"m\"\nmsgid_plural \"p\"\nmsgstr[0] \"\"\n{}\n{TAIL}", "#~| msgid \"o\"\n".repeat(0), "\"piece \"\n".repeat(k)),
    }
}

fn cpu_ns() -> u64 {
    #[repr(C)]
    struct Ts {
        s: i64,
        n: i64,
    }
    extern "C" {
        fn clock_gettime(id: i32, t: *mut Ts) -> i32;
    }
    let mut t = Ts { s: 0, n: 0 };
    // CLOCK_THREAD_CPUTIME_ID
    unsafe { clock_gettime(3, &mut t) };
    t.s as u64 * 1_000_000_000 + t.n as u64
}

/// (CPU nanoseconds, allocations, bytes) of reading a text.
fn cost(text: &str) -> (u64, u64, u64) {
    let p = observe::parser();
    let t0 = cpu_ns();
    let ((), n, b) = alloc::measured(u64::MAX, u64::MAX, || {
        if let Ok(r) = p.parse(text.as_bytes()) {
            for u in r {
                if let Ok(u) = u {
                    let _ = (u.message().get_plural_text(1), u.is_translated(), u.clone());
                }
            }
        }
    });
    (cpu_ns() - t0, n, b)
}

/// The same file with other numbers in it costs the same.
fn numbers(i: usize, cx: &mut Cx) -> Res {
    cx.class("other-numbers");
    let entry = "#| msgid \"o\"\n#| msgid_plural \"os\"\nmsgid \"i\"\nmsgid_plural \"p\"\nmsgstr[0] \"v\"\nmsgstr[1] \"w\"\n\n".repeat(20);
    let file = |n: &str| match i {
        0 => format!("{}{entry}", esc_header(&format!("\"Plural-Forms: nplurals={n:>20}; plural=n>1;\\n\"\n"))),
        1 => format!("{}{entry}", esc_header(&format!("\"Plural-Forms: nplurals=3; plural=n%{n:>20};\\n\"\n"))),
        2 => format!("{}{entry}", esc_header(&format!("\"Plural-Forms: nplurals={n:>20}; plural={n:>20};\\n\"\n"))),
        _ => format!("{}{entry}#: a.c:{n:>20}\n#, range: 0..{n:>20}\n{TAIL}", esc_header("\"X: 1\\n\"\n")),
    };
    let small = file("3");
    cx.case(small.as_bytes(), true);
    for n in ["100", "1000", "4096", "65535", "65536", "1000000", "4294967295", "4294967296", "1000000000000", "9223372036854775807", "18446744073709551615"] {
        if i > 0 && n.len() == 20 {
            continue;
        }
        let large = file(n);
        // what is asked for only at the first time is not counted
        for s in [&small, &large] {
            alloc::measured(u64::MAX, 4_000_000_000, || cost(s));
        }
        let ((_, ns, bs), (_, nl, bl)) = (cost(&small), cost(&large));
        ensure(nl <= ns + ns / 4 + 300, || format!("{ns} allocations with 3, {nl} with {n} in its place"))?;
        ensure(bl <= bs + bs / 4 + 60_000, || format!("{bs} bytes allocated with 3, {bl} with {n} in its place"))?;
        if std::env::var("PBT_COST").is_ok() {
            eprintln!("numbers {i}, {n}: {ns} -> {nl}, {bs} -> {bl}");
        }
    }
    Ok(())
}

/// Growth: sixteen times the input must not cost much more than sixteen times the work.
fn c13_fixed(i: usize, cx: &mut Cx) -> Option<Res> {
    if i >= SHAPES + 4 {
        return None;
    }
    if i >= SHAPES {
        return Some(numbers(i - SHAPES, cx));
    }
    const K: usize = 1500;
    let (small, large) = (shape(i, K), shape(i, 16 * K));
    cx.class("growth");
    cx.case(format!("shape {i}: {}", &large[..large.char_indices().nth(300).map_or(large.len(), |x| x.0)]).as_bytes(), true);
    let _ = cost(&small);
    let (mut ts, ns, bs) = cost(&small);
    let (mut tl, nl, bl) = cost(&large);
    let r = || -> Res {
        ensure(nl <= 24 * ns + 2000, || format!("shape {i}: {ns} allocations for {} bytes, {nl} for {}", small.len(), large.len()))?;
        ensure(bl <= 24 * bs + 1_000_000, || format!("shape {i}: {bs} bytes allocated for {} bytes, {bl} for {}", small.len(), large.len()))?;
        // time: only a clear excess that shows again and again
        for _ in 0..4 {
            if tl <= 64 * ts + 150_000_000 {
                return Ok(());
            }
            ts = ts.max(cost(&small).0);
            tl = tl.min(cost(&large).0);
        }
        Err(format!("shape {i}: {ts} ns for {} bytes, {tl} ns for {}", small.len(), large.len()))
    };
    let mut r = r;
    let out = r();
    if std::env::var("PBT_COST").is_ok() {
        eprintln!("shape {i}: {} -> {} bytes, {ts} -> {tl} ns ({}x), {ns} -> {nl}, {bs} -> {bl}", small.len(), large.len(), tl / ts.max(1));
    }
    Some(out)
}

fn c14(t: &mut Tape, cx: &mut Cx) -> Res {
    let mut m = t.tail(40);
    let (_, s, _) = some_text(t, cx, &gen::CFG);
    let t = &mut m;
    let b = s.as_bytes();
    let mut at = t.below(b.len() + 1);
    if t.chance(1, 4) {
        // just after a line
        let nl: Vec<usize> = b.iter().enumerate().filter(|x| *x.1 == b'\n').map(|x| x.0 + 1).collect();
        if !nl.is_empty() {
            at = *t.pick(&nl);
        }
    }
    let utf8 = t.chance(1, 3);
    while utf8 && !s.is_char_boundary(at) {
        at -= 1;
    }
    let start = b[..at].iter().rposition(|c| *c == b'\n').map_or(0, |i| i + 1);
    let line = b[..start].iter().filter(|c| **c == b'\n').count() + 1;
    // the reference: what stands before the broken line, then a line that cannot be read
    let r = refparse::parse(&format!("{}!\n", &s[..start]));
    const KINDS: &[io::ErrorKind] = &[
        io::ErrorKind::Other,
        io::ErrorKind::PermissionDenied,
        io::ErrorKind::UnexpectedEof,
        io::ErrorKind::TimedOut,
        io::ErrorKind::WouldBlock,
        io::ErrorKind::InvalidData,
        io::ErrorKind::BrokenPipe,
        io::ErrorKind::ConnectionReset,
        io::ErrorKind::NotFound,
        io::ErrorKind::OutOfMemory,
        io::ErrorKind::InvalidInput,
        io::ErrorKind::WriteZero,
    ];
    let kind = *t.pick(KINDS);
    let code = if t.chance(1, 4) { Some(*t.pick(&[5, 13, 2, 28, 110])) } else { None };
    let p = observe::parser();
    let max = b.len() + 8;
    let (o, data) = if utf8 {
        cx.class("invalid-utf8");
        let bad: &[u8] = *t.pick(&[&b"\xff"[..], b"\x80", b"\xc3", b"\xe2\x82", b"\xf0\x9f\x98", b"\xed\xa0\x80", b"\xc0\xaf", b"\xfe\xff"]);
        let mut data = b[..at].to_vec();
        data.extend(bad);
        // a lone lead byte stays invalid whatever ASCII follows
        if s[at..].chars().next().map_or(false, |c| !c.is_ascii()) {
            data.push(b'x');
        }
        data.extend(&b[at..]);
        (observe::read(&p, &data[..], max)?, data)
    } else {
        cx.class("read-failure");
        let after = t.below(3);
        let sz = super::relations::sizes(t);
        let f = Failing { data: &b[..at], pos: 0, kind, code, after };
        let o = if t.chance(1, 2) {
            observe::read(&p, f, max)?
        } else {
            cx.class("chunked");
            observe::read(&p, ChunkedFail { f, sizes: sz, k: 0 }, max)?
        };
        (o, b[..at].to_vec())
    };
    cx.class_if(!r.units.is_empty(), "units-before");
    cx.class_if(matches!(r.end, End::Vague), "vague");
    cx.case(&data, !r.units.is_empty());
    cx.note(format!("fault at byte {at} (line {line}), kind {kind:?}"));
    let e = match &o.error {
        Some(e) if e.kind == ErrKind::Io => e,
        x => return Err(format!("the fault at byte {at} (line {line}) is not reported: {x:?}")),
    };
    observe::diff("line of the fault", &line, &e.line)?;
    let (k, c, m) = e.io.clone().unwrap();
    if utf8 {
        observe::diff("kind of error", &io::ErrorKind::InvalidData, &k)?;
    } else if let Some(x) = code {
        observe::diff("OS error", &Some(x), &c)?;
        observe::diff("text of the error", &io::Error::from_raw_os_error(x).to_string(), &m)?;
    } else {
        observe::diff("kind of error", &kind, &k)?;
        observe::diff("text of the error", &TEXT.to_string(), &m)?;
    }
    let n = r.units.len();
    if r.end == End::Vague {
        // what the open line means, and so what follows it, is not decided
        let k = if r.last_optional { n.saturating_sub(1) } else { n };
        ensure(o.units.len() >= k, || format!("{k} units expected, {} read", o.units.len()))?;
        return observe::diff_units(&r.units[..k], &o.units[..k]);
    }
    let want = if r.last_optional && o.units.len() + 1 == n { &r.units[..n - 1] } else { &r.units[..] };
    observe::diff_units(want, &o.units)?;
    if n > 0 && !o.at_open {
        observe::diff("header", &r.header, o.header.as_ref().unwrap())?;
    }
    Ok(())
}

pub struct ChunkedFail<'a> {
    pub f: Failing<'a>,
    pub sizes: Vec<usize>,
    pub k: usize,
}

impl<'a> Read for ChunkedFail<'a> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let n = self.sizes[self.k % self.sizes.len()];
        self.k += 1;
        if n == 0 {
            return Err(io::Error::new(io::ErrorKind::Interrupted, "again"));
        }
        let n = n.min(buf.len());
        self.f.read(&mut buf[..n])
    }
}

fn prefix_msg(orig: &ObsMsg, got: &ObsMsg) -> bool {
    if orig.plural != got.plural || orig.id != got.id || orig.plural_id != got.plural_id {
        return false;
    }
    match (&orig.values, &got.values) {
        (Some(a), Some(b)) => {
            !b.is_empty() && b.len() <= a.len() && b.iter().enumerate().all(|(i, x)| if i + 1 == b.len() { a[i].starts_with(x.as_str()) } else { a[i] == *x })
        }
        _ => orig.text.starts_with(&got.text),
    }
}

fn c24(t: &mut Tape, cx: &mut Cx) -> Res {
    let mut m = t.tail(100);
    let mut c = gen::catalogue(t, cx.d, &gen::Cfg { max_entries: 4, spikes: false });
    let t = &mut m;
    if c.header.is_none() && c.plural.is_none() && c.entries.is_empty() {
        let e = gen::entry(t, cx.d, 2);
        c.entries.push(e);
    }
    let l = Layout::draw(t);
    let (s, spans) = render::catalogue(&c, l, t);
    let b = s.as_bytes();
    let all = b.len() <= 500;
    cx.class_if(all, "every-prefix");
    cx.case(b, !spans.is_empty());
    let full = read(&s)?;
    observe::expect(&c, &full)?;
    let cuts: Vec<usize> = if all {
        (0..b.len()).collect()
    } else {
        (0..24)
            .map(|_| match t.below(3) {
                0 if !spans.is_empty() => t.pick(&spans).end.min(b.len()).saturating_sub(t.below(3)),
                _ => t.below(b.len()),
            })
            .collect()
    };
    let header_end = spans.first().map_or(b.len(), |s| s.start);
    for cut in cuts {
        let o = observe::read_bytes(&b[..cut])?;
        let n = o.units.len();
        ensure(n <= c.entries.len(), || format!("cut at {cut}: more units than entries"))?;
        if cut >= header_end || c.header.is_none() {
            for (i, u) in o.units.iter().enumerate() {
                let f = &full.units[i];
                if u != f {
                    let mut v = u.clone();
                    v.msg = f.msg.clone();
                    v.state = f.state;
                    v.translated = f.translated;
                    ensure(i + 1 == n && v == *f && prefix_msg(&f.msg, &u.msg), || format!("cut at {cut}: unit {i} is {u:?}, original {f:?}"))?;
                    cx.class("shortened-last");
                }
            }
            // whole entries before the cut are all there
            let whole = spans.iter().filter(|sp| sp.end <= cut).count();
            let lost = o.error.is_some() as usize;
            ensure(n + lost >= whole, || format!("cut at {cut}: {n} units of {whole} whole entries"))?;
        }
        match std::str::from_utf8(&b[..cut]) {
            Ok(x) => refparse::agree(&refparse::parse(x), &o).map_err(|m| format!("cut at {cut}: {m}"))?,
            Err(_) => {
                cx.class("cut-inside-character");
                ensure(o.error.as_ref().map_or(false, |e| e.kind == ErrKind::Io), || format!("cut at {cut}: broken character not reported"))?;
            }
        }
    }
    Ok(())
}
