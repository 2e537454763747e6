//! `pbt check <ID> --tier quick|thorough --seed N`, `pbt replay <file>`, `pbt dict`, `pbt list`

use pbt::{dict::Dict, engine, engine::Prop, props};
use std::{
    path::{Path, PathBuf},
    process::{exit, Command},
    time::{Duration, Instant},
};

#[global_allocator]
static A: pbt::alloc::Counting = pbt::alloc::Counting;

fn root() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()))
}
fn repo() -> String {
    std::env::var("VERIF_REPO").unwrap_or_else(|_| "/repo".into())
}
fn work() -> PathBuf {
    let p = root().join("work");
    let _ = std::fs::create_dir_all(&p);
    p
}
fn cur(id: &str, shard: u64) -> PathBuf {
    work().join(format!("cur-{id}-{shard}.bin"))
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            '\r' => o += "\\r",
            '\t' => o += "\\t",
            c if (c as u32) < 32 || c as u32 == 127 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o + "\""
}

struct Finding {
    key: String,
    text: String,
}

/// `open: property=<id> key=<key> <text>` lines of known_findings.txt
fn findings(id: &str) -> Vec<Finding> {
    let s = std::fs::read_to_string(root().join("known_findings.txt")).unwrap_or_default();
    s.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("open: ")?.strip_prefix(&format!("property={id} "))?;
            let l = l.strip_prefix("key=")?;
            let (k, t) = l.split_once(' ')?;
            Some(Finding { key: k.into(), text: t.into() })
        })
        .collect()
}

fn write_replay(p: &Prop, seed: u64, tier: &str, f: &engine::Failure) -> PathBuf {
    let dir = root().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{}.txt", p.id, seed));
    let tape = f.tape.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(",");
    let mut s = format!("property: {}\nseed: {seed}\ntier: {tier}\n", p.id);
    if let Some(i) = f.fixed {
        s += &format!("fixed: {i}\n");
    }
    s += &format!("tape: {tape}\nfailure: {}\n", f.message.replace('\n', "\\n"));
    if !f.extra.is_empty() {
        s += &format!("note: {}\n", f.extra.replace('\n', "\\n"));
    }
    s += "input (escaped):\n";
    for l in f.input.split_inclusive(|b| *b == b'\n').take(400) {
        s += "  ";
        s += &l.escape_ascii().to_string();
        s += "\n";
    }
    let _ = std::fs::write(&path, s);
    path
}

fn shown(input: &[u8]) -> String {
    let s: String = input.escape_ascii().to_string();
    s.chars().take(600).collect()
}

struct Args {
    tier: String,
    seed: u64,
}

fn marker(id: &str) -> PathBuf {
    work().join(format!("hang-{id}.txt"))
}

fn worker(p: &'static Prop, a: &Args) -> i32 {
    engine::silence_panics();
    engine::watch(marker(p.id));
    let t0 = Instant::now();
    let dict = Dict::load(&repo());
    // known findings and fixed defects that came back
    let known = findings(p.id);
    let mut open = vec![];
    for pr in p.probes {
        if (pr.shows)() {
            match known.iter().find(|k| k.key == pr.key) {
                Some(k) => open.push(k.text.clone()),
                None => {
                    let f = engine::Failure {
                        message: format!("probe {} fails", pr.key),
                        tape: vec![],
                        fixed: None,
                        input: vec![],
                        extra: pr.key.into(),
                    };
                    let path = write_replay(p, a.seed, &a.tier, &f);
                    println!("VIOLATION property={} replay={}", p.id, path.display());
                    return 1;
                }
            }
        }
    }
    let cases = if a.tier == "thorough" { p.thorough } else { p.quick };
    let scale: f64 = std::env::var("PBT_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(if a.tier == "thorough" { 1.0 } else { 0.8 });
    let cases = ((cases as f64 * scale) as u32).max(1);
    let gscale: f64 = std::env::var("PBT_GUIDED").ok().and_then(|s| s.parse().ok()).unwrap_or(0.5);
    let guided = (cases as f64 * gscale) as u32;
    let (st, fail) = engine::run(p, &dict, cases, guided, a.seed, |k| Some(cur(p.id, k)));
    let wall = t0.elapsed().as_secs_f64();
    let mut samples: Vec<String> = st.samples.iter().take(6).map(|s| js(s)).collect();
    if samples.is_empty() {
        samples.push(js("(none short enough)"));
    }
    let classes: Vec<String> = st.classes.iter().map(|(k, v)| format!("{}: {v}", js(k))).collect();
    let ev = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"nontrivial\": {},\n  \"rule\": {},\n  \"classes\": {{{}}},\n  \"guided_cases\": {},\n  \"guided_corpus\": {},\n  \"coverage_features\": {},\n  \"largest_input_bytes\": {},\n  \"slowest_case_ms\": {},\n  \"most_bytes_asked_for\": {},\n  \"fresh_literals\": {},\n  \"samples\": [{}]\n }},\n \"assumptions\": [\"the reference model and generators of /verif/harness\", \"64-bit target\", \"known findings shown: {}\"],\n \"violations\": {},\n \"wall_s\": {:.2}\n}}\n",
        js(p.id),
        js(&a.tier),
        a.seed,
        st.evaluations,
        st.distinct.len(),
        st.nontrivial,
        js(p.rule),
        classes.join(", "),
        st.guided,
        st.corpus,
        st.features,
        st.max_input,
        st.max_ms,
        st.max_bytes,
        dict.fresh_ints.len() + dict.fresh_strings.len() + dict.fresh_chars.len(),
        samples.join(", "),
        open.len(),
        fail.is_some() as u8,
        wall
    );
    let ed = root().join("evidence");
    let _ = std::fs::create_dir_all(&ed);
    if let Err(e) = std::fs::write(ed.join(format!("{}.json", p.id)), ev) {
        eprintln!("cannot write evidence: {e}");
        return 2;
    }
    println!("{} {}: {} cases, {} distinct non-trivial, {:.1} s", p.id, p.title, st.evaluations, st.distinct.len(), wall);
    println!("  {} guided cases from {} kept tapes, {} features, {} edges", st.guided, st.corpus, st.features, pbt::cov::edges());
    println!("  slowest case {} ms, {} bytes asked for, largest input {}", st.max_ms, st.max_bytes, st.max_input);
    println!("  classes: {}", classes.join(", "));
    for t in open {
        println!("KNOWN-FINDING: property={} {}", p.id, t);
    }
    match fail {
        None => 0,
        Some(f) => {
            println!("  failure: {}", f.message);
            println!("  input: {}", shown(&f.input));
            let path = write_replay(p, a.seed, &a.tier, &f);
            println!("VIOLATION property={} replay={}", p.id, path.display());
            1
        }
    }
}

fn run_file(p: &Prop, path: &Path) -> i32 {
    engine::silence_panics();
    let dict = Dict::load(&repo());
    let tape = engine::read_current(path).unwrap_or_default();
    let h = std::thread::Builder::new().stack_size(16 << 20);
    let r = std::thread::scope(|s| h.spawn_scoped(s, || engine::run_tape(p, &dict, &tape).0).unwrap().join().unwrap());
    match r {
        Ok(()) => 0,
        Err(m) => {
            println!("{m}");
            1
        }
    }
}

fn me() -> PathBuf {
    std::env::current_exe().unwrap()
}

#[derive(PartialEq, Clone, Copy)]
enum Death {
    Crash,
    Hang,
}

/// Does this case kill the process, or run for ever?
fn dies(p: &Prop, tape: &[u32], secs: u64) -> Option<Death> {
    let f = work().join(format!("one-{}.bin", p.id));
    let mut b = (tape.len() as u32).to_le_bytes().to_vec();
    tape.iter().for_each(|v| b.extend(v.to_le_bytes()));
    std::fs::write(&f, b).ok()?;
    let f = f.display().to_string();
    let r = died(&["one", p.id, &f], secs);
    let _ = std::fs::remove_file(f);
    r
}

fn died(args: &[&str], secs: u64) -> Option<Death> {
    let null = std::process::Stdio::null;
    match wait(Command::new(me()).args(args).stdout(null()).stderr(null()), secs * engine::HANG_WALL, Some(secs)) {
        Some(s) if killed(&s) => Some(Death::Crash),
        Some(_) => None,
        None => Some(Death::Hang),
    }
}

/// Ended by a signal that means a crash of the code (abort, segfault, ...), not by a kill from outside.
fn killed(s: &std::process::ExitStatus) -> bool {
    use std::os::unix::process::ExitStatusExt;
    matches!(s.signal(), Some(4 | 5 | 6 | 7 | 8 | 11))
}

/// Seconds of processor time a process has used.
fn used(pid: u32) -> u64 {
    let s = std::fs::read_to_string(format!("/proc/{pid}/stat")).unwrap_or_default();
    let f: Vec<&str> = s.rsplit(')').next().unwrap_or("").split_whitespace().collect();
    let n = |i: usize| f.get(i).and_then(|v| v.parse::<u64>().ok()).unwrap_or(0);
    (n(11) + n(12)) / 100
}

/// The status of a command; none if it takes longer than `secs`, or `cpu` seconds of processor time.
fn wait(c: &mut Command, secs: u64, cpu: Option<u64>) -> Option<std::process::ExitStatus> {
    let mut ch = c.spawn().ok()?;
    let t0 = Instant::now();
    loop {
        match ch.try_wait() {
            Ok(Some(s)) => return Some(s),
            Ok(None) => {
                if t0.elapsed() > Duration::from_secs(secs) || cpu.is_some_and(|m| t0.elapsed() > Duration::from_secs(m) && used(ch.id()) > m) {
                    let _ = ch.kill();
                    let _ = ch.wait();
                    return None;
                }
                std::thread::sleep(Duration::from_millis(15));
            }
            Err(_) => return None,
        }
    }
}

fn supervise(p: &'static Prop, a: &Args) -> i32 {
    for k in 0..engine::SHARDS {
        let _ = std::fs::remove_file(cur(p.id, k));
    }
    let limit = if a.tier == "thorough" { 20_000 } else { 800 };
    let st = wait(Command::new(me()).args(["worker", p.id, "--tier", &a.tier, "--seed", &a.seed.to_string()]), limit, None);
    let Some(st) = st else {
        eprintln!("{}: no answer within {limit} s", p.id);
        return 2;
    };
    let hang = st.code() == Some(engine::HANG_CODE);
    let code = match st.code() {
        Some(c @ (0 | 1)) => c,
        Some(_) if !hang => 2,
        None if !killed(&st) => {
            eprintln!("{}: the worker was ended: {st}", p.id);
            2
        }
        // the code under test killed the process, or does not end
        _ => match culprit(p, hang) {
            None => {
                eprintln!("{}: the worker gave up ({st}) but no case repeats it", p.id);
                2
            }
            Some((f, _)) => {
                evidence_crash(p, a);
                println!("  failure: {}", f.message);
                let path = write_replay(p, a.seed, &a.tier, &f);
                println!("VIOLATION property={} replay={}", p.id, path.display());
                1
            }
        },
    };
    let _ = std::fs::remove_file(marker(p.id));
    for k in 0..engine::SHARDS {
        let _ = std::fs::remove_file(cur(p.id, k));
    }
    code
}

fn culprit(p: &Prop, hang: bool) -> Option<(engine::Failure, Death)> {
    let what = |d: Death| match d {
        Death::Crash => "kills the process: stack overflow, abort or unbounded allocation",
        Death::Hang => "does not end",
    };
    let mark = std::fs::read_to_string(marker(p.id)).unwrap_or_default();
    let shards: Vec<u64> = match mark.strip_prefix("shard ").and_then(|k| k.parse().ok()) {
        Some(k) => vec![k],
        None if hang => vec![],
        None => (0..engine::SHARDS).collect(),
    };
    for k in shards {
        let Some(mut t) = engine::read_current(&cur(p.id, k)) else { continue };
        let Some(d) = dies(p, &t, engine::HANG_SECS) else { continue };
        // a little shrinking: shorten
        let t0 = Instant::now();
        let mut step = t.len() / 2;
        while step > 0 && t0.elapsed() < Duration::from_secs(90) {
            if t.len() > step && dies(p, &t[..t.len() - step], 10) == Some(d) {
                t.truncate(t.len() - step);
            } else {
                step /= 2;
            }
        }
        let f = engine::Failure { message: format!("the case {}", what(d)), tape: t, fixed: None, input: vec![], extra: String::new() };
        return Some((f, d));
    }
    let fixed: Vec<usize> = match mark.strip_prefix("fixed ").and_then(|k| k.parse().ok()) {
        Some(i) => vec![i],
        None if hang || p.fixed.is_none() => vec![],
        None => (0..64).collect(),
    };
    for i in fixed {
        if let Some(d) = died(&["fixed", p.id, &i.to_string()], engine::HANG_SECS) {
            let f = engine::Failure { message: format!("fixed case {i} {}", what(d)), tape: vec![], fixed: Some(i), input: vec![], extra: String::new() };
            return Some((f, d));
        }
    }
    None
}

fn evidence_crash(p: &Prop, a: &Args) {
    let ev = format!(
        "{{\"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"exploration\", \"coverage\": {{\"evaluations\": 1, \"distinct_nontrivial\": 1, \"rule\": {}, \"samples\": [\"the run ended in a crash of the code under test\"]}}, \"violations\": 1, \"wall_s\": 0}}\n",
        js(p.id), js(&a.tier), a.seed, js(p.rule)
    );
    let ed = root().join("evidence");
    let _ = std::fs::create_dir_all(&ed);
    let _ = std::fs::write(ed.join(format!("{}.json", p.id)), ev);
}

fn replay(path: &str) -> i32 {
    engine::silence_panics();
    let Ok(s) = std::fs::read_to_string(path) else {
        eprintln!("cannot read {path}");
        return 2;
    };
    let get = |k: &str| s.lines().find_map(|l| l.strip_prefix(&format!("{k}: ")).map(String::from));
    let Some(p) = get("property").and_then(|i| props::find(&i)) else {
        eprintln!("no property in {path}");
        return 2;
    };
    let dict = Dict::load(&repo());
    let r = if let Some(i) = get("fixed").and_then(|x| x.parse::<usize>().ok()) {
        let mut cx = engine::Cx::new(&dict);
        engine::guarded(|| p.fixed.and_then(|f| f(i, &mut cx)).unwrap_or(Ok(())))
    } else {
        let tape: Vec<u32> = get("tape").unwrap_or_default().split(',').filter_map(|x| x.parse().ok()).collect();
        let h = std::thread::Builder::new().stack_size(16 << 20);
        let (r, info) = std::thread::scope(|sc| h.spawn_scoped(sc, || engine::run_tape(p, &dict, &tape)).unwrap().join().unwrap());
        println!("input: {}", shown(&info.input));
        r
    };
    match r {
        Ok(()) => {
            println!("{}: holds on this case", p.id);
            0
        }
        Err(m) => {
            println!("failure: {m}");
            println!("VIOLATION property={} replay={path}", p.id);
            1
        }
    }
}

fn main() {
    let av: Vec<String> = std::env::args().skip(1).collect();
    let opt = |k: &str| av.iter().position(|a| a == k).and_then(|i| av.get(i + 1).cloned());
    let a = Args {
        tier: opt("--tier").or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or_else(|| "quick".into()),
        seed: opt("--seed").or_else(|| std::env::var("VERIF_SEED").ok()).and_then(|s| s.parse().ok()).unwrap_or(1),
    };
    let prop = |i: usize| {
        av.get(i).and_then(|s| props::find(s)).unwrap_or_else(|| {
            eprintln!("no such property");
            exit(2)
        })
    };
    let code = match av.first().map(String::as_str) {
        Some("check") => supervise(prop(1), &a),
        Some("worker") => worker(prop(1), &a),
        Some("one") => run_file(prop(1), Path::new(&av[2])),
        Some("fixed") => {
            engine::silence_panics();
            let d = Dict::load(&repo());
            let mut cx = engine::Cx::new(&d);
            let r = prop(1).fixed.and_then(|f| f(av[2].parse().unwrap(), &mut cx)).unwrap_or(Ok(()));
            r.is_err() as i32
        }
        Some("batch") => {
            engine::silence_panics();
            let d = Dict::load(&repo());
            let (b, o) = (av[1].parse().unwrap_or(0), av[2].parse().unwrap_or(0));
            for l in props::history::batch(b, o, &d) {
                println!("{l}");
            }
            0
        }
        Some("replay") => replay(&av[1]),
        Some("dict") => {
            print!("{}", Dict::dump(&repo()));
            0
        }
        Some("list") => {
            for p in props::all() {
                println!("{}\t{}", p.id, p.title);
            }
            0
        }
        _ => {
            eprintln!("usage: pbt check ID | replay FILE | dict | list");
            2
        }
    };
    exit(code)
}
