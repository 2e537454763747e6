//! Plural formulas: abstract syntax, reference evaluator, renderer, reference parser.
//! Semantics: C expressions over signed 64-bit integers with wrap-around; `x/0` saturates with the
//! sign of x; `x%0` is x; logic yields 0/1.

use crate::{dict::Dict, tape::Tape};

#[derive(Clone, Debug, PartialEq)]
pub enum Ast {
    Var,
    Num(i64),
    Not(Box<Ast>),
    Neg(Box<Ast>),
    Bin(Op, Box<Ast>, Box<Ast>),
    Cond(Box<Ast>, Box<Ast>, Box<Ast>),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    Or,
    And,
    Eq,
    Ne,
    Lt,
    Le,
    Gt,
    Ge,
    Add,
    Sub,
    Mul,
    Div,
    Mod,
}
use Op::*;

pub const OPS: [Op; 13] = [Or, And, Eq, Ne, Lt, Le, Gt, Ge, Add, Sub, Mul, Div, Mod];

impl Op {
    fn level(self) -> u8 {
        match self {
            Or => 1,
            And => 2,
            Eq | Ne => 3,
            Lt | Le | Gt | Ge => 4,
            Add | Sub => 5,
            Mul | Div | Mod => 6,
        }
    }
    fn sym(self) -> &'static str {
        match self {
            Or => "||",
            And => "&&",
            Eq => "==",
            Ne => "!=",
            Lt => "<",
            Le => "<=",
            Gt => ">",
            Ge => ">=",
            Add => "+",
            Sub => "-",
            Mul => "*",
            Div => "/",
            Mod => "%",
        }
    }
}

impl Ast {
    pub fn eval(&self, n: i64) -> i64 {
        let b = |x: bool| x as i64;
        match self {
            Ast::Var => n,
            Ast::Num(v) => *v,
            Ast::Not(x) => b(x.eval(n) == 0),
            Ast::Neg(x) => 0i64.wrapping_sub(x.eval(n)),
            Ast::Cond(t, x, y) => {
                if t.eval(n) != 0 {
                    x.eval(n)
                } else {
                    y.eval(n)
                }
            }
            Ast::Bin(op, x, y) => {
                let (x, y) = (x.eval(n) as i128, y.eval(n) as i128);
                let wrap = |v: i128| v as i64;
                match op {
                    Or => b(x != 0 || y != 0),
                    And => b(x != 0 && y != 0),
                    Eq => b(x == y),
                    Ne => b(x != y),
                    Lt => b(x < y),
                    Le => b(x <= y),
                    Gt => b(x > y),
                    Ge => b(x >= y),
                    Add => wrap(x + y),
                    Sub => wrap(x - y),
                    Mul => wrap(x * y),
                    Div if y == 0 => {
                        if x < 0 {
                            i64::MIN
                        } else {
                            i64::MAX
                        }
                    }
                    Div => wrap(x / y),
                    Mod if y == 0 => x as i64,
                    Mod => wrap(x % y),
                }
            }
        }
    }

    fn level(&self) -> u8 {
        match self {
            Ast::Cond(..) => 0,
            Ast::Bin(op, ..) => op.level(),
            Ast::Not(_) | Ast::Neg(_) => 7,
            Ast::Var | Ast::Num(_) => 8,
        }
    }

    pub fn size(&self) -> usize {
        1 + match self {
            Ast::Var | Ast::Num(_) => 0,
            Ast::Not(x) | Ast::Neg(x) => x.size(),
            Ast::Bin(_, x, y) => x.size() + y.size(),
            Ast::Cond(x, y, z) => x.size() + y.size() + z.size(),
        }
    }

    pub fn uses_var(&self) -> bool {
        match self {
            Ast::Var => true,
            Ast::Num(_) => false,
            Ast::Not(x) | Ast::Neg(x) => x.uses_var(),
            Ast::Bin(_, x, y) => x.uses_var() || y.uses_var(),
            Ast::Cond(x, y, z) => x.uses_var() || y.uses_var() || z.uses_var(),
        }
    }
}

// ---------------------------------------------------------------- rendering

/// Where an operand stands, which decides whether a unary operator may appear bare.
#[derive(Clone, Copy, PartialEq)]
enum Pos {
    /// whole expression, parenthesis, operand of logic or of `?:`
    Free,
    /// operand of a comparison
    Cmp,
    /// leftmost operand of an arithmetic chain
    ArithLeft,
    /// right operand of an arithmetic operator
    ArithRight,
    /// operand of a unary operator
    Unary,
}

pub struct Style {
    /// 0: canonical (single spaces, minimal parentheses)
    pub free: bool,
}

/// Text of the formula, with as few parentheses as C precedence allows (plus random extra ones).
pub fn render(a: &Ast, t: &mut Tape, st: &Style) -> String {
    let mut o = String::new();
    go(a, 0, Pos::Free, t, st, &mut o);
    o
}

fn ws(t: &mut Tape, st: &Style, o: &mut String) {
    if !st.free {
        return;
    }
    for _ in 0..t.weighted(&[6, 3, 1]) {
        o.push(*t.pick(&[' ', ' ', '\t']));
    }
}

fn go(a: &Ast, min: u8, pos: Pos, t: &mut Tape, st: &Style, o: &mut String) {
    let word_not = st.free && matches!(a, Ast::Not(_)) && t.chance(1, 5);
    let mut need = a.level() < min;
    match a {
        Ast::Not(_) => {
            need |= pos == Pos::ArithRight || pos == Pos::Unary;
            if word_not {
                need |= pos != Pos::Free;
            }
        }
        Ast::Neg(_) => need |= pos == Pos::Unary,
        _ => (),
    }
    if !need && st.free && t.chance(1, 8) {
        need = true;
    }
    if need {
        o.push('(');
        ws(t, st, o);
        inner(a, Pos::Free, word_not, t, st, o);
        ws(t, st, o);
        o.push(')');
    } else {
        inner(a, pos, word_not, t, st, o);
    }
}

fn inner(a: &Ast, pos: Pos, word_not: bool, t: &mut Tape, st: &Style, o: &mut String) {
    match a {
        Ast::Var => o.push('n'),
        Ast::Num(v) => {
            if st.free && t.chance(1, 20) {
                o.push('0');
            }
            *o += &v.to_string()
        }
        Ast::Not(x) => {
            if word_not {
                o.push_str("not ");
            } else {
                o.push('!');
            }
            ws(t, st, o);
            go(x, 8, Pos::Unary, t, st, o);
        }
        Ast::Neg(x) => {
            o.push('-');
            ws(t, st, o);
            go(x, 8, Pos::Unary, t, st, o);
        }
        Ast::Bin(op, x, y) => {
            let l = op.level();
            let (pl, pr) = match op {
                Or | And => (Pos::Free, Pos::Free),
                Eq | Ne | Lt | Le | Gt | Ge => (Pos::Cmp, Pos::Cmp),
                _ => {
                    let left = if pos == Pos::ArithRight { Pos::ArithRight } else { Pos::ArithLeft };
                    (left, Pos::ArithRight)
                }
            };
            go(x, l, pl, t, st, o);
            let word = st.free && matches!(op, Or | And) && t.chance(1, 4);
            if st.free {
                if word {
                    o.push(' ');
                }
                ws(t, st, o);
                o.push_str(match (op, word) {
                    (Or, true) => "or",
                    (And, true) => "and",
                    _ => op.sym(),
                });
                if word {
                    o.push(' ');
                }
                ws(t, st, o);
            } else {
                o.push(' ');
                o.push_str(op.sym());
                o.push(' ');
            }
            go(y, l + 1, pr, t, st, o);
        }
        Ast::Cond(x, y, z) => {
            go(x, 1, Pos::Free, t, st, o);
            let sep = |c: char, t: &mut Tape, o: &mut String| {
                if st.free {
                    ws(t, st, o);
                    o.push(c);
                    ws(t, st, o);
                } else {
                    o.push(' ');
                    o.push(c);
                    o.push(' ');
                }
            };
            sep('?', t, o);
            go(y, 0, Pos::Free, t, st, o);
            sep(':', t, o);
            go(z, 0, Pos::Free, t, st, o);
        }
    }
}

// ---------------------------------------------------------------- generation

pub fn gen_num(t: &mut Tape, d: &Dict) -> i64 {
    let v = match t.weighted(&[10, 6, 2, 1, 1, if d.fresh_ints.is_empty() { 0 } else { 6 }]) {
        0 => t.below(6) as u64,
        1 => *t.pick(&[1, 2, 10, 100, 11, 12, 14, 19, 20, 5, 4, 99, 1000, 7, 3]),
        2 => t.below(1000) as u64,
        3 => {
            let k = t.below(63);
            (1u64 << k).wrapping_add([0u64, 1, u64::MAX][t.below(3)])
        }
        4 => {
            if t.chance(1, 2) {
                i64::MAX as u64 - t.below(3) as u64
            } else {
                *t.pick(&[u32::MAX as u64, i32::MAX as u64, 65535, 255, 1_000_000, 1_000_000_000, 4_294_967_296])
            }
        }
        _ => t.pick(&d.fresh_ints).wrapping_add([0u64, 1, u64::MAX][t.below(3)]),
    };
    (v & i64::MAX as u64) as i64
}

pub fn gen(t: &mut Tape, d: &Dict, depth: usize) -> Ast {
    let k = if depth == 0 { t.weighted(&[4, 3]) } else { t.weighted(&[4, 3, 9, 2, 1, 1, 2]) };
    match k {
        0 => Ast::Var,
        1 => Ast::Num(gen_num(t, d)),
        2 => {
            let op = *t.pick(&OPS);
            Ast::Bin(op, Box::new(gen(t, d, depth - 1)), Box::new(gen(t, d, depth - 1)))
        }
        3 => Ast::Cond(
            Box::new(gen(t, d, depth - 1)),
            Box::new(gen(t, d, depth - 1)),
            Box::new(gen(t, d, depth - 1)),
        ),
        4 => Ast::Not(Box::new(gen(t, d, depth - 1))),
        5 => Ast::Neg(Box::new(gen(t, d, depth - 1))),
        _ => {
            // realistic test such as n%10==k && n%100!=j
            let m = *t.pick(&[10i64, 100, 1000, 2]);
            let op = *t.pick(&[Eq, Ne, Lt, Le, Gt, Ge]);
            Ast::Bin(
                op,
                Box::new(Ast::Bin(Mod, Box::new(Ast::Var), Box::new(Ast::Num(m)))),
                Box::new(Ast::Num(t.below(21) as i64)),
            )
        }
    }
}

/// Formulas of real catalogues (GNU gettext manual and Translate Toolkit), with their nplurals.
pub const REAL: &[(usize, &str)] = &[
    (1, "0"),
    (2, "n != 1"),
    (2, "n>1"),
    (2, "n == 1 ? 0 : 1"),
    (3, "n%10==1 && n%100!=11 ? 0 : n != 0 ? 1 : 2"),
    (3, "n==1 ? 0 : n==2 ? 1 : 2"),
    (3, "n==1 ? 0 : (n==0 || (n%100 > 0 && n%100 < 20)) ? 1 : 2"),
    (3, "n%10==1 && n%100!=11 ? 0 : n%10>=2 && (n%100<10 || n%100>=20) ? 1 : 2"),
    (3, "n%10==1 && n%100!=11 ? 0 : n%10>=2 && n%10<=4 && (n%100<10 || n%100>=20) ? 1 : 2"),
    (3, "(n==1) ? 0 : (n>=2 && n<=4) ? 1 : 2"),
    (3, "n==1 ? 0 : n%10>=2 && n%10<=4 && (n%100<10 || n%100>=20) ? 1 : 2"),
    (4, "n%100==1 ? 0 : n%100==2 ? 1 : n%100==3 || n%100==4 ? 2 : 3"),
    (6, "n==0 ? 0 : n==1 ? 1 : n==2 ? 2 : n%100>=3 && n%100<=10 ? 3 : n%100>=11 ? 4 : 5"),
    (2, "n%10!=1 || n%100==11"),
    (5, "n==1 ? 0 : n==2 ? 1 : (n>2 && n<7) ? 2 :(n>6 && n<11) ? 3 : 4"),
    (4, "(n==1) ? 0 : (n==2) ? 1 : (n != 8 && n != 11) ? 2 : 3"),
    (4, "(n==1 || n==11) ? 0 : (n==2 || n==12) ? 1 : (n > 2 && n < 20) ? 2 : 3"),
    (2, "(n==1 || n==2 || n==3 || (n%10!=4 && n%10!=6 && n%10!=9)) ? 0 : 1"),
    (3, "(n%10==1 && n%100!=11 ? 0 : n%10>=2 && (n%100<10 or n%100>=20) ? 1 : 2)"),
];

// ---------------------------------------------------------------- reference parser

#[derive(Clone, Debug, PartialEq)]
enum Tok {
    Num(i64),
    N,
    Sym(&'static str),
}

/// Maximal munch over the token set; `None` for an unknown character or a number out of range.
fn lex(s: &str) -> Option<Vec<Tok>> {
    const SYMS: &[&str] = &[
        "||", "&&", "==", "!=", "<=", ">=", "and", "not", "or", "<", ">", "+", "-", "*", "/", "%", "!", "?", ":", "(",
        ")",
    ];
    let mut out = vec![];
    let mut r = s;
    'next: loop {
        r = r.trim_start();
        if r.is_empty() {
            return Some(out);
        }
        let digits = r.bytes().take_while(|b| b.is_ascii_digit()).count();
        if digits > 0 {
            out.push(Tok::Num(r[..digits].parse().ok()?));
            r = &r[digits..];
            continue;
        }
        for y in SYMS {
            if let Some(x) = r.strip_prefix(y) {
                out.push(Tok::Sym(match *y {
                    "and" => "&&",
                    "or" => "||",
                    y => y,
                }));
                r = x;
                continue 'next;
            }
        }
        if let Some(x) = r.strip_prefix('n') {
            out.push(Tok::N);
            r = x;
            continue;
        }
        return None;
    }
}

pub struct Parsed {
    pub ast: Ast,
    /// uses a unary operator where C allows it but the supported grammar need not
    pub exotic_unary: bool,
    /// uses the word `not` where its precedence is not defined
    pub vague_not: bool,
}

struct P {
    t: Vec<Tok>,
    i: usize,
    exotic: bool,
    vague: bool,
}

/// Parses by C precedence.  Outer None: not a formula.
pub fn parse(s: &str) -> Option<Parsed> {
    if s.trim().is_empty() {
        return Some(Parsed { ast: Ast::Var, exotic_unary: false, vague_not: false });
    }
    let mut p = P { t: lex(s)?, i: 0, exotic: false, vague: false };
    let ast = p.expr()?;
    if p.i != p.t.len() {
        return None;
    }
    Some(Parsed { ast, exotic_unary: p.exotic, vague_not: p.vague })
}

impl P {
    fn sym(&self) -> Option<&'static str> {
        match self.t.get(self.i) {
            Some(Tok::Sym(s)) => Some(s),
            _ => None,
        }
    }
    fn eat(&mut self, s: &str) -> bool {
        if self.sym() == Some(s) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn expr(&mut self) -> Option<Ast> {
        let c = self.level(1, Pos::Free)?;
        if self.eat("?") {
            let a = self.expr()?;
            if !self.eat(":") {
                return None;
            }
            let b = self.expr()?;
            return Some(Ast::Cond(Box::new(c), Box::new(a), Box::new(b)));
        }
        Some(c)
    }
    fn level(&mut self, l: u8, pos: Pos) -> Option<Ast> {
        if l == 7 {
            return self.unary(pos);
        }
        let mut x = self.level(l + 1, pos)?;
        loop {
            let op = match self.sym().and_then(|s| OPS.iter().find(|o| o.sym() == s)) {
                Some(o) if o.level() == l => *o,
                _ => return Some(x),
            };
            self.i += 1;
            let pr = if l >= 5 { Pos::ArithRight } else { Pos::Free };
            let y = self.level(l + 1, pr)?;
            x = Ast::Bin(op, Box::new(x), Box::new(y));
        }
    }
    fn unary(&mut self, pos: Pos) -> Option<Ast> {
        if self.eat("-") {
            self.exotic |= pos == Pos::Unary;
            return Some(Ast::Neg(Box::new(self.unary(Pos::Unary)?)));
        }
        let word = self.sym() == Some("not");
        if word || self.sym() == Some("!") {
            self.i += 1;
            self.exotic |= pos == Pos::ArithRight || pos == Pos::Unary;
            let x = self.unary(Pos::Unary)?;
            if word {
                self.vague |= matches!(
                    self.sym(),
                    Some("+" | "-" | "*" | "/" | "%" | "==" | "!=" | "<" | "<=" | ">" | ">=")
                );
            }
            return Some(Ast::Not(Box::new(x)));
        }
        match self.t.get(self.i)? {
            Tok::Num(v) => {
                self.i += 1;
                Some(Ast::Num(*v))
            }
            Tok::N => {
                self.i += 1;
                Some(Ast::Var)
            }
            Tok::Sym("(") => {
                self.i += 1;
                let e = self.expr()?;
                if self.eat(")") {
                    Some(e)
                } else {
                    None
                }
            }
            _ => None,
        }
    }
}
