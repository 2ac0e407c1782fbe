//! Lexemes: a small description language, its realisation with the library, and a reference
//! pushdown tokenizer written from the documentation.
use crate::engine::guarded;
use lang_pt::lexeme::*;
use lang_pt::{Code, CombinedTokenizer, ILexeme, ITokenization, Lex, Log, Tokenizer};
use std::fmt;
use std::rc::Rc;

pub type Lxm = Rc<dyn ILexeme<Token = i8, State = u8>>;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Act {
    No(bool),
    Pop(bool),
    Push(u8, bool),
    Switch(u8, bool),
}
impl Act {
    pub fn real(self) -> Action<u8> {
        match self {
            Act::No(d) => Action::None { discard: d },
            Act::Pop(d) => Action::remove(d),
            Act::Push(s, d) => Action::append(s, d),
            Act::Switch(s, d) => Action::switch(s, d),
        }
    }
}

/// closures of the adaptors; each is a function of its arguments only
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Fx {
    Never,
    Always,
    /// the last token so far is of an even kind (or there is none)
    LastEven,
    /// the input contains a `b`
    HasB,
    /// one bit of a hash over everything the closure is given
    Bit(u8),
    /// an odd number of tokens so far
    OddCount,
    /// matched text longer than one byte (only where a lexeme is given)
    Long,
    /// the matched token is of kind 0
    IsZero,
    /// the input goes on with a `b` after the matched token
    NextB,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Lx {
    Pat(u8, i8),
    Punct(Vec<(String, i8)>),
    Const(Vec<(String, i8)>),
    Map(Box<Lx>, Vec<(String, i8)>),
    TMap(Box<Lx>, Fx, i8),
    Mid(Box<Lx>, Fx),
    Mix(Box<Lx>, Vec<(i8, Act)>),
    /// the action applies when the closure says so, otherwise nothing
    TMix(Box<Lx>, Fx, Act),
}

pub const PATS: &[&str] = &[
    "^a+",
    "^[ab]",
    "^ab?",
    "^b",
    "^[ \n]+",
    "(?s-u:^.)",
    "^(?:\\b|c)",
    "^(?:b|ab)+",
    "^(?:ab|a)",
    "^(?:a|ab)",
    "^\u{e9}",
    "^c",
    "^[^ab]",
    "^b+",
    "(?s-u:^..?.?.?)",
];
fn scalar(t: &[u8]) -> Option<usize> {
    (1..=t.len().min(4)).find(|n| std::str::from_utf8(&t[..*n]).is_ok())
}
/// length of the match of pattern `k` at the start of `t` (zero: no token)
pub fn pat(k: u8, t: &[u8]) -> usize {
    let run = |c: &[u8]| t.iter().take_while(|x| c.contains(x)).count();
    let one = |c: &[u8]| t.first().map_or(0, |x| c.contains(x) as usize);
    match k {
        0 => run(b"a"),
        1 => one(b"ab"),
        2 | 8 => {
            if t.starts_with(b"ab") {
                2
            } else {
                one(b"a")
            }
        }
        3 => one(b"b"),
        4 => run(b" \n"),
        5 => t.len().min(1),
        6 => 0,
        7 => {
            let mut i = 0;
            loop {
                if t[i..].starts_with(b"b") {
                    i += 1
                } else if t[i..].starts_with(b"ab") {
                    i += 2
                } else {
                    return i;
                }
            }
        }
        9 => one(b"a"),
        10 => {
            if t.starts_with("\u{e9}".as_bytes()) {
                2
            } else {
                0
            }
        }
        11 => one(b"c"),
        12 => {
            if matches!(t.first(), None | Some(b'a') | Some(b'b')) {
                0
            } else {
                scalar(t).unwrap_or(0)
            }
        }
        14 => t.len().min(4),
        _ => run(b"b"),
    }
}

pub fn hash(code: &[u8], toks: &[Lex<i8>], lex: Option<&Lex<i8>>) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    let mut mix = |v: u64| h = (h ^ v).wrapping_mul(0x100000001b3).rotate_left(17);
    mix(code.len() as u64);
    for c in code {
        mix(*c as u64);
    }
    for t in toks.iter().chain(lex) {
        mix(t.token as u8 as u64 + 1000);
        mix(t.start as u64 + 2000);
        mix(t.end as u64 + 3000);
    }
    h ^ h >> 29
}
pub fn fx(f: Fx, code: &[u8], toks: &[Lex<i8>], lex: Option<&Lex<i8>>) -> bool {
    match f {
        Fx::Never => false,
        Fx::Always => true,
        Fx::LastEven => toks.last().map_or(true, |t| t.token % 2 == 0),
        Fx::HasB => code.contains(&b'b'),
        Fx::Bit(k) => hash(code, toks, lex) >> k & 1 == 1,
        Fx::OddCount => toks.len() % 2 == 1,
        Fx::Long => lex.map_or(false, |l| l.end - l.start > 1),
        Fx::IsZero => lex.map_or(false, |l| l.token == 0),
        Fx::NextB => code.get(lex.map_or(0, |l| l.end)) == Some(&b'b'),
    }
}

/// lets the generic adaptors of the library wrap any lexeme
pub struct Bl(pub Lxm);
impl ILexeme for Bl {
    type Token = i8;
    type State = u8;
    fn consume(&self, code: &Code, p: usize, t: &Vec<Lex<i8>>, s: &mut Vec<u8>) -> Option<Lex<i8>> {
        self.0.consume(code, p, t, s)
    }
    fn get_grammar_field(&self) -> Vec<(i8, String)> {
        self.0.get_grammar_field()
    }
}

pub struct Lo {
    pub log: Option<u8>,
    /// fluent builder methods instead of constructors
    pub fluent: bool,
    /// keys of a mapping given in parts: how many at construction, the others one by one (1) or
    /// all at once (2) later; 0: all at construction
    pub later: (u8, usize),
    pub notes: std::cell::RefCell<Vec<String>>,
}
impl Lo {
    pub fn plain() -> Lo {
        Lo { log: None, fluent: false, later: (0, 0), notes: Default::default() }
    }
    fn set(&self, what: &str, f: impl Fn(Log<&'static str>) -> Result<(), String>) {
        if let Some(l) = self.log.and_then(crate::real::nth_level) {
            if f(crate::real::log_level(l)).is_err() {
                self.notes.borrow_mut().push(format!("first log assignment refused on {}", what));
            }
            match guarded(|| f(crate::real::log_level((l + 1) % 5)).is_ok()) {
                Ok(false) => {}
                r => self.notes.borrow_mut().push(format!("second log assignment on {}: {:?}", what, r)),
            }
        }
    }
}
fn refs(v: &[(String, i8)]) -> Vec<(&str, i8)> {
    v.iter().map(|(s, t)| (s.as_str(), *t)).collect()
}
pub fn real(l: &Lx, o: &Lo) -> Result<Lxm, String> {
    Ok(match l {
        Lx::Pat(k, t) => {
            let p = Pattern::<i8, u8>::new(*t, PATS[*k as usize])?;
            o.set("Pattern", |l| p.set_log(l));
            Rc::new(p)
        }
        Lx::Punct(v) => {
            let p = Punctuations::<i8, u8>::new(refs(v))?;
            o.set("Punctuations", |l| p.set_log(l));
            Rc::new(p)
        }
        Lx::Const(v) => {
            let p = Constants::<i8, u8>::new(refs(v));
            o.set("Constants", |l| p.set_log(l));
            Rc::new(p)
        }
        Lx::Map(x, v) => {
            let x = Bl(real(x, o)?);
            let (how, n) = o.later;
            let mut first = refs(v);
            let rest = first.split_off(if how == 0 { v.len() } else { n.min(v.len()) });
            let mut p = if o.fluent { x.mapping(first)? } else { Mapper::new(x, first)? };
            match how {
                0 => {}
                1 => {
                    for f in rest {
                        p.extend_fields(vec![f])?;
                    }
                }
                _ => p.extend_fields(rest)?,
            }
            o.set("Mapper", |l| p.set_log(l));
            Rc::new(p)
        }
        Lx::TMap(x, f, t) => {
            let x = Bl(real(x, o)?);
            let (f, t) = (*f, *t);
            let g = move |l: &Lex<i8>, c: &[u8], s: &Vec<Lex<i8>>| if fx(f, c, s, Some(l)) { Some(t) } else { None };
            if o.fluent {
                let p = x.thunk_mapping(g);
                o.set("ThunkMapper", |l| p.set_log(l));
                Rc::new(p)
            } else {
                let p = ThunkMapper::new(x, g);
                o.set("ThunkMapper", |l| p.set_log(l));
                Rc::new(p)
            }
        }
        Lx::Mid(x, f) => {
            let x = Bl(real(x, o)?);
            let f = *f;
            let g = move |c: &[u8], s: &Vec<Lex<i8>>| fx(f, c, s, None);
            if o.fluent {
                let p = x.middleware(g);
                o.set("Middleware", |l| p.set_log(l));
                Rc::new(p)
            } else {
                let p = Middleware::new(x, g);
                o.set("Middleware", |l| p.set_log(l));
                Rc::new(p)
            }
        }
        Lx::Mix(x, v) => {
            let x = Bl(real(x, o)?);
            let v = v.iter().map(|(t, a)| (*t, a.real())).collect();
            let p = if o.fluent { x.state_mixin(v) } else { StateMixin::new(x, v) };
            o.set("StateMixin", |l| p.set_log(l));
            Rc::new(p)
        }
        Lx::TMix(x, f, a) => {
            let x = Bl(real(x, o)?);
            let (f, a) = (*f, *a);
            let g = move |l: &Lex<i8>, c: &[u8], s: &Vec<Lex<i8>>| {
                if fx(f, c, s, Some(l)) {
                    a.real()
                } else {
                    Action::default()
                }
            };
            if o.fluent {
                let p = x.thunk_mixin(g);
                o.set("ThunkStateMixin", |l| p.set_log(l));
                Rc::new(p)
            } else {
                let p = ThunkStateMixin::new(x, g);
                o.set("ThunkStateMixin", |l| p.set_log(l));
                Rc::new(p)
            }
        }
    })
}

fn longest(v: &[(String, i8)], t: &[u8]) -> Option<(i8, usize)> {
    let mut r: Option<(i8, usize)> = None;
    for (s, k) in v {
        if !s.is_empty() && t.starts_with(s.as_bytes()) && r.map_or(true, |x| x.1 < s.len()) {
            r = Some((*k, s.len()));
        }
    }
    r
}
fn act(a: Act, stack: &mut Vec<u8>) -> bool {
    match a {
        Act::No(d) => !d,
        Act::Pop(d) => stack.pop().is_some() && !d,
        Act::Push(s, d) => {
            stack.push(s);
            !d
        }
        Act::Switch(s, d) => {
            stack.pop();
            stack.push(s);
            !d
        }
    }
}
/// what lexeme `l` does at `p`
pub fn accept(l: &Lx, code: &[u8], p: usize, toks: &[Lex<i8>], stack: &mut Vec<u8>) -> Option<Lex<i8>> {
    let t = &code[p..];
    let lex = |k: i8, n: usize| Lex { token: k, start: p, end: p + n };
    match l {
        Lx::Pat(k, v) => Some(pat(*k, t)).filter(|n| *n > 0).map(|n| lex(*v, n)),
        Lx::Punct(v) | Lx::Const(v) => longest(v, t).map(|(k, n)| lex(k, n)),
        Lx::Map(x, v) => {
            let mut r = accept(x, code, p, toks, stack)?;
            if let Some((_, k)) = v.iter().find(|(s, _)| s.as_bytes() == &code[r.start..r.end]) {
                r.token = *k;
            }
            Some(r)
        }
        Lx::TMap(x, f, k) => {
            let mut r = accept(x, code, p, toks, stack)?;
            if fx(*f, code, toks, Some(&r)) {
                r.token = *k;
            }
            Some(r)
        }
        Lx::Mid(x, f) => {
            if fx(*f, code, toks, None) {
                accept(x, code, p, toks, stack)
            } else {
                None
            }
        }
        Lx::Mix(x, v) => {
            let r = accept(x, code, p, toks, stack)?;
            match v.iter().find(|(k, _)| *k == r.token) {
                Some((_, a)) if !act(*a, stack) => None,
                _ => Some(r),
            }
        }
        Lx::TMix(x, f, a) => {
            let r = accept(x, code, p, toks, stack)?;
            if fx(*f, code, toks, Some(&r)) && !act(*a, stack) {
                return None;
            }
            Some(r)
        }
    }
}

/// A tokenizer: lexemes per state; the first entry is the default state.
#[derive(Clone, Debug)]
pub struct Machine {
    pub states: Vec<(u8, Vec<Lx>)>,
    /// realise a single-state machine with `Tokenizer`
    pub single: bool,
}
impl Machine {
    pub fn one(v: Vec<Lx>) -> Machine {
        Machine { states: vec![(0, v)], single: true }
    }
    pub fn real(&self, o: &Lo) -> Result<Rc<dyn ITokenization<Token = i8>>, String> {
        let list = |v: &[Lx]| -> Result<Vec<Lxm>, String> { v.iter().map(|l| real(l, o)).collect() };
        if self.single {
            return Ok(Rc::new(Tokenizer::<i8, u8>::new(list(&self.states[0].1)?)));
        }
        let mut c = CombinedTokenizer::new(self.states[0].0, list(&self.states[0].1)?);
        for (s, v) in &self.states[1..] {
            c.add_state(*s, list(v)?);
        }
        if let Some(l) = o.log.and_then(crate::real::nth_level) {
            if c.set_log(crate::real::log_level(l)).is_err() {
                o.notes.borrow_mut().push("first log assignment refused on CombinedTokenizer".into());
            }
            if c.set_log(crate::real::log_level((l + 1) % 5)).is_ok() {
                o.notes.borrow_mut().push("second log assignment accepted on CombinedTokenizer".into());
            }
        }
        Ok(Rc::new(c))
    }
    /// tokens, or the offset of the failure; also the number of steps and distinct configurations
    pub fn run(&self, code: &[u8]) -> (Result<Vec<Lex<i8>>, usize>, u64) {
        let mut toks: Vec<Lex<i8>> = vec![];
        let mut stack = vec![];
        let mut p = 0;
        let mut steps = 1;
        while p < code.len() {
            let top = stack.last().copied().unwrap_or(self.states[0].0);
            let set = if self.single { &self.states[0].1 } else { &self.states.iter().find(|s| s.0 == top).expect("state").1 };
            let mut got = None;
            for l in set {
                steps += 1;
                got = accept(l, code, p, &toks, &mut stack);
                if got.is_some() {
                    break;
                }
            }
            match got {
                Some(l) => {
                    p = l.end;
                    toks.push(l);
                }
                None => return (Err(p), steps),
            }
        }
        toks.push(Lex { token: i8::MAX, start: p, end: p });
        (Ok(toks), steps)
    }
}
impl fmt::Display for Machine {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if self.single {
            return write!(f, "Tokenizer{:?}", self.states[0].1);
        }
        write!(f, "CombinedTokenizer[default {}; ", self.states[0].0)?;
        for (s, v) in &self.states {
            write!(f, "{}: {:?} ", s, v)?;
        }
        write!(f, "]")
    }
}

pub type TOut = Result<Result<Vec<Lex<i8>>, (usize, String)>, String>;
pub fn tokenize(t: &dyn ITokenization<Token = i8>, text: &[u8]) -> TOut {
    guarded(|| t.tokenize(&Code::new(text)).map_err(|e| (e.pointer, e.message)))
}
pub fn agree(exp: &Result<Vec<Lex<i8>>, usize>, got: &TOut) -> bool {
    match (exp, got) {
        (Ok(a), Ok(Ok(b))) => a == b,
        (Err(p), Ok(Err((q, _)))) => p == q,
        _ => false,
    }
}
pub fn show_toks(t: &[Lex<i8>]) -> String {
    t.iter().map(|l| format!("{}@{}-{}", if l.token == i8::MAX { "EOF".into() } else { l.token.to_string() }, l.start, l.end)).collect::<Vec<_>>().join(" ")
}
pub fn show_exp(e: &Result<Vec<Lex<i8>>, usize>) -> String {
    match e {
        Ok(t) => show_toks(t),
        Err(p) => format!("tokenization error at {}", p),
    }
}
pub fn show_out(e: &TOut) -> String {
    match e {
        Ok(Ok(t)) => show_toks(t),
        Ok(Err((p, m))) => format!("error at {}: {:?}", p, m),
        Err(m) => format!("PANIC {}", m),
    }
}

/// Run one machine over all texts.
pub fn run_machine(w: &mut crate::engine::W, m: &Machine, o: &Lo, texts: &[Vec<u8>]) -> bool {
    let t = match guarded(|| m.real(o)) {
        Ok(Ok(t)) => t,
        Ok(Err(e)) => {
            w.viol("construction", format!("{} cannot be constructed: {}", m, e));
            return false;
        }
        Err(e) => {
            w.viol("construction-panic", format!("{}: construction panics: {}", m, e));
            return false;
        }
    };
    for x in texts {
        let (exp, steps) = m.run(x);
        w.states += match &exp {
            Ok(t) => t.len() as u64,
            Err(_) => 1,
        };
        w.transitions += steps;
        w.traces += 1;
        let got = tokenize(&*t, x);
        w.count(if exp.is_ok() { "texts tokenized" } else { "texts rejected" }, 1);
        w.sample(|| format!("{} on {:?} -> {}", m, String::from_utf8_lossy(x), show_exp(&exp)));
        if !agree(&exp, &got) {
            let key = match &got {
                Err(_) => "panic",
                Ok(Ok(_)) if exp.is_err() => "accepts",
                Ok(Ok(_)) => "tokens",
                Ok(Err(_)) if exp.is_ok() => "rejects",
                Ok(Err(_)) => "pointer",
            };
            w.viol(key, format!("{}\ninput {:?}\nexpected: {}\nobserved: {}", m, String::from_utf8_lossy(x), show_exp(&exp), show_out(&got)));
            return false;
        }
    }
    true
}

pub fn bytes(alpha: &[&[u8]], n: usize) -> Vec<Vec<u8>> {
    crate::gram::strings(alpha.len() as u8, n)
        .iter()
        .map(|s| s.iter().flat_map(|c| alpha[*c as usize].to_vec()).collect())
        .collect()
}
pub fn lits(v: &[(&str, i8)]) -> Vec<(String, i8)> {
    v.iter().map(|(s, t)| (s.to_string(), *t)).collect()
}
