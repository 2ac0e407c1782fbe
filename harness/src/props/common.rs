//! Running the library on one case and comparing it with the reference.
use crate::engine::*;
use crate::gram::*;
use crate::real::*;
use crate::refm::*;
use lang_pt::{Code, DefaultParser, ITokenization, Lex, LexerlessParser, ParseError, TokenStream, Tokenizer};
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Out {
    Ok(usize, Vec<RNode>),
    Err(usize, String),
    Panic(String),
}
impl Out {
    pub fn show(&self) -> String {
        match self {
            Out::Ok(n, t) => format!("accepts, consumed {}, tree [{}]", n, show(t)),
            Out::Err(p, m) => format!("error at {}: {:?}", p, m),
            Out::Panic(m) => format!("PANIC {}", m),
        }
    }
}

/// which parts of the outcome a property speaks about
#[derive(Clone, Copy)]
pub struct Asp {
    pub tree: bool,
    pub consumed: bool,
    /// pointer of an ordinary failure
    pub ptr: bool,
    /// wording of the message (position, end of file, offending token)
    pub msg: bool,
    /// pointer and message of validation errors
    pub val: bool,
    /// the calls made to validation closures
    pub vlog: bool,
}
pub const NONE: Asp = Asp { tree: false, consumed: false, ptr: false, msg: false, val: false, vlog: false };
pub const MATCH: Asp = Asp { tree: true, consumed: true, ptr: false, msg: false, val: true, vlog: false };

pub type Dp = DefaultParser<u16, i8>;
pub type Lp = LexerlessParser<u16, i8>;

pub enum Parser {
    Text(Lp),
    Tok(Dp),
}

/// A tokenizer that no check consults (token streams are handed in directly).
pub fn no_tokenizer() -> Rc<dyn ITokenization<Token = i8>> {
    Rc::new(Tokenizer::<i8, u8>::new(vec![]))
}

pub enum Made {
    Ready(Built, Parser),
    Rejected(String),
    Panic(String),
    /// not expressible with the library's constructors
    NoGraph,
}
pub fn make(g: &Gram, o: &Opts) -> Made {
    let r = guarded(|| {
        let b = match build(g, o) {
            None => return Made::NoGraph,
            Some(b) => b,
        };
        let p = if o.text {
            match Lp::new(b.root.clone()) {
                Ok(p) => Parser::Text(p),
                Err(e) => return Made::Rejected(format!("{:?}", e)),
            }
        } else {
            match Dp::new(no_tokenizer(), b.root.clone()) {
                Ok(p) => Parser::Tok(p),
                Err(e) => return Made::Rejected(format!("{:?}", e)),
            }
        };
        Made::Ready(b, p)
    });
    match r {
        Ok(m) => m,
        Err(m) => Made::Panic(m),
    }
}

pub fn lexes(inp: &Input) -> Vec<Lex<i8>> {
    inp.toks.iter().map(|t| Lex { token: t.t, start: t.s, end: t.e }).collect()
}

pub fn parse(p: &Parser, inp: &Input) -> Out {
    set_limits(inp.text.len().max(inp.toks.len()));
    let r = guarded(|| match p {
        Parser::Text(p) => p.parse(&inp.text),
        Parser::Tok(p) => {
            let code = Code::new(&inp.text);
            let l = lexes(inp);
            let s = TokenStream::from(&l);
            p.parse_stream(&code, s)
        }
    });
    out(r)
}
pub fn out(r: Result<Result<Vec<lang_pt::ASTNode<u16>>, ParseError>, String>) -> Out {
    match r {
        Ok(Ok(t)) => Out::Ok(CONSUMED.with(|c| c.get()).unwrap_or(usize::MAX), to_rnodes(&t)),
        Ok(Err(e)) => Out::Err(e.pointer, e.message),
        Err(m) => Out::Panic(m),
    }
}

pub fn ints(s: &str) -> Vec<usize> {
    let mut v = vec![];
    let mut cur: Option<usize> = None;
    for c in s.chars() {
        if let Some(d) = c.to_digit(10) {
            cur = Some(cur.unwrap_or(0).saturating_mul(10).saturating_add(d as usize));
        } else if let Some(x) = cur.take() {
            v.push(x);
        }
    }
    v.extend(cur);
    v
}
pub fn line_col(text: &[u8], at: usize) -> (usize, usize) {
    let at = at.min(text.len());
    let line = 1 + text[..at].iter().filter(|c| **c == b'\n').count();
    let col = 1 + text[..at].iter().rev().take_while(|c| **c != b'\n').count();
    (line, col)
}
/// the message of an ordinary failure at `ptr`
pub fn check_msg(text: &[u8], tok: Option<&[u8]>, ptr: usize, msg: &str) -> Result<(), String> {
    if std::str::from_utf8(msg.as_bytes()).is_err() {
        return Err(format!("the message is not valid text: {:?}", msg.as_bytes()));
    }
    let n = ints(msg);
    let lc = line_col(text, ptr);
    if n.len() < 2 || (n[n.len() - 2], n[n.len() - 1]) != lc {
        return Err(format!("message {:?} does not name line {} column {}", msg, lc.0, lc.1));
    }
    let eof = msg.to_lowercase().contains("end of file");
    if eof != (ptr == text.len()) {
        return Err(format!("message {:?} for pointer {} of {} bytes", msg, ptr, text.len()));
    }
    if let Some(t) = tok {
        if let Ok(s) = std::str::from_utf8(t) {
            if !eof && !msg.contains(s) && !msg.contains(&format!("{:?}", s).trim_matches('"').to_string()) {
                return Err(format!("message {:?} does not name the offending token {:?}", msg, s));
            }
        }
    }
    Ok(())
}

/// the expected outcome, as text
pub fn show_ref(r: &Result<(usize, Vec<RNode>), Fail>, ptr: usize) -> String {
    match r {
        Ok((n, t)) => format!("accepts, consumed {}, tree [{}]", n, show(t)),
        Err(Fail::Un) => format!("ordinary failure, furthest point {}", ptr),
        Err(Fail::Val(p, m)) => format!("validation error at {}: {:?}", p, m),
        Err(Fail::Fuel) => "no verdict (limit)".into(),
    }
}

pub fn show_input(inp: &Input) -> String {
    if inp.toks.is_empty() {
        format!("{:?}", String::from_utf8_lossy(&inp.text))
    } else {
        let v: Vec<String> = inp
            .toks
            .iter()
            .map(|t| match t.t {
                EOF => "EOF".into(),
                t if t >= 0 => lit(t as u8).to_string(),
                t => format!("{:?}", wlit((-t - 1) as u8)),
            })
            .collect();
        format!("tokens [{}] over {:?}", v.join(" "), String::from_utf8_lossy(&inp.text))
    }
}

/// Compare one observed outcome with the reference. `None`: agreement.
pub fn differ(exp: &Result<(usize, Vec<RNode>), Fail>, ptr: usize, got: &Out, inp: &Input, a: Asp) -> Option<(String, String)> {
    match (exp, got) {
        (Err(Fail::Fuel), _) => None,
        (_, Out::Panic(m)) => {
            let k = if m.contains("RUNAWAY") { "runaway" } else { "panic" };
            Some((k.into(), m.clone()))
        }
        (Ok((n, t)), Out::Ok(m, u)) => {
            if a.consumed && n != m {
                return Some(("consumed".into(), String::new()));
            }
            if a.tree && t != u {
                return Some(("tree".into(), String::new()));
            }
            None
        }
        (Ok(_), Out::Err(..)) => Some(("rejects".into(), String::new())),
        (Err(_), Out::Ok(..)) => Some(("accepts".into(), String::new())),
        (Err(Fail::Un), Out::Err(p, m)) => {
            if m.contains("!V") {
                return Some(("validation-surfaces".into(), String::new()));
            }
            if a.ptr && *p != ptr {
                return Some(("pointer".into(), String::new()));
            }
            if a.msg {
                let tok: Option<&[u8]> = if inp.toks.is_empty() {
                    let n = match inp.text.get(*p) {
                        Some(c) if *c >= 0xf0 => 4,
                        Some(c) if *c >= 0xe0 => 3,
                        Some(c) if *c >= 0xc0 => 2,
                        _ => 1,
                    };
                    inp.text.get(*p..*p + n)
                } else {
                    inp.f.iter().map(|i| &inp.toks[*i]).find(|t| t.s == *p && t.e > t.s).map(|t| &inp.text[t.s..t.e])
                };
                if let Err(e) = check_msg(&inp.text, tok, *p, m) {
                    return Some(("message".into(), e));
                }
            }
            None
        }
        (Err(Fail::Val(vp, vm)), Out::Err(p, m)) => {
            if !m.contains(vm.as_str()) {
                return Some(("validation-lost".into(), String::new()));
            }
            if a.val && p != vp {
                return Some(("validation-pointer".into(), String::new()));
            }
            if a.msg {
                let n = ints(m);
                let lc = line_col(&inp.text, *p);
                if n.len() < 2 || (n[n.len() - 2], n[n.len() - 1]) != lc {
                    return Some(("message".into(), format!("message does not name line {} column {}", lc.0, lc.1)));
                }
            }
            None
        }
    }
}

pub fn mode(o: &Opts) -> Mode {
    if o.text {
        Mode::Chr
    } else {
        Mode::Fil
    }
}

/// Drive one grammar over all inputs, comparing with the reference.
pub fn run_case(w: &mut W, g: &Gram, o: &Opts, inputs: &[Input], a: Asp) -> bool {
    let (built, parser) = match make(g, o) {
        Made::Ready(b, p) => (b, p),
        Made::Rejected(e) => {
            w.viol("construction", format!("grammar {} is usable but construction fails: {}", g.text, e));
            return false;
        }
        Made::Panic(m) => {
            w.viol("construction-panic", format!("grammar {}: construction panics: {}", g.text, m));
            return false;
        }
        Made::NoGraph => {
            w.count("not expressible with the constructors", 1);
            return false;
        }
    };
    let mut bad = 0;
    for inp in inputs {
        if !run_input(w, g, o, &parser, inp, a) {
            bad += 1;
            if bad >= 2 {
                break;
            }
        }
    }
    drop(parser);
    drop(built);
    bad == 0
}

pub fn run_input(w: &mut W, g: &Gram, o: &Opts, parser: &Parser, inp: &Input, a: Asp) -> bool {
    let m = mode(o);
    let mut r = Ref::new(g, inp);
    r.keep_vlog = a.vlog;
    let exp = r.run(g.root, m, 0);
    w.states += r.distinct;
    w.transitions += r.steps;
    if exp == Err(Fail::Fuel) {
        w.count("inputs skipped: reference step limit", 1);
        return true;
    }
    if r.raw_memo {
        w.count("inputs set aside: memoization inside a raw region (refused by the library)", 1);
        return true;
    }
    if a.vlog {
        VLOG.with(|l| l.borrow_mut().clear());
    }
    let got = parse(parser, inp);
    w.traces += 1;
    let ptr = r.error_pointer(m);
    match &exp {
        Ok((_, t)) => w.count(if t.is_empty() { "outcome: accepted, empty tree" } else { "outcome: accepted" }, 1),
        Err(Fail::Un) => w.count("outcome: ordinary failure", 1),
        Err(_) => w.count("outcome: validation error", 1),
    }
    let mut d = differ(&exp, ptr, &got, inp, a);
    if d.is_none() && a.vlog {
        let l = VLOG.with(|l| l.borrow().clone());
        if l != r.vlog {
            d = Some((
                "validator-calls".into(),
                format!("closure calls (symbol, nodes+input hash): expected {:?}, observed {:?}", r.vlog, l),
            ));
        }
    }
    w.sample(|| format!("{} on {} -> {}", g.text, show_input(inp), show_ref(&exp, ptr)));
    if let Some((k, e)) = d {
        w.viol(
            k,
            format!(
                "grammar {}\ninput {}\nexpected: {}\nobserved: {}\n{}",
                g.text,
                show_input(inp),
                show_ref(&exp, ptr),
                got.show(),
                e
            ),
        );
        return false;
    }
    true
}

/// texts over `a`,`b` (and further bytes) from letter strings
pub fn texts(alpha: &[&[u8]], n: usize) -> Vec<Input> {
    strings(alpha.len() as u8, n)
        .iter()
        .map(|s| Input::text(&s.iter().flat_map(|c| alpha[*c as usize].to_vec()).collect::<Vec<u8>>()))
        .collect()
}
/// a token sequence; symbol `c`: `0..kinds` structural kinds, above that whitespace kinds
pub fn tokens(sym: &[i8]) -> Input {
    tokens_as(sym, &[])
}
/// the same with other texts for the structural kinds
pub fn tokens_as(sym: &[i8], named: &[&[u8]]) -> Input {
    let mut text = vec![];
    let mut t = vec![];
    for c in sym {
        let s: &[u8] = match c {
            0.. if (*c as usize) < named.len() => named[*c as usize],
            0 => b"a",
            1 => b"bb",
            2 => b"c",
            3 => b"dd",
            -1 => b" ",
            4.. => b"k",
            _ => b"\n",
        };
        let st = text.len();
        text.extend_from_slice(s);
        t.push(Tk { t: *c, s: st, e: text.len() });
    }
    let n = text.len();
    t.push(Tk { t: EOF, s: n, e: n });
    Input::tokens(text, t)
}
pub fn streams(alpha: &[i8], n: usize) -> Vec<Input> {
    strings(alpha.len() as u8, n)
        .iter()
        .map(|s| tokens(&s.iter().map(|c| alpha[*c as usize]).collect::<Vec<i8>>()))
        .collect()
}

/// A family of grammars: all systems of `rules` rules over the space.
pub struct Fam {
    pub name: &'static str,
    pub space: Space,
    pub rules: usize,
    /// largest expression size, per rule
    pub size: Vec<usize>,
}
pub fn uses_rule(e: &Ex, k: usize) -> bool {
    match e {
        Ex::R(j) => *j == k,
        Ex::Cat(v) | Ex::Alt(v) => v.iter().any(|x| uses_rule(x, k)),
        Ex::Suf(l, _, v) => uses_rule(l, k) || v.iter().any(|x| uses_rule(x, k)),
        Ex::Sep(a, b, _) => uses_rule(a, k) || uses_rule(b, k),
        Ex::List(x) | Ex::Opt(x) | Ex::OptH(x) | Ex::Node(x) | Ex::Hide(x) | Ex::Look(x, _) | Ex::Val(x, _)
        | Ex::Ns(x, _) | Ex::St(x) | Ex::Memo(x) => uses_rule(x, k),
        _ => false,
    }
}
impl Fam {
    pub fn one(name: &'static str, space: Space, size: usize) -> Fam {
        Fam { name, space, rules: 1, size: vec![size] }
    }
    pub fn two(name: &'static str, space: Space, s0: usize, s1: usize) -> Fam {
        Fam { name, space, rules: 2, size: vec![s0, s1] }
    }
    /// Visit every system of the family; `f` sees only the cases of this worker.
    pub fn each(&self, w: &mut W, f: &mut dyn FnMut(&mut W, Vec<Ex>)) {
        let before = w.idx;
        if self.rules == 1 {
            let n = self.size[0];
            let t = self.space.tables(n - 1);
            for s in 1..n {
                for e in &t[s] {
                    if w.next() {
                        f(w, vec![e.clone()]);
                    }
                    if w.stop() {
                        return;
                    }
                }
            }
            self.space.stream_size(&t, n, &mut |e| {
                if w.next() {
                    f(w, vec![e]);
                }
            });
        } else {
            let t = self.space.tables(*self.size.iter().max().unwrap());
            let pick = |k: usize| -> Vec<&Ex> { (1..=self.size[k]).flat_map(|s| t[s].iter()).collect() };
            let r0: Vec<&Ex> = pick(0).into_iter().filter(|e| uses_rule(e, 1)).collect();
            let r1 = pick(1);
            let r2: Vec<&Ex> = if self.rules == 3 { pick(2) } else { vec![&Ex::Null] };
            for a in &r0 {
                for b in &r1 {
                    if self.rules == 3 && !uses_rule(a, 2) && !uses_rule(b, 2) {
                        continue;
                    }
                    for c in &r2 {
                        if w.next() {
                            let mut v = vec![(*a).clone(), (*b).clone()];
                            if self.rules == 3 {
                                v.push((*c).clone());
                            }
                            f(w, v);
                        }
                    }
                    if w.stop() {
                        return;
                    }
                }
            }
        }
        if w.tid == 0 {
            let n = w.idx - before;
            w.count(&format!("grammars enumerated: {}", self.name), n);
        }
    }
}
/// Grammars of the family that the reference says are usable.
pub fn usable(w: &mut W, rules: Vec<Ex>, f: &mut dyn FnMut(&mut W, &Gram)) {
    let g = Gram::system(&rules, 0);
    if g.must_reject().is_some() {
        w.count("grammars set aside: unusable (C15 decides those)", 1);
        return;
    }
    f(w, &g);
}
