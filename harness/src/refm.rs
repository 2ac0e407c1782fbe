//! The reference: ordered-choice semantics of a `Gram`, written as directly as possible.
//! No dispatch tables, no memoization, no library code.
use crate::gram::*;
use crate::real::{decide, EOF};
use lang_pt::ASTNode;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct RNode {
    pub v: u16,
    pub s: usize,
    pub e: usize,
    pub b: Option<(usize, usize)>,
    pub c: Vec<RNode>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    /// text, by byte
    Chr,
    /// structural tokens
    Fil,
    /// all tokens
    Raw,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Fail {
    Un,
    Val(usize, String),
    Fuel,
}

#[derive(Clone, Debug)]
pub struct Tk {
    pub t: i8,
    pub s: usize,
    pub e: usize,
}

#[derive(Clone)]
pub struct Input {
    pub text: Vec<u8>,
    pub toks: Vec<Tk>,
    /// structural index -> raw index
    pub f: Vec<usize>,
}
impl Input {
    pub fn text(t: &[u8]) -> Input {
        Input { text: t.to_vec(), toks: vec![], f: vec![] }
    }
    pub fn tokens(text: Vec<u8>, toks: Vec<Tk>) -> Input {
        let f = toks.iter().enumerate().filter(|(_, t)| t.t >= 0).map(|(i, _)| i).collect();
        Input { text, toks, f }
    }
}

pub struct Ref<'a> {
    pub g: &'a Gram,
    pub inp: &'a Input,
    pub max: usize,
    pub steps: u64,
    pub limit: u64,
    pub vlog: Vec<(usize, u64)>,
    pub keep_vlog: bool,
    /// distinct (symbol, mode, position) configurations visited
    pub seen: Vec<u64>,
    pub distinct: u64,
    span: usize,
    pub raw_memo: bool,
}

type Res = Result<(usize, Vec<RNode>), Fail>;

impl<'a> Ref<'a> {
    pub fn new(g: &'a Gram, inp: &'a Input) -> Ref<'a> {
        let span = inp.text.len().max(inp.toks.len()) + 2;
        Ref {
            g,
            inp,
            max: 0,
            steps: 0,
            limit: 60_000 + 60 * span as u64,
            vlog: vec![],
            keep_vlog: false,
            seen: vec![0; (g.ops.len() * 3 * span + 63) / 64],
            distinct: 0,
            span,
            raw_memo: false,
        }
    }
    fn start(&self, m: Mode, p: usize) -> usize {
        match m {
            Mode::Chr => p,
            Mode::Fil => self.inp.toks[self.inp.f[p]].s,
            Mode::Raw => self.inp.toks[p].s,
        }
    }
    fn bound(&self, m: Mode, p: usize, q: usize) -> Option<(usize, usize)> {
        match m {
            Mode::Chr => None,
            Mode::Fil => Some((self.inp.f[p], self.inp.f[q])),
            Mode::Raw => Some((p, q)),
        }
    }
    fn zero(&self, m: Mode, p: usize, v: u16) -> RNode {
        let s = self.start(m, p);
        RNode { v, s, e: s, b: self.bound(m, p, p), c: vec![] }
    }
    fn node(&self, m: Mode, p: usize, q: usize, v: u16, c: Vec<RNode>) -> RNode {
        RNode { v, s: self.start(m, p), e: self.start(m, q), b: self.bound(m, p, q), c }
    }
    fn touch(&mut self, at: usize) {
        if at > self.max {
            self.max = at;
        }
    }
    fn token(&mut self, m: Mode, p: usize, want: &dyn Fn(i8) -> Option<Option<u16>>) -> Res {
        let r = match m {
            Mode::Fil => self.inp.f[p],
            _ => p,
        };
        let t = self.inp.toks[r].clone();
        if t.t == EOF {
            return Err(Fail::Un);
        }
        match want(t.t) {
            None => Err(Fail::Un),
            Some(v) => {
                self.touch(t.e);
                let c = v.map(|v| RNode { v, s: t.s, e: t.e, b: Some((r, r + 1)), c: vec![] });
                Ok((p + 1, c.into_iter().collect()))
            }
        }
    }
    fn bytes(&mut self, p: usize, n: usize, v: Option<u16>) -> Res {
        self.touch(p + n);
        Ok((p + n, v.map(|v| RNode { v, s: p, e: p + n, b: None, c: vec![] }).into_iter().collect()))
    }

    pub fn run(&mut self, id: Id, m: Mode, p: usize) -> Res {
        self.steps += 1;
        if self.steps > self.limit {
            return Err(Fail::Fuel);
        }
        let bit = (id * 3 + m as usize) * self.span + p;
        if self.seen[bit / 64] >> (bit % 64) & 1 == 0 {
            self.seen[bit / 64] |= 1 << (bit % 64);
            self.distinct += 1;
        }
        let g = self.g;
        let vis = |v: bool, k: usize| if v { Some(label(id, k)) } else { None };
        match &g.ops[id] {
            Op::T(k, v) => match m {
                Mode::Chr => {
                    let l = lit(*k).as_bytes();
                    if self.inp.text[p..].starts_with(l) {
                        self.bytes(p, l.len(), vis(*v, 0))
                    } else {
                        Err(Fail::Un)
                    }
                }
                _ => self.token(m, p, &|t| if t == *k as i8 { Some(vis(*v, 0)) } else { None }),
            },
            Op::W(k, v) => match m {
                Mode::Chr => {
                    let l = wlit(*k).as_bytes();
                    if self.inp.text[p..].starts_with(l) {
                        self.bytes(p, l.len(), vis(*v, 0))
                    } else {
                        Err(Fail::Un)
                    }
                }
                _ => self.token(m, p, &|t| if t == -(*k as i8) - 1 { Some(vis(*v, 0)) } else { None }),
            },
            Op::Re(k, v) => {
                let t = &self.inp.text[p..];
                let run = t.iter().take_while(|c| **c == b'a').count();
                let n = match k {
                    0 => {
                        if run > 0 {
                            Some(run)
                        } else {
                            None
                        }
                    }
                    1 => t.first().filter(|c| **c == b'a' || **c == b'b').map(|_| 1),
                    2 => Some(run),
                    4 => (1..=t.len().min(4))
                        .find(|n| std::str::from_utf8(&t[..*n]).is_ok())
                        .filter(|_| t[0] != b'a' && t[0] != b'b'),
                    5 => t.first().map(|_| 1),
                    _ => {
                        if t.starts_with(b"b") {
                            Some(1)
                        } else if t.starts_with(b"ab") {
                            Some(2)
                        } else {
                            None
                        }
                    }
                };
                match n {
                    Some(n) => self.bytes(p, n, vis(*v, 0)),
                    None => Err(Fail::Un),
                }
            }
            Op::Set(s) => match m {
                Mode::Chr => {
                    let mut best: Option<(usize, usize)> = None;
                    for (i, (k, _)) in s.iter().enumerate() {
                        let l = lit(*k).as_bytes();
                        if self.inp.text[p..].starts_with(l) && best.map_or(true, |b| l.len() > b.1) {
                            best = Some((i, l.len()));
                        }
                    }
                    match best {
                        Some((i, n)) => self.bytes(p, n, vis(s[i].1, i)),
                        None => Err(Fail::Un),
                    }
                }
                _ => {
                    let s = s.clone();
                    self.token(m, p, &|t| s.iter().position(|(k, _)| t == *k as i8).map(|i| vis(s[i].1, i)))
                }
            },
            Op::Eof(v) => {
                let (at, len) = match m {
                    Mode::Chr => (p == self.inp.text.len(), p),
                    Mode::Fil => (self.inp.toks[self.inp.f[p]].t == EOF, self.inp.text.len()),
                    Mode::Raw => (self.inp.toks[p].t == EOF, self.inp.text.len()),
                };
                if !at {
                    return Err(Fail::Un);
                }
                self.touch(len);
                let c = vis(*v, 0).map(|v| self.zero(m, p, v));
                Ok((p, c.into_iter().collect()))
            }
            Op::Null => Ok((p, vec![self.zero(m, p, 0)])),
            Op::NullH => Ok((p, vec![])),
            Op::Cat(v) => {
                let mut at = p;
                let mut out = vec![];
                for x in v {
                    let (q, c) = self.run(*x, m, at)?;
                    at = q;
                    out.extend(c);
                }
                Ok((at, out))
            }
            Op::Alt(v) => {
                for x in v {
                    match self.run(*x, m, p) {
                        Err(Fail::Un) => {}
                        r => return r,
                    }
                }
                Err(Fail::Un)
            }
            Op::Suf(l, standalone, tails) => {
                let (q, mut body) = self.run(*l, m, p)?;
                for (i, t) in tails.iter().enumerate() {
                    match self.run(*t, m, q) {
                        Err(Fail::Un) => {}
                        Err(e) => return Err(e),
                        Ok((r, c)) => {
                            body.extend(c);
                            return Ok((r, vec![self.node(m, p, r, label(id, i), body)]));
                        }
                    }
                }
                if *standalone {
                    Ok((q, body))
                } else {
                    Err(Fail::Un)
                }
            }
            Op::List(x) => {
                let (mut at, mut out) = self.run(*x, m, p)?;
                if at == p {
                    return Ok((at, out));
                }
                loop {
                    match self.run(*x, m, at) {
                        Err(Fail::Un) => return Ok((at, out)),
                        Err(e) => return Err(e),
                        Ok((q, c)) => {
                            out.extend(c);
                            if q == at {
                                return Ok((at, out));
                            }
                            at = q;
                        }
                    }
                }
            }
            Op::Sep(x, s, inclusive) => {
                let (mut at, mut out) = self.run(*x, m, p)?;
                loop {
                    let (q, sc) = match self.run(*s, m, at) {
                        Err(Fail::Un) => return Ok((at, out)),
                        Err(e) => return Err(e),
                        Ok(r) => r,
                    };
                    match self.run(*x, m, q) {
                        Err(Fail::Un) => {
                            if *inclusive {
                                out.extend(sc);
                                return Ok((q, out));
                            }
                            return Ok((at, out));
                        }
                        Err(e) => return Err(e),
                        Ok((r, c)) => {
                            out.extend(sc);
                            out.extend(c);
                            if r == at {
                                return Ok((at, out));
                            }
                            at = r;
                        }
                    }
                }
            }
            Op::Opt(x) | Op::OptH(x) => match self.run(*x, m, p) {
                Err(Fail::Un) => {
                    if let Op::Opt(_) = &g.ops[id] {
                        Ok((p, vec![self.zero(m, p, 0)]))
                    } else {
                        Ok((p, vec![]))
                    }
                }
                r => r,
            },
            Op::Node(x) => {
                let (q, c) = self.run(*x, m, p)?;
                Ok((q, vec![self.node(m, p, q, label(id, 0), c)]))
            }
            Op::Hide(x) => {
                let (q, _) = self.run(*x, m, p)?;
                Ok((q, vec![]))
            }
            Op::Look(x, v) => {
                self.run(*x, m, p)?;
                let c = vis(*v, 0).map(|v| self.zero(m, p, v));
                Ok((p, c.into_iter().collect()))
            }
            Op::Val(x, vp) => {
                let (q, c) = self.run(*x, m, p)?;
                if self.keep_vlog {
                    self.vlog.push((id, rhash(&c, &self.inp.text)));
                }
                match decide(*vp, id, c.len(), c.first().map_or(0, |c| c.s), &self.inp.text) {
                    None => Err(Fail::Un),
                    Some(Ok(())) => Ok((q, c)),
                    Some(Err((at, msg))) => Err(Fail::Val(at, msg)),
                }
            }
            Op::Ns(x, fill) => match m {
                Mode::Fil => {
                    let r = if p == 0 { 0 } else { self.inp.f[p - 1] + 1 };
                    let (q, c) = self.run(*x, Mode::Raw, r)?;
                    if *fill && q != self.inp.f[p] {
                        return Err(Fail::Un);
                    }
                    Ok((p, c))
                }
                _ => self.run(*x, m, p),
            },
            Op::St(x) => match m {
                Mode::Raw => {
                    let n = self.inp.f.iter().position(|r| *r >= p).expect("end token is structural");
                    let (q, c) = self.run(*x, Mode::Fil, n)?;
                    Ok((if q == n { p } else { self.inp.f[q - 1] + 1 }, c))
                }
                _ => self.run(*x, m, p),
            },
            Op::Memo(x) => {
                if m == Mode::Raw {
                    self.raw_memo = true;
                }
                self.run(*x, m, p)
            }
            Op::Unset(_) => Err(Fail::Un),
        }
    }
    /// where an unexplained failure is reported
    pub fn error_pointer(&self, m: Mode) -> usize {
        match m {
            Mode::Chr => self.max,
            _ => {
                for r in &self.inp.f {
                    if self.inp.toks[*r].s >= self.max {
                        return self.inp.toks[*r].s;
                    }
                }
                self.inp.text.len()
            }
        }
    }
}

pub fn rhash(children: &[RNode], code: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    fn mix(h: &mut u64, v: u64) {
        *h = (*h ^ v).wrapping_mul(0x100000001b3);
    }
    fn node(h: &mut u64, n: &RNode) {
        mix(h, n.v as u64 + 7);
        mix(h, n.s as u64 + 1000);
        mix(h, n.e as u64 + 2000);
        for c in &n.c {
            node(h, c);
        }
        mix(h, 99991);
    }
    for c in children {
        node(&mut h, c);
    }
    mix(&mut h, code.len() as u64);
    for b in code {
        mix(&mut h, *b as u64);
    }
    h
}

pub fn same(a: &ASTNode<u16>, r: &RNode) -> bool {
    a.node == r.v
        && a.start == r.s
        && a.end == r.e
        && match (&a.bound, &r.b) {
            (None, None) => true,
            (Some(x), Some(y)) => x.0 == y.0.into() && x.1 == y.1.into(),
            _ => false,
        }
        && same_all(&a.children, &r.c)
}
pub fn same_all(a: &[ASTNode<u16>], r: &[RNode]) -> bool {
    a.len() == r.len() && a.iter().zip(r).all(|(x, y)| same(x, y))
}

pub fn show(r: &[RNode]) -> String {
    let v: Vec<String> = r
        .iter()
        .map(|n| {
            let b = n.b.map_or(String::new(), |b| format!("[{}..{}]", b.0, b.1));
            if n.c.is_empty() {
                format!("{}@{}-{}{}", n.v, n.s, n.e, b)
            } else {
                format!("{}@{}-{}{}({})", n.v, n.s, n.e, b, show(&n.c))
            }
        })
        .collect();
    v.join(" ")
}
pub fn to_rnode(a: &ASTNode<u16>) -> RNode {
    RNode {
        v: a.node,
        s: a.start,
        e: a.end,
        b: a.bound.map(|b| (crate::real::tp(b.0), crate::real::tp(b.1))),
        c: a.children.iter().map(to_rnode).collect(),
    }
}
pub fn to_rnodes(a: &[ASTNode<u16>]) -> Vec<RNode> {
    a.iter().map(to_rnode).collect()
}
