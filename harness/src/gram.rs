//! Grammar expressions (`Ex`), their graph form (`Gram`) and the exhaustive generators.
use std::fmt;

/// What a validation closure decides.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Vp {
    Accept,
    Decline,
    Fail,
    /// declines when the symbol produced an even number of nodes
    DeclineEven,
    /// validation error when the input contains a 'b'
    FailIfB,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ex {
    /// literal/terminal kind, visible?
    T(u8, bool),
    /// terminal set: (kind, visible)
    Set(Vec<(u8, bool)>),
    /// regular expression symbol (text parsing only): 0 = `a+`, 1 = `[ab]`, 2 = `a*`, 3 = `b|ab`, 4 = `[^ab]` (one character), 5 = any byte
    Re(u8, bool),
    /// raw-only terminal kinds (non structural); index into NS kinds
    W(u8, bool),
    Eof(bool),
    Null,
    NullH,
    Cat(Vec<Ex>),
    Alt(Vec<Ex>),
    Suf(Box<Ex>, bool, Vec<Ex>),
    List(Box<Ex>),
    Sep(Box<Ex>, Box<Ex>, bool),
    Opt(Box<Ex>),
    OptH(Box<Ex>),
    Node(Box<Ex>),
    Hide(Box<Ex>),
    Look(Box<Ex>, bool),
    Val(Box<Ex>, Vp),
    Ns(Box<Ex>, bool),
    St(Box<Ex>),
    Memo(Box<Ex>),
    /// reference to rule k of the system
    R(usize),
    /// a non-terminal (0 = sequence, 1 = choice, 2 = suffixes over `T(0)`) whose symbols are never assigned
    Unset(u8),
}

/// literal of terminal kind `k` in text parsing (kind 3 has kinds 0 and 1 as its parts)
/// the empty literal, for parsing without a tokenizer only
pub const EMPTY: u8 = 126;
pub fn lit(k: u8) -> &'static str {
    match k {
        0 => "a",
        1 => "b",
        2 => "c",
        3 => "ab",
        5 => "\u{e9}",
        6 => "a\u{e9}",
        7 => "\u{e8}",
        118 => "\u{feff}",
        119 => "\u{0}",
        120 => "\r\n",
        121 => " a",
        122 => "A",
        123 => "\u{2028}",
        124 => "a ",
        EMPTY => "",
        _ => "d",
    }
}
pub fn re(k: u8) -> &'static str {
    match k {
        0 => "^a+",
        1 => "^[ab]",
        2 => "^a*",
        3 => "^(b|ab)",
        4 => "^[^ab]",
        _ => "^(?s-u:.)",
    }
}
pub fn wlit(k: u8) -> &'static str {
    match k {
        0 => " ",
        _ => "\n",
    }
}

impl fmt::Display for Ex {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fn list(f: &mut fmt::Formatter<'_>, v: &[Ex]) -> fmt::Result {
            for (i, x) in v.iter().enumerate() {
                if i > 0 {
                    write!(f, ", ")?;
                }
                write!(f, "{}", x)?;
            }
            Ok(())
        }
        match self {
            Ex::T(k, v) => write!(f, "{}{}", lit(*k), if *v { "" } else { "~" }),
            Ex::Re(k, v) => write!(f, "/{}/{}", re(*k), if *v { "" } else { "~" }),
            Ex::W(k, v) => write!(f, "{:?}{}", wlit(*k), if *v { "" } else { "~" }),
            Ex::Set(s) => {
                write!(f, "<")?;
                for (k, v) in s {
                    write!(f, "{}{}", lit(*k), if *v { "" } else { "~" })?;
                }
                write!(f, ">")
            }
            Ex::Eof(v) => write!(f, "EOF{}", if *v { "" } else { "~" }),
            Ex::Null => write!(f, "Null"),
            Ex::NullH => write!(f, "Null~"),
            Ex::Cat(v) => {
                write!(f, "Concat[")?;
                list(f, v)?;
                write!(f, "]")
            }
            Ex::Alt(v) => {
                write!(f, "Union[")?;
                list(f, v)?;
                write!(f, "]")
            }
            Ex::Suf(l, s, v) => {
                write!(f, "Suffixes{}({}; ", if *s { "*" } else { "" }, l)?;
                list(f, v)?;
                write!(f, ")")
            }
            Ex::List(x) => write!(f, "List({})", x),
            Ex::Sep(x, s, i) => write!(f, "SepList{}({}, {})", if *i { "+" } else { "-" }, x, s),
            Ex::Opt(x) => write!(f, "Nullable({})", x),
            Ex::OptH(x) => write!(f, "Nullable~({})", x),
            Ex::Node(x) => write!(f, "Node({})", x),
            Ex::Hide(x) => write!(f, "Hidden({})", x),
            Ex::Look(x, v) => write!(f, "Lookahead{}({})", if *v { "" } else { "~" }, x),
            Ex::Val(x, p) => write!(f, "Validator:{:?}({})", p, x),
            Ex::Ns(x, fl) => write!(f, "NonStructural{}({})", if *fl { "!" } else { "" }, x),
            Ex::St(x) => write!(f, "Structural({})", x),
            Ex::Memo(x) => write!(f, "Cacheable({})", x),
            Ex::R(k) => write!(f, "R{}", k),
            Ex::Unset(k) => write!(f, "Unset{}", k),
        }
    }
}

pub type Id = usize;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    T(u8, bool),
    Re(u8, bool),
    W(u8, bool),
    Set(Vec<(u8, bool)>),
    Eof(bool),
    Null,
    NullH,
    Cat(Vec<Id>),
    Alt(Vec<Id>),
    Suf(Id, bool, Vec<Id>),
    List(Id),
    Sep(Id, Id, bool),
    Opt(Id),
    OptH(Id),
    Node(Id),
    Hide(Id),
    Look(Id, bool),
    Val(Id, Vp),
    Ns(Id, bool),
    St(Id),
    Memo(Id),
    Unset(u8),
}

/// A grammar as a graph: node ids are the identities of production objects.
#[derive(Clone, Debug)]
pub struct Gram {
    pub ops: Vec<Op>,
    pub root: Id,
    /// textual form, rule by rule
    pub text: String,
}

/// AST label of production `id`, variant `k` (set member / suffix tail).
/// node values per symbol (tails of suffixes and members of sets are told apart)
pub const LABELS: usize = 128;
pub fn label(id: Id, k: usize) -> u16 {
    match ALIKE.with(|a| a.get()) {
        0 => (id * LABELS + 1 + k) as u16,
        1 => 1,
        _ => 0,
    }
}
thread_local! { static ALIKE: std::cell::Cell<u8> = const { std::cell::Cell::new(0) }; }
pub fn all_alike() -> bool {
    ALIKE.with(|a| a.get()) != 0
}
/// Run `f` with node values that tell nothing apart: 1 makes all of them the same, 2 makes all of
/// them the null value as well.
pub fn alike<R>(m: u8, f: impl FnOnce() -> R) -> R {
    struct Reset;
    impl Drop for Reset {
        fn drop(&mut self) {
            ALIKE.with(|a| a.set(0));
        }
    }
    let _r = Reset;
    ALIKE.with(|a| a.set(m));
    f()
}

impl Gram {
    pub fn single(e: &Ex) -> Gram {
        Gram::system(std::slice::from_ref(e), 0)
    }
    /// `rules[start]` is the root; `Ex::R(k)` refers to `rules[k]`.
    pub fn system(rules: &[Ex], start: usize) -> Gram {
        let mut g = Gram { ops: Vec::new(), root: 0, text: String::new() };
        let mut rule_ids = Vec::new();
        for _ in rules {
            rule_ids.push(g.ops.len());
            g.ops.push(Op::Null); // placeholder, replaced below
        }
        for (k, r) in rules.iter().enumerate() {
            let op = g.lower(r, &rule_ids);
            g.ops[rule_ids[k]] = op;
        }
        g.root = rule_ids[start];
        g.text = if rules.len() == 1 {
            format!("{}", rules[0])
        } else {
            let v: Vec<String> = rules.iter().enumerate().map(|(i, r)| format!("R{} = {}", i, r)).collect();
            format!("start R{}; {}", start, v.join("; "))
        };
        g
    }
    fn add(&mut self, e: &Ex, rules: &[Id]) -> Id {
        if let Ex::R(k) = e {
            return rules[*k];
        }
        let slot = self.ops.len();
        self.ops.push(Op::Null);
        let op = self.lower(e, rules);
        self.ops[slot] = op;
        slot
    }
    fn lower(&mut self, e: &Ex, rules: &[Id]) -> Op {
        match e {
            Ex::T(k, v) => Op::T(*k, *v),
            Ex::Re(k, v) => Op::Re(*k, *v),
            Ex::W(k, v) => Op::W(*k, *v),
            Ex::Set(s) => Op::Set(s.clone()),
            Ex::Eof(v) => Op::Eof(*v),
            Ex::Null => Op::Null,
            Ex::NullH => Op::NullH,
            Ex::Cat(v) => Op::Cat(v.iter().map(|x| self.add(x, rules)).collect()),
            Ex::Alt(v) => Op::Alt(v.iter().map(|x| self.add(x, rules)).collect()),
            Ex::Suf(l, s, v) => {
                let li = self.add(l, rules);
                Op::Suf(li, *s, v.iter().map(|x| self.add(x, rules)).collect())
            }
            Ex::List(x) => Op::List(self.add(x, rules)),
            Ex::Sep(x, s, i) => {
                let a = self.add(x, rules);
                let b = self.add(s, rules);
                Op::Sep(a, b, *i)
            }
            Ex::Opt(x) => Op::Opt(self.add(x, rules)),
            Ex::OptH(x) => Op::OptH(self.add(x, rules)),
            Ex::Node(x) => Op::Node(self.add(x, rules)),
            Ex::Hide(x) => Op::Hide(self.add(x, rules)),
            Ex::Look(x, v) => Op::Look(self.add(x, rules), *v),
            Ex::Val(x, p) => Op::Val(self.add(x, rules), *p),
            Ex::Ns(x, f) => Op::Ns(self.add(x, rules), *f),
            Ex::St(x) => Op::St(self.add(x, rules)),
            Ex::Memo(x) => Op::Memo(self.add(x, rules)),
            Ex::R(k) => {
                // a rule that is just another rule: keep the graph simple
                Op::Cat(vec![rules[*k]])
            }
            Ex::Unset(k) => Op::Unset(*k),
        }
    }

    pub fn children(&self, id: Id) -> Vec<Id> {
        match &self.ops[id] {
            Op::T(..) | Op::Re(..) | Op::W(..) | Op::Set(_) | Op::Eof(_) | Op::Null | Op::NullH | Op::Unset(_) => vec![],
            Op::Cat(v) | Op::Alt(v) => v.clone(),
            Op::Suf(l, _, v) => {
                let mut r = vec![*l];
                r.extend(v);
                r
            }
            Op::Sep(a, b, _) => vec![*a, *b],
            Op::List(x) | Op::Opt(x) | Op::OptH(x) | Op::Node(x) | Op::Hide(x) | Op::Look(x, _) | Op::Val(x, _)
            | Op::Ns(x, _) | Op::St(x) | Op::Memo(x) => vec![*x],
        }
    }
    pub fn reachable(&self) -> Vec<bool> {
        let mut seen = vec![false; self.ops.len()];
        let mut st = vec![self.root];
        while let Some(x) = st.pop() {
            if !seen[x] {
                seen[x] = true;
                st.extend(self.children(x));
            }
        }
        seen
    }
    /// least fixpoint: may the symbol succeed without consuming input?
    pub fn zero_width(&self) -> Vec<bool> {
        let n = self.ops.len();
        let mut z = vec![false; n];
        loop {
            let mut ch = false;
            for i in 0..n {
                let v = match &self.ops[i] {
                    Op::T(k, _) => *k == EMPTY,
                    Op::Set(s) => s.iter().any(|x| x.0 == EMPTY),
                    Op::W(..) | Op::Unset(_) => false,
                    Op::Re(k, _) => *k == 2,
                    Op::Eof(_) | Op::Null | Op::NullH | Op::Opt(_) | Op::OptH(_) | Op::Look(..) | Op::Ns(..) => true,
                    Op::Cat(v) => v.iter().all(|x| z[*x]),
                    Op::Alt(v) => v.iter().any(|x| z[*x]),
                    Op::Suf(l, s, v) => z[*l] && (*s || v.iter().any(|x| z[*x])),
                    Op::Sep(a, _, _) => z[*a],
                    Op::List(x) | Op::Node(x) | Op::Hide(x) | Op::Val(x, _) | Op::St(x) | Op::Memo(x) => z[*x],
                };
                if v && !z[i] {
                    z[i] = true;
                    ch = true;
                }
            }
            if !ch {
                return z;
            }
        }
    }
    /// symbols that may be tried at the position where `id` is tried
    pub fn left(&self, id: Id, z: &[bool]) -> Vec<Id> {
        match &self.ops[id] {
            Op::Cat(v) => {
                let mut r = vec![];
                for x in v {
                    r.push(*x);
                    if !z[*x] {
                        break;
                    }
                }
                r
            }
            Op::Suf(l, _, v) => {
                let mut r = vec![*l];
                if z[*l] {
                    r.extend(v);
                }
                r
            }
            Op::Sep(a, b, _) => {
                if z[*a] {
                    vec![*a, *b]
                } else {
                    vec![*a]
                }
            }
            _ => self.children(id),
        }
    }
    /// Is some reachable symbol unassigned, or reachable from itself before consuming input?
    pub fn must_reject(&self) -> Option<&'static str> {
        let reach = self.reachable();
        for (i, op) in self.ops.iter().enumerate() {
            if reach[i] {
                if let Op::Unset(_) = op {
                    return Some("unassigned");
                }
            }
        }
        let z = self.zero_width();
        // colour DFS over the left graph
        let mut col = vec![0u8; self.ops.len()];
        fn dfs(g: &Gram, z: &[bool], col: &mut [u8], i: Id) -> bool {
            col[i] = 1;
            for c in g.left(i, z) {
                if col[c] == 1 || (col[c] == 0 && dfs(g, z, col, c)) {
                    return true;
                }
            }
            col[i] = 2;
            false
        }
        for i in 0..self.ops.len() {
            if reach[i] && col[i] == 0 && dfs(self, &z, &mut col, i) {
                return Some("left recursion");
            }
        }
        None
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Un {
    List,
    Opt,
    OptH,
    Node,
    Hide,
    Look,
    LookV,
    Val(Vp),
    Ns(bool),
    St,
    Memo,
    Cat1,
    Alt1,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Bin {
    Cat,
    Alt,
    SepI,
    SepN,
    Suf,
    SufS,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ter {
    Cat,
    Alt,
    Suf,
    SufS,
}

#[derive(Clone)]
pub struct Space {
    pub leaves: Vec<Ex>,
    pub un: Vec<Un>,
    pub bin: Vec<Bin>,
    pub ter: Vec<Ter>,
}

pub fn mk1(u: Un, x: &Ex) -> Ex {
    let b = Box::new(x.clone());
    match u {
        Un::List => Ex::List(b),
        Un::Opt => Ex::Opt(b),
        Un::OptH => Ex::OptH(b),
        Un::Node => Ex::Node(b),
        Un::Hide => Ex::Hide(b),
        Un::Look => Ex::Look(b, false),
        Un::LookV => Ex::Look(b, true),
        Un::Val(p) => Ex::Val(b, p),
        Un::Ns(f) => Ex::Ns(b, f),
        Un::St => Ex::St(b),
        Un::Memo => Ex::Memo(b),
        Un::Cat1 => Ex::Cat(vec![*b]),
        Un::Alt1 => Ex::Alt(vec![*b]),
    }
}
pub fn mk2(b: Bin, x: &Ex, y: &Ex) -> Ex {
    match b {
        Bin::Cat => Ex::Cat(vec![x.clone(), y.clone()]),
        Bin::Alt => Ex::Alt(vec![x.clone(), y.clone()]),
        Bin::SepI => Ex::Sep(Box::new(x.clone()), Box::new(y.clone()), true),
        Bin::SepN => Ex::Sep(Box::new(x.clone()), Box::new(y.clone()), false),
        Bin::Suf => Ex::Suf(Box::new(x.clone()), false, vec![y.clone()]),
        Bin::SufS => Ex::Suf(Box::new(x.clone()), true, vec![y.clone()]),
    }
}
pub fn mk3(t: Ter, x: &Ex, y: &Ex, w: &Ex) -> Ex {
    match t {
        Ter::Cat => Ex::Cat(vec![x.clone(), y.clone(), w.clone()]),
        Ter::Alt => Ex::Alt(vec![x.clone(), y.clone(), w.clone()]),
        Ter::Suf => Ex::Suf(Box::new(x.clone()), false, vec![y.clone(), w.clone()]),
        Ter::SufS => Ex::Suf(Box::new(x.clone()), true, vec![y.clone(), w.clone()]),
    }
}

impl Space {
    /// All expressions of every size 1..=n (index = size).
    pub fn tables(&self, n: usize) -> Vec<Vec<Ex>> {
        let mut t: Vec<Vec<Ex>> = vec![vec![]];
        for s in 1..=n {
            let mut v = Vec::new();
            self.stream_size(&t, s, &mut |e| v.push(e));
            t.push(v);
        }
        t
    }
    /// Stream all expressions of size exactly `s`, given tables for all smaller sizes.
    pub fn stream_size(&self, t: &[Vec<Ex>], s: usize, f: &mut dyn FnMut(Ex)) {
        if s == 1 {
            for l in &self.leaves {
                f(l.clone());
            }
            return;
        }
        for u in &self.un {
            for x in &t[s - 1] {
                f(mk1(*u, x));
            }
        }
        for b in &self.bin {
            for i in 1..s.saturating_sub(1) {
                let j = s - 1 - i;
                for x in &t[i] {
                    for y in &t[j] {
                        f(mk2(*b, x, y));
                    }
                }
            }
        }
        for b in &self.ter {
            for i in 1..s {
                for j in 1..s {
                    if i + j + 1 >= s {
                        continue;
                    }
                    let k = s - 1 - i - j;
                    for x in &t[i] {
                        for y in &t[j] {
                            for w in &t[k] {
                                f(mk3(*b, x, y, w));
                            }
                        }
                    }
                }
            }
        }
    }
}

/// All strings over `0..k` of length 0..=n, shortest first.
pub fn strings(k: u8, n: usize) -> Vec<Vec<u8>> {
    let mut r: Vec<Vec<u8>> = vec![vec![]];
    let mut lo = 0;
    for _ in 0..n {
        let hi = r.len();
        for i in lo..hi {
            for c in 0..k {
                let mut s = r[i].clone();
                s.push(c);
                r.push(s);
            }
        }
        lo = hi;
    }
    r
}
