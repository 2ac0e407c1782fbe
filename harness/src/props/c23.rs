//! C23: the bundled JSON grammars.
use crate::engine::*;
use crate::lexm::bytes;
use lang_pt::examples::json::{lexerless, tokenized};
use lang_pt::{ASTNode, Code};
use std::fmt::Debug;

pub const PROP: Prop = Prop {
    id: "C23",
    run,
    space: "every sequence of up to 6 (thorough 7) JSON tokens without blanks, every text of length <= 5 (6) over quote, backslash, \
blank, line break, digit, point, e, minus, brackets and comma, every placement of blanks in small values, every byte inserted at or \
replacing every place of sample values, every truncation of nested values; nesting up to 1 000 deep and up to 5 000 elements; \
acceptance, tree with spans and error pointer of both grammars compared with a hand-written recogniser; nesting to 2 600 and 66 000 elements; long strings and numbers",
    assumptions: &[
        "as shipped, both grammars tolerate one trailing comma in a non-empty object or array, and an empty object or array has one \
null leaf",
        "the lexical forms are those of the bundled patterns (numbers without sign; multi-line strings by backslash)",
    ],
};

#[derive(Clone, Debug, PartialEq, Eq)]
struct N {
    v: &'static str,
    s: usize,
    e: usize,
    c: Vec<N>,
}

// ---- lexical forms -------------------------------------------------------------------
fn scalar(t: &[u8]) -> Option<(char, usize)> {
    (1..=t.len().min(4)).find_map(|n| std::str::from_utf8(&t[..n]).ok().map(|s| (s.chars().next().unwrap(), n)))
}
fn spaces(t: &[u8], stop: &[char]) -> usize {
    let mut i = 0;
    while let Some((c, n)) = scalar(&t[i..]) {
        if !c.is_whitespace() || stop.contains(&c) {
            break;
        }
        i += n;
    }
    i
}
fn string(t: &[u8]) -> Option<usize> {
    if t.first() != Some(&b'"') {
        return None;
    }
    let mut i = 1;
    loop {
        match t.get(i)? {
            b'"' => return Some(i + 1),
            b'\r' | b'\n' => return None,
            b'\\' => {
                let j = i + 1 + spaces(&t[i + 1..], &['\r', '\n']);
                if matches!(t.get(j), Some(b'\r') | Some(b'\n')) {
                    i = j + 1;
                    i += spaces(&t[i..], &['\r', '\n']);
                } else {
                    let (c, n) = scalar(&t[i + 1..])?;
                    if c == '\n' {
                        return None;
                    }
                    i += 1 + n;
                }
            }
            _ => i += scalar(&t[i..])?.1,
        }
    }
}
fn digits(t: &[u8]) -> usize {
    t.iter().take_while(|c| c.is_ascii_digit()).count()
}
fn number(t: &[u8]) -> Option<usize> {
    let mut i = digits(t);
    if i == 0 {
        return None;
    }
    if t.get(i) == Some(&b'.') && digits(&t[i + 1..]) > 0 {
        i += 1 + digits(&t[i + 1..]);
    }
    if matches!(t.get(i), Some(b'e') | Some(b'E')) {
        let s = if matches!(t.get(i + 1), Some(b'+') | Some(b'-')) { 2 } else { 1 };
        let d = t.get(i + s..).map_or(0, digits);
        if d > 0 {
            i += s + d;
        }
    }
    Some(i)
}
fn constant(t: &[u8]) -> Option<usize> {
    ["true", "false", "null"].iter().find(|w| t.starts_with(w.as_bytes())).map(|w| w.len())
}

// ---- over tokens ---------------------------------------------------------------------
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum T {
    P(u8),
    Str,
    Num,
    Con,
    End,
}
struct Tk {
    t: T,
    s: usize,
    e: usize,
}
fn tokens(t: &[u8]) -> Result<Vec<Tk>, usize> {
    let mut v = vec![];
    let mut i = 0;
    while i < t.len() {
        let r = &t[i..];
        let n = spaces(r, &[]);
        if n > 0 {
            i += n;
            continue;
        }
        let (k, n) = if b"{}[],:".contains(&r[0]) {
            (T::P(r[0]), 1)
        } else if let Some(n) = string(r) {
            (T::Str, n)
        } else if let Some(n) = number(r) {
            (T::Num, n)
        } else if let Some(n) = constant(r) {
            (T::Con, n)
        } else {
            return Err(i);
        };
        v.push(Tk { t: k, s: i, e: i + n });
        i += n;
    }
    v.push(Tk { t: T::End, s: i, e: i });
    Ok(v)
}
struct P<'a> {
    t: &'a [Tk],
    max: usize,
}
type R = Option<(usize, Vec<N>)>;
impl<'a> P<'a> {
    fn hit(&mut self, i: usize, k: T) -> bool {
        let ok = self.t[i].t == k;
        if ok {
            self.max = self.max.max(self.t[i].e);
        }
        ok
    }
    fn leaf(&self, v: &'static str, i: usize) -> N {
        N { v, s: self.t[i].s, e: self.t[i].e, c: vec![] }
    }
    fn node(&self, v: &'static str, i: usize, j: usize, c: Vec<N>) -> N {
        N { v, s: self.t[i].s, e: self.t[j].s, c }
    }
    fn value(&mut self, i: usize) -> R {
        for (k, n) in [(T::Str, "String"), (T::Num, "Number"), (T::Con, "Constant")] {
            if self.hit(i, k) {
                return Some((i + 1, vec![self.leaf(n, i)]));
            }
        }
        if self.hit(i, T::P(b'{')) {
            return self.rest(i, b'}', "Object");
        }
        if self.hit(i, T::P(b'[')) {
            return self.rest(i, b']', "Array");
        }
        None
    }
    fn item(&mut self, i: usize) -> R {
        if !self.hit(i, T::Str) {
            return None;
        }
        let mut c = vec![self.leaf("Key", i)];
        if !self.hit(i + 1, T::P(b':')) {
            return None;
        }
        let (j, v) = self.value(i + 2)?;
        c.extend(v);
        Some((j, vec![self.node("Item", i, j, c)]))
    }
    fn rest(&mut self, open: usize, close: u8, name: &'static str) -> R {
        let mut i = open + 1;
        let mut c = vec![];
        let mut first = true;
        loop {
            let r = if close == b'}' { self.item(i) } else { self.value(i) };
            match r {
                Some((j, v)) => {
                    c.extend(v);
                    i = j;
                    first = false;
                }
                None if first => {
                    c.push(N { v: "NULL", s: self.t[i].s, e: self.t[i].s, c: vec![] });
                    break;
                }
                None => break,
            }
            if !self.hit(i, T::P(b',')) {
                break;
            }
            i += 1;
        }
        if !self.hit(i, T::P(close)) {
            return None;
        }
        Some((i + 1, vec![self.node(name, open, i + 1, c)]))
    }
}
fn by_tokens(t: &[u8]) -> Result<N, usize> {
    let tk = tokens(t)?;
    let mut p = P { t: &tk, max: 0 };
    if let Some((i, v)) = p.value(0) {
        if tk[i].t == T::End {
            return Ok(N { v: "Main", s: tk[0].s, e: t.len(), c: v });
        }
    }
    let m = p.max;
    Err(tk.iter().find(|k| k.s >= m).map_or(t.len(), |k| k.s))
}

// ---- over bytes ----------------------------------------------------------------------
struct B<'a> {
    t: &'a [u8],
    max: usize,
}
impl<'a> B<'a> {
    fn to(&mut self, i: usize) -> usize {
        self.max = self.max.max(i);
        i
    }
    fn ws(&mut self, i: usize) -> usize {
        let n = spaces(&self.t[i..], &[]);
        self.to(i + n)
    }
    fn ch(&mut self, i: usize, c: u8) -> Option<usize> {
        if self.t.get(i) == Some(&c) {
            Some(self.to(i + 1))
        } else {
            None
        }
    }
    fn spaced(&mut self, i: usize, c: u8) -> Option<usize> {
        let i = self.ws(i);
        let i = self.ch(i, c)?;
        Some(self.ws(i))
    }
    fn value(&mut self, i: usize) -> R {
        if let Some(j) = self.ch(i, b'{') {
            if let Some(r) = self.rest(i, j, b'}', "Object") {
                return Some(r);
            }
        }
        if let Some(n) = string(&self.t[i..]) {
            let j = self.to(i + n);
            return Some((j, vec![N { v: "String", s: i, e: j, c: vec![] }]));
        }
        if let Some(j) = self.ch(i, b'[') {
            if let Some(r) = self.rest(i, j, b']', "Array") {
                return Some(r);
            }
        }
        for (n, v) in [(number(&self.t[i..]), "Number"), (constant(&self.t[i..]), "Constant")] {
            if let Some(n) = n {
                let j = self.to(i + n);
                return Some((j, vec![N { v, s: i, e: j, c: vec![] }]));
            }
        }
        None
    }
    fn item(&mut self, i: usize) -> R {
        let n = string(&self.t[i..])?;
        let j = self.to(i + n);
        let mut c = vec![N { v: "String", s: i, e: j, c: vec![] }];
        let j = self.spaced(j, b':')?;
        let (j, v) = self.value(j)?;
        c.extend(v);
        Some((j, vec![N { v: "Item", s: i, e: j, c }]))
    }
    fn rest(&mut self, open: usize, i: usize, close: u8, name: &'static str) -> R {
        let mut i = self.ws(i);
        let mut c = vec![];
        let mut first = true;
        loop {
            let r = if close == b'}' { self.item(i) } else { self.value(i) };
            match r {
                Some((j, v)) => {
                    c.extend(v);
                    i = j;
                    first = false;
                }
                None if first => {
                    c.push(N { v: "NULL", s: i, e: i, c: vec![] });
                    break;
                }
                None => break,
            }
            match self.spaced(i, b',') {
                Some(j) => i = j,
                None => break,
            }
        }
        let j = self.ws(i);
        let j = self.ch(j, close)?;
        Some((j, vec![N { v: name, s: open, e: j, c }]))
    }
}
fn by_bytes(t: &[u8]) -> Result<N, usize> {
    let mut p = B { t, max: 0 };
    let i = p.ws(0);
    if let Some((j, v)) = p.value(i) {
        let j = p.ws(j);
        if j == t.len() {
            return Ok(N { v: "Main", s: 0, e: j, c: v });
        }
    }
    Err(p.max)
}

// ---- comparison ----------------------------------------------------------------------
fn name(s: String) -> &'static str {
    ["Key", "String", "Number", "Constant", "Array", "Object", "Item", "Main", "NULL"].iter().find(|n| **n == s).unwrap_or(&"?")
}
fn conv<X: Debug>(a: &ASTNode<X>) -> N {
    N { v: name(format!("{:?}", a.node)), s: a.start, e: a.end, c: a.children.iter().map(conv).collect() }
}
fn shape(n: &N) -> N {
    N { v: if n.v == "Key" { "String" } else { n.v }, s: 0, e: 0, c: n.c.iter().map(shape).collect() }
}
fn spans(n: &N) -> N {
    N { v: if n.v == "Key" { "String" } else { n.v }, s: n.s, e: n.e, c: n.c.iter().map(spans).collect() }
}
fn show(r: &Result<N, usize>) -> String {
    fn f(n: &N, o: &mut String) {
        o.push_str(&format!("{}@{}-{}", n.v, n.s, n.e));
        if !n.c.is_empty() {
            o.push('(');
            for (i, c) in n.c.iter().enumerate() {
                if i > 0 {
                    o.push(' ');
                }
                f(c, o);
            }
            o.push(')');
        }
    }
    match r {
        Ok(n) => {
            let mut s = String::new();
            f(n, &mut s);
            s
        }
        Err(p) => format!("error at {}", p),
    }
}

struct G {
    tok: lang_pt::DefaultParser<tokenized::JSONNode, tokenized::JSONToken>,
    txt: lang_pt::LexerlessParser<lexerless::JSONNode>,
}

fn one(w: &mut W, g: &G, t: &[u8]) -> bool {
    w.traces += 2;
    let e1 = by_tokens(t);
    let e2 = by_bytes(t);
    let r1 = guarded(|| g.tok.parse(t).map_err(|e| e.pointer));
    let r2 = guarded(|| g.txt.parse(t).map_err(|e| e.pointer));
    let fix = |r: Result<N, String>| r;
    let _ = fix;
    fn root<X: Debug>(r: Result<Result<Vec<ASTNode<X>>, usize>, String>) -> Result<Result<N, usize>, String> {
        match r {
            Err(m) => Err(format!("PANIC {}", m)),
            Ok(Err(p)) => Ok(Err(p)),
            Ok(Ok(v)) if v.len() == 1 => Ok(Ok(conv(&v[0]))),
            Ok(Ok(v)) => Err(format!("{} root nodes", v.len())),
        }
    }
    let mut ok = true;
    let mut bad = |w: &mut W, k: &str, what: &str, e: &Result<N, usize>, got: String| {
        ok = false;
        w.viol(k, format!("{} JSON grammar on {:?}\nexpected: {}\nobserved: {}", what, String::from_utf8_lossy(t), show(e), got));
    };
    match root(r1) {
        Ok(x) if x == e1 => {}
        Ok(x) => bad(w, "tokenized", "tokenized", &e1, show(&x)),
        Err(m) => bad(w, "tokenized-panic", "tokenized", &e1, m),
    }
    match root(r2) {
        Ok(x) if x == e2 => {}
        Ok(x) => bad(w, "lexerless", "lexerless", &e2, show(&x)),
        Err(m) => bad(w, "lexerless-panic", "lexerless", &e2, m),
    }
    // the two references agree with each other as the property says
    match (&e1, &e2) {
        (Ok(a), Ok(b)) => {
            let blank = spaces(t, &[]) > 0 || String::from_utf8_lossy(t).chars().any(char::is_whitespace);
            if shape(a) != shape(b) || !blank && spans(a) != spans(b) {
                w.viol("reference", format!("the two readings of {:?} differ", String::from_utf8_lossy(t)));
            }
            w.count("accepted", 1);
        }
        (Err(_), Err(_)) => w.count("rejected", 1),
        _ => w.viol("agreement", format!("only one grammar has to accept {:?}: tokens {}, bytes {}", String::from_utf8_lossy(t), show(&e1), show(&e2))),
    }
    w.states += t.len() as u64 + 1;
    w.transitions += t.len() as u64;
    w.sample(|| format!("{:?} -> {}", String::from_utf8_lossy(t), show(&e1)));
    ok
}

fn values(d: usize) -> Vec<String> {
    let mut v: Vec<String> = ["\"k\"", "12.5e+3", "null", "{}", "[]", "\"\"", "0"].iter().map(|s| s.to_string()).collect();
    for _ in 0..d {
        let base: Vec<String> = v.iter().take(8).cloned().collect();
        let mut next = vec![];
        for a in &base {
            next.push(format!("[{}]", a));
            next.push(format!("[{},]", a));
            next.push(format!("{{\"a\":{}}}", a));
            next.push(format!("{{\"a\":{},}}", a));
            for b in base.iter().take(4) {
                next.push(format!("[{},{}]", a, b));
                next.push(format!("{{\"a\":{},\"\\\"\":{}}}", a, b));
            }
        }
        next.extend(v);
        v = next;
    }
    v
}

fn run(w: &mut W, tier: Tier) {
    let g = G { tok: tokenized::json_grammar(), txt: lexerless::json_lexerless_grammar() };
    let lex: [&[u8]; 9] = [b"{", b"}", b"[", b"]", b",", b":", b"\"k\"", b"1", b"true"];
    // token sequences, each last token enumerated inside the case
    let n = tier.pick(5, 6);
    for s in crate::gram::strings(9, n) {
        if w.stop() {
            return;
        }
        if !w.next() {
            continue;
        }
        let head: Vec<u8> = s.iter().flat_map(|c| lex[*c as usize].to_vec()).collect();
        if s.is_empty() && !one(w, &g, &head) {
            continue;
        }
        for l in lex {
            if !one(w, &g, &[&head, l].concat()) {
                break;
            }
        }
    }
    // lexical forms
    let chars: [&[u8]; 12] = [b"\"", b"\\", b" ", b"\n", b"1", b".", b"e", b"-", b"[", b"]", b",", "\u{a0}".as_bytes()];
    for head in bytes(&chars, tier.pick(4, 5)) {
        if w.stop() {
            return;
        }
        if !w.next() {
            continue;
        }
        for l in chars {
            if !one(w, &g, &[&head, l].concat()) {
                break;
            }
        }
    }
    let vals = values(2);
    // inside a string: every text of length <= 5 between quotes
    for body in bytes(&[b"\\", b"\r", b"\n", b"\t", b"\"", b"n", "\u{e9}".as_bytes(), b"\xff"], tier.pick(4, 6)) {
        if w.next() {
            one(w, &g, &[b"\"", &body[..], b"\""].concat());
            one(w, &g, &[b"[\"", &body[..], b"\",1]"].concat());
        }
    }
    // blanks in every gap
    let blank = [&b""[..], b" ", b"\n\t", b"\r\n  "];
    for v in vals.iter().filter(|v| v.len() <= 14) {
        if !w.next() {
            continue;
        }
        let tk = tokens(v.as_bytes()).unwrap();
        let gaps = tk.len();
        let total = 4usize.pow(gaps as u32);
        for code in 0..total.min(tier.pick(1 << 12, 1 << 16)) {
            let mut t = vec![];
            let mut c = code;
            for k in &tk {
                t.extend_from_slice(blank[c % 4]);
                c /= 4;
                t.extend_from_slice(&v.as_bytes()[k.s..k.e]);
            }
            if !one(w, &g, &t) {
                break;
            }
        }
    }
    // values, their truncations, and every byte put anywhere in the short ones
    for v in &vals {
        if w.stop() {
            return;
        }
        if !w.next() {
            continue;
        }
        let t = v.as_bytes();
        for i in 0..=t.len() {
            one(w, &g, &t[..i]);
            one(w, &g, &t[i..]);
            one(w, &g, &[&t[..i], &t[(i + 1).min(t.len())..]].concat());
        }
        if t.len() <= tier.pick(7, 12) {
            for i in 0..=t.len() {
                for c in 0..=255u8 {
                    one(w, &g, &[&t[..i], &[c], &t[i..]].concat());
                    if i < t.len() {
                        one(w, &g, &[&t[..i], &[c], &t[i + 1..]].concat());
                    }
                }
            }
        }
    }
    // deep and wide; a failing lexerless alternative is tried once per level, so failures stay linear
    for k in super::suite::LONG.iter().cloned().chain([500, 1000, 2600]) {
        if !w.next() {
            continue;
        }
        for (o, m, c) in [("[", "1", "]"), ("{\"a\":", "{}", "}"), ("[{\"b\":", "[]", "}]"), ("[1,", "\"\"", ",]")] {
            let t = format!("{}{}{}", o.repeat(k), m, c.repeat(k));
            one(w, &g, t.as_bytes());
            let b = t.as_bytes();
            one(w, &g, &b[..b.len() - 1]);
            one(w, &g, &[b, b"]"].concat());
            one(w, &g, o.repeat(k).as_bytes());
            one(w, &g, format!("{}{}{}", o.repeat(k), m, c.repeat(k - 1)).as_bytes());
        }
        let items = vec!["true"; k].join(",");
        let pairs = vec!["\"x\":[]"; k].join(", ");
        for t in [format!("[{}]", items), format!("[{},]", items), format!("[{},,]", items), format!("{{{}}}", pairs), format!("{{{},}}", pairs), format!("{{{}", pairs), format!("[{}", items)] {
            one(w, &g, t.as_bytes());
        }
        one(w, &g, format!("\"{}\"", "ab\\\\".repeat(k)).as_bytes());
        one(w, &g, format!("{}.{}E-{}", "9".repeat(k), "0".repeat(k), "3".repeat(k)).as_bytes());
    }
    for n in [5000usize, 33_000, 66_000] {
        if !w.next() {
            continue;
        }
        let t = format!("[{}]", vec!["{\"a\":1}"; n].join(",\n"));
        one(w, &g, t.as_bytes());
        one(w, &g, &t.as_bytes()[..t.len() - 1]);
    }
    // tokens of the bundled tokenizer
    for v in &vals {
        if !w.next() {
            continue;
        }
        let t = format!(" {}\n", v);
        let exp = tokens(t.as_bytes()).unwrap();
        let got = guarded(|| g.tok.tokenize(&Code::new(t.as_bytes())));
        w.traces += 1;
        let kind = |k: T| match k {
            T::P(b'{') => "OpenBrace",
            T::P(b'}') => "CloseBrace",
            T::P(b'[') => "OpenBracket",
            T::P(b']') => "CloseBracket",
            T::P(b',') => "Comma",
            T::P(_) => "Colon",
            T::Str => "String",
            T::Num => "Number",
            T::Con => "Constant",
            T::End => "EOF",
        };
        let ok = match &got {
            Ok(Ok(v)) => {
                let v: Vec<(String, usize, usize)> = v.iter().filter(|l| format!("{:?}", l.token) != "Space").map(|l| (format!("{:?}", l.token), l.start, l.end)).collect();
                v == exp.iter().map(|k| (kind(k.t).to_string(), k.s, k.e)).collect::<Vec<_>>()
            }
            _ => false,
        };
        if !ok {
            w.viol("tokens", format!("tokens of {:?}: {:?}", t, got));
        }
    }
}
