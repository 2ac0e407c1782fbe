//! C02: literal sets take the longest listed literal.
use super::common::*;
use crate::engine::*;
use crate::lexm::*;
use lang_pt::lexeme::{Constants, Punctuations};
use lang_pt::production::{Concat, ConstantField, ConstantFieldSet, List, PunctuationsField};
use lang_pt::{Code, ILexeme, Lex};
use std::rc::Rc;

pub const PROP: Prop = Prop {
    id: "C02",
    run,
    space: "every ordered list of up to 4 distinct literals from the 14 of length <= 3 over {a,b} and of up to 3 (thorough 4) from a pool with \
multi-byte letters, through all four set realisations (two lexemes, two lexerless symbols), consumed at every offset of every \
text of length <= 5 (6); every permutation of chains of 5 (6) prefixes; literals up to 131 075 bytes; sets of up to 256 literals \
sharing and not sharing first bytes; single literal symbols for every literal of length <= 3 and every byte; duplicates at \
every place; empty literals; literals with blanks, upper-case twins and special characters; sets of up to 300 literals; more than one literal without a first byte of its own",
    assumptions: &["values of duplicated literals in sets that do not promise to reject duplicates are unspecified"],
};

/// (token index of the literal, its length)
fn want(v: &[String], t: &[u8]) -> Option<(usize, usize)> {
    let mut r: Option<(usize, usize)> = None;
    for (i, s) in v.iter().enumerate() {
        if t.starts_with(s.as_bytes()) && r.map_or(true, |x| x.1 < s.len()) {
            r = Some((i, s.len()));
        }
    }
    r
}

type Got = Result<Option<(usize, usize)>, String>;

/// `values[i]`: does literal `i` carry a node value (else it is hidden)?
fn go(w: &mut W, v: &[String], texts: &[Vec<u8>], hidden: usize) -> bool {
    let toks: Vec<(&str, i8)> = v.iter().enumerate().map(|(i, s)| (s.as_str(), (i % 120) as i8)).collect();
    let nodes: Vec<(&str, Option<u16>)> =
        v.iter().enumerate().map(|(i, s)| (s.as_str(), if hidden >> (i % 60) & 1 == 1 { None } else { Some(i as u16 + 1) })).collect();
    let empty = v.iter().any(|s| s.is_empty());
    let mk = guarded(|| {
        (
            Punctuations::<i8, u8>::new(toks.clone()),
            Constants::<i8, u8>::new(toks.clone()),
            PunctuationsField::<u16, i8>::new(nodes.clone()),
            ConstantFieldSet::<u16, i8>::new(nodes.clone()),
        )
    });
    let (pl, cl, pf, cf) = match mk {
        Ok(x) => x,
        Err(m) => {
            w.viol("construction-panic", format!("set {:?}: {}", v, m));
            return false;
        }
    };
    let mut ls: Vec<(&str, Box<dyn ILexeme<Token = i8, State = u8>>)> = vec![("Constants", Box::new(cl))];
    match pl {
        Ok(p) if !empty => ls.push(("Punctuations", Box::new(p))),
        Err(_) if empty => {}
        Ok(_) => {
            w.viol("empty-literal", format!("Punctuations accepts an empty literal in {:?}", v));
            return false;
        }
        Err(e) => {
            w.viol("construction", format!("Punctuations refuses {:?}: {}", v, e));
            return false;
        }
    }
    let pf = match pf {
        Ok(p) => Rc::new(p),
        Err(e) => {
            w.viol("construction", format!("PunctuationsField refuses {:?}: {}", v, e));
            return false;
        }
    };
    let cf = Rc::new(cf);
    let ps: Vec<(&str, Lp)> = match guarded(|| {
        vec![("PunctuationsField", Lp::new(pf.clone()).unwrap()), ("ConstantFieldSet", Lp::new(cf.clone()).unwrap())]
    }) {
        Ok(p) => p,
        Err(m) => {
            w.viol("construction", format!("parser over the set {:?}: {}", v, m));
            return false;
        }
    };
    let reps: Vec<(&str, Lp)> = if empty {
        vec![]
    } else {
        vec![
            ("List(PunctuationsField)", Lp::new(Rc::new(List::new(&pf))).unwrap()),
            ("List(ConstantFieldSet)", Lp::new(Rc::new(List::new(&cf))).unwrap()),
        ]
    };
    for x in texts {
        // lexemes at every offset
        let nv: Vec<String> = v.iter().map(|s| if s.is_empty() { "\u{1}\u{2}\u{3}none".into() } else { s.clone() }).collect();
        for p in 0..x.len() {
            let exp = want(if empty { &nv } else { v }, &x[p..]);
            for (n, l) in &ls {
                w.traces += 1;
                let before: Vec<Lex<i8>> = vec![];
                let mut st: Vec<u8> = vec![9];
                let got: Got = guarded(|| l.consume(&Code::new(x), p, &before, &mut st).map(|l| (l.token as usize, l.start, l.end)))
                    .map(|o| o.map(|(t, s, e)| (t, if s == p { e.wrapping_sub(s) } else { usize::MAX })));
                if got != Ok(exp.map(|(i, n)| (i % 120, n))) || st != [9] {
                    w.viol("lexeme", format!("{} {:?} at {} of {:?}: expected (literal, length) {:?}, observed {:?}", n, v, p, String::from_utf8_lossy(x), exp, got));
                    return false;
                }
            }
        }
        // symbols at the start, and as far as they repeat
        let exp = want(v, x);
        w.states += x.len() as u64 + 1;
        w.transitions += v.len() as u64;
        for (n, p) in &ps {
            w.traces += 1;
            let got = out(guarded(|| p.parse(x)));
            let ok = match (exp, &got) {
                (Some((i, len)), Out::Ok(_, t)) => match nodes[i].1 {
                    None => t.is_empty(),
                    Some(v) => t.len() == 1 && t[0].v == v && t[0].s == 0 && t[0].e == len && t[0].c.is_empty(),
                },
                (None, Out::Err(p, _)) => *p == 0,
                _ => false,
            };
            if !ok {
                w.viol("symbol", format!("{} {:?} on {:?}: expected (literal, length) {:?}, observed {}", n, v, String::from_utf8_lossy(x), exp, got.show()));
                return false;
            }
        }
        for (n, p) in &reps {
            w.traces += 1;
            let mut at = 0;
            let mut t = vec![];
            while let Some((i, len)) = want(v, &x[at..]) {
                if let Some(n) = nodes[i].1 {
                    t.push((n, at, at + len));
                }
                at += len;
            }
            let got = out(guarded(|| p.parse(x)));
            let ok = match &got {
                Out::Ok(_, u) => at > 0 && u.iter().map(|n| (n.v, n.s, n.e)).collect::<Vec<_>>() == t,
                Out::Err(p, _) => at == 0 && *p == 0,
                _ => false,
            };
            if !ok {
                w.viol("repeated", format!("{} {:?} on {:?}: expected {:?}, observed {}", n, v, String::from_utf8_lossy(x), t, got.show()));
                return false;
            }
        }
        w.sample(|| format!("{:?} on {:?} -> {:?}", v, String::from_utf8_lossy(x), exp));
    }
    true
}

fn perms(v: &[String], k: usize, f: &mut dyn FnMut(&[String])) {
    fn rec(v: &[String], k: usize, cur: &mut Vec<String>, f: &mut dyn FnMut(&[String])) {
        if !cur.is_empty() {
            f(cur);
        }
        if cur.len() < k {
            for s in v {
                if !cur.contains(s) {
                    cur.push(s.clone());
                    rec(v, k, cur, f);
                    cur.pop();
                }
            }
        }
    }
    rec(v, k, &mut vec![], f)
}

fn run(w: &mut W, tier: Tier) {
    let strs = |n: usize| -> Vec<String> { bytes(&[b"a", b"b"], n).into_iter().map(|b| String::from_utf8(b).unwrap()).collect() };
    let mut universe = strs(3);
    universe.remove(0);
    let texts = bytes(&[b"a", b"b"], tier.pick(5, 6));
    let mut h = 0usize;
    perms(&universe, tier.pick(4, 4), &mut |v| {
        h += 1;
        if w.next() {
            go(w, v, &texts, if v.len() <= 2 { h } else { 0 });
        }
    });
    // with empty literals, operators, letters outside ASCII that share leading bytes
    let pool: Vec<String> =
        ["", "a", "\u{e9}", "\u{e8}", "e\u{301}", "\u{20ac}", "\u{20ad}\u{e9}", "<", "<<", "<<=", "=", "\u{1f600}", "\n", "\u{0}"].iter().map(|s| s.to_string()).collect();
    let mut texts2: Vec<Vec<u8>> = vec![vec![]];
    for a in &pool {
        for b in &pool {
            texts2.push(format!("{}{}", a, b).into_bytes());
            let s = format!("{}{}=", a, b).into_bytes();
            texts2.push(s[..s.len() - 1].to_vec());
            // cut inside a letter
            if s.len() > 2 {
                texts2.push(s[..s.len() - 2].to_vec());
                texts2.push(s[1..].to_vec());
            }
        }
    }
    texts2.sort();
    texts2.dedup();
    perms(&pool, tier.pick(3, 4), &mut |v| {
        if w.next() {
            go(w, v, &texts2, 0);
        }
    });
    // blanks of every kind, byte order mark, upper case: nothing is trimmed, folded or skipped
    let pool3: Vec<String> =
        ["a", "A", " ", " a", "a ", "\t", "\r\n", "\r", "\u{feff}", "\u{feff}a", "\u{2028}", "\u{a0}a", "\u{130}"].iter().map(|s| s.to_string()).collect();
    let mut texts3: Vec<Vec<u8>> = vec![vec![]];
    for a in &pool3 {
        for b in &pool3 {
            texts3.extend([format!("{}{}", a, b).into_bytes(), format!("{}{}a", a, b).into_bytes()]);
        }
    }
    texts3.sort();
    texts3.dedup();
    perms(&pool3, 3, &mut |v| {
        if w.next() {
            go(w, v, &texts3, 0);
        }
    });
    // chains of prefixes in every listing order
    let k = tier.pick(5, 6);
    for unit in ["a", "ab", "aab"] {
        let chain: Vec<String> = (1..=k).map(|i| unit.repeat(9)[..i].to_string()).collect();
        let t: Vec<Vec<u8>> = (0..=k + 2).flat_map(|i| [unit.repeat(9).as_bytes()[..i].to_vec(), [&unit.as_bytes().repeat(9)[..i], b"x"].concat()]).collect();
        perms(&chain, k, &mut |v| {
            if v.len() >= k - 1 && w.next() {
                go(w, v, &t, 0);
            }
        });
    }
    // long literals with gaps
    for lens in [vec![1, 300], vec![2, 64, 65], vec![127, 128, 129], vec![1, 3, 255, 256, 257], vec![16, 32, 33], vec![511, 512, 513], vec![1023, 1024], vec![1025], vec![1, 2047, 2049], vec![4096, 4097]] {
        if w.next() {
            let v: Vec<String> = lens.iter().map(|n| "ab".repeat(3000)[..*n].to_string()).collect();
            let rev: Vec<String> = v.iter().rev().cloned().collect();
            let t: Vec<Vec<u8>> = lens.iter().flat_map(|n| [n - 1, *n, n + 1]).flat_map(|n| {
                let s = "ab".repeat(3000)[..n].as_bytes().to_vec();
                [s.clone(), [&s[..], b"z"].concat()]
            }).collect();
            go(w, &v, &t, 0);
            go(w, &rev, &t, 0);
        }
    }
    // literals beyond the sizes where narrower counters would wrap
    for lens in [vec![1usize, 65_535], vec![65_536], vec![2, 65_537, 65_539], vec![4, 65_540, 131_075]] {
        if w.next() {
            let s = format!("x{}", "a".repeat(131_080));
            let v: Vec<String> = lens.iter().map(|n| s[..*n].to_string()).collect();
            let rev: Vec<String> = v.iter().rev().cloned().collect();
            let t: Vec<Vec<u8>> = lens.iter().flat_map(|n| [s.as_bytes()[..n - 1].to_vec(), s.as_bytes()[..*n].to_vec(), s.as_bytes()[..n + 1].to_vec()]).collect();
            go(w, &v, &t, 0);
            go(w, &rev, &t, 0);
        }
    }
    // large sets
    for n in [2usize, 7, 8, 15, 16, 17, 31, 33, 64, 100, 117, 256, 257, 600] {
        for shape in 0..8 {
            if !w.next() {
                continue;
            }
            let all: Vec<String> = (0..n)
                .map(|i| {
                    // letters of one byte as long as they last, then of two
                    let c = char::from_u32(10 + i as u32).unwrap();
                    match shape {
                        4 => format!("common{}{}", "p".repeat(12), c),
                        5 => format!("{}{}", "p".repeat(8 * (i % 3)), c),
                        6 => format!("{}{}{}", c, "tail".repeat(20), i),
                        7 => format!("k{}", i),
                        0 => format!("{}", c),
                        1 => format!("k{}", c),
                        2 => format!("{}{}", c, "z".repeat(i % 5)),
                        _ => "q".repeat(i + 1),
                    }
                })
                .collect();
            let rev: Vec<String> = all.iter().rev().cloned().collect();
            let mid: Vec<String> = all[n / 2..].iter().chain(&all[..n / 2]).cloned().collect();
            let mut t: Vec<Vec<u8>> = all.iter().map(|s| s.as_bytes().to_vec()).collect();
            t.extend(all.iter().map(|s| format!("{}!", s).into_bytes()));
            t.push(b"k".to_vec());
            t.push(b"!".to_vec());
            for v in [&all, &rev, &mid] {
                go(w, v, &t, 0);
            }
        }
    }
    // duplicates are refused by punctuation sets, wherever they stand
    for n in 2..=tier.pick(4usize, 6) {
        for i in 0..n {
            for j in 0..n {
                if i == j || !w.next() {
                    continue;
                }
                for base in [["a", "b", "ab", "aa", "ba", "bb"], ["abc", "ab", "abcd", "a", "b", "bc"]] {
                    let mut v: Vec<&str> = base[..n].to_vec();
                    v[i] = v[j];
                    w.traces += 2;
                    let a = guarded(|| Punctuations::<i8, u8>::new(v.iter().enumerate().map(|(i, s)| (*s, i as i8)).collect()).is_err());
                    let b = guarded(|| PunctuationsField::<u16, i8>::new(v.iter().enumerate().map(|(k, s)| (*s, if k == i { None } else { Some(k as u16) })).collect()).is_err());
                    if a != Ok(true) || b != Ok(true) {
                        w.viol("duplicate", format!("duplicate literal in {:?}: Punctuations refuses: {:?}, PunctuationsField refuses: {:?}", v, a, b));
                    }
                }
            }
        }
    }
    // single literal symbols
    let mut singles = strs(3);
    singles.remove(0);
    singles.extend(pool3.iter().cloned());
    singles.extend(pool.iter().filter(|s| !s.is_empty()).cloned());
    singles.extend((0..=127u8).map(|c| (c as char).to_string()));
    singles.push("ab".repeat(150));
    for s in &singles {
        if !w.next() {
            continue;
        }
        let mut t: Vec<Vec<u8>> = texts.iter().filter(|t| t.len() <= 4).chain(&texts2).chain(&texts3).cloned().collect();
        t.extend((0..=255u8).map(|c| vec![c]));
        t.push(s.as_bytes().to_vec());
        t.push(s.as_bytes()[..s.len() - 1].to_vec());
        t.push([s.as_bytes(), b"a"].concat());
        for vis in [None, Some(7u16)] {
            let f = Rc::new(ConstantField::<u16, i8>::new(s, vis));
            let p = Lp::new(f.clone()).unwrap();
            let q = Lp::new(Rc::new(Concat::new("two", vec![f.clone(), f.clone()]))).unwrap();
            for x in &t {
                w.traces += 2;
                w.states += 1;
                w.transitions += 1;
                let one = out(guarded(|| p.parse(x)));
                let two = out(guarded(|| q.parse(x)));
                let n = s.len();
                let leaf = |i: usize, u: &crate::refm::RNode| Some(u.v) == vis && u.s == i * n && u.e == (i + 1) * n;
                let ok = |k: usize, r: &Out| match r {
                    Out::Ok(_, u) => x.starts_with(s.repeat(k).as_bytes()) && if vis.is_some() { u.len() == k && u.iter().enumerate().all(|(i, u)| leaf(i, u)) } else { u.is_empty() },
                    Out::Err(..) => !x.starts_with(s.repeat(k).as_bytes()),
                    _ => false,
                };
                if !ok(1, &one) || !ok(2, &two) {
                    w.viol("single", format!("literal {:?} on {:?}: once {}, twice {}", s, String::from_utf8_lossy(x), one.show(), two.show()));
                    return;
                }
            }
        }
    }
    if w.next() {
        w.traces += 2;
        if let Ok(Ok(_)) = guarded(|| Punctuations::<i8, u8>::new(vec![("", 0)])) {
            w.viol("empty-literal", "Punctuations accepts the empty literal");
        }
        let c = Constants::<i8, u8>::new(vec![("", 0)]);
        let r = guarded(|| c.consume(&Code::new(b"a"), 0, &vec![], &mut vec![]).is_some());
        if r != Ok(false) {
            w.viol("empty-literal", format!("Constants takes the empty literal as a token: {:?}", r));
        }
    }
}
