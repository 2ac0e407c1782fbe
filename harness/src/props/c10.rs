//! C10: tokenized and lexerless parsing agree; ignorable tokens do not matter.
use super::common::*;
use super::suite::*;
use crate::engine::*;
use crate::gram::*;
use crate::real::*;
use crate::refm::*;
use lang_pt::lexeme::{Constants, Pattern, Punctuations};
use lang_pt::{Code, ILexeme, TokenStream, Tokenizer};
use std::rc::Rc;

pub const PROP: Prop = Prop {
    id: "C10",
    run,
    space: "every grammar expression over one-character literals up to size 5 (thorough 6) and small recursive / two-rule systems: \
the library's tokenizing parser against its lexerless parser on every text of length <= 4; every placement of nothing, a blank \
or a line break in every gap of every text of length <= 3 for grammars up to size 4 (5); parse = tokenize + parse_stream = \
tokenize_n_parse on all of them; acceptance, error pointer, tree, shifted positions and token bounds compared; the shared long, deep, wide and nested families of DESIGN.md by both routes",
    assumptions: &["grammars with failing validations of nothing next to a selection are set aside (C06)", "grammars do not ask for raw tokens"],
};

pub fn lexer(kind: usize) -> Rc<Tokenizer<i8, u8>> {
    let pat = |k: i8, r: &str| -> Rc<dyn ILexeme<Token = i8, State = u8>> { Rc::new(Pattern::new(k, r).unwrap()) };
    let ws = pat(-1, if kind == 1 { "^[ \n]" } else { "^[ \n]+" });
    let v: Vec<Rc<dyn ILexeme<Token = i8, State = u8>>> = match kind {
        0 => vec![Rc::new(Punctuations::new(vec![("a", 0i8), ("b", 1), ("c", 2)]).unwrap()), ws],
        1 => vec![ws, Rc::new(Constants::new(vec![("c", 2), ("b", 1), ("a", 0i8)]))],
        2 => vec![pat(0, "^a"), pat(-1, "^ +"), pat(1, "^b"), pat(-2, "^\n"), pat(2, "^c")],
        // tokens of several bytes
        _ => vec![pat(-1, "^ +"), pat(0, "^a+"), pat(1, "^b+"), pat(2, "^c+"), pat(-2, "^\n")],
    };
    Rc::new(Tokenizer::new(v))
}

/// index, among the tokens `lexer(kind)` makes of `text`, of the token starting at `o`
fn raw_index(kind: usize, text: &[u8], o: usize) -> usize {
    let ws = |c: u8| c == b' ' || c == b'\n';
    (1..=o.min(text.len()))
        .filter(|i| {
            // does a token end before byte i?
            let (x, y) = (text[i - 1], text.get(*i).copied().unwrap_or(0));
            let glued = match kind {
                0 => ws(x) && ws(y),
                1 => false,
                _ => x == b' ' && y == b' ',
            };
            !glued
        })
        .count()
}

fn strip(v: &[RNode]) -> Vec<RNode> {
    v.iter().map(|n| RNode { b: None, c: strip(&n.c), ..n.clone() }).collect()
}

fn go(w: &mut W, g: &Gram, kind: usize, ins: &[Input], spaced: &[(Vec<u8>, Vec<(Vec<u8>, Vec<usize>)>)]) {
    if skippable(g) {
        return;
    }
    let (bt, pt) = match make(g, &Opts::text()) {
        Made::Ready(b, p) => (b, p),
        _ => return,
    };
    let bk = match build(g, &Opts::token()) {
        Some(b) => b,
        None => return,
    };
    let pk = match guarded(|| Dp::new(lexer(kind), bk.root.clone())) {
        Ok(Ok(p)) => p,
        r => {
            w.viol("construction", format!("grammar {}: text parser is constructed, token parser is not ({:?})", g.text, r.is_ok()));
            return;
        }
    };
    let three = |text: &[u8]| -> Result<Out, String> {
        let x = out(guarded(|| pk.parse(text)));
        let y = out(guarded(|| pk.tokenize_n_parse(text).map(|r| r.1)));
        let z = out(guarded(|| {
            let code = Code::new(text);
            let l = pk.tokenize(&code)?;
            pk.parse_stream(&code, TokenStream::from(&l))
        }));
        if x != y || x != z {
            return Err(format!("parse: {}\ntokenize_n_parse: {}\ntokenize + parse_stream: {}", x.show(), y.show(), z.show()));
        }
        Ok(x)
    };
    let bad = |w: &mut W, key: &str, text: &[u8], m: String| {
        w.viol(key, format!("grammar {}\ninput {:?}\n{}", g.text, String::from_utf8_lossy(text), m));
    };
    for inp in ins {
        let x = match three(&inp.text) {
            Ok(x) => x,
            Err(m) => return bad(w, "routes", &inp.text, m),
        };
        let y = parse(&pt, inp);
        w.traces += 4;
        w.states += 1;
        w.transitions += inp.text.len() as u64 + 1;
        let ok = match (&x, &y) {
            (Out::Ok(n, t), Out::Ok(m, u)) => n == m && strip(t) == *u,
            (Out::Err(p, m), Out::Err(q, n)) => p == q && m.contains("!V") == n.contains("!V"),
            _ => false,
        };
        w.count(if matches!(x, Out::Ok(..)) { "compared: accepted" } else { "compared: failed" }, 1);
        if !ok {
            return bad(w, "tokenized-vs-text", &inp.text, format!("tokenized: {}\nlexerless: {}", x.show(), y.show()));
        }
        w.sample(|| format!("{} on {} -> {}", g.text, show_input(inp), x.show()));
    }
    for (base, vars) in spaced {
        let x = match three(base) {
            Ok(x) => x,
            Err(m) => return bad(w, "routes", base, m),
        };
        for (text, at) in vars {
            let y = match three(text) {
                Ok(x) => x,
                Err(m) => return bad(w, "routes", text, m),
            };
            w.traces += 3;
            w.states += 1;
            w.transitions += text.len() as u64;
            w.count("ignorable tokens inserted: variants compared", 1);
            let r = match (&x, &y) {
                (Out::Ok(n, t), Out::Ok(m, u)) => {
                    if n != m {
                        Err("consumes another number of structural tokens".into())
                    } else {
                        shifted(kind, t, u, at, text)
                    }
                }
                (Out::Err(p, m), Out::Err(q, n)) => {
                    if m.contains("!V") != n.contains("!V") {
                        Err("other kind of error".to_string())
                    } else if *q != at[*p] {
                        Err(format!("error pointer {} instead of {}", q, at[*p]))
                    } else {
                        Ok(())
                    }
                }
                _ => Err("other verdict".into()),
            };
            if let Err(m) = r {
                return bad(
                    w,
                    "ignorable-tokens",
                    text,
                    format!("without ignorable tokens {:?}: {}\nwith: {}\n{}", String::from_utf8_lossy(base), x.show(), y.show(), m),
                );
            }
        }
    }
    drop(bt);
}

/// `at[i]`: new offset of byte `i` of the unspaced text (every token is one byte), `at[len]` = new length
fn shifted(kind: usize, t: &[RNode], u: &[RNode], at: &[usize], text: &[u8]) -> Result<(), String> {
    if t.len() != u.len() {
        return Err("other tree shape".into());
    }
    for (x, y) in t.iter().zip(u) {
        if x.v != y.v {
            return Err("other node".into());
        }
        if y.s != at[x.s] {
            return Err(format!("node {} starts at {} instead of {}", x.v, y.s, at[x.s]));
        }
        let leaf = x.c.is_empty() && x.e == x.s + 1;
        let ok = y.e == at[x.e] || (leaf && y.e == y.s + 1);
        if !ok {
            return Err(format!("node {} ends at {}", x.v, y.e));
        }
        // bounds: raw index of the token starting there
        let b = y.b.ok_or("no bounds")?;
        let raw = |o: usize| raw_index(kind, text, o);
        if b.0 != raw(y.s) || (b.1 != raw(at[x.e]) && !(leaf && b.1 == b.0 + 1)) {
            return Err(format!("node {} bound {:?}", x.v, b));
        }
        shifted(kind, &x.c, &y.c, at, text)?;
    }
    Ok(())
}

/// every placement of a filler in every gap
fn spacings(alpha: &[&[u8]], n: usize, fill: &[&[u8]]) -> Vec<(Vec<u8>, Vec<(Vec<u8>, Vec<usize>)>)> {
    let mut r = vec![];
    for base in texts(alpha, n) {
        let l = base.text.len();
        let mut vars = vec![];
        let k = fill.len();
        for code in 1..k.pow(l as u32 + 1) {
            let mut t = vec![];
            let mut at = vec![];
            let mut c = code;
            for i in 0..=l {
                t.extend_from_slice(fill[c % k]);
                c /= k;
                at.push(t.len());
                if i < l {
                    t.push(base.text[i]);
                }
            }
            // the end of input: the end token starts after trailing blanks
            at[l] = t.len();
            vars.push((t, at));
        }
        r.push((base.text.clone(), vars));
    }
    r
}

fn run(w: &mut W, tier: Tier) {
    let keep = |_: &[Ex]| true;
    let ins = texts(&[b"a", b"b"], 4);
    let none = vec![];
    run_fam(w, &Fam::one("one rule", full(basic_leaves()), tier.pick(5, 6)), &keep, &ins, &mut |w, g, i| go(w, g, 0, i, &none));
    run_fam(w, &Fam::one("recursive rule", full(vec![a(), b(), Ex::R(0)]), tier.pick(5, 6)), &keep, &ins, &mut |w, g, i| {
        go(w, g, 1, i, &none)
    });
    let sp = full(vec![a(), b(), Ex::R(0), Ex::R(1)]);
    run_fam(w, &Fam::two("two rules", sp, tier.pick(3, 4), 3), &keep, &ins, &mut |w, g, i| go(w, g, 2, i, &none));
    let mut sp = full(vec![a(), c(), set(&[(0, true), (1, false), (2, true)]), Ex::Eof(true)]);
    sp.un.push(Un::Val(Vp::FailIfB));
    let ins3 = texts(&[b"a", b"b", b"c"], 3);
    run_fam(w, &Fam::one("three kinds", sp, tier.pick(4, 5)), &keep, &ins3, &mut |w, g, i| go(w, g, 0, i, &none));
    let spaced = spacings(&[b"a", b"b"], tier.pick(2, 3), &[b"", b" ", b"\n", b" \n"]);
    run_fam(w, &Fam::one("ignorable tokens, one rule", full(basic_leaves()), tier.pick(4, 4)), &keep, &[], &mut |w, g, i| {
        go(w, g, 2, i, &spaced)
    });
    let spaced = spacings(&[b"a", b"b"], tier.pick(3, 4), &[b"", b" \n "]);
    let spaced_2 = spacings(&[b"a", b"b"], 3, &[b"", b" \n\n "]);
    run_fam(w, &Fam::one("ignorable tokens, recursive rule", full(vec![a(), b(), Ex::R(0), Ex::Eof(false)]), tier.pick(4, 5)), &keep, &[], &mut |w, g, i| {
        go(w, g, 1, i, &spaced)
    });
    for m in [1, 2] {
        alike(m, || {
            run_fam(w, &Fam::one("equal node values", full(basic_leaves()), tier.pick(4, 5)), &keep, &ins, &mut |w, g, i| go(w, g, 0, i, &none))
        });
    }
    // contexts
    let mut sp = full(vec![a(), b(), Ex::Null]);
    sp.un.retain(|u| !matches!(u, Un::Hide | Un::Val(_)));
    sp.ter = vec![Ter::SufS];
    ctx_fam(w, sp, tier.pick(3, 4), &keep, &texts(&[b"a", b"b", b"c"], 4), &mut |w, g, i| go(w, g, 2, i, &spaced_2));
    // long inputs
    let mut long = vec![];
    for n in LONG {
        for (u, v) in [(&b"a"[..], &b""[..]), (b"a", b"b"), (b"ab", b""), (b"ab", b"a"), (b"ab", b"b")] {
            let mut t = u.repeat(*n);
            t.extend_from_slice(v);
            let l = t.len();
            let mut sp = vec![];
            let mut at = vec![];
            for i in 0..=l {
                if i % 3 == 1 {
                    sp.extend_from_slice(if i % 2 == 0 { b" " } else { b"\n\n" });
                }
                at.push(sp.len());
                if i < l {
                    sp.push(t[i]);
                }
            }
            at[l] = sp.len();
            long.push((t, vec![(sp, at)]));
        }
    }
    let sp = Space { leaves: vec![a(), b()], un: vec![Un::List, Un::Opt, Un::Node], bin: vec![Bin::Cat, Bin::Alt, Bin::SepI, Bin::SepN, Bin::SufS], ter: vec![] };
    let longs: Vec<Input> = long
        .iter()
        .map(|x| x.0.clone())
        .chain(HUGE.iter().flat_map(|n| [b"a".repeat(*n), [&b"ab".repeat(*n)[..], b"b"].concat()]))
        .map(|t| Input::text(&t))
        .collect();
    run_fam(w, &Fam::one("long inputs", sp, tier.pick(4, 4)), &keep, &longs, &mut |w, g, i| go(w, g, 0, i, &long));
    // large and deep rules
    let abc = |v: &[i8]| Input::text(&v.iter().map(|k| b'a' + *k as u8).collect::<Vec<u8>>());
    let mut f = |w: &mut W, g: &Gram, i: &[Input]| go(w, g, 0, i, &none);
    wide(w, &keep, &mut f, &abc);
    nested(w, &keep, &mut f, &abc, true);
    shapes(w, &keep, &mut f, &abc);
}
