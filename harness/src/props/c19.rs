//! C19: debug entry points.
use super::common::*;
use super::suite::*;
use crate::engine::*;
use crate::gram::*;
use crate::real::*;
use crate::refm::*;

pub const PROP: Prop = Prop {
    id: "C19",
    run,
    space: "every grammar expression up to size 4 (thorough 5), recursive and two-rule systems, raw regions: every symbol of the \
grammar registered and run at every offset of every text of length <= 4 (5), lexerless and through a real tokenizer (texts with \
ignorable tokens, offsets inside tokens, texts that cannot be tokenized); tree, error pointer and message compared with the \
reference started at that place; unregistered names; ordinary parsing of the same parser before and after against a parser \
without registrations; every offset of texts of up to 99 bytes",
    assumptions: &["offsets lie inside the text or at its end"],
};

#[cfg(not(debug_assertions))]
fn run(_: &mut W, _: Tier) {}

/// the tokens `c10::lexer(kind)` makes, or the offset it stops at
#[cfg(debug_assertions)]
fn lex(kind: usize, text: &[u8]) -> Result<Input, usize> {
    let mut t = vec![];
    let mut p = 0;
    while p < text.len() {
        let run = |set: &[u8]| p + text[p..].iter().take_while(|c| set.contains(c)).count();
        let x = text[p];
        let (k, e) = match (kind, x) {
            (0, b'a' | b'b' | b'c') => ((x - b'a') as i8, p + 1),
            (0, b' ' | b'\n') => (-1, run(b" \n")),
            (_, b'a' | b'b' | b'c') => ((x - b'a') as i8, run(&[x])),
            (_, b' ') => (-1, run(b" ")),
            (_, b'\n') => (-2, p + 1),
            _ => return Err(p),
        };
        t.push(Tk { t: k, s: p, e });
        p = e;
    }
    t.push(Tk { t: EOF, s: p, e: p });
    Ok(Input::tokens(text.to_vec(), t))
}

#[cfg(debug_assertions)]
fn go(w: &mut W, g: &Gram, o: &Opts, inputs: &[Input]) {
    go_kind(w, g, o, 0, inputs)
}
#[cfg(debug_assertions)]
fn go_kind(w: &mut W, g: &Gram, o: &Opts, kind: usize, inputs: &[Input]) {
    let b = match build(g, o) {
        Some(b) => b,
        None => return,
    };
    let made = guarded(|| -> Option<(Parser, Parser)> {
        if o.text {
            Some((Parser::Text(Lp::new(b.root.clone()).ok()?), Parser::Text(Lp::new(b.root.clone()).ok()?)))
        } else {
            let f = || Dp::new(super::c10::lexer(kind), b.root.clone()).ok().map(Parser::Tok);
            Some((f()?, f()?))
        }
    });
    let (mut p, plain) = match made {
        Ok(Some(p)) => p,
        r => {
            w.viol("construction", format!("grammar {}: {:?}", g.text, r.map(|_| ())));
            return;
        }
    };
    // every second symbol first, so that registration order differs from creation order
    let ids: Vec<Id> = (0..b.nodes.len()).filter(|i| b.nodes[*i].is_some()).collect();
    let ord: Vec<Id> = ids.iter().rev().step_by(2).chain(ids.iter().rev().skip(1).step_by(2)).copied().collect();
    let mut zero: Vec<bool> = vec![];
    if !o.text {
        zero = g.zero_width();
    }
    let skip = !o.text && skippable_from(g, &(0..g.ops.len()).collect::<Vec<_>>());
    let _ = &zero;
    for i in ord {
        let d = b.nodes[i].as_ref().unwrap();
        match &mut p {
            Parser::Text(p) => p.add_debug_production(name(2000 + i), d),
            Parser::Tok(p) => p.add_debug_production(name(2000 + i), d),
        }
    }
    let run = |nm: &str, t: &[u8], at: usize| {
        out(guarded(|| match &p {
            Parser::Text(p) => p.debug_parser_at(nm, t, at),
            Parser::Tok(p) => p.debug_production_at(nm, t, at),
        }))
    };
    // the registered symbols themselves
    for i in b.nodes.iter().enumerate().filter(|x| x.1.is_some()).map(|x| x.0).chain([b.nodes.len()]) {
        let shown = match &p {
            Parser::Text(p) => p.get_production(name(2000 + i)).map(|d| d.to_string()),
            Parser::Tok(p) => p.get_production(name(2000 + i)).map(|d| d.to_string()),
        };
        let exp = b.nodes.get(i).and_then(|d| d.as_ref()).map(|d| d.to_string());
        w.traces += 1;
        if shown != exp {
            w.viol("lookup", format!("grammar {}: the symbol registered as {:?} is {:?}, looked up: {:?}", g.text, name(2000 + i), exp, shown));
            return;
        }
    }
    let normal = |p: &Parser, t: &[u8]| {
        out(guarded(|| match p {
            Parser::Text(p) => p.parse(t),
            Parser::Tok(p) => p.parse(t),
        }))
    };
    let m = mode(o);
    for inp in inputs {
        let bad = |w: &mut W, key: &str, s: String| w.viol(key, format!("grammar {}\ninput {:?}\n{}", g.text, String::from_utf8_lossy(&inp.text), s));
        let before = normal(&p, &inp.text);
        let clean = normal(&plain, &inp.text);
        w.traces += 2;
        if before != clean {
            return bad(w, "registration", format!("without registrations: {}\nwith: {}", clean.show(), before.show()));
        }
        let lexed = if o.text { Ok(Input::text(&inp.text)) } else { lex(kind, &inp.text) };
        for &i in &ids {
            for at in 0..=inp.text.len() {
                let got = run(name(2000 + i), &inp.text, at);
                w.traces += 1;
                let inp = match &lexed {
                    Ok(i) => i,
                    Err(x) => {
                        w.count("runs on texts that cannot be tokenized", 1);
                        if !matches!(&got, Out::Err(p, _) if p == x) {
                            return bad(w, "tokenization-error", format!("symbol {} at {}: expected a tokenization error at {}\nobserved: {}", i, at, x, got.show()));
                        }
                        continue;
                    }
                };
                let from = if o.text { at } else { inp.f.iter().position(|r| inp.toks[*r].s >= at).unwrap() };
                let mut r = Ref::new(g, inp);
                r.max = at;
                let exp = r.run(i, m, from);
                w.states += r.distinct;
                w.transitions += r.steps;
                if exp == Err(Fail::Fuel) || r.raw_memo || skip && matches!(exp, Err(Fail::Val(..))) || skip && matches!(got, Out::Err(..)) {
                    w.count("runs set aside (step limit, refused memoization, skipped validation)", 1);
                    continue;
                }
                let ptr = r.error_pointer(m);
                w.count(
                    match exp {
                        Ok(_) => "runs that match",
                        Err(Fail::Un) => "runs that fail",
                        Err(_) => "runs ending in a validation error",
                    },
                    1,
                );
                let asp = Asp { tree: true, consumed: true, ptr: true, msg: true, val: true, vlog: false };
                if let Some((k, e)) = differ(&exp, ptr, &got, inp, asp) {
                    return bad(
                        w,
                        &k,
                        format!("symbol {} ({:?}) at offset {}\nexpected: {}\nobserved: {}\n{}", i, g.ops[i], at, show_ref(&exp, ptr), got.show(), e),
                    );
                }
                w.sample(|| format!("{}: symbol {} at {} of {:?} -> {}", g.text, i, at, String::from_utf8_lossy(&inp.text), show_ref(&exp, ptr)));
            }
        }
        // names nobody registered
        for (nm, at) in [("", 0), ("N2000", 0), ("unknown", inp.text.len()), ("N1999_", 0)] {
            let got = run(nm, &inp.text, at);
            w.traces += 1;
            if !matches!(got, Out::Err(..)) {
                return bad(w, "unregistered", format!("unregistered name {:?}: {}", nm, got.show()));
            }
        }
        let after = normal(&p, &inp.text);
        w.traces += 1;
        if after != clean {
            return bad(w, "registration", format!("without registrations: {}\nafter debug runs: {}", clean.show(), after.show()));
        }
    }
}

#[cfg(debug_assertions)]
fn run(w: &mut W, tier: Tier) {
    let (t, k) = (Opts::text(), Opts::token());
    let n = tier.pick(4, 5);
    let txt = texts(&[b"a", b"b"], tier.pick(4, 5));
    let tok: Vec<Input> = texts(&[b"a", b"b", b" "], 4);
    let mut odd: Vec<Input> = [&b"a\xff"[..], b"?", b" a b ", b"\n\na\n", b"a  b", b"  ", b"ab?", "a\u{e9}b".as_bytes()].iter().map(|t| Input::text(t)).collect();
    odd.extend(texts(&[b"a", b" "], 3));
    let sp = |l: Vec<Ex>| full(l);
    run_fam(w, &Fam::one("one rule, text", sp(vec![a(), b(), Ex::Null, Ex::Eof(true)]), n), &|_| true, &txt, &mut |w, g, i| go(w, g, &t, i));
    run_fam(w, &Fam::one("one rule, tokens", sp(vec![a(), b(), Ex::NullH, Ex::Eof(true)]), n), &|_| true, &tok, &mut |w, g, i| go(w, g, &k, i));
    let l = vec![a(), Ex::Re(1, true), Ex::Re(2, true), set(&[(0, true), (3, true)]), Ex::Eof(false), Ex::Cat(vec![])];
    run_fam(w, &Fam::one("patterns, sets, text", sp(l), 3), &|_| true, &txt, &mut |w, g, i| go(w, g, &t, i));
    run_fam(w, &Fam::one("patterns, odd bytes, text", sp(vec![a(), Ex::Re(1, true), Ex::Re(2, false)]), 3), &|_| true, &odd, &mut |w, g, i| go(w, g, &t, i));
    run_fam(w, &Fam::one("odd texts, tokens", sp(vec![a(), Ex::Null, Ex::Eof(true), set(&[(0, true), (1, true)])]), 3), &|_| true, &odd, &mut |w, g, i| go(w, g, &k, i));
    for (o, i) in [(&t, &txt), (&k, &tok)] {
        let mut rec = full(vec![a(), b(), Ex::R(0)]);
        rec.ter = vec![];
        run_fam(w, &Fam::one("recursive", rec, n), &|r| uses_rule(&r[0], 0), i, &mut |w, g, i| go(w, g, o, i));
        let mut two = full(vec![a(), b(), Ex::R(0), Ex::R(1)]);
        two.un.retain(|u| !matches!(u, Un::OptH | Un::Hide));
        run_fam(w, &Fam::two("two rules", two, tier.pick(2, 3), 3), &|_| true, i, &mut |w, g, i| go(w, g, o, i));
    }
    let raw = Space {
        leaves: vec![a(), Ex::W(0, true), Ex::Eof(true)],
        un: vec![Un::Ns(true), Un::Ns(false), Un::St, Un::Opt, Un::List, Un::Node, Un::LookV],
        bin: all_bin(),
        ter: vec![],
    };
    run_fam(w, &Fam::one("raw regions", raw, n), &|r| any(r, &is_raw), &tok, &mut |w, g, i| go(w, g, &k, i));
    for (o, i) in [(&t, &txt), (&k, &tok)] {
        let mut val = full(vec![a(), b(), Ex::Null]);
        val.un = vec![Un::Val(Vp::FailIfB), Un::Val(Vp::Fail), Un::Val(Vp::Decline), Un::Opt, Un::List, Un::Memo];
        val.ter = vec![];
        run_fam(w, &Fam::one("validations", val, n), &|r| any(r, &is_val), i, &mut |w, g, i| go(w, g, o, i));
    }
    // tokens of several bytes, several ignorable tokens in a row
    let wide: Vec<Input> = texts(&[b"aa", b"bbb", b"  ", b"\n", b"a"], tier.pick(3, 4));
    let sp = full(vec![a(), b(), Ex::Eof(true)]);
    run_fam(w, &Fam::one("wide tokens", sp, tier.pick(3, 4)), &|_| true, &wide, &mut |w, g, i| go_kind(w, g, &k, 3, i));
    let raw = Space {
        leaves: vec![a(), Ex::W(0, true), Ex::W(1, false)],
        un: vec![Un::Ns(true), Un::Ns(false), Un::St, Un::Opt, Un::List],
        bin: all_bin(),
        ter: vec![],
    };
    run_fam(w, &Fam::one("wide tokens, raw regions", raw, tier.pick(3, 4)), &|r| any(r, &is_raw), &wide, &mut |w, g, i| go_kind(w, g, &k, 3, i));
    // long texts, offsets deep inside
    let mut long = vec![];
    for k in [1usize, 7, 15, 33] {
        long.push(Input::text(&b"ab".repeat(k)));
        long.push(Input::text(&[&b"a".repeat(k)[..], b"b"].concat()));
        long.push(Input::text(&b"a \n".repeat(k)));
    }
    let sp = Space { leaves: vec![a(), b()], un: vec![Un::List, Un::Opt, Un::Node, Un::Memo], bin: vec![Bin::Cat, Bin::Alt, Bin::SepI, Bin::SepN, Bin::SufS], ter: vec![] };
    run_fam(w, &Fam::one("long texts, text", sp.clone(), 3), &|_| true, &long, &mut |w, g, i| go(w, g, &t, i));
    run_fam(w, &Fam::one("long texts, tokens", sp, 3), &|_| true, &long, &mut |w, g, i| go(w, g, &k, i));
}
