//! C18: logging changes nothing.
use super::common::*;
use super::suite::*;
use crate::engine::*;
use crate::gram::*;
use crate::lexm::*;
use crate::real::*;
use crate::refm::*;

pub const PROP: Prop = Prop {
    id: "C18",
    run,
    space: "every grammar expression up to size 4 (thorough 5), recursive and two-rule systems, sets, patterns, raw regions, text and \
token parsing, with each of the five log levels assigned to every symbol, on every input of length <= 3 including multi-byte \
characters, line breaks and bytes that are no text: outcome identical to the unlogged parser (messages included) and to the \
reference; a second assignment refused on every symbol; every nesting of up to 2 (3) lexeme adaptors, every state-switching \
tokenizer of a family with mixins, logged at each level, likewise; subjects in 29 contexts, inputs of up to 300 items, rules nested in themselves; three more assignments that give different symbols different levels or none",
    assumptions: &["what is printed is not judged"],
};

fn go(w: &mut W, g: &Gram, o: &Opts, inputs: &[Input]) {
    if !o.text && skippable(g) {
        return;
    }
    let plain = match make(g, o) {
        Made::Ready(b, p) => (b, p),
        _ => return,
    };
    let mut logged = vec![];
    for l in 0..MIXED.end {
        nth_reset();
        let ol = Opts { log: Some(l), ..o.clone() };
        match make(g, &ol) {
            Made::Ready(b, p) => {
                if let Some(n) = b.notes.first() {
                    w.viol("assignment", format!("grammar {}, level {}: {}", g.text, l, n));
                    return;
                }
                logged.push((b, p));
            }
            Made::Panic(m) => {
                w.viol("construction-panic", format!("grammar {}, level {}: {}", g.text, l, m));
                return;
            }
            _ => {
                w.viol("construction", format!("grammar {}, level {}: construction fails only with logging", g.text, l));
                return;
            }
        }
    }
    for inp in inputs {
        if !run_input(w, g, o, &plain.1, inp, MATCH) {
            return;
        }
        let m = mode(o);
        let mut r = Ref::new(g, inp);
        if r.run(g.root, m, 0) == Err(Fail::Fuel) || r.raw_memo {
            continue;
        }
        let x = parse(&plain.1, inp);
        for (l, (_, p)) in logged.iter().enumerate() {
            let y = parse(p, inp);
            w.traces += 1;
            w.states += 1;
            if x != y {
                w.viol(
                    "logging-changes-result",
                    format!("grammar {}\ninput {}\nwithout logging: {}\nlog level {}: {}", g.text, show_input(inp), x.show(), l, y.show()),
                );
                return;
            }
        }
        w.count("inputs compared at every level", 1);
    }
}

/// token streams over texts with multi-byte and non-text tokens
fn odd_streams(n: usize) -> Vec<Input> {
    strings(3, n)
        .iter()
        .map(|s| {
            let mut text = vec![];
            let mut t = vec![];
            for c in s {
                let (k, x): (i8, &[u8]) = [(0, "\u{e9}".as_bytes()), (1, b"\xff\n"), (-1, b"\n")][*c as usize];
                let st = text.len();
                text.extend_from_slice(x);
                t.push(Tk { t: k, s: st, e: text.len() });
            }
            let n = text.len();
            t.push(Tk { t: EOF, s: n, e: n });
            Input::tokens(text, t)
        })
        .collect()
}

fn lexer(w: &mut W, m: &Machine, texts: &[Vec<u8>]) {
    for fluent in [false, true] {
        for l in (0..MIXED.end).filter(|l| !fluent || *l == 4) {
            nth_reset();
            let o = Lo { log: Some(l), fluent, later: (0, 0), notes: Default::default() };
            if !run_machine(w, m, &o, texts) {
                return;
            }
            let n = o.notes.borrow();
            if let Some(n) = n.first() {
                w.viol("assignment", format!("{}, level {}: {}", m, l, n));
                return;
            }
        }
    }
}

fn run(w: &mut W, tier: Tier) {
    let n = tier.pick(4, 5);
    let txt = texts(&[b"a", b"b"], 3);
    let odd = texts(&[b"a", "\u{e9}".as_bytes(), b"\xff", b"\n"], 3);
    let tok = streams(&[0, 1, -1], 3);
    let oddt = odd_streams(3);
    let (t, k) = (Opts::text(), Opts::token());
    let tc = Opts { const_set: true, ..Opts::text() };
    run_fam(w, &Fam::one("one rule, text", full(vec![a(), b(), Ex::Null, Ex::Eof(true)]), n), &|_| true, &txt, &mut |w, g, i| go(w, g, &t, i));
    run_fam(w, &Fam::one("one rule, tokens", full(vec![a(), b(), Ex::NullH, Ex::Eof(true)]), n), &|_| true, &tok, &mut |w, g, i| go(w, g, &k, i));
    let sp = full(vec![a(), Ex::Re(1, true), Ex::Re(2, true), Ex::Re(3, false), set(&[(0, true), (1, false)]), set(&[(0, true), (3, true)]), Ex::Eof(false), Ex::Cat(vec![]), Ex::Alt(vec![])]);
    run_fam(w, &Fam::one("patterns, sets, odd bytes, text", sp, 3), &|_| true, &odd, &mut |w, g, i| {
        go(w, g, &t, i);
        if any_set(g) {
            go(w, g, &tc, i);
        }
    });
    let sp = full(vec![a(), set(&[(0, true), (1, false)]), set(&[(1, true)]), Ex::Eof(false), Ex::Cat(vec![]), Ex::Alt(vec![])]);
    run_fam(w, &Fam::one("sets, odd bytes, tokens", sp, 3), &|_| true, &oddt, &mut |w, g, i| go(w, g, &k, i));
    let mut sp = full(vec![a(), b(), Ex::R(0)]);
    sp.ter = vec![];
    for (o, i) in [(&t, &txt), (&k, &tok)] {
        run_fam(w, &Fam::one("recursive", sp.clone(), n), &|r| uses_rule(&r[0], 0), i, &mut |w, g, i| go(w, g, o, i));
        let mut two = full(vec![a(), b(), Ex::R(0), Ex::R(1)]);
        two.un.retain(|u| !matches!(u, Un::OptH | Un::Hide));
        run_fam(w, &Fam::two("two rules", two, tier.pick(2, 3), tier.pick(3, 3)), &|_| true, i, &mut |w, g, i| go(w, g, o, i));
    }
    let raw = Space {
        leaves: vec![a(), Ex::W(0, true), Ex::Eof(true)],
        un: vec![Un::Ns(true), Un::Ns(false), Un::St, Un::Opt, Un::List, Un::Node, Un::Hide, Un::LookV, Un::Val(Vp::FailIfB), Un::Val(Vp::DeclineEven)],
        bin: all_bin(),
        ter: vec![],
    };
    run_fam(w, &Fam::one("raw regions", raw, n), &|r| any(r, &is_raw), &tok, &mut |w, g, i| go(w, g, &k, i));

    // subjects in contexts, long and nested inputs
    let sp = Space { leaves: vec![a(), b()], un: vec![Un::List, Un::Opt, Un::Memo, Un::Val(Vp::FailIfB)], bin: vec![Bin::Cat, Bin::Alt, Bin::SepN, Bin::SufS], ter: vec![] };
    let abc = texts(&[b"a", b"b", b"c"], 3);
    ctx_fam(w, sp.clone(), tier.pick(3, 4), &|_| true, &abc, &mut |w, g, i| go(w, g, &t, i));
    ctx_fam(w, sp.clone(), tier.pick(3, 4), &|_| true, &streams(&[0, 1, 2], 3), &mut |w, g, i| go(w, g, &k, i));
    let mut long = vec![];
    for n in [17usize, 65, 130] {
        for (u, v) in [(&[0i8][..], &[][..]), (&[0], &[1]), (&[0, 1], &[]), (&[0, 1], &[0]), (&[0, 1], &[2])] {
            long.push(rep(&[], u, n, v));
        }
    }
    let lt: Vec<Input> = long.iter().map(|v| Input::text(&v.iter().map(|k| b'a' + *k as u8).collect::<Vec<u8>>())).collect();
    let lk: Vec<Input> = long.iter().map(|v| tokens(v)).collect();
    let lsp = Space { bin: vec![Bin::Cat, Bin::Alt, Bin::SepI, Bin::SepN, Bin::SufS, Bin::Suf], ..sp };
    run_fam(w, &Fam::one("long texts", lsp.clone(), 3), &|_| true, &lt, &mut |w, g, i| go(w, g, &t, i));
    run_fam(w, &Fam::one("long token sequences", lsp, 3), &|_| true, &lk, &mut |w, g, i| go(w, g, &k, i));
    let small = |i: &[Input]| -> Vec<Input> { i.iter().filter(|i| i.text.len() < 9).cloned().collect() };
    nested(w, &|_| true, &mut |w, g, i| go(w, g, &k, &small(i)), &|v| tokens(v), true);

    // lexemes
    let lt: Vec<Vec<u8>> = bytes(&[b"a", b"b", "\u{e9}".as_bytes(), b"\xff", b"\n"], tier.pick(2, 3));
    let bases = vec![
        Lx::Pat(0, 0),
        Lx::Pat(8, 1),
        Lx::Pat(12, 2),
        Lx::Pat(10, 3),
        Lx::Punct(lits(&[("a", 0), ("ab", 2), ("\u{e9}", 4)])),
        Lx::Const(lits(&[("ab", 1), ("\n", 3), ("\u{e9}a", 0)])),
    ];
    let ad = super::c03::adaptors();
    let mut level = bases;
    for d in 0..=tier.pick(2, 3) {
        for l in &level {
            if w.next() {
                lexer(w, &Machine::one(vec![l.clone(), Lx::Pat(5, 50)]), &lt);
                let m = Machine { states: vec![(1, vec![Lx::Pat(3, 9), l.clone()]), (2, vec![l.clone(), Lx::Pat(5, 50)])], single: false };
                lexer(w, &m, &lt);
            }
        }
        if d < tier.pick(2, 3) {
            level = level.iter().flat_map(|l| ad.iter().map(move |a| a(l.clone()))).collect();
        }
    }
    // long texts, special characters
    let mut lt: Vec<Vec<u8>> = bytes(SPECIAL, 2);
    for n in [17usize, 65, 257] {
        for u in [&b"a"[..], b"ab", b"b", "\u{e9}".as_bytes(), b"\r\n", "\u{feff}".as_bytes()] {
            lt.push(u.repeat(n));
            lt.push([b"b", &u.repeat(n)[..], b"\xff"].concat());
        }
    }
    for l in [Lx::Pat(0, 0), Lx::Pat(12, 2), Lx::Pat(3, 9), Lx::Punct(lits(&[("a", 0), ("ab", 2), ("\u{feff}", 4), ("\r\n", 6)])), Lx::Const(lits(&[("ab", 1), ("\n", 3), ("b", 0)]))] {
        for a in std::iter::once(None).chain(ad.iter().map(Some)) {
            if w.next() {
                let l = a.map_or(l.clone(), |a| a(l.clone()));
                lexer(w, &Machine::one(vec![l.clone(), Lx::Pat(5, 50)]), &lt);
                lexer(w, &Machine { states: vec![(1, vec![Lx::Pat(3, 9), l.clone()]), (2, vec![l, Lx::Pat(5, 50)])], single: false }, &lt);
            }
        }
    }
    // state switching
    let mut acts: Vec<Act> = vec![Act::Pop(false), Act::Pop(true), Act::No(true)];
    for s in 0..2u8 {
        for d in [false, true] {
            acts.push(Act::Push(s, d));
            acts.push(Act::Switch(s, d));
        }
    }
    let st = bytes(&[b"a", b"b", b"\n"], tier.pick(3, 4));
    for x in &acts {
        for y in &acts {
            for z in &acts {
                if !w.next() {
                    continue;
                }
                let one = |t: i8, s: &str, a: Act| Lx::Mix(Box::new(Lx::Punct(lits(&[(s, t)]))), vec![(t, a)]);
                let two = |t: i8, s: &str, a: Act| Lx::TMix(Box::new(Lx::Const(lits(&[(s, t)]))), Fx::Always, a);
                let m = Machine {
                    states: vec![(0, vec![one(1, "a", *x), two(2, "b", *y), Lx::Pat(12, 3)]), (1, vec![two(4, "a", *z), Lx::Pat(3, 5), Lx::Pat(0, 6)])],
                    single: false,
                };
                lexer(w, &m, &st);
            }
        }
    }
}
fn any_set(g: &Gram) -> bool {
    g.ops.iter().any(|o| matches!(o, Op::Set(_)))
}
