//! C17: parsers and tokenizers have no memory.
use super::common::*;
use super::suite::*;
use crate::engine::*;
use crate::gram::*;
use crate::lexm::*;
use crate::real::*;
use crate::refm::*;
use lang_pt::{Code, TokenStream};

pub const PROP: Prop = Prop {
    id: "C17",
    run,
    space: "every sequence of three operations (parse of any of seven inputs, print the grammar, validate again, tokenize, \
tokenize and parse, parse a stream) on one parser, for every grammar of the small spaces (single rule, recursive, two rules, \
memoized, raw regions), text and tokenized; every sequence of three operations interleaved over two parsers that share rule \
objects, in both orders of construction; every sequence of three texts on one state-switching tokenizer for every pair of \
actions per letter and state; one long history over all of them; each step compared with what a fresh object answers; every operation 300 times (small rules 70 000 (140 000) times) and then every operation; one parser living through all inputs of the shared long, deep, wide and nested families, forwards and backwards",
    assumptions: &["closures given to the library are functions of their arguments"],
};

#[derive(Clone, PartialEq, Debug)]
enum Ans {
    Parsed(Out),
    Text(Result<String, String>),
    Toks(TOut),
    Valid(Result<bool, String>),
}
impl Ans {
    fn show(&self) -> String {
        match self {
            Ans::Parsed(o) => o.show(),
            Ans::Toks(t) => show_out(t),
            x => format!("{:?}", x),
        }
    }
}

/// (parser, kind, input)
type Op3 = (usize, u8, usize);
fn show_op(o: &Op3, ins: &[Input]) -> String {
    let k = ["parse", "grammar", "validate", "tokenize", "tokenize_n_parse", "parse_stream"][o.1 as usize];
    match o.1 {
        1 | 2 => format!("p{}.{}()", o.0, k),
        _ => format!("p{}.{}({:?})", o.0, k, String::from_utf8_lossy(&ins[o.2].text)),
    }
}

struct Sys {
    ps: Vec<Parser>,
    #[allow(dead_code)]
    b: Built,
}
fn sys(g: &Gram, o: &Opts, roots: &[Id], second_first: bool) -> Option<Sys> {
    let b = build(g, o)?;
    let mk = |r: Id| -> Option<Parser> {
        let root = b.nodes[r].clone()?;
        if o.text {
            Lp::new(root).ok().map(Parser::Text)
        } else {
            Dp::new(super::c10::lexer(0), root).ok().map(Parser::Tok)
        }
    };
    let mut ps: Vec<Option<Parser>> = roots.iter().map(|_| None).collect();
    let ord: Vec<usize> = if second_first { (0..roots.len()).rev().collect() } else { (0..roots.len()).collect() };
    for i in ord {
        ps[i] = Some(mk(roots[i])?);
    }
    Some(Sys { ps: ps.into_iter().map(|p| p.unwrap()).collect(), b })
}
fn apply(s: &Sys, op: &Op3, ins: &[Input]) -> Ans {
    // one buffer for every text: nothing may be remembered by address
    thread_local! { static BUF: std::cell::RefCell<Vec<u8>> = std::cell::RefCell::new(Vec::with_capacity(4096)); }
    let mut b = BUF.with(|b| b.take());
    b.clear();
    b.extend_from_slice(ins.get(op.2).map_or(&b""[..], |i| &i.text));
    let r = apply_to(s, op, &b);
    BUF.with(|c| *c.borrow_mut() = b);
    r
}
fn apply_to(s: &Sys, op: &Op3, t: &[u8]) -> Ans {
    match (&s.ps[op.0], op.1) {
        (Parser::Text(p), 0) => Ans::Parsed(out(guarded(|| p.parse(t)))),
        (Parser::Text(p), 1) => Ans::Text(guarded(|| p.grammar().unwrap_or_else(|_| "fmt error".into()))),
        (Parser::Text(p), _) => Ans::Valid(guarded(|| p.validate().is_ok())),
        (Parser::Tok(p), 0) => Ans::Parsed(out(guarded(|| p.parse(t)))),
        (Parser::Tok(p), 1) => Ans::Text(guarded(|| p.grammar().unwrap_or_else(|_| "fmt error".into()))),
        (Parser::Tok(p), 2) => Ans::Valid(guarded(|| p.validate().is_ok())),
        (Parser::Tok(p), 3) => Ans::Toks(guarded(|| p.tokenize(&Code::new(t)).map_err(|e| (e.pointer, e.message)))),
        (Parser::Tok(p), 4) => Ans::Parsed(out(guarded(|| p.tokenize_n_parse(t).map(|r| r.1)))),
        (Parser::Tok(p), _) => Ans::Parsed(out(guarded(|| {
            let code = Code::new(t);
            let l = p.tokenize(&code)?;
            p.parse_stream(&code, TokenStream::from(&l))
        }))),
    }
}

fn go(w: &mut W, g: &Gram, o: &Opts, roots: &[Id], ins: &[Input], ops: &[Op3], depth: usize) {
    // what fresh objects answer
    let mut fresh = vec![];
    for op in ops {
        let s = match guarded(|| sys(g, o, &roots[op.0..op.0 + 1], false)) {
            Ok(Some(s)) => s,
            Ok(None) => {
                w.count("grammars set aside: not expressible or not usable", 1);
                return;
            }
            Err(m) => {
                w.viol("construction-panic", format!("grammar {}: {}", g.text, m));
                return;
            }
        };
        fresh.push(apply(&s, &(0, op.1, op.2), ins));
        w.traces += 1;
    }
    let n = ops.len();
    let orders: &[bool] = if roots.len() > 1 { &[false, true] } else { &[false] };
    for &second_first in orders {
        let mut long = sys(g, o, roots, second_first);
        for code in 0..n.pow(depth as u32) {
            if code % 64 == 0 {
                w.tick();
            }
            let s = match sys(g, o, roots, second_first) {
                Some(s) => s,
                None => return,
            };
            let mut c = code;
            let mut hist = vec![];
            for _ in 0..depth {
                let k = c % n;
                c /= n;
                hist.push(k);
                let a = apply(&s, &ops[k], ins);
                w.transitions += 1;
                w.traces += 1;
                if a != fresh[k] {
                    let h: Vec<String> = hist.iter().map(|k| show_op(&ops[*k], ins)).collect();
                    w.viol(
                        "history",
                        format!(
                            "grammar {} ({})\nhistory {}{}\nlast step of a fresh parser: {}\nobserved: {}",
                            g.text,
                            if o.text { "lexerless" } else { "tokenized" },
                            if second_first { "(second parser built first) " } else { "" },
                            h.join("; "),
                            fresh[k].show(),
                            a.show()
                        ),
                    );
                    return;
                }
            }
            w.states += 1;
            // the same step at the end of one ever longer history
            if let Some(l) = &mut long {
                let k = hist[0];
                let a = apply(l, &ops[k], ins);
                w.transitions += 1;
                w.traces += 1;
                if a != fresh[k] {
                    w.viol(
                        "long-history",
                        format!("grammar {}\nafter {} operations {} gives\n{}\ninstead of\n{}", g.text, code, show_op(&ops[k], ins), a.show(), fresh[k].show()),
                    );
                    return;
                }
            }
        }
        w.count("operation sequences", n.pow(depth as u32) as u64);
    }
    w.sample(|| format!("{}: all {}-step histories over {}", g.text, depth, ops.iter().map(|o| show_op(o, ins)).collect::<Vec<_>>().join(" ")));
}

/// One parser lives through every input, forwards and backwards.
fn lives(w: &mut W, g: &Gram, o: &Opts, ins: &[Input]) {
    let ins: Vec<Input> = ins.iter().filter(|i| i.text.len() < 320).step_by(2).cloned().collect();
    let mk = || sys(g, o, &[g.root], false);
    let s = match guarded(mk) {
        Ok(Some(s)) => s,
        _ => {
            w.count("grammars set aside: not expressible or not usable", 1);
            return;
        }
    };
    let fresh: Vec<Ans> = (0..ins.len()).filter_map(|i| mk().map(|s| apply(&s, &(0, 0, i), &ins))).collect();
    for (n, i) in (0..ins.len()).chain((0..ins.len()).rev()).enumerate() {
        if n % 16 == 0 {
            w.tick();
        }
        let a = apply(&s, &(0, 0, i), &ins);
        w.transitions += 1;
        w.traces += 1;
        if a != fresh[i] {
            w.viol("long-history", format!("grammar {}\nafter {} other inputs {} gives\n{}\ninstead of\n{}", g.text, n, show_op(&(0, 0, i), &ins), a.show(), fresh[i].show()));
            return;
        }
    }
    w.states += 1;
    w.count("one parser through many long inputs", 1);
}

/// Every operation repeated very often on one parser, and then every operation once.
fn again(w: &mut W, g: &Gram, o: &Opts, ins: &[Input], ops: &[Op3], times: usize) {
    let mk = || sys(g, o, &[g.root], false);
    let mut fresh = vec![];
    for op in ops {
        match guarded(mk) {
            Ok(Some(s)) => fresh.push(apply(&s, op, ins)),
            Ok(None) => {
                w.count("grammars set aside: not expressible or not usable", 1);
                return;
            }
            Err(m) => {
                w.viol("construction-panic", format!("grammar {}: {}", g.text, m));
                return;
            }
        }
        w.traces += 1;
    }
    for (k, op) in ops.iter().enumerate() {
        let s = match mk() {
            Some(s) => s,
            None => return,
        };
        let steps = (0..times).map(|_| k).chain(0..ops.len());
        for (i, j) in steps.enumerate() {
            if i % 64 == 0 {
                w.tick();
            }
            let a = apply(&s, &ops[j], ins);
            w.transitions += 1;
            if a != fresh[j] {
                w.viol(
                    "long-history",
                    format!(
                        "grammar {}\nafter {} times {} and {} other operations, {} gives\n{}\ninstead of\n{}",
                        g.text,
                        i.min(times),
                        show_op(op, ins),
                        i.saturating_sub(times),
                        show_op(&ops[j], ins),
                        a.show(),
                        fresh[j].show()
                    ),
                );
                return;
            }
        }
        w.traces += (times + ops.len()) as u64;
        w.states += 1;
    }
    w.count("histories of one operation many times over, then every operation", ops.len() as u64);
}

fn ins(v: &[&str]) -> Vec<Input> {
    v.iter().map(|s| Input::text(s.as_bytes())).collect()
}

fn machines(w: &mut W, tier: Tier) {
    let mut acts: Vec<Option<Act>> = vec![None, Some(Act::Pop(false)), Some(Act::Pop(true)), Some(Act::No(true))];
    for s in 0..2u8 {
        for d in [false, true] {
            acts.push(Some(Act::Push(s, d)));
            acts.push(Some(Act::Switch(s, d)));
        }
    }
    let n = acts.len();
    let texts = bytes(&[b"a", b"b"], tier.pick(2, 3));
    let letter = |s: usize, c: usize, a: Option<Act>| {
        let t = (s * 8 + c * 2) as i8;
        let p = Lx::Punct(lits(&[(["a", "b"][c], t)]));
        match a {
            None => p,
            Some(a) => Lx::Mix(Box::new(p), vec![(t, a)]),
        }
    };
    for code in 0..n.pow(4) {
        if w.stop() {
            return;
        }
        if !w.next() {
            continue;
        }
        let k = [code % n, code / n % n, code / n / n % n, code / n / n / n];
        let m = Machine {
            states: vec![
                (0, vec![letter(0, 0, acts[k[0]]), letter(0, 1, acts[k[1]])]),
                (1, vec![letter(1, 0, acts[k[2]]), letter(1, 1, acts[k[3]])]),
            ],
            single: false,
        };
        let exp: Vec<_> = texts.iter().map(|t| m.run(t)).collect();
        let t = match guarded(|| m.real(&Lo::plain())) {
            Ok(Ok(t)) => t,
            r => {
                w.viol("construction", format!("{}: {:?}", m, r.map(|_| ())));
                continue;
            }
        };
        // one object lives through every triple of texts
        let l = texts.len();
        'all: for c in 0..l * l * l {
            for i in [c % l, c / l % l, c / l / l] {
                let got = tokenize(&*t, &texts[i]);
                w.traces += 1;
                w.transitions += exp[i].1;
                if !agree(&exp[i].0, &got) {
                    w.viol(
                        "tokenizer-history",
                        format!("{}\nafter tokenizing other texts, {:?}\nexpected: {}\nobserved: {}", m, String::from_utf8_lossy(&texts[i]), show_exp(&exp[i].0), show_out(&got)),
                    );
                    break 'all;
                }
            }
            w.states += 1;
        }
        w.count("tokenizer histories", (l * l * l) as u64);
        // one text again and again, then every text once
        if let Ok(Ok(t)) = guarded(|| m.real(&Lo::plain())) {
            'many: for x in 0..l {
                for i in (0..300).map(|_| x).chain(0..l) {
                    let got = tokenize(&*t, &texts[i]);
                    w.transitions += 1;
                    if !agree(&exp[i].0, &got) {
                        w.viol(
                            "tokenizer-history",
                            format!(
                                "{}\nafter many times {:?}, {:?}\nexpected: {}\nobserved: {}",
                                m,
                                String::from_utf8_lossy(&texts[x]),
                                String::from_utf8_lossy(&texts[i]),
                                show_exp(&exp[i].0),
                                show_out(&got)
                            ),
                        );
                        break 'many;
                    }
                }
                w.traces += 1;
            }
        }
    }
}

fn run(w: &mut W, tier: Tier) {
    let none: &[Input] = &[];
    let txt = ins(&["", "a", "b", "ab", "ba", "aab", "abb"]);
    let tok = ins(&["", "a", "b ", " ab", "b\na", "aab", "a?b"]);
    let ops_t: Vec<Op3> = (0..7).map(|i| (0, 0, i)).chain([(0, 1, 0), (0, 2, 0)]).collect();
    let ops_k: Vec<Op3> = (0..7)
        .map(|i| (0, 0, i))
        .chain([(0, 1, 0), (0, 2, 0), (0, 3, 3), (0, 3, 6), (0, 4, 5), (0, 5, 4)])
        .collect();
    let one = |w: &mut W, fam: &Fam, keep: Keep, text: bool, depth: usize| {
        let o = if text { Opts::text() } else { Opts::token() };
        let (i, p) = if text { (&txt, &ops_t) } else { (&tok, &ops_k) };
        run_fam(w, fam, keep, none, &mut |w, g, _| go(w, g, &o, &[g.root], i, p, depth));
    };
    let core = Space {
        leaves: vec![a(), b(), Ex::Null],
        un: vec![Un::List, Un::Opt, Un::Node, Un::Memo, Un::Val(Vp::FailIfB)],
        bin: vec![Bin::Cat, Bin::Alt, Bin::SepI, Bin::SepN, Bin::SufS, Bin::Suf],
        ter: vec![],
    };
    let mut rec = core.clone();
    rec.leaves = vec![a(), b(), Ex::R(0)];
    let mut two = core.clone();
    two.leaves = vec![a(), b(), Ex::R(0), Ex::R(1)];
    two.un = vec![Un::Opt, Un::Memo, Un::List];
    two.bin = vec![Bin::Cat, Bin::Alt, Bin::SufS];
    let all: Keep = &|_| true;
    for text in [true, false] {
        let n = if text { "text" } else { "tokens" };
        let nm = |s: &str| -> &'static str { Box::leak(format!("{}, {}", s, n).into_boxed_str()) };
        one(w, &Fam::one(nm("one rule"), full(basic_leaves()), 3), all, text, tier.pick(2, 3));
        one(w, &Fam::one(nm("one rule, core"), core.clone(), tier.pick(3, 4)), all, text, tier.pick(3, 3));
        one(w, &Fam::one(nm("recursive"), rec.clone(), tier.pick(4, 5)), &|r| uses_rule(&r[0], 0), text, tier.pick(2, 3));
        one(w, &Fam::two(nm("two rules"), two.clone(), 3, 3), all, text, tier.pick(2, 3));
        // one operation again and again
        let o = if text { Opts::text() } else { Opts::token() };
        let (i7, ops7) = if text { (&txt, &ops_t) } else { (&tok, &ops_k) };
        let fam = Fam::one(nm("one operation many times over"), core.clone(), tier.pick(3, 4));
        run_fam(w, &fam, all, none, &mut |w, g, _| again(w, g, &o, i7, ops7, 300));
        let fam = Fam::one(nm("one operation many times over, recursive"), rec.clone(), tier.pick(4, 5));
        run_fam(w, &fam, &|r| uses_rule(&r[0], 0), none, &mut |w, g, _| again(w, g, &o, i7, ops7, 300));
        let mut over = core.clone();
        over.leaves = vec![a(), cat(&[a(), b()]), cat(&[a(), a()]), Ex::Null];
        over.un = vec![Un::Opt, Un::Memo, Un::List];
        over.bin = vec![Bin::Cat, Bin::Alt, Bin::Suf, Bin::SufS];
        over.ter = vec![Ter::Alt, Ter::Suf];
        let fam = Fam::one(nm("one operation many times over, overlapping alternatives"), over, tier.pick(4, 4));
        run_fam(w, &fam, all, none, &mut |w, g, _| again(w, g, &o, i7, ops7, 300));
        let mut few = core.clone();
        few.un = vec![Un::List, Un::Memo];
        few.bin = vec![Bin::Alt, Bin::SufS, Bin::SepI];
        let fam = Fam::one(nm("one operation more than 65 536 times"), few, 3);
        run_fam(w, &fam, all, none, &mut |w, g, _| {
            again(w, g, &o, &i7[..4], &ops7[..3], tier.pick(70_000, 140_000))
        });
        // memoized symbols reached several times
        let mut memo = core.clone();
        memo.leaves = vec![Ex::Memo(bx(Ex::List(bx(a())))), Ex::Memo(bx(alt(&[cat(&[a(), b()]), a()]))), b()];
        memo.un = vec![Un::Opt, Un::Memo];
        one(w, &Fam::one(nm("memoized parts"), memo, tier.pick(3, 4)), all, text, tier.pick(2, 3));
        // two parsers over shared rule objects
        let o = if text { Opts::text() } else { Opts::token() };
        let i5 = if text { ins(&["", "a", "ab", "ba", "aab"]) } else { ins(&["", "a", " ab", "b a", "aab"]) };
        let ops: Vec<Op3> = (0..2).flat_map(|p| (0..5).map(move |i| (p, 0u8, i)).chain([(p, 1, 0), (p, 2, 0)])).collect();
        let fam = Fam::two(nm("shared rules"), two.clone(), 3, 3);
        run_fam(w, &fam, all, none, &mut |w, g, _| go(w, g, &o, &[0, 1], &i5, &ops, tier.pick(2, 3)));
        let mut rr = two.clone();
        rr.leaves = vec![a(), Ex::R(0), Ex::R(1)];
        rr.un = vec![Un::Opt];
        rr.bin = vec![Bin::Cat, Bin::Alt];
        let fam = Fam::two(nm("shared rules, mutual recursion"), rr, tier.pick(4, 5), 3);
        run_fam(w, &fam, &|r| uses_rule(&r[1], 0), none, &mut |w, g, _| go(w, g, &o, &[0, 1], &i5, &ops, 2));
        // two members of one rule as parsers of their own
        let fam = Fam::one(nm("a rule and its members"), core.clone(), 4);
        run_fam(w, &fam, &|r| kids(&r[0]).len() == 2, none, &mut |w, g, _| {
            let k = g.children(g.root);
            go(w, g, &o, &[g.root, k[0]], &i5, &ops, 2);
            go(w, g, &o, &[k[1], g.root], &i5, &ops, 2);
        });
    }
    // raw regions
    let raw = Space {
        leaves: vec![a(), Ex::W(0, true), Ex::Ns(bx(Ex::List(bx(Ex::W(0, true)))), true)],
        un: vec![Un::Ns(true), Un::Ns(false), Un::St, Un::Opt, Un::List],
        bin: vec![Bin::Cat, Bin::Alt],
        ter: vec![],
    };
    one(w, &Fam::one("raw regions, tokens", raw, tier.pick(4, 5)), &|r| any(r, &is_raw), false, 2);
    // large and deep rules, many different inputs
    let abc = |v: &[i8]| Input::text(&v.iter().map(|k| b'a' + *k as u8).collect::<Vec<u8>>());
    for o in [Opts::text(), Opts::token()] {
        let mut f = |w: &mut W, g: &Gram, i: &[Input]| lives(w, g, &o, i);
        shapes(w, all, &mut f, &abc);
        wide(w, all, &mut f, &abc);
        nested(w, all, &mut f, &abc, true);
        memo_lists(w, all, &mut f, &abc);
    }
    machines(w, tier);
}
