//! C16: accepted grammars always come to a verdict.
use super::common::*;
use super::suite::*;
use crate::engine::*;
use crate::gram::*;
use crate::real::*;
use crate::refm::*;

pub const PROP: Prop = Prop {
    id: "C16",
    run,
    space: "every grammar expression up to size 6 over all symbols (validations of every kind, empty rules, patterns that match \
nothing), recursive systems up to size 6, two-rule systems up to 3+3 (thorough 4+4), in text parsing over every short text \
including arbitrary bytes and in token parsing (raw regions included) over every short token sequence; wide rules and inputs \
of up to 300 repetitions; each construction that succeeds must end every parse with a tree or an error within step and depth \
limits far above what the reference needs, without panicking; the shared families of DESIGN.md (subjects in 29 contexts, special characters, equal node values, failing validations, inputs of 65 540 items, nesting to 2600, wide and deep rules, rules nested in themselves below every pair of wrappers, chains of rules each referring to the next twice, where the reference shows that little work is needed), flat inputs of 262 150 (1 050 000) items on a 512 KB stack, long texts through the tokenizers",
    assumptions: &[
        "recursion depth proportional to the nesting of the input is inherent and not claimed against",
        "memoization inside raw regions is refused by the library; re-entry through a raw region without structural progress is a recorded finding",
        "a token symbol for the end-of-file token itself is a recorded finding",
    ],
};

/// `check`: look first whether the reference comes to an end within its limits
fn go(w: &mut W, g: &Gram, o: &Opts, ins: &[Input], check: bool) {
    let (_b, p) = match make(g, o) {
        Made::Ready(b, p) => (b, p),
        Made::Rejected(_) => {
            w.count("rejected at construction", 1);
            return;
        }
        Made::NoGraph => return,
        Made::Panic(m) => {
            w.viol("construction-panic", format!("grammar {}: construction panics: {}", g.text, m));
            return;
        }
    };
    let raw = check || g.ops.iter().any(|o| matches!(o, Op::Ns(..)));
    for inp in ins {
        if raw {
            let mut r = Ref::new(g, inp);
            let fuel = r.run(g.root, mode(o), 0) == Err(Fail::Fuel);
            if fuel || r.raw_memo {
                w.count("inputs set aside: raw-region re-entry or memoization, inherent blow-up", 1);
                continue;
            }
        }
        let got = parse(&p, inp);
        let used = STEPS.with(|s| s.get());
        w.traces += 1;
        w.states += 1;
        w.transitions += used;
        match &got {
            Out::Ok(..) => w.count("ended with a tree", 1),
            Out::Err(..) => w.count("ended with an error", 1),
            Out::Panic(m) => {
                let k = if m.contains("RUNAWAY") { "runaway" } else { "panic" };
                w.viol(k, format!("grammar {}\ninput {}\n{}", g.text, show_input(inp), m));
                return;
            }
        }
        w.sample(|| format!("{} on {} -> {}", g.text, show_input(inp), got.show()));
    }
}

/// Rules that only iterate, over very long inputs, on a stack that has no room for a frame per
/// item: nesting of the input is the only thing that may use up the stack.
fn flat(w: &mut W, tier: Tier) {
    let h = |e: Ex| Ex::Hide(bx(e));
    let ab = alt(&[cat(&[a(), b()]), a(), b()]);
    let rules = vec![
        Ex::List(bx(a())),
        Ex::List(bx(ab.clone())),
        Ex::List(bx(Ex::Node(bx(ab.clone())))),
        h(Ex::List(bx(ab.clone()))),
        Ex::Opt(bx(Ex::List(bx(Ex::Memo(bx(ab.clone())))))),
        Ex::Memo(bx(Ex::List(bx(ab.clone())))),
        Ex::Sep(bx(a()), bx(b()), true),
        Ex::Sep(bx(a()), bx(b()), false),
        Ex::Sep(bx(a()), bx(Ex::Opt(bx(b()))), true),
        Ex::Sep(bx(a()), bx(Ex::Opt(bx(b()))), false),
        Ex::List(bx(Ex::Suf(bx(a()), true, vec![b(), cat(&[a(), b()])]))),
        Ex::List(bx(Ex::Suf(bx(a()), false, vec![b()]))),
        cat(&[Ex::Look(bx(Ex::List(bx(ab.clone()))), true), Ex::List(bx(ab.clone())), Ex::Eof(true)]),
        Ex::Val(bx(Ex::List(bx(ab.clone()))), Vp::Accept),
        Ex::Val(bx(Ex::List(bx(ab.clone()))), Vp::FailIfB),
        Ex::Suf(bx(Ex::List(bx(a()))), true, vec![Ex::List(bx(b()))]),
        alt(&[cat(&[Ex::List(bx(ab.clone())), c()]), Ex::List(bx(ab))]),
    ];
    for e in &rules {
        for text in [true, false] {
            for n in [65_540usize, tier.pick(262_150, 1_050_000)] {
                for (v, t) in [(&[0i8][..], &[][..]), (&[0, 1], &[]), (&[0], &[2]), (&[0, 1], &[0, 2])] {
                    if !w.next() {
                        continue;
                    }
                    let toks = rep(&[], v, n / v.len(), t);
                    let inp = if text { Input::text(&toks.iter().flat_map(|c| lit(*c as u8).bytes()).collect::<Vec<u8>>()) } else { tokens(&toks) };
                    let g = Gram::single(e);
                    let r = std::thread::scope(|s| {
                        std::thread::Builder::new()
                            .stack_size(512 << 10)
                            .spawn_scoped(s, || {
                                let o = if text { Opts::text() } else { Opts::token() };
                                match make(&g, &o) {
                                    Made::Ready(_b, p) => match parse(&p, &inp) {
                                        Out::Panic(m) => Err(m),
                                        Out::Ok(..) => Ok(Some(true)),
                                        Out::Err(..) => Ok(Some(false)),
                                    },
                                    _ => Ok(None),
                                }
                            })
                            .unwrap()
                            .join()
                            .unwrap_or_else(|_| Err("panic".into()))
                    });
                    w.traces += 1;
                    w.states += 1;
                    w.transitions += toks.len() as u64;
                    match r {
                        Ok(Some(true)) => w.count("flat inputs on a small stack: tree", 1),
                        Ok(Some(false)) => w.count("flat inputs on a small stack: error", 1),
                        Ok(None) => w.count("rejected at construction", 1),
                        Err(m) => w.viol("panic", format!("grammar {}\n{} items {:?} then {:?}, {}: {}", g.text, n, v, t, if text { "text" } else { "tokens" }, m)),
                    }
                }
            }
        }
    }
    // tokenizers
    for (lead, name) in [(0u8, "combined"), (1, "single")] {
        use crate::lexm::*;
        for unit in ["a", "ab ", "a;"] {
            if !w.next() {
                continue;
            }
            let x = unit.repeat(tier.pick(262_150, 1_050_000)).into_bytes();
            let set = vec![Lx::Pat(0, 0), Lx::Punct(lits(&[("b", 1), (" ", -1), (";", 2), ("ab", 3)]))];
            let m = if lead == 1 { Machine::one(set) } else { Machine { states: vec![(0, set)], single: false } };
            let r = std::thread::scope(|s| {
                std::thread::Builder::new()
                    .stack_size(512 << 10)
                    .spawn_scoped(s, || guarded(|| m.real(&Lo::plain()).map(|t| tokenize(&*t, &x).map(|r| r.is_ok()))))
                    .unwrap()
                    .join()
                    .unwrap_or_else(|_| Err("panic".into()))
            });
            w.traces += 1;
            match r {
                Ok(Ok(Ok(_))) => w.count("long texts tokenized on a small stack", 1),
                r => w.viol("panic", format!("{} tokenizer {} on {:?} repeated: {:?}", name, m, unit, r.map(|x| x.map(|y| y.map(|_| ())).map_err(|_| "refused")))),
            }
        }
    }
}

fn run(w: &mut W, tier: Tier) {
    flat(w, tier);
    let t = Opts::text();
    let k = Opts::token();
    let each = |w: &mut W, fam: &Fam, o: &Opts, ins: &[Input]| {
        fam.each(w, &mut |w, r| go(w, &Gram::system(&r, 0), o, ins, false));
    };
    let mut un = all_un();
    un.extend([Un::Val(Vp::Fail), Un::Val(Vp::Accept), Un::Look]);
    let leaves = vec![a(), Ex::Null, Ex::Eof(false), Ex::Re(2, true), Ex::Cat(vec![]), Ex::Alt(vec![])];
    let sp = Space { leaves, un: un.clone(), bin: all_bin(), ter: vec![Ter::Cat, Ter::Alt] };
    let bytes: [&[u8]; 4] = [b"a", b"b", b"\xff", b"\n"];
    each(w, &Fam::one("one rule, text", sp.clone(), tier.pick(5, 6)), &t, &texts(&bytes, 2));
    let rec = Space { leaves: vec![a(), Ex::Null, Ex::R(0)], un: vec![Un::List, Un::Opt, Un::LookV, Un::Val(Vp::DeclineEven), Un::Memo], bin: all_bin(), ter: vec![Ter::Cat, Ter::Alt] };
    each(w, &Fam::one("recursive rule, text", rec.clone(), tier.pick(6, 7)), &t, &texts(&[b"a", b"b"], 3));
    let mut leaves = token_leaves();
    leaves.extend([Ex::Cat(vec![]), Ex::Alt(vec![])]);
    let sp = Space { leaves, un, bin: all_bin(), ter: vec![Ter::Cat, Ter::Alt] };
    each(w, &Fam::one("one rule, tokens", sp, tier.pick(4, 5)), &k, &streams(&[0, 1, 2, -1], 3));
    each(w, &Fam::one("recursive rule, tokens", rec, tier.pick(5, 6)), &k, &streams(&[0, 1, -1], 3));
    let two = Space { leaves: vec![a(), Ex::Null, Ex::R(0), Ex::R(1)], un: vec![Un::List, Un::Opt, Un::LookV, Un::Memo], bin: vec![Bin::Cat, Bin::Alt, Bin::SepI, Bin::SepN, Bin::SufS], ter: vec![] };
    each(w, &Fam::two("two rules, text", two.clone(), tier.pick(3, 4), tier.pick(3, 4)), &t, &texts(&[b"a", b"b"], 3));
    each(w, &Fam::two("two rules, tokens", two, 3, tier.pick(3, 4)), &k, &streams(&[0, 1, -1], 2));
    let raw = Space {
        leaves: vec![a(), Ex::W(0, true), Ex::Null, Ex::R(0), Ex::Eof(true)],
        un: vec![Un::Ns(true), Un::Ns(false), Un::St, Un::List, Un::Opt, Un::LookV],
        bin: vec![Bin::Cat, Bin::Alt, Bin::SepI, Bin::SufS],
        ter: vec![],
    };
    each(w, &Fam::one("raw regions", raw, tier.pick(5, 6)), &k, &streams(&[0, -1, -2], 3));
    shapes(w, &|_| true, &mut |w, g, i| go(w, g, &t, i, true), &|v| Input::text(&v.iter().flat_map(|c| lit(*c as u8).bytes()).collect::<Vec<u8>>()));
    shapes(w, &|_| true, &mut |w, g, i| go(w, g, &k, i, true), &|v| tokens(v));
    diamond_inputs(w, &|_| true, &mut |w, g, i| go(w, g, &t, i, true), &|v| Input::text(&v.iter().flat_map(|c| lit(*c as u8).bytes()).collect::<Vec<u8>>()));
    diamond_inputs(w, &|_| true, &mut |w, g, i| go(w, g, &k, i, true), &|v| tokens(v));
    // the recorded finding, run as itself
    let fin = vec![Ex::Cat(vec![Ex::Ns(bx(cat(&[Ex::W(0, true), Ex::St(bx(Ex::R(0)))])), false), a()])];
    if w.next() {
        let g = Gram::system(&fin, 0);
        if let Made::Ready(_b, p) = make(&g, &k) {
            let inp = tokens(&[-1, 0]);
            w.traces += 1;
            if let Out::Panic(m) = parse(&p, &inp) {
                w.viol("raw-region-reentry", format!("grammar {}\ninput {}\n{}", g.text, show_input(&inp), m));
            }
        }
    }
    // the second recorded finding
    if w.next() {
        use lang_pt::production::*;
        use std::rc::Rc;
        w.traces += 1;
        let root = Rc::new(Node::new(&Rc::new(TokenField::<u16, i8>::new(i8::MAX, None)), 1));
        let inp = tokens(&[]);
        match guarded(|| Dp::new(no_tokenizer(), root).ok().map(Parser::Tok)) {
            Ok(Some(p)) => {
                if let Out::Panic(m) = parse(&p, &inp) {
                    w.viol("end-of-file-terminal", format!("Node(TokenField(<end of file>)) on the empty input: {}", m));
                }
            }
            Ok(None) => {}
            Err(m) => w.viol("construction-panic", m),
        }
    }
}
