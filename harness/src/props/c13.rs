//! C13: validation closures and their errors.
use super::common::*;
use super::suite::*;
use crate::engine::*;
use crate::gram::*;
use crate::real::*;

pub const PROP: Prop = Prop {
    id: "C13",
    run,
    space: "every grammar expression containing a validation symbol, over {two terminals, null} and validations that accept, \
decline, fail, decline by number of nodes or fail by input content, under list, separated list, optional, node, hidden, \
look-ahead, memoization, sequence, choice, suffixes and raw regions, up to size 5 (thorough 6), recursive and two-rule \
systems; over every text / token sequence of length <= 4; outcome, tree, validation pointer and message, and the exact \
sequence of closure calls (symbol, nodes, input) compared with the reference; the same with up to 300 alternatives that each carry a validation of their own, over inputs of 65 540 items, and with 57 messages (empty, of several lines, blanks, braces, multi-byte letters, up to 65 537 bytes) at every pointer up to 3",
    assumptions: &[
        "closure call sequences are compared where no memoization and, in token parsing, no alternative selection is involved",
        "token parsing may skip validations of symbols that consumed nothing (see C06)",
    ],
};

/// the two ways not to match, told apart
fn kinds(w: &mut W) {
    use lang_pt::ProductionError as E;
    w.traces += 2;
    w.states += 2;
    let v = |p: usize, m: &str| E::Validation(p, m.to_string());
    for (e, invalid) in [(E::Unparsed, false), (v(0, ""), true), (v(7, "text"), true)] {
        if (e.is_invalid(), e.is_unparsed()) != (invalid, !invalid) {
            w.viol("kinds", format!("{:?}: is_invalid {}, is_unparsed {}", e, e.is_invalid(), e.is_unparsed()));
        }
    }
}

fn run(w: &mut W, tier: Tier) {
    if w.next() {
        kinds(w);
    }
    let t = Opts::text();
    let k = Opts::token();
    let keep = |r: &[Ex]| any(r, &is_val);
    let vs = [Vp::Fail, Vp::Decline, Vp::FailIfB, Vp::Accept, Vp::DeclineEven];
    let mut un: Vec<Un> = vs.iter().map(|v| Un::Val(*v)).collect();
    un.extend([Un::List, Un::Opt, Un::OptH, Un::LookV, Un::Node, Un::Hide, Un::Memo]);
    let memo = |g: &Gram| g.ops.iter().any(|o| matches!(o, Op::Memo(_)));
    let picks = |g: &Gram| g.ops.iter().any(|o| matches!(o, Op::Alt(_) | Op::Suf(..)));
    let mut text = |w: &mut W, g: &Gram, i: &[crate::refm::Input]| {
        run_case(w, g, &t, i, Asp { vlog: !memo(g), ptr: true, ..MATCH });
    };
    let mut toks = |w: &mut W, g: &Gram, i: &[crate::refm::Input]| {
        if !skippable(g) {
            run_case(w, g, &k, i, Asp { vlog: !memo(g) && !picks(g), ptr: true, ..MATCH });
        }
    };
    let ti = texts(&[b"a", b"b"], tier.pick(3, 4));
    let ki = streams(&[0, 1, -1], 3);
    let sp = Space { leaves: vec![a(), b(), Ex::Null], un: un.clone(), bin: all_bin(), ter: vec![Ter::Alt] };
    run_fam(w, &Fam::one("one rule, text", sp.clone(), tier.pick(5, 6)), &keep, &ti, &mut text);
    run_fam(w, &Fam::one("one rule, tokens", sp.clone(), tier.pick(5, 5)), &keep, &ki, &mut toks);
    let sp = Space { leaves: vec![a(), b(), Ex::R(0)], ..sp };
    run_fam(w, &Fam::one("recursive rule, text", sp.clone(), 5), &keep, &texts(&[b"a", b"b"], 4), &mut text);
    run_fam(w, &Fam::one("recursive rule, tokens", sp.clone(), 5), &keep, &ki, &mut toks);
    let two = Space {
        leaves: vec![a(), b(), Ex::R(0), Ex::R(1)],
        un: vec![Un::Val(Vp::Fail), Un::Val(Vp::Decline), Un::Val(Vp::FailIfB), Un::Opt, Un::LookV, Un::Memo, Un::List],
        bin: vec![Bin::Cat, Bin::Alt, Bin::SepN, Bin::SepI, Bin::SufS],
        ter: vec![],
    };
    run_fam(w, &Fam::two("two rules, text", two.clone(), 3, tier.pick(3, 4)), &keep, &ti, &mut text);
    run_fam(w, &Fam::two("two rules, tokens", two, 3, tier.pick(3, 4)), &keep, &ki, &mut toks);
    let raw = Space {
        leaves: vec![a(), Ex::W(0, true), Ex::W(0, false)],
        un: vec![Un::Ns(true), Un::Ns(false), Un::St, Un::Val(Vp::Fail), Un::Val(Vp::Decline), Un::List, Un::Opt, Un::Node],
        bin: all_bin(),
        ter: vec![Ter::Cat],
    };
    let keep2 = |r: &[Ex]| any(r, &is_val) && any(r, &is_raw);
    run_fam(w, &Fam::one("raw regions", raw, tier.pick(5, 6)), &keep2, &streams(&[0, -1], 4), &mut toks);
    // subjects in contexts
    let sp = Space {
        leaves: vec![a(), b(), Ex::Null],
        un: vec![Un::Val(Vp::Fail), Un::Val(Vp::Decline), Un::Val(Vp::FailIfB), Un::Opt, Un::List, Un::Memo],
        bin: vec![Bin::Cat, Bin::Alt, Bin::SepN, Bin::SufS],
        ter: vec![],
    };
    let abc = texts(&[b"a", b"b", b"c"], 4);
    ctx_fam(w, sp.clone(), tier.pick(4, 5), &keep, &abc, &mut text);
    ctx_fam(w, sp.clone(), tier.pick(4, 5), &keep, &streams(&[0, 1, 2], 4), &mut toks);
    // every operator read raw: the region is the whole rule, so that no selection precedes it
    let cs = contexts();
    let t = sp.tables(tier.pick(3, 4));
    let ins = streams(&[0, 1, 2, -1], 4);
    for e in t.iter().flatten() {
        for k in &cs {
            if w.next() {
                let r = Ex::Ns(bx(k(e)), false);
                if any(std::slice::from_ref(&r), &is_val) {
                    usable(w, vec![r], &mut |w, g| toks(w, g, &ins));
                }
            }
        }
    }
    // what closures say, and where
    let mut says: Vec<String> = ["", " ", "\n", "one\ntwo", "one\n\n", "\n one", "one\r\n", "\tone ", "{}", "{0} %s {{", "Unexpected end of file.", "Failed to parse at", "3 4", "\u{e9}\u{1f600}", "\0", "one\u{2028}two", "\"'\\"]
        .iter()
        .map(|s| s.to_string())
        .collect();
    for n in [63usize, 64, 65, 79, 80, 81, 119, 121, 127, 128, 129, 255, 256, 257, 300, 511, 513, 1025, 4097, 65_537] {
        says.push(format!("{}!", "m".repeat(n - 1)));
        says.push(format!("{}\n!", "m\u{e9}".repeat(n / 3)));
    }
    let f = |e: Ex| Ex::Val(bx(e), Vp::Fail);
    let places = [
        f(a()),
        f(cat(&[a(), b()])),
        Ex::Opt(bx(f(a()))),
        Ex::List(bx(alt(&[Ex::Val(bx(b()), Vp::Fail), a()]))),
        alt(&[cat(&[a(), f(b())]), a()]),
        Ex::Suf(bx(a()), true, vec![f(b()), a()]),
        Ex::Memo(bx(f(a()))),
        Ex::Node(bx(f(Ex::Node(bx(a()))))),
        Ex::Hide(bx(f(a()))),
        Ex::Look(bx(f(a())), true),
        Ex::Sep(bx(f(a())), bx(b()), true),
        alt(&[cat(&[a(), Ex::R(0)]), f(b())]),
    ];
    let lines: Vec<Vec<u8>> = crate::lexm::bytes(&[b"a", b"b"], 2).into_iter().chain([&b"aab"[..], b"ab\nb", b"a\n\n", b"ab\xc3\xa9"].map(|s| s.to_vec())).collect();
    let ti: Vec<_> = lines.iter().map(|s| crate::refm::Input::text(s)).collect();
    let ki = streams(&[0, 1], 3);
    for say in &says {
        for at in 0..4usize {
            for e in &places {
                if w.next() {
                    let asp = |g: &Gram| Asp { vlog: !memo(g) && !picks(g), ptr: true, msg: true, ..MATCH };
                    let within = |v: &[crate::refm::Input]| -> Vec<crate::refm::Input> { v.iter().filter(|i| i.text.len() >= at).cloned().collect() };
                    saying(at, say, || {
                        usable(w, vec![e.clone()], &mut |w, g| {
                            w.count("messages and pointers", 1);
                            run_case(w, g, &Opts::text(), &within(&ti), asp(g));
                            if !skippable(g) {
                                run_case(w, g, &k, &within(&ki), asp(g));
                            }
                        });
                    });
                }
            }
        }
    }
    // many alternatives, each with a validation of its own
    for n in [33usize, 65, 130, 300] {
        let bits = |x: usize| -> Vec<i8> { std::iter::once(0).chain((0..9).map(|i| (x >> i & 1) as i8)).collect() };
        for shift in 0..3 {
            let member = |x: usize| {
                let word = Ex::Cat(bits(x / 2).iter().map(|k| Ex::T(*k as u8, true)).collect());
                Ex::Val(bx(word), [Vp::Decline, Vp::Accept, Vp::DeclineEven, Vp::Fail, Vp::Accept][(x + shift) % 5])
            };
            let all: Vec<Ex> = (0..n).map(member).collect();
            for g in [
                Ex::Alt(all.clone()),
                Ex::List(bx(Ex::Alt(all.clone()))),
                Ex::Suf(bx(c()), true, all.clone()),
                Ex::Suf(bx(c()), false, all.clone()),
                Ex::Suf(bx(Ex::Val(bx(Ex::Opt(bx(c()))), Vp::Accept)), true, all.clone()),
                cat(&[Ex::Opt(bx(Ex::Alt(all.clone()))), Ex::List(bx(alt(&[a(), b()])))]),
                Ex::Cat((0..n).map(|i| Ex::Val(bx(Ex::Opt(bx(a()))), if i + 2 == n { Vp::FailIfB } else { Vp::Accept })).collect()),
            ] {
                if w.next() {
                    let mk = |p: &[i8]| -> [Vec<i8>; 2] { [p.to_vec(), [&[2], p].concat()] };
                    let mut ins: Vec<Vec<i8>> = vec![vec![], vec![0], vec![2]];
                    for p in [0, 1, 2, 3, 4, 15, 16, 31, 32, 33, 63, 64, n / 4, n / 2 - 1, n / 2, n / 2 + 1] {
                        ins.extend(mk(&bits(p)));
                        ins.extend(mk(&[&bits(p)[..], &bits(n / 2 - 1)].concat()));
                    }
                    ins.extend([1, 2, n - 1, n].map(|k| vec![0; k]));
                    ins.extend([1, 2, n - 1, n].map(|k| rep(&[], &[0], k, &[1])));
                    let ti: Vec<_> = ins.iter().map(|v| crate::refm::Input::text(&v.iter().map(|k| b'a' + *k as u8).collect::<Vec<u8>>())).collect();
                    let ki: Vec<_> = ins.iter().map(|v| tokens(v)).collect();
                    usable(w, vec![g], &mut |w, g| {
                        text(w, g, &ti);
                        toks(w, g, &ki);
                    });
                }
            }
        }
    }
    // long lists and deep nesting under a validation that looks at everything
    let mut ins = vec![];
    let mut huge = vec![];
    for n in LONG {
        ins.push(crate::refm::Input::text(&vec![b'a'; *n]));
        let mut v = vec![b'a'; *n];
        v.push(b'b');
        ins.push(crate::refm::Input::text(&v));
    }
    for n in HUGE {
        huge.push(crate::refm::Input::text(&vec![b'a'; *n]));
        huge.push(crate::refm::Input::text(&[&vec![b'a'; *n][..], b"b"].concat()));
    }
    for v in vs {
        let val = |e: Ex| Ex::Val(bx(e), v);
        for g in [
            val(Ex::List(bx(a()))),
            Ex::List(bx(val(a()))),
            alt(&[val(cat(&[Ex::List(bx(a())), b()])), Ex::List(bx(a()))]),
            Ex::Opt(bx(val(cat(&[Ex::List(bx(a())), Ex::Opt(bx(b()))])))),
            alt(&[cat(&[a(), val(Ex::R(0))]), Ex::Null]),
            cat(&[Ex::List(bx(alt(&[val(b()), a()]))), Ex::Eof(true)]),
        ] {
            if w.next() {
                let rec = uses_rule(&g, 0);
                usable(w, vec![g], &mut |w, g| {
                    text(w, g, &ins);
                    if !rec {
                        text(w, g, &huge);
                    }
                });
            }
        }
    }
}
