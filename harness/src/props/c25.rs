//! C25: routes of construction.
use super::common::*;
use super::suite::*;
use crate::engine::*;
use crate::gram::*;
use crate::lexm::*;
use crate::real::*;
use crate::refm::*;

pub const PROP: Prop = Prop {
    id: "C25",
    run,
    space: "every grammar expression up to size 4 (thorough 5), recursive and two-rule systems, memoization, validations, raw regions, \
sets, rejected and unfinished grammars included: symbols given at once, declared first and assigned later, through the fluent \
methods, assigned a second time, with a separate copy per use, after failed attempts to construct a parser between the \
assignments; construction verdict, and for every short input acceptance, tree, error pointer and message compared across all \
of them and with the reference; sets and hidden symbols through their alternative constructors; every stack of two lexeme \
adaptors by constructor and by fluent method, in one- and two-state tokenizers",
    assumptions: &["rules that are part of a cycle are always declared first (there is no other way)", "validation closures are functions of their arguments"],
};

fn variants(base: &Opts, recursive: bool) -> Vec<(&'static str, Opts)> {
    let mut v = vec![
        ("given at construction", Opts { route: Route::New, ..base.clone() }),
        ("fluent methods", Opts { route: Route::Builder, ..base.clone() }),
        ("assigned twice, declared first", Opts { reassign: true, ..base.clone() }),
        ("assigned twice, given at construction", Opts { route: Route::New, reassign: true, ..base.clone() }),
        ("assigned twice, fluent methods", Opts { route: Route::Builder, reassign: true, ..base.clone() }),
        ("parser attempted between assignments", Opts { probe: true, reassign: true, ..base.clone() }),
    ];
    if !recursive {
        v.push(("a copy per use, declared first", Opts { copies: true, ..base.clone() }));
        v.push(("a copy per use, given at construction", Opts { copies: true, route: Route::New, ..base.clone() }));
        v.push(("a copy per use, fluent methods", Opts { copies: true, route: Route::Builder, ..base.clone() }));
    }
    v
}

fn compare(w: &mut W, g: &Gram, base: &Opts, vs: &[(&'static str, Opts)], ins: &[Input], against_ref: bool) {
    let bad = |w: &mut W, k: &str, m: String| w.viol(k, format!("grammar {}\n{}", g.text, m));
    let show = |m: &Made| match m {
        Made::Ready(..) => "constructed".to_string(),
        Made::Rejected(e) => format!("rejected: {}", e),
        Made::Panic(p) => format!("panics: {}", p),
        Made::NoGraph => "not expressible".into(),
    };
    let first = make(g, base);
    let outs: Option<Vec<Out>> = match &first {
        Made::NoGraph => return,
        Made::Rejected(_) => None,
        Made::Panic(m) => return bad(w, "construction-panic", m.clone()),
        Made::Ready(b, p) => {
            if let Some(n) = b.notes.first() {
                return bad(w, "assignment", n.clone());
            }
            if against_ref {
                for i in ins {
                    if !run_input(w, g, base, p, i, MATCH) {
                        return;
                    }
                }
            }
            Some(ins.iter().map(|i| parse(p, i)).collect())
        }
    };
    w.states += 1;
    w.count(if outs.is_some() { "grammars constructed" } else { "grammars refused by every route" }, 1);
    for (nm, o) in vs {
        let m = make(g, o);
        w.traces += 1;
        if let Made::NoGraph = m {
            w.count("routes that cannot express the grammar", 1);
            continue;
        }
        w.transitions += 1;
        match (&outs, &m) {
            (None, Made::Rejected(_)) => {}
            (Some(v), Made::Ready(b, p)) => {
                if let Some(n) = b.notes.first() {
                    return bad(w, "assignment", format!("{}: {}", nm, n));
                }
                for (i, x) in ins.iter().zip(v) {
                    let y = parse(p, i);
                    w.traces += 1;
                    if y != *x {
                        return bad(w, "routes", format!("input {}\ndeclared first: {}\n{}: {}", show_input(i), x.show(), nm, y.show()));
                    }
                }
                w.count(nm, 1);
            }
            _ => return bad(w, "verdict", format!("declared first: {}\n{}: {}", show(&first), nm, show(&m))),
        }
    }
    w.sample(|| format!("{}: {} routes over {} inputs", g.text, vs.len(), ins.len()));
}

fn run(w: &mut W, tier: Tier) {
    let n = tier.pick(4, 5);
    for text in [true, false] {
        let o = if text { Opts::text() } else { Opts::token() };
        let ins = if text { texts(&[b"a", b"b"], 3) } else { streams(&[0, 1, -1], 3) };
        let mut each = |w: &mut W, f: &Fam, o: &Opts, ins: &[Input]| {
            f.each(w, &mut |w, r| {
                let g = Gram::system(&r, 0);
                let rec = r.iter().any(|e| uses_rule(e, 0) || uses_rule(e, 1));
                let cyclic = rec && build(&g, &Opts { copies: true, ..o.clone() }).is_none();
                // raw regions and skipped validations have their own checks against the reference
                compare(w, &g, o, &variants(o, cyclic), ins, false);
            });
        };
        let mut leaves = vec![a(), b(), Ex::Null, Ex::Eof(true), Ex::Unset(0), Ex::Unset(1), Ex::Unset(2)];
        let mut sp = full(leaves.clone());
        sp.un.extend([Un::Val(Vp::DeclineEven), Un::Val(Vp::FailIfB), Un::Look]);
        if !text {
            sp.un.extend([Un::Ns(true), Un::St]);
            sp.leaves.push(Ex::W(0, true));
        }
        each(w, &Fam::one("one rule", sp.clone(), n), &o, &ins);
        leaves = vec![a(), set(&[(0, true), (1, false), (3, true)]), Ex::Cat(vec![]), Ex::Alt(vec![]), Ex::NullH];
        if text {
            leaves.extend([Ex::Re(1, true), Ex::Re(2, true)]);
        }
        each(w, &Fam::one("sets, patterns, empty rules", full(leaves), tier.pick(3, 4)), &o, &ins);
        for m in [1, 2] {
            alike(m, || each(w, &Fam::one("equal node values", full(vec![a(), b(), Ex::Null]), n), &o, &ins));
        }
        let mut rec = sp.clone();
        rec.leaves = vec![a(), b(), Ex::R(0), Ex::Unset(0)];
        rec.un = vec![Un::List, Un::Opt, Un::Node, Un::Hide, Un::LookV, Un::Memo];
        rec.ter = vec![];
        each(w, &Fam::one("recursive", rec.clone(), tier.pick(5, 6)), &o, &ins);
        let mut two = rec.clone();
        two.leaves = vec![a(), b(), Ex::R(0), Ex::R(1), Ex::Unset(1)];
        two.un = vec![Un::List, Un::Opt, Un::Memo, Un::Look];
        let short = if text { texts(&[b"a", b"b"], 2) } else { streams(&[0, 1], 2) };
        each(w, &Fam::two("two rules", two, 3, tier.pick(3, 4)), &o, &short);
        // a rule used in several places: shared or copied
        let sh = Space {
            leaves: vec![a(), Ex::R(1)],
            un: vec![Un::List, Un::Opt, Un::Node, Un::Memo],
            bin: all_bin(),
            ter: vec![Ter::Cat, Ter::Alt],
        };
        let rule = Space { leaves: vec![a(), b()], un: vec![Un::Opt, Un::OptH, Un::Hide, Un::Node, Un::Memo, Un::Val(Vp::DeclineEven)], bin: vec![Bin::Cat, Bin::Alt, Bin::SufS], ter: vec![] };
        for e in sh.tables(5).iter().flatten() {
            if !uses_rule(e, 1) {
                continue;
            }
            for r in rule.tables(tier.pick(3, 4)).iter().flatten() {
                if w.next() {
                    let g = Gram::system(&[e.clone(), r.clone()], 0);
                    compare(w, &g, &o, &variants(&o, false), &short, !any(&[r.clone()], &is_val));
                    w.count("shared and copied rules", 1);
                }
            }
        }
        // the same rule several times over
        let runs: Vec<Input> = (0..7usize)
            .flat_map(|k| ["", "b", "c"].iter().map(move |t| (k, *t)))
            .map(|(k, t)| if text { Input::text(&[&b"a".repeat(k)[..], t.as_bytes()].concat()) } else { tokens(&rep(&[], &[0], k, &t.bytes().map(|c| (c - b'a') as i8).collect::<Vec<i8>>())) })
            .collect();
        for r in rule.tables(4).iter().flatten() {
            for k in 2..=5usize {
                let v = vec![Ex::R(1); k];
                let mut end = v.clone();
                end.push(b());
                let mut mid = v.clone();
                mid.insert(k / 2, b());
                for e in [
                    Ex::Cat(v.clone()),
                    Ex::Cat(end),
                    Ex::Cat(mid),
                    Ex::Alt(v.clone()),
                    cat(&[Ex::Alt(v.clone()), Ex::Eof(true)]),
                    cat(&[Ex::Cat(v.clone()), Ex::Eof(true)]),
                    Ex::Suf(bx(Ex::R(1)), true, v.clone()),
                    Ex::Suf(bx(Ex::R(1)), false, v[1..].to_vec()),
                    Ex::Sep(bx(Ex::R(1)), bx(Ex::R(1)), true),
                ] {
                    if w.next() {
                        let g = Gram::system(&[e, r.clone()], 0);
                        compare(w, &g, &o, &variants(&o, false), &runs, !any(&[r.clone()], &is_val));
                        w.count("one rule several times over", 1);
                    }
                }
            }
        }
        // alternative constructors
        if !text {
            let mut s = full(vec![
                a(),
                set(&[(0, true), (1, true)]),
                set(&[(1, false), (0, false)]),
                set(&[(2, true), (0, true), (1, true)]),
                set(&[(0, true)]),
                set(&[]),
            ]);
            s.un.extend([Un::Ns(false), Un::St]);
            let ins = streams(&[0, 1, 2, -1], 3);
            let base = Opts { alt: 1, ..o.clone() };
            Fam::one("alternative constructors", s, tier.pick(3, 4)).each(w, &mut |w, r| {
                let g = Gram::system(&r, 0);
                compare(w, &g, &base, &[("alternative constructors", Opts { alt: 2, ..o.clone() })], &ins, false);
            });
        }
        shapes(
            w,
            &|_| true,
            &mut |w, g, i| {
                let cyclic = build(g, &Opts { copies: true, ..o.clone() }).is_none();
                compare(w, g, &o, &variants(&o, cyclic), i, false)
            },
            &|v| if text { Input::text(&v.iter().flat_map(|c| lit(*c as u8).bytes()).collect::<Vec<u8>>()) } else { tokens(v) },
        );
    }
    // lexeme adaptors
    let ad = super::c03::adaptors();
    let ctor = Lo::plain();
    let fluent = Lo { fluent: true, ..Lo::plain() };
    let texts = bytes(&[b"a", b"b", b" "], tier.pick(4, 5));
    let bases = [Lx::Pat(0, 0), Lx::Pat(8, 1), Lx::Punct(lits(&[("a", 0), ("ab", 2), ("aab", 4)])), Lx::Const(lits(&[("ab", 1), (" ", 3)]))];
    let acts: Vec<Box<dyn Fn(Lx) -> Lx>> = vec![
        Box::new(|x| Lx::Mix(Box::new(x), vec![(0, Act::Push(2, false)), (1, Act::Switch(2, false)), (2, Act::Pop(false))])),
        Box::new(|x| Lx::TMix(Box::new(x), Fx::Long, Act::Push(2, false))),
        Box::new(|x| Lx::TMix(Box::new(x), Fx::OddCount, Act::Pop(false))),
    ];
    let mut stacks: Vec<Lx> = vec![];
    for b in &bases {
        for x in &ad {
            for y in &ad {
                stacks.push(y(x(b.clone())));
            }
            for y in &acts {
                stacks.push(y(x(b.clone())));
                stacks.push(x(y(b.clone())));
            }
        }
    }
    for l in &stacks {
        if !w.next() {
            continue;
        }
        for m in [
            Machine::one(vec![l.clone(), Lx::Pat(5, 50)]),
            Machine { states: vec![(1, vec![l.clone(), Lx::Pat(5, 50)]), (2, vec![Lx::Pat(3, 9), l.clone(), Lx::Pat(12, 51), Lx::Pat(5, 52)])], single: false },
        ] {
            let (x, y) = (m.real(&ctor), m.real(&fluent));
            let (x, y) = match (x, y) {
                (Ok(x), Ok(y)) => (x, y),
                (x, y) => {
                    w.viol("lexeme-construction", format!("{}: by constructor {}, by fluent methods {}", m, x.is_ok(), y.is_ok()));
                    continue;
                }
            };
            for t in &texts {
                let (p, q) = (tokenize(&*x, t), tokenize(&*y, t));
                w.traces += 2;
                w.transitions += 1;
                if p != q {
                    w.viol(
                        "lexeme-routes",
                        format!("{}\ninput {:?}\nby constructors: {}\nby fluent methods: {}", m, String::from_utf8_lossy(t), show_out(&p), show_out(&q)),
                    );
                    break;
                }
            }
            w.states += 1;
            w.count("lexers compared", 1);
        }
    }
}
