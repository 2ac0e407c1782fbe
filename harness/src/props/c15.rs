//! C15: construction rejects exactly the unusable grammars.
use super::common::*;
use super::suite::*;
use crate::engine::*;
use crate::gram::*;
use crate::real::*;

pub const PROP: Prop = Prop {
    id: "C15",
    run,
    space: "every grammar expression up to size 5 (thorough 6), every single-rule system up to size 6 (7), every two-rule system \
up to sizes 4+3 (4+4) and every three-rule system up to sizes 3+3+2 (3+3+3) over all symbols, with unassigned rules, \
raw regions, memoization and shared rules; construction verdict of the text and the token parser compared with a \
least-fixpoint / left-graph decision; for multi-rule systems from every start rule, in every order of validations over the \
shared rule objects, twice each; chains of up to 520 rules, chains of rules each referring to the next twice through every wrapper; rules with long, non-ASCII and barely different names",
    assumptions: &["a raw-token region counts as consuming no structural input, its own tokens as progress inside the region", "rule names are unique"],
};

fn verdict(w: &mut W, g: &Gram, r: &Result<bool, String>, what: &str) -> bool {
    let exp = g.must_reject();
    w.states += g.ops.len() as u64;
    w.transitions += g.ops.len() as u64;
    w.traces += 1;
    w.count(
        match exp {
            None => "usable",
            Some("unassigned") => "unassigned symbols",
            Some(_) => "left recursive",
        },
        1,
    );
    let bad = match (exp, r) {
        (_, Err(m)) => Some(("panic", format!("validation panics: {}", m))),
        (None, Ok(false)) => Some(("rejects", "a usable grammar is rejected".to_string())),
        (Some(x), Ok(true)) => Some(("accepts", format!("an unusable grammar ({}) is accepted", x))),
        _ => None,
    };
    w.sample(|| format!("{} -> {:?}", g.text, exp));
    match bad {
        Some((k, m)) => {
            w.viol(k, format!("grammar {}\n{}: {}", g.text, what, m));
            false
        }
        None => true,
    }
}
fn made(m: Made) -> Option<Result<bool, String>> {
    match m {
        Made::Ready(..) => Some(Ok(true)),
        Made::Rejected(_) => Some(Ok(false)),
        Made::Panic(m) => Some(Err(m)),
        Made::NoGraph => None,
    }
}

fn both(w: &mut W, g: &Gram) {
    let sets = g.ops.iter().any(|x| matches!(x, Op::Set(_)));
    for o in [Opts::text(), Opts::token(), Opts { const_set: true, ..Opts::text() }] {
        if o.const_set && !sets {
            continue;
        }
        let empty = |k: &u8| *k == EMPTY;
        if !o.text && g.ops.iter().any(|x| matches!(x, Op::T(k, _) if empty(k)) || matches!(x, Op::Set(s) if s.iter().any(|m| empty(&m.0)))) {
            continue;
        }
        if let Some(r) = made(make(g, &o)) {
            if !verdict(w, g, &r, if o.text { "text parser" } else { "token parser" }) {
                return;
            }
        }
    }
}

/// all rules as roots over one set of shared rule objects, in every order
fn shared(w: &mut W, rules: &[Ex]) {
    let n = rules.len();
    let gs: Vec<Gram> = (0..n).map(|s| Gram::system(rules, s)).collect();
    let mut orders: Vec<Vec<usize>> = vec![];
    fn perms(n: usize, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if cur.len() == n {
            out.push(cur.clone());
            return;
        }
        for i in 0..n {
            if !cur.contains(&i) {
                cur.push(i);
                perms(n, cur, out);
                cur.pop();
            }
        }
    }
    perms(n, &mut vec![], &mut orders);
    for ord in orders {
        let b = match guarded(|| build(&gs[0], &Opts::text())) {
            Ok(Some(b)) => b,
            Ok(None) => {
                w.count("not expressible with the constructors", 1);
                return;
            }
            Err(m) => {
                w.viol("panic", format!("grammar {}: building panics: {}", gs[0].text, m));
                return;
            }
        };
        for round in 0..2 {
            for s in &ord {
                let root = match &b.nodes[gs[*s].root] {
                    Some(r) => r.clone(),
                    None => continue,
                };
                let r = guarded(|| Lp::new(root.clone()).is_ok());
                if !verdict(w, &gs[*s], &r, &format!("validation order {:?}, round {}", ord, round)) {
                    return;
                }
            }
        }
    }
}

fn run(w: &mut W, tier: Tier) {
    let each = |w: &mut W, fam: &Fam| {
        fam.each(w, &mut |w, r| {
            if r.len() == 1 {
                both(w, &Gram::system(&r, 0));
            } else {
                shared(w, &r);
            }
        })
    };
    let mut sp = full(vec![a(), Ex::Null, Ex::Unset(0), Ex::Unset(1), Ex::Unset(2), Ex::Eof(false), Ex::Cat(vec![]), Ex::Alt(vec![])]);
    each(w, &Fam::one("one rule, unassigned symbols", sp.clone(), tier.pick(4, 5)));
    sp.leaves = vec![a(), Ex::R(0), Ex::Null];
    sp.un = vec![Un::List, Un::Opt, Un::Node, Un::Hide, Un::LookV, Un::Val(Vp::Accept), Un::Memo, Un::Ns(true), Un::St];
    each(w, &Fam::one("one rule", sp.clone(), tier.pick(5, 6)));
    let core = Space {
        leaves: vec![a(), Ex::R(0), Ex::NullH],
        un: vec![Un::List, Un::Opt, Un::LookV],
        bin: vec![Bin::Cat, Bin::Alt, Bin::SepI, Bin::SufS, Bin::Suf],
        ter: vec![Ter::Cat, Ter::Suf],
    };
    each(w, &Fam::one("one rule, core symbols", core.clone(), tier.pick(6, 7)));
    let mut terms = core.clone();
    terms.leaves = vec![
        a(),
        Ex::R(0),
        set(&[(EMPTY, true)]),
        set(&[(0, true), (1, false)]),
        set(&[(0, true), (EMPTY, false)]),
        Ex::Re(0, true),
        Ex::Re(2, true),
        Ex::Eof(true),
    ];
    each(w, &Fam::one("one rule, other terminals", terms.clone(), tier.pick(5, 5)));
    terms.leaves.truncate(5);
    terms.leaves.push(Ex::R(1));
    terms.un = vec![Un::Opt, Un::List];
    terms.ter = vec![];
    each(w, &Fam::two("two rules, other terminals", terms, 3, 3));
    let mut two = core.clone();
    two.leaves = vec![a(), Ex::R(0), Ex::R(1), Ex::NullH];
    each(w, &Fam::two("two rules", two.clone(), tier.pick(3, 4), tier.pick(4, 4)));
    let wr = Space {
        leaves: vec![a(), Ex::R(0), Ex::R(1), Ex::Unset(1)],
        un: vec![Un::Node, Un::Hide, Un::Memo, Un::Val(Vp::Accept), Un::Ns(false), Un::St, Un::OptH, Un::LookV, Un::List],
        bin: vec![Bin::Cat, Bin::Alt, Bin::SepN, Bin::SufS],
        ter: vec![],
    };
    each(w, &Fam::two("two rules, wrappers, unassigned", wr, 3, 3));
    let three = Space {
        leaves: vec![a(), Ex::R(0), Ex::R(1), Ex::R(2), Ex::Null],
        un: vec![Un::Opt],
        bin: vec![Bin::Cat, Bin::Alt],
        ter: vec![],
    };
    let fam = Fam { name: "three rules", space: three.clone(), rules: 3, size: tier.pick(vec![3, 3, 2], vec![3, 3, 3]) };
    each(w, &fam);
    // rules with other names
    for st in 1..STYLES {
        styled(st, || {
            let mut s = core.clone();
            s.un = vec![Un::Opt];
            s.ter = vec![];
            each(w, &Fam::one("one rule, other names", s.clone(), tier.pick(4, 5)));
            s.leaves = vec![a(), Ex::R(0), Ex::R(1), Ex::NullH];
            s.bin = vec![Bin::Cat, Bin::Alt, Bin::SufS];
            each(w, &Fam::two("two rules, other names", s, 3, tier.pick(3, 4)));
            let fam = Fam { name: "three rules, other names", space: three.clone(), rules: 3, size: tier.pick(vec![2, 2, 2], vec![3, 2, 2]) };
            each(w, &fam);
        });
    }
    // chains of rules, cyclic and not, with a nullable or consuming prefix at each link
    for n in [4usize, 5, 7, 9, 16, 17, 33, 65, 130, 257, 520] {
        for null_at in 0..=n {
            if n > 65 && ![0, 1, n / 2, n - 1, n].contains(&null_at) {
                continue;
            }
            for close in [None, Some(0usize), Some(n / 2), Some(n - 1)] {
                for form in 0..4 {
                    if !w.next() {
                        continue;
                    }
                    let mut rules = vec![];
                    for i in 0..n {
                        let next = if i + 1 < n {
                            Ex::R(i + 1)
                        } else {
                            match close {
                                Some(k) => Ex::R(k),
                                None => b(),
                            }
                        };
                        let pre = if i == null_at { a() } else { Ex::Opt(bx(a())) };
                        rules.push(match form {
                            0 => cat(&[pre, next]),
                            1 => alt(&[cat(&[a(), next.clone()]), cat(&[pre, next])]),
                            2 => cat(&[Ex::Look(bx(b()), false), pre, Ex::Opt(bx(next))]),
                            _ => alt(&[b(), cat(&[Ex::Opt(bx(Ex::List(bx(pre)))), Ex::Node(bx(next))])]),
                        });
                    }
                    let g = Gram::system(&rules, 0);
                    both(w, &g);
                    let g = Gram::system(&rules, n / 2);
                    both(w, &g);
                }
            }
        }
    }
    // every rule refers to the next one twice: what is asked again each time is asked 2^n times
    diamonds(w, true, &mut |w, rules| {
        both(w, &Gram::system(rules, 0));
        both(w, &Gram::system(rules, rules.len() / 2));
    });
}
