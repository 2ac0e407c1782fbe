//! C07: raw-token regions.
use super::common::*;
use super::suite::*;
use crate::engine::*;
use crate::gram::*;
use crate::real::*;

pub const PROP: Prop = Prop {
    id: "C07",
    run,
    space: "every grammar expression containing a raw-token region, over {two structural kinds, one or two ignorable kinds, null, \
end of file} and {non-structural (filled / unfilled), structural, list, separated list, optional, node, hidden, look-ahead, \
validation, memoization, sequence, choice, suffixes} up to size 5 (thorough 6), plus recursive systems, each over every token \
sequence of length <= 4 (5) with ignorable tokens in every place; outcome, consumption and tree compared with the reference; large, deep and nested rules of the shared families read raw, with ignorable tokens around them",
    assumptions: &[
        "grammars that re-enter themselves through a raw region without consuming a structural token have no finite reading and are set aside (see C16's recorded finding)",
        "the end-of-file token is structural",
    ],
};

fn space(leaves: Vec<Ex>) -> Space {
    Space {
        leaves,
        un: vec![
            Un::Ns(true),
            Un::Ns(false),
            Un::St,
            Un::List,
            Un::Opt,
            Un::Node,
            Un::Hide,
            Un::LookV,
            Un::Memo,
            Un::Val(Vp::DeclineEven),
        ],
        bin: all_bin(),
        ter: all_ter(),
    }
}

fn run(w: &mut W, tier: Tier) {
    let o = Opts::token();
    let (n, len) = tier.pick((5, 4), (6, 4));
    let w0 = Ex::W(0, true);
    let keep = |r: &[Ex]| any(r, &is_raw);
    let mut go = |w: &mut W, g: &Gram, i: &[crate::refm::Input]| {
        if skippable(g) {
            return;
        }
        run_case(w, g, &o, i, MATCH);
    };
    let ins = streams(&[0, 1, -1], len);
    let sp = space(vec![a(), b(), w0.clone(), Ex::Null]);
    run_fam(w, &Fam::one("one rule", sp, n), &keep, &ins, &mut go);
    let ins = streams(&[0, -1, -2], len + 1);
    let sp = space(vec![a(), w0.clone(), Ex::W(1, false), Ex::Eof(true)]);
    run_fam(w, &Fam::one("two ignorable kinds", sp, n - 1), &keep, &ins, &mut go);
    let sp = space(vec![a(), w0.clone(), Ex::R(0)]);
    run_fam(w, &Fam::one("recursive rule", sp, n), &keep, &ins, &mut go);
    let sp = Space {
        leaves: vec![a(), w0.clone(), Ex::R(0), Ex::R(1)],
        un: vec![Un::Ns(true), Un::Ns(false), Un::St, Un::Opt, Un::List],
        bin: vec![Bin::Cat, Bin::Alt, Bin::SufS],
        ter: vec![Ter::Cat],
    };
    run_fam(w, &Fam::two("two rules", sp, tier.pick(3, 4), 3), &keep, &ins, &mut go);
    let sp = space(vec![a(), w0.clone(), set(&[(0, true), (1, false)]), set(&[(1, true), (0, false)]), Ex::T(1, false), Ex::NullH]);
    run_fam(w, &Fam::one("sets, hidden symbols", sp, n - 1), &keep, &streams(&[0, 1, -1], 4), &mut go);
    // longer stretches of ignorable tokens and several regions in a row
    let mut ins = vec![];
    for k in 0..=12 {
        for j in 0..=3 {
            let mut v = vec![-1i8; k];
            v.push(0);
            v.extend(vec![-2; j]);
            v.push(1);
            ins.push(tokens(&v));
            v.push(-1);
            ins.push(tokens(&v));
            v.push(0);
            ins.push(tokens(&v));
            let mut u = vec![0];
            u.extend(vec![-1; k]);
            u.extend(vec![-2; j]);
            u.extend([1, -1, 0, 0, -1, -1, 1]);
            ins.push(tokens(&u));
        }
    }
    let sp = Space {
        leaves: vec![
            a(),
            b(),
            Ex::Ns(bx(Ex::W(0, true)), true),
            Ex::Ns(bx(Ex::List(bx(w0.clone()))), true),
            Ex::Ns(bx(Ex::List(bx(alt(&[w0.clone(), Ex::W(1, true)])))), false),
            Ex::Ns(bx(cat(&[Ex::Opt(bx(w0.clone())), Ex::St(bx(a()))])), false),
        ],
        un: vec![Un::List, Un::Opt, Un::Node],
        bin: vec![Bin::Cat, Bin::Alt, Bin::SepI, Bin::SepN, Bin::SufS],
        ter: vec![Ter::Cat],
    };
    run_fam(w, &Fam::one("long regions", sp, tier.pick(4, 5)), &keep, &ins, &mut go);
    // large and deep rules read raw
    let all = |_: &[Ex]| true;
    for fill in [true, false] {
        let mut raw = |w: &mut W, g: &Gram, i: &[crate::refm::Input]| {
            let h = super::c08::wrap_root(g, fill);
            if !skippable(&h) {
                run_case(w, &h, &o, i, MATCH);
            }
        };
        wide(w, &all, &mut raw, &|v| tokens(&[v, &[0]].concat()));
        wide(w, &all, &mut raw, &|v| tokens(&[&[-1, 0][..], v, &[-1]].concat()));
        nested(w, &all, &mut raw, &|v| tokens(&[v, &[0]].concat()), true);
        shapes(w, &all, &mut raw, &|v| tokens(&[&[0][..], v, &[-2]].concat()));
    }
}
