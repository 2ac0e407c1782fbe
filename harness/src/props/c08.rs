//! C08: lists and separated lists.
use super::common::*;
use super::suite::*;
use crate::engine::*;
use crate::gram::*;
use crate::real::*;

pub const PROP: Prop = Prop {
    id: "C08",
    run,
    space: "every grammar expression containing a list or separated list up to size 5 over all symbols and up to size 6 \
(thorough 7) over {two terminals, null, sequence, choice, optional, node, list, both separated lists}, single-rule and two-rule \
recursive systems, over every text / token sequence of length <= 6 (5 in the wide space) and pumped inputs of up to 300 \
repetitions, in text and token parsing and inside raw regions; outcome, consumption and tree compared with the reference; the shared families of DESIGN.md (subjects in 29 contexts, special characters, equal node values, failing validations, inputs of 65 540 items, nesting to 2600, wide and deep rules, chains of rules each referring to the next twice)",
    assumptions: &["a repetition that matches nothing contributes its nodes once and ends the list"],
};

fn run(w: &mut W, tier: Tier) {
    let keep = |r: &[Ex]| any(r, &is_list);
    let t = Opts::text();
    let k = Opts::token();
    let sp = Space {
        leaves: vec![a(), b(), Ex::Null],
        un: vec![Un::List, Un::Opt, Un::Node],
        bin: vec![Bin::Cat, Bin::Alt, Bin::SepI, Bin::SepN],
        ter: vec![],
    };
    let n = tier.pick(6, 7);
    run_fam(w, &Fam::one("list core, text", sp.clone(), n), &keep, &texts(&[b"a", b"b"], tier.pick(5, 6)), &mut |w, g, i| {
        run_case(w, g, &t, i, MATCH);
    });
    run_fam(w, &Fam::one("list core, tokens", sp, n - 1), &keep, &streams(&[0, 1, -1], 5), &mut |w, g, i| {
        run_case(w, g, &k, i, MATCH);
    });
    // lists inside raw regions
    let sp = Space {
        leaves: vec![Ex::W(0, true), Ex::W(1, false), a(), Ex::Null],
        un: vec![Un::List, Un::Opt],
        bin: vec![Bin::Cat, Bin::Alt, Bin::SepI, Bin::SepN],
        ter: vec![],
    };
    run_fam(w, &Fam::one("list in raw region", sp, tier.pick(4, 5)), &keep, &streams(&[0, -1, -2], 5), &mut |w, g, i| {
        for fill in [true, false] {
            let e = wrap_root(g, fill);
            run_case(w, &e, &k, i, MATCH);
        }
    });
    let s = match tier {
        Tier::Quick => Size { one: 5, rec: 4, two: (3, 3), mixed: 4, len: 4, pumps: true, dia: true, ctx: 4 },
        Tier::Thorough => Size { one: 5, rec: 5, two: (4, 3), mixed: 4, len: 5, pumps: true, dia: true, ctx: 5 },
    };
    text_suite(w, s, &keep, &mut |w, g, i| {
        run_case(w, g, &t, i, MATCH);
    });
    let s = Size { one: tier.pick(4, 5), len: 4, ..s };
    token_suite(w, s, &keep, &mut |w, g, i| {
        if !skippable(g) {
            run_case(w, g, &k, i, MATCH);
        }
    });
}

/// the grammar inside a raw region that precedes one structural token
pub fn wrap_root(g: &Gram, fill: bool) -> Gram {
    let mut h = g.clone();
    let ns = h.ops.len();
    h.ops.push(Op::Ns(g.root, fill));
    h.ops.push(Op::T(0, true));
    h.ops.push(Op::Cat(vec![ns, ns + 1]));
    h.ops.push(Op::Cat(vec![ns + 1, ns]));
    h.ops.push(Op::Alt(vec![ns + 3, ns + 2]));
    h.root = ns + 4;
    h.text = format!("let X = {}; Union[Concat[a, NonStructural{}(X)], Concat[NonStructural{}(X), a]]", g.text, if fill { "!" } else { "" }, if fill { "!" } else { "" });
    h
}
