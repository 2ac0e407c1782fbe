//! C09: suffix productions.
use super::c08::wrap_root;
use super::common::*;
use super::suite::*;
use crate::engine::*;
use crate::gram::*;
use crate::real::*;

pub const PROP: Prop = Prop {
    id: "C09",
    run,
    space: "every grammar expression containing a suffix production up to size 5 over all symbols and up to size 6 (thorough 7) \
over {two/three terminals, null, sequence, optional, look-ahead, list, suffixes with one or two tails, standalone or not}, \
recursive and two-rule systems, wide suffix productions with up to 14 tails; over every text / token sequence up to length 5 \
and inside raw regions; outcome, consumption and tree compared with the reference; the shared families of DESIGN.md (subjects in 29 contexts, special characters, equal node values, failing validations, inputs of 65 540 items, nesting to 2600, wide and deep rules, chains of rules each referring to the next twice)",
    assumptions: &["see C06 for skipped validations in token parsing"],
};

fn run(w: &mut W, tier: Tier) {
    let keep = |r: &[Ex]| any(r, &is_suf);
    let t = Opts::text();
    let k = Opts::token();
    let sp = Space {
        leaves: vec![a(), b(), Ex::Null],
        un: vec![Un::Opt, Un::LookV, Un::List, Un::OptH],
        bin: vec![Bin::Cat, Bin::Suf, Bin::SufS],
        ter: vec![Ter::Suf, Ter::SufS],
    };
    let n = tier.pick(6, 7);
    run_fam(w, &Fam::one("suffix core, text", sp.clone(), n), &keep, &texts(&[b"a", b"b"], 4), &mut |w, g, i| {
        run_case(w, g, &t, i, MATCH);
    });
    run_fam(w, &Fam::one("suffix core, tokens", sp, n - 1), &keep, &streams(&[0, 1, -1], 5), &mut |w, g, i| {
        run_case(w, g, &k, i, MATCH);
    });
    let sp = Space {
        leaves: vec![a(), b(), c(), Ex::Eof(true), set(&[(1, true), (2, false)])],
        un: vec![Un::Opt],
        bin: vec![Bin::Cat, Bin::Alt, Bin::SufS],
        ter: vec![Ter::Suf, Ter::SufS],
    };
    run_fam(w, &Fam::one("three kinds, tokens", sp, tier.pick(5, 6)), &keep, &streams(&[0, 1, 2], 4), &mut |w, g, i| {
        run_case(w, g, &k, i, MATCH);
    });
    let sp = Space {
        leaves: vec![Ex::W(0, true), Ex::W(1, false), a(), Ex::Null],
        un: vec![Un::List, Un::Opt],
        bin: vec![Bin::Cat, Bin::Suf, Bin::SufS],
        ter: vec![Ter::Suf, Ter::SufS],
    };
    run_fam(w, &Fam::one("suffixes in raw region", sp, tier.pick(4, 5)), &keep, &streams(&[0, -1, -2], 5), &mut |w, g, i| {
        for fill in [true, false] {
            let e = wrap_root(g, fill);
            run_case(w, &e, &k, i, MATCH);
        }
    });
    let s = match tier {
        Tier::Quick => Size { one: 5, rec: 5, two: (3, 3), mixed: 4, len: 4, pumps: true, dia: true, ctx: 4 },
        Tier::Thorough => Size { one: 5, rec: 6, two: (4, 3), mixed: 5, len: 5, pumps: true, dia: true, ctx: 5 },
    };
    text_suite(w, s, &keep, &mut |w, g, i| {
        run_case(w, g, &t, i, MATCH);
    });
    let s = Size { rec: 5, len: 4, ..s };
    token_suite(w, s, &keep, &mut |w, g, i| {
        if !skippable(g) {
            run_case(w, g, &k, i, MATCH);
        }
    });
}
