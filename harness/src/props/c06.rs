//! C06: parsing structural tokens equals ordered-choice semantics.
use super::common::*;
use super::suite::*;
use crate::engine::*;
use crate::real::*;

pub const PROP: Prop = Prop {
    id: "C06",
    run,
    space: "every grammar expression up to size 5 (thorough 6), every single-rule recursive system up to size 5 (6), every \
two-rule system up to sizes 3+3 (4+3), each over every token sequence of length <= 4 (5) over two structural kinds and one \
ignorable kind; sets, empty rules and a third kind at size 4 (5); pumped and wide families; outcome, number of structural \
tokens consumed and complete tree with token bounds compared with the reference interpreter; the shared families of DESIGN.md (subjects in 29 contexts, special characters, equal node values, failing validations, inputs of 65 540 items, nesting to 2600, wide and deep rules, 110 token kinds, chains of rules each referring to the next twice)",
    assumptions: &[
        "grammars in which a validation error may come from a symbol that consumed nothing, next to an alternative selection, are set aside (the property allows skipping it)",
        "the end-of-file token is matched only by the end-of-file symbol",
    ],
};

fn run(w: &mut W, tier: Tier) {
    let o = Opts::token();
    let s = match tier {
        Tier::Quick => Size { one: 5, rec: 5, two: (3, 3), mixed: 4, len: 4, pumps: true, dia: true, ctx: 5 },
        Tier::Thorough => Size { one: 6, rec: 6, two: (4, 3), mixed: 5, len: 4, pumps: true, dia: true, ctx: 5 },
    };
    token_suite(w, s, &|_| true, &mut |w, g, i| {
        if skippable(g) {
            w.count("grammars set aside: skippable validation", 1);
            return;
        }
        run_case(w, g, &o, i, MATCH);
    });
}
