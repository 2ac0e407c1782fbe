//! C05: parsing text without a tokenizer equals ordered-choice semantics.
use super::common::*;
use super::suite::*;
use crate::engine::*;
use crate::real::*;

pub const PROP: Prop = Prop {
    id: "C05",
    run,
    space: "every grammar expression over {literals, regular expressions, literal sets, null, end of file, sequence, \
choice, suffixes, list, separated list, optional, hidden, node, look-ahead, validation, memoization} up to size 5 (thorough 6), \
every single-rule recursive system up to size 5 (6), every two-rule system up to sizes 3+3 (4+3), each over every text of \
length <= 4 (5) over {a,b}; a small space over all pumped texts u v^k w; wide rules with up to 14 members; outcome, \
consumed length and complete tree compared with the reference interpreter; the shared families of DESIGN.md (subjects in 29 contexts, special characters, equal node values, failing validations, inputs of 65 540 items, nesting to 2600, wide and deep rules, chains of rules each referring to the next twice)",
    assumptions: &["literals and patterns are anchored and never match the empty text unless they say so", "rule names are unique"],
};

fn run(w: &mut W, tier: Tier) {
    let o = Opts::text();
    let s = match tier {
        Tier::Quick => Size { one: 5, rec: 5, two: (3, 3), mixed: 4, len: 4, pumps: true, dia: true, ctx: 5 },
        Tier::Thorough => Size { one: 6, rec: 6, two: (4, 3), mixed: 5, len: 5, pumps: true, dia: true, ctx: 5 },
    };
    text_suite(w, s, &|_| true, &mut |w, g, i| {
        run_case(w, g, &o, i, MATCH);
    });
    // sets as the other kind of lexerless set
    let o2 = Opts { const_set: true, ..o };
    let s2 = Size { one: 1, rec: 1, two: (1, 1), mixed: 3, len: 4, pumps: false, dia: false, ctx: 0 };
    text_suite(w, s2, &|r| any(r, &|e| matches!(e, crate::gram::Ex::Set(_))), &mut |w, g, i| {
        run_case(w, g, &o2, i, MATCH);
    });
}
