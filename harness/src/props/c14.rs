//! C14: memoization is transparent and evaluates once; the cache is a map with a mark.
use super::common::*;
use super::suite::*;
use crate::engine::*;
use crate::gram::*;
use crate::real::*;
use crate::refm::*;
use lang_pt::{ASTNode, Cache, CacheKey, ProductionError, SuccessData};
use std::collections::HashMap;

pub const PROP: Prop = Prop {
    id: "C14",
    run,
    space: "every grammar expression containing a memoized symbol up to size 5 (thorough 6), every single-rule recursive and \
two-rule system (shared memoized rules, memoized rules inside repetition, look-ahead, failing validations) over every text and \
token sequence of length <= 4; outcome, tree, consumption and error position compared with the memo-free reference; every \
evaluation of a memoized symbol counted per position; every sequence of up to 4 (5) cache operations over two keys and three \
positions compared with a map-and-mark model; the shared families of DESIGN.md (subjects in 29 contexts, special characters, equal node values, failing validations, inputs of 65 540 items, nesting to 2600, wide and deep rules), memoized rules met at every place of a list and nested in every pair of wrappers",
    assumptions: &["memo keys are unique per symbol", "memoization inside raw regions is refused by the library"],
};
const ASP: Asp = Asp { tree: true, consumed: true, ptr: true, msg: false, val: true, vlog: false };

/// children of memo symbols that are used nowhere else
fn private(g: &Gram) -> Vec<Id> {
    let mut uses = vec![0; g.ops.len()];
    for i in 0..g.ops.len() {
        for c in g.children(i) {
            uses[c] += 1;
        }
    }
    uses[g.root] += 1;
    g.ops.iter().filter_map(|o| if let Op::Memo(x) = o { Some(*x) } else { None }).filter(|x| uses[*x] == 1).collect()
}

fn go(w: &mut W, g: &Gram, o: &Opts, ins: &[Input]) {
    if !o.text && skippable(g) {
        return;
    }
    if !run_case(w, g, o, ins, ASP) {
        return;
    }
    let once = private(g);
    if once.is_empty() {
        return;
    }
    let (_b, p) = match make(g, o) {
        Made::Ready(b, p) => (b, p),
        _ => return,
    };
    COUNTING.with(|c| c.set(true));
    for inp in ins {
        EVALS.with(|e| {
            let mut e = e.borrow_mut();
            e.clear();
            e.shrink_to(4096);
        });
        let _ = parse(&p, inp);
        w.traces += 1;
        let worst = EVALS.with(|e| {
            e.borrow().iter().filter(|((id, m, _), n)| once.contains(id) && *m < 2 && **n > 1).map(|(k, n)| (*k, *n)).next()
        });
        w.count("parses with evaluations counted", 1);
        if let Some(((id, _, pos), n)) = worst {
            w.viol(
                "evaluated-again",
                format!("grammar {}\ninput {}\nsymbol {} under memoization is evaluated {} times at position {}", g.text, show_input(inp), id, n, pos),
            );
            break;
        }
    }
    COUNTING.with(|c| c.set(false));
}

fn run(w: &mut W, tier: Tier) {
    let t = Opts::text();
    let k = Opts::token();
    let keep = |r: &[Ex]| any(r, &is_memo);
    let s = match tier {
        Tier::Quick => Size { one: 4, rec: 5, two: (3, 3), mixed: 4, len: 4, pumps: true, dia: true, ctx: 4 },
        Tier::Thorough => Size { one: 5, rec: 6, two: (4, 3), mixed: 5, len: 4, pumps: true, dia: true, ctx: 5 },
    };
    text_suite(w, s, &keep, &mut |w, g, i| go(w, g, &t, i));
    token_suite(w, s, &keep, &mut |w, g, i| go(w, g, &k, i));
    let un = vec![Un::Memo, Un::List, Un::Opt, Un::LookV, Un::Node, Un::Val(Vp::FailIfB), Un::Val(Vp::Decline)];
    let sp = Space { leaves: vec![a(), b()], un: un.clone(), bin: all_bin(), ter: vec![Ter::Alt] };
    let ti = texts(&[b"a", b"b"], 4);
    let ki = streams(&[0, 1, -1], 4);
    let n = tier.pick(5, 6);
    run_fam(w, &Fam::one("memo core, text", sp.clone(), n), &keep, &ti, &mut |w, g, i| go(w, g, &t, i));
    run_fam(w, &Fam::one("memo core, tokens", sp, n), &keep, &ki, &mut |w, g, i| go(w, g, &k, i));
    // a memoized second rule used in several places
    let r0 = Space { leaves: vec![a(), b(), Ex::R(1)], un: vec![Un::Opt, Un::LookV, Un::List], bin: vec![Bin::Cat, Bin::Alt, Bin::SufS, Bin::SepI], ter: vec![Ter::Alt, Ter::Cat] };
    let r1 = Space { leaves: vec![a(), b(), Ex::R(0)], un: vec![Un::Node, Un::List, Un::Val(Vp::FailIfB)], bin: vec![Bin::Cat, Bin::Alt], ter: vec![] };
    let t0 = r0.tables(tier.pick(5, 6));
    let t1 = r1.tables(3);
    for x in t0.iter().flatten().filter(|e| uses_rule(e, 1)) {
        for y in t1.iter().flatten() {
            if w.next() {
                usable(w, vec![x.clone(), Ex::Memo(bx(y.clone()))], &mut |w, g| {
                    go(w, g, &t, &ti);
                    go(w, g, &k, &ki[..40]);
                });
            }
        }
        if w.stop() {
            return;
        }
    }
    nested(w, &keep, &mut |w, g, i| go(w, g, &t, i), &|v| Input::text(&v.iter().flat_map(|c| lit(*c as u8).bytes()).collect::<Vec<u8>>()), false);
    nested(w, &keep, &mut |w, g, i| go(w, g, &k, i), &|v| tokens(v), false);
    cache_model(w, tier.pick(4, 5));
}

#[derive(Clone, Copy, Debug)]
enum Act {
    Insert(usize, usize, u8),
    Update(usize),
}

fn cache_model(w: &mut W, depth: usize) {
    let pos = [0usize, 1, 7];
    let mut acts = vec![];
    for k in 0..2 {
        for p in pos {
            for r in 0..2 {
                acts.push(Act::Insert(k, p, r));
            }
        }
    }
    for p in pos {
        acts.push(Act::Update(p));
    }
    let val = |r: u8, k: usize, p: usize| -> Result<SuccessData<usize, u16>, ProductionError> {
        match r {
            0 => Ok(SuccessData::tree(p + 1, ASTNode::leaf((k * 10 + p) as u16, p, p + 1, None))),
            _ => Err(ProductionError::Validation(p, format!("{}", k))),
        }
    };
    let seqs = strings(acts.len() as u8, depth);
    for s in &seqs {
        if !w.next() {
            continue;
        }
        let r = guarded(|| -> Result<u64, String> {
            let mut c: Cache<usize, u16> = Cache::root();
            let mut m: HashMap<(usize, usize), u8> = HashMap::new();
            let mut mark = 0usize;
            let mut n = 0;
            for x in s {
                match acts[*x as usize] {
                    Act::Insert(k, p, r) => {
                        let old = c.insert(CacheKey::verif_new(k), p, val(r, k, p));
                        let exp = m.insert((k, p), r).map(|r| val(r, k, p));
                        if format!("{:?}", old.map(show)) != format!("{:?}", exp.map(show)) {
                            return Err("insert returns the wrong previous result".into());
                        }
                        mark = mark.max(p);
                    }
                    Act::Update(p) => {
                        c.update_index(p);
                        mark = mark.max(p);
                    }
                }
                n += 1;
                if c.get_index() != mark {
                    return Err(format!("furthest position {} instead of {}", c.get_index(), mark));
                }
                for k in 0..3 {
                    for p in [0usize, 1, 2, 7, 8] {
                        let e = m.get(&(k, p)).map(|r| val(*r, k, p));
                        let key = CacheKey::verif_new(k);
                        if c.contains(key, p) != e.is_some() {
                            return Err(format!("contains({}, {})", k, p));
                        }
                        let f = c.find(key, p).cloned();
                        if format!("{:?}", f.map(show)) != format!("{:?}", e.map(show)) {
                            return Err(format!("find({}, {})", k, p));
                        }
                    }
                }
            }
            Ok(n)
        });
        w.states += 1;
        w.traces += 1;
        match r {
            Ok(Ok(n)) => w.transitions += n,
            Ok(Err(m)) | Err(m) => {
                let v: Vec<Act> = s.iter().map(|x| acts[*x as usize]).collect();
                w.viol("cache", format!("operations {:?}: {}", v, m));
            }
        }
    }
    fn show(r: Result<SuccessData<usize, u16>, ProductionError>) -> String {
        match r {
            Ok(d) => format!("{} {:?}", d.consumed_index, to_rnodes(&d.children)),
            Err(ProductionError::Unparsed) => "unparsed".into(),
            Err(ProductionError::Validation(p, m)) => format!("{} {}", p, m),
        }
    }
}
