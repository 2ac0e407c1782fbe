//! The grammar and input spaces shared by the parsing properties.
use super::common::*;
use crate::engine::*;
use crate::gram::*;
use crate::refm::*;

pub fn a() -> Ex {
    Ex::T(0, true)
}
pub fn b() -> Ex {
    Ex::T(1, true)
}
pub fn c() -> Ex {
    Ex::T(2, true)
}
pub fn bx(e: Ex) -> Box<Ex> {
    Box::new(e)
}
pub fn cat(v: &[Ex]) -> Ex {
    Ex::Cat(v.to_vec())
}
pub fn alt(v: &[Ex]) -> Ex {
    Ex::Alt(v.to_vec())
}

/// does any sub-expression satisfy `p`?
pub fn has(e: &Ex, p: &dyn Fn(&Ex) -> bool) -> bool {
    p(e) || kids(e).iter().any(|x| has(x, p))
}
pub fn kids(e: &Ex) -> Vec<&Ex> {
    match e {
        Ex::Cat(v) | Ex::Alt(v) => v.iter().collect(),
        Ex::Suf(l, _, v) => std::iter::once(&**l).chain(v.iter()).collect(),
        Ex::Sep(a, b, _) => vec![a, b],
        Ex::List(x) | Ex::Opt(x) | Ex::OptH(x) | Ex::Node(x) | Ex::Hide(x) | Ex::Look(x, _) | Ex::Val(x, _)
        | Ex::Ns(x, _) | Ex::St(x) | Ex::Memo(x) => vec![x],
        _ => vec![],
    }
}
pub fn any(r: &[Ex], p: &dyn Fn(&Ex) -> bool) -> bool {
    r.iter().any(|e| has(e, p))
}
pub fn is_list(e: &Ex) -> bool {
    matches!(e, Ex::List(_) | Ex::Sep(..))
}
pub fn is_suf(e: &Ex) -> bool {
    matches!(e, Ex::Suf(..))
}
pub fn is_val(e: &Ex) -> bool {
    matches!(e, Ex::Val(..))
}
pub fn is_memo(e: &Ex) -> bool {
    matches!(e, Ex::Memo(_))
}
pub fn is_raw(e: &Ex) -> bool {
    matches!(e, Ex::Ns(..))
}

/// Token parsing may skip an alternative that cannot start with the next structural token, and
/// with it a validation that fails on nothing at all (or inside a raw-token region of that
/// alternative). Grammars where that could show are set aside.
pub fn skippable(g: &Gram) -> bool {
    skippable_from(g, &[g.root])
}
/// the same for parses that start at any of `roots`
pub fn skippable_from(g: &Gram, roots: &[Id]) -> bool {
    if !g.ops.iter().any(|o| matches!(o, Op::Val(_, Vp::Fail) | Op::Val(_, Vp::FailIfB))) {
        return false;
    }
    let z = g.zero_width();
    // (symbol, raw mode?, below a selection among structural tokens?, inside a raw region of it?)
    let n = g.ops.len();
    let mut seen = vec![false; n * 8];
    let mut st: Vec<(Id, bool, bool, bool)> = roots.iter().map(|r| (*r, false, false, false)).collect();
    while let Some((i, raw, sel, inr)) = st.pop() {
        let k = i * 8 + raw as usize * 4 + sel as usize * 2 + inr as usize;
        if std::mem::replace(&mut seen[k], true) {
            continue;
        }
        let (mut r, mut s, mut t) = (raw, sel, inr);
        match &g.ops[i] {
            Op::Val(x, Vp::Fail) | Op::Val(x, Vp::FailIfB) if sel && (z[*x] || inr) => return true,
            Op::Ns(..) => {
                r = true;
                t = sel;
            }
            Op::St(_) => r = false,
            Op::Alt(_) | Op::Suf(..) if !raw => s = true,
            _ => {}
        }
        st.extend(g.children(i).into_iter().map(|x| (x, r, s, t)));
    }
    false
}

pub type Keep<'k> = &'k dyn Fn(&[Ex]) -> bool;
pub type Visit<'k> = &'k mut dyn FnMut(&mut W, &Gram, &[Input]);

pub fn all_un() -> Vec<Un> {
    vec![Un::List, Un::Opt, Un::OptH, Un::Node, Un::Hide, Un::LookV, Un::Val(Vp::DeclineEven), Un::Memo]
}
pub fn all_bin() -> Vec<Bin> {
    vec![Bin::Cat, Bin::Alt, Bin::SepI, Bin::SepN, Bin::Suf, Bin::SufS]
}
pub fn all_ter() -> Vec<Ter> {
    vec![Ter::Cat, Ter::Alt, Ter::Suf, Ter::SufS]
}
pub fn full(leaves: Vec<Ex>) -> Space {
    Space { leaves, un: all_un(), bin: all_bin(), ter: all_ter() }
}
/// leaves of the main single-rule spaces
pub fn basic_leaves() -> Vec<Ex> {
    vec![a(), b(), Ex::T(1, false), Ex::Null, Ex::NullH, Ex::Eof(true)]
}
pub fn set(v: &[(u8, bool)]) -> Ex {
    Ex::Set(v.to_vec())
}

/// Sizes of the spaces of one run.
#[derive(Clone, Copy)]
pub struct Size {
    /// single-rule expressions over every symbol
    pub one: usize,
    /// single-rule recursive systems
    pub rec: usize,
    /// two rules
    pub two: (usize, usize),
    /// terminals beyond literals
    pub mixed: usize,
    /// input length
    pub len: usize,
    pub pumps: bool,
    /// chains of rules that refer to the next one twice (only where the reference bounds the work)
    pub dia: bool,
    /// subjects placed in every context (0: none)
    pub ctx: usize,
}

/// Contexts a subject is placed in: small rules whose reading depends on how the subject
/// matches, what it consumes and what it leaves behind. `c` does not occur in the subjects.
pub fn contexts() -> Vec<fn(&Ex) -> Ex> {
    fn s2(x: Ex, y: Ex) -> Ex {
        Ex::Suf(bx(x), true, vec![y])
    }
    fn s1(x: Ex, y: Ex) -> Ex {
        Ex::Suf(bx(x), false, vec![y])
    }
    vec![
        |s| cat(&[s.clone(), c()]),
        |s| cat(&[c(), s.clone(), c()]),
        |s| alt(&[c(), cat(&[s.clone(), c()])]),
        |s| alt(&[cat(&[s.clone(), c()]), c()]),
        |s| alt(&[cat(&[s.clone(), c()]), cat(&[a(), b()]), s.clone()]),
        |s| alt(&[cat(&[a(), c()]), s.clone(), cat(&[b(), c()])]),
        |s| s1(c(), s.clone()),
        |s| s2(c(), cat(&[s.clone(), c()])),
        |s| Ex::Suf(bx(c()), true, vec![cat(&[s.clone(), c()]), cat(&[a(), b()]), c()]),
        |s| s1(s.clone(), c()),
        |s| s2(cat(&[s.clone(), c()]), c()),
        |s| Ex::Suf(bx(s.clone()), true, vec![cat(&[a(), c()]), c()]),
        |s| s1(cat(&[c(), s.clone()]), cat(&[s.clone(), c()])),
        |s| Ex::List(bx(cat(&[c(), s.clone()]))),
        |s| Ex::List(bx(alt(&[cat(&[s.clone(), c()]), c()]))),
        |s| cat(&[Ex::List(bx(cat(&[s.clone(), c()]))), s.clone()]),
        |s| Ex::Sep(bx(s.clone()), bx(c()), true),
        |s| Ex::Sep(bx(s.clone()), bx(c()), false),
        |s| cat(&[Ex::Sep(bx(c()), bx(s.clone()), true), Ex::Opt(bx(s.clone()))]),
        |s| cat(&[Ex::Sep(bx(c()), bx(s.clone()), false), s.clone()]),
        |s| cat(&[Ex::Opt(bx(cat(&[s.clone(), c()]))), c(), Ex::Eof(true)]),
        |s| cat(&[Ex::OptH(bx(cat(&[c(), s.clone()]))), s.clone()]),
        |s| Ex::Node(bx(alt(&[cat(&[Ex::Node(bx(s.clone())), c()]), s.clone()]))),
        |s| alt(&[cat(&[Ex::Memo(bx(s.clone())), c()]), cat(&[Ex::Memo(bx(s.clone())), Ex::Eof(true)])]),
        |s| cat(&[Ex::Look(bx(cat(&[s.clone(), c()])), true), alt(&[a(), b(), c()])]),
        |s| Ex::Hide(bx(cat(&[s.clone(), Ex::Opt(bx(c()))]))),
        |s| alt(&[cat(&[c(), Ex::R(0)]), s.clone()]),
        |s| alt(&[cat(&[s.clone(), c(), Ex::R(0)]), c()]),
        |s| s2(c(), cat(&[s.clone(), Ex::R(0)])),
    ]
}
/// every subject up to size `n` in every context
pub fn ctx_fam(w: &mut W, sp: Space, n: usize, keep: Keep, inputs: &[Input], f: Visit) {
    let t = sp.tables(n);
    let cs = contexts();
    let before = w.idx;
    for s in 1..=n {
        for e in &t[s] {
            for k in &cs {
                if w.next() {
                    let r = [k(e)];
                    if keep(&r) {
                        usable(w, r.to_vec(), &mut |w, g| f(w, g, inputs));
                    }
                }
            }
            if w.stop() {
                return;
            }
        }
    }
    if w.tid == 0 {
        let k = w.idx - before;
        w.count("grammars enumerated: subjects in contexts", k);
    }
}
pub fn ctx_space() -> Space {
    let mut sp = full(vec![a(), b(), Ex::Null]);
    sp.un.retain(|u| !matches!(u, Un::Hide | Un::Val(_)));
    sp.ter = vec![Ter::Alt, Ter::SufS];
    sp
}

pub fn run_fam(w: &mut W, fam: &Fam, keep: Keep, inputs: &[Input], f: Visit) {
    fam.each(w, &mut |w, r| {
        if keep(&r) {
            usable(w, r, &mut |w, g| f(w, g, inputs));
        }
    });
}

/// every shape of grammar, in text form
pub fn text_suite(w: &mut W, s: Size, keep: Keep, f: Visit) {
    let inputs = texts(&[b"a", b"b"], s.len);
    run_fam(w, &Fam::one("one rule", full(basic_leaves()), s.one), keep, &inputs, f);
    run_fam(w, &Fam::one("recursive rule", full(vec![a(), b(), Ex::R(0)]), s.rec), keep, &inputs, f);
    let sp = full(vec![a(), b(), Ex::R(0), Ex::R(1)]);
    run_fam(w, &Fam::two("two rules", sp, s.two.0, s.two.1), keep, &inputs, f);
    let sp = full(vec![
        a(),
        Ex::Re(0, true),
        Ex::Re(1, false),
        Ex::Re(2, true),
        Ex::Re(3, true),
        Ex::T(3, true),
        set(&[(0, true), (1, false)]),
        set(&[(0, false), (3, true), (1, true)]),
        Ex::Eof(false),
        Ex::Cat(vec![]),
        Ex::Alt(vec![]),
    ]);
    run_fam(w, &Fam::one("patterns, sets, empty rules", sp, s.mixed), keep, &inputs, f);
    let mut sp = full(vec![
        a(),
        set(&[(EMPTY, true), (0, true)]),
        set(&[(1, false), (EMPTY, false), (3, true)]),
        Ex::R(0),
    ]);
    run_fam(w, &Fam::one("sets with an empty literal", sp.clone(), s.mixed), keep, &inputs, f);
    sp.leaves.extend([set(&[(0, true), (1, true)]), Ex::Re(0, true), Ex::Re(2, false)]);
    run_fam(w, &Fam::one("recursive rule, other terminals", sp, s.mixed - 1), keep, &inputs, f);
    let odd = texts(&["\u{e9}".as_bytes(), "\u{e8}".as_bytes(), b"a", b"\xc3", "\u{65e5}".as_bytes(), b"\n"], 3);
    run_fam(w, &Fam::one("multi-byte and invalid text", full(odd_leaves()), s.mixed - 1), keep, &odd, f);
    run_fam(w, &Fam::one("special characters", full(special_leaves()), (s.mixed - 1).min(3)), keep, &texts(SPECIAL, 3), f);
    // switches between raw and structural tokens are without effect where there are no tokens
    let mut sp = full(vec![a(), b(), Ex::R(0)]);
    sp.un = vec![Un::Ns(true), Un::Ns(false), Un::St, Un::List, Un::Opt, Un::Node, Un::LookV, Un::Memo, Un::Val(Vp::FailIfB)];
    let raw = |r: &[Ex]| keep(r) && any(r, &|e| matches!(e, Ex::Ns(..) | Ex::St(_)));
    run_fam(w, &Fam::one("switches without a tokenizer", sp, s.mixed.min(4)), &raw, &inputs, f);
    if s.ctx > 0 {
        ctx_fam(w, ctx_space(), s.ctx, keep, &texts(&[b"a", b"b", b"c"], 4), f);
    }
    alike_suite(w, s, keep, &[a(), b(), Ex::T(1, false), Ex::Null, set(&[(0, true), (3, true), (1, true)])], &inputs, f);
    failing(w, s, keep, &inputs, &texts(&[b"a", b"b", b"c"], 4), f);
    if s.pumps {
        long_terms(w, keep, f);
        let mk = |v: &[i8]| Input::text(&v.iter().flat_map(|c| lit(*c as u8).bytes()).collect::<Vec<u8>>());
        if s.dia {
            diamond_inputs(w, keep, f, &mk);
        }
        shapes(w, keep, f, &|v| Input::text(&v.iter().flat_map(|c| lit(*c as u8).bytes()).collect::<Vec<u8>>()));
    }
}

pub fn odd_leaves() -> Vec<Ex> {
    vec![
        a(),
        Ex::T(5, true),
        Ex::T(7, false),
        Ex::Re(4, true),
        Ex::Re(5, true),
        set(&[(5, true), (7, false)]),
        set(&[(6, false), (0, true), (5, true)]),
        Ex::Eof(true),
    ]
}
/// byte order mark, NUL, blanks of several kinds, an upper-case twin
pub const SPECIAL: &[&[u8]] = &[b"a", b"A", b" ", b"\r", b"\n", b"\0", "\u{feff}".as_bytes(), "\u{2028}".as_bytes()];
pub fn special_leaves() -> Vec<Ex> {
    vec![
        a(),
        Ex::T(118, true),
        Ex::T(119, false),
        Ex::T(120, true),
        Ex::Re(4, true),
        set(&[(121, true), (122, true), (118, false)]),
        set(&[(124, true), (0, false), (123, true), (120, true)]),
        Ex::Eof(true),
    ]
}
/// terminals that match long stretches, and long texts for them
pub fn long_terms(w: &mut W, keep: Keep, f: Visit) {
    let mut ins = vec![];
    for k in LONG {
        for (v, t) in [(&b"a"[..], &b""[..]), (b"a", b"b"), (b"ab", b""), (b"ba", b"c")] {
            ins.push(Input::text(&[&v.repeat(*k)[..], t].concat()));
        }
        ins.push(Input::text(&[&b"b"[..], &b"a".repeat(*k)[..], b"b", &b"a".repeat(*k)[..]].concat()));
    }
    for k in [4097, 65_540] {
        ins.push(Input::text(&[&b"a".repeat(k)[..], b"b"].concat()));
        ins.push(Input::text(&[&b"b"[..], &b"a".repeat(k)[..]].concat()));
    }
    let sp = Space {
        leaves: vec![b(), Ex::Re(0, true), Ex::Re(1, false), Ex::Re(2, true), Ex::Re(3, true), set(&[(0, true), (3, true)]), Ex::Eof(true)],
        un: vec![Un::List, Un::Opt, Un::Node],
        bin: vec![Bin::Cat, Bin::Alt, Bin::SepI, Bin::SufS],
        ter: vec![],
    };
    run_fam(w, &Fam::one("long matches", sp, 3), keep, &ins, f);
}

pub fn token_leaves() -> Vec<Ex> {
    vec![a(), b(), Ex::T(1, false), Ex::Null, Ex::NullH, Ex::Eof(true)]
}
/// every shape of grammar over structural tokens
pub fn token_suite(w: &mut W, s: Size, keep: Keep, f: Visit) {
    let inputs = streams(&[0, 1, -1], s.len);
    run_fam(w, &Fam::one("one rule", full(token_leaves()), s.one), keep, &inputs, f);
    run_fam(w, &Fam::one("recursive rule", full(vec![a(), b(), Ex::R(0)]), s.rec), keep, &inputs, f);
    let sp = full(vec![a(), b(), Ex::R(0), Ex::R(1)]);
    run_fam(w, &Fam::two("two rules", sp, s.two.0, s.two.1), keep, &inputs, f);
    let inputs = streams(&[0, 1, 2, -2], s.len.min(4));
    let sp = full(vec![
        a(),
        c(),
        set(&[(0, true), (1, false)]),
        set(&[(2, false), (1, true), (0, true)]),
        Ex::Eof(false),
        Ex::Cat(vec![]),
        Ex::Alt(vec![]),
    ]);
    run_fam(w, &Fam::one("sets, empty rules, third kind", sp, s.mixed), keep, &inputs, f);
    if s.ctx > 0 {
        let mut ins = streams(&[0, 1, 2], 4);
        for k in strings(3, 3) {
            // two ignorable tokens in a row before every token and at the end
            let mut t = vec![];
            for c in k {
                t.extend([-1, -2, c as i8]);
            }
            t.extend([-2, -2]);
            ins.push(tokens(&t));
        }
        ctx_fam(w, ctx_space(), s.ctx, keep, &ins, f);
    }
    let inputs = streams(&[0, 1, -1], s.len.min(4));
    alike_suite(w, s, keep, &[a(), b(), Ex::T(1, false), Ex::Null, set(&[(0, true), (1, true)])], &inputs, f);
    let ins = streams(&[0, 1, 2], 4);
    failing(w, s, keep, &streams(&[0, 1, -1], 3), &ins, &mut |w, g, i| {
        if skippable(g) {
            w.count("grammars set aside: a validation that token parsing may skip", 1);
        } else {
            f(w, g, i);
        }
    });
    if s.pumps {
        many_kinds(w, keep, f);
        if s.dia {
            diamond_inputs(w, keep, f, &|v| tokens(v));
        }
        shapes(w, keep, f, &|v| {
            // an ignorable token after every third structural one
            let mut t = vec![];
            for (i, c) in v.iter().enumerate() {
                t.push(*c);
                if i % 3 == 2 {
                    t.push(if i % 2 == 0 { -1 } else { -2 });
                }
            }
            tokens(&t)
        });
    }
}

/// node values that tell nothing apart, so that only shape, order and bounds do
fn alike_suite(w: &mut W, s: Size, keep: Keep, leaves: &[Ex], inputs: &[Input], f: Visit) {
    if s.one < 3 || s.rec < 3 {
        return;
    }
    let sp = full(leaves.to_vec());
    let rec = full(vec![a(), b(), Ex::R(0)]);
    for m in [1, 2] {
        alike(m, || {
            run_fam(w, &Fam::one("equal node values", sp.clone(), (s.one - 1).min(5 - m as usize)), keep, inputs, f);
            run_fam(w, &Fam::one("equal node values, recursive", rec.clone(), (s.rec - 1).min(5 - m as usize)), keep, inputs, f);
            if s.ctx > 0 {
                ctx_fam(w, ctx_space(), 4 - m as usize, keep, inputs, f);
            }
        });
    }
}
/// validations that fail or decline
fn failing(w: &mut W, s: Size, keep: Keep, inputs: &[Input], abc: &[Input], f: Visit) {
    if s.one < 3 || s.rec < 3 {
        return;
    }
    let vs = [Un::Val(Vp::Fail), Un::Val(Vp::FailIfB), Un::Val(Vp::Decline)];
    let mut sp = full(vec![a(), b(), Ex::Null]);
    sp.un.retain(|u| !matches!(u, Un::Hide | Un::Val(_)));
    sp.un.extend(vs);
    let keep2 = |r: &[Ex]| keep(r) && any(r, &|e| matches!(e, Ex::Val(_, Vp::Fail | Vp::FailIfB | Vp::Decline)));
    run_fam(w, &Fam::one("failing validations", sp.clone(), (s.one - 1).min(4)), &keep2, inputs, f);
    sp.leaves = vec![a(), b(), Ex::R(0)];
    run_fam(w, &Fam::one("failing validations, recursive", sp.clone(), (s.rec - 1).min(4)), &keep2, inputs, f);
    if s.ctx > 0 {
        sp.leaves = vec![a(), b(), Ex::Null];
        sp.ter.clear();
        ctx_fam(w, sp, 3, &keep2, abc, f);
    }
}
/// selections among many token kinds, in no particular order
pub fn many_kinds(w: &mut W, keep: Keep, f: Visit) {
    for n in [5usize, 8, 9, 16, 17, 33, 65, 110] {
        for step in [1usize, 37] {
            let k: Vec<i8> = (0..n).map(|i| (4 + i * step % 113) as i8).collect();
            let t = |i: usize| Ex::T(k[i % n] as u8, i % 3 != 2);
            let mut ins = vec![tokens(&[]), tokens(&[1]), tokens(&[3, k[0]])];
            for i in 0..n {
                let (x, y, z) = (k[i], k[(i + 1) % n], k[(i + 2) % n]);
                for v in [&[x][..], &[x, y], &[x, x], &[0, x], &[0, x, y], &[-1, x, -2, -1, z], &[x, y, z, x]] {
                    ins.push(tokens(v));
                }
            }
            ins.push(tokens(&k));
            ins.push(tokens(&[&k[..], &k[..]].concat()));
            let plain: Vec<Ex> = (0..n).map(t).collect();
            let pairs: Vec<Ex> = (0..n).map(|i| cat(&[t(i), t(i + 1)])).collect();
            let open: Vec<Ex> = (0..n).map(|i| cat(&[Ex::Opt(bx(t(i))), t(i + 1)])).collect();
            let mut null = pairs.clone();
            null.insert(n / 2, Ex::Opt(bx(t(0))));
            let mut gs = vec![
                Ex::Alt(plain.clone()),
                Ex::Alt(pairs.clone()),
                Ex::Alt(open.clone()),
                Ex::Alt(null.clone()),
                Ex::List(bx(Ex::Alt(open.clone()))),
                Ex::Sep(bx(Ex::Alt(pairs.clone())), bx(Ex::Alt(plain.clone())), true),
                Ex::Set(k.iter().enumerate().map(|(i, k)| (*k as u8, i % 2 == 0)).collect()),
                Ex::List(bx(Ex::Set(k.iter().rev().map(|k| (*k as u8, true)).collect()))),
                cat(&[Ex::Cat(plain.iter().map(|x| Ex::Opt(bx(x.clone()))).collect()), Ex::Eof(true)]),
                Ex::Alt(pairs.iter().map(|x| Ex::Memo(bx(x.clone()))).collect()),
                alt(&[cat(&[Ex::Cat(plain.iter().map(|x| Ex::OptH(bx(x.clone()))).collect()), b()]), Ex::Alt(pairs.clone())]),
            ];
            for std in [true, false] {
                gs.push(Ex::Suf(bx(Ex::Opt(bx(a()))), std, plain.clone()));
                gs.push(Ex::Suf(bx(a()), std, open.clone()));
                gs.push(Ex::Suf(bx(Ex::OptH(bx(a()))), std, null.clone()));
                gs.push(Ex::List(bx(Ex::Suf(bx(t(0)), std, pairs.clone()))));
            }
            for g in &gs {
                if w.next() && keep(std::slice::from_ref(g)) {
                    usable(w, vec![g.clone()], &mut |w, g| f(w, g, &ins));
                }
            }
        }
    }
}
/// many memoized symbols tried at the same places
fn many_memo(w: &mut W, keep: Keep, f: Visit, mk: &dyn Fn(&[i8]) -> Input) {
    for n in [20usize, 33, 70] {
        let alts: Vec<Ex> = (0..n)
            .map(|i| {
                let m = Ex::Memo(bx(Ex::Node(bx(Ex::Cat(vec![a(); i % 7 + 1])))));
                cat(&[m, Ex::Memo(bx(Ex::Opt(bx(a())))), Ex::T((i % 3) as u8, true), if i % 2 == 0 { Ex::Eof(true) } else { b() }])
            })
            .collect();
        let twice = Ex::List(bx(Ex::Alt(alts.clone())));
        let mut ins = vec![];
        for k in 0..9usize {
            for t in [&[][..], &[1], &[1, 1], &[2, 1], &[2], &[1, 0, 0, 1, 1]] {
                ins.push(mk(&rep(&[], &[0], k, t)));
            }
        }
        for g in [Ex::Alt(alts), twice] {
            if w.next() && keep(std::slice::from_ref(&g)) {
                usable(w, vec![g.clone()], &mut |w, g| f(w, g, &ins));
            }
        }
    }
}

/// a memoized rule met again and again at every place of a list, and from its start once more
pub fn memo_lists(w: &mut W, keep: Keep, f: Visit, mk: &dyn Fn(&[i8]) -> Input) {
    let items = [Ex::Node(bx(a())), cat(&[a(), Ex::Opt(bx(b()))]), alt(&[cat(&[a(), b()]), a(), b()])];
    for item in items {
        let m = || Ex::R(1);
        let shapes = [
            alt(&[cat(&[Ex::List(bx(m())), c()]), cat(&[Ex::List(bx(m())), Ex::Opt(bx(b()))])]),
            cat(&[Ex::Look(bx(Ex::List(bx(m()))), true), Ex::List(bx(m())), Ex::Eof(true)]),
            Ex::List(bx(alt(&[cat(&[m(), c()]), m()]))),
            cat(&[Ex::Opt(bx(cat(&[Ex::List(bx(m())), c()]))), Ex::Opt(bx(cat(&[Ex::List(bx(m())), c()]))), Ex::List(bx(m()))]),
            Ex::Suf(bx(alt(&[cat(&[Ex::List(bx(m())), c()]), m()])), true, vec![cat(&[Ex::List(bx(m())), Ex::Eof(true)]), Ex::List(bx(m()))]),
        ];
        for s in shapes {
            let g = vec![s, Ex::Memo(bx(item.clone()))];
            for huge in [false, true] {
                if w.next() && keep(&g) {
                    let mut ins = vec![];
                    let ks = if huge { HUGE } else { &LONG[10..] };
                    for k in ks.iter().chain(if huge { &[2100usize, 4200, 9000][..] } else { &[] }) {
                        for (v, t) in [(&[0i8][..], &[][..]), (&[0], &[1]), (&[0, 1], &[]), (&[0, 1], &[0, 2]), (&[0, 0, 1], &[2])] {
                            ins.push(mk(&rep(&[], v, *k, t)));
                        }
                    }
                    usable(w, g.clone(), &mut |w, g| f(w, g, &ins));
                }
            }
        }
    }
}

/// A rule nested in itself below every pair of wrappers, on nested inputs: what is done twice at
/// one level is done 2^depth times at the bottom.
/// `bounded`: only inputs that the reference, which memoizes nothing, can afford.
pub fn nested(w: &mut W, keep: Keep, f: Visit, mk: &dyn Fn(&[i8]) -> Input, bounded: bool) {
    let ws: Vec<fn(Ex) -> Ex> = vec![
        |x| x,
        |x| cat(&[x]),
        |x| alt(&[x]),
        |x| Ex::List(bx(x)),
        |x| Ex::Opt(bx(x)),
        |x| Ex::OptH(bx(x)),
        |x| Ex::Node(bx(x)),
        |x| Ex::Hide(bx(x)),
        |x| Ex::Val(bx(x), Vp::Accept),
        |x| Ex::Memo(bx(x)),
        |x| Ex::Sep(bx(x), bx(cat(&[b(), b()])), true),
        |x| Ex::Sep(bx(x), bx(cat(&[b(), b()])), false),
        |x| Ex::Suf(bx(x), true, vec![cat(&[b(), b()])]),
        |x| Ex::Suf(bx(x), true, vec![cat(&[c(), b()]), b()]),
        |x| Ex::Suf(bx(x), true, vec![Ex::Null]),
        |x| Ex::Suf(bx(x), false, vec![Ex::Null]),
        |x| alt(&[cat(&[b(), b()]), x]),
        |x| cat(&[Ex::Opt(bx(cat(&[b(), b()]))), x]),
        |x| cat(&[x, Ex::Opt(bx(cat(&[b(), b()])))]),
        |x| cat(&[Ex::Look(bx(alt(&[a(), b()])), true), x]),
    ];
    let mut ins = vec![];
    for k in [1usize, 2, 3, 12, 24, 40, 60] {
        let up = rep(&[], &[0], k, &[1]);
        ins.push(mk(&up));
        ins.push(mk(&rep(&up, &[2], k, &[])));
        ins.push(mk(&rep(&up, &[2], k, &[1, 1])));
        ins.push(mk(&rep(&up, &[2], k - 1, &[])));
        ins.push(mk(&rep(&up, &[2], k / 2, &[1])));
        ins.push(mk(&rep(&[], &[0], k, &[])));
        ins.push(mk(&rep(&[], &[0], k, &[2])));
        ins.push(mk(&rep(&up, &[1, 2], k, &[])));
    }
    for x in &ws {
        for y in &ws {
            for core in 0..3 {
                let e = match core {
                    0 => x(y(alt(&[b(), cat(&[a(), Ex::R(0), c()])]))),
                    1 => x(alt(&[cat(&[a(), y(Ex::R(0)), c()]), b()])),
                    _ => Ex::Suf(bx(alt(&[a(), b()])), true, vec![cat(&[x(y(Ex::R(0))), c()]), x(Ex::R(0))]),
                };
                if w.next() && keep(std::slice::from_ref(&e)) {
                    usable(w, vec![e], &mut |w, g| {
                        if !bounded {
                            return f(w, g, &ins);
                        }
                        let some: Vec<Input> = ins
                            .iter()
                            .filter(|i| Ref::new(g, i).run(g.root, if i.toks.is_empty() { Mode::Chr } else { Mode::Fil }, 0) != Err(Fail::Fuel))
                            .cloned()
                            .collect();
                        f(w, g, &some)
                    });
                }
            }
        }
    }
}

/// Chains of rules that refer to the next one twice. Every rule is a choice, a sequence or a
/// suffix production: only these let rules be referred to before they are complete.
pub fn diamonds(w: &mut W, unusable: bool, f: &mut dyn FnMut(&mut W, &[Ex])) {
    let ws: Vec<fn(Ex) -> Ex> = vec![
        |x| x,
        |x| Ex::List(bx(x)),
        |x| Ex::Opt(bx(x)),
        |x| Ex::OptH(bx(x)),
        |x| Ex::Node(bx(x)),
        |x| Ex::Hide(bx(x)),
        |x| Ex::Look(bx(x), true),
        |x| Ex::Val(bx(x), Vp::Accept),
        |x| Ex::Memo(bx(x)),
        |x| Ex::Sep(bx(x), bx(b()), true),
        |x| Ex::Suf(bx(x), true, vec![b()]),
        |x| Ex::Suf(bx(x), false, vec![Ex::Null]),
        |x| cat(&[x, a()]),
        |x| alt(&[a(), x]),
        |x| Ex::Ns(bx(x), true),
        |x| Ex::St(bx(x)),
    ];
    for n in if unusable { [6usize, 20, 40, 64] } else { [3, 6, 24, 48] } {
        for wr in &ws {
            for form in 0..10 {
                for (end, close) in [(0, false), (1, false), (2, false), (0, true), (1, true)] {
                    if !w.next() {
                        continue;
                    }
                    let mut rules = vec![];
                    for i in 0..n {
                        let nx = Ex::R(i + 1);
                        rules.push(match form {
                            0 => alt(&[wr(nx.clone()), wr(nx)]),
                            1 => cat(&[wr(nx.clone()), wr(nx)]),
                            2 => Ex::Suf(bx(wr(nx.clone())), true, vec![wr(nx)]),
                            3 => Ex::Suf(bx(wr(nx.clone())), false, vec![wr(nx.clone()), nx]),
                            4 => cat(&[Ex::Sep(bx(wr(nx.clone())), bx(wr(nx)), true)]),
                            5 => alt(&[cat(&[wr(nx.clone()), b()]), cat(&[wr(nx), a()])]),
                            6 => cat(&[Ex::Opt(bx(wr(nx.clone()))), Ex::Look(bx(wr(nx)), false), b()]),
                            7 if i % 2 == 0 => alt(&[wr(nx.clone()), nx]),
                            8 if i % 2 == 0 => cat(&[wr(nx.clone()), alt(&[nx.clone(), wr(nx)])]),
                            7 => cat(&[nx.clone(), wr(nx)]),
                            8 => Ex::Suf(bx(nx.clone()), true, vec![a(), wr(nx)]),
                            _ => alt(&[cat(&[a(), wr(nx.clone())]), cat(&[b(), Ex::Opt(bx(nx.clone())), c()]), cat(&[wr(nx), c()])]),
                        });
                    }
                    rules.push(match (end, close) {
                        (0, false) => alt(&[a(), b()]),
                        (1, false) => alt(&[a(), Ex::Null]),
                        (_, false) => Ex::Unset(1),
                        (0, _) => alt(&[a(), cat(&[Ex::R(0), b()])]),
                        _ => alt(&[b(), cat(&[a(), Ex::R(0)])]),
                    });
                    if unusable || (end < 2 && Gram::system(&rules, 0).must_reject().is_none()) {
                        f(w, &rules);
                    }
                }
            }
        }
    }
}

pub fn diamond_inputs(w: &mut W, keep: Keep, f: Visit, mk: &dyn Fn(&[i8]) -> Input) {
    let mut dia: Vec<Input> = vec![];
    for k in 0..4usize {
        for i in (0..3usize.pow(k as u32)).step_by(if k == 3 { 2 } else { 1 }) {
            dia.push(mk(&(0..k).map(|j| (i / 3usize.pow(j as u32) % 3) as i8).collect::<Vec<i8>>()));
        }
    }
    diamonds(w, false, &mut |w, rules| {
        if keep(rules) {
            f(w, &Gram::system(rules, 0), &dia);
        }
    });
}

/// Rules with up to three hundred members that all begin alike, so that whatever chooses among
/// them has to keep many.
pub fn wide(w: &mut W, keep: Keep, f: Visit, mk: &dyn Fn(&[i8]) -> Input) {
    for n in [33usize, 64, 65, 66, 128, 129, 130, 256, 257, 300] {
        let bits = |x: usize| -> Vec<i8> { std::iter::once(0).chain((0..9).map(|i| (x >> i & 1) as i8)).collect() };
        let word = |x: usize| Ex::Cat(bits(x).iter().map(|k| Ex::T(*k as u8, true)).collect());
        let all: Vec<Ex> = (0..n).map(word).collect();
        // a short fallback in the middle and at the end
        let with = |at: usize| {
            let mut v = all.clone();
            v.insert(at, cat(&[a(), a()]));
            v
        };
        let mut probe: Vec<usize> = vec![0, 1, 2, 7, 8, 15, 16, 31, 32, 33, 62, 63, 64, 65, 126, 127, 128, 129, 191, 192, 193, 254, 255, 256, 257, 258, n / 2, n - 2, n - 1, n, n + 1, 511];
        probe.sort();
        probe.dedup();
        let mut ins = vec![mk(&[]), mk(&[0]), mk(&[2]), mk(&[0, 0])];
        for p in &probe {
            let b = bits(*p);
            ins.push(mk(&b));
            ins.push(mk(&b[..9]));
            ins.push(mk(&[&[2], &b[..]].concat()));
            ins.push(mk(&[&[2], &b[..], &[1]].concat()));
            ins.push(mk(&[&b[..], &bits(n - 1)].concat()));
            ins.push(mk(&[&bits(n - 1)[..], &[1], &b].concat()));
        }
        for k in [1, 2, 31, 32, 63, 64, 65, 127, 128, 129, 255, 256, 257, n - 2, n - 1, n, n + 1] {
            ins.push(mk(&vec![0; k]));
            ins.push(mk(&rep(&[], &[0], k, &[1])));
        }
        let mut gs = vec![
            Ex::Alt(all.clone()),
            Ex::Alt(with(n / 2)),
            Ex::Alt(with(n)),
            Ex::Alt(with(0)),
            Ex::List(bx(Ex::Alt(all.clone()))),
            Ex::Sep(bx(Ex::Alt(all.clone())), bx(b()), true),
            cat(&[Ex::Opt(bx(c())), Ex::Alt(all.iter().map(|x| Ex::Memo(bx(x.clone()))).collect()), Ex::Opt(bx(b()))]),
            Ex::Cat(vec![a(); n]),
            Ex::Cat(vec![Ex::Opt(bx(a())); n]),
            cat(&[Ex::Cat((0..n).map(|i| if i % 2 == 0 { Ex::Opt(bx(a())) } else { Ex::OptH(bx(a())) }).collect()), b()]),
        ];
        for std in [true, false] {
            gs.push(Ex::Suf(bx(c()), std, all.clone()));
            gs.push(Ex::Suf(bx(Ex::Opt(bx(c()))), std, with(n)));
            gs.push(Ex::List(bx(Ex::Suf(bx(alt(&[b(), c()])), std, with(n / 2)))));
        }
        for g in &gs {
            if w.next() && keep(std::slice::from_ref(g)) {
                usable(w, vec![g.clone()], &mut |w, g| f(w, g, &ins));
            }
        }
    }
}

/// lengths around the sizes where buffers, counters and tables tend to change behaviour
pub const LONG: &[usize] = &[5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 130, 200, 255, 256, 257, 300];

/// nesting of recursive rules
pub const DEEP: &[usize] = &[520, 1025, 2600];
/// beyond the sizes where narrower counters would wrap
pub const HUGE: &[usize] = &[1025, 65_540];

pub fn rep(u: &[i8], v: &[i8], k: usize, t: &[i8]) -> Vec<i8> {
    let mut r = u.to_vec();
    for _ in 0..k {
        r.extend_from_slice(v);
    }
    r.extend_from_slice(t);
    r
}

/// Long inputs and wide rules: every grammar of a small space over every pumped input, and
/// rules with up to twelve members.
pub fn shapes(w: &mut W, keep: Keep, f: Visit, mk: &dyn Fn(&[i8]) -> Input) {
    // pumped inputs u v^k t
    let us: [&[i8]; 3] = [&[], &[0], &[1]];
    let vs: [&[i8]; 4] = [&[0], &[0, 1], &[1, 0], &[0, 0, 1]];
    let ts: [&[i8]; 4] = [&[], &[0], &[1], &[1, 1]];
    let mut ins = vec![];
    for u in us {
        for v in vs {
            for t in ts {
                for k in [5, 9, 17, 33, 65, 130] {
                    ins.push(mk(&rep(u, v, k, t)));
                }
            }
        }
    }
    let sp = Space {
        leaves: vec![a(), b()],
        un: vec![Un::List, Un::Opt, Un::Node, Un::Memo],
        bin: vec![Bin::Cat, Bin::Alt, Bin::SepI, Bin::SepN, Bin::SufS],
        ter: vec![],
    };
    run_fam(w, &Fam::one("pumped inputs", sp.clone(), 4), keep, &ins, f);
    let mut ins = vec![];
    for k in LONG {
        let k = *k;
        ins.push(mk(&rep(&[], &[0], k, &[])));
        ins.push(mk(&rep(&[], &[0], k, &[1])));
        ins.push(mk(&rep(&[], &[0, 1], k, &[0])));
        ins.push(mk(&rep(&[], &[0, 1], k, &[])));
        ins.push(mk(&rep(&[], &[0, 1], k, &[1])));
        let mut nest = vec![0; k];
        nest.push(1);
        nest.extend(vec![0; k]);
        ins.push(mk(&nest));
    }
    let lists = [
        Ex::List(bx(a())),
        Ex::List(bx(cat(&[a(), b()]))),
        Ex::Sep(bx(a()), bx(b()), true),
        Ex::Sep(bx(a()), bx(b()), false),
        Ex::Sep(bx(a()), bx(Ex::T(1, false)), true),
        cat(&[Ex::List(bx(a())), Ex::Eof(true)]),
        cat(&[Ex::Sep(bx(a()), bx(b()), false), b(), Ex::Eof(true)]),
        cat(&[Ex::Sep(bx(a()), bx(b()), true), Ex::Eof(true)]),
        Ex::Node(bx(Ex::List(bx(Ex::Node(bx(alt(&[a(), b()]))))))),
        Ex::List(bx(Ex::Memo(bx(Ex::Suf(bx(a()), true, vec![b()]))))),
        alt(&[cat(&[Ex::Memo(bx(Ex::List(bx(a())))), Ex::Eof(true)]), cat(&[Ex::Memo(bx(Ex::List(bx(a())))), b()])]),
        Ex::List(bx(alt(&[Ex::Memo(bx(cat(&[a(), b()]))), Ex::Memo(bx(Ex::Node(bx(a())))), Ex::Memo(bx(b()))]))),
        Ex::List(bx(alt(&[Ex::Memo(bx(b())), Ex::Memo(bx(cat(&[a(), a(), Ex::Opt(bx(a()))]))), Ex::Memo(bx(a()))]))),
    ];
    for g in &lists {
        if w.next() && keep(std::slice::from_ref(g)) {
            usable(w, vec![g.clone()], &mut |w, g| f(w, g, &ins));
        }
    }
    // very long inputs, for the rules that iterate
    let mut huge = vec![];
    for k in HUGE {
        let k = *k;
        for (v, t) in [(&[0i8][..], &[][..]), (&[0], &[1]), (&[0, 1], &[]), (&[0, 1], &[0])] {
            huge.push(mk(&rep(&[], v, k, t)));
        }
    }
    for g in &lists {
        if w.next() && keep(std::slice::from_ref(g)) {
            usable(w, vec![g.clone()], &mut |w, g| f(w, g, &huge));
        }
    }
    // recursive rules on long inputs
    let recs: Vec<Vec<Ex>> = vec![
        vec![alt(&[cat(&[a(), Ex::R(0)]), b()])],
        vec![alt(&[cat(&[a(), Ex::R(0), a()]), b()])],
        vec![Ex::Node(bx(alt(&[cat(&[a(), Ex::R(1)]), b()]))), Ex::Opt(bx(cat(&[Ex::R(0), Ex::Opt(bx(a()))])))],
        vec![alt(&[Ex::Suf(bx(a()), false, vec![Ex::R(0)]), a(), b()])],
        vec![alt(&[Ex::Memo(bx(cat(&[a(), Ex::R(0)]))), Ex::Memo(bx(cat(&[b(), Ex::Opt(bx(Ex::R(0)))])))])],
        vec![Ex::Suf(bx(alt(&[a(), b()])), true, vec![cat(&[Ex::R(0)])])],
    ];
    for g in &recs {
        if w.next() && keep(g) {
            usable(w, g.clone(), &mut |w, g| f(w, g, &ins));
        }
    }
    // deep nesting
    for g in &recs {
        let memo = any(g, &|e| matches!(e, Ex::Memo(_)));
        let mut deep = vec![];
        for k in DEEP.iter().filter(|k| !memo || **k < 2000) {
            for t in [rep(&[], &[0], *k, &[1]), rep(&rep(&[], &[0], *k, &[1]), &[0], *k, &[]), rep(&[], &[0], *k, &[]), rep(&[], &[0, 1], *k / 2, &[0])] {
                deep.push(mk(&t));
            }
        }
        if w.next() && keep(g) {
            usable(w, g.clone(), &mut |w, g| f(w, g, &deep));
        }
    }
    many_memo(w, keep, f, mk);
    memo_lists(w, keep, f, mk);
    nested(w, keep, f, mk, true);
    wide(w, keep, f, mk);
    // wide rules
    for n in 2..=14usize {
        let seq: Vec<i8> = (0..n).map(|i| (i % 3) as i8).collect();
        let sym: Vec<Ex> = seq.iter().map(|k| Ex::T(*k as u8, true)).collect();
        // prefixes `a^k b`, and their reverse order; `a^k` in both orders
        let pre: Vec<Ex> = (0..n)
            .map(|k| {
                let mut v = vec![a(); k];
                v.push(b());
                Ex::Cat(v)
            })
            .collect();
        let run: Vec<Ex> = (1..=n).map(|k| Ex::Cat(vec![a(); k])).collect();
        let rev = |v: &[Ex]| v.iter().rev().cloned().collect::<Vec<Ex>>();
        let kinds: Vec<Ex> = (0..n)
            .map(|k| {
                // n alternatives told apart by the base-3 digits of their number
                let mut v = vec![];
                let mut x = k;
                for _ in 0..3 {
                    v.push(Ex::T((x % 3) as u8, x % 2 == 0));
                    x /= 3;
                }
                Ex::Cat(v)
            })
            .collect();
        let mut ins = vec![];
        for cut in 0..=n {
            ins.push(mk(&seq[..cut]));
            let mut s = seq.clone();
            if cut < n {
                s[cut] = (s[cut] + 1) % 3;
                ins.push(mk(&s));
            }
            ins.push(mk(&rep(&[], &[0], cut, &[1])));
            ins.push(mk(&rep(&[], &[0], cut, &[])));
            ins.push(mk(&rep(&[2], &[0], cut, &[1])));
            ins.push(mk(&rep(&[1], &[0], cut, &[])));
        }
        for x in 0..27i8 {
            ins.push(mk(&[x % 3, x / 3 % 3, x / 9]));
            ins.push(mk(&[2, x % 3, x / 3 % 3, x / 9]));
        }
        let mut gs = vec![
            Ex::Cat(sym.clone()),
            Ex::Cat(sym.iter().map(|x| Ex::Opt(bx(x.clone()))).collect()),
            Ex::Cat(sym.iter().map(|x| Ex::OptH(bx(x.clone()))).collect()),
            Ex::Alt(pre.clone()),
            Ex::Alt(rev(&pre)),
            Ex::Alt(run.clone()),
            Ex::Alt(rev(&run)),
            Ex::Alt(kinds.clone()),
            Ex::Alt(kinds.iter().map(|k| Ex::Node(bx(k.clone()))).collect()),
            Ex::List(bx(Ex::Alt(rev(&pre)))),
            Ex::Alt(pre.iter().map(|k| Ex::Memo(bx(k.clone()))).collect()),
            (0..n).fold(a(), |e, _| Ex::Node(bx(e))),
            (0..n).fold(a(), |e, i| if i % 2 == 0 { Ex::Opt(bx(e)) } else { Ex::Node(bx(e)) }),
            (0..n).fold(a(), |e, _| Ex::Suf(bx(e), true, vec![b()])),
            (0..n).fold(a(), |e, _| Ex::Alt(vec![cat(&[a(), e]), b()])),
        ];
        for std in [true, false] {
            gs.push(Ex::Suf(bx(c()), std, pre.clone()));
            gs.push(Ex::Suf(bx(c()), std, rev(&run)));
            gs.push(Ex::Suf(bx(c()), std, kinds.clone()));
            gs.push(Ex::Suf(bx(Ex::Opt(bx(c()))), std, kinds.iter().map(|k| Ex::Memo(bx(k.clone()))).collect()));
        }
        for g in &gs {
            if w.next() && keep(std::slice::from_ref(g)) {
                usable(w, vec![g.clone()], &mut |w, g| f(w, g, &ins));
            }
        }
    }
}
