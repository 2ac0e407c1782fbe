//! C11: syntax trees are well formed. Checked on the returned tree itself, without the reference.
use super::common::*;
use super::suite::*;
use crate::engine::*;
use crate::gram::*;
use crate::real::*;
use crate::refm::*;
use lang_pt::ASTNode;

pub const PROP: Prop = Prop {
    id: "C11",
    run,
    space: "the trees returned for every grammar expression up to size 5 (thorough 6), recursive and two-rule systems, sets, \
patterns, wide rules and pumped inputs, in text and token parsing, over every input up to length 4 (5) including ignorable \
tokens; invariants on spans, containment, order, leaf text, token bounds and zero-width nodes evaluated on every node; the shared families of DESIGN.md (subjects in 29 contexts, special characters, equal node values, failing validations, inputs of 65 540 items, nesting to 2600, wide and deep rules)",
    assumptions: &["containment and order are claimed for grammars that do not ask for raw tokens; leaf text and bounds for all"],
};

pub fn tree(n: &[ASTNode<u16>], g: &Gram, inp: &Input, text: bool, raw: bool) -> Result<u64, String> {
    let len = inp.text.len();
    let mut seen = 0;
    let mut at = 0;
    for x in n {
        seen += 1;
        if x.start > x.end || x.end > len {
            return Err(format!("span {}..{} of {} bytes", x.start, x.end, len));
        }
        if !raw {
            if x.start < at {
                return Err(format!("node {} starts at {} before the end {} of its left neighbour", x.node, x.start, at));
            }
            at = x.end;
            for c in [x.children.first(), x.children.last()].into_iter().flatten() {
                if c.start < x.start || c.end > x.end {
                    return Err(format!("child {}..{} outside its parent {}..{}", c.start, c.end, x.start, x.end));
                }
            }
        }
        let alike = all_alike();
        let op = if x.node == 0 || alike { &Op::Null } else { &g.ops[(x.node as usize - 1) / LABELS] };
        let k = if x.node == 0 || alike { 0 } else { (x.node as usize - 1) % LABELS };
        let b = match (&x.bound, text) {
            (None, true) => None,
            (Some(b), false) => Some((tp(b.0), tp(b.1))),
            (None, false) => return Err(format!("node {} has no token bounds", x.node)),
            (Some(_), true) => return Err(format!("node {} has token bounds", x.node)),
        };
        let mut leaf = |want: Option<&str>, kind: Option<i8>| -> Result<(), String> {
            if !x.children.is_empty() {
                return Err(format!("terminal node {} has children", x.node));
            }
            match b {
                None => {
                    if let Some(s) = want {
                        if &inp.text[x.start..x.end] != s.as_bytes() {
                            return Err(format!("leaf of {:?} spans {:?}", s, &inp.text[x.start..x.end]));
                        }
                    }
                }
                Some((i, j)) => {
                    let t = inp.toks.get(i).ok_or("bound beyond the tokens")?;
                    if j != i + 1 || x.start != t.s || x.end != t.e || kind.map_or(false, |k| k != t.t) {
                        return Err(format!("leaf {}..{} bound {}..{} kind {:?} over {:?}", x.start, x.end, i, j, kind, t));
                    }
                }
            }
            Ok(())
        };
        let zero = |at_end: bool| -> Result<(), String> {
            if x.start != x.end || !x.children.is_empty() || (at_end && x.start != len) {
                return Err(format!("zero-width symbol {:?} spans {}..{}", op, x.start, x.end));
            }
            if let Some((i, j)) = b {
                let t = inp.toks.get(i).ok_or("bound beyond the tokens")?;
                if i != j || t.s != x.start {
                    return Err(format!("zero-width node at {} has bounds {}..{}", x.start, i, j));
                }
            }
            Ok(())
        };
        let comp = || -> Result<(), String> {
            if let Some((i, j)) = b {
                let (t, u) = (inp.toks.get(i).ok_or("bound beyond the tokens")?, inp.toks.get(j).ok_or("bound beyond the tokens")?);
                if i > j || t.s != x.start || u.s != x.end {
                    return Err(format!("node {}..{} has bounds {}..{} = {:?} {:?}", x.start, x.end, i, j, t, u));
                }
            }
            Ok(())
        };
        match op {
            _ if alike => comp()?,
            Op::T(kind, true) => leaf(Some(lit(*kind)), Some(*kind as i8))?,
            Op::W(kind, true) => leaf(Some(wlit(*kind)), Some(-(*kind as i8) - 1))?,
            Op::Set(s) => {
                let (kind, vis) = *s.get(k).ok_or("node value of no member")?;
                if !vis {
                    return Err("node for a hidden member".into());
                }
                leaf(Some(lit(kind)), Some(kind as i8))?
            }
            Op::Re(r, true) => {
                leaf(None, None)?;
                let t = &inp.text[x.start..x.end];
                let ok = match r {
                    0 => !t.is_empty() && t.iter().all(|c| *c == b'a') && inp.text.get(x.end) != Some(&b'a'),
                    1 => t == b"a" || t == b"b",
                    2 => t.iter().all(|c| *c == b'a') && inp.text.get(x.end) != Some(&b'a'),
                    3 => t == b"b" || t == b"ab",
                    4 => std::str::from_utf8(t).map_or(false, |t| t.chars().count() == 1 && t != "a" && t != "b"),
                    _ => t.len() == 1,
                };
                if !ok {
                    return Err(format!("leaf of /{}/ spans {:?}", re(*r), t));
                }
            }
            Op::Eof(true) => zero(true)?,
            Op::Look(_, true) | Op::Null => zero(false)?,
            Op::Node(_) | Op::Suf(..) => comp()?,
            o => return Err(format!("unexpected node value {} of {:?}", x.node, o)),
        }
        seen += tree(&x.children, g, inp, text, raw)?;
    }
    Ok(seen)
}

fn go(w: &mut W, g: &Gram, o: &Opts, ins: &[Input], raw: bool) {
    if g.ops.len() * LABELS >= 1 << 16 {
        w.count("grammars set aside: more symbols than node values", 1);
        return;
    }
    let (_b, p) = match make(g, o) {
        Made::Ready(b, p) => (b, p),
        _ => return,
    };
    for inp in ins {
        if raw {
            // reading without end: set aside
            let mut r = Ref::new(g, inp);
            if r.run(g.root, mode(o), 0) == Err(Fail::Fuel) {
                continue;
            }
        }
        let r = guarded(|| match &p {
            Parser::Text(p) => p.parse(&inp.text),
            Parser::Tok(p) => {
                let code = lang_pt::Code::new(&inp.text);
                let l = lexes(inp);
                p.parse_stream(&code, lang_pt::TokenStream::from(&l))
            }
        });
        w.traces += 1;
        let t = match r {
            Ok(Ok(t)) => t,
            _ => {
                w.count("inputs not accepted", 1);
                continue;
            }
        };
        match tree(&t, g, inp, o.text, raw) {
            Ok(n) => {
                w.states += n;
                w.transitions += n;
                w.count("trees checked", 1);
                w.count("nodes checked", n);
                w.sample(|| format!("{} on {} -> {}", g.text, show_input(inp), show(&to_rnodes(&t))));
            }
            Err(e) => {
                w.viol("malformed", format!("grammar {}\ninput {}\ntree {}\n{}", g.text, show_input(inp), show(&to_rnodes(&t)), e));
                return;
            }
        }
    }
}

/// the span a match reports
fn range(w: &mut W) {
    use lang_pt::SuccessData;
    let leaf = |s: usize, e: usize| ASTNode::leaf(1u16, s, e, None);
    for k in 0..4u32 {
        // cut points 0..=4, two per node
        for code in 0..5usize.pow(2 * k) {
            let mut c = code;
            let v: Vec<usize> = (0..2 * k)
                .map(|_| {
                    let x = c % 5;
                    c /= 5;
                    x
                })
                .collect();
            if v.windows(2).any(|p| p[0] > p[1]) {
                continue;
            }
            w.traces += 1;
            w.states += 1;
            let n: Vec<ASTNode<u16>> = v.chunks(2).map(|p| leaf(p[0], p[1])).collect();
            let exp = if k == 0 { None } else { Some((v[0], v[v.len() - 1])) };
            let got = guarded(|| (SuccessData::new(9usize, n.clone()).range(), if k == 1 { SuccessData::tree(9usize, n[0].clone()).range() } else { exp }));
            if got != Ok((exp, exp)) {
                return w.viol("range", format!("nodes {:?}: expected the span {:?}, observed {:?}", v, exp, got));
            }
        }
    }
    if SuccessData::<usize, u16>::hidden(3).range() != None {
        w.viol("range", "a span without nodes");
    }
}

/// nodes made by hand: without content, and over a part of a stream
fn by_hand(w: &mut W) {
    use lang_pt::{NodeImpl, SuccessData, TokenStream};
    for s in crate::gram::strings(3, 5) {
        let inp = tokens(&s.iter().map(|c| [0i8, 1, -1][*c as usize]).collect::<Vec<i8>>());
        let l = lexes(&inp);
        let st = TokenStream::from(&l);
        let view: Vec<usize> = (0..inp.toks.len()).filter(|i| inp.toks[*i].t >= 0).collect();
        let mut at = vec![];
        let mut f = lang_pt::FltrPtr::default();
        for _ in &view {
            at.push(f);
            f = f + 1;
        }
        for (i, p) in at.iter().enumerate() {
            let (s, r) = (inp.toks[view[i]].s, view[i]);
            let z = ASTNode::<u16>::null(s, Some(st.get_token_ptr(*p)));
            w.traces += 1;
            if z.node != u16::null() || (z.start, z.end) != (s, s) || !z.children.is_empty() || z.bound.map(|b| (tp(b.0), tp(b.1))) != Some((r, r)) {
                return w.viol("by-hand", format!("tokens {}: an empty node at token {} is {:?}", show_input(&inp), i, z));
            }
            for (j, q) in at.iter().enumerate().skip(i) {
                for n in 0..3 {
                    let c: Vec<ASTNode<u16>> = (0..n).map(|k| ASTNode::leaf(k, s, s, None)).collect();
                    let got = guarded(|| st.create_node(*p, 7u16, SuccessData::new(*q, c.clone())));
                    w.traces += 1;
                    w.states += 1;
                    let ok = matches!(&got, Ok(d) if d.consumed_index == *q && d.children.len() == 1 && {
                        let x = &d.children[0];
                        x.node == 7 && x.start == s && x.end == inp.toks[view[j]].s && to_rnodes(&x.children) == to_rnodes(&c)
                            && x.bound.map(|b| (tp(b.0), tp(b.1))) == Some((r, view[j]))
                    });
                    if !ok {
                        return w.viol("by-hand", format!("tokens {}: a node from structural token {} to {} with {} children is {:?}", show_input(&inp), i, j, n, got.map(|d| d.children)));
                    }
                }
            }
        }
    }
    let z = ASTNode::<u16>::null(4, None);
    if z.node != u16::null() || (z.start, z.end) != (4, 4) || z.bound.is_some() || !z.children.is_empty() {
        w.viol("by-hand", format!("an empty node at 4 is {:?}", z));
    }
}

fn run(w: &mut W, tier: Tier) {
    if w.next() {
        range(w);
    }
    if w.next() {
        by_hand(w);
    }
    let s = match tier {
        Tier::Quick => Size { one: 5, rec: 5, two: (3, 3), mixed: 4, len: 4, pumps: true, dia: false, ctx: 4 },
        Tier::Thorough => Size { one: 6, rec: 6, two: (4, 3), mixed: 5, len: 4, pumps: true, dia: false, ctx: 5 },
    };
    let t = Opts::text();
    // a pattern for single bytes may cut a character in two: its leaves are what was asked for
    let whole = |r: &[Ex]| !any(r, &|e| matches!(e, Ex::Re(5, _)));
    text_suite(w, s, &whole, &mut |w, g, i| go(w, g, &t, i, false));
    let k = Opts::token();
    token_suite(w, s, &|_| true, &mut |w, g, i| go(w, g, &k, i, false));
    let sp = Space {
        leaves: vec![a(), b(), Ex::W(0, true), Ex::Null],
        un: vec![Un::Ns(true), Un::Ns(false), Un::St, Un::List, Un::Opt, Un::Node, Un::LookV],
        bin: all_bin(),
        ter: all_ter(),
    };
    let ins = streams(&[0, 1, -1], 4);
    run_fam(w, &Fam::one("raw regions", sp, tier.pick(4, 5)), &|r| any(r, &is_raw), &ins, &mut |w, g, i| go(w, g, &k, i, true));
}
