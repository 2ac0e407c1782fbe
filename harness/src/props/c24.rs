//! C24: printed grammars.
use super::common::*;
use super::suite::*;
use crate::engine::*;
use crate::gram::*;
use crate::lexm::*;
use crate::real::*;
use crate::refm::*;

pub const PROP: Prop = Prop {
    id: "C24",
    run,
    space: "every grammar expression up to size 5 (thorough 6), recursive systems, two-rule systems 3+3 (4+4), every wrapper on the \
way to a rule, with and without rule names on the symbols that take one, lexerless and with tokens: the rule headers found in \
the printed text are exactly the reachable named rules, once each, and each body shows the symbols of that rule in order; every \
single lexeme and adaptor stack, every ordered triple of lexemes and state machines of up to three states for the tokenizer's \
part; printed again by the same object, by a fresh one and after parses, the text is the same; up to 300 named rules side by side, in a chain, and reached from each other; with rule names of 300 bytes, differing in case only or in the middle only, each the beginning of the next, and without ASCII",
    assumptions: &["rule names are unique", "a choice without any alternative (which has no body to print) is set aside"],
};

/// characters the library may put around and between symbols
fn glue(c: char) -> bool {
    c.is_whitespace() || "()[]{};:|@*+?=%<>~'&!,.-/\"".contains(c)
}

/// are the parts in `s` in this order, with nothing but glue around them, and exactly `bars[i]`
/// alternative bars in the gap before part i?
fn laid(s: &str, parts: &[(String, usize)]) -> bool {
    if parts.is_empty() {
        return s.chars().all(|c| glue(c) && c != '|');
    }
    let (p, bars) = (&parts[0].0, parts[0].1);
    let mut n = 0;
    for (i, c) in s.char_indices() {
        if n == bars && s[i..].starts_with(p.as_str()) && laid(&s[i + p.len()..], &parts[1..]) {
            return true;
        }
        if !glue(c) {
            return false;
        }
        if c == '|' {
            n += 1;
            if n > bars {
                return false;
            }
        }
    }
    p.is_empty() && n == bars
}

/// the symbols a rule consists of, in order
fn parts(g: &Gram, b: &Built, id: Id) -> Vec<(String, usize)> {
    let d = |i: Id| b.nodes[i].as_ref().map_or(String::new(), |x| x.to_string());
    let lab = |k: usize| format!("{:?}", label(id, k));
    match &g.ops[id] {
        Op::Cat(v) => v.iter().map(|x| (d(*x), 0)).collect(),
        Op::Alt(v) => v.iter().enumerate().map(|(i, x)| (d(*x), (i > 0) as usize)).collect(),
        Op::Suf(l, st, v) => {
            let mut r = vec![];
            for (i, x) in v.iter().enumerate() {
                r.push((d(*l), (i > 0) as usize));
                r.push((d(*x), 0));
                r.push((lab(i), 0));
            }
            if *st {
                r.push((d(*l), (!v.is_empty()) as usize));
            }
            r
        }
        Op::Node(x) => vec![(d(*x), 0), (lab(0), 0)],
        Op::Hide(x) => vec![(d(*x), 0)],
        Op::Sep(x, s, inc) => {
            let mut r = vec![(d(*x), 0), (d(*s), 0), (d(*x), 0)];
            if *inc {
                r.push((d(*s), 0));
            }
            r
        }
        _ => vec![],
    }
}

/// what an unnamed symbol shows
fn shows(g: &Gram, b: &Built, id: Id, o: &Opts) -> Result<(), String> {
    let d = |i: Id| b.nodes[i].as_ref().map_or(String::new(), |x| x.to_string());
    let s = d(id);
    let term = |k: u8, w: bool| match (o.text, w) {
        (true, false) => lit(k).to_string(),
        (true, true) => format!("{:?}", wlit(k)).trim_matches('"').to_string(),
        (false, false) => format!("{:?}", tok(k)),
        (false, true) => format!("{:?}", wtok(k)),
    };
    let inner: Vec<String> = match &g.ops[id] {
        Op::T(k, _) => vec![term(*k, false)],
        Op::W(k, _) => vec![term(*k, true)],
        Op::Re(k, _) => vec![re(*k).to_string()],
        Op::Set(v) => v.iter().map(|(k, _)| term(*k, false)).collect(),
        Op::Eof(_) => vec!["EOF".into()],
        Op::Cat(_) | Op::Alt(_) | Op::Suf(..) | Op::Null | Op::NullH | Op::Unset(_) => vec![],
        _ => g.children(id).into_iter().map(d).collect(),
    };
    for i in &inner {
        if !s.contains(i.as_str()) {
            return Err(format!("symbol {} ({:?}) is printed as {:?}, which does not show {:?}", id, g.ops[id], s, i));
        }
    }
    if matches!(g.ops[id], Op::List(_) | Op::Opt(_) | Op::OptH(_) | Op::Look(..)) && inner[0] == s {
        return Err(format!("symbol {} ({:?}) is printed as its operand {:?}", id, g.ops[id], s));
    }
    if let Op::Sep(x, sep, inc) = &g.ops[id] {
        let (x, sep) = (d(*x), d(*sep));
        let mut v = vec![(x.clone(), 0), (sep.clone(), 0), (x, 0)];
        if *inc {
            v.push((sep, 0));
        }
        if !laid(&s, &v) {
            return Err(format!("symbol {} ({:?}) is printed as {:?}", id, g.ops[id], s));
        }
    }
    Ok(())
}

fn structure(text: &str, g: &Gram, b: &Built, o: &Opts) -> Result<usize, String> {
    let reach = g.reachable();
    let mut names: Vec<(String, Id)> = vec![];
    for i in 0..g.ops.len() {
        if !reach[i] {
            continue;
        }
        let nm = match &g.ops[i] {
            Op::Cat(_) | Op::Alt(_) | Op::Suf(..) => true,
            Op::Node(_) | Op::Hide(_) | Op::Sep(..) => o.rule_names,
            _ => false,
        };
        if nm {
            names.push((b.nodes[i].as_ref().unwrap().to_string(), i));
        } else {
            shows(g, b, i, o)?;
        }
    }
    for (i, (a, _)) in names.iter().enumerate() {
        if !is_name(a) {
            return Err(format!("rule {:?} does not show its name", a));
        }
        if names[..i].iter().any(|(b, _)| a == b) {
            return Err(format!("two rules show the name {:?}", a));
        }
    }
    let lines: Vec<&str> = text.lines().collect();
    let root = b.root.to_string();
    if lines.first().map_or(true, |l| !l.contains(&root)) {
        return Err(format!("the first line does not show the start symbol {:?}", root));
    }
    // headers: a name alone at the start of a line
    let is_header = |l: &str| is_name(l.trim_end());
    let mut seen: Vec<(&str, String)> = vec![];
    for l in &lines[1..] {
        if is_header(l) {
            seen.push((l.trim_end(), String::new()));
        } else if let Some(x) = seen.last_mut() {
            x.1.push_str(l);
            x.1.push('\n');
        } else if !l.chars().all(glue) {
            return Err(format!("text before the first rule: {:?}", l));
        }
    }
    for (n, id) in &names {
        let at: Vec<&(&str, String)> = seen.iter().filter(|x| x.0 == n).collect();
        if at.len() != 1 {
            return Err(format!("rule {} (symbol {}) is printed {} times", n, id, at.len()));
        }
        if g.ops[*id] == Op::Alt(vec![]) {
            continue;
        }
        let p = parts(g, b, *id);
        if !laid(&at[0].1, &p) {
            return Err(format!("the body of rule {} (symbol {}) is {:?}, expected the symbols {:?} in order", n, id, at[0].1, p));
        }
    }
    if let Some(x) = seen.iter().find(|x| names.iter().all(|(n, _)| n != x.0)) {
        return Err(format!("a rule {} is printed that the grammar does not reach", x.0));
    }
    Ok(names.len())
}

fn print(p: &Parser) -> Result<String, String> {
    guarded(|| match p {
        Parser::Text(p) => p.grammar(),
        Parser::Tok(p) => p.grammar(),
    })?
    .map_err(|e| e.to_string())
}
/// what remains after the rules: the empty tokenizer's part
fn rules_only(s: &str) -> &str {
    s.find("fragment").map_or(s, |i| &s[..i])
}

fn go(w: &mut W, g: &Gram, o: &Opts, ins: &[Input]) {
    let bad = |w: &mut W, k: &str, m: String| w.viol(k, format!("grammar {}\n{}", g.text, m));
    let (b, p) = match make(g, o) {
        Made::Ready(b, p) => (b, p),
        _ => return,
    };
    if let Some(n) = b.notes.first() {
        return bad(w, "names", n.clone());
    }
    let first = match print(&p) {
        Ok(s) => s,
        Err(m) => return bad(w, "no-text", m),
    };
    w.states += 1;
    w.transitions += first.lines().count() as u64;
    w.traces += 1;
    match structure(rules_only(&first), g, &b, o) {
        Ok(n) => {
            w.count("rules found with their symbols", n as u64);
        }
        Err(m) => return bad(w, "rules", format!("{}\nprinted:\n{}", m, first)),
    }
    for k in 0..=ins.len() {
        let again = print(&p);
        w.traces += 1;
        if again.as_ref() != Ok(&first) {
            return bad(w, "unstable", format!("printed first:\n{}\nprinted again after {} parses:\n{}", first, k, again.unwrap_or_else(|e| e)));
        }
        if k < ins.len() {
            let _ = parse(&p, &ins[k]);
        }
    }
    if let Made::Ready(_b, p) = make(g, o) {
        for i in ins {
            let _ = parse(&p, i);
        }
        let fresh = print(&p);
        w.traces += 1;
        if fresh.as_ref() != Ok(&first) {
            return bad(w, "unstable", format!("printed by one parser:\n{}\nby another, after parses:\n{}", first, fresh.unwrap_or_else(|e| e)));
        }
    }
    w.sample(|| format!("{} -> {}", g.text, first));
}

/// the one pattern that spans two lines, on one
fn one_line(s: &str) -> String {
    s.replace("[ \n]", "[ \\n]")
}

/// entries a lexeme has in the printed grammar; inner groups may come in any order
fn entries(l: &Lx) -> Vec<(String, String)> {
    match l {
        Lx::Pat(k, t) => vec![(format!("{:?}", t), one_line(&PATS[*k as usize].replace('/', "\\/")))],
        Lx::Punct(v) | Lx::Const(v) => v.iter().map(|(s, t)| (format!("{:?}", t), format!("{:?}", s))).collect(),
        Lx::Map(x, v) => {
            let mut r: Vec<(String, String)> = v.iter().map(|(s, t)| (format!("{:?}", t), format!("{:?}", s))).collect();
            r.extend(entries(x));
            r
        }
        Lx::TMap(x, ..) | Lx::Mid(x, _) | Lx::Mix(x, _) | Lx::TMix(x, ..) => entries(x),
    }
}

fn lexer_part(text: &str, m: &Machine) -> Result<usize, String> {
    let mut n = 0;
    let mut sect: Vec<(String, Vec<&str>)> = vec![];
    for l in text.lines() {
        let t = l.trim();
        if let Some(r) = t.strip_prefix("fragment") {
            sect.push((r.trim_end_matches('{').trim().to_string(), vec![]));
        } else if t.is_empty() || t == "}" {
        } else if let Some(s) = sect.last_mut() {
            s.1.push(t);
        } else {
            return Err(format!("line {:?} outside of any state", l));
        }
    }
    if sect.len() != m.states.len() {
        return Err(format!("{} sections for {} states", sect.len(), m.states.len()));
    }
    for (i, (id, lx)) in m.states.iter().enumerate() {
        let lines = if m.single {
            &sect[i].1
        } else {
            match sect.iter().filter(|s| s.0 == format!("{:?}", id)).collect::<Vec<_>>()[..] {
                [s] => &s.1,
                ref v => return Err(format!("{} sections for state {:?}", v.len(), id)),
            }
        };
        let mut at = 0;
        for l in lx {
            let mut want = entries(l);
            let k = want.len();
            for _ in 0..k {
                let line = *lines.get(at).ok_or_else(|| format!("state {:?}: the entries of {:?} are missing", id, l))?;
                at += 1;
                // `token : text ,`
                let hit = want.iter().position(|(t, s)| {
                    line.split(':').next().map(|x| x.trim()) == Some(t.as_str())
                        && line.splitn(2, ':').nth(1).map_or(false, |r| {
                            let r = r.trim();
                            let r = r.strip_suffix(',').unwrap_or(r).trim();
                            r == s || r.len() == s.len() + 2 && &r[1..r.len() - 1] == s
                        })
                });
                match hit {
                    Some(h) => {
                        want.remove(h);
                        n += 1;
                    }
                    None => return Err(format!("state {:?}: line {:?} is not an entry of {:?}", id, line, l)),
                }
            }
        }
        if at != lines.len() {
            return Err(format!("state {:?}: {:?} belongs to no lexeme", id, lines[at]));
        }
    }
    Ok(n)
}

fn lex(w: &mut W, m: &Machine, texts: &[Vec<u8>]) {
    let bad = |w: &mut W, k: &str, s: String| w.viol(k, format!("lexer {:?}\n{}", m, s));
    let mk = || guarded(|| m.real(&Lo::plain())).ok().and_then(|r| r.ok());
    let (t, u) = match (mk(), mk()) {
        (Some(t), Some(u)) => (t, u),
        _ => {
            w.count("lexers refused at construction", 1);
            return;
        }
    };
    let first = match guarded(|| t.build_grammar()) {
        Ok(Ok(s)) => s,
        r => return bad(w, "no-text", format!("{:?}", r.map(|x| x.is_ok()))),
    };
    w.states += 1;
    w.transitions += first.lines().count() as u64;
    w.traces += 1;
    match lexer_part(&one_line(&first), m) {
        Ok(n) => w.count("lexeme entries found", n as u64),
        Err(e) => return bad(w, "lexemes", format!("{}\nprinted:\n{}", e, first)),
    }
    for s in texts {
        let _ = tokenize(&*u, s);
    }
    for x in [&t, &u] {
        let again = guarded(|| x.build_grammar().ok()).ok().flatten();
        w.traces += 1;
        if again.as_deref() != Some(&first) {
            return bad(w, "unstable", format!("printed first:\n{}\nprinted again:\n{:?}", first, again));
        }
    }
    // as the second part of a parser's printed grammar
    let g = Gram::single(&cat(&[a(), b()]));
    if let Some(b) = build(&g, &Opts::token()) {
        if let Ok(Ok(p)) = guarded(|| Dp::new(t.clone(), b.root.clone())) {
            let p = Parser::Tok(p);
            w.traces += 1;
            match print(&p) {
                Ok(s) if s.find("fragment").map_or(first.is_empty(), |i| s[i..] == first) => {
                    if let Err(m) = structure(rules_only(&s), &g, &b, &Opts::token()) {
                        return bad(w, "rules", format!("{}\nprinted:\n{}", m, s));
                    }
                }
                r => return bad(w, "lexemes", format!("the tokenizer prints\n{}\nbut the parser prints\n{:?}", first, r)),
            }
        }
    }
    w.sample(|| format!("{:?} -> {}", m, first));
}

fn run(w: &mut W, tier: Tier) {
    let empty_alt = |e: &Ex| has(e, &|x| *x == Ex::Alt(vec![]));
    let ins = |text: bool| -> Vec<Input> {
        if text {
            vec![Input::text(b""), Input::text(b"ab"), Input::text(b"ba?")]
        } else {
            vec![tokens(&[]), tokens(&[0, 1]), tokens(&[1, -1, 0, 2])]
        }
    };
    for text in [true, false] {
        let i = ins(text);
        for rule_names in [false, true] {
            let o = Opts { rule_names, ..if text { Opts::text() } else { Opts::token() } };
            let set_o = Opts { const_set: true, ..o.clone() };
            let mut each = |w: &mut W, f: &Fam, o: &Opts| {
                run_fam(w, f, &|r| !r.iter().any(empty_alt), &i, &mut |w, g, i| {
                    if g.ops[g.root] != Op::Null || g.ops.len() == 1 {
                        go(w, g, o, i)
                    }
                });
            };
            let mut leaves = vec![a(), b(), Ex::Null, Ex::Eof(true), set(&[(0, true), (1, false)])];
            if text {
                leaves.push(Ex::Re(0, true));
            }
            let mut sp = full(leaves.clone());
            sp.un.extend([Un::Val(Vp::Accept), Un::Look]);
            if !text {
                sp.un.extend([Un::Ns(false), Un::St]);
            }
            each(w, &Fam::one("one rule", sp.clone(), tier.pick(4, 5)), &o);
            let mut small = sp.clone();
            small.leaves = vec![a(), b()];
            small.un = vec![Un::List, Un::Node, Un::Hide, Un::Memo, Un::Opt];
            each(w, &Fam::one("deeper rules", small.clone(), tier.pick(5, 6)), &o);
            if text {
                let mut s = full(vec![set(&[(0, true), (3, true)]), set(&[(0, true), (1, false), (2, true)]), Ex::Re(3, false), Ex::T(3, false)]);
                s.ter = vec![];
                each(w, &Fam::one("sets of constants", s, 3), &set_o);
            }
            let mut rec = sp.clone();
            rec.leaves = vec![a(), b(), Ex::R(0)];
            rec.ter = vec![];
            each(w, &Fam::one("recursive", rec.clone(), tier.pick(5, 6)), &o);
            let mut two = sp.clone();
            two.leaves = vec![a(), Ex::R(0), Ex::R(1)];
            two.ter = vec![];
            each(w, &Fam::two("two rules", two.clone(), tier.pick(3, 4), tier.pick(3, 4)), &o);
            // rules with other names
            for st in 1..STYLES {
                styled(st, || {
                    let mut s = small.clone();
                    s.leaves = vec![a(), b(), Ex::R(0)];
                    s.bin = vec![Bin::Cat, Bin::Alt, Bin::SufS, Bin::SepN];
                    s.ter = vec![];
                    each(w, &Fam::one("one rule, other names", s.clone(), tier.pick(4, 5)), &o);
                    s.leaves = vec![a(), Ex::R(0), Ex::R(1)];
                    s.un = vec![Un::Opt, Un::Node];
                    each(w, &Fam::two("two rules, other names", s, 3, tier.pick(3, 4)), &o);
                });
            }
            // four rules in a chain or a cycle, each reached through every pair of wrappers
            let tops: Vec<Un> = two.un.clone();
            for (x, y) in tops.iter().flat_map(|x| tops.iter().map(move |y| (*x, *y))) {
                for shape in 0..6 {
                    if !w.next() {
                        continue;
                    }
                    let r = |k| mk1(x, &mk1(y, &Ex::R(k)));
                    let rules = vec![
                        mk2([Bin::Cat, Bin::Alt, Bin::SufS][shape % 3], &a(), &r(1)),
                        mk2([Bin::Alt, Bin::Suf, Bin::Cat][shape % 3], &b(), &r(2)),
                        Ex::Alt(vec![cat(&[a(), r(3)]), r(3), b()]),
                        if shape < 3 { Ex::Suf(bx(a()), true, vec![r(0), b()]) } else { cat(&[a(), Ex::Sep(bx(b()), bx(cat(&[c(), r(1)])), shape == 4), Ex::T(0, false)]) },
                    ];
                    let g = Gram::system(&rules, 0);
                    if g.must_reject().is_none() {
                        go(w, &g, &o, &i);
                    }
                }
            }
        }
    }
    // many rules, side by side and one in the other
    for n in [17usize, 33, 63, 64, 65, 66, 129, 130, 257, 300] {
        for form in 0..8 {
            for text in [true, false] {
                if !w.next() {
                    continue;
                }
                let o = Opts { rule_names: form % 2 == 1, ..if text { Opts::text() } else { Opts::token() } };
                let leaf = |i: usize| -> Ex {
                    match i % 3 {
                        0 => cat(&[a(), b()]),
                        1 => alt(&[b(), a()]),
                        _ => Ex::Suf(bx(b()), true, vec![a()]),
                    }
                };
                let step = |i: usize, x: Ex| -> Ex {
                    match (form + i) % 5 {
                        0 => cat(&[a(), x]),
                        1 => alt(&[a(), cat(&[b(), x])]),
                        2 => Ex::Suf(bx(a()), true, vec![b(), x]),
                        3 => Ex::Node(bx(Ex::Sep(bx(cat(&[a(), x])), bx(b()), true))),
                        _ => cat(&[Ex::Opt(bx(Ex::List(bx(x)))), b()]),
                    }
                };
                let rules: Vec<Ex> = match form / 2 {
                    // all under one choice
                    0 => vec![Ex::Alt((0..n).map(leaf).collect())],
                    // one in the other
                    1 => (0..n).map(|i| if i + 1 < n { step(i, Ex::R(i + 1)) } else { leaf(i) }).collect(),
                    // each refers to two others, one of them late
                    2 => (0..n)
                        .map(|i| if i + 1 < n { alt(&[cat(&[a(), Ex::R(i + 1)]), cat(&[b(), Ex::R(n - 1)]), cat(&[b(), Ex::R(i / 2)])]) } else { leaf(i) })
                        .collect(),
                    // wide and deep
                    _ => vec![
                        alt(&[Ex::Suf(bx(a()), true, (0..n).map(leaf).collect()), cat(&[b(), Ex::R(1)])]),
                        Ex::Cat((0..n).map(|i| Ex::Opt(bx(leaf(i)))).chain([a()]).collect()),
                    ],
                };
                let g = Gram::system(&rules, 0);
                if g.must_reject().is_none() {
                    w.count("grammars with many rules", 1);
                    go(w, &g, &o, &ins(text));
                } else {
                    w.count("grammars with many rules, unusable", 1);
                }
            }
        }
    }
    // the tokenizer's part
    let txt = bytes(&[b"a", b"b", b" "], 2);
    let base: Vec<Lx> = (0..PATS.len() as u8)
        .map(|k| Lx::Pat(k, k as i8))
        .chain([
            Lx::Punct(lits(&[("a", 3), ("ab", 4), ("b", 5)])),
            Lx::Punct(lits(&[("\"", 3), ("\\n", 4), ("a/b", 5), (":", 6), (",", -7)])),
            Lx::Const(lits(&[("b", 3), ("aba", 4), ("ab", 4), ("\n", -2)])),
            Lx::Const(lits(&[("\u{e9}", 9)])),
        ])
        .collect();
    let maps: Vec<Vec<(String, i8)>> = vec![
        vec![],
        lits(&[("a", 20)]),
        lits(&[("aab", 20), ("b", 21), ("a", 22), ("ab", 23), ("ba", 24), ("bb", 25), ("aa", 26), ("abb", 27), ("bba", 28), ("zz", 29)]),
    ];
    let mut st: Vec<Lx> = base.clone();
    for l in &base {
        let x = || Box::new(l.clone());
        for m in &maps {
            st.push(Lx::Map(x(), m.clone()));
            st.push(Lx::Mid(Box::new(Lx::Map(x(), m.clone())), Fx::HasB));
            st.push(Lx::Map(Box::new(Lx::Mix(x(), vec![(0, Act::Pop(true))])), m.clone()));
        }
        st.push(Lx::TMap(x(), Fx::Always, 40));
        st.push(Lx::Mid(x(), Fx::Never));
        st.push(Lx::Mix(x(), vec![(0, Act::Push(1, true)), (1, Act::Pop(false))]));
        st.push(Lx::TMix(x(), Fx::Always, Act::No(true)));
        st.push(Lx::Map(Box::new(Lx::Map(x(), maps[1].clone())), maps[2].clone()));
    }
    for l in &st {
        if w.next() {
            lex(w, &Machine::one(vec![l.clone()]), &txt);
        }
    }
    let pool: Vec<Lx> = vec![
        base[0].clone(),
        base[4].clone(),
        base[14].clone(),
        base[15].clone(),
        base[16].clone(),
        Lx::Map(Box::new(base[1].clone()), maps[2].clone()),
        Lx::Mid(Box::new(base[14].clone()), Fx::HasB),
        Lx::Mix(Box::new(base[3].clone()), vec![(3, Act::Push(1, false))]),
    ];
    let n = pool.len();
    for i in 0..n * n * n {
        if w.next() {
            let v: Vec<Lx> = [i / n / n, i / n % n, i % n].iter().map(|k| pool[*k].clone()).collect();
            lex(w, &Machine::one(v.clone()), &txt);
            // the same lexemes spread over up to three states, in every order of the states
            for (sa, sb, sc) in [(0u8, 1u8, 2u8), (2, 0, 1), (7, 3, 0), (1, 2, 0)] {
                lex(w, &Machine { states: vec![(sa, vec![v[0].clone()]), (sb, vec![v[1].clone(), v[2].clone()])], single: false }, &txt);
                lex(
                    w,
                    &Machine { states: vec![(sa, vec![v[0].clone(), v[1].clone()]), (sb, vec![]), (sc, vec![v[2].clone(), v[0].clone()])], single: false },
                    &txt,
                );
            }
        }
    }
}
