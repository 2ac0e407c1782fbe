//! C01: tokenization tiles the input, first accepting lexeme wins.
use crate::engine::*;
use crate::lexm::*;
use lang_pt::Code;

pub const PROP: Prop = Prop {
    id: "C01",
    run,
    space: "every ordered list of up to 3 lexemes (thorough 4) from a pool of 14 (patterns, overlapping literal sets, adaptors), as \
plain and as combined tokenizer, on every text of length <= 4 (5) over {a, b, blank, two-byte letter}; every single byte and \
every pair of bytes; every two-byte-insertion into short texts; pumped texts up to 300 bytes and 40 000 tokens; every kind, \
start and end of every token, the end-of-file token and the failure offset compared with a reference tokenizer; byte order marks, NUL, CRLF and U+2028 as input and in literals; up to 300 lexemes in one list",
    assumptions: &[
        "patterns are anchored with ^, as the documentation of Pattern asks",
        "custom lexemes are outside: only the library's own lexemes are used",
    ],
};

pub fn pool() -> Vec<Lx> {
    let b = Box::new;
    vec![
        Lx::Pat(0, 0),
        Lx::Pat(1, 1),
        Lx::Pat(8, 2),
        Lx::Pat(4, -1),
        Lx::Pat(3, 3),
        Lx::Punct(lits(&[("a", 4), ("aab", 5), ("ba", 6)])),
        Lx::Const(lits(&[("ab", 7), ("b", 8), ("aba", 9), ("", 10)])),
        Lx::Map(b(Lx::Pat(7, 11)), lits(&[("ab", 12), ("b", 13)])),
        Lx::Mid(b(Lx::Pat(5, 14)), Fx::LastEven),
        Lx::Pat(10, 15),
        Lx::Pat(12, 16),
        Lx::Pat(6, 17),
        Lx::TMix(b(Lx::Pat(9, 18)), Fx::OddCount, Act::No(true)),
        Lx::Pat(5, 19),
    ]
}

fn lists(n: usize, k: usize) -> Vec<Vec<usize>> {
    let mut r: Vec<Vec<usize>> = vec![vec![]];
    let mut lo = 0;
    for _ in 0..k {
        let hi = r.len();
        for i in lo..hi {
            for c in 0..n {
                if !r[i].contains(&c) {
                    let mut v = r[i].clone();
                    v.push(c);
                    r.push(v);
                }
            }
        }
        lo = hi;
    }
    r
}

/// what every successful tokenization must look like, independent of any lexeme
fn tiled(w: &mut W, m: &Machine, texts: &[Vec<u8>]) {
    let t = m.real(&Lo::plain()).unwrap();
    for x in texts {
        if let Ok(Ok(v)) = guarded(|| t.tokenize(&Code::new(x))) {
            let mut at = 0;
            let n = v.len();
            let ok = n > 0
                && v[..n - 1].iter().all(|l| {
                    let ok = l.start == at && l.end > l.start;
                    at = l.end;
                    ok
                })
                && at == x.len()
                && v[n - 1].start == x.len()
                && v[n - 1].end == x.len()
                && v[n - 1].token == i8::MAX;
            w.traces += 1;
            if !ok {
                w.viol("tiling", format!("{} on {:?}: {}", m, String::from_utf8_lossy(x), show_toks(&v)));
                return;
            }
        }
    }
}

fn run(w: &mut W, tier: Tier) {
    let p = pool();
    let o = Lo::plain();
    let e = "\u{e9}".as_bytes();
    let mut short = bytes(&[b"a", b"b", b" ", e], tier.pick(4, 5));
    short.extend(bytes(&[b"a", "\u{feff}".as_bytes(), b"\r\n", b"\0", "\u{2028}".as_bytes(), b"\t"], 3));
    let pairs: Vec<Vec<u8>> = (0..=255u8).flat_map(|a| (0..=255u8).map(move |b| vec![a, b])).chain((0..=255u8).map(|a| vec![a])).collect();
    let mut long: Vec<Vec<u8>> = vec![];
    for u in [&b""[..], b"a", b"b", b" "] {
        for v in [&b"a"[..], b"b", b"ab", b"ba", b"aab", b"a b", e] {
            for t in [&b""[..], b"a", b"x", b"\xff", b" "] {
                for k in super::suite::LONG {
                    long.push([u, &v.repeat(*k), t].concat());
                }
            }
        }
    }
    // every byte inserted at every place of a short text
    let mut ins: Vec<Vec<u8>> = vec![];
    for base in [&b"ab a"[..], "a\u{e9}b".as_bytes(), b"abab"] {
        for at in 0..=base.len() {
            for c in 0..=255u8 {
                ins.push([&base[..at], &[c], &base[at..]].concat());
            }
        }
    }
    for l in lists(p.len(), 4) {
        if w.stop() {
            return;
        }
        if !w.next() {
            continue;
        }
        let set: Vec<Lx> = l.iter().map(|i| p[*i].clone()).collect();
        let m = Machine::one(set.clone());
        if !run_machine(w, &m, &o, &short) {
            continue;
        }
        let c = Machine { states: vec![(3, set)], single: false };
        if l.len() <= 3 && !run_machine(w, &c, &o, &short) {
            continue;
        }
        if l.len() <= 2 {
            tiled(w, &m, &short);
            if !run_machine(w, &m, &o, &long) {
                continue;
            }
            run_machine(w, &m, &o, &ins);
            if l.len() <= tier.pick(1, 2) {
                run_machine(w, &c, &o, &long);
                run_machine(w, &m, &o, &pairs);
                run_machine(w, &c, &o, &pairs);
            }
        }
    }
    // many lexemes
    for n in (1..=40usize).chain([64, 65, 66, 127, 128, 129, 130, 255, 256, 257, 300]) {
        if w.next() {
            for rev in [false, true] {
                let mut v: Vec<Lx> = (0..n).map(|i| Lx::Punct(vec![("a".repeat(i + 1), (i % 100) as i8)])).collect();
                if rev {
                    v.reverse();
                }
                v.push(Lx::Pat(3, 100));
                let m = Machine::one(v.clone());
                let t: Vec<Vec<u8>> = (0..=n + 3).filter(|k| n <= 40 || k % 16 < 2 || *k + 5 > n).flat_map(|k| [b"a".repeat(k), [&b"a".repeat(k)[..], b"b"].concat(), [&b"b".repeat(k)[..], b"ac"].concat()]).collect();
                run_machine(w, &m, &o, &t);
                run_machine(w, &Machine { states: vec![(0, v)], single: false }, &o, &t);
            }
        }
    }
    // many tokens
    for k in 0..p.len() {
        if w.next() {
            let m = Machine::one(vec![p[k].clone(), p[4].clone()]);
            let t = vec![b"ab".repeat(20_000), b"b".repeat(tier.pick(20_000, 70_000)), [&b"b".repeat(5000)[..], b"z"].concat()];
            // closures that hash everything before them would make this quadratic
            run_machine(w, &m, &o, &t);
        }
    }
    // beyond the sizes where narrower counters would wrap
    for k in 0..p.len() {
        if w.next() && !matches!(k, 8 | 12) {
            let t: Vec<Vec<u8>> = [&b"a"[..], b"b", b"ab", b" ", b"a b", e]
                .iter()
                .flat_map(|v| [65_535usize, 65_540].map(|n| [&b"a"[..], &v.repeat(n), b"b"].concat()))
                .collect();
            for m in [Machine::one(vec![p[k].clone()]), Machine::one(vec![p[k].clone(), p[4].clone()])] {
                run_machine(w, &m, &o, &t);
            }
        }
    }
    // patterns that would match nothing are refused
    if w.next() {
        for re in ["", "^a*", "^(a|)", "^a?", "^(?:b*|c)"] {
            w.traces += 1;
            if let Ok(Ok(_)) = guarded(|| lang_pt::lexeme::Pattern::<i8, u8>::new(0, re)) {
                w.viol("nullable-pattern", format!("pattern {:?} that matches the empty text is accepted as a lexeme", re));
            }
        }
        let empty = Machine::one(vec![]);
        run_machine(w, &empty, &o, &short);
        run_machine(w, &Machine { states: vec![(0, vec![])], single: false }, &o, &short);
    }
    parser_route(w, tier);
}

/// the same tokens through the parser's entry points
fn parser_route(w: &mut W, tier: Tier) {
    use super::common::Dp;
    use crate::gram::*;
    use crate::real::*;
    let p = pool();
    let g = Gram::single(&Ex::NullH);
    for l in lists(p.len(), 2) {
        if !w.next() {
            continue;
        }
        let m = Machine::one(l.iter().map(|i| p[*i].clone()).collect());
        let built = build(&g, &Opts::token()).unwrap();
        let d = Dp::new(m.real(&Lo::plain()).unwrap(), built.root.clone()).unwrap();
        for x in bytes(&[b"a", b"b", b" "], tier.pick(3, 5)) {
            let (exp, n) = m.run(&x);
            w.transitions += n;
            w.traces += 2;
            let a: TOut = guarded(|| d.tokenize(&Code::new(&x)).map_err(|e| (e.pointer, e.message)));
            let b: TOut = guarded(|| d.tokenize_n_parse(&x).map(|r| r.0).map_err(|e| (e.pointer, e.message)));
            for (k, r) in [("tokenize", a), ("tokenize_n_parse", b)] {
                if !agree(&exp, &r) {
                    w.viol("parser-route", format!("{} via {} on {:?}: expected {}, observed {}", m, k, String::from_utf8_lossy(&x), show_exp(&exp), show_out(&r)));
                    return;
                }
            }
        }
    }
}
