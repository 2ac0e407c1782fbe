//! C03: adaptors re-label or gate, and compose.
use crate::engine::*;
use crate::lexm::*;
use lang_pt::{Code, Lex};

pub const PROP: Prop = Prop {
    id: "C03",
    run,
    space: "every nesting of up to 3 (thorough 4) adaptors out of 16 (key mappings, closure mappings and gates that read matched text, \
input before and after the match and tokens so far, state mixins without and with effect) around 4 base lexemes, built by constructors and by fluent methods, as first \
lexeme of a two-lexeme tokenizer on every text of length <= 4 (5) over {a, b, blank}; each adaptor also consumed directly at \
every offset with every one of a set of token histories; mappings of up to 1030 keys, keys up to 65 537 bytes, keys that are \
proper prefixes and extensions of the match, keys outside ASCII; keys given at construction and later in every split, in every order; keys that differ in blanks, case or special characters only",
    assumptions: &["state actions other than none are decided by C04"],
};

pub fn adaptors() -> Vec<fn(Lx) -> Lx> {
    let b = |x: Lx| Box::new(x);
    let _ = b;
    vec![
        |x| Lx::Map(Box::new(x), lits(&[("a", 20), ("ab", 21), ("b", 20)])),
        |x| Lx::Map(Box::new(x), lits(&[("aa", 22), ("aab", 23), (" ", 24), ("abab", 25), ("", 26)])),
        |x| Lx::TMap(Box::new(x), Fx::Long, 30),
        |x| Lx::TMap(Box::new(x), Fx::LastEven, 31),
        |x| Lx::TMap(Box::new(x), Fx::Bit(3), 32),
        |x| Lx::TMap(Box::new(x), Fx::IsZero, 33),
        |x| Lx::Mid(Box::new(x), Fx::HasB),
        |x| Lx::Mid(Box::new(x), Fx::LastEven),
        |x| Lx::Mid(Box::new(x), Fx::Bit(5)),
        |x| Lx::Mid(Box::new(x), Fx::OddCount),
        |x| Lx::Mix(Box::new(x), vec![(30, Act::No(true)), (20, Act::No(false)), (1, Act::No(true))]),
        |x| Lx::TMix(Box::new(x), Fx::Bit(7), Act::No(true)),
        |x| Lx::TMix(Box::new(x), Fx::Long, Act::No(false)),
        |x| Lx::TMap(Box::new(x), Fx::NextB, 34),
        |x| Lx::Mix(Box::new(x), vec![(0, Act::Push(1, false)), (20, Act::Pop(true)), (31, Act::Switch(2, false))]),
        |x| Lx::TMix(Box::new(x), Fx::Bit(9), Act::Push(2, true)),
    ]
}

fn direct(w: &mut W, l: &Lx, o: &Lo, texts: &[Vec<u8>]) -> bool {
    let r = match guarded(|| real(l, o)) {
        Ok(Ok(r)) => r,
        e => {
            w.viol("construction", format!("{:?}: {:?}", l, e.map(|r| r.err())));
            return false;
        }
    };
    let hist = |p: usize| -> Vec<Vec<Lex<i8>>> {
        let mut v = vec![vec![]];
        if p > 0 {
            for t in [0, 1, 20] {
                v.push(vec![Lex { token: t, start: 0, end: p }]);
            }
        }
        if p > 1 {
            v.push(vec![Lex { token: 3, start: 0, end: 1 }, Lex { token: 2, start: 1, end: p }]);
        }
        v
    };
    for x in texts {
        for p in 0..x.len() {
            for h in hist(p) {
                let mut s = vec![4, 2];
                let mut s2 = s.clone();
                let exp = accept(l, x, p, &h, &mut s);
                let got = guarded(|| r.consume(&Code::new(x), p, &h, &mut s2));
                w.traces += 1;
                w.transitions += 1;
                if got.as_ref() != Ok(&exp) || s != s2 {
                    w.viol("consume", format!("{:?} at {} of {:?} after [{}]: expected {:?}, observed {:?}", l, p, String::from_utf8_lossy(x), show_toks(&h), exp, got));
                    return false;
                }
            }
        }
        w.states += x.len() as u64;
    }
    true
}

fn run(w: &mut W, tier: Tier) {
    let ad = adaptors();
    let bases = [
        Lx::Pat(0, 0),
        Lx::Pat(8, 1),
        Lx::Punct(lits(&[("a", 0), ("ab", 2), ("aab", 4)])),
        Lx::Const(lits(&[("ab", 1), (" ", 3), ("abab", 0)])),
    ];
    let ctor = Lo::plain();
    let fluent = Lo { fluent: true, ..Lo::plain() };
    let texts = bytes(&[b"a", b"b", b" "], tier.pick(4, 5));
    let depth = tier.pick(3, 4);
    let mut level: Vec<Lx> = bases.to_vec();
    for d in 0..=depth {
        for l in &level {
            if w.stop() {
                return;
            }
            if !w.next() {
                continue;
            }
            let short: Vec<Vec<u8>> = texts.iter().filter(|t| t.len() <= 4).cloned().collect();
            let t: &[Vec<u8>] = if d == 4 { &short } else { &texts };
            let m = Machine::one(vec![l.clone(), Lx::Pat(5, 50)]);
            if !run_machine(w, &m, &ctor, t) {
                continue;
            }
            if d <= 2 {
                if !run_machine(w, &m, &fluent, t) || !direct(w, l, &ctor, t) || !direct(w, l, &fluent, t) {
                    continue;
                }
                let m = Machine {
                    states: vec![(1, vec![Lx::Pat(3, 9), l.clone(), Lx::Pat(5, 50)]), (2, vec![l.clone(), Lx::Pat(5, 51)])],
                    single: false,
                };
                run_machine(w, &m, &ctor, t);
            }
        }
        if d < depth {
            level = level.iter().flat_map(|l| ad.iter().map(move |a| a(l.clone()))).collect();
        }
    }
    // gates and mappings deep inside long inputs
    let mut long: Vec<Vec<u8>> = vec![];
    for k in super::suite::LONG {
        for u in [&b"ab"[..], b"a", b"a b", b"aab"] {
            long.push(u.repeat(*k));
        }
    }
    for a in &ad {
        for b in &ad {
            for base in &bases {
                if w.next() {
                    run_machine(w, &Machine::one(vec![a(b(base.clone())), Lx::Pat(5, 50)]), &ctor, &long);
                }
            }
        }
    }
    // large mappings
    for n in [1usize, 2, 8, 16, 17, 33, 64, 100, 200, 257, 520, 1030] {
        for rev in [false, true] {
            if !w.next() {
                continue;
            }
            let mut v: Vec<(String, i8)> = (0..n).map(|i| ("a".repeat(i + 1), (i % 100) as i8)).collect();
            v.push(("\u{e9}".into(), 101));
            v.push(("\u{e9}\u{e9}".into(), 102));
            if rev {
                v.reverse();
            }
            let t: Vec<Vec<u8>> = (0..n + 3).map(|k| "a".repeat(k).into_bytes()).chain((0..4).map(|k| "\u{e9}".repeat(k).into_bytes())).collect();
            for base in [Lx::Pat(0, 110), Lx::Pat(12, 111), Lx::Pat(10, 112)] {
                let m = Machine::one(vec![Lx::Map(Box::new(base), v.clone()), Lx::Pat(12, 120)]);
                run_machine(w, &m, &ctor, &t);
            }
        }
    }
    // long keys, and matches a little shorter, longer and different near the end
    for n in [63usize, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4096, 65_535, 65_536, 65_537] {
        for two in [false, true] {
            if !w.next() {
                continue;
            }
            let mut v = vec![("a".repeat(n), 20i8)];
            if two {
                v.push((format!("{}b", "a".repeat(n - 1)), 21));
                v.push(("a".repeat(n + 1), 22));
                v.push((format!("{}ba", "a".repeat(n - 1)), 23));
            }
            let mut t: Vec<Vec<u8>> = vec![];
            for k in [1, n - 1, n, n + 1, n + 2, 2 * n] {
                t.push(b"a".repeat(k));
                t.push([&b"a".repeat(k)[..], b"b"].concat());
                t.push([&b"a".repeat(k)[..], b"ba b"].concat());
            }
            for base in [Lx::Pat(0, 110), Lx::Pat(12, 111), Lx::Pat(10, 112), Lx::Const(v.clone())] {
                let m = Machine::one(vec![Lx::Map(Box::new(base), v.clone()), Lx::Pat(5, 120)]);
                run_machine(w, &m, &ctor, &t);
            }
        }
    }
    // keys that differ in blanks, case or special characters only
    let keys: Vec<String> = ["a", " a", "a ", "A", "\u{feff}a", "\u{feff}", "\r\n", "\n", "\0", "\0a", "\t", " ", "\u{2028}"].iter().map(|s| s.to_string()).collect();
    let mut t: Vec<Vec<u8>> = vec![];
    for a in &keys {
        for b in &keys {
            t.push(format!("{}{}", a, b).into_bytes());
        }
    }
    t.extend(keys.iter().map(|k| k.clone().into_bytes()));
    for i in 0..keys.len() {
        for j in 0..keys.len() {
            if w.next() {
                let mut v = vec![(keys[i].clone(), 20), (keys[j].clone(), 21)];
                v.truncate(if i == j { 1 } else { 2 });
                for base in [Lx::Pat(14, 110), Lx::Pat(5, 111), Lx::Const(keys.iter().map(|k| (k.clone(), 2)).collect())] {
                    let m = Machine::one(vec![Lx::Map(Box::new(base), v.clone()), Lx::Pat(5, 120)]);
                    run_machine(w, &m, &ctor, &t);
                }
            }
        }
    }
    // keys given later: every sequence of three distinct keys out of eight, split at every place
    let keys = ["a", "b", "ab", "aa", "aab", " ", "", "abab"];
    let t = bytes(&[b"a", b"b", b" "], tier.pick(3, 4));
    for i in 0..512usize {
        let k = [i / 64, i / 8 % 8, i % 8];
        if k[0] == k[1] || k[1] == k[2] || k[0] == k[2] || !w.next() {
            continue;
        }
        let v: Vec<(String, i8)> = k.iter().enumerate().map(|(j, x)| (keys[*x].to_string(), 20 + j as i8)).collect();
        for n in 0..3 {
            for how in [1, 2] {
                for fluent in [false, true] {
                    let o = Lo { later: (how, n), fluent, ..Lo::plain() };
                    for base in &bases {
                        let m = Machine::one(vec![Lx::Map(Box::new(base.clone()), v.clone()), Lx::Pat(5, 50)]);
                        if !run_machine(w, &m, &o, &t) {
                            return;
                        }
                    }
                }
            }
        }
    }
    // many keys, a few at a time, by growing and by falling length
    for n in [20usize, 65, 130, 257] {
        for rev in [false, true] {
            for at in [0, 1, n / 2, n - 1] {
                if !w.next() {
                    continue;
                }
                let mut v: Vec<(String, i8)> = (0..n).map(|i| ("a".repeat(i + 1), (i % 100) as i8)).collect();
                if rev {
                    v.reverse();
                }
                let t: Vec<Vec<u8>> = (0..n + 2).map(|k| "a".repeat(k).into_bytes()).collect();
                let m = Machine::one(vec![Lx::Map(Box::new(Lx::Pat(0, 110)), v), Lx::Pat(12, 120)]);
                for how in [1, 2] {
                    run_machine(w, &m, &Lo { later: (how, at), ..Lo::plain() }, &t);
                }
            }
        }
    }
    // duplicate keys are refused
    if w.next() {
        for v in [vec![("a", 1), ("a", 2)], vec![("a", 1), ("b", 1), ("a", 1)], vec![("", 1), ("", 2)]] {
            let l = Lx::Map(Box::new(Lx::Pat(0, 0)), lits(&v));
            let later = |n, how| Lo { later: (how, n), ..Lo::plain() };
            for o in [&ctor, &fluent, &later(0, 1), &later(1, 1), &later(1, 2), &later(2, 2), &later(0, 2)] {
                w.traces += 1;
                if !matches!(guarded(|| real(&l, o).is_err()), Ok(true)) {
                    w.viol("duplicate-key", format!("a mapping with a duplicate key is accepted: {:?}", v));
                }
            }
        }
    }
}
