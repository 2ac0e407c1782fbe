//! C04: state-switching tokenization is a pushdown tokenizer.
use crate::engine::*;
use crate::lexm::*;

pub const PROP: Prop = Prop {
    id: "C04",
    run,
    space: "every pushdown machine with 2 states and 2 one-letter lexemes per state under every assignment of the 13 actions (none, \
no-op, pop, push, switch, each with and without discard) on every text of length <= 6 (thorough 8); machines with 3 states, \
three lexemes in one state, nested and closure-driven mixins, mapped tokens, every order of registration and numbering of the \
states; plain tokenizers with state actions; stacks up to 300 deep; tokens, failure offset and absence of panics compared with \
a reference pushdown tokenizer; inputs of thousands of tokens per state, stacks thousands deep, up to 250 states, up to 200 actions in one mixin and in as many mixins around one another",
    assumptions: &["only registered states are pushed", "each state is registered once", "one action per token in a mixin"],
};

/// `k` of the action alphabet over `states`; `None`: no mixin at all
fn actions(states: &[u8]) -> Vec<Option<Act>> {
    let mut v = vec![None];
    for d in [false, true] {
        v.push(Some(Act::No(d)));
        v.push(Some(Act::Pop(d)));
        for s in states {
            v.push(Some(Act::Push(*s, d)));
            v.push(Some(Act::Switch(*s, d)));
        }
    }
    v
}
/// realise the action by a table mixin, a closure mixin, or a mixin around a mapper
fn with(base: Lx, tok: i8, a: Option<Act>, how: usize) -> Lx {
    match a {
        None => base,
        Some(a) => match how % 3 {
            0 => Lx::Mix(Box::new(base), vec![(tok, a), (tok.wrapping_add(1), Act::Pop(true))]),
            1 => Lx::TMix(Box::new(base), Fx::Always, a),
            _ => Lx::Mix(Box::new(Lx::TMap(Box::new(base), Fx::Always, tok + 40)), vec![(tok, Act::Pop(true)), (tok + 40, a)]),
        },
    }
}
/// lexeme for letter a (0) or b (1), token identifies state and letter
fn letter(state: usize, c: usize, a: Option<Act>, how: usize) -> Lx {
    let t = (state * 8 + c * 2) as i8;
    with(Lx::Punct(lits(&[(["a", "b", "c"][c], t)])), t, a, how)
}

fn run(w: &mut W, tier: Tier) {
    let o = Lo::plain();
    let ab = bytes(&[b"a", b"b"], tier.pick(6, 8));
    // two states, two letters
    let acts = actions(&[0, 1]);
    let n = acts.len();
    for code in 0..n.pow(4) {
        if w.stop() {
            return;
        }
        if !w.next() {
            continue;
        }
        let k = [code % n, code / n % n, code / n / n % n, code / n / n / n];
        let how = code;
        let m = Machine {
            states: vec![
                (0, vec![letter(0, 0, acts[k[0]], how), letter(0, 1, acts[k[1]], how)]),
                (1, vec![letter(1, 0, acts[k[2]], how / 3), letter(1, 1, acts[k[3]], how + 1)]),
            ],
            single: false,
        };
        run_machine(w, &m, &o, &ab);
    }
    // discarded lexemes are followed by others at the same offset
    let mid = bytes(&[b"a", b"b"], tier.pick(5, 7));
    for code in 0..n.pow(4) {
        if w.stop() {
            return;
        }
        if !w.next() {
            continue;
        }
        let k = [code % n, code / n % n, code / n / n % n, code / n / n / n];
        let m = Machine {
            states: vec![
                (0, vec![letter(0, 0, acts[k[0]], code), with(Lx::Pat(1, 4), 4, acts[k[1]], code / 3), Lx::Pat(3, 6)]),
                (1, vec![letter(1, 0, acts[k[2]], code / 2), with(Lx::Pat(0, 12), 12, acts[k[3]], code / 5), Lx::Pat(1, 14)]),
            ],
            single: false,
        };
        run_machine(w, &m, &o, &mid);
    }
    // three states, in every order of registration and numbering
    let orders: [[usize; 3]; 6] = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]];
    let a3 = actions(&[0, 1, 2]);
    let n3 = a3.len();
    let nums = [[0u8, 1, 2], [7, 3, 5], [9, 200, 4]];
    let t3 = bytes(&[b"a", b"b"], 5);
    let lim = n3.pow(3) * 6 * tier.pick(1, 3);
    for code in 0..lim {
        if w.stop() {
            return;
        }
        if !w.next() {
            continue;
        }
        let ord = orders[code % 6];
        let c = code / 6;
        let num = nums[if lim > n3.pow(3) * 6 { c / n3.pow(3) % 3 } else { c % 3 }];
        let ren = |a: Option<Act>| {
            a.map(|a| match a {
                Act::Push(s, d) => Act::Push(num[s as usize], d),
                Act::Switch(s, d) => Act::Switch(num[s as usize], d),
                a => a,
            })
        };
        let k = [c % n3, c / n3 % n3, c / n3 / n3 % n3];
        let mut st: Vec<(u8, Vec<Lx>)> = (0..3usize)
            .map(|s| {
                (
                    num[s],
                    vec![
                        letter(s, 0, ren(a3[k[s]]), c + s),
                        letter(s, 1, Some(Act::Push(num[(s + 1) % 3], false)), c),
                    ],
                )
            })
            .collect();
        // the default state is the first of the order
        st = ord.iter().map(|i| st[*i].clone()).collect();
        run_machine(w, &Machine { states: st, single: false }, &o, &t3);
    }
    // plain tokenizers: the stack is kept, the lexemes never change
    for code in 0..n.pow(3) {
        if !w.next() {
            continue;
        }
        let k = [code % n, code / n % n, code / n / n];
        let m = Machine::one(vec![
            letter(0, 0, acts[k[0]], code),
            with(Lx::Pat(1, 8), 8, acts[k[1]], code / 3),
            with(Lx::Pat(0, 12), 12, acts[k[2]], code / 2),
        ]);
        run_machine(w, &m, &o, &mid);
    }
    // mixins around mixins: each applies once, from the inside out
    for code in 0..n.pow(3) {
        if w.stop() {
            return;
        }
        if !w.next() {
            continue;
        }
        let k = [code % n, code / n % n, code / n / n];
        let inner = with(Lx::Punct(lits(&[("a", 2)])), 2, acts[k[0]], 0);
        let outer = match acts[k[1]] {
            None => inner,
            Some(a) if code % 2 == 0 => Lx::Mix(Box::new(Lx::Map(Box::new(inner), lits(&[("a", 5)]))), vec![(2, Act::Pop(true)), (5, a)]),
            Some(a) => Lx::TMix(Box::new(inner), Fx::OddCount, a),
        };
        let gate = Lx::Mid(Box::new(outer), if code % 3 == 0 { Fx::LastEven } else { Fx::Always });
        let m = Machine {
            states: vec![
                (0, vec![gate.clone(), Lx::Pat(1, 20), letter(0, 1, Some(Act::Push(1, false)), 1)]),
                (1, vec![letter(1, 1, acts[k[2]], code / 7), gate, Lx::Pat(0, 30)]),
            ],
            single: false,
        };
        run_machine(w, &m, &o, &mid);
    }
    // closures that decide by what precedes and follows the token, gates around state changes
    let fxs = [Fx::NextB, Fx::LastEven, Fx::OddCount, Fx::Bit(3), Fx::HasB, Fx::IsZero];
    for code in 0..n * n * fxs.len() * fxs.len() {
        if w.stop() {
            return;
        }
        if !w.next() {
            continue;
        }
        let (a, b) = (acts[code % n], acts[code / n % n]);
        let (f, g) = (fxs[code / n / n % fxs.len()], fxs[code / n / n / fxs.len()]);
        let l = |c: usize, a: Option<Act>, f: Fx| {
            let x = letter(0, c, None, 0);
            a.map_or(x.clone(), |a| Lx::TMix(Box::new(x), f, a))
        };
        let m = Machine {
            states: vec![
                (0, vec![l(0, a, f), l(1, b, g), Lx::Pat(1, 40)]),
                (1, vec![Lx::Mid(Box::new(letter(1, 0, b, 0)), f), Lx::Mid(Box::new(letter(1, 1, a, 1)), g), Lx::Pat(1, 41)]),
            ],
            single: false,
        };
        run_machine(w, &m, &o, &mid);
    }
    // tables of actions over many tokens: the right entry is found
    for shift in 0..6usize {
        for na in 2..=7usize {
            if !w.next() {
                continue;
            }
            let toks: Vec<i8> = (0..na).map(|i| [5i8, -3, 40, 0, 17, 100, -90][(i + shift) % 7]).collect();
            let words = ["a", "b", "c", "aa", "bb", "cc", "ab"];
            let set: Vec<(String, i8)> = (0..na).map(|i| (words[i].to_string(), toks[i])).collect();
            for kind in 0..3usize {
                let table: Vec<(i8, Act)> = toks
                    .iter()
                    .enumerate()
                    .filter(|(i, _)| kind != 2 || i % 2 == 0)
                    .map(|(i, t)| (*t, if (i + kind) % 3 == 0 { Act::Push(1, false) } else if (i + kind) % 3 == 1 { Act::Pop(false) } else { Act::Switch(1, false) }))
                    .collect();
                let l = Lx::Mix(Box::new(Lx::Punct(set.clone())), table);
                let m = Machine { states: vec![(0, vec![l.clone()]), (1, vec![Lx::Const(lits(&[("a", 60)])), l])], single: false };
                run_machine(w, &m, &o, &bytes(&[b"a", b"b", b"c"], 5));
            }
        }
    }
    // many actions, listed in several orders
    for na in [8usize, 9, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200] {
        for step in [1usize, 7, 119] {
            for one in [true, false] {
                if !w.next() {
                    continue;
                }
                let token = |i: usize| ((i * step * 2 + i * (step == 1) as usize) % 241) as i32 - 120;
                let toks: Vec<i8> = (0..na).map(|i| token(i) as i8).collect();
                let word = |i: usize| [[b'a', b'b', b'c'][i % 3], [b'a', b'b', b'c'][i / 3 % 3], [b'a', b'b', b'c'][i / 9 % 3], [b'a', b'b', b'c'][i / 27 % 3], [b'a', b'b', b'c'][i / 81]].to_vec();
                let set: Vec<(String, i8)> = (0..na).map(|i| (String::from_utf8(word(i)).unwrap(), toks[i])).collect();
                let mut table: Vec<(i8, Act)> = toks
                    .iter()
                    .enumerate()
                    .map(|(i, t)| (*t, if i % 3 == 0 { Act::Push(1, false) } else if i % 3 == 1 { Act::Pop(false) } else { Act::Switch(1, i % 2 == 0) }))
                    .collect();
                if step == 7 {
                    table.reverse();
                }
                // one table, or one for every entry
                let l = match one {
                    true => Lx::Mix(Box::new(Lx::Punct(set.clone())), table),
                    false => table.into_iter().fold(Lx::Punct(set.clone()), |l, x| Lx::Mix(Box::new(l), vec![x])),
                };
                let m = Machine { states: vec![(0, vec![l]), (1, vec![Lx::Punct(lits(&[("a", 60), ("b", 61), ("c", 62)]))])], single: false };
                let mut t: Vec<Vec<u8>> = vec![];
                for i in 0..na + 2 {
                    t.push(word(i));
                    t.push([word(i), word(i + 1)].concat());
                    t.push([word(0), word(i)].concat());
                }
                if toks.iter().collect::<std::collections::HashSet<_>>().len() == na {
                    w.count("large tables of actions", 1);
                    run_machine(w, &m, &o, &t);
                }
            }
        }
    }
    // deep stacks
    let mut deep: Vec<Vec<u8>> = vec![];
    for k in super::suite::LONG {
        for d in [0usize, 1, 2] {
            deep.push([b"a".repeat(*k), b"b".repeat(k.saturating_sub(d))].concat());
            deep.push([b"a".repeat(*k), b"b".repeat(k + d)].concat());
        }
        deep.push([b"ab".repeat(*k), b"bb".to_vec()].concat());
        deep.push([b"aab".repeat(*k), b"b".repeat(*k), b"a".to_vec()].concat());
    }
    for k in super::suite::HUGE {
        deep.push([b"a".repeat(*k), b"b".repeat(*k)].concat());
        deep.push([b"a".repeat(*k), b"b".repeat(k + 1), b"a".to_vec()].concat());
    }
    for code in 0..n.pow(3) {
        if w.stop() {
            return;
        }
        if !w.next() {
            continue;
        }
        let k = [code % n, code / n % n, code / n / n];
        let m = Machine {
            states: vec![
                (0, vec![letter(0, 0, Some(Act::Push(1, false)), code), letter(0, 1, acts[k[0]], code)]),
                (1, vec![letter(1, 0, acts[k[1]], code / 3), letter(1, 1, acts[k[2]], code / 2)]),
            ],
            single: false,
        };
        run_machine(w, &m, &o, &deep);
    }
    // many states
    for ns in [4usize, 5, 8, 16, 17, 33, 40, 64, 65, 127, 128, 129, 200, 250] {
        for step in [1usize, 3, 7] {
            if !w.next() {
                continue;
            }
            let id = |s: usize| ((s * step * 6 + 11) % 251) as u8;
            let st: Vec<(u8, Vec<Lx>)> = (0..ns)
                .map(|s| {
                    let t = (s % 100) as i8;
                    (
                        id(s),
                        vec![
                            Lx::TMix(Box::new(Lx::Punct(lits(&[("a", t)]))), Fx::Always, Act::Push(id((s + 1) % ns), false)),
                            Lx::TMix(Box::new(Lx::Punct(lits(&[("b", t)]))), Fx::Always, Act::Pop(false)),
                            Lx::TMix(Box::new(Lx::Punct(lits(&[("c", t)]))), Fx::Always, Act::Switch(id((s * 2 + 1) % ns), false)),
                        ],
                    )
                })
                .collect();
            let ids: std::collections::HashSet<u8> = st.iter().map(|s| s.0).collect();
            if ids.len() < ns {
                continue;
            }
            let mut t = bytes(&[b"a", b"b", b"c"], 6);
            t.extend(deep.iter().cloned());
            t.push(b"aaacac".repeat(20));
            t.push(b"acb".repeat(60));
            run_machine(w, &Machine { states: st, single: false }, &o, &t);
        }
    }
}
