//! C26: builds with and without debug assertions behave alike.
use super::common::*;
use super::suite::*;
use crate::engine::*;
use crate::gram::*;
use crate::lexm::*;
use crate::real::*;
use crate::refm::*;
use lang_pt::examples::json::{lexerless, tokenized};
use lang_pt::{Code, NodeImpl, TokenStream};
use std::fmt::{Debug, Write as _};
use std::io::{Read, Write as _};
use std::os::fd::{FromRawFd, OwnedFd};
use std::os::unix::net::UnixStream;
use std::path::PathBuf;
use std::process::{Child, Command, Stdio};

pub const PROP: Prop = Prop {
    id: "C26",
    run,
    space: "the library built twice, with debug assertions and overflow checks (as in development) and without (as a user's release \
build), by one program each that enumerates the same cases in lockstep: every grammar expression up to size 4 (thorough 5) over \
every symbol, text, tokens and raw regions, recursive and two-rule systems, unusable and unfinished grammars, memoization, \
validations, sets, patterns, empty rules, wide and long shapes, with and without log levels; lexeme adaptor stacks, state machines \
with every action, literal sets; the JSON parsers; positions, token streams and trees: construction verdicts and messages, trees, \
consumed lengths, error pointers, positions, kinds and validation messages, evaluations of memoized symbols, tokens and printed grammars are equal byte for byte. Thorough also runs the quick \
exploration of every other property (C01 - C25 without C19, whose subject exists in one build only) inside the second build",
    assumptions: &["the wording of panics is not compared, their presence is", "how an ordinary error words the offending token is not compared (development builds add the token's kind on purpose)", "functions that exist only in builds with debug assertions are not called"],
};

/// the observations of one case, hashed and, when asked for, kept
pub struct Rec {
    h: u64,
    keep: Option<String>,
    pub n: u64,
}
impl Rec {
    fn new(keep: bool) -> Rec {
        Rec { h: 0xcbf29ce484222325, keep: if keep { Some(String::new()) } else { None }, n: 0 }
    }
    fn line(&mut self, s: &str) {
        let _ = self.write_str(s);
        let _ = self.write_str("\n");
        self.n += 1;
    }
}
impl std::fmt::Write for Rec {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        for c in s.bytes() {
            self.h = (self.h ^ c as u64).wrapping_mul(0x100000001b3);
        }
        self.h = self.h.rotate_left(23);
        if let Some(k) = &mut self.keep {
            k.push_str(s);
        }
        Ok(())
    }
}

/// An error as a user acts on it. The library words the offending token in more detail in
/// development builds; what both say is where, what kind, and the text of a validation.
fn error(at: usize, m: &str) -> String {
    let n = ints(m);
    let lc = if n.len() < 2 { &n[..] } else { &n[n.len() - 2..] };
    let kind = if m.contains("!V") { m } else if m.to_lowercase().contains("end of file") { "end of file" } else { "unexpected" };
    format!("error at {} (line, column {:?}): {} {:?}", at, lc, kind, quoted(m))
}
/// the first text in double quotes, that is, the offending token
fn quoted(m: &str) -> Option<String> {
    let from = m.find('"')? + 1;
    let mut r = String::new();
    let mut esc = false;
    for c in m[from..].chars() {
        match c {
            '"' if !esc => return Some(r),
            _ => r.push(c),
        }
        esc = c == '\\' && !esc;
    }
    None
}

fn put<T: Debug>(r: &mut Rec, x: Result<T, String>) {
    match x {
        Ok(x) => r.line(&format!("{:?}", x)),
        Err(_) => r.line("PANIC"),
    }
}

fn grammar(r: &mut Rec, g: &Gram, o: &Opts, ins: &[Input]) {
    match make(g, o) {
        Made::Ready(b, p) => {
            // symbols whose evaluations memoization limits
            let memo: Vec<Id> = g.ops.iter().filter_map(|o| if let Op::Memo(x) = o { Some(*x) } else { None }).collect();
            for i in ins {
                let few = !memo.is_empty() && i.text.len() < 3000;
                if few {
                    EVALS.with(|e| {
                        let mut e = e.borrow_mut();
                        e.clear();
                        e.shrink_to(4096);
                    });
                    COUNTING.with(|c| c.set(true));
                }
                let x = parse(&p, i);
                if few {
                    COUNTING.with(|c| c.set(false));
                    let mut v: Vec<_> = EVALS.with(|e| e.borrow().iter().filter(|((id, m, _), _)| *m < 2 && memo.contains(id)).map(|(k, n)| (*k, *n)).collect());
                    v.sort();
                    r.line(&format!("evaluated {:?}", v));
                }
                let l = VLOG.with(|l| std::mem::take(&mut *l.borrow_mut()));
                match x {
                    Out::Panic(_) => r.line("PANIC"),
                    Out::Err(p, m) => r.line(&error(p, &m)),
                    x => r.line(&x.show()),
                }
                if !l.is_empty() {
                    r.line(&format!("validators {:?}", l));
                }
            }
            put(r, guarded(|| match &p {
                Parser::Text(p) => p.grammar().map_err(|_| ()),
                Parser::Tok(p) => p.grammar().map_err(|_| ()),
            }));
            put(r, guarded(|| match &p {
                Parser::Text(p) => p.validate().is_ok(),
                Parser::Tok(p) => p.validate().is_ok(),
            }));
            for n in &b.notes {
                r.line(n);
            }
        }
        Made::Rejected(e) => r.line(&format!("rejected: {}", e)),
        Made::Panic(_) => r.line("construction: PANIC"),
        Made::NoGraph => r.line("not expressible"),
    }
}

fn lexing(r: &mut Rec, m: &Machine, o: &Lo, texts: &[Vec<u8>]) {
    match guarded(|| m.real(o)) {
        Ok(Ok(t)) => {
            for x in texts {
                match tokenize(&*t, x) {
                    Err(_) => r.line("PANIC"),
                    Ok(Err((p, m))) => r.line(&error(p, &m)),
                    x => r.line(&show_out(&x)),
                }
            }
            put(r, guarded(|| t.build_grammar().map_err(|_| ())));
        }
        Ok(Err(e)) => r.line(&format!("rejected: {}", e)),
        Err(_) => r.line("construction: PANIC"),
    }
}

fn dump<N: NodeImpl>(r: &mut Rec, x: Result<Result<Vec<lang_pt::ASTNode<N>>, lang_pt::ParseError>, String>) {
    match x {
        Err(_) => r.line("PANIC"),
        Ok(Err(e)) => r.line(&error(e.pointer, &e.message)),
        Ok(Ok(v)) => r.line(&format!("{:?}", v)),
    }
}

type Run<'r> = &'r mut dyn FnMut(&mut W, &str, &dyn Fn(&mut Rec));

/// the cases, in the same order in both builds
fn cases(w: &mut W, tier: Tier, run: Run) {
    let n = tier.pick(4, 5);
    for text in [true, false] {
        let o = if text { Opts::text() } else { Opts::token() };
        let ins = if text { texts(&[b"a", b"b"], 3) } else { streams(&[0, 1, -1], 3) };
        let short = if text { texts(&[b"a", b"b"], 2) } else { streams(&[0, 1], 2) };
        let mut fam = |w: &mut W, f: &Fam, o: &Opts, ins: &[Input]| {
            f.each(w, &mut |w, r| {
                let g = Gram::system(&r, 0);
                run(w, &g.text, &|r| grammar(r, &g, o, ins));
            });
        };
        let mut sp = full(vec![a(), b(), Ex::T(1, false), Ex::Null, Ex::NullH, Ex::Eof(true), Ex::Unset(0), Ex::Unset(1), Ex::Unset(2)]);
        sp.un.extend([Un::Val(Vp::FailIfB), Un::Val(Vp::Fail), Un::Look]);
        fam(w, &Fam::one("one rule", sp.clone(), n), &o, &ins);
        for l in [Some(1), Some(4)] {
            let mut sp = full(vec![a(), b(), Ex::Null, Ex::Unset(1)]);
            sp.un.extend([Un::Ns(true), Un::St]);
            if !text {
                sp.un.retain(|u| *u != Un::Memo);
            }
            fam(w, &Fam::one("one rule, logged", sp, n - 1), &Opts { log: l, ..o.clone() }, &short);
        }
        if !text {
            let mut sp = full(vec![a(), b(), Ex::W(0, true), Ex::Null]);
            sp.un = vec![Un::List, Un::Opt, Un::Node, Un::LookV, Un::Ns(true), Un::Ns(false), Un::St];
            fam(w, &Fam::one("raw regions", sp, n), &o, &ins);
        }
        let mut v = vec![a(), set(&[(0, true), (1, false)]), set(&[(1, false), (3, true), (0, true)]), Ex::Eof(false), Ex::Cat(vec![]), Ex::Alt(vec![])];
        if text {
            v.extend([Ex::Re(0, true), Ex::Re(1, false), Ex::Re(2, true), Ex::Re(3, true), Ex::T(3, true)]);
        }
        fam(w, &Fam::one("patterns, sets, empty rules", full(v.clone()), n - 1), &o, &ins);
        if text {
            fam(w, &Fam::one("constant sets", full(v), n - 1), &Opts { const_set: true, ..o.clone() }, &ins);
        }
        if text {
            let odd = texts(&["\u{e9}".as_bytes(), "\u{e8}".as_bytes(), b"a", b"\xc3", "\u{65e5}".as_bytes(), b"\n"], 3);
            fam(w, &Fam::one("multi-byte and invalid text", full(odd_leaves()), n - 1), &o, &odd);
            fam(w, &Fam::one("special characters", full(special_leaves()), 2), &o, &texts(SPECIAL, 3));
        }
        let mut rec = full(vec![a(), b(), Ex::R(0), Ex::Unset(0)]);
        rec.ter = vec![];
        fam(w, &Fam::one("recursive", rec.clone(), n), &o, &ins);
        rec.leaves = vec![a(), b(), Ex::R(0), Ex::R(1)];
        rec.un = vec![Un::List, Un::Opt, Un::Memo];
        fam(w, &Fam::two("two rules", rec.clone(), 3, tier.pick(3, 4)), &o, &short);
        if text {
            long_terms(w, &|_| true, &mut |w, g, i| run(w, &g.text, &|r| grammar(r, g, &o, i)));
        }
        let abc = if text { texts(&[b"a", b"b", b"c"], 3) } else { streams(&[0, 1, 2, -1], 3) };
        ctx_fam(w, ctx_space(), 3, &|_| true, &abc, &mut |w, g, i| run(w, &g.text, &|r| grammar(r, g, &o, i)));
        shapes(
            w,
            &|_| true,
            &mut |w, g, i| run(w, &g.text, &|r| grammar(r, g, &o, i)),
            &|v| if text { Input::text(&v.iter().flat_map(|c| lit(*c as u8).bytes()).collect::<Vec<u8>>()) } else { tokens(v) },
        );
        // a visited case that the reference sets aside is observed by `shapes` as nothing
    }
    // lexers
    let ad = super::c03::adaptors();
    let bs = bytes(&[b"a", b"b", b" "], 4);
    let fluent = Lo { fluent: true, ..Lo::plain() };
    let logged = Lo { log: Some(4), ..Lo::plain() };
    let bases = [Lx::Pat(0, 0), Lx::Pat(8, 1), Lx::Punct(lits(&[("a", 0), ("ab", 2), ("aab", 4)])), Lx::Const(lits(&[("ab", 1), (" ", 3), ("abab", 0)]))];
    let mut acts: Vec<Act> = vec![];
    for d in [false, true] {
        acts.extend([Act::No(d), Act::Pop(d), Act::Push(1, d), Act::Push(2, d), Act::Switch(1, d), Act::Switch(2, d)]);
    }
    let mut stacks = vec![];
    for b in &bases {
        for x in &ad {
            stacks.push(x(b.clone()));
            for y in &ad {
                stacks.push(y(x(b.clone())));
            }
        }
        for x in &acts {
            let m = |e: Lx| Lx::Mix(Box::new(e), vec![(0, *x), (1, *x), (2, *x)]);
            let t = |e: Lx| Lx::TMix(Box::new(e), Fx::Bit(7), *x);
            stacks.push(m(b.clone()));
            stacks.push(t(b.clone()));
            for y in &ad {
                stacks.push(m(y(b.clone())));
                stacks.push(y(t(b.clone())));
            }
        }
    }
    for l in &stacks {
        if w.next() {
            run(w, &format!("{:?}", l), &|r| {
                let one = Machine::one(vec![l.clone(), Lx::Pat(5, 50)]);
                let two = Machine { states: vec![(1, vec![l.clone(), Lx::Pat(5, 50)]), (2, vec![Lx::Pat(3, 9), l.clone(), Lx::Pat(12, 51)])], single: false };
                for m in [one, two] {
                    for o in [&fluent, &logged] {
                        lexing(r, &m, o, &bs);
                    }
                }
            });
        }
    }
    // two letters with an action each, in two states
    let act = |c: usize, x: &Act| Lx::TMix(Box::new(Lx::Pat([1, 3][c], c as i8)), Fx::Always, *x);
    for x in &acts {
        for y in &acts {
            for z in &acts {
                if w.next() {
                    let m = Machine { states: vec![(1, vec![Lx::Pat(3, 3), act(0, x)]), (2, vec![act(1, y), act(0, z), Lx::Pat(4, 7)])], single: false };
                    run(w, &m.to_string(), &|r| {
                        for o in [&fluent, &logged] {
                            lexing(r, &m, o, &bs);
                        }
                    });
                }
            }
        }
    }
    let words = ["", "a", "b", "ab", "ba", "aa", "aab", "abab", "a\u{e9}", "\u{e9}", " "];
    for s in strings(words.len() as u8, 3) {
        if w.next() {
            let v: Vec<(String, i8)> = s.iter().enumerate().map(|(i, k)| (words[*k as usize].to_string(), i as i8)).collect();
            let tx = bytes(&[b"a", b"b", "\u{e9}".as_bytes()], 4);
            run(w, &format!("{:?}", v), &|r| {
                for l in [Lx::Punct(v.clone()), Lx::Const(v.clone()), Lx::Map(Box::new(Lx::Pat(0, 9)), v.clone())] {
                    lexing(r, &Machine::one(vec![l, Lx::Pat(12, 50)]), &logged, &tx);
                }
            });
        }
    }
    // long tokens and long texts
    let mut long: Vec<Vec<u8>> = vec![];
    for k in LONG {
        for (v, t) in [(&b"a"[..], &b""[..]), (b"ab", b"a"), (b" ", b"b"), ("\u{e9}".as_bytes(), b"")] {
            long.push([&v.repeat(*k)[..], t].concat());
        }
    }
    for k in 0..PATS.len() as u8 {
        for f in 0..=ad.len() {
            if w.next() {
                let l = Lx::Pat(k, 1);
                let l = if f == 0 { l } else { ad[f - 1](l) };
                run(w, &format!("long texts {:?}", l), &|r| lexing(r, &Machine::one(vec![l.clone(), Lx::Pat(5, 50)]), &fluent, &long));
            }
        }
    }
    // the JSON parsers
    let tok = guarded(|| tokenized::json_grammar());
    let txt = guarded(|| lexerless::json_lexerless_grammar());
    let chars: [&[u8]; 14] = [b"\"", b"\\", b" ", b"\n", b"1", b".", b"e", b"-", b"[", b"]", b",", b"{\"a\":", b"}", b"true"];
    for t in bytes(&chars, tier.pick(3, 4)) {
        if w.next() {
            run(w, &format!("JSON {:?}", String::from_utf8_lossy(&t)), &|r| {
                if let Ok(p) = &tok {
                    dump(r, guarded(|| p.parse(&t)));
                    dump(r, guarded(|| p.tokenize_n_parse(&t).map(|x| x.1)));
                    dump(r, guarded(|| {
                        let c = Code::new(&t);
                        let l = p.tokenize(&c)?;
                        p.parse_stream(&c, TokenStream::from(&l))
                    }));
                }
                if let Ok(p) = &txt {
                    dump(r, guarded(|| p.parse(&t)));
                }
                r.line(&format!("{} {}", tok.is_ok(), txt.is_ok()));
            });
        }
    }
    if w.next() {
        run(w, "JSON grammars", &|r| {
            if let (Ok(p), Ok(q)) = (&tok, &txt) {
                put(r, guarded(|| p.grammar().map_err(|_| ())));
                put(r, guarded(|| q.grammar().map_err(|_| ())));
            }
        });
    }
    // positions, streams, trees: the answers of the second build against the same lists
    for t in bytes(&[b"x", b"\n", b"\r", "\u{e9}".as_bytes()], tier.pick(5, 7)) {
        if w.next() {
            run(w, &format!("positions in {:?}", String::from_utf8_lossy(&t)), &|r| {
                let c = Code::new(&t);
                for o in 0..=t.len() {
                    put(r, guarded(|| format!("{:?}", c.obtain_position(o))));
                }
                put(r, guarded(|| c.obtain_line_breaks().clone()));
            });
        }
    }
    for s in strings(4, tier.pick(5, 7)) {
        if w.next() {
            run(w, &format!("stream {:?}", s), &|r| {
                let mut v = W::bare(0, 1, None);
                super::c22::case::<i8>(&mut v, &s, true, true);
                super::c22::case::<i8>(&mut v, &s, false, true);
                r.line(&format!("{:?}", v.found()));
            });
        }
    }
    let paths: Vec<Vec<u16>> = strings(3, 2).into_iter().map(|v| v.into_iter().map(|x| x as u16).collect()).collect();
    for k in 1..=tier.pick(5usize, 6) {
        for s in super::c21::shapes(k) {
            for code in 0..3usize.pow(k as u32) {
                if w.next() {
                    run(w, &format!("tree {:?} {}", s, code), &|r| {
                        let t = super::c21::tree(&s, &|i| (code / 3usize.pow(i as u32) % 3) as u16);
                        put(r, guarded(|| super::c21::check(&t, &[0, 1, 2, 9], &paths, true)));
                        put(r, guarded(|| format!("{}{:?}", t, t)));
                    });
                }
            }
        }
    }
}

/// The side that runs in the other build: one 8-byte hash per case on descriptor 0, or the
/// observations of one case as text.
pub fn digest(tier: Tier, tid: usize, n: usize, only: Option<u64>) -> i32 {
    let t = std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
        // descriptor 0 is the socket the parent gave us
        let mut s = UnixStream::from(unsafe { OwnedFd::from_raw_fd(0) });
        let mut w = W::bare(tid, n, only);
        cases(&mut w, tier, &mut |_, _, f| {
            let mut r = Rec::new(only.is_some());
            f(&mut r);
            let sent = match &r.keep {
                Some(t) => s.write_all(t.as_bytes()),
                None => s.write_all(&r.h.to_le_bytes()),
            };
            if sent.is_err() {
                std::process::exit(0);
            }
        });
        if only.is_none() {
            let _ = s.write_all(&END.to_le_bytes());
        }
    });
    match t.map(|t| t.join()) {
        Ok(Ok(())) => 0,
        _ => 4,
    }
}
const END: u64 = u64::MAX;

fn plain() -> PathBuf {
    let exe = std::env::current_exe().unwrap();
    exe.parent().and_then(|p| p.parent()).unwrap().join("plain").join("lpmc")
}
fn start(tier: Tier, tid: usize, n: usize, only: Option<u64>) -> std::io::Result<(Child, UnixStream)> {
    let (ours, theirs) = UnixStream::pair()?;
    let mut c = Command::new(plain());
    c.arg("digest").arg(tier.pick("quick", "thorough")).arg(tid.to_string()).arg(n.to_string());
    if let Some(i) = only {
        c.arg(i.to_string());
    }
    let c = c.stdin(Stdio::from(OwnedFd::from(theirs))).stdout(Stdio::null()).stderr(Stdio::null()).spawn()?;
    Ok((c, ours))
}

/// the first lines in which the two builds differ
fn explain(w: &W, tier: Tier, f: &dyn Fn(&mut Rec)) -> String {
    let mut r = Rec::new(true);
    f(&mut r);
    let here = r.keep.unwrap();
    let mut there = vec![];
    let mut st = String::new();
    match start(tier, 0, 1, Some(w.current())) {
        Ok((mut c, mut s)) => {
            let _ = s.read_to_end(&mut there);
            if let Ok(x) = c.wait() {
                if !x.success() {
                    st = format!("\nthe build without debug assertions ends with {:?}", x);
                }
            }
        }
        Err(e) => st = format!("\n{}", e),
    }
    let there = String::from_utf8_lossy(&there).into_owned();
    let (a, b): (Vec<&str>, Vec<&str>) = (here.lines().collect(), there.lines().collect());
    let k = (0..a.len().max(b.len())).find(|i| a.get(*i) != b.get(*i)).unwrap_or(0);
    format!(
        "observation {} of {}\nwith debug assertions: {}\nwithout: {}{}",
        k,
        a.len(),
        a.get(k).unwrap_or(&"(nothing)"),
        b.get(k).unwrap_or(&"(nothing)"),
        st
    )
}

fn run(w: &mut W, tier: Tier) {
    let (mut child, mut sock) = match start(tier, w.tid, w.n, None) {
        Ok(x) => x,
        Err(e) => {
            w.viol("no-second-build", format!("{} cannot be started: {}", plain().display(), e));
            return;
        }
    };
    let mut lost = false;
    let single = w.only().is_some();
    cases(w, tier, &mut |w, label, f| {
        if lost {
            return;
        }
        let mut r = Rec::new(false);
        f(&mut r);
        w.states += 1;
        w.transitions += r.n;
        w.traces += 2 * r.n;
        w.count("observations compared", r.n);
        w.sample(|| format!("{}: {} observations", label, r.n));
        if single {
            let d = explain(w, tier, f);
            if !d.contains("observation 0 of") || d.contains("ends with") || !same(&d) {
                w.viol("builds-differ", format!("{}\n{}", label, d));
            }
            return;
        }
        let mut h = [0u8; 8];
        if sock.read_exact(&mut h).is_err() {
            lost = true;
            let d = explain(w, tier, f);
            w.viol("second-build-dies", format!("{}\n{}", label, d));
        } else if u64::from_le_bytes(h) != r.h {
            let d = explain(w, tier, f);
            w.viol("builds-differ", format!("{}\n{}", label, d));
        }
    });
    if !single && !lost && !w.stop() {
        let mut h = [0u8; 8];
        if sock.read_exact(&mut h).is_err() || u64::from_le_bytes(h) != END {
            w.viol("cases-differ", "the two builds do not enumerate the same cases");
        }
    }
    drop(sock);
    let _ = child.kill();
    let _ = child.wait();
    if tier == Tier::Thorough {
        others(w);
    }
}
fn same(d: &str) -> bool {
    let get = |p: &str| d.lines().find_map(|l| l.strip_prefix(p)).unwrap_or("").to_string();
    get("with debug assertions: ") == get("without: ")
}

/// every other property, explored by the second build
fn others(w: &mut W) {
    for p in super::ALL {
        if ["C19", "C26"].contains(&p.id) {
            continue;
        }
        // one after the other: each uses all processors
        if !w.next() {
            continue;
        }
        let dir = std::env::temp_dir().join(format!("lpmc-{}-{}", std::process::id(), p.id));
        match foreign(&plain(), p.id, Tier::Quick, &dir) {
            Err(e) => w.viol("other-dies", format!("{} explored without debug assertions: {}", p.id, e)),
            Ok((v, n)) => {
                w.traces += n;
                w.count(&format!("executions in the second build: {}", p.id), n);
                for x in v.iter().filter(|x| !(p.id == "C16" && x.key == "raw-region-reentry")).take(3) {
                    w.viol(format!("{}/{}", p.id, x.key), format!("{} explored without debug assertions, case {}: [{}] {}", p.id, x.idx, x.key, x.desc));
                }
            }
        }
    }
}
