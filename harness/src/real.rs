//! Realisation of a `Gram` as production objects of the library, each wrapped in a
//! fuel-limited observer so that non-termination shows up as a finding, not as a dead run.
use crate::gram::*;
use lang_pt::production::*;
use lang_pt::{
    ASTNode, Cache, CacheKey, Code, FltrPtr, IProduction, ImplementationError, Log, ParsedResult, ProductionError,
    TokenPtr, TokenStream,
};
use std::cell::{Cell, RefCell};
use std::collections::{HashMap, HashSet};
use std::fmt;
use std::rc::Rc;

pub type TN = u16;
pub type TL = i8;
pub type P = Rc<dyn IProduction<Node = TN, Token = TL>>;

pub const EOF: TL = i8::MAX;
pub fn tok(k: u8) -> TL {
    k as i8
}
pub fn wtok(k: u8) -> TL {
    -(k as i8) - 1
}

thread_local! {
    pub static STEPS: Cell<u64> = const { Cell::new(0) };
    pub static DEPTH: Cell<u32> = const { Cell::new(0) };
    pub static MAXSTEPS: Cell<u64> = const { Cell::new(10_000_000) };
    pub static MAXDEPTH: Cell<u32> = const { Cell::new(36_000) };
    /// where the outermost symbol stopped
    pub static CONSUMED: Cell<Option<usize>> = const { Cell::new(None) };
    pub static VLOG: RefCell<Vec<(usize, u64)>> = const { RefCell::new(Vec::new()) };
    pub static COUNTING: Cell<bool> = const { Cell::new(false) };
    pub static EVALS: RefCell<HashMap<(usize, u8, usize), u32>> = RefCell::new(HashMap::new());
}
/// limits for an input of `n` bytes or tokens
pub fn set_limits(n: usize) {
    MAXSTEPS.with(|m| m.set(2_000_000 + 100 * n as u64));
    MAXDEPTH.with(|m| m.set(6000 + (8 * n as u32).min(30_000)));
}
pub fn reset_guard() {
    STEPS.with(|s| s.set(0));
    DEPTH.with(|s| s.set(0));
    CONSUMED.with(|s| s.set(None));
}

pub const RUNAWAY_STEPS: &str = "RUNAWAY: no verdict within the step limit";
pub const RUNAWAY_DEPTH: &str = "RUNAWAY: recursion without progress";

/// Observer around a production object. The inner pointer is cleared when the grammar is
/// dropped, because recursive grammars are reference cycles.
#[derive(Clone)]
pub struct Dyn {
    cell: Rc<std::cell::UnsafeCell<Option<P>>>,
    pub id: usize,
}
impl Dyn {
    pub fn new(p: P, id: usize) -> Dyn {
        Dyn { cell: Rc::new(std::cell::UnsafeCell::new(Some(p))), id }
    }
    #[inline]
    pub fn inner(&self) -> &P {
        // only `clear` mutates, after the last use of the grammar
        unsafe { (*self.cell.get()).as_ref().unwrap() }
    }
    pub fn clear(&self) {
        let old = unsafe { (*self.cell.get()).take() };
        drop(old);
    }
    fn enter(&self, mode: u8, pos: usize) {
        let s = STEPS.with(|s| {
            let v = s.get() + 1;
            s.set(v);
            v
        });
        let d = DEPTH.with(|s| {
            let v = s.get() + 1;
            s.set(v);
            v
        });
        if d > MAXDEPTH.with(|m| m.get()) {
            panic!("{}", RUNAWAY_DEPTH);
        }
        if s > MAXSTEPS.with(|m| m.get()) {
            panic!("{}", RUNAWAY_STEPS);
        }
        if COUNTING.with(|c| c.get()) {
            EVALS.with(|e| *e.borrow_mut().entry((self.id, mode, pos)).or_insert(0) += 1);
        }
    }
    fn leave(&self, at: Option<usize>) {
        let d = DEPTH.with(|s| {
            let v = s.get() - 1;
            s.set(v);
            v
        });
        if d == 0 {
            CONSUMED.with(|c| c.set(at));
        }
    }
}
impl fmt::Display for Dyn {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.inner().fmt(f)
    }
}
/// The positions hide their value; recover it by comparison (doubling, then halving, then, if the
/// order should not be the usual one, one by one).
fn recover<T: PartialEq + PartialOrd>(p: T, mk: &dyn Fn(usize) -> T) -> usize {
    let mut hi = 1usize;
    while hi < 1 << 40 && mk(hi) < p {
        hi *= 2;
    }
    let mut lo = 0usize;
    while lo < hi {
        let m = lo + (hi - lo) / 2;
        if mk(m) < p {
            lo = m + 1;
        } else {
            hi = m;
        }
    }
    if mk(lo) == p {
        return lo;
    }
    let mut i = 0;
    while mk(i) != p {
        i += 1;
    }
    i
}
pub fn fp(p: FltrPtr) -> usize {
    recover(p, &mkfp)
}
pub fn mkfp(i: usize) -> FltrPtr {
    if i == 0 {
        FltrPtr::default()
    } else {
        FltrPtr::default() + i
    }
}
pub fn tp(p: TokenPtr) -> usize {
    recover(p, &TokenPtr::from)
}

impl IProduction for Dyn {
    type Node = TN;
    type Token = TL;
    fn is_nullable(&self) -> bool {
        self.inner().is_nullable()
    }
    fn is_nullable_n_hidden(&self) -> bool {
        self.inner().is_nullable_n_hidden()
    }
    fn obtain_nullability<'id>(&'id self, visited: HashMap<&'id str, usize>) -> Result<bool, ImplementationError> {
        self.enter(3, 0);
        let r = self.inner().obtain_nullability(visited);
        self.leave(None);
        r
    }
    fn impl_first_set(&self, first_set: &mut HashSet<Self::Token>) {
        self.enter(4, 0);
        self.inner().impl_first_set(first_set);
        self.leave(None);
    }
    fn impl_grammar(
        &self,
        writer: &mut dyn fmt::Write,
        added_rules: &mut HashSet<&'static str>,
    ) -> Result<(), fmt::Error> {
        self.enter(5, 0);
        let r = self.inner().impl_grammar(writer, added_rules);
        self.leave(None);
        r
    }
    fn validate<'id>(
        &'id self,
        connected_sets: HashMap<&'id str, usize>,
        visited_prod: &mut HashSet<&'id str>,
    ) -> Result<(), ImplementationError> {
        self.enter(6, 0);
        let r = self.inner().validate(connected_sets, visited_prod);
        self.leave(None);
        r
    }
    fn advance_fltr_ptr(
        &self,
        code: &Code,
        index: FltrPtr,
        token_stream: &TokenStream<Self::Token>,
        cache: &mut Cache<FltrPtr, Self::Node>,
    ) -> ParsedResult<FltrPtr, Self::Node> {
        self.enter(1, if COUNTING.with(|c| c.get()) { fp(index) } else { 0 });
        let r = self.inner().advance_fltr_ptr(code, index, token_stream, cache);
        let outer = DEPTH.with(|d| d.get()) == 1;
        self.leave(if outer { r.as_ref().ok().map(|d| fp(d.consumed_index)) } else { None });
        r
    }
    fn advance_token_ptr(
        &self,
        code: &Code,
        index: TokenPtr,
        token_stream: &TokenStream<Self::Token>,
        cache: &mut Cache<FltrPtr, Self::Node>,
    ) -> ParsedResult<TokenPtr, Self::Node> {
        self.enter(2, if COUNTING.with(|c| c.get()) { tp(index) } else { 0 });
        let r = self.inner().advance_token_ptr(code, index, token_stream, cache);
        let outer = DEPTH.with(|d| d.get()) == 1;
        self.leave(if outer { r.as_ref().ok().map(|d| tp(d.consumed_index)) } else { None });
        r
    }
    fn advance_ptr(
        &self,
        code: &Code,
        index: usize,
        cache: &mut Cache<usize, Self::Node>,
    ) -> ParsedResult<usize, Self::Node> {
        self.enter(0, index);
        let r = self.inner().advance_ptr(code, index, cache);
        self.leave(r.as_ref().ok().map(|d| d.consumed_index));
        r
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Route {
    /// declared first, symbols assigned later
    Init,
    /// symbols given at construction wherever the grammar is acyclic
    New,
    /// fluent builder methods, and `New` for the rest
    Builder,
}

#[derive(Clone)]
pub struct Opts {
    pub text: bool,
    pub route: Route,
    pub log: Option<u8>,
    /// lexerless sets as `ConstantFieldSet` instead of `PunctuationsField`
    pub const_set: bool,
    pub name_off: usize,
    /// realise each use of a node as a separate copy (acyclic grammars only)
    pub copies: bool,
    /// try a second, different assignment of symbols after the first one
    pub reassign: bool,
    /// give every symbol that can have a rule name one
    pub rule_names: bool,
    /// 1: one node value for all members of a token set; 2: the same through the constructors
    /// that are there for it (`with_value`, `Hidden::hidden`)
    pub alt: u8,
    /// try to construct a parser before each assignment of symbols
    pub probe: bool,
}
impl Opts {
    pub fn text() -> Opts {
        Opts { text: true, route: Route::Init, log: None, const_set: false, name_off: 0, copies: false, reassign: false, rule_names: false, alt: 0, probe: false }
    }
    pub fn token() -> Opts {
        Opts { text: false, ..Opts::text() }
    }
}

thread_local! { static NTH: std::cell::Cell<usize> = const { std::cell::Cell::new(0) }; }
/// levels from 5 on give different levels to the symbols of one grammar, none at all to some
pub const MIXED: std::ops::Range<u8> = 5..8;
pub fn nth_reset() {
    NTH.with(|n| n.set(0));
}
pub fn nth_level(l: u8) -> Option<u8> {
    if l < 5 {
        return Some(l);
    }
    let k = NTH.with(|n| n.replace(n.get() + 1));
    match l {
        5 => [Some(4), None][k % 2],
        6 => [None, Some(4)][k % 2],
        _ => [Some(4), None, Some(1), Some(3), Some(0), None, Some(2)][k % 7],
    }
}
pub fn log_level(l: u8) -> Log<&'static str> {
    match l {
        0 => Log::None,
        1 => Log::Default("L"),
        2 => Log::Success("L"),
        3 => Log::Result("L"),
        _ => Log::Verbose("L"),
    }
}

/// the ways rules can be named; 0 is the ordinary one
pub const STYLES: u8 = 6;
fn pool(style: u8) -> &'static [&'static str] {
    use std::sync::OnceLock;
    static POOL: OnceLock<Vec<Vec<&'static str>>> = OnceLock::new();
    &POOL.get_or_init(|| {
        (0..STYLES)
            .map(|s| {
                (0..if s == 0 { 4096 } else { 128 })
                    .map(|i| {
                        let t = match s {
                            0 => format!("N{}_", i),
                            // beyond any line
                            1 => format!("N{}{}_", "x".repeat(300), i),
                            // told apart by case only
                            2 => (0..8).map(|b| if i >> b & 1 == 0 { 'k' } else { 'K' }).collect(),
                            // each the beginning of the next
                            3 => "Rule".repeat(i + 1),
                            // no ASCII
                            4 => format!("\u{3b1}\u{e9}{}\u{1f600}", char::from_u32(0x3b1 + i as u32).unwrap()),
                            // told apart in the middle only
                            _ => format!("{}{:03}{}", "n".repeat(70), i, "n".repeat(70)),
                        };
                        &*Box::leak(t.into_boxed_str())
                    })
                    .collect()
            })
            .collect()
    })[style as usize]
}
thread_local! { static STYLE: Cell<u8> = const { Cell::new(0) }; }
/// Run `f` with rules named in another way.
pub fn styled<R>(s: u8, f: impl FnOnce() -> R) -> R {
    struct Reset;
    impl Drop for Reset {
        fn drop(&mut self) {
            STYLE.with(|a| a.set(0));
        }
    }
    let _r = Reset;
    STYLE.with(|a| a.set(s));
    f()
}
pub fn name(i: usize) -> &'static str {
    pool(STYLE.with(|s| s.get()))[i]
}
/// a name that rules can have under the present style
pub fn is_name(s: &str) -> bool {
    let st = STYLE.with(|s| s.get());
    match st {
        0 => s.len() > 2 && s.starts_with('N') && s.ends_with('_') && s[1..s.len() - 1].parse::<u32>().is_ok(),
        _ => pool(st).contains(&s),
    }
}

pub struct Built {
    pub root: Rc<Dyn>,
    /// by node id (absent when unreachable)
    pub nodes: Vec<Option<Rc<Dyn>>>,
    /// failures of the construction API itself (log refused, reassignment accepted...)
    pub notes: Vec<String>,
    made: Made,
}
struct Made(Vec<Rc<Dyn>>);
impl Drop for Made {
    fn drop(&mut self) {
        for d in &self.0 {
            d.clear();
        }
    }
}

pub fn vhash(children: &[ASTNode<TN>], code: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    fn mix(h: &mut u64, v: u64) {
        *h = (*h ^ v).wrapping_mul(0x100000001b3);
    }
    fn node(h: &mut u64, n: &ASTNode<TN>) {
        mix(h, n.node as u64 + 7);
        mix(h, n.start as u64 + 1000);
        mix(h, n.end as u64 + 2000);
        for c in &n.children {
            node(h, c);
        }
        mix(h, 99991);
    }
    for c in children {
        node(&mut h, c);
    }
    mix(&mut h, code.len() as u64);
    for b in code {
        mix(&mut h, *b as u64);
    }
    h
}

thread_local! { static SAYS: RefCell<Option<(usize, String)>> = const { RefCell::new(None) }; }
/// Run `f` with validations that fail with this pointer and message.
pub fn saying<R>(at: usize, what: &str, f: impl FnOnce() -> R) -> R {
    struct Reset;
    impl Drop for Reset {
        fn drop(&mut self) {
            SAYS.with(|a| *a.borrow_mut() = None);
        }
    }
    let _r = Reset;
    SAYS.with(|a| *a.borrow_mut() = Some((at, what.to_string())));
    f()
}
/// the decision of validation closure `vp` at node `id`
pub fn decide(vp: Vp, id: usize, nchildren: usize, first_start: usize, code: &[u8]) -> Option<Result<(), (usize, String)>> {
    match verdict(vp, id, nchildren, first_start, code) {
        Some(Err(e)) => Some(Err(SAYS.with(|s| s.borrow().clone()).unwrap_or(e))),
        r => r,
    }
}
fn verdict(vp: Vp, id: usize, nchildren: usize, first_start: usize, code: &[u8]) -> Option<Result<(), (usize, String)>> {
    // None = decline
    match vp {
        Vp::Accept => Some(Ok(())),
        Vp::Decline => None,
        Vp::Fail => Some(Err((first_start, format!("!V{}!", id)))),
        Vp::DeclineEven => {
            if nchildren % 2 == 0 {
                None
            } else {
                Some(Ok(()))
            }
        }
        Vp::FailIfB => {
            if code.contains(&b'b') {
                Some(Err((first_start, format!("!VB{}!", id))))
            } else {
                Some(Ok(()))
            }
        }
    }
}

enum Shell {
    Cat(Rc<Concat<TN, TL>>, Vec<Id>),
    Alt(Rc<Union<TN, TL>>, Vec<Id>),
    Suf(Rc<Suffixes<Dyn>>, Vec<Id>, Id),
}

struct B<'g> {
    g: &'g Gram,
    o: Opts,
    done: Vec<Option<Rc<Dyn>>>,
    busy: Vec<bool>,
    shells: Vec<Shell>,
    notes: Vec<String>,
    names: usize,
    cyclic: Vec<bool>,
    made: Vec<Rc<Dyn>>,
}

fn cyclic(g: &Gram) -> Vec<bool> {
    // nodes from which a cycle is reachable
    let n = g.ops.len();
    let mut r = vec![vec![false; n]; n];
    for i in 0..n {
        let mut st = g.children(i);
        while let Some(x) = st.pop() {
            if !r[i][x] {
                r[i][x] = true;
                st.extend(g.children(x));
            }
        }
    }
    (0..n).map(|i| r[i][i] || (0..n).any(|j| r[i][j] && r[j][j])).collect()
}

impl<'g> B<'g> {
    fn name(&mut self) -> &'static str {
        self.names += 1;
        name(self.o.name_off + self.names - 1)
    }
    fn logged(&mut self, what: &str, f: impl Fn(Log<&'static str>) -> Result<(), String>) {
        if let Some(l) = self.o.log.and_then(nth_level) {
            if let Err(e) = f(log_level(l)) {
                self.notes.push(format!("first log assignment refused on {}: {}", what, e));
            }
            if f(log_level((l + 1) % 5)).is_ok() {
                self.notes.push(format!("second log assignment accepted on {}", what));
            }
        }
    }
    fn named(&mut self, what: &str, f: impl Fn(&'static str) -> Result<(), String>) {
        if self.o.rule_names {
            let (n, m) = (self.name(), self.name());
            if let Err(e) = f(n) {
                self.notes.push(format!("first rule name refused on {}: {}", what, e));
            }
            if f(m).is_ok() {
                self.notes.push(format!("second rule name accepted on {}", what));
            }
        }
    }
    fn wrap(&mut self, id: Id, p: P) -> Rc<Dyn> {
        let d = Rc::new(Dyn::new(p, id));
        self.made.push(d.clone());
        d
    }
    /// None: this graph cannot be expressed with the library's constructors
    fn get(&mut self, id: Id) -> Option<Rc<Dyn>> {
        if !self.o.copies {
            if let Some(d) = &self.done[id] {
                return Some(d.clone());
            }
        }
        let op = self.g.ops[id].clone();
        let early = self.o.route == Route::Init || self.cyclic[id];
        // shells that can be referred to before their symbols are known
        if early && !self.o.copies {
            match &op {
                Op::Cat(v) => {
                    let c = Rc::new(Concat::init(self.name()));
                    self.logged("Concat", |l| c.set_log(l));
                    let d = self.wrap(id, c.clone());
                    self.done[id] = Some(d.clone());
                    self.shells.push(Shell::Cat(c, v.clone()));
                    return Some(d);
                }
                Op::Alt(v) => {
                    let c = Rc::new(Union::init(self.name()));
                    self.logged("Union", |l| c.set_log(l));
                    let d = self.wrap(id, c.clone());
                    self.done[id] = Some(d.clone());
                    self.shells.push(Shell::Alt(c, v.clone()));
                    return Some(d);
                }
                _ => {}
            }
        }
        if self.busy[id] {
            return None;
        }
        self.busy[id] = true;
        let r = self.make(id, &op, early);
        self.busy[id] = false;
        let d = r?;
        self.done[id] = Some(d.clone());
        Some(d)
    }
    fn all(&mut self, v: &[Id]) -> Option<Vec<P>> {
        let mut r: Vec<P> = vec![];
        for x in v {
            r.push(self.get(*x)?);
        }
        Some(r)
    }
    fn make(&mut self, id: Id, op: &Op, early: bool) -> Option<Rc<Dyn>> {
        let text = self.o.text;
        let lab = |v: bool, k: usize| if v { Some(label(id, k)) } else { None };
        let bld = self.o.route == Route::Builder;
        let p: P = match op {
            Op::T(k, v) => {
                if text {
                    let c = Rc::new(ConstantField::new(lit(*k), lab(*v, 0)));
                    self.logged("ConstantField", |l| c.assign_debugger(l));
                    c
                } else {
                    let c = Rc::new(TokenField::new(tok(*k), lab(*v, 0)));
                    self.logged("TokenField", |l| c.set_log(l));
                    c
                }
            }
            Op::Re(k, v) => {
                if !text {
                    return None;
                }
                let c = Rc::new(RegexField::new(re(*k), lab(*v, 0)).expect("regex"));
                self.logged("RegexField", |l| c.assign_debugger(l));
                c
            }
            Op::W(k, v) => {
                if text {
                    Rc::new(ConstantField::new(wlit(*k), lab(*v, 0)))
                } else {
                    let c = Rc::new(TokenField::new(wtok(*k), lab(*v, 0)));
                    self.logged("TokenField", |l| c.set_log(l));
                    c
                }
            }
            Op::Set(s) => {
                if text {
                    let vals: Vec<(&str, Option<TN>)> =
                        s.iter().enumerate().map(|(i, (k, v))| (lit(*k), lab(*v, i))).collect();
                    if self.o.const_set {
                        let c = Rc::new(ConstantFieldSet::new(vals));
                        self.logged("ConstantFieldSet", |l| c.assign_debugger(l));
                        c
                    } else {
                        let c = Rc::new(PunctuationsField::new(vals).expect("punctuations"));
                        self.logged("PunctuationsField", |l| c.assign_debugger(l));
                        c
                    }
                } else {
                    let vals: Vec<(TL, Option<TN>)> =
                        s.iter().enumerate().map(|(i, (k, v))| (tok(*k), lab(*v, i))).collect();
                    let c = Rc::new(match self.o.alt {
                        0 => TokenFieldSet::new(vals),
                        _ if s.iter().any(|x| x.1 != s[0].1) => return None,
                        1 => TokenFieldSet::new(vals.into_iter().map(|(t, _)| (t, lab(s.first().map_or(true, |x| x.1), 0))).collect()),
                        _ => TokenFieldSet::with_value(lab(s.first().map_or(true, |x| x.1), 0), vals.into_iter().map(|(t, _)| t).collect()),
                    });
                    self.logged("TokenFieldSet", |l| c.assign_debugger(l));
                    c
                }
            }
            Op::Eof(v) => {
                let c = Rc::new(EOFProd::new(lab(*v, 0)));
                self.logged("EOFProd", |l| c.assign_debugger(l));
                c
            }
            Op::Null | Op::NullH => {
                let c = Rc::new(if *op == Op::Null { NullProd::new() } else { NullProd::hidden() });
                self.logged("NullProd", |l| c.set_log(l));
                c
            }
            Op::Cat(v) => {
                let ch = self.all(v)?;
                let c = if early {
                    let c = Rc::new(Concat::init(self.name()));
                    c.set_symbols(ch).ok()?;
                    c
                } else {
                    Rc::new(Concat::new(self.name(), ch))
                };
                if self.o.reassign && c.set_symbols(vec![]).is_ok() {
                    self.notes.push("Concat: second assignment of symbols accepted".into());
                }
                self.logged("Concat", |l| c.set_log(l));
                c
            }
            Op::Alt(v) => {
                let ch = self.all(v)?;
                let c = if early {
                    let c = Rc::new(Union::init(self.name()));
                    c.set_symbols(ch).ok()?;
                    c
                } else {
                    Rc::new(Union::new(self.name(), ch))
                };
                if self.o.reassign && c.set_symbols(vec![]).is_ok() {
                    self.notes.push("Union: second assignment of symbols accepted".into());
                }
                self.logged("Union", |l| c.set_log(l));
                c
            }
            Op::Suf(l, s, v) => {
                let left = self.get(*l)?;
                if early {
                    let nm = self.name();
                    let c = Rc::new(Suffixes::init(nm, &left, *s));
                    self.logged("Suffixes", |l| c.set_log(l));
                    self.shells.push(Shell::Suf(c.clone(), v.clone(), id));
                    c
                } else {
                    let ch = self.all(v)?;
                    let tails: Vec<(P, TN)> = ch.into_iter().enumerate().map(|(i, c)| (c, label(id, i))).collect();
                    let nm = self.name();
                    let c = if bld {
                        let c = (*left).clone().into_suffixes::<Dyn>(nm, *s);
                        c.set_suffixes(tails).ok()?;
                        Rc::new(c)
                    } else {
                        Rc::new(Suffixes::new(nm, &left, *s, tails))
                    };
                    if self.o.reassign && c.set_suffixes(vec![]).is_ok() {
                        self.notes.push("Suffixes: second assignment of suffixes accepted".into());
                    }
                    self.logged("Suffixes", |l| c.set_log(l));
                    c
                }
            }
            Op::List(x) => {
                let x = self.get(*x)?;
                let c = Rc::new(if bld { (*x).clone().into_list() } else { List::new(&x) });
                self.logged("List", |l| c.assign_debugger(l));
                c
            }
            Op::Sep(x, s, inc) => {
                let x = self.get(*x)?;
                let s = self.get(*s)?;
                let c = Rc::new(if bld {
                    (*x).clone().into_separated_list(&s, *inc)
                } else {
                    SeparatedList::new(&x, &s, *inc)
                });
                self.logged("SeparatedList", |l| c.assign_debugger(l));
                self.named("SeparatedList", |n| c.set_rule_name(n));
                c
            }
            Op::Opt(x) | Op::OptH(x) => {
                let hidden = matches!(op, Op::OptH(_));
                let x = self.get(*x)?;
                let c = Rc::new(match (bld, hidden) {
                    (true, true) => (*x).clone().into_null_hidden(),
                    (true, false) => (*x).clone().into_nullable(),
                    (false, true) => Nullable::hidden(&x),
                    (false, false) => Nullable::new(&x),
                });
                self.logged("Nullable", |l| c.set_log(l));
                c
            }
            Op::Node(x) => {
                let x = self.get(*x)?;
                let c = Rc::new(if bld { (*x).clone().into_node(label(id, 0)) } else { Node::new(&x, label(id, 0)) });
                self.logged("Node", |l| c.set_log(l));
                self.named("Node", |n| c.set_rule_name(n));
                c
            }
            Op::Hide(x) => {
                let x = self.get(*x)?;
                let c = Rc::new(if bld {
                    (*x).clone().into_hidden()
                } else if self.o.alt == 2 {
                    Hidden::hidden(&x)
                } else {
                    Hidden::new(&x)
                });
                self.logged("Hidden", |l| c.set_log(l));
                self.named("Hidden", |n| c.set_rule_name(n));
                c
            }
            Op::Look(x, v) => {
                let x = self.get(*x)?;
                let c = Rc::new(if bld {
                    (*x).clone().into_lookahead(lab(*v, 0))
                } else {
                    Lookahead::new(&x, lab(*v, 0))
                });
                self.logged("Lookahead", |l| c.assign_debugger(l));
                c
            }
            Op::Val(x, vp) => {
                let x = self.get(*x)?;
                let vp = *vp;
                let f = move |ch: &Vec<ASTNode<TN>>, code: &[u8]| {
                    VLOG.with(|l| l.borrow_mut().push((id, vhash(ch, code))));
                    let st = ch.first().map_or(0, |c| c.start);
                    match decide(vp, id, ch.len(), st, code) {
                        None => Err(ProductionError::Unparsed),
                        Some(Ok(())) => Ok(()),
                        Some(Err((p, m))) => Err(ProductionError::Validation(p, m)),
                    }
                };
                if bld {
                    let c = Rc::new((*x).clone().validate_with(f));
                    self.logged("Validator", |l| c.assign_debugger(l));
                    c
                } else {
                    let c = Rc::new(Validator::new(&x, f));
                    self.logged("Validator", |l| c.assign_debugger(l));
                    c
                }
            }
            Op::Ns(x, f) => {
                let x = self.get(*x)?;
                let c = Rc::new(NonStructural::new(&x, *f));
                self.logged("NonStructural", |l| c.set_log(l));
                c
            }
            Op::St(x) => {
                let x = self.get(*x)?;
                let c = Rc::new(Structural::new(&x));
                self.logged("Structural", |l| c.set_log(l));
                c
            }
            Op::Memo(x) => {
                let x = self.get(*x)?;
                // consecutive keys, as a program that numbers its memoized symbols has them
                let key = self.g.ops[..id].iter().filter(|o| matches!(o, Op::Memo(_))).count();
                let c = Rc::new(Cacheable::new(CacheKey::verif_new(key), &x));
                self.logged("Cacheable", |l| c.assign_debugger(l));
                c
            }
            Op::Unset(0) => Rc::new(Concat::init(self.name())),
            Op::Unset(1) => Rc::new(Union::init(self.name())),
            Op::Unset(_) => {
                let l: P = if text {
                    Rc::new(ConstantField::new(lit(0), None))
                } else {
                    Rc::new(TokenField::new(tok(0), None))
                };
                let left = self.wrap(id, l);
                Rc::new(Suffixes::init(self.name(), &left, true))
            }
        };
        Some(self.wrap(id, p))
    }
}

/// Build the production objects. `None` when the library's constructors cannot express the graph.
pub fn build(g: &Gram, o: &Opts) -> Option<Built> {
    let n = g.ops.len();
    let cy = cyclic(g);
    if o.copies && cy[g.root] {
        return None;
    }
    let mut b = B {
        g,
        o: o.clone(),
        done: vec![None; n],
        busy: vec![false; n],
        shells: vec![],
        notes: vec![],
        names: 0,
        cyclic: cy,
        made: vec![],
    };
    let r = build_in(&mut b);
    let made = Made(std::mem::take(&mut b.made));
    let root = r?;
    Some(Built { root, nodes: b.done, notes: b.notes, made })
}
fn build_in(b: &mut B) -> Option<Rc<Dyn>> {
    let g = b.g;
    let o = b.o.clone();
    let root = b.get(g.root)?;
    // assign symbols of declared shells; more shells may appear while doing so
    let mut i = 0;
    while i < b.shells.len() {
        let kids = match &b.shells[i] {
            Shell::Cat(_, v) | Shell::Alt(_, v) | Shell::Suf(_, v, _) => v.clone(),
        };
        let ch = b.all(&kids)?;
        if o.probe {
            let ok = if o.text {
                lang_pt::LexerlessParser::<TN, TL>::new(root.clone()).is_ok()
            } else {
                let t = lang_pt::Tokenizer::<TL, u8>::new(vec![]);
                lang_pt::DefaultParser::<TN, TL>::new(Rc::new(t), root.clone()).is_ok()
            };
            if ok && i == 0 {
                b.notes.push("a parser is constructed although the start rule has no symbols yet".into());
            }
        }
        let again = o.reassign;
        let mut note = None;
        match &b.shells[i] {
            Shell::Cat(c, _) => {
                c.set_symbols(ch).expect("first assignment refused");
                if again && c.set_symbols(vec![]).is_ok() {
                    note = Some("Concat: second assignment of symbols accepted");
                }
            }
            Shell::Alt(c, _) => {
                c.set_symbols(ch).expect("first assignment refused");
                if again && c.set_symbols(vec![]).is_ok() {
                    note = Some("Union: second assignment of symbols accepted");
                }
            }
            Shell::Suf(c, _, id) => {
                let id = *id;
                let tails: Vec<(P, TN)> = ch.into_iter().enumerate().map(|(k, c)| (c, label(id, k))).collect();
                c.set_suffixes(tails).expect("first assignment refused");
                if again && c.set_suffixes(vec![]).is_ok() {
                    note = Some("Suffixes: second assignment of suffixes accepted");
                }
            }
        }
        if let Some(s) = note {
            b.notes.push(s.into());
        }
        i += 1;
    }
    Some(root)
}

