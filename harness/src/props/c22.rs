//! C22: navigation of token streams.
use crate::engine::*;
use crate::real::{fp, mkfp, tp};
use lang_pt::{FltrPtr, Lex, TokenImpl, TokenPtr, TokenStream};

pub const PROP: Prop = Prop {
    id: "C22",
    run,
    space: "every token sequence of length <= 7 (thorough 10) over a structural and an ignorable kind of one and of two bytes, with and \
without the closing end-of-file token, for four token types; every value of the one- and two-byte token types and the edges of the widest; every byte offset up to the length, every index of either numbering, \
every index pair of the range queries; each answer compared with the plain list of tokens; the stream compared before and after; \
streams of up to 400 tokens with every offset",
    assumptions: &["offsets and indices lie within the stream, as the documentation requires"],
};

pub trait Tok: TokenImpl + 'static {
    fn st(k: usize) -> Self;
    fn ign(k: usize) -> Self;
}
impl Tok for i8 {
    fn st(k: usize) -> i8 {
        [0, 3][k]
    }
    fn ign(k: usize) -> i8 {
        [-1, i8::MIN][k]
    }
}
impl Tok for i16 {
    fn st(k: usize) -> i16 {
        [300, 0][k]
    }
    fn ign(k: usize) -> i16 {
        [-300, -1][k]
    }
}
impl Tok for isize {
    fn st(k: usize) -> isize {
        [1 << 40, 0][k]
    }
    fn ign(k: usize) -> isize {
        [-1, isize::MIN][k]
    }
}
/// structural or not has nothing to do with order
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
enum K {
    Blank,
    Word,
    Note,
    Sign,
    End,
}
impl TokenImpl for K {
    fn eof() -> K {
        K::End
    }
    fn is_structural(&self) -> bool {
        !matches!(self, K::Blank | K::Note)
    }
}
impl Tok for K {
    fn st(k: usize) -> K {
        [K::Word, K::Sign][k]
    }
    fn ign(k: usize) -> K {
        [K::Blank, K::Note][k]
    }
}

/// symbols 0, 1: structural of one, two bytes; 2, 3: ignorable of one, two bytes
fn lexes<T: Tok>(s: &[u8], eof: bool) -> Vec<Lex<T>> {
    let mut at = 0;
    let mut v = vec![];
    for c in s {
        let n = *c as usize % 2 + 1;
        let t = if *c < 2 { T::st(*c as usize) } else { T::ign(*c as usize - 2) };
        v.push(Lex { token: t, start: at, end: at + n });
        at += n;
    }
    if eof {
        v.push(Lex { token: T::eof(), start: at, end: at });
    }
    v
}
macro_rules! want {
    ($n:ident, $name:expr, $exp:expr, $got:expr) => {{
        $n += 1;
        let e = $exp;
        let g = $got;
        if e != g {
            return Err(format!("{}: expected {:?}, observed {:?}", $name, e, g));
        }
    }};
}
fn ix(r: Result<FltrPtr, FltrPtr>) -> Result<usize, usize> {
    r.map(fp).map_err(fp)
}
fn lx<'a, T: Tok>(r: Result<&'a Lex<T>, &'a Lex<T>>) -> Result<Lex<T>, Lex<T>> {
    r.map(|l| l.clone()).map_err(|l| l.clone())
}

fn check<T: Tok>(v: &Vec<Lex<T>>, ranges: bool) -> Result<u64, String> {
    let s = TokenStream::from(v);
    let f: Vec<usize> = (0..v.len()).filter(|i| v[*i].token.is_structural()).collect();
    let mut n = 0u64;
    let len = v.last().map_or(0, |l| l.end);
    let fl: Vec<Lex<T>> = f.iter().map(|i| v[*i].clone()).collect();
    let view = |s: &TokenStream<T>| -> (Vec<Lex<T>>, Vec<Lex<T>>, usize) { (s.iter_lex().cloned().collect(), s.get_segments().clone(), s.length()) };
    let copy = s.clone();
    want!(n, "length", f.len(), s.length());
    want!(n, "iter_lex", &fl, &s.iter_lex().cloned().collect::<Vec<_>>());
    want!(n, "get_segments", v, s.get_segments());
    if !v.is_empty() {
        want!(n, "eos_pointer", len, s.eos_pointer());
    }
    for i in 0..f.len() {
        let p = mkfp(i);
        want!(n, format!("[{}]", i), &fl[i], &s[p]);
        want!(n, format!("get({})", i), Some(&fl[i]), s.get(p));
        want!(n, format!("pointer({})", i), fl[i].start, s.pointer(p));
        want!(n, format!("has_stream({})", i), true, s.has_stream(p));
        want!(n, format!("is_eos({})", i), fl[i].token == T::eof(), s.is_eos(p));
        want!(n, format!("get_token_ptr({})", i), f[i], tp(s.get_token_ptr(p)));
        want!(n, format!("last_segment_index({})", i), if i == 0 { None } else { Some(f[i - 1]) }, s.last_segment_index(&p).map(tp));
        want!(n, format!("iter_lex_at({})", i), &fl[i..], &s.iter_lex_at(p).cloned().collect::<Vec<_>>()[..]);
    }
    for i in f.len()..f.len() + 3 {
        want!(n, format!("has_stream({})", i), false, s.has_stream(mkfp(i)));
        want!(n, format!("get({})", i), None, s.get(mkfp(i)));
    }
    want!(n, "last_segment_index(length)", f.last().cloned(), s.last_segment_index(&mkfp(f.len())).map(tp));
    want!(n, "TokenPtr::origin", (TokenPtr::from(0), true, TokenPtr::default()), (TokenPtr::origin(), TokenPtr::origin().is_origin(), TokenPtr::origin()));
    for i in 0..v.len() {
        let p = TokenPtr::from(i);
        want!(n, format!("raw [{}]", i), &v[i], &s[p]);
        want!(n, format!("is_eos_segment({})", i), v[i].token == T::eof(), s.is_eos_segment(p));
        let exp = match f.iter().position(|j| *j >= i) {
            Some(k) if f[k] == i => Ok(k),
            Some(k) => Err(k),
            None => Err(f.len()),
        };
        want!(n, format!("find_filtered_index({})", i), exp, ix(s.find_filtered_index(&p)));
        want!(n, format!("find_filter_ptr({})", i), exp, ix(s.find_filter_ptr(p)));
        want!(n, format!("iter_at({})", i), &v[i..], &s.iter_at(i).cloned().collect::<Vec<_>>()[..]);
        want!(n, format!("TokenPtr {} + 1 - 1", i), p, p + 1 - 1);
        want!(n, format!("TokenPtr {} is origin", i), i == 0, p.is_origin());
    }
    for o in 0..=len {
        let k = f.iter().position(|j| v[*j].start >= o);
        let exp = match k {
            Some(k) if v[f[k]].start == o => Ok(k),
            Some(k) => Err(k),
            None => Err(f.len()),
        };
        // a zero-width end token shares its offset with nothing else
        want!(n, format!("filtered_index_at({})", o), exp, ix(s.filtered_index_at(o)));
        if let Some(k) = k {
            let l = v[f[k]].clone();
            want!(n, format!("filtered_data_at({})", o), if l.start == o { Ok(l) } else { Err(l) }, lx(s.filtered_data_at(o)));
        }
        if let Some(l) = v.iter().find(|l| l.start >= o) {
            let l = l.clone();
            want!(n, format!("lex_data_at({})", o), if l.start == o { Ok(l) } else { Err(l) }, lx(s.lex_data_at(o)));
        }
    }
    if ranges {
        for a in 0..=v.len() {
            for b in a..=v.len() {
                want!(n, format!("iter_range({}, {})", a, b), &v[a..b], &s.iter_range(a, b).cloned().collect::<Vec<_>>()[..]);
            }
        }
        for a in 0..=f.len() {
            for b in a..=f.len() {
                want!(n, format!("iter_lex_range({}, {})", a, b), &fl[a..b], &s.iter_lex_range(mkfp(a), mkfp(b)).cloned().collect::<Vec<_>>()[..]);
            }
        }
    }
    let text: String = (0..len).map(|i| (b'a' + (i % 26) as u8) as char).collect();
    let pairs: Vec<(T, String)> = v.iter().map(|l| (l.token, text[l.start..l.end].to_string())).collect();
    want!(n, "token_pair", pairs, s.token_pair(&text).iter().map(|(t, s)| (**t, s.to_string())).collect::<Vec<_>>());
    want!(n, "the stream after all queries", view(&copy), view(&s));
    Ok(n)
}

pub fn case<T: Tok>(w: &mut W, s: &[u8], eof: bool, ranges: bool) {
    let v = lexes::<T>(s, eof);
    w.states += v.len() as u64 + 1;
    match guarded(|| check(&v, ranges)) {
        Ok(Ok(n)) => {
            w.traces += n;
            w.transitions += n;
        }
        Ok(Err(m)) => w.viol("query", format!("tokens {:?}: {}", v, m)),
        Err(m) => w.viol("panic", format!("tokens {:?}: {}", v, m)),
    }
    w.sample(|| format!("{:?}", v));
}

/// the queries of a very long stream, around the places where narrower numbers would wrap
fn big<T: Tok>(sym: &[u8], edges: &[usize], wide: usize) -> Result<u64, String> {
    let mut v = lexes::<T>(sym, true);
    if wide > 0 {
        // one token as wide as the others together
        let at = sym.len() / 2;
        v[at].end += wide;
        for l in &mut v[at + 1..] {
            l.start += wide;
            l.end += wide;
        }
    }
    let s = TokenStream::from(&v);
    let f: Vec<usize> = (0..v.len()).filter(|i| v[*i].token.is_structural()).collect();
    let mut k = 0u64;
    let mut at = vec![];
    for b in [0usize, 127, 255, 256, 4096, 32_767, 65_535, 65_536, 65_537, 65_540, 100_000, f.len().saturating_sub(2), v.len().saturating_sub(2), v.last().unwrap().end - 1] {
        at.extend((b.saturating_sub(2)..b + 3).collect::<Vec<_>>());
    }
    // both numberings and the offsets around the places where the sequence changes
    for e in edges {
        for b in [*e, f.partition_point(|j| j < e), v[*e].start] {
            at.extend((b.saturating_sub(2)..b + 3).collect::<Vec<_>>());
        }
    }
    at.sort();
    at.dedup();
    want!(k, "length", f.len(), s.length());
    want!(k, "iter_lex", f.len(), s.iter_lex().count());
    want!(k, "eos_pointer", v.last().unwrap().end, s.eos_pointer());
    for i in at {
        want!(k, format!("has_stream({})", i), i < f.len(), s.has_stream(mkfp(i)));
        want!(k, format!("get({})", i), f.get(i).map(|j| &v[*j]), s.get(mkfp(i)));
        if i < f.len() {
            let p = mkfp(i);
            want!(k, format!("[{}]", i), &v[f[i]], &s[p]);
            want!(k, format!("pointer({})", i), v[f[i]].start, s.pointer(p));
            want!(k, format!("is_eos({})", i), v[f[i]].token == T::eof(), s.is_eos(p));
            want!(k, format!("get_token_ptr({})", i), f[i], tp(s.get_token_ptr(p)));
            want!(k, format!("last_segment_index({})", i), if i == 0 { None } else { Some(f[i - 1]) }, s.last_segment_index(&p).map(tp));
            want!(k, format!("iter_lex_at({})", i), (f.len() - i, Some(&v[f[i]])), (s.iter_lex_at(p).count(), s.iter_lex_at(p).next()));
        }
        if i < v.len() {
            let p = TokenPtr::from(i);
            want!(k, format!("raw [{}]", i), &v[i], &s[p]);
            want!(k, format!("is_eos_segment({})", i), v[i].token == T::eof(), s.is_eos_segment(p));
            let q = f.partition_point(|j| *j < i);
            let exp = if f[q] == i { Ok(q) } else { Err(q) };
            want!(k, format!("find_filtered_index({})", i), exp, ix(s.find_filtered_index(&p)));
            want!(k, format!("find_filter_ptr({})", i), exp, ix(s.find_filter_ptr(p)));
            want!(k, format!("iter_at({})", i), (v.len() - i, Some(&v[i])), (s.iter_at(i).count(), s.iter_at(i).next()));
            want!(k, format!("TokenPtr {} + 1 - 1", i), p, p + 1 - 1);
        }
        if i <= v.last().unwrap().end {
            let q = f.partition_point(|j| v[*j].start < i);
            let l = v[f[q]].clone();
            let hit = l.start == i;
            want!(k, format!("filtered_index_at({})", i), if hit { Ok(q) } else { Err(q) }, ix(s.filtered_index_at(i)));
            want!(k, format!("filtered_data_at({})", i), if hit { Ok(l.clone()) } else { Err(l) }, lx(s.filtered_data_at(i)));
            let l = v[v.partition_point(|l| l.start < i)].clone();
            want!(k, format!("lex_data_at({})", i), if l.start == i { Ok(l) } else { Err(l) }, lx(s.lex_data_at(i)));
        }
    }
    Ok(k)
}

/// one token of value `v` before the end of the input
fn value<T: TokenImpl>(w: &mut W, v: T, structural: bool, eof: bool) {
    w.states += 1;
    w.transitions += 1;
    w.traces += 1;
    let l = vec![Lex { token: v, start: 0, end: 1 }, Lex { token: T::eof(), start: 1, end: 1 }];
    let r = guarded(|| {
        let s = TokenStream::from(&l);
        let first = mkfp(0);
        (s.length(), s.is_eos(first), s[first].start, s.get_token_ptr(first) == TokenPtr::from(if structural { 0 } else { 1 }))
    });
    let want = if structural { (2, eof, 0, true) } else { (1, true, 1, true) };
    if r != Ok(want) {
        w.viol("token-value", format!("token {:?}, structural {}, end of file {}: (length, first is end, start of first, index of first) = {:?}, expected {:?}", v, structural, eof, r, want));
    }
}

fn run(w: &mut W, tier: Tier) {
    for s in crate::gram::strings(4, tier.pick(7, 10)) {
        if w.stop() {
            return;
        }
        if w.next() {
            case::<i8>(w, &s, true, true);
            case::<K>(w, &s, true, s.len() <= 5);
            if s.len() <= 5 {
                case::<i16>(w, &s, true, false);
                case::<isize>(w, &s, true, false);
                case::<i8>(w, &s, false, true);
                case::<K>(w, &s, false, false);
            }
        }
    }
    // every value of the token types the library provides
    if w.next() {
        for v in i8::MIN..=i8::MAX {
            value(w, v, v >= 0, v == i8::MAX);
        }
    }
    if w.next() {
        for v in i16::MIN..=i16::MAX {
            value(w, v, v >= 0, v == i16::MAX);
        }
    }
    if w.next() {
        for k in 0..=isize::BITS {
            for d in -2..=2isize {
                let p = if k == isize::BITS { 0 } else { (1 as isize).wrapping_shl(k) };
                let v = p.wrapping_add(d);
                value(w, v, v >= 0, v == isize::MAX);
                let v = p.wrapping_neg().wrapping_add(d);
                value(w, v, v >= 0, v == isize::MAX);
            }
        }
    }
    // long streams
    let units: [&[u8]; 8] = [&[0], &[2], &[0, 2], &[1, 3, 0], &[2, 2, 1], &[0, 0, 0, 3], &[3, 0, 1, 2, 2], &[0, 1]];
    for n in super::suite::LONG.iter().cloned().chain([400]) {
        for u in units {
            for pre in [&[][..], &[2], &[0]] {
                for post in [&[][..], &[2, 3], &[1]] {
                    if w.next() {
                        let mut s: Vec<u8> = pre.to_vec();
                        while s.len() < n {
                            s.extend_from_slice(u);
                        }
                        s.extend_from_slice(post);
                        case::<i8>(w, &s, true, false);
                        case::<K>(w, &s, true, false);
                    }
                }
            }
        }
    }
    let mut over = |w: &mut W, sym: &[u8], edges: &[usize], wide: usize, what: &str| {
        w.states += sym.len() as u64;
        for r in [guarded(|| big::<i8>(sym, edges, wide)), guarded(|| big::<K>(sym, edges, wide))] {
            match r {
                Ok(Ok(k)) => {
                    w.traces += k;
                    w.transitions += k;
                }
                Ok(Err(m)) | Err(m) => w.viol("query", format!("{}: {}", what, m)),
            }
        }
    };
    for n in [1025usize, 65_537, 131_080] {
        for u in units {
            for wide in [0usize, 300, 70_000] {
                if w.next() {
                    let sym: Vec<u8> = u.iter().cycle().take(n).cloned().collect();
                    over(w, &sym, &[n / 2], wide, &format!("{} tokens {:?} repeated, one of them {} bytes wider", n, u, wide));
                }
            }
        }
    }
    // long runs of one kind between short ones of another
    for lens in [[3usize, 260, 3], [260, 3, 260], [3, 70_000, 3], [70_000, 3, 70_000], [1, 140_000, 1], [300, 66_000, 300]] {
        for a in units {
            for b in units {
                if a != b && w.next() {
                    let mut sym = vec![];
                    let mut edges = vec![];
                    for (i, n) in lens.iter().enumerate() {
                        let u = if i % 2 == 0 { a } else { b };
                        sym.extend(u.iter().cycle().take(*n));
                        edges.push(sym.len());
                    }
                    over(w, &sym, &edges, 0, &format!("tokens {:?} {} times, {:?} {} times, {:?} {} times", a, lens[0], b, lens[1], a, lens[2]));
                }
            }
        }
    }
}
