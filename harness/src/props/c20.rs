//! C20: line and column of every offset.
use super::common::line_col;
use crate::engine::*;
use crate::gram::strings;
use crate::lexm::bytes;
use lang_pt::{Code, Position};

pub const PROP: Prop = Prop {
    id: "C20",
    run,
    space: "every text of length <= 9 (thorough 11) over {letter, line feed, carriage return} and <= 7 (8) over {letter, line feed, \
two-, three- and four-byte letter}, <= 4 (5) over 11 special characters (byte order mark, NUL, U+2028, NEL, form feed, ...), every offset up to the length; every ordered pair and triple of queries on one object for \
texts of length <= 4 (5), each answer compared with a count over the prefix; texts of up to 70 000 lines and lines of up to \
70 000 bytes; every single byte value at every place of a short text; positions of every prefix; every length of a first line up to 1100 (4200), lines around every power of two up to 2^16 (2^18)",
    assumptions: &["columns count bytes, as the property states"],
};

fn breaks(t: &[u8]) -> Vec<usize> {
    (0..t.len()).filter(|i| t[*i] == b'\n').collect()
}

pub fn one(w: &mut W, t: &[u8], offs: &[usize]) -> bool {
    let r = guarded(|| {
        let c = Code::new(t);
        for o in offs {
            let (l, k) = line_col(t, *o);
            let p = c.obtain_position(*o);
            if (p.line, p.column) != (l, k) {
                return Some(format!("offset {}: expected line {} column {}, observed line {} column {}", o, l, k, p.line, p.column));
            }
            let q = Position::from(&t[..*o]);
            if (q.line, q.column) != (l, k) {
                return Some(format!("prefix of {} bytes: expected line {} column {}, observed line {} column {}", o, l, k, q.line, q.column));
            }
            if p != q {
                return Some(format!("offset {}: position {:?} is not equal to that of the prefix {:?}", o, p, q));
            }
        }
        if *c.obtain_line_breaks() != breaks(t) {
            return Some(format!("line breaks {:?}, expected {:?}", c.obtain_line_breaks(), breaks(t)));
        }
        let d: Code = t.into();
        if *d.obtain_line_breaks() != breaks(t) || d.value != t || c.value != t {
            return Some("conversion from bytes differs".into());
        }
        if let Ok(s) = std::str::from_utf8(t) {
            let e: Code = s.into();
            if e.value != t || *e.obtain_line_breaks() != breaks(t) {
                return Some("conversion from text differs".into());
            }
        }
        None
    });
    w.traces += offs.len() as u64 * 2 + 1;
    w.states += offs.len() as u64;
    w.transitions += offs.len() as u64;
    match r {
        Ok(None) => true,
        Ok(Some(m)) => {
            w.viol("position", format!("text {:?}: {}", String::from_utf8_lossy(&t[..t.len().min(80)]), m));
            false
        }
        Err(m) => {
            w.viol("panic", format!("text {:?}: {}", String::from_utf8_lossy(&t[..t.len().min(80)]), m));
            false
        }
    }
}

fn run(w: &mut W, tier: Tier) {
    let small = bytes(&[b"x", b"\n", b"\r"], tier.pick(9, 11));
    let multi = bytes(&[b"x", b"\n", "\u{e9}".as_bytes(), "\u{20ac}".as_bytes(), "\u{1f600}".as_bytes()], tier.pick(7, 8));
    for (i, t) in small.iter().chain(&multi).enumerate() {
        if w.next() {
            let up: Vec<usize> = (0..=t.len()).collect();
            let down: Vec<usize> = up.iter().rev().cloned().collect();
            if one(w, t, &up) {
                one(w, t, &down);
            }
            if i < 200 || i % 5000 == 0 {
                w.sample(|| format!("{:?}: all offsets, both directions", String::from_utf8_lossy(t)));
            }
        }
    }
    // characters with a meaning of their own
    let special = ["x", "\n", "\r", "\u{feff}", "\0", "\u{2028}", "\u{85}", "\u{b}", "\u{c}", "\t", "\u{301}"];
    let special: Vec<&[u8]> = special.iter().map(|s| s.as_bytes()).collect();
    for t in bytes(&special, tier.pick(4, 5)) {
        if w.next() {
            let up: Vec<usize> = (0..=t.len()).collect();
            one(w, &t, &up);
        }
    }
    // query histories
    for t in bytes(&[b"x", b"\n", "\u{e9}".as_bytes()], tier.pick(4, 5)) {
        if !w.next() {
            continue;
        }
        let n = t.len() + 1;
        for a in 0..n {
            for b in 0..n {
                for c in 0..n {
                    if !one(w, &t, &[a, b, c]) {
                        return;
                    }
                }
            }
        }
        // line breaks asked first
        let c = Code::new(&t);
        let _ = c.obtain_line_breaks().len();
        for a in 0..n {
            let p = c.obtain_position(a);
            if (p.line, p.column) != line_col(&t, a) {
                w.viol("history", format!("text {:?} offset {} after asking for the line breaks: {:?}", String::from_utf8_lossy(&t), a, p));
            }
        }
    }
    // every byte value
    for base in [&b""[..], b"x", b"\n", b"x\ny", b"\n\n"] {
        for at in 0..=base.len() {
            for c in 0..=255u8 {
                if w.next() {
                    let t = [&base[..at], &[c], &base[at..]].concat();
                    let up: Vec<usize> = (0..=t.len()).collect();
                    one(w, &t, &up);
                }
            }
        }
    }
    // long lines and many lines
    for unit in [&b"\n"[..], b"x\n", b"xx\r\n", b"x", "\u{e9}\n".as_bytes(), b"abcdefg\n\n"] {
        for n in super::suite::LONG.iter().cloned().chain([511, 512, 513, 1023, 1024, 1025]) {
            for tail in [&b""[..], b"\n", b"x"] {
                if w.next() {
                    let t = [&unit.repeat(n), tail].concat();
                    let mut o: Vec<usize> = (0..=t.len()).collect();
                    if t.len() > 600 {
                        o = o.into_iter().filter(|i| i % 7 == 0 || *i < 40 || *i > t.len() - 40 || (250..260).contains(i)).collect();
                    }
                    one(w, &t, &o);
                }
            }
        }
    }
    for (u, n) in [(&b"\n"[..], 70_000usize), (b"x", 70_000), (b"xy\n", 30_000), (b"ab\ncd", 20_000)] {
        if w.next() {
            let t = u.repeat(n);
            let l = t.len();
            one(w, &t, &[0, 1, 2, l / 2 - 1, l / 2, l / 2 + 1, 255, 256, 257, 65_535.min(l), 65_536.min(l), 65_537.min(l), l - 2, l - 1, l]);
        }
    }
    // lines around the sizes at which blocks and buffers end
    let mut sizes: Vec<usize> = super::suite::LONG.to_vec();
    for p in 8..=tier.pick(16, 18) {
        let k = 1usize << p;
        sizes.extend([k - 2, k - 1, k, k + 1, k + 2, k + k / 2]);
    }
    sizes.extend([1000, 5000, 10_000, 50_000, 3 * 4096, 5 * 4096 + 1, 5 * 4096 - 1]);
    sizes.sort();
    sizes.dedup();
    for k in &sizes {
        for lead in [&b""[..], b"\n", b"xy\n", b"x\n\n"] {
            for tail in [&b""[..], b"\n", b"\n\n", b"\nx", b"\nx\n", b"\n\nx\nyz\n"] {
                for twice in [false, true] {
                    if w.next() {
                        let mut t = [lead, &vec![b'x'; *k], tail].concat();
                        if twice {
                            t.extend_from_slice(&vec![b'y'; *k]);
                            t.extend_from_slice(b"\nz");
                        }
                        let l = t.len();
                        let mut o = vec![0, 1, l / 2, l - 1, l];
                        o.extend((lead.len() + k).saturating_sub(1)..=(lead.len() + k + tail.len() + 1).min(l));
                        one(w, &t, &o);
                    }
                }
            }
        }
    }
    // every length of a first line, followed by others
    for k in 0..tier.pick(1100, 4200) {
        if w.next() {
            let t = [&vec![b'x'; k][..], b"\n\nab\n", &vec![b'y'; k % 97], b"\n"].concat();
            let l = t.len();
            one(w, &t, &[k, k + 1, k + 2, k + 4, l - 1, l]);
        }
    }
    // runs of lines of different lengths
    for s in strings(3, tier.pick(5, 6)) {
        if w.next() {
            let mut t = vec![];
            for c in &s {
                t.extend(vec![b'x'; [0, 1, 13][*c as usize]]);
                t.push(b'\n');
            }
            let o: Vec<usize> = (0..=t.len()).collect();
            one(w, &t, &o);
        }
    }
}
