//! C12: where and how failures are reported.
use super::common::*;
use super::suite::*;
use crate::engine::*;
use crate::gram::*;
use crate::real::*;
use crate::refm::*;
use lang_pt::lexeme::{Pattern, Punctuations};
use lang_pt::{Code, ILexeme, ITokenization, Tokenizer};
use std::rc::Rc;

pub const PROP: Prop = Prop {
    id: "C12",
    run,
    space: "every grammar expression up to size 5 (thorough 6) and every small recursive / two-rule system, in text parsing over \
all texts of length <= 3 (4) over {a, b, line feed, two-byte letter} and length <= 4 over {a,b}, in token parsing over all \
token sequences of length <= 4 over two structural and two ignorable kinds (one of them a line break); pumped inputs; tokens of up to 65 537 bytes; every \
tokenizer of three lexemes on every text with unknown characters, and at the end of up to 65 540 repetitions; pointer, line, column, end-of-file wording and offending \
token of every failure compared with the reference; the shared families of DESIGN.md (subjects in 29 contexts, special characters, equal node values, failing validations, inputs of 65 540 items, nesting to 2600, wide and deep rules)",
    assumptions: &["a message names the position by its last two numbers, line then column"],
};

const ASP: Asp = Asp { tree: false, consumed: false, ptr: true, msg: true, val: true, vlog: false };

fn run(w: &mut W, tier: Tier) {
    let t = Opts::text();
    let k = Opts::token();
    let s = match tier {
        Tier::Quick => Size { one: 5, rec: 5, two: (3, 3), mixed: 4, len: 4, pumps: true, dia: false, ctx: 4 },
        Tier::Thorough => Size { one: 6, rec: 6, two: (4, 3), mixed: 5, len: 4, pumps: true, dia: false, ctx: 5 },
    };
    text_suite(w, s, &|_| true, &mut |w, g, i| {
        run_case(w, g, &t, i, ASP);
    });
    let leaves = vec![a(), b(), Ex::W(1, true), Ex::Eof(true), Ex::T(3, false)];
    let un = vec![Un::List, Un::Opt, Un::LookV, Un::Val(Vp::FailIfB), Un::Val(Vp::Fail), Un::Val(Vp::Decline), Un::Memo, Un::Node];
    let sp = Space { leaves, un: un.clone(), bin: all_bin(), ter: vec![Ter::Cat, Ter::Alt] };
    let ins = texts(&[b"a", b"b", b"\n", "\u{e9}".as_bytes()], tier.pick(3, 4));
    run_fam(w, &Fam::one("text with line breaks and letters outside ASCII", sp, tier.pick(4, 5)), &|_| true, &ins, &mut |w, g, i| {
        run_case(w, g, &t, i, ASP);
    });
    let mut ins = vec![];
    for bytes in [&b"\xff"[..], b"\x00", b"\xc3", b"\xf0\x9f\x98\x80", b"\xe2\x82", b"\xed\xa0\x80", b"\r\n", b"'", b"\"", b"{1}"] {
        for pre in [&b""[..], b"a", b"a\n", b"ab\nb"] {
            for post in [&b""[..], b"a", b"\n"] {
                ins.push(Input::text(&[pre, bytes, post].concat()));
            }
        }
    }
    let sp = Space { leaves: vec![a(), b(), Ex::W(1, true), Ex::Eof(true)], un: vec![Un::List, Un::Opt], bin: all_bin(), ter: vec![] };
    run_fam(w, &Fam::one("arbitrary bytes", sp, 4), &|_| true, &ins, &mut |w, g, i| {
        run_case(w, g, &t, i, ASP);
    });
    token_suite(w, Size { rec: 5, len: tier.pick(3, 4), ..s }, &|_| true, &mut |w, g, i| {
        if !skippable(g) {
            run_case(w, g, &k, i, ASP);
        }
    });
    let sp = Space { leaves: vec![a(), b(), Ex::T(1, false), Ex::Eof(true)], un, bin: all_bin(), ter: vec![Ter::Cat, Ter::Alt] };
    let ins = streams(&[0, 1, -1, -2], 4);
    run_fam(w, &Fam::one("tokens with line breaks", sp, tier.pick(4, 5)), &|_| true, &ins, &mut |w, g, i| {
        if !skippable(g) {
            run_case(w, g, &k, i, ASP);
        }
    });
    // tokens of any text: beyond ASCII, over several lines, no text at all, quotes
    let names: [[&[u8]; 2]; 6] = [
        ["\u{e9}".as_bytes(), b"b"],
        [b"x\ny", "\u{20ac}\n".as_bytes()],
        [b"\xff\xfe", b"\xc3"],
        [b"\"", b"'\\"],
        [b"\0", "\u{feff}".as_bytes()],
        [b"{}", b"1 2 3"],
    ];
    let sp = Space { leaves: vec![a(), b(), Ex::Eof(true)], un: vec![Un::List, Un::Opt, Un::LookV, Un::Memo], bin: all_bin(), ter: vec![Ter::Cat] };
    for n in &names {
        let ins: Vec<Input> = crate::gram::strings(3, 3).iter().map(|s| tokens_as(&s.iter().map(|c| [0i8, 1, -2][*c as usize]).collect::<Vec<i8>>(), n)).collect();
        run_fam(w, &Fam::one("tokens of other texts", sp.clone(), tier.pick(3, 4)), &|_| true, &ins, &mut |w, g, i| {
            run_case(w, g, &k, i, ASP);
        });
    }
    // tokens of many bytes
    for n in [33usize, 63, 64, 65, 80, 127, 128, 129, 255, 256, 257, 513, 1025, 65_537] {
        let names: [[Vec<u8>; 2]; 3] = [
            [b"k".repeat(n - 1), [&b"k".repeat(n - 1)[..], b"!"].concat()],
            ["\u{e9}".repeat(n / 2).into_bytes(), format!("a{}", "\u{20ac}".repeat(n / 3)).into_bytes()],
            [b"x\ny ".repeat(n / 4), [&b"\n".repeat(n)[..], b"z"].concat()],
        ];
        for nm in &names {
            let ins: Vec<Input> = crate::gram::strings(3, if n > 2000 { 2 } else { 3 })
                .iter()
                .map(|s| tokens_as(&s.iter().map(|c| [0i8, 1, -2][*c as usize]).collect::<Vec<i8>>(), &[&nm[0][..], &nm[1][..]]))
                .collect();
            let size = if n > 2000 { 2 } else { 3 };
            run_fam(w, &Fam::one("tokens of many bytes", sp.clone(), size), &|_| true, &ins, &mut |w, g, i| {
                run_case(w, g, &k, i, ASP);
            });
        }
    }
    let raw = Space {
        leaves: vec![a(), Ex::W(0, true), set(&[(0, true), (1, false)]), Ex::T(1, false), Ex::Eof(true)],
        un: vec![Un::Ns(true), Un::Ns(false), Un::St, Un::List, Un::Opt, Un::LookV],
        bin: all_bin(),
        ter: vec![],
    };
    let ins = streams(&[0, 1, -1], 4);
    run_fam(w, &Fam::one("raw regions", raw, tier.pick(4, 5)), &|r| any(r, &is_raw), &ins, &mut |w, g, i| {
        run_case(w, g, &k, i, ASP);
    });
    tokenizers(w, tier);
}

/// tokenization failures, straight and through a parser
fn tokenizers(w: &mut W, tier: Tier) {
    let mk = |i: usize| -> Rc<dyn ILexeme<Token = i8, State = u8>> {
        match i {
            0 => Rc::new(Punctuations::new(vec![("a", 0i8), ("ab", 1)]).unwrap()),
            1 => Rc::new(Pattern::new(1i8, "^b+").unwrap()),
            2 => Rc::new(Pattern::new(-1i8, "^[ \n]").unwrap()),
            _ => Rc::new(Pattern::new(2i8, "^(?:\u{e9}|c)").unwrap()),
        }
    };
    let acc = |i: usize, t: &[u8]| -> Option<usize> {
        match i {
            0 if t.starts_with(b"ab") => Some(2),
            0 if t.starts_with(b"a") => Some(1),
            1 => Some(t.iter().take_while(|c| **c == b'b').count()).filter(|n| *n > 0),
            2 if t.starts_with(b" ") || t.starts_with(b"\n") => Some(1),
            3 if t.starts_with(b"c") => Some(1),
            3 if t.starts_with("\u{e9}".as_bytes()) => Some(2),
            _ => None,
        }
    };
    let alpha: [&[u8]; 6] = [b"a", b"b", b"\n", b"x", "\u{e9}".as_bytes(), b"\xff"];
    let mut ins = texts(&alpha, tier.pick(4, 5));
    for n in LONG.iter().chain(HUGE) {
        for (unit, end) in [(&b"ab"[..], &b"x"[..]), (b"\n", b"x"), (b"b", b"\xff"), (b"a\nb", b"xx"), ("\u{e9}".as_bytes(), b"x"), (b"b", b"b")] {
            ins.push(Input::text(&[&unit.repeat(*n)[..], end, b"a\n"].concat()));
        }
    }
    for mask in 1..16usize {
        let sel: Vec<usize> = (0..4).filter(|i| mask >> i & 1 == 1).collect();
        if !w.next() {
            continue;
        }
        let tk = Rc::new(Tokenizer::<i8, u8>::new(sel.iter().map(|i| mk(*i)).collect()));
        let all = Gram::single(&Ex::List(Box::new(Ex::Set(vec![(0, true), (1, true), (2, true)]))));
        let built = build(&all, &Opts::token()).unwrap();
        let dp = Dp::new(tk.clone(), built.root.clone()).unwrap();
        for inp in &ins {
            let mut at = 0;
            while at < inp.text.len() {
                match sel.iter().find_map(|i| acc(*i, &inp.text[at..])) {
                    Some(n) => at += n,
                    None => break,
                }
                w.transitions += 1;
            }
            w.states += 1;
            w.traces += 1;
            let fail = at < inp.text.len();
            for k in 0..3 {
                let r = guarded(|| match k {
                    0 => tk.tokenize(&Code::new(&inp.text)).err(),
                    1 => dp.parse(&inp.text).err().filter(|_| fail),
                    _ => dp.tokenize_n_parse(&inp.text).err().filter(|_| fail),
                });
                let bad = match r {
                    Err(m) => Some(format!("panic: {}", m)),
                    Ok(None) if fail => Some("no error".into()),
                    Ok(Some(e)) if !fail => Some(format!("error {:?}", e)),
                    Ok(Some(e)) => {
                        let lc = line_col(&inp.text, at);
                        let n = ints(&e.message);
                        if !e.to_string().contains(&e.message) {
                            Some(format!("shown as {:?}, message {:?}", e.to_string(), e.message))
                        } else if e.pointer != at {
                            Some(format!("pointer {}", e.pointer))
                        } else if n.len() < 2 || (n[n.len() - 2], n[n.len() - 1]) != lc {
                            Some(format!("message {:?}, position {:?}", e.message, lc))
                        } else {
                            None
                        }
                    }
                    Ok(None) => None,
                };
                if let Some(m) = bad {
                    w.viol(
                        "tokenizer-error",
                        format!("lexemes {:?} on {}: tokens end at {} of {} bytes; observed {}", sel, show_input(inp), at, inp.text.len(), m),
                    );
                    return;
                }
            }
        }
    }
}
