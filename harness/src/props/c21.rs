//! C21: tree queries agree with a pre-order walk.
use crate::engine::*;
use lang_pt::ASTNode;

pub const PROP: Prop = Prop {
    id: "C21",
    run,
    space: "every ordered tree of up to 7 nodes (thorough 8) over three labels: every listing, find, containment and direct-child \
query by label (also absent ones) and by every predicate of a family, every nested path of length <= 3 (also repeated and absent \
labels), results compared by identity with an explicit pre-order walk; chains 2 000 deep and nodes with up to 5 000 children; \
clone, display and print of each tree; trees of up to 4 100 nodes and nodes with up to 131 075 children; nodes with spans in any order",
    assumptions: &[],
};

type A = ASTNode<u16>;

/// pre-order, explicit stack
fn walk(r: &A) -> Vec<&A> {
    let mut out = vec![];
    let mut st = vec![r];
    while let Some(x) = st.pop() {
        out.push(x);
        st.extend(x.children.iter().rev());
    }
    out
}
fn p(v: &A) -> *const A {
    v
}
fn ps(v: &[&A]) -> Vec<*const A> {
    v.iter().map(|x| p(x)).collect()
}
fn equal(a: &A, b: &A) -> bool {
    let (x, y) = (walk(a), walk(b));
    x.len() == y.len() && x.iter().zip(&y).all(|(a, b)| a.node == b.node && a.start == b.start && a.end == b.end && a.bound == b.bound && a.children.len() == b.children.len())
}

pub fn check(t: &A, labels: &[u16], paths: &[Vec<u16>], show: bool) -> Result<u64, String> {
    let all = walk(t);
    let mut n = 0;
    for l in labels {
        let m: Vec<&A> = all.iter().filter(|x| x.node == *l).cloned().collect();
        n += 5;
        if ps(&t.list_tree_with_token(l)) != ps(&m) {
            return Err(format!("list_tree_with_token({})", l));
        }
        if t.find_tree_with_node(l).map(p) != m.first().map(|x| p(x)) {
            return Err(format!("find_tree_with_node({})", l));
        }
        if t.contains(l) == m.is_empty() {
            return Err(format!("contains({})", l));
        }
        if t.get_child(l).map(p) != t.children.iter().find(|c| c.node == *l).map(p) {
            return Err(format!("get_child({})", l));
        }
        for c in &t.children {
            if c.contains(l) != walk(c).iter().any(|x| x.node == *l) {
                return Err(format!("contains({}) of a child", l));
            }
        }
    }
    let preds: [(&str, fn(&A) -> bool); 7] = [
        ("all", |_| true),
        ("none", |_| false),
        ("leaf", |a| a.children.is_empty()),
        ("inner", |a| !a.children.is_empty()),
        ("odd start", |a| a.start % 2 == 1),
        ("start 3 or label 2", |a| a.start == 3 || a.node == 2),
        ("not the root", |a| a.start > 0),
    ];
    for (name, f) in preds {
        let m: Vec<&A> = all.iter().filter(|x| f(x)).cloned().collect();
        n += 2;
        if ps(&t.list_tree(&f)) != ps(&m) {
            return Err(format!("list_tree by {}", name));
        }
        if t.find_tree(&f).map(p) != m.first().map(|x| p(x)) {
            return Err(format!("find_tree by {}", name));
        }
    }
    for path in paths {
        n += 1;
        let mut cur = Some(t);
        for l in path {
            cur = cur.and_then(|c| walk(c).into_iter().find(|x| x.node == *l));
        }
        if t.find_nested_tree_with_node(path).map(p) != cur.map(p) {
            return Err(format!("find_nested_tree_with_node({:?})", path));
        }
    }
    if show {
        n += 4;
        let before = (format!("{}", t), format!("{:?}", t));
        let c = t.clone();
        if !equal(&c, t) {
            return Err("the clone differs".into());
        }
        if t.print().is_err() {
            return Err("print fails".into());
        }
        if before != (format!("{}", t), format!("{:?}", t)) || before.0 != format!("{}", c) || before.0.is_empty() {
            return Err("display changes".into());
        }
        // every node shows up
        if all.iter().any(|x| !before.1.contains(&format!("{:?}", x.node))) {
            return Err("a node is missing from the display".into());
        }
    }
    Ok(n)
}

/// all ordered forests with `n` nodes as depth sequences
pub fn shapes(n: usize) -> Vec<Vec<usize>> {
    let mut r = vec![vec![0]];
    for _ in 1..n {
        r = r
            .into_iter()
            .flat_map(|v: Vec<usize>| {
                let d = *v.last().unwrap();
                (1..=d + 1).map(move |k| {
                    let mut v = v.clone();
                    v.push(k);
                    v
                })
            })
            .collect();
    }
    r
}
/// the same tree with other spans
fn respan(t: &mut A, k: usize) {
    // queries by value have nothing to do with where a node lies
    let mut st = vec![t];
    while let Some(x) = st.pop() {
        let (s, e) = (x.start, x.end);
        (x.start, x.end) = match k {
            1 => (0, 0),
            2 => (s, s),
            3 => (usize::MAX - e, usize::MAX - s),
            4 => (e, s),
            _ => (s / 2, e * 3),
        };
        x.bound = match k {
            1 => None,
            2 => Some((s.into(), s.into())),
            3 => Some((e.into(), s.into())),
            _ => Some((0.into(), 0.into())),
        };
        st.extend(x.children.iter_mut());
    }
}
pub fn tree(depth: &[usize], lab: &dyn Fn(usize) -> u16) -> A {
    fn rec(depth: &[usize], i: &mut usize, lab: &dyn Fn(usize) -> u16) -> A {
        let me = *i;
        *i += 1;
        let mut c = vec![];
        while *i < depth.len() && depth[*i] > depth[me] {
            c.push(rec(depth, i, lab));
        }
        ASTNode::new(lab(me), me, *i, if me % 2 == 0 { None } else { Some((me.into(), (*i).into())) }, c)
    }
    rec(depth, &mut 0, lab)
}

fn run(w: &mut W, tier: Tier) {
    let labels = [0u16, 1, 2, 9];
    let mut paths: Vec<Vec<u16>> = vec![vec![]];
    let mut lo = 0;
    for _ in 0..3 {
        let hi = paths.len();
        for i in lo..hi {
            for l in labels {
                let mut v = paths[i].clone();
                v.push(l);
                paths.push(v);
            }
        }
        lo = hi;
    }
    for n in 1..=tier.pick(7usize, 8) {
        for s in shapes(n) {
            for code in 0..3usize.pow(n as u32) {
                if w.stop() {
                    return;
                }
                if !w.next() {
                    continue;
                }
                let t = tree(&s, &|i| (code / 3usize.pow(i as u32) % 3) as u16);
                let r = guarded(|| check(&t, &labels, &paths, n <= 5));
                w.states += n as u64;
                match r {
                    Ok(Ok(k)) => {
                        w.traces += k;
                        w.transitions += k * n as u64;
                    }
                    Ok(Err(m)) => w.viol("query", format!("tree {:?}: {}", t, m)),
                    Err(m) => w.viol("panic", format!("tree {:?}: {}", t, m)),
                }
                w.sample(|| format!("{:?}", t));
                if n <= tier.pick(6, 7) {
                    let mut t = t;
                    let k = 1 + (code % 5);
                    respan(&mut t, k);
                    match guarded(|| check(&t, &labels, &paths, n <= 4)) {
                        Ok(Ok(k)) => w.traces += k,
                        Ok(Err(m)) => w.viol("query", format!("tree {:?}: {}", t, m)),
                        Err(m) => w.viol("panic", format!("tree {:?}: {}", t, m)),
                    }
                }
            }
        }
    }
    // large trees
    for n in [100usize, 300, 2000, 4100] {
        for shape in 0..4usize {
            for lab in 0..4usize {
                if !w.next() {
                    continue;
                }
                let depth: Vec<usize> = (0..n)
                    .map(|i| match shape {
                        0 => i,
                        1 => i.min(1),
                        2 => if i == 0 { 0 } else { 1 + (i - 1) % 7 },
                        _ => if i == 0 { 0 } else { 1 + (i as u32).trailing_ones() as usize },
                    })
                    .collect();
                let depth: Vec<usize> = depth.iter().enumerate().scan(0usize, |prev, (i, d)| {
                    let v = if i == 0 { 0 } else { (*d).min(*prev + 1).max(1) };
                    *prev = v;
                    Some(v)
                }).collect();
                let f = move |i: usize| match lab {
                    0 => (i % 3) as u16,
                    1 => if i == n - 1 { 2 } else { 0 },
                    2 => if i == 0 { 1 } else { 0 },
                    _ => if i > n / 2 { 2 } else { 1 },
                };
                let t = tree(&depth, &f);
                w.states += n as u64;
                match guarded(|| check(&t, &labels, &paths, n <= 300)) {
                    Ok(Ok(k)) => w.traces += k,
                    Ok(Err(m)) => w.viol("query", format!("tree of {} nodes, shape {}, labels {}: {}", n, shape, lab, m)),
                    Err(m) => w.viol("panic", format!("tree of {} nodes, shape {}: {}", n, shape, m)),
                }
            }
        }
    }
    // wide nodes
    for n in [5000usize, 65_535, 65_538, 131_075] {
        if w.next() {
            let t = tree(&(0..n).map(|i| i.min(1)).collect::<Vec<_>>(), &|i| if i == n - 2 { 1 } else { 0 });
            match guarded(|| check(&t, &labels, &paths[..20], n == 5000)) {
                Ok(Ok(k)) => w.traces += k,
                Ok(Err(m)) | Err(m) => w.viol("query", format!("node with {} children: {}", n, m)),
            }
        }
    }
}
