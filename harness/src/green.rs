//! Properties of green trees, the builder, the cache, small types.
use crate::model::*;
use rowan::*;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

type El = NodeOrToken<GreenNode, GreenToken>;

pub fn green_model(g: &GreenNodeData) -> M {
    M::N(
        g.kind().0,
        g.children()
            .map(|c| match c {
                NodeOrToken::Node(n) => green_model(n),
                NodeOrToken::Token(t) => M::T(t.kind().0, t.text().to_string()),
            })
            .collect(),
    )
}

/// recursive well-formedness: lengths and offsets (offsets observed through
/// the ranges of the children of an immutable root over each node)
pub fn check_green(g: &GreenNodeData) {
    fn go(g: &GreenNodeData, seen: &mut std::collections::HashSet<usize>) -> u32 {
        let mut sum: u32 = 0;
        let mut starts = vec![];
        for c in g.children() {
            starts.push(sum);
            let l = match c {
                NodeOrToken::Node(n) => {
                    if seen.insert(n as *const _ as usize) {
                        go(n, seen)
                    } else {
                        n.text_len().into()
                    }
                }
                NodeOrToken::Token(t) => {
                    let l: u32 = t.text_len().into();
                    assert_eq!(l as usize, t.text().len(), "text_len of a green token");
                    l
                }
            };
            sum += l;
        }
        assert_eq!(u32::from(g.text_len()), sum, "text_len of a green node is not the sum of its children");
        let root = rowan::cursor::SyntaxNode::new_root(g.to_owned());
        let mut i = 0;
        for c in root.children_with_tokens() {
            assert_eq!(u32::from(c.text_range().start()), starts[i], "offset of child {i}");
            let end = starts.get(i + 1).copied().unwrap_or(sum);
            assert_eq!(u32::from(c.text_range().end()), end, "end of child {i}");
            i += 1;
        }
        assert_eq!(i, starts.len());
        sum
    }
    go(g, &mut Default::default());
}

pub fn make(m: &M) -> El {
    match m {
        M::T(k, t) => GreenToken::new(SyntaxKind(*k), t).into(),
        M::N(k, c) => GreenNode::new(SyntaxKind(*k), c.iter().map(make)).into(),
    }
}
pub fn build_with(m: &M, b: &mut GreenNodeBuilder) {
    match m {
        M::T(k, t) => b.token(SyntaxKind(*k), t),
        M::N(k, c) => {
            b.start_node(SyntaxKind(*k));
            for x in c {
                build_with(x, b);
            }
            b.finish_node();
        }
    }
}
pub fn build(m: &M, r: &mut Rng) -> GreenNode {
    match r.below(3) {
        0 => make(m).into_node().unwrap(),
        1 => {
            let mut b = GreenNodeBuilder::new();
            build_with(m, &mut b);
            b.finish()
        }
        _ => {
            let mut cache = NodeCache::default();
            for _ in 0..2 {
                let mut b = GreenNodeBuilder::with_cache(&mut cache);
                build_with(m, &mut b);
                b.finish();
            }
            let mut b = GreenNodeBuilder::with_cache(&mut cache);
            build_with(m, &mut b);
            b.finish()
        }
    }
}

// ---- P01 -----------------------------------------------------------------------
/// A random well-nested call sequence, with its meaning computed on the side.
pub fn p01(r: &mut Rng, small: Option<&M>) -> String {
    let mut cache = NodeCache::default();
    let warm = r.chance(1, 2);
    let own = r.chance(1, 3);
    let rounds = 1 + r.below(3);
    let mut desc = String::new();
    for round in 0..rounds {
        let mut b = if own { GreenNodeBuilder::new() } else { GreenNodeBuilder::with_cache(&mut cache) };
        if let (Some(m), true) = (small, warm || round == 0) {
            build_with(m, &mut b);
            let g = b.finish();
            assert!(green_model(&g) == *m, "built {} instead of {}", show(&green_model(&g)), show(m));
            check_green(&g);
            desc = show(m);
            continue;
        }
        let mut log = String::new();
        // stack of (kind, children)
        let mut stack: Vec<(u16, Vec<M>)> = vec![];
        // valid checkpoints: (checkpoint, depth, position)
        let mut cps: Vec<(Checkpoint, usize, usize)> = vec![];
        let mut top: Vec<M> = vec![];
        let mut all = String::new();
        let n = 3 + r.below(40);
        // optionally everything before the root: start root through a checkpoint
        let late_root = r.chance(1, 4);
        if !late_root {
            b.start_node(SyntaxKind(99));
            stack.push((99, vec![]));
        } else {
            cps.push((b.checkpoint(), 0, 0));
        }
        for _ in 0..n {
            let depth = stack.len();
            match r.below(10) {
                0..=3 => {
                    let k = r.below(4) as u16;
                    let t = gen_text(r);
                    log.push_str(&format!("t({k},{t:?}) "));
                    b.token(SyntaxKind(k), &t);
                    all.push_str(&t);
                    stack.last_mut().map(|s| &mut s.1).unwrap_or(&mut top).push(M::T(k, t));
                }
                4 | 5 => {
                    let k = r.below(4) as u16;
                    log.push_str(&format!("start({k}) "));
                    b.start_node(SyntaxKind(k));
                    stack.push((k, vec![]));
                }
                6 | 7 if depth > (if late_root { 0 } else { 1 }) => {
                    log.push_str("finish ");
                    b.finish_node();
                    let (k, c) = stack.pop().unwrap();
                    let d = stack.len();
                    cps.retain(|c| c.1 <= d);
                    stack.last_mut().map(|s| &mut s.1).unwrap_or(&mut top).push(M::N(k, c));
                }
                8 => {
                    let pos = stack.last().map(|s| s.1.len()).unwrap_or(top.len());
                    log.push_str(&format!("cp{} ", cps.len()));
                    cps.push((b.checkpoint(), depth, pos));
                }
                9 => {
                    // a checkpoint taken in the current branch
                    let here: Vec<usize> = (0..cps.len()).filter(|&i| cps[i].1 == depth).collect();
                    if let Some(&i) = here.get(r.below(here.len().max(1))) {
                        let (cp, _, pos) = cps[i];
                        let k = 4 + r.below(4) as u16;
                        log.push_str(&format!("start_at(cp{i},{k}) "));
                        b.start_node_at(cp, SyntaxKind(k));
                        let cur = stack.last_mut().map(|s| &mut s.1).unwrap_or(&mut top);
                        let moved = cur.split_off(pos);
                        stack.push((k, moved));
                        // checkpoints of this depth beyond pos now lie inside the new node
                        cps.retain(|c| !(c.1 == depth && c.2 > pos));
                    }
                }
                _ => {}
            }
        }
        while stack.len() > (if late_root { 0 } else { 1 }) {
            b.finish_node();
            let (k, c) = stack.pop().unwrap();
            stack.last_mut().map(|s| &mut s.1).unwrap_or(&mut top).push(M::N(k, c));
        }
        if late_root {
            let cp = cps[0].0;
            b.start_node_at(cp, SyntaxKind(99));
            b.finish_node();
            top = vec![M::N(99, std::mem::take(&mut top))];
        } else {
            b.finish_node();
            let (k, c) = stack.pop().unwrap();
            top.push(M::N(k, c));
        }
        let g = b.finish();
        let want = top.pop().unwrap();
        assert!(top.is_empty());
        let got = green_model(&g);
        assert!(got == want, "calls {log}: built {} instead of {}", show(&got), show(&want));
        check_green(&g);
        let n = rowan::cursor::SyntaxNode::new_root(g);
        assert_eq!(n.to_string(), all, "text of the built tree");
        assert_eq!(n.text().to_string(), all, "text of the built tree");
        desc = log;
    }
    desc
}

// ---- P02 -----------------------------------------------------------------------
pub fn p02(m: &M, r: &mut Rng) {
    for how in 0..3 {
        let g = match how {
            0 => make(m).into_node().unwrap(),
            1 => {
                let mut b = GreenNodeBuilder::new();
                build_with(m, &mut b);
                b.finish()
            }
            _ => build(m, r),
        };
        assert!(green_model(&g) == *m, "content of a green node");
        assert_eq!(u32::from(g.text_len()), m.len(), "text_len of the root");
        assert_eq!(g.children().len(), m.children().len());
        check_green(&g);
        if m.children().len() < 500 {
            let g2 = edit_once(&g, r);
            check_green(&g2);
        }
        let d = g.to_owned();
        assert!(d == g);
    }
    for c in m.children().iter().take(20) {
        if let M::T(k, t) = c {
            let x = GreenToken::new(SyntaxKind(*k), t);
            assert_eq!(x.kind().0, *k);
            assert_eq!(x.text(), t);
            assert_eq!(u32::from(x.text_len()) as usize, t.len(), "text_len of token {t:?}");
        }
    }
}
fn some_element(r: &mut Rng) -> (El, M) {
    let m = match r.below(4) {
        0 => M::T(5, String::new()),
        1 => M::T(6, gen_text(r)),
        2 => M::N(7, vec![]),
        _ => small_tree(r.next() % small_count(3)),
    };
    (make(&m), m)
}
fn edit_once(g: &GreenNode, r: &mut Rng) -> GreenNode {
    let n = g.children().len();
    match r.below(4) {
        0 if n > 0 => g.replace_child(r.below(n), some_element(r).0),
        1 => g.insert_child(r.below(n + 1), some_element(r).0),
        2 if n > 0 => g.remove_child(r.below(n)),
        _ => {
            let a = r.below(n + 1);
            let b = a + r.below(n - a + 1);
            let v: Vec<El> = (0..r.below(4)).map(|_| some_element(r).0).collect();
            g.splice_children(a..b, v)
        }
    }
}

// ---- P03 -----------------------------------------------------------------------
fn addr(c: &NodeOrToken<&GreenNodeData, &GreenTokenData>) -> usize {
    match c {
        NodeOrToken::Node(n) => *n as *const GreenNodeData as usize,
        NodeOrToken::Token(t) => *t as *const GreenTokenData as usize,
    }
}
pub fn p03(m: &M, r: &mut Rng) {
    let g = build(m, r);
    let n = m.children().len();
    let orig: Vec<M> = m.children().to_vec();
    let addrs: Vec<usize> = g.children().map(|c| addr(&c)).collect();
    let check = |got: &GreenNode, want: &[M], keep: &[Option<usize>], what: &str| {
        let w = M::N(m.kind(), want.to_vec());
        assert!(green_model(got) == w, "{what}: {} expected {}", show(&green_model(got)), show(&w));
        assert_eq!(got.kind().0, m.kind());
        check_green(got);
        // untouched children are the very same shared objects
        for (c, k) in got.children().zip(keep) {
            if let Some(a) = k {
                assert_eq!(addr(&c), *a, "{what}: an untouched child was copied");
            }
        }
        assert!(green_model(&g) == *m, "{what}: the original changed");
        assert!(g.children().map(|c| addr(&c)).eq(addrs.iter().copied()), "{what}: the original changed");
    };
    let some: Vec<Option<usize>> = addrs.iter().map(|a| Some(*a)).collect();
    let idx: Vec<usize> = if n <= 12 { (0..n).collect() } else { vec![0, n - 1, n / 2, r.below(n)] };
    for &i in &idx {
        let (e, em) = some_element(r);
        let mut w = orig.clone();
        w[i] = em;
        let mut k = some.clone();
        k[i] = None;
        check(&g.replace_child(i, e), &w, &k, &format!("replace_child({i})"));
        let mut w = orig.clone();
        w.remove(i);
        let mut k = some.clone();
        k.remove(i);
        check(&g.remove_child(i), &w, &k, &format!("remove_child({i})"));
    }
    let mut ins = idx.clone();
    ins.push(n);
    for i in ins {
        let (e, em) = some_element(r);
        let mut w = orig.clone();
        w.insert(i, em);
        let mut k = some.clone();
        k.insert(i, None);
        check(&g.insert_child(i, e), &w, &k, &format!("insert_child({i})"));
    }
    for _ in 0..6 {
        let a = r.below(n + 1);
        let b = a + r.below(n - a + 1);
        let es: Vec<(El, M)> = (0..r.below(5)).map(|_| some_element(r)).collect();
        let mut w = orig.clone();
        w.splice(a..b, es.iter().map(|e| e.1.clone()));
        let mut k = some.clone();
        k.splice(a..b, es.iter().map(|_| None));
        let els: Vec<El> = es.iter().map(|e| e.0.clone()).collect();
        check(&g.splice_children(a..b, els.clone()), &w, &k, &format!("splice_children({a}..{b})"));
        if b > a {
            check(&g.splice_children(a..=b - 1, els.clone()), &w, &k, &format!("splice_children({a}..={})", b - 1));
        }
        if b == n {
            check(&g.splice_children(a.., els.clone()), &w, &k, &format!("splice_children({a}..)"));
        }
        if a == 0 {
            check(&g.splice_children(..b, els), &w, &k, &format!("splice_children(..{b})"));
        }
    }
    if n <= 500 {
        let i = n + r.below(3);
        let (e, _) = some_element(r);
        let res = crate::quiet(|| g.remove_child(i));
        assert!(res.is_err(), "remove_child out of bounds must panic");
        let res = crate::quiet(|| g.insert_child(i + 1, e));
        assert!(res.is_err(), "insert_child out of bounds must panic");
        assert!(green_model(&g) == *m);
    }
}

// ---- P04 -----------------------------------------------------------------------
pub fn p04(r: &mut Rng, growth: bool) {
    let mut cache = NodeCache::default();
    let mut toks: std::collections::HashMap<(u16, String), GreenToken> = Default::default();
    let mut nodes: std::collections::HashMap<(u16, Vec<usize>), GreenNode> = Default::default();
    // objects that are known to be cached
    let mut cached: std::collections::HashSet<usize> = Default::default();
    // keep everything alive so that addresses are not reused
    let mut alive: Vec<GreenNode> = vec![];
    let (rounds, size) = if growth { (40, 60) } else { (1 + r.below(5), 20) };
    let mut serial = 0;
    for _ in 0..rounds {
        let m = {
            let mut v = vec![];
            for _ in 0..1 + r.below(4) {
                if growth {
                    for _ in 0..10 {
                        serial += 1;
                        v.push(M::N(1 + (serial % 5) as u16, vec![M::T(2, format!("w{serial}")), M::N(3, vec![M::T(2, format!("v{}", serial % 97))])]));
                        v.push(M::T((serial % 3) as u16, format!("v{}", serial % 97)));
                    }
                }
                v.push(random_tree(r, size));
                v.push(small_tree(r.next() % small_count(3)));
            }
            M::N(77, v)
        };
        let mut b = GreenNodeBuilder::with_cache(&mut cache);
        build_with(&m, &mut b);
        let g = b.finish();
        assert!(green_model(&g) == m, "building with a used cache changed the tree");
        check_green(&g);
        share(&g, &mut toks, &mut nodes, &mut cached);
        alive.push(g);
    }
    // different objects differ, and the merged ones are as requested
    for ((k, t), x) in &toks {
        assert_eq!((x.kind().0, x.text()), (*k, t.as_str()));
    }
}
fn share(
    g: &GreenNodeData,
    toks: &mut std::collections::HashMap<(u16, String), GreenToken>,
    nodes: &mut std::collections::HashMap<(u16, Vec<usize>), GreenNode>,
    cached: &mut std::collections::HashSet<usize>,
) -> usize {
    let mut ids = vec![];
    for c in g.children() {
        match c {
            NodeOrToken::Token(t) => {
                let a = t as *const GreenTokenData as usize;
                let first = toks.entry((t.kind().0, t.text().to_string())).or_insert_with(|| t.to_owned());
                let d: &GreenTokenData = first;
                assert_eq!(d as *const GreenTokenData as usize, a, "two equal tokens {:?} built through one cache are not shared", t);
                cached.insert(a);
                ids.push(a);
            }
            NodeOrToken::Node(n) => {
                let a = share(n, toks, nodes, cached);
                ids.push(a);
            }
        }
    }
    let a = g as *const GreenNodeData as usize;
    if ids.len() <= 3 && ids.iter().all(|i| cached.contains(i)) {
        let first = nodes.entry((g.kind().0, ids)).or_insert_with(|| g.to_owned());
        let d: &GreenNodeData = first;
        assert_eq!(d as *const GreenNodeData as usize, a, "two equal small nodes {} built through one cache are not shared", show(&green_model(g)));
        if g.kind().0 != 0 || g.children().len() > 0 {
            cached.insert(a);
        }
    }
    a
}

// ---- P18 -----------------------------------------------------------------------
pub fn p18(r: &mut Rng) {
    for n in 0..3usize {
        let items: Vec<u64> = (0..n).map(|_| r.next()).collect();
        let mk = || match n {
            0 => TokenAtOffset::None,
            1 => TokenAtOffset::Single(items[0]),
            _ => TokenAtOffset::Between(items[0], items[1]),
        };
        assert_eq!(mk().left_biased(), items.first().copied(), "left_biased");
        assert_eq!(mk().right_biased(), items.last().copied(), "right_biased");
        let mut it = mk();
        for k in 0..=n + 1 {
            let left = n.saturating_sub(k);
            assert_eq!(it.size_hint(), (left, Some(left)), "size_hint after {k} of {n}");
            assert_eq!(it.len(), left, "len after {k} of {n}");
            let mut c = it.clone();
            assert_eq!(c.clone().collect::<Vec<_>>(), items[k.min(n)..].to_vec(), "remaining after {k} of {n}");
            assert_eq!(c.clone().left_biased(), items.get(k).copied());
            assert_eq!(c.clone().right_biased(), if k < n { items.last().copied() } else { None });
            assert_eq!(c.by_ref().count(), left);
            assert_eq!(it.next(), items.get(k).copied(), "item {k} of {n}");
        }
        let x = r.next();
        let m = mk().map(|v| (v ^ x, "s".to_string()));
        assert_eq!(m.map(|v| v.0 ^ x).collect::<Vec<_>>(), items, "map");
    }
    let v = r.next();
    match WalkEvent::Enter(v).map(|x| x.to_string()) {
        WalkEvent::Enter(s) => assert_eq!(s, v.to_string()),
        WalkEvent::Leave(_) => panic!("map changes enter to leave"),
    }
    match WalkEvent::Leave(v).map(|x| x.to_string()) {
        WalkEvent::Leave(s) => assert_eq!(s, v.to_string()),
        WalkEvent::Enter(_) => panic!("map changes leave to enter"),
    }
    type NT = NodeOrToken<u64, String>;
    let a: NT = NodeOrToken::Node(v);
    let b: NT = NodeOrToken::Token(v.to_string());
    assert_eq!(a.as_node(), Some(&v));
    assert_eq!(a.as_token(), None);
    assert_eq!(b.as_node(), None);
    assert_eq!(b.as_token(), Some(&v.to_string()));
    assert_eq!(a.clone().into_node(), Some(v));
    assert_eq!(a.clone().into_token(), None);
    assert_eq!(b.clone().into_node(), None);
    assert_eq!(b.clone().into_token(), Some(v.to_string()));
    assert_eq!(a.to_string(), v.to_string());
    assert_eq!(b.to_string(), v.to_string());
    assert!(a != b && a == a.clone() && b == b.clone() && a < b);
    let gt = GreenToken::new(SyntaxKind(1), "x");
    let ge: El = gt.clone().into();
    assert_eq!(ge.as_token(), Some(&gt));
    assert_eq!((ge.kind(), ge.text_len()), (gt.kind(), gt.text_len()));
    let gn = GreenNode::new(SyntaxKind(3), vec![ge.clone()]);
    let ne: El = gn.clone().into();
    assert_eq!(ne.as_node(), Some(&gn));
    assert_eq!((ne.kind(), ne.text_len()), (gn.kind(), gn.text_len()));
    let re: NodeOrToken<&GreenNodeData, &GreenTokenData> = (&gn).into();
    assert_eq!((re.kind(), re.text_len()), (gn.kind(), gn.text_len()));
    assert!(re.to_owned() == ne);
    let re: NodeOrToken<&GreenNodeData, &GreenTokenData> = (&gt).into();
    assert_eq!((re.kind(), re.text_len()), (gt.kind(), gt.text_len()));
    assert!(re.to_owned() == ge);
}

// ---- P19 -----------------------------------------------------------------------
fn h<T: Hash>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
pub fn p19_green(m1: &M, m2: &M, r: &mut Rng) {
    let (a, b, c) = (build(m1, r), build(m1, r), build(m2, r));
    let eq = m1 == m2;
    assert!(a == b, "equal content, unequal green nodes: {}", show(m1));
    assert_eq!(h(&a), h(&b), "equal green nodes hash differently");
    assert!(*a == *b);
    assert_eq!(a == c, eq, "equality of {} and {}", show(m1), show(m2));
    assert_eq!(c == a, eq);
    assert_eq!(*a == *c, eq, "equality of data {} and {}", show(m1), show(m2));
    for (x, mx) in a.children().zip(m1.children()).take(40) {
        for (y, my) in c.children().zip(m2.children()).take(40) {
            let same = mx == my;
            let (ox, oy) = (x.to_owned(), y.to_owned());
            assert_eq!(ox == oy, same, "equality of {} and {}", show(mx), show(my));
            if same {
                assert_eq!(h(&ox), h(&oy), "equal green elements hash differently");
            }
            if let (NodeOrToken::Token(p), NodeOrToken::Token(q)) = (x, y) {
                assert_eq!(p == q, same);
            }
        }
    }
}
pub fn mutate_model(m: &M, r: &mut Rng) -> M {
    match m {
        M::T(k, t) => match r.below(3) {
            0 => M::T(k.wrapping_add(1), t.clone()),
            1 => M::T(*k, format!("{t}x")),
            _ => {
                if t.is_empty() {
                    M::N(*k, vec![])
                } else {
                    M::T(*k, t.chars().rev().collect())
                }
            }
        },
        M::N(k, c) => {
            if c.is_empty() || r.chance(1, 5) {
                return match r.below(3) {
                    0 => M::N(k.wrapping_add(1), c.clone()),
                    1 => {
                        let mut c = c.clone();
                        c.push(M::T(1, String::new()));
                        M::N(*k, c)
                    }
                    _ => {
                        let mut c = c.clone();
                        c.reverse();
                        M::N(*k, c)
                    }
                };
            }
            let mut c = c.clone();
            let i = r.below(c.len());
            c[i] = mutate_model(&c[i], r);
            M::N(*k, c)
        }
    }
}

// ---- P20 -----------------------------------------------------------------------
pub fn p20(m: &M, r: &mut Rng) {
    let g = build(m, r);
    let all: Vec<usize> = g.children().map(|c| addr(&c)).collect();
    assert!(m.children().len() == all.len(), "number of children");
    for (c, x) in g.children().zip(m.children()) {
        match (c, x) {
            (NodeOrToken::Node(n), M::N(k, ch)) => assert!(n.kind().0 == *k && n.children().len() == ch.len(), "order of children"),
            (NodeOrToken::Token(t), M::T(k, s)) => assert!(t.kind().0 == *k && t.text() == s, "order of children"),
            _ => panic!("order of children"),
        }
    }
    for _ in 0..12 {
        let mut it = g.children();
        let (mut lo, mut hi) = (0usize, all.len());
        for _ in 0..4 + all.len().min(30) {
            assert_eq!(it.len(), hi - lo, "len");
            assert_eq!(it.size_hint(), (hi - lo, Some(hi - lo)), "size_hint");
            let a = |c: Option<NodeOrToken<&GreenNodeData, &GreenTokenData>>| c.map(|c| addr(&c));
            match r.below(10) {
                0..=2 => {
                    let want = if lo < hi { Some(all[lo]) } else { None };
                    assert_eq!(a(it.next()), want, "next");
                    lo = (lo + 1).min(hi);
                }
                3..=4 => {
                    let want = if lo < hi { Some(all[hi - 1]) } else { None };
                    assert_eq!(a(it.next_back()), want, "next_back");
                    hi = hi.saturating_sub(1).max(lo);
                }
                5 => {
                    let n = r.below(4);
                    let want = if lo + n < hi { Some(all[lo + n]) } else { None };
                    assert_eq!(a(it.nth(n)), want, "nth({n})");
                    lo = (lo + n + 1).min(hi);
                }
                6 => {
                    let n = r.below(4);
                    let want = if lo + n < hi { Some(all[hi - 1 - n]) } else { None };
                    assert_eq!(a(it.nth_back(n)), want, "nth_back({n})");
                    hi = if lo + n < hi { hi - 1 - n } else { lo };
                }
                7 => {
                    assert_eq!(it.clone().count(), hi - lo, "count");
                    assert_eq!(a(it.clone().last()), if lo < hi { Some(all[hi - 1]) } else { None }, "last");
                }
                8 => {
                    let v = it.clone().fold(vec![], |mut v, c| {
                        v.push(addr(&c));
                        v
                    });
                    assert_eq!(v, all[lo..hi].to_vec(), "fold");
                    let v = it.clone().rfold(vec![], |mut v, c| {
                        v.push(addr(&c));
                        v
                    });
                    let mut w = all[lo..hi].to_vec();
                    w.reverse();
                    assert_eq!(v, w, "rfold");
                }
                _ => {
                    let v: Vec<usize> = it.clone().map(|c| addr(&c)).collect();
                    assert_eq!(v, all[lo..hi].to_vec(), "collect");
                    let v: Vec<usize> = it.clone().rev().map(|c| addr(&c)).collect();
                    let mut w = all[lo..hi].to_vec();
                    w.reverse();
                    assert_eq!(v, w, "rev");
                }
            }
        }
    }
}
