// Included twice (untyped and typed API); see main.rs for the preambles.
#[allow(unused_imports)]
use crate::model::*;
use rowan::{Direction, GreenNode, GreenNodeData, NodeOrToken, TextRange, TextSize, TokenAtOffset, WalkEvent};

pub fn kind(el: &SyntaxElement) -> u16 {
    rk(el.kind())
}
pub fn rng_of(e: &Ent) -> TextRange {
    TextRange::new(e.start.into(), e.end().into())
}
pub fn tr(a: u32, b: u32) -> TextRange {
    TextRange::new(a.into(), b.into())
}

/// addresses of the green elements in preorder
pub fn greens(root: &GreenNodeData) -> Vec<usize> {
    fn go(n: &GreenNodeData, out: &mut Vec<usize>) {
        out.push(n as *const GreenNodeData as usize);
        for c in n.children() {
            match c {
                NodeOrToken::Node(n) => go(n, out),
                NodeOrToken::Token(t) => out.push(t as *const rowan::GreenTokenData as usize),
            }
        }
    }
    let mut v = vec![];
    go(root, &mut v);
    v
}
pub fn green_addr(el: &SyntaxElement) -> usize {
    match el {
        NodeOrToken::Node(n) => &*n.green() as *const GreenNodeData as usize,
        NodeOrToken::Token(t) => t.green() as *const rowan::GreenTokenData as usize,
    }
}

pub struct T {
    pub root: SyntaxNode,
    pub o: Ora,
    pub g: Vec<usize>,
}

impl T {
    pub fn new(m: &M, green: &GreenNode, mutable: bool) -> T {
        let root = if mutable { SyntaxNode::new_root_mut(green.clone()) } else { SyntaxNode::new_root(green.clone()) };
        T { root, o: Ora::new(m), g: greens(green) }
    }
    /// plain route from the root
    pub fn at(&self, id: usize) -> SyntaxElement {
        let mut path = vec![];
        let mut c = id;
        while let Some(p) = self.o.e[c].parent {
            path.push(self.o.e[c].index);
            c = p;
        }
        let mut el: SyntaxElement = self.root.clone().into();
        for i in path.into_iter().rev() {
            let n = el.into_node().expect("route passes through a token");
            el = nth_child(&n, i);
        }
        el
    }
    pub fn node(&self, id: usize) -> SyntaxNode {
        self.at(id).into_node().expect("expected a node")
    }
    pub fn tok(&self, id: usize) -> SyntaxToken {
        self.at(id).into_token().expect("expected a token")
    }
    /// el is element id of this tree, in every observable respect
    pub fn is(&self, el: &SyntaxElement, id: usize, what: &str) {
        let e = &self.o.e[id];
        assert_eq!(el.as_node().is_some(), e.node, "{what}: wrong element class, expected #{id}");
        assert_eq!(kind(el), e.kind, "{what}: kind of #{id}");
        assert_eq!(el.text_range(), rng_of(e), "{what}: text_range of #{id}");
        assert_eq!(el.index(), e.index, "{what}: index of #{id}");
        assert_eq!(green_addr(el), self.g[id], "{what}: green element of #{id}");
        if let Some(t) = el.as_token() {
            assert_eq!(t.text(), self.o.text_of(id), "{what}: text of token #{id}");
        }
    }
    pub fn is_full(&self, el: &SyntaxElement, id: usize, what: &str) {
        self.is(el, id, what);
        let mut p = el.parent();
        let mut pid = self.o.e[id].parent;
        let mut last_was_root = pid.is_none();
        while let (Some(n), Some(i)) = (&p, pid) {
            self.is(&n.clone().into(), i, what);
            last_was_root = self.o.e[i].parent.is_none();
            let np = n.parent();
            p = np;
            pid = self.o.e[i].parent;
        }
        assert!(p.is_none() && pid.is_none() && last_was_root, "{what}: ancestor chain of #{id}");
    }
    pub fn is_opt(&self, el: Option<SyntaxElement>, id: Option<usize>, what: &str) {
        match (el, id) {
            (None, None) => {}
            (Some(el), Some(id)) => self.is(&el, id, what),
            (Some(el), None) => panic!("{what}: expected nothing, got {:?} at {:?}", kind(&el), el.text_range()),
            (None, Some(id)) => panic!("{what}: expected #{id}, got nothing"),
        }
    }
    pub fn nodes_of(&self, id: usize) -> Vec<usize> {
        self.o.e[id].children.iter().copied().filter(|&c| self.o.e[c].node).collect()
    }
    pub fn ids(&self, r: &mut Rng, cap: usize) -> Vec<usize> {
        let n = self.o.e.len();
        if n <= cap {
            return (0..n).collect();
        }
        let mut v: Vec<usize> = vec![0, 1, 2, n - 1, n - 2];
        for c in [65_534usize, 65_535, 65_536, 65_537] {
            if let Some(&i) = self.o.e[0].children.get(c) {
                v.push(i)
            }
        }
        while v.len() < cap.min(40) {
            v.push(r.below(n));
        }
        v.sort();
        v.dedup();
        v
    }
}

/// the i-th child through plain first/next steps on the element list
pub fn nth_child(n: &SyntaxNode, i: usize) -> SyntaxElement {
    n.children_with_tokens().nth(i).expect("child exists")
}

/// a route chosen at random, to exercise many ways to get to the same element
pub fn route(t: &T, id: usize, r: &mut Rng) -> SyntaxElement {
    let mut path = vec![];
    let mut c = id;
    while let Some(p) = t.o.e[c].parent {
        path.push(c);
        c = p;
    }
    let mut el: SyntaxElement = t.root.clone().into();
    let mut keep: Vec<SyntaxElement> = vec![];
    for c in path.into_iter().rev() {
        let e = &t.o.e[c];
        let par = &t.o.e[e.parent.unwrap()];
        let n = el.into_node().expect("node on the path");
        let holding = r.chance(1, 3);
        if holding {
            keep.push(n.clone().into());
        }
        let ix = e.index;
        let big = par.children.len() > 500;
        let choice = if big { [0, 7][r.below(2)] } else { r.below(9) };
        el = match choice {
            0 => nth_child(&n, ix),
            1 => {
                let mut x = n.first_child_or_token().expect("first child");
                for _ in 0..ix {
                    let y = x.next_sibling_or_token().expect("next sibling");
                    if r.chance(1, 2) {
                        keep.push(x);
                    }
                    x = y;
                }
                x
            }
            2 => {
                let mut x = n.last_child_or_token().expect("last child");
                for _ in ix + 1..par.children.len() {
                    x = x.prev_sibling_or_token().expect("prev sibling");
                }
                x
            }
            3 if e.node => {
                let k = par.children[..ix].iter().filter(|&&c| t.o.e[c].node).count();
                n.children().nth(k).expect("node child").into()
            }
            4 if e.node => {
                let k = par.children[..ix].iter().filter(|&&c| t.o.e[c].node).count();
                let mut x = n.first_child().expect("first node");
                for _ in 0..k {
                    x = x.next_sibling().expect("next node");
                }
                x.into()
            }
            5 if e.node => {
                let k = par.children[ix + 1..].iter().filter(|&&c| t.o.e[c].node).count();
                let mut x = n.last_child().expect("last node");
                for _ in 0..k {
                    x = x.prev_sibling().expect("prev node");
                }
                x.into()
            }
            6 => {
                let k = mk(e.kind);
                let before = par.children[..ix].iter().filter(|&&c| t.o.e[c].kind == e.kind).count();
                let x = n.children_with_tokens().by_kind(|x| x == k).nth(before);
                x.expect("by kind")
            }
            7 => {
                let all: Vec<SyntaxElement> = n.children_with_tokens().collect();
                assert_eq!(all.len(), par.children.len(), "number of children of #{:?}", e.parent);
                all[ix].clone()
            }
            8 if e.len > 0 && !par.children.iter().any(|&c| c != t.o.e[par.children[ix]].parent.unwrap_or(usize::MAX) && c != par.children[ix] && t.o.e[c].len > 0 && rng_of(&t.o.e[c]).contains_range(rng_of(e))) => {
                n.child_or_token_at_range(rng_of(e)).expect("child at its own range")
            }
            _ => nth_child(&n, ix),
        };
        if holding && r.chance(1, 2) {
            keep.push(el.clone());
        }
        if r.chance(1, 6) {
            keep.clear();
        }
    }
    el
}

// ---- P05 ---------------------------------------------------------------------
pub fn p05(t: &T, r: &mut Rng) {
    let ids = t.ids(r, 120);
    let mut held = vec![];
    for &id in &ids {
        let el = route(t, id, r);
        t.is_full(&el, id, "place");
        if r.chance(1, 4) {
            held.push((el, id));
        }
    }
    for (el, id) in &held {
        t.is(el, *id, "held handle");
    }
    while !held.is_empty() {
        let i = r.below(held.len());
        let (el, id) = held.swap_remove(i);
        t.is_full(&el, id, "held handle while others are dropped");
    }
    // whole tree by one collecting walk
    if t.o.e.len() <= 4000 {
        for (i, el) in t.root.descendants_with_tokens().enumerate() {
            t.is(&el, i, "walk");
        }
    }
}

// ---- P06 ---------------------------------------------------------------------
fn step_children(t: &T, id: usize, r: &mut Rng) {
    let e = &t.o.e[id];
    let n = t.node(id);
    let nodes = t.nodes_of(id);
    let iter_mode = r.below(4);
    let mut kept = vec![];
    let mut it = n.children_with_tokens();
    let mut i = 0;
    loop {
        let x = it.next();
        t.is_opt(x.clone(), e.children.get(i).copied(), "children_with_tokens");
        let done = x.is_none();
        match iter_mode {
            0 => {}
            1 => kept.push(x),
            2 if r.chance(1, 2) => kept.push(x),
            3 if r.chance(1, 4) => {
                let mut b = it.clone();
                t.is_opt(b.next(), e.children.get(i + 1).copied(), "cloned children_with_tokens");
            }
            _ => {}
        }
        if done {
            break;
        }
        i += 1;
    }
    let mut it = n.children();
    let mut i = 0;
    let mut keptn = vec![];
    loop {
        let x = it.next();
        t.is_opt(x.clone().map(|x| x.into()), nodes.get(i).copied(), "children");
        let done = x.is_none();
        match iter_mode {
            1 => keptn.push(x),
            2 if r.chance(1, 2) => keptn.push(x),
            3 if r.chance(1, 4) => {
                let mut b = it.clone();
                t.is_opt(b.next().map(|x| x.into()), nodes.get(i + 1).copied(), "cloned children");
            }
            _ => {}
        }
        if done {
            break;
        }
        i += 1;
    }
    // kept handles are undisturbed
    for (i, x) in kept.into_iter().flatten().enumerate() {
        if iter_mode == 1 {
            t.is_full(&x, e.children[i], "handle kept during iteration");
        }
    }
    for (i, x) in keptn.into_iter().flatten().enumerate() {
        if iter_mode == 1 {
            t.is_full(&x.into(), nodes[i], "node handle kept during iteration");
        }
    }
}

pub fn p06(t: &T, r: &mut Rng) {
    for id in t.ids(r, 60) {
        let e = &t.o.e[id];
        let el = t.at(id);
        // siblings
        let (sibs, ix) = match e.parent {
            Some(p) => (t.o.e[p].children.clone(), e.index),
            None => (vec![id], 0),
        };
        let isn = |c: &usize| t.o.e[*c].node;
        let next = sibs.get(ix + 1).copied();
        let prev = ix.checked_sub(1).map(|i| sibs[i]);
        t.is_opt(el.next_sibling_or_token(), next, "next_sibling_or_token");
        t.is_opt(el.prev_sibling_or_token(), prev, "prev_sibling_or_token");
        let mut kinds: Vec<u16> = sibs.iter().take(50).map(|&c| t.o.e[c].kind).collect();
        kinds.push(999);
        kinds.sort();
        kinds.dedup();
        for &k in &kinds {
            let want = sibs[ix + 1..].iter().copied().find(|&c| t.o.e[c].kind == k);
            let k = mk(k);
            if let NodeOrToken::Node(n) = &el {
                t.is_opt(n.next_sibling_or_token_by_kind(&|x| x == k), want, "next_sibling_or_token_by_kind");
                let want = sibs[ix + 1..].iter().copied().find(|&c| t.o.e[c].node && mk(t.o.e[c].kind) == k);
                t.is_opt(n.next_sibling_by_kind(&|x| x == k).map(|x| x.into()), want, "next_sibling_by_kind");
                let want = sibs[ix + 1..].iter().copied().find(|&c| t.o.e[c].node && mk(t.o.e[c].kind) != k);
                t.is_opt(n.next_sibling_by_kind(&|x| x != k).map(|x| x.into()), want, "next_sibling_by_kind (not)");
            }
            elem_by_kind(t, &el, k, want);
        }
        if let NodeOrToken::Node(n) = &el {
            let want = sibs[ix + 1..].iter().copied().find(isn);
            t.is_opt(n.next_sibling().map(|x| x.into()), want, "next_sibling");
            let want = sibs[..ix].iter().copied().rev().find(isn);
            t.is_opt(n.prev_sibling().map(|x| x.into()), want, "prev_sibling");
            t.is_opt(n.next_sibling_or_token(), next, "node next_sibling_or_token");
            t.is_opt(n.prev_sibling_or_token(), prev, "node prev_sibling_or_token");
            // children
            let ch = &e.children;
            let nodes = t.nodes_of(id);
            t.is_opt(n.first_child().map(|x| x.into()), nodes.first().copied(), "first_child");
            t.is_opt(n.last_child().map(|x| x.into()), nodes.last().copied(), "last_child");
            t.is_opt(n.first_child_or_token(), ch.first().copied(), "first_child_or_token");
            t.is_opt(n.last_child_or_token(), ch.last().copied(), "last_child_or_token");
            let mut kinds: Vec<u16> = ch.iter().take(50).map(|&c| t.o.e[c].kind).collect();
            kinds.push(999);
            kinds.sort();
            kinds.dedup();
            for &kk in &kinds {
                let k = mk(kk);
                let want: Vec<usize> = ch.iter().copied().filter(|&c| t.o.e[c].kind == kk).collect();
                let wantn: Vec<usize> = nodes.iter().copied().filter(|&c| t.o.e[c].kind == kk).collect();
                t.is_opt(n.first_child_by_kind(&|x| x == k).map(|x| x.into()), wantn.first().copied(), "first_child_by_kind");
                t.is_opt(n.first_child_or_token_by_kind(&|x| x == k), want.first().copied(), "first_child_or_token_by_kind");
                let limit = if ch.len() > 500 { 3 } else { ch.len() + 1 };
                for skip in 0..=limit.min(6) {
                    let mut it = n.children_with_tokens();
                    for _ in 0..skip {
                        it.next();
                    }
                    let got: Vec<_> = it.by_kind(|x| x == k).collect();
                    let w: Vec<usize> = ch.iter().copied().skip(skip).filter(|&c| t.o.e[c].kind == kk).collect();
                    assert_eq!(got.len(), w.len(), "children_with_tokens after {skip} steps, by_kind {kk}: number of elements");
                    got.iter().zip(&w).for_each(|(g, &w)| t.is(g, w, "children_with_tokens().by_kind"));
                    let mut it = n.children();
                    for _ in 0..skip {
                        it.next();
                    }
                    let got: Vec<_> = it.by_kind(|x| x == k).collect();
                    let w: Vec<usize> = nodes.iter().copied().skip(skip).filter(|&c| t.o.e[c].kind == kk).collect();
                    assert_eq!(got.len(), w.len(), "children after {skip} steps, by_kind {kk}: number of elements");
                    got.iter().zip(&w).for_each(|(g, &w)| t.is(&g.clone().into(), w, "children().by_kind"));
                }
            }
            if ch.len() <= 500 || r.chance(1, 2) {
                step_children(t, id, r);
            }
        }
    }
}

// ---- P07 ---------------------------------------------------------------------
fn want_walk(t: &T, id: usize, tokens: bool, skip: &dyn Fn(usize) -> bool, out: &mut Vec<(bool, usize)>) {
    out.push((true, id));
    if !skip(id) {
        for &c in &t.o.e[id].children {
            if tokens || t.o.e[c].node {
                want_walk(t, c, tokens, skip, out);
            }
        }
    }
    out.push((false, id));
}
pub fn p07(t: &T, r: &mut Rng) {
    let small = t.o.e.len() <= 300;
    for id in t.ids(r, 40) {
        if !t.o.e[id].node {
            let el = t.at(id);
            let want: Vec<usize> = t.o.ancestors(id)[1..].to_vec();
            let got: Vec<_> = el.ancestors().collect();
            assert_eq!(got.len(), want.len(), "token ancestors of #{id}");
            got.into_iter().zip(&want).for_each(|(g, &w)| t.is(&g.into(), w, "ancestors of token element"));
            let got = tok_ancestors(el.as_token().unwrap());
            assert_eq!(got.len(), want.len(), "token ancestors of #{id}");
            got.into_iter().zip(&want).for_each(|(g, &w)| t.is(&g.into(), w, "ancestors of token"));
            if let Some(p) = t.o.e[id].parent {
                let ch = &t.o.e[p].children;
                if ch.len() < 500 {
                    let ix = t.o.e[id].index;
                    walk_sibs(t, el.as_token().unwrap().siblings_with_tokens(Direction::Next), &ch[ix..]);
                    let mut b = ch[..=ix].to_vec();
                    b.reverse();
                    walk_sibs(t, el.as_token().unwrap().siblings_with_tokens(Direction::Prev), &b);
                }
            }
            continue;
        }
        let n = t.node(id);
        let e = &t.o.e[id];
        if !small && id != 0 && e.end_id - id > 3000 {
            continue;
        }
        let no = |_: usize| false;
        let mut want = vec![];
        want_walk(t, id, true, &no, &mut want);
        let mut w = want.iter();
        for ev in n.preorder_with_tokens() {
            match (ev, w.next()) {
                (WalkEvent::Enter(x), Some(&(true, i))) => t.is(&x, i, "preorder_with_tokens enter"),
                (WalkEvent::Leave(x), Some(&(false, i))) => t.is(&x, i, "preorder_with_tokens leave"),
                (ev, w) => panic!("preorder_with_tokens of #{id}: {} where {:?} expected", matches!(ev, WalkEvent::Enter(_)), w),
            }
        }
        assert!(w.next().is_none(), "preorder_with_tokens of #{id} stops early");
        let mut want = vec![];
        want_walk(t, id, false, &no, &mut want);
        let mut w = want.iter();
        for ev in n.preorder() {
            match (ev, w.next()) {
                (WalkEvent::Enter(x), Some(&(true, i))) => t.is(&x.into(), i, "preorder enter"),
                (WalkEvent::Leave(x), Some(&(false, i))) => t.is(&x.into(), i, "preorder leave"),
                (ev, w) => panic!("preorder of #{id}: {} where {:?} expected", matches!(ev, WalkEvent::Enter(_)), w),
            }
        }
        assert!(w.next().is_none(), "preorder of #{id} stops early");
        // random skips
        for _ in 0..3 {
            let salt = r.next();
            let skip = |i: usize| (salt ^ (i as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15)).count_ones() % 3 == 0;
            let mut want = vec![];
            want_walk(t, id, true, &skip, &mut want);
            let mut got = n.preorder_with_tokens();
            for &(enter, i) in &want {
                match (got.next(), enter) {
                    (Some(WalkEvent::Enter(x)), true) => {
                        t.is(&x, i, "skipping preorder_with_tokens enter");
                        if skip(i) {
                            got.skip_subtree();
                        }
                    }
                    (Some(WalkEvent::Leave(x)), false) => t.is(&x, i, "skipping preorder_with_tokens leave"),
                    _ => panic!("preorder_with_tokens of #{id} with skips: wrong event where ({enter}, #{i}) expected"),
                }
            }
            assert!(got.next().is_none(), "preorder_with_tokens of #{id} with skips goes on");
            assert!(got.next().is_none(), "preorder_with_tokens of #{id} restarts");
            let mut want = vec![];
            want_walk(t, id, false, &skip, &mut want);
            let mut got = n.preorder();
            for &(enter, i) in &want {
                match (got.next(), enter) {
                    (Some(WalkEvent::Enter(x)), true) => {
                        t.is(&x.into(), i, "skipping preorder enter");
                        if skip(i) {
                            got.skip_subtree();
                        }
                    }
                    (Some(WalkEvent::Leave(x)), false) => t.is(&x.into(), i, "skipping preorder leave"),
                    _ => panic!("preorder of #{id} with skips: wrong event where ({enter}, #{i}) expected"),
                }
            }
            assert!(got.next().is_none(), "preorder of #{id} with skips goes on");
        }
        let got: Vec<_> = n.descendants_with_tokens().collect();
        assert_eq!(got.len(), e.end_id - id, "number of descendants_with_tokens of #{id}");
        got.iter().enumerate().for_each(|(k, g)| t.is(g, id + k, "descendants_with_tokens"));
        let want: Vec<usize> = (id..e.end_id).filter(|&i| t.o.e[i].node).collect();
        let got: Vec<_> = n.descendants().collect();
        assert_eq!(got.len(), want.len(), "number of descendants of #{id}");
        got.into_iter().zip(&want).for_each(|(g, &w)| t.is(&g.into(), w, "descendants"));
        // ancestors
        let want = t.o.ancestors(id);
        for got in [n.ancestors().collect::<Vec<_>>(), t.at(id).ancestors().collect::<Vec<_>>()] {
            assert_eq!(got.len(), want.len(), "ancestors of #{id}");
            got.into_iter().zip(&want).for_each(|(g, &w)| t.is(&g.into(), w, "ancestors"));
        }
        // siblings
        if let Some(p) = e.parent {
            let ch = &t.o.e[p].children;
            if ch.len() < 500 {
                walk_sibs(t, n.siblings_with_tokens(Direction::Next), &ch[e.index..]);
                let mut b = ch[..=e.index].to_vec();
                b.reverse();
                walk_sibs(t, n.siblings_with_tokens(Direction::Prev), &b);
                let nodes = |v: &[usize]| v.iter().copied().filter(|&c| t.o.e[c].node).collect::<Vec<_>>();
                walk_sibs(t, n.siblings(Direction::Next).map(|x| x.into()), &nodes(&ch[e.index..]));
                walk_sibs(t, n.siblings(Direction::Prev).map(|x| x.into()), &nodes(&b));
            }
        } else {
            walk_sibs(t, n.siblings_with_tokens(Direction::Next), &[id]);
            walk_sibs(t, n.siblings(Direction::Prev).map(|x| x.into()), &[id]);
        }
    }
}
fn walk_sibs(t: &T, it: impl Iterator<Item = SyntaxElement>, want: &[usize]) {
    let mut w = want.iter();
    for x in it {
        t.is_opt(Some(x), w.next().copied(), "siblings");
    }
    assert!(w.next().is_none(), "siblings stop early");
}

// ---- P08 ---------------------------------------------------------------------
pub fn p08(t: &T, r: &mut Rng) {
    let toks = t.o.tokens();
    let pos: std::collections::HashMap<usize, usize> = toks.iter().enumerate().map(|(i, &t)| (t, i)).collect();
    for id in t.ids(r, 80) {
        let e = &t.o.e[id];
        if e.node {
            let n = t.node(id);
            let lo = toks.partition_point(|&x| x < id);
            let hi = toks.partition_point(|&x| x < e.end_id);
            let (f, l) = if lo < hi { (Some(toks[lo]), Some(toks[hi - 1])) } else { (None, None) };
            t.is_opt(n.first_token().map(|x| x.into()), f, "first_token");
            t.is_opt(n.last_token().map(|x| x.into()), l, "last_token");
        } else {
            let k = t.tok(id);
            let p = pos[&id];
            t.is_opt(k.next_token().map(|x| x.into()), toks.get(p + 1).copied(), "next_token");
            t.is_opt(k.prev_token().map(|x| x.into()), p.checked_sub(1).map(|p| toks[p]), "prev_token");
        }
        elem_tokens(t, id, &toks);
    }
    if t.o.e.len() <= 2000 {
        let mut c = t.root.first_token();
        for &k in &toks {
            t.is_opt(c.clone().map(|x| x.into()), Some(k), "chain of next_token");
            c = c.unwrap().next_token();
        }
        assert!(c.is_none(), "chain of next_token goes on");
        let mut c = t.root.last_token();
        for &k in toks.iter().rev() {
            t.is_opt(c.clone().map(|x| x.into()), Some(k), "chain of prev_token");
            c = c.unwrap().prev_token();
        }
        assert!(c.is_none(), "chain of prev_token goes on");
    }
}

// ---- P09 ---------------------------------------------------------------------
pub fn p09(t: &T, r: &mut Rng) {
    let deep = t.o.e.len() > 500;
    for id in t.ids(r, if deep { 5 } else { 40 }) {
        let e = t.o.e[id].clone();
        if !e.node {
            continue;
        }
        let n = t.node(id);
        let big = e.end_id - id > 500;
        let offs: Vec<u32> = if e.len <= 24 && !big {
            (e.start..=e.end()).collect()
        } else {
            let mut v = vec![e.start, e.end(), e.start + 1, e.end() - 1];
            for _ in 0..if deep { 2 } else { 8 } {
                v.push(e.start + r.below(e.len as usize + 1) as u32);
            }
            for _ in 0..if deep { 2 } else { 8 } {
                let x = &t.o.e[id + r.below(e.end_id - id)];
                v.push(x.start);
                v.push(x.end());
            }
            v
        };
        for &o in &offs {
            let want: Vec<usize> = (id..e.end_id).filter(|&i| !t.o.e[i].node && t.o.e[i].len > 0 && t.o.e[i].start <= o && o <= t.o.e[i].end()).collect();
            match n.token_at_offset(o.into()) {
                TokenAtOffset::None => assert!(want.is_empty(), "token_at_offset({o}) of #{id}: nothing, expected {want:?}"),
                TokenAtOffset::Single(a) => {
                    assert_eq!(want.len(), 1, "token_at_offset({o}) of #{id}: single, expected {want:?}");
                    t.is(&a.into(), want[0], "token_at_offset");
                }
                TokenAtOffset::Between(a, b) => {
                    assert_eq!(want.len(), 2, "token_at_offset({o}) of #{id}: between, expected {want:?}");
                    t.is(&a.into(), want[0], "token_at_offset left");
                    t.is(&b.into(), want[1], "token_at_offset right");
                }
            }
        }
        let mut ranges = vec![];
        if e.len <= 10 && !big {
            for a in e.start..=e.end() {
                for b in a..=e.end() {
                    ranges.push((a, b));
                }
            }
        } else {
            for _ in 0..30 {
                let x = &t.o.e[id + r.below(e.end_id - id)];
                let y = &t.o.e[id + r.below(e.end_id - id)];
                ranges.push((x.start, x.end()));
                ranges.push((x.start.min(y.start), x.end().max(y.end())));
                ranges.push((x.start, x.start));
                ranges.push((x.end(), x.end()));
                let a = e.start + r.below(e.len as usize + 1) as u32;
                let b = e.start + r.below(e.len as usize + 1) as u32;
                ranges.push((a.min(b), a.max(b)));
            }
        }
        for (a, b) in ranges {
            let rg = tr(a, b);
            let x = n.covering_element(rg);
            let i = find_id(t, id, &x).unwrap_or_else(|| panic!("covering_element({rg:?}) of #{id} is not in the subtree"));
            t.is_full(&x, i, "covering_element");
            assert!(rng_of(&t.o.e[i]).contains_range(rg), "covering_element({rg:?}) of #{id} does not contain the range");
            assert!(
                !t.o.e[i].children.iter().any(|&c| rng_of(&t.o.e[c]).contains_range(rg)),
                "covering_element({rg:?}) of #{id} is #{i}, but one of its children contains the range"
            );
            let some = e.children.iter().any(|&c| rng_of(&t.o.e[c]).contains_range(rg));
            match n.child_or_token_at_range(rg) {
                None => assert!(!some, "child_or_token_at_range({rg:?}) of #{id}: nothing, although a child contains the range"),
                Some(x) => {
                    let i = e.children.iter().copied().find(|&c| t.o.e[c].index == x.index()).expect("a direct child");
                    t.is_full(&x, i, "child_or_token_at_range");
                    assert!(rng_of(&t.o.e[i]).contains_range(rg), "child_or_token_at_range({rg:?}) of #{id} does not contain the range");
                }
            }
        }
    }
}
fn find_id(t: &T, under: usize, x: &SyntaxElement) -> Option<usize> {
    // by path of indices up to the root
    let mut path = vec![];
    let mut c = x.clone();
    while let Some(p) = c.parent() {
        path.push(c.index());
        c = p.into();
    }
    let mut id = 0;
    for i in path.into_iter().rev() {
        id = *t.o.e[id].children.get(i)?;
    }
    if id >= under && id < t.o.e[under].end_id { Some(id) } else { None }
}

// ---- P10 ---------------------------------------------------------------------
pub fn p10(t: &T, other: &T, r: &mut Rng) {
    let heavy = t.o.e.len() > 500 || t.o.text_of(0).len() > 5000;
    let mut ids = t.ids(r, if heavy { 3 } else { 25 });
    if heavy {
        ids.insert(0, 0);
    }
    for id in ids {
        let e = t.o.e[id].clone();
        if !e.node {
            continue;
        }
        let n = t.node(id);
        let full = t.o.text_of(id).to_string();
        let bounds: Vec<usize> = if full.len() < 2000 {
            (0..=full.len()).filter(|&i| full.is_char_boundary(i)).collect()
        } else {
            let mut v = vec![0, full.len()];
            while v.len() < 8 {
                let i = r.below(full.len());
                if full.is_char_boundary(i) {
                    v.push(i)
                }
            }
            v.sort();
            v
        };
        let text = n.text();
        same_text(&text, &full, heavy, r);
        let mut pairs = vec![];
        if bounds.len() <= 6 {
            for (i, &a) in bounds.iter().enumerate() {
                for &b in &bounds[i..] {
                    pairs.push((a, b));
                }
            }
        } else {
            for _ in 0..if heavy { 2 } else { 14 } {
                let a = *r.pick(&bounds);
                let b = *r.pick(&bounds);
                pairs.push((a.min(b), a.max(b)));
            }
        }
        let mut slices = vec![(text.clone(), full.clone())];
        for (a, b) in pairs {
            let (ta, tb) = (TextSize::from(a as u32), TextSize::from(b as u32));
            let s = match r.below(5) {
                0 => text.slice(ta..tb),
                1 => text.slice(TextRange::new(ta, tb)),
                2 => text.slice(ta..).slice(..tb - ta),
                3 => text.slice(..tb).slice(ta..),
                _ => text.slice(..).slice(ta..tb),
            };
            same_text(&s, &full[a..b], heavy, r);
            slices.push((s, full[a..b].to_string()));
        }
        // comparisons among texts
        let on = other.node(0);
        let ot = other.o.text_of(0).to_string();
        slices.push((on.text(), ot.clone()));
        if full.len() <= ot.len() && ot.is_char_boundary(full.len()) {
            slices.push((on.text().slice(..TextSize::from(full.len() as u32)), ot[..full.len()].to_string()));
        }
        let cap = slices.len().min(if heavy { 3 } else { 14 });
        for i in 0..cap {
            for j in 0..cap {
                let (a, sa) = &slices[i];
                let (b, sb) = &slices[j];
                assert_eq!(a == b, sa == sb, "text == text: {sa:?} {sb:?}");
                assert_eq!(a == sb.as_str(), sa == sb, "text == str: {sa:?} {sb:?}");
                assert_eq!(sa.as_str() == b, sa == sb, "str == text: {sa:?} {sb:?}");
            }
        }
    }
}
fn same_text(t: &rowan::SyntaxText, s: &str, heavy: bool, r: &mut Rng) {
    assert_eq!(u32::from(t.len()) as usize, s.len(), "len of {s:?}");
    assert_eq!(t.is_empty(), s.is_empty(), "is_empty of {s:?}");
    assert_eq!(t.to_string(), s, "to_string");
    let st: String = t.clone().into();
    assert_eq!(st, s, "String::from");
    assert_eq!(format!("{t:?}"), format!("{s:?}"), "debug");
    let mut all = String::new();
    t.for_each_chunk(|c| all.push_str(c));
    assert_eq!(all, s, "chunks");
    let r1: Result<String, ()> = t.try_fold_chunks(String::new(), |mut a, c| {
        a.push_str(c);
        Ok(a)
    });
    assert_eq!(r1.unwrap(), s, "fold over chunks");
    // early stop: exactly a prefix has been seen
    let mut seen = String::new();
    let stop = r.below(s.len() + 1);
    let res = t.try_for_each_chunk(|c| {
        seen.push_str(c);
        if seen.len() > stop { Err(seen.len()) } else { Ok(()) }
    });
    assert!(s.starts_with(&seen), "chunks seen before stopping");
    assert_eq!(res.is_err(), seen.len() > stop, "early stop result");
    if res.is_ok() {
        assert_eq!(seen, s, "all chunks seen");
    }
    let mut cs: Vec<char> = s.chars().take(12).collect();
    cs.extend(s.chars().rev().take(6));
    if heavy {
        cs.truncate(2);
    }
    cs.extend(['a', 'é', '🦀', 'Z', '\u{10ffff}']);
    if heavy {
        cs.truncate(3);
    }
    for c in cs {
        assert_eq!(t.contains_char(c), s.contains(c), "contains_char({c:?}) in {s:?}");
        assert_eq!(t.find_char(c).map(|x| u32::from(x) as usize), s.find(c), "find_char({c:?}) in {s:?}");
    }
    let step = 1 + s.len() / if heavy { 5 } else { 40 };
    let mut o = 0;
    while o <= s.len() + 2 {
        if o > s.len() || s.is_char_boundary(o) {
            let want = if o <= s.len() { s[o..].chars().next() } else { None };
            assert_eq!(t.char_at(TextSize::from(o as u32)), want, "char_at({o}) in {s:?}");
        }
        o += step;
    }
    assert!(t == s && s == t && *t == *s && &s == &t, "text equals its string");
    let mut longer = s.to_string();
    longer.push('a');
    assert!(*t != *longer.as_str(), "text equals a longer string");
    if let Some(c) = s.chars().last() {
        let shorter = &s[..s.len() - c.len_utf8()];
        assert!(*t != *shorter, "text equals a shorter string");
        let k = r.below(s.len());
        if s.is_char_boundary(k) {
            let mut ch: String = s[..k].into();
            let c = s[k..].chars().next().unwrap();
            ch.push(if c == 'a' { 'b' } else { 'a' });
            ch.push_str(&s[k + c.len_utf8()..]);
            assert_eq!(*t == *ch.as_str(), ch == s, "text against {ch:?}");
        }
    }
}

// ---- P14 (typed only for pointers), P13 copies --------------------------------
pub fn p13_static(t: &T, r: &mut Rng, scratch: &GreenNode) {
    let before = t.root.green().into_owned();
    let txt = t.o.text.clone();
    for id in t.ids(r, 25) {
        let e = &t.o.e[id];
        let el = t.at(id);
        if let NodeOrToken::Node(n) = &el {
            let s = n.clone_subtree();
            assert!(!s.is_mutable() && s.parent().is_none() && s.index() == 0, "clone_subtree is an immutable root");
            assert_eq!(s.text_range(), tr(0, e.len), "clone_subtree of #{id}: range");
            assert_eq!(&*s.green() as *const GreenNodeData as usize, t.g[id], "clone_subtree of #{id}: content");
            if !n.is_mutable() && e.depth < 300 {
                let u = n.clone_for_update();
                assert!(u.is_mutable());
                let mut x: SyntaxElement = u.clone().into();
                let mut i = id;
                loop {
                    t.is(&x, i, "clone_for_update");
                    match (x.parent(), t.o.e[i].parent) {
                        (Some(p), Some(pi)) => {
                            assert!(p.is_mutable(), "ancestor of a copy for update is mutable");
                            x = p.into();
                            i = pi;
                        }
                        (None, None) => break,
                        _ => panic!("clone_for_update of #{id}: ancestors"),
                    }
                }
                // edit the copy in several ways, the original stays
                if u.parent().is_some() && r.chance(1, 2) {
                    u.detach();
                }
                let nch = u.children_with_tokens().count();
                if nch > 0 && nch < 500 {
                    let k = r.below(nch);
                    u.splice_children(k..k + 1, vec![]);
                }
                let add = SyntaxNode::new_root_mut(scratch.clone());
                u.splice_children(0..0, vec![add.into()]);
                t.is_full(&el, id, "original after editing its copy for update");
            }
        }
        assert!(t.root.green().into_owned() == before, "original tree changed");
        if e.depth < 300 && t.o.e.len() < 3000 {
            replace(t, id, &el, scratch, r);
            t.is(&el, id, "element after replace_with");
        }
    }
    assert!(t.root.green().into_owned() == before, "original tree changed");
    assert_eq!(t.root.to_string(), txt, "text of the original");
    let t2 = T { root: t.root.clone(), o: Ora::new(&green_to_model(&t.root.green())), g: greens(&t.root.green()) };
    assert_eq!(t2.g, t.g, "green elements of the original");
}
fn replace(t: &T, id: usize, el: &SyntaxElement, scratch: &GreenNode, r: &mut Rng) {
    let k = t.o.e[id].kind;
    let (got, repl) = match el {
        NodeOrToken::Node(n) => {
            let c: Vec<NodeOrToken<GreenNode, rowan::GreenToken>> = match r.below(3) {
                0 => vec![],
                1 => vec![scratch.clone().into(), rowan::GreenToken::new(rowan::SyntaxKind(3), "new").into()],
                _ => vec![rowan::GreenToken::new(rowan::SyntaxKind(3), "").into()],
            };
            let g = GreenNode::new(rowan::SyntaxKind(k), c);
            let m = green_to_model(&g);
            (n.replace_with(g), m)
        }
        NodeOrToken::Token(x) => {
            let s = *r.pick(&["", "q", "longer text"]);
            (x.replace_with(rowan::GreenToken::new(rowan::SyntaxKind(k), s)), M::T(k, s.to_string()))
        }
    };
    let mut m = green_to_model(&t.root.green());
    // navigate the model
    let mut path = vec![];
    let mut c = id;
    while let Some(p) = t.o.e[c].parent {
        path.push(t.o.e[c].index);
        c = p;
    }
    let mut cur = &mut m;
    for i in path.into_iter().rev() {
        match cur {
            M::N(_, ch) => cur = &mut ch[i],
            _ => unreachable!(),
        }
    }
    *cur = repl;
    assert!(green_to_model(&got) == m, "replace_with of #{id}: wrong tree");
    crate::check_green(&got);
}
pub fn green_to_model(g: &GreenNodeData) -> M {
    crate::green_model(g)
}
