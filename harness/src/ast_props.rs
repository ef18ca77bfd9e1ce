//! Typed API, node pointers, AST accessors, printing, misuse.
use crate::model::*;
use crate::typed::{mk, rk, rng_of, tr};
use crate::strict;
use crate::{build, check_green, green_model, quiet, raw, typed, Lang, K};
use rowan::ast::{support, AstChildren, AstNode, AstPtr, SyntaxNodePtr};
use rowan::*;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

type SN = SyntaxNode<Lang>;
type SE = SyntaxElement<Lang>;

fn h<T: Hash>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

macro_rules! ast {
    ($name:ident, $k:ident => $e:expr) => {
        #[derive(Clone, PartialEq, Eq, Hash)]
        struct $name(SN);
        impl AstNode for $name {
            type Language = Lang;
            fn can_cast($k: K) -> bool {
                let $k = rk($k);
                $e
            }
            fn cast(n: SN) -> Option<Self> {
                if Self::can_cast(n.kind()) {
                    Some($name(n))
                } else {
                    None
                }
            }
            fn syntax(&self) -> &SN {
                &self.0
            }
        }
    };
}
ast!(A1, k => k == 1);
ast!(AOdd, k => k % 2 == 1);
ast!(AAll, k => k < u16::MAX || k == u16::MAX);
ast!(ANone, _k => false);

// ---- P14 -------------------------------------------------------------------------
pub fn p14(m: &M, r: &mut Rng) {
    let g = build(m, r);
    let t = typed::T::new(m, &g, false);
    let g2 = crate::green::make(m).into_node().unwrap();
    let t2 = typed::T::new(m, &g2, false);
    for id in t.ids(r, 60) {
        let e = &t.o.e[id];
        if !e.node {
            continue;
        }
        let n = t.node(id);
        let p = SyntaxNodePtr::new(&n);
        assert_eq!(rk(p.kind()), e.kind, "kind of a pointer");
        assert_eq!(p.text_range(), rng_of(e), "range of a pointer");
        let same = |i: usize| t.o.e[i].node && t.o.e[i].kind == e.kind && t.o.e[i].start == e.start && t.o.e[i].len == e.len;
        for x in [&t, &t2] {
            let got = p.try_to_node(&x.root);
            if e.len > 0 {
                let want = *t.o.ancestors(id).iter().filter(|&&i| same(i)).last().unwrap();
                let got = got.unwrap_or_else(|| panic!("pointer to #{id} {:?} does not resolve", rng_of(e)));
                x.is_full(&got.clone().into(), want, "resolved pointer");
                assert!(p.to_node(&x.root) == got);
            } else if let Some(got) = got {
                assert_eq!((rk(got.kind()), got.text_range()), (e.kind, rng_of(e)), "resolved pointer to an empty node");
            }
        }
        // not a root
        if let Some(par) = n.parent() {
            assert!(p.try_to_node(&n).is_none(), "pointer resolved from a node that is not a root");
            if par.parent().is_some() {
                assert!(p.try_to_node(&par).is_none(), "pointer resolved from a node that is not a root");
            }
        }
        // typed pointers
        typed_ptr::<A1>(&t, &n, p, id);
        typed_ptr::<AOdd>(&t, &n, p, id);
        typed_ptr::<AAll>(&t, &n, p, id);
        typed_ptr::<ANone>(&t, &n, p, id);
        // a changed tree: only a matching node may come back
        let m3 = if t.o.e.len() < 3000 { crate::green::mutate_model(m, r) } else { m.clone() };
        if let Some(g3) = crate::green::make(&m3).into_node() {
            let o3 = Ora::new(&m3);
            let root3 = SN::new_root(g3);
            if o3.e[0].len >= e.start + e.len {
                match p.try_to_node(&root3) {
                    Some(x) => assert_eq!((rk(x.kind()), x.text_range()), (e.kind, rng_of(e)), "pointer resolved to another kind or range"),
                    None => {
                        // every ancestor-or-self chain by containment is unique for non-empty ranges
                        let exists = (0..o3.e.len()).any(|i| o3.e[i].node && o3.e[i].kind == e.kind && o3.e[i].start == e.start && o3.e[i].len == e.len);
                        assert!(!exists || e.len == 0, "pointer does not resolve although the tree has such a node");
                    }
                }
            }
        }
    }
}
fn typed_ptr<N: AstNode<Language = Lang> + PartialEq>(t: &typed::T, n: &SN, p: SyntaxNodePtr<Lang>, id: usize) {
    let can = N::can_cast(n.kind());
    let c: Option<AstPtr<N>> = p.cast::<N>();
    assert_eq!(c.is_some(), can, "cast of a pointer");
    let all = AstPtr::new(&AAll(n.clone()));
    assert!(all.syntax_node_ptr() == p);
    assert_eq!(all.clone().cast::<N>().is_some(), can, "cast of a typed pointer");
    if let (Some(c), Some(ast)) = (c, N::cast(n.clone())) {
        let d = AstPtr::new(&ast);
        assert!(c == d && h(&c) == h(&d) && c.syntax_node_ptr() == p, "typed pointer");
        let back: SyntaxNodePtr<Lang> = d.clone().into();
        assert!(back == p && h(&back) == h(&p), "typed pointer to untyped");
        let e = &t.o.e[id];
        if e.len > 0 {
            let got = c.try_to_node(&t.root).expect("typed pointer resolves");
            assert!(*got.syntax() == p.to_node(&t.root), "typed pointer resolves to another node");
            assert!(*c.to_node(&t.root).syntax() == *got.syntax());
        }
        let u = ast.clone_subtree();
        assert_eq!(u.syntax().text_range(), tr(0, e.len));
        if e.depth < 200 {
            let u = ast.clone_for_update();
            assert!(u.syntax().is_mutable() && u.syntax().kind() == n.kind() && u.syntax().text_range() == n.text_range());
        }
    }
}

// ---- P15 -------------------------------------------------------------------------
fn eqn(a: Option<SN>, b: Option<cursor::SyntaxNode>, what: &str) {
    match (a, b) {
        (None, None) => {}
        (Some(a), Some(b)) => {
            assert!(rk(a.kind()) == b.kind().0 && a.text_range() == b.text_range() && a.index() == b.index(), "{what}");
            let ra: cursor::SyntaxNode = a.clone().into();
            assert!(ra == b && h(&ra) == h(&b), "{what}: identity");
            assert!(SN::from(b) == a, "{what}: identity");
        }
        (a, b) => panic!("{what}: typed {} untyped {}", a.is_some(), b.is_some()),
    }
}
fn eqe(a: Option<SE>, b: Option<cursor::SyntaxElement>, what: &str) {
    match (a, b) {
        (None, None) => {}
        (Some(NodeOrToken::Node(a)), Some(NodeOrToken::Node(b))) => eqn(Some(a), Some(b), what),
        (Some(NodeOrToken::Token(a)), Some(NodeOrToken::Token(b))) => eqt(Some(a), Some(b), what),
        _ => panic!("{what}: typed and untyped differ"),
    }
}
fn eqt(a: Option<SyntaxToken<Lang>>, b: Option<cursor::SyntaxToken>, what: &str) {
    match (a, b) {
        (None, None) => {}
        (Some(a), Some(b)) => {
            assert!(rk(a.kind()) == b.kind().0 && a.text_range() == b.text_range() && a.index() == b.index() && a.text() == b.text(), "{what}");
            assert!(std::ptr::eq(a.green(), b.green()), "{what}: green");
            let ra: cursor::SyntaxToken = a.clone().into();
            assert!(ra == b && h(&ra) == h(&b), "{what}: identity");
            assert!(SyntaxToken::<Lang>::from(b) == a, "{what}: identity");
        }
        _ => panic!("{what}: typed and untyped differ"),
    }
}
fn seq<A, B>(a: impl Iterator<Item = A>, b: impl Iterator<Item = B>, f: impl Fn(Option<A>, Option<B>)) {
    let a: Vec<A> = a.collect();
    let b: Vec<B> = b.collect();
    assert_eq!(a.len(), b.len(), "typed and untyped sequences differ in length");
    a.into_iter().zip(b).for_each(|(a, b)| f(Some(a), Some(b)));
}
pub fn p15(m: &M, r: &mut Rng) {
    if m.count() > 20_000 {
        return;
    }
    let g = build(m, r);
    for mutable in [false, true] {
        let t = raw::T::new(m, &g, mutable);
        let tr_: SN = if mutable { SN::new_root_mut(g.clone()) } else { SN::new_root(g.clone()) };
        assert_eq!(tr_.is_mutable(), mutable);
        assert!(tr_.parent().is_none() && rk(tr_.kind()) == m.kind() && tr_.text_range() == t.root.text_range());
        for id in t.ids(r, 25) {
            let x = t.at(id);
            let y: SE = x.clone().into();
            let back: cursor::SyntaxElement = y.clone().into();
            assert!(back == x && h(&back) == h(&x));
            eqe(Some(y.clone()), Some(x.clone()), "conversion");
            assert_eq!((rk(y.kind()), y.text_range(), y.index()), (x.kind().0, x.text_range(), x.index()));
            eqn(y.parent(), x.parent(), "parent");
            eqe(y.next_sibling_or_token(), x.next_sibling_or_token(), "next_sibling_or_token");
            eqe(y.prev_sibling_or_token(), x.prev_sibling_or_token(), "prev_sibling_or_token");
            seq(y.ancestors(), x.ancestors(), |a, b| eqn(a, b, "ancestors"));
            match (&y, &x) {
                (NodeOrToken::Token(y), NodeOrToken::Token(x)) => {
                    eqn(y.parent(), x.parent(), "token parent");
                    seq(y.parent_ancestors(), x.ancestors(), |a, b| eqn(a, b, "parent_ancestors"));
                    eqe(y.next_sibling_or_token(), x.next_sibling_or_token(), "token next_sibling_or_token");
                    eqe(y.prev_sibling_or_token(), x.prev_sibling_or_token(), "token prev_sibling_or_token");
                    for d in [Direction::Next, Direction::Prev] {
                        seq(y.siblings_with_tokens(d), x.siblings_with_tokens(d), |a, b| eqe(a, b, "token siblings_with_tokens"));
                    }
                    eqt(y.next_token(), x.next_token(), "next_token");
                    eqt(y.prev_token(), x.prev_token(), "prev_token");
                    assert_eq!(y.to_string(), x.to_string());
                    assert_eq!((y.text(), y.index(), rk(y.kind()), y.text_range()), (x.text(), x.index(), x.kind().0, x.text_range()));
                    if x.parent().is_some() {
                        let gt = GreenToken::new(x.kind(), "rep");
                        assert!(y.replace_with(gt.clone()) == x.replace_with(gt), "token replace_with");
                    }
                }
                (NodeOrToken::Node(y), NodeOrToken::Node(x)) => {
                    let k0 = m.kind();
                    let k = x.first_child_or_token().map(|c| c.kind().0).unwrap_or(k0);
                    let (ks, kr) = (mk(k), SyntaxKind(k));
                    eqn(y.first_child(), x.first_child(), "first_child");
                    eqn(y.last_child(), x.last_child(), "last_child");
                    eqe(y.first_child_or_token(), x.first_child_or_token(), "first_child_or_token");
                    eqe(y.last_child_or_token(), x.last_child_or_token(), "last_child_or_token");
                    for inv in [false, true] {
                        eqn(y.first_child_by_kind(&|q| (q == ks) != inv), x.first_child_by_kind(&|q| (q == kr) != inv), "first_child_by_kind");
                        eqe(y.first_child_or_token_by_kind(&|q| (q == ks) != inv), x.first_child_or_token_by_kind(&|q| (q == kr) != inv), "first_child_or_token_by_kind");
                        eqn(y.next_sibling_by_kind(&|q| (q == ks) != inv), x.next_sibling_by_kind(&|q| (q == kr) != inv), "next_sibling_by_kind");
                        eqe(y.next_sibling_or_token_by_kind(&|q| (q == ks) != inv), x.next_sibling_or_token_by_kind(&|q| (q == kr) != inv), "next_sibling_or_token_by_kind");
                        seq(y.children().by_kind(|q| (q == ks) != inv), x.children().by_kind(|q| (q == kr) != inv), |a, b| eqn(a, b, "children by_kind"));
                        seq(y.children_with_tokens().by_kind(|q| (q == ks) != inv), x.children_with_tokens().by_kind(|q| (q == kr) != inv), |a, b| eqe(a, b, "children_with_tokens by_kind"));
                    }
                    eqn(y.next_sibling(), x.next_sibling(), "next_sibling");
                    eqn(y.prev_sibling(), x.prev_sibling(), "prev_sibling");
                    eqe(y.next_sibling_or_token(), x.next_sibling_or_token(), "node next_sibling_or_token");
                    eqe(y.prev_sibling_or_token(), x.prev_sibling_or_token(), "node prev_sibling_or_token");
                    eqt(y.first_token(), x.first_token(), "first_token");
                    eqt(y.last_token(), x.last_token(), "last_token");
                    for d in [Direction::Next, Direction::Prev] {
                        seq(y.siblings(d), x.siblings(d), |a, b| eqn(a, b, "siblings"));
                        seq(y.siblings_with_tokens(d), x.siblings_with_tokens(d), |a, b| eqe(a, b, "siblings_with_tokens"));
                    }
                    seq(y.children(), x.children(), |a, b| eqn(a, b, "children"));
                    seq(y.children_with_tokens(), x.children_with_tokens(), |a, b| eqe(a, b, "children_with_tokens"));
                    seq(y.ancestors(), x.ancestors(), |a, b| eqn(a, b, "node ancestors"));
                    if t.o.e[id].end_id - id < 400 {
                        seq(y.descendants(), x.descendants(), |a, b| eqn(a, b, "descendants"));
                        seq(y.descendants_with_tokens(), x.descendants_with_tokens(), |a, b| eqe(a, b, "descendants_with_tokens"));
                        let skip = r.next();
                        let (mut p, mut q) = (y.preorder(), x.preorder());
                        let mut i = 0;
                        loop {
                            match (p.next(), q.next()) {
                                (None, None) => break,
                                (Some(WalkEvent::Enter(a)), Some(WalkEvent::Enter(b))) => {
                                    eqn(Some(a), Some(b), "preorder");
                                    if (skip >> (i % 61)) & 3 == 0 {
                                        p.skip_subtree();
                                        q.skip_subtree();
                                    }
                                }
                                (Some(WalkEvent::Leave(a)), Some(WalkEvent::Leave(b))) => eqn(Some(a), Some(b), "preorder"),
                                _ => panic!("preorder differs"),
                            }
                            i += 1;
                        }
                        let (mut p, mut q) = (y.preorder_with_tokens(), x.preorder_with_tokens());
                        let mut i = 0;
                        loop {
                            match (p.next(), q.next()) {
                                (None, None) => break,
                                (Some(WalkEvent::Enter(a)), Some(WalkEvent::Enter(b))) => {
                                    eqe(Some(a), Some(b), "preorder_with_tokens");
                                    if (skip >> (i % 61)) & 3 == 0 {
                                        p.skip_subtree();
                                        q.skip_subtree();
                                    }
                                }
                                (Some(WalkEvent::Leave(a)), Some(WalkEvent::Leave(b))) => eqe(Some(a), Some(b), "preorder_with_tokens"),
                                _ => panic!("preorder_with_tokens differs"),
                            }
                            i += 1;
                        }
                    }
                    let rg = x.text_range();
                    for _ in 0..4 {
                        let o = u32::from(rg.start()) + r.below(u32::from(rg.len()) as usize + 1) as u32;
                        let (a, b) = (y.token_at_offset(o.into()), x.token_at_offset(o.into()));
                        match (a, b) {
                            (TokenAtOffset::None, TokenAtOffset::None) => {}
                            (TokenAtOffset::Single(a), TokenAtOffset::Single(b)) => eqt(Some(a), Some(b), "token_at_offset"),
                            (TokenAtOffset::Between(a, c), TokenAtOffset::Between(b, d)) => {
                                eqt(Some(a), Some(b), "token_at_offset");
                                eqt(Some(c), Some(d), "token_at_offset");
                            }
                            _ => panic!("token_at_offset differs"),
                        }
                        let e = o + r.below((u32::from(rg.end()) - o) as usize + 1) as u32;
                        eqe(Some(y.covering_element(tr(o, e))), Some(x.covering_element(tr(o, e))), "covering_element");
                        eqe(y.child_or_token_at_range(tr(o, e)), x.child_or_token_at_range(tr(o, e)), "child_or_token_at_range");
                    }
                    assert!(y.text() == x.text() && y.to_string() == x.to_string());
                    assert!(std::ptr::eq(&*y.green(), &*x.green()), "green");
                    assert_eq!((y.is_mutable(), y.index()), (x.is_mutable(), x.index()));
                    let (a, b) = (y.clone_subtree(), x.clone_subtree());
                    assert!(a.green() == b.green() && a.is_mutable() == b.is_mutable() && a.text_range() == b.text_range(), "clone_subtree");
                    if !mutable && t.o.e[id].depth < 200 {
                        let (a, b) = (y.clone_for_update(), x.clone_for_update());
                        assert!(a.is_mutable() && b.is_mutable() && rk(a.kind()) == b.kind().0 && a.text_range() == b.text_range() && a.index() == b.index(), "clone_for_update");
                        // the same edit through both APIs
                        let n = t.o.e[id].children.len();
                        let s = r.below(n + 1);
                        let e = s + r.below(n - s + 1);
                        let new = build(&M::N(9, vec![M::T(1, "n".into())]), r);
                        a.splice_children(s..e, vec![SN::new_root_mut(new.clone()).into()]);
                        b.splice_children(s..e, vec![cursor::SyntaxNode::new_root_mut(new).into()]);
                        assert!(a.green() == b.green(), "splice_children");
                        let (ra, rb) = (a.ancestors().last().unwrap(), b.ancestors().last().unwrap());
                        assert!(ra.green() == rb.green(), "splice_children");
                        if n > 0 {
                            let (ca, cb) = (a.first_child_or_token().unwrap(), b.first_child_or_token().unwrap());
                            ca.detach();
                            cb.detach();
                            assert!(ra.green() == rb.green(), "element detach");
                        }
                        a.detach();
                        b.detach();
                        assert!(a.parent().is_none() && b.parent().is_none() && (id == 0 || ra.green() == rb.green()), "detach");
                        if let (Some(p), Some(q)) = (ra.first_token(), rb.first_token()) {
                            p.detach();
                            q.detach();
                            assert!(ra.green() == rb.green() && p.parent().is_none(), "token detach");
                        }
                    }
                    let rep = build(&M::N(t.o.e[id].kind, vec![M::T(1, "n".into())]), r);
                    assert!(y.replace_with(rep.clone()) == x.replace_with(rep), "replace_with");
                }
                _ => panic!("conversion changes the element class"),
            }
        }
    }
}

// ---- P19 -------------------------------------------------------------------------
pub fn p19_red(m: &M, r: &mut Rng) {
    if m.count() > 20_000 {
        return;
    }
    let g = build(m, r);
    for mutable in [false, true] {
        let t = raw::T::new(m, &g, mutable);
        let t2 = raw::T::new(m, &g, mutable);
        let ids = t.ids(r, 24);
        let els: Vec<_> = ids.iter().map(|&i| (i, raw::route(&t, i, r))).collect();
        for (i, a) in &els {
            let b = raw::route(&t, *i, r);
            assert!(*a == b && raw_h(a) == raw_h(&b), "two handles of #{i} differ");
            let c = t2.at(*i);
            assert!(*a == c && raw_h(a) == raw_h(&c), "handles of the same green element at the same offset differ");
            let (ya, yb): (SE, SE) = (a.clone().into(), b.into());
            assert!(ya == yb && h(&ya) == h(&yb), "two typed handles differ");
            for (j, b) in &els {
                let same = t.g[*i] == t.g[*j] && t.o.e[*i].start == t.o.e[*j].start && t.o.e[*i].node == t.o.e[*j].node;
                assert_eq!(a == b, same, "equality of handles #{i} and #{j}");
                if same {
                    assert_eq!(raw_h(a), raw_h(b), "hash of handles #{i} and #{j}");
                }
                let (yb,): (SE,) = (b.clone().into(),);
                assert_eq!(ya == yb, same, "equality of typed handles #{i} and #{j}");
            }
        }
    }
}
fn raw_h(e: &cursor::SyntaxElement) -> u64 {
    h(e)
}

// ---- P21 -------------------------------------------------------------------------
fn tok_debug(k: u16, start: u32, t: &str) -> String {
    let head = format!("{:?}@{:?}", mk(k), tr(start, start + t.len() as u32));
    if t.len() < 25 {
        return format!("{head} {t:?}");
    }
    for i in 21..25 {
        if t.is_char_boundary(i) {
            return format!("{head} {:?}", format!("{} ...", &t[..i]));
        }
    }
    unreachable!()
}
pub fn p21(m: &M, r: &mut Rng) {
    let g = build(m, r);
    let text = m.text();
    assert_eq!(g.to_string(), text, "display of a green node");
    assert_eq!(format!("{}", &*g), text);
    assert_eq!(format!("{g:?}"), format!("GreenNode {{ kind: {:?}, text_len: {:?}, n_children: {} }}", SyntaxKind(m.kind()), TextSize::from(m.len()), m.children().len()), "debug of a green node");
    for (c, x) in g.children().zip(m.children()).take(50) {
        assert_eq!(c.to_string(), x.text(), "display of a green child");
        if let (NodeOrToken::Token(c), M::T(k, s)) = (c, x) {
            assert_eq!(format!("{c:?}"), format!("GreenToken {{ kind: {:?}, text: {s:?} }}", SyntaxKind(*k)));
            assert_eq!(format!("{:?}", c.to_owned()), format!("{c:?}"));
            assert_eq!(c.to_owned().to_string(), *s);
        }
    }
    if m.count() > 20_000 {
        return;
    }
    // truncation at every width mixture
    let mut s = String::new();
    let w = ["a", "é", "中", "🦀"];
    for _ in 0..22 + r.below(12) {
        s.push_str(w[r.below(4)]);
        if s.len() >= 18 + r.below(12) && r.chance(1, 3) {
            break;
        }
    }
    let extra = M::N(3, vec![M::T(1, "pre".into()), M::T(2, s.clone())]);
    let te = typed::T::new(&extra, &build(&extra, r), r.chance(1, 2));
    assert_eq!(format!("{:?}", te.tok(2)), tok_debug(2, 3, &s), "debug of a token");
    for mutable in [false, true] {
        let t = typed::T::new(m, &g, mutable);
        let rt = raw::T::new(m, &g, mutable);
        for id in t.ids(r, 30) {
            let e = &t.o.e[id];
            let want = t.o.text_of(id);
            let el = t.at(id);
            assert_eq!(el.to_string(), want, "display of #{id}");
            let rel = rt.at(id);
            assert_eq!(rel.to_string(), want, "display of untyped #{id}");
            match (&el, &rel) {
                (NodeOrToken::Token(x), NodeOrToken::Token(y)) => {
                    assert_eq!(format!("{x:?}"), tok_debug(e.kind, e.start, want), "debug of a token");
                    assert_eq!(format!("{x:#?}"), tok_debug(e.kind, e.start, want), "alternate debug of a token");
                    assert_eq!(format!("{x}"), want);
                    assert_eq!(y.to_string(), want);
                    let _ = format!("{y:?}");
                }
                (NodeOrToken::Node(x), NodeOrToken::Node(y)) => {
                    assert_eq!(format!("{x:?}"), format!("{:?}@{:?}", mk(e.kind), rng_of(e)), "debug of a node");
                    assert_eq!(format!("{y:?}"), format!("SyntaxNode {{ kind: {:?}, text_range: {:?} }}", SyntaxKind(e.kind), rng_of(e)), "debug of an untyped node");
                    assert_eq!(x.text().to_string(), want);
                    if e.end_id - id < 600 {
                        let mut w = String::new();
                        for i in id..e.end_id {
                            let c = &t.o.e[i];
                            for _ in 0..c.depth - e.depth {
                                w.push_str("  ");
                            }
                            if c.node {
                                w.push_str(&format!("{:?}@{:?}", mk(c.kind), rng_of(c)));
                            } else {
                                w.push_str(&tok_debug(c.kind, c.start, t.o.text_of(i)));
                            }
                            w.push('\n');
                        }
                        assert_eq!(format!("{x:#?}"), w, "alternate debug of #{id}");
                    }
                }
                _ => unreachable!(),
            }
            let (dbg, alt) = match &el {
                NodeOrToken::Node(x) => (format!("{x:?}"), if e.end_id - id < 100 { format!("{x:#?}") } else { String::new() }),
                NodeOrToken::Token(x) => (format!("{x:?}"), format!("{x:#?}")),
            };
            let room = |n: usize, r: &mut Rng| if r.chance(1, 3) { n } else { r.below(n + 2) };
            strict::limited("display", want, room(want.len(), r), format_args!("{el}"));
            match &el {
                NodeOrToken::Node(x) => {
                    strict::limited("debug", &dbg, room(dbg.len(), r), format_args!("{x:?}"));
                    if !alt.is_empty() {
                        strict::limited("alternate debug", &alt, room(alt.len(), r), format_args!("{x:#?}"));
                    }
                    strict::limited("green display", want, room(want.len(), r), format_args!("{}", x.green()));
                    strict::limited("text display", want, room(want.len(), r), format_args!("{}", x.text()));
                }
                NodeOrToken::Token(x) => strict::limited("debug", &dbg, room(dbg.len(), r), format_args!("{x:?}")),
            }
            if e.end_id - id < 600 && e.depth < 100 && m.count() < 3000 {
                let want = ser(&t, id);
                if depth_ok(&t, id) && e.end_id - id < 200 {
                    let run = |b: usize| match &el {
                        NodeOrToken::Node(n) => strict::run(n, b),
                        NodeOrToken::Token(n) => strict::run(n, b),
                    };
                    let (ok, got) = run(usize::MAX);
                    assert!(ok.is_ok(), "serialising fails by itself");
                    assert_eq!(got, want, "serialised #{id}");
                    let b = r.below(12 * (e.end_id - id) + 1);
                    let (ok, got) = run(b);
                    assert!(want.starts_with(&got), "serialised #{id} up to the failure");
                    if got != want {
                        assert!(ok.is_err(), "the serializer's error is lost at #{id}");
                    }
                }
                if depth_ok(&t, id) {
                    match &el {
                        NodeOrToken::Node(n) => assert_eq!(serde_json::to_string(n).unwrap(), want, "serialised node #{id}"),
                        NodeOrToken::Token(n) => assert_eq!(serde_json::to_string(n).unwrap(), want, "serialised token #{id}"),
                    }
                }
            }
        }
    }
}
fn depth_ok(t: &typed::T, id: usize) -> bool {
    (id..t.o.e[id].end_id).all(|i| t.o.e[i].depth - t.o.e[id].depth < 100)
}
fn ser(t: &typed::T, id: usize) -> String {
    let e = &t.o.e[id];
    let head = format!("{{\"kind\":{},\"text_range\":[{},{}]", serde_json::to_string(&format!("{:?}", mk(e.kind))).unwrap(), e.start, e.end());
    if e.node {
        let c: Vec<String> = e.children.iter().map(|&c| ser(t, c)).collect();
        format!("{head},\"children\":[{}]}}", c.join(","))
    } else {
        format!("{head},\"text\":{}}}", serde_json::to_string(t.o.text_of(id)).unwrap())
    }
}

// ---- P22 -------------------------------------------------------------------------
macro_rules! must_panic {
    ($what:expr, $e:expr) => {
        assert!(
            quiet(|| {
                let _ = $e;
            })
            .is_err(),
            "{}: accepted",
            $what
        )
    };
}
pub fn p22(m: &M, r: &mut Rng) {
    if m.count() > 5000 {
        return;
    }
    let g = build(m, r);
    let keep = g.clone();
    let t = typed::T::new(m, &g, false);
    let tm = typed::T::new(m, &g, true);
    let rt = raw::T::new(m, &g, false);
    let ids: Vec<usize> = (0..6).map(|_| r.below(t.o.e.len())).chain([0]).collect();
    for id in ids {
        let e = &t.o.e[id];
        let (el, em, er) = (t.at(id), tm.at(id), rt.at(id));
        must_panic!("detach in an immutable tree", el.detach());
        must_panic!("detach in an immutable tree (untyped)", er.detach());
        match (&el, &em, &er) {
            (NodeOrToken::Node(n), NodeOrToken::Node(nm), NodeOrToken::Node(nr)) => {
                must_panic!("detach of an immutable node", n.detach());
                must_panic!("detach of an immutable node (untyped)", nr.detach());
                let c = e.children.len();
                let a = r.below(c + 1);
                let b = a + r.below(c - a + 1);
                must_panic!("splice in an immutable tree", n.splice_children(a..b, vec![]));
                must_panic!("splice in an immutable tree (untyped)", nr.splice_children(a..b, vec![]));
                let new = SN::new_root_mut(build(&M::N(5, vec![]), r));
                must_panic!("splice into an immutable tree", n.splice_children(a..a, vec![new.clone().into()]));
                assert!(new.parent().is_none());
                must_panic!("splicing an immutable element in", nm.splice_children(a..a, vec![n.clone().into()]));
                must_panic!("splicing beyond the end", nm.splice_children(c + 1..c + 1, vec![new.clone().into()]));
                assert!(new.parent().is_none() && new.kind() == mk(5) && new.text_range().is_empty(), "element of a failed splice");
                must_panic!("clone_for_update of a mutable node", nm.clone_for_update());
                must_panic!("pointer to a mutable node", SyntaxNodePtr::new(nm));
                must_panic!("typed pointer to a mutable node", AstPtr::new(&AAll(nm.clone())));
                let p = SyntaxNodePtr::new(n);
                must_panic!("resolving in a mutable tree", p.to_node(&tm.root));
                must_panic!("resolving in a mutable tree", p.try_to_node(&tm.root));
                must_panic!("replace by another kind", n.replace_with(build(&M::N(e.kind.wrapping_add(1), vec![]), r)));
                must_panic!("replace by another kind (mutable)", nm.replace_with(build(&M::N(e.kind.wrapping_add(1), vec![]), r)));
                for x in [n, nm] {
                    must_panic!("token_at_offset beyond the end", x.token_at_offset((e.end() + 1 + r.below(2) as u32).into()));
                    must_panic!("covering_element beyond the end", x.covering_element(tr(e.start, e.end() + 1)));
                    must_panic!("covering_element after the end", x.covering_element(tr(e.end() + 1, e.end() + 1)));
                    if e.start > 0 {
                        must_panic!("token_at_offset before the start", x.token_at_offset((e.start - 1).into()));
                        must_panic!("covering_element before the start", x.covering_element(tr(e.start - 1, e.end())));
                        must_panic!("covering_element before the start", x.covering_element(tr(e.start - 1, e.start - 1)));
                    }
                    let text = x.text();
                    let l = e.len;
                    must_panic!("slice beyond the end", text.slice(TextSize::from(0)..TextSize::from(l + 1)));
                    must_panic!("slice beyond the end", text.slice(TextSize::from(l + 1)..));
                    must_panic!("slice beyond the end", text.slice(..TextSize::from(l + 1 + r.below(3) as u32)));
                    if l > 0 {
                        must_panic!("reversed slice", text.slice(TextSize::from(l)..TextSize::from(l - 1)));
                        let s = text.slice(..TextSize::from(l - 1));
                        must_panic!("slice beyond the end of a slice", s.slice(..TextSize::from(l)));
                        let s = text.slice(TextSize::from(1)..);
                        must_panic!("slice beyond the end of a slice", s.slice(TextSize::from(0)..TextSize::from(l)));
                    }
                }
            }
            (NodeOrToken::Token(x), NodeOrToken::Token(xm), NodeOrToken::Token(xr)) => {
                must_panic!("detach of an immutable token", x.detach());
                must_panic!("detach of an immutable token (untyped)", xr.detach());
                must_panic!("replace by another kind", x.replace_with(GreenToken::new(SyntaxKind(e.kind.wrapping_add(1)), "z")));
                must_panic!("replace by another kind (mutable)", xm.replace_with(GreenToken::new(SyntaxKind(e.kind.wrapping_add(1)), "z")));
            }
            _ => unreachable!(),
        }
        t.is_full(&el, id, "after misuse");
        tm.is_full(&em, id, "after misuse");
        rt.is_full(&er, id, "after misuse");
    }
    for x in [&t.root, &tm.root] {
        assert!(green_model(&x.green()) == *m, "tree changed by misuse");
        assert_eq!(x.to_string(), t.o.text);
    }
    assert!(green_model(&keep) == *m);
    check_green(&keep);
    builder_misuse(m, r);
}
fn builder_misuse(m: &M, r: &mut Rng) {
    let mut cache = NodeCache::default();
    for which in 0..7 {
        let res = quiet(|| {
            let mut b = GreenNodeBuilder::with_cache(&mut cache);
            let k = SyntaxKind(3);
            match which {
                // beyond the current content
                0 => {
                    b.start_node(k);
                    b.token(k, "a");
                    b.token(k, "b");
                    if r.chance(1, 2) {
                        b.token(k, "c");
                    }
                    let cp = b.checkpoint();
                    b.finish_node();
                    b.start_node_at(cp, k);
                }
                // before the innermost open node
                1 => {
                    b.start_node(k);
                    let cp = b.checkpoint();
                    b.token(k, "a");
                    for _ in 0..r.below(3) {
                        b.token(k, "x");
                    }
                    b.start_node(k);
                    b.start_node_at(cp, k);
                }
                2 => {
                    b.start_node(k);
                    b.token(k, "z");
                    b.start_node(k);
                    let cp = b.checkpoint();
                    b.token(k, "a");
                    b.token(k, "b");
                    let mid = b.checkpoint();
                    b.start_node_at(mid, k);
                    b.start_node_at(cp, k);
                }
                3 => {
                    b.start_node(k);
                    b.finish_node();
                    b.finish_node();
                }
                4 => {
                    // two roots
                    crate::green::build_with(m, &mut b);
                    crate::green::build_with(m, &mut b);
                    b.finish();
                }
                5 => {
                    b.token(k, "a");
                    b.finish();
                }
                _ => {
                    b.finish();
                }
            }
        });
        assert!(res.is_err(), "builder misuse {which} accepted");
    }
    // the cache is still usable
    let mut b = GreenNodeBuilder::with_cache(&mut cache);
    crate::green::build_with(m, &mut b);
    assert!(green_model(&b.finish()) == *m, "cache after misuse of a builder");
}

// ---- P23 -------------------------------------------------------------------------
pub fn p23(m: &M, r: &mut Rng) {
    let g = build(m, r);
    for mutable in [false, true] {
        if mutable && m.count() > 20_000 {
            continue;
        }
        let t = typed::T::new(m, &g, mutable);
        for id in t.ids(r, 40) {
            if !t.o.e[id].node {
                continue;
            }
            acc::<A1>(&t, id, r);
            acc::<AOdd>(&t, id, r);
            acc::<AAll>(&t, id, r);
            acc::<ANone>(&t, id, r);
            let n = t.node(id);
            let ch = &t.o.e[id].children;
            let mut ks: Vec<u16> = ch.iter().take(30).map(|&c| t.o.e[c].kind).collect();
            ks.push(4711);
            ks.dedup();
            for k in ks {
                let want = ch.iter().copied().find(|&c| !t.o.e[c].node && t.o.e[c].kind == k);
                t.is_opt(support::token(&n, mk(k)).map(|x| x.into()), want, "support::token");
            }
        }
    }
}
fn acc<N: AstNode<Language = Lang> + Clone>(t: &typed::T, id: usize, r: &mut Rng) {
    let n = t.node(id);
    let want: Vec<usize> = t.o.e[id].children.iter().copied().filter(|&c| t.o.e[c].node && N::can_cast(mk(t.o.e[c].kind))).collect();
    t.is_opt(support::child::<N>(&n).map(|x| x.syntax().clone().into()), want.first().copied(), "support::child");
    let got: Vec<N> = support::children::<N>(&n).collect();
    assert_eq!(got.len(), want.len(), "support::children of #{id}: number");
    got.iter().zip(&want).for_each(|(g, &w)| t.is(&g.syntax().clone().into(), w, "support::children"));
    let mut it: AstChildren<N> = support::children(&n);
    let mut kept = vec![];
    for (i, &w) in want.iter().enumerate().take(50) {
        let x = it.next().expect("support::children stops early");
        t.is(&x.syntax().clone().into(), w, "support::children");
        if r.chance(1, 3) {
            kept.push(x);
        }
        let rest = it.clone().count();
        assert_eq!(rest, want.len() - i - 1, "cloned AstChildren");
    }
    assert!(want.len() > 50 || it.next().is_none(), "support::children goes on");
}
