//! P16: every kind of use, then everything is dropped in some order; the
//! allocator in alloc.rs does the judging.
use crate::green::{build, build_with};
use crate::model::*;
use crate::{quiet, raw, Case};
use rowan::cursor::*;
use rowan::{GreenNode, GreenNodeBuilder, GreenToken, NodeCache, NodeOrToken, SyntaxKind};

enum Thing {
    El(SyntaxElement),
    Green(#[allow(dead_code)] GreenNode),
    GTok(#[allow(dead_code)] GreenToken),
    Cache(#[allow(dead_code)] NodeCache),
    Kids(SyntaxNodeChildren),
    KidsT(SyntaxElementChildren),
    Pre(Preorder),
    PreT(PreorderWithTokens),
    Text(rowan::SyntaxText),
    Str(#[allow(dead_code)] String),
}

pub fn p16(c: &Case, r: &mut Rng) -> String {
    let m = c.tree(r);
    let heavy = m.count() > 3000;
    let mut things: Vec<Thing> = vec![];
    let mut cache = NodeCache::default();
    let g = if r.chance(1, 2) {
        let mut b = GreenNodeBuilder::with_cache(&mut cache);
        build_with(&m, &mut b);
        b.finish()
    } else {
        build(&m, r)
    };
    if r.chance(1, 2) {
        // a builder abandoned half way
        let mut b = GreenNodeBuilder::with_cache(&mut cache);
        b.start_node(SyntaxKind(1));
        build_with(&m, &mut b);
        b.token(SyntaxKind(2), "left over");
        if r.chance(1, 2) {
            b.start_node(SyntaxKind(3));
        }
    }
    if r.chance(1, 2) {
        things.push(Thing::Cache(cache));
    }
    for mutable in [false, true] {
        let root = if mutable { SyntaxNode::new_root_mut(g.clone()) } else { SyntaxNode::new_root(g.clone()) };
        let root = if r.chance(1, 4) && !mutable && !heavy { root.clone_for_update() } else { root };
        things.push(Thing::El(root.into()));
    }
    if r.chance(1, 2) {
        things.push(Thing::Green(g));
    }
    let steps = if heavy { 12 } else { 30 + r.below(40) };
    for _ in 0..steps {
        if things.is_empty() {
            break;
        }
        let k = r.below(things.len());
        if r.chance(1, 5) && things.len() > 2 {
            things.swap_remove(k);
            continue;
        }
        let mut new: Vec<Thing> = vec![];
        match &mut things[k] {
            Thing::El(e) => {
                let e = e.clone();
                use_el(&e, r, &mut new, heavy);
                if r.chance(1, 6) {
                    things.swap_remove(k);
                    new.extend(e.to_next_sibling_or_token().map(Thing::El));
                } else if r.chance(1, 6) {
                    if let NodeOrToken::Node(n) = e {
                        things.swap_remove(k);
                        new.extend(n.to_next_sibling().map(|x| Thing::El(x.into())));
                    }
                }
            }
            Thing::Kids(it) => {
                let x = it.next();
                if r.chance(1, 2) {
                    new.extend(x.map(|x| Thing::El(x.into())));
                }
                if r.chance(1, 4) {
                    new.push(Thing::Kids(it.clone()));
                }
                if r.chance(1, 4) {
                    if let Thing::Kids(it) = things.swap_remove(k) {
                        new.extend(it.by_kind(|k| k.0 % 2 == 1).next().map(|x| Thing::El(x.into())));
                    }
                }
            }
            Thing::KidsT(it) => {
                let x = it.next();
                if r.chance(1, 2) {
                    new.extend(x.map(Thing::El));
                }
                if r.chance(1, 4) {
                    new.push(Thing::KidsT(it.clone()));
                }
                if r.chance(1, 4) {
                    if let Thing::KidsT(it) = things.swap_remove(k) {
                        new.extend(it.by_kind(|k| k.0 % 2 == 1).next().map(Thing::El));
                    }
                }
            }
            Thing::Pre(it) => {
                if r.chance(1, 4) {
                    it.skip_subtree();
                    // only meaningful after an enter event; never unsafe
                    let _ = quiet(|| it.next());
                } else if let Some(rowan::WalkEvent::Enter(x)) = it.next() {
                    new.push(Thing::El(x.into()));
                }
            }
            Thing::PreT(it) => {
                if let Some(rowan::WalkEvent::Enter(x)) = it.next() {
                    new.push(Thing::El(x));
                }
            }
            Thing::Text(t) => {
                // the tree may have changed under it: a panic is fine, misuse of memory is not
                if t.len() > 0.into() {
                    if let Ok(s) = quiet(|| t.slice(rowan::TextSize::from(0)..)) {
                        new.push(Thing::Text(s));
                    }
                }
                let _ = quiet(|| t.contains_char('q'));
            }
            Thing::Green(_) | Thing::GTok(_) | Thing::Cache(_) | Thing::Str(_) => {}
        }
        things.extend(new);
        while things.len() > 40 {
            let k = r.below(things.len());
            things.swap_remove(k);
        }
    }
    // what is still held is still readable
    for t in &things {
        if let Thing::El(e) = t {
            let mut x = e.clone();
            let _ = x.text_range();
            while let Some(p) = x.parent() {
                x = p.into();
            }
            if let NodeOrToken::Token(t) = e {
                assert!(t.text().len() == u32::from(t.text_range().len()) as usize);
            } else if !heavy {
                assert_eq!(e.to_string().len(), u32::from(e.text_range().len()) as usize);
            }
        }
    }
    while !things.is_empty() {
        let k = r.below(things.len());
        things.swap_remove(k);
    }
    let _ = raw::mk(0);
    show(&m)
}

fn use_el(e: &SyntaxElement, r: &mut Rng, new: &mut Vec<Thing>, heavy: bool) {
    let mut push = |x: Option<SyntaxElement>| {
        if let Some(x) = x {
            new.push(Thing::El(x))
        }
    };
    match r.below(8) {
        0 => push(e.parent().map(|x| x.into())),
        1 => push(e.next_sibling_or_token()),
        2 => push(e.prev_sibling_or_token()),
        3 => push(e.first_token().map(|x| x.into())),
        4 => push(e.last_token().map(|x| x.into())),
        5 => push(e.ancestors().last().map(|x| x.into())),
        _ => {}
    }
    match e {
        NodeOrToken::Token(t) => match r.below(6) {
            0 => new.extend(t.next_token().map(|x| Thing::El(x.into()))),
            1 => new.extend(t.prev_token().map(|x| Thing::El(x.into()))),
            2 => new.push(Thing::GTok(t.green().to_owned())),
            3 if t.parent().is_some() && !heavy => new.push(Thing::Green(t.replace_with(GreenToken::new(t.kind(), "rr")))),
            4 => {
                let _ = quiet(|| t.replace_with(GreenToken::new(SyntaxKind(t.kind().0 ^ 1), "rr")));
            }
            _ => new.push(Thing::Str(t.text().to_string())),
        },
        NodeOrToken::Node(n) => match r.below(18) {
            0 => new.extend(n.first_child().map(|x| Thing::El(x.into()))),
            1 => new.extend(n.last_child().map(|x| Thing::El(x.into()))),
            2 => new.extend(n.first_child_or_token().map(Thing::El)),
            3 => new.extend(n.last_child_or_token().map(Thing::El)),
            4 => new.push(Thing::Kids(n.children())),
            5 => new.push(Thing::KidsT(n.children_with_tokens())),
            6 => new.push(Thing::Pre(n.preorder())),
            7 => new.push(Thing::PreT(n.preorder_with_tokens())),
            8 => new.push(Thing::Text(n.text())),
            9 => new.push(Thing::Green(n.green().into_owned())),
            10 => new.push(Thing::El(n.clone_subtree().into())),
            11 if !n.is_mutable() && !heavy => new.push(Thing::El(n.clone_for_update().into())),
            12 => {
                let rg = n.text_range();
                let o = u32::from(rg.start()) + r.below(u32::from(rg.len()) as usize + 1) as u32;
                if !heavy {
                    new.extend(n.token_at_offset(o.into()).left_biased().map(|x| Thing::El(x.into())));
                }
                new.push(Thing::El(n.covering_element(rowan::TextRange::empty(o.into()))));
            }
            13 if !heavy => {
                let g = GreenNode::new(n.kind(), vec![NodeOrToken::Token(GreenToken::new(SyntaxKind(2), "r"))]);
                new.push(Thing::Green(n.replace_with(g)));
            }
            14 => {
                // misuse that panics half way through something
                let _ = quiet(|| n.clone_for_update().clone_for_update());
                let _ = quiet(|| n.token_at_offset(n.text_range().end() + rowan::TextSize::from(1)));
                let _ = quiet(|| n.replace_with(GreenNode::new(SyntaxKind(n.kind().0 ^ 1), vec![])));
                let k = n.green().children().len() + 1 + r.below(2);
                let f = SyntaxNode::new_root_mut(GreenNode::new(SyntaxKind(5), vec![]));
                let f2: SyntaxElement = f.clone().into();
                assert!(quiet(|| n.splice_children(k..k, vec![f2])).is_err());
                new.push(Thing::El(f.into()));
                let _ = quiet(|| n.first_child_by_kind(&|_| panic!("matcher")));
                let _ = quiet(|| n.children_with_tokens().by_kind(|k| if k.0 % 2 == 0 { panic!("matcher") } else { true }).count());
                let _ = quiet(|| n.text().for_each_chunk(|_| panic!("chunk")));
            }
            15 if n.is_mutable() && !heavy => {
                let k = n.green().children().len();
                if k > 0 {
                    let c = raw::nth_child(n, r.below(k));
                    c.detach();
                    new.push(Thing::El(c));
                }
            }
            16 if n.is_mutable() && !heavy => {
                let k = n.green().children().len();
                let a = r.below(k + 1);
                let b = a + r.below(k - a + 1);
                let f = SyntaxNode::new_root_mut(GreenNode::new(SyntaxKind(5), vec![NodeOrToken::Token(GreenToken::new(SyntaxKind(2), "f"))]));
                if r.chance(1, 2) {
                    new.push(Thing::El(f.clone().into()));
                }
                n.splice_children(a..b, vec![f.into()]);
            }
            _ => {
                let _ = n.descendants_with_tokens().take(20).count();
            }
        },
    }
}
