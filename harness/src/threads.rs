//! P17: programs over shared green elements, run by several threads at once.
//! Self-contained: also compiled into the crate that runs under Miri.
use rowan::{GreenNode, GreenNodeBuilder, GreenToken, NodeCache, NodeOrToken, SyntaxKind};
use std::sync::{Arc, Barrier};

pub struct R(pub u64);
impl R {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        (self.next() >> 8) % n
    }
}

fn node(r: &mut R, depth: u64, cache: &mut NodeCache) -> GreenNode {
    let mut b = GreenNodeBuilder::with_cache(cache);
    fill(r, depth, &mut b);
    b.finish()
}
fn fill(r: &mut R, depth: u64, b: &mut GreenNodeBuilder<'_>) {
    b.start_node(SyntaxKind(r.below(4) as u16 + 1));
    for _ in 0..r.below(4) {
        if depth > 0 && r.below(2) == 0 {
            fill(r, depth - 1, b);
        } else {
            b.token(SyntaxKind(r.below(4) as u16 + 10), ["", "a", "bc", "é", "def"][r.below(5) as usize]);
        }
    }
    b.finish_node();
}

/// what a tree reads as
pub fn read(n: &rowan::GreenNodeData) -> String {
    let mut s = format!("{}[{}](", n.kind().0, u32::from(n.text_len()));
    for c in n.children() {
        match c {
            NodeOrToken::Node(c) => s += &read(c),
            NodeOrToken::Token(t) => s += &format!("{}:{:?};", t.kind().0, t.text()),
        }
    }
    s + ")"
}

struct Held {
    nodes: Vec<(GreenNode, String)>,
    toks: Vec<(GreenToken, SyntaxKind, String)>,
}
impl Clone for Held {
    fn clone(&self) -> Held {
        Held { nodes: self.nodes.clone(), toks: self.toks.clone() }
    }
}

fn work(mut h: Held, seed: u64, steps: u64, bar: &Barrier) -> Held {
    let mut r = R(seed);
    bar.wait();
    for _ in 0..steps {
        if h.nodes.is_empty() && h.toks.is_empty() {
            break;
        }
        if !h.nodes.is_empty() && (h.toks.is_empty() || r.below(3) > 0) {
            let i = r.below(h.nodes.len() as u64) as usize;
            match r.below(9) {
                0 => {
                    h.nodes.swap_remove(i);
                }
                1 => {
                    let x = h.nodes[i].clone();
                    h.nodes.push(x);
                }
                2 => {
                    let (n, s) = &h.nodes[i];
                    assert_eq!(&read(n), s, "content seen by a thread");
                }
                3 => {
                    // a node that shares the children
                    let k = h.nodes[i].0.kind();
                    let kids: Vec<_> = h.nodes[i].0.children().map(|c| c.to_owned()).collect();
                    let n = GreenNode::new(k, kids);
                    assert!(n == h.nodes[i].0, "rebuilt node");
                    h.nodes.push((n, h.nodes[i].1.clone()));
                }
                4 => {
                    let n = h.nodes[i].0.clone();
                    let parent = GreenNode::new(SyntaxKind(9), [NodeOrToken::Node(n.clone()), NodeOrToken::Node(n)]);
                    let s = read(&parent);
                    h.nodes.push((parent, s));
                }
                5 => {
                    // a syntax tree of this thread's own
                    let t = rowan::cursor::SyntaxNode::new_root(h.nodes[i].0.clone());
                    let n = t.descendants_with_tokens().count();
                    assert!(n >= 1);
                    let g = t.green().into_owned();
                    assert!(g == h.nodes[i].0);
                }
                6 => {
                    let t = rowan::cursor::SyntaxNode::new_root_mut(h.nodes[i].0.clone());
                    if let Some(c) = t.last_child_or_token() {
                        c.detach();
                    }
                    let g = t.green().into_owned();
                    let s = read(&g);
                    h.nodes.push((g, s));
                }
                7 => {
                    // keep only a part, release the whole
                    if let Some(NodeOrToken::Node(c)) = h.nodes[i].0.children().last().map(|c| c.to_owned()) {
                        let s = read(&c);
                        h.nodes[i] = (c, s);
                    }
                }
                _ => {
                    let n = &h.nodes[i].0;
                    let k = n.children().len();
                    if k > 0 {
                        let m = n.remove_child(r.below(k as u64) as usize);
                        let s = read(&m);
                        h.nodes.push((m, s));
                    }
                }
            }
        } else {
            let i = r.below(h.toks.len() as u64) as usize;
            match r.below(3) {
                0 => {
                    h.toks.swap_remove(i);
                }
                1 => {
                    let x = h.toks[i].clone();
                    h.toks.push(x);
                }
                _ => {
                    let (t, k, s) = &h.toks[i];
                    assert!(t.kind() == *k && t.text() == s, "token seen by a thread");
                }
            }
        }
        if h.nodes.len() > 8 {
            h.nodes.truncate(4);
        }
    }
    h
}

pub fn case(seed: u64, threads: u64, steps: u64) -> String {
    let mut r = R(seed);
    let mut cache = NodeCache::default();
    let mut h = Held { nodes: vec![], toks: vec![] };
    for _ in 0..1 + r.below(2) {
        let n = node(&mut r, 2, &mut cache);
        let s = read(&n);
        h.nodes.push((n, s));
    }
    let tok = GreenToken::new(SyntaxKind(33), "shared");
    h.toks.push((tok, SyntaxKind(33), "shared".to_string()));
    if r.below(2) == 0 {
        drop(cache);
    }
    let descr = format!("{} threads, {} steps, {}", threads, steps, h.nodes.iter().map(|n| n.1.clone()).collect::<Vec<_>>().join(" "));
    let bar = Arc::new(Barrier::new(threads as usize));
    let mut hs = vec![];
    let mut left = Some(h);
    for t in 0..threads {
        let h = if t + 1 == threads { left.take().unwrap() } else { left.as_ref().unwrap().clone() };
        let bar = bar.clone();
        let s = r.next();
        hs.push(std::thread::spawn(move || work(h, s, steps, &bar)));
    }
    let mut ends = vec![];
    let mut failed = false;
    for j in hs {
        match j.join() {
            Ok(h) => ends.push(h),
            Err(_) => failed = true,
        }
    }
    assert!(!failed, "a thread saw wrong content");
    for h in &ends {
        for (n, s) in &h.nodes {
            assert_eq!(&read(n), s, "content after the threads ended");
        }
        for (t, k, s) in &h.toks {
            assert!(t.kind() == *k && t.text() == s, "token after the threads ended");
        }
    }
    descr
}

/// Nothing but contended clone and drop.
pub fn contend(seed: u64, threads: u64, rounds: u64) -> String {
    let mut r = R(seed);
    let mut cache = NodeCache::default();
    let n = node(&mut r, 2, &mut cache);
    drop(cache);
    let tok = GreenToken::new(SyntaxKind(3), "contended");
    let s = read(&n);
    let bar = Arc::new(Barrier::new(threads as usize));
    let hs: Vec<_> = (0..threads)
        .map(|_| {
            let (n, tok, s, bar) = (n.clone(), tok.clone(), s.clone(), bar.clone());
            std::thread::spawn(move || {
                bar.wait();
                for i in 0..rounds {
                    let a = n.clone();
                    let t = tok.clone();
                    let b = a.clone();
                    drop(a);
                    if i % 64 == 0 {
                        assert!(read(&b) == s && t.text() == "contended", "content seen by a thread");
                    }
                }
            })
        })
        .collect();
    drop(n);
    drop(tok);
    let ok = hs.into_iter().map(|h| h.join().is_ok()).fold(true, |a, b| a && b);
    assert!(ok, "a thread saw wrong content");
    format!("{threads} threads contending, {rounds} rounds, {s}")
}
