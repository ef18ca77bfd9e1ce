// Mutation histories against a plain forest model. Included twice, like body.rs.
#[derive(Clone)]
struct MN {
    parent: Option<usize>,
    ch: Vec<usize>,
    kind: u16,
    text: Option<String>,
}
pub struct Hist {
    f: Vec<MN>,
    h: Vec<(SyntaxElement, usize)>,
    snaps: Vec<Snap>,
    pub ops: usize,
}
struct Snap {
    node: SyntaxNode,
    green: GreenNode,
    model: M,
    text: String,
}
#[derive(Clone, Copy)]
pub struct HistCfg {
    pub steps: usize,
    pub content: bool,
    pub handles: bool,
    pub keys: bool,
    pub snaps: bool,
    pub max_handles: usize,
    pub tree: usize,
    pub misuse: bool,
}

impl Hist {
    pub fn new() -> Hist {
        Hist { f: vec![], h: vec![], snaps: vec![], ops: 0 }
    }
    fn add_model(&mut self, m: &M, parent: Option<usize>) -> usize {
        let id = self.f.len();
        self.f.push(MN { parent, ch: vec![], kind: m.kind(), text: match m { M::T(_, t) => Some(t.clone()), _ => None } });
        let ch: Vec<usize> = m.children().iter().map(|c| self.add_model(c, Some(id))).collect();
        self.f[id].ch = ch;
        id
    }
    fn model(&self, id: usize) -> M {
        match &self.f[id].text {
            Some(t) => M::T(self.f[id].kind, t.clone()),
            None => M::N(self.f[id].kind, self.f[id].ch.iter().map(|&c| self.model(c)).collect()),
        }
    }
    fn root_of(&self, mut id: usize) -> usize {
        while let Some(p) = self.f[id].parent {
            id = p;
        }
        id
    }
    fn len(&self, id: usize) -> u32 {
        match &self.f[id].text {
            Some(t) => t.len() as u32,
            None => self.f[id].ch.iter().map(|&c| self.len(c)).sum(),
        }
    }
    fn start(&self, id: usize) -> u32 {
        match self.f[id].parent {
            None => 0,
            Some(p) => {
                let ix = self.index(id);
                self.start(p) + self.f[p].ch[..ix].iter().map(|&c| self.len(c)).sum::<u32>()
            }
        }
    }
    fn index(&self, id: usize) -> usize {
        match self.f[id].parent {
            None => 0,
            Some(p) => self.f[p].ch.iter().position(|&c| c == id).unwrap(),
        }
    }
    fn is_under(&self, mut id: usize, anc: usize) -> bool {
        loop {
            if id == anc {
                return true;
            }
            match self.f[id].parent {
                Some(p) => id = p,
                None => return false,
            }
        }
    }
    fn range(&self, id: usize) -> TextRange {
        let s = self.start(id);
        tr(s, s + self.len(id))
    }
    fn detach_model(&mut self, id: usize) {
        if let Some(p) = self.f[id].parent {
            let ix = self.index(id);
            self.f[p].ch.remove(ix);
            self.f[id].parent = None;
        }
    }
    fn attach_model(&mut self, p: usize, ix: usize, id: usize) {
        self.detach_model(id);
        self.f[p].ch.insert(ix, id);
        self.f[id].parent = Some(p);
    }
    /// cheap check that el is element id
    fn looks(&self, el: &SyntaxElement, id: usize, what: &str) {
        let m = &self.f[id];
        assert_eq!(el.as_token().is_some(), m.text.is_some(), "{what}: element class of #{id}");
        assert_eq!(kind(el), m.kind, "{what}: kind of #{id}");
        if m.parent.is_some() {
            assert_eq!(el.index(), self.index(id), "{what}: index of #{id}");
        }
        assert_eq!(el.text_range(), self.range(id), "{what}: text_range of #{id}");
        match el {
            NodeOrToken::Token(t) => assert_eq!(Some(t.text()), m.text.as_deref(), "{what}: text of #{id}"),
            NodeOrToken::Node(n) => {
                assert!(n.is_mutable(), "{what}: mutable");
                assert_eq!(n.green().children().len(), m.ch.len(), "{what}: number of children of #{id}");
            }
        }
    }
    fn looks_opt(&self, el: Option<SyntaxElement>, id: Option<usize>, what: &str) {
        match (el, id) {
            (None, None) => {}
            (Some(e), Some(i)) => self.looks(&e, i, what),
            (Some(e), None) => panic!("{what}: expected nothing, got kind {} at {:?}", kind(&e), e.text_range()),
            (None, Some(i)) => panic!("{what}: expected #{i}, got nothing"),
        }
    }
    fn check_handle(&self, el: &SyntaxElement, id: usize) {
        self.looks(el, id, "live handle");
        // chain of parents
        let (mut e, mut i) = (el.clone(), id);
        loop {
            match (e.parent(), self.f[i].parent) {
                (None, None) => break,
                (Some(p), Some(pi)) => {
                    e = p.into();
                    i = pi;
                    self.looks(&e, i, "ancestor of a live handle");
                }
                (a, b) => panic!("live handle #{id}: parent of #{i} is {:?}, expected {b:?}", a.map(|a| rk(a.kind()))),
            }
        }
        let m = &self.f[id];
        if let Some(p) = m.parent {
            let ix = self.index(id);
            let s = &self.f[p].ch;
            self.looks_opt(el.next_sibling_or_token(), s.get(ix + 1).copied(), "next sibling of a live handle");
            self.looks_opt(el.prev_sibling_or_token(), ix.checked_sub(1).map(|i| s[i]), "previous sibling of a live handle");
        } else {
            self.looks_opt(el.next_sibling_or_token(), None, "next sibling of a root");
            self.looks_opt(el.prev_sibling_or_token(), None, "previous sibling of a root");
        }
        if let NodeOrToken::Node(n) = el {
            assert!(crate::green_model(&n.green()) == self.model(id), "content seen by live handle #{id}: {} expected {}", show(&crate::green_model(&n.green())), show(&self.model(id)));
            self.looks_opt(n.first_child_or_token(), m.ch.first().copied(), "first child of a live handle");
            self.looks_opt(n.last_child_or_token(), m.ch.last().copied(), "last child of a live handle");
        }
    }
    pub fn check_handles(&self, full: bool, r: &mut Rng) {
        for (el, id) in &self.h {
            if full || r.chance(1, 2) {
                self.check_handle(el, *id);
            } else {
                self.looks(el, *id, "live handle");
            }
        }
        // identity: same element <=> equal handles, and same object
        for (i, (a, ia)) in self.h.iter().enumerate() {
            for (b, ib) in &self.h[..i] {
                if ia == ib {
                    assert!(a == b, "two handles of #{ia} are not equal");
                    assert_eq!(green_addr(a), green_addr(b), "two handles of #{ia} see different green elements");
                }
            }
        }
    }
    pub fn check_content(&self) {
        let mut seen = vec![];
        for (el, id) in &self.h {
            let root = self.root_of(*id);
            if seen.contains(&root) {
                continue;
            }
            seen.push(root);
            let top: SyntaxElement = match el.ancestors().last() {
                Some(n) => n.into(),
                None => el.clone(),
            };
            let want = self.model(root);
            match &top {
                NodeOrToken::Node(n) => {
                    let got = crate::green_model(&n.green());
                    assert!(got == want, "tree is {} but should be {}", show(&got), show(&want));
                    crate::check_green(&n.green());
                    assert_eq!(n.to_string(), want.text(), "text of the edited tree");
                    let mut walk = vec![];
                    for x in n.descendants_with_tokens() {
                        walk.push((kind(&x), x.text_range()));
                    }
                    let o = Ora::new(&want);
                    assert!(walk.len() == o.e.len() && walk.iter().zip(&o.e).all(|(a, b)| a.0 == b.kind && a.1 == rng_of(b)), "walk over the edited tree {}", show(&want));
                }
                NodeOrToken::Token(t) => {
                    assert_eq!(M::T(rk(t.kind()), t.text().to_string()), want, "detached token");
                }
            }
            assert!(top.parent().is_none());
        }
    }
    pub fn check_snaps(&self) {
        for s in &self.snaps {
            assert!(!s.node.is_mutable());
            assert!(crate::green_model(&s.green) == s.model, "a green tree changed: {} was {}", show(&crate::green_model(&s.green)), show(&s.model));
            assert!(crate::green_model(&s.node.green()) == s.model, "an immutable tree changed");
            assert_eq!(s.node.to_string(), s.text, "text of an immutable tree changed");
            assert_eq!(s.node.text_range(), tr(0, s.text.len() as u32));
        }
    }
    fn snap(&mut self, node: SyntaxNode) {
        let green = node.green().into_owned();
        let model = crate::green_model(&green);
        let text = node.to_string();
        self.snaps.push(Snap { node, green, model, text });
    }
    fn new_tree(&mut self, r: &mut Rng, max: usize) {
        let m = if r.chance(1, 2) { small_tree(r.next() % small_count(4)) } else { random_tree(r, max) };
        let green = crate::build(&m, r);
        crate::log(format!("new tree #{} {}", self.f.len(), show(&m)));
        if r.chance(1, 2) {
            let im = SyntaxNode::new_root(green);
            let u;
            if r.chance(1, 2) {
                u = im.clone_for_update();
                let id = self.add_model(&m, None);
                self.h.push((u.into(), id));
            } else {
                // through a descendant
                let all: Vec<SyntaxNode> = im.descendants().collect();
                let k = r.below(all.len());
                let t = T { root: im.clone(), o: Ora::new(&m), g: greens(&im.green()) };
                let ids: Vec<usize> = (0..t.o.e.len()).filter(|&i| t.o.e[i].node).collect();
                u = all[k].clone_for_update();
                let base = self.add_model(&m, None);
                self.h.push((u.into(), base + ids[k]));
            }
            self.snap(im);
        } else {
            let keep = green.clone();
            let u = SyntaxNode::new_root_mut(green);
            let id = self.add_model(&m, None);
            self.h.push((u.into(), id));
            if r.chance(1, 3) {
                self.snap(SyntaxNode::new_root(keep));
            }
        }
    }
    /// obtain one more handle by navigating from an existing one
    fn acquire(&mut self, r: &mut Rng, check: bool) {
        if self.h.is_empty() {
            return;
        }
        let (el, id) = self.h[r.below(self.h.len())].clone();
        let m = &self.f[id];
        let sib = |d: i64| -> Option<usize> {
            let p = m.parent?;
            let i = self.index(id) as i64 + d;
            if i < 0 { None } else { self.f[p].ch.get(i as usize).copied() }
        };
        let (got, want, how): (Option<SyntaxElement>, Option<usize>, &str) = match (r.below(9), &el) {
            (0, _) => (el.parent().map(|x| x.into()), m.parent, "parent"),
            (1, _) => (el.next_sibling_or_token(), sib(1), "next_sibling_or_token"),
            (2, _) => (el.prev_sibling_or_token(), sib(-1), "prev_sibling_or_token"),
            (3, NodeOrToken::Node(n)) => (n.first_child_or_token(), m.ch.first().copied(), "first_child_or_token"),
            (4, NodeOrToken::Node(n)) => (n.last_child_or_token(), m.ch.last().copied(), "last_child_or_token"),
            (5, NodeOrToken::Node(n)) => {
                let nodes: Vec<usize> = m.ch.iter().copied().filter(|&c| self.f[c].text.is_none()).collect();
                let k = r.below(nodes.len() + 1);
                (n.children().nth(k).map(|x| x.into()), nodes.get(k).copied(), "children().nth")
            }
            (6, NodeOrToken::Token(t)) => {
                let mut toks = vec![];
                self.tokens(self.root_of(id), &mut toks);
                let p = toks.iter().position(|&x| x == id).unwrap();
                if r.chance(1, 2) {
                    (t.next_token().map(|x| x.into()), toks.get(p + 1).copied(), "next_token")
                } else {
                    (t.prev_token().map(|x| x.into()), p.checked_sub(1).map(|p| toks[p]), "prev_token")
                }
            }
            (_, NodeOrToken::Node(n)) => {
                let k = r.below(m.ch.len() + 1);
                (n.children_with_tokens().nth(k), m.ch.get(k).copied(), "children_with_tokens().nth")
            }
            (_, NodeOrToken::Token(_)) => (el.parent().map(|x| x.into()), m.parent, "parent"),
        };
        if check || got.is_some() != want.is_some() {
            self.looks_opt(got.clone(), want, how);
        }
        if let (Some(g), Some(w)) = (got, want) {
            crate::log(format!("handle to #{w} via {how} of #{id}"));
            self.h.push((g, w));
        }
    }
    /// consume a handle (often the only one) and advance it to its sibling
    fn advance(&mut self, r: &mut Rng, check: bool) {
        let k = r.below(self.h.len());
        let (el, id) = self.h.swap_remove(k);
        let m = &self.f[id];
        let rest: Vec<usize> = match m.parent {
            None => vec![],
            Some(p) => self.f[p].ch[self.index(id) + 1..].to_vec(),
        };
        let raw: rowan::cursor::SyntaxElement = el.into();
        let (got, want): (Option<SyntaxElement>, Option<usize>) = match raw {
            NodeOrToken::Node(n) if r.chance(1, 2) => {
                (n.to_next_sibling().map(|x| rowan::cursor::SyntaxElement::from(x).into()), rest.iter().copied().find(|&c| self.f[c].text.is_none()))
            }
            raw => (raw.to_next_sibling_or_token().map(|x| x.into()), rest.first().copied()),
        };
        if check || got.is_some() != want.is_some() {
            self.looks_opt(got.clone(), want, "to_next_sibling(_or_token)");
        }
        crate::log(format!("advance the handle to #{id}"));
        if let (Some(g), Some(w)) = (got, want) {
            crate::log(format!("which is now a handle to #{w}"));
            self.h.push((g, w));
        }
    }
    /// equality and hashing of handles: the same green element at the same offset
    pub fn check_keys(&self) {
        let hs: Vec<u64> = self.h.iter().map(|x| crate::hash_of(&x.0)).collect();
        for (i, (a, ia)) in self.h.iter().enumerate() {
            for (j, (b, ib)) in self.h.iter().enumerate() {
                let same = green_addr(a) == green_addr(b) && a.as_token().is_some() == b.as_token().is_some() && self.start(*ia) == self.start(*ib);
                assert_eq!(a == b, same, "equality of handles to #{ia} and #{ib}");
                if same {
                    assert_eq!(hs[i], hs[j], "hashes of equal handles to #{ia} and #{ib}");
                }
            }
        }
    }
    fn tokens(&self, id: usize, out: &mut Vec<usize>) {
        if self.f[id].text.is_some() {
            out.push(id);
        }
        for &c in &self.f[id].ch {
            self.tokens(c, out);
        }
    }
    fn op_detach(&mut self, r: &mut Rng) {
        let k = r.below(self.h.len());
        let (el, id) = self.h[k].clone();
        crate::log(format!("detach #{id}"));
        el.detach();
        self.detach_model(id);
        self.ops += 1;
    }
    fn fresh(&mut self, r: &mut Rng) -> (SyntaxElement, usize) {
        let m = match r.below(3) {
            0 => M::N(7, vec![]),
            1 => small_tree(r.next() % small_count(3)),
            _ => M::N(8, vec![M::T(9, "new".into())]),
        };
        let green = crate::build(&m, r);
        let id = self.add_model(&m, None);
        let u = if r.chance(1, 2) { SyntaxNode::new_root_mut(green) } else { SyntaxNode::new_root(green).clone_for_update() };
        if self.f[id].ch.len() > 0 && r.chance(1, 3) {
            // take a child out (often a token)
            let k = r.below(self.f[id].ch.len());
            let c = nth_child(&u, k);
            let cid = self.f[id].ch[k];
            c.detach();
            self.detach_model(cid);
            return (c, cid);
        }
        (u.into(), id)
    }
    fn op_splice(&mut self, r: &mut Rng) {
        let nodes: Vec<usize> = (0..self.h.len()).filter(|&i| self.h[i].0.as_node().is_some()).collect();
        if nodes.is_empty() {
            return;
        }
        let (el, id) = self.h[*r.pick(&nodes)].clone();
        let n = el.into_node().unwrap();
        let len = self.f[id].ch.len();
        let a = r.below(len + 1);
        let b = if r.chance(1, 2) { a } else { a + r.below(len - a + 1) };
        let mut ins: Vec<(SyntaxElement, usize)> = vec![];
        for _ in 0..[0, 1, 1, 1, 2, 3][r.below(6)] {
            if r.chance(2, 3) {
                let (x, xi) = self.h[r.below(self.h.len())].clone();
                let earlier = self.f[xi].parent == Some(id) && self.index(xi) < a;
                if self.is_under(id, xi) || earlier || ins.iter().any(|i| i.1 == xi) {
                    continue;
                }
                ins.push((x, xi));
            } else {
                let f = self.fresh(r);
                ins.push(f);
            }
        }
        // an element that contains another inserted one is fine: edits happen in order
        crate::log(format!("splice #{id} {a}..{b} <- {:?}", ins.iter().map(|i| i.1).collect::<Vec<_>>()));
        // model: delete
        let del: Vec<usize> = self.f[id].ch[a..b].to_vec();
        for d in del {
            self.detach_model(d);
        }
        for (k, (_, xi)) in ins.iter().enumerate() {
            self.attach_model(id, a + k, *xi);
        }
        let keep = r.chance(1, 2);
        if keep {
            let els: Vec<SyntaxElement> = ins.iter().map(|i| i.0.clone()).collect();
            n.splice_children(a..b, els);
            self.h.extend(ins);
        } else {
            n.splice_children(a..b, ins.into_iter().map(|i| i.0).collect::<Vec<_>>());
        }
        self.ops += 1;
    }
    fn op_iter_detach(&mut self, r: &mut Rng) {
        let nodes: Vec<usize> = (0..self.h.len()).filter(|&i| self.h[i].0.as_node().is_some()).collect();
        if nodes.is_empty() {
            return;
        }
        let (el, id) = self.h[*r.pick(&nodes)].clone();
        let n = el.into_node().unwrap();
        let tokens = r.chance(1, 2);
        let salt = r.next();
        let all = r.chance(1, 2);
        let pick = |i: usize| all || (salt >> (i % 60)) & 1 == 1;
        let ch: Vec<usize> = self.f[id].ch.iter().copied().filter(|&c| tokens || self.f[c].text.is_none()).collect();
        crate::log(format!("for c in children(tokens: {tokens}) of #{id}: detach {:?}", ch.iter().enumerate().filter(|(i, _)| pick(*i)).map(|x| *x.1).collect::<Vec<_>>()));
        let keep = r.chance(1, 2);
        let mut kept: Vec<SyntaxElement> = vec![];
        let mut count = 0;
        if tokens {
            for (i, c) in n.children_with_tokens().enumerate() {
                count += 1;
                if pick(i) {
                    c.detach();
                }
                if keep {
                    kept.push(c);
                }
            }
        } else {
            for (i, c) in n.children().enumerate() {
                count += 1;
                if pick(i) {
                    c.detach();
                }
                if keep {
                    kept.push(c.into());
                }
            }
        }
        assert_eq!(count, ch.len(), "iterating the children of #{id} while detaching them: number of children seen");
        for (i, &c) in ch.iter().enumerate() {
            if pick(i) {
                self.detach_model(c);
            }
        }
        for (x, &c) in kept.into_iter().zip(&ch) {
            if r.chance(1, 3) {
                self.h.push((x, c));
            }
        }
        self.ops += 1;
    }
    fn op_misuse(&mut self, r: &mut Rng) {
        let nodes: Vec<usize> = (0..self.h.len()).filter(|&i| self.h[i].0.as_node().is_some()).collect();
        if nodes.is_empty() {
            return;
        }
        let (el, id) = self.h[*r.pick(&nodes)].clone();
        let n = el.into_node().unwrap();
        let len = self.f[id].ch.len();
        let past = len + 1 + r.below(3);
        let (x, xi) = if r.chance(1, 2) {
            let (x, xi) = self.h[r.below(self.h.len())].clone();
            if self.is_under(id, xi) {
                return;
            }
            (x, xi)
        } else {
            self.fresh(r)
        };
        crate::log(format!("misuse: splice #{xi} into #{id} at {past} of {len}"));
        let y = x.clone();
        let res = crate::quiet(|| n.splice_children(past..past, vec![y]));
        assert!(res.is_err(), "splicing beyond the last child must panic");
        // the element to insert is detached first
        self.detach_model(xi);
        self.h.push((x, xi));
        self.ops += 1;
    }
    pub fn step(&mut self, r: &mut Rng, c: &HistCfg) {
        while self.h.len() > c.max_handles {
            let k = r.below(self.h.len());
            let (el, id) = self.h.swap_remove(k);
            crate::log(format!("drop a handle to #{id}"));
            drop(el);
        }
        if self.h.is_empty() {
            self.new_tree(r, c.tree);
        }
        match r.below(20) {
            0 => self.new_tree(r, c.tree),
            1 | 2 => {
                let k = r.below(self.h.len());
                let (el, id) = self.h.swap_remove(k);
                crate::log(format!("drop a handle to #{id}"));
                drop(el);
            }
            3 => {
                let k = r.below(self.h.len());
                let x = self.h[k].clone();
                self.h.push(x);
            }
            4..=9 => {
                for _ in 0..1 + r.below(3) {
                    self.acquire(r, c.handles)
                }
            }
            10 if r.chance(1, 2) => self.advance(r, c.handles),
            10..=12 => self.op_detach(r),
            13..=16 => self.op_splice(r),
            17 => self.op_iter_detach(r),
            18 if c.misuse => self.op_misuse(r),
            _ => {
                let (el, id) = self.h[r.below(self.h.len())].clone();
                if let NodeOrToken::Node(n) = &el {
                    let s = n.clone_subtree();
                    if c.content {
                        assert!(crate::green_model(&s.green()) == self.model(id), "clone_subtree of #{id}");
                        assert_eq!(s.text_range(), tr(0, self.len(id)), "clone_subtree of #{id}: range");
                        assert!(s.parent().is_none() && !s.is_mutable());
                    }
                    self.snap(s);
                }
            }
        }
    }
    pub fn run(r: &mut Rng, c: &HistCfg) -> Hist {
        let mut h = Hist::new();
        h.go(r, c);
        h
    }
    pub fn go(&mut self, r: &mut Rng, c: &HistCfg) {
        for i in 0..c.steps {
            let before = self.ops;
            self.step(r, c);
            if self.ops != before || i + 1 == c.steps {
                if c.content {
                    self.check_content();
                }
                if c.handles {
                    self.check_handles(i % 4 == 0 || i + 1 == c.steps, r);
                }
                if c.keys {
                    self.check_keys();
                }
                if c.snaps {
                    self.check_snaps();
                }
            }
        }
    }
    pub fn drop_all(&mut self, r: &mut Rng) {
        while !self.h.is_empty() || !self.snaps.is_empty() {
            let k = r.below(self.h.len() + self.snaps.len());
            if k < self.h.len() {
                self.h.swap_remove(k);
            } else {
                let k = k - self.h.len();
                let s = self.snaps.swap_remove(k);
                drop(s);
            }
        }
    }
}
