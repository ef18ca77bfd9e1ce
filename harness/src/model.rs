//! Plain-data model of trees, generators, and deterministic randomness.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum M {
    N(u16, Vec<M>),
    T(u16, String),
}

impl M {
    pub fn text_to(&self, out: &mut String) {
        match self {
            M::N(_, c) => c.iter().for_each(|c| c.text_to(out)),
            M::T(_, t) => out.push_str(t),
        }
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        self.text_to(&mut s);
        s
    }
    pub fn len(&self) -> u32 {
        match self {
            M::N(_, c) => c.iter().map(|c| c.len()).sum(),
            M::T(_, t) => t.len() as u32,
        }
    }
    pub fn kind(&self) -> u16 {
        match self {
            M::N(k, _) | M::T(k, _) => *k,
        }
    }
    pub fn is_node(&self) -> bool {
        matches!(self, M::N(..))
    }
    pub fn children(&self) -> &[M] {
        match self {
            M::N(_, c) => c,
            M::T(..) => &[],
        }
    }
    pub fn count(&self) -> usize {
        1 + self.children().iter().map(|c| c.count()).sum::<usize>()
    }
}

pub fn show(m: &M) -> String {
    match m {
        M::T(k, t) if t.len() > 40 => format!("{}:tok[{} bytes]", k, t.len()),
        M::T(k, t) => format!("{}:{:?}", k, t),
        M::N(k, c) => {
            let mut s = format!("{}(", k);
            for (i, x) in c.iter().enumerate() {
                if i > 0 {
                    s.push(' ');
                }
                if s.len() > 4000 {
                    s.push_str("...");
                    break;
                }
                s.push_str(&show(x));
            }
            s.push(')');
            s
        }
    }
}

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            return 0;
        }
        (self.next() % n as u64) as usize
    }
    pub fn chance(&mut self, num: u32, den: u32) -> bool {
        self.next() % (den as u64) < num as u64
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
}

/// Entry of the oracle: elements in preorder.
#[derive(Clone, Debug)]
pub struct Ent {
    pub parent: Option<usize>,
    pub index: usize,
    pub kind: u16,
    pub node: bool,
    pub start: u32,
    pub len: u32,
    pub children: Vec<usize>,
    /// one past the last element of the subtree
    pub end_id: usize,
    pub depth: usize,
}
impl Ent {
    pub fn end(&self) -> u32 {
        self.start + self.len
    }
}
pub struct Ora {
    pub e: Vec<Ent>,
    pub text: String,
}

impl Ora {
    pub fn new(m: &M) -> Ora {
        let mut o = Ora { e: Vec::new(), text: String::new() };
        o.add(m, None, 0, 0);
        o
    }
    fn add(&mut self, m: &M, parent: Option<usize>, index: usize, depth: usize) -> usize {
        let id = self.e.len();
        let start = self.text.len() as u32;
        self.e.push(Ent { parent, index, kind: m.kind(), node: m.is_node(), start, len: 0, children: vec![], end_id: 0, depth });
        match m {
            M::T(_, t) => self.text.push_str(t),
            M::N(_, c) => {
                let mut ch = Vec::with_capacity(c.len());
                for (i, x) in c.iter().enumerate() {
                    ch.push(self.add(x, Some(id), i, depth + 1));
                }
                self.e[id].children = ch;
            }
        }
        self.e[id].len = self.text.len() as u32 - start;
        self.e[id].end_id = self.e.len();
        id
    }
    pub fn text_of(&self, id: usize) -> &str {
        let e = &self.e[id];
        &self.text[e.start as usize..e.end() as usize]
    }
    pub fn tokens(&self) -> Vec<usize> {
        (0..self.e.len()).filter(|&i| !self.e[i].node).collect()
    }
    pub fn ancestors(&self, id: usize) -> Vec<usize> {
        let mut v = vec![];
        let mut c = Some(id);
        while let Some(i) = c {
            v.push(i);
            c = self.e[i].parent;
        }
        v
    }
}

// ---- exhaustive small trees ------------------------------------------------
const LEAVES: [(u16, &str); 3] = [(1, ""), (2, "a"), (1, "é")];
const NODES: [u16; 2] = [10, 1];

/// number of forests with k elements
pub fn forests(k: usize) -> u64 {
    let mut f = vec![1u64];
    for n in 1..=k {
        let mut s = LEAVES.len() as u64 * f[n - 1];
        for j in 0..n {
            s += NODES.len() as u64 * f[j] * f[n - 1 - j];
        }
        f.push(s);
    }
    f[k]
}
fn unrank(k: usize, mut r: u64, out: &mut Vec<M>) {
    if k == 0 {
        return;
    }
    let rest = forests(k - 1);
    for (kind, t) in LEAVES {
        if r < rest {
            out.push(M::T(kind, t.to_string()));
            return unrank(k - 1, r, out);
        }
        r -= rest;
    }
    for kind in NODES {
        for j in 0..k {
            let a = forests(j);
            let b = forests(k - 1 - j);
            if r < a * b {
                let mut c = vec![];
                unrank(j, r / b, &mut c);
                out.push(M::N(kind, c));
                return unrank(k - 1 - j, r % b, out);
            }
            r -= a * b;
        }
    }
    unreachable!()
}
/// the idx-th tree in order of size, with root kind 20
pub fn small_tree(mut idx: u64) -> M {
    let mut k = 0;
    loop {
        let n = forests(k);
        if idx < n {
            let mut c = vec![];
            unrank(k, idx, &mut c);
            return M::N(20, c);
        }
        idx -= n;
        k += 1;
    }
}
pub fn small_count(k: usize) -> u64 {
    (0..=k).map(forests).sum()
}

const CHARS: [&str; 12] = ["a", "b", "é", "ß", "中", "語", "🦀", "\u{10ffff}", " ", "\n", "a", "ab"];
pub fn gen_text(r: &mut Rng) -> String {
    let n = match r.below(12) {
        0 | 1 | 2 => 0,
        3..=6 => 1,
        7 | 8 => 2,
        9 => 3,
        10 => r.below(8),
        _ => 18 + r.below(14),
    };
    (0..n).map(|_| *r.pick(&CHARS)).collect()
}
pub struct Shape {
    pub empties: u32,
    pub nodes: u32,
    pub kinds: u16,
    pub alphabet: bool,
}
pub fn gen_children(r: &mut Rng, budget: &mut usize, depth: usize, s: &Shape) -> Vec<M> {
    let mut v = vec![];
    let n = match r.below(10) {
        0 => 0,
        1 | 2 => 1,
        3 | 4 => 2,
        5 => 3,
        6 => 4,
        7 => 5,
        _ => 1 + r.below(9),
    };
    for _ in 0..n {
        if *budget == 0 {
            break;
        }
        *budget -= 1;
        v.push(gen_elem(r, budget, depth, s));
    }
    v
}
pub fn gen_elem(r: &mut Rng, budget: &mut usize, depth: usize, s: &Shape) -> M {
    let k = 1 + r.below(s.kinds as usize) as u16;
    if depth > 0 && r.chance(s.nodes, 100) {
        if r.chance(s.empties, 100) {
            M::N(k, vec![])
        } else {
            M::N(k, gen_children(r, budget, depth - 1, s))
        }
    } else if r.chance(s.empties, 100) {
        M::T(k, String::new())
    } else if s.alphabet {
        M::T(k, (*r.pick(&["a", "b", "ab", "a"])).to_string())
    } else {
        M::T(k, gen_text(r))
    }
}
pub fn random_tree(r: &mut Rng, max: usize) -> M {
    let s = Shape {
        empties: *r.pick(&[0, 10, 40]),
        nodes: *r.pick(&[30, 50, 70]),
        kinds: *r.pick(&[2, 3, 8]),
        alphabet: r.chance(1, 2),
    };
    let mut budget = 1 + r.below(max);
    let depth = 1 + r.below(6);
    let k = 1 + r.below(s.kinds as usize) as u16;
    if max > 8 && r.chance(1, 10) {
        // one wide node with few elements of one class
        let n = 10 + r.below(60);
        let s = Shape { nodes: *r.pick(&[4, 50, 94]), kinds: *r.pick(&[2, 40]), ..s };
        let mut budget = 20;
        return M::N(k, (0..n).map(|_| gen_elem(r, &mut budget, 1, &s)).collect());
    }
    let mut c = gen_children(r, &mut budget, depth, &s);
    if c.len() < 2 && budget > 3 {
        c.extend(gen_children(r, &mut budget, depth, &s));
    }
    M::N(k, c)
}

pub const SPECIALS: u64 = 18;
pub fn special_tree(i: u64) -> M {
    let t = |k: u16, s: &str| M::T(k, s.to_string());
    match i {
        0 => M::N(1, vec![]),
        // wide: more children than fit in 16 bits
        1 => M::N(1, (0..66_000).map(|i| if i % 7 == 3 { M::N(3, vec![t(2, "x")]) } else { t(2, "y") }).collect()),
        // deep
        2 => {
            let mut m = M::N(1, vec![t(2, "z")]);
            for i in 0..700 {
                m = M::N(1 + (i % 3) as u16, if i % 5 == 0 { vec![t(1, ""), m, t(2, "b")] } else { vec![m] });
            }
            m
        }
        // a token longer than 16 bits, in the middle
        3 => M::N(1, vec![t(2, "a"), t(3, &"é".repeat(40_000)), M::N(4, vec![t(2, &"x".repeat(70_000)), t(2, "")]), t(2, "q")]),
        // only empty things
        4 => M::N(1, vec![t(1, ""), M::N(2, vec![]), M::N(3, vec![M::N(2, vec![]), t(1, "")]), t(1, ""), M::N(2, vec![])]),
        // empties around and between
        5 => M::N(1, vec![M::N(2, vec![]), t(1, ""), t(2, "a"), M::N(2, vec![]), M::N(2, vec![]), t(1, ""), t(2, "b"), M::N(2, vec![t(1, "")]), t(3, "c"), M::N(2, vec![])]),
        // same kind and range nested
        6 => M::N(1, vec![M::N(1, vec![M::N(1, vec![t(2, "ab"), t(3, "")]), M::N(5, vec![])])]),
        7 => M::N(1, vec![t(1, ""), M::N(1, vec![M::N(1, vec![]), M::N(1, vec![t(1, "x")])])]),
        // boundary number of children for caching
        8 => M::N(1, (0..5).map(|n| M::N(2, (0..n).map(|_| t(3, "k")).collect())).collect()),
        // maximal kinds
        9 => M::N(u16::MAX, vec![t(0, "0"), t(u16::MAX, "m"), M::N(0, vec![t(0x8000, "h")])]),
        // identical siblings (shared green)
        10 => M::N(1, (0..9).map(|_| M::N(2, vec![t(3, "s"), M::N(4, vec![t(3, "s")])])).collect()),
        11 => M::N(1, (0..200).map(|i| if i % 3 == 0 { M::N(2, vec![]) } else { t(2, if i % 5 == 0 { "" } else { "w" }) }).collect()),
        // last child deep on the right / left
        12 => M::N(1, vec![M::N(1, vec![M::N(1, vec![M::N(1, vec![t(2, "l")]), t(2, "m")]), t(2, "n")]), M::N(1, vec![t(2, "o"), M::N(1, vec![t(2, "p"), M::N(1, vec![t(2, "q")])])])]),
        13 => M::N(1, vec![t(2, "only")]),
        14 => M::N(1, (0..24).map(|i| t(2, &"中文🦀é a".repeat(1 + i)[..].chars().take(i + 3).collect::<String>())).collect()),
        15 => M::N(1, (0..40).map(|i| M::N(2 + i % 3, (0..(i % 4)).map(|j| M::N(3, vec![t(2, if j == 1 { "" } else { "xy" })])).collect())).collect()),
        // long runs of tokens, and of nodes, between elements of the other class
        16 => M::N(1, (0..160).map(|i| if i % 53 == 0 { M::N(3, vec![t(2, "n")]) } else { t(if i % 50 == 0 { 4 } else { 2 }, "x") }).collect()),
        17 => M::N(1, (0..600).map(|i| if i % 290 == 5 { t(2, "x") } else { M::N(3 + (i % 200 == 0) as u16, if i % 2 == 0 { vec![] } else { vec![t(2, "n")] }) }).collect()),
        _ => unreachable!(),
    }
}
