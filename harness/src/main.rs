mod alloc;
mod ast_props;
mod green;
mod mem;
mod model;
mod strict;
mod threads;

use green::{build, check_green, green_model};
use model::*;
use std::io::Write;

#[global_allocator]
static ALLOC: alloc::Checked = alloc::Checked;

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct K(pub u16);
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Lang;
impl rowan::Language for Lang {
    type Kind = K;
    fn kind_from_raw(raw: rowan::SyntaxKind) -> K {
        K(raw.0 ^ 0x1234)
    }
    fn kind_to_raw(kind: K) -> rowan::SyntaxKind {
        rowan::SyntaxKind(kind.0 ^ 0x1234)
    }
}

pub mod raw {
    pub use rowan::cursor::{SyntaxElement, SyntaxNode, SyntaxToken};
    pub fn rk(k: rowan::SyntaxKind) -> u16 {
        k.0
    }
    pub fn mk(k: u16) -> rowan::SyntaxKind {
        rowan::SyntaxKind(k)
    }
    fn tok_ancestors(t: &SyntaxToken) -> Vec<SyntaxNode> {
        t.ancestors().collect()
    }
    fn elem_by_kind(t: &T, el: &SyntaxElement, k: rowan::SyntaxKind, want: Option<usize>) {
        t.is_opt(el.next_sibling_or_token_by_kind(&|x| x == k), want, "element next_sibling_or_token_by_kind");
        if let NodeOrToken::Token(x) = el {
            t.is_opt(x.next_sibling_or_token_by_kind(&|x| x == k), want, "token next_sibling_or_token_by_kind");
        }
        // consuming steps: shared and unshared handles
        let id = (0..t.o.e.len()).find(|&i| t.g[i] == green_addr(el) && t.o.e[i].start == u32::from(el.text_range().start()) && t.o.e[i].index == el.index());
        if t.o.e.len() > 300 {
            return;
        }
        let _ = id;
        let a = el.clone();
        let next = el.next_sibling_or_token();
        let got = a.to_next_sibling_or_token();
        assert_eq!(got.is_some(), next.is_some(), "to_next_sibling_or_token on a shared handle");
        if let (Some(a), Some(b)) = (got, next) {
            assert!(a == b && a.index() == b.index(), "to_next_sibling_or_token on a shared handle");
        }
    }
    fn elem_tokens(t: &T, id: usize, toks: &[usize]) {
        let el = t.at(id);
        let lo = toks.partition_point(|&x| x < id);
        let hi = toks.partition_point(|&x| x < t.o.e[id].end_id);
        let (f, l) = if lo < hi { (Some(toks[lo]), Some(toks[hi - 1])) } else { (None, None) };
        t.is_opt(el.first_token().map(|x| x.into()), f, "element first_token");
        t.is_opt(el.last_token().map(|x| x.into()), l, "element last_token");
    }
    /// consuming steps along the whole sibling list with an unshared handle
    pub fn p06_consuming(t: &T, r: &mut Rng) {
        for id in t.ids(r, 20) {
            let e = &t.o.e[id];
            if !e.node || e.children.len() > 500 {
                continue;
            }
            let n = t.node(id);
            for from in 0..e.children.len().min(4) {
                let mut c = Some(nth_child(&n, from));
                let mut i = from;
                while let Some(x) = c {
                    t.is(&x, e.children[i], "to_next_sibling_or_token");
                    c = x.to_next_sibling_or_token();
                    i += 1;
                }
                assert_eq!(i, e.children.len(), "to_next_sibling_or_token stops early");
            }
            let nodes = t.nodes_of(id);
            for from in 0..nodes.len().min(4) {
                let mut c = n.children().nth(from);
                let mut i = from;
                while let Some(x) = c {
                    t.is(&x.clone().into(), nodes[i], "to_next_sibling");
                    c = x.to_next_sibling();
                    i += 1;
                }
                assert_eq!(i, nodes.len(), "to_next_sibling stops early");
            }
            t.is_full(&n.into(), id, "parent after consuming steps");
        }
        // a root has no next sibling
        let x = T { root: t.root.clone_subtree(), o: Ora { e: t.o.e.clone(), text: t.o.text.clone() }, g: t.g.clone() };
        assert!(x.root.clone_subtree().to_next_sibling().is_none());
        let y: SyntaxElement = x.root.clone_subtree().into();
        assert!(y.to_next_sibling_or_token().is_none());
    }
    include!("body.rs");
    include!("mutbody.rs");
}

pub mod typed {
    pub type SyntaxElement = rowan::SyntaxElement<crate::Lang>;
    pub type SyntaxNode = rowan::SyntaxNode<crate::Lang>;
    pub type SyntaxToken = rowan::SyntaxToken<crate::Lang>;
    use rowan::Language;
    pub fn rk(k: crate::K) -> u16 {
        crate::Lang::kind_to_raw(k).0
    }
    pub fn mk(k: u16) -> crate::K {
        crate::Lang::kind_from_raw(rowan::SyntaxKind(k))
    }
    fn tok_ancestors(t: &SyntaxToken) -> Vec<SyntaxNode> {
        #[allow(deprecated)]
        let v: Vec<SyntaxNode> = t.ancestors().collect();
        assert!(v == t.parent_ancestors().collect::<Vec<_>>());
        v
    }
    fn elem_by_kind(_: &T, _: &SyntaxElement, _: crate::K, _: Option<usize>) {}
    fn elem_tokens(_: &T, _: usize, _: &[usize]) {}
    include!("body.rs");
    include!("mutbody.rs");
}

pub fn quiet<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| LAST.with(|l| l.borrow().clone()))
}
thread_local! {
    static LAST: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub struct Case {
    pub fam: String,
    pub idx: u64,
    pub seed: u64,
}
impl Case {
    pub fn rng(&self) -> Rng {
        Rng::new(self.seed ^ self.idx.wrapping_mul(0x2545_F491_4F6C_DD1D) ^ (self.fam.len() as u64) << 40)
    }
    pub fn tree(&self, r: &mut Rng) -> M {
        match self.fam.as_str() {
            "small" => small_tree(self.idx),
            "special" => special_tree(self.idx % SPECIALS),
            "random" => {
                let max = *r.pick(&[6, 12, 30, 60]);
                random_tree(r, max)
            }
            "big" => random_tree(r, 400),
            f => panic!("unknown family {f}"),
        }
    }
}

macro_rules! both {
    ($c:expr, $m:expr, $r:expr, |$t:ident, $rr:ident, $api:ident| $body:block) => {{
        let green = build(&$m, $r);
        for mutable in [false, true] {
            let heavy = $m.count() > 20_000;
            if heavy && mutable {
                continue;
            }
            {
                use raw as $api;
                let $t = $api::T::new(&$m, &green, mutable);
                let $rr = &mut *$r;
                $body
            }
            if !heavy {
                use typed as $api;
                let $t = $api::T::new(&$m, &green, mutable);
                let $rr = &mut *$r;
                $body
            }
        }
    }};
}

/// Runs one case; returns a description of it (for samples).
pub fn run_case(p: &str, c: &Case, thorough: bool) -> String {
    let _ = thorough;
    let r = &mut c.rng();
    match p {
        "P01" => {
            let m = if c.fam == "random" || c.fam == "big" { None } else { Some(c.tree(r)) };
            green::p01(r, m.as_ref())
        }
        "P04" => {
            green::p04(r, c.fam == "big");
            format!("{} cache history #{}", c.fam, c.idx)
        }
        "P18" => {
            green::p18(r);
            format!("values #{}", c.idx)
        }
        "P05" | "P11" | "P12" | "P13" | "P16" | "P19" if c.fam.starts_with("hist") => {
            let steps = *r.pick(&[4, 8, 16, 40]);
            let cfg = raw::HistCfg {
                steps,
                content: p == "P11" || p == "P05",
                handles: p == "P12" || p == "P05",
                keys: p == "P19",
                snaps: p == "P13",
                max_handles: *r.pick(&[2, 6, 14]),
                tree: *r.pick(&[4, 8, 16]),
                misuse: p == "P16",
            };
            if c.fam == "hist" {
                let mut h = raw::Hist::new();
                h.go(r, &cfg);
                h.drop_all(r);
                drop(h);
                take_log()
            } else {
                let cfg = typed::HistCfg { steps: cfg.steps, content: cfg.content, handles: cfg.handles, keys: cfg.keys, snaps: cfg.snaps, max_handles: cfg.max_handles, tree: cfg.tree, misuse: cfg.misuse };
                let mut h = typed::Hist::new();
                h.go(r, &cfg);
                h.drop_all(r);
                drop(h);
                take_log()
            }
        }
        "P16" => mem::p16(c, r),
        "P17" if c.fam == "contend" => threads::contend(r.next(), 2 + r.below(3) as u64, 20_000),
        "P17" => threads::case(r.next(), 2 + r.below(4) as u64, [20, 60, 200][r.below(3)]),
        _ => {
            let m = c.tree(r);
            match p {
                "P02" => green::p02(&m, r),
                "P03" => green::p03(&m, r),
                "P05" => both!(c, m, r, |t, r, api| { api::p05(&t, r) }),
                "P06" => {
                    both!(c, m, r, |t, r, api| { api::p06(&t, r) });
                    let g = build(&m, r);
                    raw::p06_consuming(&raw::T::new(&m, &g, false), r);
                    raw::p06_consuming(&raw::T::new(&m, &g, true), r);
                }
                "P07" => both!(c, m, r, |t, r, api| { api::p07(&t, r) }),
                "P08" => both!(c, m, r, |t, r, api| { api::p08(&t, r) }),
                "P09" => both!(c, m, r, |t, r, api| { api::p09(&t, r) }),
                "P10" => {
                    let m2 = if r.chance(1, 2) { recut(&m, r) } else { green::mutate_model(&m, r) };
                    let g2 = build(&m2, r);
                    both!(c, m, r, |t, r, api| {
                        let o = api::T::new(&m2, &g2, false);
                        api::p10(&t, &o, r)
                    })
                }
                "P13" => {
                    let s = small_tree(r.next() % small_count(3));
                    let s = green::make(&s).into_node().unwrap();
                    both!(c, m, r, |t, r, api| { api::p13_static(&t, r, &s) })
                }
                "P14" => ast_props::p14(&m, r),
                "P15" => ast_props::p15(&m, r),
                "P19" => {
                    let m2 = match r.below(3) {
                        0 => m.clone(),
                        1 => green::mutate_model(&m, r),
                        _ => random_tree(r, 10),
                    };
                    green::p19_green(&m, &m2, r);
                    ast_props::p19_red(&m, r);
                }
                "P20" => green::p20(&m, r),
                "P21" => ast_props::p21(&m, r),
                "P22" => ast_props::p22(&m, r),
                "P23" => ast_props::p23(&m, r),
                _ => panic!("unknown property {p}"),
            }
            show(&m)
        }
    }
}
thread_local! {
    static LOG: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}
pub fn hash_of<T: std::hash::Hash>(x: &T) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
pub fn log(s: String) {
    LOG.with(|l| {
        let mut l = l.borrow_mut();
        l.push_str(&s);
        l.push_str("; ");
    })
}
fn take_log() -> String {
    LOG.with(|l| std::mem::take(&mut *l.borrow_mut()))
}

/// same text, cut differently
fn recut(m: &M, r: &mut Rng) -> M {
    let text = m.text();
    let mut c = vec![];
    let mut cur = String::new();
    for ch in text.chars() {
        cur.push(ch);
        if r.chance(1, 3) {
            c.push(M::T(1, std::mem::take(&mut cur)));
        }
        if r.chance(1, 8) {
            c.push(M::N(2, vec![M::T(1, String::new())]));
        }
    }
    c.push(M::T(1, cur));
    M::N(5, c)
}

fn families(p: &str, thorough: bool) -> Vec<(&'static str, u64)> {
    let t = if thorough { 250 } else { 10 };
    let small = if thorough { small_count(5) } else { small_count(4) };
    match p {
        "P01" => vec![("special", SPECIALS), ("small", small), ("random", 6000 * t)],
        "P02" | "P03" | "P20" => vec![("special", SPECIALS), ("small", small), ("random", 3000 * t), ("big", 40 * t)],
        "P04" => vec![("random", 1500 * t), ("big", 8 * t)],
        "P17" => vec![("contend", 80 * t), ("programs", 4000 * t)],
        "P18" => vec![("random", 500 * t)],
        "P11" | "P12" => vec![("hist", 30_000 * t), ("hist_typed", 8_000 * t)],
        "P13" => vec![("special", SPECIALS), ("small", small_count(if thorough { 4 } else { 3 })), ("random", 600 * t), ("hist", 8000 * t), ("hist_typed", 2000 * t)],
        "P16" => vec![("special", SPECIALS), ("small", small_count(if thorough { 4 } else { 3 })), ("random", 1500 * t), ("hist", 12_000 * t), ("hist_typed", 3000 * t)],
        "P10" => vec![("special", SPECIALS), ("small", small_count(if thorough { 4 } else { 3 })), ("random", 500 * t)],
        "P05" | "P19" => vec![("special", SPECIALS), ("small", small), ("random", 600 * t), ("big", 10 * t), ("hist", 3000 * t), ("hist_typed", 600 * t)],
        _ => vec![("special", SPECIALS), ("small", small), ("random", 1000 * t), ("big", 16 * t)],
    }
}

fn exec(p: &str, c: &Case, thorough: bool) -> Result<String, String> {
    take_log();
    LAST.with(|l| *l.borrow_mut() = String::new());
    let leak = p == "P16";
    let base = alloc::live();
    let base_all = alloc::live_all();
    let res = quiet(|| {
        let d = run_case(p, c, thorough);
        d
    });
    if let Some(b) = alloc::take_bad() {
        return Err(format!("memory: {b}"));
    }
    match res {
        Ok(d) => {
            if p == "P17" {
                if alloc::any_bad() {
                    return Err("memory: a block was freed twice, or written to after it was freed, in some thread".into());
                }
                let n = d.clone();
                drop(d);
                LAST.with(|l| *l.borrow_mut() = String::new());
                let extra = alloc::live_all() - n.capacity() as i64 - base_all;
                if extra != 0 {
                    return Err(format!("memory: {extra} bytes still allocated after all threads dropped everything"));
                }
                return Ok(n);
            }
            if leak {
                let n = d.clone();
                drop(d);
                LAST.with(|l| *l.borrow_mut() = String::new());
                let now = alloc::live();
                let extra = n.capacity() as i64;
                if now.0 - extra != base.0 {
                    return Err(format!("memory: {} bytes in {} blocks still allocated after everything was dropped", now.0 - extra - base.0, now.1 - base.1 - (extra > 0) as i64));
                }
                return Ok(n);
            }
            Ok(d)
        }
        Err(e) => Err(e),
    }
}

fn arg(name: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == name).and_then(|i| a.get(i + 1).cloned())
}

fn main() {
    // deep trees are dropped recursively
    std::thread::Builder::new().stack_size(256 << 20).spawn(real_main).unwrap().join().unwrap();
}

fn real_main() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| info.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST.with(|l| {
            if let Ok(mut l) = l.try_borrow_mut() {
                *l = format!("{msg} [{loc}]")
            }
        });
    }));
    alloc::enable();
    let p = arg("--property").expect("--property");
    let seed: u64 = arg("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = arg("--tier").as_deref() == Some("thorough");
    if let Some(cs) = arg("--case") {
        // fam:idx:seed
        let v: Vec<&str> = cs.split(':').collect();
        let c = Case { fam: v[0].into(), idx: v[1].parse().unwrap(), seed: v[2].parse().unwrap() };
        let _ = exec(&p, &Case { fam: c.fam.clone(), idx: c.idx, seed: c.seed }, thorough);
        alloc::flush();
        match exec(&p, &c, thorough).and_then(|d| {
            alloc::flush();
            alloc::take_bad().map_or(Ok(d), |b| Err(format!("memory: {b}")))
        }) {
            Ok(_) => println!("HELD"),
            Err(e) => {
                println!("STEPS {}", take_log());
                println!("FAILED {e}");
                std::process::exit(1);
            }
        }
        return;
    }
    let shard: u64 = arg("--shard").and_then(|s| s.parse().ok()).unwrap_or(0);
    let shards: u64 = arg("--shards").and_then(|s| s.parse().ok()).unwrap_or(1);
    let budget: f64 = arg("--budget").and_then(|s| s.parse().ok()).unwrap_or(20.0);
    let mut journal = arg("--journal").map(|j| std::fs::File::create(j).unwrap());
    let t0 = std::time::Instant::now();
    let mut n = 0u64;
    let mut distinct = std::collections::HashSet::new();
    let mut nontrivial = 0u64;
    let mut samples: Vec<String> = vec![];
    let mut per_fam = vec![];
    let fams = families(&p, thorough);
    let mut weight: Vec<f64> = fams.iter().map(|_| 1.0).collect();
    let tot: f64 = weight.iter().sum();
    weight.iter_mut().for_each(|w| *w /= tot);
    let mut spent_by_now = 0.0;
    for (fi, (fam, count)) in fams.iter().enumerate() {
        let mut i = shard;
        let mut done = 0u64;
        // every family gets its share; what one leaves unused goes to the next
        spent_by_now += weight[fi] * budget;
        let mut complete = true;
        while i < *count {
            if t0.elapsed().as_secs_f64() > spent_by_now {
                complete = false;
                break;
            }
            let c = Case { fam: fam.to_string(), idx: i, seed };
            if let Some(j) = &mut journal {
                use std::os::unix::fs::FileExt;
                let line = format!("{:<60}", format!("{}:{}:{}", c.fam, c.idx, c.seed));
                let _ = j.write_at(line.as_bytes(), 0);
            }
            match exec(&p, &c, thorough) {
                Ok(d) => {
                    n += 1;
                    done += 1;
                    use std::hash::{Hash, Hasher};
                    let mut h = std::collections::hash_map::DefaultHasher::new();
                    d.hash(&mut h);
                    let trivial = d.len() < 8;
                    if distinct.insert(h.finish()) && !trivial {
                        nontrivial += 1;
                    }
                    if samples.len() < 3 && done % 7 == 3 {
                        samples.push(format!("{}:{}:{} {}", c.fam, c.idx, c.seed, d.chars().take(300).collect::<String>()));
                    }
                }
                Err(_) => {
                    // run it again: a leak may be a first-use effect of the runtime
                    alloc::flush();
                    alloc::take_bad();
                    if let Err(e) = exec(&p, &c, thorough) {
                        let trace = take_log();
                        println!("{}", serde_json::json!({"failed": format!("{}:{}:{}", c.fam, c.idx, c.seed), "msg": e, "trace": trace}));
                        std::process::exit(1);
                    }
                }
            }
            i += shards;
        }
        per_fam.push(serde_json::json!({"family": fam, "cases": done, "complete": complete}));
    }
    alloc::flush();
    if let Some(b) = alloc::take_bad() {
        println!("{}", serde_json::json!({"failed": "quarantine", "msg": format!("memory: {b}")}));
        std::process::exit(1);
    }
    println!("{}", serde_json::json!({"cases": n, "distinct": distinct.len(), "nontrivial": nontrivial, "samples": samples, "families": per_fam, "secs": t0.elapsed().as_secs_f64()}));
    let _ = std::io::stdout().flush();
}
