"""P01/P04: the builder and the node cache (src/green/builder.rs, src/green/node_cache.rs).

The builder's vectors are sequences: children k -> (hash, element), parents k -> (kind, first child).
A hash map of the cache is the set of its keys; nh(e) is the hash a key is stored under.
Invariant of the cache: keys are of the right sort, no two keys have equal kind and content
(nodes: the same child objects), nodes in it have at most three children, all cached.
Invariant of a builder's children: hash 0, or the element is in the cache and hash = nh(element).
Invariant of the parents: first-child positions are in order and within the children."""
from core import *
from core import lemma
from exec import *
from exec import I, B, And, Or, Implies, Not
import exec as X
import world as W
import models
from models import It
from world import ch, isnode, kind, glen, gn, gtext, gfacts, cfacts
from spec_iter import reg
from spec_green import Seq, element, owned_id, as_seq, NewNode
from spec_eq import hop, sort_id, green_id
from spec_pos import *            # noqa (shared vocabulary)

Int, Bool = z3.IntSort(), z3.BoolSort()
Arr = z3.ArraySort
X.ENUMS.setdefault('RawEntryMut', [('Occupied', 0), ('Vacant', 1)])

nh = z3.Function('cache_hash', Int, Int)                 # hash of a green element, as node_hash / token_hash
nhf = z3.Function('cache_hash_state', Int, Int, Int)     # hasher state after the kind and the first i children
fin = z3.Function('hash_finish', Int, Int)
U16, U64, STR = 'u16', 'u64', 'T'


def nh_def(e, i=None):
    c = [fin(z3.If(isnode(e), nhf(e, gn(e)), hop(hop(I(0), sort_id(U16), kind(e)), sort_id(STR), gtext(e)))) == nh(e),
         nhf(e, 0) == hop(I(0), sort_id(U16), kind(e)), nh(e) >= 0, nh(e) < 2 ** 64]
    for j in ([] if i is None else i):
        c.append(Implies(And(j >= 0, j < gn(e)), nhf(e, j + 1) == hop(nhf(e, j), sort_id(U64), nh(ch(e, j)))))
    return And(*c)


class TSeq(Seq):
    """a sequence of tuples held in arrays"""

    def __init__(self, n, arrs, mk, un):
        self.arrs, self.mk, self.un = list(arrs), mk, un
        super().__init__(n, lambda st, k: mk(st, *[z3.Select(a, k) for a in self.arrs]))

    def with_(self, n, arrs):
        return TSeq(n, arrs, self.mk, self.un)

    def push(self, v):
        return self.with_(self.n + 1, [z3.Store(a, self.n, x) for a, x in zip(self.arrs, self.un(v))])


def mk_child(st, h, e):
    return Agg('()', [h, element(st, e)])


def mk_parent(st, k, f):
    return Agg('()', [Agg('SyntaxKind', [k], ['0']), f])


def child_vec(ex, st, base):
    n = ex.sym(base + '.n')
    st.add(n >= 0, n <= 2 ** 60)
    return Agg('Vec', [TSeq(n, [z3.Array('%s.h!%d' % (base, ex.ctr), Int, Int), z3.Array('%s.e!%d' % (base, ex.ctr), Int, Int)], mk_child,
                            lambda v: (v.f[0], owned_id(v.f[1])))])


def parent_vec(ex, st, base):
    n = ex.sym(base + '.m')
    st.add(n >= 0, n <= 2 ** 60)
    return Agg('Vec', [TSeq(n, [z3.Array('%s.k!%d' % (base, ex.ctr), Int, Int), z3.Array('%s.f!%d' % (base, ex.ctr), Int, Int)], mk_parent,
                            lambda v: (v.f[0].f[0], v.f[1]))])


def fresh_cache(ex, st, base):
    _, names, tys = ex.D.structs['NodeCache']
    which = ['nodes' if 'GreenNode>' in t else 'tokens' if 'GreenToken>' in t else None for t in tys]
    if sorted(which, key=str) != ['nodes', 'tokens']:
        raise Unsupported('fields of NodeCache')
    return Agg('NodeCache', [Agg('Map*', [z3.Array('%s.%s!%d' % (base, w, ex.ctr), Int, Bool), w]) for w in which], list(names))


def fresher(ex, t, st, base, guard):
    if t.kind != 'adt':
        return None
    if t.name == 'green::node_cache::NodeCache':
        return fresh_cache(ex, st, base)
    if t.name == 'std::vec::Vec' and 'NodeOrToken<green::node::GreenNode' in t.s and '(u64' in t.s:
        return child_vec(ex, st, base)
    if t.name == 'green::builder::Checkpoint':
        x = ex.sym(base)
        st.add(x >= 1, x < 2 ** 64)
        return Agg('Checkpoint', [x], ['0'])
    if t.name == 'green::builder::GreenNodeBuilder':
        d = ex.sym(base + '.cow')
        st.add(d >= 0, d <= 1)
        cow = SEnum('CowMut', d, {0: (fresh_cache(ex, st, base + '.o'),), 1: (ex.alloc(st, fresh_cache(ex, st, base + '.b')),)})
        return Agg('GreenNodeBuilder', [cow, parent_vec(ex, st, base), child_vec(ex, st, base)], ['cache', 'parents', 'children'])
    return None


# ---------------------------------------------------------------- invariants
_n = [0]


def bv(p='b'):
    _n[0] += 1
    return z3.Int('%s!b%d' % (p, _n[0]))


def sets(c):
    d = {m.f[1]: m.f[0] for m in c.f}
    return d['nodes'], d['tokens']


def cache_inv(c, goal=None):
    """goal: the call context when the invariant is to be proved; then the keys are fresh constants,
    about which the failed lookups are instantiated"""
    Sn, St = sets(c)
    a, b, j = bv(), bv(), bv()
    if goal is not None:
        vacant_at(goal, [a, b], [j])
        FA = lambda vs, f, patterns=None: f
    else:
        FA = z3.ForAll
    inS = lambda e: Or(z3.Select(Sn, e), z3.Select(St, e))
    same = lambda x, y: And(kind(x) == kind(y), gn(x) == gn(y), *[Implies(gn(x) > i, ch(x, i) == ch(y, i)) for i in range(3)])
    return [('keys of the token map are tokens', FA([a], Implies(z3.Select(St, a), And(gfacts(a), Not(isnode(a)))), patterns=[z3.Select(St, a)])),
            ('no two tokens in the cache have equal kind and text',
             FA([a, b], Implies(And(z3.Select(St, a), z3.Select(St, b), kind(a) == kind(b), gtext(a) == gtext(b)), a == b),
                       patterns=[z3.MultiPattern(z3.Select(St, a), z3.Select(St, b))])),
            ('keys of the node map are nodes with at most three children',
             FA([a], Implies(z3.Select(Sn, a), And(gfacts(a), isnode(a), gn(a) <= 3)), patterns=[z3.Select(Sn, a)])),
            ('the children of a node in the cache are in the cache',
             FA([a, j], Implies(And(z3.Select(Sn, a), j >= 0, j < gn(a)), inS(ch(a, j))), patterns=[z3.MultiPattern(z3.Select(Sn, a), ch(a, j))])),
            ('no two nodes in the cache have equal kind and the same children',
             FA([a, b], Implies(And(z3.Select(Sn, a), z3.Select(Sn, b), same(a, b)), a == b),
                       patterns=[z3.MultiPattern(z3.Select(Sn, a), z3.Select(Sn, b))]))]


def grows(old, new):
    a = bv()
    (n0, t0), (n1, t1) = sets(old), sets(new)
    return [('the cache loses nothing', And(z3.ForAll([a], Implies(z3.Select(n0, a), z3.Select(n1, a)), patterns=[z3.Select(n0, a)]),
                                            z3.ForAll([a], Implies(z3.Select(t0, a), z3.Select(t1, a)), patterns=[z3.Select(t0, a)])))]


def child_ok(c, h, e):
    Sn, St = sets(c)
    return Or(h == 0, And(h == nh(e), Or(z3.Select(Sn, e), z3.Select(St, e))))


def vec_inv(v, c, upto=None):
    s = v.f[0]
    k = bv()
    h, e = z3.Select(s.arrs[0], k), z3.Select(s.arrs[1], k)
    return [('children are green elements; those with a hash are in the cache, under that hash',
             z3.ForAll([k], Implies(And(k >= 0, k < s.n), And(gfacts(e), child_ok(c, h, e))), patterns=[z3.Select(s.arrs[1], k)]))]


def par_inv(p, v):
    s, n = p.f[0], v.f[0].n
    k, j = bv(), bv()
    f = lambda i: z3.Select(s.arrs[1], i)
    return [('open nodes start in order and within the children',
             And(z3.ForAll([k], Implies(And(k >= 0, k < s.n), And(f(k) >= 0, f(k) <= n)), patterns=[f(k)]),
                 z3.ForAll([j, k], Implies(And(j >= 0, j <= k, k < s.n), f(j) <= f(k)), patterns=[z3.MultiPattern(f(j), f(k))]))),
            ('the kinds are kinds', z3.ForAll([k], Implies(And(k >= 0, k < s.n), And(z3.Select(s.arrs[0], k) >= 0, z3.Select(s.arrs[0], k) <= 65535)),
                                              patterns=[z3.Select(s.arrs[0], k)]))]


def same_seq(a, b, n):
    """equal on the first n items"""
    k = bv()
    return And(*[z3.ForAll([k], Implies(And(k >= 0, k < n), z3.Select(x, k) == z3.Select(y, k)), patterns=[z3.Select(y, k)]) for x, y in zip(a.arrs, b.arrs)])


def ld(cx, st, v):
    while isinstance(v, Ptr) and isinstance(v.base, int):
        v = cx.ex.load(st, v)
    return v


# ---------------------------------------------------------------- cache
class HashOf(Contract):
    """token_hash / node_hash: the hash a key is stored under"""

    def post(self, cx):
        g = cx.a[0].base[1]
        if not cx.calling:
            cx.st.add(nh_def(g))
        return [('the hash of kind and content (nodes: of the hashes of the children)', cx.ret == nh(g))]


class NodeHashInv:
    def inv(self, c):
        g = c.ex.top_args[0].base[1]
        it = models.as_it(c.ex, c.get('iter'))
        c.st.add(nh_def(g, [it.lo]), cfacts(g, it.lo), gfacts(g))
        return [('the hasher has taken the kind and the children passed', And(it.src[1] == g, it.hi == gn(g), it.lo >= 0, it.lo <= gn(g),
                                                                              c.get('h').t == nhf(g, it.lo)))]

    def havoc(self, c):
        e = c.at_entry('iter')
        it = models.as_it(c.ex, e)
        n = it.with_(lo=c.ex.sym('lo'))
        c.set('iter', e.with_(0, n) if isinstance(e, Agg) else n)
        c.set('h', Opq(c.at_entry('h').ty, c.ex.sym('hs')))


reg('green::node_cache::token_hash', HashOf(), 'P04')
reg('green::node_cache::node_hash', HashOf(), 'P04')


class ElementId(Contract):
    inline = True

    def post(self, cx):
        v = cx.a[0]
        return [('the address of the element', cx.ret.base[1] == green_id(v))]


reg('green::node_cache::element_id', ElementId(), 'P04')


class TokenC(Contract):
    modifies = (0,)
    balance = False

    def pre(self, cx):
        return cache_inv(ld(cx, cx.st, cx.a[0]))

    def panics(self, cx, msg):
        return z3.BoolVal('overflow' in msg)

    def post(self, cx):
        old, new = ld(cx, cx.st0, cx.a[0]), ld(cx, cx.st, cx.a[0])
        k, t = cx.a[1].f[0], cx.a[2].t
        h, tok = cx.ret.f
        e = owned_id(tok)
        cx.st.add(nh_def(e))
        return [('the token has the requested kind', kind(e) == k), ('the token has the requested text', gtext(e) == t),
                ('it is a token', And(gfacts(e), Not(isnode(e)))),
                ('it is in the cache afterwards: any later request gives the same object', z3.Select(sets(new)[1], e)),
                ('the hash is that of the token', h == nh(e)),
                ('the nodes in the cache are unchanged', sets(new)[0] == sets(old)[0])] + \
            grows(old, new) + cache_inv(new, None if cx.calling else cx)


class NodeC(Contract):
    modifies = (0, 2)
    balance = False

    def parts(self, cx, st=None):
        st = st or cx.st0
        return ld(cx, st, cx.a[0]), ld(cx, st, cx.a[2]).f[0]

    def pre(self, cx):
        c, s = ld(cx, cx.st, cx.a[0]), ld(cx, cx.st, cx.a[2])
        return cache_inv(c) + vec_inv(s, c) + [('the first child is within the vector', And(cx.a[3] >= 0, cx.a[3] <= s.f[0].n))]

    def panics(self, cx, msg):
        return z3.BoolVal('overflow' in msg)

    def post(self, cx):
        old, v0 = self.parts(cx)
        new, v1 = self.parts(cx, cx.st)
        first = cx.a[3]
        n = v0.n - first
        h, node = cx.ret.f
        e = owned_id(node)
        if not cx.calling:
            cx.st.add(nh_def(e, [I(0), I(1), I(2)]))
            for i in range(3):
                c, w = z3.Select(v0.arrs[1], first + i), z3.Select(v0.arrs[0], first + i)
                cx.st.add(Implies(n > i, And(gfacts(c), child_ok(old, w, c))))      # instances of the precondition
        j = bv()
        E = lambda i: z3.Select(v0.arrs[1], first + i)
        H = lambda i: z3.Select(v0.arrs[0], first + i)
        allh = And(*[Implies(n > i, H(i) != 0) for i in range(3)])
        return [('it is a node of the requested kind', And(gfacts(e), isnode(e), kind(e) == cx.a[1].f[0])),
                ('it has as many children as were open', gn(e) == n),
                ('its children are the open ones, in order', z3.ForAll([j], Implies(And(j >= 0, j < n), ch(e, j) == E(j)), patterns=[ch(e, j)])),
                ('exactly the open children are taken off', And(v1.n == first, same_seq(v0, v1, first))),
                ('the hash is 0 or that of the node, which is then in the cache', Or(h == 0, And(h == nh(e), z3.Select(sets(new)[0], e)))),
                ('a node of at most three cached children is in the cache afterwards: any later request gives the same object',
                 Implies(And(n <= 3, allh), And(z3.Select(sets(new)[0], e), h == nh(e)))),
                ('the tokens in the cache are unchanged', sets(new)[1] == sets(old)[1])] + \
            grows(old, new) + cache_inv(new, None if cx.calling else cx) + vec_inv(Agg('Vec', [v1]), new)


class NodeInv:
    """while hashing: no child passed is uncached; the hasher has taken the kind and the hashes of the children passed"""

    def parts(self, c):
        a = c.ex.top_args
        v0 = c.ex.load(c.ex.entry_state, a[2]).f[0]
        return a[1].f[0], v0, a[3], c.get('iter')

    def inv(self, c):
        k, v0, first, it = self.parts(c)
        vf = z3.Function('vec_hash!%s' % c.ex.cur, Int, Int)
        H = lambda i: z3.Select(v0.arrs[0], first + i)
        c.st.add(vf(0) == hop(I(0), sort_id(U16), k))
        for i in [it.lo] + [I(x) for x in range(3)]:
            c.st.add(vf(i + 1) == hop(vf(i), sort_id(U64), H(i)))
        j = bv()
        return [('the children passed are cached, and hashed in order',
                 And(it.lo >= 0, it.lo <= it.hi, it.hi == v0.n - first, it.hi <= 3, *[Implies(it.lo > i, H(i) != 0) for i in range(3)],
                     c.get('h').t == vf(it.lo)))]

    def havoc(self, c):
        it = c.at_entry('iter')
        c.set('iter', it.with_(lo=c.ex.sym('lo')))
        c.set('h', Opq(c.at_entry('h').ty, c.ex.sym('hs')))


reg('NodeCache::token', TokenC(), 'P04 P01')
reg('NodeCache::node', NodeC(), 'P04 P01')


# ---------------------------------------------------------------- builder
def bld(cx, st, v=None):
    """(cache, parents, children) of the builder"""
    b = ld(cx, st, cx.a[0] if v is None else v)
    cow, p, c = b.f
    return cow, p.f[0], c.f[0]


def caches(cx, st, cow):
    """[(condition, the cache)] owned or borrowed"""
    return [(cow.is_(i), ld(cx, st, fs[0])) for i, fs in cow.vs.items()]


def builder_inv(cx, st, b, goal=None):
    cow, p, c = b
    out = []
    for g, ca in caches(cx, st, cow):
        out += [(n, Implies(g, f)) for n, f in cache_inv(ca, goal) + vec_inv(Agg('Vec', [c]), ca)]
    return out + par_inv(Agg('Vec', [p]), Agg('Vec', [c]))


class BuildC(Contract):
    """each call changes the stack of open nodes and the list of finished children exactly as the event says"""
    modifies = (0,)
    balance = False

    def pre(self, cx):
        return builder_inv(cx, cx.st, bld(cx, cx.st))

    def panics(self, cx, msg):
        return z3.BoolVal('overflow' in msg)

    def change(self, cx, p0, c0, p1, c1):
        raise NotImplementedError

    def post(self, cx):
        b0, b1 = bld(cx, cx.st0), bld(cx, cx.st)
        return self.change(cx, b0[1], b0[2], b1[1], b1[2]) + builder_inv(cx, cx.st, b1, cx)


def same(a, b):
    return And(a.n == b.n, same_seq(a, b, b.n))


class BToken(BuildC):
    def change(self, cx, p0, c0, p1, c1):
        e = z3.Select(c1.arrs[1], c0.n)
        return [('one element is added at the end: a token of that kind and text', And(c1.n == c0.n + 1, Not(isnode(e)), kind(e) == cx.a[1].f[0], gtext(e) == cx.a[2].t)),
                ('the children before it and the open nodes are unchanged', And(same_seq(c0, c1, c0.n), same(p0, p1)))]


class BStart(BuildC):
    def change(self, cx, p0, c0, p1, c1):
        return [('a node of that kind is opened after the last child', And(p1.n == p0.n + 1, z3.Select(p1.arrs[0], p0.n) == cx.a[1].f[0], z3.Select(p1.arrs[1], p0.n) == c0.n)),
                ('the open nodes and children before it are unchanged', And(same_seq(p0, p1, p0.n), same(c0, c1)))]


class BFinish(BuildC):
    def panics(self, cx, msg):
        if 'overflow' in msg:
            return z3.BoolVal(True)
        return bld(cx, cx.st0)[1].n == 0

    def change(self, cx, p0, c0, p1, c1):
        k, f = [z3.Select(a, p0.n - 1) for a in p0.arrs]
        e = z3.Select(c1.arrs[1], f)
        j = bv()
        return [('panics when no node is open', p0.n > 0),
                ('the innermost open node is closed', And(p1.n == p0.n - 1, same_seq(p0, p1, p0.n - 1))),
                ('a node of its kind replaces exactly the children since it was opened', And(c1.n == f + 1, isnode(e), kind(e) == k, gn(e) == c0.n - f, same_seq(c0, c1, f))),
                ('which are its children, in order', z3.ForAll([j], Implies(And(j >= 0, j < c0.n - f), ch(e, j) == z3.Select(c0.arrs[1], f + j)), patterns=[ch(e, j)]))]


class BCheckpoint(BuildC):
    modifies = ()

    def change(self, cx, p0, c0, p1, c1):
        return [('the position after the last child', cx.ret.f[0] == c0.n + 1)]


class BStartAt(BuildC):
    def at(self, cx):
        return cx.a[1].f[0] - 1

    def bad(self, cx):
        _, p, c = bld(cx, cx.st0)
        return Or(self.at(cx) > c.n, And(p.n > 0, self.at(cx) < z3.Select(p.arrs[1], p.n - 1)))

    def panics(self, cx, msg):
        return self.bad(cx)

    def change(self, cx, p0, c0, p1, c1):
        return [('panics when the checkpoint is beyond the content or before the start of the innermost open node', Not(self.bad(cx))),
                ('a node of that kind is opened at the checkpoint', And(p1.n == p0.n + 1, z3.Select(p1.arrs[0], p0.n) == cx.a[2].f[0], z3.Select(p1.arrs[1], p0.n) == self.at(cx))),
                ('the open nodes before it and the children are unchanged', And(same_seq(p0, p1, p0.n), same(c0, c1)))]


class BEnd(BuildC):
    modifies = ()

    def bad(self, cx):
        _, p, c = bld(cx, cx.st0)
        return Or(c.n != 1, Not(isnode(z3.Select(c.arrs[1], 0))))

    def panics(self, cx, msg):
        return self.bad(cx)

    def post(self, cx):
        _, p, c = bld(cx, cx.st0)
        return [('panics unless there is exactly one finished element, a node', Not(self.bad(cx))),
                ('returns that node', owned_id(cx.ret) == z3.Select(c.arrs[1], 0))]


class BNew(Contract):
    balance = False

    def pre(self, cx):
        return cache_inv(ld(cx, cx.st, cx.a[0])) if cx.a else []

    def post(self, cx):
        cow, p, c = bld(cx, cx.st, cx.ret)
        out = [('nothing is open and there are no children', And(p.n == 0, c.n == 0))]
        if cx.a:
            out.append(('the cache is the one given', And(B(cow.conc() and cow.d == 1), B(cow.vs[1][0] == cx.a[0]))))
        return out + ([] if cx.calling else builder_inv(cx, cx.st, (cow, p, c), cx))


class CNew(Contract):
    balance = False
    inline = True

    def post(self, cx):
        a = bv()
        return [('an empty cache', And(*[z3.ForAll([a], Not(z3.Select(s, a))) for s in sets(cx.ret)]))] + cache_inv(cx.ret, cx)


default_T = z3.Int('default_T')


class CowNew(Contract):
    inline = True

    def post(self, cx):
        r = cx.ret
        return [('owns a default value', B(r.conc() and ex_owned(cx, r) and isinstance(r.vs[r.d][0], Opq) and r.vs[r.d][0].t.eq(default_T)))]


def ex_owned(cx, r):
    return X.ENUMS['CowMut'][r.d][0] == 'Owned'


reg('<CowMut as Default>::default', CowNew(), 'P01')
_b = 'GreenNodeBuilder::'
reg(_b + 'token', BToken(), 'P01')
reg(_b + 'start_node', BStart(), 'P01')
reg(_b + 'finish_node', BFinish(), 'P01 P22')
reg(_b + 'checkpoint', BCheckpoint(), 'P01')
reg(_b + 'start_node_at', BStartAt(), 'P01 P22')
reg(_b + 'finish', BEnd(), 'P01 P22')
reg(_b + 'new', BNew(), 'P01')
reg(_b + 'with_cache', BNew(), 'P01 P04')
reg('<GreenNodeBuilder as Default>::default', BNew(), 'P01', inline=True)
reg('<NodeCache as Default>::default', CNew(), 'P01 P04')


# ---------------------------------------------------------------- the builder against nested frames, over the contracts above
# Frame i of m open nodes holds the children [f(i), f(i+1)) (the last one up to n); the frame below all of them,
# [0, f(0)), holds what is finished outside every open node. The lemmas below say that each contract does to the
# frames what its event says, and what it does to the text.
class FakeCx:
    def __init__(self, a):
        self.a = a
        self.calling = True


def two_states():
    def vec(tag, n, mk, un):
        return TSeq(z3.Int(tag + '.n'), [z3.Array('%s.%d' % (tag, i), Int, Int) for i in range(2)], mk, un)
    p0, p1 = [vec('L.p%d' % i, None, mk_parent, None) for i in range(2)]
    c0, c1 = [vec('L.c%d' % i, None, mk_child, None) for i in range(2)]
    return p0, c0, p1, c1


def frame(p, c, i):
    """bounds of frame i, -1 <= i < m"""
    f = lambda k: z3.Select(p.arrs[1], k)
    return z3.If(i < 0, I(0), f(i)), z3.If(i + 1 < p.n, f(i + 1), c.n)


def frame_lemma(cls, a, goals):
    p0, c0, p1, c1 = two_states()
    cx = FakeCx(a)
    hyps = [f for _, f in par_inv(Agg('Vec', [p0]), Agg('Vec', [c0]))] + [c0.n >= 0, p0.n >= 0]
    if cls is BStartAt:
        at = a[1].f[0] - 1
        hyps += [at >= 0, at <= c0.n, Or(p0.n == 0, at >= z3.Select(p0.arrs[1], p0.n - 1))]
        o = BStartAt()
        o.bad = lambda cx: z3.BoolVal(False)
    else:
        o = cls()
    hyps += [f for _, f in o.change(cx, p0, c0, p1, c1)]
    i, k = z3.Int('L.i'), z3.Int('L.k')
    el = lambda c, j: z3.Select(c.arrs[1], j)
    kd = lambda p, j: z3.Select(p.arrs[0], j)
    l0, h0 = frame(p0, c0, i)
    l1, h1 = frame(p1, c1, i)
    E = dict(p0=p0, c0=c0, p1=p1, c1=c1, i=i, k=k, l0=l0, h0=h0, l1=l1, h1=h1, el=el, kd=kd, a=a,
             unch=And(l1 == l0, h1 == h0, Implies(i >= 0, kd(p1, i) == kd(p0, i)), Implies(And(k >= l1, k < h1), el(c1, k) == el(c0, k))))
    return [(n, hyps, g) for n, g in goals(E)]


def K_(s):
    return Agg('SyntaxKind', [z3.Int(s)], ['0'])


@lemma('builder events act on nested frames as they say', 'P01')
def frames_lemma():
    out = []
    t = Opq('T', z3.Int('L.text'))

    def tok(E):
        i, m = E['i'], E['p0'].n
        e = E['el'](E['c1'], E['h0'])
        return [('token: the same nodes are open', E['p1'].n == m),
                ('token: every outer frame is unchanged', Implies(And(i >= -1, i < m - 1), E['unch'])),
                ('token: the innermost frame gets that token at its end', Implies(i == m - 1, And(
                    E['l1'] == E['l0'], E['h1'] == E['h0'] + 1, Implies(And(E['k'] >= E['l0'], E['k'] < E['h0']), E['el'](E['c1'], E['k']) == E['el'](E['c0'], E['k'])),
                    Not(isnode(e)), kind(e) == z3.Int('L.kind'), gtext(e) == t.t, Implies(i >= 0, E['kd'](E['p1'], i) == E['kd'](E['p0'], i)))))]
    out += frame_lemma(BToken, [None, K_('L.kind'), t], tok)

    def start(E):
        i, m = E['i'], E['p0'].n
        return [('start_node: one more node is open', E['p1'].n == m + 1),
                ('start_node: every frame before is unchanged', Implies(And(i >= -1, i < m), E['unch'])),
                ('start_node: the new frame has the kind and is empty', Implies(i == m, And(E['kd'](E['p1'], i) == z3.Int('L.kind'), E['l1'] == E['h1'])))]
    out += frame_lemma(BStart, [None, K_('L.kind')], start)

    def fin_(E):
        i, m = E['i'], E['p0'].n
        lo, hi = frame(E['p0'], E['c0'], m - 1)
        e = E['el'](E['c1'], E['h0'])
        return [('finish_node: one node less is open', And(E['p1'].n == m - 1, m >= 1)),
                ('finish_node: every frame outside the enclosing one is unchanged', Implies(And(i >= -1, i < m - 2), E['unch'])),
                ('finish_node: the enclosing frame gets a node at its end: the kind and the children of the frame closed', Implies(i == m - 2, And(
                    E['l1'] == E['l0'], E['h1'] == E['h0'] + 1, Implies(And(E['k'] >= E['l0'], E['k'] < E['h0']), E['el'](E['c1'], E['k']) == E['el'](E['c0'], E['k'])),
                    isnode(e), kind(e) == E['kd'](E['p0'], m - 1), gn(e) == hi - lo,
                    Implies(And(E['k'] >= 0, E['k'] < hi - lo), ch(e, E['k']) == E['el'](E['c0'], lo + E['k'])),
                    Implies(i >= 0, E['kd'](E['p1'], i) == E['kd'](E['p0'], i)))))]
    out += frame_lemma(BFinish, [None], fin_)

    cp = Agg('Checkpoint', [z3.Int('L.cp')], ['0'])

    def at(E):
        i, m = E['i'], E['p0'].n
        lo, hi = frame(E['p0'], E['c0'], m - 1)
        w = z3.Int('L.cp') - 1
        same_el = lambda a, b: Implies(And(E['k'] >= a, E['k'] < b), E['el'](E['c1'], E['k']) == E['el'](E['c0'], E['k']))
        return [('start_node_at: one more node is open', E['p1'].n == m + 1),
                ('start_node_at: every outer frame is unchanged', Implies(And(i >= -1, i < m - 1), E['unch'])),
                ('start_node_at: the innermost frame keeps exactly what it had at the checkpoint', Implies(i == m - 1, And(E['l1'] == lo, E['h1'] == w, same_el(lo, w), Implies(i >= 0, E['kd'](E['p1'], i) == E['kd'](E['p0'], i))))),
                ('start_node_at: the new frame has the kind and holds exactly what was added since the checkpoint', Implies(i == m, And(
                    E['l1'] == w, E['h1'] == hi, E['kd'](E['p1'], i) == z3.Int('L.kind'), same_el(w, hi))))]
    out += frame_lemma(BStartAt, [None, cp, K_('L.kind')], at)
    return out


Str = z3.StringSort()
strof = z3.Function('string_of', Int, Str)
text = z3.Function('text_of', Int, Str)                 # text of a green element
ptext = z3.Function('text_of_children', Int, Int, Str)  # of its first j children


def text_def(e, js):
    return [text(e) == z3.If(isnode(e), ptext(e, gn(e)), strof(gtext(e))), ptext(e, 0) == z3.StringVal('')] + \
        [ptext(e, j + 1) == z3.Concat(ptext(e, j), text(ch(e, j))) for j in js]


@lemma('the text of the children is the concatenation of the texts of the tokens added', 'P01')
def text_lemma():
    """V0/V1(j): concatenated text of the first j children before/after; inductions are split into base and step"""
    p0, c0, p1, c1 = two_states()
    V0, V1 = [z3.Function('L.V%d' % i, Int, Str) for i in range(2)]
    el = lambda c, j: z3.Select(c.arrs[1], j)
    step = lambda V, c, j: V(j + 1) == z3.Concat(V(j), text(el(c, j)))
    base = [V0(0) == z3.StringVal(''), V1(0) == z3.StringVal('')]
    j = z3.Int('L.j')
    inv = [f for _, f in par_inv(Agg('Vec', [p0]), Agg('Vec', [c0]))] + [c0.n >= 0, p0.n >= 0]
    out = []
    pre = lambda hyps, upto: [('prefix, base', base, V1(0) == V0(0)),
                              ('prefix, step', hyps + [j >= 0, j < upto, V1(j) == V0(j), step(V0, c0, j), step(V1, c1, j)], V1(j + 1) == V0(j + 1))]
    t = Opq('T', z3.Int('L.text'))
    h = inv + [f for _, f in BToken().change(FakeCx([None, K_('L.kind'), t]), p0, c0, p1, c1)]
    e = el(c1, c0.n)
    out += [('token: ' + n, a, b) for n, a, b in pre(h, c0.n)]
    out.append(('token: the text grows by the text of the token', h + [V1(c0.n) == V0(c0.n), step(V1, c1, c0.n)] + text_def(e, []), V1(c1.n) == z3.Concat(V0(c0.n), strof(t.t))))
    for nm, cls, a in (('start_node', BStart, [None, K_('L.kind')]), ('start_node_at', BStartAt, [None, Agg('Checkpoint', [z3.Int('L.cp')], ['0']), K_('L.kind')])):
        o = cls()
        o.bad = lambda cx: z3.BoolVal(False)
        h = inv + [f for _, f in o.change(FakeCx(a), p0, c0, p1, c1)]
        out += [(nm + ': ' + n, x, y) for n, x, y in pre(h, c0.n)]
        out.append((nm + ': the text is unchanged', h + [V1(c0.n) == V0(c0.n)], V1(c1.n) == V0(c0.n)))
    h = inv + [f for _, f in BFinish().change(FakeCx([None]), p0, c0, p1, c1)]
    f = z3.Select(p0.arrs[1], p0.n - 1)
    e = el(c1, f)
    out += [('finish_node: ' + n, x, y) for n, x, y in pre(h, f)]
    out.append(('finish_node: the children closed, base', text_def(e, []), V0(f + 0) == z3.Concat(V0(f), ptext(e, 0))))
    out.append(('finish_node: the children closed, step', h + [j >= 0, j < c0.n - f, V0(f + j) == z3.Concat(V0(f), ptext(e, j)), step(V0, c0, f + j)] + text_def(e, [j]),
                V0(f + (j + 1)) == z3.Concat(V0(f), ptext(e, j + 1))))
    out.append(('finish_node: the text is unchanged', h + [V1(f) == V0(f), V0(f + gn(e)) == z3.Concat(V0(f), ptext(e, gn(e))), step(V1, c1, f)] + text_def(e, []), V1(c1.n) == V0(c0.n)))
    r = z3.Int('L.root')
    out.append(('finish: the text of the tree is the text of the children', [c0.n == 1, r == el(c0, 0), step(V0, c0, I(0))] + base, text(r) == V0(c0.n)))
    return out


# ---------------------------------------------------------------- models of hashbrown's raw entries
def key_ref(ex, st, which, e):
    return ex.alloc(st, Agg('NoHash', [Agg('GreenNode' if which == 'nodes' else 'GreenToken', [Ptr(('garc', e))], ['ptr'])], ['0']))


def truth(ex, st, outs):
    base = len(st.pc)
    r = z3.BoolVal(False)
    for s, b in outs:
        r = Or(r, And(And(True, *s.pc[base:]), b))
    return r


def matches(ex, st, f, which, e, positive):
    """the caller's predicate on key e (positive: known to hold; otherwise: known not to hold)"""
    ex.W.positive = positive
    s = st.fork()
    p = key_ref(ex, s, which, e)
    fp = ex.alloc(s, f)
    s2 = s.fork()
    return truth(ex, s, ex.call_value(s2, fp, [p]))


def vacant_at(cx, ks, js=()):
    """what failed lookups say about the keys ks"""
    ex, st = cx.ex, cx.st
    for k in ks:
        st.add(nh_def(k, [I(0), I(1), I(2)]), Implies(Not(isnode(k)), W.strlen(gtext(k)) == glen(k)))
        for (S, hash_, f, which, st0) in st.gh.get('vacant', ()):
            st.add(Implies(And(z3.Select(S, k), nh(k) == hash_), Not(matches(ex, st0, f, which, k, False))))


def hook(Wd, ex, st, c, tn, tr, m, full, A, fr):
    one = lambda v: [(st, v)]
    if m == 'default' and tn == 'FxHasher':
        return one(Opq('FxHasher', I(0)))
    if tr == 'Hasher' and m == 'finish' and tn == 'FxHasher':
        v = ex.load(st, A[0])
        x = fin(v.t)
        st.add(x >= 0, x < 2 ** 64)
        return one(x)
    if m == 'raw_entry_mut':
        return one(Agg('RawEntryBuilder*', [A[0], 'nodes' if 'GreenNode>' in c.raw else 'tokens']))
    if m == 'from_hash' and isinstance(A[0], Agg) and A[0].ty == 'RawEntryBuilder*':
        mp, which = A[0].f
        S_ = ex.load(st, mp).f[0]
        k = ex.sym('key')
        occ = st.fork()
        occ.add(z3.Select(S_, k))
        occ.add(matches(ex, occ, A[2], which, k, True))
        vac = st.fork()
        vac.gh['vacant'] = vac.gh.get('vacant', ()) + ((S_, A[1], A[2], which, st.fork()),)
        res = []
        if ex.feasible(occ):
            res.append((occ, SEnum('RawEntryMut', 0, {0: (Agg('Occupied*', [mp, k, which]),)})))
        res.append((vac, SEnum('RawEntryMut', 1, {1: (Agg('Vacant*', [mp, A[1], which]),)})))
        return res
    if m in ('key', 'get_key_value', 'into_key') and isinstance(A[0], (Ptr, Agg)):
        v = ex.load(st, A[0]) if isinstance(A[0], Ptr) else A[0]
        if isinstance(v, Agg) and v.ty == 'Occupied*' and m != 'get_key_value':
            return one(key_ref(ex, st, v.f[2], v.f[1]))
    if m == 'insert_with_hasher' and isinstance(A[0], Agg) and A[0].ty == 'Vacant*':
        mp = A[0].f[0]
        which = A[0].f[2]
        mv = ex.load(st, mp)
        e = owned_id(A[2].f[0])
        isn = which == 'nodes'
        st.add(nh_def(e, [I(0), I(1), I(2)]))
        ex.oblige(st, '%s: a key is inserted under its own hash' % ex.cur, A[1] == nh(e), 'pre')
        # rehashing: the hasher gives every key the hash it is stored under
        k = ex.sym('anykey')
        s = st.fork()
        s.add(gfacts(k), isnode(k) == isn, nh_def(k, [I(0), I(1), I(2)]))
        p = key_ref(ex, s, which, k)
        hp = ex.alloc(s, A[4])
        for s2, r in ex.call_value(s.fork(), hp, [p]):
            ex.oblige(s2, '%s: when the table grows, every key is given the hash it was inserted under' % ex.cur, r == nh(k), 'pre')
        ex.store(st, mp, mv.with_(0, z3.Store(mv.f[0], e, True)))
        return one(Agg('()', [key_ref(ex, st, which, e), ex.alloc(st, UNIT)]))
    if tn == 'Vec' or 'std::vec::Vec<' in (c.self_ty or ''):
        return vec(ex, st, c, tn, tr, m, A)
    if m == 'default' and not A:
        if c.self_ty == 'T':
            if ex.cur == '<CowMut as Default>::default':
                return one(Opq('T', default_T))
            if 'NodeCache' in ' '.join(ex.D.structs['GreenNodeBuilder'][2]):     # the only instance of CowMut's T
                return ex.call(st, '<green::node_cache::NodeCache as std::default::Default>::default', [], fr)
        if 'HashMap' in (c.self_ty or ''):
            return one(Agg('Map*', [z3.K(Int, z3.BoolVal(False)), 'nodes' if 'GreenNode>' in c.self_ty else 'tokens']))
    if isinstance(A[0] if A else None, Ptr) and isinstance(A[0].base, tuple) and A[0].base[0] == 'vsl':
        _, seq, lo, hi = A[0].base
        if m in ('last', 'first'):
            res = []
            for s2, i in ex.branch(st, [hi <= lo, hi > lo]):
                res.append((s2, NONE() if i == 0 else SOME(ex.alloc(s2, seq.at(s2, hi - 1 if m == 'last' else lo)))))
            return res
        if m == 'len':
            return one(hi - lo)
        if m == 'is_empty':
            return one(hi == lo)
        if m in ('iter', 'into_iter'):
            return one(vit(ex, seq, lo, hi))
    if tr == 'Iterator' and m == 'eq' and len(A) == 2:
        a, b = as_seq(ex, st, A[0]), as_seq(ex, st, A[1])

        def at(k):
            s = st.fork()
            n0 = len(s.pc)
            x, y = a.at(s, k), b.at(s, k)
            facts = And(True, *s.pc[n0:])       # true of the items in range; assumed whichever way the result is used
            body = And(facts, ex.veq(x, y)) if getattr(Wd, 'positive', True) else Implies(facts, ex.veq(x, y))
            return Implies(And(k >= 0, k < a.n), body)
        k = bv('eq')
        return one(And(a.n == b.n, z3.ForAll([k], at(k)), at(I(0)), at(I(1)), at(I(2))))
    if full.endswith('NonZero') or tn == 'NonZero':
        if m == 'new':
            return one(SEnum('Option', z3.If(A[0] == 0, I(0), I(1)), {0: (), 1: (A[0],)}))
        if m == 'get':
            return one(A[0])
    return None


def vit(ex, seq, lo, hi):
    return It('slice', src=('fn', lambda s, k: ex.alloc(s, seq.at(s, lo + k))), lo=I(0), hi=hi - lo)


def vec(ex, st, c, tn, tr, m, A):
    one = lambda v: [(st, v)]
    if m in ('new', 'default', 'with_capacity') and (not A or m == 'with_capacity'):
        t = c.raw
        v = child_vec(ex, st, 'v') if '(u64' in t else parent_vec(ex, st, 'v') if 'SyntaxKind, usize' in t else None
        return None if v is None else one(Agg('Vec', [v.f[0].with_(I(0), v.f[0].arrs)]))
    v = ex.load(st, A[0]) if A and isinstance(A[0], Ptr) and isinstance(A[0].base, int) else None
    if not (isinstance(v, Agg) and v.ty == 'Vec' and isinstance(v.f[0], TSeq)):
        return None
    s = v.f[0]
    if m == 'len':
        return one(s.n)
    if m == 'is_empty':
        return one(s.n == 0)
    if m == 'push':
        ex.store(st, A[0], Agg('Vec', [s.push(A[1])]))
        return one(UNIT)
    if m == 'pop':
        res = []
        for s2, i in ex.branch(st, [s.n == 0, s.n != 0]):
            if i == 0:
                res.append((s2, NONE()))
            else:
                ex.store(s2, A[0], Agg('Vec', [s.with_(s.n - 1, s.arrs)]))
                res.append((s2, SOME(s.at(s2, s.n - 1))))
        return res
    if m in ('last', 'first'):
        res = []
        for s2, i in ex.branch(st, [s.n == 0, s.n != 0]):
            res.append((s2, NONE() if i == 0 else SOME(ex.alloc(s2, s.at(s2, s.n - 1 if m == 'last' else I(0))))))
        return res
    if tr == 'Index' and m == 'index' and isinstance(A[1], Agg):
        lo, hi = rng(A[1], s.n)
        return [(s2, Ptr(('vsl', s, lo, hi))) for s2 in models.guard_panic(ex, st, And(lo >= 0, lo <= hi, hi <= s.n), 'Vec::index: range out of bounds')]
    if tr == 'Index' and m == 'index' and z3.is_expr(A[1]):
        return [(s2, ex.alloc(s2, s.at(s2, A[1]))) for s2 in models.guard_panic(ex, st, A[1] < s.n, 'Vec::index out of bounds')]
    if tr in ('Deref', 'DerefMut'):
        return one(Ptr(('vsl', s, I(0), s.n)))
    if m == 'iter':
        return one(vit(ex, s, I(0), s.n))
    if m == 'truncate':
        ex.store(st, A[0], Agg('Vec', [s.with_(z3.If(A[1] < s.n, A[1], s.n), s.arrs)]))
        return one(UNIT)
    if m in ('drain', 'split_off'):
        lo, hi = rng(A[1], s.n) if m == 'drain' else (A[1], s.n)
        res = []
        for s2 in models.guard_panic(ex, st, And(lo >= 0, lo <= hi, hi <= s.n), 'Vec::%s: range out of bounds' % m):
            if m == 'drain' and not z3.is_true(z3.simplify(hi == s.n)):
                raise Unsupported('drain of a middle range')
            ex.store(s2, A[0], Agg('Vec', [s.with_(lo, s.arrs)]))
            it = It('slice', src=('fn', lambda q, k: s.at(q, lo + k)), lo=I(0), hi=hi - lo)
            res.append((s2, it if m == 'drain' else Agg('Vec', [Seq(hi - lo, lambda q, k: s.at(q, lo + k))])))
        return res
    return None


def rng(r, n):
    if r.ty == 'RangeFrom':
        return r.f[0], n
    if r.ty == 'Range':
        return r.f[0], r.f[1]
    if r.ty == 'RangeTo':
        return I(0), r.f[0]
    if r.ty == 'RangeFull':
        return I(0), n
    raise Unsupported('range %r' % (r,))


def install(world):
    world.invs[('green::node_cache::node_hash', 0)] = NodeHashInv()
    world.invs[('NodeCache::node', 0)] = NodeInv()
    world.freshers.append(fresher)
    world.early_hooks.append(hook)
